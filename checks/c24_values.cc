// C24, values: copies are independent of what they were copied from. All sequences of constructions, assignments, moves,
// swaps and modifications of two objects, up to a depth; after every step each object must look exactly like one that
// was made from scratch by the operations that led to its abstract value.
#include "lsst/sphgeom/AngleInterval.h"
#include "lsst/sphgeom/BigInteger.h"
#include "lsst/sphgeom/Chunker.h"
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/Interval1d.h"
#include "lsst/sphgeom/Matrix3d.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "lsst/sphgeom/Q3cPixelization.h"
#include "lsst/sphgeom/RangeSet.h"
#include "zoo.h"
#include <array>
#include <memory>
#include <sstream>
using namespace zoo;
using mc::fmt;
typedef std::string Print;
template <class T> static Print str(T const & x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
static Print enc(Region const & r) {
    auto e = r.encode();
    Print s(e.begin(), e.end());
    auto c = r.clone()->encode();
    s += Print(c.begin(), c.end());
    Circle b = r.getBoundingCircle();
    s += str(b) + str(r.getBoundingBox()) + fmt(" %d%d", r.contains(UnitVector3d(1, 1, 1)), r.contains(UnitVector3d(0.9, 0.1, 0.2)));
    return s;
}
template <class T> struct Un { char const * name; std::function<void(T &)> f; };
template <class T> struct Bi { char const * name; std::function<void(T &, T const &)> f; };
template <class T> struct Cls {
    char const * name;
    std::vector<std::function<T()>> init;
    std::function<Print(T const &)> fp;
    std::vector<Un<T>> un;
    std::vector<Bi<T>> bi;
};
enum Kind { COPYCTOR, MOVECTOR, COPY, MOVE, SWAP, CLONE, UNARY, BINARY };
struct Step { Kind k; int a, b, m; };
template <class T, bool A> struct Ops {
    static void copy(T & a, T const & b) { a = b; }
    static void move(T & a, T & b) { a = std::move(b); }
    static void swp(T & a, T & b) { std::swap(a, b); }
};
template <class T> struct Ops<T, false> {
    static void copy(T &, T const &) {}
    static void move(T &, T &) {}
    static void swp(T &, T &) {}
};
template <class T, bool R> struct Cl { static std::unique_ptr<T> of(T const & x) { auto c = x.clone(); return std::unique_ptr<T>(static_cast<T *>(c.release())); } };
template <class T> struct Cl<T, false> { static std::unique_ptr<T> of(T const & x) { return std::unique_ptr<T>(new T(x)); } };
template <class T> struct Run {
    enum { ASSIGN = std::is_copy_assignable<T>::value, REGION = std::is_base_of<Region, T>::value };
    Cls<T> const & c;
    struct Val { int from, op, with; Print p; };  // an abstract value: an initial one, or an operation on one (two)
    std::vector<Val> vals;
    std::map<std::array<int, 3>, int> memo;
    T make(int v) {
        Val const & x = vals[v];
        if (x.from < 0) return c.init[x.op]();
        T t = make(x.from);
        if (x.with < 0) c.un[x.op].f(t);
        else { T w = make(x.with); c.bi[x.op].f(t, w); }
        return t;
    }
    int value(int from, int op, int with) {
        auto k = std::array<int, 3>{from, op, with};
        auto it = memo.find(k);
        if (it != memo.end()) return it->second;
        vals.push_back({from, op, with, ""});
        int id = (int)vals.size() - 1;
        { T t = make(id); vals[id].p = c.fp(t); }
        return memo[k] = id;
    }
    std::vector<Step> steps;
    Run(Cls<T> const & c_) : c(c_) {
        for (int a = 0; a < 2; ++a)
            for (int b = 0; b < 2; ++b) {
                steps.push_back({COPYCTOR, a, b, 0});
                if (a != b) steps.push_back({MOVECTOR, a, b, 0});
                if (ASSIGN) steps.push_back({COPY, a, b, 0});
                if (ASSIGN && a != b) steps.push_back({MOVE, a, b, 0});
                if (REGION) steps.push_back({CLONE, a, b, 0});
                for (int m = 0; m < (int)c.bi.size(); ++m) steps.push_back({BINARY, a, b, m});
            }
        if (ASSIGN) steps.push_back({SWAP, 0, 1, 0});
        for (int a = 0; a < 2; ++a) for (int m = 0; m < (int)c.un.size(); ++m) steps.push_back({UNARY, a, 0, m});
    }
    Print show(Step const & s) {
        char const * n[] = {"construct as copy of", "construct by moving", "assign", "assign by moving", "swap with", "clone"};
        char a = 'x' + s.a, b = 'x' + s.b;
        if (s.k == UNARY) return fmt("%c %s", a, c.un[s.m].name);
        if (s.k == BINARY) return fmt("%c %s %c", a, c.bi[s.m].name, b);
        return fmt("%c %s %c", a, n[s.k], b);
    }
    // Executes a sequence; false if it is not applicable (it uses an object that was moved from)
    void sequence(int i, int j, std::vector<int> const & q) {
        std::unique_ptr<T> o[2] = {std::unique_ptr<T>(new T(c.init[i]())), std::unique_ptr<T>(new T(c.init[j]()))};
        int v[2] = {value(-1, i, -1), value(-1, j, -1)};
        bool moved[2] = {false, false};
        for (size_t n = 0; n < q.size(); ++n) {
            Step const & s = steps[q[n]];
            int a = s.a, b = s.b;
            bool needA = s.k == UNARY || s.k == BINARY || s.k == SWAP, needB = s.k != UNARY;
            if ((needA && moved[a]) || (needB && moved[b])) return;
            switch (s.k) {
                case COPYCTOR: { auto t = std::unique_ptr<T>(new T(*o[b])); o[a] = std::move(t); v[a] = v[b]; moved[a] = false; break; }
                case MOVECTOR: { auto t = std::unique_ptr<T>(new T(std::move(*o[b]))); o[a] = std::move(t); v[a] = v[b]; moved[a] = false; moved[b] = true; break; }
                case COPY: Ops<T, ASSIGN>::copy(*o[a], *o[b]); v[a] = v[b]; moved[a] = false; break;
                case MOVE: Ops<T, ASSIGN>::move(*o[a], *o[b]); v[a] = v[b]; moved[a] = false; moved[b] = true; break;
                case SWAP: Ops<T, ASSIGN>::swp(*o[0], *o[1]); std::swap(v[0], v[1]); break;
                case CLONE: { auto t = Cl<T, REGION>::of(*o[b]); o[a] = std::move(t); v[a] = v[b]; moved[a] = false; break; }
                case UNARY: c.un[s.m].f(*o[a]); v[a] = value(v[a], s.m, -1); break;
                case BINARY: { int w = value(v[a], s.m, v[b]); c.bi[s.m].f(*o[a], *o[b]); v[a] = w; break; }
            }
            mc::trans();
            for (int k = 0; k < 2; ++k) {
                if (moved[k]) continue;
                if (c.fp(*o[k]) == vals[v[k]].p) continue;
                Print key = fmt("%s: x=#%d y=#%d", c.name, i, j);
                for (size_t z = 0; z <= n; ++z) key += "; " + show(steps[q[z]]);
                mc::fail(key, fmt("%c is no longer what it should be", 'x' + k));
                return;
            }
        }
    }
    void all(int depth, uint64_t & n, int cls) {
        int N = (int)c.init.size();
        for (int i = 0; i < N; ++i)
            for (int j = 0; j < N; ++j) {
                std::vector<int> q(depth, 0);
                for (;;) {
                    if (mc::mine(n++)) {
                        mc::at(0, cls, q[0], q[1], i * 10 + j);
                        mc::state();
                        sequence(i, j, q);
                    }
                    int d = depth - 1;
                    while (d >= 0 && ++q[d] == (int)steps.size()) q[d--] = 0;
                    if (d < 0) break;
                }
            }
        if (mc::wantSample()) mc::sample(fmt("%s: all sequences of %d of %zu steps on two objects, %d x %d initial values; %zu abstract values", c.name, depth, steps.size(), N, N, vals.size()));
    }
};
static uint64_t counter;
static int cls;
template <class T> static void check(Cls<T> const & c) {
    Run<T> r(c);
    bool cheap = r.steps.size() <= 24;
#ifdef __SANITIZE_ADDRESS__
    r.all(mc::thorough() ? (cheap ? 4 : 3) : (cheap ? 3 : 2), counter, cls++);
#else
    r.all(mc::thorough() ? (cheap ? 5 : 4) : 3, counter, cls++);
#endif
}
static UnitVector3d uv(double x, double y, double z) { return UnitVector3d(x, y, z); }
template <class I, class S> static Cls<I> interval(char const * n, double a, double b, double d, double e) {
    return {n, {[=] { return I(S(a), S(b)); }, [=] { return I(S(d), S(e)); }, [] { return I(); }},
        [](I const & x) { return str(x) + fmt(" %d", x.isEmpty()); },
        {{"dilated", [](I & x) { x = x.dilatedBy(S(0.125)); }}, {"clip to point", [=](I & x) { x.clipTo(S(a)); }}, {"expand to point", [=](I & x) { x.expandTo(S(e)); }}},
        {{"expand to", [](I & x, I const & y) { x.expandTo(y); }}, {"clip to", [](I & x, I const & y) { x.clipTo(y); }}}};
}
int main(int argc, char ** argv) {
    return mc::run(argc, argv, [] {
        mc::section("value semantics");
        check<RangeSet>({"RangeSet", {[] { return RangeSet(); }, [] { RangeSet r; r.insert(3, 7); r.insert(20, 40); return r; }, [] { RangeSet r; r.insert(5, 30); r.complement(); return r; }},
            [](RangeSet const & r) { Print s = fmt("%zu %d %d:", r.size(), r.empty(), r.isValid()); for (auto p : r) s += fmt(" %" PRIu64 "-%" PRIu64, std::get<0>(p), std::get<1>(p)); return s; },
            {{"insert", [](RangeSet & r) { r.insert(6, 25); }}, {"erase", [](RangeSet & r) { r.erase(4, 22); }}, {"complement", [](RangeSet & r) { r.complement(); }}, {"clear", [](RangeSet & r) { r.clear(); }}, {"simplify", [](RangeSet & r) { r.simplify(3); }}, {"fill", [](RangeSet & r) { r.fill(); }}},
            {{"|=", [](RangeSet & a, RangeSet const & b) { a |= b; }}, {"-=", [](RangeSet & a, RangeSet const & b) { a -= b; }}, {"^=", [](RangeSet & a, RangeSet const & b) { a ^= b; }}, {"&=", [](RangeSet & a, RangeSet const & b) { a &= b; }}}});
        check<Circle>({"Circle", {[] { return Circle(uv(1, 1, 1), Angle(0.3)); }, [] { return Circle::empty(); }, [] { return Circle(uv(1, 0, 0.2), 0.5); }},
            [](Circle const & x) { return enc(x) + str(x.getOpeningAngle()) + fmt("%d", x.isEmpty()); },
            {{"complement", [](Circle & x) { x.complement(); }}, {"dilate", [](Circle & x) { x.dilateBy(Angle(0.1)); }}, {"expand to point", [](Circle & x) { x.expandTo(uv(0, 1, 0)); }}},
            {{"expand to", [](Circle & x, Circle const & y) { x.expandTo(y); }}, {"clip to", [](Circle & x, Circle const & y) { x.clipTo(y); }}}});
        check<Box>({"Box", {[] { return Box::fromDegrees(10, 10, 30, 40); }, [] { return Box(); }, [] { return Box::fromDegrees(350, -20, 25, 15); }},
            [](Box const & x) { return enc(x) + str(x.getWidth()) + str(x.getHeight()); },
            {{"dilate", [](Box & x) { x.dilateBy(Angle(0.1), Angle(0.2)); }}, {"expand to point", [](Box & x) { x.expandTo(LonLat::fromDegrees(80, 5)); }}, {"clip to point", [](Box & x) { x.clipTo(LonLat::fromDegrees(20, 12)); }}},
            {{"expand to", [](Box & x, Box const & y) { x.expandTo(y); }}, {"clip to", [](Box & x, Box const & y) { x.clipTo(y); }}}});
        check<Box3d>({"Box3d", {[] { return Box3d(Interval1d(0, 1), Interval1d(-1, 0.5), Interval1d(0.25, 2)); }, [] { return Box3d(); }, [] { return Box3d(Vector3d(0.5, 0.25, 1)); }},
            [](Box3d const & x) { return str(x) + fmt("%d", x.isEmpty()); },
            {{"dilate", [](Box3d & x) { x.dilateBy(0.1); }}, {"expand to point", [](Box3d & x) { x.expandTo(Vector3d(3, 2, 1)); }}},
            {{"expand to", [](Box3d & x, Box3d const & y) { x.expandTo(y); }}, {"clip to", [](Box3d & x, Box3d const & y) { x.clipTo(y); }}}});
        check<Ellipse>({"Ellipse", {[] { return Ellipse(uv(1, 1, 1), Angle(0.4), Angle(0.2), Angle(0.5)); }, [] { return Ellipse(); }, [] { return Ellipse(uv(1, 0, 0), uv(1, 0.3, 0), Angle(0.4)); }},
            [](Ellipse const & x) { return enc(x) + str(x.getCenter()) + str(x.getF1()) + str(x.getAlpha()) + str(x.getBeta()) + str(x.getGamma()); },
            {{"complement", [](Ellipse & x) { x.complement(); }}}, {}});
        check<ConvexPolygon>({"ConvexPolygon", {[] { return ConvexPolygon(std::vector<UnitVector3d>{uv(1, 0, 0), uv(0, 1, 0), uv(0, 0, 1)}); }, [] { return ConvexPolygon(std::vector<UnitVector3d>{uv(1, 0, 0), uv(1, 0.2, 0), uv(1, 0.3, 0.3), uv(1, 0, 0.4)}); }},
            [](ConvexPolygon const & x) { Print s = enc(x); for (auto & v : x.getVertices()) s += str(v); return s + str(x.getCentroid()) + fmt("%d", x == x); }, {}, {}});
        check<UnionRegion>({"UnionRegion", {[] { return UnionRegion(Circle(uv(1, 1, 1), Angle(0.3)), Box::fromDegrees(10, 10, 30, 40)); }, [] { return UnionRegion(ConvexPolygon(std::vector<UnitVector3d>{uv(1, 0, 0), uv(0, 1, 0), uv(0, 0, 1)}), Circle(uv(1, 0, 0))); }},
            [](UnionRegion const & x) { return enc(x) + enc(x.getOperand(0)) + enc(x.getOperand(1)); }, {}, {}});
        check<IntersectionRegion>({"IntersectionRegion", {[] { return IntersectionRegion(Circle(uv(1, 1, 1), Angle(0.3)), Box::fromDegrees(10, 10, 30, 40)); }, [] { return IntersectionRegion(UnionRegion(ConvexPolygon(std::vector<UnitVector3d>{uv(1, 0, 0), uv(0, 1, 0), uv(0, 0, 1)}), Circle(uv(1, 0, 0))), Box::full()); }},
            [](IntersectionRegion const & x) { return enc(x) + enc(x.getOperand(0)) + enc(x.getOperand(1)); }, {}, {}});
        check<Interval1d>(interval<Interval1d, double>("Interval1d", 1, 3, -2, 1.5));
        check<AngleInterval>(interval<AngleInterval, Angle>("AngleInterval", 0.5, 2, -1, 0.75));
        check<NormalizedAngleInterval>({"NormalizedAngleInterval", {[] { return NormalizedAngleInterval::fromRadians(0.5, 2); }, [] { return NormalizedAngleInterval::fromRadians(5, 1); }, [] { return NormalizedAngleInterval(); }},
            [](NormalizedAngleInterval const & x) { return str(x) + str(x.getSize()) + fmt("%d%d", x.isEmpty(), x.wraps()); },
            {{"dilated", [](NormalizedAngleInterval & x) { x = x.dilatedBy(Angle(0.2)); }}, {"expand to point", [](NormalizedAngleInterval & x) { x.expandTo(NormalizedAngle(3)); }}},
            {{"expand to", [](NormalizedAngleInterval & x, NormalizedAngleInterval const & y) { x.expandTo(y); }}, {"clip to", [](NormalizedAngleInterval & x, NormalizedAngleInterval const & y) { x.clipTo(y); }}}});
        check<Vector3d>({"Vector3d", {[] { return Vector3d(1, 2, 3); }, [] { return Vector3d(-0.5, 1e100, 0); }}, [](Vector3d const & x) { return str(x); },
            {{"normalize", [](Vector3d & x) { if (std::isnormal(x.getSquaredNorm())) x.normalize(); }}, {"*=", [](Vector3d & x) { x *= 3; }}},
            {{"+=", [](Vector3d & x, Vector3d const & y) { x += y; }}, {"cross", [](Vector3d & x, Vector3d const & y) { x = x.cross(y) + y; }}, {"cwise", [](Vector3d & x, Vector3d const & y) { x = x.cwiseProduct(y); }}}});
        check<Matrix3d>({"Matrix3d", {[] { return Matrix3d(1, 2, 3, 4, 5, 6, 7, 8, 10); }, [] { return Matrix3d(2); }, [] { return Matrix3d(Vector3d(1, 2, 4)); }}, [](Matrix3d const & x) { return str(x) + str(x.getRow(1)) + str(x.getColumn(2)); },
            {{"transpose", [](Matrix3d & x) { x = x.transpose(); }}, {"scale", [](Matrix3d & x) { x = x.inverse(); }}},
            {{"times", [](Matrix3d & x, Matrix3d const & y) { x = x * y; }}, {"plus", [](Matrix3d & x, Matrix3d const & y) { x = x + y; }}}});
        check<UnitVector3d>({"UnitVector3d", {[] { return uv(1, 2, 3); }, [] { return UnitVector3d(); }}, [](UnitVector3d const & x) { return str(x) + str(LonLat(x)); },
            {{"negate", [](UnitVector3d & x) { x = -x; }}, {"rotate", [](UnitVector3d & x) { x = x.rotatedAround(UnitVector3d::Y(), Angle(0.5)); }}}, {{"cross", [](UnitVector3d & x, UnitVector3d const & y) { Vector3d n = x.robustCross(y); x = n.isZero() ? UnitVector3d::orthogonalTo(x) : UnitVector3d(n); }}}});
        check<LonLat>({"LonLat", {[] { return LonLat::fromDegrees(10, 20); }, [] { return LonLat(); }}, [](LonLat const & x) { return str(x); }, {}, {}});
        check<Angle>({"Angle", {[] { return Angle(1.5); }, [] { return Angle(-3); }}, [](Angle const & x) { return str(x); }, {{"*=", [](Angle & x) { x *= 1.5; }}, {"/=", [](Angle & x) { x /= 3; }}}, {{"+=", [](Angle & x, Angle const & y) { x += y; }}, {"-=", [](Angle & x, Angle const & y) { x -= y; }}}});
        check<Chunker>({"Chunker", {[] { return Chunker(10, 3); }, [] { return Chunker(5, 2); }},
            [](Chunker const & x) { Print s = fmt("%d %d %d:", x.getNumStripes(), x.getNumSubStripesPerStripe(), x == x); for (int c : x.getAllChunks()) s += fmt(" %d", c); for (int c : x.getChunksIntersecting(Circle(uv(1, 1, 1), Angle(0.3)))) s += fmt(" %d", c); return s; }, {}, {}});
#define PIX(C) check<C>({#C, {[] { return C(2); }, [] { return C(5); }}, [](C const & x) { Print s = fmt("%d:", x.getLevel()); for (auto r : x.envelope(Circle(uv(1, 1, 1), Angle(0.3)), 8)) s += fmt(" %" PRIu64 "-%" PRIu64, std::get<0>(r), std::get<1>(r)); return s; }, {}, {}})
        PIX(HtmPixelization); PIX(Q3cPixelization); PIX(Mq3cPixelization);
        // BigInteger works on memory of the caller: assignment copies digits, not the buffer
        mc::section("BigInteger assignment");
        for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) for (int m = 0; m < 3; ++m) {
            if (!mc::mine(counter++)) continue;
            uint32_t x[16], y[16];
            memset(x, 0xee, sizeof x); memset(y, 0xdd, sizeof y);
            BigInteger p(x, 16), q(y, 16), *o[2] = {&p, &q};
            int64_t vals[] = {0, -5, INT64_MAX, INT64_MIN + 7};
            p.setTo(vals[a]); q.setTo(vals[b]); q.multiplyPow2(65);
            for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
                mc::state(); mc::trans();
                *o[i] = *o[j];
                unsigned n = o[j]->getSize();
                std::vector<uint32_t> before(o[j]->getDigits(), o[j]->getDigits() + n);
                int sg = o[j]->getSign();
                if (o[i]->getSize() != n || o[i]->getSign() != sg || !std::equal(before.begin(), before.end(), o[i]->getDigits())) mc::fail(fmt("%d %d %d: assign %d %d", a, b, m, i, j), "digits differ");
                if (o[0]->getDigits() == o[1]->getDigits()) mc::fail(fmt("%d %d %d: assign %d %d", a, b, m, i, j), "the buffers are shared");
                if (i != j) {
                    if (m == 0) o[i]->multiplyPow2(3); else if (m == 1) o[i]->negate(); else o[i]->add(*o[j]);
                    if (o[j]->getSize() != n || o[j]->getSign() != sg || !std::equal(before.begin(), before.end(), o[j]->getDigits())) mc::fail(fmt("%d %d %d: modify copy %d %d", a, b, m, i, j), "the original changed");
                }
            }
        }
    });
}
