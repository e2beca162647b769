// C03: closed intervals of reals / angles against a point-set model.
#include "lsst/sphgeom/AngleInterval.h"
#include "lsst/sphgeom/Interval1d.h"
#include "mc.h"
#include <limits>
#include <sstream>
using namespace lsst::sphgeom;
using mc::fmt;
static double const NaN = std::numeric_limits<double>::quiet_NaN();
static double const INF = std::numeric_limits<double>::infinity();

static double val(double x) { return x; }
static double val(Angle x) { return x.asRadians(); }

static bool isFull(Interval1d const & i) { return i.isFull(); }
static bool isFull(AngleInterval const & i) { return i == AngleInterval::full(); }

// The model: empty or [lo, hi].
struct M {
    bool e;
    double lo, hi;
    static M make(double a, double b) { return a <= b ? M{false, a, b} : M{true, 0, 0}; }
    bool has(double x) const { return !e && lo <= x && x <= hi; }
    bool operator==(M const & o) const { return (e && o.e) || (!e && !o.e && lo == o.lo && hi == o.hi); }
};
static M point(double x) { return M::make(x, x); }
static M meet(M const & a, M const & b) { if (a.e || b.e) return M{true, 0, 0}; return M::make(a.lo > b.lo ? a.lo : b.lo, a.hi < b.hi ? a.hi : b.hi); }
static M hull(M const & a, M const & b) { if (a.e) return b; if (b.e) return a; return M::make(a.lo < b.lo ? a.lo : b.lo, a.hi > b.hi ? a.hi : b.hi); }
static M dil(M const & a, double d) { if (a.e || d != d) return a; return M::make(a.lo - d, a.hi + d); }
static bool within(M const & a, M const & b) { return a.e || (!b.e && b.lo <= a.lo && a.hi <= b.hi); }
static int rel(M const & a, M const & b) { return (meet(a, b).e ? 1 : 0) | (within(b, a) ? 2 : 0) | (within(a, b) ? 4 : 0); }

template <typename I, typename S> struct T {
    static M model(I const & i) { return M::make(val(i.getA()), val(i.getB())); }
    static std::string show(I const & i) { return fmt("[%g,%g]", val(i.getA()), val(i.getB())); }
    static bool eq(I const & i, M const & m) {
        return i.isEmpty() == m.e && (m.e || (val(i.getA()) == m.lo && val(i.getB()) == m.hi));
    }
    static void all(char const * name, std::vector<double> V) {
        std::vector<double> P;   // probe points: the alphabet, its midpoints and beyond
        for (double x : V) P.push_back(x);
        for (size_t i = 0; i + 1 < V.size(); ++i) if (std::isfinite(V[i]) && std::isfinite(V[i + 1])) P.push_back(0.5 * (V[i] + V[i + 1]));
        P.push_back(1e300); P.push_back(-1e300);
        std::vector<I> is;
        for (double a : V) for (double b : V) is.push_back(I(S(a), S(b)));
        is.push_back(I()); is.push_back(I::empty()); is.push_back(I::full());
        for (double a : V) is.push_back(I(S(a)));
        mc::section(std::string(name) + ": single interval");
        for (size_t k = 0; k < is.size(); ++k) {
            if (!mc::mine(k)) continue;
            I const & i = is[k];
            M m = model(i);
            mc::state();
            mc::at(k);
            std::string id = show(i);
            if (i.isEmpty() != m.e) mc::fail("isEmpty " + id);
            if (isFull(i) != (!m.e && m.lo == -INF && m.hi == INF)) mc::fail("isFull " + id);
            if (!m.e && val(i.getSize()) != m.hi - m.lo && !(std::isnan(m.hi - m.lo))) mc::fail("getSize " + id);
            if (!m.e && std::isfinite(m.hi + m.lo) && val(i.getCenter()) != 0.5 * (m.lo + m.hi)) mc::fail("getCenter " + id);
            if (m.e && val(i.getSize()) >= 0) mc::fail("getSize(empty) " + id);
            for (double x : P) {
                M p = point(x);
                I xi = I(S(x));
                mc::trans(10);
                auto a = [&] { return id + fmt(" x=%g", x); };
                if (i.contains(S(x)) != within(p, m)) mc::fail("contains(x) " + a());
                if (i.intersects(S(x)) != !meet(m, p).e) mc::fail("intersects(x) " + a());
                if (i.isDisjointFrom(S(x)) != meet(m, p).e) mc::fail("isDisjointFrom(x) " + a());
                if (i.isWithin(S(x)) != within(m, p)) mc::fail("isWithin(x) " + a());
                if ((int)i.relate(S(x)).to_ulong() != rel(m, p)) mc::fail("relate(x) " + a());
                if ((i == S(x)) != (m == p) || (i != S(x)) == (m == p)) mc::fail("==(x) " + a());
                { I j(i); j.clipTo(S(x)); if (!eq(j, meet(m, p)) || !eq(i.clippedTo(S(x)), meet(m, p))) mc::fail("clipTo(x) " + a(), show(j)); }
                { I j(i); j.expandTo(S(x)); if (!eq(j, hull(m, p)) || !eq(i.expandedTo(S(x)), hull(m, p))) mc::fail("expandTo(x) " + a(), show(j)); }
                if (std::isfinite(x) || x != x) {
                    I j(i), l(i);
                    j.dilateBy(S(x)); l.erodeBy(S(x));
                    if (!eq(j, dil(m, x)) || !eq(i.dilatedBy(S(x)), dil(m, x))) mc::fail("dilateBy " + a(), show(j));
                    if (!eq(l, dil(m, -x)) || !eq(i.erodedBy(S(x)), dil(m, -x))) mc::fail("erodeBy " + a(), show(l));
                }
                mc::trace();
            }
            mc::sample(id);
        }
        mc::section(std::string(name) + ": interval pairs");
        for (size_t k = 0; k < is.size(); ++k) {
            if (!mc::mine(k)) continue;
            for (size_t q = 0; q < is.size(); ++q) {
                mc::at(k, q);
                I const & i = is[k];
                I const & j = is[q];
                M a = model(i), b = model(j);
                auto s = [&] { return show(i) + " " + show(j); };
                mc::state();
                mc::trans(12);
                if (i.contains(j) != within(b, a)) mc::fail("contains " + s());
                if (i.isWithin(j) != within(a, b)) mc::fail("isWithin " + s());
                if (i.intersects(j) != !meet(a, b).e) mc::fail("intersects " + s());
                if (i.isDisjointFrom(j) != meet(a, b).e) mc::fail("isDisjointFrom " + s());
                if ((int)i.relate(j).to_ulong() != rel(a, b)) mc::fail("relate " + s(), fmt("got %d want %d", (int)i.relate(j).to_ulong(), rel(a, b)));
                if ((i == j) != (a == b) || (i != j) == (a == b)) mc::fail("== " + s());
                { I x(i); x.clipTo(j); if (!eq(x, meet(a, b)) || !eq(i.clippedTo(j), meet(a, b))) mc::fail("clipTo " + s(), show(x)); }
                { I x(i); x.expandTo(j); if (!eq(x, hull(a, b)) || !eq(i.expandedTo(j), hull(a, b))) mc::fail("expandTo " + s(), show(x)); }
                mc::trace();
            }
        }
        // Self-aliasing and histories: every operation sequence, merging identical representations.
        mc::section(std::string(name) + ": operation histories");
        if (mc::g().shard == 0) {
            std::map<std::pair<uint64_t, uint64_t>, int> seen;
            std::vector<std::pair<I, M>> q;
            auto bits = [](double d) { uint64_t u; memcpy(&u, &d, 8); return u; };
            auto push = [&](I const & i, M const & m, std::string const & how) {
                if (!eq(i, m)) { mc::fail("history " + how, show(i)); return; }
                if (!m.e && (std::fabs(m.lo) > 8 && std::isfinite(m.lo))) return;
                if (!m.e && (std::fabs(m.hi) > 8 && std::isfinite(m.hi))) return;
                auto k = std::make_pair(bits(val(i.getA())), bits(val(i.getB())));
                if (!seen.emplace(k, 1).second) return;
                q.emplace_back(i, m);
                mc::state();
            };
            push(I(), M{true, 0, 0}, "init");
            push(I::full(), M::make(-INF, INF), "init");
            for (size_t h = 0; h < q.size() && q.size() < 20000; ++h) {
                I const i = q[h].first;
                M const m = q[h].second;
                mc::at(h);
                for (double x : V) {
                    I j(i);
                    push(I(j.clipTo(S(x))), meet(m, point(x)), show(i) + fmt(" clipTo %g", x));
                    j = i; push(I(j.expandTo(S(x))), hull(m, point(x)), show(i) + fmt(" expandTo %g", x));
                    if (std::isfinite(x)) { j = i; push(I(j.dilateBy(S(x))), dil(m, x), show(i) + fmt(" dilateBy %g", x)); }
                    if (std::isfinite(x)) { j = i; push(I(j.erodeBy(S(x))), dil(m, -x), show(i) + fmt(" erodeBy %g", x)); }
                    mc::trans(4);
                }
                for (auto & o : is) {
                    I j(i);
                    push(I(j.clipTo(o)), meet(m, model(o)), show(i) + " clipTo " + show(o));
                    j = i; push(I(j.expandTo(o)), hull(m, model(o)), show(i) + " expandTo " + show(o));
                    mc::trans(2);
                }
                I j(i); j.clipTo(j); if (!eq(j, m)) mc::fail("self clipTo " + show(i));
                j = i; j.expandTo(j); if (!eq(j, m)) mc::fail("self expandTo " + show(i));
                mc::trace();
            }
        }
    }
};

static void body() {
    std::vector<double> V{NaN, -INF, -2, -1, -0.5, -0.0, 0.0, 0.25, 1, 2, INF};
    if (mc::thorough()) V.insert(V.end(), {-1e308, 5e-324, -5e-324, 3, 1.5, 1e-300});
    if (mc::deep()) V.insert(V.end(), {1e-16, 1.0000000000000002, -1e-300, 1e308, -3, 0.1, 0.3});
    T<Interval1d, double>::all("real", V);
    T<AngleInterval, Angle>::all("angle", V);
    mc::section("angle: factories");
    for (double a : V) for (double b : V) {
        if (mc::g().shard) continue;
        AngleInterval r = AngleInterval::fromRadians(a, b), d = AngleInterval::fromDegrees(a, b);
        mc::state(); mc::trans(2); mc::trace();
        if (!(r == AngleInterval(Angle(a), Angle(b))) || !(d == AngleInterval(Angle::fromDegrees(a), Angle::fromDegrees(b)))) mc::fail(fmt("factory %g %g", a, b));
        if (std::isfinite(a) && std::isfinite(b) && a <= b && (std::fabs(d.getA().asRadians() - a * (M_PI / 180)) > 1e-15 * (1 + std::fabs(a * 0.1)) || std::fabs(d.getB().asRadians() - b * (M_PI / 180)) > 1e-15 * (1 + std::fabs(b)))) mc::fail(fmt("fromDegrees %g %g", a, b));
    }
}
int main(int argc, char ** argv) { return mc::run(argc, argv, body); }
