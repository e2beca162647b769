// C04: circular intervals against a model that lists which alphabet positions (points and the open gaps
// between consecutive points) of the circle each interval covers.
#include "lsst/sphgeom/NormalizedAngleInterval.h"
#include "mc.h"
#include <algorithm>
#include <limits>
using namespace lsst::sphgeom;
typedef NormalizedAngleInterval I;
typedef NormalizedAngle N;
using mc::fmt;
static double const TWO_PI = 2.0 * PI;
static double const NaN = std::numeric_limits<double>::quiet_NaN();
static double const TOL = 1e-14;

typedef std::vector<char> Set;
static std::vector<double> P;       // sorted points; the last one is 2*PI
static std::vector<long double> Q;  // probe value of each position: every point, and the gap after it (which may hold no double)
static int NP() { return (int)Q.size(); }

static Set setOf(double a, double b) {
    Set s(NP(), 0);
    if (a != a || b != b) return s;
    for (int i = 0; i < NP(); ++i) s[i] = a <= b ? (a <= Q[i] && Q[i] <= b) : (Q[i] <= b || a <= Q[i]);
    return s;
}
static Set setOf(I const & i) { return setOf(i.getA().asRadians(), i.getB().asRadians()); }
static bool any(Set const & s) { return std::find(s.begin(), s.end(), 1) != s.end(); }
static bool allOf(Set const & s) { return std::find(s.begin(), s.end(), 0) == s.end(); }
static Set meet(Set a, Set const & b) { for (size_t i = 0; i < a.size(); ++i) a[i] &= b[i]; return a; }
static Set join(Set a, Set const & b) { for (size_t i = 0; i < a.size(); ++i) a[i] |= b[i]; return a; }
static bool sub(Set const & a, Set const & b) { for (size_t i = 0; i < a.size(); ++i) if (a[i] && !b[i]) return false; return true; }
static double len(double a, double b) { return a != a ? -1 : a <= b ? b - a : b - a + TWO_PI; }
// Length of the shortest interval with alphabet endpoints covering s.
static double best(Set const & s) {
    if (!any(s)) return -1;
    if (allOf(s)) return TWO_PI;
    double m = TWO_PI;
    for (double a : P) for (double b : P) if (sub(s, setOf(a, b))) m = std::min(m, len(a, b));
    return m;
}
static std::string show(I const & i) { return fmt("[%.17g,%.17g]", i.getA().asRadians(), i.getB().asRadians()); }
static N mk(double a) { return N(a); }
static double lenI(I const & i) { return len(i.getA().asRadians(), i.getB().asRadians()); }

static void body() {
    double const p = PI;
    std::vector<double> base{0.0, 0.3, 0.5, 1.0, 0.5 * p, 2.0, p, 4.0, 1.5 * p, 5.5, std::nextafter(TWO_PI, 0.0), TWO_PI};
    if (mc::thorough()) {
        base.insert(base.end(), {5e-324, 1e-9, std::nextafter(p, 0), std::nextafter(p, 4), 0.25 * p, 0.75 * p, 1.25 * p, 1.75 * p, 0.1, 3.0, 5.0, 6.0, 6.2, 1.3, 2.7, 4.4});
    }
    std::sort(base.begin(), base.end());
    P = base;
    for (size_t i = 0; i < P.size(); ++i) {
        Q.push_back(P[i]);
        if (i + 1 < P.size()) { Q.push_back(0.5L * ((long double)P[i] + (long double)P[i + 1])); }
    }
    std::vector<I> is{I(), I::empty(), I::full(), I(N::nan(), mk(1)), I(mk(1), N::nan())};
    for (double a : P) is.push_back(I(mk(a)));
    for (double a : P) for (double b : P) is.push_back(I(mk(a), mk(b)));
    std::vector<Set> sets;
    for (auto & i : is) sets.push_back(setOf(i));
    std::map<Set, double> bestCache;
    auto bst = [&](Set const & s) { auto f = bestCache.find(s); if (f != bestCache.end()) return f->second; return bestCache[s] = best(s); };

    mc::section("interval and point");
    for (size_t k = 0; k < is.size(); ++k) {
        if (!mc::mine(k)) continue;
        I const & i = is[k];
        Set const & s = sets[k];
        std::string id = show(i);
        mc::state();
        bool full = i.getA().asRadians() == 0 && i.getB().asRadians() == TWO_PI;
        bool emp = std::isnan(i.getA().asRadians()) || std::isnan(i.getB().asRadians());
        if (i.isEmpty() != emp || i.isFull() != full) mc::fail("isEmpty/isFull " + id);
        if (!emp && i.wraps() != (i.getA().asRadians() > i.getB().asRadians())) mc::fail("wraps " + id);
        if (!emp && std::fabs(i.getSize().asRadians() - lenI(i)) > TOL) mc::fail("getSize " + id);
        if (emp && !i.getSize().isNan()) mc::fail("getSize(empty) " + id);
        if (!emp && !full) {
            double c = i.getCenter().asRadians();
            double d1 = len(i.getA().asRadians(), c), L = lenI(i);
            bool atA = L < TOL;  // the center of a (nearly) single point is that point, possibly rounded across it
            if (!(c >= 0 && c <= TWO_PI)) mc::fail("getCenter range " + id);
            if (atA ? !(d1 < TOL || d1 > TWO_PI - TOL) : !(i.contains(i.getCenter()) && std::fabs(d1 - 0.5 * L) < 1e-14)) mc::fail("getCenter " + id, fmt("center %.17g", c));
        }
        for (int q = 0; q < NP(); ++q) {
            if ((long double)(double)Q[q] != Q[q]) continue;
            N x = mk((double)Q[q]);
            Set ps(NP(), 0);
            ps[q] = 1;
            mc::at(k, q);
            mc::trans(9);
            auto a = [&] { return id + fmt(" x=%.17g", (double)Q[q]); };
            if (i.contains(x) != (bool)s[q]) mc::fail("contains(x) " + a());
            if (i.intersects(x) != (bool)s[q]) mc::fail("intersects(x) " + a());
            if (i.isDisjointFrom(x) != !s[q]) mc::fail("isDisjointFrom(x) " + a());
            bool isP = !emp && i.getA().asRadians() == Q[q] && i.getB().asRadians() == Q[q];
            if (i.isWithin(x) != (emp || isP)) mc::fail("isWithin(x) " + a());
            int w = (s[q] ? 2 : 1) | ((emp || isP) ? 4 : 0);
            if ((int)i.relate(x).to_ulong() != w) mc::fail("relate(x) " + a(), fmt("got %d want %d", (int)i.relate(x).to_ulong(), w));
            if ((i == x) != isP || (i != x) == isP) mc::fail("==(x) " + a());
            I c(i); c.clipTo(x);
            I c2 = i.clippedTo(x);
            if (c != c2 || setOf(c) != meet(s, ps)) mc::fail("clipTo(x) " + a(), show(c));
            I e(i); e.expandTo(x);
            I e2 = i.expandedTo(x);
            Set u = join(s, ps), es = setOf(e);
            if (e != e2 || !sub(u, es)) mc::fail("expandTo(x) not containing " + a(), show(e));
            // Shortest: compare with growing at either end.
            double want = emp ? 0 : s[q] ? lenI(i) : std::min(len(i.getA().asRadians(), (double)Q[q]), len((double)Q[q], i.getB().asRadians()));
            if (std::fabs(lenI(e) - want) > TOL) mc::fail("expandTo(x) not shortest " + a(), show(e) + fmt(" len %.17g want %.17g", lenI(e), want));
            mc::trace();
        }
        I n(i);
        if (!(i.contains(N::nan()) && i.clippedTo(N::nan()).isEmpty() && (i.relate(N::nan()).to_ulong() == (emp ? 7u : 3u)) && i.isDisjointFrom(N::nan()))) mc::fail("NaN " + id);
        mc::sample(id);
    }

    mc::section("interval pairs");
    for (size_t k = 0; k < is.size(); ++k) {
        if (!mc::mine(k)) continue;
        for (size_t q = 0; q < is.size(); ++q) {
            I const & i = is[k];
            I const & j = is[q];
            Set const & a = sets[k];
            Set const & b = sets[q];
            mc::at(k, q);
            mc::state();
            mc::trans(10);
            auto s = [&] { return show(i) + " " + show(j); };
            bool co = sub(b, a), wi = sub(a, b), di = !any(meet(a, b));
            if (i.contains(j) != co) mc::fail("contains " + s());
            if (i.isWithin(j) != wi) mc::fail("isWithin " + s());
            if (i.isDisjointFrom(j) != di || i.intersects(j) != !di) mc::fail("disjoint " + s());
            int w = (di ? 1 : 0) | (co ? 2 : 0) | (wi ? 4 : 0);
            if ((int)i.relate(j).to_ulong() != w) mc::fail("relate " + s(), fmt("got %d want %d", (int)i.relate(j).to_ulong(), w));
            if ((i == j) != (a == b) || (i != j) == (a == b)) mc::fail("== " + s());
            Set u = join(a, b), m = meet(a, b);
            I e(i);
            I & r = e.expandTo(j);
            if (&r != &e || e != i.expandedTo(j)) mc::fail("expandedTo " + s());
            if (!sub(u, setOf(e))) mc::fail("expandTo unsound " + s(), show(e));
            double L = bst(u);
            if (any(u) && std::fabs(lenI(e) - L) > TOL) mc::fail("expandTo not shortest " + s(), show(e) + fmt(" shortest %.17g", L));
            I c(i);
            I & r2 = c.clipTo(j);
            if (&r2 != &c || c != i.clippedTo(j)) mc::fail("clippedTo " + s());
            if (!sub(m, setOf(c)) || (!any(m) && !c.isEmpty())) mc::fail("clipTo unsound " + s(), show(c));
            double Lm = bst(m);
            if (any(m) && std::fabs(lenI(c) - Lm) > TOL) mc::fail("clipTo not smallest " + s(), show(c) + fmt(" smallest %.17g", Lm));
            mc::trace();
            if (mc::wantSample()) mc::sample(s());
        }
    }
    mc::section("self-aliased operations");
    if (mc::g().shard == 0)
        for (size_t k = 0; k < is.size(); ++k) {
            I i(is[k]);
            i.expandTo(i); if (setOf(i) != sets[k]) mc::fail("self expandTo " + show(is[k]), show(i));
            i = is[k]; i.clipTo(i); if (setOf(i) != sets[k]) mc::fail("self clipTo " + show(is[k]), show(i));
            mc::state(); mc::trans(2); mc::trace();
        }

    // Three-step histories of expand/clip from every state: soundness is preserved along the way.
    mc::section("histories of three operations");
    {
        std::vector<size_t> small;
        for (size_t k = 0; k < is.size(); k += (mc::deep() ? 2 : mc::thorough() ? 3 : 4)) small.push_back(k);
        size_t n = 0;
        for (size_t k : small) {
            if (!mc::mine(n++)) continue;
            for (size_t x : small) for (size_t y : small) {
                mc::at(k, x, y);
                mc::state();
                I a(is[k]); a.expandTo(is[x]); a.expandTo(is[y]);
                if (!sub(join(join(sets[k], sets[x]), sets[y]), setOf(a))) mc::fail("expand,expand " + show(is[k]) + show(is[x]) + show(is[y]), show(a));
                I c(is[k]); c.expandTo(is[x]); c.clipTo(is[y]);
                if (!sub(meet(join(sets[k], sets[x]), sets[y]), setOf(c))) mc::fail("expand,clip " + show(is[k]) + show(is[x]) + show(is[y]), show(c));
                I d(is[k]); d.clipTo(is[x]); d.expandTo(is[y]);
                if (!sub(join(meet(sets[k], sets[x]), sets[y]), setOf(d))) mc::fail("clip,expand " + show(is[k]) + show(is[x]) + show(is[y]), show(d));
                mc::trans(6);
                mc::trace();
            }
        }
    }

    mc::section("dilation");
    std::vector<double> ds{0.0, 0.1, 0.25, 0.4, 0.5, 1.0, 0.25 * p, 0.5 * p, 2.0, 0.9 * p, 3.1, p, 3.5, 5.0, TWO_PI, 7.0, 20.0, 1e-10, 1e-300};
    for (size_t k = 0; k < is.size(); ++k) {
        if (!mc::mine(k)) continue;
        I const & i = is[k];
        std::vector<double> all;
        for (double d : ds) { all.push_back(d); all.push_back(-d); }
        if (!i.isEmpty()) {
            // The amounts for which the end points of the result meet, and their neighbours.
            double const L = lenI(i), m[] = {0.5 * (TWO_PI - L), -0.5 * L, TWO_PI - i.getB().asRadians(), i.getA().asRadians() - TWO_PI,
                                             i.getA().asRadians(), -i.getB().asRadians()};
            for (double d : m) {
                double lo = d, hi = d;
                all.push_back(d);
                for (int j = 0; j < 3; ++j) {
                    lo = std::nextafter(lo, -10), hi = std::nextafter(hi, 10);
                    all.push_back(lo);
                    all.push_back(hi);
                }
            }
        }
        for (size_t di = 0; di < all.size(); ++di) {
            double const d = all[di];
            mc::at(k, di);
            mc::state();
            mc::trans(4);
            I r = i.dilatedBy(Angle(d)), r2(i), r3(i);
            r2.dilateBy(Angle(d));
            r3.erodeBy(Angle(-d));
            I r4 = i.erodedBy(Angle(-d));
            auto s = [&] { return show(i) + fmt(" by %.17g", d); };
            if (r2 != r || r3 != r || r4 != r) mc::fail("dilate forms differ " + s());
            if (i.isEmpty()) { if (!r.isEmpty()) mc::fail("dilate(empty) " + s(), show(r)); continue; }
            if (i.isFull()) { if (!r.isFull()) mc::fail("dilate(full) " + s(), show(r)); continue; }
            double L = lenI(i), a = i.getA().asRadians();
            double nl = L + 2 * d;
            if (d == 0) { if (r != i) mc::fail("dilate by 0 " + s()); }
            else if (nl > TWO_PI + 1e-12 && !r.isFull()) mc::fail("dilate should be full " + s(), show(r));
            else if (nl < -1e-12 && !r.isEmpty()) mc::fail("erode should be empty " + s(), show(r));
            else if (nl < TWO_PI - 1e-12 && r.isFull()) mc::fail("dilate should not be full " + s());
            else if (nl > 1e-12 && r.isEmpty()) mc::fail("dilate should not be empty " + s());
            // Where the ends meet, rounding decides between the two extremes, but nothing else.
            double const rl = r.isEmpty() ? 0.0 : r.isFull() ? TWO_PI : lenI(r);
            if (nl <= TWO_PI && nl >= 0 && std::fabs(rl - nl) > 1e-11) mc::fail("dilated length " + s(), show(r));
            if (nl > TWO_PI && rl < TWO_PI - 1e-11) mc::fail("dilated past the full circle " + s(), show(r));
            if (nl < 0 && rl > 1e-11) mc::fail("eroded past nothing " + s(), show(r));
            if (d >= 0 ? !r.contains(i) : !i.contains(r)) mc::fail("dilated contains original contains eroded " + s(), show(r));
            // Membership: angle x is in the result iff its offset from the new start is within the new length.
            if (nl > 1e-12 && nl < TWO_PI - 1e-12)
                for (double x = 0.003; x < TWO_PI; x += 0.05) {
                    double off = std::fmod(x - (a - d) + 10 * TWO_PI, TWO_PI);
                    if (off < 1e-9 || TWO_PI - off < 1e-9 || std::fabs(off - nl) < 1e-9) continue;
                    mc::trans();
                    if (r.contains(N(x)) != (off <= nl)) { mc::fail("dilate membership " + s(), show(r) + fmt(" x=%.17g", x)); break; }
                }
            mc::trace();
        }
        if (i.dilatedBy(Angle(NaN)) != i) mc::fail("dilate by NaN " + show(i));
    }

    mc::section("normalizing constructor");
    {
        std::vector<double> E;
        for (int k = -9; k <= 9; ++k) for (double o : {0.0, 0.3}) E.push_back(k * 0.5 * p + o);
        E.push_back(NaN);
        E.push_back(-1e-3); E.push_back(TWO_PI + 1e-3); E.push_back(-20.3); E.push_back(31.7);
        size_t n = 0;
        for (double x : E) for (double y : E) {
            if (!mc::mine(n++)) continue;
            mc::at(n);
            mc::state();
            mc::trans(2);
            auto s = [&] { return fmt("%.17g %.17g", x, y); };
            bool threw = false;
            I i;
            try { i = I(Angle(x), Angle(y)); } catch (std::invalid_argument const &) { threw = true; }
            bool nx = x >= 0 && x <= TWO_PI, ny = y >= 0 && y <= TWO_PI;
            if (x != x || y != y) { if (threw || !i.isEmpty()) mc::fail("NaN endpoints " + s()); continue; }
            bool must = (!nx || !ny) && x > y;
            if (threw != must) { mc::fail("validation " + s()); continue; }
            if (threw) continue;
            if (i.getA().asRadians() < 0 || i.getA().asRadians() > TWO_PI || i.getB().asRadians() < 0 || i.getB().asRadians() > TWO_PI) mc::fail("range " + s(), show(i));
            double L = x <= y ? y - x : y - x + TWO_PI;
            for (double t = 0.0031; t < TWO_PI; t += 0.07) {
                double off = std::fmod(t - x + 20 * TWO_PI, TWO_PI);
                if (off < 1e-9 || TWO_PI - off < 1e-9 || std::fabs(off - L) < 1e-9) continue;
                if (i.contains(N(t)) != (off <= L)) { mc::fail("membership " + s(), show(i) + fmt(" t=%.17g", t)); break; }
            }
            if (L >= TWO_PI + 1e-9 && !i.isFull()) mc::fail("should be full " + s(), show(i));
            I f = I::fromRadians(x, y);
            if (f != i) mc::fail("fromRadians " + s());
            I dg;
            try { dg = I::fromDegrees(x * 180 / p, y * 180 / p);
                if (L < TWO_PI - 1e-9 && (std::fabs(std::remainder(dg.getA().asRadians() - i.getA().asRadians(), TWO_PI)) > 1e-13 || std::fabs(std::remainder(dg.getB().asRadians() - i.getB().asRadians(), TWO_PI)) > 1e-13)) mc::fail("fromDegrees " + s(), show(dg));
            } catch (std::invalid_argument const &) { if (nx && ny && x < TWO_PI - 1e-9 && y < TWO_PI - 1e-9) mc::fail("fromDegrees threw " + s()); }
            I one{Angle(x)};
            if (!(one.getA() == one.getB()) || std::fabs(std::remainder(one.getA().asRadians() - x, TWO_PI)) > 1e-13) mc::fail(fmt("point %.17g", x));
            mc::trace();
        }
    }

    mc::section("normalized angles");
    {
        std::vector<double> E(P);
        for (double x : {-0.1, -PI, -TWO_PI, -7.0, 7.0, 13.0, 4 * PI, -1e-17, -5e-324, 100.0, -100.0}) E.push_back(x);
        size_t n = 0;
        for (double x : E) {
            N a(x);
            double v = a.asRadians();
            mc::state();
            if (!(v >= 0 && v <= TWO_PI)) mc::fail(fmt("range %.17g", x), fmt("%.17g", v));
            if (std::fabs(std::remainder(v - x, TWO_PI)) > 1e-13) mc::fail(fmt("value %.17g", x), fmt("%.17g", v));
            if (!(N::fromRadians(x) == a) || !(N(Angle(x)) == a) || std::fabs(std::remainder(N::fromDegrees(x * 180 / p).asRadians() - v, TWO_PI)) > 1e-12) mc::fail(fmt("factories %.17g", x));
            if (a.asDegrees() != v * DEG_PER_RAD) mc::fail(fmt("asDegrees %.17g", x));
            if (!mc::mine(n++)) continue;
            for (double y : E) {
                N b(y);
                double w = b.asRadians();
                mc::trans(3);
                double t = a.getAngleTo(b).asRadians(), bt = N::between(a, b).asRadians();
                if (!(t >= 0 && t <= TWO_PI) || std::fabs(std::remainder(v + t - w, TWO_PI)) > 1e-13) mc::fail(fmt("getAngleTo %.17g %.17g", x, y), fmt("%.17g", t));
                double d = std::fabs(std::remainder(v - w, TWO_PI));
                if (std::fabs(bt - d) > 1e-13 || bt < 0 || bt > PI + 1e-15) mc::fail(fmt("between %.17g %.17g", x, y), fmt("%.17g", bt));
                double c = N::center(a, b).asRadians();
                double t1 = len(v, c), t2 = len(c, w);
                if (!(c >= 0 && c <= TWO_PI)) mc::fail(fmt("center range %.17g %.17g", x, y));
                if (len(v, w) > 1e-12 && len(v, w) < TWO_PI - 1e-12 && (std::fabs(t1 - t2) > 1e-13 || std::fabs(t1 + t2 - len(v, w)) > 1e-13)) mc::fail(fmt("center %.17g %.17g", x, y), fmt("%.17g", c));
                mc::trace();
            }
        }
    }
}
int main(int argc, char ** argv) { return mc::run(argc, argv, body); }
