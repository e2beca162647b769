// C05: longitude-latitude boxes and 3-d boxes as products of interval point sets.
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Circle.h"
#include "mc.h"
#include <algorithm>
#include <limits>
using namespace lsst::sphgeom;
using mc::fmt;
static double const TP = 2.0 * PI, HP = 0.5 * PI;
static double const NaN = std::numeric_limits<double>::quiet_NaN();
typedef uint64_t Bits;
typedef NormalizedAngleInterval LI;
typedef AngleInterval AI;

static std::vector<double> LP, AP;   // endpoints
static std::vector<double> LQ, AQ;   // probe positions (points and midpoints)

static Bits lonBits(LI const & i) {
    double a = i.getA().asRadians(), b = i.getB().asRadians();
    Bits r = 0;
    if (a != a || b != b) return 0;
    for (size_t k = 0; k < LQ.size(); ++k) if (a <= b ? (a <= LQ[k] && LQ[k] <= b) : (LQ[k] <= b || a <= LQ[k])) r |= 1ull << k;
    return r;
}
static Bits latBits(double a, double b) {
    Bits r = 0;
    for (size_t k = 0; k < AQ.size(); ++k) if (a <= AQ[k] && AQ[k] <= b) r |= 1ull << k;
    return r;
}
static Bits latBits(AI const & i) { return latBits(i.getA().asRadians(), i.getB().asRadians()); }
static Bits lonBit(double x) { Bits r = 0; for (size_t k = 0; k < LQ.size(); ++k) if (LQ[k] == x) r |= 1ull << k; return r; }

static std::string show(Box const & b) {
    return fmt("{[%.17g,%.17g] [%.17g,%.17g]}", b.getLon().getA().asRadians(), b.getLon().getB().asRadians(), b.getLat().getA().asRadians(), b.getLat().getB().asRadians());
}
struct MB {   // model: product set, canonical empty
    Bits lon, lat;
    MB(Bits a, Bits b) : lon(a), lat(b) { if (!a || !b) lon = lat = 0; }
    bool empty() const { return !lon; }
};
static MB model(Box const & b) { return MB(lonBits(b.getLon()), latBits(b.getLat())); }
static bool sub(MB const & a, MB const & b) { return a.empty() || (!(a.lon & ~b.lon) && !(a.lat & ~b.lat)); }
static bool disj(MB const & a, MB const & b) { return a.empty() || b.empty() || !(a.lon & b.lon) || !(a.lat & b.lat); }
static bool invariants(Box const & b) {
    bool e = b.isEmpty();
    if (b.getLat().isEmpty() != e || b.getLon().isEmpty() != e) return false;
    if (!e && !(b.getLat().getA().asRadians() >= -HP && b.getLat().getB().asRadians() <= HP)) return false;
    if (!e && !(b.getLon().getA().asRadians() >= 0 && b.getLon().getB().asRadians() <= TP && b.getLon().getA().asRadians() <= TP && b.getLon().getB().asRadians() >= 0)) return false;
    return !e || (b == Box::empty() && Box() == b);
}
static double lonLen(LI const & i) { double a = i.getA().asRadians(), b = i.getB().asRadians(); return a <= b ? b - a : b - a + TP; }
static double sep(double lon1, double lat1, double lon2, double lat2) {
    long double x = cosl(lat1) * cosl(lon1) - cosl(lat2) * cosl(lon2), y = cosl(lat1) * sinl(lon1) - cosl(lat2) * sinl(lon2), z = sinl(lat1) - sinl(lat2);
    long double c = sqrtl(x * x + y * y + z * z) / 2;
    return (double)(2 * asinl(c > 1 ? 1 : c));
}

static void boxes() {
    LP = {0.0, 0.5, 1.0, HP, 3.0, 4.0, 6.0, TP};
    AP = {-HP, -1.0, -0.25, 0.0, 0.5, HP};
    if (mc::thorough()) { LP = {0.0, 0.25, 0.5, 1.0, HP, 3.0, PI, 4.0, 1.5 * PI, 6.0, TP}; AP = {-HP, -1.0, -0.5, -0.25, 0.0, 0.25, 0.5, 1.2, HP}; }
    for (size_t i = 0; i < LP.size(); ++i) { LQ.push_back(LP[i]); if (i + 1 < LP.size()) LQ.push_back(0.5 * (LP[i] + LP[i + 1])); }
    for (size_t i = 0; i < AP.size(); ++i) { AQ.push_back(AP[i]); if (i + 1 < AP.size()) AQ.push_back(0.5 * (AP[i] + AP[i + 1])); }
    std::vector<LI> ls{LI(), LI::full()};
    for (double a : LP) for (double b : LP) ls.push_back(LI(NormalizedAngle(a), NormalizedAngle(b)));
    std::vector<AI> as{AI(), AI(Angle(NaN), Angle(0.1)), AI(Angle(-3.0), Angle(3.0)), AI(Angle(-3.0), Angle(0.5)), AI(Angle(-1.0), Angle(2.0)), AI(Angle(1.6), Angle(2.0)), AI(Angle(-4), Angle(-2))};
    for (double a : AP) for (double b : AP) if (a <= b) as.push_back(AI(Angle(a), Angle(b)));

    mc::section("construction");
    std::vector<Box> bs;
    std::vector<MB> ms;
    std::set<std::pair<Bits, Bits>> seen;
    for (auto & l : ls) for (auto & a : as) {
        Box b(l, a);
        MB m(lonBits(l), latBits(a));
        auto s = [&] { return fmt("lon [%.17g,%.17g] lat [%.17g,%.17g]", l.getA().asRadians(), l.getB().asRadians(), a.getA().asRadians(), a.getB().asRadians()); };
        bool nl = l.isEmpty();
        if (!invariants(b) || model(b).lon != m.lon || model(b).lat != m.lat) mc::fail("product " + s(), show(b));
        if (b.isEmpty() != m.empty()) mc::fail("isEmpty " + s(), show(b));
        if (b.isFull() != (l.isFull() && a.contains(Box::allLatitudes()))) mc::fail("isFull " + s(), show(b));
        (void)nl;
        if (mc::g().shard == 0) { mc::trans(); mc::trace(); }
        if (seen.insert({m.lon, m.lat}).second) { bs.push_back(b); ms.push_back(m); if (mc::g().shard == 0) mc::state(); }
    }
    mc::sample(fmt("%zu distinct boxes", bs.size()));
    if (mc::g().shard == 0) {
        if (!Box::empty().isEmpty() || !Box::full().isFull() || Box::full().isEmpty() || Box().isFull() || !(Box::allLatitudes() == AI(Angle(-HP), Angle(HP))) || !Box::allLongitudes().isFull()) mc::fail("factories");
    }

    mc::section("single boxes and points");
    for (size_t k = 0; k < bs.size(); ++k) {
        if (!mc::mine(k)) continue;
        Box const & b = bs[k];
        MB const & m = ms[k];
        std::string id = show(b);
        mc::state();
        bool full = b.isFull();
        if (!b.isEmpty()) {
            double L = lonLen(b.getLon()), H = b.getLat().getB().asRadians() - b.getLat().getA().asRadians();
            if (std::fabs(b.getWidth().asRadians() - L) > 1e-15 * 8 || b.getHeight().asRadians() != H) mc::fail("width/height " + id);
            double ar = L * std::fabs(sinl(b.getLat().getB().asRadians()) - sinl(b.getLat().getA().asRadians()));
            if (std::fabs(b.getArea() - ar) > 1e-14) mc::fail("area " + id, fmt("%.17g want %.17g", b.getArea(), ar));
            LonLat c = b.getCenter();
            if (std::fabs(c.getLat().asRadians() - 0.5 * (b.getLat().getA().asRadians() + b.getLat().getB().asRadians())) > 1e-15 || (!full && !b.contains(c) && L > 1e-9)) mc::fail("center " + id);
            double off = std::fmod(c.getLon().asRadians() - b.getLon().getA().asRadians() + 2 * TP, TP);
            if (!b.getLon().isFull() && std::fabs(std::remainder(off - 0.5 * L, TP)) > 1e-14) mc::fail("center lon " + id);
        } else {
            if (b.getArea() != 0 || !b.getWidth().isNan() || b.getHeight().asRadians() >= 0 || !std::isnan(b.getCenter().getLon().asRadians()) || !std::isnan(b.getCenter().getLat().asRadians())) mc::fail("empty accessors " + id);
        }
        for (size_t x = 0; x < LQ.size(); ++x) for (size_t y = 0; y < AQ.size(); ++y) {
            mc::at(k, x, y);
            LonLat p{NormalizedAngle(LQ[x]), Angle(AQ[y])};
            bool in = (m.lon >> x & 1) && (m.lat >> y & 1);
            bool isP = m.lon == (1ull << x) && m.lat == (1ull << y);
            auto s = [&] { return id + fmt(" p=(%.17g,%.17g)", LQ[x], AQ[y]); };
            mc::trans(10);
            if (b.contains(p) != in || b.intersects(p) != in || b.isDisjointFrom(p) == in) mc::fail("point membership " + s());
            if (b.isWithin(p) != (m.empty() || isP)) mc::fail("isWithin(point) " + s());
            if ((b == p) != isP || (b != p) == isP) mc::fail("==(point) " + s());
            int w = (in ? 2 : 1) | (m.empty() || isP ? 4 : 0);
            if ((int)b.relate(p).to_ulong() != w) mc::fail("relate(point) " + s(), fmt("%d want %d", (int)b.relate(p).to_ulong(), w));
            Box c(b); c.clipTo(p);
            MB cm = model(c);
            if (!invariants(c) || c != b.clippedTo(p) || cm.lon != (in ? 1ull << x : 0) || cm.lat != (in ? 1ull << y : 0)) mc::fail("clipTo(point) " + s(), show(c));
            Box e(b); e.expandTo(p);
            MB em = model(e);
            LI wl = b.isEmpty() ? LI(p.getLon()) : b.getLon().expandedTo(p.getLon());
            if (!invariants(e) || e != b.expandedTo(p) || !e.contains(p) || !sub(m, em) || e.getLon() != wl || em.lat != (latBits(std::min(b.isEmpty() ? 9 : b.getLat().getA().asRadians(), AQ[y]), std::max(b.isEmpty() ? -9 : b.getLat().getB().asRadians(), AQ[y])))) mc::fail("expandTo(point) " + s(), show(e));
            // Unit vector and coordinate forms away from the boundary.
            if (!(LQ[x] == TP) && std::fabs(AQ[y]) < 1.57) {
                bool edge = false;
                for (double v : {b.getLon().getA().asRadians(), b.getLon().getB().asRadians()}) if (std::fabs(std::remainder(v - LQ[x], TP)) < 1e-9) edge = true;
                for (double v : {b.getLat().getA().asRadians(), b.getLat().getB().asRadians()}) if (std::fabs(v - AQ[y]) < 1e-9) edge = true;
                if (!edge) {
                    UnitVector3d u{NormalizedAngle(LQ[x]), Angle(AQ[y])};
                    bool bin = in;
                    Region const & r = b;
                    if (r.contains(u) != bin || r.contains(3 * u.x(), 3 * u.y(), 3 * u.z()) != bin || r.contains(LQ[x], AQ[y]) != bin) mc::fail("contains(unit vector) " + s());
                }
            }
            mc::trace();
        }
        if (mc::wantSample()) mc::sample(id);
    }

    mc::section("box pairs");
    for (size_t k = 0; k < bs.size(); ++k) {
        if (!mc::mine(k)) continue;
        for (size_t q = 0; q < bs.size(); ++q) {
            Box const & a = bs[k];
            Box const & b = bs[q];
            MB const & x = ms[k];
            MB const & y = ms[q];
            mc::at(k, q);
            mc::state();
            mc::trans(8);
            auto s = [&] { return show(a) + " " + show(b); };
            bool co = sub(y, x), wi = sub(x, y), di = disj(x, y);
            if (a.contains(b) != co) mc::fail("contains " + s());
            if (a.isWithin(b) != wi) mc::fail("isWithin " + s());
            if (a.intersects(b) == di || a.isDisjointFrom(b) != di) mc::fail("disjoint " + s());
            bool eq = x.lon == y.lon && x.lat == y.lat;
            if ((a == b) != eq || (a != b) == eq) mc::fail("== " + s());
            int w = (di ? 1 : 0) | (co ? 2 : 0) | (wi ? 4 : 0);
            if ((int)a.relate(b).to_ulong() != w) mc::fail("relate " + s(), fmt("%d want %d", (int)a.relate(b).to_ulong(), w));
            if ((int)static_cast<Region const &>(a).relate(static_cast<Region const &>(b)).to_ulong() != w) mc::fail("relate(Region) " + s());
            Box c(a); c.clipTo(b);
            MB cm = model(c);
            Bits il = x.lon & y.lon, ia = x.lat & y.lat;
            if (!invariants(c) || c != a.clippedTo(b)) mc::fail("clipTo invariants " + s(), show(c));
            if (di ? !c.isEmpty() : (!!(il & ~cm.lon) || cm.lat != ia || c.getLon() != a.getLon().clippedTo(b.getLon()))) mc::fail("clipTo " + s(), show(c));
            Box e(a); e.expandTo(b);
            MB em = model(e);
            if (!invariants(e) || e != a.expandedTo(b)) mc::fail("expandTo invariants " + s(), show(e));
            if (!sub(x, em) || !sub(y, em) || (b.isEmpty() && e != a) || (a.isEmpty() && e != b)) mc::fail("expandTo " + s(), show(e));
            if (!a.isEmpty() && !b.isEmpty() && (e.getLon() != a.getLon().expandedTo(b.getLon()) || e.getLat() != a.getLat().expandedTo(b.getLat()))) mc::fail("expandTo not minimal " + s(), show(e));
            mc::trace();
            if (mc::wantSample()) mc::sample(s());
        }
    }

    mc::section("dilation by width and height");
    std::vector<double> ds{-7, -PI, -1.5, -0.5, -0.25, -0.1, 0, 0.1, 0.3, 1.0, 2.0, PI, 4, NaN};
    for (size_t k = 0; k < bs.size(); ++k) {
        if (!mc::mine(k)) continue;
        Box const & b = bs[k];
        for (double w : ds) for (double h : ds) {
            mc::at(k, (uint64_t)(100 + w * 10), (uint64_t)(100 + h * 10));
            mc::state();
            mc::trans(4);
            Box d(b), e(b);
            d.dilateBy(Angle(w), Angle(h));
            e.erodeBy(Angle(-w), Angle(-h));
            auto s = [&] { return show(b) + fmt(" by %g,%g", w, h); };
            if (!invariants(d)) mc::fail("dilate invariants " + s(), show(d));
            if (d != e || d != b.dilatedBy(Angle(w), Angle(h)) || d != b.erodedBy(Angle(-w), Angle(-h))) mc::fail("dilate forms " + s(), show(d));
            Box want(b);
            if (!b.isEmpty() && !b.isFull()) {
                double lo = b.getLat().getA().asRadians(), hi = b.getLat().getB().asRadians();
                if (h == h) {
                    if (lo > -HP) lo -= h;
                    if (hi < HP) hi += h;
                }
                LI l = b.getLon().dilatedBy(Angle(w));
                want = lo <= hi && !l.isEmpty() ? Box(l, AI(Angle(std::max(lo, -HP)), Angle(std::min(hi, HP)))) : Box();
                if (lo > HP || hi < -HP) want = Box();
            }
            if (d != want) mc::fail("dilate " + s(), show(d) + " want " + show(want));
            mc::trace();
        }
    }

    mc::section("dilation by an angular distance");
    std::vector<double> rs{-1, 0, 1e-9, 0.1, 0.4, 0.57, 1.0, 1.5, HP, 2.0, 3.1, PI, 4.0};
    for (size_t k = 0; k < bs.size(); ++k) {
        if (!mc::mine(k)) continue;
        Box const & b = bs[k];
        for (double r : rs) {
            mc::at(k, (uint64_t)(100 + r * 10));
            mc::state();
            mc::trans(3);
            Box d(b);
            d.dilateBy(Angle(r));
            auto s = [&] { return show(b) + fmt(" by r=%g", r); };
            if (!invariants(d) || d != b.dilatedBy(Angle(r)) || d != b.erodedBy(Angle(-r))) mc::fail("dilate(r) forms " + s(), show(d));
            { Box e(b); e.erodeBy(Angle(-r)); if (e != d) mc::fail("erodeBy(r) " + s(), show(e)); }
            if (b.isEmpty() || b.isFull() || r <= 0) { if (d != b) mc::fail("dilate(r) no-op " + s(), show(d)); continue; }
            // Exact expectation: latitudes by r, longitudes by the half-width at the highest latitude.
            double lo = b.getLat().getA().asRadians(), hi = b.getLat().getB().asRadians();
            double ml = std::max(std::fabs(lo), std::fabs(hi));
            double elo = std::max(-HP, lo > -HP ? lo - r : lo), ehi = std::min(HP, hi < HP ? hi + r : hi);
            double L = lonLen(b.getLon());
            double wantL = TP;
            if (ml + r < HP - 1e-12) wantL = std::min(TP, L + 2 * (double)atan2l(sinl(r), sqrtl(cosl((long double)ml - r) * cosl((long double)ml + r))));
            else if (ml + r < HP + 1e-12) wantL = -1;
            if (b.getLon().isFull()) wantL = TP;
            double gl = lonLen(d.getLon());
            if (std::fabs(d.getLat().getA().asRadians() - elo) > 1e-14 || std::fabs(d.getLat().getB().asRadians() - ehi) > 1e-14) mc::fail("dilate(r) latitude " + s(), show(d));
            if (wantL >= 0 && std::fabs(gl - wantL) > 1e-7) mc::fail("dilate(r) longitude " + s(), show(d) + fmt(" want width %.17g", wantL));
            // Every grid point within r of a point of the box is in the result.
            for (size_t i = 0; i < LQ.size(); ++i) for (size_t j = 0; j < AQ.size(); ++j) {
                if (!(ms[k].lon >> i & 1) || !(ms[k].lat >> j & 1)) continue;
                for (size_t u = 0; u < LQ.size(); u += 1) for (size_t v = 0; v < AQ.size(); ++v) {
                    if (sep(LQ[i], AQ[j], LQ[u], AQ[v]) > r - 1e-9) continue;
                    mc::trans();
                    if (LQ[u] == TP || LQ[u] == 0 || std::fabs(AQ[v]) > 1.57) continue;   // coordinate singularities
                    if (!d.contains(LonLat{NormalizedAngle(LQ[u]), Angle(AQ[v])})) mc::fail("dilate(r) misses " + s() + fmt(" (%.17g,%.17g)", LQ[u], AQ[v]), show(d));
                }
            }
            mc::trace();
        }
    }
    mc::section("half-widths");
    for (double r : {-1.0, 0.0, 1e-300, 1e-12, 1e-5, 0.1, 0.5, 1.0, 1.5, HP, 2.0, 3.2}) for (double lat : {-HP, -1.5, -1.0, -0.5, 0.0, 1e-9, 0.3, 1.0, 1.3, 1.5, HP}) {
        if (mc::g().shard) continue;
        double g = Box::halfWidthForCircle(Angle(r), Angle(lat)).asRadians();
        mc::state(); mc::trans(); mc::trace();
        double e = r <= 0 ? 0 : std::fabs(lat) + r >= HP ? PI : (double)atan2l(sinl(r), sqrtl(cosl(fabsl((long double)lat) - r) * cosl(fabsl((long double)lat) + r)));
        if (std::fabs(g - e) > 1e-7 * std::min(1.0, std::max(e, 0.0) * 1e6) + 1e-12 * e) mc::fail(fmt("halfWidthForCircle %g %g", r, lat), fmt("%.17g want %.17g", g, e));
    }

    mc::section("point and extent constructors");
    size_t n = 0;
    for (double lon : LQ) for (double lat : AQ) {
        if (!mc::mine(n++)) continue;
        LonLat p{NormalizedAngle(lon), Angle(lat)};
        Box b(p);
        mc::state();
        if (!(b == p) || b.isEmpty() || !invariants(b)) mc::fail(fmt("Box(p) %g %g", lon, lat), show(b));
        for (double lon2 : LP) for (double lat2 : AP) {
            mc::at(n, 1);
            LonLat p2{NormalizedAngle(lon2), Angle(lat2)};
            Box c(p, p2);
            Box want{LI{NormalizedAngle(lon), NormalizedAngle(lon2)}, AI{Angle(lat), Angle(lat2)}};
            if (c != want || !invariants(c)) mc::fail(fmt("Box(p1,p2) %g %g %g %g", lon, lat, lon2, lat2), show(c));
            if (lon < TP && lon2 < TP) {
                Box f = Box::fromRadians(lon, lat, lon2, lat2);
                if (f != want) mc::fail(fmt("fromRadians %g %g %g %g", lon, lat, lon2, lat2), show(f));
                Box g = Box::fromDegrees(lon * 180 / PI, lat * 180 / PI, lon2 * 180 / PI, lat2 * 180 / PI);
                if (!want.isEmpty() && !g.isEmpty() && (std::fabs(g.getLon().getA().asRadians() - lon) > 1e-14 || std::fabs(g.getLon().getB().asRadians() - lon2) > 1e-14 || std::fabs(g.getLat().getA().asRadians() - lat) > 1e-14 || std::fabs(g.getLat().getB().asRadians() - lat2) > 1e-14)) mc::fail(fmt("fromDegrees %g %g %g %g", lon, lat, lon2, lat2), show(g));
            }
            mc::trans(3); mc::trace();
        }
        for (double w : ds) for (double h : ds) {
            mc::at(n, 2);
            Box c(p, Angle(w), Angle(h));
            LI l = LI(NormalizedAngle(lon)).dilatedBy(Angle(w));
            double lo = h == h ? lat - h : lat, hi = h == h ? lat + h : lat;
            Box want = l.isEmpty() || lo > hi || lo > HP || hi < -HP ? Box() : Box(l, AI(Angle(std::max(-HP, lo)), Angle(std::min(HP, hi))));
            if (c != want || !invariants(c)) mc::fail(fmt("Box(p,w,h) %g %g %g %g", lon, lat, w, h), show(c) + " want " + show(want));
            mc::trans(); mc::trace();
        }
    }

    // Histories of three mutating operations.
    mc::section("operation histories");
    std::vector<size_t> sm;
    for (size_t k = 0; k < bs.size(); k += bs.size() / (mc::thorough() ? 60 : 40) + 1) sm.push_back(k);
    n = 0;
    auto step = [&](Box & x, int op, Box const & o) { switch (op) { case 0: x.clipTo(o); break; case 1: x.expandTo(o); break; case 2: x.dilateBy(Angle(0.2), Angle(0.1)); break; case 3: x.erodeBy(Angle(0.3), Angle(0.2)); break; case 4: x.dilateBy(Angle(0.3)); break; } };
    for (size_t i : sm) {
        if (!mc::mine(n++)) continue;
        for (size_t j : sm) for (size_t k : sm) for (int o1 = 0; o1 < 5; ++o1) for (int o2 = 0; o2 < 5; ++o2) {
            if (o1 >= 2 && j != sm[0]) continue;
            if (o2 >= 2 && k != sm[0]) continue;
            mc::at(i, j, k, o1, o2);
            Box x(bs[i]);
            step(x, o1, bs[j]);
            Box y(x);
            step(x, o2, bs[k]);
            mc::state(); mc::trans(2); mc::trace();
            auto s = [&] { return show(bs[i]) + fmt(" op%d ", o1) + show(bs[j]) + fmt(" op%d ", o2) + show(bs[k]); };
            if (!invariants(x) || !invariants(y)) mc::fail("history invariants " + s(), show(x));
            if (o2 == 1 && (!x.contains(y) || !x.contains(bs[k]))) mc::fail("history expand " + s(), show(x));
            if (o2 == 0 && (!y.contains(x) && y.getLon().getSize().asRadians() < bs[k].getLon().getSize().asRadians())) mc::fail("history clip " + s(), show(x));
            if (o2 == 4 && !x.contains(y)) mc::fail("history dilate " + s(), show(x));
            Box z(x); z.clipTo(z); if (z != x) mc::fail("self clip " + s());
            z.expandTo(z); if (z != x) mc::fail("self expand " + s());
        }
    }
}

static std::string show(Box3d const & b) { return fmt("{[%g,%g] [%g,%g] [%g,%g]}", b.x().getA(), b.x().getB(), b.y().getA(), b.y().getB(), b.z().getA(), b.z().getB()); }
static void boxes3() {
    double const INF = std::numeric_limits<double>::infinity();
    std::vector<Interval1d> is{Interval1d(), Interval1d::full(), Interval1d(-1, 1), Interval1d(0), Interval1d(0, 2), Interval1d(-2, -0.5), Interval1d(1), Interval1d(NaN, 1)};
    if (mc::thorough()) { is.push_back(Interval1d(0.25, 0.75)); is.push_back(Interval1d(-INF, 0)); }
    std::vector<double> ps{-2, -1, -0.5, 0, 0.5, 1, 2};
    std::vector<Box3d> bs;
    mc::section("3-d boxes");
    auto inv = [](Box3d const & b) { bool e = b.isEmpty(); return b.x().isEmpty() == e && b.y().isEmpty() == e && b.z().isEmpty() == e && (!e || b == Box3d()); };
    for (auto & x : is) for (auto & y : is) for (auto & z : is) {
        Box3d b(x, y, z);
        bool e = x.isEmpty() || y.isEmpty() || z.isEmpty();
        if (!inv(b) || b.isEmpty() != e || (!e && !(b.x() == x && b.y() == y && b.z() == z && b(0) == x && b(1) == y && b(2) == z))) mc::fail("construct " + show(b));
        if (b.isFull() != (x.isFull() && y.isFull() && z.isFull())) mc::fail("isFull " + show(b));
        if (!e) {
            if (b.getWidth() != x.getSize() || b.getHeight() != y.getSize() || b.getDepth() != z.getSize()) mc::fail("sizes " + show(b));
            Vector3d c = b.getCenter();
            auto same = [](double a, double d) { return a == d || (a != a && d != d); };
            if (!same(c.x(), x.getCenter()) || !same(c.y(), y.getCenter()) || !same(c.z(), z.getCenter())) mc::fail("center " + show(b));
        }
        if (e && bs.size() > 0 && bs[0].isEmpty()) continue;
        bs.push_back(b);
    }
    auto in = [](Interval1d const & i, double v) { return i.getA() <= v && v <= i.getB(); };
    auto isub = [](Interval1d const & a, Interval1d const & b) { return b.getA() <= a.getA() && a.getB() <= b.getB(); };
    auto imeet = [](Interval1d const & a, Interval1d const & b) { return std::max(a.getA(), b.getA()) <= std::min(a.getB(), b.getB()); };
    for (size_t k = 0; k < bs.size(); ++k) {
        if (!mc::mine(k)) continue;
        Box3d const & a = bs[k];
        bool ea = a.isEmpty();
        mc::state();
        for (double x : ps) for (double y : ps) for (double z : ps) {
            mc::at(k, (uint64_t)(x * 10 + 100), (uint64_t)(y * 10 + 100), (uint64_t)(z * 10 + 100));
            Vector3d v(x, y, z);
            bool i = !ea && in(a.x(), x) && in(a.y(), y) && in(a.z(), z);
            bool p = !ea && a.x() == x && a.y() == y && a.z() == z;
            auto s = [&] { return show(a) + fmt(" (%g,%g,%g)", x, y, z); };
            mc::trans(9);
            if (a.contains(v) != i || a.contains(x, y, z) != i || a.intersects(v) != i || a.isDisjointFrom(v) == i) mc::fail("membership " + s());
            if (a.isWithin(v) != (ea || p) || (a == v) != p || (a != v) == p) mc::fail("within point " + s());
            int w = (i ? 2 : 1) | (ea || p ? 4 : 0);
            if ((int)a.relate(v).to_ulong() != w) mc::fail("relate point " + s());
            Box3d c(a); c.clipTo(v);
            if (!inv(c) || c != a.clippedTo(v) || (i ? c != Box3d(v) : !c.isEmpty())) mc::fail("clip point " + s(), show(c));
            Box3d e(a); e.expandTo(v);
            Box3d we = ea ? Box3d(v) : Box3d(a.x().expandedTo(x), a.y().expandedTo(y), a.z().expandedTo(z));
            if (!inv(e) || e != a.expandedTo(v) || e != we || !e.contains(v)) mc::fail("expand point " + s(), show(e));
            Box3d pb(v), pw(v, 1, 0.5, 0.25);
            if (pb.isEmpty() || !(pb == v) || !(pw == Box3d(Interval1d(x - 1, x + 1), Interval1d(y - 0.5, y + 0.5), Interval1d(z - 0.25, z + 0.25))) || !Box3d(v, -1, 0, 0).isEmpty() || !Box3d(v, 1, -1, 0).isEmpty() || !Box3d(v, 1, 1, -1).isEmpty()) mc::fail("point ctors " + s());
            if (Box3d(v, Vector3d(1, 1, 1)) != Box3d(Interval1d(x, 1), Interval1d(y, 1), Interval1d(z, 1))) mc::fail("corner ctor " + s());
            mc::trace();
        }
        for (size_t q = 0; q < bs.size(); ++q) {
            mc::at(k, q);
            Box3d const & b = bs[q];
            bool eb = b.isEmpty();
            auto s = [&] { return show(a) + " " + show(b); };
            bool co = eb || (!ea && isub(b.x(), a.x()) && isub(b.y(), a.y()) && isub(b.z(), a.z()));
            bool wi = ea || (!eb && isub(a.x(), b.x()) && isub(a.y(), b.y()) && isub(a.z(), b.z()));
            bool di = ea || eb || !imeet(a.x(), b.x()) || !imeet(a.y(), b.y()) || !imeet(a.z(), b.z());
            mc::state(); mc::trans(7);
            if (a.contains(b) != co || a.isWithin(b) != wi || a.isDisjointFrom(b) != di || a.intersects(b) == di) mc::fail("pair predicates " + s());
            int w = (di ? 1 : 0) | (co ? 2 : 0) | (wi ? 4 : 0);
            if ((int)a.relate(b).to_ulong() != w) mc::fail("relate " + s());
            if ((a == b) != (co && wi) || (a != b) == (co && wi)) mc::fail("== " + s());
            Box3d c(a); c.clipTo(b);
            Box3d wc = di ? Box3d() : Box3d(a.x().clippedTo(b.x()), a.y().clippedTo(b.y()), a.z().clippedTo(b.z()));
            if (!inv(c) || c != wc || c != a.clippedTo(b) || c != b.clippedTo(a)) mc::fail("clipTo " + s(), show(c));
            Box3d e(a); e.expandTo(b);
            Box3d we = ea ? b : eb ? a : Box3d(a.x().expandedTo(b.x()), a.y().expandedTo(b.y()), a.z().expandedTo(b.z()));
            if (!inv(e) || e != we || e != a.expandedTo(b)) mc::fail("expandTo " + s(), show(e));
            mc::trace();
        }
        std::vector<double> ds{-1, -0.25, 0, 0.5, 2};
        for (double x : ds) for (double y : ds) for (double z : ds) {
            Box3d d(a), f(a);
            d.dilateBy(x, y, z);
            f.erodeBy(-x, -y, -z);
            Box3d w = ea ? Box3d() : Box3d(Interval1d(a.x().getA() - x, a.x().getB() + x), Interval1d(a.y().getA() - y, a.y().getB() + y), Interval1d(a.z().getA() - z, a.z().getB() + z));
            auto s = [&] { return show(a) + fmt(" by (%g,%g,%g)", x, y, z); };
            mc::state(); mc::trans(4); mc::trace();
            if (!inv(d) || d != w || f != d || d != a.dilatedBy(x, y, z) || d != a.erodedBy(-x, -y, -z)) mc::fail("dilate " + s(), show(d));
            if (x == y && y == z) { Box3d g(a), h(a); g.dilateBy(x); h.erodeBy(-x); if (g != w || h != w || a.dilatedBy(x) != w || a.erodedBy(-x) != w) mc::fail("dilate(r) " + s(), show(g)); }
        }
    }
    if (mc::g().shard == 0 && (!Box3d::empty().isEmpty() || !Box3d::full().isFull() || !(Box3d::aroundUnitSphere() == Box3d(Interval1d(-1, 1), Interval1d(-1, 1), Interval1d(-1, 1))))) mc::fail("factories");
    mc::sample(fmt("%zu 3-d boxes", bs.size()));
}
static void body() { boxes(); boxes3(); }
int main(int argc, char ** argv) { return mc::run(argc, argv, body); }
