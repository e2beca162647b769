// C13: bounding boxes, bounding circles and 3-d bounding boxes.
#include "zoo.h"
using namespace zoo;
using mc::fmt;

static std::string bx(Box const & b) {
    return fmt("lon [%.17g,%.17g] lat [%.17g,%.17g]", b.getLon().getA().asRadians(), b.getLon().getB().asRadians(), b.getLat().getA().asRadians(), b.getLat().getB().asRadians());
}
static std::string b3(Box3d const & b) {
    return fmt("x [%.17g,%.17g] y [%.17g,%.17g] z [%.17g,%.17g]", b.x().getA(), b.x().getB(), b.y().getA(), b.y().getB(), b.z().getA(), b.z().getB());
}
// How far outside the bound a point is (0 = inside), in radians or length.
static LD missBox(Box const & b, Pt const & p) {
    if (b.contains(p.u)) return 0;
    Sh s; s.k = 'b'; s.lonfull = b.getLon().isFull();
    s.lon0 = b.getLon().getA().asRadians(); s.lonw = (LD)b.getLon().getB().asRadians() - s.lon0;
    if (s.lonw < 0) s.lonw += 2 * LPI;
    s.lat0 = b.getLat().getA().asRadians(); s.lat1 = b.getLat().getB().asRadians();
    if (b.isEmpty()) return FAR;
    return std::max(-s.sd(p.v), 1e-30L);
}
static LD missCircle(Circle const & c, Pt const & p) {
    if (c.contains(p.u)) return 0;
    if (c.isEmpty()) return FAR;
    LD r = 2 * asinl(std::min(1.0L, sqrtl((LD)c.getSquaredChordLength()) / 2));
    return std::max(angle(V3(c.getCenter()), p.v) - r, 1e-30L);
}
static LD missBox3(Box3d const & b, Pt const & p) {
    if (b.isEmpty()) return FAR;
    LD m = 0;
    Interval1d const * e[3] = {&b.x(), &b.y(), &b.z()};
    double x[3] = {p.u.x(), p.u.y(), p.u.z()};
    for (int i = 0; i < 3; ++i) m = std::max(m, std::max((LD)e[i]->getA() - x[i], (LD)x[i] - e[i]->getB()));
    if (m <= 0) return b.contains(p.u) ? 0 : FAR;
    return m;
}

static std::vector<P> extra() {   // shapes chosen for their bounds
    std::vector<P> o;
    // circles that touch or nearly touch a pole or the longitude wrap, or sit within rounding of an axis
    std::vector<LD> near = {0, 1e-15L, 1e-12L, 1e-9L, 1e-8L, 3e-8L, 1e-6L};
    V3 ax[6] = {V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1), V3(-1, 0, 0), V3(0, -1, 0), V3(0, 0, -1)};
    for (int i = 0; i < 6; ++i)
        for (LD e : near)
            for (double r : {1e-9, 1e-4, 0.5, 1.2, 0.5 * PI, 2.2, 3.1}) {
                V3 d = anyPerp(ax[i]), f = cross(ax[i], d);
                UnitVector3d c = U(go(ax[i], unit(d + f * 0.3L), e));
                o.push_back(mkCircle(fmt("circle(axis%d+%Lg,%g)", i, e, r), c, r));
            }
    for (LD e : near)
        for (int g : {-1, 1})
            for (double r : {1e-6, 0.3, 1.5}) {
                o.push_back(mkCircle(fmt("circle(touch pole %Lg,%g)", g * e, r), U(lonlat(0.3L, LPI / 2 - r + g * e)), r));
                o.push_back(mkCircle(fmt("circle(touch -pole %Lg,%g)", g * e, r), U(lonlat(5.3L, -(LPI / 2 - r + g * e))), r));
                o.push_back(mkCircle(fmt("circle(touch wrap %Lg,%g)", g * e, r), U(lonlat(r + g * e, 0.0L)), r));
            }
    // polygons with vertices or edges close to the poles, the axes and the coordinate planes
    for (LD e : near) {
        auto add = [&](char const * n, std::vector<V3> v) {
            try { o.push_back(mkPoly(fmt("polygon(%s,%Lg)", n, e), v)); } catch (std::invalid_argument &) {}
        };
        LD H = LPI / 2;
        add("vertex by pole", {lonlat(3, H - e), lonlat(2, 1.2L), lonlat(4, 1.1L)});
        add("vertex past pole", {lonlat(0.1L, H - e), lonlat(2, 1.2L), lonlat(4, 1.1L)});
        add("edge by pole", {lonlat(1, 1.3L), lonlat(1 + LPI - e, 1.2L), lonlat(2.5L, 0.9L)});
        add("edge past pole", {lonlat(1, 1.3L), lonlat(1 + LPI + e, 1.2L), lonlat(2.5L, 0.9L)});
        add("south", {lonlat(3, -H + e), lonlat(4, -1.2L), lonlat(2, -1.1L)});
        add("flat z", {lonlat(-1, e), lonlat(0, -0.3L), lonlat(1, e)});
        add("flat z-", {lonlat(1, -e), lonlat(0, 0.3L), lonlat(-1, -e)});
        add("flat x", {V3(e, 1, 0.5L), V3(e, -1, 0.5L), V3(-0.5L, 0, 1)});
        add("flat x-", {V3(-e, 1, 0.5L), V3(-e, -1, 0.5L), V3(0.5L, 0, 1)});
        add("flat y", {V3(1, e, 0.5L), V3(-1, e, 0.5L), V3(0, 0.5L, 1)});
        add("flat y+", {V3(1, e, 0.5L), V3(-1, e, 0.5L), V3(0, -0.5L, 1)});
        add("wrap", {lonlat(-e, 0.1L), lonlat(0.2L, 0.3L), lonlat(6.1L, 0.4L), lonlat(6.2L, -0.3L)});
        add("across X", {V3(1, e, e), V3(1, -0.1L, 0.05L), V3(1, 0.07L, -0.2L)});
        add("around -Z", {lonlat(0, -H + 2 * e + 1e-16L), lonlat(2.1L, -H + e + 1e-16L), lonlat(4.2L, -1.3L)});
    }
    // boxes reaching the poles, the coordinate planes and the wrap within rounding
    for (LD e : near)
        for (int g : {-1, 1}) {
            double x = (double)(g * e);
            double lo[4] = {0, 0.5 * PI, PI, 1.5 * PI};
            auto nz = [](double a) { return a < 0 ? a + 2 * PI : a; };
            for (int q = 0; q < 4; ++q) {
                o.push_back(mkBoxR(fmt("box(to axis %d %g)", q, x), nz(lo[q] - 0.3), nz(lo[q] + x), -0.2, 0.3));
                o.push_back(mkBoxR(fmt("box(from axis %d %g)", q, x), nz(lo[q] + x), nz(lo[q] + 2.0 > 2 * PI ? lo[q] + 2.0 - 2 * PI : lo[q] + 2.0), 0.2, 1.1));
            }
            o.push_back(mkBoxR(fmt("box(to pole %g)", x), 1, 2, 0.5, 0.5 * PI - std::fabs(x)));
            o.push_back(mkBoxR(fmt("box(from pole %g)", x), 5, 1, -0.5 * PI + std::fabs(x), -1.2));
            o.push_back(mkBoxR(fmt("box(to equator %g)", x), 1, 6, -0.5, x));
            o.push_back(mkBoxR(fmt("box(half %g)", x), 1, 1 + PI + x, -0.3, 0.9));
            o.push_back(mkBoxR(fmt("box(half high %g)", x), 1, 1 + PI + x, 0.8, 1.4));
            o.push_back(mkBoxR(fmt("box(half low %g)", x), 1, 1 + PI + x, -1.5, -0.2));
        }
    {
        for (LD w : {0.01L, 0.7L, 1.5L, 2.5L, 3.0L, 3.2L, 4.5L, 6.0L, 6.28L})
            for (LD a : {-1.57L, -1.0L, -0.4L, -0.01L, 0.0L, 0.6L, 1.3L})
                for (LD h : {1e-6L, 0.2L, 0.9L, 1.6L, 2.9L}) {
                    LD b = std::min(a + h, LPI / 2);
                    o.push_back(mkBoxR(fmt("box(w%Lg,%Lg..%Lg)", w, a, b), 5.0, (double)(5 + w > 2 * LPI ? 5 + w - 2 * LPI : 5 + w), (double)a, (double)b));
                }
        for (int n = 3; n <= 9; ++n)
            for (LD r : {0.02L, 0.4L, 1.0L, 1.4L, 1.56L, 1.5707L})
                for (int c = 0; c < 6; ++c) {
                    V3 C[6] = {V3(0, 0, 1), V3(1, 0.1L, 0), lonlat(6.2L, 0.4L), lonlat(2, -1.3L), lonlat(4, 1.0L), lonlat(3.1L, -0.05L)};
                    o.push_back(mkPoly(fmt("ring(%d,%Lg,%d)", n, r, c), ring(C[c], r, n, 0.3L)));
                }
        // lopsided polygons, whose centroid is far from some vertices
        for (LD w : {1.0L, 2.0L, 2.9L, 3.1L})
            for (LD h : {0.05L, 0.5L, 1.0L, 1.5L})
                for (LD t : {0.1L, 0.5L, 0.9L}) {
                    o.push_back(mkPoly(fmt("lop(%Lg,%Lg,%Lg)", w, h, t), {lonlat(0, 0), lonlat(w, 0), lonlat(w * t, h)}));
                    o.push_back(mkPoly(fmt("lop4(%Lg,%Lg,%Lg)", w, h, t), {lonlat(4, -0.1L), lonlat(4 + w, 0.05L), lonlat(4 + w * t, -h), lonlat(4 + w * t * 0.5L, -h * 0.9L)}));
                }
    }
    return o;
}

static void tight(Sh const & s) {
    Region const & r = *s.r;
    auto key = [&] { return s.name; };
    Box b = r.getBoundingBox();
    Circle c = r.getBoundingCircle();
    Box3d d = r.getBoundingBox3d();
    if (s.empty) {
        if (!b.isEmpty() && s.k != 'u' && s.k != 'i') mc::fail(key() + " empty", "bounding box of an empty region: " + bx(b));
        if (!c.isEmpty() && s.k != 'u' && s.k != 'i') mc::fail(key() + " empty", "bounding circle of an empty region");
        if (!d.isEmpty() && s.k != 'u' && s.k != 'i') mc::fail(key() + " empty", "3-d bounding box of an empty region: " + b3(d));
        return;
    }
    if (s.k == 'c' && !(c == static_cast<Circle const &>(r))) mc::fail(key() + " own", "a circle's bounding circle is not itself");
    if (s.k == 'b' && !(b == static_cast<Box const &>(r))) mc::fail(key() + " own", "a box's bounding box is not itself");
    if (s.full || s.k == 'e' || s.k == 'u' || s.k == 'i') return;
    const LD M = 1e-6L;
    // the true extents
    LD lat0, lat1, e0[3], e1[3];
    bool lonknown = false;
    LD lonc = 0, lonh = 0;
    std::vector<Bd> bd;
    for (int i = 0; i < 3; ++i) e0[i] = 2, e1[i] = -2;
    V3 ax[3] = {V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1)};
    boundary(s, bd, 1);   // contains the extreme points along each axis
    for (auto & q : bd) {
        V3 p = unit(q.p);
        LD x[3] = {p.x, p.y, p.z};
        for (int i = 0; i < 3; ++i) e0[i] = std::min(e0[i], x[i]), e1[i] = std::max(e1[i], x[i]);
    }
    for (int i = 0; i < 3; ++i) {
        if (s.sd(ax[i]) >= -M) e1[i] = 1;
        if (s.sd(-ax[i]) >= -M) e0[i] = -1;
    }
    if (bd.empty()) return;
    lat0 = asinl(std::max(-1.0L, e0[2])); lat1 = asinl(std::min(1.0L, e1[2]));
    bool polar = s.sd(V3(0, 0, 1)) > -0.01L || s.sd(V3(0, 0, -1)) > -0.01L;
    if (!polar && s.k == 'c' && s.rad < 1.5L) {
        lonknown = true;
        lonc = lonOf(s.c);
        lonh = asinl(std::min(1.0L, sinl(s.rad) / cosl(latOf(s.c))));
    }
    if (!polar && s.k == 'p') {  // vertex longitudes relative to the first vertex, unwrapped along the edges
        LD lo = 0, mn = 0, mx = 0, l0 = lonOf(s.v[0]);
        for (size_t i = 1; i < s.v.size(); ++i) {
            LD st = lonOf(s.v[i]) - lonOf(s.v[i - 1]);
            while (st > LPI) st -= 2 * LPI;
            while (st < -LPI) st += 2 * LPI;
            lo += st;
            mn = std::min(mn, lo); mx = std::max(mx, lo);
        }
        if (mx - mn < 3.0L) { lonknown = true; lonc = l0 + (mn + mx) / 2; lonh = (mx - mn) / 2; }
    }
    auto dn = [&](double v) { return (LD)v; };
    if (s.k != 'b') {
        // the poles are extreme latitudes when they are (nearly) inside
        if (dn(b.getLat().getA().asRadians()) < lat0 - M && !(lat0 < -LPI / 2 + 2e-3L)) mc::fail(key() + " loose", fmt("lower latitude should be %.12Lg: ", lat0) + bx(b));
        if (dn(b.getLat().getB().asRadians()) > lat1 + M && !(lat1 > LPI / 2 - 2e-3L)) mc::fail(key() + " loose", fmt("upper latitude should be %.12Lg: ", lat1) + bx(b));
        if (lonknown) {
            LD w = b.getLon().getSize().asRadians();
            if (b.getLon().isFull() || w > 2 * lonh + 1e-5L) mc::fail(key() + " loose", fmt("longitude width should be %.12Lg: ", 2 * lonh) + bx(b));
        }
        mc::trace();
    }
    Interval1d const * e[3] = {&d.x(), &d.y(), &d.z()};
    for (int i = 0; i < 3; ++i) {
        if (dn(e[i]->getA()) < e0[i] - M) mc::fail(key() + " loose", fmt("axis %d should start at %.12Lg: ", i, e0[i]) + b3(d));
        if (dn(e[i]->getB()) > e1[i] + M) mc::fail(key() + " loose", fmt("axis %d should end at %.12Lg: ", i, e1[i]) + b3(d));
    }
}

int main(int argc, char ** argv) {
    return mc::run(argc, argv, [] {
        bool T = mc::thorough();
        std::vector<P> z = simple(true), x = extra(), cz = compounds(T), la = lattice(T);
        z.insert(z.end(), x.begin(), x.end());
        z.insert(z.end(), cz.begin(), cz.end());
        size_t nz = z.size();
        z.insert(z.end(), la.begin(), la.end());
        std::vector<Pt> grid;
        gridPoints(grid, T ? 180 : 36, T ? 90 : 18);
        mc::section("contains");
        for (size_t i = 0; i < z.size(); ++i) {
            if (!mc::mine(i)) continue;
            Sh const & s = *z[i];
            mc::state();
            mc::at(i);
            if (mc::wantSample()) mc::sample(s.name + " " + bx(s.r->getBoundingBox()));
            std::vector<Pt> pts = grid;
            boundaryPoints(s, pts, T, i < nz);
            Box b = s.r->getBoundingBox();
            Circle c = s.r->getBoundingCircle();
            Box3d d = s.r->getBoundingBox3d();
            // the bounds themselves are regions: bounding the bounding circle's box etc. is covered by C15/C12
            for (size_t p = 0; p < pts.size(); ++p) {
                mc::at(i, p);
                bool lib = s.r->contains(pts[p].u);
                int k = s.cls(pts[p].v);
                if (!lib && k <= 0) continue;
                mc::trans();
                // A point is in the region if it is clearly inside, or if the library says so; in the latter case
                // the bound may lack it by as much as it really is outside of the region.
                LD slack = k > 0 ? 0 : std::max(LD(0), -s.sd(pts[p].v));
                LD m;
                auto who = [&] { return fmt("; v=(%.17g,%.17g,%.17g) clearance %Lg, outside by %Lg", pts[p].u.x(), pts[p].u.y(), pts[p].u.z(), s.sd(pts[p].v), m); };
                if ((m = missBox(b, pts[p])) > slack) mc::fail(s.name + " box", bx(b) + who());
                if ((m = missCircle(c, pts[p])) > slack) mc::fail(s.name + " circle", fmt("chord^2 %.17g", c.getSquaredChordLength()) + who());
                if ((m = missBox3(d, pts[p])) > slack) mc::fail(s.name + " box3d", b3(d) + who());
            }
        }
        // Circles that are almost the whole sphere: the squared chord length, which
        // decides what they contain, then knows the opening angle to about 1e-8 only.
        mc::section("nearly full circles");
        {
            std::vector<V3> cs = {V3(0, 0, 1), V3(0, 0, -1)};
            for (LD e : {3e-9L, 1e-8L, 2e-8L, 4e-8L, 1e-7L}) for (int g : {-1, 1}) cs.push_back(V3(e, 0.3L * e, g));
            cs.push_back(V3(1, 0, 0)); cs.push_back(V3(0, -1, 0)); cs.push_back(V3(1, -2, 0.5L));
            size_t n = 0;
            for (V3 const & cv : cs)
                for (int d = 1; d <= (T ? 400 : 120); ++d) {
                    if (!mc::mine(n++)) continue;
                    UnitVector3d c = U(unit(cv));
                    double const del = d * (T ? 3e-10 : 1e-9);
                    mc::state(); mc::at(n, d);
                    Circle const x[2] = {Circle(c, Angle(PI - del)), Circle(c, 4.0 - del * del)};
                    V3 o = -V3(c), a = anyPerp(o), b = cross(o, a);
                    for (int k = 0; k < 2; ++k) {
                        Box bb = x[k].getBoundingBox();
                        Box3d b3d = x[k].getBoundingBox3d();
                        for (int e = 0; e <= (T ? 600 : 150); ++e)
                            for (int q = 0; q < 4; ++q) {
                                UnitVector3d p = U(go(o, q == 0 ? a : q == 1 ? b : q == 2 ? -a : -b, e * (T ? 2.5e-10L : 1e-9L)));
                                if (!x[k].contains(p)) continue;
                                mc::trans();
                                auto who = [&](char const * t) { return fmt("nearly full %s center (%.17g,%.17g,%.17g) pi-%g by %s", t, c.x(), c.y(), c.z(), del, k ? "chord" : "angle"); };
                                if (!bb.contains(p)) mc::fail(who("box"), bx(bb) + fmt(" at distance %d", e));
                                if (!b3d.contains(p)) mc::fail(who("box3d"), b3(b3d) + fmt(" at distance %d", e));
                            }
                    }
                }
        }
        mc::section("tight");
        for (size_t i = 0; i < z.size(); ++i)
            if (mc::mine(i)) {
                mc::at(i);
                mc::state();
                mc::trans();
                tight(*z[i]);
            }
    });
}
