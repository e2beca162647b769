// C27: comparison operators are exact comparisons of values.
#include "lsst/sphgeom/Angle.h"
#include "lsst/sphgeom/AngleInterval.h"
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Chunker.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/Interval1d.h"
#include "lsst/sphgeom/LonLat.h"
#include "lsst/sphgeom/Matrix3d.h"
#include "lsst/sphgeom/NormalizedAngle.h"
#include "lsst/sphgeom/NormalizedAngleInterval.h"
#include "lsst/sphgeom/RangeSet.h"
#include "lsst/sphgeom/UnitVector3d.h"
#include "lsst/sphgeom/Vector3d.h"
#include "mc.h"
#include <algorithm>
#include <limits>
#include <memory>
using namespace lsst::sphgeom;
using mc::fmt;
static double const NaN = std::numeric_limits<double>::quiet_NaN(), INF = INFINITY;
static double const TP = 2 * PI, HP = 0.5 * PI;

// All ordered pairs of a list; eq(i, j) is the oracle. An object is also compared with itself and with a copy.
template <class T, class EQ, class SHOW> static void pairs(char const * cls, std::vector<T> const & v, EQ eq, SHOW show) {
    for (size_t i = 0; i < v.size(); ++i) {
        if (!mc::mine(i)) continue;
        mc::state();
        for (size_t j = 0; j < v.size(); ++j) {
            mc::at(i, j); mc::trans(2); mc::trace();
            bool w = eq(v[i], v[j]), e = v[i] == v[j], n = v[i] != v[j];
            if (e != w || n == w) mc::fail(std::string(cls) + " " + show(v[i]) + " and " + show(v[j]), fmt("== gives %d, != gives %d, want %d", e, n, w));
        }
        T c(v[i]);
        bool w = eq(v[i], v[i]);
        if ((c == v[i]) != w || (v[i] == c) != w || (v[i] != c) == w) mc::fail(std::string(cls) + " " + show(v[i]) + " and its copy");
        if (mc::wantSample()) mc::sample(std::string(cls) + " " + show(v[i]) + fmt(" with %zu others", v.size()));
    }
}
static std::string g(double x) { return fmt("%.17g", x); }
static std::string sh(Vector3d const & v) { return "(" + g(v.x()) + "," + g(v.y()) + "," + g(v.z()) + ")"; }
static bool veq(Vector3d const & a, Vector3d const & b) { return a.x() == b.x() && a.y() == b.y() && a.z() == b.z(); }

static void scalars() {
    std::vector<double> al{0.0, -0.0, 5e-324, -5e-324, 1.0, std::nextafter(1.0, 2), std::nextafter(1.0, 0), -1.0, 1e300, -1e300, 1e-300, INF, -INF, NaN, PI, TP, std::nextafter(TP, 0), HP};
    for (size_t i = 0; i < al.size(); ++i) for (size_t j = 0; j < al.size(); ++j) {
        if (!mc::mine(i)) continue;
        double x = al[i], y = al[j];
        mc::at(i, j); mc::state(); mc::trans(24); mc::trace();
        auto key = [&](char const * c) { return std::string(c) + " " + g(x) + " and " + g(y); };
        auto six = [&](auto const & a, auto const & b) { return (a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y); };
        Angle a(x), b(y);
        if (!six(a, b)) mc::fail(key("Angle"));
        bool nx = x >= 0 && x <= TP, ny = y >= 0 && y <= TP;
        if (nx && ny && !six(NormalizedAngle(x), NormalizedAngle(y))) mc::fail(key("NormalizedAngle"));
        if (nx && !six(NormalizedAngle(x), b)) mc::fail(key("NormalizedAngle and Angle"));
        if (ny && !six(a, NormalizedAngle(y))) mc::fail(key("Angle and NormalizedAngle"));
    }
}
static void vectors() {
    std::vector<double> al{0.0, -0.0, 1.0, std::nextafter(1.0, 2), 5e-324, NaN};
    std::vector<Vector3d> vs;
    for (double x : al) for (double y : al) for (double z : al) vs.emplace_back(x, y, z);
    pairs("Vector3d", vs, veq, sh);
    std::vector<UnitVector3d> us;
    for (double x : {0.0, 1.0, -1.0, std::nextafter(1.0, 0), 5e-324}) for (double y : {0.0, 1.0, 1e-300}) for (double z : {0.0, 1.0, std::nextafter(1.0, 0)}) us.push_back(UnitVector3d::fromNormalized(x, y, z));
    pairs("UnitVector3d", us, [](UnitVector3d const & a, UnitVector3d const & b) { return veq(a, b); }, [](UnitVector3d const & a) { return sh(a); });
    for (size_t i = 0; i < us.size(); ++i) for (size_t j = 0; j < vs.size(); ++j) {
        if (!mc::mine(i)) continue;
        mc::trans(4);
        bool w = veq(us[i], vs[j]);
        if ((us[i] == vs[j]) != w || (us[i] != vs[j]) == w || (vs[j] == us[i]) != w || (vs[j] != us[i]) == w) mc::fail("UnitVector3d and Vector3d " + sh(us[i]) + sh(vs[j]));
    }
    // matrices that differ in any set of the nine elements
    std::vector<Matrix3d> ms;
    for (int bits = 0; bits < 512; ++bits) {
        double m[9];
        for (int k = 0; k < 9; ++k) m[k] = (bits >> k & 1) ? std::nextafter(1.0 + k, 99.0) : 1.0 + k;
        ms.emplace_back(m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]);
    }
    pairs("Matrix3d", ms, [](Matrix3d const & a, Matrix3d const & b) { for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) if (a(r, c) != b(r, c)) return false; return true; },
          [](Matrix3d const & a) { return sh(a.getRow(0)) + sh(a.getRow(1)) + sh(a.getRow(2)); });
    std::vector<LonLat> ps;
    for (double lo : {0.0, 5e-324, 1.0, std::nextafter(1.0, 2), TP, std::nextafter(TP, 0)}) for (double la : {0.0, 5e-324, 1.0, std::nextafter(1.0, 0), HP, -HP, -1.0}) ps.emplace_back(NormalizedAngle(lo), Angle(la));
    ps.push_back(LonLat::fromRadians(NaN, NaN));
    pairs("LonLat", ps, [](LonLat const & a, LonLat const & b) { return a.getLon().asRadians() == b.getLon().asRadians() && a.getLat().asRadians() == b.getLat().asRadians(); },
          [](LonLat const & a) { return g(a.getLon().asRadians()) + "," + g(a.getLat().asRadians()); });
}
static double rad(double x) { return x; }
static double rad(Angle x) { return x.asRadians(); }
static double rad(NormalizedAngle x) { return x.asRadians(); }
template <class I> static bool ieq(I const & x, I const & y) {
    return (rad(x.getA()) == rad(y.getA()) && rad(x.getB()) == rad(y.getB())) || (x.isEmpty() && y.isEmpty());
}
template <class I> static std::string ish(I const & x) { return "[" + g(rad(x.getA())) + "," + g(rad(x.getB())) + "]"; }
static std::vector<NormalizedAngleInterval> lonIntervals() {
    std::vector<NormalizedAngleInterval> r{NormalizedAngleInterval(), NormalizedAngleInterval::full()};
    std::vector<double> al{0.0, 5e-324, 1.0, std::nextafter(1.0, 2), 4.0, std::nextafter(TP, 0), TP};
    for (double a : al) for (double b : al) r.emplace_back(NormalizedAngle(a), NormalizedAngle(b));
    return r;
}
static std::vector<AngleInterval> latIntervals() {
    std::vector<AngleInterval> r{AngleInterval(), AngleInterval::full()};
    std::vector<double> al{-HP, -1.0, 0.0, 5e-324, 1.0, std::nextafter(1.0, 0), HP, NaN};
    for (double a : al) for (double b : al) r.emplace_back(Angle(a), Angle(b));
    return r;
}
static void intervals() {
    std::vector<Interval1d> is{Interval1d(), Interval1d::full()};
    std::vector<double> al{-INF, -1.0, 0.0, -0.0, 5e-324, 1.0, std::nextafter(1.0, 2), 1e300, INF, NaN};
    for (double a : al) for (double b : al) is.emplace_back(a, b);
    pairs("Interval1d", is, ieq<Interval1d>, ish<Interval1d>);
    pairs("AngleInterval", latIntervals(), ieq<AngleInterval>, ish<AngleInterval>);
    pairs("NormalizedAngleInterval", lonIntervals(), ieq<NormalizedAngleInterval>, ish<NormalizedAngleInterval>);
    // with single values
    for (auto const & i : is) for (double x : al) {
        bool w = (i.getA() == x && i.getB() == x) || (x != x && i.isEmpty());
        mc::trans(2);
        if ((i == x) != w || (i != x) == w) mc::fail("Interval1d and value " + ish(i) + " " + g(x));
    }
    for (auto const & i : lonIntervals()) for (double x : {0.0, 5e-324, 1.0, std::nextafter(1.0, 2), TP}) {
        bool w = i.getA().asRadians() == x && i.getB().asRadians() == x;
        mc::trans(2);
        NormalizedAngle a(x);
        if ((i == a) != w || (i != a) == w) mc::fail("NormalizedAngleInterval and value " + ish(i) + " " + g(x));
    }
}
static void regions() {
    std::vector<Box> bs{Box(), Box::empty(), Box::full()};
    for (auto & l : lonIntervals()) for (auto & b : latIntervals()) bs.emplace_back(l, b);
    pairs("Box", bs, [](Box const & a, Box const & b) { return (a.isEmpty() && b.isEmpty()) || (ieq(a.getLon(), b.getLon()) && ieq(a.getLat(), b.getLat())); }, [](Box const & a) { return ish(a.getLon()) + ish(a.getLat()); });
    std::vector<Box3d> cs{Box3d(), Box3d::full()};
    std::vector<Interval1d> is{Interval1d(), Interval1d(0, 1), Interval1d(0, std::nextafter(1.0, 2)), Interval1d(-5e-324, 1), Interval1d(1, 1), Interval1d(2, 1)};
    for (auto & x : is) for (auto & y : is) for (auto & z : is) cs.emplace_back(x, y, z);
    pairs("Box3d", cs, [](Box3d const & a, Box3d const & b) { return (a.isEmpty() && b.isEmpty()) || (ieq(a.x(), b.x()) && ieq(a.y(), b.y()) && ieq(a.z(), b.z())); }, [](Box3d const & a) { return ish(a.x()) + ish(a.y()) + ish(a.z()); });
    std::vector<UnitVector3d> us{UnitVector3d::X(), -UnitVector3d::X(), UnitVector3d::Y(), UnitVector3d(1, 1, 1), UnitVector3d(1, 1e-9, 0), UnitVector3d::fromNormalized(1.0, 5e-324, 0.0), UnitVector3d::fromNormalized(std::nextafter(1.0, 0), 0.0, 0.0)};
    std::vector<Circle> ks{Circle(), Circle::empty(), Circle::full()};
    for (auto & u : us) {
        for (double c : {-1.0, -5e-324, 0.0, 5e-324, 0.5, std::nextafter(0.5, 1), 2.0, std::nextafter(4.0, 0), 4.0, 5.0, NaN}) ks.emplace_back(u, c);
        for (double a : {-0.1, 0.0, 0.3, std::nextafter(0.3, 1), HP, PI, 4.0}) ks.emplace_back(u, Angle(a));
    }
    pairs("Circle", ks, [](Circle const & a, Circle const & b) {
        return (a.isEmpty() && b.isEmpty()) || (a.isFull() && b.isFull()) || (veq(a.getCenter(), b.getCenter()) && a.getSquaredChordLength() == b.getSquaredChordLength() && a.getOpeningAngle().asRadians() == b.getOpeningAngle().asRadians());
    }, [](Circle const & a) { return sh(a.getCenter()) + g(a.getSquaredChordLength()) + "/" + g(a.getOpeningAngle().asRadians()); });
    std::vector<Ellipse> es;
    for (auto & u : us) for (double a : {0.1, 0.4, std::nextafter(0.4, 1), 1.0}) for (double b : {0.1, 0.2, std::nextafter(0.2, 1)}) for (double t : {0.0, 0.3, std::nextafter(0.3, 1)}) es.emplace_back(u, Angle(a), Angle(b), Angle(t));
    for (auto & u : us) es.emplace_back(Circle(u, Angle(0.4)));
    // axes close to a right angle, where they hardly depend on each other or on the foci
    for (double a : {HP, std::nextafter(HP, 0), std::nextafter(std::nextafter(HP, 0), 0), HP - 1e-9})
        for (double b : {1e-9, 0.2, std::nextafter(0.2, 1), 0.5, 1.0, std::nextafter(HP, 0)}) if (a < HP) es.emplace_back(us[3], Angle(a), Angle(b), Angle(0.3));
    for (double a : {1e-300, 1e-9, std::nextafter(1e-9, 1)}) for (double b : {1e-300, 1e-10, std::nextafter(1e-10, 1)}) es.emplace_back(us[3], Angle(a), Angle(b), Angle(0.3));
    for (size_t n = es.size(), i = 0; i < n; i += 7) es.push_back(es[i].complemented());
    pairs("Ellipse", es, [](Ellipse const & a, Ellipse const & b) {
        for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) if (a.getTransformMatrix()(r, c) != b.getTransformMatrix()(r, c)) return false;
        return a.getAlpha().asRadians() == b.getAlpha().asRadians() && a.getBeta().asRadians() == b.getBeta().asRadians();
    }, [](Ellipse const & a) { return sh(a.getCenter()) + g(a.getAlpha().asRadians()) + "," + g(a.getBeta().asRadians()) + sh(a.getTransformMatrix().getRow(0)); });
}
// --- polygons: the same cycle of vertices
static std::unique_ptr<ConvexPolygon> poly(std::vector<UnitVector3d> const & v) {
    std::vector<uint8_t> b{'p'};
    for (auto & u : v) for (int k = 0; k < 3; ++k) { double d = u(k); uint64_t x; memcpy(&x, &d, 8); for (int n = 0; n < 8; ++n) b.push_back(uint8_t(x >> (8 * n))); }
    return ConvexPolygon::decode(b.data(), b.size());
}
static bool cyc(std::vector<UnitVector3d> const & a, std::vector<UnitVector3d> const & b) {
    size_t n = a.size();
    if (b.size() != n) return false;
    for (size_t r = 0; r < n; ++r) {
        bool ok = true;
        for (size_t i = 0; ok && i < n; ++i) ok = veq(a[i], b[(i + r) % n]);
        if (ok) return true;
    }
    return false;
}
static std::string psh(ConvexPolygon const & p) {
    std::string s;
    for (auto & v : p.getVertices()) { if (s.size() > 400) { s += "..."; break; } s += sh(v); }
    return s;
}
static void polygons() {
    std::vector<ConvexPolygon> ps;
    auto ring = [](int n, double r) { std::vector<UnitVector3d> v; for (int i = 0; i < n; ++i) v.emplace_back(Vector3d(1, r * std::cos(TP * i / n), r * std::sin(TP * i / n))); return v; };
    // every sequence of 3 and 4 different vertices out of 5 (equality concerns the lists, whatever their geometry)
    auto five = ring(5, 0.4);
    for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) for (int c = 0; c < 5; ++c) {
        if (a == b || b == c || a == c) continue;
        ps.push_back(*poly({five[a], five[b], five[c]}));
        for (int d = 0; d < 5; ++d) if (d != a && d != b && d != c) ps.push_back(*poly({five[a], five[b], five[c], five[d]}));
    }
    // convex polygons, rotated; with one vertex moved by an ulp; with one vertex removed
    for (int n : {3, 4, 5, 6, 8}) {
        auto v = ring(n, 0.7);
        for (int r = 0; r < n; ++r) {
            auto w = v;
            std::rotate(w.begin(), w.begin() + r, w.end());
            ps.push_back(*poly(w));
            auto x = w;
            x[0] = UnitVector3d::fromNormalized(x[0].x(), std::nextafter(x[0].y(), 9), x[0].z());
            ps.push_back(*poly(x));
            std::rotate(x.begin(), x.begin() + n / 2, x.end());
            ps.push_back(*poly(x));
            if (n > 3) { w.erase(w.begin() + 1); ps.push_back(*poly(w)); }
        }
        ps.push_back(ConvexPolygon::convexHull(v));
        std::vector<UnitVector3d> back(v.rbegin(), v.rend());
        ps.push_back(ConvexPolygon::convexHull(back));
    }
    pairs("ConvexPolygon", ps, [](ConvexPolygon const & a, ConvexPolygon const & b) { return cyc(a.getVertices(), b.getVertices()); }, psh);
    for (auto & p : ps) {
        std::unique_ptr<Region> c = p.clone();
        mc::trans();
        if (!(dynamic_cast<ConvexPolygon &>(*c) == p)) mc::fail("clone of " + psh(p));
    }
}
static void others() {
    std::vector<Chunker> cs;
    for (int s : {1, 2, 3, 10, 85}) for (int ss : {1, 2, 3, 10, 12}) cs.emplace_back(s, ss);
    pairs("Chunker", cs, [](Chunker const & a, Chunker const & b) { return a.getNumStripes() == b.getNumStripes() && a.getNumSubStripesPerStripe() == b.getNumSubStripesPerStripe(); },
          [](Chunker const & a) { return fmt("%d,%d", a.getNumStripes(), a.getNumSubStripesPerStripe()); });
    // range sets: all pairs of subsets of 7 cells between cut points, each built in two ways
    std::vector<uint64_t> cuts{1, 2, 100, uint64_t(1) << 63, ~uint64_t(0) - 1, ~uint64_t(0)};
    size_t m = cuts.size();
    struct RS { RangeSet s; unsigned bits; bool operator==(RS const & o) const { return s == o.s; } bool operator!=(RS const & o) const { return s != o.s; } };
    std::vector<RS> rs;
    for (unsigned bits = 0; bits < (1u << (m + 1)); ++bits) {
        RS a{RangeSet(), bits}, b{RangeSet(), bits};
        b.s.fill();
        for (size_t i = 0; i <= m; ++i) {
            uint64_t lo = i ? cuts[i - 1] : 0, hi = i < m ? cuts[i] : 0;
            if (bits >> (m - i) & 1) a.s.insert(lo, hi); else b.s.erase(lo, hi);
        }
        rs.push_back(a); rs.push_back(b);
    }
    pairs("RangeSet", rs, [](RS const & a, RS const & b) { return a.bits == b.bits; }, [](RS const & a) { return fmt("%x", a.bits); });
}
static void body() {
    mc::section("angles"); scalars();
    mc::section("vectors, matrices and positions"); vectors();
    mc::section("intervals"); intervals();
    mc::section("boxes, circles and ellipses"); regions();
    mc::section("polygons"); polygons();
    mc::section("chunkers and range sets"); others();
}
int main(int argc, char ** argv) { return mc::run(argc, argv, body); }
