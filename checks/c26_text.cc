// C26: the printed form of every value is well formed and carries the value exactly.
#include "lsst/sphgeom/Angle.h"
#include "lsst/sphgeom/AngleInterval.h"
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/Interval1d.h"
#include "lsst/sphgeom/LonLat.h"
#include "lsst/sphgeom/Matrix3d.h"
#include "lsst/sphgeom/NormalizedAngle.h"
#include "lsst/sphgeom/NormalizedAngleInterval.h"
#include "lsst/sphgeom/RangeSet.h"
#include "lsst/sphgeom/UnitVector3d.h"
#include "lsst/sphgeom/Vector3d.h"
#include "mc.h"
#include <iomanip>
#include <limits>
#include <sstream>
using namespace lsst::sphgeom;
using mc::fmt;
static double const NaN = std::numeric_limits<double>::quiet_NaN(), INF = INFINITY;

// --- a reader for the printed form: shape of the nesting with # for numbers, and the numbers' spelling
struct Text { std::string shape; std::vector<std::string> nums; bool ok = true; };
static void skip(char const *& p) { while (*p == ' ') ++p; }
static void value(char const *& p, Text & t, int depth = 0) {
    skip(p);
    if (depth > 6) { t.ok = false; return; }
    if (*p == '{') {
        t.shape += *p++; skip(p);
        if (*p++ != '"') { t.ok = false; return; }
        t.shape += '"';
        while (*p && *p != '"') t.shape += *p++;
        if (*p++ != '"') { t.ok = false; return; }
        skip(p);
        if (*p++ != ':') { t.ok = false; return; }
        t.shape += "\":";
        value(p, t, depth + 1);
        if (!t.ok) return;
        skip(p);
        if (*p++ != '}') { t.ok = false; return; }
        t.shape += '}';
    } else if (*p == '[') {
        t.shape += *p++; skip(p);
        if (*p == ']') { t.shape += *p++; return; }
        for (;;) {
            value(p, t, depth + 1);
            if (!t.ok) return;
            skip(p);
            if (*p == ',') { t.shape += *p++; continue; }
            if (*p == ']') { t.shape += *p++; return; }
            t.ok = false; return;
        }
    } else {
        std::string n;
        while (*p && *p != ',' && *p != ']' && *p != '}' && *p != ' ') n += *p++;
        t.ok = t.ok && !n.empty();
        t.nums.push_back(n);
        t.shape += '#';
    }
}
static Text parse(std::string const & s) {
    Text t;
    char const * p = s.c_str();
    value(p, t);
    if (t.ok && *p) t.ok = false;
    return t;
}
static bool eq(std::string const & n, double w) {
    char * e = nullptr;
    double d = strtod(n.c_str(), &e);
    if (!e || *e || e == n.c_str()) return false;
    return w != w ? d != d : (d == w && std::signbit(d) == std::signbit(w));
}

// Streams in several states: what was printed before, and numeric formatting in effect.
static int const NSTREAMS = 6;
static void prepare(std::ostringstream & os, int k) {
    if (k == 1) os << std::setprecision(2);
    if (k == 2) os << std::fixed << std::setprecision(1);
    if (k == 3) os << std::scientific << std::setprecision(3);
    if (k == 4) os << std::showpoint << std::setprecision(25) << std::uppercase;
    if (k == 5) os << "before " << 1.5 << ' ';
}
template <class T> static void check(char const * cls, T const & v, std::string const & shape, std::vector<double> const & want) {
    std::string first;
    for (int k = 0; k < NSTREAMS; ++k) {
        std::ostringstream os;
        prepare(os, k);
        std::string pre = os.str();
        auto fl = os.flags(); auto pr = os.precision();
        std::ostream & r = (os << v);
        mc::trans();
        auto key = [&] { std::string s; for (double d : want) s += (s.empty() ? "" : ",") + mc::hx(d); return fmt("%s stream %d ", cls, k) + s.substr(0, 300); };
        if (&r != &os || os.flags() != fl || os.precision() != pr || !os.good()) mc::fail(key(), "stream state");
        std::string s = os.str().substr(pre.size());
        if (k == 0) first = s;
        else if (s != first) mc::fail(key(), "text depends on the stream: " + s.substr(0, 200));
        Text t = parse(s);
        if (!t.ok) { mc::fail(key(), "malformed: " + s.substr(0, 200)); continue; }
        std::string sh;
        for (char c : t.shape) if (c != ' ') sh += c;
        if (sh != shape) { mc::fail(key(), "shape " + sh.substr(0, 200)); continue; }
        bool ok = t.nums.size() == want.size();
        for (size_t i = 0; ok && i < want.size(); ++i) ok = eq(t.nums[i], want[i]);
        if (!ok) mc::fail(key(), "values differ: " + s.substr(0, 200));
    }
    // twice in a row on one stream
    std::ostringstream os;
    os << v << '|' << v;
    if (os.str() != first + "|" + first) mc::fail(std::string(cls) + " printed twice", os.str().substr(0, 300));
    mc::state(); mc::trace();
    if (mc::wantSample()) mc::sample(first.substr(0, 160));
}

static std::vector<double> numbers() {
    std::vector<double> p{0.0, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 1.2345678901234567e-308, 1.0, 0.1, 1.0 / 3, 2.0 / 3, PI, 2 * PI, 0.5 * PI, 1e-5, 9.9999999999999995e-5, 1e-4, 123456789012345680.0, 99999999999999984.0, 1e16, 1e17,
                          1.0000000000000002, 0.99999999999999989, 4.9406564584124654e-324 * 3, 1e100, 1e-100, 7.2911234567890123e-200, 9007199254740993.0, 0.30000000000000004}, r;
    if (mc::thorough()) for (int e = -1074; e < 1024; ++e) p.push_back(std::ldexp(e < -1022 ? 1.0 : 1.2345678901234567, e));
    for (double x : p) { r.push_back(x); r.push_back(-x); }
    r.push_back(INF); r.push_back(-INF); r.push_back(NaN);
    return r;
}
static std::string rep(std::string const & s, size_t n) { std::string r; for (size_t i = 0; i < n; ++i) r += (i ? "," : "") + s; return r; }
static std::string const V3 = "[#,#,#]", I2 = "[#,#]", M3 = "[[#,#,#],[#,#,#],[#,#,#]]";

static void scalars() {
    auto al = numbers();
    for (size_t i = 0; i < al.size(); ++i) {
        mc::at(i);
        if (!mc::mine(i)) continue;
        double x = al[i];
        check("Angle", Angle(x), "#", {x});
        if (x >= 0 && x <= 2 * PI) check("NormalizedAngle", NormalizedAngle(x), "#", {x});
        auto bl = al;
        if (bl.size() > 60) bl.resize(60);
        for (double y : bl) {
            check("Interval1d", Interval1d(x, y), I2, {x, y});
            check("AngleInterval", AngleInterval(Angle(x), Angle(y)), I2, {x, y});
            for (double z : {0.0, -1.2345678901234567e-308, NaN, 0.1}) check("Vector3d", Vector3d(x, z, y), V3, {x, z, y});
            if (x >= 0 && x <= 2 * PI && y >= 0 && y <= 2 * PI) {
                NormalizedAngleInterval n{NormalizedAngle(x), NormalizedAngle(y)};
                check("NormalizedAngleInterval", n, I2, {n.getA().asRadians(), n.getB().asRadians()});
            }
            if (x >= 0 && x <= 2 * PI && std::fabs(y) <= 0.5 * PI) check("LonLat", LonLat(NormalizedAngle(x), Angle(y)), I2, {x, y});
            check("Matrix3d", Matrix3d(1, x, 2, 3, y, -4, -x, -y, 5), M3, {1, x, 2, 3, y, -4, -x, -y, 5});
        }
    }
}
static void shapes() {
    std::vector<double> p{0.0, -0.0, 1.0, -1.0, 5e-324, 1.0 / 3, -1.2345678901234567e-308, 0.1, 1e-200};
    std::vector<UnitVector3d> us;
    for (double x : p) for (double y : p) for (double z : p) if (x != 0 || y != 0 || z != 0) us.emplace_back(Vector3d(x, y, z));
    std::vector<double> cl{-1.0, 0.0, -0.0, 4.9e-324, 1.2345678901234567e-308, 1.0 / 3, 2.0, 3.9999999999999996, 4.0};
    for (size_t i = 0; i < us.size(); ++i) {
        if (!mc::mine(i)) continue;
        mc::at(i);
        UnitVector3d const & u = us[i];
        check("UnitVector3d", u, V3, {u.x(), u.y(), u.z()});
        for (double c : cl) {
            Circle k(u, c);
            check("Circle", k, "{\"Circle\":[[#,#,#],#]}", {k.getCenter().x(), k.getCenter().y(), k.getCenter().z(), k.getSquaredChordLength()});
        }
        for (double a : {0.0, 1e-300, 0.3, 1.0, 2.0}) for (double b : {0.0, 0.1, 1.5}) {
            if ((a < 0.5 * PI) != (b < 0.5 * PI)) continue;
            Ellipse e(u, Angle(a), Angle(b), Angle(0.7));
            auto const & m = e.getTransformMatrix();
            std::vector<double> w;
            for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) w.push_back(m(r, c));
            w.push_back(e.getAlpha().asRadians()); w.push_back(e.getBeta().asRadians());
            check("Ellipse", e, "{\"Ellipse\":[" + M3 + ",#,#]}", w);
        }
    }
    for (Ellipse const & e : {Ellipse(), Ellipse::empty(), Ellipse::full()}) {
        auto const & m = e.getTransformMatrix();
        std::vector<double> w;
        for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) w.push_back(m(r, c));
        w.push_back(e.getAlpha().asRadians()); w.push_back(e.getBeta().asRadians());
        check("Ellipse", e, "{\"Ellipse\":[" + M3 + ",#,#]}", w);
    }
    for (Circle const & k : {Circle(), Circle::empty(), Circle::full()}) check("Circle", k, "{\"Circle\":[[#,#,#],#]}", {k.getCenter().x(), k.getCenter().y(), k.getCenter().z(), k.getSquaredChordLength()});
    // boxes
    std::vector<NormalizedAngleInterval> ls{NormalizedAngleInterval(), NormalizedAngleInterval::full()};
    std::vector<double> la{0.0, 5e-324, 1.0 / 3, PI, 6.2, 2 * PI};
    for (double a : la) for (double b : la) ls.emplace_back(NormalizedAngle(a), NormalizedAngle(b));
    std::vector<AngleInterval> bs{AngleInterval(), AngleInterval::full()};
    std::vector<double> ba{-0.5 * PI, -1.0 / 3, -5e-324, 0.0, 0.1, 0.5 * PI};
    for (double a : ba) for (double b : ba) bs.emplace_back(Angle(a), Angle(b));
    size_t n = 0;
    for (auto & l : ls) for (auto & b : bs) {
        if (!mc::mine(n++)) continue;
        mc::at(1, n);
        Box x(l, b);
        check("Box", x, "{\"Box\":[[#,#],[#,#]]}", {x.getLon().getA().asRadians(), x.getLon().getB().asRadians(), x.getLat().getA().asRadians(), x.getLat().getB().asRadians()});
    }
    std::vector<Interval1d> is{Interval1d(), Interval1d::full(), Interval1d(0.1), Interval1d(-1.0 / 3, 1e300), Interval1d(-5e-324, 5e-324)};
    for (auto & x : is) for (auto & y : is) for (auto & z : is) {
        Box3d b(x, y, z);
        check("Box3d", b, "{\"Box3d\":[[#,#],[#,#],[#,#]]}", {b.x().getA(), b.x().getB(), b.y().getA(), b.y().getB(), b.z().getA(), b.z().getB()});
    }
    // polygons
    for (int nv = 3; nv <= (mc::deep() ? 200 : mc::thorough() ? 60 : 24); ++nv) for (double r : {1e-9, 0.3, 1.5}) for (double z0 : {0.0, 0.1}) {
        std::vector<UnitVector3d> v;
        for (int i = 0; i < nv; ++i) v.emplace_back(Vector3d(std::cos(r), std::sin(r) * std::cos(2 * PI * i / nv + z0), std::sin(r) * std::sin(2 * PI * i / nv + z0)));
        mc::at(2, nv);
        if (!mc::mine(n++)) continue;
        ConvexPolygon q = ConvexPolygon::convexHull(v);
        std::vector<double> w;
        for (auto const & u : q.getVertices()) for (int k = 0; k < 3; ++k) w.push_back(u(k));
        check("ConvexPolygon", q, "{\"ConvexPolygon\":[" + rep(V3, q.getVertices().size()) + "]}", w);
    }
}
// Range sets: exact integers, over all subsets of a cut alphabet.
static void rangeSets() {
    std::vector<uint64_t> cuts{1, 2, 3, 9, 10, 11, 1000, (uint64_t(1) << 53) + 1, uint64_t(1) << 63, ~uint64_t(0) - 1, ~uint64_t(0)};
    size_t m = cuts.size();
    for (uint64_t bits = 0; bits < (uint64_t(1) << (m + 1)); ++bits) {      // cell i is [cuts[i-1], cuts[i])
        if (!mc::mine(bits)) continue;
        mc::at(bits);
        RangeSet s;
        std::vector<std::pair<uint64_t, uint64_t>> w;
        for (size_t i = 0; i <= m; ++i) if (bits >> i & 1) {
            uint64_t a = i ? cuts[i - 1] : 0, b = i < m ? cuts[i] : 0;
            if (!w.empty() && w.back().second == a && a) w.back().second = b; else w.emplace_back(a, b);
            s.insert(a, b);
        }
        std::ostringstream os;
        os << s;
        Text t = parse(os.str());
        mc::state(); mc::trans(); mc::trace();
        auto key = [&] { return fmt("RangeSet subset %llx", (unsigned long long)bits); };
        std::string sh;
        for (char c : t.shape) if (c != ' ') sh += c;
        bool ok = t.ok && sh == "{\"RangeSet\":[" + rep(I2, w.size()) + "]}" && t.nums.size() == 2 * w.size();
        for (size_t i = 0; ok && i < w.size(); ++i) ok = t.nums[2 * i] == fmt("%llu", (unsigned long long)w[i].first) && t.nums[2 * i + 1] == fmt("%llu", (unsigned long long)w[i].second);
        if (!ok) mc::fail(key(), os.str().substr(0, 300));
    }
}
static void body() {
    mc::section("angles, intervals, vectors and matrices");
    scalars();
    mc::section("unit vectors and regions");
    shapes();
    mc::section("range sets");
    rangeSets();
}
int main(int argc, char ** argv) { return mc::run(argc, argv, body); }
