// C08: normalization, longitude/latitude conversions and derived vectors against long double references.
#include "lsst/sphgeom/Angle.h"
#include "lsst/sphgeom/LonLat.h"
#include "lsst/sphgeom/NormalizedAngle.h"
#include "lsst/sphgeom/UnitVector3d.h"
#include "lsst/sphgeom/Vector3d.h"
#include "mc.h"
#include <algorithm>
#include <limits>
using namespace lsst::sphgeom;
using mc::fmt;
typedef long double ld;
static double const NaN = std::numeric_limits<double>::quiet_NaN(), INF = INFINITY, M = std::numeric_limits<double>::max(),
                    D = std::numeric_limits<double>::denorm_min(), N = std::numeric_limits<double>::min();
static double const TP = 2.0 * PI, HP = 0.5 * PI;
static ld const LTP = 2 * 3.14159265358979323846264338327950288L;

static std::string show(Vector3d const & v) { return "(" + mc::hx(v.x()) + "," + mc::hx(v.y()) + "," + mc::hx(v.z()) + ")"; }
struct L3 {
    ld x, y, z;
    L3(ld a, ld b, ld c) : x(a), y(b), z(c) {}
    L3(Vector3d const & v) : x(v.x()), y(v.y()), z(v.z()) {}
    L3 operator+(L3 const & o) const { return {x + o.x, y + o.y, z + o.z}; }
    L3 operator-(L3 const & o) const { return {x - o.x, y - o.y, z - o.z}; }
    L3 operator*(ld s) const { return {x * s, y * s, z * s}; }
    ld dot(L3 const & o) const { return x * o.x + y * o.y + z * o.z; }
    L3 cross(L3 const & o) const { return {y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x}; }
    ld norm() const { return sqrtl(x * x + y * y + z * z); }
    L3 unit() const { ld n = norm(); return {x / n, y / n, z / n}; }
};
static bool near3(Vector3d const & v, L3 const & w, ld tol) { return fabsl(v.x() - w.x) <= tol && fabsl(v.y() - w.y) <= tol && fabsl(v.z() - w.z) <= tol; }
static bool relc(double g, ld w, ld tol) { return fabsl(g - w) <= tol * fabsl(w) + 5e-324L; }

struct Fenced { double pre[320]; Vector3d v; double post[320]; };
static Fenced fence;
static void arm() { for (int i = 0; i < 320; ++i) fence.pre[i] = fence.post[i] = 1234.5 + i; }
static bool intact() { for (int i = 0; i < 320; ++i) if (fence.pre[i] != 1234.5 + i || fence.post[i] != 1234.5 + i) return false; return true; }

static std::vector<double> alphabet() {
    std::vector<double> p{0.0, D, 3 * D, 1e-310, N, 0x1p-1000, 0x1p-540, 1e-160, 0x1p-511, 1e-100, 1e-30, 1e-17, 1e-16, 1e-8, 0.1, 0.7, 1.0, std::nextafter(1.0, 2), 3.0, 12345.678, 1e16, 1e100, 1e153, 1e155, 0x1p600, 0x1p1000, M / 2, M};
    if (mc::thorough()) for (int e = -1070; e < 1020; e += mc::deep() ? 23 : 61) p.push_back(std::ldexp(1.37, e));
    std::vector<double> r;
    for (double x : p) { r.push_back(x); r.push_back(-x); }
    return r;
}

static void normalization() {
    auto al = alphabet();
    size_t n = al.size();
    for (size_t i = 0; i < n; ++i) {
        if (!mc::mine(i)) continue;
        mc::state();
        for (size_t j = 0; j < n; ++j) for (size_t k = 0; k < n; ++k) {
            mc::at(i, j, k);
            Vector3d v(al[i], al[j], al[k]);
            auto key = [&] { return "normalize " + show(v); };
            arm();
            fence.v = v;
            bool threw = false;
            double r = 0;
            try { r = fence.v.normalize(); } catch (std::exception const &) { threw = true; }
            mc::trans(); mc::trace();
            bool zero = al[i] == 0 && al[j] == 0 && al[k] == 0;
            if (!intact()) { mc::fail(key(), "memory outside the vector changed"); continue; }
            if (threw != zero) { mc::fail(key(), threw ? "error for a non-zero vector" : "no error for zero"); continue; }
            if (zero) {
                if (!(fence.v == v)) mc::fail(key(), "failed normalization changed the vector");
                bool t2 = false, t3 = false;
                try { UnitVector3d u(v); } catch (std::exception const &) { t2 = true; }
                try { UnitVector3d u(v.x(), v.y(), v.z()); } catch (std::exception const &) { t3 = true; }
                if (!t2 || !t3) mc::fail(key(), "unit vector constructed from zero");
                if (!v.isZero()) mc::fail(key(), "isZero");
                continue;
            }
            if (v.isZero()) mc::fail(key(), "isZero for a non-zero vector");
            L3 w = L3(v).unit();
            ld nw = L3(v).norm();
            if (!near3(fence.v, w, 4e-16L) || !relc(fence.v.x(), w.x, 1e-15L) || !relc(fence.v.y(), w.y, 1e-15L) || !relc(fence.v.z(), w.z, 1e-15L)) mc::fail(key(), "got " + show(fence.v));
            if (fabsl(L3(fence.v).norm() - 1) > 5e-16L || !fence.v.isNormalized()) mc::fail(key(), fmt("norm error %Lg", L3(fence.v).norm() - 1));
            if (nw > M ? !(r == INF || r == M) : !relc(r, nw, 1e-15L)) mc::fail(key(), fmt("returned norm %g", r));
            UnitVector3d a(v), b(v.x(), v.y(), v.z());
            if (!(a == fence.v) || !(b == fence.v)) mc::fail(key(), "constructors disagree with normalize");
            if (std::signbit(v.x()) != std::signbit(fence.v.x()) || std::signbit(v.y()) != std::signbit(fence.v.y()) || std::signbit(v.z()) != std::signbit(fence.v.z())) mc::fail(key(), "sign changed");
            if (fabsl(nw) < 1e150L && fabsl(nw) > 1e-150L && !relc(v.getNorm(), nw, 1e-15L)) mc::fail(key(), "getNorm");
        }
        if (mc::wantSample()) mc::sample(fmt("x=%g with all y, z", al[i]));
    }
}
static void nans() {
    std::vector<double> al{NaN, 0.0, 1.0, -1.0, 2.0, -3.0, 1e300, D, INF, -INF, -NaN};
    size_t n = 0;
    for (double x : al) for (double y : al) for (double z : al) {
        bool nan = x != x || y != y || z != z, inf = std::isinf(x) || std::isinf(y) || std::isinf(z);
        if (!nan && !inf) continue;
        if (!mc::mine(n++)) continue;
        mc::at(n);
        arm();
        fence.v = Vector3d(x, y, z);
        try { fence.v.normalize(); } catch (std::exception const &) {}
        mc::trans(); mc::trace(); mc::state();
        std::string key = fmt("normalize (%g,%g,%g)", x, y, z);
        if (!intact()) { mc::fail(key, "memory outside the vector changed"); continue; }
        if (nan) {
            bool nn = fence.v.x() != fence.v.x() || fence.v.y() != fence.v.y() || fence.v.z() != fence.v.z();
            if (!nn) mc::fail(key, "NaN vanished: " + show(fence.v));
            LonLat p(Vector3d(x, y, z));
            if (p.getLon().isNan() != p.getLat().isNan()) mc::fail(fmt("LonLat (%g,%g,%g)", x, y, z), "only one coordinate is NaN");
        }
    }
}

// --- positions
static std::vector<double> lons() {
    std::vector<double> r{0.0, D, 1e-300, 1e-17, 1e-8, 0.3, 1.0, 2.0, 2.5, 4.0, 5.5, 6.2};
    for (int q = 1; q <= 8; ++q) { double c = q * PI / 4; r.push_back(c); r.push_back(std::nextafter(c, 0)); if (q < 8) r.push_back(std::nextafter(c, 10)); r.push_back(c - 1e-8); if (q < 8) r.push_back(c + 1e-8); }
    if (mc::thorough()) for (int i = 0; i < 60; ++i) r.push_back(TP * (i + 0.37) / 60);
    return r;
}
static std::vector<double> lats() {
    std::vector<double> r{0.0, -0.0, D, -1e-300, 1e-17, 1e-8, -1e-8, 0.3, -0.3, 0.7, 1.0, -1.0, 1.5, -1.5};
    for (double c : {PI / 4, -PI / 4, HP, -HP}) { r.push_back(c); r.push_back(std::nextafter(c, 0)); r.push_back(c - std::copysign(1e-8, c)); r.push_back(c - std::copysign(1e-15, c)); }
    if (mc::thorough()) for (int i = 0; i < 40; ++i) r.push_back(PI * (i + 0.41) / 40 - HP);
    return r;
}
static L3 dir(ld lon, ld lat) { return {cosl(lon) * cosl(lat), sinl(lon) * cosl(lat), sinl(lat)}; }
static bool inRange(LonLat const & p) {
    double lo = p.getLon().asRadians(), la = p.getLat().asRadians();
    return lo >= 0 && lo <= TP && la >= -HP && la <= HP;
}
static void positions() {
    auto LO = lons(), LA = lats();
    std::vector<double> mags{1.0, 3.0, 0x1p-1060, 1e-310, 1e-300, 1e-200, 1e-162, 1e-155, 1e-100, 1e-10, 1e10, 1e100, 1e154, 1e160, 1e200, 1e300, 1.7e308};
    size_t n = 0;
    for (double lon : LO) {
        if (!mc::mine(n++)) continue;
        for (double lat : LA) {
            mc::state();
            LonLat p{NormalizedAngle(lon), Angle(lat)};
            auto key = [&] { return fmt("lon=%.17g lat=%.17g", lon, lat); };
            if (p.getLon().asRadians() != lon || p.getLat().asRadians() != lat) mc::fail(key(), "coordinates changed");
            if (!(p == p) || p != p) mc::fail(key(), "equality");
            UnitVector3d u(p), u2{Angle(lon), Angle(lat)};
            L3 w = dir(lon, lat);
            mc::trans(2);
            if (!near3(u, w, 4e-16L) || !(u == u2)) mc::fail(key(), "unit vector " + show(u));
            if (fabsl(L3(u).norm() - 1) > 6e-16L) mc::fail(key(), "norm");
            for (double m : mags) {
                mc::at(n, 0);
                Vector3d v = u * m;
                if (v.isZero()) continue;
                LonLat q(v);
                L3 t = L3(v).unit();
                mc::trans(3); mc::trace();
                auto k2 = [&] { return key() + fmt(" scaled by %g ", m) + show(v); };
                if (!inRange(q)) { mc::fail(k2(), fmt("out of range: %.17g %.17g", q.getLon().asRadians(), q.getLat().asRadians())); continue; }
                // compare positions: of the (possibly rounded) vector, and of the original
                L3 g = dir(q.getLon().asRadians(), q.getLat().asRadians());
                if ((g - t).norm() > 1e-15L) mc::fail(k2(), fmt("position off by %Lg: lon %.17g lat %.17g", (g - t).norm(), q.getLon().asRadians(), q.getLat().asRadians()));
                if (m > 1e-290 && (g - w).norm() > 1.5e-15L) mc::fail(k2(), "round trip");
                if (!(LonLat::latitudeOf(v) == q.getLat()) || !(LonLat::longitudeOf(v) == q.getLon())) mc::fail(k2(), "static forms differ");
                // coordinates themselves
                ld wl = atan2l(v.y(), v.x()), wb = atan2l(v.z(), hypotl(v.x(), v.y()));
                if (v.x() == 0 && v.y() == 0) wl = 0;
                if (wl < 0) wl += LTP;
                ld dl = fabsl(q.getLon().asRadians() - wl);
                if (dl > 3e-15L && fabsl(dl - LTP) > 3e-15L) mc::fail(k2(), fmt("longitude %.17g want %.17Lg", q.getLon().asRadians(), wl));
                if (fabsl(q.getLat().asRadians() - wb) > 5e-16L) mc::fail(k2(), fmt("latitude %.17g want %.17Lg", q.getLat().asRadians(), wb));
            }
        }
    }
}
static void vectorPositions() {
    std::vector<double> p{0.0, D, 1e-310, N, 1e-200, 1e-162, 1e-155, 1e-100, 1e-16, 0.3, 1.0, 1e16, 1e100, 1e155, 1e200, M / 4, M}, al;
    for (double x : p) { al.push_back(x); al.push_back(-x); }
    size_t n = 0;
    for (double x : al) for (double y : al) {
        if (!mc::mine(n++)) continue;
        mc::state();
        for (double z : al) {
            if (x == 0 && y == 0 && z == 0) continue;
            mc::at(n);
            Vector3d v(x, y, z);
            LonLat q(v);
            mc::trans(); mc::trace();
            auto key = [&] { return show(v); };
            if (!inRange(q)) { mc::fail(key(), fmt("out of range: %.17g %.17g", q.getLon().asRadians(), q.getLat().asRadians())); continue; }
            ld wl = x == 0 && y == 0 ? 0 : atan2l(y, x), wb = atan2l(z, hypotl(x, y));
            if (wl < 0) wl += LTP;
            ld dl = fabsl(q.getLon().asRadians() - wl);
            if (!(x == 0 && y == 0) && dl > 3e-15L && fabsl(dl - LTP) > 3e-15L) mc::fail(key(), fmt("longitude %.17g want %.17Lg", q.getLon().asRadians(), wl));
            if (fabsl(q.getLat().asRadians() - wb) > 5e-16L) mc::fail(key(), fmt("latitude %.17g want %.17Lg", q.getLat().asRadians(), wb));
            UnitVector3d u(v);
            UnitVector3d back(q);
            if ((L3(back) - L3(u)).norm() > 1e-15L) mc::fail(key(), "vector round trip " + show(back));
        }
    }
}
static void ranges() {
    std::vector<double> la{HP, std::nextafter(HP, 2), std::nextafter(HP, 0), -HP, std::nextafter(-HP, -2), 1.6, -1.6, 3.0, PI, -TP, 1e10, INF, -INF, NaN, 0.0, 1.0};
    std::vector<double> lo{0.0, 1.0, TP, std::nextafter(TP, 10), -1e-300, -1e-17, -1e-10, -1.0, 7.0, -7.0, 100.0, -100.0, 1e6, NaN, INF, -INF, 720.0};
    size_t n = 0;
    for (double a : lo) for (double b : la) for (int form = 0; form < 3; ++form) {
        if (!mc::mine(n++)) continue;
        mc::at(n); mc::state();
        double rl = form == 2 ? a * RAD_PER_DEG : a, rb = form == 2 ? b * RAD_PER_DEG : b;
        auto key = [&] { return fmt("form %d lon=%.17g lat=%.17g", form, a, b); };
        bool threw = false;
        LonLat p;
        try {
            p = form == 0 ? LonLat(NormalizedAngle(a), Angle(b)) : form == 1 ? LonLat::fromRadians(a, b) : LonLat::fromDegrees(a, b);
        } catch (std::invalid_argument const &) { threw = true; }
        mc::trans(); mc::trace();
        bool bad = std::fabs(rb) > HP;
        if (threw != bad) { mc::fail(key(), threw ? "rejected" : "accepted"); continue; }
        if (threw) continue;
        bool nan = rl != rl || rb != rb || std::isinf(rl);
        if (nan) { if (!p.getLon().isNan() || !p.getLat().isNan()) mc::fail(key(), "NaN not propagated to both coordinates"); continue; }
        if (!inRange(p) || p.getLat().asRadians() != rb) mc::fail(key(), "range");
    }
}
static void angles() {
    std::vector<double> al{0.0, -0.0, D, -D, 1e-300, -1e-300, 1e-17, -1e-17, -1e-15, -1e-8, 0.5, -0.5, 1.0, PI, -PI, 4.0, TP, -TP, std::nextafter(TP, 0), std::nextafter(TP, 9), 2 * TP, -2 * TP, 7.0, -7.0, 13.0, 100.0, -100.0, 1e4, -1e4, 1e6, 123456.789, -654321.1};
    for (int k = -16; k <= 16; ++k) { al.push_back(k * HP); al.push_back(std::nextafter(k * HP, 1e9)); al.push_back(std::nextafter(k * HP, -1e9)); }
    for (double a : al) {
        mc::at(0); mc::state();
        auto key = [&] { return fmt("NormalizedAngle %.17g", a); };
        ld w = fmodl(a, LTP);
        if (w < 0) w += LTP;
        NormalizedAngle x(a);
        for (NormalizedAngle y : {NormalizedAngle{Angle(a)}, NormalizedAngle::fromRadians(a), NormalizedAngle(x)}) if (!(y == x)) mc::fail(key(), "constructors disagree");
        double g = x.asRadians();
        mc::trans(3); mc::trace();
        ld d = fabsl(g - w), tol = 1e-15L + 3e-16L * fabsl(a);
        if (!(g >= 0 && g <= TP)) mc::fail(key(), fmt("out of range %.17g", g));
        if (d > tol && fabsl(d - LTP) > tol) mc::fail(key(), fmt("got %.17g want %.17Lg", g, w));
        if (a >= 0 && a <= TP && g != a) mc::fail(key(), "changed a normalized angle");
        double deg = a * 180 / PI;
        NormalizedAngle z = NormalizedAngle::fromDegrees(deg);
        d = fabsl(z.asRadians() - w);
        if (!(z.asRadians() >= 0 && z.asRadians() <= TP) || (d > 2 * tol && fabsl(d - LTP) > 2 * tol)) mc::fail(key(), fmt("fromDegrees %.17g", z.asRadians()));
        if (std::fabs(x.asDegrees() - g * 180 / PI) > 1e-13) mc::fail(key(), "asDegrees");
        Angle q(a);
        if (q.isNan() || q.asRadians() != a || (-q).asRadians() != -a || std::fabs(Angle::fromDegrees(deg).asRadians() - a) > 4e-16 * std::fabs(a) || std::fabs(q.asDegrees() - deg) > 4e-16 * std::fabs(deg) || abs(q).asRadians() != std::fabs(a) || q.isNormalized() != (a >= 0 && a <= TP)) mc::fail(key(), "Angle");
        if (sin(q) != std::sin(a) || cos(q) != std::cos(a) || tan(q) != std::tan(a)) mc::fail(key(), "trigonometry");
    }
    size_t n = 0;
    for (double a : al) for (double b : al) {
        if (!mc::mine(n++)) continue;
        mc::at(1, n); mc::state();
        Angle p(a), q(b);
        auto key = [&] { return fmt("angles %.17g %.17g", a, b); };
        bool ok = (p == q) == (a == b) && (p != q) == (a != b) && (p < q) == (a < b) && (p > q) == (a > b) && (p <= q) == (a <= b) && (p >= q) == (a >= b) &&
                  (p + q).asRadians() == a + b && (p - q).asRadians() == a - b && (p * b).asRadians() == a * b && (b * p).asRadians() == a * b && (b == 0 || ((p / b).asRadians() == a / b && p / q == a / b));
        Angle r = p; r += q; Angle s = p; s -= q; Angle t = p; t *= b;
        ok = ok && r == p + q && s == p - q && t == p * b;
        if (b != 0) { Angle u = p; u /= b; ok = ok && u == p / b; }
        if (!ok) mc::fail(key(), "Angle operators");
        if (!(a >= 0 && a <= TP && b >= 0 && b <= TP)) continue;
        NormalizedAngle x(a), y(b);
        ld f = (ld)b - a;
        if (f < 0) f += LTP;
        double g = x.getAngleTo(y).asRadians();
        mc::trans(3); mc::trace();
        if (!(g >= 0 && g <= TP) || fabsl(g - f) > 1.5e-15L) mc::fail(key(), fmt("getAngleTo %.17g want %.17Lg", g, f));
        ld bw = std::min(fabsl((ld)a - b), LTP - fabsl((ld)a - b));
        double be = NormalizedAngle::between(x, y).asRadians();
        if (!(be >= 0 && be <= PI) || fabsl(be - bw) > 1.5e-15L || NormalizedAngle::between(y, x).asRadians() != be) mc::fail(key(), fmt("between %.17g want %.17Lg", be, bw));
        double c = NormalizedAngle::center(x, y).asRadians();
        ld cw = (ld)a + f / 2;
        ld dc = fabsl(c - cw);
        if (!(c >= 0 && c <= TP) || (dc > 2e-15L && fabsl(dc - LTP) > 2e-15L)) mc::fail(key(), fmt("center %.17g want %.17Lg", c, cw));
        if ((x == y) != (a == b) || (x < y) != (a < b) || (x > y) != (a > b) || (x <= y) != (a <= b) || (x >= y) != (a >= b) || (x != y) != (a != b) || (x + y).asRadians() != a + b || (x - y).asRadians() != a - b || (-x).asRadians() != -a) mc::fail(key(), "NormalizedAngle operators");
    }
    // separations
    auto LO = lons(), LA = lats();
    std::vector<std::pair<double, double>> ps;
    for (size_t i = 0; i < LO.size(); i += 3) for (size_t j = 0; j < LA.size(); j += 2) ps.emplace_back(LO[i], LA[j]);
    for (size_t i = 0; i < ps.size(); ++i) {
        if (!mc::mine(i)) continue;
        auto extra = ps;
        double a = ps[i].first, b = ps[i].second;
        for (double e : {1e-15, 1e-9, 1e-3}) { if (a + e <= TP) extra.emplace_back(a + e, b); if (b + e <= HP) extra.emplace_back(a, b + e); extra.emplace_back(std::fmod(a + PI + e, TP), -b); }
        extra.emplace_back(std::fmod(a + PI, TP), -b);
        for (auto & q : extra) {
            mc::at(2, i); mc::state();
            LonLat p1{NormalizedAngle(a), Angle(b)}, p2{NormalizedAngle(q.first), Angle(q.second)};
            L3 u = dir(a, b), v = dir(q.first, q.second);
            ld w = atan2l(u.cross(v).norm(), u.dot(v));
            double g = NormalizedAngle(p1, p2).asRadians();
            auto key = [&] { return fmt("separation (%.17g,%.17g) (%.17g,%.17g)", a, b, q.first, q.second); };
            mc::trans(); mc::trace();
            ld tol = 3e-15L + std::min(6e-8L, 2e-15L / std::max(cosl(w / 2), 1e-18L));   // (the haversine is steep near pi)
            if (!(fabsl(g - w) <= tol) || !(g >= 0 && g <= PI)) mc::fail(key(), fmt("positions: %.17g want %.17Lg", g, w));
            UnitVector3d x(p1), y(p2);
            L3 X(x), Y(y);
            ld wv = atan2l(X.cross(Y).norm(), X.dot(Y));
            for (double s : {1.0, 1e-60, 1e60, 7.0}) for (double t : {1.0, 1e-70, 1e50}) {
                double h = NormalizedAngle(x * s, y * t).asRadians();
                mc::trans();
                if (!(fabsl(h - wv) <= 2e-15L) || !(h >= 0 && h <= PI)) mc::fail(key() + fmt(" vectors scaled %g %g", s, t), fmt("%.17g want %.17Lg", h, wv));
            }
        }
    }
    // degenerate: a zero vector has no direction, but must not give NaN
    if (!(NormalizedAngle(Vector3d(), Vector3d(1, 0, 0)) == Angle(0.0))) mc::fail("separation of the zero vector");
}

// --- derived vectors
static double ulps(double x, int n) { for (; n > 0; --n) x = std::nextafter(x, INF); for (; n < 0; ++n) x = std::nextafter(x, -INF); return x; }
static void derived() {
    std::vector<UnitVector3d> us;
    for (double x : {-1.0, 0.0, 1.0, 1e-8, 1e-200}) for (double y : {-1.0, 0.0, 0.5, 1e-16}) for (double z : {-1.0, 0.0, 1.0, 3.0, 1e-10}) if (x != 0 || y != 0 || z != 0) us.emplace_back(Vector3d(x, y, z));
    for (size_t i = 0; i < us.size(); ++i) {
        if (!mc::mine(i)) continue;
        mc::state();
        UnitVector3d const & a = us[i];
        L3 A(a);
        auto key = [&] { return show(a); };
        for (double m : {1.0, 1e-100, 1e100, 5.0}) {
            UnitVector3d o = UnitVector3d::orthogonalTo(a * m);
            mc::trans(2); mc::trace();
            if (fabsl(L3(o).norm() - 1) > 6e-16L || fabsl(L3(o).dot(A)) > 6e-16L) mc::fail(key() + fmt(" orthogonalTo scale %g", m), show(o));
            UnitVector3d n = UnitVector3d::northFrom(a * m);
            L3 w = A.x == 0 && A.y == 0 ? L3(A.z > 0 ? -1 : 1, 0, 0) : L3(-A.x * A.z, -A.y * A.z, A.x * A.x + A.y * A.y).unit();
            if (fabsl(L3(n).norm() - 1) > 6e-16L || !near3(n, w, 8e-16L)) mc::fail(key() + fmt(" northFrom scale %g", m), show(n));
        }
        if (!near3(-a, A * -1, 0) || !near3(a, A, 0) || a(0) != a.x() || a(1) != a.y() || a(2) != a.z() || a.getData()[1] != a.y()) mc::fail(key(), "accessors");
        // every other vector, neighbours of a, neighbours of -a
        std::vector<UnitVector3d> vs = us;
        for (int sgn = 1; sgn >= -1; sgn -= 2) {
            for (int dx = -2; dx <= 2; ++dx) for (int dy = -2; dy <= 2; ++dy) for (int dz = -2; dz <= 2; ++dz)
                vs.push_back(UnitVector3d::fromNormalized(sgn * ulps(a.x(), dx), sgn * ulps(a.y(), dy), sgn * ulps(a.z(), dz)));
            for (double e : {1e-3, 1e-7, 1e-8, 1e-12, 1e-15}) for (int ax = 0; ax < 3; ++ax) { double c[3] = {a.x(), a.y(), a.z()}; c[ax] += e; vs.emplace_back(Vector3d(sgn * c[0], sgn * c[1], sgn * c[2])); }
        }
        for (size_t j = 0; j < vs.size(); ++j) {
            UnitVector3d const & b = vs[j];
            mc::at(i, j);
            L3 B(b);
            auto k2 = [&] { return show(a) + show(b); };
            typedef __float128 q;                        // the true value of twice the cross product
            L3 X((ld)(2 * ((q)a.y() * b.z() - (q)a.z() * b.y())), (ld)(2 * ((q)a.z() * b.x() - (q)a.x() * b.z())), (ld)(2 * ((q)a.x() * b.y() - (q)a.y() * b.x())));
            Vector3d r = a.robustCross(b);
            ld sc = (A + B).norm() * (A - B).norm();
            mc::trans(2); mc::trace();
            if (!near3(r, X, 4e-16L * sc + 1e-300L)) mc::fail(k2() + " robustCross", show(r) + fmt(" error %Lg scale %Lg", (L3(r) - X).norm(), sc));
            Vector3d c = a.cross(b);
            if (!near3(c, A.cross(B), 3e-16L)) mc::fail(k2() + " cross", show(c));
            if (fabsl(a.dot(b) - A.dot(B)) > 4e-16L) mc::fail(k2() + " dot");
            UnitVector3d o = UnitVector3d::orthogonalTo(a, b);
            if (fabsl(L3(o).norm() - 1) > 6e-16L) mc::fail(k2() + " orthogonalTo norm", show(o));
            if (X.norm() == 0) {
                if (fabsl(L3(o).dot(A)) > 6e-16L) mc::fail(k2() + " orthogonalTo (anti)parallel", show(o));
            } else {
                ld tol = 6e-16L + (6e-16L * sc + 1e-305L) / X.norm();
                if (tol < 0.1L && !near3(o, X.unit(), tol)) mc::fail(k2() + " orthogonalTo", show(o) + fmt(" tolerance %Lg", tol));
            }
            if (j < us.size() && j % 3 == 0) for (double ang : {0.0, 1e-10, 0.5, HP, PI, -2.0, TP, 100.0}) {
                L3 w = A * cosl(ang) + B.cross(A) * sinl(ang) + B * (B.dot(A) * (1 - cosl(ang)));
                UnitVector3d q = a.rotatedAround(b, Angle(ang));
                Vector3d q2 = (a * 1e5).rotatedAround(b, Angle(ang));
                mc::trans(2);
                if (!near3(q, w, 1.2e-15L) || fabsl(L3(q).norm() - 1) > 6e-16L) mc::fail(k2() + fmt(" rotatedAround %g", ang), show(q));
                if (!near3(q2, w * 1e5L, 2e-10L)) mc::fail(k2() + fmt(" rotatedAround (vector) %g", ang), show(q2));
            }
        }
    }
    for (double lon : lons()) {
        UnitVector3d o = UnitVector3d::orthogonalTo(NormalizedAngle(lon));
        mc::trans();
        if (!near3(o, L3(-sinl(lon), cosl(lon), 0), 3e-16L)) mc::fail(fmt("orthogonalTo meridian %.17g", lon), show(o));
    }
    // vector arithmetic
    std::vector<double> al{0, 1, -2, 0.1, 1e200};
    size_t n = 0;
    std::vector<Vector3d> vv;
    for (double x : al) for (double y : al) for (double z : al) vv.emplace_back(x, y, z);
    for (auto & v : vv) for (auto & w : vv) {
        if (!mc::mine(n++)) continue;
        mc::at(7, n); mc::state();
        bool ok = true;
        Vector3d s = v + w, d = v - w, p = v.cwiseProduct(w), m = -v, t = v * 3.0, q = v / 3.0, u = 3.0 * v;
        Vector3d ia = v, is = v, im = v, id = v;
        ia += w; is -= w; im *= 3.0; id /= 3.0;
        for (int k = 0; k < 3; ++k) ok = ok && s(k) == v(k) + w(k) && d(k) == v(k) - w(k) && (p(k) == v(k) * w(k)) && m(k) == -v(k) && t(k) == v(k) * 3 && u(k) == t(k) && q(k) == v(k) / 3;
        ok = ok && ia == s && is == d && im == t && id == q && (v == w) == (v(0) == w(0) && v(1) == w(1) && v(2) == w(2)) && (v != w) == !(v == w);
        mc::trans(10); mc::trace();
        if (!ok) mc::fail("arithmetic " + show(v) + show(w));
    }
}

static void body() {
    mc::section("normalization over the exponent range");
    normalization();
    mc::section("normalization of NaN and infinite components");
    nans();
    mc::section("positions and scaled vectors");
    positions();
    mc::section("vectors of any magnitude to positions");
    vectorPositions();
    mc::section("coordinate ranges");
    ranges();
    mc::section("angles and separations");
    angles();
    mc::section("derived vectors");
    derived();
}
int main(int argc, char ** argv) { return mc::run(argc, argv, body); }
