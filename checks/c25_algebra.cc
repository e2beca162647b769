// C25: vector and matrix arithmetic against exact integer linear algebra.
#include "lsst/sphgeom/Matrix3d.h"
#include "lsst/sphgeom/Angle.h"
#include "lsst/sphgeom/UnitVector3d.h"
#include "lsst/sphgeom/Vector3d.h"
#include "mc.h"
#include <array>
#include <memory>
using namespace lsst::sphgeom;
using mc::fmt;
typedef long long ll;
typedef std::array<ll, 3> IV;
typedef std::array<IV, 3> IM;      // rows

// --- the model
static IV vadd(IV const & a, IV const & b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static IV vmul(IV const & a, ll s) { return {a[0] * s, a[1] * s, a[2] * s}; }
static IV vsub(IV const & a, IV const & b) { return vadd(a, vmul(b, -1)); }
static IV vcw(IV const & a, IV const & b) { return {a[0] * b[0], a[1] * b[1], a[2] * b[2]}; }
static ll vdot(IV const & a, IV const & b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static IV vcross(IV const & a, IV const & b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static IM mmap(IM const & a, IM const & b, ll (*f)(ll, ll)) { IM r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = f(a[i][j], b[i][j]); return r; }
static IM madd(IM const & a, IM const & b) { return mmap(a, b, [](ll x, ll y) { return x + y; }); }
static IM msub(IM const & a, IM const & b) { return mmap(a, b, [](ll x, ll y) { return x - y; }); }
static IM mcw(IM const & a, IM const & b) { return mmap(a, b, [](ll x, ll y) { return x * y; }); }
static IM mt(IM const & a) { IM r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = a[j][i]; return r; }
static IV mcol(IM const & a, int c) { return {a[0][c], a[1][c], a[2][c]}; }
static IV mv(IM const & a, IV const & v) { return {vdot(a[0], v), vdot(a[1], v), vdot(a[2], v)}; }
static IM mm(IM const & a, IM const & b) { IM r; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = vdot(a[i], mcol(b, j)); return r; }
static ll minner(IM const & a, IM const & b) { return vdot(a[0], b[0]) + vdot(a[1], b[1]) + vdot(a[2], b[2]); }

// --- correspondence with the library's objects
static Vector3d V(IV const & v) { return Vector3d((double)v[0], (double)v[1], (double)v[2]); }
static Matrix3d M(IM const & m) { return Matrix3d((double)m[0][0], (double)m[0][1], (double)m[0][2], (double)m[1][0], (double)m[1][1], (double)m[1][2], (double)m[2][0], (double)m[2][1], (double)m[2][2]); }
static bool same(Vector3d const & v, IV const & w) { return v.x() == (double)w[0] && v.y() == (double)w[1] && v.z() == (double)w[2]; }
static bool same(Matrix3d const & m, IM const & w) {
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (m(i, j) != (double)w[i][j]) return false;
    return true;
}
static std::string show(IV const & v) { return fmt("(%lld,%lld,%lld)", v[0], v[1], v[2]); }
static std::string show(IM const & m) { return "[" + show(m[0]) + show(m[1]) + show(m[2]) + "]"; }
static std::string show(Vector3d const & v) { return fmt("(%.17g,%.17g,%.17g)", v.x(), v.y(), v.z()); }

static std::vector<IV> vectors(int r) {
    std::vector<IV> a;
    for (ll x = -r; x <= r; ++x) for (ll y = -r; y <= r; ++y) for (ll z = -r; z <= r; ++z) a.push_back({x, y, z});
    return a;
}

static void pairs() {
    auto vs = vectors(mc::deep() ? 5 : mc::thorough() ? 4 : 2);
    std::vector<ll> sc{-3, -2, -1, 0, 1, 2, 4, 5};
    for (size_t i = 0; i < vs.size(); ++i) {
        if (!mc::mine(i)) continue;
        IV const a = vs[i];
        Vector3d const A = V(a);
        mc::at(i); mc::state();
        auto key = [&] { return show(a); };
        bool ok = same(A, a) && A(0) == a[0] && A(1) == a[1] && A(2) == a[2];
        double const * d = A.getData();
        ok = ok && d[0] == a[0] && d[1] == a[1] && d[2] == a[2];
        if (!ok) mc::fail(key(), "accessors");
        ll sq = vdot(a, a);
        if (A.getSquaredNorm() != sq || std::fabs(A.getNorm() - std::sqrt((double)sq)) > 4e-16 * std::sqrt((double)sq)) mc::fail(key(), "norm");
        if (A.isZero() != (sq == 0)) mc::fail(key(), "isZero");
        if (A.isNormalized() != (sq == 1)) mc::fail(key(), "isNormalized");
        if (!same(-A, vmul(a, -1))) mc::fail(key(), "negation");
        for (ll s : sc) {
            mc::trans(5);
            Vector3d b = A; Vector3d & r1 = (b *= (double)s);
            if (!same(A * (double)s, vmul(a, s)) || !same((double)s * A, vmul(a, s)) || !same(b, vmul(a, s)) || &r1 != &b) mc::fail(key(), fmt("product with %lld", s));
            if (s == 0) continue;
            Vector3d c = V(vmul(a, s)); Vector3d & r2 = (c /= (double)s);
            Vector3d q = A / (double)s;
            bool okq = same(V(vmul(a, s)) / (double)s, a) && same(c, a) && &r2 == &c;
            for (int k = 0; k < 3; ++k) okq = okq && std::fabs(q(k) * s - a[k]) <= 4e-16 * std::fabs((double)a[k]);
            if (!okq) mc::fail(key(), fmt("quotient by %lld", s));
        }
        {   // operands that are the same object
            Vector3d p = A, m = A;
            p += p; m -= m;
            if (!same(p, vmul(a, 2)) || !same(m, IV{0, 0, 0}) || !same(A.cross(A), IV{0, 0, 0}) || A.dot(A) != sq || !same(A.cwiseProduct(A), vcw(a, a)) || !(A == A) || A != A) mc::fail(key(), "same object twice");
        }
        for (size_t j = 0; j < vs.size(); ++j) {
            IV const b = vs[j];
            Vector3d const B = V(b);
            mc::at(i, j); mc::trans(9); mc::trace();
            auto k2 = [&] { return show(a) + show(b); };
            if (!same(A + B, vadd(a, b))) mc::fail(k2(), "+");
            if (!same(A - B, vsub(a, b))) mc::fail(k2(), "-");
            if (!same(A.cross(B), vcross(a, b))) mc::fail(k2(), "cross " + show(A.cross(B)));
            if (A.dot(B) != vdot(a, b)) mc::fail(k2(), "dot");
            if (!same(A.cwiseProduct(B), vcw(a, b))) mc::fail(k2(), "cwiseProduct");
            Vector3d p = A, m = A;
            Vector3d & r1 = (p += B); Vector3d & r2 = (m -= B);
            if (!same(p, vadd(a, b)) || !same(m, vsub(a, b)) || &r1 != &p || &r2 != &m) mc::fail(k2(), "in-place");
            if ((A == B) != (a == b) || (A != B) != (a != b)) mc::fail(k2(), "equality");
            if (!same(A, a) || !same(B, b)) mc::fail(k2(), "an operand changed");
        }
        if (mc::wantSample()) mc::sample(show(a) + " with every other vector and scalar");
    }
}

// Components that are powers of two over a wide range of exponents: products are exact, so every result that is
// representable must be exact - in particular tiny differences of large terms.
static bool rep128(__float128 x) { return (__float128)(double)x == x; }
static void powers() {
    typedef __float128 q;
    std::vector<double> al{0.0, 1.0, -1.0, 0x1p-30, -0x1p-27, 0x1p-53, -0x1p-60, 0x1p-200, 0x1p40};
    if (mc::thorough()) { al.push_back(-0x1p-450); al.push_back(3.0); al.push_back(-0x1p200); }
    std::vector<Vector3d> vs;
    for (double x : al) for (double y : al) for (double z : al) vs.emplace_back(x, y, z);
    for (size_t i = 0; i < vs.size(); ++i) {
        if (!mc::mine(i)) continue;
        mc::state();
        Vector3d const & A = vs[i];
        bool axis = A.isNormalized() && (A(0) == 0) + (A(1) == 0) + (A(2) == 0) == 2;
        for (size_t j = 0; j < vs.size(); ++j) {
            Vector3d const & B = vs[j];
            mc::at(i, j); mc::trans(5); mc::trace();
            char const * bad = nullptr;
            for (int form = 0; form < (axis ? 2 : 1) && !bad; ++form) {
                UnitVector3d U;
                if (axis) U = UnitVector3d::fromNormalized(A);
                Vector3d c = form ? U.cross(B) : A.cross(B), s = form ? U + B : A + B, d = form ? U - B : A - B, w = form ? U.cwiseProduct(B) : A.cwiseProduct(B);
                double dt = form ? U.dot(B) : A.dot(B);
                for (int k = 0; k < 3; ++k) {
                    int m = (k + 1) % 3, n = (k + 2) % 3;
                    q x = (q)A(m) * B(n) - (q)A(n) * B(m), y = (q)A(k) + B(k), z = (q)A(k) - B(k);
                    // a 113 bit difference of two powers of two is exact unless their exponents differ by more
                    bool ex = (A(m) == 0 || B(n) == 0 || A(n) == 0 || B(m) == 0 || std::abs(std::ilogb(A(m)) + std::ilogb(B(n)) - std::ilogb(A(n)) - std::ilogb(B(m))) < 108);
                    if (ex && rep128(x) && c(k) != (double)x) bad = "cross";
                    if (w(k) != A(k) * B(k)) bad = "cwiseProduct";
                    if (s(k) != (double)((q)A(k) + B(k)) && rep128(y) && (double)y - A(k) == B(k)) bad = "+";
                    if (d(k) != (double)((q)A(k) - B(k)) && rep128(z) && A(k) - (double)z == B(k)) bad = "-";
                }
                // the dot product has three terms: exact when at most one of them is not zero
                int nz = 0; double t = 0;
                for (int k = 0; k < 3; ++k) if (A(k) * B(k) != 0) { ++nz; t = A(k) * B(k); }
                if (nz <= 1 && dt != t) bad = "dot";
            }
            if (bad) mc::fail(show(A) + show(B), bad);
        }
    }
}

// Unit vectors with exactly representable components: every signed coordinate axis.
static void axes() {
    std::vector<IV> us{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}};
    if (!(UnitVector3d::X() == V(us[0])) || !(UnitVector3d::Y() == V(us[1])) || !(UnitVector3d::Z() == V(us[2])) || !(UnitVector3d() == V(us[0]))) mc::fail("axis constants");
    auto vs = vectors(2);
    for (size_t i = 0; i < us.size(); ++i) for (size_t j = 0; j < vs.size(); ++j) {
        if (!mc::mine(i * vs.size() + j)) continue;
        IV u = us[i], b = vs[j];
        UnitVector3d U = UnitVector3d::fromNormalized(V(u)), W = UnitVector3d::fromNormalized((double)u[0], (double)u[1], (double)u[2]), X(V(vmul(u, 7)));
        Vector3d B = V(b);
        mc::at(i, j); mc::state(); mc::trans(12); mc::trace();
        auto key = [&] { return "unit " + show(u) + show(b); };
        bool ok = same(U, u) && same(W, u) && same(X, u) && U(0) == u[0] && U(1) == u[1] && U(2) == u[2] && U.getData()[0] == u[0] && U.getData()[2] == u[2];
        if (!ok) mc::fail(key(), "construction");
        if (!same(U + B, vadd(u, b)) || !same(U - B, vsub(u, b)) || !same(U.cross(B), vcross(u, b)) || U.dot(B) != vdot(u, b) || !same(U.cwiseProduct(B), vcw(u, b)) || !same(-U, vmul(u, -1)) ||
            !same(U * 6.0, vmul(u, 6)) || !same(6.0 * U, vmul(u, 6)) || !same(U / 0.25, vmul(u, 4)) || (U == B) != (u == b) || (U != B) != (u != b) || !same(B + U, vadd(u, b)) || !same(B.cross(U), vcross(b, u)))
            mc::fail(key(), "arithmetic");
        for (size_t k = 0; k < us.size(); ++k) {
            UnitVector3d C = UnitVector3d::fromNormalized(V(us[k]));
            mc::trans(6);
            if (!same(U.robustCross(C), vmul(vcross(u, us[k]), 2))) mc::fail(key() + " robustCross " + show(us[k]), show(U.robustCross(C)));
            for (int q = -5; q <= 5; ++q) {     // quarter turns
                IV w = b, x = u;
                for (int n = ((q % 4) + 4) % 4; n > 0; --n) { w = vadd(vcross(us[k], w), vmul(us[k], vdot(us[k], w))); x = vadd(vcross(us[k], x), vmul(us[k], vdot(us[k], x))); }
                Vector3d r = B.rotatedAround(C, Angle(0.5 * PI * q));
                UnitVector3d s = U.rotatedAround(C, Angle(0.5 * PI * q));
                bool okr = true;
                for (int n = 0; n < 3; ++n) okr = okr && std::fabs(r(n) - w[n]) < 1e-14 && std::fabs(s(n) - x[n]) < 1e-14;
                if (!okr) mc::fail(key() + fmt(" %d quarter turns around ", q) + show(us[k]), show(r) + show(s));
            }
        }
    }
}

static std::vector<IM> matrices(int lo, int hi) {
    std::vector<IM> r;
    int n = hi - lo + 1;
    ll tot = 1;
    for (int i = 0; i < 9; ++i) tot *= n;
    for (ll c = 0; c < tot; ++c) { IM m; ll x = c; for (int i = 0; i < 9; ++i) { m[i / 3][i % 3] = lo + x % n; x /= n; } r.push_back(m); }
    return r;
}

static void oneMatrix(IM const & a, size_t i) {
    mc::at(i); mc::state(); mc::trans(14); mc::trace();
    Matrix3d const A = M(a);
    auto key = [&] { return show(a); };
    bool ok = same(A, a);
    for (int k = 0; k < 3; ++k) ok = ok && same(A.getColumn(k), mcol(a, k)) && same(A.getRow(k), a[k]);
    if (!ok) mc::fail(key(), "accessors");
    if (!same(A.transpose(), mt(a)) || !same(A.transpose().transpose(), a)) mc::fail(key(), "transpose");
    ll sq = minner(a, a);
    if (A.getSquaredNorm() != sq || std::fabs(A.getNorm() - std::sqrt((double)sq)) > 4e-16 * std::sqrt((double)sq)) mc::fail(key(), "norm");
    for (IV const & v : {IV{1, 0, 0}, IV{0, 1, 0}, IV{0, 0, 1}, IV{1, 2, 4}, IV{-3, 5, 0}, IV{0, 0, 0}}) if (!same(A * V(v), mv(a, v))) mc::fail(key() + show(v), "matrix times vector");
    if (!same(A * A, mm(a, a)) || !same(A + A, madd(a, a)) || !same(A - A, msub(a, a)) || !same(A.cwiseProduct(A), mcw(a, a)) || A.inner(A) != sq || !(A == A) || A != A) mc::fail(key(), "same object twice");
    Matrix3d I(1.0), Z;
    if (!(A * I == A) || !(I * A == A) || !(A + Z == A) || !(A - A == Z)) mc::fail(key(), "identity and zero");
    // inverse = adjugate / determinant
    IV c0 = vcross(a[1], a[2]), c1 = vcross(a[2], a[0]), c2 = vcross(a[0], a[1]);      // columns of the adjugate
    ll det = vdot(a[0], c0);
    if (det == 0) { (void)A.inverse(); mc::outcome("singular matrices"); return; }
    mc::outcome("invertible matrices");
    IV const * adj[3] = {&c0, &c1, &c2};
    for (int e : {0, 40, -40, 200, -200}) {
        Matrix3d S;
        double f = std::ldexp(1.0, e);
        {
            Vector3d d(f, f, f);
            S = A * Matrix3d(d);
        }
        Matrix3d R = S.inverse();
        mc::trans();
        for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) {
            double w = std::ldexp((double)(*adj[c])[r] / (double)det, -e);
            if (!(std::fabs(R(r, c) - w) <= 1e-15 * std::fabs(w))) { mc::fail(key() + fmt(" inverse of 2^%d times", e), fmt("element (%d,%d) is %.17g, want %.17g", r, c, R(r, c), w)); r = 3; break; }
        }
    }
    if (!same(A, a)) mc::fail(key(), "operand changed");
}
static void matrixOne() {
    if (mc::thorough()) {
        int n = 5;
        ll tot = 1953125;
        for (ll c = 0; c < tot; ++c) {
            if (!mc::mine(c)) continue;
            IM m; ll x = c;
            for (int i = 0; i < 9; ++i) { m[i / 3][i % 3] = x % n - 2; x /= n; }
            oneMatrix(m, c);
        }
    } else {
        auto ms = matrices(-1, 1);
        for (size_t i = 0; i < ms.size(); ++i) if (mc::mine(i)) oneMatrix(ms[i], i);
    }
    for (IV const & v : vectors(2)) {
        Matrix3d D(V(v));
        IM w{IV{v[0], 0, 0}, IV{0, v[1], 0}, IV{0, 0, v[2]}};
        mc::trans(2);
        if (!same(D, w)) mc::fail(show(v), "diagonal matrix");
        Matrix3d S((double)v[0]);
        if (!same(S, IM{IV{v[0], 0, 0}, IV{0, v[0], 0}, IV{0, 0, v[0]}})) mc::fail(show(v), "scaled identity");
    }
    if (!same(Matrix3d(), IM{IV{0, 0, 0}, IV{0, 0, 0}, IV{0, 0, 0}})) mc::fail("zero matrix");
}
static void matrixPairs() {
    auto ms = matrices(0, 1);
    // distinct weights, so that terms of a sum cannot be exchanged or cancel unnoticed
    IM const wt{IV{1, 2, 5}, IV{11, 23, 47}, IV{95, 191, 383}}, wu{IV{-3, 7, 13}, IV{29, -59, 113}, IV{227, 449, -907}};
    std::vector<IM> as, bs;
    for (auto & m : ms) { as.push_back(m); bs.push_back(m); }
    for (auto & m : ms) { as.push_back(mcw(m, wt)); bs.push_back(mcw(m, wu)); }
    for (size_t i = 0; i < as.size(); ++i) {
        if (!mc::mine(i)) continue;
        Matrix3d const A = M(as[i]);
        mc::state();
        for (size_t j = 0; j < bs.size(); ++j) {
            Matrix3d const B = M(bs[j]);
            mc::at(i, j); mc::trans(7); mc::trace();
            auto key = [&] { return show(as[i]) + show(bs[j]); };
            if (!same(A * B, mm(as[i], bs[j]))) mc::fail(key(), "product");
            if (!same(A + B, madd(as[i], bs[j]))) mc::fail(key(), "sum");
            if (!same(A - B, msub(as[i], bs[j]))) mc::fail(key(), "difference");
            if (!same(A.cwiseProduct(B), mcw(as[i], bs[j]))) mc::fail(key(), "component-wise product");
            if (A.inner(B) != minner(as[i], bs[j])) mc::fail(key(), "inner product");
            if ((A == B) != (as[i] == bs[j]) || (A != B) != (as[i] != bs[j])) mc::fail(key(), "equality");
            if (!same(A, as[i]) || !same(B, bs[j])) mc::fail(key(), "an operand changed");
        }
    }
}

// --- operation histories on two vector and two matrix registers
struct State { IV v, w; IM m, n; };
struct Impl { Vector3d v, w; Matrix3d m, n; };
static int const NOPS = 22;
static char const * const OPS[NOPS] = {"v+=w", "w-=v", "v=v+v", "v-=v", "v*=-3", "w/=-0.5", "v=-w", "v=v x w", "w=w x v", "v=v.w(cw)", "w*=dot(v,w)", "v=m*v", "w=n*w", "m=m*n", "n=n*m", "m=m+n", "n=n-m", "m=transpose(m)", "m=m(cw)n", "v=row1(m)", "w=col2(n)", "swap(v,w)"};
static bool small(IV const & v) { for (ll x : v) if (x > 100000 || x < -100000) return false; return true; }
static bool small(State const & s) { return small(s.v) && small(s.w) && small(s.m[0]) && small(s.m[1]) && small(s.m[2]) && small(s.n[0]) && small(s.n[1]) && small(s.n[2]); }
static void step(int op, State & s, Impl & p) {
    switch (op) {
        case 0: s.v = vadd(s.v, s.w); p.v += p.w; break;
        case 1: s.w = vsub(s.w, s.v); p.w -= p.v; break;
        case 2: s.v = vadd(s.v, s.v); p.v = p.v + p.v; break;
        case 3: s.v = {0, 0, 0}; p.v -= p.v; break;
        case 4: s.v = vmul(s.v, -3); p.v *= -3.0; break;
        case 5: s.w = vmul(s.w, -2); p.w /= -0.5; break;
        case 6: s.v = vmul(s.w, -1); p.v = -p.w; break;
        case 7: s.v = vcross(s.v, s.w); p.v = p.v.cross(p.w); break;
        case 8: s.w = vcross(s.w, s.v); p.w = p.w.cross(p.v); break;
        case 9: s.v = vcw(s.v, s.w); p.v = p.v.cwiseProduct(p.w); break;
        case 10: s.w = vmul(s.w, vdot(s.v, s.w)); p.w *= p.v.dot(p.w); break;
        case 11: s.v = mv(s.m, s.v); p.v = p.m * p.v; break;
        case 12: s.w = mv(s.n, s.w); p.w = p.n * p.w; break;
        case 13: s.m = mm(s.m, s.n); p.m = p.m * p.n; break;
        case 14: s.n = mm(s.n, s.m); p.n = p.n * p.m; break;
        case 15: s.m = madd(s.m, s.n); p.m = p.m + p.n; break;
        case 16: s.n = msub(s.n, s.m); p.n = p.n - p.m; break;
        case 17: s.m = mt(s.m); p.m = p.m.transpose(); break;
        case 18: s.m = mcw(s.m, s.n); p.m = p.m.cwiseProduct(p.n); break;
        case 19: s.v = s.m[1]; p.v = p.m.getRow(1); break;
        case 20: s.w = mcol(s.n, 2); p.w = p.n.getColumn(2); break;
        case 21: { std::swap(s.v, s.w); Vector3d t = p.v; p.v = p.w; p.w = t; break; }
    }
}
static bool same(Impl const & p, State const & s) { return same(p.v, s.v) && same(p.w, s.w) && same(p.m, s.m) && same(p.n, s.n); }
static void histories(int depth, State const & s, Impl const & p, std::vector<int> & path) {
    for (int op = 0; op < NOPS; ++op) {
        if (path.size() == 1 && !mc::mine(path[0] * NOPS + op)) continue;
        State t = s; Impl q = p;
        path.push_back(op);
        step(op, t, q);
        mc::trans(); mc::state();
        mc::at(path.size(), path[0], op);
        if (!same(q, t)) {
            std::string k;
            for (int o : path) k += std::string(k.empty() ? "" : "; ") + OPS[o];
            mc::fail(k, fmt("got v=%s w=%s, want v=%s w=%s m=%s n=%s", show(q.v).c_str(), show(q.w).c_str(), show(t.v).c_str(), show(t.w).c_str(), show(t.m).c_str(), show(t.n).c_str()));
        } else if (depth > 1 && small(t)) histories(depth - 1, t, q, path);
        else mc::trace();
        path.pop_back();
    }
}

// Quotients of multiples, and exact quotients of wide numerators.
static void quotients() {
    int const N = mc::thorough() ? 1000 : 300;
    for (int s = 1; s <= N; ++s) {
        if (!mc::mine(s)) continue;
        mc::state();
        for (double e : {1.0, -1.0, 0x1p-40, 0x1p70}) for (int k = 1; k <= N; ++k) {
            mc::at(s, k);
            mc::trans(2);
            mc::trace();
            double const d = s * e;
            Vector3d const n(k * d, -(k + 1.0) * d, (2.0 * k * k + 1) * d);
            Vector3d m = n;
            m /= d;
            if (n / d != Vector3d(k, -(k + 1.0), 2.0 * k * k + 1) || m != n / d) mc::fail(fmt("multiple %d of %a", k, d), show(n / d));
        }
    }
}

static void body() {
    mc::section("quotients");
    quotients();
    mc::section("pairs of vectors and scalars");
    pairs();
    mc::section("components of very different magnitudes");
    powers();
    mc::section("unit vectors along the axes");
    axes();
    mc::section("single matrices");
    matrixOne();
    mc::section("pairs of matrices");
    matrixPairs();
    mc::section("operation histories");
    State s0{{1, -2, 3}, {2, 1, -1}, IM{IV{1, 2, 0}, IV{-1, 1, 3}, IV{0, 2, -1}}, IM{IV{0, 1, -1}, IV{2, 0, 1}, IV{1, -3, 1}}};
    Impl p0{V(s0.v), V(s0.w), M(s0.m), M(s0.n)};
    std::vector<int> path;
    histories(mc::deep() ? 7 : mc::thorough() ? 6 : 5, s0, p0, path);
}
int main(int argc, char ** argv) { return mc::run(argc, argv, body); }
