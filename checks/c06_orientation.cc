// C06: the orientation predicates return the exact sign of the determinant.
#include "lsst/sphgeom/orientation.h"
#include "lsst/sphgeom/UnitVector3d.h"
#include "lsst/sphgeom/Vector3d.h"
#include "mc.h"
#include <algorithm>
#include <boost/multiprecision/cpp_int.hpp>
#include <limits>
using namespace lsst::sphgeom;
using boost::multiprecision::cpp_int;
using mc::fmt;
typedef boost::multiprecision::number<boost::multiprecision::cpp_int_backend<512, 512, boost::multiprecision::signed_magnitude, boost::multiprecision::unchecked, void>> i512;

// Exact sign of det(a, b, c): all components scaled to integers by one power of two.
template <typename I> static int exactT(double const * v, int emin) {
    I m[9];
    for (int i = 0; i < 9; ++i) {
        int e;
        double f = std::frexp(v[i], &e);
        m[i] = (long long)(f * 9007199254740992.0);
        if (v[i] != 0) m[i] <<= (e - 53 - emin);
    }
    I d = m[0] * (m[4] * m[8] - m[5] * m[7]) + m[1] * (m[5] * m[6] - m[3] * m[8]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
    return d > 0 ? 1 : d < 0 ? -1 : 0;
}
static int exact(Vector3d const & a, Vector3d const & b, Vector3d const & c) {
    double v[9] = {a.x(), a.y(), a.z(), b.x(), b.y(), b.z(), c.x(), c.y(), c.z()};
    int emin = 99999, emax = -99999;
    for (double x : v) if (x != 0) { int e; std::frexp(x, &e); emin = std::min(emin, e - 53); emax = std::max(emax, e); }
    if (emin == 99999) return 0;
    return emax - emin < 160 ? exactT<i512>(v, emin) : exactT<cpp_int>(v, emin);
}
static std::string show(Vector3d const & v) { return "(" + mc::hx(v.x()) + "," + mc::hx(v.y()) + "," + mc::hx(v.z()) + ")"; }
static UnitVector3d unit(Vector3d const & v) { return UnitVector3d::fromNormalized(v); }

static void checkExact(Vector3d const & a, Vector3d const & b, Vector3d const & c) {
    int w = exact(a, b, c), g = orientationExact(a, b, c);
    mc::trans();
    if (w == 0) mc::outcome("exact: zero"); else mc::outcome(w > 0 ? "exact: positive" : "exact: negative");
    if (g != w) mc::fail("exact " + show(a) + show(b) + show(c), fmt("got %d want %d", g, w));
}
static uint64_t nz[3];
static void checkUnit(UnitVector3d const & a, UnitVector3d const & b, UnitVector3d const & c) {
    int w = exact(a, b, c), g = orientation(a, b, c);
    mc::trans();
    ++nz[w + 1];
    if (g != w) mc::fail("unit " + show(a) + show(b) + show(c), fmt("got %d want %d", g, w));
}
static void checkAll(UnitVector3d const & a, UnitVector3d const & b, UnitVector3d const & c) {
    int w = exact(a, b, c);
    int g[6] = {orientation(a, b, c), orientation(b, c, a), orientation(c, a, b), -orientation(b, a, c), -orientation(c, b, a), -orientation(a, c, b)};
    mc::trans(6);
    ++nz[w + 1];
    for (int i = 0; i < 6; ++i) if (g[i] != w) { mc::fail(fmt("unit permutation %d ", i) + show(a) + show(b) + show(c), fmt("got %d want %d", g[i], w)); return; }
}
static void checkAxes(UnitVector3d const & b, UnitVector3d const & c) {
    int w[3] = {exact(UnitVector3d::X(), b, c), exact(UnitVector3d::Y(), b, c), exact(UnitVector3d::Z(), b, c)};
    int g[3] = {orientationX(b, c), orientationY(b, c), orientationZ(b, c)};
    int h[3] = {orientation(UnitVector3d::X(), b, c), orientation(UnitVector3d::Y(), b, c), orientation(UnitVector3d::Z(), b, c)};
    mc::trans(6);
    for (int i = 0; i < 3; ++i) {
        ++nz[w[i] + 1];
        if (g[i] != w[i] || h[i] != w[i]) mc::fail(fmt("axis %c ", "XYZ"[i]) + show(b) + show(c), fmt("got %d / %d want %d", g[i], h[i], w[i]));
    }
}

static std::vector<Vector3d> grid(std::vector<double> const & c) {
    std::vector<Vector3d> r;
    for (double x : c) for (double y : c) for (double z : c) r.emplace_back(x, y, z);
    return r;
}
static double ulps(double x, int n) {
    for (; n > 0; --n) x = std::nextafter(x, INFINITY);
    for (; n < 0; ++n) x = std::nextafter(x, -INFINITY);
    return x;
}
static std::vector<UnitVector3d> around(UnitVector3d const & v, int r, bool zeros) {
    std::vector<UnitVector3d> o;
    for (int i = -r; i <= r; ++i) for (int j = -r; j <= r; ++j) for (int k = -r; k <= r; ++k) {
        if ((!zeros) && ((v.x() == 0 && i) || (v.y() == 0 && j) || (v.z() == 0 && k))) continue;
        o.push_back(unit(Vector3d(ulps(v.x(), i), ulps(v.y(), j), ulps(v.z(), k))));
    }
    return o;
}

static void body() {
    bool T = mc::thorough();
    double const D = std::numeric_limits<double>::denorm_min(), M = std::numeric_limits<double>::max(), N = std::numeric_limits<double>::min(), E = 0x1p-52;
    mc::section("exact predicate: all triples over component alphabets");
    std::vector<std::vector<double>> al = {
        {0, 1, -1}, {1, 1 + E, -1}, {0, D, -M}, {D, 1, -0x1p60}, {N, -N, 0x1.fffffffffffffp0}, {M, -M, ulps(M, -1)}, {0, 1e-8, 1.0 / 3}, {D, -2 * D, 3 * D},
        {0x1p-500, 0x1.8p40, -0x1.000001p-31}, {1, 0x1p-32, 0x1p-33}, {1, -0x1p-31, 0x1p-65}, {1e300, 1e-300, 0}, {0x1.fffffffffffffp33, 0x1p-30, 1}, {3, 0x1.fffffffffffffp1, -0x1.0000000000001p64},
        {1, 0x1p32, 0x1p-64}, {0x1.00000001p0, 0x1.fffffffep31, 0x1p-100}, {-0.0, 0.1, 0.3}};
    if (T) for (auto & a : al) { a.push_back(a[1] * 0x1.0000000000001p-33); }
    for (size_t n = 0; n < al.size(); ++n) {
        auto vs = grid(al[n]);
        for (size_t i = 0; i < vs.size(); ++i) {
            if (!mc::mine(i)) continue;
            mc::state();
            for (size_t j = 0; j < vs.size(); ++j) for (size_t k = 0; k < vs.size(); ++k) {
                mc::at(n, i, j, k);
                checkExact(vs[i], vs[j], vs[k]);
                mc::trace();
            }
        }
        if (mc::wantSample()) mc::sample(fmt("alphabet %zu: ", n) + show(vs[5 % vs.size()]));
    }
    mc::section("exact predicate: exponent gaps and cancelling terms");
    {
        // determinants made of six products with chosen exponents and nearly cancelling pairs
        std::vector<int> ex{-1074, -1022, -537, -300, -65, -64, -63, -33, -32, -31, -1, 0, 1, 31, 32, 33, 64, 65, 97, 300, 500, 1023};
        std::vector<double> ms{1, 1.5, 1 + E, 2 - E};
        size_t c = 0;
        for (int e1 : ex) for (int e2 : ex) for (int e3 : ex) {
            if (!mc::mine(c++)) continue;
            mc::state();
            for (double m1 : ms) for (double m2 : ms) {
                mc::at(c);
                double a = std::ldexp(m1, e1), b = std::ldexp(m2, e2), d = std::ldexp(1.25, e3);
                checkExact(Vector3d(a, b, d), Vector3d(b, a, d), Vector3d(a, b, -d));
                checkExact(Vector3d(a, b, 0), Vector3d(b, a, 0), Vector3d(0, 0, d));
                checkExact(Vector3d(a, b, d), Vector3d(d, a, b), Vector3d(b, d, a));
                checkExact(Vector3d(1, a, b), Vector3d(1, ulps(a, 1), d), Vector3d(1, a, d));
                checkExact(Vector3d(a, 0, b), Vector3d(d, b, 1), Vector3d(ulps(a, 1), 0, b));
                mc::trace(5);
            }
        }
    }
    mc::section("unit vectors: all triples of directions");
    {
        std::vector<std::vector<double>> dirs = {{-1, 0, 1}, {0, 1, 1e-8}, {0, 1, 1e-16}, {0, 1, 1e-160}, {-1, 1, 1e-300}, {0, 1, D}, {1, -0x1p-27, 0x1p-26}, {1, 1e-153, -1e-154}};
        if (T) { dirs.push_back({-2, -1, 0, 1, 3}); dirs.push_back({0, 1e-8, 1e-7, 1, -1}); }
        dirs.push_back({-2, 0, 1, 3});
        for (size_t n = 0; n < dirs.size(); ++n) {
            std::vector<UnitVector3d> us;
            for (auto & v : grid(dirs[n])) {
                if (v.x() == 0 && v.y() == 0 && v.z() == 0) continue;
                // normalised here, so that the check does not depend on the library's normalisation
                long double m = std::max({fabsl(v.x()), fabsl(v.y()), fabsl(v.z())});
                long double x = v.x() / m, y = v.y() / m, z = v.z() / m, r = sqrtl(x * x + y * y + z * z);
                us.push_back(unit(Vector3d((double)(x / r), (double)(y / r), (double)(z / r))));
            }
            for (size_t i = 0; i < us.size(); ++i) {
                if (!mc::mine(i)) continue;
                mc::state();
                for (size_t j = 0; j < us.size(); ++j) {
                    checkAxes(us[i], us[j]);
                    for (size_t k = 0; k < us.size(); ++k) {
                        mc::at(n, i, j, k);
                        if (j >= i && k >= i) checkAll(us[i], us[j], us[k]); else checkUnit(us[i], us[j], us[k]);
                        mc::trace();
                    }
                }
            }
        }
    }
    mc::section("unit vectors: ulp neighbourhoods of coplanar triples");
    {
        std::vector<Vector3d> base = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 0}, {1, 2, 3}, {-3, 1, 2}, {5, -7, 1}, {1, 1e-5, 2e-5}, {1e-6, 1, -1e-6}, {1, 1, 1e-9}, {0.3, 0.2, -0.9}};
        std::vector<std::pair<double, double>> co = {{1, 1}, {1, -1}, {2, 1}, {1, 1e-4}, {1e-8, 1}, {-1, 3}, {1, -1e-9}};
        size_t c = 0;
        int R = 1;
        for (size_t i = 0; i < base.size(); ++i) for (size_t j = i + 1; j < base.size(); ++j) for (auto & q : co) {
            if (!mc::mine(c++)) continue;
            mc::state();
            UnitVector3d a(base[i]), b(base[j]);
            UnitVector3d d(a * q.first + b * q.second);
            std::vector<UnitVector3d> A = T ? around(a, R, false) : std::vector<UnitVector3d>{a, unit(Vector3d(ulps(a.x(), 1), a.y(), ulps(a.z(), -1)))};
            std::vector<UnitVector3d> B = around(b, R, false), C = around(d, R, false);
            for (auto & x : A) for (auto & y : B) for (auto & z : C) { mc::at(c); checkUnit(x, y, z); checkUnit(z, y, x); mc::trace(2); }
            if (mc::wantSample()) mc::sample(show(a) + show(b) + show(d));
        }
    }
    mc::section("unit vectors: coplanar triples over a grid of directions");
    {
        std::vector<UnitVector3d> us;
        int R = T ? 4 : 2;
        for (int x = -R; x <= R; ++x) for (int y = -R; y <= R; ++y) for (int z = -R; z <= R; ++z) {
            if ((x | y | z) == 0 || x < 0) continue;
            us.emplace_back(Vector3d(x + 0.1 * y, y - 0.3 * z, z + 0.7));
        }
        size_t c = 0;
        for (size_t i = 0; i < us.size(); ++i) for (size_t j = i + 1; j < us.size(); ++j) {
            if (!mc::mine(c++)) continue;
            mc::state();
            for (double q : {1.0, -1.0, 0.37, -2.6}) {
                UnitVector3d d(us[i] + us[j] * q);
                for (auto & z : around(d, 1, false)) { mc::at(i, j); checkUnit(us[i], us[j], z); checkUnit(us[j], z, us[i]); checkUnit(z, us[j], us[i]); mc::trace(3); }
            }
        }
        // Triples whose floating point determinant has the wrong sign and is as large as such errors get.
        double worst[11][9] = {
            {0x1.c8a516e49d7cfp-1, 0x1.7388e017bedf1p-6, 0x1.ce88f3fd09e5dp-2, -0x1.3965220331d83p-2, -0x1.2cd91d7d389d9p-1, -0x1.7f82b00acd7d2p-1, 0x1.e5336a363ae4dp-1, -0x1.a8dcb0d48fdd2p-3, 0x1.f111e8eec9afap-3},
            {-0x1.d531e80c1eb94p-1, 0x1.9b4d371bf9c4ep-6, -0x1.991255b04e55ep-2, -0x1.edd04fc98085ap-1, -0x1.0ded0ebba7835p-2, 0x1.18cca200d178ap-6, 0x1.9d1c5b0950498p-1, -0x1.51ce8c136dbf2p-3, 0x1.226ee1ef304a5p-1},
            {-0x1.14765b9a88ddfp-1, 0x1.1a9edd2eed05cp-3, -0x1.a91cbca95be41p-1, 0x1.611da48d1c789p-2, -0x1.83a72a34a8566p-1, 0x1.1c123ce74384bp-1, -0x1.390c57e11ada8p-5, -0x1.ff81599d21427p-1, -0x1.63aeff1a4ff22p-6},
            {-0x1.5c79de607c702p-9, 0x1.45504d9db148bp-1, -0x1.8b5d5556f42ffp-1, -0x1.4aa4ac3f42275p-1, -0x1.85ab6440495e4p-1, -0x1.f40a638e743c6p-5, -0x1.a95daeb3c268p-6, 0x1.3c331e1933d3fp-1, -0x1.92794380935d1p-1},
            {-0x1.045146fd9a3b2p-2, 0x1.85c3d67df5p-1, 0x1.316d70126508p-1, -0x1.224484c431244p-1, -0x1.7bcba689591d1p-3, -0x1.9af12cd383be3p-1, 0x1.5882b2fe22c31p-2, -0x1.8e89f5e02b698p-1, -0x1.0f5d64307899dp-1},
            {-0x1.503ceb2eecddp-1, -0x1.d17a5369e5f62p-3, -0x1.702a7cf52a4f9p-1, 0x1.0a6d924ba437ap-1, -0x1.9ffbc6ce59577p-1, 0x1.0d347e0116adcp-2, 0x1.6e00af63109eap-1, -0x1.861ff606ff06ap-6, 0x1.65d2ba54d820bp-1},
            {0x1.81b5c8a520f57p-1, -0x1.4b1e6bb0f54c2p-1, -0x1.e8b942ab1a205p-4, 0x1.c26836e8d503bp-2, -0x1.3db682dafb3bfp-2, 0x1.af7fec009a36bp-1, -0x1.53acdcf42b2bep-1, 0x1.30c256d514d4p-1, 0x1.d0450ce335309p-2},
            {0x1.680d483ca2142p-1, 0x1.31596ba1ed328p-1, 0x1.8c534a8f4ec1bp-2, 0x1.ffcae9456bd2cp-3, -0x1.7ef6df171c8c1p-3, 0x1.e66c2d608830ap-1, -0x1.298f459bb4708p-1, -0x1.8c25fa582ff4ap-1, 0x1.023704633bbaep-2},
            {-0x1.211322f38ee2cp-3, -0x1.809c0926b6ad7p-1, -0x1.4a2585a42fdbep-1, -0x1.5bd6d50f99deap-1, 0x1.b9ac95aefdcd2p-2, 0x1.2ff20e0a6ac3p-1, 0x1.ecc11051dada2p-1, 0x1.13898bb748828p-2, -0x1.2e5f28938daa8p-5},
            {-0x1.8eceb772496bfp-1, 0x1.308c559816d85p-1, 0x1.96e1758942ecdp-3, -0x1.37c5ccf95bba6p-2, 0x1.d20975eafbcd5p-2, 0x1.ac6c292ca2227p-1, 0x1.6df5c1797db76p-1, -0x1.3bac69b1546ecp-2, 0x1.416925231a92bp-1},
            {-0x1.96ce10c024722p-7, -0x1.73797024713f4p-1, 0x1.604b052cb5c44p-1, 0x1.fff71bf693895p-1, -0x1.fa68eb350a5c5p-8, 0x1.1d913abe1339ap-7, 0x1.5f622252fcfep-2, 0x1.5d1036e72dfe1p-1, -0x1.4acdccc29b8a3p-1}};
        for (auto & w : worst) {
            UnitVector3d a = unit(Vector3d(w[0], w[1], w[2])), b = unit(Vector3d(w[3], w[4], w[5])), d = unit(Vector3d(w[6], w[7], w[8]));
            if (!mc::mine(c++)) continue;
            checkAll(a, b, d);
            for (auto & x : around(a, 1, false)) for (auto & y : around(b, 1, false)) for (auto & z : around(d, 1, false)) { mc::at(c); checkUnit(x, y, z); mc::trace(); }
        }
    }
    mc::section("unit vectors: clusters of ulp neighbours");
    {
        // Three vectors that all lie within a few ulps of one direction (or its antipode).
        std::vector<Vector3d> base = {{1, 0, 0}, {0, 0, 1}, {1, 1, 1}, {1, 2, 3}, {1, 1e-8, 0}, {1e-3, 1e-3, 1}, {0.6, 0.8, 1e-17}};
        for (size_t n = 0; n < base.size(); ++n) {
            UnitVector3d u(base[n]);
            auto A = around(u, 1, true);
            if (T) A = around(u, 2, false);
            std::vector<UnitVector3d> all(A);
            for (auto & x : A) if (all.size() < (T ? 80u : 40u)) all.push_back(-x);
            for (size_t i = 0; i < all.size(); ++i) {
                if (!mc::mine(i)) continue;
                mc::state();
                for (size_t j = 0; j < all.size(); ++j) { checkAxes(all[i], all[j]); for (auto & z : all) { mc::at(n, i, j); checkUnit(all[i], all[j], z); mc::trace(); } }
            }
        }
    }
    mc::section("axis predicates: ulp neighbourhoods of meridian pairs");
    {
        size_t c = 0;
        for (double p : {1.0, 2.0, 1.0 / 3, 0.1, 1e-8, 1e-160, -1.0, -5.0}) for (double s : {1.0, 0.5, 0.3, 1e-5, 1e-12, 1e-150, -1.0, -0.7}) for (double r : {0.0, 1.0, -0.3, 1e3, 1e-9}) for (double t : {0.0, 0.9, 1e4}) {
            if (!mc::mine(c++)) continue;
            mc::state();
            for (int ax = 0; ax < 3; ++ax) {
                double v[3], w[3];
                v[ax] = r; v[(ax + 1) % 3] = 1; v[(ax + 2) % 3] = p;
                w[ax] = t; w[(ax + 1) % 3] = s; w[(ax + 2) % 3] = s * p;
                UnitVector3d a(Vector3d(v[0], v[1], v[2])), b(Vector3d(w[0], w[1], w[2]));
                for (auto & x : around(a, 1, false)) for (auto & y : around(b, T ? 2 : 1, false)) { mc::at(c, ax); checkAxes(x, y); mc::trace(); }
            }
        }
    }
    mc::section("unit vectors: tiny determinants at graded scales");
    {
        // a, b, a+b+h*n with h around the error bounds of the floating point filters
        std::vector<double> hs;
        for (int e = -1074; e <= -20; e += (e > -80 || e < -960) ? 1 : 40) { hs.push_back(std::ldexp(1.0, e)); hs.push_back(-std::ldexp(1.3, e)); }
        std::vector<double> sc;
        for (int e = -3; e >= -340; e -= (e > -40 ? 2 : 25)) sc.push_back(std::ldexp(1.0, e));
        size_t c = 0;
        for (double s1 : sc) for (double s2 : sc) {
            if (!mc::mine(c++)) continue;
            mc::state();
            for (double h : hs) {
                mc::at(c);
                // vectors near an axis whose small components are coplanar up to h
                for (int ax = 0; ax < 3; ++ax) {
                    auto mk = [&](double y, double z) { double v[3]; v[ax] = 1; v[(ax + 1) % 3] = y; v[(ax + 2) % 3] = z; return unit(Vector3d(v[0], v[1], v[2])); };
                    UnitVector3d a = mk(0, h), b = mk(s1, 0), d = mk(-s2, 0), e = mk(s1 + s2, 0.3 * s1), f = mk(s1, 0.3 * s1);
                    checkAll(a, b, d);
                    checkAll(a, e, f);
                    checkAll(b, e, f);
                    mc::trace(18);
                }
            }
        }
    }
    mc::section("unit vectors: products that underflow");
    {
        // all triples of vectors at one axis, the other coordinates so small that products of two are a few denormal quanta
        for (int e = -540; e <= -530; e += T ? 1 : 2) for (int set = 0; set < (T ? 3 : 2); ++set) {
            static double const sets[3][7] = {{0, 0.37, 0.71, 1.13, -0.59, -1.3, 1.9}, {0, 1.3, 2.71, 3.14, -1.77, -2.2, 0.9}, {0, 5.1, 4.6, -4.9, -5.3, 2.45, 1e-3}};
            auto & k = sets[set];
            std::vector<std::pair<double, double>> yz;
            for (double y : k) for (double z : k) yz.emplace_back(std::ldexp(y, e), std::ldexp(z, e));
            for (int ax = 0; ax < 3; ++ax) {
                std::vector<UnitVector3d> us;
                for (auto & q : yz) { double v[3]; v[ax] = 1; v[(ax + 1) % 3] = q.first; v[(ax + 2) % 3] = q.second; us.push_back(unit(Vector3d(v[0], v[1], v[2]))); }
                for (size_t i = 0; i < us.size(); ++i) {
                    if (!mc::mine(i)) continue;
                    mc::state();
                    for (size_t j = i + 1; j < us.size(); ++j) for (size_t l = j + 1; l < us.size(); ++l) {
                        mc::at(e + 1000, set, ax, i, j, l);
                        checkAll(us[i], us[j], us[l]);
                        mc::trace(6);
                    }
                }
            }
        }
    }
    mc::outcome("unit: negative", nz[0]); mc::outcome("unit: zero", nz[1]); mc::outcome("unit: positive", nz[2]);
}
int main(int argc, char ** argv) { return mc::run(argc, argv, body); }
