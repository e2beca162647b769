// C29: centroids, extreme distances to great circle segments and to circles of latitude, against long double references.
#include "lsst/sphgeom/Angle.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/UnitVector3d.h"
#include "lsst/sphgeom/orientation.h"
#include "lsst/sphgeom/utils.h"
#include "zoo.h"
using namespace zoo;
using mc::fmt;

static std::string show(Vector3d const & v) { return fmt("(%.17g,%.17g,%.17g)", v.x(), v.y(), v.z()); }
static V3 L(Vector3d const & v) { return V3(v.x(), v.y(), v.z()); }

// Lattice directions, and others that are very close to them.
static std::vector<UnitVector3d> points() {
    std::vector<UnitVector3d> o;
    int const R = mc::deep() ? 3 : 2;
    for (int x = -R; x <= R; ++x) for (int y = -R; y <= R; ++y) for (int z = -R; z <= R; ++z) {
        if (!x && !y && !z) continue;
        int a = abs(x), b = abs(y), c = abs(z);
        if (a != 1 && b != 1 && c != 1) continue;
        o.push_back(UnitVector3d(x, y, z));
    }
    for (double e : {1e-2, 1e-5, 1e-9, 1e-13, 1e-15, 1e-40})
        for (int k = 0; k < (mc::thorough() ? 10 : 5); ++k) {
            double const d[10][6] = {{1, 0, 0, 0, 1, 0}, {1, 0, 0, 0, 0.3, 1}, {0, 0, 1, -1, 1, 0}, {1, 1, 1, 1, -0.2, 0.1}, {-1, 0, 1, 0, 1, 0},
                                     {0, -1, 0, 1, 0, 1}, {0, 1, 1, 1, 0, 0}, {1, -1, 1, 0.5, 1, 0}, {0, 0, -1, 1, 0, 0}, {-1, -1, 0, 0, 0, 1}};
            o.push_back(UnitVector3d(d[k][0] + e * d[k][3], d[k][1] + e * d[k][4], d[k][2] + e * d[k][5]));
        }
    if (mc::deep()) for (V3 v : {V3(3, 4, 5), V3(0.1L, 0.9L, -0.3L), V3(-0.7L, 0.2L, 0.1L), V3(-5, -3, 2), V3(0.3L, -0.8L, -0.6L)}) o.push_back(U(v));
    std::vector<UnitVector3d> r;
    for (auto & u : o) if (std::find(r.begin(), r.end(), u) == r.end()) r.push_back(u);
    return r;
}

// An edge's share of the first moment of a region, and its length. The cross product is exact enough for edges of any length.
static V3 edgeMoment(UnitVector3d const & a, UnitVector3d const & b, LD & per) {
    typedef __float128 Q;
    Q ax = a.x(), ay = a.y(), az = a.z(), bx = b.x(), by = b.y(), bz = b.z();
    Q x = ay * bz - az * by, y = az * bx - ax * bz, z = ax * by - ay * bx, d = ax * bx + ay * by + az * bz;
    V3 n((LD)x, (LD)y, (LD)z);
    LD t = atan2l(norm(n), (LD)d);
    per += t;
    return n * (t / 2 / norm(n));
}
// First moment of a polygon, and the sum of the lengths of its edges.
static V3 moment(std::vector<UnitVector3d> const & p, LD & per) {
    V3 s;
    per = 0;
    for (size_t i = 0; i < p.size(); ++i) s = s + edgeMoment(p[i], p[(i + 1) % p.size()], per);
    return s;
}
// The same by summing small flat triangles (accurate to about h^2).
static V3 integrate(V3 a, V3 b, V3 c, int depth, LD & area) {
    if (depth == 0) {
        V3 n = cross(b - a, c - a);
        LD h = norm(n) / 2;
        V3 m = (a + b + c) * (1.0L / 3);
        // solid angle of a flat triangle seen from the origin
        LD omega = 2 * atan2l(fabsl(dot(a, cross(b, c))), 1 + dot(a, b) + dot(b, c) + dot(c, a));
        (void)h;
        area += omega;
        return unit(m) * omega;
    }
    V3 x = unit(b + c), y = unit(c + a), z = unit(a + b);
    return integrate(a, z, y, depth - 1, area) + integrate(b, x, z, depth - 1, area) + integrate(c, y, x, depth - 1, area) + integrate(x, y, z, depth - 1, area);
}

static void centroids() {
    mc::section("triangle centroids");
    auto P = points();
    size_t const n = P.size();
    size_t count = 0;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        if (!mc::mine(count++)) continue;
        if (i == j || P[i] == -P[j]) continue;
        for (size_t k = 0; k < n; ++k) {
            if (k == i || k == j || P[k] == -P[i] || P[k] == -P[j]) continue;
            if (orientationExact(P[i], P[j], P[k]) <= 0) continue;
            mc::at(i, j, k);
            mc::state();
            mc::trans();
            auto id = [&] { return "centroid of " + show(P[i]) + show(P[j]) + show(P[k]); };
            LD per;
            V3 a(P[i]), b(P[j]), c(P[k]), w = moment({P[i], P[j], P[k]}, per);
            Vector3d g;
            try { g = getWeightedCentroid(P[i], P[j], P[k]); } catch (std::exception const & e) { mc::fail(id(), e.what()); continue; }
            // Each edge contributes an angle and a normal that are accurate to a few units in the last place.
            LD tol = 3e-15L * per;
            if (!(norm(L(g) - w) <= tol)) mc::fail(id(), show(g) + fmt(" off by %Lg", norm(L(g) - w)));
            mc::trace();
            // The region's own centroid points the same way.
            if (i < j && i < k) {
                mc::trans();
                try {
                    UnitVector3d u = ConvexPolygon(P[i], P[j], P[k]).getCentroid();
                    if (norm(w) > 1e-11L * per && norm(V3(u) - unit(w)) > 5e-15L * per / norm(w) + 1e-15L) mc::fail(id(), "polygon centroid " + show(u));
                    if (norm(w) > 1e-13L * per) for (V3 m : {normalOf(a, b), normalOf(b, c), normalOf(c, a)}) if (dot(m, V3(u)) < -5e-15L * per / norm(w)) mc::fail(id(), "polygon centroid outside " + show(u));
                } catch (std::exception const & e) { mc::fail(id(), std::string("polygon: ") + e.what()); }
            }
            if (w.x != w.x) mc::fail(id(), "reference");
        }
    }
    // Splitting a triangle splits its moment; the closed form agrees with summation over many small triangles.
    mc::section("triangle moments add up");
    std::vector<UnitVector3d> Q;
    for (auto & u : P) if (Q.size() < (mc::thorough() ? 98u : 40u)) Q.push_back(u);
    for (size_t i = 0; i < Q.size(); ++i) for (size_t j = 0; j < Q.size(); ++j) {
        if (!mc::mine(count++)) continue;
        for (size_t k = 0; k < Q.size(); ++k) {
            if (i > j || i > k || Q[i] == -Q[j] || Q[j] == -Q[k] || Q[k] == -Q[i] || orientationExact(Q[i], Q[j], Q[k]) <= 0) continue;
            mc::at(i, j, k);
            mc::state();
            V3 g = L(getWeightedCentroid(Q[i], Q[j], Q[k]));
            for (V3 weights : {V3(1, 1, 1), V3(5, 1, 1), V3(1, 8, 2), V3(0, 1, 1), V3(1, 0, 3)}) {
                UnitVector3d s = U(V3(Q[i]) * weights.x + V3(Q[j]) * weights.y + V3(Q[k]) * weights.z);
                V3 sum;
                UnitVector3d const v[3] = {Q[i], Q[j], Q[k]};
                mc::trans(3);
                for (int e = 0; e < 3; ++e) if (v[e] != s && v[(e + 1) % 3] != s) sum = sum + L(getWeightedCentroid(v[e], v[(e + 1) % 3], s));
                mc::trace();
                if (norm(sum - g) > 1e-14L) mc::fail("split of " + show(Q[i]) + show(Q[j]) + show(Q[k]) + " at " + show(s), fmt("off by %Lg", norm(sum - g)));
            }
            if (mc::thorough() || (i * 7 + j * 3 + k) % 8 == 0 || i < 2) {
                LD area = 0;
                V3 num = integrate(V3(Q[i]), V3(Q[j]), V3(Q[k]), 5, area);
                mc::trans();
                mc::trace();
                if (area < 4 && norm(num - g) > 4e-3L * area + 1e-14L) mc::fail("moment of " + show(Q[i]) + show(Q[j]) + show(Q[k]), fmt("off by %Lg of %Lg", norm(num - g), area));
            }
        }
    }
    // Fans of triangles make up larger polygons.
    mc::section("polygon centroids");
    for (int m = 3; m <= (mc::thorough() ? 64 : 24); ++m)
        for (LD r : {1e-9L, 1e-4L, 0.01L, 0.3L, 1.0L, 1.5L})
            for (auto & c : Q) {
                if (!mc::mine(count++)) continue;
                mc::state();
                mc::trans(2);
                V3 C(c), e = anyPerp(C), f = cross(C, e);
                std::vector<UnitVector3d> v;
                for (int t = 0; t < m; ++t) {
                    // not symmetric: a moment about the center can not be confused with the mean of the vertices
                    LD th = 2 * LPI * (t + 0.3L * t * (m - t) / (m * m)) / m;
                    v.push_back(U(go(C, e * cosl(th) + f * sinl(th), r)));
                }
                auto id = [&] { return fmt("polygon of %d vertices at %Lg from ", m, r) + show(c); };
                try {
                    ConvexPolygon p = ConvexPolygon::convexHull(v);
                    auto const & q = p.getVertices();
                    LD all;
                    V3 s = moment(q, all);
                    UnitVector3d u = p.getCentroid();
                    mc::trace();
                    if (norm(V3(u) - unit(s)) > 5e-15L * all / norm(s) + 1e-15L) mc::fail(id(), "centroid " + show(u) + fmt(" off by %Lg", norm(V3(u) - unit(s))));
                } catch (std::exception const & ex) { mc::fail(id(), ex.what()); }
            }
}

static void chords() {
    mc::section("distances to segments");
    auto P = points();
    size_t const n = P.size();
    size_t count = 0;
    struct Scale { double v, a, b, n; } const scales[] = {{1, 1, 1, 1}, {3, 1, 1, 0.25}, {1, 0.001, 1000, 1e5}, {1e-20, 1, 7, 1e-8}, {1e8, 1e20, 1e-3, 1e6}};
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        if (!mc::mine(count++)) continue;
        if (i == j || P[i] == -P[j]) continue;
        Vector3d const cr = P[i].robustCross(P[j]);
        V3 const a(P[i]), b(P[j]), N = unit(L(cr));
        for (size_t k = 0; k < n; ++k) {
            mc::at(i, j, k);
            mc::state();
            V3 const v(P[k]), q = v - N * dot(v, N);
            LD const s = fabsl(dot(v, N)), co = norm(q);
            LD const near = s * s + (1 - co) * (1 - co), far = s * s + (1 + co) * (1 + co);
            // Which side of the planes that bound the segment and its antipode.
            LD const sa = dot(cross(a, q), N), sb = dot(cross(q, b), N);
            bool const in = sa > 0 && sb > 0, anti = sa < 0 && sb < 0;
            bool const unsure = fabsl(sa) < 3e-15L || fabsl(sb) < 3e-15L;
            bool pole = co < 3e-15L;
            size_t const ns = mc::thorough() ? 5 : 1 + (i + j + k) % 5;
            for (size_t t = ns == 5 ? 0 : ns - 1; t < ns; ++t) {
                Scale const & S = scales[t];
                mc::trans(2);
                Vector3d V = P[k] * S.v, A = P[i] * S.a, B = P[j] * S.b, M = cr * S.n;
                double const mn = getMinSquaredChordLength(V, A, B, M), mx = getMaxSquaredChordLength(V, A, B, M);
                auto id = [&] { return fmt("scale %zu ", t) + show(P[k]) + " to " + show(P[i]) + show(P[j]); };
                mc::trace();
                LD const tol = 2e-15L;
                bool okMin = (mn == 4.0 && (!in || unsure || pole)) || ((in || unsure || pole) && fabsl(mn - near) <= tol * (1 + near));
                bool okMax = (mx == 0.0 && (!anti || unsure || pole)) || ((anti || unsure || pole) && fabsl(mx - far) <= tol * (1 + far));
                if (!okMin) mc::fail("nearest " + id(), fmt("%.17g want %s %.17Lg", mn, in ? "" : "4, not", near));
                if (!okMax) mc::fail("furthest " + id(), fmt("%.17g want %s %.17Lg", mx, anti ? "" : "0, not", far));
            }
            if (mc::wantSample() && in) mc::sample(show(P[k]) + " to " + show(P[i]) + show(P[j]) + fmt(": %.17Lg", near));
        }
    }
    mc::section("distances to circles of latitude");
    std::vector<double> lat{0.0, 5e-324, 1e-300, 1e-16, 1e-9, 0.1, 0.3, 0.5, 0.25 * PI, 1.0, 1.2, 1.5, 1.5707, std::nextafter(0.5 * PI, 0), 0.5 * PI};
    for (int t = 1; t < (mc::thorough() ? 300 : 60); ++t) lat.push_back(0.5 * PI * t / (mc::thorough() ? 300 : 60));
    size_t const m = lat.size();
    for (size_t t = 0; t < m; ++t) lat.push_back(-lat[t]);
    for (size_t x = 0; x < lat.size(); ++x) {
        if (!mc::mine(count++)) continue;
        for (size_t c = 0; c < lat.size(); ++c) {
            mc::at(x, c);
            mc::state();
            mc::trans(2);
            mc::trace(2);
            double const mn = getMinAngleToCircle(Angle(lat[x]), Angle(lat[c])).asRadians(), mx = getMaxAngleToCircle(Angle(lat[x]), Angle(lat[c])).asRadians();
            LD const wn = fabsl((LD)lat[x] - lat[c]), wx = LPI - fabsl((LD)lat[x] + lat[c]);
            if (!(fabsl(mn - wn) <= 3e-16L * (wn + 1e-300L))) mc::fail(fmt("nearest on latitude %.17g to %.17g", lat[c], lat[x]), fmt("%.17g want %.17Lg", mn, wn));
            if (!(fabsl(mx - wx) <= 2e-15L)) mc::fail(fmt("furthest on latitude %.17g to %.17g", lat[c], lat[x]), fmt("%.17g want %.17Lg", mx, wx));
        }
    }
}

int main(int argc, char ** argv) {
    return mc::run(argc, argv, [] {
        centroids();
        chords();
    });
}
