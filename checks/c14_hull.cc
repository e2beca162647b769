// C14: the convex hull of every ordered list of points over small alphabets of awkward points, against a
// brute-force hull computed from exact determinants (cone membership by Caratheodory, no incremental algorithm).
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/orientation.h"
#include "zoo.h"
#include <boost/multiprecision/cpp_int.hpp>
using namespace zoo;
using boost::multiprecision::cpp_int;
using mc::fmt;

static int exact(double const * v) {
    int emin = 99999;
    for (int i = 0; i < 9; ++i) if (v[i] != 0) { int e; std::frexp(v[i], &e); emin = std::min(emin, e - 53); }
    if (emin == 99999) return 0;
    cpp_int m[9];
    for (int i = 0; i < 9; ++i) {
        int e;
        double f = std::frexp(v[i], &e);
        m[i] = (long long)(f * 9007199254740992.0);
        if (v[i] != 0) m[i] <<= (e - 53 - emin);
    }
    cpp_int d = m[0] * (m[4] * m[8] - m[5] * m[7]) + m[1] * (m[5] * m[6] - m[3] * m[8]) + m[2] * (m[3] * m[7] - m[4] * m[6]);
    return d > 0 ? 1 : d < 0 ? -1 : 0;
}
static int exact(UnitVector3d const & a, UnitVector3d const & b, UnitVector3d const & c) {
    double v[9] = {a.x(), a.y(), a.z(), b.x(), b.y(), b.z(), c.x(), c.y(), c.z()};
    return exact(v);
}

struct Hull { bool ok = false; std::vector<int> v; char const * why = ""; };
struct Alphabet {
    std::string name;
    std::vector<UnitVector3d> p;
    std::vector<int> o;      // exact orientation of every triple
    std::vector<int> opp;    // index of the antipode or -1
    std::vector<int> ow;     // sign of det(a, b, w) for reference vectors w
    std::vector<UnitVector3d> ref;
    std::unordered_map<uint32_t, Hull> memo;
    std::vector<UnitVector3d> probes;
    std::vector<int> po;     // exact orientation (a, b, probe)
    int n() const { return (int)p.size(); }
    int at(int a, int b, int c) const { return o[(a * n() + b) * n() + c]; }
    int atRef(int a, int b, int k) const { return ow[(a * n() + b) * 3 + k]; }
    void prepare() {
        int N = n();
        o.assign(N * N * N, 0);
        ref = {UnitVector3d(0.71, 0.53, 0.46), UnitVector3d(-0.31, 0.83, 0.46), UnitVector3d(0.11, -0.43, 0.89)};
        for (int a = 0; a < N; ++a) for (int b = 0; b < N; ++b) {
            for (int c = 0; c < N; ++c) o[(a * N + b) * N + c] = exact(p[a], p[b], p[c]);
            for (int k = 0; k < 3; ++k) ow.push_back(exact(p[a], p[b], ref[k]));
            for (auto & q : probes) po.push_back(exact(p[a], p[b], q));
        }
        for (int a = 0; a < N; ++a) {
            int f = -1;
            for (int b = 0; b < N; ++b) if (p[a].x() == -p[b].x() && p[a].y() == -p[b].y() && p[a].z() == -p[b].z()) f = b;
            opp.push_back(f);
        }
        // the oracle needs distinct points in distinct directions
        for (int a = 0; a < N; ++a) for (int b = 0; b < a; ++b) {
            bool par = true;
            for (int k = 0; k < 3; ++k) par = par && atRef(a, b, k) == 0;
            if (par && opp[a] != b) { fprintf(stderr, "alphabet %s: %d and %d are parallel\n", name.c_str(), a, b); exit(3); }
        }
    }
    // For coplanar, pairwise non-parallel a, b, c: sign of the planar orientation of (a, b) seen from any fixed side.
    int planar(int a, int b, int k) const { return atRef(a, b, k); }
    // x in the interior of the short arc a-b (all coplanar, distinct, a != -b)
    bool onArc(int a, int b, int x) const {
        if (at(a, b, x) != 0) return false;
        for (int k = 0; k < 3; ++k) {
            int s = planar(a, b, k);
            if (s != 0) return planar(a, x, k) == s && planar(x, b, k) == s;
        }
        return false;
    }
    bool ring(int a, int b, int c) const {  // coplanar triple whose cone is the whole plane
        if (at(a, b, c) != 0) return false;
        for (int k = 0; k < 3; ++k) {
            int s = planar(a, b, k);
            if (s != 0) return planar(b, c, k) == s && planar(c, a, k) == s;
        }
        return false;
    }
    Hull const & want(uint32_t mask) {
        auto f = memo.find(mask);
        if (f != memo.end()) return f->second;
        Hull h;
        std::vector<int> s;
        for (int i = 0; i < n(); ++i) if (mask >> i & 1) s.push_back(i);
        bool rank3 = false, pointed = true;
        for (int a : s) for (int b : s) for (int c : s) if (at(a, b, c)) rank3 = true;
        for (int a : s) {
            if (opp[a] >= 0 && (mask >> opp[a] & 1)) pointed = false;
            for (int b : s) if (b != a) for (int c : s) if (c != a && c != b) {
                if (ring(a, b, c)) pointed = false;
                if (at(a, b, c) > 0)
                    for (int d : s) if (at(b, a, d) > 0 && at(c, b, d) > 0 && at(a, c, d) > 0) pointed = false;
            }
        }
        if (!rank3) h.why = "rank";
        else if (!pointed) h.why = "not in an open hemisphere";
        else {
            h.ok = true;
            std::vector<int> ext;
            for (int x : s) {
                bool in = false;
                for (int a : s) if (a != x) for (int b : s) if (b != x && b != a) {
                    if (onArc(a, b, x)) in = true;
                    for (int c : s)
                        if (c != x && at(a, b, c) > 0 && at(a, b, x) >= 0 && at(b, c, x) >= 0 && at(c, a, x) >= 0) in = true;
                }
                if (!in) ext.push_back(x);
            }
            // order: b follows a when every other extreme point is strictly to the left of a-b
            int a = ext[0];
            do {
                h.v.push_back(a);
                int nx = -1;
                for (int b : ext) if (b != a) {
                    bool all = true;
                    for (int c : ext) if (c != a && c != b && at(a, b, c) <= 0) all = false;
                    if (all) nx = b;
                }
                if (nx < 0 || h.v.size() > ext.size()) { fprintf(stderr, "oracle failed\n"); exit(3); }
                a = nx;
            } while (a != ext[0]);
            if (h.v.size() != ext.size()) { fprintf(stderr, "oracle failed (2)\n"); exit(3); }
        }
        return memo[mask] = h;
    }
};
// The angle between two double vectors, with no loss for close ones.
static LD quadAngle(UnitVector3d const & a, UnitVector3d const & b) {
    typedef __float128 Q;
    Q ax = a.x(), ay = a.y(), az = a.z(), bx = b.x(), by = b.y(), bz = b.z();
    Q x = ay * bz - az * by, y = az * bx - ax * bz, z = ax * by - ay * bx, d = ax * bx + ay * by + az * bz;
    return atan2l(norm(V3((LD)x, (LD)y, (LD)z)), (LD)d);
}
static std::string listName(Alphabet const & A, int const * l, int n) {
    std::string s = A.name + " [";
    for (int i = 0; i < n; ++i) s += fmt(i ? ",%d" : "%d", l[i]);
    return s + "]";
}
// canonical polygon of every point set seen, for the equality checks
static std::map<uint32_t, std::unique_ptr<ConvexPolygon>> canon;
static void deep(Alphabet & A, ConvexPolygon const & p, Hull const & h, std::string const & nm) {
    size_t m = h.v.size();
    for (size_t q = 0; q < A.probes.size(); ++q) {
        bool in = true;
        for (size_t i = 0; i < m; ++i) in = in && A.po[(h.v[i] * A.n() + h.v[(i + 1) % m]) * A.probes.size() + q] >= 0;
        mc::trans();
        if (p.contains(A.probes[q]) != in) mc::fail(nm + fmt(" membership of probe %zu", q), in ? "should be inside" : "should be outside");
    }
    for (int q = 0; q < A.n(); ++q) {
        bool in = true;
        for (size_t i = 0; i < m; ++i) in = in && A.at(h.v[i], h.v[(i + 1) % m], q) >= 0;
        mc::trans();
        if (p.contains(A.p[q]) != in) mc::fail(nm + fmt(" membership of point %d", q), in ? "should be inside" : "should be outside");
    }
    try {
        UnitVector3d c = p.getCentroid();
        // inside, up to the rounding error of the moment sum (which matters for thin polygons only)
        V3 cm;
        LD per = 0;
        for (size_t i = 0; i < m; ++i) {
            auto const & a = A.p[h.v[i]]; auto const & b = A.p[h.v[(i + 1) % m]];
            LD t = quadAngle(a, b);
            cm = cm + normalOf(V3(a), V3(b)) * t;
            per += t;
        }
        LD tol = norm(cm) < 3e-14L * per ? 0.1L : std::min(0.1L, 2e-15L * per / norm(cm));
        mc::outcome(tol > 0.05L ? "centroid of a degenerate polygon" : "centroid");
        for (size_t i = 0; i < m; ++i) {
            V3 nn = normalOf(V3(A.p[h.v[i]]), V3(A.p[h.v[(i + 1) % m]]));
            if (dot(nn, V3(c)) < -tol) mc::fail(nm + " centroid", fmt("outside edge %zu by %Lg (allowed %Lg)", i, -dot(nn, V3(c)), tol));
        }
        if (tol < 0.05L && angle(cm, V3(c)) > tol) mc::fail(nm + " centroid", fmt("off by %Lg (allowed %Lg)", angle(cm, V3(c)), tol));
    } catch (std::exception const & e) {
        mc::fail(nm + " centroid", e.what());
    }
}
static void one(Alphabet & A, int const * l, int n) {
    uint32_t mask = 0;
    for (int i = 0; i < n; ++i) mask |= 1u << l[i];
    Hull const & h = A.want(mask);
    std::vector<UnitVector3d> pts;
    for (int i = 0; i < n; ++i) pts.push_back(A.p[l[i]]);
    mc::trans();
    bool ok = false;
    std::unique_ptr<ConvexPolygon> p;
    try {
        p.reset(new ConvexPolygon(pts));
        ok = true;
    } catch (std::invalid_argument const &) {
    } catch (std::runtime_error const &) {
    }
    mc::trace();
    if (ok != h.ok) {
        mc::fail(listName(A, l, n), fmt("%s but should be %s %s", ok ? "accepted" : "rejected", h.ok ? "accepted" : "rejected:", h.why));
        return;
    }
    if (!ok) return;
    auto const & v = p->getVertices();
    size_t m = h.v.size(), s = m;
    bool good = v.size() == m;
    if (good) {
        for (size_t i = 0; i < m; ++i) if (v[i] == A.p[h.v[0]]) { s = i; break; }
        good = s < m;
        for (size_t i = 0; good && i < m; ++i) {
            UnitVector3d const & a = v[(s + i) % m], & b = A.p[h.v[i]];
            good = a.x() == b.x() && a.y() == b.y() && a.z() == b.z();
        }
    }
    if (!good) {
        std::string d = "got";
        for (auto & x : v) { int k = -1; for (int i = 0; i < A.n(); ++i) if (A.p[i] == x) k = i; d += fmt(" %d", k); }
        d += " want";
        for (int x : h.v) d += fmt(" %d", x);
        mc::fail(listName(A, l, n), d);
        return;
    }
    auto & c = canon[mask];
    if (!c) {
        deep(A, *p, h, listName(A, l, n));
        if (ConvexPolygon::convexHull(pts) != *p) mc::fail(listName(A, l, n) + " convexHull()", "differs from the constructor");
        c = std::move(p);
    } else if (!(*c == *p) || !(*p == *c) || *c != *p) {
        mc::fail(listName(A, l, n) + " equality", "polygons of the same point set compare unequal");
    }
}
// all lists of length n over the alphabet (the first entry spread over the shards)
static void lists(Alphabet & A, int n, bool distinct, bool minimal) {
    canon.clear();
    std::vector<int> l(n, 0);
    int N = A.n();
    uint64_t idx = 0;
    std::function<void(int, uint32_t)> rec = [&](int k, uint32_t used) {
        if (k == n) { one(A, l.data(), n); return; }
        if (k == std::min(2, n - 1)) {
            if (!mc::mine(idx++)) return;
            mc::at(n, l[0], k > 1 ? l[1] : 0); mc::state();
        }
        for (int i = 0; i < N; ++i) {
            if (distinct && (used >> i & 1)) continue;
            l[k] = i;
            rec(k + 1, used | 1u << i);
        }
    };
    if (n == 0) { if (mc::mine(0)) { one(A, l.data(), 0); mc::state(); } return; }
    rec(0, 0);
    (void)minimal;
}
static UnitVector3d raw(double x, double y, double z) { return UnitVector3d::fromNormalized(x, y, z); }
static UnitVector3d neg(UnitVector3d const & u) { return raw(-u.x(), -u.y(), -u.z()); }

int main(int argc, char ** argv) {
    return mc::run(argc, argv, [] {
        bool T = mc::thorough();
#ifdef __SANITIZE_ADDRESS__
        int less = 1;
#else
        int less = 0;
#endif
        std::vector<Alphabet> as;
        auto X = UnitVector3d::X(), Y = UnitVector3d::Y(), Z = UnitVector3d::Z();
        {
            Alphabet a;
            a.name = "octants";
            a.p = {X, Y, Z, UnitVector3d(1, 1, 0), UnitVector3d(0, 1, 1), UnitVector3d(1, 0, 1), UnitVector3d(1, 1, 1), neg(X), neg(Y), UnitVector3d(-1, 1, 0), UnitVector3d(2, 1, 0), UnitVector3d(1, 1, -1)};
            as.push_back(a);
        }
        {   // the equator and just off it
            Alphabet a;
            a.name = "equator";
            double d = 5e-324, e = 1e-17;
            UnitVector3d e1(1, 0, 0), e2(-1, 2, 0), e3(-1, -2, 0), e4(3, 1, 0);
            a.p = {e1, e2, e3, e4, neg(e4), Z, raw(e2.x(), e2.y(), d), raw(e3.x(), e3.y(), -d), raw(e1.x(), e1.y(), e), raw(e3.x(), e3.y(), e), UnitVector3d(-1, 2, 3)};
            as.push_back(a);
        }
        {   // nearly identical and nearly antipodal points
            Alphabet a;
            a.name = "close";
            UnitVector3d g(0.6, 0.48, 0.64);
            auto n1 = [&](int i, int j, int k, UnitVector3d b) {
                auto s = [](double x, int n) { for (; n > 0; --n) x = std::nextafter(x, 9); for (; n < 0; ++n) x = std::nextafter(x, -9); return x; };
                return raw(s(b.x(), i), s(b.y(), j), s(b.z(), k));
            };
            a.p = {g, n1(1, 0, 0, g), n1(0, 1, 0, g), n1(0, 0, 1, g), n1(-1, 0, 0, g), n1(1, 1, 0, g), neg(g), n1(1, 0, 0, neg(g)), n1(0, -1, 1, neg(g)), X, UnitVector3d(0.6000001, 0.48, 0.64)};
            as.push_back(a);
        }
        {   // all around the sphere
            Alphabet a;
            a.name = "around";
            for (int i = 0; i < 11; ++i) a.p.push_back(U(lonlat(2.399963L * i, asinl(1 - (2 * i + 1) / 11.0L))));
            as.push_back(a);
        }
        {   // a cap: many extreme points
            Alphabet a;
            a.name = "cap";
            for (int i = 0; i < 8; ++i) a.p.push_back(U(lonlat(i * LPI / 4 + 0.1L, 0.7L)));
            a.p.push_back(Z);
            a.p.push_back(U(lonlat(0.5L, 0.2L)));
            a.p.push_back(U(lonlat(3.5L, 0.01L)));
            as.push_back(a);
        }
        {   // a great circle through general points, with its mid points, in rounding noise
            Alphabet a;
            a.name = "great circle";
            UnitVector3d p(0.3, 0.5, 0.8), q(-0.7, 0.1, 0.2);
            V3 P1(p), Q(q);
            for (LD t : {-0.2L, 0.0L, 0.2L, 0.4L, 0.6L, 0.8L, 1.0L, 1.3L}) a.p.push_back(U(P1 * (1 - t) + Q * t));
            a.p.push_back(U(cross(P1, Q)));
            a.p.push_back(U(-P1 - Q));
            a.p.push_back(U(V3(0.1L, -0.2L, -0.6L)));
            as.push_back(a);
        }
        {   // the plane x = y exactly, and two of its poles
            Alphabet a;
            a.name = "diagonal plane";
            a.p = {UnitVector3d(1, 1, 0), UnitVector3d(1, 1, 1), UnitVector3d(1, 1, 3), Z, UnitVector3d(-1, -1, 3), UnitVector3d(-1, -1, 0.5), UnitVector3d(-1, -1, -2), UnitVector3d(1, 1, -5), UnitVector3d(1, -1, 0), UnitVector3d(-1, 1, 0), UnitVector3d(1, 2, 1)};
            as.push_back(a);
        }
        for (auto & a : as) {
            // probes: axes, antipodes, edge mid points
            std::vector<Pt> pr;
            gridPoints(pr, 6, 5);
            for (int i = 0; i < a.n(); ++i) for (int j = 0; j < i; ++j) { V3 m = V3(a.p[i]) + V3(a.p[j]); if (norm(m) > 1e-3L) { addPt(pr, m); } }
            for (auto & q : pr) a.probes.push_back(q.u);
            a.prepare();
            int L = (T ? 7 : 5) - less;
            for (int n = 0; n <= L; ++n) {
                mc::section(fmt("lists of %d points", n));
                lists(a, n, false, false);
            }
            // longer lists without repeats
            int M = T ? 9 : 7;
            Alphabet b = a;
            // the long permutations over the first points of the alphabet and over its last ones
            for (int part = 0; part < 2; ++part) {
                Alphabet b;
                b.name = a.name + (part ? " (last)" : " (first)");
                int K = M - less;
                std::vector<UnitVector3d> sub(part ? a.p.end() - K : a.p.begin(), part ? a.p.end() : a.p.begin() + K);
                b.p = sub;
                b.probes = a.probes;
                b.prepare();
                for (int n = L + 1; n <= K; ++n) {
                    mc::section(fmt("permutations of %d points", n));
                    lists(b, n, true, false);
                }
            }
        }
        // the unchecked constructors and the polygon's view of its own parts
        mc::section("constructors");
        if (mc::mine(0)) {
            mc::state();
            for (auto & a : as)
                for (int i = 0; i < a.n(); ++i) for (int j = 0; j < a.n(); ++j) for (int k = 0; k < a.n(); ++k) if (a.at(i, j, k) > 0) {
                    ConvexPolygon t(a.p[i], a.p[j], a.p[k]);
                    mc::trans();
                    uint32_t mask = 1u << i | 1u << j | 1u << k;
                    if (!a.want(mask).ok) mc::fail(fmt("triangle %d %d %d of %s", i, j, k, a.name.c_str()), "oracle");
                    ConvexPolygon h(std::vector<UnitVector3d>{a.p[k], a.p[j], a.p[i]});
                    if (!(t == h)) mc::fail(fmt("triangle %d %d %d of %s", i, j, k, a.name.c_str()), "differs from the hull of its vertices");
                    for (int l = 0; l < a.n(); ++l)
                        if (a.at(j, k, l) > 0 && a.at(k, l, i) > 0 && a.at(l, i, j) > 0) {
                            ConvexPolygon q(a.p[i], a.p[j], a.p[k], a.p[l]);
                            uint32_t mq = mask | 1u << l;
                            if (!a.want(mq).ok || a.want(mq).v.size() != 4) continue;
                            mc::trans();
                            ConvexPolygon hq(std::vector<UnitVector3d>{a.p[k], a.p[i], a.p[l], a.p[j]});
                            if (!(q == hq) || q == t) mc::fail(fmt("quadrilateral %d %d %d %d of %s", i, j, k, l, a.name.c_str()), "differs from the hull of its vertices");
                        }
                }
        }
    });
}
