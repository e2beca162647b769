// C16: the HTM, Q3C and modified-Q3C pixelizations as partitions of the sphere.
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "lsst/sphgeom/Q3cPixelization.h"
#include "lsst/sphgeom/RangeSet.h"
#include "zoo.h"
using namespace zoo;
using mc::fmt;
#ifdef __SANITIZE_ADDRESS__
static bool const ASAN = true;
#else
static bool const ASAN = false;
#endif
typedef unsigned long long ull;
struct Px {
    char const * name; int kind, maxLevel; uint64_t root0, nroots;
    std::unique_ptr<Pixelization> make(int l) const {
        if (kind == 0) return std::make_unique<HtmPixelization>(l);
        if (kind == 1) return std::make_unique<Q3cPixelization>(l);
        return std::make_unique<Mq3cPixelization>(l);
    }
    uint64_t first(int l) const { return root0 << (2 * l); }
    uint64_t end(int l) const { return (root0 + nroots) << (2 * l); }   // 0 stands for 2^64
    bool has(int l, uint64_t i) const { return (i >> 2 * l) >= root0 && (i >> 2 * l) < root0 + nroots; }
};
static Px const PX[3] = {{"HTM", 0, 24, 8, 8}, {"Q3C", 1, 30, 0, 6}, {"MQ3C", 2, 30, 10, 6}};

static std::string show(UnitVector3d const & v) { return fmt("(%a,%a,%a)", v.x(), v.y(), v.z()); }
struct Poly { std::vector<V3> v, n; };
static Poly polyOf(Region const & r) {
    Poly p;
    auto c = dynamic_cast<ConvexPolygon const *>(&r);
    if (!c) return p;
    for (auto & u : c->getVertices()) p.v.push_back(V3(u));
    for (size_t i = 0; i < p.v.size(); ++i) p.n.push_back(normalOf(p.v[i], p.v[(i + 1) % p.v.size()]));
    return p;
}
static LD clear(Poly const & p, V3 const & q) {
    LD m = 9;
    for (auto & n : p.n) m = std::min(m, dot(n, q));
    return m;
}
static LD area(Poly const & p) {  // exact enough: triangle fan by the tangent formula
    LD s = 0;
    for (size_t i = 1; i + 1 < p.v.size(); ++i) {
        V3 a = unit(p.v[0]), b = unit(p.v[i]), c = unit(p.v[i + 1]);
        s += 2 * atan2l(dot(a, cross(b, c)), 1 + dot(a, b) + dot(b, c) + dot(c, a));
    }
    return s;
}
static double ulps(double x, int n) {
    for (; n > 0; --n) x = std::nextafter(x, 9.0);
    for (; n < 0; ++n) x = std::nextafter(x, -9.0);
    return x;
}

// One vector at one level (or all levels).
static void vec(Px const & px, UnitVector3d const & v, std::string const & what, int lo, int hi) {
    uint64_t prev = 0;
    bool have = false;
    for (int l = lo; l <= hi; ++l) {
        auto p = px.make(l);
        uint64_t i = p->index(v);
        mc::trans();
        std::string k = fmt("%s level %d %s", px.name, l, what.c_str());
        if (!px.has(l, i)) { mc::fail(k + " index", fmt("%llu is not in the universe; ", (ull)i) + show(v)); return; }
        if (have && (i >> 2) != prev) mc::fail(k + " parent", fmt("index %llu is not a child of %llu; ", (ull)i, (ull)prev) + show(v));
        prev = i; have = true;
        auto r = p->pixel(i);
        if (!r->contains(v)) {
            LD c = clear(polyOf(*r), V3(v));
            mc::outcome("pixel(index(v)) excludes v by rounding");
            // (the regions of the cube pixels are dilated to contain every vector exactly)
            if (px.kind != 0 || !(c > -1e-15L)) mc::fail(k + " pixel", fmt("pixel(%llu) does not contain the vector, off by %Lg; ", (ull)i, -c) + show(v));
        }
    }
}
// The face and quadrant digits of an index, decoded from its string form.
static bool parse(Px const & px, int l, std::string const & s, uint64_t & out) {
    uint64_t i;
    size_t at = 2;
    if (px.kind == 0) {
        if (s.size() != (size_t)l + 2 || (s[0] != 'N' && s[0] != 'S') || s[1] < '0' || s[1] > '3') return false;
        i = 8 + (s[0] == 'N' ? 4 : 0) + (s[1] - '0');
    } else {
        if (s.size() != (size_t)l + 2) return false;
        static char const * Q[6] = {"+Z", "+X", "+Y", "-X", "-Y", "-Z"}, * M[6] = {"-Z", "+X", "+Y", "+Z", "-X", "-Y"};
        i = 99;
        for (uint64_t f = 0; f < 6; ++f) if (s.substr(0, 2) == (px.kind == 1 ? Q[f] : M[f])) i = f + px.root0;
        if (i == 99) return false;
    }
    for (; at < s.size(); ++at) {
        if (s[at] < '0' || s[at] > '3') return false;
        i = i * 4 + (s[at] - '0');
    }
    out = i;
    return true;
}
static bool rejects(std::function<void()> f) {
    try { f(); } catch (std::invalid_argument const &) { return true; } catch (std::exception const &) { return false; }
    return false;
}
// One index. Returns the pixel's area.
static LD pix(Px const & px, Pixelization const & p, int l, uint64_t i, bool deep) {
    std::string k = fmt("%s level %d index %llu", px.name, l, (ull)i);
    mc::trans();
    auto r = p.pixel(i);
    Poly q = polyOf(*r);
    size_t n = px.kind == 0 ? 3 : 4;
    if (q.v.size() != n) { mc::fail(k + " pixel", fmt("%zu vertices", q.v.size())); return 0; }
    LD tiny = 1e-17L;
    for (size_t a = 0; a < n; ++a) {
        V3 d = q.v[(a + 1) % n], e = q.v[(a + 2) % n];
        if (dot(q.n[a], e) <= tiny || fabsl(norm(d) - 1) > 4e-16L) { mc::fail(k + " pixel", "vertices are not unit vectors in counter-clockwise order"); return 0; }
    }
    V3 c = q.v[0];
    for (size_t a = 1; a < n; ++a) c = c + q.v[a];
    if (p.index(U(c)) != i) mc::fail(k + " center", fmt("index of the center is %llu", (ull)p.index(U(c))));
    if (static_cast<ConvexPolygon const &>(*r).getCentroid().dot(U(c)) <= 0) mc::fail(k + " centroid");
    else if (l <= 20 && p.index(static_cast<ConvexPolygon const &>(*r).getCentroid()) != i) mc::fail(k + " centroid", fmt("index of the centroid is %llu", (ull)p.index(static_cast<ConvexPolygon const &>(*r).getCentroid())));
    if (deep) {  // points in the interior belong to no other pixel
        for (size_t a = 0; a < n; ++a)
            for (LD f : {0.02L, 0.3L, 0.9L})
                for (LD g : {0.05L, 0.6L}) {
                    V3 b = q.v[a] * (1 - f) + q.v[(a + 1) % n] * f;
                    UnitVector3d u = U(unit(b) * (1 - g) + unit(c) * g);
                    LD s = clear(q, V3(u));
                    mc::trans();
                    if (s > 1e-14L && p.index(u) != i) mc::fail(k + fmt(" interior point %zu %Lg %Lg", a, f, g), fmt("belongs to %llu", (ull)p.index(u)));
                }
    }
    // the children tile the parent: each child's center lies in the parent
    if (l > 0) {
        auto pp = px.make(l - 1);
        auto rp = pp->pixel(i >> 2);
        if (clear(polyOf(*rp), unit(c)) <= 0) mc::fail(k + " parent", "the parent pixel does not contain the center");
    }
    // string form
    std::string s = p.toString(i);
    uint64_t j;
    if (!parse(px, l, s, j) || j != i) mc::fail(k + " toString", s);
    if (px.kind == 0 && HtmPixelization::asString(i) != s) mc::fail(k + " asString");
    if (px.kind == 2 && Mq3cPixelization::asString(i) != s) mc::fail(k + " asString");
    if (px.kind == 0 && HtmPixelization::level(i) != l) mc::fail(k + " level", fmt("%d", HtmPixelization::level(i)));
    if (px.kind == 2 && Mq3cPixelization::level(i) != l) mc::fail(k + " level", fmt("%d", Mq3cPixelization::level(i)));
    if (px.kind == 0 && !(HtmPixelization::triangle(i) == static_cast<ConvexPolygon const &>(*r))) mc::fail(k + " triangle");
    if (px.kind == 1 && !(static_cast<Q3cPixelization const &>(p).quad(i) == static_cast<ConvexPolygon const &>(*r))) mc::fail(k + " quad");
    if (px.kind == 2 && !(Mq3cPixelization::quad(i) == static_cast<ConvexPolygon const &>(*r))) mc::fail(k + " quad");
    return area(q);
}
static void invalid(Px const & px, int l, uint64_t i) {
    auto p = px.make(l);
    std::string k = fmt("%s level %d index %llu", px.name, l, (ull)i);
    bool in = px.has(l, i);
    mc::trans();
    int own = -1;  // the level that the index itself says
    for (int q = 0; q <= 30; ++q) if (px.kind != 1 && px.has(q, i)) own = q;
    if (px.kind == 1) {
        auto const & q = static_cast<Q3cPixelization const &>(*p);
        if (rejects([&] { p->pixel(i); }) == in) mc::fail(k + " pixel", in ? "rejected" : "accepted");
        if (rejects([&] { q.quad(i); }) == in) mc::fail(k + " quad", in ? "rejected" : "accepted");
        if (rejects([&] { p->toString(i); }) == in) mc::fail(k + " toString", in ? "rejected" : "accepted");
        return;
    }
    bool ok = own >= 0 && own <= px.maxLevel;
    int lv = px.kind == 0 ? HtmPixelization::level(i) : Mq3cPixelization::level(i);
    // indexes of deeper levels than are supported may be reported as such
    if (ok ? lv != own : (lv >= 0 && lv <= px.maxLevel)) mc::fail(fmt("%s level(%llu)", px.name, (ull)i), fmt("%d, expected %d", lv, own));
    if (own < 0 && lv != -1) mc::fail(fmt("%s level(%llu)", px.name, (ull)i), fmt("%d, expected -1", lv));
    if (rejects([&] { if (px.kind == 0) HtmPixelization::asString(i); else Mq3cPixelization::asString(i); }) == ok) mc::fail(k + " asString", ok ? "rejected" : "accepted");
    if (rejects([&] { if (px.kind == 0) HtmPixelization::triangle(i); else Mq3cPixelization::quad(i); }) == ok) mc::fail(k + " triangle/quad", ok ? "rejected" : "accepted");
    if (in && rejects([&] { p->pixel(i); })) mc::fail(k + " pixel", "rejected");
    // an index of another level may be understood as such, but nothing else
    if (!in && !(px.kind == 0 && ok) && !rejects([&] { p->pixel(i); })) mc::fail(k + " pixel", "accepted");
}

int main(int argc, char ** argv) {
    return mc::run(argc, argv, [] {
        bool T = mc::thorough();
        uint64_t idx = 0;
        // ---- vectors with tied, zero and nearly tied components
        mc::section("tied vectors");
        {
            std::vector<double> m = {0.0, -0.0, 5e-324, 1e-300, 1e-17, 1e-9, 0.25, 0.5, 0.57735026918962573, 0.70710678118654757, 1.0};
            std::vector<double> c;
            for (double x : m) {
                c.push_back(x);
                if (x > 0) c.push_back(-x);
                if (x > 0.1) for (int u : {-1, 1}) { c.push_back(ulps(x, u)); c.push_back(-ulps(x, u)); }
            }
            for (double x : c) for (double y : c) {
                if (!mc::mine(idx++)) continue;
                mc::at(idx); mc::state();
                for (double z : c) {
                    if (x == 0 && y == 0 && z == 0) continue;
                    if (std::fabs(x) < 0.2 && std::fabs(y) < 0.2 && std::fabs(z) < 0.2) continue;
                    UnitVector3d v(x, y, z);
                    for (auto & px : PX) {
                        vec(px, v, fmt("vector (%a,%a,%a)", x, y, z), 0, 3);
                        if (T || !ASAN) vec(px, v, fmt("vector (%a,%a,%a)", x, y, z), px.maxLevel - 1, px.maxLevel);
                    }
                    // exactly as given, when it is unit enough
                    double n = std::sqrt(x * x + y * y + z * z);
                    if (std::fabs(n - 1) < 3e-16)
                        for (auto & px : PX) vec(px, UnitVector3d::fromNormalized(x, y, z), fmt("raw (%a,%a,%a)", x, y, z), 0, 3);
                }
            }
        }
        // ---- general vectors at all levels
        mc::section("all levels");
        {
            std::vector<Pt> pts;
            gridPoints(pts, T ? 96 : 24, T ? 48 : 12);
            for (auto & q : pts) {
                if (!mc::mine(idx++)) continue;
                if (ASAN && idx % 3) continue;
                mc::at(idx); mc::state();
                for (auto & px : PX) vec(px, q.u, "vector " + show(q.u), 0, px.maxLevel);
            }
        }
        // ---- every pixel of the coarse levels, its corners and edges in rounding detail
        for (auto & px : PX) {
            int L = T ? 8 : ASAN ? 4 : 6;
            for (int l = 0; l <= L; ++l) {
                mc::section(fmt("%s all pixels", px.name));
                auto p = px.make(l);
                RangeSet u = p->universe();
                if (mc::mine(idx++)) {
                    if (!(u == RangeSet(px.first(l), px.end(l)))) mc::fail(fmt("%s universe at level %d", px.name, l));
                    uint64_t n = px.end(l) - px.first(l);
                    if (u.cardinality() != n) mc::fail(fmt("%s universe size at level %d", px.name, l));
                }
                bool detail = l <= (T ? 5 : 3);
                for (uint64_t i = px.first(l); i < px.end(l); ++i) {
                    if (!mc::mine(i)) continue;
                    mc::at(px.kind, l, i); mc::state();
                    pix(px, *p, l, i, detail || l <= 5);
                    if (!detail) continue;
                    Poly q = polyOf(*p->pixel(i));
                    size_t n = q.v.size();
                    for (size_t a = 0; a < n; ++a)
                        for (LD f : {0.0L, 0.5L, 0.123L}) {
                            UnitVector3d b = U(q.v[a] * (1 - f) + q.v[(a + 1) % n] * f);
                            for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) {
                                if (ASAN && (x * y * z == 0)) continue;
                                vec(px, UnitVector3d::fromNormalized(ulps(b.x(), x), ulps(b.y(), y), ulps(b.z(), z)), fmt("pixel %llu side %zu at %Lg %+d%+d%+d", (ull)i, a, f, x, y, z), std::max(0, l - 1), l + 1);
                            }
                        }
                }
                // total area: with the interiors disjoint (above), the pixels cover the sphere exactly once
                if (mc::mine(idx++) && l <= 6) {
                    LD s = 0;
                    for (uint64_t i = px.first(l); i < px.end(l); ++i) s += area(polyOf(*p->pixel(i)));
                    mc::trace();
                    if (fabsl(s - 4 * LPI) > 1e-12L * (1 << l)) mc::fail(fmt("%s area at level %d", px.name, l), fmt("%.15Lf", s));
                }
            }
        }
        // ---- deep indexes: all prefixes x fill patterns x suffixes
        for (auto & px : PX) {
            mc::section(fmt("%s deep pixels", px.name));
            int pre = T ? 3 : 2, suf = T ? 2 : 1;
            for (int l = 7; l <= px.maxLevel; ++l) {
                auto p = px.make(l);
                for (uint64_t f = 0; f < px.nroots; ++f)
                    for (uint64_t a = 0; a < (1ull << 2 * pre); ++a) {
                        if (!mc::mine(idx++)) continue;
                        if (ASAN && (a + l) % 5) continue;
                        mc::at(px.kind, l, f, a); mc::state();
                        for (uint64_t fill : {0x0000000000000000ull, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0xffffffffffffffffull, 0x1b1b1b1b1b1b1b1bull, 0x2718281828459045ull})
                            for (uint64_t b = 0; b < (1ull << 2 * suf); ++b) {
                                int m = 2 * (l - pre - suf);
                                uint64_t mid = m > 0 ? fill & ((1ull << m) - 1) : 0;
                                uint64_t i = ((px.root0 + f) << 2 * l) | (a << (2 * (l - pre))) | (mid << (2 * suf)) | b;
                                pix(px, *p, l, i, l < 25);
                                // pixel corners belong somewhere next to here
                                Poly q = polyOf(*p->pixel(i));
                                for (size_t c = 0; c < q.v.size(); ++c) {
                                    vec(px, U(q.v[c]), fmt("corner %zu of %llu", c, (ull)i), l, l);
                                    vec(px, U(q.v[c] + q.v[(c + 1) % q.v.size()]), fmt("edge %zu of %llu", c, (ull)i), l, l);
                                }
                            }
                    }
            }
        }
        // ---- invalid indexes and levels
        mc::section("invalid");
        for (auto & px : PX) {
            if (mc::mine(idx++)) {
                mc::state();
                for (int l : {-1, -2, px.maxLevel + 1, px.maxLevel + 2, 31, 32, 64, 100, -2147483647 - 1, 2147483647}) {
                    if (l >= 0 && l <= px.maxLevel) continue;
                    mc::trans();
                    if (!rejects([&] { px.make(l); })) mc::fail(fmt("%s of level %d", px.name, l), "accepted");
                }
                for (int l = 0; l <= px.maxLevel; ++l) if (rejects([&] { px.make(l); })) mc::fail(fmt("%s of level %d", px.name, l), "rejected");
            }
            std::vector<uint64_t> bad;
            for (uint64_t i = 0; i < (T ? 20000u : 3000u); ++i) bad.push_back(i);
            for (int b = 0; b < 64; ++b) for (int d = -3; d <= 3; ++d) { bad.push_back((1ull << b) + d); bad.push_back(-(1ull << b) + d); }
            for (int l = 0; l <= px.maxLevel + 4; ++l)
                for (uint64_t f = 0; f <= 16; ++f) for (int d = -1; d <= 1; ++d) { if (2 * l + 4 < 64) bad.push_back((f << 2 * l) + d); }
            for (uint64_t i : bad) {
                if (!mc::mine(idx++)) continue;
                mc::at(px.kind, i); mc::state();
                for (int l : {0, 1, 2, 5, 11, px.maxLevel - 1, px.maxLevel}) invalid(px, l, i);
            }
            // indexes that differ from one of the universe in a single bit, or
            // in all bits that do not fit in 32 or 16 bits
            for (int l = 0; l <= px.maxLevel; ++l) {
                uint64_t const m = (1ull << 2 * l) - 1;
                for (uint64_t f = 0; f < 16; ++f) for (uint64_t z : {uint64_t(0), m, m & uint64_t(0x1b1b1b1b1b1b1b1b)}) {
                    uint64_t const i = (f << 2 * l) | z;
                    if (!px.has(l, i) || !mc::mine(idx++)) continue;
                    mc::at(px.kind, l, i); mc::state();
                    for (int b = 0; b < 64; ++b) { invalid(px, l, i ^ (1ull << b)); invalid(px, l, i | (1ull << b) | (1ull << 63)); }
                    for (int b = 2 * l + 4; b < 64; ++b) invalid(px, l, i + (i << b));
                }
            }
        }
    });
}
