// C20, library side: evaluates one case of one family of public operations and records every observable result.
// This file is compiled into a shared object together with the library in each build configuration.
#include "lsst/sphgeom/AngleInterval.h"
#include "lsst/sphgeom/BigInteger.h"
#include "lsst/sphgeom/Chunker.h"
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/Matrix3d.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "lsst/sphgeom/Q3cPixelization.h"
#include "lsst/sphgeom/RangeSet.h"
#include "lsst/sphgeom/codec.h"
#include "lsst/sphgeom/curve.h"
#include "lsst/sphgeom/orientation.h"
#include "lsst/sphgeom/utils.h"
#include "zoo.h"
#include "c20.h"
#include <sstream>
using namespace zoo;
using mc::fmt;

namespace {
struct Rec {
    std::vector<uint8_t> * o;
    std::string * what;
    bool T;
    void raw(void const * p, size_t n) { o->insert(o->end(), (uint8_t const *)p, (uint8_t const *)p + n); }
    void i(uint64_t v) { o->push_back('i'); raw(&v, 8); }
    void d(double v) { if (v == 0) v = 0; if (std::isnan(v)) v = NAN; o->push_back('d'); raw(&v, 8); }
    void s(std::string const & v) { o->push_back('s'); uint64_t n = v.size(); raw(&n, 8); raw(v.data(), n); }
    void b(std::vector<uint8_t> const & v) { s(std::string(v.begin(), v.end())); }
    void v(Vector3d const & x) { d(x.x()); d(x.y()); d(x.z()); }
    void c(Circle const & x) { v(x.getCenter()); d(x.getSquaredChordLength()); d(x.getOpeningAngle().asRadians()); }
    void box(Box const & x) { d(x.getLon().getA().asRadians()); d(x.getLon().getB().asRadians()); d(x.getLat().getA().asRadians()); d(x.getLat().getB().asRadians()); }
    void box3(Box3d const & x) { for (auto & q : {x.x(), x.y(), x.z()}) { d(q.getA()); d(q.getB()); } }
    void rs(RangeSet const & x) { i(x.size()); for (auto r : x) { i(std::get<0>(r)); i(std::get<1>(r)); } }
    template <class F> void t(F f) {  // an exception is a result, too
        try { f(); } catch (std::exception const & e) { s(std::string("exception: ") + e.what()); }
    }
};
template <class T> std::string str(T const & x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }

std::vector<double> const & comps(bool T) {
    static std::vector<double> q, t;
    if (q.empty()) {
        q = {0.0, -0.0, 1.0, -1.0, 0.6, -0.8, 1e-8, -3e-9, 1e-160, 5e-324, -1e-310, 1e160, -1.7e308, 0.1, -1.0 / 3, NAN, INFINITY, -INFINITY};
        t = q;
        for (double x : {2.0, 1e-17, 1e-100, -1e-200, 1e100, -2.2250738585072014e-308, 1e-154, -1.5e154, 3.7e15, 1.0000000000000002, -0.9999999999999999, 0.70710678118654757, 7.0}) t.push_back(x);
    }
    return T ? t : q;
}
std::vector<uint32_t> const & words(bool T) {
    static std::vector<uint32_t> q, t;
    if (q.empty()) {
        for (uint32_t i = 0; i < 20; ++i) q.push_back(i);
        for (int b = 0; b < 32; ++b) { q.push_back(1u << b); q.push_back((1u << b) - 1); q.push_back(~(1u << b)); }
        for (uint32_t x : {0xffffffffu, 0xaaaaaaaau, 0x55555555u, 0x12345678u, 0xdeadbeefu, 0x0f0f0f0fu, 0xff00ff00u, 0x7fffffffu}) q.push_back(x);
        t = q;
        for (int b = 0; b < 32; ++b) { t.push_back((1u << b) + 1); t.push_back(3u << b); t.push_back(0x9u << b); t.push_back(0xfffffff0u >> b); t.push_back(0xc0ffee11u >> b); t.push_back(0x5u << b); t.push_back(0x33333333u << b); }
    }
    return T ? t : q;
}
std::vector<Pt> const & points(bool T) {
    static std::vector<Pt> v[2];
    auto & p = v[T];
    if (p.empty()) {
        gridPoints(p, T ? 24 : 12, T ? 13 : 7);
        // cube face edges and diagonals, and their neighborhood
        for (LD e : {0.0L, 1e-16L, -1e-16L, 1e-12L, -1e-9L})
            for (int a : {-1, 1})
                for (int b : {-1, 1})
                    for (LD w : {0.0L, 0.3L, -0.7L, 1.0L})
                        for (int r = 0; r < 3; ++r) {
                            LD q[3] = {a * (1 + e), (LD)b, w};
                            addPt(p, V3(q[r], q[(r + 1) % 3], q[(r + 2) % 3]));
                        }
        // small cells of a deep grid
        for (int k = 2; k < (T ? 31 : 12); ++k)
            for (LD s : {1.0L, -0.37L}) addPt(p, V3(1, s * ldexpl(1, -k), s * s * ldexpl(3, -k - 1))), addPt(p, V3(s * ldexpl(1, -k), ldexpl(0.7L, -k), -1));
    }
    return p;
}
struct Px { char const * n; int k, max; uint64_t root, roots; };
Px const PXS[3] = {{"HTM", 0, 24, 8, 8}, {"Q3C", 1, 30, 0, 6}, {"MQ3C", 2, 30, 10, 6}};
std::unique_ptr<Pixelization> mk(int k, int l) {
    if (k == 0) return std::make_unique<HtmPixelization>(l);
    if (k == 1) return std::make_unique<Q3cPixelization>(l);
    return std::make_unique<Mq3cPixelization>(l);
}
std::vector<P> const & shapes(bool T) {
    static std::vector<P> v[2];
    auto & z = v[T];
    if (z.empty()) {
        z = simple(T);
        auto c = compounds(T);
        z.insert(z.end(), c.begin(), c.end());
    }
    return z;
}
std::vector<P> const & few(bool T) { static std::vector<P> v[2]; if (v[T].empty()) { v[T] = simple(T); auto c = compounds(false); for (size_t i = 0; i < c.size(); i += 3) v[T].push_back(c[i]); } return v[T]; }
std::vector<Pt> const & memb() { static std::vector<Pt> p; if (p.empty()) gridPoints(p, 12, 7); return p; }

void pixel(Rec & r, int k, int l, uint64_t i) {
    auto p = mk(k, l);
    r.t([&] {
        auto q = p->pixel(i);
        r.b(q->encode());
        for (auto & u : static_cast<ConvexPolygon const &>(*q).getVertices()) r.v(u);
    });
    r.t([&] { r.s(p->toString(i)); });
    if (k == 0) {
        r.i(HtmPixelization::level(i));
        r.t([&] { r.s(HtmPixelization::asString(i)); });
        r.t([&] { auto q = HtmPixelization::triangle(i); for (auto & u : q.getVertices()) r.v(u); });
    } else if (k == 1) {
        auto & q = static_cast<Q3cPixelization &>(*p);
        r.t([&] { auto y = q.quad(i); for (auto & u : y.getVertices()) r.v(u); });
        r.t([&] { for (uint64_t n : q.neighborhood(i)) r.i(n); });
    } else {
        r.i(Mq3cPixelization::level(i));
        r.t([&] { r.s(Mq3cPixelization::asString(i)); });
        r.t([&] { auto y = Mq3cPixelization::quad(i); for (auto & u : y.getVertices()) r.v(u); });
        r.t([&] { for (uint64_t n : Mq3cPixelization::neighborhood(i)) r.i(n); });
    }
}

// Each family: number of cases, and the evaluation of one of them.
struct Fam { char const * name; uint64_t (*count)(bool); void (*eval)(uint64_t, Rec &); };

Fam const FAMS[] = {
{"vectors", [](bool T) { uint64_t n = comps(T).size(); return n * n * n; }, [](uint64_t c, Rec & r) {
    auto & a = comps(r.T);
    uint64_t n = a.size();
    Vector3d v(a[c % n], a[c / n % n], a[c / n / n]);
    *r.what = fmt("Vector3d(%a,%a,%a)", v.x(), v.y(), v.z());
    r.d(v.getNorm()); r.d(v.getSquaredNorm()); r.i(v.isZero()); r.i(v.isNormalized());
    r.t([&] { Vector3d w = v; r.d(w.normalize()); r.v(w); r.i(w.isNormalized()); });
    r.t([&] { UnitVector3d u(v); r.v(u); LonLat p(u); r.d(p.getLon().asRadians()); r.d(p.getLat().asRadians()); });
    r.t([&] { LonLat p(v); r.d(p.getLon().asRadians()); r.d(p.getLat().asRadians()); });
    r.t([&] { r.v(UnitVector3d::northFrom(v)); });
    r.t([&] { r.v(UnitVector3d::orthogonalTo(v)); });
    r.t([&] { r.v(UnitVector3d::orthogonalTo(v, Vector3d(0.3, -1, 0.2))); });
    r.v(v.cross(Vector3d(0.3, -1, 0.2))); r.d(v.dot(Vector3d(0.3, -1, 0.2)));
    r.t([&] { r.d(NormalizedAngle(LonLat::fromRadians(0.1, 0.2), LonLat(v)).asRadians()); });
    r.t([&] { UnitVector3d u(v); r.v(u.rotatedAround(UnitVector3d(0.3, -1, 0.2), Angle(1.25))); r.v(v.rotatedAround(UnitVector3d(0.3, -1, 0.2), Angle(1.25))); });
    r.s(str(v));
}},
{"angles", [](bool T) { return (uint64_t)comps(T).size() * comps(T).size(); }, [](uint64_t c, Rec & r) {
    auto & a = comps(r.T);
    double x = a[c % a.size()], y = a[c / a.size()];
    *r.what = fmt("angles %a, %a", x, y);
    r.d(NormalizedAngle(x).asRadians()); r.d(NormalizedAngle::fromDegrees(x).asRadians());
    r.d(NormalizedAngle::between(NormalizedAngle(x), NormalizedAngle(y)).asRadians());
    r.d(NormalizedAngle::center(NormalizedAngle(x), NormalizedAngle(y)).asRadians());
    r.t([&] { r.v(UnitVector3d(Angle(x), Angle(y))); });
    r.t([&] { LonLat p = LonLat::fromRadians(x, y); r.v(UnitVector3d(p)); });
    r.d(sin(Angle(x))); r.d(cos(Angle(x)));
    r.d(Circle::squaredChordLengthFor(Angle(x))); r.d(Circle::openingAngleFor(x).asRadians());
}},
{"curves", [](bool T) { return (uint64_t)words(T).size() * words(T).size(); }, [](uint64_t c, Rec & r) {
    auto & w = words(r.T);
    uint32_t x = w[c % w.size()], y = w[c / w.size()];
    *r.what = fmt("grid coordinates %u, %u", x, y);
    uint64_t z = mortonIndex(x, y);
    r.i(z);
    uint32_t p, q;
    std::tie(p, q) = mortonIndexInverse(z);
    r.i(p); r.i(q);
    uint64_t h = ((uint64_t)x << 32) | y;
    std::tie(p, q) = mortonIndexInverse(h);
    r.i(p); r.i(q);
    r.i(log2(x)); r.i(log2(h));
    for (int m = 0; m <= 32; ++m) {
        uint32_t mask = m == 32 ? ~0u : (1u << m) - 1;
        uint64_t mm = m == 32 ? ~0ull : (1ull << 2 * m) - 1;
        r.i(hilbertIndex(x & mask, y & mask, m));
        r.i(mortonToHilbert(z & mm, m)); r.i(hilbertToMorton(h & mm, m));
        std::tie(p, q) = hilbertIndexInverse(h & mm, m);
        r.i(p); r.i(q);
    }
}},
{"small curves", [](bool T) { return (uint64_t)1 << (T ? 16 : 12); }, [](uint64_t c, Rec & r) {
    *r.what = fmt("curve index %llu", (unsigned long long)c);
    uint32_t p, q;
    std::tie(p, q) = mortonIndexInverse(c);
    r.i(p); r.i(q);
    for (int m = 1; m <= 8; ++m) {
        uint64_t mm = (1ull << 2 * m) - 1;
        std::tie(p, q) = hilbertIndexInverse(c & mm, m);
        r.i(p); r.i(q); r.i(hilbertIndex(p, q, m)); r.i(hilbertToMorton(c & mm, m)); r.i(mortonToHilbert(c & mm, m));
    }
    r.i(log2((uint64_t)c)); r.i(log2((uint32_t)c));
}},
{"orientation", [](bool T) { uint64_t n = T ? 60 : 30; return n * n * n; }, [](uint64_t c, Rec & r) {
    static std::vector<UnitVector3d> g;
    if (g.empty()) {
        for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z) if (x || y || z) g.push_back(UnitVector3d(x, y, z));
        for (double e : {1e-17, 1e-9}) g.push_back(UnitVector3d(1, e, 0)), g.push_back(UnitVector3d(1, e, e));
        for (int k = 0; g.size() < 60; ++k) g.push_back(U(V3(cosl(k), sinl(k * 1.3L), (k % 5) * 1e-9L)));
        std::swap(g[5], g[29]);
    }
    uint64_t n = r.T ? 60 : 30;
    auto &a = g[c % n], &b = g[c / n % n], &d = g[c / n / n];
    *r.what = fmt("vectors %llu", (unsigned long long)c);
    r.i(orientation(a, b, d) + 2); r.i(orientationExact(a, b, d) + 2);
    if (c / n / n == 0) { r.i(orientationX(a, b) + 2); r.i(orientationY(a, b) + 2); r.i(orientationZ(a, b) + 2); r.v(a.robustCross(b)); }
    r.d(getMinSquaredChordLength(a, b, d, b.robustCross(d))); r.d(getMaxSquaredChordLength(a, b, d, b.robustCross(d)));
    r.v(getWeightedCentroid(a, b, d));
}},
{"pixel of a point", [](bool T) { return (uint64_t)points(T).size() * 31; }, [](uint64_t c, Rec & r) {
    auto & p = points(r.T)[c / 31];
    int l = (int)(c % 31);
    *r.what = fmt("level %d, v=(%a,%a,%a)", l, p.u.x(), p.u.y(), p.u.z());
    for (auto & x : PXS) {
        if (l > x.max) continue;
        uint64_t i = mk(x.k, l)->index(p.u);
        r.i(i);
        pixel(r, x.k, l, i);
    }
}},
{"pixels", [](bool T) { return T ? (uint64_t)8 << 14 : 8 << 10; }, [](uint64_t c, Rec & r) {
    *r.what = fmt("pixel number %llu", (unsigned long long)c);
    for (auto & x : PXS)
        for (int l = 0; l <= (r.T ? 7 : 5); ++l) {
            uint64_t n = x.roots << 2 * l;
            if (c <= n + 3) pixel(r, x.k, l, (x.root << 2 * l) + c);  // includes some that do not exist
            if (c < x.roots * 4 && l > 0) { int dl = x.max - l; uint64_t base = ((x.root + c / 4) << 2 * dl); pixel(r, x.k, dl, base + (c % 4) * ((1ull << 2 * dl) - 1) / 3); }
        }
}},
{"regions", [](bool T) { return (uint64_t)shapes(T).size(); }, [](uint64_t c, Rec & r) {
    Sh const & s = *shapes(r.T)[c];
    *r.what = s.name;
    r.b(s.r->encode()); r.box(s.r->getBoundingBox()); r.box3(s.r->getBoundingBox3d()); r.c(s.r->getBoundingCircle());
    for (auto & p : memb()) r.i(s.r->contains(p.u));
    std::vector<Pt> b;
    boundaryPoints(s, b, 1, false);
    for (auto & p : b) r.i(s.r->contains(p.u));
    r.i(s.r->contains(0.3, -1.0)); r.t([&] { r.i(s.r->contains(3.0, -1.0, 1e-3)); });
    auto k = s.r->clone();
    r.b(k->encode());
    std::string os;
    if (auto q = dynamic_cast<Circle *>(k.get())) { r.s(str(*q)); r.d(q->getArea()); for (double e : {0.1, -0.1}) r.c(q->dilatedBy(Angle(e))); r.c(q->complemented()); }
    if (auto q = dynamic_cast<Box *>(k.get())) { r.s(str(*q)); r.d(q->getArea()); for (double e : {0.1, -0.1, 2.0}) r.box(q->dilatedBy(Angle(e))); r.i(q->isEmpty()); r.d(q->getCenter().getLon().asRadians()); }
    if (auto q = dynamic_cast<Ellipse *>(k.get())) { r.s(str(*q)); r.b(q->complemented().encode()); }
    if (auto q = dynamic_cast<ConvexPolygon *>(k.get())) { r.s(str(*q)); r.v(q->getCentroid()); r.b(ConvexPolygon::convexHull(q->getVertices()).encode()); }
}},
{"pairs of regions", [](bool T) { return (uint64_t)few(T).size() * few(T).size(); }, [](uint64_t c, Rec & r) {
    auto & z = few(r.T);
    Sh const &a = *z[c % z.size()], &b = *z[c / z.size()];
    *r.what = a.name + ", " + b.name;
    r.i(a.r->relate(*b.r).to_ulong());
    auto ca = dynamic_cast<Circle *>(a.r.get()), cb = dynamic_cast<Circle *>(b.r.get());
    if (ca && cb) { r.c(ca->clippedTo(*cb)); r.c(ca->expandedTo(*cb)); r.i(ca->contains(*cb)); r.i(ca->isDisjointFrom(*cb)); }
    auto ba = dynamic_cast<Box *>(a.r.get()), bb = dynamic_cast<Box *>(b.r.get());
    if (ba && bb) { r.box(ba->clippedTo(*bb)); r.box(ba->expandedTo(*bb)); r.i(ba->contains(*bb)); r.i(ba->isDisjointFrom(*bb)); r.i(*ba == *bb); }
    UnionRegion u(*a.r, *b.r);
    r.b(u.encode());
    r.c(u.getBoundingCircle());
}},
{"envelopes", [](bool T) { return (uint64_t)few(T).size() * (T ? 7 : 5) * 3; }, [](uint64_t c, Rec & r) {
    auto & z = few(r.T);
    int k = c % 3, l = (int)(c / 3 % (r.T ? 7 : 5));
    Sh const & s = *z[c / 3 / (r.T ? 7 : 5)];
    *r.what = fmt("%s level %d ", PXS[k].n, l) + s.name;
    auto p = mk(k, l);
    for (size_t cap : {0, 1, 2, 5}) { r.rs(p->envelope(*s.r, cap)); r.rs(p->interior(*s.r, cap)); }
    r.rs(p->universe());
}},
{"chunks", [](bool T) { return (uint64_t)few(T).size() * (T ? 5 : 3); }, [](uint64_t c, Rec & r) {
    static int const CF[5][2] = {{3, 2}, {18, 4}, {1, 1}, {85, 12}, {7, 5}};
    Chunker ch(CF[c % (r.T ? 5 : 3)][0], CF[c % (r.T ? 5 : 3)][1]);
    Sh const & s = *few(r.T)[c / (r.T ? 5 : 3)];
    *r.what = fmt("chunker %d,%d ", ch.getNumStripes(), ch.getNumSubStripesPerStripe()) + s.name;
    auto q = ch.getChunksIntersecting(*s.r);
    for (int i : q) r.i(i);
    for (auto & x : ch.getSubChunksIntersecting(*s.r)) { r.i(x.chunkId); for (int i : x.subChunkIds) r.i(i); }
    for (int i : q) { int st = ch.getStripe(i); r.i(st); r.i(ch.getChunk(i, st)); r.i(ch.valid(i)); r.box(ch.getChunkBoundingBox(st, ch.getChunk(i, st))); for (int j : ch.getAllSubChunks(i)) r.i(j); if (r.o->size() > 200000) break; }
}},
{"numbers as bytes", [](bool T) { return (uint64_t)comps(T).size() + words(T).size() * 2; }, [](uint64_t c, Rec & r) {
    std::vector<uint8_t> b;
    if (c < comps(r.T).size()) {
        double v = comps(r.T)[c];
        *r.what = fmt("encodeDouble(%a)", v);
        encodeDouble(v, b);
    } else {
        c -= comps(r.T).size();
        auto & w = words(r.T);
        uint64_t v = c & 1 ? (uint64_t)w[c / 2] << 32 | w[(c / 2 * 7) % w.size()] : w[c / 2];
        *r.what = fmt("encodeU64(%llu)", (unsigned long long)v);
        encodeU64(v, b);
    }
    r.b(b);
    r.d(decodeDouble(b.data())); r.i(decodeU64(b.data()));
}},
{"range sets", [](bool T) { return (uint64_t)1 << (T ? 14 : 12); }, [](uint64_t c, Rec & r) {
    *r.what = fmt("range sets %llu", (unsigned long long)c);
    auto set = [](uint64_t m) { RangeSet s; for (int i = 0; i < 7; ++i) if (m >> i & 1) s.insert(i == 6 ? ~0ull - 1 : i * 3, i == 6 ? 0 : i * 3 + 2 + (i & 1)); return s; };
    RangeSet a = set(c & 127), b = set(c >> 6 & 127);
    r.rs(a | b); r.rs(a & b); r.rs(a - b); r.rs(a ^ b); r.rs(~a); r.i(a.contains(b)); r.i(a.intersects(b)); r.i(a == b); r.i(a.cardinality());
    RangeSet q = a; q.simplify(1); r.rs(q); q.scale(4); r.rs(q); r.rs(a.simplified(2)); r.s(str(a));
}},
};
}  // namespace

extern "C" {
char const * c20_config() {
    static std::string s = fmt("%s%s, %s curve and pixel code, %s byte order code",
#ifdef __clang__
        "clang ", __clang_version__,
#else
        "gcc ", __VERSION__,
#endif
#if defined(NO_SIMD) || !defined(__x86_64__)
        "plain",
#else
        "vectorised",
#endif
#ifdef OPTIMIZED_LITTLE_ENDIAN
        "optimized"
#else
        "portable"
#endif
    );
    return s.c_str();
}
int c20_families() { return sizeof FAMS / sizeof *FAMS; }
char const * c20_name(int f) { return FAMS[f].name; }
uint64_t c20_count(int f, int T) { return FAMS[f].count(T); }
void c20_eval(int f, int T, uint64_t c, std::vector<uint8_t> * out, std::string * what) {
    out->clear(); what->clear();
    Rec r{out, what, T != 0};
    try { FAMS[f].eval(c, r); } catch (std::exception const & e) { r.s(std::string("exception: ") + e.what()); }
}
// Number of regions whose encodings are exchanged, the encoding of one, and the view of a decoded one.
uint64_t c20_regions(int T) { return shapes(T).size(); }
void c20_encode(int T, uint64_t i, std::vector<uint8_t> * out, std::string * what) { *out = shapes(T)[i]->r->encode(); *what = shapes(T)[i]->name; }
int c20_decode(int T, std::vector<uint8_t> const * in, std::vector<uint8_t> * out) {
    out->clear();
    std::string w;
    Rec r{out, &w, T != 0};
    try {
        auto q = Region::decode(*in);
        r.b(q->encode()); r.box(q->getBoundingBox()); r.c(q->getBoundingCircle()); r.box3(q->getBoundingBox3d());
        for (auto & p : memb()) r.i(q->contains(p.u));
        auto g = Region::getRegions(*q);
        r.i(g.size());
        for (auto & x : g) r.b(x->encode());
        return 1;
    } catch (std::exception const & e) { r.s(std::string("exception: ") + e.what()); }
    return 0;
}
}
