// C24: read-only operations are pure. Every operation, every history of two (three) of them and every pair of them on
// two threads is explored; each exploration starts from the same cold process image (a forked copy of this one).
//
// Two threads: each operation is first executed alone and every access to memory that it did not allocate itself is
// recorded. If two operations do not access common memory in conflicting ways, all their interleavings are equivalent
// to running one after the other (which is executed). Otherwise all interleavings at the conflicting accesses are
// executed, up to a number of preemptions.
#include "lsst/sphgeom/AngleInterval.h"
#include "lsst/sphgeom/BigInteger.h"
#include "lsst/sphgeom/Chunker.h"
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/Matrix3d.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "lsst/sphgeom/Q3cPixelization.h"
#include "lsst/sphgeom/RangeSet.h"
#include "lsst/sphgeom/curve.h"
#include "lsst/sphgeom/orientation.h"
#include "lsst/sphgeom/utils.h"
#include "zoo.h"
#include "c24_rt.h"
#include <array>
#include <deque>
#include <mutex>
#include <set>
#include <sstream>
#include <sys/wait.h>
using namespace zoo;
using mc::fmt;

typedef std::vector<uint8_t> Bytes;
struct Rec {
    Bytes o;
    void raw(void const * p, size_t n) { o.insert(o.end(), (uint8_t const *)p, (uint8_t const *)p + n); }
    void i(uint64_t v) { raw(&v, 8); }
    void d(double v) { if (v == 0) v = 0; if (std::isnan(v)) v = NAN; raw(&v, 8); }
    void s(std::string const & v) { i(v.size()); raw(v.data(), v.size()); }
    void b(Bytes const & v) { i(v.size()); raw(v.data(), v.size()); }
    void v(Vector3d const & x) { d(x.x()); d(x.y()); d(x.z()); }
    void c(Circle const & x) { v(x.getCenter()); d(x.getSquaredChordLength()); d(x.getOpeningAngle().asRadians()); }
    void box(Box const & x) { d(x.getLon().getA().asRadians()); d(x.getLon().getB().asRadians()); d(x.getLat().getA().asRadians()); d(x.getLat().getB().asRadians()); }
    void box3(Box3d const & x) { d(x.x().getA()); d(x.x().getB()); d(x.y().getA()); d(x.y().getB()); d(x.z().getA()); d(x.z().getB()); }
    void rs(RangeSet const & x) { i(x.size()); for (auto r : x) { i(std::get<0>(r)); i(std::get<1>(r)); } }
    template <class F> void t(F f) { try { f(); } catch (std::exception const & e) { s(std::string("exception: ") + e.what()); } }
};
struct Op { std::string name; std::function<void(Rec &)> f; };
static std::vector<Op> ops;
static int sel[4];
static rt::Shared * S;

static void body(int k) {
    Rec r;
    Op const & op = ops[sel[k]];
    r.t([&] { op.f(r); });
    rt::store(S, k, r.o.data(), r.o.size(), op.name.c_str());
}
// ---------------------------------------------------------------- objects shared by the operations
struct World {
    std::vector<P> z;
    std::vector<std::shared_ptr<Pixelization>> px;
    std::vector<std::string> pxn;
    std::shared_ptr<Chunker> ch, ch2;
    std::vector<std::shared_ptr<Chunker>> twins;
    RangeSet ra, rb;
    std::vector<Bytes> enc;
    std::vector<UnitVector3d> pts;
    std::vector<ConvexPolygon> polys;
    Vector3d v1, v2;
    NormalizedAngleInterval na, nb;
    BigInteger big; uint32_t bigd[32];
    BigInteger big2; uint32_t bigd2[32];
    World() : v1(1e-3, 2, 5), v2(0, -3e160, 1e150), na(NormalizedAngleInterval::fromRadians(6, 1)), nb(NormalizedAngleInterval::fromRadians(0.5, 2)), big(bigd, 32), big2(bigd2, 32) {}
};
static World * W;
static uint64_t digest() {
    Rec r;
    for (auto & s : W->z) r.b(s->r->encode());
    for (auto & p : W->px) r.rs(p->universe());
    r.i(W->ch->getNumStripes()); r.i(W->ch->getNumSubStripesPerStripe()); r.rs(W->ra); r.rs(W->rb);
    for (auto & e : W->enc) r.b(e);
    for (auto & p : W->pts) r.v(p);
    r.v(W->v1); r.v(W->v2); r.d(W->na.getA().asRadians()); r.d(W->na.getB().asRadians());
    r.i(W->big.getSize()); for (unsigned i = 0; i < W->big.getSize(); ++i) r.i(W->bigd[i]);
    r.i(W->big2.getSize()); for (unsigned i = 0; i < W->big2.getSize(); ++i) r.i(W->bigd2[i]);
    uint64_t h = 1469598103934665603ull;
    for (uint8_t x : r.o) h = (h ^ x) * 1099511628211ull;
    return h;
}
static void add(std::string n, std::function<void(Rec &)> f) { ops.push_back({n, f}); }
template <class T> static std::string str(T const & x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
static std::string show(Region const & r) {
    if (auto q = dynamic_cast<Circle const *>(&r)) return str(*q);
    if (auto q = dynamic_cast<Box const *>(&r)) return str(*q);
    if (auto q = dynamic_cast<Ellipse const *>(&r)) return str(*q);
    if (auto q = dynamic_cast<ConvexPolygon const *>(&r)) return str(*q);
    return "";
}
// Regions that are made at the same address one after the other.
template <class R> static void atSpot(std::string n, std::function<R *(void *)> mk, Region const * other) {
    add("temporary " + n, [mk, other](Rec & r) {
        // (threads have their own place, but all operations of a thread use the same one)
        static thread_local char local[1024] __attribute__((aligned(64)));
        R * x = mk(local);
        r.i(x->contains(W->pts[0])); r.i(x->contains(W->pts[3])); r.c(x->getBoundingCircle()); r.box(x->getBoundingBox()); r.box3(x->getBoundingBox3d());
        r.i(x->relate(*other).to_ulong()); r.i(other->relate(*x).to_ulong()); r.b(x->encode());
        r.rs(W->px[0]->envelope(*x)); r.rs(W->px[2]->interior(*x));
        for (int c : W->ch->getChunksIntersecting(*x)) r.i(c);
        x->~R();
    });
}
static void makeOps(bool T) {
    W = new World;
    auto all = simple(false);
    auto comp = compounds(false);
    std::vector<P> & z = W->z;
    UnitVector3d G = U(V3(0.6L, 0.48L, 0.64L));
    z.push_back(mkCircle("circle A", G, 0.4)); z.push_back(mkCircle("circle B", U(V3(0.6L, 0.48L, 0.2L)), 0.3)); z.push_back(mkCircle("big circle", U(V3(-0.6L, -0.48L, 0.64L)), 2.0));
    z.push_back(mkBox("box C", 20, 60, 10, 50)); z.push_back(mkBox("polar box", 0, 360, 80, 90, true)); z.push_back(mkBox("wrapping box", 340, 40, -20, 30));
    z.push_back(mkPoly("pentagon", ring(V3(0.6L, 0.5L, 0.6L), 0.3L, 5))); z.push_back(mkPoly("triangle", {V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1)})); z.push_back(mkPoly("far quad", ring(V3(-0.6L, 0.5L, -0.6L), 0.3L, 4)));
    z.push_back(mkEllC("ellipse E", U(V3(0.5L, 0.5L, 0.5L)), 0.5, 0.2, 0.7)); z.push_back(mkEllF("ellipse foci", U(V3(1, 0, 0)), U(V3(1, 0.2L, 0)), 0.3));
    P u = mkCompound('u', z[0], z[3]), n = mkCompound('i', z[0], z[6]);
    z.push_back(u); z.push_back(n); z.push_back(mkCompound('i', u, z[2])); z.push_back(mkCompound('u', n, z[8]));
    z.push_back(mkCircle("empty circle", G, -1));
    for (auto & s : z) W->enc.push_back(s->r->encode());
    for (V3 v : {V3(0.6L, 0.48L, 0.64L), V3(1, 0, 0), V3(-0.6L, 0.5L, -0.6L), V3(0.7L, 0.5L, 0.5L), V3(0, 0, 1), V3(1, 1, 1), V3(-1, 1e-9L, 0), V3(0.2L, -0.9L, 0.1L)}) W->pts.push_back(U(v));
    for (int l : {3, 6}) {
        W->px.push_back(std::make_shared<HtmPixelization>(l)); W->pxn.push_back(fmt("HTM %d", l));
        W->px.push_back(std::make_shared<Q3cPixelization>(l)); W->pxn.push_back(fmt("Q3C %d", l));
        W->px.push_back(std::make_shared<Mq3cPixelization>(l)); W->pxn.push_back(fmt("MQ3C %d", l));
    }
    W->ch = std::make_shared<Chunker>(10, 3);
    W->ch2 = std::make_shared<Chunker>(7, 2);
    // chunkers that agree with the first one in one of their parameters, or in their product
    for (auto p : {std::make_pair(7, 3), std::make_pair(10, 2), std::make_pair(15, 2)}) W->twins.push_back(std::make_shared<Chunker>(p.first, p.second));
    for (int i = 0; i < 9; ++i) { W->ra.insert(i * 10, i * 10 + 4); W->rb.insert(i * 9 + 2, i * 9 + 7); }
    W->big.setTo((uint64_t)0x123456789abcdefull); W->big.multiplyPow2(70); W->big2.setTo((int64_t)-77777777777);

    for (size_t k = 0; k < z.size(); ++k) {
        Sh const * s = z[k].get();
        add("contains " + s->name, [s](Rec & r) { for (auto & p : W->pts) r.i(s->r->contains(p)); r.i(s->r->contains(0.7, 0.6)); r.i(s->r->contains(0.1, 2.0, -1.0)); });
        add("bounds of " + s->name, [s](Rec & r) { r.c(s->r->getBoundingCircle()); r.box(s->r->getBoundingBox()); r.box3(s->r->getBoundingBox3d()); });
        add("encode " + s->name, [s](Rec & r) { r.b(s->r->encode()); auto c = s->r->clone(); r.b(c->encode()); r.s(show(*c)); });
        add("decode " + s->name, [k](Rec & r) { auto q = Region::decode(W->enc[k]); r.b(q->encode()); r.i(q->contains(W->pts[0])); r.i(Region::getRegions(*q).size()); });
    }
    for (size_t i = 0; i < z.size(); ++i)
        for (size_t j = 0; j < z.size(); ++j)
            if (i != j && (T || (i * 5 + j * 3) % 7 == 0 || (i < 3 && j < 3))) {
                Sh const *a = z[i].get(), *b = z[j].get();
                add("relate " + a->name + ", " + b->name, [a, b](Rec & r) { r.i(a->r->relate(*b->r).to_ulong()); });
            }
    for (size_t k : {(size_t)7, (size_t)8}) {
        auto q = static_cast<ConvexPolygon const *>(z[k]->r.get());
        add("polygon " + z[k]->name, [q](Rec & r) { r.v(q->getCentroid()); for (auto & v : q->getVertices()) r.v(v); r.b(ConvexPolygon::convexHull(q->getVertices()).encode()); r.i(*q == *q); });
    }
    for (int k = 0; k < 2; ++k) {
        auto q = static_cast<Circle const *>(z[k]->r.get());
        auto o = static_cast<Circle const *>(z[1 - k]->r.get());
        add("circle " + z[k]->name, [q, o](Rec & r) { r.d(q->getArea()); r.c(q->dilatedBy(Angle(0.1))); r.c(q->complemented()); r.c(q->expandedTo(*o)); r.c(q->clippedTo(*o)); r.i(q->contains(*o)); r.i(*q == *o); });
    }
    for (int k : {3, 5}) {
        auto q = static_cast<Box const *>(z[k]->r.get());
        auto o = static_cast<Box const *>(z[8 - k]->r.get());
        add("box " + z[k]->name, [q, o](Rec & r) { r.d(q->getArea()); r.box(q->dilatedBy(Angle(0.1))); r.box(q->expandedTo(*o)); r.box(q->clippedTo(*o)); r.i(q->contains(*o)); r.v(UnitVector3d(q->getCenter())); r.i(q->isDisjointFrom(*o)); });
    }
    add("hull of points", [](Rec & r) { r.b(ConvexPolygon::convexHull({W->pts[0], W->pts[1], W->pts[3], W->pts[5]}).encode()); });
    add("hull of other points", [](Rec & r) { r.b(ConvexPolygon::convexHull({W->pts[0], W->pts[4], W->pts[3], W->pts[5], W->pts[4]}).encode()); });
    for (size_t k = 0; k < W->px.size(); ++k) {
        Pixelization const * p = W->px[k].get();
        std::string nm = W->pxn[k];
        add(nm + " index", [p](Rec & r) { for (auto & q : W->pts) r.i(p->index(q)); });
        for (int h : {0, 2, 6})
            add(nm + fmt(" pixel %d", h), [p, h](Rec & r) { uint64_t i = p->index(W->pts[h]); r.b(p->pixel(i)->encode()); r.s(p->toString(i)); r.t([&] { r.b(p->pixel(1)->encode()); });
                if (auto q = dynamic_cast<Q3cPixelization const *>(p)) { for (auto x : q->neighborhood(i)) r.i(x); r.b(q->quad(i).encode()); }
                if (dynamic_cast<Mq3cPixelization const *>(p)) { for (auto x : Mq3cPixelization::neighborhood(i)) r.i(x); r.s(Mq3cPixelization::asString(i)); }
                if (dynamic_cast<HtmPixelization const *>(p)) { r.b(HtmPixelization::triangle(i).encode()); r.s(HtmPixelization::asString(i)); } });
        for (size_t j : {0, 2, 3, 6, 9, 11, 12, 15}) {
            if (!T && k >= 3 && j != 0 && j != 6) continue;
            Sh const * s = z[j].get();
            add(nm + " envelope of " + s->name, [p, s](Rec & r) { r.rs(p->envelope(*s->r)); r.rs(p->envelope(*s->r, 3)); });
            add(nm + " interior of " + s->name, [p, s](Rec & r) { r.rs(p->interior(*s->r)); r.rs(p->interior(*s->r, 2)); });
        }
    }
    for (int w = 0; w < 2; ++w) {
        Chunker const * c = w ? W->ch2.get() : W->ch.get();
        std::string nm = fmt("chunker %d", w);
        for (size_t j : {0, 3, 6, 9, 11, 15}) {
            Sh const * s = z[j].get();
            add(nm + " chunks of " + s->name, [c, s](Rec & r) { for (int x : c->getChunksIntersecting(*s->r)) r.i(x); });
            add(nm + " sub-chunks of " + s->name, [c, s](Rec & r) { for (auto & x : c->getSubChunksIntersecting(*s->r)) { r.i(x.chunkId); for (int y : x.subChunkIds) r.i(y); } });
        }
        add(nm + " tables", [c](Rec & r) { auto all = c->getAllChunks(); for (int x : all) { r.i(x); r.i(c->valid(x)); int st = c->getStripe(x); r.box(c->getChunkBoundingBox(st, c->getChunk(x, st))); } for (int y : c->getAllSubChunks(all[all.size() / 2])) r.i(y); r.i(c->valid(7777)); });
        add(nm + " sub-chunk boxes", [c](Rec & r) { for (int s = 0; s < 6; ++s) r.t([&] { r.box(c->getSubChunkBoundingBox(s, 1)); }); });
    }
    for (auto & t : W->twins) {
        Chunker const * c = t.get();
        std::string nm = fmt("chunker (%d,%d)", c->getNumStripes(), c->getNumSubStripesPerStripe());
        add(nm + " tables", [c](Rec & r) { auto all = c->getAllChunks(); for (int x : all) { r.i(x); r.i(c->valid(x)); int st = c->getStripe(x); r.box(c->getChunkBoundingBox(st, c->getChunk(x, st))); } for (int y : c->getAllSubChunks(all[all.size() / 2])) r.i(y); for (int s = 0; s < 14; ++s) r.t([&] { r.box(c->getSubChunkBoundingBox(s, 1)); }); });
        add(nm + " queries", [c](Rec & r) { for (int x : c->getChunksIntersecting(*W->z[3]->r)) r.i(x); for (auto & x : c->getSubChunksIntersecting(*W->z[0]->r)) { r.i(x.chunkId); for (int y : x.subChunkIds) r.i(y); } });
    }
    // pixels whose indexes agree in their low 32 bits, or in all digits but the first
    for (int w = 0; w < 4; ++w)
        for (int k = 0; k < 3; ++k) {
            uint64_t path = w < 2 ? 0x1b72c6b3d9ull : 0x1b72c6b3d9ull ^ ((uint64_t)(w - 1) << 34);
            uint64_t i = ((uint64_t)(k == 0 ? (w == 1 ? 14 : 9) : k == 1 ? (w == 1 ? 4 : 1) : (w == 1 ? 14 : 11)) << 40) | path;
            if (k == 0) add(fmt("HTM pixel %" PRIx64, i), [i](Rec & r) { r.b(HtmPixelization::triangle(i).encode()); r.s(HtmPixelization::asString(i)); r.i(HtmPixelization::level(i)); r.b(HtmPixelization(20).pixel(i)->encode()); });
            if (k == 1) add(fmt("Q3C pixel %" PRIx64, i), [i](Rec & r) { Q3cPixelization q(20); r.b(q.pixel(i)->encode()); r.b(q.quad(i).encode()); r.s(q.toString(i)); for (auto x : q.neighborhood(i)) r.i(x); });
            if (k == 2) add(fmt("MQ3C pixel %" PRIx64, i), [i](Rec & r) { r.b(Mq3cPixelization::quad(i).encode()); r.s(Mq3cPixelization::asString(i)); r.i(Mq3cPixelization::level(i)); for (auto x : Mq3cPixelization::neighborhood(i)) r.i(x); r.b(Mq3cPixelization(20).pixel(i)->encode()); });
        }
    add("orientation", [](Rec & r) { for (size_t i = 0; i + 2 < W->pts.size(); ++i) { r.i(orientation(W->pts[i], W->pts[i + 1], W->pts[i + 2])); r.i(orientationX(W->pts[i], W->pts[i + 1])); r.i(orientationZ(W->pts[i], W->pts[i + 1])); } });
    add("orientation exact", [](Rec & r) { for (size_t i = 0; i + 2 < W->pts.size(); ++i) r.i(orientationExact(W->pts[i], W->pts[i + 1], W->pts[i + 2])); });
    add("orientation degenerate", [](Rec & r) { r.i(orientation(W->pts[1], W->pts[5], W->pts[1])); r.i(orientation(UnitVector3d(1, 0, 0), UnitVector3d(0, 1, 0), UnitVector3d(0.6, 0.8, 0))); r.i(orientation(UnitVector3d(1, 1e-17, 0), UnitVector3d(1, 2e-17, 1e-17), UnitVector3d(0, 1, 1e-17))); });
    add("normalize", [](Rec & r) { for (auto & v : {W->v1, W->v2}) { Vector3d x = v; r.d(x.normalize()); r.v(x); r.v(UnitVector3d(v)); LonLat p(v); r.d(p.getLon().asRadians()); r.d(p.getLat().asRadians()); } r.t([&] { Vector3d x; x.normalize(); }); });
    add("rotate", [](Rec & r) { r.v(W->pts[0].rotatedAround(W->pts[1], Angle(0.3))); r.v(UnitVector3d::northFrom(W->v1)); r.v(UnitVector3d::orthogonalTo(W->v1)); r.v(W->pts[0].robustCross(W->pts[5])); r.v(getWeightedCentroid(W->pts[0], W->pts[1], W->pts[3])); r.s(str(W->v1)); });
    add("chord", [](Rec & r) { r.d(getMinSquaredChordLength(W->pts[0], W->pts[1], W->pts[3], W->pts[1].robustCross(W->pts[3]))); r.d(getMaxSquaredChordLength(W->pts[0], W->pts[1], W->pts[3], W->pts[1].robustCross(W->pts[3]))); });
    add("curves", [](Rec & r) { for (uint32_t i : {1u, 77u, 0xfffffu, 123456789u}) { r.i(mortonIndex(i, i * 3)); r.i(hilbertIndex(i, i * 3, 32)); uint32_t x, y; std::tie(x, y) = hilbertIndexInverse(i, 20); r.i(x); r.i(y); r.i(log2(i)); r.i(log2((uint64_t)i * i)); r.i(hilbertToMorton(i, 20)); r.i(mortonToHilbert(i, 20)); } });
    add("curves small", [](Rec & r) { for (uint32_t i = 0; i < 20; ++i) { r.i(hilbertIndex(i & 3, i / 4, 3)); r.i(mortonIndex(i, 19 - i)); } });
    add("range sets", [](Rec & r) { r.rs(W->ra | W->rb); r.rs(W->ra & W->rb); r.rs(W->ra - W->rb); r.rs(W->ra ^ W->rb); r.rs(~W->ra); r.i(W->ra.contains(W->rb)); r.i(W->ra.intersects(3, 12)); r.i(W->ra.cardinality()); r.rs(W->ra.simplified(3)); r.rs(W->rb.scaled(5)); r.s(str(W->ra)); r.i(W->ra == W->rb); });
    add("range sets reversed", [](Rec & r) { r.rs(W->rb - W->ra); r.i(W->rb.isWithin(W->ra)); r.i(W->rb.isDisjointFrom(W->ra)); r.i(W->rb.begin() == W->rb.end()); r.i(std::get<0>(*W->rb.begin())); r.i(std::get<0>(*W->rb.beginc())); r.i(W->rb.isValid()); });
    add("angles", [](Rec & r) { r.d(NormalizedAngle(7.5).asRadians()); r.d(NormalizedAngle::center(NormalizedAngle(6), NormalizedAngle(1)).asRadians()); r.i(W->na.contains(W->nb)); r.d(W->na.expandedTo(W->nb).getB().asRadians()); r.d(W->na.clippedTo(W->nb).getB().asRadians()); r.i(W->na.relate(W->nb).to_ulong()); r.s(str(W->na)); r.d(W->na.getSize().asRadians()); });
    add("big integers", [](Rec & r) { uint32_t d[64], e[64]; BigInteger x(d, 64), y(e, 64); x = W->big; y = W->big2; y.multiply(x); r.i(y.getSize()); for (unsigned i = 0; i < y.getSize(); ++i) r.i(e[i]); x.subtract(W->big2); r.i(x.getSize()); for (unsigned i = 0; i < x.getSize(); ++i) r.i(d[i]); });
    Region const * other = z[0]->r.get();
    atSpot<Circle>("circle 1", [](void * p) { return new (p) Circle(W->pts[0], Angle(0.2)); }, other);
    atSpot<Circle>("circle 2", [](void * p) { return new (p) Circle(W->pts[0], Angle(0.1)); }, other);
    atSpot<Box>("box 1", [](void * p) { return new (p) Box(Box::fromDegrees(20, 10, 60, 50)); }, other);
    atSpot<Box>("box 2", [](void * p) { return new (p) Box(Box::fromDegrees(20, 10, 60, 30)); }, other);
    atSpot<Ellipse>("ellipse 1", [](void * p) { return new (p) Ellipse(W->pts[0], Angle(0.3), Angle(0.2), Angle(0.3)); }, other);
    atSpot<Ellipse>("ellipse 2", [](void * p) { return new (p) Ellipse(W->pts[0], Angle(0.3), Angle(0.1), Angle(0.3)); }, other);
    atSpot<ConvexPolygon>("polygon 1", [](void * p) { return new (p) ConvexPolygon(W->pts[0], W->pts[1], W->pts[4]); }, other);
    atSpot<ConvexPolygon>("polygon 2", [](void * p) { return new (p) ConvexPolygon(W->pts[0], W->pts[4], W->pts[5]); }, other);
    atSpot<UnionRegion>("union 1", [](void * p) { return new (p) UnionRegion(*W->z[0]->r, *W->z[3]->r); }, other);
    atSpot<UnionRegion>("union 2", [](void * p) { return new (p) UnionRegion(*W->z[1]->r, *W->z[6]->r); }, other);
}
// Families of one operation applied to many inputs.
static bool family(size_t k, bool T) {
    std::vector<UnitVector3d> pts;
    for (int m = 1; m < 8; ++m) {
        Vector3d c(m & 1, (m >> 1) & 1, m >> 2);
        pts.push_back(UnitVector3d(c));
        for (int a = 0; a < (T ? 12 : 6); ++a) {
            Vector3d d(0, 0, 0);
            double e = (a & 1 ? -0.03 : 0.03) * (a < 6 ? 1 : 1e-9);
            d = a % 6 / 2 == 0 ? Vector3d(e, e / 3, -e / 5) : a % 6 / 2 == 1 ? Vector3d(-e / 4, e, e / 7) : Vector3d(e / 6, -e / 5, e);
            pts.push_back(UnitVector3d(c + d));
        }
    }
    auto forPoints = [&](std::string n, std::function<void(Rec &, UnitVector3d const &)> f) {
        for (auto & p : pts) add(n + fmt(" (%.17g,%.17g,%.17g)", p.x(), p.y(), p.z()), [f, p](Rec & r) { f(r, p); });
    };
    if (k < 3) {
        Pixelization const * q = W->px[k].get();
        forPoints(W->pxn[k] + " index of", [q](Rec & r, UnitVector3d const & p) { r.i(q->index(p)); });
    } else if (k == 3) {
        forPoints("regions contain", [](Rec & r, UnitVector3d const & p) { for (auto & s : W->z) r.i(s->r->contains(p)); });
    } else if (k == 4) {
        forPoints("vectors from", [](Rec & r, UnitVector3d const & p) {
            LonLat l(p); r.d(l.getLon().asRadians()); r.d(l.getLat().asRadians());
            r.v(UnitVector3d(l)); r.v(UnitVector3d::northFrom(p)); r.v(UnitVector3d::orthogonalTo(p)); r.v(UnitVector3d::orthogonalTo(p, W->pts[0]));
            r.v(p.rotatedAround(W->pts[5], Angle(0.3))); r.v(p.robustCross(W->pts[5])); r.d(NormalizedAngle(p, W->pts[5]).asRadians());
            for (auto & a : W->pts) for (auto & b : W->pts) r.i(orientation(p, a, b)); });
    } else if (k == 5) {
        double const rs[] = {0.0, 1e-9, 1e-3, 0.2, 0.5, 1.0, std::nextafter(1.0, 2), 0.5 * PI, 1.6, 2.5, PI - 1e-7, PI - 2e-8, PI - 2.02e-8, PI - 1e-8, PI};
        for (int c = 0; c < (T ? 4 : 2); ++c)
            for (double a : rs)
                add(fmt("circle %d of %.17g", c, a), [c, a](Rec & r) {
                    Circle x(c & 1 ? UnitVector3d::Z() : W->pts[c / 2 * 3], Angle(a));
                    r.c(x); r.d(x.getArea()); r.box(x.getBoundingBox()); r.box3(x.getBoundingBox3d()); r.c(x.complemented()); r.c(x.dilatedBy(Angle(0.1))); r.b(x.encode());
                    for (int j : {0, 3, 6, 9}) { r.i(x.relate(*W->z[j]->r).to_ulong()); r.i(W->z[j]->r->relate(x).to_ulong()); }
                    r.rs(W->px[0]->envelope(x, 5)); for (int y : W->ch2->getChunksIntersecting(x)) r.i(y); });
    } else if (k == 6) {
        int const la[] = {0, 10, 340, 180}, w[] = {20, 60, 180, 360}, ta[] = {-90, -30, 10}, h[] = {0, 40, 80};
        size_t n = 0;
        for (int a : la) for (int b : w) for (int c : ta) for (int d : h) {
            if (!T && n++ % 3) continue;
            add(fmt("box %d+%d %d+%d", a, b, c, d), [a, b, c, d](Rec & r) {
                Box x = b == 360 ? Box(NormalizedAngleInterval::full(), AngleInterval::fromDegrees(c, c + d)) : Box::fromDegrees(a, c, a + b, c + d);
                r.box(x); r.d(x.getArea()); r.c(x.getBoundingCircle()); r.box3(x.getBoundingBox3d()); r.box(x.dilatedBy(Angle(0.2))); r.b(x.encode());
                for (int j : {0, 3, 6, 9}) { r.i(x.relate(*W->z[j]->r).to_ulong()); r.i(W->z[j]->r->relate(x).to_ulong()); }
                for (int y : W->ch2->getChunksIntersecting(x)) r.i(y); });
        }
    } else if (k == 7) {
        for (double a : {0.3, 0.300001, 1.2}) for (double b : {0.3, 0.1, 0.299999}) for (double t : {0.0, 0.5, 0.5 * PI, PI}) for (int c : {0, 4})
            add(fmt("ellipse %d %g %g %g", c, a, b, t), [=](Rec & r) {
                Ellipse x(W->pts[c], Angle(a), Angle(b), Angle(t));
                r.b(x.encode()); r.v(x.getF1()); r.v(x.getF2()); r.d(x.getBeta().asRadians()); r.d(x.getGamma().asRadians()); r.c(x.getBoundingCircle()); r.box(x.getBoundingBox());
                for (auto & p : W->pts) r.i(x.contains(p));
                for (int j : {0, 3, 6, 9}) r.i(x.relate(*W->z[j]->r).to_ulong()); });
    } else if (k == 8) {
        for (auto & a : W->pts) for (auto & b : W->pts) for (auto & c : {W->pts[1], W->pts[4]})
            add("hull " + str(a) + str(b) + str(c), [a, b, c](Rec & r) { r.t([&] {
                ConvexPolygon x = ConvexPolygon::convexHull({a, b, c, W->pts[5]});
                r.b(x.encode()); r.v(x.getCentroid()); r.c(x.getBoundingCircle()); r.box(x.getBoundingBox()); r.box3(x.getBoundingBox3d());
                for (int j : {0, 3, 6, 9}) r.i(x.relate(*W->z[j]->r).to_ulong()); }); });
    } else if (k < 12) {
        Pixelization const * q = W->px[k - 9].get();
        uint64_t lo = std::get<0>(*q->universe().begin());
        for (uint64_t i = 0; i < (T ? 96 : 40); ++i)
            add(W->pxn[k - 9] + fmt(" pixel %d", (int)i), [q, lo, i](Rec & r) {
                uint64_t x = lo + i * 5;
                r.t([&] { auto g = q->pixel(x); r.b(g->encode()); r.i(q->index(g->getBoundingCircle().getCenter())); r.s(q->toString(x)); });
                if (auto p = dynamic_cast<Q3cPixelization const *>(q)) r.t([&] { for (auto y : p->neighborhood(x)) r.i(y); });
                if (dynamic_cast<Mq3cPixelization const *>(q)) r.t([&] { for (auto y : Mq3cPixelization::neighborhood(x)) r.i(y); }); });
    } else if (k == 12) {
        for (uint32_t x : {0u, 1u, 2u, 3u, 0x55u, 0x8000u, 0xffffu}) for (uint32_t y : {0u, 1u, 3u, 0xaau, 0x8001u}) for (int m : {16, 17})
            add(fmt("curve %u %u %d", x, y, m), [x, y, m](Rec & r) { uint64_t h = hilbertIndex(x, y, m), z = mortonIndex(x, y); r.i(h); r.i(z); r.i(mortonToHilbert(z, m)); r.i(hilbertToMorton(h, m)); r.i(std::get<0>(hilbertIndexInverse(h, m))); r.i(log2(z)); });
    } else return false;
    return true;
}
// ---------------------------------------------------------------- operations with known answers, to check the explorer
namespace self {
static double scratch[2];
static bool have; static double cached, cachedKey;
static std::mutex mtx; static double mcached, mkey; static bool mhave;
static int guardCalls;
struct Slow { double v[4]; Slow() { for (int i = 0; i < 4; ++i) v[i] = i * 1.5 + ++guardCalls; } };
static std::vector<double> * grown;
static double mix(double x) { return x * 3 + 1; }
static void ops_(std::vector<Op> & o) {
    for (double x : {1.0, 2.0}) {
        o.push_back({fmt("scratch %g", x), [x](Rec & r) { volatile double * s = scratch; s[0] = mix(x); s[1] = s[0] * 2; r.d(s[0] + s[1]); }});
        o.push_back({fmt("wrong key %g", x), [x](Rec & r) { if (!have) { cached = mix(x); have = true; } r.d(cached); }});
        o.push_back({fmt("flag first %g", x), [x](Rec & r) { volatile bool & h = have; volatile double & c = cachedKey; if (!h) { h = true; c = 5; } r.d(c); }});
        o.push_back({fmt("locked %g", x), [x](Rec & r) { std::lock_guard<std::mutex> g(mtx); if (!mhave || mkey != x) { mkey = x; mcached = mix(x); mhave = true; } r.d(mcached); }});
        o.push_back({fmt("static %g", x), [x](Rec & r) { static Slow s; r.d(s.v[3] + x); }});
        o.push_back({fmt("pure %g", x), [x](Rec & r) { std::vector<double> v(10, x); double t = 0; for (double q : v) t += q; r.d(t); }});
        o.push_back({fmt("published %g", x), [x](Rec & r) { if (!grown) { auto * g = new std::vector<double>; grown = g; for (int i = 0; i < 3; ++i) g->push_back(i); } double t = 0; for (double q : *grown) t += q; r.d(t + x); }});
    }
}
}
// ---------------------------------------------------------------- explorer
static size_t const SHSIZE = (sizeof(rt::Shared) + 4095) / 4096 * 4096;
// Runs f in a copy of this process.
static bool child(std::function<void()> f, std::string & why) {
    S->finished = 0;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        alarm(20);
        f();
        S->objects = digest();
        S->finished = 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {}
    if (S->finished && WIFEXITED(st) && WEXITSTATUS(st) == 0) return true;
    why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "does not end" : fmt("crashes with signal %d", WTERMSIG(st))) : fmt("ends with status %d", WEXITSTATUS(st));
    return false;
}
static bool eq(rt::Result const & a, rt::Result const & b) { return a.done && b.done && a.len == b.len && a.h1 == b.h1 && a.h2 == b.h2; }

struct Solo { rt::Result res; std::vector<rt::Access> acc; uint64_t objects; bool ok; };
static std::vector<Solo> solo;
static std::function<void(std::string const &, std::string const &)> report;

static void soloRuns(uint64_t objects) {
    solo.clear();
    for (size_t i = 0; i < ops.size(); ++i) {
        Solo s;
        std::string why;
        sel[0] = (int)i;
        memset(S->res, 0, sizeof S->res);
        s.ok = child([] { rt::record(S, body, 0); }, why);
        if (!s.ok) report(ops[i].name, "alone, it " + why);
        s.res = S->res[0];
        s.acc.assign(S->acc, S->acc + S->nacc);
        std::sort(s.acc.begin(), s.acc.end(), [](rt::Access const & a, rt::Access const & b) { return a.granule < b.granule; });
        if (S->overflow) report(ops[i].name, "accesses too much memory to be recorded");
        if (s.ok && S->objects != objects) report(ops[i].name, "the operation changed a shared object");
        solo.push_back(s);
    }
}
static std::vector<rt::Conflict> conflicts(Solo const & a, Solo const & b) {
    std::vector<rt::Conflict> o;
    size_t i = 0, j = 0;
    while (i < a.acc.size() && j < b.acc.size()) {
        auto &x = a.acc[i], &y = b.acc[j];
        if (x.granule < y.granule) { ++i; continue; }
        if (y.granule < x.granule) { ++j; continue; }
        uint8_t xa = x.rd | x.wr | x.at, ya = y.rd | y.wr | y.at, m = (x.wr & ya) | (y.wr & xa);
        if (m) o.push_back({x.granule, m});
        ++i; ++j;
    }
    return o;
}
static uint64_t nSched, nPairs, nConf;
// All interleavings of operations i and j, after running the operations in `warm`: breadth-first over the positions at
// which control changes hands. A change before a step is only needed where the other thread later executes a step that
// conflicts with it (dynamic partial order reduction).
static size_t maxSwitches; static uint64_t maxSchedules, budget = ~0ull;
static void interleave(int i, int j, std::vector<int> const & warm, std::vector<rt::Conflict> conf, std::string const & key) {
    bool again = true;
    for (int round = 0; again && round < 6; ++round) {
        again = false;
        typedef std::pair<int, std::vector<uint64_t>> Node;
        std::deque<Node> todo = {{0, {}}, {1, {}}};
        std::set<Node> seen(todo.begin(), todo.end());
        uint64_t count = 0;
        bool cut = false;
        while (!todo.empty() && !again) {
            Node n = todo.front();  // few switches first
            todo.pop_front();
            if (++count > (nSched < budget ? maxSchedules : nSched < 2 * budget ? 2 : 0)) { cut = true; break; }
            memset(S->res, 0, sizeof S->res);
            S->race = S->deadlock = 0;
            std::string why;
            bool ok = child([&] {
                for (int w : warm) { sel[2] = w; body(2); }
                sel[0] = i; sel[1] = j;
                rt::explore(S, body, n.first, n.second.data(), (int)n.second.size(), conf.data(), conf.size());
            }, why);
            ++nSched;
            mc::trans();
            std::string at = fmt("thread %d first, switching at", n.first);
            for (auto p : n.second) at += fmt(" %" PRIu64, p);
            at += fmt(" of %" PRIu64 " steps", S->steps);
            if (!ok) { report(key, at + ": " + why); return; }
            if (S->deadlock) { report(key, at + ": deadlock"); return; }
            if (S->race) { report(key, at + ": " + S->raceText); return; }
            if (!eq(S->res[0], solo[i].res)) { report(key, at + ": " + ops[i].name + " gave another result"); return; }
            if (!eq(S->res[1], solo[j].res)) { report(key, at + ": " + ops[j].name + " gave another result"); return; }
            for (uint64_t k = 0; k < S->nacc; ++k) {  // newly found shared memory
                rt::Conflict c{S->acc[k].granule, 0xff};
                auto it = std::lower_bound(conf.begin(), conf.end(), c, [](rt::Conflict const & a, rt::Conflict const & b) { return a.granule < b.granule; });
                if (it == conf.end() || it->granule != c.granule) { conf.insert(it, c); again = round < 5; }
            }
            if (S->ndone == rt::Shared::MAXDONE) cut = true;
            std::map<uint64_t, std::array<int, 4>> later;  // object -> [thread * 2 + write]
            for (uint64_t k = S->ndone; k-- > 0;) {
                auto const & d = S->done[k];
                auto & l = later[d.object];
                int o = 1 - d.thread;
                bool conflict = l[o * 2 + 1] || (d.write && l[o * 2]);
                l[d.thread * 2 + d.write] = 1;
                if (!conflict) continue;
                Node m{n.first, {}};
                for (auto p : n.second) if (p < d.step) m.second.push_back(p);
                m.second.push_back(d.step);
                if (m.second.size() > maxSwitches) { cut = true; continue; }
                if (seen.insert(m).second) todo.push_back(m);
            }
        }
        if (cut) mc::outcome("pairs of operations for which a bound on the schedules was reached");
    }
}
static void pair(int i, int j) {
    std::string key = ops[i].name + " || " + ops[j].name;
    auto c = conflicts(solo[i], solo[j]);
    ++nPairs;
    mc::state();
    if (c.empty()) { nSched++; mc::trace(); return; }  // all interleavings are equivalent to a sequence of the two
    ++nConf;
    for (auto warm : std::vector<std::vector<int>>{{}, {i}, {j}}) interleave(i, j, warm, c, key + (warm.empty() ? "" : " after " + ops[warm[0]].name));
}
// i, j, i in one process
static void history(std::vector<int> const & h, uint64_t objects) {
    static int idx;
    std::string why;
    static std::vector<rt::Result> got;
    memset(S->res, 0, sizeof S->res);
    bool bad = false;
    // results are compared inside of the child, the index of the first wrong one is reported
    S->cross = 0;
    bool ok = child([&] {
        for (size_t k = 0; k < h.size(); ++k) {
            sel[0] = h[k];
            body(0);
            if (!eq(S->res[0], solo[h[k]].res)) { S->cross = k + 1; break; }
        }
    }, why);
    (void)idx; (void)got; (void)bad;
    std::string key;
    for (size_t k = 0; k < h.size() && k < 4; ++k) key += (k ? " ; " : "") + ops[h[k]].name;
    if (!ok) { report(key, why); return; }
    if (S->cross) {
        std::string p = S->cross > 1 ? ops[h[S->cross - 2]].name : "nothing";
        report(h.size() <= 4 ? key : key + " ; ...", "step " + std::to_string(S->cross) + ": " + ops[h[S->cross - 1]].name + " (after " + p + ") gave another result than alone");
        return;
    }
    if (S->objects != objects) report(key, "a shared object was changed");
}

int main(int argc, char ** argv) {
    return mc::run(argc, argv, [&] {
        bool T = mc::thorough();
        S = (rt::Shared *)mmap(nullptr, SHSIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (S == MAP_FAILED) exit(3);
        makeOps(T);
        maxSwitches = T ? 8 : 2;
        maxSchedules = T ? 3000 : 60;
        uint64_t objects = digest();
        // ---- the explorer finds what it has to find, and nothing else
        mc::section("explorer self-test");
        {
            std::vector<Op> keep;
            keep.swap(ops);
            self::ops_(ops);
            std::map<std::string, std::string> found;
            report = [&](std::string const & k, std::string const & d) { found.emplace(k, d); };
            soloRuns(objects);
            uint64_t n0 = nSched;
            size_t N = ops.size(), H = N / 2;
            for (size_t k = 0; k < H; ++k) { mc::at(0, k); pair((int)k, (int)(k + H)); }
            for (size_t k = 0; k < H; ++k) history({(int)k, (int)(k + H), (int)k}, objects);
            std::string miss;
            auto want = [&](std::string const & k, bool w) {
                bool is = false;
                for (auto & f : found) if (f.first.substr(0, k.size()) == k && (f.first.size() == k.size() || f.first[k.size()] == ' ')) is = true;
                if (is != w) miss += k + (w ? " not found; " : " wrongly reported; ");
            };
            want("scratch 1 || scratch 2", true); want("wrong key 1 ; wrong key 2", true); want("flag first 1 || flag first 2", true); want("published 1 || published 2", true);
            want("locked 1 || locked 2", false); want("static 1 || static 2", false); want("pure 1 || pure 2", false); want("pure 1 ; pure 2", false); want("locked 1 ; locked 2", false);
            if (!miss.empty()) { fprintf(stderr, "explorer self-test failed: %s\n", miss.c_str()); for (auto & f : found) fprintf(stderr, "%s: %s\n", f.first.c_str(), f.second.c_str()); exit(3); }
            if (mc::g().shard == 0) for (auto & f : found) mc::sample("found as it should: " + f.first + ": " + f.second);
            mc::outcome("self-test schedules", mc::g().shard == 0 ? nSched - n0 : 0);
            ops.swap(keep);
            nSched = nPairs = nConf = 0;
            budget = T ? 1000000 : 30000;
        }
        report = [](std::string const & k, std::string const & d) { mc::fail(k, d); };
        // ---- every operation alone, from a cold start
        mc::section("operations");
        soloRuns(objects);
        for (size_t i = 0; i < ops.size(); ++i) {
            if (!mc::mine(i)) continue;
            mc::state();
            mc::trans();
            if (mc::wantSample()) mc::sample(ops[i].name + fmt(": %" PRIu64 " result bytes, %zu words of shared memory accessed", solo[i].res.len, solo[i].acc.size()));
            uint64_t w = 0;
            for (auto & a : solo[i].acc) w += (a.wr | a.at) != 0;
            if (getenv("C24_DEBUG")) for (auto & a : solo[i].acc) if (a.wr | a.at) fprintf(stderr, "W %s %" PRIx64 " %02x %02x\n", ops[i].name.c_str(), a.granule << 3, a.wr, a.at);
            if (w) mc::outcome("operations that write or synchronize on shared memory");
        }
        if (getenv("C24_DEBUG")) { fprintf(stderr,"%zu ops\n", ops.size()); return; }
        // ---- the same operation on inputs that lie close together, on boundaries or that agree in some of their parts
        mc::section("histories of neighbouring inputs");
        {
            std::vector<Op> keep;
            keep.swap(ops);
            std::vector<Solo> keepSolo = solo;
            size_t n = 0;
            for (size_t fam = 0; family(fam, T); ++fam) {
                soloRuns(objects);
                for (size_t i = 0; i < ops.size(); ++i)
                    for (size_t j = 0; j < ops.size(); ++j) {
                        if (i == j || !mc::mine(n++)) continue;
                        mc::at(4, fam, i, j);
                        mc::state();
                        mc::trans(3);
                        history({(int)i, (int)j, (int)i}, objects);
                    }
                ops.clear();
            }
            ops.swap(keep);
            solo = keepSolo;
        }
        // ---- histories
        mc::section("histories");
        size_t n = 0, N = ops.size();
        for (size_t i = 0; i < N; ++i)
            for (size_t j = 0; j < N; ++j) {
                if (!mc::mine(n++)) continue;
                mc::at(1, i, j);
                mc::state();
                mc::trans(3);
                history({(int)i, (int)j, (int)i}, objects);
            }
        // after everything else, in this order and backwards
        mc::section("long histories");
        for (size_t i = 0; i < N; ++i) {
            if (!mc::mine(n++)) continue;
            mc::at(2, i);
            mc::state();
            std::vector<int> h, g;
            for (size_t k = 0; k < N; ++k) { h.push_back((int)((i + k) % N)); h.push_back((int)i); }
            mc::trans(2 * N);
            history(h, objects);
            if (T) { std::reverse(h.begin(), h.end()); for (int x : h) { g.push_back(x); g.push_back((int)((x * 7 + i) % N)); } mc::trans(4 * N); history(g, objects); }
        }
        // ---- two threads
        mc::section("two threads");
        for (size_t i = 0; i < N; ++i)
            for (size_t j = i; j < N; ++j) {
                if (!mc::mine(n++)) continue;
                mc::at(3, i, j);
                pair((int)i, (int)j);
            }
        mc::outcome("pairs of operations", nPairs);
        mc::outcome("pairs that conflict in shared memory", nConf);
        mc::outcome("schedules (one per class of equivalent interleavings)", nSched);
    });
}
