// C22: the library itself, called from C++, as the reference for the Python interface. For every exposed operation this
// table has the C++ call it stands for; arguments come from one alphabet per type; results are rendered as text.
#include "lsst/sphgeom/Angle.h"
#include "lsst/sphgeom/AngleInterval.h"
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Chunker.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/Interval1d.h"
#include "lsst/sphgeom/LonLat.h"
#include "lsst/sphgeom/Matrix3d.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "lsst/sphgeom/NormalizedAngle.h"
#include "lsst/sphgeom/NormalizedAngleInterval.h"
#include "lsst/sphgeom/Q3cPixelization.h"
#include "lsst/sphgeom/RangeSet.h"
#include "lsst/sphgeom/UnitVector3d.h"
#include "lsst/sphgeom/curve.h"
#include "lsst/sphgeom/orientation.h"
#include "lsst/sphgeom/utils.h"
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>
using namespace lsst::sphgeom;
typedef std::string S;
typedef uint64_t u64;
typedef std::shared_ptr<Region> AnyRegion;
typedef std::shared_ptr<Pixelization> AnyPix;
typedef std::vector<UnitVector3d> Units;
struct Idx { long v; };    // a Python index
struct Str { S v; };
struct Bytes { std::vector<uint8_t> v; };
struct NotSelf {};         // result of a procedure

// ---- text form of values
static S f(char const * t, ...) { char b[256]; va_list ap; va_start(ap, t); vsnprintf(b, sizeof b, t, ap); va_end(ap); return b; }
static S x(double d) { if (std::isnan(d)) return "nan"; u64 b; memcpy(&b, &d, 8); return f("%016lx", b); }
static S c(double d) { return "d:" + x(d); }
static S c(bool b) { return b ? "b:1" : "b:0"; }
static S c(int v) { return f("i:%d", v); }
static S c(u64 v) { return f("i:%lu", v); }
static S c(uint32_t v) { return f("i:%u", v); }
static S c(Idx v) { return f("i:%ld", v.v); }
static S c(S const & s) { return "s:" + s; }
static S c(Str const & s) { return "s:" + s.v; }
static S hex(std::vector<uint8_t> const & v) { S r; for (auto b : v) r += f("%02x", b); return r; }
static S c(Bytes const & b) { return "y:" + hex(b.v); }
static S c(Angle a) { return "A:" + x(a.asRadians()); }
static S c(NormalizedAngle a) { return "N:" + x(a.asRadians()); }
static S c(LonLat const & p) { return "L:" + x(p.getLon().asRadians()) + "," + x(p.getLat().asRadians()); }
static S c(Vector3d const & v) { return "V:" + x(v.x()) + "," + x(v.y()) + "," + x(v.z()); }
static S c(UnitVector3d const & v) { return "U:" + x(v.x()) + "," + x(v.y()) + "," + x(v.z()); }
static S c(Matrix3d const & m) { S r = "M:"; for (int i = 0; i < 9; ++i) r += (i ? "," : "") + x(m(i / 3, i % 3)); return r; }
static S c(Interval1d const & i) { return "I1:" + x(i.getA()) + "," + x(i.getB()); }
static S c(AngleInterval const & i) { return "AI:" + x(i.getA().asRadians()) + "," + x(i.getB().asRadians()); }
static S c(NormalizedAngleInterval const & i) { return "NI:" + x(i.getA().asRadians()) + "," + x(i.getB().asRadians()); }
static S c(Box3d const & b) { return "B3:" + x(b.x().getA()) + "," + x(b.x().getB()) + "," + x(b.y().getA()) + "," + x(b.y().getB()) + "," + x(b.z().getA()) + "," + x(b.z().getB()); }
static S c(Region const & r) { return "R:" + hex(r.encode()); }
static S c(AnyRegion const & r) { return c(*r); }
static S c(std::unique_ptr<Region> const & r) { return c(*r); }
static S c(RangeSet const & s) { S r = "RS:"; for (auto t : s) r += f("%lu-%lu,", std::get<0>(t), std::get<1>(t)); return r; }
static S c(HtmPixelization const & p) { return f("HTM:%d", p.getLevel()); }
static S c(Q3cPixelization const & p) { return f("Q3C:%d", p.getLevel()); }
static S c(Mq3cPixelization const & p) { return f("MQ3C:%d", p.getLevel()); }
static S c(AnyPix const & p) {
    if (auto q = dynamic_cast<HtmPixelization const *>(p.get())) return c(*q);
    if (auto q = dynamic_cast<Q3cPixelization const *>(p.get())) return c(*q);
    return c(dynamic_cast<Mq3cPixelization const &>(*p));
}
static S c(Chunker const & k) { return f("CH:%d,%d", k.getNumStripes(), k.getNumSubStripesPerStripe()); }
static S c(Relationship const & r) { return f("i:%lu", r.to_ulong()); }
static S c(NotSelf) { return "none"; }
template <class A, class B> static S c(std::tuple<A, B> const & t);
static S c(SubChunks const & s);
template <class T> static S c(std::vector<T> const & v) { S r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? ";" : "") + c(v[i]); return r + "]"; }
template <class A, class B> static S c(std::tuple<A, B> const & t) { return "(" + c(std::get<0>(t)) + ";" + c(std::get<1>(t)) + ")"; }
static S c(SubChunks const & s) { return "(" + c(s.chunkId) + ";" + c(s.subChunkIds) + ")"; }

// ---- alphabets
template <class T> struct Al;
#define ALPH(T, N, ...) template <> struct Al<T> { static char const * name() { return N; } static std::vector<T> const & v() { static std::vector<T> const x = __VA_ARGS__; return x; } };
static double const NaN = std::numeric_limits<double>::quiet_NaN(), Inf = std::numeric_limits<double>::infinity();
static UnitVector3d uv(double a, double b, double d) { return UnitVector3d(a, b, d); }
ALPH(double, "double", {0.0, 1.0, -0.0, -1.5, 0.3, 2.25, 4.0, 6.5, 1e-9, -1e300, Inf, NaN})
ALPH(int, "int", {0, 1, 2, 3, 7, -1, 10, 30, 31, 36, 2147483647, -2147483647 - 1})
ALPH(u64, "u64", {0, 1, 2, 5, 8, 14, 63, 1000, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull})
ALPH(uint32_t, "u32", {0u, 1u, 6u, 77777u, 0x80000000u, 0xffffffffu})
ALPH(bool, "bool", {false, true})
ALPH(Idx, "idx", {{0}, {1}, {2}, {3}, {4}, {-1}, {-2}, {-3}, {-4}, {-5}, {1000}})
ALPH(Angle, "Angle", {Angle(0.0), Angle(0.5), Angle(-0.25), Angle(3.5), Angle(7.0), Angle(-8.0), Angle(1e-10), Angle(NaN)})
ALPH(NormalizedAngle, "NormalizedAngle", {NormalizedAngle(0.0), NormalizedAngle(0.5), NormalizedAngle(3.0), NormalizedAngle(6.0), NormalizedAngle(1.25), NormalizedAngle(NaN)})
ALPH(LonLat, "LonLat", {LonLat::fromDegrees(0, 0), LonLat::fromDegrees(30, 20), LonLat::fromDegrees(350, -40), LonLat::fromDegrees(100, 90), LonLat::fromDegrees(44, 33.5)})
ALPH(Vector3d, "Vector3d", {Vector3d(0, 0, 0), Vector3d(1, 2, 3), Vector3d(-4, 0.5, 1e-3), Vector3d(0, 0, -2), Vector3d(0.25, -0.125, 0.75), Vector3d(1e200, NaN, 1)})
ALPH(UnitVector3d, "UnitVector3d", {uv(1, 0, 0), uv(0, 1, 0), uv(0, 0, 1), uv(1, 2, 3), uv(-3, 1, 0.5), uv(1, 1, 1), uv(0.3, -0.2, -5)})
ALPH(Matrix3d, "Matrix3d", {Matrix3d(), Matrix3d(1, 2, 3, 4, 5, 6, 7, 8, 10), Matrix3d(2.5), Matrix3d(Vector3d(1, -2, 4)), Matrix3d(0, 1, 0, -1, 0, 0, 0, 0, 3)})
ALPH(Interval1d, "Interval1d", {Interval1d(), Interval1d(1), Interval1d(0, 3), Interval1d(-2, 0.3), Interval1d(2.25, 10), Interval1d::full(), Interval1d(-1.5, 4)})
ALPH(AngleInterval, "AngleInterval", {AngleInterval(), AngleInterval(Angle(0.5)), AngleInterval(Angle(-1), Angle(0.5)), AngleInterval(Angle(0.25), Angle(4)), AngleInterval(Angle(-8), Angle(3.5)), AngleInterval::full()})
ALPH(NormalizedAngleInterval, "NormalizedAngleInterval", {NormalizedAngleInterval(), NormalizedAngleInterval(NormalizedAngle(3)), NormalizedAngleInterval::fromRadians(0.5, 3), NormalizedAngleInterval::fromRadians(6, 1.25), NormalizedAngleInterval::fromRadians(2, 6), NormalizedAngleInterval::full()})
ALPH(Box3d, "Box3d", {Box3d(), Box3d(Vector3d(1, 2, 3)), Box3d(Interval1d(0, 1), Interval1d(-1, 2), Interval1d(0.5, 4)), Box3d(Vector3d(-5, -5, -5), Vector3d(0.5, 3, 1)), Box3d::full(), Box3d::aroundUnitSphere()})
static Circle const C1(uv(1, 2, 3), Angle(0.4)), C2(uv(1, 1, 1), 0.3), C3(uv(-1, 0, 0.2), Angle(2.5));
ALPH(Circle, "Circle", {Circle::empty(), Circle::full(), C1, C2, C3, Circle(uv(0, 0, 1)), Circle(uv(1, 2, 3), Angle(0.1))})
static Box const B1 = Box::fromDegrees(10, 5, 60, 70), B2 = Box::fromDegrees(350, -30, 40, 35), B3 = Box::fromDegrees(0, 80, 360, 90);
ALPH(Box, "Box", {Box(), Box::full(), B1, B2, B3, Box(LonLat::fromDegrees(30, 20)), Box::fromDegrees(20, 10, 30, 15)})
static ConvexPolygon const P1(Units{uv(1, 0, 0), uv(0, 1, 0), uv(0, 0, 1)}), P2(Units{uv(1, 0, 0), uv(1, 0.2, 0), uv(1, 0.3, 0.3), uv(1, 0, 0.4)});
ALPH(ConvexPolygon, "ConvexPolygon", {P1, P2, ConvexPolygon(Units{uv(-1, 0, 0), uv(-1, 0, 0.1), uv(-1, 0.1, 0)}), ConvexPolygon(Units{uv(1, 2, 2), uv(2, 2, 1), uv(2, 1, 2)})})
static Ellipse const E1(uv(1, 1, 1), Angle(0.4), Angle(0.2), Angle(0.5)), E2(uv(1, 0, 0), uv(1, 0.3, 0), Angle(0.4));
ALPH(Ellipse, "Ellipse", {Ellipse::empty(), Ellipse::full(), E1, E2, Ellipse(C1), Ellipse(uv(0, 0, 1), Angle(2), Angle(2.5), Angle(1)), Ellipse(uv(0, 1, 0), Angle(1.5707963267948966))})
ALPH(UnionRegion, "UnionRegion", {UnionRegion(C1, B1), UnionRegion(P1, C3), UnionRegion(IntersectionRegion(B2, E1), P2)})
ALPH(IntersectionRegion, "IntersectionRegion", {IntersectionRegion(C1, P1), IntersectionRegion(B1, B2), IntersectionRegion(UnionRegion(C1, C3), E2)})
static std::vector<AnyRegion> regions() {
    std::vector<AnyRegion> r;
    for (auto & q : Al<Circle>::v()) r.push_back(AnyRegion(q.clone()));
    for (auto & q : Al<Box>::v()) r.push_back(AnyRegion(q.clone()));
    for (auto & q : Al<ConvexPolygon>::v()) r.push_back(AnyRegion(q.clone()));
    for (auto & q : Al<Ellipse>::v()) r.push_back(AnyRegion(q.clone()));
    for (auto & q : Al<UnionRegion>::v()) r.push_back(AnyRegion(q.clone()));
    for (auto & q : Al<IntersectionRegion>::v()) r.push_back(AnyRegion(q.clone()));
    return r;
}
ALPH(AnyRegion, "Region", regions())
static RangeSet mk(std::initializer_list<std::pair<u64, u64>> l) { RangeSet s; for (auto p : l) s.insert(p.first, p.second); return s; }
ALPH(RangeSet, "RangeSet", {RangeSet(), mk({{0, 0}}), mk({{5, 14}}), mk({{0, 2}, {8, 63}}), mk({{1, 6}, {1000, 0}}), mk({{0x8000000000000000ull, 0xffffffffffffffffull}, {3, 5}, {7, 9}}), mk({{8, 12}, {14, 15}, {40, 64}})})
ALPH(HtmPixelization, "HtmPixelization", {HtmPixelization(0), HtmPixelization(3), HtmPixelization(24)})
ALPH(Q3cPixelization, "Q3cPixelization", {Q3cPixelization(0), Q3cPixelization(3), Q3cPixelization(30)})
ALPH(Mq3cPixelization, "Mq3cPixelization", {Mq3cPixelization(0), Mq3cPixelization(3), Mq3cPixelization(30)})
static std::vector<AnyPix> pixs() { std::vector<AnyPix> r; for (int l : {1, 4}) { r.push_back(std::make_shared<HtmPixelization>(l)); r.push_back(std::make_shared<Q3cPixelization>(l)); r.push_back(std::make_shared<Mq3cPixelization>(l)); } return r; }
ALPH(AnyPix, "Pixelization", pixs())
ALPH(Chunker, "Chunker", {Chunker(3, 2), Chunker(10, 3), Chunker(1, 1)})
ALPH(Units, "units", {Units{}, Units{uv(1, 0, 0)}, Units{uv(1, 0, 0), uv(0, 1, 0), uv(0, 0, 1)}, Units{uv(1, 0, 0), uv(1, 0.1, 0.1), uv(1, 0.5, 0), uv(1, 0, 0.5), uv(1, 0.4, 0.4)}, Units{uv(1, 0, 0), uv(-1, 0, 0), uv(0, 1, 0), uv(0, 0, 1)}})
static std::vector<Bytes> encodings() {
    std::vector<Bytes> r;
    for (auto & q : Al<AnyRegion>::v()) r.push_back({q->encode()});
    r.push_back({{}}); r.push_back({{'c'}}); r.push_back({{0, 1, 2, 3}});
    auto e = C1.encode(); e.pop_back(); r.push_back({e});
    e = B1.encode(); e.push_back(0); r.push_back({e});
    return r;
}
ALPH(Bytes, "bytes", encodings())

// ---- table
struct Op { S name; std::vector<S> args; std::function<S(int const *)> f; };
static std::vector<Op> ops;
struct AlphInfo { S name; std::function<std::vector<S>()> v; };
static std::vector<AlphInfo> alphs;
template <class T> using D = typename std::decay<T>::type;
template <class T> static void use() {
    S n = Al<T>::name();
    for (auto & a : alphs) if (a.name == n) return;
    alphs.push_back({n, [] { std::vector<S> r; for (auto const & q : Al<T>::v()) r.push_back(c(q)); return r; }});
}
// An argument is a fresh copy of an alphabet value; regions and pixelizations are immutable here and shared.
template <class R, class... A> struct Call {
    template <size_t... I> static S go(std::function<R(A...)> const & fn, int const * k, std::index_sequence<I...>) {
        std::tuple<D<A>...> t(D<A>(Al<D<A>>::v()[k[I]])...);
        S r = c(fn(std::get<I>(t)...));
        // followed by the arguments afterwards
        using Z = int[];
        (void)Z{0, (r += " | " + c(std::get<I>(t)), 0)...};
        return r;
    }
};
template <class R, class... A> static void add(S n, std::function<R(A...)> fn) {
    using Z = int[];
    (void)Z{0, (use<D<A>>(), 0)...};
    ops.push_back({n, {S(Al<D<A>>::name())...}, [fn](int const * k) -> S {
        try { return Call<R, A...>::go(fn, k, std::index_sequence_for<A...>()); }
        catch (std::bad_alloc const &) { return "!MemoryError"; }
        catch (std::out_of_range const &) { return "!IndexError"; }
        catch (std::overflow_error const &) { return "!OverflowError"; }
        catch (std::range_error const &) { return "!ValueError"; }
        catch (std::logic_error const & e) { return dynamic_cast<std::invalid_argument const *>(&e) || dynamic_cast<std::domain_error const *>(&e) || dynamic_cast<std::length_error const *>(&e) ? "!ValueError" : "!RuntimeError"; }
        catch (std::exception const &) { return "!RuntimeError"; }
    }});
}
template <class L, class R, class... A> static void deduce(S n, L l, R (L::*)(A...) const) { add(n, std::function<R(A...)>(l)); }
template <class L> static void o(S n, L l) { deduce(n, l, &L::operator()); }
#define O(N, ARGS, E) o(N, [] ARGS { return E; })
#define OV(N, ARGS, E) o(N, [] ARGS { E; return NotSelf(); })
static size_t index(Idx i, long n) { if (i.v < -n || i.v >= n) throw std::out_of_range(""); return i.v < 0 ? i.v + n : i.v; }

template <class I, class Sc> static void intervals(S n) {
    o(n + ".__eq__", [](I & a, I & b) { return a == b; }); o(n + ".__ne__", [](I & a, I & b) { return a != b; });
    o(n + ".__eq__", [](I & a, Sc b) { return a == b; }); o(n + ".__ne__", [](I & a, Sc b) { return a != b; });
    o(n + ".getA", [](I & a) { return Sc(a.getA()); }); o(n + ".getB", [](I & a) { return Sc(a.getB()); });
    o(n + ".isEmpty", [](I & a) { return a.isEmpty(); }); o(n + ".getCenter", [](I & a) { return Sc(a.getCenter()); }); o(n + ".getSize", [](I & a) { return Sc(a.getSize()); });
    o(n + ".__contains__", [](I & a, I & b) { return a.contains(b); }); o(n + ".__contains__", [](I & a, Sc b) { return a.contains(b); });
    o(n + ".contains", [](I & a, I & b) { return a.contains(b); }); o(n + ".contains", [](I & a, Sc b) { return a.contains(b); });
    o(n + ".isDisjointFrom", [](I & a, I & b) { return a.isDisjointFrom(b); }); o(n + ".isDisjointFrom", [](I & a, Sc b) { return a.isDisjointFrom(b); });
    o(n + ".intersects", [](I & a, I & b) { return a.intersects(b); }); o(n + ".intersects", [](I & a, Sc b) { return a.intersects(b); });
    o(n + ".isWithin", [](I & a, I & b) { return a.isWithin(b); }); o(n + ".isWithin", [](I & a, Sc b) { return a.isWithin(b); });
    o(n + ".relate", [](I & a, I & b) { return a.relate(b); }); o(n + ".relate", [](I & a, Sc b) { return a.relate(b); });
    o(n + ".clipTo", [](I & a, I & b) { return I(a.clipTo(b)); }); o(n + ".clipTo", [](I & a, Sc b) { return I(a.clipTo(b)); });
    o(n + ".clippedTo", [](I & a, I & b) { return I(a.clippedTo(b)); }); o(n + ".clippedTo", [](I & a, Sc b) { return I(a.clippedTo(b)); });
    o(n + ".expandTo", [](I & a, I & b) { return I(a.expandTo(b)); }); o(n + ".expandTo", [](I & a, Sc b) { return I(a.expandTo(b)); });
    o(n + ".expandedTo", [](I & a, I & b) { return I(a.expandedTo(b)); }); o(n + ".expandedTo", [](I & a, Sc b) { return I(a.expandedTo(b)); });
    o(n + ".dilateBy", [](I & a, Sc b) { return I(a.dilateBy(b)); }); o(n + ".dilatedBy", [](I & a, Sc b) { return I(a.dilatedBy(b)); });
    o(n + ".erodeBy", [](I & a, Sc b) { return I(a.erodeBy(b)); }); o(n + ".erodedBy", [](I & a, Sc b) { return I(a.erodedBy(b)); });
    o(n + "::empty", [] { return I::empty(); }); o(n + "::full", [] { return I::full(); });
    o(n + "()", [] { return I(); }); o(n + "()", [](Sc a) { return I(a); }); o(n + "()", [](Sc a, Sc b) { return I(a, b); }); o(n + "()", [](I & a) { return I(a); });
}
template <class R> static void regionOps(S n) {
    o(n + ".clone", [](R & r) { return r.clone(); });
    o(n + ".getBoundingBox", [](R & r) { return r.getBoundingBox(); }); o(n + ".getBoundingBox3d", [](R & r) { return r.getBoundingBox3d(); }); o(n + ".getBoundingCircle", [](R & r) { return r.getBoundingCircle(); });
    o(n + ".contains", [](R & r, UnitVector3d & v) { return r.contains(v); }); o(n + ".__contains__", [](R & r, UnitVector3d & v) { return r.contains(v); });
    o(n + ".contains", [](R & r, double a, double b, double d) { return r.contains(a, b, d); });
    o(n + ".contains", [](R & r, double a, double b) { return r.contains(a, b); });
    o(n + ".relate", [](R & r, AnyRegion & q) { return r.relate(*q); });
    o(n + ".encode", [](R & r) { return Bytes{r.encode()}; });
    o(n + "::getRegions", [](R & r) { std::vector<S> v; for (auto & p : Region::getRegions(r)) v.push_back(c(*p)); S s = "["; for (size_t i = 0; i < v.size(); ++i) s += (i ? ";" : "") + v[i]; struct Raw { S s; }; return Str{s + "]"}; });
}
template <class P> static void pixOps(S n) {
    o(n + "()", [](int l) { return P(l); }); o(n + "()", [](P & p) { return P(p); });
    o(n + ".getLevel", [](P & p) { return p.getLevel(); });
    o(n + ".__eq__", [](P & p, P & q) { return p.getLevel() == q.getLevel(); }); o(n + ".__ne__", [](P & p, P & q) { return p.getLevel() != q.getLevel(); });
}
static void table() {
    // curves, orientation, utilities
    o("@log2", [](u64 v) { return (int)log2(v); });
    o("@mortonIndex", [](uint32_t a, uint32_t b) { return mortonIndex(a, b); });
    o("@mortonIndexInverse", [](u64 z) { return mortonIndexInverse(z); });
    o("@mortonToHilbert", [](u64 z, int m) { return mortonToHilbert(z, m & 31); });
    o("@hilbertToMorton", [](u64 z, int m) { return hilbertToMorton(z, m & 31); });
    o("@hilbertIndex", [](uint32_t a, uint32_t b, int m) { return hilbertIndex(a, b, m & 31); });
    o("@hilbertIndexInverse", [](u64 z, int m) { return hilbertIndexInverse(z, m & 31); });
    o("@orientationExact", [](UnitVector3d & a, UnitVector3d & b, UnitVector3d & d) { return orientationExact(a, b, d); });
    o("@orientation", [](UnitVector3d & a, UnitVector3d & b, UnitVector3d & d) { return orientation(a, b, d); });
    o("@orientationX", [](UnitVector3d & a, UnitVector3d & b) { return orientationX(a, b); });
    o("@orientationY", [](UnitVector3d & a, UnitVector3d & b) { return orientationY(a, b); });
    o("@orientationZ", [](UnitVector3d & a, UnitVector3d & b) { return orientationZ(a, b); });
    o("@getMinSquaredChordLength", [](UnitVector3d & v, UnitVector3d & a, UnitVector3d & b, UnitVector3d & n) { return getMinSquaredChordLength(v, a, b, n); });
    o("@getMaxSquaredChordLength", [](UnitVector3d & v, UnitVector3d & a, UnitVector3d & b, UnitVector3d & n) { return getMaxSquaredChordLength(v, a, b, n); });
    o("@getMinAngleToCircle", [](Angle a, Angle b) { return getMinAngleToCircle(a, b); });
    o("@getMaxAngleToCircle", [](Angle a, Angle b) { return getMaxAngleToCircle(a, b); });
    o("@getWeightedCentroid", [](UnitVector3d & a, UnitVector3d & b, UnitVector3d & d) { return getWeightedCentroid(a, b, d); });
    o("@invert", [](Relationship r) { return invert(r); });
    // angles
    o("Angle::nan", [] { return Angle::nan(); }); o("Angle::fromDegrees", [](double d) { return Angle::fromDegrees(d); }); o("Angle::fromRadians", [](double d) { return Angle::fromRadians(d); });
    o("Angle()", [] { return Angle(); }); o("Angle()", [](double d) { return Angle(d); }); o("Angle()", [](Angle a) { return Angle(a); }); o("Angle()", [](NormalizedAngle a) { return Angle(a); });
    o("Angle.__eq__", [](Angle a, Angle b) { return a == b; }); o("Angle.__ne__", [](Angle a, Angle b) { return a != b; }); o("Angle.__lt__", [](Angle a, Angle b) { return a < b; });
    o("Angle.__gt__", [](Angle a, Angle b) { return a > b; }); o("Angle.__le__", [](Angle a, Angle b) { return a <= b; }); o("Angle.__ge__", [](Angle a, Angle b) { return a >= b; });
    o("Angle.__neg__", [](Angle a) { return -a; }); o("Angle.__add__", [](Angle a, Angle b) { return a + b; }); o("Angle.__sub__", [](Angle a, Angle b) { return a - b; });
    o("Angle.__mul__", [](Angle a, double b) { return a * b; }); o("Angle.__rmul__", [](Angle a, double b) { return b * a; }); o("Angle.__truediv__", [](Angle a, double b) { return a / b; }); o("Angle.__truediv__", [](Angle a, Angle b) { return a / b; });
    o("Angle.__iadd__", [](Angle & a, Angle b) { a += b; return Angle(a); }); o("Angle.__isub__", [](Angle & a, Angle b) { a -= b; return Angle(a); }); o("Angle.__imul__", [](Angle & a, double b) { a *= b; return Angle(a); }); o("Angle.__itruediv__", [](Angle & a, double b) { a /= b; return Angle(a); });
    o("Angle.asDegrees", [](Angle a) { return a.asDegrees(); }); o("Angle.asRadians", [](Angle a) { return a.asRadians(); }); o("Angle.isNormalized", [](Angle a) { return a.isNormalized(); }); o("Angle.isNan", [](Angle a) { return a.isNan(); });
    o("Angle.__add__", [](Angle a, NormalizedAngle b) { return a + b; }); o("Angle.__lt__", [](Angle a, NormalizedAngle b) { return a < Angle(b); }); o("Angle.__eq__", [](Angle a, NormalizedAngle b) { return a == Angle(b); });
    typedef NormalizedAngle N;
    o("NormalizedAngle::nan", [] { return N::nan(); }); o("NormalizedAngle::fromDegrees", [](double d) { return N::fromDegrees(d); }); o("NormalizedAngle::fromRadians", [](double d) { return N::fromRadians(d); });
    o("NormalizedAngle::between", [](N a, N b) { return N::between(a, b); }); o("NormalizedAngle::center", [](N a, N b) { return N::center(a, b); });
    o("NormalizedAngle()", [] { return N(); }); o("NormalizedAngle()", [](double d) { return N(d); }); o("NormalizedAngle()", [](Angle a) { return N(a); }); o("NormalizedAngle()", [](N a) { return N(a); }); o("NormalizedAngle()", [](LonLat & a, LonLat & b) { return N(a, b); }); o("NormalizedAngle()", [](Vector3d & a, Vector3d & b) { return N(a, b); });
    o("NormalizedAngle.__eq__", [](N a, N b) { return a == b; }); o("NormalizedAngle.__ne__", [](N a, N b) { return a != b; }); o("NormalizedAngle.__lt__", [](N a, N b) { return a < b; });
    o("NormalizedAngle.__gt__", [](N a, N b) { return a > b; }); o("NormalizedAngle.__le__", [](N a, N b) { return a <= b; }); o("NormalizedAngle.__ge__", [](N a, N b) { return a >= b; });
    o("NormalizedAngle.__eq__", [](N a, Angle b) { return a == b; }); o("NormalizedAngle.__ge__", [](N a, Angle b) { return a >= b; });
    o("NormalizedAngle.__neg__", [](N a) { return -a; }); o("NormalizedAngle.__add__", [](N a, Angle b) { return a + b; }); o("NormalizedAngle.__sub__", [](N a, Angle b) { return a - b; }); o("NormalizedAngle.__sub__", [](N a, N b) { return a - b; });
    o("NormalizedAngle.__mul__", [](N a, double b) { return a * b; }); o("NormalizedAngle.__rmul__", [](N a, double b) { return b * a; }); o("NormalizedAngle.__truediv__", [](N a, double b) { return a / b; }); o("NormalizedAngle.__truediv__", [](N a, Angle b) { return a / b; });
    o("NormalizedAngle.asDegrees", [](N a) { return a.asDegrees(); }); o("NormalizedAngle.asRadians", [](N a) { return a.asRadians(); }); o("NormalizedAngle.isNan", [](N a) { return a.isNan(); }); o("NormalizedAngle.getAngleTo", [](N a, N b) { return a.getAngleTo(b); });
    // positions and vectors
    o("LonLat::fromDegrees", [](double a, double b) { return LonLat::fromDegrees(a, b); }); o("LonLat::fromRadians", [](double a, double b) { return LonLat::fromRadians(a, b); }); o("LonLat::latitudeOf", [](Vector3d & v) { return LonLat::latitudeOf(v); }); o("LonLat::longitudeOf", [](Vector3d & v) { return LonLat::longitudeOf(v); });
    o("LonLat()", [] { return LonLat(); }); o("LonLat()", [](LonLat & p) { return LonLat(p); }); o("LonLat()", [](N a, Angle b) { return LonLat(a, b); }); o("LonLat()", [](Vector3d & v) { return LonLat(v); }); o("LonLat()", [](UnitVector3d & v) { return LonLat(v); });
    o("LonLat.__eq__", [](LonLat & a, LonLat & b) { return a == b; }); o("LonLat.__ne__", [](LonLat & a, LonLat & b) { return a != b; }); o("LonLat.getLon", [](LonLat & a) { return a.getLon(); }); o("LonLat.getLat", [](LonLat & a) { return a.getLat(); }); o("LonLat.__len__", [](LonLat &) { return 2; });
    typedef Vector3d V; typedef UnitVector3d U;
    o("Vector3d()", [] { return V(); }); o("Vector3d()", [](double a, double b, double d) { return V(a, b, d); }); o("Vector3d()", [](V & v) { return V(v); }); o("Vector3d()", [](U & v) { return V(v); });
    o("Vector3d.__eq__", [](V & a, V & b) { return a == b; }); o("Vector3d.__ne__", [](V & a, V & b) { return a != b; }); o("Vector3d.__neg__", [](V & a) { return -a; }); o("Vector3d.__add__", [](V & a, V & b) { return a + b; }); o("Vector3d.__sub__", [](V & a, V & b) { return a - b; }); o("Vector3d.__mul__", [](V & a, double b) { return a * b; }); o("Vector3d.__truediv__", [](V & a, double b) { return a / b; });
    o("Vector3d.__iadd__", [](V & a, V & b) { a += b; return V(a); }); o("Vector3d.__isub__", [](V & a, V & b) { a -= b; return V(a); }); o("Vector3d.__imul__", [](V & a, double b) { a *= b; return V(a); }); o("Vector3d.__itruediv__", [](V & a, double b) { a /= b; return V(a); });
    o("Vector3d.x", [](V & a) { return a.x(); }); o("Vector3d.y", [](V & a) { return a.y(); }); o("Vector3d.z", [](V & a) { return a.z(); }); o("Vector3d.dot", [](V & a, V & b) { return a.dot(b); }); o("Vector3d.getSquaredNorm", [](V & a) { return a.getSquaredNorm(); }); o("Vector3d.getNorm", [](V & a) { return a.getNorm(); }); o("Vector3d.isZero", [](V & a) { return a.isZero(); });
    o("Vector3d.normalize", [](V & a) { return a.normalize(); }); o("Vector3d.isNormalized", [](V & a) { return a.isNormalized(); }); o("Vector3d.cross", [](V & a, V & b) { return a.cross(b); }); o("Vector3d.cwiseProduct", [](V & a, V & b) { return a.cwiseProduct(b); }); o("Vector3d.rotatedAround", [](V & a, U & b, Angle d) { return a.rotatedAround(b, d); });
    o("Vector3d.__len__", [](V &) { return 3; }); o("Vector3d.__getitem__", [](V & a, Idx i) { return a(index(i, 3)); }); o("Vector3d.dot", [](V & a, U & b) { return a.dot(b); }); o("Vector3d.__add__", [](V & a, U & b) { return a + b; });
    o("UnitVector3d::orthogonalTo", [](V & a) { return U::orthogonalTo(a); }); o("UnitVector3d::orthogonalTo", [](V & a, V & b) { return U::orthogonalTo(a, b); }); o("UnitVector3d::orthogonalTo", [](N a) { return U::orthogonalTo(a); }); o("UnitVector3d::northFrom", [](V & a) { return U::northFrom(a); }); o("UnitVector3d::X", [] { return U::X(); }); o("UnitVector3d::Y", [] { return U::Y(); }); o("UnitVector3d::Z", [] { return U::Z(); });
    o("UnitVector3d()", [] { return U(); }); o("UnitVector3d()", [](U & a) { return U(a); }); o("UnitVector3d()", [](V & a) { return U(a); }); o("UnitVector3d()", [](double a, double b, double d) { return U(a, b, d); }); o("UnitVector3d()", [](LonLat & a) { return U(a); }); o("UnitVector3d()", [](Angle a, Angle b) { return U(a, b); });
    o("UnitVector3d.__eq__", [](U & a, U & b) { return a == b; }); o("UnitVector3d.__ne__", [](U & a, U & b) { return a != b; }); o("UnitVector3d.__eq__", [](U & a, V & b) { return a == b; }); o("UnitVector3d.__neg__", [](U & a) { return -a; }); o("UnitVector3d.__add__", [](U & a, V & b) { return a + b; }); o("UnitVector3d.__sub__", [](U & a, V & b) { return a - b; }); o("UnitVector3d.__add__", [](U & a, U & b) { return a + b; }); o("UnitVector3d.__sub__", [](U & a, U & b) { return a - b; }); o("UnitVector3d.__mul__", [](U & a, double b) { return a * b; }); o("UnitVector3d.__truediv__", [](U & a, double b) { return a / b; });
    o("UnitVector3d.x", [](U & a) { return a.x(); }); o("UnitVector3d.y", [](U & a) { return a.y(); }); o("UnitVector3d.z", [](U & a) { return a.z(); }); o("UnitVector3d.dot", [](U & a, V & b) { return a.dot(b); }); o("UnitVector3d.dot", [](U & a, U & b) { return a.dot(b); }); o("UnitVector3d.cross", [](U & a, V & b) { return a.cross(b); }); o("UnitVector3d.robustCross", [](U & a, U & b) { return a.robustCross(b); }); o("UnitVector3d.cwiseProduct", [](U & a, V & b) { return a.cwiseProduct(b); }); o("UnitVector3d.rotatedAround", [](U & a, U & b, Angle d) { return a.rotatedAround(b, d); }); o("UnitVector3d.__len__", [](U &) { return 3; }); o("UnitVector3d.__getitem__", [](U & a, Idx i) { return a(index(i, 3)); });
    typedef Matrix3d M;
    o("Matrix3d()", [] { return M(); }); o("Matrix3d()", [](double a, double b, double d, double e, double g, double h, double i, double j, double k) { return M(a, b, d, e, g, h, i, j, k); }); o("Matrix3d()", [](V & v) { return M(v); }); o("Matrix3d()", [](double s) { return M(s); }); o("Matrix3d()", [](M & m) { return M(m); });
    o("Matrix3d.__eq__", [](M & a, M & b) { return a == b; }); o("Matrix3d.__ne__", [](M & a, M & b) { return a != b; }); o("Matrix3d.getRow", [](M & a, Idx i) { return V(a.getRow(index(i, 3))); }); o("Matrix3d.getColumn", [](M & a, Idx i) { return V(a.getColumn(index(i, 3))); }); o("Matrix3d.__len__", [](M &) { return 3; }); o("Matrix3d.__getitem__", [](M & a, Idx i) { return V(a.getRow(index(i, 3))); });
    o("Matrix3d.item2", [](M & a, Idx i, Idx j) { size_t p = index(i, 3), q = index(j, 3); return a(p, q); }); o("Matrix3d.item1", [](M & a, Idx i) { return V(a.getRow(index(i, 3))); }); o("Matrix3d.item0", [](M & a) { return M(a); }); o("Matrix3d.item3", [](M &, Idx, Idx, Idx) -> M { throw std::out_of_range(""); });
    o("Matrix3d.inner", [](M & a, M & b) { return a.inner(b); }); o("Matrix3d.getSquaredNorm", [](M & a) { return a.getSquaredNorm(); }); o("Matrix3d.getNorm", [](M & a) { return a.getNorm(); }); o("Matrix3d.__mul__", [](M & a, V & b) { return a * b; }); o("Matrix3d.__mul__", [](M & a, U & b) { return a * V(b); }); o("Matrix3d.__mul__", [](M & a, M & b) { return a * b; }); o("Matrix3d.__add__", [](M & a, M & b) { return a + b; }); o("Matrix3d.__sub__", [](M & a, M & b) { return a - b; }); o("Matrix3d.cwiseProduct", [](M & a, M & b) { return a.cwiseProduct(b); }); o("Matrix3d.transpose", [](M & a) { return a.transpose(); }); o("Matrix3d.inverse", [](M & a) { return a.inverse(); });
    // intervals
    intervals<AngleInterval, Angle>("AngleInterval"); intervals<NormalizedAngleInterval, N>("NormalizedAngleInterval"); intervals<Interval1d, double>("Interval1d");
    typedef NormalizedAngleInterval NI;
    o("Interval1d.isFull", [](Interval1d & a) { return a.isFull(); });
    o("AngleInterval::fromDegrees", [](double a, double b) { return AngleInterval::fromDegrees(a, b); }); o("AngleInterval::fromRadians", [](double a, double b) { return AngleInterval::fromRadians(a, b); }); o("AngleInterval.contains", [](AngleInterval & a, N b) { return a.contains(Angle(b)); });
    o("NormalizedAngleInterval::fromDegrees", [](double a, double b) { return NI::fromDegrees(a, b); }); o("NormalizedAngleInterval::fromRadians", [](double a, double b) { return NI::fromRadians(a, b); }); o("NormalizedAngleInterval()", [](Angle a) { return NI(a); }); o("NormalizedAngleInterval()", [](Angle a, Angle b) { return NI(a, b); }); o("NormalizedAngleInterval.isFull", [](NI & a) { return a.isFull(); }); o("NormalizedAngleInterval.wraps", [](NI & a) { return a.wraps(); });
    // boxes in space
    typedef Box3d B;
    o("Box3d::empty", [] { return B::empty(); }); o("Box3d::full", [] { return B::full(); }); o("Box3d::aroundUnitSphere", [] { return B::aroundUnitSphere(); }); o("Box3d()", [] { return B(); }); o("Box3d()", [](V & v) { return B(v); }); o("Box3d()", [](V & v, V & w) { return B(v, w); }); o("Box3d()", [](V & v, double a, double b, double d) { return B(v, a, b, d); }); o("Box3d()", [](Interval1d & a, Interval1d & b, Interval1d & d) { return B(a, b, d); }); o("Box3d()", [](B & a) { return B(a); });
    o("Box3d.__eq__", [](B & a, B & b) { return a == b; }); o("Box3d.__ne__", [](B & a, B & b) { return a != b; }); o("Box3d.__eq__", [](B & a, V & b) { return a == b; }); o("Box3d.__ne__", [](B & a, V & b) { return a != b; }); o("Box3d.__contains__", [](B & a, B & b) { return a.contains(b); }); o("Box3d.__contains__", [](B & a, V & b) { return a.contains(b); }); o("Box3d.__len__", [](B &) { return 3; }); o("Box3d.__getitem__", [](B & a, Idx i) { return Interval1d(a(index(i, 3))); });
    o("Box3d.x", [](B & a) { return Interval1d(a.x()); }); o("Box3d.y", [](B & a) { return Interval1d(a.y()); }); o("Box3d.z", [](B & a) { return Interval1d(a.z()); }); o("Box3d.isEmpty", [](B & a) { return a.isEmpty(); }); o("Box3d.isFull", [](B & a) { return a.isFull(); }); o("Box3d.getCenter", [](B & a) { return a.getCenter(); }); o("Box3d.getWidth", [](B & a) { return a.getWidth(); }); o("Box3d.getHeight", [](B & a) { return a.getHeight(); }); o("Box3d.getDepth", [](B & a) { return a.getDepth(); });
    o("Box3d.contains", [](B & a, double p, double q, double r) { return a.contains(p, q, r); });
#define BI(CLS, T, W) \
    o(CLS ".contains", [](T & a, W & b) { return a.contains(b); }); o(CLS ".isDisjointFrom", [](T & a, W & b) { return a.isDisjointFrom(b); }); o(CLS ".intersects", [](T & a, W & b) { return a.intersects(b); }); o(CLS ".isWithin", [](T & a, W & b) { return a.isWithin(b); }); \
    o(CLS ".clipTo", [](T & a, W & b) { return T(a.clipTo(b)); }); o(CLS ".clippedTo", [](T & a, W & b) { return T(a.clippedTo(b)); }); o(CLS ".expandTo", [](T & a, W & b) { return T(a.expandTo(b)); }); o(CLS ".expandedTo", [](T & a, W & b) { return T(a.expandedTo(b)); });
    BI("Box3d", B, V) BI("Box3d", B, B)
    o("Box3d.relate", [](B & a, V & b) { return a.relate(b); }); o("Box3d.relate", [](B & a, B & b) { return a.relate(b); });
    o("Box3d.dilateBy", [](B & a, double b) { return B(a.dilateBy(b)); }); o("Box3d.dilatedBy", [](B & a, double b) { return a.dilatedBy(b); }); o("Box3d.erodeBy", [](B & a, double b) { return B(a.erodeBy(b)); }); o("Box3d.erodedBy", [](B & a, double b) { return a.erodedBy(b); });
    o("Box3d.dilateBy", [](B & a, double b, double d, double e) { return B(a.dilateBy(b, d, e)); }); o("Box3d.dilatedBy", [](B & a, double b, double d, double e) { return a.dilatedBy(b, d, e); }); o("Box3d.erodeBy", [](B & a, double b, double d, double e) { return B(a.erodeBy(b, d, e)); }); o("Box3d.erodedBy", [](B & a, double b, double d, double e) { return a.erodedBy(b, d, e); });
    // regions
    regionOps<Box>("Box"); regionOps<Circle>("Circle"); regionOps<Ellipse>("Ellipse"); regionOps<ConvexPolygon>("ConvexPolygon"); regionOps<UnionRegion>("UnionRegion"); regionOps<IntersectionRegion>("IntersectionRegion");
    o("Region::decode", [](Bytes & b) { return AnyRegion(Region::decode(b.v)); });
#define DEC(T) o(#T "::decode", [](Bytes & b) { return AnyRegion(Region::decode(b.v)); });
    DEC(Box) DEC(Circle) DEC(Ellipse) DEC(ConvexPolygon) DEC(UnionRegion)
    o("Box::fromDegrees", [](double a, double b, double d, double e) { return Box::fromDegrees(a, b, d, e); }); o("Box::fromRadians", [](double a, double b, double d, double e) { return Box::fromRadians(a, b, d, e); }); o("Box::empty", [] { return Box::empty(); }); o("Box::full", [] { return Box::full(); }); o("Box::halfWidthForCircle", [](Angle a, Angle b) { return Box::halfWidthForCircle(a, b); }); o("Box::allLongitudes", [] { return Box::allLongitudes(); }); o("Box::allLatitudes", [] { return Box::allLatitudes(); });
    o("Box()", [] { return Box(); }); o("Box()", [](LonLat & p) { return Box(p); }); o("Box()", [](LonLat & p, LonLat & q) { return Box(p, q); }); o("Box()", [](LonLat & p, Angle a, Angle b) { return Box(p, a, b); }); o("Box()", [](NI & a, AngleInterval & b) { return Box(a, b); }); o("Box()", [](Box & b) { return Box(b); });
    o("Box.__eq__", [](Box & a, Box & b) { return a == b; }); o("Box.__ne__", [](Box & a, Box & b) { return a != b; }); o("Box.__eq__", [](Box & a, LonLat & b) { return a == b; }); o("Box.__ne__", [](Box & a, LonLat & b) { return a != b; }); o("Box.__contains__", [](Box & a, LonLat & b) { return a.contains(b); }); o("Box.__contains__", [](Box & a, Box & b) { return a.contains(b); });
    o("Box.getLon", [](Box & a) { return NI(a.getLon()); }); o("Box.getLat", [](Box & a) { return AngleInterval(a.getLat()); }); o("Box.isEmpty", [](Box & a) { return a.isEmpty(); }); o("Box.isFull", [](Box & a) { return a.isFull(); }); o("Box.getCenter", [](Box & a) { return a.getCenter(); }); o("Box.getWidth", [](Box & a) { return a.getWidth(); }); o("Box.getHeight", [](Box & a) { return a.getHeight(); }); o("Box.getArea", [](Box & a) { return a.getArea(); }); o("Box.relate", [](Box & a, LonLat & b) { return a.relate(b); });
    BI("Box", Box, LonLat) BI("Box", Box, Box)
#define DIL(m) o("Box." #m, [](Box & a, Angle b) { return Box(a.m(b)); }); o("Box." #m, [](Box & a, Angle b, Angle d) { return Box(a.m(b, d)); }); o("Circle." #m, [](Circle & a, Angle b) { return Circle(a.m(b)); });
    DIL(dilateBy) DIL(dilatedBy) DIL(erodeBy) DIL(erodedBy)
    o("Box.dilatedBy", [](Box & a, N b) { return a.dilatedBy(Angle(b)); });
    o("Circle::empty", [] { return Circle::empty(); }); o("Circle::full", [] { return Circle::full(); }); o("Circle::squaredChordLengthFor", [](Angle a) { return Circle::squaredChordLengthFor(a); }); o("Circle::openingAngleFor", [](double a) { return Circle::openingAngleFor(a); });
    o("Circle()", [] { return Circle(); }); o("Circle()", [](U & u) { return Circle(u); }); o("Circle()", [](U & u, Angle a) { return Circle(u, a); }); o("Circle()", [](U & u, double a) { return Circle(u, a); }); o("Circle()", [](Circle & a) { return Circle(a); }); o("Circle()", [](U & u, N a) { return Circle(u, Angle(a)); });
    o("Circle.__eq__", [](Circle & a, Circle & b) { return a == b; }); o("Circle.__ne__", [](Circle & a, Circle & b) { return a != b; }); o("Circle.__contains__", [](Circle & a, Circle & b) { return a.contains(b); }); o("Circle.isEmpty", [](Circle & a) { return a.isEmpty(); }); o("Circle.isFull", [](Circle & a) { return a.isFull(); }); o("Circle.getCenter", [](Circle & a) { return U(a.getCenter()); }); o("Circle.getSquaredChordLength", [](Circle & a) { return a.getSquaredChordLength(); }); o("Circle.getOpeningAngle", [](Circle & a) { return a.getOpeningAngle(); }); o("Circle.getArea", [](Circle & a) { return a.getArea(); }); o("Circle.complement", [](Circle & a) { return Circle(a.complement()); }); o("Circle.complemented", [](Circle & a) { return a.complemented(); });
    BI("Circle", Circle, U) BI("Circle", Circle, Circle)
    o("Ellipse::empty", [] { return Ellipse::empty(); }); o("Ellipse::full", [] { return Ellipse::full(); }); o("Ellipse()", [] { return Ellipse(); }); o("Ellipse()", [](Circle & a) { return Ellipse(a); }); o("Ellipse()", [](U & a) { return Ellipse(a); }); o("Ellipse()", [](U & a, Angle b) { return Ellipse(a, b); }); o("Ellipse()", [](U & a, U & b, Angle d) { return Ellipse(a, b, d); }); o("Ellipse()", [](U & a, Angle b, Angle d, Angle e) { return Ellipse(a, b, d, e); }); o("Ellipse()", [](Ellipse & e) { return Ellipse(e); });
    o("Ellipse.__eq__", [](Ellipse & a, Ellipse & b) { return a == b; }); o("Ellipse.__ne__", [](Ellipse & a, Ellipse & b) { return a != b; }); o("Ellipse.isEmpty", [](Ellipse & a) { return a.isEmpty(); }); o("Ellipse.isFull", [](Ellipse & a) { return a.isFull(); }); o("Ellipse.isGreatCircle", [](Ellipse & a) { return a.isGreatCircle(); }); o("Ellipse.isCircle", [](Ellipse & a) { return a.isCircle(); }); o("Ellipse.getTransformMatrix", [](Ellipse & a) { return M(a.getTransformMatrix()); }); o("Ellipse.getCenter", [](Ellipse & a) { return U(a.getCenter()); }); o("Ellipse.getF1", [](Ellipse & a) { return U(a.getF1()); }); o("Ellipse.getF2", [](Ellipse & a) { return U(a.getF2()); }); o("Ellipse.getAlpha", [](Ellipse & a) { return a.getAlpha(); }); o("Ellipse.getBeta", [](Ellipse & a) { return a.getBeta(); }); o("Ellipse.getGamma", [](Ellipse & a) { return a.getGamma(); }); o("Ellipse.complement", [](Ellipse & a) { return Ellipse(a.complement()); }); o("Ellipse.complemented", [](Ellipse & a) { return a.complemented(); });
    typedef ConvexPolygon P;
    o("ConvexPolygon::convexHull", [](Units & u) { return P::convexHull(u); }); o("ConvexPolygon()", [](Units & u) { return P(u); }); o("ConvexPolygon()", [](P & p) { return P(p); }); o("ConvexPolygon.__eq__", [](P & a, P & b) { return a == b; }); o("ConvexPolygon.__ne__", [](P & a, P & b) { return a != b; }); o("ConvexPolygon.getVertices", [](P & a) { return Units(a.getVertices()); }); o("ConvexPolygon.getCentroid", [](P & a) { return a.getCentroid(); }); o("ConvexPolygon.contains", [](P & a, AnyRegion & b) { return a.contains(*b); }); o("ConvexPolygon.isDisjointFrom", [](P & a, AnyRegion & b) { return a.isDisjointFrom(*b); }); o("ConvexPolygon.intersects", [](P & a, AnyRegion & b) { return a.intersects(*b); }); o("ConvexPolygon.isWithin", [](P & a, AnyRegion & b) { return a.isWithin(*b); });
    o("UnionRegion()", [](AnyRegion & a, AnyRegion & b) { return UnionRegion(*a, *b); }); o("IntersectionRegion()", [](AnyRegion & a, AnyRegion & b) { return IntersectionRegion(*a, *b); }); o("UnionRegion.cloneOperand", [](UnionRegion & a, Idx i) { return a.getOperand(index(i, 2)).clone(); }); o("IntersectionRegion.cloneOperand", [](IntersectionRegion & a, Idx i) { return a.getOperand(index(i, 2)).clone(); });
    // range sets
    typedef RangeSet R;
    o("RangeSet()", [] { return R(); }); o("RangeSet()", [](u64 a) { return R(a); }); o("RangeSet()", [](u64 a, u64 b) { return R(a, b); }); o("RangeSet()", [](R & a) { return R(a); });
    o("RangeSet.__eq__", [](R & a, R & b) { return a == b; }); o("RangeSet.__ne__", [](R & a, R & b) { return a != b; }); o("RangeSet.insert", [](R & a, u64 b) { a.insert(b); return NotSelf(); }); o("RangeSet.insert", [](R & a, u64 b, u64 d) { a.insert(b, d); return NotSelf(); }); o("RangeSet.erase", [](R & a, u64 b) { a.erase(b); return NotSelf(); }); o("RangeSet.erase", [](R & a, u64 b, u64 d) { a.erase(b, d); return NotSelf(); });
    o("RangeSet.complement", [](R & a) { return R(a.complement()); }); o("RangeSet.complemented", [](R & a) { return a.complemented(); }); o("RangeSet.intersection", [](R & a, R & b) { return a.intersection(b); }); o("RangeSet.union", [](R & a, R & b) { return a.join(b); }); o("RangeSet.difference", [](R & a, R & b) { return a.difference(b); }); o("RangeSet.symmetricDifference", [](R & a, R & b) { return a.symmetricDifference(b); });
    o("RangeSet.__invert__", [](R & a) { return ~a; }); o("RangeSet.__and__", [](R & a, R & b) { return a & b; }); o("RangeSet.__or__", [](R & a, R & b) { return a | b; }); o("RangeSet.__sub__", [](R & a, R & b) { return a - b; }); o("RangeSet.__xor__", [](R & a, R & b) { return a ^ b; }); o("RangeSet.__iand__", [](R & a, R & b) { a &= b; return R(a); }); o("RangeSet.__ior__", [](R & a, R & b) { a |= b; return R(a); }); o("RangeSet.__isub__", [](R & a, R & b) { a -= b; return R(a); }); o("RangeSet.__ixor__", [](R & a, R & b) { a ^= b; return R(a); });
    o("RangeSet.__len__", [](R & a) { return (u64)a.size(); }); o("RangeSet.__getitem__", [](R & a, Idx i) { return std::tuple<u64, u64>(a.begin()[index(i, a.size())]); }); o("RangeSet.size", [](R & a) { return (u64)a.size(); }); o("RangeSet.cardinality", [](R & a) { return a.cardinality(); }); o("RangeSet.isValid", [](R & a) { return a.isValid(); }); o("RangeSet.empty", [](R & a) { return a.empty(); }); o("RangeSet.full", [](R & a) { return a.full(); }); o("RangeSet.fill", [](R & a) { a.fill(); return NotSelf(); }); o("RangeSet.clear", [](R & a) { a.clear(); return NotSelf(); });
#define RG(m) o("RangeSet." #m, [](R & a, u64 b) { return a.m(b); }); o("RangeSet." #m, [](R & a, u64 b, u64 d) { return a.m(b, d); }); o("RangeSet." #m, [](R & a, R & b) { return a.m(b); });
    RG(intersects) RG(contains) RG(isWithin) RG(isDisjointFrom)
    o("RangeSet.__contains__", [](R & a, u64 b) { return a.contains(b); }); o("RangeSet.__contains__", [](R & a, R & b) { return a.contains(b); });
    o("RangeSet.simplify", [](R & a, uint32_t n) { return R(a.simplify(n)); }); o("RangeSet.simplified", [](R & a, uint32_t n) { return a.simplified(n); }); o("RangeSet.scale", [](R & a, u64 n) { return R(a.scale(n)); }); o("RangeSet.scaled", [](R & a, u64 n) { return a.scaled(n); });
    o("RangeSet.ranges", [](R & a) { std::vector<std::tuple<u64, u64>> v; for (auto t : a) v.push_back(t); return v; });
    // pixelizations
    pixOps<HtmPixelization>("HtmPixelization"); pixOps<Q3cPixelization>("Q3cPixelization"); pixOps<Mq3cPixelization>("Mq3cPixelization");
    o("HtmPixelization::level", [](u64 i) { return HtmPixelization::level(i); }); o("HtmPixelization::triangle", [](u64 i) { return HtmPixelization::triangle(i); }); o("HtmPixelization::asString", [](u64 i) { return HtmPixelization::asString(i); });
    o("Mq3cPixelization::level", [](u64 i) { return Mq3cPixelization::level(i); }); o("Mq3cPixelization::quad", [](u64 i) { return Mq3cPixelization::quad(i); }); o("Mq3cPixelization::asString", [](u64 i) { return Mq3cPixelization::asString(i); }); o("Mq3cPixelization::neighborhood", [](u64 i) { return Mq3cPixelization::neighborhood(i); });
    o("Q3cPixelization.quad", [](Q3cPixelization & p, u64 i) { return p.quad(i); }); o("Q3cPixelization.neighborhood", [](Q3cPixelization & p, u64 i) { return p.neighborhood(i); });
    o("Pixelization.universe", [](AnyPix & p) { return p->universe(); }); o("Pixelization.pixel", [](AnyPix & p, u64 i) { return p->pixel(i); }); o("Pixelization.index", [](AnyPix & p, U & v) { return p->index(v); }); o("Pixelization.toString", [](AnyPix & p, u64 i) { return p->toString(i); });
    o("Pixelization.envelope", [](AnyPix & p, AnyRegion & r) { return p->envelope(*r); }); o("Pixelization.interior", [](AnyPix & p, AnyRegion & r) { return p->interior(*r); }); o("Pixelization.envelope", [](AnyPix & p, AnyRegion & r, uint32_t n) { return p->envelope(*r, n); }); o("Pixelization.interior", [](AnyPix & p, AnyRegion & r, uint32_t n) { return p->interior(*r, n); });
    // chunker
    o("Chunker()", [](int a, int b) { if (a > 1000 || b > 100) throw std::runtime_error("skip"); return Chunker(a, b); }); o("Chunker.__eq__", [](Chunker & a, Chunker & b) { return a == b; }); o("Chunker.__ne__", [](Chunker & a, Chunker & b) { return a != b; }); o("Chunker:numStripes", [](Chunker & a) { return a.getNumStripes(); }); o("Chunker:numSubStripesPerStripe", [](Chunker & a) { return a.getNumSubStripesPerStripe(); });
    o("Chunker.getChunksIntersecting", [](Chunker & a, AnyRegion & r) { return a.getChunksIntersecting(*r); }); o("Chunker.getSubChunksIntersecting", [](Chunker & a, AnyRegion & r) { return a.getSubChunksIntersecting(*r); }); o("Chunker.getAllChunks", [](Chunker & a) { return a.getAllChunks(); }); o("Chunker.getAllSubChunks", [](Chunker & a, int i) { return a.getAllSubChunks(i); });
    o("Chunker.getChunkBoundingBox", [](Chunker & a, int i, int j) { return a.getChunkBoundingBox(i, j); }); o("Chunker.getSubChunkBoundingBox", [](Chunker & a, int i, int j) { return a.getSubChunkBoundingBox(i, j); }); o("Chunker.getStripe", [](Chunker & a, int i) { return a.getStripe(i); }); o("Chunker.getChunk", [](Chunker & a, int i, int j) { return a.getChunk(i, j); });
}
ALPH(Relationship, "rel", {Relationship(0), Relationship(1), Relationship(2), Relationship(3), Relationship(4), Relationship(5), Relationship(6), Relationship(7)})

static S out;
extern "C" {
char const * ref_table() { if (ops.empty()) table(); out.clear(); for (auto & p : ops) { out += p.name; for (auto & a : p.args) out += "\t" + a; out += "\n"; } return out.c_str(); }
char const * ref_alphabets() { out.clear(); for (auto & a : alphs) { out += a.name; for (auto & v : a.v()) out += "\t" + v; out += "\n"; } return out.c_str(); }
char const * ref_call(int op, int const * k) { out = ops[op].f(k); return out.c_str(); }
}
