// A zoo of regions of every type, each with an independent description of the point set it stands for.
// sd(v) is a clearance: positive means v is inside by at least that angle, negative means outside by at least
// that angle (a lower bound on the distance to the boundary in both cases); it is computed here in extended
// precision from the parameters, never through the library.
#pragma once
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/Region.h"
#include "mc.h"
#include <algorithm>
#include <array>
#include <memory>

namespace zoo {
using namespace lsst::sphgeom;
typedef long double LD;
static const LD LPI = 3.14159265358979323846264338327950288L;
static const LD FAR = 4.0L;

struct V3 {
    LD x, y, z;
    V3() : x(0), y(0), z(0) {}
    V3(LD a, LD b, LD c) : x(a), y(b), z(c) {}
    V3(UnitVector3d const & u) : x(u.x()), y(u.y()), z(u.z()) {}
};
inline V3 operator+(V3 a, V3 b) { return V3(a.x + b.x, a.y + b.y, a.z + b.z); }
inline V3 operator-(V3 a, V3 b) { return V3(a.x - b.x, a.y - b.y, a.z - b.z); }
inline V3 operator*(V3 a, LD s) { return V3(a.x * s, a.y * s, a.z * s); }
inline V3 operator-(V3 a) { return V3(-a.x, -a.y, -a.z); }
inline LD dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) { return V3(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
inline LD norm(V3 a) { return sqrtl(dot(a, a)); }
inline V3 unit(V3 a) { LD n = norm(a); return V3(a.x / n, a.y / n, a.z / n); }
inline LD angle(V3 a, V3 b) {  // accurate for all separations; inputs need not be normalized
    return atan2l(norm(cross(a, b)), dot(a, b));
}
// Normal of the plane through two double-precision vectors, accurate even if they are very close.
inline V3 normalOf(V3 a, V3 b) {
    typedef __float128 Q;
    Q ax = a.x, ay = a.y, az = a.z, bx = b.x, by = b.y, bz = b.z;
    Q x = ay * bz - az * by, y = az * bx - ax * bz, z = ax * by - ay * bx;
    Q m = x < 0 ? -x : x, my = y < 0 ? -y : y, mz = z < 0 ? -z : z;
    if (my > m) m = my;
    if (mz > m) m = mz;
    if (m == 0) return V3();
    return unit(V3((LD)(x / m), (LD)(y / m), (LD)(z / m)));
}
inline V3 lonlat(LD lon, LD lat) { return V3(cosl(lon) * cosl(lat), sinl(lon) * cosl(lat), sinl(lat)); }
inline LD lonOf(V3 v) { LD l = atan2l(v.y, v.x); return l < 0 ? l + 2 * LPI : l; }
inline LD latOf(V3 v) { return atan2l(v.z, hypotl(v.x, v.y)); }
inline V3 anyPerp(V3 c) {
    V3 k = fabsl(c.x) < 0.6L ? V3(1, 0, 0) : V3(0, 1, 0);
    return unit(cross(c, k));
}
inline V3 northAt(V3 c) { return unit(V3(-c.z * c.x, -c.z * c.y, c.x * c.x + c.y * c.y)); }
// The point at angle t from c in direction d (d unit, perpendicular to c).
inline V3 go(V3 c, V3 d, LD t) { return c * cosl(t) + d * sinl(t); }
inline UnitVector3d U(V3 v) {
    v = unit(v);
    return UnitVector3d(Vector3d((double)v.x, (double)v.y, (double)v.z));
}

struct Sh {
    char k = '?';
    std::string name;
    std::shared_ptr<Region> r;
    V3 c, f1, f2, d;      // circle/ellipse center, foci, direction of the alpha axis
    LD rad = 0, be = 0;   // radius or alpha, beta
    LD lon0 = 0, lonw = 0, lat0 = 0, lat1 = 0;
    bool lonfull = false, empty = false, full = false;
    std::vector<V3> v, n;
    std::shared_ptr<Sh> A, B;
    LD tol = 1e-14L;

    LD sd(V3 const & p) const {
        if (empty) return -FAR;
        if (full) return FAR;
        switch (k) {
            case 'c': return rad - angle(c, p);
            case 'e': return (2 * rad - angle(f1, p) - angle(f2, p)) / 2;
            case 'p': {
                LD m = FAR;
                for (auto & q : n) {
                    LD s = dot(q, p) / norm(p);
                    m = std::min(m, asinl(std::max(-1.0L, std::min(1.0L, s))));
                }
                return m;
            }
            case 'b': {
                LD la = latOf(p), m = std::min(la - lat0, lat1 - la);
                if (lat0 <= -LPI / 2 + 1e-17L && lat1 >= LPI / 2 - 1e-16L) m = FAR;
                else if (lat0 <= -LPI / 2 + 1e-16L) m = lat1 - la;
                else if (lat1 >= LPI / 2 - 1e-16L) m = la - lat0;
                if (!lonfull) {
                    LD lo = lonOf(p), x = lo - lon0;
                    while (x < 0) x += 2 * LPI;
                    while (x >= 2 * LPI) x -= 2 * LPI;
                    bool in = x <= lonw;
                    LD e = std::min(meridian(p, lon0), meridian(p, lon0 + lonw));
                    m = std::min(m, in ? e : -e);
                }
                return m;
            }
            case 'u': return std::max(A->sd(p), B->sd(p));
            case 'i': return std::min(A->sd(p), B->sd(p));
        }
        return 0;
    }
    static LD meridian(V3 p, LD lon) {  // distance to the half circle of that longitude
        LD x = cosl(lon) * p.x + sinl(lon) * p.y;
        LD y = -sinl(lon) * p.x + cosl(lon) * p.y;
        LD n = norm(p);
        if (x >= 0) return asinl(std::min(1.0L, fabsl(y) / n));
        return atan2l(hypotl(p.x, p.y), fabsl(p.z));
    }
    int cls(V3 const & p) const { LD s = sd(p); return s > tol ? 1 : s < -tol ? -1 : 0; }
};
typedef std::shared_ptr<Sh> P;

inline P mkCircle(std::string nm, UnitVector3d c, double r) {
    P s(new Sh);
    s->k = 'c'; s->name = nm; s->c = V3(c); s->rad = r;
    s->r.reset(new Circle(c, Angle(r)));
    s->empty = r < 0; s->full = r >= PI;
    LD ch = fabsl(cosl((LD)r / 2));
    s->tol = 2e-15L + std::min(5e-8L, 1e-15L / std::max(ch, 1e-30L));
    return s;
}
inline P mkBoxR(std::string nm, double lonA, double lonB, double latA, double latB, bool lonfull = false) {
    P s(new Sh);
    s->k = 'b'; s->name = nm;
    double a = std::max(latA, -0.5 * PI), b = std::min(latB, 0.5 * PI);
    s->r.reset(new Box(lonfull ? NormalizedAngleInterval::full()
                               : NormalizedAngleInterval::fromRadians(lonA, lonB),
                       AngleInterval::fromRadians(latA, latB)));
    s->lonfull = lonfull;
    s->lon0 = lonA; s->lonw = (LD)lonB - (LD)lonA;
    if (s->lonw < 0) s->lonw += 2 * LPI;
    s->lat0 = a; s->lat1 = b;
    s->empty = !(a <= b);
    s->full = lonfull && a <= -0.5 * PI && b >= 0.5 * PI;
    s->tol = 4e-15L;
    return s;
}
inline P mkBox(std::string nm, double lonA, double lonB, double latA, double latB, bool lonfull = false) {
    double k = PI / 180.0;
    return mkBoxR(nm, lonA * k, lonB * k, latA * k, latB * k, lonfull);
}
inline LD ellTol(LD be) { be = fabsl(sinl(be)); return 4e-15L + std::min(3e-8L, 2e-15L / std::max(be, 1e-30L)); }
// Ellipse given by its foci and semi-major angle.
inline P mkEllF(std::string nm, UnitVector3d f1, UnitVector3d f2, double al) {
    P s(new Sh);
    s->k = 'e'; s->name = nm; s->f1 = V3(f1); s->f2 = V3(f2); s->rad = al;
    s->r.reset(new Ellipse(f1, f2, Angle(al)));
    LD g = angle(s->f1, s->f2) / 2;
    s->empty = al < g; s->full = LPI - al <= g;
    V3 sum = s->f1 + s->f2, df = s->f1 - s->f2;
    s->c = norm(sum) > 0 ? unit(sum) : anyPerp(s->f1);
    s->d = norm(df) > 0 ? unit(df) : anyPerp(s->c);
    LD sb = 1 - powl(cosl((LD)al) / cosl(g), 2);
    s->be = asinl(sqrtl(std::max(0.0L, std::min(1.0L, sb))));
    if (al > LPI / 2) s->be = LPI - s->be;
    s->tol = ellTol(s->be);
    return s;
}
// Ellipse given by center, semi-axes and the position angle of the alpha axis.
inline P mkEllC(std::string nm, UnitVector3d c, double al, double be, double th) {
    P s(new Sh);
    s->k = 'e'; s->name = nm; s->c = V3(c);
    s->r.reset(new Ellipse(c, Angle(al), Angle(be), Angle(th)));
    V3 nn = northAt(unit(s->c)), ee = cross(nn, unit(s->c));
    LD A = al, B = be, T = th;
    // the focal axis is the longer one for ellipses below a hemisphere and the shorter one above
    bool small = A < LPI / 2 || B < LPI / 2;
    if (small ? A < B : A > B) { std::swap(A, B); T += LPI / 2; }
    s->d = nn * cosl(T) + ee * sinl(T);
    s->rad = A; s->be = B;
    // cos(gamma) = cos A / cos B
    LD s2 = (sinl(A) - sinl(B)) * (sinl(A) + sinl(B)) / (cosl(B) * cosl(B));
    LD g = (A == B) ? 0 : asinl(sqrtl(std::max(0.0L, std::min(1.0L, s2))));
    s->f1 = go(unit(s->c), s->d, g); s->f2 = go(unit(s->c), s->d, -g);
    s->empty = al < 0 || be < 0; s->full = al > PI || be > PI || (al == PI && be == PI);
    s->tol = ellTol(std::min(fabsl(sinl(s->be)), fabsl(sinl(s->rad))));
    return s;
}
inline P mkPoly(std::string nm, std::vector<V3> const & pts) {
    P s(new Sh);
    s->k = 'p'; s->name = nm;
    std::vector<UnitVector3d> u;
    for (auto & q : pts) u.push_back(U(q));
    ConvexPolygon * cp = new ConvexPolygon(u);
    s->r.reset(cp);
    for (auto & q : cp->getVertices()) s->v.push_back(V3(q));
    // every vertex must be one of the given points; the half-spaces come from the vertices in the order
    // given by the polygon, which C14 checks separately
    for (size_t i = 0; i < s->v.size(); ++i) s->n.push_back(normalOf(s->v[i], s->v[(i + 1) % s->v.size()]));
    s->tol = 1e-17L;
    return s;
}
inline P mkCompound(char k, P a, P b, std::string nm = "") {
    P s(new Sh);
    s->k = k; s->A = a; s->B = b;
    s->name = nm.empty() ? std::string(k == 'u' ? "union(" : "intersection(") + a->name + "," + b->name + ")" : nm;
    if (k == 'u') s->r.reset(new UnionRegion(*a->r, *b->r));
    else s->r.reset(new IntersectionRegion(*a->r, *b->r));
    s->tol = std::max(a->tol, b->tol);
    if (k == 'u') { s->empty = a->empty && b->empty; s->full = a->full || b->full; }
    else { s->empty = a->empty || b->empty; s->full = a->full && b->full; }
    return s;
}
// Points of a regular polygon around c with circumradius r.
inline std::vector<V3> ring(V3 c, LD r, int n, LD phase = 0.1L) {
    std::vector<V3> o;
    c = unit(c);
    V3 d = anyPerp(c), e = cross(c, d);
    for (int i = 0; i < n; ++i) {
        LD t = phase + 2 * LPI * i / n;
        o.push_back(go(c, d * cosl(t) + e * sinl(t), r));
    }
    return o;
}

// Base points of the boundary of a shape with a direction pointing outwards.
struct Bd { V3 p, out; };
inline void boundary(Sh const & s, std::vector<Bd> & o, int dense) {
    if (s.empty || s.full) return;
    int N = dense ? 24 : 8;
    if (s.k == 'c') {
        V3 c = unit(s.c), d = anyPerp(c), e = cross(c, d);
        auto add = [&](V3 dir) { o.push_back({go(c, dir, s.rad), c * (-sinl(s.rad)) + dir * cosl(s.rad)}); };
        for (int i = 0; i < N; ++i) {
            LD t = 2 * LPI * i / N + 0.05L;
            add(d * cosl(t) + e * sinl(t));
        }
        // towards and away from the coordinate axes (extreme coordinates), and the extreme longitudes
        for (V3 ax : {V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1)}) {
            V3 q = ax - c * dot(ax, c);
            if (norm(q) < 1e-17L) continue;
            q = unit(q);
            add(q); add(-q);
        }
        LD la = latOf(c), lo = lonOf(c);
        if (s.rad < LPI / 2 && fabsl(la) + s.rad < LPI / 2 && s.rad > 0) {
            LD lp = asinl(std::max(-1.0L, std::min(1.0L, sinl(la) / cosl(s.rad))));
            LD w = asinl(std::min(1.0L, sinl(s.rad) / cosl(la)));
            for (int g : {-1, 1}) {
                V3 q = lonlat(lo + g * w, lp);
                o.push_back({q, V3(-sinl(lo + g * w), cosl(lo + g * w), 0) * (LD)g});
            }
        }
    } else if (s.k == 'e') {
        V3 c = unit(s.c), d = s.d, e = cross(c, d);
        LD ta = s.rad, tb = s.be;
        // boundary: x^2 cot^2 a + y^2 cot^2 b = z^2 in the basis (d, e, c)
        for (int i = 0; i < N; ++i) {
            LD t = 2 * LPI * i / N;
            LD x = sinl(ta) * cosl(tb) * cosl(t), y = sinl(tb) * cosl(ta) * sinl(t);
            LD z = cosl(ta) * cosl(tb);
            // (x,y) = (tan a cos t, tan b sin t), z = 1, all multiplied by cos a cos b
            V3 q = unit(d * x + e * y + c * z);
            LD zz = dot(q, c);
            if ((ta < LPI / 2) != (zz > 0)) q = -q;
            V3 w = q - c * dot(q, c);
            if (norm(w) < 1e-18L) continue;
            w = unit(w);
            o.push_back({q, unit(w - q * dot(w, q))});
        }
    } else if (s.k == 'p') {
        size_t n = s.v.size();
        for (size_t i = 0; i < n; ++i) {
            V3 a = unit(s.v[i]), b = unit(s.v[(i + 1) % n]), nn = s.n[i];
            LD len = angle(a, b);
            V3 dir = cross(nn, a);
            for (LD f : {0.0L, 0.003L, 0.25L, 0.5L, 0.75L, 0.997L}) o.push_back({go(a, dir, f * len), -nn});
            // extreme coordinates of the great circle, when they are on the edge
            for (V3 ax : {V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1)}) {
                V3 q = ax - nn * dot(ax, nn);
                if (norm(q) < 1e-17L) continue;
                q = unit(q);
                for (int g : {-1, 1}) {
                    V3 w = q * (LD)g;
                    if (angle(a, w) <= len && angle(w, b) <= len) o.push_back({w, -nn});
                }
            }
        }
        for (size_t i = 0; i < n; ++i) {  // vertices, outwards along the bisector
            V3 a = unit(s.v[i]);
            V3 w = -(s.n[i] + s.n[(i + n - 1) % n]);
            w = w - a * dot(w, a);
            if (norm(w) > 1e-12L) o.push_back({a, unit(w)});
        }
    } else if (s.k == 'b') {
        LD w = s.lonfull ? 2 * LPI : s.lonw;
        std::vector<LD> ts = {0, 0.003L, 0.3L, 0.5L, 0.77L, 0.997L, 1};
        for (LD f : ts) {
            LD lo = s.lon0 + f * w, la = s.lat0 + f * (s.lat1 - s.lat0);
            for (int g : {-1, 1}) {
                LD L = g < 0 ? s.lat0 : s.lat1;
                if (fabsl(L) < LPI / 2 - 1e-15L)
                    o.push_back({lonlat(lo, L), V3(-sinl(L) * cosl(lo), -sinl(L) * sinl(lo), cosl(L)) * (LD)g});
                if (!s.lonfull) {
                    LD M = g < 0 ? s.lon0 : s.lon0 + w;
                    o.push_back({lonlat(M, la), V3(-sinl(M), cosl(M), 0) * (LD)g});
                }
            }
        }
        // where the box edges cross the coordinate planes
        for (int q = 0; q < 4; ++q) {
            LD x = q * LPI / 2 - s.lon0;
            while (x < 0) x += 2 * LPI;
            if (x <= w)
                for (int g : {-1, 1}) {
                    LD L = g < 0 ? s.lat0 : s.lat1, lo = q * LPI / 2;
                    if (fabsl(L) < LPI / 2 - 1e-15L)
                        o.push_back({lonlat(lo, L), V3(-sinl(L) * cosl(lo), -sinl(L) * sinl(lo), cosl(L)) * (LD)g});
                }
        }
        if (s.lat0 <= 0 && s.lat1 >= 0 && !s.lonfull)
            for (int g : {-1, 1}) {
                LD M = g < 0 ? s.lon0 : s.lon0 + w;
                o.push_back({lonlat(M, 0), V3(-sinl(M), cosl(M), 0) * (LD)g});
            }
    } else {
        boundary(*s.A, o, dense);
        boundary(*s.B, o, dense);
    }
}
inline std::vector<LD> offsets(bool dense) {
    if (dense) return {0, 1e-15L, -1e-15L, 1e-13L, -1e-13L, 1e-11L, -1e-11L, 1e-9L, -1e-9L, 3e-8L, -3e-8L, 1e-6L, -1e-6L, 1e-3L, -1e-3L, 0.05L, -0.05L};
    return {0, 1e-13L, -1e-13L, 1e-9L, -1e-9L, 1e-6L, -1e-6L, -1e-3L, 1e-3L};
}
struct Pt { UnitVector3d u; V3 v; };
inline void addPt(std::vector<Pt> & o, V3 v) {
    if (!(norm(v) > 0)) return;
    UnitVector3d u = U(v); o.push_back({u, V3(u)}); }
// Points on, just inside and just outside the boundary of a shape.
inline void boundaryPoints(Sh const & s, std::vector<Pt> & o, int denseB, bool denseO) {
    std::vector<Bd> b;
    boundary(s, b, denseB);
    for (auto & x : b)
        for (LD t : offsets(denseO)) addPt(o, go(unit(x.p), x.out, t));
    if (s.k == 'c' || s.k == 'e') addPt(o, s.c), addPt(o, -s.c);
    if (s.k == 'e' && !s.empty && !s.full) addPt(o, s.f1), addPt(o, s.f2);
}
inline void gridPoints(std::vector<Pt> & o, int nlon, int nlat) {
    for (int i = 0; i <= nlat; ++i)
        for (int j = 0; j < nlon; ++j) {
            addPt(o, lonlat((j + 0.37L * (i % 3)) * 2 * LPI / nlon, -LPI / 2 + (i + 0.0L) * LPI / nlat));
            if (i == 0 || i == nlat) break;
        }
    V3 ax[3] = {V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1)};
    for (int i = 0; i < 3; ++i)
        for (int g : {-1, 1}) {
            addPt(o, ax[i] * (LD)g);
            for (LD e : {1e-300L, 1e-17L, 1e-9L, 1e-8L, 1e-4L})
                for (int k = 1; k < 3; ++k)
                    for (int h : {-1, 1}) {
                        V3 q = ax[i] * (LD)g + ax[(i + k) % 3] * (h * e);
                        UnitVector3d u(Vector3d((double)q.x, (double)q.y, (double)q.z));
                        o.push_back({u, V3(u)});
                    }
        }
    for (int a : {-1, 1}) for (int b : {-1, 1}) for (int c : {-1, 0, 1}) addPt(o, V3(a, b, c)), addPt(o, V3(a, c, b)), addPt(o, V3(c, a, b));
}

// ---------------------------------------------------------------- the zoo
inline std::vector<std::pair<std::string, UnitVector3d>> centers(bool big) {
    std::vector<std::pair<std::string, UnitVector3d>> r;
    auto a = [&](char const * n, V3 v) { r.push_back({n, U(v)}); };
    a("X", V3(1, 0, 0)); a("Z", V3(0, 0, 1)); a("gen", V3(0.6L, 0.48L, 0.64L));
    a("nearZ", V3(7e-9L, -3e-9L, 1)); a("wrap", lonlat(6.2831L, 0.3L)); a("nearX", V3(1, 5e-9L, 8e-9L));
    if (big) {
        a("-Z", V3(0, 0, -1)); a("-Y", V3(0, -1, 0)); a("lat60", lonlat(3.0L, 1.05L)); a("lat-85", lonlat(1.6L, -1.48L));
        a("-gen", V3(-0.6L, -0.48L, -0.64L)); a("eq180", lonlat(LPI, 1e-12L)); a("diag", V3(1, 1, 1)); a("near-Y", V3(2e-9L, -1, 1e-5L));
        a("gen+", V3(0.6L, 0.48L, 0.6401L));
    }
    return r;
}
inline std::vector<P> circles(bool big) {
    std::vector<P> o;
    std::vector<double> rs = {0, 1e-9, 1e-3, 0.5, 0.5 * PI, 2.5};
    if (big) rs = {0, 1e-12, 1e-9, 1e-8, 1e-6, 1e-3, 0.1, 0.5, 1.0, 0.5 * PI - 1e-6, 0.5 * PI, 0.5 * PI + 1e-7, 2.0, 2.5, PI - 1e-3, PI - 1e-7};
    for (auto & c : centers(big))
        for (double r : rs) o.push_back(mkCircle(mc::fmt("circle(%s,%g)", c.first.c_str(), r), c.second, r));
    o.push_back(mkCircle("circle(empty)", UnitVector3d::Z(), -1.0));
    o.push_back(mkCircle("circle(full)", UnitVector3d::Z(), 4.0));
    return o;
}
inline std::vector<P> boxes(bool big) {
    std::vector<P> o;
    struct L { char const * n; double a, b; bool f; };
    std::vector<L> lons = {{"all", 0, 0, true}, {"10..20", 10, 20, false}, {"350..10", 350, 10, false}, {"0..200", 0, 200, false}, {"100..350", 100, 350, false}};
    std::vector<std::pair<double, double>> lats = {{-90, 90}, {10, 20}, {85, 90}, {-30, 45}};
    if (big) {
        lons.push_back({"180..180", 180, 180, false}); lons.push_back({"0..359.99", 0, 359.99, false}); lons.push_back({"90..270", 90, 270, false});
        lons.push_back({"359.9999999..1e-7", 359.9999999, 1e-7, false}); lons.push_back({"0..180", 0, 180, false}); lons.push_back({"45..135", 45, 135, false});
        lats.push_back({0, 0}); lats.push_back({-90, -80}); lats.push_back({-1e-7, 1e-7}); lats.push_back({89.9999999, 90}); lats.push_back({-60, -20});
        lats.push_back({-90, 0}); lats.push_back({90, 90});
    }
    for (auto & l : lons)
        for (auto & t : lats) o.push_back(mkBox(mc::fmt("box(%s,%g..%g)", l.n, t.first, t.second), l.a, l.b, t.first, t.second, l.f));
    o.push_back(mkBox("box(10..10,0..0)", 10, 10, 0, 0));
    o.push_back(mkBox("box(1ulp)", 10, 10.0000000000001, 5, 5.0000000000001));
    o.push_back(mkBox("box(empty)", 10, 20, 5, -5));
    return o;
}
inline std::vector<P> ellipses(bool big) {
    std::vector<P> o;
    auto cs = centers(big);
    std::vector<std::array<double, 3>> ps = {{0.3, 0.1, 0.4}, {0.1, 0.5, 1.0}, {2.5, 2.9, 0.3}, {1e-3, 1e-5, 2.0}};
    if (big) {
        ps.push_back({1.5, 0.01, 0}); ps.push_back({1e-6, 3e-6, -1}); ps.push_back({1.6, 3.1, 0.2}); ps.push_back({0.4, 0.4, 0}); ps.push_back({2.0, 1.8, 5});
        ps.push_back({1e-9, 5e-10, 0.5}); ps.push_back({0.5 * PI, 0.5 * PI, 0}); ps.push_back({3.1415, 3.1414, 0.1}); ps.push_back({0.7, 0.0, 0.3});
    }
    for (auto & c : cs) {
        if (c.first == "Z" || c.first == "-Z") continue;  // position angles are not meaningful there
        for (auto & p : ps) o.push_back(mkEllC(mc::fmt("ellipse(%s,%g,%g,%g)", c.first.c_str(), p[0], p[1], p[2]), c.second, p[0], p[1], p[2]));
    }
    UnitVector3d f[] = {U(V3(1, 0, 0)), U(V3(1, 0.2L, 0)), U(V3(0.6L, 0.48L, 0.64L)), U(V3(0, 0, 1)), U(V3(-1, 0.1L, 0.1L)), U(V3(0, 0.3L, 1)), U(V3(1e-4L, 0, 1))};
    int nf = big ? 7 : 4;
    for (int i = 0; i < nf; ++i)
        for (int j = i + 1; j < nf; ++j)
            for (double al : {0.001, 0.7, 1.4, 2.4}) {
                LD g = angle(V3(f[i]), V3(f[j])) / 2;
                if (fabsl(al - g) < 1e-6L || fabsl(LPI - al - g) < 1e-6L) continue;
                o.push_back(mkEllF(mc::fmt("ellipse(f%d,f%d,%g)", i, j, al), f[i], f[j], al));
            }
    o.push_back(mkEllF("ellipse(f0,f0,0.5)", f[0], f[0], 0.5));
    o.push_back(mkEllF("ellipse(f3,f3,1e-7)", f[3], f[3], 1e-7));
    o.push_back(mkEllF("ellipse(point)", f[2], f[2], 0));
    { P s(new Sh); s->k = 'e'; s->name = "ellipse(empty)"; s->empty = true; s->r.reset(new Ellipse()); o.push_back(s); }
    { P s(new Sh); s->k = 'e'; s->name = "ellipse(full)"; s->full = true; s->r.reset(new Ellipse(Ellipse::full())); o.push_back(s); }
    return o;
}
inline std::vector<P> polygons(bool big) {
    std::vector<P> o;
    V3 X(1, 0, 0), Y(0, 1, 0), Z(0, 0, 1), G(0.6L, 0.48L, 0.64L);
    auto add = [&](char const * n, std::vector<V3> v) { o.push_back(mkPoly(std::string("polygon(") + n + ")", v)); };
    add("octant", {X, Y, Z});
    add("octant-", {-X, -Y, -Z});
    add("octant2", {Y, -X, Z});
    add("pole quad", ring(Z, 0.3L, 4));
    add("gen tri small", ring(G, 1e-3L, 3));
    add("gen tri tiny", ring(G, 1e-8L, 3));
    add("gen quad", ring(G, 0.5L, 4));
    add("hex nearly hemisphere", ring(G, 1.55L, 6));
    add("wrap pent", ring(lonlat(6.2831L, 0.2L), 0.2L, 5));
    add("sliver", {lonlat(0.1L, 0), lonlat(1.1L, 1e-7L), lonlat(0.6L, 2e-7L)});
    add("lune-like", {lonlat(0, 0), lonlat(3.0L, 0), lonlat(1.5L, 0.4L)});
    add("edge bulge", {lonlat(0, 1.0L), lonlat(2.8L, 1.0L), lonlat(1.4L, 0.2L)});
    add("near equator edge", {lonlat(-1.0L, 8e-9L), lonlat(0, -0.3L), lonlat(1.0L, 8e-9L)});
    add("south cap", ring(-Z, 0.7L, 7));
    if (big) {
        add("pole vertex", {Z, lonlat(2.0L, 1.2L), lonlat(4.0L, 1.1L)});
        add("pole vertex 2", {Z, lonlat(4.0L, 1.1L), lonlat(5.9L, 1.1L)});
        add("pole on edge", {lonlat(1.0L, 1.3L), lonlat(1.0L + LPI, 1.2L), lonlat(2.5L, 0.9L)});
        add("near pole vertex", {lonlat(3.0L, LPI / 2 - 1e-12L), lonlat(2.0L, 1.2L), lonlat(4.0L, 1.1L)});
        add("near pole inside", {lonlat(3.0L, LPI / 2 - 1e-9L), lonlat(0.5L, 1.2L), lonlat(5.9L, 1.1L)});
        add("20-gon", ring(G, 0.9L, 20));
        add("20-gon tiny", ring(X, 1e-6L, 20));
        add("hemisphere quad Z", ring(Z, LPI / 2 - 1e-9L, 4));
        add("hemisphere quad X", ring(X, LPI / 2 - 1e-4L, 5));
        add("asym long", {lonlat(0, 0), lonlat(3.1L, 0), lonlat(0.3L, 1.0L)});
        add("asym long 2", {lonlat(1, -0.2L), lonlat(4.1L, 0.1L), lonlat(1.3L, -1.2L), lonlat(2.0L, -1.0L)});
        add("wide", {lonlat(0, 0), lonlat(1.5L, -0.05L), lonlat(3.0L, 0), lonlat(2.0L, 1.4L), lonlat(0.7L, 1.4L)});
        add("meridian edges", {lonlat(1, -0.4L), lonlat(1.2L, -0.4L), lonlat(1.2L, 0.5L), lonlat(1, 0.5L)});
        add("near X plane", {V3(6e-9L, 1, 0.5L), V3(6e-9L, -1, 0.5L), V3(0.5L, 0, 1)});
        add("needle", {lonlat(0.5L, 0.5L), lonlat(2.5L, 0.7L), lonlat(2.5L, 0.7L + 1e-9L)});
        add("contains X", ring(X, 0.05L, 6));
        add("contains -Y", ring(-Y, 1e-5L, 3));
        add("inner gen", ring(G, 0.25L, 4));
        add("shared edge", {X, Y, -Z});
        add("shared vertex", {X, unit(X + Y * 0.4L - Z * 0.3L), unit(X - Y * 0.1L - Z * 0.4L)});
    }
    return o;
}
inline std::vector<P> simple(bool big) {
    std::vector<P> o = circles(big), b = boxes(big), e = ellipses(big), p = polygons(big);
    o.insert(o.end(), b.begin(), b.end());
    o.insert(o.end(), e.begin(), e.end());
    o.insert(o.end(), p.begin(), p.end());
    return o;
}
inline P find(std::vector<P> const & z, std::string const & n) {
    for (auto & s : z) if (s->name == n) return s;
    throw std::runtime_error("zoo: no " + n);
}
// A small alphabet with at least one overlapping, nested, disjoint, empty and full operand of each kind.
inline std::vector<P> operands(bool big) {
    std::vector<P> o;
    UnitVector3d g = U(V3(0.6L, 0.48L, 0.64L));
    o.push_back(mkCircle("A", g, 0.4));
    o.push_back(mkCircle("B", U(V3(0.6L, 0.48L, 0.2L)), 0.4));
    o.push_back(mkBox("C", 20, 60, 10, 50));
    o.push_back(mkPoly("D", ring(V3(0.6L, 0.5L, 0.6L), 0.3L, 5)));
    o.push_back(mkEllC("E", U(V3(0.5L, 0.5L, 0.5L)), 0.5, 0.2, 0.7));
    o.push_back(mkCircle("N", UnitVector3d::Z(), -1.0));
    if (big) {
        o.push_back(mkCircle("F", UnitVector3d::Z(), 4.0));
        o.push_back(mkBox("W", 340, 40, -20, 30));
        o.push_back(mkCircle("a", g, 0.1));
        o.push_back(mkPoly("Q", ring(V3(-0.6L, 0.5L, -0.6L), 0.3L, 4)));
        o.push_back(mkCircle("H", U(V3(-0.6L, -0.48L, -0.64L)), 2.5));
    }
    return o;
}
inline std::vector<P> compounds(bool big) {
    auto a = operands(big);
    std::vector<P> o;
    for (size_t i = 0; i < a.size(); ++i)
        for (size_t j = 0; j < a.size(); ++j) {
            if (!big && j < i) continue;
            o.push_back(mkCompound('u', a[i], a[j]));
            o.push_back(mkCompound('i', a[i], a[j]));
        }
    size_t n = o.size();
    for (size_t i = 0; i < n; i += big ? 3 : 5)
        for (size_t j = 0; j < a.size(); j += 2) {
            o.push_back(mkCompound((i + j) & 1 ? 'u' : 'i', o[i], a[j]));
            o.push_back(mkCompound((i + j) & 1 ? 'i' : 'u', a[j], o[i]));
        }
    return o;
}
// ---------------------------------------------------------------- exhaustive parameter lattices
// Every box, circle, triangle, quadrangle and ellipse whose parameters are on a lattice.
inline void latticeBoxes(int n, std::vector<LD> const & lats, std::vector<P> & o) {
    // start and end longitudes are multiples of 1/n of a turn, shifted off the axes by 0 or a third of a step
    for (int sh = 0; sh < 2; ++sh)
        for (int a = 0; a < n; ++a)
            for (int b = 0; b < n; ++b)
                for (size_t i = 0; i < lats.size(); ++i)
                    for (size_t j = i; j < lats.size(); ++j) {
                        LD s = 2 * LPI / n;
                        o.push_back(mkBoxR(mc::fmt("lbox(%d/%d,%d..%d,%Lg..%Lg)", n, sh, a, b, lats[i], lats[j]), (double)((a + sh / 3.0L) * s), (double)((b + sh / 3.0L) * s), (double)lats[i], (double)lats[j]));
                    }
}
inline void latticeCircles(int n, std::vector<LD> const & lats, std::vector<double> const & rs, std::vector<P> & o) {
    for (int a = 0; a < n; ++a)
        for (LD la : lats)
            for (double r : rs) o.push_back(mkCircle(mc::fmt("lcircle(%d/%d,%Lg,%g)", a, n, la, r), U(lonlat(a * 2 * LPI / n, la)), r));
}
inline void latticeEllipses(int n, std::vector<LD> const & lats, std::vector<double> const & ax, int nth, std::vector<P> & o) {
    for (int a = 0; a < n; ++a)
        for (LD la : lats)
            for (double x : ax)
                for (double y : ax)
                    for (int t = 0; t < nth; ++t) {
                        if ((x < 0.5 * PI) != (y < 0.5 * PI)) continue;
                        o.push_back(mkEllC(mc::fmt("lellipse(%d/%d,%Lg,%g,%g,%d/%d)", a, n, la, x, y, t, nth), U(lonlat((a + 0.1L) * 2 * LPI / n, la)), x, y, (double)(LPI * t / nth)));
                    }
}
// All hulls of k of the given points that exist.
inline void latticePolygons(char const * nm, std::vector<V3> const & pts, int k, std::vector<P> & o) {
    size_t n = pts.size();
    std::vector<size_t> c(k);
    for (int i = 0; i < k; ++i) c[i] = i;
    for (;;) {
        std::vector<V3> v;
        std::string s = std::string("lpoly(") + nm;
        for (size_t i : c) v.push_back(pts[i]), s += mc::fmt(",%zu", i);
        V3 sum;
        for (auto & q : v) sum = sum + unit(q);
        // far from degenerate and from a full hemisphere: some direction has all points within 89.4 degrees
        bool ok = norm(sum) > 1e-3L;
        if (ok) {
            try {
                P p = mkPoly(s + ")", v);
                if (p->v.size() == (size_t)k) o.push_back(p);
            } catch (std::invalid_argument &) {}
        }
        int i = k - 1;
        while (i >= 0 && c[i] == n - k + i) --i;
        if (i < 0) break;
        ++c[i];
        for (int j = i + 1; j < k; ++j) c[j] = c[j - 1] + 1;
    }
}
inline std::vector<V3> latticeDirs(int which) {
    std::vector<V3> o;
    if (which == 0) {  // the cube's vertices, edges and faces
        for (int a = -1; a <= 1; ++a) for (int b = -1; b <= 1; ++b) for (int c = -1; c <= 1; ++c) if (a || b || c) o.push_back(V3(a, b, c));
    } else if (which == 1) {  // rings of latitude, no two points on an axis or the same meridian
        int k = 0;
        for (LD la : {-1.4L, -0.8L, -0.1L, 0.3L, 0.9L, 1.5L})
            for (int i = 0; i < 5; ++i) o.push_back(lonlat(i * 2 * LPI / 5 + 0.17L * ++k, la));
    } else {
        int k = 0;
        for (LD la : {-1.5L, -1.1L, -0.6L, -0.2L, 0.0L, 0.4L, 0.7L, 1.2L})
            for (int i = 0; i < 6; ++i) o.push_back(lonlat(i * 2 * LPI / 6 + 0.11L * ++k, la));
    }
    return o;
}
// Levels: -2 (some 300 regions), -1 (some 4000), 0 (11508), 1.
inline std::vector<P> lattice(int level) {
    std::vector<P> o;
    if (level < 0) {
        bool c = level < -1;
        latticeBoxes(c ? 3 : 6, c ? std::vector<LD>{-LPI / 2, -0.5L, 0.3L, LPI / 2} : std::vector<LD>{-LPI / 2, -1.2L, -0.5L, 0, 0.3L, 1.0L, LPI / 2}, o);
        latticeCircles(c ? 3 : 8, c ? std::vector<LD>{-1.0L, 0, 0.4L} : std::vector<LD>{-1.4L, -0.7L, 0, 0.4L, 1.0L, 1.5L}, c ? std::vector<double>{0.2, 1.1, 0.5 * PI, 2.8} : std::vector<double>{1e-5, 0.2, 0.6, 1.1, 0.5 * PI, 1.9, 2.8}, o);
        latticeEllipses(c ? 2 : 5, c ? std::vector<LD>{0.5L} : std::vector<LD>{-1.2L, 0.5L}, {0.05, 0.4, 1.2, 1.8, 2.7}, c ? 2 : 5, o);
        std::vector<V3> d;
        for (auto & v : latticeDirs(0)) if (((v.x != 0) + (v.y != 0) + (v.z != 0)) != 2 && (!c || v.x + v.y + v.z > 0)) d.push_back(v);
        latticePolygons("cube", d, 3, o);
        d.clear();
        std::vector<V3> rings = latticeDirs(1);
        for (size_t i = 0; i < rings.size(); i += c ? 4 : 2) d.push_back(rings[i]);
        latticePolygons("rings", d, 3, o);
        return o;
    }
    std::vector<LD> la = {-LPI / 2, -1.2L, -0.5L, 0, 0.3L, 1.0L, LPI / 2};
    latticeBoxes(level ? 16 : 8, la, o);
    std::vector<double> rs = {1e-5, 0.2, 0.6, 1.1, 0.5 * PI, 1.9, 2.8};
    if (level) rs.insert(rs.end(), {1e-8, 0.01, 0.4, 0.9, 1.3, 1.5, 1.7, 2.3, 2.6, 3.1});
    latticeCircles(level ? 24 : 8, level ? std::vector<LD>{-1.5L, -1.2L, -0.9L, -0.5L, -0.2L, 0, 0.1L, 0.4L, 0.7L, 1.0L, 1.3L, 1.55L} : std::vector<LD>{-1.4L, -0.7L, 0, 0.4L, 1.0L, 1.5L}, rs, o);
    std::vector<double> ax = {0.05, 0.4, 1.2, 1.8, 2.7};
    if (level) ax = {1e-6, 0.01, 0.2, 0.5, 0.9, 1.4, 1.7, 2.0, 2.4, 3.0};
    latticeEllipses(level ? 12 : 8, level ? std::vector<LD>{-1.4L, -0.9L, -0.3L, 0, 0.5L, 1.1L, 1.5L} : std::vector<LD>{-1.2L, 0, 0.5L}, ax, level ? 8 : 5, o);
    latticePolygons("cube", latticeDirs(0), 3, o);
    latticePolygons("rings", latticeDirs(1), 3, o);
    if (level) {
        latticePolygons("cube", latticeDirs(0), 4, o);
        latticePolygons("rings", latticeDirs(1), 4, o);
        latticePolygons("rings2", latticeDirs(2), 3, o);
    }
    return o;
}
}  // namespace zoo
