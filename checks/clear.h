// Exact separations and the relationships that they require, in extended precision and independent of the library.
#pragma once
#include "zoo.h"
namespace zoo {
// ---- conclusiveness: exact separations in extended precision
inline LD segDist(V3 p, V3 a, V3 b, V3 n, LD * mx) {  // min and max angle from p to the arc a-b with normal n
    LD da = angle(p, a), db = angle(p, b), mn = std::min(da, db);
    *mx = std::max(da, db);
    V3 q = p - n * dot(p, n);
    if (norm(q) < 1e-18L) { mn = std::min(mn, LPI / 2); return mn; }
    q = unit(q);
    LD len = angle(a, b);
    if (angle(a, q) <= len && angle(q, b) <= len) mn = std::min(mn, angle(p, q));
    V3 m = -q;
    if (angle(a, m) <= len && angle(m, b) <= len) *mx = std::max(*mx, angle(p, m));
    return mn;
}
// distances from p to the boundary of a polygon or box (min, max)
inline void boundaryDist(Sh const & s, V3 p, LD & mn, LD & mx) {
    mn = 10; mx = 0;
    if (s.k == 'p') {
        size_t n = s.v.size();
        for (size_t i = 0; i < n; ++i) {
            LD m, d = segDist(p, unit(s.v[i]), unit(s.v[(i + 1) % n]), s.n[i], &m);
            mn = std::min(mn, d); mx = std::max(mx, m);
        }
    } else {
        LD la = latOf(p), lo = lonOf(p);
        // (a box of all longitudes is relied on to be conclusive only away from the meridian where it is cut)
            for (int g = 0; g < 2; ++g) {
                LD M = s.lon0 + g * (s.lonfull ? 0 : s.lonw);
                V3 a = lonlat(M, s.lat0), b = lonlat(M, s.lat1), nn(sinl(M), -cosl(M), 0);
                LD m, d = segDist(p, a, b, nn, &m);
                mn = std::min(mn, d); mx = std::max(mx, m);
            }
        for (int g = 0; g < 2; ++g) {
            LD L = g ? s.lat1 : s.lat0, w = s.lonfull ? 2 * LPI : s.lonw;
            LD x = lo - s.lon0;
            while (x < 0) x += 2 * LPI;
            while (x >= 2 * LPI) x -= 2 * LPI;
            LD ox = x >= LPI ? x - LPI : x + LPI;   // the opposite longitude
            auto dl = [&](LD d) { return angle(p, lonlat(s.lon0 + d, L)); };
            LD e = std::min(dl(0), dl(w)), f = std::max(dl(0), dl(w));
            if (s.lonfull || x <= w) e = std::min(e, fabsl(la - L)), f = std::max(f, dl(x));
            if (s.lonfull || ox <= w) f = std::max(f, dl(ox)), e = std::min(e, dl(ox));
            mn = std::min(mn, e); mx = std::max(mx, f);
        }
    }
}
static const LD CL = 1e-6L;  // "clearly"
inline bool arcsNear(V3 a, V3 b, V3 n, V3 c, V3 d, V3 m) {  // within CL of each other (or crossing)
    LD t;
    if (segDist(a, c, d, m, &t) < CL || segDist(b, c, d, m, &t) < CL || segDist(c, a, b, n, &t) < CL || segDist(d, a, b, n, &t) < CL) return true;
    V3 x = cross(n, m);
    if (norm(x) < 1e-15L) return false;
    x = unit(x);
    for (int g : {-1, 1}) {
        V3 q = x * (LD)g;
        if (angle(a, q) <= angle(a, b) && angle(q, b) <= angle(a, b) && angle(c, q) <= angle(c, d) && angle(q, d) <= angle(c, d)) return true;
    }
    return false;
}
// Returns the relationship that is required: 0 = none in particular.
inline int required(Sh const & a, Sh const & b) {   // bit 1 disjoint, 2 a contains b, 4 a within b
    if (a.empty || b.empty || a.full || b.full) return 0;
    if (a.k == 'c' && b.k == 'c') {
        LD d = angle(a.c, b.c);
        return (d > a.rad + b.rad + CL ? 1 : 0) | (d + b.rad + CL < a.rad ? 2 : 0) | (d + a.rad + CL < b.rad ? 4 : 0);
    }
    if (a.k == 'b' && b.k == 'b') {
        auto cont = [](Sh const & x, Sh const & y) {  // x clearly contains y
            bool la = (x.lat0 <= y.lat0 - CL || x.lat0 <= -LPI / 2 + 1e-15L) && (x.lat1 >= y.lat1 + CL || x.lat1 >= LPI / 2 - 1e-15L);
            if (!la) return false;
            if (x.lonfull) return true;
            if (y.lonfull) return false;
            LD o = y.lon0 - x.lon0;
            while (o < 0) o += 2 * LPI;
            return o > CL && o + y.lonw < x.lonw - CL;
        };
        bool dis = a.lat1 < b.lat0 - CL || b.lat1 < a.lat0 - CL;
        if (!a.lonfull && !b.lonfull) {
            LD o = b.lon0 - a.lon0;
            while (o < 0) o += 2 * LPI;
            if (o > a.lonw + CL && o + b.lonw < 2 * LPI - CL) dis = true;
        }
        return (dis ? 1 : 0) | (cont(a, b) ? 2 : 0) | (cont(b, a) ? 4 : 0);
    }
    if (a.k == 'p' && b.k == 'p') {
        bool an = false, bin = true, bout = true, ain = true, aout = true;
        size_t na = a.v.size(), nb = b.v.size();
        for (auto & v : b.v) { LD s = a.sd(unit(v)); if (s < CL) bin = false; if (s > -CL) bout = false; }
        for (auto & v : a.v) { LD s = b.sd(unit(v)); if (s < CL) ain = false; if (s > -CL) aout = false; }
        if (bin) return 2;
        if (ain) return 4;
        if (!aout || !bout) return 0;
        for (size_t i = 0; i < na && !an; ++i)
            for (size_t j = 0; j < nb && !an; ++j)
                an = arcsNear(unit(a.v[i]), unit(a.v[(i + 1) % na]), a.n[i], unit(b.v[j]), unit(b.v[(j + 1) % nb]), b.n[j]);
        return an ? 0 : 1;
    }
    if ((a.k == 'b' || a.k == 'p') && b.k == 'c') {
        LD mn, mx, s = a.sd(unit(b.c));
        boundaryDist(a, unit(b.c), mn, mx);
        // the antipode of the circle center decides whether the far side is inside a
        LD so = a.sd(-unit(b.c));
        int r = 0;
        if (s < 0 && mn > b.rad + CL) r |= 1;
        if (s > 0 && mn > b.rad + CL) r |= 2;
        if (so < -CL && mx < b.rad - CL) r |= 4;
        return r;
    }
    if (a.k == 'c' && (b.k == 'b' || b.k == 'p')) {
        int r = required(b, a);
        return (r & 1) | (r & 2 ? 4 : 0) | (r & 4 ? 2 : 0);
    }
    return 0;
}

}  // namespace zoo
