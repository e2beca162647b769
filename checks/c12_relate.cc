// C12: relationships between regions, and membership, against the point sets the regions stand for.
#include "clear.h"
using namespace zoo;
using mc::fmt;

static std::string rel(Relationship r) {
    std::string s;
    if ((r & DISJOINT) != 0) s += "DISJOINT ";
    if ((r & CONTAINS) != 0) s += "CONTAINS ";
    if ((r & WITHIN) != 0) s += "WITHIN ";
    return s.empty() ? "INTERSECTS" : s;
}
static bool has(Relationship r, Relationship b) { return (r & b) != 0; }
static Relationship typed(Region const & a, Sh const & b) {
    switch (b.k) {
        case 'c': return a.relate(static_cast<Circle const &>(*b.r));
        case 'b': return a.relate(static_cast<Box const &>(*b.r));
        case 'p': return a.relate(static_cast<ConvexPolygon const &>(*b.r));
        case 'e': return a.relate(static_cast<Ellipse const &>(*b.r));
    }
    return a.relate(*b.r);
}
static bool compound(Sh const & s) { return s.k == 'u' || s.k == 'i'; }

int main(int argc, char ** argv) {
    return mc::run(argc, argv, [] {
        bool T = mc::thorough();
        std::vector<P> z = simple(T), cz = compounds(T);
        size_t nsimple = z.size();
        z.insert(z.end(), cz.begin(), cz.end());
        std::vector<Pt> pts;
        gridPoints(pts, T ? 90 : 48, T ? 45 : 24);
        for (size_t i = 0; i < nsimple; ++i) boundaryPoints(*z[i], pts, 0, false);
        for (auto & s : operands(T)) boundaryPoints(*s, pts, 1, true);
        size_t S = z.size(), N = pts.size(), W = (N + 63) / 64;
        std::vector<std::vector<uint64_t>> in(S, std::vector<uint64_t>(W)), out = in, lib = in;
        // ---- membership
        mc::section("membership");
        for (size_t i = 0; i < S; ++i) {
            bool mineS = mc::mine(i);
            for (size_t p = 0; p < N; ++p) {
                int c = z[i]->cls(pts[p].v);
                if (c > 0) in[i][p / 64] |= 1ull << (p & 63);
                if (c < 0) out[i][p / 64] |= 1ull << (p & 63);
                if (z[i]->r->contains(pts[p].u)) lib[i][p / 64] |= 1ull << (p & 63);
                if (mineS && c != 0) {
                    mc::at(i, p);
                    mc::trans();
                    bool l = z[i]->r->contains(pts[p].u);
                    if (l != (c > 0))
                        mc::fail(fmt("%s point %zu", z[i]->name.c_str(), p),
                                 fmt("clearance %Lg but contains says %d; v=(%a,%a,%a)", z[i]->sd(pts[p].v), l, pts[p].u.x(), pts[p].u.y(), pts[p].u.z()));
                }
            }
            if (mineS) {
                mc::state();
                if (mc::wantSample()) mc::sample(z[i]->name);
            }
        }
        // membership by coordinates
        mc::section("membership-forms");
        for (size_t i = 0; i < S; ++i)
            if (mc::mine(i)) {
                mc::state();
                for (size_t p = 0; p < N; p += 97) {
                    auto & u = pts[p].u;
                    mc::at(i, p);
                    bool d = z[i]->r->contains(u);
                    if (z[i]->r->contains(u.x(), u.y(), u.z()) != z[i]->r->contains(UnitVector3d(u.x(), u.y(), u.z())))
                        mc::fail(fmt("%s xyz %zu", z[i]->name.c_str(), p));
                    LonLat ll(u);
                    if (z[i]->r->contains(ll.getLon().asRadians(), ll.getLat().asRadians()) != z[i]->r->contains(UnitVector3d(ll)))
                        mc::fail(fmt("%s lonlat %zu", z[i]->name.c_str(), p));
                    if (z[i]->r->contains(3 * u.x(), 3 * u.y(), 3 * u.z()) != d && fabsl(z[i]->sd(pts[p].v)) > std::max(z[i]->tol, 1e-15L))
                        mc::fail(fmt("%s scaled %zu", z[i]->name.c_str(), p));
                    mc::trans(3);
                }
            }
        // ---- all ordered pairs
        mc::section("pairs");
        for (size_t a = 0; a < S; ++a) {
            if (!mc::mine(a)) continue;
            mc::state();
            for (size_t b = 0; b < S; ++b) {
                mc::at(a, b);
                Sh const & A = *z[a], & B = *z[b];
                if (compound(A) && compound(B) && (a + b) % 3 && !T) continue;
                Relationship r = A.r->relate(*B.r);
                mc::trans();
                auto key = [&] { return A.name + " ~ " + B.name; };
                auto first = [&](int mode) -> long {
                    for (size_t w = 0; w < W; ++w) {
                        uint64_t x = mode == 0 ? in[a][w] & in[b][w] : mode == 1 ? in[b][w] & out[a][w] : in[a][w] & out[b][w];
                        if (x) return (long)(w * 64 + __builtin_ctzll(x));
                    }
                    return -1;
                };
                auto say = [&](long p) { auto & u = pts[p].u; return fmt("%s but v=(%.17g,%.17g,%.17g) has clearances %Lg and %Lg", rel(r).c_str(), u.x(), u.y(), u.z(), A.sd(pts[p].v), B.sd(pts[p].v)); };
                long p;
                if (has(r, DISJOINT) && (p = first(0)) >= 0) mc::fail(key() + " disjoint", say(p));
                if (has(r, CONTAINS) && (p = first(1)) >= 0) mc::fail(key() + " contains", say(p));
                if (has(r, WITHIN) && (p = first(2)) >= 0) mc::fail(key() + " within", say(p));
                auto firstL = [&](int mode) -> long {
                    for (size_t w = 0; w < W; ++w) {
                        uint64_t x = mode == 0 ? lib[a][w] & lib[b][w] : mode == 1 ? lib[b][w] & ~lib[a][w] : lib[a][w] & ~lib[b][w];
                        if (x) return (long)(w * 64 + __builtin_ctzll(x));
                    }
                    return -1;
                };
                if (has(r, DISJOINT) && (p = firstL(0)) >= 0) mc::fail(key() + " disjoint by membership", say(p));
                if (has(r, CONTAINS) && (p = firstL(1)) >= 0) mc::fail(key() + " contains by membership", say(p));
                if (has(r, WITHIN) && (p = firstL(2)) >= 0) mc::fail(key() + " within by membership", say(p));
                if ((has(r, CONTAINS) || has(r, WITHIN)) && has(r, DISJOINT) && !A.empty && !B.empty && !compound(A) && !compound(B))
                    mc::fail(key(), "both disjoint and nested although neither is empty: " + rel(r));
                mc::outcome(rel(r));
                if (typed(*A.r, B) != r) mc::fail(key() + " dispatch", "the overload for the argument type gives " + rel(typed(*A.r, B)) + " not " + rel(r));
                if (!compound(A) && !compound(B)) {
                    Relationship q = B.r->relate(*A.r);
                    if (q != invert(r)) mc::fail(key() + " mirror", rel(r) + " but the other way around " + rel(q));
                    // (relations with ellipses, and of a polygon with a box, go through bounds: nesting may be left open)
                    if (A.empty && !(has(r, DISJOINT) && (has(r, WITHIN) || B.k == 'e' || (A.k == 'b' && B.k == 'p')))) mc::fail(key() + " empty", rel(r));
                    if (B.empty && !(has(r, DISJOINT) && (has(r, CONTAINS) || A.k == 'e' || (B.k == 'b' && A.k == 'p')))) mc::fail(key() + " empty", rel(r));
                    int q2 = required(A, B);
                    if ((q2 & 1) && !has(r, DISJOINT)) mc::fail(key() + " conclusive", "clearly separated but " + rel(r));
                    if ((q2 & 2) && !has(r, CONTAINS)) mc::fail(key() + " conclusive", "clearly contained but " + rel(r));
                    if ((q2 & 4) && !has(r, WITHIN)) mc::fail(key() + " conclusive", "clearly within but " + rel(r));
                    if (q2) mc::trace();
                    // polygons also answer by name
                    if (A.k == 'p') {
                        auto & cp = static_cast<ConvexPolygon const &>(*A.r);
                        if (cp.contains(*B.r) != has(r, CONTAINS) || cp.isWithin(*B.r) != has(r, WITHIN) ||
                            cp.isDisjointFrom(*B.r) != has(r, DISJOINT) || cp.intersects(*B.r) == has(r, DISJOINT))
                            mc::fail(key() + " named", "contains/isWithin/isDisjointFrom/intersects disagree with relate");
                    }
                    if (A.k == 'c' && B.k == 'c') {
                        auto & x = static_cast<Circle const &>(*A.r), & y = static_cast<Circle const &>(*B.r);
                        // the named forms are sound and as conclusive
                        bool co = x.contains(y), di = x.isDisjointFrom(y);
                        if (co && first(1) >= 0) mc::fail(key() + " named", "contains");
                        if (di && first(0) >= 0) mc::fail(key() + " named", "isDisjointFrom");
                        if (x.intersects(y) == di || x.isWithin(y) != y.contains(x)) mc::fail(key() + " named", "intersects/isWithin");
                        if ((q2 & 2) && !co) mc::fail(key() + " named", "clearly contained");
                        if ((q2 & 1) && !di) mc::fail(key() + " named", "clearly disjoint");
                        if (A.empty && B.empty && !(co && di)) mc::fail(key() + " named", "empties");
                        if (A.full && !co) mc::fail(key() + " named", "full");
                    }
                    if (A.k == 'b' && B.k == 'b') {
                        auto & x = static_cast<Box const &>(*A.r), & y = static_cast<Box const &>(*B.r);
                        if (x.contains(y) != has(r, CONTAINS) || x.isWithin(y) != has(r, WITHIN) || x.isDisjointFrom(y) != has(r, DISJOINT) || x.intersects(y) == has(r, DISJOINT))
                            mc::fail(key() + " named", "named predicates disagree with relate");
                    }
                }
            }
        }
        // ---- shapes touching each boundary with a small overlap or gap
        mc::section("touching");
        std::vector<LD> eps = {1e-13L, 1e-9L, 1e-7L, 1e-4L};
        if (T) eps = {1e-14L, 1e-13L, 1e-12L, 1e-10L, 1e-9L, 1e-8L, 3e-8L, 1e-7L, 1e-6L, 1e-4L, 1e-2L};
        size_t idx = 0;
        for (size_t a = 0; a < nsimple; ++a) {
            std::vector<Bd> bd;
            boundary(*z[a], bd, 0);
            size_t step = T ? 1 : bd.size() > 12 ? 3 : 1;
            for (size_t bi = 0; bi < bd.size(); bi += step) {
                ++idx;
                if (!mc::mine(idx)) continue;
                mc::at(a, bi);
                mc::state();
                V3 q = unit(bd[bi].p), o = bd[bi].out;
                V3 sdv = cross(q, o);
                for (LD e : eps)
                    for (int g : {-1, 1}) {          // +1: overlapping from outside by e; -1: a gap of e
                        for (int side : {-1, 1}) {   // side=+1: toucher outside, -1: toucher inside (protruding by e for g=1)
                            V3 dir = o * (LD)side;
                            V3 tip = go(q, dir, -(LD)g * e);           // the toucher's extreme point
                            V3 tdir = unit(dir - tip * dot(dir, tip));  // continues away from the boundary
                            std::vector<P> ts;
                            for (double R : {1e-3, 0.3, 1.7}) {
                                P c = mkCircle("touch", U(go(tip, tdir, R)), R);
                                ts.push_back(c);
                                if (R < 1.5) ts.push_back(mkEllF("touch", U(go(tip, tdir, R * 0.5L)), U(go(tip, tdir, 1.5L * R)), R));
                            }
                            for (LD h : {0.01L, 0.4L}) {
                                V3 m = go(tip, tdir, h);
                                V3 m2 = unit(tdir * cosl(h) - tip * sinl(h));
                                V3 s2 = cross(m, m2);
                                try {
                                    ts.push_back(mkPoly("touch", {tip, go(m, s2, h / 2), go(m, s2, -h / 2)}));
                                    ts.push_back(mkPoly("touch", {go(tip, s2, h), go(m, s2, h), go(m, s2, -h), go(tip, s2, -h)}));
                                } catch (std::invalid_argument &) {}
                            }
                            LD tl = latOf(tip), to = lonOf(tip);
                            if (fabsl(tl) < 1.4L) {
                                for (LD h : {1e-3L, 0.1L}) {
                                    // a box with the tip on a corner, extending away from the boundary
                                    LD dn = dot(tdir, northAt(tip)), de = dot(tdir, cross(northAt(tip), tip)) * -1;
                                    de = -dot(tdir, cross(tip, northAt(tip)));
                                    LD l0 = de < 0 ? to : to - h, l1 = de < 0 ? to + h : to;
                                    LD b0 = dn >= 0 ? tl : tl - h, b1 = dn >= 0 ? tl + h : tl;
                                    auto nz = [](LD x) { while (x < 0) x += 2 * LPI; while (x >= 2 * LPI) x -= 2 * LPI; return (double)x; };
                                    ts.push_back(mkBoxR("touch", nz(l0), nz(l1), (double)b0, (double)b1));
                                }
                            }
                            // witnesses: points between the tip and the boundary, and on both sides
                            std::vector<Pt> w;
                            for (LD f : {0.5L, 0.1L, 0.9L, -0.5L, 2.0L}) addPt(w, go(q, dir, -(LD)g * e * f));
                            addPt(w, tip); addPt(w, q);
                            for (LD f : {0.0L, 1e-3L, -1e-3L}) addPt(w, go(tip, sdv, f));
                            for (size_t ti = 0; ti < ts.size(); ++ti) {
                                Sh const & t = *ts[ti];
                                Relationship r = z[a]->r->relate(*t.r), r2 = t.r->relate(*z[a]->r);
                                mc::trans();
                                auto key = [&] { return fmt("%s #%zu toucher %zu %c eps=%Lg %d %d", z[a]->name.c_str(), bi, ti, t.k, e, g, side); };
                                if (r2 != invert(r)) mc::fail(key() + " mirror", rel(r) + " / " + rel(r2));
                                for (auto & p : w) {
                                    int x = z[a]->cls(p.v), y = t.cls(p.v);
                                    const char * bad = nullptr;
                                    if (has(r, DISJOINT) && x > 0 && y > 0) bad = "disjoint but a point is in both";
                                    if (has(r, CONTAINS) && x < 0 && y > 0) bad = "contains but a point is outside";
                                    if (has(r, WITHIN) && x > 0 && y < 0) bad = "within but a point is outside";
                                    bool lx = z[a]->r->contains(p.u), ly = t.r->contains(p.u);
                                    if (has(r, DISJOINT) && lx && ly) bad = "disjoint but both contain a point";
                                    if (has(r, CONTAINS) && !lx && ly) bad = "contains but only the other contains a point";
                                    if (has(r, WITHIN) && lx && !ly) bad = "within but the other does not contain a point";
                                    if (bad) mc::fail(key(), fmt("%s: v=(%.17g,%.17g,%.17g) clearances %Lg, %Lg", bad, p.u.x(), p.u.y(), p.u.z(), z[a]->sd(p.v), t.sd(p.v)));
                                }
                                int q2 = required(*z[a], t);
                                if ((q2 & 1) && !has(r, DISJOINT)) mc::fail(key() + " conclusive", "clearly separated but " + rel(r));
                                if ((q2 & 2) && !has(r, CONTAINS)) mc::fail(key() + " conclusive", "clearly contained but " + rel(r));
                                if ((q2 & 4) && !has(r, WITHIN)) mc::fail(key() + " conclusive", "clearly within but " + rel(r));
                            }
                        }
                    }
            }
        }
        // ---- every pair of regions of the parameter lattice
        {
            mc::section("lattice pairs");
            std::vector<P> l = lattice(T ? 0 : -1);
            std::vector<Pt> lp;
            gridPoints(lp, T ? 60 : 30, T ? 30 : 15);
            for (auto & d : {latticeDirs(0), latticeDirs(1)})
                for (auto & v : d)
                    for (auto & w : d) addPt(lp, unit(unit(v) * 0.501L + unit(w) * 0.499L)), addPt(lp, unit(unit(v) * 0.999L + unit(w) * 0.001L));
            size_t M = l.size(), NP = lp.size(), LW = (NP + 63) / 64;
            std::vector<uint64_t> li(M * LW), lo(M * LW), lb(M * LW);
            for (size_t i = 0; i < M; ++i) {
                for (size_t p = 0; p < NP; ++p) {
                    int c = l[i]->cls(lp[p].v);
                    if (c > 0) li[i * LW + p / 64] |= 1ull << (p & 63);
                    if (c < 0) lo[i * LW + p / 64] |= 1ull << (p & 63);
                    if (l[i]->r->contains(lp[p].u)) lb[i * LW + p / 64] |= 1ull << (p & 63);
                }
            }
            for (size_t a = 0; a < M; ++a) {
                if (!mc::mine(a)) continue;
                mc::state();
                for (size_t b = 0; b < M; ++b) {
                    Sh const & A = *l[a], & B = *l[b];
                    mc::at(a, b);
                    Relationship r = A.r->relate(*B.r), q = B.r->relate(*A.r);
                    mc::trans(2);
                    bool d = false, c = false, w = false;
                    uint64_t const * ia = &li[a * LW], * oa = &lo[a * LW], * ib = &li[b * LW], * ob = &lo[b * LW];
                    for (size_t k = 0; k < LW; ++k) d |= (ia[k] & ib[k]) != 0, c |= (oa[k] & ib[k]) != 0, w |= (ia[k] & ob[k]) != 0;
                    auto key = [&] { return A.name + " ~ " + B.name; };
                    if (has(r, DISJOINT) && d) mc::fail(key() + " disjoint", rel(r));
                    if (has(r, CONTAINS) && c) mc::fail(key() + " contains", rel(r));
                    if (has(r, WITHIN) && w) mc::fail(key() + " within", rel(r));
                    bool ld = false, lc = false, lw = false;
                    uint64_t const * ja = &lb[a * LW], * jb = &lb[b * LW];
                    for (size_t k = 0; k < LW; ++k) ld |= (ja[k] & jb[k]) != 0, lc |= (~ja[k] & jb[k]) != 0, lw |= (ja[k] & ~jb[k]) != 0;
                    if (has(r, DISJOINT) && ld) mc::fail(key() + " disjoint by membership", rel(r));
                    if (has(r, CONTAINS) && lc) mc::fail(key() + " contains by membership", rel(r));
                    if (has(r, WITHIN) && lw) mc::fail(key() + " within by membership", rel(r));
                    if (q != invert(r)) mc::fail(key() + " mirror", rel(r) + " but the other way around " + rel(q));
                    if (d && c && w) { mc::trace(); continue; }
                    int q2 = required(A, B);
                    if (q2) mc::trace();
                    if ((q2 & 1) && !has(r, DISJOINT)) mc::fail(key() + " conclusive", "clearly separated but " + rel(r));
                    if ((q2 & 2) && !has(r, CONTAINS)) mc::fail(key() + " conclusive", "clearly contained but " + rel(r));
                    if ((q2 & 4) && !has(r, WITHIN)) mc::fail(key() + " conclusive", "clearly within but " + rel(r));
                }
            }
        }
        // ---- circles that touch edges of polygons and boxes up to rounding
        mc::section("circles that touch edges, by membership");
        {
            size_t id = 0;
            for (size_t a = 0; a < nsimple; ++a) {
                if (z[a]->k != 'p' && z[a]->k != 'b') continue;
                std::vector<Bd> bd;
                boundary(*z[a], bd, 0);
                size_t step = T ? 1 : std::max<size_t>(1, bd.size() / 6);
                for (size_t bi = 0; bi < bd.size(); bi += step) {
                    if (!mc::mine(id++)) continue;
                    mc::at(a, bi);
                    mc::state();
                    V3 q = unit(bd[bi].p), o = bd[bi].out, sdv = cross(q, o);
                    UnitVector3d const u = U(q);
                    std::vector<UnitVector3d> w;
                    for (LD f : {0.0L, 4e-9L, -4e-9L, 1.5e-8L, -1.5e-8L})
                        for (int k = 0; k < 27; ++k) {
                            V3 x(U(go(q, sdv, f)));
                            LD h = 1.2e-16L;
                            w.push_back(U(V3(x.x + h * (k % 3 - 1), x.y + h * (k / 3 % 3 - 1), x.z + h * (k / 9 - 1))));
                        }
                    std::vector<char> in;
                    for (auto & v : w) in.push_back(z[a]->r->contains(v));
                    for (int side : {-1, 1})
                        for (double R : {1e-3, 0.3, 1.2, 2.0, 2.9}) {
                            UnitVector3d c = U(go(q, o * (LD)side, R));
                            double s0 = (c - u).getSquaredNorm();
                            for (int k = -12; k <= 12; ++k) {
                                Circle C(c, s0 + k * 2.5e-16);
                                Relationship r = z[a]->r->relate(C);
                                mc::trans();
                                if (!(has(r, DISJOINT) || has(r, CONTAINS) || has(r, WITHIN))) continue;
                                mc::trace();
                                for (size_t p = 0; p < w.size(); ++p) {
                                    bool y = C.contains(w[p]);
                                    if ((has(r, DISJOINT) && in[p] && y) || (has(r, CONTAINS) && !in[p] && y) || (has(r, WITHIN) && in[p] && !y))
                                        mc::fail(fmt("%s #%zu side %d circle of radius %g", z[a]->name.c_str(), bi, side, R),
                                                 fmt("%s; step %d; v=(%.17g,%.17g,%.17g) first %d second %d", rel(r).c_str(), k, w[p].x(), w[p].y(), w[p].z(), in[p], y));
                                }
                            }
                        }
                }
            }
        }
        // ---- circles that touch up to rounding: relations against the membership tests themselves, without any tolerance
        mc::section("touching circles, by membership");
        std::vector<LD> rest, small, off;
        for (int d = T ? 16 : 14; d >= 1; --d) {
            rest.push_back(powl(10, -d));
            if (T) rest.push_back(3.3L * powl(10, -d));
        }
        for (LD d : {0.37L, 0.9L, 1.2L, 1.5L}) rest.push_back(d);
        for (int d = 14; d >= 1; d -= T ? 1 : 3) small.push_back(0.3L * powl(10, -d));
        small.push_back(0.8L); small.push_back(1.4L);
        off.push_back(0);
        for (int d = -16; d <= -7; ++d)
            for (LD m : T ? std::vector<LD>{1, 1.7L, 2.5L, 4, 6.3L} : std::vector<LD>{1, 2.5L, 6.3L}) { off.push_back(m * powl(10, d)); off.push_back(-m * powl(10, d)); }
        struct Fr { V3 c, t; };
        std::vector<Fr> fr = {{V3(0, 0, 1), V3(1, 0, 0)}, {unit(V3(1, 2, 3)), unit(cross(unit(V3(1, 2, 3)), V3(0, 0, 1)))}};
        if (T) fr.push_back({unit(V3(-1, 0.1L, 0)), unit(cross(unit(V3(-1, 0.1L, 0)), V3(0, 1, 0)))});
        size_t n = 0;
        for (auto & F : fr)
            for (LD ra : rest)
                for (int big = 0; big < 2; ++big)
                    for (LD rb : small)
                        for (int in = 0; in < 2; ++in) {
                            if (!mc::mine(n++)) continue;
                            LD a = big ? LPI - ra : ra;
                            LD d0 = in ? a - rb : a + rb;
                            if (d0 < 0 || d0 > LPI) continue;
                            mc::state();
                            Circle A(U(F.c), Angle((double)a));
                            for (LD gap : off) {
                                mc::at(n, (uint64_t)(&gap - off.data()));
                                LD d = d0 + gap;
                                Circle B(U(unit(F.c * cosl(d) + F.t * sinl(d))), Angle((double)rb));
                                Relationship r = A.relate(B), q = B.relate(A);
                                bool co = A.contains(B), wi = B.isWithin(A), di = A.isDisjointFrom(B), di2 = B.isDisjointFrom(A);
                                mc::trans();
                                bool claimIn = has(r, CONTAINS) || has(q, WITHIN) || co || wi, claimDis = has(r, DISJOINT) || has(q, DISJOINT) || di || di2;
                                if (!claimIn && !claimDis) continue;
                                mc::trace();
                                for (LD o : off) {
                                    LD w = a + o;
                                    UnitVector3d v = U(unit(F.c * cosl(w) + F.t * sinl(w)));
                                    bool x = A.contains(v), y = B.contains(v);
                                    auto say = [&] { return fmt("circles at distance %.17Lg with opening angles %.17Lg and %.17Lg", d, a, rb); };
                                    auto det = [&] { return fmt("relate says %s/ %s; contains %d isWithin %d isDisjointFrom %d %d; v=(%.17g,%.17g,%.17g) first %d second %d", rel(r).c_str(), rel(q).c_str(), co, wi, di, di2, v.x(), v.y(), v.z(), x, y); };
                                    if (claimIn && y && !x) mc::fail(say() + " nested", det());
                                    if (claimDis && y && x) mc::fail(say() + " disjoint", det());
                                }
                            }
                        }
    });
}
