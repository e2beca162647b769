// C17: envelopes are never too small, interiors never too big, range caps hold, for every pixelization.
#include "clear.h"
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "lsst/sphgeom/Q3cPixelization.h"
using namespace zoo;
using mc::fmt;
#ifdef __SANITIZE_ADDRESS__
static const bool SAN = true;
#else
static const bool SAN = false;
#endif

static std::unique_ptr<Pixelization> make(int k, int level) {
    if (k == 0) return std::unique_ptr<Pixelization>(new HtmPixelization(level));
    if (k == 1) return std::unique_ptr<Pixelization>(new Q3cPixelization(level));
    return std::unique_ptr<Pixelization>(new Mq3cPixelization(level));
}
static char const * NAME[3] = {"htm", "q3c", "mq3c"};
typedef std::vector<std::pair<uint64_t, uint64_t>> Iv;
// an independent copy of a range set as sorted disjoint [first, last] pairs
static Iv ivs(RangeSet const & s) {
    Iv o;
    for (auto const & t : s) o.push_back({std::get<0>(t), std::get<1>(t) - 1});
    return o;
}
static bool inIv(Iv const & v, uint64_t x) {
    auto i = std::upper_bound(v.begin(), v.end(), std::make_pair(x, UINT64_MAX));
    if (i == v.begin()) return false;
    --i;
    return x >= i->first && x <= i->second;
}
static bool subset(Iv const & a, Iv const & b) {
    for (auto & x : a) {
        auto i = std::upper_bound(b.begin(), b.end(), std::make_pair(x.first, UINT64_MAX));
        if (i == b.begin()) return false;
        --i;
        if (x.first < i->first || x.second > i->second) return false;
    }
    return true;
}
static std::string str(Iv const & v) {
    std::string s;
    for (size_t i = 0; i < v.size() && i < 12; ++i) s += fmt("[%llu..%llu] ", (unsigned long long)v[i].first, (unsigned long long)v[i].second);
    if (v.size() > 12) s += fmt("... (%zu)", v.size());
    return s;
}
// Sample points of a convex pixel, pulled slightly inwards so that they have the pixel's own index.
static void pixelPoints(ConvexPolygon const & p, std::vector<V3> & o, bool many) {
    auto & v = p.getVertices();
    size_t n = v.size();
    V3 c;
    for (auto & x : v) c = c + V3(x);
    c = unit(c);
    o.push_back(c);
    for (size_t i = 0; i < n; ++i) {
        V3 a(v[i]), b(v[(i + 1) % n]);
        for (LD f : {0.0L, 0.5L}) {
            V3 q = unit(a * (1 - f) + b * f);
            o.push_back(unit(q * (1 - 1e-5L) + c * 1e-5L));
            if (many) o.push_back(unit(q * 0.6L + c * 0.4L));
        }
    }
}
struct Level {
    std::unique_ptr<Pixelization> px;
    Iv uni;
    std::vector<Pt> pts;
    std::vector<uint64_t> idx;
    std::vector<std::pair<uint64_t, P>> pix;   // every pixel as a shape
};
static P polyShape(ConvexPolygon const & c) {
    P s(new Sh);
    s->k = 'p';
    for (auto & q : c.getVertices()) s->v.push_back(V3(q));
    for (size_t i = 0; i < s->v.size(); ++i) s->n.push_back(normalOf(s->v[i], s->v[(i + 1) % s->v.size()]));
    return s;
}

struct Judge {
    Sh const & s;
    Pixelization const & px;
    Iv const & uni;
    std::string where;
    LD eps;
    Iv env0, int0;
    std::vector<std::tuple<LD, uint64_t, Pt const *>> pts;  // clearance, index, point

    bool query(bool interior, size_t cap, Iv & out) {
        RangeSet r = interior ? px.interior(*s.r, cap) : px.envelope(*s.r, cap);
        mc::trans();
        out = ivs(r);
        if (!r.isValid()) mc::fail(where + fmt(" cap=%zu valid", cap), "the returned range set is not valid");
        // no limit is the default
        if (cap == 0 && !((interior ? px.interior(*s.r) : px.envelope(*s.r)) == r)) mc::fail(where + " default", "the answer without a limit is not the one with limit 0");
        return true;
    }
    void caps(std::vector<size_t> const & list) {
        for (size_t cap : list)
            for (int in = 0; in < 2; ++in) {
                Iv v;
                query(in, cap, v);
                std::string key = where + fmt(" cap=%zu %s", cap, in ? "interior" : "envelope");
                if (cap && v.size() > cap) mc::fail(key + " size", fmt("%zu ranges: ", v.size()) + str(v));
                if (!subset(v, uni)) mc::fail(key + " universe", str(v));
                if (in && !subset(v, int0)) mc::fail(key + " superset", "not within the uncapped interior: " + str(v) + " / " + str(int0));
                if (!in && !subset(env0, v)) mc::fail(key + " subset", "does not cover the uncapped envelope: " + str(v) + " / " + str(env0));
                if (v.empty()) mc::outcome(in ? "empty interior" : "empty envelope");
                else mc::outcome(in ? (v == int0 ? "capped interior unchanged" : "capped interior smaller") : (v == env0 ? "capped envelope unchanged" : "capped envelope larger"));
            }
    }
    void run(std::vector<size_t> const & list) {
        query(false, 0, env0);
        query(true, 0, int0);
        if (!subset(env0, uni)) mc::fail(where + " envelope universe", str(env0));
        if (!subset(int0, uni)) mc::fail(where + " interior universe", str(int0));
        if (!subset(int0, env0)) mc::fail(where + " interior in envelope", str(int0) + " / " + str(env0));
        for (auto & t : pts) {
            LD sd = std::get<0>(t);
            uint64_t i = std::get<1>(t);
            if (sd > eps) {
                mc::trace();
                if (!inIv(env0, i)) {
                    auto & u = std::get<2>(t)->u;
                    mc::fail(where + fmt(" envelope misses %llu", (unsigned long long)i), fmt("v=(%.17g,%.17g,%.17g) has clearance %Lg; envelope ", u.x(), u.y(), u.z(), sd) + str(env0));
                    break;
                }
            } else if (sd < -eps) {
                mc::trace();
                if (inIv(int0, i)) {
                    auto & u = std::get<2>(t)->u;
                    mc::fail(where + fmt(" interior has %llu", (unsigned long long)i), fmt("v=(%.17g,%.17g,%.17g) has clearance %Lg; interior ", u.x(), u.y(), u.z(), sd) + str(int0));
                    break;
                }
            }
            else {
                bool c = s.r->contains(std::get<2>(t)->u);
                mc::trace();
                auto & u = std::get<2>(t)->u;
                if (c && !inIv(env0, i)) mc::fail(where + fmt(" envelope misses by membership %llu", (unsigned long long)i), fmt("v=(%.17g,%.17g,%.17g) has clearance %Lg; envelope ", u.x(), u.y(), u.z(), sd) + str(env0));
                if (!c && inIv(int0, i)) mc::fail(where + fmt(" interior by membership has %llu", (unsigned long long)i), fmt("v=(%.17g,%.17g,%.17g) has clearance %Lg; interior ", u.x(), u.y(), u.z(), sd) + str(int0));
            }
        }
        caps(list);
    }
};

int main(int argc, char ** argv) {
    return mc::run(argc, argv, [] {
        bool T = mc::thorough();
        std::vector<P> z = simple(T), cz = compounds(T);
        z.insert(z.end(), cz.begin(), cz.end());
        int maxL = SAN ? 2 : T ? 6 : 4;
        std::vector<size_t> caps = {1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24, 1000000};
        if (T) for (size_t c : {10, 11, 13, 15, 20, 32, 48, 64, 100}) caps.push_back(c);
        if (SAN) caps = {1, 2, 3, 8};
        std::vector<Pt> common;
        gridPoints(common, 24, 12);
        // ---- every region of the zoo at every low level
        std::vector<Level> lv;
        for (int k = 0; k < 3; ++k)
            for (int l = 0; l <= maxL; ++l) {
                Level L;
                L.px = make(k, l);
                L.uni = ivs(L.px->universe());
                for (auto & u : L.uni)
                    for (uint64_t i = u.first; i <= u.second; ++i) {
                        auto reg = L.px->pixel(i);
                        auto & cp = static_cast<ConvexPolygon const &>(*reg);
                        std::vector<V3> v;
                        pixelPoints(cp, v, l < 3);
                        for (auto & q : v) {
                            addPt(L.pts, q);
                            L.idx.push_back(L.px->index(L.pts.back().u));
                        }
                        L.pix.push_back({i, polyShape(cp)});
                    }
                lv.push_back(std::move(L));
            }
        size_t step = SAN ? (T ? 3 : 11) : 1;
        for (size_t ri = 0, n = 0; ri < z.size(); ri += step) {
            if (!mc::mine(n++)) continue;
            Sh const & s = *z[ri];
            std::vector<Pt> bp = common;
            boundaryPoints(s, bp, 0, true);
            std::vector<LD> bsd;
            for (auto & p : bp) bsd.push_back(s.sd(p.v));
            for (size_t li = 0; li < lv.size(); ++li) {
                Level & L = lv[li];
                int k = li / (maxL + 1), l = li % (maxL + 1);
                mc::section(fmt("regions %s", NAME[k]));
                mc::at(ri, k, l);
                mc::state();
                Judge j{s, *L.px, L.uni, fmt("%s level %d ", NAME[k], l) + s.name, std::max(s.tol, 1e-13L) + 1e-13L};
                for (size_t i = 0; i < bp.size(); ++i) j.pts.emplace_back(bsd[i], L.px->index(bp[i].u), &bp[i]);
                for (size_t i = 0; i < L.pts.size(); ++i) j.pts.emplace_back(s.sd(L.pts[i].v), L.idx[i], &L.pts[i]);
                j.run(caps);
                if (mc::wantSample()) mc::sample(j.where + ": envelope " + str(j.env0) + " interior " + str(j.int0));
                // without a cap the answer is exact up to rounding for circles and polygons
                if ((s.k == 'c' || s.k == 'p') && !s.empty && !s.full)
                    for (auto & p : L.pix) {
                        int q = required(*p.second, s);
                        if (q & 1) {
                            mc::trace();
                            if (inIv(j.env0, p.first)) mc::fail(j.where + fmt(" envelope disjoint %llu", (unsigned long long)p.first), "a pixel clearly away from the region is in the envelope");
                        }
                        if (q & 4) {
                            mc::trace();
                            if (!inIv(j.int0, p.first)) mc::fail(j.where + fmt(" interior lacks %llu", (unsigned long long)p.first), "a pixel clearly inside the region is not in the interior");
                        }
                    }
                if (s.empty && s.k != 'u' && s.k != 'i') {
                    if (!j.env0.empty()) mc::fail(j.where + " empty", "envelope of an empty region: " + str(j.env0));
                    if (!j.int0.empty()) mc::fail(j.where + " empty", "interior of an empty region: " + str(j.int0));
                }
                if (s.full && s.k != 'e' && s.k != 'u' && s.k != 'i' && (j.env0 != L.uni || j.int0 != L.uni)) mc::fail(j.where + " full", str(j.env0) + " / " + str(j.int0));
            }
        }
        // ---- the lattice of regions, at one level each
        if (!SAN) {
            std::vector<P> l = lattice(0);
            size_t n = 0;
            for (size_t ri = 0; ri < l.size(); ++ri)
                for (int k = 0; k < 3; ++k)
                    for (int lev = 1; lev <= (T ? 4 : 3); ++lev) {
                        if (!mc::mine(n++)) continue;
                        Level & L = lv[k * (maxL + 1) + lev];
                        Sh const & s = *l[ri];
                        mc::section(fmt("lattice %s", NAME[k]));
                        mc::at(ri, k, lev);
                        mc::state();
                        Judge j{s, *L.px, L.uni, fmt("%s level %d ", NAME[k], lev) + s.name, std::max(s.tol, 1e-13L) + 1e-13L};
                        for (size_t i = 0; i < L.pts.size(); ++i) j.pts.emplace_back(s.sd(L.pts[i].v), L.idx[i], &L.pts[i]);
                        j.run({1, 2, 5});
                        if ((s.k == 'c' || s.k == 'p') && !s.empty && !s.full)
                            for (auto & p : L.pix) {
                                bool e = inIv(j.env0, p.first), i = inIv(j.int0, p.first);
                                if (!e || i) continue;     // (nothing but soundness to ask)
                                int q = required(*p.second, s);
                                if (q) mc::trace();
                                if (q & 1) mc::fail(j.where + fmt(" envelope disjoint %llu", (unsigned long long)p.first), "a pixel clearly away from the region is in the envelope");
                                if (q & 4) mc::fail(j.where + fmt(" interior lacks %llu", (unsigned long long)p.first), "a pixel clearly inside the region is not in the interior");
                            }
                    }
        }
        // ---- small regions at deep levels
        std::vector<int> deep = {6, 9, 13, 17, 21, 24, 27, 30};
        if (T) deep = {6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30};
        if (SAN) deep = {9, 24, 30};
        std::vector<std::pair<std::string, UnitVector3d>> cs = centers(T);
        cs.push_back({"edge", U(V3(1, 1, 0.3L))});
        cs.push_back({"corner", U(V3(1, -1, 1))});
        cs.push_back({"face", U(V3(0.2L, 1, -0.1L))});
        size_t n = 0;
        for (int k = 0; k < 3; ++k)
            for (int l : deep) {
                if (k == 0 && l > HtmPixelization::MAX_LEVEL) continue;
                auto px = make(k, l);
                Iv uni = ivs(px->universe());
                LD h = ldexpl(1.0L, -l);  // about a pixel
                for (auto & c : cs)
                    for (LD f : {0.05L, 0.7L, 3.0L, 9.0L, 70.0L, 300.0L}) {
                        if (f > 10 && (f * h > 1.2L || (f > 100 ? !T || (l & 1) : c.first != "gen" && c.first != "edge" && c.first != "corner" && !T))) continue;
                        ++n;
                        if (SAN && (f > 1 || n % 3)) continue;
                        if (!mc::mine(n)) continue;
                        std::vector<P> rs;
                        LD r = f * h;
                        V3 cc = unit(V3(c.second));
                        rs.push_back(mkCircle("circle", c.second, (double)r));
                        if (r > 1e-8L) {
                            if (fabsl(cc.z) < 0.999L) rs.push_back(mkEllC("ellipse", c.second, (double)r, (double)(r * 0.4L), 0.7));
                            rs.push_back(mkEllF("ellipse-f", U(go(cc, anyPerp(cc), r * 0.3L)), U(go(cc, anyPerp(cc), -r * 0.3L)), (double)r));
                        }
                        try {
                            rs.push_back(mkPoly("triangle", ring(cc, r, 3)));
                            rs.push_back(mkPoly("hexagon", ring(cc, r, 6, 0.3L)));
                        } catch (std::exception &) {}
                        LD la = latOf(cc), lo = lonOf(cc);
                        LD w = std::min(3.0L, r / std::max(cosl(la), 1e-9L));
                        auto nz = [](LD x) { while (x < 0) x += 2 * LPI; while (x >= 2 * LPI) x -= 2 * LPI; return (double)x; };
                        rs.push_back(mkBoxR("box", nz(lo - w), nz(lo + w), (double)(la - r), (double)(la + r)));
                        size_t ns = rs.size();
                        for (size_t i = 0; i + 1 < ns; i += 2) {
                            rs.push_back(mkCompound('u', rs[i], rs[i + 1]));
                            rs.push_back(mkCompound('i', rs[i], rs[i + 1]));
                        }
                        for (size_t i = 0; i < rs.size(); ++i) {
                            Sh const & s = *rs[i];
                            mc::section(fmt("deep %s", NAME[k]));
                            mc::at(n, i, l);
                            mc::state();
                            std::vector<Pt> bp;
                            std::vector<Bd> b;
                            boundary(s, b, 0);
                            for (auto & x : b)
                                for (LD t : {-1e-14L, 1e-14L, -1e-12L, 1e-12L, -0.01L * r, 0.01L * r, -0.3L * r, 0.3L * r, 0.9L * r, -0.9L * r}) addPt(bp, go(unit(x.p), x.out, t));
                            addPt(bp, cc);
                            for (int x = -4; x <= 4; ++x)
                                for (int y = -4; y <= 4; ++y) {
                                    V3 d = anyPerp(cc), e = cross(cc, d);
                                    addPt(bp, unit(cc + d * (x * r / 3.1L) + e * (y * r / 3.3L)));
                                }
                            Judge j{s, *px, uni, fmt("%s level %d center %s size %Lg %s", NAME[k], l, c.first.c_str(), f, s.name.c_str()), std::max(s.tol, 2e-15L) + 2e-15L};
                            for (auto & p : bp) j.pts.emplace_back(s.sd(p.v), px->index(p.u), &p);
                            j.run(SAN ? std::vector<size_t>{1, 4} : std::vector<size_t>{1, 2, 3, 4, 6, 8, 13, 30});
                            // pixels of the interior have all their vertices in the region, and adjacent pixels of
                            // the region's boundary points are the only ones that may be in the envelope
                            uint64_t seen = 0;
                            for (auto & t : j.int0)
                                for (uint64_t q = t.first; q - t.first <= t.second - t.first && seen < 2000; ++q, ++seen) {
                                    auto reg = px->pixel(q);
                                    for (auto & v : static_cast<ConvexPolygon const &>(*reg).getVertices()) {
                                        mc::trace();
                                        if (s.sd(V3(v)) < -std::max(s.tol, 2e-15L)) mc::fail(j.where + fmt(" interior pixel %llu", (unsigned long long)q), fmt("a vertex is outside by %Lg", -s.sd(V3(v))));
                                    }
                                }
                        }
                    }
            }
        // ---- circles and ellipses that reach the corners of a pixel up to rounding, from around it and from outside
        if (!SAN) {
            std::vector<LD> off = {0};
            for (LD d : {2e-16L, 5e-16L, 1e-15L, 2e-15L, 4e-15L, 1e-12L, 1e-10L, 1e-9L, 3e-9L, 6e-9L, 1e-8L, 1.5e-8L, 2e-8L, 2.5e-8L, 3.5e-8L, 5e-8L}) { off.push_back(d); off.push_back(-d); }
            size_t m = 0;
            for (int k = 0; k < 3; ++k)
                for (int l = 0; l <= (T ? 4 : 3); ++l) {
                    Level & L = lv[k * (maxL + 1) + l];
                    mc::section(fmt("corners %s", NAME[k]));
                    for (size_t i = 0; i < L.pix.size(); i += (T || l < 2 ? 1 : 5)) {
                        if (!mc::mine(m++)) continue;
                        mc::state();
                        uint64_t const ix = L.pix[i].first;
                        auto reg = L.px->pixel(ix);
                        auto vs = static_cast<ConvexPolygon const &>(*reg).getVertices();
                        V3 c(0, 0, 0);
                        for (auto & v : vs) c = c + V3(v);
                        c = unit(c);
                        std::vector<UnitVector3d> w;
                        // the corners, and the middles of the edges
                        std::vector<V3> touch;
                        for (auto & v : vs) touch.push_back(V3(v));
                        for (size_t q = 0; q < vs.size(); ++q) touch.push_back(unit(V3(vs[q]) + V3(vs[(q + 1) % vs.size()])));
                        for (auto & v : touch)
                            for (LD t : {0.0L, 3e-16L, 1e-15L, 3e-15L, 1e-12L, 1e-10L, 1e-9L, 2e-9L, 5e-9L, 1e-8L, 2e-8L, 4e-8L}) {
                                UnitVector3d p = U(unit(v + c * t));
                                if (L.px->index(p) == ix) w.push_back(p);
                            }
                        for (size_t q = 0; q < touch.size(); ++q)
                            for (int in = 0; in < 2; ++in) {
                                V3 v = touch[q];
                                LD rad = 0;
                                V3 o = c;
                                if (in) for (auto & x : vs) rad = std::max(rad, angle(c, V3(x)));
                                else { rad = 0.4L; o = go(v, unit(v * dot(v, c) - c), rad); }
                                if (in && q) continue;
                                for (LD d : off) {
                                    LD a = rad + d;
                                    std::vector<std::unique_ptr<Region>> rs;
                                    rs.emplace_back(new Circle(U(o), Angle((double)a)));
                                    rs.emplace_back(new Ellipse(U(o), Angle((double)a), Angle((double)a), Angle(0.3)));
                                    for (LD e : {1e-9L, 1e-3L, 0.1L}) rs.emplace_back(new Ellipse(U(o), U(go(o, anyPerp(o), 0.0L)), Angle((double)(a + e))));
                                    rs.emplace_back(new Ellipse(U(o), Angle((double)a), Angle((double)(a + 1e-7L)), Angle(1.0)));
                                    for (size_t r = 0; r < rs.size(); ++r) {
                                        mc::trans();
                                        mc::at(k, l, ix, r);
                                        bool e = inIv(ivs(L.px->envelope(*rs[r])), ix), n = inIv(ivs(L.px->interior(*rs[r])), ix);
                                        auto who = [&](char const * t) { return fmt("%s level %d pixel %llu %s: %s #%zu corner %zu reach %Lg", NAME[k], l, (unsigned long long)ix, t, in ? "around" : "outside", r, q, d); };
                                        for (auto & p : w) {
                                            bool x = rs[r]->contains(p);
                                            mc::trace();
                                            if (x && !e) { mc::fail(who("envelope"), fmt("v=(%.17g,%.17g,%.17g) is in the region", p.x(), p.y(), p.z())); break; }
                                            if (!x && n) { mc::fail(who("interior"), fmt("v=(%.17g,%.17g,%.17g) is not in the region", p.x(), p.y(), p.z())); break; }
                                        }
                                    }
                                }
                            }
                    }
                }
        }
        // ---- a region that is the pixel itself, or its neighbourhood
        for (int k = 0; k < 3; ++k)
            for (int l = 0; l <= (SAN ? 1 : T ? 4 : 3); ++l) {
                Level & L = lv[k * (maxL + 1) + l];
                for (size_t i = 0; i < L.pix.size(); ++i) {
                    if (!mc::mine(i)) continue;
                    mc::section(fmt("own pixel %s", NAME[k]));
                    mc::at(k, l, i);
                    mc::state();
                    auto reg = L.px->pixel(L.pix[i].first);
                    Iv e = ivs(L.px->envelope(*reg)), in = ivs(L.px->interior(*reg));
                    mc::trans(2);
                    std::string w = fmt("%s level %d pixel %llu", NAME[k], l, (unsigned long long)L.pix[i].first);
                    if (!inIv(e, L.pix[i].first)) mc::fail(w, "the envelope of a pixel lacks the pixel: " + str(e));
                    for (auto & t : in)
                        for (uint64_t q = t.first; q <= t.second; ++q)
                            if (q != L.pix[i].first) mc::fail(w, "the interior of a pixel has another pixel: " + str(in));
                    Iv e1 = ivs(L.px->envelope(*reg, 1)), i1 = ivs(L.px->interior(*reg, 1));
                    if (e1.size() != 1 || !subset(e, e1)) mc::fail(w + " cap", str(e1) + " / " + str(e));
                    if (i1.size() > 1 || !subset(i1, in)) mc::fail(w + " cap", str(i1) + " / " + str(in));
                }
            }
    });
}
