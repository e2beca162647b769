// C15: compound regions as point sets, over all expressions up to a depth, and histories of copying, moving,
// cloning, wrapping, taking apart and destroying them.
#include "zoo.h"
using namespace zoo;
using mc::fmt;
typedef std::vector<uint8_t> Bytes;
#ifdef __SANITIZE_ADDRESS__
static bool const ASAN = true;
#else
static bool const ASAN = false;
#endif
static std::vector<Pt> pts;
typedef std::vector<uint64_t> Bits;

// An expression: a leaf (an index into the operand alphabet) or a union / intersection.
struct Ex {
    char k; int leaf = -1;
    std::shared_ptr<Ex> a, b;
};
typedef std::shared_ptr<Ex> E;
static std::vector<P> leaves;
static std::vector<Bits> leafIn;
static E leaf(int i) { E e(new Ex); e->k = 'l'; e->leaf = i; return e; }
static E node(char k, E a, E b) { E e(new Ex); e->k = k; e->a = a; e->b = b; return e; }
static std::string name(E const & e) { return e->k == 'l' ? leaves[e->leaf]->name : std::string(1, e->k) + "(" + name(e->a) + "," + name(e->b) + ")"; }
static std::unique_ptr<Region> build(E const & e, int how = 0) {
    if (e->k == 'l') return leaves[e->leaf]->r->clone();
    auto a = build(e->a, how), b = build(e->b, how);
    if (how == 0) {
        if (e->k == 'u') return std::make_unique<UnionRegion>(*a, *b);
        return std::make_unique<IntersectionRegion>(*a, *b);
    }
    std::array<std::unique_ptr<Region>, 2> o{std::move(a), std::move(b)};
    if (e->k == 'u') return std::make_unique<UnionRegion>(std::move(o));
    return std::make_unique<IntersectionRegion>(std::move(o));
}
static Bits bits(E const & e) {
    if (e->k == 'l') return leafIn[e->leaf];
    Bits a = bits(e->a), b = bits(e->b);
    for (size_t i = 0; i < a.size(); ++i) a[i] = e->k == 'u' ? a[i] | b[i] : a[i] & b[i];
    return a;
}
static bool inside(E const & e, V3 const & p, LD m) {   // clearly inside
    if (e->k == 'l') return leaves[e->leaf]->sd(p) > m;
    return e->k == 'u' ? inside(e->a, p, m) || inside(e->b, p, m) : inside(e->a, p, m) && inside(e->b, p, m);
}
static Bytes enc(E const & e) {
    if (e->k == 'l') return leaves[e->leaf]->r->encode();
    Bytes a = enc(e->a), b = enc(e->b), r{(uint8_t)e->k};
    for (Bytes * x : {&a, &b}) {
        for (int i = 0; i < 8; ++i) r.push_back((uint8_t)((uint64_t)x->size() >> (8 * i)));
        r.insert(r.end(), x->begin(), x->end());
    }
    return r;
}
static std::string rel(Relationship r) { return r.to_string(); }

static void membership(E const & e, Region const & r, std::string const & nm) {
    Bits w = bits(e);
    for (size_t i = 0; i < pts.size(); ++i) {
        bool want = w[i / 64] >> (i % 64) & 1;
        mc::trans();
        if (r.contains(pts[i].u) != want) {
            mc::fail(nm + fmt(" point %zu", i), fmt("contains(%.17g,%.17g,%.17g) should be %d", pts[i].u.x(), pts[i].u.y(), pts[i].u.z(), want));
            return;
        }
    }
}
static void structure(E const & e, Region const & r, std::string const & nm) {
    if (r.encode() != enc(e)) mc::fail(nm + " encoding", "not the encoding of the expression");
    auto rs = Region::getRegions(r);
    if (e->k == 'l') {
        if (rs.size() != 1 || rs[0]->encode() != enc(e)) mc::fail(nm + " getRegions");
        return;
    }
    auto const * c = dynamic_cast<CompoundRegion const *>(&r);
    if (!c) { mc::fail(nm + " type"); return; }
    if ((e->k == 'u') != (dynamic_cast<UnionRegion const *>(&r) != nullptr) || (e->k == 'i') != (dynamic_cast<IntersectionRegion const *>(&r) != nullptr)) mc::fail(nm + " type");
    if (rs.size() != 2) { mc::fail(nm + " getRegions", fmt("%zu", rs.size())); return; }
    E const * sub[2] = {&e->a, &e->b};
    for (int i = 0; i < 2; ++i) {
        Bytes b = enc(*sub[i]);
        if (c->getOperand(i).encode() != b) mc::fail(nm + fmt(" operand %d", i));
        if (rs[i]->encode() != b) mc::fail(nm + fmt(" getRegions %d", i));
        if (rs[i].get() == &c->getOperand(i)) mc::fail(nm + fmt(" getRegions %d", i), "shares the operand");
        mc::trans(2);
    }
}
static void bounds(E const & e, Region const & r, std::string const & nm) {
    Box b = r.getBoundingBox();
    Circle c = r.getBoundingCircle();
    Box3d d = r.getBoundingBox3d();
    mc::trans(3);
    for (size_t i = 0; i < pts.size(); ++i) {
        if (!inside(e, pts[i].v, 1e-12L)) continue;
        mc::trans();
        bool ok = b.contains(pts[i].u) && c.contains(pts[i].u) && d.contains(pts[i].u);
        if (!ok) { mc::fail(nm + fmt(" bounds, point %zu", i), fmt("box %d circle %d box3d %d", b.contains(pts[i].u), c.contains(pts[i].u), d.contains(pts[i].u))); return; }
    }
}
static void relations(E const & e, Region const & r, std::string const & nm, std::vector<P> const & others, std::vector<Bits> const & oin, std::vector<Bits> const & oout, Bits const & in, Bits const & out) {
    for (size_t j = 0; j < others.size(); ++j) {
        Relationship x = r.relate(*others[j]->r), y = others[j]->r->relate(r);
        mc::trans(2);
        bool meets = false, aNotB = false, bNotA = false;
        for (size_t w = 0; w < in.size(); ++w) {
            meets |= (in[w] & oin[j][w]) != 0;
            aNotB |= (in[w] & oout[j][w]) != 0;
            bNotA |= (out[w] & oin[j][w]) != 0;
        }
        auto has = [](Relationship q, Relationship f) { return (q & f) != 0; };
        std::string k = nm + " relate " + others[j]->name;
        if ((has(x, DISJOINT) || has(y, DISJOINT)) && meets) mc::fail(k, "claims disjoint: " + rel(x) + " / " + rel(y));
        if ((has(x, CONTAINS) || has(y, WITHIN)) && bNotA) mc::fail(k, "claims to contain: " + rel(x) + " / " + rel(y));
        if ((has(x, WITHIN) || has(y, CONTAINS)) && aNotB) mc::fail(k, "claims to be within: " + rel(x) + " / " + rel(y));
        // what follows from the relations of the operands must be reported
        if (e->k != 'l' && others[j]->k != 'u' && others[j]->k != 'i') {
            auto const & c = static_cast<CompoundRegion const &>(r);
            Relationship p = c.getOperand(0).relate(*others[j]->r), q = c.getOperand(1).relate(*others[j]->r), must;
            if (e->k == 'u') must = (p & q & (DISJOINT | WITHIN)) | ((p | q) & CONTAINS);
            else must = ((p | q) & (DISJOINT | WITHIN)) | (p & q & CONTAINS);
            if ((x & must) != must) mc::fail(k, "got " + rel(x) + " but the operands imply " + rel(must));
        }
    }
}

// ---------------------------------------------------------------- histories
// A pool of 3 slots, each holding nothing or a region with the expression it must stand for. Source regions are
// ordinary objects that the history changes after they have been used as operands.
struct Slot { std::unique_ptr<Region> r; E e; };
static void checkSlot(Slot const & s, std::string const & nm) {
    if (!s.r) return;
    mc::trans();
    if (s.r->encode() != enc(s.e)) { mc::fail(nm, "value is not " + name(s.e)); return; }
    for (size_t i = 0; i < pts.size(); i += 37) {
        bool w = bits(s.e)[i / 64] >> (i % 64) & 1;
        if (s.r->contains(pts[i].u) != w) { mc::fail(nm, "membership is not that of " + name(s.e)); return; }
    }
}
enum { OPS = 15 };
static bool apply(int op, Slot (&s)[3], Circle & src, int & srcLeaf) {
    switch (op) {
        case 0: s[0].r = std::make_unique<UnionRegion>(src, *leaves[2]->r); s[0].e = node('u', leaf(srcLeaf), leaf(2)); return true;
        case 1: s[0].r = std::make_unique<IntersectionRegion>(*leaves[2]->r, src); s[0].e = node('i', leaf(2), leaf(srcLeaf)); return true;
        case 2:  // change the source
            srcLeaf = srcLeaf == 0 ? 1 : 0;
            src = static_cast<Circle const &>(*leaves[srcLeaf]->r);
            return true;
        case 3: if (!s[0].r) return false; s[1].r = s[0].r->clone(); s[1].e = s[0].e; return true;
        case 4: if (!s[1].r) return false; s[2].r = s[1].r->clone(); s[2].e = s[1].e; return true;
        case 5: if (!s[0].r) return false; s[0].r.reset(); s[0].e.reset(); return true;
        case 6: if (!s[1].r) return false; s[1].r.reset(); s[1].e.reset(); return true;
        case 7: {  // wrap both
            if (!s[0].r || !s[1].r) return false;
            E e = node('u', s[0].e, s[1].e);
            s[2].r = std::make_unique<UnionRegion>(*s[0].r, *s[1].r); s[2].e = e;
            return true;
        }
        case 8: {  // wrap a region with itself
            if (!s[0].r) return false;
            s[0].e = node('i', s[0].e, s[0].e);
            s[0].r = std::make_unique<IntersectionRegion>(*s[0].r, *s[0].r);
            return true;
        }
        case 9: {  // take the parts
            if (!s[0].r || s[0].e->k == 'l') return false;
            auto v = Region::getRegions(*s[0].r);
            E e = s[0].e;
            if (v.size() != 2) return false;
            s[0].r = std::move(v[0]); s[0].e = e->a;
            s[1].r = std::move(v[1]); s[1].e = e->b;
            return true;
        }
        case 10: {  // move construction
            if (!s[0].r) return false;
            if (auto u = dynamic_cast<UnionRegion *>(s[0].r.get())) s[2].r = std::make_unique<UnionRegion>(std::move(*u));
            else if (auto i = dynamic_cast<IntersectionRegion *>(s[0].r.get())) s[2].r = std::make_unique<IntersectionRegion>(std::move(*i));
            else return false;
            s[2].e = s[0].e;
            s[0].r.reset(); s[0].e.reset();
            return true;
        }
        case 11: {  // copy construction
            if (!s[2].r) return false;
            if (auto u = dynamic_cast<UnionRegion *>(s[2].r.get())) s[0].r = std::make_unique<UnionRegion>(*u);
            else if (auto i = dynamic_cast<IntersectionRegion *>(s[2].r.get())) s[0].r = std::make_unique<IntersectionRegion>(*i);
            else return false;
            s[0].e = s[2].e;
            return true;
        }
        case 12: {  // through the wire
            if (!s[0].r) return false;
            s[1].r = Region::decode(s[0].r->encode()); s[1].e = s[0].e;
            return true;
        }
        case 13: {  // ownership transfer
            if (!s[0].r || !s[1].r) return false;
            E e = node('i', s[0].e, s[1].e);
            std::array<std::unique_ptr<Region>, 2> o{std::move(s[0].r), std::move(s[1].r)};
            s[2].r = std::make_unique<IntersectionRegion>(std::move(o)); s[2].e = e;
            s[0].e.reset(); s[1].e.reset();
            return true;
        }
        case 14: {  // a plain region in slot 1
            s[1].r = src.clone(); s[1].e = leaf(srcLeaf);
            return true;
        }
    }
    return false;
}
static size_t depthOf(E const & e) { return !e || e->k == 'l' ? 0 : 1 + std::max(depthOf(e->a), depthOf(e->b)); }
static void history(int depth) {
    std::vector<int> h(depth);
    uint64_t idx = 0;
    auto play = [&](int n) {
        Slot s[3];
        Circle src = static_cast<Circle const &>(*leaves[0]->r);
        int srcLeaf = 0;
        for (int i = 0; i < n; ++i) if (!apply(h[i], s, src, srcLeaf)) return false;
        std::string nm = "history";
        for (int i = 0; i < n; ++i) nm += fmt(" %d", h[i]);
        mc::trace();
        for (int i = 0; i < 3; ++i) checkSlot(s[i], nm + fmt(" slot %d", i));
        if (src.encode() != leaves[srcLeaf]->r->encode()) mc::fail(nm, "the source region changed");
        return true;
    };
    std::function<void(int)> rec = [&](int n) {
        if (n == 2 && !mc::mine(idx++)) return;
        if (n) {
            mc::at(n, h[0], n > 1 ? h[1] : 0, n > 2 ? h[2] : 0, n > 3 ? h[3] : 0);
            if (!play(n)) return;
            mc::state();
        }
        if (n == depth) return;
        for (int o = 0; o < OPS; ++o) { h[n] = o; rec(n + 1); }
    };
    rec(0);
}

int main(int argc, char ** argv) {
    return mc::run(argc, argv, [] {
        bool T = mc::thorough();
        leaves = operands(T || !ASAN);
        gridPoints(pts, ASAN ? 24 : 48, ASAN ? 12 : 24);
        for (auto & l : leaves) boundaryPoints(*l, pts, ASAN ? 0 : 1, !ASAN);
        size_t W = (pts.size() + 63) / 64;
        for (auto & l : leaves) {
            Bits b(W);
            for (size_t i = 0; i < pts.size(); ++i) if (l->r->contains(pts[i].u)) b[i / 64] |= 1ull << (i % 64);
            leafIn.push_back(b);
        }
        int L = leaves.size();
        // ---- expressions
        std::vector<E> e0, e1, e2;
        for (int i = 0; i < L; ++i) e0.push_back(leaf(i));
        for (auto & a : e0) for (auto & b : e0) for (char k : {'u', 'i'}) e1.push_back(node(k, a, b));
        for (auto & a : e1) for (auto & b : e0) for (char k : {'u', 'i'}) { e2.push_back(node(k, a, b)); e2.push_back(node(k, b, a)); }
        // the other regions to relate to, and what is known about their points
        std::vector<P> others = leaves;
        for (auto & s : {mkBox("o1", 25, 55, 15, 45), mkCircle("o2", U(V3(0.6L, 0.48L, 0.64L)), 1.5), mkPoly("o3", ring(V3(0.6L, 0.48L, 0.64L), 0.05L, 3)), mkEllC("o4", U(V3(0.6L, 0.48L, 0.64L)), 0.9, 0.5, 0.1),
                         mkBox("o5", 0, 0, -90, 90, true), mkCompound('u', leaves[0], leaves[2]), mkCompound('i', leaves[3], leaves[0]), mkPoly("o6", ring(V3(-0.6L, -0.48L, -0.64L), 0.3L, 3))})
            others.push_back(s);
        std::vector<Bits> oin, oout;
        auto classify = [&](std::function<LD(V3 const &)> sd, Bits & in, Bits & out) {
            in.assign(W, 0); out.assign(W, 0);
            for (size_t i = 0; i < pts.size(); ++i) {
                LD s = sd(pts[i].v);
                if (s > 1e-12L) in[i / 64] |= 1ull << (i % 64);
                if (s < -1e-12L) out[i / 64] |= 1ull << (i % 64);
            }
        };
        for (auto & o : others) {
            Bits a, b;
            classify([&](V3 const & p) { return o->sd(p); }, a, b);
            oin.push_back(a); oout.push_back(b);
        }
        std::vector<Bits> lin, lout;
        for (auto & l : leaves) {
            Bits a, b;
            classify([&](V3 const & p) { return l->sd(p); }, a, b);
            lin.push_back(a); lout.push_back(b);
        }
        std::function<void(E const &, Bits &, Bits &)> sets = [&](E const & e, Bits & in, Bits & out) {
            if (e->k == 'l') { in = lin[e->leaf]; out = lout[e->leaf]; return; }
            Bits bi, bo;
            sets(e->a, in, out); sets(e->b, bi, bo);
            for (size_t w = 0; w < W; ++w)
                if (e->k == 'u') { in[w] |= bi[w]; out[w] &= bo[w]; }
                else { in[w] &= bi[w]; out[w] |= bo[w]; }
        };
        uint64_t idx = 0;
        auto run = [&](std::vector<E> const & v, bool relate) {
            for (auto & e : v) {
                if (!mc::mine(idx++)) continue;
                mc::at(idx); mc::state();
                std::string nm = name(e);
                auto r = build(e, 0), q = build(e, 1);
                membership(e, *r, nm);
                structure(e, *r, nm);
                structure(e, *q, nm + " (from owned operands)");
                auto cl = r->clone();
                Bytes before = r->encode();
                r.reset();
                structure(e, *cl, nm + " (clone)");
                if (cl->encode() != before) mc::fail(nm + " clone");
                bounds(e, *cl, nm);
                if (relate) {
                    Bits in, out;
                    sets(e, in, out);
                    relations(e, *cl, nm, others, oin, oout, in, out);
                }
            }
        };
        mc::section("one region"); run(e0, true);
        mc::section("two regions"); run(e1, true);
        mc::section("three regions"); run(e2, true);
        // ---- operands from the lattice of regions: membership, bounds and relationships
        if (!ASAN) {
            mc::section("lattice operands");
            std::vector<P> l = lattice(T ? -1 : -2);
            std::vector<Pt> lp;
            gridPoints(lp, 24, 12);
            for (int k : {0, 1})
                for (auto & v : latticeDirs(k))
                    for (auto & w : latticeDirs(k)) addPt(lp, unit(unit(v) * 0.501L + unit(w) * 0.499L));
            size_t LW = (lp.size() + 63) / 64, M = l.size();
            std::vector<Bits> li, lo, lc;
            for (auto & s : l) {
                Bits a(LW), b(LW), c(LW);
                for (size_t i = 0; i < lp.size(); ++i) {
                    int q = s->cls(lp[i].v);
                    if (q > 0) a[i / 64] |= 1ull << (i % 64);
                    if (q < 0) b[i / 64] |= 1ull << (i % 64);
                    if (s->r->contains(lp[i].u)) c[i / 64] |= 1ull << (i % 64);
                }
                li.push_back(a); lo.push_back(b); lc.push_back(c);
            }
            for (size_t a = 0; a < M; ++a) {
                if (!mc::mine(a)) continue;
                for (size_t b = 0; b < M; ++b)
                    for (char k : {'u', 'i'}) {
                        mc::at(a, b, k); mc::state();
                        P c = mkCompound(k, l[a], l[b]);
                        Region const & r = *c->r;
                        Bits in(LW), out(LW), con(LW);
                        for (size_t w = 0; w < LW; ++w) {
                            in[w] = k == 'u' ? li[a][w] | li[b][w] : li[a][w] & li[b][w];
                            out[w] = k == 'u' ? lo[a][w] & lo[b][w] : lo[a][w] | lo[b][w];
                            con[w] = k == 'u' ? lc[a][w] | lc[b][w] : lc[a][w] & lc[b][w];
                        }
                        Circle bc = r.getBoundingCircle();
                        Box bb = r.getBoundingBox();
                        Box3d b3 = r.getBoundingBox3d();
                        mc::trans(3);
                        for (size_t i = (a + b) % 3; i < lp.size(); i += 3) {
                            mc::trans();
                            bool x = con[i / 64] >> (i % 64) & 1;
                            if (r.contains(lp[i].u) != x) { mc::fail(c->name + fmt(" point %zu", i), "membership is not that of the operands"); break; }
                            if (x && (!bc.contains(lp[i].u) || !bb.contains(lp[i].u) || !b3.contains(lp[i].u))) {
                                // (on the boundary up to rounding: bounds are not exact)
                                if (in[i / 64] >> (i % 64) & 1) { mc::fail(c->name + fmt(" bounds %zu", i), "a point of the region is outside of a bound"); break; }
                            }
                        }
                        for (size_t o = T ? (a * 7 + b * 3) % 97 : 0; o < M; o += T ? 97 : 1) {
                            Relationship x = r.relate(*l[o]->r), y = l[o]->r->relate(r);
                            mc::trans(2); mc::trace();
                            bool d = false, cc = false, w = false;
                            for (size_t q = 0; q < LW; ++q) d |= (in[q] & li[o][q]) != 0, cc |= (out[q] & li[o][q]) != 0, w |= (in[q] & lo[o][q]) != 0;
                            for (Relationship z : {x, invert(y)}) {
                                std::string key = c->name + " ~ " + l[o]->name;
                                if ((z & DISJOINT) != 0 && d) mc::fail(key + " disjoint");
                                if ((z & CONTAINS) != 0 && cc) mc::fail(key + " contains");
                                if ((z & WITHIN) != 0 && w) mc::fail(key + " within");
                            }
                        }
                    }
            }
        }
        // every overload of contains
        mc::section("overloads");
        for (auto & e : e1) {
            if (!mc::mine(idx++)) continue;
            mc::at(idx); mc::state();
            auto r = build(e);
            for (size_t i = 0; i < pts.size(); i += 7) {
                auto const & u = pts[i].u;
                bool a = r->contains(u), b = r->contains(u.x(), u.y(), u.z());
                (void)a;
                mc::trans(2);
                if (b != r->contains(UnitVector3d(u.x(), u.y(), u.z()))) mc::fail(name(e) + fmt(" contains(x,y,z) %zu", i));
                LonLat l(u);
                if (r->contains(l.getLon().asRadians(), l.getLat().asRadians()) != r->contains(UnitVector3d(l))) mc::fail(name(e) + fmt(" contains(lon,lat) %zu", i));
            }
        }
        if (T) {
            mc::section("four regions");
            std::vector<E> e3;
            for (size_t i = 0; i < e1.size(); ++i) for (size_t j = 0; j < e1.size(); ++j) for (char k : {'u', 'i'}) e3.push_back(node(k, e1[i], e1[j]));
            run(e3, !ASAN);
        } else if (!ASAN) {
            mc::section("four regions");
            std::vector<E> e3;
            for (size_t i = 0; i < e1.size(); i += 3) for (size_t j = 0; j < e1.size(); j += 5) e3.push_back(node("ui"[(i + j) & 1], e1[i], e1[j]));
            run(e3, false);
        }
        mc::section("histories");
        history(T ? (ASAN ? 5 : 6) : (ASAN ? 4 : 5));
    });
}
