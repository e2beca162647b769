// C10: serialization round trips.
#include "zoo.h"
#include "lsst/sphgeom/codec.h"
using namespace zoo;
using mc::fmt;
typedef std::vector<uint8_t> Bytes;

static void putD(Bytes & b, double d) {
    uint64_t u; memcpy(&u, &d, 8);
    for (int i = 0; i < 8; ++i) b.push_back((uint8_t)(u >> (8 * i)));
}
static void putU(Bytes & b, uint64_t u) { for (int i = 0; i < 8; ++i) b.push_back((uint8_t)(u >> (8 * i))); }
static double getD(uint8_t const * p) {
    uint64_t u = 0;
    for (int i = 0; i < 8; ++i) u |= (uint64_t)p[i] << (8 * i);
    double d; memcpy(&d, &u, 8);
    return d;
}
static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); }
static std::string hex(Bytes const & b) {
    std::string s;
    for (size_t i = 0; i < b.size() && i < 120; ++i) s += fmt("%02x", b[i]);
    return s;
}
// The encoding a region must have, from its public geometry. Bytes that public accessors do not determine
// exactly are taken from the actual encoding (act) after a numerical check.
static bool expect(Region const & r, Bytes & o, Bytes const & act, std::string & why) {
    if (auto b = dynamic_cast<Box const *>(&r)) {
        o.push_back('b');
        putD(o, b->getLon().getA().asRadians()); putD(o, b->getLon().getB().asRadians());
        putD(o, b->getLat().getA().asRadians()); putD(o, b->getLat().getB().asRadians());
    } else if (auto c = dynamic_cast<Circle const *>(&r)) {
        o.push_back('c');
        putD(o, c->getCenter().x()); putD(o, c->getCenter().y()); putD(o, c->getCenter().z());
        putD(o, c->getSquaredChordLength()); putD(o, c->getOpeningAngle().asRadians());
    } else if (auto p = dynamic_cast<ConvexPolygon const *>(&r)) {
        o.push_back('p');
        for (auto & v : p->getVertices()) { putD(o, v.x()); putD(o, v.y()); putD(o, v.z()); }
    } else if (auto e = dynamic_cast<Ellipse const *>(&r)) {
        size_t base = o.size();
        o.push_back('e');
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) putD(o, e->getTransformMatrix()(i, j));
        if (act.size() < base + 113) { why = "ellipse encoding too short"; return false; }
        double a = getD(&act[base + 73]), b = getD(&act[base + 81]), g = getD(&act[base + 89]), ta = getD(&act[base + 97]), tb = getD(&act[base + 105]);
        auto near = [](double x, double y) { return x == y || std::fabs(x - y) <= 1e-15 * (1 + std::fabs(y)); };
        auto nearr = [](double x, double y) { return x == y || std::fabs(x - y) <= 1e-9 * std::fabs(y) || (std::fabs(x) > 1e15 && std::fabs(y) > 1e15); };
        if (!same(0.5 * PI + a, e->getAlpha().asRadians()) || !same(0.5 * PI + b, e->getBeta().asRadians())) { why = "alpha/beta bytes"; return false; }
        if (!near(g, e->getGamma().asRadians())) { why = "gamma bytes"; return false; }
        if (!(e->isEmpty() || e->isFull()) && (!nearr(ta, std::fabs(std::tan(a))) || !nearr(tb, std::fabs(std::tan(b))))) { why = "tangent bytes"; return false; }
        o.insert(o.end(), act.begin() + base + 73, act.begin() + base + 113);
    } else {
        auto & cr = dynamic_cast<CompoundRegion const &>(r);
        o.push_back(dynamic_cast<UnionRegion const *>(&r) ? 'u' : 'i');
        for (int k = 0; k < 2; ++k) {
            size_t at = o.size();
            putU(o, 0);
            if (!expect(cr.getOperand(k), o, act, why)) return false;
            uint64_t n = o.size() - at - 8;
            for (int i = 0; i < 8; ++i) o[at + i] = (uint8_t)(n >> (8 * i));
        }
    }
    return true;
}
// Bit-for-bit comparison of everything public.
static bool identical(Region const & a, Region const & b, std::string & why) {
    why = "type";
    if (typeid(a) != typeid(b)) return false;
    if (auto x = dynamic_cast<Box const *>(&a)) {
        auto & y = static_cast<Box const &>(b);
        why = "box";
        return *x == y && !(*x != y) && same(x->getLon().getA().asRadians(), y.getLon().getA().asRadians()) && same(x->getLon().getB().asRadians(), y.getLon().getB().asRadians()) &&
               same(x->getLat().getA().asRadians(), y.getLat().getA().asRadians()) && same(x->getLat().getB().asRadians(), y.getLat().getB().asRadians());
    }
    auto sv = [](UnitVector3d const & u, UnitVector3d const & v) { return same(u.x(), v.x()) && same(u.y(), v.y()) && same(u.z(), v.z()); };
    if (auto x = dynamic_cast<Circle const *>(&a)) {
        auto & y = static_cast<Circle const &>(b);
        why = "circle";
        return *x == y && !(*x != y) && sv(x->getCenter(), y.getCenter()) && same(x->getSquaredChordLength(), y.getSquaredChordLength()) && same(x->getOpeningAngle().asRadians(), y.getOpeningAngle().asRadians());
    }
    if (auto x = dynamic_cast<ConvexPolygon const *>(&a)) {
        auto & y = static_cast<ConvexPolygon const &>(b);
        why = "polygon";
        if (!(*x == y) || *x != y || x->getVertices().size() != y.getVertices().size()) return false;
        for (size_t i = 0; i < x->getVertices().size(); ++i) if (!sv(x->getVertices()[i], y.getVertices()[i])) return false;
        return true;
    }
    if (auto x = dynamic_cast<Ellipse const *>(&a)) {
        auto & y = static_cast<Ellipse const &>(b);
        why = "ellipse";
        if (!(*x == y) || *x != y || x->isEmpty() != y.isEmpty() || x->isFull() != y.isFull()) return false;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) if (!same(x->getTransformMatrix()(i, j), y.getTransformMatrix()(i, j))) return false;
        return same(x->getAlpha().asRadians(), y.getAlpha().asRadians()) && same(x->getBeta().asRadians(), y.getBeta().asRadians()) && same(x->getGamma().asRadians(), y.getGamma().asRadians()) &&
               sv(x->getF1(), y.getF1()) && sv(x->getF2(), y.getF2()) && sv(x->getCenter(), y.getCenter());
    }
    auto & x = dynamic_cast<CompoundRegion const &>(a);
    auto & y = dynamic_cast<CompoundRegion const &>(b);
    for (int i = 0; i < 2; ++i) if (!identical(x.getOperand(i), y.getOperand(i), why)) return false;
    return true;
}
template <typename T> static std::unique_ptr<Region> dec(Bytes const & b) {
    auto p = T::decode(b);
    auto q = T::decode(b.data(), b.size());
    if (p->encode() != q->encode()) mc::fail("decode(vector) and decode(pointer) differ " + hex(b));
    return p;
}
static std::unique_ptr<Region> decodeAs(Region const & r, Bytes const & b) {
    if (dynamic_cast<Box const *>(&r)) return dec<Box>(b);
    if (dynamic_cast<Circle const *>(&r)) return dec<Circle>(b);
    if (dynamic_cast<ConvexPolygon const *>(&r)) return dec<ConvexPolygon>(b);
    if (dynamic_cast<Ellipse const *>(&r)) return dec<Ellipse>(b);
    if (dynamic_cast<UnionRegion const *>(&r)) return dec<UnionRegion>(b);
    return dec<IntersectionRegion>(b);
}
static std::vector<Pt> probe;
static void roundTrip(std::string const & name, Region const & r, bool members = true) {
    mc::trans();
    Bytes e = r.encode(), w;
    std::string why;
    if (r.encode() != e) { mc::fail(name + " repeat", "encoding twice gives different bytes"); return; }
    if (!expect(r, w, e, why)) { mc::fail(name + " layout", why + " in " + hex(e)); return; }
    if (e != w) { mc::fail(name + " layout", "got " + hex(e) + " want " + hex(w)); return; }
    auto check = [&](char const * how, std::unique_ptr<Region> d) {
        if (!identical(r, *d, why)) { mc::fail(name + " " + how, "decoded region differs: " + why + " " + hex(e)); return; }
        if (d->encode() != e) { mc::fail(name + " " + how, "re-encoding gives different bytes"); return; }
        if (members)
            for (auto & p : probe)
                if (d->contains(p.u) != r.contains(p.u)) { mc::fail(name + " " + how, fmt("membership of (%.17g,%.17g,%.17g)", p.u.x(), p.u.y(), p.u.z())); break; }
    };
    try {
        check("generic", Region::decode(e));
        check("generic-ptr", Region::decode(e.data(), e.size()));
        check("typed", decodeAs(r, e));
        if (auto c = dynamic_cast<CompoundRegion const *>(&r)) { (void)c; check("compound", CompoundRegion::decode(e)); check("compound-ptr", CompoundRegion::decode(e.data(), e.size())); }
        check("clone", r.clone());
        // decoding from the middle of a larger buffer
        Bytes big(3, 0xee);
        big.insert(big.end(), e.begin(), e.end());
        big.insert(big.end(), 5, 0xee);
        check("embedded", Region::decode(big.data() + 3, e.size()));
    } catch (std::exception const & x) {
        mc::fail(name + " rejected", std::string("decoding a valid encoding failed: ") + x.what() + " " + hex(e));
    }
    mc::trace();
}

int main(int argc, char ** argv) {
    return mc::run(argc, argv, [] {
        bool T = mc::thorough();
        gridPoints(probe, 12, 6);
        std::vector<P> z = simple(true), cz = compounds(true);
        mc::section("zoo");
        size_t idx = 0;
        for (auto & s : z)
            if (mc::mine(idx++)) { mc::at(idx); mc::state(); if (mc::wantSample()) mc::sample(s->name + " " + hex(s->r->encode())); roundTrip(s->name, *s->r); }
        for (auto & s : cz)
            if (mc::mine(idx++)) { mc::at(idx); mc::state(); roundTrip(s->name, *s->r); }
        // all nestings to a given depth over a small alphabet of leaves, each with different sizes
        mc::section("nesting");
        std::vector<std::shared_ptr<Region>> leaves = {find(z, "circle(empty)")->r, find(z, "box(10..20,10..20)")->r, find(z, "polygon(20-gon)")->r, find(z, "ellipse(X,0.3,0.1,0.4)")->r};
        std::vector<std::shared_ptr<Region>> lv = leaves, all = leaves;
        for (int depth = 0; depth < 2; ++depth) {
            std::vector<std::shared_ptr<Region>> next;
            for (size_t a = 0; a < all.size(); ++a)
                for (size_t b = 0; b < all.size(); ++b) {
                    if (depth == 1 && !T && a >= leaves.size() && b >= leaves.size() && (a * 7 + b) % 5) continue;
                    for (int k = 0; k < 2; ++k) {
                        std::shared_ptr<Region> r;
                        if (k) r.reset(new UnionRegion(*all[a], *all[b])); else r.reset(new IntersectionRegion(*all[a], *all[b]));
                        if (depth == 0) next.push_back(r);
                        if (mc::mine(idx++)) { mc::at(depth, a, b, k); mc::state(); roundTrip(fmt("nest%d %zu %zu %d", depth, a, b, k), *r, (a + b) % 4 == 0); }
                    }
                }
            all.insert(all.end(), next.begin(), next.end());
        }
        // chains: left-deep, right-deep and alternating
        for (int shape = 0; shape < 3; ++shape) {
            std::shared_ptr<Region> r = leaves[1];
            for (int d = 0; d < (T ? 200 : 60); ++d) {
                Region const & l = *leaves[d % leaves.size()];
                bool left = shape == 0 || (shape == 2 && d % 2);
                std::shared_ptr<Region> n;
                if (d % 3) n.reset(left ? new UnionRegion(*r, l) : new UnionRegion(l, *r));
                else n.reset(left ? new IntersectionRegion(*r, l) : new IntersectionRegion(l, *r));
                r = n;
                if (mc::mine(idx++)) { mc::at(shape, d); mc::state(); roundTrip(fmt("chain%d depth %d", shape, d + 1), *r, false); }
            }
        }
        // every field with distinctive values: circles and boxes and ellipses from all combinations of an alphabet
        mc::section("values");
        std::vector<double> ang = {0.0, 1e-300, 4.9e-324, 1e-9, 0.1, 1.0 / 3, 1.0, 1.5, 0.5 * PI, 2.0, 3.0, PI};
        std::vector<double> lon = {0.0, 1e-300, 0.1, 1.0 / 3, PI, 4.0, 6.25, 2 * PI, -1e-20, -0.0, std::nan("")};
        std::vector<double> lat = {-0.5 * PI, -1.0, -1e-300, -0.0, 0.0, 1.0 / 3, 0.5 * PI, 2.0, std::nan("")};
        for (double a : lon) for (double b : lon) for (double c : lat) for (double d : lat) {
            if (!mc::mine(idx++)) continue;
            mc::at(idx); mc::state();
            try {
                Box bx(NormalizedAngleInterval::fromRadians(a, b), AngleInterval::fromRadians(c, d));
                roundTrip(fmt("box %a %a %a %a", a, b, c, d), bx, false);
            } catch (std::invalid_argument &) {}
        }
        std::vector<UnitVector3d> cs;
        for (auto & c : centers(true)) cs.push_back(c.second);
        cs.push_back(UnitVector3d::fromNormalized(0.0, -0.0, -1.0));
        cs.push_back(UnitVector3d::fromNormalized(1.0, -1e-310, 1e-320));
        for (auto & c : cs) {
            for (double r : ang) {
                if (mc::mine(idx++)) { mc::at(idx); mc::state(); roundTrip(fmt("circle %a,%a,%a %a", c.x(), c.y(), c.z(), r), Circle(c, Angle(r)), false); }
                if (mc::mine(idx++)) { mc::at(idx); mc::state(); roundTrip(fmt("circle cl2 %a,%a,%a %a", c.x(), c.y(), c.z(), r), Circle(c, r), false); }
                // edited circles: the two representations of the radius may differ by rounding
                if (mc::mine(idx++)) {
                    mc::at(idx); mc::state();
                    Circle k(c, Angle(r));
                    roundTrip("complement", k.complemented(), false);
                    roundTrip("dilated", k.dilatedBy(Angle(0.3)), false);
                    roundTrip("expanded", k.expandedTo(cs[0]), false);
                    roundTrip("clipped", k.clippedTo(Circle(cs[1], Angle(0.2))), false);
                }
            }
            for (double a : ang) for (double b : ang) for (double t : {0.0, 0.7, -3.0}) {
                if (!mc::mine(idx++)) continue;
                mc::at(idx); mc::state();
                try { Ellipse e(c, Angle(a), Angle(b), Angle(t)); roundTrip(fmt("ellipse %a %a %a", a, b, t), e, false); roundTrip("complement", e.complemented(), false); } catch (std::invalid_argument &) {}
            }
            for (auto & f : cs) for (double a : {0.2, 1.0, 2.0, 3.0}) {
                if (!mc::mine(idx++)) continue;
                mc::at(idx); mc::state();
                roundTrip(fmt("ellipse foci %a", a), Ellipse(c, f, Angle(a)), false);
            }
        }
        // polygons of every size, and polygons made directly from three or four vertices
        for (int n = 3; n <= (T ? 300 : 60); ++n)
            if (mc::mine(idx++)) { mc::at(n); mc::state(); roundTrip(fmt("ring %d", n), *mkPoly("r", ring(V3(0.3L, -0.5L, 0.7L), 0.6L, n))->r, false); }
        // encodings around every power of 2^8 bytes: large polygons alone, as either operand, and balanced trees of regions
        mc::section("large");
        std::vector<int> sizes = {10, 11, 85, 86, 127, 128, 255, 256, 257, 341, 342, 2729, 2730, 2731, 2732, 5461, 8192};
        if (T) sizes.insert(sizes.end(), {21846, 65536});
        for (int n : sizes)
            for (int k = 0; k < 5; ++k) {
                if (!mc::mine(idx++)) continue;
                mc::at(n, k); mc::state();
                std::vector<UnitVector3d> vs;
                for (auto & v : ring(V3(0.3L, -0.5L, 0.7L), 0.6L, n)) vs.push_back(U(v));
                ConvexPolygon p(vs);
                Circle c(cs[0], Angle(0.3));
                std::string nm = fmt("large %d %d", n, k);
                if (k == 0) roundTrip(nm, p, false);
                if (k == 1) roundTrip(nm, UnionRegion(p, c), false);
                if (k == 2) roundTrip(nm, IntersectionRegion(c, p), false);
                if (k == 3) roundTrip(nm, UnionRegion(IntersectionRegion(p, c), p), false);
                if (k == 4) roundTrip(nm, IntersectionRegion(c, UnionRegion(c, p)), false);
            }
        for (int d = 1; d <= (T ? 15 : 12); ++d) {
            if (!mc::mine(idx++)) continue;
            mc::at(d); mc::state();
            std::unique_ptr<Region> r = Circle(cs[1], Angle(0.4)).clone();
            for (int i = 0; i < d; ++i) {
                std::unique_ptr<Region> n;
                if (i & 1) n.reset(new UnionRegion(*r, *r)); else n.reset(new IntersectionRegion(*r, *r));
                r = std::move(n);
            }
            roundTrip(fmt("tree of depth %d", d), *r, false);
        }
        roundTrip("tri", ConvexPolygon(cs[0], cs[2], cs[1]), false);
        roundTrip("quad", ConvexPolygon(U(V3(1, 0, 0)), U(V3(1, 1, 0)), U(V3(1, 1, 1)), U(V3(1, 0, 1))), false);
        // the helpers themselves
        mc::section("primitives");
        for (int bit = 0; bit < 64; ++bit)
            for (int k = 0; k < 4; ++k) {
                uint64_t u = (uint64_t)1 << bit;
                if (k == 1) u = ~u;
                if (k == 2) u -= 1;
                if (k == 3) u *= 0x0123456789abcdefULL;
                Bytes a, b;
                putU(a, u);
                encodeU64(u, b);
                mc::at(bit, k); mc::state(); mc::trans(2);
                if (a != b) mc::fail(fmt("encodeU64 %#" PRIx64, u), hex(b));
                if (decodeU64(a.data()) != u) mc::fail(fmt("decodeU64 %#" PRIx64, u));
                double d; memcpy(&d, &u, 8);
                Bytes c, e{0x55};
                encodeDouble(d, c);
                if (c != a && !std::isnan(d)) mc::fail(fmt("encodeDouble %#" PRIx64, u), hex(c));
                double g = decodeDouble(a.data());
                if (!same(g, d)) mc::fail(fmt("decodeDouble %#" PRIx64, u));
                encodeDouble(d, e);
                if (e.size() != 9 || e[0] != 0x55) mc::fail("encodeDouble does not append");
            }
    });
}
