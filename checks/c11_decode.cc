// C11: decoding arbitrary bytes. Built with AddressSanitizer and UBSan; every input lives in a heap block of
// exactly its length, so that any read outside it stops the run.
#include "zoo.h"
using namespace zoo;
using mc::fmt;
typedef std::vector<uint8_t> Bytes;

static std::string hex(Bytes const & b) {
    std::string s = fmt("%zu:", b.size());
    for (size_t i = 0; i < b.size() && i < 160; ++i) s += fmt("%02x", b[i]);
    return s;
}
static std::vector<P> others;
static std::vector<Pt> probe;
static void exercise(Region const & r) {  // anything may come out, but nothing may go wrong
    volatile int sink = 0;
    auto guard = [&](auto f) { try { f(); } catch (std::exception const &) { mc::outcome("operation on a decoded region raised an error"); } };
    guard([&] { for (auto & p : probe) sink += r.contains(p.u); });
    guard([&] { sink += r.getBoundingBox().isEmpty(); });
    guard([&] { sink += r.getBoundingCircle().isEmpty(); });
    guard([&] { sink += r.getBoundingBox3d().isEmpty(); });
    for (auto & o : others) {
        guard([&] { sink += (int)r.relate(*o->r).to_ulong(); });
        guard([&] { sink += (int)o->r->relate(r).to_ulong(); });
    }
    guard([&] { sink += (int)r.clone()->encode().size(); });
    guard([&] { sink += (int)Region::getRegions(r).size(); });
    if (auto p = dynamic_cast<ConvexPolygon const *>(&r)) guard([&] { sink += p->getCentroid().x() > 0; });
}
enum { GENERIC, BOX, CIRCLE, ELLIPSE, POLYGON, COMPOUND, UNION, INTERSECTION, NDEC };
static char const * DN[] = {"Region", "Box", "Circle", "Ellipse", "ConvexPolygon", "CompoundRegion", "UnionRegion", "IntersectionRegion"};
static std::unique_ptr<Region> decode(int w, uint8_t const * p, size_t n) {
    switch (w) {
        case BOX: return Box::decode(p, n);
        case CIRCLE: return Circle::decode(p, n);
        case ELLIPSE: return Ellipse::decode(p, n);
        case POLYGON: return ConvexPolygon::decode(p, n);
        case COMPOUND: return CompoundRegion::decode(p, n);
        case UNION: return UnionRegion::decode(p, n);
        case INTERSECTION: return IntersectionRegion::decode(p, n);
    }
    return Region::decode(p, n);
}
static bool typeOk(int w, Region const & r) {
    switch (w) {
        case BOX: return dynamic_cast<Box const *>(&r);
        case CIRCLE: return dynamic_cast<Circle const *>(&r);
        case ELLIPSE: return dynamic_cast<Ellipse const *>(&r);
        case POLYGON: return dynamic_cast<ConvexPolygon const *>(&r);
        case COMPOUND: return dynamic_cast<CompoundRegion const *>(&r);
        case UNION: return dynamic_cast<UnionRegion const *>(&r);
        case INTERSECTION: return dynamic_cast<IntersectionRegion const *>(&r);
    }
    return true;
}
// want: 0 = must be rejected, 1 = must be accepted, -1 = either
static void one(int w, Bytes const & b, int want, std::string const & what, bool use = true) {
    mc::trans();
    uint8_t * p = (uint8_t *)malloc(b.size());   // exact size: ASan guards both ends
    if (!b.empty()) memcpy(p, b.data(), b.size());
    std::unique_ptr<Region> r;
    bool ok = false;
    try {
        r = decode(w, p, b.size());
        ok = true;
    } catch (std::exception const & e) {
    }
    // the vector form gives the same verdict
    if (w == GENERIC) {
        bool vok = false;
        try { Region::decode(b); vok = true; } catch (std::exception const &) {}
        if (vok != ok) mc::fail(what + " vector form", hex(b));
    }
    free(p);
    mc::trace();
    if (want == 0 && ok) { mc::fail(fmt("%s accepted by %s", what.c_str(), DN[w]), hex(b)); }
    if (want == 1 && !ok) mc::fail(fmt("%s rejected by %s", what.c_str(), DN[w]), hex(b));
    if (!ok) { mc::outcome("rejected"); return; }
    mc::outcome("accepted");
    if (!r) { mc::fail(what, "null result"); return; }
    if (!typeOk(w, *r)) mc::fail(fmt("%s type from %s", what.c_str(), DN[w]), hex(b));
    Bytes e = r->encode();
    if (e.size() != b.size() || e[0] != b[0]) mc::fail(fmt("%s re-encodes differently", what.c_str()), hex(b) + " -> " + hex(e));
    if (use) exercise(*r);
}
static void all(Bytes const & b, int want, std::string const & what, bool use = true) {
    // a decoder for another type must reject the string whatever its contents
    char c = b.empty() ? 0 : (char)b[0];
    for (int w = 0; w < NDEC; ++w) {
        bool match = w == GENERIC || (w == BOX && c == 'b') || (w == CIRCLE && c == 'c') || (w == ELLIPSE && c == 'e') || (w == POLYGON && c == 'p') ||
                     (w == COMPOUND && (c == 'u' || c == 'i')) || (w == UNION && c == 'u') || (w == INTERSECTION && c == 'i');
        one(w, b, match ? want : 0, what, use && w == GENERIC);
    }
}
static void setU(Bytes & b, size_t at, uint64_t u) { for (int i = 0; i < 8; ++i) b[at + i] = (uint8_t)(u >> (8 * i)); }
static void setD(Bytes & b, size_t at, double d) { uint64_t u; memcpy(&u, &d, 8); setU(b, at, u); }

int main(int argc, char ** argv) {
    return mc::run(argc, argv, [] {
        bool T = mc::thorough();
        gridPoints(probe, 5, 4);
        probe.resize(30);
        others = {mkCircle("c", U(V3(0.6L, 0.48L, 0.64L)), 0.5), mkBox("b", 10, 50, -10, 40), mkPoly("p", {V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1)}),
                  mkEllC("e", U(V3(0.5L, 0.5L, 0.5L)), 0.5, 0.2, 0.7)};
        auto ops = operands(true);
        std::vector<std::pair<std::string, Bytes>> valid;
        auto add = [&](P const & s) { valid.push_back({s->name, s->r->encode()}); };
        for (auto & s : ops) add(s);
        auto bx = find(ops, "C"), ci = find(ops, "A"), el = find(ops, "E"), po = find(ops, "D");
        std::vector<P> comp = {mkCompound('u', ci, bx), mkCompound('i', po, ci), mkCompound('u', el, po), mkCompound('i', mkCompound('u', ci, bx), ci), mkCompound('u', bx, mkCompound('i', ci, po)),
                               mkCompound('u', mkCompound('i', bx, bx), mkCompound('u', ci, bx))};
        for (auto & s : comp) add(s);
        // ---- truncation and extension
        mc::section("length");
        size_t idx = 0;
        for (auto & v : valid) {
            bool poly = v.second[0] == 'p';
            for (size_t n = 0; n <= v.second.size(); ++n) {
                if (!mc::mine(idx++)) continue;
                mc::at(idx); mc::state();
                Bytes b(v.second.begin(), v.second.begin() + n);
                // whole vertices less is another polygon
                bool other = poly && n >= 73 && (n - 1) % 24 == 0;
                all(b, n == v.second.size() ? 1 : other ? -1 : 0, fmt("%s cut to %zu", v.first.c_str(), n));
            }
            for (size_t n = 1; n <= (T ? 130u : 50u); ++n)
                for (int fill : std::initializer_list<int>{0, 1, 0xff, 'b', 'c'}) {
                    if (!mc::mine(idx++)) continue;
                    mc::at(idx); mc::state();
                    Bytes b = v.second;
                    b.insert(b.end(), n, (uint8_t)fill);
                    all(b, poly && n % 24 == 0 ? -1 : 0, fmt("%s extended by %zu", v.first.c_str(), n));
                }
            for (size_t n = 1; n <= v.second.size(); ++n) {   // cut at the front, doubled
                if (!mc::mine(idx++)) continue;
                mc::at(idx); mc::state();
                all(Bytes(v.second.begin() + n, v.second.end()), -1, fmt("%s without its first %zu", v.first.c_str(), n));
                Bytes b = v.second;
                b.insert(b.end(), v.second.begin(), v.second.begin() + n);
                all(b, poly && n % 24 == 0 ? -1 : 0, fmt("%s followed by %zu of itself", v.first.c_str(), n));
            }
        }
        // ---- all short strings
        mc::section("short");
        if (mc::mine(0)) { all(Bytes(), 0, "empty string"); mc::state(); }
        for (int w = 0; w < NDEC; ++w)
            if (mc::mine(w)) {
                mc::at(w); mc::state();
                // no buffer at all
                try { decode(w, nullptr, 0); mc::fail(fmt("null accepted by %s", DN[w])); } catch (std::exception const &) {}
            }
        for (int a = 0; a < 256; ++a) {
            if (!mc::mine(a)) continue;
            mc::at(a); mc::state();
            all(Bytes{(uint8_t)a}, 0, "1 byte", false);
            for (int b = 0; b < 256; ++b) all(Bytes{(uint8_t)a, (uint8_t)b}, 0, "2 bytes", false);
        }
        {
            std::vector<int> al = {0, 1, 2, 7, 8, 9, 33, 0x7f, 0x80, 0xff, 'b', 'c', 'e', 'p', 'u', 'i'};
            for (int tc : std::initializer_list<int>{'b', 'c', 'e', 'p', 'u', 'i', 0, 'x'})
                for (int a : al) {
                    if (!mc::mine(idx++)) continue;
                    mc::at(tc, a); mc::state();
                    for (int b : al) for (int c : al) {
                        all(Bytes{(uint8_t)tc, (uint8_t)a, (uint8_t)b, (uint8_t)c}, 0, "4 bytes", false);
                    }
                    for (size_t n = 5; n < 130; ++n) {
                        Bytes z(n, (uint8_t)a);
                        z[0] = (uint8_t)tc;
                        bool fits = (tc == 'b' && n == 33) || (tc == 'c' && n == 41) || (tc == 'e' && n == 113) || (tc == 'p' && n >= 73 && n % 24 == 1);
                        all(z, fits ? -1 : 0, "filled");
                    }
                }
        }
        // ---- every byte replaced
        mc::section("bytes");
        for (size_t vi = 0; vi < valid.size(); ++vi) {
            auto & v = valid[vi];
            for (size_t i = 0; i < v.second.size(); ++i) {
                if (!mc::mine(idx++)) continue;
                mc::at(vi, i); mc::state();
                std::set<int> vals = {0, 1, 0x7f, 0x80, 0xff, 'b', 'c', 'e', 'p', 'u', 'i', v.second[i] ^ 1, v.second[i] ^ 0x80, (v.second[i] + 1) & 255, (v.second[i] - 1) & 255};
                if (i == 0 || T) for (int k = 0; k < 256; ++k) vals.insert(k);
                for (int k : vals) {
                    if (k == v.second[i]) continue;
                    Bytes b = v.second;
                    b[i] = (uint8_t)k;
                    bool comp2 = k == 'u' || k == 'i', wasComp = v.second[0] == 'u' || v.second[0] == 'i';
                    all(b, i == 0 && !(comp2 && wasComp) ? 0 : -1, fmt("%s byte %zu=%02x", v.first.c_str(), i, k), i != 0 || comp2);
                }
            }
        }
        // ---- extreme field values, one and two at a time
        mc::section("fields");
        std::vector<double> ex = {0.0, -0.0, 1.0, -1.0, std::nan(""), INFINITY, -INFINITY, 4.9e-324, -1e-308, 1.7e308, -1.7e308, PI, 2 * PI, 7.0, 4.0};
        for (size_t vi = 0; vi < valid.size(); ++vi) {
            auto & v = valid[vi];
            if (v.second[0] == 'u' || v.second[0] == 'i') continue;
            size_t nf = (v.second.size() - 1) / 8;
            for (size_t f = 0; f < nf; ++f)
                for (size_t g = f; g < nf; ++g) {
                    if (!mc::mine(idx++)) continue;
                    if (!T && g > f + 3 && (f + g) % 3) continue;
                    mc::at(vi, f, g); mc::state();
                    for (double x : ex)
                        for (double y : ex) {
                            if (f == g && memcmp(&x, &y, 8)) continue;
                            Bytes b = v.second;
                            setD(b, 1 + 8 * f, x); setD(b, 1 + 8 * g, y);
                            one(GENERIC, b, -1, fmt("%s fields %zu,%zu=%g,%g", v.first.c_str(), f, g, x, y));
                        }
                }
            for (double x : ex) {  // all fields
                Bytes b = v.second;
                for (size_t f = 0; f < nf; ++f) setD(b, 1 + 8 * f, x);
                mc::state();
                one(GENERIC, b, -1, fmt("%s all fields %g", v.first.c_str(), x));
            }
        }
        // ---- inner lengths
        mc::section("inner-lengths");
        for (size_t vi = 0; vi < valid.size(); ++vi) {
            auto & v = valid[vi];
            if (v.second[0] != 'u' && v.second[0] != 'i') continue;
            uint64_t n1 = 0;
            for (int i = 0; i < 8; ++i) n1 |= (uint64_t)v.second[1 + i] << (8 * i);
            size_t at2 = 9 + n1;
            uint64_t n2 = v.second.size() - at2 - 8, tot = v.second.size();
            std::set<uint64_t> L = {0, 1, 7, 8, 9, 33, 41, 73, 113, n1 - 1, n1, n1 + 1, n1 + 8, n2 - 1, n2, n2 + 1, n1 + n2, tot - 9, tot - 10, tot - 8, tot - 17, tot - 16, tot - 1, tot, tot + 1, 1ull << 31, 1ull << 32, (1ull << 32) + n1,
                                    1ull << 63, (1ull << 63) - 1, (1ull << 63) + n1, ~0ull, ~0ull - 1, ~0ull - 7, ~0ull - 8, ~0ull - 9, ~0ull - tot, (uint64_t)-(int64_t)n1, (uint64_t)-(int64_t)(9 + n1), (uint64_t)-(int64_t)(9)};
            if (T) for (uint64_t q = 0; q <= tot + 40; ++q) L.insert(q);
            for (uint64_t a : L) {
                if (!mc::mine(idx++)) continue;
                mc::at(vi, a); mc::state();
                for (uint64_t b : L) {
                    if (a == n1 && b == n2) continue;
                    Bytes x = v.second;
                    setU(x, 1, a);
                    // the second length sits after the claimed first operand when that is inside the buffer
                    for (int where = 0; where < 2; ++where) {
                        Bytes y = x;
                        if (where == 0) setU(y, at2, b);
                        else if (a < tot && 9 + a + 8 <= tot) setU(y, 9 + a, b);
                        else continue;
                        // consistent only if it happens to be a valid encoding (the bytes were overwritten)
                        one(GENERIC, y, -1, fmt("%s lengths %" PRIu64 ",%" PRIu64 " %d", v.first.c_str(), a, b, where), true);
                        one(v.second[0] == 'u' ? UNION : INTERSECTION, y, -1, "lengths", false);
                        one(COMPOUND, y, -1, "lengths", false);
                        if (where == 0 && (a != n1 || b != n2) && !(a < tot)) one(GENERIC, y, 0, fmt("%s lengths %" PRIu64 ",%" PRIu64, v.first.c_str(), a, b), false);
                        // shortened as well
                        for (size_t cut : {1, 8, 9, 30}) { Bytes q(y.begin(), y.end() - std::min(cut, y.size())); one(GENERIC, q, -1, "lengths and cut", false); }
                    }
                }
            }
        }
    });
}
