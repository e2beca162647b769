// C07: big-integer arithmetic against exact arithmetic (boost cpp_int).
#include "lsst/sphgeom/BigInteger.h"
#include "mc.h"
#include <algorithm>
#include <boost/multiprecision/cpp_int.hpp>
#include <limits>
#include <memory>
using namespace lsst::sphgeom;
using boost::multiprecision::cpp_int;
using mc::fmt;
typedef uint32_t u32;
typedef uint64_t u64;
static u32 const GUARD = 0xdeadbeef;

struct Big {            // a BigInteger in storage of an exact size, with guard words on both sides
    std::vector<u32> buf;
    unsigned cap;
    BigInteger b;
    explicit Big(unsigned c) : buf(c + 8, GUARD), cap(c), b(buf.data() + 4, c) {}
    bool guards() const {
        for (int i = 0; i < 4; ++i) if (buf[i] != GUARD || buf[buf.size() - 1 - i] != GUARD) return false;
        return b.getDigits() == buf.data() + 4 && b.getCapacity() == cap;
    }
};
static unsigned digits(cpp_int const & v) { return v == 0 ? 0 : (unsigned)(msb(abs(v)) / 32 + 1); }
static bool same(BigInteger const & b, cpp_int const & v) {
    unsigned n = digits(v);
    if (b.getSize() != n || b.getSign() != (v > 0) - (v < 0) || n > b.getCapacity()) return false;
    cpp_int m = abs(v);
    for (unsigned i = 0; i < n; ++i) {
        if (b.getDigits()[i] != (u32)(m & 0xffffffffu)) return false;
        m >>= 32;
    }
    return true;
}
static std::string show(BigInteger const & b) {
    std::string s = fmt("sign=%d size=%u [", b.getSign(), b.getSize());
    for (unsigned i = 0; i < b.getSize() && i < 40; ++i) s += fmt(" %08x", b.getDigits()[i]);
    return s + " ]";
}
// Sets b to v with public operations.
static bool make(BigInteger & b, cpp_int const & v) {
    cpp_int m = abs(v);
    unsigned n = digits(v);
    std::vector<u32> d;
    for (unsigned i = 0; i < n; ++i) { d.push_back((u32)(m & 0xffffffffu)); m >>= 32; }
    if (n <= 2) {
        b.setTo((u64)((n > 0 ? (u64)d[0] : 0) | (n > 1 ? (u64)d[1] << 32 : 0)));
    } else {
        u32 tb[2];
        BigInteger t(tb, 2);
        b.setTo((u64)d[n - 1] << 32 | d[n - 2]);
        for (int i = (int)n - 3; i >= 0; --i) {
            b.multiplyPow2(32);
            t.setTo((u64)d[i]);
            b.add(t);
        }
    }
    if (v < 0) b.negate();
    return same(b, v);
}
static std::string str(cpp_int const & v) { std::stringstream s; s << std::hex << abs(v); return (v < 0 ? "-" : "") + s.str(); }

enum Op { ADD, SUB, MUL, ASSIGN, ADDS, SUBS, MULS, ASSIGNS, NEG, ZERO, POW2, NOPS };
static char const * const opname[] = {"+=", "-=", "*=", "=", "+=self", "-=self", "*=self", "=self", "neg", "zero", "<<"};
static cpp_int want(Op o, cpp_int const & x, cpp_int const & y, unsigned n) {
    switch (o) {
        case ADD: return x + y; case SUB: return x - y; case MUL: return x * y; case ASSIGN: return y;
        case ADDS: return x + x; case SUBS: return 0; case MULS: return x * x; case ASSIGNS: return x;
        case NEG: return -x; case ZERO: return 0; default: return x << n;
    }
}
static BigInteger * apply(Op o, BigInteger & a, BigInteger const & b, unsigned n) {
    switch (o) {
        case ADD: return &a.add(b); case SUB: return &a.subtract(b); case MUL: return &a.multiply(b); case ASSIGN: return &(a = b);
        case ADDS: return &a.add(a); case SUBS: return &a.subtract(a); case MULS: return &a.multiply(a); case ASSIGNS: { BigInteger & r = a; return &(a = r); }
        case NEG: a.negate(); return &a; case ZERO: a.setToZero(); return &a; default: return &a.multiplyPow2(n);
    }
}
// One operation with a result that must be exact, or an error that leaves the value alone.
template <typename K>
static bool step(Op o, Big & a, cpp_int & x, Big & b, cpp_int const & y, unsigned n, K const & mkkey) {
    cpp_int w = want(o, x, y, n);
    unsigned need = digits(w);
    // Room that an implementation may ask for: one digit more than the larger operand of a sum, and
    // than the (at most) sum of the operand lengths of a product.
    unsigned room = o == ADD || o == SUB || o == ADDS || o == SUBS ? std::max(digits(x), digits(y)) + 1
                  : o == MUL ? digits(x) + digits(y) : o == MULS ? 2 * digits(x) : o == POW2 ? digits(x) + n / 32 + 1 : need;
    bool threw = false, same_ref = true;
    try { same_ref = apply(o, a.b, b.b, n) == &a.b; } catch (std::exception const &) { threw = true; }
    mc::trans();
    bool ok = true;
    if (!a.guards() || !b.guards()) { mc::fail(mkkey(), "wrote outside the storage"); return false; }
    if (threw) {
        mc::outcome("error");
        if (room <= a.cap) { mc::fail(mkkey(), fmt("error though %u digits suffice for %s", room, opname[o])); ok = false; }
        if (!same(a.b, x)) { mc::fail(mkkey(), "value changed by a failed operation: " + show(a.b)); ok = false; }
    } else {
        mc::outcome("result");
        x = w;
        if (need > a.cap) { mc::fail(mkkey(), "no error though the result does not fit"); ok = false; }
        else if (!same(a.b, w)) { mc::fail(mkkey(), "got " + show(a.b) + " want " + str(w)); ok = false; }
        if (!same_ref) { mc::fail(mkkey(), "returned another object"); ok = false; }
    }
    if (&a != &b && !same(b.b, y)) { mc::fail(mkkey(), "operand changed: " + show(b.b)); ok = false; }
    return ok;
}

static std::vector<cpp_int> values(std::vector<u32> const & alpha, unsigned maxd) {
    std::vector<cpp_int> r{0}, cur{0};
    for (unsigned d = 0; d < maxd; ++d) {
        std::vector<cpp_int> nx;
        for (auto & c : cur) for (u32 a : alpha) nx.push_back(c + (cpp_int(a) << (32 * d)));
        cur = nx;
        for (auto & v : nx) if (digits(v) == d + 1) { r.push_back(v); r.push_back(-v); }
    }
    return r;
}

static void pairs(std::vector<u32> const & alpha, unsigned maxd, unsigned tag) {
    std::vector<cpp_int> vs = values(alpha, maxd);
    std::vector<std::unique_ptr<Big>> bs;
    for (auto & v : vs) {
        bs.emplace_back(new Big(maxd + 2));
        if (!make(bs.back()->b, v)) mc::fail("construct " + str(v), show(bs.back()->b));
    }
    Big a(2 * maxd + 1);
    for (size_t i = 0; i < vs.size(); ++i) {
        if (!mc::mine(i)) continue;
        mc::state();
        for (Op o : {ADDS, SUBS, MULS, ASSIGNS, NEG, ZERO}) {
            a.b = bs[i]->b;
            cpp_int x = vs[i];
            Big d(2);
            step(o, a, x, d, 0, 0, [&] { return fmt("%s ", opname[o]) + str(vs[i]); });
        }
        for (size_t j = 0; j < vs.size(); ++j) {
            mc::at(tag, i, j);
            for (Op o : {ADD, SUB, MUL, ASSIGN}) {
                a.b = bs[i]->b;
                cpp_int x = vs[i];
                step(o, a, x, *bs[j], vs[j], 0, [&] { return str(vs[i]) + fmt(" %s ", opname[o]) + str(vs[j]); });
            }
            mc::trace();
        }
        if (mc::wantSample()) mc::sample(str(vs[i]) + " with every other value");
    }
}

static void shifts() {
    std::vector<cpp_int> vs = values({0, 1, 0x80000000u, 0xffffffffu, 0x12345678u}, mc::thorough() ? 4 : 3);
    for (size_t i = 0; i < vs.size(); ++i) {
        if (!mc::mine(i)) continue;
        mc::state();
        for (unsigned n = 0; n <= 260; ++n) {
            mc::at(i, n);
            unsigned need = digits(vs[i] << n), room = digits(vs[i]) + n / 32 + 1;
            for (unsigned cap : {need - 1, need, room, room + 1, room + 5}) {
                if (cap > 1000 || cap < std::max(2u, digits(vs[i]) + (digits(vs[i]) > 2 ? 1 : 0))) continue;
                Big a(cap), d(2);
                if (!make(a.b, vs[i])) { mc::fail("construct " + str(vs[i]), show(a.b)); continue; }
                // stale digits above the value must not leak into the result
                cpp_int x = vs[i];
                step(POW2, a, x, d, 0, n, [&] { return str(vs[i]) + fmt(" << %u cap %u", n, cap); });
                mc::trace();
            }
        }
    }
    for (unsigned n : {1000u, 4096u, 6000u, 6300u}) {
        Big a(512), d(2);
        for (auto & v : vs) {
            if (!mc::mine(n + digits(v))) continue;
            if (!make(a.b, v)) continue;
            cpp_int x = v;
            step(POW2, a, x, d, 0, n, [&] { return str(v) + fmt(" << %u", n); });
            mc::trace();
        }
    }
}

static void capacities() {
    std::vector<cpp_int> vs = values({0, 1, 0xffffffffu, 0x80000000u}, 3);
    std::vector<std::unique_ptr<Big>> bs;
    for (auto & v : vs) {
        bs.emplace_back(new Big(5));
        if (!make(bs.back()->b, v)) mc::fail("construct " + str(v), show(bs.back()->b));
    }
    for (size_t i = 0; i < vs.size(); ++i) {
        if (!mc::mine(i)) continue;
        mc::state();
        for (size_t j = 0; j < vs.size(); ++j)
            for (unsigned cap = digits(vs[i]); cap <= 7; ++cap)
                for (Op o : {ADD, SUB, MUL, ASSIGN, ADDS, MULS}) {
                    if (j && (o == ADDS || o == MULS)) continue;
                    mc::at(i, j, cap, o);
                    Big a(cap);
                    a.b = bs[i]->b;   // copying needs just enough room
                    cpp_int x = vs[i];
                    step(o, a, x, *bs[j], vs[j], 0, [&] { return str(vs[i]) + fmt(" %s ", opname[o]) + str(vs[j]) + fmt(" cap %u", cap); });
                    mc::trace();
                }
    }
    // the setters
    std::vector<u64> us;
    for (int k = 0; k < 64; ++k) for (int d = -2; d <= 2; ++d) us.push_back((1ull << k) + d);
    us.push_back(~0ull);
    us.push_back(0);
    for (u64 u : us) {
        if (!mc::mine(u % 64)) continue;
        for (unsigned cap : {0u, 1u, 2u, 3u}) {
            for (int sgn = 0; sgn < 2; ++sgn) {
                mc::at(u, cap, sgn);
                Big a(cap);
                cpp_int w = sgn ? cpp_int((int64_t)u) : cpp_int(u);
                bool threw = false;
                try { if (sgn) a.b.setTo((int64_t)u); else a.b.setTo(u); } catch (std::exception const &) { threw = true; }
                mc::trans(); mc::trace();
                std::string key = fmt("setTo %016" PRIx64 " signed=%d cap=%u", u, sgn, cap);
                if (!a.guards()) mc::fail(key, "wrote outside the storage");
                else if (threw ? (cap >= 2 || !same(a.b, 0)) : (digits(w) > cap || !same(a.b, w))) mc::fail(key, show(a.b) + (threw ? " error" : ""));
            }
        }
    }
}

// Explicit-state exploration: two registers, every operation sequence up to a depth, duplicate states merged.
static void histories(unsigned capA, unsigned capB, unsigned depth, unsigned tag) {
    struct St { cpp_int x, y; };
    std::vector<int64_t> consts{0, 1, -1, 0xffffffffll, std::numeric_limits<int64_t>::min(), std::numeric_limits<int64_t>::max()};
    std::vector<unsigned> sh{1, 31, 32, 33, 63, 64, 65};
    std::vector<std::pair<int, unsigned>> ops;   // (op, arg); op>=100: second register
    for (int r = 0; r < 2; ++r) {
        for (int o : {ADD, SUB, MUL, ASSIGN, ADDS, SUBS, MULS, ASSIGNS, NEG}) ops.emplace_back(o + 100 * r, 0);
        for (unsigned n : sh) ops.emplace_back(POW2 + 100 * r, n);
        for (unsigned k = 0; k < consts.size(); ++k) ops.emplace_back(50 + 100 * r, k);
    }
    std::set<std::pair<cpp_int, cpp_int>> seen;
    // shards own the first operation
    std::vector<std::vector<std::pair<int, unsigned>>> frontier(1);
    seen.insert({0, 0});
    for (unsigned d = 0; d < depth; ++d) {
        std::vector<std::vector<std::pair<int, unsigned>>> next;
        uint64_t cnt = 0;
        for (auto & h : frontier) {
            for (auto & op : ops) {
                // every shard walks the whole tree up to the last level, which is split
                bool last = d + 1 == depth;
                ++cnt;
                if (last && !mc::mine(cnt)) continue;
                Big A(capA), B(capB);
                cpp_int x = 0, y = 0;
                auto run = [&](std::pair<int, unsigned> const & p, std::string const & key) {
                    int o = p.first % 100;
                    bool second = p.first >= 100;
                    Big & a = second ? B : A;
                    Big & b = second ? A : B;
                    cpp_int & u = second ? y : x;
                    cpp_int & v = second ? x : y;
                    if (o == 50) {
                        a.b.setTo(consts[p.second]);
                        u = consts[p.second];
                        mc::trans();
                        if (!same(a.b, u) || !A.guards() || !B.guards()) { mc::fail(key, "setTo " + show(a.b)); return false; }
                        return true;
                    }
                    return step((Op)o, a, u, b, v, p.second, [&] { return key; });
                };
                std::string key;
                auto add = [&](std::pair<int, unsigned> const & p) {
                    int o = p.first % 100;
                    key += (p.first >= 100 ? "b" : "a") + std::string(o == 50 ? fmt("=%" PRId64, consts[p.second]) : o == POW2 ? fmt("<<%u", p.second) : opname[o]) + ";";
                };
                bool ok = true;
                for (auto & q : h) { add(q); ok = ok && run(q, key); if (!ok) break; }
                if (!ok) continue;
                add(op);
                mc::at(tag, d, cnt);
                ok = run(op, fmt("cap %u %u ", capA, capB) + key);
                mc::trace();
                if (!ok) continue;
                if (last) continue;
                if (seen.insert({x, y}).second) { auto g = h; g.push_back(op); next.push_back(g); if (mc::g().shard == 0) mc::state(); }
            }
        }
        frontier.swap(next);
        if (d + 2 == depth && mc::wantSample()) mc::sample(fmt("depth %u: %zu distinct register states", d + 1, frontier.size()));
    }
}

static void body() {
    bool T = mc::thorough();
    mc::section("every pair of integers over a digit alphabet");
    pairs({0, 1, 0x80000000u, 0xffffffffu}, T ? 4 : 3, 0);
    pairs({0, 1, 2, 0x7fffffffu, 0xfffffffeu, 0xffffffffu}, T ? 3 : 2, 1);
    pairs({0, 0xffffffffu}, T ? 7 : 6, 2);
    pairs({0, 1}, T ? 8 : 6, 3);
    if (mc::deep()) pairs({0, 1, 2, 3, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu}, 3, 4);
    mc::section("shifts");
    shifts();
    mc::section("capacities and setters");
    capacities();
    mc::section("operation histories on two registers");
    histories(3, 3, T ? 5 : 4, 0);
    histories(6, 4, T ? 5 : 4, 1);
    histories(2, 5, 4, 2);
}
int main(int argc, char ** argv) { return mc::run(argc, argv, body); }
