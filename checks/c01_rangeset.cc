// C01: RangeSet against a bit-mask set model. Alphabet: K cut points of [0, 2^64) dividing it into K cells;
// a state is a subset of the cells. Every state is reached through real operations, and every operation with
// every argument of the alphabet (endpoint pairs, other states, the object itself) is applied to every state.
#include "lsst/sphgeom/RangeSet.h"
#include "mc.h"
#include <new>
#include <tuple>
#include <list>

// Fault injection: the n-th allocation from now fails.
static long g_failAt = -1;
void * operator new(size_t n) {
    if (g_failAt >= 0 && g_failAt-- == 0) throw std::bad_alloc();
    void * p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void * p) noexcept { free(p); }
void operator delete(void * p, size_t) noexcept { free(p); }

using lsst::sphgeom::RangeSet;
typedef uint64_t u64;
typedef uint32_t Mask;
using mc::fmt;

struct Alpha {
    char const * name;
    std::vector<u64> c;   // cut points, c[0] == 0
    int K() const { return (int)c.size(); }
    Mask full() const { return (Mask)((1ull << K()) - 1); }
    u64 end(int i) const { return i + 1 < K() ? c[i + 1] : 0; }
    bool unit(int i) const { return end(i) - c[i] == 1; }
};

// Cells of the (possibly wrapping, possibly full) range [c[f], c[l]).
static Mask rangeMask(Alpha const & a, int f, int l) {
    if (f == l) return a.full();
    Mask m = 0;
    int i = f;
    do { m |= 1u << i; i = (i + 1) % a.K(); } while (i != l);
    return m;
}
typedef std::vector<std::pair<u64, u64>> Ranges;
static Ranges ranges(Alpha const & a, Mask m) {
    Ranges r;
    for (int i = 0; i < a.K();) {
        if (!(m >> i & 1)) { ++i; continue; }
        int j = i;
        while (j < a.K() && (m >> j & 1)) ++j;
        r.emplace_back(a.c[i], j < a.K() ? a.c[j] : 0);
        i = j;
    }
    return r;
}
static u64 card(Alpha const & a, Mask m) {
    u64 n = 0;
    for (int i = 0; i < a.K(); ++i) if (m >> i & 1) n += a.end(i) - a.c[i];
    return n;
}
static std::string show(Ranges const & r) {
    std::string s = "{";
    for (auto & x : r) s += fmt("[%" PRIu64 ",%" PRIu64 ")", x.first, x.second);
    return s + "}";
}
static Ranges got(RangeSet const & s) {
    Ranges r;
    size_t n = 0;
    for (auto i = s.begin(); i != s.end() && n < 1000; ++i, ++n) r.emplace_back(std::get<0>(*i), std::get<1>(*i));
    return r;
}

// Exact contents, validity and cheap derived observations.
static bool same(RangeSet const & s, Ranges const & want) {
    return s.isValid() && got(s) == want;
}
static void check(RangeSet const & s, Alpha const & a, Mask m, char const * what, std::string const & args) {
    static Ranges w;
    w = ranges(a, m);
    bool ok = s.isValid() && got(s) == w && s.size() == w.size() && s.empty() == (m == 0) &&
              s.full() == (m == a.full()) && s.cardinality() == card(a, m);
    if (!ok) {
        mc::fail(fmt("%s %s", what, args.c_str()),
                 fmt("valid=%d got %s size=%zu empty=%d full=%d card=%" PRIu64 " want %s", s.isValid(),
                     show(got(s)).c_str(), s.size(), s.empty(), s.full(), s.cardinality(), show(w).c_str()));
    }
}

static void iterators(RangeSet const & s, Ranges const & w, std::string const & id, bool comp) {
    auto b = comp ? s.beginc() : s.begin();
    auto e = comp ? s.endc() : s.end();
    ptrdiff_t n = (ptrdiff_t)w.size();
    bool ok = (e - b) == n && (b == e) == (n == 0) && (b != e) == (n != 0) && (b < e) == (n > 0) &&
              (e > b) == (n > 0) && b <= e && e >= b;
    if (!comp) ok = ok && s.cbegin() == b && s.cend() == e;
    auto val = [&](ptrdiff_t i) { return std::make_tuple(w[i].first, w[i].second); };
    for (ptrdiff_t i = 0; ok && i <= n; ++i) {
        auto it = b + i;
        ok = ok && it == i + b && it - b == i && (e - it) == n - i && it == e - (n - i) && (it - i) == b;
        auto it2 = b; it2 += i;
        auto it3 = e; it3 -= (n - i);
        ok = ok && it2 == it && it3 == it;
        if (i < n) {
            ok = ok && *it == val(i) && b[i] == val(i) && it[0] == val(i) && it < e && b <= it;
            auto x = it; auto y = x++;
            ok = ok && y == it && x == it + 1;
            auto z = x--;
            ok = ok && z == it + 1 && x == it && (++x) == it + 1 && (--x) == it;
        }
    }
    ptrdiff_t k = n;
    for (auto it = e; ok && it != b && k > 0;) { --it; --k; ok = ok && *it == val(k); }
    if (!ok) mc::fail(fmt("iterators%s %s", comp ? "(complement)" : "", id.c_str()), "iteration disagrees with the set " + show(w));
}

struct Machine {
    Alpha a;
    std::vector<RangeSet> st;   // by mask; the real object first reached
    std::vector<char> have;

    void reach() {
        // Breadth-first from the empty set through insert/erase of every range of the alphabet and complement.
        st.assign(a.full() + 1ull, RangeSet());
        have.assign(a.full() + 1ull, 0);
        std::vector<Mask> q{0};
        have[0] = 1;
        for (size_t h = 0; h < q.size(); ++h) {
            Mask m = q[h];
            for (int f = 0; f < a.K(); ++f)
                for (int l = 0; l < a.K(); ++l) {
                    Mask r = rangeMask(a, f, l);
                    if (!have[m | r]) {
                        RangeSet s(st[m]);
                        s.insert(a.c[f], a.c[l]);
                        check(s, a, m | r, "reach-insert", fmt("%s + [%" PRIu64 ",%" PRIu64 ")", show(ranges(a, m)).c_str(), a.c[f], a.c[l]));
                        have[m | r] = 1; st[m | r] = s; q.push_back(m | r);
                    }
                    if (!have[m & ~r]) {
                        RangeSet s(st[m]);
                        s.erase(a.c[f], a.c[l]);
                        check(s, a, m & ~r, "reach-erase", fmt("%s - [%" PRIu64 ",%" PRIu64 ")", show(ranges(a, m)).c_str(), a.c[f], a.c[l]));
                        have[m & ~r] = 1; st[m & ~r] = s; q.push_back(m & ~r);
                    }
                }
        }
        if (q.size() != a.full() + 1ull) mc::fail("reach", fmt("only %zu of %u states reachable", q.size(), a.full() + 1));
        if (mc::g().shard == 0) { mc::state(q.size()); mc::outcome(fmt("%s reachable sets", a.name), q.size()); }
    }

    void unary(Mask m) {
        RangeSet const & s0 = st[m];
        std::string id = show(ranges(a, m));
        Ranges w = ranges(a, m), wc = ranges(a, a.full() & ~m);
        check(s0, a, m, "state", id);
        iterators(s0, w, id, false);
        iterators(s0, wc, id, true);
        auto rs = [&](char const * op, RangeSet const & s, Mask want) { mc::trans(); check(s, a, want, op, id); };
        { RangeSet s(s0); RangeSet & r = s.complement(); rs("complement", s, a.full() & ~m); if (&r != &s) mc::fail("complement-ref " + id); }
        rs("complemented", s0.complemented(), a.full() & ~m);
        rs("~", ~s0, a.full() & ~m);
        { RangeSet s(s0); s.clear(); rs("clear", s, 0); s.fill(); rs("clear+fill", s, a.full()); s.clear(); rs("fill+clear", s, 0); }
        { RangeSet s(s0); s.fill(); rs("fill", s, a.full()); s.complement(); rs("fill+complement", s, 0); }
        // Aliasing.
        { RangeSet s(s0); s &= s; rs("self &=", s, m); }
        { RangeSet s(s0); s |= s; rs("self |=", s, m); }
        { RangeSet s(s0); s -= s; rs("self -=", s, 0); }
        { RangeSet s(s0); s ^= s; rs("self ^=", s, 0); }
        rs("self &", s0 & s0, m); rs("self |", s0 | s0, m); rs("self -", s0 - s0, 0); rs("self ^", s0 ^ s0, 0);
        { RangeSet s(s0); s.swap(s); rs("self swap", s, m); s = *&s; rs("self assign", s, m); }
        { RangeSet s(s0); RangeSet t(std::move(s)); rs("move", t, m); RangeSet v; v = std::move(t); rs("move assign", v, m); }
        { RangeSet s; RangeSet t(s0); swap(s, t); rs("swap", s, m); rs("swap2", t, 0); }
        if (!(s0.contains(s0) && s0.isWithin(s0) && s0.intersects(s0) == (m != 0) && s0.isDisjointFrom(s0) == (m == 0) && s0 == s0 && !(s0 != s0)))
            mc::fail("self queries " + id);
        // Ranges and single integers.
        for (int f = 0; f < a.K(); ++f) {
            for (int l = 0; l < a.K(); ++l) {
                mc::at(m, f, l);
                Mask r = rangeMask(a, f, l);
                u64 F = a.c[f], L = a.c[l];
                std::string ar;
                auto args = [&] { return fmt("%s [%" PRIu64 ",%" PRIu64 ")", id.c_str(), F, L); };
                { RangeSet s(s0); s.insert(F, L); mc::trans(); if (!same(s, ranges(a, m | r))) check(s, a, m | r, "insert", args()); if (s != st[m | r] || !(s == st[m | r])) mc::fail("insert-equal " + args()); }
                { RangeSet s(s0); s.erase(F, L); mc::trans(); if (!same(s, ranges(a, m & ~r))) check(s, a, m & ~r, "erase", args()); if (s != st[m & ~r] || !(s == st[m & ~r])) mc::fail("erase-equal " + args()); }
                { RangeSet s(s0); s.insert(std::make_tuple(F, L)); if (s != st[m | r]) mc::fail("insert-tuple " + args()); }
                { RangeSet s(s0); s.erase(std::make_tuple(F, L)); if (s != st[m & ~r]) mc::fail("erase-tuple " + args()); }
                bool in = (m & r) != 0, co = (r & ~m) == 0, wi = (m & ~r) == 0;
                mc::trans(4); mc::trace(4);
                if (s0.intersects(F, L) != in) mc::fail("intersects " + args());
                if (s0.isDisjointFrom(F, L) != !in) mc::fail("isDisjointFrom " + args());
                if (s0.contains(F, L) != co) mc::fail("contains " + args());
                if (s0.isWithin(F, L) != wi) mc::fail("isWithin " + args());
            }
            if (a.unit(f)) {
                u64 u = a.c[f];
                Mask r = 1u << f;
                auto args = [&] { return fmt("%s %" PRIu64, id.c_str(), u); };
                mc::trans(6); mc::trace(6);
                { RangeSet s(s0); s.insert(u); check(s, a, m | r, "insert1", args()); }
                { RangeSet s(s0); s.erase(u); check(s, a, m & ~r, "erase1", args()); }
                bool in = (m & r) != 0;
                if (s0.intersects(u) != in) mc::fail("intersects1 " + args());
                if (s0.isDisjointFrom(u) != !in) mc::fail("isDisjointFrom1 " + args());
                if (s0.contains(u) != in) mc::fail("contains1 " + args());
                if (s0.isWithin(u) != ((m & ~r) == 0)) mc::fail("isWithin1 " + args());
            }
        }
        // Construction from lists, in forward and reverse order, as ranges or integers.
        std::vector<std::tuple<u64, u64>> v;
        for (auto & x : w) v.emplace_back(x.first, x.second);
        rs("from-vector", RangeSet(v), m);
        rs("from-reverse", RangeSet(v.rbegin(), v.rend()), m);
        std::list<std::tuple<u64, u64>> li(v.begin(), v.end());
        rs("from-list", RangeSet(li), m);
        rs("from-iterators", RangeSet(s0.begin(), s0.end()), m);
        { Ranges q; for (int i = a.K(); i-- > 0;) if (m >> i & 1) q.emplace_back(a.c[i], a.end(i));
          RangeSet s; for (auto & x : q) s.insert(x.first, x.second); rs("cells-descending", s, m);
          RangeSet t; for (size_t i = 0; i < q.size(); i += 2) t.insert(q[i].first, q[i].second);
          for (size_t i = 1; i < q.size(); i += 2) t.insert(q[i].first, q[i].second); rs("cells-interleaved", t, m); }
        if (w.size() == 1) { rs("ctor-range", RangeSet(w[0].first, w[0].second), m); rs("ctor-tuple", RangeSet(v[0]), m);
            RangeSet i = {{w[0].first, w[0].second}}; rs("ctor-init", i, m); }
        if (w.size() == 2) { RangeSet i = {{w[0].first, w[0].second}, {w[1].first, w[1].second}}; rs("ctor-init2", i, m); }
        if (__builtin_popcount(m) == 1 && a.unit(__builtin_ctz(m))) rs("ctor-int", RangeSet(a.c[__builtin_ctz(m)]), m);
        mc::trace();
        if (mc::wantSample()) mc::sample("unary ops on " + id);
    }

    void binary(Mask x, Mask y) {
        RangeSet const & A = st[x];
        RangeSet const & B = st[y];
        auto args = [&] { return show(ranges(a, x)) + " , " + show(ranges(a, y)); };
        auto eq = [&](char const * op, RangeSet const & r, Mask want) {
            // Compare contents by iteration as well as with ==, which is itself under test.
            if (!same(r, ranges(a, want)) || r != st[want] || !(st[want] == r)) check(r, a, want, op, args()), mc::fail(fmt("%s(eq) %s", op, args().c_str()));
        };
        eq("&", A.intersection(B), x & y);
        eq("|", A.join(B), x | y);
        eq("-", A.difference(B), x & ~y);
        eq("^", A.symmetricDifference(B), x ^ y);
        RangeSet s;
        s = A; s &= B; if (s != st[x & y]) mc::fail("&= " + args());
        s = A; s |= B; if (s != st[x | y]) mc::fail("|= " + args());
        s = A; s -= B; if (s != st[x & ~y]) mc::fail("-= " + args());
        s = A; s ^= B; if (s != st[x ^ y]) mc::fail("^= " + args());
        if ((A & B) != st[x & y] || (A | B) != st[x | y] || (A - B) != st[x & ~y] || (A ^ B) != st[x ^ y]) mc::fail("operators " + args());
        if (A.contains(B) != ((y & ~x) == 0)) mc::fail("contains(set) " + args());
        if (A.isWithin(B) != ((x & ~y) == 0)) mc::fail("isWithin(set) " + args());
        if (A.intersects(B) != ((x & y) != 0)) mc::fail("intersects(set) " + args());
        if (A.isDisjointFrom(B) != ((x & y) == 0)) mc::fail("isDisjointFrom(set) " + args());
        if ((A == B) != (x == y) || (A != B) != (x != y)) mc::fail("== " + args());
        mc::trans(17); mc::trace();
        if (mc::wantSample()) mc::sample("binary ops on " + args());
    }

    // Every allocation failure point of every mutating operation leaves the set unchanged.
    void faults(Mask m, Mask y) {
        auto tryOp = [&](char const * op, std::function<void(RangeSet &)> f, std::string const & args) {
            for (int k = 0; k < 8; ++k) {
                RangeSet s(st[m]);
                bool threw = false;
                g_failAt = k;
                try { f(s); } catch (std::bad_alloc const &) { threw = true; }
                g_failAt = -1;
                mc::trans();
                if (!threw) break;
                mc::outcome("allocation failures injected");
                if (!same(s, ranges(a, m)) || s != st[m]) mc::fail(fmt("strong-guarantee %s %s alloc#%d", op, args.c_str(), k), "set changed by an operation that failed: now " + show(got(s)));
                mc::trace();
            }
        };
        std::string id = show(ranges(a, m)), id2 = id + " , " + show(ranges(a, y));
        RangeSet const & B = st[y];
        tryOp("&=", [&](RangeSet & s) { s &= B; }, id2);
        tryOp("|=", [&](RangeSet & s) { s |= B; }, id2);
        tryOp("-=", [&](RangeSet & s) { s -= B; }, id2);
        tryOp("^=", [&](RangeSet & s) { s ^= B; }, id2);
        if (y < (Mask)(a.K() * a.K())) {
            u64 F = a.c[y / a.K()], L = a.c[y % a.K()];
            auto ar = fmt("%s [%" PRIu64 ",%" PRIu64 ")", id.c_str(), F, L);
            tryOp("insert", [&](RangeSet & s) { s.insert(F, L); }, ar);
            tryOp("erase", [&](RangeSet & s) { s.erase(F, L); }, ar);
        }
    }
};

// Operation sequences on two registers without merging equal states.
struct Seq {
    Alpha a;
    std::vector<std::string> names;
    int K;
    uint64_t depth;
    struct S { RangeSet A, B; Mask x, y; };
    int nops() const { return 2 * K * K + 13; }
    std::string opname(int o) const {
        if (o < 2 * K * K) { int q = o % (K * K); return fmt("%s[%" PRIu64 ",%" PRIu64 ")", o < K * K ? "insert" : "erase", a.c[q / K], a.c[q % K]); }
        static char const * n[] = {"complement", "clear", "fill", "A&=B", "A|=B", "A-=B", "A^=B", "A^=A", "A=A|A", "B=A", "swap", "A=~B", "A=A-~A"};
        return n[o - 2 * K * K];
    }
    void apply(S & s, int o) {
        if (o < 2 * K * K) {
            int q = o % (K * K), f = q / K, l = q % K;
            Mask r = rangeMask(a, f, l);
            if (o < K * K) { s.A.insert(a.c[f], a.c[l]); s.x |= r; } else { s.A.erase(a.c[f], a.c[l]); s.x &= ~r; }
            return;
        }
        switch (o - 2 * K * K) {
            case 0: s.A.complement(); s.x = a.full() & ~s.x; break;
            case 1: s.A.clear(); s.x = 0; break;
            case 2: s.A.fill(); s.x = a.full(); break;
            case 3: s.A &= s.B; s.x &= s.y; break;
            case 4: s.A |= s.B; s.x |= s.y; break;
            case 5: s.A -= s.B; s.x &= ~s.y; break;
            case 6: s.A ^= s.B; s.x ^= s.y; break;
            case 7: s.A ^= s.A; s.x = 0; break;
            case 8: s.A = s.A | s.A; break;
            case 9: s.B = s.A; s.y = s.x; break;
            case 10: swap(s.A, s.B); std::swap(s.x, s.y); break;
            case 11: s.A = ~s.B; s.x = a.full() & ~s.y; break;
            case 12: s.A = s.A - ~s.A; break;
        }
    }
    std::vector<Ranges> rc;
    std::vector<int> path;
    void rec(S const & s, uint64_t d) {
        for (int o = 0; o < nops(); ++o) {
            if (d == 0 && !mc::mine(o)) continue;
            S t(s);
            path.push_back(o);
            mc::at(d, path[0], d > 0 ? path[1] : 0, d > 1 ? path[2] : 0, d > 2 ? path[3] : 0);
            apply(t, o);
            mc::trans();
            if (!same(t.A, rc[t.x]) || !same(t.B, rc[t.y])) {
                std::string p;
                for (int q : path) p += " " + opname(q);
                mc::fail("seq" + p, "A=" + show(got(t.A)) + " want " + show(rc[t.x]) + " B=" + show(got(t.B)) + " want " + show(rc[t.y]));
            } else if (d + 1 < depth) {
                rec(t, d + 1);
            } else {
                mc::trace();
            }
            path.pop_back();
        }
    }
    void go() {
        K = a.K();
        for (Mask m = 0; m <= a.full(); ++m) rc.push_back(ranges(a, m));
        S s{RangeSet(), RangeSet(), 0, 0};
        rec(s, 0);
        mc::state((uint64_t)(a.full() + 1) * (a.full() + 1) / (mc::g().nshards));
        mc::sample(fmt("all sequences of length %" PRIu64 " over %d operations", depth, nops()));
    }
};

// Long lists of ranges: structured families, all pairs, against a plain sorted-vector model.
typedef std::vector<std::pair<__uint128_t, __uint128_t>> Big;
static Big bnorm(Big v) {
    Big r;
    for (auto & x : v) if (x.first < x.second) { if (!r.empty() && r.back().second >= x.first) { if (x.second > r.back().second) r.back().second = x.second; } else r.push_back(x); }
    return r;
}
static __uint128_t const TOP = (__uint128_t)1 << 64;
static Big bop(Big const & A, Big const & B, int op) {
    std::vector<__uint128_t> cuts{0, TOP};
    for (auto & x : A) cuts.push_back(x.first), cuts.push_back(x.second);
    for (auto & x : B) cuts.push_back(x.first), cuts.push_back(x.second);
    std::sort(cuts.begin(), cuts.end());
    cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    Big r;
    size_t i = 0, j = 0;
    for (size_t k = 0; k + 1 < cuts.size(); ++k) {
        while (i < A.size() && A[i].second <= cuts[k]) ++i;
        while (j < B.size() && B[j].second <= cuts[k]) ++j;
        bool x = i < A.size() && A[i].first <= cuts[k], y = j < B.size() && B[j].first <= cuts[k];
        bool z = op == 0 ? x && y : op == 1 ? x || y : op == 2 ? x && !y : x != y;
        if (z) r.emplace_back(cuts[k], cuts[k + 1]);
    }
    return bnorm(r);
}
static Ranges bshow(Big const & b) { Ranges r; for (auto & x : b) r.emplace_back((u64)x.first, (u64)x.second); return r; }

static void bigSets() {
    mc::section("long range lists");
    struct F { Big b; RangeSet s; std::string n; };
    std::vector<F> fam;
    std::vector<int> counts = mc::thorough() ? std::vector<int>{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 33, 64, 127, 200} : std::vector<int>{1, 2, 3, 8, 17, 33, 64};
    for (int n : counts)
        for (u64 stride : {2ull, 3ull, 7ull, 16ull})
            for (u64 len : {1ull, 2ull, 5ull}) {
                if (len >= stride) continue;
                for (int base = 0; base < 4; ++base) {
                    u64 b0 = base == 0 ? 0 : base == 1 ? 1 : base == 2 ? 57 : (u64)0 - (u64)(stride * (n - 1)) - len;
                    F f;
                    std::vector<std::pair<u64, u64>> v;
                    for (int i = 0; i < n; ++i) { u64 x = b0 + stride * i; f.b.emplace_back(x, (__uint128_t)x + len); v.emplace_back(x, x + len); }
                    f.b = bnorm(f.b);
                    // Build in an order that inserts into the middle.
                    for (size_t i = 0; i < v.size(); i += 2) f.s.insert(v[i].first, v[i].second);
                    for (size_t i = v.size(); i-- > 0;) if (i & 1) f.s.insert(v[i].first, v[i].second);
                    f.n = fmt("n=%d stride=%d len=%d base=%d", n, (int)stride, (int)len, base);
                    if (!same(f.s, bshow(f.b))) mc::fail("build " + f.n, show(got(f.s)));
                    fam.push_back(f);
                    if (mc::g().shard == 0) mc::state();
                }
            }
    for (size_t i = 0; i < fam.size(); ++i) {
        if (!mc::mine(i)) continue;
        for (size_t j = 0; j < fam.size(); ++j) {
            mc::at(i, j);
            F & A = fam[i];
            F & B = fam[j];
            RangeSet r[4] = {A.s & B.s, A.s | B.s, A.s - B.s, A.s ^ B.s};
            Big w[4];
            for (int o = 0; o < 4; ++o) {
                w[o] = bop(A.b, B.b, o);
                mc::trans();
                if (!same(r[o], bshow(w[o]))) mc::fail(fmt("op%d ", o) + A.n + " , " + B.n);
            }
            bool ok = A.s.intersects(B.s) == !w[0].empty() && A.s.contains(B.s) == (w[0] == B.b) && A.s.isWithin(B.s) == (w[0] == A.b) && A.s.isDisjointFrom(B.s) == w[0].empty();
            ok = ok && (~A.s).contains(B.s) == w[0].empty() && A.s.contains(r[0]) && r[1].contains(A.s) && (A.s == B.s) == (A.b == B.b);
            if (!ok) mc::fail("queries " + A.n + " , " + B.n);
            mc::trace();
        }
        // Every insertion/erasure/query with endpoints next to the list's own endpoints.
        F & A = fam[i];
        if (A.b.size() > 20) continue;
        std::vector<u64> pts{0, (u64)-1};
        for (auto & x : A.b) for (int d = -1; d <= 1; ++d) { pts.push_back((u64)x.first + d); pts.push_back((u64)x.second + d); }
        std::sort(pts.begin(), pts.end());
        pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
        for (u64 f : pts) for (u64 l : pts) {
            mc::at(i, f, l);
            Big r;
            if (f == l) r = {{0, TOP}};
            else if (l == 0 || f < l) r = {{f, l == 0 ? TOP : l}};
            else r = {{0, l}, {f, TOP}};
            RangeSet s(A.s), t(A.s);
            s.insert(f, l);
            t.erase(f, l);
            Big in = bop(A.b, r, 0);
            bool ok = same(s, bshow(bop(A.b, r, 1))) && same(t, bshow(bop(A.b, r, 2))) && A.s.intersects(f, l) == !in.empty() && A.s.contains(f, l) == (in == bnorm(r)) && A.s.isWithin(f, l) == (in == A.b);
            if (!ok) mc::fail(fmt("range op [%" PRIu64 ",%" PRIu64 ") on ", f, l) + A.n);
            mc::trans(5);
        }
        mc::trace();
    }
}

static void body() {
    u64 const M = ~0ull;
    std::vector<Alpha> al = {
        {"ends", {0, 1, 2, 3, 4, M - 3, M - 2, M - 1, M}},
        {"mixed", {0, 1, 3, 4, 0xffffffffull, 0x100000000ull, M / 2, M / 2 + 1, M / 2 + 2, M}},
    };
    if (mc::thorough()) {
        al.push_back({"wide", {0, 1, 2, 5, 6, 0xffffffffull, 0x100000000ull, M / 2, M / 2 + 1, M - 2, M - 1, M}});
    }
    if (mc::deep()) al.push_back({"wider", {0, 1, 2, 3, 5, 6, 9, 0xffffffffull, 0x100000000ull, M / 2, M / 2 + 1, M - 3, M - 1, M}});
    for (auto & a : al) {
        Machine mm;
        mm.a = a;
        mc::section(std::string("states of ") + a.name);
        mm.reach();
        for (Mask m = 0; m <= a.full(); ++m) if (mc::mine(m)) mm.unary(m);
        mc::section(std::string("pairs of ") + a.name);
        for (Mask x = 0; x <= a.full(); ++x) {
            if (!mc::mine(x)) continue;
            for (Mask y = 0; y <= a.full(); ++y) { mc::at(x, y); mm.binary(x, y); mc::state(); }
        }
    }
    {
        Machine mm;
        mm.a = Alpha{"fault", {0, 1, 2, 3, 7, M - 1, M}};
        mc::section("allocation faults");
        mm.reach();
        for (Mask x = 0; x <= mm.a.full(); ++x)
            if (mc::mine(x)) for (Mask y = 0; y <= mm.a.full(); ++y) { mc::at(x, y); mm.faults(x, y); }
    }
    {
        mc::section("operation sequences");
        Seq s;
        s.a = Alpha{"seq", {0, 1, 2, M}};
        s.depth = mc::deep() ? 6 : mc::thorough() ? 5 : 4;
        s.go();
    }
    bigSets();
}
int main(int argc, char ** argv) { return mc::run(argc, argv, body); }
