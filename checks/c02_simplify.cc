// C02: simplify and scale against their definitions in 128-bit arithmetic, on every set over alphabets of cut
// points placed around block boundaries, every level, every interesting factor, and compositions of the two.
#include "lsst/sphgeom/RangeSet.h"
#include "mc.h"
#include <algorithm>
using lsst::sphgeom::RangeSet;
typedef uint64_t u64;
typedef __uint128_t W;
using mc::fmt;
static W const TOP = (W)1 << 64;
typedef std::vector<std::pair<W, W>> Big;

static Big norm(Big v) {
    std::sort(v.begin(), v.end());
    Big r;
    for (auto & x : v) {
        if (x.first >= x.second) continue;
        if (!r.empty() && r.back().second >= x.first) r.back().second = std::max(r.back().second, x.second);
        else r.push_back(x);
    }
    return r;
}
static std::string show(Big const & r) {
    std::string s = "{";
    for (auto & x : r) s += fmt("[%" PRIx64 ",%s%" PRIx64 ")", (u64)x.first, x.second == TOP ? "1" : "", (u64)x.second);
    return s + "}";
}
static Big got(RangeSet const & s) {
    Big r;
    int n = 0;
    for (auto i = s.begin(); i != s.end() && n < 2000; ++i, ++n) { u64 a = std::get<0>(*i), b = std::get<1>(*i); r.emplace_back(a, b == 0 ? TOP : (W)b); }
    return r;
}
static RangeSet make(Big const & b) {
    RangeSet s;
    for (auto & x : b) s.insert((u64)x.first, (u64)x.second);
    return s;
}
static Big msimplify(Big const & b, unsigned n) {
    if (b.empty()) return b;
    if (n >= 64) return {{0, TOP}};
    W k = (W)1 << n;
    Big r;
    for (auto & x : b) r.emplace_back(x.first / k * k, (x.second + k - 1) / k * k);
    return norm(r);
}
static W satmul(W a, u64 i) { if (a == TOP) return i ? TOP : 0; W p = a * i; return p > TOP ? TOP : p; }
static Big mscale(Big const & b, u64 i) {
    Big r;
    if (i == 0) return r;
    for (auto & x : b) r.emplace_back(satmul(x.first, i), satmul(x.second, i));
    return norm(r);
}
static bool same(RangeSet const & s, Big const & w) { return s.isValid() && got(s) == w && s == make(w) && s.empty() == w.empty(); }

static void one(RangeSet const & s, Big const & b, unsigned n) {
    Big w = msimplify(b, n);
    RangeSet c = s.simplified(n);
    RangeSet d(s);
    RangeSet & ref = d.simplify(n);
    mc::trans(2);
    if (!same(c, w) || c != d || &ref != &d) mc::fail(fmt("simplify(%u) ", n) + show(b), "got " + show(got(c)) + " / " + show(got(d)) + " want " + show(w));
    if (!c.contains(s)) mc::fail(fmt("superset(%u) ", n) + show(b));
    // The result keeps behaving as a set: complement twice, insert/erase at its edges.
    RangeSet e = ~c;
    if (e.intersects(c) || !((e | c).full())) mc::fail(fmt("complement-after-simplify(%u) ", n) + show(b));
}
static void oneScale(RangeSet const & s, Big const & b, u64 i) {
    Big w = mscale(b, i);
    RangeSet c = s.scaled(i);
    RangeSet d(s);
    RangeSet & ref = d.scale(i);
    mc::trans(2);
    if (!same(c, w) || c != d || &ref != &d) mc::fail(fmt("scale(%" PRIu64 ") ", i) + show(b), "got " + show(got(c)) + " / " + show(got(d)) + " want " + show(w));
    RangeSet e = ~c;
    if (e.intersects(c) || !((e | c).full())) mc::fail(fmt("complement-after-scale(%" PRIu64 ") ", i) + show(b));
}

template <typename F> static void subsets(std::vector<W> cuts, F f) {
    std::sort(cuts.begin(), cuts.end());
    cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
    while (!cuts.empty() && cuts.back() >= TOP) cuts.pop_back();
    size_t K = cuts.size();
    for (u64 m = 0; m < (1ull << K); ++m) {
        if (!mc::mine(m)) continue;
        Big b;
        for (size_t i = 0; i < K; ++i) if (m >> i & 1) b.emplace_back(cuts[i], i + 1 < K ? cuts[i + 1] : TOP);
        b = norm(b);
        mc::state();
        f(m, b, make(b));
    }
}

static void body() {
    bool T = mc::thorough();
    mc::section("simplify: sets of small integers");
    std::vector<W> small{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17};
    if (T) small.insert(small.end(), {31, 32, 33, 48});
    if (mc::deep()) small.insert(small.end(), {6, 63, 64, 65}), std::sort(small.begin(), small.end());
    std::vector<W> top;
    for (W x : small) top.push_back(x == 0 ? 0 : TOP - x);
    for (auto * v : {&small, &top})
        subsets(*v, [&](u64 m, Big const & b, RangeSet const & s) {
            for (unsigned n : {0u, 1u, 2u, 3u, 4u, 5u, 6u, 31u, 32u, 33u, 62u, 63u, 64u, 65u, 127u, 128u, 0xffffffffu}) {
                mc::at(m, n);
                one(s, b, n);
                mc::trace();
            }
            for (unsigned n = 0; n < 5; ++n) for (unsigned k = 0; k < 5; ++k) {
                RangeSet c = s.simplified(n).simplified(k);
                mc::trans(2);
                if (!same(c, msimplify(msimplify(b, n), k))) mc::fail(fmt("simplify(%u).simplify(%u) ", n, k) + show(b));
            }
            if (mc::wantSample()) mc::sample(show(b));
        });
    mc::section("simplify: sets around every block size");
    for (unsigned n = 0; n < 64; ++n) {
        W k = (W)1 << n;
        std::vector<W> cuts{0, 1, k - 1, k, k + 1, 2 * k - 1, 2 * k, 3 * k - 1, 3 * k + 1, TOP - k - 1, TOP - k, TOP - 1};
        if (T) cuts.insert(cuts.end(), {TOP - k + 1, TOP - 2 * k, 4 * k});
        subsets(cuts, [&](u64 m, Big const & b, RangeSet const & s) {
            for (int d = -1; d <= 1; ++d) {
                if ((int)n + d < 0) continue;
                mc::at(n, m, d + 1);
                one(s, b, n + d);
                mc::trace();
            }
            if (mc::wantSample()) mc::sample(fmt("n=%u ", n) + show(b));
        });
    }
    mc::section("scale: sets times factors");
    std::vector<std::vector<W>> sc{{0, 1, 2, 3, 4, 7, 8, 9, 100, 101}, {0, 1, 2, 0xffffffffull, 0x100000000ull, 0x100000001ull, TOP / 4, TOP / 4 + 1, TOP / 2 - 1, TOP / 2, TOP / 2 + 1, TOP - 1}, {0, 5, TOP / 5, TOP / 5 + 1, TOP / 3, TOP / 3 + 1, TOP / 3 * 2, TOP - 4, TOP - 1}};
    std::vector<u64> fac{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 64, 0xffffffffull, 0x100000000ull, 0x100000001ull, ~0ull, ~0ull - 1, (~0ull) / 2, (~0ull) / 2 + 1, (~0ull) / 3, (~0ull) / 3 + 1};
    for (int k = 3; k < 64; ++k) { fac.push_back(1ull << k); if (T) { fac.push_back((1ull << k) + 1); fac.push_back((1ull << k) - 1); } }
    for (auto & v : sc)
        subsets(v, [&](u64 m, Big const & b, RangeSet const & s) {
            for (u64 i : fac) {
                mc::at(m, i);
                oneScale(s, b, i);
                mc::trace();
            }
            // Thresholds of this very set.
            for (auto & x : b) for (W e : {x.first, x.second}) {
                if (e == 0 || e == TOP) continue;
                for (int d = -1; d <= 1; ++d) { u64 i = (u64)(TOP / e) + d; oneScale(s, b, i); }
            }
            for (u64 i : {0ull, 1ull, 2ull, 4ull, 16ull}) for (unsigned n : {0u, 1u, 2u, 4u, 5u}) {
                RangeSet c = s.scaled(i).simplified(n), d = s.simplified(n).scaled(i);
                mc::trans(4);
                if (!same(c, msimplify(mscale(b, i), n))) mc::fail(fmt("scale(%d).simplify(%u) ", (int)i, n) + show(b));
                if (!same(d, mscale(msimplify(b, n), i))) mc::fail(fmt("simplify(%u).scale(%d) ", n, (int)i) + show(b));
            }
            if (mc::wantSample()) mc::sample(show(b));
        });
    mc::section("long lists");
    for (int n : {1, 2, 5, 16, 33, 100}) for (u64 stride : {2, 3, 5, 8, 16}) for (u64 len : {1, 2, 3, 7}) for (u64 base : {0ull, 1ull, 6ull, 0xfffffff0ull, ~0ull - 4000}) {
        if (len >= stride) continue;
        static u64 c = 0;
        if (!mc::mine(c++)) continue;
        Big b;
        for (int i = 0; i < n; ++i) b.emplace_back((W)base + stride * i, (W)base + stride * i + len);
        b = norm(b);
        RangeSet s = make(b);
        mc::state();
        for (unsigned k = 0; k <= 64; ++k) { mc::at(c, k); one(s, b, k); mc::trace(); }
        for (u64 i : fac) { mc::at(c, i); oneScale(s, b, i); mc::trace(); }
    }
}
int main(int argc, char ** argv) { return mc::run(argc, argv, body); }
