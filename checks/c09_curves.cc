// C09: Morton and Hilbert curves and integer logarithms.
#include "lsst/sphgeom/curve.h"
#include "mc.h"
#include <algorithm>
#include <tuple>
using namespace lsst::sphgeom;
using mc::fmt;
typedef uint64_t u64;
typedef uint32_t u32;

static u64 mortonRef(u32 x, u32 y) {
    u64 z = 0;
    for (int i = 0; i < 32; ++i) z |= (u64)(x >> i & 1) << (2 * i) | (u64)(y >> i & 1) << (2 * i + 1);
    return z;
}
// The Hilbert curve of the table documented in curve.h, one base-4 digit at a time. The geometric laws below
// (starts at the origin, refines its parent, consecutive indexes adjacent) pin down a Hilbert curve; this fixes
// which one it is.
static u64 hilbertRef(u64 z, int m) {
    u64 h = 0;
    unsigned i = 0;
    for (int b = 2 * m; b != 0;) {
        b -= 2;
        i = (i & 0xc) | (unsigned)(z >> b & 3);
        i = (unsigned)(UINT64_C(0x8d3ec79a6b5021f4) >> (i * 4)) & 0xf;
        h = h << 2 | (i & 3);
    }
    return h;
}
static u64 mask(int m) { return m >= 32 ? ~0ull : (1ull << (2 * m)) - 1; }

// Everything that must hold at Hilbert index h of order m.
static void hilbertAt(u64 h, int m, bool ref) {
    u64 M = mask(m);
    auto key = [&] { return fmt("m=%d h=%#" PRIx64, m, h); };
    u32 x, y;
    std::tie(x, y) = hilbertIndexInverse(h, m);
    mc::trans();
    if (m < 32 && ((u64)x >> m || (u64)y >> m)) { mc::fail(key(), fmt("coordinates (%u,%u) exceed %d bits", x, y, m)); return; }
    if (hilbertIndex(x, y, m) != h) { mc::fail(key(), fmt("(%u,%u) has index %#" PRIx64, x, y, hilbertIndex(x, y, m))); return; }
    u64 z = hilbertToMorton(h, m);
    if (z != mortonRef(x, y)) mc::fail(key(), "hilbertToMorton disagrees with the coordinates");
    if (mortonToHilbert(z, m) != h) mc::fail(key(), "mortonToHilbert(hilbertToMorton)");
    if (ref && hilbertRef(z, m) != h) mc::fail(key(), "differs from the documented curve");
    // bits above the order are ignored in x and y
    if (m < 32) {
        u32 hi = ~0u << m;
        if (hilbertIndex(x | hi, y | hi, m) != h || hilbertIndex(x | hi, y, m) != h) mc::fail(key(), "bits above the order used");
    }
    if (h == 0 && (x || y)) mc::fail(key(), "does not start at the origin");
    if (m > 1) {
        u32 px, py;
        std::tie(px, py) = hilbertIndexInverse(h >> 2, m - 1);
        if (px != x >> 1 || py != y >> 1) mc::fail(key(), fmt("parent (%u,%u) of (%u,%u)", px, py, x, y));
    }
    if (h != M) {
        u32 a, b;
        std::tie(a, b) = hilbertIndexInverse(h + 1, m);
        u64 d = (a > x ? a - x : x - a), e = (b > y ? b - y : y - b);
        if (d + e != 1) mc::fail(key(), fmt("successor (%u,%u) of (%u,%u)", a, b, x, y));
    }
#if !defined(NO_SIMD) && defined(__x86_64__)
    __m128i xy = _mm_set_epi64x(y, x);
    if (hilbertIndex(xy, m) != h) mc::fail(key(), "vector form of hilbertIndex");
    alignas(16) u64 o[2];
    _mm_store_si128((__m128i *)o, hilbertIndexInverseSimd(h, m));
    if ((u32)o[0] != x || (u32)o[1] != y) mc::fail(key(), "vector form of the inverse");
#endif
}
static void mortonAt(u32 x, u32 y) {
    u64 w = mortonRef(x, y), g = mortonIndex(x, y);
    mc::trans();
    auto key = [&] { return fmt("x=%#x y=%#x", x, y); };
    if (g != w) { mc::fail(key(), fmt("index %#" PRIx64 " want %#" PRIx64, g, w)); return; }
    u32 a, b;
    std::tie(a, b) = mortonIndexInverse(w);
    if (a != x || b != y) mc::fail(key(), fmt("inverse (%#x,%#x)", a, b));
    if (mortonIndex(x >> 1, y >> 1) != w >> 2) mc::fail(key(), "parent");
#if !defined(NO_SIMD) && defined(__x86_64__)
    if (mortonIndex(_mm_set_epi64x(y, x)) != w) mc::fail(key(), "vector form");
    alignas(16) u64 o[2];
    _mm_store_si128((__m128i *)o, mortonIndexInverseSimd(w));
    if ((u32)o[0] != x || (u32)o[1] != y) mc::fail(key(), "vector form of the inverse");
#endif
}

static void body() {
    bool T = mc::thorough();
    mc::section("Hilbert: every index of small orders");
    for (int m = 0; m <= (T ? 12 : 10); ++m) {
        u64 n = 1ull << (2 * m);
        for (u64 c = 0; c < (n + 4095) / 4096; ++c) {
            if (!mc::mine(c)) continue;
            mc::at(m, c);
            for (u64 h = c * 4096; h < std::min(n, c * 4096 + 4096); ++h) { mc::state(); hilbertAt(h, m, true); }
            mc::trace(std::min(n, c * 4096 + 4096) - c * 4096);
        }
        if (mc::wantSample()) mc::sample(fmt("order %d: %" PRIu64 " indexes", m, n));
    }
    mc::section("Hilbert: high orders, every digit window");
    {
        // For every order, every window of 5 consecutive base-4 digits (10 bits) at every position, with
        // prefixes that reach every curve state and with extreme suffixes.
        size_t c = 0;
        std::vector<u64> fill{0, ~0ull, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0x1b1b1b1b1b1b1b1bull, 0xe4e4e4e4e4e4e4e4ull, 0x123456789abcdef0ull};
        for (int m = T ? 6 : 9; m <= 32; ++m) for (int pos = 0; pos + 10 <= 2 * m; pos += 2) for (u64 f : fill) {
            if (!mc::mine(c++)) continue;
            mc::state();
            for (u64 w = 0; w < 1024; ++w) for (u64 g : {(u64)0, ~(u64)0, f}) {
                if (!T && w % 3 && g == f && f) continue;
                mc::at(m, pos, w);
                u64 hi = pos + 10 >= 64 ? 0 : f << (pos + 10), lo = pos ? g & ((1ull << pos) - 1) : 0;
                hilbertAt((hi | w << pos | lo) & mask(m), m, true);
                mc::trace();
            }
        }
    }
    mc::section("Hilbert: carries between digits");
    for (int m = 1; m <= 32; ++m) for (int d = 0; d < 2 * m; ++d) for (u64 k = 1; k < 64; ++k) for (int o = -2; o <= 1; ++o) {
        if (!mc::mine(d + k)) continue;
        u64 h = ((k << d) + o);
        if (h > mask(m)) continue;
        mc::at(m, d, k);
        mc::state();
        hilbertAt(h, m, true);
        hilbertAt(mask(m) - h, m, true);
        mc::trace(2);
    }
    mc::section("Morton index");
    {
        std::vector<u32> pat{0, ~0u, 0x55555555u, 0xaaaaaaaau, 0x0f0f0f0fu, 0xf0f0f0f0u, 0x00ff00ffu, 0xffff0000u, 0x12345678u, 0x80000001u};
        for (u32 w = 0; w < 65536; ++w) {
            if (!mc::mine(w >> 6)) continue;
            mc::at(w); mc::state();
            for (u32 p : pat) for (int s : {0, 8, 16}) { mortonAt(w << s, p); mortonAt(p, w << s); mortonAt((w << s) ^ p, p); mc::trace(3); }
            if (T) for (u32 v = 0; v < 65536; v += 7) { mortonAt(w, v); mortonAt(w << 16, v << 11); mc::trace(2); }
        }
        for (int a = 0; a < 64; ++a) for (int b = 0; b < 64; ++b) for (int c = 0; c < 64; ++c) {
            if (!mc::mine(a)) continue;
            mc::at(a, b, c);
            u64 q = 1ull << a | 1ull << b | 1ull << c;
            mortonAt((u32)q, (u32)(q >> 32));
            mortonAt(~(u32)q, ~(u32)(q >> 32));
            mc::trace(2);
        }
    }
    mc::section("Morton inverse");
    for (u64 c = 0; c < (T ? 1u << 16 : 1u << 12); ++c) {
        if (!mc::mine(c)) continue;
        mc::at(c); mc::state();
        for (u64 w = c * 256; w < c * 256 + 256; ++w) for (int s = 0; s <= 40; s += 8) {
            for (u64 z : {w << s, ~(w << s)}) {
                u32 x, y;
                std::tie(x, y) = mortonIndexInverse(z);
                mc::trans();
                if (mortonRef(x, y) != z) mc::fail(fmt("z=%#" PRIx64, z), fmt("(%#x,%#x)", x, y));
                if (mortonIndex(x, y) != z) mc::fail(fmt("round trip z=%#" PRIx64, z));
                if (hilbertToMorton(mortonToHilbert(z, 32), 32) != z) mc::fail(fmt("through Hilbert z=%#" PRIx64, z));
                mc::trace();
            }
        }
    }
    mc::section("32-bit logarithm: every value");
    {
        u64 step = T ? 1 : 1;
        for (u64 c = 0; c < 65536; ++c) {
            if (!mc::mine(c)) continue;
            mc::at(c); mc::state();
            u32 base = (u32)(c << 16);
            for (u32 i = 0; i < 65536; i += step) {
                u32 v = base | i;
                u32 w = v ? 31 - __builtin_clz(v) : 0;
                if (log2(v) != w) mc::fail(fmt("log2(%#x)", v), fmt("got %u want %u", log2(v), w));
            }
            mc::trans(65536); mc::trace(65536);
        }
    }
    mc::section("64-bit logarithm");
    for (int k = 0; k < 64; ++k) {
        if (!mc::mine(k)) continue;
        u64 top = 1ull << k;
        mc::state();
        for (u64 w = 0; w < 65536; ++w) for (int s = 0; s <= 48; s += 8) {
            mc::at(k, w);
            u64 v = top | ((w << s) & (top - 1));
            if (log2(v) != k) mc::fail(fmt("log2(%#" PRIx64 ")", v), fmt("got %u want %d", log2(v), k));
            v = top | (~(w << s) & (top - 1));
            if (log2(v) != k) mc::fail(fmt("log2(%#" PRIx64 ")", v), fmt("got %u want %d", log2(v), k));
            mc::trans(2); mc::trace(2);
        }
    }
    if (log2((u64)0) != 0 || log2((u32)0) != 0) mc::fail("log2(0)");
}
int main(int argc, char ** argv) { return mc::run(argc, argv, body); }
