// C18: neighborhoods of the cube-based pixelizations against the pixels found by walking around each corner.
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "lsst/sphgeom/Q3cPixelization.h"
#include "zoo.h"
using namespace zoo;
using mc::fmt;
typedef unsigned long long ull;
#ifdef __SANITIZE_ADDRESS__
static bool const ASAN = true;
#else
static bool const ASAN = false;
#endif

static std::unique_ptr<Pixelization> make(int kind, int l) {
    if (kind == 0) return std::make_unique<Q3cPixelization>(l);
    return std::make_unique<Mq3cPixelization>(l);
}
static std::vector<uint64_t> nb(int kind, int l, uint64_t i) {
    if (kind == 0) return Q3cPixelization(l).neighborhood(i);
    return Mq3cPixelization::neighborhood(i);
}
static char const * NAME[2] = {"Q3C", "MQ3C"};
static std::string list(std::vector<uint64_t> const & v) { std::string s; for (auto x : v) s += fmt("%llu ", (ull)x); return s; }

// The pixels around the corners of pixel i.
static std::vector<uint64_t> touching(Pixelization const & p, uint64_t i, int & rootCorners) {
    std::set<uint64_t> r;
    r.insert(i);
    auto poly = p.pixel(i);
    auto const & v = static_cast<ConvexPolygon const &>(*poly).getVertices();
    rootCorners = 0;
    for (size_t a = 0; a < 4; ++a) {
        V3 w = unit(V3(v[a])), s = unit(V3(v[(a + 1) % 4])), t = unit(V3(v[(a + 3) % 4]));
        LD h = std::min(angle(w, s), angle(w, t)) * 0.2L;
        V3 e1 = anyPerp(w), e2 = cross(w, e1);
        std::set<uint64_t> at;
        for (int k = 0; k < 36; ++k) {
            LD th = 2 * LPI * k / 36 + 0.01L;
            at.insert(p.index(U(go(w, e1 * cosl(th) + e2 * sinl(th), h))));
        }
        if (at.size() == 3) ++rootCorners;
        r.insert(at.begin(), at.end());
    }
    return std::vector<uint64_t>(r.begin(), r.end());
}
static bool cubeCorner(UnitVector3d const & v) {
    LD c = 1 / sqrtl(3.0L);
    return fabsl(fabsl(v.x()) - c) < 1e-13L && fabsl(fabsl(v.y()) - c) < 1e-13L && fabsl(fabsl(v.z()) - c) < 1e-13L;
}
static void one(int kind, int l, Pixelization const & p, uint64_t i) {
    std::string k = fmt("%s level %d pixel %llu", NAME[kind], l, (ull)i);
    std::vector<uint64_t> n = nb(kind, l, i);
    int rc;
    std::vector<uint64_t> w = touching(p, i, rc);
    mc::trans();
    mc::outcome(fmt("%zu pixels", w.size()));
    mc::trace();
    if (n != w) mc::fail(k, "got " + list(n) + "want " + list(w));
    // 8 - k neighbours, where k is the number of corners shared with the root pixels
    auto poly = p.pixel(i);
    int kk = 0;
    for (auto & u : static_cast<ConvexPolygon const &>(*poly).getVertices()) kk += cubeCorner(u);
    if (n.size() != (size_t)9 - kk || rc != kk) mc::fail(k + " size", fmt("%zu with %d corners (%d seen)", n.size(), kk, rc));
    for (uint64_t j : n) {
        std::vector<uint64_t> m = nb(kind, l, j);
        mc::trans();
        if (!std::binary_search(m.begin(), m.end(), i)) mc::fail(k + fmt(" symmetry with %llu", (ull)j), list(m));
    }
}
static bool rejects(std::function<void()> f) {
    try { f(); } catch (std::invalid_argument const &) { return true; } catch (std::exception const &) { return false; }
    return false;
}

int main(int argc, char ** argv) {
    return mc::run(argc, argv, [] {
        bool T = mc::thorough();
        uint64_t idx = 0;
        for (int kind = 0; kind < 2; ++kind) {
            uint64_t root = kind == 0 ? 0 : 10;
            mc::section(fmt("%s all pixels", NAME[kind]));
            int L = T ? 7 : ASAN ? 3 : 5;
            for (int l = 0; l <= L; ++l) {
                auto p = make(kind, l);
                for (uint64_t i = root << 2 * l; i < (root + 6) << 2 * l; ++i) {
                    if (!mc::mine(idx++)) continue;
                    mc::at(kind, l, i); mc::state();
                    one(kind, l, *p, i);
                }
            }
            // deep levels: every boundary pattern (first, last or general grid coordinate), found through points
            mc::section(fmt("%s deep pixels", NAME[kind]));
            for (int l = L + 1; l <= 30; ++l) {
                auto p = make(kind, l);
                LD n = ldexpl(1, l);
                std::vector<LD> g = {0.5L, 1.5L, n / 2 - 0.5L, n / 2 + 0.5L, floorl(n / 3) + 0.5L, floorl(n * 0.7182L) + 0.5L, n - 1.5L, n - 0.5L};
                if (T) for (LD x : {2.5L, 3.5L, n / 4 - 0.5L, n / 4 + 0.5L, floorl(n * 0.141L) + 0.5L, n - 2.5L}) g.push_back(x);
                std::set<uint64_t> seen;
                for (int face = 0; face < 6; ++face)
                    for (LD s : g) for (LD t : g) {
                        LD u = 2 * s / n - 1, v = 2 * t / n - 1;
                        if (kind == 1) {
                            u = copysignl(2 - sqrtl(4 - 3 * fabsl(u)), u);
                            v = copysignl(2 - sqrtl(4 - 3 * fabsl(v)), v);
                        }
                        LD q[3];
                        q[face % 3] = face < 3 ? 1 : -1; q[(face + 1) % 3] = u; q[(face + 2) % 3] = v;
                        uint64_t i = p->index(U(V3(q[0], q[1], q[2])));
                        if (!seen.insert(i).second || !mc::mine(idx++)) continue;
                        if (ASAN && idx % 7) continue;
                        mc::at(kind, l, i); mc::state();
                        one(kind, l, *p, i);
                    }
            }
            mc::section(fmt("%s invalid", NAME[kind]));
            for (int l = 0; l <= 30; ++l) {
                if (!mc::mine(idx++)) continue;
                mc::state();
                std::vector<uint64_t> bad = {~0ull, ~0ull - 1};
                if (kind == 0) {
                    for (uint64_t d : {0, 1, 2, 3, 1000}) bad.push_back((6ull << 2 * l) + d);
                    if (l < 30) for (uint64_t f : {7, 8, 10, 15}) bad.push_back(f << 2 * l);
                } else {
                    bad = {0, 1, 2, 3, 7, 8, 9, 16, 17, 31, 32, 39, 64, 127, 128, 159};
                    bad.push_back((10ull << 2 * l) - 1); bad.push_back(8ull << 2 * l); bad.push_back((9ull << 2 * l) + 1);
                    if (l < 29) bad.push_back(16ull << 2 * l);
                }
                // indexes that differ from a pixel's in a high bit
                for (uint64_t f = 0; f < 16; ++f) for (int h = 2 * l; h < 64; ++h) {
                    uint64_t const i = ((f << 2 * l) | ((1ull << 2 * l) / 3)) ^ (1ull << h);
                    if (kind == 1 || (i >> 2 * l) >= 6) bad.push_back(i);
                }
                for (uint64_t b : bad) {
                    mc::trans();
                    bool valid = false;
                    if (kind == 1) for (int q = 0; q <= 30; ++q) valid = valid || ((b >> 2 * q) >= 10 && (b >> 2 * q) < 16);
                    if (!valid && !rejects([&] { nb(kind, l, b); })) mc::fail(fmt("%s level %d neighborhood of %llu", NAME[kind], l, (ull)b), "not rejected");
                }
            }
        }
    });
}
