// C19: the chunker partitions the sky and never misses a chunk.
#include "clear.h"
#include "lsst/sphgeom/Chunker.h"
#include <sys/resource.h>
using namespace zoo;
using mc::fmt;
#ifdef __SANITIZE_ADDRESS__
static const bool SAN = true;
#else
static const bool SAN = false;
#endif

struct Cell {            // a chunk or sub-chunk
    int32_t chunk, sub;  // ids
    LD lon0, lonw, lat0, lat1;
    P shape;             // its box as a shape
};
struct Conf {
    int ns, nss;
    std::unique_ptr<Chunker> c;
    std::vector<Cell> chunks, subs;
    std::set<int32_t> ids;
    std::map<std::pair<int32_t, int32_t>, size_t> subIdx;
    std::map<int32_t, size_t> chunkIdx;
    std::vector<std::vector<size_t>> byStripe, bySubStripe;   // cells in longitude order
    std::vector<Pt> samples;                                  // three by three points of every sub-chunk
    std::vector<std::pair<size_t, size_t>> where;             // their chunk and sub-chunk
};
static bool nearI(LD x, LD y) { return fabsl(x - y) < 1e-9L; }

static Cell cell(Conf & f, int32_t id, int32_t sub, Box const & b, int n, int i, LD h, int row, std::string const & what) {
    // the box must be the i-th of n equal boxes around the row, up to a tiny dilation
    Cell c;
    c.chunk = id; c.sub = sub;
    c.lat0 = -LPI / 2 + row * h; c.lat1 = c.lat0 + h;
    c.lon0 = 2 * LPI * i / n; c.lonw = 2 * LPI / n;
    if (fabsl(b.getLat().getA().asRadians() - c.lat0) > 1e-10L || fabsl(b.getLat().getB().asRadians() - c.lat1) > 1e-10L) mc::fail(what + " latitudes");
    LD slack = 1e-10L / std::max(1e-9L, cosl(std::max(fabsl(c.lat0), fabsl(c.lat1))));
    if (n == 1) {
        if (!b.getLon().isFull()) mc::fail(what + " longitudes", "not all of them");
    } else if (!b.getLon().isFull() || slack < 1e-3L) {
        LD a = b.getLon().getA().asRadians(), w = b.getLon().getSize().asRadians();
        LD d = fabsl(a - c.lon0);
        d = std::min(d, fabsl(2 * LPI - d));
        if (d > slack || fabsl(w - c.lonw) > 2 * slack) mc::fail(what + " longitudes", fmt("%.12Lf + %.12Lf, expected %.12Lf + %.12Lf", a, w, c.lon0, c.lonw));
    }
    // contains all of its nominal box
    for (LD x : {0.0L, 0.3L, 0.999999L})
        for (LD y : {0.0L, 0.6L, 1.0L}) {
            UnitVector3d u = U(lonlat(c.lon0 + x * c.lonw, c.lat0 + y * h));
            if (!b.contains(u)) mc::fail(what + " contains", fmt("fractions %Lg, %Lg", x, y));
        }
    c.shape.reset(new Sh);
    c.shape->k = 'b'; c.shape->lon0 = c.lon0; c.shape->lonw = c.lonw; c.shape->lat0 = c.lat0; c.shape->lat1 = c.lat1; c.shape->lonfull = n == 1;
    (void)f;
    return c;
}
// Number of equal cells in a row, from the width of the first one.
static int cellsOf(Box const & b, LD lat0, LD lat1) {
    if (b.getLon().isFull()) return 1;
    LD slack = 1e-11L / std::max(1e-9L, cosl(std::max(fabsl(lat0), fabsl(lat1))));
    LD w = b.getLon().getSize().asRadians() - slack;
    return (int)floorl(2 * LPI / w + 0.5L);
}

static void build(Conf & f, bool report) {
    std::string nm = fmt("chunker(%d,%d)", f.ns, f.nss);
    f.c.reset(new Chunker(f.ns, f.nss));
    Chunker const & c = *f.c;
    auto bad = [&](std::string const & k, std::string const & d = "") { if (report) mc::fail(nm + " " + k, d); };
    if (c.getNumStripes() != f.ns || c.getNumSubStripesPerStripe() != f.nss) bad("accessors");
    Chunker copy(c);
    if (!(copy == c) || copy != c || c == Chunker(f.ns, f.nss + 1) || c == Chunker(f.ns + 1, f.nss) || !(c != Chunker(f.ns + 1, f.nss))) bad("equality");
    LD H = LPI / f.ns, h = H / f.nss;
    std::vector<int32_t> all = c.getAllChunks();
    std::map<int, std::vector<int32_t>> rows;
    for (int32_t id : all) {
        if (!f.ids.insert(id).second) bad("duplicate chunk id", fmt("%d", id));
        int s = c.getStripe(id);
        if (s < 0 || s >= f.ns) { bad("stripe of", fmt("%d is %d", id, s)); continue; }
        rows[s].push_back(id);
        if (!c.valid(id)) bad("valid", fmt("%d", id));
    }
    f.byStripe.resize(f.ns);
    f.bySubStripe.resize(f.ns * f.nss);
    for (int s = 0; s < f.ns; ++s) {
        LD l0 = -LPI / 2 + s * H, l1 = l0 + H;
        int n = cellsOf(c.getChunkBoundingBox(s, 0), l0, l1);
        if ((int)rows[s].size() != n) { bad("chunks in stripe", fmt("stripe %d has %zu chunks but their width gives %d", s, rows[s].size(), n)); return; }
        f.byStripe[s].resize(n);
        std::vector<bool> have(n);
        for (int32_t id : rows[s]) {
            int k = c.getChunk(id, s);
            if (k < 0 || k >= n || have[k]) { bad("chunk number of", fmt("%d in stripe %d is %d", id, s, k)); return; }
            have[k] = true;
            f.byStripe[s][k] = f.chunks.size();
            f.chunkIdx[id] = f.chunks.size();
            f.chunks.push_back(cell(f, id, -1, c.getChunkBoundingBox(s, k), n, k, H, s, nm + fmt(" chunk %d", id)));
            mc::trans();
        }
        // any two points of the stripe one chunk width or more apart in longitude are at least H apart
        LD w = 2 * LPI / n;
        if (n > 1)
            for (LD a : {0.0L, 0.5L, 1.0L})
                for (LD b : {0.0L, 0.5L, 1.0L})
                    for (LD g : {1.0L, 1.3L, 2.0L, 1e9L}) {
                        LD d = std::min(g * w, LPI);
                        if (d < w) continue;
                        LD sep = angle(lonlat(0, l0 + a * H), lonlat(d, l0 + b * H));
                        if (sep < H - 1e-9L) bad("chunk width", fmt("stripe %d: separation %Lg < %Lg", s, sep, H));
                    }
        int nmax = -1;
        for (int q = 0; q < f.nss; ++q) {
            int ss = s * f.nss + q;
            int m = cellsOf(c.getSubChunkBoundingBox(ss, 0), -LPI / 2 + ss * h, -LPI / 2 + (ss + 1) * h);
            if (m % n || m < n) { bad("sub-chunks per chunk", fmt("sub-stripe %d: %d / %d", ss, m, n)); return; }
            f.bySubStripe[ss].resize(m);
            nmax = std::max(nmax, m / n);
            LD ws = 2 * LPI / m, a0 = -LPI / 2 + ss * h;
            if (m > n)
                for (LD a : {0.0L, 1.0L}) {
                    LD sep = angle(lonlat(0, a0 + a * h), lonlat(ws, a0 + a * h));
                    if (sep < h - 1e-9L) bad("sub-chunk width", fmt("sub-stripe %d: separation %Lg < %Lg", ss, sep, h));
                }
        }
        for (int k = 0; k < n; ++k) {
            int32_t id = f.chunks[f.byStripe[s][k]].chunk;
            std::vector<int32_t> subs = c.getAllSubChunks(id);
            size_t pos = 0, tot = 0;
            for (int q = 0; q < f.nss; ++q) tot += f.bySubStripe[s * f.nss + q].size() / n;
            if (subs.size() != tot || std::set<int32_t>(subs.begin(), subs.end()).size() != tot) { bad("sub-chunk ids", fmt("chunk %d has %zu, expected %zu distinct ones", id, subs.size(), tot)); return; }
            if (!std::is_sorted(subs.begin(), subs.end())) bad("sub-chunk order", fmt("chunk %d", id));
            for (int q = 0; q < f.nss; ++q) {
                int ss = s * f.nss + q, m = f.bySubStripe[ss].size(), per = m / n;
                for (int x = 0; x < per; ++x) {
                    int32_t sub = subs[pos++];
                    if (sub < 0) bad("sub-chunk id", fmt("%d", sub));
                    int g = k * per + x;
                    f.bySubStripe[ss][g] = f.subs.size();
                    f.subIdx[{id, sub}] = f.subs.size();
                    f.subs.push_back(cell(f, id, sub, c.getSubChunkBoundingBox(ss, g), m, g, h, ss, nm + fmt(" sub-chunk %d.%d", id, sub)));
                    mc::trans();
                }
            }
        }
    }
    // ids that do not exist are recognised
    int32_t lo = *f.ids.begin(), hi = *f.ids.rbegin();
    std::vector<int32_t> tryIds = {INT32_MIN, INT32_MIN + 1, -1000000, INT32_MAX, INT32_MAX - 1, 1 << 30};
    for (int32_t i = lo - 3 * 2 * f.ns - 5; i <= hi + 3 * 2 * f.ns + 5; ++i) tryIds.push_back(i);
    for (int32_t i : tryIds) {
        mc::trans();
        if (c.valid(i) != (f.ids.count(i) > 0)) bad("valid", fmt("valid(%d) is %d", i, c.valid(i)));
    }
}
// the cell of a row that a longitude falls in, and whether the point is close to an edge of it
static size_t locate(std::vector<std::vector<size_t>> const & rows, LD lo, LD la) {
    size_t r = (size_t)std::min<LD>(rows.size() - 1, std::max<LD>(0, floorl((la + LPI / 2) / (LPI / rows.size()))));
    size_t n = rows[r].size();
    size_t k = (size_t)std::min<LD>(n - 1, floorl(lo / (2 * LPI / n)));
    return rows[r][k];
}

int main(int argc, char ** argv) {
    return mc::run(argc, argv, [] {
        bool T = mc::thorough();
        std::vector<std::pair<int, int>> small, large;
        for (int a = 1; a <= (SAN ? 4 : T ? 24 : 9); ++a)
            for (int b = 1; b <= (SAN ? 2 : T ? 6 : 4); ++b) small.push_back({a, b});
        for (auto p : {std::make_pair(18, 3), std::make_pair(36, 2), std::make_pair(85, 1), std::make_pair(30, 10), std::make_pair(1, 30)}) large.push_back(p);
        if (T) for (auto p : {std::make_pair(85, 12), std::make_pair(200, 5), std::make_pair(340, 1), std::make_pair(2, 90), std::make_pair(179, 2), std::make_pair(64, 7), std::make_pair(5, 60)}) large.push_back(p);
        if (SAN) large = {{10, 3}};
        std::vector<std::pair<int, int>> confs = small;
        confs.insert(confs.end(), large.begin(), large.end());
        size_t n = 0;
        // ---- structure
        for (size_t ci = 0; ci < confs.size(); ++ci) {
            if (!mc::mine(ci)) continue;
            mc::section("structure");
            mc::at(ci);
            mc::state();
            Conf f;
            f.ns = confs[ci].first; f.nss = confs[ci].second;
            build(f, true);
            mc::sample(fmt("chunker(%d,%d): %zu chunks, %zu sub-chunks", f.ns, f.nss, f.chunks.size(), f.subs.size()));
            // every point is in its chunk's box and in no other (away from the edges)
            std::vector<Pt> pts;
            gridPoints(pts, 14, 9);
            for (auto & c : f.subs)
                for (LD x : {0.001L, 0.999L})
                    for (LD y : {0.001L, 0.999L}) addPt(pts, lonlat(c.lon0 + x * c.lonw, c.lat0 + y * (c.lat1 - c.lat0)));
            bool all = f.chunks.size() < 400;
            for (auto & p : pts) {
                LD lo = lonOf(p.v), la = latOf(p.v);
                size_t own = locate(f.byStripe, lo, la);
                mc::trace();
                size_t cnt = 0;
                bool edge = false, mineIn = false;
                for (size_t i = all ? 0 : own; i < (all ? f.chunks.size() : own + 1); ++i) {
                    Cell const & c = f.chunks[i];
                    int s = f.c->getStripe(c.chunk);
                    bool in = f.c->getChunkBoundingBox(s, f.c->getChunk(c.chunk, s)).contains(p.u);
                    LD sd = c.shape->sd(p.v);
                    if (fabsl(sd) < 1e-10L) { edge = true; if (in) mineIn = true; continue; }
                    if (in != (sd > 0)) mc::fail(fmt("chunker(%d,%d) membership of chunk %d", f.ns, f.nss, c.chunk), fmt("clearance %Lg", sd));
                    cnt += in;
                }
                if (all && !edge && cnt != 1) mc::fail(fmt("chunker(%d,%d) partition", f.ns, f.nss), fmt("a point is in %zu chunks: lon %.12Lf lat %.12Lf", cnt, lo, la));
                if (all && edge && !mineIn && !cnt) mc::fail(fmt("chunker(%d,%d) partition edge", f.ns, f.nss), fmt("a point is in no chunk: lon %.12Lf lat %.12Lf", lo, la));
            }
        }
        // ---- queries
        std::vector<P> z = simple(T), cz = compounds(T);
        z.insert(z.end(), cz.begin(), cz.end());
        {  // regions that begin and end in the same chunk or sub-chunk, after going around
            z.push_back(mkBox("box(around 0.2..0.1)", 0.2, 0.1, -10, 10));
            z.push_back(mkBox("box(around 100.2..100.1)", 100.2, 100.1, 20, 75));
            z.push_back(mkBox("box(around 359.9..359.8)", 359.9, 359.8, -50, -40));
            z.push_back(mkBox("box(180.0001..180)", 180.0001, 180, 0, 30));
            z.push_back(mkBox("box(0..360-)", 0, 359.9999999, 30, 60));
        }
        size_t step = SAN ? (T ? 4 : 13) : 1;
        if (!SAN) {
            std::vector<P> l = lattice(0);
            z.insert(z.end(), l.begin(), l.end());
        }
        std::vector<std::pair<int, int>> qc = {{1, 1}, {2, 1}, {3, 2}, {4, 3}, {7, 1}, {10, 3}};
        if (T) for (auto p : {std::make_pair(1, 5), std::make_pair(5, 2), std::make_pair(12, 4), std::make_pair(18, 3), std::make_pair(36, 2)}) qc.push_back(p);
        if (SAN) qc = {{1, 2}, {5, 2}};
        for (auto cf : qc) {
            Conf f;
            f.ns = cf.first; f.nss = cf.second;
            mc::section(fmt("queries (%d,%d)", f.ns, f.nss));
            build(f, false);
            for (size_t i = 0; i < f.subs.size(); ++i) {
                auto & c = f.subs[i];
                for (LD x : {0.01L, 0.5L, 0.99L})
                    for (LD y : {0.01L, 0.5L, 0.99L}) {
                        addPt(f.samples, lonlat(c.lon0 + x * c.lonw, c.lat0 + y * (c.lat1 - c.lat0)));
                        f.where.push_back({f.chunkIdx[c.chunk], i});
                    }
            }
            for (size_t ri = 0; ri < z.size(); ri += step) {
                if (!mc::mine(n++)) continue;
                Sh const & s = *z[ri];
                mc::at(ri, f.ns, f.nss);
                mc::state();
                std::string key = fmt("chunker(%d,%d) ", f.ns, f.nss) + s.name;
                std::vector<int32_t> got = f.c->getChunksIntersecting(*s.r);
                std::vector<SubChunks> gs = f.c->getSubChunksIntersecting(*s.r);
                mc::trans(2);
                std::set<int32_t> G(got.begin(), got.end());
                if (G.size() != got.size()) mc::fail(key + " duplicates", "a chunk is reported twice");
                std::set<std::pair<int32_t, int32_t>> S;
                std::set<int32_t> sc;
                for (auto & x : gs) {
                    if (!sc.insert(x.chunkId).second) mc::fail(key + " sub duplicates", fmt("chunk %d appears twice", x.chunkId));
                    if (x.subChunkIds.empty()) mc::fail(key + " sub empty", fmt("chunk %d has no sub-chunks", x.chunkId));
                    for (int32_t q : x.subChunkIds) {
                        if (!S.insert({x.chunkId, q}).second) mc::fail(key + " sub duplicates", fmt("%d.%d", x.chunkId, q));
                        if (!f.subIdx.count({x.chunkId, q})) mc::fail(key + " sub existing", fmt("%d.%d does not exist", x.chunkId, q));
                    }
                }
                for (int32_t id : G)
                    if (!f.ids.count(id)) mc::fail(key + " existing", fmt("chunk %d does not exist", id));
                LD eps = std::max(s.tol, 1e-13L) + 1e-13L;
                auto need = [&](Pt const & p, size_t ch, size_t su) {
                    mc::trace();
                    if (!G.count(f.chunks[ch].chunk))
                        mc::fail(key + fmt(" misses %d", f.chunks[ch].chunk), fmt("the point (%.17g,%.17g,%.17g) of the region, clearance %Lg, is in the chunk", p.u.x(), p.u.y(), p.u.z(), s.sd(p.v)));
                    if (!S.count({f.subs[su].chunk, f.subs[su].sub}))
                        mc::fail(key + fmt(" misses %d.%d", f.subs[su].chunk, f.subs[su].sub), fmt("the point (%.17g,%.17g,%.17g) of the region, clearance %Lg, is in the sub-chunk", p.u.x(), p.u.y(), p.u.z(), s.sd(p.v)));
                };
                for (size_t i = 0; i < f.samples.size(); ++i)
                    if (s.sd(f.samples[i].v) > eps) need(f.samples[i], f.where[i].first, f.where[i].second);
                std::vector<Pt> bp;
                boundaryPoints(s, bp, 0, false);
                for (auto & p : bp)
                    if (s.sd(p.v) > eps) {
                        LD lo = lonOf(p.v), la = latOf(p.v);
                        need(p, locate(f.byStripe, lo, la), locate(f.bySubStripe, lo, la));
                    }
                // the chunks of the reported sub-chunks are those of the sub-chunks' cells
                if ((s.k == 'c' || s.k == 'b') && !s.empty && !s.full) {
                    for (auto & c : f.chunks)
                        if (G.count(c.chunk) && (required(s, *c.shape) & 1)) mc::fail(key + fmt(" extra %d", c.chunk), "a chunk clearly away from the region is reported");
                    for (auto & c : f.subs)
                        if (S.count({c.chunk, c.sub}) && (required(s, *c.shape) & 1)) mc::fail(key + fmt(" extra %d.%d", c.chunk, c.sub), "a sub-chunk clearly away from the region is reported");
                }
                if (s.empty && s.k != 'u' && s.k != 'i' && (!G.empty() || !S.empty())) mc::fail(key + " empty", fmt("%zu chunks", G.size()));
                if (s.full && (G.size() != f.chunks.size() || S.size() != f.subs.size())) mc::fail(key + " full", fmt("%zu chunks, %zu sub-chunks", G.size(), S.size()));
                mc::outcome(G.empty() ? "no chunks" : G.size() == f.chunks.size() ? "all chunks" : "some chunks");
                if (mc::wantSample()) mc::sample(fmt("%s: %zu chunks, %zu sub-chunks", key.c_str(), G.size(), S.size()));
            }
        }
        // ---- configurations and cells that do not exist
        if (mc::mine(0)) {
            mc::section("rejections");
            if (!SAN) {
                struct rlimit rl = {2000000000, 2000000000};
                setrlimit(RLIMIT_AS, &rl);
            }
            std::vector<std::pair<int32_t, int32_t>> bad;
            for (int32_t a : {INT32_MIN, -65536, -1, 0}) for (int32_t b : {INT32_MIN, -1, 0, 1, 65536, INT32_MAX}) bad.push_back({a, b}), bad.push_back({b, a});
            for (auto p : {std::make_pair(648001, 1), std::make_pair(1, 648001), std::make_pair(1000, 649), std::make_pair(65536, 65536), std::make_pair(65536, 98304),
                           std::make_pair(46341, 46341), std::make_pair(INT32_MAX, INT32_MAX), std::make_pair(INT32_MAX, 2), std::make_pair(2, INT32_MAX), std::make_pair(4, 1 << 30), std::make_pair(1 << 30, 4),
                           std::make_pair(3, 1431655766), std::make_pair(715827883, 6)})
                bad.push_back(p);
            for (size_t i = 0; i < bad.size(); ++i) {
                mc::at(i);
                mc::state();
                mc::trans();
                try {
                    Chunker c(bad[i].first, bad[i].second);
                    mc::fail(fmt("chunker(%d,%d)", bad[i].first, bad[i].second), "accepted");
                } catch (std::bad_alloc &) {
                    mc::fail(fmt("chunker(%d,%d)", bad[i].first, bad[i].second), "ran out of memory instead of being rejected");
                } catch (std::exception & e) {
                    mc::outcome(std::string("rejected: ") + e.what());
                }
            }
            // configurations close to the limits are either rejected or have distinct non-negative ids
            std::vector<std::pair<int32_t, int32_t>> big = {{32767, 1}, {32768, 1}, {32767, 19}, {46340, 1}, {46341, 2}, {65535, 9}, {65536, 9}, {648000, 1}, {324000, 2}, {1, 30000}, {1, 33000}, {1, 65536}, {1, 648000}, {10, 64800}, {180, 3600}, {100, 3000}};
            std::vector<P> probes = {mkCircle("north pole", UnitVector3d::Z(), 1e-7), mkCircle("equator", U(lonlat(6.2831L, 1e-5L)), 1e-7), mkCircle("south", U(lonlat(3, -1.2L)), 1e-7), mkCircle("near north", U(lonlat(4, 1.5707L)), 1e-7), mkCircle("mid", U(lonlat(5.5L, 0.9L)), 1e-7)};
            for (size_t i = 0; i < big.size() && !SAN; ++i) {
                mc::at(1000 + i);
                mc::state();
                std::string nm = fmt("chunker(%d,%d)", big[i].first, big[i].second);
                try {
                    Chunker c(big[i].first, big[i].second);
                    std::set<std::pair<int32_t, int32_t>> seen;
                    for (auto & p : probes) {
                        auto g = c.getChunksIntersecting(*p->r);
                        auto s = c.getSubChunksIntersecting(*p->r);
                        mc::trans(2);
                        if (g.empty() || s.empty()) mc::fail(nm + " " + p->name, "nothing found");
                        V3 v = unit(p->c);
                        LD lo = lonOf(v), la = latOf(v);
                        bool okc = false;
                        for (int32_t id : g) {
                            if (id < 0 || !c.valid(id)) { mc::fail(nm + " " + p->name, fmt("chunk id %d", id)); continue; }
                            int st = c.getStripe(id);
                            okc = okc || c.getChunkBoundingBox(st, c.getChunk(id, st)).contains(p->c.x == 0 && p->c.y == 0 ? UnitVector3d::Z() : U(p->c));
                        }
                        if (!okc) mc::fail(nm + " " + p->name, "no reported chunk contains the position");
                        for (auto & x : s)
                            for (int32_t q : x.subChunkIds)
                                if (q < 0) mc::fail(nm + " " + p->name + " sub", fmt("sub-chunk id %d", q));
                        (void)lo; (void)la;
                    }
                    mc::outcome("accepted " + nm);
                } catch (std::bad_alloc &) {
                    mc::fail(nm, "ran out of memory");
                } catch (std::exception & e) {
                    mc::outcome("rejected " + nm);
                }
            }
            // cells that do not exist
            for (auto cf : {std::make_pair(1, 1), std::make_pair(5, 2), std::make_pair(10, 3)}) {
                Chunker c(cf.first, cf.second);
                std::map<int, int> cnt;
                for (int32_t id : c.getAllChunks()) cnt[c.getStripe(id)]++;
                for (int32_t s : {INT32_MIN, -1000000, -1, 0, cf.first - 1, cf.first, 1000000, INT32_MAX})
                    for (int32_t k : {INT32_MIN, -1, 0, 1 << 20, INT32_MAX}) {
                        mc::at(2000 + cf.first, (uint64_t)(s + 5ll), (uint64_t)(k + 5ll));
                        mc::trans();
                        bool ok = s >= 0 && s < cf.first && k >= 0 && k < cnt[s];
                        try {
                            c.getChunkBoundingBox(s, k);
                            if (!ok) mc::fail(fmt("chunker(%d,%d) chunk box (%d,%d)", cf.first, cf.second, s, k), "a chunk that does not exist has a bounding box");
                        } catch (std::exception &) {
                            if (ok) mc::fail(fmt("chunker(%d,%d) chunk box (%d,%d)", cf.first, cf.second, s, k), "rejected");
                        }
                        bool oks = s >= 0 && s < cf.first * cf.second && k == 0;
                        if (s >= 0 && s < cf.first * cf.second && k == 1) continue;
                        try {
                            c.getSubChunkBoundingBox(s, k);
                            if (!oks) mc::fail(fmt("chunker(%d,%d) sub-chunk box (%d,%d)", cf.first, cf.second, s, k), "a sub-chunk that does not exist has a bounding box");
                        } catch (std::exception &) {
                            if (oks) mc::fail(fmt("chunker(%d,%d) sub-chunk box (%d,%d)", cf.first, cf.second, s, k), "rejected");
                        }
                    }
                for (int32_t id : {INT32_MIN, -1000, -1, 2 * cf.first * cf.first, 1 << 30, INT32_MAX}) {
                    mc::at(3000 + cf.first, (uint64_t)(id + 5ll));
                    mc::trans();
                    try {
                        c.getAllSubChunks(id);
                        if (!c.valid(id)) mc::fail(fmt("chunker(%d,%d) sub-chunks of %d", cf.first, cf.second, id), "a chunk that does not exist has sub-chunks");
                    } catch (std::exception &) {
                        if (c.valid(id)) mc::fail(fmt("chunker(%d,%d) sub-chunks of %d", cf.first, cf.second, id), "rejected");
                    }
                }
            }
        }
    });
}
