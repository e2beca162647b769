"""C23: the HEALPix pixelization against an independent numpy model of HEALPix and of the regions."""
import copy
import math
import os
import pickle
import itertools
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pymc  # noqa: E402

PI = math.pi


def main(mc):
    sys.path.insert(0, mc.args["--pkg"])
    import numpy as np
    import yaml
    import lsst.sphgeom as S
    assert S.__file__.startswith(mc.args["--pkg"]), S.__file__

    # ---------------------------------------------------------------- the model of the pixelization (nested order)
    def spread(v):
        v = v.astype(np.uint64)
        for s, m in ((16, 0x0000FFFF0000FFFF), (8, 0x00FF00FF00FF00FF), (4, 0x0F0F0F0F0F0F0F0F), (2, 0x3333333333333333), (1, 0x5555555555555555)):
            v = (v | (v << np.uint64(s))) & np.uint64(m)
        return v.astype(np.int64)

    def squash(v):
        v = v.astype(np.uint64) & np.uint64(0x5555555555555555)
        for s, m in ((1, 0x3333333333333333), (2, 0x0F0F0F0F0F0F0F0F), (4, 0x00FF00FF00FF00FF), (8, 0x0000FFFF0000FFFF), (16, 0xFFFFFFFF)):
            v = (v | (v >> np.uint64(s))) & np.uint64(m)
        return v.astype(np.int64)

    def vec2pix(level, v):
        """Index of every row of v, and whether the position is too close to an edge to be certain."""
        ns = 2**level
        x, y, z = v[:, 0], v[:, 1], v[:, 2]
        r2 = x * x + y * y
        n = np.sqrt(r2 + z * z)
        za = np.abs(z) / n
        tt = np.arctan2(y, x) / (PI / 2)
        tt = np.where(tt < 0, tt + 4, tt)
        tt = np.where(tt >= 4, 0.0, tt)
        a, b = ns * (0.5 + tt), ns * (z / n) * 0.75
        jp, jm = np.floor(a - b).astype(np.int64), np.floor(a + b).astype(np.int64)
        near = lambda w: np.abs(w - np.round(w)) < 1e-7
        amb = near(a - b) | near(a + b)
        fp, fm = jp // ns, jm // ns
        face = np.where(fp == fm, (fp & 3) + 4, np.where(fp < fm, fp, fm + 8))
        ix, iy = jm & (ns - 1), ns - (jp & (ns - 1)) - 1
        q = np.minimum(3, tt.astype(np.int64))
        tp = tt - q
        t = ns * np.sqrt(3 * (r2 / (n * n)) / (1 + za))
        cp, cm = np.minimum(ns - 1, (tp * t).astype(np.int64)), np.minimum(ns - 1, ((1 - tp) * t).astype(np.int64))
        camb = near(tp * t) | near((1 - tp) * t) | (tp < 1e-9) | (tp > 1 - 1e-9)
        cap = za > 2.0 / 3
        north = z > 0
        face = np.where(cap, np.where(north, q, q + 8), face)
        ix = np.where(cap, np.where(north, ns - cm - 1, cp), ix)
        iy = np.where(cap, np.where(north, ns - cp - 1, cm), iy)
        amb = np.where(cap, camb, amb) | (np.abs(za - 2.0 / 3) < 1e-12)
        return face * ns * ns + spread(ix) + 2 * spread(iy), amb

    JR = np.array([2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4])
    JP = np.array([1, 3, 5, 7, 0, 2, 4, 6, 1, 3, 5, 7])

    def face2vec(face, fx, fy):
        """The position at (fx, fy) in [0, 1]^2 of a base pixel."""
        jr = JR[face] - fx - fy
        pol = (jr < 1) | (jr > 3)
        nr = np.where(jr < 1, jr, np.where(jr > 3, 4 - jr, 1.0))
        zz = np.where(pol, 0.0, (2 - jr) * 2.0 / 3)
        om = nr * nr / 3            # 1 - |z| in the caps
        z = np.where(jr < 1, 1 - om, np.where(jr > 3, om - 1, zz))
        s = np.where(pol, np.sqrt(np.maximum(0.0, om * (2 - om))), np.sqrt(np.maximum(0.0, 1 - zz * zz)))
        t = JP[face] * nr + fx - fy
        phi = (PI / 4) * np.where(nr < 1e-15, 0.0, t / np.where(nr < 1e-15, 1.0, nr))
        return np.stack([s * np.cos(phi), s * np.sin(phi), z], axis=-1)

    def pix2vec(level, p, dx=0.5, dy=0.5):
        ns = 2**level
        p = np.asarray(p, dtype=np.int64)
        face, q = p // (ns * ns), p % (ns * ns)
        return face2vec(face, (squash(q) + dx) / ns, (squash(q >> 1) + dy) / ns)

    # The model against itself: both directions must be inverse.
    for lev in range(0, 6):
        allp = np.arange(12 * 4**lev)
        for dx, dy in ((.5, .5), (.1, .2), (.9, .3), (.02, .97)):
            assert (vec2pix(lev, pix2vec(lev, allp, dx, dy))[0] == allp).all()

    def U(v):
        return S.UnitVector3d(*(float(c) for c in v))

    def mask(rs, n):
        m = np.zeros(n, dtype=bool)
        for a, b in rs.ranges():
            if a < 0 or b > n or a >= b:
                return None
            m[a:b] = True
        return m

    HP = S.HealpixPixelization

    # ---------------------------------------------------------------- pixels: index, pixel, universe
    mc.section("pixels partition the sphere")
    NU = [1e-6, 1e-3, 0.02, 0.25, 0.5, 0.75, 0.98, 1 - 1e-3, 1 - 1e-6]
    for lev in range(0, 6 if mc.thorough else 4):
        h = HP(lev)
        npix = 12 * 4**lev
        if h.universe().ranges() != [(0, npix)]:
            mc.fail("universe of level %d" % lev, h.universe())
        if (h.level, h.getLevel(), h.nside) != (lev, lev, 2**lev):
            mc.fail("level %d" % lev, (h.level, h.getLevel(), h.nside))
        for p in range(npix):
            if not mc.mine(p):
                continue
            mc.at(lev, p)
            poly = h.pixel(p)
            ctr = pix2vec(lev, [p])[0]
            if h.toString(p) != str(p):
                mc.fail("toString(%d)" % p, h.toString(p))
            # Everything in the pixel has its index; away from the edges it is also in its polygon.
            for dx in NU:
                for dy in NU:
                    mc.state()
                    mc.trace()
                    mc.trans(3)
                    v = pix2vec(lev, [p], dx, dy)[0]
                    i = h.index(U(v))
                    if i != p:
                        mc.fail("level %d pixel %d at %g %g" % (lev, p, dx, dy), "index is %s" % i)
                    if lev and HP(lev - 1).index(U(v)) != p >> 2:
                        mc.fail("level %d pixel %d at %g %g: parent" % (lev, p, dx, dy), HP(lev - 1).index(U(v)))
                    d = min(dx, dy, 1 - dx, 1 - dy)
                    if d >= 0.02 and not poly.contains(U(v)):
                        mc.fail("level %d pixel %d at %g %g: polygon" % (lev, p, dx, dy), "does not contain the position")
            # The polygon does not reach into the neighbours by more than a few percent (their corners are close to it).
            for dx, dy in ((-.12, .5), (1.12, .5), (.5, -.12), (.5, 1.12)):
                ns = 2**lev
                q = p % (ns * ns)
                x, y = (int(squash(np.array([q]))[0]) + dx) / ns, (int(squash(np.array([q >> 1]))[0]) + dy) / ns
                if 0 <= x <= 1 and 0 <= y <= 1:
                    mc.state()
                    mc.trace()
                    mc.trans()
                    v = face2vec(np.array([p // (ns * ns)]), np.array([x]), np.array([y]))[0]
                    if poly.contains(U(v)):
                        mc.fail("level %d pixel %d at %g %g: polygon" % (lev, p, dx, dy), "contains a position of a neighbour")
            if not poly.contains(U(ctr)) or vec2pix(lev, np.array([[c.x(), c.y(), c.z()] for c in [poly.getCentroid()]]))[0][0] != p:
                mc.fail("level %d pixel %d: centre" % (lev, p))
    # Special positions (edges and corners): some adjacent pixel of the universe.
    mc.section("positions on edges and at high levels")
    spec = []
    for zz in (0.0, 2.0 / 3, -2.0 / 3, 1.0, -1.0, 0.3, -0.9, math.nextafter(2.0 / 3, 1), 1e-300, -1e-300, 1 / 3):
        for k in range(16):
            for e in (0.0, 1e-16, -1e-16, 1e-9):
                f = k * PI / 8 + e
                s = math.sqrt(max(0.0, 1 - zz * zz))
                spec.append([s * math.cos(f), s * math.sin(f), zz])
    spec += [[0, 0, 1], [0, 0, -1], [1e-300, 0, 1], [-1e-17, 1e-17, 1], [1, -1e-300, 0], [1, -0.0, 0.0], [1e-9, 1e-9, -1]]
    spec = np.array(spec)
    for lev in range(0, 18):
        h = HP(lev)
        want, amb = vec2pix(lev, spec)
        for n in range(len(spec)):
            if not mc.mine(n):
                continue
            mc.at(lev, n)
            mc.state()
            mc.trace()
            mc.trans()
            v = U(spec[n])
            i = h.index(v)
            key = "level %d position %d" % (lev, n)
            if not 0 <= i < 12 * 4**lev or (not amb[n] and i != want[n]):
                mc.fail(key, "index %s, expected %s, of %r" % (i, want[n], v))
                continue
            if lev <= 10:
                # Pulled slightly towards the centre of that pixel, the position is inside of its polygon.
                c = pix2vec(lev, [i])[0]
                if not h.pixel(int(i)).contains(U(spec[n] / np.linalg.norm(spec[n]) * 0.93 + 0.07 * c)):
                    mc.fail(key + ": pixel", "pixel %s is not next to %r" % (i, v))
            if lev and HP(lev - 1).index(v) != i >> 2 and not amb[n]:
                mc.fail(key + ": parent", HP(lev - 1).index(v))

    # ---------------------------------------------------------------- regions
    def ortho(u):
        a = np.cross(u, [0.0, 0.0, 1.0]) if abs(u[2]) < 0.9 else np.cross(u, [1.0, 0.0, 0.0])
        a = a / np.linalg.norm(a)
        return a, np.cross(u, a)

    def around(u, r, t):
        a, b = ortho(u)
        r, t = np.asarray(r), np.asarray(t)
        v = np.cos(r)[..., None] * u + np.sin(r)[..., None] * (np.cos(t)[..., None] * a + np.sin(t)[..., None] * b)
        return v / np.linalg.norm(v, axis=-1)[..., None]

    def sep(v, u):
        return np.arctan2(np.linalg.norm(np.cross(v, u), axis=-1), v @ u)

    class Shape:
        # name, region, clear(v): > 0 inside, < 0 outside (radians or so), pts: positions of the region, bound: sampled closely
        def __init__(self, name, region, clear, pts, big=False, out=None):
            self.name, self.region, self.clear, self.pts, self.big = name, region, clear, pts, big
            # positions outside of regions with small or thin holes, too close together for the grids below
            self.out = np.zeros((0, 3)) if out is None else out[clear(out) < -1e-12]

    def circle(u, r, name):
        u = np.array(u, dtype=float)
        u = u / np.linalg.norm(u)
        N = 720
        pts = np.concatenate([u[None, :]] + [around(u, np.full(N, q * r), np.arange(N) * 2 * PI / N) for q in (0.5, 1 - 1e-6)])
        if r < 1e-7:
            pts = pts[:1]
        return Shape("circle %s %g" % (name, r), S.Circle(U(u), S.Angle(r)), lambda v: r - sep(v, u), pts, r > PI / 2, np.concatenate([-u[None, :], around(-u, np.full(90, (PI - r) * (1 - 1e-6)), np.arange(90) * PI / 45)]))

    def ellipse(u, a, b, g, name):
        u = np.array(u, dtype=float)
        u = u / np.linalg.norm(u)
        e = S.Ellipse(U(u), S.Angle(a), S.Angle(b), S.Angle(g))
        f1, f2 = (np.array([f.x(), f.y(), f.z()]) for f in (e.getF1(), e.getF2()))
        # An ellipse with axes above pi/2 is the complement of one around the antipode, whose major axis is the longer one.
        al = max(a, b) if a < PI / 2 else min(a, b)
        clear = lambda v: al - 0.5 * (sep(v, f1) + sep(v, f2))
        cand = around(u, np.repeat(np.linspace(0, PI, 400), 90), np.tile(np.arange(90) * 2 * PI / 90, 400)) if min(a, b) > 1e-3 \
            else around(u, np.repeat(np.linspace(0, 1.01 * max(a, b), 400), 90), np.tile(np.arange(90) * 2 * PI / 90, 400))
        pts = np.concatenate([u[None, :], cand[clear(cand) > 1e-9]])
        out = None
        if max(a, b) > PI / 2:
            # The axes of the hole.
            d = f1 + u * (f1 @ -u)
            d = d / np.linalg.norm(d) if np.linalg.norm(d) > 1e-12 else ortho(u)[0]
            o = np.cross(d, u)
            t = np.linspace(-1, 1, 401)[:, None] * (1 - 1e-3)
            h1, h2 = (PI - max(a, b), PI - min(a, b))
            out = np.concatenate([-u * np.cos(w * t) + e0 * np.sin(w * t) for e0 in (d, o) for w in (h1, h2)])
            out = out[clear(out) < -1e-12]
        return Shape("ellipse %s %g %g %g" % (name, a, b, g), e, clear, pts, max(a, b) > PI / 2, out)

    def poly(vs, name):
        vs = [np.array(v, dtype=float) / np.linalg.norm(v) for v in vs]
        p = S.ConvexPolygon([U(v) for v in vs])
        w = [np.array([v.x(), v.y(), v.z()]) for v in p.getVertices()]
        nrm = []
        for i in range(len(w)):
            n = np.cross(w[i - 1] + w[i], w[i] - w[i - 1])
            nrm.append(n / np.linalg.norm(n))
        clear = lambda v: np.min(np.stack([v @ n for n in nrm]), axis=0)
        t = np.linspace(0, 1, 600)[:, None]
        pts = [w[i - 1] * (1 - t) + w[i] * t for i in range(len(w))] + [sum(w)[None, :]]
        pts = np.concatenate(pts)
        pts /= np.linalg.norm(pts, axis=1)[:, None]
        return Shape("polygon " + name, p, clear, pts)

    def box(lo, la):
        full = lo == (0, 360)
        b = S.Box(S.NormalizedAngleInterval.full() if full else S.NormalizedAngleInterval.fromDegrees(*lo), S.AngleInterval.fromDegrees(*la))
        l0, w = math.radians(lo[0]), math.radians(360 if full else (lo[1] - lo[0]) % 360)
        b0, b1 = math.radians(la[0]), math.radians(la[1])

        def clear(v):
            lat = np.arcsin(np.clip(v[:, 2], -1, 1))
            lon = np.arctan2(v[:, 1], v[:, 0])
            c = np.full(len(v), 9.0)
            c = np.minimum(c, lat - b0 if la[0] > -90 else 9.0)
            c = np.minimum(c, b1 - lat if la[1] < 90 else 9.0)
            if not full:
                # longitude as a displacement from the middle
                d = np.abs((lon - l0 - w / 2 + PI) % (2 * PI) - PI)
                # True distance from the meridians, with the sign of the side.
                dist = np.arcsin(np.clip(np.sin(np.clip(w / 2 - d, -PI / 2, PI / 2)) * np.cos(lat), -1, 1))
                c = np.minimum(c, dist)
            return c
        s, t = np.linspace(0, 1, 700), np.linspace(0, 1, 7)
        lon = np.concatenate([np.repeat(l0 + w * t, 700), np.tile(l0 + w * s, 7)])
        lat = np.concatenate([np.tile(b0 + (b1 - b0) * s, 7), np.repeat(b0 + (b1 - b0) * t, 700)])
        pts = np.stack([np.cos(lon) * np.cos(lat), np.sin(lon) * np.cos(lat), np.sin(lat)], axis=1)
        if la[0] == -90:
            pts = np.concatenate([pts, [[0, 0, -1.0]]])
        if la[1] == 90:
            pts = np.concatenate([pts, [[0, 0, 1.0]]])
        out = None
        if PI < w and not full:
            lon = np.repeat(l0 + w + (2 * PI - w) * np.array([1e-3, .5, 1 - 1e-3]), 300)
            lat = np.tile(np.linspace(b0, b1, 300), 3)
            out = np.stack([np.cos(lon) * np.cos(lat), np.sin(lon) * np.cos(lat), np.sin(lat)], axis=1)
        return Shape("box %s %s" % (lo, la), b, clear, pts, w > PI, out)

    s23 = 2.0 / 3
    DIRS = {"+z": (0, 0, 1), "-z": (0, 0, -1), "+x": (1, 0, 0), "-y": (0, -1, 0), "111": (1, 1, 1), "xy": (1, 1, 0), "c7": (math.sqrt(1 - s23 * s23), 0, s23),
            "c7s": (0, math.sqrt(1 - s23 * s23), -s23), "g1": (-1, .3, .2), "g2": (.2, -.9, -.5), "g3": (.3, .1, 2)}
    if mc.thorough:
        DIRS.update({"-x": (-1, 0, 0), "+y": (0, 1, 0), "g4": (.7, -.6, .1), "g5": (-.2, -.1, -.9), "g6": (.5, .9, 1.1), "n111": (-1, -1, -1), "seam": (1, -1e-9, .4), "cap45": (1, 1, math.sqrt(2) * s23 / math.sqrt(1 - s23 * s23))})
    RADII = [0.0, 1e-8, 1e-4, 0.01, 0.05, 0.2, 0.5, 1.0, 1.5, 1.6, 2.0, 2.8, 3.1, 3.141] + ([0.1, 0.3, 0.7, 1.2, 1.5707, 1.5709, 2.4, 3.0] if mc.thorough else [])
    ELL = [(0.5, 0.01), (1e-5, 1e-3), (1.2, 0.6), (2.0, 1.8), (3.1, 3.05), (2.9, 2.0), (PI - 1e-5, 2.9), (PI - 1e-3, PI - 0.03)] + ([(3.1, 1.6), (0.3, 0.3), (0.02, 1.5), (1.6, 1.58)] if mc.thorough else [])
    shapes = []
    for n, d in DIRS.items():
        for r in RADII:
            shapes.append(lambda d=d, r=r, n=n: circle(d, r, n))
        for a, b in ELL:
            for g in (0, 0.7) if not mc.thorough else (0, 0.7, 1.57, 2.5):
                shapes.append(lambda d=d, a=a, b=b, g=g, n=n: ellipse(d, a, b, g, n))
        for r in (1e-7, 1e-3, 0.1, 0.6, 1.2):
            def fan(d, r, ts, n):
                u = np.array(d, dtype=float)
                u /= np.linalg.norm(u)
                return poly(list(around(u, np.full(len(ts), r), np.array(ts))), "%s %g %s" % (n, r, ts))
            for ts in ((0.1, 2.2, 4.5), (0.1, 0.3, 3.2), (0.1, 0.11, 3.25), (0, 1, 2, 3.5, 5)):
                shapes.append(lambda d=d, r=r, ts=ts, n=n: fan(d, r, ts, n))
    for lo in ((0, 360), (10, 350), (350, 10), (0, 1e-6), (20, 20), (100, 101), (190, 10), (44, 46), (0, 90), (10, 9.9), (5, 359.7), (200, 199.99)):
        for la in ((-90, 90), (-90, -60), (85, 90), (89.99, 90), (-1, 1), (30, 31), (10, 10), (40, 41.9), (41.5, 43), (90, 90), (-89.5, 89.8)):
            shapes.append(lambda lo=lo, la=la: box(lo, la))
    # Pixels themselves, slightly enlarged and shrunk: the hardest cases for interior and envelope.
    for lev in (0, 1, 2):
        for p in range(0, 12 * 4**lev, 1 if lev < 2 else 5):
            for k in (-0.02, 1e-9, 0.002, 0.05, 0.3):
                def mkp(lev=lev, p=p, k=k):
                    c = pix2vec(lev, [p])[0]
                    vs = [pix2vec(lev, [p], *q)[0] for q in ((1e-12, 1e-12), (1 - 1e-12, 1e-12), (1 - 1e-12, 1 - 1e-12), (1e-12, 1 - 1e-12))]
                    return poly([v + k * (v - c) for v in vs], "pixel %d/%d scaled %g" % (lev, p, 1 + k))
                shapes.append(mkp)

    mc.section("envelope and interior")
    levels = (0, 1, 2, 3, 4, 5) if mc.thorough else (0, 1, 3)
    D = 5
    sub = {lev: pix2vec(lev + D, np.arange(12 * 4**(lev + D))) for lev in levels}
    hs = {lev: HP(lev) for lev in range(0, 18)}
    rejected = 0
    for n, mk in enumerate(shapes):
        if not mc.mine(n):
            continue
        sh = mk()
        mc.sample(sh.name)
        for lev in levels:
            mc.at(n, lev)
            mc.state()
            mc.trace()
            h = hs[lev]
            npix = 12 * 4**lev
            key = "level %d %s" % (lev, sh.name)
            c = sh.clear(sub[lev]).reshape((npix, 4**D))
            own, amb = vec2pix(lev, sh.pts)
            try:
                env, inn = h.envelope(sh.region), h.interior(sh.region)
            except RuntimeError as e:
                # hpgeom does not support polygons with angles that are (almost) zero.
                if sh.name.startswith("polygon") and "degenerate" in str(e):
                    mc.outcome("rejected as degenerate")
                    continue
                raise
            if not isinstance(env, S.RangeSet) or not isinstance(inn, S.RangeSet) or not env.isValid() or not inn.isValid():
                mc.fail(key, "not range sets")
                continue
            E, I = mask(env, npix), mask(inn, npix)
            if E is None or I is None:
                mc.fail(key, "indexes outside of the universe: %s %s" % (env, inn))
                continue
            mc.trans(4 + len(sh.pts) + c.size)
            cmax, cmin = c.max(axis=1), c.min(axis=1)
            need = cmax > 1e-9
            need[own[~amb]] = True
            if (need & ~E).any():
                mc.fail(key + ": envelope", "misses pixels %s" % np.flatnonzero(need & ~E)[:10])
            for q in sh.pts[:: max(1, len(sh.pts) // 25)]:
                mc.trans()
                if sh.region.contains(U(q)) and not E[h.index(U(q))]:
                    mc.fail(key + ": envelope", "misses the index of %s" % q)
                    break
            if (I & (cmin < -1e-9)).any():
                bad = np.flatnonzero(I & (cmin < -1e-9))
                out = (c[bad] < -1e-9).mean(axis=1)
                mc.fail(key + ": interior", "contains %s, fraction outside %s" % (bad[:10], out[:10]))
            if len(sh.out):
                mc.trans(len(sh.out))
                oo, oamb = vec2pix(lev, sh.out)
                bad = np.unique(oo[~oamb & I[oo]])
                if len(bad):
                    mc.fail(key + ": interior", "contains %s, with a part of the hole" % bad[:10])
            # Positions on the outline of the pixels as well, not only inside of them.
            for p in np.flatnonzero(I)[: 40 if not mc.thorough else 4000]:
                t = np.linspace(0.005, 0.995, 12)
                z, o = np.full(12, 1e-6), np.full(12, 1 - 1e-6)
                v = pix2vec(lev, np.full(48, p), np.concatenate([t, t, z, o]), np.concatenate([z, o, t, t]))
                mc.trans(48)
                # Edges are sampled by the library: up to a small fraction of the pixel may stick out.
                if (sh.clear(v) < -0.004 / 2**lev).any():
                    mc.fail(key + ": interior", "the outline of %d leaves the region by %g" % (p, -sh.clear(v).min()))
                    break
            if (I & ~E).any():
                mc.fail(key, "interior is not within the envelope: %s" % np.flatnonzero(I & ~E)[:10])
            # Not too large: the envelope is within a few high resolution pixels (1/16 of a pixel each) of the region ...
            size = 1.1 / 2**lev
            if not (sh.name.startswith("ellipse")):
                far = (cmax < -0.6 * size)
                if sh.name.startswith("box") or sh.name.startswith("polygon"):
                    far = cmax < -0.9 * size    # the clearance is not the true distance at corners
                    if not sh.pts.shape[0]:
                        far = cmax < 9
                if (E & far).any():
                    mc.fail(key + ": envelope", "contains %s, which are far away" % np.flatnonzero(E & far)[:10])
            if sh.name.startswith("circle"):
                if (E & (cmax < -0.35 * size)).any():
                    mc.fail(key + ": envelope", "contains %s, which are away" % np.flatnonzero(E & (cmax < -0.35 * size))[:10])
            # ... and the interior misses no pixel whose surroundings are inside as well.
            safe = cmin > (1.2 * size if sh.big else 0.06 * size)
            if sh.name.startswith("ellipse") and sh.big:
                safe &= False
            if (safe & ~I).any():
                mc.fail(key + ": interior", "misses %s" % np.flatnonzero(safe & ~I)[:10])
            # Asking again gives the same answer, and a range cap is respected or rejected.
            if h.envelope(sh.region) != env or h.interior(sh.region) != inn:
                mc.fail(key, "another answer the second time")
            for cap in (1, 3):
                for what in ("envelope", "interior"):
                    try:
                        r = getattr(h, what)(sh.region, cap) if cap == 1 else getattr(h, what)(sh.region, maxRanges=cap)
                    except NotImplementedError:
                        mc.outcome("range cap rejected")
                        continue
                    if len(r.ranges()) > cap or not (r.contains(env) if what == "envelope" else r.isWithin(inn)):
                        mc.fail(key + ": %s with cap %d" % (what, cap), r)

    # ---------------------------------------------------------------- small regions at high levels
    mc.section("small regions at high levels")
    cases = []
    for nme, d in DIRS.items():
        for lev in (6, 9, 12, 15, 17):
            for f in (0.003, 0.05, 0.3, 1.0, 3.0):
                for kind in ("circle", "box", "triangle", "sliver", "ellipse"):
                    cases.append((nme, d, lev, f, kind))
    for n, (nme, d, lev, f, kind) in enumerate(cases):
        if not mc.mine(n):
            continue
        mc.at(n)
        mc.state()
        mc.trace()
        h = hs[lev]
        u = np.array(d, dtype=float)
        u /= np.linalg.norm(u)
        r = f * 1.02 / 2**lev
        if kind == "circle":
            sh = circle(u, r, nme)
        elif kind == "ellipse":
            sh = ellipse(u, r, r / 5, 0.4, nme)
        elif kind == "triangle":
            sh = poly(list(around(u, np.full(3, r), np.array([.1, 2.2, 4.5]))), "%s %g" % (nme, r))
        elif kind == "sliver":
            sh = poly(list(around(u, np.full(3, r), np.array([.1, .13, 3.25]))), "sliver %s %g" % (nme, r))
        else:
            lat = math.degrees(math.asin(max(-1, min(1, u[2]))))
            lon = math.degrees(math.atan2(u[1], u[0])) % 360
            k = math.degrees(r)
            sh = box((lon, (lon + k) % 360), (max(-90, lat - k), min(90, lat + k / 7)))
        key = "level %d %s %s size %g" % (lev, nme, kind, f)
        try:
            env, inn = h.envelope(sh.region), h.interior(sh.region)
        except RuntimeError as e:
            if kind in ("triangle", "sliver") and "degenerate" in str(e):
                mc.outcome("rejected as degenerate")
                continue
            raise
        own, amb = vec2pix(lev, sh.pts)
        inside = set(own[(~amb) & (sh.clear(sh.pts) > -1e-12)].tolist())
        miss = [p for p in inside if not env.contains(p)]
        mc.trans(len(sh.pts))
        if miss:
            mc.fail(key + ": envelope", "misses %s" % miss[:5])
        for q in sh.pts[:: max(1, len(sh.pts) // 40)]:
            mc.trans()
            if sh.region.contains(U(q)) and not env.contains(int(h.index(U(q)))):
                mc.fail(key + ": envelope", "misses the index of %s" % q)
                break
        if not inn.isWithin(env):
            mc.fail(key, "interior is not within the envelope")
        pe = [p for a, b in env.ranges() for p in range(a, b)]
        pi = [p for a, b in inn.ranges() for p in range(a, b)]
        if len(pe) > 12 + 30 * (1 + f) ** 2 and kind != "box":
            mc.fail(key + ": envelope", "contains %d pixels" % len(pe))
        g = np.linspace(0.02, 0.98, 9)
        for p in pi:
            v = pix2vec(lev, np.full(81, p), np.repeat(g, 9), np.tile(g, 9))
            mc.trans(81)
            if (sh.clear(v) < -0.004 / 2**lev - 1e-12).any():
                mc.fail(key + ": interior", "pixel %d is not within the region" % p)
                break
        # Pixels well inside of the region are interior.
        if pe:
            v = np.stack([pix2vec(lev, pe, a, b) for a in (-.1, .25, .5, .75, 1.1) for b in (-.1, .25, .5, .75, 1.1)]) if False else \
                np.stack([pix2vec(lev, pe, a, b) for a in (0.0, .25, .5, .75, 1.0) for b in (0.0, .25, .5, .75, 1.0)])
            cm = np.min(np.stack([sh.clear(w) for w in v]), axis=0)
            lost = [p for p, m in zip(pe, cm) if m > 0.05 / 2**lev and not inn.contains(p)]
            if lost and kind != "ellipse":
                mc.fail(key + ": interior", "misses %s" % lost[:5])

    # ---------------------------------------------------------------- the rest of the interface
    mc.section("values, errors and empty regions")
    if mc.shard == 0:
        def raises(key, f, *types):
            mc.state()
            mc.trace()
            mc.trans()
            try:
                r = f()
            except types or (Exception,) as e:
                mc.outcome("raises " + type(e).__name__)
                return
            mc.fail(key, "returns %r" % (r,))
        for l in (-1, -2, -100, 30, 31, 60, 1000):
            raises("level %d" % l, lambda: HP(l), ValueError, OverflowError, RuntimeError)
        for l in ("3", None, [1], 2.5):
            raises("level %r" % (l,), lambda: HP(l), TypeError, ValueError, RuntimeError)
        for lev in (0, 1, 5, 17):
            h = HP(lev)
            n = 12 * 4**lev
            for i in (-1, n, n + 1, -n, 2**62, 2**63 - 1, 2**63, 2**64, -2**63):
                raises("level %d pixel %d" % (lev, i), lambda: h.pixel(i), ValueError, OverflowError, RuntimeError, IndexError)
            for e in (S.Box(), S.Box.empty(), S.Circle(), S.Circle.empty(), S.Ellipse(), S.Ellipse.empty()):
                for f in (h.envelope, h.interior):
                    mc.state()
                    mc.trace()
                    mc.trans()
                    r = f(e)
                    if not isinstance(r, S.RangeSet) or not r.empty():
                        mc.fail("level %d %s of %r" % (lev, f.__name__, e), r)
            if lev < 5:
                for e in (S.Box.full(), S.Circle.full(), S.Ellipse.full()):
                    for f in (h.envelope, h.interior):
                        mc.state()
                        mc.trace()
                        mc.trans()
                        if f(e) != h.universe():
                            mc.fail("level %d %s of %r" % (lev, f.__name__, e), f(e))
            # Compound regions are either rejected or handled correctly (as unions, here of one circle with itself).
            a = S.Circle(S.UnitVector3d(1, 2, 3), S.Angle(0.3))
            for comp in (S.UnionRegion(a, a), S.IntersectionRegion(a, a)) if lev < 5 else ():
                mc.state()
                mc.trace()
                try:
                    if not h.envelope(comp).contains(h.envelope(a)) or not h.interior(a).contains(h.interior(comp)):
                        mc.fail("level %d compound" % lev)
                except (ValueError, TypeError, NotImplementedError):
                    mc.outcome("compound rejected")
        # Results belong to the caller: whatever becomes of them, the same question gets the same answer.
        for lev in (0, 1, 3):
            for order in itertools.product((0, 1), repeat=2):
                h = HP(lev)
                regions = [S.Circle(S.UnitVector3d(1, 2, 3), S.Angle(0.9)), S.Box.fromDegrees(10, -40, 120, 60), S.Ellipse(S.UnitVector3d(1, 2, 3), S.UnitVector3d(2, 2, 3), S.Angle(1.0)), S.Box.full(), S.Circle()]
                calls = [("universe", h.universe)] + [("%s of %r" % (f.__name__, r), lambda f=f, r=r: f(r)) for r in regions for f in (h.envelope, h.interior)]
                for name, call in calls:
                    mc.state()
                    first = list(call().ranges())
                    for what in order:
                        r = call()
                        mc.trans(2)
                        mc.trace()
                        if list(r.ranges()) != first or list(HP(lev).universe().ranges()) != [(0, 12 * 4**lev)]:
                            mc.fail("level %d %s, asked again" % (lev, name), r)
                        if what:
                            r &= S.RangeSet(3, 5)
                        else:
                            r.complement()
        obj = [HP(l) for l in range(0, 20)]
        foreign = [S.HtmPixelization(3), S.Q3cPixelization(3), S.Mq3cPixelization(3), 3, "3", None, 3.0, (3,), object()]
        for i, a in enumerate(obj):
            for j, b in enumerate(obj):
                mc.state()
                mc.trace()
                mc.trans(2)
                if (a == b) is not (i == j) or (a != b) is not (i != j):
                    mc.fail("%r == %r" % (a, b), (a == b, a != b))
            for f in foreign:
                mc.trans(4)
                if (a == f) is not False or (a != f) is not True or (f == a) is not False or (f != a) is not True:
                    mc.fail("%r == %r" % (a, f), "%r %r" % (a == f, f == a))
            if repr(a) != "HealpixPixelization(%d)" % i or str(a) != repr(a):
                mc.fail("repr %d" % i, repr(a))
            todo = [a]
            for _ in range(2):
                nxt = []
                for x in todo:
                    nxt += [copy.copy(x), copy.deepcopy(x), pickle.loads(pickle.dumps(x)), pickle.loads(pickle.dumps(x, 2)), yaml.safe_load(yaml.dump(x)), eval(repr(x), {"HealpixPixelization": HP})]
                todo = nxt
                for x in todo:
                    mc.state()
                    mc.trace()
                    mc.trans(3)
                    v = S.UnitVector3d(1, 2, 3)
                    if type(x) is not HP or x != a or x.level != i or x.nside != 2**i or x.index(v) != a.index(v) or x.universe() != a.universe():
                        mc.fail("copies of %r" % a, repr(x))
                    if i < 6:
                        c = S.Circle(v, S.Angle(0.1))
                        if x.envelope(c) != a.envelope(c) or x.interior(c) != a.interior(c) or x.pixel(3) != a.pixel(3):
                            mc.fail("copies of %r" % a, "other pixels")


pymc.run(main)
