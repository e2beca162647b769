"""C28: IVOA POS strings denote the documented regions, and stored YAML documents stay readable."""
import itertools
import math
import os
import struct
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pymc  # noqa: E402

PI = math.pi


def main(mc):
    sys.path.insert(0, mc.args["--pkg"])
    import lsst.sphgeom as S
    import yaml
    assert S.__file__.startswith(mc.args["--pkg"]), S.__file__
    P = S.Region.from_ivoa_pos

    def vec(lon, lat):
        lo, la = math.radians(lon), math.radians(lat)
        return (math.cos(lo) * math.cos(la), math.sin(lo) * math.cos(la), math.sin(la))

    def cross(a, b):
        return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])

    def dot(a, b):
        return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]

    def norm(a):
        return math.sqrt(dot(a, a))

    def unit(a):
        n = norm(a)
        return tuple(x / n for x in a)

    def sep(a, b):
        return math.atan2(norm(cross(a, b)), dot(a, b))

    def U(a):
        return S.UnitVector3d(*a)

    def step(u, t, r):
        """The position at distance r from u in direction t."""
        a = unit(cross(u, (0, 0, 1)) if abs(u[2]) < 0.9 else cross(u, (1, 0, 0)))
        b = cross(u, a)
        return unit(tuple(math.cos(r) * x + math.sin(r) * (math.cos(t) * y + math.sin(t) * z) for x, y, z in zip(u, a, b)))

    def xyz(v):
        return (v.x(), v.y(), v.z())

    def same(a, b, tol=1e-14):
        return abs(a - b) <= tol or abs(abs(a - b) - 2 * PI) <= tol

    def lonlat(b):
        return (b.getLon().getA().asRadians(), b.getLon().getB().asRadians(), b.getLat().getA().asRadians(), b.getLat().getB().asRadians())

    def agree(c, d):
        """The same region up to the rounding of degrees."""
        if type(c) is not type(d) or (hasattr(c, "isEmpty") and c.isEmpty() != d.isEmpty()):
            return False
        if isinstance(c, S.Circle):
            if c.isEmpty():
                return True
            return abs(c.getOpeningAngle().asRadians() - d.getOpeningAngle().asRadians()) <= 1e-15 + 4e-16 * c.getOpeningAngle().asRadians() and \
                (c.isFull() or sep(xyz(c.getCenter()), xyz(d.getCenter())) <= 4e-15) and c.isFull() == d.isFull()
        if isinstance(c, S.Box):
            return c.isEmpty() or (c.getLon().isFull() == d.getLon().isFull() and all(same(x, y, 2e-15) for x, y in zip(lonlat(c), lonlat(d))))
        a, b = c.getVertices(), d.getVertices()
        return len(a) == len(b) and any(all(sep(xyz(a[i]), xyz(b[(i + k) % len(b)])) <= 4e-15 for i in range(len(a))) for k in range(len(a)))

    def parse(t):
        mc.trans()
        try:
            return P(t)
        except Exception as e:
            mc.fail(t, "raises %r" % e)

    def roundtrip(t, c):
        mc.trans(2)
        try:
            p = c.to_ivoa_pos()
            d = P(p)
        except Exception as e:
            mc.fail(t + " round trip", "raises %r" % e)
            return
        if not agree(c, d):
            mc.fail(t + " round trip", "%r becomes %s and %r" % (c, p, d))
        if "inf" in p.lower() or "nan" in p.lower():
            mc.fail(t + " text", p)

    W = [lambda k, n: " ".join([k] + n), lambda k, n: "  " + "\t".join([k] + n) + "\n", lambda k, n: k + "  " + "   ".join(n) + " "]

    # ---------------------------------------------------------------- circles
    mc.section("circles")
    LON = ["0", "0.0", "0.5", "12", "+45.25", "1.8e2", "179.99999999", "270", "359.5", "360", "-0.0", "-90"] + (["33.3333333333333333", "300.00000000000006"] if mc.thorough else [])
    LAT = ["-90", "-89.5", "-30.", "0", "-0", ".25", "60", "+8.99e1", "90"] + (["45.000000000000007", "1e-300"] if mc.thorough else [])
    RAD = ["0", "1e-9", "0.001", "0.5", "10", "89", "90", "120", "179.9", "180", "1.5e1"]
    n = 0
    for a, b, r in itertools.product(LON, LAT, RAD):
        n += 1
        if not mc.mine(n):
            continue
        mc.at(n)
        mc.state()
        mc.trace()
        t = W[n % 3]("CIRCLE", [a, b, r])
        c = parse(t)
        if c is None:
            continue
        if type(c) is not S.Circle:
            mc.fail(t, "gives %r" % c)
            continue
        u, rr = vec(float(a), float(b)), math.radians(float(r))
        if not same(c.getOpeningAngle().asRadians(), min(PI, rr), 1e-15 + 1e-15 * rr) or (rr < PI and sep(u, xyz(c.getCenter())) > 1e-15):
            mc.fail(t, "gives %r" % c)
        for k in range(8):
            for f in (0.0, 0.5, 1 - 1e-6, 1 + 1e-6, 1.5):
                d = f * rr + (1e-9 if f > 1 else -1e-9 if f else 0)
                if 0 <= d <= PI:
                    mc.trans()
                    q = step(u, k * PI / 4 + 0.1, d)
                    if rr > 1e-6 and c.contains(U(q)) != (f < 1):
                        mc.fail(t + " membership", "position %r" % (q,))
        roundtrip(t, c)
        mc.sample(repr(t) + " is " + repr(c))

    # ---------------------------------------------------------------- ranges
    mc.section("ranges")
    lons = [("0", 0), ("0.5", 0.5), ("1.2e1", 12), ("179.5", 179.5), ("+180", 180), ("270", 270), ("359.5", 359.5), ("360", 360), ("-Inf", 0), ("+Inf", 360), ("inf", 360), ("-0.0", 0), ("365", 365), ("-10.5", -10.5), ("732.5", 732.5), ("-725", -725), ("1e4", 1e4)]
    turn = lambda x: x if 0 <= x <= 360 else x % 360
    lats = [("-90", -90), ("-89.5", -89.5), ("-3e1", -30), ("0", 0), (".25", .25), ("60.", 60), ("90", 90), ("-Inf", -90), ("+Inf", 90), ("INF", 90)]
    for a, b, p, q in itertools.product(lons, lons, lats, lats):
        n += 1
        if not mc.mine(n):
            continue
        mc.at(n)
        mc.state()
        mc.trace()
        t = W[n % 3]("RANGE", [a[0], b[0], p[0], q[0]])
        c = parse(t)
        if c is None:
            continue
        if type(c) is not S.Box:
            mc.fail(t, "gives %r" % c)
            continue
        # membership follows the bounds of the string (away from them)
        for lo in (0.25, 6, 15, 179.75, 200, 300, 359.75):
            for la in (-89.75, -60, -0.5, 0.125, 30, 89.75):
                ta, tb = turn(a[1]), turn(b[1])
                inlon = (ta <= lo <= tb) if ta <= tb else (lo >= ta or lo <= tb)
                if a[1] % 360 == b[1] % 360 and a[1] > b[1]:
                    inlon = False
                want = inlon and p[1] <= la <= q[1]
                mc.trans(2)
                if c.contains(S.LonLat.fromDegrees(lo, la)) != want or c.contains(U(vec(lo, la))) != want:
                    mc.fail(t + " membership", "lon %r lat %r: %r, %r" % (lo, la, not want, c))
        # ... and the bounds are those of the string
        if p[1] <= q[1]:
            lo1, lo2, la1, la2 = lonlat(c)
            if la1 != math.radians(p[1]) or la2 != math.radians(q[1]) or not same(lo1, math.radians(a[1]) % (2 * PI), 1e-15 if abs(a[1]) <= 360 else 1e-13) or not same(lo2, math.radians(b[1]) % (2 * PI), 1e-15 if abs(b[1]) <= 360 else 1e-13):
                mc.fail(t + " bounds", repr(c))
            roundtrip(t, c)
        elif not c.isEmpty():
            mc.fail(t, "is not empty: %r" % c)
        mc.sample(repr(t) + " is " + repr(c))

    # ---------------------------------------------------------------- polygons
    mc.section("polygons")
    PTS = [("0", "0"), ("1e1", "0"), ("20.5", "+30"), ("355", "40"), ("-12", "-20"), ("90", "80"), ("45", "90"), ("350", "-0.5")] + ([("60", "-10"), ("300", "5")] if mc.thorough else [])
    GRID = [vec(lo, la) for lo in range(-30, 100, 6) for la in range(-28, 91, 5)] + [vec(200, -60), vec(180, 0), vec(5, -89)]
    for size in (3, 4, 5):
        for idx in itertools.permutations(range(len(PTS)), size) if size < 5 else itertools.combinations(range(len(PTS)), size):
            if size == 4 and not mc.thorough and (idx[0] > idx[1] or idx[2] > idx[3]):
                continue
            n += 1
            if not mc.mine(n):
                continue
            mc.at(n)
            mc.state()
            mc.trace()
            pts = [PTS[i] for i in idx]
            t = W[n % 3]("POLYGON", [x for q in pts for x in q])
            vs = [vec(float(x), float(y)) for x, y in pts]
            c = parse(t)
            if c is None:
                continue
            if type(c) is not S.ConvexPolygon:
                mc.fail(t, "gives %r" % c)
                continue
            # the convex hull of the vertices: the union of the triangles of vertices
            tri = []
            for i, j, k in itertools.combinations(range(size), 3):
                d = dot(vs[i], cross(vs[j], vs[k]))
                e = [unit(cross(vs[x], vs[y])) for x, y in ((i, j), (j, k), (k, i))]
                tri.append([tuple(math.copysign(1, d) * z for z in m) for m in e] if abs(d) > 1e-12 else None)
            for g in GRID:
                m = max(min(dot(g, e) for e in es) for es in tri if es)
                mc.trans()
                if abs(m) > 1e-9 and c.contains(U(g)) != (m > 0):
                    # (on a common edge of two triangles)
                    if m < 0 and m > -1e-6:
                        continue
                    mc.fail(t + " membership", "position %r" % (g,))
            for v in c.getVertices():
                if min(sep(xyz(v), w) for w in vs) > 1e-15:
                    mc.fail(t + " vertices", repr(c))
            roundtrip(t, c)
            mc.sample(repr(t) + " is " + repr(c))

    # ---------------------------------------------------------------- regions to strings
    mc.section("regions as strings")
    dirs = [unit(d) for d in itertools.product((-1, 0, 1), repeat=3) if any(d)] + [unit(d) for d in ((1, 1e-9, 0), (1, -1e-17, 1e-12), (1e-17, 1e-17, -1), (3, -4, 12), (-1, -1e-16, .3))]
    regs = []
    for u in dirs:
        for r in (0.0, 1e-12, 1e-7, 0.001, 0.3, 1.0, PI / 2, 2.5, 3.14159, PI, -1.0):
            regs.append(S.Circle(U(u), S.Angle(r)))
        for k in (3, 4, 7):
            for r in (1e-6, 0.01, 0.7, 1.5):
                regs.append(S.ConvexPolygon([U(step(u, 0.3 + i * 2 * PI / k, r)) for i in range(k)]))
    regs += [S.Circle(), S.Circle.empty(), S.Circle.full()]
    X = [0.0, 1e-300, 1e-9, 0.1, 1.0, PI, 4.0, 2 * PI - 1e-15, 6.283]
    Y = [-PI / 2, -1.57, -0.1, 0.0, 1e-12, 1.0, PI / 2]
    for a, b in itertools.product(X, X):
        for p, q in itertools.combinations_with_replacement(Y, 2):
            regs.append(S.Box(S.NormalizedAngleInterval.fromRadians(a, b), S.AngleInterval.fromRadians(p, q)))
    for p, q in itertools.combinations_with_replacement(Y, 2):
        regs.append(S.Box(S.NormalizedAngleInterval.full(), S.AngleInterval.fromRadians(p, q)))
    for i, r in enumerate(regs):
        if not mc.mine(i):
            continue
        mc.at(i)
        mc.state()
        mc.trace()
        kind = {S.Circle: "CIRCLE", S.Box: "RANGE", S.ConvexPolygon: "POLYGON"}[type(r)]
        roundtrip("region %d" % i, r)
        p = r.to_ivoa_pos().split()
        f = [math.radians(float(x)) for x in p[1:]]
        if p[0] != kind or len(f) != {"CIRCLE": 3, "RANGE": 4}.get(kind, len(f)):
            mc.fail("%r" % r, "is %s" % p)
        elif kind == "CIRCLE" and not r.isEmpty() and (sep(vec(float(p[1]), float(p[2])), xyz(r.getCenter())) > 2e-15 or abs(f[2] - r.getOpeningAngle().asRadians()) > 1e-15):
            mc.fail("%r" % r, "is %s" % p)
        elif kind == "RANGE" and not r.isEmpty() and not all(abs(x - y) < 2e-15 for x, y in zip(f, lonlat(r))):
            mc.fail("%r" % r, "is %s" % p)
        elif kind == "POLYGON" and [1 for v, x, y in zip(r.getVertices(), p[1::2], p[2::2]) if sep(xyz(v), vec(float(x), float(y))) > 2e-15] + [0] * abs(len(f) - 2 * len(r.getVertices())):
            mc.fail("%r" % r, "is %s" % p)
        # not a string of a full interval by accident
        if kind == "RANGE" and not r.getLon().isFull() and not r.isEmpty() and P(r.to_ivoa_pos()).getLon().isFull():
            mc.fail("%r" % r, "becomes full")

    # ---------------------------------------------------------------- conversions do not remember what happened to their results
    mc.section("conversions after changes")
    A = S.Angle
    changes = {
        S.Circle: [lambda r: r.dilateBy(A(0.1)), lambda r: r.erodeBy(A(0.01)), lambda r: r.complement(), lambda r: r.clipTo(S.Circle(S.UnitVector3d(1, 2, 3), A(0.2))), lambda r: r.expandTo(S.Circle(S.UnitVector3d(3, 2, 1), A(0.2))), lambda r: r.clipTo(S.UnitVector3d.Z()), lambda r: r.expandTo(S.UnitVector3d.Y())],
        S.Box: [lambda r: r.dilateBy(A(0.1)), lambda r: r.dilateBy(A(0.1), A(0.2)), lambda r: r.erodeBy(A(0.01)), lambda r: r.clipTo(S.Box.fromDegrees(3, 4, 5, 6)), lambda r: r.expandTo(S.Box.fromDegrees(100, 5, 130, 6)), lambda r: r.expandTo(S.LonLat.fromDegrees(77, 7)), lambda r: r.clipTo(S.LonLat.fromDegrees(77, 7))],
    }
    strings = ["CIRCLE 10 20 5", "CIRCLE 0 90 30", "CIRCLE 350 -20 0", "CIRCLE 1e1 2e1 120", "RANGE 10 20 30 40", "RANGE 350 10 -5 5", "RANGE -Inf +Inf 10 80", "RANGE 0 360 -Inf 10"]

    def state(r):
        return (type(r).__name__, r.encode(), repr(r))
    for i, t in enumerate(strings):
        if not mc.mine(i):
            continue
        first = state(P(t))
        kind = type(P(t))
        for n, seq in enumerate(itertools.product(range(len(changes[kind])), repeat=2)):
            mc.at(i, n)
            mc.state()
            r = P(t)
            fresh = kind(r)
            doc = yaml.dump(fresh)
            for k in seq:
                mc.trans(6)
                changes[kind][k](r)
                changes[kind][k](fresh)
                # Every class that offers the conversion, before and after its other results have changed.
                for cls in (S.Region, S.Circle, S.Box, S.ConvexPolygon):
                    again = cls.from_ivoa_pos(t)
                    mc.trace()
                    if state(again) != first or again is r:
                        mc.fail("%r after change %s of an earlier result" % (t, seq), "%r" % again)
                    changes[kind][k](again)
                loaded = yaml.safe_load(doc)
                if state(loaded) != first:
                    mc.fail("document of %r after change %s of an earlier result" % (t, seq), "%r" % loaded)
                changes[kind][k](loaded)
                mc.trace(2)
                if r.to_ivoa_pos() != kind.decode(fresh.encode()).to_ivoa_pos() or yaml.dump(r) != yaml.dump(kind.decode(fresh.encode())):
                    mc.fail("%r changed by %s" % (t, seq), "is written as %r" % r.to_ivoa_pos())

    # ---------------------------------------------------------------- rejected strings, and regions without a string
    mc.section("unusable strings and regions")
    if mc.shard == 0:
        bads = ["", " ", "\n", "SQUARE 1 2 3", "circle 1 2 3", "Circle 1 2 3", "range 1 2 3 4", "polygon 0 0 1 0 0 1", "BOX 1 2 3 4", "ELLIPSE 1 2 3", "CIRCLE1 2 3", "1 2 3", "CIRCLE,1,2,3", "CIRCLE 1,2,3",
                "CIRCLE a b c", "CIRCLE 1 91 3", "CIRCLE 1 -90.0001 3", "RANGE x 2 3 4", "RANGE 1 2 -91 4", "RANGE 1 2 3 90.5", "POLYGON 0 0 1 0 2 0", "POLYGON 1 1 1 1 1 1", "POLYGON 0 0 1 0 0 95",
                "POLYGON 0 0 120 0 240 0", "POLYGON 0 80 90 0 180 -80 270 0 45 30", "CIRCLE 1 2 3;", "CIRCLE 0x1 2 3", "CIRCLE CIRCLE 1 2 3"]
        for shape, ok in (("CIRCLE", {3}), ("RANGE", {4}), ("POLYGON", {6, 8, 10})):
            for k in range(0, 12):
                if k not in ok:
                    bads.append(" ".join([shape] + [str(x) for x in ([10, 20, 30, 5, 50, 60, 40, 25, 8, 9, 11, 7])[:k]]))
        for t in bads:
            for cls in (S.Region, S.Circle, S.Box, S.ConvexPolygon, S.Ellipse):
                mc.state()
                mc.trace()
                mc.trans()
                try:
                    r = cls.from_ivoa_pos(t)
                except ValueError:
                    mc.outcome("ValueError")
                    continue
                except Exception as e:
                    mc.fail("%r" % t, "raises %r" % e)
                    continue
                mc.fail("%r" % t, "is accepted: %r" % (r,))
        for t in (None, 3, b"CIRCLE 1 2 3", ["CIRCLE", "1", "2", "3"]):
            mc.state()
            try:
                r = P(t)
            except (TypeError, AttributeError, ValueError):
                continue
            except Exception as e:
                mc.fail("%r" % (t,), "raises %r" % e)
                continue
            mc.fail("%r" % (t,), "is accepted: %r" % (r,))
        good = [("CIRCLE 10 20 5", S.Circle), ("RANGE 10 20 5 6", S.Box), ("POLYGON 0 0 10 0 0 10", S.ConvexPolygon)]
        for t, k in good:
            for cls in (S.Region, S.Circle, S.Box, S.ConvexPolygon, S.Ellipse, S.UnionRegion):
                mc.state()
                mc.trace()
                mc.trans()
                if type(cls.from_ivoa_pos(t)) is not k or cls.from_ivoa_pos(t) != P(t):
                    mc.fail("%s from %s" % (t, cls.__name__))
        a, b = P(good[0][0]), P(good[1][0])
        for r in (S.Ellipse(), S.Ellipse(U((0, 0, 1)), S.Angle(0.1), S.Angle(0.2), S.Angle(0)), S.Ellipse(U((0, 0, 1)), S.Angle(0.1)), S.UnionRegion(a, b), S.IntersectionRegion(a, b)):
            mc.state()
            mc.trace()
            mc.trans()
            try:
                p = r.to_ivoa_pos()
            except NotImplementedError:
                continue
            mc.fail("%r" % r, "is %s" % p)

    # ---------------------------------------------------------------- YAML
    mc.section("YAML documents")
    loaders = [getattr(yaml, k) for k in ("Loader", "FullLoader", "SafeLoader", "UnsafeLoader", "CLoader") if hasattr(yaml, k)]
    D = [0.0, -0.0, 1.0, -0.5, 0.1, 5e-324]

    def doubles(*v):
        return struct.pack("<%dd" % len(v), *v)
    docs = []
    # Documents written by hand from the documented binary forms, and the regions that they mean.
    for x in ((1, 0, 0), (0, 0, -1), (0.6, 0, 0.8)):
        for r in (0.0, 0.1, 1.0, 2.5):
            c = (2 * math.sin(r / 2)) ** 2
            docs.append(("Circle", b"c" + doubles(*x, c, r), lambda x=x, r=r, c=c: (S.Circle, x, c, r)))
    for a, b, p, q in itertools.product((0.0, 1.5, 6.0), (0.5, 6.1), (-1.5, 0.0), (0.25, PI / 2)):
        docs.append(("Box", b"b" + doubles(a, b, p, q), lambda a=a, b=b, p=p, q=q: (S.Box, a, b, p, q)))
    for vs in (((1, 0, 0), (0, 1, 0), (0, 0, 1)), ((0, -1, 0), (1, 0, 0), (0, 0, 1)), ((0.6, 0, 0.8), (0.6, 0.8, 0), (0, 0.6, 0.8))):
        docs.append(("ConvexPolygon", b"p" + doubles(*(z for v in vs for z in v)), lambda vs=vs: (S.ConvexPolygon, vs)))
    one, two = docs[3][1], docs[14][1]
    for tag, code in (("UnionRegion", b"u"), ("IntersectionRegion", b"i")):
        docs.append((tag, code + struct.pack("<Q", len(one)) + one + struct.pack("<Q", len(two)) + two, lambda tag=tag: (getattr(S, tag), one, two)))
    for i, (tag, data, want) in enumerate(docs):
        if not mc.mine(i):
            continue
        w = want()
        for L in loaders:
            for form in ("!<lsst.sphgeom.%s>\nencoded: %s\n", "!<lsst.sphgeom.%s> {encoded: '%s'}\n", "!<lsst.sphgeom.%s> {\"encoded\": \"%s\"}\n"):
                for up in (False, True):
                    h = data.hex()
                    # (a number with quotes missing would not be a string)
                    doc = form % (tag, h.upper() if up else h)
                    if form.endswith("%s\n") and h.isdigit():
                        continue
                    mc.at(i)
                    mc.state()
                    mc.trace()
                    mc.trans()
                    try:
                        r = yaml.load(doc, Loader=L)
                    except Exception as e:
                        mc.fail("%s %s %s" % (tag, data.hex(), L.__name__), "raises %r" % e)
                        continue
                    ok = type(r) is w[0] and r.encode() == data
                    if ok and tag == "Circle":
                        ok = xyz(r.getCenter()) == w[1] and r.getSquaredChordLength() == w[2] and r.getOpeningAngle().asRadians() == w[3]
                    if ok and tag == "Box":
                        ok = lonlat(r) == w[1:]
                    if ok and tag == "ConvexPolygon":
                        ok = tuple(xyz(v) for v in r.getVertices()) == w[1]
                    if not ok:
                        mc.fail("%s %s %s" % (tag, data.hex(), L.__name__), "gives %r" % (r,))
        # Dumping gives a document with this tag and these bytes, as read without knowledge of the classes.
        r = S.Region.decode(data)
        for dump in (yaml.dump, yaml.safe_dump) if False else (yaml.dump,):
            node = yaml.compose(dump(r))
            if node.tag != "lsst.sphgeom." + tag or [k.value for k, _ in node.value] != ["encoded"] or bytes.fromhex(node.value[0][1].value) != data:
                mc.fail("%s %s dump" % (tag, data.hex()), dump(r))
    for name in ("HtmPixelization", "Q3cPixelization", "Mq3cPixelization", "HealpixPixelization"):
        for lev in range(0 if name[0] == "Q" or name[:2] == "He" else 1, 18):
            if not mc.mine(lev):
                continue
            mc.at(lev)
            p = getattr(S, name)(lev)
            node = yaml.compose(yaml.dump(p))
            if node.tag != "lsst.sphgeom." + name or [(k.value, v.value) for k, v in node.value] != [("level", str(lev))]:
                mc.fail("%s %d dump" % (name, lev), yaml.dump(p))
            for L in loaders:
                mc.state()
                mc.trace()
                mc.trans()
                q = yaml.load("[!<lsst.sphgeom.%s> {level: %d}, 7]" % (name, lev), Loader=L)
                if type(q[0]) is not type(p) or q[0].getLevel() != lev or q[0] != p:
                    mc.fail("%s %d %s" % (name, lev, L.__name__), repr(q))
    if mc.shard == 0:
        for doc in ("!<lsst.sphgeom.Box> {encoded: 'zz'}", "!<lsst.sphgeom.Box> {encoded: ''}", "!<lsst.sphgeom.Box> {encoded: '62'}", "!<lsst.sphgeom.Box> {other: '62'}", "!<lsst.sphgeom.Nothing> {encoded: '62'}",
                    "!<lsst.sphgeom.Circle> {encoded: 'ff00'}", "!<lsst.sphgeom.HtmPixelization> {level: -1}", "!<lsst.sphgeom.HtmPixelization> {level: 99}", "!<lsst.sphgeom.Q3cPixelization> {levels: 3}"):
            for L in loaders:
                mc.state()
                mc.trans()
                if L is yaml.UnsafeLoader and "Nothing" in doc:
                    continue
                try:
                    r = yaml.load(doc, Loader=L)
                except Exception:
                    continue
                mc.fail(doc, "%s gives %r" % (L.__name__, r))


pymc.run(main)
