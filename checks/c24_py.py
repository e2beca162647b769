"""C24, Python side: histories of read-only operations on shared objects, with results that the caller changes."""
import copy
import itertools
import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pymc  # noqa: E402


def main(mc):
    sys.path.insert(0, mc.args["--pkg"])
    import lsst.sphgeom as S
    import yaml
    assert S.__file__.startswith(mc.args["--pkg"]), S.__file__
    A, V, U, L = S.Angle, S.Vector3d, S.UnitVector3d, S.LonLat

    def canon(o):
        """What a value is, as a plain string."""
        if isinstance(o, S.Region):
            return type(o).__name__ + o.encode().hex()
        if isinstance(o, (list, tuple)):
            return "[" + ",".join(map(canon, o)) + "]"
        if isinstance(o, S.RangeSet):
            return "R" + repr(o.ranges())
        if isinstance(o, bytes):
            return o.hex()
        return type(o).__name__ + repr(o)

    def change(o):
        """Changes a result in every way that its class offers."""
        if isinstance(o, list):
            for x in o:
                change(x)
            o.reverse()
            o.append(None)
        elif isinstance(o, tuple):
            for x in o:
                change(x)
        elif isinstance(o, S.RangeSet):
            o.complement()
            o.erase(3, 7)
        elif isinstance(o, S.Circle):
            o.dilateBy(A(0.01))
            o.complement()
        elif isinstance(o, S.Box):
            o.dilateBy(A(0.01))
            o.expandTo(S.Box.full())
        elif isinstance(o, S.Ellipse):
            o.complement()
        elif isinstance(o, S.Box3d):
            o.dilateBy(0.5)
        elif isinstance(o, S.NormalizedAngleInterval):
            o.expandTo(S.NormalizedAngleInterval.full())
        elif isinstance(o, S.AngleInterval):
            o.expandTo(S.AngleInterval.fromRadians(-50, 60))
        elif isinstance(o, S.Interval1d):
            o.expandTo(77.0)
        elif isinstance(o, S.Vector3d):
            o += V(1, 1, 1)
        elif isinstance(o, A):
            o += A(1)

    def cold(f):
        """The result of f in a process that has done nothing else."""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                out = f()
            except BaseException as e:
                out = "!" + type(e).__name__ + str(e)
            with os.fdopen(w, "w") as g:
                g.write(out)
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as g:
            out = g.read()
        os.waitpid(pid, 0)
        return out

    P, Q, W = U(1, 2, 3), U(1, 2, 3.0000001), U(-3, 1, 0.5)
    circle, box = (lambda: S.Circle(P, A(0.4))), (lambda: S.Box.fromDegrees(20, 10, 80, 70))
    ellipse = lambda: S.Ellipse(P, A(0.5), A(0.3), A(0.2))  # noqa: E731
    polygon = lambda: S.ConvexPolygon([U(1, 0, 0), U(0.5, 1, 0.1), U(0.2, 0.3, 1)])  # noqa: E731
    others = [circle(), box(), ellipse(), polygon(), S.Circle(W, A(2.0))]
    region = [("getBoundingBox", lambda r: r.getBoundingBox()), ("getBoundingCircle", lambda r: r.getBoundingCircle()), ("getBoundingBox3d", lambda r: r.getBoundingBox3d()), ("clone", lambda r: r.clone()),
              ("encode", lambda r: r.encode()), ("contains P", lambda r: r.contains(P)), ("contains Q", lambda r: r.contains(Q)), ("contains lonlat", lambda r: bool(r.contains(1.1, 0.9))),
              ("contains many", lambda r: r.contains([1.1, 1.2, 4.0], [0.9, 0.1, 0.2]).tolist()), ("relate all", lambda r: [repr(r.relate(o)) for o in others]), ("relate itself", lambda r: repr(r.relate(r))),
              ("decode", lambda r: S.Region.decode(r.encode())), ("pickle", lambda r: pickle.loads(pickle.dumps(r))), ("copy", lambda r: copy.deepcopy(r)), ("yaml", lambda r: yaml.safe_load(yaml.dump(r))), ("getRegions", lambda r: S.Region.getRegions(r)),
              ("repr", repr)]
    compound = [("cloneOperand 0", lambda r: r.cloneOperand(0)), ("cloneOperand 1", lambda r: r.cloneOperand(1))]
    round_ = [("getCenter", lambda r: r.getCenter()), ("complemented", lambda r: r.complemented())]
    pos = [("to_ivoa_pos", lambda r: r.to_ivoa_pos()), ("round trip", lambda r: S.Region.from_ivoa_pos(r.to_ivoa_pos())), ("own round trip", lambda r: type(r).from_ivoa_pos(r.to_ivoa_pos()))]
    regs = [circle(), box(), ellipse(), polygon()]
    pix = [("universe", lambda p: p.universe())] + [("%s %d" % (f, i), lambda p, f=f, i=i: getattr(p, f)(regs[i])) for f in ("envelope", "interior") for i in range(4)]
    pix += [("index P", lambda p: p.index(P)), ("index W", lambda p: p.index(W)), ("pixel P", lambda p: p.pixel(p.index(P))), ("pixel W", lambda p: p.pixel(p.index(W))), ("name", lambda p: p.toString(p.index(W))), ("repr", repr), ("pickle", lambda p: repr(pickle.loads(pickle.dumps(p))))]
    cap = [("envelope %d ranges" % n, lambda p, n=n: p.envelope(regs[0], n)) for n in (1, 2, 5)]
    chunker = [("all chunks", lambda c: c.getAllChunks()), ("subchunks", lambda c: c.getAllSubChunks(c.getAllChunks()[7]))]
    chunker += [("chunks %d" % i, lambda c, i=i: c.getChunksIntersecting(regs[i])) for i in range(4)] + [("subchunks of %d" % i, lambda c, i=i: c.getSubChunksIntersecting(regs[i])) for i in (0, 1)]
    chunker += [("box of a chunk", lambda c: c.getChunkBoundingBox(3, 2)), ("box of another", lambda c: c.getChunkBoundingBox(2, 2)), ("box of a subchunk", lambda c: c.getSubChunkBoundingBox(3, 2)), ("pickle", lambda c: pickle.loads(pickle.dumps(c)).getAllChunks())]
    x = S.RangeSet([(1, 5), (9, 20), (40, 0)])
    rs = [("complemented", lambda r: r.complemented()), ("&", lambda r: r & x), ("|", lambda r: r | x), ("-", lambda r: r - x), ("^", lambda r: r ^ x), ("~", lambda r: ~r), ("intersection", lambda r: r.intersection(r)), ("simplified", lambda r: r.simplified(3)), ("scaled", lambda r: r.scaled(4)), ("ranges", lambda r: r.ranges()), ("items", lambda r: [r[i] for i in range(len(r))]), ("copy", lambda r: copy.copy(r)), ("contains", lambda r: (r.contains(x), r.contains(3), r.intersects(x))), ("pickle", lambda r: pickle.loads(pickle.dumps(r))), ("str", str)]
    lon = [("getA", lambda i: i.getA()), ("getCenter", lambda i: i.getCenter()), ("getSize", lambda i: i.getSize()), ("dilatedBy", lambda i: i.dilatedBy(S.NormalizedAngle(0.1))), ("erodedBy", lambda i: i.erodedBy(S.NormalizedAngle(0.1))), ("expandedTo", lambda i: i.expandedTo(i)), ("clippedTo", lambda i: i.clippedTo(i)), ("relate", lambda i: repr(i.relate(i))), ("copy", lambda i: copy.copy(i)), ("pickle", lambda i: pickle.loads(pickle.dumps(i)))]
    bx = [("getLon", lambda b: b.getLon()), ("getLat", lambda b: b.getLat()), ("getCenter", lambda b: b.getCenter()), ("dilatedBy", lambda b: b.dilatedBy(A(0.1))), ("expandedTo", lambda b: b.expandedTo(others[1])), ("clippedTo", lambda b: b.clippedTo(b))]
    el = [("getF1", lambda e: e.getF1()), ("getF2", lambda e: e.getF2()), ("getAlpha", lambda e: e.getAlpha()), ("getGamma", lambda e: e.getGamma()), ("getTransformMatrix", lambda e: e.getTransformMatrix())]
    pg = [("getVertices", lambda p: p.getVertices()), ("getCentroid", lambda p: p.getCentroid())]
    ci = [("getOpeningAngle", lambda c: c.getOpeningAngle()), ("dilatedBy", lambda c: c.dilatedBy(A(0.2))), ("clippedTo", lambda c: c.clippedTo(c)), ("expandedTo", lambda c: c.expandedTo(others[4]))]
    b3 = [("x", lambda b: b.x()), ("y", lambda b: b.y()), ("getCenter", lambda b: b.getCenter()), ("dilatedBy", lambda b: b.dilatedBy(0.5)), ("expandedTo", lambda b: b.expandedTo(b)), ("relate", lambda b: repr(b.relate(b)))]
    vec = [("cross", lambda v: v.cross(W)), ("cwise", lambda v: v.cwiseProduct(P)), ("rotated", lambda v: v.rotatedAround(W, A(1))), ("dot", lambda v: v.dot(P)), ("plus", lambda v: v + v), ("minus", lambda v: -v), ("times", lambda v: v * 2), ("repr", repr)]
    kinds = [  # name, factories of two objects that agree in part, operations
        ("Circle", [circle, lambda: S.Circle(P, A(0.41))], region + round_ + pos + ci), ("Box", [box, lambda: S.Box.fromDegrees(20, 10, 80, 71)], region + bx + pos), ("Ellipse", [ellipse, lambda: S.Ellipse(P, A(0.5), A(0.31), A(0.2))], region + round_ + el),
        ("ConvexPolygon", [polygon, lambda: S.ConvexPolygon([U(1, 0, 0), U(0.5, 1, 0.1), U(0.2, 0.3, 1.1)])], region + pos + pg), ("UnionRegion", [lambda: S.UnionRegion(circle(), box()), lambda: S.UnionRegion(circle(), polygon())], region + compound),
        ("IntersectionRegion", [lambda: S.IntersectionRegion(circle(), box()), lambda: S.IntersectionRegion(circle(), polygon())], region + compound),
        ("HtmPixelization", [lambda: S.HtmPixelization(3), lambda: S.HtmPixelization(4)], pix + cap), ("Q3cPixelization", [lambda: S.Q3cPixelization(3), lambda: S.Q3cPixelization(4)], pix + cap), ("Mq3cPixelization", [lambda: S.Mq3cPixelization(3), lambda: S.Mq3cPixelization(4)], pix + cap),
        ("HealpixPixelization", [lambda: S.HealpixPixelization(2), lambda: S.HealpixPixelization(3)], pix), ("Chunker", [lambda: S.Chunker(7, 3), lambda: S.Chunker(7, 4)], chunker), ("RangeSet", [lambda: S.RangeSet([(2, 7), (30, 35), (50, 60)]), lambda: S.RangeSet([(2, 7), (30, 36), (50, 60)])], rs),
        ("NormalizedAngleInterval", [lambda: S.NormalizedAngleInterval.fromDegrees(350, 20), lambda: S.NormalizedAngleInterval.fromDegrees(350, 21)], lon), ("Box3d", [lambda: polygon().getBoundingBox3d(), lambda: circle().getBoundingBox3d()], b3), ("Vector3d", [lambda: V(1, 2, 3), lambda: V(1, 2, 4)], vec), ("UnitVector3d", [lambda: U(1, 2, 3), lambda: U(1, 2, 4)], vec),
    ]
    for n, (kind, make, ops) in enumerate(kinds):
        mc.section("Python: " + kind)
        slow = kind.endswith("Pixelization") or kind == "Chunker"
        depth = 2 if slow and not mc.thorough else 3
        want = [[cold(lambda: canon(op(m()))) for name, op in ops] for m in make]
        for j, w in itertools.chain.from_iterable(map(enumerate, want)):
            if w[0] == "!":
                mc.fail("%s: %s of a new object" % (kind, ops[j][0]), w)
        for c, first in enumerate(itertools.product(range(len(ops)), repeat=depth - 1)):
            if not mc.mine(c + n):
                continue
            shared = [m() for m in make]
            state = [canon(o) for o in shared]
            for last in range(len(ops)):
                seq = first + (last,)
                mc.at(n, *seq)
                mc.state()
                # the operations go to the one object, to the other, and back
                for step, k in enumerate(seq):
                    for which in ((step + c) % 2, 1 - (step + c) % 2):
                        mc.trans()
                        try:
                            r = ops[k][1](shared[which])
                            got = canon(r)
                        except Exception as e:
                            r, got = None, "!" + type(e).__name__ + str(e)
                        if got != want[which][k]:
                            mc.fail("%s %d: %s" % (kind, which, ", ".join(ops[j][0] for j in seq[:step + 1])), "%s, by a new object %s" % (got[:300], want[which][k][:300]))
                        change(r)
                mc.trace()
                if [canon(o) for o in shared] != state:
                    mc.fail("%s object changed by %s" % (kind, ", ".join(ops[j][0] for j in seq)), str(shared))
                    shared = [m() for m in make]
            if c % 7 == 0:
                mc.sample("%s: %s" % (kind, ", ".join(ops[j][0] for j in seq)))


pymc.run(main)
