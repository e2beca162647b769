"""C22: the Python interface against the library called from C++ (c22_ref.cc), and the Python protocols of its objects."""
import copy
import ctypes
import gc
import itertools
import math
import operator
import os
import pickle
import struct
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pymc  # noqa: E402

DUNDER = {"__eq__": operator.eq, "__ne__": operator.ne, "__lt__": operator.lt, "__gt__": operator.gt, "__le__": operator.le,
          "__ge__": operator.ge, "__add__": operator.add, "__sub__": operator.sub, "__mul__": operator.mul,
          "__truediv__": operator.truediv, "__and__": operator.and_, "__or__": operator.or_, "__xor__": operator.xor,
          "__iadd__": operator.iadd, "__isub__": operator.isub, "__imul__": operator.imul, "__itruediv__": operator.itruediv,
          "__iand__": operator.iand, "__ior__": operator.ior, "__ixor__": operator.ixor, "__neg__": operator.neg,
          "__invert__": operator.invert, "__len__": len, "__getitem__": operator.getitem,
          "__contains__": operator.contains, "__rmul__": lambda a, b: operator.mul(b, a)}


def hx(d):
    return "nan" if math.isnan(d) else struct.pack(">d", d).hex()


def uh(t):
    return math.nan if t == "nan" else struct.unpack(">d", bytes.fromhex(t))[0]


def main(mc):
    sys.path.insert(0, mc.args["--pkg"])
    import numpy as np
    import lsst.sphgeom as S
    assert S.__file__.startswith(mc.args["--pkg"]), S.__file__
    ref = ctypes.CDLL(mc.args["--ref"])
    for f in ("ref_table", "ref_alphabets", "ref_call"):
        getattr(ref, f).restype = ctypes.c_char_p
    table = [l.split("\t") for l in ref.ref_table().decode().splitlines()]
    alph = {l.split("\t")[0]: l.split("\t")[1:] for l in ref.ref_alphabets().decode().split("\n") if l}

    # ---- text form of Python objects, and back
    PIX = {"HTM": S.HtmPixelization, "Q3C": S.Q3cPixelization, "MQ3C": S.Mq3cPixelization}

    def canon(o):
        t = type(o)
        if o is None:
            return "none"
        if t is bool or t is np.bool_:
            return "b:%d" % o
        if t is float:
            return "d:" + hx(o)
        if t is int:
            return "i:%d" % o
        if t is str:
            return "s:" + o
        if t is bytes:
            return "y:" + o.hex()
        if t is list:
            return "[" + ";".join(map(canon, o)) + "]"
        if t is tuple:
            return "(" + ";".join(map(canon, o)) + ")"
        if t is S.Angle:
            return "A:" + hx(o.asRadians())
        if t is S.NormalizedAngle:
            return "N:" + hx(o.asRadians())
        if t is S.LonLat:
            return "L:" + hx(o.getLon().asRadians()) + "," + hx(o.getLat().asRadians())
        if t is S.Vector3d:
            return "V:" + ",".join(hx(o[i]) for i in range(3))
        if t is S.UnitVector3d:
            return "U:" + ",".join(hx(o[i]) for i in range(3))
        if t is S.Matrix3d:
            return "M:" + ",".join(hx(o[i, j]) for i in range(3) for j in range(3))
        if t is S.Interval1d:
            return "I1:" + hx(o.getA()) + "," + hx(o.getB())
        if t is S.AngleInterval:
            return "AI:" + hx(o.getA().asRadians()) + "," + hx(o.getB().asRadians())
        if t is S.NormalizedAngleInterval:
            return "NI:" + hx(o.getA().asRadians()) + "," + hx(o.getB().asRadians())
        if t is S.Box3d:
            return "B3:" + ",".join(hx(i.getA()) + "," + hx(i.getB()) for i in (o.x(), o.y(), o.z()))
        if isinstance(o, S.Region):
            return "R:" + o.encode().hex()
        if t is S.RangeSet:
            return "RS:" + "".join("%d-%d," % r for r in o.ranges())
        for k, c in PIX.items():
            if t is c:
                return "%s:%d" % (k, o.getLevel())
        if t is S.Chunker:
            return "CH:%d,%d" % (o.numStripes, o.numSubStripesPerStripe)
        return "?%s" % t.__name__

    def parse(s):
        k, v = s.split(":", 1)
        if k.startswith("["):
            return [parse(x) for x in s[1:-1].split(";")] if len(s) > 2 else []
        f = (lambda: [uh(x) for x in v.split(",")])
        if k == "d":
            return uh(v)
        if k == "b":
            return v == "1"
        if k == "i":
            return int(v)
        if k == "s":
            return v
        if k == "y":
            return bytes.fromhex(v)
        if k == "A":
            return S.Angle(uh(v))
        if k == "N":
            return S.NormalizedAngle(uh(v))
        if k == "L":
            return S.LonLat.fromRadians(*f())
        if k == "V":
            return S.Vector3d(*f())
        if k == "U":
            u = S.UnitVector3d.__new__(S.UnitVector3d)
            u.__setstate__(tuple(f()))
            return u
        if k == "M":
            return S.Matrix3d(*f())
        if k == "I1":
            return S.Interval1d(*f())
        if k == "AI":
            return S.AngleInterval(*[S.Angle(x) for x in f()])
        if k == "NI":
            a, b = f()
            if (a, b) == (0.0, 2 * math.pi):
                return S.NormalizedAngleInterval.full()
            return S.NormalizedAngleInterval(S.NormalizedAngle(a), S.NormalizedAngle(b))
        if k == "B3":
            a = f()
            return S.Box3d(S.Interval1d(a[0], a[1]), S.Interval1d(a[2], a[3]), S.Interval1d(a[4], a[5]))
        if k == "R":
            return S.Region.decode(bytes.fromhex(v))
        if k == "RS":
            return S.RangeSet([tuple(map(int, x.split("-"))) for x in v.split(",") if x])
        if k == "CH":
            return S.Chunker(*map(int, v.split(",")))
        return PIX[k](int(v))

    def build(s):
        if s.startswith("["):
            return [parse(x) for x in s[1:-1].split(";")] if len(s) > 2 else []
        return parse(s)

    # ---- the objects of the alphabets can be rebuilt from their values
    mc.section("values")
    for ti, (t, vals) in enumerate(alph.items()):
        for i, v in enumerate(vals):
            if mc.mine(i):
                mc.at(ti, i)
                mc.state()
                got = canon(build(v))
                if t == "bool":
                    got = canon(bool(build(v)))
                if got != v:
                    mc.fail("%s %d" % (t, i), "%s became %s" % (v, got))

    def function(name):
        """The Python callable for an operation of the table."""
        if name.startswith("@"):
            fn = getattr(S, name[1:])
            if name[1:] in ("mortonToHilbert", "hilbertToMorton", "hilbertIndex", "hilbertIndexInverse"):
                return lambda *a: fn(*a[:-1], a[-1] & 31)
            return fn
        if name.endswith("()"):
            cls = getattr(S, name[:-2])
            if name == "Chunker()":
                def mk(a, b):
                    if a > 1000 or b > 100:
                        raise RuntimeError("skip")
                    return cls(a, b)
                return mk
            return cls
        if "::" in name:
            c, m = name.split("::")
            return getattr(getattr(S, c), m)
        if ":" in name:
            return operator.attrgetter(name.split(":")[1])
        c, m = name.split(".")
        if m.startswith("item"):
            return lambda a, *i: a[tuple(i)]
        if m in DUNDER:
            return DUNDER[m]
        return lambda o, *a: getattr(o, m)(*a)

    raw = {"getRegions"}

    def show(name, r):
        if name.endswith("::getRegions"):
            return "s:" + canon(r)
        if name.startswith("@") and isinstance(r, np.generic):
            r = r.item()
        return canon(r)

    CAP = 300000 if mc.thorough else 6000

    def cases(sizes):
        total = math.prod(sizes)
        if total <= CAP:
            return list(itertools.product(*map(range, sizes)))
        n = len(sizes)
        got = []
        seen = set()
        # every pair of positions takes every pair of values; the others cycle
        bases = range(3 if mc.thorough else 1)
        for b in bases:
            for p, q in itertools.combinations(range(n), 2):
                for i in range(sizes[p]):
                    for j in range(sizes[q]):
                        k = [(i * 3 + j * 5 + r * 7 + b) % sizes[r] for r in range(n)]
                        k[p], k[q] = i, j
                        k = tuple(k)
                        if k not in seen:
                            seen.add(k)
                            got.append(k)
        if len(got) < CAP:
            step = max(1, total // CAP)
            for x in range(0, total, step):
                k = []
                for s in sizes:
                    k.append(x % s)
                    x //= s
                k = tuple(k)
                if k not in seen:
                    seen.add(k)
                    got.append(k)
        return got

    def mutate(o):
        """Changes an object in place, as far as it can be changed."""
        t = type(o)
        if t in (S.Angle,):
            o += S.Angle(1.0)
        elif t is S.Vector3d:
            o += S.Vector3d(1, 1, 1)
        elif t is S.Interval1d:
            o.expandTo(S.Interval1d(-77, 77))
        elif t in (S.AngleInterval,):
            o.expandTo(S.AngleInterval.fromRadians(-55, 66))
        elif t is S.NormalizedAngleInterval:
            o.expandTo(S.NormalizedAngleInterval.full())
        elif t is S.Box3d:
            o.expandTo(S.Box3d.full())
        elif t is S.Box:
            o.expandTo(S.Box.full())
        elif t is S.Circle:
            o.expandTo(S.Circle.full())
        elif t is S.Ellipse:
            o.complement()
        elif t is S.RangeSet:
            o.complement()
        elif t in (list, tuple):
            for x in o:
                mutate(x)

    # ---- every operation, for all combinations of arguments
    mc.section("operations against C++")
    for oi, row in enumerate(table):
        name, types = row[0], row[1:]
        try:
            fn = function(name)
        except AttributeError as e:
            if mc.shard == 0:
                mc.fail(name, "not exposed: %s" % e)
            continue
        vals = [alph[t] for t in types]
        karr = ctypes.c_int * max(1, len(types))
        for n, k in enumerate(cases([len(v) for v in vals])):
            if not mc.mine(n + oi):
                continue
            mc.at(oi, n)
            mc.state()
            want = ref.ref_call(oi, karr(*k)).decode()
            args = [build(vals[i][j]) for i, j in enumerate(k)]
            if types and types[-1] == "bool" or "bool" in types:
                args = [bool(a) if t == "bool" else a for a, t in zip(args, types)]
            label = "%s(%s)" % (name, ", ".join("%s#%d" % (t, j) for t, j in zip(types, k)))
            try:
                r = fn(*args)
                got = " | ".join([show(name, r)] + [canon(a) for a in args])
            except Exception as e:
                r = None
                got = "!" + type(e).__name__
            mc.trans()
            if got != want:
                mc.fail(label, "Python: %s\nC++:    %s" % (got[:600], want[:600]))
                continue
            mc.outcome("exception" if want[0] == "!" else "value")
            if n < 2:
                mc.sample(label + " = " + got[:120])
            if want[0] == "!":
                continue
            # the same object in both places
            same = [i for i in range(1, len(k)) if types[i] == types[0] and k[i] == k[0] and isinstance(args[0], object) and types[0] not in ("double", "int", "u64", "u32", "bool", "idx", "bytes", "units")]
            if same and len(types) == 2:
                a = build(vals[0][k[0]])
                try:
                    r2 = fn(a, a)
                    got2 = show(name, r2) + " | " + canon(a)
                except Exception as e:
                    got2 = "!" + type(e).__name__
                mc.trace()
                if got2 != " | ".join(want.split(" | ")[:2]):
                    mc.fail(label + " same object", "%s, with two objects %s" % (got2, want))
            # results do not share state with the arguments, and outlive them
            if r is not None and not any(r is a for a in args) and (n % 7 == 0 or n < 50):
                before = canon(r)
                mutate(r)
                after = " | ".join(canon(a) for a in args)
                if after != " | ".join(want.split(" | ")[1:]):
                    mc.fail(label + " shared result", "changing the result turns the arguments into %s" % after)
                args2 = [build(vals[i][j]) for i, j in enumerate(k)]
                r2 = fn(*args2)
                for a in args2:
                    mutate(a)
                del args2
                junk = [build(vals[i][j]) for i, j in enumerate(k) for _ in range(3)]
                if canon(r2) != before and show(name, r2) != want.split(" | ")[0]:
                    mc.fail(label + " lifetime", "the result turns from %s into %s" % (before, canon(r2)))
                del junk
                mc.trace()

    # ---- keyword arguments
    mc.section("keyword arguments")
    import c22_kw
    for i, (name, types, kws) in enumerate(c22_kw.TABLE):
        if not mc.mine(i):
            continue
        fn = function(name)
        method = "." in name
        vals = [alph[t] for t in types]
        karr = ctypes.c_int * max(1, len(types))
        idx = [j for j, row in enumerate(table) if row[0] == name and row[1:] == types]
        for n, k in enumerate(cases([len(v) for v in vals])):
            if n > 200:
                break
            mc.at(i, n)
            mc.state()
            if name == "Chunker()" and (int(vals[0][k[0]][2:]) > 1000 or int(vals[1][k[1]][2:]) > 100):
                continue
            args = [build(vals[a][j]) for a, j in enumerate(k)]
            want = ref.ref_call(idx[0], karr(*k)).decode().split(" | ")[0]
            try:
                if method:
                    r = getattr(args[0], name.split(".")[1])(**dict(zip(kws, args[1:])))
                elif name == "Chunker()":
                    r = S.Chunker(**dict(zip(kws, args)))
                elif name.startswith("@"):
                    r = getattr(S, name[1:])(**dict(zip(kws, args)))
                    if name[1:] in ("mortonToHilbert", "hilbertToMorton", "hilbertIndex", "hilbertIndexInverse") and args[-1] != args[-1] & 31:
                        continue
                else:
                    r = fn(**dict(zip(kws, args)))
                got = show(name, r)
            except Exception as e:
                got = "!" + type(e).__name__
            mc.trans()
            if got != want:
                mc.fail("%s(%s) %s" % (name, ", ".join(kws), k), "with keywords %s, C++ %s" % (got[:300], want[:300]))
                break
        mc.sample("%s(%s)" % (name, ", ".join(kws)))

    # ---- copies, pickles, YAML and representations
    mc.section("copies and serialized forms")
    classes = ["Angle", "NormalizedAngle", "LonLat", "Vector3d", "UnitVector3d", "Matrix3d", "Interval1d", "AngleInterval",
               "NormalizedAngleInterval", "Box3d", "Region", "RangeSet", "HtmPixelization", "Q3cPixelization", "Mq3cPixelization", "Chunker"]
    zoo = []
    for t in classes:
        for i, v in enumerate(alph[t]):
            zoo.append(("%s#%d" % (t, i), v))
    # all results of operations up to a number, as further values
    extra = set()
    for oi, row in enumerate(table):
        sizes = [len(alph[t]) for t in row[1:]]
        for n, k in enumerate(cases(sizes)[:: 1 if mc.thorough else 7]):
            if n > (400 if mc.thorough else 40):
                break
            w = ref.ref_call(oi, (ctypes.c_int * max(1, len(k)))(*k)).decode().split(" | ")[0]
            if w[0] not in "![(" and not (w.startswith("B3:") and "nan" in w) and w.split(":")[0] not in ("d", "b", "i", "s", "y", "none") and w not in extra:
                extra.add(w)
    known = {v for _, v in zoo}
    for n, w in enumerate(sorted(extra - known)):
        zoo.append(("result %s" % (w if len(w) < 60 else "%s...%s" % (w[:30], w[-20:])), w))
    import yaml
    ns = {k: getattr(S, k) for k in dir(S)}
    ns.update(nan=math.nan, inf=math.inf)

    def close(a, b):
        """Text forms that agree up to the rounding of unit vectors."""
        if a == b:
            return True
        try:
            x, y = build(a), build(b)
        except Exception:
            return False
        if type(x) is not type(y):
            return False

        def nums(o):
            if isinstance(o, S.Box):
                return [v.asRadians() for v in (o.getLon().getA(), o.getLon().getB(), o.getLat().getA(), o.getLat().getB())]
            if isinstance(o, S.Circle):
                return list(map(float, (o.getCenter().x(), o.getCenter().y(), o.getCenter().z()))) + [o.getSquaredChordLength()]
            if isinstance(o, S.Ellipse):
                m = o.getTransformMatrix()
                return [m[i, j] for i in range(3) for j in range(3)] + [o.getAlpha().asRadians(), o.getBeta().asRadians(), o.getGamma().asRadians()]
            if isinstance(o, S.ConvexPolygon):
                return [v[i] for v in o.getVertices() for i in range(3)]
            if isinstance(o, S.CompoundRegion):
                return nums(o.cloneOperand(0)) + nums(o.cloneOperand(1))
            if isinstance(o, S.UnitVector3d):
                return [o[0], o[1], o[2]]
            return None
        if not isinstance(x, S.CompoundRegion) and x == y:
            return True
        p, q = nums(x), nums(y)
        tol = 1e-14
        if isinstance(x, S.Ellipse) and 0 < y.getGamma().asRadians() < 0.1:
            tol = 1e-15 / y.getGamma().asRadians()    # (the foci determine the orientation)
        return p is not None and q is not None and len(p) == len(q) and all(u == v or (u != u and v != v) or abs(u - v) < tol for u, v in zip(p, q))

    for zi, (label, text) in enumerate(zoo):
        if not mc.mine(zi):
            continue
        mc.at(zi)
        mc.state()
        o = build(text)
        if isinstance(o, S.Region):
            mc.trans()
            e = o.encode()
            if type(o).TYPE_CODE != (e if isinstance(e, bytes) else bytes(e))[0] or S.Region.decode(e).TYPE_CODE != type(o).TYPE_CODE:
                mc.fail("%s type code" % label, "%r, encoded as %r" % (type(o).TYPE_CODE, e[:1]))
        forms = [("copy", lambda: copy.copy(o)), ("deepcopy", lambda: copy.deepcopy(o)), ("deepcopy in a list", lambda: copy.deepcopy([o, o])[1])]
        for p in range(pickle.HIGHEST_PROTOCOL + 1):
            if p < 2 and isinstance(o, (S.Region, S.UnitVector3d, S.Interval1d, S.AngleInterval, S.NormalizedAngleInterval)):
                continue   # (these need a protocol that can store an object without calling its constructor)
            forms.append(("pickle protocol %d" % p, lambda p=p: pickle.loads(pickle.dumps(o, p))))
        if isinstance(o, (S.Region, S.Pixelization)):
            y = yaml.dump(o)
            for L in ("Loader", "FullLoader", "SafeLoader", "UnsafeLoader", "CLoader"):
                if hasattr(yaml, L):
                    forms.append(("YAML " + L, lambda L=L: yaml.load(y, Loader=getattr(yaml, L))))
            forms.append(("YAML in a structure", lambda: yaml.load(yaml.dump({"a": [o, 1], "b": 2}), Loader=yaml.SafeLoader)["a"][0]))
        if hasattr(o, "clone"):
            forms.append(("clone", lambda: o.clone()))
        for fname, f in forms:
            mc.trans()
            try:
                d = f()
            except Exception as e:
                mc.fail("%s %s" % (label, fname), "raises %s: %s" % (type(e).__name__, e))
                continue
            if type(d) is not type(o) or canon(d) != text:
                mc.fail("%s %s" % (label, fname), "%s became %s %s" % (text, type(d).__name__, canon(d)))
                continue
            mutate(d)
            if canon(o) != text:
                mc.fail("%s %s independence" % (label, fname), "changing the copy changed the original into %s" % canon(o))
            mc.trace()
        mc.trans()
        try:
            str(o)
            if text.startswith("U:nan") or (isinstance(o, S.Ellipse) and label.startswith("result")):
                continue   # (not a position; the foci of an arbitrary ellipse do not determine it precisely enough)
            d = eval(repr(o), dict(ns))
            if type(d) is not type(o) or not close(canon(d), text):
                mc.fail("%s repr" % label, "%s evaluates to %s %s, not %s" % (repr(o)[:400], type(d).__name__, canon(d)[:400], text[:400]))
        except Exception as e:
            mc.fail("%s repr" % label, "%s: %s: %s" % (repr(o)[:400], type(e).__name__, e))
        # a copy is equal, unless a component is not a number
        if not isinstance(o, S.CompoundRegion) and "nan" not in text:
            d = build(text)
            if not (d == o) or (d != o):
                mc.fail("%s equality" % label, "%s is not equal to itself" % text)

    # ---- equality with objects of other types
    mc.section("comparison with other types")
    defined = {(row[1], row[2]) for row in table if row[0].endswith(".__eq__")} | {("UnitVector3d", "Vector3d"), ("Angle", "NormalizedAngle")}
    short = {"d": "double", "i": "double"}
    reps = [(t, alph[t][min(2, len(alph[t]) - 1)]) for t in classes if t != "Region"] + [(c, alph[c][min(2, len(alph[c]) - 1)]) for c in ("Box", "Circle", "Ellipse", "ConvexPolygon")]
    others = [("double", 1.5), ("double", 3), ("str", "x"), ("NoneType", None), ("object", object()), ("tuple", (1.0, 2.0)), ("list", [1]), ("type", int), ("dict", {})]
    mc.state(len(reps))
    for i, (t, v) in enumerate(reps):
        for j, (u, w) in enumerate([(u, build(w)) for u, w in reps] + others):
            if t == u or not mc.mine(i * 64 + j):
                continue
            mc.at(i, j)
            a = build(v)
            if (t, u) in defined or (u, t) in defined:
                continue
            mc.trans()
            for op, want in ((operator.eq, False), (operator.ne, True)):
                try:
                    r = op(a, w)
                except Exception as e:
                    r = "%s: %s" % (type(e).__name__, str(e)[:80])
                if r is not want:
                    mc.fail("%s %s %s" % (t, op.__name__, u), "gives %r" % (r,))
                try:
                    r = op(w, a)
                except Exception as e:
                    r = "%s: %s" % (type(e).__name__, str(e)[:80])
                if r is not want:
                    mc.fail("%s %s %s reflected" % (u, op.__name__, t), "gives %r" % (r,))

    # ---- sequences
    mc.section("sequences")
    for i, (t, n) in enumerate((("Vector3d", 3), ("UnitVector3d", 3), ("LonLat", 2), ("Box3d", 3), ("Matrix3d", 3), ("RangeSet", None))):
        for j, v in enumerate(alph[t]):
            if not mc.mine(i + j):
                continue
            mc.at(i, j)
            mc.state()
            o = build(v)
            m = len(o)
            if n is not None and m != n:
                mc.fail("%s#%d len" % (t, j), m)
            key = "%s#%d" % (t, j)
            try:
                items = [canon(x) for x in o]
            except Exception as e:
                items = repr(e)
            at = [canon(o[q]) for q in range(m)]
            if items != at:
                mc.fail(key + " iteration", "%s but items are %s" % (items, at))
            for q in list(range(-m - 4, m + 4)) + [s * 2 ** p + d for s in (1, -1) for p in (31, 32, 63, 64, 65) for d in (-1, 0, 1)]:
                mc.trans()
                try:
                    got = canon(o[q])
                except IndexError:
                    got = "IndexError"
                except (OverflowError, TypeError, ValueError) as e:
                    # an index that does not fit into any machine integer may be rejected differently
                    got = "IndexError" if abs(q) >= 2 ** 31 - 1 else type(e).__name__
                want = at[q] if -m <= q < m else "IndexError"
                if got != want:
                    mc.fail("%s index %d" % (key, q), "gives %s not %s" % (got, want))
            for bad in (None, "0", 0.0, 1.5, object()):
                try:
                    r = o[bad]
                    mc.fail("%s index %r" % (key, bad), "gives %r" % (r,))
                except (TypeError, IndexError, ValueError):
                    pass

    # ---- vectorised membership
    mc.section("vectorised membership")
    vals = [0.0, 0.3, 1.0, -1.0, 2.5, -0.7, 6.0, 1e-3]
    regs = alph["Region"]
    for ri, rt in enumerate(regs):
        if not mc.mine(ri):
            continue
        r = build(rt)
        base = np.array([vals[(i * 5 + i // 8) % 8] for i in range(48)], dtype=float)
        b2 = np.array([vals[(i * 3 + 1 + i // 8) % 8] for i in range(48)], dtype=float)
        b3 = np.array([vals[(i * 7 + 2) % 8] + 0.01 for i in range(48)], dtype=float)
        layouts = [("1-d", lambda a: a[:12].copy()), ("strided", lambda a: a[::4]), ("reversed", lambda a: a[:12][::-1]), ("2-d", lambda a: a[:12].reshape(3, 4).copy()),
                   ("transposed", lambda a: a[:12].reshape(3, 4).T), ("Fortran", lambda a: np.asfortranarray(a[:12].reshape(4, 3))), ("3-d", lambda a: a[:24].reshape(2, 3, 4).copy()),
                   ("window", lambda a: a[:36].reshape(6, 6)[1:5, 2:5]), ("float32", lambda a: a[:12].astype(np.float32)), ("integers", lambda a: (a[:12] * 3).astype(np.int64)),
                   ("big-endian", lambda a: a[:12].astype(">f8")), ("list", lambda a: a[:6].tolist()), ("nested list", lambda a: a[:6].reshape(2, 3).tolist()), ("empty", lambda a: a[:0]),
                   ("empty 2-d", lambda a: np.zeros((0, 3))), ("0-d", lambda a: np.array(a[3])), ("scalar", lambda a: float(a[5])), ("numpy scalar", lambda a: np.float64(a[5])), ("int", lambda a: int(a[2] * 2)),
                   ("column", lambda a: a[:3].reshape(3, 1)), ("row", lambda a: a[3:7].reshape(1, 4)), ("readonly", lambda a: (lambda c: (c.setflags(write=False), c)[1])(a[:12].copy()))]
        for li, (ln, lf) in enumerate(layouts):
            for lj, (lm, lg) in enumerate(layouts):
                if not mc.thorough and (li != lj and ln not in ("scalar", "column", "1-d") and lm not in ("scalar", "row")):
                    continue
                for nargs in (2, 3):
                    mc.at(ri, li, lj, nargs)
                    mc.state()
                    a, b = lf(base), lg(b2 if nargs == 3 or lj % 5 == 4 else b2 / 4)   # (some latitudes are out of range)
                    args = [a, b] if nargs == 2 else [a, b, lf(b3) if lj % 2 else lg(b3)]
                    keep = [np.array(x, copy=True) for x in args]
                    try:
                        br = np.broadcast_arrays(*[np.asarray(x, dtype=float) for x in args])
                    except ValueError:
                        br = None
                    key = "region#%d %s/%s %d" % (ri, ln, lm, nargs)
                    if br is not None:
                        want = np.zeros(br[0].shape, dtype=bool)
                        try:
                            for ix in np.ndindex(*br[0].shape):
                                p = [float(x[ix]) for x in br]
                                u = S.UnitVector3d(*p) if nargs == 3 else S.UnitVector3d(S.LonLat.fromRadians(*p))
                                want[ix] = r.contains(u)
                        except Exception as e:
                            want = type(e).__name__
                    else:
                        want = "ValueError"
                    for form in ("region",) if not mc.thorough else ("region", "class"):
                        try:
                            got = r.contains(*args) if form == "region" else type(r).contains(r, *args)
                        except Exception as e:
                            got = type(e).__name__
                        mc.trans()
                        if isinstance(want, str) or isinstance(got, str):
                            ok = isinstance(want, str) and isinstance(got, str)
                        else:
                            g = np.asarray(got)
                            ok = g.dtype == bool and g.shape == want.shape and (g == want).all()
                            if want.shape == () and not isinstance(got, (bool, np.bool_)) and not (isinstance(got, np.ndarray) and got.shape == ()):
                                ok = False
                        if not ok:
                            mc.fail(key + " " + form, "%r but one by one %r" % (got, want))
                        mc.trace()
                    for x, y in zip(args, keep):
                        if not np.array_equal(np.asarray(x), y):
                            mc.fail(key + " input changed")

    # ---- unusable arguments are rejected
    mc.section("unusable arguments")
    wrong = {"u64": [-1, 2 ** 64, 0.5, None, "1", object(), -2 ** 63 - 1, math.nan], "u32": [-1, 2 ** 32, 0.5, None, "1"],
             "int": [2 ** 31, -2 ** 31 - 1, 2 ** 64, 0.5, None, "1", object()], "double": [None, "1", object(), 1j, [1.0], 10 ** 400],
             "idx": [None, 0.5, "0", object()]}
    objects = [None, 1, 0.5, "x", b"x", object(), [], {}, (1, 2), int, 10 ** 30]
    opargs = {}
    for row in table:
        opargs.setdefault(row[0], []).append(row[1:])
    for oi, row in enumerate(table):
        name, types = row[0], row[1:]
        if not mc.mine(oi) or not types:
            continue
        m = name.split(".")[-1]
        if m in ("__eq__", "__ne__"):
            continue
        fn = function(name)
        if name == "Chunker()":
            fn = S.Chunker
        base = [build(alph[t][1 % len(alph[t])]) for t in types]
        if "hilbert" in name.lower() and "morton" in name.lower() or "hilbertIndex" in name:
            fn = getattr(S, name[1:])
        for p, t in enumerate(types):
            if p == 0 and "." in name:
                continue
            bad = wrong.get(t, objects)
            # other overloads of the operation that take something else here
            alternatives = {a[p] for a in opargs[name] if len(a) == len(types)} - {t}
            for bi, b in enumerate(bad):
                if "double" in alternatives and isinstance(b, (int, float)) and b != 10 ** 400:
                    continue
                if ("int" in alternatives or t == "rel" or ".item" in name) and isinstance(b, (int, float, str)):
                    continue
                if "u64" in alternatives and isinstance(b, int) and 0 <= b < 2 ** 64:
                    continue
                if t == "u32" and name.startswith("Pixelization.") and b == 2 ** 32:
                    continue
                if t == "units" and isinstance(b, (list, tuple, dict)):
                    continue
                if name == "RangeSet()" and isinstance(b, (list, tuple, dict, bytes, str)):
                    continue
                if name.endswith(".contains") and t == "double" and (b is None or isinstance(b, (list, str))):
                    continue    # array-like arguments are converted by numpy
                if name.endswith(".contains") and t in ("UnitVector3d",) and len(types) == 2:
                    pass
                mc.at(oi, p, bi)
                mc.state()
                args = [build(alph[q][1 % len(alph[q])]) for q in types]
                args[p] = b
                before = canon(args[0]) if "." in name else None
                mc.trans()
                try:
                    r = fn(*args)
                except Exception as e:
                    mc.outcome("rejected with " + type(e).__name__)
                    if before is not None and canon(args[0]) != before:
                        mc.fail("%s argument %d (%s) = %r" % (name, p, t, b), "raises %s but changes the object from %s to %s" % (type(e).__name__, before, canon(args[0])))
                    continue
                if m == "__contains__" and r is False:
                    continue
                mc.fail("%s argument %d (%s) = %s" % (name, p, t, "object()" if type(b) is object else repr(b)[:40]), "is accepted: %s" % canon(r)[:200])

    # ---- other numbers of arguments are rejected
    mc.section("numbers of arguments")
    arity = {name: {len(a) for a in al} for name, al in opargs.items()}
    samples = [build(alph[t][2 % len(alph[t])]) for t in ("double", "u64", "Angle", "UnitVector3d", "Vector3d", "Region", "RangeSet", "LonLat")]
    for ni, name in enumerate(sorted(arity)):
        if not mc.mine(ni) or name.split(".")[-1] in DUNDER or ".item" in name or ":" in name.replace("::", ""):
            continue
        fn = getattr(S, name[1:]) if name.startswith("@") else S.Chunker if name == "Chunker()" else function(name)
        for ai, al in enumerate(opargs[name]):
            for n in range(1 if "." in name and "::" not in name else 0, max(arity[name]) + 3):
                if n in arity[name]:
                    continue
                for e in range(len(samples) if n > len(al) else 1):
                    args = ([build(alph[t][1 % len(alph[t])]) for t in al] + [samples[(e + i) % len(samples)] for i in range(n)])[:n]
                    mc.at(ni, ai, n, e)
                    mc.state()
                    mc.trans()
                    if name == "RangeSet()" or (name.endswith(".contains") and n == 2 and "Box3d" not in name and not any(isinstance(a, S.Region) and a is not args[0] for a in args)):
                        continue
                    try:
                        r = fn(*args)
                    except Exception:
                        continue
                    mc.fail("%s with %d arguments %r" % (name, n, args), "is accepted: %s" % canon(r)[:200])

    # ---- (IVOA POS strings: see c28_pos.py)
    mc.section("class relations")
    if mc.shard == 0:
        for a, b in (("Box", "Region"), ("Circle", "Region"), ("Ellipse", "Region"), ("ConvexPolygon", "Region"), ("CompoundRegion", "Region"),
                     ("UnionRegion", "CompoundRegion"), ("IntersectionRegion", "CompoundRegion"), ("HtmPixelization", "Pixelization"), ("Q3cPixelization", "Pixelization"), ("Mq3cPixelization", "Pixelization")):
            mc.state()
            mc.trans()
            if not issubclass(getattr(S, a), getattr(S, b)):
                mc.fail("%s is not a %s" % (a, b))
        for name in ("HtmPixelization", "Q3cPixelization", "Mq3cPixelization", "HealpixPixelization"):
            if not issubclass(getattr(S, name), S.PixelizationABC):
                mc.fail(name + " is not a PixelizationABC")


pymc.run(main)
