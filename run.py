#!/usr/bin/env python3
"""Check runner: run.py <ID> quick|thorough, run.py <ID> replay <file>, run.py setup.

Builds /repo's current sources (in the variants the check needs) together with the check's driver, runs
the driver in parallel shards, filters known findings, writes /verif/evidence/<ID>.json and reports."""
import sys, os, json, hashlib, subprocess, time, tempfile, shutil, struct, signal
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SPHGEOM_REPO", "/repo")
CACHE = os.path.join(V, ".cache")
JOBS = os.cpu_count() or 4
sys.path.insert(0, os.path.join(V, "checks"))
sys.path.insert(0, V)
from registry import CHECKS  # noqa: E402

VARIANTS = {
    # name: (compiler, flags)
    "opt": ("g++", ["-O2", "-g0"]),
    "dbg": ("g++", ["-O1", "-g"]),
    "asan": ("g++", ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=alignment",
                     "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]),
    "pic": ("g++", ["-O2", "-g0", "-fPIC", "-fno-gnu-unique"]),
    "bind": ("g++", ["-O0", "-g0", "-fPIC", "-fvisibility=hidden"]),
    "pic_nosimd": ("g++", ["-O2", "-g0", "-fPIC", "-fno-gnu-unique", "-DNO_SIMD"]),
    "pic_noopt": ("g++", ["-O2", "-g0", "-fPIC", "-fno-gnu-unique", "-DNO_OPTIMIZED_PATHS"]),
    "pic_plain": ("g++", ["-O1", "-g0", "-fPIC", "-fno-gnu-unique", "-DNO_SIMD", "-DNO_OPTIMIZED_PATHS"]),
    "pic_clang": ("clang++", ["-O2", "-g0", "-fPIC"]),
    "tsanhook": ("g++", ["-O1", "-g", "-fsanitize=thread"]),
}
COMMON = ["-std=c++17", "-w", "-I", os.path.join(REPO, "include"), "-I", os.path.join(V, "mc")]


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()


def tree_hash(root, exts=(".h", ".hpp", ".inc")):
    h = hashlib.sha256()
    for d, dn, fn in sorted(os.walk(root)):
        dn.sort()
        for f in sorted(fn):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()


_hdr = None


def headers():
    global _hdr
    if _hdr is None:
        _hdr = sha(tree_hash(os.path.join(REPO, "include")), tree_hash(os.path.join(REPO, "src")),
                   tree_hash(os.path.join(V, "mc")))
    return _hdr


def compile_one(variant, src, extra=()):
    cxx, flags = VARIANTS[variant]
    with open(src, "rb") as f:
        body = f.read()
    key = sha(variant, cxx, flags, COMMON, extra, headers(), body, src,
              tree_hash(os.path.join(V, "checks")) if src.startswith(V) else "")
    os.makedirs(CACHE, exist_ok=True)
    obj = os.path.join(CACHE, key[:40] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        cmd = [cxx, *COMMON, *flags, *extra, "-c", src, "-o", tmp]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError(" ".join(cmd) + "\n" + r.stderr[-4000:])
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj


def prune_cache(limit=400 * 1024 * 1024):
    try:
        fs = [(os.path.getmtime(os.path.join(CACHE, f)), os.path.join(CACHE, f)) for f in os.listdir(CACHE)]
    except OSError:
        return
    fs.sort(reverse=True)
    tot = 0
    for _, p in fs:
        try:
            tot += os.path.getsize(p)
            if tot > limit:
                os.unlink(p)
        except OSError:
            pass


def repo_sources():
    d = os.path.join(REPO, "src")
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(".cc"))


def build(variant, driver, out, shared=False, link=(), drv_variant=None, extra=()):
    """Compile all library sources and the driver(s) and link them."""
    drivers = [driver] if isinstance(driver, str) else list(driver)
    jobs = [(variant, s, ()) for s in repo_sources()] + \
           [(drv_variant or variant, os.path.join(V, "checks", d), tuple(extra)) for d in drivers]
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda a: compile_one(*a), jobs))
    cxx, flags = VARIANTS[variant]
    fl = [f for f in flags if f.startswith("-fsanitize")]
    if "no-san-link" in link:
        fl = []
        link = [x for x in link if x != "no-san-link"]
    cmd = [cxx, *fl, *(["-shared"] if shared else []), *objs, "-o", out, *link]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd[:4]) + " ...\n" + r.stderr[-4000:])
    return out


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1",
           UBSAN_OPTIONS="print_stacktrace=1:abort_on_error=1", LC_ALL="C.UTF-8")


def read_state(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
        sec = b[:64].split(b"\0")[0].decode("ascii", "replace")
        idx = struct.unpack("6Q", b[64:112])
        prog = struct.unpack("Q", b[112:120])[0]
        return sec, idx, prog
    except Exception:
        return "?", (0,) * 6, 0


def run_shards(exe, tier, work, nshards=JOBS, only=None, hang=240, total=None, tag="", args=()):
    """Runs the driver's shards; returns (merged results, violations [(key, detail)])."""
    procs = []
    for i in range(nshards):
        out = os.path.join(work, "out%s.%d" % (tag, i))
        st = os.path.join(work, "st%s.%d" % (tag, i))
        err = open(os.path.join(work, "err%s.%d" % (tag, i)), "wb")
        cmd = [exe, "--tier", tier, "--shard", str(i), "--nshards", str(nshards), "--out", out, "--state", st, *args]
        if only is not None:
            cmd += ["--only", only]
        p = subprocess.Popen(cmd, stdout=err, stderr=err, env=ENV, start_new_session=True, cwd=work)
        procs.append([p, out, st, err, time.time(), -1, None])
    t0 = time.time()
    live = set(range(nshards))
    while live:
        time.sleep(0.05)
        for i in list(live):
            r = procs[i]
            rc = r[0].poll()
            if rc is not None:
                live.discard(i)
                continue
            now = time.time()
            prog = read_state(r[2])[2]
            if prog != r[5]:
                r[5] = prog
                r[4] = now
            elif now - r[4] > hang:
                r[6] = "hang"
                os.killpg(r[0].pid, signal.SIGKILL)
            if total and now - t0 > total:
                r[6] = "timeout"
                os.killpg(r[0].pid, signal.SIGKILL)
    merged = {"sections": {}, "samples": {}, "outcomes": {}, "nviol": 0, "capped": False}
    viols = []
    for i, r in enumerate(procs):
        r[3].close()
        rc = r[0].returncode
        if rc == 0 and os.path.exists(r[1]):
            with open(r[1]) as f:
                j = json.load(f)
            for k, v in j["sections"].items():
                a = merged["sections"].setdefault(k, [0, 0, 0])
                for q in range(3):
                    a[q] += v[q]
            for k, v in j["samples"].items():
                s = merged["samples"].setdefault(k, [])
                s.extend(v[:max(0, 2 - len(s))])
            for k, v in j["outcomes"].items():
                merged["outcomes"][k] = merged["outcomes"].get(k, 0) + v
            merged["nviol"] += j["nviol"]
            viols += [tuple(x) for x in j["viols"]]
        else:
            sec, idx, prog = read_state(r[2])
            with open(os.path.join(work, "err%s.%d" % (tag, i)), "rb") as f:
                tail = f.read()[-6000:].decode("utf-8", "replace")
            if r[6] == "timeout":
                # The time limit of the check itself: reported, but not a property violation.
                merged["capped"] = True
                print("note: shard %d stopped at the time limit in section %s %s" % (i, sec, idx))
                continue
            kind = r[6] or ("crash(rc=%s)" % rc)
            if rc == 3 and not r[6]:
                raise BuildError("driver error: " + tail)
            key = "%s|%s at %s" % (sec, "hang" if r[6] else "crash", ",".join(map(str, idx)))
            merged["nviol"] += 1
            if only is None or key == only:
                viols.append((key, kind + "\n" + tail))
    return merged, viols


def load_findings():
    known, fixed = set(), []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.rstrip("\n")
                if line.startswith("known: "):
                    # known: property=<id> key=<key> ## text
                    rest = line[len("known: "):]
                    pid = rest.split()[0].split("=", 1)[1]
                    k = rest.split("key=", 1)[1].split(" ## ")[0]
                    txt = rest.split(" ## ", 1)[1] if " ## " in rest else k
                    known.add((pid, k, txt))
    return known


def write_evidence(pid, tier, spec, merged, viols, wall, extra=None):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    st = sum(v[0] for v in merged["sections"].values())
    tr = sum(v[1] for v in merged["sections"].values())
    tc = sum(v[2] for v in merged["sections"].values())
    samples = []
    for k, v in sorted(merged["samples"].items()):
        samples += ["[%s] %s" % (k, x) for x in v]
    cov = {"states": st, "transitions": tr, "traces_validated_against_impl": tc, "samples": samples[:60],
           "exhaustive": not merged.get("capped", False),
           "per_section": {k: {"states": v[0], "transitions": v[1], "traces": v[2]}
                           for k, v in sorted(merged["sections"].items())},
           "distinct_outcomes": merged["outcomes"], "bounds": spec.get("bounds", {}).get(tier, spec.get("bounds", {}).get("quick", ""))}
    if extra:
        cov.update(extra)
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": cov, "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2),
          "violations": len(viols)}
    tmp = os.path.join(V, "evidence", "." + pid + ".tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(V, "evidence", pid + ".json"))


QUICK = True    # time limits: those of a quick check


def do_check(pid, tier):
    global QUICK
    QUICK = tier == "quick"
    spec = CHECKS[pid]
    # the bounds that the drivers use; where the wider ones are cheap, the quick check uses them as well
    depth = spec.get("levels", ("quick", "thorough"))[tier == "thorough"]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="sphmc-%s-" % pid)
    try:
        merged, viols = spec["run"](sys.modules["__main__"], pid, depth, work)
        known = {(k): t for (p, k, t) in load_findings() if p == pid}
        new = []
        seen = set()
        for k, d in viols:
            if k in known:
                if k not in seen:
                    print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
                seen.add(k)
            else:
                new.append((k, d))
        write_evidence(pid, tier, spec, merged, new, time.time() - t0)
        if not merged["sections"] and not new:
            print("error: nothing was explored")
            return 2
        st = {k: tuple(v) for k, v in merged["sections"].items()}
        for k, v in sorted(st.items()):
            print("  %-44s states=%-10d transitions=%-11d traces=%d" % (k, *v))
        if new:
            os.makedirs(os.path.join(V, "replays"), exist_ok=True)
            for n, (k, d) in enumerate(new[:int(os.environ.get("MC_SHOW", 10))]):
                path = os.path.join(V, "replays", "%s-%s.json" % (pid, sha(k)[:10]))
                with open(path, "w") as f:
                    json.dump({"property": pid, "tier": depth, "key": k, "detail": d,
                               "how": "python3 /verif/run.py %s replay %s" % (pid, path)}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (pid, path))
                print("  case: %s\n  %s" % (k, d.strip()[:1500].replace("\n", "\n  ")))
            print("%s %s: %d violating cases (%d reported)" % (pid, tier, merged["nviol"], len(new)))
            return 1
        print("%s %s: OK in %.1fs" % (pid, tier, time.time() - t0))
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)
        prune_cache()


def do_replay(pid, path):
    with open(path) as f:
        j = json.load(f)
    work = tempfile.mkdtemp(prefix="sphmc-%s-" % pid)
    try:
        os.environ["MC_ONLY"] = j["key"]
        merged, viols = CHECKS[pid]["run"](sys.modules["__main__"], pid, j["tier"], work)
        hit = [d for k, d in viols if k == j["key"]]
        print("case: " + j["key"])
        if hit:
            print("reproduced: " + hit[0])
            print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        print("not reproduced")
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def simple(driver, variant="opt", total=None, link=(), extra=()):
    """The usual shape: one driver executable, run in shards."""
    def run(m, pid, tier, work):
        exe = build(variant, driver, os.path.join(work, "drv"), link=link, extra=extra)
        return run_shards(exe, tier, work, only=os.environ.get("MC_ONLY"),
                          total=total or (760 if QUICK else 6 * 3600))
    return run


def multi(driver, variants, total=None, nshards=JOBS):
    """The same driver compiled in several build variants, one after another."""
    def run(m, pid, tier, work):
        out = {"sections": {}, "samples": {}, "outcomes": {}, "nviol": 0, "capped": False}
        viols = []
        only = os.environ.get("MC_ONLY")
        for v in variants:
            o = only
            if only is not None:
                if not only.startswith("[%s] " % v):
                    continue
                o = only[len(v) + 3:]
            exe = build(v, driver, os.path.join(work, "drv-" + v))
            mg, vl = run_shards(exe, tier, work, only=o, tag=v, nshards=nshards,
                                total=(total or (760 if QUICK else 6 * 3600)) / len(variants))
            for k, x in mg["sections"].items():
                out["sections"]["[%s] %s" % (v, k)] = x
            for k, x in mg["samples"].items():
                out["samples"]["[%s] %s" % (v, k)] = x
            for k, x in mg["outcomes"].items():
                out["outcomes"]["[%s] %s" % (v, k)] = x
            out["nviol"] += mg["nviol"]
            out["capped"] = out["capped"] or mg["capped"]
            viols += [("[%s] %s" % (v, k), d) for k, d in vl]
        return out, viols
    return run


def configs(impl, driver, variants, total=None):
    """The library and its front end as one shared object per variant; one driver that loads all of them."""
    def run(m, pid, tier, work):
        libs = []
        for v in variants:
            o = os.path.join(work, "lib-%s.so" % v)
            build(v, impl, o, shared=True, link=["-Wl,-Bsymbolic"])
            libs.append(o)
        exe = os.path.join(work, "drv")
        obj = compile_one("opt", os.path.join(V, "checks", driver))
        r = subprocess.run(["g++", obj, "-o", exe, "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-4000:])
        return run_shards(exe, tier, work, only=os.environ.get("MC_ONLY"), args=["--libs", ",".join(libs)],
                          total=total or (760 if QUICK else 6 * 3600))
    return run

PYTHON = "/opt/vp/venv/bin/python"


def build_package(dest):
    """The Python package, built from the current tree: bindings (unoptimized) on top of the optimized library."""
    src = os.path.join(REPO, "python", "lsst", "sphgeom")
    inc = subprocess.run([PYTHON, "-m", "pybind11", "--includes"], capture_output=True, text=True).stdout.split()
    suffix = subprocess.run([PYTHON, "-c", "import sysconfig; print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                            capture_output=True, text=True).stdout.strip()
    jobs = [("bind", os.path.join(src, f), tuple(inc)) for f in sorted(os.listdir(src)) if f.endswith(".cc")]
    jobs += [("pic", s, ()) for s in repo_sources()]
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda a: compile_one(*a), jobs))
    pkg = os.path.join(dest, "lsst", "sphgeom")
    os.makedirs(pkg)
    for f in os.listdir(src):
        if f.endswith(".py"):
            shutil.copy(os.path.join(src, f), pkg)
    if not os.path.exists(os.path.join(pkg, "version.py")):
        with open(os.path.join(pkg, "version.py"), "w") as f:
            f.write('__all__ = ("__version__",)\n__version__ = "0"\n')
    r = subprocess.run(["g++", "-shared", *objs, "-o", os.path.join(pkg, "_sphgeom" + suffix), "-Wl,-Bsymbolic"],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError(r.stderr[-4000:])
    return dest


def python_driver(script, ref=None, total=None):
    """A driver in Python, run against the Python package (and a C++ reference) built from the current tree."""
    def run(m, pid, tier, work):
        args = ["--pkg", build_package(os.path.join(work, "pkg"))]
        if ref:
            so = os.path.join(work, "ref.so")
            build("pic", ref, so, shared=True, link=["-Wl,-Bsymbolic"])
            args += ["--ref", so]
        exe = os.path.join(work, "drv")
        with open(exe, "w") as f:
            f.write("#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONFAULTHANDLER=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\n"
                    "unset PYTHONPATH\nexec %s %s \"$@\"\n" % (PYTHON, os.path.join(V, "checks", script)))
        os.chmod(exe, 0o755)
        return run_shards(exe, tier, work, only=os.environ.get("MC_ONLY"), args=args,
                          total=total or (700 if QUICK else 6 * 3600))
    return run


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        for tool in ("g++", "clang++", "python3"):
            if shutil.which(tool) is None:
                print("missing " + tool)
                return 1
        print("setup ok: checks build what they need from " + REPO)
        return 0
    pid, mode = sys.argv[1], sys.argv[2]
    try:
        if mode == "replay":
            return do_replay(pid, sys.argv[3])
        return do_check(pid, mode)
    except BuildError as e:
        print("error: build of the check failed\n%s" % e)
        return 2


if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
    sys.exit(main())
