"""Which driver and bounds decide each property."""
def simple(*a, **k):
    def run(m, pid, tier, work):
        return m.simple(*a, **k)(m, pid, tier, work)
    return run

def multi(*a, **k):
    def run(m, pid, tier, work):
        return m.multi(*a, **k)(m, pid, tier, work)
    return run

def python_driver(*a, **k):
    def run(m, pid, tier, work):
        return m.python_driver(*a, **k)(m, pid, tier, work)
    return run

def configs(*a, **k):
    def run(m, pid, tier, work):
        return m.configs(*a, **k)(m, pid, tier, work)
    return run

CHECKS = {}
CHECKS["C01"] = dict(run=simple("c01_rangeset.cc"), bounds={"quick": "", "thorough": ""}, assumptions=[])
CHECKS["C02"] = dict(run=simple("c02_simplify.cc"))
CHECKS["C03"] = dict(run=simple("c03_interval.cc"))
CHECKS["C04"] = dict(run=simple("c04_lonint.cc"))
CHECKS["C05"] = dict(run=simple("c05_box.cc"))
CHECKS["C06"] = dict(run=simple("c06_orientation.cc"))
CHECKS["C07"] = dict(run=simple("c07_bigint.cc"))
CHECKS["C08"] = dict(run=simple("c08_vectors.cc"))
CHECKS["C09"] = dict(run=multi("c09_curves.cc", ["opt", "pic_nosimd"]))
NOT_APPLICABLE = {}
CHECKS["C12"] = dict(run=simple("c12_relate.cc"))
CHECKS["C13"] = dict(run=simple("c13_bounds.cc"))
CHECKS["C10"] = dict(run=multi("c10_codec.cc", ["opt", "pic_noopt"]))
CHECKS["C11"] = dict(run=simple("c11_decode.cc", "asan"))
CHECKS["C14"] = dict(run=multi("c14_hull.cc", ["opt", "asan"]))
CHECKS["C15"] = dict(run=multi("c15_compound.cc", ["opt", "asan"]))
CHECKS["C16"] = dict(run=multi("c16_pixels.cc", ["opt", "pic_nosimd", "asan"]))
CHECKS["C18"] = dict(run=multi("c18_neighbors.cc", ["opt", "asan"]))
CHECKS["C17"] = dict(run=multi("c17_envelope.cc", ["opt", "asan"]))
CHECKS["C19"] = dict(run=multi("c19_chunker.cc", ["opt", "asan"]))
CHECKS["C21"] = dict(run=simple("c21_shapes.cc"))
CHECKS["C22"] = dict(run=python_driver("c22_py.py", ref="c22_ref.cc"))
CHECKS["C23"] = dict(run=python_driver("c23_py.py"))
CHECKS["C28"] = dict(run=python_driver("c28_pos.py"))
CHECKS["C20"] = dict(run=configs("c20_impl.cc", "c20_config.cc", ["pic", "pic_nosimd", "pic_noopt", "pic_plain", "pic_clang"]))

def merge(*parts):
    """Combines the results of several drivers."""
    out, viols = {"sections": {}, "samples": {}, "outcomes": {}, "nviol": 0, "capped": False}, []
    for mg, vl in parts:
        for k in ("sections", "samples", "outcomes"):
            out[k].update(mg[k])
        out["nviol"] += mg["nviol"]
        out["capped"] = out["capped"] or mg["capped"]
        viols += vl
    return out, viols

def c24(m, pid, tier, work):
    import os
    wrap = "pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort memcpy memmove memset memcmp".split()
    exe = os.path.join(work, "drv")
    m.build("tsanhook", "c24_purity.cc", exe, link=["no-san-link", m.compile_one("dbg", os.path.join(m.V, "checks", "c24_rt.cc")),
            "-no-pie", "-pthread"] + ["-Wl,--wrap=" + w for w in wrap])
    a = m.run_shards(exe, tier, work, only=os.environ.get("MC_ONLY"), total=700 if m.QUICK else 6 * 3600)
    b = m.multi("c24_values.cc", ["opt", "asan"])(m, pid, tier, work)
    return merge(a, b, m.python_driver("c24_py.py")(m, pid, tier, work))
CHECKS["C24"] = dict(run=c24)

CHECKS["C25"] = dict(run=multi("c25_algebra.cc", ["opt", "asan", "pic_nosimd"]))
CHECKS["C26"] = dict(run=simple("c26_text.cc", "asan"))
CHECKS["C29"] = dict(run=simple("c29_measures.cc"))
CHECKS["C27"] = dict(run=simple("c27_compare.cc"))
# Cheap enough for the wider bounds on every change; "deep" widens them further in the thorough tier.
for _i in "C01 C02 C03 C04 C07 C08 C21 C25 C26 C29".split():
    CHECKS[_i]["levels"] = ("thorough", "deep")
from bounds import B, A, T  # noqa: E402
for _i, _c in CHECKS.items():
    _c["bounds"] = {"quick": B[_i][0], "thorough": B[_i][0] + "; thorough: " + B[_i][1]}
    _c["assumptions"] = ["inputs outside of the stated bounds behave like a representative inside"] + A.get(_i, [])
    _c["note"] = "Exhaustive within: " + B[_i][0]
    if _i in T:
        _c["technique"] = T[_i]
