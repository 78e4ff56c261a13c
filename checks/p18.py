#!/usr/bin/env python3
"""P18: native resources and memory safety of the language bindings.

A preloaded ledger watches every call between an interface and the engine: it lets chosen calls fail, and accounts for every native
object. The address and undefined behaviour sanitizers watch the interfaces under the histories of the other checks and under misuse."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, inject, drivers as D

KINDS = ("py", "cc", "lua", "apy", "acc")
WORKERS = ["w01", "w03", "w03b", "w04", "w05", "w11", "w12", "w13", "w16", "w18"]
LIFE = f"{vf.VERIF}/drv/life.cc"


def asan(rec, kind, cases, ledger, leaks):
    ee = {"DRV_GC": "1"}
    cmd, env = D.command(kind, "asan")
    if ledger: ee["LD_PRELOAD"] = D.preload("asan") + " " + inject.build_ledger()
    if leaks: ee["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
    r = D.run_batch(kind, cases, 600, san="asan", cwd=rec.cwd, extra_env=ee)
    for c, x in zip(cases, r):
        if isinstance(x, D.Crash):
            if x.what.startswith("exit code -8 ") or D.engine_fault(x.what): rec.count("engine_crashes")      # division in the engine
            elif "LeakSanitizer has encountered a fatal error" in x.what: rec.count("leak_detection_unavailable")
            else: rec.violation(f"{kind}-sanitizer-{site(x.what)}", x.what, {"driver": kind, "ops": c, "sanitizer": "asan"})
        else:
            rec.case(("asan", kind, "\n".join(c)), n=len(c))
            rec.count(f"sanitized_{kind}")


def site(what):
    """Where in the interface something was reported."""
    for l in what.split("\n"):
        if l.strip().startswith("#") and vf.REPO in l: return l.split(vf.REPO)[-1].split(":")[0].strip("/") + ":" + l.split(" in ")[-1].split("(")[0].split("::")[-1][:40]
        if "runtime error" in l: return l[:80]
    return what[:60]


def check(chk):
    inject.build_ledger()
    for k in KINDS:
        D.command(k)
        D.command(k, "asan")
    n, per = vf.scale(110, 600), vf.scale(12, 25)
    # heavier kinds get several shards
    plan = [(k, i) for k in KINDS for i in range({"apy": 3, "py": 2, "lua": 2}.get(k, 1))]

    def shard(rec, idx):
        kind, part = plan[idx]
        rec.cwd = vf.tmpdir()
        rng = rec.rng
        m = n // (3 if kind == "apy" else 2 if kind in ("py", "lua") else 1)
        if kind[0] == "a": m = m // 2
        inject.run(rec, kind, m, per, rng)
        src = inject.SOURCES if kind[0] != "a" else ("p03",)
        cases = [inject.corpus(rng, src[i % len(src)], kind) for i in range(m)]
        # the installed engine reads past the end of empty configuration values
        cases = [[o for o in c if not (o.startswith("confset") and o.endswith("\t%"))] for c in cases]
        asan(rec, kind, cases, part == 0 and kind in ("py", "lua"), kind in ("cc", "acc"))
        shutil.rmtree(rec.cwd)
    vf.shards(chk, shard, len(plan))

    seeds = [vf.SEED * 100 + i for i in range(vf.scale(3, 12))]
    ledger = inject.build_ledger()
    pre = D.preload("asan") + " "
    # life times in C++
    for san, env in (("asan", {"LD_PRELOAD": pre + ledger}), ("", {"LD_PRELOAD": ledger})):
        e = vf.base_env()
        e.update(env)
        if san:
            vf.san_env(e, san)
            e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
        vf.cc_runs(chk, vf.build_cc("life", LIFE, san=san, flags=("-g",)), [(s, vf.scale(20, 150)) for s in seeds], env=e, label="life" + san, san=san)
    # workers written for other checks and for life times in Python
    for nm in WORKERS:
        k = vf.scale(15, 120)
        bs = [{"seed": s, "n": k * (3 if nm in ("w18", "w03b") else 1)} for s in seeds[:2]]
        vf.py_batches(chk, vf.VERIF + "/checks/w18run.py", vf.build_py(), bs, args=(nm,), extra_env={"LD_PRELOAD": ledger, "VF_ZERO": inject.ZERO})
        vf.py_batches(chk, f"{vf.VERIF}/checks/{nm}.py", vf.build_py(san="asan"), bs, san="asan")
    # misuse in Lua
    d = vf.tmpdir()
    runs = [("", {"LD_PRELOAD": ledger, "VF_ZERO": inject.ZERO}), ("asan", {"LD_PRELOAD": pre, "PYTHONMALLOC": "malloc"})]
    for san, env in runs:
        e = vf.base_env()
        e.update(env)
        e["LUA_CPATH"] = vf.build_lua(san=san) + "/?.so"
        vf.cc_runs(chk, "lua5.4", [(f"{vf.VERIF}/drv/misuse.lua", s, vf.scale(40, 200)) for s in seeds * 2], san=san, env=e, label="misuse" + san, cwd=d)
    shutil.rmtree(d)


TECHNIQUE = "runtime monitoring: preloaded ledger of native objects with fault injection at every engine call, address/leak/undefined behaviour sanitizers, shadowed lifetime fuzzing"
if __name__ == "__main__": vf.main(check, "P18", rule="distinct histories, failing calls and lifetime sequences observed under the ledger or the sanitizers")
