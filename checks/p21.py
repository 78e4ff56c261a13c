#!/usr/bin/env python3
"""P21: state of controls, and results, iterators, sequences and tagged values as values, in every interface."""
import os, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, drivers as D

TECHNIQUE = "runtime monitoring: independent models of lists, iterators, switches, constants and clause stores observed next to the real objects under random operations; address sanitizer"
SECTIONS = ("iterators", "defaults", "values", "variants", "arrays", "controls")


def check(chk):
    seeds = [vf.SEED * 1000 + i for i in range(4)]
    for san in ("", "asan"):
        exe = vf.build_cc("hhapi", f"{vf.VERIF}/drv/hhapi.cc", san=san)
        n = vf.scale(200 if not san else 40, 3000 if not san else 200)
        vf.cc_runs(chk, exe, [(s, seed, n) for s in SECTIONS for seed in seeds[:2]], san=san, label="hhapi" + san)
        vf.py_batches(chk, f"{vf.VERIF}/checks/w21.py", vf.build_py(san=san), [{"seed": s, "n": vf.scale(80 if not san else 16, 600 if not san else 30)} for s in seeds], san=san)
        e = vf.base_env()
        if san: e["LD_PRELOAD"] = D.preload("asan")
        e["LUA_CPATH"] = vf.build_lua(san=san) + "/?.so"
        d = vf.tmpdir()
        vf.cc_runs(chk, "lua5.4", [(f"{vf.VERIF}/drv/state.lua", s, vf.scale(200 if not san else 60, 2000 if not san else 100)) for s in seeds], san=san, env=e, label="state" + san, cwd=d)
        shutil.rmtree(d)


if __name__ == "__main__": vf.main(check, "P21", rule="distinct controls, sequences and values compared with their models")
