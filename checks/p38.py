#!/usr/bin/env python3
"""P38: random operation histories on the engine's data structures, compared with plain models after every step; interning under ThreadSanitizer."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf

TECHNIQUE = "model-based monitors over random operation histories of the engine's data structures under AddressSanitizer/UBSan, ThreadSanitizer for symbol interning from several threads, bounds checked against enumerated solutions"

SECTIONS = {"intervals": (1500, 20000), "graph": (1500, 15000), "indexed": (1500, 15000), "safety": (6000, 60000), "arrayset": (400, 4000),
            "hashes": (40, 400), "owner": (1500, 15000), "helpers": (1500, 10000), "symbols": (4000, 20000), "equations": (250, 2500)}


def check(chk):
    flags = ["-DDS_SYMBOLS", "-DDS_ENGINE"]
    exe = vf.build_engine_prog("ds", vf.VERIF + "/drv/ds.cc", "asan", flags=flags)

    def tsan(out):
        vf.run_cmd(["g++", *vf.ENGINE_FLAGS, "-O1", "-w", *vf.SAN["tsan"], "-DDS_SYMBOLS", vf.VERIF + "/drv/ds.cc", vf.REPO + "/libgringo/src/symbol.cc", "-o", out + "/ds", "-pthread"], "building ds for threads")
    texe = vf.build_once("ds-tsan", [vf.VERIF + "/drv/ds.cc", vf.REPO + "/libgringo/gringo", vf.REPO + "/libgringo/src/symbol.cc"], "", tsan) + "/ds"
    k = vf.scale(2, 8)
    args = [(s, vf.SEED * 100 + i, vf.scale(*n)) for s, n in SECTIONS.items() for i in range(k)]
    vf.cc_runs(chk, exe, args, san="asan", timeout=400, label="ds")
    vf.cc_runs(chk, texe, [("threads", vf.SEED * 100 + i, vf.scale(60, 600)) for i in range(vf.scale(6, 16))], san="tsan", timeout=400, label="ds-threads")
    chk.coverage("sections", sorted(SECTIONS) + ["threads"]) if hasattr(chk, "coverage") else None


if __name__ == "__main__": vf.main(check, "P38", rule="distinct operation histories run against the models")
