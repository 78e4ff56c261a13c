#!/usr/bin/env python3
"""P20: theory extensions, with a recording theory library behind clingo.theory.

The library of shim/vmt.cc is built as a CFFI module. It logs every call with what it can see through the pointers it is given, reports
tables of values it was told, and fails on request."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, drivers as D

HH, CC = f"{vf.VERIF}/shim/vmt.h", f"{vf.VERIF}/shim/vmt.cc"
EMIT = """
import sys
from cffi import FFI
f = FFI()
f.cdef("typedef uint64_t clingo_symbol_t; typedef struct clingo_control clingo_control_t; typedef struct clingo_ast clingo_ast_t; typedef struct clingo_options clingo_options_t; typedef struct clingo_model clingo_model_t; typedef struct clingo_statistic clingo_statistics_t;"
       + open(sys.argv[1]).read().split("//cdef")[1].split("//end")[0] + 'extern "Python" bool pyvmt_rewrite(clingo_ast_t *ast, void *data);')
f.set_source("_vmt", '#include "vmt.h"')
f.emit_c_code(sys.argv[2])
"""


def build(san=""):
    def do(out):
        vf.run_cmd([vf.PY, "-c", EMIT, HH, out + "/_vmt.c"], "generating the theory module")
        inc = [f"-I{vf.REPO}/libclingo", f"-I{vf.VERIF}/shim", *vf.py_include()]
        vf.run_cmd(["gcc", "-O1", "-w", "-fPIC", "-c", *inc, *vf.SAN[san], out + "/_vmt.c", "-o", out + "/m.o"], "building the theory module")
        vf.run_cmd(["g++", "-O1", "-w", "-fPIC", "-shared", *inc, *vf.SAN[san], CC, out + "/m.o", "-o", out + "/_vmt.so", "-lclingo"], "building the theory module")
    return vf.build_once("vmt" + san, [HH, CC, f"{vf.REPO}/libclingo/clingo.h"], EMIT, do)


def check(chk):
    n = vf.scale(200, 2000)
    for san in ("", "asan"):
        d = build(san)
        env = {"PYTHONPATH": vf.py_env(vf.build_py(san=san))["PYTHONPATH"] + ":" + d}
        vf.py_batches(chk, f"{vf.VERIF}/checks/w20.py", vf.build_py(san=san), [{"seed": vf.SEED * 100 + i, "n": n // (3 if san else 1)} for i in range(4)], san=san, extra_env=env)


TECHNIQUE = "runtime monitoring: recording theory library behind the interface, its call log and value tables compared with what the host did, with injected failures; address sanitizer"
if __name__ == "__main__": vf.main(check, "P20", rule="distinct theory life cycles, value tables and applications observed")
