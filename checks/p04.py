import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf


def check(chk):
    pydir = vf.build_py()
    vf.py_batches(chk, vf.VERIF + "/checks/w04.py", pydir, [{"seed": vf.SEED * 100 + i, "n": vf.scale(220, 3000)} for i in range(8)], timeout=vf.scale(200, 800))
    exe = vf.build_cc("astval", vf.VERIF + "/drv/astval.cc", san="asan", flags=("-I" + vf.VERIF + "/drv",))
    vf.cc_runs(chk, exe, [(vf.SEED * 100 + i, vf.scale(150, 3000)) for i in range(8)], san="asan")


if __name__ == "__main__": vf.main(check, "P04", rule="distinct histories of operations on syntax trees, compared step by step with a pure model")
