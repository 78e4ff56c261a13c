"""Runs operation-language cases through the Python, C++ and Lua drivers and returns the event logs."""
import os, subprocess
import vf


class Crash:
    def __init__(self, what): self.what = what


_builds = {}


def command(kind, san="", engine=None):
    """(argv, env) of a driver, building it first."""
    key = (kind, san, engine)
    if key in _builds: return _builds[key]
    if kind == "py":
        d = vf.build_py(engine, san)
        env = vf.py_env(d)
        cmd = [vf.PY, "-X", "faulthandler", f"{vf.VERIF}/drv/drv.py"]
    elif kind == "cc":
        cmd = [vf.build_cc("drv", f"{vf.VERIF}/drv/drv.cc", engine, san, flags=("-DDRV_TREE",) if engine else ())]
        env = vf.base_env()
    elif kind == "ref":       # the installed header and library: the engine without any code of the tree
        cmd = [vf.build_ref("drv", f"{vf.VERIF}/drv/drv.cc")]
        env = vf.base_env()
    elif kind == "lua":
        d = vf.build_lua(engine, san)
        env = vf.base_env()
        env["LUA_CPATH"] = d + "/?.so"
        cmd = ["lua5.4", f"{vf.VERIF}/drv/drv.lua"]
    elif kind == "apy":
        d = vf.build_py(engine, san)
        env = vf.py_env(d)
        cmd = [vf.PY, "-X", "faulthandler", f"{vf.VERIF}/drv/adrv.py"]
    elif kind == "acc":
        cmd = [vf.build_cc("adrv", f"{vf.VERIF}/drv/adrv.cc", engine, san, deps=[f"{vf.VERIF}/drv/ast_names.inc", f"{vf.VERIF}/drv/ast_rebuild.inc"])]
        env = vf.base_env()
    elif kind == "aref":
        cmd = [vf.build_ref("adrv", f"{vf.VERIF}/drv/adrv.cc")]
        env = vf.base_env()
    else:
        raise ValueError(kind)
    if engine: env["DRV_TREE"] = "1"
    if san:
        vf.san_env(env, san)
        if kind not in ("cc", "acc"):
            env["LD_PRELOAD"] = preload(san)
            env["PYTHONMALLOC"] = "malloc"
    _builds[key] = (cmd, env)
    return _builds[key]


def preload(san):
    lib = subprocess.run(["gcc", "-print-file-name=lib%s.so" % san], capture_output=True, text=True).stdout.strip()
    std = subprocess.run(["gcc", "-print-file-name=libstdc++.so"], capture_output=True, text=True).stdout.strip()
    return os.path.realpath(lib) + " " + os.path.realpath(std)


def excerpt(err):
    """The part of an error output that tells what happened."""
    for mark in ("ERROR: AddressSanitizer", "ERROR: LeakSanitizer", "runtime error:", "WARNING: ThreadSanitizer"):
        i = err.find(mark)
        if i >= 0: return err[max(0, err.rfind("\n", 0, i)):i + 7000]
    return err[-2500:]


def engine_fault(what):
    """Is this report about an access of the installed engine to memory of its own that is in use?"""
    if "heap-buffer-overflow" not in what: return False
    own = []
    for part in (what.split("allocated by")[0], what.split("allocated by")[-1]):
        for l in part.split("\n"):
            if l.strip().startswith("#") and "libsanitizer" not in l and "libstdc++" not in l and "libasan" not in l:
                own.append("libclingo.so.4" in l and "/usr/lib" in l or "/lib/x86_64" in l and "libclingo.so.4" in l)
                break
    return own == [True, True]


def run_batch(kind, cases, timeout=120, san="", engine=None, extra_env=None, cwd=None):
    """cases: list of lists of op lines. Returns one entry per case: list (per op) of lists of lines, or Crash."""
    cmd, env = command(kind, san, engine)
    if extra_env: env = dict(env, **extra_env)
    res = [None] * len(cases)
    start = 0
    while start < len(cases):
        text = "".join("#%d\n" % i + "".join(l + "\n" for l in cases[i]) for i in range(start, len(cases)))
        p = vf.run(cmd, stdin=text.encode("utf-8", "surrogateescape"), env=env, timeout=timeout, mem_mb=0 if san else 8000, cwd=cwd)
        cur, op = start - 1, []
        for line in p.out.split("\n"):
            if line.startswith("#"):
                cur = int(line[1:])
                res[cur] = []
                op = []
            elif line == ".":
                res[cur].append(op)
                op = []
            elif line:
                op.append(line)
        last = len(cases) - 1
        if p.rc == 0 and cur == last and len(res[last]) == len(cases[last]): break
        if cur < start:
            if kind in ("ref", "aref"): raise vf.HarnessError(f"driver {kind} did not start: rc={p.rc} {p.err[-1500:]}")
            return [r if r is not None else Crash(f"the interface could not be loaded: rc={p.rc} {p.err[-1500:]}") for r in res]
        why = "time-out" if p.timeout else "exit code %s" % p.rc
        nop = len(res[cur])
        res[cur] = Crash("%s in operation %d (%s): %s" % (why, nop + 1, cases[cur][nop] if nop < len(cases[cur]) else "shutdown", excerpt(p.err)))
        start = cur + 1
    return res


def run_many(kinds, cases, per_batch=None, timeout=120, **kw):
    """Runs all cases with all drivers in parallel; returns {kind: [result]}."""
    jobs = []
    for k in kinds: command(k, kw.get("san", ""), kw.get("engine"))
    n = len(cases)
    per = per_batch or max(1, (n * len(kinds) + vf.JOBS * 2 - 1) // (vf.JOBS * 2))
    for k in kinds:
        for i in range(0, n, per): jobs.append((k, i, cases[i:i + per]))
    out = {k: [None] * n for k in kinds}
    for (k, i, _), r in zip(jobs, vf.parallel(lambda j: run_batch(j[0], j[2], timeout, **kw), jobs)):
        out[k][i:i + len(r)] = r
    return out


def enc(s):
    safe = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_+-.()=<>&'"
    return "".join(chr(b) if b in safe else "%%%02X" % b for b in s.encode("utf-8", "surrogateescape")) or "%"


def dec(s):
    if s == "%": return ""
    out, b, i = bytearray(), s.encode("utf-8", "surrogateescape"), 0
    while i < len(b):
        if b[i] == 37:
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return out.decode("utf-8", "surrogateescape")


def op(*a): return "\t".join(a)


class M:
    """A model line of the event log."""
    def __init__(self, line):
        f = line.split("\t")
        self.number, self.type = int(f[1]), f[2]
        self.cost = () if f[3] == "-" else tuple(int(x) for x in f[3].split(","))
        self.opt = f[4] == "1"
        self.thread = int(f[5])
        sy = lambda s: [] if s == "-" else [dec(x) for x in s.split(" ")]
        self.shown, self.atoms, self.terms, self.compl = map(sy, f[6:10])


def models(lines): return [M(l) for l in lines if l.startswith("M\t")]
def result(lines):
    r = [l for l in lines if l.startswith("R ")]
    return r[-1][2:] if r else None


# ---------------------------------------------------------------------------------------------- normal forms

def norm(lines, lua=False, compl=True):
    """Event lines as far as the interfaces agree on them by specification."""
    r = []
    for l in lines:
        if l.startswith("ERR"): l = "ERR"
        elif l.startswith("cmp "): l = l[:10]
        elif lua and (l.startswith(("F ", "core ", "U ")) or l.startswith("X ")): continue
        elif l.startswith("core ") and not compl: continue
        elif l.startswith("M\t") and not compl:
            f = l.split("\t")
            f[9] = "-"
            l = "\t".join(f)
        elif l.startswith("keys "): l = "keys " + " ".join(sorted(l.split()[1:]))
        r.append(l)
    return r


def mismatch(ops, a, b, lua=False, skip=(), compl=True):
    """First operation on which two logs differ: (index, lines, lines), or None."""
    for i in range(max(len(a), len(b))):
        x = norm(a[i], lua, compl) if i < len(a) else ["(missing)"]
        y = norm(b[i], lua, compl) if i < len(b) else ["(missing)"]
        if x != y and not (ops[i].split("\t")[0] in skip): return i, x, y
    return None
