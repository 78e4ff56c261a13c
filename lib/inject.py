"""Fault injection at the boundary between the interfaces and the engine, with a ledger of native resources.

The library generated by shim/mkledger.py is preloaded into the drivers. It wraps every function of clingo.h: it counts the calls the
interface makes, lets a chosen call fail with a given error, and aborts on a second release or a use after release of a native object."""
import importlib, os, random, sys
import vf, drivers as D

sys.path.insert(0, vf.VERIF + "/checks")
HEADER = f"{vf.REPO}/libclingo/clingo.h"


def build_ledger():
    src = [f"{vf.VERIF}/shim/{f}" for f in ("mkledger.py", "ledger_head.cc", "ledger_tail.cc")]

    def do(out):
        vf.run_cmd([sys.executable, src[0], HEADER, out + "/ledger.cc"], "generating the ledger")
        vf.run_cmd(["g++", "-std=c++17", "-O1", "-w", "-fPIC", "-shared", f"-I{vf.REPO}/libclingo", out + "/ledger.cc", "-o", out + "/libvledger.so", *vf.defsyms(), "-ldl"], "building the ledger")
    return vf.build_once("ledger", [*src, HEADER, f"{vf.VERIF}/shim/missing.c"], "", do) + "/libvledger.so"


def corpus(rng, name, kind):
    """Operations of a history as another check generates it."""
    m = importlib.import_module(name)
    if name == "p01": return m.one(rng)[1]
    if name == "p05": return m.build(rng, False)[2]
    if name == "p06": return m.build(rng)[2]
    if name == "p07": return m.Hist(rng, rng.randint(2, 3)).ops
    if name == "p08":
        c = m.build(rng)
        return c.prefix + c.rest
    if name == "p09": return m.build(rng, kind == "lua")[0]
    if name == "p10":
        while True:
            c = m.build(rng)
            if kind != "lua" or not any(x.startswith(("freeze", "unwatch")) for it in c.props for x in it): return c.ops
    if name == "p11": return m.build(rng)[2]
    if name == "p12":
        while True:
            c = m.build(rng)
            if kind != "lua" or (not c[4] and c[1] == 1): return c[2]
    if name in ("p13", "p14"): return m.build(rng).ops
    if name == "p16": return m.ops_of(m.build(rng), rng).ops
    if name == "p03":
        import astgen
        g = astgen.Gen(rng, depth=rng.choice([1, 2]), pools=rng.random() < 0.7)
        t = D.enc(g.program(rng.randint(1, 3)))
        return [D.op(rng.choice(["parse", "files"]), t), "str", "reparse", "rebuild", "copy", D.op("unpool", "11"), "pairs", "subs", "add"]
    raise ValueError(name)


ZERO = "controls=0 handles=0 references=0 backends=0 "
# operations which call handlers that cannot report errors other than by ending the process
PANIC = ("solve", "ustats")
SOURCES = ("p01", "p05", "p06", "p07", "p08", "p09", "p10", "p11", "p12", "p13", "p14", "p16")


def term(kind, s): return D.op("term" if kind[0] == "a" else "parse", D.enc("ledger:" + s))


def answer(lines):
    for l in lines:
        if l.startswith("parse s:"): return D.dec(l[8:])
    return None


def env():
    return {"LD_PRELOAD": build_ledger(), "DRV_GC": "1"}


FRESH = [D.op("new", "9", "0"), D.op("add", "base", "", D.enc("{a}. b :- a.")), D.op("ground", "base"), D.op("solve", "yield", "", "0"), D.op("del", "9")]


def clean(rec, kind, cases, timeout=300):
    """Runs the histories with the ledger and checks that everything is released; yields for every history its log and call counts."""
    cs = []
    for ops in cases:
        c = [term(kind, "live"), term(kind, "reset"), term(kind, "count"), term(kind, "count")]
        for o in ops: c += [o, term(kind, "count")]
        cs.append(c)
    cs.append([term(kind, "live")])
    rs = D.run_batch(kind, cs, timeout, extra_env=env(), cwd=rec.cwd)
    res = []
    for i, (ops, r) in enumerate(zip(cases + [[]], rs)):
        if isinstance(r, D.Crash):
            if r.what.startswith("exit code -8 "):     # division in the engine
                rec.count("engine_crashes")
                res.append(None)
                continue
            rec.violation(f"{kind}-ledger-crash", r.what, {"driver": kind, "ops": ops})
            res.append(None)
            continue
        live = answer(r[0])
        if live is None or not live.startswith(ZERO):
            rec.violation(f"{kind}-leak", f"{kind}: still alive after everything was dropped: {live}", {"driver": kind, "ops": cases[i - 1] if i else ops})
        elif i:
            rec.count("balanced_ledgers")
        if not ops:
            res.append(None)
            continue
        # asking for the count takes calls itself; the numbers are those of a run that starts with one such question
        d = int(answer(r[3])) - int(answer(r[2]))
        res.append((r[4::2], [int(answer(x) or 0) - d * (2 + j) for j, x in enumerate(r[5::2])], d))
    if live:
        for n, v in zip(("controls", "handles", "references"), live.rpartition("=")[2].split("/")): rec.count("created_" + n, int(v))
    return res[:-1]


def hasmsg(lines, code): return any("injected%20failure" in l or "injected failure" in l or code == 3 and l.startswith(("ERR ", "E ")) and ("bad_alloc" in l or "MemoryError" in l) for l in lines)


def faults(rec, kind, cases, logs, per_case, rng, timeout=500, codes=(1, 2, 3)):
    """Lets sampled calls of the histories fail: the operation has to report the failure, nothing may crash or leak."""
    todo = []
    for ops, lg in zip(cases, logs):
        if lg is None: continue
        counts = lg[1]
        n = counts[-1] if counts else 0
        # few samples from every operation
        prev, spans = lg[2], []
        for j, c in enumerate(counts):
            if c > prev: spans.append((j, prev + 1, c))
            prev = c
        pick = []
        for j, a, b in spans:
            pick += [(j, k) for k in {a, b, rng.randint(a, b), rng.randint(a, b)}]
        rng.shuffle(pick)
        for j, k in pick[:per_case]: todo.append((ops, lg[0], j, k, rng.choice(codes)))
    cs = []
    for ops, log, j, k, code in todo:
        c = [term(kind, "live"), term(kind, "arm:%d:%d" % (k, code))] + ops[:j + 1] + [term(kind, "fired")]
        if kind[0] != "a": c += FRESH
        cs.append(c)
    cs.append([term(kind, "live")])
    rs = D.run_batch(kind, cs, timeout, extra_env=env(), cwd=rec.cwd)
    for i, ((ops, log, j, k, code), r) in enumerate(zip(todo, rs)):
        rep = {"driver": kind, "ops": ops[:j + 1], "failing_call": k, "code": code}
        if isinstance(r, D.Crash):
            # the failure was reported by ending the process, as documented for handlers that cannot report it
            if ops[j].split("\t")[0] in PANIC and ("injected failure" in r.what or "going to terminate" in r.what or code == 3 and "bad_alloc" in r.what) and "LEDGER" not in r.what and "exit code -11" not in r.what and "Segmentation" not in r.what:
                rec.count("faults_panic")
                continue
            # a second failure while the first one unwinds the stack (a builder that can neither add nor end) ends C++ programs
            if kind in ("acc", "cc") and any(l.startswith("E ") or l.startswith("ERR ") for l in log[j]) and "terminate called after throwing" in r.what:
                rec.count("faults_during_unwinding")
                continue
            rec.violation(f"{kind}-fault-crash-{ops[j].split(chr(9))[0]}", f"{kind}: failing call {k} in {ops[j][:200]!r}\n{r.what}", rep)
            continue
        fired = answer(r[2 + j + 1])
        if fired in (None, "-"):
            rec.count("faults_not_reached")
            continue
        rec.count("faults")
        rec.count("fault_in_" + fired.replace("clingo_", ""))
        rec.case((kind, fired, ops[j].split("\t")[0], code), n=1)
        got = r[2:2 + j + 1]
        first = next((x for x in range(j + 1) if hasmsg(got[x], code) or kind[0] == "a" and any(l.startswith("E ") for l in got[x])), None)
        if first is None and fired == "clingo_assignment_level" and got[j] == log[j]:
            # the drivers provoke a failure of this function themselves
            rec.count("faults_where_one_is_expected")
        elif first is None:
            rec.violation(f"{kind}-silent-{fired}", f"{kind}: {fired} failed (call {k}) in {ops[j][:300]!r}, but no error was reported: {[l[:200] for l in got[j][:6]]}", rep)
        if kind[0] != "a":
            fr = r[2 + j + 2:]
            if len(fr) == len(FRESH) and not any(l.startswith("R ") for l in fr[3]) or len(D.models(fr[3])) != 2:
                rec.violation(f"{kind}-fault-after", f"{kind}: after the failure of {fired} in {ops[j][:200]!r} a fresh control does not work: {fr[3][:4]}", rep)
    base = ZERO
    for i, r in enumerate(rs):
        if isinstance(r, D.Crash) or i and isinstance(rs[i - 1], D.Crash):
            base = ZERO
            continue
        live = answer(r[0])
        if live is None or not live.startswith(base):
            base = (live or "").rpartition("created")[0]
            t = todo[i - 1]
            fired = answer(rs[i - 1][2 + t[2] + 1]) if i else None
            rec.violation(f"{kind}-fault-leak-{fired}", f"{kind}: still alive after the failure of {fired} in {t[0][t[2]][:200]!r} and dropping everything: {live}", {"driver": kind, "ops": t[0][:t[2] + 1], "failing_call": t[3]})


def run(rec, kind, n, per_case, rng, sources=None):
    src = sources or (SOURCES if kind[0] != "a" else ("p03",))
    cases = [corpus(rng, src[i % len(src)], kind) for i in range(n)]
    logs = clean(rec, kind, cases)
    rec.count("ledger_histories", len(cases))
    for lg in logs:
        if lg and lg[1]: rec.count("api_calls", lg[1][-1])
    if per_case: faults(rec, kind, cases, logs, per_case, rng)
