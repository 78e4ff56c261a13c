#!/usr/bin/env python3
"""P12: statistics trees after solve histories, read through every interface, and user statistics written through Python and C++."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, scen, asp, drivers as D

KINDS = ("py", "cc", "lua")
KEYS = ["x", "y", "a b", "é", "", "long" * 20, "0", "sum/mary", "X", "choices"]


def fmt(v): return "%.17g" % v


def show(v):
    if isinstance(v, list): return "[" + ",".join(map(show, v)) + "]"
    if isinstance(v, dict): return "{" + ",".join(D.enc(k) + "=" + show(x) for k, x in v.items()) + "}"
    if isinstance(v, tuple): return "+" + repr(v[0])
    return repr(v)


def number(rng): return rng.choice([rng.randint(-5, 5), rng.randint(-5, 5), rng.random() * 100, 1e300, -1e-300, 0.1, 2 ** 40, -0.5])


def gen(rng, d):
    """A fresh user value."""
    k = rng.random()
    if d == 0 or k < 0.4:
        v = number(rng)
        return (v,) if rng.random() < 0.2 else v
    if k < 0.7: return [gen(rng, d - 1) for _ in range(rng.randint(0, 4))]
    return {q: gen(rng, d - 1) for q in rng.sample(KEYS, rng.randint(0, 4))}


def upd(rng, old, d):
    """An update that is consistent with the type of what is there."""
    if isinstance(old, list):
        k = rng.choice([len(old), len(old), rng.randint(0, len(old))])
        return [upd(rng, x, d - 1) for x in old[:k]] + [gen(rng, max(0, d - 1)) for _ in range(rng.randint(0, 2) if k == len(old) else 0)]
    if isinstance(old, dict):
        r = {}
        for q in rng.sample(KEYS, rng.randint(0, 3)) + rng.sample(sorted(old), rng.randint(0, len(old))): r[q] = upd(rng, old[q], d - 1) if q in old else gen(rng, max(0, d - 1))
        return r
    v = number(rng)
    return (v,) if rng.random() < 0.5 else v


TRACE = []      # what updating functions are passed


def merge(old, v):
    """What is stored after v was written over old (None: nothing there yet)."""
    if isinstance(v, list):
        old = list(old or [])
        return [merge(x, y) for x, y in zip(old, v)] + old[len(v):] + [merge(None, y) for y in v[len(old):]]
    if isinstance(v, dict):
        r = dict(old or {})
        for k, x in v.items(): r[k] = merge(r.get(k), x)
        return r
    if isinstance(v, tuple): TRACE.append(old)
    return float(v[0]) + (old or 0.0) if isinstance(v, tuple) else float(v)


def flat(pre, v):
    if isinstance(v, list):
        yield pre, "[%d]" % len(v)
        for i, x in enumerate(v): yield from flat(pre + "/%d" % i, x)
    elif isinstance(v, dict):
        yield pre, "{%d}" % len(v)
        for k in v: yield from flat(pre + "/" + D.enc(k), v[k])
    else: yield pre, fmt(v)


def build(rng):
    p = asp.gen(rng, rng.randint(2, 6), rng.randint(1, 7), rng.choice([("choice", "neg2"), ("choice", "neg2", "min"), ("choice", "disj", "neg2"), ("choice",)]))
    nt = rng.choice([1, 1, 1, 2])
    lvl = rng.choice(["", "--stats=1", "--stats=2", "--stats=2"])
    ops = [D.op("new", "0", ";".join([a for a in [lvl, "-t2" if nt > 1 else ""] if a])), D.op("add", "base", "", D.enc(p.text(rng))), D.op("ground", "base"), D.op("confset", "solve.models", "0")]
    if rng.random() < 0.2: ops.insert(3, "statfull")
    steps, users = [], []
    step, accu = {}, {}
    for _ in range(rng.randint(1, 4)):
        if rng.random() < 0.5:
            its = []
            for _ in range(rng.randint(0, 3)):
                w = rng.choice("SA")
                v = upd(rng, step if w == "S" else accu, 3)
                if w == "S": step = merge(step, v)
                else: accu = merge(accu, v)
                its.append(w + rng.choice("ui") + show(v))
            ops.append(D.op("ustats", *its))
            users.append((len(ops), dict(flat("/user_step", step)), dict(flat("/user_accu", accu))))
            steps.append((len(ops), None))
        else:
            ops.append(D.op("solve", rng.choice(["cb", "yield", "step"]), "", str(rng.choice([0, 0, 0, 1, 2]))))
            steps.append((len(ops), len(ops) - 1))
        ops.append("statfull")
        if rng.random() < 0.3: ops.append(D.op("stat", rng.choice(["summary.costs", "summary.models.enumerated", "problem.lp.atoms", "solving.solvers.choices", "summary", "solving.solver", "nothing.here", "problem.lp.foo", "summary.call.x"])))
    return p, nt, ops, steps, users


def judge(rec, kind, case, r):
    p, nt, ops, steps, users = case
    replay = {"driver": kind, "ops": ops}
    if isinstance(r, D.Crash):
        rec.violation(f"{kind}-crash", r.what, replay)
        return
    for i, got in enumerate(r):
        for l in scen.bad_lines(got): rec.violation(f"{kind}-{l}", f"{l} in {ops[i]!r}", replay)
        if ops[i].startswith("ustats") and any(l.startswith("ERR") for l in got) and kind != "lua": rec.violation(f"{kind}-ustats-error", f"{ops[i]!r}: {got}", replay)
    # the counters match what the run did
    call = -1
    total = [0]
    for at, s in steps:
        call += 1
        st = {l.split(" ")[1]: l.split(" ")[2] for l in r[at] if l.startswith("s ")}
        def bad(k, m): rec.violation(f"{kind}-{k}", f"{kind} {ops[:at + 1]}: {m}\nprogram:\n{p.text()}", replay)
        if not st:
            bad("none", f"no statistics: {r[at][:2]}")
            continue
        if st.get("/summary/call") != str(call): bad("call", f"{st.get('/summary/call')} is not call {call}")
        if s is not None:
            ms = D.models(r[s])
            q = D.result(r[s]) or "?????"
            if st.get("/summary/models/enumerated") != str(len(ms)): bad("models", f"{st.get('/summary/models/enumerated')} models counted, {len(ms)} delivered")
            if st.get("/summary/result") != ("1" if q[0] == "1" else "2" if q[1] == "1" else "0"): bad("result", f"{st.get('/summary/result')} vs {q}")
            if st.get("/summary/exhausted") != q[3]: bad("exhausted", f"{st.get('/summary/exhausted')} vs {q}")
            if p.min and ms and nt == 1:
                co = [st.get("/summary/costs/%d" % i) for i in range(len(ms[-1].cost))]
                if co != [fmt(x) for x in ms[-1].cost]: bad("costs", f"{co} vs {ms[-1].cost}")
            rec.count("counters")
        nsol = sum(1 for k in st if k.startswith("/solving/solver/") and k.count("/") == 3)
        if nsol not in (0, nt): bad("solvers", f"{nsol} solvers listed, {nt} threads")
        if nsol and nt > 1:
            for c in ("choices", "conflicts"):
                v = [float(st.get("/solving/solver/%d/%s" % (i, c), "nan")) for i in range(nt)]
                if sum(v) != float(st.get("/solving/solvers/" + c, "nan")): bad("sum", f"{c}: {v} do not sum up to {st.get('/solving/solvers/' + c)}")
    for at, S, A in users:
        if kind == "lua": break
        got = {l.split(" ")[1]: l.split(" ")[2] for l in r[at] if l.startswith("s /user_")}
        exp = dict(S, **A)
        # an empty tree is not listed
        if exp.get("/user_step") == "{0}": exp.pop("/user_step")
        if exp.get("/user_accu") == "{0}": exp.pop("/user_accu")
        got = {k: v for k, v in got.items() if not (k in ("/user_step", "/user_accu") and v == "{0}")}
        if got != exp:
            d = sorted(k for k in set(got) | set(exp) if got.get(k) != exp.get(k))[:3]
            rec.violation(f"{kind}-user", f"{kind} {[o for o in ops[:at] if o.startswith('ustats')]}: " + "; ".join(f"{k} is {got.get(k)}, written {exp.get(k)}" for k in d), replay)
        rec.count("user_values", len(exp))


def norm(case, res):
    """Values that depend on time or schedule are not compared; Lua cannot tell an empty array from an empty map."""
    if isinstance(res, D.Crash): return res
    p, nt, ops, *_ = case
    cut = lambda l: " ".join(l.split(" ")[:2]) if nt > 1 and l.startswith(("s /solving", "s /accu", "s /summary/w", "s /summary/signal", "s /problem")) else l
    drop = lambda l: l.startswith("s ") and ("time" in l or l.startswith("s / ") or l.startswith("s /user_") and l.endswith(" {0}"))
    r = [["stat 0" if l == "stat " else cut(l).replace("[0]", "{0}") for l in ls if not drop(l)] for ls in res]
    if nt > 1: r = [[l for l in ls if not l.startswith("M\t")] if ops[i].startswith("solve\t") else [] if ops[i].startswith("stat\t") else ls for i, ls in enumerate(r)]
    for i, ls in enumerate(r):      # a limited parallel search may or may not notice that it was exhaustive
        if nt > 1 and ops[i].startswith("solve\t") and not ops[i].endswith("\t0"): r[i] = []
        if nt > 1 and ops[i] == "statfull": r[i] = [l for l in ls if not l.startswith(("s /summary/models", "s /summary/exh", "s /summary/lower", "s /summary/costs", "s /accu/models", "s /summary/conc"))]
    return r


def check(chk):
    for k in KINDS + ("ref",): D.command(k)
    n = vf.scale(500, 3000)

    def shard(rec, idx):
        items = [build(rec.rng) for _ in range(n)]
        cases = [i[2] for i in items]
        res = {k: D.run_batch(k, cases, timeout=600) for k in KINDS + ("ref",) if k != "lua"}
        li = [i for i, c in enumerate(items) if not c[4] and c[1] == 1]
        res["lua"] = dict(zip(li, D.run_batch("lua", [cases[i] for i in li], timeout=600)))
        for i, c in enumerate(items):
            use = [k for k in KINDS if k != "lua" or i in res["lua"]]
            if scen.judged(rec, judge, cases[i], res["ref"][i], {k: res[k][i] for k in use}, c):
                scen.differential(rec, cases[i], norm(c, res["ref"][i]), {k: norm(c, res[k][i]) for k in use})
                rec.case("\n".join(cases[i]), n=len(use) * len(c[3]), sample={"ops": cases[i][3:]})
    vf.shards(chk, shard, 8)
    vf.py_batches(chk, vf.VERIF + "/checks/w12.py", vf.build_py(), [{"seed": vf.SEED * 100 + i, "n": vf.scale(200, 1500)} for i in range(8)])


TECHNIQUE = "runtime monitoring: counters compared with the events observed, model of user statistics, differential against the engine driven without the bindings"
if __name__ == "__main__": vf.main(check, "P12", rule="distinct solve histories whose statistics were read")
