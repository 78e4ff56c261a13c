#!/usr/bin/env python3
"""P11: histories of configuration reads and writes through every interface, judged against a tree model kept by the monitor and the engine
driven without the bindings; settings are also made as command-line options and must have the same effect."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, scen, asp, drivers as D

KINDS = ("py", "cc", "lua")
VALUES = ["0", "1", "2", "3", "7", "10", "100", "-1", "yes", "no", "true", "false", "on", "off", "auto", "all", "umax", "0.5", "1.5", "0.25", "", " ", "foo", "1,2", "x,100,1.5", "+,100,20", "L,100",
          "F,500", "D,100,0.7", "no,1", "Berkmin", "vsids", "Vmtf", "vmtf,8", "Domain", "Unit", "None", "shared", "common", "distinct", "learn", "short", "choice", "card", "dynamic", "brave", "cautious", "bt", "record",
          "domRec", "opt", "optN", "enum", "ignore", "2,3", "show", "project", "pos", "neg", "rnd", "asp", "progress", "bb", "usc", "bb,inc", "usc,oll", "usc,k,4", "lin", "gp", "recursive", "local", "all,2", "3,4,5", "99999999999", "1e3", "pi"]
LEAVES = ["solve.models", "solve.enum_mode", "solve.opt_mode", "solve.project", "solve.solve_limit", "solve.global_restarts", "solve.distribute", "solve.integrate", "asp.eq", "asp.backprop", "asp.trans_ext", "asp.supp_models",
          "asp.no_ufs_check", "asp.no_gamma", "asp.eq_dfs", "share", "learn_explicit", "sat_prepro", "stats", "parse_ext", "parse_maxsat"]
SOLVER = ["heuristic", "opt_strategy", "opt_usc_shrink", "opt_heuristic", "restart_on_model", "lookahead", "init_moms", "score_res", "score_other", "sign_def", "sign_fix", "berk_huang", "vsids_acids", "vsids_progress", "nant",
          "dom_mod", "save_progress", "init_watches", "update_mode", "acyc_prop", "seed", "no_lookback", "forget_on_step", "strengthen", "otfs", "update_lbd", "update_act", "reverse_arcs", "contraction", "loops", "partial_check",
          "sign_def_disj", "rand_freq", "rand_prob", "restarts", "reset_restarts", "local_restarts", "counter_restarts", "block_restarts", "shuffle", "deletion", "del_grow", "del_cfl", "del_init", "del_estimate", "del_max",
          "del_glue", "del_on_restart"]
BAD = ["foo", "solve.foo", "solver.foo", "solve", "solver", "tester", "heuristic", "asp", "solver.0.foo", ""]
# command-line option, path, value
SAME = [("--enum-mode=brave", "solve.enum_mode", "brave"), ("--enum-mode=cautious", "solve.enum_mode", "cautious"), ("--enum-mode=record", "solve.enum_mode", "record"), ("--models=3", "solve.models", "3"), ("-n0", "solve.models", "0"),
        ("--opt-mode=optN", "solve.opt_mode", "optN"), ("--opt-mode=ignore", "solve.opt_mode", "ignore"), ("--opt-mode=enum,3", "solve.opt_mode", "enum,3"), ("--project=show", "solve.project", "show"), ("--heuristic=Berkmin", "solver.heuristic", "berkmin"),
        ("--heuristic=Vmtf", "solver.heuristic", "vmtf"), ("--rand-freq=0.5", "solver.rand_freq", "0.5"), ("--sign-def=pos", "solver.sign_def", "pos"), ("--sign-def=neg", "solver.sign_def", "neg"), ("--seed=7", "solver.seed", "7"),
        ("--backprop", "asp.backprop", "1"), ("--share=no", "share", "no"), ("--loops=no", "solver.loops", "no"), ("--opt-strategy=usc", "solver.opt_strategy", "usc"), ("--restarts=F,10", "solver.restarts", "F,10"),
        ("--stats=2", "stats", "2"), ("--init-watches=first", "solver.init_watches", "first"), ("--supp-models", "asp.supp_models", "1"), ("--strengthen=no", "solver.strengthen", "no"), ("--sign-fix", "solver.sign_fix", "1")]


VALID = {}


def discover():
    """Which values the engine accepts for which option (asked without the bindings)."""
    q = [(k, v) for k in LEAVES + SOLVER for v in VALUES]
    r = D.run_batch("ref", [[D.op("new", "0", ""), D.op("confset", k if k in LEAVES else "solver." + k, D.enc(v))] for k, v in q], timeout=300)
    for (k, v), x in zip(q, r):
        if not isinstance(x, D.Crash) and x[1] == ["ok"]: VALID.setdefault(k, []).append(v)
    if sum(map(len, VALID.values())) < 100: raise vf.HarnessError("the engine accepts almost no values")


def tree(lines):
    return {l.split(" ")[1]: l for l in lines if l.startswith("v ")}


def build(rng):
    nt = rng.choice([1, 1, 1, 2, 2, 3])
    args = []
    if nt > 1: args.append("-t%d" % nt)
    if rng.random() < 0.4: args.append("--configuration=" + rng.choice(["frumpy", "jumpy", "tweety", "handy", "crafty", "trendy", "many"]))
    for _ in range(rng.choice([0, 0, 1, 2])):
        o = rng.choice(SAME)[0]
        if o.split("=")[0] not in [a.split("=")[0] for a in args]: args.append(o)
    full = rng.random() < 0.25
    ops = [D.op("new", "0", ";".join(D.enc(a) for a in args))]
    ops.append("conftree")
    marks = []          # (set op, value, path, get op, tree before, tree after)
    def leaf():
        k = rng.random()
        if k < 0.35: return rng.choice(LEAVES)
        if k < 0.65: return "solver.%d.%s" % (rng.randrange(nt), rng.choice(SOLVER))
        if k < 0.8: return "solver." + rng.choice(SOLVER)
        if k < 0.92: return "tester.solver." + rng.choice(SOLVER[:10])
        return rng.choice(BAD)
    def dump():
        ops.append("conftree")
        if nt > 1: ops.append("conftree\tsolver")
    if nt > 1: ops.append("conftree\tsolver")
    before = len(ops) - 1
    for _ in range(rng.randint(1, 3) if full else rng.randint(4, 14)):
        path, v = leaf(), rng.choice(VALUES)
        if rng.random() < 0.8: v = rng.choice(VALID.get(path) or VALID.get(path.split(".")[-1]) or VALUES)
        if rng.random() < 0.15 and nt > 1:
            i = rng.randrange(nt)
            k = rng.choice(SOLVER)
            ops.append(D.op("confget", "solver.%d.%s" % ((i + 1) % nt, k)))
            path = "solver.%d.%s" % (i, k)
        if rng.random() < 0.2: ops.append(D.op("confkeys", rng.choice(["solve", "asp", "tester", "solver", "", "solver.0", "tester.solver"])))
        ops.append(D.op("confset", path, D.enc(v)))
        s = len(ops) - 1
        ops.append(D.op("confget", path))
        g = len(ops) - 1
        if full: dump()
        marks.append((s, v, path, g, before, len(ops) - 1))
        before = len(ops) - 1
        for _ in range(rng.randint(0, 2)): ops.append(D.op("confget", leaf()))
    if not full: dump()
    return nt, full, ops, marks


def judge(rec, kind, case, r):
    nt, full, ops, marks = case
    replay = {"driver": kind, "ops": ops}
    if isinstance(r, D.Crash):
        rec.violation(f"{kind}-crash", r.what, replay)
        return
    for i, got in enumerate(r):
        for l in scen.bad_lines(got): rec.violation(f"{kind}-{l}-{ops[i]}", f"{l} in {ops[i]!r}", replay)
        if ops[i].startswith("conftree") and (not got or got[0].startswith("ERR")): rec.violation(f"{kind}-tree", f"{ops[i]!r}: {got[:2]}", replay)
    # a path read several times without a write in between gives the same value
    for s, v, path, g, before, after in marks:
        ok = not any(l.startswith("ERR") for l in r[s])
        rec.count("writes" if ok else "rejected_writes")
        def bad(k, m): rec.violation(f"{kind}-{k}-{path}", f"{kind} writes {v!r} to {path}: {m}", replay)
        rd = r[g][0] if r[g] else "(nothing)"
        if ok and rd.startswith("ERR"): bad("unreadable", f"accepted but reading gives {rd}")
        if ok and rd.startswith("conf sub"): bad("sub", "a map accepted a value")
        if not full: continue
        a, b = tree(r[before]), tree(r[after])
        if nt > 1 and ops[before - 1].startswith("conftree") and ops[after - 1].startswith("conftree"):
            a.update(tree(r[before - 1])); b.update(tree(r[after - 1]))
        diff = {k for k in set(a) | set(b) if a.get(k) != b.get(k)}
        p = "/" + path.replace(".", "/")
        # writing the array node addresses its first element, and vice versa
        same = lambda k: k == p or k.replace("/solver/0/", "/solver/") == p.replace("/solver/0/", "/solver/")
        if ok and any(not same(k) for k in diff): bad("isolation", f"also changed {sorted(k for k in diff if not same(k))[:4]}")
        if not ok and diff: bad("rejected", f"rejected but changed {sorted(diff)[:4]}")
        if ok and p in b and rd.startswith("conf ") and b[p].split(" ")[2].lstrip("=") != rd[5:]: bad("views", f"{b[p]!r} and {rd!r}")
        rec.count("tree_comparisons")


def build_same(rng):
    p = asp.gen(rng, rng.randint(2, 5), rng.randint(1, 6), rng.choice([("choice", "neg2"), ("choice", "neg2", "min"), ("choice", "disj", "neg2")]))
    opts = rng.sample(SAME, rng.randint(1, 3))
    seen, use = set(), []
    for o in opts:
        if o[1] not in seen:
            seen.add(o[1])
            use.append(o)
    text = D.enc(p.text(rng))
    ops = []
    for j in (0, 1):
        ops.append(D.op("new", str(j), ";".join(D.enc(o[0]) for o in use) if j == 0 else ""))
        if j:
            for o in use: ops.append(D.op("confset", o[1], D.enc(o[2])))
        ops += ["conftree", D.op("add", "base", "", text), D.op("ground", "base"), "solve\tcb\t\t0", "conftree", "statfull"]
    return use, ops, p


def judge_same(rec, kind, case, r):
    use, ops, p = case
    replay = {"driver": kind, "ops": ops}
    if isinstance(r, D.Crash):
        rec.violation(f"{kind}-crash", r.what, replay)
        return
    k = 1 + next(i for i, o in enumerate(ops) if i and o.startswith("new"))
    k2 = k + len(use)
    for (i, x), (j, y) in zip(enumerate(r[1:k - 1], 1), enumerate(r[k2:], k2)):
        f = lambda ls: [l for l in ls if not (l.startswith("s ") and "time" in l)]
        x, y = f(x), f(y)
        if ops[i] == "conftree":
            skip = {"/" + o[1].replace(".", "/") for o in use}
            x, y = [l for l in x if l.split(" ")[1] not in skip or l[0] != "v"], [l for l in y if l.split(" ")[1] not in skip or l[0] != "v"]
        if any(o[1] == "stats" for o in use) and ops[i] == "statfull": continue
        if x != y:
            d = [(a, b) for a, b in zip(x + ["-"] * len(y), y + ["-"] * len(x)) if a != b][0]
            rec.violation(f"{kind}-effect-{use[0][1]}", f"{kind}: {[o[0] for o in use]} on the command line and {[o[1:] for o in use]} in the configuration differ at {ops[i]!r}: {d}\nprogram:\n{p.text()}", replay)
            break
    rec.count("effects")


def norm(res):
    """Lua does not tell whether a node is an array."""
    if isinstance(res, D.Crash): return res
    return [[(("c " + l.split(" ", 2)[1] + " ?" + l.split(" ", 2)[2][1:]) if l.startswith("c ") else l).replace("[0]", "{0}") for l in ls if not (l.startswith("s ") and "time" in l)] for ls in res]


def check(chk):
    for k in KINDS + ("ref",): D.command(k)
    n = vf.scale(120, 1500)
    discover()

    def shard(rec, idx):
        for mk, jd, cnt in ((build, judge, n), (build_same, judge_same, n // 2)):
            items = [mk(rec.rng) for _ in range(cnt)]
            ix = 2 if mk is build else 1
            cases = [i[ix] for i in items]
            res = {k: D.run_batch(k, cases, timeout=600) for k in KINDS + ("ref",)}
            for i, c in enumerate(items):
                if scen.judged(rec, jd, cases[i], res["ref"][i], {k: res[k][i] for k in KINDS}, c):
                    scen.differential(rec, cases[i], norm(res["ref"][i]), {k: norm(res[k][i]) for k in KINDS})
                    rec.case("\n".join(cases[i]), n=3 * len(cases[i]), sample={"ops": cases[i][:12]})
    vf.shards(chk, shard, 8)
    vf.py_batches(chk, vf.VERIF + "/checks/w11.py", vf.build_py(), [{"seed": vf.SEED * 100 + i, "n": vf.scale(30, 300)} for i in range(4)])


TECHNIQUE = "runtime monitoring: tree model of the configuration over write histories, differential against the engine driven without the bindings and against command-line settings"
if __name__ == "__main__": vf.main(check, "P11", rule="distinct histories of configuration operations")
