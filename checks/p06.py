import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, drivers as D, asp, scen

KINDS = ("py", "cc", "lua")
MODES = ["cb", "yield", "step", "async", "ayield"]


def build(rng):
    """A program with weak constraints and/or projection, and solve calls in several reasoning modes."""
    n = rng.randint(3, 7)
    what = rng.choice(["opt", "opt", "cons", "proj", "proj"])
    p = asp.gen(rng, n, rng.randint(2, 7), ("choice", "neg2", "ext") if what == "cons" else ("choice", "show", "terms", "neg2", "ext"))
    free = [a for a in rng.sample(range(n), rng.randint(1, n)) if a not in p.ext]
    if free: p.add(("c", free, None, None))
    kw = {}
    conf = []
    if what == "opt" or rng.random() < 0.25:
        big = rng.random() < 0.25       # sums beyond 32 bits
        for _ in range(rng.randint(1, 5)):
            p.min.append((rng.choice([2147483647, 2000000000, 1500000001, -2000000000, 1]) if big else rng.choice([1, 1, 2, 3, 7, -1, -2, 1000000, -1000000]), rng.choice([0, 0, 1, 2, -3, 100]) if not big else rng.choice([0, 0, 2]), rng.choice("uvwxyz" if big else "uvw"), [("l", rng.choice([0, 0, 1]), rng.randrange(n)) for _ in range(rng.randint(1, 2))]))
    if what == "proj":
        if rng.random() < 0.5: p.project = rng.sample(range(n), rng.randint(1, n))
        else: p.show_signatures(rng.sample(range(n), rng.randint(0, n)))
    ops = [D.op("new", "0", "0"), D.op("add", "base", "", D.enc(p.text(rng))), D.op("ground", "base")]
    steps = []
    for _ in range(rng.randint(2, 4)):
        conf = {"solve.opt_mode": "opt", "solve.enum_mode": "auto", "solve.project": "no"}
        q = what if rng.random() < 0.85 else "plain"
        kw = {"what": q}
        if q == "opt":
            m = rng.choice(["opt", "opt", "optN", "optN", "enum", "ignore"])
            conf["solve.opt_mode"] = m
            kw["mode"] = m
            if m == "enum" and rng.random() < 0.7:
                costs = sorted({p.cost(M) for M in p.answer_sets()})
                if costs:
                    b = rng.choice(costs)
                    conf["solve.opt_mode"] = "enum," + ",".join(map(str, b))
                    kw["bound"] = b
        elif q == "cons":
            kw["mode"] = conf["solve.enum_mode"] = rng.choice(["brave", "cautious"])
            conf["solve.opt_mode"] = "ignore"
        elif q == "proj":
            conf["solve.opt_mode"] = "ignore"
            conf["solve.project"] = kw["mode"] = "project" if p.project is not None else "show"
        else: conf["solve.opt_mode"] = "ignore"
        for k, v in conf.items(): ops.append(D.op("confset", k, v))
        ass = []
        if rng.random() < 0.4: ass = [(rng.choice("+-"), rng.randrange(n)) for _ in range(rng.randint(1, 2))]
        lim = rng.choice([0, 0, 0, 1, 2]) if q in ("opt", "proj") else 0
        ops.append(D.op("solve", rng.choice(MODES), ";".join(s + D.enc(p.names[a]) for s, a in ass), str(lim)))
        steps.append((len(ops) - 1, dict(kw, ass=ass, lim=lim)))
    return p, scen.Exp(p), ops, steps


def judge(rec, kind, p, e, ops, steps, r):
    replay = {"driver": kind, "ops": ops, "program": p.text()}
    if isinstance(r, D.Crash):
        rec.violation(f"{kind}-crash", r.what, replay)
        return
    for i, got in enumerate(r):
        for l in scen.bad_lines(got) + [l for l in got if l.startswith("ERR")]:
            rec.violation(f"{kind}-{l.split(' ')[0]}-{ops[i].split(chr(9))[0]}", f"{l} in {ops[i]!r}", replay)
    # levels whose conditions never hold may be missing from the ground program
    dead = [j for j in range(len(e.rows[0][4]) if e.rows else 0) if all(x[4][j] == 0 for x in e.rows)]
    def costok(c, full):
        if len(c) == len(full): return c == full
        return any(tuple(v for j, v in enumerate(full) if j not in d) == c for d in itertools.combinations(dead, len(full) - len(c))) if len(c) < len(full) else False
    strip = lambda c, full: full if costok(c, full) else c
    for i, kw in steps:
        got = r[i]
        what, mode, lim = kw["what"], kw.get("mode"), kw["lim"]
        def bad(k, m): rec.violation(f"{kind}-{what}-{mode}-{k}", f"{kind} {ops[i]!r} {mode} {kw}: {m}\nprogram:\n{p.text()}", replay)
        rows = [x for x in e.rows if all((x[0] >> a & 1) == (s == "+") for s, a in kw["ass"])]
        byatoms = {x[1]: x for x in rows}
        ms = D.models(got)
        rec.count("models_" + str(mode or what), len(ms))
        for j, m in enumerate(ms):
            if m.number != j + 1 and what != "opt": bad("number", f"model {j + 1} is numbered {m.number}")
            x = byatoms.get(frozenset(m.atoms))
            if what == "cons": continue
            if x is None:
                bad("notanswerset", f"{sorted(m.atoms)} is not an answer set under the assumptions")
                continue
            if sorted(m.terms) != sorted(x[3]) or sorted(m.shown) != sorted(x[2] | x[3]): bad("shown", f"{m.shown} {m.terms}")
            if any(abs(v) >= 1 << 31 for v in m.cost): rec.count("costs_beyond_32_bits")
            if p.min and mode not in ("ignore",) and what == "opt" and not costok(m.cost, x[4]): bad("cost", f"cost {m.cost} reported, {x[4]} computed for {sorted(m.atoms)}")
            if m.type != "StableModel": bad("type", m.type)
            m.cost = strip(m.cost, x[4])
        if any(byatoms.get(frozenset(m.atoms)) is None for m in ms) and what != "cons": continue
        ats = [frozenset(m.atoms) for m in ms]
        full = lim == 0 or len(ms) < lim
        if what == "plain" or mode == "ignore" or mode == "enum" or what == "opt" and not p.min:
            exp = {x[1] for x in rows if mode != "enum" or "bound" not in kw or x[4] <= kw["bound"]}
            if len(set(ats)) != len(ats): bad("twice", "answer set delivered twice")
            if not set(ats) <= exp: bad("bound", "answer set above the bound delivered")
            if full and set(ats) != exp: bad("missing", f"{len(exp)} expected, {len(ats)} delivered")
            if not full and len(ats) != min(lim, len(exp)): bad("count", len(ats))
        elif mode in ("opt", "optN"):
            if len(dead) == len(e.rows[0][4] if e.rows else ()): continue      # the minimize statement is trivial
            best = min((x[4] for x in rows), default=None)
            costs = [m.cost for m in ms]
            k = len(ms)
            nonopt = [m for m in ms if not m.opt]
            proven = [m for m in ms if m.opt]
            if ms[len(nonopt):] != proven: bad("order", "a model without proven optimality follows one with")
            nc = [m.cost for m in nonopt]
            if any(b >= a for a, b in zip(nc, nc[1:])): bad("improve", f"costs do not strictly improve: {costs}")
            if any(m.cost != best for m in proven): bad("notoptimal", f"proven costs {[m.cost for m in proven]}, optimum {best}")
            pa = [frozenset(m.atoms) for m in proven]
            if len(set(pa)) != len(pa): bad("twice", "optimal model delivered twice")
            if full:
                if bool(ms) != bool(rows): bad("none", f"{len(ms)} models, {len(rows)} answer sets")
                if ms and costs[-1] != best: bad("optimum", f"last cost {costs[-1]}, optimum {best}")
                if mode == "optN":
                    exp = {x[1] for x in rows if x[4] == best}
                    if set(pa) != exp: bad("optN", f"{len(pa)} optimal models delivered, {len(exp)} exist")
                    rec.count("optN_complete")
                rec.count("optima")
            q = D.result(got)
            if q and q[0] != str(int(bool(ms))): bad("result", q)
        elif what == "cons":
            exp = [x[1] for x in rows]
            tgt = (frozenset.union(*exp) if mode == "brave" else frozenset.intersection(*exp)) if exp else None
            if bool(ms) != bool(exp): bad("none", f"{len(ms)} models, {len(exp)} answer sets")
            for m in ms:
                if m.type != ("BraveConsequences" if mode == "brave" else "CautiousConsequences"): bad("type", m.type)
            for a, b in zip(ats, ats[1:]):
                if not (a < b if mode == "brave" else b < a): bad("monotone", f"{sorted(a)} then {sorted(b)}")
            if ms and ats[-1] != tgt: bad("consequences", f"{sorted(ats[-1])} expected {sorted(tgt)}")
            if tgt is not None: rec.count("consequences")
        elif what == "proj":
            f = lambda x: (x[1] & {p.names[a] for a in p.project}) if mode == "project" else x[2] | x[3]
            exp = {f(x) for x in rows}
            pr = [f(byatoms[a]) for a in ats]
            if len(set(pr)) != len(pr): bad("twice", f"projection delivered twice: {[sorted(x) for x in pr]}")
            if full and set(pr) != exp: bad("missing", f"{len(pr)} projections, {len(exp)} exist")
            rec.count("projections", len(pr))


def check(chk):
    for k in KINDS + ("ref",): D.command(k)
    n = vf.scale(250*4, 3000)

    def shard(rec, idx):
        items = [build(rec.rng) for _ in range(n)]
        cases = [i[2] for i in items]
        res = {k: D.run_batch(k, cases, timeout=600) for k in KINDS + ("ref",)}
        for i, (p, e, ops, steps) in enumerate(items):
            if scen.judged(rec, judge, ops, res["ref"][i], {k: res[k][i] for k in KINDS}, p, e, ops, steps):
                scen.differential(rec, ops, res["ref"][i], {k: res[k][i] for k in KINDS})
                rec.case("\n".join(ops), n=3 * len(steps), nontrivial=len(e.rows) > 1, sample={"program": p.text(), "answer_sets": len(e.rows)})
    vf.shards(chk, shard, 8)
    vf.mock_sections(chk, "minimize consequence project", "minimize consequence")


if __name__ == "__main__": vf.main(check, "P06", rule="distinct (program, reasoning mode) cases with more than one answer set judged against brute force")
