import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import p07, vf, drivers as D, asp, scen

KINDS = ("py", "cc", "lua")
MODES = ["cb", "yield", "step", "async", "ayield"]
EXT = ["n:7", "t:1 s:x", "f:a:+:0", "p", "f:a:-:1 f:b:+:1 n:-2", "s:q%22"]
EXT_T = ["7", '("x",)', "a", "#sup", "-a(b(-2))", '"q\\""']


def build(rng, big):
    n = rng.randint(3, 8 if big else 7)
    p = asp.gen(rng, n, rng.randint(3, 10), ("choice", "disj", "ext", "show", "terms", "neg2"))
    e = scen.Exp(p)
    tot = len(e.rows)
    ops = [D.op("new", "0", "0"), D.op("add", "base", "", D.enc(p.text(rng)))]
    steps = []

    def o(line, what=None, **kw):
        ops.append(line)
        steps.append((len(ops) - 1, what, kw))
    ops.append(D.op("ground", "base"))
    o(D.op("satoms"), "satoms")
    for mode in rng.sample(MODES, rng.randint(2, 4)):
        k = 0
        if rng.random() < 0.45: k = rng.choice([1, 2, max(1, tot - 1), tot, tot + 1]) or 1
        act = ""
        xs = []
        if rng.random() < 0.4:
            xs = [rng.randrange(len(EXT)) for _ in range(rng.randint(0, 4))]
            act = "x:" + ";".join(EXT[i] for i in xs) if xs else ""
        o(D.op("solve", mode, "", str(k), *([act] if act else [])), "solve", k=k, xs=xs, mode=mode)
    # model limits given to the solver
    for k in rng.sample([1, 2, 3, tot, tot + 1], 2):
        if k == 0: continue
        o(D.op("confset", "solve.models", str(k)))
        o(D.op("solve", rng.choice(MODES), "", "0"), "limit", n=k)
    o(D.op("confset", "solve.models", "0"))
    o(D.op("solve", "cb", "", "0"), "solve", k=0, xs=[], mode="cb")
    return p, e, ops, steps


def judge(rec, kind, p, e, ops, steps, r):
    replay = {"driver": kind, "ops": ops, "program": p.text()}
    if isinstance(r, D.Crash):
        rec.violation(f"{kind}-crash", r.what, replay)
        return
    dom = None
    for i, got in enumerate(r):
        for l in scen.bad_lines(got) + [l for l in got if l.startswith("ERR")]: rec.violation(f"{kind}-{l.split(' ')[0]}-{ops[i].split(chr(9))[0]}", f"{l} in {ops[i]!r}", replay)
    for i, what, kw in steps:
        got = r[i]
        def bad(k, m): rec.violation(f"{kind}-{kw.get('mode', what)}-{k}", f"{kind} {ops[i]!r}: {m}\nprogram:\n{p.text()}", replay)
        if what == "satoms":
            d = scen.satoms(got)
            if not isinstance(d, dict): bad("satoms", got)
            else: dom = {x for x, v in d.items() if v[0] != 0}
        elif what in ("solve", "limit"):
            ms = D.models(got)
            rec.count("models", len(ms))
            tot = len(e.rows)
            k = kw.get("k") or kw.get("n") or 0
            want = min(k, tot) if k else tot
            complete = not k
            if len(ms) != want: bad("count", "%d models delivered, expected %d of %d" % (len(ms), want, tot))
            scen.judge_models(bad, e, ms, dom, complete=complete)
            if complete or k > tot: scen.judge_result(bad, got, len(ms), True)
            else:
                scen.judge_result(bad, got, len(ms), tot == 0)
                q = D.result(got)
                if q and q[3] == "1" and len(ms) < tot: bad("false-exhausted", "reported exhausted after %d of %d models" % (len(ms), tot))
            if kw.get("xs") and not (kind == "lua" and kw["mode"] not in ("cb", "async")):
                x = [l[2:] for l in got if l.startswith("X ")]
                exp = sorted(EXT_T[j] for j in kw["xs"])
                if len(x) != len(ms) or any(sorted(D.dec(s) for s in l.split(" ")) != exp for l in x): bad("extend", "extended with %s, read back %s" % (exp, x[:3]))
            # the event order: models, then finish, then result
            tags = [l[0] for l in got if l[:2] in ("M\t", "F ", "R ")]
            if tags != ["M"] * len(ms) + (["F"] if "F" in tags else []) + ["R"]: bad("order", "events out of order: %s" % tags)


def check(chk):
    for k in KINDS + ("ref",): D.command(k)
    n = vf.scale(40*4, 1200)

    def shard(rec, idx):
        items = [build(rec.rng, vf.TIER == "thorough") for _ in range(n)]
        cases = [i[2] for i in items]
        res = {k: D.run_batch(k, cases, timeout=600) for k in KINDS + ("ref",)}
        for i, (p, e, ops, steps) in enumerate(items):
            if scen.judged(rec, judge, ops, res["ref"][i], {k: res[k][i] for k in KINDS}, p, e, ops, steps):
                scen.differential(rec, ops, res["ref"][i], {k: res[k][i] for k in KINDS})
                rec.case(p.text(), n=3 * len(steps), nontrivial=len(e.rows) > 0, sample={"program": p.text(), "answer_sets": len(e.rows)})
    vf.shards(chk, shard, 8)
    p07.histories(chk, vf.scale(40, 300))       # clauses added between models, blocked models, assumptions
    vf.py_batches(chk, vf.VERIF + "/checks/w05.py", vf.build_py(), [{"seed": vf.SEED * 100 + i, "n": vf.scale(30*4, 600)} for i in range(8)])
    vf.mock_sections(chk, "last", "last")


if __name__ == "__main__": vf.main(check, "P05", rule="distinct (program, interface) pairs with at least one answer set, enumerated in several modes and compared with the brute-force answer sets")
