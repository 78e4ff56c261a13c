import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, drivers as D, asp, scen, bgen

KINDS = ("py", "cc", "lua")
THEORY = """#theory th { t { + : 1, binary, left; - : 1, unary; ** : 3, binary, right; < : 0, binary, left };
  &a/1 : t, any; &b/0 : t, {<=, =}, t, head; &d/0 : t, directive; &c/0 : t, body }.
"""


def extra(rng, p):
    """Directives that only observers and heuristics see."""
    out = []
    at = lambda: rng.choice(p.names)
    body = lambda: rng.choice(["", " : " + rng.choice(["", "not "]) + at()])
    for _ in range(rng.randint(0, 3)):
        k = rng.randint(0, 3)
        if k == 0: out.append("#heuristic %s%s. [%s@%s,%s]" % (at(), body(), rng.choice("1 -3 0 2147483647 -2147483647".split()), rng.choice("0 1 7 2147483647".split()), rng.choice("level sign factor init true false".split())))
        elif k == 1: out.append("#edge (%s,%s)%s." % (rng.choice("uvw"), rng.choice("uvw"), body()))
        elif k == 2: out.append("#project %s%s." % (at(), body()))
        else: out.append("#show %s%s." % (rng.choice(['"a b"', "tt(1)", "-2147483647", "(1,(2,))", "#inf"]), body()))
    return out


def theory(rng, p):
    at = lambda: rng.choice(["", "not "]) + rng.choice(p.names)
    term = lambda: rng.choice(["1", "x", "-1", "1+2", "f(x,1)", "[1,2]", "{a;b}".replace(";", ","), "(x,y)", "(x,)", "()", '"s t"', "x**y**2", "-(1+x)", "2147483647"])
    elem = lambda: ",".join(term() for _ in range(rng.randint(0, 2))) + " : " + ", ".join(at() for _ in range(rng.randint(0, 2)))
    els = lambda: "; ".join(elem() for _ in range(rng.randint(0, 3)))
    out = [THEORY]
    for _ in range(rng.randint(1, 3)):
        k = rng.randint(0, 3)
        if k == 0: out.append("&a(%s) { %s } :- %s." % (rng.choice(["1", "x", "f(2)", '"q"']), els(), at()))
        elif k == 1: out.append("&b { %s } %s %s :- %s." % (els(), rng.choice(["<=", "="]), term(), at()))
        elif k == 2: out.append("&d { %s }." % els())
        else: out.append(":- &c { %s }, %s." % (els(), at()))
    return out


def build(rng, lua):
    small = rng.random() < 0.6
    th = rng.random() < 0.3
    ops = [D.op("new", "0", "0")]
    for _ in range(rng.choice([1, 1, 2])): ops.append(D.op("observe", rng.choice("0001") if not small else "0"))
    n = rng.randint(2, 6)
    p = asp.gen(rng, n, rng.randint(1, 6), ("choice", "disj", "agg", "neg2", "min", "ext", "show", "terms", "bounds"))
    t = p.text(rng) + "\n".join(extra(rng, p)) + "\n"
    if th: t += "\n".join(theory(rng, p))
    prog = rng.random() < 0.75
    if prog: ops += [D.op("add", "base", "", D.enc(t)), D.op("ground", "base")]
    g = bgen.BGen(rng, small, lua, theory=rng.random() < 0.4)
    if rng.random() < 0.7 or not prog: ops.append(D.op("backend", *g.commands(rng.randint(1, 10))))
    sv = []
    if small:
        sv.append(len(ops))
        ops.append(D.op("solve", rng.choice(["cb", "yield"]), "", "0"))
        if rng.random() < 0.5:
            g2 = bgen.BGen(rng, small, lua, theory=False)
            if rng.random() < 0.5: ops += [D.op("add", "s", "", D.enc("{ zz(1..2) }. :- zz(1), not %s. #external yy. [%s]" % (rng.choice(p.names), rng.choice(["true", "free", "false"])))), D.op("ground", "s")]
            ops.append(D.op("backend", *g2.commands(rng.randint(1, 6))))
            sv.append(len(ops))
            ops.append(D.op("solve", rng.choice(["cb", "yield"]), "", "0"))
    if th: ops.append(D.op("tatoms", "1"))
    return ops, sv


def expected_backend(cmds, ids):
    """Observer lines of backend statements, from the commands alone (theory terms are numbered by the library)."""
    out = []
    v = lambda x: str(ids[x]) if x in ids else "-" + str(ids[x[1:]]) if x[0] == "-" and x[1:] in ids else x
    vl = lambda s: "-" if s == "-" else ",".join(v(x) for x in s.split(","))
    vw = lambda s: "-" if s == "-" else ",".join(v(x.split("=")[0]) + "=" + x.split("=")[1] for x in s.split(","))
    for c in cmds:
        k = c.split(" ")
        if k[0] == "rule": out.append(f"O rule {k[1]} {vl(k[2])} {vl(k[3])}")
        elif k[0] == "wrule": out.append(f"O wrule {k[1]} {vl(k[2])} {k[3]} {vw(k[4])}")
        elif k[0] == "min": out.append(f"O min {k[1]} {vw(k[2])}")
        elif k[0] == "ext": out.append(f"O ext {v(k[1])} {k[2]}")
        elif k[0] == "project": out.append(f"O project {vl(k[1])}")
        elif k[0] == "assume": out.append(f"O assume {vl(k[1])}")
        elif k[0] == "heu": out.append(f"O heu {v(k[1])} {k[2].rstrip('_')} {k[3]} {k[4]} {vl(k[5])}")
        elif k[0] == "edge": out.append(f"O edge {k[1]} {k[2]} {vl(k[3])}")
    return out


def contains(seq, lines):
    it = iter(lines)
    return all(x in it for x in seq)


def judge(rec, kind, ops, sv, r):
    rep = {"driver": kind, "ops": ops}
    if isinstance(r, D.Crash):
        rec.violation(f"{kind}-crash", r.what, rep)
        return
    g = bgen.Ground()
    nobs = 0
    total = [l for x in r for l in x]
    for i, (op, ls) in enumerate(zip(ops, r)):
        f = op.split("\t")
        if any(l.startswith(("BAD", "ERR")) for l in ls): rec.violation(f"{kind}-error", f"{[l for l in ls if l.startswith(('BAD', 'ERR'))][:2]} in {op[:400]}", rep)
        if f[0] == "observe": nobs += 1
        if f[0] == "backend":
            ids = {}
            for l in ls:
                if l.startswith("ids "): ids = {k: v for k, v in (x.split("=") for x in l.split()[1:])}
            later = [l for x in r[i:] for l in x if l.startswith("O ")]
            e = expected_backend(f[1:], ids)
            miss = [x for x in e if later.count(x) < nobs * e.count(x)]
            if miss: rec.violation(f"{kind}-backend-{miss[0].split(' ')[1]}", f"{miss[:2]} not reported to the observer {nobs} times in {op[:600]}", rep)
            rec.count("backend_statements", len(e))
        if nobs == 1: g.add(ls)
        if i in sv and nobs == 1:
            e = g.models()
            if e is None: continue
            got = sorted((tuple(sorted(m.shown)), m.cost) for m in D.models(ls))
            if g.min:       # only improving models are delivered
                best = min(c for _, c in e) if e else None
                ok = (not e) == (not got) and set(got) <= set(e) and (not got or min(c for _, c in got) == best)
            else: ok = e == got
            if not ok: rec.violation(f"{kind}-replay", f"the observed program has the answer sets {e[:4]} ({len(e)}), solving gave {got[:4]} ({len(got)})", rep)
            rec.count("evaluated_programs")


def check(chk):
    for k in KINDS + ("ref",): D.command(k)
    n = vf.scale(90*4, 1500)

    def shard(rec, idx):
        rng = rec.rng
        cases = [(lua, *build(rng, lua)) for lua in (rng.random() < 0.4 for _ in range(n))]
        ref = D.run_batch("ref", [c[1] for c in cases], timeout=300)
        py = D.run_batch("py", [c[1] for c in cases], timeout=300)
        cc = D.run_batch("cc", [c[1] for c in cases], timeout=300)
        li = [i for i, c in enumerate(cases) if c[0]]
        lua = dict(zip(li, D.run_batch("lua", [cases[i][1] for i in li], timeout=300)))
        for i, (l, ops, sv) in enumerate(cases):
            res = {"py": py[i], "cc": cc[i], **({"lua": lua[i]} if i in lua else {})}
            rec.case(tuple(ops), n=len(res), sample={"ops": [o[:300] for o in ops]})
            if not isinstance(ref[i], D.Crash):
                for x in ref[i]:
                    for y in x:
                        if y.startswith("O "): rec.count("observed_" + y.split()[1])
            scen.differential(rec, ops, ref[i], res, compl=False)
            scen.judged(rec, judge, ops, ref[i], res, ops, sv)
    vf.shards(chk, shard, 8)
    vf.mock_sections(chk, "files", "")


if __name__ == "__main__": vf.main(check, "P09", rule="distinct histories of programs and backend statements with observers; logs compared with the reference driver and evaluated by brute force")
