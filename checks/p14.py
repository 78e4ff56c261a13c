#!/usr/bin/env python3
"""P14: symbolic atoms of generated stratified, multi-step programs compared with a bottom-up evaluation of possible atoms and facts."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, scen, drivers as D

KINDS = ("py", "cc", "lua")
TERMS = ["0", "1", "2", "-3", "2147483647", "a", "b", '"s t"', '"a\\"b"', "f(1)", "-f(a,b)", "(1,2)", "()", "(a,)", "#inf", "#sup", "x_1'", "f(f(f(0)))", "abcdefgh", '""']


class Gen:
    """Program in layers: predicates of one layer are defined by facts, choices and rules over lower layers, so evaluation is immediate."""
    def __init__(self, rng):
        self.rng = rng
        self.terms = rng.sample(TERMS, rng.randint(2, 6))
        self.poss, self.fact, self.ext, self.released = {}, set(), set(), set()      # poss: dict atom -> None, ordered
        names = rng.sample(["p", "q", "r", "edge", "x'", "_hid", "a", "longer_predicate_name"], rng.randint(3, 6))
        self.sigs = []
        for n in names:
            for _ in range(rng.choice([1, 1, 2])):
                s = (n, rng.choice([0, 1, 1, 2, 3]), rng.random() < 0.25)
                if s not in self.sigs: self.sigs.append(s)
        self.defined = set()

    @staticmethod
    def atom(s, args): return ("-" if s[2] else "") + s[0] + ("(" + ",".join(args) + ")" if args else "")

    def step(self, k):
        """Rules of one step; every signature is only given new atoms of this step by the last argument, so that steps stay modular."""
        rng, out = self.rng, []
        newposs, newfact, newext = {}, set(), set()
        bysig = {}
        for s in self.sigs:
            inst = bysig.setdefault(s, {})      # args -> fact?
            n, ar, neg = s
            if ar == 0 and k > 0: continue
            def args(): return tuple([rng.choice(self.terms) for _ in range(ar - 1)] + ([str(100 + k)] if k > 0 or rng.random() < 0.2 else [rng.choice(self.terms)]) if ar else [])
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                a = args()
                w = rng.random()
                if w < 0.35:
                    out.append(self.atom(s, a) + ".")
                    inst[a] = True
                elif w < 0.7:
                    out.append("{ %s }." % self.atom(s, a))
                    inst.setdefault(a, False)
                elif a not in inst:
                    out.append("#external %s." % self.atom(s, a))
                    newext.add((s, a))
            lower = [t for t in self.sigs[:self.sigs.index(s)] if t[1] > 0 and (bysig[t] or any(x == t for x, _ in newext))]
            if ar and lower and rng.random() < 0.6:      # rules with variables over a lower predicate
                t = rng.choice(lower)
                vs = ["X%d" % i for i in range(t[1])]
                u = rng.choice([x for x in self.sigs[:self.sigs.index(s)]] or [None])
                last = [str(100 + k)] if k > 0 else [rng.choice(vs)]
                hargs = [rng.choice(vs) for _ in range(ar - 1)] + last
                negl = u is not None and rng.random() < 0.4
                uargs = [rng.choice(vs) for _ in range(u[1])] if negl else []
                lastt = [str(100 + k)] if k > 0 else []
                targs = vs[:t[1] - len(lastt)] + lastt
                if set(hargs) - {str(100 + k)} <= set(targs) and set(uargs) <= set(targs):
                    out.append("%s :- %s%s." % (self.atom(s, hargs), self.atom(t, targs), ", not " + self.atom(u, uargs) if negl else ""))
                    for a, f in list(bysig[t].items()) + [(a, False) for x, a in sorted(newext) if x == t and a not in bysig[t]]:
                        env = {v: x for v, x in zip(targs, a)}
                        if lastt and a[-1] != lastt[0]: continue
                        sub = lambda xs: tuple(env.get(x, x) for x in xs)
                        if negl:
                            c = (u, sub(uargs))
                            st = bysig.get(u, {}).get(c[1])
                            if st is None and c in self.fact: st = True
                            if st is True: continue
                            if st is False or c in self.poss or c in newext or c in self.ext: f = False
                        h = sub(hargs)
                        inst[h] = inst.get(h, False) or f
            for a, f in inst.items():
                newposs[s, a] = None
                if f: newfact.add((s, a))
        for x in newext:
            if x in newposs: newext = newext - {x}
        rng.shuffle(out)
        return out, newposs, newfact, newext


def build(rng):
    c = type("Case", (), {})()
    g = Gen(rng)
    nsteps = rng.choice([1, 1, 2, 3])
    c.ops = [D.op("new", "0", "0")]
    c.expect = []        # (op index, possible, facts, externals, unsure)
    texts = []
    for k in range(nsteps):
        out, np, nf, ne = g.step(k)
        part = "base" if k == 0 else "s%d" % k
        # atoms already defined in an earlier step are not redefined
        dup = [x for x in np if x in g.poss or x in g.ext]
        if dup or any(x in g.poss or x in g.ext for x in ne): break
        texts.append("\n".join(out) + "\n")
        c.ops += [D.op("add", part, "", D.enc(texts[-1]))]
        if rng.random() < 0.15: c.ops.append("satoms")      # before grounding: unchanged
        if c.ops[-1] == "satoms": c.expect.append((len(c.ops) - 1, dict(g.poss), set(g.fact), set(g.ext), set(g.released)))
        c.ops.append(D.op("ground", part))
        g.poss.update(np)
        g.fact |= nf
        g.ext |= ne
        c.ops.append("satoms")
        c.expect.append((len(c.ops) - 1, dict(g.poss), set(g.fact), set(g.ext), set(g.released)))
        if rng.random() < 0.3:
            c.ops.append("cleanup")
        if g.ext and rng.random() < 0.5:
            x = rng.choice(sorted(g.ext))
            w = rng.choice(["assign", "assign", "release"])
            c.ops.append(D.op("assign", D.enc(g.atom(*x)), rng.choice("tfu")) if w == "assign" else D.op("release", D.enc(g.atom(*x))))
            if w == "release":
                g.ext.discard(x)
                g.released.add(x)
    q = []
    every = list(g.poss) + sorted(g.ext) + sorted(g.released)
    sigs = g.sigs + [("nosuch", 1, False), ("p", 7, False), ("p", 1, True), ("q", 2, False)]
    for s in sigs:
        if rng.random() < 0.6: q.append(D.op("bysig", D.enc(s[0]), str(s[1]), "0" if s[2] else "1"))
    for x in rng.sample(every, min(3, len(every))): q.append(D.op("lookup", D.enc(g.atom(*x))))
    for t in ["1", '"a"', "(1,2)", "#inf", "nosuch(1)", "-nosuch", "p(17)"] + ["%s(%s)" % (rng.choice(g.sigs)[0], rng.choice(g.terms))]:
        if rng.random() < 0.5: q.append(D.op("lookup", D.enc(t)))
    rng.shuffle(q)
    c.q0 = len(c.ops)
    c.final = (dict(g.poss), set(g.fact), set(g.ext), set(g.released))
    c.ops += q + ["satoms"]
    c.expect.append((len(c.ops) - 1,) + c.final)
    if rng.random() < 0.5: c.ops.append("iprop")
    c.ops += ["tprop", D.op("solve", rng.choice(["cb", "yield"]), "", "3", "S:" if rng.random() < 0.5 else ""), "satoms"]
    c.text = "\n#step\n".join(texts)
    c.steps = nsteps
    c.atom = g.atom
    return c


def dumps(lines):
    """The satoms dumps within the log of one operation: (atoms, signatures, by signature)."""
    res = []
    for l in lines:
        if l.startswith("satoms "): res.append([l, None, {}])
        elif l.startswith("sigs ") and res: res[-1][1] = l[5:].split("|") if l[5:] else []
        elif l.startswith("sig ") and res:
            s, v = (l[4:] + " ").split(" ", 1)
            if s in res[-1][2]: res[-1][2][s] = None
            else: res[-1][2][s] = [x for x in v.strip().split("|") if x]
    return res


def sigof(t):
    """Signature text of an atom text as the drivers log it."""
    pos = not t.startswith("-")
    n = t if pos else t[1:]
    d, cnt, instr, i = 0, 0, False, 0
    name = n
    if "(" in n:
        name = n[:n.index("(")]
        inner = n[n.index("(") + 1:-1]
        cnt = 1
        while i < len(inner):
            ch = inner[i]
            if instr:
                if ch == "\\": i += 1
                elif ch == '"': instr = False
            elif ch == '"': instr = True
            elif ch == "(": d += 1
            elif ch == ")": d -= 1
            elif ch == "," and d == 0: cnt += 1
            i += 1
    return "%s/%d/%d" % (D.enc(name), cnt, pos)


def views(bad, d):
    """One dump is consistent with itself."""
    sa = scen.satoms([d[0]])
    if not isinstance(sa, dict):
        bad("views", f"{sa} in {d[0][:300]}")
        return None
    if d[1] is None or len(set(d[1])) != len(d[1]) or set(d[1]) != set(d[2]): bad("signatures", f"{d[1]} and {sorted(d[2])}")
    by = {}
    for t in sa: by.setdefault(sigof(t), []).append(D.enc(t))
    for s in by:
        if s not in d[2]: bad("signature", f"{s} of {by[s][:3]} is not listed in {d[1]}")
    for s, v in d[2].items():
        if v is None or sorted(v) != sorted(by.get(s, [])): bad("bysignature", f"{s}: {v} instead of {by.get(s)}")
    lits = [v[0] for v in sa.values() if v[0] != 0 and not v[1]]
    if len(set(lits)) != len(lits): bad("literals", f"not unique: {sa}")
    if any(l < 0 for l in lits): bad("literals", f"negative: {sa}")
    return sa


def judge(rec, kind, c, r):
    replay = {"driver": kind, "ops": c.ops, "program": c.text}
    def bad(k, m): rec.violation(f"{kind}-{k}", f"{kind}: {m}\nprogram:\n{c.text}", replay)
    if isinstance(r, D.Crash): return bad("crash", r.what)
    for i, ls in enumerate(r):
        for l in ls:
            if l.startswith("BAD") or l.startswith("ERR") or l.startswith("log ") and not l.startswith("log AtomUndefined"): bad(l.split(" ")[1], f"{l} in {c.ops[i]!r}")
    last = None
    for i, poss, fact, ext, rel in c.expect:
        d = dumps(r[i])
        if len(d) != 1: return bad("dump", r[i])
        sa = views(bad, d[0])
        if sa is None: return
        E = lambda x: c.atom(*x)
        P, F, X, R = set(map(E, poss)), set(map(E, fact)), set(map(E, ext)), set(map(E, rel))
        if not P | X <= set(sa) or not set(sa) <= P | X | R: bad("atoms", f"missing {sorted((P | X) - set(sa))}, extra {sorted(set(sa) - P - X - R)}")
        for t, v in sa.items():
            if v[1] != (t in F): bad("fact", f"{t}: fact {v[1]}")
            if v[2] != (t in X): bad("external", f"{t}: external {v[2]}")
            if v[0] == 0 and t in P | X: bad("literal0", t)
        last = sa
        rec.count("atoms", len(sa))
    for i in range(c.q0, len(c.ops)):
        o = c.ops[i].split("\t")
        if o[0] == "bysig":
            s = "%s/%s/%s" % (o[1], o[2], o[3])
            got = r[i][0][6:].strip() if r[i] else None
            if got is None or sorted(x for x in got.split("|") if x) != sorted(D.enc(t) for t in last if sigof(t) == s): bad("bysig", f"{o}: {r[i]}")
            rec.count("queries")
        elif o[0] == "lookup":
            t = D.dec(o[1])
            w = "lookup none" if t not in last else "lookup %s %d %d%d" % (D.enc(t), last[t][0], last[t][1], last[t][2])
            if r[i] != [w]: bad("lookup", f"{t}: {r[i]} instead of {w}")
            rec.count("queries")
        elif o[0] == "solve":
            ds = dumps(r[i])
            for d in ds:
                sa = views(bad, d)
                if sa is not None and {t: v[:2] for t, v in sa.items()} != {t: v[:2] for t, v in last.items()}: bad("context", f"atoms seen by a propagator or model differ: {sa} {last}")
                rec.count("context_dumps")
            ta = None
            n = 0
            for l in r[i]:
                if l.startswith("M\t"):
                    n += 1
                    rec.count("models")
    

def check(chk):
    for k in KINDS + ("ref",): D.command(k)
    n = vf.scale(500, 5000)

    def shard(rec, idx):
        items = [build(rec.rng) for _ in range(n)]
        cases = [i.ops for i in items]
        res = {k: D.run_batch(k, cases, timeout=600) for k in KINDS + ("ref",)}
        for i, c in enumerate(items):
            if scen.judged(rec, judge, cases[i], res["ref"][i], {k: res[k][i] for k in KINDS}, c):
                scen.differential(rec, cases[i], res["ref"][i], {k: res[k][i] for k in KINDS})
                rec.case(c.text, n=3, sample={"program": c.text})
    vf.shards(chk, shard, 8)


if __name__ == "__main__": vf.main(check, "P14", rule="distinct programs whose symbolic atoms were compared")
