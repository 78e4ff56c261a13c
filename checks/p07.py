import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, drivers as D, asp, scen

KINDS = ("py", "cc", "lua")
MODES = ["cb", "yield", "step", "async", "ayield"]
ARGS = [("1", "n:1"), ("2", "n:2"), ("-7", "n:-7"), ("x", "f:x:+:0"), ('"s\\"t"', "s:s%22t"), ("(1,a)", "t:2 n:1 f:a:+:0"), ("f(x)", "f:f:+:1 f:x:+:0"), ("#inf", "i"), ("#sup", "p"), ("-y", "f:y:-:0"), ("2147483647", "n:2147483647")]


class Hist:
    def __init__(self, rng, steps):
        self.rng = rng
        self.p = asp.Prog([])
        self.ops, self.steps = [], []
        self.released = set()
        self.maxatoms = 13
        self.ids = {}           # name -> known to be derivable / external (may be referred to)
        self.grounded = False
        self.o(D.op("new", "0", "0"))
        self.order = []
        for t in range(steps): self.step(t)

    def o(self, line, what=None, **kw):
        self.ops.append(line)
        if what: self.steps.append((len(self.ops) - 1, what, kw))

    def atom(self, name):
        p = self.p
        if name not in p.names:
            p.names.append(name)
            p.n += 1
        return p.names.index(name)

    def lit(self, cand):
        s = 0 if self.rng.random() < 0.55 else 1 if self.rng.random() < 0.8 else 2
        return ("l", s, self.rng.choice(cand))

    def ground_step(self, t):
        """Grounds new parts: local atoms st(K,i) for the given argument terms, rules over them and over earlier atoms."""
        rng, p = self.rng, self.p
        nparts = rng.choice([1, 1, 2])
        m = rng.randint(2, 3)
        calls = []
        for q in range(nparts):
            if p.n + m + 1 > self.maxatoms: m = max(0, self.maxatoms - p.n - 1)
            if m == 0: break
            name = "s%d%s" % (t, "ab"[q])
            params = rng.choice([[], ["k"], ["k", "l"]])
            insts = [[rng.choice(ARGS) for _ in params]]
            if params and rng.random() < 0.3 and p.n + 2 * m < self.maxatoms: insts.append([rng.choice(ARGS) for _ in params])
            if len(insts) == 2 and insts[0] == insts[1]: insts.pop()
            pname = "base" if not params and t == 0 and q == 0 and rng.random() < 0.7 else "part%d%s" % (t, "xy"[q])
            loc = lambda i, args: name + "(" + ",".join([*args, str(i)]) + ")"
            earlier = [a for a in range(p.n) if not p.names[a].startswith('#')]
            exts = [i for i in range(m) if rng.random() < 0.25]
            rules = []
            # an external of an earlier step may get its definition now
            redef = [a for a in p.ext if p.ext[a] is not None and not p.names[a].startswith('#') and rng.random() < 0.25 and len(insts) == 1]
            heads = [i for i in range(m) if i not in exts]
            for _ in range(rng.randint(1, 5)):
                k = rng.random()
                body = [self.ref(earlier, m) for _ in range(rng.randint(0, 2))]
                if k < 0.35 and heads: rules.append((("c", rng.sample(heads, rng.randint(1, len(heads)))), body))
                elif k < 0.5: rules.append((("d", []), body + [self.ref(earlier, m)]))
                elif heads: rules.append((("d", [rng.choice(heads)]), body))
            rdefs = []
            for a in redef:
                rdefs.append(a)
                live = [e for e in p.ext if p.ext[e] is not None and e not in redef]
                if rng.random() < 0.4: rules.append((("c", [("g", a)]), []))
                else: rules.append((("d", [("g", a)]), [(rng.choice([0, 0, 1]), ("g", rng.choice(live))) for _ in range(rng.randint(0, 2) if live else 0)]))
            text = []
            for i in exts: text.append("#external %s. [%s]" % (loc(i, params), rng.choice(["true", "false", "free"])))
            vals = [s.split("[")[1].rstrip("]") for s in text]
            for h, b in rules:
                hs = " | ".join if h[0] == "d" else None
                nm = lambda a: p.names[a[1]] if isinstance(a, tuple) else loc(a, params)
                ht = ("{ " + "; ".join(nm(a) for a in h[1]) + " }") if h[0] == "c" else (nm(h[1][0]) if h[1] else "")
                bt = "; ".join(("", "not ", "not not ")[s] + nm(a) for s, a in b)
                text.append(ht + (" :- " + bt if b or not ht else "") + ".")
            rng.shuffle(text)
            self.o(D.op("add", pname, ";".join(params), D.enc("\n".join(text))))
            for inst in insts:
                calls.append((pname, inst))
                args = [a for a, _ in inst]
                ix = {i: self.atom(loc(i, args)) for i in range(m)}
                for i, v in zip(exts, vals): p.ext[ix[i]] = v[0] if v != "free" else "u"
                for a in rdefs: p.ext.pop(a, None)
                g = lambda a: a[1] if isinstance(a, tuple) else ix[a]
                for h, b in rules: p.add((h[0], [g(a) for a in h[1]], None, None) if h[0] == "c" else (h[0], [g(a) for a in h[1]]), [("l", s, g(a)) for s, a in b])
        if not calls: return
        self.rng.shuffle(calls)
        self.o(D.op("ground", "|".join(";".join([D.enc(n)] + [b for _, b in inst]) for n, inst in calls)))

    def ref(self, earlier, m):
        r = self.rng
        s = 0 if r.random() < 0.55 else 1 if r.random() < 0.8 else 2
        if earlier and r.random() < 0.55: return (s, ("g", r.choice(earlier)))
        return (s, r.randrange(m))

    def backend_step(self, t):
        rng, p = self.rng, self.p
        m = rng.randint(1, 2)
        if p.n + m > self.maxatoms: return
        known = {}
        cmds = []

        def use(a):
            if a not in known:
                known[a] = "v%d" % len(known)
                cmds.append("atom %s %s" % (known[a], D.enc(p.names[a])))
            return known[a]
        earlier = [a for a in range(p.n) if not p.names[a].startswith('#')]
        new = []
        for i in range(m):
            name = "b%d(%d)" % (t, i)
            new.append(self.atom(name))
            use(new[-1])
        hidden = None
        if rng.random() < 0.4 and p.n < self.maxatoms:
            hidden = self.atom("#hidden%d" % t)
            known[hidden] = "h"
            cmds.append("atom h -")
            new.append(hidden)
        if rng.random() < 0.3:
            a = new.pop(0) if len(new) > 1 else None
            if a is not None:
                v = rng.choice("tfu")
                cmds.append("ext %s %s" % (use(a), {"t": "True_", "f": "False_", "u": "Free"}[v]))
                p.ext[a] = v
                earlier.append(a)
        for _ in range(rng.randint(1, 3)):
            body = []
            for _ in range(rng.randint(0, 3)):
                a = rng.choice(earlier + new) if earlier else rng.choice(new)
                s = rng.choice([0, 0, 1])
                body.append((s, a))
            bt = ",".join(("-" if s else "") + use(a) for s, a in body) or "-"
            lits = [("l", s, a) for s, a in body]
            k = rng.random()
            if k < 0.3:
                hs = rng.sample(new, rng.randint(1, len(new)))
                cmds.append("rule 1 %s %s" % (",".join(use(h) for h in hs), bt))
                p.add(("c", hs, None, None), lits)
            elif k < 0.45 and body:
                cmds.append("rule 0 - " + bt)
                p.add(("d", []), lits)
            elif k < 0.65:
                ws = [rng.randint(1, 3) for _ in body]
                lb = rng.randint(1, 4)
                # distinct literals only (equal ones would be merged by weight)
                seen, wb = set(), []
                for (s, a), w in zip(body, ws):
                    if a not in seen:
                        seen.add(a)
                        wb.append((s, a, w))
                if not wb: continue
                h = rng.choice(new)
                cmds.append("wrule 0 %s %d %s" % (use(h), lb, ",".join("%s%s=%d" % ("-" if s else "", use(a), w) for s, a, w in wb)))
                p.add(("d", [h]), [("g", 0, "sum", ">=", lb, [(w, "t%d" % i, [("l", s, a)]) for i, (s, a, w) in enumerate(wb)])])
            else:
                h = rng.choice(new)
                cmds.append("rule 0 %s %s" % (use(h), bt))
                p.add(("d", [h]), lits)
        self.o("\t".join(["backend"] + cmds))

    def externals(self):
        rng, p = self.rng, self.p
        for a in list(p.ext):
            k = rng.random()
            if p.ext[a] is None or a in self.released: continue
            if p.names[a].startswith("#"): continue
            if k < 0.5:
                v = rng.choice("tfu")
                if v != "u" or True:
                    ref = D.enc(p.names[a])
                    self.o(D.op("assign", ref, v))
                    p.ext[a] = v
            elif k < 0.6:
                self.o(D.op("release", D.enc(p.names[a])))
                p.ext[a] = None
                self.released.add(a)
        # assigning to atoms that are not external (or unknown) has no effect
        if rng.random() < 0.2: self.o(D.op("assign", D.enc("unknown(%d)" % rng.randint(0, 9)), rng.choice("tf")))

    def solves(self):
        rng, p = self.rng, self.p
        masks = p.answer_sets()
        sym = [a for a in range(p.n) if not p.names[a].startswith("#")]
        sup = p.supportable()
        for _ in range(rng.randint(1, 3)):
            mode = rng.choice(MODES)
            ass, toks = [], []
            if rng.random() < 0.65 and sym:
                for _ in range(rng.choice([1, 1, 2, 3, 4])):
                    a = rng.choice(sym)
                    s = rng.choice("+-")
                    ass.append((s, a))
                    toks.append(s + D.enc(p.names[a]))
            un = None
            if rng.random() < 0.12:
                un = rng.choice("+-")
                toks.insert(rng.randint(0, len(toks)), un + "nosuchatom")
            sel = [M for M in masks if all((M >> a & 1) == (s == "+") for s, a in ass)]
            if un == "+": sel = []
            act, kind = "", None
            k = 0
            x = rng.random()
            if x < 0.15 and sym:
                cl = [(rng.choice("+-"), rng.choice(sym)) for _ in range(rng.randint(1, 3))]
                neg = rng.random() < 0.5
                lits, kind = [s + D.enc(p.names[a]) for s, a in cl], ("clause", cl, neg)
                if rng.random() < 0.4:
                    u = rng.choice("+-")        # of an atom that does not occur: irrelevant or satisfies the clause
                    lits.insert(rng.randint(0, len(lits)), u + "nosuchatom")
                    if (u == "-") != neg: kind = None
                act = ("n:" if neg else "c:") + ";".join(lits)
            elif x < 0.3 and sym:
                pr = rng.sample(sym, rng.randint(1, min(3, len(sym))))
                act = "b:" + ";".join(D.enc(p.names[a]) for a in pr)
                kind = ("block", pr)
            elif x < 0.45: k = rng.randint(1, 3)
            self.o(D.op("solve", mode, ";".join(toks), str(k), *([act] if act else [])), "solve", masks=sel, k=k, kind=kind, ass=ass, un=un, mode=mode, names=list(p.names), ext=dict(p.ext),
                   rules=list(p.rules))
        if rng.random() < 0.5: self.o("satoms", "satoms")

    def step(self, t):
        rng = self.rng
        k = rng.random()
        if t == 0 or k < 0.6: self.ground_step(t)
        else: self.backend_step(t)
        if rng.random() < 0.2: self.backend_step(t + 100)
        self.externals()
        self.solves()
        if rng.random() < 0.2: self.o("cleanup")
        if rng.random() < 0.5:
            self.externals()
            self.solves()


def vis(names, M): return frozenset(n for i, n in enumerate(names) if M >> i & 1 and not n.startswith("#"))


def judge(rec, kind, h, r):
    replay = {"driver": kind, "ops": h.ops}
    if isinstance(r, D.Crash):
        rec.violation(f"{kind}-crash", r.what, replay)
        return
    for i, got in enumerate(r):
        for l in scen.bad_lines(got) + [l for l in got if l.startswith("ERR")]: rec.violation(f"{kind}-{l.split(' ')[0]}-{h.ops[i].split(chr(9))[0]}", f"{l} in {h.ops[i]!r}", dict(replay, op=i))
    for i, what, kw in h.steps:
        got = r[i]
        hist = "\n".join(h.ops[:i + 1])
        def bad(k, m): rec.violation(f"{kind}-{kw.get('mode', what)}-{k}", f"{kind} {h.ops[i]!r}: {m}\nhistory:\n{hist}", dict(replay, op=i))
        if what == "satoms":
            if not isinstance(scen.satoms(got), dict): bad("satoms", got)
            continue
        names = kw["names"]
        ms = D.models(got)
        rec.count("models", len(ms))
        exp = [vis(names, M) for M in kw["masks"]]
        atoms = [frozenset(m.atoms) for m in ms]
        for m in atoms:
            if m not in exp: bad("notanswerset", f"{sorted(m)} is not an answer set of the accumulated program")
        complete = not kw["k"] or kw["k"] > len(exp)
        if kw["kind"] is None:
            want = min(kw["k"], len(exp)) if kw["k"] else len(exp)
            if len(ms) != want: bad("count", f"{len(ms)} models, expected {want} of {len(exp)}")
            if not any(n.startswith("#") for n in names):
                if len(set(atoms)) != len(atoms): bad("twice", "answer set delivered twice")
                if complete and set(atoms) != set(exp): bad("missing", [sorted(x) for x in set(exp) - set(atoms)][:2])
            elif complete and sorted(map(sorted, atoms)) != sorted(map(sorted, exp)): bad("multiset", "models differ")
        elif kw["kind"][0] == "block":
            pr = {names[a] for a in kw["kind"][1]}
            seen = [m & pr for m in atoms]
            if len(set(seen)) != len(seen): bad("blocked", f"a blocked projection to {sorted(pr)} was delivered again")
            if set(seen) != {m & pr for m in exp}: bad("blocked-missing", "a projection was not delivered")
        else:
            _, cl, neg = kw["kind"]
            lits = [((s == "+") != neg, names[a]) for s, a in cl]
            ok = lambda m: any((n in m) == s for s, n in lits)
            for m in atoms[1:]:
                if not ok(m): bad("clause", f"model {sorted(m)} violates the added clause {lits}")
            want = {m for m in exp if ok(m)}
            if not want <= set(atoms): bad("clause-missing", f"models satisfying the added clause {lits} are missing")
            if bool(atoms) != bool(exp): bad("clause-none", "no model although there are answer sets")
        stopped = kw["k"] and len(ms) == kw["k"]
        if kw["kind"] is None: scen.judge_result(bad, got, len(ms), complete and not stopped)
        cores = [l for l in got if l.startswith("core ")]
        if not exp and kw["kind"] is None and kind != "lua":
            if len(cores) > 1: bad("core-twice", cores)
            if cores: rec.count("cores")
        if cores and exp: bad("core-sat", "core reported although there are models")
    # cores: consist of assumed literals (or literals of external atoms) and are unsatisfiable
    lm = None
    for i, what, kw in h.steps:
        if what == "satoms":
            d = scen.satoms(r[i])
            lm = (i, d if isinstance(d, dict) else None)
        elif what == "solve" and lm and lm[1] and kind != "lua" and not kw["un"] and not any(o.startswith(("ground", "backend", "cleanup")) for o in h.ops[lm[0]:i]):
            for l in r[i]:
                if not l.startswith("core "): continue
                lits = [] if l == "core -" else [int(x) for x in l[5:].split(",")]
                bylit = {}
                for s, (lit, f, e) in lm[1].items(): bylit.setdefault(abs(lit), []).append((s, lit))
                ass = {(names_lit(kw["names"], lm[1], s, a)) for s, a in kw["ass"]}
                exts = {abs(lm[1][kw["names"][a]][0]) for a in kw["ext"] if kw["names"][a] in lm[1]}
                fixed = []
                for x in lits:
                    if x not in ass and abs(x) not in exts and abs(x) != 1: rec.violation(f"{kind}-core-foreign", f"core {lits} contains {x}, which was not assumed ({sorted(y for y in ass if y is not None)})\n" + "\n".join(h.ops[:i + 1]), dict(replay, op=i))
                    for s, lit in bylit.get(abs(x), []): fixed.append((s, (x > 0) == (lit > 0)))
                if any(abs(x) == 1 for x in lits): continue
                q = asp.Prog(kw["names"])
                q.rules, q.ext = kw["rules"], kw["ext"]
                if any(all((n in vis(kw["names"], M)) == v for n, v in fixed) for M in q.answer_sets()):
                    rec.violation(f"{kind}-core-sat", f"core {lits} = {fixed} is satisfiable\n" + "\n".join(h.ops[:i + 1]), dict(replay, op=i))
                rec.count("cores_verified")


def names_lit(names, sat, s, a):
    v = sat.get(names[a])
    if v is None: return None
    return v[0] if s == "+" else -v[0]


def check(chk): histories(chk, vf.scale(150, 1000))


def histories(chk, n):
    for k in KINDS + ("ref",): D.command(k)

    def shard(rec, idx):
        hs = [Hist(rec.rng, rec.rng.randint(2, 4)) for _ in range(n)]
        cases = [h.ops for h in hs]
        res = {k: D.run_batch(k, cases, timeout=600) for k in KINDS + ("ref",)}
        for i, h in enumerate(hs):
            if scen.judged(rec, judge, h.ops, res["ref"][i], {k: res[k][i] for k in KINDS}, h):
                rec.case("\n".join(h.ops), n=3 * len(h.steps), sample=h.ops[:8])
                rec.count("solve_calls", sum(1 for s in h.steps if s[1] == "solve") * 3)
    vf.shards(chk, shard, 8)


if __name__ == "__main__": vf.main(check, "P07", rule="distinct multi-shot histories (grounding, externals, backend, assumptions, clauses, early stops) judged against brute-force answer sets of the accumulated program")
