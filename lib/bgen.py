"""Generator of backend command lists, and an evaluator of observed ground programs."""
import re
import asp, drivers as D, symgen as S

HEU = ["Level", "Sign", "Factor", "Init", "True_", "False_"]
EXT = ["Free", "True_", "False_", "Release"]
BIG = [0, 1, -1, 2, -2, 7, -13, 100, 65535, 65536, -65537, 2147483647, -2147483647, -2147483648, 2147483646]


class BGen:
    """small: keeps to programs that can be solved by brute force."""
    def __init__(self, rng, small=True, lua=False, theory=False):
        self.rng, self.small, self.lua, self.theory = rng, small, lua, theory
        self.atoms, self.terms, self.elems = [], [], []
        self.k = 0

    def name(self, p):
        self.k += 1
        return p + str(self.k)

    def commands(self, n):
        rng, cmds = self.rng, []
        for _ in range(rng.randint(2, 5) if not self.atoms else rng.randint(0, 2)): cmds.append(self.atom())
        kinds = ["rule"] * 5 + ["wrule"] * 3 + ["min", "ext", "atom"] + ([] if self.lua else ["project", "assume", "heu", "heu", "edge", "edge"])
        if self.theory and not self.lua: kinds += ["tnum", "tstr", "tfun", "tseq", "tsym", "telem", "telem", "tatom", "tatom"]
        for _ in range(n):
            c = getattr(self, rng.choice(kinds))()
            if c: cmds.append(c)
        return cmds

    def atom(self):
        x = self.name("v")
        sym = self.rng.random() < 0.6
        self.atoms.append(x)
        if not sym: return f"atom {x} -"
        s = self.rng.choice(["b%d", "bp(%d)", "-bq(%d)", 'br("s",%d)', "bt((%d,))"]) % len(self.atoms)
        return f"atom {x} {D.enc(s)}"

    def lits(self, mx=3, pos=False):
        k = self.rng.randint(0, mx)
        return [("-" if not pos and self.rng.random() < 0.4 else "") + self.rng.choice(self.atoms) for _ in range(k)]

    def J(self, xs): return ",".join(xs) or "-"
    def num(self, lo, hi): return self.rng.randint(lo, hi) if self.small else self.rng.choice(BIG)
    def rule(self): return "rule %d %s %s" % (self.rng.random() < 0.4, self.J(sorted(set(self.lits(2, True)))), self.J(self.lits(3)))

    def wrule(self):
        # weights and bounds of rule bodies are non-negative
        w = lambda: self.rng.randint(0 if not self.small else 1, 3) if self.small or self.rng.random() < 0.5 else self.rng.choice([0, 1, 2, 65536, 2147483647, 1 << 30])
        return "wrule %d %s %d %s" % (self.rng.random() < 0.4, self.J(sorted(set(self.lits(2, True)))), w(), self.J(["%s=%d" % (l, w()) for l in self.lits(4)]))

    def min(self): return "min %d %s" % (self.num(-2, 2), self.J(["%s=%d" % (l, self.num(-3, 3)) for l in self.lits(3)]))
    def ext(self): return "ext %s %s" % (self.rng.choice(self.atoms), self.rng.choice(EXT))
    def project(self): return "project " + self.J(self.lits(2, True))
    def assume(self): return "assume " + self.J(self.lits(1))
    def heu(self): return "heu %s %s %d %d %s" % (self.rng.choice(self.atoms), self.rng.choice(HEU), self.num(-3, 3), max(0, self.num(0, 5)), self.J(self.lits(2)))
    def edge(self): return "edge %d %d %s" % (*((self.rng.randint(0, 3), self.rng.randint(0, 3)) if self.small or self.rng.random() < 0.5 else (self.rng.choice(BIG), self.rng.choice(BIG))), self.J(self.lits(2)))

    def term(self, p):
        x = self.name("t")
        self.terms.append(x)
        return x

    def tnum(self):
        v = self.rng.choice(BIG + [5, 6])
        return "tnum %s %d" % (self.term("t"), v)

    def tstr(self): return "tstr %s %s" % (self.term("t"), D.enc(self.rng.choice(["a", "b", "foo", '"str"', "+", "x y", "", "é"])))
    def args(self, mx=3): return self.J([self.rng.choice(self.terms) for _ in range(self.rng.randint(0, mx))]) if self.terms else "-"

    def tfun(self):
        a = self.args()
        return "tfun %s %s %s" % (self.term("t"), D.enc(self.rng.choice(["f", "g", "+", "-", "foo"])), a) if a != "-" else None

    def tseq(self):
        a = self.args()
        return "tseq %s %s %s" % (self.term("t"), self.rng.choice(["Tuple", "List", "Set"]), a)

    def tsym(self): return "tsym %s %s" % (self.term("t"), D.enc(S.build(S.gen(self.rng, 2))))

    def telem(self):
        a = self.args()
        x = self.name("e")
        self.elems.append(x)
        return "telem %s %s %s" % (x, a, self.J(self.lits(2)))

    def tatom(self):
        if not self.terms: return None
        x = self.name("a")
        es = self.J([self.rng.choice(self.elems) for _ in range(self.rng.randint(0, 2))]) if self.elems else "-"
        at = self.rng.choice(self.atoms + ["-", "-"])
        g = "%s %s" % (D.enc(self.rng.choice(["<=", "=", "<"])), self.rng.choice(self.terms)) if self.rng.random() < 0.5 else "- 0"
        if at == "-": self.atoms.append(x)
        return f"tatom {x} {at} {self.rng.choice(self.terms)} {es} {g}"


class Ground:
    """The ground program described by observer lines, evaluated by brute force."""
    def __init__(self): self.clear()

    def clear(self):
        self.rules, self.min, self.out, self.terms, self.ext, self.edges, self.assume, self.free = [], [], [], [], {}, [], [], set()
        self.project, self.unsupported = None, False

    def add(self, lines):
        I, W = lambda s: [] if s == "-" else [int(x) for x in s.split(",")], lambda s: [] if s == "-" else [tuple(int(y) for y in x.split("=")) for x in s.split(",")]
        for l in lines:
            if not l.startswith("O "): continue
            f = l.split(" ")[1:]
            k = f[0]
            if k == "begin": self.assume = []
            elif k == "rule": self.rules.append((f[1] == "1", I(f[2]), None, I(f[3])))
            elif k == "wrule": self.rules.append((f[1] == "1", I(f[2]), int(f[3]), W(f[4])))
            elif k == "min": self.min.append((int(f[1]), W(f[2])))
            elif k == "project": self.project = (self.project or []) + I(f[1])
            elif k == "outatom": self.out.append((D.dec(f[1]), int(f[2])))
            elif k == "outterm": self.terms.append((D.dec(f[1]), I(f[2])))
            elif k == "ext": self.ext[int(f[1])] = f[2]
            elif k == "assume": self.assume += I(f[1])
            elif k == "edge": self.edges.append((int(f[1]), int(f[2]), I(f[3])))
            elif k in ("tatom", "tatomg") and int(f[1]): self.free.add(int(f[1]))

    def atoms(self):
        s = set(self.ext) | self.free
        for c, h, b, body in self.rules: s |= set(h) | {abs(l if b is None else l[0]) for l in body}
        return s

    def models(self, limit=15):
        """[(shown, cost)] sorted, or None if too large."""
        ids = sorted(self.atoms() | {a for _, a in self.out if a} | {abs(l) for _, c in self.terms for l in c} | {abs(l) for _, b in self.min for l, _ in b}
                     | {abs(l) for *_, c in self.edges for l in c} | {abs(l) for l in self.assume})
        heads = {a for _, h, _, _ in self.rules for a in h}
        if len([a for a in ids if a in heads or a in self.ext or a in self.free]) > limit: return None
        ix = {a: i for i, a in enumerate(ids)}
        p = asp.Prog([str(a) for a in ids])
        lit = lambda l: ("l", 1 if l < 0 else 0, ix[abs(l)])
        for c, h, b, body in self.rules:
            hd = ("c", [ix[a] for a in h], None, None) if c else ("d", [ix[a] for a in h])
            p.add(hd, [lit(l) for l in body] if b is None else [("g", 0, "sum", ">=", b, [(w, str(i), [lit(l)]) for i, (l, w) in enumerate(body)])])
        for a, v in self.ext.items():
            if a not in heads and v in ("True_", "Free"): p.ext[ix[a]] = "t" if v == "True_" else "u"
        for a in self.free:
            if a not in heads and a not in self.ext: p.ext[ix[a]] = "u"
        for i, (pr, b) in enumerate(self.min):
            for j, (l, w) in enumerate(b): p.min.append((w, pr, "%d_%d" % (i, j), [lit(l)]))
        prios = sorted({pr for pr, _ in self.min}, reverse=True)
        res = []
        for M in p.answer_sets():
            H = lambda l: bool(M >> ix[abs(l)] & 1) == (l > 0)
            if not all(H(l) for l in self.assume): continue
            es = [(u, v) for u, v, c in self.edges if all(H(l) for l in c)]
            if cyclic(es): continue
            sh = {s for s, a in self.out if a == 0 or H(a)} | {s for s, c in self.terms if all(H(l) for l in c)}
            cost = tuple(sum(w for pr2, b in self.min if pr2 == pr for l, w in b if H(l)) for pr in prios)
            res.append((tuple(sorted(sh)), cost))
        return sorted(res)


def cyclic(es):
    adj = {}
    for u, v in es: adj.setdefault(u, set()).add(v)
    state = {}
    def dfs(u):
        state[u] = 1
        for v in adj.get(u, ()):
            if state.get(v) == 1 or v not in state and dfs(v): return True
        state[u] = 2
        return False
    return any(u not in state and dfs(u) for u in list(adj))
