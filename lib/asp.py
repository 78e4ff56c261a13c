"""Independent reference semantics: brute-force answer sets of small ground programs, and a generator of such programs.

A program has atoms 0..n-1 (with names), rules and directives. Bodies are lists of literals
  ("l", sign, atom)            sign 0: a, 1: not a, 2: not not a
  ("g", sign, fun, rel, bound, [(weight, tag, [lit...])...])   aggregate (count, sum, sum+, min, max)
Heads: ("d", [atoms]) disjunction (empty: constraint) or ("c", [atoms], lower, upper) choice.
Satisfaction is that of here-and-there logic: X is the "here" world, M the "there" world, X a subset of M (bit masks).
"""
import itertools


def _agg_val(fun, vals):
    if fun == "count": return len(vals)
    if fun == "sum": return sum(v for v, _ in vals)
    if fun == "sum+": return sum(v for v, _ in vals if v > 0)
    if fun == "min": return min((v for v, _ in vals), default=float("inf"))
    if fun == "max": return max((v for v, _ in vals), default=float("-inf"))
    raise ValueError(fun)


REL = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "=": lambda a, b: a == b, "!=": lambda a, b: a != b}


def lit_ht(l, X, M):
    _, s, a = l
    if s == 0: return X >> a & 1
    if s == 1: return not M >> a & 1
    return M >> a & 1


def _agg(g, X, M):
    _, s, fun, rel, bound, elems = g
    vals = {(w, t) for w, t, c in elems if all(lit_ht(l, X, M) for l in c)}
    return REL[rel](_agg_val(fun, vals), bound)


def body_ht(body, X, M):
    for e in body:
        if e[0] == "l":
            if not lit_ht(e, X, M): return False
        else:
            if e[1] == 0:
                if not (_agg(e, M, M) and _agg(e, X, M)): return False
            elif e[1] == 1:
                if _agg(e, M, M): return False
            elif not _agg(e, M, M): return False
    return True


class Prog:
    def __init__(self, names):
        self.names = names
        self.n = len(names)
        self.rules = []
        self.min = []          # (weight, prio, tag, [lits])
        self.ext = {}          # atom -> "t" | "f" | "u" | None (released)
        self.shows = None      # None: everything; else set of shown atoms
        self.terms = []        # (name, [lits])
        self.project = None
        self.assume = []

    def add(self, head, body=()): self.rules.append((head, list(body)))

    def sat(self, X, M):
        for h, b in self.rules:
            if not body_ht(b, X, M): continue
            if h[0] == "d":
                if not any(X >> a & 1 for a in h[1]): return False
            else:
                for a in h[1]:
                    if M >> a & 1 and not X >> a & 1: return False
                k = sum(1 for a in set(h[1]) if M >> a & 1)
                if h[2] is not None and k < h[2] or h[3] is not None and k > h[3]: return False
        for a, v in self.ext.items():
            if v == "t" and not X >> a & 1: return False
            if v == "u" and M >> a & 1 and not X >> a & 1: return False
        return True

    def simple(self):
        """Every rule has at most one head atom or is a choice, and all aggregates are negated: the reduct has a least model."""
        return all((h[0] == "c" or len(h[1]) <= 1) and all(e[0] == "l" or e[1] != 0 for e in b) for h, b in self.rules)

    def supportable(self):
        m = 0
        for h, _ in self.rules:
            for a in h[1]: m |= 1 << a
        for a, v in self.ext.items():
            if v in ("t", "u"): m |= 1 << a
        return m

    def least(self, M):
        X = 0
        for a, v in self.ext.items():
            if v == "t" or v == "u" and M >> a & 1: X |= 1 << a
        act = []
        for h, b in self.rules:
            pos = 0
            ok = True
            for e in b:
                if e[0] == "l" and e[1] == 0: pos |= 1 << e[2]
                elif not body_ht([e], M, M):
                    ok = False
                    break
            if ok:
                hm = 0
                for a in h[1]:
                    if h[0] == "d" or M >> a & 1: hm |= 1 << a
                act.append((pos, hm))
        ch = True
        while ch:
            ch = False
            for p, hm in act:
                if p & X == p and hm & ~X:
                    X |= hm
                    ch = True
        return X

    def answer_sets(self):
        """Sorted list of bit masks."""
        sup = self.supportable()
        atoms = [a for a in range(self.n) if sup >> a & 1]
        simple = self.simple()
        res = []
        for k in range(1 << len(atoms)):
            M = 0
            for i, a in enumerate(atoms):
                if k >> i & 1: M |= 1 << a
            if not self.sat(M, M): continue
            if simple:
                if self.least(M) == M: res.append(M)
                continue
            X = (M - 1) & M if M else -1
            ok = True
            while X >= 0 and M:
                if self.sat(X, M):
                    ok = False
                    break
                if X == 0: break
                X = (X - 1) & M
            if ok: res.append(M)
        return res

    def holds(self, lits, M): return all(lit_ht(l, M, M) for l in lits)

    def cost(self, M):
        prios = sorted({p for _, p, _, _ in self.min}, reverse=True)
        vals = {(w, p, t) for w, p, t, c in self.min if self.holds(c, M)}
        return tuple(sum(w for w, q, _ in vals if q == p) for p in prios)

    def set_names(self, M): return frozenset(self.names[a] for a in range(self.n) if M >> a & 1)

    def shown(self, M):
        s = {self.names[a] for a in range(self.n) if M >> a & 1 and (self.shows is None or a in self.shows)}
        return frozenset(s | {t for t, c in self.terms if self.holds(c, M)})

    # -- text
    def lit(self, l): return ("", "not ", "not not ")[l[1]] + self.names[l[2]]

    def elem(self, e):
        if e[0] == "l": return self.lit(e)
        _, s, fun, rel, bound, elems = e
        es = "; ".join("%d,%s%s" % (w, t, (": " + ", ".join(self.lit(l) for l in c)) if c else "") for w, t, c in elems)
        return ("", "not ", "not not ")[s] + "#%s { %s } %s %d" % (fun, es, rel, bound)

    def body(self, b): return "; ".join(self.elem(e) for e in b)

    def rule_text(self, r):
        h, b = r
        if h[0] == "d": t = " | ".join(self.names[a] for a in h[1])
        else: t = ("%d " % h[2] if h[2] is not None else "") + "{ " + "; ".join(self.names[a] for a in h[1]) + " }" + (" %d" % h[3] if h[3] is not None else "")
        if not b: return t + "." if t else ":- #true."
        return t + (" " if t else "") + ":- " + self.body(b) + "."

    def text(self, order=None):
        out = [self.rule_text(r) for r in self.rules]
        for w, p, t, c in self.min: out.append(":~ %s. [%d@%d,%s]" % (self.body(c), w, p, t) if c else ":~ #true. [%d@%d,%s]" % (w, p, t))
        for a, v in self.ext.items():
            if v is not None: out.append("#external %s. [%s]" % (self.names[a], {"t": "true", "f": "false", "u": "free"}[v]))
        if self.shows is not None:
            out.append("#show.")
            # shown atoms by term statements would be terms, so signatures are used
            for n, k, neg in sorted({sig(self.names[a]) for a in self.shows}): out.append("#show %s%s/%d." % ("-" if neg else "", n, k))
        for t, c in self.terms: out.append("#show %s%s." % (t, (" : " + ", ".join(self.lit(l) for l in c)) if c else ""))
        if self.project is not None:
            for a in self.project: out.append("#project %s." % self.names[a])
            if not self.project: out.append("#project.")
        if order is not None: order.shuffle(out)
        return "\n".join(out) + "\n"

    def show_signatures(self, atoms):
        """Restricts showing to whole signatures covering the given atoms."""
        sg = {sig(self.names[a]) for a in atoms}
        self.shows = {a for a in range(self.n) if sig(self.names[a]) in sg}


def sig(name):
    neg = name.startswith("-")
    if neg: name = name[1:]
    if "(" not in name: return name, 0, neg
    f, rest = name.split("(", 1)
    depth, cnt, instr, esc = 0, 1, False, False
    for c in rest[:-1]:
        if instr:
            if esc: esc = False
            elif c == "\\": esc = True
            elif c == '"': instr = False
            continue
        if c == '"': instr = True
        elif c == "(": depth += 1
        elif c == ")": depth -= 1
        elif c == "," and depth == 0: cnt += 1
    return f, cnt, neg


NAMES = ["a", "b", "c", "d", "p(1)", "p(2)", "p(-3)", "q(x,y)", "q(x,(1,2))", 'r("s t")', 'r("a\\"b\\\\n")', "r(())", "f(g(h(0)))", "-a", "-p(1)", "t((1,))", "p(#inf)", "p(#sup)", "x_1'", "_y"]


def gen(rng, n=6, nrules=8, feats=("choice", "disj", "agg", "min", "ext", "show", "terms", "neg2", "bounds")):
    names = rng.sample(NAMES, n)
    p = Prog(names)
    A = list(range(n))

    def lit(pn=0.4):
        s = 0 if rng.random() > pn else 2 if "neg2" in feats and rng.random() < 0.2 else 1
        return ("l", s, rng.choice(A))

    def agg():
        fun = rng.choice(["count", "sum", "sum+", "min", "max"])
        es = []
        for i in range(rng.randint(1, 3)):
            es.append((rng.randint(-2, 3), rng.choice("xyz"), [lit(0.25) for _ in range(rng.randint(1, 2))]))
        return ("g", rng.choice([0, 0, 0, 1, 2]), fun, rng.choice(list(REL)), rng.randint(-1, 4), es)

    def body(mx=3):
        b = [lit() for _ in range(rng.randint(0, mx))]
        if "agg" in feats and rng.random() < 0.2: b.append(agg())
        return b
    for _ in range(nrules):
        k = rng.random()
        if "choice" in feats and k < 0.35:
            hs = rng.sample(A, rng.randint(1, min(3, n)))
            lo = up = None
            if "bounds" in feats and rng.random() < 0.4:
                lo = rng.randint(0, len(hs)) if rng.random() < 0.6 else None
                up = rng.randint(lo or 0, len(hs)) if rng.random() < 0.6 else None
            p.add(("c", hs, lo, up), body(2))
        elif "disj" in feats and k < 0.45: p.add(("d", rng.sample(A, 2)), body(2))
        elif k < 0.52: p.add(("d", []), [lit() for _ in range(rng.randint(2, 3))])
        elif k < 0.58: p.add(("d", [rng.choice(A)]))
        else: p.add(("d", [rng.choice(A)]), body() or [lit()])
    for a in A:
        if names[a].startswith("-") and names[a][1:] in names: p.add(("d", []), [("l", 0, a), ("l", 0, names.index(names[a][1:]))])
    if "min" in feats and rng.random() < 0.5:
        for i in range(rng.randint(1, 4)): p.min.append((rng.randint(-2, 4), rng.randint(0, 2), rng.choice("uvw"), [lit() for _ in range(rng.randint(1, 2))]))
    if "ext" in feats and rng.random() < 0.4:
        heads = p.supportable()
        free = [a for a in A if not heads >> a & 1]
        for a in free[:2]: p.ext[a] = rng.choice("tfu")
    if "show" in feats and rng.random() < 0.5: p.show_signatures(rng.sample(A, rng.randint(0, n)))
    if "terms" in feats and rng.random() < 0.4:
        for i in range(rng.randint(1, 2)): p.terms.append((rng.choice(["t(1)", "u", '"str"', "(1,a)", "-4", "#sup"]), [lit() for _ in range(rng.randint(0, 2))]))
    return p
