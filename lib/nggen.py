"""Random non-ground programs, safe by construction: every variable used in a scope is bound by a positive literal of that scope or of an enclosing one."""

EDB = [("d", 1), ("e", 2), ("s", 1), ("g", 1)]
IDB = [("p", 1), ("q", 1), ("r", 2), ("t", 0), ("u", 1), ("v", 2)]
CMP = ["<", "<=", ">", ">=", "=", "!="]


class Gen:
    def __init__(self, rng, size=6, feats=None, domain=3):
        self.r, self.size, self.dom = rng, size, domain
        self.feats = feats or set("choice disj agg headagg cond minimize show external strong pool interval edge heuristic project const neghead assign script theory".split())
        self.feats.discard("script")
        self.vc = 0
        self.used = set()

    def has(self, f, p=1.0): return f in self.feats and self.r.random() < p
    def pick(self, xs): return self.r.choice(xs)

    # ---- terms
    def num(self): return str(self.r.choice([0, 1, 1, 2, 2, 3, 4, -1, -2]))
    def const(self): return self.pick(["a", "b", "c", "f(1)", "f(a)", "(1,2)", "(a,)", "\"x\"", "-a", "()", "#inf", "#sup", "f(1,-2)", "cst"] if "const" in self.feats else ["a", "b", "f(1)", "\"x\"", "(1,2)"])

    def aterm(self, vs, d=2):
        """An arithmetic term over bound variables."""
        r = self.r
        if d == 0 or r.random() < .45: return self.pick(vs) if vs and r.random() < .7 else self.num()
        k = r.random()
        if k < .55: return "%s%s%s" % (self.par(vs, d), self.pick(["+", "-", "*"]), self.par(vs, d))
        if k < .75: return "%s%s%s" % (self.par(vs, d), self.pick(["/", "\\", "**", "&", "?", "^"]), self.par(vs, d))
        if k < .85: return "|%s|" % self.aterm(vs, d - 1)
        if k < .95: return "-" + self.par(vs, d)
        return ("~" if "compl" in self.feats else "-") + self.par(vs, d)

    def par(self, vs, d):
        t = self.aterm(vs, d - 1)
        return t if t.isalnum() else "(%s)" % t

    def gterm(self, vs, d=1):
        """Any term over bound variables."""
        r, k = self.r, self.r.random()
        if vs and k < .55: return self.pick(vs)
        if k < .7: return self.aterm(vs)
        if k < .8: return self.const()
        if d and k < .88: return "f(%s)" % self.gterm(vs, d - 1)
        if d and k < .92: return "(%s,%s)" % (self.gterm(vs, d - 1), self.gterm(vs, d - 1))
        if k < .95 and self.has("pool"): return "(%s;%s)" % (self.gterm(vs, 0), self.gterm(vs, 0))
        if k < .98 and self.has("interval"): return "%s..%s" % (self.par(vs, 1), self.par(vs, 1))
        return self.num()

    def var(self):
        self.vc += 1
        return "XYZWUVABCMNKLT"[self.vc % 14] + (str(self.vc // 14) if self.vc >= 14 else "")

    def bterm(self, vs, new):
        """A term in a binding position; may bind a new variable (appended to new)."""
        r, k = self.r, self.r.random()
        if k < .5:
            v = self.var(); new.append(v); return v
        if k < .62 and vs: return self.pick(vs)
        if k < .7:
            v = self.var(); new.append(v)
            return self.pick(["%s+1", "%s-1", "2*%s", "2*%s+1", "-%s", "1-%s", "3-2*%s", "%s+0"]) % v
        if k < .76:
            v = self.var(); new.append(v)
            return "f(%s)" % v
        if k < .8:
            v, w = self.var(), self.var(); new += [v, w]
            return "(%s,%s)" % (v, w)
        if k < .85: return "_"
        return self.gterm(vs)

    # ---- literals
    def atomof(self, preds, vs, new=None, strong=True):
        n, a = self.pick(preds)
        self.used.add((n, a))
        args = [(self.bterm(vs, new) if new is not None else self.gterm(vs)) for _ in range(a)]
        neg = "-" if strong and (n, a) in IDB and self.has("strong", .08) else ""
        return neg + n + ("(%s)" % ",".join(args) if a else "")

    def hatom(self, vs): return self.atomof(IDB, vs)

    def body(self, vs, n=None, simple=False, pos=1):
        """Literals binding new variables (appended to vs) and using them."""
        r, out = self.r, []
        for _ in range(pos if n is None else 1):
            new = []
            out.append(self.atomof(EDB if r.random() < .6 else IDB + EDB, vs, new))
            vs += new
        for _ in range(r.randint(0, 3) if n is None else n):
            k, new = r.random(), []
            if k < .25:
                out.append(self.atomof(IDB + EDB, vs, new)); vs += new
            elif k < .45: out.append("not " * self.pick([1, 1, 2]) + self.atomof(IDB + EDB, vs))
            elif k < .62:
                c = "%s%s%s" % (self.gterm(vs), self.pick(CMP), self.gterm(vs))
                if r.random() < .2: c += "%s%s" % (self.pick(CMP), self.gterm(vs))
                out.append(("not " if r.random() < .15 else "") + c)
            elif k < .74 and self.has("assign"):
                v = self.var()
                out.append(self.pick(["%s=%s" % (v, self.aterm(vs)), "%s=%s" % (self.aterm(vs), v), "%s=%s..%s" % (v, self.par(vs, 1), self.par(vs, 1)), "%s=(%s;%s)" % (v, self.gterm(vs, 0), self.gterm(vs, 0)),
                                      "f(%s)=%s" % (v, self.gterm(vs)), "%s+1=%s" % (v, self.aterm(vs))]))
                vs.append(v)
            elif simple: continue
            elif k < .85 and self.has("cond"):
                loc = list(vs)
                c = self.body(loc, n=r.randint(0, 1), simple=True)
                out.append("%s: %s" % (("not " if r.random() < .3 else "") + self.atomof(IDB + EDB, loc) if r.random() < .85 else self.pick(["#false", "#true"]), ",".join(c)) + ";")
            elif self.has("agg"):
                out.append(self.bodyagg(vs))
        r.shuffle(out)
        return out

    def elem(self, vs, head=False):
        loc = list(vs)
        c = self.body(loc, n=self.r.randint(0, 1), simple=True)
        t = ",".join(self.gterm(loc, 0) for _ in range(self.r.randint(1, 2)))
        if head: return "%s: %s: %s" % (t, self.atomof(IDB, loc), ",".join(c))
        return "%s: %s" % (t, ",".join(c))

    def guards(self, vs):
        r = self.r
        lo, hi = self.aterm(vs, 1), self.aterm(vs, 1)
        if r.random() < .15: lo = self.pick(["#inf", "a"])
        k = r.random()
        if k < .35: return "%s%s" % (lo, self.pick(CMP)), ""
        if k < .6: return "", "%s%s" % (self.pick(CMP), hi)
        if k < .7: return lo + " ", " " + hi
        return "%s%s" % (lo, self.pick(CMP)), "%s%s" % (self.pick(CMP), hi)

    def bodyagg(self, vs):
        r = self.r
        f = self.pick(["#count", "#sum", "#sum+", "#min", "#max", "#count", "#sum", ""])
        neg = self.pick(["", "", "", "not ", "not not "])
        if f == "":
            es = []
            for _ in range(r.randint(1, 2)):
                loc = list(vs)
                c = self.body(loc, n=0, simple=True)
                es.append("%s%s: %s" % (self.pick(["", "not "]), self.atomof(IDB + EDB, loc), ",".join(c)))
            lo, hi = self.guards(vs)
            return "%s%s{%s}%s" % (neg, lo, ";".join(es), hi)
        es = ";".join(self.elem(vs) for _ in range(r.randint(1, 2)))
        if r.random() < .2 and self.has("assign"):
            v = self.var(); vs2 = "%s=%s{%s}" % (v, f, es)
            vs.append(v)
            return vs2
        lo, hi = self.guards(vs)
        return "%s%s%s{%s}%s" % (neg, lo, f, es, hi)

    def head(self, vs):
        r, k = self.r, self.r.random()
        if k < .4: return self.hatom(vs)
        if k < .5: return ""
        if k < .62 and self.has("choice"): return "{%s}" % self.hatom(vs)
        if k < .74 and self.has("choice"):
            es = []
            for _ in range(r.randint(1, 2)):
                loc = list(vs)
                es.append("%s: %s" % (self.atomof(IDB, loc), ",".join(self.body(loc, n=0, simple=True))) if r.random() < .8 else self.hatom(vs))
                if es[-1].find(":") > 0:
                    # the atom may only use variables bound in the condition
                    loc = list(vs); c = self.body(loc, n=r.randint(0, 1), simple=True)
                    es[-1] = "%s: %s" % (self.atomof(IDB, loc), ",".join(c))
            lo, hi = self.guards(vs) if r.random() < .6 else ("", "")
            return "%s{%s}%s" % (lo, ";".join(es), hi)
        if k < .84 and self.has("disj"):
            es = []
            for _ in range(2):
                if r.random() < .5: es.append(self.hatom(vs))
                else:
                    loc = list(vs); c = self.body(loc, n=0, simple=True)
                    es.append("%s: %s" % (("not " if r.random() < .2 else "") + self.atomof(IDB, loc), ",".join(c)))
            return ";".join(es)
        if k < .92 and self.has("headagg"):
            lo, hi = self.guards(vs)
            return "%s%s{%s}%s" % (lo, self.pick(["#count", "#sum", "#sum+", "#min", "#max"]), ";".join(self.elem(vs, True) for _ in range(r.randint(1, 2))), hi)
        if self.has("neghead"): return self.pick(["not ", "not not ", ""]) + self.hatom(vs)
        return self.hatom(vs)

    @staticmethod
    def join(lits):
        s = ""
        for i, l in enumerate(lits):
            if l.endswith(";"): s += l if i + 1 < len(lits) else l[:-1]
            else: s += l + ("," if i + 1 < len(lits) else "")
        return s

    def rule(self):
        self.vc = self.r.randint(0, 9)
        vs = []
        b = self.body(vs, pos=self.r.choice([0, 1, 1, 1, 2]))
        if not b: vs = []
        h = self.head(vs)
        return h + (" :- " + self.join(b) if b or not h else "") + "."

    def facts(self):
        r, out = self.r, []
        out.append("d(%s)." % self.pick(["1..%d" % self.dom, "0..2", "1;2", "1..2;4", "(1;3)"]))
        for _ in range(r.randint(1, 3)): out.append("e(%s,%s)." % (self.num(), self.pick([self.num(), self.const()])))
        out.append("s(%s)." % ";".join(self.pick([self.const(), self.num()]) for _ in range(r.randint(1, 3))))
        if r.random() < .6: out.append("g(%s)." % ";".join(self.pick(["f(1)", "f(a)", "(1,2)", "(a,b)", "f(2)", "1", "f(1,2)"]) for _ in range(r.randint(1, 3))))
        for _ in range(r.randint(1, 2)):
            n, a = self.pick([("p", 1), ("q", 1), ("u", 1)])
            v = self.var()
            out.append(self.pick(["{%s(%s):d(%s)}." % (n, v, v), "{%s(%s)}:-d(%s)." % (n, v, v), "{%s(1;2)}." % n]))
        return out

    def directive(self):
        r, k = self.r, self.r.random()
        self.vc = r.randint(0, 9)
        vs = []
        b = self.join(self.body(vs, n=r.randint(0, 2), simple=True))
        if k < .3 and self.has("minimize"):
            return self.pick(["#minimize{%s%s,%s: %s}.", "#maximize{%s%s,%s: %s}."]) % (self.aterm(vs, 1), self.pick(["", "@1", "@2"]), self.gterm(vs, 0), b) if r.random() < .6 else ":~ %s. [%s%s,%s]" % (b, self.aterm(vs, 1), self.pick(["", "@1", "@" + self.aterm(vs, 1)]), self.gterm(vs, 0))
        if k < .5 and self.has("show"):
            n, a = self.pick(IDB)
            return self.pick(["#show %s/%d." % (n, a), "#show %s: %s." % (self.gterm(vs), b), "#show %s: %s." % (self.gterm(vs), b), "#show."])
        if k < .7 and self.has("external"): return "#external %s: %s.%s" % (self.atomof([("x", 1), ("y", 2)] if r.random() < .5 else IDB, vs, strong=False), b, self.pick(["", "[true]", "[false]", "[free]", ""]))
        if k < .78 and self.has("edge"): return "#edge(%s,%s): %s." % (self.gterm(vs, 0), self.gterm(vs, 0), b)
        if k < .86 and self.has("heuristic"): return "#heuristic %s: %s. [%s%s,%s]" % (self.atomof(IDB, vs, strong=False), b, self.aterm(vs, 1), self.pick(["", "@1", "@2"]), self.pick(["sign", "level", "true", "false", "factor", "init"]))
        if k < .92 and self.has("project"): return self.pick(["#project %s: %s." % (self.atomof(IDB, vs, strong=False), b), "#project p/1."])
        return self.rule()

    def statements(self):
        out = self.facts()
        for _ in range(self.r.randint(2, self.size)): out.append(self.rule())
        for _ in range(self.r.choice([0, 0, 1, 1, 2])): out.append(self.directive())
        if self.has("const", .3): out.append("#const cst=%s." % self.pick(["1", "2", "a", "f(1)"]))
        return out


def program(rng, **kw):
    return Gen(rng, **kw).statements()
