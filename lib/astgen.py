"""Random texts over the complete input language (syntactically valid; not necessarily safe)."""

KW = ["", "not ", "not not "]
REL = ["<", "<=", ">", ">=", "=", "!="]
STR = ['""', '"a b"', '"q\\"x"', '"\\\\"', '"n\\nl"', '"%% no comment"', '"ü"']
TOPS = ["+", "-", "*", "**", "/", "\\", "<=", "&", "?", "!", "^", "<>", "..", "|", "@", "=>", "||", "~", "++", "&&"]


class Gen:
    def __init__(self, rng, pools=True, ext=True, theory=True, depth=3, vars=True):
        self.r, self.pools, self.ext, self.theory, self.depth, self.vars = rng, pools, ext, theory, depth, vars
        self.np = 0

    def pool(self):
        if not self.pools or self.np >= 5: return False
        self.np += 1
        return True

    def ch(self, *a): return self.r.choice(a)
    def p(self, x): return self.r.random() < x
    def many(self, f, lo, hi, sep): return sep.join(f() for _ in range(self.r.randint(lo, hi)))

    def name(self): return self.ch("a", "b", "c'", "p", "q", "_x", "longName_1", "f")
    def var(self): return self.ch("X", "Y", "Z", "_", "Long_V'", "_U") if self.vars else self.ch("1", "a")

    def term(self, d=None):
        d = self.depth if d is None else d
        k = self.r.randint(0, 7 if d <= 0 else 19)
        if k < 2: return str(self.r.choice([0, 1, 2, 7, 42, 2147483647]))
        if k == 2: return self.name()
        if k == 3: return self.ch(*STR)
        if k < 6: return self.var()
        if k == 6: return self.ch("#inf", "#sup", "#infimum", "#supremum")
        if k == 7: return self.ch("0x1f", "0b101", "0o17")
        t = lambda: self.term(d - 1)
        if k < 11: return self.name() + "(" + (self.args(d - 1)) + ")"
        if k == 11: return "(" + self.ch("", ",", t() + ",", t() + "," + t(), t() + "," + t() + "," + t()) + ")" if self.p(0.8) else "()"
        if k == 12 and self.pool(): return "(" + t() + ";" + t() + (";" + t() if self.p(0.3) else "") + ")"
        if k == 13: return t() + ".." + t() if self.p(0.5) else "(" + t() + ".." + t() + ")"
        if k == 14: return self.ch("-", "~") + t()
        if k == 15: return "|" + t() + ((";" + t()) if self.p(0.3) and self.pool() else "") + "|"
        if k == 16 and self.ext: return "@" + self.name() + "(" + self.args(d - 1) + ")"
        if k == 17: return "(" + t() + ")"
        return t() + " " + self.ch("+", "-", "*", "/", "\\", "**", "&", "?", "^") + " " + t()

    def args(self, d):
        a = ",".join(self.term(d) for _ in range(self.r.randint(0, 3)))
        if self.p(0.12) and self.pool(): a += ";" + ",".join(self.term(d) for _ in range(self.r.randint(0, 2)))
        return a

    def atom(self):
        s = "-" if self.p(0.12) else ""
        return s + self.name() + ("(" + self.args(self.depth - 1) + ")" if self.p(0.75) else "")

    def lit(self):
        s = self.r.choice(KW) if self.p(0.35) else ""
        k = self.r.random()
        if k < 0.62: return s + self.atom()
        if k < 0.92: return s + self.term() + "".join(" " + self.r.choice(REL) + " " + self.term() for _ in range(self.ch(1, 1, 1, 2, 3)))
        return s + self.ch("#true", "#false")

    def lits(self, lo, hi): return self.many(self.lit, lo, hi, ", ")
    def clit(self): return self.lit() + " : " + self.lits(0, 2)
    def guard(self): return self.term(1)

    def guards(self, body):
        l = g = ""
        if self.p(0.5): l = self.guard() + " " + (self.r.choice(REL) + " " if self.p(0.7) else "")
        if self.p(0.5): g = " " + (self.r.choice(REL) + " " if self.p(0.7) else "") + self.guard()
        return l, g

    def terms(self, lo, hi): return self.many(self.term, lo, hi, ",")

    def fun(self): return self.ch("#sum", "#sum+", "#count", "#min", "#max")

    def setagg(self):
        l, g = self.guards(True)
        e = lambda: self.lit() + (" : " + self.lits(0, 2) if self.p(0.5) else "")
        return l + "{ " + self.many(e, 0, 3, "; ") + " }" + g

    def bodyagg(self):
        l, g = self.guards(True)
        e = lambda: self.terms(1, 3) + (" : " + self.lits(0, 3) if self.p(0.8) else "")
        return l + self.fun() + " { " + self.many(e, 0, 3, "; ") + " }" + g

    def headagg(self):
        l, g = self.guards(False)
        e = lambda: self.terms(0, 3) + " : " + self.lit() + (" : " + self.lits(0, 3) if self.p(0.6) else "")
        return l + self.fun() + " { " + self.many(e, 0, 3, "; ") + " }" + g

    # theory atoms
    def tterm(self, d=2):
        k = self.r.randint(0, 4 if d <= 0 else 10)
        if k == 0: return str(self.r.randint(0, 30))
        if k == 1: return self.name()
        if k == 2: return self.ch(*STR)
        if k == 3: return self.ch("X", "Y", "Long_V'") if self.vars else "a"
        if k == 4: return self.ch("#inf", "#sup")
        t = lambda: self.topterm(d - 1)
        if k == 5: return self.name() + "(" + ",".join(t() for _ in range(self.r.randint(0, 3))) + ")"
        if k == 6: return "(" + self.ch("", t() + ",", t() + "," + t()) + ")"
        if k == 7: return "[" + ",".join(t() for _ in range(self.r.randint(0, 3))) + "]"
        if k == 8: return "{" + ",".join(t() for _ in range(self.r.randint(0, 3))) + "}"
        return "(" + t() + ")"

    def topterm(self, d=2):
        op = lambda: self.r.choice(TOPS)
        s = "".join(op() + " " for _ in range(self.r.choice([0, 0, 0, 1, 2]))) + self.tterm(d)
        for _ in range(self.r.choice([0, 0, 1, 2])): s += " " + " ".join(op() for _ in range(self.r.choice([1, 1, 1, 2]))) + " " + self.tterm(d)
        return s

    def tatom(self):
        s = "&" + self.name() + ("(" + self.args(1) + ")" if self.p(0.5) else "")
        if self.p(0.8):
            e = lambda: ",".join(self.topterm() for _ in range(self.r.randint(0, 2))) + (" : " + self.lits(0, 2) if self.p(0.5) else "")
            es = [e() for _ in range(self.r.randint(0, 3))]
            s += " { " + "; ".join(x or ":" for x in es) + " }"
            if self.p(0.5): s += " " + self.r.choice(TOPS) + " " + self.topterm()
        return s

    def blit(self):
        k = self.r.random()
        if k < 0.6: return self.lit()
        if k < 0.7: return self.clit()
        s = self.r.choice(KW) if self.p(0.3) else ""
        if k < 0.8: return s + self.bodyagg()
        if k < 0.9 or not self.theory: return s + self.setagg()
        return s + self.tatom()

    def body(self, lo=0, hi=4):
        n = self.r.randint(lo, hi)
        return "; ".join(self.blit() for _ in range(n))

    def tail(self, lo=0):
        b = self.body(lo)
        return " :- " + b + "." if b else "."

    def head(self):
        k = self.r.random()
        if k < 0.45: return self.lit() if self.p(0.3) else self.atom()
        if k < 0.62: return self.many(lambda: self.lit() + (" : " + self.lits(0, 2) if self.p(0.5) else ""), 2, 3, "; ")
        if k < 0.75: return self.setagg()
        if k < 0.9: return self.headagg()
        return self.tatom() if self.theory else self.atom()

    def ctail(self):
        b = self.body()
        return " : " + b + "." if b else "."

    def sig(self): return ("-" if self.p(0.2) else "") + self.name() + "/" + str(self.r.randint(0, 4))
    def wp(self): return self.term(1) + ("@" + self.term(1) if self.p(0.5) else "") + (("," + self.terms(1, 3)) if self.p(0.6) else "")

    def theorydef(self):
        def ops():
            res, seen = [], set()
            for _ in range(self.r.randint(0, 4)):
                o, k = self.r.choice(TOPS), self.ch("unary", "binary, left", "binary, right")
                if (o, k[:1]) in seen: continue
                seen.add((o, k[:1]))
                res.append("%s : %d, %s" % (o, self.r.randint(0, 9), k))
            return ";\n    ".join(res)
        names = ["t%d" % i for i in range(self.r.randint(1, 2))]
        ts = ["  %s {\n    %s\n  }" % (n, ops()) for n in names]
        ats = []
        for i in range(self.r.randint(0, 2)):
            g = ", { %s }, %s" % (", ".join(self.r.sample(TOPS, self.r.randint(1, 3))), self.r.choice(names)) if self.p(0.5) else ""
            ats.append("  &%s%d/%d : %s%s, %s" % (self.name(), i, self.r.randint(0, 2), self.r.choice(names), g, self.ch("head", "body", "any", "directive")))
        return "#theory %s {\n%s\n}." % (self.name(), ";\n".join(ts + ats))

    def statement(self, kind=None):
        k = kind or self.r.choice(["rule"] * 8 + ["constraint", "show", "showt", "min", "weak", "const", "external", "edge", "heu", "project", "defined", "program", "theory", "script"])
        if k == "rule": return self.head() + self.tail()
        if k == "constraint": return self.ch("", "#false ") + ":- " + self.body(1) + "." if self.p(0.9) else ":-."
        if k == "show": return self.ch("#show " + self.sig() + ".", "#show.")
        if k == "showt": return "#show " + self.term(1) + self.ctail()
        if k == "min":
            e = lambda: self.wp() + (" : " + self.lits(0, 2) if self.p(0.6) else "")
            return self.ch("#minimize", "#maximize", "#minimise", "#maximise") + " { " + self.many(e, 0, 3, "; ") + " }."
        if k == "weak": return ":~ " + self.body(0, 3) + ". [" + self.wp() + "]"
        if k == "const":
            g = Gen(self.r, False, False, False, 1, False)
            return "#const " + self.ch("n", "k", "x'") + " = " + self.ch("1", "a", "f(a,2)", "(1,2)", "3+4*2", '"s"', "-7") + "." + self.ch("", "", " [default]", " [override]")
        if k == "external": return "#external " + self.atom() + self.ctail() + self.ch("", "", " [true]", " [false]", " [free]", " [release]", " [X]")
        if k == "edge": return "#edge (" + ";".join(self.term(1) + "," + self.term(1) for _ in range(self.ch(1, 1, 2))) + ")" + self.ctail()
        if k == "heu": return "#heuristic " + self.atom() + self.ctail() + " [" + self.term(1) + ("@" + self.term(1) if self.p(0.5) else "") + "," + self.ch("level", "sign", "factor", "init", "true", "false", "X") + "]"
        if k == "project": return self.ch("#project " + self.sig() + ".", "#project " + self.atom() + self.ctail())
        if k == "defined": return "#defined " + self.sig() + "."
        if k == "program": return "#program " + self.name() + self.ch("", "", "(x)", "(x,y)") + "."
        if k == "theory": return self.theorydef()
        if k == "script": return "#script (" + self.ch("lua", "python") + ")" + self.ch("\nx = 1\n", " ", "\ndef f(): pass\n# c\n") + "#end."
        raise ValueError(k)

    def program(self, n, kinds=None):
        return "\n".join(self.statement(self.r.choice(kinds) if kinds else None) for _ in range(n)) + "\n"
