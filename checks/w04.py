"""Syntax trees as values: random histories of attribute and sequence operations, copies and transformations against a model."""
import copy, random
import vf, astgen
from clingo import ast, Number, Function, String, Symbol
from clingo.ast import AST, ASTSequence, StrSequence, Location, Position

w = vf.Worker()
rng = random.Random(w.batch["seed"])
LOC = Location(Position("<m>", 1, 1), Position("<m>", 1, 2))


class Node:
    """The model: plain Python values, shared children are shared objects."""
    __slots__ = ("t", "a")
    def __init__(self, t, a): self.t, self.a = t, a


def model(x, memo):
    """The model of a freshly parsed tree (nothing in it is shared)."""
    a = {}
    for k, v in x.items():
        if isinstance(v, AST): a[k] = model(v, memo)
        elif isinstance(v, ASTSequence): a[k] = [model(y, memo) for y in v]
        elif isinstance(v, StrSequence): a[k] = list(v)
        else: a[k] = v
    return Node(x.ast_type.name, a)


def val(v):
    if isinstance(v, AST): return dump(v)
    if isinstance(v, ASTSequence): return [dump(y) for y in v]
    if isinstance(v, StrSequence): return list(v)
    return v
def dump(x): return (x.ast_type.name, tuple((k, val(v)) for k, v in x.items()))
def mval(v):
    if isinstance(v, Node): return mdump(v)
    if isinstance(v, list): return [mdump(y) if isinstance(y, Node) else y for y in v]
    return v
def mdump(m): return (m.t, tuple((k, mval(v)) for k, v in m.a.items()))
def noloc(d):
    """Structure without locations (and text of scripts etc. kept)."""
    if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], tuple) and isinstance(d[0], str): return (d[0], tuple((k, noloc(v)) for k, v in d[1] if k != "location"))
    if isinstance(d, list): return [noloc(x) for x in d]
    return d
def kids(m):
    for v in m.a.values():
        if isinstance(v, Node): yield v
        elif isinstance(v, list): yield from (y for y in v if isinstance(y, Node))
def reaches(m, n, seen=None):
    if m is n: return True
    return any(reaches(c, n) for c in kids(m))
def size(m): return 1 + sum(size(c) for c in kids(m))


def deepfix(x):
    """The installed engine shares optional children with deep copies (repaired in the tree's engine): separate them."""
    for k, v in x.items():
        if isinstance(v, AST):
            if (x.ast_type.name, k) in OPT:
                v = copy.deepcopy(v)
                setattr(x, k, v)
            deepfix(v)
        elif isinstance(v, ASTSequence):
            for y in v: deepfix(y)
    return x
def upd(m, **k):
    n = mcopy(m)
    n.a.update(k)
    return n
def mdeep(m): return Node(m.t, {k: mdeep(v) if isinstance(v, Node) else [mdeep(y) if isinstance(y, Node) else y for y in v] if isinstance(v, list) else v for k, v in m.a.items()})
def mcopy(m): return Node(m.t, {k: list(v) if isinstance(v, list) else v for k, v in m.a.items()})


def fresh():
    g = astgen.Gen(rng, depth=rng.choice([1, 2]), pools=rng.random() < 0.3)
    while True:
        l = []
        try: ast.parse_string(g.statement(rng.choice(["rule", "rule", "rule", "min", "theory", "external", "edge", "showt", "constraint", None])), l.append, logger=lambda c, m: None)
        except RuntimeError: continue
        x = l[-1]
        m = model(x, {})
        if size(m) < 60: return x, m


def walk(x, m):
    """A random descent: the same node of the tree and of its model."""
    while True:
        c = [k for k, v in m.a.items() if isinstance(v, Node) or isinstance(v, list) and v and isinstance(v[0], Node)]
        if not c or rng.random() < 0.3: return x, m
        k = rng.choice(c)
        if isinstance(m.a[k], Node): x, m = getattr(x, k), m.a[k]
        else:
            i = rng.randrange(len(m.a[k]))
            x, m = getattr(x, k)[i if rng.random() < 0.7 else i - len(m.a[k])], m.a[k][i]


class Hist:
    def __init__(self):
        self.regs = [fresh() for _ in range(3)]
        self.views = []          # sequences kept while the trees change: (sequence, model node, attribute, slice or None)
        self.log = []

    def node(self, avoid=None):
        """Some existing node or a copy that may be put below the node `avoid` without closing a cycle."""
        for _ in range(20):
            x, m = walk(*rng.choice(self.regs))
            if size(m) < 25 and (avoid is None or not reaches(m, avoid)): return x, m
        return ast.Id(LOC, "z"), Node("Id", {"location": LOC, "name": "z"})

    def bad(self, key, what): w.viol(key, "%s\nhistory: %s" % (what, self.log[-12:]), self.log[-40:])

    def expect(self, key, fn, exc, *what):
        try: fn()
        except exc: return
        except Exception as e:
            self.bad("wrong-error-" + key, "%r for %s instead of %s" % (e, what, exc))
            return
        self.bad("no-error-" + key, "no %s for %s" % (exc, what))

    def setattr(self):
        x, m = walk(*rng.choice(self.regs))
        k = rng.choice(list(m.a))
        v = m.a[k]
        self.log.append("set %s.%s" % (m.t, k))
        if isinstance(v, Location): n = Location(Position("f%d" % rng.randint(0, 9), rng.randint(1, 99), rng.randint(1, 99)), Position("g", rng.randint(1, 99), rng.randint(1, 99)))
        elif isinstance(v, bool): return
        elif isinstance(v, int): n = rng.choice([0, 1, 2, v])
        elif isinstance(v, str): n = rng.choice(["", "a", "b c", "\u00fc\n\"", v + "x"])
        elif isinstance(v, Symbol): n = rng.choice([Number(rng.randint(-5, 5)), Function("f", [Number(1)]), String("s")])
        elif v is None or (m.t, k) in OPT:
            if rng.random() < 0.4: setattr(x, k, None); m.a[k] = None; return
            y, n = self.node(m)
            setattr(x, k, y)
            m.a[k] = n
            return
        elif isinstance(v, Node):
            y, n = self.node(m)
            setattr(x, k, y)
            m.a[k] = n
            return
        else:
            isstr = (m.t, k) in STRSEQ
            if isstr:
                n = [rng.choice(["+", "-", "<>", "u\u00fc"]) for _ in range(rng.randint(0, 4))]
                form = rng.choice([list, tuple, iter])
                setattr(x, k, form(n))
                m.a[k][:] = n
                return
            q = rng.random()
            if q < 0.3:                     # assign a sequence to itself or to a slice of itself
                s = getattr(x, k)
                if rng.random() < 0.5: setattr(x, k, s)
                else:
                    a, b = sorted([rng.randint(0, len(v)), rng.randint(0, len(v))])
                    setattr(x, k, list(s[a:b]))
                    m.a[k][:] = v[a:b]
                return
            if q < 0.5:                     # another sequence
                y, n = walk(*rng.choice(self.regs))
                ks = [j for j in n.a if isinstance(n.a[j], list) and (n.t, j) not in STRSEQ]
                if ks and not any(reaches(c, m) for j in ks for c in n.a[j]):
                    j = rng.choice(ks)
                    src = list(n.a[j])
                    setattr(x, k, getattr(y, j))
                    m.a[k][:] = src
                return
            new = [self.node(m) for _ in range(rng.randint(0, 3))]
            setattr(x, k, rng.choice([list, tuple, iter])([y for y, _ in new]))
            m.a[k][:] = [n for _, n in new]
            return
        setattr(x, k, n)
        m.a[k] = n

    def seqop(self):
        if self.views and rng.random() < 0.4: s, m, k, x = rng.choice(self.views)
        else:
            for _ in range(10):
                x, m = walk(*rng.choice(self.regs))
                ks = [j for j in m.a if isinstance(m.a[j], list)]
                if ks: break
            else: return
            k = rng.choice(ks)
            s = getattr(x, k)
            if rng.random() < 0.3: self.views.append((s, m, k, x))
        l = m.a[k]
        isstr = (m.t, k) in STRSEQ
        new = (lambda: (lambda z: (z, z))(rng.choice(["+", "-", "*", "x y", ""]))) if isstr else (lambda: self.node(m))
        cmpv = (lambda a, b: a == b) if isstr else (lambda a, b: dump(a) == mdump(b))
        n = len(l)
        op = rng.choice("get set del insert append extend clear pop iadd reverse remove index count contains reversed slice sliceset sliceins slicedel oob iter assign".split())
        i = rng.randint(-n - 1, n)
        self.log.append("%s.%s %s %d (len %d)" % (m.t, k, op, i, n))
        w.count("op_" + op)
        inr = -n <= i < n
        if len(s) != n: self.bad("len", "length %d expected %d" % (len(s), n))
        if op == "get":
            if inr:
                if not cmpv(s[i], l[i]): self.bad("getitem", "item %d" % i)
            else: self.expect("getitem", lambda: s[i], IndexError, i, n)
        elif op == "set":
            a, b = new()
            if inr: s[i] = a; l[i] = b
            else: self.expect("setitem", lambda: s.__setitem__(i, a), IndexError, i, n)
        elif op == "del":
            if inr: del s[i]; del l[i]
            else: self.expect("delitem", lambda: s.__delitem__(i), IndexError, i, n)
        elif op == "insert":
            a, b = new()
            i = rng.choice([i, i, -n - 5, n + 5])
            s.insert(i, a); l.insert(i, b)
        elif op == "append": a, b = new(); s.append(a); l.append(b)
        elif op == "extend" or op == "iadd":
            if rng.random() < 0.3 and n < 6:
                if op == "extend": s.extend(s)
                else: s += s
                l.extend(list(l))
            else:
                ab = [new() for _ in range(rng.randint(0, 3))]
                if op == "extend": s.extend(x for x, _ in ab)
                else: s += [x for x, _ in ab]
                l.extend(y for _, y in ab)
        elif op == "clear":
            if rng.random() < 0.3: s.clear(); l.clear()
        elif op == "pop":
            i = rng.choice([-1, i])
            if -n <= i < n:
                a = s.pop(i) if rng.random() < 0.5 or i != -1 else s.pop()
                b = l.pop(i)
                if not cmpv(a, b): self.bad("pop", "popped item %d" % i)
            else: self.expect("pop", lambda: s.pop(i), IndexError, i, n)
        elif op == "reverse": s.reverse(); l.reverse()
        elif op in ("remove", "index", "count", "contains"):
            a, b = new() if rng.random() < 0.4 or not l else (lambda j: (s[j], l[j]))(rng.randrange(n))
            eq = (lambda z: z == b) if isstr else (lambda z: noloc(mdump(z)) == noloc(mdump(b)))
            hits = [j for j, z in enumerate(l) if eq(z)]
            if op == "count":
                if s.count(a) != len(hits): self.bad("count", "count")
            elif op == "contains":
                if (a in s) != bool(hits): self.bad("contains", "contains")
            elif op == "index":
                if hits:
                    if s.index(a) != hits[0]: self.bad("index", "index")
                else: self.expect("index", lambda: s.index(a), ValueError)
            elif hits: s.remove(a); del l[hits[0]]
            else: self.expect("remove", lambda: s.remove(a), ValueError)
        elif op == "assign":
            how = rng.choice(["self", "gen", "gen-part", "reversed", "tuple", "view", "iter", "list"])
            keep = [rng.random() < .7 for _ in l]
            src = {"self": lambda: s, "gen": lambda: (z for z in s), "gen-part": lambda: (z for z, b in zip(s, keep) if b), "reversed": lambda: reversed(s), "tuple": lambda: tuple(s), "view": lambda: s[::-1], "iter": lambda: iter(s), "list": lambda: list(s)}[how]()
            l[:] = {"gen-part": [z for z, b in zip(l, keep) if b], "reversed": l[::-1], "view": l[::-1]}.get(how, l[:])
            setattr(x, k, src)
            if len(getattr(x, k)) != len(l) or not all(cmpv(p, q) for p, q in zip(getattr(x, k), l)): self.bad("assign-own", "%s from its own items (%s)" % (k, how))
        elif op == "reversed":
            if not all(cmpv(p, q) for p, q in zip(reversed(s), reversed(l))): self.bad("reversed", "reversed")
        elif op == "iter":
            if len(list(s)) != n or not all(cmpv(p, q) for p, q in zip(s, l)): self.bad("iter", "iteration")
        elif op == "slice":
            sl = slice(*[rng.choice([None, rng.randint(-n - 1, n + 1)]) for _ in range(2)], rng.choice([None, None, 1, 2, -1, -2]))
            a, b = s[sl], l[sl]
            if len(a) != len(b) or not all(cmpv(p, q) for p, q in zip(a, b)): self.bad("slice", "slice %s of %d" % (sl, n))
            for j in range(-len(b) - 1, len(b) + 1):
                if -len(b) <= j < len(b):
                    if not cmpv(a[j], b[j]): self.bad("slice-item", "%s [%d]" % (sl, j))
                else: self.expect("slice-item", lambda: a[j], IndexError, sl, j)
            sl2 = slice(*[rng.choice([None, rng.randint(-n, n)]) for _ in range(2)], rng.choice([None, 1, -1, 2]))
            a, b = a[sl2], b[sl2]
            if len(a) != len(b) or not all(cmpv(p, q) for p, q in zip(a, b)): self.bad("slice-slice", "%s %s of %d" % (sl, sl2, n))
            if not cmpv_all(reversed(a), reversed(b), cmpv): self.bad("slice-reversed", "")
        else:
            lo, hi = sorted([rng.randint(0, n), rng.randint(0, n)])
            a = s[lo:hi]
            j = rng.randint(-(hi - lo) - 1, hi - lo)
            if op == "sliceset":
                x, y = new()
                if -(hi - lo) <= j < hi - lo: a[j] = x; l[lo + j if j >= 0 else hi + j] = y
                else: self.expect("slice-set", lambda: a.__setitem__(j, x), IndexError, lo, hi, j)
            elif op == "slicedel":
                if -(hi - lo) <= j < hi - lo: del a[j]; del l[lo + j if j >= 0 else hi + j]
                else: self.expect("slice-del", lambda: a.__delitem__(j), IndexError, lo, hi, j)
            elif op == "sliceins":
                x, y = new()
                t = l[lo:hi]
                t.insert(j, y)
                a.insert(j, x)
                l[lo:hi] = t
            else:
                for bad in (n, n + 7, -n - 1, -n - 9):
                    self.expect("oob-get", lambda: s[bad], IndexError, bad, n)
                    self.expect("oob-del", lambda: s.__delitem__(bad), IndexError, bad, n)
                    x, _ = new()
                    self.expect("oob-set", lambda: s.__setitem__(bad, x), IndexError, bad, n)

    def copies(self):
        x, m = walk(*rng.choice(self.regs))
        d = rng.random() < 0.5
        self.log.append("deepcopy " + m.t if d else "copy " + m.t)
        y = deepfix(copy.deepcopy(x)) if d else copy.copy(x)
        n = mdeep(m) if d else mcopy(m)
        if not (x == y) or hash(x) != hash(y): self.bad("copy-equal", "copy differs")
        if len(self.regs) < 8: self.regs.append((y, n))
        else: self.regs[rng.randrange(len(self.regs))] = (y, n)

    def update(self):
        x, m = walk(*rng.choice(self.regs))
        ks = [k for k, v in m.a.items() if isinstance(v, (str, Location))]
        if not ks: return
        k = rng.choice(ks)
        v = "upd" if isinstance(m.a[k], str) else Location(Position("u", 5, 6), Position("u", 7, 8))
        self.log.append("update %s.%s" % (m.t, k))
        y = x.update(**{k: v})
        n = mcopy(m)
        n.a[k] = v
        self.regs[rng.randrange(len(self.regs))] = (y, n)

    def errors(self):
        x, m = walk(*rng.choice(self.regs))
        for k in ("foo", "guards", "code", "weight", "location", "arguments"):
            if k not in m.a:
                self.expect("getattr", lambda: getattr(x, k), AttributeError, m.t, k)
                self.expect("setattr", lambda: setattr(x, k, 1), AttributeError, m.t, k)
        for k, v in m.a.items():
            if isinstance(v, (Node, list)) : self.expect("settype", lambda: setattr(x, k, 5), Exception, m.t, k) if isinstance(v, Node) else None
            elif isinstance(v, str): self.expect("settype", lambda: setattr(x, k, 5), Exception, m.t, k)
            elif isinstance(v, int): self.expect("settype", lambda: setattr(x, k, "x"), Exception, m.t, k)
            elif isinstance(v, Symbol): self.expect("settype", lambda: setattr(x, k, "x"), Exception, m.t, k)

    def compare(self):
        """Equality, ordering and hash follow the structure, locations ignored."""
        l = [walk(*rng.choice(self.regs)) for _ in range(6)]
        x, m = rng.choice(l)
        y = copy.deepcopy(x)
        l.append((y, m))
        for a, b in l:
            for c, d in l:
                e = noloc(mdump(b)) == noloc(mdump(d))
                if (a == c) != e or (a != c) == e: self.bad("equality", "%s == %s is %s" % (mdump(b), mdump(d), a == c))
                if e and hash(a) != hash(c): self.bad("hash", mdump(b))
                if (a < c) + (a == c) + (a > c) != 1 or (a <= c) != (not c < a) or (a >= c) != (not a < c): self.bad("order", mdump(b))
        s = sorted((a for a, _ in l))
        for i in range(len(s) - 1):
            if s[i + 1] < s[i]: self.bad("sort", "not sorted")
        if len({a for a, _ in l}) != len({str(noloc(mdump(b))) for _, b in l}): self.bad("set", "sets of trees")
        if x == 5 or x == None or not (x != "a"): self.bad("foreign", "equal to foreign objects")

    def verify(self):
        for i, (x, m) in enumerate(self.regs):
            if dump(x) != mdump(m):
                self.bad("state", "tree %d is\n%s\nexpected\n%s" % (i, dump(x), mdump(m)))
                return False
        for s, m, k, _ in self.views:
            l = m.a[k]
            if (list(s) if (m.t, k) in STRSEQ else [dump(y) for y in s]) != mval(l):
                self.bad("view", "kept sequence %s.%s" % (m.t, k))
                return False
        return True

    def transform(self):
        x, m = walk(*rng.choice(self.regs))
        before = mdump(m)
        calls = []
        kind = rng.choice(["none", "var", "sym", "fun", "lit", "args", "nodescend"])
        self.log.append("transform %s %s" % (kind, m.t))

        class T(ast.Transformer):
            pass
        if kind == "none":
            T.visit_Variable = lambda self, y, *a: (calls.append(y), y)[1]
            exp = m
        elif kind in ("var", "args"):
            if kind == "var":
                T.visit_Variable = lambda self, y, *a: y.update(name=y.name + "1")
                add = "1"
            else:
                T.visit_Variable = lambda self, y, suf, *, pre: (calls.append((suf, pre)), y.update(name=pre + y.name + suf))[1]
            f = lambda n: upd(n, name=n.a["name"] + "1" if kind == "var" else "P" + n.a["name"] + "S") if n.t == "Variable" else None
        elif kind == "sym":
            T.visit_SymbolicTerm = lambda self, y: y.update(symbol=Number(17)) if y.symbol != Number(0) else y
            f = lambda n: upd(n, symbol=Number(17)) if n.t == "SymbolicTerm" and n.a["symbol"] != Number(0) else None
        elif kind == "fun":     # changes the node and descends
            T.visit_Function = lambda self, y: y.update(name="f_" + y.name, **self.visit_children(y))
            f = None
        elif kind == "nodescend":
            T.visit_Function = lambda self, y: (calls.append(y), y)[1]
            T.visit_Variable = lambda self, y: y.update(name="Q")
        else:
            T.visit_Literal = lambda self, y: ast.Literal(y.location, 2, ast.BooleanConstant(1)) if y.sign == 1 else y.update(**self.visit_children(y))

        def tr(n):
            """Expected result: the node itself if nothing below changed."""
            if kind in ("var", "args", "sym"):
                r = f(n)
                if r is not None: return r
                if n.t == ("SymbolicTerm" if kind == "sym" else "Variable"): return n
            elif kind == "nodescend":
                if n.t == "Function": return n
                if n.t == "Variable": return upd(n, name="Q")
            elif kind == "lit" and n.t == "Literal" and n.a["sign"] == 1: return Node("Literal", {"location": n.a["location"], "sign": 2, "atom": Node("BooleanConstant", {"value": 1})})
            elif kind == "none": return n
            up = {}
            for k, v in n.a.items():
                if isinstance(v, Node):
                    c = tr(v)
                    if c is not v: up[k] = c
                elif isinstance(v, list) and v and isinstance(v[0], Node):
                    c = [tr(z) for z in v]
                    if any(p is not q for p, q in zip(c, v)): up[k] = c
            if kind == "fun" and n.t == "Function": up["name"] = "f_" + n.a["name"]
            return upd(n, **up) if up else n
        t = T()
        y = (t.visit if rng.random() < 0.5 else t)(x, *(("S",) if kind == "args" else ()), **({"pre": "P"} if kind == "args" else {}))
        e = tr(m)
        if dump(y) != mdump(e): self.bad("transform", "%s of %s gives %s expected %s" % (kind, before, dump(y), mdump(e)))
        if e is m and y is not x: self.bad("transform-identity", "%s: unchanged tree is a new object" % kind)
        if dump(x) != before: self.bad("transform-original", "%s changed the original" % kind)

        def shared(a, p, b, q):
            """Where the model shares a child with the original, the tree must share it as well."""
            for k in p.a:
                v, u = p.a[k], q.a.get(k)
                if isinstance(v, Node) and isinstance(u, Node):
                    if v is u:
                        if getattr(a, k)._rep != getattr(b, k)._rep: self.bad("transform-path", "unchanged child %s was copied" % k)
                    elif v.t == u.t: shared(getattr(a, k), v, getattr(b, k), u)
                elif isinstance(v, list) and isinstance(u, list):
                    for i, (c, d) in enumerate(zip(v, u)):
                        if isinstance(c, Node) and c is d and getattr(a, k)[i]._rep != getattr(b, k)[i]._rep: self.bad("transform-path", "unchanged element %s[%d] was copied" % (k, i))
        if e.t == m.t: shared(x, m, y, e)
        self.regs[rng.randrange(len(self.regs))] = (y, e)

    def visit_order(self):
        x, m = walk(*rng.choice(self.regs))
        got = []
        class V(ast.Transformer):
            def visit(self, y, *a, **k):
                got.append((y.ast_type.name, a, tuple(k.items())))
                super().visit_children(y, *a, **k)
                return y
        if V()(x, 1, z=2) is not x: self.bad("visit-identity", "")
        def order(n): return [(n.t, (1,), (("z", 2),))] + [z for c in kids(n) for z in order(c)]
        if got != order(m): self.bad("visit-order", "%s expected %s" % (got, order(m)))
        # sequences can be visited on their own
        for k, v in m.a.items():
            if isinstance(v, list) and (m.t, k) not in STRSEQ:
                s = getattr(x, k)
                class W(ast.Transformer):
                    pass
                if W().visit_sequence(s) is not s: self.bad("visit-sequence", k)


OPT = {(t, k) for t, ks in {"Aggregate": "left_guard right_guard", "BodyAggregate": "left_guard right_guard", "HeadAggregate": "left_guard right_guard", "TheoryAtom": "guard", "TheoryAtomDefinition": "guard"}.items() for k in ks.split()}
STRSEQ = {("TheoryUnparsedTermElement", "operators"), ("TheoryGuardDefinition", "operators")}


def cmpv_all(a, b, f):
    a, b = list(a), list(b)
    return len(a) == len(b) and all(f(p, q) for p, q in zip(a, b))


for i in range(w.batch["n"]):
    w.begin("history %d" % i)
    h = Hist()
    for j in range(60):
        k = rng.random()
        try:
            if k < 0.25: h.setattr()
            elif k < 0.7: h.seqop()
            elif k < 0.8: h.copies()
            elif k < 0.84: h.update()
            elif k < 0.87: h.errors()
            elif k < 0.92: h.compare()
            elif k < 0.97: h.transform()
            else: h.visit_order()
        except Exception as e:
            import traceback
            h.bad("exception", traceback.format_exc()[-900:])
            break
        # keep the trees small
        for q, (x, m) in enumerate(h.regs):
            if size(m) > 150: h.regs[q] = fresh()
        h.views = h.views[-4:]
        if j % 5 == 4 and not h.verify(): break
    w.case(str(h.log), n=60, sample=h.log[:8])
w.done()
