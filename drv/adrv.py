"""Syntax trees through the Python interface (counterpart of adrv.cc)."""
import copy, gc, sys, os
from clingo import ast, parse_term, Control, Symbol, Function, Number, String, Infimum, Supremum, SymbolType
from drivers import enc, dec

out = []
o = out.append


def pos(p): return "%s:%d:%d" % (enc(p.filename), p.line, p.column)


def dump(n):
    keys = n.keys()
    r = n.ast_type.name + "{"
    items = n.items()
    if [k for k, _ in items] != list(keys) or len(n.values()) != len(keys): o("BAD items")
    child = []
    for k, v in items:
        r += k + "="
        if isinstance(v, bool): r += "bool"
        elif isinstance(v, int): r += "#%d" % v
        elif isinstance(v, Symbol): r += "$" + enc(str(v))
        elif isinstance(v, ast.Location): r += "@" + pos(v.begin) + "-" + pos(v.end)
        elif isinstance(v, str): r += "'" + enc(v)
        elif v is None:
            r += "~"
            child.append(k)
        elif isinstance(v, ast.AST):
            r += ("?" if (n.ast_type.name, k) in OPT else "") + dump(v)
            child.append(k)
        elif isinstance(v, ast.StrSequence):
            r += "<" + "".join(enc(x) + "," for x in v) + ">"
            l = list(v)
            if len(v) != len(l) or [v[i] for i in range(len(v))] != l or list(v[:]) != l or str(v) != str(l) or repr(v) != repr(l): o("BAD strseq")
        elif isinstance(v, ast.ASTSequence):
            r += "[" + "".join(dump(x) + "," for x in v) + "]"
            l = list(v)
            if len(v) != len(l) or [v[i] for i in range(len(v))] != l or list(v[:]) != l or str(v) != str(l) or not v == l or hash(v) != hash(tuple(l)): o("BAD seq")
            child.append(k)
        else: o("BAD value %r" % v)
        r += ";"
        if getattr(n, k) != v and not isinstance(v, ast.StrSequence): o("BAD getattr")
    if list(n.child_keys) != child: o("BAD child_keys %s %s" % (n.child_keys, child))
    return r + "}"


OPT = {(t, k) for t, ks in {"Aggregate": "left_guard right_guard", "BodyAggregate": "left_guard right_guard", "HeadAggregate": "left_guard right_guard", "TheoryAtom": "guard", "TheoryAtomDefinition": "guard"}.items() for k in ks.split()}


def rebuild(n, deep):
    def f(v):
        if isinstance(v, ast.AST): return rebuild(v, deep) if deep else v
        if isinstance(v, ast.ASTSequence): return [f(x) for x in v] if deep else v
        return v
    return getattr(ast, n.ast_type.name)(**{k: f(v) for k, v in n.items()})


def rebuild_pos(n):
    """Positionally and with tuples instead of lists."""
    f = lambda v: tuple(rebuild_pos(x) for x in v) if isinstance(v, ast.ASTSequence) else tuple(v) if isinstance(v, ast.StrSequence) else rebuild_pos(v) if isinstance(v, ast.AST) else v
    return getattr(ast, n.ast_type.name)(*[f(v) for v in n.values()])


def subs(n):
    r = [n]
    class V(ast.Transformer):
        def visit(self, x, *a):
            r2.append(x)
            self.visit_children(x)
            return x
    r2 = []
    V()(n)
    return r2


def parse(txt, files):
    regs = []
    log = lambda c, m: o("L %d %s" % (c.value, enc(m)))
    if txt is None: ast.parse_files(files, regs.append, logger=log)
    else: ast.parse_string(txt, regs.append, logger=log)
    return regs


def solve(c):
    c.ground([("base", [])])
    ms, k = [], 0
    with c.solve(yield_=True) as h:
        for m in h:
            ms.append("".join(x + " " for x in sorted(enc(str(s)) for s in m.symbols(shown=True))) + "|" + "".join("%d " % x for x in m.cost))
            k += 1
            if k >= 64: break
    if k < 64: out.extend("m " + m for m in sorted(ms))
    else: o("many")


NS = {k: getattr(ast, k) for k in ("Location", "Position")}
NS.update({"ast": ast, "Function": Function, "Number": Number, "String": String, "Infimum": Infimum, "Supremum": Supremum})


def step(f, regs):
    op = f[0]
    if op in ("parse", "files"):
        regs.clear()
        new = []
        log = lambda c, m: o("L %d %s" % (c.value, enc(m)))
        try:
            if op == "files":
                names = []
                for i, t in enumerate(f[1:]):
                    names.append("af%d.lp" % (i + 1))
                    with open(names[-1], "wb") as fh: fh.write(dec(t).encode("utf-8", "surrogateescape"))
                ast.parse_files(names, regs.append, logger=log)
            else: ast.parse_string(dec(f[1]), regs.append, logger=log)
        finally:
            for n in regs: o("A " + dump(n))
    elif op == "str":
        for n in regs: o("S " + enc(str(n)))
    elif op == "reparse":
        for n in regs:
            r = []
            try: ast.parse_string(str(n), r.append, logger=lambda c, m: o("L %d %s" % (c.value, enc(m))))
            except RuntimeError: o("E reparse")
            l = "R"
            for x in r:
                l += " 1" if x == n else " 0"
                if (x != n) == (x == n) or (n == x) != (x == n): o("BAD eq")
            o(l)
    elif op == "rebuild":
        for n in regs:
            for d in (0, 1):
                x = rebuild(n, d)
                o("A %s %d %d" % (dump(x), x == n, hash(x) == hash(n)))
            x = rebuild_pos(n)
            if dump(x) != dump(n): o("BAD positional")
            if n.ast_type.name not in ("Script",):
                y = eval(repr(n), dict(NS))
                if y != n or dump(y) != dump(n): o("BAD repr %s" % repr(n))
            for k, v in n.items():
                z = n.update(**{k: v})
                if dump(z) != dump(n): o("BAD update")
            if n.update() is not n: o("BAD update()")
    elif op == "copy":
        for n in regs:
            for x in (copy.copy(n), copy.deepcopy(n)):
                o("A %s %d%s" % (dump(x), x == n, " same" if x._rep == n._rep else ""))
    elif op == "unpool":
        for n in regs:
            try:
                for x in n.unpool(f[1][0] == "1", f[1][1] == "1"): o("A " + dump(x))
            except RuntimeError: o("E unpool")
            o("-")
    elif op == "pairs":
        a = [x for n in regs for x in subs(n)][:40]
        for x in a:
            l = "P "
            for y in a:
                l += "=" if x == y else "<" if x < y else ">"
                if x == y and hash(x) != hash(y): o("BAD hash")
                if (x == y) == (x != y) or (x < y) != (y > x) or (x <= y) != (x < y or x == y) or (x >= y) != (not x < y): o("BAD cmp")
            o(l)
    elif op == "term": o("parse s:" + enc(parse_term(dec(f[1])).string))
    elif op == "subs":
        for n in regs:
            for x in subs(n): o("T %s %s" % (x.ast_type.name, enc(str(x))))
    elif op in ("add", "text"):
        c = Control(["0"], lambda c, m: None, 0)
        if op == "add":
            with ast.ProgramBuilder(c) as b:
                for n in regs: b.add(n)
        else: c.add("base", [], dec(f[1]))
        solve(c)
    else: o("BAD op")


regs = []
for line in sys.stdin:
    line = line.rstrip("\n")
    if line.startswith("#"):
        sys.stdout.write(line + "\n")
        sys.stdout.flush()
        regs.clear()
        if os.environ.get("DRV_GC"): gc.collect()
        continue
    out.clear()
    try: step(line.split("\t"), regs)
    except Exception as e:
        if not isinstance(e, RuntimeError): o("BAD exception %s %r" % (type(e).__name__, e))
        o("ERR " + enc(str(e)))
    sys.stdout.write("".join(x + "\n" for x in out) + ".\n")
    sys.stdout.flush()
