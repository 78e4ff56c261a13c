"""P16, Python side: registered script languages, precedence of context objects, return types, locations."""
import random
import vf
from clingo import Control, Function, Number, String, Symbol
from clingo.script import Script, register_script, enable_python
import __main__

w = vf.Worker()
rng = random.Random(w.batch["seed"])


class Mine(Script):
    def __init__(self, name): self.name, self.log, self.funs, self.fail = name, [], {}, None
    def execute(self, location, code):
        self.log.append(("execute", location.begin.filename, location.begin.line, location.begin.column, code))
        if self.fail == "execute": raise RuntimeError("mine-execute")
    def call(self, location, name, arguments):
        self.log.append(("call", location.begin.line, name, [str(a) for a in arguments], all(isinstance(a, Symbol) for a in arguments)))
        if self.fail == "call": raise ValueError("mine-call")
        return self.funs[name](*arguments)
    def callable(self, name):
        if self.fail == "callable": raise KeyError("mine-callable")
        return name in self.funs


langs = {}
for l in ("mine", "other", "x_y"):
    langs[l] = Mine(l)
    register_script(l, langs[l])
enable_python()
PYLOG = []
__main__.PYLOG = PYLOG


class Ctx:
    def __init__(self): self.log = []
    def c_f(self, x):
        self.log.append(str(x))
        return self.ret(x)
    def s_f(self, x):
        self.log.append(str(x))
        return Function("ctx", [x])
    @staticmethod
    def st(x): return Function("st", [x])


def run(prg, ctx=None, parts=(("base", []),)):
    msgs = []
    ctl = Control(["0"], logger=lambda c, m: msgs.append((c.name, m)))
    err = None
    try:
        ctl.add("base", [], prg)
        ctl.ground(list(parts), context=ctx)
    except Exception as e: err = e
    return {str(a.symbol) for a in ctl.symbolic_atoms} if err is None else None, msgs, err


for n in range(w.batch["n"]):
    w.begin(str(n))
    for m in langs.values():
        m.log.clear()
        m.fail, m.funs = None, {}
    vals = [rng.randint(-5, 5) for _ in range(rng.randint(1, 4))]
    l = rng.choice(list(langs))
    m = langs[l]
    kind = rng.choice(["list", "tuple", "gen", "single", "dict", "set", "iter", "empty"])
    res = [Number(rng.randint(0, 3)), String("x\ny"), Function("a", [Number(1)], False)]
    mk = {"list": lambda: list(res), "tuple": lambda: tuple(res), "gen": lambda: (x for x in res), "single": lambda: res[0], "dict": lambda: {x: 1 for x in res}, "set": lambda: set(res), "iter": lambda: iter(res), "empty": lambda: []}[kind]
    exp = [] if kind == "empty" else res[:1] if kind == "single" else res
    m.funs = {"s_f": lambda x: mk(), "s_g": lambda *a: Number(len(a))}
    code = rng.choice(["", "some code", "line 1\nline 2\n", "# end \"quoted\" %s", "äöü"])
    lines = ["d(%s)." % ";".join(map(str, vals))] + ["" for _ in range(rng.randint(0, 3))]
    lno = len(lines) + 1
    prg = "\n".join(lines) + "\n#script (%s)%s#end.\n" % (l, code if code.startswith("\n") or not code else " " + code)
    rl = prg.count("\n") + 1
    prg += "r(X,Y) :- d(X), Y = @s_f(X).\nq(@s_g(1,2,3), @s_g()).\n"
    a, msgs, err = run(prg)
    if err is not None or msgs: w.viol("error", f"{err!r} {msgs}")
    else:
        want = {"d(%d)" % v for v in vals} | {"r(%d,%s)" % (v, x) for v in vals for x in exp} | {"q(3,0)"}
        if a != want: w.viol("atoms", f"{kind}: {sorted(a ^ want)[:4]}")
        ex = [x for x in m.log if x[0] == "execute"]
        if len(ex) != 1 or ex[0][1] != "<block>" or ex[0][2] != lno or ex[0][4].strip() != code.strip(): w.viol("execute", f"{ex} for {code!r} in line {lno}")
        cs = [x for x in m.log if x[0] == "call"]
        if {(x[2], tuple(x[3])) for x in cs} != {("s_f", (str(v),)) for v in vals} | {("s_g", ("1", "2", "3")), ("s_g", ())}: w.viol("calls", str(cs))
        if any(not x[4] for x in cs) or any(x[1] != rl + (x[2] == "s_g") for x in cs): w.viol("location", f"{cs}, rule in line {rl}")
        if any(x.log for y, x in langs.items() if y != l): w.viol("otherlanguage", "a script of another language was run or called")
        w.count("registered_calls", len(cs))
    # context objects come first
    ctx = Ctx()
    ctx.ret = lambda x: mk()
    m.log.clear()
    a, msgs, err = run("#script (%s) #end.\nr(@s_f(%d)). c(@c_f(%d)). t(@st(3))." % (l, vals[0], vals[0]), ctx)
    if err is not None or a != {"r(ctx(%d))" % vals[0], "t(st(3))"} | {"c(%s)" % x for x in exp}: w.viol("context", f"{kind} {a} {err!r} {msgs}")
    if any(x[0] == "call" for x in m.log) or ctx.log.count(str(vals[0])) < 2: w.viol("precedence", f"{m.log} {ctx.log}")
    # python scripts
    del PYLOG[:]
    a, msgs, err = run("#script (python)\ndef py_f(x):\n    PYLOG.append(x)\n    return [x, x]\nPY_N = 3\n#end.\nr(@py_f(\"s\")). r(@nofun(1)). k.")
    if err is not None or a != {'r("s")', "k"} or [str(x) for x in PYLOG] != ['"s"']: w.viol("python", f"{a} {err!r} {PYLOG}")
    if len(msgs) != 1 or msgs[0][0] != "OperationUndefined" or "nofun" not in msgs[0][1] or "<block>:7:" not in msgs[0][1]: w.viol("undefined", msgs)
    # failures
    f = rng.choice(["execute", "call", "callable", "badret", "ctxmissing", "ctxraise", "pysyntax", "pyraise"])
    w.begin(f"{n} {f}")
    m.fail = f if f in ("execute", "call", "callable") else None
    ctx = Ctx()
    prg = "#script (%s) x #end.\nr(@s_f(1))." % l
    if f == "badret": m.funs["s_f"] = lambda x: ["no symbol"]
    if f == "ctxmissing": prg = "r(@missing(1))."
    if f == "ctxraise":
        def boom(x): raise ZeroDivisionError("ctx-raise")
        ctx.ret, prg = boom, "r(@c_f(1))."
    if f == "pysyntax": prg = "#script (python) )( #end. r(1)."
    if f == "pyraise": prg = "#script (python)\ndef py_h(x): raise KeyError('py-raise')\n#end.\nr(@py_h(1))."
    a, msgs, err = run(prg, ctx if f.startswith("ctx") else None)
    if err is None: w.viol("fail-" + f, f"no error: {a} {msgs}")
    else:
        text = str(err) + "".join(x[1] for x in msgs)
        mark = {"execute": "mine-execute", "call": "mine-call", "callable": "mine-callable", "badret": "_rep", "ctxmissing": "missing", "ctxraise": "ctx-raise", "pysyntax": "SyntaxError", "pyraise": "py-raise"}[f]
        if mark not in text: w.viol("fail-message-" + f, f"{err!r} {msgs}")
        if f == "ctxraise" and not isinstance(err, ZeroDivisionError): w.viol("fail-type", repr(err))
        if f == "ctxmissing" and not isinstance(err, AttributeError): w.viol("fail-type", repr(err))
    w.count("failures")
    m.fail = None
    # and the same process goes on
    a, msgs, err = run("r(@c_f(1)).", type("C", (), {"c_f": staticmethod(lambda x: x)}))
    if err is not None or a != {"r(1)"}: w.viol("after", f"{a} {err!r}")
    w.case(f"{kind} {f} {len(vals)} {l} {code!r}", n=4)
w.done()
