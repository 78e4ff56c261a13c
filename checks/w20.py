"""P20: a theory library that records its use, driven through clingo.theory."""
import copy, gc, math, os, random, struct, sys, tempfile
import vf, symgen as SG, astgen
import clingo
from clingo import Control, Function, Number, String, Infimum, Supremum, SymbolType, Application, clingo_main
from clingo import ast
from clingo.ast import ProgramBuilder, parse_string
from clingo.theory import Theory
import _vmt
from _vmt import lib, ffi

w = vf.Worker()
rng = random.Random(w.batch["seed"])
ignored = []
sys.unraisablehook = lambda a: ignored.append(f"{a.object} {a.exc_value!r}")


class Boom(Exception): pass


def log():
    r = ffi.string(lib.vmt_log()).decode().split("\n")[:-1]
    lib.vmt_clear()
    if any(l.startswith("BAD") for l in r): w.viol("foreign", str(r[:5]))
    return r


def expect(key, got, exp, ctx=""):
    if got != exp: w.viol(key, f"{ctx}: {got} expected {exp}"[:1500])


def tosym(s):
    if s[0] == "n": return Number(s[1])
    if s[0] == "s": return String(s[1])
    if s[0] == "i": return Infimum
    if s[0] == "p": return Supremum
    return Function(s[1], [tosym(a) for a in s[3]], s[2])


def rep(s): return ffi.cast("clingo_symbol_t", s._rep)


def sym(depth=2):
    while True:
        s = tosym(SG.gen(rng, depth))
        if "\r" not in str(s): return s


DOUBLES = [0.0, -0.0, 1.5, -2.25, 1e308, -1e308, 5e-324, math.inf, -math.inf, math.nan, 1 / 3, 2.0 ** 53 + 1, 3.0]


def bits(x): return struct.pack("<d", x) if isinstance(x, float) else x


# values
for n in range(w.batch["n"]):
    w.begin(f"values {n}")
    lib.vmt_reset()
    base = rng.choice([0, 0, 1, 70000, 2 ** 40])
    lib.vmt_base(base)
    t = Theory("vmt", lib, ffi)
    v = [rng.choice([0, 1, 5, 99, 2 ** 31 - 1]) for _ in range(3)]
    lib.vmt_set_version(*v)
    expect("version", t.version(), tuple(v))
    ss = []
    for _ in range(rng.randint(0, 12)):
        s = sym()
        if s not in ss: ss.append(s)
    for s in ss: lib.vmt_symbol(rep(s))
    table = {}
    for th in range(rng.randint(1, 4)):
        table[th] = {}
        for i in range(len(ss)):
            k = rng.randrange(4)
            if k == 0:
                x = rng.choice(SG.INTS)
                lib.vmt_value_int(th, i + base, x)
            elif k == 1:
                x = rng.choice(DOUBLES + [rng.uniform(-10, 10)])
                lib.vmt_value_double(th, i + base, x)
            elif k == 2:
                x = sym()
                lib.vmt_value_symbol(th, i + base, rep(x))
            else: continue
            table[th][i] = x
    gc.collect()
    for i, s in enumerate(ss):
        j = t.lookup_symbol(s)
        expect("lookup", j, i + base, s)
        g = t.get_symbol(i + base)
        if g != s or str(g) != str(s) or g.type != s.type or hash(g) != hash(s) or {g: 1}.get(s) != 1 or sorted([g, s]) != [s, s]: w.viol("get_symbol", f"{g!r} {s!r}")
        for th in table:
            h = t.has_value(th, i + base)
            if bool(h) != (i in table[th]) or not isinstance(h, (bool, int)): w.viol("has_value", f"{s} {h}")
            if i in table[th]:
                x = t.get_value(th, i + base)
                e = table[th][i]
                if type(x) is not type(e) or bits(x) != bits(e) or repr(x) != repr(e): w.viol("value-" + type(e).__name__, f"{s}: {x!r} instead of {e!r}")
    for _ in range(3):
        s = sym()
        if s not in ss: expect("lookup-unknown", t.lookup_symbol(s), None, s)
    for th in table:
        got = list(t.assignment(th))
        exp = [(ss[i], table[th][i]) for i in sorted(table[th])]
        if [(str(a), repr(b)) for a, b in got] != [(str(a), repr(b)) for a, b in exp] or any(a != c for (a, _), (c, _) in zip(got, exp)): w.viol("assignment", f"thread {th}: {got} {exp}")
        a, b = t.assignment(th), t.assignment((th + 1) % len(table))      # two at a time
        x, y = [], []
        for p in range(20):
            q = next(a, None)
            if q is not None: x.append(str(q[0]))
            q = next(b, None)
            if q is not None: y.append(str(q[0]))
        expect("assignment-nested", (x, y), tuple([str(ss[i]) for i in sorted(table[z])] for z in (th, (th + 1) % len(table))))
    expect("unknown-thread", list(t.assignment(77)), [])
    w.case(f"values {len(ss)} {sorted((th, len(x)) for th, x in table.items())} {ss[:1]}", n=1 + 3 * len(ss), sample=[str(s) for s in ss[:3]])
    t = a = b = None
    gc.collect()
    if lib.vmt_alive(): w.viol("not-destroyed", lib.vmt_alive())
    if log() != ["create", "destroy"]: w.viol("life", "")

# life cycles
for n in range(w.batch["n"]):
    w.begin(f"life {n}")
    lib.vmt_reset()
    g = astgen.Gen(rng, depth=1)
    exp, ops = ["create"], []
    t = Theory("vmt", lib, ffi)
    c = Control(["0", "-t%d" % rng.choice([1, 1, 2])], logger=lambda c, m: None)
    mode = rng.randrange(5)
    lib.vmt_rewrite_mode(mode)
    for _ in range(rng.randint(0, 3)):
        k, v = rng.choice(["a", "prefix", "\u00e4", "", "long" * 50]), rng.choice(["", "1", "a b", "\u20ac", "x=y", "v" * 300])
        t.configure(k, v)
        exp.append(f"configure {len(k.encode())}:{k}={len(v.encode())}:{v}")
    t.register(c)
    exp.append("register")
    # arbitrary statements
    stms = []
    try: parse_string(g.program(rng.randint(1, 4)), stms.append, logger=lambda c, m: None)
    except RuntimeError: stms = []
    # printing and parsing arbitrary statements is a matter of the engine
    lib.vmt_rewrite_mode(0 if mode == 3 else mode)
    for s in stms:
        before = str(s)
        out = []
        t.rewrite_ast(s, out.append)
        exp.append("rewrite " + before)
        e = [before] * {0: 1, 1: 2, 2: 0, 3: 1, 4: 1}[mode]
        expect("rewritten", [str(x) for x in out], e, mode)
        if mode in (0, 1) and any(x != s for x in out): w.viol("rewritten", before)
        if str(s) != before: w.viol("rewrite-changes", before)
        out = None
    lib.vmt_rewrite_mode(mode)
    # a program to solve
    na = rng.randint(1, 3)
    text = "{%s}. &vmt { X : a(X) } <= 3. &vmt { 1; 2 } = -x :- a(1). d." % ";".join("a(%d)" % i for i in range(na))
    with ProgramBuilder(c) as b:
        def add(s):
            t.rewrite_ast(s, b.add)
            exp.append("rewrite " + str(s))
        parse_string(text, add)
    c.ground([("base", [])])
    t.prepare(c)
    exp.append("prepare %d" % (0 if mode == 2 else na + 1))
    got = log()
    expect("log", got, "\n".join(exp).split("\n"), ops)
    exp = []
    seen = []
    def on_model(m):
        before = sorted(str(s) for s in m.symbols(shown=True))
        t.on_model(m)
        seen.append((m.number, before, [str(s) for s in m.symbols(theory=True)], m.thread_id))
    stat = []
    def on_statistics(a, b):
        t.on_statistics(a, b)
        stat.append((a["VMT"]["value"], b["VMT"]["value"]))
    c.solve(on_model=on_model, on_statistics=on_statistics)
    got = log()
    nm = 1 if mode == 2 else 1 << na
    if len(seen) != nm: w.viol("models", f"{len(seen)} {nm}")
    expect("model-log", [l for l in got if l.startswith("model")], [" ".join(["model", str(k)] + b) for k, b, _, _ in seen])
    expect("extend", [x for _, _, x, _ in seen], [['ext(%d,"v\\"")' % k] for k, _, _, _ in seen])
    expect("statistics", stat, [(1.5, 2.5)])
    expect("statistics", (c.statistics["user_step"]["VMT"]["value"], c.statistics["user_accu"]["VMT"]["value"]), (1.5, 2.5))
    expect("statistics-log", got.count("statistics"), 1)
    init = [l for l in got if l.startswith("init")]
    if len(init) != 1 or init[0].split()[1] != ("0" if mode == 2 else "2" if na > 1 else "1"): w.viol("init", str(init))
    if got.count("check") < nm: w.viol("check", f"{got.count('check')} < {nm}")
    # failures
    solving = [("on_model", lambda: c.solve(on_model=t.on_model)), ("init", lambda: c.solve()), ("check", lambda: c.solve())]
    for name, f in rng.sample([("configure", lambda: t.configure("a", "b")), ("register", lambda: t.register(c)), ("prepare", lambda: t.prepare(c)), ("rewrite", lambda: t.rewrite_ast(s0, list().append)), ("validate_options", t.validate_options)], rng.randint(0, 4)) + rng.sample(solving, rng.randint(0, 1)):
        code, exc = rng.choice([(1, RuntimeError), (2, RuntimeError), (3, MemoryError), (4, RuntimeError)])
        msg = rng.choice(["theory failure", "m\u00e4ssage"])
        s0 = ast.Rule(ast.Location(ast.Position("f", 1, 1), ast.Position("f", 1, 1)), ast.Literal(ast.Location(ast.Position("f", 1, 1), ast.Position("f", 1, 1)), 0, ast.BooleanConstant(1)), [])
        lib.vmt_fail(name.encode(), code, msg.encode())
        err = None
        try: f()
        except Exception as e:
            err = repr(e)
            if not (type(e) is exc or name in ("on_model", "init", "check") and type(e) is RuntimeError) or msg not in str(e): w.viol("failure-" + name, f"code {code}: {e!r}")
        else: w.viol("failure-lost-" + name, f"code {code}: no error")
        lib.vmt_fail(b"", 0, b"")
        ops.append(name)
        if not any(l.split()[0] == {"on_model": "model"}.get(name, name) for l in log()): w.viol("not-called-" + name, f"{ops} {na} {mode} {c.configuration.solve.parallel_mode} {c.is_conflicting} {got} {err}")
    # exceptions of the callback
    for k in range(rng.randint(0, 2)):
        lib.vmt_rewrite_mode(rng.choice([0, 1, 3, 4]))
        e0 = rng.choice([Boom("x"), KeyError("k"), MemoryError("m"), ValueError("\udc80 surrogate"), RuntimeError("r")])
        calls = []
        def bad(s):
            calls.append(str(s))
            raise e0
        for q in (lambda: t.rewrite_ast(s1, bad), lambda: parse_string("a. b.", lambda s: t.rewrite_ast(s, bad))):
            del calls[:]
            s1 = None
            l = []
            parse_string("c.", l.append)
            s1 = l[1]
            try: q()
            except Exception as e:
                if e is not e0: w.viol("callback-exception", f"{e!r} instead of {e0!r}")
            else: w.viol("callback-exception-lost", repr(e0))
            if len(calls) != 1: w.viol("callback-called-again", str(calls))
        s1 = None
        l = []
        t.rewrite_ast(stms[0] if stms else ast.Program(ast.Location(ast.Position("f", 1, 1), ast.Position("f", 1, 1)), "base", []), l.append)
    e0 = None
    if log() is None: pass
    c = None
    gc.collect()
    if lib.vmt_alive() != 1: w.viol("alive", lib.vmt_alive())
    t = bad = f = on_model = on_statistics = add = q = None
    gc.collect()
    if lib.vmt_alive() != 0: w.viol("not-destroyed", lib.vmt_alive())
    if log() != ["destroy"]: w.viol("destroy", "")
    w.case(f"life {mode} {na} {ops} {len(stms)}", n=len(got) + len(ops))

# creation fails
for code, exc in ((1, RuntimeError), (3, MemoryError), (4, RuntimeError)):
    w.begin(f"create {code}")
    lib.vmt_fail(b"create", code, b"cannot create")
    try: Theory("vmt", lib, ffi)
    except Exception as e:
        if type(e) is not exc or "cannot create" not in str(e): w.viol("create", repr(e))
    else: w.viol("create", "no error")
    gc.collect()
    expect("create-log", log(), ["create"])
    w.case(f"create {code}")

# as part of an application
null = os.open(os.devnull, os.O_WRONLY)
for n in range(max(3, w.batch["n"] // 4)):
    w.begin(f"application {n}")
    lib.vmt_reset()
    mode = rng.choice([0, 3, 4])
    lib.vmt_rewrite_mode(mode)
    na = rng.randint(1, 2)
    d = tempfile.mkdtemp()
    path = d + "/p.lp"
    with open(path, "w") as fd: fd.write("{%s}. &vmt { X : a(X) } <= 3." % ";".join("a(%d)" % i for i in range(na)))
    opts, vals = [], []
    for _ in range(rng.randint(0, 3)):
        v = rng.choice(["x", "1", "a b", "\u00e4=1"])
        opts.append("--vmt-value=" + v)
        vals.append(v)
    flag = rng.random() < 0.5
    if flag: opts.append("--vmt-flag")
    broken = rng.choice([None, None, "option", "prepare", "on_model"])    # others end the process
    if broken == "option": opts.append("--vmt-value=bad")
    elif broken: lib.vmt_fail(broken.encode(), 1, b"broken theory")

    class App(Application):
        program_name = "app"
        def __init__(self): self.t = Theory("vmt", lib, ffi)
        def register_options(self, options): self.t.register_options(options)
        def validate_options(self):
            self.t.validate_options()
            return True
        def main(self, c, files):
            self.t.register(c)
            with ProgramBuilder(c) as b: ast.parse_files(files, lambda s: self.t.rewrite_ast(s, b.add))
            c.ground([("base", [])])
            self.t.prepare(c)
            c.solve(on_model=self.t.on_model, on_statistics=self.t.on_statistics)

    sys.stdout.flush()
    o1, o2 = os.dup(1), os.dup(2)
    os.dup2(null, 1)
    os.dup2(null, 2)
    w.begin(f"application {n} {broken} {opts}")
    try: rc = clingo_main(App(), ["0", "--outf=3", path] + opts)
    finally:
        os.dup2(o1, 1)
        os.dup2(o2, 2)
        os.close(o1)
        os.close(o2)
    gc.collect()
    got = log()
    exp = ["create", "register_options"]
    if broken != "register_options":
        exp += ["option " + v for v in vals + (["bad"] if broken == "option" else [])]
        if broken != "option":
            exp += ["validate_options " + (vals[-1] if vals else "") + (" flag" if flag else "")]
            if broken != "validate_options":
                exp += ["register", "rewrite #program base.", "rewrite { %s }." % "; ".join("a(%d)" % i for i in range(na)), "rewrite &vmt { X: a(X) } <= 3.", "prepare %d" % na]
                if broken != "prepare": exp += ["init 1 1"]
    rest = got[len(exp):]
    expect("application-log", got[:len(exp)], exp, (opts, broken))
    if not rest or rest[-1] != "destroy": w.viol("application-destroy", str(rest))
    if broken is None:
        expect("application-models", sorted(l.split(" ", 2)[2] if l.count(" ") > 1 else "" for l in rest if l.startswith("model")), sorted(" ".join("a(%d)" % i for i in range(na) if s >> i & 1) for s in range(1 << na)))
        expect("application-statistics", rest.count("statistics"), 1)
        expect("application-rc", rc, 30, opts)
    elif broken not in ("validate_options",) and rc in (0, 10, 20, 30): w.viol("application-rc", f"{broken}: {rc}")
    if lib.vmt_alive(): w.viol("application-alive", lib.vmt_alive())
    w.case(f"application {opts} {broken} {mode} {na}", n=len(got))
    os.remove(path)
    os.rmdir(d)
if ignored: w.viol("ignored-exception", str(ignored[:3]))
w.done()
