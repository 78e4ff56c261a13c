"""Life times seen from Python: objects handed to the interface live as long as they are needed and no longer; blocks left by exceptions end properly."""
import gc, random, weakref
import vf
import clingo
from clingo import ast, Control, Function, Number, Propagator, Observer
from clingo.ast import ProgramBuilder, parse_string

w = vf.Worker()
rng = random.Random(w.batch["seed"])


class Boom(Exception): pass


class Prop(Propagator):
    def __init__(self, log): self.log, self.state = log, ["alive"] * 3
    def init(self, init):
        self.log.append("init" + self.state[0])
        for a in init.symbolic_atoms: init.add_watch(init.solver_literal(a.literal))
        init.check_mode = clingo.PropagatorCheckMode.Both
    def propagate(self, ctl, changes): self.log.append("propagate" + self.state[0])
    def undo(self, thread_id, ass, changes): self.log.append("undo" + self.state[0])
    def check(self, ctl): self.log.append("check" + self.state[0])


class Obs(Observer):
    def __init__(self, log): self.log, self.state = log, ["alive"] * 3
    def begin_step(self): self.log.append("begin" + self.state[0])
    def rule(self, choice, head, body): self.log.append("rule" + self.state[0])
    def output_atom(self, symbol, atom): self.log.append("output" + str(symbol))
    def end_step(self): self.log.append("end" + self.state[0])


class Ctx:
    def __init__(self, log): self.log = log
    def f(self, x):
        self.log.append("f%s" % x)
        return [x, Number(x.number + 1)]


class Log:
    def __init__(self, log): self.log = log
    def __call__(self, code, msg): self.log.append((code, msg))


def live(refs): return [n for n, r in refs if r() is not None]


def models(c, **kw):
    r = []
    c.solve(on_model=lambda m: r.append(str(sorted(m.symbols(shown=True)))), **kw)
    return sorted(r)


for n in range(w.batch["n"]):
    w.begin(f"{n}")
    log, refs, refs2, ops = [], [], [], []
    lg = Log(log)
    refs.append(("logger", weakref.ref(lg)))
    c = Control(["0"], logger=lg)
    lg = None
    na = rng.randint(1, 3)
    c.add("base", [], "{%s}. p(@f(1)). #external e. :- undefined_atom." % ";".join("a(%d)" % i for i in range(na)))
    if rng.random() < 0.5: c.add("t", ["k"], "q(@f(k)).")
    nprop = rng.choice([0, 1, 1, 2])
    nobs = rng.choice([0, 1, 2])
    early = rng.random() < 0.5
    def setup():
        for _ in range(nprop):
            p = Prop(log)
            refs.append(("propagator", weakref.ref(p)))
            c.register_propagator(p)
        for _ in range(nobs):
            o = Obs(log)
            refs.append(("observer", weakref.ref(o)))
            c.register_observer(o)
    if early: setup()
    gc.collect()
    x = Ctx(log)
    r = weakref.ref(x)
    c.ground([("base", [])], context=x)
    x = None
    gc.collect()
    if r() is not None: w.viol("context", "the context is still alive after grounding")
    if "f1" not in log: w.viol("context-calls", log)
    if not any(isinstance(l, tuple) and "undefined_atom" in l[1] for l in log): w.viol("logger", log)
    if not early:
        setup()
        gc.collect()
    exp = sorted(str(sorted([Function("a", [Number(i)]) for i in range(na) if s >> i & 1] + [Function("p", [Number(1)]), Function("p", [Number(2)])])) for s in range(1 << na))
    for rnd in range(rng.randint(1, 4)):
        k = rng.choice(["solve", "yield", "break", "raise", "backend", "backendraise", "builder", "builderraise", "handler", "nested", "ground", "parseraise", "gc", "iter", "keep"])
        ops.append(k)
        del log[:]
        try:
            if k == "solve":
                if models(c) != exp: w.viol("models", ops)
            elif k in ("yield", "break", "raise"):
                got, kept = [], []
                try:
                    with c.solve(yield_=True) as h:
                        for i, m in enumerate(h):
                            s = m.symbols(shown=True)
                            kept.append((s, str(sorted(s))))
                            got.append(str(sorted(s)))
                            if k == "break" and i == 1: break
                            if k == "raise" and i == 1: raise Boom("x")
                            if rng.random() < 0.2: gc.collect()
                except Boom: pass
                else:
                    if k == "raise" and len(exp) > 1: w.viol("with-swallows", ops)
                if k == "yield" and sorted(got) != exp: w.viol("yield", f"{got} {exp}")
                if not set(got) <= set(exp): w.viol("yield", f"{got} {exp}")
                if any(str(sorted(s)) != t for s, t in kept): w.viol("kept", "symbols of a model changed after the search")
            elif k in ("backend", "backendraise"):
                try:
                    with c.backend() as b:
                        a = b.add_atom(Function("new%d" % rnd))
                        b.add_rule([a])
                        if k == "backendraise": raise Boom("x")
                except Boom: pass
                else:
                    if k == "backendraise": w.viol("with-swallows", ops)
                exp = None
            elif k in ("builder", "builderraise"):
                try:
                    with ProgramBuilder(c) as b:
                        parse_string("dead(%d)." % rnd, b.add)
                        if k == "builderraise": raise Boom("x")
                except Boom: pass
                else:
                    if k == "builderraise": w.viol("with-swallows", ops)
            elif k == "parseraise":
                held = []
                def cb(s):
                    held.append(s)
                    if len(held) == 3: raise Boom("x")
                try: parse_string("a. b. c. d.", cb)
                except Boom: pass
                else: w.viol("parse-swallows", ops)
                if [str(s) for s in held] != ["#program base.", "a.", "b."]: w.viol("held", held)
            elif k == "handler":
                class H:
                    def __init__(self): self.n = 0
                    def model(self, m): self.n += 1
                    def finish(self, r): self.n += 100
                    def stats(self, a, b):
                        b["x"] = 1
                h = H()
                refs2.append(weakref.ref(h))
                c.solve(on_model=h.model, on_finish=h.finish, on_statistics=h.stats)
                if exp is not None and h.n != len(exp) + 100: w.viol("handler", h.n)
                h = None
                if c.statistics["user_accu"]["x"] != 1.0: w.viol("stats", "")
            elif k == "nested":
                # another control solved inside a handler of this one
                seen = []
                def on_model(m):
                    d = Control(["0"])
                    d.add("base", [], "{x}.")
                    d.ground([("base", [])])
                    seen.append(len(models(d)))
                c.solve(on_model=on_model)
                if any(s != 2 for s in seen): w.viol("nested", seen)
            elif k == "ground":
                x = Ctx(log)
                c.add("more%d" % rnd, ["k"], "zz%d(@f(k))." % rnd)
                c.ground([("more%d" % rnd, [Number(7)])], context=x)
                x = None
                if log.count("f7") != 1: w.viol("ground-context", log)
                exp = None
            elif k == "iter":
                it = iter(list(c.symbolic_atoms.by_signature("a", 1)))
                l = [str(a.symbol) for a in it]
                if sorted(l) != ["a(%d)" % i for i in range(na)]: w.viol("atoms", l)
            elif k == "keep":
                st, cf = c.statistics, str(c.configuration.solve.models)
                ss = [a.symbol for a in c.symbolic_atoms]
                d = Control()
                d = None
                gc.collect()
                if cf != "0" or not isinstance(st, dict) or len([str(s) for s in ss]) != len(ss): w.viol("keep", "")
            else: gc.collect()
            if exp is None:
                exp = models(c)
                if models(c) != exp: w.viol("repeat", ops)
            elif models(c) != exp: w.viol("models-after", f"{ops}: {models(c)} {exp}")
        except Exception as e:
            w.viol("exception-" + k, f"{ops}: {type(e).__name__} {e}")
            break
        bad = [l for l in log if isinstance(l, str) and (l.startswith(("init", "check", "propagate", "undo", "begin", "end", "rule")) and not l.endswith("alive"))]
        if bad: w.viol("state", bad)
        if nprop and not any("check" in str(l) for l in log): w.viol("propagator-calls", f"{ops} {log[:5]}")
        gc.collect()
        want = ["logger"] + ["propagator"] * nprop + ["observer"] * nobs
        if live(refs) != want: w.viol("dropped-early", f"{ops}: {live(refs)} of {want} are alive although the control is")
    c = h = b = m = None
    gc.collect()
    if live(refs): w.viol("kept-alive", f"{ops}: {live(refs)} are alive although the control is gone")
    if any(r() for r in refs2): w.viol("handlers-kept-alive", f"{ops}: handlers are alive although the control is gone")
    w.case(f"{na} {nprop} {nobs} {early} {ops}", n=len(ops))

# loggers of parsing functions
for n in range(5):
    log = []
    for f in (lambda l: clingo.parse_term("f(1/0)", l), lambda l: parse_string("a :- ", lambda s: None, logger=l)):
        l = Log(log)
        r = weakref.ref(l)
        try: f(l)
        except RuntimeError: pass
        l = None
        gc.collect()
        if r() is not None: w.viol("parse-logger", "the logger is still alive")
    w.case(f"parse {n}")
w.done()
