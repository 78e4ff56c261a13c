"""Functions of the C interface the installed engine lacks: what the Python interface passes on and returns (see shim/missing.c)."""
import os, sys, random, ctypes
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf
w = vf.Worker()
import clingo
from clingo import Control, Function, Number
from clingo.control import BackendType
from clingo.propagator import Propagator, PropagatorUndoMode

lib = ctypes.CDLL(w.batch["mock"])
lib.verif_mock_log.restype = ctypes.c_char_p
log = lambda: lib.verif_mock_log().decode("utf-8", "surrogateescape").split("\n")[:-1]
rng = random.Random(f"mock-{w.batch['seed']}-{w.batch['section']}")
log()


def expect(what, e, g=log):
    if g is log: g = log()
    w.case(what + repr(e))
    if e != g: w.viol("py-" + what.split(" ")[0], f"{what}: expected {e!r} got {g!r}")


def fails(what, f):
    lib.verif_mock_fail(1)
    try:
        f()
        w.viol("py-noerror-" + what, f"the failure of {what} is lost")
    except RuntimeError as e:
        if "mock failure" not in str(e): w.viol("py-message-" + what, f"{what} raised {e!r}")
    except BaseException as e: w.viol("py-exception-" + what, f"{what} raised {e!r}")
    log()
    w.case("fails " + what)


def minimize():
    n = rng.randint(1, 5)
    ps = rng.sample(range(-5, 6), n)
    c = Control(["0"])
    c.add("base", [], "{a;b;c;d}. " + " ".join("#minimize{%d@%d : %s}." % (rng.randint(1, 3), p, rng.choice("abcd")) for p in ps))
    c.ground([("base", [])])
    with c.solve(yield_=True) as h:
        for m in h:
            log()
            pr = m.priority
            expect("priority", [100 - 7 * i * i for i in range(len(m.cost))], pr)
            expect("priority-call", ["priority 1 %d" % n])
            break
        m = h.model()
        if m is not None: fails("priority", lambda: m.priority)
    c.remove_minimize()
    expect("remove_minimize", ["remove_minimize 1"])
    fails("remove_minimize", c.remove_minimize)


def consequence():
    c = Control(["0"])
    c.add("base", [], "{a;b;c;d}.")
    c.ground([("base", [])])
    def om(m):
        for l in [rng.randint(-12, 12) or 1 for _ in range(5)] + [2147483647, -2147483647]:
            log()
            r = m.is_consequence(l)
            expect("is_consequence %d" % l, (False, True, None)[l % 3], r)
            expect("is_consequence-call", ["is_consequence 1 %d" % l])
        return False
    c.solve(on_model=om)
    with c.solve(yield_=True) as h:
        m = h.model()
        fails("is_consequence", lambda: m.is_consequence(3))


def project():
    c = Control(["0"])
    c.add("base", [], "{a;b;p(1..4);-q}. fact. #external e.")
    c.ground([("base", [])])
    f = c.remove_project
    f()
    expect("remove_project", ["update_project 1 0"])
    fails("remove_project", f)
    at = {str(x.symbol): (x.symbol, x.literal) for x in c.symbolic_atoms}
    for name, append in (("add_project", 1), ("replace_project", 0)):
        f = getattr(c, name)
        for _ in range(10):
            args, ids = [], []
            for _ in range(rng.randint(0, 6)):
                s, l = at[rng.choice(sorted(at))]
                args.append(rng.choice([s, l]))
                ids.append(l)
            if rng.random() < 0.3: args, ids = args + [2147483647], ids + [2147483647]
            f(tuple(args) if rng.random() < 0.5 else args)
            expect(name, [" ".join(["update_project 1 %d" % append] + [str(x) for x in ids])])
        fails(name, lambda: f([1]))
        try:
            f([-1])
            w.viol("py-negative-atom", name + " accepts a negative literal as an atom")
        except OverflowError: pass
        except ValueError: pass
        log()


def files():
    c = Control()
    for _ in range(5):
        fs = [rng.choice(["a.aspif", "dir/b c", "é.lp", "-", "", "x" * 300]) for _ in range(rng.randint(0, 4))]
        c.load_aspif(fs)
        expect("load_aspif", [" ".join(["load_aspif 1"] + ["[%s]" % f for f in fs])])
    fails("load_aspif", lambda: c.load_aspif(["x"]))
    for t, v in (("Reify", 0), ("Aspif", 4), ("Smodels", 5)):
        for rep in (0, 1):
            f = rng.choice(["out.txt", "d/é", ""])
            c.register_backend(getattr(BackendType, t), f, bool(rep))
            expect("register_backend", ["register_backend 1 %d [%s] %d" % (v, f, rep)])
    for sc in (0, 1):
        for st in (0, 1):
            c.register_backend(BackendType.Reify, "r", reify_sccs=bool(sc), reify_steps=bool(st))
            expect("register_backend-flags", ["register_backend 1 %d [r] 0" % (sc + 2 * st)])
    fails("register_backend", lambda: c.register_backend(BackendType.Aspif, "r"))


def last():
    for yield_, async_ in ((True, False), (True, True)):
        c = Control(["0"])
        c.add("base", [], "{a;b;c}." + rng.choice(["", " :- a, b.", ":- a. :- not a."]))
        c.ground([("base", [])])
        with c.solve(yield_=yield_, async_=async_) as h:
            n = 0
            for m in h:
                log()
                x = h.last()
                expect("last", ["last"])
                if x is None or str(x) != str(m) or x.number != m.number: w.viol("py-last-model", "last() is %r in model %r" % (x and str(x), str(m)))
                n += 1
                if n == 2: fails("last", h.last)
            if h.last() is not None: w.viol("py-last-none", "last() gives a model although the stand-in has none")
            log()


def undo():
    for v in (PropagatorUndoMode.Default, PropagatorUndoMode.Always):
        class P(Propagator):
            def init(self, init):
                log()
                init.undo_mode = v
                expect("set_undo_mode", ["set_undo_mode %d" % {"Default": 0, "Always": 1}[v.name]])
                g = init.undo_mode
                expect("get_undo_mode", ["get_undo_mode"])
                expect("undo_mode", v, g)
        c = Control()
        c.register_propagator(P())
        c.ground([("base", [])])
        c.solve()


for i in range(w.batch.get("n", 5)):
    for s in w.batch["section"].split():
        w.begin(s)
        try: globals()[s]()
        except Exception:
            import traceback
            w.viol("py-exception-" + s, traceback.format_exc())
w.done()
