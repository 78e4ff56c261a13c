"""P11, Python side: container behaviour of configuration objects, values that are not strings, handles that outlive writes."""
import random
import vf
from clingo import Control
from clingo.configuration import Configuration

w = vf.Worker()
rng = random.Random(w.batch["seed"])


def raises(exc, f, *a):
    try: f(*a)
    except exc: return True
    except Exception as e: w.viol("exception-" + type(e).__name__, f"{f} {a}: {e!r} instead of {exc}")
    else: w.viol("noerror", f"{f} {a}: no error")
    return False


for n in range(w.batch["n"]):
    nt = rng.randint(1, 4)
    c = Control(["-t%d" % nt])
    w.begin(f"{n} -t{nt}")
    conf = c.configuration
    ev = 0
    sol = conf.solver
    if not isinstance(sol, Configuration) or not sol.is_array or len(sol) != nt or len(list(sol)) != nt: w.viol("array", f"-t{nt}: len {len(sol)}")
    if conf.is_array or len(conf) != 0 or conf.solve.is_array or len(conf.solve) != 0: w.viol("notarray", "a map is reported as an array")
    held = [sol[i] for i in range(nt)]
    exp = [{} for _ in range(nt)]
    keys = ["seed", "restart_on_model", "rand_freq", "heuristic", "opt_heuristic", "forget_on_step", "save_progress"]
    for i in range(nt):
        for k in keys: exp[i][k] = getattr(held[i], k)
    for _ in range(rng.randint(5, 25)):
        i = rng.randrange(nt)
        k = rng.choice(keys)
        if k == "seed": v = rng.choice([0, 1, 42, "17", 4294967]); r = str(v)
        elif k == "restart_on_model": v = rng.choice([0, 1, "yes", "no", "0"]); r = {"yes": "1", "no": "0", True: "1", False: "0"}.get(v, str(v))
        elif k == "rand_freq": v = rng.choice([0, 1, 0.5, 0.25, "0.125"]); r = str(v)
        elif k == "heuristic": v = rng.choice(["berkmin", "vmtf,10", "vsids,90", "unit", "none", "domain,50"]); r = None
        elif k == "save_progress": v = rng.choice([0, 5, 100, "30"]); r = str(v)
        else: v = rng.choice(["x", "foo", "99999999999999", [], object()]); r = KeyError
        who = rng.choice([held[i], sol[i], c.configuration.solver[i], list(conf.solver)[i]])
        ev += 1
        if r is KeyError:
            raises(RuntimeError, setattr, who, rng.choice(["seed", "heuristic"]), v)
        else:
            setattr(who, k, v)
            got = getattr(sol[i], k)
            if r is not None and got.lower() != r.lower(): w.viol("readback-" + k, f"wrote {v!r} read {got!r}")
            if r is None and got.split(",")[0].lower() != v.split(",")[0]: w.viol("readback-" + k, f"wrote {v!r} read {got!r}")
            exp[i][k] = got
        for j in range(nt):
            for q in keys:
                x = getattr(held[j], q)
                if x != exp[j][q]: w.viol("isolation", f"after writing {v!r} to solver {i} {k}: solver {j} {q} is {x!r}, was {exp[j][q]!r}")
        if c.configuration.solver.seed != exp[0]["seed"]: w.viol("default", "array node and first solver disagree")
    for bad in (-1, nt, nt + 3): raises(IndexError, sol.__getitem__, bad)
    raises(IndexError, conf.solve.__getitem__, 0)
    for o in (conf, sol[0], conf.solve, sol):
        raises(AttributeError, getattr, o, "no_such_option")
        raises(AttributeError, setattr, o, "no_such_option", 1)
        raises(RuntimeError, o.description, "no_such_option")
        ks = o.keys
        if not ks or len(set(ks)) != len(ks): w.viol("keys", f"{ks}")
        for k in ks:
            d = o.description(k)
            if not isinstance(d, str) or not d: w.viol("description", f"{k}: {d!r}")
            v = getattr(o, k)
            if v is not None and not isinstance(v, (str, Configuration)): w.viol("value", f"{k}: {v!r}")
            if hasattr(o, k) is not True: w.viol("hasattr", k)
    if hasattr(conf, "bar") or hasattr(sol, "bar"): w.viol("hasattr", "bar")
    raises(RuntimeError, setattr, conf, "solver", "x")
    raises(RuntimeError, setattr, conf, "solve", 1)
    w.case(f"{nt}-{n}", n=ev)
w.done()
