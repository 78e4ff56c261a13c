"""P12, Python side: the container behaviour of user statistics inside the callback against nested lists and dictionaries."""
import math, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
import p12
from clingo import Control
from clingo.statistics import StatisticsArray, StatisticsMap

w = vf.Worker()
rng = random.Random(w.batch["seed"])


def plain(v):
    if isinstance(v, StatisticsArray): return [plain(x) for x in v]
    if isinstance(v, StatisticsMap): return {k: plain(x) for k, x in v.items()}
    return v


passed = []


def conv(v):
    """To what is passed to the API; numbers that update become callables."""
    if isinstance(v, tuple):
        def upd(prev):
            passed.append(prev)
            return float(v[0]) + (prev or 0.0)
        return upd
    if isinstance(v, list): return [conv(x) for x in v] if rng.random() < 0.7 else tuple(conv(x) for x in v)
    if isinstance(v, dict): return {k: conv(x) for k, x in v.items()}
    return v


def expect(exc, what, f):
    try: f()
    except exc: return
    except Exception as e: w.viol("exception-" + what, f"{what}: {e!r} instead of {exc}")
    else: w.viol("noerror-" + what, f"{what}: no error")


def views(o, m, path):
    """All views of a node agree with the model."""
    def bad(x, got=""): w.viol("view-" + x, f"{path}: {x} {got!r} expected {m!r}")
    if isinstance(m, list):
        if not isinstance(o, StatisticsArray): return bad("type", o)
        if len(o) != len(m): return bad("len", len(o))
        if plain(o) != m: bad("content", plain(o))
        for i in (len(m), len(m) + 2, -1 - len(m)): expect(IndexError, "index", lambda: o[i])
        if [plain(x) for x in reversed(o)] != m[::-1]: bad("reversed")
        for i, x in enumerate(m):
            views(o[i], x, path + [i])
            if isinstance(x, float) and (x not in o or o.index(x) != m.index(x) or o.count(x) != m.count(x)): bad("search")
        expect(NotImplementedError, "insert", lambda: o.insert(0, 1))
        expect(NotImplementedError, "delete", lambda: o.__delitem__(0))
        expect(NotImplementedError, "add", lambda: o + [1])
        expect(IndexError if not m else NotImplementedError, "pop", o.pop) if not m else None
    elif isinstance(m, dict):
        if not isinstance(o, StatisticsMap): return bad("type", o)
        if len(o) != len(m): return bad("len", len(o))
        if sorted(o.keys()) != sorted(m) or sorted(iter(o)) != sorted(m) or sorted(o) != sorted(m): bad("keys", list(o.keys()))
        it = list(o.items())
        if {k: plain(v) for k, v in it} != m or len(it) != len(m): bad("items", it)
        if [plain(v) for v in o.values()] != [m[k] for k in o.keys()] or [k for k, _ in it] != list(o.keys()): bad("values")
        for k in p12.KEYS + [3, None]:
            if (k in o) != (k in m): bad("contains", k)
            if k not in m: expect(KeyError, "key", lambda: o[k])
            if k not in m and o.get(k) is not None: bad("get", k)
        expect(NotImplementedError, "delete", lambda: o.__delitem__("x"))
        for k, x in m.items(): views(o[k], x, path + [k])
    elif not isinstance(o, float) or o != m: bad("value", o)


def edit(o, m, path, d):
    """One random edit somewhere below; returns the new model."""
    if isinstance(m, list):
        k = rng.random()
        if m and k < 0.5:
            i = rng.randrange(len(m))
            if isinstance(m[i], (list, dict)) and rng.random() < 0.6: m[i] = edit(o[i], m[i], path + [i], d - 1)
            else:
                v = p12.upd(rng, m[i], max(0, d - 1))
                o[i] = conv(v)
                m[i] = p12.merge(m[i], v)
            return m
        vs = [p12.gen(rng, max(0, d - 1)) for _ in range(rng.randint(0, 3))]
        if k < 0.65:
            for v in vs: o.append(conv(v))
        elif k < 0.75: o.extend(conv(v) for v in vs)
        elif k < 0.85: o += [conv(v) for v in vs]
        else:
            v = p12.upd(rng, m, d)
            o.update(conv(v))
            return p12.merge(m, v)
        return m + [p12.merge(None, v) for v in vs]
    k = rng.random()
    sub = [q for q in m if isinstance(m[q], (list, dict))]
    if sub and k < 0.5:
        q = rng.choice(sub)
        m[q] = edit(o[q], m[q], path + [q], d - 1)
        return m
    if k < 0.75:
        q = rng.choice(p12.KEYS)
        v = p12.upd(rng, m[q], max(0, d - 1)) if q in m else p12.gen(rng, d)
        o[q] = conv(v)
        m[q] = p12.merge(m.get(q), v)
        return m
    if k < 0.85:
        q = rng.choice(p12.KEYS)
        v = p12.gen(rng, 1)
        got = o.setdefault(q, conv(v))
        if q not in m: m[q] = p12.merge(None, v)
        elif plain(got) != m[q]: w.viol("setdefault", f"{path} {q}: {plain(got)!r} instead of {m[q]!r}")
        return m
    v = p12.upd(rng, m, d)
    o.update(conv(v))
    return p12.merge(m, v)


class Stop(Exception): pass


for n in range(w.batch["n"]):
    c = Control(["0", "--stats"] if rng.random() < 0.7 else ["0"])
    c.add("base", [], "{a;b}.")
    c.ground([("base", [])])
    model = {"s": {}, "a": {}}
    ev = [0]
    w.begin(str(n))
    mode = None
    for call in range(rng.randint(1, 4)):
        seen = [0]
        def on_statistics(step, accu):
            seen[0] += 1
            try: body(step, accu)
            except Exception:
                import traceback
                w.viol("api-error", traceback.format_exc()[-1500:])
        def body(step, accu):
            for _ in range(rng.randint(1, 8)):
                q, o = rng.choice([("s", step), ("a", accu)])
                model[q] = edit(o, model[q], [q], 3)
                if repr(passed) != repr(p12.TRACE): w.viol("updater", f"functions were passed {passed}, expected {p12.TRACE}")
                w.count("updaters", len(passed))
                passed.clear()
                p12.TRACE.clear()
                ev[0] += 1
            views(step, model["s"], ["step"])
            views(accu, model["a"], ["accu"])
            expect(TypeError, "string", lambda: step.__setitem__("str" + str(call), "text"))
        mode = None         # the engine terminates the process if a statistics callback fails
        try:
            if rng.random() < 0.5: c.solve(on_statistics=on_statistics)
            else:
                with c.solve(on_statistics=on_statistics, yield_=True) as h:
                    for _ in h: pass
                    h.get()
            if mode == "stop": w.viol("lost", "failure of the statistics callback is lost")
        except Stop as e:
            if mode != "stop" or str(e) != "stop %d" % call: w.viol("failure", repr(e))
        if seen[0] != 1: w.viol("calls", f"statistics callback ran {seen[0]} times")
        st = c.statistics
        got = {"s": st.get("user_step", {}), "a": st.get("user_accu", {})}
        if mode != "stop" and got != model: w.viol("readback", f"{got} read, {model} written")
        if mode == "stop": break
        if c.statistics.get("user_accu", {}) != got["a"]: w.viol("reread", "")
    w.case(f"{n}-{model}"[:400], n=ev[0])
    w.count("edits", ev[0])
w.done()
