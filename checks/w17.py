"""P17, Python side: asynchronous searches waited for, stopped and resumed at random moments, with delays injected into callbacks."""
import faulthandler, itertools, random, signal, sys, threading, time
import vf
import clingo
from clingo import Control, Function, Number

w = vf.Worker()
rng = random.Random(w.batch["seed"])
faulthandler.dump_traceback_later(w.batch.get("limit", 200), exit=True)


def small(rng):
    n = rng.choice([0, 1, 2, 3, 4, 5])
    cl = [[(rng.randrange(n), rng.random() < .5) for _ in range(rng.choice([1, 2, 3]))] for _ in range(rng.choice([0, 0, 1, 2, 3, 6]))] if n else []
    t = "{a(0..%d)}.\n" % (n - 1) if n else ""
    t += "".join(":- %s.\n" % ",".join(("not " if s else "") + "a(%d)" % a for a, s in c) for c in cl)
    ms = set()
    for x in itertools.product([0, 1], repeat=n):
        if all(any(x[a] == s for a, s in c) for c in cl): ms.add(frozenset(i for i in range(n) if x[i]))
    if rng.random() < .1: t, ms = t + "x. :- x.", set()
    return t, ms


HARD = "p(1..14). h(1..13). 1 {in(P,H) : h(H)} 1 :- p(P). :- in(P,H), in(Q,H), P < Q.\n"


LIMITS = [0, 0]


class Case:
    def __init__(self, rng, name):
        self.rng, self.name = rng, name
        self.log, self.lock = [], threading.Lock()
        self.kind = rng.choice(["small", "small", "slow", "hard", "hard"])
        self.text, self.expected = small(rng) if self.kind != "hard" else (HARD, None)
        self.threads = rng.choice([1, 1, 2, 4])
        args = ["0"] + (["-t%d%s" % (self.threads, rng.choice(["", ",split", ",compete"]))] if self.threads > 1 else [])
        self.ctl = Control(args)
        self.ctl.add("base", [], self.text)
        self.ctl.ground([("base", [])])
        self.pending = False             # an interrupt that came too late stops the next call
        self.history = [self.kind, args, self.text if self.kind != "hard" else "hard"]

    def bad(self, key, what): w.viol(key, f"{what}; history {self.history}", {"history": self.history})
    def event(self, *a):
        with self.lock: self.log.append((*a, time.monotonic()))
    def events(self, name): return [e for e in self.log if e[0] == name]

    def round(self):
        rng = self.rng
        call = rng.choice(["async", "async", "async", "ayield", "ayield", "yield"])
        if self.kind == "hard" and call == "yield": call = "ayield"
        stop_at = rng.choice([None, None, None, None, 1, 2]) if call != "ayield" or rng.random() < .5 else None
        delay = rng.choice([0, 0, 0, .001, .004]) if self.kind != "slow" else rng.choice([.005, .02])
        fdelay = rng.choice([0, 0, 0, .003, .02])
        hooks = {h for h in ("model", "finish", "stats", "core") if rng.random() < .8}
        self.log = []
        h = ["round", call, "stop_at=%s" % stop_at, "delay=%s/%s" % (delay, fdelay), sorted(hooks)]
        self.history.append(h)
        closed = [False]
        def on_model(m):
            if closed[0]: self.bad("model-after-close", "model handler called after the handle was closed")
            self.event("model", frozenset(s.arguments[0].number for s in m.symbols(shown=True) if s.name == "a"), m.number)
            if delay: time.sleep(delay * rng2.random())
            return not (stop_at is not None and len(self.events("model")) >= stop_at)
        rng2 = random.Random(rng.random())
        def on_finish(r):
            if fdelay: time.sleep(fdelay)
            self.event("finish", (r.satisfiable, r.unsatisfiable, r.unknown, r.exhausted, r.interrupted))
        kw = {}
        if "model" in hooks: kw["on_model"] = on_model
        if "finish" in hooks: kw["on_finish"] = on_finish
        if "stats" in hooks: kw["on_statistics"] = lambda a, b: self.event("stats")
        if "core" in hooks: kw["on_core"] = lambda c: self.event("core", list(c))
        stopped = ["pending"] if self.pending else []       # how the search was (or might have been) stopped on purpose
        got = []                         # models consumed through the handle
        pre = rng.random() < .08
        if pre:
            self.ctl.interrupt()
            stopped.append("interrupt")
            h.append("interrupt-before")
        threads = []
        intr = rng.random() < (.4 if self.kind != "hard" else .55)
        handle = self.ctl.solve(async_=call != "yield", yield_=call != "async", **kw)
        if intr:
            at = rng.choice([0, 0, .0005, .002, .01, .03])
            h.append("interrupter@%s" % at)
            stopped.append("interrupt")
            def f():
                if at: time.sleep(at)
                self.ctl.interrupt()
            for _ in range(rng.choice([1, 1, 3])): threads.append(threading.Thread(target=f))
            for t in threads: t.start()
        pending = False                  # a model is on offer
        result = None
        res_known = False
        try:
            with handle:
                plan = [rng.choice(["wait0", "wait", "waitlong", "sleep", "last", "get", "model", "resume", "cancel", "iterate", "waitinf"]) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
                for p in plan:
                    endless = self.kind == "hard" and not [s for s in stopped if s != "pending"]
                    if endless and p in ("get", "iterate", "waitinf", "model"): continue
                    if call == "yield" and p.startswith("wait"): p = "waitinf"      # others support no time limits
                    if p in ("get",) and call != "async" and rng.random() < .7: continue
                    h.append(p)
                    t0 = time.monotonic()
                    if p.startswith("wait"):
                        lim = {"wait0": 0.0, "wait": rng.choice([.001, .005, .02]), "waitlong": .08, "waitinf": None}[p]
                        r = handle.wait(lim) if lim is not None or rng.random() < .5 else handle.wait()
                        el = time.monotonic() - t0
                        if not isinstance(r, bool): self.bad("wait-type", f"wait returned {r!r}")
                        if not r and lim is None: self.bad("wait-false", "wait without a limit returned False")
                        if not r and lim and lim >= .005:
                            # the engine may wake up early once in a while; what counts is that limits are kept in general
                            LIMITS[0] += 1; LIMITS[1] += el < lim * .9 - .002
                        if lim is not None and el > lim + 20: self.bad("wait-late", f"wait({lim}) returned {r} after {el}")
                        if r and endless and not stopped: self.bad("wait-true", "wait reported a result of a search that cannot be finished")
                        if r and call == "async":
                            t0 = time.monotonic()
                            result = handle.get()
                            res_known = True
                            if time.monotonic() - t0 > 20: self.bad("get-late", "get blocked although the result was ready")
                    elif p == "sleep": time.sleep(rng.choice([.0005, .003]))
                    elif p == "get":
                        result = handle.get()
                        res_known = True
                    elif p == "last":
                        if call != "async" or res_known:
                            m = handle.last() if not endless else None
                            if m is not None and self.expected is not None and frozenset(s.arguments[0].number for s in m.symbols(shown=True) if s.name == "a") not in self.expected: self.bad("last-model", "last reports a wrong model")
                    elif p in ("model", "resume", "iterate"):
                        if call == "async": continue
                        if p == "resume":
                            handle.resume()
                            pending = False
                            # the model a resumed search finds is on offer next
                        elif p == "model":
                            m = handle.model()
                            if m is not None:
                                x = (frozenset(s.arguments[0].number for s in m.symbols(shown=True) if s.name == "a"), m.number)
                                if x not in got: got.append(x)
                        else:
                            for m in handle:
                                got.append((frozenset(s.arguments[0].number for s in m.symbols(shown=True) if s.name == "a"), m.number))
                                if delay: time.sleep(delay * rng.random())
                                if rng.random() < .1: break
                            else: h.append("exhausted-iteration")
                    elif p == "cancel":
                        handle.cancel()
                        stopped.append("cancel")
                        n = len(self.events("model"))
                        time.sleep(.001)
                        if len(self.events("model")) != n: self.bad("model-after-cancel", "model handler called after cancel returned")
                        result = handle.get()
                        res_known = True
                if self.kind != "hard" and call == "async" and rng.random() < .6:
                    result = handle.get()
                    res_known = True
                if self.kind == "hard" and rng.random() < .5:
                    h.append("interrupt-self")
                    stopped.append("interrupt")
                    self.ctl.interrupt()
                    result = handle.get() if call == "async" or rng.random() < .5 else result
                    res_known = result is not None
                seen_before_exit = len(self.events("finish")), len(self.events("model"))
                h.append("exit")
                if not res_known: stopped.append("exit")
                if rng.random() < .05: raise KeyError("leave")
        except KeyError: h.append("raised")
        closed[0] = True
        self.pending = "interrupt" in stopped
        nlog = len(self.log)
        for t in threads: t.join(30)
        if any(t.is_alive() for t in threads): self.bad("interrupt-hangs", "interrupt does not return")
        if threads or rng.random() < .3: time.sleep(.003)
        if len(self.log) != nlog: self.bad("event-after-close", f"events {self.log[nlog:]} after the handle was closed")
        # -------------------------------------------------------------- verdict
        fin = self.events("finish")
        if len(fin) != (1 if "finish" in hooks else 0): self.bad("finish-count", f"finish handler called {len(fin)} times, log {self.log}")
        names = [e[0] for e in self.log]
        if fin and "model" in names and names.index("finish") < len(names) - 1 - names[::-1].index("model"): self.bad("model-after-finish", f"events {names}")
        mods = [e[1:3] for e in self.events("model")]
        if [n for _, n in mods] != list(range(1, len(mods) + 1)): self.bad("model-number", f"models numbered {[n for _, n in mods]}")
        if len({m for m, _ in mods}) != len(mods): self.bad("model-twice", f"models {mods}")
        if len({m for m, _ in got}) != len({n for _, n in got}): self.bad("model-twice", f"models consumed {got}")
        if self.expected is not None:
            for m, _ in mods + got:
                if m not in self.expected: self.bad("wrong-model", f"{m} is not an answer set")
        if res_known:
            r = (result.satisfiable, result.unsatisfiable, result.unknown, result.exhausted, result.interrupted)
            if fin and call == "async" and fin[0][1] != r: self.bad("finish-result", f"finish reported {fin[0][1]}, get {r}")
            if r[4] and not [s for s in stopped if s != "exit"]: self.bad("interrupted", f"result {r} although the search was not stopped")
            if (r[0] is None) != r[2] or (r[1] is not None and r[0] is not None and r[0] == r[1]): self.bad("result", f"inconsistent result {r}")
            if self.expected is not None and r[0] is not None and r[0] != bool(self.expected) and not r[4]: self.bad("result", f"result {r}, expected {bool(self.expected)}")
            if self.kind == "hard" and r[0] is not None and not r[4]:      # (the engine was seen to claim unsatisfiability when interrupted early)
                self.bad("result", f"result {r} for a search that cannot be finished")
            free = not [s for s in stopped if s != "exit"] and stop_at is None
            if free and call == "async":
                if not r[3] or r[4]: self.bad("result", f"complete search reports {r}")
                if "model" in hooks and {m for m, _ in mods} != self.expected: self.bad("models", f"delivered {sorted(map(sorted, {m for m, _ in mods}))}, expected {sorted(map(sorted, self.expected))}")
            if r[0] and "model" in hooks and call == "async" and not mods: self.bad("models", "satisfiable but no model was delivered")
            if r[4]: w.count("interrupted results")
        if stop_at is not None and len(mods) > stop_at: self.bad("stop", f"{len(mods)} models after stopping at {stop_at}")
        w.count("finish events", len(fin))
        w.count("model events", len(mods) + len(got))
        w.count("stops", len(stopped))
        w.count("calls " + call)
        w.case((call, self.kind, self.threads, tuple(h[5:]), tuple(names[:6])))

    def usable(self):
        if self.kind == "hard":
            self.ctl.add("s", [], ":- not in(1,1). #external e. ")
            return
        ms = []
        r = self.ctl.solve(on_model=lambda m: ms.append(frozenset(s.arguments[0].number for s in m.symbols(shown=True) if s.name == "a")))
        if sorted(map(sorted, ms)) != sorted(map(sorted, self.expected)) or not r.exhausted or r.interrupted or r.satisfiable != bool(self.expected):
            # a pending interrupt only affects the next call
            ms2 = []
            r2 = self.ctl.solve(on_model=lambda m: ms2.append(frozenset(s.arguments[0].number for s in m.symbols(shown=True) if s.name == "a")))
            if not r.interrupted or sorted(map(sorted, ms2)) != sorted(map(sorted, self.expected)): self.bad("unusable", f"blocking search afterwards: {r} {ms}, then {r2} {ms2}")
        x = Function("extra", [Number(len(self.history))])
        with self.ctl.backend() as b: b.add_rule([b.add_atom(x)])
        ok = []
        self.ctl.solve(on_model=lambda m: ok.append(m.contains(x)))
        if self.expected and not all(ok) or len(ok) != len(self.expected): self.bad("unusable", f"fact added afterwards: {ok}")


def parallel_controls(rng):
    """Independent controls searched at the same time from several threads."""
    errs, n = [], rng.choice([2, 4, 6])
    seeds = [rng.random() for _ in range(n)]
    def f(seed):
        r = random.Random(seed)
        try:
            for _ in range(3):
                t, exp = small(r)
                ctl = Control(["0"])
                ctl.add("base", [], t)
                ctl.ground([("base", [])])
                ms = []
                rec = lambda m: ms.append(frozenset(s.arguments[0].number for s in m.symbols(shown=True) if s.name == "a"))
                if r.random() < .5:
                    with ctl.solve(on_model=rec, async_=True) as h: h.get()
                else: ctl.solve(on_model=rec)
                if sorted(map(sorted, ms)) != sorted(map(sorted, exp)): errs.append((t, ms, exp))
                if str(clingo.parse_term("f(%d,\"x\")" % r.randrange(9)))[:2] != "f(": errs.append("parse_term")
        except Exception as e: errs.append(repr(e))
    ths = [threading.Thread(target=f, args=(s,)) for s in seeds]
    for t in ths: t.start()
    for t in ths: t.join(60)
    if any(t.is_alive() for t in ths): errs.append("hangs")
    for e in errs: w.viol("parallel-controls", f"{e}", {"seeds": seeds})
    w.case(("parallel", n))
    w.count("parallel controls", n)


def signals(rng):
    """An interrupt from a signal handler while the main thread polls."""
    ctl = Control(["0"])
    ctl.add("base", [], HARD)
    ctl.ground([("base", [])])
    hit = []
    old = signal.signal(signal.SIGALRM, lambda *a: (hit.append(1), ctl.interrupt()))
    try:
        with ctl.solve(async_=True) as h:
            signal.setitimer(signal.ITIMER_REAL, rng.choice([.001, .01, .03]))
            t0 = time.monotonic()
            while not h.wait(.01) and time.monotonic() - t0 < 60: pass
            r = h.get() if hit else None
        if not hit or r is None or not r.interrupted or r.satisfiable is not None: w.viol("signal", f"interrupt from a signal handler: {hit} {r}")
    finally: signal.signal(signal.SIGALRM, old)
    w.case("signal")


for i in range(w.batch["n"]):
    seed = rng.randrange(1 << 40)
    w.begin(f"async {seed}")
    c = Case(random.Random(seed), seed)
    for _ in range(c.rng.choice([1, 1, 2, 3])):
        c.round()
        if c.rng.random() < .3 and c.kind != "hard": c.usable()
    c.usable()
    if i % 12 == 0: parallel_controls(random.Random(seed))
    if i % 12 == 5: signals(random.Random(seed))
if LIMITS[1] >= 3 and 2 * LIMITS[1] > LIMITS[0]: w.viol("wait-early", f"{LIMITS[1]} of {LIMITS[0]} waits ended before their limits")
w.count("waits_until_limit", LIMITS[0])
w.done()
