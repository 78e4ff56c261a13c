"""P21: state of controls, results and sequences seen from Python."""
import operator, os, random, sys, tempfile
import vf
import clingo
from clingo import Control, Function, Number, SolveResult, MessageCode, TruthValue, SymbolType, ModelType, Propagator, PropagatorCheckMode
from clingo.application import Flag, Application, clingo_main
from clingo.core import OrderedEnum

w = vf.Worker()
rng = random.Random(w.batch["seed"])
N = w.batch["n"]


def expect(key, got, exp, ctx=""):
    if got != exp: w.viol(key, f"{ctx}: {got!r} expected {exp!r}"[:1500])
    return got == exp


def attempt(f):
    try: return ("value", f())
    except Exception as e: return ("raise", type(e).__name__)


def rslice(n):
    r = lambda: rng.choice([None, None, rng.randint(-n - 2, n + 2)])
    return slice(r(), r(), rng.choice([None, 1, 2, -1, -2, 3]))


def seqcheck(key, seq, exp, eq=None, rounds=6):
    """A sequence of the interface against a list of the same elements."""
    exp, n = list(exp), len(exp)
    expect(key + "-len", len(seq), n)
    expect(key + "-iter", list(seq), exp)
    expect(key + "-reversed", list(reversed(seq)), exp[::-1])
    for i in {0, -1, n, n - 1, -n, -n - 1, rng.randint(-n - 3, n + 3)}:
        expect(key + "-index", attempt(lambda: seq[i]), attempt(lambda: exp[i]), (n, i))
    for _ in range(rounds):
        s = rslice(n)
        sub, esub = seq[s], exp[s]
        expect(key + "-slice", list(sub), esub, (n, s))
        expect(key + "-slice-len", len(sub), len(esub), (n, s))
        t = rslice(len(esub))
        expect(key + "-slice-slice", list(sub[t]), esub[t], (n, s, t))
        i = rng.randint(-len(esub) - 1, len(esub))
        expect(key + "-slice-index", attempt(lambda: sub[i]), attempt(lambda: esub[i]), (n, s, i))
        expect(key + "-slice-str", (str(sub), repr(sub)), (str(esub), repr(esub)), (n, s))
        if exp:
            x = rng.choice(exp)
            expect(key + "-contains", (x in seq, seq.count(x), seq.index(x)), (True, exp.count(x), exp.index(x)), x)
            expect(key + "-slice-contains", (x in sub, sub.count(x)), (x in esub, esub.count(x)), x)
    w.case(f"{key} {n} {rng.random()}", n=10 + 5 * rounds)


# --- results
for b in range(16):
    if b & 3 == 3: continue
    r = SolveResult(b)
    sat, uns = bool(b & 1), bool(b & 2)
    expect("result", (r.satisfiable, r.unsatisfiable, r.unknown, r.exhausted, r.interrupted), (True if sat else False if uns else None, True if uns else False if sat else None, not (sat or uns), bool(b & 4), bool(b & 8)), b)
    expect("result-str", (str(r), repr(r)), ("SAT" if sat else "UNSAT" if uns else "UNKNOWN", f"SolveResult({b})"), b)
    w.case(f"result {b}", n=7)

# --- enumerations
enums = [MessageCode, TruthValue, SymbolType, ModelType, PropagatorCheckMode, clingo.backend.HeuristicType]
for e in enums:
    if not issubclass(e, OrderedEnum): continue
    ms = list(e)
    for a in ms:
        for b in ms:
            for op in (operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne): expect("enum-order", op(a, b), op(a.value, b.value), (a, b, op))
        o = rng.choice([x for x in enums if x is not e])
        for x in (1, "a", None, list(o)[0]):
            for op in (operator.lt, operator.le, operator.gt, operator.ge): expect("enum-foreign", attempt(lambda: op(a, x)), ("raise", "TypeError"), (a, x))
            expect("enum-eq", (a == x, a != x), (False, True), (a, x))
    w.case(f"enum {e}", n=len(ms) ** 2 * 6)

# --- flags
for v in (True, False):
    f = Flag(v)
    expect("flag", (f.flag, bool(f)), (v, v))
    for x in (True, False, True):
        f.flag = x
        expect("flag", (f.flag, bool(f)), (x, x))
    g = Flag()
    expect("flag-default", (g.flag, bool(g)), (False, False))
    w.case(f"flag {v}")


class Watch(Propagator):
    def __init__(self): self.n = 0
    def init(self, init):
        self.look(init.assignment)
        for a in init.symbolic_atoms: init.add_watch(init.solver_literal(a.literal))
        init.check_mode = PropagatorCheckMode.Both
    def look(self, ass):
        lits = [ass[i] for i in range(len(ass))]
        seqcheck("assignment", ass, lits, rounds=3)
        t = ass.trail
        tl = [t[i] for i in range(len(t))]
        seqcheck("trail", t, tl, rounds=3)
        levels = []
        for l in range(ass.decision_level + 1):
            seg = tl[t.begin(l):t.end(l)]
            expect("trail-level", [ass.level(x) for x in seg], [l] * len(seg), l)
            levels += seg
            if l and seg: expect("trail-decision", seg[0], ass.decision(l), l)
        expect("trail-levels", levels, tl)
        for x in tl: expect("trail-true", ass.is_true(x), True, x)
        for x in lits: expect("assignment-value", (ass.value(x), ass.is_free(x)) if hasattr(ass, "is_free") else (ass.value(x),), ((True, False) if ass.is_true(x) else (False, False) if ass.is_false(x) else (None, True))[:2 if hasattr(ass, "is_free") else 1], x)
    def check(self, c):
        self.n += 1
        if self.n < 12: self.look(c.assignment)


for n in range(N):
    w.begin(f"state {n}")
    # --- constants, the conflicting state, switches
    want, args, prg = {}, [], ""
    for nm in ("c1", "c2", "c3", "c4"):
        k, v, o = rng.randint(0, 3), str(rng.randint(0, 9)), rng.choice(["x", "f(%d)" % rng.randint(0, 5)])
        if k & 1: prg += f"#const {nm}={v}.\n"; want[nm] = v
        if k & 2: args += ["-c", f"{nm}={o}"]; want[nm] = o
    conflict = rng.random() < .3
    prg += "v(c1,c2,c3,c4). {a;b}.\n" + ("a. :- a.\n" if conflict else "")
    ctl = Control(args + ["0"])
    ctl.add("base", [], prg)
    for nm in ("c1", "c2", "c3", "c4", "c5", "a"):
        c = ctl.get_const(nm)
        expect("const", None if c is None else str(c), want.get(nm), (nm, args, prg))
    expect("conflicting-before", ctl.is_conflicting, False)
    ec = ee = True
    for _ in range(6):
        expect("switch", (ctl.enable_cleanup, ctl.enable_enumeration_assumption), (ec, ee))
        if rng.random() < .5: ec = rng.random() < .5; ctl.enable_cleanup = ec
        else: ee = rng.random() < .5; ctl.enable_enumeration_assumption = ee
    expect("switch", (ctl.enable_cleanup, ctl.enable_enumeration_assumption), (ec, ee))
    ctl.enable_cleanup = ctl.enable_enumeration_assumption = True
    ctl.ground()
    expect("const-ground", [str(a.symbol) for a in ctl.symbolic_atoms.by_signature("v", 4)], ["v(%s)" % ",".join(want.get(x, x) for x in ("c1", "c2", "c3", "c4"))], prg)
    if rng.random() < .3 and not conflict:
        ctl.interrupt()                     # no search is running: the next one is interrupted
        r = ctl.solve()
        expect("interrupt", r.interrupted, True)
    r = ctl.solve()
    expect("conflicting", (r.satisfiable, ctl.is_conflicting, r.interrupted), (not conflict, conflict, False), prg)
    w.case(f"control {args} {prg}", n=20)
    # --- sequences of models and clauses added during the search
    na = rng.randint(2, 5)
    ctl = Control(["0"])
    ctl.add("base", [], "{%s}. fact. t(1..%d)." % (";".join(f"a({i})" for i in range(na)), rng.randint(0, 3)) + (" #show. #show a/1. #show tt(X):t(X)." if rng.random() < .5 else ""))
    ctl.ground()
    atoms = [ctl.symbolic_atoms[Function("a", [Number(i)])].literal for i in range(na)]
    seen, clauses = [], []
    if rng.random() < .3: ctl.register_propagator(Watch())
    with ctl.solve(yield_=True) as h:
        for m in h:
            cur = frozenset(i for i in range(na) if m.is_true(atoms[i]))
            for c in clauses:
                if not any((i in cur) == s for i, s in c): w.viol("clause-ignored", f"{sorted(cur)} does not satisfy {c}")
            if cur in seen: w.viol("model-repeated", str(sorted(cur)))
            seen.append(cur)
            for kw in ({"atoms": True}, {"shown": True}, {"terms": True}, {"atoms": True, "complement": True}):
                s = m.symbols(**kw)
                lst = [x for x in s]
                seqcheck("symbols", s, lst, rounds=2)
                expect("symbols-str", (str(s), repr(s)), ("[%s]" % ", ".join(map(str, lst)), "[%s]" % ", ".join(map(repr, lst))))
            expect("model-str", str(m), " ".join(str(x) for x in m.symbols(shown=True)))
            if rng.random() < .4 and len(clauses) < 4:
                c = [(i, rng.random() < .5) for i in rng.sample(range(na), rng.randint(1, na))]
                nog = rng.random() < .5
                enc = [(lambda s: (atoms[i] if s else -atoms[i]) if rng.random() < .5 else (Function("a", [Number(i)]), s))(s != nog) for i, s in c]
                if rng.random() < .3: enc.append((Function("unknown"), not nog))   # a literal of an atom that does not exist, which changes nothing
                sat = rng.random() < .15
                if sat: enc.insert(rng.randint(0, len(enc)), (Function("unknown"), nog))    # satisfies the clause
                (m.context.add_nogood if nog else m.context.add_clause)(enc)
                if not sat: clauses.append(c)
    for bits in range(1 << na):
        cur = frozenset(i for i in range(na) if bits >> i & 1)
        if all(any((i in cur) == s for i, s in c) for c in clauses) and cur not in seen: w.viol("model-lost", f"{sorted(cur)} satisfies {clauses}")
    w.case(f"clauses {na} {clauses} {len(seen)}", n=len(seen))
    # --- lower bounds: unsatisfiable cores of optimization
    ws = [rng.randint(1, 5) for _ in range(na)]
    ctl = Control(["0", "--opt-strategy=usc", "--opt-mode=opt"])
    ctl.add("base", [], "{%s}. %s" % (";".join(f"a({i})" for i in range(na)), "".join(f"#minimize{{{ws[i]}@1,{i}:a({i})}}. #minimize{{{ws[i]}@2,{i}:not a({i})}}." for i in range(na)) + ":-a(0),a(1)."))
    ctl.ground()
    lows, costs = [], []
    r = ctl.solve(on_unsat=lambda l: lows.append(list(l)), on_model=lambda m: costs.append(list(m.cost)))
    best = min([sum(ws[i] for i in range(na) if not bits >> i & 1), sum(ws[i] for i in range(na) if bits >> i & 1)] for bits in range(1 << na) if bits & 3 != 3)
    expect("optimum", costs[-1], best, ws)
    for l in lows:
        if l[:1] > best[:1] or l > best: w.viol("lower-bound", f"{l} exceeds the optimum {best} for {ws}")
    if not lows: w.viol("no-bounds", f"no lower bounds were reported for {ws}")
    w.count("bounds", len(lows))
    w.case(f"bounds {ws}", n=len(lows) + 1)
w.done()
