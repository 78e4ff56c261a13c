"""Python-specific solving surface: every symbol selection, handle operations, representations, flags."""
import itertools, random
import vf, asp, scen
import clingo
from clingo import Control, Function, Number, SymbolType, ModelType, parse_term

w = vf.Worker()
rng = random.Random(w.batch["seed"])


def fails(f):
    try: f()
    except Exception: return True
    return False


for it in range(w.batch["n"]):
    p = asp.gen(rng, rng.randint(3, 6), rng.randint(3, 8), ("choice", "ext", "show", "terms", "neg2"))
    e = scen.Exp(p)
    text = p.text(rng)
    w.begin(text)
    ctl = Control(["0"])
    ctl.add("base", [], text)
    ctl.ground([("base", [])])
    w.case(text, n=len(e.rows) * 20 + 1, nontrivial=bool(e.rows), sample=text)
    dom = {str(a.symbol): a for a in ctl.symbolic_atoms if a.literal != 0}
    shownable = {s for s in dom if p.shows is None or s in {p.names[i] for i in p.shows}}

    possible = set().union(*e.by_atoms, *[r[3] for r in e.rows]) if e.rows else set()

    def check(m):
        a = {str(s) for s in m.symbols(atoms=True)}
        r = e.by_atoms.get(frozenset(a))
        if r is None:
            w.viol("notanswerset", (sorted(a), text))
            return
        if rng.random() < 0.5: m.extend([Number(42), Function("th", [Number(1)])])
        th = {str(s) for s in m.symbols(theory=True)}
        for at, sh, te, tt, co in itertools.product((False, True), repeat=5):
            got = [str(s) for s in m.symbols(atoms=at, terms=te, shown=sh, theory=tt, complement=co)]
            exp = set()
            if not co:
                if at: exp |= a
                if te: exp |= set(r[3])
                if sh: exp |= set(r[2]) | set(r[3]) | (th if not tt else set()) & set()
                if tt or sh: exp |= th if tt else set()
            else:
                if at: exp |= set(dom) - a
                if sh: exp |= shownable - a
                if te or sh: exp |= {t for t, _ in p.terms} - set(r[3])
            g = set(got)
            if co: g -= th      # what complement means for theory symbols is not specified
            elif sh and not tt: g -= th
            if len(got) != len(set(got)): w.viol("symbols-dup", (got, text))
            if co: g |= {x for x in exp if x not in possible}       # symbols that are never true need not be known
            if g != exp: w.viol("symbols-%d%d%d%d%d" % (at, sh, te, tt, co), (sorted(got), sorted(exp), text))
            w.count("selections")
        for s, sa in dom.items():
            if m.contains(sa.symbol) is not (s in a): w.viol("contains", (s, text))
            if m.is_true(sa.literal) is not (s in a): w.viol("is_true", (s, text))
            if m.is_true(-sa.literal) is not (s not in a): w.viol("is_true-neg", (s, text))
        if m.contains(Function("nope")): w.viol("contains-foreign", text)
        if m.type != ModelType.StableModel or m.optimality_proven or m.cost != []: w.viol("type", text)
        if str(m) != " ".join(map(str, m.symbols(shown=True))): w.viol("str", str(m))
        if not repr(m).startswith("Model("): w.viol("repr", repr(m))
        return frozenset(a)

    got = []
    with ctl.solve(yield_=True) as h:
        for m in h:
            got.append(check(m))
        r = h.get()
    if sorted(map(sorted, got)) != sorted(sorted(x) for x in e.by_atoms): w.viol("enumeration", (got, text))
    if r.satisfiable is not bool(e.rows) or r.unsatisfiable is not (not e.rows) or r.unknown or not r.exhausted or r.interrupted: w.viol("result", (str(r), text))
    if str(r) != ("SAT" if e.rows else "UNSAT"): w.viol("result-str", str(r))
    # model() and resume() give the same models; model() is stable between resumes; after the end it is None
    got = []
    with ctl.solve(yield_=True) as h:
        while True:
            m = h.model()
            m2 = h.model()
            if (m is None) != (m2 is None): w.viol("model-unstable", text)
            if m is None: break
            got.append(frozenset(str(s) for s in m2.symbols(atoms=True)))
            h.resume()
        if h.model() is not None: w.viol("model-after-end", text)
        h.get()
    if sorted(map(sorted, got)) != sorted(sorted(x) for x in e.by_atoms): w.viol("stepping", (got, text))
    # get() before iterating
    with ctl.solve(yield_=True) as h:
        if bool(h.get().satisfiable) is not bool(e.rows): w.viol("early-get", text)
    # leaving the handle early and reusing the control
    for k in (0, 1, 2):
        with ctl.solve(yield_=True) as h:
            for _ in zip(range(k), h): pass
    n = [0]
    def cnt(m): n[0] += 1
    r = ctl.solve(on_model=cnt)
    if n[0] != len(e.rows): w.viol("after-early-stop", (n[0], len(e.rows), text))
    # returning None, True continue; False stops
    for ret, exp in ((None, len(e.rows)), (True, len(e.rows)), (False, min(1, len(e.rows)))):
        n[0] = 0
        def f(m):
            n[0] += 1
            return ret
        fin = []
        r = ctl.solve(on_model=f, on_finish=fin.append)
        if n[0] != exp: w.viol("on-model-return", (ret, n[0], exp, text))
        if len(fin) != 1 or bool(fin[0].satisfiable) is not bool(e.rows) or str(fin[0]) != str(r): w.viol("on-finish", (fin, text))
    # no handlers
    r = ctl.solve()
    if bool(r.satisfiable) is not bool(e.rows): w.viol("plain", text)
w.done()
