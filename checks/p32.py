#!/usr/bin/env python3
"""P32: terms are evaluated, matched and simplified by the engine built from the tree and compared with a reference evaluator."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, eng, arith as A, facts

TECHNIQUE = "runtime monitoring against an independent evaluator: random terms in heads, bodies, comparisons, assignments, aggregates and ground terms evaluated by the tree's engine (plain and under undefined behaviour sanitizer), the atoms derived compared with 32-bit reference arithmetic"
LEVEL_NOTE = "random terms of depth up to 4 with extreme values; matching of linear terms on values whose solutions do not overflow"
EXT = [A.INTMIN, A.INTMIN + 1, A.INTMAX, A.INTMAX - 1, 65536, 46341, -46341, 1 << 30, 31, 32, 33]
SYMS = ['"s"', "#inf", "#sup", ("f", "a", (), True), ("f", "f", (1,), True), ("f", "", (1, 2), True), ("f", "a", (), False)]
SMALL = [0, 1, 2, 3, 4, 5, 7, -1, -2, -3]


def num(r, ext=.2): return r.choice(EXT) if r.random() < ext else r.choice(SMALL)


def expr(r, vs, d, ext=.2, pools=True, odd=.05):
    if d == 0 or r.random() < .2:
        if vs and r.random() < .6: return ("var", r.choice(vs))
        if r.random() < odd: return ("sym", r.choice(SYMS))
        return ("num", num(r, ext))
    k = r.random()
    e = lambda: expr(r, vs, d - 1, ext, pools, odd)
    if k < .45: return ("bin", r.choice("++--**"), e(), e()) if r.random() < .7 else ("bin", "*", ("num", r.choice(SMALL)), e())
    if k < .62:
        op = r.choice(["/", "\\", "**", "&", "?", "^"])
        return ("bin", op, e(), e())
    if k < .7: return ("neg", e())
    if k < .76: return ("not", e())
    if k < .83: return ("abs", e())
    if k < .88 and pools: return ("pool", [e() for _ in range(r.randint(2, 3))])
    if k < .92 and pools:
        a = r.randint(-3, 3)
        return ("dots", ("num", a), ("num", a + r.randint(-1, 3)))
    if k < .96: return ("neg", ("neg", e()))
    return e()


def top(r, vs, d, ext):
    """A term, possibly with functions around."""
    if r.random() < .15: return ("fun", r.choice(["f", "", "g"]), [expr(r, vs, d - 1, ext) for _ in range(r.randint(1, 2))])
    return expr(r, vs, d, ext)


def envs(vals, vs):
    res = [{}]
    for v in vs: res = [dict(e, **{v: x}) for e in res for x in vals[v]]
    return res


def single(t): return not any(has(t, k) for k in ("pool", "dots"))


def has(t, k):
    if t[0] == k: return True
    return any(has(x, k) if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ("num", "sym", "var", "bin", "neg", "not", "abs", "fun", "dots", "pool") else any(has(y, k) for y in x) if isinstance(x, list) else False for x in t[1:])


def rule(r, i):
    """(text of rules, expected set of printed atoms of predicate r<i>)"""
    vs = r.choice([[], ["X"], ["X"], ["X", "Y"]])
    ext = r.choice([0, .1, .5])
    vals = {v: r.sample(SMALL, 3) + ([r.choice(EXT)] if r.random() < ext else []) + ([r.choice(SYMS)] if r.random() < .1 else []) for v in vs}
    fs = "".join("x%d%s(%s). " % (i, v, ";".join(A.text(("num", x)) if isinstance(x, int) else A.show(x) for x in vals[v])) for v in vs)
    body = ["x%d%s(%s)" % (i, v, v) for v in vs]
    t = top(r, vs, r.randint(1, 4), ext)
    while len(A.values(t, {v: vals[v][0] for v in vs})) > 40: t = top(r, vs, 2, ext)
    tt = A.flat(t) if r.random() < .5 else A.text(t)
    mode, h = r.random(), "r%d" % i
    if .5 <= mode < .6:    # matching solves linear terms: no overflows here
        vals = {v: [x for x in xs if x not in EXT] for v, xs in vals.items()}
        fs = "".join("x%d%s(%s). " % (i, v, ";".join(A.text(("num", x)) if isinstance(x, int) else A.show(x) for x in vals[v])) for v in vs)
        t = expr(r, vs, r.randint(1, 3), 0)
        while len(A.values(t, {v: vals[v][0] for v in vs})) > 40: t = expr(r, vs, 2, 0)
        tt, before = A.flat(t), A.overflows[0]
    out = set()
    E = envs(vals, vs)
    before = A.overflows[0]
    J = lambda hd, b: hd + (" :- " + ", ".join(b) if b else "") + ".\n"
    if mode < .3:
        for e in E: out.update("%s(%s)" % (h, A.show(x)) for x in A.values(t, e))
        return fs + J("%s(%s)" % (h, tt), body), out
    if mode < .5:      # assignment
        for e in E: out.update("%s(%s)" % (h, A.show(x)) for x in A.values(t, e))
        if A.overflows[0] != before: return None    # bounds are derived from comparisons over the integers
        b = body + [r.choice(["Z=%s", "%s=Z"]) % tt]
        if r.random() < .5: r.shuffle(b)
        return fs + J("%s(Z)" % h, b), out
    if mode < .6:      # in a body atom
        dom = set()
        for e in E: dom.update(A.values(t, e))
        dom = sorted({x for x in dom if r.random() < .6} | {1}, key=str)
        fs += "".join("y%d(%s). " % (i, A.text(("num", x)) if isinstance(x, int) else A.show(x)) for x in dom)
        for e in E:
            for x in A.values(t, e):
                if x in dom: out.add("%s(%s)" % (h, ",".join(A.show(e[v]) for v in vs) or "0"))
        if A.overflows[0] != before: return None
        return fs + J("%s(%s)" % (h, ",".join(vs) or "0"), body + ["y%d(%s)" % (i, tt)]), out
    if mode < .75:     # comparison of numbers
        u = expr(r, vs, 2, ext, pools=False, odd=0)
        op = r.choice(["<", "<=", ">", ">=", "=", "!="])
        C = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "=": lambda a, b: a == b, "!=": lambda a, b: a != b}[op]
        if not single(t): t = expr(r, vs, 3, ext, pools=False, odd=0); tt = A.flat(t)
        for e in E:
            for x in A.values(t, e):
                for y in A.values(u, e):
                    if isinstance(x, int) and isinstance(y, int):
                        if C(x, y): out.add("%s(%s)" % (h, ",".join(A.show(e[v]) for v in vs) or "0"))
                    elif op in ("=", "!="):
                        if C(x, y): out.add("%s(%s)" % (h, ",".join(A.show(e[v]) for v in vs) or "0"))
                    else: return None
        if A.overflows[0] != before: return None
        return fs + J("%s(%s)" % (h, ",".join(vs) or "0"), body + ["%s%s%s" % (tt, op, A.flat(u))]), out
    if mode < .83 and vs:      # sums
        if not single(t): t = expr(r, vs, 2, 0, pools=False, odd=0); tt = A.flat(t)
        tot, ok = {}, True
        for e in E:
            for x in A.values(t, e):
                if isinstance(x, int): tot[(x,) + tuple(A.show(e[v]) for v in vs)] = x
                else: ok = False
        s = sum(tot.values())
        if not ok or abs(s) > A.INTMAX or any(abs(x) > 100000 for x in tot.values()): return None
        return fs + J("%s(S)" % h, ["S=#sum{%s,%s: %s}" % (tt, ",".join(vs), ",".join(body))]), {"%s(%d)" % (h, s)}
    if mode < .92:     # matching
        a, b = r.choice([1, -1, 2, 3, -2, 5, 0]), r.choice([0, 1, -1, 4, 100])
        dom = sorted(r.sample(range(-9, 10), 6)) + r.choice([[], ["a"], ['"s"'], [A.INTMAX], [A.INTMIN]])
        fs = "y%d(%s). " % (i, ";".join(A.text(("num", x)) if isinstance(x, int) else x for x in dom))
        form = r.choice(["%d*X+%d", "%d*X+%d", "X*%d+%d", "%d*X-(-%d)"]) % (a, b) if b >= 0 else "%d*X%d" % (a, b)
        wrap = r.choice(["%s", "f(%s)", "(%s,3)", "f(%s,X)" if a == 1 else "f(%s)"])
        if a == 0: return None
        for y in dom:
            if not isinstance(y, int) or abs(y) > 1000: continue
            if (y - b) % a == 0: out.add("%s(%d)" % (h, (y - b) // a))
        if wrap == "%s":
            if any(isinstance(y, int) and abs(y) > 1000 for y in dom):
                dom = [y for y in dom if not (isinstance(y, int) and abs(y) > 1000)]
                fs = "y%d(%s). " % (i, ";".join(map(str, dom)))
            return fs + J("%s(X)" % h, ["y%d(%s)" % (i, form)]), out
        nums = [y for y in dom if isinstance(y, int) and abs(y) < 1000]
        if ",X" in wrap:
            out = {"%s(%d)" % (h, x) for x in nums for y in nums if a * x + b == y}
            fs += "z%d(%s). " % (i, ";".join("f(%d,%d)" % (y, x) for x in nums for y in nums))
        else: fs += "z%d(%s). " % (i, ";".join(wrap % y for y in nums))
        return fs + J("%s(X)" % h, ["z%d(%s)" % (i, wrap % form)]), out
    # intervals
    l, u = r.choice([(-2, 3), (0, 0), (3, 1), (A.INTMAX - 2, A.INTMAX), (A.INTMIN, A.INTMIN + 2), (A.INTMAX, A.INTMIN)])
    L, U = A.text(("num", l)), A.text(("num", u))
    out = {"%s(%d)" % (h, x) for x in range(l, u + 1)}
    k = r.random()
    if k < .3: return J("%s(%s..%s)" % (h, L, U), []), out
    if k < .6: return J("%s(X)" % h, ["X=%s..%s" % (L, U)]), out
    if k < .8:
        fs = "y%d(%s,%s). " % (i, L, U)
        return fs + J("%s(X)" % h, ["y%d(A,B)" % i, "X=A..B"]), out
    xs = sorted({l, u, 0, 1, A.INTMAX, A.INTMIN, 5})
    fs = "y%d(%s). " % (i, ";".join(A.text(("num", x)) for x in xs))
    return fs + J("%s(X)" % h, ["y%d(X)" % i, "X=%s..%s" % (L, U)]), {"%s(%d)" % (h, x) for x in xs if l <= x <= u}


def died(rec, e, src):
    first = next((x for x in e.err.decode(errors="replace").split("\n") if "runtime error" in x or "ERROR" in x), "")
    where = re.search(r"([a-z]+\.(?:cc|hh|xch)):\d+", first)
    rec.violation("crash" + ("-" + where.group(1) if where else ""), "the engine died (%s) %s on\n%s" % (e.rc, first, src[:1500]), {"program": src})


def shard(rec, job):
    idx, san = job
    e = eng.Engine(EXE[san], san=san, timeout=30)
    r = random.Random("%s-32-%s%s" % (vf.SEED, idx, san))
    try:
        for i in range(vf.scale(120 if not san else 40, 1500 if not san else 300)):
            # ground terms
            for _ in range(10):
                t = expr(r, [], r.randint(1, 4), r.choice([0, .3]), pools=False, odd=.05)
                if r.random() < .2: t = ("fun", r.choice(["f", ""]), [t, ("num", 1)])
                if has(t, "pool") or has(t, "dots"): continue
                vs = A.values(t, {})
                src = A.flat(t) if r.random() < .6 else A.text(t)
                try: a = e.ask([("term", src)])
                except EOFError: died(rec, e, src); continue
                except TimeoutError: rec.violation("term-hang", src, {"program": src}); continue
                got = a.all("TERM")
                if vs and (len(got) != 1 or got[0] != A.show(vs[0])): rec.violation("term", "%s gives %s instead of %s" % (src, a[:1], A.show(vs[0])), {"program": src})
                if not vs and got and got != ["#special"] and not a.msgs(): rec.violation("term-undefined", "%s gives %s without a message" % (src, a[:1]), {"program": src})
                rec.case("term " + src)
            # rules
            exp, prg = {}, []
            for j in range(25):
                x = rule(r, j)
                if x: prg.append(x[0]); exp["r%d" % j] = (x[1], x[0])
            src = "".join(prg)
            def run(src):
                a = e.ask(eng.prog_cmds("aspif", src))
                if a.failed: return None, a
                got = {}
                for s in eng.aspif_steps(a.one("OUT"))[0].stm:
                    if s[0] == 4: got.setdefault(re.match(r"-?\w*", s[1]).group(0), set()).add(s[1])
                return got, a
            try: got, a = run(src)
            except (EOFError, TimeoutError) as x:
                # find the rules to blame
                found = False
                for p in prg:
                    try: run(p)
                    except EOFError: died(rec, e, p); found = True
                    except TimeoutError: rec.violation("hang", "grounding does not end: " + p, {"program": p}); found = True
                if not found: rec.count("not_reproduced")
                continue
            if got is None: rec.violation("rejected", "%s\n%s" % (a[:2], src[:1500]), {"program": src}); continue
            for n, (want, text) in exp.items():
                g = got.get(n, set())
                rec.case(text, sample=text)
                if g != want: rec.violation("rule", "%sderives too much: %s, too little: %s" % (text, sorted(g - want)[:4], sorted(want - g)[:4]), {"program": text})
            rec.count("atoms", sum(len(w) for w, _ in exp.values()))
    finally: e.stop()


EXE = {}


def check(chk):
    for san in ("", "asan"): EXE[san] = vf.build_engine_prog("eng", vf.VERIF + "/drv/eng.cc", san)
    jobs = [(i, "") for i in range(vf.JOBS - 2)] + [(0, "asan"), (1, "asan")]
    vf.shards(chk, lambda rec, i: shard(rec, jobs[i]), len(jobs))


if __name__ == "__main__": vf.main(check, "P32", rule="distinct terms and rules whose results were compared")
