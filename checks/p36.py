#!/usr/bin/env python3
"""P36: reified facts are decoded by a reader of their own and compared with the intermediate format of the same ground program."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, eng, facts, nggen

TECHNIQUE = "differential monitor: facts written by the reifier built from the tree (plain and address-sanitized) are decoded by an independent reader and compared statement by statement with the intermediate format; tuples, steps and components against their definitions"
LEVEL_NOTE = "random ground and non-ground programs over a few atoms, one to four steps, all option combinations"

THEORY = """#theory th { lin { - : 3, unary; ** : 2, binary, right; + : 1, binary, left; - : 1, binary, left; .. : 0, binary, left };
 &dom/0: lin, any; &sum/1: lin, {<=,>=,=,!=}, lin, any; &dir/0: lin, directive; &h/1: lin, {=}, lin, head }."""
TERMS = ["1", "-2", "x", "f(1,y)", "(1,2)", "{1,x}", "[1,[2]]", '"s t\\"\\\\"', "1+2*3" if False else "1+2", "- x", "1..3", "a**b**2", "()", "(1,)", "-(-3)", "X", "X-1", "g(X,[X])", "2147483647"]


def theory(r):
    out = [THEORY]
    for _ in range(r.randint(1, 4)):
        v = r.random() < .6
        t = lambda: r.choice([x for x in TERMS if v or "X" not in x])
        el = lambda: "%s%s" % (",".join(t() for _ in range(r.randint(0, 2))) or "1", ": " + r.choice(["p(X)" if v else "p(1)", "d(X)" if v else "d(1)", "not q(1)", "a"]) if r.random() < .7 else "")
        els = ";".join(el() for _ in range(r.randint(0, 3)))
        body = r.choice(["d(X)", "p(X),d(X)"]) if v else r.choice(["p(1)", "a", "not q(2)"])
        k = r.random()
        if k < .3: out.append("&dom{%s} :- %s." % (els, body))
        elif k < .6: out.append("&sum(%s){%s} %s %s :- %s." % (r.choice(["1", "X" if v else "f(2)", "a"]), els, r.choice(["<=", ">=", "=", "!="]), t(), body))
        elif k < .7: out.append("&dir{%s}%s." % (els, " :- " + body if v else ""))
        elif k < .85: out.append("aux(%s) :- %s, &sum(%s){%s} >= %s." % ("X" if v else "1", body, "X" if v else "1", els, t()))
        else: out.append("&h(%s){%s} = %s :- %s." % ("X" if v else "1", els, t(), body))
    return out


NASTY = ['"a b"', '"q\\"uote"', '"back\\\\slash"', '"new\\nline"', '""', '"ends=1"', '"\u00fc\u2264"', '"% {"', "-2147483648", "2147483647", "f(\"x\",-1)", "(1,(2,),())", "#inf", "#sup", "-f(a)", "a'", "_b", "f()" if False else "f(((1,),),2)", '"\\\\"', '"\\n"']


def nasty(r):
    out = []
    for _ in range(r.randint(0, 3)):
        s = r.choice(NASTY)
        out.append(r.choice(["n(%s).", "{n(%s)}.", "#show %s.", "#show %s: p(1).", "n(%s) :- p(X), d(X).", "#external n(%s)."]) % s)
    return out


def rand_aspif(r):
    """Random text in the intermediate format."""
    na = r.randint(2, 9)
    A = lambda: r.randint(1, na)
    L = lambda: r.choice([-1, 1, 1]) * A()
    lits = lambda k=3: (lambda l: " ".join(map(str, [len(l)] + l)))([L() for _ in range(r.randint(0, k))])
    wl = lambda neg: (lambda l: " ".join(map(str, [len(l)] + [y for x in l for y in x])))([(L(), r.randint(-9 if neg else 0, 9)) for _ in range(r.randint(0, 4))])
    steps = r.choice([1, 1, 1, 2, 3, 4])
    out = ["asp 1 0 0" + (" incremental" if steps > 1 or r.random() < .2 else "")]
    tid, eid = 0, 0
    for _ in range(steps):
        if r.random() < .8: tid, eid = 0, 0
        strs, terms, elems = [], [], []
        for _ in range(r.choice([0, 2, 5, 9, 14, 30])):
            k = r.random()
            if k < .4: out.append("1 %d %s 0 %s" % (r.randint(0, 1), (lambda l: " ".join(map(str, [len(l)] + l)))([A() for _ in range(r.randint(0, 3))]), lits()))
            elif k < .52: out.append("1 %d %s 1 %d %s" % (r.randint(0, 1), (lambda l: " ".join(map(str, [len(l)] + l)))([A() for _ in range(r.randint(0, 2))]), r.randint(-3, 12), wl(False)))
            elif k < .57: out.append("2 %d %s" % (r.randint(-3, 3), wl(True)))
            elif k < .6: out.append("3 " + (lambda l: " ".join(map(str, [len(l)] + l)))([A() for _ in range(r.randint(0, 3))]))
            elif k < .7:
                s = r.choice(["a", "p(1)", "f(\"x y\",2)", "-q", "(1,2)", '"str=5"', "x" * r.choice([1, 30, 300]), "f(\"\u00fc\")", "v=1", "long(12)=-345", "g=x1", '"a\\"=1"'])
                out.append("4 %d %s %s" % (len(s.encode()), s, lits()))
            elif k < .76: out.append("5 %d %d" % (A(), r.randint(0, 3)))
            elif k < .8: out.append("6 " + lits())
            elif k < .85: out.append("7 %d %d %d %d %s" % (r.randint(0, 5), A(), r.randint(-9, 9), r.randint(0, 9), lits()))
            elif k < .9: out.append("8 %d %d %s" % (r.randint(0, 5), r.randint(0, 5), lits()))
            elif k < .93 or not strs:
                s = r.choice(["x", "+", "f", "\"q\"", "back\\slash", "a\nb", "", "\u00fc", "<="])
                out.append("9 1 %d %d %s" % (tid, len(s.encode()), s)); strs.append(tid); terms.append(tid); tid += 1
            elif k < .95:
                out.append("9 0 %d %d" % (tid, r.choice([0, 1, -5, 2147483647, -2147483648]))); terms.append(tid); tid += 1
            elif k < .97:
                l = [r.choice(terms) for _ in range(r.randint(0, 3))]
                out.append("9 2 %d %d %s" % (tid, r.choice([-1, -2, -3, r.choice(strs)]), " ".join(map(str, [len(l)] + l)))); terms.append(tid); tid += 1
            elif k < .985:
                l = [r.choice(terms) for _ in range(r.randint(0, 3))]
                out.append("9 4 %d %s %s" % (eid, " ".join(map(str, [len(l)] + l)), lits())); elems.append(eid); eid += 1
            else:
                l = sorted({r.choice(elems) for _ in range(r.randint(0, 3))}) if elems else []
                r.shuffle(l)
                g = r.random() < .5
                out.append("9 %d %d %d %s%s" % (6 if g else 5, r.choice([0, A()]), r.choice(terms), " ".join(map(str, [len(l)] + l)), " %d %d" % (r.choice(strs), r.choice(terms)) if g else ""))
        if r.random() < .1: out.append("10 a comment")
        out.append("0")
    return "\n".join(out) + "\n"


def compare(rec, key, text, aspif, scc, steps, src):
    """The facts against the intermediate format of the same program."""
    rep = {"program": src, "facts": text[:6000], "options": (scc, steps)}
    try:
        inc, got, comps = facts.decode(text, steps)
        want = [facts.statements(s) for s in eng.aspif_steps(aspif)]
    except (facts.Bad, ValueError, KeyError, IndexError) as e:
        rec.violation(key + "-unreadable", "%s: %s\n%s" % (type(e).__name__, e, src[:800]), rep); return
    if inc != aspif.startswith("asp 1 0 0 incremental"): rec.violation(key + "-tag", "incremental tag %s\n%s" % (inc, src[:800]), rep)
    if steps:
        for i in set(range(len(want))) | set(got):
            g, w = got.get(i, facts.Counter()), want[i] if i < len(want) else facts.Counter()
            if g != w: rec.violation(key + "-differs", "step %d: only in the facts %s, only in the program %s\n%s" % (i, list((g - w).items())[:3], list((w - g).items())[:3], src[:800]), rep); break
    else:
        w = facts.Counter()
        for x in want: w += x
        g = got.get(0, facts.Counter())
        if g != w: rec.violation(key + "-differs", "only in the facts %s, only in the program %s\n%s" % (list((g - w).items())[:3], list((w - g).items())[:3], src[:800]), rep)
    if scc:
        if steps: exp = {i: facts.components(w) for i, w in enumerate(want)}
        else:
            # the graph is accumulated over the steps; with one step there is one set of components
            cum, exp = facts.Counter(), {0: set()}
            for w in want:
                cum += w
                exp[0] |= facts.components(cum)
        for i, e in exp.items():
            l = comps.get(i, [])
            g = {frozenset(c) for c in l}
            one = steps or len(want) == 1
            if one and any(len(set(c)) != len(c) for c in l): rec.violation(key + "-component-repeats", "%s\n%s" % (l, src[:800]), rep)
            if one and len(g) != len(l): rec.violation(key + "-component-repeats", "%s\n%s" % (l, src[:800]), rep)
            if (g != e) if one else not e <= {frozenset(x) for x in g} and False: rec.violation(key + "-components", "step %d: %s instead of %s\n%s" % (i, sorted(map(sorted, g)), sorted(map(sorted, e)), src[:800]), rep)
    elif any(comps.values()): rec.violation(key + "-components", "components reported without being asked for\n" + src[:800], rep)
    rec.count("statements", sum(sum(w.values()) for w in want))
    rec.count("components", sum(len(x) for x in comps.values()))
    rec.case("%s %s%s %s" % (key, scc, steps, src), sample=src[:300])


def ask(rec, e, cmds, key, src):
    try: return e.ask(cmds)
    except EOFError: rec.violation(key + "-crash", "the engine died (%s) on\n%s\n%s" % (e.rc, src[:1500], e.err[-1500:].decode(errors="replace")), {"program": src})
    except TimeoutError: rec.count("timeouts")
    return None


def shard(rec, job):
    idx, san = job
    e = eng.Engine(EXE[san], san=san, timeout=30)
    r = random.Random("%s-36-%s%s" % (vf.SEED, idx, san))
    try:
        for i in range(vf.scale(120 if not san else 25, 2500 if not san else 300)):
            scc, steps = r.random() < .5, r.random() < .5
            fl = " ".join(["scc"] * scc + ["steps"] * steps)
            if r.random() < .5:
                src = rand_aspif(r)
                a = ask(rec, e, [("reify " + fl, src)], "reifier", src)
                if a is None: continue
                if a.failed: rec.violation("reifier-rejected", "%s\n%s" % (a[:2], src[:800]), {"program": src}); continue
                compare(rec, "reifier", a.one("OUT"), src, scc, steps, src)
                continue
            stms = nggen.program(random.Random(r.random()), size=r.choice([2, 4, 6]))
            if r.random() < .6: stms += ["a :- p(1).", "{a}."] + theory(r)
            stms += nasty(r)
            inc = r.random() < .4
            src = "\n".join(stms) + "\n"
            if inc:
                more = "\n".join(nggen.Gen(r, domain=3).rule().replace("#", "#") for _ in range(2)) + "\n"
                more = "\n".join(l for l in more.split("\n"))
                tail = [("add two k", "p(k+5). z(k):-not zz(k). {zz(k)}. #show zz/1.\n"), ("ground two/3", None), ("solve", None), ("ground two/4", None), ("solve", None)]
                # the block lengths are added by ask(); parameters are part of the command line
            else: tail = []
            res = []
            for fmt, opt in (("aspif", "inc" if inc else ""), ("reify", (fl + " inc") if inc else fl)):
                cm = [("new %s %s" % (fmt, opt), None), ("add base -", src)] + [t for t in tail if t[0].startswith("add")] + [("ground base", None), ("solve", None)] + [t for t in tail if not t[0].startswith("add")]
                a = ask(rec, e, cm, "grounder", src)
                if a is None: break
                res.append(a)
            if len(res) < 2: continue
            if res[0].failed or res[1].failed:
                if res[0].failed != res[1].failed: rec.violation("grounder-formats", "%s but %s\n%s" % (res[0][:1], res[1][:1], src[:800]), {"program": src})
                rec.count("rejected"); continue
            compare(rec, "grounder", res[1].one("OUT"), res[0].one("OUT"), scc, steps, src)
            if not san and r.random() < .1:
                rc, o, m = eng.gringo(res[1].one("OUT"), "--text")
                canon = lambda t: sorted(set(x for x in t.split("\n") if x))
                if rc: rec.violation("facts-rejected", "the facts are no program: %s\n%s" % (m[:500], src[:800]), {"program": src})
                elif canon(o) != canon(res[1].one("OUT")): rec.violation("facts-changed", "read back as %s" % sorted(set(canon(o)) ^ set(canon(res[1].one("OUT"))))[:4], {"program": src})
                rec.count("read_back")
    finally: e.stop()


EXE = {}


def check(chk):
    for san in ("", "asan"): EXE[san] = vf.build_engine_prog("eng", vf.VERIF + "/drv/eng.cc", san)
    jobs = [(i, "") for i in range(vf.JOBS - 2)] + [(0, "asan"), (1, "asan")]
    vf.shards(chk, lambda rec, i: shard(rec, jobs[i]), len(jobs))


if __name__ == "__main__": vf.main(check, "P36", rule="distinct programs whose facts were decoded and compared")
