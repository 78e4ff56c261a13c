#!/usr/bin/env python3
"""P37: programs grounded directly, through syntax trees, through unpooled trees and through printed trees; statements printed, parsed, copied and unpooled inside the engine."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, eng, nggen, p36

TECHNIQUE = "differential monitor over the tree's engine: answer sets and messages of a program parsed directly, rebuilt from its syntax trees, from unpooled trees and from printed trees; printed statements parsed back to equal trees; counts of unpooled statements against a model (plain and address-sanitized)"
LEVEL_NOTE = "random programs with pools, theory atoms and directives; answer sets by the installed solver"
WAYS = ("addast", "addunpool", "addprint")

MISC = ["#show.", "#show -p/2.", "#show p(X): q(X).", "#defined p/1.", "#defined -p/1.", "#include <incmode>.", "#program base.", "#program step(t,u).", "#program a_b.", "#external p(X): q(X), not r. [free]", "#external p. [X=1]", "#const x = f(1;2).",
        "#const y=(1+2)*3. [override]", "#const z=-1. [default]", "#project p/1.", "#project -p(X): q(X).", "#heuristic a(X): b(X). [X@2,sign]", "#edge (a,b): c(X).", "#edge (a,b;c,d).", ":~ a. [1]", ":~ a, b. [X@Y,Z,1]", "#minimize { X@Y,Z: p(X); 1 }.",
        "#maximize { X,Y: p(X,Y), not q }.", "#script (lua) x = 1 #end.", "a; b; c: d; e: f, not g.", "a : ; b: c.", "{ a; b: c; not d } >= 2.", "1 < { a } < 3.", "X = #sum+ { 1,2: a: b; 3: not c } :- d.", "#count { X: a(X) } != 3 :- b.", "a :- #count { X; Y,Z: b(X), c; : d } > 2.",
        "a :- not not { b; c: d } 1.", "a :- b: c, d; e.", "a :- #false: c; e.", "a :- #true.", "#false.", ":- not #false.", "a :- X=Y=Z, 1<X<=Y!=3.", "a :- not X=1.", "a(@f(1,X);@g()) :- b.", "a(\"x\\n\\\"\\\\\").", "a(#inf,#sup).", "a((),(1,),(1,2),((1,2),)).", "a(-b,--c,- -1,~1,|X|,|1;2|).",
        "-a :- - -b.", "a(1..2;3..X).", "a(X**Y**Z,(X**Y)**Z,-X**2,(-X)**2).", "a(X-Y-Z,X-(Y-Z),X/Y*Z,X/(Y*Z),X\\Y).", "a(X&Y?Z^W,(X?Y)&Z).", "a(_,_X',x').", "#theory t { x { + : 1, unary; + : 2, binary, left; ** : 3, binary, right }; &a/0: x, any; &b/2: x, { <=, = }, x, head; &c/1: x, directive }.",
        "&a { 1+2**X; (a,b),[c],{d}: e, not f; : g }.", "&b(1,X) { -x+-1 } <= f(x)+\"s\".", "a :- &a, not &a { }.", "&c(1) { a } .", "%* comment *% a. % c"]


def pools(r, d):
    """(term, number of terms it stands for)"""
    k = r.random()
    if d == 0 or k < .3: return r.choice(["1", "a", "X", "-2", '"x;y"', "#inf"]), 1
    if k < .5:
        xs = [pools(r, d - 1) for _ in range(r.randint(2, 3))]
        return "(%s)" % ";".join(x for x, _ in xs), sum(n for _, n in xs)
    if k < .7:
        alts = [[pools(r, d - 1) for _ in range(r.randint(0 if r.random() < .2 else 1, 2))] for _ in range(r.choice([1, 1, 2, 3]))]
        n = 0
        for a in alts:
            m = 1
            for _, x in a: m *= x
            n += m
        return "%s(%s)" % (r.choice(["f", "g", "@extid"]), ";".join(",".join(x for x, _ in a) for a in alts)), n
    if k < .85:
        (a, n), (b, m) = pools(r, d - 1), pools(r, d - 1)
        return "(%s%s%s)" % (a, r.choice(["+", "-", "*", "/", "\\", "**", "&", "?", "^", ".."]), b), n * m
    if k < .92:
        a, n = pools(r, d - 1)
        return "%s(%s)" % (r.choice("-~"), a), n
    xs = [pools(r, d - 1) for _ in range(r.randint(1, 2))]
    return "|%s|" % ";".join(x for x, _ in xs), sum(n for _, n in xs)


def pooled(r):
    """A rule with pools in places that multiply, and the number of rules it stands for."""
    n, h, body = 1, "h", []
    if r.random() < .7:
        t, n = pools(r, 3); h = "h(%s)" % t
    for _ in range(r.randint(0 if n > 1 else 1, 2)):
        t, m = pools(r, 2); n *= m
        body.append(r.choice(["b(%s)", "not b(%s)", "b(%s)", "-b(a,%s)", "X=%s", "%s<3"]) % t)
    return h + (" :- " + "; ".join(body) if body else "") + ".", n


def ask(rec, e, cmds, key, src):
    try:
        a = e.ask(cmds)
        if a.all("LEAK"): rec.violation(key + "-leak", "memory is lost on\n" + src[:1500], {"program": src})
        return a
    except EOFError: rec.violation(key + "-crash", "the engine died (%s) on\n%s\n%s" % (e.rc, src[:1500], e.err[-1500:].decode(errors="replace")), {"program": src})
    except TimeoutError: rec.count("timeouts")
    return None


def program(r):
    stms = nggen.program(random.Random(r.random()), size=r.choice([2, 4, 6]))
    if r.random() < .3: stms += ["a :- p(1).", "{a}."] + p36.theory(r)
    stms += p36.nasty(r)
    return [s.replace("2147483648", "2147483647") for s in stms]  # no literal for it: see DESIGN.md


def where(msgs): return sorted(re.sub(r"<\w+>:", "-:", x) for c, x in msgs if c)  # names of texts differ, undefined operations depend on the order of bodies


def norm(msgs): return sorted(re.sub(r"(<\w+>|-):[\d:-]+", "", x) for c, x in msgs if c)


def shard(rec, job):
    idx, san = job
    e = eng.Engine(EXE[san], san=san, timeout=30)
    r = random.Random("%s-37-%s%s" % (vf.SEED, idx, san))
    try:
        for i in range(vf.scale(60 if not san else 8, 2000 if not san else 300)):
            stms = program(r)
            prog = "\n".join(stms) + "\n"
            d = ask(rec, e, eng.prog_cmds("aspif", prog), "add", prog)
            base = None
            for how in WAYS if d is not None else ():
                rep = {"program": prog, "way": how}
                x = ask(rec, e, eng.prog_cmds("aspif", prog, how=how), how, prog)
                if x is None: continue
                if x.failed != d.failed: rec.violation(how + "-status", "%s but directly %s\n%s" % (x[:2], d[:2], prog), rep); continue
                if d.failed: rec.count("rejected"); continue
                rec.case(how + prog, sample=prog[:300])
                rec.count(how)
                if how == "addast" and where(d.msgs()) != where(x.msgs()) and len(d.msgs()) < 19: rec.violation("addast-messages", "%s instead of %s\n%s" % (x.msgs()[:3], d.msgs()[:3], prog), rep)
                if how == "addprint" and norm(d.msgs()) != norm(x.msgs()) and len(d.msgs()) < 19: rec.violation("addprint-messages", "%s instead of %s\n%s" % (x.msgs()[:3], d.msgs()[:3], prog), rep)
                if x.one("OUT") == d.one("OUT"): rec.count("identical"); continue
                try:
                    if base is None: base = eng.clasp(d.one("OUT"))
                    got = eng.clasp(x.one("OUT"))
                except (eng.TooMany, TimeoutError): rec.count("too_many"); continue
                if got != base: rec.violation(how + "-answers", "%d answer sets, directly %d: %s / %s\n%s" % (len(got), len(base), [z for z in got if z not in base][:1], [z for z in base if z not in got][:1], prog), rep)
            # statements on their own
            some = r.sample(stms, min(4, len(stms))) + r.sample(MISC, 4)
            cs = [pooled(r) for _ in range(6)]
            for s, n in [(s, None) for s in some] + cs:
                a = ask(rec, e, [("astprint", s + "\n")], "print", s)
                u = ask(rec, e, [("astunpool", s + "\n")], "unpool", s)
                if a is None or u is None: continue
                rep = {"program": s}
                if a.failed or not a.all("AST"):
                    rec.count("no_trees"); continue
                rec.case("s " + s)
                if a.all("DIFF") and not re.search(r"\w\(\)", s): rec.violation("print-parse", "%s is printed as %s, which is parsed as %s" % (s, a.all("AST")[-1], a.all("DIFF")), rep)
                if a.all("COPY"): rec.violation("copy", "copies of %s differ" % s, rep)
                outs = [x for x in u.all("UNPOOL")[-1].split("\n") if x] if u.all("UNPOOL") else None
                if n is not None and n <= 400:
                    rec.count("unpooled_rules", n)
                    if (len(outs) if outs is not None else 1) != n: rec.violation("unpool-count", "%s stands for %d rules, unpooled to %s" % (s, n, outs and (len(outs), outs[:4])), rep)
                if outs:
                    again = ask(rec, e, [("astunpool", "\n".join(outs[:30]) + "\n")], "unpool", "\n".join(outs[:30]))
                    if again is not None and not again.failed and again.all("UNPOOL"): rec.violation("unpool-rest", "%s is unpooled to %s, which still has pools" % (s, outs[:3]), rep)
                    if again is not None and again.failed: rec.violation("unpool-syntax", "%s is unpooled to %s, which is rejected: %s" % (s, outs[:3], again[:2]), rep)
    finally: e.stop()


EXE = {}


def check(chk):
    for san in ("", "asan"): EXE[san] = vf.build_engine_prog("eng", vf.VERIF + "/drv/eng.cc", san)
    jobs = [(i, "") for i in range(vf.JOBS - 2)] + [(0, "asan"), (1, "asan")]
    vf.shards(chk, lambda rec, i: shard(rec, jobs[i]), len(jobs))


if __name__ == "__main__": vf.main(check, "P37", rule="distinct programs and statements taken through trees")
