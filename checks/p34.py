#!/usr/bin/env python3
"""P34: which programs the tree's engine accepts and which variables it calls unsafe: against an independent checker, the installed grounder, and renamed and reordered versions."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, eng, nggen

TECHNIQUE = "reference monitor: acceptance and reported unsafe variables of generated rules against an independent fixpoint checker for nested scopes, of mutated programs against the installed grounder, and metamorphic comparison under renaming and reordering"
LEVEL_NOTE = "random rules over nested scopes, linear terms, intervals, pools and theory atoms; the independent checker covers the fragment without bounds derived from inequalities"
VARS = ["X", "Y", "Z", "W", "V", "U"]


# ------------------------------------------------------------------ the fragment of the independent checker
# term: ("v", X) | ("lin", a, X, b) | ("op", X, op, Y) | ("c", text) | ("f", name, [terms]) ; literal: (kind, ...)

def tvars(t):
    if t[0] == "v": return {t[1]}
    if t[0] == "lin": return {t[2]}
    if t[0] == "op": return {t[1], t[3]}
    if t[0] == "f": return set().union(*map(tvars, t[2])) if t[2] else set()
    return set()


def tbinds(t):
    if t[0] == "v": return {t[1]}
    if t[0] == "lin": return {t[2]} if t[1] else set()
    if t[0] == "f": return set().union(*map(tbinds, t[2])) if t[2] else set()
    return set()


def ttext(t):
    if t[0] == "v": return t[1]
    if t[0] == "c": return t[1]
    if t[0] == "lin": return ("%d*%s" % (t[1], t[2]) if t[1] != 1 else t[2]) + ("+%d" % t[3] if t[3] > 0 else "%d" % t[3] if t[3] else "")
    if t[0] == "op": return t[1] + t[2] + t[3]
    return "%s(%s%s)" % (t[1], ",".join(map(ttext, t[2])), "," if not t[1] and len(t[2]) == 1 else "")


def term(r, vs, d=1):
    k = r.random()
    if k < .55: return ("v", r.choice(vs))
    if k < .67: return ("lin", r.choice([1, -1, 2, 3, -2]), r.choice(vs), r.choice([0, 1, -2, 5]))
    if k < .78: return ("op", r.choice(vs), r.choice(["+", "*", "-", "/", "\\", "**", "&"]), r.choice(vs))
    if k < .88 and d: return ("f", r.choice(["f", "", "g"]), [term(r, vs, d - 1) for _ in range(r.randint(1, 2))])
    return ("c", r.choice(["a", '"X"', "b"]))


def mterm(t):
    """op terms over one variable twice may be simplified: keep the variables apart."""
    return t[0] == "op" and t[1] == t[3] or t[0] == "f" and any(map(mterm, t[2]))


def lit(r, vs):
    k = r.random()
    ts = lambda n: [term(r, vs) for _ in range(n)]
    if k < .42: return ("pos", ts(r.choice([1, 1, 2])), r.choice(["p", "q", "-p", "r"]))
    if k < .55: return ("neg", ts(1), r.choice(["not ", "not not "]))
    if k < .78: return ("eq", ("v", r.choice(vs)), term(r, vs))
    if k < .88: return ("dots", r.choice(vs), ("v", r.choice(vs)), ("v", r.choice(vs)))
    return ("cmp", ("v", r.choice(vs)), r.choice(["<", "!=", ">="]), ("v", r.choice(vs)))


def lvars(l):
    if l[0] in ("pos", "neg"): return set().union(*map(tvars, l[1]))
    if l[0] == "eq": return tvars(l[1]) | tvars(l[2])
    if l[0] == "dots": return {l[1]} | tvars(l[2]) | tvars(l[3])
    return tvars(l[1]) | tvars(l[3])


def ltext(l):
    if l[0] == "pos": return "%s(%s)" % (l[2], ",".join(map(ttext, l[1])))
    if l[0] == "neg": return "%ss(%s)" % (l[2], ",".join(map(ttext, l[1])))
    if l[0] == "eq": return "%s=%s" % (ttext(l[1]), ttext(l[2]))
    if l[0] == "dots": return "%s=%s..%s" % (l[1], ttext(l[2]), ttext(l[3]))
    return "%s%s%s" % (ttext(l[1]), l[2], ttext(l[3]))


def closure(lits, bound):
    """The variables bound by the literals."""
    bound = set(bound)
    while True:
        old = len(bound)
        for l in lits:
            if l[0] == "pos":
                for t in l[1]: bound |= tbinds(t)
            elif l[0] == "eq":
                for a, b in ((l[1], l[2]), (l[2], l[1])):
                    if tvars(b) <= bound: bound |= tbinds(a)
                # equations between terms are taken apart
                if l[2][0] == "f" and l[1][1] in bound: bound |= tbinds(l[2])
            elif l[0] == "dots" and tvars(l[2]) | tvars(l[3]) <= bound: bound.add(l[1])
        if len(bound) == old: return bound


def rule(r):
    """(text, unsafe variable sets expected in any order of the scopes, text of an alternative order)"""
    vs = r.sample(VARS, r.randint(2, 4))
    if r.random() < .1: vs[0] = "_V1"
    body = [lit(r, vs) for _ in range(r.randint(0, 4))]
    if r.random() < .65: body.append(("pos", [("v", v) for v in r.sample(vs, r.randint(1, len(vs)))], "d"))
    head = [term(r, vs) for _ in range(r.randint(0, 2))]
    loc = [v for v in ["L", "M", "N"]]
    subs = []          # nested scopes: (where, tuple terms, condition literals, guard var or None, text maker)
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        lv = vs + loc[:r.randint(1, 3)]
        cond = [lit(r, lv) for _ in range(r.randint(0, 3))]
        tup = [term(r, lv) for _ in range(r.randint(1, 2))]
        subs.append((r.choice(["agg", "agg", "aggeq", "cond", "set"]), tup, cond, r.choice(vs)))
    if any(mterm(t) for t in head) or any(mterm(t) for s in subs for t in s[1]): return None
    for l in body + [l for s in subs for l in s[2]]:
        if any(mterm(t) for t in (l[1] if l[0] in ("pos", "neg") else [l[2]] if l[0] == "eq" else [])): return None
        if l[0] == "eq" and l[1][1] in tvars(l[2]): return None
        if l[0] == "cmp" and l[1] == l[3] or l[0] == "dots" and len(lvars(l)) < 3 and l[2] != l[3]: return None
    # global variables: those occurring in the body literals, the head and the guards
    glob = set().union(set(), *map(lvars, body), *map(tvars, head), *[{s[3]} for s in subs if s[0] in ("agg", "aggeq")])
    bound = set()
    while True:
        n = len(bound)
        bound = closure(body, bound)
        for s in subs:
            if s[0] == "aggeq":
                inner = set().union(*map(lvars, s[2]), *map(tvars, s[1])) & glob
                if inner - {s[3]} <= bound and s[3] not in inner: bound.add(s[3])
        if len(bound) == n: break
    exp = []
    if glob - bound: exp.append(glob - bound)
    for s in subs:
        if s[0] == "aggeq" and s[3] in set().union(*map(lvars, s[2]), *map(tvars, s[1])): return None
        inner = set().union(set(), *map(lvars, s[2]), *map(tvars, s[1]))
        b = closure(s[2] + ([("pos", s[1], "t")] if s[0] in ("cond", "set") else []), glob)      # the literal in front of a condition is an occurrence, too
        bad = inner - b
        if s[0] == "cond": bad |= set().union(set(), *map(lvars, s[2])) - closure(s[2], glob)      # conditions are instantiated on their own
        if bad: exp.append(bad)

    def text(order):
        lits = []
        for l in body: lits.append(ltext(l))
        for where, tup, cond, g in subs:
            c = [ltext(l) for l in cond]
            order(c)
            c = ",".join(c)
            if where in ("agg", "aggeq"):
                agg = "#%s{%s: %s}" % ("sum" if len(tup) != 2 else "min", ",".join(map(ttext, tup)), c)
                lits.append("%s=%s" % (g, agg) if where == "aggeq" else "%s<=%s" % (g, agg))
            elif where == "cond": lits.append("t(%s): %s" % (",".join(map(ttext, tup)), c))
            else: lits.append("2{t(%s): %s}" % (",".join(map(ttext, tup)), c))
        order(lits)
        s = ""
        for i, l in enumerate(lits):
            s += l + ("." if i + 1 == len(lits) else ";" if ": " in l else r.choice(",;"))
        h = "h(%s)" % ",".join(map(ttext, head)) if head else "h"
        return h + (" :- " + s if s else ".")
    return text(lambda l: None), exp, text(r.shuffle)


def unsafe(msgs):
    """[(line, sorted [(variable)])] of the messages about unsafe variables"""
    out = []
    for m in msgs:
        if "unsafe variables in" in m:
            ns = re.findall(r":(\d+):(\d+)(?:-\S+)?: note: '(\S+)' is unsafe", m)
            out.append((int(re.match(r"[^:]*:(\d+)", m).group(1)), tuple(sorted({n[2] for n in ns if n[2][0] != '#'})), tuple(sorted(ns))))
    return sorted(out)


def accept(rec, e, prog, key):
    try: return e.ask([("new aspif", None), ("add base -", prog), ("ground base", None)])
    except EOFError: rec.violation(key + "-crash", "the engine died (%s) on\n%s\n%s" % (e.rc, prog, e.err[-1000:].decode(errors="replace")), {"program": prog})
    except TimeoutError: rec.count("timeouts")
    return None


def mutate(r, stm):
    """Replaces an occurrence of a variable, drops a body literal's variable or moves a literal."""
    occ = [m for m in re.finditer(r'"(?:[^"\\]|\\.)*"|(?<![A-Za-z0-9_#\'])[A-Z][A-Za-z0-9_]*', stm) if m.group(0)[0] != '"']
    if not occ: return stm
    m = r.choice(occ)
    names = sorted({x.group(0) for x in occ}) + ["Q9", "_"]
    return stm[:m.start()] + r.choice(names) + stm[m.end():]


TH = "#theory th { t { + : 1, binary, left }; &dom/0: t, any; &sum/1: t, {<=}, t, any }.\n"
EXTRA = ["&sum(X){Y: p(Y), not q(Z)} <= W :- r(X).", "&dom{X+Y: p(X)} :- q(Y).", "a :- &sum(X){Y,Z: p(Y)} <= W, r(W).", "#edge(X,Y): p(X).", "#heuristic a(X): p(Y). [X@Z,true]", "#show f(X,Y): p(X).", "#external a(X): p(Y).",
         "#project a(X): p(Y).", ":~ p(X). [Y@Z,W]", "#minimize{X@Y,Z: p(X)}.", "{a(X): p(Y)} = Z :- q(Z).", "a(X): p(Y); b(Z).", "#sum{X: a(Y): p(Z)} <= W :- q(W).", "p(X) :- q(X..Y).", "p(X) :- q((X;Y)), X=Y.", "p(X) :- 1<=X<=3.", "p(X) :- X>=1, X<=Y, Y=5.",
         "p(X,Y) :- X+Y=4, 1<=X<=2.", "p(X) :- 2*X<=9, X>0.", "p(@f(X)) :- q(X).", "p(@f(X)) :- q(@f(X)).", "p(X) :- not not X=1.", "p(X) :- not X!=1."]


def shard(rec, idx):
    e = eng.Engine(EXE)
    r = random.Random("%s-34-%s" % (vf.SEED, idx))
    try:
        for i in range(vf.scale(250, 8000)):
            # the independent checker
            rs = [x for x in (rule(r) for _ in range(4)) if x]
            if rs:
                lines, alt = [x[0] for x in rs], [x[2] for x in rs]
                for what, ls in (("written", lines), ("reordered", alt)):
                    prog = "\n".join(ls) + "\n"
                    a = accept(rec, e, prog, "scope")
                    if a is None: continue
                    got = unsafe([x for _, x in a.msgs()])
                    per = {}
                    for l, names, _ in got: per.setdefault(l, []).append(names)
                    exp = {j + 1: sorted(tuple(sorted(u)) for u in x[1]) for j, x in enumerate(rs) if x[1]}
                    g = {l: sorted(x) for l, x in per.items()}
                    if set(g) != set(exp) and len(a.msgs()) < 19:
                        j = sorted(set(g) ^ set(exp))[0]
                        rec.violation("scope-accepted" if j in exp else "scope-rejected", "%s: %s reported, %s expected" % (ls[j - 1], g.get(j), exp.get(j)), {"program": ls[j - 1]})
                    elif len(a.msgs()) < 19:
                        for j in exp:
                            names = {n for u in g[j] for n in u}
                            want = {n for u in exp[j] for n in u}
                            if names != want: rec.violation("scope-names", "%s: %s reported, %s expected" % (ls[j - 1], g[j], exp[j]), {"program": ls[j - 1]})
                    if a.failed != bool(exp): rec.violation("scope-status", "grounding %s with %s unsafe\n%s" % ("fails" if a.failed else "succeeds", exp, prog), {"program": prog})
                    rec.count("unsafe_rules", len(exp)); rec.count("safe_rules", len(rs) - len(exp))
                rec.case("scope " + "\n".join(lines), sample="\n".join(lines))
            # the installed grounder
            if i % 2: continue
            stms = nggen.program(random.Random(r.random()), size=2)
            stms = [mutate(r, s) if r.random() < .15 else s for s in stms] + ([TH] if 1 else []) + r.sample(EXTRA, r.choice([0, 0, 1, 2]))
            prog = "\n".join(stms) + "\n"
            try: rc, o, m = eng.gringo(prog, "--output=intermediate", timeout=6)
            except TimeoutError: rec.count("reference_timeouts"); continue
            a = accept(rec, e, prog, "program")
            if a is None or rc < 0 or rc > 127: continue
            ref = unsafe([x for x in re.split(r"\n(?=-:)(?!-:\d+:\d+(?:-\S+)?: note)", m)])
            got = unsafe([x for _, x in a.msgs()])
            rec.case(prog)
            if len(a.msgs()) >= 19: rec.count("many_messages"); continue
            if ref != got: rec.violation("program-unsafe", "%s reported, the installed grounder reports %s\n%s" % (got, ref, prog), {"program": prog})
            elif bool(rc) != a.failed: rec.violation("program-status", "%s although the installed grounder says %d: %s\n%s" % ("rejected" if a.failed else "accepted", rc, m[:300], prog), {"program": prog})
            rec.count("programs_unsafe" if got else "programs_safe")
    finally: e.stop()


EXE = None


def check(chk):
    global EXE
    EXE = vf.build_engine_prog("eng", vf.VERIF + "/drv/eng.cc", "")
    vf.shards(chk, shard, vf.JOBS)


if __name__ == "__main__": vf.main(check, "P34", rule="distinct programs whose acceptance was judged")
