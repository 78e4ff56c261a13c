#!/usr/bin/env python3
"""P13: theory atoms of generated programs and theory definitions, compared with what the program states.

The generator builds every theory term as an expression (a flat sequence of operators and operands), keeps its own priority parser, and
evaluates conditions itself; the drivers list the atoms and report truth values in total assignments."""
import collections, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, scen, drivers as D

KINDS = ("py", "cc", "lua")
OPS = ["+", "-", "*", "**", "/", "<", ">", "?", "~", "!", "&", "<=", "=>", "<>", "^", "\\", "&&", "@", "->", "<?>", "not"]


class Th:
    """A theory definition: term definitions and atom definitions."""
    def __init__(self, rng):
        self.terms = {}
        for t in rng.sample(["term", "lin", "foo"], rng.randint(1, 3)):
            ops = {}
            for o in rng.sample(OPS[:-1], rng.randint(0, 6)):
                if rng.random() < 0.8: ops[o, 2] = (rng.choice([0, 1, 1, 2, 3, 5]), rng.choice(["left", "right"]))
                if rng.random() < 0.4 or (o, 2) not in ops: ops[o, 1] = (rng.choice([0, 1, 2, 3, 4]), "unary")
            self.terms[t] = ops
        self.atoms = []
        for i in range(rng.randint(1, 3)):
            g = (rng.sample(["<=", ">=", "=", "!=", "<", "->"], rng.randint(1, 3)), rng.choice(list(self.terms))) if rng.random() < 0.6 else None
            self.atoms.append((rng.choice(["diff", "sum", "t", "_show"]) + str(i), rng.choice([0, 0, 1, 2]), rng.choice(list(self.terms)), g, rng.choice(["any", "any", "head", "body", "directive"])))

    def text(self):
        ds = ["  %s { %s }" % (t, "; ".join("%s : %d, %s" % (o, pr, "unary" if n == 1 else "binary, " + a) for (o, n), (pr, a) in ops.items())) for t, ops in self.terms.items()]
        ds += ["  &%s/%d : %s, %s%s" % (n, ar, t, "{%s}, %s, " % (",".join(g[0]), g[1]) if g else "", ty) for n, ar, t, g, ty in self.atoms]
        return "#theory th {\n" + ";\n".join(ds) + "\n}.\n"


# terms are ("n",3) ("y",name) ("f",name,args) ("t"|"l"|"s", args) ("v",var) ("e",[(ops,operand),..]) before structuring

def gen(rng, ops, d, vars):
    un = [o for o, n in ops if n == 1]
    bi = [o for o, n in ops if n == 2]
    n = rng.choice([1, 1, 2, 3, 4, 6]) if bi and d > 0 else 1
    seq = []
    for i in range(n):
        os_ = ([] if i == 0 else [rng.choice(bi)]) + [rng.choice(un) for _ in range(rng.choice([0, 0, 1, 2]) if un else 0)]
        seq.append((os_, leaf(rng, ops, d - 1, vars)))
    return ("e", seq)


def leaf(rng, ops, d, vars):
    k = rng.random()
    if d <= 0 or k < 0.55:
        k = rng.random()
        if vars and k < 0.3: return ("v", rng.choice(vars))
        if k < 0.6: return ("n", rng.choice([0, 1, 2, 3, 17, 2147483647]))
        if k < 0.9: return ("y", rng.choice(["a", "b", "x_1", "f", "c'"]))
        return ("y", rng.choice(['"x y"', '"a\\"b\\\\"', '""', "#inf", "#sup"]))
    args = lambda lo: [gen(rng, ops, d, vars) for _ in range(rng.randint(lo, 3))]
    if k < 0.75: return ("f", rng.choice(["f", "g", "x_1"]), args(0))
    if k < 0.82:
        a = args(0)
        return ("t", a)
    if k < 0.9: return ("l", args(0))
    if k < 0.96: return ("s", args(0))
    return ("p", gen(rng, ops, d, vars))      # parentheses


def text(t):
    if t[0] == "n": return str(t[1])
    if t[0] in "yv": return t[1]
    if t[0] == "f": return t[1] + "(" + ",".join(map(text, t[2])) + ")"
    if t[0] == "t": return "(" + ",".join(map(text, t[1])) + ("," if len(t[1]) == 1 else "") + ")"
    if t[0] == "l": return "[" + ",".join(map(text, t[1])) + "]"
    if t[0] == "s": return "{" + ",".join(map(text, t[1])) + "}"
    if t[0] == "p": return "(" + text(t[1]) + ")"
    return " ".join(" ".join(o + [text(x)]) for o, x in t[1])


def struct(t, ops, env):
    """The term the definition makes of an expression; None if an operator is undefined."""
    if t[0] in "ny": return t
    if t[0] == "v": return env[t[1]]
    if t[0] == "f":
        a = [struct(x, ops, env) for x in t[2]]
        return None if None in a else ("f", t[1], tuple(a))
    if t[0] in "tls":
        a = [struct(x, ops, env) for x in t[1]]
        return None if None in a else (t[0], tuple(a))
    if t[0] == "p": return struct(t[1], ops, env)
    stack, out = [], []

    def reduce():
        o, n = stack.pop()
        b = out.pop()
        out.append(("f", o, (b,)) if n == 1 else ("f", o, (out.pop(), b)))
    for i, (os_, x) in enumerate(t[1]):
        for j, o in enumerate(os_):
            n = 2 if i and j == 0 else 1
            if (o, n) not in ops: return None
            if n == 2:
                pr, assoc = ops[o, 2]
                while stack and (ops[stack[-1]][0] > pr or ops[stack[-1]][0] == pr and assoc == "left"): reduce()
            stack.append((o, n))
        x = struct(x, ops, env)
        if x is None: return None
        out.append(x)
    while stack: reduce()
    return out[0]


def log(t):
    """As the drivers log it."""
    if t[0] == "n": return "n%d" % t[1]
    if t[0] == "y": return "y" + D.enc(t[1])
    if t[0] == "f": return "f%s(%s)" % (D.enc(t[1]), " ".join(map(log, t[2])))
    return t[0] + "(" + " ".join(map(log, t[1])) + ")"


def isop(n): return any(c in "/!<=>+-*\\?&@|:;~^." for c in n[:1]) or n == "not"


def show(t, ops=None):
    if t[0] == "n": return str(t[1])
    if t[0] == "y": return t[1]
    if t[0] == "f":
        if isop(t[1]) and len(t[2]) == 1: return "(%s%s)" % (t[1], show(t[2][0]))
        if isop(t[1]) and len(t[2]) == 2: return "(%s%s%s)" % (show(t[2][0]), t[1], show(t[2][1]))
        return t[1] + "(" + ",".join(map(show, t[2])) + ")"
    if t[0] == "t": return "(" + ",".join(map(show, t[1])) + ("," if len(t[1]) == 1 else "") + ")"
    return ("[%s]" if t[0] == "l" else "{%s}") % ",".join(map(show, t[1]))


class Case: pass


def build(rng, wrong=False):
    c = Case()
    th = Th(rng)
    c.np = rng.randint(2, 4)
    c.facts = [i for i in range(1, c.np + 1) if rng.random() < 0.3]
    lines = ["{ p(1..%d) }." % c.np, "q(1..%d)." % c.np] + ["p(%d)." % i for i in c.facts]
    c.expect = []        # (kind, id, name term, [(terms, frozenset cond)], guard, body condition | None)
    c.wrong = None
    for k in range(rng.randint(1, 4)):
        n, ar, tn, g, ty = rng.choice(th.atoms)
        ops = th.terms[tn]
        args = [rng.choice([("n", rng.randint(0, 9)), ("y", rng.choice("ab")), ("f", "f", (("n", 1),))]) for _ in range(ar)]
        name = ("f", n, tuple(args)) if ar else ("y", n)
        elems, etexts = [], []
        for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
            nv = rng.choice([0, 0, 1, 1, 2])
            vs = ["X", "Y"][:nv]
            tup = [gen(rng, ops, 2, vs) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            if rng.random() < 0.8: tup += [("v", v) for v in vs]      # (the installed engine loses some of the elements with equal tuples)
            cond = []
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                a = rng.choice(vs) if vs and rng.random() < 0.7 else str(rng.randint(1, c.np + (rng.random() < 0.1)))
                cond.append((rng.random() < 0.3, "p" if rng.random() < 0.8 else "q", a))
            dom = [(False, "q", v) for v in vs]
            lits = dom + cond
            rng.shuffle(lits)
            etexts.append(", ".join(map(text, tup)) + (" : " if lits or rng.random() < 0.2 else "") + ", ".join(("not " if s else "") + "%s(%s)" % (q, a) for s, q, a in lits))
            for x in range(1, c.np + 1) if nv > 0 else [None]:
                for y in range(1, c.np + 1) if nv > 1 else [None]:
                    env = {"X": ("n", x), "Y": ("n", y)}
                    cs, dead = set(), False
                    for s, q, a in cond:
                        v = env[a][1] if a in env else int(a)
                        exists = 1 <= v <= c.np
                        fact = exists and (q == "q" or v in c.facts)
                        if s:
                            if fact: dead = True
                            elif exists: cs.add(("not", v))
                        else:
                            if not exists: dead = True
                            elif not fact: cs.add(("", v))
                    ts = tuple(struct(t, ops, env) for t in tup)
                    if None in ts and not c.wrong: c.wrong = "operator"
                    if not dead and (ts, frozenset(cs)) not in elems: elems.append((ts, frozenset(cs)))
        guard, gtext = None, ""
        if g and rng.random() < 0.8:
            go = rng.choice(g[0])
            gt = gen(rng, th.terms[g[1]], 2, [])
            gtext = " %s %s" % (go, text(gt))
            guard = (go, struct(gt, th.terms[g[1]], {}))
        atext = "&%s%s { %s }%s" % (n, "(%s)" % ",".join(show(a) for a in args) if ar else "", "; ".join(etexts), gtext)
        body = [(rng.random() < 0.3, rng.randint(1, c.np)) for _ in range(rng.choice([0, 1, 2]))]
        body = [(s, v) for i, (s, v) in enumerate(body) if not any(v == w and s != t for t, w in body[:i])]
        btext = ["%sp(%d)" % ("not " if s else "", v) for s, v in body]
        dead = any(s and v in c.facts for s, v in body)
        body = [(s, v) for s, v in body if not (not s and v in c.facts)]
        where = {"any": rng.choice(["head", "body", "body"]), "head": "head", "body": "body", "directive": "directive"}[ty]
        sign = ""
        if where == "body":
            sign = rng.choice(["", "", "not ", "not not "])
            lits = btext + [sign + atext]
            rng.shuffle(lits)
            lines.append("h%d :- %s." % (k, "; ".join(lits)))
        elif where == "head": lines.append("%s :- %s." % (atext, ", ".join(btext)) if btext else atext + ".")
        else:
            lines.append(atext + ".")
            body, dead = [], False
        # instances with contradictory bodies are still grounded
        if not dead: c.expect.append((where, k, name, elems, guard, body, sign))
    if wrong:
        n, ar, tn, g, ty = rng.choice(th.atoms)
        ops = th.terms[tn]
        nm = lambda n, ar: "&%s%s" % (n, "(%s)" % ",".join("1" * ar) if ar else "")
        undefined = [o for o in OPS[:-1] if (o, 2) not in ops]
        undefu = [o for o in OPS[:-1] if (o, 1) not in ops]
        k = rng.choice(["op", "unop", "atom", "arity", "place", "guard", "noguard", "termop"])
        el = "1"
        gt = ""
        if k == "op": el = "1 %s 2" % rng.choice(undefined)
        elif k == "unop": el = "%s 2" % rng.choice(undefu)
        elif k == "termop": el = "f(1,[%s a])" % rng.choice(undefu)
        elif k == "atom": n = "undefined"
        elif k == "arity": ar += 3
        elif k == "guard":
            if not g: gt = " <= 1"
            else: gt = " %s 1" % rng.choice([o for o in ["<=", ">=", "=", "!=", "<", "->", ">"] if o not in g[0]])
        at = nm(n, ar) + " { %s }%s" % (el, gt)
        if k == "place":
            if ty == "head": ln = "hh :- %s." % at
            elif ty == "body": ln = "%s :- p(1)." % at
            elif ty == "directive": ln = rng.choice(["hh :- %s.", "%s :- p(1)."]) % at
            else: return build(rng, wrong)
        elif k == "noguard": return build(rng, wrong)
        else: ln = ("%s." if ty in ("head", "directive", "any") else "hh :- %s.") % at
        lines.append(ln)
        c.wrong = k
    c.order = lines
    if rng.random() < 0.3: rng.shuffle(lines)
    c.text = th.text() + "\n".join(lines) + "\n"
    c.ops = [D.op("new", "0", "0"), D.op("add", "base", "", D.enc(c.text)), D.op("ground", "base"), "tatoms", "satoms", "tprop", "solve\tcb\t\t6", "tatoms"]
    return c


def judge(rec, kind, c, r):
    replay = {"driver": kind, "ops": c.ops, "program": c.text}
    def bad(k, m): rec.violation(f"{kind}-{k}", f"{kind}: {m}\nprogram:\n{c.text}", replay)
    if isinstance(r, D.Crash): return bad("crash", r.what)
    err = [l for ls in r[1:3] for l in ls if l.startswith("ERR")]
    for i, ls in enumerate(r):
        for l in scen.bad_lines(ls): bad(l, f"{l} in {c.ops[i]!r}")
    if c.wrong:
        if not err: bad("accepted-" + c.wrong, "the program was accepted")
        elif not any(l.startswith("log RuntimeError") for ls in r[1:3] for l in ls): bad("silent-" + c.wrong, "rejected without a message")
        rec.count("rejected_" + c.wrong)
        return
    if err: return bad("rejected", f"{r[1:3]}")
    sa = scen.satoms(r[4])
    if not isinstance(sa, dict): return bad("satoms", sa)
    name = {v[0]: k for k, v in sa.items() if not v[1]}

    def cond(ls):
        res = set()
        for l in ls:
            a = name.get(abs(l))
            if a is None or not a.startswith("p("): return f"literal {l} of no atom"
            res.add(("not" if l < 0 else "", int(a[2:-1])))
        return frozenset(res)
    exp = collections.OrderedDict()
    for where, k, nm, elems, guard, body, sign in c.expect:
        key = (log(nm), frozenset((",".join(map(log, ts)), cs) for ts, cs in elems), None if guard is None else (guard[0], log(guard[1])), where == "directive")
        exp.setdefault(key, []).append((where, k, body, sign))
    got = {}
    idx = []
    for l in r[3]:
        if not l.startswith("tatom "): continue
        t, es, g, lit, st = l[6:].split(" | ")
        els, estr, conds = set(), [], []
        for e in es.split("/") if es != "-" else []:
            ts, n, cs, s = e.rsplit(":", 3)
            ls = [] if cs == "-" else [int(x) for x in cs.split(",")]
            if int(n) != len(ls): bad("condlen", e)
            cd = cond(ls)
            if isinstance(cd, str): return bad("condition", f"{e}: {cd}")
            els.add((ts, cd))
            s = D.dec(s)
            estr.append(s)
            conds.append(cd)
            cset = sorted(("not " if x[0] else "") + "p(%d)" % x[1] for x in cd)
            exps = {", ".join([])}
            for where, k, nm, elems, guard, body, sign in c.expect:
                for ts2, cs2 in elems:
                    if ",".join(map(log, ts2)) == ts and cs2 == cd:
                        pre = ",".join(map(show, ts2))
                        break
                else: continue
                break
            else: pre = None
            if pre is not None and not (s == pre and not cd or s.startswith(pre + ": ") and sorted(set(s[len(pre) + 2:].split(","))) == cset): bad("elementstr", f"element prints as {s!r}, its terms as {pre!r}, its condition as {cset}")
        key = (t, frozenset(els), None if g == "-" else (D.dec(g.split(" ", 1)[0]), g.split(" ", 1)[1]), lit == "0")
        if key in got: bad("duplicate", l)
        got[key] = int(lit)
        idx.append((key, conds))
        ex = exp.get(key)
        if ex is None: bad("unexpected", f"reported but not stated: {key}; stated: {list(exp)[:4]}")
        else:
            w = [x for x in c.expect if x[1] == ex[0][1]][0]
            st = D.dec(st)
            e2 = "&" + show(w[2]) + "{" + ";".join(estr) + "}" + (w[4][0] + show(w[4][1]) if w[4] else "")
            if st != e2: bad("atomstr", f"prints as {st!r} instead of {e2!r}")
        rec.count("theory_atoms")
    for key in exp:
        if key not in got: bad("missing", f"stated but not reported: {key}; reported: {list(got)[:4]}")
    if len(set(v for v in got.values() if v)) != len([v for v in got.values() if v]): bad("literal", f"literals are not unique: {list(got.values())}")
    # truth of conditions and atoms in total assignments
    ta = None
    for l in r[6]:
        if l.startswith("ta "): ta = set() if l == "ta -" else {D.dec(x) for x in l[3:].split(" ")}
        elif l.startswith("tt ") and ta is not None:
            _, i, tv, es = l.split(" ")
            key, conds = idx[int(i)]
            holds = lambda b: all(("p(%d)" % v in ta) != bool(s) for s, v in b)
            ex = "".join("1" if holds([(s == "not", v) for s, v in cd]) else "0" for cd in conds)
            if (es if es != "-" else "") != ex: bad("conditiontruth", f"conditions of {key[0]} are {es}, should be {ex} in {sorted(ta)}")
            for where, k, body, sign in exp.get(key, []):
                if where == "body" and len([1 for x in c.expect if x[1] == k]) == 1 and ("h%d" % k in ta) != (holds(body) and (tv == "1") == (sign != "not ")): bad("bodytruth", f"h{k} and atom {key[0]} disagree in {sorted(ta)}")
            heads = [holds(body) for where, k, body, sign in exp.get(key, []) if where == "head"]
            if heads and len(heads) == len(exp[key]) and (tv == "1") != any(heads): bad("headtruth", f"{key[0]} is {tv} in {sorted(ta)}")
            rec.count("truth_values", 1 + len(conds))


def check(chk):
    for k in KINDS + ("ref",): D.command(k)
    n = vf.scale(400, 4000)

    def shard(rec, idx):
        items = [build(rec.rng, rec.rng.random() < 0.15) for _ in range(n)]
        cases = [i.ops for i in items]
        res = {k: D.run_batch(k, cases, timeout=600) for k in KINDS + ("ref",)}
        for i, c in enumerate(items):
            if scen.judged(rec, judge, cases[i], res["ref"][i], {k: res[k][i] for k in KINDS}, c):
                scen.differential(rec, cases[i], res["ref"][i], {k: res[k][i] for k in KINDS})
                rec.case(c.text, n=3, sample={"program": c.text})
    vf.shards(chk, shard, 8)
    vf.py_batches(chk, vf.VERIF + "/checks/w13.py", vf.build_py(), [{"seed": vf.SEED * 100 + i, "n": vf.scale(40, 400)} for i in range(4)])


TECHNIQUE = "runtime monitoring: theory atoms, truth values and rejections compared with an operator-priority model, differential against the engine driven without the bindings"
if __name__ == "__main__": vf.main(check, "P13", rule="distinct programs with theory atoms")
