"""Reads reified facts (with a term reader of its own) and turns them back into statements of the intermediate format."""
import re
from collections import Counter, defaultdict
import eng

TOK = re.compile(r'"(?:[^"\\]|\\.)*"|#?[A-Za-z_\'][A-Za-z0-9_\']*|-?\d+|[(),.;~-]|#inf|#sup')


class Bad(Exception): pass


def facts(text):
    """[(name, [argument texts])]"""
    out = []
    for line in text.split("\n"):
        if not line: continue
        m = re.match(r"([a-z_]+)\(", line)
        if not m or not line.endswith(")."): raise Bad("not a fact: " + line[:200])
        out.append((m.group(1), args(line[m.end():-2])))
    return out


def args(s):
    """Splits at top level commas."""
    r, d, cur, i = [], 0, "", 0
    while i < len(s):
        c = s[i]
        if c == '"':
            j = i + 1
            while j < len(s) and s[j] != '"': j += 2 if s[j] == "\\" else 1
            if j >= len(s): raise Bad("unterminated string in " + s[:200])
            cur += s[i:j + 1]; i = j + 1; continue
        if c == "(": d += 1
        elif c == ")":
            d -= 1
            if d < 0: raise Bad("parentheses in " + s[:200])
        if c == "," and d == 0: r.append(cur); cur = ""
        else: cur += c
        i += 1
    if d: raise Bad("parentheses in " + s[:200])
    r.append(cur)
    return r


def unquote(s):
    if not (len(s) >= 2 and s[0] == s[-1] == '"'): raise Bad("string expected: " + s[:100])
    return re.sub(r"\\(.)", lambda m: {"n": "\n"}.get(m.group(1), m.group(1)), s[1:-1], flags=re.S)


VAL = {"free": 0, "true": 1, "false": 2, "release": 3}
HEU = {"level": 0, "sign": 1, "factor": 2, "init": 3, "true": 4, "false": 5}
SEQ = {"tuple": -1, "set": -2, "list": -3}
ARITY = {"atom_tuple": (1, 2), "literal_tuple": (1, 2), "weighted_literal_tuple": (1, 3), "theory_tuple": (1, 3), "theory_element_tuple": (1, 2), "rule": (2,), "minimize": (2,), "project": (1,), "output": (2,),
         "output_csp": (3,), "external": (2,), "assume": (1,), "heuristic": (5,), "edge": (3,), "theory_number": (2,), "theory_string": (2,), "theory_function": (3,), "theory_sequence": (3,), "theory_element": (3,),
         "theory_atom": (3, 5), "scc": (2,)}


def decode(text, steps):
    """-> (incremental, {step: Counter of statements}, {step: [components]}); checks identifiers and sharing on the way."""
    inc, byfacts = False, defaultdict(list)
    for n, a in facts(text):
        if n == "tag":
            if a != ["incremental"]: raise Bad("tag " + str(a))
            inc = True; continue
        if n not in ARITY: raise Bad("unknown fact %s/%d" % (n, len(a)))
        st = 0
        if steps:
            st = int(a[-1]); a = a[:-1]
        if len(a) not in ARITY[n]: raise Bad("arity of %s%s" % (n, a))
        byfacts[st].append((n, a))
    res, sccs = {}, {}
    for st, fs in byfacts.items():
        tup = {k: {} for k in ("atom_tuple", "literal_tuple", "weighted_literal_tuple", "theory_tuple", "theory_element_tuple")}
        out, comp = [], {}
        for n, a in fs:
            if n in tup:
                i = int(a[0])
                if len(a) == 1:
                    if i in tup[n]: raise Bad("%s %d declared twice" % (n, i))
                    if i != len(tup[n]): raise Bad("%s %d out of sequence" % (n, i))
                    tup[n][i] = []
                else:
                    if i not in tup[n]: raise Bad("%s %d is not declared" % (n, i))
                    if n == "theory_tuple":
                        if int(a[1]) != len(tup[n][i]): raise Bad("position in theory tuple %s" % a)
                        tup[n][i].append(int(a[2]))
                    elif n == "weighted_literal_tuple": tup[n][i].append((int(a[1]), int(a[2])))
                    else: tup[n][i].append(int(a[1]))
        for k, t in tup.items():
            seen = {}
            for i, v in t.items():
                v = tuple(v)
                if v in seen: raise Bad("%s %d and %d are the same tuple %s" % (k, seen[v], i, v))
                seen[v] = i
        T = lambda k, i: tuple(tup[k][int(i)]) if int(i) in tup[k] else bad("undeclared %s %s" % (k, i))
        for n, a in fs:
            if n == "rule":
                h = re.fullmatch(r"(disjunction|choice)\((\d+)\)", a[0]); b = re.fullmatch(r"(normal)\((\d+)\)|(sum)\((\d+),(-?\d+)\)", a[1])
                if not h or not b: raise Bad("rule %s" % a)
                head = (int(h.group(1) == "choice"), T("atom_tuple", h.group(2)))
                out.append(("rule", *head, "n", T("literal_tuple", b.group(2))) if b.group(1) else ("rule", *head, "s", int(b.group(5)), T("weighted_literal_tuple", b.group(4))))
            elif n == "minimize": out.append(("min", int(a[0]), T("weighted_literal_tuple", a[1])))
            elif n == "project": out.append(("project", int(a[0])))
            elif n == "output": out.append(("out", a[0], T("literal_tuple", a[1])))
            elif n == "output_csp": out.append(("out", a[0] + "=" + a[1], T("literal_tuple", a[2])))
            elif n == "external": out.append(("ext", int(a[0]), VAL[a[1]]))
            elif n == "assume": out.append(("assume", int(a[0])))
            elif n == "heuristic": out.append(("heu", int(a[0]), HEU[a[1]], int(a[2]), int(a[3]), T("literal_tuple", a[4])))
            elif n == "edge": out.append(("edge", int(a[0]), int(a[1]), T("literal_tuple", a[2])))
            elif n == "theory_number": out.append(("tnum", int(a[0]), int(a[1])))
            elif n == "theory_string": out.append(("tstr", int(a[0]), unquote(a[1])))
            elif n == "theory_function": out.append(("tfun", int(a[0]), int(a[1]), T("theory_tuple", a[2])))
            elif n == "theory_sequence": out.append(("tfun", int(a[0]), SEQ[a[1]], T("theory_tuple", a[2])))
            elif n == "theory_element": out.append(("telem", int(a[0]), T("theory_tuple", a[1]), T("literal_tuple", a[2])))
            elif n == "theory_atom": out.append(("tatom", int(a[0]), int(a[1]), T("theory_element_tuple", a[2]), *map(int, a[3:])))
            elif n == "scc": comp.setdefault(int(a[0]), []).append(int(a[1]))
        res[st] = Counter(out)
        sccs[st] = list(comp.values())
    return inc, res, sccs


def bad(s): raise Bad(s)


def statements(step):
    """The same form from a step of the intermediate format."""
    out = []
    for s in step.stm:
        k = s[0]
        if k == 4:
            f = list(map(int, s[2].split())); out.append(("out", s[1], tuple(f[1:]))); continue
        if k == 5: out.append(("ext", int(s[1]), int(s[2]))); continue
        if k == 10: continue
        if k == 9 and s[1][0] == "1": out.append(("tstr", int(s[1][1]), s[1][2])); continue
        f = list(map(int, s[1]))
        if k == 1:
            n = f[1]; head = (f[0], tuple(f[2:2 + n])); b = f[2 + n:]
            if b[0] == 0: out.append(("rule", *head, "n", tuple(b[2:]))); chk(b[1] == len(b) - 2, s)
            else: out.append(("rule", *head, "s", b[1], tuple(zip(b[3::2], b[4::2])))); chk(2 * b[2] == len(b) - 3, s)
        elif k == 2: out.append(("min", f[0], tuple(zip(f[2::2], f[3::2])))); chk(2 * f[1] == len(f) - 2, s)
        elif k == 3: out += [("project", x) for x in f[1:]]; chk(f[0] == len(f) - 1, s)
        elif k == 6: out += [("assume", x) for x in f[1:]]; chk(f[0] == len(f) - 1, s)
        elif k == 7: out.append(("heu", f[1], f[0], f[2], f[3], tuple(f[5:]))); chk(f[4] == len(f) - 5, s)
        elif k == 8: out.append(("edge", f[0], f[1], tuple(f[3:]))); chk(f[2] == len(f) - 3, s)
        elif k == 9:
            if f[0] == 0: out.append(("tnum", f[1], f[2])); chk(len(f) == 3, s)
            elif f[0] == 2: out.append(("tfun", f[1], f[2], tuple(f[4:]))); chk(f[3] == len(f) - 4, s)
            elif f[0] == 4: n = f[2]; out.append(("telem", f[1], tuple(f[3:3 + n]), tuple(f[4 + n:]))); chk(f[3 + n] == len(f) - 4 - n, s)
            elif f[0] in (5, 6):
                n = f[3]; out.append(("tatom", f[1], f[2], tuple(f[4:4 + n]), *f[4 + n:])); chk(len(f) - 4 - n == (2 if f[0] == 6 else 0), s)
            else: raise Bad("theory statement %s" % s[2])
        else: raise Bad("statement %s" % (s,))
    return Counter(out)


def chk(c, s):
    if not c: raise Bad("lengths in statement %s" % (s,))


def components(stms):
    """Non-trivial strongly connected components of the positive dependency graph."""
    g = defaultdict(set)
    for s in stms:
        if s[0] != "rule": continue
        pos = [x for x in s[4] if x > 0] if s[3] == "n" else [x for x, w in s[5] if x > 0]
        for h in s[2]:
            g[h].update(pos)
            for p in pos: g[p]
    reach = {}
    for v in g:
        seen, todo = set(), [v]
        while todo:
            for y in g[todo.pop()]:
                if y not in seen: seen.add(y); todo.append(y)
        reach[v] = seen
    return {frozenset([v] + [u for u in reach[v] if v in reach[u]]) for v in g if any(u != v and v in reach[u] for u in reach[v])}
