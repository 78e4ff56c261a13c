#!/usr/bin/env python3
"""P31: one program, written by the tree's engine as text, intermediate format and facts: read back by the installed tools and compared; repeated in other processes."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, eng, nggen, facts

TECHNIQUE = "differential monitor: text, intermediate format and reified facts written by the tree's engine for one program, the text read back by the installed grounder, answer sets and costs compared; byte-wise comparison of repeated runs in fresh processes"
LEVEL_NOTE = "random programs over small domains; the installed grounder and solver read the outputs back; text of compound disjunctions is not meant to be read back"
Q = r'"(?:[^"\\]|\\.)*"'
STR = ['"a b"', '"q\\"uote"', '"back\\\\slash"', '"new\\nline"', '""', '":-"', '"% {"', '"#show."', "-2147483648", "2147483647", "(1,(2,),())", "#inf", "#sup", "-f(a)", "-a", "a'", "_x", "f(-1,-b)", '"#delayed(1)"']


def readable(t):
    """The text as a program: names of auxiliary predicates are replaced and delayed literals written out."""
    D, out = {}, []
    for l in t.split("\n"):
        m = re.match(r"#delayed\((\d+)\) <=> (.*)$", l)
        if m: D[m.group(1)] = m.group(2)
        else: out.append(l)

    def f(m):
        if m.group(0)[0] == '"': return m.group(0)
        return "x" + m.group(2) if m.group(1) is None or m.group(1) == "" else D[m.group(1)] + (";" if m.group(2) else "")
    t = "\n".join(out)
    for _ in range(3): t = re.sub(Q + r"|#delayed\((\d+)\)([,;]?)", f, t)      # delayed literals may contain each other
    return re.sub(Q + r"|()#(p_|p\b|b\()", f, t)


def plain(t):
    return re.sub(Q, '""', t)


def visible(ms): return sorted((tuple(a for a in m if not re.match(r"-?xp_", a)), c) for m, c in ms)


def spice(r):
    out = []
    for _ in range(r.randint(0, 4)):
        s = r.choice(STR)
        out.append(r.choice(["n(%s).", "{n(%s)}.", "#show %s.", "#show %s: p(1).", "-n(%s) :- p(X), d(X).", "#external n(%s).", "{-n(%s): d(1)}.", ":~ {}.[1@2,%s]".replace("{}", "not n(1)"),
                             "#minimize{1,%s: -n(1); 2@-1,%s: n(2), not -n(3)}.", "k :- 1<=#sum{1,%s: -n(1); X,%s: p(X)}.", "k :- -n(%s): d(1).", "#project n/1. {n(%s)}.", "#heuristic n(%s): -n(1). [1,true]", "{n(%s)}=1 :- p(1)."]).replace("%s", s))
    if any("#project" in x for x in out): out = [x for x in out if "#project" not in x]
    return out


def shard(rec, idx):
    e = eng.Engine(EXE)
    r = random.Random("%s-31-%s" % (vf.SEED, idx))
    try:
        for i in range(vf.scale(110, 2500)):
            stms = nggen.program(random.Random(r.random()), size=r.choice([2, 4, 6])) + spice(r)
            prog = "\n".join(stms) + "\n"
            rep = {"program": prog}
            try:
                a, t, f = (e.ask(eng.prog_cmds(x, prog)) for x in ("aspif", "text", "reify"))
            except TimeoutError: rec.count("timeouts"); continue
            except EOFError: rec.violation("crash", "the engine died (%s) on\n%s\n%s" % (e.rc, prog, e.err[-1500:].decode(errors="replace")), rep); continue
            if {a.failed, t.failed, f.failed} != {False}:
                if not (a.failed and t.failed and f.failed): rec.violation("formats", "errors depend on the format: %s %s %s\n%s" % (a[:1], t[:1], f[:1], prog), rep)
                rec.count("rejected"); continue
            x = t.one("OUT")
            rec.case(prog, sample=prog[:300])
            if i % 10 == 0:      # the same output from another process
                e.stop()
                try:
                    again = [e.ask(eng.prog_cmds(k, prog)).one("OUT") for k in ("aspif", "text", "reify")]
                    if again != [a.one("OUT"), x, f.one("OUT")]: rec.violation("unstable", "a second process writes something else\n" + prog, dict(rep, first=[a.one("OUT"), x], second=again))
                    rec.count("repeated")
                except (TimeoutError, EOFError): rec.count("timeouts")
            try:
                st = eng.aspif_steps(a.one("OUT"))
                _, got, _ = facts.decode(f.one("OUT"), False)
                if got.get(0, facts.Counter()) != facts.statements(st[0]): rec.violation("facts", "facts and intermediate format differ\n" + prog, rep)
            except (ValueError, facts.Bad, KeyError, IndexError) as v: rec.violation("malformed", "%s\n%s" % (v, prog), rep); continue
            if sorted(x for _, x in a.msgs()) != sorted(x for _, x in t.msgs()): rec.violation("messages", "%s in one format, %s in another\n%s" % (a.msgs()[:3], t.msgs()[:3], prog), rep)
            if re.search(r"[&|]", plain(x)): rec.count("compound_disjunctions"); continue
            y = readable(x)
            try: rc, o, m = eng.gringo(y, "--output=intermediate", timeout=10)
            except TimeoutError: rec.count("timeouts"); continue
            if rc: rec.violation("unreadable", "the text is no program: %s\n%s\n---\n%s" % (m[:300], prog, x[:1500]), dict(rep, text=x)); continue
            try: g, w = visible(eng.clasp(o)), eng.clasp(a.one("OUT"))
            except (TimeoutError, eng.TooMany): rec.count("too_many"); continue
            except ValueError as v: rec.violation("unsolvable", "%s\n%s" % (v, prog), rep); continue
            rec.count("answer_sets", len(w))
            if g != w: rec.violation("text", "the text has %d answer sets, the intermediate format %d: %s / %s\n%s\n---\n%s" % (len(g), len(w), [z for z in g if z not in w][:1], [z for z in w if z not in g][:1], prog, x[:1500]), dict(rep, text=x))
    finally: e.stop()


EXE = None


def check(chk):
    global EXE
    EXE = vf.build_engine_prog("eng", vf.VERIF + "/drv/eng.cc", "")
    vf.shards(chk, shard, vf.JOBS)


if __name__ == "__main__": vf.main(check, "P31", rule="distinct programs written in all formats")
