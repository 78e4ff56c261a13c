#!/usr/bin/env python3
"""P30: random programs are grounded by the tree's engine and solved; answer sets against the installed grounder's, and against permuted and renamed versions of the program."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, eng, nggen

TECHNIQUE = "differential monitor: answer sets, costs and messages of random programs grounded by the tree's engine against the installed grounder, metamorphic comparison of permuted and renamed programs, statements with known closed-form answers"
LEVEL_NOTE = "random programs over small domains; the reference is the installed release of the same grounder, whose own failures are set aside"


def rename(stm, perm):
    """Renames variables (outside of strings)."""
    return re.sub(r'"(?:[^"\\]|\\.)*"|(?<![A-Za-z0-9_#\'])_*[A-Z][A-Za-z0-9_]*', lambda m: perm.get(m.group(0), m.group(0)), stm)


def shuffled(r, stms):
    names = sorted(set(re.findall(r"(?<![A-Za-z0-9_#\"'])[A-Z][A-Za-z0-9_]*", "\n".join(stms))))
    new = ["Va%d" % i for i in range(len(names))] if r.random() < .5 else r.sample(names, len(names))
    stms = [rename(s, dict(zip(names, new))) for s in stms]
    stms = stms[:]
    r.shuffle(stms)
    return stms


def norm_msgs(txt):
    return sorted(x for x in txt.replace("<block>:", "-:").split("\n") if ": info: atom does not" in x or ": info: global variable" in x or ": warning:" in x or ": error:" in x)


def ask(rec, e, cmds, key, what, prog):
    try: return e.ask(cmds)
    except EOFError: rec.violation(key + "-crash", "%s: the engine died (%s) on\n%s\n%s" % (what, e.rc, prog, e.err[-1500:].decode(errors="replace")), {"program": prog})
    except TimeoutError: rec.count("timeouts")
    return None


def answers(rec, out, key, prog):
    try: return eng.clasp(out)
    except (eng.TooMany, TimeoutError): return None
    except ValueError as x: rec.violation(key + "-output", "the ground program cannot be read: %s\n%s" % (x, prog), {"program": prog, "output": out[:5000]})
    return None


def differs(e, stms):
    prog = "\n".join(stms) + "\n"
    try:
        rc, o, m = eng.gringo(prog, "--output=intermediate", timeout=6)
        a = e.ask(eng.prog_cmds("aspif", prog))
        return not rc and not a.failed and eng.clasp(o) != eng.clasp(a.one("OUT"))
    except (TimeoutError, EOFError, ValueError, eng.TooMany): return False


def minimised(e, stms):
    """Drops statements as long as the answer sets still differ from the reference's."""
    i = 0
    while i < len(stms):
        q = stms[:i] + stms[i + 1:]
        if differs(e, q): stms, i = q, 0
        else: i += 1
    return stms


def reference_defect(stms):
    """Statements for which the installed release is known to lose instances: a conditional literal in the head and another one in the body of a rule."""
    flat = lambda x: re.sub(r'"(?:[^"\\]|\\.)*"|\{[^{}]*\}', "", x)
    for s in stms:
        h, _, b = flat(s).partition(":-")
        if ":" in h and ":" in b: return True
    return False


def shard(rec, idx):
    e = eng.Engine(EXE)
    r = random.Random("%s-30-%s" % (vf.SEED, idx))
    try:
        for i in range(vf.scale(150, 2500)):
            stms = nggen.program(random.Random(r.random()), size=r.choice([2, 4, 6, 9]))
            prog = "\n".join(stms) + "\n"
            try: rc, o, m = eng.gringo(prog, "--output=intermediate", timeout=6)
            except TimeoutError: rec.count("reference_timeouts"); continue
            a = ask(rec, e, eng.prog_cmds("aspif", prog), "p30", "grounding", prog)
            if a is None: continue
            if rc != 0:
                if rc in (1, 65) and not a.failed: rec.violation("p30-accepted", "accepted although the reference reports\n%s\n%s" % (m, prog), {"program": prog})
                rec.count("reference_errors"); continue
            if a.failed:
                rec.violation("p30-rejected", "rejected: %s\n%s" % (a[:3], prog), {"program": prog}); continue
            out = a.one("OUT")
            mine = norm_msgs("\n".join(x for _, x in a.msgs()))
            theirs = norm_msgs(m)
            if max(len(a.msgs()), len(re.findall(r": (?:info|warning|error):", m))) < 19 and set(mine) != set(theirs): rec.violation("p30-messages", "messages %s instead of %s for\n%s" % (mine, theirs, prog), {"program": prog})
            ref = None if out == o else answers(rec, o, "p30-ref", prog)
            got = answers(rec, out, "p30", prog)
            if got is None: continue
            if out == o: ref = got
            rec.case(prog, sample=prog[:400])
            rec.count("answer_sets", len(got))
            rec.count("identical_output", int(out == o))
            if ref is not None and ref != got:
                small = minimised(e, stms)
                if differs(e, small) and reference_defect(small): rec.count("reference_defects")
                else: rec.violation("p30-answers", "%d answer sets instead of %d for\n%s\nonly expected: %s\nonly found: %s" % (len(got), len(ref), prog, [x for x in ref if x not in got][:2], [x for x in got if x not in ref][:2]), {"program": prog})
            if r.random() < .6:
                alt = shuffled(r, stms)
                p2 = "\n".join(alt) + "\n"
                b = ask(rec, e, eng.prog_cmds("aspif", p2), "p30-permuted", "grounding", p2)
                if b is None: continue
                if b.failed: rec.violation("p30-permuted", "rejected once permuted: %s\n%s" % (b[:3], p2), {"program": p2}); continue
                g2 = answers(rec, b.one("OUT"), "p30-permuted", p2)
                rec.count("permuted")
                if g2 is not None and g2 != got: rec.violation("p30-permuted", "answer sets change (%d, before %d) under permutation/renaming\n%s\n---\n%s" % (len(g2), len(got), prog, p2), {"program": prog, "permuted": p2})
    finally: e.stop()


def check(chk):
    global EXE
    EXE = vf.build_engine_prog("eng", vf.VERIF + "/drv/eng.cc", "")
    vf.shards(chk, shard, vf.JOBS)


if __name__ == "__main__": vf.main(check, "P30", rule="distinct programs whose answer sets were compared")
