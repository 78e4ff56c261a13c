"""P13, Python side: comparison, hashing, printing and errors of theory objects; atoms of several grounding steps."""
import os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, p13
from clingo import Control, TheoryTermType
from clingo.theory_atoms import TheoryAtom, TheoryElement, TheoryTerm

w = vf.Worker()
rng = random.Random(w.batch["seed"])


def fails(f):
    try: f()
    except RuntimeError: return True
    return False


def terms(t):
    yield t
    if t.type not in (TheoryTermType.Number, TheoryTermType.Symbol):
        for x in t.arguments: yield from terms(x)


def order(objs, what):
    for a in objs:
        for b in objs:
            e = a is b
            if (a == b) + (a < b) + (a > b) != 1 or (a != b) == (a == b) or (a <= b) != (not a > b) or (a >= b) != (not a < b): w.viol("order-" + what, f"{a} {b}")
            if a == b and (hash(a) != hash(b) or str(a) != str(b)): w.viol("hash-" + what, f"{a} {b}")
            if e and not a == b: w.viol("eq-" + what, f"{a}")
            if a != b and str(a) == str(b) and what == "term" and a.type != TheoryTermType.Function: w.viol("same-" + what, f"{a} listed twice")
    s = sorted(objs)
    if any(b < a for a, b in zip(s, s[1:])): w.viol("sorted-" + what, "")


for n in range(w.batch["n"]):
    w.begin(str(n))
    c = p13.build(rng)
    if c.wrong: continue
    msgs = []
    ctl = Control(["0"], logger=lambda *a: msgs.append(a))
    ctl.add("base", [], c.text)
    ctl.ground([("base", [])])
    ats = list(ctl.theory_atoms)
    order(ats, "atom")
    els = [e for a in ats for e in a.elements]
    order(els[:30], "element")
    tt = [t for a in ats for t in list(terms(a.term)) + [y for e in a.elements for x in e.terms for y in terms(x)] + (list(terms(a.guard[1])) if a.guard else [])][:40]
    order(tt, "term")
    for t in tt:
        ty = t.type
        if fails(lambda: t.number) != (ty != TheoryTermType.Number): w.viol("number", f"{t} {ty}")
        if fails(lambda: t.name) != (ty not in (TheoryTermType.Symbol, TheoryTermType.Function)): w.viol("name", f"{t} {ty}")
        if not isinstance(repr(t), str): w.viol("repr", "")
    for a in ats:
        if [x == y for x, y in zip(a.elements, a.elements)] != [True] * len(a.elements): w.viol("elements", str(a))
        if a.guard is not None and (not isinstance(a.guard, tuple) or not isinstance(a.guard[0], str) or not isinstance(a.guard[1], TheoryTerm)): w.viol("guard", str(a))
        if len({e.condition_id for e in a.elements if not e.condition}) > 1: w.viol("condition_id", "several ids for the empty condition")
    if len(list(ctl.theory_atoms)) != len(ats): w.viol("reiterate", "")
    it = ctl.theory_atoms
    if len(list(it)) != len(ats) or list(it): w.viol("iterator", "")
    w.case(c.text, n=len(ats))
w.done()
