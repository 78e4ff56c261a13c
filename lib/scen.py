"""Judging solve logs of the drivers against the reference semantics."""
import collections
import drivers as D


def cost_of(p, M): return p.cost(M)


class Exp:
    """Expected answer sets of a program: list of (mask, atoms, shown, terms, cost)."""
    def __init__(self, p, masks=None):
        self.p = p
        self.masks = p.answer_sets() if masks is None else masks
        self.rows = []
        for M in self.masks:
            a = p.set_names(M)
            sh = frozenset(n for i, n in enumerate(p.names) if M >> i & 1 and (p.shows is None or i in p.shows))
            t = frozenset(x for x, c in p.terms if p.holds(c, M))
            self.rows.append((M, a, sh, t, p.cost(M)))
        self.by_atoms = {r[1]: r for r in self.rows}


def judge_models(bad, exp, ms, domain=None, total=None, start=1, complete=True, allowed=None):
    """Models of one plain enumeration: each an answer set, pairwise distinct, numbered consecutively, symbols as selected."""
    seen = set()
    possible = frozenset().union(*exp.by_atoms) if exp.by_atoms else frozenset()
    rows = exp.by_atoms if allowed is None else {r[1]: r for r in allowed}
    for i, m in enumerate(ms):
        if m.number != start + i: bad("number", "model %d is numbered %d" % (start + i, m.number))
        if len(set(m.atoms)) != len(m.atoms): bad("dupsym", "repeated symbols in %s" % m.atoms)
        a = frozenset(m.atoms)
        r = rows.get(a)
        if r is None:
            bad("notanswerset", "delivered model is not an answer set: %s" % sorted(a))
            continue
        if a in seen: bad("twice", "answer set delivered twice: %s" % sorted(a))
        seen.add(a)
        if sorted(m.terms) != sorted(r[3]): bad("terms", "terms %s expected %s in %s" % (sorted(m.terms), sorted(r[3]), sorted(a)))
        if sorted(m.shown) != sorted(r[2] | r[3]): bad("shown", "shown %s expected %s in %s" % (sorted(m.shown), sorted(r[2] | r[3]), sorted(a)))
        if domain is not None:     # exactly the possible atoms that are false; underivable ones may be missing
            c = set(m.compl)
            if len(c) != len(m.compl) or c & a or not c <= domain or not (possible - a) <= c: bad("complement", "complement %s expected %s" % (sorted(m.compl), sorted(domain - a)))
        if m.type != "StableModel": bad("type", m.type)
    if complete and len(seen) != len(rows):
        miss = [sorted(a) for a in rows if a not in seen]
        bad("missing", "%d of %d answer sets not delivered, e.g. %s" % (len(miss), len(rows), miss[:2]))


def judge_result(bad, lines, nmodels, complete, stopped=False):
    """The final result line agrees with what was delivered."""
    r = D.result(lines)
    if r is None:
        bad("noresult", "no result reported: %s" % lines[-2:])
        return
    sat, unsat, unk, exh, intr = (c == "1" for c in r)
    if sat != (nmodels > 0): bad("result-sat", "result %s after %d models" % (r, nmodels))
    if unsat != (nmodels == 0 and complete): bad("result-unsat", "result %s after %d models" % (r, nmodels))
    if unk != (not sat and not unsat): bad("result-unknown", r)
    if complete and not exh: bad("result-exhausted", "result %s after complete enumeration" % r)
    if complete and intr: bad("result-interrupted", "result %s although not stopped" % r)
    f = [l for l in lines if l.startswith("F ")]
    if f and f != ["F %d%d%d%d" % (sat, unsat, exh, intr)]: bad("finish", "finish handler calls %s, result %s" % (f, r))


def satoms(lines):
    """{symbol: (literal, fact, external)} of a satoms op, or None."""
    for l in lines:
        if l.startswith("satoms "):
            _, n, rest = (l + " ").split(" ", 2)
            d = {}
            items = [x for x in rest.strip().split("|") if x]
            for x in items:
                s, lit, fl = x.split(" ")
                if D.dec(s) in d: return "duplicate"
                d[D.dec(s)] = (int(lit), fl[0] == "1", fl[1] == "1")
            return d if int(n) == len(items) else "length"
    return None


def bad_lines(lines): return [l for l in lines if l.startswith("BAD")]


class Probe:
    """Collects violations of one judged case without reporting them."""
    def __init__(self): self.v = []
    def violation(self, *a): self.v.append(a)
    def count(self, *a): pass
    def case(self, *a, **k): pass


def judged(rec, judge, case_ops, refresult, results, *args, sample=None, **kw):
    """Runs judge(rec, kind, ..., result) for every interface. If the engine as installed, driven without any code of the tree,
    already misses the expectation, the case says nothing about the tree and is only counted."""
    pr = Probe()

    def guarded(rec, k, r):
        try: judge(rec, k, *args, r)
        except Exception as e:      # a log the monitor cannot make sense of
            import traceback
            rec.violation(f"{k}-log", f"the log of {k} is malformed: {e!r}\n{traceback.format_exc()[-600:]}", {"driver": k, "ops": case_ops, "log": str(r)[:4000]})
    guarded(pr, "ref", refresult)
    if pr.v:
        rec.count("skipped_engine_disagrees")
        if __import__("os").environ.get("VERIF_DEBUG"): print("ENGINE", pr.v[0][:2])
        return False
    for k, r in results.items(): guarded(rec, k, r)
    return True


def differential(rec, ops, refresult, results, replay=None, skip=(), compl=True):
    """The logs of all interfaces equal the log of the engine driven without the tree."""
    if isinstance(refresult, D.Crash): return
    for k, r in results.items():
        if isinstance(r, D.Crash):
            rec.violation(f"{k}-crash", r.what, {"driver": k, "ops": ops})
            continue
        m = D.mismatch(ops, refresult, r, k == "lua", skip, compl)
        if m:
            i, x, y = m
            d = [(a, b) for a, b in zip(x + ["-"] * len(y), y + ["-"] * len(x)) if a != b][:1]
            rec.violation(f"{k}-differs-{ops[i].split(chr(9))[0] if i < len(ops) else 'end'}", f"{k} differs from the reference on operation {ops[i] if i < len(ops) else 'end'!r}: expected {d and d[0][0]!r} got {d and d[0][1]!r}", {"driver": k, "ops": ops[:i + 1]})
        rec.count("compared_logs")
