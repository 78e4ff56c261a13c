import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, drivers as D, symgen as S

KINDS = ("py", "cc", "lua")


def variants(rng, s):
    """Symbols close to s: these make comparisons interesting."""
    r = [s]
    if s[0] == "n": r += [("n", max(-(1 << 31), s[1] - 1)), ("n", -s[1] if s[1] != -(1 << 31) else 0), ("s", str(s[1]))]
    elif s[0] == "s": r += [("s", s[1] + "a"), ("s", s[1][:-1]), ("s", s[1].upper())]
    elif s[0] == "f":
        if s[1]: r += [("f", s[1], not s[2], s[3]), ("f", s[1] + "z", s[2], s[3]), ("f", s[1], s[2], s[3] + (("n", 0),))]
        if s[3]:
            a = list(s[3])
            i = rng.randrange(len(a))
            a[i] = S.gen(rng, 1)
            r += [("f", s[1], s[2], tuple(a)), ("f", "", True, s[3])]
            if s[1] or len(s[3]) > 1: r.append(("f", s[1], s[2], s[3][1:]))
            a = list(s[3])
            rng.shuffle(a)
            r.append(("f", s[1], s[2], tuple(a)))
    return r


def pool(rng, n):
    p = [("i",), ("p",), ("n", 0), ("s", ""), ("f", "", True, ())]
    while len(p) < n: p += variants(rng, S.gen(rng, rng.choice([0, 1, 2, 3])))
    return p[:n]





def exp_cmp(a, b):
    c = S.cmp(a, b)
    return {-1: "110100", 0: "011010", 1: "000111"}[c]


def check(chk):
    for k in KINDS: D.command(k)
    groups = vf.scale(6, 40)
    size = vf.scale(36, 48)

    def shard(rec, idx):
        rng = rec.rng
        for g in range(groups):
            p = pool(rng, size)
            bs = [S.build(s) for s in p]
            ops = [D.op("cmp", bs[i], bs[j]) for i in range(size) for j in range(size)]
            pairs = [(i, j) for i in range(size) for j in range(size)]
            orders = []
            for _ in range(6):
                q = [rng.randrange(size) for _ in range(rng.randint(2, size))]
                orders.append(q)
                ops.append(D.op("order", ";".join(bs[i] for i in q)))
            for k in KINDS:
                r = D.run_batch(k, [ops], timeout=200)[0]
                if isinstance(r, D.Crash):
                    rec.violation(k + "-crash", r.what, {"driver": k, "ops": ops[:50]})
                    continue
                for (i, j), got in zip(pairs, r):
                    f = got[0].split(" ") if got else ["", "", ""]
                    e = exp_cmp(p[i], p[j])
                    if f[0] != "cmp" or f[1] != e: rec.violation(f"{k}-cmp", f"{S.text(p[i])} vs {S.text(p[j])}: expected {e} got {got}", {"driver": k, "ops": [D.op('cmp', bs[i], bs[j])]})
                    elif e == "011010" and f[2] == "0": rec.violation(f"{k}-hash", f"equal symbols with different hashes: {S.text(p[i])}", {"driver": k})
                for q, got in zip(orders, r[len(pairs):]):
                    e = "order " + ";".join(bs[i] for i in sorted(q, key=lambda i: S.order(p[i])))
                    if got != [e]: rec.violation(f"{k}-sort", f"sorting {[S.text(p[i]) for i in q]}\nexpected {e}\ngot {got}", {"driver": k})
            rec.case(tuple(bs), n=3 * len(ops), sample=[S.text(s)[:60] for s in p[:5]])
            rec.count("comparisons", 3 * len(pairs))
            rec.count("equal_pairs", sum(1 for i, j in pairs if i != j and p[i] == p[j]))
            # the language's own comparisons and #min/#max must agree
            q = [s for s in p if s[0] != "f" or s[2] or s[1]][:14]
            uniq = []
            for s in q:
                if s not in uniq: uniq.append(s)
            prog = "".join("s(%d,%s). " % (i, S.text(s)) for i, s in enumerate(uniq))
            for nm, rel in (("lt", "<"), ("le", "<="), ("eq", "="), ("ne", "!="), ("ge", ">="), ("gt", ">")): prog += "%s(I,J) :- s(I,X), s(J,Y), X%sY. " % (nm, rel)
            prog += "mn(X) :- X=#min{Y:s(_,Y)}. mx(X) :- X=#max{Y:s(_,Y)}. #show lt/2. #show le/2. #show eq/2. #show ne/2. #show ge/2. #show gt/2. #show mn/1. #show mx/1."
            r = D.run_batch("py", [[D.op("new", "0", "0"), D.op("add", "base", "", D.enc(prog)), D.op("ground", "base"), D.op("solve", "yield", "", "0")]])[0]
            if isinstance(r, D.Crash): rec.violation("lang-crash", r.what)
            else:
                ms = D.models(r[3])
                got = set(ms[0].shown) if len(ms) == 1 else None
                exp = set()
                for i, a in enumerate(uniq):
                    for j, b in enumerate(uniq):
                        for nm, v in zip(("lt", "le", "eq", "ne", "ge", "gt"), exp_cmp(a, b)):
                            if v == "1": exp.add("%s(%d,%d)" % (nm, i, j))
                srt = sorted(uniq, key=S.order)
                exp |= {"mn(%s)" % S.text(srt[0]), "mx(%s)" % S.text(srt[-1])}
                if got != exp: rec.violation("lang-cmp", f"language comparison differs for {[S.text(s) for s in uniq]}: missing {exp - (got or set())}, extra {(got or set()) - exp} {r}", {"program": prog})
                rec.count("language_comparisons", len(uniq) ** 2 * 6)
    vf.shards(chk, shard, 8)
    pydir = vf.build_py()
    vf.py_batches(chk, vf.VERIF + "/checks/w02.py", pydir, [{"seed": vf.SEED * 100 + i, "n": vf.scale(30, 300)} for i in range(4)])
    api_cc(chk)


def api_cc(chk):
    pass


if __name__ == "__main__": vf.main(check, "P02", rule="distinct sets of symbols compared pairwise through all interfaces and in programs")
