import itertools, os, sys, re, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, drivers as D, asp, astgen

KINDS = ("apy", "acc")


def mutate(rng, t):
    """A text close to a valid one: mostly syntax errors, which must be reported and not crash."""
    if not t: return t
    i = rng.randrange(len(t))
    k = rng.randint(0, 3)
    if k == 0: return t[:i] + t[i + 1:]
    if k == 1: return t[:i] + rng.choice("(){}[];:,.&@#\"'|-~ \n%aX0") + t[i:]
    if k == 2: return t[:i]
    j = rng.randrange(len(t))
    return t[:min(i, j)] + t[max(i, j):]


def locations(text, dump, files):
    """Every location of a tree lies inside the text it was parsed from."""
    for f, l, c in re.findall(r"(<string>|af\d+\.lp):(\d+):(\d+)", dump):
        t = text if f == "<string>" else files.get(f)
        if t is None: return "unknown file " + f
        lines = t.split("\n")
        l, c = int(l), int(c)
        if not 1 <= l <= len(lines) or not 1 <= c <= len(lines[l - 1].encode("utf-8", "surrogateescape")) + 1: return "%s:%d:%d outside of the text" % (f, l, c)
    return None


def semantic(rec, kind, ops, texts, r, ref):
    """Judged without the reference: what re-parsing, rebuilding, copying and adding must give."""
    replay = {"driver": kind, "ops": ops}
    for i, op in enumerate(ops):
        f = op.split("\t")
        ls = r[i]
        for l in ls:
            if l.startswith("BAD"): rec.violation(f"{kind}-{f[0]}-{l[:40]}", f"{l[:300]} in {op[:300]}", replay)
        trees = [l[2:] for l in r[0] if l.startswith("A ")]
        if f[0] in ("parse", "files"):
            files = {"af%d.lp" % (k + 1): D.dec(t) for k, t in enumerate(f[1:])}
            for l in ls:
                if l.startswith("A "):
                    e = locations(D.dec(f[1]), l, files)
                    if e: rec.violation(f"{kind}-location", f"{e} in {l[:300]}", replay)
        elif f[0] == "rebuild":
            e = [x for t in trees for x in ("A " + t + " 1 1",) * 2]
            if ls != e: rec.violation(f"{kind}-rebuild", diff(e, ls), replay)
        elif f[0] == "copy":
            e = [x for t in trees for x in ("A " + t + " 1",) * 2]
            if ls != e: rec.violation(f"{kind}-copy", diff(e, ls), replay)
    rec.count("trees", sum(1 for l in r[0] if l.startswith("A ")))
    for t in re.findall(r"([A-Z][A-Za-z]*)\{", "".join(r[0])): rec.types.add(t)


def diff(e, g):
    for a, b in itertools.zip_longest(e, g):
        if a != b:
            a, b = str(a), str(b)
            i = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
            return "expected ...%s got ...%s" % (a[max(0, i - 80):i + 60], b[max(0, i - 80):i + 60])
    return ""


def check(chk):
    for k in KINDS + ("aref",): D.command(k)
    n = vf.scale(60, 900)

    def shard(rec, idx):
        rng = rec.rng
        rec.types = set()
        cases, kinds = [], []
        for i in range(n):
            g = astgen.Gen(rng, depth=rng.choice([1, 2, 3]), pools=rng.random() < 0.7)
            t = g.program(rng.randint(1, 4))
            q = rng.random()
            post = ["str", "reparse", "rebuild", "copy", D.op("unpool", "11"), D.op("unpool", "10"), D.op("unpool", "01"), "pairs", "subs"]
            if q < 0.15: t, post = mutate(rng, t), ["str", "reparse", "subs"]
            if q > 0.9: first = D.op("files", *[D.enc(x) for x in [t] + [g.program(2) for _ in range(rng.randint(0, 2))]])
            else: first = D.op("parse", D.enc(t))
            cases.append([first] + post)
            kinds.append("syntax")
        for i in range(n // 2):
            p = asp.gen(rng, rng.randint(2, 6), rng.randint(1, 8), ("choice", "disj", "agg", "bounds", "min", "ext", "show", "terms", "neg2"))
            t = p.text(rng)
            if rng.random() < 0.5: t += "q(1..%d). r(X,Y) :- q(X), q(Y), X<Y. #const k=%d. s(k;k+1). " % (rng.randint(1, 3), rng.randint(1, 4)) + "".join("{ z(X) : q(X) }. #minimize { X@2 : z(X) }. " if rng.random() < 0.3 else "")
            cases.append([D.op("parse", D.enc(t)), "str", "rebuild", "add", D.op("text", D.enc(t))])
            kinds.append("semantic")
        cwd = vf.tmpdir()
        ref = D.run_batch("aref", cases, cwd=cwd)
        for k in KINDS:
            res = D.run_batch(k, cases, cwd=cwd)
            for kind, ops, r, e in zip(kinds, cases, res, ref):
                if isinstance(e, D.Crash):
                    rec.count("skipped_engine_crash")
                    continue
                if isinstance(r, D.Crash):
                    rec.violation(f"{k}-crash", r.what, {"driver": k, "ops": ops})
                    continue
                rec.case(ops[0] + k, n=len(ops), sample=D.dec(ops[0].split("\t")[1])[:150])
                semantic(rec, k, ops, None, r, e)
                for i, op in enumerate(ops):
                    a = [x for x in e[i]]
                    b = [x for x in r[i] if not x.startswith("BAD")]
                    if op.startswith("text") and r[i - 1] != r[i] and e[i - 1] == e[i]: rec.violation(f"{k}-add", f"added trees: {r[i-1][:3]} text: {r[i][:3]}", {"driver": k, "ops": ops})
                    if [x[:3] if x.startswith("ERR") else x for x in a] != [x[:3] if x.startswith("ERR") else x for x in b]:
                        rec.violation(f"{k}-differs-{op.split(chr(9))[0]}", diff(a, b), {"driver": k, "ops": ops[:i + 1]})
                        break
        shutil.rmtree(cwd)
        for t in rec.types: rec.count("type_" + t)
    vf.shards(chk, shard, 8)
    vf.py_batches(chk, vf.VERIF + "/checks/w03.py", vf.build_py(), [{"seed": vf.SEED}])
    exe = vf.build_cc("astenum", vf.VERIF + "/drv/astenum.cc")
    p = vf.run([exe], env=vf.base_env())
    if p.rc != 0: chk.violation("cc-enum", p.out[-500:] + p.err[-500:])
    chk.case("cc-enum", n=p.out.count("ok"))


if __name__ == "__main__": vf.main(check, "P03", rule="distinct program texts parsed, printed, re-parsed, rebuilt, copied, unpooled, compared and added")
