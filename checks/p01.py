import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, drivers as D, symgen as S
S.BIG = True

PROPS = ["number", "string", "name", "arguments", "positive", "negative"]
KINDS = ("py", "cc", "lua")


def expect_prop(s, p):
    """Expected line of symerr, None for an error."""
    if p == "number": return "val %d" % s[1] if s[0] == "n" else None
    if p == "string": return "val " + D.enc(s[1]) if s[0] == "s" else None
    if s[0] != "f": return None
    if p == "name": return "val " + D.enc(s[1])
    if p == "arguments": return "val " + ";".join(S.build(x) for x in s[3])
    if p == "positive": return "val " + ("1" if s[2] else "0")
    return "val " + ("0" if s[2] else "1")


def spaced(s, rng):
    """The same term with white space and comments between tokens."""
    sp = lambda: rng.choice(["", " ", "\t", "\n", " \n "])
    if s[0] == "n" and rng.random() < 0.3 and 0 <= s[1]: return "0x%x" % s[1] if rng.random() < 0.8 else "0b{:b}".format(s[1])
    if s[0] == "i": return rng.choice(["#inf", "#infimum"])
    if s[0] == "p": return rng.choice(["#sup", "#supremum"])
    if s[0] != "f": return S.text(s)
    a = ",".join(sp() + spaced(x, rng) + sp() for x in s[3])
    if s[1] == "" and len(s[3]) == 1: a += "," + sp()
    return ("" if s[2] else "-" + sp()) + s[1] + (sp() + "(" + a + ")" if s[3] or s[1] == "" else "")


def one(rng):
    s = S.gen(rng, rng.choice([0, 1, 2, 3, 4]))
    b = S.build(s)
    ops, exp = [], []
    t = S.text(s)
    ops.append(D.op("sym", b))
    exp.append(" | ".join(["sym", b, D.enc(t), b, "1"]))
    for p in PROPS:
        ops.append(D.op("symerr", b, p))
        exp.append(expect_prop(s, p))
    if s[0] == "f":
        for nm, ar in ((s[1], len(s[3])), (s[1], len(s[3]) + 1), (s[1] + "x", len(s[3]))):
            ops.append(D.op("match", b, D.enc(nm), str(ar)))
            exp.append("match " + ("1" if (nm, ar) == (s[1], len(s[3])) else "0"))
    ops.append(D.op("parse", D.enc(spaced(s, rng))))
    exp.append("parse " + b)
    # broken or non-ground text must be rejected
    bad = rng.choice([t + "(", t + ")", "(" + t, t + " " + t, "X", "f(" + t, t + ".", "f(X," + t + ")", '"abc', t + "," , "1..", "f(,)", "#foo", t + " % x\n)", "", "f(" + t + ";", "{" + t + "}", "'", "_", "a'b c", "f(" + t + ",)"])
    return s, ops, exp, bad


def check(chk):
    n = vf.scale(1200, 20000)
    for k in KINDS: D.command(k)

    def shard(rec, idx):
        rng = rec.rng
        cases = [one(rng) for _ in range(n // 8)]
        for k in KINDS:
            res = D.run_batch(k, [c[1] for c in cases], timeout=300)
            for (s, ops, exp, bad), r in zip(cases, res):
                rec.case(S.build(s), n=len(ops), sample={"symbol": S.text(s)[:200], "interface": k} if k == "py" else None)
                if isinstance(r, D.Crash):
                    rec.violation(f"{k}-crash", r.what, {"driver": k, "ops": ops})
                    continue
                for o, e, got in zip(ops, exp, r):
                    if o.startswith("match"):
                        if k == "lua": continue
                        if k == "py" and not s[2]: e = "match 0"     # the Python interface also compares the sign
                    if e is None and k == "lua" and got and got[0].startswith("ERR"): continue
                    if e is None:
                        if len(got) != 1 or not got[0].startswith("ERR"):
                            rec.violation(f"{k}-{o.split(chr(9))[0]}-noerror", f"{k}: {o!r} on {S.text(s)!r} answered {got} instead of raising", {"driver": k, "ops": [o]})
                    elif got != [e]:
                        rec.violation(f"{k}-{o.split(chr(9))[0]}-{o.split(chr(9))[-1] if o.startswith('symerr') else ''}", f"{k}: {o!r} on {S.text(s)!r}\n expected {e}\n got      {got}", {"driver": k, "ops": [o]})
        rec.count("symbols", len(cases))
    vf.shards(chk, shard, 8)
    # interface-specific surface
    pydir = vf.build_py()
    vf.py_batches(chk, vf.VERIF + "/checks/w01.py", pydir, [{"seed": vf.SEED * 100 + i, "n": vf.scale(400, 5000)} for i in range(4)])


if __name__ == "__main__": vf.main(check, "P01", rule="distinct symbols (by structure) built, inspected, printed and re-parsed through an interface")
