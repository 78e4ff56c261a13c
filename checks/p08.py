"""P08: fault injection. Histories are first run as they are (per interface), which yields the number of invocations of every
callback; then the k-th invocation of one callback raises an error of some type. The monitor compares the log of the faulty run
with that of the healthy one: identical up to the fault, the operation raises exactly that failure (same object in Python, same
type and message in C++, same message in Lua), it never shows up again, and fresh controls behave as in the healthy run."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, drivers as D

KINDS = ("py", "cc", "lua")
# callbacks that can report failures to the library; (event prefix, same control still usable with the same models)
CALLBACKS = {"call": 0, "O init": 0, "O begin": 0, "O end": 0, "O rule": 0, "O wrule": 0, "O min": 0, "O project": 0, "O outatom": 0, "O outterm": 0, "O ext": 0, "O assume": 0, "O heu": 0, "O edge": 0,
             "O tnum": 0, "O tstr": 0, "O tcomp": 0, "O telem": 0, "O tatom": 0, "O tatomg": 0, "M\t": 1, "Pinit ": 1, "Pinitend": 1, "Pprop": 1, "Pcheck": 1, "Pdecide": 1, "Qprop": 1, "Qcheck": 1, "A ": 0}
NEXC = {"py": 10, "cc": 6, "lua": 6}
EXPECT = {
    "py": lambda m: ["ERR Injected %s same" % D.enc(m), "ERR KeyError %s same" % D.enc(repr(m)), "ERR StopIteration %s same" % D.enc(m), "ERR MemoryError %s same" % D.enc(m), "ERR KeyboardInterrupt %s same" % D.enc(m),
                     "ERR Injected %s same" % D.enc(str((m, 1))), "ERR UnicodeEncodeError %s same" % D.enc(str(UnicodeEncodeError("ascii", m, 0, 1, m))), "ERR Injected %s same" % D.enc(m + "\udc80"),
                     "ERR RuntimeError %s same" % D.enc(m), "ERR AssertionError %s same" % D.enc(m)],
    "cc": lambda m: ["ERR Injected " + m, "ERR logic_error " + m, "ERR runtime_error " + m, "ERR bad_alloc " + D.enc("std::bad_alloc"), "ERR string " + m, "ERR out_of_range " + m],
    "lua": lambda m: [m, m, "(error object is a table value)", "12345", m, "(error object is a nil value)"],
}


def program(rng):
    n = rng.randint(1, 3)
    at = ["a%d" % i for i in range(n)]
    ls = ["{%s}." % ";".join(at)]
    pick = lambda: rng.choice(at)
    for k in rng.sample(range(16), rng.randint(3, 9)):
        if k == 0: ls.append("p(@f(X)) :- X=1..%d." % rng.randint(1, 3))
        elif k == 1: ls.append("q(Y) :- Y=@g(%d,%s)." % (rng.randint(0, 5), pick()))
        elif k == 2: ls.append("#show w(%d) : %s." % (rng.randint(0, 9), pick()))
        elif k == 3: ls.append("#show %s/0." % pick())
        elif k == 4: ls.append("#external e(1..2). r :- e(1).")
        elif k == 5: ls.append("#project %s." % pick())
        elif k == 6: ls.append("#heuristic %s : not z. [%d@%d,%s]\n{z}." % (pick(), rng.randint(1, 4), rng.randint(1, 3), rng.choice(["sign", "level", "true", "false", "init", "factor"])))
        elif k == 7: ls.append("#edge (1,2) : %s. #edge (2,1) : not %s." % (pick(), pick()))
        elif k == 8: ls.append("s :- %d #sum { 1,x:%s; 2,y:not %s }." % (rng.randint(1, 2), pick(), pick()))
        elif k == 9: ls.append("#theory t { tt { - : 1, unary }; &g/1 : tt, {<=}, tt, any; &k/0 : tt, any }.\n&g(1) { f(X,-2),[x] : %s, X=1..2 } <= 3. &k { \"s\" }." % pick())
        elif k == 10: ls.append(":- %s, %s." % (pick(), "not " + pick()))
        elif k == 11: ls.append("t(X) :- X=@f(1..2), %s." % pick())
        elif k == 12: ls.append("u :- not v. v :- not u.")
        elif k == 13: ls.append("#minimize { 1@2,%s : %s; 2,x : not %s }." % (pick(), pick(), pick()))
        elif k == 14: ls.append("-m :- %s. m :- not %s." % (pick(), pick()))
        else: ls.append("x(@h(1)).")
    return at, "\n".join(ls)


def build(rng):
    c = type("C", (), {})()
    at, prg = program(rng)
    c.opt = "#minimize" in prg
    c.hard = "#heuristic" in prg
    ops = [D.op("extfun", f, rng.choice(["echo", "first", "wrap", "nargs", "dup"])) for f in "fgh"]
    ops.append(D.op("new", "0", ";".join(["0"] + (["--project=project"] if rng.random() < 0.2 and "#project" in prg else []) + (["--heuristic=Domain"] if c.hard and rng.random() < 0.5 else []))))
    if rng.random() < 0.7: ops.append(D.op("observe", "0"))
    w = lambda: ["watch %s%s -" % (rng.choice("+-"), x) for x in at]
    if rng.random() < 0.8: ops.append(D.op("prop", "P", *w(), "mode " + rng.choice(["total", "both", "fix", "none"]), *(["decide 0 %s%s" % (rng.choice("+-"), rng.choice(at))] if rng.random() < 0.5 else []),
                                          *(["fresh -"] if rng.random() < 0.2 else [])))
    if rng.random() < 0.3: ops.append(D.op("prop", "Q", *w(), "mode both"))
    if rng.random() < 0.4: ops.append(D.op("parsecb", rng.choice("sc"), D.enc("aa. bb :- aa, not cc. {dd(1..2)}.\n:- dd(1). &x {}." if rng.random() < 0.1 else "aa. bb :- aa.\n{dd(1..2)}.")))
    ops.append(D.op("add", "base", "", D.enc(prg)))
    ops.append(D.op("ground", "base"))
    mode = lambda: rng.choice(["cb", "cb", "yield", "step", "async", "ayield"])
    ops.append(D.op("solve", mode(), "", "0"))
    r = rng.random()
    if r < 0.5:
        ops.append(D.op("add", "step", "k", D.enc("sa(k). {sb(k)}. sc(@f(k)). #external se(k).")))
        ops.append(D.op("ground", "step;n:%d" % rng.randint(1, 9)))
        ops.append(D.op("solve", mode(), rng.choice(["", "+" + at[0]]), "0"))
    elif r < 0.7: ops.append(D.op("backend", "atom v1 " + D.enc("bk"), "rule 1 v1 -", "atom v2 -", "rule 0 v2 v1", "ext v2 Free" if r < 0.6 else "wrule 0 v2 1 v1=1"))
    ops.append(D.op("solve", mode(), "", "0"))
    c.prefix = ops
    c.rest = [D.op("del", "0"), D.op("nofail"), D.op("new", "1", "0"), D.op("add", "base", "", D.enc("{a;b}. #show c(@f(1)) : a.")), D.op("ground", "base"), D.op("solve", "cb", "", "0"), D.op("solve", "yield", "", "0")]
    c.prg = prg
    return c


def healthy(c): return c.prefix + [D.op("nofail")] + c.rest
def faulty(c, h, pre, k, e):
    """The history up to the operation that is going to fail, then (if the control is still usable) later solve calls, then a fresh control."""
    n = 0
    for i in range(len(c.prefix)):
        n += sum(1 for l in h[i] if l.startswith(pre))
        if n >= k: break
    later = [o for o in c.prefix[i + 1:] if o.startswith("solve\t")] if CALLBACKS[pre] else []
    return i, [D.op("failat", D.enc(pre), str(k), str(e))] + c.prefix[:i + 1] + later + [D.op("nofail")] + c.rest


def sols(lines): return sorted((tuple(sorted(m.shown)), tuple(sorted(m.atoms))) for m in D.models(lines))


def run(chk):
    for k in KINDS: D.command(k)
    D.command("ref")
    vf.shards(chk, shard, vf.scale(8, 32))
    noreturn(chk)
    c = chk.counters
    miss = [k + "/" + p for k in KINDS for p in CALLBACKS if c.get("faults_%s_%s" % (k, p.strip()), 0) == 0 and not (k == "lua" and p[0] in "OA")]
    if miss: chk.note("callbacks never failed: " + " ".join(miss))


def shard(rec, idx):
    rng = random.Random(vf.SEED * 7919 + idx * 104729 + 8)
    cases = [build(rng) for _ in range(vf.scale(12, 40))]
    for kind in KINDS:
        hs = D.run_batch(kind, [healthy(c) for c in cases], 200)
        todo = []
        for c, h in zip(cases, hs):
            if isinstance(h, D.Crash):
                rec.violation(f"{kind}-crash", h.what, {"driver": kind, "ops": healthy(c)})
                continue
            n = len(c.prefix)
            lines = [l for x in h[:n] for l in x]
            for pre in CALLBACKS:
                cnt = sum(1 for l in lines if l.startswith(pre))
                if not cnt: continue
                ks = {1, cnt, rng.randint(1, cnt)} if vf.TIER != "thorough" else set(rng.sample(range(1, cnt + 1), min(cnt, 12)))
                for k in sorted(ks)[:3 if vf.TIER != "thorough" else 99]: todo.append((c, h, pre, k, rng.choice([0, 0, 0, rng.randrange(NEXC[kind])])))
        rng.shuffle(todo)
        todo = todo[:vf.scale(260, 3000)]
        rs = D.run_batch(kind, [faulty(*t)[1] for t in todo], 400)
        later = []
        for (c, h, pre, k, e), r in zip(todo, rs):
            if judge(rec, kind, c, h, pre, k, e, r) and not isinstance(r, D.Crash) and CALLBACKS[pre] and not c.opt: later.append((c, h, pre, k, e, r))
        # same control after the failure, as far as the engine supports it
        for t, r0 in zip(later, D.run_batch("ref", [faulty(*t[:4], 0)[1] for t in later], 400)):
            judge_later(rec, kind, *t, r0)


def judge(rec, kind, c, h, pre, k, e, r):
    at, ops = faulty(c, h, pre, k, e)
    replay = {"driver": kind, "ops": ops}
    def bad(key, m):
        rec.violation(f"{kind}-{pre.strip()}-{key}", f"{kind}: {pre.strip()!r} failing at invocation {k} with error kind {e}: {m}\nprogram:\n{c.prg}", replay)
        return False
    if isinstance(r, D.Crash): return bad("crash", r.what)
    rec.count("faults_%s_%s" % (kind, pre.strip()))
    rec.count("errors_%s_%d" % (kind, e))
    rec.case((kind, pre, k, e, c.prg, tuple(c.prefix)), sample={"driver": kind, "callback": pre.strip(), "invocation": k, "error_kind": e})
    r = r[1:]
    msg = "injected-%d" % k
    hit = [i for i, x in enumerate(r) if "!injected" in x]
    if len(hit) != 1: return bad("noinject", "the callback was invoked less often than in the healthy run: %s" % [x[-2:] for x in r])
    i = hit[0]
    if i != at: return bad("before", "failed in operation %d instead of %d" % (i, at))
    for j in range(i):
        if r[j] != h[j]: return bad("before", "operation %r before the failure behaved differently: %s instead of %s" % (ops[j + 1], r[j][-3:], h[j][-3:]))
    x = r[i]
    p = x.index("!injected")
    if x[:p] != h[i][:p]: return bad("before", "events before the failure differ: %s instead of %s" % (x[:p][-2:], h[i][:p][-2:]))
    errs = [l for l in x if l.startswith("ERR")]
    want = EXPECT[kind](msg)[e]
    if len(errs) != 1: return bad("errors", "operation %r reported %d failures: %s (log %s)" % (ops[i + 1], len(errs), errs, x[-4:]))
    got = errs[0]
    how = ops[i + 1].split("\t")
    if kind == "py" and e == 2 and how[0] == "solve" and "yield" in how[1] and got == "ERR RuntimeError generator%20raised%20StopIteration": pass    # that is how generators report StopIteration
    elif kind == "py" and how[0] == "solve" and how[1] in ("async", "ayield") and got == "ERR RuntimeError " + re.sub("%[89AB][0-9A-F]", "%5Cudc80", D.enc({"KeyError": repr(msg)}.get(want.split()[1], D.dec(want.split()[2])))): pass   # documented: errors in the solver thread arrive as runtime errors with their message
    elif kind == "lua" and how[0] == "solve" and how[1] != "cb" and pre == "M\t" and e in (2, 5): pass     # raised outside of a callback
    elif kind == "lua":
        if want not in D.dec(got[10:]): return bad("wrong", "reported %r" % D.dec(got[4:])[:300])
    elif kind == "cc" and how[0] == "backend" and got == ("ERR runtime_error unknown%20error" if e == 4 else want.replace("Injected", "runtime_error").replace("out_of_range", "logic_error")): pass   # the backend only knows code and message
    elif got != want: return bad("wrong", "reported %r instead of %r" % (got, want))
    if any(l.startswith(("M\t", "R ")) for l in x[p + 1:]): return bad("continued", "the operation went on after the failure: %s" % x[p + 1:][:4])
    for j in range(i + 1, len(r)):
        for l in r[j]:
            if "injected" in l or (kind == "lua" and l.startswith("ERR") and want in D.dec(l)): return bad("stale", "operation %r reports the earlier failure: %s" % (ops[j + 1], l[:300]))
    n = len(c.rest)
    if r[-n:] != h[-n:]: return bad("fresh", "a fresh control behaves differently after the failure: %s instead of %s" % ([a for a, b in zip(r[-n:], h[-n:]) if a != b][:1], [b for a, b in zip(r[-n:], h[-n:]) if a != b][:1]))
    return True


def judge_later(rec, kind, c, h, pre, k, e, r, r0):
    """Failures during search leave the program alone: later solve calls deliver the models of the healthy run."""
    def check(r):
        r = r[1:]
        at, ops = faulty(c, h, pre, k, e)
        if "!injected" not in r[at]: return None
        j = at
        for i in range(at + 1, len(c.prefix)):
            if not c.prefix[i].startswith("solve\t"): continue
            j += 1
            if any(x.startswith("ground") for x in c.prefix[at + 1:i]): continue
            if sols(r[j]) != sols(h[i]): return "%r delivers %d models instead of %d" % (c.prefix[i], len(sols(r[j])), len(sols(h[i])))
        return ""
    if isinstance(r0, D.Crash) or check(r0) != "":
        rec.count("later_skipped_engine_disagrees")
        return
    m = check(r)
    rec.count("later_solves")
    if m: rec.violation(f"{kind}-{pre.strip()}-later", f"{kind}: after the failure of {pre.strip()!r} (invocation {k}): {m}\nprogram:\n{c.prg}", {"driver": kind, "ops": faulty(c, h, pre, k, e)[1]})


# ---- callbacks that cannot report failures to the library: the process ends with the message (or the error is ignored: C++ logger)

def noreturn(chk):
    base = [D.op("new", "0", "0"), D.op("prop", "P", "watch +a -", "watch -a -", "mode both"), D.op("add", "base", "", D.enc("{a;b}. x :- undefined. #minimize{1:a}.")), D.op("ground", "base"),
            D.op("solve", "cb", "", "0"), D.op("ustats", "Su{a=1}"), D.op("del", "0")]
    jobs = []
    for kind in KINDS:
        for pre in ("log", "F ", "U ", "ustats", "Pundo"):
            if kind == "lua" and pre in ("U ",): continue
            for k in (1, 2): jobs.append((kind, pre, k))

    def one(j):
        kind, pre, k = j
        ops = [D.op("failat", D.enc(pre), str(k), "0"), *base, D.op("nofail"), D.op("new", "1", "0")]
        cmd, env = D.command(kind)
        p = vf.run(cmd, stdin=("#0\n" + "".join(l + "\n" for l in ops)).encode(), env=env, timeout=60)
        return j, ops, p
    for (kind, pre, k), ops, p in vf.parallel(one, jobs):
        lines = p.out.split("\n")
        replay = {"driver": kind, "ops": ops}
        def bad(key, m): chk.violation(f"{kind}-{pre.strip()}-{key}", f"{kind}: {pre.strip()!r} failing at invocation {k}: {m}\nstderr: {p.err[-800:]}", replay)
        inj = "!injected" in lines or (p.rc != 0 and not p.timeout)
        if p.timeout:
            bad("hang", "the process did not end")
            continue
        if not inj: continue
        chk.count("noreturn_%s_%s" % (kind, pre.strip()))
        chk.case((kind, pre, k, "noreturn"))
        if kind == "cc" and pre == "log":
            if p.rc != 0 or any(l.startswith("ERR") for l in lines): bad("notignored", "exit code %s, %s" % (p.rc, [l for l in lines if l.startswith("ERR")]))
            continue
        if p.rc == 0: bad("lost", "the failure was lost: %s" % lines[-4:])
        elif p.rc == -11: bad("crash", "the process crashed")
        elif ("injected-%d" % k) not in p.err: bad("message", "the message of the failure is missing")


if __name__ == "__main__":
    vf.main(run, "P08", rule="a violation is an operation whose callback failed and that did not report exactly this failure, a failure reported again later, a log that differs from the healthy run before the fault, a crash or hang, or a fresh control that behaves differently afterwards")
