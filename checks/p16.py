#!/usr/bin/env python3
"""P16: arguments and results of external functions, called from context objects, callbacks, embedded scripts and registered scripts.

The generator keeps every term as a structure, evaluates the calls itself, and compares the call log and the resulting atoms."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, scen, symgen as SG, drivers as D

KINDS = ("py", "cc", "lua")
RETS = ["echo", "first", "none", "tuple", "nargs", "wrap", "each", "dup", "gen", "many", "fix"]


def F(name, args, pos=True): return ("f", name, pos, tuple(args))
def N(n): return ("n", n)


def apply(ret, args):
    """The list of results of a function specification."""
    if ret in ("echo", "gen"): return list(args)
    if ret == "first": return [args[0]]
    if ret == "none": return []
    if ret == "tuple": return [F("", args)]
    if ret == "nargs": return [N(len(args))]
    if ret == "wrap": return [F("w", args, not args)]
    if ret == "each": return [F("e", [a]) for a in args]
    if ret == "dup": return [args[0], args[0], N(1)]
    if ret == "many": return [F("m", [N(i)] + list(args)) for i in range(300)]
    return list(ret)


class Case: pass


def build(rng, scripted=False):
    """A program whose rules call f, g, h (arbitrary specifications)."""
    c = Case()
    vals = [SG.gen(rng, rng.choice([0, 1, 2])) for _ in range(rng.randint(1, 4))]
    if scripted: vals = [v for v in vals if "\r" not in SG.text(v)] or [N(1)]
    c.funs = {}
    for f in ["f", "g", "long_function_name'", "_h"]:
        r = rng.choice(RETS)
        if r == "fix": r = tuple(SG.gen(rng, rng.choice([0, 1, 2])) for _ in range(rng.randint(0, 4)))
        c.funs[f] = r
    c.calls, c.atoms, c.shown, c.ext = [], set(), set(), set()
    if all(r == "many" for r in c.funs.values()): c.funs["f"] = "echo"
    small = [f for f in c.funs if c.funs[f] != "many"]

    def call(f, args):
        if not args and c.funs[f] in ("first", "dup"): args = args + [N(0)]
        x = (f, tuple(args))
        if x not in c.calls: c.calls.append(x)
        return apply(c.funs[f], list(args))
    lines = ["d(%s)." % SG.text(v) for v in vals]
    for v in vals: c.atoms.add(SG.text(F("d", [v])))
    T = SG.text

    def atom(*a): c.atoms.add(T(F(*a)))

    def margs(f, n):
        """n argument terms, at least one where the function needs it"""
        return [SG.gen(rng, 1) for _ in range(max(n, 1) if c.funs[f] in ("first", "dup") else n)]
    c.parts = []
    for i in range(rng.randint(1, 4)):
        k = rng.choice(["body", "head", "fact", "nested", "multi", "cmp", "external", "show", "count", "pool", "interval", "part", "two", "swap"])
        f, g = rng.choice(small), rng.choice(small)
        r = "r%d" % i
        if k == "body":
            f = rng.choice(list(c.funs))
            lines.append("%s(X,Y) :- d(X), Y = @%s(X)." % (r, f))
            for v in vals:
                for y in call(f, [v]): atom(r, [v, y])
        elif k == "head":
            lines.append("%s(@%s(X),X) :- d(X)." % (r, f))
            for v in vals:
                for y in call(f, [v]): atom(r, [y, v])
        elif k == "fact":
            a = margs(f, rng.choice([0, 1, 2, 3, 8]))
            lines.append("%s(@%s(%s))." % (r, f, ",".join(map(T, a))))
            for y in call(f, a): atom(r, [y])
        elif k == "nested":
            lines.append("%s(X,@%s(@%s(X),1)) :- d(X)." % (r, f, g))
            for v in vals:
                for y in call(g, [v]):
                    for z in call(f, [y, N(1)]): atom(r, [v, z])
        elif k == "multi":
            a = margs(f, 2)
            lines.append("%s(Y) :- d(X), Y = @%s(%s,X,h(X),(X,))." % (r, f, ",".join(map(T, a))))
            for v in vals:
                for y in call(f, a + [v, F("h", [v]), F("", [v])]): atom(r, [y])
        elif k == "cmp":
            op = rng.choice(["=", "!=", "<", "<=", ">", ">="])
            lines.append("%s(X) :- d(X), @%s(X) %s X." % (r, f, op))
            for v in vals:
                for y in call(f, [v]):
                    s = SG.cmp(y, v)
                    if {"=": s == 0, "!=": s != 0, "<": s < 0, "<=": s <= 0, ">": s > 0, ">=": s >= 0}[op]: atom(r, [v])
        elif k == "external":
            lines.append("#external %s(@%s(X)) : d(X)." % (r, f))
            for v in vals:
                for y in call(f, [v]):
                    atom(r, [y])
                    c.ext.add(T(F(r, [y])))
        elif k == "show":
            lines.append("#show %s(@%s(X)) : d(X)." % (r, f))
            for v in vals:
                for y in call(f, [v]): c.shown.add(T(F(r, [y])))
        elif k == "count":
            lines.append("%s(S) :- S = #count { X,Y : d(X), Y = @%s(X) }." % (r, f))
            s = set()
            for v in vals:
                for y in call(f, [v]): s.add((v, y))
            atom(r, [N(len(s))])
        elif k == "pool":
            a, b = margs(f, 1) + margs(f, 1)
            lines.append("%s(@%s(%s;%s))." % (r, f, T(a), T(b)))
            for x in (a, b):
                for y in call(f, [x]): atom(r, [y])
        elif k == "interval":
            lo = rng.randint(-3, 3)
            hi = lo + rng.randint(-1, 3)
            lines.append("%s(@%s(%d..%d))." % (r, f, lo, hi))
            for x in range(lo, hi + 1):
                for y in call(f, [N(x)]): atom(r, [y])
        elif k == "part" and not scripted:
            a = SG.gen(rng, 2)
            c.parts.append(("part%d" % i, "%s(@%s(k))." % (r, f), a))
            for y in call(f, [a]): atom(r, [y])
        elif k == "two":
            lines.append("%s(@%s(X),@%s(X)) :- d(X)." % (r, f, g))
            for v in vals:
                for y in call(f, [v]):
                    for z in call(g, [v]): atom(r, [y, z])
                call(g, [v])
        elif k == "swap":
            lines.append("%s(@%s(X,Y)) :- d(X), d(Y)." % (r, f))
            for v in vals:
                for w in vals:
                    for y in call(f, [v, w]): atom(r, [y])
    rng.shuffle(lines)
    c.lines = lines
    c.text = "\n".join(lines) + "\n"
    c.mode = "ok"
    return c


def ops_of(c, rng):
    c.ops = [D.op("new", "0", "0"), D.op("add", "base", "", D.enc(c.text))]
    for n, t, a in c.parts: c.ops.append(D.op("add", n, "k", D.enc(t)))
    spec = lambda r: r if isinstance(r, str) else ";".join(map(SG.build, r)) if r else "none"
    fs = dict(c.funs)
    if rng.random() < 0.15 and c.calls:
        c.mode = rng.choice(["unknown", "fail"])
        f = rng.choice(c.calls)[0]
        c.bad = f
        if c.mode == "unknown": del fs[f]
        else:
            # fails at its n-th call
            fs[f] = "err"
    for f in fs: c.ops.append(D.op("extfun", f, spec(fs[f])))
    ps = [("base", [])] + [(n, [a]) for n, t, a in c.parts]
    if rng.random() < 0.3 and len(ps) > 1 and c.mode == "ok":
        for n, a in ps: c.ops.append(D.op("ground", ";".join([D.enc(n)] + list(map(SG.build, a)))))
    else: c.ops.append(D.op("ground", "|".join(";".join([D.enc(n)] + list(map(SG.build, a))) for n, a in ps)))
    c.g1 = len(c.ops)
    c.ops += ["satoms", D.op("solve", "cb", "", "1")]
    return c


def judge(rec, kind, c, r):
    replay = {"driver": kind, "ops": c.ops, "program": c.text}
    def bad(k, m): rec.violation(f"{kind}-{k}", f"{kind}: {m}\nprogram:\n{c.text}", replay)
    if isinstance(r, D.Crash): return bad("crash", r.what)
    for i, ls in enumerate(r):
        for l in scen.bad_lines(ls): bad(l, f"{l} in {c.ops[i]!r}")
    ground = [l for i, ls in enumerate(r) if c.ops[i].startswith("ground") for l in ls]
    calls = [l for l in ground if l.startswith("call ")]
    want = {"call %s %s" % (f, ";".join(map(SG.build, a)) or "-") for f, a in c.calls}
    err = [l for ls in r[:c.g1] for l in ls if l.startswith("ERR")]
    logs = [l for ls in r[:c.g1] for l in ls if l.startswith("log ")]
    if c.mode != "ok":
        rec.count("mode_" + c.mode)
        if not err: return bad(c.mode + "-lost", "grounding went through although a call %s" % ("had no function" if c.mode == "unknown" else "failed"))
        if c.mode == "fail" and kind != "ref" and not any("extfun" in l for l in err + logs): bad("fail-message", f"{err} {logs}")
        extra = set(calls) - want
        if extra: bad("calls", f"unexpected calls {sorted(extra)[:3]}")
        return
    if err or logs: return bad("error", f"{err[:2]} {logs[:2]}")
    if set(calls) != want: bad("calls", f"missing {sorted(want - set(calls))[:3]}, unexpected {sorted(set(calls) - want)[:3]}")
    sa = scen.satoms(r[c.g1])
    if not isinstance(sa, dict): return bad("satoms", sa)
    if set(sa) != c.atoms: bad("atoms", f"missing {sorted(c.atoms - set(sa))[:3]}, unexpected {sorted(set(sa) - c.atoms)[:3]}")
    ms = D.models(r[c.g1 + 1])
    if len(ms) != 1: bad("models", len(ms))
    elif set(ms[0].terms) != c.shown: bad("shown", f"missing {sorted(c.shown - set(ms[0].terms))[:3]}, unexpected {sorted(set(ms[0].terms) - c.shown)[:3]}")
    rec.count("calls", len(calls))
    rec.count("results", len(c.atoms))


# --- embedded scripts

def pycode(funs, tag):
    out = ["import os, clingo, clingo as _c", "def _log(x):", "    with open(os.environ['P16_LOG'], 'a', encoding='utf-8') as f: f.write(x.replace('\\n', '\\\\n') + '\\n')", "_log('load python %s')" % tag]
    B = {"echo": "return list(args)", "first": "return args[0]", "none": "return []", "tuple": "return clingo.Tuple_(args)", "nargs": "return clingo.Number(len(args))",
         "wrap": "return clingo.Function('w', args, not args)", "each": "return [clingo.Function('e', [a]) for a in args]", "dup": "return [args[0], args[0], clingo.Number(1)]",
         "gen": "return (a for a in reversed(args))", "many": "return [clingo.Function('m', [clingo.Number(i), *args]) for i in range(300)]"}
    for i, (f, r) in enumerate(funs.items()):
        body = B[r] if isinstance(r, str) else "return [clingo.parse_term(x) for x in %r]" % ([SG.text(x) for x in r],)
        out += ["def _f%s_%d(*args):" % (tag, i), "    _log(%r + ' | '.join(str(a) for a in args))" % ("call " + f + " "), "    " + body, "globals()[%r] = _f%s_%d" % (f, tag, i)]
    return "\n".join(out)


def luastr(t): return '"' + "".join("\\%03d" % b for b in t.encode()) + '"'


def luacode(funs, tag):
    out = ['local clingo = require("clingo")', "local function log(x) local f = io.open(os.getenv('P16_LOG'), 'a'); f:write((x:gsub('\\n', '\\\\n')) .. '\\n'); f:close() end", "log('load lua %s')" % tag]
    B = {"echo": "return a", "first": "return a[1]", "none": "return {}", "tuple": "return clingo.Tuple(a)", "nargs": "return clingo.Number(#a)",
         "wrap": "return clingo.Function('w', a, #a == 0)", "each": "local t = {}; for _, x in ipairs(a) do t[#t + 1] = clingo.Function('e', {x}) end; return t", "dup": "return {a[1], a[1], 1}",
         "gen": "local t = {}; for i, x in ipairs(a) do t['k' .. i] = x end; return t", "many": "local t = {}; for i = 0, 299 do t[i] = clingo.Function('m', {clingo.Number(i), table.unpack(a)}) end; return t"}
    for f, r in funs.items():
        body = B[r] if isinstance(r, str) else "return {%s}" % ",".join("clingo.parse_term(%s)" % luastr(SG.text(x)) for x in r)
        out += ["_G[%s] = function (...)" % luastr(f), "    local a = {...}", "    local s = {}", "    for i, x in ipairs(a) do s[i] = tostring(x) end", "    log(%s .. table.concat(s, ' | '))" % luastr("call " + f + " "), "    " + body, "end"]
    return "\n".join(out)


def tokens(line):
    """The atoms of an answer line, split at spaces outside strings."""
    res, cur, ins, i = [], "", False, 0
    while i < len(line):
        ch = line[i]
        if ins and ch == "\\":
            cur += line[i:i + 2]
            i += 2
            continue
        if ch == '"': ins = not ins
        if ch == " " and not ins:
            if cur: res.append(cur)
            cur = ""
        else: cur += ch
        i += 1
    if cur: res.append(cur)
    return res


def scripts(rec, idx):
    import shutil, tempfile
    rng = rec.rng
    app = vf.build_app()
    pyd, lua = vf.build_py(), vf.build_lua()
    d = tempfile.mkdtemp(prefix="p16-")
    try:
        for n in range(vf.scale(30, 300)):
            while True:
                c = build(rng, True)
                if not any(x in c.text + str(c.funs) for x in ("2147483648", "\\r", "\r", "\x01", "x" * 300)) and not any("\n" in str(x) for x in c.funs.values()): break
            for kind in ("app-py", "app-lua", "app-both", "py", "lua"):
                mode = rng.choice(["ok"] * 5 + ["unknown", "fail", "main", "syntax"])
                one(rec, rng, c, kind, mode, app, pyd, lua, d, "%d-%d" % (idx, n))
    finally: shutil.rmtree(d)


def one(rec, rng, c, kind, mode, app, pyd, lua, d, tag):
    if mode == "main" and not kind.startswith("app"): mode = "ok"
    langs = {"app-py": ["python"], "app-lua": ["lua"], "app-both": ["python", "lua"], "py": ["python"], "lua": ["lua"]}[kind]
    split = {l: {} for l in langs}
    for f, r in c.funs.items(): split[rng.choice(langs)][f] = r
    text = c.text
    blocks = []
    mainlang = rng.choice(langs)
    for l in langs:
        code = pycode(split[l], "x") if l == "python" else luacode(split[l], "x")
        if l == mainlang:
            if mode == "fail": code += "\ndef boom(x): raise RuntimeError('boom-' + str(x))" if l == "python" else "\nfunction boom(x) error('boom-' .. tostring(x)) end"
            if mode == "main":
                code += ("\ndef main(prg):\n    _log('main')\n    prg.ground([('base', [])])\n    prg.add('extra', ['k'], 'extra_atom(k).')\n    prg.ground([('extra', [clingo.Number(7)])])\n    for i in range(2): prg.solve()" if l == "python" else
                         "\nfunction main(prg)\n    log('main')\n    prg:ground({{'base', {}}})\n    prg:add('extra', {'k'}, 'extra_atom(k).')\n    prg:ground({{'extra', {7}}})\n    for i = 1, 2 do prg:solve() end\nend")
            if mode == "syntax": code += "\n)( syntax error"
        blocks.append("#script (%s)\n%s\n#end.\n" % (l, code))
    if mode == "fail": text += "fail_atom(@boom(42)).\n"
    if mode == "unknown": text += "unknown_atom(@no_such_function(42)).\nknown_atom.\n"
    parts = blocks + [text]
    rng.shuffle(parts)
    prg = "".join(parts)
    fn, log = d + "/prog.lp", d + "/log.txt"
    with open(fn, "w", encoding="utf-8") as f: f.write(prg)
    open(log, "w").close()
    if kind == "py": cmd, env = [vf.PY, f"{vf.VERIF}/drv/script_run.py", fn], vf.py_env(pyd)
    elif kind == "lua":
        cmd, env = ["lua5.4", f"{vf.VERIF}/drv/script_run.lua", fn], vf.base_env()
        env["LUA_CPATH"] = lua + "/?.so"
    else: cmd, env = [app, fn, "0", "--verbose=0"], vf.py_env(pyd)
    env["P16_LOG"] = log
    p = vf.run(cmd, env=env, timeout=60, cwd=d)
    with open(log, encoding="utf-8") as f: lg = f.read().splitlines()
    replay = {"program": prg, "runner": kind}
    def bad(k, m): rec.violation(f"script-{kind}-{k}", f"{kind} {mode}: {m}\nprogram:\n{prg}", replay)
    rec.count("script_" + mode)
    rec.count("scriptruns_" + kind)
    rec.case(prg, n=1)
    out = p.out.splitlines()
    app_ = kind.startswith("app")
    if p.timeout or p.rc < 0 or p.rc > 128: return bad("crash", f"exit {p.rc}: {p.err[-800:]}")
    if mode in ("fail", "syntax"):
        if app_ and p.rc not in (33, 65): bad("exit", f"exit code {p.rc} though the script failed: {p.out[-300:]} {p.err[-300:]}")
        if not app_ and not any(l.startswith("ERR") for l in out): bad("noerror", f"{out[-3:]}")
        if mode == "fail" and "boom-42" not in p.err + p.out: bad("message", f"the error of the script is not reported: {p.err[-600:]}")
        if any("fail_atom" in l for l in out if not app_ and l[:2] == "A "): bad("invented", "fail_atom")
        return
    calls = {l for l in lg if l.startswith("call ")}
    want = {"call %s %s" % (f, " | ".join(map(SG.text, a))) for f, a in c.calls}
    if mode == "syntax": return
    if calls != want:
        # the engine need not evaluate what cannot matter, but must not invent calls
        if calls - want or want - calls and not any(r in ("none", ()) for r in c.funs.values()): bad("calls", f"missing {sorted(want - calls)[:3]}, unexpected {sorted(calls - want)[:3]}")
    if sorted(l for l in lg if l.startswith("load ")) != sorted("load %s x" % l for l in langs): bad("loads", [l for l in lg if l.startswith("load")])
    if lg.count("main") != (mode == "main"): bad("main", f"main ran {lg.count('main')} times")
    exp = (c.atoms - c.ext) | c.shown | ({"known_atom"} if mode == "unknown" else set()) | ({"extra_atom(7)"} if mode == "main" else set())
    if app_:
        if p.rc not in (30, 10): bad("exit", f"exit code {p.rc}: {p.err[-500:]}")
        ans = [l for l in out if l and l not in ("SATISFIABLE", "UNKNOWN", "UNSATISFIABLE")]
        k = 2 if mode == "main" else 1
        if len(ans) != k and not (not exp): return bad("answers", f"{len(ans)} answers instead of {k}: {out[-4:]}")
        for a in ans:
            if set(tokens(a)) != exp: bad("atoms", f"missing {sorted(exp - set(tokens(a)))[:3]}, unexpected {sorted(set(tokens(a)) - exp)[:3]}")
        if mode == "unknown" and "no_such_function" not in p.err: bad("undefined", f"no message about the unknown function: {p.err[-300:]}")
        if mode != "unknown" and p.err.strip(): bad("stderr", p.err[-300:])
    else:
        if out.count("ANSWER") != 1: return bad("answers", out[-3:])
        got = {l[2:] for l in out if l[:2] in ("A ", "T ")}
        if got != exp: bad("atoms", f"missing {sorted(exp - got)[:3]}, unexpected {sorted(got - exp)[:3]}")
        logs = [l for l in out if l.startswith("LOG")]
        if (mode == "unknown") != any("no_such_function" in l for l in logs) or len(logs) != (mode == "unknown"): bad("log", logs)
    rec.count("script_calls", len(calls))


def check(chk):
    for k in KINDS + ("ref",): D.command(k)
    vf.build_app()
    n = vf.scale(1000, 8000)

    def shard(rec, idx):
        items = [ops_of(build(rec.rng), rec.rng) for _ in range(n)]
        cases = [i.ops for i in items]
        res = {k: D.run_batch(k, cases, timeout=600) for k in KINDS + ("ref",)}
        for i, c in enumerate(items):
            if scen.judged(rec, judge, cases[i], res["ref"][i], {k: res[k][i] for k in KINDS}, c):
                if c.mode == "ok": scen.differential(rec, cases[i], res["ref"][i], {k: res[k][i] for k in KINDS if k != "lua"})
                rec.case(c.text, n=3, sample={"program": c.text})
    vf.shards(chk, shard, 8)
    vf.shards(chk, scripts, 8)
    vf.py_batches(chk, vf.VERIF + "/checks/w16.py", vf.build_py(), [{"seed": vf.SEED * 100 + i, "n": vf.scale(120, 1200)} for i in range(4)])


TECHNIQUE = "runtime monitoring: call-log and result monitor for external functions over generated programs in contexts, callbacks, embedded and registered scripts"
if __name__ == "__main__": vf.main(check, "P16", rule="distinct programs with external calls")
