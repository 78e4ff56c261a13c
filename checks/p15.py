#!/usr/bin/env python3
"""P15: applications: options, hooks, output, exit codes; every case is one process per interface.

Scripted applications (drv/app.py, drv/app.cc) record every hook call. The expected history is computed from the command line, and the
same history, output and exit code is required from the reference application built over the installed headers; the plain solver gives
models and exit codes."""
import os, re, sys, json, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, asp, drivers as D

PY, CC, REF, APP = {}, {}, {}, {}
CLINGO = "/usr/bin/clingo"
NAMES = ["zopt", "zmul", "zval", "zalpha", "zzz-long-option-name", "zx1", "z-y"]
SHORT = list("zyZYxX")
VALUES = ["1", "a", "", "a b", "x=y", "=", "--", "-1", "ä€", "\"q\"", "'s'", "a,b", "bad", "0", "%d", "%s", "no", "yes", "\\n", "x" * 300, "{}", "🙂", "a\tb", "*"]
TERMS = ["3", "-7", "x", "f(1,a)", "(1,2)", "\"s t\"", "#inf", "#sup", "1+2", "-f(x)", "\"\"", "3**2", "\"a\\nb\"", "f(\"\\\\\")", "(7,)"]
TERMV = {"1+2": "3", "3**2": "9"}


class Case:
    """bad: the first reason for which the command line or a hook must be refused."""
    bads = ()

    @property
    def bad(self): return self.bads[0] if self.bads else None

    @bad.setter
    def bad(self, x):
        if x: self.bads = (*self.bads, x)


def program(rng):
    r = rng.random()
    if r < 0.1: return "a. :- a.\n", 0
    if r < 0.3:
        n = rng.randint(0, 5)
        return "{x(1..%d)}. %s\n" % (n, rng.choice(["", ":- #count{X:x(X)} > 1.", "#minimize{1,X:x(X)}. :- not x(1).", "#show. #show y(X):x(X).", "#maximize{X@X,X:x(X)}.", "#project x(1). #show x/1."])), 0
    p = asp.gen(rng, n=rng.randint(2, 5), nrules=rng.randint(2, 6))
    return p.text() + "\n", 0


def gen(rng):
    c = Case()
    names, shorts = NAMES[:], SHORT[:]
    rng.shuffle(names), rng.shuffle(shorts)
    c.spec, c.argv, c.items = [], [], []
    bare = rng.random() < 0.08      # an empty command line
    named = rng.choice(["instance", "class", "property", "sub"])
    sp = {"named": named, "register": "ok", "validate": "ok", "main": "plain", "print": "-", "logger": "-"}
    if rng.random() < 0.7: sp["name"] = D.enc(rng.choice(["myapp", "a-b", "x" * 40, "ü", "my app"]))
    if rng.random() < 0.7: sp["version"] = D.enc(rng.choice(["1.2.3", "", "0", "10.0-beta", "v ü"]))
    c.limit = 20
    if rng.random() < 0.5: sp["limit"] = str(rng.choice([0, 1, 2, 3, 5, 19, 20, 21, 40])); c.limit = int(sp["limit"])
    groups = rng.sample(["Group", "My Options", "G ü", "Basic Options"], 2)
    for i in range(0 if bare else rng.randint(0, 5)):
        n = names.pop()
        if rng.random() < 0.35: n += "," + shorts.pop()
        if rng.random() < 0.3:
            c.items.append(["flag", D.enc(rng.choice(groups)), n.split(",")[0], D.enc(rng.choice(["Some flag", "Flag: %D ü", ""])), rng.choice("01")])
        else:
            c.items.append(["opt", D.enc(rng.choice(groups)), n, D.enc(rng.choice(["An option", "Other: x"])), rng.choice("01"), rng.choice(["-", "-", D.enc("<n>"), D.enc("VALUE")]), rng.choice(["ok"] * 8 + ["rejbad"] * 3 + ["reject", "raise"])])
    flags = {f[2]: f[4] == "1" for f in c.items if f[0] == "flag"}
    c.parse, c.bad, used = [], None, set()
    seenflag = {}
    for _ in range(rng.randint(0, 6) if c.items else 0):
        f = rng.choice(c.items)
        n, _, s = f[2].partition(",")
        if f[0] == "flag":
            if n in seenflag and rng.random() < 0.9: continue
            k = rng.random()
            if k < 0.6: c.argv.append("--" + n); v = True
            elif k < 0.93: c.argv.append("--no-" + n); v = False
            else: c.argv.append("--%s=%s" % (n, rng.choice(["yes", "no", "1", "maybe"]))); c.bad = "flagvalue"; continue
            if n in seenflag: c.bad = "flagtwice"
            seenflag[n] = 1
            flags[n] = v
            continue
        if f[4] == "0" and f[2] in used and rng.random() < 0.85: continue
        v = rng.choice(VALUES)
        k = rng.random()
        if k < 0.5 and v: c.argv.append("--%s=%s" % (n, v))
        elif k < 0.75 and v and not v.startswith("-"): c.argv += ["--" + n, v]
        elif s and v and not v.startswith("-"):
            if rng.random() < 0.5 : c.argv.append("-%s%s" % (s, v)) if not v.startswith("=") else c.argv.extend(["-" + s, v])
            else: c.argv += ["-" + s, v]
        elif v: c.argv.append("--%s=%s" % (n, v))
        else: continue
        if f[4] == "0" and f[2] in used: c.bad = "repeated"
        used.add(f[2])
        if f[6] == "reject" or f[6] == "rejbad" and v == "bad": c.bad = "rejected"
        if f[6] == "raise": c.bad = "raised"
        c.parse.append("parse %s %s" % (f[2], D.enc(v)))
    c.flags = " ".join("%s=%d" % x for x in flags.items())
    if not bare and rng.random() < 0.06: c.argv.append(rng.choice(["--zz-unknown", "--zz-unknown=3", "-Q", "--models=x", "--opt-mode=foo"])); c.bad = "unknown"
    elif rng.random() < 0.07: sp["register"] = "raise"; c.bad = "register"
    elif rng.random() < 0.08: sp["validate"] = rng.choice(["false", "raise"]); c.bad = "validate"
    elif rng.random() < 0.1: sp["register"] = "-" if not c.items else "ok"
    elif rng.random() < 0.1: sp["validate"] = "-"
    sp["main"] = rng.choice(["plain"] * 8 + ["extra", "noground", "nosolve", "raise-before", "raise-mid", "raise-after", "yield", "multi"])
    sp["print"] = rng.choice(["-", "default", "custom", "both", "twice", "none"])
    sp["logger"] = rng.choice(["-", "ok"])
    # engine options
    c.engine = []
    c.n = rng.choice([None, 0, 0, 1, 2, 3])
    if c.n is not None: c.engine += rng.choice([[str(c.n)], ["-n", str(c.n)], ["--models=%d" % c.n]])
    c.const = None
    if rng.random() < 0.4:
        t = rng.choice(TERMS)
        c.const = TERMV.get(t, t)
        c.engine += rng.choice([["-c", "c=" + t], ["--const", "c=" + t], ["-cc=" + t], ["--const=c=" + t]])
    if rng.random() < 0.15: c.engine += [rng.choice(["--outf=0", "--outf=1", "--outf=2", "--outf=3", "--verbose=0", "--quiet=1", "-q", "--verbose=2", "--warn=none", "--stats", "--opt-mode=optN", "-Wnone", "--warn=no-atom-undefined"])]
    if bare: c.engine, c.n, c.const = [], None, None
    # files
    nfiles = 0 if bare else rng.choice([0, 1, 1, 1, 2, 3])
    c.files, c.stdin = [], ""
    text, _ = program(rng)
    parts = [text]
    warn = rng.choice([0, 0, 0, 1, 4, 25])
    for i in range(warn): parts.append("w%d :- undef_%d.\n" % (i, i))
    if c.const is None and rng.random() < 0.5: parts.append("#const c=%s.\n" % rng.choice(TERMS))
    if rng.random() < 0.5: parts.append("cval(c).\n")
    rng.shuffle(parts)
    if nfiles == 0: c.stdin = "".join(parts)
    else:
        texts = [""] * nfiles
        for p in parts: texts[rng.randrange(nfiles)] += p
        for i, t in enumerate(texts): c.files.append((rng.choice(["p%d.lp", "my file %d.lp", "ü%d.lp", "-p%d.lp"[1:], "x%d"]) % i, t))
        if rng.random() < 0.06: c.files.append(("missing.lp", None)); c.bad = "missing"
        if rng.random() < 0.06: c.files.insert(0, ("syntax.lp", "a :- b c.\n"))
    pos = rng.choice(["front", "back", "mixed"])
    eng = c.engine
    if c.n is not None and eng[0] == str(c.n): c.cmd0, eng = [eng[0]], eng[1:]
    else: c.cmd0 = []
    fl = [f for f, _ in c.files]
    if pos == "front": c.cmd = c.cmd0 + fl + eng + c.argv
    elif pos == "back": c.cmd = c.argv + eng + c.cmd0 + fl
    else: c.cmd = fl[:1] + c.argv + c.cmd0 + eng + fl[1:]
    c.plain = fl + c.cmd0 + eng
    c.sp = sp
    c.mode = rng.choice(["argv", "-"])
    if c.mode == "argv": sp["args"] = "argv"
    c.spectext = "\n".join(["%s\t%s" % x for x in sp.items()] + ["\t".join(f) for f in c.items]) + "\n"
    return c


def norm(out):
    """The solver's output without times and program identification."""
    r = []
    for l in out.split("\n"):
        if re.match(r"(CPU )?Time +:", l): continue
        if re.search(r' version ', l): continue
        l = re.sub(r'"(Total|Solve|Model|Unsat|CPU|Time)": [0-9.]+', r'"\1": 0', l)
        l = re.sub(r"^% (clingo|gringo|.*) version.*", "", l)
        l = re.sub(r"\d+\.\d{2,}s?", "T", l)
        l = re.sub(r'"(Solver|Input)": .*', r'"\1"', l)
        r.append(l)
    return "\n".join(r)


def execute(cmd, c, work, env):
    log = os.path.join(work, "log")
    with open(os.path.join(work, "spec"), "w") as f: f.write(c.spectext)
    env = dict(env, APP_SPEC=os.path.join(work, "spec"), APP_LOG=log)
    open(log, "w").close()
    p = vf.run(["stdbuf", "-oL", *cmd], stdin=c.stdin, env=env, cwd=work, timeout=60)
    p.log = open(log, errors="backslashreplace").read().split("\n")[:-1]
    return p


def one(rec, rng, work):
    c = gen(rng)
    for f, t in c.files:
        if t is not None: open(os.path.join(work, f), "w").write(t)
    ref = execute([REF["app"], *c.cmd], c, work, vf.base_env())
    runs = {"cc": execute([CC["app"], *c.cmd], c, work, vf.base_env())}
    runs["py"] = execute([vf.PY, vf.VERIF + "/drv/app.py", *c.cmd], c, work, vf.py_env(PY["dir"]))
    plain = vf.run(["stdbuf", "-oL", CLINGO, *c.plain], stdin=c.stdin, env=vf.base_env(), cwd=work, timeout=60)
    rep = {"spec": c.spectext, "cmd": c.cmd, "stdin": c.stdin, "files": c.files}
    if ref.timeout or plain.timeout:
        rec.note("reference timed out")
        return

    def bad(kind, key, what, p):
        rec.violation("%s-%s" % (kind, key), "%s\ncmd: %s\nspec: %s\nlog: %s\nreflog: %s\nrc %s (reference %s, plain %s)\nstderr: %s" % (what, c.cmd, c.spectext[:500], p.log[-12:], ref.log[-12:], p.rc, ref.rc, plain.rc, p.err[-700:]), rep)
    # the explicit expectation, from the command line alone
    broken = any(t is None for _, t in c.files) or any(f == "syntax.lp" for f, _ in c.files)
    pre = ([] if c.sp["register"] == "-" else ["register"])
    full = pre + c.parse + ([] if c.sp["validate"] == "-" else ["validate " + c.flags])
    refbad = [l for l in ref.log if l.startswith("exit")] != ["exit %d" % ref.rc]
    for kind, p in runs.items():
        rec.count("runs")
        rec.count("hook_calls", len(p.log))
        if p.timeout: bad(kind, "hang", "did not finish", p); continue
        if p.crashed: bad(kind, "crash", "died with a signal", p); continue
        if "BAD flag" in p.log: bad(kind, "flag", "Flag does not hold its value", p)
        body = [l for l in p.log if not l.startswith("exit")]
        mainreached = any(l.split(" ")[0] == "main" for l in body)
        if c.bad:
            if p.rc in (10, 20, 30) or p.rc == 0 and c.bad != "validate": bad(kind, "accepted-" + c.bad, "an erroneous command line or failing hook ended in exit code %s" % p.rc, p)
            if mainreached: bad(kind, "main-after-" + c.bad, "main ran in spite of %s" % c.bad, p)
            if not p.err.strip(): bad(kind, "silent-" + c.bad, "no message", p)
            if len(c.bads) > 1: rec.case((kind, c.bads)); continue
            if c.bad == "raised" and kind == "py" and "parser-failed" not in p.err: bad(kind, "message-raised", "the error is not reported", p)
            if c.bad == "register" and "register-failed" not in p.err: bad(kind, "message-register", "the error is not reported", p)
            if c.bad == "validate" and c.sp["validate"] == "raise" and "validate-failed" not in p.err: bad(kind, "message-validate", "the error is not reported", p)
            # the history is a prefix of the full one
            if body != full[:len(body)]: bad(kind, "history-" + c.bad, "expected a prefix of %s" % full, p)
            if c.bad == "validate" and body != full: bad(kind, "history-validate", "expected %s" % full, p)
            rec.case((kind, c.bad))
            continue
        main = ["main" + "".join(" " + D.enc(f) for f, _ in c.files), "flags" + " " + c.flags]
        got = [l for l in body[:len(full)]]
        if got != full: bad(kind, "history-hooks", "expected %s" % full, p); continue
        if body[len(full):len(full) + 2] != main: bad(kind, "history-main", "expected %s" % main, p); continue
        rest = body[len(full) + 2:]
        m = c.sp["main"]
        if m.startswith("raise") or broken:
            if p.rc in (0, 10, 20, 30): bad(kind, "main-failed-rc", "main failed but the exit code is %s" % p.rc, p)
            if m.startswith("raise") and not broken and "main-failed" not in p.err: bad(kind, "main-failed-message", "the error is not reported", p)
            if not p.err.strip(): bad(kind, "main-failed-silent", "no message", p)
        logs = [l for l in rest if l.startswith("log ")]
        if m != "raise-before" and not broken:
            cv = [l for l in rest if l.startswith("const ")]
            if c.const is not None and cv != ["const " + c.const]: bad(kind, "const", "expected const %s" % c.const, p)
        if len(logs) > c.limit + 1: bad(kind, "limit", "%d messages for limit %d" % (len(logs), c.limit), p)
        infos = len(re.findall(r": info: ", p.err))
        if infos > c.limit + 1: bad(kind, "limit", "%d messages for limit %d" % (infos, c.limit), p)
        # print hook once per model, in order
        if c.sp["print"] != "-" and m == "plain" and not broken:
            ans = re.findall(r"^Answer: (\d+)\n(.*)$", plain.out, re.M)
            pr = [l for l in rest if l.startswith("print ")]
            if not any(o in c.plain for o in ("--outf=1", "--outf=2", "--outf=3", "-q", "--quiet=1", "--verbose=0", "--opt-mode=optN")) and "Optim" not in plain.out:
                if len(pr) != len(ans): bad(kind, "print", "expected %d calls" % len(ans), p)
                if [x.split()[1] for x in pr] != [str(i + 1) for i in range(len(pr))]: bad(kind, "print-number", "models are not numbered in order", p)
                key = lambda t: " ".join(sorted(t.split()))
                if c.n == 0 and sorted(key(a) for _, a in ans) != sorted(key(x.partition(" ")[2].partition(" ")[2]) for x in pr): bad(kind, "print-models", "expected %s" % (ans,), p)
            if c.sp["print"] == "custom" and p.out.count("CUSTOM ") != len(pr): bad(kind, "print-custom", "%d custom lines for %d calls" % (p.out.count("CUSTOM "), len(pr)), p)
            rec.count("models", len(pr))
        if m == "plain" and not broken:
            if "--opt-mode=optN" not in c.plain and p.rc != plain.rc and not (c.n != 0 and {p.rc, plain.rc} == {10, 30}): bad(kind, "exit-code", "plain solver ends with %s" % plain.rc, p)
            if c.sp["print"] in ("-", "default") and c.n == 0 and "--stats" not in c.plain and "--verbose=2" not in c.plain and "Optim" not in plain.out and sorted(norm(p.out).split("\n")) != sorted(norm(plain.out).split("\n")): bad(kind, "stdout-plain", "output differs from the plain solver:\n%s\n---\n%s" % (norm(p.out)[-900:], norm(plain.out)[-900:]), p)
        # differential
        if not refbad:
            if p.log != ref.log:
                i = next((i for i, (a, b) in enumerate(zip(p.log, ref.log)) if a != b), min(len(p.log), len(ref.log)))
                bad(kind, "log", "history differs at %d: %s / %s" % (i, p.log[i:i + 2], ref.log[i:i + 2]), p)
            if p.rc != ref.rc: bad(kind, "exit-ref", "exit code", p)
            if norm(p.out) != norm(ref.out): bad(kind, "stdout", "output differs\n%s\n---\n%s" % (norm(p.out)[-900:], norm(ref.out)[-900:]), p)
            nm = lambda e: re.sub(r"0x[0-9a-f]+", "", e)
            if kind == "cc" and nm(p.err) != nm(ref.err): bad(kind, "stderr", "reference stderr: %s" % ref.err[-500:], p)
            vers = lambda o: [l for l in o.split("\n") if " version " in l and "Solver" not in l]
            if "version" in c.sp and vers(p.out) != vers(ref.out): bad(kind, "version-line", "%s / %s" % (vers(p.out), vers(ref.out)), p)
        rec.case((kind, c.cmd, c.spectext), sample={"cmd": c.cmd, "log": p.log[:8]})


def help_case(rec, rng, work):
    """--help and --version show the application's own name, options, groups, arguments and descriptions."""
    c = gen(rng)
    c.sp["register"], c.sp["validate"] = "ok", "ok"
    for f in c.items:
        if f[0] == "opt": f[6] = "ok"
    c.spectext = "\n".join(["%s\t%s" % x for x in c.sp.items()] + ["\t".join(f) for f in c.items]) + "\n"
    c.stdin = "a.\n"
    for args in (["--help=3"], ["--help"], ["--version"], ["-h", "--verbose=0"]):
        ref = execute([REF["app"], *args], c, work, vf.base_env())
        for kind, cmd, env in (("cc", [CC["app"]], vf.base_env()), ("py", [vf.PY, vf.VERIF + "/drv/app.py"], vf.py_env(PY["dir"]))):
            p = execute([*cmd, *args], c, work, env)
            rec.count("runs")
            ver = (lambda o: o) if "version" in c.sp else lambda o: re.sub(r"^(%s version) .*" % re.escape(D.dec(c.sp.get("name", "clingo"))), r"\1", o)
            if ver(p.out) != ver(ref.out) or p.rc != ref.rc or p.log != ref.log:
                rec.violation("%s-help" % kind, "%s %s\n%s\n%s\n%s / %s" % (args, c.spectext, p.out[-1500:], ref.out[-1500:], p.log, ref.log), {"spec": c.spectext, "args": args})
            if p.rc != 0: rec.violation("%s-help-rc" % kind, "exit %s\n%s" % (p.rc, p.err[-400:]), {"spec": c.spectext, "args": args})
            if args == ["--help=3"]:
                for f in c.items:
                    n = f[2].split(",")[0]
                    g = D.dec(f[1])
                    if "--" + n not in p.out and "--[no-]" + n not in p.out or (g + (":" if "Options" not in g else "")) not in p.out:
                        rec.violation("%s-help-option" % kind, "option %s of group %s is not shown\n%s" % (n, g, p.out[-1200:]), {"spec": c.spectext})
            rec.case((kind, args, c.spectext))


SCRIPTS = [("fun", "#script (python)\nimport clingo\ndef f(x): return clingo.Number(x.number+1)\n#end.\nq(@f(1)).\n"),
           ("main", "#script (python)\ndef main(c):\n  c.ground([('base',[])])\n  c.solve()\n  print('from main', flush=True)\n  c.solve()\n#end.\n"),
           ("fun", "#script (lua)\nfunction f(x) return clingo.Number(x.number+1) end\n#end.\nq(@f(1)).\n"),
           ("main", "#script (lua)\nfunction main(c)\n  c:ground({{'base',{}}})\n  c:solve()\n  io.write('from main\\n') io.flush()\n  c:solve()\nend\n#end.\n"),
           ("fail", "#script (python)\ndef main(c):\n  raise RuntimeError('script-failed')\n#end.\n"),
           ("fail", "#script (lua)\nfunction main(c) error('script-failed') end\n#end.\n"),
           ("fail", "#script (python)\nsyntax error here\n#end.\n"),
           ("fail", "#script (lua)\nsyntax error here\n#end.\n")]


def special(rec, rng, work):
    """Applications without main, the python -m clingo application, and the clingo application itself, against the plain solver."""
    text, _ = program(rng)
    kind0, script = rng.choice([("", "")] * 6 + SCRIPTS)
    n = rng.choice([[], ["0"], ["2"]])
    stdin = rng.random() < 0.3
    inner = text + {"fun": "q(2).\n"}.get(kind0, "")  # the same program for the plain solver, which has no scripts
    text += script
    open(os.path.join(work, "prog.lp"), "w").write(text)
    os.makedirs(os.path.join(work, "plain"))
    open(os.path.join(work, "plain", "prog.lp"), "w").write(inner)
    files = [] if stdin else ["prog.lp"]
    extra = rng.choice([[], [], ["--outf=2"], ["--text"], ["--outf=1"], ["--mode=gringo"], ["-c", "k=1"], ["--stats"], ["--opt-mode=optN"], ["-q1"], ["--time-limit=50"], ["--enum-mode=brave"], ["--enum-mode=cautious"], ["--output=reify"], ["--verbose=0"]])
    if kind0 in ("main", "fail"): extra = []
    rep = {"text": text, "n": n, "stdin": stdin, "extra": extra}
    args = n + files + extra
    plain = vf.run(["stdbuf", "-oL", CLINGO, *args], stdin=inner if stdin else None, env=vf.base_env(), cwd=os.path.join(work, "plain"))
    todo = [("app", [APP["exe"]], vf.py_env(PY["dir"]))]
    inc = any(o in extra for o in ("--mode=gringo", "--output=reify", "--text", "--outf=1", "--enum-mode=brave", "--enum-mode=cautious", "--opt-mode=optN", "--stats"))
    if not inc and "lua" not in script and kind0 in ("", "fun"): todo.append(("pymod", [vf.PY, "-m", "clingo"] + (["--enable-python"] if script or rng.random() < 0.3 else []), vf.py_env(PY["dir"])))
    if not script and not inc:
        todo.append(("nomain", [vf.PY, vf.VERIF + "/drv/app.py"], vf.py_env(PY["dir"])))
        open(os.path.join(work, "spec"), "w").write("named\tinstance\nregister\t-\nvalidate\t-\nmain\t-\nprint\t-\nlogger\t-\n")
    for kind, cmd, env in todo:
        env = dict(env, APP_SPEC=os.path.join(work, "spec"), APP_LOG=os.path.join(work, "log"))
        p = vf.run(["stdbuf", "-oL", *cmd, *args], stdin=text if stdin else None, env=env, cwd=work)
        rec.count("runs")
        rec.case((kind, text, args))
        if p.timeout or p.crashed: rec.violation(kind + "-crash", "rc %s\n%s" % (p.rc, p.err[-600:]), rep)
        elif kind0 == "fail":
            if p.rc in (0, 10, 20, 30): rec.violation(kind + "-script-rc", "a failing script ended in exit code %s\n%s" % (p.rc, p.err[-500:]), rep)
            if ("script-failed" if "script-failed" in script else "SyntaxError") not in p.err: rec.violation(kind + "-script-message", "the script's error is not reported\n%s" % p.err[-500:], rep)
        elif p.rc != plain.rc and not (n != ["0"] and {p.rc, plain.rc} == {10, 30}): rec.violation(kind + "-exit", "exit code %s, plain solver %s\n%s\n%s" % (p.rc, plain.rc, args, p.err[-600:]), rep)
        elif kind0 == "main":
            k = p.out.split("from main\n")
            ans = lambda o: re.sub(r"Answer: .*", "", norm(o))
            if len(k) != 2 or p.out.count("Solving...") != 2 or p.out.count("Answer:") != 2 * plain.out.count("Answer:") and "Optimi" not in plain.out:
                rec.violation(kind + "-main", "the script's main did not run as written\n%s" % p.out[-900:], rep)
        elif (inc or n == ["0"]) and "Optim" not in plain.out and sorted(norm(p.out).split("\n")) != sorted(norm(plain.out).split("\n")): rec.violation(kind + "-stdout", "output differs from the plain solver\n%s\n---\n%s\n%s" % (norm(p.out)[-900:], norm(plain.out)[-900:], args), rep)


def body(chk):
    PY["dir"] = vf.build_py()
    CC["app"] = vf.build_cc("app", vf.VERIF + "/drv/app.cc")
    REF["app"] = vf.build_ref("app", vf.VERIF + "/drv/app.cc")
    APP["exe"] = vf.build_app()
    n = vf.scale(60, 900)

    def shard(rec, i):
        work = vf.tmpdir("p15-")
        try:
            for k in range(n):
                for fn in ((one,) * 4 + (special,)) if k % 4 else (one, special, help_case):
                    w = os.path.join(work, "w")
                    os.makedirs(w)
                    fn(rec, rec.rng, w)
                    shutil.rmtree(w)
        finally: shutil.rmtree(work, ignore_errors=True)
    vf.shards(chk, shard, 8)
    chk.assumptions += ["the plain solver (installed clingo) and the application built over the installed headers are right about models, output and exit codes"]


if __name__ == "__main__":
    vf.main(body, "P15", "exploration", "distinct = different (interface, command line, application specification); every case compares the recorded hook history, output and exit code")
