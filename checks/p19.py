#!/usr/bin/env python3
"""P19: messages of programs with planted problems.

The generator lays statements with known problems out at random (blanks, line breaks, comments, multi-byte characters) and keeps the offsets of the
offending parts, so that it can tell code, location and text of every message. Histories send such programs through every way into the library."""
import os, random, shutil, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, drivers as D
from drivers import enc, dec, op

# «..» marks the offending range, ~ layout, {n} a fresh number. (code, template, text of the message after "info: ")
INFO = [
    ("AtomUndefined", "a{n}~:-~«u{n}(1)»~.", "atom does not occur in any rule head:\n  u{n}(1)"),
    ("AtomUndefined", "a{n}~:-~not_«u{n}»~;~1~<~2~.", "atom does not occur in any rule head:\n  u{n}"),
    ("AtomUndefined", "{{~a{n}~:_«-u{n}(x,\"é\")»~}}~.", "atom does not occur in any rule head:\n  -u{n}(x,\"é\")"),
    ("AtomUndefined", ":-~«u{n}((1,2),f(a))»~.", "atom does not occur in any rule head:\n  u{n}((1,2),f(a))"),
    ("AtomUndefined", "«#show f{n}/1.»", "no atoms over signature occur in program:\n  f{n}/1"),
    ("AtomUndefined", "«#show -f{n}/0.»", "no atoms over signature occur in program:\n  -f{n}/0"),
    ("OperationUndefined", "b{n}(~«1~+~x{n}»~)~.", "operation undefined:\n  (1+x{n})"),
    ("OperationUndefined", "b{n}(X)~:-~X~=~«{n}~/~0»~.", "operation undefined:\n  ({n}/0)"),
    ("OperationUndefined", "b{n}(X)~:-~X~=~«{n}~\\~0»~.", "operation undefined:\n  ({n}\\0)"),
    ("OperationUndefined", "b{n}(~«|~x{n}~|»~)~.", "operation undefined:\n  |x{n}|"),
    ("OperationUndefined", "b{n}(~\"🌍\"~,~«x{n}~**~2»~)~.", "operation undefined:\n  (x{n}**2)"),
    ("OperationUndefined", "b{n}(~«1~..~x{n}»~)~.", "interval undefined:\n  1..x{n}"),
    ("OperationUndefined", "b{n}~:-~#sum~{{~«\"s{n}\"»~}}~>~0~.", "tuple ignored:\n  \"s{n}\""),
    ("OperationUndefined", "#minimize~{{~«x{n}»~@~1~}}~.", "tuple ignored:\n  x{n}@1"),
    ("OperationUndefined", "b{n}(~«@nofun{n}(1)»~)~.", "operation undefined:\n  function 'nofun{n}' not found"),
    ("OperationUndefined", "#const_k{n}~=~«1~+~x»~.~b{n}(k{n})~.", "operation undefined:\n  (1+x)"),
    ("GlobalVariable", "c{n}~:-~X{n}~=~1..2~,~#count~{{~«X{n}»~:~d{n}~}}~>~0~.~d{n}.", "global variable in tuple of aggregate element:\n  X{n}"),
    ("AtomUndefined", "#edge~(a,b)~:~«u{n}»~.", "atom does not occur in any rule head:\n  u{n}"),
]
CLEAN = ["ok{n}.", "ok{n}~:-~ok{n}b~.~{{ok{n}b}}~.", "ok{n}(1..3).~#show ok{n}/1.", "ok{n}(X)~:-~X~=~1..2~,~not_X=1~.", "#const_k{n}~=~3~+~{n}~.", "#external_e{n}~.~:-e{n}~.",
         "ok{n}(\"äöü%no comment\",\"\\\"\\n\\\\\").", "#minimize~{{~1@2,x~:~z{n}~}}~.~{{z{n}}}.", "#defined dd{n}/1~.~:-~dd{n}(1)~.", "#project pr{n}/1~.", "#heuristic_hh{n}~.~[1,true]", "ok{n}~:-~not_#false~."]
# errors: (template, texts the message has to contain; {L} is the first marked range, {M} the second)
ERROR = [
    ("p{n}(~X~«:-»~q{n}.", ["{L}: error: syntax error, unexpected :-"]),
    ("p{n}_p{n}b«.»", None),
    ("p{n}(~«$»~)~.", ["{L}: error: lexer error, unexpected $"]),
    ("«p{n}(~‹X›~)~:-~q{n}(1)~.»~q{n}(1).", ["{L}: error: unsafe variables in:\n  p{n}(X):-[#inc_base];q{n}(1).\n", "{M}: note: 'X' is unsafe\n"]),
    ("«a{n}~:-~not_b{n}(~‹Y{n}›~)~.»~{{b{n}(1)}}.", ["{L}: error: unsafe variables in:\n", "{M}: note: 'Y{n}' is unsafe\n"]),
    ("‹#const_x{n}~=~1~.›~«#const_x{n}~=~2~.»", ["{L}: error: redefinition of constant:\n  #const x{n}=2.\n", "{M}: note: constant also defined here\n"]),
    ("«#const_x{n}~=~y{n}~.»~#const_y{n}~=~x{n}~.", ["error: cyclic constant definition:\n"]),
    ("«#include_\"nofile{n}.lp\"~.»", ["{L}: error: file could not be opened:\n  nofile{n}.lp\n"]),
    ("a{n}.~«&foo{n}~{{~}}»~.", [": error: no definition found for theory atom:\n  foo{n}/0\n"]),
    ("a{n}~:-~«#sum~{{~X~:~q{n}~}}~>~0~.", None),
    ("«#theory_t{n}~{{~&a/0~:~x{n}~,~any~}}~.»~&a{{1}}.", None),
    ("p{n}(~\"abc~", None),
]
BLANK = ["", "", "", "", " ", " ", "  ", "\n", "\n\n", "\t", " % comment é, «\n", "%* block\n  comment *%", " %*%* nested *% \n*%\n", "\r\n"]


def lay(rng, template, n, base, name):
    """Text of a template at byte position base = (line, col); returns text, position, ranges by mark."""
    line, col = base
    out, open_, rngs = [], {}, {}
    def put(s):
        nonlocal line, col
        out.append(s)
        for b in s.encode():
            if b == 10: line, col = line + 1, 1
            else: col += 1
    t = template.format(n=n)
    instr = False
    for c in t:
        if c in "«‹": open_[c] = (line, col)
        elif c in "»›": rngs["«" if c == "»" else "‹"] = (open_["«" if c == "»" else "‹"], (line, col))
        elif c in "~_" and not instr: put((rng.choice(BLANK) if rng.random() < .6 else " ") or " " * (c == "_"))
        else:
            if c == '"': instr = not instr
            put(c)
    return "".join(out), (line, col), {k: loc(name, *v) for k, v in rngs.items()}


def loc(name, b, e):
    s = "%s:%d:%d" % (name, *b)
    if e[0] != b[0]: return s + "-%d:%d" % e
    return s + ("-%d" % e[1] if e[1] != b[1] else "")




def program(rng, name, k, error=False):
    """(text, [(code, message)], error parts or None)"""
    global serial
    pos, text, msgs, err = (1, 1), "", [], None
    at = rng.randrange(k + 1) if error else -1
    for i in range(k + 1):
        serial += 1
        if i == at:
            tpl, parts = rng.choice(ERROR)
            s, pos, r = lay(rng, tpl, serial, pos, name)
            err = [p.format(n=serial, L=r.get("«"), M=r.get("‹")) for p in parts] if parts else []
        elif rng.random() < .35: s, pos, r = lay(rng, rng.choice(CLEAN), serial, pos, name)
        else:
            code, tpl, m = rng.choice(INFO)
            s, pos, r = lay(rng, tpl, serial, pos, name)
            msgs.append((code, r["«"] + ": info: " + m.format(n=serial) + "\n"))
        text += s
        g, pos, _ = lay(rng, "~ ~", 0, pos, name)
        text += g
    return text, msgs, err


serial = 0
FLAGS = {"-Wno-atom-undefined": "AtomUndefined", "-Wno-operation-undefined": "OperationUndefined", "-Wno-global-variable": "GlobalVariable", "-Wno-file-included": "FileIncluded"}


def case(rng, wd, lua):
    """Ops, expectations {channel: (limit, {(code, message)}, errors)} and where the histories fail."""
    ops, exp, silent, perr = [], {}, set(), {}
    nf = 0
    def file(text, inc=None):
        nonlocal nf
        nf += 1
        fn = os.path.join(wd, "f%d-%d.lp" % (rng.randrange(1 << 40), nf))
        open(fn, "wb").write(text.encode())
        return fn
    for k in range(rng.choice([1, 1, 2, 3])):
        k = str(k)
        lg = "f" if rng.random() < .8 else "-"
        lim = rng.choice(["-", "-", "-", "0", "1", "2", "3", "5", "20", "1000", "4294967295" if not lua else "7"])
        args = rng.sample(sorted(FLAGS), rng.choice([1, 2])) if rng.random() < .25 else []
        if rng.random() < .07: args = ["-Wnone"]
        ops.append(op("new", k, lg, lim, ";".join(map(enc, args)) or "-"))
        msgs, err, limit = [], None, 20 if lim == "-" else int(lim)
        error = rng.random() < .35
        nadd = rng.choice([1, 1, 2])
        for j in range(nadd):
            how = rng.choice(["add", "add", "load", "load"] + ([] if lua else ["parse", "parsef"]))
            last = error and j == nadd - 1
            n = rng.choice([0, 1, 2, 3, 4, 8, 25])
            nm = {"add": "<block>", "parse": "<string>"}.get(how)
            if nm is None: nm = fn = file("")
            t, m, e = program(rng, nm, n, last)
            if nm != "<block>" and nm != "<string>": open(fn, "wb").write(t.encode())
            if how == "add": ops.append(op("add", k, enc(t)))
            elif how == "load":
                ops.append(op("load", k, enc(fn)))
            else:
                pl, plim = ("f", rng.choice(["-", "20", "1", "100"])) if rng.random() < .8 else ("-", "-")
                ops.append(op(how, k, pl, plim, enc(t) if how == "parse" else enc(fn)))
            if e is not None: err = e
            msgs += m
        ops.append(op("ground", k))
        if not error and rng.random() < .25 and not any("signature" in m or c == "GlobalVariable" for c, m in msgs):
            ops.append(op("part", k, "st", "t", enc("s(t). s(t) :- v(t,x).")))
            for i in range(rng.choice([1, 2])):
                ops.append(op("gpart", k, "st", str(i)))
                if i == 0: msgs.append(("AtomUndefined", "<block>:1:15-21: info: atom does not occur in any rule head:\n  v(#Inc0,x)\n"))
        off = {FLAGS[a] for a in args if a in FLAGS} | ({"AtomUndefined", "OperationUndefined", "GlobalVariable", "FileIncluded"} if "-Wnone" in args else set())
        exp["C" + k] = (limit, [m for m in msgs if m[0] not in off], err if error else None, lg)
        if rng.random() < .3: ops.append(op("del", k))
    for _ in range(rng.choice([0, 0, 1, 2])):
        lg = "f" if rng.random() < .75 else "-"
        lim = rng.choice(["-", "-", "0", "1", "50"]) if lg == "f" else "-"
        how = rng.choice(["term"] if lua else ["term", "string", "files"])
        if how == "term": ops.append(op("term", lg, lim, enc(rng.choice(["f(1+2,\"x\")", "f(", "1+x", "f(X)", "a b", "$", "(1,2,3)", "#inf", "1/0", "-f(x)", "", "f(\n\n1 1)"]))))
        elif how == "string":
            t, m, e = program(rng, "<string>", rng.randrange(4), rng.random() < .6)
            ops.append(op("string", lg, lim, enc(t)))
        else:
            fs = []
            for _ in range(rng.choice([1, 2, 3])):
                fn = file("")
                t, m, e = program(rng, fn, rng.randrange(3), rng.random() < .4)
                open(fn, "wb").write(t.encode())
                fs.append(fn)
            if rng.random() < .3: fs.append(fs[0])
            if rng.random() < .15: fs.append(os.path.join(wd, "missing.lp"))
            ops.append(op("files", lg, lim, ";".join(map(enc, fs))))
    return ops, exp


def judge(ops, exp, log):
    """Compares a log with the predictions; None or text."""
    ch = {}
    failed = {}
    cur = None
    for o, lines in zip(ops, log):
        f = o.split("\t")
        for l in lines:
            if l.startswith("M "):
                _, c, code, m = l.split(" ")
                ch.setdefault(c, []).append((code, dec(m)))
                if c != "P" and f[0] in ("string", "files", "term"): return f"{l} arrived during {f[0]}"
                if c != "P" and c != "C" + f[1]: return f"message for {c} while operating on control {f[1]}"
            if l.startswith("S ") and f[0] in ("new", "add", "load", "ground", "part", "gpart", "parse", "parsef"):
                ch.setdefault(("SP" if f[0].startswith("parse") else "S") + f[1], []).append(dec(l[2:]))
            if l.startswith("R err") and f[0] in ("add", "load", "ground", "part", "gpart", "parse", "parsef"): failed["C" + f[1]] = 1
            if l.startswith("BAD"): return l
    for c, (limit, msgs, err, lg) in exp.items():
        got = ch.get(c, [])
        if lg == "f":
            if "S" + c[1:] in ch: return f"output on stderr although there is a logger: {ch['S' + c[1:]]}"
        elif got: return f"messages {got} without a logger"
        text = "".join(ch.get("S" + c[1:], []))
        if err is None:
            if c in failed: return f"operations on control {c} failed although its programs have no errors: {ch}"
            if lg == "f":
                if len(got) != min(limit, len(msgs)): return f"{c}: {len(got)} messages, expected {min(limit, len(msgs))} (limit {limit}): got {got}, expected {msgs}"
                rest = list(msgs)
                for g in got:
                    if g not in rest: return f"{c}: unexpected message {g}; expected {rest}"
                    rest.remove(g)
            else:
                n = 0
                for _, m in msgs:
                    if m in text:
                        n += 1
                if n != min(limit, len(msgs)): return f"{c}: {n} of the messages on stderr, expected {min(limit, len(msgs))}: {text!r}, expected {msgs}"
                if not msgs and text: return f"{c}: output {text!r} for a program without problems"
        else:
            if c not in failed: return f"{c}: no operation failed although a program is broken: {err} {ch}"
            # errors may come through the logger of the parser of syntax trees
            al = "".join(m for k in (c, "P") for _, m in ch.get(k, [])) + text + "".join(ch.get("SP" + c[1:], []))
            if limit >= 50 and not any(m.split(":")[3:] and e[0] == "RuntimeError" for k in (c, "P") for e in ch.get(k, []) for m in [e[1]]) and "error: " not in al:
                return f"{c}: an error without a message: {al!r}"
            if limit >= 1000:
                for p in err:
                    if p not in al: return f"{c}: no message with {p!r}: {al!r}"
            for k in (c, "P"):
                for code, m in ch.get(k, []):
                    if (": error: " in m) != (code == "RuntimeError"): return f"{k}: code {code} for message {m!r}"
    return None


def run(kind, batch, wd):
    if kind == "lua": cmd, env = D.command("lua"); cmd = [cmd[0], f"{vf.VERIF}/drv/diag.lua"]
    elif kind == "py": cmd, env = D.command("py"); cmd = [*cmd[:-1], f"{vf.VERIF}/drv/diag.py"]
    elif kind == "cc": cmd, env = [vf.build_cc("diag", f"{vf.VERIF}/drv/diag.cc")], vf.base_env()
    else: cmd, env = [vf.build_ref("diag", f"{vf.VERIF}/drv/diag.cc")], vf.base_env()
    text = "".join("#%d\n" % i + "".join(o + "\n" for o in ops) for i, (ops, _) in enumerate(batch))
    p = vf.run(cmd, stdin=text.encode(), env=env, timeout=120, cwd=wd)
    res, cur, ol = [], None, []
    for line in p.out.split("\n"):
        if line.startswith("#"):
            res.append([])
            ol = []
        elif line == ".":
            res[-1].append(ol)
            ol = []
        elif line: ol.append(line)
    if p.rc != 0 or len(res) != len(batch) or (batch and len(res[-1]) != len(batch[-1][0])):
        if not p.err and res:
            ops = batch[len(res) - 1][0]
            p.err = vf.run(cmd, stdin=("#0\n" + "".join(o + "\n" for o in ops)).encode(), env=dict(env, NOCAP="1"), timeout=120, cwd=wd).err
        return res, D.excerpt(p.err) + f" rc={p.rc}"
    if kind == "lua" and p.err and len(batch) == 1: res[0][-1].append("ERR " + enc(p.err))
    return res, None


def replay(k, ops, i=None):
    fs = {}
    for o in ops:
        for f in o.split("\t")[-1].split(";"):
            f = dec(f)
            if f.startswith("/") and os.path.exists(f): fs[f] = open(f, errors="surrogateescape").read()
    return {"driver": k, "case": ops, "op": i, "files": fs}


def strip(lines, kind):
    """Common normal form: errors by message, Lua's position prefix removed."""
    r = []
    for l in lines:
        if "%" in l: l = " ".join(enc(dec(x).encode("utf-8", "surrogateescape").decode("utf-8", "backslashreplace")) if "%" in x else x for x in l.split(" "))
        if l.startswith("R err"):
            m = dec(l.split(" ")[3])
            if kind == "lua" and ": " in m and m.split("\n")[0].count("diag.lua"): m = m.split(": ", 1)[1]
            l = "R err " + enc(m.split("\nstack traceback")[0])
        elif "cyclic%20constant" in l: l = l[0] + " cyclic"        # which definition is named depends on addresses
        r.append(l)
    return r


def check(chk):
    wd = vf.tmpdir("p19-")
    n = vf.scale(4800, 30000)
    jobs = []
    for part, lua in (("x", False), ("y", True)):
        for b in range(16):
            rng = random.Random(f"{vf.SEED}-{part}-{b}")
            jobs.append((lua, b, [case(rng, wd, lua) for _ in range(n // 32)]))
    for k in ("py", "cc", "ref", "lua"): run(k, [], wd)
    work = [(k, j) for j in jobs for k in (("py", "cc", "lua", "ref") if j[0] else ("py", "cc", "ref"))]
    def one(w):
        k, (lua, b, cs) = w
        if k == "lua":      # without a logger the messages of a case are the error output of its process
            res = []
            loud = [c for c in cs if all(o.split("\t")[2 if o.startswith("new") else 1] == "f" for o in c[0] if o.startswith(("new", "term")))]
            quiet = [c for c in cs if c not in loud]
            r, e = run(k, loud, wd)
            if e: return {}, e, loud
            m = {id(c): x for c, x in zip(loud, r)}
            for c in quiet[:vf.scale(6, 40)]:
                r, e = run(k, [c], wd)
                if e: return {}, e, [c]
                m[id(c)] = r[0]
            return m, None, cs
        r, e = run(k, cs, wd)
        if e: return {id(c): x for c, x in zip(cs, r[:-1])}, e, cs
        return {id(c): x for c, x in zip(cs, r)}, e, cs
    out = vf.parallel(one, work)
    logs = {}
    for (k, j), (m, e, cs) in zip(work, out):
        if e:
            if k == "ref": raise vf.HarnessError("reference: " + e)
            chk.violation("crash", f"{k}: the driver ended early: {e}", replay(k, cs[min(len(m), len(cs) - 1)][0]))
        logs[(k, j[0], j[1])] = m
    for lua, b, cs in jobs:
        for c in cs:
            ops, exp = c
            ref = logs[("ref", lua, b)][id(c)]
            bad = judge([o for o in ops], exp, ref)
            if bad:
                chk.count("engine_skipped")
                if os.environ.get("VERIF_DEBUG"): print("ENGINE", bad, ops)
            for k in ("py", "cc", "lua") if lua else ("py", "cc"):
                got = logs[(k, lua, b)].get(id(c))
                if got is None: continue
                errs = ""
                if k == "lua" and got[-1] and got[-1][-1].startswith("ERR "): errs = dec(got[-1].pop()[4:])
                for i, o in enumerate(ops):
                    f = o.split("\t")
                    a, r = strip(got[i] if i < len(got) else ["(missing)"], k), strip(ref[i], "ref")
                    if k == "lua":
                        want = [x for x in r if x.startswith("S ")]
                        for w in want:
                            w = dec(w[2:])
                            if w == "cyclic": errs = ""
                            elif errs.startswith(w): errs = errs[len(w):]
                            else:
                                chk.violation("stderr", f"{k}: operation {o} printed {errs!r}, the engine prints {w!r}", replay(k, ops))
                        r = [x for x in r if not x.startswith("S ")]
                        if r and a and r[-1].startswith("R err") and a[-1].startswith("R err") and dec(r[-1][6:]) in dec(a[-1][6:]): a[-1] = r[-1]
                    if a != r:
                        chk.violation("differs", f"{k}: operation {o} reported {a}, the engine reports {r}", replay(k, ops, i))
                        break
                if k == "lua" and errs: chk.violation("stderr", f"{k}: additional output {errs!r}", replay(k, ops))
                if not bad and k != "lua":
                    w = judge(ops, exp, got)
                    if w: chk.violation("judge", f"{k}: {w}", replay(k, ops))
                nm = 0
                for lines in got:
                    for l in lines:
                        if l.startswith("M "):
                            nm += 1
                            chk.count("messages of " + l.split(" ")[2])
                        elif l.startswith("S "): chk.count("messages on stderr", l.count("%3A%20"))
                        elif l.startswith("R err"): chk.count("failed operations")
                chk.case(key=f"{k} " + " ".join(ops), nontrivial=nm > 0)
    shutil.rmtree(wd, ignore_errors=True)


TECHNIQUE = "runtime monitoring: predicted codes, locations and texts of the messages of planted problems over message histories, differential against the engine driven without the bindings"
if __name__ == "__main__": vf.main(check, "P19", rule="distinct diagnostic histories observed, non-trivial if messages were delivered")
