"""Interpreter of diagnostic histories (checks/p19.py): every message of every operation is logged with the channel it arrived on.

ops (tab separated): new k logger limit args | add k text | ground k | load k file | parse k logger limit text | parsef k logger limit files
  string logger limit text | files logger limit files | term logger limit text | part k name params text | gpart k name args | backend k | del k"""
import os, sys, tempfile
import clingo
from clingo import ast
from drv import enc, dec


class Callable:
    def __init__(self, f): self.f = f
    def __call__(self, *a): return self.f(*a)
    def meth(self, c, m): self.f(c, m)


def main():
    out = []
    cap = tempfile.TemporaryFile()
    err = os.dup(2)
    if not os.environ.get("NOCAP"): os.dup2(cap.fileno(), 2)
    serial = 0
    def logger(kind, ch):
        nonlocal serial
        serial += 1
        def f(c, m):
            if not isinstance(c, clingo.MessageCode) or not isinstance(m, str): out.append("BAD logger arguments")
            out.append("M %s %s %s" % (ch, c.name, enc(m)))
        if kind == "-": return {}
        return {"logger": [f, lambda c, m: f(c, m), Callable(f), Callable(f).meth][serial % 4]}
    def limit(x): return {} if x == "-" else {"message_limit": int(x)}
    ctls, dead = {}, set()
    for line in sys.stdin:
        line = line.rstrip("\n")
        if line.startswith("#"):
            ctls, dead = {}, set()
            sys.stdout.write(line + "\n")
            sys.stdout.flush()
            continue
        f = line.split("\t")
        del out[:]
        ctlop = f[0] in ("add", "part", "gpart", "ground", "load", "parse", "parsef")
        if ctlop and f[1] in dead:
            sys.stdout.write("R dead\n.\n")
            continue
        try:
            if f[0] == "new": ctls[f[1]] = clingo.Control([dec(x) for x in f[4].split(";")] if f[4] != "-" else [], **logger(f[2], "C" + f[1]), **limit(f[3]))
            elif f[0] == "add":
                if serial % 2: ctls[f[1]].add("base", [], dec(f[2]))
                else: ctls[f[1]].add(dec(f[2]))
            elif f[0] == "part": ctls[f[1]].add(f[2], [x for x in f[3].split(";") if x], dec(f[4]))
            elif f[0] == "gpart": ctls[f[1]].ground([(f[2], [clingo.Number(int(x)) for x in f[3].split(";") if x])])
            elif f[0] == "ground": ctls[f[1]].ground([("base", [])])
            elif f[0] == "load": ctls[f[1]].load(dec(f[2]))
            elif f[0] in ("parse", "parsef"):
                with ast.ProgramBuilder(ctls[f[1]]) as b:
                    if f[0] == "parse": ast.parse_string(dec(f[4]), b.add, **logger(f[2], "P"), **limit(f[3]))
                    else: ast.parse_files([dec(x) for x in f[4].split(";")], b.add, **logger(f[2], "P"), **limit(f[3]))
            elif f[0] == "string": ast.parse_string(dec(f[3]), lambda s: None, **logger(f[1], "P"), **limit(f[2]))
            elif f[0] == "files": ast.parse_files([dec(x) for x in f[3].split(";")], lambda s: None, **logger(f[1], "P"), **limit(f[2]))
            elif f[0] == "term": out.append("T " + enc(str(clingo.parse_term(dec(f[3]), **logger(f[1], "P"), **limit(f[2])))))
            elif f[0] == "del": del ctls[f[1]]
            r = "R ok"
        except Exception as e:
            if ctlop: dead.add(f[1])
            r = "R err %s %s" % (type(e).__name__, enc(str(e)))
        pos = cap.seek(0, 2)
        if pos:
            cap.seek(0)
            out.append("S " + enc(cap.read().decode("utf-8", "surrogateescape")))
            cap.seek(0)
            cap.truncate()
        sys.stdout.write("".join(x + "\n" for x in [*out, r, "."]))
        sys.stdout.flush()
    sys.stdout.flush()
    os.dup2(err, 2)


if __name__ == "__main__": main()
