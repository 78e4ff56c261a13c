"""Application driven by a specification ($APP_SPEC, see checks/p15.py); hooks are logged to $APP_LOG."""
import os, sys
import clingo
from clingo.application import Application, Flag, clingo_main
from drv import enc, dec

spec = {}
items = []
for line in open(os.environ["APP_SPEC"]).read().split("\n"):
    f = line.split("\t")
    if f[0] in ("opt", "flag"): items.append(f)
    elif f[0]: spec[f[0]] = f[1:]
LOG = open(os.environ["APP_LOG"], "a", buffering=1)
def log(*a): LOG.write(" ".join(map(str, a)) + "\n")


class App(Application):
    def __init__(self):
        self.flags = {}
        self.printed = 0
        if spec["named"][0] == "instance":
            if "name" in spec: self.program_name = dec(spec["name"][0])
            if "version" in spec: self.version = dec(spec["version"][0])
            if "limit" in spec: self.message_limit = int(spec["limit"][0])


if spec["named"][0] == "class":
    if "name" in spec: App.program_name = dec(spec["name"][0])
    if "version" in spec: App.version = dec(spec["version"][0])
    if "limit" in spec: App.message_limit = int(spec["limit"][0])
elif spec["named"][0] == "property":
    if "name" in spec: App.program_name = property(lambda self: dec(spec["name"][0]))
    if "version" in spec: App.version = property(lambda self: dec(spec["version"][0]))
    if "limit" in spec: App.message_limit = property(lambda self: int(spec["limit"][0]))


class Sub(App): pass


def register_options(self, options):
    log("register")
    for f in items:
        if f[0] == "flag":
            fl = self.flags[f[2]] = Flag(f[4] == "1") if f[4] == "1" else Flag()
            if fl.flag != (f[4] == "1") or bool(fl) != fl.flag: log("BAD flag")
            options.add_flag(dec(f[1]), dec(f[2]), dec(f[3]), fl)
        else:
            def parse(value, f=f):
                log("parse", f[2], enc(value))
                if f[6] == "raise": raise RuntimeError("parser-failed")
                return not (f[6] == "reject" or f[6] == "rejbad" and value == "bad")
            kw = {}
            if f[4] == "1": kw["multi"] = True
            if f[5] != "-": kw["argument"] = dec(f[5])
            options.add(dec(f[1]), dec(f[2]), dec(f[3]), parse, **kw)
    if spec["register"][0] == "raise": raise RuntimeError("register-failed")


def validate_options(self):
    log("validate", " ".join("%s=%d" % (k, v.flag) for k, v in self.flags.items()))
    if spec["validate"][0] == "raise": raise RuntimeError("validate-failed")
    return spec["validate"][0] != "false"


def main(self, control, files):
    log("main", *map(enc, files))
    log("flags", " ".join("%s=%d" % (k, bool(v)) for k, v in self.flags.items()))
    m = spec["main"][0]
    if m == "raise-before": raise RuntimeError("main-failed")
    for f in files: control.load(f)
    if not files: control.load("-")
    c = control.get_const("c")
    log("const", "none" if c is None else c)
    if m == "extra": control.add("base", [], "extra_atom.")
    if m == "noground": return
    control.ground([("base", [])])
    if m == "nosolve": return
    if m == "raise-mid": raise RuntimeError("main-failed")
    if m == "yield":
        with control.solve(yield_=True) as h:
            for x in h: log("y", x.number)
            r = h.get()
    else: r = control.solve()
    log("result", str(r))
    if m == "multi":
        control.add("step", [], "{step_atom}.")
        control.ground([("step", [])])
        log("result", str(control.solve()))
    if m == "raise-after": raise RuntimeError("main-failed")


def print_model(self, model, printer):
    self.printed += 1
    log("print", model.number, *sorted(map(str, model.symbols(shown=True))))
    m = spec["print"][0]
    if m == "raise" and self.printed == int(spec["print"][1]): raise RuntimeError("print-failed")
    if m in ("custom", "both"): print("CUSTOM", model.number, len(model.symbols(atoms=True)), flush=True)
    if m in ("default", "both", "twice", "raise"): printer()
    if m == "twice": printer()


def logger(self, code, message): log("log", code.name, enc(message))


for k, f in (("register", register_options), ("validate", validate_options), ("main", main), ("print", print_model), ("logger", logger)):
    if spec[k][0] != "-": setattr(App, f.__name__, f)
app = (Sub if spec["named"][0] == "sub" else App)()
if spec["named"][0] == "sub":
    if "name" in spec: App.program_name = dec(spec["name"][0])
    if "version" in spec: App.version = dec(spec["version"][0])
    if "limit" in spec: App.message_limit = int(spec["limit"][0])
if spec.get("args") == ["argv"]: rc = clingo_main(app)
else:
    args = sys.argv[1:]
    sys.argv = [sys.argv[0], "--zz-bogus", "nosuchfile.lp"]     # only the given arguments count
    rc = clingo_main(app, tuple(args) if len(args) % 2 else args)
log("exit", rc)
sys.stdout.flush()
sys.exit(rc)
