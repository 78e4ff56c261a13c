"""Interpreter of the operation language over the Python interface (see drv/OPS.md)."""
import gc, os, sys
import clingo
from clingo import Control, Function, Number, String, Infimum, Supremum, SymbolType, parse_term
from clingo.backend import Observer
from clingo.propagator import Propagator, PropagatorCheckMode

TREE = os.environ.get("DRV_TREE") == "1"
SAFE = frozenset(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_+-.()=<>&'")


def enc(s):
    return "".join(chr(b) if b in SAFE else "%%%02X" % b for b in s.encode("utf-8", "surrogateescape")) or "%"


def dec(s):
    if s == "%":
        return ""
    out = bytearray()
    b = s.encode()
    i = 0
    while i < len(b):
        if b[i] == 37:
            out.append(int(b[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return out.decode("utf-8", "surrogateescape")


def build(toks):
    t = toks.pop(0)
    k = t.split(":")
    if k[0] == "n": return Number(int(k[1]))
    if k[0] == "s": return String(dec(k[1]))
    if k[0] == "i": return Infimum
    if k[0] == "p": return Supremum
    if k[0] == "f": return Function(dec(k[1]), [build(toks) for _ in range(int(k[3]))], k[2] == "+")
    if k[0] == "t": return clingo.Tuple_([build(toks) for _ in range(int(k[1]))])
    raise RuntimeError("bad symbol")


def E(s): return build(s.split(" "))


def ser(s):
    t = s.type
    if t == SymbolType.Number: return "n:%d" % s.number
    if t == SymbolType.String: return "s:" + enc(s.string)
    if t == SymbolType.Infimum: return "i"
    if t == SymbolType.Supremum: return "p"
    if t == SymbolType.Function:
        a = s.arguments
        if s.positive == s.negative:
            return "badsign"
        h = "t:%d" % len(a) if s.name == "" and s.positive else "f:%s:%s:%d" % (enc(s.name), "+" if s.positive else "-", len(a))
        return " ".join([h] + [ser(x) for x in a])
    return "?"


B = lambda x: "1" if x else "0"


class Obs(Observer):
    def __init__(self, out): self.o = out
    def init_program(self, incremental): self.o("O init " + B(incremental))
    def begin_step(self): self.o("O begin")
    def end_step(self): self.o("O end")
    def rule(self, choice, head, body): self.o(f"O rule {B(choice)} {ints(head)} {ints(body)}")
    def weight_rule(self, choice, head, lower_bound, body): self.o(f"O wrule {B(choice)} {ints(head)} {lower_bound} {wl(body)}")
    def minimize(self, priority, literals): self.o(f"O min {priority} {wl(literals)}")
    def project(self, atoms): self.o(f"O project {ints(atoms)}")
    def output_atom(self, symbol, atom): self.o(f"O outatom {enc(str(symbol))} {atom}")
    def output_term(self, symbol, condition): self.o(f"O outterm {enc(str(symbol))} {ints(condition)}")
    def external(self, atom, value): self.o(f"O ext {atom} {value.name}")
    def assume(self, literals): self.o(f"O assume {ints(literals)}")
    def heuristic(self, atom, type_, bias, priority, condition): self.o(f"O heu {atom} {type_.name.rstrip('_')} {bias} {priority} {ints(condition)}")
    def acyc_edge(self, node_u, node_v, condition): self.o(f"O edge {node_u} {node_v} {ints(condition)}")
    def theory_term_number(self, term_id, number): self.o(f"O tnum {term_id} {number}")
    def theory_term_string(self, term_id, name): self.o(f"O tstr {term_id} {enc(name)}")
    def theory_term_compound(self, term_id, name_id_or_type, arguments): self.o(f"O tcomp {term_id} {name_id_or_type} {ints(arguments)}")
    def theory_element(self, element_id, terms, condition): self.o(f"O telem {element_id} {ints(terms)} {ints(condition)}")
    def theory_atom(self, atom_id_or_zero, term_id, elements): self.o(f"O tatom {atom_id_or_zero} {term_id} {ints(elements)}")
    def theory_atom_with_guard(self, atom_id_or_zero, term_id, elements, operator_id, right_hand_side_id):
        self.o(f"O tatomg {atom_id_or_zero} {term_id} {ints(elements)} {operator_id} {right_hand_side_id}")


def ints(xs): return ",".join(str(x) for x in xs) or "-"
def wl(xs): return ",".join("%d=%d" % (a, b) for a, b in xs) or "-"
def pints(s): return [] if s == "-" else [int(x) for x in s.split(",")]
def pwl(s): return [] if s == "-" else [tuple(int(y) for y in x.split("=")) for x in s.split(",")]


class Ctx:
    def __init__(self, d): self.d = d
    def __getattr__(self, name):
        if name.startswith("__") or name not in self.d.funs: raise AttributeError(name)
        ret = self.d.funs[name]
        def f(*args):
            self.d.o("call %s %s" % (name, ";".join(ser(a) for a in args) or "-"))
            if ret == "err": raise RuntimeError("extfun failed")
            if ret == "echo": return list(args)
            if ret == "first": return args[0]
            if ret == "none": return []
            if ret == "tuple": return clingo.Tuple_(args)
            if ret == "nargs": return clingo.Number(len(args))
            if ret == "wrap": return clingo.Function("w", args, not args)
            if ret == "each": return tuple(clingo.Function("e", [a]) for a in args)
            if ret == "dup": return [args[0], args[0], clingo.Number(1)]
            if ret == "gen": return (a for a in reversed(args))
            if ret == "many": return {clingo.Function("m", [clingo.Number(i), *args]): 0 for i in range(300)}
            if ret.startswith("errat:"):
                self.d.nerr = getattr(self.d, "nerr", 0) + 1
                if self.d.nerr == int(ret[6:]): raise RuntimeError("extfun failed")
                return args[0]
            return [E(x) for x in ret.split(";")]
        return f


MODES = {"none": "Off", "total": "Total", "fix": "Fixpoint", "both": "Both"}


class Prop(Propagator):
    """Scripted propagator; see checks/p10.py for the items."""
    def __init__(self, tag, o, items):
        self.t, self.log, self.items = tag, o, [x.split(" ") for x in items]
        self.quiet = any(x[0] == "quiet" for x in self.items)
        self.pcs = [x for x in self.items if x[0] == "pc"]
        self.ccs = self.pcs + [x for x in self.items if x[0] == "cc"]
        self.ats = {}
        for x in self.items:
            if x[0] == "at": self.ats.setdefault(int(x[1]), []).append(x[2:])
        self.dec = next((x for x in self.items if x[0] == "decide"), None)
        self.calls = 0

    def o(self, s):
        if not self.quiet: self.log(self.t + s)

    def lit(self, x):
        sg, n = (-1 if x[0] == "-" else 1), x[1:]
        if n == "!": return sg
        if n[0] == "#": return sg * self.fresh[int(n[1:])]
        return sg * self.map[n]

    def lits(self, s): return [] if s == "-" else [self.lit(x) for x in s.split(",")]
    def wlits(self, s): return [] if s == "-" else [(self.lit(x.split("=")[0]), int(x.split("=")[1])) for x in s.split(",")]

    def init(self, i):
        self.fresh, self.map, self.calls = [], {}, 0
        for a in i.symbolic_atoms: self.map[enc(str(a.symbol))] = i.solver_literal(a.literal)
        ths = len(list(i.theory_atoms))
        self.o("init %d %d %s %s" % (i.number_of_threads, ths, i.check_mode.name, " ".join("%s=%d" % k for k in sorted(self.map.items()))))
        for x in self.items:
            n = x[0]
            if n == "mode":
                i.check_mode = getattr(PropagatorCheckMode, MODES[x[1]])
                self.o("mode " + i.check_mode.name)
            elif n == "watch": i.add_watch(self.lit(x[1])) if x[2] == "-" else i.add_watch(self.lit(x[1]), int(x[2]))
            elif n == "unwatch": i.remove_watch(self.lit(x[1])) if x[2] == "-" else i.remove_watch(self.lit(x[1]), int(x[2]))
            elif n == "freeze": i.freeze_literal(self.lit(x[1]))
            elif n == "fresh":
                self.fresh.append(i.add_literal() if x[1] == "-" else i.add_literal(x[1] == "1") if x[1] == "1" else i.add_literal(freeze=False))
                self.o("fresh %d" % self.fresh[-1])
            elif n == "ic": self.o("ic " + B(i.add_clause(self.lits(x[1]))))
            elif n == "iw":
                kw = {} if x[3] == "0" else {"type_": int(x[3])}
                if x[4] == "1": kw["compare_equal"] = True
                self.o("iw " + B(i.add_weight_constraint(self.lit(x[1]), self.wlits(x[5]), int(x[2]), **kw)))
            elif n == "im": i.add_minimize(self.lit(x[1]), int(x[2])) if x[3] == "-" else i.add_minimize(self.lit(x[1]), int(x[2]), int(x[3]))
            elif n == "ip": self.o("ip " + B(i.propagate()))
        self.track = sorted({abs(x) for x in list(self.map.values()) + self.fresh})
        if not self.quiet: self.dump("initend", i.assignment)

    def dump(self, what, a):
        vs = []
        for l in self.track:
            for l in (l, -l):
                v = a.value(l)
                vs.append("%d:%s:%s:%s%s%s%s" % (l, "u" if v is None else "t" if v else "f", "-" if v is None else a.level(l), B(a.is_fixed(l)), B(a.is_true(l)), B(a.is_false(l)), B(a.has_literal(l))))
        n = a.decision_level
        t = a.trail
        tr = list(t)
        if tr != [t[k] for k in range(len(t))] or len(t) != len(tr): self.o("BAD trail")
        al = list(a)
        if al != [a[k] for k in range(len(a))] or len(a) != len(al) or al[1:3] != list(a[1:3]) or any(a.is_free(l) != (a.value(l) is None) for l in al): self.o("BAD assignment")
        try: a.level(1 << 28); bad = "0"
        except RuntimeError: bad = "1"
        self.o("%s | %d %d %s %s %d %s | %s | %s | %s | %s" % (what, n, a.root_level, B(a.has_conflict), B(a.is_total), len(a), bad + B(a.has_literal(1 << 28)), " ".join(vs) or "-", ints(a.decision(k) for k in range(n + 1)),
               ints(tr), " ".join("%d-%d" % (t.begin(k), t.end(k)) for k in range(n + 1))))

    def enforce(self, c, cs):
        a = c.assignment
        for x in cs:
            ls = self.lits(x[4])
            cl = [-l for l in ls] if x[3] == "1" else ls
            if any(a.is_true(l) for l in cl): continue
            if sum(1 for l in cl if a.value(l) is None) > 1: continue
            kw = {}
            if x[1] == "1": kw["tag"] = True
            if x[2] == "1": kw["lock"] = True
            r = c.add_nogood(ls, **kw) if x[3] == "1" else c.add_clause(ls, **kw)
            self.o("add %s %s" % (x[4], B(r)))
            if not r: return
            r = c.propagate()
            self.o("pp " + B(r))
            if not r: return

    def propagate(self, c, changes):
        if not self.quiet: self.dump("prop %d %s" % (c.thread_id, ints(changes)), c.assignment)
        self.calls += 1
        for x in self.ats.get(self.calls, []):
            if x[0] == "watch": c.add_watch(self.lit(x[1]))
            elif x[0] == "unwatch": c.remove_watch(self.lit(x[1]))
            elif x[0] == "fresh":
                self.fresh.append(c.add_literal())
                self.o("fresh %d" % self.fresh[-1])
                continue
            self.o("at %s %s %s" % (x[0], x[1], B(c.has_watch(self.lit(x[1])))))
        self.enforce(c, self.pcs)

    def check(self, c):
        if not self.quiet: self.dump("check %d" % c.thread_id, c.assignment)
        self.enforce(c, self.ccs)

    def undo(self, thread_id, a, changes):
        if not self.quiet: self.dump("undo %d %s" % (thread_id, ints(changes)), a)


class PropD(Prop):
    def decide(self, thread_id, a, fallback):
        r = 0 if self.dec[1] == "0" else fallback
        for l in self.lits(self.dec[2]):
            if a.is_free(l):
                r = l
                break
        if not self.quiet: self.dump("decide %d %d %d" % (thread_id, fallback, r), a)
        return r


def dump_satoms(sa, o):
    res = ["%s %d %s%s" % (enc(str(x.symbol)), x.literal, B(x.is_fact), B(x.is_external)) for x in sa]
    o("satoms %d %s" % (len(sa), "|".join(sorted(res))))
    for x in sa:
        y = sa[x.symbol]
        if y is None or y.symbol != x.symbol or y.literal != x.literal: o("BAD lookup %s" % x.symbol)
        if not x.match(x.symbol.name, len(x.symbol.arguments), x.symbol.positive) or x.match(x.symbol.name, len(x.symbol.arguments), x.symbol.negative) or x.match(x.symbol.name, 1 + len(x.symbol.arguments), x.symbol.positive): o("BAD match %s" % x.symbol)
    sigs = sa.signatures
    o("sigs " + "|".join(sorted("%s/%d/%s" % (enc(n), a, B(p)) for n, a, p in sigs)))
    for n, a, p in sigs:
        o("sig %s/%d/%s %s" % (enc(n), a, B(p), "|".join(sorted(enc(str(x.symbol)) for x in sa.by_signature(n, a, p)))))
        for x in sa.by_signature(n, a, p):
            if x.symbol not in sa: o("BAD contains %s" % x.symbol)
    if "a" in sa or None in sa: o("BAD contains other")


class IProp:
    def __init__(self, o): self.o = o
    def init(self, i): dump_satoms(i.symbolic_atoms, self.o)


class TProp:
    """Reports the truth values of theory atoms, element conditions and symbolic atoms in every total assignment."""
    def __init__(self, o): self.o = o
    def init(self, i):
        self.sy = [(str(x.symbol), i.solver_literal(x.literal)) for x in i.symbolic_atoms]
        self.th = [(i.solver_literal(t.literal), [(i.solver_literal(e.condition_id), [i.solver_literal(c) for c in e.condition]) for e in t.elements]) for t in i.theory_atoms]
        self.o("ti %d" % len(self.th))
    def check(self, c):
        a = c.assignment
        if not a.is_total: return
        self.o("ta " + (" ".join(sorted(enc(s) for s, l in self.sy if a.is_true(l))) or "-"))
        for k, (l, es) in enumerate(self.th):
            for e, cs in es:
                if a.is_true(e) != all(a.is_true(x) for x in cs) or a.is_true(e) == a.is_false(e): self.o("BAD condition_id %d" % k)
            self.o("tt %d %s %s" % (k, B(a.is_true(l)), "".join(B(a.is_true(e)) for e, _ in es) or "-"))


class Injected(Exception): pass


EXCS = [lambda m: Injected(m), lambda m: KeyError(m), lambda m: StopIteration(m), lambda m: MemoryError(m), lambda m: KeyboardInterrupt(m), lambda m: Injected(m, 1),
        lambda m: UnicodeEncodeError("ascii", m, 0, 1, m), lambda m: Injected(m + "\udc80"), lambda m: RuntimeError(m), lambda m: AssertionError(m)]


class Driver:
    def __init__(self, out):
        self.out = out
        self.inj, self.ninj, self.exc = None, 0, None
        self.c = {}
        self.cur = 0
        self.funs = {}
        self.keep = []

    def o(self, s):
        self.out.write(s + "\n")
        if self.inj is not None and s.startswith(self.inj[0]):
            self.ninj += 1
            if self.ninj == self.inj[1]:
                self.exc = EXCS[self.inj[2]]("injected-%d" % self.ninj)
                self.out.write("!injected\n")
                raise self.exc

    def op_failat(self, prefix, k, exc):
        """The k-th event that starts with the prefix fails."""
        self.inj, self.ninj, self.exc = (dec(prefix), int(k), int(exc) % len(EXCS)), 0, None

    def op_nofail(self): self.inj = None

    @property
    def ctl(self): return self.c[self.cur]

    def run(self, line):
        a = line.rstrip("\n").split("\t")
        try:
            getattr(self, "op_" + a[0])(*a[1:])
        except BaseException as e:
            if isinstance(e, SystemExit): raise
            self.o("ERR " + enc(type(e).__name__) + " " + enc(str(e)) + (" same" if e is self.exc else ""))
        self.o(".")

    # symbols
    def op_sym(self, e):
        s = E(e)
        t = str(s)
        q = parse_term(t)
        self.o(" | ".join(["sym", ser(s), enc(t), ser(q), B(s == q and hash(s) == hash(q) and not s != q)]))

    def op_symerr(self, e, prop):
        s = E(e)
        r = getattr(s, prop)
        self.o("val " + (B(r) if isinstance(r, bool) else str(r) if isinstance(r, int) else enc(r) if isinstance(r, str) else ";".join(ser(x) for x in r)))

    def op_match(self, e, name, n):
        self.o("match " + B(E(e).match(dec(name), int(n))))

    def op_cmp(self, x, y):
        a, b = E(x), E(y)
        self.o("cmp " + "".join(map(B, (a < b, a <= b, a == b, a != b, a >= b, a > b))) + " " + B(hash(a) == hash(b)))

    def op_order(self, es):
        self.o("order " + ";".join(ser(x) for x in sorted(E(e) for e in es.split(";"))))

    def op_parse(self, t):
        self.o("parse " + ser(parse_term(dec(t), lambda *a: None)))

    # control
    def op_new(self, i, args):
        self.cur = int(i)
        self.c[self.cur] = Control([dec(x) for x in args.split(";")] if args else [], lambda c, m: self.o("log %s %s" % (c.name, enc(m))))

    def op_use(self, i): self.cur = int(i)
    def op_del(self, i): del self.c[int(i)]
    def op_add(self, name, params, text): self.ctl.add(dec(name), [dec(x) for x in params.split(";")] if params else [], dec(text))
    def op_load(self, path): self.ctl.load(dec(path))
    def op_extfun(self, name, ret): self.funs[name] = ret

    def op_ground(self, parts):
        ps = []
        for p in parts.split("|"):
            q = p.split(";")
            ps.append((dec(q[0]), [E(x) for x in q[1:]]))
        self.ctl.ground(ps, Ctx(self) if self.funs else None)

    def syms(self, m, **kw): return " ".join(enc(str(x)) for x in m.symbols(**kw)) or "-"

    def model(self, m):
        prio = ints(m.priority) if TREE else "?"
        self.o("M\t%d\t%s\t%s\t%s\t%s\t%s\t%s\t%s\t%s\t%s" % (m.number, m.type.name, ints(m.cost), B(m.optimality_proven), m.thread_id, self.syms(m, shown=True),
               self.syms(m, atoms=True), self.syms(m, terms=True), self.syms(m, atoms=True, complement=True), prio))
        ats = set(m.symbols(atoms=True))
        for sa in m.context.symbolic_atoms:
            if m.contains(sa.symbol) != (sa.symbol in ats): self.o("BAD contains %s" % sa.symbol)
            if sa.literal == 0:      # no instance of a rule with this atom in the head survived grounding
                if sa.symbol in ats: self.o("BAD zero %s" % sa.symbol)
            elif m.type.name == "StableModel" and (m.is_true(sa.literal) != (sa.symbol in ats) or m.is_true(-sa.literal) == (sa.symbol in ats)): self.o("BAD is_true %s" % sa.symbol)
        if str(m) != " ".join(str(x) for x in m.symbols(shown=True)): self.o("BAD str")

    def ass(self, s):
        res = []
        for x in (s.split(";") if s else []):
            if x[0] == "=":
                a = self.ctl.symbolic_atoms[parse_term(dec(x[2:]))]
                if a is None: raise RuntimeError("no such atom")
                res.append(a.literal if x[1] == "+" else -a.literal)
            elif x[0] in "+-" and not x[1:].isdigit(): res.append((parse_term(dec(x[1:])), x[0] == "+"))
            else: res.append(int(x))
        return res

    def res(self, r):
        self.o("R %s%s%s%s%s" % (B(r.satisfiable), B(r.unsatisfiable), B(r.unknown), B(r.exhausted), B(r.interrupted)))

    def op_solve(self, mode, ass, limit, onm=""):
        ass = self.ass(ass)
        limit = int(limit)
        cnt = [0]
        def on_model(m):
            cnt[0] += 1
            self.model(m)
            self.act(m, onm)
            if cnt[0] == limit: return False
        def on_unsat(lower): self.o("U " + ints(lower))
        def on_finish(r): self.o("F " + B(r.satisfiable) + B(r.unsatisfiable) + B(r.exhausted) + B(r.interrupted))
        if mode == "cb":
            r = self.ctl.solve(ass, on_model=on_model, on_unsat=on_unsat, on_finish=on_finish, on_core=lambda c: self.o("core " + ints(c)))
            self.res(r)
            return
        if mode == "async":
            with self.ctl.solve(ass, on_model=on_model, on_unsat=on_unsat, on_finish=on_finish, async_=True) as h:
                h.wait()
                r = h.get()
                if r.unsatisfiable: self.o("core " + ints(h.core()))
                self.res(r)
            return
        kw = {"async_": True} if mode == "ayield" else {}
        with self.ctl.solve(ass, yield_=True, on_finish=on_finish, **kw) as h:
            stopped = False
            if mode in ("yield", "ayield"):
                for m in h:
                    cnt[0] += 1
                    self.model(m)
                    self.act(m, onm)
                    if cnt[0] == limit:
                        stopped = True
                        break
            elif mode == "step":
                while True:
                    h.resume()
                    m = h.model()
                    if m is None: break
                    cnt[0] += 1
                    self.model(m)
                    self.act(m, onm)
                    if cnt[0] == limit:
                        stopped = True
                        break
            if stopped: h.cancel()
            r = h.get()
            if r.unsatisfiable: self.o("core " + ints(h.core()))
            self.res(r)

    def act(self, m, onm):
        """Actions inside a model: x:<sym> extend, c:<lits>/n:<lits> add clause/nogood."""
        for a in (onm.split("|") if onm else []):
            k, v = a[0], a[2:]
            if k == "x":
                m.extend([E(x) for x in v.split(";")])
                self.o("X " + self.syms(m, theory=True))
            elif k == "c": m.context.add_clause(self.ass(v))
            elif k == "n": m.context.add_nogood(self.ass(v))
            elif k == "b":   # block this model on the given atoms
                ats = set(m.symbols(atoms=True))
                m.context.add_nogood([(parse_term(dec(x)), parse_term(dec(x)) in ats) for x in v.split(";")])
            elif k == "S": dump_satoms(m.context.symbolic_atoms, self.o)

    def ext(self, s):
        return int(s) if s.lstrip("-").isdigit() else parse_term(dec(s))

    def op_assign(self, s, v): self.ctl.assign_external(self.ext(s), {"t": True, "f": False, "u": None}[v])
    def op_release(self, s): self.ctl.release_external(self.ext(s))
    def op_cleanup(self): self.ctl.cleanup()
    def op_interrupt(self): self.ctl.interrupt()

    def op_const(self, n):
        c = self.ctl.get_const(dec(n))
        self.o("const " + ("none" if c is None else ser(c)))

    def op_flags(self, which, v):
        if v != "?": setattr(self.ctl, which, v == "1")
        self.o("flags " + B(getattr(self.ctl, which)))

    def op_conflicting(self): self.o("conflicting " + B(self.ctl.is_conflicting))

    def op_satoms(self): dump_satoms(self.ctl.symbolic_atoms, self.o)

    def op_bysig(self, n, a, p):
        it = self.ctl.symbolic_atoms.by_signature(dec(n), int(a), p == "1") if p != "1" or int(a) % 2 else self.ctl.symbolic_atoms.by_signature(dec(n), int(a))
        self.o("bysig " + "|".join(sorted(enc(str(x.symbol)) for x in it)))

    def op_iprop(self):
        p = IProp(self.o)
        self.keep.append(p)
        self.ctl.register_propagator(p)

    def op_lookup(self, s):
        x = self.ctl.symbolic_atoms[parse_term(dec(s))]
        self.o("lookup " + ("none" if x is None else "%s %d %s%s" % (enc(str(x.symbol)), x.literal, B(x.is_fact), B(x.is_external))))

    def tterm(self, t):
        n = t.type.name
        if n == "Number": return "n%d" % t.number
        if n == "Symbol": return "y" + enc(t.name)
        if n == "Function": return "f%s(%s)" % (enc(t.name), " ".join(self.tterm(x) for x in t.arguments))
        return {"Tuple": "t", "List": "l", "Set": "s"}[n] + "(" + " ".join(self.tterm(x) for x in t.arguments) + ")"

    def op_tatoms(self, withlit="1"):
        for t in self.ctl.theory_atoms:
            g = t.guard
            self.o("tatom %s | %s | %s | %s | %s" % (self.tterm(t.term), "/".join("%s:%d:%s:%s" % (",".join(self.tterm(x) for x in e.terms) or "-", len(e.condition), ints(e.condition), enc(str(e))) for e in t.elements) or "-",
                   "-" if g is None else enc(g[0]) + " " + self.tterm(g[1]), t.literal if withlit == "1" else "", enc(str(t))))

    # configuration
    def cfg(self, path):
        c = self.ctl.configuration
        for p in (path.split(".") if path else []):
            c = c[int(p)] if p.isdigit() else getattr(c, p)
        return c

    def op_confget(self, path):
        v = self.cfg(path)
        self.o("conf " + ("none" if v is None else enc(v) if isinstance(v, str) else "sub"))

    def op_confset(self, path, val):
        *pre, last = path.split(".")
        setattr(self.cfg(".".join(pre)), last, dec(val))
        self.o("ok")

    def op_confkeys(self, path):
        c = self.cfg(path)
        self.o("keys " + " ".join(c.keys or []) )
        for k in c.keys or []: self.o("desc %s %s" % (k, enc(c.description(k))))
        self.o("len %s" % (len(c) if len(c) > 0 else 0))

    def op_conftree(self, path=""):
        def rec(pre, c):
            ks = c.keys
            n = len(c)
            self.o("c %s %s%s %d %s" % (pre or "/", B(c.is_array), B(ks is not None), n, ",".join(sorted(ks or []))))
            subs = list(c)
            if len(subs) != n: self.o("BAD iteration")
            for i in range(n): rec(pre + "/%d" % i, c[i] if i % 2 else subs[i])
            for k in (range(n, n + 2), (-1,)):
                for i in k:
                    try:
                        c[i]
                        self.o("BAD index %d" % i)
                    except IndexError: pass
            if n and not ks: return
            for k in sorted(ks or []):
                v = getattr(c, k)
                self.o("d %s/%s %s" % (pre, k, enc(c.description(k))))
                if v is None: self.o("v %s/%s none" % (pre, k))
                elif isinstance(v, str): self.o("v %s/%s =%s" % (pre, k, enc(v)))
                elif n == 0 or path: rec(pre + "/" + k, v)
        rec(path.replace(".", "/") and "/" + path.replace(".", "/"), self.cfg(path))

    def op_statfull(self):
        def rec(pre, s):
            if isinstance(s, dict):
                self.o("s %s {%d}" % (pre or "/", len(s)))
                for k in sorted(s): rec(pre + "/" + enc(k), s[k])
            elif isinstance(s, list):
                self.o("s %s [%d]" % (pre or "/", len(s)))
                for i, x in enumerate(s): rec(pre + "/%d" % i, x)
            else: self.o("s %s %s" % (pre or "/", "%.17g" % s))
        rec("", self.ctl.statistics)

    def uval(self, s):
        """Value of the user statistics language: numbers, +n (update), [..], {k=..}."""
        pos = [0]
        def val():
            c = s[pos[0]]
            if c == "[":
                pos[0] += 1
                r = []
                while s[pos[0]] != "]":
                    r.append(val())
                    if s[pos[0]] == ",": pos[0] += 1
                pos[0] += 1
                return r
            if c == "{":
                pos[0] += 1
                r = {}
                while s[pos[0]] != "}":
                    e = s.index("=", pos[0])
                    k = dec(s[pos[0]:e])
                    pos[0] = e + 1
                    r[k] = val()
                    if s[pos[0]] == ",": pos[0] += 1
                pos[0] += 1
                return r
            e = pos[0]
            while e < len(s) and s[e] not in ",]}": e += 1
            t = s[pos[0]:e]
            pos[0] = e
            if t[0] == "+":
                d = float(t[1:])
                return lambda prev: d if prev is None else prev + d
            return float(t) if "." in t or "e" in t or "n" in t else int(t)
        return val()

    def op_ustats(self, *items):
        """Solves; the items are written in the statistics callback: <S|A><u|i|a> value."""
        def on_statistics(step, accu):
            self.o("ustats")
            for it in items:
                m = step if it[0] == "S" else accu
                v = self.uval(it[2:])
                if it[1] == "u": m.update(v)
                else:
                    for k in v: m[k] = v[k]
        self.res(self.ctl.solve(on_statistics=on_statistics))

    # statistics
    def op_stat(self, path):
        s = self.ctl.statistics
        for p in path.split("."):
            s = s[int(p)] if p.isdigit() else s[p]
        self.o("stat " + (",".join(sorted(s)) if isinstance(s, dict) else str(len(s)) if isinstance(s, list) else "%g" % s))

    def op_stattree(self):
        def rec(s):
            if isinstance(s, dict): return "{" + " ".join("%s=%s" % (enc(k), rec(s[k])) for k in sorted(s)) + "}"
            if isinstance(s, list): return "[" + " ".join(rec(x) for x in s) + "]"
            return "%g" % s
        t = self.ctl.statistics
        t = {k: v for k, v in t.items() if k in ("problem",)} if isinstance(t, dict) else t
        self.o("stats " + rec(t))

    def op_parsecb(self, how, text):
        """Parses with a callback that reports every statement."""
        from clingo import ast
        cb = lambda x: self.o("A %s" % enc(str(x)))
        if how == "f": ast.parse_files([dec(x) for x in text.split(";")], cb, logger=lambda c, m: self.o("log %s %s" % (c.name, enc(m))))
        elif how == "c":     # into a builder of the current control, from inside the callback
            with ast.ProgramBuilder(self.ctl) as b:
                def cb(x):
                    b.add(x)
                    self.o("A %s" % enc(str(x)))
                ast.parse_string(dec(text), cb, control=self.ctl)
        else: ast.parse_string(dec(text), cb, logger=lambda c, m: self.o("log %s %s" % (c.name, enc(m))))

    def op_tprop(self):
        p = TProp(self.o)
        self.keep.append(p)
        self.ctl.register_propagator(p)

    def op_prop(self, tag, *items):
        p = (PropD if any(x.startswith("decide ") for x in items) else Prop)(tag, self.o, items)
        self.keep.append(p)
        self.ctl.register_propagator(p)

    # observer, backend
    def op_observe(self, replace):
        ob = Obs(self.o)
        self.keep.append(ob)
        self.ctl.register_observer(ob, replace == "1")

    def op_backend(self, *cmds):
        with self.ctl.backend() as b:
            env = {}
            def aid(x): return env[x] if x in env else int(x)
            def al(s): return [] if s == "-" else [(-env[x[1:]] if x[0] == "-" and x[1:] in env else env[x] if x in env else int(x)) for x in s.split(",")]
            def awl(s): return [] if s == "-" else [(al(x.split("=")[0])[0], int(x.split("=")[1])) for x in s.split(",")]
            for c in cmds:
                k = c.split(" ")
                n = k[0]
                if n == "atom": env[k[1]] = b.add_atom(None if k[2] == "-" else parse_term(dec(k[2])))
                elif n == "rule": b.add_rule(al(k[2]), al(k[3]), k[1] == "1")
                elif n == "wrule": b.add_weight_rule(al(k[2]), int(k[3]), awl(k[4]), k[1] == "1")
                elif n == "min": b.add_minimize(int(k[1]), awl(k[2]))
                elif n == "project": b.add_project(al(k[1]))
                elif n == "ext": b.add_external(aid(k[1]), clingo.TruthValue.__members__[k[2]])
                elif n == "assume": b.add_assume(al(k[1]))
                elif n == "heu": b.add_heuristic(aid(k[1]), clingo.HeuristicType.__members__[k[2]], int(k[3]), int(k[4]), al(k[5]))
                elif n == "edge": b.add_acyc_edge(int(k[1]), int(k[2]), al(k[3]))
                elif n == "tnum": env[k[1]] = b.add_theory_term_number(int(k[2]))
                elif n == "tstr": env[k[1]] = b.add_theory_term_string(dec(k[2]))
                elif n == "tfun": env[k[1]] = b.add_theory_term_function(dec(k[2]), al(k[3]))
                elif n == "tseq": env[k[1]] = b.add_theory_term_sequence(clingo.TheorySequenceType.__members__[k[2]] if hasattr(clingo, "TheorySequenceType") else getattr(__import__("clingo.backend", fromlist=["x"]).TheorySequenceType, k[2]), al(k[3]))
                elif n == "tsym": env[k[1]] = b.add_theory_term_symbol(E(dec(k[2])))
                elif n == "telem": env[k[1]] = b.add_theory_element(al(k[2]), al(k[3]))
                elif n == "tatom":
                    at = [] if k[2] == "-" else [aid(k[2])]
                    env[k[1]] = b.add_theory_atom(aid(k[3]), al(k[4]), *at) if k[5] == "-" else b.add_theory_atom_with_guard(aid(k[3]), al(k[4]), dec(k[5]), aid(k[6]), *at)
                else: raise RuntimeError("bad backend op " + n)
            self.o("ids " + " ".join("%s=%s" % (a, env[a]) for a in sorted(env)))


def main():
    out = os.fdopen(os.dup(1), "w", buffering=1 << 16, errors="surrogateescape")
    d = Driver(out)
    for line in sys.stdin:
        if line.startswith("#"):      # case separator: drop all state
            out.write(line)
            out.flush()
            d = Driver(out)
            if os.environ.get("DRV_GC"): gc.collect()
            continue
        d.run(line)
        out.flush()


if __name__ == "__main__":
    main()
