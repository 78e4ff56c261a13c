"""Python-specific symbol surface: reprs, constructors, error behaviour, logger of parse_term."""
import random, sys
import vf, symgen as S
import clingo
from clingo import Function, Number, String, Infimum, Supremum, Tuple_, SymbolType, Symbol, parse_term, MessageCode
S.BIG = True

w = vf.Worker()
rng = random.Random(w.batch["seed"])


def mk(s):
    if s[0] == "n": return Number(s[1])
    if s[0] == "s": return String(s[1])
    if s[0] == "i": return Infimum
    if s[0] == "p": return Supremum
    if s[1] == "" and rng.random() < 0.5: return Tuple_([mk(x) for x in s[3]])
    if not s[3] and s[2] and rng.random() < 0.5: return Function(s[1])
    if s[2] and rng.random() < 0.5: return Function(s[1], [mk(x) for x in s[3]])
    return Function(s[1], tuple(mk(x) for x in s[3]), s[2])


def same(x, s):
    if s[0] == "n": return x.type == SymbolType.Number and x.number == s[1]
    if s[0] == "s": return x.type == SymbolType.String and x.string == s[1]
    if s[0] == "i": return x.type == SymbolType.Infimum
    if s[0] == "p": return x.type == SymbolType.Supremum
    return x.type == SymbolType.Function and x.name == s[1] and x.positive is s[2] and x.negative is (not s[2]) and len(x.arguments) == len(s[3]) and all(same(a, b) for a, b in zip(x.arguments, s[3]))


def fails(f):
    try: f()
    except Exception: return True
    return False


env = {n: getattr(clingo, n) for n in ("Function", "Number", "String", "Infimum", "Supremum")}
for i in range(w.batch["n"]):
    s = S.gen(rng, rng.choice([0, 1, 2, 3]))
    t = S.text(s)
    w.begin(t[:200])
    x = mk(s)
    w.case(t, n=5, sample=t[:100])
    if not same(x, s): w.viol("py-structure", t)
    if eval(repr(x), dict(env)) != x: w.viol("py-repr", repr(x))
    y = mk(s)
    if y != x or hash(y) != hash(x) or len({x, y}) != 1: w.viol("py-rebuild", t)
    if s[0] == "f":
        for nm in (s[1], s[1] + "y"):
            for ar in (len(s[3]), len(s[3]) + 1):
                for pos in (True, False):
                    if x.match(nm, ar, pos) != ((nm, ar, pos) == (s[1], len(s[3]), s[2])): w.viol("py-match", (t, nm, ar, pos))
        if x.match(s[1], len(s[3])) != s[2]: w.viol("py-match-default", t)
    elif x.match("", 0) or x.match("a", 1): w.viol("py-match-nonfun", t)
    ty = {"n": "Number", "s": "String", "i": "Infimum", "p": "Supremum", "f": "Function"}[s[0]]
    if x.type.name != ty: w.viol("py-type", t)
    if x == 1 or x == t or not (x != None): w.viol("py-eq-foreign", t)
    if not fails(lambda: x < 1): w.viol("py-lt-foreign", t)
    msgs = []
    bad = t + "("
    if not fails(lambda: parse_term(bad, lambda c, m: msgs.append((c, m)))): w.viol("py-parse-bad", bad)
    if parse_term(t) != x: w.viol("py-parse", t)
for v in (1 << 31, -(1 << 31) - 1, 1 << 40):
    w.begin("Number(%d)" % v)
    w.case("big%d" % v)
    if not fails(lambda: Number(v)): w.viol("py-number-overflow", v)
if [Infimum.type, Supremum.type] != [SymbolType.Infimum, SymbolType.Supremum]: w.viol("py-const", "")
w.begin("arith")
for a, f in (("1+2", 3), ("-7/2", -3), ("2**10", 1024), ("5\\3", 2), ("|-4|", 4), ("6&3", 2), ("6?3", 7), ("6^3", 5), ("~0", -1), ("(3)", 3), ("-(-3)", 3)):
    w.case(a)
    if parse_term(a) != Number(f): w.viol("py-parse-arith", (a, str(parse_term(a))))
for a in ("X", "1/0", "a+1", "f(_)", "1..2", "(1;2)"):
    w.case(a)
    if not fails(lambda: parse_term(a, lambda c, m: None)): w.viol("py-parse-nonground", a)
w.done()
