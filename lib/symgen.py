"""Reference model of symbols: ("n",int) ("s",str) ("i",) ("p",) ("f",name,positive,(args...)); name "" is a tuple."""
import functools
from drivers import enc

INTS = [0, 1, -1, 2, 7, 42, -100, 255, 256, 65535, 65536, 1 << 20, (1 << 30) - 1, 1 << 30, -(1 << 30), -(1 << 30) - 1, (1 << 31) - 1, -(1 << 31), -(1 << 31) + 1]
NAMES = ["a", "b", "aa", "ab", "p", "q", "f", "x1", "_x", "__y", "a'", "abc_DEF'9", "notx", "z" * 40, "_'q", "'q", "p" * 200]
STRS = ["", "a", "b", "A", "hello world", 'q"uote', "back\\slash", "new\nline", "\\n", "\\\\", '\\"', "tab\t", "\r", "\x01\x7f", "äöü€", "\U0001F600", "#inf", "a,b(c)", "%*", "x" * 300, "\n\n", '"', "\\", "'", "a\\", "-", "not a", "\\n\n\\\"", "0", "1"]


BIG = False      # also very long names, strings and argument lists


def name(rng):
    return "n" * (rng.choice([1, 2, 3]) * (1 << rng.randint(5, 16)) + rng.randint(-2, 2)) if BIG and rng.random() < 0.01 else rng.choice(NAMES)


def gen(rng, depth=3):
    k = rng.random()
    if depth == 0 or k < 0.45:
        k = rng.random()
        if k < 0.35: return ("n", rng.choice(INTS) if rng.random() < 0.5 else rng.randint(-(1 << 31), (1 << 31) - 1) if rng.random() < 0.5 else rng.randint(-9, 9))
        if k < 0.6:
            s = rng.choice(STRS)
            if BIG and rng.random() < 0.02: s = rng.choice("ab\u00e9") * (rng.choice([1, 2, 3]) * (1 << rng.randint(5, 16)) + rng.randint(-2, 2))
            elif rng.random() < 0.4: s = "".join(rng.choice('ab"\\\n\t ,()é#%\'n') for _ in range(rng.randint(0, 6)))
            return ("s", s)
        if k < 0.66: return ("i",)
        if k < 0.72: return ("p",)
        return ("f", name(rng), rng.random() < 0.75, ())
    n = rng.choice([0, 1, 1, 2, 2, 3, 3, 5, 12]) if not BIG or rng.random() > 0.01 or depth > 1 else rng.choice([64, 255, 256, 257, 1024])
    if rng.random() < 0.4: return ("f", "", True, tuple(gen(rng, depth - 1) for _ in range(n)))
    return ("f", rng.choice(NAMES), rng.random() < 0.75, tuple(gen(rng, depth - 1) for _ in range(max(n, 1))))


def build(s):
    """Tokens understood (and printed) by the drivers."""
    if s[0] == "n": return "n:%d" % s[1]
    if s[0] == "s": return "s:" + enc(s[1])
    if s[0] in "ip": return s[0]
    h = "t:%d" % len(s[3]) if s[1] == "" else "f:%s:%s:%d" % (enc(s[1]), "+" if s[2] else "-", len(s[3]))
    return " ".join([h] + [build(x) for x in s[3]])


def quote(t): return '"' + t.replace("\\", "\\\\").replace("\n", "\\n").replace('"', '\\"') + '"'


def text(s):
    if s[0] == "n": return str(s[1])
    if s[0] == "s": return quote(s[1])
    if s[0] == "i": return "#inf"
    if s[0] == "p": return "#sup"
    a = ",".join(text(x) for x in s[3])
    if s[1] == "" and len(s[3]) == 1: a += ","
    return ("" if s[2] else "-") + s[1] + ("(" + a + ")" if s[3] or s[1] == "" else "")


def kind(s):
    if s[0] == "i": return 0
    if s[0] == "n": return 1
    if s[0] == "p": return 7
    if s[0] == "s": return 4
    if s[3]: return 5          # the empty tuple is a constant without a name
    return 2 if s[2] else 3


def cmp(a, b):
    """The documented total order."""
    x, y = kind(a), kind(b)
    if x != y: return -1 if x < y else 1
    if x in (0, 7): return 0
    if x == 1: u, v = a[1], b[1]
    elif x == 4 or x in (2, 3): u, v = a[1].encode(), b[1].encode()
    else:
        u, v = (not a[2], len(a[3]), a[1].encode()), (not b[2], len(b[3]), b[1].encode())
        if u == v:
            for i, j in zip(a[3], b[3]):
                c = cmp(i, j)
                if c: return c
            return 0
    return -1 if u < v else 1 if u > v else 0


order = functools.cmp_to_key(cmp)
