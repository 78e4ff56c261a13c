"""Reference for terms: two's complement arithmetic over 32 bits, intervals, pools and matching, on a term representation of its own."""
INTMIN, INTMAX = -2147483648, 2147483647


class Undef(Exception): pass


overflows = [0]   # how often a result did not fit


def wrap(x):
    if not INTMIN <= x <= INTMAX: overflows[0] += 1
    return (x + 2147483648) % 4294967296 - 2147483648


def tdiv(x, y): return wrap((abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1))


def power(x, y):
    if y < 0:
        if x == 0: raise Undef
        return 0
    if abs(x) > 1 and y > 31: overflows[0] += 1
    return wrap(pow(x, y, 4294967296) if y > 31 else x ** y)


def binop(op, x, y):
    if not isinstance(x, int) or not isinstance(y, int): raise Undef
    if op == "+": return wrap(x + y)
    if op == "-": return wrap(x - y)
    if op == "*": return wrap(x * y)
    if op == "/":
        if y == 0: raise Undef
        return tdiv(x, y)
    if op == "\\":
        if y == 0: raise Undef
        return wrap(x - y * (abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)))
    if op == "**": return power(x, y)
    if op == "&": return wrap(x & y)
    if op == "?": return wrap(x | y)
    if op == "^": return wrap(x ^ y)


def neg(v):
    """Unary minus: numbers are negated, functions and tuples change their sign."""
    if isinstance(v, int): return wrap(-v)
    if isinstance(v, tuple) and v[0] == "f": return ("f", v[1], v[2], not v[3])
    raise Undef


def values(t, env):
    """All values of a term: intervals and pools multiply. Undefined alternatives raise Undef inside the caller's enumeration (they vanish)."""
    k = t[0]
    if k == "num": return [t[1]]
    if k == "sym": return [t[1]]
    if k == "var": return [env[t[1]]]
    if k == "bin":
        out = []
        for x in values(t[2], env):
            for y in values(t[3], env):
                try: out.append(binop(t[1], x, y))
                except Undef: pass
        return out
    if k == "neg":
        out = []
        for x in values(t[1], env):
            try: out.append(neg(x))
            except Undef: pass
        return out
    if k == "not": return [~x for x in values(t[1], env) if isinstance(x, int)]
    if k == "abs": return [wrap(abs(x)) for x in values(t[1], env) if isinstance(x, int)]
    if k == "fun":
        res = [[]]
        for a in t[2]:
            vs = values(a, env)
            res = [r + [v] for r in res for v in vs]
        return [("f", t[1], tuple(r), True) for r in res]
    if k == "dots":
        return [z for x in values(t[1], env) for y in values(t[2], env) if isinstance(x, int) and isinstance(y, int) for z in range(x, y + 1)]
    if k == "pool": return [v for a in t[1] for v in values(a, env)]
    raise ValueError(k)


def show(v):
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return v        # strings, #inf, #sup as printed
    _, n, a, pos = v
    s = ("" if pos else "-") + n
    if not n and len(a) == 1: return "(%s,)" % show(a[0])
    return s + ("(%s)" % ",".join(map(show, a)) if a or not n else "")


PREC = {"**": 5, "*": 4, "/": 4, "\\": 4, "+": 3, "-": 3, "&": 2, "?": 1, "^": 0}


def text(t, r=None):
    """Program text; r (a random source) decides about superfluous parentheses."""
    k = t[0]
    if k == "num":
        return str(t[1]) if t[1] != INTMIN else "(-2147483647-1)"
    if k == "sym": return show(t[1])
    if k == "var": return t[1]
    if k == "bin": return "(%s%s%s)" % (text(t[2], r), t[1], text(t[3], r))
    if k == "neg": return "-(%s)" % text(t[1], r)
    if k == "not": return "~(%s)" % text(t[1], r)
    if k == "abs": return "|%s|" % text(t[1], r)
    if k == "fun":
        a = ",".join(text(x, r) for x in t[2])
        if not t[1]: return "(%s,)" % a if len(t[2]) == 1 else "(%s)" % a
        return t[1] + ("(%s)" % a if t[2] else "")
    if k == "dots": return "(%s..%s)" % (text(t[1], r), text(t[2], r))
    if k == "pool": return "(%s)" % ";".join(text(x, r) for x in t[1])


def flat(t):
    """Text with only the parentheses that precedence and associativity ask for."""
    def go(t, p):
        k = t[0]
        if k == "bin":
            op = t[1]; q = PREC[op]
            if op == "**": s = go(t[2], q + 1) + op + go(t[3], q)      # right associative
            else: s = go(t[2], q) + op + go(t[3], q + 1)
            return "(%s)" % s if q < p else s
        if k == "neg": return "-" + go(t[1], 6)
        if k == "not": return "~" + go(t[1], 6)
        if k == "num" and t[1] < 0: return "(%s)" % text(t) if p else text(t)
        return text(t)
    return go(t, 0)


def key(v):
    """Total order of ground terms."""
    if v == "#inf": return (0,)
    if isinstance(v, int): return (1, v)
    if isinstance(v, str) and v.startswith('"'): return (3, v)
    if v == "#sup": return (6,)
    raise ValueError
