"""Python sequences of syntax trees: list behaviour of views on attributes, references dropped in any order, indices out of range."""
import copy, gc, random
import vf
from clingo import ast
from clingo.ast import *

w = vf.Worker()
rng = random.Random(w.batch["seed"])
LOC = Location(Position("f", 1, 1), Position("f", 1, 2))
ev = 0


def item(strs):
    if strs: return rng.choice(["a", "b", "+", "-*", "", "longer string than the others", "\u00e4"]) + str(rng.randrange(9))
    return rng.choice([lambda: Variable(LOC, "X%d" % rng.randrange(99)), lambda: Function(LOC, "f%d" % rng.randrange(99), [Variable(LOC, "Y")], 0)])()


def make(strs, items):
    """A tree with an array attribute holding the items: (tree, attribute)."""
    if strs: return rng.choice([lambda: (TheoryUnparsedTermElement(list(items), Variable(LOC, "X")), "operators"), lambda: (TheoryGuardDefinition(tuple(items), "t"), "operators")])()
    return rng.choice([lambda: (Function(LOC, "g", list(items), 0), "arguments"), lambda: (Pool(LOC, tuple(items)), "arguments"), lambda: (TheoryAtomElement(tuple(items), []), "terms"),
                       lambda: (TheorySequence(LOC, TheorySequenceType.Tuple, items), "terms"), lambda: (Minimize(LOC, Variable(LOC, "W"), Variable(LOC, "P"), items, []), "terms")])()


def raises(exc, what, f, *a):
    try: r = f(*a)
    except exc: return
    except Exception as e: w.viol("exception-" + what, f"{what}: {e!r} instead of {exc}")
    else: w.viol("noerror-" + what, f"{what} {a}: {r!r} returned, {exc} expected")


def same(seq, lst, what, log):
    global ev
    ev += 1
    n = len(lst)
    try:
        if len(seq) != n or list(seq) != lst or [seq[i] for i in range(n)] != lst or [seq[i] for i in range(-n, 0)] != lst or list(reversed(seq)) != lst[::-1] or bool(seq) != bool(lst):
            w.viol("content-" + what, f"{what}: {list(map(str, seq))} expected {list(map(str, lst))} after {log}")
            return False
        if n and (seq.index(lst[-1]) != lst.index(lst[-1]) or seq.count(lst[0]) != lst.count(lst[0]) or lst[0] not in seq): w.viol("search-" + what, f"{what} after {log}")
        if str(seq) != str(lst) or repr(seq) != repr(lst): w.viol("str-" + what, f"{seq} != {lst}")
    except Exception as e:
        w.viol("exception-" + what, f"{what}: {e!r} after {log}; expected {list(map(str, lst))}")
        return False
    return True


def rslice(n): return slice(*[rng.choice([None, rng.randint(-n - 2, n + 2)]) for _ in range(2)], rng.choice([None, None, 1, 2, 3, -1, -2]))


for n in range(w.batch["n"]):
    strs = rng.random() < 0.35
    w.begin(f"sequence {n}")
    lst = [item(strs) for _ in range(rng.choice([0, 1, 2, 3, 6]))]
    node, attr = make(strs, lst)
    views = [getattr(node, attr)]
    twin = copy.deepcopy(node) if rng.random() < 0.5 else None
    was = list(lst)
    log = []
    dead = False
    for _ in range(rng.randint(5, 30)):
        if not dead and rng.random() < 0.15: views.append(getattr(node, attr))
        if len(views) > 1 and rng.random() < 0.2: views.pop(rng.randrange(len(views)))
        if not dead and rng.random() < 0.03:
            node = None         # the sequences keep the tree alive
            dead = True
        if rng.random() < 0.05: gc.collect()
        seq = rng.choice(views)
        k = len(lst)
        op = rng.choice(["get", "set", "del", "insert", "append", "extend", "pop", "remove", "reverse", "clear", "iadd", "slice", "sliceset", "slicedel", "sliceins", "range", "assign", "nest"])
        if op in ("clear", "reverse") and rng.random() < 0.6: continue
        log.append(op)
        i = rng.randint(-k, k - 1) if k else 0
        x = item(strs)
        try:
            if op == "get":
                if k and seq[i] != lst[i]: w.viol("get", f"{i}: {seq[i]} {lst[i]}")
            elif op == "set":
                if k:
                    seq[i] = x
                    lst[i] = x
            elif op == "del":
                if k:
                    del seq[i]
                    del lst[i]
            elif op == "insert":
                j = rng.randint(-k - 3, k + 3)
                log[-1] = f"insert {j}/{k}"
                seq.insert(j, x)
                lst.insert(j, x)
            elif op == "append":
                seq.append(x)
                lst.append(x)
            elif op in ("extend", "iadd"):
                xs = [item(strs) for _ in range(rng.randint(0, 3))]
                if rng.random() < 0.2: xs = None
                if op == "extend" or xs is None: seq.extend(seq if xs is None else iter(xs))
                else: seq += xs
                lst.extend(list(lst) if xs is None else xs)
                if len(lst) > 60:
                    seq.clear()
                    lst.clear()
            elif op == "pop":
                if k:
                    a, b = (seq.pop(), lst.pop()) if rng.random() < 0.4 else (seq.pop(i), lst.pop(i))
                    if a != b: w.viol("pop", f"{a} {b}")
                else: raises(IndexError, "pop", seq.pop)
            elif op == "remove":
                if k:
                    y = lst[i]
                    seq.remove(y)
                    lst.remove(y)
                else: raises(ValueError, "remove", seq.remove, x)
            elif op == "reverse":
                seq.reverse()
                lst.reverse()
            elif op == "clear":
                seq.clear()
                lst.clear()
            elif op == "range":
                for j in (k, k + 1, -k - 1, -k - 7, 10 ** 6):
                    raises(IndexError, "get", lambda: seq[j])
                    raises(IndexError, "set", lambda: seq.__setitem__(j, x))
                    raises(IndexError, "del", lambda: seq.__delitem__(j))
                raises(TypeError, "type", lambda: seq["a"])
                raises((TypeError, AttributeError), "value", lambda: seq.append(17))
                raises((TypeError, AttributeError), "value", lambda: seq.insert(0, None))
                if k: raises((TypeError, AttributeError), "value", lambda: seq.__setitem__(0, 1.5))
            elif op in ("slice", "nest"):
                s = rslice(k)
                v, e = seq[s], lst[s]
                if op == "nest":
                    t = rslice(len(e))
                    v, e = v[t], e[t]
                same(v, e, op, log + [s])
                for j in (len(e), -len(e) - 1): raises(IndexError, "sliceget", lambda: v[j])
                if rng.random() < 0.3: same(seq[:], lst, "copy", log)
            elif op in ("sliceset", "slicedel"):
                s = rslice(k)
                r = range(k)[s]
                if r:
                    j = rng.randint(-len(r), len(r) - 1)
                    log[-1] = f"{op} {s} {j}"
                    if op == "sliceset":
                        seq[s][j] = x
                        lst[r[j]] = x
                    else:
                        del seq[s][j]
                        del lst[r[j]]
            elif op == "sliceins":
                a, b = sorted((rng.randint(0, k), rng.randint(0, k)))
                j = rng.randint(-(b - a) - 2, b - a + 2)
                log[-1] = f"sliceins {a}:{b} {j}"
                t = lst[a:b]
                t.insert(j, x)
                seq[a:b].insert(j, x)
                lst[a:b] = t
            elif op == "assign" and not dead:
                how = rng.randrange(4)
                if how == 0: setattr(node, attr, seq)       # itself
                elif how == 1:
                    xs = [item(strs) for _ in range(rng.randint(0, 3))]
                    setattr(node, attr, tuple(xs))
                    lst[:] = xs
                elif how == 2:
                    s = rslice(k)
                    setattr(node, attr, list(seq[s]))
                    lst[:] = lst[s]
                else:
                    xs = [item(strs) for _ in range(rng.randint(0, 3))]
                    o, a = make(strs, xs)
                    setattr(node, attr, getattr(o, a))
                    lst[:] = xs
        except Exception as e:
            w.viol("exception-" + op, f"{op}: {type(e).__name__} {e} after {log}")
            break
        if not same(seq, lst, op, log): break
    else:
        if any(not same(v, lst, "view", log) for v in views): pass
        if not dead and list(getattr(node, attr)) != lst: w.viol("node", str(log))
        if twin is not None and list(getattr(twin, attr)) != was: w.viol("twin", f"changing a tree changed its deep copy: {log}")
    w.case(f"{attr} {log}", n=len(log))

# whole programs: trees whose references are dropped in random order
TEXT = ["a(X;Y) :- b(X,Y), not c, X=1..3.", "{a:b;c} 3.", ":- #sum { X,Y : p(X), q(Y) ; 1 : r } = Z, s.", "&diff { a-b : p } <= 3 :- x.", "#theory t { x { + : 1, unary; - : 2, binary, left }; &diff/1 : x, {<=}, x, any }.",
        "#minimize { 1@2,X : a(X), X != 3 }.", "#show a(X) : b(X).", "#heuristic a(X) : b(X). [1@2,sign]", "a | b : c ; d :- not not e.", "#program p(x,y).", ":~ a(X). [X@2,X]", "x = { a } = y."]
for n in range(w.batch["n"] // 3):
    w.begin(f"program {n}")
    pool = []
    parse_string("\n".join(rng.sample(TEXT, rng.randint(1, 4))), pool.append)
    texts = [str(x) for x in pool]
    pairs = list(zip(pool, texts))
    pool = None
    ops = 0
    for _ in range(rng.randint(10, 60)):
        if not pairs: break
        x, t = rng.choice(pairs)
        ops += 1
        k = rng.randrange(8)
        if k < 4:
            ks = [q for q in x.child_keys] if isinstance(x, AST) else []
            if ks:
                c = getattr(x, rng.choice(ks))
                if isinstance(c, AST): pairs.append((c, str(c)))
                elif c is not None:
                    for y in c: pairs.append((y, str(y)))
                    if len(c): pairs.append((c[rng.randrange(len(c))], None))
        elif k == 4: pairs.append((copy.copy(x), t))
        elif k == 5:
            c = copy.deepcopy(x)
            if c != x or hash(c) != hash(x) or c is x: w.viol("deepcopy", t)
            pairs.append((c, t))
        elif k == 6:
            for y in x.unpool(): pairs.append((y, None))
        else: pairs.pop(rng.randrange(len(pairs)))
        if len(pairs) > 40: del pairs[rng.randrange(len(pairs)):]
        x = t = c = y = None
    for x, t in pairs:
        if t is not None and str(x) != t: w.viol("changed", f"{t!r} became {str(x)!r}")
    pairs = x = t = None
    w.case(f"program {n}", n=ops)
w.count("sequence_states", ev)
w.done()
