"""Python-specific ordering surface: containers, sorting, sets, dictionaries, total_ordering operators, enums."""
import random
import vf, symgen as S
import clingo
from clingo import Function, Number, String, Infimum, Supremum, SymbolType

w = vf.Worker()
rng = random.Random(w.batch["seed"])


def mk(s):
    if s[0] == "n": return Number(s[1])
    if s[0] == "s": return String(s[1])
    if s[0] == "i": return Infimum
    if s[0] == "p": return Supremum
    return Function(s[1], [mk(x) for x in s[3]], s[2])


for i in range(w.batch["n"]):
    base = [S.gen(rng, rng.choice([0, 1, 2])) for _ in range(20)]
    l = [rng.choice(base) for _ in range(40)]
    w.begin(str([S.text(s) for s in l])[:300])
    w.case(str(l), n=120)
    x = [mk(s) for s in l]
    sl = sorted(l, key=S.order)
    if [str(a) for a in sorted(x)] != [S.text(s) for s in sl]: w.viol("py-sorted", [S.text(s) for s in l])
    if [str(a) for a in sorted(x, reverse=True)] != [S.text(s) for s in reversed(sl)]: w.viol("py-rsorted", "")
    if str(min(x)) != S.text(sl[0]) or str(max(x)) != S.text(sl[-1]): w.viol("py-minmax", "")
    st = set(x)
    if len(st) != len(set(l)): w.viol("py-set", "%d %d" % (len(st), len(set(l))))
    d = {}
    ref = {}
    for a, s in zip(x, l):
        d[a] = d.get(a, 0) + 1
        ref[s] = ref.get(s, 0) + 1
    for s, n in ref.items():
        if d.get(mk(s)) != n: w.viol("py-dict", S.text(s))
    for s in [S.gen(rng, 2) for _ in range(10)]:
        if (mk(s) in st) != (s in set(l)): w.viol("py-member", S.text(s))
        if (mk(s) in x) != (s in l): w.viol("py-listmember", S.text(s))
    a, b = rng.sample(range(40), 2)
    c = S.cmp(l[a], l[b])
    if [x[a] < x[b], x[a] <= x[b], x[a] == x[b], x[a] != x[b], x[a] >= x[b], x[a] > x[b]] != [c < 0, c <= 0, c == 0, c != 0, c >= 0, c > 0]: w.viol("py-ops", (S.text(l[a]), S.text(l[b])))
# the enumerations used as keys
import clingo.core
vals = list(SymbolType)
for a in vals:
    for b in vals:
        w.case((a.name, b.name))
        if [a < b, a <= b, a > b, a >= b] != [a.value < b.value, a.value <= b.value, a.value > b.value, a.value >= b.value]: w.viol("py-enum-order", (a, b))
w.done()
