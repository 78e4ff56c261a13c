"""P10: scripted propagators. One script (drv `prop` op) is run by the Python, C++ and Lua interface and by the C++ driver compiled
against the installed headers; a trace checker judges every notification and the models are compared with brute force.

Items: mode M | watch L T | unwatch L T | freeze L | fresh F | ic Ls | iw L bound type eq wLs | im L w p | ip |
pc tag lock ng Ls | cc tag lock ng Ls | at k what L | decide fb Ls | quiet"""
import collections, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, drivers as D, asp, scen

KINDS = ("py", "cc", "lua")


class Case: pass


def sl(p, l):       # literal (index, sign) -> script token; index >= n: fresh, None: true literal
    s = "+" if l[1] else "-"
    if l[0] is None: return s + "!"
    if l[0] >= p.n: return s + "#%d" % (l[0] - p.n)
    return s + D.enc(p.names[l[0]])


def build(rng, threads=1):
    c = Case()
    n = rng.randint(3, 6)
    p = asp.gen(rng, n, rng.randint(1, 6), ("choice", "neg2"))
    free = rng.sample(range(n), rng.randint(1, n))
    p.add(("c", free, None, None))
    possible = [a for a in range(n) if p.supportable() >> a & 1]
    # atoms that appear in the ground program: restrict the script to those the reference run lists (checked by the driver through errors)
    c.p, c.threads = p, threads
    # program part of the heads only: derivable atoms by positive closure
    reach, ch = 0, True
    while ch:
        ch = False
        for h, b in p.rules:
            if all(e[0] != "l" or e[1] != 0 or reach >> e[2] & 1 for e in b):
                for a in h[1]:
                    if not reach >> a & 1:
                        reach |= 1 << a
                        ch = True
    dom = [a for a in range(n) if reach >> a & 1]
    c.multi = rng.random() < 0.3
    c.props = []
    c.cons = []          # (ok) functions over assignment list, persisting
    c.minim = collections.defaultdict(list)
    c.nfresh = 0
    c.dynfresh = False
    quiet = threads > 1 or rng.random() < 0.05
    for pi in range(1 if rng.random() < 0.8 else 2):
        it = []
        fresh = []
        def L():
            k = rng.random()
            if fresh and k < 0.2: return rng.choice(fresh), rng.random() < 0.5
            if k > 0.97: return None, rng.random() < 0.5
            return rng.choice(dom), rng.random() < 0.5
        if quiet: it.append("quiet")
        mode = rng.choice(["none", "total", "total", "fix", "both", None])
        if mode: it.append("mode " + mode)
        if threads == 1 and not c.multi and rng.random() < 0.3:
            for _ in range(rng.randint(1, 2)):
                it.append("fresh " + rng.choice("-01"))
                fresh.append(n + len(fresh))
            c.nfresh += len(fresh)
        off = c.nfresh - len(fresh)
        def tv(l, o=off): return (l[0] if l[0] is None or l[0] < n else l[0] + o, l[1])
        watched = set()
        for _ in range(rng.randint(0, 6)):
            l = L()
            t = "-" if rng.random() < 0.8 else str(rng.randrange(threads))
            it.append("watch %s %s" % (sl(p, l), t))
        if rng.random() < 0.2:
            for _ in range(rng.randint(1, 2)): it.append("unwatch %s %s" % (sl(p, L()), "-" if rng.random() < 0.5 else "0"))
        if rng.random() < 0.3: it.append("freeze " + sl(p, L()))
        if rng.random() < 0.25:
            for _ in range(rng.randint(1, 2)):
                ls = [L() for _ in range(rng.randint(0 if rng.random() < 0.05 else 1, 3))]
                it.append("ic " + (",".join(sl(p, l) for l in ls) or "-"))
                c.cons.append(("or", [tv(l) for l in ls]))
        if rng.random() < 0.25:
            l, ws = L(), [(L(), rng.choice([1, 1, 2, 3, -1, -2, 0])) for _ in range(rng.randint(1, 4))]
            b, ty, eq = rng.randint(-2, 4), rng.choice([0, 0, -1, 1]), rng.random() < 0.3
            if eq: ty = 0
            it.append("iw %s %d %d %d %s" % (sl(p, l), b, ty, eq, ",".join("%s=%d" % (sl(p, x), w) for x, w in ws)))
            c.cons.append(("wc", tv(l), [(tv(x), w) for x, w in ws], b, ty, eq))
        if rng.random() < 0.15 and pi == 0:
            for _ in range(rng.randint(1, 3)):
                l, w, pr = L(), rng.choice([1, 2, 3, 5]), rng.choice(["-", "0", "1", "-2"])
                it.append("im %s %d %s" % (sl(p, l), w, pr))
                c.minim[0 if pr == "-" else int(pr)].append((tv(l), w))
        if rng.random() < 0.3: it.append("ip")
        for _ in range(rng.randint(0, 3)):
            k = rng.choice(["pc", "pc", "cc"])
            ls = [L() for _ in range(rng.randint(1, 3))]
            ng = rng.random() < 0.5
            if k == "pc":
                for l in ls:
                    if l[0] is not None: it.append("watch %s -" % sl(p, (l[0], l[1] if ng else not l[1])))
            it.append("%s %d %d %d %s" % (k, rng.random() < 0.3, rng.random() < 0.3, ng, ",".join(sl(p, l) for l in ls)))
            # guaranteed if total checks are made
            if mode in ("total", "both", None): c.cons.append(("ng" if ng else "or", [tv(l) for l in ls]))
            else: c.cons.append(("maybe",))
        if threads == 1 and rng.random() < 0.3:
            for _ in range(rng.randint(1, 3)):
                k = rng.choice(["watch", "unwatch", "has", "fresh" if rng.random() < 0.3 else "watch"])
                c.dynfresh |= k == "fresh"
                it.append("at %d %s %s" % (rng.randint(1, 6), k, sl(p, L())))
        if rng.random() < 0.4: it.append("decide %s %s" % (rng.choice("0f"), ",".join(sl(p, L()) for _ in range(rng.randint(1, 4)))))
        rest = [x for x in it if x.split(" ")[0] not in ("quiet", "fresh")]
        if rng.random() < 0.5: rng.shuffle(rest)
        it = [x for x in it if x.split(" ")[0] in ("quiet", "fresh")] + rest
        c.props.append(it)
    args = "0" if threads == 1 else "0;-t%d" % threads
    c.ops = [D.op("new", "0", args), D.op("add", "base", "", D.enc(p.text(rng))), D.op("ground", "base")]
    for i, it in enumerate(c.props): c.ops.append(D.op("prop", "P%d " % i, *it))
    if c.minim: c.ops.append(D.op("confset", "solve.opt_mode", "enum"))
    c.steps = []
    for k in range(2 if c.multi else 1):
        ass = [(rng.choice("+-"), rng.choice(dom)) for _ in range(rng.randint(1, 2))] if rng.random() < 0.3 else []
        lim = rng.choice([0, 0, 0, 0, 1, 2]) if threads == 1 else 0
        c.ops.append(D.op("solve", rng.choice(["cb", "yield", "step"] if threads > 1 or rng.random() < 0.8 else ["async", "ayield"]), ";".join(s + D.enc(p.names[a]) for s, a in ass), str(lim)))
        c.steps.append((len(c.ops) - 1, ass, lim))
    return c


def expected(c, ass, rep=1):
    """[(mask, cost)] of all extended solutions."""
    p = c.p
    res = []
    minp = sorted(c.minim, reverse=True)
    for M in p.answer_sets():
        if any((M >> a & 1) != (s == "+") for s, a in ass): continue
        for F in range(1 << c.nfresh):
            X = M | F << p.n
            tv = lambda l: (True if l[0] is None else bool(X >> l[0] & 1)) == l[1]
            ok = True
            for k in c.cons:
                if k[0] == "or": ok = any(tv(l) for l in k[1])
                elif k[0] == "ng": ok = not all(tv(l) for l in k[1])
                elif k[0] == "wc":
                    s = sum(w for l, w in k[2] if tv(l))
                    h = s == k[3] if k[5] else s >= k[3]
                    ok = tv(k[1]) == h if k[4] == 0 else (tv(k[1]) or not h) if k[4] == -1 else (h or not tv(k[1]))
                if not ok: break
            if ok: res.append((M, tuple(rep * sum(w for l, w in c.minim[q] if tv(l)) for q in minp)))
    return res


def pl(s): return [] if s == "-" else [int(x) for x in s.split(",")]


def trace(bad, c, pi, lines, count):
    """Checks the notifications of one propagator during one solve call."""
    items = [x.split(" ") for x in c.props[pi]]
    mode = "Total"
    mp, fresh = None, []
    watch = {}         # literal -> possibly, certainly watched
    stack = {}         # pending literals in order of delivery per thread 0: list of (lit, level)
    pend = []
    last = None
    dec = None
    def lit(x):
        s = -1 if x[0] == "-" else 1
        if x[1:] == "!": return s
        return s * (fresh[int(x[2:])] if x[1] == "#" else mp[x[1:]])
    for ln in lines:
        f = ln.split(" | ")
        h = f[0].split(" ")
        if h[0] == "BAD":
            bad(h[1], ln)
            continue
        if h[0] == "init":
            mp = {k: int(v) for k, v in (x.rsplit("=", 1) for x in h[4:] if x)}
            if int(h[1]) != 1: bad("threads", ln)
            if int(h[2]) != 0: bad("theory", ln)
            fresh, watch, pend, mode = [], {}, [], h[3]
            dynun = set()
            continue
        if h[0] == "fresh": fresh.append(int(h[1]))
        elif h[0] == "mode": mode = h[1]
        elif h[0] == "at":
            l = lit(h[2])
            if h[1] == "watch" and h[3] != "1": bad("watch", "has_watch denies a watch just added: " + ln)
            if h[1] == "unwatch" and h[3] != "0": bad("unwatch", "has_watch reports a watch just removed: " + ln)
            if h[1] == "watch": watch[l] = True
            if h[1] == "unwatch": watch[l] = False
            if h[1] == "has" and h[3] != ("1" if watch.get(l) else "0"): bad("haswatch", f"{ln} but watched={watch.get(l)}")
        if len(f) < 6: continue
        lvl, root, conf, tot, size, misc = f[1].split(" ")
        lvl, root, size = int(lvl), int(root), int(size)
        count("states")
        if misc != "10": bad("badlit", "literal 2^28 accepted: " + misc)
        val, lev = {}, {}
        for x in (f[2].split(" ") if f[2] != "-" else []):
            l, v, d, fl = x.split(":")
            l = int(l)
            val[l] = v
            lev[l] = None if d == "-" else int(d)
            if (v == "t") != (fl[1] == "1") or (v == "f") != (fl[2] == "1"): bad("truth", f"is_true/is_false disagree with value: {x}")
            if (fl[0] == "1") != (v != "u" and d == "0"): bad("fixed", f"is_fixed is wrong: {x}")
            if fl[3] != "1": bad("has", x)
            if d != "-" and int(d) > lvl: bad("level", f"level above decision level {lvl}: {x}")
        for l in val:
            if (val[l], val[-l]) not in (("t", "f"), ("f", "t"), ("u", "u")) or lev[l] != lev[-l]: bad("compl", f"{l} is {val[l]}@{lev[l]}, its complement {val[-l]}@{lev[-l]}")
        decs, trail, offs = pl(f[3]), pl(f[4]), [tuple(map(int, x.split("-"))) for x in f[5].split(" ")]
        if len(offs) != lvl + 1 or offs[0][0] != 0 or offs[-1][1] != len(trail) or any(a[1] != b[0] for a, b in zip(offs, offs[1:])) or any(a > b for a, b in offs): bad("offsets", f"{offs} do not partition a trail of {len(trail)}")
        else:
            tl = {}
            for k, (a, b) in enumerate(offs):
                for l in trail[a:b]:
                    if l in tl or -l in tl: bad("traildup", f"{l} twice in the trail")
                    tl[l] = k
                if k and a < b and decs[k] != trail[a] and h[0] != "undo": bad("decision", f"decision {decs[k]} of level {k} is not the first literal of {trail[a:b]}")
            if h[0] != "undo":
                for l in val:
                    if val[l] == "t" and l != 1 and tl.get(l, None) != lev[l] and abs(l) != 1: bad("trail", f"{l} is true at level {lev[l]} but at {tl.get(l)} in the trail")
                    if val[l] != "t" and l in tl: bad("trail", f"{l} is in the trail but {val[l]}")
        if h[0] == "initend":
            for x in items:
                if x[0] == "watch" and x[2] in "-0": watch[lit(x[1])] = True
                if x[0] == "unwatch" and x[2] in "-0": watch[lit(x[1])] = False
            # literals true at the top level may be dropped from watching once delivered
            pend = []
            last = None
        elif h[0] == "prop":
            ch = pl(h[2])
            count("propagations")
            if h[1] != "0": bad("thread", ln)
            if not ch: bad("empty", "propagate without changes")
            for l in ch:
                if not watch.get(l) and not (watch.get(l) is False and l not in dynun): bad("unwatched", f"{l} delivered but not watched")
                if watch.get(l) is False: count("delivered_after_unwatch")
                if abs(l) in [abs(x) for x, _ in pend]: bad("twice", f"{l} delivered while {pend} not undone")
                if val.get(l, "t") != "t": bad("nottrue", f"{l} delivered but {val.get(l)}")
                d = lev.get(l)
                if d is not None:
                    if pend and pend[-1][1] > d: bad("order", f"{l} of level {d} delivered after {pend[-1]}")
                    pend.append((l, d))
                else: pend.append((l, 0 if abs(l) == 1 else lvl))
        elif h[0] == "undo":
            ch = pl(h[2])
            count("undos")
            if h[1] != "0": bad("thread", ln)
            top = [l for l, d in pend if d == lvl]
            if lvl == 0: bad("undo0", "undo on level 0")
            if any(d > lvl for _, d in pend): bad("undolevel", f"{pend} pending above level {lvl}")
            if ch != top: bad("undo", f"undo of level {lvl} returns {ch}, delivered were {top}")
            pend = [(l, d) for l, d in pend if d < lvl]
        elif h[0] == "check":
            count("checks")
            if mode == "Off": bad("offcheck", "check called although switched off")
            if mode == "Total" and tot != "1": bad("totalcheck", "check on a partial assignment")
            if tot == "1" and any(v == "u" for v in val.values()): bad("total", "total assignment with a free literal")
            if conf == "1": bad("conflict", "check with a conflicting assignment")
            miss = [l for l, w in watch.items() if w and val.get(l) == "t" and lev[l] > 0 and l not in [x for x, _ in pend]]
            if miss and not any(x[0] == "at" for x in items): bad("missed", f"watched literals {miss} are true but were not delivered before check")
        elif h[0] == "decide":
            fb, r = int(h[2]), int(h[3])
            count("decides")
            if fb != 0 and val.get(fb, "u") != "u": bad("fallback", f"fallback {fb} is assigned")
            dec = (lvl, r)
            last = ("decide", lvl, r if r != 0 else fb)
            continue
        if last and last[0] == "decide":
            _, k, r = last
            if r != 0 and lvl > k and len(decs) > k + 1 and h[0] != "undo" and decs[k + 1] != r: bad("disobeyed", f"decided {r} on level {k}, but {decs[k + 1]} was taken")
            if r != 0 and lvl > k and len(decs) > k + 1: count("obeyed")
        if h[0] in ("prop", "check", "undo"): last = None


def judge(rec, kind, c, r):
    p = c.p
    replay = {"driver": kind, "ops": c.ops, "program": p.text()}
    if isinstance(r, D.Crash):
        rec.violation(f"{kind}-crash", r.what, replay)
        return
    for i, got in enumerate(r):
        for l in scen.bad_lines(got) + [l for l in got if l.startswith("ERR") or l[:1] == "P" and " BAD" in l[:10]]:
            rec.violation(f"{kind}-{' '.join(l.split(' ')[:2])}-{c.ops[i].split(chr(9))[0]}", f"{l} in {c.ops[i]!r}", replay)
    for step, (i, ass, lim) in enumerate(c.steps):
        got = r[i]
        def bad(k, m): rec.violation(f"{kind}-{k}", f"{kind} {c.ops[i]!r} {c.props}: {m}\nprogram:\n{p.text()}", replay)
        for pi in range(len(c.props)):
            t = "P%d " % pi
            trace(bad, c, pi, [l[len(t):] for l in got if l.startswith(t)], rec.count)
        ms = D.models(got)
        names = {frozenset(p.set_names(M)): M for M in p.answer_sets()}
        exp = expected(c, ass, step + 1)      # minimize terms are added anew by each call of init
        maybe = any(k[0] == "maybe" for k in c.cons)
        cnt = collections.Counter((M, co) for M, co in exp)
        gc = collections.Counter()
        for m in ms:
            M = names.get(frozenset(m.atoms))
            k = (M, tuple(m.cost) if c.minim else ())
            if M is None or k not in cnt and not any(x[0] == M and c.minim for x in cnt):
                bad("model", f"{sorted(m.atoms)} (cost {m.cost}) violates the program or an added constraint")
            elif k not in cnt: bad("cost", f"cost {m.cost} of {sorted(m.atoms)}, expected one of {[x[1] for x in cnt if x[0] == M]}")
            gc[k] += 1
        if lim == 0 and not maybe:
            if set(gc) != set(cnt): bad("missing", f"{len(cnt)} models expected, {len(gc)} delivered")
            elif not c.dynfresh and gc != cnt and not c.multi: bad("multiplicity", f"expected {cnt} got {gc}")
        if lim and len(ms) > lim: bad("count", len(ms))
        rec.count("models", len(ms))


def check(chk):
    for k in KINDS + ("ref",): D.command(k)
    n = vf.scale(1500, 12000)

    def shard(rec, idx):
        items = [build(rec.rng) for _ in range(n)]
        cases = [c.ops for c in items]
        res = {k: D.run_batch(k, cases, timeout=600) for k in KINDS + ("ref",)}
        for i, c in enumerate(items):
            # the interfaces know no way to freeze literals or remove watches during initialization in Lua
            kinds = [k for k in KINDS if k != "lua" or not any(x.startswith(("freeze", "unwatch")) for it in c.props for x in it)]
            if scen.judged(rec, judge, c.ops, res["ref"][i], {k: res[k][i] for k in kinds}, c):
                scen.differential(rec, c.ops, res["ref"][i], {k: res[k][i] for k in kinds})
                rec.case("\n".join(c.ops), n=len(kinds), sample={"program": c.p.text(), "script": c.props})
        # several threads: no deterministic log, but the models are determined
        items = [build(rec.rng, rec.rng.choice([2, 3])) for _ in range(max(8, n // 6))]
        cases = [c.ops for c in items]
        res = {k: D.run_batch(k, cases, timeout=600) for k in KINDS + ("ref",) if k != "lua"}
        # A Lua state is not thread safe. The engine serializes propagators and model handlers but neither decide hooks
        # nor the caller that inspects a yielded model, so these combinations are outside of what Lua supports.
        li = [i for i, c in enumerate(items) if not any(x.startswith(("freeze", "unwatch", "decide")) for it in c.props for x in it)
              and all(o.split("\t")[1] == "cb" for o in c.ops if o.startswith("solve\t"))]
        res["lua"] = dict(zip(li, D.run_batch("lua", [cases[i] for i in li], timeout=600)))
        for i, c in enumerate(items):
            kinds = [k for k in KINDS if k != "lua" or i in res["lua"]]
            if scen.judged(rec, judge, c.ops, res["ref"][i], {k: res[k][i] for k in kinds}, c):
                rec.case("\n".join(c.ops), n=len(kinds))
                rec.count("threaded")
    vf.shards(chk, shard, 8)
    vf.mock_sections(chk, "undo", "undo")


TECHNIQUE = "runtime monitoring: online protocol monitor of propagator traces, brute-force model oracle, differential against the engine driven without the bindings"
if __name__ == "__main__": vf.main(check, "P10", rule="distinct (program, propagator script) cases judged")
