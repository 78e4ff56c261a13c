#!/usr/bin/env python3
"""P17: asynchronous searches under random schedules, judged by event-order monitors inside the programs."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vf, drivers as D


def check(chk):
    n = vf.scale(500, 5000)
    vf.py_batches(chk, f"{vf.VERIF}/checks/w17.py", vf.build_py(), [{"seed": vf.SEED * 100 + i, "n": n, "limit": vf.scale(200, 3000)} for i in range(8)], timeout=vf.scale(220, 3100), confirm=True)
    jobs = []
    for san, k in (("", 300), ("tsan", 250), ("asan", 200)):
        exe = vf.build_cc("async", f"{vf.VERIF}/drv/async.cc", san=san)
        jobs += [(exe, san, vf.SEED * 100 + i, vf.scale(k, 10 * k)) for i in range(12)]
    vf.parallel(lambda j: program(chk, *j), jobs)


def program(chk, exe, san, seed, n):
    """Runs the C++ program. Its crashes count if they have frames of the program or come back; races count if both accesses are made by the
    program (the engine is not instrumented: its atomic operations are unknown to the thread sanitizer)."""
    env = vf.base_env()
    if san: vf.san_env(env, san)
    if san == "tsan": env["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=0:report_signal_unsafe=0"
    rep = {"program": "drv/async.cc", "san": san, "args": [seed, n]}
    for attempt in range(4):
        p = vf.run([exe, str(seed), str(n)], env=env, timeout=vf.scale(200, 2000), mem_mb=0 if san else 8000)
        last = ([l for l in p.err.splitlines() if l.startswith("case ")] or ["case -"])[-1]
        for l in p.out.splitlines():
            f = l.split(" ", 2)
            if f[0] == "BAD": chk.violation(f"async{san}-{f[1]}", l[:2000], rep)
            elif f[0] == "CASE": chk.case(san + f[1])
            elif f[0] == "events":
                chk.count("events_async" + san, int(f[1]))
                chk.case(n=int(f[1]))
        for r in p.err.split("WARNING: ThreadSanitizer: ")[1:]:
            chk.count("race reports")
            accesses = [a for a in r.split("SUMMARY")[0].split("\n\n") if re.match(r"\s*(.*\n)?\s*(Previous )?([Aa]tomic )?([Rr]ead|[Ww]rite) of size", a)]
            mine = 0
            for a in accesses:
                for fr in re.findall(r"#\d+ (.*)", a):
                    if "libtsan" in fr or "libstdc++" in fr: continue
                    mine += "libclingo.so.4" not in fr
                    break
            if mine == len(accesses) >= 2 or not r.startswith("data race"): chk.violation("race", r[:4000], rep)
        frames = re.findall(r"#\d+ (.*)", p.err.split("DEADLYSIGNAL")[-1].split("created by T")[0]) if "DEADLYSIGNAL" in p.err else []
        own = any("async" in f or "clingo.hh" in f for f in frames)      # the installed engine has rare races of its own
        if ("AddressSanitizer" in p.err or "runtime error" in p.err) and (own or "DEADLYSIGNAL" not in p.err): chk.violation("async-memory", f"{last}: {D.excerpt(p.err)}", rep)
        if not p.timeout and p.rc == 0: return
        if own: break
        chk.count("crashes not confirmed")
    what = "did not finish" if p.timeout else f"ended with {p.rc}"
    chk.violation(f"async{san}-" + ("hang" if p.timeout else "crash"), f"{what} in {last}: {p.out[-300:]} {p.err[-2500:]}", rep)


TECHNIQUE = "runtime monitoring: event-order monitors over random schedules of asynchronous searches with injected delays and interrupts; thread sanitizer"
if __name__ == "__main__": vf.main(check, "P17", rule="distinct schedules (calls, operations and first events) observed")
