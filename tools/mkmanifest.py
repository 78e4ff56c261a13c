"""Writes MANIFEST.json from the checks that exist and the table of levels below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {
 "P01": "runtime monitoring: reference-model monitor over generated symbol histories in all interfaces",
 "P02": "runtime monitoring: order-model monitor (total order, equality, hash) over generated symbol pools in all interfaces and the language itself",
 "P03": "runtime monitoring: round-trip monitor over generated programs and syntax trees",
 "P04": "runtime monitoring: model-based container monitor (list semantics) over random operation histories",
 "P05": "runtime monitoring: brute-force answer-set oracle over recorded model streams",
 "P06": "runtime monitoring: brute-force optimality/consequence oracle over recorded model streams",
 "P07": "runtime monitoring: brute-force oracle over multi-shot histories",
 "P08": "runtime monitoring with exhaustive fault injection into every callback invocation",
 "P09": "runtime monitoring: event log replay and conservation monitor",
 "P10": "runtime monitoring: online protocol monitor inside propagators plus answer-set oracle",
 "P11": "runtime monitoring: store model over configuration write histories, differential across interfaces",
 "P12": "runtime monitoring: tree model over user statistics histories, cross-view consistency monitor",
 "P13": "runtime monitoring: reference structure monitor for theory atoms",
 "P14": "runtime monitoring: consistency monitor over symbolic atoms and reference programs",
 "P15": "runtime monitoring: protocol monitor over application runs with generated command lines",
 "P16": "runtime monitoring: call log monitor for external functions and scripts",
 "P17": "runtime monitoring: schedule stress with event-order monitors and ThreadSanitizer",
 "P18": "sanitizers (ASan, UBSan) and native-resource accounting under misuse histories",
 "P19": "runtime monitoring: diagnostics oracle over seeded defects",
 "P20": "runtime monitoring: recording mock theory, protocol monitor",
}
SIG = {}
checks, na = [], []
for p in props:
    pid = p["id"]
    f = f"checks/{pid.lower()}.py"
    if not os.path.exists(f"{V}/{f}"):
        na.append({"property": pid, "reason": "no check registered yet"})
        continue
    import re
    src = open(f"{V}/{f}").read()
    m = re.search(r'^LEVEL_NOTE = "(.*)"$', src, re.M)
    t = re.search(r'^TECHNIQUE = "(.*)"$', src, re.M)
    lv = "fault_enumeration" if pid == "P08" else "exploration"
    checks.append({"property": pid, "quick_cmd": f"python3 {f}", "thorough_cmd": f"VERIF_TIER=thorough python3 {f}", "technique": t.group(1) if t else TECH[pid],
                   "level": lv, "level_note": m.group(1) if m else "Decided by an oracle over the executions of seeded generated workloads; coverage is what the evidence file counts, not exhaustive."})
NA = {}
if os.path.exists(V + "/tools/not_applicable.json"): NA = json.load(open(V + "/tools/not_applicable.json"))
for x in na: x["reason"] = NA.get(x["property"], x["reason"])
json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", 
           "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
