"""Runs another worker with the ledger preloaded and reports what it left behind."""
import gc, json, os, runpy, sys
name = sys.argv[1]
sys.argv = [name]
runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), name + ".py"), run_name="__worker__")
for _ in range(3): gc.collect()
import clingo
live = clingo.parse_term("ledger:live").string
clingo = None
if not live.startswith(os.environ["VF_ZERO"]): print(json.dumps({"viol": f"worker-{name}-leak", "what": f"worker {name}: still alive at the end: {live}"}))
else: print(json.dumps({"count": "balanced_workers"}))
for n, v in zip(("controls", "handles", "references"), live.rpartition("=")[2].split("/")): print(json.dumps({"count": "created_" + n, "n": int(v)}))
print(json.dumps({"done": 1}))
