"""Writes MANIFEST.json from the property modules that exist (run with /opt/venv/bin/python)."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.dont_write_bytecode = True
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(V, "hxsim", "props", pid.lower() + ".py")
    if os.path.exists(f):
        m = importlib.import_module(f"hxsim.props.{pid.lower()}")
        checks.append({"property": pid, "quick_cmd": f"/opt/venv/bin/python run.py --property {pid}",
                       "thorough_cmd": f"/opt/venv/bin/python run.py --property {pid} --tier thorough",
                       "evidence_file": f"evidence/{pid}.json",
                       "technique": m.TECHNIQUE, "level": m.LEVEL, "level_note": m.LEVEL_NOTE})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "not built yet")})
d = {"version": 1, "setup_cmd": "/opt/venv/bin/python run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the simulator reaches the library through system-call interposition (storage), sys.settrace (threads), "
              "the module's datetime name (clock) and its public API. Replay a violation with: /opt/venv/bin/python run.py --replay FILE"}
json.dump(d, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks", len(na), "not applicable")
