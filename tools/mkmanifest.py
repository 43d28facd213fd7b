"""write MANIFEST.json from the check modules present"""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = json.load(open(os.path.join(HERE, "tools", "not_applicable.json")))
checks, na = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(HERE, "bqstatic", "checks", pid.lower() + ".py")
    if os.path.exists(path) and pid not in NA:
        m = importlib.import_module(f"bqstatic.checks.{pid.lower()}")
        checks.append({"property": pid, "quick_cmd": f"python3 -m bqstatic.check {pid}",
                       "thorough_cmd": f"python3 -m bqstatic.check {pid} --thorough",
                       "technique": getattr(m, "TECHNIQUE", "abstract interpretation of the package's syntax trees over an algebraic domain"),
                       "level": "other",
                       "level_note": m.RULE + " Assumes: " + "; ".join(m.ASSUME) + "."})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q bqstatic", "checks": checks, "not_applicable": na,
           "notes": "Every check parses /repo's current sources and interprets them abstractly (bqstatic/); nothing of /repo is imported or executed."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
