"""Writes MANIFEST.json from the list of finished checks (run by hand)."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT); sys.path.insert(0, os.path.join(ROOT, "lib"))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(ROOT, "props", p["id"].lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": p["id"], "reason": "check under construction"}); continue
    m = importlib.import_module("props." + p["id"].lower())
    checks.append({"property": p["id"], "quick_cmd": "./check %s quick" % p["id"],
                   "thorough_cmd": "./check %s thorough" % p["id"],
                   "evidence_file": "evidence/%s.json" % p["id"],
                   "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "model_checking"), "level_note": m.NOTE})
man = {"version": 1, "setup_cmd": "./setup.sh",
       "hooks": {"guard": "none", "enable": "no hooks are needed: the checks drive the public interface of the unmodified code", "source_commits": []},
       "checks": checks, "not_applicable": na}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [n["property"] for n in na])
