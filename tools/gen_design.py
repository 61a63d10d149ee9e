"""Fills the generated parts of DESIGN.md (run by hand with /opt/venv/bin/python)."""
import importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "lib")]
T = json.load(open(os.path.join(ROOT, "tools", "quick_times.json")))
out = []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l); m = importlib.import_module("props." + p["id"].lower())
    out += ["### %s %s" % (p["id"], p["title"]), "", "*Method.* %s." % m.TECHNIQUE[0].upper().__add__(m.TECHNIQUE[1:]), "", "*What is explored, against what.* " + m.NOTE, "",
            "*Counted as.* " + getattr(m, "RULE", "").rstrip(".") + ".", "", "*Bounds.* quick: %s. thorough: %s." % (m.BOUNDS["quick"], m.BOUNDS["thorough"]), "",
            "*Assumes.* " + "; ".join(getattr(m, "ASSUMPTIONS", [])) + ".", "", "*Why not tests.* " + p["why_tests_cant"], "", "*Cost.* quick about %s s on 8 cores." % T.get(p["id"], "?"), ""]
d = os.path.join(ROOT, "DESIGN.md"); s = open(d).read()
put = lambda s, k, t: re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (k, k), lambda m: "<!-- %s -->\n%s\n<!-- /%s -->" % (k, t, k), s, flags=re.S)
s = put(s, "PROPS", "\n".join(out))
rows = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
sd = os.path.join(ROOT, "seeded"); caught = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
for i in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, i, "meta.json")))
    rows.append("| %s | %s: %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), caught.get(i, "not run")))
s = put(s, "SEEDS", "\n".join(rows))
open(d, "w").write(s)
