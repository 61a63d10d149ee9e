"""plant.py new ID: make seeded/ID/{patch.diff,meta.json,demo.sh} from tools/../seeded/ID/seed.py-less spec given on stdin as JSON
   {"property","needs","what_it_breaks","edits":[[file,old,new],...],"demo":"python source"}
plant.py test ID... : in private copies (user + mount namespace) check demo on clean/patched, build, stable tests and the property's quick check.
plant.py check ID... : only the property's quick check with the patch."""
import json, os, subprocess, sys, tempfile, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# Exit 0 when the property holds on the exercised input, non-zero when it is broken.
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cd "$T" && %s $PY "$D/demo.py"
"""
def new(i):
    s = json.load(sys.stdin) if len(sys.argv) < 4 else None
    make(i, s)
def make(i, s):
    d = os.path.join(V, "seeded", i); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="pl_", dir="/tmp")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", w + "/t"])
        for f, old, newt in s["edits"]:
            p = os.path.join(w, "t", f); t = open(p).read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(p, "w").write(t.replace(old, newt))
        diff = subprocess.check_output(["git", "-C", w + "/t", "diff"])
        open(d + "/patch.diff", "wb").write(diff)
    finally: shutil.rmtree(w)
    json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.py", "w").write(s["demo"])
    open(d + "/demo.sh", "w").write(DEMO % ("mpirun -np %d" % s["np"] if s.get("np") else ""))
    os.chmod(d + "/demo.sh", 0o755)

def one(i, only):
    d = os.path.join(V, "seeded", i)
    w = tempfile.mkdtemp(prefix="pl_", dir="/tmp")
    prop = json.load(open(d + "/meta.json"))["property"]
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    r = {"id": i, "property": prop}
    try:
        subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
        subprocess.check_call(["cp", "-a", V, w + "/verif"])
        shutil.rmtree(w + "/verif/seeded")
        shutil.copytree(d, w + "/demo"); shutil.copy(d + "/patch.diff", w)
        for f in ("patch.diff", "meta.json"): os.remove(w + "/demo/" + f)
        pre = "mkdir -p %s/tmp; mount --bind %s/repo /repo && mount --bind %s/verif /verif && export TMPDIR=%s/tmp && cd /repo || exit 99\n" % (w, w, w, w)
        def sh(c, t):
            try:
                p = subprocess.run(["unshare", "-Urm", "bash", "-c", pre + c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
                return p.returncode, p.stdout.decode(errors="replace")
            except subprocess.TimeoutExpired: return 124, "timeout"
        if not only:
            r["demo_clean"], o = sh("bash /opt/vp/build.sh >/dev/null 2>&1 || exit 98; timeout 300 bash %s/demo/demo.sh" % w, 700)
            if r["demo_clean"]: r["out"] = o[-1500:]
        rc, o = sh("git apply --whitespace=nowarn %s/patch.diff" % w, 60)
        if rc: r["apply"] = o; return r
        if not only:
            r["build"], o = sh("bash /opt/vp/build.sh", 700)
            r["demo_bug"], o = sh("timeout 300 bash %s/demo/demo.sh" % w, 400)
            r["demo_out"] = o.strip()[-200:]
            rc, o = sh("bash /opt/vp/test.sh %s/res.json" % w, 900)
            res = json.load(open(w + "/res.json"))
            passed = set(res.get("passed", [k for k, v in res.items() if v in ("passed", "pass")] if isinstance(res, dict) else []))
            r["broken_tests"] = sorted(base - passed)[:6]
        props = [prop] if only != "all" else [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
        for p in props:
            rc, o = sh("cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check %s quick" % p, 1000)
            r["check_" + p] = rc
            r["line_" + p] = [l for l in o.splitlines() if l.startswith("VIOLATION")][:1] or o.strip().splitlines()[-2:]
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return r

if __name__ == "__main__":
    if sys.argv[1] == "new": new(sys.argv[2])
    else:
        only = {"test": None, "check": "one", "all": "all"}[sys.argv[1]]
        ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
        with cf.ThreadPoolExecutor(int(os.environ.get("PAR", "2"))) as ex:
            for r in ex.map(lambda i: one(i, only), ids):
                print(json.dumps(r)); sys.stdout.flush()
