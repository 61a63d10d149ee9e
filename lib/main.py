"""Runs the check of one property: builds /repo's extensions, runs the property's jobs in
separate processes (a pool over the cores), collects what they explored and what they found,
writes evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.

A job is a dict: {"name", "module" (props module), "func", "args" {...}, "np" (MPI ranks or 0),
"timeout"}.  It runs in its own scratch directory via lib/worker.py and returns a result dict.
"""
import concurrent.futures as cf, fcntl, importlib, json, os, shutil, signal, subprocess, sys
import tempfile, threading, time, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)
import zygote
REPO = "/repo"
PY = "/opt/venv/bin/python"
NCORES = int(os.environ.get("VERIF_CORES", "8"))


def build():
    """Build the extensions of the working tree in place (git-ignored files), once at a time."""
    with open(os.path.join(tempfile.gettempdir(), ".vfy_build_lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; build_ext"], cwd=REPO,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=700)
    if r.returncode:
        sys.stdout.write(r.stdout.decode(errors="replace")[-3000:])
        print("BUILD FAILED")
        sys.exit(2)


def environment():
    out = subprocess.check_output(["bash", "-c", ". /opt/vp/env.sh; env -0"])
    env = dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONPATH"] = REPO
    env["VERIF_ROOT"] = ROOT
    env["NUMBA_CACHE_DIR"] = os.path.join(tempfile.gettempdir(), "vfy_numba")
    env["VERIF_ENV_NAMES"] = " ".join(env)
    return env


class Slots:
    """Counting semaphore taking several slots at once without deadlock."""
    def __init__(self, n):
        self.n = n; self.free = n; self.cv = threading.Condition(); self.stop = False; self.known = ()
    def take(self, k):
        k = min(k, self.n)
        with self.cv:
            while self.free < k: self.cv.wait()
            self.free -= k
        return k
    def give(self, k):
        with self.cv:
            self.free += k; self.cv.notify_all()


def start_zygote(scratch, env):
    p = subprocess.Popen([PY, "-B", os.path.join(HERE, "zygote.py"), os.path.join(scratch, "zygote")], cwd=scratch, env=env,
                         stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL)
    for _ in range(600):
        if os.path.exists(os.path.join(scratch, "zygote")) or p.poll() is not None: break
        time.sleep(0.1)
    return p


def run_once(job, scratch, env):
    d = tempfile.mkdtemp(prefix="job_", dir=scratch)
    jf = os.path.join(d, "job.json")
    rf = os.path.join(d, "result.json")
    job = dict(job, share=scratch, result=rf)
    with open(jf, "w") as f: json.dump(job, f)
    cwd = os.path.join(d, "cwd"); os.mkdir(cwd)
    cmd = [PY, "-B", os.path.join(HERE, "worker.py"), jf]
    if job.get("np"):
        cmd = ["mpirun", "-np", str(job["np"])] + cmd
    log = os.path.join(d, "log")
    t0 = time.time()
    limit = max(1, min(job.get("timeout", 400), job.get("deadline", 1e12) - time.time()))
    if not job.get("np") and os.path.exists(os.path.join(scratch, "zygote")):
        code = zygote.run(os.path.join(scratch, "zygote"), jf, cwd, log, limit)
    else:
        with open(log, "wb") as f:
            p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try: code = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            code = None
            zygote.killtree(p.pid)
            p.wait()
    res = None
    if os.path.exists(rf):
        try: res = json.load(open(rf))
        except ValueError: res = None
    if res is None:
        tail = open(os.path.join(d, "log"), errors="replace").read()[-1500:]
        res = {"violations": [], "failed": "timeout" if code is None else "exit %s" % code, "tail": tail}
    res["wall"] = time.time() - t0
    res["job"] = {k: v for k, v in job.items() if k not in ("share", "result")}
    res["dir"] = d
    shutil.rmtree(cwd, ignore_errors=True)
    return res


def run_job(job, scratch, env, slots):
    k = slots.take(max(1, job.get("slots") or job.get("np") or 1))
    try:
        if slots.stop and (env.get("VERIF_FAILFAST") or time.time() > job.get("deadline", 1e12) - 300):
            # one violation is enough for tools/mutate.py, and when the time of a quick check runs out
            return {"violations": [], "wall": 0, "job": {"name": job["name"]}}
        res = run_once(job, scratch, env)
        if res.get("failed"):            # a lost process is retried once before it is believed
            first = res
            if res["failed"] != "timeout": res = run_once(job, scratch, env)
            if res.get("failed"):
                res["violations"] = [{"key": "%s:no-result" % job["name"],
                                      "detail": {"failed": res["failed"], "first": first["failed"],
                                                 "tail": res.get("tail", "")}}]
        if [v for v in res.get("violations", []) if v["key"] not in slots.known]: slots.stop = True
    finally:
        slots.give(k)
    return res


def load_known(pid):
    try: data = json.load(open(os.path.join(ROOT, "known_findings.json")))
    except OSError: return {}
    return {e["key"]: e for e in data.get("known", []) if e["property"] == pid}


def main():
    pid = sys.argv[1]
    rest = sys.argv[2:]
    replay = None
    tier = os.environ.get("VERIF_TIER", "quick")
    if rest and rest[0] in ("quick", "thorough"): tier = rest[0]
    if rest and rest[0] == "--replay": replay = rest[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    build()
    env = environment()
    mod = importlib.import_module("props." + pid.lower())
    if replay:
        jobs = [json.load(open(replay))["job"]]
        tier = jobs[0].get("tier", tier)
    else:
        jobs = mod.jobs(tier)
    for j in jobs:
        j.setdefault("module", "props." + pid.lower())
        j.setdefault("func", "run")
        j.setdefault("args", {})
        j["tier"] = tier
        if tier == "quick": j["deadline"] = t0 + 820
    assert len({j["name"] for j in jobs}) == len(jobs), "job names must be unique"
    scratch = tempfile.mkdtemp(prefix="vfy_%s_" % pid)
    slots = Slots(NCORES); slots.known = load_known(pid)
    zyg = start_zygote(scratch, env)
    try:
        # long jobs first; the pool has a thread per job, the slots bound the processes
        order = sorted(jobs, key=lambda j: -j.get("cost", 1))
        with cf.ThreadPoolExecutor(max_workers=max(1, min(64, len(jobs)))) as ex:
            results = list(ex.map(lambda j: run_job(j, scratch, env, slots), order))
        viol = []
        for r in results:
            for v in r.get("violations", []):
                viol.append(dict(v, job=r["job"]))
        extra = {}
        if hasattr(mod, "finish") and not replay:
            from rec import Rec
            rec = Rec()
            mod.finish(results, rec, scratch, tier)
            for v in rec.violations: viol.append(dict(v, job=v.get("job") or jobs[0]))
            extra = rec.result()
        report(pid, tier, seed, t0, mod, results, extra, viol, replay)
    finally:
        zyg.kill(); zyg.wait()
        shutil.rmtree(scratch, ignore_errors=True)


def report(pid, tier, seed, t0, mod, results, extra, viol, replay):
    if os.environ.get("VERIF_TIMES"):
        for r in sorted(results, key=lambda r: -r["wall"])[:25]: print("  time %6.1f %s" % (r["wall"], r["job"]["name"]))
    known = load_known(pid)
    new = [v for v in viol if v["key"] not in known]
    seen = {v["key"]: v for v in viol if v["key"] in known}
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
           "jobs": len(results), "outcomes": {}, "exhaustive": True}
    for r in list(results) + [extra]:
        st = r.get("stats", {})
        for k, v in st.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool): cov[k] = cov.get(k, 0) + v
        for k, v in r.get("outcomes", {}).items():
            cov["outcomes"][k] = cov["outcomes"].get(k, 0) + v
        cov["samples"] += r.get("samples", [])[:2]
        for k, v in r.get("maxima", {}).items():
            m = cov.setdefault("maxima", {}); m[k] = max(m.get(k, 0), v)
    cov["samples"] = cov["samples"][:12] or [{"note": "no sample recorded"}]
    cov["rule"] = getattr(mod, "RULE", "")
    cov["bounds"] = mod.BOUNDS.get(tier, "") if hasattr(mod, "BOUNDS") else ""
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "model_checking"),
          "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if not replay:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for k, v in seen.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]["what"]))
    if new:
        rd = os.path.join(ROOT, "replays", pid); os.makedirs(rd, exist_ok=True)
        shown = {}
        for v in new:
            shown.setdefault(v["job"]["name"], []).append(v)
        for name, vs in list(shown.items())[:5]:
            h = hashlib.sha1(name.encode()).hexdigest()[:8]
            path = os.path.join(rd, "%s.json" % h)
            with open(path, "w") as f:
                json.dump({"property": pid, "job": vs[0]["job"], "violations": vs[:20],
                           "how": "./check %s --replay %s" % (pid, path)}, f, indent=1, default=str)
            for v in vs[:3]:
                print("  %s: %s" % (v["key"], json.dumps(v.get("detail"), default=str)[:700]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    print("OK property=%s tier=%s states=%d transitions=%d traces=%d jobs=%d wall=%.1fs maxima=%s" % (
        pid, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
        len(results), ev["wall_s"], json.dumps(cov.get("maxima", {}))))
    sys.exit(0)


if __name__ == "__main__":
    main()
