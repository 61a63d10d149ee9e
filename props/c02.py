"""C02: every option of every solver, given on the command line, as a default, both or not at all."""
import itertools, json, math, os, pickle, sys
import numpy as np
TECHNIQUE = "exhaustive enumeration of option sources per solver, each run in a forked copy of the unconfigured library, against the documented table"
NOTE = ("For each solver on offer every option and every pair of options is set through every source (command line, preset default, both, none) and the "
        "parameters that reach the solver are compared with the documented defaults; forks give every case the unconfigured library.")
RULE = ("states = distinct configurations (solver, sources of up to two options) whose resulting parameters were compared; transitions = get_solver calls; "
        "traces = configurations run on the real library in a forked process")
ASSUMPTIONS = ["options interact at most in pairs", "planner_effort accumulates by design and is only checked for a single setting"]
BOUNDS = {"quick": "13 solvers, all options x 4 sources, pairs of options x 4 sources for one solver of each kind, all documented choices, refusals, leaks",
          "thorough": "pairs of options for every solver"}
TP = 2 * math.pi
BASE = {"precision": "double", "optimization": "", "make_profile": 0, "dt": 0.01, "T": 0.1, "write_result": 1e8, "checkpoint": 1e8, "nu": 0.000625,
        "t": 0.0, "tstep": 0, "filemode": "w", "dealias": "2/3-rule", "decomposition": "slab", "ntol": 7, "threads": 1, "h5filename": None,
        "verbose": True, "mask_nyquist": True}
VAL = {"precision": ("single", "double"), "optimization": ("cython", "numba"), "make_profile": (1, 2), "dt": (0.02, 0.5), "T": (1.5, 2.5),
       "write_result": (3, 4), "checkpoint": (5, 6), "nu": (0.1, 0.2), "t": (0.25, 0.75), "tstep": (7, 8), "filemode": ("a", "r"),
       "dealias": ("3/2-rule", "None"), "decomposition": ("pencil", "slab"), "ntol": (3, 4), "threads": (2, 3), "h5filename": ("abc", "def"),
       "verbose": (False, True), "mask_nyquist": (False, True), "TOL": (1e-3, 1e-4), "eta": (0.3, 0.4), "Ri": (0.3, 0.4), "Pr": (3.0, 4.0),
       "Dquad": ("GL", "GC"), "Bquad": ("GL", "GC"), "Nquad": ("GL", "GC"), "integrator": ("AB2", "BS5_fixed"), "convection": ("Divergence", "Standard")}
CHOICES = {"precision": ["double", "single"], "optimization": ["cython", "weave", "numba", "pythran"], "filemode": ["w", "r", "a"],
           "dealias": ["2/3-rule", "3/2-rule", "None"], "decomposition": ["slab", "pencil"]}
INTS = ["RK4", "ForwardEuler", "AB2", "BS5_adaptive", "BS5_fixed"]
KIND = {}
for s in ("NS", "VV", "MHD", "Bq"): KIND[s] = "triplyperiodic"
for s in ("NS2D", "Bq2D"): KIND[s] = "doublyperiodic"
for s in ("KMM", "KMMr", "KMMRK3", "KMM_RB", "KMMRK3_RB", "Coupled", "CoupledRK3"): KIND[s] = "channel"

def table(s):
    """Documented defaults of one solver."""
    d = dict(BASE); k = KIND[s]
    if k == "triplyperiodic": d.update(L=[TP] * 3, M=[6] * 3, TOL=1e-6, integrator="RK4", convection="Vortex")
    if k == "doublyperiodic": d.update(L=[TP] * 2, M=[6] * 2, TOL=1e-6, integrator="RK4", convection="Vortex")
    if k == "channel":
        d.update(L=[2, TP, TP], M=[6] * 3, convection="Vortex", Dquad="GC", Bquad="GC", Nquad="GC",
                 integrator="implicitRK3" if s in ("KMMRK3", "KMMRK3_RB") else "implicit")
    if s == "MHD": d["eta"] = 0.01
    if s in ("Bq", "Bq2D"): d.update(Ri=0.1, Pr=1.0)
    d["solver"] = s
    return d

def values(s, o):
    k = KIND[s]
    if o == "L": return (["1", "3*pi", "2"], [4.0, 5.0, 1.5]) if k != "doublyperiodic" else (["1", "3*pi"], [4.0, 5.0])
    if o == "M": return ([2, 3, 4], [5, 2, 3]) if k != "doublyperiodic" else ([2, 3], [5, 2])
    if o == "convection" and k == "doublyperiodic": return None
    if o == "integrator" and k == "channel": return None
    return VAL[o]
def options(s): return [o for o in table(s) if o != "solver" and values(s, o)]
def choices(s, o):
    k = KIND[s]
    if o == "convection": return {"triplyperiodic": ["Standard", "Divergence", "Skewed", "Vortex"], "doublyperiodic": ["Vortex"], "channel": ["Standard", "Divergence", "Skew", "Vortex"]}[k]
    if o == "integrator": return INTS if k != "channel" else [table(s)["integrator"]]
    if o in ("Dquad", "Bquad", "Nquad"): return ["GC", "GL"]
    return CHOICES.get(o)

def argv(s, cmd):
    pre, post = ["--no-verbose"] if "verbose" not in cmd and False else [], []
    sub = {"eta", "Ri", "Pr"} | ({"integrator"} if KIND[s] == "channel" else set())
    for o, v in cmd.items():
        tgt = post if o in sub else pre
        if o in ("verbose", "mask_nyquist"): tgt.append("--%s%s" % ("" if v else "no-", o))
        elif isinstance(v, (list, tuple)): tgt += ["--" + o] + [str(x) for x in v]
        else: tgt += ["--" + o, str(v)]
    return pre + [s] + post

def forked(fn):
    """Run fn in a forked child, return its (picklable) result or the exception name."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
        try: out = ("ok", fn())
        except SystemExit as e: out = ("exit", e.code)
        except BaseException as e: out = ("raised", type(e).__name__ + ": " + str(e)[:200])
        with os.fdopen(w, "wb") as f: f.write(pickle.dumps(out))
        os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f: data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)

def plain(v):
    if isinstance(v, np.ndarray): return v.tolist()
    if isinstance(v, np.generic): return v.item()
    return v
def num(o, v):
    if o == "L": return [eval(str(x), {"__builtins__": None}, {"pi": math.pi}) for x in v]
    return v

def launch(s, cmd, pre, others=(), calls=None):
    """Parameters seen by the solver."""
    def child():
        from spectralDNS import config, get_solver
        for mesh, d in others: config.update(dict(d), mesh)
        if pre: config.update(dict(pre), KIND[s])
        kw = {}
        if calls is not None:
            for n in calls: kw[n] = (lambda n: (lambda context: calls.append(n)))(n) if False else _marks[n]
        sol = get_solver(mesh=KIND[s], parse_args=argv(s, cmd), **kw)
        p = config.params
        out = {o: plain(dict.get(p, o)) for o in table(s)}
        out["N"] = plain(p.N); out["dx"] = plain(p.dx)
        out["module"] = sol.__name__; out["same"] = sol.params is p and config.solver is sol
        if calls is not None: out["callbacks"] = [getattr(sol, n) is _marks[n] for n in calls]
        return out
    return forked(child)

def _u(context): pass
def _r(context): pass
def _a(context): pass
_marks = {"update": _u, "regression_test": _r, "additional_callback": _a}

def expect(s, cmd, pre):
    d = table(s)
    for o, v in pre.items(): d[o] = v
    for o, v in cmd.items(): d[o] = v
    d["L"] = num("L", d["L"])
    d["N"] = [2 ** int(m) for m in d["M"]]; d["dx"] = [l / n for l, n in zip(d["L"], d["N"])]
    d["M"] = [int(m) for m in d["M"]]
    return d

def compare(rec, s, res, want, key, det):
    rec.state(); rec.trans(); rec.trace()
    if res[0] != "ok":
        rec.bad("%s:%s" % (key, "not-started"), dict(det, result=res)); return
    got = res[1]
    for o, w in want.items():
        g = got.get(o)
        same = np.allclose(g, w, rtol=1e-6 if want["precision"] == "single" else 1e-14) if isinstance(w, (list, float)) and not isinstance(g, (str, type(None))) else g == w
        if not same: rec.bad("%s:%s" % (key, o), dict(det, got=g, want=w)); return
    if not (got["module"] == "spectralDNS.solvers." + s and got["same"]): rec.bad(key + ":module", dict(det, got=got["module"]))

def jobs(tier):
    out = [dict(name="opt-%s" % s, args=dict(solver=s), cost=2) for s in KIND if s != "Bq"]
    out.append(dict(name="Bq", func="bq"))
    out.append(dict(name="files", func="files", cost=4, timeout=400))
    out += [dict(name="leak-%s" % k, func="leak", args=dict(kind=k)) for k in ("triplyperiodic", "doublyperiodic", "channel")]
    for s in (KIND if tier == "thorough" else ("MHD", "Bq2D", "KMM")):
        if s != "Bq": out += [dict(name="pair-%s-%d" % (s, i), func="pairs", args=dict(solver=s, part=i), cost=6, timeout=800) for i in range(4)]
    return out

def imports():
    import shenfun, spectralDNS.config       # heavy, configuration independent
    import numba

def run(job, rec):
    imports()
    s = job["args"]["solver"]
    compare(rec, s, launch(s, {}, {}), expect(s, {}, {}), s + ":default", {"solver": s})
    cs = list(_marks)
    for r in range(4):
        for sub in itertools.combinations(cs, r):
            def child(sub=sub):
                from spectralDNS import get_solver
                plainsol = {}
                sol = get_solver(mesh=KIND[s], parse_args=[s], **{n: _marks[n] for n in sub})
                return [getattr(sol, n) is _marks[n] for n in cs] + [callable(getattr(sol, n)) for n in cs]
            res = forked(child)
            rec.state(); rec.trans(); rec.trace()
            rec.check(res == ("ok", [n in sub for n in cs] + [True] * 3), s + ":callbacks", {"given": sub, "result": res})
    for o in options(s):
        v, w = values(s, o)
        for cmd, pre in (({o: v}, {}), ({}, {o: v}), ({o: v}, {o: w}), ({o: w}, {o: v}), ({o: w}, {})):
            if o == "precision" and (KIND[s] == "channel"): continue      # channel solvers are double only
            compare(rec, s, launch(s, cmd, pre), expect(s, cmd, pre), s + ":option", {"solver": s, "cmd": cmd, "preset": pre})
            rec.outcome("cmd" if cmd else "preset")
    # documented choices are accepted, anything else is refused before a solver is returned
    for o in table(s):
        ch = choices(s, o)
        if not ch: continue
        for c in ch:
            if o == "precision" and KIND[s] == "channel" and c == "single": continue
            compare(rec, s, launch(s, {o: c}, {}), expect(s, {o: c}, {}), s + ":choice", {"solver": s, "cmd": {o: c}})
        for c in ("nonsense", ch[0] + "x", ch[0][:-1], ch[0].swapcase(), "Vorte", "o"):
            if c in ch: continue
            res = launch(s, {o: c}, {})
            rec.state(); rec.trans(); rec.trace(); rec.outcome("refused" if res[0] == "exit" else "accepted")
            rec.check(res[0] == "exit" and res[1] != 0, s + ":accepted-unknown-choice", {"option": o, "value": c, "result": res[0]})
    for bad in (["--nosuch", "1", s], ["nosolver"], [s, "--nosuch"]):
        def child():
            from spectralDNS import get_solver
            get_solver(mesh=KIND[s], parse_args=bad)
        res = forked(child); rec.state(); rec.trans()
        rec.check(res[0] == "exit", s + ":accepted-unknown-argument", {"argv": bad, "result": res[0]})
    # a solver of another kind of domain is refused
    for other in KIND:
        if KIND[other] != KIND[s]:
            def child():
                from spectralDNS import get_solver
                get_solver(mesh=KIND[s], parse_args=[other])
            res = forked(child); rec.state(); rec.trans()
            rec.check(res[0] == "exit", s + ":accepted-solver-of-other-domain", {"mesh": KIND[s], "solver": other, "result": res[0]})
    rec.sample({"solver": s, "options": options(s)})

def bq(job, rec):
    imports()
    compare(rec, "Bq", launch("Bq", {}, {}), expect("Bq", {}, {}), "Bq:default", {"solver": "Bq"})

def leak(job, rec):
    """Defaults set for one kind of domain, seen from all solvers of the other kinds."""
    imports()
    k = job["args"]["kind"]
    rep = {"triplyperiodic": "MHD", "doublyperiodic": "Bq2D", "channel": "KMM"}[k]
    for o in options(rep):
        v, w = values(rep, o)
        if o == "precision": continue
        for s in KIND:
            if s == "Bq" or KIND[s] == k: continue
            compare(rec, s, launch(s, {}, {}, others=[(k, {o: v})]), expect(s, {}, {}), "leak:%s-to-%s" % (k, KIND[s]), {"preset": {o: v}, "for": k, "solver": s})
    # two solvers of the same kind after each other: the second sees its own arguments
    sols = [s for s in KIND if KIND[s] == k and s != "Bq"]
    for a, b in itertools.permutations(sols, 2):
        def child():
            from spectralDNS import get_solver, config
            o = "nu"
            get_solver(mesh=k, parse_args=argv(a, {"nu": 0.3, "T": 4.0}))
            sol = get_solver(mesh=k, parse_args=argv(b, {"dt": 0.7}))
            p = config.params
            return [sol.__name__, plain(p.nu), plain(p.T), plain(p.dt), p.solver]
        res = forked(child); rec.state(); rec.trans(2); rec.trace()
        rec.check(res == ("ok", ["spectralDNS.solvers." + b, 0.000625, 0.1, 0.7, b]), "sequence:%s" % k, {"first": a, "second": b, "result": res})

def pairs(job, rec):
    imports()
    s = job["args"]["solver"]
    opts = [o for o in options(s) if o != "precision"]
    for i, (o, q) in enumerate(itertools.combinations(opts, 2)):
        if i % 4 != job["args"]["part"]: continue
        for (so, sq) in itertools.product(("cmd", "pre"), repeat=2):
            cmd, pre = {}, {}
            (cmd if so == "cmd" else pre)[o] = values(s, o)[0]
            (cmd if sq == "cmd" else pre)[q] = values(s, q)[0]
            compare(rec, s, launch(s, cmd, pre), expect(s, cmd, pre), s + ":pair", {"solver": s, "cmd": cmd, "preset": pre})
            rec.outcome("%s+%s" % (so, sq))
        if rec.nviol > 10: return

def files(job, rec):
    """The name given for the files, from every source, is the name of the files that a run of one step leaves behind."""
    imports()
    import tempfile
    for s in KIND:
        if s == "Bq": continue
        for cmd, pre, own in itertools.product((None, "abc"), (None, "def"), (None, "own")):
            d = tempfile.mkdtemp(prefix="files_", dir=os.getcwd())
            def child():
                os.chdir(d)
                from spectralDNS import config, get_solver, solve
                chan = KIND[s] == "channel"
                opt = {"dt": 0.001, "T": 0.001, "checkpoint": 1, "write_result": 1, "M": ([2, 2, 4] if s == "KMMr" else [4, 2, 2]) if chan else [2]*len(table(s)["M"])}
                if s == "MHD": opt["convection"] = "Divergence"
                if cmd: opt["h5filename"] = cmd
                if pre: config.update({"h5filename": pre}, KIND[s])
                sol = get_solver(mesh=KIND[s], parse_args=argv(s, dict(opt, verbose=False)))
                config.params.kappa = 0.1
                c = sol.get_context()
                if own: c.hdf5file.filename = own
                solve(sol, c)
                return sorted(os.listdir("."))
            res = forked(child)
            rec.state(); rec.trans(); rec.trace()
            name = own or cmd or pre or s
            rec.check(res[0] == "ok" and sorted(f for f in res[1] if f.endswith(".h5")) == [name + "_c.h5", name + "_w.h5"], "files:%s" % s, {"command line": cmd, "preset": pre, "set by the program": own, "expected": name, "result": res})
