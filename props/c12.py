"""C12: every process layout gives the results of the serial run."""
import itertools, os
import numpy as np
import sim
TECHNIQUE = "exhaustive enumeration of process layouts (count x decomposition) of every solver configuration, each history run by the real code and compared state by state with the serial one"
NOTE = ("Every solver runs the same histories on 1, 2 and 4 processes with slab and pencil decomposition, for every dealiasing rule, convection form and integrator; all fields after every "
        "step, all derived quantities, integrals, the step sizes of adaptive integrators and the result and checkpoint files are compared with the serial run.")
RULE = "states = distinct (configuration, layout, step) reached; transitions = steps and queries; traces = histories compared with the serial run"
ASSUMPTIONS = ["the MPI library delivers messages as specified", "rounding differences stay below 1e-9 of the field size"]
BOUNDS = {"quick": "12 solvers, 1/2/4 processes, slab and pencil, 1 and 2 threads, every dealiasing rule, convection form and integrator at least once per layout, 3 steps, meshes 8^3, 8x16, 16x8x8",
          "thorough": "also 3, 6 and 8 processes, full products of options, 6 steps, second mesh"}
CONV = {"NS": ("Standard", "Divergence", "Skewed", "Vortex"), "VV": ("Vortex",), "MHD": ("Divergence",), "NS2D": ("Vortex",), "Bq2D": ("Vortex",)}
DA = ("3/2-rule", "2/3-rule", "None")
INT = ("RK4", "ForwardEuler", "AB2", "BS5_fixed", "BS5_adaptive")

def configs(solver, tier):
    conv = CONV.get(solver, ("Standard", "Divergence", "Skew", "Vortex"))
    ints = INT if solver in sim.PERIODIC else (None,)
    if tier == "thorough": full = list(itertools.product(conv, DA, ints))
    else:       # every value of every option, every pair of dealiasing and convection
        full = [(cv, da, ints[(i*len(DA)+j) % len(ints)]) for i, cv in enumerate(conv) for j, da in enumerate(DA)]
        if len(conv) > 1: full = [(cv, DA[i % 3], ints[i % len(ints)]) for i, cv in enumerate(conv)] + [(conv[-1], da, ints[0]) for da in DA]
        full += [(conv[-1], DA[k % 2], it) for k, it in enumerate(ints)]
    if tier != "thorough" and solver.startswith("Coupled"):      # expensive: every value of every option
        full = [(cv, DA[i % 3], None) for i, cv in enumerate(conv)]
    out = []
    for x in full:
        if x not in out: out.append(x)
    return out

def nps(tier): return (1, 2, 4) if tier != "thorough" else (1, 2, 3, 4, 6, 8)

def jobs(tier):
    out = []
    for s in sim.ALL:
        for n in nps(tier):
            heavy = 3 if s.startswith("Coupled") else 1
            out.append(dict(name="%s-np%d" % (s, n), args=dict(solver=s, n=n), np=n if n > 1 else 0, cost=heavy*(4+n), timeout=800))
        out.append(dict(name="%s-optimized-np2" % s, func="optimized", args=dict(solver=s, n=2), np=2, cost=3, timeout=600))
        out.append(dict(name="%s-optimized-np1" % s, func="optimized", args=dict(solver=s, n=1), np=0, cost=3, timeout=600))
        for n in ((1, 2) if tier != "thorough" else (1, 2, 4)):
            out.append(dict(name="%s-threads%d" % (s, n), func="threads", args=dict(solver=s, n=n), np=0, cost=3, timeout=600))
    return out

def h5(path):
    import h5py
    out = {}
    with h5py.File(path, "r") as f:
        for k, v in f.attrs.items(): out["attr:" + k] = np.array(v)
        f.visititems(lambda name, o: out.__setitem__(name, np.array(o)) if isinstance(o, h5py.Dataset) else None)
    return out

def history(s, st, steps, rec, out, key, files):
    """Fields of every step, queries, times; with the real time loop when files are wanted."""
    comm = sim._comm()
    s.start(st)
    p = s.params
    if files:
        p.write_result = 2; p.checkpoint = 2
        log = []
        s.run(p.t + steps*p.dt, update=lambda c: log.append((p.t, p.tstep, sim.flat(s.fields()))))
        for i, (t, k, f) in enumerate(log): out["%s/loop%d" % (key, i)] = f; out["%s/looptime%d" % (key, i)] = np.array([t, k])
        comm.Barrier()
        if comm.Get_rank() == 0:
            for e in ("c", "w"):
                for k, v in h5("%s_%s.h5" % (s.name, e)).items(): out["%s/file_%s/%s" % (key, e, k)] = v
                os.remove("%s_%s.h5" % (s.name, e))
        comm.Barrier()
        rec.trans(len(log)); rec.state(len(log))
        return
    times = []
    for i in range(steps):
        s.step(); times += [p.t, p.dt]; rec.trans(); rec.state()
        out["%s/step%d" % (key, i)] = sim.flat(s.fields())
    out[key + "/times"] = np.array(times)
    for k, f in sim.queries(s).items():
        out["%s/%s" % (key, k)] = f(); rec.trans()
    p.dt = DT

DT = 0.01
def one(job, rec, solver, cfgs, steps, **kw):
    out = {}
    comm = sim._comm()
    for cv, da, it in cfgs:
        for dec in ("slab", "pencil"):
            opt = dict(convection=cv, dealias=da, decomposition=dec, nu=0.05, dt=DT, **kw)
            if it: opt["integrator"] = it
            if it == "BS5_adaptive": opt["dt"] = 0.2
            M = None if solver in sim.CHANNEL or solver not in ("NS2D", "Bq2D") else [3, 4]
            s = sim.Sim(solver, M=M, **opt)
            st = s.initial(3, 0.4 if s.periodic else 0.05)
            # one configuration is compared with itself over the decompositions too
            key = "%s-%s-%s-%s" % (cv, da.replace("/", ""), it, dec)
            history(s, st, steps, rec, out, key, False)
            s.params.dt = opt["dt"]
            s.config.params.t = 0.0
            if da == DA[0] or it in ("BS5_adaptive",):
                s.new_context(); history(s, st, 4, rec, out, key + "-loop", it != "BS5_adaptive") if it != "BS5_adaptive" else None
    if comm.Get_rank() == 0:
        np.savez(os.path.join(job["share"], "C12-%s.npz" % job["name"]), **{k.replace("/", "|"): v for k, v in out.items()})
        rec.sample({"solver": solver, "processes": job["args"]["n"], "configurations": len(cfgs)*2, "example": sorted(out)[:3]})

def run(job, rec):
    a = job["args"]
    one(job, rec, a["solver"], configs(a["solver"], job["tier"]), 3 if job["tier"] != "thorough" else 6)

def optimized(job, rec):
    a = job["args"]
    one(job, rec, a["solver"], configs(a["solver"], "quick")[-1:], 2, optimization="cython")

def threads(job, rec):
    """The threads and the planning effort of the transforms change the speed only."""
    n = job["args"]["n"]
    plan = {} if n == 1 else dict(planner_effort='{"fft": "FFTW_ESTIMATE", "dct": "FFTW_ESTIMATE"}')
    one(job, rec, job["args"]["solver"], configs(job["args"]["solver"], "quick")[-1:], 2, threads=n, **plan)

def finish(results, rec, scratch, tier):
    jobs = {r["job"]["name"]: r["job"] for r in results}
    def load(n):
        p = os.path.join(scratch, "C12-%s.npz" % n)
        return np.load(p) if os.path.exists(p) else None
    for s in sim.ALL:
        for kind, counts in (("np", nps(tier)), ("optimized-np", (1, 2)), ("threads", (1, 2) if tier != "thorough" else (1, 2, 4))):
            ref = load("%s-%s1" % (s, kind))
            if ref is None: continue
            for n in counts:
                name = "%s-%s%d" % (s, kind, n)
                got = ref if n == 1 else load(name)
                if got is None: continue
                bad = 0
                for k in ref.files:
                    # the serial run with slab decomposition is the reference of both decompositions
                    kr = k.replace("-pencil", "-slab")
                    if n == 1 and kr == k: continue
                    if k not in got.files:
                        rec.bad("%s:missing" % name, {"item": k}); bad += 1
                    else:
                        a, b = got[k], ref[kr]
                        rec.trace()
                        if a.shape != b.shape or not (a.size == 0 or a.dtype.kind not in "fciu" or rec.close(a, b, 1e-9, "%s:%s" % (name, k.split("|")[-1]), {"item": k}, metric="layout")):
                            if a.shape != b.shape: rec.bad("%s:%s" % (name, "shape"), {"item": k, "shapes": [a.shape, b.shape]})
                            rec.violations[-1]["job"] = jobs[name]; bad += 1
                    if bad > 3: break
                extra = set(got.files) - set(ref.files)
                rec.check(not extra, "%s:extra" % name, {"items": sorted(extra)[:4]})
