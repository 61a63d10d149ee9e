"""C10: restarts from every checkpoint of every history, on every pair of process counts."""
import itertools, os, shutil
import numpy as np
import sim
TECHNIQUE = "exhaustive enumeration of interruption points and process counts: every checkpoint of every history is restarted by the real code and followed to the end against the uninterrupted run"
NOTE = ("Runs of N steps are interrupted after every step, with every checkpoint interval, written by 1, 2 and 4 processes and restarted on 1, 2 and 4; the continued run is compared after every "
        "remaining step, including chains with a restart after every step that keep appending to the files.")
RULE = "states = distinct (configuration, checkpoint, restart layout, step); transitions = steps; traces = restarted runs compared with the uninterrupted one"
ASSUMPTIONS = ["a restart reads the data sets of the checkpoint (current step, and previous step where the solver stores one), time and counter, and recomputes wall normal vorticity and the previous convection as the demos do",
               "one-step integrators with a fixed step for the periodic solvers"]
BOUNDS = {"quick": "12 solvers, 5 steps, checkpoint intervals 1-3, 1/2/4 -> 1/2/4 processes, one-step integrators RK4, ForwardEuler, BS5_fixed, with and without forcing",
          "thorough": "8 steps, intervals 1-5, all convection forms, three dealiasing rules"}
STEPS = 5

def jobs(tier):
    out = []
    for s in sim.ALL:
        out.append(dict(name="%s-serial" % s, func="serial", args=dict(solver=s), cost=6 if s.startswith("Coupled") else 3, timeout=800))
        out.append(dict(name="%s-layouts" % s, func="layouts", args=dict(solver=s), np=0, slots=2, cost=9 if s.startswith("Coupled") else 5, timeout=850))
    return out

def configs(solver, tier):
    th = tier == "thorough"
    if solver in sim.PERIODIC:
        its = ("RK4", "ForwardEuler", "BS5_fixed")
        return [dict(integrator=i, dealias=d) for i in its for d in (("2/3-rule", "3/2-rule", "None") if th else ("2/3-rule",))] + ([dict(integrator="RK4", dealias="3/2-rule")] if not th else [])
    cv = ("Vortex", "Standard", "Divergence", "Skew")
    if th: return [dict(convection=c, dealias=d) for c in cv for d in ("3/2-rule", "2/3-rule", "None")]
    return [dict(convection=c, dealias=("3/2-rule", "2/3-rule")[i % 2]) for i, c in enumerate(cv[:1 if solver.startswith("Coupled") else 2])]

def make(solver, cfg, **kw):
    s = sim.Sim(solver, nu=0.05, dt=DT, **dict(cfg, **kw))
    return s
DT = 0.01

def restart(s, name, forced):
    """Continue from the files name_c.h5: the documented use of the two stored steps."""
    import h5py
    from shenfun import ShenfunFile
    c = s.new_context(); p = s.params
    cp = c.hdf5file.checkpoint
    f = ShenfunFile(name + "_c", cp["space"], mode="r")
    with h5py.File(name + "_c.h5", "r") as h:
        p.tstep = int(h.attrs["tstep"]); p.t = float(h.attrs["t"])
    def read(u, key, step): f.read(u, key, step=step)
    if s.name in ("NS", "NS2D"): read(c.U_hat, "U", 0)
    elif s.name == "VV": read(c.W_hat, "curl", 0)
    elif s.name == "MHD": read(c.UB_hat, "UB", 0)
    elif s.name == "Bq2D": read(c.Ur_hat, "Ur", 0)
    elif s.name == "Coupled":
        read(c.UP_hat, "UP", 1); c.UP_hat0[:] = c.UP_hat
        c.H_hat1[:] = s.sol.get_convection(**c)
        read(c.UP_hat, "UP", 0); c.UP_hat0[:] = c.UP_hat
    elif s.name == "CoupledRK3": read(c.UP_hat, "UP", 0)
    else:
        if s.name in sim.AB_CHANNEL:
            read(c.U_hat, "U", 1); s.set_g(c)
            c.H_hat1[:] = s.sol.get_convection(**c)
            if s.rb: read(c.phi_hat1, "phi", 1)
        read(c.U_hat, "U", 0); s.set_g(c)
        if "U_hat0" in c: c.U_hat0[:] = c.U_hat
        if s.rb:
            read(c.phi_hat, "phi", 0)
            if "phi_hat0" in c: c.phi_hat0[:] = c.phi_hat
    if forced: s.force()
    s._int = None
    return p.tstep

def follow(s, n, rec):
    """n steps of the real loop; fields after each."""
    out = []
    def update(c):
        out.append(sim.flat(s.fields())); rec.trans(); rec.state()
    s.run(s.params.t + n*s.params.dt, update=update)
    return out

def begin(s, forced):
    st = s.initial(7, 0.4 if s.periodic else 0.05)
    s.new_context()
    s.start(st)
    if forced: s.force()

def save(name, dest):
    comm = sim._comm(); comm.Barrier()
    if comm.Get_rank() == 0: shutil.copy(name + "_c.h5", dest)
    comm.Barrier()
def fetch(src, name):
    comm = sim._comm(); comm.Barrier()
    if comm.Get_rank() == 0: shutil.copy(src, name + "_c.h5")
    comm.Barrier()
def clean(name):
    comm = sim._comm(); comm.Barrier()
    if comm.Get_rank() == 0:
        for e in ("c", "w"):
            if os.path.exists("%s_%s.h5" % (name, e)): os.remove("%s_%s.h5" % (name, e))
    comm.Barrier()

def compare(rec, job, got, ref, first, det):
    rec.trace()
    if not rec.check(len(got) == len(ref) - first, job["name"] + ":length", dict(det, steps=len(got))): return
    for i, g in enumerate(got):
        if not rec.close(g, ref[first+i], 1e-10, job["name"] + ":restart", dict(det, step=first+i+1), metric="restart"): break

def serial(job, rec):
    a = job["args"]; N = STEPS if job["tier"] != "thorough" else 8
    for ic, cfg in enumerate(configs(a["solver"], job["tier"])):
        for forced in (False, True) if ic == 0 else (ic % 2 == 1,):
            s = make(a["solver"], cfg)
            p = s.params; nm = s.name
            begin(s, forced); p.checkpoint = 1000; p.write_result = 1000
            ref = follow(s, N, rec)
            det = dict(cfg, forced=forced)
            files = {}
            for every in (1, 2, 3) if job["tier"] != "thorough" else (1, 2, 3, 4, 5):
                for k in range(1, N):
                    if k < every: continue
                    clean(nm); begin(s, forced); p.checkpoint = every
                    part = follow(s, k, rec)
                    compare(rec, job, part, ref[:k], 0, dict(det, every=every, interrupted=k))
                    at = restart(s, nm, forced)
                    if not rec.check(at == k - k % every and abs(p.t - at*DT) < 1e-12, job["name"] + ":counter", dict(det, every=every, interrupted=k, counter=at, t=p.t)): continue
                    compare(rec, job, follow(s, N - at, rec), ref, at, dict(det, every=every, interrupted=k))
                    if rec.nviol > 15: return
            # a restart after every step, appending to the files
            clean(nm); begin(s, forced); p.checkpoint = 1; p.write_result = 1; p.filemode = "a"
            got = follow(s, 1, rec)
            for k in range(1, N):
                at = restart(s, nm, forced)
                rec.check(at == k, job["name"] + ":counter", dict(det, chain=k, counter=at))
                got += follow(s, 1, rec)
            compare(rec, job, got, ref, 0, dict(det, chain="every step"))
            p.filemode = "w"
    rec.sample({"solver": a["solver"], "steps": N, "config": det})

def write(job, rec):
    """Writer phase: checkpoints after every step, on this number of processes."""
    a = job["args"]; s = make(a["solver"], a["cfg"], decomposition=a["dec"])
    s.params.checkpoint = 1; s.params.write_result = 1000
    for k in range(1, a["N"]):
        begin(s, True)
        out = follow(s, k, rec)
        save(s.name, os.path.join(a["dir"], "%s-%d_c.h5" % (a["tag"], k)))
    begin(s, True); ref = follow(s, a["N"], rec)
    if sim._comm().Get_rank() == 0: np.save(os.path.join(a["dir"], "ref-%s.npy" % a["tag"]), np.array(ref))

def read(job, rec):
    a = job["args"]; s = make(a["solver"], a["cfg"], decomposition=a["dec"])
    s.params.checkpoint = 1000; s.params.write_result = 1000
    ref = np.load(os.path.join(a["dir"], "ref-%s.npy" % a["tags"][0]))
    for tag in a["tags"]:
        compare(rec, job, list(np.load(os.path.join(a["dir"], "ref-%s.npy" % tag))), ref, 0, {"writer": tag})
        for k in range(1, a["N"]):
            fetch(os.path.join(a["dir"], "%s-%d_c.h5" % (tag, k)), s.name)
            at = restart(s, s.name, True)
            rec.check(at == k, job["name"] + ":counter", {"writer": tag, "counter": at, "want": k})
            compare(rec, job, follow(s, a["N"] - k, rec), ref, k, {"writer": tag, "reader": a["n"], "decomposition": a["dec"], "interrupted": k})
            if rec.nviol > 10: return

def layouts(job, rec):
    a = job["args"]; N = 4 if job["tier"] != "thorough" else 6
    d = os.path.join(job["share"], "c10-" + a["solver"]); os.makedirs(d)
    cfg = configs(a["solver"], "quick")[0]
    lay = [(1, "slab"), (2, "slab"), (4, "pencil")] + ([(4, "slab"), (2, "pencil"), (3, "slab")] if job["tier"] == "thorough" else [])
    if a["solver"].startswith("Coupled") and job["tier"] != "thorough": lay = [(1, "slab"), (4, "pencil")]
    tags = []
    for n, dec in lay:
        tag = "%d%s" % (n, dec); tags.append(tag)
        sim.merge(rec, sim.spawn(job, "write", dict(solver=a["solver"], cfg=cfg, N=N, dec=dec, dir=d, tag=tag), n))
        if rec.nviol: return
    for n, dec in lay:
        sim.merge(rec, sim.spawn(job, "read", dict(solver=a["solver"], cfg=cfg, N=N, dec=dec, dir=d, tags=tags, n=n), n))
        if rec.nviol > 10: return
    rec.sample({"solver": a["solver"], "layouts": tags, "steps": N})
    shutil.rmtree(d)
