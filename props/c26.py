"""C26: the demo programs: statistics, forcing, restarts, and complete runs on any number of processes."""
import contextlib, importlib.util, io, itertools, json, os, re, sys, tempfile, types
import numpy as np
import sim
TECHNIQUE = "exhaustive enumeration of operation sequences on the statistics and forcing of the real demo programs against an explicit model, and of interruption points, solvers and process counts for whole runs"
NOTE = ("The demos are imported and run unmodified (a stand-in takes the place of the plotting library, which is not installed). Every sequence of sampling, resetting, writing and reloading statistics up to a depth is "
        "executed on 1, 2 and 4 processes; forcing is decided on all modes; restarts on every step; whole programs are compared between process counts and with exact solutions.")
RULE = "states = states compared; transitions = operations and steps; traces = operation sequences, restarted runs and programs"
ASSUMPTIONS = ["nothing is asserted about figures", "the reference file vortices.txt is not used: it lies 3e-5 from what every version of the code at hand computes, for every integrator and dealiasing",
               "initial fields drawn at random differ between process counts; those programs are compared only through their invariants"]
BOUNDS = {"quick": "statistics: all sequences of up to 4 operations; restarts after every one of 4 steps; 14 program configurations on 1 and 2 processes",
          "thorough": "sequences of up to 5 operations, restarts after 8 steps, 1, 2 and 4 processes"}

class _Any:
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return _Any()
    def __call__(self, *a, **k): return _Any()
    def __getitem__(self, i): return _Any()
    def __setitem__(self, i, v): pass
    def __iter__(self): return iter((_Any(), _Any()))
class _Plot(types.ModuleType):
    figures = set()
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return _Any()
    def figure(self, i=None, *a, **k): self.figures.add(len(self.figures)+1 if i is None else i); return _Any()
    def fignum_exists(self, i): return i in self.figures

def plotless():
    m, p, c = types.ModuleType("matplotlib"), _Plot("matplotlib.pyplot"), types.ModuleType("matplotlib.cbook")
    c.mplDeprecation = type("mplDeprecation", (Warning,), {})
    m.pyplot, m.cbook = p, c; _Plot.figures = set()
    sys.modules.update({"matplotlib": m, "matplotlib.pyplot": p, "matplotlib.cbook": c})
    return p

def folder():
    import spectralDNS
    return os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(spectralDNS.__file__))), "demo")

def load(name):
    plotless()
    if folder() not in sys.path: sys.path.insert(0, folder())
    sp = importlib.util.spec_from_file_location("demo_" + name, os.path.join(folder(), name + ".py"))
    m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    return m

TEMP = {"KMM": "MKM", "KMMRK3": "MKM", "KMM_RB": "RayleighBenard", "KMMRK3_RB": "RayleighBenard"}
RUNS = {
 "TG-NS": ("TG", ["--M", "3", "3", "3", "--N", "32", "32", "32", "NS"], (1, 2, 4)),
 "TG-VV": ("TG", ["--M", "3", "3", "3", "--N", "32", "32", "32", "--plot_step", "-1", "VV"], (1, 2)),
 "TG2D": ("TG2D", ["--T", "0.5", "--plot_result", "2", "NS2D"], (1, 2, 4)),
 "TGMHD": ("TGMHD", ["MHD"], (1, 2)),
 "Vortices": ("Vortices", ["--M", "4", "4", "4", "--T", "0.05", "--plot_step", "2", "--init", "vortex", "VV"], (1, 2)),
 "Vortices-random": ("Vortices", ["--M", "4", "4", "4", "--T", "0.05", "--plot_step", "2", "--init", "random", "VV"], (1, 2)),
 "Vortices2D": ("Vortices2D", ["--T", "0.2", "NS2D"], (2, 1)),
 "KelvinHelmholtz": ("KelvinHelmholtz", ["--T", "0.07", "--compute_energy", "2", "--plot_result", "3", "NS2D"], (1, 2)),
 "KelvinHelmholtzBq": ("KelvinHelmoltzBoussinesq", ["--T", "0.01", "--plot_result", "3", "Bq2D"], (1, 2)),
 "Isotropic-NS": ("Isotropic", ["--N", "16", "16", "16", "--M", "4", "4", "4", "--T", "0.006", "--compute_energy", "1", "--plot_step", "1", "--compute_spectrum", "1", "NS"], (1, 2)),
 "Isotropic-VV": ("Isotropic", ["--N", "16", "16", "16", "--M", "4", "4", "4", "--T", "0.006", "--compute_energy", "1", "--plot_step", "1", "--compute_spectrum", "1", "VV"], (1, 2)),
 "Laminar-KMM": ("LaminarChannel", ["--M", "5", "3", "2", "--T", "5", "--compute_energy", "1", "--plot_step", "3", "KMM"], (1, 2)),
 "Laminar-KMMRK3": ("LaminarChannel", ["--M", "5", "3", "2", "--T", "5", "--compute_energy", "1", "--plot_step", "3", "KMMRK3"], (1, 2)),
 "MKM-KMM": ("MKM", ["--M", "4", "3", "3", "--T", "0.003", "--compute_energy", "2", "--sample_stats", "3", "--plot_result", "2", "--print_energy0", "2", "KMM"], (1, 2)),
 "MKM-KMMRK3": ("MKM", ["--M", "4", "3", "3", "--T", "0.003", "--compute_energy", "2", "--sample_stats", "3", "--plot_result", "2", "--print_energy0", "2", "KMMRK3"], (1, 2)),
 "RB-KMM": ("RayleighBenard", ["--M", "4", "3", "3", "--T", "0.06", "--compute_energy", "2", "--sample_stats", "3", "--plot_result", "2", "KMM_RB"], (1, 2)),
 "RB-KMMRK3": ("RayleighBenard", ["--M", "4", "3", "3", "--T", "0.06", "--compute_energy", "2", "--sample_stats", "3", "--plot_result", "2", "KMMRK3_RB"], (1, 2)),
 "OS-KMM": ("OrrSommerfeld", ["--M", "6", "3", "2", "--T", "0.005", "--compute_energy", "1", "KMM"], (1, 2)),
 "OS-KMMRK3": ("OrrSommerfeld", ["--M", "6", "3", "2", "--T", "0.005", "--compute_energy", "1", "KMMRK3"], (1, 2)),
 "OS-Coupled": ("OrrSommerfeld", ["--M", "6", "3", "2", "--T", "0.003", "--compute_energy", "1", "Coupled"], (1,)),
 "OS-KMMr": ("OrrSommerfeldr", ["--M", "3", "2", "6", "--T", "0.005", "--compute_energy", "1", "KMMr"], (1, 2)),
 "NS_shenfun": ("NS_shenfun", [], (1, 2)),
}
RANDOM = ("Vortices-random", "Isotropic", "MKM", "RB")

def jobs(tier):
    th = tier == "thorough"; out = []
    for d in ("MKM", "RayleighBenard"):
        for n in (1, 2, 4): out.append(dict(name="%s-stats-np%d" % (d, n), func="stats", args=dict(demo=d, depth=5 if th else 4), np=n if n > 1 else 0, cost=4, timeout=600))
    for s in TEMP:
        for n in (1, 2): out.append(dict(name="%s-restart-np%d" % (s, n), func="restart", args=dict(solver=s), np=n if n > 1 else 0, cost=3, timeout=400))
    for n in (1, 2): out.append(dict(name="Isotropic-restart-np%d" % n, func="forced", args={}, np=n if n > 1 else 0, cost=2, timeout=300))
    for s in ("KMM", "KMMRK3"):
        for n in (1, 2): out.append(dict(name="%s-flux-np%d" % (s, n), func="flux", args=dict(solver=s), np=n if n > 1 else 0, cost=2, timeout=300))
    for s in ("NS", "VV"):
        for n in (1, 2, 4): out.append(dict(name="%s-isotropic-np%d" % (s, n), func="isotropic", args=dict(solver=s), np=n if n > 1 else 0, cost=2, timeout=300))
    for r, (script, argv, nps) in RUNS.items():
        out.append(dict(name="run-" + r, func="program", args=dict(run=r), slots=2, cost=4, timeout=600))
    return out

# ------------------------------------------------------------------ statistics
def stats(job, rec):
    from spectralDNS import config, get_solver
    from mpi4py import MPI
    import h5py
    comm = MPI.COMM_WORLD; me, n = comm.Get_rank(), comm.Get_size()
    m = load(job["args"]["demo"]); rb = job["args"]["demo"] == "RayleighBenard"
    M = [3, 2, 1]; N = [2**k for k in M]
    get_solver(mesh="channel", parse_args=["--M"] + [str(k) for k in M] + ["KMM"])
    nl = N[0]//n; mine = slice(me*nl, (me+1)*nl)
    g = np.random.default_rng(3)
    pool = [(g.uniform(-1, 1, (3,) + tuple(N)), g.uniform(-1, 1, N)) for _ in range(job["args"]["depth"])]
    names = ("U", "V", "W"); second = ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2))
    def means(samples):
        u = np.mean([s[0].mean(axis=(2, 3)) for s in samples], axis=0)
        p = np.mean([s[1].mean(axis=(1, 2)) for s in samples], axis=0)
        uu = np.mean([[(s[0][i]*s[0][j]).mean(axis=(1, 2)) for i, j in second] for s in samples], axis=0)
        pp = np.mean([(s[1]**2).mean(axis=(1, 2)) for s in samples], axis=0)
        return u, p, uu, pp
    def read(name):
        with h5py.File(name + ".h5", "r", driver="mpio", comm=comm) as f:
            a = [np.array([f["Average/" + k][:] for k in names]), np.array(f["Average/" + ("phi" if rb else "P")][:]),
                 np.array([f["Reynolds Stress/" + k][:] for k in ("UU", "VV", "WW", "UV", "UW", "VW")])]
            if rb: a.append(np.array(f["Reynolds Stress/pp"][:]))
            return a, int(f.attrs["num_samples"])
    # with the second argument (temperature) always given for Rayleigh Benard, and both with and without (pressure) for the channel
    for other in ((True,) if rb else (True, False)):
        pool2 = pool if other else [(u, p*0) for u, p in pool]
        for seq in itertools.product(("sample", "reset", "reload", "refresh", "write"), repeat=job["args"]["depth"]):
            name = "s"
            U0 = np.zeros((3, nl) + tuple(N[1:]))
            st = m.Stats(U0, comm, filename=name)
            acc, disk, k = [], None, 0
            for i, op in enumerate(seq):
                if op == "sample":
                    u, p = pool2[k]; k += 1
                    local = (u[:, mine].copy(), p[mine].copy())
                    if rb or other: st(*local)
                    else: st(local[0])
                    acc = acc + [pool2[k-1]]; disk = list(acc)
                elif op == "reset": st.reset_stats(); acc = []
                elif op == "reload":
                    if not disk: break
                    st = m.Stats(U0, comm, fromstats=name); acc = list(disk)
                elif op == "refresh": # the same statistics go back to what was written last
                    if not disk: break
                    st.fromfile(name); acc = list(disk)
                else:
                    if not acc: break
                    got = st.get_stats(tofile=i % 2 == 0)
                    if i % 2 == 0: disk = list(acc)
                    if n == 1:
                        for a, b in zip(got, means(acc)): rec.close(a, b, 1e-12, job["name"] + ":returned", lambda: dict(sequence=seq[:i+1]))
                rec.trans()
                rec.check(st.num_samples == len(acc), job["name"] + ":number", lambda: dict(sequence=seq[:i+1], got=st.num_samples))
                if disk and op in ("sample", "write"):
                    got, cnt = read(name); rec.state()
                    rec.check(cnt == len(disk), job["name"] + ":stored-number", lambda: dict(sequence=seq[:i+1], got=cnt))
                    for a, b in zip(got, means(disk)): rec.close(a, b, 1e-12, job["name"] + ":stored", lambda: dict(sequence=seq[:i+1]))
            rec.trace()
            comm.barrier()
            if comm.allreduce(rec.nviol) > 10: return
    rec.sample({"demo": job["args"]["demo"], "processes": n, "depth": job["args"]["depth"]})

# ------------------------------------------------------------------ restarts
def restart(job, rec):
    a = job["args"]; m = load(TEMP[a["solver"]]); steps = 8 if job["tier"] == "thorough" else 4
    dt = 2.0**-7
    s = sim.Sim(a["solver"], nu=0.05, dt=dt)
    p = s.params; p.write_result = 10**9; st = s.initial(7, 0.05)
    p.checkpoint = 1; files = []
    s.new_context(); s.start(st); p.dt = dt; s.force()
    want = []
    def update(c): want.append(sim.flat(s.fields()))
    for k in range(steps):
        s.c.hdf5file.filename = "run%d" % k     # one pair of files for the state after every step
        s.c.hdf5file.cfile = s.c.hdf5file.wfile = None
        s.run(s.params.t + dt, update=update)
        files.append("run%d_c.h5" % k); rec.trans()
    for k in range(steps - 1):
        c = s.new_context(); p.t, p.tstep = 0.0, 0
        s.force()
        m.init_from_file(files[k], s.sol, c)
        c.hdf5file.filename = "again"
        if s.rb:
            rec.check(int(p.tstep) == k+1, job["name"] + ":counter", lambda: dict(after=k+1, got=float(p.tstep)))
            rec.check(abs(float(p.t) - (k+1)*dt) < 1e-12, job["name"] + ":time", lambda: dict(after=k+1, got=float(p.t)))
        p.t, p.tstep = (k+1)*dt, k+1
        rec.close(sim.flat(s.fields()), want[k], 1e-12, job["name"] + ":state", lambda: dict(after=k+1))
        got = []
        s.run(steps*dt, update=lambda c: got.append(sim.flat(s.fields())))
        rec.check(len(got) == steps-1-k, job["name"] + ":steps", lambda: dict(after=k+1, got=len(got)))
        for i, (x, y) in enumerate(zip(got, want[k+1:])):
            rec.state(); rec.trans()
            rec.close(x, y, 1e-11, job["name"] + ":continued", lambda: dict(restart_after=k+1, further_steps=i+1), metric="restart")
        rec.trace()
    rec.sample({"solver": a["solver"], "steps": steps})

def forced(job, rec):
    """Restarts of forced isotropic turbulence continue the run, at the energy of the checkpoint."""
    import h5py
    m = load("Isotropic"); m.h5py = h5py
    s = sim.Sim("NS", M=[3, 3, 4], L=[2*np.pi]*3, nu=0.05, dt=0.01)
    p = s.params; steps = 8 if job["tier"] == "thorough" else 4; dt = 0.01
    for k in ("compute_energy", "plot_step", "compute_spectrum", "write_result"): setattr(p, k, 10**9)
    p.Kf2, p.kd, p.Re_lam = 2, 4., 84.; p.nu = 1./4.**(4./3.); p.checkpoint = 1
    c = s.new_context(); m.initialize(s.sol, c); p.dt = dt
    want = []
    def update(out):
        def f(c): m.update(c); out.append(sim.flat(s.fields()))
        return f
    with contextlib.redirect_stdout(io.StringIO()):
        for k in range(steps):
            c.hdf5file.filename = "run%d" % k; c.hdf5file.cfile = c.hdf5file.wfile = None
            s.run(p.t + dt, update=update(want)); rec.trans()
        for k in range(steps-1):
            c = s.new_context(); m.initialize(s.sol, c)
            m.init_from_file("run%d_c.h5" % k, s.sol, c)
            c.hdf5file.filename = "again"; p.t, p.tstep = (k+1)*dt, k+1
            got = []
            s.run(steps*dt, update=update(got))
            rec.check(len(got) == steps-1-k, job["name"] + ":steps", lambda: dict(after=k+1, got=len(got)))
            for i, (x, y) in enumerate(zip(got, want[k+1:])):
                rec.state(); rec.trans()
                rec.close(x, y, 1e-11, job["name"] + ":continued", lambda: dict(restart_after=k+1, further_steps=i+1), metric="restart")
            rec.trace()

# ------------------------------------------------------------------ flux
def flux(job, rec):
    m = load("MKM"); s = sim.Sim(job["args"]["solver"], nu=0.05, dt=0.01)
    p = s.params
    for k in ("compute_energy", "plot_result", "sample_stats", "print_energy0"): setattr(p, k, 10**6)
    s.config.solver = s.sol; p.plot_result = -1
    vol = float(np.prod(p.L))
    # quadrature of polynomials through the points of the wall normal direction
    from numpy.polynomial import chebyshev as Ch
    x = s.grid()[0]; n = len(x)
    w = np.linalg.solve(Ch.chebvander(x, n-1).T, [0. if k % 2 else 2./(1-k*k) for k in range(n)])
    def total(c): return float((s.phys(c.U_hat[1]).mean(axis=(1, 2)) @ w))*vol/2
    for seed, target in itertools.product(range(3), (0.0, 1.0, 618.97)):
        s.new_context(); c = s.c
        s.start(s.initial(seed, 0.05), tstep=1); m.flux[0] = target
        before = [np.array(h) for h in c.U_hat]; b = s.phys(c.U_hat[1])
        with contextlib.redirect_stdout(io.StringIO()): m.update(c)
        rec.state(); rec.trans(); rec.trace()
        det = dict(seed=seed, target=target)
        rec.check(abs(total(c) - target) < 1e-11*max(1., target), job["name"] + ":flux", lambda: dict(det, got=total(c)))
        rec.check(all(np.array_equal(before[i], np.array(c.U_hat[i])) for i in (0, 2)), job["name"] + ":other-components", det)
        d = s.phys(c.U_hat[1]) - b
        rec.close(d, np.broadcast_to(d.mean(axis=(1, 2))[:, None, None], d.shape), 1e-12, job["name"] + ":uniform-in-planes", lambda: det)
    rec.sample({"solver": s.name, "volume": vol})

# ------------------------------------------------------------------ isotropic turbulence
def isotropic(job, rec):
    import h5py
    m = load("Isotropic"); m.h5py = h5py
    s = sim.Sim(job["args"]["solver"], M=[3, 3, 4], L=[2*np.pi]*3, nu=0.05, dt=0.01)
    p = s.params; s.config.solver = s.sol
    for k in ("compute_energy", "plot_step", "compute_spectrum"): setattr(p, k, 10**6)
    N = s.N
    ks = [np.fft.fftfreq(N[0], 1./N[0]), np.fft.fftfreq(N[1], 1./N[1]), np.arange(N[2]//2+1)]
    K = np.array(np.meshgrid(*ks, indexing="ij")); K2 = (K**2).sum(0)
    wt = np.full(K2.shape, 2.); wt[..., 0] = 1; wt[..., -1] = 1
    def glob(h): return sim.gather(np.array(h), s.slh, s.hshape)
    def energy(u): return float((wt*abs(u)**2).sum())
    for kf, kd, re in itertools.product((1, 2, 3), (4., 50.), (84., 20.)):
        p.Kf2, p.kd, p.Re_lam = kf, kd, re; p.nu = 1./kd**(4./3.)
        det = dict(Kf2=kf, kd=kd, Re_lam=re)
        c = s.new_context(); m.initialize(s.sol, c)
        u = glob(c.U_hat); rec.state(); rec.trans()
        size = abs(u).max()
        rec.check(np.isfinite(u).all() and abs((K*u).sum(0)).max() < 1e-12*size, job["name"] + ":solenoidal", lambda: dict(det, size=float(size)))
        want = re*(p.nu*kd)**2/np.sqrt(20./3.)
        rec.check(abs(0.5*energy(u) - want) < 1e-10*want, job["name"] + ":initial-energy", lambda: dict(det, got=0.5*energy(u), want=want))
        rec.check(not u[:, 0, 0, 0].any(), job["name"] + ":initial-mean", lambda: det)
        if s.name == "VV":
            w = 1j*np.cross(K, u, axis=0)
            rec.close(glob(c.W_hat), w, 1e-12, job["name"] + ":initial-vorticity", lambda: det, scale=abs(w).max())
        # spectrum: shells between half integers, on any number of processes
        Ek, bins, E0, E1, E2 = m.spectrum(s.sol, c)
        sh = []
        e = wt*(abs(u)**2).sum(0)*4*np.pi/3
        for i in range(len(bins)-1):
            ii = (K2 > bins[i]**2) & (K2 <= bins[i+1]**2)
            sh.append((bins[i+1]**3-bins[i]**3)*e[ii].mean() if ii.any() else 0.)
        rec.close(Ek[:len(sh)], sh, 1e-12, job["name"] + ":spectrum", lambda: det, scale=max(sh))
        # the forcing, after arbitrary changes and after steps
        low = K2 <= kf**2
        g = np.random.default_rng(1)
        for i in range(3):
            f = g.uniform(0.7, 1., K2.shape)
            f[..., 0] = 1.; f[..., -1] = 1.
            fl = f[tuple(s.slh)]
            if i < 2:
                if s.name == "VV": c.W_hat *= fl
                else: c.U_hat *= fl
            else:
                s._int = None; s.step()
            if s.name == "VV":
                w = glob(c.W_hat); a = 1j*np.cross(K, w, axis=0)/np.where(K2 == 0, 1, K2)
            else: a = glob(c.U_hat)
            a[:, 0, 0, 0] = 0
            p.tstep = 1
            with contextlib.redirect_stdout(io.StringIO()): m.update(c)
            rec.state(); rec.trans(); rec.trace()
            b = glob(c.U_hat); size = abs(b).max()
            rec.check(abs(energy(b) - 2*want) < 1e-10*want, job["name"] + ":energy", lambda: dict(det, after=i, got=energy(b), want=2*want))
            al = np.sqrt((2*want - energy(a*~low))/energy(a*low))
            rec.close(b, np.where(low, al*a, a), 1e-12, job["name"] + ":modes", lambda: dict(det, after=i), scale=size)
            if s.name == "VV": rec.close(glob(c.W_hat), 1j*np.cross(K, b, axis=0), 1e-12, job["name"] + ":vorticity", lambda: dict(det, after=i), scale=abs(glob(c.W_hat)).max())
    rec.sample({"solver": s.name, "N": N})

# ------------------------------------------------------------------ complete programs
NUM = re.compile(r"-?\d+\.?\d*(?:[eE][+-]?\d+)?")
def script(job, rec):
    """One program, unmodified, in this process."""
    a = job["args"]; plotless()
    from mpi4py import MPI
    comm = MPI.COMM_WORLD
    os.chdir(a["dir"])
    path = os.path.join(folder(), a["script"] + ".py")
    sys.path.insert(0, folder()); sys.argv = [path] + a["argv"]
    env = {"__name__": "__main__", "__file__": path}
    main = types.ModuleType("__main__"); sys.modules["__main__"] = main; main.__dict__.update(env); env = main.__dict__
    np.random.seed(5)
    f = io.StringIO()
    with contextlib.redirect_stdout(f):
        exec(compile(open(path).read(), path, "exec"), env)
    c = env.get("context"); out = {}
    from spectralDNS import config
    if c is not None:
        for k in ("U_hat", "W_hat", "UB_hat", "Ur_hat", "phi_hat", "UP_hat"):
            if k in c and hasattr(c[k], "function_space") and not isinstance(c[k], (list, tuple)):
                h = c[k]
                try: sl, sh = h.function_space().local_slice(True), h.function_space().global_shape(True)
                except Exception: continue
                d = len(sh); lead = np.asarray(h).ndim - d
                if lead < 0: continue
                out[k] = sim.gather(np.asarray(h), tuple(sl)[-d:], tuple(int(x) for x in sh)[-d:]) if lead >= 0 else np.asarray(h)
        out["time"] = np.array([float(config.params.t), float(config.params.tstep)])
        if a["script"] == "Vortices2D":
            U = np.asarray(c.U_hat.backward())
            g = sim.gather(U, c.T.local_slice(False), [int(x) for x in config.params.N])
            if comm.Get_rank() == 0 and comm.Get_size() > 1: np.savetxt("vortices.txt", g[0])
    else: out["U_hat"] = sim.gather(np.asarray(env["U_hat"]), env["T"].local_slice(True), tuple(int(x) for x in env["T"].global_shape(True)))
    if comm.Get_rank() == 0:
        lines = [l for l in f.getvalue().splitlines() if not re.match(r"\s*(Time = \d|Fastest|Slowest|Memory|End|Reset)", l)]
        json.dump([[float(x) for x in NUM.findall(re.sub(r"nan|inf", "1e999", l))] for l in lines], open(a["out"] + ".json", "w"))
        np.savez(a["out"] + ".npz", **out)
        extra = {}
    rec.trans(int(out["time"][1]) if "time" in out else 10)

def program(job, rec):
    r = job["args"]["run"]; script, argv, nps = RUNS[r]
    if job["tier"] == "thorough" and max(nps) == 2: nps = tuple(nps) + (4,)
    d = tempfile.mkdtemp(prefix="c26_", dir=job["share"])
    first = None
    for n in nps:
        out = os.path.join(d, "np%d" % n)
        res = sim.spawn(job, "script", dict(script=script, argv=argv, out=out, dir=d), n)
        sim.merge(rec, res)
        if res.get("nviol") or not os.path.exists(out + ".npz"): continue
        rec.trace(); rec.state()
        text = json.load(open(out + ".json")); data = dict(np.load(out + ".npz"))
        rec.check(all(np.isfinite(v).all() for v in data.values()), job["name"] + ":finite", {"processes": n})
        judge(job, rec, r, n, text, data, d)
        if r.startswith(RANDOM): continue
        if first is None: first = (n, text, data); continue
        for k in data:
            rec.close(data[k], first[2][k], 1e-10, "%s:state-depends-on-processes" % job["name"], lambda: dict(what=k, processes=[first[0], n]))
        if script != "Vortices": # prints on every process
            same = len(text) == len(first[1]) and all(len(x) == len(y) and np.allclose(x, y, rtol=1e-6, atol=1e-9) for x, y in zip(text, first[1]))
            rec.check(same, job["name"] + ":output-depends-on-processes", lambda: dict(processes=[first[0], n], a=first[1][:5], b=text[:5]))
    import shutil
    shutil.rmtree(d, ignore_errors=True)

def judge(job, rec, r, n, text, data, d):
    """What the documentation of the program promises about its result."""
    det = {"processes": n}
    if r.startswith("OS"):
        rows = [x for x in text if len(x) >= 6]
        rec.check(len(rows) > 0 and all(abs(x[3]) < 1e-6 and x[4] < 1e-10 and x[5] < 1e-10 for x in rows), job["name"] + ":eigenfunction", lambda: dict(det, rows=rows))
    if r.startswith("Laminar"):
        rows = [x for x in text if len(x) == 2]
        rec.check(len(rows) >= 10 and all(e < 2e-4 for _, e in rows[:-1]), job["name"] + ":exact", lambda: dict(det, rows=rows))
    if r.startswith("TG-"):
        rows = [x for x in text if len(x) == 4]
        rec.check(len(rows) == 5 and all(abs(x[2]) < 1e-12 and x[3] < 1e-20 for x in rows), job["name"] + ":energy", lambda: dict(det, rows=rows))
    if r == "TG2D":
        rec.check(any(len(x) == 1 and abs(x[0]) < 1e-12 for x in text), job["name"] + ":exact", lambda: dict(det, text=text[-3:]))
    if r.startswith("MKM"):
        rows = [x for x in text if len(x) == 8]
        rec.check(len(rows) == 3 and all(x[6] < 1e-20 and abs(x[4]-618.97) < 0.5 for x in rows), job["name"] + ":flux", lambda: dict(det, rows=rows))
    if r.startswith("Isotropic"):
        import h5py
        with h5py.File(os.path.join(d, "NS_isotropic_16_16_16.h5"), "r") as f:
            rec.check(sorted(f["Turbulence/Ek"].keys()) == ["1", "2", "3"], job["name"] + ":spectra", lambda: dict(det, got=list(f["Turbulence/Ek"].keys())))
        rows = [x for x in text if len(x) == 9]
        want = 2*84*(50.**(-4./3)*50)**2/np.sqrt(20./3)
        rec.check(len(rows) == 3 and all(abs(x[1]-want) < 1e-5*want and abs(x[2]-want) < 1e-5*want for x in rows), job["name"] + ":energy", lambda: dict(det, rows=rows, want=want))
    if r.startswith(("MKM", "RB")):
        import h5py
        name = "KMMstats.h5" if r[0] == "M" else "KMM_RB_stats.h5"
        steps = int(data["time"][1])
        with h5py.File(os.path.join(d, name), "r") as f:
            rec.check(int(f.attrs["num_samples"]) == steps//3, job["name"] + ":samples", lambda: dict(det, got=int(f.attrs["num_samples"]), steps=steps))
