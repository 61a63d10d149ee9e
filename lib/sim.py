"""One interface to every solver, on any number of processes: start, step, run, read global fields.

Arrays handed in and out are global; every process holds the same copy.  Nothing here depends on
the decomposition except the local slices the spaces report.
"""
import numpy as np

PERIODIC = {"NS": "triplyperiodic", "VV": "triplyperiodic", "MHD": "triplyperiodic", "NS2D": "doublyperiodic", "Bq2D": "doublyperiodic"}
CHANNEL = ("KMM", "KMMr", "KMMRK3", "KMM_RB", "KMMRK3_RB", "Coupled", "CoupledRK3")
AB_CHANNEL = ("KMM", "KMMr", "KMM_RB", "Coupled")
ALL = tuple(PERIODIC) + CHANNEL


def _comm():
    from mpi4py import MPI
    return MPI.COMM_WORLD


def put(local, glob, sl):
    """Local part of a global array (leading axes are components)."""
    local[:] = glob[(Ellipsis,) + tuple(sl)]


def gather(local, sl, shape):
    """Global array from the local parts."""
    local = np.asarray(local)
    out = np.zeros(local.shape[:local.ndim-len(shape)] + tuple(shape), local.dtype)
    comm = _comm()
    if comm.Get_size() == 1:
        out[(Ellipsis,) + tuple(sl)] = local
        return out
    for s, a in comm.allgather(([(x.start, x.stop) for x in sl], local)):
        out[(Ellipsis,) + tuple(slice(b, e) for b, e in s)] = a
    return out


class Sim:
    def __init__(self, solver, M=None, L=None, kappa=0.08, **opt):
        from spectralDNS import config, get_solver
        self.name = solver
        self.periodic = solver in PERIODIC
        mesh = PERIODIC.get(solver, "channel")
        self.dim = 2 if mesh == "doublyperiodic" else 3
        self.rev = solver == "KMMr"; self.rb = solver.endswith("RB")
        self.wall = None if self.periodic else (2 if self.rev else 0)
        if M is None: M = [3]*self.dim if self.periodic else [4, 3, 3]
        if L is None: L = [5.0, 2*np.pi, 3.5][:self.dim] if self.periodic else [2.0, 2*np.pi, 3.0]
        M, L = list(M), list(L)
        if self.rev: M, L = M[1:] + M[:1], L[1:] + L[:1]
        if solver == "MHD": opt.setdefault("convection", "Divergence")
        else: opt.setdefault("convection", "Vortex")
        args, tail = ["--M"] + [str(m) for m in M] + ["--L"] + [repr(float(l)) for l in L], [solver]
        for k, v in opt.items():
            if k in ("eta", "Ri", "Pr"): tail += ["--" + k, repr(v)]
            elif k == "mask_nyquist": args += ["--mask_nyquist" if v else "--no-mask_nyquist"]
            elif v is None: continue
            else: args += ["--" + k, v if isinstance(v, str) else repr(v)]
        self.sol = get_solver(mesh=mesh, parse_args=args + ["--no-verbose"] + tail)
        self.config, self.params = config, config.params
        config.params.kappa = kappa
        self.opt = dict(opt)
        self.new_context()

    def new_context(self):
        self.c = c = self.sol.get_context()
        self.sol.conv = self.sol.getConvection(self.params.convection)
        self.T = c.T if self.periodic else c.FST
        self.N = [int(n) for n in self.params.N]
        self.sl = self.T.local_slice(False); self.slh = self.T.local_slice(True)
        self.hshape = tuple(self.T.shape(True) if _comm().Get_size() == 1 else self.T.global_shape(True))
        self._int = None
        return c

    # ------------------------------------------------------------------ generic states
    def grid(self):
        """Global coordinates of every axis, from what the space reports on every process."""
        xs = []
        X = self.T.local_mesh(True)
        for i in range(self.dim):
            x = np.moveaxis(np.asarray(X[i]), i, 0).reshape(X[i].shape[i], -1)[:, 0].astype(float)
            xs.append(gather(x, [self.sl[i]], [self.N[i]]))
        return xs

    def initial(self, seed=0, amp=0.4):
        """Generic resolved state: dict of global physical arrays (velocity solenoidal and, in channels, no slip)."""
        g = np.random.default_rng(seed + 1)
        xs = self.grid()
        L = [float(l) for l in self.params.L]
        if self.periodic:
            X = np.meshgrid(*xs, indexing="ij"); d = self.dim
            def field(curl):
                u = np.zeros((d,) + X[0].shape) if curl else np.zeros(X[0].shape)
                lim = [min(n//2-1, 3) for n in self.N]
                for k in np.ndindex(*[2*r+1 for r in lim]):
                    k = np.array(k) - lim
                    kap = 2*np.pi*k/np.array(L)
                    ph = sum(a*x for a, x in zip(kap, X)) + g.uniform(0, 2*np.pi)
                    w = amp/(1 + (k*k).sum())**1.2
                    if not curl: u += w*np.cos(ph); continue
                    v = g.uniform(-1, 1, d)
                    if k.any(): v = v - kap*(kap @ v)/(kap @ kap)
                    u += w*v.reshape((d,)+(1,)*d)*np.cos(ph)
                return u
            s = {"U": field(True)}
            if self.name == "MHD": s["B"] = field(True)
            if self.name == "Bq2D": s["rho"] = field(False)
            return s
        import chan
        order = [self.wall] + [i for i in range(3) if i != self.wall]
        N = [self.N[i] for i in order]
        G = chan.Grid(xs[self.wall], N[1], N[2], L[order[1]], L[order[2]])
        ry, rz = min(G.Ry, 2), min(G.Rz, 2)
        st = chan.Channel.generic
        class _G: pass
        h = _G(); h.grid = G; h.rb = self.rb; h.hot_right = lambda: False
        u = G.phys(amp*G.generic(seed + 1, 6, ry, rz))
        out = {"U": self._code(u)}
        if self.rb:
            t = np.zeros(G.shape, complex); BD = G.basis_D()
            for k in G.half:
                if abs(k[0]) > ry or abs(k[1]) > rz: continue
                for dg in range(5): G.put(t, k, BD[:, dg]*(g.uniform(-1, 1) + 1j*g.uniform(-1, 1))*amp/(1+dg)**1.5)
            t[0, G.Ry, G.Rz] += 0.5; t[1, G.Ry, G.Rz] -= 0.5
            out["phi"] = self._code(G.phys(t))
        return out
    def _code(self, u):
        """(wall, y, z) arrangement -> axes and components of the code."""
        if not self.rev: return u
        if u.ndim == 4: return np.stack([u[1], u[2], u[0]]).transpose(0, 2, 3, 1)
        return u.transpose(1, 2, 0)

    # ------------------------------------------------------------------ driving
    def load(self, st, c=None):
        """Make the physical fields of st the current solution."""
        c = c or self.c; sl = self.sl
        if self.name == "NS" or self.name == "NS2D":
            put(c.U, st["U"], sl); self.sol.set_velocity(**c)
        elif self.name == "VV":
            put(c.U, st["U"], sl); self.sol.set_velocity(**c)
            c.W_hat[:] = 1j*np.stack([c.K[1]*c.U_hat[2]-c.K[2]*c.U_hat[1], c.K[2]*c.U_hat[0]-c.K[0]*c.U_hat[2], c.K[0]*c.U_hat[1]-c.K[1]*c.U_hat[0]])
        elif self.name == "MHD":
            put(c.UB[:3], st["U"], sl); put(c.UB[3:], st["B"], sl); c.UB.forward(c.UB_hat)
        elif self.name == "Bq2D":
            put(c.Ur[:2], st["U"], sl); put(c.Ur[2], st["rho"], sl); c.Ur.forward(c.Ur_hat)
        else:
            put(c.U, st["U"], sl); self.sol.set_velocity(**c)
            self.set_g(c)
            if self.rb:
                put(c.phi, st["phi"], sl); c.phi.forward(c.phi_hat)
    def set_g(self, c):
        if "g" in c:
            i, j = (0, 1) if self.rev else (1, 2)
            c.g[:] = 1j*c.K[i]*c.U_hat[j] - 1j*c.K[j]*c.U_hat[i]
    def start(self, st, c=None, t=0.0, tstep=0):
        """Initial conditions as the demos set them."""
        c = c or self.c; p = self.params
        p.t = t; p.tstep = tstep
        self.load(st, c)
        if not self.periodic:
            for n in ("H_hat", "H_hat0", "H_hat1", "N_hat", "N_hat0"):
                if n in c: c[n][:] = 0
            if self.name.startswith("Coupled"):
                c.P_hat[:] = 0
                if "UP_hat0" in c: c.UP_hat0[:] = c.UP_hat
            elif "U_hat0" in c: c.U_hat0[:] = c.U_hat
            for n in ("phi_hat0", "phi_hat1"):
                if n in c: c[n][:] = c.phi_hat
            if self.name in AB_CHANNEL: c.H_hat1[:] = self.sol.get_convection(**c)
        if c is self.c: self._int = None
    def force(self, amp=0.3, c=None):
        """A steady forcing, set the way the demos set one (constant pressure gradient in channels)."""
        c = c or self.c
        if self.name in ("NS", "VV", "NS2D"):
            from shenfun import Array
            st = self.initial(11, amp)["U"]
            for i in range(self.dim):
                a = Array(self.T); put(a, st[i], self.sl)
                c.Source[i] = a.forward()
            if self.name == "VV":
                S = np.array(c.Source)
                c.Source[:] = 1j*np.stack([c.K[1]*S[2]-c.K[2]*S[1], c.K[2]*S[0]-c.K[0]*S[2], c.K[0]*S[1]-c.K[1]*S[0]])
        elif not self.periodic:
            i = 0 if self.rev else 1
            c.Source[:] = 0; c.Source[i] = -amp
            c.Sk[:] = 0
            c.Sk[i] = self.T.scalar_product(c.Source[i], c.Sk[i])
    def stepper(self, c=None):
        c = c or self.c
        it = self.sol.getintegrator(c.dU, c.u, self.sol, c)
        p = self.params
        def step():
            u, p.dt, took = it()
            p.t += took; p.tstep += 1
            self.sol.end_of_tstep(c)
        return step
    def step(self, n=1):
        if self._int is None: self._int = self.stepper()
        for _ in range(n): self._int()
    def run(self, T, update=None):
        """The real time loop until time T."""
        from spectralDNS import solve
        self.params.T = T
        self.sol.update = update or (lambda context: None)
        solve(self.sol, self.c)

    # ------------------------------------------------------------------ reading
    def phys(self, hat):
        """Global physical array of spectral data of the plain space(s)."""
        return gather(np.array(hat.backward()), self.sl, self.N)
    def spectra(self, c=None):
        """Local copies of the primary variables."""
        c = c or self.c
        u = c.u if isinstance(c.u, tuple) else (c.u,)
        return [np.array(x) for x in u]
    def fields(self, c=None):
        """Global physical fields of the current solution, from the spectral data alone."""
        c = c or self.c
        if self.name in ("NS", "NS2D"): return {"U": self.phys(c.U_hat)}
        if self.name == "VV": return {"curl": self.phys(c.W_hat)}
        if self.name == "MHD":
            a = self.phys(c.UB_hat); return {"U": a[:3], "B": a[3:]}
        if self.name == "Bq2D":
            a = self.phys(c.Ur_hat); return {"U": a[:2], "rho": a[2]}
        if self.name.startswith("Coupled"):
            return {"U": np.stack([self.phys(c.U_hat[i]) for i in range(3)])}
        out = {"U": np.stack([self.phys(c.U_hat[i]) for i in range(3)])}
        if self.rb: out["phi"] = self.phys(c.phi_hat)
        return out


def flat(fields): return np.concatenate([np.asarray(fields[k]).ravel() for k in sorted(fields)])


def worst(a, b):
    """Largest difference between two dicts of fields, relative to their size."""
    assert sorted(a) == sorted(b), (sorted(a), sorted(b))
    return max(float(abs(a[k]-b[k]).max())/max(1., float(abs(b[k]).max())) if a[k].shape == b[k].shape and np.isfinite(a[k]).all() else float("inf") for k in a)


def plain_env():
    """The environment this check was started with, without what the MPI library has added in this process."""
    import os
    names = os.environ.get("VERIF_ENV_NAMES", "").split()
    return {k: v for k, v in os.environ.items() if not names or k in names or not k.startswith(("OMPI", "PMI", "PRTE", "OPAL", "ORTE"))}

def spawn(job, func, args, np_=1, name="", timeout=600):
    """Run props function `func` of the job's module on np_ processes in its own process; return its result."""
    import json, os, subprocess, sys, tempfile, shutil
    d = tempfile.mkdtemp(prefix="sp_", dir=job["share"])
    rf = os.path.join(d, "result.json"); jf = os.path.join(d, "job.json")
    cwd = args.get("cwd") or d
    os.makedirs(cwd, exist_ok=True)
    json.dump(dict(job, func=func, args=args, np=np_ if np_ > 1 else 0, result=rf), open(jf, "w"))
    cmd = [sys.executable, "-B", os.path.join(os.path.dirname(os.path.abspath(__file__)), "worker.py"), jf]
    if np_ > 1: cmd = ["mpirun", "-np", str(np_)] + cmd
    z = os.path.join(job["share"], "zygote"); code = None
    if np_ == 1 and os.path.exists(z):
        import zygote
        code = zygote.run(z, jf, cwd, os.path.join(d, "log"), timeout)
    else:
        with open(os.path.join(d, "log"), "wb") as log: p = subprocess.Popen(cmd, cwd=cwd, stdout=log, stderr=subprocess.STDOUT, env=plain_env())
        try: code = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            import zygote
            zygote.killtree(p.pid); p.wait()
    if os.path.exists(rf): res = json.load(open(rf))
    else: res = {"violations": [{"key": "%s:no-result" % job["name"], "detail": {"func": func, "np": np_, "exit": code, "tail": open(os.path.join(d, "log"), errors="replace").read()[-1200:]}}], "nviol": 1, "stats": {}}
    res["exit"] = code
    res["log"] = open(os.path.join(d, "log"), errors="replace").read()[-3000:]
    shutil.rmtree(d, ignore_errors=True)
    return res


def merge(rec, res):
    for v in res.get("violations", []): rec.bad(v["key"], v.get("detail"))
    for k, n in res.get("stats", {}).items(): rec.count(k, n)
    for k, v in res.get("maxima", {}).items(): rec.maximum(k, v)
    for k, n in res.get("outcomes", {}).items():
        rec.outcomes[k] = rec.outcomes.get(k, 0) + n


def _on(space, a):
    return gather(np.array(a), space.local_slice(False), [int(n) for n in space.global_shape(False)])


def queries(s, c=None):
    """Every derived quantity the solver offers: name -> function returning a global array."""
    c = c or s.c; sol, T = s.sol, s.T
    q = {}
    from shenfun import Array
    n = s.name
    if n in ("NS", "NS2D"):
        q["velocity"] = lambda: _on(T, sol.get_velocity(**c))
        q["curl"] = lambda: _on(T, sol.get_curl(**c))
        q["divergence"] = lambda: _on(T, sol.get_divergence(**c))
        q["pressure"] = lambda: _on(T, sol.get_pressure(**c))
    elif n == "VV":
        q["velocity"] = lambda: _on(T, sol.get_velocity(**c))
        q["curl"] = lambda: _on(T, sol.get_curl(**c))
        q["divergence"] = lambda: _on(T, sol.get_divergence(**c))
    elif n == "MHD":
        q["divergence"] = lambda: _on(T, sol.get_divergence(**c))
    elif n == "Bq2D":
        q["velocity"] = lambda: _on(T, sol.get_velocity(**c))
        q["rho"] = lambda: _on(T, sol.get_rho(**c))
        q["Ur"] = lambda: _on(T, sol.get_Ur(**c))
    else:
        from spectralDNS.utilities import dx
        q["velocity"] = lambda: _on(T, sol.get_velocity(**c))
        q["divergence"] = lambda: _on(T, sol.get_divergence(**c))
        def convection():
            h = sol.get_convection(**c)
            return np.stack([s.phys(h[i]) for i in range(3)])
        q["convection"] = convection
        if not n.startswith("Coupled"):
            curl = Array(c.VFSp)
            q["curl"] = lambda: _on(c.FSTp, sol.get_curl(**dict(c, curl=curl)))
            q["gradients"] = lambda: _on(T, sol.compute_derivatives(**c))
        if n in ("KMM", "KMMr", "KMM_RB"):
            q["pressure"] = lambda: _on(c.FCT, sol.get_pressure(c, sol))
        def integral():
            u = c.U_hat.backward(c.U)
            v = dx(u[0]*u[0] + 2*u[1]*u[1] + 3*u[2]*u[2], T, axis=s.wall)
            return np.array(_comm().bcast(v))
        q["integral"] = integral
    return q
