"""C20: derived quantities have the right value in every state, and asking for them never changes a run."""
import itertools
import numpy as np
import sim
TECHNIQUE = "exhaustive enumeration of all basis states and of all words over queries and steps up to a depth, executed by the real solvers and compared with dense oracles and undisturbed runs"
NOTE = ("Velocity, vorticity, divergence and gradients are linear in the state, so all basis states of the meshes decide their values; pressure is checked on all pairs of basis states (periodic) and on "
        "generic states (channel). All words of queries and steps up to the depth, and all assignments of queries to the callbacks of the real time loop, are executed and compared with the run nobody looked at.")
RULE = "states = distinct (configuration, basis state) or (word, position); transitions = queries and steps made; traces = words and callback assignments compared with the undisturbed run"
ASSUMPTIONS = ["pressure of the periodic solvers is that of the last evaluated tendency", "channel pressure is determined by its wall-normal gradient", "the values of the convection query are decided by C16-C19; here it must be that of a fresh context"]
BOUNDS = {"quick": "12 solvers; basis states of 6^3..8x6x10 and 16x6x6 meshes; words of length 4 (3 with the 2/3-rule, 2 for the channel solvers) followed by two steps; up to two queries per callback over three steps (two for channels)",
          "thorough": "words of length 5 (4 for channels, 2 for the other forms of convection), all dealiasing rules, callbacks over three steps in every form of convection"}
CONV = {"NS": ("Standard", "Divergence", "Skewed", "Vortex"), "KMM": ("Standard", "Divergence", "Skew", "Vortex"), "Coupled": ("Standard", "Divergence", "Skew", "Vortex")}

def jobs(tier):
    out = []; th = tier == "thorough"
    for s in sim.ALL:
        heavy = s.startswith("Coupled")
        for d in ("None", "3/2-rule"):
            out.append(dict(name="%s-values-%s" % (s, d[0]), func="values", args=dict(solver=s, dealias=d), cost=4, timeout=850))
        base = "KMM" if s.startswith("KMM") else ("Coupled" if heavy else s)
        forms = CONV.get(base, (None,))
        for f in forms:
            full = f in (None, "Vortex")
            depth = 2 if not full else ((4 if s in sim.PERIODIC else 3) + (1 if th else 0))
            if not th and s in sim.CHANNEL: depth = 2
            for d in ("2/3-rule", "3/2-rule") if th or (full and s in sim.PERIODIC) else ("3/2-rule",):
                n = 1 if not (th and full) else (4 if s in sim.CHANNEL else 2)
                for part in range(n):
                    out.append(dict(name="%s-%s-words-%s%d" % (s, f, d[0], part), func="words", args=dict(solver=s, conv=f, dealias=d, depth=depth if th or d == "3/2-rule" else 3, part=part, parts=n), cost=8 if heavy else 5, timeout=850))
            if not full and not th: continue
            out.append(dict(name="%s-%s-callbacks" % (s, f), func="callbacks", args=dict(solver=s, conv=f, steps=3 if full and not heavy and (th or s in sim.PERIODIC) else 2), cost=8 if heavy else 5, timeout=850))
    for i in ("AB2", "BS5_adaptive", "ForwardEuler"):
        out.append(dict(name="NS-%s-callbacks" % i, func="callbacks", args=dict(solver="NS", conv="Vortex", steps=3, integrator=i), cost=3, timeout=500))
    for s, cv in [("NS2D", "Vortex")] + [("NS", c) for c in CONV["NS"]]:
        out.append(dict(name="%s-%s-pressure" % (s, cv), func="pressure", args=dict(solver=s, conv=cv), cost=4, timeout=500))
    for s in ("KMM", "KMMr", "KMM_RB"):
        for cv in CONV["KMM"]:
            out.append(dict(name="%s-%s-pressure" % (s, cv), func="chpressure", args=dict(solver=s, conv=cv), cost=1, timeout=300))
    return out

# ---------------------------------------------------------------------- dense differentiation
def fourier_matrices(N, L):
    x = L*np.arange(N)/N; R = (N-1)//2; k = np.arange(-R, R+1)
    E = np.exp(2j*np.pi/L*np.outer(x, k)); F = np.exp(-2j*np.pi/L*np.outer(k, x))/N
    return (E @ np.diag(2j*np.pi/L*k) @ F).real
def cheb_matrix(x):
    from numpy.polynomial import chebyshev as Ch
    N = len(x); V = Ch.chebvander(x, N-1); D = np.zeros((N, N))
    for k in range(1, N):
        d = Ch.chebder(np.eye(N)[k]); D[:len(d), k] = d
    return V @ D @ np.linalg.inv(V)
class Diff:
    """Derivatives of fields on the grid of the code, exact for resolved fields."""
    def __init__(self, s):
        self.x = s.grid(); self.d = s.dim; self.s = s
        L = [float(l) for l in s.params.L]
        self.M = [cheb_matrix(self.x[i]) if i == s.wall else fourier_matrices(s.N[i], L[i]) for i in range(s.dim)]
    def __call__(self, f, a):
        a = f.ndim - self.d + a
        return np.moveaxis(np.tensordot(self.M[a - f.ndim + self.d], f, (1, a)), 0, a)
    def div(self, u): return sum(self(u[i], i) for i in range(self.d))
    def grad(self, u): return np.stack([np.stack([self(u[i], j) for j in range(self.d)]) for i in range(self.d)])
    def curl(self, u):
        if self.d == 2: return self(u[1], 0) - self(u[0], 1)
        return np.stack([self(u[2], 1)-self(u[1], 2), self(u[0], 2)-self(u[2], 0), self(u[1], 0)-self(u[0], 1)])
    def lap(self, f): return sum(self(self(f, i), i) for i in range(self.d))
    def resample(self, f, shape):
        """Values on the finer grid of the padded space."""
        from numpy.polynomial import chebyshev as Ch
        for i in range(self.d):
            a = f.ndim - self.d + i; n, m = f.shape[a], shape[i]
            if n == m: continue
            if i == self.s.wall:
                x = np.asarray(self.s.c.FSTp.local_mesh(True)[i]); x = np.moveaxis(x, i, 0).reshape(m, -1)[:, 0]
                P = Ch.chebvander(x, n-1) @ np.linalg.inv(Ch.chebvander(self.x[i], n-1))
                f = np.moveaxis(np.tensordot(P, f, (1, a)), 0, a)
                continue
            R = (n-1)//2; k = np.arange(-R, R+1)
            E = np.exp(2j*np.pi*np.outer(np.arange(m)/m, k)); F = np.exp(-2j*np.pi*np.outer(k, np.arange(n)/n))/n
            f = np.moveaxis(np.tensordot((E @ F).real, f, (1, a)), 0, a)
        return f

def make(a, **kw):
    s = sim.Sim(a["solver"], nu=0.05, dt=0.01, convection=a.get("conv") or ("Divergence" if a["solver"] == "MHD" else "Vortex"), dealias=a.get("dealias", "3/2-rule"), integrator=a.get("integrator"), **kw)
    return s

# ---------------------------------------------------------------------- values, all basis states
def basis(s):
    """All real basis states (label, physical fields) of arbitrary velocities in the solution space; solenoidal where the solution space is."""
    import per, chan
    xs = s.grid(); L = [float(l) for l in s.params.L]
    if s.periodic:
        box = per.Box(s.N, L)
        X = np.meshgrid(*xs, indexing="ij")
        for k, amp in per.modes(box, box.R, solenoidal=s.name == "VV", zero=s.name != "VV"):
            ph = np.exp(1j*sum(p*x for p, x in zip(box.kappa(k), X)))
            u = np.real(amp.reshape((-1,)+(1,)*s.dim)*ph)
            if s.name == "MHD":
                yield ("u", k), {"U": u, "B": 0*u}
                yield ("b", k), {"U": 0*u, "B": u}
            elif s.name == "Bq2D":
                yield ("u", k), {"U": u, "rho": 0*u[0]}
                yield ("r", k), {"U": 0*u, "rho": u[0]+u[1]}
            else: yield ("u", k), {"U": u}
        return
    o = [s.wall] + [i for i in range(3) if i != s.wall]
    g = chan.Grid(xs[s.wall], s.N[o[1]], s.N[o[2]], L[o[1]], L[o[2]])
    phi = s.initial(1, 0.05).get("phi")
    for comp in range(3):
        B = g.basis_B() if comp == 0 else g.basis_D()
        for k in g.half:
            if comp == 0 and k == (0, 0): continue
            for ph in (1.0, 1j) if k != (0, 0) else (1.0,):
                for d in range(B.shape[1]):
                    sp = np.zeros((3,) + g.shape, complex)
                    g.put(sp[comp], k, ph*B[:, d])
                    st = {"U": s._code(g.phys(sp))}
                    if s.rb: st["phi"] = phi
                    yield (("uvw"[comp], k, d, str(ph)), st)

def values(job, rec):
    a = job["args"]
    s = make(a, M=None if a["solver"] in sim.PERIODIC else [4, 2, 2])
    D = Diff(s); q = sim.queries(s); c = s.c; n = 0
    for lab, st in basis(s):
        s.load(st); n += 1
        rec.state(); det = lambda name: dict(state=lab, query=name)
        u = st["U"]; w = {"velocity": u, "divergence": D.div(u), "curl": D.curl(u)}
        if s.name == "MHD": w.pop("velocity")
        if s.name == "VV": w["divergence"] = 0*D.div(u)
        if s.name == "Bq2D": w["rho"] = st["rho"]; w["Ur"] = np.concatenate([u, st["rho"][None]])
        if not s.periodic: w["gradients"] = D.grad(u)
        # the state after a velocity has been set, read back by plain transforms
        got = s.fields()
        for name in got:
            want = D.curl(u) if name == "curl" else st[name]
            if not rec.close(got[name], want, 1e-11, job["name"] + ":set", det(name), metric="set"): break
        for name in q:
            if name not in w: continue
            v = q[name](); rec.trans()
            want = w[name] if v.shape == w[name].shape else D.resample(w[name], v.shape[-s.dim:])
            rec.close(v, want, 1e-10, job["name"] + ":" + name, det(name), scale=max(1., float(abs(want).max()), float(abs(D.curl(u)).max())), metric=name)
        if rec.nviol > 15: return
    rec.sample({"solver": s.name, "N": s.N, "basis_states": n, "queries": sorted(q)})

# ---------------------------------------------------------------------- pressure
def pressure(job, rec):
    a = job["args"]; s = make(dict(a, dealias="3/2-rule"))
    import per
    D = Diff(s); c = s.c; box = per.Box(s.N, [float(l) for l in s.params.L])
    X = np.meshgrid(*s.grid(), indexing="ij")
    b = []
    for k, amp in per.modes(box, [1]*s.dim, solenoidal=True):
        b.append((k, np.real(amp.reshape((-1,)+(1,)*s.dim)*np.exp(1j*sum(p*x for p, x in zip(box.kappa(k), X))))))
    if s.dim == 3: b = b[:30] if job["tier"] == "quick" else b
    rhs = np.zeros_like(c.dU)
    for (k1, u1), (k2, u2) in itertools.combinations_with_replacement(b, 2):
        u = u1 + u2
        s.load({"U": u}); rec.state(); rec.trans()
        s.sol.ComputeRHS(c.dU, c.U_hat, s.sol, **c)
        p = sim.queries(s)["pressure"]()
        if a["conv"] == "Vortex":
            w = D.curl(u); N = np.cross(u, w, axis=0) if s.dim == 3 else np.stack([u[1]*w, -u[0]*w])
        else:
            g = D.grad(u); N = -(u[None]*g).sum(1)
        rec.close(D.lap(p), D.div(N), 1e-10, job["name"] + ":poisson", (k1, k2), metric="poisson")
        rec.check(abs(p.mean()) < 1e-11, job["name"] + ":mean", (k1, k2))
        if rec.nviol > 10: return

def chpressure(job, rec):
    """The wall normal momentum balance of the step that led to the current velocity."""
    a = job["args"]; s = make(dict(a, dealias="3/2-rule"))
    from numpy.polynomial import chebyshev as Ch
    c = s.c; w = s.wall; D = Diff(s); x = s.grid()[w]
    Ti = np.linalg.inv(Ch.chebvander(x, len(x)-1))
    for seed in range(4):
        s.start(s.initial(seed, 0.05))
        for n in range(3):
            s.step(); rec.state(); rec.trans(2)
            u1 = s.fields()["U"]
            H = s.phys(s.sol.get_convection(**c)[w])
            # as in a callback: the previous velocity differs from the current one
            old = np.array(c.U_hat0); c.U_hat0[:] = c.U_hat*0.9
            u0 = 0.9*u1
            p = sim.queries(s)["pressure"]()
            c.U_hat0[:] = old
            um = 0.5*(u1 + u0)
            r = s.params.nu*D.lap(um[w]) + H - (u1[w]-u0[w])/s.params.dt
            tot = p + (0.5*(um**2).sum(0) if a["conv"] == "Vortex" else 0)
            coef = lambda f: np.tensordot(Ti, np.moveaxis(f, w, 0), 1)[:-1]
            lhs, rr = coef(D(tot, w)), coef(r)
            if s.rb:
                buoy = coef(s.fields()["phi"])
                if abs(lhs-rr-buoy).max() < 1e-9*max(1., abs(rr).max()): continue
                if abs(lhs-rr).max() < 1e-9*max(1., abs(rr).max()): rec.bad("KMM_RB-pressure:buoyancy", "the pressure gradient does not balance the buoyancy")
                else: rec.bad(job["name"] + ":gradient", dict(seed=seed, step=n, err=abs(lhs-rr).max()))
                continue
            rec.close(lhs, rr, 1e-9, job["name"] + ":gradient", dict(seed=seed, step=n), metric="pressure gradient")

# ---------------------------------------------------------------------- histories
def alphabet(s):
    q = dict(sim.queries(s))
    def store():
        s.c.hdf5file.update_components(**s.c); return np.zeros(1)
    q["store"] = store
    return q

def begin(s, st):
    s.start(st)
    for n in ("P_hat", "P"):
        if n in s.c and s.periodic: s.c[n][:] = 0
    s.params.dt = 0.01

def state(s):
    """The primary variables, and all that a checkpoint taken now would hold (with earlier solutions)."""
    d = s.c.hdf5file.checkpoint["data"]
    return s.spectra() + [np.array(x) for k in sorted(d) for n in sorted(d[k]) for x in d[k][n]]

def undisturbed(s, st, steps):
    """Fields after every step of a run nobody looks at, and the value of every query in a fresh context."""
    begin(s, st); ref = [state(s)]
    for _ in range(steps): s.step(); ref.append(state(s))
    vals = []
    for k in range(steps-2): # no query comes after more steps
        row = {}
        for name in sorted(alphabet(s)):
            s.new_context(); begin(s, st); s.step(k)
            row[name] = np.array(alphabet(s)[name]())
        vals.append(row)
    s.new_context()
    return ref, vals

def same(got, want, tol=1e-12):
    return all(g.shape == w.shape and (np.array_equal(g, w) or float(abs(g-w).max()) <= tol*max(1., float(abs(w).max()))) for g, w in zip(got, want))

def words(job, rec):
    a = job["args"]; s = make(a); depth = a["depth"]
    st = s.initial(3, 0.4 if s.periodic else 0.05)
    ref, vals = undisturbed(s, st, depth + 2)
    q = alphabet(s); letters = ["step"] + sorted(q); i = 0
    for word in itertools.product(letters, repeat=depth):
        i += 1
        if i % a["parts"] != a["part"]: continue
        begin(s, st); k = 0; rec.state()
        for pos, l in enumerate(word):
            rec.trans()
            if l == "step": s.step(); k += 1
            else:
                v = np.array(q[l]())
                rec.close(v, vals[k][l], 1e-11, job["name"] + ":value-of-" + l, lambda: dict(word=word, position=pos), metric="query")
        for _ in range(2):
            rec.check(same(state(s), ref[k]), job["name"] + ":run-altered", lambda: dict(word=word, steps=k))
            s.step(); k += 1; rec.trans()
        rec.check(same(state(s), ref[k]), job["name"] + ":run-altered", lambda: dict(word=word, steps=k))
        rec.trace()
        if rec.nviol > 12: return
    rec.sample({"solver": s.name, "letters": letters, "depth": depth})

def callbacks(job, rec):
    a = job["args"]; s = make(a); steps = a["steps"]; dt = 0.01
    st = s.initial(3, 0.4 if s.periodic else 0.05)
    T = (steps + 2)*dt
    ref = []
    begin(s, st)
    s.params.write_result = s.params.checkpoint = 1000
    s.run(T, update=lambda c: ref.append(state(s)))
    last = s.spectra()
    q = alphabet(s); letters = [None] + sorted(q)
    def go(plan, vals=None):
        begin(s, st); k = [0]; good = [True]
        def update(c):
            n = k[0]; k[0] += 1
            good[0] &= n < len(ref) and same(state(s), ref[n])
            for l in plan.get(n, ()):
                if l is not None:
                    q[l](); rec.trans()
                    good[0] &= n < len(ref) and same(state(s), ref[n])
        s.run(T, update=update)
        rec.state(); rec.trans(k[0]); rec.trace()
        rec.check(good[0] and k[0] == len(ref) and same(s.spectra(), last), job["name"] + ":run-altered", lambda: dict(queries_in_callbacks=plan, steps=k[0]))
    for word in itertools.product(letters, repeat=steps):
        go({n: (l,) for n, l in enumerate(word)})
        if rec.nviol > 12: return
    for pair in itertools.product(letters[1:], repeat=2):
        go({1: pair})
        if rec.nviol > 12: return
    rec.sample({"solver": s.name, "callbacks": letters, "steps": steps})
