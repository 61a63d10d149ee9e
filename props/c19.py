"""C19: Rayleigh-Benard steps against a dense Galerkin reference, state by state."""
import itertools
import numpy as np
import chan as C
from cnref import Ref
TECHNIQUE = "exhaustive enumeration of temperature states, of pairs with velocity states and of short histories, stepped by the real solver and compared with a dense Galerkin reference"
NOTE = ("Every temperature basis state of the mesh (all wall-normal degrees) is stepped alone and with a generic flow, every pair of temperature and velocity basis states within "
        "the bound is stepped (advection is bilinear, buoyancy linear), and histories of several steps are followed. The reference works with explicit matrices per wavenumber and shares nothing with the code.")
RULE = "states = distinct (solver, options, state) stepped; transitions = steps of the real solver; traces = steps compared with the reference"
ASSUMPTIONS = ["the previous step is given to the two-step solver as its demo does, or as an independent previous temperature",
               "Nyquist modes and, with the 2/3-rule, states cut off in the wall-normal direction are not excited"]
BOUNDS = {"quick": "16x4x4 (resolved modes |k|<=1): all degrees singly; pairs of 30 temperature and 18 velocity states; histories of 4 steps; both quadratures, three dealiasing rules, all convection forms",
          "thorough": "all pairs with degrees up to 5, meshes 16x4x4 and 16x8x4"}
SOLVERS = ("KMM_RB", "KMMRK3_RB")

def jobs(tier):
    out = []
    for s in SOLVERS:
        for quad in ("GC", "GL"):
            for part in range(3):
                out.append(dict(name="%s-%s-single-%d" % (s, quad, part), func="single", args=dict(solver=s, quad=quad, part=part, parts=3), cost=8, timeout=850))
            for cv in C.Channel.CONV:
                for da in ("3/2-rule", "None") if cv in ("Vortex", "Divergence") else ("3/2-rule",):
                    out.append(dict(name="%s-%s-hist-%s-%s" % (s, quad, cv, da.replace("/", "")), func="hist", args=dict(solver=s, quad=quad, conv=cv, dealias=da), cost=4, timeout=850))
            out.append(dict(name="%s-%s-conduction" % (s, quad), func="conduction", args=dict(solver=s, quad=quad), cost=3, timeout=850))
        n = 6 if tier != "thorough" else 16
        for part in range(n):
            out.append(dict(name="%s-pairs-%d" % (s, part), func="pairs", args=dict(solver=s, quad="GC", part=part, parts=n), cost=9, timeout=850))
        if s == "KMM_RB":    # the later substeps of KMMRK3_RB reach the wall-normal cut off, which depends on the basis
            out.append(dict(name="%s-twothirds" % s, func="twothirds", args=dict(solver=s, quad="GC"), cost=4, timeout=850))
    return out

class RBRef(Ref):
    """Adds the temperature; t are Chebyshev coefficients including the wall values."""
    def __init__(self, grid, quad, nu, kappa, dt, conv, dealias):
        Ref.__init__(self, grid, quad, nu, dt, conv, dealias)
        self.ka = kappa
        from numpy.polynomial import chebyshev as Ch
        self.projB_nodes = self.BB @ np.linalg.solve(self.BB.T @ self.M @ self.BB, self.BB.T @ (self.Tp.T * self._wp()))
        self.lift = np.zeros(self.N); self.lift[0] = 0.5; self.lift[1] = -0.5
        self._t = {}
    def _wp(self):
        from cnref import nodes
        return nodes(len(self.xp), self.quad)[1]
    def tosp(self, u, P): return np.einsum("ax,by,cz,...xyz->...abc", P, self.Fy, self.Fz, u, optimize=True)
    def NB(self, s, t):
        """div(u t) tested with the Dirichlet basis, products in the velocity's own bases."""
        s, t = self.cutoff(s), self.cutoff(t)
        g = self.g; u, T = self.at(s), self.at(t)
        f = np.einsum("ab,bcd->acd", self.D, self.tosp(T*u[0], self.projB_nodes)) + 1j*g.ky[:, None]*self.proj(T*u[1]) + 1j*g.kz[None]*self.proj(T*u[2])
        return np.einsum("ab,bcd->acd", self.BD.T @ self.M, f)
    def NS(self, s, t):
        """u . grad t tested with the Dirichlet basis."""
        s, t = self.cutoff(s), self.cutoff(t)
        u, G = self.at(s), self.at(self.grad(t))
        return np.einsum("ab,bcd->acd", self.BD.T @ self.M, self.proj((u*G).sum(0)))
    def heat(self, t, rhs, dt):
        """(t+ - t)/dt = -N + kappa/2 L(t+ + t); rhs is the tested -N times dt."""
        g = self.g; out = np.zeros_like(t); I = np.eye(self.N); h = self.ka*dt/2
        for k in g.modes:
            a, b = g.kappa(k); ix = (slice(None),) + g.idx(k); q = a*a + b*b
            key = (round(q, 9), h)
            if key not in self._t:
                L = self.D2 - q*I; Bt = self.BD.T @ self.M
                self._t[key] = np.linalg.inv(Bt @ (I - h*L) @ self.BD), Bt @ (I + h*L)
            inv, R = self._t[key]
            lift = self.lift if k == (0, 0) else 0*self.lift
            out[ix] = lift + self.BD @ (inv @ (R @ (t[ix] - lift) + rhs[ix]))
        return out
    def ab_step(self, s, t, t1, H1):
        tab = 1.5*t - 0.5*t1
        H = self.H(s)
        sn = self.ab2(s, H, H1, buoy=tab)
        return sn, self.heat(t, -self.dt*self.NB(s, tab), self.dt), H
    def rk_step(self, s, t):
        H0, N0 = 0, 0
        for a, b in zip(self.A3, self.B3):
            H = self.H(s); N = self.NS(s, t); e = (a+b)*self.dt
            sn = self.substep(s, a*H + b*H0, e, self.dt, buoy=t)
            t = self.heat(t, -self.dt*(a*N + b*N0), e)
            s, H0, N0 = sn, H, N
        return s, t

class Run:
    def __init__(self, job, rec, M=(4, 2, 2), L=(2.0, 2*np.pi, 3.0), conv="Vortex", dealias="3/2-rule", nu=0.05, kappa=0.08, dt=0.02):
        a = job["args"]
        self.rec, self.job = rec, job
        self.rk = "RK3" in a["solver"]
        self.h = C.Channel(a["solver"], M, L, nu=nu, dt=dt, kappa=kappa, dealias=dealias, convection=conv, Dquad=a["quad"], Bquad=a["quad"])
        self.g = self.h.grid
        self.ref = RBRef(self.g, a["quad"], nu, kappa, dt, conv, dealias)
    def lift(self):
        t = np.zeros(self.g.shape, complex); t[0, self.g.Ry, self.g.Rz] = 0.5; t[1, self.g.Ry, self.g.Rz] = -0.5
        return t
    def tbasis(self, degs=None, ry=None, rz=None):
        g = self.g; BD = g.basis_D(); out = []
        for k in g.half:
            if abs(k[0]) > (g.Ry if ry is None else ry) or abs(k[1]) > (g.Rz if rz is None else rz): continue
            for d in range(g.N-2) if degs is None else degs:
                for ph in (1.0,) if k == (0, 0) else (1.0, 1j):
                    t = np.zeros(g.shape, complex); g.put(t, k, ph*BD[:, d]); out.append(((k, d, ph), t))
        return out
    def start(self, s, t, t1=None):
        h = self.h
        h.start({"U": self.g.phys(s), "phi": self.g.phys(t1 if t1 is not None else t)})
        if t1 is not None:          # previous temperature into the history, then the current one
            h.put_phi(self.g.phys(t)); h.c.phi_hat0[:] = h.c.phi_hat
        self.s, self.t, self.t1 = s, t, (t if t1 is None else t1)
        self.H1 = None if self.rk else self.ref.H(s)
    def step(self, key, det):
        rec, h = self.rec, self.h
        h.step()
        if self.rk: self.s, self.t = self.ref.rk_step(self.s, self.t)
        else:
            sn, tn, H = self.ref.ab_step(self.s, self.t, self.t1, self.H1)
            self.t1, self.s, self.t, self.H1 = self.t, sn, tn, H
        rec.trans(); rec.trace()
        key = "%s:%s" % (self.job["name"], key)
        ok = rec.close(h.velocity(), self.g.phys(self.s), 1e-10, key + ":velocity", det, metric="velocity")
        T = h.temperature()
        ok &= rec.close(T, self.g.phys(self.t), 1e-10, key + ":temperature", det, metric="temperature")
        w = np.einsum("xa,ayz->xyz", np.polynomial.chebyshev.chebvander(np.array([-1., 1.]), self.g.N-1), self.g.spec(T))
        w[0, self.g.Ry, self.g.Rz] -= 1
        ok &= rec.check(abs(w).max() < 1e-10, key + ":wall-values", lambda: dict(det=det, worst=float(abs(w).max())))
        return ok

def single(job, rec):
    r = Run(job, rec); a = job["args"]
    zero = np.zeros((3,) + r.g.shape, complex)
    flow = 0.5*r.g.generic(3, 6)
    B = r.tbasis()
    other = sum((1.0/(1+l[1])**2)*t*np.cos(3*i) for i, (l, t) in enumerate(B)) + r.lift()
    for i, (lab, t) in enumerate(B):
        if i % a["parts"] != a["part"]: continue
        for what, s, t0, t1 in (("rest", zero, r.lift()+t, None), ("flow", flow, r.lift()+0.7*t, None)) + (() if r.rk else (("previous", flow, other, r.lift()+t),)):
            r.start(s, t0, t1); rec.state()
            r.step("single-%s" % what, {"temperature": lab, "with": what})
        if rec.nviol > 15: return
    if a["part"] == 0:
        # every velocity state with a generic temperature
        for lab, s in r.g.basis(range(0, 10, 1), range(0, 10, 1), range(0, 14)):
            r.start(0.8*s, other); rec.state()
            r.step("flow-state", {"velocity": lab})
            if rec.nviol > 15: return
    rec.sample({"temperature states": len(B)})

def pairs(job, rec):
    th = job["tier"] == "thorough"; a = job["args"]
    r = Run(job, rec, M=(4, 3, 2) if th and a["part"] % 2 else (4, 2, 2))
    tb = r.tbasis(range(3) if not th else range(6), 1, 1); ub = r.g.basis([0, 1], [0, 1], [0, 2], 1, 1) if not th else r.g.basis(range(4), range(4), range(4), 1, 1)
    if not th: ub = ub[:: 2]
    for i, ((lt, t), (lu, s)) in enumerate(itertools.product(tb, ub)):
        if i % a["parts"] != a["part"]: continue
        r.start(s, r.lift()+t); rec.state()
        r.step("pair", {"temperature": lt, "velocity": lu})
        if rec.nviol > 15: return
    rec.sample({"temperature states": len(tb), "velocity states": len(ub)})

def generic_t(r, seed, dmax):
    g = np.random.default_rng(seed); t = r.lift()
    for lab, b in r.tbasis(range(dmax)): t = t + b*g.uniform(-1, 1)/(1+lab[1])**1.5
    return t

def hist(job, rec):
    a = job["args"]
    for nu, kappa, dt in ((0.05, 0.08, 0.02), (0.2, 0.03, 0.1)):
        r = Run(job, rec, conv=a["conv"], dealias=a["dealias"], nu=nu, kappa=kappa, dt=dt)
        if a["dealias"] == "None":       # no products of resolved modes may wrap around: only the mean flow and one wavenumber pair
            t = r.lift(); s = r.g.mode_mean(1, r.g.basis_D()[:, 0]) + r.g.mode_mean(2, 0.5*r.g.basis_D()[:, 1])
            cases = [(s, t + x, None) for _, x in r.tbasis(range(4))]
            n = 1
        else:
            cases = [(0.4*r.g.generic(i, 6), generic_t(r, i+50, 8), None if r.rk or i % 2 else generic_t(r, i+70, 8)) for i in range(3)]; n = 4
        for i, (s, t, t1) in enumerate(cases):
            r.start(s, t, t1); rec.state()
            for k in range(n):
                if not r.step("history", {"case": i, "step": k+1, "nu": nu, "kappa": kappa, "dt": dt}): break
    rec.sample({"cases": len(cases), "steps": n})

def conduction(job, rec):
    for nu, kappa, dt in itertools.product((0.01, 0.3), (0.02, 0.5), (0.01, 0.2)):
        r = Run(job, rec, nu=nu, kappa=kappa, dt=dt)
        r.start(np.zeros((3,) + r.g.shape, complex), r.lift()); rec.state()
        x = np.moveaxis(np.asarray(r.h.c.X[0]), 0, 0)
        for k in range(4):
            r.step("conduction", {"nu": nu, "kappa": kappa, "dt": dt, "step": k+1})
            rec.close(r.h.temperature(), np.broadcast_to(0.5*(1 - r.h.c.X[0]), r.h.temperature().shape), 1e-11, job["name"] + ":steady", {"step": k+1})
            rec.close(r.h.velocity(), 0*r.h.velocity(), 1e-12, job["name"] + ":rest", {"step": k+1})

def twothirds(job, rec):
    """Modes at or above a third of the points take no part in products (diffusion and buoyancy act on them)."""
    r = Run(job, rec, M=(4, 3, 3), dealias="2/3-rule")
    tb = r.tbasis([0, 1], None, None)
    s = 0.4*r.g.generic(1, 3, 3, 3)
    for lab, t in tb:
        r.start(s, r.lift() + t); rec.state()
        r.step("twothirds", {"temperature": lab})
        if rec.nviol > 15: return
    rec.sample({"temperature states": len(tb)})
