"""C24: every step keeps the flow solenoidal and real, keeps its mean, and empties the masked Nyquist modes."""
import itertools
import numpy as np
import sim, per
from props.c20 import Diff
TECHNIQUE = "invariant checking over all configurations and all pairs of basis states (the tendency is quadratic) of the real solvers, with multi-step histories from states exciting every resolved mode"
NOTE = ("The tendency is quadratic in the state, so its values on all pairs of basis states decide its divergence, mean and reality on every state of the mesh; the invariants are also checked after "
        "every step of histories in every configuration of solver, integrator, convection, dealiasing and Nyquist mask. The projection is linear and decided on all basis fields.")
RULE = "states = states in which the invariants were evaluated; transitions = tendencies and steps; traces = histories and projections"
ASSUMPTIONS = ["without the Nyquist mask only the other modes are covered", "Boussinesq: the mean velocity is driven by the mean density"]
BOUNDS = {"quick": "pairs: all basis states of 4x4x4 and 8x8 meshes; histories: 3 steps on 8x4x8 (8x16) and 16x6x8 meshes, every configuration",
          "thorough": "8 steps, more meshes"}
PCONV = {"NS": ("Standard", "Divergence", "Skewed", "Vortex"), "VV": ("Vortex",), "MHD": ("Divergence",), "NS2D": ("Vortex",), "Bq2D": ("Vortex",)}
CCONV = ("Standard", "Divergence", "Skew", "Vortex")
INT = ("RK4", "ForwardEuler", "AB2", "BS5_fixed", "BS5_adaptive")
DEAL = ("None", "2/3-rule", "3/2-rule")

def jobs(tier):
    out = []
    for s, forms in PCONV.items():
        for f in forms:
            for d in DEAL:
                out.append(dict(name="%s-%s-%s-pairs" % (s, f, d[0]), func="pairs", args=dict(solver=s, conv=f, dealias=d), cost=3, timeout=600))
                out.append(dict(name="%s-%s-%s-history" % (s, f, d[0]), func="history", args=dict(solver=s, conv=f, dealias=d), cost=2, timeout=600))
    for s in sim.CHANNEL:
        for f in CCONV:
            out.append(dict(name="%s-%s-history" % (s, f), func="channel", args=dict(solver=s, conv=f), cost=12 if s.startswith("Coupled") else 4, timeout=850))
    out.append(dict(name="project", func="projection", args={}, cost=2, timeout=300))
    return out

class Spectra:
    """Spectra in the layout of the code: divergence, symmetry, Nyquist modes, with wavenumbers made here."""
    def __init__(self, N, L):
        self.N, self.L, self.d = N, L, len(N)
        ks = [np.fft.fftfreq(n, 1./n) for n in N[:-1]] + [np.arange(N[-1]//2+1)]
        K = np.array(np.meshgrid(*ks, indexing="ij"))
        self.kap = K*np.array([2*np.pi/l for l in L]).reshape((-1,)+(1,)*self.d)
        self.nyq = np.any([abs(K[i]) == N[i]/2 for i in range(self.d)], axis=0)
    def solenoidal(self, u):
        size = max(1e-12, float((abs(self.kap).max(axis=tuple(range(1, self.d+1)))).max()*abs(u).max()))
        return float(abs(np.where(self.nyq, 0, (self.kap*u).sum(0))).max())/size
    def real(self, f):
        """Largest violation of conjugate symmetry in the plane of zero last wavenumber, Nyquist modes apart."""
        a = f[..., 0]; b = a
        for ax in range(self.d-1):
            i = b.ndim - (self.d-1) + ax
            b = np.roll(np.flip(b, axis=i), 1, axis=i)
        bad = np.where(self.nyq[..., 0], 0, a - np.conj(b))
        return float(abs(bad).max())/max(1e-12, float(abs(f).max()))
    def mean(self, f): return f[(Ellipsis,) + (0,)*self.d]

def split(s, spec):
    """The vector fields that must be solenoidal, and those that must be real, of a state or tendency."""
    if s.name == "MHD": return [spec[:3], spec[3:]], spec
    if s.name == "Bq2D": return [spec[:2]], spec
    return [spec], spec

def invariants(s, S, spec, rec, key, det, ref, masked, tol=1e-12):
    vec, allf = split(s, spec)
    for i, v in enumerate(vec):
        e = S.solenoidal(v)
        if masked: rec.maximum("divergence", e)
        rec.check(e < tol, key + ":solenoidal", lambda: dict(det, field=i, relative_divergence=e))
    e = S.real(allf); rec.maximum("asymmetry", e)
    rec.check(e < tol, key + ":real", lambda: dict(det, relative=e))
    if masked: rec.check(not np.where(S.nyq, abs(allf), 0).any(), key + ":nyquist", lambda: dict(det, largest=float(np.where(S.nyq, abs(allf), 0).max())))
    if ref is not None:
        e = abs(S.mean(allf) - ref).max()
        rec.check(e < tol*max(1., float(abs(allf).max())), key + ":mean", lambda: dict(det, change=float(e)))

def pairs(job, rec):
    a = job["args"]; dim = 2 if a["solver"] in ("NS2D", "Bq2D") else 3
    for mask in (True, False):
        s = sim.Sim(a["solver"], M=[2]*3 if dim == 3 else [3, 3], L=[5.0, 2*np.pi, 3.5][:dim], nu=0.05, dt=0.01, convection=a["conv"], dealias=a["dealias"], mask_nyquist=mask)
        c = s.c; N, L = s.N, [float(l) for l in s.params.L]
        S = Spectra(N, L); box = per.Box(N, L)
        vel = per.modes(box, box.R, True, zero=s.name != "VV")
        basis = []
        for k, amp in vel:
            n = {"MHD": 6, "Bq2D": 3}.get(s.name, dim)
            for off in ((0, 3) if s.name == "MHD" else (0,)):
                h = np.zeros((n,) + box.hshape, complex); x = np.zeros((n,), complex); x[off:off+dim] = amp
                box.put(h, k, x); basis.append(((off, k), h))
            if s.name == "Bq2D" and any(k):
                h = np.zeros((3,) + box.hshape, complex); box.put(h, k, np.array([0, 0, amp[0]+amp[1]])); basis.append((("rho", k), h))
        if s.name == "MHD" and job["tier"] == "quick": basis = basis[::2] + basis[1::6]
        u = c.u; rhs = c.dU
        for (l1, b1), (l2, b2) in itertools.combinations_with_replacement(basis, 2):
            u[:] = b1 + b2; rhs[:] = 0
            r = np.array(s.sol.ComputeRHS(rhs, u, s.sol, **c))
            rec.state(); rec.trans()
            ref = np.zeros(r.shape[0])
            invariants(s, S, r, rec, job["name"], dict(states=(l1, l2), mask=mask), ref, mask, 1e-11)
            if rec.nviol > 10: return
    rec.sample({"solver": s.name, "N": N, "basis_states": len(basis)})

def rich(s, S, seed):
    """Every resolved mode excited, solenoidal, real."""
    g = np.random.default_rng(seed); u = np.zeros(s.c.u.shape, complex)
    vec, _ = split(s, u)
    box = per.Box(s.N, [float(l) for l in s.params.L])
    for v in vec:
        for k, amp in per.modes(box, box.R, True, zero=s.name != "VV"):
            box.put(v, k, amp*g.uniform(-1, 1)*0.3/(1+sum(abs(x) for x in k))**2)
    if s.name == "Bq2D":
        for k, amp in per.scalar_modes(box, box.R):
            if any(k): box.put(u[2:3], k, amp*g.uniform(-1, 1)*0.3/(1+sum(abs(x) for x in k))**2)
    return u

def history(job, rec):
    a = job["args"]; dim = 2 if a["solver"] in ("NS2D", "Bq2D") else 3; th = job["tier"] == "thorough"
    for M in ([[3, 2, 3]] if dim == 3 else [[3, 4]]) + ([[2, 3, 4] if dim == 3 else [5, 2]] if th else []):
        for mask, i in itertools.product((True, False), INT):
            s = sim.Sim(a["solver"], M=M, L=[5.0, 2*np.pi, 3.5][:dim], nu=0.05, dt=0.01, convection=a["conv"], dealias=a["dealias"], mask_nyquist=mask, integrator=i)
            s.params.T = 100.0
            S = Spectra(s.N, [float(l) for l in s.params.L])
            u = rich(s, S, 7); s.c.u[:] = u; ref = np.array(S.mean(u))
            s.params.t, s.params.tstep = 0.0, 0; s._int = None
            for n in range(8 if th else 3):
                s.step(); rec.state(); rec.trans()
                invariants(s, S, np.array(s.c.u), rec, job["name"], dict(M=M, mask=mask, integrator=i, step=n+1), ref if mask else None, mask, 1e-11)
            rec.trace()
            if rec.nviol > 10: return

def channel(job, rec):
    a = job["args"]; th = job["tier"] == "thorough"
    for d, mask in itertools.product(DEAL, (True, False)):
        s = sim.Sim(a["solver"], M=[4, 3, 3], nu=0.05, dt=0.01, convection=a["conv"], dealias=d, mask_nyquist=mask)
        D = Diff(s); w = s.wall
        s.start(s.initial(2, 0.05)); s.force(0.1)
        # derivative at the walls, by the polynomial through the points
        from numpy.polynomial import chebyshev as Ch
        x = D.x[w]; N = len(x); Vi = np.linalg.inv(Ch.chebvander(x, N-1)); ends = Ch.chebvander(np.array([-1., 1.]), N-1) @ Vi
        for n in range(8 if th else 3):
            s.step(); rec.state(); rec.trans()
            det = dict(dealias=d, mask=mask, step=n+1)
            u = s.fields()["U"]; size = max(1e-12, abs(u).max())
            g = D.grad(u); e = abs(D.div(u)).max()/max(1e-12, abs(g).max())
            if mask: rec.maximum("divergence", e)
            # unmasked Nyquist modes have no definite derivative on the grid
            if mask: rec.check(e < 1e-9, job["name"] + ":solenoidal", lambda: dict(det, relative=float(e)))
            wall = np.tensordot(ends, np.moveaxis(u, 1+w, 1), (1, 1))
            rec.check(abs(wall).max() < 1e-11*size, job["name"] + ":no-slip", lambda: dict(det, at_wall=float(abs(wall).max())))
            e = abs(u[w].mean(axis=tuple(i for i in range(3) if i != w))).max()
            rec.check(e < 1e-11*size, job["name"] + ":net-flow-through-walls", lambda: dict(det, value=float(e)))
            for i in range(3):
                h = np.moveaxis(np.array(s.c.U_hat[i]), w, 0)
                b = np.roll(np.flip(h[:, :, 0], axis=1), 1, axis=1)
                q = h[:, :, 0] - np.conj(b)
                q[:, s.N[1 if w == 0 else 0]//2] = 0
                rec.check(abs(q).max() < 1e-11*max(1e-12, abs(h).max()), job["name"] + ":real", lambda: dict(det, component=i, value=float(abs(q).max())))
                if mask:
                    ny = max(abs(h[:, h.shape[1]//2]).max(), abs(h[:, :, -1]).max())
                    rec.check(ny <= 1e-12*max(1e-12, abs(h).max()), job["name"] + ":nyquist", lambda: dict(det, component=i, value=float(ny)))
        rec.trace()
        if rec.nviol > 10: return

def projection(job, rec):
    from spectralDNS.maths import project
    for N, L in (((4, 6, 8), (5.0, 2*np.pi, 3.5)), ((8, 6), (3.0, 5.0)), ((6, 4, 4), (1.0, 9.0, 2*np.pi))):
        box = per.Box(N, L); S = Spectra(N, L); K = S.kap; k2 = (K*K).sum(0); d = len(N)
        KK = K/np.where(k2 == 0, 1, k2)
        for variant in ("array", "list", "open"):
            Ki = K if variant == "array" else ([k for k in K] if variant == "list" else [k[tuple(slice(None) if i == j else slice(0, 1) for j in range(d))] for i, k in enumerate(K)])
            for k, amp in per.modes(box, box.R, False):
                h = np.zeros((d,) + box.hshape, complex); box.put(h, k, amp)
                kap = box.kappa(k); q = kap @ kap
                want = np.zeros_like(h); box.put(want, k, amp - kap*(kap @ amp)/q if q else amp)
                got = project(h.copy(), Ki, KK); rec.state(); rec.trans(2); rec.trace()
                rec.close(np.array(got), want, 1e-13, job["name"] + ":solenoidal-part", dict(N=N, k=k, wavenumbers=variant))
                rec.close(np.array(project(np.array(got), Ki, KK)), got, 1e-13, job["name"] + ":idempotent", dict(N=N, k=k))
            if rec.nviol > 10: return
