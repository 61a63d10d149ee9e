"""Driving the periodic solvers through their public interface, and an independent oracle.

The oracle works on full complex spectra over the integer wavenumber box [-R, R]^d, evaluates
products on a dense grid through explicit exponential matrices (no FFT, nothing shared with the
code under test) and is exact because the grid resolves every product.
"""
import itertools
import numpy as np


def setup(solver, mesh, M, L, **opt):
    """Fresh solver module and context for one configuration (one per process and optimisation)."""
    from spectralDNS import config, get_solver
    args = ["--M"] + [str(m) for m in M] + ["--L"] + [repr(float(l)) for l in L]
    tail = [solver]
    for k, v in opt.items():
        if k in ("eta", "Ri", "Pr"):
            tail += ["--" + k, repr(v)]
        elif k == "mask_nyquist":
            args += ["--mask_nyquist" if v else "--no-mask_nyquist"]
        elif k == "optimization":
            if v: args += ["--optimization", v]
        else:
            args += ["--" + k, v if isinstance(v, str) else repr(v)]
    sol = get_solver(mesh=mesh, parse_args=args + ["--no-verbose"] + tail)
    c = sol.get_context()
    sol.conv = sol.getConvection(sol.params.convection)
    return config, sol, c


class Box:
    """Spectra of real periodic fields: layout of the code (last axis halved) <-> box [-R, R]^d."""
    def __init__(self, N, L, R=None):
        self.N = [int(n) for n in N]; self.d = len(N); self.L = [float(l) for l in L]
        self.R = [n // 2 - 1 for n in self.N] if R is None else list(R)
        self.kmax = self.R
        self.hshape = tuple(self.N[:-1]) + (self.N[-1] // 2 + 1,)
        self.ks = list(itertools.product(*[range(-r, r + 1) for r in self.R]))
        self.half = [k for k in self.ks if self._canon(k)]
        # kappa on the box
        ax = [2 * np.pi / l * np.arange(-r, r + 1) for r, l in zip(self.R, self.L)]
        self.kap = np.array(np.meshgrid(*ax, indexing="ij"))
        self.k2 = (self.kap ** 2).sum(0)
        self.k2i = np.where(self.k2 == 0, 1, self.k2)
        self.iz = tuple(self.R)          # index of wavenumber zero
        # grid matrices: resolve products of two fields (|k| <= 2R) up to output |k| <= R
        self.E = []; self.F = []
        for r in self.R:
            P = 3 * r + 2
            x = 2 * np.pi * np.arange(P) / P
            k = np.arange(-r, r + 1)
            self.E.append(np.exp(1j * np.outer(x, k)))
            self.F.append(np.exp(-1j * np.outer(k, x)) / P)

    @staticmethod
    def _canon(k):
        """One of k, -k: the first non-zero entry from the last axis is positive."""
        for v in reversed(k):
            if v: return v > 0
        return True

    def kappa(self, k):
        return np.array([2 * np.pi / l * v for l, v in zip(self.L, k)])

    def put(self, hat, k, amp):
        """Add the real field amp e^{ikx} + cc (amp for k=0) to spectra in the code's layout."""
        k = tuple(k)
        for kk, a in ((k, np.asarray(amp)), (tuple(-v for v in k), np.conj(amp))):
            if kk[-1] >= 0:
                i = tuple(v % n for v, n in zip(kk[:-1], self.N)) + (kk[-1],)
                hat[(Ellipsis,) + i] += a
            if not any(k): break

    def tobox(self, hat):
        """(..., code layout) -> (..., box)."""
        hat = np.asarray(hat)
        out = np.zeros(hat.shape[:-self.d] + tuple(2 * r + 1 for r in self.R), complex)
        pos = [np.arange(-r, r + 1) for r in self.R]
        # non-negative last wavenumber straight, negative by conjugation
        r = self.R[-1]
        ix = np.ix_(*[p % n for p, n in zip(pos[:-1], self.N)], np.arange(0, r + 1))
        up = hat[(Ellipsis,) + ix]
        out[..., r:] = up
        fl = up
        for a in range(self.d - 1): fl = np.flip(fl, axis=fl.ndim - self.d + a)
        out[..., :r] = np.conj(np.flip(fl[..., 1:], axis=-1))
        return out

    def phys(self, s):
        for a in range(self.d):
            s = np.moveaxis(np.tensordot(self.E[a], s, axes=(1, s.ndim - self.d + a)), 0, s.ndim - self.d + a)
        return s
    def spec(self, u):
        for a in range(self.d):
            u = np.moveaxis(np.tensordot(self.F[a], u, axes=(1, u.ndim - self.d + a)), 0, u.ndim - self.d + a)
        return u

    def grad(self, s):                       # -> [j, ...]
        return 1j * self.kap.reshape((self.d,) + (1,) * (s.ndim - self.d) + self.kap.shape[1:]) * s
    def leray(self, v):
        p = (self.kap * v).sum(0) / self.k2i
        return v - self.kap * p
    def div(self, v): return (1j * self.kap * v).sum(0)
    def curl(self, v):
        if self.d == 2: return 1j * (self.kap[0] * v[1] - self.kap[1] * v[0])
        return 1j * np.cross(self.kap, v, axis=0)
    def biot(self, w):
        return 1j * np.cross(self.kap, w, axis=0) / self.k2i

    def advect(self, u, q):
        """Spectrum of (u . grad) q for component stack q, truncated to the box, no aliasing."""
        up = self.phys(u)
        g = self.phys(self.grad(q))          # [j, comp, grid]
        if q.ndim == self.d: return self.spec((up * g).sum(0))
        return self.spec((up[:, None] * g).sum(0))
    def cross(self, a, b):
        return self.spec(np.cross(self.phys(a), self.phys(b), axis=0))

    def cut(self, s, R):
        """Keep |k_i| <= R_i only."""
        out = np.zeros_like(s)
        sl = tuple(slice(self.R[i] - R[i], self.R[i] + R[i] + 1) for i in range(self.d))
        out[(Ellipsis,) + sl] = s[(Ellipsis,) + sl]
        return out


def nonlinear_reach(N, dealias):
    """Largest |k_i| that takes part in the nonlinear term without any aliasing in the result."""
    if dealias == "3/2-rule": return [n // 2 - 1 for n in N]
    if dealias == "2/3-rule": return [max(n // 3 - 1, 0) for n in N]
    return [max((n // 2 - 1) // 2, 0) for n in N]


def basis_vectors(k, kappa, solenoidal=True):
    """Real/imaginary amplitudes spanning the vector fields of wavenumber k."""
    d = len(k)
    if not any(k):
        return [np.eye(d)[i].astype(complex) for i in range(d)]
    kh = kappa / np.linalg.norm(kappa)
    if solenoidal:
        if d == 2: pol = [np.array([-kh[1], kh[0]])]
        else:
            e = np.eye(3)[int(np.argmin(abs(kh)))]
            a = np.cross(kh, e); a /= np.linalg.norm(a)
            pol = [a, np.cross(kh, a)]
    else: pol = list(np.eye(d))
    return [p * ph for p in pol for ph in (1.0 + 0j, 1j)]


def modes(box, R, solenoidal=True, zero=True):
    """All real basis states (k, amp) with |k_i| <= R_i."""
    out = []
    for k in box.half:
        if all(abs(v) <= r for v, r in zip(k, R)) and (zero or any(k)):
            for a in basis_vectors(k, box.kappa(k), solenoidal): out.append((k, a))
    return out
def scalar_modes(box, R):
    out = []
    for k in box.half:
        if all(abs(v) <= r for v, r in zip(k, R)):
            for a in ((1.0 + 0j,) if not any(k) else (1.0 + 0j, 1j)): out.append((k, np.array([a])))
    return out
