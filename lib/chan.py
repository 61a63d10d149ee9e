"""Driving the channel solvers through their public interface in one canonical orientation.

Canonical fields are (component, wall, y, z) with components (wall normal, y, z); KMMr (wall along
the last axis) is permuted.  Spectra are Chebyshev coefficients (N) x centred Fourier boxes
[-Ry, Ry] x [-Rz, Rz], built and read with explicit Vandermonde and exponential matrices only.
"""
import itertools
import numpy as np
from numpy.polynomial import chebyshev as Ch


class Grid:
    """Chebyshev x Fourier x Fourier with explicit matrices."""
    def __init__(self, x, Ny, Nz, Ly, Lz):
        self.x = np.asarray(x); self.N = N = len(x)
        self.Ny, self.Nz, self.Ly, self.Lz = Ny, Nz, Ly, Lz
        self.Ry, self.Rz = Ny // 2 - 1, Nz // 2 - 1
        self.T = Ch.chebvander(self.x, N - 1)
        self.Ti = np.linalg.inv(self.T)
        self.D = np.zeros((N, N))
        for k in range(1, N):
            e = np.zeros(N); e[k] = 1
            d = Ch.chebder(e); self.D[:len(d), k] = d
        self.ky = 2*np.pi/Ly*np.arange(-self.Ry, self.Ry+1)
        self.kz = 2*np.pi/Lz*np.arange(-self.Rz, self.Rz+1)
        self.k2 = self.ky[:, None]**2 + self.kz[None]**2
        self.y = Ly*np.arange(Ny)/Ny; self.z = Lz*np.arange(Nz)/Nz
        self.Ey = np.exp(1j*np.outer(self.y, self.ky)); self.Ez = np.exp(1j*np.outer(self.z, self.kz))
        self.Fy = np.exp(-1j*np.outer(self.ky, self.y))/Ny; self.Fz = np.exp(-1j*np.outer(self.kz, self.z))/Nz
        self.shape = (N, 2*self.Ry+1, 2*self.Rz+1)
        self.phys_shape = (N, Ny, Nz)
        self.modes = [(m, n) for m in range(-self.Ry, self.Ry+1) for n in range(-self.Rz, self.Rz+1)]
        self.half = [k for k in self.modes if k[1] > 0 or (k[1] == 0 and k[0] >= 0)]
    def idx(self, k): return (k[0]+self.Ry, k[1]+self.Rz)
    def kappa(self, k): return 2*np.pi/self.Ly*k[0], 2*np.pi/self.Lz*k[1]
    def phys(self, s):
        return np.einsum("xa,yb,zc,...abc->...xyz", self.T, self.Ey, self.Ez, s, optimize=True).real
    def spec(self, u):
        return np.einsum("ax,by,cz,...xyz->...abc", self.Ti, self.Fy, self.Fz, u, optimize=True)
    def dx(self, s): return np.einsum("ab,...bcd->...acd", self.D, s)

    def basis_D(self):
        """Polynomials of degree < N vanishing at the walls: columns of Chebyshev coefficients."""
        B = np.zeros((self.N, self.N-2))
        for k in range(self.N-2): B[k, k] = 1; B[k+2, k] = -1
        return B
    def basis_B(self):
        """... vanishing with their derivative at the walls."""
        B = np.zeros((self.N, self.N-4))
        for k in range(self.N-4):
            B[k, k] = 1; B[k+2, k] = -2*(k+2.)/(k+3.); B[k+4, k] = (k+1.)/(k+3.)
        return B

    def put(self, s, k, prof):
        """Add the real field prof(x) e^{ikx} + cc (prof real for k = 0)."""
        if k == (0, 0): s[(slice(None),) + self.idx(k)] += np.real(prof); return
        s[(slice(None),) + self.idx(k)] += prof
        s[(slice(None),) + self.idx((-k[0], -k[1]))] += np.conj(prof)
    def mode_u(self, k, prof):
        """Solenoidal field of wall normal velocity prof and zero wall normal vorticity."""
        s = np.zeros((3,) + self.shape, complex); a, b = self.kappa(k); q = a*a + b*b
        up = self.D @ prof
        self.put(s[0], k, prof); self.put(s[1], k, 1j*a*up/q); self.put(s[2], k, 1j*b*up/q)
        return s
    def mode_g(self, k, prof):
        """Solenoidal field of wall normal vorticity prof (d w/dy - d v/dz) and u = 0."""
        s = np.zeros((3,) + self.shape, complex); a, b = self.kappa(k); q = a*a + b*b
        self.put(s[1], k, 1j*b*prof/q); self.put(s[2], k, -1j*a*prof/q)
        return s
    def mode_mean(self, comp, prof):
        s = np.zeros((3,) + self.shape, complex); self.put(s[comp], (0, 0), prof); return s
    def basis(self, degs_u=None, degs_g=None, degs_m=None, ry=None, rz=None):
        """All real basis states (label, spectrum) of solenoidal no-slip fields in the given bounds."""
        BB, BD = self.basis_B(), self.basis_D()
        out = []
        for k in self.half:
            if abs(k[0]) > (self.Ry if ry is None else ry) or abs(k[1]) > (self.Rz if rz is None else rz): continue
            if k == (0, 0):
                for comp in (1, 2):
                    for d in (range(self.N-2) if degs_m is None else degs_m):
                        out.append((("mean", comp, d), self.mode_mean(comp, BD[:, d])))
                continue
            for ph in (1.0, 1j):
                for d in (range(self.N-4) if degs_u is None else degs_u):
                    out.append((("u", k, d, ph), self.mode_u(k, ph*BB[:, d])))
                for d in (range(self.N-2) if degs_g is None else degs_g):
                    out.append((("g", k, d, ph), self.mode_g(k, ph*BD[:, d])))
        return out
    def generic(self, seed, dmax=None, ry=None, rz=None):
        """A state exciting every basis state within the bounds."""
        g = np.random.default_rng(seed)
        s = np.zeros((3,) + self.shape, complex)
        lim = lambda n: range(n if dmax is None else min(n, dmax))
        for lab, b in self.basis(lim(self.N-4), lim(self.N-2), lim(self.N-2), ry, rz):
            s += b * g.uniform(-1, 1) / (1 + lab[2])**1.5
        return s
    def div(self, s):
        return self.dx(s[0]) + 1j*self.ky[:, None]*s[1] + 1j*self.kz[None]*s[2]


class Channel:
    CONV = ("Standard", "Divergence", "Skew", "Vortex")
    def __init__(self, solver, M, L, **opt):
        from spectralDNS import config, get_solver
        self.solver = solver; self.rev = solver == "KMMr"; self.rb = solver.endswith("RB")
        self.ax = (2, 0, 1) if self.rev else (0, 1, 2)      # canonical axis -> axis of the code
        Mc = [None]*3; Lc = [None]*3
        for i, a in enumerate(self.ax): Mc[a] = M[i]; Lc[a] = L[i]
        args = ["--M"] + [str(m) for m in Mc] + ["--L"] + [repr(float(l)) for l in Lc]
        kappa = opt.pop("kappa", 0.03)
        for k, v in opt.items():
            if k == "mask_nyquist": args += ["--mask_nyquist" if v else "--no-mask_nyquist"]
            elif k == "optimization":
                if v: args += ["--optimization", v]
            else: args += ["--" + k, v if isinstance(v, str) else repr(v)]
        sol = get_solver(mesh="channel", parse_args=args + ["--no-verbose", solver])
        config.params.kappa = kappa
        self.config, self.sol, self.params = config, sol, config.params
        self.c = sol.get_context()
        sol.conv = sol.getConvection(config.params.convection)
        x = np.squeeze(np.asarray(self.c.X[self.ax[0]]))
        x = x.reshape(-1) if x.ndim == 1 else np.moveaxis(np.asarray(self.c.X[self.ax[0]]), self.ax[0], 0)[:, 0, 0]
        self.grid = Grid(x, 2**M[1], 2**M[2], L[1], L[2])
        self._int = None
        self.dt = float(config.params.dt); self.nu = float(config.params.nu)
        self.kappa = kappa
    def convections(self): return self.CONV
    def convection(self, cv):
        self.params.convection = cv; self.sol.conv = self.sol.getConvection(cv)

    # canonical <-> code
    def to_code(self, u):
        """(3, wall, y, z) -> components and axes of the code; also for one scalar field."""
        if u.ndim == 4:
            v = np.empty((3,) + tuple(np.array(u.shape[1:])[list(np.argsort(self.ax))]), u.dtype)
            for i, a in enumerate(self.ax): v[a] = u[i].transpose(tuple(np.argsort(self.ax)))
            return v
        return u.transpose(tuple(np.argsort(self.ax)))
    def from_code(self, u):
        u = np.asarray(u)
        if u.ndim == 4: return np.stack([u[a].transpose(self.ax) for a in self.ax])
        return u.transpose(self.ax)

    def put_velocity(self, phys):
        """Make phys (canonical, physical) the current velocity, with the wall normal vorticity of it."""
        c = self.c
        c.U[:] = self.to_code(phys)
        self.sol.set_velocity(**c)
        if "g" in c:
            i, j = self.ax[1], self.ax[2]
            c.g[:] = 1j*c.K[i]*c.U_hat[j] - 1j*c.K[j]*c.U_hat[i]
    def put_phi(self, phys):
        c = self.c
        c.phi[:] = self.to_code(phys)
        c.phi_hat = c.phi.forward(c.phi_hat)

    def generic(self, seed, dmax=5, amp=0.3):
        s = {"U": self.grid.phys(amp*self.grid.generic(seed, dmax))}
        if self.rb:
            g = self.grid; t = np.zeros(g.shape, complex); rng = np.random.default_rng(seed + 100)
            BD = g.basis_D()
            for k in g.half:
                for d in range(dmax):
                    g.put(t, k, BD[:, d]*(rng.uniform(-1, 1) + 1j*rng.uniform(-1, 1))*amp/(1+d)**1.5)
            t[0, g.Ry, g.Rz] += 0.5; t[1, g.Ry, g.Rz] += 0.5 if self.hot_right() else -0.5
            s["phi"] = g.phys(t)
        return s
    def hot_right(self):
        """Wall temperature one at x = 1 or at x = -1: the solvers put it where bc=(1, 0) does."""
        return False
    def start(self, st, prev_H=None):
        c = self.c; p = self.params
        p.t = 0.0; p.tstep = 0
        self.put_velocity(st["U"])
        for n in ("H_hat", "H_hat0", "H_hat1", "N_hat", "N_hat0"):
            if n in c: c[n][:] = 0
        if self.rb:
            self.put_phi(st["phi"])
            for n in ("phi_hat0", "phi_hat1"):
                if n in c: c[n][:] = c.phi_hat
        if "U_hat0" in c: c.U_hat0[:] = c.U_hat
        if "H_hat1" in c and "RK3" not in self.solver:
            c.H_hat1[:] = self.sol.get_convection(**c)
        self._int = None
    def step(self):
        c = self.c; p = self.params
        if self._int is None:
            self._int = self.sol.getintegrator(c.dU, c.u, self.sol, c)
        u, dt, took = self._int()
        p.t += took; p.tstep += 1
        self.sol.end_of_tstep(c)
        return u
    def velocity(self):
        """Physical velocity of the current spectral solution (canonical)."""
        c = self.c
        return self.from_code(np.array(c.U_hat.backward(c.U)))
    def temperature(self):
        c = self.c
        return self.from_code(np.array(c.phi_hat.backward(c.phi)))
    def fields(self):
        f = self.velocity()
        if self.rb: f = np.concatenate([f, self.temperature()[None]])
        return f
