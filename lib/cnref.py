"""Dense Galerkin reference of one channel step, one Fourier mode at a time.

Everything is written with explicit matrices on Chebyshev coefficients: the trial and test spaces
are the polynomials of degree < N with the boundary conditions of each equation, and all inner
products are the N-point Gauss quadrature sums of the chosen rule.  Nothing is shared with the code
under test or with shenfun.
"""
import numpy as np
from numpy.polynomial import chebyshev as Ch


def nodes(N, quad):
    if quad == "GC":
        x = np.cos(np.pi*(2*np.arange(N)+1)/(2*N)); w = np.full(N, np.pi/N)
    else:
        x = np.cos(np.pi*np.arange(N)/(N-1)); w = np.full(N, np.pi/(N-1)); w[0] /= 2; w[-1] /= 2
    return x, w


class Ref:
    A3 = (8/15., 5/12., 3/4.); B3 = (0., -17/60., -5/12.)
    def __init__(self, grid, quad, nu, dt, conv="Vortex", dealias="3/2-rule"):
        self.g = grid; self.N = N = grid.N; self.nu, self.dt = nu, dt
        self.quad, self.conv, self.dealias = quad, conv, dealias
        self.x, self.w = nodes(N, quad)
        self.T = Ch.chebvander(self.x, N-1)
        self.M = (self.T.T * self.w) @ self.T                  # quadrature Gram matrix of T_0..T_{N-1}
        self.D = grid.D; self.D2 = self.D @ self.D; self.D4 = self.D2 @ self.D2
        self.BD, self.BB = grid.basis_D(), grid.basis_B()
        self.projD = self.BD @ np.linalg.solve(self.BD.T @ self.M @ self.BD, self.BD.T @ self.M)
        self._proj_nodes()
        self._lu = {}

    def _proj_nodes(self):
        # values at the quadrature points (padded in the wall direction for the 3/2-rule) -> Dirichlet coefficients
        g = self.g
        P = self.N*3//2 if self.dealias == "3/2-rule" else self.N
        xp, wp = nodes(P, self.quad)
        self.xp = xp
        self.Tp = Ch.chebvander(xp, self.N-1)
        self.Pn = self.BD @ np.linalg.solve(self.BD.T @ self.M @ self.BD, self.BD.T @ (self.Tp.T * wp))
        Py, Pz = 3*g.Ry+2, 3*g.Rz+2       # exact products in the periodic directions
        y = g.Ly*np.arange(Py)/Py; z = g.Lz*np.arange(Pz)/Pz
        self.Ey = np.exp(1j*np.outer(y, g.ky)); self.Ez = np.exp(1j*np.outer(z, g.kz))
        self.Fy = np.exp(-1j*np.outer(g.ky, y))/Py; self.Fz = np.exp(-1j*np.outer(g.kz, z))/Pz
    def at(self, s): return np.einsum("xa,yb,zc,...abc->...xyz", self.Tp, self.Ey, self.Ez, s, optimize=True).real
    def proj(self, u): return np.einsum("ax,by,cz,...xyz->...abc", self.Pn, self.Fy, self.Fz, u, optimize=True)

    def cutoff(self, s):
        """2/3-rule: modes at or above a third of the points take no part in products."""
        if self.dealias != "2/3-rule": return s
        g = self.g; s = s.copy()
        s[..., abs(np.arange(-g.Ry, g.Ry+1)) >= g.Ny//3, :] = 0
        s[..., abs(np.arange(-g.Rz, g.Rz+1)) >= g.Nz//3] = 0
        return s

    def grad(self, s):
        g = self.g
        return np.stack([np.einsum("ab,...bcd->...acd", self.D, s), 1j*g.ky[:, None]*s, 1j*g.kz[None]*s])
    def H(self, s):
        """Minus the convection term of the velocity s, in the Dirichlet space (Chebyshev coefficients)."""
        s = self.cutoff(s)
        u = self.at(s)
        gr = self.at(self.grad(s))              # [j, i]
        if self.conv == "Vortex":
            w = np.stack([gr[1, 2]-gr[2, 1], gr[2, 0]-gr[0, 2], gr[0, 1]-gr[1, 0]])
            return self.proj(np.cross(u, w, axis=0))
        out = 0
        if self.conv in ("Standard", "Skew"):
            out = out + self.proj(-(u[:, None]*gr).sum(0))
        if self.conv in ("Divergence", "Skew"):
            P = self.proj(u[:, None]*u[None])   # products in the Dirichlet space
            d = np.einsum("ab,ibcd->iacd", self.projD @ self.D, P[0]) + 1j*self.g.ky[:, None]*P[1] + 1j*self.g.kz[None]*P[2]
            out = out - d
        return out*0.5 if self.conv == "Skew" else out

    def _solve(self, key, make):
        if key not in self._lu: self._lu[key] = make()
        return self._lu[key]

    def wall_vorticity(self, s):
        g = self.g
        return 1j*g.ky[:, None]*s[2] - 1j*g.kz[None]*s[1]

    def substep(self, s, Hexp, dt_impl, dt_expl, source=None, buoy=None, mean_source=True):
        """(u^+ - u)/dt = Hexp*(dt_expl) + nu/2 D(u^+ + u) dt_impl, in Galerkin form per mode.

        source: (3, N) Chebyshev coefficients of the pressure gradient acting on the mean flow."""
        g = self.g; M, D, D2, D4, BB, BD = self.M, self.D, self.D2, self.D4, self.BB, self.BD
        I = np.eye(self.N); nu = self.nu
        out = np.zeros_like(s)
        gv = self.wall_vorticity(s)
        h = nu*dt_impl/2
        for k in g.modes:
            a, b = g.kappa(k); ix = g.idx(k); q = a*a + b*b
            Hk = Hexp[(slice(None), slice(None)) + ix]
            if k == (0, 0):
                for comp in (1, 2):
                    def mk():
                        return np.linalg.inv(BD.T @ M @ (I - h*D2) @ BD), BD.T @ M @ (I + h*D2), BD.T @ M
                    inv, R, Mt = self._solve(("mean", h), mk)
                    f = R @ s[comp][(slice(None),)+ix] + dt_expl*(Mt @ Hk[comp])
                    if source is not None: f = f - dt_impl*(Mt @ source[comp])
                    out[comp][(slice(None),)+ix] = BD @ (inv @ f)
                continue
            def mk():
                L = D2 - q*I; L2 = D4 - 2*q*D2 + q*q*I
                return (np.linalg.inv(BB.T @ M @ (L - h*L2) @ BB), BB.T @ M @ (L + h*L2),
                        np.linalg.inv(BD.T @ M @ (I - h*L) @ BD), BD.T @ M @ (I + h*L), BB.T @ M, BD.T @ M)
            iu, Ru, ig, Rg, MB, MD = self._solve((round(q, 9), h), mk)
            hv = -q*Hk[0] - D @ (1j*a*Hk[1] + 1j*b*Hk[2])
            fu = Ru @ s[0][(slice(None),)+ix] + dt_expl*(MB @ hv)
            if buoy is not None: fu = fu + dt_impl*(MB @ (-q*buoy[(slice(None),)+ix]))
            u = BB @ (iu @ fu)
            hg = 1j*a*Hk[2] - 1j*b*Hk[1]
            gg = BD @ (ig @ (Rg @ gv[(slice(None),)+ix] + dt_expl*(MD @ hg)))
            up = D @ u
            out[0][(slice(None),)+ix] = u
            out[1][(slice(None),)+ix] = 1j*(a*up + b*gg)/q
            out[2][(slice(None),)+ix] = 1j*(b*up - a*gg)/q
        return out

    def ab2(self, s, H, H1, source=None, buoy=None):
        return self.substep(s, 1.5*H - 0.5*H1, self.dt, self.dt, source, buoy)
    def rk3(self, s, source=None, H=None):
        H0 = 0
        for a, b in zip(self.A3, self.B3):
            Hn = self.H(s)
            s = self.substep(s, (a*Hn + b*H0), (a+b)*self.dt, self.dt, source)
            H0 = Hn
        return s
