"""C14: compiled Shen-basis products against dense Galerkin matrices."""
import itertools
import numpy as np
import cnref
TECHNIQUE = "exhaustive enumeration of unit vectors (all entries, phases, axes, sizes, quadratures) through the compiled products against dense matrices"
NOTE = ("Linear operators are decided by their columns: every unit vector along the wall-normal axis at every wavenumber of a small mesh is pushed through the real operators for all "
        "sizes in a range, every axis and both quadratures, with stale outputs and with other columns filled, against dense matrices from quadrature sums.")
RULE = "states = distinct (operator, size, quadrature, axis, input vector); transitions = operator applications; traces = comparisons with dense matrices"
ASSUMPTIONS = ["operators act on each wall-normal line separately and linearly (also checked with all lines filled)"]
BOUNDS = {"quick": "N = 8..24 and 32 (biharmonic from 14: below, the shenfun routine reads out of range), GC and GL, axes 0-2, 2x3 wavenumbers", "thorough": "N = 8..36, 48, 64, 3x4 wavenumbers"}

def jobs(tier):
    Ns = list(range(8, 37 if tier == "thorough" else 25)) + ([48, 64] if tier == "thorough" else [32])
    out = []
    for N in Ns:
        out.append(dict(name="shen-%d" % N, args=dict(Ns=[N], cross=[2, 3] if tier != "thorough" else [3, 4]), cost=N, timeout=800))
    return out

class Dense:
    def __init__(self, N, quad):
        x, w = cnref.nodes(N, quad)
        T = np.polynomial.chebyshev.chebvander(x, N-1)
        M = (T.T*w) @ T
        D = np.zeros((N, N))
        for k in range(1, N):
            e = np.zeros(N); e[k] = 1; d = np.polynomial.chebyshev.chebder(e); D[:len(d), k] = d
        BD = np.zeros((N, N-2)); BB = np.zeros((N, N-4)); BN = np.zeros((N, N-2))
        for k in range(N-2):
            BD[k, k] = 1; BD[k+2, k] = -1
            BN[k, k] = 1; BN[k+2, k] = -(k/(k+2.))**2
        for k in range(N-4): BB[k, k] = 1; BB[k+2, k] = -2*(k+2.)/(k+3.); BB[k+4, k] = (k+1.)/(k+3.)
        self.D, self.BD, self.BB, self.BN, self.M = D, BD, BB, BN, M
        D2 = D @ D
        self.AD = BD.T @ M @ D2 @ BD; self.MD = BD.T @ M @ BD
        self.SB = BB.T @ M @ D2 @ D2 @ BB; self.AB = BB.T @ M @ D2 @ BB; self.MB = BB.T @ M @ BB
        self.C = D @ BD

def run(job, rec):
    from spectralDNS.shen.Matrices import HelmholtzCoeff, BiharmonicCoeff
    from spectralDNS.shen import LUsolve
    a = job["args"]; n1, n2 = a["cross"]
    rng = np.random.default_rng(0)
    for N, quad in itertools.product(a["Ns"], ("GC", "GL")):
        d = Dense(N, quad)
        for axis in range(3):
            sh = [n1, n2]; sh.insert(axis, N); sh = tuple(sh)
            cs = list(sh); cs[axis] = 1; cs = tuple(cs)
            lines = list(itertools.product(range(n1), range(n2)))
            line = lambda arr, p: np.moveaxis(arr, axis, 0)[(slice(None),) + p]
            coef = [np.round(rng.uniform(-4, 4, cs), 3) for _ in range(3)]
            coef[0][(0,)*3] = 0.0
            hel = [HelmholtzCoeff(N, 1.0, coef[0], axis, quad), HelmholtzCoeff(N, coef[1].copy(), coef[0], axis, quad)]
            bih = [] if N < 14 else [BiharmonicCoeff(N, 0.37, coef[0], coef[1], axis, quad)]
            ops = []
            for q, o in enumerate(hel):
                ops.append(("helmholtz%d" % q, o.matvec, N-2, lambda p, q=q: (1.0 if q == 0 else line(coef[1], p)[0])*d.AD + line(coef[0], p)[0]*d.MD))
            if bih: ops.append(("biharmonic", bih[0].matvec, N-4, lambda p: 0.37*d.SB + line(coef[0], p)[0]*d.AB + line(coef[1], p)[0]*d.MB))
            for nm, f, nd, mat in ops:
                key = "%s:%s:%s:axis%d" % (job["name"], nm, quad, axis)
                mats = {p: mat(p) for p in lines}
                def apply(v, what):
                    keep = v.copy(); out = np.full(sh, 1e3 + 1e3j)
                    r = f(v, out)
                    rec.state(); rec.trans(); rec.trace()
                    rec.check(np.array_equal(v, keep), key + ":input-changed", {"N": N, "what": what})
                    rec.check(np.shares_memory(r, out), key + ":object", {"N": N})
                    want = np.zeros(sh, complex)
                    for p in lines: line(want, p)[:nd] = mats[p] @ line(keep, p)[:nd]
                    # rounding of the banded sums grows with the entries of the row
                    return rec.close(out, want, 1e-12, key, {"N": N, "input": what}, scale=max(1., abs(want).max(), max(abs(m).max() for m in mats.values())), metric=nm)
                fill = np.zeros(sh, complex)
                for p in lines: line(fill, p)[:nd] = rng.uniform(-1, 1, nd) + 1j*rng.uniform(-1, 1, nd)
                apply(fill.copy(), "dense")
                for k in range(nd):
                    for q, p in enumerate(lines):
                        v = np.zeros(sh, complex); line(v, p)[k] = (1.0, 1j)[(q+k) % 2]
                        if not apply(v, "unit %d at %s" % (k, p)): break
                if rec.nviol > 20: return
            # compiled derivative of Dirichlet functions
            key = "%s:derivative:axis%d" % (job["name"], axis)
            if quad == "GC" and hasattr(LUsolve, "Mult_CTD_3D_ptr"):
                def der(v, w, what):
                    kv, kw = v.copy(), w.copy()
                    bv = np.full(sh, 50 - 7j); bw = np.full(sh, -3 + 9j)
                    LUsolve.Mult_CTD_3D_ptr(N, v, w, bv, bw, axis)
                    rec.state(); rec.trans(); rec.trace()
                    rec.check(np.array_equal(v, kv) and np.array_equal(w, kw), key + ":input-changed", {"N": N})
                    ok = True
                    for src, got, nm in ((kv, bv, "v"), (kw, bw, "w")):
                        want = np.zeros(sh, complex)
                        for p in lines: line(want, p)[:] = d.C @ line(src, p)[:N-2]
                        ok &= rec.close(got, want, 1e-12, key, {"N": N, "which": nm, "input": what}, scale=max(1., abs(d.C).max()), metric="derivative")
                    return ok
                mk = lambda: np.zeros(sh, complex)
                dv, dw = mk(), mk()
                for p in lines:
                    line(dv, p)[:N-2] = rng.uniform(-1, 1, N-2) + 1j*rng.uniform(-1, 1, N-2)
                    line(dw, p)[:N-2] = rng.uniform(-1, 1, N-2) + 1j*rng.uniform(-1, 1, N-2)
                der(dv, dw, "dense")
                for k in range(N-2):
                    for q, p in enumerate(lines):
                        for which in (0, 1):
                            v, w = mk(), mk()
                            line((v, w)[which], p)[k] = (1., 1j)[(k+q) % 2]
                            if not der(v, w, "unit %d at %s in %d" % (k, p, which)): return
                        v, w = dv.copy(), mk(); line(w, p)[k] = 2.5
                        if not der(v, w, "unit and dense"): return
        # divergence tested with the Neumann basis
        if quad == "GC" and hasattr(LUsolve, "Mult_Div_3D"):
            m = np.round(rng.uniform(-3, 3, (n1, n2)), 2); n = np.round(rng.uniform(-3, 3, (n1, n2)), 2)
            BN = d.BN[:, 1:]                                # functions k = 1 .. N-3
            mats = (BN.T @ d.M @ d.D @ d.BD, BN.T @ d.M @ d.BD)
            key = "%s:divergence" % job["name"]
            for comp in range(3):
                for k in range(N-2):
                    for q, p in enumerate(itertools.product(range(n1), range(n2))):
                        u = np.zeros((3, N, n1, n2), complex); u[(comp, k) + p] = (1., 1j)[(k+q) % 2]
                        keep = u.copy(); b = np.full((N, n1, n2), 4.5 + 0j)
                        LUsolve.Mult_Div_3D(N, m, n, u[0], u[1], u[2], b)
                        rec.state(); rec.trans(); rec.trace()
                        want = np.zeros((N-3, n1, n2), complex)
                        for pp in itertools.product(range(n1), range(n2)):
                            s = (slice(0, N-2),) + pp
                            want[(slice(None),) + pp] = mats[0] @ keep[0][s] + 1j*m[pp]*(mats[1] @ keep[1][s]) + 1j*n[pp]*(mats[1] @ keep[2][s])
                        rec.check(np.array_equal(u, keep), key + ":input-changed", {"N": N})
                        if not rec.close(b[:N-3], want, 1e-12, key, {"N": N, "unit": [comp, k, p]}, scale=max(1., abs(mats[0]).max()), metric="divergence"): return
        rec.count("sizes")
    rec.sample({"sizes": a["Ns"], "lines": n1*n2})
