"""C13: optimised kernels against the plain implementation.

Kernel level: every kernel is a (bi)linear map acting pointwise, so it is determined by its values
when every entry of every argument is excited alone and in pairs; both are enumerated completely on
small anisotropic meshes and compared with the written-out formula of the plain implementation, for
the plain implementation too.  Solver level: the tendency and whole steps of every solver are
computed in every mode for the same states and compared between the processes of the modes.
"""
import inspect, itertools, os
import numpy as np
from per import setup, Box, modes, scalar_modes
TECHNIQUE = "exhaustive enumeration of unit excitations (single and in pairs) of every kernel argument in every optimisation mode, plus state-by-state comparison of whole solver steps between modes"
NOTE = ("All basis excitations of all arguments, alone and pairwise, on small meshes decide the pointwise (bi)linear kernels for these meshes; other arguments must "
        "stay untouched and the returned object must be the output argument. Single precision is decided at kernel level only (the solvers do not start in it).")
RULE = ("states = distinct (kernel, mode, precision, input) evaluated or (solver, mode, state) stepped; transitions = kernel calls and steps; "
        "traces = comparisons of a real kernel or step with the reference or with the plain mode")
ASSUMPTIONS = ["kernels act pointwise in space and linearly in each argument (mixed dense inputs are evaluated as well)",
               "kernels whose name or signature changed are decided at solver level only"]
BOUNDS = {"quick": "meshes 2x3x4 and 3x4; all shapes with extents 1, 2, 3, 5, 9 with dense arguments; solver steps on 4^3, 8x4, 16x4x4", "thorough": "meshes 3x4x5 and 5x4; 8x4x8 solver states"}
MODES = ("", "cython", "numba", "pythran")
CH = ("KMM", "KMMr", "KMMRK3", "Coupled", "CoupledRK3", "KMM_RB", "KMMRK3_RB")

def jobs(tier):
    out = []
    for mode in MODES:
        for prec in ("double", "single"):
            for solver in ("NS", "NS2D", "Bq2D", "MHD", "VV") + (("KMM", "KMMr", "KMMRK3", "Coupled") if prec == "double" else ()):
                if mode and solver in ("Coupled", "MHD", "VV") and prec == "double" and mode != "cython": continue
                if prec == "single" and solver in ("MHD", "VV") and mode in ("numba",): continue
                out.append(dict(name="kern-%s-%s-%s" % (solver, mode or "plain", prec), func="kern", cost=3 if mode == "numba" else 2,
                                args=dict(solver=solver, mode=mode, prec=prec)))
        for solver in ("NS", "VV", "MHD", "NS2D", "Bq2D"):
            out.append(dict(name="step-%s-%s" % (solver, mode or "plain"), func="step", cost=4, args=dict(solver=solver, mode=mode)))
        for solver in CH:
            out.append(dict(name="chan-%s-%s" % (solver, mode or "plain"), func="chan", cost=6, args=dict(solver=solver, mode=mode)))
    return out

# ---------------------------------------------------------------------------------- kernels
def cross3(a, b):
    return np.stack([a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]])
def press(du, ko): return sum(du[i]*ko[i] for i in range(len(ko)))

class Kernel:
    """name, argument names of the plain implementation, shapes/kinds, outputs, formula."""
    def __init__(self, name, sig, args, formula, outs, ret, tag=""):
        self.name, self.sig, self.args, self.formula, self.outs, self.ret, self.tag = name, sig, args, formula, outs, ret, tag

def kernels(solver, n, two):
    """args: list of (name, kind, shape); kind r real, c complex, K list of axis arrays, s scalar.
    outs: names overwritten completely (stale content on entry must not matter); inout: in formula."""
    d = 2 if two else 3
    sp = tuple(n)
    ks = []
    if two:
        ks.append(Kernel("cross1", "c a b", [("c", "r", sp), ("a", "r", (2,)+sp), ("b", "r", (2,)+sp)],
                         lambda c, a, b: {"c": a[0]*b[1] - a[1]*b[0]}, ["c"], "c"))
        for kind in ("r", "K"):
            ks.append(Kernel("cross2", "c a b", [("c", "c", sp), ("a", kind, (2,)+sp), ("b", "c", (2,)+sp)],
                             lambda c, a, b: {"c": 1j*(a[0]*b[1] - a[1]*b[0])}, ["c"], "c", kind))
    else:
        ks.append(Kernel("cross1", "c a b", [("c", "r", (3,)+sp), ("a", "r", (3,)+sp), ("b", "r", (3,)+sp)],
                         lambda c, a, b: {"c": cross3(a, b)}, ["c"], "c"))
        for kind in ("r", "K"):
            ks.append(Kernel("cross2", "c a b", [("c", "c", (3,)+sp), ("a", kind, (3,)+sp), ("b", "c", (3,)+sp)],
                             lambda c, a, b: {"c": 1j*cross3(a, b)}, ["c"], "c", kind))
    if solver in ("NS", "NS2D"):
        def f(rhs, u_hat, nu, K2, K, P_hat, K_over_K2):
            p = press(rhs, K_over_K2)
            return {"rhs": np.stack([rhs[i] - p*K[i] - nu*K2*u_hat[i] for i in range(d)]), "P_hat": p}
        ks.append(Kernel("add_pressure_diffusion", "rhs u_hat nu K2 K P_hat K_over_K2",
                         [("rhs", "c", (d,)+sp), ("u_hat", "c", (d,)+sp), ("nu", "s", 0.7), ("K2", "r", sp), ("K", "K", (d,)+sp),
                          ("P_hat", "c", sp), ("K_over_K2", "r", (d,)+sp)], f, ["P_hat"], "rhs"))
    if solver == "Bq2D":
        def f(rhs, ur_hat, P_hat, K_over_K2, K, K2, nu, Ri, Pr):
            p = press(rhs[:2], K_over_K2) - Ri*ur_hat[2]*K_over_K2[1]
            r = np.stack([rhs[i] - p*K[i] - nu*K2*ur_hat[i] for i in range(2)] + [rhs[2] - nu/Pr*K2*ur_hat[2]])
            r[1] -= Ri*ur_hat[2]
            return {"rhs": r, "P_hat": p}
        ks.append(Kernel("add_pressure_diffusion", "rhs ur_hat P_hat K_over_K2 K K2 nu Ri Pr",
                         [("rhs", "c", (3,)+sp), ("ur_hat", "c", (3,)+sp), ("P_hat", "c", sp), ("K_over_K2", "r", (2,)+sp),
                          ("K", "K", (2,)+sp), ("K2", "r", sp), ("nu", "s", 0.7), ("Ri", "s", 0.3), ("Pr", "s", 2.5)], f, ["P_hat"], "rhs"))
    if solver == "MHD":
        def f(rhs, ub_hat, nu, eta, K2, K, P_hat, K_over_K2):
            p = press(rhs[:3], K_over_K2)
            return {"rhs": np.stack([rhs[i] - p*K[i] - nu*K2*ub_hat[i] for i in range(3)] + [rhs[i] - eta*K2*ub_hat[i] for i in range(3, 6)]), "P_hat": p}
        ks.append(Kernel("add_pressure_diffusion", "rhs ub_hat nu eta K2 K P_hat K_over_K2",
                         [("rhs", "c", (6,)+sp), ("ub_hat", "c", (6,)+sp), ("nu", "s", 0.7), ("eta", "s", 0.3), ("K2", "r", sp), ("K", "K", (3,)+sp),
                          ("P_hat", "c", sp), ("K_over_K2", "r", (3,)+sp)], f, ["P_hat"], "rhs"))
    if solver == "VV":
        ks.append(Kernel("add_linear", "rhs w_hat nu K2 Source",
                         [("rhs", "c", (3,)+sp), ("w_hat", "c", (3,)+sp), ("nu", "s", 0.7), ("K2", "r", sp), ("Source", "c", (3,)+sp)],
                         lambda rhs, w_hat, nu, K2, Source: {"rhs": rhs - nu*K2*w_hat + Source}, [], "rhs"))
    if solver in ("KMM", "KMMr", "Coupled"):
        ks.append(Kernel("assembleAB", "H_hat0 H_hat H_hat1", [("H_hat0", "c", (3,)+sp), ("H_hat", "c", (3,)+sp), ("H_hat1", "c", (3,)+sp)],
                         lambda H_hat0, H_hat, H_hat1: {"H_hat0": 1.5*H_hat - 0.5*H_hat1}, ["H_hat0"], "H_hat0"))
    if solver == "KMM":
        ks.append(Kernel("mult_K1j", "K a f", [("K", "K", (3,)+sp), ("a", "c", sp), ("f", "c", (2,)+sp)],
                         lambda K, a, f: {"f": np.stack([1j*K[2]*a, -1j*K[1]*a])}, ["f"], "f"))
        def f(u_hat, f_hat, g_hat, K_over_K2):
            return {"u_hat": np.stack([u_hat[0], -1j*(K_over_K2[0]*f_hat - K_over_K2[1]*g_hat), -1j*(K_over_K2[1]*f_hat + K_over_K2[0]*g_hat)])}
        ks.append(Kernel("compute_vw", "u_hat f_hat g_hat K_over_K2",
                         [("u_hat", "c", (3,)+sp), ("f_hat", "c", sp), ("g_hat", "c", sp), ("K_over_K2", "r", (2,)+sp)], f, [], "u_hat"))
    return ks

def find(sol, name):
    f = getattr(sol, name, None)
    if f is None:
        import spectralDNS.maths as m
        f = getattr(m, name, None)
    if f is None and name.startswith("cross"):
        import spectralDNS.maths.cross as m
        f = getattr(m, name, None)
    return f

def kern(job, rec):
    a = job["args"]; solver, mode, prec = a["solver"], a["mode"], a["prec"]
    two = solver.endswith("2D")
    chan = solver in CH
    from spectralDNS import get_solver
    mesh = "channel" if chan else ("doublyperiodic" if two else "triplyperiodic")
    args = ["--M"] + ((["2", "2", "4"] if solver == "KMMr" else ["4", "2", "2"]) if chan else ["2"] * (2 if two else 3)) + ["--precision", prec] + (["--optimization", mode] if mode else [])
    sol = get_solver(mesh=mesh, parse_args=args + ["--no-verbose", solver])
    rt = np.float64 if prec == "double" else np.float32
    ct = np.complex128 if prec == "double" else np.complex64
    tol = 3e-14 if prec == "double" else 4e-6
    big = job["tier"] == "thorough"
    n = ((5, 4) if big else (3, 4)) if two else ((3, 4, 5) if big else (2, 3, 4))
    if chan: n = (16, 4, 3)
    for k in kernels(solver, n, two):
        f = find(sol, k.name)
        w = getattr(f, "__wrapped__", f)
        try: ok = f is not None and " ".join(inspect.signature(w).parameters) == k.sig
        except (TypeError, ValueError): ok = False
        if not ok:
            rec.count("kernels_not_found"); rec.outcome("skipped %s" % k.name); continue
        label = "%s:%s%s" % (job["name"], k.name, k.tag)
        run_kernel(k, f, rt, ct, tol, rec, label)
        rec.count("kernels")
    # every mesh shape over a set of extents (flat, elongated, one point), all arguments filled
    for n in itertools.product((1, 2, 3, 5, 9), repeat=2 if two else 3):
        for k in kernels(solver, n, two):
            f = find(sol, k.name)
            w = getattr(f, "__wrapped__", f)
            try: ok = f is not None and " ".join(inspect.signature(w).parameters) == k.sig
            except (TypeError, ValueError): ok = False
            if ok: run_kernel(k, f, rt, ct, tol, rec, "%s:%s%s:shape" % (job["name"], k.name, k.tag), only_dense="shape %s" % (n,))
            if rec.nviol > 20: return
    integrators(sol, mode, prec, two, rec, job)
    if solver in ("KMM", "KMMr", "KMMRK3"): linear(sol, solver, rec, job)

def make(k, rt, ct, fill):
    """Fresh arguments; fill(name, kind, shape) gives the float values."""
    vals, call = {}, []
    for name, kind, shape in k.args:
        if kind == "s": v = rt(shape); call.append(v); vals[name] = v; continue
        if kind == "K":
            d = shape[0]; v = []
            for i in range(d):
                s = [1] * d; s[i] = shape[1 + i]
                v.append(np.ascontiguousarray(fill("%s#%d" % (name, i), "r", tuple(s)).astype(rt)))
            call.append(v); vals[name] = v; continue
        v = np.ascontiguousarray(fill(name, kind, shape).astype(ct if kind == "c" else rt))
        call.append(v); vals[name] = v
    return vals, call

def run_kernel(k, f, rt, ct, tol, rec, label, only_dense=None):
    rng = np.random.default_rng(2)
    dense = {}
    def dense_fill(name, kind, shape):
        if name not in dense:
            dense[name] = rng.uniform(-1, 1, shape) + (1j*rng.uniform(-1, 1, shape) if kind == "c" else 0)
        return dense[name]
    def evaluate(fill, what):
        vals, call = make(k, rt, ct, fill)
        copy = {n: ([x.copy() for x in v] if isinstance(v, list) else (v.copy() if isinstance(v, np.ndarray) else v)) for n, v in vals.items()}
        want = k.formula(**{n: ([x.astype(np.float64) for x in v] if isinstance(v, list) else
                                (v.astype(complex if np.iscomplexobj(v) else float) if isinstance(v, np.ndarray) else float(v))) for n, v in copy.items()})
        got = f(*call)
        rec.state(); rec.trans(); rec.trace()
        ok = True
        for n, w in want.items():
            ok &= rec.close(vals[n], w, tol, label + ":value", lambda: {"output": n, "input": what}, scale=max(1.0, abs(w).max()), metric="kernel-%s" % ("double" if rt is np.float64 else "single"))
        for n, v in vals.items():
            if n in want or not isinstance(v, (list, np.ndarray)): continue
            same = all(np.array_equal(x, y) for x, y in zip(v, copy[n])) if isinstance(v, list) else np.array_equal(v, copy[n])
            ok &= rec.check(same, label + ":argument-changed", {"argument": n, "input": what})
        out = vals[k.ret]
        ok &= rec.check(got is out or (isinstance(got, np.ndarray) and got.shape == out.shape and np.shares_memory(got, out)), label + ":object", {"input": what})
        return ok
    if only_dense:
        evaluate(dense_fill, only_dense); return
    for i in range(4):
        dense.clear(); evaluate(dense_fill, "dense %d" % i)
    dense.clear()
    ins = []
    for name, kind, shape in k.args:
        if kind == "s" or name in k.outs: continue
        if kind == "K":
            d = shape[0]
            for i in range(d):
                s = [1]*d; s[i] = shape[1+i]
                ins.append(("%s#%d" % (name, i), "r", tuple(s)))
        else: ins.append((name, kind, shape))
    def units(kind, shape, cap=None):
        idx = list(np.ndindex(*shape))
        if cap and len(idx) > cap:     # wall normal index first: keep all of it for one wavenumber pair, and all corners
            idx = [ix for ix in idx if ix[-2:] in ((0, 0), (1, 2), (3, 1))]
        for ix in idx:
            for v in ((1.0, 1j) if kind == "c" else (1.0,)): yield ix, v
    stale = 1e6
    def unit_fill(on, rest):
        def fill(name, kind, shape):
            if name in on:
                v = np.zeros(shape, complex if kind == "c" else float); ix, val = on[name]; v[ix] = val
                return v
            if name in k.outs: return np.full(shape, stale)
            if rest == "dense": return dense_fill(name, kind, shape)
            return np.zeros(shape)
        return fill
    for name, kind, shape in ins:
        for u in units(kind, shape):
            if not evaluate(unit_fill({name: u}, "dense"), "unit %s %s" % (name, u)): return
            if not evaluate(unit_fill({name: u}, "zero"), "only %s %s" % (name, u)): return
    total = 0
    for (n1, k1, s1), (n2, k2, s2) in itertools.combinations(ins, 2):
        cap = 40 if int(np.prod(s1))*int(np.prod(s2)) > 6000 else None
        for u1 in units(k1, s1, cap):
            for u2 in units(k2, s2, cap):
                # entries of different grid points may not interact: one representative of each kind of pair
                if not pair_wanted(s1, u1[0], s2, u2[0]): continue
                total += 1
                if not evaluate(unit_fill({n1: u1, n2: u2}, "dense" if total % 2 else "zero"), "pair %s %s %s %s" % (n1, u1, n2, u2)): return
    rec.count("pairs", total)
    rec.sample({"kernel": label, "arguments": [n for n, _, _ in ins], "pairs": total})

def pair_wanted(s1, i1, s2, i2):
    d1, d2 = i1[-3:] if len(i1) >= 3 else i1, i2[-3:] if len(i2) >= 3 else i2
    # same point, or neighbours along one axis (also wrapped), or along no shared axis (axis arrays)
    diff = 0
    for x, y, a, b in zip(reversed(i1), reversed(i2), reversed(s1), reversed(s2)):
        if a == 1 or b == 1: continue
        diff += min(abs(x - y), 2)
    return diff <= 1

# ------------------------------------------------------------------------------- integrators
def integrators(sol, mode, prec, two, rec, job):
    import spectralDNS.maths.integrators as I
    rt, ct = (np.float64, np.complex128) if prec == "double" else (np.float32, np.complex64)
    tol = 1e-14 if prec == "double" else 3e-6
    for nc in ((2, 3) if two else (3, 6)):
        shape = (nc, 3, 4) if two else (nc, 2, 3, 4)
        for name in ("RK4", "ForwardEuler", "AB2"):
            f = getattr(I, name, None)
            w = getattr(f, "__wrapped__", f)
            want_sig = {"RK4": "u0 u1 u2 rhs a b dt solver context", "ForwardEuler": "u0 rhs dt solver context",
                        "AB2": "u0 u1 rhs dt tstep solver context"}[name]
            if f is None or " ".join(inspect.signature(w).parameters) != want_sig:
                rec.count("kernels_not_found"); continue
            size = int(np.prod(shape))
            for case in range(2 * size if name != "RK4" else 24):
                g = np.random.default_rng(case)
                A = g.uniform(-1, 1, (nc, nc))        # a linear, pointwise tendency plus a constant slope
                unit = np.zeros(size, complex)
                unit[(case // 2) % size] = (1.0, 1j)[case % 2]
                const = unit.reshape(shape)
                class S:
                    calls = 0
                    def ComputeRHS(self, rhs, u, solver, /, **kw):
                        S.calls += 1
                        v = np.array(u)
                        rhs[:] = (np.tensordot(A, v.astype(complex), axes=(1, 0)) + const).astype(ct)
                        return rhs
                F = lambda v: np.tensordot(A, v, axes=(1, 0)) + const
                u0 = (g.uniform(-1, 1, shape) + 1j*g.uniform(-1, 1, shape)).astype(ct)
                u1 = np.full(shape, 3.5, ct); u2 = np.full(shape, -4.5, ct); rhs = np.full(shape, 9.5, ct)
                if name == "AB2": u1 = (g.uniform(-1, 1, shape) + 1j*g.uniform(-1, 1, shape)).astype(ct)
                dt = rt(0.125); s = S(); x = u0.astype(complex); y1 = u1.astype(complex)
                tol2 = tol
                if name == "RK4":
                    a_ = np.array([1/6, 1/3, 1/3, 1/6], rt); b_ = np.array([.5, .5, 1], rt)
                    r = f(u0, u1, u2, rhs, a_, b_, dt, s, {})
                    h = 0.125; k1 = F(x); k2 = F(x+h/2*k1); k3 = F(x+h/2*k2); k4 = F(x+h*k3)
                    want = x + h/6*(k1+2*k2+2*k3+k4); n = 4
                elif name == "ForwardEuler":
                    r = f(u0, rhs, dt, s, {}); want = x + 0.125*F(x); n = 1
                else:
                    ts = 0 if case % 3 == 0 else case % 5 + 1
                    r = f(u0, u1, rhs, dt, ts, s, {}); n = 1
                    want = x + 0.125*F(x) if ts == 0 else x + 1.5*0.125*F(x) - 0.5*y1
                    rec.close(u1, 0.125*F(x), tol2, "%s:%s:history" % (job["name"], name), {"case": case})
                rec.state(); rec.trans(); rec.trace()
                key = "%s:%s" % (job["name"], name)
                rec.close(u0, want, tol2, key + ":value", {"case": case, "shape": shape}, metric="integrator-" + prec)
                rec.check(S.calls == n, key + ":evaluations", {"calls": S.calls})
                rec.check(len(r) == 3 and np.shares_memory(np.asarray(r[0]), u0) and abs(r[1]-dt) < 1e-9 and abs(r[2]-dt) < 1e-9, key + ":return", {"r": repr(r[1:])})
                if rec.nviol > 20: return
        rec.count("kernels", 3)

# -------------------------------------------------------------------- linear part of channel solvers
def linear(sol, solver, rec, job):
    from spectralDNS import config
    config.params.nu = 0.05; config.params.dt = 0.01
    c = sol.get_context()
    f = getattr(sol, "add_linear", None); w = getattr(f, "__wrapped__", f)
    sig = "rhs u g work AB AC SBB ABB BBB nu dt K2 K4" + (" a b" if solver == "KMMRK3" else "")
    if f is None or " ".join(inspect.signature(w).parameters) != sig or solver == "KMMRK3":
        rec.count("kernels_not_found"); return
    nu, dt = float(config.params.nu), float(config.params.dt)
    m = c.mat; K2 = c.K2; K4 = c.K4; g = c.g
    shape = g.shape
    w0 = np.zeros(shape, complex)
    wall = 2 if solver == "KMMr" else 0
    n = shape[wall]
    pts = [(0, 0), (1, 0), (0, 1), (2, 1), (3, 2), (1, 2)]
    for which in ("u", "g"):
        for deg in range(n):
            for q, p in enumerate(pts):
                u = np.zeros(shape, complex); gg = np.zeros(shape, complex)
                ix = (deg,) + p if wall == 0 else p + (deg,)
                ndof = n - 4 if which == "u" else n - 2
                if deg >= ndof: continue
                (u if which == "u" else gg)[ix] = (1.0, 1j)[q % 2]
                g[:] = gg; uf = c.hv; uf[:] = u
                rhs = np.full((2,) + shape, 0.25 + 0.5j)
                want0 = 0.25 + 0.5j + nu*dt/2.*m.SBB.matvec(u, w0.copy(), axis=wall) + (1.-nu*dt*K2)*m.ABB.matvec(u, w0.copy(), axis=wall) \
                    - (K2 - nu*dt/2.*K4)*m.BBB.matvec(u, w0.copy(), axis=wall)
                want1 = 0.25 + 0.5j + m.ADD.matvec(gg, w0.copy(), axis=wall) - (K2 - 2./nu/dt)*m.BDD.matvec(gg, w0.copy(), axis=wall)
                out = f(rhs, uf, g, c.work, m.AB, m.AC, m.SBB, m.ABB, m.BBB, nu, dt, K2, K4)
                rec.state(); rec.trans(); rec.trace()
                sl = (slice(0, n-4),) if wall == 0 else (Ellipsis, slice(0, n-4))
                sl2 = (slice(0, n-2),) if wall == 0 else (Ellipsis, slice(0, n-2))
                rec.close(rhs[0][sl], want0[sl], 1e-12, job["name"] + ":add_linear:u", {"unit": [which, ix]}, scale=max(1, abs(want0).max()))
                rec.close(rhs[1][sl2], want1[sl2], 1e-12, job["name"] + ":add_linear:g", {"unit": [which, ix]}, scale=max(1, abs(want1).max()))
                rec.check(np.array_equal(np.asarray(uf), u) and np.array_equal(np.asarray(g), gg), job["name"] + ":add_linear:argument-changed", {"unit": [which, ix]})
                if rec.nviol > 10: return
    rec.count("kernels")

# --------------------------------------------------------------------------------- whole steps
def configs(solver):
    convs = {"NS": ("Standard", "Divergence", "Skewed", "Vortex"), "VV": ("Vortex",), "MHD": ("Divergence",), "NS2D": ("Vortex",), "Bq2D": ("Vortex",)}[solver]
    return [(cv, dl) for cv in convs for dl in ("2/3-rule", "3/2-rule", "None")]

def step(job, rec):
    """One process handles one (convection, dealias) per fork, as the padding is fixed per context."""
    a = job["args"]; solver, mode = a["solver"], a["mode"]
    three = not solver.endswith("2D")
    big = job["tier"] == "thorough"
    M = ([3, 2, 3] if big else [2, 2, 2]) if three else ([3, 3] if big else [3, 2])
    L = [2*np.pi, 4*np.pi, np.pi][:len(M)]
    opt = dict(optimization=mode, nu=0.05, dt=0.02)
    if solver == "MHD": opt["convection"] = "Divergence"; opt["eta"] = 0.03
    if solver == "Bq2D": opt["Ri"] = 0.7; opt["Pr"] = 1.3
    out = {}
    first = True
    from spectralDNS import config
    for cv, dl in configs(solver):
        if first:
            config, sol, c = setup(solver, "triplyperiodic" if three else "doublyperiodic", M, L, **opt); first = False
        config.params.convection = cv; config.params.dealias = dl
        c = sol.get_context()
        sol.conv = sol.getConvection(cv)
        box = Box([2**m for m in M], L)
        nc = c.u.shape[0]
        st = []
        R = box.R
        vm = modes(box, R, True, solver != "VV")
        def vec(ms, off=0):
            s = np.zeros(c.u.shape, complex)
            for k, amp in ms:
                for i in range(len(amp)): box.put(s[off + i], k, amp[i])
            return s
        singles = [vec([m]) for m in vm]
        if solver == "MHD": singles = [vec([m]) for m in vm] + [vec([m], 3) for m in vm]
        if solver == "Bq2D":
            for k, amp in scalar_modes(box, R):
                s = np.zeros(c.u.shape, complex); box.put(s[2], k, amp[0]); singles.append(s)
        g = np.random.default_rng(4)
        gen = [sum(g.standard_normal()*s for s in singles) for _ in range(4)]
        res = []
        for s in singles + gen:
            c.u[:] = s; c.dU[:] = 3.25
            res.append(np.array(sol.ComputeRHS(c.dU, c.u, sol, **c)))
            rec.state(); rec.trans()
        for s in gen:
            for integ in ("RK4", "AB2", "ForwardEuler", "BS5_fixed", "BS5_adaptive"):
                config.params.integrator = integ; config.params.tstep = 0; config.params.t = 0; config.params.TOL = 1e-4; config.params.dt = 0.02
                c.u[:] = 0.2 * s
                fn = sol.getintegrator(c.dU, c.u, sol, c)
                for q in range(3):
                    u_, dt_, took = fn()
                    config.params.dt = dt_; config.params.tstep += 1; config.params.t += took
                    rec.state(); rec.trans()
                res.append(np.array(c.u)); res.append(np.full(c.u.shape, took))
        out["%s:%s" % (cv, dl.replace("/", ""))] = np.array(res)
    np.savez(os.path.join(job["share"], "C13-%s.npz" % job["name"]), **out)
    rec.sample({"solver": solver, "mode": mode or "plain", "configurations": list(out), "states": len(res)})

def chan(job, rec):
    import chan as C
    a = job["args"]; solver, mode = a["solver"], a["mode"]
    out = {}
    h = C.Channel(solver, (4, 2, 2), (2.0, 2*np.pi, np.pi), optimization=mode, nu=0.02, dt=0.01)
    for cv in h.convections():
        h.convection(cv)
        for seed in range(3):
            st = h.generic(seed)
            h.start(st)
            for q in range(3):
                h.step(); rec.state(); rec.trans()
                out["%s:%d:%d" % (cv, seed, q)] = h.fields()
    np.savez(os.path.join(job["share"], "C13-%s.npz" % job["name"]), **out)
    rec.sample({"solver": solver, "mode": mode or "plain", "convections": list(h.convections())})

def finish(results, rec, scratch, tier):
    for r in results:
        n = r["job"]["name"]
        if not n.startswith(("step-", "chan-")) or n.endswith("-plain"): continue
        base = n.rsplit("-", 1)[0] + "-plain"
        p, q = (os.path.join(scratch, "C13-%s.npz" % x) for x in (n, base))
        if not (os.path.exists(p) and os.path.exists(q)): continue       # already reported as a failed job
        a, b = np.load(p), np.load(q)
        for k in b.files:
            rec.trace()
            if k not in a.files: rec.bad(n + ":missing", {"configuration": k}); continue
            s = max(1.0, float(np.nanmax(abs(b[k]))))
            if not rec.close(a[k], b[k], 1e-11, n + ":differs-from-plain", {"configuration": k}, scale=s, metric="solver"):
                rec.violations[-1]["job"] = r["job"]
