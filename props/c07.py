"""C07: fixed-step integrators, driven with a right hand side whose slopes are linearly independent.

The real integrator runs with a solver stand-in whose ComputeRHS hands out a new unit vector for
every evaluation.  The state after each evaluation and each step is then a table of coefficients,
so the complete scheme (all stage states, weights, reuse between steps) is read off the code and
compared with the published tableau, for every history of step sizes up to a depth.
"""
import itertools
import numpy as np
from per import setup
import tableau
TECHNIQUE = "exhaustive enumeration of step histories of the real integrators with a symbolic right hand side, against published tableaux"
NOTE = ("All histories of step sizes up to the stated length, start counters and optimisation modes run through the real integrator; independent "
        "slopes expose every coefficient. Published tableaux are themselves checked against all rooted-tree order conditions. Assumes the state is "
        "not edited by the user between steps of the first-same-as-last scheme.")
RULE = ("states = distinct (integrator, mode, start, history prefix) after which the state was compared; transitions = steps; "
        "traces = complete histories replayed on the real integrator")
ASSUMPTIONS = ["integrators are linear in the slopes with state independent coefficients (also probed with the real tendencies)",
               "the solution is not edited between steps of the first-same-as-last scheme"]
BOUNDS = {"quick": "histories of 4 steps over 2 step sizes (5 for AB2 without optimisation), starts 0/1/7, 4 optimisation modes, 2D and 3D",
          "thorough": "histories of 6 steps over 3 step sizes"}
INTS = ["ForwardEuler", "AB2", "RK4", "BS5_fixed"]

def jobs(tier):
    out = []
    for opt in ("", "cython", "numba", "pythran"):
        for solver in ("NS", "NS2D", "VV", "MHD", "Bq2D"):
            if tier != "thorough" and solver in ("VV", "MHD", "Bq2D") and opt in ("numba", "pythran"): continue
            out.append(dict(name="int-%s-%s" % (solver, opt or "plain"), cost=4 if opt == "numba" else 2,
                            args=dict(solver=solver, opt=opt)))
    out.append(dict(name="orders", func="orders", cost=0.1))
    return out

def orders(job, rec):
    for nm, A, b, o in (("RK4", tableau.RK4_A, tableau.RK4_b, 4), ("BS5", tableau.BS5_A, tableau.BS5_b, 5),
                        ("BS5-embedded", tableau.BS5_A, tableau.BS5_bhat, 4)):
        for t, d in tableau.order_defects(A, b, o):
            rec.state(); rec.check(d == 0, "reference-tableau:%s" % nm, {"tree": repr(t)})

class Stub:
    """Stand-in for the solver module: same attributes as the integrators use."""
    def __init__(self, sol, shape, rng):
        self.params = sol.params
        self.calls = []; self.shape = shape; self.n = 0
        self.rng = rng; self.size = int(np.prod(shape))
        self.slopes = []
        self.callbacks = 0
        self.additional_callback = self.cb
    def cb(self, context): self.callbacks += 1
    def ComputeRHS(self, rhs, u, solver, /, **kw):
        self.calls.append(np.array(u).ravel().copy())
        s = self.rng.standard_normal(self.size) + 1j * self.rng.standard_normal(self.size)
        self.slopes.append(s); self.n += 1
        rhs[:] = s.reshape(self.shape)
        return rhs

def reference(name, hist):
    """Yields per step (dt, [stage states as {slope: coef}], {slope: coef} of the result, evaluations)."""
    res = {}; n = 0; last = None; out = []
    for dt in hist:
        stages = []
        def ev(st):
            nonlocal n
            stages.append(dict(st)); n += 1; return n - 1
        def comb(base, terms):
            d = dict(base)
            for k, v in terms:
                if v: d[k] = d.get(k, 0.0) + v
            return d
        if name == "ForwardEuler":
            k = ev(res); res = comb(res, [(k, dt)])
        elif name == "AB2":
            k = ev(res)
            res = comb(res, [(k, dt)]) if last is None else comb(res, [(k, 1.5 * dt), (last, -0.5 * dt)])
            last = k
        else:
            A, b = (tableau.RK4_A, tableau.RK4_b) if name == "RK4" else (tableau.BS5_A, tableau.BS5_b)
            ks = []
            for i in range(len(b)):
                if i == 0 and name != "RK4" and last is not None: ks.append(last); continue
                ks.append(ev(comb(res, [(k, dt * float(A[i][j])) for j, k in enumerate(ks)])))
            res = comb(res, [(k, dt * float(bb)) for k, bb in zip(ks, b)])
            last = ks[-1]
        out.append((dt, stages, res))
    return out

def run(job, rec):
    a = job["args"]
    three = a["solver"] not in ("NS2D", "Bq2D")
    mesh = "triplyperiodic" if three else "doublyperiodic"
    opts = dict(optimization=a["opt"], dealias="2/3-rule")
    if a["solver"] == "MHD": opts["convection"] = "Divergence"
    config, sol, c = setup(a["solver"], mesh, [2] * (3 if three else 2), [2 * np.pi] * (3 if three else 2), **opts)
    params = sol.params
    thorough = job["tier"] == "thorough"
    dts = (0.1, 0.025, 0.3) if thorough else (0.1, 0.025)
    shape = c.u.shape
    rng = np.random.default_rng(3)
    start = rng.standard_normal(shape) + 1j * rng.standard_normal(shape)
    for name in INTS:
        L = 6 if thorough else (5 if name == "AB2" and not a["opt"] else 4)
        for t0 in (0, 1, 7):
            for hist in itertools.product(dts, repeat=L):
                stub = Stub(sol, shape, rng)
                params.integrator = name
                params.tstep = t0; params.t = 0.3 * t0
                c.u[:] = start
                c.dU[:] = 9.5
                integ = sol.getintegrator(c.dU, c.u, stub, c)
                ref = reference(name, hist)
                used = 0
                for i, (dt, stages, res) in enumerate(ref):
                    params.dt = dt
                    u, newdt, took = integ()
                    params.tstep += 1; params.t += took
                    rec.trans()
                    key = "%s:%s" % (job["name"], name)
                    det = {"start": t0, "history": hist[:i + 1]}
                    got = stub.calls[used:]
                    if not rec.check(len(got) == len(stages), key + ":evaluations", dict(det, got=len(got), want=len(stages))): break
                    used = len(stub.calls)
                    def mk(st):
                        v = start.ravel().copy()
                        for k, x in st.items(): v = v + x * stub.slopes[k]
                        return v
                    ok = all(rec.close(g, mk(s), 1e-13, key + ":stage", dict(det, stage=q)) for q, (g, s) in enumerate(zip(got, stages)))
                    ok &= rec.close(np.asarray(c.u).ravel(), mk(res), 1e-13, key + ":state", det, metric="state")
                    ok &= rec.check(u is c.u or np.shares_memory(np.asarray(u), np.asarray(c.u)), key + ":object", det)
                    ok &= rec.check(abs(newdt - dt) < 1e-15 and abs(took - dt) < 1e-15, key + ":dt", dict(det, dt=float(newdt), took=float(took)))
                    rec.state()
                    if not ok: break
                rec.trace()
                rec.outcome("%s evaluations=%d" % (name, len(stub.calls)))
                if rec.nviol > 20: return
        rec.sample({"integrator": name, "solver": a["solver"], "mode": a["opt"] or "plain", "history": hist})
    # the same with the solver's own tendency: a whole step is the tableau applied to ComputeRHS
    def rhs_of(v):
        keep = np.array(c.u)
        c.u[:] = v
        r = np.array(sol.ComputeRHS(c.dU, c.u, sol, **c)); c.u[:] = keep
        return r
    rdim = 3 if three else 2
    X = c.X
    for name in INTS:
        params.integrator = name
        for which in range(3):
            c.u[:] = 0
            g = np.random.default_rng(which)
            phys = np.zeros(c.u.shape[:1] + tuple(params.N))
            for comp in range(phys.shape[0]):
                phys[comp] = np.cos(X[(comp + 1) % rdim] * 1.0 + which) + 0.3 * np.sin(X[(comp + which) % rdim])
            c.u[:] = np.fft.rfftn(phys, axes=tuple(range(1, rdim + 1))) / np.prod(params.N)
            params.tstep = 0; params.t = 0
            integ = sol.getintegrator(c.dU, c.u, sol, c)
            cur = np.array(c.u); last = None
            for dt in (0.05, 0.05, 0.02):
                params.dt = dt
                if name == "ForwardEuler": want = cur + dt * rhs_of(cur)
                elif name == "AB2":
                    k = rhs_of(cur)
                    want = cur + dt * k if last is None else cur + dt * (1.5 * k - 0.5 * last); last = k
                else:
                    A, b = (tableau.RK4_A, tableau.RK4_b) if name == "RK4" else (tableau.BS5_A, tableau.BS5_b)
                    ks = []
                    for i in range(len(b)):
                        ks.append(rhs_of(cur + dt * sum((float(A[i][j]) * ks[j] for j in range(i)), np.zeros_like(cur))))
                    want = cur + dt * sum(float(x) * k for x, k in zip(b, ks))
                c.u[:] = cur
                integ(); params.tstep += 1
                rec.trans(); rec.state()
                rec.close(np.array(c.u), want, 1e-12, "%s:%s:real-step" % (job["name"], name), {"dt": dt, "which": which}, metric="real-step")
                cur = np.array(c.u)
