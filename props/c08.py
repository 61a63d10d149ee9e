"""C08: the adaptive integrator against a reference controller, for every sequence of error estimates.

The environment (the right hand side) decides the outcome of every attempt: the last slope of the
embedded pair only enters the error, so the stand-in solver chooses it such that the normalised
estimate of that attempt equals the next value of the script.  All scripts up to a depth are run.
"""
import itertools
import numpy as np
from per import setup
import tableau
TECHNIQUE = "exhaustive enumeration of error-estimate sequences (environment answers) on the real adaptive integrator against a reference controller"
NOTE = ("Every sequence of error classes (tiny, small, near one from both sides, large, huge) up to the stated number of attempts, start counters "
        "and both dimensions is forced through the real integrator; committed state, proposed and taken step, stage states and callbacks are compared "
        "with a reference controller. Assumes finite estimates and one process (several are covered by C12).")
RULE = ("states = distinct (start, prefix of error classes) at which the controller's decision was compared; transitions = attempts; "
        "traces = complete scripts run on the real integrator; outcomes = accepted/rejected attempts")
ASSUMPTIONS = ["finite error estimates", "the solution is not edited between steps", "one process (MPI in C12)"]
BOUNDS = {"quick": "7 error classes, all scripts of 4 attempts, 2 start counters, 2D and 3D, 2 tolerances", "thorough": "scripts of 5 attempts"}
CLASSES = [1e-9, 0.02, 0.4, 0.999, 1.001, 7.0, 1e13]
A = np.array([[float(x) for x in r] for r in tableau.BS5_A]); B = np.array([float(x) for x in tableau.BS5_b])
BH = np.array([float(x) for x in tableau.BS5_bhat])

def jobs(tier):
    out = []
    for sv in ("NS", "NS2D"):
        for t0 in (0, 3):
            for tol in (1e-6, 1e-2):
                out.append(dict(name="ad-%s-%d-%g" % (sv, t0, tol), args=dict(solver=sv, tstep=t0, tol=tol)))
    out.append(dict(name="ad-real", func="real", args={}))
    return out

class Done(Exception): pass

class Env:
    """Stand-in solver; keeps the reference controller in step with the code."""
    def __init__(self, sol, c, script, rng, rec, key, tol):
        self.params = sol.params; self.c = c; self.script = list(script); self.rng = rng; self.rec = rec; self.key = key
        self.tol = tol; self.shape = c.u.shape
        self.k = []; self.first = None      # slopes of this attempt; reusable first slope
        self.attempts = 0; self.rejected = 0; self.steps = 0; self.rej_calls = []
        self.facmax = 2.0
        self.expect = None
        self.additional_callback = self.cb
        self.cbs = 0; self.over = False
    def det(self): return {"script": self.script, "attempt": self.attempts, "tstep": int(self.params.tstep)}
    def begin(self, dt):                       # a new step from the current state
        self.u0 = np.array(self.c.u).copy(); self.dt = dt; self.facmax = 2.0; self.k = []
        self.rejected_now = []
    def cb(self, context):
        self.cbs += 1
        if getattr(context, "is_step_rejected_callback", False):
            self.rej_calls.append(float(context.dt_rejected)); context.is_step_rejected_callback = False
    def stage(self, i): return self.u0 + self.dt * sum((A[i, j] * self.k[j] for j in range(i)), np.zeros(self.shape, complex))
    def ComputeRHS(self, rhs, u, solver, /, **kw):
        if self.attempts >= len(self.script): raise Done
        if not self.k and self.first is not None:
            # first slope of the step is reused -- unless the code evaluates it again at the unchanged state
            if np.allclose(np.array(u), self.u0, rtol=0, atol=1e-15):
                rhs[:] = self.first; return rhs
            self.k = [self.first]
        i = len(self.k)
        self.rec.close(np.array(u), self.stage(i), 1e-12, self.key + ":stage", dict(self.det(), stage=i), metric="stage")
        if i < 7:
            s = self.rng.standard_normal(self.shape) + 1j * self.rng.standard_normal(self.shape)
            if i == 0: self.first = s
        else:
            self.unew = self.u0 + self.dt * sum(B[j] * self.k[j] for j in range(7))
            est = self.script[self.attempts]
            w = self.rng.standard_normal(self.shape) + 1j * self.rng.standard_normal(self.shape)
            w /= max(np.sqrt(np.mean(abs(w[q]) ** 2)) for q in range(self.shape[0]))
            err = est * w * (self.tol + np.maximum(abs(self.u0), abs(self.unew)) * self.tol)
            s = (self.dt * sum((B[j] - BH[j]) * self.k[j] for j in range(7)) - err) / (self.dt * BH[7])
        self.k.append(s)
        rhs[:] = s
        if i == 7: self.decide(est)
        return rhs
    def decide(self, est):
        self.attempts += 1; self.rec.trans(); self.rec.state()
        f = min(self.facmax, max(0.01, 0.8 * est ** (-0.2)))
        if est > 1:
            self.rec.outcome("rejected")
            self.rejected_now.append(self.dt)
            self.first = self.k[0]; self.k = []
            self.dt *= f; self.facmax = 1.0
            self.expect = None
        else:
            self.rec.outcome("accepted, factor %s" % ("2" if f == 2 else "1 after rejection" if f == 1 else "0.8*est^-0.2"))
            self.expect = (self.dt, self.dt * f, self.unew)
            self.first = self.k[7]; self.k = []

def run(job, rec):
    a = job["args"]
    three = a["solver"] == "NS"
    config, sol, c = setup(a["solver"], "triplyperiodic" if three else "doublyperiodic", [2] * (3 if three else 2),
                           [2 * np.pi] * (3 if three else 2), TOL=a["tol"], integrator="BS5_adaptive")
    p = sol.params
    rng = np.random.default_rng(2)
    start = rng.standard_normal(c.u.shape) + 1j * rng.standard_normal(c.u.shape)
    start.flat[3] = 0
    depth = 5 if job["tier"] == "thorough" else 4
    seen = set()
    for script in itertools.product(CLASSES, repeat=depth):
        key = job["name"]
        env = Env(sol, c, script, rng, rec, key, a["tol"])
        c.u[:] = start; c.dU[:] = 3.3
        c.is_step_rejected_callback = False
        p.tstep = a["tstep"]; p.t = 0.0; dt = 0.05; p.dt = dt
        integ = sol.getintegrator(c.dU, c.u, env, c)
        try:
            while env.attempts < len(script):
                env.begin(p.dt); env.expect = None; env.rej_calls = []; n0 = env.cbs
                before = np.array(c.u).copy()
                u, newdt, took = integ()
                d = dict(env.det(), dt=float(env.dt))
                if not rec.check(env.expect is not None, key + ":accepted-a-rejected-step", d): break
                w_took, w_new, w_u = env.expect
                rec.close(np.array(c.u), w_u, 1e-12, key + ":committed-state", d, metric="state")
                rec.check(np.shares_memory(np.asarray(u), np.asarray(c.u)), key + ":object", d)
                rec.check(abs(took - w_took) <= 1e-12 * w_took, key + ":step-taken", dict(d, got=float(took), want=w_took))
                rec.check(abs(newdt - w_new) <= 1e-9 * w_new, key + ":proposed-step", dict(d, got=float(newdt), want=w_new))
                rec.check(len(env.rej_calls) == len(env.rejected_now) and
                          all(abs(x - y) <= 1e-9 * y for x, y in zip(env.rej_calls, env.rejected_now)),
                          key + ":rejection-callback", dict(d, got=env.rej_calls, want=env.rejected_now))
                p.dt = newdt; p.t += took; p.tstep += 1
        except Done:
            # script ended inside a step: the unfinished step has not been committed
            rec.close(np.array(c.u), env.u0, 0, key + ":state-during-retries", env.det())
            rec.check(len(env.rej_calls) == len(env.rejected_now), key + ":rejection-callback", env.det())
        rec.trace()
        if rec.nviol > 10: return
    rec.sample({"classes": CLASSES, "depth": depth, "scripts": len(CLASSES) ** depth})

def real(job, rec):
    """The solver's own tendency: every tolerance and first step of a grid, compared with a plain adaptive loop."""
    config, sol, c = setup("NS", "triplyperiodic", [3, 3, 3], [2 * np.pi] * 3, TOL=1e-6, integrator="BS5_adaptive", nu=0.01)
    p = sol.params; X = c.X
    ph = np.array([np.sin(X[0]) * np.cos(X[1]) * np.cos(X[2]), -np.cos(X[0]) * np.sin(X[1]) * np.cos(X[2]), 0.2 * np.cos(X[0]) + 0 * X[1] + 0 * X[2]])
    u_start = np.fft.rfftn(ph, axes=(1, 2, 3)) / ph[0].size
    def rhs_of(v):
        keep = np.array(c.u); c.u[:] = v
        r = np.array(sol.ComputeRHS(c.dU, c.u, sol, **c)); c.u[:] = keep
        return r
    for tol in (1e-3, 1e-6, 1e-9):
        for dt in (1e-3, 0.1, 0.8):
            p.TOL = tol; p.dt = dt; p.tstep = 0; p.t = 0
            c.u[:] = u_start
            integ = sol.getintegrator(c.dU, c.u, sol, c)
            cur = u_start.copy(); rdt = dt
            for step in range(4):
                facmax = 2.0
                while True:
                    ks = []
                    for i in range(8): ks.append(rhs_of(cur + rdt * sum((A[i, j] * ks[j] for j in range(i)), np.zeros_like(cur))))
                    new = cur + rdt * sum(x * k for x, k in zip(B, ks))
                    err = rdt * sum((x - y) * k for x, y, k in zip(B, BH, ks))
                    sc = tol + tol * np.maximum(abs(cur), abs(new))
                    est = max(np.sqrt(np.sum(abs(err[q] / sc[q]) ** 2) / err[q].size) for q in range(3))
                    f = min(facmax, max(0.01, 0.8 * est ** (-0.2))) if est > 0 else facmax
                    rec.trans()
                    if est > 1: rdt *= f; facmax = 1.0; rec.outcome("real rejected"); continue
                    rec.outcome("real accepted"); break
                u, newdt, took = integ()
                d = {"tol": tol, "dt": dt, "step": step, "est": float(est)}
                rec.state(); rec.trace()
                rec.close(took, rdt, 1e-6, "ad-real:step-taken", d); rec.close(newdt, rdt * f, 1e-6, "ad-real:proposed-step", d, scale=rdt)
                rec.close(np.array(c.u), new, 1e-9, "ad-real:state", d)
                p.dt = newdt; p.tstep += 1; p.t += took
                cur = np.array(c.u); rdt = float(newdt)
