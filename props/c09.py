"""C09: the real time loop, driven with every answer sequence of the integrator up to a depth."""
import itertools, math, types
import numpy as np
TECHNIQUE = "exhaustive enumeration of run configurations and integrator answers through the real time loop against a reference loop"
NOTE = ("The real solve() and the real end-of-step functions of every solver run with an integrator whose answers (step taken, next step) are "
        "enumerated up to a depth, for a grid of start times, step sizes and end times; the complete event log is compared with a reference loop.")
RULE = ("states = distinct (configuration, prefix of answers) reached in the loop; transitions = events (integrate, update, file offer, end); "
        "traces = complete runs of the real loop compared with the reference event log")
ASSUMPTIONS = ["the user callback does not change time or end time", "tolerance 1e-12 of the loop counts as on time"]
BOUNDS = {"quick": "6 step sizes x 6 end times x 3 starts, adaptive answers 3x2 choices to depth 4", "thorough": "answers to depth 6"}
PER = [("NS", "triplyperiodic"), ("VV", "triplyperiodic"), ("MHD", "triplyperiodic"), ("NS2D", "doublyperiodic"), ("Bq2D", "doublyperiodic")]
CH = [(s, "channel") for s in ("KMM", "KMMr", "KMMRK3", "KMM_RB", "KMMRK3_RB", "Coupled", "CoupledRK3")]

def jobs(tier):
    return [dict(name="loop-%s" % s, args=dict(solver=s, mesh=m, periodic=(s, m) in PER)) for s, m in PER + CH]

class Horizon(Exception): pass

def model(t, k, dt, T, periodic, answer, cap):
    """Reference loop: list of (t before, dt asked, took, t after, counter after)."""
    out = []
    while t + dt <= T + 1e-12:
        took, new = answer(len(out), dt)
        out.append((t, dt, took, t + took, k + 1))
        t += took; k += 1; dt = new
        if periodic:
            if abs(t - T) < 1e-12: break
            if t + dt > T - 1e-12: dt = T - t
        if len(out) > cap: raise Horizon
    return out

def run(job, rec):
    from spectralDNS import get_solver, solve, config
    a = job["args"]
    dim = 2 if a["mesh"] == "doublyperiodic" else 3
    calls = []
    extra = ["--no-verbose", "--M"] + ["2" if a["mesh"] != "channel" else "4"] * dim
    if a["solver"] == "MHD": extra += ["--convection", "Divergence"]
    sol = get_solver(mesh=a["mesh"], parse_args=extra + [a["solver"]])
    p = sol.params
    p.kappa = 0.1
    ctx = sol.get_context()
    if "u" not in ctx: ctx.u = None

    def drive(t0, k0, dt, T, answer, cap=400):
        log = []
        def integ_factory(rhs, u, solver, context):
            log.append(("getintegrator",))
            n = [0]
            def integrate():
                d = float(p.dt)
                took, new = answer(n[0], d); n[0] += 1
                log.append(("integrate", float(p.t), int(p.tstep), d, took))
                if n[0] > cap: raise Horizon
                return u, new, took
            return integrate
        class File:
            def update(self, params, **kw): log.append(("file", float(params.t), int(params.tstep), kw.get("tag")))
            def close(self): log.append(("close",))
        ctx.hdf5file = File(); ctx.tag = 17
        st = types.SimpleNamespace(**{k: v for k, v in vars(sol).items()})
        st.getintegrator = integ_factory
        st.getConvection = lambda c: (lambda *aa: None)
        st.update = lambda context: log.append(("update", float(p.t), int(p.tstep), context is ctx))
        st.regression_test = lambda context: log.append(("end", float(p.t), int(p.tstep), context is ctx, float(p.dt)))
        p.t = t0; p.tstep = k0; p.dt = dt; p.T = T
        try: solve(st, ctx)
        except Horizon: log.append(("horizon",))
        return log

    def compare(log, t0, k0, dt, T, answer, det, cap=400):
        key = job["name"]
        rec.trace()
        steps = model(t0, k0, dt, T, a["periodic"], answer, cap)
        ev = [e for e in log if e[0] not in ("getintegrator", "close")]
        rec.trans(len(ev))
        integ = [e for e in log if e[0] == "integrate"]
        rec.state(len(integ) + 1)
        if not rec.check(len(integ) == len(steps), key + ":number-of-steps", dict(det, got=len(integ), want=len(steps))): return
        want = []
        for (tb, d, took, ta, k) in steps:
            want += [("integrate", tb, k - 1, d, took), ("update", ta, k, True), ("file", ta, k, 17)]
        want.append(("end", steps[-1][3] if steps else t0, k0 + len(steps), True, dt))
        if rec.check([e[0] for e in ev] == [e[0] for e in want], key + ":event-order", dict(det, got=[e[0] for e in ev][:12])):
            for g, w in zip(ev, want):
                same = all((abs(x - y) <= 1e-12 if isinstance(x, float) else x == y) for x, y in zip(g[1:], w[1:]))
                if not rec.check(same, key + ":" + g[0], dict(det, got=g, want=w)): break
        rec.check(abs(float(p.dt) - dt) == 0, key + ":step-not-restored", dict(det, dt=float(p.dt)))
        tend = float(p.t)
        rec.check(tend <= T + 1.0001e-12 or not steps, key + ":beyond-end-time", dict(det, t=tend))
        if a["periodic"] and steps: rec.check(abs(tend - T) <= 1e-12, key + ":end-time-missed", dict(det, t=tend))
        rec.check(log.count(("close",)) == 1, key + ":files-closed", det)
        rec.outcome("%s steps, %s" % ("no" if not steps else "some", "on T" if abs(tend - T) < 1e-12 else "before T"))

    fixed = lambda n, d: (d, d)
    DTS = [0.1, 0.03, 0.25, 1 / 3., 0.01 * math.pi, 0.5]
    TS = [0.05, 0.1, 0.3, 0.5, 1.0, 0.7 + 1e-9]
    for dt, T, t0, k0 in itertools.product(DTS, TS, (0.0, 0.05, 0.3), (0, 4)):
        det = {"dt": dt, "T": T, "t": t0, "tstep": k0, "answers": "fixed"}
        compare(drive(t0, k0, dt, T, fixed), t0, k0, dt, T, fixed, det)
    # adaptive answers: (step taken as part of the asked one, next step as part of the one taken)
    depth = 6 if job["tier"] == "thorough" else 4
    ALPH = [(s, g) for s in (1.0, 0.37) for g in (0.5, 1.0, 2.0)]
    for script in itertools.product(range(len(ALPH)), repeat=depth):
        def answer(n, d):
            s, g = ALPH[script[n]] if n < len(script) else (1.0, 2.0)
            return d * s, d * s * g
        for dt, T, t0 in ((0.1, 0.45, 0.0), (0.2, 1.0, 0.3)):
            det = {"dt": dt, "T": T, "t": t0, "answers": [ALPH[i] for i in script]}
            compare(drive(t0, 2, dt, T, answer), t0, 2, dt, T, answer, det)
        if rec.nviol > 20: return
    # a run in several pieces makes the steps of the run in one
    for dt, n in ((0.1, 10), (0.05, 7), (0.25, 4)):
        whole = [e for e in drive(0.0, 0, dt, n * dt, fixed) if e[0] in ("integrate", "update", "file")]
        for cuts in itertools.chain(*(itertools.combinations(range(1, n), r) for r in (1, 2))):
            ev = []; t, k = 0.0, 0
            for c in list(cuts) + [n]:
                ev += [e for e in drive(t, k, dt, c * dt, fixed) if e[0] in ("integrate", "update", "file")]
                t, k = float(p.t), int(p.tstep)
            rec.trace(); rec.trans(len(ev)); rec.state()
            ok = len(ev) == len(whole) and all(x[0] == y[0] and x[2] == y[2] and abs(x[1] - y[1]) < 1e-12 and (x[0] != "integrate" or abs(x[3] - y[3]) < 1e-12) for x, y in zip(ev, whole))
            rec.check(ok, job["name"] + ":split", {"dt": dt, "cuts": cuts, "steps": n})
    rec.sample({"solver": a["solver"], "dts": DTS, "Ts": TS, "adaptive depth": depth})
