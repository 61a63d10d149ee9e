"""C18: convection forms and channel solvers describe the same flow (differential, state by state)."""
import itertools, os
import numpy as np
import chan as C
TECHNIQUE = "exhaustive enumeration of basis states and pairs, stepped by every solver and convection form of the real code and compared state by state"
NOTE = ("Every pair of basis states within the bound is stepped by all five solvers with all four convection forms; the new velocities are compared between the forms (products "
        "resolved) and between the solvers of the same time discretisation, also over histories of several steps.")
RULE = "states = distinct (solver, form, dealiasing, state) stepped; transitions = steps; traces = comparisons between two real solvers or forms"
ASSUMPTIONS = ["convection forms are compared for states whose products are resolved in the wall-normal direction"]
BOUNDS = {"quick": "16x4x4, wall-normal degrees up to 5 in all pairs (26 basis states), 16x8x8 singly with the 2/3-rule; histories of 3 steps",
          "thorough": "38 basis states in pairs, both quadratures"}
GROUPS = (("KMM", "KMMr", "Coupled"), ("KMMRK3", "CoupledRK3"))
CV = ("Standard", "Divergence", "Skew", "Vortex")

def jobs(tier):
    out = []
    cost = {"Coupled": 8, "CoupledRK3": 25, "KMMRK3": 4, "KMM": 2, "KMMr": 2}
    for grp in GROUPS:
        for s in grp:
            for cv in CV:
                for kind in ("pairs", "twothirds") + (("pairsGL",) if tier == "thorough" else ()) + (("smooth",) if "RK3" in s else ()):
                    out.append(dict(name="%s-%s-%s" % (s, cv, kind), args=dict(solver=s, conv=cv, kind=kind), cost=cost[s]*(2 if cv in ("Standard", "Skew") else 1), timeout=850))
    return out

def run(job, rec):
    a = job["args"]; kind = a["kind"]; th = job["tier"] == "thorough"
    L = (2.0, 2*np.pi, 3.0)
    two = kind == "twothirds"; smooth = kind == "smooth"     # strong diffusion keeps the later stages resolved
    quad = "GL" if kind == "pairsGL" else "GC"
    h = C.Channel(a["solver"], (4, 3, 3) if two else ((5, 2, 2) if smooth else (4, 2, 2)), L, nu=2.0 if smooth else 0.05, dt=1.0 if smooth else 0.02, dealias="2/3-rule" if two else "3/2-rule", Dquad=quad, Bquad=quad)
    h.convection(a["conv"])
    g = h.grid
    degs = ([0], [0, 1], [0, 1]) if not th else ([0, 1], [0, 1], [0, 1, 2])
    if two: degs = ([0], [0], [0])
    basis = g.basis(*degs, ry=1, rz=1)
    one = []
    def first(s, H=True):
        h.start({"U": g.phys(s)})
        h.step(); rec.state(); rec.trans()
        return h.velocity()
    for l, s in basis: one.append(first(s))
    if not two and not smooth:
        for (l1, s1), (l2, s2) in itertools.combinations(basis, 2): one.append(first(s1 + s2))
    hist = []
    for seed in range(2):
        h.start({"U": g.phys(0.3*g.generic(seed, 6, 1, 1))})
        for n in range(3):
            h.step(); rec.state(); rec.trans(); hist.append(h.velocity())
    np.savez(os.path.join(job["share"], "C18-%s.npz" % job["name"]), one=np.array(one), hist=np.array(hist))
    if a["solver"] == "KMM" and a["conv"] == "Vortex": rec.sample({"kind": kind, "basis": [str(l) for l, _ in basis[:3]], "states": len(one)})

def finish(results, rec, scratch, tier):
    jobs = {r["job"]["name"]: r["job"] for r in results}
    def load(s, cv, kind):
        p = os.path.join(scratch, "C18-%s-%s-%s.npz" % (s, cv, kind))
        return np.load(p) if os.path.exists(p) else None
    def compare(name, a, b, key, what, tol):
        for i in range(len(b)):
            rec.trace()
            if not rec.close(a[i], b[i], tol, "%s:%s" % (name, key), {"state": i, "against": what}, scale=max(1., abs(b[i]).max()), metric=key):
                rec.violations[-1]["job"] = jobs[name]; return
    for grp in GROUPS:
        for kind in sorted({n.rsplit("-", 1)[1] for n in jobs}):
            for s in grp:
                base = load(s, "Vortex", kind)
                if base is None: continue
                # the 2/3-rule also cuts wall normal modes: same degrees, same result
                for cv in CV[:3]:
                    d = load(s, cv, kind)
                    # three stages: only the first one has resolved products, the later ones are of full degree
                    if d is not None and ("RK3" not in s or kind == "smooth"): compare("%s-%s-%s" % (s, cv, kind), d["one"], base["one"], "form", "Vortex", 1e-10)
            for s in grp[1:]:
                for cv in CV:
                    d, b = load(s, cv, kind), load(grp[0], cv, kind)
                    if d is None or b is None: continue
                    name = "%s-%s-%s" % (s, cv, kind)
                    if kind == "twothirds" and "RK3" in s: continue     # cut in different bases beyond the first stage
                    compare(name, d["one"], b["one"], "solver", grp[0], 1e-10)
                    if kind != "twothirds": compare(name, d["hist"], b["hist"], "history", grp[0], 1e-10)
