"""C21: what ran before, or runs in between, never changes a run."""
import fcntl, itertools, os
import numpy as np
import sim
from props.c20 import same
TECHNIQUE = "exhaustive enumeration of schedules: all interleavings of two contexts' steps with a context made or the scratch memory overwritten at every point, all ways to split a run, all ordered pairs of solvers in one process, against fresh processes"
NOTE = ("Every schedule within the bounds is executed by the real code and every step compared with a run of that context alone in a fresh process.")
RULE = "states = steps compared; transitions = steps, context creations and overwrites of scratch memory; traces = schedules executed and compared with fresh processes"
ASSUMPTIONS = ["contexts stepped in turn have the same parameters; each keeps its own time and step counter", "work arrays may hold anything between steps"]
BOUNDS = {"quick": "12 solvers, 3+3 steps of two contexts (2+2 for the channel solvers): all interleavings with a new context or overwritten scratch at every position; all 32 splits of 6 steps; all 144 ordered pairs of solvers; every solver in 6-9 configurations differing in one option, base and variant in turn",
          "thorough": "4+4 steps (70 interleavings), scratch overwritten at every subset of the positions of two interleavings, all 128 splits of 8 steps, all ordered pairs of configurations"}
DT = 2.0**-7
FORMS = {"NS": ("Standard", "Divergence", "Skewed", "Vortex"), "KMM": ("Standard", "Divergence", "Skew", "Vortex"), "KMMr": ("Standard", "Divergence", "Skew", "Vortex"), "KMMRK3": ("Standard", "Vortex"), "Coupled": ("Standard", "Divergence", "Vortex"), "CoupledRK3": ("Standard", "Vortex")}

def jobs(tier):
    out = []
    for s in sim.ALL:
        heavy = 8 if s.startswith("Coupled") else 3
        for f in FORMS.get(s, ("Divergence" if s == "MHD" else "Vortex",)):
            out.append(dict(name="%s-%s-interleave" % (s, f), func="interleave", args=dict(solver=s, conv=f, steps=3 if s in sim.PERIODIC and f in (None, "Vortex", "Divergence"[:10*(s == "MHD")]) or tier == "thorough" and heavy == 3 else 2), cost=heavy, timeout=850))
        for i in (("RK4", "ForwardEuler") if s in sim.PERIODIC else (None,)):
            out.append(dict(name="%s-%s-splits" % (s, i or "default"), func="splits", args=dict(solver=s, integrator=i), cost=heavy, timeout=850))
    for i in ("AB2", "BS5_adaptive", "ForwardEuler"):
        out.append(dict(name="NS-%s-interleave" % i, func="interleave", args=dict(solver="NS", conv="Vortex", steps=3, integrator=i), cost=3, timeout=850))
    for s in sim.ALL:
        out.append(dict(name="%s-configs" % s, func="configs", args=dict(solver=s), cost=8 if s.startswith("Coupled") else 4, timeout=850))
    for r in range(6):
        out.append(dict(name="chain-%d" % r, func="chain", args=dict(part=r, parts=6), cost=9, timeout=850))
    return out

def make(a, second=False):
    kw = dict(nu=0.05, dt=DT, dealias="3/2-rule" if not second else "2/3-rule", integrator=a.get("integrator"))
    if a.get("conv"): kw["convection"] = a["conv"]
    if second:
        kw.update(nu=0.02, M=[2, 3, 3][:2 if a["solver"] in ("NS2D", "Bq2D") else 3] if a["solver"] in sim.PERIODIC else [4, 2, 3])
    kw.update(variants(a["solver"])[a["variant"]] if a.get("variant") else {})
    return sim.Sim(a["solver"], **kw)

def variants(solver):
    """Configurations that differ from the first in one respect each."""
    v = {"": {}, "nu": dict(nu=0.01), "dt": dict(dt=2*DT), "dealias": dict(dealias="None")}
    if solver in sim.PERIODIC:
        two = solver in ("NS2D", "Bq2D")
        v["L"] = dict(L=[3.0, 4.0, 7.0][:2 if two else 3]); v["M"] = dict(M=[3, 2, 3][:2 if two else 3])
        if solver == "MHD": v["eta"] = dict(eta=0.2)
        if solver == "Bq2D": v["Ri"] = dict(Ri=0.7); v["Pr"] = dict(Pr=5.0)
        v["integrator"] = dict(integrator="AB2"); v["mask"] = dict(mask_nyquist=False)
    else:
        v["L"] = dict(L=[2.0, 4.0, 7.0]); v["M"] = dict(M=[4, 3, 2]); v["quad"] = dict(Dquad="GL", Bquad="GL", Nquad="GL")
        v["convection"] = dict(convection="Divergence")
        if solver.endswith("RB"): v["kappa"] = dict(kappa=0.3)
    if solver == "NS": v["convection"] = dict(convection="Skewed")
    return v

def state(s, which): return s.initial((3, 8)[which], (0.4 if s.periodic else 0.05)*(1, 0.7)[which])

def alone(job, rec):
    """In a fresh process: one context, one run."""
    a = job["args"]; s = make(a, a.get("second", False))
    s.start(state(s, a["which"]))
    if not a.get("variant"): s.params.dt = DT
    if a.get("loop"):
        log = []
        s.params.write_result = s.params.checkpoint = 1000
        d = float(s.params.dt)
        s.run(a["steps"]*d, update=lambda c: log.append(s.spectra()))
    else:
        log = [s.spectra()]
        for _ in range(a["steps"]): s.step(); log.append(s.spectra())
    np.savez(a["out"], *[x for u in log for x in u], n=len(log))

def reference(job, rec, **args):
    out = os.path.join(job["share"], "C21-%s-%s.npz" % (job["name"].replace("/", "_"), "-".join(str(args[k]).replace("/", "_") for k in sorted(args))))
    with open(out + ".lock", "w") as lk:
      fcntl.flock(lk, fcntl.LOCK_EX)
      if not os.path.exists(out):
        tmp = out[:-4] + ".%d.npz" % os.getpid()
        res = sim.spawn(dict(job, tier=job["tier"]), "alone", dict(args, out=tmp))
        sim.merge(rec, res)
        os.replace(tmp, out)
    d = np.load(out); n = int(d["n"]); arr = [d["arr_%d" % i] for i in range(len(d.files)-1)]
    m = len(arr)//n
    return [arr[i*m:(i+1)*m] for i in range(n)]

def poison(c):
    if "work" not in c: return
    w = c.work
    for shape, dtype, i in list(w):
        w[(np.empty(shape, dtype), i, False)][...] = np.nan

def interleave(job, rec):
    a = job["args"]; n = a["steps"]; th = job["tier"] == "thorough"
    if th and n == 3: n = 4
    base = {k: a[k] for k in ("solver", "conv", "integrator") if k in a}
    ref = [reference(job, rec, which=w, steps=n, **base) for w in (0, 1)]
    s = make(a); sts = [state(s, 0), state(s, 1)]
    ctx = [s.c, s.sol.get_context()]
    p = s.params
    def go(word):
        for i in (0, 1): s.start(sts[i], c=ctx[i])
        it = [s.sol.getintegrator(c.dU, c.u, s.sol, c) for c in ctx]
        clock = [[0.0, 0, DT], [0.0, 0, DT]]; k = [0, 0]
        for pos, l in enumerate(word):
            rec.trans()
            if l == "new": s.sol.get_context(); continue
            if l == "scratch":
                for c in ctx: poison(c)
                continue
            c = ctx[l]
            p.t, p.tstep, p.dt = clock[l]
            u, p.dt, took = it[l]()
            p.t += took; p.tstep += 1
            s.sol.end_of_tstep(c)
            clock[l] = [p.t, p.tstep, p.dt]; k[l] += 1
            rec.state()
            for i in (0, 1):
                rec.check(same(s.spectra(ctx[i]), ref[i][k[i]]), job["name"] + ":schedule", lambda: dict(word=word, position=pos, context=i, steps=k[i]))
        rec.trace()
        return rec.nviol < 10
    p.T = 1000.0
    words = []
    for pos in itertools.combinations(range(2*n), n):
        words.append([0 if i in pos else 1 for i in range(2*n)])
    for w in words:
        if not go(w): return
    for w in words:
        for extra in ("new", "scratch"):
            for i in range(2*n + 1):
                if extra == "new" and n > 2 and w not in (words[0], words[-1], words[len(words)//2], words[len(words)//3]): continue
                if not go(w[:i] + [extra] + w[i:]): return
    if th:
        for w in (words[0], words[len(words)//2]):
            for r in itertools.product((0, 1), repeat=2*n):
                x = []
                for i, l in zip(r, w): x += (["scratch"] if i else []) + [l]
                if not go(x): return
    rec.sample({"solver": s.name, "interleavings": len(words)})

def splits(job, rec):
    a = job["args"]; n = 8 if job["tier"] == "thorough" else 6
    base = {k: a[k] for k in ("solver", "integrator") if a.get(k)}
    ref = reference(job, rec, which=0, steps=n, loop=True, **base)
    s = make(a); st = state(s, 0)
    s.params.write_result = s.params.checkpoint = 1000
    for cut in itertools.product((0, 1), repeat=n-1):
        s.start(st); s.params.dt = DT
        k = [0]; good = [True]
        def update(c):
            good[0] &= k[0] < n and same(s.spectra(), ref[k[0]]); k[0] += 1
        ends = [i+1 for i in range(n-1) if cut[i]] + [n]
        for e in ends: s.run(e*DT, update=update)
        rec.state(k[0]); rec.trans(k[0]); rec.trace()
        rec.check(good[0] and k[0] == n and same(s.spectra(), ref[-1]), job["name"] + ":split", lambda: dict(ends=ends, steps=k[0]))
        rec.check(s.params.dt == DT and s.params.tstep == n and s.params.t == n*DT, job["name"] + ":clock", lambda: dict(ends=ends, dt=s.params.dt, t=s.params.t, tstep=s.params.tstep))
        if rec.nviol > 10: return

def debruijn(n):
    """A cyclic word over n letters containing every ordered pair once."""
    a = [0]*(2*n); seq = []
    def db(t, p):
        if t > 2:
            if 2 % p == 0: seq.extend(a[1:p+1])
            return
        a[t] = a[t-p]; db(t+1, p)
        for j in range(a[t-p]+1, n):
            a[t] = j; db(t+1, t)
    db(1, 1)
    return seq

def chain(job, rec):
    a = job["args"]
    seq = debruijn(len(sim.ALL)); L = len(seq); m = L//a["parts"]
    part = [seq[(a["part"]*m + i) % L] for i in range(m + 1)]
    visits = {}; steps = 2
    for pos, i in enumerate(part):
        name = sim.ALL[i]; v = visits[name] = visits.get(name, a["part"] % 2) + 1
        second = bool(v % 2)
        conf = dict(solver=name, which=int(second), second=second, steps=steps, loop=True)
        ref = reference(dict(job, name="chain"), rec, **conf)
        s = make(conf, second)
        s.start(state(s, conf["which"])); s.params.dt = DT
        s.params.write_result = s.params.checkpoint = 1000
        log = []
        s.run(steps*DT, update=lambda c: log.append(s.spectra()))
        rec.state(len(log)); rec.trans(len(log)); rec.trace()
        rec.check(len(log) == len(ref) and all(same(x, y) for x, y in zip(log, ref)), job["name"] + ":after-other-solvers", lambda: dict(before=[sim.ALL[j] for j in part[:pos]], solver=name, second=second))
        if rec.nviol > 6: return
    rec.sample({"sequence": [sim.ALL[i] for i in part[:8]], "length": len(part)})

def configs(job, rec):
    """Contexts of one solver in configurations that differ in one respect, in turn: base, v, base, w, ... (thorough: every ordered pair)."""
    a = job["args"]; V = list(variants(a["solver"])); steps = 2
    if job["tier"] == "thorough": seq = [V[i] for i in debruijn(len(V))]; seq.append(seq[0])
    else: seq = [x for v in V[1:] for x in ("", v)] + [""]
    for pos, v in enumerate(seq):
        conf = dict(solver=a["solver"], which=0, variant=v, steps=steps, loop=True)
        ref = reference(job, rec, **conf)
        s = make(conf); s.start(state(s, 0))
        if not v: s.params.dt = DT
        s.params.write_result = s.params.checkpoint = 1000
        log = []
        s.run(steps*float(s.params.dt), update=lambda c: log.append(s.spectra()))
        rec.state(len(log)); rec.trans(len(log)); rec.trace()
        rec.check(len(log) == len(ref) and all(same(x, y) for x, y in zip(log, ref)), job["name"] + ":after-other-configuration", lambda: dict(before=seq[:pos], configuration=v))
        if rec.nviol > 6: return
    rec.sample({"solver": a["solver"], "sequence": seq})
