"""C25: profiling observes the run and reports it correctly, on one and several processes."""
import contextlib, cProfile, io, itertools
import numpy as np
TECHNIQUE = "exhaustive enumeration of call trees (and of their assignments to processes) under the real profiler on a virtual clock, and of solvers x process counts with profiling on and off"
NOTE = ("Every forest of nested calls within the bounds is executed under a real cProfile profiler whose clock is virtual, on every process another one, and the report of the code is compared with "
        "times computed from the tree; whole runs of every solver are compared with and without profiling, in histories of runs that start at several steps. A run that does not end is stopped and reported.")
RULE = "states = call trees executed and steps compared; transitions = calls and steps; traces = reports and runs compared"
ASSUMPTIONS = ["no two functions of the same name on the list run in one profile", "the returned dictionary is read on the first process"]
BOUNDS = {"quick": "forests of up to 3 calls of 3 functions on one process, all pairs of forests of up to 2 calls on two, all triples of up to 1 call on three; 12 solvers on 1 and 2 processes",
          "thorough": "forests of up to 4 calls, pairs with up to 2 and 3 calls, 4 processes"}
NAMES = ("ComputeRHS", "cross1", "someone_elses")
LISTED = NAMES[:2]

def jobs(tier):
    th = tier == "thorough"
    import sim
    out = [dict(name="trees-1", func="trees", args=dict(size=[4 if th else 3]), cost=2, timeout=300),
           dict(name="trees-2", func="trees", np=2, args=dict(size=[3, 2] if th else [2, 2]), cost=3, timeout=300),
           dict(name="trees-3", func="trees", np=3, args=dict(size=[1, 1, 1] if not th else [2, 1, 1]), cost=3, timeout=300)]
    if th: out.append(dict(name="trees-4", func="trees", np=4, args=dict(size=[1]*4), cost=3, timeout=300))
    for s in sim.ALL:
        for n in (1, 2):
            out.append(dict(name="%s-np%d" % (s, n), func="runs", args=dict(solver=s), np=n if n > 1 else 0, cost=6 if s.startswith("Coupled") else 3, timeout=400))
    return out

def forests(n):
    """All forests of labelled calls with n nodes: tuples of (name, forest)."""
    if n == 0: return [()]
    out = []
    for k in range(n):              # k nodes below the first call
        for name in NAMES:
            for below in forests(k):
                for rest in forests(n-1-k): out.append(((name, below),) + rest)
    return out

clock = [0.0]
def now(): return clock[0]
FUN = {}
for _n in NAMES:
    exec(compile("def %s(forest, cost):\n    clock[0] += cost[0]; cost[0] *= 2\n    for name, below in forest: FUN[name](below, cost)\n" % _n, "some_module", "exec"), globals())
    FUN[_n] = globals()[_n]

def expected(forest):
    own, cum = {}, {}
    cost = [1.0]
    def walk(f, above):
        s = 0.0
        for name, below in f:
            c = cost[0]; cost[0] *= 2
            t = c + walk(below, above + (name,))
            own[name] = own.get(name, 0) + c
            if name not in above: cum[name] = cum.get(name, 0) + t
            s += t
        return s
    walk(forest, ())
    return {n: (own[n], cum[n]) for n in own if n in LISTED}

def trees(job, rec):
    from spectralDNS.utilities import create_profile
    from mpi4py import MPI
    from mpi4py_fft.fftw import aligned
    comm = MPI.COMM_WORLD; me = comm.Get_rank()
    size = job["args"]["size"]
    def upto(n): return [f for k in range(n+1) for f in forests(k)]
    for fs in itertools.product(*[upto(n) for n in size]):
        for other in (False, True):
            pr = cProfile.Profile(now)
            cost = [1.0]
            pr.enable()
            if other: aligned((2,), fill=0)       # compiled function that is not on the list
            for name, below in fs[me]: FUN[name](below, cost)
            pr.disable()
            rec.state(); rec.trans()
            f = io.StringIO()
            with contextlib.redirect_stdout(f): got = create_profile(pr)
            if me == 0:
                rec.trace()
                ex = [expected(x) for x in fs]
                want = {}
                for n in LISTED:
                    v = [e[n] for e in ex if n in e]
                    if v: want[n] = (min(a for a, b in v), max(a for a, b in v), min(b for a, b in v), max(b for a, b in v))
                good = isinstance(got, dict) and sorted(got) == sorted(want) and all(np.allclose(got[n], want[n], rtol=1e-6, atol=1e-9) for n in want)
                rec.check(good, job["name"] + ":report", lambda: dict(calls=fs, other=other, got=got, want=want))
                rec.check(all(n in f.getvalue() for n in want), job["name"] + ":printed", lambda: dict(calls=fs, printed=f.getvalue()))
            else: rec.check(f.getvalue() == "", job["name"] + ":silent", f.getvalue())
        if comm.bcast(rec.nviol, 0) > 10: return
    rec.sample({"processes": len(size), "sizes": size, "functions": NAMES})

def runs(job, rec):
    """Every history of a run without profiling followed by profiled runs that start at (time, step): the same steps, and a report of that run."""
    import sim, time
    from mpi4py import MPI
    comm = MPI.COMM_WORLD; me = comm.Get_rank()
    s = sim.Sim(job["args"]["solver"], nu=0.05, dt=2.0**-7, M=None if job["args"]["solver"] in sim.PERIODIC else [4, 2, 2])
    p = s.params; st = s.initial(3, 0.4 if s.periodic else 0.05)
    p.write_result = p.checkpoint = 1000; dt = 2.0**-7
    def run(prof, tstep):
        log = []
        p.make_profile = prof
        s.new_context(); s.start(st, t=tstep*dt, tstep=tstep); p.dt = dt
        f = io.StringIO()
        def update(c): log.append(s.spectra())
        s.sol.results = None
        w = time.perf_counter()
        with contextlib.redirect_stdout(f): s.run((tstep+3)*dt, update=update)
        w = max(comm.allgather(time.perf_counter() - w))
        return log, s.sol.results, w
    last = None
    for tstep in (5, 0, 5):
        try:
            a = run(0, tstep)[0]; b, r, wall = run(1, tstep)
        except Exception as e:
            import traceback
            rec.bad(job["name"] + ":no-report", {"first step": tstep, "error": traceback.format_exc()[-600:]}); return
        rec.state(3); rec.trans(6); rec.trace()
        rec.check(len(a) == len(b) == 3 and all(np.array_equal(x, y) for u, v in zip(a, b) for x, y in zip(u, v)), job["name"] + ":same-run", {"steps": len(b), "first step": tstep})
        if me == 0:
            good = isinstance(r, dict) and len(r) > 0 and all(0 <= v[0] <= v[1] and 0 <= v[2] <= v[3] and v[0] <= v[2]+1e-9 and v[1] <= v[3]+1e-9 for v in r.values())
            rec.check(good, job["name"] + ":results", lambda: dict(first=tstep, results={k: list(v) for k, v in r.items()} if isinstance(r, dict) else repr(r)))
            if good:
                rec.check(max(v[3] for v in r.values()) <= wall and sum(v[0] for v in r.values()) <= wall, job["name"] + ":longer-than-the-run", lambda: dict(first=tstep, wall=wall, results={k: list(v) for k, v in r.items()}))
                rec.check(r != last, job["name"] + ":report-of-an-earlier-run", lambda: dict(first=tstep, results={k: list(v) for k, v in r.items()}))
                # what every run of three steps calls is in its report
                need = {"ComputeRHS"} | ({"solve_linear"} if s.name.startswith("KMM") else set())
                rec.check(need <= set(r), job["name"] + ":missing", lambda: dict(first=tstep, missing=sorted(need - set(r)), found=sorted(r)))
                last = dict(r)
    rec.sample({"solver": s.name, "entries": len(last or {})})
