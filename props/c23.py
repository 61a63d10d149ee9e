"""C23: reported timings for every sequence of step durations on a virtual clock, on one and several processes."""
import contextlib, io, itertools, re, time
import numpy as np
TECHNIQUE = "exhaustive enumeration of step-duration sequences (and of their assignments to processes) on a virtual clock, through the real timer and the real time loop"
NOTE = "The clock of the process is replaced by a virtual one before the code is imported; every sequence of durations within the bounds is played and the printed report compared with minima and maxima computed directly."
RULE = "states = durations played; transitions = calls of the timer; traces = reports compared"
ASSUMPTIONS = ["runs of at least one step; steps shorter than 1e8 seconds"]
BOUNDS = {"quick": "alphabet of 4 durations (zero included), up to 5 steps; 2 processes with all pairs of sequences of up to 3 steps over 3 durations, 3 processes with all triples of up to 2; time loop with all durations of 3 steps in callbacks and file output",
          "thorough": "up to 7 steps; 2 processes up to 4 steps"}

class Clock:
    def __init__(self): self.t = 1.6e9
    def __call__(self, *a): return self.t
    def ns(self): return int(self.t*1e9)

def jobs(tier):
    th = tier == "thorough"
    out = [dict(name="timer", func="timer", args=dict(n=7 if th else 5), cost=2, timeout=600)]
    out += [dict(name="loop-%s" % s, func="loop", args=dict(solver=s), cost=3, timeout=600) for s in ("NS", "KMM")]
    out.append(dict(name="np2", func="ranks", np=2, args=dict(n=4 if th else 3), cost=4, timeout=800))
    out.append(dict(name="np3", func="ranks", np=3, args=dict(n=2), cost=4, timeout=800))
    return out

def virtual():
    c = Clock()
    time.time = time.perf_counter = time.monotonic = c
    time.time_ns = time.perf_counter_ns = time.monotonic_ns = c.ns
    from spectralDNS import utilities
    from mpi4py import MPI
    MPI.Wtime = c
    return c, utilities

NUM = r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?"
def report(text):
    """Total, (fastest, fastest), (slowest, slowest) of the printed report."""
    out = {}
    for line in text.splitlines():
        m = re.match(r"\s*(Time|Fastest|Slowest)\s*[=:](.*)", line)
        if m: out[m.group(1)] = [float(x) for x in re.findall(NUM, re.sub(r"float64|float32", "", m.group(2)))]
    return out

def expect(rec, key, rep, total, seqs, det):
    """seqs: durations of every process."""
    rec.trace()
    lo = [min(s) for s in seqs]; hi = [max(s) for s in seqs]
    want = {"Time": [total], "Fastest": [min(lo), min(hi)], "Slowest": [max(lo), max(hi)]}
    good = sorted(rep) == sorted(want) and all(len(rep[k]) == len(want[k]) and np.allclose(rep[k], want[k], rtol=0, atol=2e-6) for k in want)
    rec.check(good, key, lambda: dict(det, got=rep, want=want))

A = (0.0, 0.125, 1.0, 2.5)
def timer(job, rec):
    clk, ut = virtual()
    for n in range(1, job["args"]["n"]+1):
        for seq in itertools.product(A, repeat=n):
            for tail in (0.0, 0.5):
                tm = ut.Timer()
                for d in seq: clk.t += d; tm(); rec.trans(); rec.state()
                clk.t += tail
                f = io.StringIO()
                with contextlib.redirect_stdout(f): tm.final(True)
                expect(rec, job["name"] + ":report", report(f.getvalue()), sum(seq) + tail, [seq], dict(durations=seq, tail=tail))
            if rec.nviol > 10: return
    tm = ut.Timer(); clk.t += 1; tm(); f = io.StringIO()
    with contextlib.redirect_stdout(f): tm.final(False)
    rec.check(f.getvalue() == "", job["name"] + ":quiet", f.getvalue())
    rec.sample({"alphabet": A})

def loop(job, rec):
    clk, ut = virtual()
    import sim
    s = sim.Sim(job["args"]["solver"], nu=0.05, dt=2.0**-7)
    st = s.initial(3, 0.05)
    s.params.verbose = True
    s.params.write_result = s.params.checkpoint = 1000
    B = (0.0, 0.25, 3.0)
    real = type(s.c.hdf5file).update
    for n in (1, 2, 3):
        for seq in itertools.product(B, repeat=n):
            for files in itertools.product((0.0, 1.0), repeat=n):
                k = [0]
                def update(c): clk.t += seq[k[0]]
                class File:
                    def update(self, params, **kw): clk.t += files[k[0]]; k[0] += 1
                    def close(self): pass
                s.c.hdf5file = File()
                s.start(st); s.params.dt = 2.0**-7
                f = io.StringIO()
                with contextlib.redirect_stdout(f): s.run(n*2.0**-7, update=update)
                rec.state(n); rec.trans(n)
                d = [a+b for a, b in zip(seq, files)]
                rec.check(k[0] == n, job["name"] + ":steps", k[0])
                expect(rec, job["name"] + ":report", report(f.getvalue()), sum(d), [d], dict(steps=seq, files=files))
                if rec.nviol > 10: return

def ranks(job, rec):
    clk, ut = virtual()
    from mpi4py import MPI
    comm = MPI.COMM_WORLD; me, size = comm.Get_rank(), comm.Get_size()
    B = (0.125, 1.0, 2.5)
    for n in range(1, job["args"]["n"]+1):
        for seqs in itertools.product(itertools.product(B, repeat=n), repeat=size):
            tm = ut.Timer()
            for d in seqs[me]: clk.t += d; tm(); rec.trans(); rec.state()
            f = io.StringIO()
            with contextlib.redirect_stdout(f): tm.final(True)
            if me == 0: expect(rec, job["name"] + ":report", report(f.getvalue()), sum(seqs[0]), seqs, dict(durations=seqs))
            else: rec.check(f.getvalue() == "", job["name"] + ":silent", f.getvalue())
            if comm.bcast(rec.nviol, 0) > 10: return
    rec.sample({"processes": size, "alphabet": B})
