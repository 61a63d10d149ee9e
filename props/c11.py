"""C11: result and checkpoint files of every run, against a model of the two files."""
import itertools, os
import numpy as np
import sim
TECHNIQUE = "explicit-state enumeration of a two-file model over all intervals, run lengths, stop points and append modes, every history replayed by the real time loop and the real files compared with the model"
NOTE = ("The model keeps what the result and checkpoint file must hold (data sets per step, counter, time). All histories within the bounds (intervals, steps, start counters, stop file at every "
        "step, second runs that append or overwrite, slices and custom names) are run by the real code; file contents are compared with fields recorded in a run without files.")
RULE = "states = distinct (history, step) reached; transitions = steps of the real loop; traces = histories whose files were compared with the model"
ASSUMPTIONS = ["a crash of the machine during a write is outside this property", "the pressure stored by the periodic solvers is the one of the last stage of the step"]
BOUNDS = {"quick": "12 solvers; intervals 1-4 x 1-4, up to 5 steps, stop file before the run or at any step, start counters 0 and 3, two-run histories with append and overwrite; stop file seen by any subset of 2 and 3 processes",
          "thorough": "up to 7 steps, intervals 1-6"}
DT = 0.01

def jobs(tier):
    out = []
    for s in sim.ALL:
        n = 4 if s.startswith("Coupled") or s == "KMM" else (2 if s in sim.CHANNEL else 1)
        for part in range(n):
            out.append(dict(name="%s-%d" % (s, part), args=dict(solver=s, part=part, parts=n), cost=6 if s.startswith("Coupled") else 3, timeout=850))
    for s in ("NS2D", "KMM"):
        for n in (2, 3): out.append(dict(name="%s-stop-np%d" % (s, n), func="ranks", args=dict(solver=s, n=n), np=n, cost=6, timeout=600))
    return out

STOP = "killspectraldns"

def physical(s):
    """The results of each solver, from the spectral data, without its own output routines."""
    c = s.c; T = s.T
    back = lambda h: sim.gather(np.array(T.backward(h)), s.sl, s.N)
    if s.name in ("NS", "NS2D"):
        return dict([("U%d" % i, back(np.array(c.U_hat[i]))) for i in range(s.dim)] + [("P", back(-1j*np.array(c.P_hat)))])
    if s.name == "VV":
        W = np.array(c.W_hat); K = c.K; K2 = np.where(c.K2 == 0, 1, c.K2)
        V = [1j*(K[1]*W[2]-K[2]*W[1])/K2, 1j*(K[2]*W[0]-K[0]*W[2])/K2, 1j*(K[0]*W[1]-K[1]*W[0])/K2]
        return dict([("U%d" % i, back(V[i])) for i in range(3)] + [("curl%d" % i, back(W[i])) for i in range(3)])
    if s.name == "MHD": return {"UB%d" % i: back(np.array(c.UB_hat[i])) for i in range(6)}
    if s.name == "Bq2D": return {"UR%d" % i: back(np.array(c.Ur_hat[i])) for i in range(3)}
    out = {"U%d" % i: s.phys(c.U_hat[i]) for i in range(3)}
    if s.rb: out["phi"] = s.phys(c.phi_hat)
    return out

def stored(s):
    """Spectral data a checkpoint of the current step holds: name -> local array."""
    c = s.c; n = s.name
    if n == "VV": return {"curl": np.array(c.W_hat)}
    if n == "MHD": return {"UB": np.array(c.UB_hat)}
    if n == "Bq2D": return {"Ur": np.array(c.Ur_hat)}
    if n.startswith("Coupled"): return {"UP": np.array(c.UP_hat)}
    out = {"U": np.array(c.U_hat)}
    if s.rb: out["phi"] = np.array(c.phi_hat)
    return out

class Null:
    def update(self, params, **kw): pass
    def close(self): pass

def record(s, st, steps, t, tstep):
    """The run without files: everything a file may have to hold, step by step."""
    s.new_context(); keep = s.c.hdf5file
    s.c.hdf5file = Null(); s.params.dt = DT
    s.start(st, t=t, tstep=tstep)
    log = [dict(t=t, k=tstep, hat=stored(s), u=s.spectra())]
    s.run(t + steps*DT, update=lambda c: log.append(dict(t=s.params.t, k=s.params.tstep, hat=stored(s), phys=physical(s), u=s.spectra())))
    return log

class Model:
    """Result and checkpoint file: what is in them."""
    def __init__(self): self.w = self.c = None; self.attr = None
    def run(self, log, r, c, mode, stop, two):
        """Events of one run over log[1:], stop = index of the step at which the stop file is there (or None)."""
        if mode == "w" or self.w is None: self.w = {}
        if mode == "w" or self.c is None: self.c = {}; self.attr = (0, 0.0)
        for i, e in enumerate(log[1:], 1):
            if e["k"] % r == 0: self.w[e["k"]] = e
            kill = stop is not None and i >= stop
            if e["k"] % c == 0 or kill:
                self.c = {"0": e["hat"]}
                if two: self.c["1"] = log[i-1]["hat"]
                self.attr = (e["k"], e["t"])
            if kill: return i
        return len(log) - 1

def read(path):
    import h5py
    data, attr = {}, {}
    with h5py.File(path, "r") as f:
        attr = {k: float(v) for k, v in f.attrs.items()}
        f.visititems(lambda n, o: data.__setitem__(n, np.array(o)) if isinstance(o, h5py.Dataset) and "/mesh/" not in n else None)
    return data, attr

def compare(rec, job, s, model, name, det):
    key = job["name"]; d = "%dD" % s.dim
    rec.trace()
    data, _ = read(name + "_w.h5")
    want = {}
    for k, e in model.w.items():
        for n, a in e["phys"].items(): want["%s/%s/%d" % (n, d, k)] = a
    if rec.check(sorted(data) == sorted(want), key + ":result-steps", lambda: dict(det, extra=sorted(set(data)-set(want))[:4], missing=sorted(set(want)-set(data))[:4])):
        for n in want:
            if not rec.close(data[n], want[n], 1e-12, key + ":result-data", dict(det, dataset=n), metric="results"): break
    data, attr = read(name + "_c.h5")
    want = {"%s/%s/%s" % (n, d, st): a for st, fields in model.c.items() for n, a in fields.items()}
    if rec.check(sorted(data) == sorted(want), key + ":checkpoint-sets", lambda: dict(det, got=sorted(data), want=sorted(want))):
        for n in want:
            if not rec.close(data[n], want[n], 1e-13, key + ":checkpoint-data", dict(det, dataset=n), metric="checkpoint"): break
    rec.check(attr.get("tstep") == model.attr[0] and abs(attr.get("t", -1) - model.attr[1]) < 1e-12, key + ":checkpoint-counter", dict(det, got=attr, want=model.attr))

def drive(s, st, t, tstep, steps, r, c, mode, stop, log, rec, job, det, context=None, first=True):
    """One real run; returns number of steps made. log[0] is its initial state."""
    p = s.params
    if first: s.new_context(); s.start(st, t=t, tstep=tstep)
    p.write_result, p.checkpoint, p.filemode, p.dt = r, c, mode, DT
    n = [0]; same = [True]
    if stop == 0: open(STOP, "w").close()
    def update(ctx):
        n[0] += 1
        if stop == n[0]: open(STOP, "w").close()
        same[0] &= n[0] < len(log) and all(np.array_equal(a, b) or abs(a-b).max() <= 1e-13*max(1., abs(b).max()) for a, b in zip(s.spectra(), log[n[0]]["u"]))
    code = None
    try: s.run(t + steps*DT, update=update)
    except SystemExit as e: code = e.code
    rec.trans(n[0]); rec.state(n[0])
    rec.check(same[0], job["name"] + ":solution-altered", det)
    killed = stop is not None and stop <= steps
    if killed:
        rec.check(code not in (None, 0), job["name"] + ":exit-status", dict(det, code=code))
        rec.check(not os.path.exists(STOP), job["name"] + ":stop-file-left", det)
        if os.path.exists(STOP): os.remove(STOP)
    else: rec.check(code is None, job["name"] + ":stopped", dict(det, code=code))
    rec.outcome("stopped" if killed else "ran to the end")
    return n[0]

def clean(name):
    for e in ("c", "w"):
        f = "%s_%s.h5" % (name, e)
        if os.path.exists(f): os.remove(f)

def run(job, rec):
    a = job["args"]; th = job["tier"] == "thorough"
    s = sim.Sim(a["solver"], nu=0.05, dt=DT)
    two = s.name in sim.AB_CHANNEL
    st = s.initial(5, 0.4 if s.periodic else 0.05)
    slow = s.name in sim.CHANNEL and s.name != "KMM"      # these go through the same file code
    I = (1, 2, 3, 4) if not th else (1, 2, 3, 4, 5, 6)
    N = 5 if not th else 7
    count = 0
    def mine():
        nonlocal count
        count += 1
        return count % a["parts"] == a["part"]
    for tstep in (0, 3):
        log = record(s, st, N, 0.5*tstep, tstep)
        for r, c in itertools.product(I, I):
            if slow and not th and (r + c) % 2: continue
            for stop in [None] + list(range(0, N+1)):
                if tstep and (stop or 0) > 2: continue
                if not mine(): continue
                det = dict(write_result=r, checkpoint=c, stop=stop, start=tstep, mode="w")
                clean(s.name); m = Model()
                want = m.run(log, r, c, "w", None if stop is None else max(stop, 1), two)
                n = drive(s, st, 0.5*tstep, tstep, N, r, c, "w", stop, log, rec, job, det)
                rec.check(n == want, job["name"] + ":steps-made", dict(det, got=n, want=want))
                compare(rec, job, s, m, s.name, det)
                if rec.nviol > 15: return
    # two runs in a row: the second appends or overwrites, continuing or starting afresh
    full = record(s, st, 6, 0.0, 0)
    for r, c in itertools.product((1, 2, 3, 4), (1, 2, 3, 4)):
        if slow and not th and r != c: continue
        for n1, n2, mode in itertools.product((1, 2, 3), (1, 2, 3) if not slow else (2,), ("a", "w")):
            if not mine(): continue
            det = dict(write_result=r, checkpoint=c, first=n1, second=n2, mode=mode)
            clean(s.name); m = Model()
            m.run(full[:n1+1], r, c, "w", None, two)
            drive(s, st, 0.0, 0, n1, r, c, "w", None, full[:n1+1], rec, job, det)
            compare(rec, job, s, m, s.name, det)
            # a fresh file handler in the same folder, as a new process makes one
            fresh = s.sol.get_context().hdf5file
            h = s.c.hdf5file; h.cfile = h.wfile = None
            m.run(full[n1:n1+n2+1], r, c, mode, None, two)
            drive(s, st, n1*DT, n1, n2, r, c, mode, None, full[n1:n1+n2+1], rec, job, det, first=False)
            compare(rec, job, s, m, s.name, det)
            if rec.nviol > 15: return
    if a["part"] == 0: custom(job, rec, s, st, full)
    rec.sample({"solver": s.name, "intervals": I, "steps": N})

def custom(job, rec, s, st, log):
    """User-defined file name, and slices of the results."""
    s.new_context(); s.start(st); c = s.c; p = s.params
    if "U" not in c or s.name == "MHD": rec.count("no_slices"); return
    if s.name == "Bq2D": U = [c.Ur[0], c.Ur[1]]
    else: U = [c.U[0], c.U[1]]
    whole, cut = [slice(None)]*s.dim, 2
    name = "mine"
    sls = []
    if s.dim == 3:
        sls = [("2D/slice_slice_0", [slice(None), slice(None), 0]), ("2D/slice_2_slice", [slice(None), 2, slice(None)]), ("2D/3_slice_slice", [3, slice(None), slice(None)])]
    else: sls = [("1D/slice_2", [slice(None), 2]), ("1D/3_slice", [3, slice(None)])]
    c.hdf5file.filename = name
    c.hdf5file.results["space"] = s.T
    c.hdf5file.results["data"] = {"first": [(U[0], sl) for _, sl in sls], "second": [U[1]]}
    p.write_result, p.checkpoint, p.filemode = 2, 3, "w"
    s.run(4*DT)
    rec.trans(4); rec.state(4); rec.trace()
    data, _ = read(name + "_w.h5")
    base = "UR" if s.name == "Bq2D" else "U"
    want = {}
    for e in log[1:5]:
        if e["k"] % 2: continue
        for n, sl in sls: want["first/%s/%d" % (n, e["k"])] = e["phys"][base + "0"][tuple(sl)]
        want["second/%dD/%d" % (s.dim, e["k"])] = e["phys"][base + "1"]
    if rec.check(sorted(data) == sorted(want), job["name"] + ":slices", dict(got=sorted(data), want=sorted(want))):
        for n in want: rec.close(data[n], want[n], 1e-12, job["name"] + ":slice-data", n)
    rec.check(os.path.exists(name + "_c.h5"), job["name"] + ":file-name")

def ranks(job, rec):
    """Stop file seen by every non-empty subset of the processes at every step (a shared folder seen late by some)."""
    a = job["args"]; n = a["n"]; comm = sim._comm(); me = comm.Get_rank()
    s = sim.Sim(a["solver"], nu=0.05, dt=DT, decomposition="slab")
    st = s.initial(5, 0.05); N = 3
    real = os.listdir
    sees = [True]; hidden = [set()]
    def listdir(*p):
        names = real(*p)
        return [x for x in names if x != STOP] if not sees[0] else names
    os.listdir = listdir
    for subset in itertools.chain(*(itertools.combinations(range(n), k) for k in range(1, n+1))):
        for j in range(1, N+1):
            comm.Barrier()
            if me == 0: clean(s.name)
            comm.Barrier()
            s.new_context(); s.start(st)
            s.params.write_result, s.params.checkpoint, s.params.filemode, s.params.dt = 100, 100, "w", DT
            k = [0]; ref = {}
            def update(c):
                k[0] += 1
                if k[0] == j:
                    comm.Barrier()
                    if me == 0: open(STOP, "w").close()
                    comm.Barrier()
                    for nm, h in stored(s).items(): ref[nm] = h
                sees[0] = me in subset
            sees[0] = False
            code = None
            try: s.run(N*DT, update=update)
            except SystemExit as e: code = e.code
            det = dict(seen_by=subset, step=j, processes=n)
            rec.state(k[0]); rec.trans(k[0]); rec.trace()
            comm.Barrier()
            rec.check(code not in (None, 0) and k[0] == j, job["name"] + ":all-stop", dict(det, code=code, steps=k[0], rank=me))
            if me == 0:
                rec.check(STOP not in real("."), job["name"] + ":stop-file-left", det)
                data, attr = read(s.name + "_c.h5")
                rec.check(attr.get("tstep") == j, job["name"] + ":checkpoint-counter", dict(det, attr=attr))
            sp = s.T
            for nm, h in ref.items():
                full = sim.gather(h, s.slh, s.hshape)
                if me == 0: rec.close(data["%s/%dD/0" % (nm, s.dim)], full, 1e-13, job["name"] + ":checkpoint-data", det)
            comm.Barrier()
            if me == 0 and os.path.exists(STOP): os.remove(STOP)
    os.listdir = real
    rec.sample({"solver": s.name, "processes": n})
