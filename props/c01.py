"""C01: the parameter store explored as a transition system against a plain dictionary."""
import itertools, math
import numpy as np
TECHNIQUE = "explicit-state exploration of the real parameter store against a dictionary model (all reachable states, all short histories)"
NOTE = ("Breadth-first search over every state the store reaches with the alphabet of writes, deletions and updates (each transition replayed on a "
        "fresh store), plus every history up to the stated depth without merging of states. Values outside the alphabet are not covered.")
RULE = ("states = distinct contents of the store reached (breadth first) plus histories compared without merging; transitions = operations applied; "
        "traces = histories replayed on a fresh real store")
ASSUMPTIONS = ["a store with equal visible content has equal futures (also checked without this by the unmerged histories)"]
BOUNDS = {"quick": "36 operations; all reachable states; unmerged histories to depth 3, read after every operation or only in the end", "thorough": "unmerged histories to depth 4"}

VALS = {"M": [(2, 3, 4), ["5", "1", "2"], (3, 4)], "N": [(6, 10, 12), [8, 5, 3]],
        "L": [("2*pi", "4", "pi/2"), (1.0, 2.5, 3.0), [2, 6.0]], "nu": [1 / 3.0, 2], "dt": [0.01], "precision": ["single", "double"],
        "Ri": [0.7], "Pr": [1.5], "eta": [1e-3], "foo": ["x"]}
CANON = {"M": lambda v: tuple(int(x) for x in v), "N": lambda v: tuple(int(x) for x in v),
         "L": lambda v: tuple({"2*pi": 2 * math.pi, "4": 4.0, "pi/2": math.pi / 2}.get(x, x) * 1.0 for x in v)}

def ops():
    out = []
    for k, vs in VALS.items():
        for i, v in enumerate(vs):
            vias = ("attr", "item", "update") if k in ("M", "L", "N", "nu") and i == 0 else (("attr", "item")[len(out) % 2],)
            for via in vias: out.append(("set", k, i, via))
        if k != "precision":
            out.append(("del", k, 0, ("attr", "item", "pop")[len(out) % 3]))
    out.append(("update2", "M", 0, "update")); out.append(("setdefault", "nu", 1, "setdefault"))
    return out

def apply_real(p, op):
    kind, k, i, via = op
    if kind == "set":
        v = VALS[k][i]
        if via == "attr": setattr(p, k, v)
        elif via == "item": p[k] = v
        else: p.update({k: v})
    elif kind == "update2": p.update(M=VALS["M"][0], L=VALS["L"][0])
    elif kind == "setdefault": p.setdefault(k, VALS[k][i])
    elif via == "attr": delattr(p, k)
    elif via == "item": del p[k]
    else: p.pop(k)

def apply_model(m, op):
    m = dict(m)
    kind, k, i, via = op
    c = lambda k, i: CANON.get(k, lambda v: v)(VALS[k][i])
    if kind == "set": m[k] = c(k, i)
    elif kind == "update2": m["M"] = c("M", 0); m["L"] = c("L", 0)
    elif kind == "setdefault": m.setdefault(k, c(k, i))
    else:
        if k not in m: return None
        del m[k]
    return m

def observe(p, m, rec, det):
    key = "store"
    rec.check(sorted(p) == sorted(m) and len(p) == len(m), key + ":keys", lambda: dict(det, got=sorted(p), want=sorted(m)))
    fl = np.float32 if m.get("precision") == "single" else np.float64
    def arr(name, got, want, dt):
        ok = isinstance(got, np.ndarray) and got.shape == (len(want),) and got.dtype == dt and np.array_equal(got, np.array(want, dtype=dt))
        rec.check(ok, key + ":" + name, lambda: dict(det, got=repr(got), want=want))
        return ok
    for k in VALS:
        if k not in m:
            rec.check(k not in p, key + ":deleted-key-present", det)
            if k == "N" and "M" in m: continue
            try: getattr(p, k); rec.bad(key + ":missing-key-readable", dict(det, key=k))
            except (KeyError, AttributeError, AssertionError): pass
            continue
        at, it, ge = getattr(p, k), p[k], p.get(k)
        if k in ("M", "N", "L"):
            dt = np.dtype(float) if k == "L" else np.dtype(int)
            for got in (at, it, ge): arr(k, got, m[k], dt)
            for got in (at, it):
                try:
                    got[0] = 99
                    rec.bad(key + ":modified-in-place", dict(det, key=k))
                except ValueError: pass
        elif k in ("nu", "dt", "Ri", "Pr", "eta"):
            rec.check(type(at) is fl, key + ":type", lambda: dict(det, key=k, got=str(type(at)), want=str(fl)))
            rec.check(at == fl(m[k]) and fl(it) == at and fl(ge) == at, key + ":value", lambda: dict(det, key=k, got=repr((at, it)), want=m[k]))
        else:
            rec.check(at == it == m[k] == ge, key + ":value", lambda: dict(det, key=k))
    if "M" in m or "N" in m:
        n = m["N"] if "N" in m else tuple(2 ** x for x in m["M"])
        if arr("N", p.N, n, np.dtype(int)) and "L" in m and len(m["L"]) == len(n):
            d = p.dx
            rec.check(isinstance(d, np.ndarray) and d.shape == (len(n),) and np.allclose(d, [l / q for l, q in zip(m["L"], n)], rtol=1e-15, atol=0),
                      key + ":dx", lambda: dict(det, got=repr(d)))

def canon(m): return tuple(sorted(m.items(), key=lambda kv: kv[0]))

def jobs(tier):
    n = len(ops())
    return [dict(name="reach", func="reach", cost=3)] + [dict(name="hist-%d" % i, func="hist", args=dict(part=i, parts=8), cost=3) for i in range(8)]

def fresh():
    from spectralDNS import config
    return config.Params({"precision": "double"}), {"precision": "double"}

def reach(job, rec):
    """All reachable states (three-dimensional values), each transition on a fresh store with the shortest history."""
    O = [o for o in ops()]
    p, m0 = fresh()
    observe(p, m0, rec, {"history": []})
    seen = {canon(m0): ()}
    frontier = [(m0, ())]
    depth = 0
    while frontier:
        nxt = []
        for m, h in frontier:
            for o in O:
                m2 = apply_model(m, o)
                if m2 is None: continue
                # transitions out of every state; the store is rebuilt by replaying its history
                k = canon(m2)
                new = k not in seen
                if not new and (len(h) + 1) > 4: rec.count("merged"); continue
                p, _ = fresh()
                for x in h: apply_real(p, x)
                apply_real(p, o)
                rec.trans(); rec.trace()
                observe(p, m2, rec, {"history": list(h) + [o]})
                if rec.nviol > 10: return
                if new: seen[k] = h + (o,); nxt.append((m2, h + (o,)))
        frontier = nxt; depth += 1
        if len(seen) > (60000 if job["tier"] == "thorough" else 12000): rec.count("capped"); break
    rec.state(len(seen)); rec.maximum("depth", depth)
    rec.sample({"deepest history": [list(map(str, o)) for o in (list(seen.values())[-1])]})

def hist(job, rec):
    O = ops(); a = job["args"]
    depth = 4 if job["tier"] == "thorough" else 3
    for i, h in enumerate(itertools.product(O, repeat=depth)):
        if i % a["parts"] != a["part"]: continue
        # read everything after every write, or only in the end: reads must not leave anything behind
        for reads in (False, True):
            p, m = fresh()
            for o in h:
                m2 = apply_model(m, o)
                if m2 is None:
                    try: apply_real(p, o); rec.bad("store:delete-of-missing-key", {"history": h})
                    except (KeyError, AttributeError): pass
                    continue
                apply_real(p, o); m = m2; rec.trans()
                if reads: observe(p, m, rec, {"history": h, "reads": reads})
            rec.trace(); rec.state()
            observe(p, m, rec, {"history": h, "reads": reads})
            if reads: observe(p, m, rec, {"history": h, "reads": "twice"})
        rec.outcome("keys=%d" % len(m))
        if rec.nviol > 10: return
