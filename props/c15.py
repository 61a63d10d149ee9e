"""C15: the channel volume integral of every basis field, on every quadrature, axis, size and decomposition."""
import itertools
import numpy as np
TECHNIQUE = "exhaustive enumeration of basis fields (the integral is linear), quadratures, axes, sizes and process layouts through the real reduction, against exact integrals"
NOTE = ("The integral is linear, so its values on all products of a Chebyshev polynomial and resolved Fourier modes decide it on every resolved field of the meshes listed; process "
        "layouts are enumerated with real MPI runs. Rounding and the additivity used by linearity are checked on dense fields.")
RULE = "states = distinct (family, quadrature, axis, size, layout, basis field); transitions = integrals taken; traces = integrals compared with the exact value"
ASSUMPTIONS = ["fields of one mesh; the parameters L and N describe the mesh, as when it is made by a solver"]
BOUNDS = {"quick": "wall-normal sizes 8-16 (even and odd) and 3, 5, 24; cross meshes 4x6 and 5x4; processes 1, 2, 3, 4; slab and pencil",
          "thorough": "wall-normal sizes 3-34"}
FAM = (("C", "GC"), ("C", "GL"), ("L", "LG"), ("L", "GL"))

def jobs(tier):
    out = []
    sizes = list(range(3, 35)) if tier == "thorough" else [3, 5, 24] + list(range(8, 17))
    for q, (fam, quad) in enumerate(FAM):
        out.append(dict(name="%s-%s-serial" % (fam, quad), args=dict(fam=fam, quad=quad, sizes=sizes, axes=[0, 1, 2]), cost=8, timeout=800))
        for np_ in (2, 3, 4):
            out.append(dict(name="%s-%s-np%d" % (fam, quad, np_), np=np_, args=dict(fam=fam, quad=quad, sizes=[12, 16] if tier == "quick" else [9, 12, 16, 17], axes=[0, 1, 2]), cost=4, timeout=800))
    for np_ in (0, 2): out.append(dict(name="mixed-np%d" % np_, func="mixed", np=np_, args=dict(), cost=3, timeout=400))
    for s in ("KMM", "KMMr", "KMMRK3", "Coupled", "CoupledRK3", "KMM_RB", "KMMRK3_RB"):
        for quad in ("GC", "GL"):
            for np_ in (0, 2):
                out.append(dict(name="%s-%s-np%d" % (s, quad, np_), func="solver", np=np_, args=dict(solver=s, quad=quad), cost=4, timeout=400))
    return out

def exact_poly(k): return 0.0 if k % 2 else 2.0/(1 - k*k)

def fields(x, axis, X, L, N, nmax):
    """(label, real field, exact integral): T_k(x) times cos/sin of resolved modes of the other directions."""
    o = [a for a in range(3) if a != axis]
    T = lambda k: np.polynomial.chebyshev.chebval(X[axis], [0]*k + [1])
    modes = []
    for a in o:
        kk = 2*np.pi/L[a]
        m = [((a, 0, "c"), 1.0 + 0*X[a], L[a])]
        for n in range(1, N[a]):
            if 2*n <= N[a]: m.append(((a, n, "c"), np.cos(n*kk*X[a]), 0.0))
            if 2*n < N[a]: m.append(((a, n, "s"), np.sin(n*kk*X[a]), 0.0))
        modes.append(m)
    for k in range(nmax):
        t = T(k)
        for (l1, f1, e1), (l2, f2, e2) in itertools.product(*modes):
            yield (k, l1, l2), t*f1*f2, exact_poly(k)*e1*e2

def integrate_all(rec, job, space, Xs, axis, L, N, nmax, key, det):
    from spectralDNS.utilities import dx
    rank = space.comm.Get_rank()
    dense = None; total = 0.0; want_total = 0.0
    for i, (lab, f, ex) in enumerate(fields(None, axis, Xs, L, N, nmax)):
        f = np.ascontiguousarray(f); keep = f.copy()
        got = dx(f, space, axis)
        rec.state(); rec.trans()
        rec.check(np.array_equal(f, keep), key + ":argument-changed", dict(det, field=lab))
        if rank == 0:
            rec.trace()
            rec.close(got, ex, 1e-12, key, dict(det, field=lab), scale=max(1., L[0]*L[1]*L[2]), metric="integral")
        c = np.cos(1.7*i + 0.3)
        dense = c*f if dense is None else dense + c*f
        want_total += c*ex
        if rec.nviol > 10: return
    got = dx(dense, space, axis)
    if rank == 0: rec.close(got, want_total, 1e-11, key + ":dense", det, scale=max(1., L[0]*L[1]*L[2])*10)

def run(job, rec):
    from mpi4py import MPI
    from shenfun import FunctionSpace, TensorProductSpace
    from spectralDNS import config
    a = job["args"]; comm = MPI.COMM_WORLD; size = comm.Get_size()
    for n, axis, cross, (slab, bc) in itertools.product(a["sizes"], a["axes"], ((4, 6), (5, 4)), ((True, True), (True, False), (False, True))):
        if n in (3, 5) and bc: continue
        if not slab and size == 1: continue
        N = list(cross); N.insert(axis, n); Ls = [3.7, 2*np.pi]; Ls.insert(axis, 2.0)
        if size > 1 and min(N) < size: continue
        sp = []; last = 2 if axis != 2 else 1
        for q in range(3):
            if q == axis: sp.append(FunctionSpace(n, a["fam"], quad=a["quad"], **(dict(bc=(0, 0)) if bc else {})))
            else: sp.append(FunctionSpace(N[q], "F", domain=(0, Ls[q]), dtype="d" if q == last else "D"))
        axes = tuple([axis] + [q for q in range(3) if q != axis]) if axis else (0, 1, 2)
        try: T = TensorProductSpace(comm, tuple(sp), slab=slab, axes=axes)
        except Exception as e: rec.count("layouts_refused_by_shenfun"); continue
        config.params.update(dict(N=N, L=Ls))
        Xs = [np.asarray(x, float) for x in T.local_mesh(True)]
        if any(0 in x.shape for x in Xs): continue
        integrate_all(rec, job, T, Xs, axis, Ls, N, n, "%s:axis%d" % (job["name"], axis), {"N": N, "slab": slab, "bc": bc})
        rec.count("layouts")
        if rec.nviol > 10: return
    rec.sample({"family": a["fam"], "quad": a["quad"], "sizes": a["sizes"], "processes": size})

def solver(job, rec):
    """The integral with the spaces that the solvers make, as their users call it."""
    from spectralDNS import config, get_solver
    a = job["args"]; rev = a["solver"] == "KMMr"; axis = 2 if rev else 0
    M = ["2", "3", "4"] if rev else ["4", "3", "2"]
    L = ["5", "2*pi", "2"] if rev else ["2", "5", "2*pi"]
    sol = get_solver(mesh="channel", parse_args=["--M"] + M + ["--L"] + L + ["--Dquad", a["quad"], "--Bquad", a["quad"], "--no-verbose", a["solver"]])
    config.params.kappa = 0.1
    c = sol.get_context()
    N = [2**int(m) for m in M]; Ls = [5, 2*np.pi, 2.0] if rev else [2.0, 5, 2*np.pi]
    Xs = [np.asarray(x, float) for x in c.X]
    for name in ("FST", "FSB", "FCT"):
        if name in c: integrate_all(rec, job, c[name], Xs, axis, Ls, N, N[axis], "%s:%s" % (job["name"], name), {})

def mixed(job, rec):
    """All ordered pairs of spaces of one size in one process: the integral over the second does not depend on the first."""
    from mpi4py import MPI
    from shenfun import FunctionSpace, TensorProductSpace
    from spectralDNS import config
    from spectralDNS.utilities import dx
    comm = MPI.COMM_WORLD; n = 8; sp = {}
    lens = ([2.0, 3.7, 2*np.pi], [2.0, 5.0, 1.0])
    for (fam, quad), axis, (iL, slab), bc in itertools.product(FAM, (0, 2), ((0, True), (1, True), (1, False)), (True, False)):
        if not slab and comm.Get_size() == 1: continue
        L = list(lens[iL]); N = [n, 4, 6]
        if axis == 2: L, N = L[1:] + L[:1], N[1:] + N[:1]
        f = []; last = 2 if axis != 2 else 1
        for q in range(3):
            if q == axis: f.append(FunctionSpace(n, fam, quad=quad, **(dict(bc=(0, 0)) if bc else {})))
            else: f.append(FunctionSpace(N[q], "F", domain=(0, L[q]), dtype="d" if q == last else "D"))
        try: T = TensorProductSpace(comm, tuple(f), slab=slab, axes=tuple([axis] + [q for q in range(3) if q != axis]))
        except Exception: continue
        X = [np.asarray(x, float) for x in T.local_mesh(True)]
        if any(comm.allgather(any(0 in x.shape for x in X))): continue
        u = np.ascontiguousarray(X[axis]**4 + X[axis] + 0*X[0] + 0*X[1] + 0*X[2])
        sp[(fam, quad, axis, iL, slab, bc)] = (T, u, N, L, 0.4*L[0]*L[1]*L[2]/2)
    for a, b in itertools.product(sp, sp):
        for key in (a, b):
            T, u, N, L, want = sp[key]
            config.params.update(dict(N=N, L=L))
            got = dx(u, T, key[2])
            rec.state(); rec.trans()
            if comm.Get_rank() == 0:
                rec.trace(); rec.close(got, want, 1e-12, "%s:%s" % (job["name"], "-".join(map(str, key))), {"before": a, "N": N}, scale=10., metric="integral")
        if comm.bcast(rec.nviol, 0) > 10: return
    rec.sample({"spaces": len(sp)})
