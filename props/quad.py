"""Shared explorer for quadratic tendencies (C03-C06).

The tendency of a periodic solver is a polynomial of degree two in the spectral state.  Such a map
is determined by its values at 0, at all basis states and at all sums of two basis states; the
explorer visits all of these (plus doubled basis states and one state exciting everything, which
would expose a term of another degree) and compares the computed rate of change with the oracle in
every state.
"""
import itertools
import numpy as np
from per import setup, Box, nonlinear_reach


def explore(job, rec, mesh, ncomp, make_modes, oracle, nprop=None):
    a = job["args"]
    solver, M, L = a["solver"], a["M"], a["L"]
    config, sol, c = setup(solver, mesh, M, L, **a["opt"])
    N = [2 ** m for m in M]
    box = Box(N, L)
    dealias = a["opt"].get("dealias", "2/3-rule")
    mask = a["opt"].get("mask_nyquist", True)
    R = nonlinear_reach(N, dealias)
    inner = make_modes(box, R)
    outer = []
    if dealias == "2/3-rule":      # resolved but cut off: diffusion only
        outer = [m for m in make_modes(box, box.R) if any(abs(v) > r for v, r in zip(m[1], R))]
    u = c.u
    rhs = c.dU
    src = None
    par = sol.params
    if "Source" in c and a.get("source"):
        src = np.zeros(u.shape, complex)
        g = np.random.default_rng(5)
        for k in box.half:
            amp = g.standard_normal(ncomp) + (1j * g.standard_normal(ncomp) if any(k) else 0)
            box.put(src, k, amp)
        c.Source[:] = src
        srcbox = box.tobox(src)
    nyq = [np.zeros(u.shape[1:], bool)]
    for ax, n in enumerate(N):
        sl = [slice(None)] * len(N); sl[ax] = n // 2
        nyq[0][tuple(sl)] = True
    nyq = nyq[0]
    tol = 2e-11

    def state(ms):
        s = np.zeros(u.shape, complex)
        for (comp, k, amp) in ms: box.put(s[comp], k, amp)
        return s

    def visit(ms, label, nonlin=None):
        s = state(ms)
        u[:] = s
        rhs[:] = 7.25           # stale data must not matter
        out = sol.ComputeRHS(rhs, u, sol, **c)
        got = np.array(out)
        rec.state(); rec.trans(); rec.trace()
        want, aux = oracle(box, s, R, par)
        if src is not None: want = want + srcbox
        sc = max(1.0, float(abs(want).max()))
        ok = rec.close(box.tobox(got), want, tol, "%s:%s" % (job["name"], "tendency"),
                       lambda: {"state": repr(ms), "label": label}, scale=sc, metric="tendency")
        if not np.array_equal(np.asarray(u), s):
            rec.bad("%s:state-changed" % job["name"], {"state": repr(ms)})
        if mask and src is None and ok:
            rec.check(abs(got[..., nyq]).max() <= 1e-12 * sc, "%s:nyquist" % job["name"], {"state": repr(ms)})
        if nprop: nprop(sol, c, box, s, got, want, aux, rec, job, ms)
        rec.outcome("zero" if abs(want).max() < 1e-14 else "nonzero")
        return ok

    if a.get("nyquist") and not mask: pass
    pairs = 0
    sh, nsh = a.get("shard", (0, 1))
    if sh == 0:
        visit([], "zero")
        for i, m in enumerate(inner):
            visit([m], "single")
            if rec.nviol > 30: return
        for m in inner: visit([m, m], "double")
        for m in outer: visit([m], "outer")
    for i, (m, n) in enumerate(itertools.combinations(inner, 2)):
        if i % nsh != sh: continue
        visit([m, n], "pair"); pairs += 1
        if rec.nviol > 30: return
    step = a.get("outer_stride", 1)
    if sh: outer = []
    for m in outer[::step]:
        for n in inner[:: a.get("inner_stride", 1)]:
            visit([m, n], "outer-inner"); pairs += 1
        if rec.nviol > 30: return
    g = np.random.default_rng(11)
    if outer:      # every basis state against a generic combination of everything that is cut off
        rest = [(cmp_, k, amp * g.standard_normal()) for cmp_, k, amp in outer]
        visit(rest, "all-outer")
        for m in inner: visit([m] + rest, "inner-all-outer")
    if sh == 0: visit([(cmp_, k, amp * g.standard_normal()) for cmp_, k, amp in inner + outer], "all")
    if sh == 0: rec.count("basis_states", len(inner) + len(outer))
    rec.count("pairs", pairs)
    rec.sample({"config": a, "basis": len(inner), "cut_off_basis": len(outer), "pairs": pairs,
                "example_pair": repr(inner[:2])})
