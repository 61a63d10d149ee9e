"""C03: tendency of the 3D Navier-Stokes solver on every basis state and pair of basis states."""
import numpy as np
from per import modes, Box
from props.quad import explore
TECHNIQUE = "exhaustive enumeration of basis states and pairs on the real solver against a dense Galerkin reference"
NOTE = ("Every zero, single, doubled and pair combination of real solenoidal basis states of the stated small meshes is run through "
        "ComputeRHS (and get_pressure); a quadratic map is determined by these. Assumes the tendency is polynomial of degree two.")
RULE = ("states = distinct spectral states whose tendency was compared with the dense oracle: zero, every real "
        "solenoidal basis state, every pair of them, doubled ones and one exciting all; transitions = ComputeRHS calls")
ASSUMPTIONS = ["the tendency is a polynomial of degree at most two in the state (probed by doubled and full states)",
               "shenfun/mpi4py-fft transforms are trusted beyond what the comparison itself exercises",
               "for dealias None only fields whose products the mesh resolves"]
BOUNDS = {"quick": "meshes 4x4x8..8x8x8 anisotropic domains", "thorough": "adds 8x4x8, 16^3-reach singles, all Nyquist settings"}
LL = [9.5, 3.0, 7.0]                   # wavenumbers below one as well as above
CONV = ["Vortex", "Standard", "Divergence", "Skewed"]
MS = [(2, 2, 3), (2, 3, 2), (3, 2, 2)]

def jobs(tier):
    out = []
    for i, cv in enumerate(CONV):
        for mask in (True, False):
            full = mask or tier == "thorough"
            for j, M in enumerate(MS if tier == "thorough" else [MS[(i + (0 if mask else 1)) % 3]]):
                if not full: M = (2, 2, 2)
                out.append(dict(name="NS-%s-3_2-%s-%s" % (cv, mask, "".join(map(str, M))), cost=8 if full else 2,
                            args=dict(solver="NS", M=M, L=LL, opt=dict(dealias="3/2-rule", convection=cv, mask_nyquist=mask, nu=0.37))))
            out.append(dict(name="NS-%s-2_3-%s" % (cv, mask), cost=5,
                            args=dict(solver="NS", M=(3, 3, 3), L=LL, source=not mask, outer_stride=1 if tier == "thorough" else 23,
                                      inner_stride=1 if tier == "thorough" else 5,
                                      opt=dict(dealias="2/3-rule", convection=cv, mask_nyquist=mask, nu=0.37))))
            out.append(dict(name="NS-%s-None-%s" % (cv, mask), cost=3,
                            args=dict(solver="NS", M=(3, 3, 3), L=LL, source=mask,
                                      opt=dict(dealias="None", convection=cv, mask_nyquist=mask, nu=0.37))))
            if tier == "thorough":
                out.append(dict(name="NS-%s-2_3-wide-%s" % (cv, mask), cost=20, timeout=800,
                            args=dict(solver="NS", M=(4, 3, 3), L=LL, outer_stride=40, inner_stride=7,
                                      opt=dict(dealias="2/3-rule", convection=cv, mask_nyquist=mask, nu=0.37))))
    return out

def mk(box, R):
    return [(slice(0, 3), k, a) for k, a in modes(box, R)]

def oracle(box, s, R, par):
    u = box.tobox(s)
    ur = box.cut(u, R)
    adv = -box.advect(ur, ur)
    rate = box.leray(adv) - 0.37 * box.k2 * u
    return rate, adv

def nprop(sol, c, box, s, got, want, adv, rec, job, ms):
    """Energy neutrality of the nonlinear part and the pressure of this evaluation."""
    u = box.tobox(s)
    src = box.tobox(np.asarray(c.Source))
    non = box.tobox(got) + 0.37 * box.k2 * u - src
    if len(ms) == 0 or all(max(abs(v) for v in m[1]) <= 1 for m in ms):
        work = float(np.real(np.sum(np.conj(u) * non)))
        rec.check(abs(work) < 1e-9 * max(1.0, float(np.sum(abs(u) ** 2)) ** 1.5), job["name"] + ":energy", {"work": work, "state": repr(ms)})
    if rec.stats["states"] % 7 == 0:
        p = np.array(sol.get_pressure(**c))
        ph = box.tobox(np.fft.rfftn(p) / p.size)
        # p_hat = i kap.adv_conservative/k2; rotational form carries the Bernoulli pressure
        want_p = -1j * (box.kap * adv).sum(0) / box.k2i
        if sol.params.convection == "Vortex":
            up = box.phys(box.cut(u, job_reach(job)))
            want_p = want_p + box.spec(0.5 * (up * up).sum(0))
        want_p[box.iz] = 0; ph[box.iz] = 0
        rec.close(ph, want_p, 2e-11, job["name"] + ":pressure", lambda: {"state": repr(ms)}, metric="pressure")
        rec.count("pressures")

def job_reach(job):
    from per import nonlinear_reach
    return nonlinear_reach([2 ** m for m in job["args"]["M"]], job["args"]["opt"]["dealias"])

def run(job, rec):
    explore(job, rec, "triplyperiodic", 3, mk, oracle, nprop)
