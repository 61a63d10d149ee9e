"""C04: tendency of the velocity-vorticity solver on every basis state and pair of basis states."""
import numpy as np
from per import modes
from props.quad import explore
TECHNIQUE = "exhaustive enumeration of basis states and pairs on the real solver against a dense Galerkin reference"
NOTE = ("Every zero, single, doubled and pair combination of real solenoidal zero-mean basis states of the stated small meshes is run "
        "through ComputeRHS and get_velocity; a quadratic map is determined by these. Assumes the tendency is polynomial of degree two.")
RULE = ("states = distinct vorticity states whose tendency was compared with the dense oracle (zero, basis, pairs, doubled, all); "
        "transitions = ComputeRHS calls")
ASSUMPTIONS = ["the tendency is a polynomial of degree at most two in the state (probed by doubled and full states)",
               "transforms are trusted beyond what the comparison exercises", "for dealias None only fields whose products the mesh resolves"]
BOUNDS = {"quick": "meshes 4x4x8 to 8x8x8, anisotropic domain", "thorough": "adds all axis orders and a 16x8x8 mesh"}
LL = [9.5, 3.0, 7.0]                   # wavenumbers below one as well as above
MS = [(2, 2, 3), (2, 3, 2), (3, 2, 2)]

def jobs(tier):
    out = []
    for mask in (True, False):
        for M in MS:
            if tier != "thorough" and not mask and M != MS[0]: continue
            out.append(dict(name="VV-3_2-%s-%s" % (mask, "".join(map(str, M))), cost=8,
                            args=dict(solver="VV", M=M, L=LL, source=mask and M == MS[1], opt=dict(dealias="3/2-rule", mask_nyquist=mask, nu=0.37))))
        out.append(dict(name="VV-2_3-%s" % mask, cost=5,
                        args=dict(solver="VV", M=(3, 3, 3), L=LL, source=not mask, outer_stride=1 if tier == "thorough" else 23,
                                  inner_stride=1 if tier == "thorough" else 5, opt=dict(dealias="2/3-rule", mask_nyquist=mask, nu=0.37))))
        out.append(dict(name="VV-None-%s" % mask, cost=3,
                        args=dict(solver="VV", M=(3, 3, 3), L=LL, source=mask, opt=dict(dealias="None", mask_nyquist=mask, nu=0.37))))
        if tier == "thorough":
            out.append(dict(name="VV-2_3-wide-%s" % mask, cost=20, timeout=800,
                            args=dict(solver="VV", M=(4, 3, 3), L=LL, outer_stride=40, inner_stride=7,
                                      opt=dict(dealias="2/3-rule", mask_nyquist=mask, nu=0.37))))
    return out

def mk(box, R):
    return [(slice(0, 3), k, a) for k, a in modes(box, R, zero=False)]

def oracle(box, s, R, par):
    w = box.tobox(s)
    u = box.biot(box.cut(w, R))
    return box.curl(-box.advect(u, u)) - 0.37 * box.k2 * w, None

def nprop(sol, c, box, s, got, want, aux, rec, job, ms):
    if rec.stats["states"] % 5 and len(ms) > 1: return
    w = box.tobox(s)
    u = np.array(sol.get_velocity(**c))
    uh = box.tobox(np.fft.rfftn(u, axes=(1, 2, 3)) / u[0].size)
    rec.close(uh, box.biot(w), 2e-12, job["name"] + ":velocity", lambda: {"state": repr(ms)}, metric="velocity")
    rec.check(abs(box.div(uh)).max() <= 1e-11 * max(1, abs(uh).max()), job["name"] + ":velocity-divergence", {"state": repr(ms)})
    q = np.array(sol.get_curl(**c))
    rec.close(box.tobox(np.fft.rfftn(q, axes=(1, 2, 3)) / q[0].size), w, 2e-12, job["name"] + ":vorticity", lambda: {"state": repr(ms)})
    rec.count("velocities")

def run(job, rec):
    explore(job, rec, "triplyperiodic", 3, mk, oracle, nprop)
