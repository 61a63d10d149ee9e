"""C06: tendencies of the 2D Navier-Stokes and Boussinesq solvers on every basis state and pair."""
import numpy as np
from per import modes, scalar_modes
from props.quad import explore
TECHNIQUE = "exhaustive enumeration of basis states and pairs on the real solver against a dense Galerkin reference"
NOTE = ("Every zero, single, doubled and pair combination of real solenoidal velocity (and density) basis states of the stated small meshes "
        "is run through ComputeRHS; a quadratic map is determined by these. Assumes the tendency is polynomial of degree two.")
RULE = ("states = distinct states whose tendency was compared with the dense oracle (zero, basis, pairs, doubled, all); "
        "transitions = ComputeRHS calls")
ASSUMPTIONS = ["the tendency is a polynomial of degree at most two in the state (probed by doubled and full states)",
               "transforms are trusted beyond what the comparison exercises", "for dealias None only fields whose products the mesh resolves"]
BOUNDS = {"quick": "meshes 8x8, 4x16, 16x4 (3/2), 16x16 (2/3, None), anisotropic domain", "thorough": "16x16 everywhere and 32x16 for the 2/3-rule"}
LL = [9.5, 8.2]
NU, RI, PR = 0.37, 0.6, 1.7

def jobs(tier):
    out = []
    th = tier == "thorough"
    for sv in ("NS2D", "Bq2D"):
        for mask in (True, False):
            o = dict(mask_nyquist=mask, nu=NU)
            if sv == "Bq2D": o.update(Ri=RI, Pr=PR)
            for M in [(3, 3), (2, 4), (4, 2)] + ([(4, 4)] if th else []):
                out.append(dict(name="%s-3_2-%s-%d%d" % (sv, mask, *M), cost=8 if M == (4, 4) else 2, timeout=800,
                                args=dict(solver=sv, M=M, L=LL, source=mask and M == (3, 3), opt=dict(o, dealias="3/2-rule"))))
            out.append(dict(name="%s-2_3-%s" % (sv, mask), cost=4, timeout=800,
                            args=dict(solver=sv, M=(4, 4), L=LL, source=not mask, outer_stride=1 if th else 3,
                                      inner_stride=1 if th else 3, opt=dict(o, dealias="2/3-rule"))))
            if th:
                out.append(dict(name="%s-2_3-wide-%s" % (sv, mask), cost=8, timeout=800,
                                args=dict(solver=sv, M=(5, 4), L=LL, outer_stride=9, inner_stride=3, opt=dict(o, dealias="2/3-rule"))))
            out.append(dict(name="%s-None-%s" % (sv, mask), cost=3,
                            args=dict(solver=sv, M=(4, 3), L=LL, opt=dict(o, dealias="None"))))
    return out

def mkv(box, R):
    return [(slice(0, 2), k, a) for k, a in modes(box, R)]
def mkb(box, R):
    return mkv(box, R) + [(slice(2, 3), k, a) for k, a in scalar_modes(box, R)]

def ons(box, s, R, par):
    u = box.tobox(s); ur = box.cut(u, R)
    adv = box.advect(ur, ur)
    return box.leray(-adv) - NU * box.k2 * u, -adv

def obq(box, s, R, par):
    q = box.tobox(s); r = box.cut(q, R)
    u, rho = r[:2], r[2]
    adv = box.advect(u, u)
    f = -adv
    f[1] = f[1] - RI * q[2]
    ru = box.leray(f) - NU * box.k2 * q[:2]
    rr = -box.advect(u, rho) - NU / PR * box.k2 * q[2]
    return np.concatenate([ru, rr[None]]), None

def run(job, rec):
    if job["args"]["solver"] == "NS2D":
        explore(job, rec, "doublyperiodic", 2, mkv, ons, None)
    else:
        explore(job, rec, "doublyperiodic", 3, mkb, obq, None)
