"""C05: tendency of the MHD solver on every basis state and pair of basis states."""
import numpy as np
from per import modes
from props.quad import explore
TECHNIQUE = "exhaustive enumeration of basis states and pairs on the real solver against a dense Galerkin reference"
NOTE = ("Every zero, single, doubled and pair combination of real solenoidal velocity and magnetic basis states of the stated small meshes "
        "is run through ComputeRHS; a quadratic map is determined by these. Assumes the tendency is polynomial of degree two.")
RULE = ("states = distinct (u, b) states whose tendency was compared with the dense oracle (zero, basis, pairs, doubled, all); "
        "transitions = ComputeRHS calls")
ASSUMPTIONS = ["the tendency is a polynomial of degree at most two in the state (probed by doubled and full states)",
               "transforms are trusted beyond what the comparison exercises", "for dealias None only fields whose products the mesh resolves"]
BOUNDS = {"quick": "meshes 4x4x4 (3/2-rule, pairs) to 8x8x8 (2/3-rule, None), anisotropic domain", "thorough": "adds 4x4x8 in all axis orders"}
LL = [9.5, 3.0, 7.0]                   # wavenumbers below one as well as above
NU, ETA = 0.37, 0.83

def jobs(tier):
    out = []
    for mask in (True, False):
        Ms = [(2, 2, 2)] + ([(2, 2, 3)] if mask else [])
        if tier == "thorough": Ms = [(2, 2, 2), (2, 2, 3), (2, 3, 2), (3, 2, 2)]
        for M, sh in [(M, (i, 6)) for M in Ms if sum(M) > 6 for i in range(6)] + [(M, (0, 1)) for M in Ms if sum(M) == 6]:
            out.append(dict(name="MHD-3_2-%s-%s-%d" % (mask, "".join(map(str, M)), sh[0]), cost=5 if sum(M) == 6 else 6, timeout=800,
                            args=dict(shard=sh, solver="MHD", M=M, L=LL, opt=dict(dealias="3/2-rule", convection="Divergence", mask_nyquist=mask, nu=NU, eta=ETA))))
        out.append(dict(name="MHD-2_3-%s" % mask, cost=10, timeout=800,
                        args=dict(solver="MHD", M=(3, 3, 3), L=LL, outer_stride=5 if tier == "thorough" else 43,
                                  inner_stride=1 if tier == "thorough" else 11, opt=dict(dealias="2/3-rule", convection="Divergence", mask_nyquist=mask, nu=NU, eta=ETA))))
        out.append(dict(name="MHD-None-%s" % mask, cost=10,
                        args=dict(solver="MHD", M=(3, 3, 3), L=LL, opt=dict(dealias="None", convection="Divergence", mask_nyquist=mask, nu=NU, eta=ETA))))
    return out

def mk(box, R):
    return [(slice(b, b + 3), k, a) for k, a in modes(box, R) for b in (0, 3)]

def oracle(box, s, R, par):
    q = box.tobox(s)
    r = box.cut(q, R)
    u, b = r[:3], r[3:]
    ru = box.leray(box.advect(b, b) - box.advect(u, u)) - NU * box.k2 * q[:3]
    rb = box.curl(box.cross(u, b)) - ETA * box.k2 * q[3:]
    return np.concatenate([ru, rb]), None

def run(job, rec):
    explore(job, rec, "triplyperiodic", 6, mk, oracle)
