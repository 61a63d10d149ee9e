"""C17: semi-implicit Runge-Kutta channel step against a dense Galerkin reference."""
from props import chq
TECHNIQUE = "exhaustive enumeration of basis states, pairs, pressure gradients and step histories of the real solvers against a dense Galerkin reference"
NOTE = ("Each stage is quadratic in the velocity; all basis states (full wall-normal degree, all Fourier modes) and all pairs within the product "
        "bound are stepped through all three stages; the reference solves each Fourier mode with dense quadrature matrices in polynomial spaces and shares nothing with the code.")
RULE = "states = distinct (configuration, state, source) stepped; transitions = steps; traces = real steps compared with the reference"
ASSUMPTIONS = ["each stage is polynomial of degree two in the velocity", "streamwise pressure gradient only (as the solvers offer)"]
BOUNDS = {"quick": "16x4x4 (3/2-rule, GC and GL, all degrees singly, low degrees in pairs), 16x8x8 (2/3-rule, none); histories of 4 steps",
          "thorough": "pairs up to wall-normal degree 4 for all convection forms; histories of 6 steps"}
def jobs(tier): return chq.make_jobs(("KMMRK3", "CoupledRK3"), tier)
def run(job, rec): chq.explore(job, rec)
