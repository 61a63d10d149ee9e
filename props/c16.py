"""C16: Crank-Nicolson/Adams-Bashforth channel step against a dense Galerkin reference."""
from props import chq
TECHNIQUE = "exhaustive enumeration of basis states, pairs, previous convections, pressure gradients and step histories of the real solvers against a dense Galerkin reference"
NOTE = ("The step is quadratic in the velocity and linear in everything else, so all basis states (full wall-normal degree, all Fourier modes) and all pairs within the product "
        "bound decide it for the mesh; the reference solves each Fourier mode with dense quadrature matrices in polynomial spaces and shares nothing with the code.")
RULE = "states = distinct (configuration, state, previous convection, source) stepped; transitions = steps; traces = real steps compared with the reference"
ASSUMPTIONS = ["one step is polynomial of degree two in the velocity", "streamwise pressure gradient only (as the solvers offer)"]
BOUNDS = {"quick": "16x4x4 (3/2-rule, GC and GL, all degrees singly, low degrees in pairs), 16x8x8 (2/3-rule, none); histories of 4 steps",
          "thorough": "pairs up to wall-normal degree 4 for all convection forms; histories of 6 steps"}
def jobs(tier): return chq.make_jobs(("KMM", "KMMr", "Coupled"), tier)
def run(job, rec): chq.explore(job, rec)
