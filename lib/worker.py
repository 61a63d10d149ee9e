"""Runs one job (see main.py) in this process; writes the result file."""
import importlib, json, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.dirname(HERE))
def quicken():
    """Remember a constant of shenfun's function spaces that it derives anew (symbolically) tens of thousands of times."""
    from shenfun import spectralbase as sb
    plain = sb.SpectralBase.domain_factor
    known = {}
    def domain_factor(self):
        key = (type(self), self.domain)
        try: return known[key]
        except KeyError: pass
        except TypeError: return plain(self)
        known[key] = v = plain(self)
        return v
    sb.SpectralBase.domain_factor = domain_factor
    # and the factorised mass matrices of shenfun.project, which it assembles for every call
    from shenfun import la
    from shenfun.forms import project as pr      # the function
    import sys
    pr = sys.modules["shenfun.forms.project"]
    from shenfun.forms.arguments import TestFunction, TrialFunction
    inner, generic = pr.inner, la.SolverGeneric1ND
    def mass(v, u, *a, **k):
        if a or k or not (type(v) is TestFunction and type(u) is TrialFunction): return inner(v, u, *a, **k)
        T = v.function_space()
        if u.function_space() is not T: return inner(v, u)
        B = T.__dict__.get("_vfy_mass")
        if B is None:
            B = inner(v, u)
            B = [b.get_simplified() for b in B] if isinstance(B, list) else B.get_simplified() if hasattr(B, "get_simplified") else B
            for b in B if isinstance(B, list) else [B]: b._vfy_keep = True
            T._vfy_mass = B
        return B
    def solver(mats):
        if len(mats) != 1 or not getattr(mats[0], "_vfy_keep", False): return generic(mats)
        m = mats[0]
        if getattr(m, "_vfy_solver", None) is None: m._vfy_solver = generic(mats)
        return m._vfy_solver
    pr.inner = mass
    la.SolverGeneric1ND = solver
def main(path):
    job = json.load(open(path))
    from rec import Rec
    rec = Rec()
    rank, size = 0, 1
    if job.get("np"):
        from mpi4py import MPI
        rank, size = MPI.COMM_WORLD.Get_rank(), MPI.COMM_WORLD.Get_size()
    failed = False
    try:
        quicken()
        mod = importlib.import_module(job["module"])
        getattr(mod, job["func"])(job, rec)
    except BaseException as e:
        failed = True
        tb = traceback.format_exc()
        sys.stderr.write(tb)
        rec.bad("%s:exception" % job["name"], {"type": type(e).__name__, "traceback": tb[-1800:]})
    if size > 1:
        if failed or rec.nviol: # other ranks may wait in a collective: report from here and stop everything
            with open(job["result"] + ".tmp%d" % rank, "w") as f: json.dump(rec.result(), f, default=str)
            os.replace(job["result"] + ".tmp%d" % rank, job["result"])
            from mpi4py import MPI
            MPI.COMM_WORLD.Abort(1)
        from mpi4py import MPI
        allv = MPI.COMM_WORLD.gather(rec.violations, root=0)
        if rank == 0:
            rec.violations = [v for vs in allv for v in vs][:40]
    if rank == 0:
        with open(job["result"] + ".tmp", "w") as f: json.dump(rec.result(), f, default=str)
        os.replace(job["result"] + ".tmp", job["result"])
if __name__ == "__main__": main(sys.argv[1])
