"""C22: the stand-alone C++ and compact Python solvers against a model of the flow and the main solver."""
import ast, itertools, json, os, re, subprocess, sys
import numpy as np
import sim
TECHNIQUE = "exhaustive enumeration of meshes, process counts, viscosities, time steps and run lengths of the real programs, compared step by step with a model of the flow that is validated against the main solver"
NOTE = ("The model (numpy only) advances the Taylor-Green flow with the same scheme; it is bound to the main solver by equal energies on every mesh and viscosity, and both stand-alone programs are run in every "
        "configuration within the bounds and must agree with it to rounding.")
RULE = "states = energies or fields compared; transitions = time steps of the stand-alone programs; traces = program runs compared with the model"
ASSUMPTIONS = ["the compact solvers cut the nonlinear term at |k| < 2/3 (N/2+1)"]
BOUNDS = {"quick": "C++: 2^3, 2^4, 2^5 points per direction on 1-8 processes; compact Python: 8 and 16 points, 4 parameter sets, Taylor-Green and generic initial velocity, 1-4 steps, 1, 2, 4 (8) processes, and the program as it is on 1, 2 and 4",
          "thorough": "C++ up to 2^6; compact Python up to 32 points and 6 steps"}

def jobs(tier):
    th = tier == "thorough"; out = []
    for M in (3, 4, 5) + ((6,) if th else ()):
        out.append(dict(name="cpp-%d" % M, func="cpp", args=dict(M=M), slots=3, cost=10-M, timeout=800))
        for wave in (2, 3, 5):
            if 2*wave < 2**M and (M < 5 or th): out.append(dict(name="cpp-%d-wave%d" % (M, wave), func="cpp", args=dict(M=M, wave=wave), slots=3, cost=10-M, timeout=800))
    for N in (8, 16) + ((32,) if th else ()):
        for np_ in (1, 2, 4, 8)[:4 if N == 8 or th else 3]:
            out.append(dict(name="compact-%d-np%d" % (N, np_), func="compact", np=np_ if np_ > 1 else 0, args=dict(N=N), cost=4, timeout=800))
    for np_ in (1, 2, 4):
        out.append(dict(name="program-np%d" % np_, func="program", args=dict(np=np_), slots=np_, cost=9, timeout=800))
    out.append(dict(name="model", func="model_conformance", args={}, cost=5, timeout=600))
    return out

class Flow:
    """Taylor-Green flow: Fourier-Galerkin with the nonlinear term cut at kmax, classical Runge-Kutta."""
    def __init__(self, N, nu, dt, start=None, sin=np.sin, cos=np.cos):
        self.N, self.nu, self.dt = N, nu, dt
        x = 2*np.pi*np.arange(N)/N
        X = np.meshgrid(x, x, x, indexing="ij")
        u = np.array([sin(X[0])*cos(X[1])*cos(X[2]), -cos(X[0])*sin(X[1])*cos(X[2]), 0*X[0]]) if start is None else start
        self.u = np.fft.fftn(u, axes=(1, 2, 3))/N**3
        k = np.fft.fftfreq(N, 1./N)
        self.K = np.array(np.meshgrid(k, k, k, indexing="ij")); self.k2 = (self.K**2).sum(0); self.k2i = np.where(self.k2 == 0, 1, self.k2)
        self.cut = np.all(abs(self.K) < 2./3.*(N//2+1), axis=0)
    def phys(self, s): return np.fft.ifftn(s*self.N**3, axes=(1, 2, 3)).real
    def rhs(self, u):
        w = 1j*np.cross(self.K, u, axis=0)
        n = np.fft.fftn(np.cross(self.phys(u), self.phys(w), axis=0), axes=(1, 2, 3))/self.N**3*self.cut
        n = n - self.K*(self.K*n).sum(0)/self.k2i
        return n - self.nu*self.k2*u
    def energy(self, u): return 0.5*(self.phys(u)**2).sum()/self.N**3
    def step(self):
        """Advance one step; the energy at its end."""
        dt = self.dt; k1 = self.rhs(self.u); k2 = self.rhs(self.u+dt/2*k1); k3 = self.rhs(self.u+dt/2*k2)
        k4 = self.rhs(self.u+dt*k3)
        self.u = self.u + dt/6*(k1+2*k2+2*k3+k4)
        return self.energy(self.u)

# The programs only know one initial velocity, made of sines and cosines; with other functions in their place it has generic modes
def gsin(x): return SIN(x) + 0.3*SIN(2*x+0.4) + 0.2*COS(3*x+1.1)
def gcos(x): return COS(x) + 0.6*COS(2*x+0.4) - 0.6*SIN(3*x+1.1)        # its derivative: the velocity is solenoidal
SIN, COS = np.sin, np.cos
# The C++ program reports energies only and may have any two directions in the first place: waves of another length, phase and size
HEADER = """#include <cmath>
#include <complex>
#include <vector>
#include <iostream>
#include <fstream>
static inline double vfy_sin(double x) { return 1.3*std::sin(%d*x+0.4); }
static inline double vfy_cos(double x) { return 1.3*std::cos(%d*x+0.4); }
namespace std { using ::vfy_sin; using ::vfy_cos; }
#define sin vfy_sin
#define cos vfy_cos
"""

def model_conformance(job, rec):
    for M, nu in itertools.product((4, 5), (0.000625, 0.02)):
        f = Flow(2**M, nu, 0.01)
        s = sim.Sim("NS", M=[M]*3, L=[2*np.pi]*3, nu=nu, dt=0.01, dealias="3/2-rule", integrator="RK4")
        X = np.meshgrid(*s.grid(), indexing="ij")
        s.start({"U": np.array([np.sin(X[0])*np.cos(X[1])*np.cos(X[2]), -np.cos(X[0])*np.sin(X[1])*np.cos(X[2]), 0*X[0]])})
        for n in range(10):
            s.step(); e = f.step()
            rec.state(); rec.trans()
            rec.close(0.5*(s.fields()["U"]**2).sum()/X[0].size, e, 1e-9, job["name"] + ":model-vs-NS", dict(M=M, nu=nu, step=n+1), metric="model vs NS")
        rec.trace()

def env():
    return dict(sim.plain_env(), OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMP_NUM_THREADS="1")

def cpp(job, rec):
    M = job["args"]["M"]; src = "/repo/cpp"
    b = os.path.abspath("build"); os.makedirs(b, exist_ok=True)
    e = dict(env(), FFTW3_INSTALL_DIR="/usr")
    generic = job["args"].get("wave", 0); flags = ""
    if generic:
        open(os.path.join(b, "generic.h"), "w").write(HEADER % (generic, generic))
        flags = "-DCMAKE_CXX_FLAGS='-include %s/generic.h'" % b
    log = subprocess.run("cmake %s -S %s -B . && make" % (flags, src), shell=True, cwd=b, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if generic and log.returncode != 0:
        rec.count("initial_velocity_not_replaceable"); return
    if not rec.check(log.returncode == 0, job["name"] + ":build", log.stdout.decode(errors="replace")[-1500:]): return
    exe = os.path.join(b, "spectralDNS")
    N = 2**M; f = Flow(N, 0.000625, 0.01, sin=lambda x: 1.3*SIN(generic*x+0.4), cos=lambda x: 1.3*COS(generic*x+0.4)) if generic else Flow(N, 0.000625, 0.01)
    en = [f.step() for _ in range(10)]
    want = [en[i] for i in (1, 3, 5, 7, 9, 9)]
    for n in range(1, 9):
        code, out = prun(["mpirun", "--oversubscribe", "-np", str(n), exe, str(M)], 400, cwd=b, env=e)
        rec.check(code == 0, job["name"] + ":exit", dict(np=n, tail=out[-500:]))
        k = [float(x) for x in re.findall(r"^\s*k\s*=\s*(\S+)", out, re.M)]
        rec.trace(); rec.trans(10)
        if not rec.check(len(k) == 6, job["name"] + ":reports", dict(np=n, got=k)): continue
        for i, (g, w) in enumerate(zip(k, want)):
            rec.state(); d = abs(g-w)
            rec.maximum("cpp vs model" + (" (generic)" if generic else ""), d)
            rec.check(d < 1e-13, job["name"] + ":energy", dict(np=n, report=i, got=g, model=w))
    rec.sample({"N": N, "processes": "1-8"})

def prun(cmd, timeout, **kw):
    """Exit status and output; every process of a run that does not end is stopped."""
    import tempfile, zygote
    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, start_new_session=True, **kw)
        try: code = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired: zygote.killtree(p.pid); p.wait(); code = "no end within %d s" % timeout
        f.seek(0); return code, f.read().decode(errors="replace")

class Values(ast.NodeTransformer):
    """Other values for the parameters at the head of the program."""
    def __init__(self, new): self.new = new; self.seen = set()
    def visit_Assign(self, node):
        t = node.targets[0]
        if len(node.targets) == 1 and isinstance(t, ast.Name) and t.id in self.new and t.id not in self.seen:
            self.seen.add(t.id)
            node.value = ast.copy_location(ast.Constant(self.new[t.id]), node.value)
        return node

def execute(new, generic=False):
    src = open("/repo/spectralDNS3D_short.py").read()
    tree = ast.parse(src); v = Values(new); tree = ast.fix_missing_locations(v.visit(tree))
    if v.seen != set(new): return None
    ns = {"__name__": "__main__", "__file__": "spectralDNS3D_short.py"}
    old = sys.stdout; sys.stdout = open(os.devnull, "w")
    try:
        if generic: np.sin, np.cos = gsin, gcos
        try: exec(compile(tree, "spectralDNS3D_short.py", "exec"), ns)
        except AssertionError: pass            # its own check holds for its own parameters only
    finally:
        sys.stdout = old; np.sin, np.cos = SIN, COS
    return ns

def compact(job, rec):
    N = job["args"]["N"]; comm = sim._comm(); th = job["tier"] == "thorough"
    for generic, (nu, dt) in itertools.product((False, True), ((0.000625, 0.01), (0.02, 0.01), (0.000625, 0.05), (0.05, 0.03))):
        start = None
        if generic:         # the velocity it starts from is the one it has when it takes no step
            ns = execute(dict(N=N, nu=nu, dt=dt, T=0.0), True)
            if ns is None or np.ndim(ns.get("U")) != 4: rec.count("initial_velocity_not_replaceable"); return
            start = np.concatenate(comm.allgather(np.array(ns["U"])), axis=1)
        f = Flow(N, nu, dt, start)
        for steps in range(1, 7 if th else 5):
            e = f.step()
            ns = execute(dict(N=N, nu=nu, dt=dt, T=steps*dt), generic)
            rec.state(); rec.trans(steps)
            if ns is None: rec.count("parameters_not_at_the_head_of_the_program"); return
            det = dict(nu=nu, dt=dt, steps=steps, generic=generic)
            if comm.Get_rank() == 0 and "k" in ns:
                rec.close(ns["k"], e, 1e-12, job["name"] + ":energy", det, metric="compact energy")
            if "U" in ns and np.ndim(ns["U"]) == 4:
                parts = comm.allgather(np.array(ns["U"]))
                u = np.concatenate(parts, axis=1)
                rec.close(u, f.phys(f.u), 1e-11, job["name"] + ":velocity", det, metric="compact velocity")
            rec.trace()

def program(job, rec):
    """As it is: its own assertion on the energy is the oracle."""
    n = job["args"]["np"]
    cmd = [sys.executable, "-B", "/repo/spectralDNS3D_short.py"]
    code, out = prun((["mpirun", "--oversubscribe", "-np", str(n)] if n > 1 else []) + cmd, 700, env=env())
    rec.state(); rec.trans(10); rec.trace()
    rec.check(code == 0 and "Time" in out, job["name"] + ":exit", out[-800:])
