"""Shared explorer of one channel step (C16, C17, C18).

One step is a polynomial of degree two (three stages: eight, but with the dense reference evaluated
at the same state) in the velocity and linear in the previous convection and the pressure gradient.
The explorer visits every basis state of the full resolved solenoidal no-slip space, every pair of
basis states of the products' bound, every basis element of the previous convection and of the
pressure gradient, and step histories, and compares the new velocity with the dense reference.
"""
import itertools
import numpy as np
import chan as C
import cnref


class Stepper:
    def __init__(self, a, rec, job):
        self.rec, self.job, self.a = rec, job, a
        self.h = h = C.Channel(a["solver"], a["M"], a["L"], nu=a["nu"], dt=a["dt"], dealias=a["dealias"],
                               Dquad=a["quad"], Bquad=a["quad"], mask_nyquist=a.get("mask", True))
        self.g = h.grid; self.rk = "RK3" in a["solver"]
        self.rng = np.random.default_rng(8)
        self.x, _ = cnref.nodes(self.g.N, a["quad"])
        rec.check(np.max(abs(self.x - self.g.x)) < 1e-13, job["name"] + ":nodes")
        self.refs = {}
    def conv(self, cv):
        self.h.convection(cv)
        if cv not in self.refs: self.refs[cv] = cnref.Ref(self.g, self.a["quad"], self.a["nu"], self.a["dt"], cv, self.a["dealias"])
        self.ref = self.refs[cv]; self.cv = cv
    def poison(self):
        """Content left by earlier computations."""
        c = self.h.c
        for n in ("dU", "H_hat", "H_hat0", "hv", "hg", "h1", "u0_hat", "h0_hat", "w", "w1", "u_dealias", "curl_dealias", "curl_hat"):
            if n in c and isinstance(c[n], np.ndarray):
                v = c[n]
                v[:] = self.rng.uniform(-3, 3, v.shape) if not np.iscomplexobj(v) else self.rng.uniform(-3, 3, v.shape) + 1j*self.rng.uniform(-3, 3, v.shape)
    def source(self, prof):
        """Pressure gradient along the streamwise direction with the given Chebyshev coefficients."""
        c = self.h.c
        from shenfun import Array
        c.Source[:] = 0; c.Sk[:] = 0
        if prof is None: return None
        i = self.h.ax[1]
        arr = Array(c.FST)
        arr[:] = self.h.to_code(np.broadcast_to((self.g.T @ prof)[:, None, None], self.g.phys_shape).copy())
        c.Source[i] = arr
        c.Sk[i] = c.FST.scalar_product(c.Source[i], c.Sk[i])
        s = np.zeros((3, self.g.N)); s[1] = prof
        return s
    def put_H1(self, H1):
        c = self.h.c
        from shenfun import Array
        p = self.h.to_code(self.g.phys(H1))
        arr = Array(c.FST)
        for i in range(3):
            arr[:] = p[i]; c.H_hat1[i] = c.FST.forward(arr, c.H_hat1[i])
    def visit(self, s, H1=None, prof=None, label="", steps=1):
        h, g, c, rec = self.h, self.g, self.h.c, self.rec
        p = h.params; p.t = 0.; p.tstep = 0
        self.poison()
        h.put_velocity(g.phys(s))
        src = self.source(prof)
        if not self.rk:
            c.U_hat0[:] = c.U_hat
            if H1 is None: H1 = np.zeros_like(s); c.H_hat1[:] = 0
            else: self.put_H1(H1)
        cur = s
        for n in range(steps):
            Hn = self.ref.H(cur)
            if self.rk: want = self.ref.rk3(cur, src)
            else: want = self.ref.ab2(cur, Hn, H1, src)
            h.step()
            v = h.velocity()
            got = g.spec(v)
            rec.state(); rec.trans(); rec.trace()
            sc = max(1.0, float(abs(want).max()))
            key = "%s:%s" % (self.job["name"], self.cv)
            det = lambda: {"state": label, "step": n}
            ok = rec.close(got, want, 2e-11, key + ":step", det, scale=sc, metric="step")
            if not ok: return False
            rec.check(abs(g.div(got)).max() < 1e-10*sc, key + ":divergence", det)
            wall = np.einsum("ia,cabd->cibd", np.stack([np.ones(g.N), (-1.0)**np.arange(g.N)]), got)
            rec.check(abs(wall).max() < 1e-11*sc, key + ":walls", det)
            if "g" in c:
                i, j = h.ax[1], h.ax[2]
                gw = 1j*c.K[i]*c.U_hat[j] - 1j*c.K[j]*c.U_hat[i]
                inner = self.inner_mask(gw.shape)
                rec.close(np.where(inner, np.asarray(c.g), 0), np.where(inner, np.asarray(gw), 0), 1e-10, key + ":vorticity", det, scale=max(1.0, abs(gw).max()))
            if self.a.get("mask", True):
                F = np.fft.fftn(v, axes=(2, 3))/(g.Ny*g.Nz)
                rec.check(max(abs(F[:, :, g.Ny//2]).max(), abs(F[:, :, :, g.Nz//2]).max()) < 1e-11*sc, key + ":nyquist", det)
            cur, H1 = want, Hn
        return True
    def inner_mask(self, shape):
        m = np.ones(shape, bool); rev = self.h.rev
        a, b = (0, 1) if rev else (1, 2)
        sl = [slice(None)]*3; sl[a] = shape[a]//2; m[tuple(sl)] = False
        sl = [slice(None)]*3; sl[b] = shape[b]-1; m[tuple(sl)] = False
        if rev: m[0, 0] = False
        else: m[:, 0, 0] = False
        return m


def explore(job, rec):
    a = job["args"]; st = Stepper(a, rec, job); g = st.g
    part = a["part"]
    for cv in a["convs"]:
        st.conv(cv)
        if part == "basis":
            full = g.basis(ry=a.get("ry"), rz=a.get("rz"))
            for lab, s in full:
                st.visit(s, label=lab)
                if rec.nviol > 15: return
            rec.count("basis_states", len(full))
            st.visit(np.zeros_like(full[0][1]), label="zero")
            for seed in range(4): st.visit(0.5*g.generic(seed, None, a.get("ry"), a.get("rz")), label="generic %d" % seed)
            rec.sample({"config": {k: a[k] for k in ("solver", "quad", "dealias", "M")}, "convection": cv, "basis_states": len(full), "first": str(full[0][0]), "last": str(full[-1][0])})
        elif part == "pairs":
            du, dg, dm = a["degs"]
            inner = g.basis(du, dg, dm, a.get("ry"), a.get("rz"))
            n = 0
            sh, nsh = a.get("shard", (0, 1))
            for q, ((l1, s1), (l2, s2)) in enumerate(itertools.combinations(inner, 2)):
                if q % nsh != sh: continue
                st.visit(s1 + s2, label=(l1, l2)); n += 1
                if rec.nviol > 15: return
            rec.count("pairs", n)
            if a.get("outer"):
                out = [(l, s) for l, s in g.basis(du[:1], dg[:1], dm[:1]) if l[0] != "mean" and (abs(l[1][0]) > a["ry"] or abs(l[1][1]) > a["rz"])]
                rest = sum(s*np.random.default_rng(1).uniform(.5, 1) for _, s in out)
                for l, s in out: st.visit(s, label=("cut off", l))
                for l, s in inner: st.visit(s + rest, label=("inner with all cut off", l))
                rec.count("cut_off_states", len(out))
            rec.sample({"config": {k: a[k] for k in ("solver", "quad", "dealias", "M")}, "convection": cv, "pairs": n, "example": str([l for l, _ in inner[:2]])})
        elif part == "linear":
            base = 0.3*g.generic(5, 5, a.get("ry"), a.get("rz"))
            n = 0
            if not st.rk:
                BD = g.basis_D()
                for k in g.half:
                    for comp in range(3):
                        for d in range(BD.shape[1]):
                            for ph in ((1.0,) if k == (0, 0) else (1.0, 1j)):
                                H1 = np.zeros_like(base); g.put(H1[comp], k, ph*BD[:, d])
                                st.visit(base if d % 3 == 0 else np.zeros_like(base), H1=H1, label=("previous convection", k, comp, d, ph)); n += 1
                    if rec.nviol > 15: return
            for d in range(g.N-2):
                pr = np.zeros(g.N); pr[d] = 0.7
                st.visit(np.zeros_like(base), prof=pr, label=("pressure gradient", d)); st.visit(base, prof=pr, label=("pressure gradient with flow", d)); n += 2
            rec.count("linear_inputs", n)
            rec.sample({"config": {k: a[k] for k in ("solver", "quad", "dealias", "M")}, "linear inputs": n})
        elif part == "history":
            pr = np.zeros(g.N); pr[0] = -0.4
            for seed in range(a.get("seeds", 4)):
                for prof in (None, pr):
                    H1 = None
                    if not st.rk: H1 = st.ref.H(0.3*g.generic(50+seed, 6, a.get("ry"), a.get("rz")))
                    st.visit(0.3*g.generic(seed, 6, a.get("ry"), a.get("rz")), H1=H1, prof=prof, label=("history", seed, prof is not None), steps=a.get("steps", 5))
            rec.sample({"config": {k: a[k] for k in ("solver", "quad", "dealias", "M")}, "histories": 2*a.get("seeds", 4), "steps": a.get("steps", 5)})


CV = ("Standard", "Divergence", "Skew", "Vortex")

def make_jobs(solvers, tier):
    th = tier == "thorough"
    out = []
    L1 = (2.0, 2*np.pi, np.pi); L2 = (2.0, 3.0, 5.0)
    slow = {"Coupled": 8, "CoupledRK3": 25, "KMMRK3": 4, "KMM": 1.5, "KMMr": 1.5}
    cvc = {"Standard": 4, "Divergence": 1.5, "Skew": 5, "Vortex": 1}
    def add(name, cost, **a):
        out.append(dict(name=name, args=a, cost=cost, timeout=850))
    for s in solvers:
        for q in ("GC", "GL"):
            b = dict(solver=s, quad=q, dealias="3/2-rule", M=[4, 2, 2], L=L1, nu=0.05, dt=0.02, ry=1, rz=1)
            for cv in CV:
                add("basis-%s-%s-%s" % (s, q, cv), slow[s]*cvc[cv], part="basis", convs=[cv], **b)
                big = s.startswith("Coupled") or cv in ("Standard", "Skew")
                if th: degs = ([0, 1, 2], [0, 1, 2, 3], [0, 1, 2, 3]); nsh = 4 if big else 2
                elif s == "CoupledRK3": degs = ([0], [0, 1], [0]) if cv in ("Standard", "Skew") else ([0], [0, 1], [0, 1]); nsh = 2
                else: degs = ([0, 1], [0, 1], [0, 1, 2]) if not (big or s == "KMMRK3") else ([0], [0, 1], [0, 1]); nsh = 1
                if not th and s == "CoupledRK3" and q == "GL" and cv != "Vortex": continue
                for sh in range(nsh):
                    add("pairs-%s-%s-%s-%d" % (s, q, cv, sh), slow[s]*cvc[cv]*2, part="pairs", convs=[cv], degs=degs, shard=(sh, nsh), **b)
            add("linear-%s-%s" % (s, q), slow[s]*2, part="linear", convs=["Vortex"], **dict(b, L=L2, nu=0.02, dt=0.005))
            add("history-%s-%s" % (s, q), slow[s]*2, part="history", convs=list(CV), **dict(b, L=L2, nu=0.02, dt=0.05, seeds=4 if th else 2, steps=6 if th else 4))
        c2 = CV if th else (("Vortex", "Divergence") if not s.startswith("Coupled") else ("Vortex",))
        for cv in c2:
            deg = ([0, 1], [0, 1], [0, 1]) if th else ([0], [0], [0])
            rk = "RK3" in s
            # Later stages are of full degree: the 2/3-rule cuts high wall normal modes too, which must be empty
            two = dict(b, quad="GC", dealias="2/3-rule", M=[5, 3, 3], nu=2.0, dt=1.0, L=L2) if rk else dict(b, quad="GC", dealias="2/3-rule", M=[4, 3, 3], L=L2)
            add("twothirds-%s-%s" % (s, cv), slow[s]*cvc[cv]*6, part="pairs", convs=[cv], degs=deg, outer=1, **two)
            # without dealiasing three stages reach four times the wavenumber: one long direction
            non = dict(b, quad="GL", dealias="None", M=[4, 4, 2], ry=1, rz=0, L=L2, mask=False) if rk else dict(b, quad="GL", dealias="None", M=[4, 3, 3], L=L2, mask=False)
            add("nodealias-%s-%s" % (s, cv), slow[s]*cvc[cv]*3, part="pairs", convs=[cv], degs=([0, 1], [0, 1], [0, 1]) if rk else deg, **non)
    return out
