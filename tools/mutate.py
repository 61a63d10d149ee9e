"""mutate.py FILE... [--per N] [--seed S] [--cores C] [--par P]: mutate one place of a source file at a time (in private copies of /repo and
/verif, user and mount namespace), run the checks that FILE concerns until one reports it, and print the mutants nobody reports."""
import ast, argparse, json, os, random, shutil, subprocess, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "spectralDNS/"
CHECKS = {S+"solvers/NS.py": "C03 C24 C09 C20 C21 C11", S+"solvers/VV.py": "C04 C24 C20 C11 C21", S+"solvers/MHD.py": "C05 C24 C20 C11", S+"solvers/NS2D.py": "C06 C20 C24", S+"solvers/Bq2D.py": "C06 C24 C20 C11",
          S+"solvers/spectralinit.py": "C03 C09 C23", S+"maths/integrators.py": "C07 C08 C21", S+"maths/cross.py": "C03 C13 C04", S+"maths/maths.py": "C24", S+"__init__.py": "C09 C02 C25 C23 C11 C21 C20",
          S+"config.py": "C01 C02", S+"h5io/HDF5File.py": "C11 C10", S+"solvers/KMM.py": "C16 C18 C20 C19 C24", S+"solvers/KMMr.py": "C16 C18 C20", S+"solvers/KMMRK3.py": "C17 C20 C24", S+"solvers/Coupled.py": "C16 C20 C24 C11",
          S+"solvers/CoupledRK3.py": "C17 C20 C24", S+"solvers/KMM_RB.py": "C19 C20 C11", S+"solvers/KMMRK3_RB.py": "C19 C20 C11", S+"utilities/__init__.py": "C15 C23", S+"optimization/cython_maths.in": "C13", S+"optimization/cython_solvers.in": "C13",
          S+"optimization/cython_integrators.in": "C13 C07", S+"optimization/numba_module.py": "C13", S+"optimization/pythran_maths.py": "C13", S+"optimization/pythran_module.py": "C13", S+"optimization/__init__.py": "C13",
          S+"utilities/create_profile.py": "C25", S+"shen/Matrices.py": "C14", S+"shen/LUsolve.pyx": "C14", "cpp/spectralDNS.cpp": "C22", "spectralDNS3D_short.py": "C22",
          "demo/MKM.py": "C26", "demo/RayleighBenard.py": "C26", "demo/Isotropic.py": "C26", "demo/LaminarChannel.py": "C26", "demo/TG.py": "C26", "demo/OrrSommerfeld.py": "C26"}
def mutants(path):
    src = open("/repo/" + path).read(); lines = src.split("\n"); out = []
    tree = ast.parse(src); off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    def span(n): return off[n.lineno-1]+n.col_offset, off[n.end_lineno-1]+n.end_col_offset
    def put(n, new, what): s, e = span(n); out.append((n.lineno, what, (b[:s] + new.encode() + b[e:]).decode()))
    def seg(n): s, e = span(n); return b[s:e].decode()
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Module, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant): docs.add(n.body[0].value)
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp):
            o = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}.get(type(n.op))
            if o: put(n, "(%s) %s (%s)" % (seg(n.left), o, seg(n.right)), "op " + o)
        elif isinstance(n, ast.Constant) and n not in docs:
            if isinstance(n.value, bool): put(n, str(not n.value), "flip")
            elif isinstance(n.value, int): put(n, str(n.value + 1), "const+1")
            elif isinstance(n.value, float): put(n, repr(n.value*1.5 + (n.value == 0)), "const*1.5")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant): put(n, "(" + seg(n.operand) + ")", "neg")
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}.get(type(n.ops[0]))
            if o: put(n, "%s %s %s" % (seg(n.left), o, seg(n.comparators[0])), "cmp " + o)
        elif isinstance(n, ast.AugAssign):
            o = {ast.Add: "-=", ast.Sub: "+=", ast.Mult: "/=", ast.Div: "*="}.get(type(n.op))
            if o: put(n, "%s %s %s" % (seg(n.target), o, seg(n.value)), "aug " + o)
            put(n, "pass", "delete")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript): put(n, "pass", "delete")
        elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.targets[0], ast.Name) and any(isinstance(x, ast.Name) and x.id == n.targets[0].id for x in n.value.args): put(n, "pass", "delete")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call): put(n, "pass", "delete")
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords and isinstance(n.func, (ast.Name, ast.Attribute)):
            a = n.args; put(n, "%s(%s)" % (seg(n.func), ", ".join([seg(a[1]), seg(a[0])] + [seg(x) for x in a[2:]])), "swap args")
    good = []
    for l, w, t in out:
        try: compile(t, path, "exec"); good.append((l, w, t))
        except SyntaxError: pass
    return good
def text_mutants(path):
    import re
    src = open("/repo/" + path).read(); out = []
    for m in re.finditer(r"(?<=[\w\])])\s*([+\-*/])\s*(?=[\w(])|\[(\d)[,\]]", src):
        ln = src.count("\n", 0, m.start()) + 1
        if src.split("\n")[ln-1].lstrip().startswith(("#", "cdef", "cimport")): continue
        if m.group(1):
            r = {"+": "-", "-": "+", "*": "+", "/": "*"}[m.group(1)]; t = src[:m.start(1)] + r + src[m.end(1):]; w = m.group(1) + "->" + r
        else:
            r = {"0": "1", "1": "0", "2": "1"}.get(m.group(2))
            if r is None: continue
            t = src[:m.start(2)] + r + src[m.end(2):]; w = "[%s->%s" % (m.group(2), r)
        out.append((ln, w, t))
    return out
def run(path, mut, cores):
    ln, what, text = mut
    w = tempfile.mkdtemp(prefix="mu_", dir="/tmp"); line = text.split("\n")[ln-1].strip()
    r = dict(file=path, line=ln, what=what, now=line, was=open("/repo/" + path).read().split("\n")[ln-1].strip())
    try:
        subprocess.check_call(["cp", "-a", "/repo", w + "/repo"]); subprocess.check_call(["cp", "-a", V, w + "/verif"])
        open(w + "/repo/" + path, "w").write(text)
        for c in CHECKS[path].split():
            p = subprocess.Popen(["unshare", "-Urm", "bash", "-c", "mkdir -p %s/tmp; mount --bind %s/repo /repo && mount --bind %s/verif /verif && export TMPDIR=%s/tmp VERIF_FAILFAST=1 VERIF_CORES=%d && cd /verif && timeout 1500 ./check %s quick" % (w, w, w, w, cores, c)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = p.communicate()[0].decode(errors="replace")
            r[c] = p.returncode
            if p.returncode: r["killed"] = c; r["line_out"] = [l for l in o.splitlines() if "VIOLATION" in l or "detail" in l][:1] or o[-300:]; break
        else: r["killed"] = None
    finally: shutil.rmtree(w, ignore_errors=True)
    return r
if __name__ == "__main__":
    ap = argparse.ArgumentParser(); ap.add_argument("files", nargs="+"); ap.add_argument("--per", type=int, default=12); ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--cores", type=int, default=2); ap.add_argument("--par", type=int, default=4); a = ap.parse_args()
    work = []
    for f in a.files:
        f = f if os.path.exists("/repo/" + f) else S + f
        ms = mutants(f) if f.endswith(".py") else text_mutants(f)
        random.Random(a.seed).shuffle(ms); work += [(f, m) for m in ms[:a.per]]
    n = k = 0
    with cf.ThreadPoolExecutor(a.par) as ex:
        for r in ex.map(lambda x: run(x[0], x[1], a.cores), work):
            n += 1; k += bool(r["killed"])
            print(("killed by %s" % r["killed"]) if r["killed"] else "SURVIVED", r["file"], r["line"], r["what"], "|", r["was"], "=>", r["now"]); 
            import sys; sys.stdout.flush()
    print("%d mutants, %d killed" % (n, k))
