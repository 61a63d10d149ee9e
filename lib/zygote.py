"""Process server: has numpy, sympy, h5py and shenfun imported (MPI not started, nothing of /repo imported) and
forks a fresh process for every job it is sent, which saves each job the seconds these imports take.
   zygote.py SOCKET      serve until the parent goes away
   client: run(SOCKET, jobfile, cwd, log, timeout) -> exit status, or None when stopped at the time limit."""
import os, signal, socket, struct, sys, time

def killtree(pid):
    """Kill a process and all its descendants (mpirun puts its processes in groups of their own)."""
    par = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try: par.setdefault(int(open("/proc/%s/stat" % d).read().rsplit(")", 1)[1].split()[1]), []).append(int(d))
            except (OSError, IndexError, ValueError): pass
    todo = [pid]; all_ = []
    while todo:
        q = todo.pop(); all_.append(q); todo += par.get(q, [])
    for q in all_:
        try: os.kill(q, signal.SIGKILL)
        except OSError: pass
    try: os.killpg(pid, signal.SIGKILL)
    except OSError: pass

def run(path, jobfile, cwd, log, timeout):
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    s.connect(path)
    try:
        s.sendall("\0".join((jobfile, cwd, log)).encode() + b"\n")
        buf = b""
        s.settimeout(60)
        while len(buf) < 4: buf += s.recv(4 - len(buf)) or _gone()
        pid = struct.unpack("i", buf)[0]
        s.settimeout(timeout)
        try:
            buf = b""
            while len(buf) < 4: buf += s.recv(4 - len(buf)) or _gone()
            return struct.unpack("i", buf)[0]
        except socket.timeout:
            killtree(pid)
            return None
    finally: s.close()
def _gone(): raise EOFError("process server gone")

def job(jobfile, cwd, log):
    os.setsid(); os.chdir(cwd)
    f = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(f, 1); os.dup2(f, 2); os.close(f)
    f = os.open(os.devnull, os.O_RDONLY); os.dup2(f, 0); os.close(f)
    sys.argv = ["worker.py", jobfile]
    code = 1
    try:
        from mpi4py import MPI
        MPI.Init_thread(MPI.THREAD_MULTIPLE)
        import worker
        worker.main(jobfile)
        code = 0
    except SystemExit as e: code = e.code if isinstance(e.code, int) else 1
    except BaseException:
        import traceback; traceback.print_exc()
    try:
        import atexit; atexit._run_exitfuncs()
        sys.stdout.flush(); sys.stderr.flush()
        if not MPI.Is_finalized(): MPI.Finalize()
    finally: os._exit(code)

def serve(path):
    import mpi4py; mpi4py.rc.initialize = False
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import numpy, numpy.polynomial, scipy.sparse.linalg, sympy, h5py, mpi4py_fft, shenfun
    parent = os.getppid()
    srv = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    srv.bind(path + ".tmp"); srv.listen(128); os.rename(path + ".tmp", path)
    srv.settimeout(2.0)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    while True:
        try: c, _ = srv.accept()
        except socket.timeout:
            if os.getppid() != parent: return
            continue
        if os.fork():
            c.close(); continue
        # monitor of one job
        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
        srv.close(); c.settimeout(None)
        try:
            msg = b""
            while not msg.endswith(b"\n"): msg += c.recv(4096)
            args = msg[:-1].decode().split("\0")
            pid = os.fork()
            if pid == 0:
                c.close()
                job(*args)
            c.sendall(struct.pack("i", pid))
            _, st = os.waitpid(pid, 0)
            c.sendall(struct.pack("i", os.waitstatus_to_exitcode(st)))
        finally: os._exit(0)

if __name__ == "__main__": serve(sys.argv[1])
