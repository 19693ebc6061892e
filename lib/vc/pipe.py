"""Runs the vc_mesh program on decks, in scratch folders, with time and memory limits; parses its files."""
import hashlib, resource, subprocess, json, time, os, shutil
from concurrent.futures import ThreadPoolExecutor
from .common import *


class Run:
    """One execution: the folder holds every input and output file."""

    def __init__(self, d, rc, log, wall):
        self.d, self.rc, self.log, self.wall = d, rc, log, wall

    def path(self, n):
        return os.path.join(self.d, n)

    def has(self, n):
        return os.path.exists(self.path(n))


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_deck(b, files, timeout=240, keep=None, argv=None, omp=None, cache=True, env=None):
    """files: name -> text, must hold vc.in unless argv is given. Results are kept per build and input."""
    h = hashlib.sha1(json.dumps([sorted(files.items()), argv, omp, env]).encode()).hexdigest()[:16]
    root = os.path.join(BUILD, "runs-" + b.key)
    d = keep or os.path.join(root, h)
    if cache and not keep and os.path.exists(os.path.join(d, ".rc")):
        m = json.load(open(os.path.join(d, ".rc")))
        return Run(d, m["rc"], open(os.path.join(d, ".log"), errors="replace").read(), m["wall"])
    os.makedirs(d, exist_ok=True)
    for n, t in files.items():
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    e = dict(os.environ, OMP_WAIT_POLICY="passive")
    if omp:
        e.update(omp)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run([b.exe] + (argv if argv is not None else ["-vc", "vc.in"]), cwd=d, env=e, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=_limits)
        rc, log = p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        rc, log = "timeout", (x.stdout or b"").decode(errors="replace")
    w = time.time() - t0
    open(os.path.join(d, ".log"), "w").write(log)
    json.dump(dict(rc=rc, wall=w), open(os.path.join(d, ".rc"), "w"))
    return Run(d, rc, log, w)


def deck(opts, mesh=("m.obj",)):
    L = ["INPUT_MESH_FILE = %s" % m for m in mesh]
    for k, v in opts:
        L.append("%s = %s" % (k, v) if v is not None else k)
    return "\n".join(L) + "\n"


def prune(b):
    """keep the outputs of the current build only"""
    for n in os.listdir(BUILD):
        if n.startswith("runs-") and n != "runs-" + b.key:
            shutil.rmtree(os.path.join(BUILD, n), ignore_errors=True)


def many(b, decks, width=NCPU, timeout=150):
    """decks: list of files dicts -> list of Run; after two runs that did not end, the remaining ones are None"""
    hung = []

    def one(f):
        if len(hung) > 1:
            return None
        r = run_deck(b, f, timeout=timeout if not hung else timeout / 4)
        if r.rc == "timeout":
            hung.append(1)
        return r
    with ThreadPoolExecutor(width) as ex:
        return list(ex.map(one, decks))


def csv(path):
    """rows of numbers after the header line"""
    rows = []
    with open(path) as f:
        f.readline()
        for l in f:
            t = l.strip()
            if t:
                rows.append([float(x) for x in t.split(",") if x.strip() != ""])
    return rows


def vcg(path):
    """-> declared cells, rows, declared connections, rows"""
    cells, conns, nc, nk, mode = [], [], None, None, None
    with open(path) as f:
        for l in f:
            t = l.split()
            if not t:
                continue
            if t[0] == "CELLS":
                nc, mode = int(t[1]), "c"
            elif t[0] == "CONNECTIONS":
                nk, mode = int(t[1]), "k"
            elif mode == "c":
                cells.append((int(t[0]), float(t[1]), float(t[2]), float(t[3]), float(t[4]), int(t[5])))
            else:
                conns.append((int(t[0]), int(t[1])) + tuple(float(x) for x in t[2:9]))
    return nc, cells, nk, conns


def obj(path):
    v, f = [], []
    for l in open(path):
        t = l.split()
        if t[:1] == ["v"]:
            v.append(tuple(float(x) for x in t[1:4]))
        elif t[:1] == ["f"]:
            f.append(tuple(int(x.split("/")[0]) - 1 for x in t[1:]))
    return v, f
