"""V12: model files (specs/ObjModel.tla, ObjWeld.tla, ObjTrace.tla)."""
import os, random, subprocess, math, itertools, signal, threading
from concurrent.futures import ThreadPoolExecutor
from ..common import *
from ..build import build
from .. import tlc
from .. import models as M
from ..validate import validate

U = 1e-9                    # the offset unit; the welding distance is 10 of it


def offsets(rng, n, kind, used):
    """offsets of the vertices of one place: tight clusters, far pairs or chains; never exactly at the distance"""
    out = []
    while len(out) < n:
        if kind == "tight":
            o = [rng.randint(-2, 2) for _ in range(3)]
        elif kind == "far":
            o = [rng.randint(-40, 40) for _ in range(3)]
        elif kind == "edge":            # just inside and just outside
            o = rng.choice([[0, 0, 0], [9, 0, 0], [0, -9, 0], [11, 0, 0], [0, 0, 11], [6, 7, 0], [-7, 7, 3], [5, 5, 7], [6, 6, -6]])
        else:
            o = [rng.choice([-15, -8, 0, 8, 15]) + rng.randint(-1, 1) for _ in range(3)]
        if all(sum((a - b) ** 2 for a, b in zip(o, x)) != 100 for x in used):
            out.append(o)
            used.append(o)
    return out


class World:
    def __init__(self, rng, scale=1.0, places=6):
        self.s, self.g = scale, rng.choice([0.25, math.pi / 11, 0.1, 1 / 3])
        ks = set()
        while len(ks) < places:
            ks.add(tuple(rng.randint(-30, 30) for _ in range(3)))
        self.b = sorted(ks)
        rng.shuffle(self.b)
        self.used = {}
        self.at = {k: i + 1 for i, k in enumerate(self.b)}

    def x(self, p):
        return [self.b[p[0] - 1][d] * self.g * self.s + p[1 + d] * U * self.s for d in range(3)]

    def dev(self, x, y):
        """the largest relative difference, in 1e-16"""
        m = 0
        for a, b in zip(x, y):
            for c, e in zip(a, b):
                if c != e:
                    r = abs(c - e) / max(abs(c), abs(e), 1e-300) * 1e16
                    m = max(m, int(min(r, 1e6)) if r == r else 10 ** 6)
        return m

    def q(self, x):
        if not all(abs(a) < 1e30 for a in x):
            return [-1, 0, 0, 0]
        k = tuple(round(a / self.s / self.g) for a in x)
        return [self.at.get(k, -1)] + [max(-10 ** 4, min(10 ** 4, round((a / self.s - self.g * b) / U))) for a, b in zip(x, k)]


def num(rng, v, plain):
    """a spelling of v"""
    s = "%.17g" % v
    if plain:
        return s
    r = rng.random()
    if r < 0.25:
        s = "%.16e" % v
    elif r < 0.4:
        s = ("%.16E" % v)
    elif r < 0.55 and v > 0:
        s = "+" + s
    elif r < 0.7 and abs(v) < 1 and s.startswith(("0.", "-0.")):
        s = s.replace("0.", ".", 1)
    elif r < 0.8 and "." not in s and "e" not in s:
        s += "."
    elif r < 0.9 and "e" not in s:
        s += "000" if "." in s else ".000"
    return s


def text(rng, recs, w, style, noise, crlf):
    o = []
    sep = lambda: rng.choice([" ", "  ", "\t"]) if noise else " "
    for r in recs:
        if r["k"] == "v":
            l = "v" + sep() + sep().join(num(rng, a, not noise) for a in w.x(r["p"]))
            if noise and rng.random() < 0.1:
                l += rng.choice([" 1.0", " 0.5 0.5 0.5"])
        elif r["k"] == "f":
            t = []
            for i in r["r"]:
                st = rng.choice("abcd") if style == "mix" else style
                t.append({"a": "%d", "b": "%d/7", "c": "%d//3", "d": "%d/7/3"}[st] % i)
            l = "f" + sep() + sep().join(t)
        else:
            l = rng.choice(["", "# a comment", "#f 1 2 3", "vn 0 0 1", "vt 0.5 0.5", "vp 1 2", "o part", "g group f", "s off", "s 1", "usemtl m", "mtllib v.mtl", "   ", "# v 1 2 3", "fo 1", "l 1 2"])
        if noise and rng.random() < 0.1:
            l = "  " + l
        if noise and rng.random() < 0.1:
            l += "  "
        o.append(l + ("\r\n" if crlf else "\n"))
    t = "".join(o)
    if noise and rng.random() < 0.2:
        t = t.rstrip("\r\n")
    return t


def soup(rng, w, nv, nt, kind):
    pts = []
    for c in rng.sample(range(1, len(w.b) + 1), min(len(w.b), max(1, nv // rng.choice([1, 2, 3])))):
        pts += [[c] + o for o in offsets(rng, 1 if kind == "one" else rng.randint(1, 3), kind if kind != "one" else "tight", w.used.setdefault(c, []))]
    if kind == "one":
        for p in pts:
            p[1:] = [0, 0, 0]
    rng.shuffle(pts)
    pts = pts[:nv] if len(pts) >= 3 else pts + [[c, 0, 0, 0] for c in range(1, 4) if c not in [p[0] for p in pts]]
    if len(pts) < 3:
        pts = [[c, 0, 0, 0] for c in (1, 2, 3)]
    F = [rng.sample(range(1, len(pts) + 1), 3) for _ in range(nt)]
    if F and rng.random() < 0.3:
        F.append(list(rng.choice(F)))
    if F and rng.random() < 0.2:
        F.append(list(rng.choice(F))[::-1])
    return pts, F


def records(rng, pts, F, noise, inter):
    V, T = [dict(k="v", p=p) for p in pts], [dict(k="f", r=f) for f in F]
    if inter:                   # triangles after the vertices they need, among the others
        out, t = [], list(T)
        for i, v in enumerate(V):
            out.append(v)
            rdy = [x for x in t if max(x["r"]) <= i + 1]
            # keep the order of the triangles
            while t and max(t[0]["r"]) <= i + 1 and rng.random() < 0.5:
                out.append(t.pop(0))
        out += t
    else:
        out = V + T
    if noise:
        for _ in range(rng.randint(1, 8)):
            out.insert(rng.randint(0, len(out)), dict(k="x"))
    return out


def parse_out(line, w, one=1):
    t = line.split()
    n, m = int(t[0]), int(t[1])
    x = [float(a) for a in t[2:2 + 3 * n]]
    f = [int(a) for a in t[2 + 3 * n:]]
    X = [x[3 * i:3 * i + 3] for i in range(n)]
    return [w.q(a) for a in X], [[min(a + one, 10 ** 8) for a in f[3 * i:3 * i + 3]] for i in range(m)], X


def parse_file(path, w):
    v, f, X = [], [], []
    for l in open(path):
        t = l.split()
        if t[:1] == ["v"]:
            X.append([float(a) for a in t[1:4]])
            v.append(w.q(X[-1]))
        elif t[:1] == ["f"]:
            f.append([int(a) for a in t[1:4]])
    return v, f, X


def scenario(b, d, i, seed, big):
    """-> (job, text of the inputs, trouble)"""
    rng = random.Random(seed)
    dd = os.path.join(d, "s%d" % i)
    os.makedirs(dd)
    scale = rng.choice([1.0] * 6 + [100.0, 1e4, 0.1])
    kind = rng.choice(["one", "one", "tight", "tight", "edge", "far", "chain"]) if scale == 1.0 else "one"
    size = rng.choice([3, 6, 12, 12, 40, 120] + ([400] if big or i % 12 == 0 else []))
    w = World(rng, scale, max(4, size))
    nfile = rng.choice([1, 1, 2, 3])
    files, texts, names = [], [], []
    for k in range(nfile):
        pts, F = soup(rng, w, size, rng.randint(0 if nfile == 1 else 1, 2 * size), kind)
        noise = rng.random() < 0.6
        recs = records(rng, pts, F, noise, rng.random() < 0.4)
        files.append(recs)
        n = rng.choice(["m%d.obj", "part_%d.OBJ", "a%d"]) % k
        names.append(n)
        texts.append(text(rng, recs, w, rng.choice(["a", "a", "b", "c", "d", "mix"]), noise, rng.random() < 0.2))
        open(os.path.join(dd, n), "w", newline="").write(texts[-1])
    rec = [[r if r["k"] != "x" else dict(k="x") for r in f] for f in files]
    cmds, want = [], []
    for k, n in enumerate(names):
        cmds += ["R " + n, "S s%d.obj" % k]
    P = [r["p"] for r in files[0] if r["k"] == "v"]
    F = [r["r"] for r in files[0] if r["k"] == "f"]
    H = 10 * U
    if scale == 1.0:
        cmds += ["W %.17g %d %s %d %s" % (H, len(P), " ".join("%.17g" % a for p in P for a in w.x(p)), len(F), " ".join(str(a - 1) for f in F for a in f)), "S w.obj"]
    try:
        p = subprocess.run([b.drv("drv_obj"), "out.txt"], input="\n".join(cmds).encode() + b"\n", cwd=dd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "a time-out"
    lines = [l for l in open(os.path.join(dd, "out.txt")).read().split("\n") if l] if os.path.exists(os.path.join(dd, "out.txt")) else []
    src = "\n".join("== %s\n%s" % a for a in zip(names, texts))
    if rc != 0 or len(lines) != len(cmds):
        return None, src, "reading or saving a model ended with %s" % rc
    ev = []
    for k in range(0, len(cmds), 2):
        q, g, X = parse_out(lines[k], w)
        ev.append(dict(e="load", files=[rec[k // 2 if k // 2 < nfile else 0]], q=q, g=g, dev=w.dev(X, [w.x(p) if 0 < p[0] else [0, 0, 0] for p in q])))
        for a in (parse_out(lines[k + 1], w), parse_file(os.path.join(dd, cmds[k + 1].split()[1]), w)):
            ev.append(dict(e="save", p=q, f=g, q=a[0], g=a[1], dev=w.dev(X, a[2])))
    if nfile > 1 and i % 3 == 0:
        out, trouble = combine(b, dd, names, w)
        if trouble:
            return None, src, trouble
        ev.append(dict(e="load", files=[[dict(k="v", p=p) for p in e["q"]] + [dict(k="f", r=f) for f in e["g"]] for e in ev[:3 * nfile:3]], q=out[0], g=out[1], dev=w.dev(out[2], [w.x(p) if 0 < p[0] else [0, 0, 0] for p in out[0]])))    # of the models as read (judged above)
    shutil.rmtree(dd, ignore_errors=True)
    return dict(ev=ev), src, None


def combine(b, dd, names, w):
    """what the program combines; it is stopped once the last file has been read and the combination written"""
    open(os.path.join(dd, "vc.in"), "w").write("".join("INPUT_MESH_FILE = %s\n" % n for n in names) + "R_MAX = 1e9\n")
    p = subprocess.Popen([b.exe, "-vc", "vc.in"], cwd=dd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True)
    t = threading.Timer(30, p.kill)
    t.start()
    seen = 0
    try:
        for l in p.stdout:
            if seen >= len(names):
                break
            if b"Number of Input mesh faces" in l:
                seen += 1
    finally:
        p.kill()
        p.wait()
        t.cancel()
    o = os.path.join(dd, "model_combined.obj")
    if not os.path.exists(o):
        return None, "several models were not combined"
    return parse_file(o, w), None


def run(ck):
    b = build()
    big = TIER == "thorough"
    for c, bad in (("ObjWeldT" if big else "ObjWeld", False), ("ObjWeldBad", True)):
        g = tlc.run("ObjWeld", cfg=c)
        if g["ok"] == bad:
            raise Infra("%s: %s" % (c, tlc.err(g["out"]) if not bad else "the bug in the model is not seen"))
        ck.add_tlc(c, g)
    d = scratch("v12")
    n = 240 if not big else 3000
    jobs, src = [], []
    with ThreadPoolExecutor(NCPU) as ex:
        for job, s, trouble in ex.map(lambda i: scenario(b, d, i, SEED * 1000003 + 12000 + i, big), range(n)):
            ck.count("files_or_lists")
            if trouble:
                ck.violation("model files: " + trouble, text=s)
                continue
            jobs.append(job)
            src.append(s)
            for e in job["ev"]:
                ck.count("checked_" + ("combinations" if len(e.get("files", [])) > 1 else e["e"]))
    if jobs:
        for i, why in validate(ck, "ObjTrace", jobs, weight=lambda j: 20 + sum(len(e["q"]) ** 2 + len(e["g"]) * 4 for e in j["ev"])):
            ck.violation("model files: %s" % why[:600], text=src[i])
        ck.sample(min(jobs, key=lambda j: len(str(j)))["ev"][0])
    shutil.rmtree(d, ignore_errors=True)
