"""V09: sharp features (specs/Features.tla, FeaturesTrace.tla)."""
import math, random, subprocess
from concurrent.futures import ThreadPoolExecutor
from ..common import *
from ..build import build
from .. import pipe, corpus
from .. import models as M
from ..validate import validate

COS = [(1, 1, 4), (1, 1, 2), (1, 3, 4), (1, 9, 10), (1, 97, 100), (1, 1, 9), (-1, 1, 4), (1, 0, 1), (1, 4, 9), (-1, 1, 2)]


def area0(V, f):
    a, b, c = (V[i] for i in f)
    u = [b[k] - a[k] for k in range(3)]
    w = [c[k] - a[k] for k in range(3)]
    return not any([u[1] * w[2] - u[2] * w[1], u[2] * w[0] - u[0] * w[2], u[0] * w[1] - u[1] * w[0]])


def sheet(rng):
    """a height field: open boundary, every fold angle"""
    nx, ny, h = rng.randint(1, 4), rng.randint(1, 4), rng.choice([0, 1, 1, 2, 3])
    V = [[x, y, rng.randint(0, h)] for y in range(ny + 1) for x in range(nx + 1)]
    F = []
    w = nx + 1
    for y in range(ny):
        for x in range(nx):
            a, b, c, d = y * w + x, y * w + x + 1, (y + 1) * w + x + 1, (y + 1) * w + x
            if rng.random() < 0.07:
                continue
            F += [[a, b, c], [a, c, d]] if rng.random() < 0.5 else [[a, b, d], [b, c, d]]
    return V, F


def book(rng):
    """pages around one spine, and strips along it"""
    k = rng.randint(1, 5)
    dirs = rng.sample([(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, 1), (2, 1), (-1, -2)], k)
    L = rng.randint(1, 3)
    V = [[0, 0, z] for z in range(L + 1)]
    F = []
    for dx, dy in dirs:
        o = len(V)
        V += [[dx, dy, z] for z in range(L + 1)]
        for z in range(L):
            q = [[z, o + z, o + z + 1], [z, o + z + 1, z + 1]]
            F += q if rng.random() < 0.5 else [f[::-1] for f in q]
    if k == 2:      # keep the two pages consistently oriented
        F = []
        a, b = L + 1, 2 * (L + 1)
        for z in range(L):
            F += [[z, a + z, a + z + 1], [z, a + z + 1, z + 1], [z, b + z + 1, b + z], [z, z + 1, b + z + 1]]
    return V, F


def hull(rng):
    """a closed polyhedron: a random convex or star-shaped one from a subdivided octahedron"""
    while True:
        ax = [[0, 0, rng.randint(1, 3)], [rng.randint(1, 3), 0, 0], [0, rng.randint(1, 3), 0], [-rng.randint(1, 3), 0, 0], [0, -rng.randint(1, 3), 0], [0, 0, -rng.randint(1, 3)]]
        F = [[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1], [5, 2, 1], [5, 3, 2], [5, 4, 3], [5, 1, 4]]
        V = [list(p) for p in ax]
        if rng.random() < 0.5:      # split an edge: two coplanar pairs, a vertex with a straight chain
            a, b = 1, 2
            V = [[2 * c for c in p] for p in V]
            m = [(V[a][k] + V[b][k]) // 2 for k in range(3)]
            V.append(m)
            n = len(V) - 1
            F = [f for f in F if not (a in f and b in f)] + [[0, a, n], [0, n, b], [5, n, a], [5, b, n]]
        return V, F


def voxel(rng):
    m = M.random_voxels(rng, rng.randint(1, 6), rng.randint(1, 3), rng.choice([(2, 2, 1), (3, 1, 1), (2, 2, 2), (3, 2, 1)]))
    return [list(map(int, p)) for p in m.v0], [list(f) for f in m.tris]


def orient(F):
    """turn faces so that the two faces of every two-faced edge traverse it in opposite directions; None if they cannot"""
    at = {}
    for k, f in enumerate(F):
        for i in range(3):
            at.setdefault(frozenset((f[i], f[(i + 1) % 3])), []).append(k)
    F = [list(f) for f in F]
    done = set()
    for s in range(len(F)):
        if s in done:
            continue
        done.add(s)
        st = [s]
        while st:
            k = st.pop()
            f = F[k]
            for i in range(3):
                a, b = f[i], f[(i + 1) % 3]
                o = at[frozenset((a, b))]
                if len(o) != 2:
                    continue
                j = o[0] if o[1] == k else o[1]
                same = any(F[j][m] == a and F[j][(m + 1) % 3] == b for m in range(3))
                if j in done:
                    if same:
                        return None
                    continue
                if same:
                    F[j] = F[j][::-1]
                done.add(j)
                st.append(j)
    return F


def complex_(rng, k):
    while True:
        V, F = complex0(rng, k)
        F = orient(F)
        if F:
            return V, [f[r:] + f[:r] for f in F for r in [rng.randrange(3)]]


def complex0(rng, k):
    parts = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        V, F = rng.choice([sheet, sheet, sheet, book, hull, hull, voxel])(rng)
        parts.append((V, F))
    V, F = [], []
    for i, (v, f) in enumerate(parts):
        o = len(V)
        V += [[p[0] + 6 * i, p[1], p[2]] for p in v]
        F += [[a + o for a in t] for t in f]
    F = [f for f in F if not area0(V, f)]
    if rng.random() < 0.3:
        F = [f[::-1] for f in F]
    F = [f[r:] + f[:r] for f in F for r in [rng.randrange(3)]]
    rng.shuffle(F)
    p = list(range(len(V)))
    rng.shuffle(p)          # vertex numbers in any order, some vertices unused
    W = [None] * len(V)
    for i, v in enumerate(V):
        W[p[i]] = v
    F = [[p[a] for a in f] for f in F]
    return W, F


def detect(b, ck, rng, n):
    exe = b.drv("drv_feature")
    todo = []
    while len(todo) < n:
        V, F = complex_(rng, len(todo))
        if not F:
            continue
        t = rng.choice(COS)
        s = rng.choice([1, 1, 1e-3, 37.5, 1000])
        R = M.rotation(rng) if rng.random() < 0.7 else None
        o = [rng.uniform(-5, 5) * s for _ in range(3)]
        P = M.Model("x", V, F).place((s, s, s), R, o)
        W = P.verts()
        c = t[0] * math.sqrt(t[1] / t[2])
        txt = "JOB %.17g %d %d\n" % (c, len(V), len(F)) + "".join("%.17g %.17g %.17g\n" % tuple(p) for p in W) + "".join("%d %d %d\n" % tuple(f) for f in F)
        todo.append((V, F, t, P, txt, s))
    d = scratch("v09")

    def one(k):
        w = os.path.join(d, str(k))
        os.makedirs(w)
        js = todo[k::NCPU]
        try:
            p = subprocess.run([exe], input="".join(j[4] for j in js).encode(), cwd=w, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=400)
            return js, p.stdout.decode(errors="replace"), p.returncode
        except subprocess.TimeoutExpired as x:
            return js, (x.stdout or b"").decode(errors="replace"), "a time-out"
    jobs = []
    with ThreadPoolExecutor(NCPU) as ex:
        for js, out, rc in ex.map(one, range(NCPU)):
            blocks = out.split("\nJOB\n")[1:]
            blocks = [x.split("\nEND\n")[0] for x in blocks if "\nEND\n" in x]
            if rc != 0 or len(blocks) != len(js):
                ck.violation("feature detection ended with %s on a complex" % rc, text=js[min(len(blocks), len(js) - 1)][4])
            for (V, F, t, P, txt, s), blk in zip(js, blocks):
                ev, eds = [], []
                for ln in blk.split("\n"):
                    k, _, r = ln.partition(" ")
                    x = r.split()
                    if k == "E":
                        x = [int(a) + 1 for a in x]
                        eds = [x[i:i + 2] for i in range(0, len(x), 2)]
                        ev.append(dict(e="edges", s=eds))
                    elif k == "C":
                        ev.append(dict(e="corners", s=[int(a) + 1 for a in x]))
                    elif k == "K":
                        ev.append(dict(e="counts", s=eds, k=[int(a) for a in x]))
                    elif k in ("P", "Q"):
                        p = P.back([float(a) for a in x[1:4]])
                        n = [float(a) for a in x[4:7]]
                        if P.R:
                            n = [sum(P.R[m][i] * n[m] for m in range(3)) for i in range(3)]
                        q = [max(-10 ** 6, min(10 ** 6, round(1000 * a))) for a in p]
                        n = [max(-10 ** 6, min(10 ** 6, round(1000 * a))) for a in n]
                        i = int(x[0])
                        if k == "P":
                            a, c = eds[i] if i < len(eds) else (1, 1)
                            ev.append(dict(e="ep", i=a, j=c, p=q, n=n))
                        else:
                            ev.append(dict(e="fp", k=i + 1, p=q, n=n))
                jobs.append(dict(kind="det", v=V, f=[[a + 1 for a in f] for f in F], t=dict(sg=t[0], tn=t[1], td=t[2], tm=0), tol=1, ev=ev, name="complex of %d faces, cos %s" % (len(F), t), txt=txt))
    shutil.rmtree(d, ignore_errors=True)
    return jobs


def prism(poly, h):
    n = len(poly)
    V = [[x, y, 0] for x, y in poly] + [[x, y, h] for x, y in poly]
    F = []
    for i in range(n):
        j = (i + 1) % n
        F += [[i, j, n + j], [i, n + j, n + i]]
    for i in range(1, n - 1):
        F += [[0, i + 1, i], [n, n + i, n + i + 1]]
    return V, F


def cases(rng, big):
    R = lambda: M.rotation(rng)
    cs = corpus.base()
    oct_ = [(2, 1), (1, 2), (-1, 2), (-2, 1), (-2, -1), (-1, -2), (1, -2), (2, -1)]
    roof = [(0, 0), (4, 0), (4, 2), (2, 3), (0, 2)]
    low = [(0, 0), (6, 0), (6, 2), (3, 3), (0, 2)]
    for nm, poly, h, ang, lip in (("oct_sharp", oct_, 2, 30, 0.4), ("oct_smooth", oct_, 2, 50, 0.4), ("roof", roof, 3, 40, 0.4), ("low_smooth", low, 3, 40, 0.5), ("low_sharp", low, 3, 30, 0.5)):
        V, F = prism(poly, h)
        cs.append(corpus.Case(nm, M.Model(nm, V, F).place((1, 1, 1), R()), angle=ang, lip=lip, threads=rng.choice([1, 2, 4])))
    cs += corpus.random_cases(4 if not big else 30, rng)
    if big:
        cs += [c for c in corpus.more() if c.name in ("checker", "octa", "fine1", "two_cav", "thin", "small")]
    return cs


def run_job(c, r):
    m = c.m
    V = [list(p) for p in m.v0]
    if any(abs(v - round(v)) > 1e-9 for p in V for v in p):
        return None
    V = [[round(v) for v in p] for p in V]
    if not r.has("mesh.vcg"):
        return None
    k = lambda row: [max(-10 ** 6, min(10 ** 6, round(1000 * a))) for a in m.back([float(v) for v in row[:3]])]
    cs = pipe.csv(r.path("corner_spheres.csv")) if r.has("corner_spheres.csv") else []
    es = pipe.csv(r.path("edges_spheres.csv")) if r.has("edges_spheres.csv") else []
    import re
    n = re.findall(r"Number of Sharp Corners = (\d+)", r.log)
    ev = [dict(e="model"), dict(e="cs", s=[k(x) for x in cs]), dict(e="en", n=len(es))]
    if n:
        ev.append(dict(e="log", c=int(n[-1])))
    ev += [dict(e="es", p=k(x)) for x in es]
    a = math.cos(math.radians(c.angle))
    return dict(kind="run", v=V, f=[[i + 1 for i in f] for f in m.tris], t=dict(sg=1 if a >= 0 else -1, tn=round(1000 * a * a), td=1000, tm=3), tol=1, ev=ev)


def run(ck):
    b = build()
    pipe.prune(b)
    big = TIER == "thorough"
    rng = random.Random(SEED * 32452843 + 9)
    jobs = detect(b, ck, rng, 64 if not big else 640)
    ck.cov["complexes"] = len(jobs)
    info = [(j.pop("name"), j.pop("txt"), None) for j in jobs]
    cs = cases(rng, big)
    names = []
    for c, r in zip(cs, pipe.many(b, [c.files() for c in cs])):
        if r is None:
            continue
        if not r.has("mesh.vcg"):
            ck.violation("run %s produced no mesh (exit %s)" % (c.name, r.rc), files=[r.d])
            continue
        j = run_job(c, r)
        if j:
            jobs.append(j)
            info.append(("run " + c.name, "", r))
            names.append(c.name)
    ck.cov["runs"] = names[:60]
    if jobs:
        for i, why in validate(ck, "FeaturesTrace", jobs, timeout=800, weight=lambda j: len(j["ev"]) * len(j["f"])):
            ck.violation("%s: %s" % (info[i][0], why[:600]), text=info[i][1], files=[info[i][2].d] if info[i][2] else None)
        ck.sample(jobs[0]["ev"][:2])
