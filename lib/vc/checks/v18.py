"""V18: the reconstructed surface (specs/Surface.tla)."""
import random
from ..common import *
from ..build import build
from .. import pipe, corpus
from .. import models as M
from ..crust import *
from .v05 import load_all, judge
from .v06 import sharp_edges
from .v07 import cases


def creases(m, V):
    """straight creases: chains of collinear sharp edges with the same number of faces -> end points, faces"""
    X = sharp_edges(m)
    X = [[V[a], V[b], {a, b}, sum(1 for t in m.tris if a in t and b in t)] for a, b in X]
    done = False
    while not done:
        done = True
        for i in range(len(X)):
            for j in range(i):
                if not (X[i][2] & X[j][2]) or X[i][3] != X[j][3]:
                    continue
                u, w = X[i][1] - X[i][0], X[j][1] - X[j][0]
                if np.linalg.norm(np.cross(u, w)) > 1e-9 * np.linalg.norm(u) * np.linalg.norm(w):
                    continue
                P = [X[i][0], X[i][1], X[j][0], X[j][1]]
                s = [p @ u for p in P]
                X[i] = [P[int(np.argmin(s))], P[int(np.argmax(s))], X[i][2] | X[j][2], X[i][3]]
                X.pop(j)
                done = False
                break
            if not done:
                break
    return [(x[0], x[1]) for x in X], [x[3] for x in X]


def job(c, r, z):
    m = c.m
    v, f = pipe.obj(r.path("surface_mesh.obj"))
    v = np.array(v).reshape(-1, 3)
    idx, d = nearest(v, z.c)
    ev = [dict(e="v", s=int(i) + 1, off=int(min(10**6, round(1e6 * x / z.r[i])))) for i, x in zip(idx, d)]
    V = np.array(m.verts())
    # planes of the input
    pl, area = [], []
    if m.flat:
        ext = np.ptp(V, axis=0).max()
        for t in m.tris:
            n = np.cross(V[t[1]] - V[t[0]], V[t[2]] - V[t[0]])
            a = np.linalg.norm(n) / 2
            n = n / np.linalg.norm(n)
            for k, (q, o) in enumerate(pl):
                if abs(abs(q @ n) - 1) < 1e-9 and abs((V[t[0]] - o) @ q) < 1e-7 * ext:
                    area[k] += a
                    break
            else:
                pl.append((n, V[t[0]]))
                area.append(a)
    tot = sum(area) or 1
    X, sheets = creases(m, V) if m.flat else ([], [])
    T = sorted(tuple(sorted(int(idx[i]) if 0 <= i < len(idx) else -1 for i in t)) for t in f if len(t) == 3)
    if len(T) != len(f):
        T.append((-1, -1, -1))
    edges = {}
    for k, t in enumerate(T):
        P = z.c[list(t)]
        s = [P[1] - P[0], P[2] - P[1], P[0] - P[2]]
        u = max(max(np.linalg.norm(x) for x in s), 1e-300) / 10000
        p, h = 0, 10**6
        if pl:
            far = [max(abs((x - o) @ q) for x in P) for q, o in pl]
            p = int(np.argmin(far))
            h, p = int(min(10**6, round(far[p] / z.r[list(t)].min() * 1e6))), p + 1
        a = np.linalg.norm(np.cross(s[0], s[1])) / 2
        ev.append(dict(e="t", t=[x + 1 for x in t], v=[ints(x / u) for x in s], r=[int(min(20000, round(z.r[x] / u))) for x in t], p=p, h=h, a=int(round(a / tot * 1e8))))
        for a, b in ((t[0], t[1]), (t[0], t[2]), (t[1], t[2])):
            edges.setdefault((a, b), []).append(k + 1)
    for (a, b), ts in sorted(edges.items()):
        e = dict(e="x", s=[a + 1, b + 1], t=sorted(set(ts)), c=0, l=0, off=0)
        if z.k[a] < 2 and z.k[b] < 2:
            for k, (i, j) in enumerate(X):
                w = j - i
                L = np.linalg.norm(w)
                off = 0
                for q in (a, b):
                    x = z.c[q] - i
                    s = x @ w / L / L
                    off = max(off, np.linalg.norm(x - s * w) / z.r[q], abs(min(0, s, 1 - s)) * L / z.r[q])
                if off < 1e-5:
                    e.update(c=k + 1, l=int(round(np.linalg.norm(z.c[a] - z.c[b]) / L * 1e7)), off=int(round(off * 1e6)))
                    break
        ev.append(e)
    ev.append(dict(e="done"))
    return dict(n=len(z.r), tri=len(T), sh=sheets, area=[int(round(a / tot * 1e8)) for a in area], k=[int(x) for x in z.k], ev=ev)


def run(ck):
    b = build()
    pipe.prune(b)
    rng = random.Random(SEED * 7919 + 7)
    res = [t for t in load_all(ck, b, cases(rng, TIER == "thorough"))]
    for c, r, z in res:
        if not r.has("surface_mesh.obj"):
            ck.violation("run %s wrote no reconstructed surface" % c.name, files=[r.d])
    res = [t for t in res if t[1].has("surface_mesh.obj")]
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(NCPU) as ex:
        jobs = list(ex.map(_job, res))
    ck.cov["triangles"] = sum(j["tri"] for j in jobs)
    judge(ck, "Surface", jobs, res)
    if jobs:
        ck.sample([e for e in jobs[0]["ev"] if e["e"] in "tx"][-4:])


def _job(a):
    return job(*a)
