"""V06: the protecting spheres cover the surface and sit on it (specs/Cover.tla)."""
import random
from ..common import *
from ..build import build
from .. import pipe, corpus, crust
from .. import models as M
from ..crust import *
from .v05 import load_all, judge

TOL = 4


def sharp_edges(m, angle=None):
    """edges of the input without two faces, or with two faces that are not coplanar (that turn by more than the angle)"""
    lim = 1 - 1e-9 if angle is None else np.cos(np.radians(angle))
    by = {}
    nrm = []
    V = np.array(m.v0, float)
    for k, t in enumerate(m.tris):
        n = np.cross(V[t[1]] - V[t[0]], V[t[2]] - V[t[0]])
        nrm.append(n / np.linalg.norm(n))
        for a in range(3):
            e = tuple(sorted((t[a], t[(a + 1) % 3])))
            by.setdefault(e, []).append(k)
    return [e for e, f in sorted(by.items()) if len(f) != 2 or (abs(nrm[f[0]] @ nrm[f[1]]) if angle is None else nrm[f[0]] @ nrm[f[1]]) < lim]


def certificate(job, P, kinds_allowed, ev, depthmax=13):
    """depth-first closing of pieces; consecutive leaves are one event"""
    c = np.array(job["c"], dtype=np.int64)
    r = np.array(job["r"], dtype=np.int64)
    k = np.array(job["k"])
    r = np.where(k == 2, r * 9166 // 10000 + 1, np.where((k == 1) & (len(P) == 2), r * 8661 // 10000 + 1, r))
    run = []

    def flush():
        if run:
            ev.append(dict(e="leaf", s=list(run)))
            run.clear()

    def mid(a, b):
        return tuple((x + y) // 2 for x, y in zip(a, b))

    def go(q, idx, depth):
        Q = np.array(q, dtype=np.int64)
        d2 = ((c[idx][:, None, :] - Q[None, :, :]) ** 2).sum(2)
        hold = (d2 <= ((r[idx] + TOL) ** 2)[:, None])
        full = hold.all(1)
        if full.any():
            # prefer the deepest
            j = idx[np.nonzero(full)[0][0]]
            run.append(int(j) + 1)
            return True
        # only spheres that can reach the piece
        ctr = Q.mean(0)
        rad = np.sqrt(((Q - ctr) ** 2).sum(1).max())
        near = np.sqrt(((c[idx] - ctr) ** 2).sum(1)) <= r[idx] + TOL + rad + 2
        idx = idx[near]
        if len(idx) == 0 or depth >= depthmax or (rad < 1.5):
            run.append(0)
            return False
        flush()
        ev.append(dict(e="split"))
        if len(q) == 2:
            m = mid(*q)
            ch = [(q[0], m), (m, q[1])]
        else:
            a, b, cc = mid(q[0], q[1]), mid(q[1], q[2]), mid(q[2], q[0])
            ch = [(q[0], a, cc), (a, q[1], b), (cc, b, q[2]), (a, b, cc)]
        for x in ch:
            if not go(x, idx, depth + 1):
                return False
        return True
    idx = np.nonzero(kinds_allowed[k])[0]
    ok = go(P, idx, 0)
    flush()
    return ok


def job(c, z):
    m = c.m
    V = np.array(m.verts())
    lo, hi = V.min(0), V.max(0)
    u = (hi - lo).max() / 20000
    o = lo - 500 * u
    q = lambda p: [int(round(x)) for x in (np.asarray(p) - o) / u]
    X = sharp_edges(m, None if m.flat else c.angle)
    n = len(z.r)
    J = dict(p=[q(v) for v in V], t=[[i + 1 for i in t] for t in m.tris], x=[[a + 1, b + 1] for a, b in X],
             c=[q(x) for x in z.c], r=[int(min(30000, round(x / u))) for x in z.r], k=[int(x) for x in z.k], th=c.threads)
    ev = []
    ok = True
    allk = np.array([True, True, True])
    for t in m.tris:
        ev.append(dict(e="tri"))
        if ok:
            ok = certificate(J, tuple(tuple(J["p"][i]) for i in t), allk, ev)
    for a, b in X:
        ev.append(dict(e="edge"))
        if ok:
            ok = certificate(J, (tuple(J["p"][a]), tuple(J["p"][b])), np.array([True, True, False]), ev)
    # centres on their elements
    T = np.array(m.tris)
    A, B, C = V[T[:, 0]], V[T[:, 1]], V[T[:, 2]]
    N = np.cross(B - A, C - A)
    N2 = (N ** 2).sum(1)
    for i in range(n):
        p = z.c[i]
        e = dict(e="on", i=i + 1, t=0, b=[10000], off=0)
        if z.k[i] == 2:
            w = p - A
            h = (w * N).sum(1) / np.sqrt(N2)
            g = (np.cross(B - A, w) * N).sum(1) / N2
            be = (np.cross(w, C - A) * N).sum(1) / N2
            al = 1 - be - g
            worst = np.minimum(np.minimum(al, be), g)
            # the closest triangle: in the plane first, then inside
            k = int(np.argmin(np.abs(h) / z.r[i] + 10 * np.maximum(0, -worst)))
            e.update(t=k + 1, b=[int(round(1e4 * x)) for x in (al[k], be[k], g[k])], off=int(max(-10**6, min(10**6, round(1e6 * h[k] / z.r[i])))))
        elif z.k[i] == 1 and X:
            best = None
            for k, (a, b) in enumerate(X):
                d = V[b] - V[a]
                s = float((p - V[a]) @ d / (d @ d))
                f = np.linalg.norm(p - V[a] - min(1, max(0, s)) * d)
                if best is None or f < best[0]:
                    best = (f, k, s)
            e.update(t=best[1] + 1, b=[int(round(1e4 * (1 - best[2]))), int(round(1e4 * best[2]))], off=int(min(10**6, round(1e6 * best[0] / z.r[i]))))
        else:
            d = np.linalg.norm(V - p, axis=1)
            k = int(np.argmin(d))
            e.update(t=k + 1, off=int(min(10**6, round(1e6 * d[k] / z.r[i]))))
        ev.append(e)
    # separation: for every sphere the relatively closest one of each kind that binds it
    D = pair_dist(z.c, z.c)
    np.fill_diagonal(D, np.inf)
    for i in range(n):
        for k in range(int(z.k[i]) + 1):
            idx = np.nonzero(z.k == k)[0]
            if k == z.k[i]:
                idx = idx[idx != i]
                if k == 0 or not len(idx):
                    continue
                rel = D[i][idx] / np.maximum(z.r[i], z.r[idx])
            else:
                rel = D[i][idx] / z.r[idx] if len(idx) else idx
            if len(idx):
                ev.append(pair_event(z, i, int(idx[np.argmin(rel)]), "sep"))
                if c.threads > 1 and k == z.k[i] == 2:
                    ev.append(pair_event(z, i, int(idx[np.argmin(D[i][idx] / np.minimum(z.r[i], z.r[idx]))]), "sep"))
    ev.append(dict(e="done"))
    J["ev"] = ev
    return J


def cases(rng, big):
    cs = corpus.base() + corpus.random_cases(6 if not big else 40, rng)
    mo = corpus.more()
    cs += mo if big else [c for c in mo if c.name in ("octa", "prism", "small", "sphere", "torus", "cyl")]
    m = M.cube().place((2, 2, 2), M.rotation(rng))
    cs.append(corpus.Case("szc", m, lip=0.3, angle=40, threads=rng.choice([1, 4]), sizing=corpus.sizing_grid(m, 0.2, 1.0, rng, 80)))
    return cs


def run(ck):
    b = build()
    pipe.prune(b)
    rng = random.Random(SEED * 7919 + 6)
    res = load_all(ck, b, cases(rng, TIER == "thorough"))
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(NCPU) as ex:
        jobs = list(ex.map(_job, [(c, z) for c, r, z in res]))
    ck.cov["covering_pieces"] = sum(len(e["s"]) for j in jobs for e in j["ev"] if e["e"] == "leaf")
    judge(ck, "Cover", jobs, res)
    if jobs:
        ck.sample([e for e in jobs[0]["ev"] if e["e"] in ("tri", "split", "leaf")][:6])


def _job(a):
    return job(*a)
