"""Reads the spheres and seeds of a run and finds, with plain floating-point searches, which facts are worth judging.
Judging them is the specifications' work."""
import math, os
import numpy as np
from .common import *
from . import pipe

KINDS = ("corner", "edge", "surface")
FILES = ("corner_spheres.csv", "edges_spheres.csv", "surface_spheres.csv")


class Crust:
    """c: centres, r: radii, k: kind 0/1/2, el: attributed element; s: seeds, h: sizes, g: labels"""

    def __init__(self, run):
        C, R, K, E = [], [], [], []
        self.counts = [0, 0, 0]
        for k, f in enumerate(FILES):
            if not run.has(f):
                continue
            for x in pipe.csv(run.path(f)):
                C.append(x[:3])
                R.append(x[3])
                K.append(k)
                E.append(int(x[8]) if len(x) > 8 else -1)
                self.counts[k] += 1
        self.c, self.r, self.k, self.el = np.array(C).reshape(-1, 3), np.array(R), np.array(K), np.array(E)
        S = np.array(pipe.csv(run.path("seeds.csv"))).reshape(-1, 5)
        self.s, self.h, self.g = S[:, :3], S[:, 3], S[:, 4].astype(int)
        self.ok = bool(len(self.r) and len(self.h) and np.isfinite(self.c).all() and np.isfinite(self.r).all()
                       and np.isfinite(S).all() and (self.r > 0).all() and np.abs(self.c).max() < 1e6 and np.abs(S).max() < 1e6
                       and (self.h > 0).all())


def pair_dist(A, B):
    return np.sqrt(np.maximum(0, ((A[:, None, :] - B[None, :, :]) ** 2).sum(2)))


def load(c, r):
    """-> Crust or None, reason"""
    if not r.has("seeds.csv") or not r.has("surface_spheres.csv"):
        return None, "run %s ended without spheres and seeds (exit %s)" % (c.name, r.rc)
    try:
        z = Crust(r)
    except Exception as e:
        return None, "run %s: unreadable spheres or seeds (%s)" % (c.name, e)
    if not z.ok:
        return None, "run %s: absurd numbers in the spheres or seeds files" % c.name
    return z, ""


def _seg(p, a, b):
    u = b - a
    t = np.clip(((p - a) @ u) / (u @ u), 0, 1)
    return a + t[:, None] * u


def feet(P, V, tris):
    """for every point the closest point of a triangle whose plane does not hold it"""
    best = np.full(len(P), np.inf)
    foot = np.zeros_like(P)
    tol = 1e-7 * max(1e-300, np.abs(V - V.mean(0)).max())
    for t in tris:
        a, b, c = V[t[0]], V[t[1]], V[t[2]]
        n = np.cross(b - a, c - a)
        n /= np.linalg.norm(n)
        h = (P - a) @ n
        q = P - h[:, None] * n
        ins = np.ones(len(P), bool)
        for x, y in ((a, b), (b, c), (c, a)):
            ins &= (np.cross(y - x, q - x)) @ n >= 0
        cand = [np.where(ins[:, None], q, np.inf), _seg(P, a, b), _seg(P, b, c), _seg(P, c, a)]
        for f in cand:
            d = np.where(np.abs(h) < tol, np.inf, np.linalg.norm(np.where(np.isfinite(f), f, 1e30) - P, axis=1))
            m = d < best
            best[m], foot[m] = d[m], f[m]
    return best, foot


def ints(v):
    return [int(round(float(x))) for x in v]


def pair_event(z, i, j, e="lip"):
    v = z.c[j] - z.c[i]
    d = float(np.linalg.norm(v))
    u = max(d, z.r[i], z.r[j]) / 20000
    return dict(e=e, i=int(z.k[i]), j=int(z.k[j]), ri=int(round(z.r[i] / u)), rj=int(round(z.r[j] / u)), v=ints(v / u), d=int(round(d / u)))


def triples(z):
    """all i<j<k of overlapping spheres with a surface sphere among them that meet in two points
    -> index triples, the two points of each, half their distance"""
    D = pair_dist(z.c, z.c)
    ov = D < z.r[:, None] + z.r[None, :]
    np.fill_diagonal(ov, False)
    T = []
    for i in range(len(z.r)):
        nb = np.nonzero(ov[i])[0]
        nb = nb[nb > i]
        a, b = np.nonzero(np.triu(ov[np.ix_(nb, nb)]))
        if len(a):
            T.append(np.stack([np.full(len(a), i), nb[a], nb[b]], 1))
    T = np.concatenate(T) if T else np.zeros((0, 3), int)
    T = T[(z.k[T] == 2).any(1)]
    T = T[np.lexsort((T[:, 2], T[:, 1], T[:, 0]))]
    c = [z.c[T[:, m]] for m in range(3)]
    r = [z.r[T[:, m]] for m in range(3)]
    d = np.linalg.norm(c[1] - c[0], axis=1)
    d = np.where(d > 0, d, 1)
    ex = (c[1] - c[0]) / d[:, None]
    w = c[2] - c[0]
    i = (ex * w).sum(1)
    ey = w - i[:, None] * ex
    j = np.linalg.norm(ey, axis=1)
    ok = j > 1e-6 * d
    j = np.where(ok, j, 1)
    ey = ey / j[:, None]
    ez = np.cross(ex, ey)
    x = (r[0] ** 2 - r[1] ** 2 + d * d) / (2 * d)
    y = (r[0] ** 2 - r[2] ** 2 + i * i + j * j - 2 * i * x) / (2 * j)
    h2 = r[0] ** 2 - x * x - y * y
    # points closer together than 1e-3 of the radius are not judged
    ok &= h2 > 1e-6 * r[0] ** 2
    h = np.sqrt(np.where(ok, h2, 0))[:, None]
    m = c[0] + x[:, None] * ex + y[:, None] * ey
    return T[ok], (m + h * ez)[ok], (m - h * ez)[ok], h[ok, 0]


def nearest(P, Q, block=2000):
    """for every P the index of the closest Q and its distance"""
    i, d = np.zeros(len(P), int), np.full(len(P), np.inf)
    for k in range(0, len(P), block):
        if len(Q):
            D = pair_dist(P[k:k + block], Q)
            i[k:k + block] = D.argmin(1)
            d[k:k + block] = D[np.arange(len(D)), i[k:k + block]]
    return i, d


def deepest(P, z, skip=None, block=2000):
    """for every point the sphere it is relatively deepest in (other than those of skip), and |p-c|/r"""
    i, d = np.zeros(len(P), int), np.full(len(P), np.inf)
    for k in range(0, len(P), block):
        D = pair_dist(P[k:k + block], z.c) / z.r[None, :]
        if skip is not None:
            for m in range(len(D)):
                D[m, skip[k + m]] = np.inf
        i[k:k + block] = D.argmin(1)
        d[k:k + block] = D[np.arange(len(D)), i[k:k + block]]
    return i, d


def surface_seeds(z):
    """how many spheres pass through each seed; the surface seeds are those in front on three or more,
    the seeds added for edge spheres follow: -> counts, number of surface seeds, number of added seeds"""
    on = np.zeros(len(z.s), int)
    for k in range(0, len(z.s), 2000):
        on[k:k + 2000] = (np.abs(pair_dist(z.s[k:k + 2000], z.c) / z.r[None, :] - 1) < 1e-6).sum(1)
    m = 0
    while m < len(on) and on[m] > 2:
        m += 1
    a = m
    while a < len(on) and on[a] > 1:
        a += 1
    return on, m, a - m
