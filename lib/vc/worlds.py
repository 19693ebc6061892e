"""Worlds for the interior filling: labelled boxes walled by mirrored pairs of seeds, as the surface stage would leave them."""
import re, random, subprocess
from concurrent.futures import ThreadPoolExecutor
from .common import *
from . import models as M, pipe


class World:
    """a voxel model, k x k mirrored pairs of seeds per face at +-off of a lattice cell, spheres at the lattice points"""

    def __init__(self, model, k, size, lip, rmax, threads, off=0.25, spheres=1.05, sizing=None, imposed=None, rng=None):
        self.m, self.k, self.lip, self.rmax, self.threads = model, k, lip, rmax, threads
        self.sizing, self.imposed = sizing or [], imposed or []
        rng = rng or random.Random(1)
        comp, n = model.components()
        s, g = [], []
        sp = []
        seen = set()
        for c in sorted(comp):
            for ax in range(3):
                d = list(c)
                d[ax] += 1
                d = tuple(d)
                if d not in comp or comp[c] == comp[d]:
                    continue
                u, w = (ax + 1) % 3, (ax + 2) % 3
                for a in range(k):
                    for b in range(k):
                        p = [float(x) for x in d]
                        p[u] += (a + 0.5) / k
                        p[w] += (b + 0.5) / k
                        sp.append(tuple(p))
                        for side, cc in ((-1, comp[c]), (1, comp[d])):
                            q = list(p)
                            q[ax] += side * off / k
                            s.append(q)
                            g.append(cc)
        self.s = [model.fwd(p) for p in s]
        self.g = g
        # sizes gradual by construction: a constant, or growing from a point
        e = model.fwd([0, 0, 0])
        f = (lambda p: size + 0.8 * lip * dist(p, e)) if rng.random() < 0.4 else (lambda p: size)
        self.h = [min(f(p), rmax) for p in self.s]
        if self.sizing:
            self.h = [min(h, min(self.sizing, key=lambda z: dist(z[:3], p))[3]) for p, h in zip(self.s, self.h)]
        self.c, self.r = [[], [], []], [[], [], []]
        # no seed outside the spheres comes as near to a face as its pairs do: spheres^2 >= 1 + off^2, in lattice cells
        for p in sp:
            kind = rng.randint(0, 2)
            self.c[kind].append(model.fwd(p))
            self.r[kind].append(spheres / k * min(model.s))
        self.n = len(self.s)

    def crust(self, n0, n1, rows):
        from .crust import np
        S = np.array(rows).reshape(-1, 5)
        z = Filled()
        z.s, z.h, z.g = S[:, :3], S[:, 3], S[:, 4].astype(int)
        z.c = np.array([p for P in self.c for p in P]).reshape(-1, 3)
        z.r = np.array([r for R in self.r for r in R])
        z.given = n1
        return z

    def text(self, out):
        row = lambda p, *a: " ".join("%.17g" % x for x in p) + "".join(" %.17g" % x for x in a)
        L = ["JOB %s %d %d %d %d %d %d %d %.17g %.17g" % (out, self.n, *[len(x) for x in self.c], len(self.sizing), len(self.imposed), self.threads, self.lip, self.rmax)]
        L += [row(p, h) + " %d" % g for p, h, g in zip(self.s, self.h, self.g)]
        for P, R in zip(self.c, self.r):
            L += [row(p, r) for p, r in zip(P, R)]
        L += [row(p) for p in self.sizing] + [row(p) for p in self.imposed]
        return "\n".join(L) + "\n"


class Filled:
    pass


def dist(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b)) ** 0.5


def replay(b, ws, d, timeout=150):
    """-> list of (n0, n1, rows) or a reason, one per world"""
    jobs = [(os.path.join(d, "w%d" % i), w) for i, w in enumerate(ws)]

    hung = []

    def one(j):
        if len(hung) > 1:
            return None
        o, w = j
        cwd = o + ".d"
        os.makedirs(cwd, exist_ok=True)
        try:
            p = subprocess.run([b.drv("drvx_interior")], input=w.text(o).encode(), cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               timeout=timeout if not hung else timeout / 3, preexec_fn=pipe._limits, env=dict(os.environ, OMP_WAIT_POLICY="passive"))
        except subprocess.TimeoutExpired:
            hung.append(1)
            return "the filling does not end (%d s)" % timeout
        if p.returncode != 0 or not os.path.exists(o):
            return "the filling ended with %s" % p.returncode
        L = open(o).read().split("\n")
        n0, n1, n = map(int, L[0].split())
        rows = [[float(x) for x in q.split()] for q in L[1:] if q]
        return (n0, n1, rows) if len(rows) == n else "the filling lost seeds"
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(one, jobs))


def some(rng, big):
    """random worlds"""
    ws = []
    R = lambda: M.rotation(rng) if rng.random() < 0.5 else None
    for i in range(48 if not big else 400):
        m = M.random_voxels(rng, rng.randint(1, 3), rng.randint(1, 3), rng.choice([(1, 1, 1), (2, 1, 1), (2, 2, 1)]))
        q = rng.choice([1, 1, 0.1, 10])
        m.place((q, q, q), R(), tuple(rng.uniform(-3, 3) * q for _ in range(3)))
        k = rng.randint(4, 8)
        size = q / k * rng.uniform(0.6, 1.2)
        sz = None
        if i % 4 == 3:
            sz = [m.fwd([rng.uniform(0, x) for x in m.dims]) + [size * rng.uniform(0.5, 1.5)] for _ in range(rng.randint(1, 30))]
        im = [m.fwd([rng.uniform(-0.2, x + 0.2) for x in m.dims]) + [size * rng.uniform(0.6, 1)] for _ in range(rng.randint(1, 12))] if i % 5 == 4 else None
        ws.append(World(m, k, size, rng.choice([0.05, 0.1, 0.25, 0.5, 0.8]), size * rng.choice([1, 1, 1.5, 100]), rng.choice([1, 1, 2, 4, 8]),
                        off=rng.uniform(0.2, 0.3), spheres=rng.uniform(1.05, 1.2), sizing=sz, imposed=im, rng=rng))
    # more than the front's buffer holds, one and two labels, and many threads
    a = M.voxels("one", {(0, 0, 0): 1}, (1, 1, 1)).place((1, 1, 1), R())
    ws.append(World(a, 8, 0.055, 0.1, 0.055, 1, rng=rng))
    c = M.voxels("twoc", {(0, 0, 0): 1, (1, 0, 0): 2}, (2, 1, 1)).place((1, 1, 1), R())
    ws.append(World(c, 8, 0.07, 0.2, 0.07, 1, rng=rng))
    ws.append(World(c, 9, 0.08, 0.1, 0.09, 2, rng=rng))
    return ws
