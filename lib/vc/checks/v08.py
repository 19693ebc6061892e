"""V08: interior seeds (specs/Interior.tla on full runs; specs/Front.tla, the design of the parallel front)."""
import random
from ..common import *
from ..build import build
from .. import pipe, corpus, tlc, worlds
from .. import models as M
from ..crust import *
from .v05 import load_all, judge

K, TOL = 4, 4


def boxes(J, ev):
    """closes every box, depth first"""
    X, H = np.array(J["x"], dtype=np.int64).reshape(-1, 3), np.minimum(30000, K * np.array(J["h"], dtype=np.int64) + TOL)
    C, R = np.array(J["c"], dtype=np.int64).reshape(-1, 3), np.minimum(30000, np.array(J["r"], dtype=np.int64) + TOL)
    A = np.concatenate([X, C])
    B = np.concatenate([H, R])
    names = list(range(1, len(X) + 1)) + [-i for i in range(1, len(C) + 1)]
    run = []

    def flush():
        if run:
            ev.append(dict(e="leaf", s=list(run)))
            run.clear()

    def go(lo, hi, idx, depth):
        lo_, hi_ = np.array(lo), np.array(hi)
        c = A[idx]
        far = (np.maximum(np.abs(lo_ - c), np.abs(hi_ - c)) ** 2).sum(1)
        ok = far <= B[idx] ** 2
        if ok.any():
            run.append(names[idx[int(np.nonzero(ok)[0][0])]])
            return True
        gap = np.maximum(0, np.maximum(lo_ - c, c - hi_))
        idx = idx[(gap ** 2).sum(1) <= B[idx] ** 2]
        if len(idx) == 0 or max(h - l for l, h in zip(lo, hi)) <= 2:
            run.append(0)
            return False
        flush()
        ev.append(dict(e="split"))
        mid = [(l + h) // 2 for l, h in zip(lo, hi)]
        for k in range(8):
            b = [(lo[m], mid[m]) if not (k >> m) & 1 else (mid[m], hi[m]) for m in range(3)]
            if not go([x[0] for x in b], [x[1] for x in b], idx, depth + 1):
                return False
        return True
    for lo, hi in J["b"]:
        ev.append(dict(e="box"))
        ok = go(lo, hi, np.arange(len(A)), 0)
        flush()
        if not ok:
            return False
    return True


def job(c, z):
    from scipy.spatial import cKDTree
    if hasattr(z, "given"):
        m = z.given
    else:
        on, m, a = surface_seeds(z)
        m += a
    n = len(z.s)
    ev = []
    J = dict(n=n, m=int(m), lip=int(round(c.lip * 1000)), x=[], h=[], c=[], r=[], b=[], bc=[])
    mo = c.m
    box = np.zeros(n, dtype=int)
    if mo.vox:
        # a frame in which the cells are boxes and distances are kept
        R = np.array(mo.R) if mo.R else np.eye(3)
        S = np.array(mo.s)
        ext = (S * np.array(mo.dims)).max()
        u = ext / 20000
        back = lambda P: ((P - np.array(mo.t)) @ R) / u
        J["x"] = [[int(round(min(60000, max(-60000, q)))) for q in p] for p in back(z.s)]
        J["h"] = [int(min(30000 // K, x / u)) for x in z.h]
        J["c"] = [ints(p) for p in back(z.c)]
        J["r"] = [int(min(30000, x / u)) for x in z.r]
        g = lambda q: [int(round(q[k] * S[k] / u)) for k in range(3)]
        comp = mo.components()[0]
        cells = sorted(p for p in comp if comp[p])
        J["b"] = [[g(p), g([x + 1 for x in p])] for p in cells]
        J["bc"] = [comp[p] for p in cells]
        X = np.array(J["x"])
        for k, (lo, hi) in enumerate(J["b"]):
            box[((X >= np.array(lo) - 2) & (X <= np.array(hi) + 2)).all(1)] = k + 1
        keep = [i for i in range(n) if max(map(abs, J["x"][i])) <= 25000]
        if len(keep) != n:      # a seed far outside: irrelevant here, but it would overflow
            for i in set(range(n)) - set(keep):
                J["x"][i], J["h"][i] = [-20000, -20000, -20000], 0
        if not boxes(J, ev):
            ev.append(dict(e="done"))
            J["ev"] = ev
            return J
    sz = np.array(c.sizing) if c.sizing else None
    t = cKDTree(z.s)
    k = min(60, n)
    dd, ii = t.query(z.s[m:], k=k) if m < n else ([], [])
    rng = random.Random(n)
    for i in range(m, n):
        u = z.h[i] / 10000 if c.rmax is None else max(z.h[i], min(c.rmax, 100 * z.h[i])) / 100000
        s = []
        if sz is not None:
            d = np.linalg.norm(sz[:, :3] - z.s[i], axis=1)
            near = np.argsort(d)[:3]
            s = [[int(round(min(10**3, d[q] / d[near[0]]) * 1e6)) if d[near[0]] > 0 else (0 if d[q] == 0 else 10**6), int(min(10**9, round(sz[q, 3] / u)))] for q in near]
        ev.append(dict(e="size", i=i + 1, h=int(round(z.h[i] / u)), g=int(z.g[i]), k=int(box[i]), max=int(round(min(c.rmax, 100 * z.h[i]) / u)) if c.rmax is not None else 0, sz=s))
        d, j = dd[i - m], ii[i - m]
        ok = j != i
        d, j = d[ok], j[ok]
        if not len(j):
            continue
        pick = {int(np.argmin(d / np.minimum(z.h[i], z.h[j])))}
        slack = np.abs(z.h[i] - z.h[j]) - c.lip * d
        slack[d >= 2 * np.maximum(z.h[i], z.h[j])] = -np.inf
        pick |= {int(q) for q in np.argsort(-slack)[:2]}
        for q in sorted(pick):
            v = z.s[j[q]] - z.s[i]
            dist = float(np.linalg.norm(v))
            u = max(dist, z.h[i], z.h[j[q]]) / 20000
            ev.append(dict(e="pair", i=i + 1, j=int(j[q]) + 1, v=ints(v / u), d=int(round(dist / u)), h=[int(round(z.h[i] / u)), int(round(z.h[j[q]] / u))]))
    # the sphere every interior seed is deepest in
    tc = cKDTree(z.c)
    kk = min(40, len(z.c))
    for i in range(m, n):
        d, j = tc.query(z.s[i], k=kk)
        d, j = np.atleast_1d(d), np.atleast_1d(j)
        q = int(np.argmin(d / z.r[j]))
        if d[q] < 1.5 * z.r[j[q]]:
            u = max(d[q], z.r[j[q]]) / 20000
            ev.append(dict(e="out", i=i + 1, v=ints((z.c[j[q]] - z.s[i]) / u), d=int(round(d[q] / u)), r=int(z.r[j[q]] / u)))
    ev.append(dict(e="done"))
    J["ev"] = ev
    return J


def cases(rng, big):
    cs = corpus.base() + corpus.random_cases(5 if not big else 40, rng)
    R = lambda: M.rotation(rng)
    # a large interior, gradual and limited in several ways, with one and many threads
    cs += [corpus.Case("wide1", M.voxels("wide", {(0, 0, 0): 1}, (1, 1, 1)).place((1, 1, 1), R()), lip=0.35, rmax=0.2, threads=8),
           corpus.Case("steep", M.voxels("slab", {(0, 0, 0): 1, (1, 0, 0): 1}, (2, 1, 1)).place((2, 1, 1)), lip=0.9, rmax=0.4, threads=4)]
    m = M.cube().place((2, 2, 2), R())
    o = m.fwd([0.5, 0.5, 0.5])
    cs.append(corpus.Case("core", m, lip=0.3, angle=40, threads=2,
                          sizing=corpus.sizing_grid(m, 0.35, 1.0, rng, 120) + [o + [0.08]]))
    mo = corpus.more()
    cs += mo if big else [c for c in mo if c.name in ("octa", "prism", "small", "sphere", "fine", "cyl")]
    return cs


def run(ck):
    from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
    big = TIER == "thorough"
    for cfg, ok in (("FrontT" if big else "Front", True), ("FrontBad", False)):
        r = tlc.run("Front", cfg=cfg, workers=NCPU, timeout=800)
        ck.add_tlc("Front/" + cfg, r)
        if r["ok"] != ok:
            raise Infra("Front/%s: %s" % (cfg, tlc.err(r["out"])))
    b = build()
    pipe.prune(b)
    rng = random.Random(SEED * 7919 + 8)
    res = load_all(ck, b, cases(rng, big))
    # worlds filled by the seed generator alone
    d = os.path.join(BUILD, 'none')
    if ck.violations:
        pass
    elif os.path.exists(b.drv("drvx_interior")):
        d = scratch("v08")
        ws = worlds.some(rng, big)
        k = 0
        for i, (w, r) in enumerate(zip(ws, worlds.replay(b, ws, d))):
            if r is None:
                continue
            if isinstance(r, str):
                ck.violation("world %d: %s" % (i, r))
                continue
            w.name, k = "world%d" % i, k + 1
            res.append((w, Here(d), w.crust(*r)))
        ck.cov["worlds"] = k
    else:
        ck.notes.append("no worlds were filled: the driver does not compile on this tree")
    with ProcessPoolExecutor(NCPU) as ex:
        jobs = list(ex.map(_job, [(c, z) for c, r, z in res]))
    ck.cov["interior_seeds"] = sum(j["n"] - j["m"] for j in jobs)
    ck.cov["boxes"] = sum(len(e["s"]) for j in jobs for e in j["ev"] if e["e"] == "leaf")
    judge(ck, "Interior", jobs, res)
    if res and not ck.violations:
        shutil.rmtree(d, ignore_errors=True)
    if jobs:
        ck.sample([e for e in jobs[0]["ev"] if e["e"] in ("size", "pair")][:3])


class Here:
    def __init__(self, d):
        self.d = d


def _job(a):
    return job(*a)
