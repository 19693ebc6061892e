"""V05: every size bound of the protecting spheres (specs/Spheres.tla)."""
import random
from ..common import *
from ..build import build
from .. import pipe, corpus, crust
from .. import models as M
from ..crust import *
from ..validate import validate


def job(c, z):
    ev = []
    n = len(z.r)
    sz = np.array(c.sizing) if c.sizing else None
    flat = c.m.flat
    if flat:
        V = np.array(c.m.verts())
        best, foot = feet(z.c, V, c.m.tris)
        area = sum(np.linalg.norm(np.cross(V[t[1]] - V[t[0]], V[t[2]] - V[t[0]])) / 2 for t in c.m.tris)
        hole = 6 * np.sqrt(area / 500000)
    D = pair_dist(z.c, z.c)
    np.fill_diagonal(D, np.inf)
    for i in range(n):
        u = z.r[i] / 10000 if c.rmax is None else max(z.r[i], min(c.rmax, 100 * z.r[i])) / 100000
        s = []
        if sz is not None:
            d = np.linalg.norm(sz[:, :3] - z.c[i], axis=1)
            near = np.argsort(d)[:3]
            s = [[int(round(d[k] / d[near[0]] * 1e6)) if d[near[0]] > 0 else (0 if d[k] == 0 else 10**6), int(min(10**9, round(sz[k, 3] / u)))] for k in near]
        ev.append(dict(e="sphere", k=int(z.k[i]), r=int(round(z.r[i] / u)), max=int(round(min(c.rmax, 100 * z.r[i]) / u)) if c.rmax is not None else 0, sz=s))
        if flat and np.isfinite(best[i]):
            u = max(best[i], hole, z.r[i] / 2) / 2000
            ev.append(dict(e="clear", r=int(z.r[i] / u), h=int(hole / u) + 1, v=ints((foot[i] - z.c[i]) / u)))
        # the partners that are most likely to break the Lipschitz bound, of each kind
        slack = z.r[i] - z.r - c.lip * D[i]
        for k in range(3):
            if k > z.k[i]:
                continue
            m = (z.k == k)
            if k == z.k[i] and k > 0:
                m = m & (D[i] < 2 * z.r[i])
            idx = np.nonzero(m & np.isfinite(D[i]))[0]
            if len(idx):
                for j in idx[np.argsort(-slack[idx])[:2]]:
                    ev.append(pair_event(z, i, int(j)))
                if k == 0 and z.k[i] == 0:
                    ev.append(pair_event(z, i, int(idx[np.argmin(D[i][idx])])))
    ev.append(dict(e="done", n=z.counts))
    return dict(lip=int(round(c.lip * 1000)), ev=ev)


def cases(rng, big):
    cs = corpus.base()
    # sizing files of several kinds: coarse, fine, one point, more points than the model has, steps
    for k in range(6):
        m = rng.choice([M.cube, M.two, M.tetra, M.ell])()
        m.place((2, 2, 2), M.rotation(rng), (rng.uniform(-5, 5), 1, 2))
        lo, hi = rng.choice([(0.4, 0.6), (0.3, 1.5), (0.25, 0.3)])
        cs.append(corpus.Case("sz%d" % k, m, lip=rng.choice([0.2, 0.5]), angle=40, threads=rng.choice([1, 2, 4]),
                              sizing=corpus.sizing_grid(m, lo, hi, rng, rng.choice([1, 7, 60, 3000])), rmax=rng.choice([None, 0.5])))
    for k, rm in enumerate([0.3, 0.15, 5.0]):
        cs.append(corpus.Case("rm%d" % k, M.ell().place((1, 1, 1), M.rotation(rng)), rmax=rm, lip=0.3, threads=rng.choice([1, 3])))
    # corners of very different size, and a sizing file with a sudden step
    sp = M.Model("spike", [(0, 0, 0), (2, 0, 0), (0, 2, 0), (0, 0, 6)], [(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)])
    cs.append(corpus.Case("spike", sp.place(R=M.rotation(rng)), lip=0.15, angle=30, threads=2))
    m = M.cube().place((2, 2, 2), M.rotation(rng))
    pts = [m.fwd([rng.random() for _ in range(3)]) for _ in range(150)]
    o = m.fwd([0.0, 0.0, 0.0])
    cs.append(corpus.Case("step", m, lip=0.15, angle=40, threads=1, sizing=[p + [0.12 if sum((a - b) ** 2 for a, b in zip(p, o)) < 0.3 else 1.5] for p in pts + [o]]))
    cs += corpus.random_cases(6 if not big else 40, rng)
    if big:
        cs += corpus.more()
    else:
        cs += [c for c in corpus.more() if c.name in ("octa", "prism", "small", "sphere", "cyl")]
    return cs


def load_all(ck, b, cs):
    res = []
    for c, r in zip(cs, pipe.many(b, [c.files() for c in cs])):
        if r is None:
            continue
        z, why = load(c, r)
        if z is None:
            ck.violation(why, files=[r.d])
        else:
            res.append((c, r, z))
    ck.cov["runs"] = [c.name for c, _, _ in res][:80]
    return res


def judge(ck, module, jobs, owner, weight=None):
    if not jobs or len(ck.violations) > 3:
        return
    for i, why in validate(ck, module, jobs, timeout=850, heap="3g", weight=weight):
        ck.violation("run %s: %s" % (owner[i][0].name, why), files=[owner[i][1].d])


def run(ck):
    b = build()
    pipe.prune(b)
    rng = random.Random(SEED * 7919 + 5)
    res = load_all(ck, b, cases(rng, TIER == "thorough"))
    jobs = [job(c, z) for c, r, z in res]
    ck.cov["spheres"] = sum(len(z.r) for _, _, z in res)
    judge(ck, "Spheres", jobs, res)
    if jobs:
        ck.sample(jobs[0]["ev"][:4])
