"""V07: surface seeds are the mirrored intersection points of the spheres (specs/Pairs.tla)."""
import random
from ..common import *
from ..build import build
from .. import pipe, corpus
from .. import models as M
from ..crust import *
from .v05 import load_all, judge


def job(c, z):
    on, m, a = surface_seeds(z)
    T, P, Q, h = triples(z)
    ev = []
    wp, wq = deepest(P, z, T), deepest(Q, z, T)
    S = z.s[:m]
    np_, nq = nearest(P, S), nearest(Q, S)

    def wit(w, k, p, u):
        if not np.isfinite(w[1][k]) or w[1][k] > 1.5:
            return []
        j = w[0][k]
        # a big fourth sphere is seen in a unit that keeps it in range
        u = max(u, z.r[j] / 20000)
        return [ints((p - z.c[j]) / u), int(round(z.r[j] / u))]
    for k in range(len(T)):
        t = T[k]
        u = z.r[t].max() / 20000
        rm = z.r[t].min()
        s = lambda n: [int(n[0][k]) + 1 if len(S) else 0, int(min(10**6, np.ceil(n[1][k] / rm * 1e6))) if len(S) else 10**6,
                       int(min(10**6, round(z.h[n[0][k]] / u))) if len(S) else 0]
        ev.append(dict(e="triple", t=[int(x) + 1 for x in t], k=[int(x) for x in z.k[t]], r=[int(round(x / u)) for x in z.r[t]],
                       p=[ints((P[k] - z.c[x]) / u) for x in t], q=[ints((Q[k] - z.c[x]) / u) for x in t],
                       wp=wit(wp, k, P[k], u), wq=wit(wq, k, Q[k], u), sp=s(np_), sq=s(nq)))
    di, dd = deepest(z.s, z)
    sep = np.full(len(z.s), np.inf)
    A = z.s[:m + a]
    for x in range(0, len(A), 2000):
        D = pair_dist(A[x:x + 2000], A)
        D[np.arange(len(D)), np.arange(x, x + len(D))] = np.inf
        sep[x:x + len(D)] = D.min(1)
    for i in range(len(z.s)):
        # seeds far from every sphere cannot be inside one
        j = di[i]
        u = max(z.r[j], np.linalg.norm(z.s[i] - z.c[j])) / 20000
        ev.append(dict(e="seed", i=i + 1, on=int(on[i]), w=[ints((z.s[i] - z.c[j]) / u), int(round(z.r[j] / u))],
                       s=int(min(10**9, sep[i] / z.h[i] * 1e8)) if np.isfinite(sep[i]) else 10**9))
    ev.append(dict(e="done"))
    return dict(n=len(z.s), m=int(m), a=int(a), ev=ev)


def cases(rng, big):
    cs = corpus.base() + corpus.random_cases(5 if not big else 40, rng)
    mo = corpus.more()
    cs += mo if big else [c for c in mo if c.name in ("octa", "prism", "small", "sphere", "torus", "cyl")]
    return cs


def run(ck):
    b = build()
    pipe.prune(b)
    rng = random.Random(SEED * 7919 + 7)
    res = load_all(ck, b, cases(rng, TIER == "thorough"))
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(NCPU) as ex:
        jobs = list(ex.map(_job, [(c, z) for c, r, z in res]))
    ck.cov["triples"] = sum(1 for j in jobs for e in j["ev"] if e["e"] == "triple")
    ck.cov["seeds"] = sum(j["n"] for j in jobs)
    judge(ck, "Pairs", jobs, res)
    if jobs:
        ck.sample(jobs[0]["ev"][:2])


def _job(a):
    return job(*a)
