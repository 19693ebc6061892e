"""V10: index queries (specs/KdTree.tla, KdTreeGen.tla, Tree.tla, TreeTrace.tla)."""
import random
from ..common import *
from ..build import build
from .. import tlc
from ..treelab import Hist, Kd, play
from ..validate import validate

THR = [(1, 4), (3, 4), (9, 10), (1, 2), (1, 100), (99, 100)]


def normal(rng, D):
    while True:
        n = [rng.randint(-2, 2) for _ in range(D)]
        if any(n):
            return n


def ask(h, rng, x, kinds):
    """one random query at x"""
    D = h.D
    b = rng.choice([-1, -1, -1, 2 * rng.randint(0, 15) + 1, 2 * rng.randint(0, 6) ** 2, 2 * rng.randint(1, 400) + 1])
    k = rng.choice(kinds)
    if k == "qx":
        h.q("qx", x, b=b)
    elif k == "qi":
        h.q("qi", p=rng.randrange(h.n), b=b)
    elif k == "qe":
        h.q("qe", x, ex=rng.sample(range(h.n), min(h.n, rng.choice([0, 1, 1, 2, 3, 8]))), b=b)
    elif k == "qs":
        h.q("qs", x, tol=2 * rng.choice([0, 0, 1, 4, 9]) + 1, thr=rng.choice(THR), b=b)
    elif k == "qt":
        h.q("qt", x, tol=2 * rng.choice([0, 0, 1, 4, 9]) + 1, thr=rng.choice(THR), b=b)
    elif k == "qn":
        h.q("qn", x, n=normal(rng, D), thr=rng.choice(THR), b=b)
    elif k == "qm":
        h.q("qm", x, ns=[normal(rng, D) for _ in range(rng.choice([1, 1, 2, 3]))], thr=rng.choice(THR), b=b)
    elif k == "R":
        h.range(x, rng.choice([0, 1, 2, 3, 5, 8, 9, 18, 33, 50, 101, 201, 2000]), rng.choice([1, 2, 10, 10, 100]))
    elif k == "qd":
        h.half(x, rng.choice([None, normal(rng, D), normal(rng, D)]), b)
    elif k == "qp":
        p = rng.randrange(h.n)
        h.halfp(p, rng.choice([None, normal(rng, D), normal(rng, D)]), b)


ALL = ["qx", "qx", "qi", "qe", "qs", "qt", "qn", "qm", "R", "R"]


def target(rng, h, w):
    """a query point: near, on, or away from the stored points"""
    if h.n and rng.random() < 0.5:
        p = rng.choice(h.pts)[0][:h.D]
        if rng.random() < 0.4:
            return list(p)
        return [v + rng.randint(-2, 2) for v in p]
    return [rng.randint(-w - 2, w + 2) for _ in range(h.D)]


def pattern(rng, D, n):
    """insertion orders that the index has to survive"""
    k = rng.choice(["grid", "grid", "line", "back", "dup", "wide", "cluster", "planar", "zigzag"])
    w = {"grid": 3, "dup": 0, "wide": 20, "cluster": 12, "planar": 8}.get(k, 6)
    res = []
    c = [rng.randint(-w, w) for _ in range(D)]
    for i in range(n):
        if k in ("line", "back"):
            m = min(n, 38)
            v = i * m // n - m // 2
            res.append([v if k == "line" else -v] * D if rng.random() < 0.97 else [0] * D)
        elif k == "zigzag":
            v = (i // 12) * (1 if i % 2 else -1)
            res.append([max(-20, min(20, v))] + [0] * (D - 1))
        elif k == "planar":
            res.append([rng.randint(-w, w) for _ in range(D - 1)] + [0] if D > 1 else [rng.randint(-w, w)])
        elif k == "cluster":
            if rng.random() < 0.1:
                c = [rng.randint(-w, w) for _ in range(D)]
            res.append([v + rng.randint(-1, 1) for v in c])
        else:
            res.append([rng.randint(-w, w) for _ in range(D)])
    return k, max(w, 6), res


def run(ck):
    b = build()
    big = TIER == "thorough"
    rng = random.Random(SEED * 104729 + 10)
    for cfg, good in (("KdTreeT" if big else "KdTree", True), ("KdTreeBad", False)):
        r = tlc.run("KdTree", cfg=cfg, workers=NCPU, timeout=800)
        ck.add_tlc(cfg, r)
        if r["ok"] != good:
            raise Infra("the index design check went wrong (%s): %s" % (cfg, tlc.err(r["out"])))
    r = tlc.run("KdTreeGen", workers=1, timeout=300)
    ck.add_tlc("KdTreeGen", r)
    gens = tlc.printed(r["out"])
    hs = []
    for g in gens:
        h = Hist(2, rng.choice([1, 1, 0.25, 64]), True, "gen%s" % g)
        if rng.random() < 0.5:
            h.keep("O")
        for p in g:
            h.add([2 * p[0], 2 * p[1]], normal(rng, 2))
        for ph in range(3):
            if ph == 1:
                h.keep("B")
            if ph == 2:
                h.renumber()
                h.pts = h.pts[:]
            ks = ALL if ph < 2 else [k for k in ALL if k != "qi"]
            for _ in range(12 if not big else 60):
                ask(h, rng, [rng.randint(-1, 5), rng.randint(-1, 3)], ks)
        hs.append(h)
    ngen = len(hs)
    for k in range(120 if not big else 900):
        D = rng.choice([1, 2, 2, 3, 3, 3, 4])
        n = rng.choice([1, 2, 5, 12, 30, 70, 99, 100, 101, 130, 205, 410])
        kind, w, xs = pattern(rng, D, n)
        h = Hist(D, 2.0 ** rng.randint(-6, 6), True, "%s-%d-%d#%d" % (kind, D, n, k))
        if rng.random() < 0.3:
            h.keep("O")
        if rng.random() < 0.15:
            for p in xs[:5]:
                h.add(p, normal(rng, D))
            h.clear()
        every = max(1, n // 6)
        if rng.random() < 0.3:      # a query of the empty collection
            h.q("qx", [0] * D)
        renumbered = False
        for i, p in enumerate(xs):
            h.add(p, normal(rng, D) if rng.random() < 0.9 else None)
            if i % every == every - 1 or i == n - 1:
                c = rng.random()
                if c < 0.35:
                    h.keep("B")
                elif c < 0.5:
                    h.renumber()
                    renumbered = True
                for _ in range(rng.randint(4, 10) if not big else 30):
                    ask(h, rng, target(rng, h, w), ALL if not renumbered else [q for q in ALL if q != "qi"])
        hs.append(h)
    got = play(b.drv("drv_tree"), hs, ck, "the point collection")
    if os.path.exists(b.drv("drvx_kd")):
        ks = []
        for k in range(150 if not big else 1200):
            D = rng.choice([1, 2, 3, 3, 3])
            n = rng.choice([1, 2, 3, 4, 5, 7, 12, 30, 60, 120, 250])
            kind, w, xs = pattern(rng, D, n)
            rng.shuffle(xs)
            h = Kd(D, xs, 2.0 ** rng.randint(-6, 6), "mesher-%s-%d-%d#%d" % (kind, D, n, k))
            for _ in range(15):
                ask(h, rng, target(rng, h, w), ["qx", "qd", "qp", "R"])
            if D == 3 and n < 130:
                h.renumber()
                for _ in range(12):
                    ask(h, rng, target(rng, h, w), ["qx", "qd", "R"])
            ks.append(h)
        got += play(b.drv("drvx_kd"), ks, ck, "the mesher's index")
    else:
        ck.notes.append("the mesher's own index was not driven: the driver does not compile on this tree")
    jobs = [j for _, j in got]
    ck.cov["histories_from_the_specification"] = ngen
    ck.cov["histories"] = len(jobs)
    ck.cov["queries"] = sum(len(e["q"]) for j in jobs for e in j["ev"] if e["e"] == "q")
    if jobs:
        for i, why in validate(ck, "TreeTrace", jobs, timeout=800, weight=lambda j: sum(len(e.get("q", "1")) * (len(j["ev"])) for e in j["ev"])):
            h = got[i][0]
            ck.violation("index history %s: %s" % (h.name, why[:700]), text="\n".join(h.cmds))
        ck.sample(jobs[min(700, len(jobs) - 1)]["ev"][-1])
