"""V11: the point collection's data (specs/Tree.tla, TreeGen.tla, TreeTrace.tla)."""
import random
from ..common import *
from ..build import build
from .. import tlc
from ..treelab import Hist, play
from ..validate import validate

POS = [(0, 1), (2, 0), (1, 1), (2, 0)]


def replay(g, k, rng):
    h = Hist(2, rng.choice([1, 1 / 3, 0.1]), False, "gen%s" % g)
    for o, i, j in g:
        if o == "add":
            h.add(POS[h.n], (h.n, 1), [h.n, 7])
        elif o in ("link1", "link2"):
            h.link(i - 1, j - 1, o == "link2")
        elif o == "seti":
            h.seti(i - 1, 0, j)
        elif o == "unlink":
            h.unlink()
        elif o == "balance":
            h.keep("B")
        elif o == "renumber":
            h.renumber()
        elif o == "saveload":
            h.saveload(3)
        elif o == "clear":
            h.clear()
        h.dump()
    return h


def long(rng, k, big):
    D = rng.choice([1, 2, 3, 3, 4])
    na = rng.choice([0, 1, 2, 3, 5])
    mixed = rng.random() < 0.4
    h = Hist(D, rng.choice([1, 1 / 3, 0.1, 1e-5, 1e4 / 7]), False, "long#%d" % k)
    extra = rng.choice([0, 0, 1, 3])
    if rng.random() < 0.2:
        h.keep("Y %d" % rng.randint(1, 4))
    top = rng.choice([8, 30, 99, 101, 150, 205, 260])
    steps = rng.choice([60, 200, 420]) if not big else rng.choice([200, 600])
    hub = None
    while steps > 0:
        steps -= 1
        c = rng.random()
        n = h.n
        if n == 0 or (c < 0.35 and n < top):
            for _ in range(rng.choice([1, 1, 1, 5, 40])):
                if h.n >= top:
                    break
                a = None if na == 0 and not mixed else [rng.randint(0, 999) for _ in range(na if not mixed else rng.choice([0, 1, 2, 4]))]
                if mixed and rng.random() < 0.2:
                    a = None
                nn = [rng.randint(-9, 9) for _ in range(D)] if rng.random() < 0.8 else None
                h.add([rng.randint(-50, 50) for _ in range(D + extra)], nn, a)
            continue
        i = rng.randrange(n)
        if c < 0.55 and n > 1:
            if hub is None or hub >= n or rng.random() < 0.03:
                hub = rng.randrange(n)
            for _ in range(rng.choice([1, 1, 2, 12])):
                i = hub if rng.random() < 0.6 else rng.randrange(n)
                j = rng.randrange(n)
                if i != j:
                    h.link(*((i, j) if rng.random() < 0.5 else (j, i)), both=rng.random() < 0.7)
        elif c < 0.60:
            h.conn(i, rng.randrange(n))
        elif c < 0.67 and extra:
            h.setr(i, rng.randrange(extra), rng.randint(-99, 99))
        elif c < 0.75 and len(h.pts[i][1]) > 1 and not any(e.startswith(("E",)) for e in h.cmds):
            h.seti(i, rng.randrange(len(h.pts[i][1]) - 1), rng.randint(0, 9999))
        elif c < 0.82:
            h.geti(i, rng.randint(0, 5))
        elif c < 0.89:
            h.one(i)
        elif c < 0.92:
            h.keep("B")
        elif c < 0.935:
            h.renumber()
        elif c < 0.945:
            h.unlink()
            hub = None
        elif c < 0.955:
            if not mixed:
                h.dump()
                h.saveload(D + extra + 1)
                h.dump()
        elif c < 0.96:
            h.clear()
            hub = None
        elif n < 60 or rng.random() < 0.3:
            h.dump()
    h.dump()
    if rng.random() < 0.3:
        h.clear()
    return h


def run(ck):
    b = build()
    big = TIER == "thorough"
    rng = random.Random(SEED * 15485863 + 11)
    r = tlc.run("TreeGen", cfg="TreeGenT" if big else "TreeGen", workers=1, heap="4g", timeout=800)
    ck.add_tlc("TreeGen", r)
    if not r["ok"]:
        raise Infra("the collection design is wrong: " + tlc.err(r["out"]))
    g = tlc.printed(r["out"])
    ck.cov["histories_enumerated"] = len(g)
    lim = 4000 if not big else 40000
    if len(g) > lim:
        g = rng.sample(g, lim)
    hs = [replay(x, k, rng) for k, x in enumerate(g)]
    hs += [long(rng, k, big) for k in range(160 if not big else 1500)]
    got = play(b.drv("drv_tree"), hs, ck, "the point collection")
    jobs = [j for _, j in got]
    ck.cov["histories"] = len(jobs)
    ck.cov["operations"] = sum(len(j["ev"]) for j in jobs)
    if jobs:
        for i, why in validate(ck, "TreeTrace", jobs, timeout=800, weight=lambda j: len(j["ev"]) + 4 * sum(len(e.get("s", "")) for e in j["ev"])):
            h = got[i][0]
            ck.violation("collection history %s: %s" % (h.name, why[:700]), text="\n".join(h.cmds))
        ck.sample(jobs[0]["ev"][:4])
