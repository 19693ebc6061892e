"""V19: random sampling (specs/RngCore.tla, Rng.tla, RngTrace.tla)."""
import math, os, random, struct, subprocess
from concurrent.futures import ThreadPoolExecutor
from ..common import *
from ..build import build
from .. import tlc
from ..validate import validate


def design(ck):
    for cfg in (["RngCore", "RngCoreT"] if TIER == "thorough" else ["RngCore"]):
        r = tlc.run("RngCore", cfg=cfg, workers=NCPU, heap="6g", timeout=800)
        ck.add_tlc(cfg, r)
        if not r["ok"]:
            raise Infra(cfg + ": " + tlc.err(r["out"]))
    r = tlc.run("RngCore", cfg="RngCoreBad", timeout=200)
    if r["ok"]:
        raise Infra("RngCore: the negative control is not refuted")


def real(h):
    return struct.unpack(">d", bytes.fromhex(h))[0]


def clamp(v, m):
    return max(-m, min(m, v)) if v == v else m


def talk(b, lines):
    try:
        p = subprocess.run([b.drv("drv_rng")], input="".join(lines).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=45)
        return p.stdout.decode(errors="replace").split("\n"), p.returncode
    except subprocess.TimeoutExpired as x:
        return (x.stdout or b"").decode(errors="replace").split("\n"), "a time-out"


SEEDS = [0, 1, 2, 3, 123456789, 1234567890, 617283945, 2 ** 31, 2 ** 32 - 1, 2 ** 53, 2 ** 63 + 5]


def streams(rng, big):
    """several generators, seeded alike and differently, drawn from in turns"""
    cmds = []
    ids = list(range(4))
    pool = rng.sample(SEEDS, 2)
    alive = {}
    for i in ids:
        k = rng.choice(pool)
        cmds.append(("I", i, k))
        alive[i] = k
    t = rng.randint(0, 7)
    for i in (4, 5):
        cmds.append(("T", i, t))
    for _ in range(14 if not big else 40):
        c = rng.random()
        if c < 0.08:
            cmds.append(("O", rng.randint(1, 3)))
        elif c < 0.2:
            cmds.append(("I", rng.choice(ids), rng.choice(pool)))
        elif c < 0.25:
            cmds.append(("T", rng.choice((4, 5)), t))
        else:
            cmds.append(("D", rng.randrange(6), rng.choice([1, 10, 100, 700, 1219, 1220, 1221, 1500])))
    return cmds


def lattice(rng, D, nc):
    """corners of a proper simplex: integers, affinely independent"""
    while True:
        x = [[rng.randint(-300, 300) for _ in range(D)] for _ in range(nc)]
        if len(set(map(tuple, x))) < nc:
            continue
        M = [[x[i][d] - x[0][d] for d in range(D)] for i in range(1, nc)]
        G = [[sum(a * c for a, c in zip(u, v)) for v in M] for u in M]
        det = 1.0
        A = [list(map(float, r)) for r in G]
        for k in range(len(A)):
            piv = max(range(k, len(A)), key=lambda r: abs(A[r][k]))
            A[k], A[piv] = A[piv], A[k]
            if abs(A[k][k]) < 1:
                det = 0
                break
            det *= A[k][k]
            for r in range(k + 1, len(A)):
                f = A[r][k] / A[k][k]
                for c in range(k, len(A)):
                    A[r][c] -= f * A[k][c]
        if det > (100.0 ** 2) ** (nc - 1):
            return x


def bary(p, x):
    """least-squares barycentric coordinates of p (a hint)"""
    n = len(x) - 1
    M = [[x[i + 1][d] - x[0][d] for d in range(len(p))] for i in range(n)]
    A = [[float(sum(a * c for a, c in zip(u, v))) for v in M] + [sum(a * (q - o) for a, q, o in zip(u, p, x[0]))] for u in M]
    for k in range(n):
        piv = max(range(k, n), key=lambda r: abs(A[r][k]))
        A[k], A[piv] = A[piv], A[k]
        for r in range(n):
            if r != k:
                f = A[r][k] / A[k][k]
                for c in range(k, n + 1):
                    A[r][c] -= f * A[k][c]
    w = [A[k][n] / A[k][k] for k in range(n)]
    return [1 - sum(w)] + w


def weights(rng):
    n = rng.choice([1, 2, 3, 5, 8, 17])
    w = [rng.choice([0, 0, 1, 1, 2, 3]) for _ in range(n)]
    c = rng.random()
    if c < 0.15:
        w = [0] * n
    elif c < 0.4 and n > 1:
        w = [0] * n
        for k in rng.sample(range(n), rng.randint(1, 2)):
            w[k] = 1
    while sum(w) > 20:
        w[rng.randrange(n)] = 0
    return w


def ops(rng, big):
    """samplers of two generators with the same seed and the same history, and one with another"""
    script, s = [], rng.choice(SEEDS)
    for _ in range(rng.randint(3, 5)):
        c, N = rng.random(), rng.choice([300, 2000, 2000, 20000])
        if c < 0.25:
            D = rng.randint(1, 5)
            sc = rng.choice([1, 1 / 1024, 64])
            lo = [rng.randint(-50, 50) for _ in range(D)]
            hi = [a + rng.choice([0, 1, 3, 40, 100]) for a in lo]
            script.append(("B", N, D, lo, hi, sc))
        elif c < 0.45:
            script.append(("P", N, rng.randint(1, 5)))
        elif c < 0.7:
            D = rng.randint(1, 4)
            script.append(("X", N, D, lattice(rng, D, rng.randint(2, D + 1)), rng.choice([1.0, 0.37, 1e-3, 512.0])))
        else:
            script.append(("C", N, weights(rng), rng.choice(["1", "0.1", "1e300", "1e-300", "tiny", "tiny"])))
    cmds = [("I", 0, s), ("I", 1, s), ("I", 2, s + 1)]
    seqs = {0: list(range(len(script))), 1: list(range(len(script))), 2: [rng.randrange(len(script))]}
    pend = [i for i in seqs for _ in seqs[i]]
    rng.shuffle(pend)
    for i in pend:
        cmds.append(("S", i, seqs[i].pop(0)))
    return cmds, script


def cdf(w, sc):
    if sc == "tiny":        # multiples of the smallest positive number: every draw is a tie with some entry
        u, t, o = 5e-324, 0, []
        for k in w:
            t += k
            o.append(t * u)
        return o
    t, o = 0.0, []
    for k in w:
        t += k * float(sc)
        o.append(t)
    return o


def text(c, script):
    if c[0] != "S":
        return " ".join(map(str, c)) + "\n"
    o = script[c[2]]
    f = lambda v: "%.17g" % v
    if o[0] == "B":
        return "B %d %d %d %s %s\n" % (c[1], o[1], o[2], " ".join(f(a * o[5]) for a in o[3]), " ".join(f(a * o[5]) for a in o[4]))
    if o[0] == "P":
        return "P %d %d %d\n" % (c[1], o[1], o[2])
    if o[0] == "X":
        return "X %d %d %d %d %s\n" % (c[1], o[1], o[2], len(o[3]), " ".join(f(a * o[4]) for x in o[3] for a in x))
    return "C %d %d %d %s\n" % (c[1], o[1], len(o[2]), " ".join(f(a) for a in cdf(o[2], o[3])))


def hist(keys, w, n):
    c = [0] * len(w)
    for k in keys:
        if 0 <= k < len(w):
            c[k] += 1
    return dict(e="hist", c=c, w=w, n=n)


def op_events(c, o, toks, first):
    """events of one batch"""
    i, n = c[1], o[1]
    if "over" in toks:
        return None, "a sampler wrote past its point"
    if o[0] == "C":
        s = [int(t) for t in toks]
        ev = [dict(e="op", t="cdf", id=i, op=repr(o), v=" ".join(toks[:60]), s=[k + 1 for k in s[:400]] if not first else [k + 1 if k < 10 ** 6 else 0 for k in s], w=o[2])]
        if first:
            ev.append(hist(s, o[2] if any(o[2]) else [1] * len(o[2]), len(s)) if o[3] != "tiny" else dict(e="hist", c=[1], w=[1], n=1))
            if o[3] == "tiny":
                ev.pop()
        return ev, ""
    D = o[2]
    X = [real(t) for t in toks]
    if len(X) != n * D:
        return None, "a sampler gave %d numbers for %d points" % (len(X), n)
    P = [X[k * D:(k + 1) * D] for k in range(n)]
    if any(not math.isfinite(v) for v in X):
        return None, "a sample is not finite"
    head = " ".join(toks[:40])
    m = 200 if first else 10
    if o[0] == "B":
        lo, hi, sc = o[3], o[4], o[5]
        u = 64
        fl = [[clamp(math.floor(v / sc * u), 10 ** 6) for v in p] for p in P[:]]
        ce = [[clamp(math.ceil(v / sc * u), 10 ** 6) for v in p] for p in P[:]]
        ev = [dict(e="op", t="box", id=i, op=repr(o), v=head, f=fl[:m * 4], c=ce[:m * 4], lo=[a * u for a in lo], hi=[a * u for a in hi])]
        if first:
            ds = [d for d in range(D) if hi[d] > lo[d]][:3]
            if ds:
                ev.append(hist([sum((1 << j) for j, d in enumerate(ds) if p[d] / sc >= (lo[d] + hi[d]) / 2) for p in P], [1] * (1 << len(ds)), n))
                ev.append(hist([min(9, max(0, int(10 * (p[ds[-1]] / sc - lo[ds[-1]]) / (hi[ds[-1]] - lo[ds[-1]])))) for p in P], [1] * 10, n))
        return ev, ""
    if o[0] == "P":
        ev = [dict(e="op", t="sphere", id=i, op=repr(o), v=head, q=[[clamp(round(v * 10000), 20000) for v in p] for p in P[:m * 2]], k=10000)]
        if first:
            ev.append(hist([sum((1 << d) for d in range(min(D, 4)) if p[d] >= 0) for p in P], [1] * (1 << min(D, 4)), n))
            if D == 3:          # the height on a sphere is uniform
                for d in range(3):
                    ev.append(hist([min(9, max(0, int(5 * (p[d] + 1)))) for p in P], [1] * 10, n))
            if D == 2:
                ev.append(hist([int(10 * ((math.atan2(p[1], p[0]) / (2 * math.pi)) % 1)) % 10 for p in P], [1] * 10, n))
            if D > 2:           # any two coordinates are as often in either order
                ev.append(hist([int(abs(p[0]) > abs(p[-1])) for p in P], [1, 1], n))
        return ev, ""
    K, x, sc = 100000, o[3], o[4]
    Q = [[v / sc for v in p] for p in P]
    W = [bary(q, x) for q in Q]
    ev = [dict(e="op", t="simplex", id=i, op=repr(o), v=head, p=[[clamp(round(v * K), 2 * 10 ** 8) for v in q] for q in Q[:m]], x=x,
               w=[[clamp(round(v * K), 10 ** 6) for v in w] for w in W[:m]], k=K)]
    if first:
        nc = len(x)
        ev.append(hist([max(range(nc), key=lambda k: w[k]) for w in W], [1] * nc, n))
        ev.append(hist([min(range(nc), key=lambda k: w[k]) for w in W], [1] * nc, n))
        if nc == 2:
            ev.append(hist([min(9, max(0, int(10 * w[0]))) for w in W], [1] * 10, n))
        if nc == 3:             # the part nearer than a half to a corner is a quarter
            ev.append(hist([0 if w[0] > 0.5 else 1 for w in W], [1, 3], n))
        if nc == 4:
            ev.append(hist([0 if w[0] > 0.5 else 1 for w in W], [1, 7], n))
    return ev, ""


def run(ck):
    b = build()
    big = TIER == "thorough"
    rng = random.Random(SEED * 86028121 + 19)
    ex0 = ThreadPoolExecutor(1)
    fut = ex0.submit(design, ck)
    S = [(streams(rng, big), []) for _ in range(8 if not big else 60)] + [ops(rng, big) for _ in range(60 if not big else 600)]
    jobs, info = [], []
    with ThreadPoolExecutor(NCPU) as ex:
        for (cmds, script), (out, rc) in zip(S, ex.map(lambda t: talk(b, [text(c, t[1]) for c in t[0]]), S)):
            txt = "".join(text(c, script) for c in cmds)
            out = [x for x in out if x]
            if rc != 0 or len(out) != len(cmds):
                ck.violation("sampling ended with %s after %d of %d requests: %s" % (rc, len(out), len(cmds), text(cmds[min(len(out), len(cmds) - 1)], script)[:200].strip()), text=txt)
                continue
            ev, seen, bad = [], set(), ""
            for c, line in zip(cmds, out):
                toks = line.split()[1:]
                if c[0] in "IT":
                    ev.append(dict(e="seed", id=c[1] + 1, key=c[0] + str(c[2])))
                elif c[0] == "D":
                    X = [real(t) for t in toks]
                    ev.append(dict(e="draw", id=c[1] + 1, v=toks, h=[-1 if not v >= 0 else min(1 << 20, math.floor(v * (1 << 20))) for v in X]))
                    if len(X) >= 1000:
                        ev.append(hist([int(v * 16) for v in X if 0 <= v < 1], [1] * 16, len(X)))
                elif c[0] == "S":
                    e, bad = op_events(("S", c[1] + 1), script[c[2]], toks, c[2] not in seen)
                    seen.add(c[2])
                    if bad:
                        ck.violation("sampling: " + bad, text=txt)
                        break
                    ev += e
            if not bad:
                jobs.append(dict(ev=ev))
                info.append(txt)
    try:
        fut.result()
    finally:
        ex0.shutdown()
    ck.cov["requests"] = sum(len(c) for c, _ in S)
    if jobs:
        for i, why in validate(ck, "RngTrace", jobs, weight=lambda j: len(j["ev"])):
            ck.violation("sampling: %s" % why[:500], text=info[i])
        ck.sample(jobs[-1]["ev"][0])
