"""V04: the mesh fills the model and conforms to its surface (specs/Fill.tla)."""
import random, math
from ..common import *
from ..build import build
from .. import pipe, corpus
from ..validate import validate
from .v03 import planes


def limb(v):
    n = round(v * 1e12)
    return [n // 1000000, n % 1000000]


def job(c, r):
    if not r.has("mesh.vcg"):
        return None, "run %s produced no mesh (exit %s)" % (c.name, r.rc)
    m = c.m
    det = m.det()
    q3 = lambda p: [max(-999999, min(999999, round(1000 * v))) for v in p]
    nc, cells, nk, conns = pipe.vcg(r.path("mesh.vcg"))
    if not cells or any(not math.isfinite(x) or abs(x) > 1e6 for k in cells for x in k[1:5]) or \
            any(not math.isfinite(x) or abs(x) > 1e6 for k in conns for x in k[2:]):
        return None, "run %s: no cells or absurd numbers in the mesh file" % c.name
    pos = [m.back(list(k[1:4])) for k in cells]
    ev = [dict(e="flood")]
    for p, k in zip(pos, cells):
        if abs(k[4] / det) > 1000:
            return None, "run %s: a cell larger than the model" % c.name
        ev.append(dict(e="cell", p=q3(p), v=limb(k[4] / det)))
    hs = planes(m) if m.vox is None else []
    # exact planes of the convex model, as floats, for the distance of a midpoint from each
    H = []
    if hs:
        ctr = [sum(w[k] for w in m.v0) / len(m.v0) for k in range(3)]
        for a, b, cc in m.tris:
            p, q, s = m.v0[a], m.v0[b], m.v0[cc]
            u, v = [q[k] - p[k] for k in range(3)], [s[k] - p[k] for k in range(3)]
            n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
            A = sum(x * x for x in n) ** 0.5
            n = [x / A for x in n]
            if sum(n[k] * (p[k] - ctr[k]) for k in range(3)) < 0:
                n = [-x for x in n]
            d = sum(n[k] * p[k] for k in range(3))
            for h in H:
                if all(abs(h[0][k] - n[k]) < 1e-6 for k in range(3)) and abs(h[1] - d) < 1e-6:
                    h[2] += A / 2
                    break
            else:
                H.append([n, d, A / 2])
    by = {}
    for k in conns:
        i, j = k[0], k[1]
        if not (1 <= i <= len(pos) and 1 <= j <= len(pos)):
            return None, "run %s: connection to a missing cell" % c.name
        n = list(k[6:9])
        if m.R:
            n = [sum(m.R[a][b] * n[a] for a in range(3)) for b in range(3)]
        mid = m.back(list(k[2:5]))
        # area in the model's frame: the cofactor of the scaling along the normal
        nn = [n[a] * m.s[a] for a in range(3)]
        L = math.sqrt(sum(x * x for x in nn)) or 1.0
        a = k[5] * L / det
        rec = dict(j=j, n=[round(1000 * x / L) for x in nn], m=[round(1e6 * max(-900, min(900, x))) for x in mid], a=limb(a))
        if i == j:
            rec["g"] = q3([2 * mid[x] - pos[i - 1][x] for x in range(3)])
        if H:
            rec["hd"] = [max(-10**8, min(10**8, round(1e6 * (sum(h[0][x] * mid[x] for x in range(3)) - h[1])))) for h in H]
        by.setdefault(i, []).append(rec)
    for i in sorted(by):
        ev.append(dict(e="conns", i=i, x=by[i]))
    ev.append(dict(e="done"))
    if m.vox is not None:
        d = m.dims
        mat = [m.vox.get((x, y, z), 0) for z in range(-1, d[2] + 1) for y in range(-1, d[1] + 1) for x in range(-1, d[0] + 1)]
        return dict(kind="vox", d=list(d), m=mat, ev=ev), ""
    from ..models import volume
    hs = [[[round(1000 * x) for x in h[0]], round(1e6 * h[1])] for h in H]
    # the half-spaces for locating points use rounded normals: offsets to match
    hq = [[h[0], round(1000 * max(sum(h[0][k] * w[k] for k in range(3)) for w in m.v0))] for h in hs]
    return dict(kind="planes", d=[1, 1, 1], h=hq, tol=8000, vol=limb(abs(volume(m.v0, m.tris))), area=[limb(h[2]) for h in H], ev=ev), ""


def run(ck):
    b = build()
    pipe.prune(b)
    rng = random.Random(SEED * 7919 + 4)
    cs = corpus.base() + corpus.random_cases(12, rng) + [c for c in corpus.more() if c.name in ("octa", "prism", "small", "thin")]
    if TIER == "thorough":
        cs += [c for c in corpus.more() if c.m.flat] + corpus.random_cases(60, rng)
    cs = [c for c in cs if c.m.flat]
    traces, owner = [], []
    for c, r in zip(cs, pipe.many(b, [c.files() for c in cs])):
        if r is None:
            continue
        t, why = job(c, r)
        if t is None:
            ck.violation(why, files=[r.d])
            continue
        traces.append(t)
        owner.append((c, r))
        ck.count("cells", sum(1 for e in t["ev"] if e["e"] == "cell"))
    if len(ck.violations) > 3 or not traces:
        return
    ck.cov["runs"] = [c.name for c, _ in owner][:60]
    for i, why in validate(ck, "Fill", traces, timeout=800, heap="3g"):
        ck.violation("run %s: %s" % (owner[i][0].name, why), files=[owner[i][1].d])
    ck.sample(traces[0]["ev"][1:3])
