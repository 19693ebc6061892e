"""V02: mesh files against the seeds and faces they come from (specs/Vcg.tla)."""
import random, math
from concurrent.futures import ThreadPoolExecutor
from ..common import *
from ..build import build
from .. import pipe, corpus
from ..validate import validate
from . import v01

KV = 4000


def project(pos, reg, vcgdata, KP, KA, polys=None, back=None, sc=1.0, vback=None):
    """mesh file -> events; lengths in the integer frame (back maps points, vback directions, sc scales lengths)."""
    nc, cells, nk, conns = vcgdata
    I = lambda p: [round(c * KP) for c in p]
    back = back or (lambda p: p)
    vback = vback or (lambda n: n)
    bad = lambda *xs: any(not math.isfinite(x) or abs(x) > 1e9 for x in xs)
    ev = [dict(e="cells", n=-1 if nc is None else nc)]
    P = [tuple(I(p)) for p in pos]
    look = {}
    for i, p in enumerate(P):
        look.setdefault(p, i)

    def find(p, tol):
        q = I(p)
        for dx in (0, 1, -1):
            for dy in (0, 1, -1):
                for dz in (0, 1, -1):
                    k = look.get((q[0] + dx, q[1] + dy, q[2] + dz))
                    if k is not None:
                        return k
        best = min(range(len(pos)), key=lambda i: sum((pos[i][m] - p[m]) ** 2 for m in range(3)))
        return best if sum((pos[best][m] - p[m]) ** 2 for m in range(3)) < tol * tol else None
    sof = []
    for (i, x, y, z, v, r) in cells:
        if bad(x, y, z, v):
            return None, "cell line with a non-finite number"
        s = find(back([x, y, z]), 2.0 / KP)
        sof.append(s)
        ev.append(dict(e="cell", id=i, p=I(back([x, y, z])), s=(s + 1) if s is not None else 0,
                       vol=max(1, round(6 * v / sc ** 3 * KA * KP / 1000)) if v > 0 else 0, r=r))
    ev.append(dict(e="conns", n=-1 if nk is None else nk))
    per = {}
    for c in conns:
        i, j, m, a, n = c[0], c[1], c[2:5], c[5], c[6:9]
        if bad(*c[2:]):
            return None, "connection line with a non-finite number"
        n = vback(n)
        a = a / sc ** 2
        mb = back(list(m))
        rec = dict(e="conn", i=i, j=j, m=I(mb), n=[round(1000 * x) for x in n], a=max(0, round(a * KA)) if a >= 0 else -1,
                   av=[round(a * KA * x) for x in n], g=0)
        if 1 <= i <= len(sof) and sof[i - 1] is not None:
            si = sof[i - 1]
            if i == j:
                g = find([2 * mb[k] - pos[si][k] for k in range(3)], 4.0 / KP)
                rec["g"] = (g + 1) if g is not None else 0
                sj = g
            else:
                sj = sof[j - 1] if 1 <= j <= len(sof) else None
            if polys is not None and sj is not None:
                c = polys.get((min(si, sj), max(si, sj)))
                if c is not None and 2 * a * c[0] ** 2 * max(map(abs, n)) < 1 << 30:
                    kv, c = c
                    rec["c"] = c
                    rec["per"] = round(sum(math.dist(c[k], c[k - 1]) for k in range(len(c))))
                    rec["av2"] = [round(2 * a * kv * kv * x) for x in n]
        ev.append(rec)
        per.setdefault(i, []).append(len(ev))
        if j != i:
            per.setdefault(j, []).append(len(ev))
    for (i, x, y, z, v, r) in cells:
        ev.append(dict(e="sum", id=i, k=per.get(i, []), vol=max(1, round(6 * v / sc ** 3 * KA * KP / 1000)) if v > 0 else 0))
    ev.append(dict(e="done"))
    big = max([abs(x) for e in ev for x in e.get("av", []) + e.get("av2", []) + e.get("m", [])] + [0])
    if big > 1 << 30:
        return None, "a number out of range in the mesh file"
    return dict(pos=[list(p) for p in P], reg=list(reg), faces=[[a + 1, b + 1] for a, b in (polys or {})], ev=ev), ""


def lattice_case(b, j, d, tag):
    """run the seeds of a V01 job through the program and through the mesher"""
    f = "x,y,z,sizing,region\n" + "".join("%.17g,%.17g,%.17g,%.17g,%d\n" % (*j.fwd(p), z, r) for (p, r), z in zip(j.S, j.sz))
    dk = "SEEDS_FILE = s.csv\nGENERATE_MESH_FROM_SEEDS\nGENERATE_VCG_FILE\nNUM_THREADS = %d\n" % j.threads
    r = pipe.run_deck(b, {"s.csv": f, "vc.in": dk}, timeout=100)
    o = v01.drive(b, [j], d, tag)[0]
    return r, o


def polygons(j, lines):
    h = lines[0].split()
    nv, nf = int(h[1]), int(h[2])
    V = [j.back([float(x) for x in l.split()]) for l in lines[1:1 + nv]]
    F = [[int(x) for x in l.split()] for l in lines[1 + nv:1 + nv + nf]]
    res = {}
    for f in F:
        P = [V[k] for k in f[1:-2]]
        ext = max(max(p[m] for p in P) - min(p[m] for p in P) for m in range(3))
        kv = max(1, min(KV, int(20000 / (ext + 1e-9))))      # corners in 1/kv units: products stay below 2^31
        c = []
        for p in P:
            q = [round(kv * (x - y)) for x, y in zip(p, P[0])]
            if q not in c:
                c.append(q)
        # faces of zero size may or may not be listed
        if len(c) >= 3 and ext * kv > 8:
            res[(min(f[-2:]), max(f[-2:]))] = (kv, c)
    return res


def run(ck):
    b = build()
    pipe.prune(b)
    rng = random.Random(SEED * 7919 + 2)
    d = scratch("v02")
    jobs = []
    for k in range(44 if TIER == "quick" else 300):
        core, g = v01.world_random(rng)
        inner = [i for i in range(len(core)) if rng.random() < 0.15] if rng.random() < 0.4 else []
        jobs.append(v01.Job(rng, core, g, inner))
    with ThreadPoolExecutor(NCPU) as ex:
        res = list(ex.map(lambda a: lattice_case(b, a[1], d, "w%d" % a[0]), enumerate(jobs)))
    traces, owner = [], []
    for j, (r, o) in zip(jobs, res):
        if o is None or not r.has("mesh.vcg"):
            ck.violation("no mesh file for %d seeds (exit %s)" % (len(j.S), r.rc), files=[r.d])
            continue
        vb = (lambda n, A=j.A: [sum(A[m][q] * n[m] for m in range(3)) for q in range(3)]) if j.A else None
        t, why = project([p for p, _ in j.S], [q for _, q in j.S], pipe.vcg(r.path("mesh.vcg")), 200, 20000,
                         polygons(j, o), j.back, j.sc, vb)
        if t is None:
            ck.violation("mesh file of %d seeds: %s" % (len(j.S), why), files=[r.d])
            continue
        traces.append(t)
        owner.append(r.d)
    cs = corpus.base()[:3] if TIER == "quick" else corpus.base() + corpus.more()[:6]
    for c, r in zip(cs, pipe.many(b, [c.files() for c in cs])):
        if r is None:
            continue
        if not r.has("mesh.vcg") or not r.has("seeds.csv"):
            ck.violation("run %s produced no mesh (exit %s)" % (c.name, r.rc), files=[r.d])
            continue
        rows = pipe.csv(r.path("seeds.csv"))
        data = pipe.vcg(r.path("mesh.vcg"))
        # size of a typical cell sets the units
        u = sorted(x[3] for x in rows)[len(rows) // 2]
        pos = [x[:3] for x in rows]
        reg = [0] * len(rows)
        look = {tuple(round(v / u * 1e4) for v in p): i for i, p in enumerate(pos)}
        post = {}
        for (i, x, y, z, v, g) in data[1]:
            k = look.get(tuple(round(q / u * 1e4) for q in (x, y, z)))
            if k is not None:
                post.setdefault(int(rows[k][4]), g)
        reg = [0 if x[4] == 0 else post.get(int(x[4]), -1) for x in rows]
        t, why = project(pos, reg, data, 1000 / u, 200000 / u / u)
        if t is None:
            ck.violation("mesh file of run %s: %s" % (c.name, why), files=[r.d])
            continue
        traces.append(t)
        owner.append(r.d)
    ck.cov["mesh_files"] = len(traces)
    ck.cov["connections"] = sum(1 for t in traces for e in t["ev"] if e["e"] == "conn")
    ck.cov["connections_with_exact_area"] = sum(1 for t in traces for e in t["ev"] if "c" in e)
    if len(ck.violations) > 3:
        return
    rej = validate(ck, "Vcg", traces, weight=lambda t: len(t["ev"]) ** 1.3, timeout=800, heap="3g")
    for i, why in rej:
        ck.violation("mesh file is inconsistent: " + why, files=[owner[i]])
    ck.sample(traces[0]["ev"][:2] + traces[0]["ev"][-3:-1])
    shutil.rmtree(d, ignore_errors=True)
