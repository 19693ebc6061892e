"""V03: region labels are the components of space (specs/Regions.tla, RegionsGen.tla, RegionsTrace.tla)."""
import random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from ..common import *
from ..build import build
from .. import pipe, corpus, tlc
from .. import models as M
from ..validate import validate


def planes(m):
    """outward half-spaces of a convex model, normals scaled to 1000"""
    res = []
    for a, b, c in m.tris:
        p, q, r = m.v0[a], m.v0[b], m.v0[c]
        u = [q[k] - p[k] for k in range(3)]
        v = [r[k] - p[k] for k in range(3)]
        n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
        L = sum(x * x for x in n) ** 0.5
        n = [x / L * 1000 for x in n]
        if sum(n[k] * (p[k] - sum(w[k] for w in m.v0) / len(m.v0)) for k in range(3)) < 0:
            n = [-x for x in n]
        h = [[round(x) for x in n], round(1000 * sum(round(n[k]) * p[k] for k in range(3)))]
        if h not in res:
            res.append(h)
    return res


def regions_reported(log):
    m = re.findall(r"Number of volumetric regions\s*=\s*(\d+)", log)
    return int(m[-1]) if m else -1


def run_job(c, r):
    """one run -> job (or None, reason)"""
    if not r.has("mesh.vcg") or not r.has("seeds.csv"):
        return None, "run %s produced no mesh (exit %s)" % (c.name, r.rc)
    m = c.m
    rows = pipe.csv(r.path("seeds.csv"))
    nc, cells, nk, conns = pipe.vcg(r.path("mesh.vcg"))
    u = min(x[3] for x in rows)
    key = lambda p: tuple(round(v / u * 1e3) for v in p)
    post = {}
    for (i, x, y, z, v, g) in cells:
        post[key((x, y, z))] = g

    def look(p):
        k = key(p)
        for dx in (0, 1, -1):
            for dy in (0, 1, -1):
                for dz in (0, 1, -1):
                    g = post.get((k[0] + dx, k[1] + dy, k[2] + dz))
                    if g is not None:
                        return g
        return 0
    ev = [dict(e="flood")]
    for x in rows:
        p = m.back(x[:3])
        ev.append(dict(e="seed", p=[max(-999999, min(999999, round(1000 * v))) for v in p], a=int(x[4]), b=look(x[:3])))
    ev.append(dict(e="end", n=regions_reported(r.log)))
    if m.vox is not None:
        d = m.dims
        mat = [m.vox.get((x, y, z), 0) for z in range(-1, d[2] + 1) for y in range(-1, d[1] + 1) for x in range(-1, d[0] + 1)]
        return dict(kind="vox", d=list(d), m=mat, ev=ev), ""
    return dict(kind="planes", d=[1, 1, 1], h=planes(m), tol=8000, ev=ev), ""


def grid_worlds(b, ck, worlds, d):
    """(nx, w, threads) -> jobs with the program's labels"""
    HX = lambda x, y: (2 * x + y % 2, 2 * y)

    def text(k, nx, w, th):
        ny = (len(w) + nx - 1) // nx
        core = {(x, y): w[x + nx * y] for y in range(ny) for x in range(nx) if x + nx * y < len(w)}
        gh, walls, inn = [], [], []
        for y in range(-2, ny + 2):
            for x in range(-2, nx + 2):
                p = HX(x, y)
                for z in (-2, 0, 2):
                    if z == 0 and (x, y) in core:
                        q = core[(x, y)]
                        (inn if q else walls).append((p[0], p[1], 0, q if q else min(a for a in w if a)))
                    else:
                        gh.append((p[0], p[1], z, 0))
        S = gh + walls + inn
        o = os.path.join(d, "g%d" % k)
        os.makedirs(o)
        t = "JOB %s %d %d %d\n" % (o, th, len(S), len(gh) + len(walls))
        t += "".join("%d %d %d %d 1.0\n" % s for s in S)
        return o, t
    jobs = [text(k, *w) for k, w in enumerate(worlds)]

    def part(js):
        try:
            p = subprocess.run([b.drv("drvx_merge")], input="".join(t for _, t in js).encode(), cwd=d, stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, timeout=600)
            out, rc = p.stdout.decode(errors="replace"), p.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = (x.stdout or b"").decode(errors="replace"), "timeout"
        res = {}
        for blk in re.split(r"^JOB ", out, flags=re.M)[1:]:
            nm, _, body = blk.partition("\n")
            res[nm.strip()] = body
        return rc, res
    n = NCPU
    with ThreadPoolExecutor(n) as ex:
        got = list(ex.map(part, [jobs[i::n] for i in range(n)]))
    traces = []
    logs = {}
    for rc, res in got:
        if rc != 0:
            ck.violation("the meshing stage ended with %s on a labelled seed grid" % rc)
            return []
        logs.update(res)
    for (nx, w, th), (o, _) in zip(worlds, jobs):
        f = os.path.join(o, "mesh.vcg")
        if not os.path.exists(f):
            ck.violation("no mesh for the labelled seed grid %s (row length %d)" % (w, nx))
            return []
        cells = pipe.vcg(f)[1]
        at = {(round(x), round(y), round(z)): g for (i, x, y, z, v, g) in cells}
        lab = [at.get((*HX(k % nx, k // nx), 0), -1) for k in range(len(w))]
        traces.append(dict(kind="grid", nx=nx, w=w, ev=[dict(e="grid", lab=lab, n=regions_reported(logs[o]))]))
    return traces


def run(ck):
    b = build()
    pipe.prune(b)
    rng = random.Random(SEED * 7919 + 3)
    big = TIER == "thorough"
    # the design: links met in any order
    r = tlc.run("Regions", cfg="RegionsT" if big else "Regions", workers=NCPU, heap="4g", timeout=800)
    ck.add_tlc("Regions", r)
    if not r["ok"]:
        raise Infra("the region design is wrong: " + tlc.err(r["out"]))
    # generated worlds into the program
    d = scratch("v03")
    if os.path.exists(b.drv("drvx_merge")):
        ws = []
        for cfg, nx, lim in (("RegionsGen", 5, 1500), ("RegionsGen2", 3, 1000)):
            r = tlc.run("RegionsGen", cfg=cfg, workers=1, heap="2g", timeout=300)
            ck.add_tlc(cfg, r)
            g = tlc.printed(r["out"])
            if not big and len(g) > lim:
                g = rng.sample(g, lim)
            ws += [(nx, w, rng.choice([1, 1, 2, 4])) for w in g]
        for _ in range(200 if not big else 3000):       # bigger random worlds, up to 7 labels
            nx, ny, nl = rng.randint(3, 7), rng.randint(1, 5), rng.randint(2, 7)
            w = [0 if rng.random() < 0.25 else rng.randint(1, nl) for _ in range(nx * ny)]
            used = sorted(set(w) - {0})
            if used:
                mp = dict(zip(used, rng.sample(range(1, len(used) + 1), len(used))))
                ws.append((nx, [mp.get(a, 0) for a in w], rng.choice([1, 2, 4])))
        tr = grid_worlds(b, ck, ws, d)
        ck.cov["label_worlds_replayed"] = len(tr)
        for i, why in (validate(ck, "RegionsTrace", tr, timeout=800) if tr else []):
            ck.violation("region merging: %s; labels %s in rows of %d" % (why[:300], tr[i]["w"], tr[i]["nx"]))
    else:
        ck.notes.append("the label worlds were not replayed: the driver does not compile on this tree")
    # full runs
    cs = cases(rng, big)
    ok = 0
    traces, owner = [], []
    for c, r in zip(cs, pipe.many(b, [c.files() for c in cs])):
        if r is None:
            continue
        t, why = run_job(c, r)
        if t is None:
            ck.violation(why, files=[r.d])
            continue
        traces.append(t)
        owner.append((c, r))
    if traces:
        for i, why in validate(ck, "RegionsTrace", traces, timeout=800):
            ck.violation("run %s: %s" % (owner[i][0].name, why), files=[owner[i][1].d])
    ck.cov["runs"] = [c.name for c, _ in owner][:60]
    ck.sample([dict(run=owner[0][0].name, events=len(traces[0]["ev"]), last=traces[0]["ev"][-2:])] if owner else None)
    shutil.rmtree(d, ignore_errors=True)


def cases(rng, big):
    cs = corpus.base()
    v = {(i, j, k): 1 for i in range(5) for j in range(5) for k in range(3)}
    for n, p in enumerate([(1, 1, 1), (3, 1, 1), (1, 3, 1), (3, 3, 1)]):
        v[p] = 0 if n == 2 else n + 2
    for n, p in enumerate([(1, 1, 1), (3, 1, 1), (1, 3, 1), (3, 3, 1)]):
        if v[p] == 0:
            del v[p]
    cs.append(corpus.Case("four_cav", M.voxels("four_cav", v, (5, 5, 3)), lip=0.7, threads=4))
    row = {(i, j, k): 1 for i in range(7) for j in range(3) for k in range(3)}
    for x in (1, 3, 5):
        row[(x, 1, 1)] = 2
    cs.append(corpus.Case("row_cav", M.voxels("row_cav", row, (7, 3, 3)).place((1, 1, 1), M.rotation(rng)), lip=0.7, threads=8))
    cs += corpus.random_cases(6, rng)
    if big:
        cs += [c for c in corpus.more() if c.name not in ("torus",)] + corpus.random_cases(40, rng)
    return cs
