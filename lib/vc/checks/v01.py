"""V01: meshes of integer seeds are exactly their Voronoi diagrams (specs/Voronoi.tla)."""
import random, subprocess, math
from ..common import *
from ..build import build
from .. import tlc
from ..validate import validate

K = 1000


def rot(rng):
    """a random rotation matrix"""
    q = [rng.gauss(0, 1) for _ in range(4)]
    n = math.sqrt(sum(a * a for a in q))
    w, x, y, z = (a / n for a in q)
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]


def shell(lo, hi, st=2):
    r = range(lo, hi + 1, st)
    return [(x, y, z) for x in r for y in r for z in r if x in (lo, hi) or y in (lo, hi) or z in (lo, hi)]


def world_random(rng):
    kind = rng.choice(["dense", "sparse", "lattice", "flat", "big", "big"])
    if kind == "big":          # mostly general position
        N = rng.choice([14, 18, 22])
        pts = [(x, y, z) for x in range(2, N - 1) for y in range(2, N - 1) for z in range(2, N - 1)]
        core = rng.sample(pts, rng.randint(60, 140))
        gh = shell(0, N, 2)
        return core, gh
    if kind == "lattice":
        a, b, c = (rng.randint(1, 4) for _ in range(3))
        s = rng.choice([1, 2])
        core = [(4 + s * x, 4 + s * y, 4 + s * z) for x in range(a) for y in range(b) for z in range(c)]
        M = 4 + s * 3 + 4
        M += M % 2
        return core, shell(0, M)
    if kind == "flat":
        core = rng.sample([(x, y, 4 + rng.randint(0, 1)) for x in range(3, 12) for y in range(3, 12)], rng.randint(5, 30))
        return core, shell(0, 14)
    N = rng.choice([3, 4, 5, 6])
    pts = [(x + 4, y + 4, z + 4) for x in range(N) for y in range(N) for z in range(N)]
    n = rng.randint(1, min(len(pts), 12 if kind == "sparse" else 45))
    return rng.sample(pts, n), shell(0, 14)


def world_hub(rng):
    """one seed with very many neighbours: the others lie in a thin shell around it"""
    lo, hi = rng.choice([(50, 53), (54, 57), (61, 62), (41, 42)])
    r = range(-8, 9)
    ring = [(x + 11, y + 11, z + 11) for x in r for y in r for z in r if lo <= x * x + y * y + z * z <= hi]
    rng.shuffle(ring)
    return [(11, 11, 11)] + ring[:rng.randint(70, 130)], shell(0, 22, 2)


class Job:
    def __init__(self, rng, core, gh, inner_ghosts=None, threads=None, transform=True):
        inner = set(inner_ghosts or [])
        S = [(p, rng.randint(1, 3)) if i not in inner else (p, 0) for i, p in enumerate(core)]
        S += [(p, 0) for p in gh]
        rng.shuffle(S)
        if all(r == 0 for _, r in S):
            S[0] = (S[0][0], 1)
        self.S = S
        self.threads = threads or rng.choice([1, 1, 2, 4, 8])
        self.A, self.o, self.sc = None, (0.0, 0.0, 0.0), 1.0
        if transform and rng.random() < 0.6:
            self.sc = rng.choice([0.05, 0.3, 1.0, 7.0])
            self.o = tuple(rng.uniform(-20, 20) * self.sc for _ in range(3))
            self.A = rot(rng) if rng.random() < 0.7 else None
        s0 = rng.choice([0.2, 0.7, 1.5, 4.0])
        self.sz = [s0 * self.sc * rng.choice([0.5, 1, 2]) for _ in S]

    def fwd(self, p):
        q = [self.sc * c for c in p]
        if self.A:
            q = [sum(self.A[r][m] * q[m] for m in range(3)) for r in range(3)]
        return [q[m] + self.o[m] for m in range(3)]

    def back(self, q):
        q = [q[m] - self.o[m] for m in range(3)]
        if self.A:
            q = [sum(self.A[m][r] * q[m] for m in range(3)) for r in range(3)]
        return [c / self.sc for c in q]

    def text(self):
        return "MESH %d %d\n" % (self.threads, len(self.S)) + "".join(
            "%.17g %.17g %.17g %d %.17g\n" % (*self.fwd(p), r, z) for (p, r), z in zip(self.S, self.sz))


def independent(S, pos):
    """four of S that are not coplanar (a hint the specification checks)"""
    a = S[0]
    sub = lambda p, q: [p[k] - q[k] for k in range(3)]
    cr = lambda u, v: [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    u = sub(pos[S[1]], pos[a])
    for i in range(2, len(S)):
        c = cr(u, sub(pos[S[i]], pos[a]))
        if any(c):
            for j in range(i + 1, len(S)):
                if sum(c[k] * sub(pos[S[j]], pos[a])[k] for k in range(3)):
                    return [a, S[1], S[i], S[j]]
            return None
    return None


def project(job, lines):
    """recorded mesh -> events. Vertices that coincide are one vertex; seeds are numbered from 1."""
    h = lines[0].split()
    nv, nf = int(h[1]), int(h[2])
    V = [job.back([float(x) for x in l.split()]) for l in lines[1:1 + nv]]
    F = [[int(x) for x in l.split()] for l in lines[1 + nv:1 + nv + nf]]
    pos = [p for p, _ in job.S]
    reps, idx, ev = {}, [], []
    for v in V:
        if any(not math.isfinite(c) or abs(c) > 1e5 for c in v):
            return None, "vertex at %r" % (v,)
        cell = tuple(round(c * 1e4) for c in v)
        k = None
        for dx in (0, -1, 1):
            for dy in (0, -1, 1):
                for dz in (0, -1, 1):
                    k = k if k is not None else reps.get((cell[0] + dx, cell[1] + dy, cell[2] + dz))
        if k is None:
            k = len(ev) + 1
            reps[cell] = k
            d = [sum((v[m] - p[m]) ** 2 for m in range(3)) for p in pos]
            r = math.sqrt(min(d))
            S = [i for i in range(len(pos)) if math.sqrt(d[i]) < r + 2e-5]
            b = independent(S, pos) if len(S) >= 4 else None
            if b is None:
                return None, "vertex at %r is closest to seeds %r only" % (v, [pos[i] for i in S])
            ev.append(dict(e="v", q=[round(c * K) for c in v], s=[i + 1 for i in S], b=[i + 1 for i in b]))
        idx.append(k)
    for f in F:
        if f[0] != len(f) - 3 or any(not 0 <= i < nv for i in f[1:-2]) or any(not 0 <= s < len(pos) for s in f[-2:]):
            return None, "malformed face %r" % (f,)
        c = [idx[i] for i in f[1:-2]]
        c = [a for a, p in zip(c, c[-1:] + c[:-1]) if a != p] or c[:1]
        ev.append(dict(e="f", i=f[-2] + 1, j=f[-1] + 1, c=c))
    for i, (p, r) in enumerate(job.S):
        if r:
            ev.append(dict(e="c", i=i + 1))
    ev.append(dict(e="d"))
    return dict(pos=pos, ghost=[i + 1 for i, (p, r) in enumerate(job.S) if r == 0], K=K, tol=3, ev=ev), ""


def drive(b, jobs, d, tag, timeout=240):
    """run the driver on jobs; returns list of line lists (None where it stopped)"""
    out = os.path.join(d, tag + ".out")
    env = dict(os.environ, OMP_NUM_THREADS="8")
    try:
        subprocess.run([b.drv("drv_voronoi"), out], input="".join(j.text() for j in jobs).encode(), cwd=d, env=env,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=timeout)
    except subprocess.TimeoutExpired:
        pass
    res, cur = [], None
    if os.path.exists(out):
        for l in open(out).read().split("\n"):
            if l.startswith("MESH"):
                cur = [l]
                res.append(cur)
            elif l and cur is not None:
                cur.append(l)
    for r in res:
        h = r[0].split()
        if len(r) != 1 + int(h[1]) + int(h[2]):
            res = res[:res.index(r)]
            break
    return res + [None] * (len(jobs) - len(res))


def gen_worlds(ck, cfg):
    r = tlc.run("VoronoiGen", cfg=cfg, workers=4, timeout=300)
    ck.add_tlc("VoronoiGen/" + cfg, r)
    return tlc.printed(r["out"]), {"VoronoiGen": (2, 2, 2), "VoronoiGenT": (3, 3, 2)}[cfg]


def run(ck):
    b = build()
    rng = random.Random(SEED * 7919 + 1)
    d = scratch("v01")
    jobs = []
    worlds, dims = gen_worlds(ck, "VoronoiGen")
    if TIER == "thorough":
        w2, d2 = gen_worlds(ck, "VoronoiGenT")
    gh = shell(0, 8)
    grid = lambda dm: [(3 + x, 3 + y, 3 + z) for x in range(dm[0]) for y in range(dm[1]) for z in range(dm[2])]

    def from_world(w, dm, step):
        g = grid(dm)
        core = [g[p - 1] for p, _ in w]
        return Job(rng, [tuple(3 + (c - 3) * step for c in p) for p in core], gh,
                   inner_ghosts=[i for i, (_, q) in enumerate(w) if q], transform=False, threads=rng.choice([1, 2]))
    sel = worlds if TIER == "thorough" else rng.sample(worlds, min(len(worlds), 260))
    for w in sel:
        jobs.append(from_world(w, dims, rng.choice([1, 2])))
    if TIER == "thorough":
        for w in w2:
            jobs.append(from_world(w, d2, 1))
    ngen = len(jobs)
    for k in range(60 if TIER == "quick" else 500):
        core, g = world_random(rng)
        inner = [i for i in range(len(core)) if rng.random() < 0.15] if rng.random() < 0.4 else []
        jobs.append(Job(rng, core, g, inner))
    for k in range(3 if TIER == "quick" else 12):
        jobs.append(Job(rng, *world_hub(rng)))
    ck.cov["worlds_from_spec"] = ngen
    ck.cov["random_worlds"] = len(jobs) - ngen
    from concurrent.futures import ThreadPoolExecutor
    parts = [jobs[k::4] for k in range(4)]
    with ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(lambda a: drive(b, a[1], d, "p%d" % a[0]), enumerate(parts)))
    traces, owner = [], []
    for part, out in zip(parts, outs):
        for j, o in zip(part, out):
            if o is None:
                o = drive(b, [j], d, "again", timeout=60)[0]
                if o is None:
                    ck.violation("meshing %d seeds does not finish (crash or endless loop)" % len(j.S), text=j.text())
                    break
            t, why = project(j, o)
            if t is None:
                ck.violation("mesh of %d seeds: %s" % (len(j.S), why), text=j.text())
                continue
            traces.append(t)
            owner.append((j, o))
    ck.cov["vertices"] = sum(1 for t in traces for e in t["ev"] if e["e"] == "v")
    ck.cov["faces"] = sum(1 for t in traces for e in t["ev"] if e["e"] == "f")
    if len(ck.violations) > 3:
        return
    rej = validate(ck, "VoronoiTrace", traces, weight=lambda t: sum(len(t["pos"]) if e["e"] == "v" else 8 for e in t["ev"]), timeout=800)
    for i, why in rej:
        j, o = owner[i]
        ck.violation("mesh of %d seeds (%d threads) is not its Voronoi diagram: %s" % (len(j.S), j.threads, why), text=j.text())
    # the same seeds with every thread count give the same mesh
    for k in range(3 if TIER == "quick" else 12):
        core, g = world_random(rng)
        j = Job(rng, core, g)
        o = []
        for th in (1, 2, 4, 8):
            j.threads = th
            o.append(drive(b, [j], d, "th")[0])
        if any(x != o[0] for x in o):
            ck.violation("the mesh of %d seeds differs between thread counts" % len(j.S), text=j.text())
        ck.count("thread_count_comparisons", 4)
    ck.sample(dict(seeds=len(traces[-1]["pos"]), first_events=traces[-1]["ev"][:3]))
    shutil.rmtree(d, ignore_errors=True)
