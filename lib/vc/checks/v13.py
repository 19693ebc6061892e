"""V13: monitoring points (specs/Monitor.tla, MonitorTrace.tla)."""
import random
from ..common import *
from ..build import build
from .. import pipe, corpus, tlc
from .. import models as M
from ..crust import *
from ..validate import validate
from .v03 import planes


def clamp(x, b=10 ** 9):
    return int(max(-b, min(b, round(float(x))))) if x == x else b


class Lab:
    """the frame of one run"""

    def __init__(self, c, z):
        self.c, self.z = c, z
        V = np.array(c.m.verts())
        self.lo, self.ext = V.min(0), float((V.max(0) - V.min(0)).max())
        self.u = self.ext / 12000

    def p(self, x):
        return [clamp((a - b) / self.u, 24000) for a, b in zip(x, self.lo)]

    def q(self, x):
        return [clamp(1000 * v, 999999) for v in self.c.m.back(list(x))]

    def off(self, x, y):
        return [clamp((a - b) / (self.ext * 1e-9)) for a, b in zip(x, y)]

    def near(self, x):
        return int(np.argmin(((self.z.s - np.asarray(x)) ** 2).sum(1)))

    def head(self):
        z, m = self.z, self.c.m
        on, ns, na = surface_seeds(z)
        J = dict(s=[self.p(x) for x in z.s], g=[int(g) for g in z.g], q=[self.q(x) for x in z.s], c=[self.p(x) for x in z.c],
                 r=[clamp(r / self.u, 24000) for r in z.r], ns=ns, tolq=5)
        if m.vox is not None:
            d = m.dims
            J.update(kind="vox", d=list(d), tol=0, h=[])
            J["m"] = [m.vox.get((x, y, w), 0) for w in range(-1, d[2] + 1) for y in range(-1, d[1] + 1) for x in range(-1, d[0] + 1)]
        else:
            J.update(kind="planes", d=[1, 1, 1], h=planes(m), tol=8000, m=[])
        return J, na


def ratio(a, b):
    return clamp(a / b * 1e8)


def points(rng, c, z, n):
    """requests: [kind, x, y, z, r]"""
    m = c.m
    on, ns, na = surface_seeds(z)
    inner = z.s[ns + na:]
    hin = z.h[ns + na:]
    V = np.array(m.verts())
    lo, hi = V.min(0), V.max(0)
    ext = float((hi - lo).max())
    out = []
    # sizes much below those of their surroundings make the filling long
    size = lambda x: float(z.h[np.argmin(((z.s - x) ** 2).sum(1))]) * rng.choice([0.6, 0.8, 1, 1, 1.3, 1.8, 2.5])
    for _ in range(n):
        k = rng.choice(["box", "box", "box", "sphere", "rim", "far", "seed", "seed", "pair"])
        if k == "box":
            x = np.array(m.fwd([rng.uniform(0, d) for d in (m.dims or (1, 1, 1))]) if m.dims else (rng.choice(list(inner)) if len(inner) else lo)) + np.array([rng.gauss(0, 0.02) * ext for _ in range(3)])
        elif k == "sphere":
            i = rng.randrange(len(z.r))
            v = np.array([rng.gauss(0, 1) for _ in range(3)])
            x = z.c[i] + v / np.linalg.norm(v) * z.r[i] * rng.uniform(0, 0.99)
        elif k == "rim":                      # just outside a sphere, inside or outside the model
            i = rng.randrange(len(z.r))
            v = np.array([rng.gauss(0, 1) for _ in range(3)])
            x = z.c[i] + v / np.linalg.norm(v) * z.r[i] * rng.choice([1.003, 1.01, 1.05])
        elif k == "far":
            x = np.array([rng.uniform(lo[a] - 0.4 * ext, hi[a] + 0.4 * ext) for a in range(3)])
        elif k == "seed" and len(inner):
            i = rng.randrange(len(inner))
            v = np.array([rng.gauss(0, 1) for _ in range(3)])
            x = inner[i] + v / np.linalg.norm(v) * hin[i] * rng.choice([0, 0.01, 0.3])
        elif out:                             # two requests within one another's spheres
            p = np.array(rng.choice(out)[1:4])
            v = np.array([rng.gauss(0, 1) for _ in range(3)])
            x = p + v / np.linalg.norm(v) * out[-1][4] * rng.uniform(0.3, 1.2)
        else:
            continue
        if all(np.linalg.norm(x - np.array(o[1:4])) > 1e-3 * ext for o in out) and np.abs(x).max() < 1e4:
            # a small distance from seeds that stay keeps the mesh sane
            if np.linalg.norm(z.s[:ns + na] - x, axis=1).min() > 1e-3 * ext:
                out.append([k] + [float("%.12g" % v) for v in x] + [float("%.9g" % size(x))])
    return out


def table(rng, pts):
    L = ["x,y,z,r"]
    for p in pts:
        if rng.random() < 0.1:
            L.append(rng.choice(["", "1.0,2.0", "   "]))
        sep = rng.choice([",", ", ", " , "])
        L.append(sep.join("%.12g" % v for v in p[1:5]) + rng.choice(["", "", "", ", 7", ","]))
    return "\n".join(L) + "\n"


def imposed(c, r, pts):
    z, why = load(c, r)
    if z is None:
        return None, why
    L = Lab(c, z)
    J, na = L.head()
    try:
        rows = pipe.csv(r.path("monitoring_points_closest_seeds.csv"))
        rows = [x[:4] if len(x) > 3 else [1e30] * 4 for x in rows]
    except Exception:
        return None, "run %s: no companion file" % c.name
    ev = []
    for k, x, y, w, s in pts:
        i = L.near((x, y, w))
        ev.append(dict(e="req", p=L.p((x, y, w)), q=L.q((x, y, w)), r=clamp(s / L.u, 24000), at=i + 1, o=L.off(z.s[i], (x, y, w)), h=ratio(z.h[i], s)))
    ev += [dict(e="cleared", i=i + 1) for i in range(len(pts))]
    for n, x in enumerate(rows[:len(pts)]):
        i = L.near(x[:3])
        ev.append(dict(e="row", i=n + 1, a=L.off(x[:3], pts[n][1:4]), ra=ratio(x[3], pts[n][4]), of=i + 1, o=L.off(x[:3], z.s[i]), ro=ratio(x[3], z.h[i])))
    here = {e["at"] - 1 for e in ev if e["e"] == "req" and all(abs(x) <= 2 for x in e["o"])}
    a = J["ns"] + na
    idx = np.array([i for i in range(a, len(z.s)) if i not in here], int)
    if len(idx) > 1:                          # for each interior seed the partner of least slack
        D = pair_dist(z.s[idx], z.s[idx])
        np.fill_diagonal(D, np.inf)
        H = z.h[idx]
        dh = np.abs(H[:, None] - H[None, :]) - c.lip * D
        dh[D > 1.9 * np.maximum(H[:, None], H[None, :])] = -np.inf
        sep = D / np.minimum(H[:, None], H[None, :])
        for x in range(len(idx)):
            for y in {int(np.argmax(dh[x])), int(np.argmin(sep[x]))}:
                if x != y:
                    i, j = int(idx[x]), int(idx[y])
                    v = z.s[j] - z.s[i]
                    u = max(float(D[x, y]), z.h[i], z.h[j]) / 20000
                    ev.append(dict(e="pair", i=i + 1, j=j + 1, v=ints(v / u), d=int(round(float(D[x, y]) / u)), h=[int(z.h[i] / u), int(z.h[j] / u)]))
    ev.append(dict(e="done", kind="impose", n=len(pts) if len(rows) == len(pts) else -1))
    J["ev"] = ev
    J["lip"] = int(round(c.lip * 1000))
    return J, z, na


def generated(c, r):
    z, why = load(c, r)
    if z is None:
        return None, why
    L = Lab(c, z)
    J, na = L.head()
    try:
        rows = [x[:4] if len(x) > 3 else [1e30] * 4 for x in pipe.csv(r.path("monitoring_points.csv"))]
    except Exception:
        return None, "run %s: no monitoring points" % c.name
    ev = []
    for x in rows:
        i = L.near(x[:3])
        ev.append(dict(e="gen", of=i + 1, o=L.off(x[:3], z.s[i]), ro=ratio(x[3], z.h[i])))
    ev.append(dict(e="done", kind="generate", n=len(rows)))
    J["ev"] = ev
    return J, z, na


def cases(rng, big):
    R = lambda: M.rotation(rng)
    cs = [corpus.Case("cube", M.cube().place((2, 2, 2), R(), (5, -3, 1)), rmax=0.45, lip=0.3, threads=1),
          corpus.Case("two", M.two().place((1, 1, 1), R()), rmax=0.25, lip=0.3, threads=2),
          corpus.Case("three", M.three_l(), lip=0.25, angle=80, rmax=0.3, threads=4),
          corpus.Case("nest", M.nest().place((0.5, 0.5, 0.5), None, (1, 1, 1)), lip=0.5, rmax=0.25, threads=2),
          corpus.Case("sheet", M.sheet(0).place((0.6, 0.6, 0.6), R()), lip=0.4, rmax=0.35, threads=2),
          corpus.Case("sheet2", M.sheet(2).place((0.5, 0.5, 0.5)), lip=0.5, rmax=0.4),
          corpus.Case("ell", M.ell().place((1, 1, 2), R()), lip=0.5, rmax=0.3),
          corpus.Case("octa", M.octa().place((0.5, 0.5, 0.5), R()), angle=40, lip=0.4, rmax=0.3, threads=3),
          corpus.Case("tetra", M.tetra().place((0.5, 0.5, 0.5), R()), angle=40, lip=0.3, rmax=0.25, threads=2)]
    cs += [c for c in corpus.random_cases(4 if not big else 40, rng)]
    return cs


def run(ck):
    b = build()
    pipe.prune(b)
    big = TIER == "thorough"
    rng = random.Random(SEED * 7919 + 13)
    g = tlc.run("Monitor", cfg="MonitorT" if big else "Monitor", timeout=600, workers=8)
    if not g["ok"]:
        raise Infra("Monitor: " + tlc.err(g["out"]))
    ck.add_tlc("Monitor", g)
    cs = cases(rng, big)
    jobs, owner = [], []
    first = []
    for c in cs:
        c.extra = [("GENERATE_MONITORING_POINTS", None)]
    for c, r in zip(cs, pipe.many(b, [c.files() for c in cs])):
        if r is None:
            continue
        J = generated(c, r)
        if J[0] is None:
            ck.violation(J[1], files=[r.d])
            continue
        jobs.append(J[0])
        owner.append((c, r))
        first.append((c, J[1], r))
        ck.count("generated", len(J[0]["ev"]) - 1)
        ck.count("edge_seeds", J[2])
    second = []
    for n, (c, z, r) in enumerate(first):
        for k in range(2 if not big else 5):
            pts = points(rng, c, z, rng.choice([1, 8, 25, 25]))
            if k == 1 and n % 3 == 0:          # the points an earlier run generated
                pts = [["gen"] + x[:4] for x in pipe.csv(r.path("monitoring_points.csv"))]
                pts = [p for i, p in enumerate(pts) if i < 40]
            d = corpus.Case(c.name + "/%d" % k, c.m, rmax=c.rmax, lip=c.lip, angle=c.angle, threads=c.threads if k == 0 else rng.choice([1, 2, 4]))
            d.extra = [("IMPOSE_MONITORING_POINTS", None)] + ([("GENERATE_MONITORING_POINTS", None)] if rng.random() < 0.2 else [])
            f = d.files()
            f["monitoring_points.csv"] = table(rng, pts)
            second.append((d, f, pts))
    for (c, f, pts), r in zip(second, pipe.many(b, [f for _, f, _ in second])):
        if r is None:
            continue
        if r.rc != 0:
            ck.violation("run %s: ended with %s" % (c.name, r.rc), files=[r.d])
            continue
        J = imposed(c, r, pts)
        if J[0] is None:
            ck.violation(J[1], files=[r.d])
            continue
        jobs.append(J[0])
        owner.append((c, r))
        ck.count("requests", len(pts))
        ck.count("imposed", sum(all(abs(x) <= 2 for x in e["o"]) for e in J[0]["ev"] if e["e"] == "req"))
        ck.count("edge_seeds", J[2])
    for i, why in validate(ck, "MonitorTrace", jobs, timeout=850, heap="3g", weight=lambda j: len(j["ev"]) * (len(j["s"]) + len(j["c"]))):
        ck.violation("run %s: %s" % (owner[i][0].name, why[:900]), files=[owner[i][1].d])
    if jobs:
        ck.sample(jobs[-1]["ev"][:3])
