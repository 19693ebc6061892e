"""V20: geometric constructions (specs/Kernel.tla, KernelGen.tla, KernelTrace.tla)."""
import json, math, os, random, subprocess
from concurrent.futures import ThreadPoolExecutor
from ..common import *
from ..build import build
from .. import tlc
from .. import models as M
from ..validate import validate

K = 100000


class Frame:
    """integer frame -> world: scale, turn, shift"""

    def __init__(self, rng, flat=False):
        self.s = rng.choice([1, 1, 1e-2, 0.37, 25.0, 300.0])
        self.R = M.rotation(rng) if rng.random() < 0.6 and not flat else None
        self.t = [rng.uniform(-3, 3) * self.s if rng.random() < 0.5 and not flat else 0.0 for _ in range(3)]
        self.m = M.Model("f", [], []).place((self.s,) * 3, self.R, self.t)

    def f(self, p):
        return self.m.fwd(p)

    def v(self, p):        # a direction, scaled
        return [a - b for a, b in zip(self.m.fwd(p), self.m.fwd((0, 0, 0)))]

    def b(self, q):
        return self.m.back(q)

    def u(self, q):        # a world direction -> integer frame, not scaled
        return [sum(self.R[r][i] * q[r] for r in range(3)) for i in range(3)] if self.R else list(q)


def q(v, k, m=10 ** 8):
    return m if v != v else max(-m, min(m, round(max(-1e15, min(1e15, v * k)))))


def qs(v, k, m=10 ** 8):
    return [q(a, k, m) for a in v]


def w_of(p, x):
    """weights that make p of the points x (a hint): the best over the points, pairs and the triangle"""
    best = (1e300, [1.0] + [0.0] * (len(x) - 1))

    def put(w):
        nonlocal best
        r = sum(abs(sum(w[k] * x[k][d] for k in range(len(x))) - p[d]) for d in range(3)) + sum(max(0, -a) for a in w)
        if r < best[0]:
            best = (r, w)
    for i in range(len(x)):
        put([1.0 if k == i else 0.0 for k in range(len(x))])
    for i in range(len(x)):
        for j in range(i + 1, len(x)):
            e = [b - a for a, b in zip(x[i], x[j])]
            n = sum(a * a for a in e)
            if n:
                u = sum((p[d] - x[i][d]) * e[d] for d in range(3)) / n
                u = max(0.0, min(1.0, u))
                put([(1 - u) if k == i else u if k == j else 0.0 for k in range(len(x))])
    if len(x) == 3 and best[0] > 1e-7:
        a = [x[1][d] - x[0][d] for d in range(3)]
        b = [x[2][d] - x[0][d] for d in range(3)]
        r = [p[d] - x[0][d] for d in range(3)]
        aa, bb, ab, ra, rb = (sum(s * t for s, t in zip(g, h)) for g, h in ((a, a), (b, b), (a, b), (r, a), (r, b)))
        D = aa * bb - ab * ab
        if D:
            s, t = (ra * bb - rb * ab) / D, (rb * aa - ra * ab) / D
            put([1 - s - t, s, t])
    return best[1]


def I(rng, m=4):
    return [rng.randint(-m, m) for _ in range(3)]


def T(v):
    return " ".join("%.17g" % a for a in v)


def lipset(rng):
    """spheres with integer centres and radii that obey the Lipschitz constant ln/10"""
    ln = rng.choice([1, 3, 5, 8])
    n = rng.choice([0, 1, 2, 5, 20, 60, 150])
    R = rng.randint(1, 5)
    s = []
    steep = rng.random() < 0.5
    if steep:
        R, n = 1, rng.choice([2, 2, 3, 4, 8, 30])
    peak = [rng.randint(-10, 10) for _ in range(3)]
    for _ in range(n):
        c = [rng.randint(-10, 10) for _ in range(3)]
        r = min(99 if steep else R + rng.randint(0, 8), int(R + ln / 10 * math.dist(c, peak)))
        if all(c != t[:3] and abs(r - t[3]) <= ln / 10 * math.dist(c, t[:3]) for t in s):
            s.append(c + [r])
    return s, ln


def far(rng, s, ln, al, kind):
    beta = math.sqrt(1 - (al[0] / al[1]) ** 2)
    best = (-1, None)
    for _ in range(60):
        o = rng.choice(s)
        o = [a + rng.randint(-7, 7) for a in o[:3]]
        pts = [o] + [[a + rng.randint(-1, 1) for a in o] for _ in range(kind - 1)]
        m = [sum(x) / kind for x in zip(*pts)]
        c = min(s, key=lambda t: math.dist(m, t[:3]))
        h = math.dist(m, c[:3])
        v = [math.dist(m, t[:3]) for t in s if all(math.dist(t[:3], x) < beta * t[3] for x in pts)]
        if v:
            best = max(best, (min(v) / (c[3] + ln / 10 * h), pts))
    return best[1] or pts


def stimuli(rng, G, big):
    out = []
    F = lambda flat=False: Frame(rng, flat)
    tri = [(t, p) for t in G["tri"] for p in G["p"]]
    for t, p in (tri if big else rng.sample(tri, 1500)):
        out.append(("T", F(), p, t))
    for c in (G["cen"] if big else rng.sample(G["cen"], 700)):
        out.append(("W", F(), 3, [list(x) for x in c], [rng.randint(1, 3) for _ in c]))
    m = 1200 if not big else 8000
    for _ in range(m):
        out.append(("T", F(), I(rng), [I(rng) for _ in range(3)]))
        a = [I(rng) for _ in range(2)]
        if rng.random() < 0.1:
            a[1] = a[0]
        out.append(("S", F(), I(rng), a))
        u = I(rng)
        if any(u):
            out.append(("L", F(), I(rng), I(rng), u))
        x = [I(rng, 3) for _ in range(3)]
        if rng.random() < 0.2:
            k = rng.choice([-1, 0, 2, 1])
            x[2] = [a + k * (b - a) for a, b in zip(x[0], x[1])]
        out.append(("A", F(), x))
        out.append(("C", F(), [I(rng, 3) for _ in range(3)]))
        out.append(("G", F(True), rng.choice([[rng.randint(-9, 9), rng.randint(-9, 9)], [0, rng.randint(-9, 9)], [rng.randint(-9, 9), 0]])))
        out.append(("D", I(rng), I(rng)))
        out.append(("U", F(), I(rng) if rng.random() < 0.9 else [0, 0, 0]))
        out.append(("N", F(), sorted(rng.sample([1, 2, 3], rng.randint(0, 3))), [rng.choice([0, rng.randint(-4, 4)]) for _ in range(3)]))
        n = rng.randint(2, 4)
        c = [I(rng) for _ in range(n)]
        if n > 2 and rng.random() < 0.2:
            k = rng.choice([-1, 2, 0, 1])
            c[2] = [a + k * (b - a) for a, b in zip(c[0], c[1])]
        if n == 4 and rng.random() < 0.2:
            c[3] = [a + b - o for o, a, b in zip(*c[:3])]
        out.append(("W", F(), 3, c, [rng.randint(1, 6) for _ in range(n)]))
        n = rng.randint(2, 3)
        out.append(("W", F(True), 2, [I(rng)[:2] + [0] for _ in range(n)], [rng.randint(1, 6) for _ in range(n)]))
        out.append(("O", F(), I(rng) + [rng.randint(1, 5)], I(rng) + [rng.randint(1, 5)]))
    for _ in range(m // 2):
        s, ln = lipset(rng)
        fr = F()
        for _ in range(4):
            kind = rng.randint(1, 3)
            o = rng.choice(s)[:3] if s and rng.random() < 0.7 else [rng.randint(-10, 10) for _ in range(3)]
            pts = [[a + rng.randint(-3, 3) for a in o] for _ in range(kind)]
            al = rng.choice([(0, 1), (2, 5), (1, 2), (3, 5)])
            out.append(("V", fr, s, ln, al, pts))
            if s:                   # the far side: covered only by a sphere far away compared with the nearest
                out.append(("V", fr, s, ln, al, far(rng, s, ln, al, kind)))
            if s:               # a point near the rim of a sphere
                t = rng.choice(sorted(s, key=lambda t: -t[3])[:3]) if rng.random() < 0.5 else rng.choice(s)
                g = [rng.gauss(0, 1) for _ in range(3)]
                h = math.sqrt(sum(a * a for a in g)) or 1.0
                p = [round(a + t[3] * b / h) for a, b in zip(t, g)]
                out.append(("V", fr, s, ln, al, [p]))
                if not (al[0] == 0):
                    out.append(("P", fr, s, ln, al, [rng.choice([-1, s.index(t), rng.randrange(len(s))]) for _ in range(3)], p))
            out.append(("R", fr, s, ln, [a + rng.randint(-3, 3) for a in o] + [rng.randint(1, 6)]))
        z = [[rng.randint(-9, 9) for _ in range(3)] + [rng.randint(1, 12)] for _ in range(rng.choice([1, 2, 6, 15]))]
        if len({tuple(t[:3]) for t in z}) == len(z):
            out.append(("Z", fr, z, rng.choice([1, 3, 5, 9])))
            out.append(("Y", fr, z, rng.choice([1, 3, 5, 9])))
    rng.shuffle(out)
    return out


def text(c):
    k, f = c[0], c[1]
    sp = lambda s: " ".join(T(f.f(t[:3]) + [t[3] * f.s]) for t in s)
    if k == "T":
        return "T %s %s\n" % (T(f.f(c[2])), " ".join(T(f.f(x)) for x in c[3]))
    if k == "S":
        return "S %s %s\n" % (T(f.f(c[2])), " ".join(T(f.f(x)) for x in c[3]))
    if k == "L":
        d = f.v(c[4])
        n = math.sqrt(sum(a * a for a in d))
        return "L %s %s %s\n" % (T(f.f(c[2])), T(f.f(c[3])), T([a / n for a in d]))
    if k == "A":
        return "A %s\n" % " ".join(T(f.f(x)) for x in c[2])
    if k == "C":
        return "C 3 %s\n" % " ".join(T(f.f(x)) for x in c[2])
    if k == "G":
        return "G %s\n" % T([a * f.s for a in c[2]])
    if k == "D":
        return "D 3 %s %s\n" % (T(c[1]), T(c[2]))
    if k == "U":
        return "U 3 %s\n" % T(f.v(c[2]))
    if k == "N":
        ax = [f.v([1 if d == a else 0 for d in (1, 2, 3)]) for a in c[2]]
        ax = [[x / math.sqrt(sum(y * y for y in a)) for x in a] for a in ax]
        return "N 3 %d %s %s\n" % (len(ax), " ".join(T(a) for a in ax), T(f.v(c[3])))
    if k == "W":
        return "W %d %d %s\n" % (c[2], len(c[3]), " ".join(T((f.f(x) if c[2] == 3 else [a * f.s for a in x[:2]]) + [r * f.s]) for x, r in zip(c[3], c[4])))
    if k == "O":
        return "O %s\n" % sp([c[2], c[3]])
    if k == "V":
        return "V %.17g %.17g %d %s %d %s\n" % (c[3] / 10, c[4][0] / c[4][1], len(c[2]), sp(c[2]), len(c[5]), " ".join(T(f.f(x)) for x in c[5]))
    if k == "R":
        return "R %.17g %d %s %s\n" % (c[3] / 10, len(c[2]), sp(c[2]), sp([c[4]]))
    if k == "P":
        return "P %.17g %.17g %d %s %s %s\n" % (c[3] / 10, c[4][0] / c[4][1], len(c[2]), sp(c[2]), " ".join(map(str, c[5])), T(f.f(c[6])))
    return k + " %.17g %d %s\n" % (c[3] / 10, len(c[2]), sp(c[2]))


def event(c, t):
    k, f = c[0], c[1]
    N = [float(a) for a in t]
    if k in "TS":
        b = f.b(N[3:6])
        if any(a != a for a in N):
            b = [1e6] * 3
        x = c[3]
        return dict(e="proj", p=c[2], x=x, q=qs(b, K), w=[q(a, K) for a in w_of(b, x)], d=q(N[2] / f.s, 1000, 50000), r=[max(-40000, min(40000, q(a - p, 1000))) for a, p in zip(b, c[2])], kept=int(N[1]))
    if k == "L":
        b = f.b(N[3:6]) if all(a == a for a in N) else [1e6] * 3
        return dict(e="line", p=c[2], a=c[3], u=c[4], q=qs(b, K), d=q(N[2] / f.s, 1000, 50000), r=[max(-26000, min(26000, q(a - p, 1000))) for a, p in zip(b, c[2])], kept=int(N[1]))
    if k == "A":
        return dict(e="area", x=c[2], a=q(2 * N[0] / f.s ** 2, 100, 50000), ok=int(N[1]), n=qs(f.u(N[2:5]), 10000, 20000))
    if k == "C":
        return dict(e="cos", x=c[2][0], y=c[2][1], z=c[2][2], c=q(N[0], 400, 1000))
    if k == "G":
        big = int(not abs(N[0]) < 1e6)
        a = 0.0 if big else N[0]
        return dict(e="angle", x=c[2][0], y=c[2][1], big=big, t=math.floor(a * 1000 + (1e-7 if a > -1e-9 else 0)), c=q(math.cos(a), 1000), s=q(math.sin(a), 1000))
    if k == "D":
        return dict(e="dist", x=c[1], y=c[2], d=q(N[0], 1000, 50000), p=q(N[1], 1) if abs(N[1] - round(max(-1e9, min(1e9, N[1])))) < 1e-9 else 10 ** 8)
    if k == "U":
        return dict(e="unit", x=c[2], ok=int(N[0]), n=qs(f.u(N[1:4]), 10000, 20000))
    if k == "N":
        return dict(e="ncomp", ax=c[2], x=c[3], ret=int(N[0]), n=qs(f.u(N[2:5]), 10000, 20000))
    if k == "W":
        D, i, o, Q = c[2], 0, [], []
        bk = (lambda v: f.b(v)) if D == 3 else (lambda v: [a / f.s for a in v] + [0.0])
        for _ in range(2):
            o.append(int(N[i]))
            Q.append(bk(N[i + 1:i + 1 + D]))
            i += 1 + D
        o3 = int(N[i])
        if o3 != 9:
            if c[3][0] != c[3][1]:
                o += [1, int(o3 == 0)]
                Q += [bk(N[i + 1:i + 1 + D]), bk(N[i + 1 + D:i + 1 + 2 * D])]
            else:
                o.append(int(o3 == 0))
                Q.append(bk(N[i + 1 + D:i + 1 + 2 * D]))
        if D == 2 and len(c[3]) == 3:      # a third centre in the plane: independence is that of the plane
            pass
        return dict(e="power", c=c[3], r=c[4], o=o, q=[qs(v, 10000, 2 * 10 ** 7) for v in Q], kept=int(N[-1]))
    if k == "O":
        return dict(e="ovl1", s=c[2], t=c[3], v=int(N[0]))
    if k == "V":
        a, b = c[4]
        return dict(e="cover", s=c[2], x=c[5], bn=b * b - a * a, bd=b * b, v=int(N[0]))
    if k == "R":
        return dict(e="ovl", s=c[2], t=c[4], v=[int(a) + 1 for a in N])
    if k == "P":
        a, b = c[4]
        return dict(e="covering", s=c[2], x=c[6], ex=[i + 1 for i in c[5]], bn=b * b - a * a, bd=b * b, c=int(N[0]), v=[int(a) + 1 for a in N[1:]])
    return dict(e="lip" if k == "Z" else "near", s=c[2], ln=c[3], v=int(N[0]), r=[q(a / f.s, 200, 5000) for a in N[1:]])


def run(ck):
    b = build()
    big = TIER == "thorough"
    rng = random.Random(SEED * 49979687 + 20)
    d = scratch("v20")
    o = os.path.join(d, "gen.ndjson")
    g = tlc.run("KernelGen", cfg="KernelGenT" if big else "KernelGen", env=dict(OUT=o))
    if not g["ok"]:
        raise Infra("KernelGen: " + tlc.err(g["out"]))
    G = json.loads(open(o).read().split("\n")[0])
    st = stimuli(rng, G, big)
    groups = [st[i:i + 160] for i in range(0, len(st), 160)]

    def play(gr):
        try:
            p = subprocess.run([b.drv("drv_geom")], input="".join(map(text, gr)).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=90)
            return p.stdout.decode(errors="replace").split("\n"), p.returncode
        except subprocess.TimeoutExpired as x:
            return (x.stdout or b"").decode(errors="replace").split("\n"), "a time-out"
    jobs = []
    with ThreadPoolExecutor(NCPU) as ex:
        for gr, (out, rc) in zip(groups, ex.map(play, groups)):
            out = [x for x in out if x]
            if rc != 0 or len(out) != len(gr):
                c = gr[min(len(out), len(gr) - 1)]
                ck.violation("a geometric construction ended with %s" % rc, text=text(c))
            ev = [event(c, x.split()[1:]) for c, x in zip(gr, out)]
            if ev:
                jobs.append(dict(ev=ev))
    for s in st:
        ck.count("calls_" + s[0])
    if jobs:
        for i, why in validate(ck, "KernelTrace", jobs):
            ck.violation("geometry: %s" % why[:600], text="".join(map(text, groups[i])))
        ck.sample(jobs[0]["ev"][0])
    shutil.rmtree(d, ignore_errors=True)
