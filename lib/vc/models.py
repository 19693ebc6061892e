"""Input models: voxel complexes (several regions, cavities, non-manifold edges), polyhedra and curved surfaces.

A model knows its vertices and triangles in an integer frame, the map to the coordinates it is written in,
and, for flat-faced models, which component of space every point of the integer frame belongs to."""
import math, random, itertools


def rotation(rng):
    q = [rng.gauss(0, 1) for _ in range(4)]
    n = math.sqrt(sum(a * a for a in q))
    w, x, y, z = (a / n for a in q)
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]


class Model:
    def __init__(self, name, verts, tris, vox=None, dims=None, flat=True):
        self.name, self.v0, self.tris = name, verts, tris
        self.vox, self.dims, self.flat = vox, dims, flat
        self.s, self.R, self.t = (1.0, 1.0, 1.0), None, (0.0, 0.0, 0.0)

    def place(self, s=(1, 1, 1), R=None, t=(0, 0, 0)):
        self.s, self.R, self.t = tuple(map(float, s)), R, tuple(map(float, t))
        return self

    def fwd(self, p):
        q = [p[m] * self.s[m] for m in range(3)]
        if self.R:
            q = [sum(self.R[r][m] * q[m] for m in range(3)) for r in range(3)]
        return [q[m] + self.t[m] for m in range(3)]

    def back(self, q):
        q = [q[m] - self.t[m] for m in range(3)]
        if self.R:
            q = [sum(self.R[m][r] * q[m] for m in range(3)) for r in range(3)]
        return [q[m] / self.s[m] for m in range(3)]

    def verts(self):
        return [self.fwd(p) for p in self.v0]

    def obj(self, style=0, rng=None):
        L = []
        if style:
            L += ["# model %s" % self.name, "", "o thing", "mtllib none.mtl"]
        for k, p in enumerate(self.verts()):
            L.append("v %.17g %.17g %.17g" % tuple(p))
        if style:
            L += ["vt 0.5 0.5", "vn 0 0 1", "g faces", "s off"]
        for a in self.tris:
            i = [x + 1 for x in a]
            if style == 2:
                L.append("f %d/1 %d/1 %d/1" % tuple(i))
            elif style == 3:
                L.append("f %d/1/1 %d/1/1 %d/1/1" % tuple(i))
            elif style == 4:
                L.append("f %d//1 %d//1 %d//1" % tuple(i))
            else:
                L.append("f %d %d %d" % tuple(i))
        return "\n".join(L) + "\n"

    # --- facts about voxel models ---
    def label_at(self, p):
        """label of the unit cell that contains point p of the integer frame (0 outside)"""
        return self.vox.get(tuple(int(math.floor(c)) for c in p), 0)

    def components(self):
        """component id of every cell, 0 = the unbounded outside; cells of one label touching by a face are one component"""
        nx, ny, nz = self.dims
        cells = list(itertools.product(range(-1, nx + 1), range(-1, ny + 1), range(-1, nz + 1)))
        comp, n = {}, -1
        order = [(-1, -1, -1)] + cells
        for c0 in order:
            if c0 in comp:
                continue
            n += 1
            comp[c0] = n
            st = [c0]
            while st:
                c = st.pop()
                for ax in range(3):
                    for s in (-1, 1):
                        d = list(c)
                        d[ax] += s
                        d = tuple(d)
                        if all(-1 <= d[m] <= (nx, ny, nz)[m] for m in range(3)) and d not in comp \
                                and self.vox.get(d, 0) == self.vox.get(c, 0):
                            comp[d] = n
                            st.append(d)
        return comp, n

    def det(self):
        return self.s[0] * self.s[1] * self.s[2]


def voxels(name, vox, dims, split=0, rng=None):
    """boundary complex of a labelled voxel set, oriented from the higher to the lower label"""
    L = lambda c: vox.get(c, 0)
    verts, vl, tris = {}, [], []

    def v(p):
        if p not in verts:
            verts[p] = len(vl)
            vl.append(p)
        return verts[p]
    nx, ny, nz = dims
    for i in range(-1, nx):
        for j in range(-1, ny):
            for k in range(-1, nz):
                for ax in range(3):
                    c = (i, j, k)
                    d = list(c)
                    d[ax] += 1
                    d = tuple(d)
                    if L(c) == L(d):
                        continue
                    u, w = (ax + 1) % 3, (ax + 2) % 3

                    def P(a, b):
                        q = list(d)
                        q[u] += a
                        q[w] += b
                        return tuple(q)
                    a0, a1, a2, a3 = v(P(0, 0)), v(P(1, 0)), v(P(1, 1)), v(P(0, 1))
                    t = [(a0, a1, a2), (a0, a2, a3)] if not split or (i + j + k) % 2 else [(a0, a1, a3), (a1, a2, a3)]
                    if L(c) < L(d):
                        t = [(x, z, y) for x, y, z in t]
                    tris += t
    return Model(name, vl, tris, vox, dims)


def cube():
    return voxels("cube", {(0, 0, 0): 1}, (1, 1, 1))


def two():
    return voxels("two", {(0, 0, 0): 1, (1, 0, 0): 2}, (2, 1, 1))


def three_l():
    return voxels("three_l", {(0, 0, 0): 1, (1, 0, 0): 2, (0, 1, 0): 3}, (2, 2, 1))


def ell():
    return voxels("L", {(0, 0, 0): 1, (1, 0, 0): 1, (0, 1, 0): 1}, (2, 2, 1))


def diag():
    """two solid cells of one label that touch along an edge only"""
    return voxels("diag", {(0, 0, 0): 1, (1, 1, 0): 1}, (2, 2, 1))


def checker():
    return voxels("checker", {(0, 0, 0): 1, (1, 1, 0): 1, (0, 1, 0): 2, (1, 0, 0): 2}, (2, 2, 1))


def nest():
    return voxels("nest", {(i, j, k): 1 if (i, j, k) != (1, 1, 1) else 2 for i in range(3) for j in range(3) for k in range(3)}, (3, 3, 3))


def hollow():
    return voxels("hollow", {(i, j, k): 1 for i in range(3) for j in range(3) for k in range(3) if (i, j, k) != (1, 1, 1)}, (3, 3, 3))


def two_cavities():
    v = {(i, j, k): 1 for i in range(5) for j in range(3) for k in range(3)}
    v[(1, 1, 1)] = 2
    v[(3, 1, 1)] = 3
    return voxels("two_cavities", v, (5, 3, 3))


def random_voxels(rng, n, labels=3, dims=(3, 2, 2)):
    """a connected random voxel set; contacts through a vertex only are avoided"""
    while True:
        cells = list(itertools.product(*(range(d) for d in dims)))
        n = min(n, len(cells))
        start = rng.choice(cells)
        cur = {start: rng.randint(1, labels)}
        while len(cur) < n:
            c = rng.choice(list(cur))
            ax, s = rng.randrange(3), rng.choice((-1, 1))
            d = list(c)
            d[ax] += s
            d = tuple(d)
            if all(0 <= d[m] < dims[m] for m in range(3)) and d not in cur:
                cur[d] = cur[c] if rng.random() < 0.5 else rng.randint(1, labels)
        if not vertex_contact(cur, dims):
            return voxels("rand%d" % n, cur, dims)


def vertex_contact(vox, dims):
    """true when, at some grid vertex, the surface is pinched (two sheets meet in the vertex only), or the outside
    has a bounded or pinched component"""
    L = lambda c: vox.get(c, 0)
    for p in itertools.product(*(range(d + 1) for d in dims)):
        cells = [(p[0] + a, p[1] + b, p[2] + c) for a in (-1, 0) for b in (-1, 0) for c in (-1, 0)]
        # cells around p, connected through faces with the same label
        par = {c: c for c in cells}

        def f(c):
            while par[c] != c:
                c = par[c]
            return c
        for c in cells:
            for ax in range(3):
                d = list(c)
                d[ax] += 1
                d = tuple(d)
                if d in par and L(c) == L(d):
                    par[f(c)] = f(d)
        # surface sheets around p: faces between differing cells, connected through shared edges at p
        faces = []
        for c in cells:
            for ax in range(3):
                d = list(c)
                d[ax] += 1
                d = tuple(d)
                if d in par and L(c) != L(d):
                    faces.append((c, d, ax))
        if len(faces) < 2:
            continue

        def edges(fc):
            # the two edges of the face that contain p, named by direction
            c, d, ax = fc
            r = []
            for u in range(3):
                if u != ax:
                    r.append((u, 1 if c[u] == p[u] else -1))
            return r
        adj = {k: k for k in range(len(faces))}

        def g(k):
            while adj[k] != k:
                k = adj[k]
            return k
        for a in range(len(faces)):
            for b in range(a):
                if set(edges(faces[a])) & set(edges(faces[b])):
                    adj[g(a)] = g(b)
        if len({g(k) for k in range(len(faces))}) > 1:
            return True
    return False


def sheet(kind=0):
    """a box of one material with an open surface inside: a square, a tilted one, or two squares meeting in an edge"""
    m = voxels("sheet%d" % kind, {(i, j, k): 1 for i in range(3) for j in range(3) for k in range(3)}, (3, 3, 3))
    n, v, t = len(m.v0), list(m.v0), list(m.tris)
    if kind == 0:
        v += [(0.9, 1.1, 1.5), (2.1, 1.0, 1.5), (2.0, 2.1, 1.5), (1.0, 2.0, 1.5)]
        t += [(n, n + 1, n + 2), (n, n + 2, n + 3)]
    elif kind == 1:
        v += [(1, 1, 1.2), (2, 1, 1.5), (2, 2, 1.8), (1, 2, 1.5)]
        t += [(n, n + 1, n + 2), (n, n + 2, n + 3)]
    else:
        v += [(1, 1, 1.2), (2, 1, 1.2), (2, 2, 1.2), (1, 2, 1.2), (2, 1, 2.1), (2, 2, 2.1)]
        t += [(n, n + 1, n + 2), (n, n + 2, n + 3), (n + 1, n + 4, n + 5), (n + 1, n + 5, n + 2)]
    m.v0, m.tris, m.open = v, t, n
    return m


def tetra():
    v = [(0, 0, 0), (4, 0, 0), (0, 4, 0), (0, 0, 4)]
    return Model("tetra", v, [(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)])


def octa():
    v = [(2, 0, 0), (-2, 0, 0), (0, 2, 0), (0, -2, 0), (0, 0, 2), (0, 0, -2)]
    t = [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)]
    return Model("octa", v, t)


def prism(n=6, h=1.0):
    v = [(math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n), z) for z in (0, h) for i in range(n)]
    t = []
    for i in range(n):
        j = (i + 1) % n
        t += [(i, j, n + j), (i, n + j, n + i)]
    for i in range(1, n - 1):
        t += [(0, i + 1, i), (n, n + i, n + i + 1)]
    return Model("prism%d" % n, v, t)


def cylinder(n=20, h=1.0):
    """sharp rims without corners, a smooth mantle"""
    m = prism(n, h)
    m.name, m.flat = "cylinder", False
    return m


def icosphere(k=2):
    p = (1 + 5 ** 0.5) / 2
    v = [(-1, p, 0), (1, p, 0), (-1, -p, 0), (1, -p, 0), (0, -1, p), (0, 1, p), (0, -1, -p), (0, 1, -p), (p, 0, -1), (p, 0, 1), (-p, 0, -1), (-p, 0, 1)]
    nrm = lambda q: tuple(c / math.sqrt(sum(x * x for x in q)) for c in q)
    v = [nrm(q) for q in v]
    t = [(0, 11, 5), (0, 5, 1), (0, 1, 7), (0, 7, 10), (0, 10, 11), (1, 5, 9), (5, 11, 4), (11, 10, 2), (10, 7, 6), (7, 1, 8),
         (3, 9, 4), (3, 4, 2), (3, 2, 6), (3, 6, 8), (3, 8, 9), (4, 9, 5), (2, 4, 11), (6, 2, 10), (8, 6, 7), (9, 8, 1)]
    for _ in range(k):
        mid, nt = {}, []

        def m(a, b):
            e = (min(a, b), max(a, b))
            if e not in mid:
                mid[e] = len(v)
                v.append(nrm([v[a][i] + v[b][i] for i in range(3)]))
            return mid[e]
        for a, b, c in t:
            x, y, z = m(a, b), m(b, c), m(c, a)
            nt += [(a, x, z), (b, y, x), (c, z, y), (x, y, z)]
        t = nt
    return Model("sphere", v, t, flat=False)


def torus(n=24, m=12, R=2.0, r=0.8):
    v = [((R + r * math.cos(2 * math.pi * j / m)) * math.cos(2 * math.pi * i / n),
          (R + r * math.cos(2 * math.pi * j / m)) * math.sin(2 * math.pi * i / n), r * math.sin(2 * math.pi * j / m))
         for i in range(n) for j in range(m)]
    t = []
    for i in range(n):
        for j in range(m):
            a, b = i * m + j, ((i + 1) % n) * m + j
            c, d = ((i + 1) % n) * m + (j + 1) % m, i * m + (j + 1) % m
            t += [(a, b, c), (a, c, d)]
    return Model("torus", v, t, flat=False)


def volume(verts, tris):
    s = 0.0
    for a, b, c in tris:
        p, q, r = verts[a], verts[b], verts[c]
        s += (p[0] * (q[1] * r[2] - q[2] * r[1]) + p[1] * (q[2] * r[0] - q[0] * r[2]) + p[2] * (q[0] * r[1] - q[1] * r[0])) / 6
    return s
