"""The decks whose runs the pipeline checks validate. Every deck is a model in an integer frame, placed in space."""
import random
from .common import *
from . import models as M, pipe


class Case:
    def __init__(self, name, model, rmax=None, lip=0.25, angle=60, threads=1, sizing=None, extra=(), rng=None, style=0):
        self.name, self.m = name, model
        self.rmax, self.lip, self.angle, self.threads, self.sizing, self.extra = rmax, lip, angle, threads, sizing, list(extra)
        self.style = style

    def files(self):
        o = []
        if self.rmax is not None:
            o.append(("R_MAX", "%.17g" % self.rmax))
        o += [("LIP_CONST", self.lip), ("VC_ANGLE", self.angle), ("NUM_THREADS", self.threads), ("GENERATE_VCG_FILE", None)]
        f = {"m.obj": self.m.obj(self.style)}
        if self.sizing:
            o.append(("SIZING_FILE", "sz.csv"))
            f["sz.csv"] = "x,y,z,size\n" + "".join("%.17g,%.17g,%.17g,%.17g\n" % tuple(p) for p in self.sizing)
        o += self.extra
        f["vc.in"] = pipe.deck(o)
        return f


def sizing_grid(m, lo, hi, rng, n=200):
    """random sizing points around the model, in its written coordinates"""
    c = [m.fwd(p) for p in m.v0]
    b0 = [min(q[i] for q in c) for i in range(3)]
    b1 = [max(q[i] for q in c) for i in range(3)]
    return [[rng.uniform(b0[i], b1[i]) for i in range(3)] + [rng.uniform(lo, hi)] for _ in range(n)]


def base(rng=None):
    rng = rng or random.Random(SEED * 104729 + 11)
    R = lambda: M.rotation(rng)
    cs = [
        Case("cube", M.cube()),
        Case("cube_t4", M.cube().place((2, 2, 2), R(), (5, -3, 1)), threads=4),
        Case("two_t2", M.two().place(R=R()), threads=2, lip=0.5),
        Case("three", M.three_l(), lip=0.25, angle=80),
        Case("nest", M.nest().place((1, 1, 1), None, (1, 1, 1)), lip=0.5, threads=1),
        Case("diag", M.diag().place((1, 1.5, 1)), lip=0.5),
        Case("tetra", M.tetra().place((0.5, 0.5, 0.5), R()), angle=40, threads=3),
        Case("cube_sz", M.cube().place((3, 3, 3)), lip=0.3, threads=2),
        Case("hollow", M.hollow().place((0.5, 0.5, 0.5), R()), lip=0.6),
    ]
    for c in cs:
        if c.name == "cube_sz":
            c.sizing = sizing_grid(c.m, 0.35, 1.2, rng)
    return cs


def more(rng=None):
    """further decks, bigger or slower"""
    rng = rng or random.Random(SEED * 104729 + 12)
    R = lambda: M.rotation(rng)
    cs = [
        Case("sphere", M.icosphere(2), angle=60, lip=0.4, rmax=0.35),
        Case("torus", M.torus(), angle=60, lip=0.4, rmax=0.5, threads=2),
        Case("checker", M.checker(), lip=0.5, threads=2),
        Case("octa", M.octa().place((0.3, 0.3, 0.3), R()), angle=40, lip=0.4),
        Case("prism", M.prism(6, 1.0).place(R=R()), angle=45, lip=0.4, threads=4),
        Case("fine", M.cube(), rmax=0.12, lip=0.3, threads=4),
        Case("fine1", M.cube().place((1, 1, 2)), rmax=0.15, lip=0.5, threads=1),
        Case("two_cav", M.two_cavities(), lip=0.6, threads=4),
        Case("cyl", M.cylinder().place((1, 1, 1), R()), angle=40, lip=0.5, rmax=0.5, threads=2),
        Case("small", M.two().place((0.01, 0.01, 0.01), R()), lip=0.4, threads=2),
        Case("thin", M.voxels("plate", {(0, 0, 0): 1, (1, 0, 0): 2}, (2, 1, 1)).place((2, 2, 0.4)), lip=0.5, threads=2),
    ]
    return cs


def random_cases(n, rng):
    cs = []
    for k in range(n):
        m = M.random_voxels(rng, rng.randint(1, 6), rng.randint(1, 3), rng.choice([(2, 2, 1), (3, 1, 1), (2, 2, 2), (3, 2, 1)]))
        s = rng.choice([(1, 1, 1), (1, 1, 1), (10, 10, 10), (1, 2, 1), (0.1, 0.1, 0.1)])
        m.place(s, M.rotation(rng) if rng.random() < 0.6 else None, tuple(rng.uniform(-3, 3) for _ in range(3)))
        cs.append(Case("rand%d" % k, m, rmax=rng.choice([None, 0.4, 0.25, 0.2]) and rng.choice([10, 0.4, 0.25]) * max(s), lip=rng.choice([0.2, 0.3, 0.5, 0.7]),
                       angle=rng.choice([30, 60, 80]), threads=rng.choice([1, 1, 2, 4, 8])))
    return cs
