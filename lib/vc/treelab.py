"""Histories for the point collection and the mesher's index: commands for the drivers, events for specs/TreeTrace.tla."""
import math, subprocess
from concurrent.futures import ThreadPoolExecutor
from .common import *

FAR = -999999


def as_int(s, tol=1e-12):
    v = float(s)
    if v != v or abs(v) > 1e8:
        return FAR
    r = round(v)
    return r if abs(v - r) <= tol * max(1, abs(r)) else FAR


def as_sq(s):
    """a reported distance -> its square, when that is an integer"""
    v = float(s)
    if v == -1.0:
        return -1
    if v != v or abs(v) > 1e5 or v < 0:
        return -1000000
    q = v * v
    r = round(q)
    return r if abs(q - r) <= 1e-9 * max(1, r) else -1000000


def bound(b):
    """b = twice the squared bound (below zero: none) -> text"""
    return "-1" if b < 0 else "%.17g" % math.sqrt(b / 2)


class Hist:
    def __init__(self, D, scale=1.0, unit=True, name=""):
        self.D, self.name, self.unit = D, name, unit
        self.cmds, self.parse = [], []
        self.do("N %d %.17g %d" % (D, scale, int(unit)), None)
        self.n = 0
        self.pts = []      # (x, attribs)
        self.tag = 0

    def do(self, cmd, parse):
        self.cmds.append(cmd)
        self.parse.append(parse)

    def point(self, r):
        """' nd x.. n.. k a.. ; links # count' """
        t, _, rest = r.partition(";")
        nb, _, c = rest.partition("#")
        t = t.split()
        nd = int(t[0])
        x = [as_int(v) for v in t[1:1 + nd]]
        n = [as_int(v) if abs(float(v)) > 1e-300 or float(v) == 0 else FAR for v in t[1 + nd:1 + nd + self.D]]
        a = t[1 + nd + self.D:]
        a = [] if a[0] == "0" else [as_int(v) for v in a]
        return dict(x=x, n=n, a=a, nb=[int(v) + 1 for v in nb.split()], c=int(c))

    def points(self, r):
        return [self.point(p) for p in r.split("|")[1:]]

    def add(self, x, n=None, a=None):
        """x without tag; a: list of attributes after the count"""
        self.tag += 1
        x = list(x) + [self.tag]
        A = [] if a is None else [len(a) + 1] + list(a)
        N = [0] * self.D if n is None else list(n)
        self.do("A %d %s %d %s %d %s" % (len(x), " ".join(map(str, x)), int(n is not None), " ".join(map(str, N)) if n is not None else "",
                                         len(A), " ".join(map(str, A))),
                lambda r: dict(e="add", x=x, n=N, a=A, r=as_int(r.split()[0])))
        self.n += 1
        self.pts.append((x, A))

    def link(self, i, j, both=True):
        self.do("%s %d %d" % ("L" if both else "K", i, j), lambda r: dict(e="link2" if both else "link1", i=i + 1, j=j + 1))

    def conn(self, i, j):
        self.do("C %d %d" % (i, j), lambda r: dict(e="conn", i=i + 1, j=j + 1, r=int(r)))

    def unlink(self):
        self.do("G", lambda r: dict(e="unlink"))

    def setr(self, i, k, v):
        self.do("D %d %d %d" % (i, k, v), lambda r: dict(e="setr", i=i + 1, k=k + 1, v=v, r=as_int(r)))

    def seti(self, i, k, v):
        self.do("I %d %d %d" % (i, k, v), lambda r: dict(e="seti", i=i + 1, k=k + 1, v=v))

    def geti(self, i, k):
        self.do("T %d %d" % (i, k), lambda r: dict(e="geti", i=i + 1, k=k + 1, r=int(r.split()[0]), v=as_int(r.split()[1])))

    def dump(self):
        self.do("S", lambda r: dict(e="dump", s=self.points(r)))

    def one(self, i):
        self.do("P %d" % i, lambda r: dict(e="point", i=i + 1, s=self.points(r)))

    def keep(self, c):
        self.do(c, lambda r: dict(e="keep"))

    def renumber(self):
        self.do("E", None)
        self.do("S", lambda r: dict(e="renum", s=self.points(r)))
        self.do("S", lambda r: dict(e="dump", s=self.points(r)))

    def clear(self):
        self.do("X", lambda r: dict(e="clear"))
        self.n, self.pts = 0, []

    def saveload(self, nd):
        self.do("V t.csv %d" % nd, lambda r: dict(e="load", r=int(r)))

    # queries -------------------------------------------------------------
    def q(self, kind, x=None, p=None, b=-1, ex=None, tol=None, thr=None, n=None, ns=None):
        t = [kind]
        if kind == "qi":
            t.append(p)
            x = self.pts[p][0][:self.D]
        else:
            t += list(x)
        if kind == "qe":
            t += [len(ex)] + list(ex)
        if tol is not None:
            t.append("%.17g" % math.sqrt(tol / 2))
        if n is not None:
            t += list(n)
        if ns is not None:
            t.append(len(ns))
            for v in ns:
                t += list(v)
        if thr is not None:
            t.append("%.17g" % math.sqrt(thr[0] / thr[1]))
        t.append(bound(b))
        base = dict(k=kind, x=list(x), b=b)
        if p is not None:
            base["p"] = p + 1
        if ex is not None:
            base["ex"] = [e + 1 for e in ex]
        if tol is not None:
            base["tol"] = tol
        if thr is not None:
            base["tn"], base["td"] = thr
        if n is not None:
            base["n"] = list(n)
        if ns is not None:
            base["ns"] = [list(v) for v in ns]
        self.do(" ".join(map(str, t)), lambda r: self.answer(base, r))

    def answer(self, base, r):
        i, d, none = r.split()
        return dict(e="q", q=[dict(base, r=0 if none == "1" else min(int(i), 10 ** 8) + 1, d=as_sq(d))])

    def range(self, x, b, cap=10):
        """b = twice the squared radius"""
        base = dict(k="R", x=list(x), b=b)
        self.do("R %s %s %d" % (" ".join(map(str, x)), bound(b), cap),
                lambda r: dict(e="q", q=[dict(base, s=[min(int(v), 10 ** 8) + 1 for v in r.split()[1:]])]))

    def job(self, lines):
        ev = []
        for p, r in zip(self.parse, lines):
            if p is None:
                continue
            e = p(r)
            if e["e"] == "q" and ev and ev[-1]["e"] == "q" and len(ev[-1]["q"]) < 40:
                ev[-1]["q"] += e["q"]
            else:
                ev.append(e)
        return dict(D=self.D, unit=self.unit, ev=ev)


class Kd(Hist):
    """the mesher's own index (drvx_kd)"""

    def __init__(self, D, pts, scale=1.0, name=""):
        self.D, self.name, self.unit = D, name, True
        self.cmds, self.parse = [], []
        self.pts = [(list(x), []) for x in pts]
        self.n = len(pts)
        self.do("N %d %d %s %.17g" % (D, len(pts), " ".join(str(v) for x in pts for v in x), scale), None)
        self.first = [dict(e="add", x=list(x), n=[0] * D, a=[], r=k + 1) for k, x in enumerate(pts)]

    def renumber(self):
        n, D = self.n, self.D

        def f(r):
            t = r.split()
            o = [int(v) + 1 for v in t[1:1 + n]]
            w = [int(v) + 1 for v in t[1 + n:1 + 2 * n]]
            x = [as_int(v) for v in t[1 + 2 * n:]]
            return dict(e="perm", old=o, new=w, x=[x[k * D:k * D + D] for k in range(n)])
        self.do("E", f)

    def range(self, x, b, cap=10):
        base = dict(k="R", x=list(x), b=b)
        self.do("R %s %s" % (" ".join(map(str, x)), bound(b)),
                lambda r: dict(e="q", q=[dict(base, s=[min(int(v), 10 ** 8) + 1 for v in r.split()[1:]])]))

    def half(self, x, e, b=-1):
        base = dict(k="qd", x=list(x), n=list(e or []), b=b)
        self.do("qd %s %d %s %s" % (" ".join(map(str, x)), int(e is not None), " ".join(map(str, e or [])), bound(b)), lambda r: self.answer(base, r))

    def halfp(self, p, e, b=-1, x=None):
        base = dict(k="qp", p=p + 1, x=list(x if x is not None else self.pts[p][0]), n=list(e or []), b=b)
        self.do("qp %d %d %s %s" % (p, int(e is not None), " ".join(map(str, e or [])), bound(b)), lambda r: self.answer(base, r))

    def job(self, lines):
        j = Hist.job(self, lines)
        j["ev"] = self.first + j["ev"]
        return j


def play(exe, hists, ck, what, timeout=240):
    """run all histories through the driver; returns [(history, job)], reports crashes and hangs"""
    d = scratch("tree")

    def part(k):
        hs = hists[k::NCPU]
        w = os.path.join(d, "w%d" % k)
        os.makedirs(w)
        done = []
        while hs:
            inp = "\n".join(c for h in hs for c in h.cmds) + "\n"
            try:
                p = subprocess.run([exe], input=inp.encode(), cwd=w, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
                out, rc = p.stdout.decode(errors="replace"), p.returncode
            except subprocess.TimeoutExpired as x:
                out, rc = (x.stdout or b"").decode(errors="replace"), "a time-out"
            lines = out.split("\n")
            if lines and lines[-1] == "":
                lines.pop()
            if lines and lines[-1] == "END":
                lines.pop()
            i = 0
            while hs and i + len(hs[0].cmds) <= len(lines):
                h = hs.pop(0)
                try:
                    done.append((h, h.job(lines[i:i + len(h.cmds)])))
                except (ValueError, IndexError) as x:
                    ck.violation("%s: unreadable answer in history %s (%s)" % (what, h.name, x), text="\n".join(h.cmds))
                    return done
                i += len(h.cmds)
            if hs:
                h = hs.pop(0)
                k2 = len(lines) - i
                ck.violation("%s ended with %s at '%s' in history %s" % (what, rc, h.cmds[min(k2, len(h.cmds) - 1)][:200], h.name), text="\n".join(h.cmds))
                return done
            elif rc != 0:
                ck.violation("%s ended with %s when the last collection was destroyed" % (what, rc))
        return done
    with ThreadPoolExecutor(NCPU) as ex:
        res = [x for r in ex.map(part, range(NCPU)) for x in r]
    shutil.rmtree(d, ignore_errors=True)
    return res
