"""V17: growable lists and sorts (specs/Lists.tla, QuickSort.tla, ListsGen.tla, ListsTrace.tla)."""
import json, os, random, subprocess
from concurrent.futures import ThreadPoolExecutor
from ..common import *
from ..build import build
from .. import tlc
from ..validate import validate

KINDS = ["numbers", "flag arrays", "index arrays", "reals", "real arrays"]


def design(ck):
    r = tlc.run("QuickSort", cfg="QuickSortT" if TIER == "thorough" else "QuickSort", workers=NCPU, heap="6g", timeout=800)
    ck.add_tlc("QuickSort", r)
    if not r["ok"]:
        raise Infra("QuickSort: " + tlc.err(r["out"]))
    r = tlc.run("QuickSort", cfg="QuickSortBad", timeout=200)
    if r["ok"]:
        raise Infra("QuickSort: the negative control is not refuted")


def keys(rng):
    n = rng.choice([2, 3, 7, 20, 50, 128, 400, 400])
    k = rng.choice([1, 2, 3, 10, 1000, 10 ** 6])
    x = [rng.randrange(k) for _ in range(n)]
    c = rng.random()
    if c < 0.15:
        x.sort()
    elif c < 0.3:
        x.sort(reverse=True)
    elif c < 0.4:
        x = sorted(x[::2]) + sorted(x[1::2], reverse=True)
    elif c < 0.5:
        x = sorted(x)
        for _ in range(3):
            a, b = rng.randrange(n), rng.randrange(n)
            x[a], x[b] = x[b], x[a]
    return x


def hint(x, x2):
    """where each key after the sort may have come from; 0 when nowhere"""
    pos, y = {}, []
    for i in range(len(x) - 1, -1, -1):
        pos.setdefault(x[i], []).append(i + 1)
    y = [0] * len(x)
    for k in range(len(x2)):        # keys that did not move first
        if k < len(x) and x2[k] == x[k] and (k + 1) in pos[x[k]]:
            y[k] = k + 1
            pos[x[k]].remove(k + 1)
    for k in range(len(x2)):
        if not y[k] and pos.get(x2[k]):
            y[k] = pos[x2[k]].pop()
    return y


def run(ck):
    b = build()
    big = TIER == "thorough"
    rng = random.Random(SEED * 15485863 + 17)
    ex0 = ThreadPoolExecutor(1)
    fut = ex0.submit(design, ck)
    d = scratch("v17")
    o = os.path.join(d, "gen.ndjson")
    g = tlc.run("ListsGen", cfg="ListsGenT" if big else "ListsGen", env=dict(OUT=o), heap="4g")
    if not g["ok"]:
        raise Infra("ListsGen: " + tlc.err(g["out"]))
    G = json.loads(open(o).read().split("\n")[0])
    cmds = []
    ks = range(3) if not os.path.exists(b.drv("drvx_sorts")) else range(5)
    for c, n in G["lists"]:
        for kind in range(5):
            cmds.append(("L", kind, c, [rng.randrange(64) for _ in range(n)]))
    for kind in range(5):
        for c, n in ((100, 99), (100, 100), (100, 101), (100, 420), (7, 900), (1, 1100)) + (((3, 6000),) if big else ()):
            cmds.append(("L", kind, c, [rng.randrange(64) for _ in range(n)]))
    for x, l, r in G["sorts"]:
        for kind in ks:
            cmds.append(("S", kind, l, r, x))
    for _ in range(150 if not big else 3000):
        x = keys(rng)
        n = len(x)
        l, r = (1, n) if rng.random() < 0.6 else sorted((rng.randint(1, n), rng.randint(1, n)))
        for kind in ks:
            xs = x if kind in (0, 2) else [v - 500 for v in x]      # negative keys only where keys are signed
            cmds.append(("S", kind, l, r, xs))
    for kind in ks:       # empty ranges, sizes of one
        cmds += [("S", kind, 2, 1, [3, 1, 2]), ("S", kind, 1, 1, [5]), ("S", kind, 3, 3, [3, 2, 1, 0])]
    rng.shuffle(cmds)
    groups = []
    for own in (True, False):
        part = [c for c in cmds if (c[0] == "S" and c[1] > 2) != own]
        groups += [part[i:i + 60] for i in range(0, len(part), 60)]

    def play(gr):
        t = ""
        for c in gr:
            if c[0] == "L":
                t += "L %d %d %d %s\n" % (c[1], c[2], len(c[3]), " ".join(map(str, c[3])))
            else:
                t += "S %d %d %d %d %s\n" % (c[1], c[2] - 1, c[3] - 1, len(c[4]), " ".join(map(str, c[4])))
        try:
            p = subprocess.run([b.drv("drvx_sorts" if gr[0][0] == "S" and gr[0][1] > 2 else "drv_lists")], input=t.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
            return gr, p.stdout.decode(errors="replace").split("\n"), p.returncode
        except subprocess.TimeoutExpired as x:
            return gr, (x.stdout or b"").decode(errors="replace").split("\n"), "a time-out"
    jobs, info = [], []
    with ThreadPoolExecutor(NCPU) as ex:
        for gr, out, rc in ex.map(play, groups):
            out = [x for x in out if x]
            if rc != 0 or len(out) != len(gr):
                c = gr[min(len(out), len(gr) - 1)]
                ck.violation("lists and sorts: the program ended with %s after %d of %d commands" % (rc, len(out), len(gr)), text=repr(c))
            sev = []
            for c, line in zip(gr, out):
                f = [[int(v) for v in x.split()] for x in line[1:].split("|")]
                if c[0] == "L":
                    ev = [dict(e="app", v=v, n=n, cap=k) for v, n, k in zip(c[3], f[0], f[1])] + [dict(e="end", s=f[2], over=f[3][0])]
                    jobs.append(dict(ev=ev))
                    info.append("list of %s, first room %d, %d appends" % (KINDS[c[1]], c[2], len(c[3])))
                else:
                    y = f[1] if c[1] in (0, 4) else [v + 1 for v in f[1]]
                    if c[1] in (0, 4):
                        y = hint(c[4], f[0])
                    sev.append(dict(e="sort", x=c[4], x2=f[0], y=y, l=c[2], r=c[3], over=f[2][0]))
            if sev:
                jobs.append(dict(ev=sev))
                info.append("sorts")
    ck.cov["commands"] = len(cmds)
    try:
        fut.result()
    finally:
        ex0.shutdown()
    if jobs:
        for i, why in validate(ck, "ListsTrace", jobs, weight=lambda j: sum(1 + len(e.get("x", [])) / 20 for e in j["ev"])):
            ck.violation("%s: %s" % (info[i], why[:700]), text=json.dumps(jobs[i])[:20000])
        ck.sample(jobs[0]["ev"][-1])
    shutil.rmtree(d, ignore_errors=True)
