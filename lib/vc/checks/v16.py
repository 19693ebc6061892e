"""V16: the input deck (specs/Deck.tla, DeckGen.tla, DeckTrace.tla)."""
import json, os, random, subprocess, hashlib, threading
from concurrent.futures import ThreadPoolExecutor
from ..common import *
from ..build import build
from .. import tlc
from .. import models as M
from .. import pipe
from ..validate import validate

SIZES = "x,y,z,s\n0,0,0,0.5\n1,1,1,0.7\n"
SEEDS = "x,y,z,sizing,region\n" + "".join("%g,%g,%g,0.5,%d\n" % (x, y, z, 0 if max(abs(x), abs(y), abs(z)) > 1 else 1)
                                          for x in (-1.5, -0.5, 0.5, 1.5) for y in (-1.5, -0.5, 0.5, 1.5) for z in (-1.5, -0.5, 0.5, 1.5))
FLAGS = ["GENERATE_VCG_FILE", "GENERATE_EXODUS_FILE", "GENERATE_MONITORING_POINTS", "IMPOSE_MONITORING_POINTS", "GENERATE_MESH_FROM_SEEDS"]
NOISE = ["", "   ", "# a comment", "#R_MAX = 5", "# LIP_CONST = 0.9", "R_MAXX = 3", "r_max = 2", "VC_ANGLES = 9", "NUM_THREAD = 3", "INPUT_MESH = zz.obj", "GENERATE_VCG = true",
         "NOT GENERATE_VCG_FILE", "// R_MIN = 4", "TITLE = box GENERATE_MONITORING_POINTS", "MAX R_MAX = 7", "SIZING = s1.csv", "SEEDS = q1.csv", "XR_MIN = 3", "\t"]


def line(k, v=0, s=""):
    return dict(k=k, v=v, s=s)


def num(rng, v):
    x = v / 1e6
    c = ["%.10g" % x, "%.8e" % x, "%.6f" % x, "+%.10g" % x]
    if x == int(x):
        c += ["%d" % x, "%d." % x]
    if 0 < x < 1:
        c.append(("%.6f" % x)[1:])
    return rng.choice(c)


def text(rng, d, crlf=False):
    out = []
    for l in d:
        k = l["k"]
        if k == "noise":
            t = rng.choice(NOISE)
        else:
            eq = rng.choice([" = ", " = ", "\t=\t", "  =  ", " : "])
            if k in FLAGS:
                t = k + rng.choice(["", " = true", "  "])
            elif k == "NUM_THREADS":
                t = k + eq + "%d" % l["v"]
            elif l["s"]:
                t = k + eq + l["s"]
            else:
                t = k + eq + num(rng, l["v"])
            if rng.random() < 0.15:
                t = rng.choice(["  ", "\t"]) + t
            if rng.random() < 0.15:
                t += rng.choice(["  ", " # note", "\t"])
        out.append(t + ("\r\n" if crlf else "\n"))
    t = "".join(out)
    return t.rstrip("\r\n") if rng.random() < 0.2 else t


def rand_line(rng):
    k = rng.choice(["R_MIN", "R_MAX", "LIP_CONST", "VC_ANGLE", "NUM_THREADS", "SIZING_FILE", "SEEDS_FILE", "INPUT_MESH_FILE", "INPUT_MESH_FILE", "noise", "noise"] + FLAGS)
    if k in ("R_MIN", "R_MAX"):
        return line(k, rng.choice([rng.randint(1, 999) * 10 ** rng.randint(0, 6), rng.randint(1, 2000) * 10 ** 6]))
    if k == "LIP_CONST":
        return line(k, rng.randint(1, 999999))
    if k == "VC_ANGLE":
        return line(k, rng.randint(0, 1800) * 100000)
    if k == "NUM_THREADS":
        return line(k, rng.choice([1, 2, 3, 4, 7, 16]))
    if k == "SIZING_FILE":
        return line(k, 0, rng.choice(["s1.csv", "s2.csv"]))
    if k == "SEEDS_FILE":
        return line(k, 0, rng.choice(["q1.csv", "q2.csv"]))
    if k == "INPUT_MESH_FILE":
        return line(k, 0, rng.choice(["a.obj", "b.obj"]))
    return line(k)


def micro(t):
    x = float(t)
    if x > 1e300:
        return -1
    return max(-2 * 10 ** 9, min(2 * 10 ** 9, round(x * 1e6)))


def echo(log):
    e = dict(kind="none", models=[], sizing="", seeds="", rmin=-9, rmax=-9, lip=-9, ang=-9, thr=-9, vcg=0, exo=0, gen=0, imp=0)
    for l in log.split("\n"):
        v = l.split("=", 1)[1].strip() if "=" in l else ""
        try:
            if l.startswith("  * Seeds file ="):
                e["kind"], e["seeds"] = "seeds", v
            elif l.startswith("  * Input Mesh ="):
                e["kind"] = "model"
                e["models"].append(v)
            elif l.startswith("    Sizing File ="):
                e["sizing"] = v
            elif l.startswith("    Minimum Sphere Radius ="):
                e["rmin"] = micro(v)
            elif l.startswith("    Maximum Sphere Radius ="):
                e["rmax"] = micro(v)
            elif l.startswith("    Lipschitz Const ="):
                e["lip"] = micro(v)
            elif l.startswith("    VC Smooth Angle Threshold ="):
                e["ang"] = micro(v)
            elif l.startswith("    Number of OpenMP threads ="):
                e["thr"] = int(v)
            elif l.startswith("    Generate VCG file"):
                e["vcg"] = 1
            elif l.startswith("    Generate Exodus file"):
                e["exo"] = 1
            elif l.startswith("    Generate Monitoring Points"):
                e["gen"] = 1
            elif l.startswith("    Impose Monitoring Points"):
                e["imp"] = 1
        except ValueError:
            pass
    return e


def start(b, dd, argv, stop=(b"Reading obj file", b"Reeding seeds")):
    """the output of the program up to the start of its work, when it is stopped -> log, exit status or None"""
    p = subprocess.Popen([b.exe] + argv, cwd=dd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    t = threading.Timer(30, p.kill)
    t.start()
    log, cut = [], False
    for l in p.stdout:
        log.append(l)
        if any(s in l for s in stop):
            cut = True
            break
    if cut:
        p.kill()
    rc = p.wait()
    t.cancel()
    return b"".join(log).decode(errors="replace"), (None if cut else rc)


def run(ck):
    b = build()
    big = TIER == "thorough"
    d = scratch("v16")
    gen = os.path.join(d, "gen.ndjson")
    g = tlc.run("DeckGen", cfg="DeckGenT" if big else "DeckGen", env=dict(OUT=gen), timeout=800, workers=8)
    if not g["ok"]:
        raise Infra("DeckGen: " + tlc.err(g["out"]))
    ck.add_tlc("DeckGen", g)
    decks = json.loads(open(gen).read().split("\n")[0])["decks"]
    rng = random.Random(SEED * 7919 + 16)
    m1 = M.cube().obj()
    m2 = M.cube().place((0.4, 0.4, 0.4), None, (0.3, 0.3, 0.3)).obj()
    base = {"a.obj": m1, "b.obj": m2, "s1.csv": SIZES, "s2.csv": SIZES, "q1.csv": SEEDS, "q2.csv": SEEDS, "monitoring_points.csv": "x,y,z,r\n0.51,0.52,0.49,0.05\n"}
    # 1. what the program says it will do
    todo = [x for x in decks]
    for _ in range(300 if not big else 4000):
        todo.append([rand_line(rng) for _ in range(rng.randint(1, 14))])
    if not big:
        todo = [x for x in todo if len(x) != 2 or rng.random() < 0.6]
    os.makedirs(os.path.join(d, "e"))
    for n, t in base.items():
        open(os.path.join(d, "e", n), "w").write(t)
    texts = [text(rng, x, rng.random() < 0.15) for x in todo]

    def one(i):
        n = "d%d.in" % i
        open(os.path.join(d, "e", n), "w", newline="").write(texts[i])
        return start(b, os.path.join(d, "e"), ["-vc", n])
    ev, src = [], []
    with ThreadPoolExecutor(NCPU) as ex:
        for i, (log, rc) in enumerate(ex.map(one, range(len(todo)))):
            if rc is not None and rc != 0 and (rc < 0 or rc > 1):
                ck.violation("a deck ends the program with %s" % rc, text=texts[i])
                continue
            ev.append(dict(e="echo", d=todo[i], echo=echo(log)))
            src.append(texts[i])
            ck.count("decks")
    # 2. decks run to their end
    R = line("R_MAX", 400000)
    B = [line("INPUT_MESH_FILE", 0, "a.obj"), R, line("LIP_CONST", 250000), line("VC_ANGLE", 60000000)]
    plain = [B, B + [line(FLAGS[0])], B + [line(FLAGS[2])], B + [line(FLAGS[3])], B + [line(FLAGS[2]), line(FLAGS[3]), line(FLAGS[0])], B + [line("SIZING_FILE", 0, "s1.csv"), line(FLAGS[0])],
             B + [line("INPUT_MESH_FILE", 0, "b.obj")], B + [line("NUM_THREADS", 2), line(FLAGS[0]), line(FLAGS[1])], B + [line("SEEDS_FILE", 0, "q1.csv"), line(FLAGS[0])],
             B + [line("SEEDS_FILE", 0, "q1.csv"), line(FLAGS[0]), line(FLAGS[4])], [line("SEEDS_FILE", 0, "q2.csv"), line(FLAGS[0]), line(FLAGS[4])], [line("SEEDS_FILE", 0, "q2.csv"), line(FLAGS[4])],
             [line("INPUT_MESH_FILE", 0, "q1.csv"), line(FLAGS[0]), line(FLAGS[4])]]

    def scramble(x):
        y = list(x)
        for _ in range(3):                      # an earlier value of a key that is set again
            k = rng.choice(["R_MAX", "LIP_CONST", "VC_ANGLE", "NUM_THREADS", "SIZING_FILE", "SEEDS_FILE"])
            j = [i for i, l in enumerate(y) if l["k"] == k]
            if j:
                y.insert(rng.randint(0, j[0]), line(k, 9 if k == "NUM_THREADS" else 900000, "s2.csv" if k == "SIZING_FILE" else "q3.csv" if k == "SEEDS_FILE" else ""))
        for _ in range(rng.randint(1, 5)):
            y.insert(rng.randint(0, len(y)), line("noise"))
        for _ in range(10):                     # neighbours of different keys change places
            i = rng.randrange(len(y) - 1)
            if y[i]["k"] != y[i + 1]["k"]:
                y[i], y[i + 1] = y[i + 1], y[i]
        if rng.random() < 0.5:
            f = [l for l in y if l["k"] in FLAGS]
            if f:
                y.append(dict(rng.choice(f)))
        return y
    full = []
    for x in plain:
        full += [x] + [scramble(x) for _ in range(1 if not big else 6)]
    ft = [text(rng, x, rng.random() < 0.2) for x in full]
    ins = set(base) | {"vc.in"}

    def whole(t):
        dd = os.path.join(d, "f" + hashlib.sha1(t.encode()).hexdigest()[:12])
        os.makedirs(dd, exist_ok=True)
        for n, x in dict(base, **{"vc.in": t}).items():
            open(os.path.join(dd, n), "w", newline="").write(x)
        r = pipe.run_deck(b, {}, timeout=120, keep=dd, cache=False)
        fs = sorted(n for n in os.listdir(dd) if not n.startswith(".") and n != "VoroCrustLog.txt")
        h = hashlib.sha1()
        for n in fs:
            if n != "vc.in":
                h.update(n.encode() + b"\0" + open(os.path.join(dd, n), "rb").read() + b"\0")
        files = [n for n in fs if n not in ins or (n == "monitoring_points.csv" and open(os.path.join(dd, n)).read() != base[n])]
        return r, files, h.hexdigest()
    outs = []
    with ThreadPoolExecutor(6) as ex:
        for x, t, (r, files, h) in zip(full, ft, ex.map(whole, ft)):
            ck.count("runs")
            ck.count("run_s", r.wall)
            if r.rc != 0:
                ck.violation("a deck ends the program with %s" % r.rc, text=t)
                continue
            ev.append(dict(e="ended", d=x, echo=echo(r.log), files=files))
            src.append(t)
            outs.append((x, h, t))
    hs = sorted({h for _, h, _ in outs})
    ev.append(dict(e="alike", ds=[x for x, _, _ in outs], out=[hs.index(h) for _, h, _ in outs]))
    src.append("\n=====\n".join(t for _, _, t in outs))
    # 3. the command line
    cd = os.path.join(d, "c")
    os.makedirs(cd)
    for want, argv in (("help", []), ("help", ["-h"]), ("help", ["-vc", "x.in", "-h"]), ("method", ["-xx", "x.in"]), ("method", ["x.in"]), ("nodeck", ["-vc", "missing.in"]), ("nodeck", ["-vc", "no/such/deck.in"])):
        log, rc = start(b, cd, argv)
        ev.append(dict(e="cli", want=want, rc=999 if rc is None else rc, usage=int("Usage" in log), told=int("ailed to open" in log), files=sorted(n for n in os.listdir(cd) if n != "VoroCrustLog.txt")))
        src.append(" ".join(argv))
    jobs = [dict(ev=ev[i:i + 40]) for i in range(0, len(ev), 40)]
    for i, why in validate(ck, "DeckTrace", jobs):
        m = __import__("re").search(r"l = (\d+)", why)
        k = 40 * i + (int(m.group(1)) - 2 if m else 0)
        ck.violation("deck: %s" % why[:600], text=src[min(k, len(src) - 1)])
    ck.sample(ev[30])
    shutil.rmtree(d, ignore_errors=True)
