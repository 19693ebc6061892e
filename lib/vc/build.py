"""Builds the library, the vc_mesh program and the drivers from /repo's working tree into /verif/build.

The build is keyed by a hash of every source it takes, so a changed tree is always rebuilt."""
import os, re, glob, hashlib, subprocess, fcntl, shutil, time
from concurrent.futures import ThreadPoolExecutor
from .common import *

SRC = os.path.join(REPO, "src", "Meshing")
CXX = ["g++", "-O2", "-g", "-w", "-DFIXED_RNG_SEED", "-fopenmp"]


def _digest():
    h = hashlib.sha1()
    fs = sorted(glob.glob(SRC + "/*")) + sorted(glob.glob(VERIF + "/harness/*"))
    for f in fs:
        if os.path.isfile(f):
            h.update(os.path.basename(f).encode() + b"\0" + open(f, "rb").read() + b"\0")
    h.update(" ".join(CXX).encode())
    return h.hexdigest()[:16]


def _gen_headers(inc):
    """Config.h / Version.h as the project's own configure step writes them here."""
    os.makedirs(inc, exist_ok=True)
    on = {"VOROCRUST_HAVE_KOKKOS_VAR": "NO_KOKKOS", "VOROCRUST_HAVE_KOKKOSKERNELS_VAR": "NO_KOKKOSKERNELS",
          "VOROCRUST_USE_EXODUS_VAR": "NO_EXODUS", "VOROCRUST_HAVE_MPICXX_VAR": "NO_MPI",
          "VOROCRUST_HAVE_OPENMP_VAR": "USE_OPEN_MP", "VOROCRUST_HAVE_LAPACK_VAR": "NO_LAPACK"}
    for name in ("Config.h", "Version.h"):
        src = os.path.join(SRC, name + ".in")
        if not os.path.exists(src):
            continue
        t = open(src, errors="replace").read()
        t = re.sub(r"@(\w+)@", lambda m: on.get(m.group(1), "VC_UNSET_" + m.group(1) if "#define @" in t and m.group(1).endswith("_VAR") else "0"), t)
        open(os.path.join(inc, name), "w").write(t)


def _run(cmd, timeout=600):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise Infra("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-3000:]))


class Built:
    pass


def build():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        key = _digest()
        out = os.path.join(BUILD, "b-" + key)
        b = Built()
        b.key, b.dir, b.exe = key, out, os.path.join(out, "vc_mesh")
        b.drv = lambda n: os.path.join(out, n)
        if not os.path.exists(os.path.join(out, "done")):
            # keep the most recent few builds only
            olds = sorted(glob.glob(BUILD + "/b-*"), key=os.path.getmtime)
            for o in olds[:-3]:
                shutil.rmtree(o, ignore_errors=True)
            os.makedirs(out, exist_ok=True)
            inc = os.path.join(out, "inc")
            _gen_headers(inc)
            libs = sorted(glob.glob(SRC + "/*.cpp"))
            objs = [os.path.join(out, os.path.basename(s) + ".o") for s in libs]
            jobs = [CXX + ["-I" + SRC, "-I" + inc, "-c", s, "-o", o] for s, o in zip(libs, objs)]
            main = os.path.join(out, "vc_mesh.cxx.o")
            jobs.append(CXX + ["-I" + SRC, "-I" + inc, "-x", "c++", "-c", SRC + "/vc_mesh.cxx", "-o", main])
            drvs = sorted(glob.glob(VERIF + "/harness/drv_*.cpp"))
            dobj = [os.path.join(out, os.path.basename(s) + ".o") for s in drvs]
            djobs = [CXX + ["-O1", "-I" + SRC, "-I" + inc, "-I" + VERIF + "/harness", "-c", s, "-o", o]
                     for s, o in zip(drvs, dobj)]
            # longest first
            jobs.sort(key=lambda j: -os.path.getsize([a for a in j if a.endswith((".cpp", ".cxx"))][0]))
            # drivers that reach past the public interface: a tree where they do not compile is judged without them
            xdrv = sorted(glob.glob(VERIF + "/harness/drvx_*.cpp"))
            xobj = [os.path.join(out, os.path.basename(s) + ".o") for s in xdrv]
            xjobs = [CXX + ["-O1", "-I" + SRC, "-I" + inc, "-I" + VERIF + "/harness", "-c", s, "-o", o]
                     for s, o in zip(xdrv, xobj)]
            with ThreadPoolExecutor(NCPU) as ex:
                xs = [ex.submit(_run, j) for j in xjobs]
                list(ex.map(_run, jobs + djobs))
                xok = [x.exception() is None for x in xs]
            link = [["g++", "-fopenmp", main] + objs + ["-o", b.exe]]
            for s, o in zip(drvs, dobj):
                link.append(["g++", "-fopenmp", o] + objs + ["-o", os.path.join(out, os.path.basename(s)[:-4])])
            with ThreadPoolExecutor(NCPU) as ex:
                list(ex.map(_run, link))
            for s, o, ok in zip(xdrv, xobj, xok):
                if ok:
                    try:
                        _run(["g++", "-fopenmp", o] + objs + ["-o", os.path.join(out, os.path.basename(s)[:-4])])
                    except Infra:
                        pass
            open(os.path.join(out, "done"), "w").write(time.ctime())
        os.utime(out)
        return b
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
