"""Runs TLC and reads its verdict."""
import os, re, subprocess, time, json, shutil
from .common import *

CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def run(module, cfg=None, workers=1, heap="3g", timeout=600, env=None, extra=(), simulate=None, depth=None,
        cwd=None, coverage=False):
    """Run TLC on specs/<module>.tla. Returns a dict with ok / kind / counts / output.

    kind: 'ok', 'invariant', 'property', 'postcondition', 'assert', 'deadlock' (the specification rejects),
    anything else is raised as Infra (parse error, overflow, out of memory, time-out)."""
    cwd = cwd or SPECS
    meta = scratch("tlc")
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Xss64m", "-Xmx" + heap,
           "-Dtlc2.TLC.stopAfter=%d" % (timeout + 60),
           "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
           "-config", (cfg or module) + ".cfg"]
    if simulate:
        cmd += ["-simulate", simulate]
    if depth:
        cmd += ["-depth", str(depth)]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(extra) + [module + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        out, rc = p.stdout.decode(errors="replace"), p.returncode
    except subprocess.TimeoutExpired as x:
        raise Infra("TLC time-out (%ss) on %s/%s\n%s" % (timeout, module, cfg, (x.stdout or b"").decode(errors="replace")[-1500:]))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = dict(out=out, rc=rc, wall=time.time() - t0)
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m:
        r["generated"], r["distinct"] = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m:
        r["depth"] = int(m.group(1))
    m = re.search(r"The number of states generated: ([\d,]+)", out)
    if m and "generated" not in r:
        r["generated"] = int(m.group(1).replace(",", ""))
        r["distinct"] = r["generated"]
    if rc == 0:
        r["ok"], r["kind"] = True, "ok"
    elif "Error: Invariant" in out or "is violated" in out and "nvariant" in out:
        r["ok"], r["kind"] = False, "invariant"
    elif "POSTCONDITION" in out.upper() and ("violated" in out or "evaluated to FALSE" in out or "is false" in out.lower()) and rc in (10, 11, 12, 13, 14):
        r["ok"], r["kind"] = False, "postcondition"
    elif "Temporal properties were violated" in out or "Action property" in out:
        r["ok"], r["kind"] = False, "property"
    elif "Deadlock reached" in out:
        r["ok"], r["kind"] = False, "deadlock"
    elif "The first argument of Assert evaluated to FALSE" in out:
        r["ok"], r["kind"] = False, "assert"
    elif re.search(r"Assumption .* is false", out):
        r["ok"], r["kind"] = False, "assumption"
    else:
        raise Infra("TLC failed (rc=%d) on %s/%s\n%s" % (rc, module, cfg, out[-3500:]))
    return r


def printed(out):
    """JSON values printed by the specification as  <<"J", "...">>  lines."""
    res = []
    for m in re.finditer(r'^"J:(.*)"$', out, re.M):
        s = m.group(1).encode().decode("unicode_escape")
        res.append(json.loads(s))
    return res


def err(out, n=900):
    i = out.find("Error:")
    return out[i:i + n] if i >= 0 else out[-n:]


def write_nd(path, rows):
    with open(path, "w") as f:
        for r in rows:
            f.write(json.dumps(r, separators=(",", ":")) + "\n")
