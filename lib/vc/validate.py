"""Trace validation with TLC: every job must be consumed to its last event."""
import re, math
from concurrent.futures import ThreadPoolExecutor
from .common import *
from . import tlc


def shard(jobs, weight, n):
    """Split jobs into n lists of roughly equal weight, keeping (index, job)."""
    bins = [[0, []] for _ in range(n)]
    for i, j in sorted(enumerate(jobs), key=lambda t: -weight(t[1])):
        b = min(bins, key=lambda t: t[0])
        b[0] += weight(j)
        b[1].append((i, j))
    return [b[1] for b in bins if b[1]]


def validate(ck, module, jobs, nev=lambda j: len(j["ev"]), cfg=None, timeout=600, heap="2g", shards=NCPU, weight=None,
             env=None, states=None):
    """jobs: list of dicts (one ndjson line each). Returns [(job index, reason text)] for rejected jobs.

    Accepted means: no invariant violation and the number of states equals one per consumed event plus one
    initial state per job, so that no job stopped early."""
    if not jobs:
        raise Infra("no jobs for " + module)
    d = scratch(module)
    rejected = []

    def one(k, part):
        path = os.path.join(d, "t%d.ndjson" % k)
        tlc.write_nd(path, [j for _, j in part])
        e = dict(env or {}, TRACE=path)
        return part, tlc.run(module, cfg=cfg, workers=1, heap=heap, timeout=timeout, env=e)
    parts = shard(jobs, weight or nev, max(1, min(shards, len(jobs))))
    queue = list(enumerate(parts))
    n = len(queue)
    with ThreadPoolExecutor(NCPU) as ex:
        while queue:
            res = list(ex.map(lambda a: one(*a), queue))
            queue = []
            for part, r in res:
                ck.add_tlc(module, r)
                if r["ok"]:
                    exp = sum((states(j) if states else nev(j) + 1) for _, j in part)
                    if r["distinct"] != exp:
                        raise Infra("%s: %d states, expected %d (trace not consumed)\n%s" % (module, r["distinct"], exp, r["out"][-1500:]))
                    ck.trace(len(part))
                else:
                    m = re.findall(r"job = (\d+)", r["out"])
                    m2 = re.findall(r'bad = "(.*)"', r["out"])
                    if not m:
                        raise Infra("%s rejected without naming a job\n%s" % (module, r["out"][-3000:]))
                    k = int(m[-1]) - 1
                    i = part[k][0]
                    tail = r["out"][r["out"].rfind("State "):][:1500]
                    rejected.append((i, (m2[-1] if m2 else r["kind"]) + " | " + re.sub(r"\s+", " ", tail)))
                    rest = part[:k] + part[k + 1:]
                    if rest and len(rejected) < 4:
                        queue.append((n, rest))
                        n += 1
    shutil.rmtree(d, ignore_errors=True)
    return rejected
