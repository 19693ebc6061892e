"""Paths, seeds, budgets, and the outcome of a check (evidence, VIOLATION lines)."""
import os, sys, json, time, hashlib, tempfile, shutil, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VC_REPO", "/repo")
BUILD = os.environ.get("VC_BUILD") or os.path.join(VERIF, "build")
EVID = os.path.join(VERIF if "VC_BUILD" not in os.environ else BUILD, "evidence")
SPECS = os.path.join(VERIF, "specs")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
NCPU = min(8, os.cpu_count() or 8)


class Infra(Exception):
    """The machinery itself failed: neither a pass nor a violation."""


class Violation(Exception):
    def __init__(self, msg, replay=None):
        super().__init__(msg)
        self.msg = msg
        self.replay = replay


class Check:
    """Collects what one property check covered and how it ended."""

    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.violations = []      # (message, replay path)
        self.known = []
        self.notes = []

    def elapsed(self):
        return time.time() - self.t0

    def add_tlc(self, name, r):
        """Account for one TLC run."""
        self.cov["states"] += r.get("distinct", 0)
        self.cov["transitions"] += r.get("generated", 0)
        self.cov.setdefault("tlc_runs", []).append(
            dict(spec=name, generated=r.get("generated", 0), distinct=r.get("distinct", 0),
                 depth=r.get("depth", 0), wall_s=round(r.get("wall", 0), 1)))

    def trace(self, n=1):
        self.cov["traces_validated_against_impl"] += n

    def sample(self, s):
        if len(self.cov["samples"]) < 12:
            self.cov["samples"].append(s)

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violation(self, msg, files=None, text=None):
        """Record a violation with a replay folder kept under build/replay."""
        k = hashlib.sha1((msg + repr(time.time())).encode()).hexdigest()[:8]
        d = os.path.join(BUILD, "replay", self.pid + "-" + k)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "message.txt"), "w") as f:
            f.write(msg + "\n" + (text or "") + "\n")
        for p in files or []:
            try:
                if os.path.isdir(p):
                    shutil.copytree(p, os.path.join(d, os.path.basename(p)), dirs_exist_ok=True)
                elif os.path.exists(p):
                    shutil.copy(p, d)
            except Exception:
                pass
        self.violations.append((msg, d))

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        tr = self.cov.get("tlc_runs")
        if tr and len(tr) > 40:
            self.cov["tlc_runs"] = tr[:40]
            self.cov["tlc_runs_total"] = len(tr)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=self.cov,
                  wall_s=round(self.elapsed(), 1))
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        ev["coverage"]["violations"] = [m for m, _ in self.violations][:20]
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for m, d in self.violations[:10]:
            print("# " + m.replace("\n", " ")[:600])
            print("VIOLATION property=%s replay=%s" % (self.pid, d))
        if not self.violations:
            print("OK property=%s tier=%s %.1fs states=%d traces=%d" % (
                self.pid, TIER, self.elapsed(), self.cov["states"], self.cov["traces_validated_against_impl"]))
        sys.stdout.flush()
        return 1 if self.violations else 0


def scratch(tag):
    os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
    return tempfile.mkdtemp(prefix=tag + "-", dir=os.path.join(BUILD, "tmp"))
