"""The frame of every check: seeds, tiers, worker pool, verdicts, known findings, evidence."""
import json, os, random, re, shutil, sys, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from jomrun import Jom

VERIF = B.VERIF
WORKERS = int(os.environ.get("VERIF_WORKERS", "0")) or max(4, (os.cpu_count() or 8))


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv[1:]:
            self.tier = "thorough"
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.monotonic()
        self.counts = {}
        self.seen = set()
        self.samples = []
        self.viol = []
        self.known_hit = {}
        self.inconclusive = []
        self.assumptions = []
        self.lock = threading.RLock()
        self.joms = []
        self.known = load_known(prop)
        self.rule = ""
        self.maxviol = 5
        # wall-clock guard: stop generating new cases well before the limit of the harness
        self.budget = 420 if self.tier == "quick" else 800
        rep = os.path.join(B.BUILD, "replay")
        os.makedirs(rep, exist_ok=True)

    # ---- sizing
    def n(self, quick, thorough):
        return quick if self.tier == "quick" else thorough

    def expired(self):
        return time.monotonic() - self.t0 > self.budget

    def jom(self, variant="asan"):
        j = Jom(variant)
        self.joms.append(j)
        return j

    # ---- observations
    def count(self, key, n=1):
        with self.lock:
            self.counts[key] = self.counts.get(key, 0) + n

    def maxi(self, key, v):
        with self.lock:
            self.counts[key] = max(self.counts.get(key, 0), v)

    def distinct(self, key):
        with self.lock:
            self.seen.add(key if isinstance(key, (str, int, tuple)) else str(key))

    def sample(self, obj, limit=4):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(obj)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    # ---- verdicts
    def violation(self, what, key=None, replay=None):
        """what: one line; key: stable identity used to match the known-findings file; replay: JSON-able description"""
        with self.lock:
            for k in self.known:
                if key is not None and k["key"] == key:
                    self.known_hit.setdefault(key, what)
                    return
            if len(self.viol) < 40:
                n = len(self.viol) + 1
                path = os.path.join(B.BUILD, "replay", "%s-%d-%d.json" % (self.prop, self.seed, n))
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "what": what, "key": key, "replay": replay}, f, indent=1, default=str)
                self.viol.append((what, path))
                if n <= self.maxviol:
                    print("violation: %s" % what[:600], flush=True)

    def stop(self):
        return len(self.viol) >= self.maxviol or self.expired()

    def pmap(self, fn, cases, workers=None):
        """run fn(case) for every case on the pool; stops early after a few violations"""
        def one(c):
            if self.stop():
                self.count("cases_skipped_after_stop")
                return
            fn(c)
        with ThreadPoolExecutor(workers or WORKERS) as ex:
            futs = [ex.submit(one, c) for c in cases]
            for f in futs:
                f.result()

    def replay_of(self, r, files, args, **kw):
        d = {"files": {k: (v[0] if isinstance(v, tuple) else v) for k, v in (files or {}).items()}, "args": list(args),
             "rc": r.rc, "timed_out": r.timed_out, "out": r.out[-6000:].decode("utf-8", "replace"),
             "err": r.err[-6000:].decode("utf-8", "replace"), "events": [repr(e) for e in r.ev[:400]]}
        d["files"] = {k: (v if isinstance(v, str) else v.decode("latin-1")) for k, v in d["files"].items()}
        d.update(kw)
        return d

    def run(self, J, files, args=(), what="run", allow_timeout=False, timeout=25, **kw):
        """J.run plus the checks every execution gets: no sanitizer report, no crash, no hang (a hang is confirmed once)"""
        r = J.run(files, args, timeout=timeout, **kw)
        self.count("executions")
        self.maxi("longest_execution_ms", int(r.wall * 1000))
        self.count("events_observed", len(r.ev))
        if r.timed_out and not allow_timeout:
            kw2 = dict(kw)
            kw2.pop("d", None)
            if "d" in kw:
                r2 = r
            else:
                r2 = J.run(files, args, timeout=timeout * 2.5, **kw2)
            if r2.timed_out:
                self.violation("%s: jom does not terminate (killed after %ds, confirmed by a second run)" % (what, timeout * 2.5),
                               key=kw.get("hang_key"), replay=self.replay_of(r, files, args))
            else:
                self.inconclusive.append("%s: timed out once, not on the second run" % what)
                r = r2
        s = r.sanitizer()
        if s:
            self.violation("%s: %s" % (what, first_line(s)), replay=self.replay_of(r, files, args, report=s))
            r.bad = True
        else:
            r.bad = r.timed_out
        return r

    # ---- the end
    def finish(self, level):
        total_runs = self.counts.get("executions", 0)
        cov = {"evaluations": self.counts.get("evaluations", total_runs), "distinct_nontrivial": len(self.seen), "rule": self.rule,
               "samples": self.samples or ["none"], "observed": {k: v for k, v in sorted(self.counts.items()) if k != "evaluations"}}
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive[:20]
        if self.known_hit:
            cov["known_findings_seen"] = sorted(self.known_hit)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.monotonic() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".t", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(p + ".t", p)
        for k in self.known:
            # every listed finding is announced, whether this run's inputs happened to reach it or not
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        if self.viol:
            for what, path in self.viol[:self.maxviol]:
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("%s: %s after %d executions, %d distinct non-trivial cases, %.1fs" % (
            self.prop, "VIOLATED" if self.viol else "held", total_runs, len(self.seen), time.monotonic() - self.t0), flush=True)
        return 1 if self.viol else 0


def first_line(s):
    for l in s.splitlines():
        if re.search(r"ERROR: |runtime error:|WARNING: Thread|ASSERT|died of", l):
            return l.strip()[:300]
    return s.strip().splitlines()[0][:300] if s.strip() else "?"


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append({"key": m.group(2), "what": m.group(3)})
    return out


def main(prop, body, level="exploration"):
    ctx = Ctx(prop)
    try:
        body(ctx)
        rc = ctx.finish(level)
    except B.BuildError as e:
        print("BUILD-ERROR: %s" % str(e)[-3000:])
        rc = 3
    except Exception:
        traceback.print_exc(limit=-6)
        # a violation that was already established is not taken back by a later breakdown of the harness
        rc = ctx.finish(level) if ctx.viol else 3
    finally:
        for j in ctx.joms:
            j.close()
    sys.stdout.flush()
    os._exit(rc)
