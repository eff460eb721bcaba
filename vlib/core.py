"""Check driver: obligations, parallel evaluation, known findings, evidence, exit status."""
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback

from .ir import AnalysisError, VERIF
from .engine import Engine, Finding

KNOWN = os.path.join(VERIF, "known_findings.txt")


class Result:
    """outcome of one obligation"""
    __slots__ = ("key", "ok", "where", "detail", "stats")

    def __init__(self, key, ok, where="", detail="", stats=None):
        self.key, self.ok, self.where, self.detail, self.stats = key, ok, where, detail, stats or {}


def _runner(args):
    """one job; when the merged states are too coarse for it, once more with states kept apart by their constants"""
    t = time.time()
    out = _attempt(args, t)
    if out[0][0] == "err":
        Engine.partition = True
        try:
            again = _attempt(args, t)
        finally:
            Engine.partition = False
        if again[0][0] != "err":
            return again
    return out


def _attempt(args, t):
    fn, a = args
    try:
        r = fn(*a)
        rs = r if isinstance(r, list) else [r]
        return [("ok", [(x.key, x.ok, x.where, x.detail, x.stats) for x in rs], time.time() - t)]
    except Finding as e:
        return [("ok", [(getattr(e, "key", None) or "%s%s" % (fn.__name__, a), False, e.where or "?", "%s: %s" % (e.kind, e.msg), {})],
                 time.time() - t)]
    except AnalysisError as e:
        return [("err", "%s%s: %s%s" % (fn.__name__, a, e, "\n" + traceback.format_exc()[-3000:] if os.environ.get("TB") else ""), time.time() - t)]
    except Exception as e:
        return [("err", "%s%s: %r\n%s" % (fn.__name__, a, e, traceback.format_exc()[-3000:]), time.time() - t)]


def _available():
    """memory left, in kB"""
    try:
        for line in open("/proc/meminfo"):
            if line.startswith("MemAvailable"):
                return int(line.split()[1])
    except OSError:
        pass
    return 1 << 30


def _worker(jobs, conn, others):
    for c in others:
        c.close()
    n = 0
    while True:
        try:
            j = conn.recv()
        except EOFError:
            return
        out = _runner(jobs[j])
        n += 1
        more = n < 8 and resource.getrusage(resource.RUSAGE_SELF).ru_maxrss < 1200000
        conn.send((out, more))
        if not more:
            return


def load_known():
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=C01 key=<obligation key> :: text
                head, _, text = line[len("finding:"):].partition("::")
                m = __import__("re").match(r"\s*property=(\S+)\s+key=(.*?)\s*$", head)
                d = {"property": m.group(1), "key": m.group(2)}
                known[(d["property"], d["key"])] = text.strip()
    return known


class Check:
    def __init__(self, prop, level, rule, min_obligations=1, assumptions=()):
        self.prop = prop
        self.level = level
        self.rule = rule
        self.min = min_obligations
        self.results = []
        self.errors = []
        self.notes = []
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.counters = {}

    def note(self, s):
        self.notes.append(s)

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def add(self, key, ok, where="", detail="", stats=None):
        self.results.append(Result(key, ok, where, detail, stats))

    def run(self, jobs, procs=8):
        """jobs: list of (function, args) evaluated in forked workers"""
        if not jobs:
            return
        verbose = os.environ.get("VERBOSE")
        ctx = mp.get_context("fork")
        if procs == 1 or os.environ.get("SERIAL"):
            it = map(_runner, jobs)
            for j, out in zip(jobs, it):
                self._take(out, verbose)
            return
        self._farm(ctx, jobs, min(procs, len(jobs)), verbose)

    def _farm(self, ctx, jobs, procs, verbose):
        """evaluate the jobs in forked workers; a worker that is ended from outside (memory) has its job repeated alone"""
        from multiprocessing.connection import wait
        todo = list(range(len(jobs)))[::-1]
        retry, busy, idle, lost = [], {}, [], {}
        deadline = self.t0 + float(os.environ.get("CHECK_DEADLINE", "840"))

        def spawn():
            a, b = ctx.Pipe()
            p = ctx.Process(target=_worker, args=(jobs, b, [a] + [w[1] for w in idle] + [w[1] for w in busy.values()]))
            p.daemon = True
            p.start()
            b.close()
            return (p, a)

        def give(w, j):
            busy[w[1]] = w + (j,)
            w[1].send(j)

        limit = procs
        while todo or retry or busy:
            if not todo and retry and not busy:
                limit, todo, retry = 1, retry, []
            while todo and len(busy) < limit and (not busy or _available() > 3 << 20):
                w = idle.pop() if idle else spawn()
                give(w, todo.pop())
            left = deadline - time.time()
            ready = wait(list(busy), timeout=max(0.1, min(left, 5.0)))
            if left <= 0:
                self.errors.append("time limit: %d of %d jobs unfinished" % (len(busy) + len(todo) + len(retry), len(jobs)))
                break
            for c in ready:
                p, a, j = busy.pop(c)
                try:
                    out, more = c.recv()
                except (EOFError, OSError):
                    c.close()
                    p.join()
                    lost[j] = lost.get(j, 0) + 1
                    if lost[j] > 2:
                        self.errors.append("worker for %s%s was ended %d times" % (jobs[j][0].__name__, jobs[j][1], lost[j]))
                    else:
                        retry.append(j)
                    continue
                self._take(out, verbose)
                if more:
                    idle.append((p, a))
                else:
                    c.close()
                    p.join()
        for p, a in idle + [w[:2] for w in busy.values()]:
            p.kill()
            p.join()

    def _take(self, out, verbose):
        for o in out:
            if o[0] == "err":
                self.errors.append(o[1])
                if verbose:
                    print("ERR", o[1], "%.1fs" % o[2])
            else:
                for key, ok, where, detail, stats in o[1]:
                    if verbose:
                        print("ok  " if ok else "FAIL", key, "" if ok else detail[:200], "%.1fs" % o[2])
                    self.results.append(Result(key, ok, where, detail, stats))

    def finish(self):
        known = load_known()
        bad = [r for r in self.results if not r.ok]
        kf, viol = [], []
        for r in bad:
            t = known.get((self.prop, r.key))
            (kf if t is not None else viol).append((r, t))
        n = len(self.results)
        if not viol and not self.errors and n < self.min:
            self.errors.append("only %d obligations evaluated, expected at least %d" % (n, self.min))
        agg = {}
        fns = set()
        for r in self.results:
            for k, v in r.stats.items():
                if k == "functions":
                    fns |= set(v)
                elif isinstance(v, (int, float)):
                    agg[k] = agg.get(k, 0) + v
        agg.update(self.counters)
        expl = "Rule: %s. %d obligations evaluated on the current source, %d discharged, %d listed findings, %d violations." % (
            self.rule, n, n - len(bad), len(kf), len(viol))
        if fns:
            expl += " Functions of /repo analysed: %d (%s%s)." % (
                len(fns), ", ".join(sorted(fns)[:40]), ", ..." if len(fns) > 40 else "")
        if self.notes:
            expl += " " + " ".join(self.notes)
        cov = {"explanation": expl, "obligations": n, "discharged": n - len(bad), "known_findings": len(kf),
               "violations": len(viol), "counts": agg, "assumptions": self.assumptions,
               "samples": [r.key for r in self.results[:25]]}
        if self.level == "proof":
            cov["checker_cmd"] = "python3 checks/%s.py" % self.prop.lower()
            cov["trusted_base"] = self.assumptions
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for r, t in kf:
            print("KNOWN-FINDING: property=%s %s (%s) %s" % (self.prop, r.key, r.where, t))
        print("%s: %d obligations, %d violations, %d known, %d analysis errors, %.1fs" % (
            self.prop, n, len(viol), len(kf), len(self.errors), time.time() - self.t0))
        if viol:
            path = os.path.join(VERIF, "evidence", self.prop + ".violation.json")
            with open(path, "w") as f:
                json.dump([{"obligation": r.key, "where": r.where, "detail": r.detail} for r, _ in viol] +
                          [{"analysis_error": e} for e in self.errors], f, indent=1)
            for r, _ in viol[:20]:
                print("  violated: %s at %s: %s" % (r.key, r.where, r.detail[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.stdout.flush()
            sys.exit(1)
        if self.errors:
            for e in self.errors[:10]:
                print("ANALYSIS-ERROR:", e)
            sys.exit(2)
        sys.exit(0)
