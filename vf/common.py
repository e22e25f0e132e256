"""Shared by all checks: seeds, parallel execution, violations, known findings, evidence."""
import collections, hashlib, json, multiprocessing, os, re, shutil, sys, time, traceback
from . import build

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.json")


class Violation:
    """what: one line; key: stable identification of the failing input / call site; files: {name: text}"""

    def __init__(self, what, key, files=None):
        self.what = what
        self.key = key
        self.files = files or {}


class Stats:
    def __init__(self):
        self.n = 0
        self.nontrivial = set()
        self.count = collections.Counter()
        self.samples = []

    def case(self, sig=None, **counts):
        """One evaluated case; sig identifies it when it is non-trivial."""
        self.n += 1
        if sig is not None:
            self.nontrivial.add(hashlib.sha1(sig.encode() if isinstance(sig, str) else sig).hexdigest()[:16])
        self.count.update(counts)

    def merge(self, o):
        self.n += o.n
        self.nontrivial |= o.nontrivial
        self.count.update(o.count)
        self.samples += o.samples[:3]


class Check:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.stats = Stats()
        self.viol = []
        self.assumptions = []
        self.rule = ""
        self.level = "exploration"
        self.extra = {}
        self.budget = float(os.environ.get("VF_BUDGET", "3000" if self.thorough else "700"))

    def scale(self, quick, thorough):
        f = float(os.environ.get("VF_SCALE", "1"))
        return max(1, int((thorough if self.thorough else quick) * f))

    def left(self):
        return self.budget - (time.time() - self.t0)

    # -------------------------------------------------- parallel map
    def pmap(self, fn, jobs, procs=None, chunks=None):
        """fn(job, stats) -> list of Violation; jobs spread over processes; stops early on plenty of violations."""
        jobs = list(jobs)
        procs = min(procs or build.JOBS, max(1, len(jobs)))
        ctx = multiprocessing.get_context("fork")
        q = ctx.Queue()
        nxt = ctx.Value("i", 0)
        stop = ctx.Value("i", 0)
        ps = [ctx.Process(target=_worker, args=(fn, jobs, nxt, stop, q)) for _ in range(procs)]
        for p in ps:
            p.start()
        live = procs
        err = None
        got = 0
        while live:
            try:
                kind, a, b = q.get(timeout=5)
            except Exception:
                if not any(p.is_alive() for p in ps) and q.empty():
                    err = err or "a worker process died"
                    break
                if self.left() < 0:
                    stop.value = 1
                continue
            if kind == "end":
                self.stats.merge(a)
                live -= 1
            elif kind == "viol":
                self.viol += a
                got += len(a)
                if got > 40:
                    stop.value = 1
            elif kind == "err":
                err = a
                stop.value = 1
            if self.left() < 0:
                stop.value = 1
                self.extra["stopped_early"] = True
        for p in ps:
            p.join(10)
            if p.is_alive():
                p.terminate()
        if err:
            raise RuntimeError(err)

    # -------------------------------------------------- result
    def finish(self):
        known = load_known(self.pid)
        fresh, seen_known = [], {}
        for v in self.viol:
            k = next((e for e in known if re.search(e["match"], v.key)), None)
            if k:
                seen_known.setdefault(k["id"], (k, v))
            else:
                fresh.append(v)
        for e in known:
            # every listed finding is announced, whether or not this run's workload met it
            print("KNOWN-FINDING: property=%s %s" % (self.pid, e["what"]))
        fresh.sort(key=lambda v: (len(v.files.get("case", "")) if v.files else 0, v.key))
        done = set()
        rdir = os.path.join(VERIF, "evidence", "replay", self.pid)
        shutil.rmtree(rdir, ignore_errors=True)
        shown = 0
        for v in fresh:
            g = group_key(v.key)
            if g in done:
                continue
            done.add(g)
            if shown >= 8:
                continue
            shown += 1
            d = os.path.join(rdir, str(shown))
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "what.txt"), "w", errors="replace") as f:
                f.write(v.what + "\n\nkey: " + v.key + "\n")
            for n, t in v.files.items():
                p = os.path.join(d, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(t if isinstance(t, bytes) else t.encode("utf-8", "surrogateescape"))
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(d, VERIF)))
            print("  " + v.what.replace("\n", "\n  ")[:1500])
        self.write_evidence(len(fresh))
        print("%s %s: %d evaluations, %d distinct non-trivial, %d violations, %.1fs" % (
            self.pid, self.tier, self.stats.n, len(self.stats.nontrivial), len(fresh), time.time() - self.t0))
        sys.stdout.flush()
        return 1 if fresh else 0

    def write_evidence(self, nviol):
        cov = dict(evaluations=self.stats.n, distinct_nontrivial=len(self.stats.nontrivial), rule=self.rule,
                   samples=[trim(x) for x in self.stats.samples[:4]], observed=dict(sorted(self.stats.count.items())[:200]))
        cov.update(self.extra)
        if not cov["samples"]:
            cov["samples"] = ["(none recorded)"]
        d = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                 assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=nviol)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % self.pid)
        with open(tmp, "w") as f:
            json.dump(d, f, indent=1, sort_keys=True)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.pid + ".json"))


def trim(x, n=3000):
    s = x if isinstance(x, str) else json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."


def group_key(k):
    return re.sub(r"[0-9]+", "#", k)


def load_known(pid):
    """Open findings only; 'fixed' entries suppress nothing."""
    try:
        with open(KNOWN) as f:
            d = json.load(f)
    except OSError:
        return []
    return [e for e in d.get("findings", []) if e["property"] == pid]


def _worker(fn, jobs, nxt, stop, q):
    st = Stats()
    try:
        while not stop.value:
            with nxt.get_lock():
                i = nxt.value
                nxt.value += 1
            if i >= len(jobs):
                break
            v = fn(jobs[i], st)
            if v:
                q.put(("viol", v, None))
        q.put(("end", st, None))
    except BaseException:
        q.put(("err", traceback.format_exc(), None))
        q.put(("end", st, None))
    q.close()
    q.join_thread()
    os._exit(0)


def rng(*parts):
    import random
    return random.Random("/".join(str(p) for p in parts))


def seed_of(*parts):
    return int(hashlib.sha1("/".join(str(p) for p in parts).encode()).hexdigest()[:12], 16)
