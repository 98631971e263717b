"""Check driver.

  driver.py check P01            run the check of one property
  driver.py replay FILE          re-execute a replay file exactly
  driver.py selftest [P01 ...]   prove determinism (see DESIGN.md)

Exit status: 0 held on everything explored; 1 with a VIOLATION line; anything
else is an error of the harness itself.
"""
import copy
import json
import os
import queue
import random
import signal
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import build as builder     # noqa: E402
import scen                 # noqa: E402

PY = builder.PY
RUN_TIMEOUT = float(os.environ.get("SIM_RUN_TIMEOUT", "40"))
CONFIRM_TIMEOUT = 120.0
TRACE_BUDGET = 3000000


def hashseed(prop, seed, blk):
    return random.Random("hs/%s/%s/%d" % (prop, seed, blk)).randrange(1, 4294967295)


class Dead(Exception):
    def __init__(self, why, last, code=None):
        Exception.__init__(self, why, last, code)
        self.why, self.last, self.code = why, last, code


class Worker(object):
    """A simulator process."""

    def __init__(self, pkg, prop, hs, tier="quick"):
        env = {"PATH": "/opt/venv/bin:/usr/bin:/bin", "PYTHONHASHSEED": str(hs),
               "PYTHONDONTWRITEBYTECODE": "1", "LANG": "C.UTF-8",
               # freed memory is overwritten: its use crashes, every time
               "PYTHONMALLOC": "debug", "MALLOC_PERTURB_": "165",
               "LD_PRELOAD": builder.native(),
               "HOME": os.environ.get("HOME", "/root")}
        for k in ("SIM_COV", "SIM_MEM_MB"):
            if k in os.environ:
                env[k] = os.environ[k]
        self.last = None
        self.err = open(os.devnull, "w") if not os.environ.get("SIM_STDERR") else None
        self.p = subprocess.Popen([PY, "-X", "faulthandler=0" if False else "utf8",
                                   os.path.join(HERE, "worker.py"), pkg, prop, tier],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=env, text=True, bufsize=1,
                                  start_new_session=True)
        self.q = queue.Queue()
        self.t = threading.Thread(target=self._read, daemon=True)
        self.t.start()
        m = self._get(60)
        if not m.get("ready"):
            raise Dead("bad start", None)

    def _read(self):
        try:
            for line in self.p.stdout:
                self.q.put(line)
        except (ValueError, OSError):
            pass
        self.q.put(None)

    def _get(self, timeout):
        try:
            line = self.q.get(timeout=timeout)
        except queue.Empty:
            self.kill()
            raise Dead("timeout", self.last)
        if line is None:
            code = self.p.wait()
            raise Dead("exit", self.last, code)
        return json.loads(line)

    def send(self, job):
        try:
            self.p.stdin.write(json.dumps(job) + "\n")
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            raise Dead("exit", self.last, self.p.wait())

    def one(self, job, timeout=RUN_TIMEOUT):
        """Run a single case; crashes and timeouts become outcomes too."""
        self.send(job)
        return self._get(timeout)

    def block(self, job, on_result):
        self.send(job)
        while True:
            m = self._get(RUN_TIMEOUT)
            if "s" in m:
                self.last = m["s"]
            elif "done" in m:
                on_result(m)
                if m["status"] == "violation" and m["cls"] in ("hang", "deadlock"):
                    # the process may have ended itself
                    try:
                        m2 = self._get(5)
                    except Dead:
                        return None
                    return m2
            elif "block_done" in m:
                return m

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        self.p.wait()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.kill()
        self.p.stdout.close()


class Cases(object):
    """Runs single cases in (reusable) fresh-enough processes."""

    def __init__(self, pkg, prop, hs, tier):
        self.args = (pkg, prop, hs, tier)
        self.w = None

    def run(self, case, record=False, fresh=False, confirm=False):
        if fresh:
            self.close()
        if self.w is None:
            self.w = Worker(*self.args)
        job = {"case": case, "record": record}
        if confirm:
            job["trace_budget"] = TRACE_BUDGET
        try:
            m = self.w.one(job, CONFIRM_TIMEOUT if confirm else RUN_TIMEOUT)
        except Dead as d:
            self.w = None
            if d.why == "timeout":
                if confirm:
                    return {"status": "violation", "cls": "hang", "case": case,
                            "msg": "no result within %.0f s" % CONFIRM_TIMEOUT,
                            "digest": "", "traces": [], "lines": []}
                return self.run(case, record, confirm=True)
            return {"status": "violation", "cls": "crash", "case": case,
                    "msg": "process ended with status %s" % d.code,
                    "digest": "", "traces": [], "lines": []}
        if m["status"] == "violation" and m["cls"] in ("hang", "deadlock"):
            self.close()
        return m

    def close(self):
        if self.w is not None:
            self.w.kill()
            self.w = None


# ---------------------------------------------------------------------------
# known findings
# ---------------------------------------------------------------------------
def load_known(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line or line.startswith("fixed:") or line.startswith("#"):
                continue
            k = json.loads(line)
            if k["property"] == prop:
                out.append(k)
    return out


# ---------------------------------------------------------------------------
# minimisation
# ---------------------------------------------------------------------------
def get_path(case, path):
    o = case
    for k in path:
        if isinstance(o, dict) and k not in o:
            return None
        if isinstance(o, list) and (not isinstance(k, int) or k >= len(o)):
            return None
        o = o[k]
    return o


def set_path(case, path, v):
    c = copy.deepcopy(case)
    o = c
    for k in path[:-1]:
        o = o[k]
    o[path[-1]] = v
    return c


def all_paths(o, pre=()):
    """Every list and number inside a case."""
    if isinstance(o, dict):
        for k in sorted(o):
            if k in ("scenario", "seed"):
                continue
            for x in all_paths(o[k], pre + (k,)):
                yield x
    elif isinstance(o, list):
        yield pre, "list"
        for i, x in enumerate(o):
            for y in all_paths(x, pre + (i,)):
                yield y
    elif isinstance(o, bool):
        pass
    elif isinstance(o, int):
        yield pre, "int"


def to_script(case, traces):
    """Replace every random schedule in the case by the decisions it took."""
    c = copy.deepcopy(case)
    scheds = c.get("scheds")
    if scheds is None:
        return c
    for s, tr in zip(scheds, traces):
        s.pop("p", None), s.pop("d", None), s.pop("horizon", None)
        s["mode"] = "script"
        s["switches"] = tr
    return c


def minimise(cases, case, cls, secs, shrinkable=None):
    deadline = time.time() + secs
    evals = [0]

    def still(c):
        evals[0] += 1
        m = cases.run(c)
        return m["status"] == "violation" and m["cls"] == cls
    best = case
    changed = True
    rounds = 0
    while changed and time.time() < deadline and rounds < 6:
        changed = False
        rounds += 1
        for path, kind in [p for p in all_paths(best)]:
            if time.time() > deadline:
                break
            if kind == "list" and shrinkable and not shrinkable(path):
                continue
            cur = get_path(best, path)
            if cur is None:
                continue
            if kind == "list" and isinstance(cur, list):
                n = max(1, len(cur) // 2)
                while n >= 1 and cur and time.time() < deadline:
                    i = 0
                    hit = False
                    while i < len(cur) and time.time() < deadline:
                        cand = set_path(best, path, cur[:i] + cur[i + n:])
                        if still(cand):
                            best = cand
                            cur = get_path(best, path)
                            changed = hit = True
                        else:
                            i += n
                    if n == 1 and not hit:
                        break
                    n = n // 2 if n > 1 else (1 if hit else 0)
            elif kind == "int" and isinstance(cur, int) and rounds <= 2 and cur > 1 \
                    and "switches" not in path:
                for v in (0, 1, cur // 2):
                    if v < cur and still(set_path(best, path, v)):
                        best = set_path(best, path, v)
                        changed = True
                        break
    return best, evals[0]


# ---------------------------------------------------------------------------
# the check
# ---------------------------------------------------------------------------
class Check(object):
    def __init__(self, prop, tier, seed, jobs=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.meta = scen.meta(prop)
        self.jobs = jobs or int(os.environ.get("SIM_JOBS", str(min(8, os.cpu_count() or 1))))
        self.pkg = builder.build()
        self.agg = {"runs": 0, "faults": {}, "probes": {}, "steps": 0, "switches": 0,
                    "inflight": 0, "fault_runs": 0, "ops": 0, "max_alive": 1}
        self.sigs = set()
        self.sched_sigs = set()
        self.nsigs = 0
        self.samples = []
        self.found = []         # (run index, message)
        self.harness = []
        self.digests = {}
        self.lock = threading.Lock()
        self.known_hits = {}
        self.known = load_known(prop)

    def absorb(self, blk, m, want_digests):
        a = m["agg"]
        with self.lock:
            for k in ("runs", "steps", "switches", "inflight", "fault_runs", "ops"):
                self.agg[k] += a[k]
            self.agg["max_alive"] = max(self.agg["max_alive"], a["max_alive"])
            for k in ("faults", "probes"):
                for n, v in a[k].items():
                    self.agg[k][n] = self.agg[k].get(n, 0) + v
            self.nsigs += len(a["sigs"])
            self.sigs.update(a["sigs"])
            self.sched_sigs.update(a["sched_sigs"])
            if m.get("sample") and len(self.samples) < 4:
                self.samples.append(m["sample"])
            if want_digests:
                for j, d in enumerate(a["digest"]):
                    self.digests[m["block_done"][0] + j] = d

    def is_known(self, m):
        for k in self.known:
            if k["match"].get("cls") == m["cls"] and \
                    all(s in m["msg"] for s in k["match"].get("contains", [])):
                return k
        return None

    def do_block(self, blk, lo, hi, digests=False):
        hs = hashseed(self.prop, self.seed, blk)
        pos = lo
        while pos < hi:
            w = None
            res = []

            def on_result(m):
                res.append(m)
            try:
                w = Worker(self.pkg, self.prop, hs, self.tier)
                m = w.block({"block": [pos, hi], "seed": self.seed, "digests": digests,
                             "sample": lo if len(self.samples) < 4 else None}, on_result)
                if m is not None:
                    self.absorb(blk, m, digests)
                w.close()
            except Dead as d:
                if w is None:
                    raise
                i = d.last if d.last is not None else pos
                self.agg["runs"] += max(0, i - pos)
                cs = Cases(self.pkg, self.prop, hs, self.tier)
                g = Worker(self.pkg, self.prop, hs, self.tier)
                case = g.one({"gen": i, "seed": self.seed})["case"]
                g.close()
                r = cs.run(case, fresh=True, confirm=(d.why == "timeout"))
                cs.close()
                r["done"] = i
                if r["status"] == "violation":
                    res.append(r)
                elif r["status"] == "harness":
                    res.append(r)
                elif d.why == "exit":
                    # does the block as a whole reproduce the crash?
                    r = self.block_crash(hs, pos, i)
                    if r:
                        res.append(r)
                    else:
                        res.append({"status": "harness", "done": i, "error":
                                    "worker ended (%s) at run %d, not reproducible" % (d.code, i)})
                else:
                    self.agg["probes"]["slow_run_not_a_hang"] = \
                        self.agg["probes"].get("slow_run_not_a_hang", 0) + 1
                    pos = i + 1
                    continue
                m = None
            finally:
                if w is not None:
                    w.kill()
            stop = None
            for r in res:
                r["hashseed"] = hs
                r["block"] = [pos, hi]
                if r["status"] == "harness":
                    with self.lock:
                        self.harness.append(r)
                    stop = r["done"] + 1
                elif r["status"] == "violation":
                    k = self.is_known(r)
                    if k:
                        with self.lock:
                            self.known_hits.setdefault(k["id"], r)
                        stop = r["done"] + 1
                    else:
                        with self.lock:
                            self.found.append(r)
                        return
            if len(self.harness) >= 40:
                return
            if m is None or m.get("stopped") is not None:
                pos = stop if stop is not None else (m["stopped"] if m else hi)
                continue
            return

    def block_crash(self, hs, lo, i):
        w = Worker(self.pkg, self.prop, hs, self.tier)
        try:
            w.block({"block": [lo, i + 1], "seed": self.seed}, lambda m: None)
            w.close()
            return None
        except Dead as d:
            if d.why == "exit" and d.last == i:
                return {"status": "violation", "cls": "crash", "case": None, "done": i,
                        "msg": "process ended with status %s" % d.code, "digest": "",
                        "traces": [], "lines": [], "prefix": [lo, i + 1]}
            return None
        finally:
            w.kill()

    def explore(self, nruns, wall, digests=False):
        bs = self.meta.get("block", 100)
        nblk = (nruns + bs - 1) // bs
        todo = iter(range(nblk))
        t0 = time.time()
        self.next_blk = 0
        errs = []

        def loop():
            while True:
                with self.lock:
                    if self.found or len(self.harness) >= 40 or time.time() - t0 > wall:
                        return
                    b = next(todo, None)
                    if b is None:
                        return
                    self.next_blk = b
                try:
                    self.do_block(b, b * bs, min(nruns, (b + 1) * bs), digests)
                except Exception as e:      # noqa
                    import traceback
                    with self.lock:
                        errs.append(traceback.format_exc())
                        self.harness.append({"done": -1, "error": errs[-1]})
        ts = [threading.Thread(target=loop) for _ in range(self.jobs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.wall = time.time() - t0

    # -- reporting -------------------------------------------------------
    def report(self, r):
        hs = r["hashseed"]
        path = os.path.join(VERIF, "replays", "%s-seed%s-run%s.json" % (
            self.prop, self.seed, r["done"]))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        out = {"property": self.prop, "seed": self.seed, "run": r["done"], "tier": self.tier,
               "hashseed": hs, "cls": r["cls"]}
        if r.get("prefix"):
            out.update(prefix=r["prefix"], msg=r["msg"])
        else:
            cs = Cases(self.pkg, self.prop, hs, self.tier)
            try:
                case = r["case"]
                sc = to_script(case, r.get("traces", []))
                m = cs.run(sc, fresh=True)
                if not (m["status"] == "violation" and m["cls"] == r["cls"]):
                    sc = case
                    m = cs.run(sc, fresh=True)
                if not (m["status"] == "violation" and m["cls"] == r["cls"]):
                    # depends on what ran before it in the same process
                    rep = self.block_violation(hs, r)
                    if not rep:
                        return None
                    out.update(prefix=[r["block"][0], r["done"] + 1], msg=r["msg"])
                else:
                    shr = scen.meta(self.prop).get("shrinkable")
                    best, n = minimise(cs, sc, r["cls"],
                                       float(os.environ.get("SIM_MIN_SECS", "60")), shr)
                    m1 = cs.run(best, record=True, fresh=True)
                    m2 = cs.run(best, record=True, fresh=True)
                    if not (m1["status"] == m2["status"] == "violation" and
                            m1["cls"] == m2["cls"] == r["cls"]):
                        best, m1 = sc, m
                    out.update(case=best, msg=m1["msg"], digest=m1["digest"],
                               log=m1["lines"], minimise_evals=n,
                               original_case_size=len(json.dumps(case)),
                               minimised_case_size=len(json.dumps(best)))
            finally:
                cs.close()
        with open(path, "w") as fh:
            json.dump(out, fh, indent=1, sort_keys=True)
            fh.write("\n")
        return path, out

    def block_violation(self, hs, r):
        res = []
        w = Worker(self.pkg, self.prop, hs, self.tier)
        try:
            w.block({"block": [r["block"][0], r["done"] + 1], "seed": self.seed}, res.append)
        except Dead:
            pass
        finally:
            w.kill()
        return any(x.get("cls") == r["cls"] and x["done"] == r["done"] for x in res)

    def evidence(self, viol):
        m = self.meta
        a = self.agg
        wall = max(self.wall, 1e-6)
        cov = {
            "evaluations": a["runs"],
            "distinct_nontrivial": len(self.sigs),
            "rule": m["rule"] + "  A run is non-trivial when at least one fault fired or the "
            "scheduler preempted a simulated thread in mid-operation; distinct = distinct "
            "event-log digest (operations, results, faults and schedule).",
            "samples": self.samples or [{"note": "no sample recorded"}],
            "simulated_runs_per_hour": round(a["runs"] / wall * 3600),
            "seeds_per_hour": round(a["runs"] / wall * 3600),
            "simulated_steps": a["steps"],
            "simulated_time": "logical: %d scheduler steps (the code under test reads no "
            "clock; time advances one unit per step)" % a["steps"],
            "operations_executed": a["ops"],
            "context_switches": a["switches"],
            "preemptions_in_mid_operation": a["inflight"],
            "distinct_interleavings": len(self.sched_sigs),
            "interleaving_measure": "hash of the sequence of threads chosen at every "
            "scheduling decision of a run",
            "max_simultaneous_threads": a["max_alive"],
            "faults_fired": dict(sorted(a["faults"].items())),
            "runs_with_faults": a["fault_runs"],
            "fault_free_runs": a["runs"] - a["fault_runs"],
            "probes": dict(sorted(a["probes"].items())),
            "real_components": m["real"],
            "stub_components": m["stub"],
            "hash_seeds": "every block of %d runs is a process with its own PYTHONHASHSEED "
            "derived from the seed" % m.get("block", 100),
            "exhaustive": False,
        }
        if self.known_hits:
            cov["known_findings_hit"] = sorted(self.known_hits)
        ev = {"property": self.prop, "tier": self.tier, "seed": int(self.seed),
              "level": "exploration", "coverage": cov,
              "assumptions": m.get("assumptions", []),
              "wall_s": round(self.wall, 2), "violations": viol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")
        os.replace(p + ".tmp", p)


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    print("check %s tier=%s seed=%d" % (prop, tier, seed), flush=True)
    try:
        c = Check(prop, tier, seed)
    except builder.BuildError as e:
        print("BUILD ERROR: %s" % e)
        return 2
    if tier == "thorough":
        n, wall = c.meta.get("thorough_runs", 10 ** 7), c.meta.get("thorough_wall", 600)
    else:
        n, wall = c.meta["quick_runs"], c.meta.get("quick_wall", 300)
    n = int(os.environ.get("SIM_RUNS", n))
    wall = float(os.environ.get("SIM_WALL", wall))
    c.explore(n, wall)
    if c.harness and not c.found:
        c.evidence(0)
        for h in c.harness[:3]:
            print("HARNESS ERROR at run %s:\n%s" % (h.get("done"), h.get("error")))
        return 3
    if c.found:
        c.found.sort(key=lambda r: r["done"])
        r = c.found[0]
        print("run %d violated the property: [%s] %s" % (r["done"], r["cls"], r["msg"]),
              flush=True)
        rep = c.report(r)
        c.evidence(len(c.found))
        if rep is None:
            print("HARNESS ERROR: the violation of run %d did not reproduce" % r["done"])
            return 3
        path, out = rep
        print("minimised: [%s] %s" % (out["cls"], out["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    c.evidence(0)
    missing = [p for p in c.meta.get("must_probe", []) if not
               (c.agg["probes"].get(p) or c.agg["faults"].get(p))]
    for k in c.known:
        if k["id"] in c.known_hits or k.get("always"):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    print("ok: %d runs, %d distinct non-trivial, %d steps, %d switches, faults %s, %.1f s%s" % (
        c.agg["runs"], len(c.sigs), c.agg["steps"], c.agg["switches"],
        json.dumps(c.agg["faults"]), c.wall,
        ("; probes at zero: %s" % missing) if missing else ""))
    if os.environ.get("SIM_VERBOSE"):
        print(json.dumps(c.agg["probes"], indent=1, sort_keys=True))
    return 0


def replay(path):
    o = json.load(open(path))
    prop = o["property"]
    pkg = builder.build()
    if o.get("prefix"):
        w = Worker(pkg, prop, o["hashseed"], o.get("tier", "quick"))
        res = []
        try:
            w.block({"block": o["prefix"], "seed": o["seed"]}, res.append)
            m = [x for x in res if x["status"] == "violation"]
            m = m[-1] if m else {"status": "ok"}
        except Dead as d:
            m = {"status": "violation", "cls": "crash" if d.why == "exit" else "hang",
                 "msg": "process ended: %s %s" % (d.why, d.code), "digest": "", "lines": []}
        w.kill()
    else:
        cs = Cases(pkg, prop, o["hashseed"], o.get("tier", "quick"))
        m = cs.run(o["case"], record=True)
        cs.close()
    if m["status"] == "harness":
        print("HARNESS ERROR\n" + m["error"])
        return 3
    if m["status"] == "ok":
        print("replay: no violation on this tree")
        return 0
    for l in m.get("lines", [])[-60:]:
        print("  " + l)
    print("[%s] %s" % (m["cls"], m["msg"]))
    print("digest %s%s" % (m["digest"], " (identical to the recorded run)"
                           if m["digest"] == o.get("digest") else
                           " (recorded: %s)" % o.get("digest")))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def selftest(props, seeds=(1, 2), nruns=None):
    """Same seeds, different worker counts, processes and block boundaries of
    time: every run must have the identical event-log digest."""
    bad = 0
    for p in props:
        for sd in seeds:
            ref = None
            for jobs in (8, 3, 1):
                c = Check(p, "quick", sd, jobs)
                n = nruns or min(c.meta["quick_runs"], 3 * c.meta.get("block", 100))
                c.explore(n, 1e9, digests=True)
                if c.harness or c.found:
                    print(p, "selftest: unexpected", c.harness[:1], [(f["done"], f["msg"]) for f in c.found[:1]])
                    bad += 1
                    break
                if ref is None:
                    ref = c.digests
                elif ref != c.digests:
                    d = [i for i in ref if c.digests.get(i) != ref[i]]
                    print(p, "seed", sd, "NOT DETERMINISTIC at runs", d[:10], "of", len(ref))
                    bad += 1
            else:
                print(p, "seed", sd, "deterministic over", len(ref), "runs x 3")
    return 1 if bad else 0


if __name__ == "__main__":
    cmd = sys.argv[1]
    if cmd == "check":
        sys.exit(check(sys.argv[2]))
    elif cmd == "replay":
        sys.exit(replay(sys.argv[2]))
    elif cmd == "selftest":
        sys.exit(selftest(sys.argv[2:] or scen.claimed()))
    elif cmd == "build":
        try:
            print(builder.build())
        except builder.BuildError as e:
            print(e)
            sys.exit(2)
