"""One simulator process.  Reads jobs (JSON lines) on stdin, writes results.

  {"block": [lo, hi], "seed": S}   generate and run the runs lo..hi-1
  {"case": {...}}                  run one explicit case
"""
import gc
import json
import os
import random
import re
import resource
import sys
import time
import traceback

here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
OUT = os.fdopen(os.dup(1), "w", buffering=1)
sys.stdout = sys.stderr
_exit = os._exit


def emit(o):
    OUT.write(json.dumps(o) + "\n")


def main():
    pkg, prop = sys.argv[1], sys.argv[2]
    tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
    lim = int(os.environ.get("SIM_MEM_MB", "3000")) << 20
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.dont_write_bytecode = True
    sys.path.insert(0, pkg)
    os.chdir("/")                    # users do not work in the source tree
    import simthread
    import core
    prefix = os.path.join(pkg, "pydatastructs") + os.sep
    core.RESET[0] = simthread.install(prefix)
    if os.environ.get("SIM_COV"):
        import covhook
        covhook.start(prefix, os.environ["SIM_COV"])
    import scen
    prop_mod = scen.load(prop)
    import pydatastructs
    assert pydatastructs.__file__.startswith(prefix), pydatastructs.__file__
    from native import NATIVE
    if os.environ.get("LD_PRELOAD"):
        NATIVE.load(os.environ["LD_PRELOAD"], prefix)
    gc.collect()
    gc.freeze()
    gc.disable()
    sys.setrecursionlimit(3000)
    emit({"ready": True})

    cur = {"i": None, "case": None, "env": None}

    def finish(i, case, env, v, harness=None):
        """Emit the outcome of a run that did not simply pass."""
        c = json.loads(json.dumps(case))
        o = {"done": i, "case": c, "digest": env.h.hexdigest(),
             "traces": env.sched_trace, "lines": env.lines[-400:],
             "faults": env.faults, "steps": env.steps}
        if harness:
            o["status"] = "harness"
            o["error"] = harness
        elif v is not None:
            o["status"] = "violation"
            o["cls"] = v.cls
            o["msg"] = v.msg
        else:
            o["status"] = "ok"
        emit(o)

    def on_fatal(exc):
        env, case, i = cur["env"], cur["case"], cur["i"]
        sched = simthread.SCHED
        env.sched_trace.append(sched.switches)
        env.steps += sched.step
        env.ev("sched", sched.step, type(exc).__name__)
        if isinstance(exc, simthread.Hang):
            v = core.Violation("hang", str(exc))
        elif isinstance(exc, simthread.Deadlock):
            v = core.Violation("deadlock", str(exc))
        else:
            finish(i, case, env, None, "thread died: %r" % (exc,))
            OUT.flush()
            _exit(3)
        finish(i, case, env, v)
        OUT.flush()
        _exit(0)
    simthread.SCHED.on_fatal = on_fatal

    def make_case(seed, i):
        rng = random.Random("%s/%s/%d" % (prop, seed, i))
        case = prop_mod.gen(rng, tier)
        if prop_mod.META.get("truth"):
            case["truth"] = rng.choice([None] * 6 + ["int", "object"])
        return case

    def run_one(i, case, record=False):
        env = core.Env(record)
        core.Truth.how = case.get("truth")
        cur.update(i=i, case=case, env=env)
        try:
            prop_mod.run(case, env)
        except core.Violation as v:
            return env, v, None
        except simthread.SimFatal:
            raise
        except MemoryError as e:
            return env, core.Violation("memory-exhausted", repr(e)), None
        except BaseException as e:
            tb = traceback.format_exc()
            if simthread.SCHED.active:
                simthread.SCHED.end()
            where = [f for f in traceback.extract_tb(e.__traceback__)
                     if f.filename.startswith(prefix)]
            if where:
                # raised by the code under test where the scenario did not
                # expect any error
                return env, core.Violation("unexpected-error:" + type(e).__name__, "%s: %s in %s" % (
                    type(e).__name__, re.sub(r"0x[0-9a-f]+", "0x..", str(e)),
                    where[-1].name)), None
            last = traceback.extract_tb(e.__traceback__)[-1]
            if isinstance(e, (TypeError, AttributeError, LookupError, ValueError)) and \
                    last.filename.startswith(os.path.join(here, "scen") + os.sep):
                # what the code under test returned is not of the form that
                # every correct answer has
                return env, core.Violation("malformed-result:" + type(e).__name__, "%s: %s in %s" % (
                    type(e).__name__, re.sub(r"0x[0-9a-f]+", "0x..", str(e)), last.name)), None
            return env, None, tb
        return env, None, None

    for line in sys.stdin:
        job = json.loads(line)
        if "gen" in job:
            emit({"gen": job["gen"], "case": make_case(job["seed"], job["gen"])})
            continue
        if "case" in job:
            budget = job.get("trace_budget")
            if budget:
                hang_guard(budget, prefix, on_fatal, simthread)
            gc.collect()
            env, v, h = run_one(0, job["case"], record=job.get("record", False))
            sys.settrace(None)
            finish(0, job["case"], env, v, h)
            continue
        lo, hi = job["block"]
        agg = {"runs": 0, "faults": {}, "probes": {}, "steps": 0, "switches": 0,
               "inflight": 0, "sigs": [], "fault_runs": 0, "ops": 0, "digest": [],
               "sched_sigs": [], "max_alive": 1}
        deadline = time.time() + job.get("wall", 1e9)
        sample = None
        stopped = None
        for i in range(lo, hi):
            if time.time() > deadline:
                stopped = i
                break
            OUT.write('{"s":%d}\n' % i)
            if i % 25 == 0:
                gc.collect()
            case = make_case(job["seed"], i)
            want = job.get("sample") == i
            env, v, h = run_one(i, case, record=want)
            agg["runs"] += 1
            agg["steps"] += env.steps or env.nops
            agg["switches"] += env.switches
            agg["inflight"] += env.inflight
            agg["ops"] += env.nops
            agg["max_alive"] = max(agg["max_alive"], env.max_alive)
            if env.faults:
                agg["fault_runs"] += 1
            for k, n in env.faults.items():
                agg["faults"][k] = agg["faults"].get(k, 0) + n
            for k, n in env.probes.items():
                agg["probes"][k] = agg["probes"].get(k, 0) + n
            d = env.h.hexdigest()
            if env.nontrivial or env.inflight:
                agg["sigs"].append(d[:16])
            if env.switches:
                agg["sched_sigs"].append(env.sched_sig.hexdigest())
            if job.get("digests"):
                agg["digest"].append(d)
            if want:
                sample = {"run": i, "case": case, "log_tail": env.lines[-12:],
                          "faults": env.faults, "steps": env.steps,
                          "switches": env.switches}
            if v is not None or h is not None:
                finish(i, case, env, v, h)
                if v is not None and job.get("stop_on_violation", True):
                    stopped = i + 1
                    break
        emit({"block_done": [lo, hi], "stopped": stopped, "agg": agg, "sample": sample})


def hang_guard(budget, prefix, on_fatal, simthread):
    """Confirm a suspected endless loop: count executed lines of the code under
    test and give up deterministically."""
    n = [0]

    def lt(frame, event, arg):
        n[0] += 1
        if n[0] > budget:
            on_fatal(simthread.Hang("no result after %d executed lines" % budget))
        return lt

    def gt(frame, event, arg):
        if frame.f_code.co_filename.startswith(prefix):
            return lt
        return None
    sys.settrace(gt)


main()
