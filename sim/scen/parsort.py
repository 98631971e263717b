"""P01: parallel sorts under every schedule, failing comparators and failing
thread starts."""
from core import need, CallFault, InjectedError, pick_faults, gen_sched
from scen.common import err, multiset, run_threads, show, size
from simthread import SCHED, START_FAILURE

META = {
    "truth": True,
    "rule": "A run draws an array (kind, backend, contents with ties and empty slots, "
            "sub-range), a comparator, a worker count, one or two caller threads, a scheduling "
            "policy (random/PCT, lock/line/bytecode granularity) and, in half of the runs, a "
            "comparator that raises at a drawn call or thread starts that fail.",
    "quick_runs": 3200, "block": 100, "quick_wall": 240, "thorough_wall": 600,
    "real": ["merge_sort_parallel, brick_sort_parallel and the arrays they sort (Python and C++ "
             "backed)", "CPython's concurrent.futures.ThreadPoolExecutor, queue.SimpleQueue "
             "(pure Python) and threading on top of the simulated _thread"],
    "stub": ["_thread: locks, thread start and thread choice are the simulator's",
             "time.sleep / monotonic inside threading: logical clock"],
    "assumptions": ["preemption can happen between any two bytecodes of the package (a superset of "
                    "what one CPython release does)"],
    "must_probe": ["callback_raise", "thread_start_failed", "two_callers", "appended"],
}

COMPS = {
    "default": None,
    "le": lambda u, v: u <= v,
    "ge": lambda u, v: u >= v,
    "lt": lambda u, v: u < v,
    "gt": lambda u, v: u > v,
    "key_le": lambda u, v: u // 100 <= v // 100,
    "key_ge": lambda u, v: u // 100 >= v // 100,
}
RANK = {
    "default": lambda x: x, "le": lambda x: x, "lt": lambda x: x,
    "ge": lambda x: -x, "gt": lambda x: -x,
    "key_le": lambda x: x // 100, "key_ge": lambda x: -(x // 100),
}


def gen_one(rng):
    alg = rng.choice(["merge", "merge", "brick"])
    kind = rng.choice(["oda", "doda", "oda", "doda", "cpp_oda", "cpp_doda"])
    n = size(rng, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13], (12, 20), .2)
    if rng.random() < .02:
        n = rng.randrange(20, 80)
    if alg == "brick":
        n = min(n, rng.randrange(1, 9))
    if "doda" in kind:
        n = max(n, 1)
    comp = rng.choice(sorted(COMPS))
    style = rng.choice(["rand", "ties", "sorted", "reversed", "almost"])
    if style == "ties":
        data = [rng.randrange(4) for _ in range(n)]
    else:
        data = [rng.randrange(-50, 50) for _ in range(n)]
        if style == "sorted":
            data.sort()
        elif style == "reversed":
            data.sort(reverse=True)
        elif style == "almost" and n > 1:
            data.sort()
            i, j = rng.randrange(n), rng.randrange(n)
            data[i], data[j] = data[j], data[i]
    if comp.startswith("key"):
        data = [d * 100 + i for i, d in enumerate(data)]
    holes = []
    if rng.random() < .3 and n > 2:
        holes = sorted(set(rng.randrange(1, n) for _ in range(rng.choice([1, 1, 2, 3]))))
    lo, hi = None, None
    if rng.random() < .35 and n > 1:
        lo = rng.randrange(n)
        hi = rng.randrange(lo, n)
        if rng.random() < .15:
            hi = lo - 1 if lo else lo
    append = rng.randrange(3) if "doda" in kind else 0
    return {"alg": alg, "kind": kind, "data": data, "holes": holes, "comp": comp,
            "lo": lo, "hi": hi, "threads": rng.choice([1, 1, 2, 2, 3, 4, 5, 8]),
            "append": append, "raise_at": []}


def gen(rng, tier):
    jobs = [gen_one(rng)]
    if rng.random() < .2:
        jobs.append(gen_one(rng))
    faulty = rng.random() < .5
    start_fail = faulty and rng.random() < .35
    if faulty and not (start_fail and rng.random() < .7):
        for j in jobs:
            n = len(j["data"])
            j["raise_at"] = pick_faults(rng, 1, max(2, int(n * 2.5)), rng.choice([1, 1, 1, 2]))
    return {"jobs": jobs, "scheds": [gen_sched(rng, start_fail=start_fail)]}


def make(job):
    from pydatastructs import OneDimensionalArray, DynamicOneDimensionalArray
    from pydatastructs.utils.misc_util import Backend
    bk = {"backend": Backend.CPP} if job["kind"].startswith("cpp") else {}
    data = list(job["data"])
    if job["kind"].endswith("doda"):
        a = DynamicOneDimensionalArray(int, list(data), **bk)
        for k in range(job["append"]):
            a.append(7 + k)
        for h in job["holes"]:
            if h < len(data):
                a.delete(h)
    else:
        a = OneDimensionalArray(int, list(data), **bk)
        for h in job["holes"]:
            if h < len(data):
                a[h] = None
    return a


def contents(a):
    return [a[i] for i in range(len(a))]


def run(case, env):
    from pydatastructs import merge_sort_parallel, brick_sort_parallel
    jobs = case["jobs"]
    arrays, before, comps, bodies = [], [], [], []
    for job in jobs:
        a = make(job)
        arrays.append(a)
        before.append(contents(a))
        base = COMPS[job["comp"]]
        kw = {}
        cf = None
        if base is not None or job["raise_at"]:
            base = base or COMPS["le"]

            def yielding(u, v, base=base):
                if SCHED.active:
                    SCHED.point()
                return base(u, v)
            cf = CallFault(env, yielding, job["raise_at"], truthy=True)
            kw["comp"] = cf
        comps.append(cf)
        if job["lo"] is not None:
            kw["start"] = job["lo"]
            kw["end"] = job["hi"]
        fn = merge_sort_parallel if job["alg"] == "merge" else brick_sort_parallel
        bodies.append(lambda fn=fn, a=a, job=job, kw=kw: fn(a, job["threads"], **kw))
        env.ev("job", job["alg"], job["kind"], before[-1], job["comp"], kw.get("start"),
               kw.get("end"), job["threads"])
    env.nops += len(jobs)
    if len(jobs) == 1:
        outs = [env.simulate(case["scheds"][0], bodies[0])]
    else:
        env.probe("two_callers")
        outs = run_threads(env, case["scheds"][0], bodies)
    sf = SCHED.start_failures
    for job, a, old, cf, (kind, val) in zip(jobs, arrays, before, comps, outs):
        now = contents(a)
        env.ev("out", kind, err(val) if kind == "raise" else None, now)
        what = "%s on %s (start=%s end=%s comp=%s workers=%d)" % (
            job["alg"], show(old), job["lo"], job["hi"], job["comp"], job["threads"])
        fired = cf.fired if cf else 0
        vals_old = multiset(x for x in old if x is not None)
        vals_now = multiset(x for x in now if x is not None)
        need(vals_old == vals_now, "elements-lost",
             "%s: elements were %s, are now %s", what, show(old), show(now))
        lo = 0 if job["lo"] is None else job["lo"]
        hi = len(old) - 1 if job["hi"] is None else job["hi"]
        if kind == "raise":
            if fired and isinstance(val, InjectedError):
                env.probe("comparator_error_reached_caller")
            elif sf and isinstance(val, RuntimeError) and START_FAILURE in str(val):
                env.probe("start_failure_reached_caller")   # of two faults, either may win
            elif fired:
                need(False, "wrong-error",
                     "%s: comparator raised InjectedError, caller got %s", what, err(val))
            else:
                need(False, "unexpected-error", "%s: raised %s", what, err(val))
            if len(now) == len(old):
                need(now[:lo] == old[:lo] and now[hi + 1:] == old[hi + 1:], "outside-range",
                     "%s: positions outside the range changed: %s", what, show(now))
            continue
        need(not fired, "error-swallowed",
             "%s: the comparator raised but the call returned normally with %s", what, show(now))
        if len(now) == len(old):
            need(now[:lo] == old[:lo] and now[hi + 1:] == old[hi + 1:], "outside-range",
                 "%s: positions outside the range changed: %s", what, show(now))
            seg = now[lo:hi + 1]
        else:                       # a dynamic array may give back spare capacity
            seg = now
            if job["lo"] is not None:
                cut = [x for x in old[:lo] if x is not None]
                ncut = [x for x in old[hi + 1:] if x is not None]
                body = [x for x in now if x is not None]
                need(body[:len(cut)] == cut and (not ncut or body[-len(ncut):] == ncut),
                     "outside-range", "%s: elements outside the range moved: %s", what, show(now))
                seg = body[len(cut):len(body) - len(ncut)]
        vals = [x for x in seg if x is not None]
        need(seg[:len(vals)] == vals, "empty-slots",
             "%s: empty slots are not last: %s", what, show(seg))
        rk = [RANK[job["comp"]](x) for x in vals]
        need(all(x <= y for x, y in zip(rk, rk[1:])), "not-sorted",
             "%s: not sorted: %s", what, show(now))
        env.probe("sorted_ok")
        if job["alg"] == "merge" and job["comp"] not in ("lt", "gt") and len(now) == len(old):
            # a merge sort moves no element past one which is equal to it
            want = sorted((x for x in old[lo:hi + 1] if x is not None), key=RANK[job["comp"]])
            need(vals == want, "not-stable", "%s: equal elements changed places: %s", what,
                 show(now))
    for job, a in zip(jobs, arrays):
        if "doda" not in job["kind"]:
            continue
        what = "%s on %s" % (job["alg"], show(contents(a)))
        want = [x for x in contents(a) if x is not None]
        for x in (10001, 10002, 10003):     # the array must still be usable
            a.append(x)
            want.append(x)
            now = [y for y in contents(a) if y is not None]
            need(now == want, "append-lost", "after %s, append(%d): now %s", what, x, show(now))
        env.probe("appended")
    if env.max_alive > 2:
        env.probe("more_than_one_worker")
