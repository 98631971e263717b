"""P12: the sequential sorts, in every backend and call order, under failing
comparisons, pivot choices and allocations, and from several caller threads."""
import sys
from core import need, truth, bad_answer, AllocFault, CallFault, InjectedError, InjectedMemoryError, pick_faults, \
    gen_sched
from scen.common import err, multiset, run_threads, show, size
from simthread import SCHED

META = {
    "truth": True,
    "rule": "A run is a history of 1..3 sort calls in one process (any of the twelve sorts; Python, "
            "C++ and LLVM backends where they exist; LLVM state starts fresh), on arrays with "
            "ties, empty slots and sub-ranges, with drawn comparators, pivot rules and "
            "thresholds, sometimes from two caller threads; in most runs a drawn comparison, "
            "comparator call, pivot choice or allocation fails; dynamic arrays are appended to "
            "afterwards.",
    "quick_runs": 120000, "block": 1000, "quick_wall": 240, "thorough_wall": 600,
    "real": ["bubble, selection, insertion, quick, brick, cocktail shaker, shell, heap, intro, "
             "bucket, counting and radix sort; C++ bubble, selection, insertion, quick; LLVM "
             "bubble, selection (compiled by llvmlite)", "static and dynamic arrays, Python and "
             "C++"],
    "stub": ["comparators, element comparisons and pivot rules (can fail on demand)",
             "allocation of arrays and heap nodes (can fail on demand)",
             "_thread when there are two callers"],
    "must_probe": ["callback_raise", "comparison_failed", "allocation_failed", "two_callers",
                   "llvm", "cpp", "pivot_failed", "sorted_ok", "appended"],
}
CUSTOM = ["bubble", "selection", "insertion", "quick", "brick", "cocktail", "shell"]
FIXED = ["heap", "intro", "bucket", "counting", "radix"]
CPP = ["bubble", "selection", "insertion", "quick"]
LLVM = ["bubble", "selection"]

COMPS = {
    "default": None,
    "le": lambda u, v: u <= v,
    "ge": lambda u, v: u >= v,
    "lt": lambda u, v: u < v,
    "gt": lambda u, v: u > v,
    "key_le": lambda u, v: u // 4 <= v // 4,
    "key_ge": lambda u, v: u // 4 >= v // 4,
}
RANK = {
    "default": lambda x: x, "le": lambda x: x, "lt": lambda x: x,
    "ge": lambda x: -x, "gt": lambda x: -x,
    "key_le": lambda x: x // 4, "key_ge": lambda x: -(x // 4),
}
PIVOTS = {
    "first": lambda lo, hi, a: a[lo],
    "last": lambda lo, hi, a: a[hi],
    "mid": lambda lo, hi, a: a[(lo + hi) // 2],
    "min": lambda lo, hi, a: min((a[i] for i in range(lo, hi + 1)), key=nonekey),
    "max": lambda lo, hi, a: max((a[i] for i in range(lo, hi + 1)), key=nonekey),
}


def nonekey(x):
    return (x is None, 0 if x is None else int(x))


class V(int):
    """An element whose comparisons go through the simulator."""
    ctl = None

    def _hit(self, answer):
        c = V.ctl
        if c["on"]:
            if SCHED.active:
                SCHED.point()
            c["n"] += 1
            if c["n"] in c["at"]:
                def fail(n=c["n"]):
                    c["fired"] += 1
                    c["env"].fault("comparison_failed")
                    raise InjectedError(n)
                return bad_answer(fail)
        return truth(answer)

    def __lt__(self, o):
        return self._hit(int(self) < int(o))

    def __le__(self, o):
        return self._hit(int(self) <= int(o))

    def __gt__(self, o):
        return self._hit(int(self) > int(o))

    def __ge__(self, o):
        return self._hit(int(self) >= int(o))

    def __eq__(self, o):
        return o is not None and int(self) == o

    def __hash__(self):
        return hash(int(self))


def gen_job(rng):
    be = rng.choice(["py"] * 10 + ["cpp"] * 8 + ["llvm"])
    alg = rng.choice(LLVM if be == "llvm" else CPP if be == "cpp" else CUSTOM + FIXED)
    kind = rng.choice(["oda", "doda"])
    if be == "cpp" or be == "llvm" and rng.random() < .4:
        kind = "cpp_" + kind
    n = size(rng, [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17], (17, 40), .15)
    if rng.random() < .025:
        n = rng.randrange(40, 180)
    etype = rng.choice(["int", "int", "V", "V", "float"])
    if be == "llvm":
        etype = rng.choice(["int", "float"])
    if alg in ("counting", "radix") and etype == "float":
        etype = "V"
    style = rng.choice(["rand", "ties", "sorted", "reversed", "almost", "equal"])
    lim = rng.choice([3, 20, 100, 100, 1000, 10 ** 6])
    if alg == "counting":
        lim = min(lim, 1000)
    lo_v = 0 if alg == "radix" else -lim
    if style == "ties":
        data = [rng.randrange(4) for _ in range(n)]
    elif style == "equal":
        data = [7] * n
    else:
        data = [rng.randrange(lo_v, lim) for _ in range(n)]
        if style == "sorted":
            data.sort()
        elif style == "reversed":
            data.sort(reverse=True)
        elif style == "almost" and n > 1:
            data.sort()
            i, j = rng.randrange(n), rng.randrange(n)
            data[i], data[j] = data[j], data[i]
    holes = []
    if rng.random() < .35 and n > 2:
        holes = sorted(set(rng.randrange(0 if "cpp" not in kind or kind == "cpp_doda" else 0, n)
                           for _ in range(rng.choice([1, 1, 2, 3, n]))))
    lo, hi = None, None
    if rng.random() < .35 and n > 1:
        lo = rng.randrange(n)
        hi = rng.randrange(lo, n)
        if rng.random() < .15 and lo:
            hi = lo - 1
    job = {"alg": alg, "be": be, "kind": kind, "etype": etype, "data": data, "holes": holes,
           "lo": lo, "hi": hi, "append": rng.randrange(3), "comp": "default", "pivot": None,
           "raise_at": [], "pivot_at": [], "maxdepth": None, "thr": None}
    if alg in CUSTOM and be != "llvm":
        job["comp"] = rng.choice(sorted(COMPS))
    if alg == "quick" and rng.random() < .6:
        job["pivot"] = rng.choice(sorted(PIVOTS))
    if alg == "intro":
        job["maxdepth"] = rng.choice([None, None, 0, 1, 2, 5])
        job["thr"] = rng.choice([None, 1, 2, 3, 5])
    return job


def gen(rng, tier):
    jobs = [gen_job(rng) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    case = {"jobs": jobs, "cmp_at": [], "alloc_at": [], "scheds": []}
    if rng.random() < .7:
        n = max(2, max(len(j["data"]) for j in jobs))
        x = rng.random()
        if x < .5:
            for j in jobs:
                j["raise_at"] = pick_faults(rng, 1, int(n * 2.5), rng.choice([1, 1, 2]))
                if j["pivot"] and rng.random() < .5:
                    j["pivot_at"] = pick_faults(rng, 1, 4, 1)
        if x > .35 and x < .85:
            case["cmp_at"] = pick_faults(rng, 1, int(n * 2.5), rng.choice([1, 1, 2]))
            for j in jobs:
                if j["etype"] == "int" and j["be"] != "llvm" and rng.random() < .7:
                    j["etype"] = "V"
        if x > .75:
            case["alloc_at"] = pick_faults(rng, 1, rng.choice([2, 4, n]), rng.choice([1, 2]))
    if len(jobs) == 2 and rng.random() < .3:
        for j in jobs:
            j["raise_at"] = j["pivot_at"] = []
            j["data"] = j["data"][:12]           # bounds the number of simulated steps
            if j["lo"] is not None and j["hi"] >= len(j["data"]):
                j["lo"] = j["hi"] = None
        case["cmp_at"], case["alloc_at"] = [], []
        case["scheds"] = [gen_sched(rng)]
    return case


def make(job):
    from pydatastructs import OneDimensionalArray, DynamicOneDimensionalArray
    from pydatastructs.utils.misc_util import Backend
    bk = {"backend": Backend.CPP} if job["kind"].startswith("cpp") else {}
    T = {"int": int, "float": float, "V": V}[job["etype"]]
    data = [T(x) for x in job["data"]]
    if job["etype"] == "float":
        data = [x / 8 for x in data]
    holes = [h for h in job["holes"] if h < len(data)]
    if job["kind"].endswith("doda"):
        a = DynamicOneDimensionalArray(T, data, **bk)
        for k in range(job["append"]):
            a.append(T(7 + k))
        for h in holes:
            a.delete(h)
    else:
        a = OneDimensionalArray(T, data, **bk)
        for h in holes:
            a[h] = None
    return a, T


def contents(a):
    return [a[i] for i in range(len(a))]


def same(xs, ys):
    """Identical objects in the same positions."""
    return len(xs) == len(ys) and all(x is y or x == y and type(x) is type(y) and
                                      type(x) is not V for x, y in zip(xs, ys))


def bag(xs):
    return multiset((id(x) if type(x) is V else x) for x in xs if x is not None)


def call(job, a, cf, pf):
    import pydatastructs as pds
    from pydatastructs.utils.misc_util import Backend
    fn = {"bubble": pds.bubble_sort, "selection": pds.selection_sort,
          "insertion": pds.insertion_sort, "quick": pds.quick_sort, "brick": pds.brick_sort,
          "cocktail": pds.cocktail_shaker_sort, "shell": pds.shell_sort, "heap": pds.heapsort,
          "intro": pds.intro_sort, "bucket": pds.bucket_sort, "counting": pds.counting_sort,
          "radix": pds.radix_sort}[job["alg"]]
    kw = {}
    if cf is not None:
        kw["comp"] = cf
    if pf is not None:
        kw["pick_pivot_element"] = pf
    if job["lo"] is not None and job["alg"] != "counting":
        kw["start"], kw["end"] = job["lo"], job["hi"]
    if job["alg"] == "intro":
        if job["maxdepth"] is not None:
            kw["maxdepth"] = job["maxdepth"]
        if job["thr"] is not None:
            kw["ins_threshold"] = job["thr"]
    if job["be"] != "py":
        kw["backend"] = {"cpp": Backend.CPP, "llvm": Backend.LLVM}[job["be"]]
    return fn(a, **kw)


def valid(job):
    if job["be"] == "llvm" and job["alg"] not in LLVM or \
            job["be"] == "cpp" and job["alg"] not in CPP:
        return False
    if job["alg"] not in CUSTOM + FIXED or job["comp"] not in COMPS:
        return False
    if job["lo"] is not None:
        n = len(job["data"])
        if "doda" in job["kind"] and job["holes"]:
            return True                    # checked against the real length later
        return job["hi"] is not None and job["hi"] < n and 0 <= job["lo"] <= job["hi"] + 1 \
            and job["hi"] >= 0
    return True


def run(case, env):
    from pydatastructs.linear_data_structures.arrays import OneDimensionalArray
    from pydatastructs.utils.misc_util import TreeNode
    # the LLVM backend keeps compiled functions per process: start fresh
    for m in [m for m in sys.modules if m.endswith("llvm_algorithms")]:
        del sys.modules[m]
    V.ctl = ctl = {"on": False, "at": set(case["cmp_at"]), "n": 0, "env": env, "fired": 0}
    jobs = [j for j in case["jobs"] if valid(j)]
    todo = []
    for job in jobs:
        a, T = make(job)
        if job["lo"] is not None and not (0 <= job["lo"] <= job["hi"] + 1 and
                                          0 <= job["hi"] < len(a)):
            continue
        base = COMPS[job["comp"]]
        cf = pf = None
        if job["alg"] in CUSTOM and job["be"] != "llvm" and \
                (base is not None or (job["raise_at"] and job["comp"] != "default")):
            def comp(u, v, base=base):
                if SCHED.active:
                    SCHED.point()
                return base(u, v)
            cf = CallFault(env, comp, job["raise_at"], truthy=True)
            cf.armed = False
        if job["pivot"] and job["alg"] == "quick":
            pf = CallFault(env, PIVOTS[job["pivot"]], job["pivot_at"], "pivot_failed")
            pf.armed = False
        todo.append((job, a, T, cf, pf))
    two = bool(case["scheds"]) and len(todo) == 2
    with AllocFault(env, [OneDimensionalArray, TreeNode], case["alloc_at"]) as af:
        if two:
            env.probe("two_callers")
            olds = [contents(t[1]) for t in todo]
            outs = run_threads(env, case["scheds"][0],
                               [lambda t=t: call(t[0], t[1], t[3], t[4]) for t in todo])
            for t, old, (k, out) in zip(todo, olds, outs):
                judge(env, t, old, k, out, 0, af)
            return
        for t in todo:
            job, a, T, cf, pf = t
            old = contents(a)
            f0 = af.fired + ctl["fired"]
            env.nops += 1
            af.armed = ctl["on"] = True
            for f in (cf, pf):
                if f:
                    f.armed = True
            try:
                k, out = "ok", call(job, a, cf, pf)
            except Exception as e:
                k, out = "raise", e
            finally:
                af.armed = ctl["on"] = False
                for f in (cf, pf):
                    if f:
                        f.armed = False
            fired = af.fired + ctl["fired"] - f0 + (cf.fired if cf else 0) + (pf.fired if pf else 0)
            judge(env, t, old, k, out, fired, af)


def judge(env, t, old, k, out, fired, af):
    job, a, T, cf, pf = t
    now = contents(a)
    what = "%s(%s) on %s %s of %s (start=%s end=%s comp=%s%s)" % (
        job["alg"], job["be"], job["kind"], show(old), job["etype"], job["lo"], job["hi"],
        job["comp"], " pivot=" + job["pivot"] if job["pivot"] else "")
    env.ev(what, k, err(out) if k == "raise" else None, now)
    env.probe(job["be"])
    need(bag(old) == bag(now), "elements-lost", "%s: elements were %s, are now %s", what,
         show(old), show(now))
    whole = job["lo"] is None or job["alg"] == "counting"
    lo = 0 if whole else job["lo"]
    hi = len(old) - 1 if whole else job["hi"]
    if len(now) == len(old):
        need(same(now[:lo], old[:lo]) and same(now[hi + 1:], old[hi + 1:]), "outside-range",
             "%s: positions outside the range changed: %s", what, show(now))
        seg = now[lo:hi + 1]
    else:                           # a dynamic array may give back spare capacity
        need("doda" in job["kind"], "size-changed", "%s: size of a static array changed: %s",
             what, show(now))
        pre = [x for x in old[:lo] if x is not None]
        post = [x for x in old[hi + 1:] if x is not None]
        body = [x for x in now if x is not None]
        need(same(body[:len(pre)], pre) and (not post or same(body[-len(post):], post)),
             "outside-range", "%s: elements outside the range moved: %s", what, show(now))
        seg = body[len(pre):len(body) - len(post)]
    if fired:
        need(k == "raise", "error-swallowed", "%s: an injected failure was swallowed, got %s",
             what, show(now))
        # elements which can't be compared are reported as such by the C++ sorts
        ok = isinstance(out, (InjectedError, InjectedMemoryError)) or \
            job["be"] == "cpp" and isinstance(out, ValueError) and cf is None and \
            not (pf and pf.fired)
        need(ok, "wrong-error", "%s: failed with %s instead of the injected error", what, err(out))
    else:
        need(k == "ok", "unexpected-error", "%s: raised %s", what, err(out) if k == "raise" else "")
        if job["alg"] == "counting":
            need(same(now, old), "input-changed", "%s: the input was changed to %s", what,
                 show(now))
            vals = contents(out)
            if [x for x in old if x is not None]:
                while "doda" in job["kind"] and vals and vals[-1] is None:
                    vals.pop()
                need(bag(vals) == bag(old), "elements-lost", "%s: output %s", what, show(vals))
            else:
                need(bag(vals) == {}, "elements-lost", "%s: output %s", what, show(vals))
            need(None not in vals or not [x for x in old if x is not None], "empty-slots",
                 "%s: the output has empty slots: %s", what, show(vals))
            vals = [x for x in vals if x is not None]
        else:
            need(out is None or out is a or job["alg"] in ("brick", "heap"), "wrong-result",
                 "%s: returned %s, not the array", what, show(out))
            vals = [x for x in seg if x is not None]
            need(all(x is not None for x in seg[:len(vals)]), "empty-slots",
                 "%s: empty slots are not last: %s", what, show(seg))
        rk = [RANK[job["comp"]](x) for x in vals]
        need(all(int(x * 8) <= int(y * 8) for x, y in zip(rk, rk[1:])), "not-sorted",
             "%s: not sorted: %s", what, show(now))
        env.probe("sorted_ok")
    if "doda" in job["kind"]:
        # the array must still be usable
        want = bag(now)
        for i in range(3):
            x = T(1000 + i)
            a.append(x)
            for y in bag([x]):
                want[y] = want.get(y, 0) + 1
            now = contents(a)
            need(bag(now) == want, "append-lost", "append(%s) after %s: now %s", x, what, show(now))
            vals = [y for y in now if y is not None]
            need(vals[-1] is x or vals[-1] == x, "append-not-last",
                 "append(%s) after %s: now %s", x, what, show(now))
            need(len(vals) > 1 or now[0] is not None, "append-not-first",
                 "append(%s) after %s, which left no elements: now %s", x, what, show(now))
        env.probe("appended")
