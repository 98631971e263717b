"""P19: string search, permutations and subsequences are right for every caller, also
when a comparison, a step through a string or an allocation fails."""
from core import need, truth, gen_sched, pick_faults, AllocFault, InjectedError, InjectedMemoryError
from scen.common import err, filled, run_threads, show, size

META = {
    "truth": True,
    "rule": "A run draws a history of 1..4 calls of string search (four algorithms), next and "
            "previous permutation (also walked step by step), longest common and longest "
            "increasing subsequence, on texts and arrays with repetitions, ties, unusual "
            "characters, sub-ranges and comparators, Python and C++ arrays; in half of the runs a "
            "drawn comparison, step through a string or allocation fails; some histories are made "
            "by several threads at the same time.",
    "quick_runs": 60000, "block": 500, "quick_wall": 200, "thorough_wall": 400,
    "real": ["strings.find and its four algorithms, next_permutation, prev_permutation, "
             "longest_common_subsequence, longest_increasing_subsequence, lower_bound; Python and "
             "C++ arrays", "CPython's threading on the simulated _thread"],
    "stub": ["comparison of elements, comparators, steps through strings, allocation of arrays (fail "
             "on demand)", "_thread"],
    "must_probe": ["allocation_failed", "comparison_failed", "callback_raise", "string_failed",
                   "callers", "kmp", "rabin_karp", "boyer_moore", "z_function", "next", "prev",
                   "lcs", "lis", "matches", "overlapping", "wrapped", "ties", "empty", "cpp_array",
                   "walk"],
}
ALGS = ["kmp", "rabin_karp", "boyer_moore", "z_function"]
RANK = {"default": lambda x: x, "lt": lambda x: x, "gt": lambda x: -x, "mod": lambda x: x // 3}


class Ctl(object):
    on, at, n, fired, env = False, (), 0, 0, None

    @classmethod
    def step(cls, kind):
        if cls.on and cls.at:
            cls.n += 1
            if cls.n in cls.at:
                cls.fired += 1
                cls.env.fault(kind)
                raise InjectedError(cls.n)


class V(int):
    def _op(name):
        base = getattr(int, name)

        def f(self, o):
            Ctl.step("comparison_failed")
            return truth(base(self, o))
        f.__name__ = name
        return f
    for _n in ("__lt__", "__le__", "__gt__", "__ge__", "__eq__", "__ne__"):
        locals()[_n] = _op(_n)
    del _n, _op
    __hash__ = int.__hash__


class Text(str):
    def __getitem__(self, i):
        Ctl.step("string_failed")
        return str.__getitem__(self, i)
    __hash__ = str.__hash__


def gen(rng, tier):
    jobs = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        kind = rng.choice(["find", "find", "perm", "perm", "lcs", "lis"])
        if kind == "find":
            alpha = rng.choice(["ab", "ab", "a", "abc", "a$", "ab$", "\x00\x01\u0101",
                                "\x00\x02\u0101\u0202", "a\u00e9\U0001f600"])
            t = "".join(rng.choice(alpha) for _ in range(size(rng, [0, 1, 3, 8, 20, 40], (41, 400))))
            x = rng.random()
            if x < .5 and t:
                i = rng.randrange(len(t))
                q = t[i:i + size(rng, [1, 2, 3, 5, 9], (10, 60))]
            else:
                q = "".join(rng.choice(alpha) for _ in range(rng.choice([0, 1, 1, 2, 3, 4])))
            if x > .8:
                t = q * rng.choice([1, 2, 3]) + t
            jobs.append(["find", rng.choice(ALGS), t, q])
            continue
        m = rng.choice([1, 2, 4, 9, 1000])
        n = size(rng, [0, 1, 2, 3, 4, 6, 10], (11, 60))
        a = [rng.randrange(m) - m // 3 for _ in range(n)]
        if n > 10 and rng.random() < .6:
            a.sort(reverse=rng.random() < .3)
            for _ in range(rng.randrange(6)):
                a[rng.randrange(n)] = rng.randrange(m) - m // 3
        elem = rng.choice(["int", "int", "v", "float", "str"])
        cpp = rng.random() < .15 and elem in ("int", "float")
        if kind == "perm":
            if rng.random() < .3:
                a.sort(reverse=rng.random() < .5)
            lo = rng.choice([None, None, 0, 1, 2])
            hi = rng.choice([None, None, n - 1, n - 2])
            jobs.append(["perm", rng.choice(["next", "prev"]), elem, cpp, a, lo, hi,
                         rng.choice(["default", "default", "lt", "gt", "mod"]),
                         rng.choice([1, 1, 1, 4])])
        elif kind == "lcs":
            b = [rng.randrange(m) - m // 3 for _ in range(size(rng, [0, 1, 2, 4, 8], (9, 50)))]
            if rng.random() < .3:
                b = [x for x in a if rng.random() < .7] + b[:1]
            jobs.append(["lcs", "", elem, cpp, a, b])
        else:
            jobs.append(["lis", "", elem if elem != "str" else "float", cpp, a])
    case = {"jobs": jobs, "at": [], "alloc_at": [], "scheds": []}
    x = rng.random()
    if x < .3:
        case["at"] = pick_faults(rng, 1, rng.choice([4, 12, 40]), rng.choice([1, 2]))
        for j in jobs:
            if j[0] != "find" and rng.random() < .8:
                j[2], j[3] = "v", False
    elif x < .5:
        case["alloc_at"] = pick_faults(rng, 1, rng.choice([2, 4, 10]), rng.choice([1, 2]))
    if len(jobs) > 1 and rng.random() < .4:
        case["scheds"] = [gen_sched(rng, horizon=1500)]
    return case


MAKE = {"int": int, "v": V, "float": lambda x: x + .5, "str": lambda x: "s%04d" % (x + 500)}
TYPE = {"int": int, "v": V, "float": float, "str": str}


def array(job, values):
    from pydatastructs import OneDimensionalArray
    from pydatastructs.utils.misc_util import Backend
    kw = {"backend": Backend.CPP} if job[3] else {}
    return OneDimensionalArray(TYPE[job[2]], [MAKE[job[2]](x) for x in values], **kw)


def step_perm(ranks, up):
    """Indices of the following permutation of these ranks; did it not wrap?"""
    r = ranks if up else [-x for x in ranks]
    idx = list(range(len(r)))
    i = len(r) - 2
    while i >= 0 and r[i] >= r[i + 1]:
        i -= 1
    if i < 0:
        return idx[::-1], False
    j = max(k for k in range(i + 1, len(r)) if r[k] > r[i])
    idx[i], idx[j] = idx[j], idx[i]
    idx[i + 1:] = idx[i + 1:][::-1]
    return idx, True


def listed(a):
    return [a[i] for i in range(len(a))]


def job_of(job, env):
    """(description, call, check) of one job, or None."""
    import pydatastructs as p
    from pydatastructs.strings import find
    if job[0] == "find":
        _, alg, t, q = job
        what = "find(%r, %r, %r)" % (t, q, alg)
        want = [i for i in range(len(t) - len(q) + 1) if t[i:i + len(q)] == q] if q else []

        def check(k, out):
            need(k == "ok", "unexpected-error", "%s: %s", what, err(out) if k == "raise" else "")
            got = filled(out)
            need(got == want, "wrong-matches", "%s: %s instead of %s", what, got, want)
            env.probe(alg)
            if got:
                env.probe("matches")
            if any(b - a < len(q) for a, b in zip(got, got[1:])):
                env.probe("overlapping")
            if not t or not q:
                env.probe("empty")
        return what, lambda: find(Text(t), Text(q), alg), check
    if job[0] == "perm":
        _, way, elem, cpp, a, lo, hi, comp, steps = job
        n = len(a)
        lo_, hi_ = lo or 0, n - 1 if hi is None else hi
        if lo_ > hi_ + 1 or hi_ > n - 1 or hi_ < -1:
            return None
        if elem == "str" and comp in ("gt", "mod") or elem == "float" and comp == "mod":
            comp = "lt"
        f = p.next_permutation if way == "next" else p.prev_permutation
        kw = {}
        if lo is not None:
            kw["start"] = lo
        if hi is not None:
            kw["end"] = hi
        if comp != "default":
            def cmp(x, y, rank=RANK[comp]):
                Ctl.step("callback_raise")
                if comp == "lt":
                    return truth(x < y)
                return truth(rank(x) < rank(y))
            kw["comp"] = cmp
        A = array(job, a)
        what = "%s_permutation of %s %s, %s, %s" % (way, elem, a, comp, {k: kw[k] for k in kw
                                                                        if k != "comp"})

        def call():
            outs = [f(A, **kw)]
            for _ in range(steps - 1):
                outs.append(f(outs[-1][1], **({"comp": kw["comp"]} if "comp" in kw else {})))
            return outs

        def check(k, out):
            need(k == "ok", "unexpected-error", "%s: %s", what, err(out) if k == "raise" else "")
            now = a[lo_:hi_ + 1]
            for i, (flag, arr) in enumerate(out):
                ranks = [RANK[comp](x) for x in now]
                idx, ok = step_perm(ranks, way == "next")
                got = listed(arr)
                back = {MAKE[elem](x): x for x in now}
                need(sorted(got) == sorted(MAKE[elem](x) for x in now), "not-a-permutation",
                     "%s, step %d: %s is no permutation of %s", what, i + 1, got, now)
                need([RANK[comp](back[g]) for g in got] == [ranks[j] for j in idx],
                     "wrong-permutation", "%s, step %d: %s follows %s instead of %s", what, i + 1,
                     got, now, [now[j] for j in idx])
                need(flag is ok, "wrong-answer", "%s, step %d: answered %s", what, i + 1, flag)
                if not ok:
                    env.probe("wrapped")
                if len(set(now)) < len(now):
                    env.probe("ties")
                now = [back[g] for g in got]
            need(listed(A) == [MAKE[elem](x) for x in a], "argument-modified",
                 "%s: the array is now %s", what, listed(A))
            env.probe(way)
            if steps > 1:
                env.probe("walk")
            if cpp:
                env.probe("cpp_array")
        return what, call, check
    if job[0] == "lcs":
        _, _, elem, cpp, a, b = job
        A, B = array(job, a), array(job, b)
        what = "longest_common_subsequence of %s %s and %s" % (elem, a, b)
        best = [[0] * (len(b) + 1) for _ in range(len(a) + 1)]
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                best[i + 1][j + 1] = best[i][j] + 1 if x == y else max(best[i][j + 1],
                                                                      best[i + 1][j])

        def check(k, out):
            need(k == "ok", "unexpected-error", "%s: %s", what, err(out) if k == "raise" else "")
            got = listed(out)
            need(inside(got, listed(A)) and inside(got, listed(B)), "not-a-subsequence",
                 "%s: %s", what, got)
            need(len(got) == best[-1][-1], "not-longest", "%s: %s has %d elements instead of %d",
                 what, got, len(got), best[-1][-1])
            need(listed(A) == [MAKE[elem](x) for x in a] and
                 listed(B) == [MAKE[elem](x) for x in b], "argument-modified",
                 "%s: the arrays are now %s, %s", what, listed(A), listed(B))
            env.probe("lcs")
            if not a or not b:
                env.probe("empty")
        return what, lambda: p.longest_common_subsequence(A, B), check
    _, _, elem, cpp, a = job
    A = array(job, a)
    what = "longest_increasing_subsequence of %s %s" % (elem, a)
    top = []
    for i, x in enumerate(a):
        top.append(1 + max([t for t, y in zip(top, a) if y < x] or [0]))

    def check(k, out):
        need(k == "ok", "unexpected-error", "%s: %s", what, err(out) if k == "raise" else "")
        got = listed(out)
        need(inside(got, listed(A)), "not-a-subsequence", "%s: %s", what, got)
        need(all(x < y for x, y in zip(got, got[1:])), "not-increasing", "%s: %s", what, got)
        need(len(got) == max(top or [0]), "not-longest", "%s: %s has %d elements instead of %d",
             what, got, len(got), max(top or [0]))
        need(listed(A) == [MAKE[elem](x) for x in a], "argument-modified",
             "%s: the array is now %s", what, listed(A))
        env.probe("lis")
    return what, lambda: p.longest_increasing_subsequence(A), check


def inside(sub, seq):
    it = iter(seq)
    return all(any(x == y for y in it) for x in sub)


def run(case, env):
    from pydatastructs.linear_data_structures.arrays import OneDimensionalArray
    todo = [j for j in (job_of(j, env) for j in case["jobs"]) if j]
    if not todo:
        return
    Ctl.on, Ctl.at, Ctl.n, Ctl.fired, Ctl.env = False, set(case["at"]), 0, 0, env
    faults = (InjectedError, InjectedMemoryError)
    try:
        with AllocFault(env, [OneDimensionalArray], case["alloc_at"]) as af:
            if case["scheds"]:
                env.probe("callers")
                env.nops += len(todo)
                Ctl.on = af.armed = True
                try:
                    outs = run_threads(env, case["scheds"][0], [j[1] for j in todo[:3]])
                finally:
                    Ctl.on = af.armed = False
                failed = 0
                for (what, _, check), (k, out) in zip(todo, outs):
                    env.ev(what, k, err(out) if k == "raise" else "")
                    if k == "raise" and isinstance(out, faults):
                        failed += 1
                    else:
                        check(k, out)
                need(failed == Ctl.fired + af.fired, "fault-swallowed",
                     "%d operations failed, %d callers were told", Ctl.fired + af.fired, failed)
                return
            for what, fn, check in todo:
                f0 = Ctl.fired + af.fired
                env.nops += 1
                Ctl.on = af.armed = True
                try:
                    k, out = "ok", fn()
                except Exception as e:
                    k, out = "raise", e
                finally:
                    Ctl.on = af.armed = False
                env.ev(what, k, err(out) if k == "raise" else "")
                if Ctl.fired + af.fired - f0:
                    need(k == "raise" and isinstance(out, faults), "fault-swallowed",
                         "%s: injected failure, but got %s", what,
                         err(out) if k == "raise" else show(out))
                    out = None
                    Ctl.at, af.at = set(), set()        # the same call again, undisturbed
                    try:
                        k, out = "ok", fn()
                    except Exception as e:
                        k, out = "raise", e
                check(k, out)
    finally:
        Ctl.on, Ctl.env = False, None
