"""P13: searches, bounds and order checks under failing comparisons and from
several caller threads on one array."""
from core import need, truth, bad_answer, CallFault, InjectedError, pick_faults, gen_sched
from scen.common import err, run_threads, show, size
from simthread import SCHED

META = {
    "truth": True,
    "rule": "A run draws an array (Python or C++, static or dynamic) holding ordered elements with "
            "ties and a history of 1..12 searches (linear, binary, jump, lower and upper bound) "
            "and order checks on drawn sub-ranges, ascending or descending, for present and "
            "absent values, made by one thread or by several threads on the same array; in half "
            "of the runs a drawn comparator call or element comparison raises.",
    "quick_runs": 60000, "block": 1000, "quick_wall": 240, "thorough_wall": 400,
    "real": ["linear, binary and jump search, lower and upper bound, is_ordered; C++ linear, "
             "binary and jump search and is_ordered"],
    "stub": ["comparators and element comparisons (can fail on demand)",
             "_thread when there are several callers"],
    "must_probe": ["callback_raise", "comparison_failed", "callers", "found", "absent", "empty", "coarse_order",
                   "cpp"],
}
ALGS = ["linear", "binary", "jump", "lower", "upper", "ordered"]
CPP = ["linear", "binary", "jump", "ordered"]


class V(object):
    """An element whose comparisons go through the simulator."""
    ctl = None
    __slots__ = ["v"]

    def __init__(self, v):
        self.v = v.v if isinstance(v, V) else v

    def _hit(self, answer):
        c = V.ctl
        if SCHED.active:
            SCHED.point()
        if c["on"]:
            c["n"] += 1
            if c["n"] in c["at"]:
                def fail(n=c["n"]):
                    c["fired"] += 1
                    c["env"].fault("comparison_failed")
                    raise InjectedError(n)
                return bad_answer(fail)
        return truth(answer)

    def __lt__(self, o):
        return self._hit(self.v < o.v)

    def __le__(self, o):
        return self._hit(self.v <= o.v)

    def __gt__(self, o):
        return self._hit(self.v > o.v)

    def __ge__(self, o):
        return self._hit(self.v >= o.v)

    def __eq__(self, o):
        if not isinstance(o, V):
            return False
        return self._hit(self.v == o.v)

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return "V%s" % self.v


def gen(rng, tier):
    n = size(rng, [0, 1, 2, 3, 4, 5, 7, 9, 16, 25, 40], (41, 400))
    cpp = rng.random() < .45
    kind = rng.choice(["oda", "oda", "doda"])
    uni = rng.choice([1, 3, 10, 50, 50 + n])
    data = sorted(rng.randrange(uni) * 2 for _ in range(n))
    desc = rng.random() < .4
    ops = []
    for _ in range(rng.choice([1, 3, 6, 12])):
        alg = rng.choice(CPP if cpp and rng.random() < .9 else ALGS)
        lo = hi = None
        if n and rng.random() < .6:
            lo = rng.randrange(n)
            hi = rng.randrange(lo, n)
            if rng.random() < .15:
                hi = lo - 1 if lo else lo
        v = rng.choice([rng.randrange(-1, 2 * uni + 1), rng.choice(data) if data else 0])
        ops.append([alg, lo, hi, v, int(rng.random() < .7), rng.randrange(2), rng.random() < .25])
    case = {"cpp": cpp, "kind": kind, "elem": rng.choice(["int", "V", "V"]), "data": data,
            "desc": desc, "swap": [], "ops": ops, "holes": [], "raise_at": [], "cmp_at": [],
            "scheds": []}
    if rng.random() < .4 and n > 1:
        case["swap"] = [rng.randrange(n), rng.randrange(n)]
    if rng.random() < .3 and n > 1:
        case["holes"] = [rng.randrange(n) for _ in range(rng.choice([1, 2, 4]))]
    if rng.random() < .5:
        k = max(2, 3 * len(ops))
        case["raise_at"] = pick_faults(rng, 1, k, rng.choice([1, 1, 3]))
        case["cmp_at"] = pick_faults(rng, 1, k, rng.choice([1, 1, 3]))
    if rng.random() < .15:
        case["raise_at"], case["cmp_at"] = [], []
        case["scheds"] = [gen_sched(rng)]
        case["ops"] = ops[:4]
        case["data"] = data[:16]
        case["swap"] = case["holes"] = []
        for o in ops:
            if o[2] is not None and o[2] >= 16:
                o[1] = o[2] = None
    return case


def run(case, env):
    import pydatastructs as pds
    from pydatastructs import OneDimensionalArray, DynamicOneDimensionalArray
    from pydatastructs.utils.misc_util import Backend
    V.ctl = ctl = {"on": False, "at": set(case["cmp_at"]), "n": 0, "env": env, "fired": 0}
    T = {"int": int, "V": V}[case["elem"]]
    val = (lambda x: x) if T is int else (lambda x: x.v)
    desc = bool(case["desc"])
    data = sorted(case["data"], reverse=desc)
    n = len(data)
    bk = {"backend": Backend.CPP} if case["cpp"] else {}
    fns = {"linear": pds.linear_search, "binary": pds.binary_search, "jump": pds.jump_search,
           "lower": pds.lower_bound, "upper": pds.upper_bound, "ordered": pds.is_ordered}

    def build(xs):
        xs = [T(x) for x in xs]
        if case["kind"] == "doda":
            a = DynamicOneDimensionalArray(T, xs, **bk)
            if n > 2:
                a.append(T(1000))          # leaves spare capacity behind the range
        else:
            a = OneDimensionalArray(T, xs, **bk)
        return a
    a = build(data)
    messy = list(data)
    if len(case["swap"]) == 2 and max(case["swap"]) < n:
        i, j = case["swap"]
        messy[i], messy[j] = messy[j], messy[i]
    m = build(messy)
    for h in case["holes"]:
        if h < n:
            m[h] = None
            messy[h] = None

    def comp_of(alg, strict):
        if alg in ("lower", "upper"):
            if strict:
                # an order in which different values are equal
                env.probe("coarse_order")
                return (lambda u, v: val(u) // 4 > val(v) // 4) if desc else \
                    (lambda u, v: val(u) // 4 < val(v) // 4)
            strict = True
        if desc:
            return (lambda u, v: u > v) if strict else (lambda u, v: u >= v)
        return (lambda u, v: u < v) if strict else (lambda u, v: u <= v)

    def one(op, cf, ctlon=None):
        alg, lo, hi, v, custom, strict, use_cpp = op
        arr = m if alg == "ordered" else a
        kw = {}
        if lo is None:                       # the whole of the filled part
            if alg in ("lower", "upper"):
                lo, hi = 0, n
            else:
                lo, hi = 0, n - 1
            if case["kind"] == "doda" or v % 3 == 0:
                kw = {"start": lo, "end": hi}
        else:
            if alg in ("lower", "upper"):
                hi += 1
            kw = {"start": lo, "end": hi}
        if kw and kw["end"] < 0:
            kw = {}
            if case["kind"] == "doda":
                return None
        if cf is not None:
            kw["comp"] = cf
        if case["cpp"] and alg in CPP:
            kw["backend"] = Backend.CPP
            env.probe("cpp")
        args = (arr,) if alg == "ordered" else (arr, T(v))
        return (lambda: fns[alg](*args, **kw)), lo, hi

    def prepare(op):
        alg, custom, strict = op[0], op[4], op[5]
        if alg not in ALGS:
            return None
        cf = None
        if alg != "linear" and (custom or desc):
            base = comp_of(alg, strict)

            def comp(u, v):
                if SCHED.active:
                    SCHED.point()
                return base(u, v)
            cf = CallFault(env, comp, truthy=True)
            cf.armed = False
        lo, hi = op[1], op[2]
        if lo is not None and not (0 <= lo <= hi + 1 and 0 <= hi < n):
            return None
        r = one(op, cf)
        return None if r is None else (op, cf) + r
    todo = [x for x in map(prepare, case["ops"]) if x]
    before = snapshot(a), snapshot(m)
    if case["scheds"]:
        env.probe("callers")
        outs = run_threads(env, case["scheds"][0], [t[2] for t in todo[:4]])
        for t, (k, out) in zip(todo, outs):
            judge(env, case, t, data, messy, k, out, 0, desc)
    else:
        counter = [0]
        for t in todo:
            op, cf = t[0], t[1]
            if cf is not None:
                cf.n = counter[0]
                cf.at = set(case["raise_at"])
                cf.armed = True
            f0 = ctl["fired"]
            ctl["on"] = True
            env.nops += 1
            try:
                k, out = "ok", t[2]()
            except Exception as e:
                k, out = "raise", e
            finally:
                ctl["on"] = False
                if cf is not None:
                    cf.armed = False
                    counter[0] = cf.n
            fired = ctl["fired"] - f0 + (cf.fired if cf else 0)
            judge(env, case, t, data, messy, k, out, fired, desc)
    ctl["on"] = False
    now = snapshot(a), snapshot(m)
    for b, x in zip(before, now):
        need(len(b) == len(x) and all(p is q for p, q in zip(b, x)), "array-changed",
             "the searched array was %s, is %s", show(b), show(x))


def snapshot(a):
    return [a[i] for i in range(len(a))]


def judge(env, case, t, data, messy, k, out, fired, desc):
    op, cf, _, lo, hi = t
    alg, v = op[0], op[3]
    what = "%s%s(%s%s, start=%s, end=%s, %s comp)" % (
        alg, " (cpp)" if case["cpp"] and alg in CPP else "",
        show(messy if alg == "ordered" else data), "" if alg == "ordered" else ", %s" % v, lo, hi,
        "default" if cf is None else
        "coarse" if op[5] and alg in ("lower", "upper") else "strict" if op[5] else "non-strict")
    env.ev(what, k, err(out) if k == "raise" else out)
    if fired:
        need(k == "raise", "error-swallowed", "%s: a comparison failed but the result is %s", what,
             show(out))
        need(isinstance(out, InjectedError) or case["cpp"] and isinstance(out, ValueError),
             "wrong-error", "%s: a comparison failed, the caller got %s", what, err(out))
        return
    need(k == "ok", "unexpected-error", "%s: %s", what, err(out) if k == "raise" else "")
    if lo > hi or lo == hi and alg in ("lower", "upper"):
        env.probe("empty")
    if alg == "ordered":
        seg = [x for x in messy[lo:hi + 1] if x is not None]
        asc = cf is None or not desc
        want = all(x <= y if asc else x >= y for x, y in zip(seg, seg[1:]))
        need(out is want, "wrong-order-check", "%s: is %s, should be %s", what, out, want)
        return
    if alg in ("lower", "upper"):
        seg = data[lo:hi]
        if cf is not None and op[5]:
            seg, v = [x // 4 for x in seg], v // 4
        if desc and cf is not None:
            skip = (lambda x: x > v) if alg == "lower" else (lambda x: x >= v)
        else:
            skip = (lambda x: x < v) if alg == "lower" else (lambda x: x <= v)
        want = lo + sum(1 for x in seg if skip(x))
        need(out == want, "wrong-bound", "%s: is %s, should be %s", what, out, want)
        return
    hits = [i for i in range(lo, hi + 1) if data[i] == v]
    if not hits:
        env.probe("absent")
        need(out is None, "found-absent", "%s: found at %s", what, out)
    else:
        env.probe("found")
        if alg == "linear":
            need(out == hits[0], "wrong-index", "%s: is %s, should be %s", what, out, hits[0])
        else:
            need(out in hits, "not-found", "%s: is %s, should be one of %s", what, out, show(hits))
