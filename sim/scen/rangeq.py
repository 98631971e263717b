"""P16: range queries, sparse tables, segment trees and Fenwick trees against a plain list."""
import math

from core import need, gen_sched, pick_faults, AllocFault, CallFault, InjectedError, \
    InjectedMemoryError
from scen.common import err, run_threads, show, size
from scen.graphalgs import W

META = {
    "rule": "A run draws an array (or a set of intervals), a structure answering queries on it, an "
            "associative function (not always commutative) and a history of builds, queries and "
            "updates, also outside the array; drawn calls of the function, operations on elements "
            "or allocations fail, also while the structure is built; afterwards several threads "
            "may query (and build) the structure at the same time.",
    "quick_runs": 40000, "block": 400, "quick_wall": 200, "thorough_wall": 500,
    "real": ["RangeQueryStatic, RangeQueryDynamic, SparseTable, ArraySegmentTree, "
             "OneDimensionalSegmentTree, BinaryIndexedTree (Python and C++)",
             "CPython's threading on the simulated _thread"],
    "stub": ["the query function, arithmetic and comparison of elements, allocation of tree and "
             "stack nodes and arrays (can fail on demand)", "_thread"],
    "must_probe": ["callback_raise", "allocation_failed", "arithmetic_failed", "callers",
                   "static_array", "static_sparse", "dynamic_array", "dynamic_segment", "sparse",
                   "segment", "fenwick", "cpp_fenwick", "intervals", "failed_update",
                   "failed_build", "retried", "refused", "concurrent_build", "update"],
}
KINDS = ["static_array", "static_sparse", "dynamic_array", "dynamic_segment", "sparse", "segment",
         "segment", "dynamic_segment", "fenwick", "fenwick", "cpp_fenwick", "intervals",
         "intervals"]
FUNCS = ["minimum", "greatest_common_divisor", "summation", "leftmost", "rightmost", "maximum"]


def gen(rng, tier):
    kind = rng.choice(KINDS)
    n = size(rng, [1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17], (18, 140))
    lim = rng.choice([3, 20, 1000])
    if kind != "intervals" and rng.random() < .12:
        lim = rng.choice([2 ** 31, 2 ** 62, 2 ** 63 - 1])
    vals = [rng.randrange(-lim, lim + 1) for _ in range(n)]
    if kind == "intervals":
        vals = [[rng.randrange(-lim, lim + 1), rng.randrange(-lim, lim + 1),
                 rng.choice(["tuple", "tuple", "list", "set"])] for _ in range(min(n, 9 if n < 18 else 40))]
    ops = []
    for _ in range(rng.choice([0, 2, 6, 12])):
        ops.append(gen_op(rng, kind, n, lim))
    case = {"kind": kind, "vals": vals, "ops": ops, "par": [], "scheds": [],
            "func": rng.choice(FUNCS), "func_at": [], "alloc_at": [], "arith_at": [],
            "container": rng.choice(["list", "list", "tuple"]), "lim": lim}
    r = rng.random()
    if r < .2 and kind not in ("fenwick", "cpp_fenwick", "intervals"):
        case["func_at"] = pick_faults(rng, 1, rng.choice([4, 20, 60]), rng.choice([1, 1, 2]))
    elif r < .4 and kind in ("fenwick", "intervals"):
        case["arith_at"] = pick_faults(rng, 1, rng.choice([4, 20, 60]), rng.choice([1, 1, 2]))
    elif r < .5:
        case["alloc_at"] = pick_faults(rng, 1, rng.choice([3, 12, 40]), rng.choice([1, 1, 2]))
    if rng.random() < .3:
        case["par"] = [[gen_op(rng, kind, n, lim, True) for _ in range(rng.choice([1, 2, 3]))]
                       for _ in range(rng.choice([2, 2, 3]))]
        case["scheds"] = [gen_sched(rng, horizon=1500)]
    return case


def gen_op(rng, kind, n, lim, read=False):
    r = rng.random()
    if kind == "intervals":
        if r < .1:
            return ["build"]
        return ["q", rng.randrange(-2 * lim - 2, 2 * lim + 3) / 2.0 if r < .5 else
                rng.randrange(-lim - 1, lim + 2)]
    if kind == "segment" and r < .15:
        return ["build"]
    if not read and r < .5 and kind in ("dynamic_array", "dynamic_segment", "segment", "fenwick",
                                        "cpp_fenwick"):
        i = rng.randrange(n) if rng.random() < .9 else rng.choice([-1, -n, n, n + 1, n + 5, -n - 1])
        return ["u", i, rng.randrange(-lim, lim + 1)]
    a, b = rng.randrange(n), rng.randrange(n)
    if rng.random() < .1:
        return ["q", rng.choice([a, -1, n]), rng.choice([b, n, n + 1, -1])]
    return ["q", min(a, b), max(a, b)]


def first(t):
    xs = [x for x in t if x is not None]
    return xs[0] if xs else None


def last(t):
    xs = [x for x in t if x is not None]
    return xs[-1] if xs else None


def biggest(t):
    xs = [x for x in t if x is not None]
    return max(xs) if xs else None


def fold(f, xs):
    if f == "minimum":
        return min(xs)
    if f == "maximum":
        return max(xs)
    if f == "summation":
        return sum(xs)
    if f == "leftmost":
        return xs[0]
    if f == "rightmost":
        return xs[-1]
    if len(xs) == 1:
        return xs[0]
    return math.gcd(*xs)


def run(case, env):
    if case["kind"] == "intervals":
        run_intervals(case, env)
    else:
        run_array(case, env)


class Ctl(object):
    """All the ways in which an operation of this run can fail."""

    def __init__(self, case, env, classes, fn=None):
        W.ctl = self.arith = {"on": False, "at": set(case["arith_at"]), "n": 0, "env": env,
                              "fired": 0}
        self.alloc = AllocFault(env, classes, case["alloc_at"])
        self.fn = CallFault(env, fn, case["func_at"])
        self.fn.armed = False

    def arm(self, on):
        self.arith["on"] = self.alloc.armed = self.fn.armed = on

    def fired(self):
        return self.arith["fired"] + self.alloc.fired + self.fn.fired

    def do(self, f):
        n = self.fired()
        self.arm(True)
        try:
            k, v = "ok", f()
        except Exception as e:
            k, v = "raise", e
        finally:
            self.arm(False)
        return k, v, self.fired() - n


def injected(e):
    return isinstance(e, (InjectedError, InjectedMemoryError))


def run_array(case, env):
    import pydatastructs as p
    from pydatastructs.utils.misc_util import LinkedListNode, TreeNode, Backend
    kind, fname = case["kind"], case["func"]
    vals = list(case["vals"])
    n = len(vals)
    if not n:
        return
    fn = {"leftmost": first, "rightmost": last, "maximum": biggest}.get(fname) or \
        getattr(p, fname)
    fen = kind in ("fenwick", "cpp_fenwick")
    if fname == "greatest_common_divisor" and not fen:
        vals = [abs(v) for v in vals]
    if fen:
        fname = "summation"
    conv = W if kind == "fenwick" else int
    arr = None if fen else p.OneDimensionalArray(int, list(vals))
    what0 = "%s/%s of %s" % (kind, fname, show(vals))
    ctl = Ctl(case, env, [LinkedListNode, TreeNode, p.OneDimensionalArray], fn)
    try:
        make = {
            "static_array": lambda: p.RangeQueryStatic(arr, ctl.fn, "array"),
            "static_sparse": lambda: p.RangeQueryStatic(arr, ctl.fn),
            "dynamic_array": lambda: p.RangeQueryDynamic(arr, ctl.fn, "array"),
            "dynamic_segment": lambda: p.RangeQueryDynamic(arr, ctl.fn),
            "sparse": lambda: p.SparseTable(arr, ctl.fn),
            "segment": lambda: p.ArraySegmentTree(arr, ctl.fn),
            "fenwick": lambda: p.BinaryIndexedTree([conv(v) for v in vals]),
            "cpp_fenwick": lambda: p.BinaryIndexedTree(list(vals), backend=Backend.CPP),
        }[kind]
        S = None
        for _ in range(4):
            env.nops += 1
            k, v, fired = ctl.do(make)
            if k == "ok":
                need(not fired, "fault-swallowed", "%s: construction succeeded although something "
                     "failed", what0)
                S = v
                break
            need(fired and injected(v), "unexpected-error", "%s: construction: %s", what0, err(v))
            env.probe("failed_build")
        if S is None:
            return
        st = {"built": kind != "segment"}
        query = (lambda a, b: S.get_sum(a, b)) if fen else (lambda a, b: S.query(a, b))

        def check(what):
            if arr is not None:
                got = [arr[i] for i in range(n)]
                need(got == vals, "array-modified", "%s: array is %s, should be %s", what, got, vals)
            if not st["built"]:
                return
            for a in range(n):
                for b in range(a, n):
                    if n > 8 and (a * 7 + b * 3 + env.nops) % 5:
                        continue
                    got = query(a, b)
                    want = fold(fname, vals[a:b + 1])
                    need(got == want, "wrong-answer", "%s: query(%d, %d) of %s is %s instead of %s",
                         what, a, b, show(vals), show(got), want)
            if fen:
                for a in range(n):
                    got = S.get_prefix_sum(a)
                    need(got == sum(vals[:a + 1]), "wrong-answer", "%s: prefix sum %d is %s", what,
                         a, got)
        check("construction of " + what0)
        hist = []
        for op in case["ops"]:
            hist.append(op)
            env.nops += 1
            what = "%s after %s of %s" % (op, show(hist[:-1]), what0)
            if op[0] == "build":
                if kind != "segment":
                    continue
                k, v, fired = ctl.do(S.build)
                outcome(k, v, fired, what, env)
                if k == "ok":
                    st["built"] = True
                    env.probe(kind)
                    if "failed" in st:
                        env.probe("retried")
                else:
                    st["failed"] = 1
                    env.probe("failed_build")
            elif op[0] == "u":
                if kind in ("static_array", "static_sparse", "sparse"):
                    continue
                _, i, x = op
                if fname == "greatest_common_divisor":
                    x = abs(x)
                k, v, fired = ctl.do(lambda: S.update(i, conv(x)))
                env.ev(op, k, err(v) if k == "raise" else "")
                if not st["built"]:
                    need(k == "raise" and isinstance(v, (ValueError, InjectedMemoryError)),
                         "update-before-build", "%s: got %s", what, show(v))
                elif -n <= i < 0 and k == "ok":
                    vals[i] = x                     # counted from the end
                elif not 0 <= i < n:
                    need(k == "raise" and (isinstance(v, IndexError) or fired and injected(v)),
                         "update-outside", "%s: position outside the array, got %s", what,
                         err(v) if k == "raise" else "a normal return")
                    env.probe("refused")
                elif k == "ok":
                    outcome(k, v, fired, what, env)
                    vals[i] = x
                    env.probe("update")
                else:
                    outcome(k, v, fired, what, env)
                    env.probe("failed_update")
                    now = S.get_sum(i, i) if fen else arr[i]
                    if now == x:
                        vals[i] = x                 # it was carried out before it failed
            else:
                _, a, b = op
                if not st["built"]:
                    k, v, fired = ctl.do(lambda: query(a, b))
                    need(k == "raise" and (isinstance(v, ValueError) or fired and injected(v)),
                         "query-before-build", "%s: got %s", what, show(v))
                    continue
                inside = 0 <= a <= b < n
                if not inside and kind in ("sparse", "segment"):
                    continue
                if not inside and fen and (b < n or a < 0):
                    continue
                k, v, fired = ctl.do(lambda: query(a, b))
                env.ev(op, k, err(v) if k == "raise" else v)
                if not inside:
                    need(k == "raise" and (isinstance(v, (IndexError, ValueError)) or
                                           fired and injected(v)),
                         "query-outside", "%s: range outside the array, got %s", what, show(v))
                    env.probe("refused")
                else:
                    outcome(k, v, fired, what, env)
                    if k == "ok":
                        want = fold(fname, vals[a:b + 1])
                        need(v == want, "wrong-answer", "%s: %s instead of %s", what, show(v), want)
                        env.probe(kind)
            check(what)
        if case["scheds"] and case["par"]:
            env.probe("callers")
            if not st["built"]:
                env.probe("concurrent_build")
                bodies = [lambda th=th: [S.build()] + [query(o[1], o[2]) for o in th
                                                       if good(o, n)] for th in case["par"]]
            else:
                bodies = [lambda th=th: [None] + [query(o[1], o[2]) for o in th if good(o, n)]
                          for th in case["par"]]
            for th, (k, v) in zip(case["par"], run_threads(env, case["scheds"][0], bodies)):
                need(k == "ok", "unexpected-error", "%s: simultaneous queries %s: %s", what0, th,
                     err(v) if k == "raise" else "")
                want = [fold(fname, vals[o[1]:o[2] + 1]) for o in th if good(o, n)]
                need(v[1:] == want, "wrong-answer", "%s: simultaneous queries %s gave %s instead "
                     "of %s", what0, th, show(v[1:]), want)
            st["built"] = True
            check("simultaneous queries of " + what0)
    finally:
        ctl.alloc.close()


def good(o, n):
    return o[0] == "q" and 0 <= o[1] <= o[2] < n


def outcome(k, v, fired, what, env):
    if fired:
        need(k == "raise" and injected(v), "fault-swallowed", "%s: something failed inside, but "
             "got %s", what, err(v) if k == "raise" else show(v))
    else:
        need(k == "ok", "unexpected-error", "%s: %s", what, err(v) if k == "raise" else "")


def run_intervals(case, env):
    import pydatastructs as p
    from pydatastructs.utils.misc_util import TreeNode
    segs = []
    want = []
    for a, b, form in case["vals"]:
        if form == "set" and a == b:
            form = "tuple"
        want.append((min(a, b), max(a, b)))
        a, b = W(a), W(b)
        segs.append({"tuple": (a, b), "list": [a, b], "set": {a, b}}[form])
    if not segs:
        return
    given = list(segs) if case["container"] == "list" else tuple(segs)
    copy = [type(s)(s) for s in segs]
    what0 = "intervals %s in a %s" % (show(case["vals"]), case["container"])
    ctl = Ctl(case, env, [TreeNode])
    try:
        S = None
        for _ in range(3):
            k, v, fired = ctl.do(lambda: p.OneDimensionalSegmentTree(given))
            outcome(k, v, fired, what0, env)
            if k == "ok":
                S = v
                break
        if S is None:
            return

        def answer(x):
            return sorted((int(t.key[1]), int(t.key[2])) for t in S.query(x))

        def ref(x):
            return sorted(s for s in want if s[0] <= x <= s[1])

        def look(what):
            need(list(given) == copy and all(type(a) is type(b) for a, b in zip(given, copy)),
                 "argument-modified", "%s: the caller's intervals became %s", what, show(given))
        look(what0)
        built = failed = False
        hist = []
        for op in case["ops"]:
            env.nops += 1
            hist.append(op)
            what = "%s after %s of %s" % (op, show(hist[:-1]), what0)
            if op[0] == "build":
                k, v, fired = ctl.do(S.build)
            else:
                k, v, fired = ctl.do(lambda: answer(op[1]))
            env.ev(op, k, err(v) if k == "raise" else v)
            outcome(k, v, fired, what, env)
            if k == "ok":
                built = True
                if failed:
                    env.probe("retried")
                if op[0] == "q":
                    need(v == ref(op[1]), "wrong-answer", "%s: %s instead of %s", what, v,
                         ref(op[1]))
                    env.probe("intervals")
            else:
                failed = True
                if not built:
                    env.probe("failed_build")
            look(what)
        points = sorted(set(x + d for s in want for x in s for d in (-.5, 0, .5)))[:40]
        if case["scheds"] and case["par"]:
            env.probe("callers")
            if not built:
                env.probe("concurrent_build")
            bodies = [lambda th=th: [S.build() if o[0] == "build" else answer(o[1]) for o in th]
                      for th in case["par"]]
            for th, (k, v) in zip(case["par"], run_threads(env, case["scheds"][0], bodies)):
                need(k == "ok", "unexpected-error", "%s: simultaneous queries %s: %s", what0, th,
                     err(v) if k == "raise" else "")
                exp = [None if o[0] == "build" else ref(o[1]) for o in th]
                need(v == exp, "wrong-answer", "%s: simultaneous queries %s gave %s instead of %s",
                     what0, th, show(v), show(exp))
        for x in points:
            got = answer(x)
            need(got == ref(x), "wrong-answer", "%s: after %s query(%s) is %s instead of %s",
                 what0, show(hist), x, got, ref(x))
        look("queries of " + what0)
    finally:
        ctl.alloc.close()
