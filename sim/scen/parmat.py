"""P02: parallel matrix product under every schedule, failing element arithmetic
and failing thread starts."""
from fractions import Fraction

from core import need, InjectedError, pick_faults, gen_sched
from scen.common import err, run_threads, show, size
from simthread import SCHED, START_FAILURE

META = {
    "rule": "A run draws one or two products (shapes 1..6, non-square and mismatched included, "
            "int/Fraction/object elements, list or tuple rows), a worker count, a scheduling "
            "policy and, in half of the runs, an element whose multiplication or addition raises "
            "or thread starts that fail.",
    "quick_runs": 8000, "block": 200, "quick_wall": 200, "thorough_wall": 300,
    "real": ["matrix_multiply_parallel", "concurrent.futures.ThreadPoolExecutor, queue, threading "
             "of CPython on top of the simulated _thread"],
    "stub": ["_thread (locks, thread start, thread choice)"],
    "must_probe": ["callback_raise", "thread_start_failed", "shape_mismatch", "non_square"],
}


class Num(object):
    """A ring element whose operations are scheduling points and can fail."""
    ctl = None

    def __init__(self, v):
        self.v = v

    def _tick(self):
        c = Num.ctl
        if SCHED.active:
            SCHED.point()
        c["n"] += 1
        if c["n"] in c["at"]:
            c["fired"] += 1
            c["env"].fault("callback_raise")
            raise InjectedError(c["n"])

    def __mul__(self, o):
        self._tick()
        return Num(self.v * o.v)

    def __add__(self, o):
        self._tick()
        return Num(self.v + (o.v if isinstance(o, Num) else o))

    __radd__ = __add__

    def __repr__(self):
        return "N%s" % self.v


def gen_one(rng):
    r, k, c = (size(rng, [1, 1, 2, 2, 3, 4, 6], (7, 20), .02) for _ in range(3))
    k2 = k if rng.random() < .92 else rng.choice([1, 2, 3, 5])
    typ = rng.choice(["int", "int", "frac", "obj", "obj"])
    v = lambda: rng.randrange(-9, 10)
    return {"typ": typ, "a": [[v() for _ in range(k)] for _ in range(r)],
            "b": [[v() for _ in range(c)] for _ in range(k2)],
            "tup": rng.random() < .3, "threads": rng.choice([1, 2, 3, 4, 8])}


def gen(rng, tier):
    jobs = [gen_one(rng)]
    if rng.random() < .2:
        jobs.append(gen_one(rng))
    faulty = rng.random() < .5
    sf = faulty and rng.random() < .4
    at = []
    if faulty and not sf:
        for j in jobs:
            j["typ"] = "obj"
        j = jobs[0]
        at = pick_faults(rng, 1, max(2, len(j["a"]) * len(j["b"]) * len(j["b"][0]) * 2))
    return {"jobs": jobs, "at": at, "scheds": [gen_sched(rng, start_fail=sf)]}


def run(case, env):
    from pydatastructs import matrix_multiply_parallel
    conv = {"int": int, "frac": lambda x: Fraction(x, 3), "obj": Num}
    Num.ctl = {"n": 0, "at": set(case["at"]), "fired": 0, "env": env}
    bodies, mats = [], []
    for job in case["jobs"]:
        if not job["a"] or not job["b"] or not job["a"][0] or not job["b"][0] or \
                len(set(map(len, job["a"]))) > 1 or len(set(map(len, job["b"]))) > 1 or \
                job["threads"] < 1:
            return
        f = conv[job["typ"]]
        w = tuple if job["tup"] else list
        A = w(w(f(x) for x in row) for row in job["a"])
        B = w(w(f(x) for x in row) for row in job["b"])
        mats.append((A, B))
        bodies.append(lambda A=A, B=B, t=job["threads"]: matrix_multiply_parallel(A, B, t))
        env.ev("job", job["typ"], job["a"], job["b"], job["threads"])
    env.nops += len(bodies)
    if len(bodies) == 1:
        outs = [env.simulate(case["scheds"][0], bodies[0])]
    else:
        env.probe("two_callers")
        outs = run_threads(env, case["scheds"][0], bodies)
    sf = SCHED.start_failures
    fired = Num.ctl["fired"]
    plain = lambda M: [[getattr(x, "v", x) for x in row] for row in M]
    for job, (A, B), (kind, val) in zip(case["jobs"], mats, outs):
        r, k, k2, c = len(job["a"]), len(job["a"][0]), len(job["b"]), len(job["b"][0])
        what = "%dx%d times %dx%d (%s, %d workers)" % (r, k, k2, c, job["typ"], job["threads"])
        f = {"int": int, "frac": lambda x: Fraction(x, 3), "obj": lambda x: x}[job["typ"]]
        a = [[f(x) for x in row] for row in job["a"]]
        b = [[f(x) for x in row] for row in job["b"]]
        env.ev("out", kind, err(val) if kind == "raise" else show(plain(val)))
        need(plain(A) == a and plain(B) == b, "input-modified", "%s: an operand changed", what)
        if k != k2:
            env.probe("shape_mismatch")
            need(kind == "raise" and isinstance(val, ValueError), "mismatch-accepted",
                 "%s: expected ValueError, got %s", what, err(val) if kind == "raise" else show(val))
            continue
        if r != k or k != c:
            env.probe("non_square")
        if kind == "raise":
            ok = (fired and isinstance(val, InjectedError)) or \
                (sf and isinstance(val, RuntimeError) and START_FAILURE in str(val))
            need(ok, "unexpected-error", "%s: raised %s", what, err(val))
            env.probe("error_reached_caller")
            continue
        if len(bodies) == 1:
            need(not fired, "error-swallowed", "%s: arithmetic raised, call returned %s",
                 what, show(val))
        want = [[sum(a[i][t] * b[t][j] for t in range(k)) for j in range(c)] for i in range(r)]
        need(plain(val) == want, "wrong-product", "%s: got %s, expected %s", what,
             show(plain(val)), show(want))
        env.probe("product_ok")
    if env.max_alive > 2:
        env.probe("more_than_one_worker")
