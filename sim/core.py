"""Shared pieces of the simulator: violations, fault injectors, the per-run
environment (event log, probes, fault counters) and run bookkeeping."""
import hashlib
import sys

import simthread
from simthread import SCHED


class Violation(Exception):
    """A property is broken.  `cls` is the violation class that minimisation
    preserves and that known findings are matched on."""

    def __init__(self, cls, msg):
        Exception.__init__(self, cls, msg)
        self.cls = cls
        self.msg = msg


class InjectedError(Exception):
    """Raised by caller-supplied code (comparator, visitor, ...) on purpose."""

    def __init__(self, n):
        Exception.__init__(self, "injected failure #%d" % n)
        self.n = n


class InjectedMemoryError(MemoryError):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


def need(cond, cls, msg, *args):
    if not cond:
        raise Violation(cls, msg % args if args else msg)


class Env(object):
    """State of one simulated run."""

    def __init__(self, record=False):
        self.h = hashlib.blake2b(digest_size=16)
        self.faults = {}
        self.probes = {}
        self.record = record
        self.lines = []
        self.steps = 0
        self.switches = 0
        self.inflight = 0
        self.sched_sig = hashlib.blake2b(digest_size=8)
        self.script = None
        self.nontrivial = False
        self.nops = 0
        self.max_alive = 1
        self.sched_trace = []

    def ev(self, *items):
        s = repr(items)
        self.h.update(s.encode("utf-8", "backslashreplace"))
        if self.record and len(self.lines) < 4000:
            self.lines.append(s if len(s) < 400 else s[:400] + "...")

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True
        self.ev("fault", kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # -- running something under the scheduler -----------------------------
    def simulate(self, cfg, fn, trace=True):
        """Run fn() under the simulated scheduler with the given schedule.
        Returns (kind, value) with kind 'ok' or 'raise'."""
        sched = dict(cfg)
        if self.record and "script_list" in sched:
            pass
        reset_run = RESET[0]
        if reset_run:
            reset_run()
        SCHED.reset(sched)
        SCHED.begin()
        try:
            try:
                out = ("ok", fn())
            except Exception as e:
                out = ("raise", e)
            except KeyboardInterrupt as e:
                out = ("raise", e)
            sys.settrace(None)
            alive = sum(1 for t in SCHED.threads[1:] if t.state != "done")
            if alive:
                SCHED.drain()
        finally:
            left = SCHED.end()
        self.steps += SCHED.step
        self.switches += SCHED.nswitch
        self.inflight += SCHED.inflight_switch
        self.max_alive = max(self.max_alive, SCHED.max_alive)
        if SCHED.start_failures:
            self.fault("thread_start_failed", SCHED.start_failures)
        self.sched_trace.append(SCHED.switches)
        self.sched_sig.update(repr([t for _, t in SCHED.switches]).encode())
        self.ev("sched", SCHED.step, SCHED.nswitch, len(SCHED.threads))
        self.alive_after = alive
        self.left = left
        if alive:
            raise Violation("background-work",
                            "%d worker thread(s) still alive after the call ended" % alive)
        return out


RESET = [None]


# ---------------------------------------------------------------------------
# fault injectors
# ---------------------------------------------------------------------------
class Truth(object):
    """An answer which is true or false without being a bool, like those of many
    comparison operators and predicates."""
    how = None                               # None, "int" or "object", for the whole run

    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return self.v

    def __repr__(self):
        return "Truth(%s)" % self.v


def truth(x):
    if Truth.how is None or type(x) is not bool:
        return x
    return int(x) if Truth.how == "int" else Truth(x)


class BadAnswer(object):
    """An answer which fails when it is asked whether it is true."""

    def __init__(self, fail):
        self.fail = fail

    def __bool__(self):
        self.fail()


def bad_answer(fail):
    """The failure of a call whose answer is used for its truth: in runs whose answers
    are objects, the answer fails instead of the call."""
    return BadAnswer(fail) if Truth.how == "object" else fail()


class CallFault(object):
    """Wraps a caller-supplied function; `at` lists the call ordinals that
    raise.  Counting can be switched off while the oracle itself looks."""

    def __init__(self, env, fn, at=(), kind="callback_raise", ret=None, truthy=False):
        self.env = env
        self.truthy = truthy
        self.fn = fn
        self.at = set(at)
        self.n = 0
        self.armed = True
        self.kind = kind
        self.fired = 0
        self.ret = ret

    def __call__(self, *a, **k):
        if self.armed:
            self.n += 1
            if self.n in self.at:
                def fail(n=self.n):
                    self.fired += 1
                    self.env.fault(self.kind)
                    raise InjectedError(n)
                return bad_answer(fail) if self.truthy else fail()
        return truth(self.fn(*a, **k))


class AllocFault(object):
    """Makes the k-th construction of one of the given classes fail with
    MemoryError (k in `at`).  The seam is the class object's __new__, so it does
    not matter who constructs it or under what name."""

    def __init__(self, env, classes, at=()):
        self.env = env
        self.at = set(at)
        self.n = 0
        self.armed = False
        self.fired = 0
        self.saved = []
        for c in classes:
            self._patch(c)

    def _patch(self, cls):
        had = "__new__" in cls.__dict__
        orig = cls.__dict__.get("__new__")
        base = cls.__new__
        me = self

        def __new__(klass, *a, **k):
            if me.armed:
                me.n += 1
                if me.n in me.at:
                    me.fired += 1
                    me.env.fault("allocation_failed")
                    raise InjectedMemoryError("injected: cannot allocate %s" % klass.__name__)
            if base is object.__new__:
                return object.__new__(klass)
            return base(klass, *a, **k)
        cls.__new__ = staticmethod(__new__)
        self.saved.append((cls, had, orig))

    def close(self):
        for cls, had, orig in reversed(self.saved):
            if had:
                cls.__new__ = orig
            else:
                del cls.__new__
        self.saved = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def pick_faults(rng, lo, hi, n=1):
    """n distinct fault ordinals, biased to the beginning of [lo, hi]."""
    out = set()
    for _ in range(n):
        span = hi - lo + 1
        if rng.random() < 0.5:
            span = max(1, span // 4)
        out.add(lo + rng.randrange(span))
    return sorted(out)


def gen_sched(rng, horizon=2000, start_fail=False, gran=None):
    """Swarm: every run draws its own scheduling policy."""
    g = gran or rng.choice(["lock", "lock", "line", "line", "line", "op"])
    cfg = {"seed": rng.randrange(1 << 30), "gran": g}
    if rng.random() < 0.3:
        cfg["mode"] = "pct"
        cfg["d"] = rng.choice([1, 2, 3, 5, 10])
        cfg["horizon"] = horizon * (4 if g == "op" else 1)
    else:
        cfg["mode"] = "random"
        cfg["p"] = rng.choice([0.005, 0.02, 0.1, 0.3, 0.7] if g != "op"
                              else [0.002, 0.01, 0.05])
    if start_fail:
        cfg["start_fail"] = sorted(set(rng.randrange(1, 6)
                                       for _ in range(rng.choice([1, 1, 2]))))
    return cfg


class RandomSeam(object):
    """Every draw the code under test makes from `random` comes from here."""
    NAMES = ("random", "getrandbits", "randint", "randrange", "choice", "uniform")

    def __init__(self, env, mode, seed):
        import random
        self.m = random
        self.env = env
        self.mode = mode
        self.r = random.Random(seed)
        self.n = 0
        self.draws = 0

    def unit(self):
        self.draws += 1
        self.n += 1
        m, n = self.mode, self.n
        if m == "zeros":
            return 0.0
        if m == "ones":
            return 1.0 - 2.0 ** -53
        if m == "alt":
            return 0.25 if n % 2 else 0.75
        if m == "inc":
            return min(1.0 - 2.0 ** -53, n / 1000.0)
        if m == "dec":
            return max(0.0, 1.0 - n / 1000.0 - 2.0 ** -53)
        if m == "few":
            return self.r.choice([0.1, 0.5, 0.9])
        if m == "low":
            return self.r.random() ** 4
        if m == "high":
            return 1.0 - 2.0 ** -53 - self.r.random() ** 4 * 0.5
        return self.r.random()

    def __enter__(self):
        m = self.m
        self.saved = {k: getattr(m, k) for k in self.NAMES}
        self.state = m.getstate()
        m.seed(self.r.randrange(1 << 30))
        m.random = self.unit
        m.getrandbits = lambda k: int(self.unit() * (1 << k))
        m.randint = lambda a, b: a + int(self.unit() * (b - a + 1))
        m.randrange = lambda a, b=None, s=1: (0 if b is None else a) + \
            s * int(self.unit() * (((a if b is None else b - a) + s - 1) // s))
        m.choice = lambda seq: seq[int(self.unit() * len(seq))]
        m.uniform = lambda a, b: a + (b - a) * self.unit()
        return self

    def __exit__(self, *a):
        for k, v in self.saved.items():
            setattr(self.m, k, v)
        self.m.setstate(self.state)


RANDOM_MODES = ["fair", "fair", "fair", "zeros", "ones", "alt", "inc", "dec", "few", "low", "high"]
