"""Helpers shared by scenarios."""
import contextlib
import re
import sys

from core import Violation, need
from simthread import SCHED


def run_threads(env, cfg, bodies):
    """Run several caller threads under the scheduler; the main simulated
    thread starts and joins them.  Returns [(kind, value)] per body."""
    import threading
    out = [None] * len(bodies)

    def wrap(i, fn):
        def go():
            try:
                out[i] = ("ok", fn())
            except Exception as e:
                out[i] = ("raise", e)
            except KeyboardInterrupt as e:
                out[i] = ("raise", e)
        return go

    def main():
        SCHED.immune = (0,)
        ts = [threading.Thread(target=wrap(i, b), name="caller-%d" % i)
              for i, b in enumerate(bodies)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    kind, v = env.simulate(cfg, main)
    if kind == "raise":
        raise v
    return out


def err(e):
    """Stable description of an exception."""
    return "%s: %s" % (type(e).__name__, re.sub(r"0x[0-9a-f]+", "0x..", str(e)))


def multiset(xs):
    d = {}
    for x in xs:
        d[x] = d.get(x, 0) + 1
    return d


def show(x, n=240):
    s = re.sub(r"0x[0-9a-f]+", "0x..", repr(x))
    return s if len(s) <= n else s[:n] + "..."


def size(rng, usual, large, p=.04):
    """One of the usual sizes; now and then one from a range of large ones, for what depends on
    a size (buffers, levels, limits)."""
    return rng.randrange(*large) if rng.random() < p else rng.choice(usual)


@contextlib.contextmanager
def stock_recursion_limit():
    """The depth of calls every Python program starts with."""
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(1000)
    try:
        yield
    finally:
        sys.setrecursionlimit(old)


def filled(a):
    """The elements of an array, without its empty positions."""
    return [x for x in (a[i] for i in range(len(a))) if x is not None]
