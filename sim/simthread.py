"""Simulated `_thread` plus the seeded scheduler that owns every interleaving.

`install()` replaces `_thread` (and hides the C `_queue`) while the *real*
standard-library `threading`, `queue` and `concurrent.futures` are imported a
second time on top of it, and leaves those copies in `sys.modules`, so that
pydatastructs, imported afterwards, runs the real executor code over threads,
locks and thread starts that the scheduler below decides.

Carriers are real threads, parked and released one at a time: exactly one runs
at any moment, and who runs next is the scheduler's choice.  Preemption points
are every lock operation, every thread start/exit and (through sys.settrace)
lines or single bytecodes of the code under test.
"""
import sys
import types
import random
import _thread as _real
import time as _time

START_FAILURE = "can't start new thread"


def importing():
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_name == "_load_unlocked" and "importlib" in f.f_code.co_filename:
            return True
        f = f.f_back
    return False


class SimFatal(BaseException):
    """Unwinds a simulated thread after the run has been abandoned."""


class Hang(Exception):
    pass


class Deadlock(Exception):
    pass


class SimThread(object):
    __slots__ = ("tid", "sem", "state", "sentinel", "wait_for", "deadline",
                 "timed_out", "prio", "name")

    def __init__(self, tid):
        self.tid = tid
        self.sem = _real.allocate_lock()
        self.sem.acquire()
        self.state = "run"          # run | blocked | done
        self.sentinel = None
        self.deadline = None
        self.timed_out = False
        self.prio = 0
        self.name = "T%d" % tid


class Scheduler(object):
    """One run's schedule.  cfg (all optional):
      mode: 'random' | 'pct' | 'script'
      seed, p (switch probability), d (pct change points), horizon
      switches: [[step, tid], ...] for script mode
      gran: 'lock' | 'line' | 'op'
      start_fail: [ordinals of thread starts that fail]
      budget: maximum number of steps
    """

    def __init__(self):
        self.active = False
        self.threads = []
        self.by_ident = {}
        self.current = None
        self.on_fatal = None
        self.busy = False
        self.trace_prefix = None
        self.reset({})

    # -- one run --------------------------------------------------------
    def reset(self, cfg):
        self.cfg = cfg
        self.step = 0
        self.now = 0.0
        self.nstarts = 0
        self.start_failures = 0
        self.switches = []
        self.nswitch = 0
        self.inflight_switch = 0
        self.blocks = 0
        self.budget = cfg.get("budget", 8000000 if cfg.get("gran") == "op"
                              else 1200000)
        self.mode = cfg.get("mode", "random")
        self.rng = random.Random(cfg.get("seed", 0))
        self.p = cfg.get("p", 0.1)
        self.gran = cfg.get("gran", "line")
        self.start_fail = set(cfg.get("start_fail", ()))
        self.script = {s: t for s, t in cfg.get("switches", ())}
        self.changes = set()
        if self.mode == "pct":
            hz = max(10, cfg.get("horizon", 2000))
            self.changes = set(self.rng.randrange(1, hz)
                               for _ in range(cfg.get("d", 3)))
        self.threads = []
        self.by_ident = {}
        self.max_alive = 1
        self.immune = ()            # threads whose own thread starts never fail

    def begin(self):
        main = SimThread(0)
        main.prio = self.rng.random() if self.mode == "pct" else 0
        self.threads = [main]
        self.by_ident = {_real.get_ident(): main}
        self.current = main
        self.active = True
        self._set_trace()

    def end(self):
        sys.settrace(None)
        self.active = False
        left = [t.tid for t in self.threads[1:] if t.state != "done"]
        return left

    def drain(self, limit=200000):
        """After the operation under test returned: run whatever is still
        runnable, to find work that goes on behind the caller's back."""
        n = 0
        while any(t.state == "run" for t in self.threads[1:]):
            me = self.current
            nxt = [t for t in self.threads[1:] if t.state == "run"][0]
            n += 1
            if n > limit:
                break
            self._go(nxt)
        return n

    # -- tracing --------------------------------------------------------
    def _set_trace(self):
        if self.gran in ("line", "op") and self.trace_prefix:
            sys.settrace(self._gtrace)

    def _gtrace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.trace_prefix):
            return None
        if self.gran == "op":
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return self._otrace
        return self._ltrace

    def _ltrace(self, frame, event, arg):
        if event == "line" and self.active:
            self.point()
        return self._ltrace

    def _otrace(self, frame, event, arg):
        if event == "opcode" and self.active:
            self.point()
        return self._otrace

    # -- the scheduler --------------------------------------------------
    def fatal(self, exc):
        # Never returns: the worker reports the run and ends the process.
        if self.on_fatal is not None:
            self.on_fatal(exc)
        raise SimFatal(str(exc))

    def point(self):
        if self.busy:
            return
        self.step += 1
        step = self.step
        if step > self.budget:
            self.active = False
            self.fatal(Hang("no result after %d simulated steps" % self.budget))
        cur = self.current
        if len(self.threads) == 1:
            return
        mode = self.mode
        if mode == "script":
            t = self.script.get(step)
            if t is None:
                return
            if t < len(self.threads) and self.threads[t].state == "run":
                nxt = self.threads[t]
            else:
                return
        elif mode == "pct":
            if step in self.changes:
                cur.prio = -self.rng.random() - step
            nxt = self._best()
        else:
            if self.rng.random() >= self.p:
                return
            run = [t for t in self.threads if t.state == "run"]
            nxt = run[self.rng.randrange(len(run))]
        if nxt is not cur:
            if importing():
                return              # the import lock is real: imports are atomic here
            self.inflight_switch += 1
            self._record(step, nxt)
            self._go(nxt)

    def _record(self, step, nxt):
        self.switches.append([step, nxt.tid])

    def _best(self):
        best = None
        for t in self.threads:
            if t.state == "run" and (best is None or t.prio > best.prio):
                best = t
        return best

    def _go(self, nxt):
        me = self.current
        self.nswitch += 1
        self.current = nxt
        nxt.sem.release()
        me.sem.acquire()

    def _pick(self, step):
        """The current thread cannot go on: choose another one."""
        while True:
            run = [t for t in self.threads if t.state == "run"]
            if run:
                break
            timed = [t for t in self.threads
                     if t.state == "blocked" and t.deadline is not None]
            if not timed:
                self.active = False
                self.fatal(Deadlock("every simulated thread is blocked: %s" % (
                    ", ".join("T%d %s" % (t.tid, t.state) for t in self.threads))))
            t = min(timed, key=lambda t: (t.deadline, t.tid))
            self.now = max(self.now, t.deadline)
            t.timed_out = True
            t.state = "run"
        if self.mode == "script":
            want = self.script.get(step)
            if want is not None and want < len(self.threads) and \
                    self.threads[want].state == "run":
                return self.threads[want]
            return run[0]
        if self.mode == "pct":
            nxt = self._best()
        else:
            nxt = run[self.rng.randrange(len(run))]
        self._record(step, nxt)
        return nxt

    def block(self, deadline=None):
        me = self.current
        me.state = "blocked"
        me.deadline = deadline
        me.timed_out = False
        self.blocks += 1
        self.step += 1
        nxt = self._pick(self.step)
        if nxt is not me:
            self._go(nxt)
        me.deadline = None
        return not me.timed_out

    def wake(self, t):
        if t.state == "blocked":
            t.state = "run"

    def spawn(self, fn, args, kwargs):
        if not self.active:
            raise RuntimeError("thread started outside a simulated run")
        immune = self.current.tid in self.immune
        self.nstarts += not immune
        if self.nstarts in self.start_fail and not immune:
            self.start_failures += 1
            raise RuntimeError(START_FAILURE)
        t = SimThread(len(self.threads))
        t.prio = self.rng.random() if self.mode == "pct" else 0
        self.threads.append(t)
        alive = sum(1 for x in self.threads if x.state != "done")
        self.max_alive = max(self.max_alive, alive)
        _real.start_new_thread(self._boot, (t, fn, args, kwargs))
        self.point()
        return 1000 + t.tid

    def _boot(self, t, fn, args, kwargs):
        self.by_ident[_real.get_ident()] = t
        t.sem.acquire()
        try:
            if self.active:
                self._set_trace()
                fn(*args, **kwargs)
        except SystemExit:
            pass
        except SimFatal:
            return
        except BaseException as e:  # threading.Thread never lets this happen
            self.fatal(e)
        finally:
            sys.settrace(None)
        self.step += 1
        t.state = "done"
        s = t.sentinel
        t.sentinel = None
        if s is not None and s._locked:
            s._unlock()
        self.by_ident.pop(_real.get_ident(), None)
        nxt = self._pick(self.step)
        self.nswitch += 1
        self.current = nxt
        nxt.sem.release()

    def me(self):
        return self.by_ident.get(_real.get_ident())


SCHED = Scheduler()


class Lock(object):
    __slots__ = ("_locked", "_waiters", "__weakref__")

    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s = SCHED
        if not s.active:
            if self._locked:
                if not blocking or timeout == 0:
                    return False
                raise Deadlock("lock already held outside a run")
            self._locked = True
            return True
        s.point()
        deadline = None
        if timeout is not None and timeout > 0 and blocking:
            deadline = s.now + timeout
        while self._locked:
            if not blocking or timeout == 0:
                return False
            me = s.current
            self._waiters.append(me)
            ok = s.block(deadline)
            if me in self._waiters:
                self._waiters.remove(me)
            if not ok and self._locked:
                return False
        self._locked = True
        return True

    def _unlock(self):
        self._locked = False
        ws, self._waiters = self._waiters, []
        for w in ws:
            SCHED.wake(w)

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._unlock()
        if SCHED.active:
            SCHED.point()

    def locked(self):
        return self._locked

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


class RLock(object):
    __slots__ = ("_l", "_owner", "_count", "__weakref__")

    def __init__(self):
        self._l = Lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if self._l.acquire(blocking, timeout):
            self._owner = me
            self._count = 1
            return True
        return False

    __enter__ = acquire

    def release(self):
        if self._owner != get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._l.release()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self.__init__()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._l.release()
        return st

    def _acquire_restore(self, st):
        self._l.acquire()
        self._count, self._owner = st

    def _is_owned(self):
        return self._owner == get_ident()

    def _recursion_count(self):
        return self._count if self._owner == get_ident() else 0


def get_ident():
    t = SCHED.by_ident.get(_real.get_ident())
    if t is None or t.tid == 0:
        return 1000
    return 1000 + t.tid


def start_new_thread(fn, args, kwargs={}):
    return SCHED.spawn(fn, args, kwargs)


def _set_sentinel():
    l = Lock()
    t = SCHED.me()
    if t is not None:
        t.sentinel = l
    return l


def _fake_thread_module():
    m = types.ModuleType("_thread")
    for k in dir(_real):
        if not k.startswith("__"):
            setattr(m, k, getattr(_real, k))
    m.allocate_lock = m.allocate = Lock
    m.lock = m.LockType = Lock
    m.RLock = RLock
    m.start_new_thread = m.start_new = start_new_thread
    m.get_ident = get_ident
    m.get_native_id = get_ident
    m._set_sentinel = _set_sentinel
    return m


def _sim_now():
    return SCHED.now


def _sim_sleep(sec):
    if SCHED.active:
        SCHED.block(SCHED.now + sec)


def install(trace_prefix):
    import logging          # stays on the real threading module
    import os, weakref, itertools  # noqa: F401
    SCHED.trace_prefix = trace_prefix
    # CPython turns opcode events on with the first settrace() after any frame
    # has asked for them: ask now, or the first such run of a process differs
    sys._getframe().f_trace_opcodes = True
    saved = {}
    for k in list(sys.modules):
        if k in ("_thread", "threading", "queue", "_queue", "concurrent") or \
                k.startswith("concurrent."):
            saved[k] = sys.modules.pop(k)
    sys.modules["_thread"] = _fake_thread_module()
    sys.modules["_queue"] = None
    real_monotonic, real_sleep = _time.monotonic, _time.sleep
    _time.monotonic = _sim_now
    _time.sleep = _sim_sleep
    os.cpu_count = lambda: 8
    import threading
    import queue
    import concurrent.futures
    import concurrent.futures.thread as cft
    import concurrent.futures._base as base
    assert cft.threading is threading and queue.SimpleQueue is queue._PySimpleQueue
    _time.monotonic = real_monotonic

    # Thread and Future objects are kept in sets; give them a hash that does not
    # depend on where the allocator put them.
    counter = itertools.count(1)

    def stable_hash(self):
        h = self.__dict__.get("_sim_hash")
        if h is None:
            h = self.__dict__["_sim_hash"] = next(counter)
        return h
    threading.Thread.__hash__ = stable_hash
    base.Future.__hash__ = stable_hash
    base.id = stable_hash
    sys.modules["_thread"] = _real      # the copies above keep the simulated one
    sys.modules.pop("_queue", None)

    def reset_run():
        nonlocal counter
        counter = itertools.count(1)
        threading._counter = itertools.count(1).__next__
        cft.ThreadPoolExecutor._counter = itertools.count().__next__
    return reset_run
