"""A controlled thread scheduler for Python programs ("det" mode).

``install()`` must run before the code under test is imported.  It replaces the lowest-level
primitives of the ``threading`` module (lock allocation, thread start, thread-exit sentinel,
``time.sleep``) so that everything pure-Python built on them - Lock, RLock, Condition, Event,
Semaphore, queue.Queue, concurrent.futures - is scheduled cooperatively: exactly one managed
thread runs at a time and a strategy decides, at every scheduling point, who runs next.
Scheduling points are: every bytecode executed in files under the traced prefix (through
``sys.settrace`` with opcode events), every lock operation, and explicit ``point()`` calls made
by workload functions.

Because all blocking goes through managed locks, "no runnable thread" is decided exactly: it is a
logical deadlock, independent of wall-clock time and machine load.
"""
import _thread
import heapq
import os
import queue
import sys
import threading
import time

_real_allocate = _thread.allocate_lock
_real_start = _thread.start_new_thread
_real_set_sentinel = threading._set_sentinel
_real_sleep = time.sleep
_get_ident = _thread.get_ident

# where the standard library itself is not safe to interrupt between two operations
_STDLIB = (threading.__file__, queue.__file__)

ACTIVE = None
INSTALLED = False

RUNNABLE, BLOCKED, DONE = 0, 1, 2


class MThread:
    __slots__ = (
        "id", "ident", "baton", "state", "sentinel", "timed_out", "deadline", "prio",
        "pending", "tag", "waiting_on", "working",
    )

    def __init__(self, id):
        self.id = id
        self.ident = None
        self.baton = _real_allocate()
        self.baton.acquire()
        self.state = RUNNABLE
        self.sentinel = None
        self.timed_out = False
        self.deadline = None
        self.prio = 0.0
        self.pending = None
        self.tag = None
        self.waiting_on = None
        self.working = False


class MLock:
    """Drop-in for ``_thread.lock``: managed when the calling thread is, otherwise real."""

    __slots__ = ("_r", "_waiters", "_owner", "__weakref__")

    def __init__(self):
        self._r = _real_allocate()
        self._waiters = []
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE
        t = s.by_ident.get(_get_ident()) if s is not None else None
        if t is None:
            return self._r.acquire(blocking, timeout)
        if timeout is not None and timeout >= 0 and not blocking:
            raise ValueError("can't specify a timeout for a non-blocking call")
        s.main_op()
        s.point()
        while not self._r.acquire(False):
            if not blocking or timeout == 0:
                return False
            self._waiters.append(t)
            t.waiting_on = self
            try:
                s.block(t, timeout if timeout is not None and timeout > 0 else None)
            finally:
                t.waiting_on = None
                if t in self._waiters:
                    self._waiters.remove(t)
            if t.timed_out:
                t.timed_out = False
                if not self._r.acquire(False):
                    return False
                break
        self._owner = t
        return True

    def release(self):
        self._owner = None
        self._r.release()
        s = ACTIVE
        if s is None:
            return
        if self._waiters:
            waiters, self._waiters = self._waiters, []
            for w in waiters:
                s.wake(w)
        if _get_ident() in s.by_ident:
            s.point()
            s.main_op()

    def locked(self):
        return self._r.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def _at_fork_reinit(self):
        self._r = _real_allocate()
        self._waiters = []


def _m_start(function, args, kwargs=None):
    s = ACTIVE
    if s is None or _get_ident() not in s.by_ident:
        return _real_start(function, args, kwargs or {})
    if s.refuse_thread is not None and s.threads_started >= s.refuse_thread:
        raise RuntimeError("can't start new thread")
    s.threads_started += 1
    t = MThread(len(s.threads))
    s.threads.append(t)

    def boot():
        t.ident = _get_ident()
        s.by_ident[t.ident] = t
        t.baton.acquire()
        if s.trace_prefix:
            sys.settrace(s.gtrace)
        try:
            function(*args, **(kwargs or {}))
        finally:
            sys.settrace(None)
            s.thread_exit(t)

    s.trace_current()
    ident = _real_start(boot, ())
    s.strategy.new_thread(t)
    s.runnable.append(t)
    s.point()
    s.main_op()
    return ident


def _m_set_sentinel():
    s = ACTIVE
    t = s.by_ident.get(_get_ident()) if s is not None else None
    if t is None:
        return _real_set_sentinel()
    t.sentinel = MLock()
    return t.sentinel


def _m_sleep(seconds):
    s = ACTIVE
    t = s.by_ident.get(_get_ident()) if s is not None else None
    if t is None:
        return _real_sleep(seconds)
    s.block(t, max(seconds, 1e-9))
    t.timed_out = False


EPOCH = 1_700_000_000.0
VIRTUAL_CLOCK = False  # when set, managed threads read the scheduler's clock


def _clock(real, base, always=False):
    def now():
        if VIRTUAL_CLOCK or always:
            s = ACTIVE
            if s is not None and _get_ident() in s.by_ident:
                return base + s.now
        return real()

    return now


def install():
    global INSTALLED
    if INSTALLED:
        return
    INSTALLED = True
    threading._allocate_lock = MLock
    threading.Lock = MLock
    threading._CRLock = None  # makes threading.RLock() use the pure-Python one over _allocate_lock
    threading._start_new_thread = _m_start
    threading._set_sentinel = _m_set_sentinel
    time.sleep = _m_sleep
    # timeouts of semaphores, conditions and queues
    threading._time = queue.time = _clock(time.monotonic, 1000.0, always=True)
    time.time = _clock(time.time, EPOCH)
    time.monotonic = _clock(time.monotonic, 1000.0)
    time.perf_counter = _clock(time.perf_counter, 2000.0)
    if hasattr(queue, "_PySimpleQueue"):
        queue.SimpleQueue = queue._PySimpleQueue


class RandomWalk:
    """Switch with probability p at each scheduling point."""

    def __init__(self, rng, p):
        self.rng = rng
        self.random = rng.random
        self.p = p
        self.name = f"walk({p})"

    def new_thread(self, t):
        pass

    def choose(self, s):
        if self.random() < self.p:
            r = s.runnable
            return r[int(self.random() * len(r))]
        return s.cur

    def pick(self, s):
        r = s.runnable
        return r[int(self.random() * len(r))]


class PCT:
    """Priority scheduling with d random priority-change points (Burckhardt et al.)."""

    def __init__(self, rng, d, horizon):
        self.rng = rng
        self.changes = sorted((rng.randrange(1, horizon) for _ in range(d)), reverse=True)
        self.low = 0.0
        self.name = f"pct({d},{horizon})"

    def new_thread(self, t):
        t.prio = 1.0 + self.rng.random()

    def choose(self, s):
        if self.changes and s.steps >= self.changes[-1]:
            self.changes.pop()
            self.low -= 1.0
            s.cur.prio = self.low
        return self.pick(s)

    def pick(self, s):
        return max(s.runnable, key=_prio)


def _prio(t):
    return t.prio


class LockStep:
    """All threads advance at the same pace, so that they reach the same code at the same moment;
    now and then one falls behind."""

    def __init__(self, rng, slip):
        self.random = rng.random
        self.slip = slip
        self.name = f"lockstep({slip})"

    def new_thread(self, t):
        t.prio = 0

    def choose(self, s):
        s.cur.prio += 1
        if self.random() < self.slip:
            s.cur.prio += int(self.random() * 30)
        return self.pick(s)

    def pick(self, s):
        return min(s.runnable, key=_prio)


class StepLimit(BaseException):
    pass


class Scheduler:
    def __init__(self, strategy, *, trace_prefix=None, max_steps=3_000_000, on_stuck=None,
                 early_timeout_p=0.0, rng=None, refuse_thread=None):
        self.strategy = strategy
        self.trace_prefix = trace_prefix
        self.max_steps = max_steps
        self.on_stuck = on_stuck
        self.early_timeout_p = early_timeout_p
        self.rng = rng
        self.refuse_thread = refuse_thread
        self.threads_started = 0
        self.threads = []
        self.by_ident = {}
        self.runnable = []
        self.timed = []
        self.cur = None
        self.steps = 0
        self.switches = 0
        self.sig = 0
        self.now = 0.0
        self.polls = self.polls_here = 0
        self.leap = 0.0  # added to the clock when it next advances (as when the machine was suspended)
        self.main = None
        self.leaked = []
        self.hooks = []  # callables run at each point (by the current thread), for KI injection
        self._codes = {}
        self.main_op_hook = None
        self.favour = None  # a thread that runs whenever it can
        self.idle_hook = None  # called when nothing can run, before any timer fires

    # ---- trace functions
    def gtrace(self, frame, event, arg):
        code = frame.f_code
        traced = self._codes.get(code)
        if traced is None:
            traced = self._codes[code] = code.co_filename.startswith(self.trace_prefix)
        if not traced:
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self.ltrace

    def ltrace(self, frame, event, arg):
        if event == "opcode":
            self.point()
        return self.ltrace

    def trace_current(self):
        """Start tracing on the calling thread (before its first child starts there is nothing to
        interleave with): future calls through settrace, frames already on the stack directly."""
        if not self.trace_prefix or sys.gettrace() is not None:
            return
        sys.settrace(self.gtrace)
        f = sys._getframe(1)
        while f is not None:
            if f.f_code.co_filename.startswith(self.trace_prefix):
                f.f_trace_opcodes = True
                f.f_trace_lines = False
                f.f_trace = self.ltrace
            f = f.f_back

    # ---- scheduling
    def main_op(self):
        """A place in the thread that called run where a signal may be handled: before a lock is
        acquired, after one was released, after a thread was started."""
        if self.main_op_hook is not None and self.cur is self.main and self.main.ident == _get_ident():
            f = sys._getframe(2)
            while f.f_code.co_filename == __file__:
                f = f.f_back
            if f.f_code.co_filename not in _STDLIB or f.f_code.co_name == "start":
                self.main_op_hook(f)

    def point(self):
        self.steps += 1
        if len(self.runnable) > 1 or self.timed:
            if self.steps > self.max_steps:
                self._stuck("step-limit")
            if self.timed and self.early_timeout_p and self.rng.random() < self.early_timeout_p:
                self._fire_timer()
            t = self.cur
            n = (self.favoured() if self.favour is not None else None) or self.strategy.choose(self)
            if n is not t:
                self._switch(t, n)
                if t.pending is not None:
                    exc, t.pending = t.pending, None
                    raise exc
        elif self.steps > self.max_steps:
            self._stuck("step-limit")

    def _switch(self, t, n):
        self.switches += 1
        self.sig = hash((self.sig, n.id, self.steps))
        self.cur = n
        n.baton.release()
        t.baton.acquire()

    def _fire_timer(self):
        # Everything that is due at the same moment becomes runnable together.
        at = min(t.deadline for t in self.timed)
        working = [t.deadline for t in self.timed if t.working]
        if working and min(working) > at:
            # Code that polls would be woken up millions of times while a call takes a year.
            self.polls += 1
            if self.polls > 400 or self.polls_here > 50:
                at = min(working)
                self.polls_here = 0
            self.polls_here += 1
        else:
            self.polls_here = 0
        due = [t for t in self.timed if t.deadline <= at]
        self.timed = [t for t in self.timed if t.deadline > at]
        self.now = max(self.now, at) + self.leap
        self.leap = 0.0
        for t in due:
            t.deadline = None
            t.timed_out = True
            t.state = RUNNABLE
            self.runnable.append(t)

    def _next(self):
        while not self.runnable:
            if self.idle_hook is not None and self.idle_hook():
                continue
            if self.timed:
                self._fire_timer()
            else:
                self._stuck("deadlock")
        return (self.favoured() if self.favour is not None else None) or self.strategy.pick(self)

    def favoured(self):
        """The favoured thread, or the one that holds the lock it is waiting for."""
        f = self.favour
        for _ in range(len(self.threads)):
            if f is None:
                return None
            if f.state == RUNNABLE:
                return f
            f = f.waiting_on._owner if type(f.waiting_on) is MLock else None
        return None

    def work(self, seconds):
        """The calling thread executes a call for so long."""
        t = self.by_ident[_get_ident()]
        t.working = True
        try:
            _m_sleep(seconds)
        finally:
            t.working = False

    def block(self, t, timeout=None):
        self.steps += 1
        if self.steps > self.max_steps:
            self._stuck("step-limit")
        t.state = BLOCKED
        self.runnable.remove(t)
        if timeout is not None:
            t.deadline = self.now + timeout
            self.timed.append(t)
        n = self._next()
        if n is not t:
            self._switch(t, n)
        if t.pending is not None:
            exc, t.pending = t.pending, None
            t.timed_out = False
            raise exc

    def wake(self, t):
        if t.state == BLOCKED:
            if t.deadline is not None:
                t.deadline = None
                self.timed.remove(t)
            t.state = RUNNABLE
            self.runnable.append(t)

    def interrupt(self, t, exc):
        """Make ``exc`` propagate out of t's current wait / at its next resumption."""
        t.pending = exc
        self.wake(t)

    def block_until(self, pred):
        """Used by workload functions (rendezvous, gates): wait until pred() holds."""
        t = self.by_ident[_get_ident()]
        while not pred():
            t.waiting_on = pred
            self._gated.append(t)
            self.block(t)
            t.waiting_on = None

    _gated = None

    def recheck(self):
        """Wake every block_until waiter so that it re-evaluates its predicate."""
        g, self._gated = self._gated, []
        for t in g:
            self.wake(t)

    def thread_exit(self, t):
        if t.sentinel is not None and t.sentinel.locked():
            t.sentinel._r.release()
            waiters, t.sentinel._waiters = t.sentinel._waiters, []
            for w in waiters:
                self.wake(w)
        t.state = DONE
        self.runnable.remove(t)
        self.by_ident.pop(t.ident, None)
        n = self._next()
        self.switches += 1
        self.sig = hash((self.sig, n.id, self.steps))
        self.cur = n
        n.baton.release()

    def stacks(self):
        frames = sys._current_frames()
        out = []
        for t in self.threads:
            if t.state == DONE:
                continue
            f = frames.get(t.ident)
            st = []
            while f is not None:
                if f.f_code.co_filename != __file__:
                    st.append(f"{os.path.basename(f.f_code.co_filename)}:{f.f_lineno}:{f.f_code.co_name}")
                f = f.f_back
            out.append({"thread": t.id, "state": ["runnable", "blocked", "done"][t.state], "stack": st[:10]})
        return out

    def _stuck(self, kind):
        info = {"kind": kind, "steps": self.steps, "threads": self.stacks()}
        if self.on_stuck:
            self.on_stuck(info)
        os._exit(78)

    def run(self, fn):
        """Run fn() on the calling thread as managed thread 0; returns fn's result or raises."""
        global ACTIVE
        assert ACTIVE is None
        t = MThread(0)
        t.ident = _get_ident()
        self.main = self.cur = t
        self.threads.append(t)
        self.by_ident[t.ident] = t
        self._gated = []
        self.strategy.new_thread(t)
        self.runnable.append(t)
        ACTIVE = self
        try:
            return fn()
        finally:
            sys.settrace(None)
            self.main_op_hook = None
            t.pending = None
            self.leaked = [x for x in self.threads if x is not t and x.state != DONE]
            if self.leaked:
                self.leak_stacks = self.stacks()
                # let leftovers finish if they can; otherwise this process is poisoned
                budget = 200000
                while any(x.state != DONE for x in self.threads if x is not t):
                    others = [x for x in self.runnable if x is not t]
                    if not others:
                        if self.timed:
                            self._fire_timer()
                            continue
                        break
                    budget -= 1
                    if budget < 0:
                        break
                    self._switch(t, others[budget % len(others)])
            self.poisoned = any(x.state != DONE for x in self.threads if x is not t)
            ACTIVE = None
            self.by_ident.clear()


def make_strategy(rng):
    k = rng.random()
    if k < 0.35:
        return RandomWalk(rng, rng.choice([0.003, 0.01, 0.03, 0.1, 0.3]))
    if k < 0.53:
        return LockStep(rng, rng.choice([0, 0, 0.01, 0.05]))
    if k < 0.9:
        return PCT(rng, rng.choice([0, 1, 2, 2, 3, 3, 5, 8]), rng.choice([300, 1000, 3000, 8000]))
    return RandomWalk(rng, 0.6)


def _is_managed(self):
    return _get_ident() in self.by_ident


Scheduler.is_managed = _is_managed
