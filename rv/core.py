"""Case context, execution modes and small shared helpers used by every property module."""
import faulthandler
import gc
import json
import os
import random
import sys
import threading
import time
import traceback

from rv import detsched

UBERJOB_PREFIX = None  # set by worker once uberjob is imported


class CaseAbort(BaseException):
    """Raised by the harness itself; never to be mistaken for the code under test."""


class Case:
    """One generated workload execution and what the monitors saw of it."""

    def __init__(self, prop, seed, tier, index, mode, emit=None, scratch=None):
        self.prop = prop
        self.seed = seed
        self.tier = tier
        self.index = index
        self.mode = mode
        self.rng = random.Random(f"{prop}:{seed}:{index}")
        self.violations = []
        self.counts = {}
        self.keys = []
        self.samples = []
        self.notes = {}
        self.emit = emit
        self.scratch = scratch
        self.restart = False
        self.hang_text = None

    def violate(self, what, mechanism=None, **data):
        self.violations.append(
            {"what": what, "mechanism": mechanism or what.split(":")[0], "data": _jsonable(data), "notes": _jsonable(self.notes)}
        )

    def expect(self, cond, what, **data):
        if not cond:
            self.violate(what, **data)
        return bool(cond)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def key(self, *parts):
        """Record a non-trivial distinct case / observed interleaving under its signature."""
        self.keys.append("|".join(str(p) for p in parts))

    def sample(self, obj):
        self.samples.append(_jsonable(obj))

    def note(self, **kw):
        self.notes.update(kw)


def _jsonable(x, depth=0):
    if depth > 8:
        return "..."
    if isinstance(x, (str, int, float, bool)) or x is None:
        if isinstance(x, str):
            return x.encode("utf-8", "backslashreplace").decode()[:2000]
        return x
    if isinstance(x, dict):
        return {str(k): _jsonable(v, depth + 1) for k, v in list(x.items())[:80]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_jsonable(v, depth + 1) for v in list(x)[:80]]
    try:
        return repr(x).encode("utf-8", "backslashreplace").decode()[:400]
    except BaseException:
        return f"<{type(x).__name__}>"


class Result:
    """Outcome of one run: value or exception."""

    __slots__ = ("value", "exc", "sched", "leaked", "late_events")

    def __init__(self):
        self.value = None
        self.exc = None
        self.sched = None
        self.leaked = []
        self.late_events = 0


class Pert:
    """What a workload function does between its start and end events."""

    def __init__(self, case, rng, *, gate=False, long=True):
        self.case = case
        self.mode = case.mode
        self.gate = Gate(rng) if gate and case.mode == "os" else None
        # Virtual durations: the other threads run until nothing else can, as with slow calls.
        self.virtual = case.mode == "det" and rng.random() < 0.6
        # Now and then calls take hours to years: no patience of the code under test lasts that long.
        # (Independent of rng.)
        r = random.Random(f"{case.prop}:{case.seed}:{case.index}:scale")
        self.scale = r.choice([60, 1000, 200_000, 10_000_000]) if long and r.random() < 0.2 else 1

    def plan(self, rng):
        """Choose a per-call perturbation (from the case's rng, at generation time)."""
        if self.mode == "det":
            if self.virtual and rng.random() < 0.7:
                return rng.choice([0.1, 1.0, 1.0, 1.5, 2.0, 2.5, 7.0, 20.0])
            return rng.choice([0, 1, 2, 3, 5])
        return rng.choice([None, None, 0, 0, 0.0002, 0.001, 0.003])

    def act(self, what):
        if self.mode == "det":
            s = detsched.ACTIVE
            if s is not None and s.is_managed():
                if type(what) is float:
                    s.work(what * self.scale)
                else:
                    for _ in range(what or 0):
                        s.point()
        else:
            if self.gate is not None:
                self.gate.enter()
            elif what is not None:
                time.sleep(what)


class Gate:
    """Adversarial completion order for real threads: a call that entered waits until the system
    is quiescent, then a controller lets a randomly chosen one finish."""

    def __init__(self, rng):
        self.rng = random.Random(rng.random())
        self.lifo = rng.random() < 0.4
        self.lock = threading.Lock()
        self.waiting = []
        self.stop = False
        self.max_waiting = 0
        self.thread = None

    def enter(self):
        with self.lock:
            if self.stop:
                return
            ev = threading.Event()
            self.waiting.append(ev)
            self.max_waiting = max(self.max_waiting, len(self.waiting))
        ev.wait(10)

    def _control(self):
        last = None
        end = time.monotonic() + 20
        while not self.stop and time.monotonic() < end:
            time.sleep(0.0006)
            with self.lock:
                n = len(self.waiting)
                if n and n == last:
                    i = n - 1 if self.lifo else self.rng.randrange(n)
                    self.waiting.pop(i).set()
                    last = None
                else:
                    last = n
        self.open()

    def open(self):
        with self.lock:
            self.stop = True
            for ev in self.waiting:
                ev.set()
            self.waiting.clear()

    def __enter__(self):
        self.thread = threading.Thread(target=self._control, daemon=True)
        self.thread.start()
        return self

    def __exit__(self, *exc):
        self.open()
        self.thread.join()


def _thread_set():
    return set(threading.enumerate())


def execute(case, fn, *, rng=None, pert=None, sched_kw=None, strategy=None, before=None, note_stuck=None, expect_exit=True):
    """Run fn() under the case's mode and return a Result.

    det: under the controlled scheduler (deadlock => on_stuck => reported by the worker).
    os: real threads with an aggressive switch interval.
    """
    rng = rng or case.rng
    res = Result()
    if case.mode == "det":
        def stuck(info):
            case.hang({"info": info, "notes": case.notes, "extra": note_stuck() if note_stuck else None})

        s = detsched.Scheduler(
            strategy or detsched.make_strategy(rng),
            rng=random.Random(rng.random()),
            on_stuck=stuck,
            **{"trace_prefix": UBERJOB_PREFIX, **(sched_kw or {})},
        )
        res.sched = s
        if before:
            before(s)
        try:
            res.value = s.run(fn)
        except CaseAbort:
            raise
        except BaseException as e:
            res.exc = e
        case.count("switches", s.switches)
        case.count("sched_points", s.steps)
        res.leaked = s.leaked
        if s.leaked:
            case.note(leak_stacks=s.leak_stacks)
        if s.poisoned:
            case.restart = True
        case.notes["strategy"] = s.strategy.name
    else:
        old = sys.getswitchinterval()
        before_threads = _thread_set()
        sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4, 0.005]))
        gate = pert.gate if pert is not None else None
        try:
            if gate is not None:
                gate.__enter__()
                before_threads.add(gate.thread)
            res.value = fn()
        except CaseAbort:
            raise
        except BaseException as e:
            res.exc = e
        finally:
            # Threads are looked for before anything else is given a chance to run.
            res.leaked = [t for t in threading.enumerate() if t not in before_threads and t.is_alive() and not isinstance(t, threading._DummyThread)]
            sys.setswitchinterval(old)
            if gate is not None:
                gate.__exit__()
        if res.leaked:
            case.note(leaked=[t.name for t in res.leaked])
            for t in res.leaked:
                t.join(5)
            if any(t.is_alive() for t in res.leaked):
                case.restart = True
    return res


def exc_info(e):
    if e is None:
        return None
    try:
        return "".join(traceback.format_exception_only(type(e), e))[:600]
    except BaseException:
        return type(e).__name__
