"""Histories of runs: changes between runs, cuts during runs, and what a run did."""
import collections
import signal
import sys
import threading

from rv import detsched, excs
from rv.core import exc_info, execute
from rv.plangen import Ref
from rv.stores import Clock
from rv.trace import E, F, S
from rv.world import canon


class Did:
    """Executions, reads and writes of one run, from its part of the log."""

    def __init__(self, log):
        self.log = log
        self.executed = collections.Counter(e[1] for e in log if e[0] == S)
        self.finished = collections.Counter(e[1] for e in log if e[0] == E)
        self.reads = collections.Counter(e[1] for e in log if e[0] == "RS")
        self.writes = collections.Counter(e[1] for e in log if e[0] == "WS")
        self.written = {e[1] for e in log if e[0] == "WE"}
        self.mtimes = collections.Counter(e[1] for e in log if e[0] == "MS")
        self.failures = [e for e in log if e[0] in (F, "RF", "WF", "MF")]

    def nothing(self):
        return not (self.executed or self.reads or self.writes)

    def brief(self):
        return {"calls": sorted(self.executed.items()), "reads": sorted(self.reads.items()), "writes": sorted(self.writes.items())}


def mutate(w, rng, touch=False, grow=True, others=()):
    """Change the world between two runs; returns (fresh tick or None, description).  Also lets the
    plan and the registry grow (in `others`, worlds of the same specification, as well)."""
    what = []
    fresh = None
    if grow and rng.random() < 0.25:
        for _ in range(rng.choice([1, 1, 2, 3])):
            change = w.grow(rng)
            if change:
                for x in (w, *others):
                    x.adopt(change)
                what.append(" ".join(map(str, change)))
    sources = [n.id for n in w.spec.nodes if n.kind == "source"]
    derived = [i for i in w.stores if w.spec.nodes[i].kind != "source"]
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.random()
        if sources and k < 0.4:
            i = rng.choice(sources)
            w.update_source(i)
            what.append(f"update source {i}")
        elif derived and k < 0.75:
            i = rng.choice(derived)
            w.stores[i].delete()
            what.append(f"delete {i}")
        elif derived and touch and k < 0.9:
            i = rng.choice(list(w.stores))
            s = w.stores[i]
            other = w.stores[rng.choice(list(w.stores))]
            if s.present and other.mtime is not None:
                s.mtime = other.mtime + rng.choice([0, 0, -0.5, 0.5])
                what.append(f"touch {i} to {s.mtime}")
        elif k > 0.75:
            times = [s.mtime for s in w.stores.values() if s.mtime is not None] or [0]
            fresh = min(rng.choice(times) + rng.choice([0, 0, 0.5, -0.5]), w.clock.n)
            if rng.random() < 0.2:
                fresh = w.clock.n
            what.append(f"fresh {fresh}")
    return fresh, what


def pick_output(w, rng):
    s = w.spec
    ids = [n.id for n in s.nodes if n.kind != "unpack" and n.ret != "writer"]
    k = rng.random()
    if not ids or k < 0.35:
        return None
    if k < 0.6:
        return Ref(rng.choice(ids))
    if k < 0.75:
        return [Ref(i) for i in ids]
    return {"a": [Ref(i) for i in rng.sample(ids, min(len(ids), rng.choice([1, 2, 3])))], "b": 1}


def fresh_kw(fresh):
    return {} if fresh is None else {"fresh_time": Clock.time(fresh)}


def interruptible(frame):
    """Could a signal end this blocked thread's wait?  (Re-acquiring a Condition's lock on the way
    out of a wait happens when the wait is over.)"""
    f = frame
    while f is not None and f.f_code.co_filename == detsched.__file__:
        f = f.f_back
    return f is not None and f.f_code.co_name not in ("_acquire_restore", "__exit__")


def unsafe(frame):
    """Where the interpreter itself swallows exceptions (weak reference callbacks, finalisers) or
    where Thread.start, whatever its caller does, cannot be interrupted cleanly."""
    names = []
    f = frame
    while f is not None:
        c = f.f_code
        if c.co_name in ("__del__", "weakref_cb") or (c.co_name in ("_remove", "remove") and "weakref" in c.co_filename):
            return True
        if c.co_filename == threading.__file__:
            if c.co_name == "start" and names:
                return True
            names.append(c.co_name)
        f = f.f_back
    return False


def on_sigint(sig, frame):
    """Ctrl-C, except at places that no program survives unharmed."""
    if not unsafe(frame):
        raise KeyboardInterrupt


def interrupt_main(case, main_ident):
    """Deliver KeyboardInterrupt to the thread that called run.  Returns whether it was delivered
    (in det mode only while that thread is waiting, which is where a signal finds it)."""
    if case.mode == "os":
        signal.pthread_kill(main_ident, signal.SIGINT)
        return True
    s = detsched.ACTIVE
    m = s.main
    if m.state == detsched.BLOCKED and interruptible(sys._current_frames().get(m.ident)):
        s.interrupt(m, KeyboardInterrupt())
        return True
    return False


class Cut:
    """Cuts a run at its k-th operation (calls, reads, writes, modified-time queries counted)."""

    def __init__(self, case, k, how, phase, make=None, main=None):
        self.case, self.k, self.how, self.phase = case, k, how, phase
        self.make = make or (lambda: excs.Plain("cut"))
        self.n = 0
        self.fired = None
        self.dead = False
        self.main = main if main is not None else threading.get_ident()
        self.lock = threading.Lock() if case.mode == "os" else None

    def __call__(self, op, i, phase):
        if self.how == "dead" and self.dead:
            raise excs.Base("the process is dead")
        if phase != self.phase:
            return
        if self.lock:
            with self.lock:
                self.n += 1
                hit = self.n == self.k
        else:
            self.n += 1
            hit = self.n == self.k
        if self.how == "interrupt" and not hit and self.fired == "pending" and self.case.mode == "det":
            hit = True
        if hit:
            if self.how == "interrupt":
                self.fired = (op, i, phase) if interrupt_main(self.case, self.main) else "pending"
                return
            self.fired = (op, i, phase)
            if self.how == "dead":
                self.dead = True
            raise self.make()


def count_ops(log):
    return sum(1 for e in log if e[0] in (S, "RS", "WS", "MS"))


def after_cut(case, w, rng, did, before, fresh, note, extra_written=()):
    """Judge the state a cut left and the run that repairs it."""
    val, _ = w.from_scratch()
    stale = w.outdated()
    for i, s in w.stores.items():
        if i in stale or w.spec.nodes[i].kind == "source":
            continue
        case.count("values_kept")
        if canon(s.value) != canon(val[i]):
            case.violate(f"poisoned: after the cut the stored value of node {i} looks up to date but is not its from-scratch value", cut=note,
                         stored=canon(s.value)[:120], want=canon(val[i])[:120])
    complete = (did.written | set(extra_written)) - {i for i in did.written if i not in w.stores}
    pick = rng.random()
    more_fresh, changed = None, False
    again_fresh = fresh
    if pick < 0.25:
        more_fresh, what = mutate(w, rng)
        changed = bool(what)
        case.note(after_cut=what)
        again_fresh = more_fresh
    elif pick < 0.4:
        again_fresh = None
    from rv.props.common import run_kw, seed_random

    kw = run_kw(case, rng, **fresh_kw(again_fresh))
    w.set_output(pick_output(w, rng))
    out_stale = w.outdated(again_fresh)
    expect = w.expected(again_fresh)
    n = len(w.log)
    pert = w.pert
    seed_random(rng)
    res = execute(case, lambda: w.run(**kw), pert=pert)
    log = w.log[n:]
    d2 = Did(log)
    if res.exc is not None:
        case.violate(f"the run after the cut failed: {exc_info(res.exc)} {exc_info(res.exc.__cause__)}", cut=note)
        return
    case.count("repaired")
    val, out = w.from_scratch()
    if w.spec.output is not None and canon(res.value) != canon(out):
        case.violate("output: the run after the cut returned something else than from-scratch evaluation", cut=note, got=canon(res.value)[:160], want=canon(out)[:160])
    w.check_contents(lambda m: case.violate(m, cut=note), "contents: after the run that follows the cut")
    if not changed:
        for i in complete:
            if d2.writes[i]:
                case.violate(f"recomputed: node {i} was completely written before the cut, nothing upstream changed, and the next run wrote it again", cut=note)
            if w.spec.nodes[i].kind == "call" and d2.executed[i] and i not in expect[0]:
                case.violate(f"recomputed: the call of node {i} was executed again although its value was completely written before the cut", cut=note)
    if set(d2.writes) != expect[2]:
        case.violate("decision: the run after the cut did not write exactly what was out of date", cut=note, wrote=sorted(d2.writes), want=sorted(expect[2]))
    res = execute(case, lambda: w.run(**run_kw(case, rng, **fresh_kw(again_fresh))), pert=pert)
    d3 = Did(w.log[n + len(log):])
    if res.exc is None and d3.writes:
        case.violate("recomputed: a further run after the repair wrote something", cut=note, wrote=sorted(d3.writes))
