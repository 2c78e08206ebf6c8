"""C17: Ctrl-C during a run stops new work, waits for in-flight calls and cleans up."""
import os
import signal
import sys
import threading
import time

import uberjob
from uberjob.progress import Progress, composite_progress, console_progress, html_progress

from rv import detsched, excs, hist, plangen, trace
from rv.core import Pert, exc_info, execute
from rv.hist import Did, after_cut
from rv.plangen import Gen
from rv.props.c15 import Rec, protocol
from rv.props.common import *
from rv.world import World, WorldGen

CASES = {"quick": 5000, "thorough": 120000}
DET_WORKERS = 5
MIN = {"interrupts_received": 2500, "executing_when_received": 3500, "ready_work_left": 800, "settled_then_released": 1000, "repaired": 400, "distinct": 1500}
RULE = ("KeyboardInterrupt delivered to the thread that called run at a chosen operation (call, read, write, modified-time query), while it "
        "waits or at a chosen bytecode while it starts threads, and by real SIGINT; usually the calls in flight are held until the "
        "interrupt has been dealt with; monitored: starts per thread after the interrupt, completion of the calls in flight, threads, "
        "observers, the exception, and with stores the state left and the next run; distinct by plan, point and interleaving")

STARTS = {S: "S", "RS": "R", "WS": "W", "MS": "M"}
STARTS_OF = {"call": "S", "read": "R", "write": "W", "mtime": "M"}
ENDS = {E: "S", F: "S", "RE": "R", "RF": "R", "WE": "W", "WF": "W", "ME": "M", "MF": "M"}


class Log(list):
    """Keeps, beside the events, the thread of each and what every thread is executing."""

    def __init__(self):
        self.ident = []
        self.inside = {}

    def append(self, e):
        t = threading.get_ident()
        self.ident.append(t)
        k = e[0]
        if k in STARTS:
            self.inside[t] = (STARTS[k], e[1])
        elif k in ENDS:
            self.inside[t] = None
        list.append(self, e)

    def executing(self):
        return {t: x for t, x in list(self.inside.items()) if x is not None}


class Interrupter:
    """Decides when the interrupt comes and holds what is in flight until it has been dealt with."""

    def __init__(self, case, rng, log, k, phase, gated, second):
        self.case, self.log, self.k, self.phase, self.gated = case, log, k, phase, gated
        self.second = second
        self.n = 0
        self.main = threading.get_ident()
        self.native = threading.get_native_id()
        self.state = "armed"
        self.at = None  # length of the log at receipt
        self.flight = {}
        self.starting = False
        self.settled_at = None
        self.lock = threading.Lock() if case.mode == "os" else None
        self.opened = threading.Event() if case.mode == "os" else None
        self.held = set()
        self.want_second = False
        self.insist = rng.random() < 0.5
        self.timers = []
        self.seconds = 0

    # ---- receipt
    def receive(self, frame):
        """The interrupt is being delivered to the thread that called run."""
        self.state = "received"
        self.at = len(self.log)
        self.flight = self.log.executing()
        f = frame
        self.stack = []
        while f is not None:
            self.stack.append(f"{os.path.basename(f.f_code.co_filename)}:{f.f_lineno}:{f.f_code.co_name}")
            if f.f_code.co_filename == threading.__file__ and f.f_code.co_name == "start":
                self.starting = True
            f = f.f_back

    # ---- controlled mode
    def try_interrupt(self):
        s = detsched.ACTIVE
        m = s.main
        frame = sys._current_frames().get(m.ident)
        if m.state == detsched.BLOCKED and hist.interruptible(frame):
            self.receive(frame)
            s.interrupt(m, KeyboardInterrupt())
            s.favour = m
            if self.gated:
                s.idle_hook = self.settle_det

    def settle_det(self):
        s = detsched.ACTIVE
        if self.settled_at is None:
            m = s.main
            if self.second and self.seconds < self.second and m.state == detsched.BLOCKED:
                # an impatient user
                self.seconds += 1
                s.interrupt(m, KeyboardInterrupt())
                return True
            self.settled_at = len(self.log)
            s.favour = None
            s.recheck()
            return bool(s.runnable)
        return False

    def main_op(self, frame):
        """Between two bytecodes of the thread that called run."""
        if self.state == "armed-op" and self.log.executing():
            self.n += 1
            if self.n >= self.k:
                s = detsched.ACTIVE
                self.receive(frame)
                s.favour = s.main
                if self.gated:
                    s.idle_hook = self.settle_det
                raise KeyboardInterrupt

    # ---- real signals
    def handler(self, sig, frame):
        if self.state == "received" and self.want_second and not hist.unsafe(frame):
            self.want_second = False
            self.seconds += 1
            raise KeyboardInterrupt
        if self.state != "sent" or hist.unsafe(frame):
            return  # it will come again
        if not self.log.executing():
            self.state = "missed"
            self.opened.set()
            return
        self.receive(frame)
        raise KeyboardInterrupt

    def send(self):
        """A signal that arrives just before a thread goes to sleep is noticed at its next wake-up
        only: keep sending."""
        end = time.monotonic() + 8
        while self.state == "sent" and time.monotonic() < end:
            signal.pthread_kill(self.main, signal.SIGINT)
            time.sleep(0.0005)
        if self.gated and self.state == "received":
            self.settle_os()
        if self.state == "sent":
            self.state = "missed"
            self.opened.set()

    def settle_os(self):
        """Open the gate once the main thread sleeps somewhere and stays there."""
        try:
            end = time.monotonic() + 10
            for _ in range(1 + (self.second or 0)):
                last, same = None, 0
                while same < 25 and time.monotonic() < end:
                    time.sleep(0.001)
                    try:
                        with open(f"/proc/self/task/{self.native}/stat") as f:
                            asleep = f.read().rsplit(")", 1)[1].split()[0] == "S"
                    except OSError:
                        asleep = False
                    f = sys._current_frames().get(self.main)
                    here = (id(f), f.f_lasti, len(self.log)) if f is not None else None
                    del f
                    same = same + 1 if asleep and here == last else 0
                    last = here
                if same < 25:
                    return
                if self.seconds < (self.second or 0) and self.state == "received":
                    self.want_second = True
                    signal.pthread_kill(self.main, signal.SIGINT)
            self.settled_at = len(self.log)
        finally:
            self.opened.set()

    # ---- called by every operation
    def __call__(self, op, i, phase):
        det = self.case.mode == "det"
        if self.state == "armed" and phase == self.phase:
            if self.lock:
                self.lock.acquire()
            self.n += 1
            hit = self.n == self.k
            if self.lock:
                self.lock.release()
            if hit:
                self.state = "pending"
        if self.state == "pending":
            if det:
                s = detsched.ACTIVE
                if self.insist:
                    # let the thread that called run get to where it waits
                    s.favour = s.main
                    for _ in range(50):
                        if s.main.state == detsched.BLOCKED:
                            break
                        s.point()
                    s.favour = None
                if self.state == "pending":
                    self.try_interrupt()
            else:
                self.state = "sent"
                self.timers.append(threading.Thread(target=self.send, daemon=True))
                self.timers[-1].start()
                if self.gated:
                    self.held.add((threading.get_ident(), STARTS_OF[op], i))
                    self.opened.wait(15)
                return
        if self.gated and self.state in ("sent", "received"):
            self.held.add((threading.get_ident(), STARTS_OF[op], i))
            if det:
                detsched.ACTIVE.block_until(lambda: self.settled_at is not None)
            else:
                self.opened.wait(15)


def watch(case, rng, spec):
    """progress argument, recorders, functions that check a bundled display afterwards"""
    recs, finals = [], []

    def one():
        r = Rec(case, rng.random() < 0.5)
        recs.append(r)
        return Progress(lambda: r)

    k = rng.random()
    if k < 0.5:
        return one(), recs, finals
    if k < 0.6:
        return None, recs, finals
    ps = [one()]
    if rng.random() < 0.7:
        pages = []
        ps.insert(rng.randrange(2), html_progress(pages.append))
        finals.append(pages)
    if rng.random() < 0.3:
        ps.append(console_progress)
    return (ps if rng.random() < 0.5 else composite_progress(*ps)), recs, finals


def run_case(case):
    rng = case.rng
    det = case.mode == "det"
    pert = Pert(case, rng)
    stored = rng.random() < 0.4
    fail = rng.choice([0, 0, 0, 0.2])
    mk = dict(pert=pert.plan, max_n=rng.choice([5, 10, 20]), hubs=rng.choice([0.1, 0.4]), deps=0.3, lits=0.05)
    log = Log()
    if stored:
        spec = WorldGen(rng, store_style=rng.choice([None, "most"]), **mk).build()
        w = World(case, spec, pert, log=log)
        w.rec.log = log
        nops = len(spec.calls()) + len(w.stores) * 2
    else:
        spec = Gen(rng, fail=fail, shape=rng.choice([None, None, "wide", "layers"]), **mk).build()
        w = None
        rec = Recorder(case, pert)
        rec.log = log
        b = plangen.build(spec, rec)
        nops = len(spec.calls())
    if not nops:
        return
    retry = rng.choice([None, None, 1, 2, 3])
    for n in spec.calls():
        if n.beh == ("ok",) and not stored and retry and retry > 1 and rng.random() < 0.2:
            n.beh = ("flaky", rng.randrange(1, retry))
    kw = run_kw(case, rng, max_errors=rng.choice([0, 0, 1, None]) if not fail else None, retry=retry)
    kw["progress"], recs, finals = watch(case, rng, spec)
    if not det and rng.random() < 0.1:
        kw["max_workers"] = rng.choice([20, 40])
    at_op = det and rng.random() < 0.15
    k = rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 8]) if at_op else 1 + int(nops * rng.random() ** 2)
    gated = rng.random() < 0.7
    second = rng.choice([1, 1, 2]) if gated and rng.random() < 0.08 else 0
    it = Interrupter(case, rng, log, k, rng.choice(["before", "before", "after"]), gated, second)
    if stored:
        for _ in range(rng.choice([0, 1])):
            execute(case, lambda: w.run(max_workers=2, progress=None), pert=pert)
            case.note(between=hist.mutate(w, rng, grow=False)[1])
        w.set_output(hist.pick_output(w, rng))
        if rng.random() < 0.3:
            kw["stale_check_max_workers"] = rng.choice([1, 2, 4])
        w.set_fault(it)
        fn = lambda: w.run(**kw)
    else:
        rec.fault = it
        fn = lambda: uberjob.run(b.plan, output=b.output, **kw)
    n0 = len(log)
    log.inside.clear()
    if at_op:
        it.state = "armed-op"
    case.note(spec=spec.describe(), run={a: repr(v)[:60] for a, v in kw.items()}, interrupt=[k, it.phase, "opcode" if at_op else "operation", "held" if gated else "free", second])
    marks = {}
    swallowed = []

    def body():
        try:
            return fn()
        finally:
            marks["log"] = len(log)
            marks["recs"] = [len(r.log) for r in recs]
            marks["inside"] = log.executing()
            it.state = "over"
            if it.gated and it.settled_at is None:
                it.settled_at = len(log)
                if det:
                    detsched.ACTIVE.recheck()
            if it.opened:
                it.opened.set()

    seed_random(rng)
    if det:
        def before(s):
            if at_op:
                s.main_op_hook = it.main_op

        res = execute(case, body, pert=pert, before=before)
    else:
        own = signal.signal(signal.SIGINT, it.handler)
        hook = sys.unraisablehook

        def unraisable(u):
            if isinstance(u.exc_value, KeyboardInterrupt):
                swallowed.append(u.err_msg)
            else:
                hook(u)

        sys.unraisablehook = unraisable
        try:
            res = execute(case, body, pert=pert)
            for t in it.timers:
                t.join()
        finally:
            signal.signal(signal.SIGINT, own)
            sys.unraisablehook = hook
        res.leaked = [t for t in res.leaked if t not in it.timers]
    if stored:
        w.set_fault(None)
    note_log(case, list(log))
    # ---- whatever happened
    grace = it.starting or it.seconds
    if res.leaked and not grace:
        case.violate("thread: threads created by run are still alive when it returned", leaked=case.notes.get("leaked") or case.notes.get("leak_stacks"))
    if case.restart:
        case.violate("thread: threads created by run never exited", leaked=case.notes.get("leaked") or case.notes.get("leak_stacks"))
    if it.at is None:
        case.count("finished_before_the_interrupt")
        return
    if swallowed and not isinstance(res.exc, KeyboardInterrupt):
        # the interpreter delivered it to a finaliser or a callback, which cannot pass it on
        case.count("interrupts_swallowed_by_the_interpreter")
        return
    case.count("interrupts_received")
    case.note(interrupted_at=it.stack[:8])
    case.count("interrupt_at_" + ("bytecode" if at_op else "operation"))
    case.count("executing_when_received", len(it.flight))
    case.count("second_interrupts", it.seconds)
    if not isinstance(res.exc, KeyboardInterrupt):
        case.violate(f"propagate: run was interrupted and {'returned' if res.exc is None else 'raised ' + exc_info(res.exc)}")
    # ---- starts after it
    started = {}
    for j in range(it.at, len(log)):
        e = log[j]
        if e[0] not in STARTS:
            continue
        if e[0] == S and e[2] > 1:
            continue  # a further attempt of a call that was already executing
        t = log.ident[j]
        started.setdefault(t, []).append((e[0], e[1]))
        if it.settled_at is not None and j >= it.settled_at:
            case.violate(f"start: {e[0]}{e[1]} was started after the interrupt had been dealt with", flight=sorted(it.flight.values()))
    for t, what in started.items():
        case.count("starts_under_way_at_the_interrupt", len(what))
        if t in it.flight and (t, *it.flight[t]) in it.held:
            case.violate(f"start: a thread that was executing {it.flight[t]} when the interrupt came started {what} although that was held until it had been dealt with")
        elif len(what) > 1 and (gated or det):
            case.violate(f"start: one thread started {what} after the interrupt")
    # ---- what was in flight
    if marks["inside"] and not it.seconds and not it.starting:
        case.violate(f"flight: {sorted(marks['inside'].values())} still executing when the interrupt left run")
    if not det and grace:
        # A join that is interrupted makes CPython take a running thread for a finished one.
        end = time.monotonic() + 10
        while log.executing() and time.monotonic() < end:
            time.sleep(0.001)
    if log.executing():
        case.violate(f"flight: {sorted(log.executing().values())} never ran to completion")
    if len(log) > marks["log"] and not grace:
        case.violate(f"late: something happened after run had raised: {[(e[0], e[1]) for e in log[marks['log']:][:5]]}")
    done = {e[1] for e in log[n0:] if e[0] == S}
    if it.settled_at is not None:
        case.count("settled_then_released")
    left = len(spec.calls()) - len(done)
    case.count("ready_work_left", left > 0)
    # ---- observers
    for r in recs:
        kinds = [e[0] for e in r.log]
        if kinds.count("exit") != 1:
            case.violate(f"observer: exited {kinds.count('exit')} times after an interrupt")
        elif not grace:
            protocol(case, r.log, False, False, False)
    for pages in finals:
        if not pages:
            case.violate("display: nothing was rendered before the interrupt left run")
    # ---- stores
    if stored and not case.violations:
        did = Did(list(log)[n0:])
        case.count("cuts")
        after_cut(case, w, rng, did, None, None, ["interrupt", k, it.phase])
    case.key(spec.signature(), k, it.phase, at_op, trace.interleaving([e for e in list(log)[n0:] if e[0] in STARTS or e[0] in ENDS]))
    case.sample({"spec": spec.describe(), "interrupt": case.notes["interrupt"], "log": [f"{e[0]}{e[1]}" for e in list(log)[n0:n0 + 60]], "received_at": it.at - n0})
