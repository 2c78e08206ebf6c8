"""C16: intermediate results are released as soon as their last consumer has finished."""
import datetime as dt
import gc
import time
import weakref

import uberjob

from rv import detsched, excs, plangen, trace
from rv.core import Pert, exc_info, execute
from rv.plangen import Gen, Ref, Val
from rv.props import large
from rv.props.common import *

CASES = {"quick": 5000, "thorough": 120000}
DET_WORKERS = 4
MIN = {"results_tracked": 20000, "found_released_during_the_run": 20000, "probes": 4000, "failing_runs": 400, "stored_results": 1000, "distinct": 2500}
RULE = ("random call graphs with and without value stores, failures and retries under controlled and real schedules; every result is "
        "watched through a weak reference; at the start of calls and at the end of the run, after the other threads have had time to "
        "finish what they were doing, every result whose consumers (through gathers and unpacking) have all finished and which is not "
        "part of the output must be gone; distinct by graph and interleaving")

T0 = dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc)


class ForgetStore(uberjob.ValueStore):
    """Keeps no reference to what it is given; every read makes a new object."""

    def __init__(self, i, mon, present):
        self.i, self.mon = i, mon
        self.t = T0 if present else None

    def read(self):
        v = Val(self.i, "r")
        self.mon.track(("r", self.i), v)
        return v

    def write(self, value):
        self.mon.act()
        self.t = T0
        self.mon.written.add(self.i)

    def get_modified_time(self):
        return self.t


class Watching(uberjob.progress.ProgressObserver):
    """Takes every notification and keeps nothing."""

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def increment_total(self, **kw):
        pass

    increment_running = increment_completed = increment_failed = increment_total


class Monitor:
    def __init__(self, case, spec, pert, stored, attempts):
        self.case, self.spec, self.pert, self.stored, self.attempts = case, spec, pert, stored, attempts
        self.live = []  # (key, weakref)
        self.started, self.ended, self.gone, self.written = set(), set(), set(), set()
        self.over = False
        self.fails = {}
        self.suspects = []
        self.rules = {}
        self.needed = spec.needed() if not stored else {n.id for n in spec.nodes}
        self.out = spec.refs(spec.output) if spec.output is not None else set()
        self.anc = spec.ancestors()
        self.users = {n.id: [] for n in spec.nodes}
        for n in spec.nodes:
            if n.id in self.needed or stored:
                for a in spec.arg_refs(n):
                    self.users[a].append(n.id)
                if n.kind == "item" and n.parent not in spec.arg_refs(n):
                    self.users[n.parent].append(n.id)
        self.held = set()

    def act(self):
        if self.case.mode == "det" and detsched.ACTIVE is not None and detsched.ACTIVE.is_managed():
            detsched.ACTIVE.point()

    def track(self, key, v):
        self.live.append((key, weakref.ref(v)))
        self.case.count("results_tracked")

    def rule(self, key):
        """(part of the output, consuming calls, internal consumers, consumed by a write only)"""
        r = self.rules.get(key)
        if r is not None:
            return r
        kind, c = key
        if kind == "c" and c in self.stored:
            r = (False, set(), set(), True)
        else:
            consumers, inner, exempt = set(), set(), c in self.out
            todo, seen = [c], set()
            while todo:
                x = todo.pop()
                for u in self.users[x]:
                    if u in seen:
                        continue
                    seen.add(u)
                    if self.spec.nodes[u].kind == "call":
                        consumers.add(u)
                    else:
                        exempt = exempt or u in self.out
                        inner.add(u)
                        todo.append(u)
            r = (exempt, consumers, inner, False)
        self.rules[key] = r
        return r

    def releasable(self):
        """Weak references that must be dead once every thread has come to rest."""
        out = []
        finished = set(self.ended) | set(self.gone)
        # gathers and unpacks are known to have run once something behind them has started
        passed = None if self.over else set().union(*(self.anc[i] for i in set(self.started)))
        for key, ref in list(self.live):
            exempt, consumers, inner, write = self.rule(key)
            if ref() is None:
                continue
            if exempt:
                continue
            if write:
                if key[1] in self.written:
                    out.append((key, ref, set()))
            elif consumers <= finished and (passed is None or inner <= passed) and (key[0] == "r" or key[1] in self.ended):
                out.append((key, ref, consumers & self.gone))
        return out

    def probe(self, when):
        case = self.case
        cand = self.releasable()
        case.count("probes")
        # let everything else come to rest
        if case.mode == "det" and detsched.ACTIVE is not None and detsched.ACTIVE.is_managed():
            detsched.ACTIVE.work(100000.0)
        else:
            # (a failed consumer's arguments may legitimately be held by the reported traceback)
            t0 = time.monotonic()
            collect = 0.004
            while True:
                wait = [(r, f) for k, r, f in cand if r() is not None and k not in self.held]
                t = time.monotonic() - t0
                if not wait or t > 10 or (t > 0.3 and all(f for _, f in wait)):
                    break
                time.sleep(0.002)
                if t > collect:
                    collect = 2 * t
                    gc.collect()
            self.held.update(k for k, r, f in cand if f and r() is not None)
        if any(r() is not None for _, r, _ in cand):
            gc.collect()
        for key, ref, failed in cand:
            v = ref()
            if v is not None:
                kinds = sorted({type(x).__name__ for x in gc.get_referrers(v)})
                del v
                self.suspects.append((key, failed, when, kinds))
        case.count("found_released_during_the_run", sum(1 for k, r in self.live if r() is None))
        self.live = [(k, r) for k, r in self.live if r() is not None] if case.mode == "det" else self.live


def run_case(case):
    rng = case.rng
    if rng.random() < (0.01 if case.mode == "det" else 0.02):
        return large.release(case, rng)
    pert = Pert(case, rng, gate=rng.random() < 0.15)
    fail = rng.choice([0, 0, 0, 0.1, 0.3])
    spec = Gen(rng, pert=pert.plan, max_n=rng.choice([6, 12, 20, 40]), fail=fail, hubs=0.15, unpacks=0.12, gathers=0.12, deps=0.4, lits=0.05)
    spec = spec.build()
    calls = [n.id for n in spec.calls()]
    if not calls:
        return
    if rng.random() < 0.6:
        # a small output, so that much is intermediate; a last call keeps everything needed
        last = spec.add("call")
        last.form = "fn"
        for i in calls:
            spec.deps.append((i, last.id))
        spec.output = Ref(last.id)
        calls.append(last.id)
    attempts = rng.choice([1, 1, 1, 2, 3])
    for n in spec.calls():
        if n.form == "class":
            n.form = "fn"
        if n.beh == ("fail",):
            n.beh = ("fail", rng.choice(excs.ORDINARY))
        elif n.beh == ("ok",) and attempts > 1 and rng.random() < 0.3:
            n.beh = ("flaky", rng.randrange(1, attempts))
    stored = set()
    if rng.random() < 0.3:
        stored = {i for i in calls if spec.nodes[i].ret is None and spec.nodes[i].beh[0] in ("ok", "flaky") and rng.random() < 0.4}
    mon = Monitor(case, spec, pert, stored, attempts)
    rec = Recorder(case, pert, keep=False)

    def value(n, args, kwargs):
        v = Val(n.id)
        mon.track(("c", n.id), v)
        return v

    def items(n, k, args, kwargs):
        vs = [Val(n.id, f".{i}") for i in range(k)]
        for v in vs:
            mon.track(("c", n.id), v)
        return vs

    rec.values, rec.items = value, items
    rate = rng.choice([0.1, 0.3, 0.6]) if case.mode == "det" else rng.choice([0.1, 0.3])

    def on_start(n, a):
        if rng.random() < rate:
            mon.probe(f"start of call {n.id}")

    rec.on_start = on_start
    b = plangen.build(spec, rec)
    registry = None
    kw = run_kw(case, rng, max_errors=rng.choice([0, 0, 2, None, None]), retry=attempts if attempts > 1 else rng.choice([None, 1]))
    if stored:
        kw["registry"] = registry = uberjob.Registry()
        for i in stored:
            registry.add(b.node[i], ForgetStore(i, mon, rng.random() < 0.15))
        case.count("stored_results", len(stored))
    # the log tells what has ended; entries are made before the function returns

    class Log(list):
        def append(self, e):
            list.append(self, e)
            if e[0] == S:
                mon.started.add(e[1])
            elif e[0] == E:
                mon.ended.add(e[1])
            elif e[0] == F:
                k = mon.fails[e[1]] = mon.fails.get(e[1], 0) + 1
                if k >= attempts:
                    mon.gone.add(e[1])

    rec.log = Log()
    case.note(spec=spec.describe(), stored=sorted(stored), run={k: repr(v)[:50] for k, v in kw.items()})
    seed_random(rng)
    ids = {id(u): i for i, u in b.node.items()}
    gc_was = rng.random() < 0.2
    if rng.random() < 0.25:
        kw["progress"] = [uberjob.progress.Progress(Watching) for _ in range(rng.choice([1, 2]))]
    if rng.random() < 0.1:
        kw["transform_physical"] = lambda plan, node: (plan.copy(), node)

    def go():
        return uberjob.run(b.plan, output=b.output, **kw)

    if gc_was:
        gc.disable()
    try:
        res = execute(case, go, pert=pert)
    finally:
        if gc_was:
            gc.enable()
    reported = None
    if res.exc is not None:
        case.count("failing_runs")
        c = getattr(res.exc, "call", None)
        reported = ids.get(id(c))
    # a run that failed may never have got to some gathers
    mon.over = res.exc is None
    mon.probe("end of the run")
    # the arguments of the call whose failure is reported live in its traceback
    for key, failed, when, kinds in mon.suspects:
        if reported is not None and reported in failed:
            case.count("held_by_the_reported_traceback")
            continue
        what = {"c": "result", "r": "stored value read"}[key[0]]
        how = "a consumer failed" if failed else "all its consumers had finished"
        case.violate(f"held: the {what} of node {key[1]} was still referenced although {how} (at the {when})", consumers=sorted(mon.rule(key)[1]), referrers=kinds)
    interleaving = trace.interleaving(rec.log)
    # afterwards nothing is left, whatever happened
    res.value = None
    res.exc = None
    res.sched = None
    rest = [(k, r) for k, r in mon.live if r() is not None]
    if rest:
        gc.collect()
        rest = [(k, r) for k, r in rest if r() is not None]
        if rest:
            case.violate(f"held: results are still referenced after the run, its output and its error are gone: {[k for k, _ in rest][:5]}",
                         referrers=sorted({type(x).__name__ for x in gc.get_referrers(rest[0][1]())}))
    if len(calls) > 1:
        case.key(spec.signature(), interleaving, sorted(stored))
    case.sample({"spec": spec.describe(), "stored": sorted(stored), "log": [f"{e[0]}{e[1]}" for e in rec.log[:60]]})
