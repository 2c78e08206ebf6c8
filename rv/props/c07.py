"""C07: run always terminates and leaves nothing running; cycles are rejected up front."""
import os
import threading
import time

import uberjob
from uberjob.progress import Progress, ProgressObserver, console_progress, html_progress

from rv import excs, plangen, trace
from rv.core import Pert, exc_info, execute
from rv.plangen import Gen, Ref, build
from rv.props.common import *
from rv.props import large
from rv.stores import MemStore
from rv.world import World, WorldGen

CASES = {"quick": 8000, "thorough": 160000}
MIN = {"acyclic_runs": 4000, "cyclic_runs": 800, "distinct": 2000, "thread_refusals": 100}
RULE = ("acyclic graphs with failures, refused thread starts, failing observers, nested runs and bundled displays, and graphs with injected "
        "cycles of every kind, under a deadlock-detecting scheduler and real threads; monitored: return in finite steps, threads alive "
        "and functions executing at return, later events; for cycles: an error before any call or store access; non-trivial when a call "
        "ran or a cycle was present; distinct by graph and interleaving")


class BadObserver(ProgressObserver):
    """Raises at the k-th notification of a kind."""

    def __init__(self, where, k, exc):
        self.where, self.k, self.exc = where, k, exc
        self.n = 0
        self.lock = threading.Lock()

    def _hit(self, where):
        if where == self.where:
            with self.lock:
                self.n += 1
                hit = self.n == self.k
            if hit:
                raise self.exc()

    def __enter__(self):
        self._hit("enter")

    def __exit__(self, *a):
        self._hit("exit")

    def increment_total(self, **k):
        self._hit("total")

    def increment_running(self, **k):
        self._hit("running")

    def increment_completed(self, **k):
        self._hit("completed")

    def increment_failed(self, **k):
        self._hit("failed")


def progress_choice(case, rng):
    k = rng.random()
    if k < 0.75:
        return None
    if k < 0.82:
        where, n, exc = rng.choice(["enter", "exit", "total", "running", "completed", "failed"]), rng.choice([1, 1, 2, 4]), excs.maker(rng, base=False)
        case.note(observer_fails=[where, n])
        return Progress(lambda: BadObserver(where, n, exc))
    if k < 0.9:
        return html_progress(lambda data: None)
    if k < 0.95:
        return console_progress
    return [html_progress(lambda data: None), console_progress]


def at_return(case, res, log, n, settle=True):
    """The state at the moment run returned, and afterwards."""
    if res.leaked:
        case.violate("thread: threads created by run are still alive when it returned", leaked=case.notes.get("leaked") or case.notes.get("leak_stacks"))
    running = {}
    for e in log[:n]:
        if e[0] in (S, "RS", "WS", "MS"):
            running[(e[0][0], e[1])] = running.get((e[0][0], e[1]), 0) + 1
        elif e[0] in (E, F):
            running[("S", e[1])] -= 1
        elif e[0] in ("RE", "RF", "WE", "WF", "ME", "MF"):
            running[(e[0][0], e[1])] -= 1
    left = [k for k, v in running.items() if v]
    if left:
        case.violate(f"running: functions of the plan were still executing when run returned: {left}")
    if len(log) > n:
        case.violate(f"late: something happened after run had returned: {[(e[0], e[1]) for e in log[n:n + 5]]}")


def refuse_os(k):
    """Make the k-th and later thread starts fail, as at a process or memory limit."""
    real = threading._start_new_thread
    n = [0]

    def start(*a, **kw):
        if n[0] >= k:
            raise RuntimeError("can't start new thread")
        n[0] += 1
        return real(*a, **kw)

    return real, start


def monitored(case, fn, log, pert, rng, refuse=None):
    mark = []

    def body():
        try:
            return fn()
        finally:
            mark.append(len(log))

    kw = {}
    if refuse is not None and case.mode == "det":
        kw["refuse_thread"] = refuse
    if refuse is not None and case.mode == "os":
        pert.gate = None
        real, start = refuse_os(refuse)
        threading._start_new_thread = start
        try:
            res = execute(case, body, pert=pert, sched_kw=kw)
        finally:
            threading._start_new_thread = real
    else:
        res = execute(case, body, pert=pert, sched_kw=kw)
    if case.mode == "os" and (res.leaked or rng.random() < 0.05):
        time.sleep(0.02)
    at_return(case, res, log, mark[0])
    return res


def acyclic(case, rng):
    pert = Pert(case, rng, gate=rng.random() < 0.3)
    fail = rng.choice([0, 0, 0.1, 0.3, 0.7])
    reg = rng.random() < 0.25
    mk = lambda cls, **k: cls(rng, hubs=0.25, pert=pert.plan, fail=fail, deps=0.5, max_n=rng.choice([6, 12, 24, 50]), lits=0.15, **k)
    kw = run_kw(case, rng, max_errors=rng.choice([0, 0, 1, 3, None]), retry=rng.choice([None, 1, 2]))
    if rng.random() < 0.15:
        kw["max_workers"] = rng.choice([1, 2, 7, 33, 60]) if case.mode == "os" else rng.choice([1, 9, 12])
    kw["progress"] = progress_choice(case, rng)
    refuse = rng.choice([0, 1, 1, 2, 3, 5]) if rng.random() < 0.12 else None
    if refuse is not None:
        case.count("thread_refusals")
    if reg:
        spec = mk(WorldGen).build()
        for n in spec.calls():
            if n.beh == ("fail",):
                n.beh = ("fail", excs.maker(rng))
        w = World(case, spec, pert)
        log = w.log
        if rng.random() < 0.4:
            where = {i: rng.choice(["read", "write", "mtime"]) for i in w.stores if rng.random() < 0.3}

            def fault(op, sid, phase):
                if where.get(sid) == op and phase == "before":
                    raise excs.maker(rng)()

            for s in w.stores.values():
                s.fault = fault
        if rng.random() < 0.3:
            kw["stale_check_max_workers"] = rng.choice([1, 2, 5])
        fn = lambda: w.run(**kw)
    else:
        spec = mk(Gen).build()
        for n in spec.calls():
            if n.beh == ("fail",):
                n.beh = ("fail", excs.maker(rng))
        rec = Recorder(case, pert)
        nested = rng.random() < 0.1
        if nested:
            inner_log = []

            def value(n, a, k):
                p = uberjob.Plan()
                xs = [p.call(lambda i=i: inner_log.append(i)) for i in range(3)]
                try:
                    uberjob.run(p, output=xs, max_workers=2, progress=None)
                except RuntimeError:
                    if refuse is None:
                        raise
                return plangen.Val(n.id)

            rec.values = value
            case.count("runs_with_nested_runs")
        b = build(spec, rec)
        log = rec.log
        fn = lambda: uberjob.run(b.plan, output=b.output, **kw)
    case.note(spec=spec.describe(), run={k: repr(v)[:60] for k, v in kw.items()}, refuse=refuse)
    seed_random(rng)
    res = monitored(case, fn, log, pert, rng, refuse)
    calls = [e for e in log if e[0] in (S, E, F)]
    note_log(case, calls)
    case.count("acyclic_runs")
    case.count("failing_runs", res.exc is not None)
    if res.exc is not None and refuse is None and not kw["progress"] and not any(e[0] in (F, "RF", "WF", "MF") for e in log):
        # e.g. an internal error that made a run fail although nothing failed
        case.violate(f"run raised although nothing failed: {exc_info(res.exc)} {exc_info(res.exc.__cause__)}")
    if calls:
        case.key(spec.signature(), trace.interleaving(calls))
    summary(case, spec, calls, {k: v for k, v in kw.items() if k != "progress"})


def add_cycle(spec, rng):
    """Add edges that close a cycle; returns the ids on one cycle."""
    ids = [n.id for n in spec.nodes if n.kind != "unpack"]
    kind = rng.choice(["back", "back", "self", "two", "lits", "litcall", "long", "selflit"])
    if kind in ("selflit", "lits", "litcall"):
        lits = []
        for _ in range({"selflit": 1, "lits": rng.choice([2, 3, 4]), "litcall": rng.choice([1, 2])}[kind]):
            l = spec.add("lit")
            l.value = rng.choice([None, 0, "x"])
            lits.append(l.id)
        ring = list(lits)
        if kind == "litcall":
            ring.insert(rng.randrange(len(ring) + 1), rng.choice(ids))
        # usually something depends on the ring, and sometimes the ring on something
        if rng.random() < 0.85:
            spec.deps.append((rng.choice(ring), rng.choice(ids)))
        if rng.random() < 0.4:
            spec.deps.append((rng.choice(ids), rng.choice(ring)))
    elif kind == "self":
        ring = [rng.choice(ids)]
    elif kind == "two":
        ring = rng.sample(ids, min(2, len(ids)))
    elif kind == "long":
        ring = rng.sample(ids, min(len(ids), rng.choice([3, 4, 6])))
    else:
        pairs = [(a, b) for a in ids for b in ids if a != b and spec.reaches(a, b)]
        if pairs:
            a, b = rng.choice(pairs)
            spec.deps.append((b, a))
            return kind, [a, b]
        ring = [rng.choice(ids)]
    for a, b in zip(ring, ring[1:] + ring[:1]):
        spec.deps.append((a, b))
    return kind, ring


def sources_of(spec, targets):
    """Everything the targets transitively depend on, cycles allowed."""
    preds = spec.direct_preds()
    seen = set()
    st = list(targets)
    while st:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            st.extend(preds[x])
    return seen


def has_cycle_within(spec, ids):
    preds = {i: {p for p in ps if p in ids} for i, ps in spec.direct_preds().items() if i in ids}
    changed = True
    while changed and preds:
        free = [i for i, ps in preds.items() if not ps]
        changed = bool(free)
        for i in free:
            del preds[i]
            for ps in preds.values():
                ps.discard(i)
    return bool(preds)


def cyclic(case, rng):
    pert = Pert(case, rng, gate=False)
    spec = Gen(rng, pert=pert.plan, max_n=rng.choice([2, 4, 8, 16]), lits=0.2, deps=0.3).build()
    # the cycle may appear in a plan that has been run
    early = rng.random() < 0.3
    if not early:
        kind, ring = add_cycle(spec, rng)
    ids = [n.id for n in spec.nodes if n.kind != "unpack"]
    rec = Recorder(case, pert)
    b = build(spec, rec)
    log = rec.log
    registry = None
    stored = []
    kw = run_kw(case, rng, max_errors=rng.choice([0, None]))
    if rng.random() < 0.4:
        registry = uberjob.Registry()
        clock = Clock()
        for i in ids:
            if spec.nodes[i].ret is None and rng.random() < 0.4:
                st = MemStore(i, clock, log, pert=pert, pertval=1)
                if rng.random() < 0.6:
                    st.put(f"old{i}")
                registry.add(b.node[i], st)
                stored.append(i)
        kw["registry"] = registry
    if early:
        res = monitored(case, lambda: uberjob.run(b.plan, output=b.output, **kw), log, pert, rng)
        if res.exc is not None:
            case.violate(f"run raised although nothing failed: {exc_info(res.exc)} {exc_info(res.exc.__cause__)}")
        nodes, deps = len(spec.nodes), len(spec.deps)
        spec._anc = None
        kind, ring = add_cycle(spec, rng)
        for n in spec.nodes[nodes:]:
            b.node[n.id] = b.plan.lit(n.value)
        for x, y in spec.deps[deps:]:
            b.plan.add_dependency(b.node[x], b.node[y])
        ids = [n.id for n in spec.nodes if n.kind != "unpack"]
        case.count("cycles_added_after_a_run")
    if rng.random() < 0.5:
        spec.output = Ref(rng.choice(ids + ring)) if rng.random() < 0.5 else [Ref(i) for i in ids]
        b.output = plangen.to_symbolic(spec.output, b.node)
    targets = spec.refs(spec.output) + stored
    exam = sources_of(spec, targets)
    must = has_cycle_within(spec, exam)
    case.note(spec=spec.describe(), ring=ring, kind=kind, must=must, stored=stored)
    for again in range(rng.choice([1, 1, 1, 2])):
        del log[:]
        seed_random(rng)
        res = monitored(case, lambda: uberjob.run(b.plan, output=b.output, **kw), log, pert, rng)
        case.count("cyclic_runs")
        case.count("cycles_to_be_reported", must)
        case.key("cycle", kind, spec.signature(), repr(ring))
        acts = [e for e in log if e[0] in (S, "RS", "WS", "MS")]
        if must:
            if res.exc is None:
                case.violate("cycle: the run succeeded although the nodes it has to examine contain a dependency cycle", kind=kind, ring=ring, value=res.value)
            if acts:
                case.violate("cycle: calls were executed or stores accessed before the dependency cycle was reported", kind=kind, ring=ring, first=[(e[0], e[1]) for e in acts[:4]])
        elif res.exc is not None and acts:
            case.violate(f"cycle outside the needed part: the run failed after executing something: {exc_info(res.exc)}", kind=kind, ring=ring)


def big_case(case, rng):
    big = large.Big(rng, large.size(case, rng))
    if rng.random() < 0.5:
        big.fail = rng.choice(sorted(big.needed()))
    cycle = rng.random() < 0.4
    if cycle:
        need = sorted(big.needed())
        first = rng.choice([0, rng.choice(need)])
        big.plan.add_dependency(big.nodes[big.last], big.nodes[first])
        cycle = first in need and large.reaches(big, first)
    kw = run_kw(case, rng, max_errors=rng.choice([0, None]))
    case.note(large=big.shape, nodes=len(big.nodes), cycle=cycle, run={k: repr(v) for k, v in kw.items()})
    case.key("large", big.shape, len(big.nodes), case.mode, cycle)
    case.count("large_graphs")
    seed_random(rng)
    res = monitored(case, lambda: uberjob.run(big.plan, output=big.nodes[big.last], **kw), big.log, Pert(case, rng), rng)
    if cycle:
        if res.exc is None:
            case.violate("cycle: the run of a large graph succeeded although it contains a dependency cycle", shape=big.shape)
        if big.log:
            case.violate("cycle: calls of a large graph were executed before the dependency cycle was reported", shape=big.shape)


def run_case(case):
    rng = case.rng
    if rng.random() < (0.01 if case.mode == "det" else 0.04):
        return big_case(case, rng)
    if rng.random() < 0.2:
        return cyclic(case, rng)
    acyclic(case, rng)
