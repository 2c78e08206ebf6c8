"""C10: run limits are honoured: max_workers, max_errors and retry."""
import collections
import contextlib
import functools
import random
import threading

import uberjob

from rv import detsched, excs, plangen, trace
from rv.core import Pert, exc_info, execute
from rv.plangen import Gen, Ref, build
from rv.props.common import *
from rv.stores import MemStore
from rv.world import World, WorldGen

CASES = {"quick": 8000, "thorough": 160000}
MIN = {"call_starts": 8000, "distinct": 2000, "rendezvous_reached": 500, "single_worker_error_budgets": 150, "retried_ops": 500,
       "all_eligible_checked": 200}
RULE = ("random graphs and store worlds with failures and flaky operations; monitored: operations in flight, rendezvous in which every call "
        "waits until max_workers run whenever that many are ready (a lost opportunity is a deadlock), failure counts against max_errors, "
        "attempt counts against retry; non-trivial when something ran; distinct by graph and interleaving")


class Meet:
    """Wait for a condition on the log, in either mode."""

    def __init__(self, case):
        self.case = case
        self.cond = threading.Condition() if case.mode == "os" else None
        self.reached = 0
        self.failed = False

    def wait(self, pred):
        if self.case.mode == "det":
            s = detsched.ACTIVE
            s.recheck()
            s.block_until(pred)
            self.reached += 1
        else:
            with self.cond:
                self.cond.notify_all()
                if not self.cond.wait_for(lambda: self.failed or pred(), 20):
                    self.failed = True
                    self.cond.notify_all()
                self.reached += 1

    def changed(self):
        if self.case.mode == "det":
            detsched.ACTIVE.recheck()
        else:
            with self.cond:
                self.cond.notify_all()


def state_lock(case):
    """Controlled threads switch only at scheduling points, and a lock would be one."""
    return contextlib.nullcontext() if case.mode == "det" else threading.Lock()


def parallel_graph(case, rng):
    """Each call ends only when max_workers calls run or fewer than that are ready."""
    W = rng.choice([1, 2, 2, 3, 4, 5, 8]) if case.mode == "det" else rng.choice([2, 2, 3, 4, 6, 8, 16])
    pert = Pert(case, rng)
    fail = rng.choice([0, 0, 0.1])
    shape = rng.choice(["wide", "layers", "chains", "burst", None, "tree"])
    if rng.random() < 0.03:
        W = rng.choice([12, 20, 33, 40, 65, 100])
        shape = rng.choice(["chains", "burst"])
    if shape in ("chains", "burst"):
        spec = structured(rng, W, shape)
    else:
        spec = Gen(rng, hubs=0.3, max_n=rng.choice([12, 24, 40]), min_n=W + 2, shape=shape, fail=fail, lits=0.1, deps=rng.choice([0.1, 0.5]), unpacks=0.03).build()
        spec.output = [Ref(n.id) for n in spec.nodes if n.kind != "unpack"]
    if case.mode == "det" and rng.random() < 0.5:
        # Calls last after they have met, while the other workers have nothing to do.
        for n in spec.nodes:
            n.pert = pert.plan(rng)
    rec = Recorder(case, pert)
    meet = Meet(case)
    anc = {i: {a for a in s if spec.nodes[a].kind == "call"} for i, s in spec.ancestors().items()}
    needed = [i for i in spec.needed() if spec.nodes[i].kind == "call"]
    running = set()
    ended = set()
    failed = set()
    lock = state_lock(case)

    def ready():
        with lock:
            return sum(1 for i in needed if i in running or (i not in ended and i not in failed and anc[i] <= ended))

    def pred():
        return len(running) >= W or ready() < W

    def on_start(n, a):
        with lock:
            running.add(n.id)
        meet.wait(pred)

    def on_end(n, a):
        with lock:
            running.discard(n.id)
            (failed if n.beh[0] == "fail" else ended).add(n.id)
        meet.changed()

    rec.on_start = on_start
    rec.on_end = on_end
    b = build(spec, rec)
    kw = run_kw(case, rng, max_workers=W, max_errors=None)
    case.note(spec=spec.describe(), run=kw, rendezvous=W)
    seed_random(rng)
    res = execute(case, lambda: uberjob.run(b.plan, output=b.output, **kw), pert=pert)
    if meet.failed:
        case.violate(f"parallelism: {W} independent calls were ready but fewer ran at the same time for 20 s")
    case.count("rendezvous_reached", meet.reached)
    mx, _ = concurrency(rec.log)
    case.count("runs_at_full_parallelism", mx == W)
    if mx > W:
        case.violate(f"max_workers: {mx} calls executed at the same time with max_workers={W}")
    if res.exc is not None and not failed:
        case.violate(f"run raised although no call failed: {exc_info(res.exc)}")
    case.key("meet", W, spec.signature(), trace.interleaving(rec.log))
    summary(case, spec, rec.log, kw)


class Half:
    def __init__(self, rng, case):
        self.W = rng.choice([1, 2, 3, 4]) if case.mode == "det" else rng.choice([1, 2, 4, 8, 16])
        self.total = self.left = self.W + rng.choice([0, 1, 3])
        self.running = self.most = 0
        self.fresh = True


def two_runs(case, rng):
    """Runs at the same time, side by side or one inside a call of another, each have all their
    workers: a call ends only when every run has as many calls in progress as it may have."""
    halves = [Half(rng, case) for _ in range(rng.choice([2, 2, 3]))]
    meet, lock = Meet(case), state_lock(case)
    nested = rng.random() < 0.4
    out = [None] * len(halves)

    def pred():
        return all(h.running >= h.W or h.left < h.W for h in halves)

    def call(k, i):
        h = halves[k]
        with lock:
            h.running += 1
            h.most = max(h.most, h.running)
            first, h.fresh = h.fresh, False
        if nested and first and k + 1 < len(halves):
            one(k + 1)
        meet.wait(pred)
        with lock:
            h.running -= 1
            h.left -= 1
        meet.changed()
        return k, i

    def prepare(k):
        h = halves[k]
        p = uberjob.Plan()
        calls = [p.call(call, k, i) for i in range(h.total)]
        kw = run_kw(case, rng, max_workers=h.W)
        return lambda: uberjob.run(p, output=calls, **kw)

    runs = [prepare(k) for k in range(len(halves))]

    def one(k):
        try:
            out[k] = runs[k]()
        except BaseException as e:
            out[k] = e

    def body():
        if nested:
            return one(0)
        ts = [threading.Thread(target=one, args=(k,)) for k in range(1, len(runs))]
        for t in ts:
            t.start()
        one(0)
        for t in ts:
            t.join()

    case.note(runs=[(h.W, h.total) for h in halves], nested=nested)
    seed_random(rng)
    execute(case, body)
    if meet.failed:
        case.violate("parallelism: of several runs at the same time one did not get all its workers", runs=[(h.W, h.total, h.most) for h in halves], nested=nested)
    case.count("rendezvous_reached", meet.reached)
    case.count("runs_side_by_side", len(halves))
    for k, h in enumerate(halves):
        if h.most > h.W:
            case.violate(f"max_workers: {h.most} calls of one run executed at the same time with max_workers={h.W}")
        if not meet.failed and out[k] != [(k, i) for i in range(h.total)]:
            case.violate(f"a run beside another ended with {out[k]!r}"[:300])
    case.key("runs", nested, *[(h.W, h.total) for h in halves])


def structured(rng, W, shape):
    s = plangen.Spec()
    if shape == "chains":
        k = W + rng.choice([0, 0, 1, 3])
        for c in range(k):
            prev = None
            for d in range(rng.choice([2, 3, 4])):
                n = s.add("call")
                if prev is not None:
                    if rng.random() < 0.7:
                        n.args = [Ref(prev)]
                    else:
                        s.deps.append((prev, n.id))
                prev = n.id
    else:
        # one call releases many at once; they join and release many again
        prev = []
        for _ in range(rng.choice([1, 2, 3])):
            top = s.add("call")
            for p in prev:
                s.deps.append((p, top.id))
            prev = []
            for _ in range(W + rng.choice([0, 0, 2, 5])):
                n = s.add("call")
                if rng.random() < 0.6:
                    n.args = [Ref(top.id)]
                else:
                    s.deps.append((top.id, n.id))
                prev.append(n.id)
    s.output = [Ref(n.id) for n in s.nodes]
    return s


def parallel_stores(case, rng):
    """Modified-time queries, reads and writes in parallel, up to their own limits."""
    W = rng.choice([1, 2, 3, 4, 6])
    SW = rng.choice([None, 1, 2, 3, 5])
    what = rng.choice(["mtime", "read", "write"])
    if rng.random() < 0.04:
        W, SW = rng.choice([1, 4, 12, 33, 40, 65]), rng.choice([None, 12, 33, 40, 65])
    sw = SW or W
    limit = sw if what == "mtime" else W
    m = limit * rng.choice([1, 2, 2, 3])
    log = []
    meet = Meet(case)
    started = [0]
    lock = state_lock(case)

    def hook(op, sid, phase):
        if op == what and phase == "before":
            with lock:
                started[0] += 1
                a = started[0]
            target = -(-a // limit) * limit
            meet.wait(lambda: started[0] >= target)

    clock = Clock()
    p = uberjob.Plan()
    reg = uberjob.Registry()
    nodes = []
    for i in range(m):
        st = MemStore(i, clock, log)
        st.fault = hook
        k = rng.random()
        if what == "write":
            node = p.call(lambda: 1)
            reg.add(node, st)
        elif what == "read" or k < 0.5:
            st.put(i)
            node = reg.source(p, st)
        else:
            node = p.call(lambda: 1)
            st.put(1)
            reg.add(node, st)
        nodes.append(node)
    out = nodes if what == "read" else None
    kw = run_kw(case, rng, max_workers=W, stale_check_max_workers=SW)
    case.note(what=what, W=W, SW=SW, m=m)
    seed_random(rng)
    res = execute(case, lambda: uberjob.run(p, output=out, registry=reg, **kw))
    if meet.failed:
        case.violate(f"parallelism: {limit} independent {what} operations were ready but fewer ran at the same time for 20 s", W=W, SW=SW)
    if res.exc is not None:
        case.violate(f"run raised although nothing failed: {exc_info(res.exc)}")
    case.count("rendezvous_reached", meet.reached)
    in_flight(case, log, W, sw)
    case.key("stores", what, W, SW, m, case.mode, trace.interleaving(log))


def in_flight(case, log, W, sw):
    cur = {"op": 0, "m": 0}
    worst = {"op": 0, "m": 0}
    for e in log:
        k = e[0]
        if k in (S, "RS", "WS"):
            cur["op"] += 1
            worst["op"] = max(worst["op"], cur["op"])
        elif k in (E, F, "RE", "RF", "WE", "WF"):
            cur["op"] -= 1
        elif k == "MS":
            cur["m"] += 1
            worst["m"] = max(worst["m"], cur["m"])
        elif k in ("ME", "MF"):
            cur["m"] -= 1
    if worst["op"] > W:
        case.violate(f"max_workers: {worst['op']} calls and store operations executed at the same time with max_workers={W}")
    if worst["m"] > sw:
        case.violate(f"stale_check_max_workers: {worst['m']} modified-time queries at the same time; the limit is {sw}")
    case.count("runs_at_operation_limit", worst["op"] == W)
    return worst


def custom_retry(n, seen):
    def deco(f):
        @functools.wraps(f) if hasattr(f, "__name__") else (lambda g: g)
        def g(*a, **k):
            for i in range(n):
                try:
                    return f(*a, **k)
                except Exception as e:
                    if i == n - 1:
                        raise

        seen.append(f)
        return g

    return deco


def worlds(case, rng):
    """Flaky and failing calls, store operations and modified-time queries under retry; limits."""
    pert = Pert(case, rng, gate=rng.random() < 0.3)
    retry = rng.choice([None, 1, 2, 3, 5]) if rng.random() < 0.9 else rng.choice([4, 6, 8, 10, 12, 17, 40])
    n = retry or 1
    spec = WorldGen(rng, pert=pert.plan, max_n=16).build()
    for c in spec.calls():
        if c.beh == ("ok",) and rng.random() < 0.3:
            c.beh = ("flaky", rng.choice([1, 1, 2, n, n + 1] if rng.random() < 0.3 else [1, max(1, n - 1)]), excs.maker(rng, base=False))
    w = World(case, spec, pert)
    flaky = {}
    for i in w.stores:
        for op in ("read", "write", "mtime"):
            if rng.random() < 0.25:
                flaky[(i, op)] = rng.choice([1, max(0, n - 1), max(0, n - 1), max(0, n - 1), n])
    attempts = collections.Counter()
    last = {}
    make = excs.maker(rng, base=False)
    lock = state_lock(case)

    def fault(op, sid, phase):
        if phase != "before":
            return
        with lock:
            attempts[(sid, op)] += 1
            a = attempts[(sid, op)]
        if a <= flaky.get((sid, op), 0):
            e = make()
            last[(sid, op)] = e
            raise e

    for s in w.stores.values():
        s.fault = fault
    W = workers(case, rng) or 3
    SW = rng.choice([None, None, 1, 2, 4])
    kw = run_kw(case, rng, max_workers=W, stale_check_max_workers=SW, max_errors=rng.choice([0, 0, 1, None]))
    seen = []
    if retry is not None:
        kw["retry"] = custom_retry(n, seen) if rng.random() < 0.3 else retry
    case.note(spec=spec.describe(), run={k: repr(v)[:60] for k, v in kw.items()}, flaky=flaky)
    seed_random(rng)
    res = execute(case, lambda: w.run(**kw), pert=pert)
    log = w.log
    in_flight(case, log, W, SW or W)
    exhausted = judge_retry(case, spec, log, n, w.rec.raised)
    case.count("retried_ops", sum(1 for k, a in attempts.items() if a > 1) + sum(1 for c in spec.calls() if w.rec.attempts.get(c.id, 0) > 1))
    if res.exc is None:
        if exhausted:
            case.violate(f"retry: the run succeeded although {list(exhausted)} failed at every attempt")
    elif isinstance(res.exc, uberjob.CallError):
        if not any(res.exc.__cause__ is x for x in exhausted.values()):
            case.violate("retry: the reported exception is not the one from the last attempt of an exhausted operation",
                         cause=type(res.exc.__cause__).__name__, exhausted=list(exhausted))
    else:
        case.violate(f"run raised {type(res.exc).__name__}: {exc_info(res.exc)}")
    case.key("world", spec.signature(), repr(flaky), trace.interleaving([e for e in log if len(e) > 1]))
    case.count("call_starts", sum(1 for e in log if e[0] == S))


def judge_retry(case, spec, log, n, raised=None):
    """At most n attempts, none after a success; returns operation -> exception of the last attempt
    for the operations that failed at all their attempts."""
    starts = collections.Counter()
    ok = set()
    lastx = {}
    for e in log:
        k = e[0]
        if k in (S, "RS", "WS", "MS"):
            op = (k[0], e[1])
            starts[op] += 1
            if starts[op] > n:
                case.violate(f"retry: operation {op} was attempted {starts[op]} times with retry={n}")
            if op in ok:
                case.violate(f"retry: operation {op} was attempted again after it had succeeded")
        elif k in (E, "RE", "WE", "ME"):
            ok.add(({E: "S"}.get(k, k[0]), e[1]))
        elif k in (F, "RF", "WF", "MF"):
            op = ({F: "S"}.get(k, k[0]), e[1])
            lastx[op] = e[3] if k == F else e[2]
    bad = {op: x for op, x in lastx.items() if op not in ok}
    for op in bad:
        x = bad[op]
        if starts[op] != n and isinstance(x, Exception):
            case.violate(f"retry: operation {op} failed after {starts[op]} attempts although {n} are allowed")
    return bad


def budgets(case, rng):
    """Failure counts against max_errors."""
    pert = Pert(case, rng, gate=rng.random() < 0.3)
    g = Gen(rng, hubs=0.2, pert=pert.plan, max_n=rng.choice([8, 16, 30]), fail=rng.choice([0.1, 0.3, 0.5, 0.9]),
            shape=rng.choice([None, "wide", "wide", "layers"]), deps=rng.choice([0.1, 0.4]))
    spec = g.build()
    spec.output = [Ref(n.id) for n in spec.nodes if n.kind != "unpack"]
    retry = rng.choice([1, 1, 2, 3]) if rng.random() < 0.95 else rng.choice([4, 7, 10, 20])
    base = rng.random() < 0.3
    for n in spec.calls():
        if n.beh == ("fail",):
            n.beh = ("fail", excs.maker(rng, base=base))
        elif n.beh == ("ok",) and retry > 1 and rng.random() < 0.2:
            n.beh = ("flaky", rng.randrange(1, retry))
    rec = Recorder(case, pert)
    b = build(spec, rec)
    k = rng.choice([0, 0, 1, 1, 2, 3, 5, None]) if rng.random() < 0.95 else rng.choice([4, 7, 10, 16, 30])
    kw = run_kw(case, rng, max_errors=k, retry=retry)
    W = kw["max_workers"]
    if W is None or rng.random() < 0.35:
        W = kw["max_workers"] = 1
    case.note(spec=spec.describe(), run=kw)
    seed_random(rng)
    res = execute(case, lambda: uberjob.run(b.plan, output=b.output, **kw), pert=pert)
    log = rec.log
    note_log(case, log)
    in_flight(case, log, W, W)
    bad = judge_retry(case, spec, log, retry, rec.raised)
    anc = spec.ancestors()
    failing = {n.id for n in spec.calls() if n.beh[0] == "fail" and n.id in spec.needed()}
    eligible_failing = {i for i in failing if not (anc[i] & failing)}
    nf = len({op[1] for op in bad})
    if k is not None:
        if nf > k + W:
            case.violate(f"max_errors: {nf} calls failed with max_errors={k} and {W} workers")
        if W == 1:
            case.count("single_worker_error_budgets")
            want = min(k + 1, len(eligible_failing))
            if nf != want:
                case.violate(f"max_errors: with one worker and max_errors={k} exactly {want} calls must fail, {nf} did", failing=sorted(eligible_failing))
    else:
        started = {e[1] for e in log if e[0] == S}
        want = {i for i in spec.needed() if spec.nodes[i].kind == "call" and not (anc[i] & failing)}
        case.count("all_eligible_checked")
        if started != want:
            case.violate("max_errors=None: not every call none of whose dependencies failed was executed", missing=sorted(want - started), extra=sorted(started - want))
    if failing and res.exc is None:
        case.violate("the run succeeded although a call failed")
    if bad and isinstance(res.exc, uberjob.CallError) and not any(res.exc.__cause__ is x for x in bad.values()):
        case.violate("retry: the reported exception is not the one from the last attempt of an exhausted call")
    case.count("failed_calls", nf)
    case.key("budget", spec.signature(), trace.interleaving(log))
    summary(case, spec, log, kw)


def storm(case, rng):
    """Many calls fail at the same moment, around the error limit."""
    W = rng.choice([2, 2, 3, 4, 6]) if case.mode == "det" else rng.choice([2, 4, 8, 16])
    k = rng.choice([0, 0, 1, 1, 2, 3]) if rng.random() < 0.95 else rng.choice([5, 9, 16, 40])
    pert = Pert(case, rng, gate=rng.random() < 0.3)
    m = k + W * rng.choice([2, 3]) + rng.randrange(3)
    s = plangen.Spec()
    top = s.add("call") if rng.random() < 0.3 else None
    good = rng.choice([0, 0, 0.2])
    for _ in range(m):
        n = s.add("call")
        n.beh = ("ok",) if rng.random() < good else ("fail", excs.maker(rng, base=rng.random() < 0.1))
        if top is not None:
            s.deps.append((top.id, n.id))
        if rng.random() < 0.3:
            s.add("call").args = [Ref(n.id)]
    s.output = [Ref(n.id) for n in s.nodes]
    rec = Recorder(case, pert)
    b = build(s, rec)
    kw = run_kw(case, rng, max_errors=k, max_workers=W)
    case.note(storm=m, run=kw)
    seed_random(rng)
    res = execute(case, lambda: uberjob.run(b.plan, output=b.output, **kw), pert=pert, strategy=detsched.LockStep(random.Random(rng.random()), rng.choice([0, 0.01, 0.05])) if rng.random() < 0.4 else None)
    log = rec.log
    in_flight(case, log, W, W)
    nf = sum(1 for e in log if e[0] == F)
    case.count("failed_calls", nf)
    case.count("storms_at_the_limit", nf > k)
    if nf > k + W:
        case.violate(f"max_errors: {nf} calls failed with max_errors={k} and {W} workers")
    if nf and res.exc is None:
        case.violate("the run succeeded although a call failed")
    if nf <= k:
        want = {n.id for n in s.nodes if n.beh[0] == "ok" and not any(s.nodes[r].beh[0] == "fail" for r in s.ancestors()[n.id])}
        started = {e[1] for e in log if e[0] == S}
        if not want <= started:
            case.violate("max_errors: calls none of whose dependencies failed were not executed although the limit was not exceeded", missing=sorted(want - started))
    case.key("storm", W, k, m, trace.interleaving(log))
    summary(case, s, log, kw)


def run_case(case):
    rng = case.rng
    k = rng.random()
    if k < 0.1:
        return storm(case, rng)
    k = rng.random()
    if k < 0.025:
        two_runs(case, rng)
    elif k < 0.28:
        parallel_graph(case, rng)
    elif k < 0.4:
        parallel_stores(case, rng)
    elif k < 0.65:
        worlds(case, rng)
    else:
        budgets(case, rng)
