"""C06: nothing downstream of a failed call runs; the raised error names a real failure."""
import itertools
import operator

import uberjob

from rv import excs, plangen, trace
from rv.core import Pert, exc_info, execute
from rv.plangen import Gen, Ref, build
from rv.props import large
from rv.props.common import *
from rv.stores import StoreError
from rv.world import World, WorldGen

CASES = {"quick": 7000, "thorough": 150000}
MIN = {"failed_runs": 2500, "distinct": 1500, "first_failure_checked": 300}
RULE = ("random call graphs in which calls raise exceptions from ordinary to hostile (unassignable, falsy, shared by several calls, "
        "BaseException, nested CallError), plus failing internal calls and store operations; monitored: starts after failures, "
        "CallError.call and __cause__ identity, first failure with one worker; non-trivial when a call failed; distinct by graph and interleaving")


def check_error(case, res, raised, owner, what, first=None, cause_only=False):
    """raised: list of (owner key, exception object) in the order raised."""
    e = res.exc
    if e is None:
        case.violate(f"{what}: run returned a value although a call failed", raised=[(k, exc_info(x)) for k, x in raised])
        return
    if not isinstance(e, uberjob.CallError):
        case.violate(f"{what}: run raised {type(e).__name__}, not CallError", exc=exc_info(e), cause=exc_info(e.__cause__))
        return
    c = e.__cause__
    hit = [k for k, x in raised if x is c]
    if not hit:
        case.violate(f"{what}: __cause__ is not an exception object raised by a call of this run", cause=f"{type(c).__name__}", raised=[f"{k}:{type(x).__name__}" for k, x in raised])
        return
    if not cause_only:
        o = owner(e.call)
        if o not in hit:
            case.violate(f"{what}: CallError.call is not the call that raised __cause__", call=o, raised_by=hit)
    if first is not None:
        case.count("first_failure_checked")
        k, x = first
        if x is not c or (not cause_only and owner(e.call) != k):
            case.violate(f"{what}: one worker, but the error is not the first failure", first=k, got=hit)


def directed_internal(case, rng):
    """Failing gathers and unpacks: the error names the call that raised and its consumers do not start."""
    p = uberjob.Plan()
    log = []

    def val(v):
        return lambda *a: v

    def after(*a):
        log.append(a)

    kind = rng.choice(["unpack_short", "unpack_long", "unpack_raises", "unpack_noniter", "set", "dict", "getitem_user"])
    pre = [p.call(val(i)) for i in range(rng.choice([0, 1, 3]))]
    before = len(list(p.graph.nodes))
    exc_type = None
    src = None
    if kind.startswith("unpack"):
        n = rng.choice([1, 2, 3])

        def raises():
            yield 1
            raise excs.Plain("while unpacking")

        v = {"unpack_short": [0] * (n - 1), "unpack_long": [0] * (n + 1), "unpack_raises": None, "unpack_noniter": 5}[kind]
        n = max(n, 2) if kind == "unpack_raises" else n
        src = p.call(lambda: raises()) if kind == "unpack_raises" else p.call(val(v))
        known = set(p.graph.nodes)
        items = p.unpack(src, n)
        target = list(items)
        exc_type = {"unpack_raises": excs.Plain, "unpack_noniter": TypeError}.get(kind, ValueError)
        inner = set(p.graph.nodes) - known
        down = p.call(after, target[0])
    elif kind in ("set", "dict"):
        src = p.call(val([1]))
        known = set(p.graph.nodes)
        down = p.call(after, {src, 1} if kind == "set" else {src: 2})
        inner = set(p.graph.nodes) - known - {down}
        exc_type = TypeError
    else:
        src = p.call(val([1]))
        known = set(p.graph.nodes)
        item = p.call(operator.getitem, src, 5)
        inner = {item}
        down = p.call(after, [item, src])
        exc_type = IndexError
    out = [down] + pre
    rng.shuffle(out)
    kw = run_kw(case, rng, max_errors=rng.choice([0, 2, None]))
    seed_random(rng)
    res = execute(case, lambda: uberjob.run(p, output=out, **kw))
    case.note(directed=kind, run=kw)
    case.key("internal", kind, len(pre), case.mode, kw)
    case.count("internal_failures")
    if log:
        case.violate(f"downstream: a call that depends on the failed {kind} was started", kind=kind)
    e = res.exc
    if not isinstance(e, uberjob.CallError):
        case.violate(f"internal failure {kind}: run did not raise CallError", exc=exc_info(e))
        return
    if type(e.__cause__) is not exc_type:
        case.violate(f"internal failure {kind}: unexpected cause", cause=exc_info(e.__cause__))
    if not any(e.call is x for x in inner):
        case.violate(f"internal failure {kind}: CallError.call is not the call that raised", call=repr(e.call))
    elif kind.startswith("unpack") and any(e.call is x for x in target):
        case.violate(f"internal failure {kind}: CallError.call is an item, not the unpacking that raised", call=repr(e.call))


def directed_stores(case, rng):
    """Failing store operations: the cause is the store's exception; nothing downstream runs."""
    pert = Pert(case, rng, gate=False)
    spec = WorldGen(rng, pert=pert.plan, fail=rng.choice([0, 0.05])).build()
    w = World(case, spec, pert)
    case.note(spec=spec.describe())
    raised = []
    make = excs.maker(rng, weird=0.3)
    where = {i: rng.choice(["read", "write", "mtime", "write"]) for i in w.stores if rng.random() < 0.3}

    def fault(op, sid, phase):
        if phase == "before" and where.get(sid) == op:
            e = make()
            raised.append((sid, e))
            raise e

    for s in w.stores.values():
        s.fault = fault
    kw = run_kw(case, rng, max_errors=rng.choice([0, 2, None]))
    seed_random(rng)
    # failed operations in the order they happened, calls included
    res = execute(case, lambda: w.run(**kw), pert=pert)
    log = w.log
    failures = [(e[0], e[1], e[2] if e[0] != F else e[3]) for e in log if e[0] in ("RF", "WF", "MF", F)]
    note_log(case, log)
    anc = spec.ancestors()
    # downstream: a call consuming (or after) a failed call, a failed write or a failed read
    dead_calls, dead_stores = set(), set()
    # when nothing had failed a stored value's consumers wait for write and read
    for e in log:
        if e[0] == F:
            dead_calls.add(e[1])
        elif e[0] == "WF":
            dead_stores.add(e[1])
        elif e[0] == S:
            bad = {a for a in anc[e[1]] if a in dead_calls} | {a for a in anc[e[1]] if a in dead_stores}
            if bad:
                case.violate(f"downstream: call {e[1]} was started although {sorted(bad)} upstream of it had failed", log=[(x[0], x[1]) for x in log])
    if not failures:
        if res.exc is not None and not isinstance(res.exc, uberjob.CallError):
            case.violate(f"run raised {type(res.exc).__name__}", exc=exc_info(res.exc))
        return
    case.count("failed_runs")
    case.count("store_failures", len(raised))
    seq = [(k, x) for _, k, x in failures]
    check_error(case, res, seq, None, "stores", first=seq[0] if kw["max_workers"] == 1 else None, cause_only=True)
    case.key("stores", spec.signature(), trace.interleaving([e for e in log if len(e) > 1]))


def run_case(case):
    rng = case.rng
    if rng.random() < (0.01 if case.mode == "det" else 0.02):
        big, res, kw = large.large(case, rng, failing=True)
        case.count("failed_runs")
        return large.failure(case, big, res)
    k = rng.random()
    if k < 0.06:
        return directed_internal(case, rng)
    if k < 0.25:
        return directed_stores(case, rng)
    pert = Pert(case, rng, gate=rng.random() < 0.3)
    g = Gen(rng, hubs=0.2, pert=pert.plan, max_n=rng.choice([8, 12, 20, 40]), fail=rng.choice([0.05, 0.15, 0.3, 0.6]), deps=0.5,
            shape=rng.choice([None, None, "wide", "layers"]), forms=rng.random() < 0.3)
    spec = g.build()
    if rng.random() < 0.8:
        spec.output = [Ref(n.id) for n in spec.nodes if n.kind != "unpack"] or None
    shared = excs.maker(rng)() if rng.random() < 0.25 else None
    retry = rng.choice([1, 1, 1, 2, 3])
    for n in spec.calls():
        if n.beh == ("fail",):
            m = (lambda e=shared: e) if shared is not None and rng.random() < 0.7 else excs.maker(rng)
            n.beh = ("fail", m)
        elif n.beh == ("ok",) and retry > 1 and rng.random() < 0.2:
            n.beh = ("flaky", rng.randrange(1, retry + 2), excs.maker(rng, base=False))
    rec = Recorder(case, pert)
    b = build(spec, rec)
    me = rng.choice([0, 0, 0, 1, 2, 5, None])
    kw = run_kw(case, rng, max_errors=me, retry=retry)
    if rng.random() < 0.3:
        kw["max_workers"] = 1
    case.note(spec=spec.describe(), run=kw)
    seed_random(rng)
    res = execute(case, beside(case, lambda: uberjob.run(b.plan, output=b.output, **kw)), pert=pert)
    log = rec.log
    note_log(case, log)
    anc = spec.ancestors()
    # A call has failed for good when its last F is not followed by another attempt.
    last = {}
    for i, e in enumerate(log):
        if e[0] in (S, E, F):
            last[e[1]] = (e[0], i)
    failed_at = {i: pos for i, (k, pos) in last.items() if k == F}
    for i, e in enumerate(log):
        if e[0] == S:
            bad = [a for a in anc[e[1]] if a in failed_at]
            if bad:
                case.violate(f"downstream: call {e[1]} was started although {bad} upstream of it failed")
    final = [(i, rec.raised[i][-1], pos) for i, pos in sorted(failed_at.items(), key=lambda kv: kv[1])]
    if not final:
        if res.exc is not None:
            case.violate(f"run raised although no call failed: {exc_info(res.exc)} {exc_info(res.exc.__cause__)}")
        return
    case.count("failed_runs")
    case.count("failures", len(final))
    raised = [(i, x) for i, x, _ in final]
    check_error(case, res, raised, lambda c: b.owner.get(c) if c in b.owner and b.node.get(b.owner[c]) is c else None, "run",
                first=raised[0] if kw["max_workers"] == 1 else None)
    case.key(spec.signature(), trace.interleaving(log))
    summary(case, spec, log, kw)
