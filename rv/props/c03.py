"""C03: an incremental run gives the same outputs and stored values as from scratch."""
import uberjob

from rv import excs, hist, plangen, trace
from rv.core import Pert, exc_info, execute
from rv.hist import Cut, Did
from rv.plangen import Ref
from rv.props.common import *
from rv.props import large
from rv.world import World, WorldGen, canon

CASES = {"quick": 2000, "thorough": 80000}
DET_WORKERS = 3
MIN = {"successful_runs": 5000, "distinct": 2000, "cut_runs": 1000, "outputs_compared": 3000, "stores_compared": 15000}
RULE = ("histories over random plans with stores: source updates, deletions of stored values, fresh_time advances, runs cut by failing calls "
        "and store operations (before or after their effect) or by KeyboardInterrupt, changing outputs, workers, schedulers and error limits; "
        "after every successful run the output and all store contents are compared with from-scratch evaluation; non-trivial when a run "
        "executed something after a change; distinct by plan, history position and executed set")


def one_run(case, w, rng, pert, fresh, cut=None, **extra):
    kw = run_kw(case, rng, max_errors=rng.choice([0, 0, 1, None]), **hist.fresh_kw(fresh))
    if rng.random() < 0.2:
        kw["retry"] = rng.choice([1, 2])
    kw.update(extra)
    w.set_fault(cut)
    n0 = len(w.log)
    seed_random(rng)
    try:
        res = execute(case, beside(case, lambda: w.run(**kw), w.rec if cut is None else None, 0.04), pert=pert)
    finally:
        w.set_fault(None)
    return res, Did(w.log[n0:]), kw


def check_success(case, w, res, what):
    val, out = w.from_scratch()
    case.count("successful_runs")
    if w.spec.output is not None:
        case.count("outputs_compared")
        if type(res.value) is not type(out) or canon(res.value) != canon(out):
            case.violate(f"output: {what}: the incremental run returned something else than from-scratch evaluation", got=canon(res.value)[:300], want=canon(out)[:300])
    elif res.value is not None:
        case.violate(f"output: {what}: no output requested, got {res.value!r}")
    case.count("stores_compared", sum(1 for i in w.stores if w.spec.nodes[i].kind != "source"))
    w.check_contents(lambda m: case.violate("contents: " + m), what)


def run_case(case):
    rng = case.rng
    if rng.random() < 0.012:
        return large.large_stored(case, rng)
    pert = Pert(case, rng, gate=rng.random() < 0.2)
    spec = WorldGen(rng, pert=pert.plan, max_n=rng.choice([6, 10, 14, 24]), hubs=0.25, deps=0.5, lits=0.15).build()
    w = World(case, spec, pert, alias=rng.choice([0, 0, 0.3]))
    history = []
    case.note(spec=spec.describe(), stored=sorted(spec.stored), history=history)
    fresh = None
    ops = 6
    for round in range(rng.choice([3, 4, 5])):
        f, what = hist.mutate(w, rng) if round else (None, [])
        fresh = f if f is not None else fresh
        w.set_output(hist.pick_output(w, rng))
        entry = {"changes": what, "fresh": fresh, "output": plangen.srepr(spec.output)}
        history.append(entry)
        if rng.random() < 0.45:
            k = rng.randrange(1, max(2, ops + 1))
            how = rng.choice(["raise", "raise", "raise", "interrupt"])
            cut = Cut(case, k, how, rng.choice(["before", "after"]), excs.maker(rng))
            res, did, kw = one_run(case, w, rng, pert, fresh, cut)
            entry["cut"] = [how, k, cut.fired and list(cut.fired)]
            case.count("cut_runs", cut.fired is not None)
            if res.exc is None:
                check_success(case, w, res, f"run {round} (cut point not reached or tolerated)")
            elif how != "interrupt" and not isinstance(res.exc, uberjob.CallError):
                case.violate(f"run raised {type(res.exc).__name__}: {exc_info(res.exc)}")
            if case.violations:
                return
            if rng.random() < 0.5:
                f, what = hist.mutate(w, rng)
                fresh = f if f is not None else fresh
                entry["then"] = [what, fresh]
            if rng.random() < 0.5:
                w.set_output(hist.pick_output(w, rng))
        res, did, kw = one_run(case, w, rng, pert, fresh)
        entry["did"] = did.brief()
        if res.exc is not None:
            case.violate(f"run raised although nothing failed: {exc_info(res.exc)} {exc_info(res.exc.__cause__)}")
            return
        check_success(case, w, res, f"run {round}")
        ops = max(2, hist.count_ops(did.log))
        if round and did.executed:
            case.key(spec.signature(), round, sorted(did.executed), sorted(did.writes))
        if case.violations:
            return
    case.sample({"spec": spec.describe(), "stored": sorted(spec.stored), "history": history})
