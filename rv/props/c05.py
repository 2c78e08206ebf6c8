"""C05: exactly the out-of-date stored values are rebuilt; a repeated run does nothing."""
import uberjob

from rv import hist, plangen, trace
from rv.core import Pert, exc_info, execute
from rv.hist import Did
from rv.plangen import Ref
from rv.props.common import *
from rv.props import large
from rv.world import World, WorldGen

CASES = {"quick": 2000, "thorough": 80000}
DET_WORKERS = 2
MIN = {"runs": 4500, "distinct": 2000, "partial_rebuilds": 500, "repeat_runs": 1500}
RULE = ("random plans with sources, dependent sources and stored calls/literals/gathers/items; histories of source updates, deletions, "
        "touched modified times (ties included), fresh_time and changing outputs; after each successful run executions, reads and writes are "
        "compared with the declarative out-of-date set; repeated runs must do nothing; non-trivial when something was stored; distinct by "
        "plan, out-of-date set and output")


def judge(case, w, did, exp, stale, what):
    execd, read, written = exp
    for name, got, want in (("executed", did.executed, execd), ("read", did.reads, read), ("written", did.writes, written)):
        if set(got) != want:
            case.violate(f"{name}: {what}: expected exactly {sorted(want)}, got {sorted(got)}", missing=sorted(want - set(got)),
                         extra=sorted(set(got) - want), out_of_date=sorted(stale))
        for i, k in got.items():
            if k != 1:
                case.violate(f"{name}: {what}: {i} was {name} {k} times")


def run_case(case):
    rng = case.rng
    if rng.random() < 0.012:
        return large.large_stored(case, rng)
    pert = Pert(case, rng, gate=rng.random() < 0.2)
    spec = WorldGen(rng, pert=pert.plan, max_n=rng.choice([6, 10, 14, 24]), hubs=0.25, deps=0.5, lits=0.15).build()
    w = World(case, spec, pert)
    history = []
    case.note(spec=spec.describe(), stored=sorted(spec.stored), history=history)
    fresh = None
    for round in range(rng.choice([2, 3, 4])):
        if round:
            f, what = hist.mutate(w, rng, touch=True)
            fresh = f if f is not None else fresh if rng.random() < 0.5 else None
        else:
            what = ["start"]
            for i in w.stores:
                if spec.nodes[i].kind != "source" and rng.random() < 0.25:
                    w.stores[i].put("preset")
                    what.append(f"preset {i}")
        w.set_output(hist.pick_output(w, rng))
        stale = w.outdated(fresh)
        exp = w.expected(fresh)
        kw = run_kw(case, rng, **hist.fresh_kw(fresh))
        history.append({"changes": what, "fresh": fresh, "out_of_date": sorted(stale), "output": plangen.srepr(spec.output)})
        n0 = len(w.log)
        seed_random(rng)
        res = execute(case, beside(case, lambda: w.run(**kw), w.rec, 0.04), pert=pert)
        did = Did(w.log[n0:])
        case.count("runs")
        history[-1]["did"] = did.brief()
        if res.exc is not None:
            case.violate(f"run raised although nothing failed: {exc_info(res.exc)} {exc_info(res.exc.__cause__)}")
            return
        judge(case, w, did, exp, stale, f"run {round}")
        derived = [i for i in w.stores if spec.nodes[i].kind != "source"]
        if derived:
            case.key(spec.signature(), sorted(stale), plangen.srepr(spec.output), sorted(spec.stored))
            case.count("partial_rebuilds", 0 < len(stale) < len(derived))
            case.count("values_rebuilt", len(did.writes))
            case.count("values_kept", len(derived) - len(stale))
        if rng.random() < 0.6:
            w.set_output(None)
            n0 = len(w.log)
            kw = run_kw(case, rng, **hist.fresh_kw(fresh))
            res = execute(case, lambda: w.run(**kw), pert=pert)
            did = Did(w.log[n0:])
            case.count("repeat_runs")
            if res.exc is not None:
                case.violate(f"the repeated run raised: {exc_info(res.exc)}")
            if not did.nothing():
                case.violate("repeat: a run repeated immediately after a successful one was not empty", did=did.brief())
        if case.violations:
            return
    case.sample({"spec": spec.describe(), "stored": sorted(spec.stored), "history": history})
