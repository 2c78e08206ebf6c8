"""C04: each needed call runs exactly once and nothing unneeded runs."""
import collections

import uberjob

from rv import trace
from rv.core import Pert, exc_info, execute
from rv.plangen import Gen, Ref, build
from rv.props.common import *
from rv.props import large
from rv.world import World, WorldGen

CASES = {"quick": 7000, "thorough": 150000}
MIN = {"call_starts": 8000, "distinct": 800, "unneeded_calls_not_run": 300}
RULE = ("random call graphs with partial outputs run under controlled and real schedules; executions counted per call and compared with "
        "the dependency closure of the output (exactly once; zero elsewhere), at most once (per allowed attempt) in failing runs and runs "
        "with a registry; non-trivial when at least two calls were needed; distinct by graph and interleaving")


def with_registry(case, rng):
    pert = Pert(case, rng, gate=rng.random() < 0.3)
    spec = WorldGen(rng, pert=pert.plan, fail=rng.choice([0, 0, 0.1])).build()
    w = World(case, spec, pert)
    case.note(spec=spec.describe())
    for _ in range(rng.choice([1, 2])):
        kw = run_kw(case, rng, max_errors=rng.choice([0, 1, None]))
        retry = 1
        if rng.random() < 0.3:
            kw["retry"] = retry = rng.choice([2, 3])
        n0 = len(w.log)
        w.rec.attempts.clear()
        seed_random(rng)
        execute(case, lambda: w.run(**kw), pert=pert)
        log = w.log[n0:]
        judge_attempts(case, spec, log, retry, "run with a registry")
        for i in list(w.stores):
            if rng.random() < 0.3 and spec.nodes[i].kind != "source":
                w.stores[i].delete()
    case.count("runs_with_registry")
    case.count("call_starts", sum(1 for e in w.log if e[0] == S))
    case.key(spec.signature(), trace.interleaving([e for e in w.log if e[0] in (S, E, F)]))


def judge_attempts(case, spec, log, retry, what):
    starts = collections.Counter()
    done = set()
    writes = collections.Counter()
    for e in log:
        if e[0] == S:
            starts[e[1]] += 1
            if e[1] in done:
                case.violate(f"repeat: {what}: call {e[1]} was executed again after it had finished successfully")
            if starts[e[1]] > retry:
                case.violate(f"repeat: {what}: call {e[1]} was executed {starts[e[1]]} times; {retry} attempts are allowed")
        elif e[0] == E:
            done.add(e[1])
    return starts


def big_case(case, rng):
    big, res, kw = large.large(case, rng, failing=rng.random() < 0.2)
    large.counts(case, big, res)


def run_case(case):
    rng = case.rng
    if rng.random() < (0.01 if case.mode == "det" else 0.04):
        return big_case(case, rng)
    if rng.random() < 0.2:
        return with_registry(case, rng)
    pert = Pert(case, rng, gate=rng.random() < 0.3)
    fail = rng.choice([0, 0, 0, 0.05, 0.2])
    g = Gen(rng, hubs=0.3, pert=pert.plan, unpacks=0.12, gathers=0.12, parallel=0.4, max_n=rng.choice([10, 16, 16, 40]), fail=fail,
            lits=0.15)
    spec = g.build()
    calls = [n.id for n in spec.nodes if n.kind not in ("unpack",)]
    if rng.random() < 0.6 and calls:
        spec.output = Ref(rng.choice(calls)) if rng.random() < 0.5 else [Ref(i) for i in rng.sample(calls, min(len(calls), rng.choice([1, 2, 3])))]
    for n in spec.nodes:
        if n.beh[0] == "iter":
            n.beh = ("iter", n.beh[1], "counted")
    retry = rng.choice([1, 1, 1, 2, 3])
    if retry > 1:
        for n in spec.calls():
            if n.beh == ("ok",) and rng.random() < 0.3:
                n.beh = ("flaky", rng.randrange(1, retry))
    rec = Recorder(case, pert)
    b = build(spec, rec)
    case.note(spec=spec.describe())
    kw = run_kw(case, rng, retry=retry, max_errors=rng.choice([0, 0, 1, 3, None]))
    if rng.random() < 0.1:
        kw["registry"] = uberjob.Registry()
    needed = spec.needed()
    need_calls = {i for i in needed if spec.nodes[i].kind == "call"}
    unpacked = {spec.nodes[u.args[0].id].id for u in spec.nodes if u.kind == "unpack" and u.id in needed and isinstance(u.args[0], Ref)}
    for round in range(rng.choice([1, 1, 2])):
        if round and rng.random() < 0.5:
            plangen.grow(b, g, rng)
            needed = spec.needed()
            need_calls = {i for i in needed if spec.nodes[i].kind == "call"}
            unpacked = {spec.nodes[u.args[0].id].id for u in spec.nodes if u.kind == "unpack" and u.id in needed and isinstance(u.args[0], Ref)}
            case.count("runs_of_a_grown_plan")
            case.note(grown=spec.describe())
        rec.attempts.clear()
        n0 = len(rec.log)
        seed_random(rng)
        res = execute(case, beside(case, lambda: uberjob.run(b.plan, output=b.output, **kw), rec), pert=pert)
        log = rec.log[n0:]
        note_log(case, log)
        starts = judge_attempts(case, spec, log, retry, "run")
        for i in starts:
            if i not in need_calls:
                case.violate(f"unneeded: call {i} was executed although the output does not depend on it", output=repr(spec.output))
        iters = collections.Counter(e[1] for e in log if e[0] == "I")
        for i, k in iters.items():
            if k > 1 or i not in unpacked:
                case.violate(f"repeat: the iterable returned by call {i} was unpacked {k} times (expected {int(i in unpacked)})")
        ends = collections.Counter(e[1] for e in log if e[0] == E)
        if res.exc is None:
            for i in need_calls:
                if ends[i] != 1:
                    case.violate(f"missing: call {i} is needed by the output but finished {ends[i]} times in a successful run")
            for i in unpacked - set(iters):
                case.violate(f"missing: the iterable returned by call {i} was never unpacked in a successful run")
            case.count("successful_runs")
        else:
            if not any(e[0] == F for e in log):
                case.violate(f"run raised although no call failed: {exc_info(res.exc)} {exc_info(res.exc.__cause__)}")
            case.count("failed_runs")
        case.count("unneeded_calls_not_run", len(spec.calls()) - len(need_calls))
        if len(need_calls) > 1:
            case.key(spec.signature(), trace.interleaving(log))
        summary(case, spec, log, kw)
