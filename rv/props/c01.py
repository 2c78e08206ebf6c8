"""C01: a call never starts before everything it depends on has finished successfully."""
import uberjob

from rv import plangen, trace
from rv.core import Pert, exc_info, execute
from rv.plangen import Gen, N, Ref, Spec, Val, build
from rv.props.common import *
from rv.props import large

CASES = {"quick": 8000, "thorough": 200000}
DET_WORKERS = 5
HANG = "inconclusive"
CRASH = "inconclusive"
MIN = {"call_starts": 10000, "dependency_pairs_checked": 20000, "overlapping_starts": 2000, "distinct": 1500}
RULE = ("random call graphs with argument, keyword, nested, parallel and plain dependency edges, literal hubs and chains (m x n on both "
        "sides of the pruning threshold), failures, retries and stored nodes, run on 1-40 workers with both schedulers under controlled "
        "(opcode-level) and real schedules; for every observed call start each call it transitively depends on must already have an end "
        "event; non-trivial when a started call had a call dependency; distinct by graph and observed interleaving")


def litgrid(case, rng, pert):
    """Calls connected only through literals: hubs, chains of hubs, literals that are also arguments."""
    s = Spec()
    layers = rng.choice([1, 1, 2, 3])
    prev = [s.add("call") for _ in range(rng.choice([1, 1, 2, 3, 4]))]
    for _ in range(layers):
        hubs = [s.add("lit") for _ in range(rng.choice([1, 1, 2, 3]))]
        for h in hubs:
            h.value = rng.choice([1, "x", None])
        nxt = [s.add("call") for _ in range(rng.choice([1, 1, 2, 3, 5]))]
        kind = rng.choice(["full", "chain", "some"])
        if kind == "chain":
            for a, b in zip(hubs, hubs[1:]):
                s.deps.append((a.id, b.id))
            for p in prev:
                s.deps.append((p.id, hubs[0].id))
            for n in nxt:
                s.deps.append((hubs[-1].id, n.id))
        else:
            for p in prev:
                for h in hubs:
                    if kind == "full" or rng.random() < 0.5:
                        s.deps.append((p.id, h.id))
            for h in hubs:
                for n in nxt:
                    if kind == "full" or rng.random() < 0.5:
                        s.deps.append((h.id, n.id))
        for n in nxt:
            if rng.random() < 0.25:
                n.args.append(Ref(rng.choice(hubs).id))
            if rng.random() < 0.2:
                n.args.append([Ref(rng.choice(hubs).id), 2])
            if rng.random() < 0.2:
                n.kwargs["k"] = Ref(rng.choice(prev).id)
            if rng.random() < 0.1:
                s.deps.append((rng.choice(prev).id, n.id))
        prev = nxt
    out = [n.id for n in s.calls() if rng.random() < 0.8] or [prev[0].id]
    s.output = [Ref(i) for i in out]
    if rng.random() < 0.3:
        s.output = Ref(prev[-1].id)
    if rng.random() < 0.15:
        # the output itself is a literal that depends on calls
        lits = [n.id for n in s.nodes if n.kind == "lit"]
        s.output = Ref(rng.choice(lits))
    for n in s.nodes:
        n.pert = pert.plan(rng)
    return s


def big_case(case, rng):
    big, res, kw = large.large(case, rng, failing=rng.random() < 0.3)
    large.order(case, big)


def run_case(case):
    rng = case.rng
    if rng.random() < (0.01 if case.mode == "det" else 0.04):
        return big_case(case, rng)
    pert = Pert(case, rng, gate=rng.random() < 0.4)
    if rng.random() < 0.25:
        spec = litgrid(case, rng, pert)
    else:
        big = rng.random() < 0.06
        g = Gen(rng, pert=pert.plan, hubs=0.3, fail=rng.choice([0, 0, 0.1, 0.3]), n=rng.choice([60, 120, 200]) if big else None,
                max_n=rng.choice([10, 16, 24]), deps=0.5, lits=0.15)
        spec = g.build()
    if rng.random() < 0.1:
        for n in spec.calls():
            if n.ret is None and rng.random() < 0.5:
                n.beh = ("flaky", rng.choice([1, 1, 2]))
    rec = Recorder(case, pert)
    b = build(spec, rec)
    kw = run_kw(case, rng)
    kw["max_errors"] = rng.choice([0, 0, 1, 3, None, None])
    kw["retry"] = rng.choice([None, None, 2])
    registry = None
    if rng.random() < 0.2:
        # stored nodes whose stores are empty: everything is rebuilt, the order must still hold
        registry = uberjob.Registry()
        clock, slog = Clock(), []

        def register(p):
            for n in spec.nodes:
                if n.kind in ("call", "lit", "gather", "item") and n.ret is None and b.node[n.id] not in registry and rng.random() < p:
                    registry.add(b.node[n.id], MemStore(n.id, clock, slog, pert=pert, pertval=pert.plan(rng)))

        register(0.35)
        case.count("runs_with_registry")
    case.note(spec=spec.describe(), run={k: repr(v) for k, v in kw.items()}, stored=len(registry) if registry else 0)
    for round in range(2):
        if round:
            # the plan grows and is run again
            if rng.random() < 0.8:
                return
            if registry is None or rng.random() < 0.5:
                plangen.grow(b, Gen(rng, pert=pert.plan), rng)
            if registry is not None:
                for store in registry.values():
                    store.delete()
                register(0.15)
            rec.attempts.clear()
            if rng.random() < 0.5:
                spec.output = [Ref(n.id) for n in spec.nodes if n.kind != "unpack"]
                b.output = plangen.to_symbolic(spec.output, b.node)
            case.count("runs_of_a_grown_plan")
            case.note(grown=spec.describe())
        n0 = len(rec.log)
        seed_random(rng)
        res = execute(case, beside(case, lambda: uberjob.run(b.plan, output=b.output, registry=registry, **kw), rec), pert=pert)
        judge(case, spec, rec.log[n0:], kw)
        if case.violations:
            return


def judge(case, spec, log, kw):
    note_log(case, log)
    anc = spec.ancestors()
    ended = set()
    pairs = 0
    for e in log:
        if e[0] == S:
            for a in anc[e[1]]:
                if spec.nodes[a].kind == "call":
                    pairs += 1
                    if a not in ended:
                        case.violate(f"order: call {e[1]} started although call {a}, which it depends on, had not finished successfully",
                                     deps=sorted(anc[e[1]]))
                        break
        elif e[0] == E:
            ended.add(e[1])
    case.count("dependency_pairs_checked", pairs)
    if pairs:
        case.key(spec.signature(), trace.interleaving(log))
    summary(case, spec, log, kw)
