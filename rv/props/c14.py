"""C14: a dry run touches nothing and returns a faithful, self-contained physical plan."""
import collections
import copy
import gc
import random

import uberjob

from rv import excs, hist, plangen, trace
from rv.core import Pert, exc_info, execute
from rv.hist import Did
from rv.plangen import Gen, Ref
from rv.props import c09
from rv.props.common import *
from rv.world import World, WorldGen, canon

CASES = {"quick": 2000, "thorough": 50000}
DET_WORKERS = 3
MIN = {"dry_runs": 2500, "physical_plans_executed": 2000, "operations_compared": 12000, "distinct": 1500}
RULE = ("worlds of every staleness shape (and plans without registry) put through histories; from the same store state a dry run (events "
        "watched: modified-time queries only), the execution of every node of the returned plan without registry, and the real run on a "
        "twin; executions, reads, writes, order constraints, output and contents compared; also failing and transformed plans; distinct "
        "by world, state and returned plan size")


class Twin:
    """Two worlds of the same specification and state."""

    def __init__(self, case, rng, spec, pert):
        wrap = c09.wrap if rng.random() < 0.5 else None  # stores that change the value on the way
        st = case.rng.getstate()
        self.a = World(case, spec, pert, wrap=wrap)
        case.rng.setstate(st)
        self.b = World(case, spec, pert, wrap=wrap)

    def state(self, w):
        return {i: s.state() for i, s in w.stores.items()}


def acts(log):
    return [e for e in log if e[0] in (S, "RS", "WS")]


def execute_plan(case, phys, node, rng, pert, extra=None):
    """Run all nodes of the returned plan by itself; returns the Result, with the value of `node`."""
    kw = run_kw(case, rng)
    seed_random(rng)
    order = list(phys.graph.nodes)
    how = rng.choice(["gather", "gather", "tail"])
    if how == "gather":
        rng.shuffle(order)
        output = [node, order]
    else:
        # a last call that depends on everything makes every node needed
        plan = phys.copy()
        last = plan.call(lambda *a: a[0] if a else None, *([node] if node is not None else []))
        for u in order:
            plan.add_dependency(u, last)
        phys, output = plan, [last]
    res = execute(case, lambda: uberjob.run(phys, output=output, **kw), pert=pert)
    if res.exc is None:
        res.value = res.value[0]
    return res


def compare(case, real, phys, what):
    for name in ("executed", "reads", "writes"):
        a, b = getattr(real, name), getattr(phys, name)
        case.count("operations_compared", sum(a.values()))
        if a != b:
            case.violate(f"{name}: executing the plan returned by the dry run performs other {name} than {what}",
                         only_real=dict(a - b), only_plan=dict(b - a))


def with_registry(case, rng):
    pert = Pert(case, rng, gate=rng.random() < 0.2)
    dsources = rng.choice([0, 0, 0.08])
    spec = WorldGen(rng, pert=pert.plan, max_n=rng.choice([4, 8, 12, 18]), hubs=0.2, deps=rng.choice([0.2, 0.6]), store_style=rng.choice([None, "some", "most"]),
                    dsources=dsources, lits=rng.choice([0.05, 0.2])).build()
    t = Twin(case, rng, spec, pert)
    a, b = t.a, t.b
    history = []
    case.note(spec=spec.describe(), stored=sorted(spec.stored), history=history)
    for round_ in range(rng.choice([1, 2, 3])):
        seed = rng.random()
        fresh, what = hist.mutate(a, rng, others=(b,)) if round_ or rng.random() < 0.5 else (None, [])
        b.restore(a.snapshot())  # the same state, to the instant
        a_state = t.state(a)
        output = hist.pick_output(a, rng)
        if spec.stored and rng.random() < 0.25:
            output = Ref(rng.choice(sorted(spec.stored)))
        a.set_output(output)
        b.set_output(output)
        kw = dict(hist.fresh_kw(fresh))
        # ---- dry run on a
        n = len(a.log)
        transform = None
        extra = []
        if rng.random() < 0.2:
            def transform(plan, node):
                x = plan.call(lambda: extra.append(1))
                for u in list(plan.graph.nodes):
                    if u is not x and not plan.graph.in_degree(u) and rng_t.random() < 0.5:
                        plan.add_dependency(x, u)
                return plan, node
            kw["transform_physical"] = transform
            rng_t = random.Random(seed)
        seed_random(rng)
        res = execute(case, lambda: a.run(dry_run=True, **kw, **run_kw(case, rng)), pert=pert)
        log = a.log[n:]
        case.count("dry_runs")
        if res.exc is not None:
            case.violate(f"the dry run raised: {exc_info(res.exc)} {exc_info(res.exc.__cause__)}")
            return
        touched = [e for e in log if e[0] not in ("MS", "ME")]
        if touched or extra:
            case.violate("touched: the dry run executed a call or read or wrote a store", events=[(e[0], e[1]) for e in touched[:5]])
        if t.state(a) != a_state:
            case.violate("touched: the dry run changed the contents of a store")
        phys, node = res.value
        if (node is None) != (output is None):
            case.violate("output: the dry run returned an output node although none was requested, or none although one was", node=repr(node))
        if node is not None and node not in phys.graph:
            case.violate("output: the output node returned by the dry run is not part of the returned plan")
            return
        size = (phys.graph.number_of_nodes(), phys.graph.number_of_edges())
        # ---- sometimes other runs happen on the logical plan before the physical plan is used
        if rng.random() < 0.2:
            execute(case, lambda: a.run(dry_run=True, **run_kw(case, rng)), pert=pert)
        if rng.random() < 0.3:
            keep = (a.plan, a.registry, a.node, a.output)
            a.plan = a.registry = a.node = a.output = None
            del keep
            gc.collect()
            rebuild = True
        else:
            rebuild = False
        n = len(a.log)
        del extra[:]
        rp = execute_plan(case, phys, node, rng, pert)
        did_phys = Did(a.log[n:])
        times_phys = len(extra)
        case.count("physical_plans_executed")
        if rp.exc is not None:
            case.violate(f"executing the plan returned by the dry run failed: {exc_info(rp.exc)} {exc_info(rp.exc.__cause__)}")
            return
        if did_phys.mtimes:
            case.violate("self-contained: executing the returned plan queried modified times", stores=sorted(did_phys.mtimes))
        order_check(case, a.log[n:], spec, "the returned plan")
        if rebuild:
            st = case.rng.getstate()
            a.build()
            case.rng.setstate(st)
            a.set_output(output)
        # ---- real run on b
        n = len(b.log)
        if transform:
            rng_t = random.Random(seed)
            del extra[:]
        seed_random(rng)
        rr = execute(case, lambda: b.run(**kw, **run_kw(case, rng)), pert=pert)
        did_real = Did(b.log[n:])
        if rr.exc is not None:
            case.violate(f"the real run raised: {exc_info(rr.exc)} {exc_info(rr.exc.__cause__)}")
            return
        if transform and len(extra) != times_phys:
            case.violate("transform: a call added by transform_physical ran in one of the two only")
        compare(case, did_real, did_phys, "the real run")
        if output is not None and canon(rp.value) != canon(rr.value):
            case.violate("output: executing the returned plan yields another output than the real run", plan=canon(rp.value)[:160], real=canon(rr.value)[:160])
        sa = {i: (s[0], canon(s[1])) for i, s in t.state(a).items()}
        sb = {i: (s[0], canon(s[1])) for i, s in t.state(b).items()}
        if sa != sb:
            case.violate("contents: executing the returned plan leaves other store contents than the real run", differ=[i for i in sa if sa[i] != sb[i]])
        history.append([what, repr(output), size])
        case.key(spec.signature(), *size, sorted(did_real.executed), sorted(did_real.writes))
        if case.violations:
            return
    case.sample({"spec": spec.describe(), "history": history})


def order_check(case, log, spec, what):
    """Reads of a rewritten value come after its write; no call starts before what it depends on."""
    first_write, done = {}, set()
    anc = spec.ancestors()
    written = {e[1] for e in log if e[0] == "WS"}
    for e in log:
        if e[0] == "WE":
            done.add(e[1])
        elif e[0] == "RS" and e[1] in written and e[1] not in done:
            case.violate(f"order: {what} reads the store of node {e[1]} before writing it")
        elif e[0] == S:
            for x in anc[e[1]]:
                if x in written and x not in done:
                    case.violate(f"order: {what} starts call {e[1]} before the store of its ancestor {x} is written")


def plain(case, rng):
    """Without a registry: every remaining call runs exactly once, output as usual."""
    pert = Pert(case, rng)
    spec = Gen(rng, pert=pert.plan, max_n=rng.choice([4, 10, 20]), hubs=0.2, deps=0.4, fail=rng.choice([0, 0, 0.1])).build()
    case.note(spec=spec.describe())
    recs, outs = [], []
    rec = Recorder(case, pert)
    b = plangen.build(spec, rec)
    res = execute(case, lambda: uberjob.run(b.plan, output=b.output, dry_run=True, **run_kw(case, rng)), pert=pert)
    case.count("dry_runs")
    if res.exc is not None:
        case.violate(f"the dry run raised: {exc_info(res.exc)} {exc_info(res.exc.__cause__)}")
        return
    if rec.log:
        case.violate("touched: the dry run executed a call", events=[(e[0], e[1]) for e in rec.log[:5]])
        return
    phys, node = res.value
    r1 = execute_plan(case, phys, node, rng, pert)
    n = len(rec.log)
    r2 = execute(case, lambda: uberjob.run(b.plan, output=b.output, **run_kw(case, rng)), pert=pert)
    case.count("physical_plans_executed")
    if (r1.exc is None) != (r2.exc is None):
        case.violate("outcome: the returned plan and the real run end differently", plan=exc_info(r1.exc), real=exc_info(r2.exc))
        return
    d1, d2 = Did(rec.log[:n]), Did(rec.log[n:])
    if r1.exc is None:
        compare(case, d2, d1, "the real run")
    case.key("plain", spec.signature(), len(phys.graph))


def run_case(case):
    if case.rng.random() < 0.2:
        return plain(case, case.rng)
    with_registry(case, case.rng)
