"""C13: run, dry_run and render never modify the Plan or Registry they are given."""
import copy
import threading

import uberjob

from rv import detsched, excs, hist, plangen, trace
from rv.core import Pert, exc_info, execute
from rv.hist import Did
from rv.plangen import Ref
from rv.props.common import *
from rv.stores import MemStore
from rv.world import World, WorldGen, canon

CASES = {"quick": 3000, "thorough": 80000}
DET_WORKERS = 3
MIN = {"snapshots_compared": 6000, "distinct": 1500, "concurrent_runs": 800, "renders": 800, "dry_runs": 800, "failing_runs": 400}
RULE = ("random plans with registries put through sequences of runs (successful, failing, dry, transformed, with cycles), renders and "
        "concurrent runs from several threads; full structural snapshots (node identities, scopes, functions, values, frames, edges with "
        "keys and data, registry entries) compared after each; repeated and concurrent runs judged by from-scratch values; copies checked "
        "for independence; distinct by plan and operation sequence")


def snap_plan(plan):
    g = plan.graph
    nodes = []
    for u, d in g.nodes(data=True):
        nodes.append((id(u), type(u).__name__, getattr(u, "scope", None), id(getattr(u, "fn", None)), id(getattr(u, "value", None)),
                      id(getattr(u, "stack_frame", None)), dict(d)))
    edges = [(id(u), id(v), id(k), type(k).__name__, getattr(k, "index", None), getattr(k, "name", None), dict(d))
             for u, v, k, d in g.edges(keys=True, data=True)]
    return {"graph": id(g), "attrs": dict(g.graph), "nodes": nodes, "edges": edges}


def snap_registry(reg):
    if reg is None:
        return None
    out = {"items": [(id(u), id(s)) for u, s in reg.items()], "len": len(reg)}
    mapping = getattr(reg, "mapping", None)
    if mapping is not None:
        out["entries"] = [(id(v), id(v.value_store), getattr(v, "is_source", None), id(getattr(v, "stack_frame", None))) for v in mapping.values()]
    return out


def compare(case, what, before, plan, reg):
    case.count("snapshots_compared")
    after = snap_plan(plan), snap_registry(reg)
    for name, a, b in (("plan", before[0], after[0]), ("registry", before[1], after[1])):
        if a == b:
            continue
        for k in a:
            if a[k] != b[k]:
                # order of nodes and edges carries the meaning of argument order only through the keys;
                # what matters is the content
                if isinstance(a[k], list) and sorted(map(repr, a[k])) == sorted(map(repr, b[k])) and name == "plan":
                    continue
                extra = [x for x in b[k] if x not in a[k]][:4] if isinstance(b[k], list) else b[k]
                gone = [x for x in a[k] if x not in b[k]][:4] if isinstance(a[k], list) else a[k]
                case.violate(f"modified: {what} changed the {name}'s {k}", extra=extra, gone=gone)


def values_ok(case, w, value, what):
    val, out = w.from_scratch()
    if w.spec.output is not None and canon(value) != canon(out):
        case.violate(f"meaning: {what} returned another value than the plan means", got=canon(value)[:200], want=canon(out)[:200])


def transformer(rng):
    how = rng.choice(["drop", "add", "same", "raise"])

    def t(plan, node):
        if how == "drop":
            for u in list(plan.graph.nodes)[::2]:
                if u is not node:
                    plan.graph.remove_node(u)
        elif how == "add":
            x = plan.call(lambda: None)
            for u in list(plan.graph.nodes):
                if u is not x:
                    plan.add_dependency(x, u)
        elif how == "raise":
            raise excs.Plain("transform")
        return plan, node

    return how, t


def run_case(case):
    rng = case.rng
    if rng.random() < 0.15:
        return copies(case, rng)
    pert = Pert(case, rng, gate=rng.random() < 0.2)
    spec = WorldGen(rng, pert=pert.plan, max_n=rng.choice([5, 9, 14]), scopes=True, hubs=0.3, deps=0.5, lits=0.15,
                    dsources=rng.choice([0, 0.08])).build()
    w = World(case, spec, pert)
    use_reg = not any(n.kind in ("source", "dsource") for n in spec.nodes) and rng.random() < 0.5
    ops = []
    case.note(spec=spec.describe(), stored=sorted(spec.stored), ops=ops)
    base = snap_plan(w.plan), snap_registry(w.registry)
    ambient = rng.choice([(), (), ("ambient", 1)])
    cycle_edge = None

    def body(kw):
        with w.plan.scope(*ambient) if ambient else _null():
            return w.run(**kw)

    for _ in range(rng.choice([2, 3, 4, 5])):
        op = rng.choice(["run", "run", "fail", "dry", "transform", "render", "concurrent", "noreg", "change", "drykeep"])
        ops.append(op)
        w.set_output(hist.pick_output(w, rng))
        kw = run_kw(case, rng, max_errors=rng.choice([0, None]))
        seed_random(rng)
        if op == "change":
            hist.mutate(w, rng)
            base = snap_plan(w.plan), snap_registry(w.registry)
            use_reg = use_reg and not any(n.kind == "source" for n in spec.nodes)
            continue
        if op == "run":
            res = execute(case, lambda: body(kw), pert=pert)
            if res.exc is not None:
                case.violate(f"run raised: {exc_info(res.exc)} {exc_info(res.exc.__cause__)}")
            else:
                values_ok(case, w, res.value, "a repeated run")
        elif op == "fail":
            cut = hist.Cut(case, rng.randrange(1, 12), "raise", rng.choice(["before", "after"]), excs.maker(rng))
            w.set_fault(cut)
            res = execute(case, lambda: body(kw), pert=pert)
            w.set_fault(None)
            case.count("failing_runs", res.exc is not None)
        elif op in ("dry", "drykeep"):
            res = execute(case, lambda: w.run(dry_run=True, **kw), pert=pert)
            case.count("dry_runs")
            if res.exc is None and op == "drykeep":
                # Whoever receives the physical plan may change it.
                phys, node = res.value
                x = phys.call(lambda: 1)
                for u in list(phys.graph.nodes):
                    if u is not x:
                        phys.add_dependency(u, x)
                for u, v, k in list(phys.graph.edges(keys=True))[::2]:
                    phys.graph.remove_edge(u, v, k)
        elif op == "transform":
            how, t = transformer(rng)
            ops[-1] = f"transform-{how}"
            kw["dry_run"] = rng.random() < 0.3
            kept = w.snapshot()
            res = execute(case, lambda: w.run(transform_physical=t, **kw), pert=pert)
            if how == "drop":
                w.restore(kept)  # calls may have run without their arguments
        elif op == "render":
            case.count("renders")
            kwr = {"format": "raw"}
            if rng.random() < 0.6:
                kwr["registry"] = w.registry
            if rng.random() < 0.5:
                kwr["level"] = rng.choice([0, 1, 2])
            if rng.random() < 0.4:
                kwr["predicate"] = rng.choice([lambda u, d: type(u).__name__ == "Call", lambda u, d: len(u.scope) == 0, lambda u, d: False])
            what = rng.choice([w.plan, w.plan.graph, (w.plan, None)])
            try:
                uberjob.render(what, **kwr)
            except Exception as e:
                case.note(render_error=exc_info(e))
                case.count("render_errors")
        elif op == "noreg":
            res = execute(case, lambda: uberjob.run(w.plan, output=w.output, **kw), pert=pert)
        else:
            concurrent(case, w, rng, pert)
        compare(case, ops[-1], base, w.plan, w.registry)
        if case.violations:
            return
    if ambient:
        with w.plan.scope("after"):
            n = w.plan.call(len, "x")
        case.expect(n.scope == ("after",), "modified: the plan's scope changed", scope=n.scope)
    case.key(spec.signature(), ",".join(ops))
    case.sample({"spec": spec.describe(), "ops": ops})


class _null:
    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass


def concurrent(case, w, rng, pert):
    """The same plan from several threads at once."""
    k = rng.choice([2, 2, 3])
    out = [None] * k
    kws = [run_kw(case, rng, max_workers=rng.choice([1, 2, 3])) for _ in range(k)]
    dry = [rng.random() < 0.2 for _ in range(k)]

    def one(i):
        try:
            out[i] = ("ok", w.run(dry_run=dry[i], **kws[i]))
        except BaseException as e:
            out[i] = ("exc", e)

    held = rng.random() < 0.4

    def all_():
        ts = [threading.Thread(target=one, args=(i,)) for i in range(k)]
        # One thread may be building on, inside a scope, while others run the plan.
        with w.plan.scope("held") if held else _null():
            for t in ts:
                t.start()
            join(case, ts, "a run started while another thread was inside a scope of the plan" if held else "a concurrent run")

    case.count("runs_during_a_scope", held)
    res = execute(case, all_, pert=pert)
    case.count("concurrent_runs", k)
    if res.exc is not None:
        raise res.exc
    for i, (what, v) in enumerate(out):
        if what == "exc":
            case.violate(f"concurrent: run {i} of {k} raised: {exc_info(v)} {exc_info(v.__cause__)}")
        elif not dry[i]:
            values_ok(case, w, v, f"concurrent run {i} of {k}")
    if not all(dry):
        w.check_contents(lambda m: case.violate("concurrent: " + m), "after concurrent runs")


def copies(case, rng):
    """Plan.copy and Registry.copy are independent of their originals."""
    pert = Pert(case, rng)
    spec = WorldGen(rng, pert=pert.plan, max_n=10, scopes=True).build()
    w = World(case, spec, pert)
    case.note(spec=spec.describe())
    how = rng.choice(["copy", "copy.copy", "in-scope"])
    if how == "in-scope":
        with w.plan.scope("open", 2):
            p2 = w.plan.copy()
        r2 = w.registry.copy()
    elif how == "copy":
        p2, r2 = w.plan.copy(), w.registry.copy()
    else:
        p2, r2 = copy.copy(w.plan), copy.copy(w.registry)
    case.count("copies")
    case.key("copy", how, spec.signature())
    a = snap_plan(w.plan), snap_registry(w.registry)
    b = snap_plan(p2), snap_registry(r2)
    strip = lambda s: ({k: sorted(map(repr, v)) if isinstance(v, list) else v for k, v in s[0].items() if k != "graph"}, s[1]["items"])
    if strip(a) != strip(b):
        case.violate("copy: a copy differs from its original", how=how)
    case.expect(p2.call(len, "x").scope == (), "copy: a copied plan must start with an empty scope")
    order = rng.random() < 0.5
    X, Y = (p2, w.plan) if order else (w.plan, p2)
    RX, RY = (r2, w.registry) if order else (w.registry, r2)
    before = snap_plan(Y), snap_registry(RY)
    # change X in every way the interface offers
    nodes = list(X.graph.nodes)
    c = X.call(max, nodes[0], X.lit(1), key=nodes[-1])
    X.gather([nodes[0], c])
    X.unpack(c, 2)
    X.add_dependency(nodes[0], c)
    X.graph.nodes[nodes[0]]["note"] = 1
    X.graph.graph["note"] = 1
    with X.scope("s"):
        X.call(len, "y")
        free = [u for u in nodes if u not in RX]
        if free:
            RX.add(free[0], MemStore("new", w.clock, []))
        RX.source(X, MemStore("src", w.clock, []))
    mapping = getattr(RX, "mapping", None)
    if mapping:
        k = next(iter(mapping))
        try:
            mapping[k].value_store = MemStore("other", w.clock, [])
            mapping[k].is_source = not mapping[k].is_source
        except AttributeError:
            pass
    for u, v, key in list(X.graph.edges(keys=True))[:3]:
        X.graph.remove_edge(u, v, key)
    X.graph.remove_node(nodes[-1])
    compare(case, f"changing {'the copy' if order else 'the original'}", before, Y, RY)
    if rng.random() < 0.4:
        # scopes of the one do not concern the other, whichever threads they are entered from
        done = []

        def use():
            with Y.scope("mine", 1):
                done.append(Y.lit(0).scope)

        def hold():
            t = threading.Thread(target=use)
            with X.scope("theirs"):
                t.start()
                join(case, [t], "entering a scope of a plan while another thread was inside a scope of its copy or original")

        res = execute(case, hold)
        case.count("scopes_side_by_side")
        if res.exc is not None:
            raise res.exc
        if case.violations:
            return
        case.expect(done == [("mine", 1)], "copy: scopes of a plan and of its copy interfere", scope=repr(done))
        Y.graph.remove_node([u for u in Y.graph.nodes if u.scope == ("mine", 1)][-1])
    # the untouched one still means the same
    w.plan, w.registry = Y, RY
    kw = run_kw(case, rng)
    res = execute(case, lambda: w.run(**kw), pert=pert)
    if res.exc is not None:
        case.violate(f"copy: running the untouched one raised: {exc_info(res.exc)} {exc_info(res.exc.__cause__)}", how=how)
    else:
        values_ok(case, w, res.value, "the untouched one of original and copy")
