"""C09: rebuilt stored values are written, then read back, before downstream use."""
import uberjob

from rv import excs, hist, plangen, trace
from rv.core import Pert, exc_info, execute
from rv.hist import Did
from rv.plangen import Ref, has_ref
from rv.props.common import *
from rv.trace import Evaluator, Mismatch
from rv.world import World, WorldGen

CASES = {"quick": 3500, "thorough": 90000}
DET_WORKERS = 4
MIN = {"runs": 5000, "distinct": 2000, "order_pairs_checked": 20000, "read_values_received": 5000, "rebuild_pairs": 1500}
RULE = ("random plans with stores whose read returns an object recognisably different from what was written; every run (also failing ones, "
        "also from partially up-to-date states) is monitored: write end before read start before consumer start, write end before merely "
        "dependent starts, dependent sources read after their calls, and the objects consumers and the output receive are the ones read; "
        "non-trivial when a value was rebuilt; distinct by plan and interleaving")


class Mark(str):
    """What a store returns for a written string: equal, but a new object on each read."""


class Box:
    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"Box({self.v!r})"


def wrap(v):
    return Mark(v) if isinstance(v, str) else Box(v)


class StoreEval(Evaluator):
    def __init__(self, spec, stores, returned, read):
        super().__init__(spec, returned)
        self.stores, self.read = stores, read
        self.from_stores = 0

    def value_ok(self, id, actual, path):
        if id in self.stores:
            if id not in self.read:
                raise Mismatch(f"{path}: the stored value {id} was consumed but never read; got {trace._r(actual)}")
            if actual is not self.read[id]:
                raise Mismatch(f"{path}: expected the object returned by reading the store of {id}, got {type(actual).__name__} {trace._r(actual)}")
            self.from_stores += 1
            return
        n = self.spec.nodes[id]
        if n.kind == "item":
            arg = self.spec.nodes[n.parent].args[0]
            if isinstance(arg, Ref):
                if actual is not self.returned[arg.id][n.index]:
                    raise Mismatch(f"{path}: wrong item")
            else:
                self.match(arg[n.index], actual, path)
            return
        super().value_ok(id, actual, path)

    def build(self, struct):
        if isinstance(struct, Ref) and struct.id in self.stores:
            return self.read.get(struct.id)
        return super().build(struct)


def judge(case, w, log, stale, what):
    spec = w.spec
    preds = spec.direct_preds()
    argset = {n.id: set(spec.arg_refs(n)) for n in spec.nodes}
    anc = spec.ancestors()
    end, rs, re_, we = {}, {}, {}, {}
    pairs = [0]

    def fail(pos, text, **kw):
        case.violate(f"order: {what}: {text}", at=pos, log=[(e[0], e[1]) for e in log], **kw)

    def need(pos, table, key, text):
        pairs[0] += 1
        if key not in table:
            fail(pos, text)
            return False
        return True

    def consumed(i, pos, who, seen):
        """The value of i must be available before who starts."""
        if i in w.stores:
            if need(pos, re_, i, f"{who} started before the store of {i} had been read"):
                if i in stale and spec.nodes[i].kind != "source" and spec.nodes[i].kind != "dsource":
                    need(pos, we, i, f"{who} started although the out-of-date value {i} had not been rewritten")
            return
        evaluated(i, pos, who, seen)

    def evaluated(i, pos, who, seen):
        if i in seen:
            return
        seen.add(i)
        if spec.nodes[i].kind == "call":
            need(pos, end, i, f"{who} started before call {i} had finished")
            return
        for a in argset[i]:
            consumed(a, pos, who, seen)
        for p in preds[i] - argset[i]:
            ordered(p, pos, who, seen)

    def ordered(i, pos, who, seen):
        """who merely depends on i."""
        if i in w.stores:
            if i not in stale:
                return
            if spec.nodes[i].kind == "dsource":
                for p in preds[i]:
                    ordered(p, pos, who, seen)
            elif spec.nodes[i].kind != "source":
                need(pos, we, i, f"{who} started before the out-of-date value {i} it depends on had been written")
            return
        evaluated(i, pos, who, seen)

    ev = StoreEval(spec, w.stores, {}, {})
    for pos, e in enumerate(log):
        k = e[0]
        if k == E:
            end[e[1]] = pos
            ev.returned[e[1]] = e[3]
        elif k == "WE":
            we.setdefault(e[1], pos)
        elif k == "RE":
            re_[e[1]] = pos
            ev.read[e[1]] = e[2]
        elif k == S:
            n = spec.nodes[e[1]]
            who = f"call {n.id}"
            seen = set()
            for a in argset[n.id]:
                consumed(a, pos, who, seen)
            for p in preds[n.id] - argset[n.id]:
                ordered(p, pos, who, seen)
            args, kwargs = e[3]
            try:
                for i, (a, b) in enumerate(zip(n.args, args)):
                    ev.match(a, b, f"{who} argument {i}")
                for kk in n.kwargs:
                    ev.match(n.kwargs[kk], kwargs[kk], f"{who} argument {kk}")
            except Mismatch as m:
                case.violate(f"value: {what}: {m}")
        elif k == "WS":
            i = e[1]
            who = f"the write of {i}"
            if i not in stale:
                continue
            evaluated(i, pos, who, set())
            for a in anc[i]:
                if a in stale and a in w.stores and spec.nodes[a].kind not in ("source", "dsource"):
                    need(pos, we, a, f"{who} started before the out-of-date value {a} upstream of it had been written")
                    case.count("rebuild_pairs")
            if spec.nodes[i].kind == "call":
                got = e[2]
                if i in ev.returned and got is not ev.returned[i]:
                    case.violate(f"value: {what}: the write of {i} was given something else than the call returned")
        elif k == "RS":
            i = e[1]
            rs[i] = pos
            if i in stale and spec.nodes[i].kind == "dsource":
                for p in preds[i]:
                    ordered(p, pos, f"the read of dependent source {i}", set())
            elif i in stale and spec.nodes[i].kind != "source":
                need(pos, we, i, f"the store of {i} was read before the out-of-date value had been written")
    case.count("order_pairs_checked", pairs[0])
    return ev


def run_case(case):
    rng = case.rng
    pert = Pert(case, rng, gate=rng.random() < 0.3)
    spec = WorldGen(rng, pert=pert.plan, max_n=rng.choice([6, 10, 14, 24]), hubs=0.25, deps=0.6, lits=0.15, sources=0.2, dsources=0.12,
                    store_style=rng.choice([None, "most"])).build()
    w = World(case, spec, pert, wrap=wrap)
    history = []
    case.note(spec=spec.describe(), stored=sorted(spec.stored), history=history)
    for round in range(rng.choice([1, 2, 3])):
        fresh, what = hist.mutate(w, rng) if round else (None, [])
        w.set_output(hist.pick_output(w, rng))
        fails = rng.random() < 0.2
        for n in spec.calls():
            if n.beh[0] in ("ok", "fail", "flaky"):
                n.beh = ("fail", excs.maker(rng)) if fails and rng.random() < 0.12 else ("ok",)
        kw = run_kw(case, rng, max_errors=rng.choice([0, 1, None]), **hist.fresh_kw(fresh))
        if rng.random() < 0.15:
            kw["retry"] = 2
            for n in spec.calls():
                if n.beh == ("ok",) and rng.random() < 0.3:
                    n.beh = ("flaky", 1)
            w.rec.attempts.clear()
        stale = w.outdated(fresh)
        history.append({"changes": what, "fresh": fresh, "out_of_date": sorted(stale), "output": plangen.srepr(spec.output)})
        n0 = len(w.log)
        seed_random(rng)
        res = execute(case, beside(case, lambda: w.run(**kw), w.rec, 0.06), pert=pert)
        log = w.log[n0:]
        did = Did(log)
        case.count("runs")
        ev = judge(case, w, log, stale, f"run {round}")
        if res.exc is None:
            if did.failures and not kw.get("retry"):
                case.violate("the run succeeded although something failed")
            missing = {i for i in stale if spec.nodes[i].kind not in ("source", "dsource")} - did.written
            if missing:
                case.violate(f"rebuild: out-of-date values {sorted(missing)} were not rewritten by a successful run", out_of_date=sorted(stale))
            try:
                if spec.output is not None:
                    ev.match(spec.output, res.value, "output")
            except Mismatch as m:
                case.violate(f"value: run {round}: {m}")
        elif not did.failures:
            case.violate(f"run raised although nothing failed: {exc_info(res.exc)} {exc_info(res.exc.__cause__)}")
        case.count("read_values_received", ev.from_stores)
        case.count("rebuilds", len(did.written))
        if did.written:
            case.key(spec.signature(), trace.interleaving([e for e in log if e[0] != "X"]))
        if case.violations:
            return
    case.sample({"spec": spec.describe(), "stored": sorted(spec.stored), "history": history, "log": [f"{e[0]}{e[1]}" for e in w.log[:80]]})
