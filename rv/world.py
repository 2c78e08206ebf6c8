"""Plans with stored values: generation, from-scratch evaluation, a declarative oracle for what
is out of date, and the expected set of executions, reads and writes."""
import hashlib
import random

import uberjob

from rv import plangen
from rv.plangen import Ref, has_ref
from rv.stores import STEPS, Clock, kind
from rv.trace import Recorder


def canon(x):
    t = type(x)
    if t in (list, tuple):
        return t.__name__[0] + "(" + ",".join(canon(v) for v in x) + ")"
    if t is set:
        return "s(" + ",".join(sorted(canon(v) for v in x)) + ")"
    if t is dict:
        return "d(" + ",".join(canon(k) + ":" + canon(v) for k, v in x.items()) + ")"
    return repr(x)


def call_value(nid, args, kwargs):
    s = f"{nid}|" + "|".join(canon(a) for a in args) + "|" + "|".join(f"{k}={canon(v)}" for k, v in kwargs.items())
    return f"c{nid}." + hashlib.blake2b(s.encode(), digest_size=6).hexdigest()


class WorldGen(plangen.Gen):
    """plangen with sources, dependent sources and stored nodes."""

    def __init__(self, rng, **kw):
        self.w = dict(sources=0.25, dsources=0.08, stored=0.45, stored_lit=0.3, stored_other=0.25, store_style=None)
        for k in list(kw):
            if k in self.w:
                self.w[k] = kw.pop(k)
        kw.setdefault("max_n", 14)
        super().__init__(rng, **kw)

    def add_call(self, s, pool):
        r = self.r
        k = r.random()
        if k < self.w["sources"]:
            n = s.add("source")
            return
        if pool and k < self.w["sources"] + self.w["dsources"] and any(s.nodes[i].kind == "source" for i in pool):
            up = r.choice([i for i in pool if s.nodes[i].kind == "source"])
            w = s.add("call")
            w.args = [Ref(up)]
            if r.random() < 0.4:
                w.args.append(self.arg(pool))
            w.ret = "writer"
            d = s.add("dsource")
            d.parent = w.id
            first = w.id
            if r.random() < 0.35:
                # ordered through literals
                for _ in range(r.choice([1, 1, 2])):
                    g = s.add("lit")
                    g.value = "gate"
                    g.ret = "writer"  # what consumes it would run the writer again
                    s.deps.append((first, g.id))
                    first = g.id
            s.deps.append((first, d.id))
            return
        super().add_call(s, pool)

    def pool(self, s, shape):
        p = super().pool(s, shape)
        return [i for i in p if s.nodes[i].ret != "writer"]

    def hashable(self, pool):
        return [i for i in pool if self.s.nodes[i].kind in ("call", "source", "dsource") and self.s.nodes[i].ret is None]

    def add_deps(self, s):
        r = self.r
        ids = [n.id for n in s.nodes if n.kind != "unpack"]
        if len(ids) < 2 or r.random() > self.o["deps"] * 2:
            return
        for _ in range(r.choice([1, 1, 2, 3, len(ids) // 2 + 1])):
            a, b = r.sample(ids, 2)
            if s.nodes[a].ret == "writer" or s.nodes[b].kind in ("source", "dsource") or s.nodes[b].value == "gate":
                continue
            if not s.reaches(b, a):
                s.deps.append((a, b))

    def choose_output(self, s):
        r = self.r
        ids = [n.id for n in s.nodes if n.kind != "unpack" and n.ret != "writer"]
        k = r.random()
        if not ids or k < 0.3:
            s.output = None
        elif k < 0.55:
            s.output = Ref(r.choice(ids))
        elif k < 0.75:
            s.output = [Ref(i) for i in ids]
        else:
            s.output = self.struct(ids)

    def build(self):
        s = super().build()
        r = self.r
        for n in s.nodes:
            if n.beh[0] == "iter":
                n.beh = ("iter", n.beh[1], r.choice(["list", "tuple"]))
        style = self.w["store_style"] or r.choice(["some", "some", "most", "few", "all", "leaves"])
        p = {"some": self.w["stored"], "most": 0.8, "few": 0.15, "all": 1.0, "leaves": 0.0}[style]
        succ = s.direct_succs()
        s.stored = set()
        for n in s.nodes:
            if n.kind == "call" and n.ret is None and (r.random() < p or (style == "leaves" and not succ[n.id])):
                s.stored.add(n.id)
            elif n.kind == "lit" and n.ret is None and r.random() < self.w["stored_lit"] * (p > 0):
                s.stored.add(n.id)
            elif n.kind in ("gather", "item") and r.random() < self.w["stored_other"] * (p > 0):
                s.stored.add(n.id)
        return s


class World:
    """A spec with live stores."""

    def __init__(self, case, spec, pert, *, log=None, wrap=None, alias=0.0):
        self.case = case
        self.spec = spec
        self.pert = pert
        self.log = log if log is not None else []
        self.clock = Clock()
        Clock.step = random.Random(case.index).choice(STEPS)
        self.version = {}
        self.stores = {}
        self.wrap = wrap
        for n in spec.nodes:
            if n.kind in ("source", "dsource") or n.id in spec.stored:
                same = [i for i in self.stores if spec.nodes[i].kind == "source"] if alias and n.kind == "source" else None
                if same and case.rng.random() < alias:
                    self.stores[n.id] = self.stores[case.rng.choice(same)]  # two sources of one store
                else:
                    self.add_store(n)
        self.rec = Recorder(case, pert, values=self._value)
        self.rec.log = self.log
        self.rec.items = lambda n, k, args, kwargs: [call_value(n.id, args, kwargs) + f".{i}" for i in range(k)]
        for n in spec.nodes:
            if n.kind == "source":
                self.version[n.id] = 0
                self.update_source(n.id)
        self.writer_target = {n.parent: n.id for n in spec.nodes if n.kind == "dsource"}
        self.build()

    def add_store(self, n):
        s = self.stores[n.id] = kind(self.case.index, n.id)(n.id, self.clock, self.log, pert=self.pert, pertval=n.pert, wrap=self.wrap)
        return s

    # ---- changes of the plan and the registry between runs
    def grow(self, rng, how=None):
        """Choose a change and apply it to the specification; `adopt` applies it to a world (several
        worlds can share a specification).  Returns the change, or None."""
        spec = self.spec
        how = how or rng.choice(["register", "register", "call", "call", "source", "dependency"])
        spec._anc = None
        if how == "register":
            free = [n.id for n in spec.nodes if n.id not in self.stores and n.ret is None and n.kind in ("call", "lit", "gather", "item")]
            if not free:
                return None
            i = rng.choice(free)
            spec.stored.add(i)
            return ("register", i, rng.random() < 0.3 and self.wrap is None)
        if how == "dependency":
            ids = [n.id for n in spec.nodes if n.kind != "unpack"]
            for _ in range(4):
                if len(ids) < 2:
                    return None
                a, b = rng.sample(ids, 2)
                if spec.nodes[a].ret == "writer" or spec.nodes[b].kind in ("source", "dsource") or spec.nodes[b].value == "gate" or spec.reaches(b, a):
                    continue
                spec.deps.append((a, b))
                return ("dependency", a, b)
            return None
        usable = [n.id for n in spec.nodes if n.kind in ("call", "source", "dsource", "lit", "item", "gather") and n.ret is None]
        n = spec.add("source" if how == "source" else "call")
        n.pert = self.pert.plan(rng) if self.pert is not None else None
        deps = []
        if how == "call":
            n.args = [Ref(i) for i in rng.sample(usable, min(len(usable), rng.choice([0, 1, 1, 2])))]
            if rng.random() < 0.8:
                spec.stored.add(n.id)
        after = [m.id for m in spec.nodes if m.kind in ("call", "lit", "gather") and m.value != "gate" and m.id != n.id]
        if after and rng.random() < 0.6:
            b = rng.choice(after)
            if not spec.reaches(b, n.id):
                spec.deps.append((n.id, b))
                deps.append((n.id, b))
        spec._anc = None
        return ("new", n.id, deps)

    def adopt(self, change):
        spec, p = self.spec, self.plan
        if change[0] == "register":
            n = spec.nodes[change[1]]
            self.registry.add(self.node[n.id], self.add_store(n))
            if change[2]:
                self.stores[n.id].put(self.from_scratch()[0][n.id])
            return
        if change[0] == "dependency":
            p.add_dependency(self.node[change[1]], self.node[change[2]])
            return
        n = spec.nodes[change[1]]
        with p.scope(*n.scope):
            if n.kind == "source":
                self.add_store(n)
                self.version[n.id] = 0
                self.update_source(n.id)
                u = self.registry.source(p, self.stores[n.id])
            else:
                u = p.call(self.rec.callable(n), *[plangen.to_symbolic(a, self.node) for a in n.args])
        self.node[n.id] = u
        if n.id in spec.stored:
            self.registry.add(u, self.add_store(n))
        for a, b in change[2]:
            p.add_dependency(self.node[a], self.node[b])

    def _value(self, n, args, kwargs):
        if n.ret == "writer":
            v = call_value(n.id, args, kwargs)
            d = self.writer_target[n.id]
            self.stores[d].put("ext:" + v)
            self.log.append(("X", d))
            return v
        return call_value(n.id, args, kwargs)

    def update_source(self, i):
        self.version[i] += 1
        self.stores[i].put(f"s{i}@{self.version[i]}")

    # ---- plan
    def build(self):
        spec = self.spec
        self.plan = p = uberjob.Plan()
        self.registry = reg = uberjob.Registry()
        self.node = {}
        for n in spec.nodes:
            if n.kind == "item":
                continue
            sym = lambda st: plangen.to_symbolic(st, self.node)
            with p.scope(*n.scope):
                if n.kind == "call":
                    u = p.call(self.rec.callable(n), *[sym(a) for a in n.args], **{k: sym(a) for k, a in n.kwargs.items()})
                elif n.kind == "lit":
                    u = p.lit(n.value)
                elif n.kind == "gather":
                    u = p.gather(sym(n.args[0]))
                elif n.kind in ("source", "dsource"):
                    u = reg.source(p, self.stores[n.id])
                else:
                    items = p.unpack(sym(n.args[0]), n.length)
                    for it in spec.nodes:
                        if it.kind == "item" and it.parent == n.id:
                            self.node[it.id] = items[it.index]
                    continue
            self.node[n.id] = u
        ids = sorted(spec.stored)
        order = list(ids)
        self.case.rng.shuffle(order)  # registration order is independent of creation order
        for i in order:
            reg.add(self.node[i], self.stores[i])
        for s, d in spec.deps:
            p.add_dependency(self.node[s], self.node[d])
        self.output = plangen.to_symbolic(spec.output, self.node)

    def set_output(self, struct):
        self.spec.output = struct
        self.output = plangen.to_symbolic(struct, self.node)

    def set_fault(self, fault):
        self.rec.fault = fault
        for s in self.stores.values():
            s.fault = fault

    # ---- oracles
    def from_scratch(self):
        """id -> value every node has when everything is evaluated on the current sources."""
        spec = self.spec
        val = {}

        def ev(st):
            if isinstance(st, Ref):
                return val[st.id]
            if not has_ref(st):
                return st
            if type(st) is dict:
                return {ev(k): ev(v) for k, v in st.items()}
            return type(st)(ev(x) for x in st)

        for i in spec.topo():
            n = spec.nodes[i]
            if n.kind == "source":
                val[i] = self.stores[i].value
            elif n.kind == "dsource":
                val[i] = "ext:" + val[n.parent]
            elif n.kind == "lit":
                val[i] = n.value
            elif n.kind == "gather":
                val[i] = ev(n.args[0])
            elif n.kind == "unpack":
                val[i] = list(ev(n.args[0]))
            elif n.kind == "item":
                val[i] = val[n.parent][n.index]
            elif n.beh[0] == "iter":
                v = call_value(i, [ev(a) for a in n.args], {k: ev(a) for k, a in n.kwargs.items()})
                val[i] = [v + f".{k}" for k in range(n.beh[1])]
                if n.beh[2] == "tuple":
                    val[i] = tuple(val[i])
            else:
                val[i] = call_value(i, [ev(a) for a in n.args], {k: ev(a) for k, a in n.kwargs.items()})
        return val, ev(spec.output)

    def outdated(self, fresh=None):
        """The stored values (and dependent sources) that are out of date, by the declarative
        definition: missing, older than fresh_time, older than something registered upstream, or
        downstream of another out-of-date one."""
        spec = self.spec
        anc = spec.ancestors()
        out = set()
        for i in spec.topo():
            st = self.stores.get(i)
            if st is None:
                continue
            up = [a for a in anc[i] if a in self.stores]
            kind = spec.nodes[i].kind
            if not st.present:
                out.add(i)
            elif any(a in out for a in up):
                out.add(i)
            elif any(self.stores[a].mtime > st.mtime for a in up):
                out.add(i)
            elif fresh is not None and st.mtime < fresh and kind != "source":
                out.add(i)
        return out

    def expected(self, fresh=None):
        """(executed call ids, stores read, stores written) of a successful run."""
        spec = self.spec
        stale = self.outdated(fresh)
        preds = spec.direct_preds()
        execd, read, written = set(), set(), set()
        done = set()

        def consume(i):
            """Node i's value is needed."""
            if i in self.stores:
                read.add(i)
            else:
                need(i)

        def need(i):
            """Node i has to be evaluated itself."""
            if i in done:
                return
            done.add(i)
            n = spec.nodes[i]
            if n.kind == "call":
                execd.add(i)
            args = set(spec.arg_refs(n))
            for a in args:
                consume(a)
            for p in preds[i] - args:
                after(p)

        def after(i):
            """Something ordered after node i runs."""
            if i in self.stores:
                return  # up to date: nothing to do; out of date: rebuilt anyway
            need(i)

        for i in sorted(stale):
            n = spec.nodes[i]
            if n.kind == "source":
                continue
            if n.kind == "dsource":
                for p in preds[i]:
                    after(p)
            else:
                written.add(i)
                need(i)
        for i in spec.refs(spec.output):
            consume(i)
        return execd, read, written

    def run(self, **kw):
        return uberjob.run(self.plan, registry=self.registry, output=self.output, **kw)

    def snapshot(self):
        return {i: s.state() for i, s in self.stores.items()}, self.clock.n, dict(self.version)

    def restore(self, snap):
        st, n, v = snap
        for i, s in st.items():
            self.stores[i].restore(s)
        self.clock.n = n
        self.version = dict(v)

    def check_contents(self, report, when=""):
        val, _ = self.from_scratch()
        for i in self.stores:
            if self.spec.nodes[i].kind == "source":
                continue
            s = self.stores[i]
            if not s.present:
                report(f"{when}: the value store of node {i} is empty after a successful run")
            elif s.value != val[i] or type(s.value) is not type(val[i]):
                report(f"{when}: the value store of node {i} holds {s.value!r}, from-scratch evaluation gives {val[i]!r}")
