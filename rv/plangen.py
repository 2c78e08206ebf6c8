"""Generation of call-graph specifications, construction of the uberjob plan for one, and an
independent description of what the plan means (dependencies, expected argument values)."""
import collections
import enum
import functools
import operator

import uberjob
from uberjob.graph import Node as UNode


def srepr(x):
    try:
        return repr(x)
    except BaseException:
        return f"<{type(x).__name__}>"


class Ref:
    """A reference, inside an argument structure, to the node with this id."""

    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return f"#{self.id}"

    # By id: a node used twice in a set or as a dict key is one element, as it is for the plan.
    def __eq__(self, other):
        return type(other) is Ref and other.id == self.id

    def __hash__(self):
        return hash(("Ref", self.id))


class Val:
    """A value returned by a workload call: unique object, identity is what is checked."""

    __slots__ = ("id", "tag", "__weakref__")

    def __init__(self, id, tag=""):
        self.id = id
        self.tag = tag

    def __repr__(self):
        return f"v{self.id}{self.tag}"


class WorkErr(Exception):
    pass


class N:
    __slots__ = (
        "id", "kind", "args", "kwargs", "scope", "form", "beh", "pert", "length", "parent", "index", "value",
        "unode", "inner", "ret",
    )

    def __init__(self, id, kind):
        self.id = id
        self.kind = kind
        self.args = []
        self.kwargs = {}
        self.scope = ()
        self.form = "fn"
        self.beh = ("ok",)
        self.pert = None
        self.length = None
        self.parent = None
        self.index = None
        self.value = None
        self.unode = None
        self.inner = []
        self.ret = None

    def describe(self):
        d = {"id": self.id, "kind": self.kind}
        if self.kind in ("call", "gather", "unpack"):
            d["args"] = srepr(self.args)[:200]
        if self.kwargs:
            d["kwargs"] = srepr(self.kwargs)[:200]
        if self.kind == "item":
            d["of"] = [self.parent, self.index]
        if self.beh != ("ok",):
            d["beh"] = repr(self.beh)[:80]
        if self.form != "fn":
            d["form"] = self.form
        return d


class Spec:
    def __init__(self):
        self.nodes = []
        self.deps = []  # (src, dst)
        self.output = None
        self._anc = None

    def add(self, kind):
        n = N(len(self.nodes), kind)
        self.nodes.append(n)
        return n

    def refs(self, struct):
        out = []
        if not has_ref(struct):
            return out

        def rec(x):
            if isinstance(x, Ref):
                out.append(x.id)
            elif type(x) in (list, tuple, set):
                for y in x:
                    rec(y)
            elif type(x) is dict:
                for k, v in x.items():
                    rec(k)
                    rec(v)

        rec(struct)
        return out

    def arg_refs(self, n):
        out = []
        for a in n.args:
            out += self.refs(a)
        for a in n.kwargs.values():
            out += self.refs(a)
        if n.kind == "item":
            out.append(n.parent)
        return out

    def direct_preds(self):
        preds = {n.id: set(self.arg_refs(n)) for n in self.nodes}
        for s, d in self.deps:
            preds[d].add(s)
        return preds

    def direct_succs(self):
        succs = {n.id: set() for n in self.nodes}
        for d, ss in self.direct_preds().items():
            for s in ss:
                succs[s].add(d)
        return succs

    def reaches(self, a, b):
        """Is there a path from a to b (a == b counts)?"""
        succ = self.direct_succs()
        seen = set()
        st = [a]
        while st:
            x = st.pop()
            if x == b:
                return True
            if x in seen:
                continue
            seen.add(x)
            st.extend(succ[x])
        return False

    def ancestors(self):
        """id -> frozenset of all ids it transitively depends on."""
        if self._anc is None:
            preds = self.direct_preds()
            order = self.topo()
            anc = {}
            for i in order:
                s = set()
                for p in preds[i]:
                    s.add(p)
                    s |= anc[p]
                anc[i] = s
            self._anc = anc
        return self._anc

    def topo(self):
        preds = self.direct_preds()
        succs = self.direct_succs()
        cnt = {i: len(p) for i, p in preds.items()}
        q = collections.deque(i for i, c in cnt.items() if c == 0)
        out = []
        while q:
            i = q.popleft()
            out.append(i)
            for s in succs[i]:
                cnt[s] -= 1
                if cnt[s] == 0:
                    q.append(s)
        assert len(out) == len(self.nodes), "the generated graph has a cycle"
        return out

    def closure(self, ids):
        anc = self.ancestors()
        out = set()
        for i in ids:
            out.add(i)
            out |= anc[i]
        return out

    def needed(self):
        return self.closure(self.refs(self.output))

    def calls(self):
        return [n for n in self.nodes if n.kind == "call"]

    def describe(self):
        return {
            "nodes": [n.describe() for n in self.nodes][:60],
            "deps": self.deps[:80],
            "output": srepr(self.output)[:200],
        }

    def signature(self):
        return hash((tuple((n.kind, srepr(n.args), srepr(n.kwargs), srepr(n.beh), n.form) for n in self.nodes), tuple(self.deps), srepr(self.output)))


# ---------------------------------------------------------------- opaque argument values
class OList(list):
    pass


class OTuple(tuple):
    pass


class ODict(dict):
    pass


class OSet(set):
    pass


NT = collections.namedtuple("NT", "a b")


class NoBool:
    def __bool__(self):
        raise RuntimeError("bool of an opaque value")


class NoEq:
    __hash__ = object.__hash__

    def __eq__(self, other):
        raise RuntimeError("eq of an opaque value")


class AlwaysEq:
    __hash__ = None

    def __eq__(self, other):
        return True


class NoLen:
    def __len__(self):
        raise RuntimeError("len of an opaque value")


class Falsy:
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class EmptyExc(Exception):
    def __len__(self):
        return 0


class Color(enum.Enum):
    R = 1
    G = 2


def _gen():
    yield 1


def _a_function():
    return 1


PLAIN_MAKERS = [
    lambda r: r.randrange(1000),
    lambda r: 0,
    lambda r: None,
    lambda r: "",
    lambda r: "s%d" % r.randrange(100),
    lambda r: 1.5,
    lambda r: float("nan"),
    lambda r: b"x",
    lambda r: True,
    lambda r: False,
    lambda r: [],
    lambda r: (),
    lambda r: {},
    lambda r: set(),
    lambda r: [1, [2, (3, {"k": {4}})]],
    lambda r: {"a": [1], (1, 2): {3}},
    lambda r: object(),
    lambda r: Ellipsis,
    lambda r: NotImplemented,
    lambda r: NoBool(),
    lambda r: NoEq(),
    lambda r: AlwaysEq(),
    lambda r: NoLen(),
    lambda r: Falsy(),
    lambda r: ValueError("a value"),
    lambda r: KeyError,
    lambda r: _a_function,
    lambda r: _gen(),
    lambda r: Color.R,
    lambda r: frozenset([1]),
    lambda r: bytearray(b"q"),
    lambda r: OList([1, 2]),
    lambda r: OTuple((1, 2)),
    lambda r: ODict(a=1),
    lambda r: OSet([1]),
    lambda r: NT(1, 2),
    lambda r: collections.OrderedDict(a=1),
    lambda r: collections.defaultdict(list),
    lambda r: collections.deque([1]),
    lambda r: range(3),
    lambda r: uberjob.Plan(),
    lambda r: type,
    lambda r: iter([1, 2]),
]


# equal values that are not the same object, or not even of the same type
EQUAL_FAMILIES = [
    [lambda: 1, lambda: True, lambda: 1.0],
    [lambda: 0.0, lambda: -0.0, lambda: 0, lambda: False],
    [lambda: "".join(["ab", "c"])] * 2,
    [lambda: int("123456")] * 2,
    [lambda: tuple([1, "t"])] * 2,
    [lambda: frozenset(["f"])] * 2,
    [lambda: [], lambda: [], lambda: ()],
    [lambda: b"".join([b"xy"])] * 2,
    [lambda: OTuple((1,)), lambda: (1,)],
]


def selfref(r):
    a = [1]
    a.append(a)
    return a


def deep(r):
    a = [0]
    for _ in range(r.choice([50, 3000])):
        a = [a]
    return a


# wrappers that hide a node from gather (not exact built-in types): passed as they are
HIDERS = [
    lambda r, x: OList([x]),
    lambda r, x: OTuple((x,)),
    lambda r, x: ODict(a=x),
    lambda r, x: NT(x, 1),
    lambda r, x: collections.OrderedDict(a=x),
    lambda r, x: frozenset([x]),
    lambda r, x: collections.deque([x]),
]

KWNAMES = ["a", "b", "key", "fn", "stack_frame", "self", "args", "kwargs", "retry", "scope", "plan", "node", "value",
           "x y", "é", "_", "class", "index", "output", "name", "call", "length"]


class Gen:
    """Random specification generator."""

    def __init__(self, rng, **kw):
        self.r = rng
        self.o = dict(
            n=None, max_n=14, lits=0.12, gathers=0.1, unpacks=0.06, structs=0.3, kwargs=0.35, plain=0.35, deps=0.35,
            litdeps=0.3, weird_values=False, forms=False, fail=0.0, shape=None, scopes=False, hubs=0.0, weird_kw=False,
            pert=None, parallel=0.15, min_n=1,
        )
        self.o.update(kw)

    def plain(self, nested=False):
        r = self.r
        if self.o["weird_values"]:
            k = 1 if nested else r.random()
            if k < 0.03:
                return selfref(r)
            if k < 0.05:
                return deep(r)
            return r.choice(PLAIN_MAKERS)(r)
        return r.choice([r.randrange(100), "p", None, [1, 2], {"k": 1}, (3,)])

    def struct(self, pool, depth=0):
        """A structure; leaves are refs to nodes of the pool or plain values."""
        r = self.r
        k = r.random()
        if pool and (k < 0.45 or depth >= 3):
            return Ref(r.choice(pool))
        if k < 0.6 or depth >= 3:
            return self.plain(nested=True)
        m = r.choice([0, 1, 1, 2, 2, 3])
        t = r.choice([list, list, tuple, dict, set])
        if pool and t is not set and r.random() < 0.15:
            out = [Ref(r.choice(pool))] + [f() for f in r.choice(EQUAL_FAMILIES)]
            r.shuffle(out)
            return dict(enumerate(out)) if t is dict else t(out)
        if t is list:
            return [self.struct(pool, depth + 1) for _ in range(m)]
        if t is tuple:
            return tuple(self.struct(pool, depth + 1) for _ in range(m))
        hp = self.hashable(pool)
        if t is set:
            out = set()
            for _ in range(m):
                out.add(Ref(r.choice(hp)) if hp and r.random() < 0.6 else r.choice([1, "e", (1, 2), None]))
            return out
        d = {}
        for _ in range(m):
            key = Ref(r.choice(hp)) if hp and r.random() < 0.3 else r.choice(["a", "b", 1, (1, 2), None])
            if hp and r.random() < 0.1:
                key = (Ref(r.choice(hp)), "t")
            d[key] = self.struct(pool, depth + 1)
        return d

    def arg(self, pool):
        r = self.r
        if not pool or r.random() < self.o["plain"] * 0.6:
            return self.plain()
        if r.random() < self.o["structs"]:
            return self.struct(pool)
        return Ref(r.choice(pool))

    def hashable(self, pool):
        nodes = self.s.nodes
        return [i for i in pool if nodes[i].kind == "call" and nodes[i].ret is None]

    def build(self):
        r = self.r
        o = self.o
        s = self.s = Spec()
        n = o["n"]
        if n is None:
            n = max(o["min_n"], r.choice([1, 2, 3, 4, 5, 6, 8, 10, 12, o["max_n"], o["max_n"], r.randint(1, o["max_n"])]))
        shape = o["shape"] or r.choice(["mixed", "mixed", "chain", "wide", "layers", "tree", "intree"])
        while len(s.nodes) < n:
            pool = self.pool(s, shape)
            k = r.random()
            if pool and k < o["unpacks"]:
                self.add_unpack(s, pool)
            elif pool and k < o["unpacks"] + o["gathers"]:
                g = s.add("gather")
                g.args = [self.nonempty_struct(pool)]
            elif k < o["unpacks"] + o["gathers"] + o["lits"]:
                lit = s.add("lit")
                lit.value = self.plain()
            else:
                self.add_call(s, pool)
        if o["hubs"] and r.random() < o["hubs"]:
            self.add_hubs(s)
        self.add_deps(s)
        for x in s.nodes:
            x.pert = o["pert"](r) if o["pert"] else None
            if o["scopes"]:
                x.scope = r.choice([(), (), ("a",), ("b",), ("a", 1), ("a", "c"), (None,), (Color.R,)])
            if x.kind == "call" and x.beh == ("ok",) and r.random() < o["fail"]:
                x.beh = ("fail",)
        self.choose_output(s)
        self.share_functions(s)
        return s

    def share_functions(self, s):
        """Some calls have the same function (and say which they are in an argument), or functions
        that are equal, or false."""
        r = self.r
        if r.random() < 0.7:
            return
        p = r.choice([0.3, 0.7, 1.0])
        for n in s.nodes:
            if n.kind == "call" and n.form in ("fn", "lambda", "obj") and n.ret is None and r.random() < p:
                n.form = r.choice(["shared", "shared", "shared", "twin", "falsy"])
                if n.form == "shared":
                    n.kwargs = {**n.kwargs, "rv_node": n.id}

    def pool(self, s, shape):
        ids = [n.id for n in s.nodes if n.kind != "unpack"]
        if not ids:
            return ids
        if shape == "chain":
            return ids[-2:]
        if shape == "wide":
            return ids if self.r.random() < 0.3 else []
        if shape == "layers":
            w = 4
            k = max(0, (len(ids) // w - 1) * w)
            return ids[k:k + w]
        if shape == "tree":
            return [ids[(len(ids) - 1) // 2]]
        if shape == "intree":
            return ids if len(ids) % 3 == 2 else []
        return ids

    def nonempty_struct(self, pool):
        r = self.r
        for _ in range(20):
            st = self.struct(pool)
            if not isinstance(st, Ref) and type(st) in (list, tuple, dict, set):
                return st
        return [Ref(r.choice(pool))]

    def add_unpack(self, s, pool):
        r = self.r
        u = s.add("unpack")
        u.length = r.choice([0, 1, 2, 3, 3, 5]) if r.random() < 0.97 else r.choice([9, 12, 17, 40])
        k = r.random()
        if k < 0.75:
            src = s.add("call")
            s.nodes.remove(src)
            src.id = u.id
            u.id = u.id + 1
            s.nodes.insert(src.id, src)
            src.beh = ("iter", u.length, r.choice(["list", "gen", "tuple", "dict", "iter"]))
            src.ret = "iter"
            if r.random() < 0.5 and pool:
                src.args = [Ref(r.choice(pool))]
            u.args = [Ref(src.id)]
        else:
            u.args = [[Ref(r.choice(pool)) if r.random() < 0.7 else 5 for _ in range(u.length)]]
        for i in range(u.length):
            it = s.add("item")
            it.parent = u.id
            it.index = i

    def add_call(self, s, pool):
        r = self.r
        o = self.o
        c = s.add("call")
        na = r.choice([0, 1, 1, 2, 2, 3, 4]) if pool else r.choice([0, 0, 1])
        if pool and r.random() < 0.015:
            na = r.choice([6, 9, 11, 12, 20, 33, 70])
        c.args = [self.arg(pool) for _ in range(na)]
        if pool and na >= 2 and r.random() < o["parallel"]:
            x = Ref(r.choice(pool))
            c.args[0] = x
            c.args[-1] = x
        if r.random() < o["kwargs"]:
            names = r.sample(KWNAMES, r.choice([1, 1, 2, 3])) if o["weird_kw"] else r.sample("pqrst", r.choice([1, 1, 2]))
            if r.random() < 0.04:
                names = [f"{r.choice('xyz')}{i}" for i in range(r.choice([5, 9, 11, 20, 40]))]
                r.shuffle(names)
            c.kwargs = {k: self.arg(pool) for k in names}
        if o["forms"]:
            c.form = r.choice(["fn", "fn", "lambda", "method", "partial", "obj", "unhashable", "class", "static", "exact"])
            if c.form == "class":
                c.ret = "inst"

    def add_hubs(self, s):
        """Literal hubs: m calls before, n calls after, connected only through literals."""
        r = self.r
        m, n = r.choice([(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 3), (4, 5), (0, 3), (3, 0)])
        before = [s.add("call") for _ in range(m)]
        chain = [s.add("lit") for _ in range(r.choice([1, 1, 2, 3]))]
        for l in chain:
            l.value = "hub"
        after = [s.add("call") for _ in range(n)]
        for b in before:
            s.deps.append((b.id, chain[0].id))
        for x, y in zip(chain, chain[1:]):
            s.deps.append((x.id, y.id))
        for a in after:
            s.deps.append((chain[-1].id, a.id))
            if r.random() < 0.25:
                a.args.append(Ref(chain[-1].id))
        s.hub = (m, n)

    def add_deps(self, s):
        r = self.r
        o = self.o
        ids = [n.id for n in s.nodes if n.kind != "unpack"]
        if len(ids) < 2 or r.random() > o["deps"] * 2:
            return
        if len(ids) > 6 and r.random() < 0.02:
            # one node before or after most of the others
            x = r.choice(ids)
            turn = r.random() < 0.5
            for y in ids:
                a, b = (x, y) if turn else (y, x)
                if a != b and not s.reaches(b, a):
                    s.deps.append((a, b))
        k = r.choice([1, 1, 2, 3, len(ids) // 2 + 1])
        rank = list(ids)
        # any acyclic direction: edges may go from later-created to earlier-created nodes
        for _ in range(k):
            a, b = r.sample(ids, 2)
            if not s.reaches(b, a):
                s.deps.append((a, b))
                if r.random() < 0.1:
                    s.deps.append((a, b))  # duplicate edge

    def choose_output(self, s):
        r = self.r
        ids = [n.id for n in s.nodes if n.kind != "unpack"]
        k = r.random()
        if not ids:
            s.output = r.choice([None, 5, [1, 2]])
            return
        if k < 0.06:
            s.output = None
        elif k < 0.1:
            s.output = self.plain()
        elif k < 0.25:
            s.output = Ref(r.choice(ids))
        elif k < 0.75:
            s.output = [Ref(i) for i in ids]
        else:
            s.output = self.struct(ids)
        for n in s.nodes:
            pass


# ---------------------------------------------------------------- building the plan
class Built:
    def __init__(self, spec):
        self.spec = spec
        self.plan = uberjob.Plan()
        self.node = {}  # id -> uberjob node
        self.owner = {}  # uberjob node -> id (of internal nodes as well)
        self.output = None
        self.rec = None


def to_symbolic(struct, node):
    if isinstance(struct, Ref):
        return node[struct.id]
    t = type(struct)
    if t in (list, tuple, set):
        if not has_ref(struct):
            return struct
        return t(to_symbolic(x, node) for x in struct)
    if t is dict:
        if not has_ref(struct):
            return struct
        return {to_symbolic(k, node): to_symbolic(v, node) for k, v in struct.items()}
    return struct


def has_ref(struct):
    seen = set()
    st = [struct]
    while st:
        x = st.pop()
        if isinstance(x, Ref):
            return True
        if type(x) in (list, tuple, set, dict) and id(x) not in seen:
            seen.add(id(x))
            st.extend(x)
            if type(x) is dict:
                st.extend(x.values())
    return False


def build(spec, rec, on_step=None):
    """Create the plan.  Dependencies are added in a generated (spec.deps) order at the end."""
    b = Built(spec)
    b.rec = rec
    p = b.plan
    known = set()
    for n in spec.nodes:
        if n.kind == "item":
            continue
        with p.scope(*n.scope):
            if n.kind == "call":
                args = [to_symbolic(a, b.node) for a in n.args]
                kwargs = {k: to_symbolic(a, b.node) for k, a in n.kwargs.items()}
                u = p.call(rec.callable(n), *args, **kwargs)
            elif n.kind == "lit":
                u = p.lit(n.value)
            elif n.kind == "gather":
                u = p.gather(to_symbolic(n.args[0], b.node))
            elif n.kind == "unpack":
                items = p.unpack(to_symbolic(n.args[0], b.node), n.length)
                for it in spec.nodes:
                    if it.kind == "item" and it.parent == n.id:
                        b.node[it.id] = items[it.index]
                        b.owner[items[it.index]] = it.id
                u = None
        if u is not None:
            b.node[n.id] = u
            b.owner.setdefault(u, n.id)
        for g in p.graph.nodes:
            if g not in known:
                known.add(g)
                b.owner.setdefault(g, n.id)
    for s, d in spec.deps:
        p.add_dependency(b.node[s], b.node[d])
    b.output = to_symbolic(spec.output, b.node)
    return b


def grow(b, gen, rng):
    """Add calls, literals and dependencies to a plan that has been built (and run); the
    specification follows.  Returns how many changes were made."""
    s = gen.s = b.spec
    p = b.plan
    made = 0
    for _ in range(rng.choice([1, 1, 2, 4])):
        s._anc = None
        ids = [n.id for n in s.nodes if n.kind != "unpack"]
        if rng.random() < 0.5 and len(ids) > 1:
            x, y = rng.sample(ids, 2)
            if s.reaches(y, x):
                x, y = y, x
            if not s.reaches(y, x):
                s.deps.append((x, y))
                p.add_dependency(b.node[x], b.node[y])
                made += 1
            continue
        pool = [i for i in ids if s.nodes[i].ret != "iter"]
        gen.add_call(s, pool)
        n = s.nodes[-1]
        n.pert = gen.o["pert"](rng) if gen.o["pert"] else None
        args = [to_symbolic(a, b.node) for a in n.args]
        u = p.call(b.rec.callable(n), *args, **{k: to_symbolic(a, b.node) for k, a in n.kwargs.items()})
        b.node[n.id] = u
        b.owner.setdefault(u, n.id)
        if ids and rng.random() < 0.4:
            y = rng.choice(ids)
            if not s.reaches(y, n.id):
                s.deps.append((n.id, y))
                p.add_dependency(u, b.node[y])
        made += 1
    s._anc = None
    return made
