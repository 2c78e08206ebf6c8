"""Recording of call events and value-level checks over the recorded log."""
import functools
import operator

from rv import detsched
from rv.plangen import N, Ref, Val, WorkErr, has_ref

S, E, F = "S", "E", "F"  # start, end, failed


class Recorder:
    """Creates the callables of a plan; every execution appends to the totally ordered log."""

    def __init__(self, case, pert, *, values=None, keep=True):
        self.case = case
        self.pert = pert
        self.log = []
        self.keep = keep
        self.values = values or (lambda n, args, kwargs: Val(n.id))
        self.attempts = {}
        self.on_start = None
        self.fault = None  # callable(op, id, phase) -> may raise
        self.on_end = None
        sharing = self.sharing = {}  # calls of the same function
        body = self.body

        def shared(*args, rv_node, **kwargs):
            return body(sharing[rv_node], args, {**kwargs, "rv_node": rv_node})

        self.shared = shared
        self.raised = {}  # id -> list of exceptions raised, in order

    def body(self, n, args, kwargs):
        log = self.log
        a = self.attempts[n.id] = self.attempts.get(n.id, 0) + 1
        log.append((S, n.id, a, (args, kwargs) if self.keep else None))
        if self.on_start:
            self.on_start(n, a)
        try:
            if self.fault is not None:
                self.fault("call", n.id, "before")
            self.pert.act(n.pert)
            beh = n.beh
            kind = beh[0]
            exc = None
            if kind == "fail":
                exc = beh[1]() if len(beh) > 1 else WorkErr(n.id)
            elif kind == "flaky" and a <= beh[1]:
                exc = beh[2]() if len(beh) > 2 else WorkErr(n.id, a)
            if self.on_end:
                self.on_end(n, a)
            if exc is not None:
                raise exc
            if kind == "iter":
                value = self.make_iter(n, beh[1], beh[2], args, kwargs)
            else:
                value = self.values(n, args, kwargs)
            if self.fault is not None:
                self.fault("call", n.id, "after")
        except BaseException as e:
            if self.keep:
                self.raised.setdefault(n.id, []).append(e)
            log.append((F, n.id, a, e if self.keep else None))
            raise
        log.append((E, n.id, a, value if self.keep else None))
        return value

    items = None

    def make_iter(self, n, k, how, args, kwargs):
        if self.items is not None:
            items = self.items(n, k, args, kwargs)
        else:
            items = [Val(n.id, f".{i}") for i in range(k)]
            n.value = list(items)
        if how == "list":
            return list(items)
        if how == "tuple":
            return tuple(items)
        if how == "dict":
            return {v: 1 for v in items}
        if how == "iter":
            return iter(items)
        if how == "counted":
            return Counted(self, n.id, items)
        return (v for v in items)

    def callable(self, n):
        body = self.body
        form = n.form
        if form == "fn":
            def call(*args, **kwargs):
                return body(n, args, kwargs)

            call.__name__ = call.__qualname__ = f"call{n.id % 7}"
            return call
        if form == "lambda":
            return lambda *args, **kwargs: body(n, args, kwargs)
        if form == "method":
            class Holder:
                def call(self_, /, *args, **kwargs):
                    return body(n, args, kwargs)

            return Holder().call
        if form == "partial":
            def call(tag, /, *args, **kwargs):
                assert tag == "tag"
                return body(n, args, kwargs)

            return functools.partial(call, "tag")
        if form == "obj":
            class Obj:
                def __call__(self_, /, *args, **kwargs):
                    return body(n, args, kwargs)

            return Obj()
        if form == "shared":
            self.sharing[n.id] = n
            return self.shared
        if form in ("twin", "falsy"):
            return (Twin if form == "twin" else FalsyFunction)(lambda args, kwargs: body(n, args, kwargs))
        if form == "unhashable":
            class Unhashable:
                __hash__ = None

                def __eq__(self, other):
                    return True

                def __call__(self_, /, *args, **kwargs):
                    return body(n, args, kwargs)

            return Unhashable()
        if form == "static":
            class Holder2:
                @staticmethod
                def call(*args, **kwargs):
                    return body(n, args, kwargs)

            return Holder2.call
        if form == "class":
            class Inst:
                def __init__(self_, /, *args, **kwargs):
                    self_.rv_inst = n.id
                    body(n, args, kwargs)

            Inst.rv_id = n.id
            return Inst
        if form == "exact":
            # A function with exactly the parameters used, by code generation.
            pos = [f"p_{i}" for i in range(len(n.args))]
            kws = [k for k in n.kwargs if k.isidentifier() and k not in ("class",)]
            if len(kws) != len(n.kwargs) or set(kws) & {"body", "n", "__kw", "call"}:
                return lambda *args, **kwargs: body(n, args, kwargs)
            params = (", ".join(pos) + ", /" if pos else "") + (", " if pos and kws else "") + ("*, " + ", ".join(sorted(kws)) if kws else "")
            # the order in which keyword arguments arrive is invisible here; keep the spec's
            src = f"def call({params}):\n    return __body(__n, ({', '.join(pos)}{',' if pos else ''}), dict([{', '.join(f'({k!r}, {k})' for k in n.kwargs)}]))\n"
            ns = {"__body": body, "__n": n}
            exec(src, ns)
            return ns["call"]
        raise AssertionError(form)


class Twin:
    """Functions that are all equal."""

    def __init__(self, f):
        self.f = f

    def __call__(self, /, *args, **kwargs):
        return self.f(args, kwargs)

    def __eq__(self, other):
        return type(other) is Twin

    def __hash__(self):
        return 7


class FalsyFunction:
    def __init__(self, f):
        self.f = f

    def __call__(self, /, *args, **kwargs):
        return self.f(args, kwargs)

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Counted:
    """An iterable that records each time it is iterated."""

    def __init__(self, rec, id, items):
        self.rec, self.id, self.items = rec, id, items

    def __iter__(self):
        self.rec.log.append(("I", self.id))
        return iter(list(self.items))


# ---------------------------------------------------------------- direct evaluation
class Mismatch(Exception):
    pass


class Evaluator:
    """Compares what was received with what direct evaluation gives, from the values that the
    plan's calls actually returned in this run."""

    def __init__(self, spec, returned):
        self.spec = spec
        self.returned = returned  # id -> value returned by the call

    def value_ok(self, id, actual, path):
        n = self.spec.nodes[id]
        if n.kind == "call":
            if n.form == "class":
                if type(actual).__name__ != "Inst" or getattr(actual, "rv_inst", None) != id:
                    raise Mismatch(f"{path}: expected the instance created by call {id}, got {_r(actual)}")
                return
            if id not in self.returned:
                raise Mismatch(f"{path}: consumed call {id}, which returned nothing in this run; got {_r(actual)}")
            if actual is not self.returned[id]:
                raise Mismatch(f"{path}: expected the object returned by call {id}, {_r(self.returned[id])}, got {_r(actual)}")
        elif n.kind == "lit":
            if actual is not n.value:
                raise Mismatch(f"{path}: expected the literal object {_r(n.value)}, got {_r(actual)}")
        elif n.kind == "gather":
            self.match(n.args[0], actual, path)
        elif n.kind == "item":
            u = self.spec.nodes[n.parent]
            arg = u.args[0]
            if isinstance(arg, Ref):
                want = self.spec.nodes[arg.id].value[n.index]
                if actual is not want:
                    raise Mismatch(f"{path}: unpacked item {n.index} of {arg}: expected {_r(want)}, got {_r(actual)}")
            else:
                self.match(arg[n.index], actual, path)
        else:
            raise AssertionError(n.kind)

    def match(self, struct, actual, path="value"):
        if isinstance(struct, Ref):
            return self.value_ok(struct.id, actual, path)
        if not has_ref(struct):
            if actual is not struct:
                # Inside a rebuilt structure only the shape and the leaves are fixed.
                if path.endswith("]") and type(struct) is type(actual) and type(struct) in (list, tuple, dict, set) and shallow_same(struct, actual):
                    return
                raise Mismatch(f"{path}: expected the very object supplied {_r(struct)}, got {_r(actual)}")
            return
        t = type(struct)
        if type(actual) is not t:
            raise Mismatch(f"{path}: expected a {t.__name__}, got {_r(actual)}")
        if t in (list, tuple):
            if len(actual) != len(struct):
                raise Mismatch(f"{path}: expected {len(struct)} elements, got {len(actual)}")
            for i, (a, b) in enumerate(zip(struct, actual)):
                self.match(a, b, f"{path}[{i}]")
        elif t is set:
            want = set()
            for x in struct:
                want.add(self.build(x))
            if want != actual or len(want) != len(actual):
                raise Mismatch(f"{path}: expected {_r(want)}, got {_r(actual)}")
        else:
            want = {}
            src = {}
            for k, v in struct.items():
                key = self.build(k)
                want[key] = None
                src[key] = v
            if list(want) != list(actual):
                raise Mismatch(f"{path}: expected the keys {_r(list(want))} in this order, got {_r(list(actual))}")
            for k, v in src.items():
                self.match(v, actual[k], f"{path}[{_r(k)}]")

    def build(self, struct):
        """The value of a (hashable) structure."""
        if isinstance(struct, Ref):
            n = self.spec.nodes[struct.id]
            return self.returned[struct.id] if n.kind == "call" else n.value
        if has_ref(struct):
            return type(struct)(self.build(x) for x in struct)
        return struct


def shallow_same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if type(a) in (list, tuple):
        return len(a) == len(b) and all(shallow_same(x, y) for x, y in zip(a, b))
    if type(a) is dict:
        return list(map(id, a)) == list(map(id, b)) and all(shallow_same(a[k], b[k]) for k in a)
    if type(a) is set:
        return set(map(id, a)) == set(map(id, b))
    return False


def _r(x):
    try:
        return repr(x)[:160]
    except BaseException:
        return f"<{type(x).__name__}>"


def returned_values(log):
    return {e[1]: e[3] for e in log if e[0] == E}


def check_args(spec, log, on_mismatch):
    """Every call received what direct evaluation gives."""
    ev = Evaluator(spec, {})
    seen = 0
    for e in log:
        if e[0] == S:
            n = spec.nodes[e[1]]
            args, kwargs = e[3]
            seen += 1
            try:
                if len(args) != len(n.args):
                    raise Mismatch(f"call {n.id}: expected {len(n.args)} positional arguments, got {len(args)}")
                if list(kwargs) != list(n.kwargs):
                    raise Mismatch(f"call {n.id}: expected keyword arguments {list(n.kwargs)}, got {list(kwargs)}")
                for i, (a, b) in enumerate(zip(n.args, args)):
                    ev.match(a, b, f"call {n.id} argument {i}")
                for k in n.kwargs:
                    ev.match(n.kwargs[k], kwargs[k], f"call {n.id} argument {k}")
            except Mismatch as m:
                on_mismatch(str(m))
        elif e[0] == E:
            ev.returned[e[1]] = e[3]
    return ev, seen


def interleaving(log):
    return hash(tuple((e[0], e[1]) for e in log))
