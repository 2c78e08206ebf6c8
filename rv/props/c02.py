"""C02: run returns exactly what direct evaluation of the call graph would return."""
import collections
import functools
import itertools
import operator

import uberjob

from rv import plangen, trace
from rv.core import Pert, exc_info, execute
from rv.plangen import Gen, Ref, Val, build
from rv.props.common import *
from rv.props import large

CASES = {"quick": 7000, "thorough": 150000}
DET_WORKERS = 5
MIN = {"call_starts": 5000, "distinct": 500}
RULE = ("random call graphs (calls of many callable forms, literals, gathers, unpacks, nested exact-type structures, opaque and hostile "
        "values) run under controlled and real schedules; each received argument and the output compared by identity with direct "
        "evaluation; a case is non-trivial when a call consumed another node; distinct by graph and interleaving")


def directed_builtin(case, rng):
    """Real-world callables whose result can be computed directly, in nested structures."""
    p = uberjob.Plan()
    a = rng.randrange(2, 9)
    b = rng.randrange(2, 9)
    pairs = []

    def both(fn, *args, **kwargs):
        def conc(x):
            if type(x) is tuple and len(x) == 3 and x[0] == "pair":
                return x[2]
            if type(x) is list:
                return [conc(y) for y in x]
            return x

        def sym(x):
            if type(x) is tuple and len(x) == 3 and x[0] == "pair":
                return x[1]
            if type(x) is list:
                return [sym(y) for y in x]
            return x

        node = p.call(fn, *[sym(x) for x in args], **{k: sym(v) for k, v in kwargs.items()})
        val = fn(*[conc(x) for x in args], **{k: conc(v) for k, v in kwargs.items()})
        t = ("pair", node, val)
        pairs.append(t)
        return t

    x = both(operator.add, a, b)
    y = both(pow, x, 2)
    z = both(sorted, [y, x, 5, 1], reverse=rng.random() < 0.5)
    w = both(sum, z)
    both(divmod, w, x)
    both(dict, a=x, b=[y, z])
    both(max, x, y, w)
    both(max, [x, y, w], key=operator.neg)
    both("{} {k}".format, x, k=y)
    both(functools.partial(operator.mul, 3), x)
    both(int, "101", base=2)
    both(collections.Counter, [x, x, y])
    both(complex, x, y)
    both(str.join, ",", ["a", "b"])
    both([5, 6, 7].index, 6)
    both(operator.itemgetter(0), [x, y])
    both(print.__class__, 3) if False else None
    both(isinstance, x, int)
    both(list, both(range, 4))
    both(str, x)
    both(bytes, [1, 2])
    both(type, 3)
    both(itertools.chain.from_iterable, [[1]]) if False else None
    items = p.unpack(z[1], len(z[2]))
    for it, v in zip(items, z[2]):
        pairs.append(("pair", it, v))
    out = {"l": [t[1] for t in pairs], "t": tuple(t[1] for t in pairs[:3]), x[1]: {x[1], y[1]}, "e": [], "n": None}
    want = {"l": [t[2] for t in pairs], "t": tuple(t[2] for t in pairs[:3]), x[2]: {x[2], y[2]}, "e": [], "n": None}
    kw = run_kw(case, rng)
    seed_random(rng)
    res = execute(case, lambda: uberjob.run(p, output=out, **kw))
    case.count("builtin_pairs", len(pairs))
    case.key("builtin", a, b, case.mode, kw)
    if res.exc is not None:
        case.violate(f"run raised: {exc_info(res.exc)} {exc_info(res.exc.__cause__)}")
    elif not deep_same(res.value, want):
        case.violate("builtin expression: result differs from direct evaluation", got=res.value, want=want)


def deep_same(a, b):
    if type(a) is not type(b):
        return False
    if type(a) in (list, tuple):
        return len(a) == len(b) and all(deep_same(x, y) for x, y in zip(a, b))
    if type(a) is dict:
        return list(a) == list(b) and all(deep_same(a[k], b[k]) for k in a)
    return a == b


def directed_unpack(case, rng):
    """unpack yields exactly n items, else the run fails; sources of every length and kind."""
    n = rng.choice([0, 1, 2, 3, 7])
    m = max(0, n + rng.choice([0, 0, -1, 1, 5]))
    how = rng.choice(["list", "tuple", "gen", "iter", "str", "dict", "range", "inf", "set"])
    vals = [Val(i) for i in range(m)]

    def src():
        if how == "list":
            return list(vals)
        if how == "tuple":
            return tuple(vals)
        if how == "gen":
            return (v for v in vals)
        if how == "iter":
            return iter(vals)
        if how == "dict":
            return dict.fromkeys(vals)
        if how == "str":
            return "abcdefghijkl"[:m]
        if how == "range":
            return range(m)
        if how == "set":
            return set(vals)
        return itertools.count()

    p = uberjob.Plan()
    items = p.unpack(p.call(src), n)
    case.expect(type(items) is tuple and len(items) == n, "unpack did not give n symbolic values", n=n, got=len(items))
    seen = {}

    def consume(i, v):
        seen[i] = v
        return v

    out = [p.call(consume, i, x) for i, x in enumerate(items)]
    kw = run_kw(case, rng)
    t = p.call(len, "abc")
    res = execute(case, lambda: uberjob.run(p, output=[t, out, items], **kw))
    case.key("unpack", n, m, how, case.mode)
    case.count("unpack_cases")
    ok = n == 0 or (how != "inf" and m == n)
    if not ok:
        case.expect(isinstance(res.exc, uberjob.CallError), "unpack of the wrong length did not fail", n=n, m=m, how=how, got=res.value, exc=exc_info(res.exc))
        return
    if res.exc is not None:
        case.violate(f"run raised: {exc_info(res.exc)} {exc_info(res.exc.__cause__)}", n=n, m=m, how=how)
        return
    want = {"str": list("abcdefghijkl"[:m]), "range": list(range(m)), "set": None}.get(how, vals)
    got = list(res.value[2])
    if how == "set" and n:
        case.expect(len(got) == m and set(map(id, got)) == set(map(id, vals)), "unpack of a set: wrong items")
    elif n:
        case.expect(len(got) == n and all(x is y or x == y for x, y in zip(got, want)), "unpack: wrong items or order", got=got, want=want)
    case.expect(res.value[1] == got and [seen.get(i) for i in range(n)] == got, "unpack: consumers received other items", got=got, seen=seen)


def directed_collisions(case, rng):
    """dict and set structures whose symbolic members evaluate to equal values."""
    p = uberjob.Plan()
    a, b, c = p.call(lambda: 1), p.call(lambda: 1.0), p.call(lambda: True)
    d = p.call(lambda: 2)
    kw = run_kw(case, rng)
    case.key("collision", case.mode, kw)
    case.count("collision_cases")
    res = execute(case, lambda: uberjob.run(p, output=[{a: "x", b: "y", d: "z"}, {a, b, c, d}, ({a: d}, [a], (b,)), {(a, d): b}, {1: a, "k": {2: [d, {c}]}}], **kw))
    if res.exc is not None:
        case.violate(f"run raised: {exc_info(res.exc)}")
        return
    v = res.value
    case.expect(v[0] == {1: "y", 2: "z"} and list(v[0]) == [1, 2] and type(list(v[0])[0]) is int, "dict with colliding keys", got=v[0])
    case.expect(type(v[1]) is set and v[1] == {1, 2}, "set with equal members", got=v[1])
    case.expect(v[2] == ({1: 2}, [1], (1.0,)) and type(v[2]) is tuple and type(v[2][2][0]) is float, "nested structure", got=v[2])
    case.expect(v[3] == {(1, 2): 1.0}, "tuple key with nodes", got=v[3])
    case.expect(v[4] == {1: 1, "k": {2: [2, {True}]}} and v[4]["k"][2][1] == {True}, "deep nesting", got=v[4])


def directed_opaque_hiders(case, rng):
    """Containers that are not exact built-ins are opaque, even when they contain a node."""
    p = uberjob.Plan()
    x = p.call(lambda: 3)
    h = rng.choice(plangen.HIDERS)(rng, x)
    got = []
    y = p.call(lambda v, w: got.append((v, w)) or v, h, w=[h, x])
    kw = run_kw(case, rng)
    res = execute(case, lambda: uberjob.run(p, output=[y, h], **kw))
    case.key("hider", type(h).__name__, case.mode)
    case.count("opaque_cases")
    if res.exc is not None:
        case.violate(f"run raised: {exc_info(res.exc)} {exc_info(res.exc.__cause__)}", container=type(h).__name__)
        return
    case.expect(len(got) == 1 and got[0][0] is h and got[0][1][0] is h and got[0][1][1] == 3, "an opaque container was not passed as it is", container=type(h).__name__, got=got)
    case.expect(res.value[0] is h and res.value[1] is h, "an opaque container was not returned as it is", container=type(h).__name__)


def directed_many(case, rng):
    """Sizes beyond one digit: many positional/keyword arguments, wide and long graphs."""
    p = uberjob.Plan()
    k = rng.choice([11, 12, 30, 101, 260])
    vals = [Val(i) for i in range(k)]
    nodes = [p.call(lambda v=v: v) if rng.random() < 0.7 else p.lit(v) for v in vals]
    perm = list(range(k))
    rng.shuffle(perm)
    got = {}

    def f(*args, **kwargs):
        got["a"] = args
        got["k"] = kwargs
        return tuple(args) + tuple(kwargs.values())

    cut = rng.randrange(k)
    kwargs = {f"k{i}": nodes[i] for i in perm[cut:]}
    y = p.call(f, *[nodes[i] for i in perm[:cut]], **kwargs)
    chain = p.lit(0)
    m = rng.choice([20, 300, 1200]) if case.tier == "thorough" else rng.choice([20, 60, 400])
    for i in range(m):
        chain = p.call(operator.add, chain, 1)
    kw = run_kw(case, rng)
    big = [nodes[i] for i in perm]
    length = rng.choice([9, 40, 130, 257, 700])
    pieces = p.unpack(p.call(rng.choice([list, iter, dict.fromkeys]), range(length)), length)
    some = rng.sample(range(length), 5)
    depth = rng.choice([3, 20, 60])
    deep, wanted = nodes[0], vals[0]
    for i in range(depth):
        how = rng.choice([lambda x: [x], lambda x: (i, x), lambda x: {i: x}, lambda x: [x, [i]]])
        deep, wanted = how(deep), how(wanted)
    pairs = {nodes[i]: i for i in perm[:60]}
    res = execute(case, lambda: uberjob.run(p, output=(y, chain, big, [pieces[i] for i in some], deep, set(big), pairs), **kw))
    case.key("many", k, m, cut, case.mode)
    case.count("large_cases")
    if res.exc is not None:
        case.violate(f"run raised: {exc_info(res.exc)} {exc_info(res.exc.__cause__)}")
        return
    want = [vals[i] for i in perm]
    case.expect(list(got["a"]) == want[:cut], "many positional arguments out of order", k=k)
    case.expect(list(got["k"]) == list(kwargs) and list(got["k"].values()) == want[cut:], "many keyword arguments out of order", k=k, got=list(got["k"])[:20])
    case.expect(list(res.value[0]) == want and res.value[1] == m and res.value[2] == want, "large expression: wrong result")
    case.expect(res.value[3] == some, "large expression: wrong items unpacked", length=length)
    case.expect(res.value[4] == wanted, "deep expression: wrong result", depth=depth)
    case.expect(res.value[5] == set(vals) and res.value[6] == {vals[i]: i for i in perm[:60]}, "large expression: wrong set or dict")


def directed_gather(case, rng):
    """plan.gather of a node returns it; of a plain value a literal; lit refuses nodes."""
    p = uberjob.Plan()
    x = p.call(lambda: 1)
    case.expect(p.gather(x) is x, "gather of a node is not the node")
    v = object()
    g = p.gather(v)
    h = p.gather([x, v, (v, {x})])
    kw = run_kw(case, rng)
    res = execute(case, lambda: uberjob.run(p, output=[g, h, p.lit(v)], **kw))
    case.key("gather", case.mode)
    if res.exc is not None:
        case.violate(f"run raised: {exc_info(res.exc)}")
        return
    a, b, c = res.value
    case.expect(a is v and c is v and type(b) is list and b[0] == 1 and b[1] is v and type(b[2]) is tuple and b[2][0] is v and b[2][1] == {1},
                "gather: wrong value", got=res.value)
    for out in (v, [], (1, [2]), None, 0, plangen.Falsy(), plangen.NoEq(), plangen.NoBool(), OUT_OPAQUE):
        case.expect(uberjob.run(uberjob.Plan(), output=out, progress=None) is out, "an output without nodes is not returned as it is", out=out)


OUT_OPAQUE = plangen.OList([1])

DIRECTED = [directed_builtin, directed_unpack, directed_collisions, directed_opaque_hiders, directed_many, directed_gather]


def big_case(case, rng):
    big, res, kw = large.large(case, rng)
    large.value(case, big, res)


def run_case(case):
    rng = case.rng
    if rng.random() < (0.01 if case.mode == "det" else 0.04):
        return big_case(case, rng)
    if rng.random() < 0.2:
        d = rng.choice(DIRECTED)
        case.note(directed=d.__name__)
        d(case, rng)
        return
    pert = Pert(case, rng, gate=rng.random() < 0.3)
    g = Gen(rng, weird_values=rng.random() < 0.6, forms=rng.random() < 0.6, weird_kw=True, structs=0.5, gathers=0.15, unpacks=0.12,
            hubs=0.1, pert=pert.plan, max_n=rng.choice([12, 12, 25, 60]), kwargs=0.45)
    spec = g.build()
    flaky = rng.random() < 0.15
    weird_returns = {}
    if rng.random() < 0.5:
        hashed = needed_hashable(spec)
        for n in spec.calls():
            if n.ret is None and n.form != "class" and n.id not in hashed and rng.random() < 0.3:
                weird_returns[n.id] = rng.choice(plangen.PLAIN_MAKERS)(rng)
    if flaky:
        for n in spec.calls():
            if n.beh == ("ok",) and rng.random() < 0.4:
                n.beh = ("flaky", 1)
    rec = Recorder(case, pert, values=lambda n, a, k: weird_returns[n.id] if n.id in weird_returns else Val(n.id))
    case.note(spec=spec.describe())
    b = build(spec, rec)
    kw = run_kw(case, rng)
    if flaky:
        kw["retry"] = 2
    case.note(run={k: repr(v) for k, v in kw.items()})
    for round in range(3):
        if round:
            # again, with other workers; mostly after the plan has grown; with another output
            if rng.random() < 0.85 or case.violations:
                return
            rec.attempts.clear()
            for n in spec.calls():
                if n.beh[0] == "iter":
                    n.value = None
            grown = rng.random() < 0.7
            if grown:
                plangen.grow(b, g, rng)
                for i in needed_hashable(spec):
                    weird_returns.pop(i, None)
            ids = [n.id for n in spec.nodes if n.kind != "unpack"]
            if rng.random() < 0.7 and ids:
                spec.output = rng.choice([Ref(rng.choice(ids)), [Ref(i) for i in ids], (Ref(ids[0]), [Ref(ids[-1])]), None])
                b.output = plangen.to_symbolic(spec.output, b.node)
            kw = {**run_kw(case, rng), **({"retry": 2} if flaky else {})}
            case.note(grown=spec.describe(), run={k: repr(v) for k, v in kw.items()})
            case.count("runs_of_a_grown_plan" if grown else "runs_repeated")
        n0 = len(rec.log)
        seed_random(rng)
        res = execute(case, beside(case, lambda: uberjob.run(b.plan, output=b.output, **kw), rec), pert=pert)
        log = rec.log[n0:]
        note_log(case, log)
        if res.exc is not None:
            case.violate(f"run raised although every call returns: {exc_info(res.exc)} / {exc_info(res.exc.__cause__)}")
            return
        ev, seen = trace.check_args(spec, log, lambda m: case.violate("argument: " + m))
        want_none = spec.output is None
        try:
            if want_none:
                case.expect(res.value is None, "no output requested but run returned a value", got=res.value)
            else:
                ev.match(spec.output, res.value, "output")
        except trace.Mismatch as m:
            case.violate("output: " + str(m))
        case.count("arguments_checked", seen)
        if any(spec.arg_refs(n) for n in spec.nodes):
            case.key(spec.signature(), trace.interleaving(log))
        summary(case, spec, log, kw)


def needed_hashable(spec):
    """Ids used inside sets or as dict keys."""
    out = set()

    def rec(x, inside):
        if isinstance(x, Ref):
            if inside:
                out.add(x.id)
        elif type(x) in (list, tuple):
            for y in x:
                rec(y, inside)
        elif type(x) is set:
            for y in x:
                rec(y, True)
        elif type(x) is dict:
            for k, v in x.items():
                rec(k, True)
                rec(v, inside)

    seen = []
    for n in spec.nodes:
        for a in list(n.args) + list(n.kwargs.values()):
            if plangen.has_ref(a):
                rec(a, False)
    if plangen.has_ref(spec.output):
        rec(spec.output, False)
    return out
