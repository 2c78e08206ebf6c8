"""Graphs far larger than those of the generators (thousands of nodes, deep and wide), judged by simple exact oracles."""
import collections
import datetime as dt
import time
import weakref

import uberjob
from uberjob.progress import Progress, ProgressObserver, html_progress

from rv import detsched
from rv.core import exc_info, execute
from rv.props.common import run_kw, seed_random

SHAPES = ("chain", "chain", "depchain", "litchain", "fan", "ladder", "tree", "deps", "layers")


class Big:
    """A plan of about n calls, what each call depends on and the value it gives."""

    def __init__(self, rng, n, shape=None):
        self.shape = shape or rng.choice(SHAPES)
        self.plan = uberjob.Plan()
        self.nodes = []
        self.deps = []
        self.args = []
        self.value = []
        self.log = []
        self.fail = None
        self.on_start = self.wrap = None
        getattr(self, "_" + self.shape)(rng, n)
        self.extra = []
        for _ in range(rng.choice([0, 1, 20])):
            self.extra.append(self.add([rng.randrange(len(self.nodes))]))

    def add(self, args=(), after=()):
        i = len(self.nodes)

        def fn(*xs, i=i):
            self.log.append((0, i))
            if self.on_start:
                self.on_start(i)
            if self.fail == i:
                raise LookupError(i)
            v = (i + sum(xs)) % 1000003
            if self.wrap:
                v = self.wrap(i, v)
            self.log.append((1, i))
            return v

        node = self.plan.call(fn, *(self.nodes[a] for a in args))
        self.nodes.append(node)
        self.deps.append(set(args) | {a for a in after if type(a) is int})
        self.args.append(set(args))
        self.value.append((i + sum(self.value[a] for a in args)) % 1000003)
        for a in after:
            self.plan.add_dependency(self.nodes[a], node)
        return i

    def _chain(self, rng, n):
        self.last = self.add()
        for _ in range(n):
            self.last = self.add([self.last])

    def _depchain(self, rng, n):
        self.last = self.add()
        for _ in range(n):
            self.last = self.add([], [self.last])

    def _litchain(self, rng, n):
        self.last = self.add()
        for _ in range(n // 2):
            x = self.nodes[self.last]
            for _ in range(rng.choice([1, 1, 2])):
                lit = self.plan.lit(None)
                self.plan.add_dependency(x, lit)
                x = lit
            i = self.add()
            self.plan.add_dependency(x, self.nodes[i])
            self.deps[i].add(self.last)
            self.last = i

    def _fan(self, rng, n):
        a = self.add()
        mid = [self.add([a]) for _ in range(n)]
        self.last = self.add(mid) if rng.random() < 0.5 else self.add([], mid)

    def _deps(self, rng, n):
        a = [self.add() for _ in range(n // 2)]
        lit = self.plan.lit(None)
        for x in a:
            self.plan.add_dependency(self.nodes[x], lit)
        b = []
        for _ in range(n // 2):
            i = self.add()
            self.plan.add_dependency(lit, self.nodes[i])
            self.deps[i] = set(a[:3] + a[-3:])
            b.append(i)
        self.all_needed = True
        self.last = self.add(b[: n // 4], b[n // 4:])

    def _ladder(self, rng, n):
        x, y = self.add(), self.add()
        for _ in range(n // 2):
            x, y = self.add([x, y]), self.add([y], [x])
        self.last = self.add([x, y])

    def _tree(self, rng, n):
        level = [self.add() for _ in range(n // 2)]
        while len(level) > 1:
            level = [self.add(level[k: k + 2]) for k in range(0, len(level), 2)]
        self.last = level[0]

    def _layers(self, rng, n):
        w = max(2, int((n // 6) ** 0.5))
        prev = [self.add() for _ in range(w)]
        for _ in range(n // (2 * w)):
            prev = [self.add(rng.sample(prev, 2), rng.sample(prev, 1)) for _ in range(w)]
        self.last = self.add(prev)

    def needed(self):
        if getattr(self, "all_needed", False):
            return set(range(self.last + 1))
        seen, stack = set(), [self.last]
        while stack:
            i = stack.pop()
            if i not in seen:
                seen.add(i)
                stack.extend(self.deps[i])
        return seen


def size(case, rng):
    return rng.choice([60, 120]) if case.mode == "det" else rng.choice([1100, 1500, 2500, 4000])


def large(case, rng, *, failing=False):
    """Build and run one; returns (big, result, run arguments)."""
    big = Big(rng, size(case, rng))
    if failing:
        big.fail = rng.choice(sorted(big.needed()))
    kw = run_kw(case, rng)
    if failing:
        kw["max_errors"] = rng.choice([0, 1, None])
    case.note(large=big.shape, nodes=len(big.nodes), run={k: repr(v) for k, v in kw.items()}, fail=big.fail)
    seed_random(rng)
    res = execute(case, lambda: uberjob.run(big.plan, output=big.nodes[big.last], **kw))
    case.count("large_graphs")
    case.count("large_graph_calls", len(big.log) // 2)
    case.key("large", big.shape, len(big.nodes), case.mode, kw.get("max_workers"), big.fail is not None)
    return big, res, kw


def order(case, big):
    ended = set()
    for what, i in big.log:
        if what:
            ended.add(i)
        else:
            for a in big.deps[i]:
                if a not in ended:
                    return case.violate(f"order: in a large graph ({big.shape}) call {i} started although call {a}, which it depends on, had not finished")


def counts(case, big, res):
    need = big.needed()
    starts = collections.Counter(i for what, i in big.log if not what)
    ends = collections.Counter(i for what, i in big.log if what)
    for i, k in starts.items():
        if k > 1:
            return case.violate(f"repeat: in a large graph ({big.shape}) call {i} was executed {k} times")
        if i not in need:
            return case.violate(f"unneeded: in a large graph ({big.shape}) call {i} was executed although the output does not depend on it")
    if res.exc is None and set(ends) != need:
        case.violate(f"missing: in a large graph ({big.shape}) {len(need - set(ends))} needed calls were not executed in a successful run")


def value(case, big, res):
    if res.exc is not None:
        case.violate(f"run of a large graph ({big.shape}) raised although no call failed: {exc_info(res.exc)} {exc_info(res.exc.__cause__)}")
    elif res.value != big.value[big.last]:
        case.violate(f"output: a large graph ({big.shape}) gave another value than direct evaluation", got=res.value, want=big.value[big.last])


def reaches(big, first):
    """The output depends on call `first` (in every shape all calls that it depends on do)."""
    seen, stack = set(), [big.last]
    while stack:
        i = stack.pop()
        if i == first:
            return True
        if i not in seen:
            seen.add(i)
            stack.extend(big.deps[i])
    return False


class TickStore(uberjob.ValueStore):
    """Counts its operations; time is a counter."""

    clock = [0]

    def __init__(self, ops, i, value=None):
        self.ops, self.i, self.value, self.time = ops, i, value, None
        if value is not None:
            self.tick()

    def tick(self):
        self.clock[0] += 1
        self.time = dt.datetime(2020, 1, 1) + dt.timedelta(seconds=self.clock[0])

    def read(self):
        self.ops["r", self.i] += 1
        return self.value

    def write(self, value):
        self.ops["w", self.i] += 1
        self.value = value
        self.tick()

    def get_modified_time(self):
        return self.time


def large_stored(case, rng):
    """A long chain of stored values behind a source: built, repeated, updated, damaged half-way."""
    n = rng.choice([40, 80]) if case.mode == "det" else rng.choice([600, 1200, 2000])
    every = rng.choice([1, 2, 7])
    plan, reg, ops = uberjob.Plan(), uberjob.Registry(), collections.Counter()
    src = TickStore(ops, "s", 1)
    node = reg.source(plan, src)
    ran = collections.Counter()
    stores, dep_only = {}, set()

    def step(i, x=0):
        ran[i] += 1
        return (x * 31 + i) % 1000003

    for i in range(n):
        if i % every == 0 and i and rng.random() < 0.2:
            new = plan.call(step, i)
            plan.add_dependency(node, new)
            dep_only.add(i)
        else:
            new = plan.call(step, i, node)
        node = new
        if i % every == 0 or i == n - 1:
            stores[i] = TickStore(ops, i)
            reg.add(node, stores[i])
    kw = run_kw(case, rng)
    case.note(large="stored chain", n=n, every=every, run={k: repr(v) for k, v in kw.items()})
    case.key("large_stored", n, every, case.mode, kw.get("max_workers"))

    def want():
        x, out = src.value, {}
        for i in range(n):
            x = ((0 if i in dep_only else x) * 31 + i) % 1000003
            out[i] = x
        return out

    def go(what, rebuilt):
        ops.clear(), ran.clear()
        seed_random(rng)
        res = execute(case, lambda: uberjob.run(plan, registry=reg, **kw))
        if res.exc is not None:
            return case.violate(f"large chain of stored values: {what}: run raised: {exc_info(res.exc)}")
        w = want()
        wrong = [i for i in stores if stores[i].value != w[i]]
        if wrong:
            case.violate(f"large chain of stored values: {what}: {len(wrong)} stores do not hold the from-scratch value", first=wrong[0])
        written = {i for (k, i) in ops if k == "w"}
        if written != rebuilt or any(v > 1 for v in ops.values()):
            case.violate(f"large chain of stored values: {what}: {len(written)} values were written, {len(rebuilt)} are out of date", twice=[k for k, v in ops.items() if v > 1][:3])
        if not rebuilt and (ops or ran):
            case.violate(f"large chain of stored values: {what}: a repeated run performed operations", ops=len(ops), calls=len(ran))
        case.count("large_chain_runs")

    go("first run", set(stores))
    go("repeated run", set())
    src.value += 1
    src.tick()
    go("after an update of the source", set(stores))
    cut = rng.choice(sorted(stores))
    stores[cut].value = stores[cut].time = None
    go("after the deletion of a value", {i for i in stores if i >= cut})
    go("repeated run", set())


def downstream(big, i):
    users = [[] for _ in big.nodes]
    for j, ds in enumerate(big.deps):
        for d in ds:
            users[d].append(j)
    seen, stack = set(), list(users[i])
    while stack:
        j = stack.pop()
        if j not in seen:
            seen.add(j)
            stack.extend(users[j])
    return seen


def failure(case, big, res):
    """Exactly one call of a large graph fails."""
    if type(res.exc) is not uberjob.CallError:
        return case.violate(f"error: a call of a large graph ({big.shape}) failed and run {'returned' if res.exc is None else 'raised ' + exc_info(res.exc)}")
    if res.exc.call is not big.nodes[big.fail]:
        case.violate("error: the CallError names another call of a large graph")
    if type(res.exc.__cause__) is not LookupError or res.exc.__cause__.args != (big.fail,):
        case.violate("error: the cause is not the exception that the call raised")
    down = downstream(big, big.fail)
    for what, i in big.log:
        if i in down:
            return case.violate(f"downstream: in a large graph ({big.shape}) call {i} was started although call {big.fail} upstream of it failed")


class Tracked(float):
    """A number that weak references can watch."""


def release(case, rng):
    """Results of a large graph are gone once their consumers have finished."""
    big = Big(rng, size(case, rng))
    need = big.needed()
    users = {i: set() for i in need}
    for j in need:
        for a in big.args[j]:
            users[a].add(j)
    live, ended, late = {}, set(), []
    rate = rng.choice([0.005, 0.02, 0.1])
    kw = run_kw(case, rng)

    def held():
        done = {i for what, i in list(big.log) if what}
        return [i for i in list(live) if i in done and i != big.last and live[i]() is not None and users[i] <= done]

    def wrap(i, v):
        v = Tracked(v)
        live[i] = weakref.ref(v)
        return v

    def on_start(i):
        if rng.random() < rate:
            case.count("probes")
            bad = held()
            if case.mode == "det":
                detsched.ACTIVE.work(100000.0)
            else:
                end = time.monotonic() + 10
                while any(live[j]() is not None for j in bad) and time.monotonic() < end:
                    time.sleep(0.001)
            late.extend(j for j in bad if live[j]() is not None)

    big.wrap, big.on_start = wrap, on_start
    case.note(large=big.shape, nodes=len(big.nodes), run={k: repr(v) for k, v in kw.items()})
    seed_random(rng)
    res = execute(case, lambda: uberjob.run(big.plan, output=big.nodes[big.last], **kw))
    case.count("large_graphs")
    case.count("results_tracked", len(live))
    case.key("large", big.shape, len(big.nodes), case.mode, kw["max_workers"])
    value(case, big, res)
    if late:
        case.violate(f"held: in a large graph ({big.shape}) {len(late)} results were still referenced although all their consumers had finished", first=late[:3])
    kept = [i for i in live if i != big.last and live[i]() is not None]
    if kept:
        case.violate(f"held: {len(kept)} results of a large graph ({big.shape}) outlive the run", first=kept[:3])


class Tally(ProgressObserver):
    def __init__(self):
        self.total, self.running, self.completed, self.failed = (collections.Counter() for _ in range(4))
        self.worst = []

    def __enter__(self):
        pass

    def __exit__(self, *a):
        pass

    def increment_total(self, *, section, scope, amount):
        self.total[section, scope] += amount

    def increment_running(self, *, section, scope):
        self.running[section, scope] += 1
        if not self.total[section, scope]:
            self.worst.append(scope)

    def increment_completed(self, *, section, scope):
        self.completed[section, scope] += 1

    def increment_failed(self, *, section, scope, exception):
        self.failed[section, scope] += 1


def account(case, rng):
    """The account of a run of thousands of calls in few and in many scopes."""
    big = Big(rng, size(case, rng))
    k = rng.choice([1, 3, 50, 10**6])
    scopes = collections.Counter()
    for i, node in enumerate(big.nodes):
        node.scope = ("many", i % k)
    if rng.random() < 0.3:
        big.fail = rng.choice(sorted(big.needed()))
    kw = run_kw(case, rng, max_errors=None, max_workers=1 if case.mode == "os" else None)
    t = Tally()
    kw["progress"] = Progress(lambda: t)
    if rng.random() < 0.3:
        kw["progress"] = [kw["progress"], html_progress(lambda page: None)]
    case.note(large=big.shape, nodes=len(big.nodes), scopes=k, fail=big.fail)
    seed_random(rng)
    res = execute(case, lambda: uberjob.run(big.plan, output=big.nodes[big.last], **kw))
    case.count("large_graphs")
    case.key("large", big.shape, len(big.nodes), k, case.mode, big.fail is not None)
    need = big.needed()
    total, ran, ok = collections.Counter(), collections.Counter(), collections.Counter()
    for i in need:
        total[i % k] += 1
    for what, i in big.log:
        (ok if what else ran)[i % k] += 1
    if t.worst:
        case.violate("order: something of a large graph was reported running in a scope before its total was announced", scope=repr(t.worst[0]))
    for name, have, want in (("total", t.total, total), ("running", t.running, ran), ("completed", t.completed, ok), ("failed", t.failed, ran - ok)):
        got = collections.Counter()
        for (section, scope), n in have.items():
            if n:
                got[scope[1]] += n
        if got != +want:
            x = next(s for s in list(got) + list(want) if got[s] != want[s])
            case.violate(f"{name}: a large graph ({big.shape}) has {want[x]} in scope {x}, reported: {got[x]}")
    if (big.fail is None) != (res.exc is None):
        case.violate(f"outcome: {exc_info(res.exc) if res.exc is not None else 'success'} with failing call {big.fail}")
