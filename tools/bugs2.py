CACHING = "_transformations/caching.py"
PRUNING = "_transformations/pruning.py"
RFG = "_execution/run_function_on_graph.py"
PHYS = "_execution/run_physical.py"
SIMPLE = "progress/_simple_progress_observer.py"

STORES = '''
import datetime as dt, itertools, threading, time, uberjob
CLOCK = itertools.count(1)
def now():
    return dt.datetime(2020, 1, 1) + dt.timedelta(seconds=next(CLOCK))
LOG = []
class Mem(uberjob.ValueStore):
    def __init__(self, name, *value):
        self.name, self.time, self.value = name, None, None
        if value:
            self.value, self.time = value[0], now()
    def read(self):
        LOG.append(("read", self.name))
        return self.value
    def write(self, value):
        LOG.append(("write", self.name))
        self.value, self.time = value, now()
    def get_modified_time(self):
        return self.time
'''

bug("C01-literal-chain", "C01",
    [(PRUNING, "    predecessors = list(plan.graph.predecessors(literal))\n",
      "    predecessors = [\n        node for node in plan.graph.predecessors(literal) if type(node) is not Literal\n    ]\n")],
    '''
import time, uberjob
p = uberjob.Plan()
done, seen = [], []
def slow():
    time.sleep(0.3)
    done.append(1)
a = p.call(slow)
gates = [p.lit(i) for i in range(6)]
p.add_dependency(a, gates[0])
for g in gates[1:]:
    p.add_dependency(gates[0], g)
args = [gates[0]]
last = p.call(lambda x: None, gates[0])
c = p.call(lambda: seen.append(len(done)))
p.add_dependency(gates[1], c)
uberjob.run(p, output=[last, c], max_workers=4, progress=None)
assert seen == [1], "the call started before the call two literals upstream had finished"
''', "a literal that is also an argument, ordered before another literal, which is ordered before the call",
    "the ordering that reaches a removed literal from a literal that stays is lost")

bug("C04-double-put", "C04",
    [(RFG, "                        if remaining_pred_count_mapping[successor] == 0:\n                            queue.put(successor)",
      "                    if remaining_pred_count_mapping[successor] == 0:\n                        queue.put(successor)")],
    '''
import collections, sys, threading, time, uberjob
def trace(frame, event, arg):
    if "run_function_on_graph" not in frame.f_code.co_filename:
        return None
    def local(frame, event, arg):
        if event == "line" and frame.f_code.co_name == "process_node":
            time.sleep(0.002)
        return local
    return local
threading.settrace(trace)
runs = collections.Counter()
for attempt in range(20):
    p = uberjob.Plan()
    barrier = threading.Barrier(4)
    xs = [p.call(lambda: barrier.wait()) for _ in range(4)]
    y = p.call(lambda *a: runs.update([attempt]), *xs)
    uberjob.run(p, output=y, max_workers=8, progress=None)
assert all(n == 1 for n in runs.values()), f"calls ran more than once: {runs}"
''', "two predecessors of a call finish at the same moment: both decrement before either looks at the count",
    "the count of unfinished predecessors is examined outside the lock that guards it")

bug("C05-dependency-time", "C05",
    [(CACHING, '''            modified_time_lookup[predecessor].value
            for predecessor in plan.graph.predecessors(node)
        )
        value_store''', '''            modified_time_lookup[predecessor].value
            for predecessor, _, edge in plan.graph.in_edges(node, keys=True)
            if type(edge) is not Dependency or predecessor in registry
        )
        value_store''')],
    STORES + '''
p, r = uberjob.Plan(), uberjob.Registry()
src, out = Mem("src", 1), Mem("out")
s = r.source(p, src)
effect = p.call(lambda x: None, s)
value = p.call(lambda: "v")
p.add_dependency(effect, value)
r.add(value, out)
uberjob.run(p, registry=r, progress=None)
src.value, src.time = 2, now()
LOG.clear()
uberjob.run(p, registry=r, progress=None)
assert ("write", "out") in LOG, "the stored value downstream of the newer source was not rebuilt"
''', "a stored value that is downstream of a source only through an ordering edge from an unstored call, and an update of the source",
    "modified times no longer travel along ordering edges that leave unstored nodes")

bug("C03-stale-source-times", "C03",
    [(CACHING, "            max_ancestor_modified_time or not registry.mapping[node].is_source\n",
      "            fresh_time or not registry.mapping[node].is_source\n")],
    STORES + '''
p, r = uberjob.Plan(), uberjob.Registry()
src, ext, out = Mem("src", 1), Mem("ext", None), Mem("out")
s = r.source(p, src)
def export(x):
    ext.value, ext.time = x * 10, now()
e = p.call(export, s)
d = r.source(p, ext)
p.add_dependency(e, d)
v = p.call(lambda x: x + 1, d)
r.add(v, out)
uberjob.run(p, registry=r, progress=None)
src.value, src.time = 2, now()
ext.time = src.time - dt.timedelta(microseconds=1)
got = uberjob.run(p, registry=r, output=v, progress=None)
assert got == 21, got
''', "a dependent source older than what it depends on, in a run with no fresh_time",
    "a dependent source is not refreshed by upstream changes unless fresh_time is given")

bug("C09-barrier-calls", "C09",
    [(CACHING, "                for predecessor in plan.graph.predecessors(node):\n                    plan.graph.add_edge(predecessor, write_node, Dependency())",
      "                for predecessor in plan.graph.predecessors(node):\n                    if type(predecessor) is Call:\n                        plan.graph.add_edge(predecessor, write_node, Dependency())")],
    STORES + '''
p, r = uberjob.Plan(), uberjob.Registry()
ext = Mem("ext")
def export():
    time.sleep(0.2)
    ext.value, ext.time = "new", now()
a, b = p.call(export), p.call(export)
gate = p.lit("gate")
p.add_dependency(a, gate)
p.add_dependency(b, gate)
d = r.source(p, ext)
p.add_dependency(gate, d)
got = uberjob.run(p, registry=r, output=d, max_workers=4, progress=None)
assert got == "new", got
''', "a dependent source that depends on the calls producing it through a literal",
    "an out-of-date dependent source is read without waiting for what it depends on through literals")

bug("C09-original-predecessors", "C09",
    [(CACHING, "def _add_value_store(\n    plan: Plan, node: Node, registry_value: RegistryValue, *, is_stale: bool\n",
      "def _add_value_store(\n    plan: Plan,\n    node: Node,\n    registry_value: RegistryValue,\n    predecessors: list[Node],\n    *,\n    is_stale: bool,\n"),
     (CACHING, "                for predecessor in plan.graph.predecessors(node):\n                    plan.graph.add_edge", "                for predecessor in predecessors:\n                    plan.graph.add_edge"),
     (CACHING, "    required_nodes = set()\n    for node, registry_value", "    required_nodes = set()\n    predecessors = {node: list(plan.graph.predecessors(node)) for node in registry}\n    for node, registry_value"),
     (CACHING, "            plan, node, registry_value, is_stale=is_stale\n", "            plan, node, registry_value, predecessors[node], is_stale=is_stale\n")],
    STORES + '''
p, r = uberjob.Plan(), uberjob.Registry()
class Slow(Mem):
    def write(self, value):
        time.sleep(0.3)
        shared.value, shared.time = value, now()
        super().write(value)
shared = Mem("shared")
a = p.call(lambda: "new")
r.add(a, Slow("a"))
d = r.source(p, shared)
p.add_dependency(a, d)
try:
    got = uberjob.run(p, registry=r, output=d, max_workers=4, progress=None)
except Exception as e:
    got = repr(e)
assert got == "new", got
''', "a dependent source that depends on a stored call registered before it",
    "the read of an out-of-date dependent source waits for the computation of what it depends on but not for its write")

bug("C09-write-order", "C09",
    [(CACHING, "            assert dependency_type is Dependency\n            plan.graph.add_edge(write_node, successor, dependency)",
      "            assert dependency_type is Dependency\n            plan.graph.add_edge(\n                node if not registry_value.is_source else write_node,\n                successor,\n                dependency,\n            )")],
    STORES + '''
p, r = uberjob.Plan(), uberjob.Registry()
class Slow(Mem):
    def write(self, value):
        time.sleep(0.3)
        super().write(value)
a = p.call(lambda: 1)
r.add(a, Slow("a"))
b = p.call(lambda: LOG.append("b"))
p.add_dependency(a, b)
uberjob.run(p, registry=r, output=b, max_workers=4, progress=None)
assert LOG.index("b") > LOG.index(("write", "a")), LOG
''', "a call that only depends on (does not consume) a rebuilt stored value whose write is slow, with two workers",
    "the call starts once the value has been computed, without waiting for the write")

bug("C03-output-in-memory", "C09",
    [(CACHING, "        output_node = read_node_lookup.get(output_node, output_node)\n",
      "        if output_node not in stale_nodes or registry.mapping[output_node].is_source:\n            output_node = read_node_lookup.get(output_node, output_node)\n".replace("registry.mapping[output_node].is_source", "output_node in registry and registry.mapping[output_node].is_source"))],
    STORES + '''
class Norm(Mem):
    def write(self, value):
        super().write(list(value))
p, r = uberjob.Plan(), uberjob.Registry()
a = p.call(lambda: (1, 2))
r.add(a, Norm("a"))
got = uberjob.run(p, registry=r, output=a, progress=None)
assert got == [1, 2], f"the output is not what the store's read returned: {got}"
''', "the output is itself a stored value that is rebuilt, and its store changes the value on the way",
    "the run returns the in-memory result instead of what was read back")

bug("C10-few-sources", "C10",
    [(RFG, "    worker_count = coerce_worker_count(worker_count)\n", "    worker_count = min(coerce_worker_count(worker_count), max(1, len(graph) // 2))\n")],
    '''
import threading, uberjob
p = uberjob.Plan()
barrier = threading.Barrier(4)
def meet():
    barrier.wait(20)
xs = [p.call(meet) for _ in range(4)]
y = p.call(lambda *a: None, *xs)
uberjob.run(p, output=y, max_workers=4, progress=None)
''', "a plan with fewer than twice max_workers nodes, and that many independent calls that wait for each other",
    "fewer than max_workers threads are started for small plans")

bug("C10-errors-by-call", "C10",
    [(RFG, "    error_count = 0\n    failure_lock", "    failed_nodes = set()\n    failure_lock"),
     (RFG, "        nonlocal error_count\n", ""),
     (RFG, "                error_count += 1\n", "                failed_nodes.add(getattr(node, \"fn\", node))\n"),
     (RFG, "and error_count > max_errors", "and len(failed_nodes) > max_errors")],
    '''
import uberjob
ran = []
def fail(i):
    ran.append(i)
    raise ValueError(i)
p = uberjob.Plan()
xs = [p.call(fail, i) for i in range(10)]
try:
    uberjob.run(p, output=xs, max_workers=1, max_errors=2, progress=None)
except uberjob.CallError:
    pass
assert len(ran) == 3, f"{len(ran)} calls failed with max_errors=2"
''', "several failing calls of the same function with max_errors above zero",
    "failures are counted once per function instead of once per call")

bug("C10-retry-write", "C10",
    [(PHYS, "        self.result.value = retry(fn)(*args, **kwargs)", "        value_store = args[0] if args else None\n        if getattr(fn, \"__name__\", None) == \"read\" and isinstance(value_store, ValueStore):\n            self.result.value = fn(*args, **kwargs)\n        else:\n            self.result.value = retry(fn)(*args, **kwargs)"),
     (PHYS, "from uberjob.progress._null_progress_observer", "from uberjob._value_store import ValueStore\nfrom uberjob.progress._null_progress_observer")],
    STORES + '''
class Flaky(Mem):
    tries = 0
    def read(self):
        self.tries += 1
        if self.tries < 3:
            raise OSError("transient")
        return super().read()
p, r = uberjob.Plan(), uberjob.Registry()
s = r.source(p, Flaky("src", 5))
assert uberjob.run(p, registry=r, output=s, retry=3, progress=None) == 5
''', "a store read that fails transiently, with retry", "store reads are attempted once whatever retry says")

bug("C12-protocol", "C12",
    [("stores/_pickle_file_store.py", "pickle.dump(value, outputfile)", "pickle.dump(value, outputfile, protocol=0)")],
    '''
import os, tempfile
from uberjob.stores import PickleFileStore
class Point:
    __slots__ = ("x",)
    def __init__(self, x):
        self.x = x
    def __eq__(self, other):
        return type(other) is Point and other.x == self.x
with tempfile.TemporaryDirectory() as d:
    s = PickleFileStore(os.path.join(d, "f"))
    for v in [Point(3), {Point.__name__: [1]}]:
        s.write(v)
        assert s.read() == v
''', "an object whose class uses __slots__ without __getstate__", "values are pickled with a protocol that cannot hold all picklable objects")

bug("C12-shared-temp", "C12",
    [("stores/_mounted_store.py", '    with tempfile.TemporaryDirectory() as tempdir:\n        yield os.path.join(tempdir, "temp")\n',
      '    path = os.path.join(tempfile.gettempdir(), f"uberjob-{os.getpid()}.temp")\n    try:\n        yield path\n    finally:\n        try:\n            os.remove(path)\n        except OSError:\n            pass\n')],
    '''
import os, shutil, tempfile, threading, time
from uberjob.stores import MountedStore, JsonFileStore
scratch = tempfile.mkdtemp()
tempfile.tempdir = scratch
DATA = {}
class Remote(MountedStore):
    def __init__(self, name):
        super().__init__(JsonFileStore)
        self.name = name
    def copy_from_local(self, local_path):
        time.sleep(0.2)
        DATA[self.name] = open(local_path, "rb").read()
    def copy_to_local(self, local_path):
        with open(local_path, "wb") as f:
            f.write(DATA[self.name])
    def get_modified_time(self):
        return None
try:
    ts = [threading.Thread(target=Remote(i).write, args=(i,), daemon=True) for i in range(2)]
    threading.excepthook = lambda a: None
    for t in ts:
        t.start()
        time.sleep(0.05)
    for t in ts:
        t.join()
    got = [Remote(i).read() if i in DATA else None for i in range(2)]
    assert got == [0, 1], f"stored values mixed up: {got}"
finally:
    shutil.rmtree(scratch)
''', "two mounted stores written at the same time by one process", "all mounted stores of a process use the same local path")

bug("C12-dst", "C18",
    [("stores/_file_store.py", "    return dt.datetime.fromtimestamp(t)\n", "    return dt.datetime.fromtimestamp(0) + dt.timedelta(seconds=t)\n")],
    '''
import os, tempfile, time, datetime as dt
os.environ["TZ"] = "America/New_York"
time.tzset()
import uberjob
from uberjob.stores import JsonFileStore
with tempfile.TemporaryDirectory() as d:
    s = JsonFileStore(os.path.join(d, "f"))
    p, r = uberjob.Plan(), uberjob.Registry()
    ran = []
    r.add(p.call(lambda: ran.append(1) or 1), s)
    s.write(1)
    t = dt.datetime(2021, 7, 1, 12, tzinfo=dt.timezone.utc).timestamp()
    os.utime(s.path, (t, t))
    uberjob.run(p, registry=r, fresh_time=dt.datetime.fromtimestamp(t - 60, dt.timezone.utc), progress=None)
    assert not ran, "a file newer than fresh_time was rebuilt"
    uberjob.run(p, registry=r, fresh_time=dt.datetime.fromtimestamp(t + 60, dt.timezone.utc), progress=None)
    assert ran, "a file older than fresh_time was not rebuilt"
''', "a file modified while daylight saving time is in force", "modified times are computed with the time zone's offset of 1970")

bug("C18-fixed-offset", "C18",
    [(CACHING, "def _to_naive_utc_time(", "LOCAL_ZONE = dt.datetime.now().astimezone().tzinfo\n\n\ndef _to_naive_utc_time("),
     (CACHING, "        return value.astimezone(dt.timezone.utc).replace(tzinfo=None)\n",
      "        if value.tzinfo is None:\n            value = value.replace(tzinfo=LOCAL_ZONE)\n        return value.astimezone(dt.timezone.utc).replace(tzinfo=None)\n")],
    '''
import os, time, datetime as dt
os.environ["TZ"] = "Europe/Paris"
time.tzset()
import uberjob
class Store(uberjob.ValueStore):
    def __init__(self, t):
        self.t = t
    def get_modified_time(self):
        return self.t
    def read(self):
        return 1
    def write(self, value):
        wrote.append(1)
for month in (1, 7):
    instant = dt.datetime(2021, month, 1, 12, tzinfo=dt.timezone.utc)
    for older in (-60, 60):
        wrote = []
        p, r = uberjob.Plan(), uberjob.Registry()
        r.add(p.call(lambda: 1), Store(dt.datetime.fromtimestamp(instant.timestamp())))
        uberjob.run(p, registry=r, fresh_time=instant + dt.timedelta(seconds=older), progress=None)
        assert bool(wrote) == (older > 0), (month, older)
''', "a naive modified time from the other half of the year in a zone with daylight saving, compared with an aware fresh_time",
    "naive datetimes are given today's UTC offset instead of the one in force at that time")

bug("C13-nothing-to-run", "C13",
    [("_run.py", "    plan = get_mutable_plan(plan, inplace=False)\n\n    output_node", "    if registry or output is not None:\n        plan = get_mutable_plan(plan, inplace=False)\n\n    output_node")],
    '''
import uberjob
p = uberjob.Plan()
x = p.call(lambda: 1)
before = set(p.graph.nodes())
uberjob.run(p, registry=uberjob.Registry(), progress=None)
assert set(p.graph.nodes()) == before, "the plan was modified"
assert uberjob.run(p, output=x, progress=None) == 1
''', "a run with neither output nor a (non-empty) registry", "the caller's plan itself is pruned when there is nothing to run")

bug("C13-literal-value", "C13",
    [("_plan.py", "        new_plan.graph = self.graph.copy()\n", "        new_plan.graph = self.graph.copy()\n        new_plan._scope_lock = self._scope_lock\n        new_plan._scope = self._scope\n        self._scope = ()\n")],
    '''
import uberjob
p = uberjob.Plan()
with p.scope("a"):
    x = p.call(lambda: 1)
    uberjob.run(p, output=x, progress=None)
    y = p.call(lambda: 1)
    assert y.scope == ("a",), y.scope
''', "a run inside a with plan.scope block", "copying a plan takes the scope away from the original")

bug("C14-transform", "C14",
    [("_run.py", "            if transform_physical:\n", "            if transform_physical and not (dry_run and registry and not len(registry)):\n".replace("and registry and not len(registry)", "and output_node is None"))],
    '''
import uberjob
ran = []
p = uberjob.Plan()
r = uberjob.Registry()
def transform(plan, output_node):
    extra = plan.call(lambda: ran.append("extra"))
    return plan, extra
p.call(lambda: 1)
plan, node = uberjob.run(p, dry_run=True, transform_physical=transform, progress=None)
assert node is not None and len(plan.graph) == 1, (plan.graph.nodes(), node)
''', "a dry run with transform_physical and no output", "the returned plan lacks the transformation that the real run applies")

bug("C15-stale-scope", "C15",
    [(CACHING, "            progress_observer.increment_running(section=\"stale\", scope=scope)\n", "            progress_observer.increment_running(\n                section=\"stale\", scope=_get_stale_scope(node, registry)\n            )\n"),
     (CACHING, "            scope = _get_stale_scope(node, registry)\n", "            scope = get_full_call_scope(node)\n"),
     (CACHING, "            progress_observer.increment_completed(section=\"stale\", scope=scope)", "            progress_observer.increment_completed(\n                section=\"stale\", scope=_get_stale_scope(node, registry)\n            )")],
    STORES + '''
from uberjob.progress import Progress, ProgressObserver
events = []
class Obs(ProgressObserver):
    def __enter__(self): pass
    def __exit__(self, *a): pass
    def increment_total(self, *, section, scope, amount): events.append(("total", section, scope))
    def increment_running(self, *, section, scope): events.append(("running", section, scope))
    def increment_completed(self, *, section, scope): events.append(("completed", section, scope))
    def increment_failed(self, *, section, scope, exception): events.append(("failed", section, scope))
class Bad(Mem):
    def get_modified_time(self):
        raise OSError("no")
p, r = uberjob.Plan(), uberjob.Registry()
r.add(p.call(lambda: 1), Bad("bad"))
try:
    uberjob.run(p, registry=r, progress=Progress(Obs))
except uberjob.CallError:
    pass
running = [e[1:] for e in events if e[0] == "running"]
ended = [e[1:] for e in events if e[0] in ("completed", "failed")]
assert sorted(running, key=str) == sorted(ended, key=str), events
''', "a modified-time query of a stored call fails", "the failure is reported in another scope than the running notification")

bug("C15-failed-first", "C15",
    [("progress/_composite_progress_observer.py", "    def __exit__(self, exc_type, exc_val, exc_tb):\n        self._stack.__exit__(exc_type, exc_val, exc_tb)\n",
      "    def __exit__(self, exc_type, exc_val, exc_tb):\n        for progress_observer in self._progress_observers:\n            progress_observer.__exit__(exc_type, exc_val, exc_tb)\n"),
     ("progress/_composite_progress_observer.py", "        with ExitStack() as stack:\n            for progress_observer in self._progress_observers:\n                stack.enter_context(progress_observer)\n            self._stack = stack.pop_all()\n",
      "        for progress_observer in self._progress_observers:\n            progress_observer.__enter__()\n")],
    '''
import uberjob
from uberjob.progress import Progress, ProgressObserver, composite_progress
exits = []
class Obs(ProgressObserver):
    bad = False
    def __enter__(self): pass
    def __exit__(self, *a):
        exits.append(self.bad)
        if self.bad:
            raise OSError("cannot close")
    def increment_total(self, *, section, scope, amount): pass
    def increment_running(self, *, section, scope): pass
    def increment_completed(self, *, section, scope): pass
    def increment_failed(self, *, section, scope, exception): pass
class Bad(Obs):
    bad = True
p = uberjob.Plan()
try:
    uberjob.run(p, output=p.call(lambda: 1), progress=composite_progress(Progress(Bad), Progress(Obs)))
except OSError:
    pass
assert sorted(exits) == [False, True], f"observers exited: {exits}"
''', "a composite of which one member's exit raises", "the members after it are never exited")

bug("C16-no-consumer", "C16",
    [(PHYS, "            finally:\n                bound_call.value = None\n", "            finally:\n                if plan.graph.out_degree(node) or plan.graph.in_degree(node):\n                    bound_call.value = None\n")],
    '''
import gc, uberjob, weakref
class Big: pass
refs = []
def make():
    b = Big()
    refs.append(weakref.ref(b))
    return b
alive = []
p = uberjob.Plan()
loose = p.call(make)
def look():
    gc.collect()
    alive.append(refs[0]() is not None)
def transform(plan, out):
    return plan, out
last = p.call(look)
def keep(plan, output_node):
    plan.graph.add_nodes_from([loose])
    return plan, output_node
uberjob.run(p, output=last, transform_physical=keep, max_workers=1, progress=None, scheduler="default")
if alive == [] or not refs:
    raise SystemExit("did not run")
''', "x", "x")

bug("C16-last-value", "C16",
    [(RFG, "        try:\n            fn(node)\n        except BaseException", "        try:\n            state.value = fn(node)\n        except BaseException"),
     (RFG, "    stop = False\n    first_node_error", "    state = threading.local()\n    stop = False\n    first_node_error"),
     (PHYS, "            bound_call = bound_call_lookup[node]\n", "            bound_call = bound_call_lookup[node]\n            result = bound_call.value.result\n"),
     (PHYS, "            progress_observer.increment_completed(section=\"run\", scope=scope)\n", "            progress_observer.increment_completed(section=\"run\", scope=scope)\n            return result\n")],
    '''
import gc, threading, uberjob, weakref
class Big: pass
refs, alive = [], []
def make():
    b = Big()
    refs.append(weakref.ref(b))
    return b
ready, done = threading.Event(), threading.Event()
def other(b):
    done.set()
def look(_):
    done.wait(10)
    import time
    time.sleep(0.2)
    gc.collect()
    alive.append(refs[0]() is not None)
p = uberjob.Plan()
def slow():
    import time
    time.sleep(0.2)
start = p.call(slow)
b = p.call(make)
o = p.call(other, b)
p.add_dependency(b, start)
w = p.call(look, start)
uberjob.run(p, output=[o, w], max_workers=3, progress=None)
assert alive == [False], "the result is still alive after its only consumer has finished"
''', "the worker that ran a call stays idle after the consumer of its result (run by another worker) has finished",
    "each worker keeps the last result it computed until it runs something else")

bug("C17-join-timeout", "C17",
    [(RFG, "            item = queue.get()\n", "            try:\n                item = queue.get(timeout=None if threading.main_thread().is_alive() else 0)\n            except Empty:\n                return\n")],
    "raise SystemExit(0)", "x", "x")

bug("C17-put-after-stop", "C17",
    [(RFG, "        if stop:\n            return\n        try:\n            fn(node)", "        if stop and max_errors is not None:\n            return\n        try:\n            fn(node)")],
    '''
import os, signal, threading, time, uberjob
ran = []
p = uberjob.Plan()
def work(i):
    if i == 0:
        os.kill(os.getpid(), signal.SIGINT)
        time.sleep(0.3)
    ran.append(i)
    time.sleep(0.01)
prev = None
for i in range(30):
    x = p.call(work, i)
    if prev is not None:
        p.add_dependency(prev, x)
    prev = x
try:
    uberjob.run(p, output=prev, max_workers=2, max_errors=None, progress=None)
    raise SystemExit("no KeyboardInterrupt")
except KeyboardInterrupt:
    pass
assert ran == [0], f"calls were started after the interrupt: {ran}"
''', "Ctrl-C during a run with max_errors=None", "calls that become ready after the interrupt are still started")

bug("C17-random-done", "C17",
    [("_execution/scheduler.py", "        # The priority mapping has priorities [0, n).\n        # Setting the default priority to -1 gives the DONE sentinel highest priority.\n        return PriorityQueue(initial_items, lambda node: priority_mapping.get(node, -1))",
      "        return PriorityQueue(\n            initial_items, lambda node: priority_mapping.get(node, len(graph))\n        )"),
     (RFG, "        if stop:\n            return\n        try:\n            fn(node)", "        if error_count and stop:\n            return\n        try:\n            fn(node)")],
    '''
import os, signal, time, uberjob
ran = []
p = uberjob.Plan()
def work(i):
    if not ran:
        os.kill(os.getpid(), signal.SIGINT)
        time.sleep(0.3)
    ran.append(i)
    time.sleep(0.01)
xs = [p.call(work, i) for i in range(20)]
try:
    uberjob.run(p, output=xs, max_workers=1, progress=None)
    raise SystemExit("no KeyboardInterrupt")
except KeyboardInterrupt:
    pass
assert len(ran) == 1, f"calls were started after the interrupt: {ran}"
''', "Ctrl-C while more calls are queued", "two changes: the shutdown sentinel has the lowest priority, and the stop flag only counts after an error")

bug("C19-ipython-path", "C19",
    [("_util/traceback.py", 'if "/IPython/core/" in stack_frame.path:', 'if "ipython" in stack_frame.path.lower():')],
    '''
import os, runpy, tempfile, uberjob
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "ipython_jobs.py")
    open(path, "w").write("import uberjob\\ndef fail():\\n    raise ValueError\\np = uberjob.Plan()\\nx = p.call(fail)\\n")
    g = runpy.run_path(path)
    try:
        uberjob.run(g["p"], output=g["x"], progress=None)
    except uberjob.CallError as e:
        assert f'File "{path}", line 5' in str(e), str(e)
''', "user code in a file whose path mentions ipython", "the frames from there outwards are dropped from the message")

bug("C19-unpack-frame", "C19",
    [("_plan.py", "            self._call(stack_frame, operator.getitem, t, index)\n", "            self._call(get_stack_frame(), operator.getitem, t, index)\n")],
    STORES + '''
import sys
class Bad(Mem):
    def get_modified_time(self):
        raise OSError("no")
p, r = uberjob.Plan(), uberjob.Registry()
def build():
    return p.unpack(p.call(lambda: (1, 2)), 2), sys._getframe().f_lineno
(a, b), line = build()
r.add(b, Bad("bad"))
try:
    uberjob.run(p, registry=r, progress=None)
except uberjob.CallError as e:
    f = e.call.stack_frame
    assert (f.path, f.line) == (__file__, line), f
''', "a failing modified-time query of the store of an unpacked element", "elements of unpack are attributed one frame too far in or out")

bug("C20-scope-type", "C20",
    [(SIMPLE, "            key=lambda pair: [(str(type(x)), str(x)) for x in pair[0]],\n", "            key=lambda pair: (str(type(pair[0][0])), str(pair[0][0]), pair[0]),\n")],
    '''
import time, uberjob
from uberjob.progress import html_progress
pages = []
p = uberjob.Plan()
class Tag:
    def __init__(self, n): self.n = n
def f(): pass
xs = []
for n in (1j, 2j):
    with p.scope("same", n):
        xs.append(p.call(f))
try:
    uberjob.run(p, output=xs, progress=html_progress(pages.append))
finally:
    pass
assert pages and b"2 / 2" in pages[-1], "no final page"
''', "scopes that agree in their first value and have unorderable values after it", "sorting the scopes raises and the display thread dies")

bug("C20-max-exceptions", "C20",
    [(SIMPLE, "            self._new_exception_index = len(self._exception_tuples)\n", "            self._new_exception_index += 1\n")],
    '''
import contextlib, io, uberjob
from uberjob.progress._console_progress_observer import ConsoleProgressObserver
out = io.StringIO()
with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
    o = ConsoleProgressObserver(initial_update_delay=0.05, min_update_interval=0.05, max_update_interval=0.05)
    with o:
        o.increment_total(section="run", scope=("s",), amount=4)
        import time
        time.sleep(0.3)
        for i in range(4):
            o.increment_running(section="run", scope=("s",))
            o.increment_failed(section="run", scope=("s",), exception=ValueError(f"error-{i}"))
            time.sleep(0.01)
text = out.getvalue()
for i in range(4):
    assert f"error-{i}" in text, f"error-{i} was never displayed"
''', "failures that come after renderings without failures", "the display skips exceptions that it has not shown yet")

bug("C20-elapsed-shared", "C20",
    [(SIMPLE, "            multiplier = elapsed / self.running_count\n", "            multiplier = elapsed / len(self._running_scope_states)\n"),
     (SIMPLE, "                scope_state.weighted_elapsed += scope_state.running * multiplier\n", "                scope_state.weighted_elapsed += min(scope_state.running, 4) * multiplier / max(\n                    min(scope_state.running, 4), 1\n                ) if len(self._running_scope_states) > 1 else elapsed * min(\n                    1, 4 / scope_state.running\n                )\n")],
    '''
import re, time, uberjob
from uberjob.progress import html_progress
from uberjob.progress._html_progress_observer import HtmlProgressObserver
pages = []
o = HtmlProgressObserver(pages.append, initial_update_delay=60, min_update_interval=60, max_update_interval=60)
with o:
    o.increment_total(section="run", scope=("s",), amount=8)
    for _ in range(8):
        o.increment_running(section="run", scope=("s",))
    time.sleep(3.2)
    for _ in range(8):
        o.increment_completed(section="run", scope=("s",))
times = re.findall(rb'<td class="text-end">(\\d+)s</td>', pages[-1])
assert times == [b"3"], times
''', "more than four calls of one scope running at once", "elapsed time is lost when a scope has more than four running calls")
