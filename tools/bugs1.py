CACHING = "_transformations/caching.py"
RFG = "_execution/run_function_on_graph.py"

bug("C01-literal-zip", "C01",
    [("_transformations/pruning.py", "import itertools\n", ""),
     ("_transformations/pruning.py", "itertools.product(predecessors, successors)", "zip(predecessors, successors)")],
    '''
import time, uberjob
p = uberjob.Plan()
done = []
def slow():
    time.sleep(0.3)
    done.append(1)
a, b = p.call(lambda: None), p.call(slow)
lit = p.lit("barrier")
p.add_dependency(a, lit)
p.add_dependency(b, lit)
seen = []
c = p.call(lambda: seen.append(len(done)))
p.add_dependency(lit, c)
uberjob.run(p, output=[a, b, c], max_workers=4, progress=None)
assert seen == [1], "the call started before what it depends on through the literal had finished"
''', "a literal with two predecessors and one successor, all ordering edges, and a slow second predecessor",
    "removing a trivial literal keeps only one of the dependencies routed through it")

bug("C01-literal-argument", "C01",
    [("_transformations/pruning.py", "node for node in graph if type(node) is Literal and is_source_node(graph, node)",
      "node\n        for node in graph\n        if type(node) is Literal and (predicate is None or is_source_node(graph, node))")],
    '''
import time, uberjob
p = uberjob.Plan()
done, seen = [], []
def slow():
    time.sleep(0.3)
    done.append(1)
a = p.call(slow)
lit = p.lit(7)
p.add_dependency(a, lit)
c = p.call(lambda x: seen.append((x, len(done))), lit)
uberjob.run(p, output=c, max_workers=4, progress=None)
assert seen == [(7, 1)], f"the call started before its argument's dependencies had finished: {seen}"
''', "a literal that is an argument of a call and itself depends on another call",
    "all literals, not only source literals, are removed before the physical run, and the ordering through them is lost")

bug("C02-kwargs-order", "C02",
    [("graph.py", "            keyword_arg_pairs.append(None)\n", "            keyword_arg_pairs.append((edge_key.index, None, None))\n"),
     ("graph.py", "            keyword_arg_pairs[edge_key.index] = edge_key.name, predecessor\n\n    return args, dict(keyword_arg_pairs)",
      "            keyword_args[edge_key.name] = predecessor\n\n    return args, keyword_args"),
     ("graph.py", "    keyword_arg_pairs = []\n", "    keyword_args = {}\n"),
     ("graph.py", "        elif type(edge_key) is KeywordArg:\n            keyword_arg_pairs.append((edge_key.index, None, None))\n", "")],
    '''
import uberjob
p = uberjob.Plan()
x, y = p.lit(1), p.lit(2)
got = uberjob.run(p, output=p.call(lambda **kw: list(kw.items()), a=x, b=y, c=x), progress=None)
assert got == [("a", 1), ("b", 2), ("c", 1)], got
''', "one node passed as two keyword arguments with another between them, to a function that sees their order",
    "keyword arguments arrive in the order of the graph's edges instead of the order given")

bug("C02-equal-literals", "C02",
    [("_plan.py", "                children = [recurse(item) for item in items]\n",
      '''                children = []
                known = {}
                for item in items:
                    try:
                        child = known.setdefault(item, item)
                    except TypeError:
                        child = item
                    children.append(recurse(child))
''')],
    '''
import uberjob
p = uberjob.Plan()
n = p.call(lambda: "v")
got = uberjob.run(p, output=[1, n, True, 1.0, 0.0, -0.0], progress=None)
assert [repr(x) for x in got] == ["1", "'v'", "True", "1.0", "0.0", "-0.0"], got
''', "a structure with a node and values that are equal but not the same, such as 1, True and 1.0",
    "equal values in a gathered structure are replaced by the first of them")

bug("C03-stored-literal", "C03",
    [(CACHING, "        plan, inplace=False, predicate=lambda node: node not in registry\n", "        plan, inplace=False, predicate=lambda node: registry.get(node) is None or not plan.graph.succ[node]\n")],
    '''
import datetime as dt, uberjob
class S(uberjob.ValueStore):
    def __init__(self): self.v = None; self.t = None
    def read(self): return self.v
    def write(self, v): self.v = v; self.t = dt.datetime.now()
    def get_modified_time(self): return self.t
p, r = uberjob.Plan(), uberjob.Registry()
s = S()
x = p.lit(5)
r.add(x, s)
uberjob.run(p, registry=r, progress=None)
assert s.v == 5, "the stored literal was not written"
''', "a registered literal that nothing consumes",
    "a stored literal without consumers is never examined, so its store is never written")

bug("C08-transitive-time", "C08",
    [(CACHING, "            modified_time_lookup[node].value = max_ancestor_modified_time\n            return\n",
      "            modified_time_lookup[node].value = max_ancestor_modified_time\n            return\n        if registry.mapping[node].is_source:\n            max_ancestor_modified_time = None\n")],
    '''
import datetime as dt, uberjob
clock = [0]
def now():
    clock[0] += 1
    return dt.datetime(2020, 1, 1) + dt.timedelta(seconds=clock[0])
class S(uberjob.ValueStore):
    def __init__(self, f=None): self.v = None; self.t = None; self.f = f
    def read(self): return self.v
    def write(self, v): self.v = v; self.t = now()
    def get_modified_time(self): return self.t
cur = [1]
p, r = uberjob.Plan(), uberjob.Registry()
src = S(); src.write(1)
a = r.source(p, src)
out = S()
fail = [False]
def produce(x):
    out.v = x * 10; out.t = now()
b = p.call(produce, a)
touch = S(); r.add(b, touch)
d = r.source(p, out)          # a dependent source, produced by b
p.add_dependency(b, d)
final = S()
def use(v):
    if fail[0]: raise ValueError
    return v + 1
e = p.call(use, d); r.add(e, final)
uberjob.run(p, registry=r, progress=None)
assert final.v == 11
src.write(2)
fail[0] = True
try:
    uberjob.run(p, registry=r, progress=None)
except uberjob.CallError:
    pass
fail[0] = False
# as if the file the first step produces had been left behind by the cut
out.v = 10; out.t = dt.datetime(2020, 1, 1)
touch.t = now()
uberjob.run(p, registry=r, progress=None)
try:
    assert final.t > touch.t, "a source older than what it depends on was taken for up to date"
except AssertionError:
    raise
''', "a source that depends on other calls and is older than a store upstream of it",
    "the modified times upstream of a dependent source are ignored")

bug("C05-equal-times", "C05",
    [(CACHING, "        ) and safe_max(\n            modified_time, max_ancestor_modified_time, fresh_time\n        ) > modified_time:\n",
      "        ) and (safe_max(max_ancestor_modified_time, fresh_time) or modified_time) >= modified_time and (max_ancestor_modified_time or fresh_time):\n")],
    '''
import datetime as dt, uberjob
T = dt.datetime(2020, 1, 1)
class S(uberjob.ValueStore):
    def __init__(self, t=None): self.v = 1; self.t = t; self.writes = 0
    def read(self): return self.v
    def write(self, v): self.v = v; self.t = T; self.writes += 1
    def get_modified_time(self): return self.t
p, r = uberjob.Plan(), uberjob.Registry()
a = r.source(p, S(T))
s = S(T)
b = p.call(lambda x: x, a)
r.add(b, s)
uberjob.run(p, registry=r, progress=None)
assert s.writes == 0, "a value as old as its source was rebuilt"
''', "a stored value with exactly the modified time of its source (a coarse clock)",
    "values as old as their inputs are rebuilt in every run")

bug("C05-fresh-no-source", "C05",
    [(CACHING, "            max_ancestor_modified_time or not registry.mapping[node].is_source\n", "            max_ancestor_modified_time or not plan.graph.pred[node]\n")],
    '''
import datetime as dt, uberjob
T = dt.datetime(2020, 1, 1)
class S(uberjob.ValueStore):
    def __init__(self, t=None): self.v = 1; self.t = t; self.writes = 0
    def read(self): return self.v
    def write(self, v): self.v = v; self.t = dt.datetime.now(); self.writes += 1
    def get_modified_time(self): return self.t
p, r = uberjob.Plan(), uberjob.Registry()
a = p.call(lambda: 1)
s = S(T)
b = p.call(lambda x: x, a)
r.add(b, s)
uberjob.run(p, registry=r, progress=None, fresh_time=dt.datetime(2021, 1, 1))
assert s.writes == 1, "a value older than fresh_time was not rebuilt"
''', "fresh_time, and a stored value computed from calls that depend on no source and no store",
    "fresh_time is not applied to stored values with predecessors but no stored value upstream")

bug("C06-last-error", "C06",
    [(RFG, "                if not first_node_error:\n", "                if not first_node_error or error_count == max_errors:\n")],
    '''
import uberjob
p = uberjob.Plan()
errs = []
def f(i):
    e = ValueError(i)
    errs.append(e)
    raise e
calls = [p.call(f, i) for i in range(5)]
try:
    uberjob.run(p, output=calls, max_workers=1, max_errors=3, progress=None)
    raise SystemExit("no error")
except uberjob.CallError as e:
    assert e.__cause__ is errs[0], f"the error raised is not the first one: {e.__cause__!r} of {errs}"
''', "at least max_errors failing calls with max_errors of 2 or more, one worker",
    "the error that reaches the limit replaces the first error")

bug("C06-shared-cause", "C06",
    [("_run.py", "        raise CallError(e.node) from e.__cause__", "        raise CallError(e.node) from (e.__cause__.__cause__ or e.__cause__)")],
    '''
import uberjob
p = uberjob.Plan()
raised = []
def f():
    try:
        raise KeyError("inner")
    except KeyError as k:
        e = ValueError("outer")
        raised.append(e)
        raise e from k
try:
    uberjob.run(p, output=p.call(f), progress=None)
    raise SystemExit("no error")
except uberjob.CallError as e:
    assert e.__cause__ is raised[0], f"the cause is {e.__cause__!r}"
''', "a call that raises an exception with an explicit cause",
    "the root cause is reported instead of the exception the call raised")

bug("C07-sourceless-cycle", "C07",
    [(RFG, "    assert_acyclic(graph)\n    worker_count = coerce", "    worker_count = coerce"),
     (RFG, "    remaining_pred_count_lock = threading.Lock()\n", "    if source_nodes:\n        assert_acyclic(graph)\n    remaining_pred_count_lock = threading.Lock()\n")],
    '''
import uberjob
p = uberjob.Plan()
ran = []
a, b = p.call(lambda: ran.append(1)), p.call(lambda: ran.append(2))
p.add_dependency(a, b)
p.add_dependency(b, a)
try:
    uberjob.run(p, output=[a, b], progress=None, max_workers=1, scheduler="random")
except Exception as e:
    print(type(e))
else:
    raise SystemExit("a cycle went unnoticed")
''', "a plan in which every call is on or behind a cycle, and the random scheduler",
    "a cycle without any ready node is not reported: the run returns without having done anything")

bug("C07-base-exception", "C07",
    [(RFG, "        except BaseException as exception:\n            with failure_lock", "        except (Exception, KeyboardInterrupt) as exception:\n            with failure_lock")],
    '''
import os, sys, threading, uberjob
threading.excepthook = lambda a: None
def guard():
    print("hang")
    os._exit(3)
t = threading.Timer(20, guard)
t.daemon = True
t.start()
p = uberjob.Plan()
calls = [p.call(sys.exit, 1) for _ in range(3)]
try:
    uberjob.run(p, output=calls, max_workers=2, progress=None, max_errors=None)
except BaseException as e:
    print(type(e))
else:
    raise SystemExit("no error")
''', "as many calls that raise SystemExit as there are workers, and more calls ready",
    "workers die of exceptions that are neither Exception nor KeyboardInterrupt, and the run waits for ever")

bug("C10-stale-workers", "C10",
    [("_run.py", "                    max_workers=stale_check_max_workers,\n", "                    max_workers=max_workers,\n")],
    '''
import datetime as dt, threading, time, uberjob
lock = threading.Lock()
cur = peak = 0
class S(uberjob.ValueStore):
    def read(self): return 1
    def write(self, v): pass
    def get_modified_time(self):
        global cur, peak
        with lock:
            cur += 1
            peak = max(peak, cur)
        time.sleep(0.05)
        with lock:
            cur -= 1
        return dt.datetime(2020, 1, 1)
p, r = uberjob.Plan(), uberjob.Registry()
for _ in range(12):
    r.source(p, S())
uberjob.run(p, registry=r, progress=None, max_workers=6, stale_check_max_workers=2)
assert peak <= 2, f"{peak} modified times were queried at once"
''', "stale_check_max_workers lower than max_workers and slow modified-time queries",
    "stale_check_max_workers is ignored")

bug("C10-first-attempt", "C10",
    [("_util/retry.py", '''            for attempt_index in range(attempts):
                try:
                    return f(*args, **kwargs)
                except exc_type:
                    is_last_attempt = attempt_index == attempts - 1
                    if is_last_attempt:
                        raise
''', '''            exceptions = []
            for _ in range(attempts):
                try:
                    return f(*args, **kwargs)
                except exc_type as e:
                    exceptions.append(e)
            raise exceptions[0]
''')],
    '''
import uberjob
errs = []
def f():
    e = ValueError(len(errs))
    errs.append(e)
    raise e
p = uberjob.Plan()
try:
    uberjob.run(p, output=p.call(f), retry=3, progress=None)
    raise SystemExit("no error")
except uberjob.CallError as e:
    assert len(errs) == 3 and e.__cause__ is errs[-1], f"{e.__cause__!r} of {errs}"
''', "retry of 2 or more and a call that raises a different exception at each attempt",
    "the exception of the first attempt is reported instead of that of the last")

bug("C11-direct-write", "C11",
    [("stores/_binary_file_store.py", "        with staged_write(self.path, mode=\"wb\") as outputfile:\n            outputfile.write(value)",
      "        if len(value) <= io.DEFAULT_BUFFER_SIZE:\n            # Reaches the file in a single write.\n            with open(self.path, mode=\"wb\") as outputfile:\n                outputfile.write(value)\n            return\n        with staged_write(self.path, mode=\"wb\") as outputfile:\n            outputfile.write(value)"),
     ("stores/_binary_file_store.py", "from uberjob.stores", "import io\n\nfrom uberjob.stores")],
    '''
import os, resource, signal, tempfile
from uberjob.stores import BinaryFileStore
signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
with tempfile.TemporaryDirectory() as d:
    s = BinaryFileStore(os.path.join(d, "x"))
    s.write(b"old value")
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (4, hard))
    try:
        s.write(b"the new value")
    except OSError as e:
        print(e)
    else:
        raise SystemExit("no error")
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
    assert s.read() == b"old value", s.read()
''', "a write of a small value that fails, or a process that dies, between opening the file and writing to it",
    "small binary values are written directly to the target")

bug("C12-ascii", "C12",
    [("stores/_json_file_store.py", "json.dump(value, outputfile, indent=4)", "json.dump(value, outputfile, indent=4, ensure_ascii=False)")],
    '''
import os, tempfile
from uberjob.stores import JsonFileStore
with tempfile.TemporaryDirectory() as d:
    for enc, v in ((None, ["\\ud800"]), ("ascii", ["caf\\xe9"])):
        s = JsonFileStore(os.path.join(d, "x"), encoding=enc)
        s.write(v)
        assert s.read() == v
''', "a JSON value with a lone surrogate, or characters outside the store's encoding",
    "JSON values with characters that the file's encoding cannot represent can no longer be written")

bug("C12-epoch", "C12",
    [("stores/_file_store.py", "    except OSError:\n        return None\n    return dt.datetime.fromtimestamp(t)\n", "    except OSError:\n        t = 0\n    return dt.datetime.fromtimestamp(t) if t else None\n")],
    '''
import os, tempfile
from uberjob.stores import PickleFileStore
with tempfile.TemporaryDirectory() as d:
    s = PickleFileStore(os.path.join(d, "x"))
    s.write(1)
    os.utime(s.path, (0, 0))
    assert s.get_modified_time() is not None
''', "a stored file whose modified time is the epoch (reproducible archives, image layers)",
    "a stored value dated 1970-01-01 is reported as missing")

bug("C13-inplace", "C13",
    [("_run.py", "    plan = get_mutable_plan(plan, inplace=False)\n", "    # Only a run that adds to or prunes the plan needs a copy.\n    plan = get_mutable_plan(plan, inplace=not registry and output is None)\n")],
    '''
import uberjob
p = uberjob.Plan()
calls = [p.call(lambda i: i, i) for i in range(3)]
before = set(p.graph.nodes)
uberjob.run(p, progress=None)
assert set(p.graph.nodes) == before, "run changed the plan it was given"
''', "a run with neither a registry nor an output",
    "the plan of the caller is pruned in place")

bug("C13-registry-copy", "C13",
    [("_registry.py", '''        new_registry.mapping = {
            node: copy.copy(registry_value)
            for node, registry_value in self.mapping.items()
        }
''', '''        new_registry.mapping = collections.ChainMap({}, self.mapping)
'''), ("_registry.py", "import copy\n", "import collections\n")],
    '''
import uberjob
from uberjob.stores import LiteralSource
p, r = uberjob.Plan(), uberjob.Registry()
a, b = p.call(int), p.call(int)
r.add(a, LiteralSource(1, None))
c = r.copy()
r.add(b, LiteralSource(2, None))
assert list(c) == [a] and len(c) == 1, "the copy changed with the original"
''', "an addition to the original after Registry.copy",
    "a copy of a registry sees what is added to the original later")

bug("C14-unredirected", "C14",
    [("_run.py", "                return plan, redirected_output_node\n", "                return plan, output_node if output_node in plan.graph else redirected_output_node\n")],
    '''
import datetime as dt, uberjob
class S(uberjob.ValueStore):
    def __init__(self): self.v = None; self.t = None
    def read(self): return ("read", self.v)
    def write(self, v): self.v = v; self.t = dt.datetime.now()
    def get_modified_time(self): return self.t
p, r = uberjob.Plan(), uberjob.Registry()
x = p.call(lambda: 1)
r.add(x, S())
plan, node = uberjob.run(p, registry=r, output=x, dry_run=True, progress=None)
assert uberjob.run(plan, output=node, progress=None) == ("read", 1)
''', "a dry run whose output is itself a stored value that is out of date",
    "the output node of a dry run is the call rather than the read of its stored value")

bug("C15-transform-totals", "C15",
    [("_run.py", '''            if transform_physical:
                plan, redirected_output_node = transform_physical(
                    plan, redirected_output_node
                )

            _update_run_totals(plan, progress_observer)
''', '''            _update_run_totals(plan, progress_observer)

            if transform_physical:
                plan, redirected_output_node = transform_physical(
                    plan, redirected_output_node
                )
''')],
    '''
import uberjob
from uberjob.progress import Progress, ProgressObserver
class O(ProgressObserver):
    total = done = 0
    def __enter__(self): pass
    def __exit__(self, *a): pass
    def increment_total(self, *, section, scope, amount): self.total += amount
    def increment_running(self, *, section, scope): pass
    def increment_completed(self, *, section, scope): self.done += 1
    def increment_failed(self, *, section, scope, exception): pass
o = O()
def t(plan, node):
    return plan, plan.call(lambda x: x, node)
p = uberjob.Plan()
uberjob.run(p, output=p.call(int), transform_physical=t, progress=Progress(lambda: o))
assert o.total == o.done == 2, (o.total, o.done)
''', "transform_physical that adds or removes calls",
    "the run totals are announced before the physical plan is transformed")

bug("C15-failed-scope", "C15",
    [(CACHING, '''                progress_observer.increment_failed(
                    section="stale",
                    scope=scope,
''', '''                progress_observer.increment_failed(
                    section="stale",
                    scope=get_full_call_scope(node),
''')],
    '''
import collections, uberjob
from uberjob.progress import Progress, ProgressObserver
n = collections.Counter()
class O(ProgressObserver):
    def __enter__(self): pass
    def __exit__(self, *a): pass
    def increment_total(self, *, section, scope, amount): pass
    def increment_running(self, *, section, scope): n[section, scope] += 1
    def increment_completed(self, *, section, scope): n[section, scope] -= 1
    def increment_failed(self, *, section, scope, exception): n[section, scope] -= 1
class S(uberjob.ValueStore):
    def read(self): pass
    def write(self, v): pass
    def get_modified_time(self): raise OSError
p, r = uberjob.Plan(), uberjob.Registry()
r.source(p, S())
try:
    uberjob.run(p, registry=r, progress=Progress(O))
except uberjob.CallError:
    pass
assert not any(n.values()), n
''', "a failing modified-time query",
    "a failed examination is reported in another scope than the one it was reported running in")

bug("C16-failed-args", "C16",
    [("_execution/run_physical.py", "            finally:\n                bound_call.value = None\n            progress", "            bound_call.value = None\n            progress")],
    '''
import gc, weakref, uberjob
class V: pass
refs = []
def make():
    v = V()
    refs.append(weakref.ref(v))
    return v
def boom(v):
    raise ValueError
alive = []
def last(*a):
    gc.collect()
    alive.append([r() is not None for r in refs])
p = uberjob.Plan()
first = p.call(boom, 0)
use = []
for i in range(3):
    m = p.call(make)
    p.add_dependency(p.lit(0), m)
    b = p.call(boom, m)
    use.append(b)
z = p.call(last)
try:
    uberjob.run(p, output=[first, *use, z], max_workers=1, max_errors=None, progress=None)
except uberjob.CallError:
    pass
# run again with the probe last
refs.clear(); alive.clear()
def t(plan, node):
    return plan, node
class Retry:
    pass
count = [0]
def retry(f):
    def g(*a):
        if f is last:
            return f(*a)
        return f(*a)
    return g
from uberjob.progress import Progress, ProgressObserver
class O(ProgressObserver):
    def __enter__(self): pass
    def __exit__(self, *a):
        gc.collect()
        alive.append(sum(r() is not None for r in refs))
    def increment_total(self, **k): pass
    def increment_running(self, **k): pass
    def increment_completed(self, **k): pass
    def increment_failed(self, *, section, scope, exception): self.n = None
held = []
def probe(*a):
    gc.collect()
    held.append(sum(r() is not None for r in refs))
p = uberjob.Plan()
node = None
chain = p.call(boom, 0)
outs = [chain]
for i in range(4):
    m = p.call(make)
    outs.append(p.call(boom, m))
    outs.append(p.call(probe))
try:
    uberjob.run(p, output=outs, max_workers=1, max_errors=None, progress=None, scheduler="random")
except uberjob.CallError:
    pass
worst = 0
for _ in range(20):
    held.clear(); refs.clear()
    try:
        uberjob.run(p, output=outs, max_workers=1, max_errors=None, progress=None, scheduler="random")
    except uberjob.CallError:
        pass
    worst = max(worst, *held)
# one value may wait for its consumer, and the first error's traceback holds one: probes see at most those
class Q(ProgressObserver):
    def __enter__(self): pass
    def __exit__(self, *a): pass
    def increment_total(self, **k): pass
    def increment_running(self, **k): pass
    def increment_completed(self, **k): pass
    def increment_failed(self, **k): pass
p = uberjob.Plan()
order = []
prev = p.call(lambda: None)
outs = [p.call(boom, 0)]
for i in range(4):
    m = p.call(make)
    p.add_dependency(prev, m)
    outs.append(p.call(boom, m))
    prev = m
end = p.call(lambda: __import__("time").sleep(0.3))
p.add_dependency(prev, end)
pr = p.call(probe)
p.add_dependency(end, pr)
outs.append(pr)
held.clear(); refs.clear()
try:
    uberjob.run(p, output=outs, max_workers=4, max_errors=None, progress=None)
except uberjob.CallError:
    pass
assert held and held[-1] <= 1, f"{held[-1]} results whose only consumer has failed are still alive"
''', "max_errors above 0, consumers that fail, and a run that goes on after them",
    "the arguments of failed calls are kept until the end of the run")

bug("C17-stop", "C17",
    [(RFG, "    finally:\n        stop = True\n        for _ in workers:\n            queue.put(DONE)\n", "    finally:\n        for _ in workers:\n            queue.put(DONE)\n")],
    '''
import os, signal, threading, time, uberjob
bad = 0
for trial in range(6):
    p = uberjob.Plan()
    started = []
    sent = []
    def f(i):
        started.append((i, bool(sent)))
        if len(started) == 2:
            os.kill(os.getpid(), signal.SIGINT)
            time.sleep(0.05)
            sent.append(1)
        time.sleep(0.05)
    calls = [p.call(f, i) for i in range(60)]
    try:
        uberjob.run(p, output=calls, max_workers=2, progress=None, scheduler="random")
        raise SystemExit("not interrupted")
    except KeyboardInterrupt:
        pass
    bad = max(bad, sum(late for _, late in started))
assert bad <= 3, f"{bad} calls were started after the interrupt"
''', "KeyboardInterrupt with many calls queued and the random scheduler",
    "after an interrupt the workers go on with queued calls until they happen to draw the sentinel")

bug("C18-utc", "C18",
    [("stores/_file_store.py", "dt.datetime.fromtimestamp(t)", "dt.datetime.utcfromtimestamp(t)")],
    '''
import os, time
os.environ["TZ"] = "America/New_York"
time.tzset()
import datetime as dt, tempfile, warnings, uberjob
warnings.simplefilter("ignore")
from uberjob.stores import JsonFileStore
with tempfile.TemporaryDirectory() as d:
    s = JsonFileStore(os.path.join(d, "x"))
    n = []
    p, r = uberjob.Plan(), uberjob.Registry()
    x = p.call(lambda: n.append(1))
    r.add(x, s)
    uberjob.run(p, registry=r, progress=None)
    fresh = dt.datetime.now(dt.timezone.utc) + dt.timedelta(hours=1)
    uberjob.run(p, registry=r, progress=None, fresh_time=fresh)
    assert len(n) == 2, "a value older than fresh_time was taken for fresh"
''', "a local time zone other than UTC and a fresh_time or store with aware times",
    "file stores report naive UTC times, which are read as local time")

bug("C19-source-mtime", "C19",
    [("_registry.py", "        node = plan._call(stack_frame, source)\n", "        node = plan.call(source)\n")],
    '''
import inspect, uberjob
class S(uberjob.ValueStore):
    def read(self): pass
    def write(self, v): pass
    def get_modified_time(self): raise OSError
p, r = uberjob.Plan(), uberjob.Registry()
line = inspect.currentframe().f_lineno + 1
r.source(p, S())
try:
    uberjob.run(p, registry=r, progress=None)
except uberjob.CallError as e:
    f = e.call.stack_frame
    assert (f.path, f.line) == (__file__, line), (f.path, f.line)
''', "a failed modified-time query of a source",
    "the failure is attributed to a line of uberjob instead of the registry.source line")

bug("C20-bar-max", "C20",
    [("progress/_ipython_progress_observer.py", '''                    progress_widget.max = scope_state.total
                    progress_widget.value = scope_state.completed + scope_state.failed
''', '''                    progress_widget.value = scope_state.completed + scope_state.failed
                    progress_widget.max = scope_state.total
''')],
    '''
import ipywidgets, IPython.display
from uberjob.progress import ipython_progress
shown = []
IPython.display.display = lambda x: shown.append(x)
o = ipython_progress.observer()
o.__enter__()
o.increment_total(section="run", scope=("a",), amount=150)
for _ in range(150):
    o.increment_running(section="run", scope=("a",))
    o.increment_completed(section="run", scope=("a",))
o.__exit__(None, None, None)
def bars(w):
    if isinstance(w, ipywidgets.IntProgress):
        yield w
    for c in getattr(w, "children", ()):
        yield from bars(c)
[b] = bars(shown[0])
assert (b.value, b.max) == (150, 150), (b.value, b.max)
''', "more than 100 calls of a scope completed before the first rendering",
    "the bar is clamped to the widget's default maximum and does not show the final count")

bug("C20-last-render", "C20",
    [("progress/_simple_progress_observer.py", '''        done = False
        first = True
        while not done:
            done = self._done_event.wait(
                self._initial_update_delay if first else self._min_update_interval
            )
            first = False
''', '''        first = True
        while first or not self._done_event.is_set():
            self._done_event.wait(
                self._initial_update_delay if first else self._min_update_interval
            )
            first = False
''')],
    '''
import re, time
from uberjob.progress import html_progress
docs = []
def out(d):
    docs.append(d)
    if len(docs) == 1:
        # the run ends while the first rendering is being output
        o.increment_running(section="run", scope=("a",))
        o.increment_completed(section="run", scope=("a",))
        o._done_event.set()
o = html_progress(out).observer()
o.__enter__()
o.increment_total(section="run", scope=("a",), amount=1)
time.sleep(3.5)
o.__exit__(None, None, None)
assert b"1 / 1" in docs[-1], "the last rendering does not show the final count"
''', "the run ends while a rendering is under way",
    "the update thread stops without the final rendering when the run ends while it is rendering")
