CACHING = "_transformations/caching.py"
PRUNING = "_transformations/pruning.py"
RFG = "_execution/run_function_on_graph.py"
PHYS = "_execution/run_physical.py"
SIMPLE = "progress/_simple_progress_observer.py"
FS = "stores/_file_store.py"

STORES = '''
import datetime as dt, itertools, threading, time, uberjob
CLOCK = itertools.count(1)
def now():
    return dt.datetime(2020, 1, 1) + dt.timedelta(seconds=next(CLOCK))
LOG = []
class Mem(uberjob.ValueStore):
    def __init__(self, name, *value):
        self.name, self.time, self.value = name, None, None
        if value:
            self.value, self.time = value[0], now()
    def read(self):
        LOG.append(("read", self.name))
        return self.value
    def write(self, value):
        LOG.append(("write", self.name))
        self.value, self.time = value, now()
    def get_modified_time(self):
        return self.time
'''

bug("C01-parallel-edges", "C01",
    [(RFG, "                        remaining_pred_count_mapping[successor] -= 1\n",
      "                        remaining_pred_count_mapping[successor] -= (\n                            graph.number_of_edges(node, successor)\n                        )\n")],
    '''
import time, uberjob
p = uberjob.Plan()
done, seen = [], []
def slow():
    time.sleep(0.3)
    done.append(1)
a = p.call(lambda: 1)
b = p.call(slow)
c = p.call(lambda *args: seen.append(len(done)), a, a, b)
uberjob.run(p, output=c, max_workers=4, progress=None)
assert seen == [1], f"the call started before its third argument was there: {seen}"
''', "a call that receives the same node twice and another node that finishes later",
    "a predecessor is counted once but subtracted once per edge")

bug("C02-false-cycle", "C02",
    [("_execution/greedy.py", "for component in nx.algorithms.strongly_connected_components(components_graph)",
      "for component in ([node] for node in components_graph)")],
    '''
import uberjob
p = uberjob.Plan()
a = p.call(lambda: 1)
b = p.call(lambda x: x + 1, a)
c = p.call(lambda: 10)
d = p.call(lambda x: x + 1, c)
p.add_dependency(a, c)
p.add_dependency(d, b)
assert uberjob.run(p, output=[b, d], max_workers=2, progress=None) == [2, 11]
''', "two groups of calls joined by arguments, with ordering dependencies between the groups in both directions (no cycle)",
    "an acyclic plan is rejected as cyclic by the default scheduler")

bug("C02-unpack-lazy", "C02",
    [("_builtins.py", "    t = tuple(itertools.islice(iterable, length + 1))\n",
      "    t = tuple(itertools.islice(iterable, length or None))\n    t += tuple(itertools.islice(iter(iterable), 0))\n    if len(t) == length and hasattr(iterable, \"__len__\") and len(iterable) > length:\n        t = tuple(iterable)\n")],
    '''
import uberjob
p = uberjob.Plan()
x = p.call(lambda: iter([1, 2, 3]))
y = p.unpack(x, 2)
try:
    r = uberjob.run(p, output=list(y), progress=None)
except uberjob.CallError as e:
    assert isinstance(e.__cause__, ValueError)
else:
    raise AssertionError(f"unpack accepted three items as two: {r}")
''', "unpacking a generator that yields more items than requested",
    "surplus items of an iterator are dropped silently")

bug("C06-deep-cause", "C06",
    [("_run.py", "        raise CallError(e.node) from e.__cause__",
      "        cause = e.__cause__\n        while isinstance(cause.__cause__, type(cause)):\n            cause = cause.__cause__\n        raise CallError(e.node) from cause")],
    '''
import uberjob
p = uberjob.Plan()
outer = ValueError("outer")
def f():
    try:
        raise ValueError("inner")
    except ValueError as e:
        raise outer from e
try:
    uberjob.run(p, output=p.call(f), progress=None)
except uberjob.CallError as e:
    assert e.__cause__ is outer, repr(e.__cause__)
else:
    raise AssertionError
''', "a call that re-raises an exception of the same class as the one it chains",
    "the cause of the CallError is not the exception the call raised")

bug("C06-ordering-successor", "C06",
    [(RFG, '''                    with remaining_pred_count_lock:
                        remaining_pred_count_mapping[successor] -= 1
                        if remaining_pred_count_mapping[successor] == 0:
                            queue.put(successor)
''', '''                    with remaining_pred_count_lock:
                        remaining_pred_count_mapping[successor] -= 1
                        if remaining_pred_count_mapping[successor] == 0:
                            queue.put(successor)
            return
        if not stop:
            # Only nodes that consume the result are lost with it.
            for _, successor, edge in list(graph.out_edges(node, keys=True)):
                if successor in single_parent_nodes or type(edge).__name__ != "Dependency":
                    continue
                with remaining_pred_count_lock:
                    remaining_pred_count_mapping[successor] -= 1
                    if remaining_pred_count_mapping[successor] == 0:
                        queue.put(successor)
''')],
    '''
import uberjob
p = uberjob.Plan()
ran = []
def bad():
    raise ValueError
a = p.call(bad)
b = p.call(lambda: 1)
c = p.call(lambda: ran.append(1))
p.add_dependency(a, c)
p.add_dependency(b, c)
try:
    uberjob.run(p, output=c, max_errors=None, progress=None)
except uberjob.CallError:
    pass
assert not ran, "a call ran although a call it depends on had failed"
''', "max_errors above zero and a call ordered after the failing call and another one",
    "a failed call releases the calls that are merely ordered after it")

bug("C07-partial-cycle", "C07",
    [("_util/networkx_util.py", "    if any(pred_count_mapping.values()):", "    if pred_count_mapping and all(pred_count_mapping.values()):")],
    '''
import uberjob
p = uberjob.Plan()
ran = []
a = p.call(lambda: ran.append("a"))
b = p.call(lambda x: ran.append("b"), a)
c = p.call(lambda x: ran.append("c"), b)
d = p.call(lambda x: ran.append("d"), c)
p.add_dependency(d, c)
try:
    uberjob.run(p, output=d, progress=None)
except Exception:
    assert not ran, f"calls ran before the cycle was reported: {ran}"
else:
    raise AssertionError(f"no error; only these calls ran: {ran}")
''', "a cycle below calls that are not part of it",
    "a plan whose lower part is a cycle runs partially and returns None")

bug("C10-max-errors-race", "C10",
    [(RFG, '''                if max_errors is not None and error_count > max_errors:
                    stop = True
''', '''            if max_errors is not None and error_count == max_errors + 1:
                stop = True
''')],
    '''
import sys, threading, time, uberjob
sys.setswitchinterval(1e-6)
def trace(frame, event, arg):
    if "run_function_on_graph" not in frame.f_code.co_filename:
        return None
    def local(frame, event, arg):
        if event == "line" and frame.f_code.co_name == "process_node":
            time.sleep(0.002)
        return local
    return local
threading.settrace(trace)
for attempt in range(20):
    p = uberjob.Plan()
    failures = []
    barrier = threading.Barrier(4)
    n = iter(range(10 ** 9))
    def bad():
        if next(n) < 4:
            barrier.wait()
        failures.append(1)
        raise ValueError
    out = [p.call(bad) for _ in range(40)]
    try:
        uberjob.run(p, output=out, max_workers=4, max_errors=1, progress=None, scheduler="random")
    except uberjob.CallError:
        pass
    assert len(failures) <= 5, f"{len(failures)} calls failed with max_errors=1 and 4 workers"
''', "two calls fail at the same moment, around the error limit, before either compares the count",
    "the error count is compared for equality outside the lock, so the limit can be stepped over")

bug("C11-replace-before-close", "C11",
    [(FS, '''    with staged_write_path(path) as staging_path:
        with open(staging_path, mode, **kwargs) as outputfile:
            yield outputfile
''', '''    with open(f"{path}.STAGING", mode, **kwargs) as outputfile:
        with staged_write_path(path):
            yield outputfile
''')],
    '''
import os, signal, subprocess, sys, tempfile
d = tempfile.mkdtemp()
path = os.path.join(d, "f")
child = """
import os, sys
from uberjob.stores import JsonFileStore
import uberjob.stores._file_store as fs
store = JsonFileStore(sys.argv[1])
store.write("old")
real = os.replace
def replace(a, b):
    real(a, b)
    os.kill(os.getpid(), 9)  # the process dies right after the rename
os.replace = os.rename = replace
store.write("new")
"""
try:
    subprocess.run([sys.executable, "-c", child, path])
    from uberjob.stores import JsonFileStore
    try:
        got = JsonFileStore(path).read()
    except ValueError as e:
        got = repr(e)
    assert got in ("old", "new"), f"the file holds neither value: {got}"
finally:
    for n in os.listdir(d):
        os.remove(os.path.join(d, n))
    os.rmdir(d)
''', "the process dies, or closing the file fails, after the rename and before the buffered data is written out",
    "the staging file is renamed before it is flushed and closed")

bug("C11-new-file-direct", "C11",
    [("stores/_binary_file_store.py", '        with staged_write(self.path, "wb") as outputfile:\n',
      '        import os\n\n        opener = staged_write if os.path.exists(self.path) else open\n        with opener(self.path, "wb") as outputfile:\n')],
    '''
import os, tempfile
from uberjob.stores import BinaryFileStore
d = tempfile.mkdtemp()
path = os.path.join(d, "f")
try:
    store = BinaryFileStore(path)
    try:
        store.write("not bytes")
    except TypeError:
        pass
    assert store.get_modified_time() is None, "a failed first write left a file"
finally:
    for n in os.listdir(d):
        os.remove(os.path.join(d, n))
    os.rmdir(d)
''', "the first write of a value fails or the process dies part-way",
    "a file that does not exist yet is written in place")

bug("C12-surrogates", "C12",
    [("stores/_json_file_store.py", "json.dump(value, outputfile, indent=4)", "json.dump(value, outputfile, indent=4, sort_keys=True)")],
    '''
import os, tempfile
from uberjob.stores import JsonFileStore
d = tempfile.mkdtemp()
path = os.path.join(d, "f")
try:
    store = JsonFileStore(path)
    store.write({"b": 1, "a": 2})
    assert list(store.read()) == ["b", "a"], "the order of the keys was lost"
    try:
        store.write({1: "x", "a": 2})
    except TypeError:
        raise AssertionError("a mapping that json accepts is rejected")
finally:
    for n in os.listdir(d):
        os.remove(os.path.join(d, n))
    os.rmdir(d)
''', "a JSON object whose keys are not sorted", "the keys of JSON objects are reordered")

bug("C12-not-a-directory", "C12",
    [(FS, '''        t = os.path.getmtime(path)
    except OSError:
        return None
''', '''        t = os.path.getmtime(path)
    except FileNotFoundError:
        return None
''')],
    '''
import os, tempfile
from uberjob.stores import TextFileStore
d = tempfile.mkdtemp()
f = os.path.join(d, "f")
open(f, "w").close()
try:
    assert TextFileStore(os.path.join(f, "g")).get_modified_time() is None
finally:
    os.remove(f)
    os.rmdir(d)
''', "a path below something that is a file (or otherwise inaccessible)",
    "get_modified_time raises instead of returning None when nothing can be stored there")

bug("C13-output-on-original", "C13",
    [("_run.py", '''    plan = get_mutable_plan(plan, inplace=False)

    output_node = (
        plan._gather(get_stack_frame(), output) if output is not None else None
    )
''', '''    output_node = (
        plan._gather(get_stack_frame(), output) if output is not None else None
    )

    plan = get_mutable_plan(plan, inplace=False)
''')],
    '''
import uberjob
p = uberjob.Plan()
a = p.call(lambda: 1)
before = set(p.graph.nodes())
assert uberjob.run(p, output=[a], progress=None) == [1]
assert set(p.graph.nodes()) == before, "run added nodes to the plan"
''', "an output specification that is a structure rather than a node",
    "the gather nodes of the output are added to the caller's plan")

bug("C13-scope-kept", "C13",
    [("_plan.py", "        new_plan = Plan()\n        new_plan.graph = self.graph.copy()\n",
      "        new_plan = Plan()\n        new_plan._scope_lock = self._scope_lock\n        new_plan.graph = self.graph.copy()\n")],
    '''
import threading, uberjob
p = uberjob.Plan()
entered, leave = threading.Event(), threading.Event()
def hold():
    with p.scope("building"):
        entered.set()
        leave.wait()
t = threading.Thread(target=hold)
t.start()
entered.wait()
q = p.copy()
done = threading.Event()
def use():
    with q.scope("x"):
        done.set()
u = threading.Thread(target=use)
u.start()
ok = done.wait(5)
leave.set()
t.join()
u.join()
assert ok, "the copy was blocked by a scope of the original"
''', "a scope entered on a copy while another thread is inside a scope of the original",
    "the copy shares the lock of its original")

bug("C15-totals-late", "C15",
    [("_run.py", '''            _update_run_totals(plan, progress_observer)

            if dry_run:
                return plan, redirected_output_node
''', '''            if dry_run:
                return plan, redirected_output_node

            if len(plan.graph):
                _update_run_totals(plan, progress_observer)
            else:
                progress_observer.increment_total(
                    section="run", scope=(), amount=len(plan.graph)
                )
''')],
    '''
import uberjob
from uberjob.progress import Progress, ProgressObserver
class O(ProgressObserver):
    totals = []
    def __enter__(self): pass
    def __exit__(self, *a): pass
    def increment_total(self, *, section, scope, amount): self.totals.append((section, scope, amount))
    def increment_running(self, **k): pass
    def increment_completed(self, **k): pass
    def increment_failed(self, **k): pass
p = uberjob.Plan()
p.call(lambda: 1)
uberjob.run(p, progress=Progress(O))
assert O.totals == [], O.totals
''', "a run that has nothing to execute", "a total for a scope that no call has is announced")

bug("C15-retry-notifications", "C15",
    [(PHYS, '''                bound_call.value.run(node.fn, retry)
            except Exception as exception:
                drop_internal_frames(exception, 2)
''', '''                bound_call.value.run(node.fn, retry)
            except (KeyError, IndexError) as exception:
                raise NodeError(node) from exception
            except Exception as exception:
                drop_internal_frames(exception, 2)
''')],
    '''
import uberjob
from uberjob.progress import Progress, ProgressObserver
log = []
class O(ProgressObserver):
    def __enter__(self): pass
    def __exit__(self, *a): pass
    def increment_total(self, *, section, scope, amount): pass
    def increment_running(self, **k): log.append("running")
    def increment_completed(self, **k): log.append("completed")
    def increment_failed(self, **k): log.append("failed")
p = uberjob.Plan()
def f():
    return {}["x"]
try:
    uberjob.run(p, output=p.call(f), progress=Progress(O))
except uberjob.CallError:
    pass
assert log == ["running", "failed"], log
''', "a call that raises KeyError or IndexError", "the failure is never reported to the observer")

bug("C16-worker-result", "C16",
    [(PHYS, "        self.result.value = retry(fn)(*args, **kwargs)\n", "        self.result.value = retry(_named(fn))(*args, **kwargs)\n"),
     (PHYS, '''class BoundCall:
    """A bound symbolic function call."""
''', '''_LAST_CALL = threading.local()


def _named(fn):
    def call(*args, **kwargs):
        _LAST_CALL.value = fn, args
        return fn(*args, **kwargs)

    return call


class BoundCall:
    """A bound symbolic function call."""
'''),
     (PHYS, "from collections.abc import Callable\nfrom typing", "import threading\nfrom collections.abc import Callable\nfrom typing")],
    '''
import gc, time, weakref, uberjob
class V: pass
def attempt():
    p = uberjob.Plan()
    refs, alive = [], []
    def make():
        v = V()
        refs.append(weakref.ref(v))
        return v
    def use(v):
        del v
        time.sleep(0.02)
    a = p.call(make)
    b = p.call(use, a)
    def look():
        gc.collect()
        alive.append(refs[0]() is not None)
        time.sleep(0.02)
    for _ in range(12):
        p.add_dependency(b, p.call(look))
    looks = [n for n in p.graph.nodes() if getattr(n, "fn", None) is look]
    uberjob.run(p, output=looks, max_workers=8, progress=None, scheduler="random")
    return any(alive)
assert sum(attempt() for _ in range(10)) == 0, "the value was alive after its last consumer had finished"
''', "more than one worker, one of which finished the consumer and then waits or takes nothing for a while",
    "the arguments of the last call of each worker thread stay referenced from the thread")

bug("C17-put-after-stop", "C17",
    [(RFG, "        if stop:\n            return\n", "        if stop and max_errors is not None:\n            return\n")],
    '''
import _thread, threading, time, uberjob
def attempt():
    p = uberjob.Plan()
    late, sent = [], threading.Event()
    def first():
        _thread.interrupt_main()
        time.sleep(0.2)
        sent.set()
    def rest():
        if sent.is_set():
            late.append(1)
        time.sleep(0.01)
    a = p.call(first)
    out = [a]
    for _ in range(30):
        b = p.call(rest)
        p.add_dependency(a, b)
        out.append(b)
    try:
        uberjob.run(p, output=out, max_workers=2, max_errors=None, progress=None, scheduler="random")
    except KeyboardInterrupt:
        return len(late)
    raise AssertionError("KeyboardInterrupt did not propagate")
late = [attempt() for _ in range(8)]
assert sum(late) == 0, f"calls started after Ctrl-C: {late}"
''', "Ctrl-C during a run with max_errors=None and the random scheduler",
    "with max_errors=None the interruption does not stop calls that are still queued")

bug("C19-output-gather", "C19",
    [("_run.py", "plan._gather(get_stack_frame(), output)", "plan.gather(output)"),
     ("_run.py", "from uberjob._util.traceback import get_stack_frame\n", "")],
    '''
import uberjob
p = uberjob.Plan()
a = p.call(lambda: [1])
try:
    uberjob.run(p, output={a, 2}, progress=None)
except uberjob.CallError as e:
    assert e.call.stack_frame.path == __file__, e.call.stack_frame.path
else:
    raise AssertionError
''', "the gather of the output specification fails (an unhashable element of a set)",
    "the failure is attributed to a line inside uberjob")

bug("C19-readback-frame", "C19",
    [(CACHING, '''        call = plan._call(registry_value.stack_frame, *args)
''', '''        call = plan._call(
            node.stack_frame if len(args) == 2 else registry_value.stack_frame, *args
        )
''')],
    '''
import datetime as dt, uberjob
class S(uberjob.ValueStore):
    def read(self): raise OSError
    def write(self, value): self.t = dt.datetime.now()
    def get_modified_time(self): return getattr(self, "t", None)
p = uberjob.Plan()
r = uberjob.Registry()
import inspect
a = p.call(lambda: 1)
r.add(a, S()); line = inspect.currentframe().f_lineno
try:
    uberjob.run(p, output=a, registry=r, progress=None)
except uberjob.CallError as e:
    assert e.call.stack_frame.line == line, (e.call.stack_frame.line, line)
else:
    raise AssertionError
''', "a store whose read fails, added on another line than the call",
    "a failed read-back is attributed to the call rather than to registry.add")

bug("C20-render-unlocked", "C20",
    [(SIMPLE, '''            with self._lock:
                output_value = self._do_render()
''', '''            with self._lock:
                self._state.update_weighted_elapsed()
            output_value = self._do_render()
''')],
    '''
import threading, time, io, contextlib, uberjob
from uberjob.progress import ConsoleProgressObserver
class Slow:
    def __init__(self, n): self.n = n
    def __str__(self):
        time.sleep(0.05)
        return f"scope{self.n}"
crashes = []
threading.excepthook = lambda a: crashes.append(repr(a.exc_value))
o = ConsoleProgressObserver(initial_update_delay=0.01, min_update_interval=0.01, max_update_interval=0.05)
buffer = io.StringIO()
with contextlib.redirect_stdout(buffer), o:
    for n in range(40):
        scope = (Slow(n),)
        o.increment_total(section="run", scope=scope, amount=1)
        o.increment_running(section="run", scope=scope)
        time.sleep(0.005)
        o.increment_completed(section="run", scope=scope)
assert not crashes, crashes
last = buffer.getvalue().split("uberjob, elapsed")[-1]
assert last.count("1 / 1") == 40, last
''', "a notification arrives while the display is being rendered",
    "the state is rendered outside the lock: the update thread dies or the last change is missed")

bug("C20-idle-elapsed", "C20",
    [(SIMPLE, "                scope_state.weighted_elapsed += scope_state.running * multiplier\n        self._prev_time = t\n",
      "                scope_state.weighted_elapsed += scope_state.running * multiplier\n            self._prev_time = t\n")],
    '''
import io, contextlib, re, time
from uberjob.progress import ConsoleProgressObserver
o = ConsoleProgressObserver(initial_update_delay=10, min_update_interval=10, max_update_interval=10)
buffer = io.StringIO()
with contextlib.redirect_stdout(buffer), o:
    o.increment_total(section="run", scope=("a",), amount=2)
    for _ in range(2):
        time.sleep(1.3)
        o.increment_running(section="run", scope=("a",))
        o.increment_completed(section="run", scope=("a",))
assert "2 / 2 | 0s | a" in buffer.getvalue(), buffer.getvalue()
''', "time passes while no call is running, then a call runs",
    "idle time is attributed to the scope that runs next")

bug("C18-fold", "C18",
    [(CACHING, "        modified_time = _to_naive_utc_time(retry(value_store.get_modified_time)())\n",
      "        modified_time = retry(value_store.get_modified_time)()\n        if modified_time is not None and modified_time.tzinfo is None:\n            modified_time = modified_time.replace(fold=0)\n        modified_time = _to_naive_utc_time(modified_time)\n")],
    '''
import datetime as dt, os, time
os.environ["TZ"] = "America/New_York"
time.tzset()
import uberjob
class S(uberjob.ValueStore):
    def __init__(self, t, value): self.t, self.value, self.writes = t, value, 0
    def read(self): return self.value
    def write(self, value): self.value, self.writes, self.t = value, self.writes + 1, dt.datetime.now()
    def get_modified_time(self): return self.t
# 01:30 EDT (first), then 01:10 EST (second, forty minutes later)
source = S(dt.datetime(2023, 11, 5, 1, 30), 1)
stored = S(dt.datetime(2023, 11, 5, 1, 10, fold=1), 2)
p, r = uberjob.Plan(), uberjob.Registry()
a = r.source(p, source)
b = p.call(lambda x: x + 1, a)
r.add(b, stored)
uberjob.run(p, registry=r, progress=None)
assert stored.writes == 0, "an up-to-date value was rebuilt"
''', "a modified time in the hour that is repeated when daylight saving ends",
    "the second occurrence of a repeated hour is taken for the first")

bug("C03-registry-order", "C03",
    [(CACHING, '''                for predecessor in plan.graph.predecessors(node):
                    plan.graph.add_edge(predecessor, write_node, Dependency())
''', '''                for predecessor in list(plan.graph.predecessors(node)):
                    plan.graph.remove_edge(predecessor, node)
                    plan.graph.add_edge(predecessor, write_node, Dependency())
''')],
    '''
import uberjob
''', "placeholder", "placeholder")

bug("C08-write-ordering", "C08",
    [(CACHING, '''        elif is_stale:
            assert dependency_type is Dependency
            plan.graph.add_edge(write_node, successor, dependency)
''', '''        elif is_stale:
            assert dependency_type is Dependency
            plan.graph.add_edge(
                write_node if registry_value.is_source else node, successor, dependency
            )
''')],
    STORES + '''
class Side(Mem):
    """Writes into the environment that the ordered source reads."""
env = {"x": "old"}
class Env(uberjob.ValueStore):
    time = now()
    def read(self):
        return env["x"]
    def write(self, value):
        raise NotImplementedError
    def get_modified_time(self):
        return Env.time
class Publish(Mem):
    def write(self, value):
        time.sleep(0.2)
        env["x"] = value
        Env.time = now()
        super().write(value)
p, r = uberjob.Plan(), uberjob.Registry()
a = p.call(lambda: "new")
r.add(a, Publish("a"))
s = r.source(p, Env())
p.add_dependency(a, s)
b = p.call(lambda x: x, s)
r.add(b, Mem("b"))
uberjob.run(p, registry=r, progress=None, max_workers=4)
assert r[b].value == "new", "the source was read before the write it depends on"
''', "a stored call with a dependent that is only ordered after it",
    "ordering-only dependents of a rebuilt value wait for the call and not for the write")
