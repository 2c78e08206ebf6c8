CACHING = "_transformations/caching.py"
PRUNING = "_transformations/pruning.py"
RFG = "_execution/run_function_on_graph.py"
PHYS = "_execution/run_physical.py"
SIMPLE = "progress/_simple_progress_observer.py"
FS = "stores/_file_store.py"

bug("C06-ordering-successor", "C06",
    [(RFG, '''                if max_errors is not None and error_count > max_errors:
                    stop = True
        else:
            for successor in graph.successors(node):
                if successor in single_parent_nodes:
''', '''                if max_errors is not None and error_count > max_errors:
                    stop = True
            failed = True
        else:
            failed = False
        if not stop:
            for successor in list(graph.successors(node)):
                if failed and any(
                    getattr(edge, "index", None) is not None
                    for edge in graph[node][successor]
                ):
                    # The successor lacks an argument.
                    continue
                if failed and successor in single_parent_nodes:
                    continue
                if successor in single_parent_nodes and not failed:
''')],
    '''
import uberjob
p = uberjob.Plan()
ran = []
def bad():
    raise ValueError
a = p.call(bad)
b = p.call(lambda: 1)
c = p.call(lambda: ran.append(1))
p.add_dependency(a, c)
p.add_dependency(b, c)
try:
    uberjob.run(p, output=c, max_errors=None, progress=None)
except uberjob.CallError:
    pass
assert not ran, "a call ran although a call it depends on had failed"
''', "max_errors above zero and a call ordered after the failing call and another one",
    "a failed call releases the calls that are merely ordered after it")

bug("C11-new-file-direct", "C11",
    [("stores/_binary_file_store.py", '        with staged_write(self.path, mode="wb") as outputfile:\n',
      '        import os\n\n        opener = staged_write if os.path.exists(self.path) else open\n        with opener(self.path, mode="wb") as outputfile:\n')],
    '''
import os, tempfile
from uberjob.stores import BinaryFileStore
d = tempfile.mkdtemp()
path = os.path.join(d, "f")
try:
    store = BinaryFileStore(path)
    try:
        store.write("not bytes")
    except TypeError:
        pass
    assert store.get_modified_time() is None, "a failed first write left a file"
finally:
    for n in os.listdir(d):
        os.remove(os.path.join(d, n))
    os.rmdir(d)
''', "the first write of a value fails or the process dies part-way",
    "a file that does not exist yet is written in place")

bug("C13-shared-graph-edges", "C13",
    [("_plan.py", "        new_plan = Plan()\n        new_plan.graph = self.graph.copy()\n        return new_plan\n\n    __copy__ = copy",
      "        new_plan = Plan.__new__(Plan)\n        new_plan.__dict__.update(self.__dict__, graph=self.graph.copy(), _scope=())\n        return new_plan\n\n    __copy__ = copy")],
    '''
import threading, uberjob
p = uberjob.Plan()
a = p.call(lambda: 1)
entered, leave = threading.Event(), threading.Event()
def hold():
    with p.scope("building"):
        entered.set()
        leave.wait()
t = threading.Thread(target=hold)
t.start()
entered.wait()
q = p.copy()
done = threading.Event()
def use():
    with q.scope("x"):
        done.set()
u = threading.Thread(target=use)
u.start()
ok = done.wait(5)
leave.set()
t.join()
u.join()
assert ok, "the copy was blocked by a scope of the original"
''', "a scope entered on a copy while another thread is inside a scope of the original",
    "the copy shares the lock of its original")

bug("C15-lookup-failures", "C15",
    [(PHYS, '''            except Exception as exception:
                drop_internal_frames(exception, 2)
                progress_observer.increment_failed(
                    section="run",
                    scope=scope,
                    exception=create_chained_call_error(node, exception),
                )
''', '''            except Exception as exception:
                drop_internal_frames(exception, 2)
                if not isinstance(exception.__cause__, CallError):
                    progress_observer.increment_failed(
                        section="run",
                        scope=scope,
                        exception=create_chained_call_error(node, exception),
                    )
'''), (PHYS, "from uberjob._errors import NodeError,", "from uberjob._errors import CallError, NodeError,")],
    '''
import uberjob
from uberjob.progress import Progress, ProgressObserver
log = []
class O(ProgressObserver):
    def __enter__(self): pass
    def __exit__(self, *a): pass
    def increment_total(self, *, section, scope, amount): pass
    def increment_running(self, **k): log.append("running")
    def increment_completed(self, **k): log.append("completed")
    def increment_failed(self, **k): log.append("failed")
p = uberjob.Plan()
def inner():
    raise ValueError
def f():
    q = uberjob.Plan()
    try:
        uberjob.run(q, output=q.call(inner), progress=None)
    except uberjob.CallError as e:
        raise RuntimeError("the inner run failed") from e
try:
    uberjob.run(p, output=p.call(f), progress=Progress(O))
except uberjob.CallError:
    pass
assert log == ["running", "failed"], log
''', "a call that runs another plan and raises from its CallError", "the failure is never reported to the observer")

bug("C16-worker-result", "C16",
    [(PHYS, '''        args = [arg.value for arg in self.args]
        kwargs = {name: arg.value for name, arg in self.kwargs.items()}
        self.result.value = retry(fn)(*args, **kwargs)
''', '''        args = [arg.value for arg in self.args]
        kwargs = {name: arg.value for name, arg in self.kwargs.items()}
        _CURRENT.call = self
        _CURRENT.call.result.value = retry(fn)(*args, **kwargs)
'''),
     (PHYS, '''class BoundCall:
    """A bound symbolic function call."""
''', '''_CURRENT = threading.local()


class BoundCall:
    """A bound symbolic function call."""
'''),
     (PHYS, "from collections.abc import Callable\nfrom typing", "import threading\nfrom collections.abc import Callable\nfrom typing")],
    '''
import gc, threading, time, weakref, uberjob
class V: pass
p = uberjob.Plan()
refs, alive = [], []
used = threading.Event()
def make():
    v = V()
    refs.append(weakref.ref(v))
    return v
def use(v):
    used.set()
def look():
    used.wait()
    time.sleep(0.3)
    gc.collect()
    alive.append(refs[0]() is not None)
b = p.call(use, p.call(make))
c = p.call(look)
uberjob.run(p, output=[b, c], max_workers=2, progress=None)
assert alive == [False], "the value was alive after its last consumer had finished"
''', "more than one worker, one of which finished the consumer and then waits for work",
    "each worker thread keeps the last call it ran, with its arguments")

bug("C19-output-gather", "C19",
    [("_plan.py", '''        return self._gather(get_stack_frame(), value)

    def unpack''', '''        def gather_item(item):
            return self._gather(get_stack_frame(), item)

        return gather_item(
            {gather_item(item) for item in value} if type(value) is set else value
        )

    def unpack''')],
    '''
import inspect, uberjob
p = uberjob.Plan()
a = p.call(lambda: [1])
s = p.gather({(a, 2), 3}); line = inspect.currentframe().f_lineno
try:
    uberjob.run(p, output=[s], progress=None)
except uberjob.CallError as e:
    assert e.call.stack_frame.path == __file__ and e.call.stack_frame.line == line, e.call.stack_frame
else:
    raise AssertionError
p = uberjob.Plan()
def bad():
    raise ValueError
t = p.gather({(p.call(bad), 2), 3}); line = inspect.currentframe().f_lineno
call = next(n for n in p.graph.nodes() if n is not t and getattr(n, "fn", None) and n.fn.__name__ == "gather_tuple")
assert call.stack_frame.path == __file__ and call.stack_frame.line == line, call.stack_frame
''', "gather of a set that contains a structure with a node which fails to be built",
    "the inner gather is attributed to a line inside uberjob")

bug("C20-render-unlocked", "C20",
    [(SIMPLE, '''            with self._lock:
                output_value = self._do_render()
''', '''            with self._lock:
                self._state.update_weighted_elapsed()
            output_value = self._do_render()
''')],
    '''
import threading, time, io, contextlib
from uberjob.progress import ConsoleProgressObserver
def trace(frame, event, arg):
    if "_simple_progress_observer" not in frame.f_code.co_filename:
        return None
    def local(frame, event, arg):
        if event == "line" and "elapsed" in frame.f_code.co_name:
            time.sleep(0.003)
        return local
    return local
crashes = []
threading.excepthook = lambda a: crashes.append(repr(a.exc_value))
o = ConsoleProgressObserver(initial_update_delay=0.01, min_update_interval=0.01, max_update_interval=0.01)
buffer = io.StringIO()
threading.settrace(trace)
with contextlib.redirect_stdout(buffer), o:
    for n in range(15):
        o.increment_total(section="run", scope=(n,), amount=1)
        o.increment_running(section="run", scope=(n,))
        time.sleep(0.005)
    for n in range(15):
        o.increment_completed(section="run", scope=(n,))
        time.sleep(0.005)
assert not crashes, crashes
''', "a notification arrives while the display is being rendered",
    "the state is rendered outside the lock: the update thread dies or the last change is missed")

bug("C18-fixed-offset", "C18",
    [(CACHING, "def _to_naive_utc_time(value: dt.datetime | None) -> dt.datetime | None:\n    if value is None:\n        return None\n",
      "_LOCAL = dt.datetime.now().astimezone().tzinfo\n\n\ndef _to_naive_utc_time(value: dt.datetime | None = None) -> dt.datetime | None:\n    if value is None:\n        return None\n    if value.tzinfo is None:\n        value = value.replace(tzinfo=_LOCAL)\n")],
    '''
import datetime as dt, os, time
os.environ["TZ"] = "America/New_York"
time.tzset()
import uberjob
from uberjob._transformations import caching
class S(uberjob.ValueStore):
    def __init__(self, t, value): self.t, self.value, self.writes = t, value, 0
    def read(self): return self.value
    def write(self, value): self.value, self.writes, self.t = value, self.writes + 1, dt.datetime.now()
    def get_modified_time(self): return self.t
n = 0
for month, hour in ((1, 5), (7, 4)):
    for a_t, b_t, want in (
        (dt.datetime(2023, month, 5, 12, 0), dt.datetime(2023, month, 5, 12 + hour, 10, tzinfo=dt.timezone.utc), 0),
        (dt.datetime(2023, month, 5, 12, 10), dt.datetime(2023, month, 5, 12 + hour, 0, tzinfo=dt.timezone.utc), 1),
        (dt.datetime(2023, month, 5, 12 + hour, 0, tzinfo=dt.timezone.utc), dt.datetime(2023, month, 5, 12, 10), 0),
        (dt.datetime(2023, month, 5, 12 + hour, 10, tzinfo=dt.timezone.utc), dt.datetime(2023, month, 5, 12, 0), 1),
    ):
        source, stored = S(a_t, 1), S(b_t, 2)
        p, r = uberjob.Plan(), uberjob.Registry()
        a = r.source(p, source)
        b = p.call(lambda x: x + 1, a)
        r.add(b, stored)
        uberjob.run(p, registry=r, progress=None)
        assert stored.writes == want, (a_t, b_t, stored.writes, want)
''', "naive times in the half of the year whose daylight saving differs from the one the process started in, compared with aware ones",
    "naive times are read with the offset in force when uberjob was imported")

bug("C05-source-fresh-time", "C05",
    [(CACHING, '''        if (
            max_ancestor_modified_time or not registry.mapping[node].is_source
        ) and safe_max(''', '''        if (
            list(plan.graph.predecessors(node)) or not registry.mapping[node].is_source
        ) and safe_max(''')],
    '''
import datetime as dt, uberjob
class S(uberjob.ValueStore):
    def __init__(self, t): self.t, self.reads = t, 0
    def read(self):
        self.reads += 1
        return 1
    def write(self, value): self.t = dt.datetime.now()
    def get_modified_time(self): return self.t
ran = []
p, r = uberjob.Plan(), uberjob.Registry()
first = p.call(lambda: ran.append(1))
source = S(dt.datetime(2020, 1, 1))
a = r.source(p, source)
p.add_dependency(first, a)
b = p.call(lambda x: x, a)
store = S(dt.datetime(2022, 1, 1))
r.add(b, store)
uberjob.run(p, registry=r, progress=None, fresh_time=dt.datetime(2021, 1, 1))
assert not ran and not source.reads, "an up-to-date value was rebuilt"
''', "fresh_time and a source that depends on a call with no stored value or source upstream",
    "a dependent source without stored ancestors becomes subject to fresh_time")

bug("C08-kept-staging", "C11",
    [(FS, '''    except BaseException:
        _try_remove(staging_path)
        raise
''', '''    except Exception:
        _try_remove(staging_path)
        raise
''')],
    '''
import os, tempfile
from uberjob.stores import PickleFileStore
class Interrupted:
    def __reduce__(self):
        raise KeyboardInterrupt
d = tempfile.mkdtemp()
path = os.path.join(d, "f")
try:
    try:
        PickleFileStore(path).write([1, Interrupted()])
    except KeyboardInterrupt:
        pass
    assert os.listdir(d) == [], os.listdir(d)
finally:
    for n in os.listdir(d):
        os.remove(os.path.join(d, n))
    os.rmdir(d)
''', "KeyboardInterrupt (or SystemExit) while a value is being serialised", "the staging file is left behind")

bug("C14-dry-prune", "C14",
    [(CACHING, '''    prune_plan(
        plan, required_nodes=required_nodes, output_node=output_node, inplace=True
    )
    return plan, output_node
''', '''    prune_plan(
        plan,
        required_nodes=required_nodes - {output_node},
        output_node=output_node,
        inplace=True,
    )
    if not required_nodes and type(output_node) is Literal:
        plan.graph.clear()
        plan.graph.add_node(output_node)
    return plan, output_node
'''), (CACHING, "KeywordArg, Node, PositionalArg", "KeywordArg, Literal, Node, PositionalArg")],
    '''
print("placeholder")
''', "placeholder", "placeholder")
