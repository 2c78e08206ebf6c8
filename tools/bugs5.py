CACHING = "_transformations/caching.py"
PRUNING = "_transformations/pruning.py"
RFG = "_execution/run_function_on_graph.py"
PHYS = "_execution/run_physical.py"
SIMPLE = "progress/_simple_progress_observer.py"
FS = "stores/_file_store.py"
NX = "_util/networkx_util.py"
TB = "_util/traceback.py"
PLAN = "_plan.py"

STORE = '''
import datetime as dt
import uberjob
class Store(uberjob.ValueStore):
    tick = 0
    def __init__(self, value=None):
        self.value, self.time, self.writes = value, None, 0
        if value is not None:
            self.stamp()
    def stamp(self):
        Store.tick += 1
        self.time = dt.datetime(2020, 1, 1) + dt.timedelta(milliseconds=Store.tick)
    def read(self):
        return self.value
    def write(self, value):
        self.value = value
        self.writes += 1
        self.stamp()
    def get_modified_time(self):
        return self.time
'''

bug("C03-literal-hub", "C03",
    [(CACHING, """            stale_lookup[predecessor].value
            for predecessor in plan.graph.predecessors(node)
""", """            stale_lookup[predecessor].value
            for predecessor in relevant_predecessors(node)
"""), (CACHING, """            modified_time_lookup[predecessor].value
            for predecessor in plan.graph.predecessors(node)
""", """            modified_time_lookup[predecessor].value
            for predecessor in relevant_predecessors(node)
"""), (CACHING, "    def process_no_stale_ancestor(node):\n", """    def relevant_predecessors(node):
        return [
            predecessor
            for predecessor in plan.graph.predecessors(node)
            if type(predecessor) is Call or predecessor in registry
        ]

    def process_no_stale_ancestor(node):
""")],
    STORE + '''
shared = [1]
p, r = uberjob.Plan(), uberjob.Registry()
src = Store(1)
s = r.source(p, src)
def install(x):
    shared[0] = x
a = p.call(install, s)
hub = p.lit("installed")
p.add_dependency(a, hub)
b = p.call(lambda: shared[0])
p.add_dependency(hub, b)
out = Store()
r.add(b, out)
uberjob.run(p, registry=r, progress=None)
assert out.value == 1
src.value = 2
src.stamp()
uberjob.run(p, registry=r, progress=None)
assert out.value == 2, out.value
''', "a stored call that is ordered after its source only through a literal",
    "staleness does not pass through literals")

bug("C05-whole-seconds", "C05",
    [(CACHING, "            max_ancestor_modified_time or not registry.mapping[node].is_source\n        ) and safe_max(\n            modified_time, max_ancestor_modified_time, fresh_time\n        ) > modified_time:",
      "            max_ancestor_modified_time or not registry.mapping[node].is_source\n        ) and safe_max(\n            modified_time, max_ancestor_modified_time, fresh_time\n        ) - modified_time >= dt.timedelta(microseconds=1000):")],
    '''
import datetime as dt
import uberjob
class Store(uberjob.ValueStore):
    def __init__(self, value, us):
        self.value, self.us, self.writes = value, us, 0
    def read(self):
        return self.value
    def write(self, value):
        self.value = value
        self.writes += 1
        self.us += 100
    def get_modified_time(self):
        return dt.datetime(2020, 1, 1, microsecond=self.us)
p, r = uberjob.Plan(), uberjob.Registry()
src = Store(5, 20)
s = r.source(p, src)
out = Store(4, 10)
a = p.call(lambda x: x, s)
r.add(a, out)
uberjob.run(p, registry=r, progress=None)
assert out.writes == 1, "a value older than its source was not rebuilt"
''', "a source updated less than a millisecond after the value that depends on it",
    "modified times closer than a millisecond count as equal")

bug("C11-interrupt", "C11",
    [(FS, "        os.replace(staging_path, path)\n    except BaseException:\n", "        os.replace(staging_path, path)\n    except (Exception, GeneratorExit):\n")],
    '''
import os, tempfile
from uberjob.stores import JsonFileStore
class Interrupts(dict):
    def items(self):
        raise KeyboardInterrupt
d = tempfile.mkdtemp()
try:
    try:
        JsonFileStore(os.path.join(d, "f")).write({"a": Interrupts(b=1)})
    except KeyboardInterrupt:
        pass
    left = os.listdir(d)
finally:
    for n in os.listdir(d):
        os.remove(os.path.join(d, n))
    os.rmdir(d)
assert not left, left
''', "a write interrupted by KeyboardInterrupt or another exception that is no Exception",
    "the staging file is left behind")

bug("C13-render-level", "C13",
    [("_rendering.py", "    graph = (plan.graph if isinstance(plan, Plan) else plan).copy()\n    if predicate:\n",
      "    graph = plan.graph if isinstance(plan, Plan) else plan\n    if predicate or level:\n        graph = graph.copy()\n    if predicate:\n")],
    '''
import uberjob
p = uberjob.Plan()
with p.scope("s"):
    a = p.call(lambda: 1)
    b = p.call(lambda x: x, a)
before = list(p.graph.nodes)
try:
    uberjob.render(p, level=0, format="svg")
except Exception as e:
    print(e)
assert list(p.graph.nodes) == before, "render changed the plan"
''', "rendering with level=0 (everything in one group)",
    "the groups are formed in the caller's graph")

bug("C14-fresh-time", "C14",
    [("_run.py", "                    fresh_time=fresh_time,\n", "                    fresh_time=None if dry_run and output is None else fresh_time,\n")],
    STORE + '''
p, r = uberjob.Plan(), uberjob.Registry()
a = p.call(lambda: 1)
st = Store()
r.add(a, st)
uberjob.run(p, registry=r, progress=None)
later = dt.datetime(2021, 1, 1)
plan, node = uberjob.run(p, registry=r, progress=None, fresh_time=later, dry_run=True)
n = st.writes
uberjob.run(plan, output=list(plan.graph.nodes), progress=None)
assert st.writes == n + 1, "the dry run's plan does not refresh the value"
''', "a dry run with fresh_time and no output",
    "the dry run leaves fresh_time out of account")

bug("C16-kwargs", "C16",
    [(PHYS, "            finally:\n                bound_call.value = None\n",
      "            finally:\n                bound_call.value.args = ()\n                if not bound_call.value.kwargs:\n                    bound_call.value = None\n")],
    '''
import gc, weakref
import uberjob
class V:
    pass
p = uberjob.Plan()
ref = []
def make():
    v = V()
    ref.append(weakref.ref(v))
    return v
a = p.call(make)
b = p.call(lambda *, x: 1, x=a)
def last(y):
    gc.collect()
    return ref[0]() is None
c = p.call(last, b)
assert uberjob.run(p, output=c, progress=None, max_workers=1), "a result was kept alive"
''', "a result that is consumed as a keyword argument", "results passed by keyword stay alive until the end of the run")

bug("C19-stale-frame", "C19",
    [(CACHING, '''                raise NodeError(node) from exception
            progress_observer.increment_completed(section="stale", scope=scope)
''', '''                raise NodeError(
                    node
                    if node not in registry or registry.mapping[node].is_source
                    else Call(
                        node.fn,
                        scope=node.scope,
                        stack_frame=registry.mapping[node].stack_frame,
                    )
                ) from exception
            progress_observer.increment_completed(section="stale", scope=scope)
''')],
    STORE + '''
class Broken(Store):
    def get_modified_time(self):
        raise OSError("unreachable")
p, r = uberjob.Plan(), uberjob.Registry()
a = p.call(lambda: 1)
r.add(a, Broken())
try:
    uberjob.run(p, registry=r, progress=None)
except uberjob.CallError as e:
    assert e.call is a and e.call.stack_frame is a.stack_frame, "attributed to another line"
''', "a failing modified-time query of a stored call", "the failure is attributed to the registry.add line")

bug("C20-ipython-str-key", "C20",
    [("progress/_ipython_progress_observer.py", "        key = tuple(key)\n", "        key = tuple(map(str, key))\n")],
    '''
import sys, types
class Q:
    def __repr__(self):
        return "Q"
class W:
    def __init__(self, value=None, **k):
        self.value, self.layout, self.children = value, types.SimpleNamespace(), []
        self.titles = {}
    def set_title(self, i, t):
        self.titles[i] = t
ipy = types.ModuleType("ipywidgets")
for n in ("VBox", "HBox", "Label", "HTML", "IntProgress", "Accordion"):
    setattr(ipy, n, type(n, (W,), {}))
disp = types.ModuleType("IPython.display")
shown = []
disp.display = shown.append
sys.modules.update({"ipywidgets": ipy, "IPython": types.ModuleType("IPython"), "IPython.display": disp})
from uberjob.progress import ipython_progress
o = ipython_progress.observer()
with o:
    for s, n in (((Q(),), 3), ((Q(),), 5)):
        o.increment_total(section="run", scope=s, amount=n)
bars = []
def walk(w):
    if type(w).__name__ == "IntProgress":
        bars.append(w.max)
    for c in w.children:
        walk(c)
walk(shown[0])
assert sorted(bars) == [3, 5], bars
''', "two scopes whose values print alike", "their rows share one widget")

bug("C06-system-exit", "C06",
    [(RFG, "                if not first_node_error:\n", "                if not first_node_error and not isinstance(exception, SystemExit):\n")],
    '''
import sys
import uberjob
p = uberjob.Plan()
a = p.call(sys.exit, 0)
try:
    v = uberjob.run(p, output=p.call(lambda x: x, a), progress=None)
except uberjob.CallError as e:
    assert e.call is a
else:
    raise AssertionError("run returned although a call raised")
''', "a call that raises SystemExit(0)", "run returns as if it had succeeded")

bug("C02-deep-ancestors", "C02",
    [(NX, '''    visited = set()
    frontier = list(sources)
    while frontier:
        node = frontier.pop()
        if node in visited:
            continue
        visited.add(node)
        frontier.extend(graph.predecessors(node))
    return visited
''', '''    visited = set()

    def visit(node):
        visited.add(node)
        for predecessor in graph.predecessors(node):
            if predecessor not in visited:
                visit(predecessor)

    for source in sources:
        if source not in visited:
            visit(source)
    return visited
''')],
    '''
import uberjob
p = uberjob.Plan()
x = p.call(lambda: 0)
for _ in range(3000):
    x = p.call(lambda v: v + 1, x)
assert uberjob.run(p, output=x, progress=None, max_workers=2) == 3000
''', "a chain of more than a thousand calls", "ancestors are found recursively, which fails on deep plans")

bug("C19-frame-cache", "C19",
    [(TB, '''        return StackFrame(
            name=frame.f_code.co_name,
            path=frame.f_code.co_filename,
            line=frame.f_lineno,
            outer=recurse(frame.f_back, depth - 1),
        )
''', '''        key = (frame.f_code, frame.f_lineno, depth)
        if key not in _known:
            _known[key] = StackFrame(
                name=frame.f_code.co_name,
                path=frame.f_code.co_filename,
                line=frame.f_lineno,
                outer=recurse(frame.f_back, depth - 1),
            )
        return _known[key]
'''), (TB, "MAX_TRACEBACK_DEPTH = 3\n", "MAX_TRACEBACK_DEPTH = 3\n_known = {}\n")],
    '''
import uberjob
p = uberjob.Plan()
def helper(x):
    return p.call(int, x)
a = helper("1")
b = helper("x")
assert a.stack_frame.outer.line != b.stack_frame.outer.line, "the enclosing line is another call's"
''', "one helper that creates calls for several lines", "stack frames are shared between calls created at the same line on behalf of different callers")

bug("C15-dedupe", "C15",
    [("progress/_composite_progress_observer.py", "        self._progress_observers = tuple(progress_observers)\n",
      "        self._progress_observers = tuple(\n            {type(o): o for o in progress_observers}.values()\n        )\n")],
    '''
import uberjob
from uberjob.progress import Progress, ProgressObserver
logs = []
class O(ProgressObserver):
    def __init__(self): self.log = []; logs.append(self.log)
    def __enter__(self): pass
    def __exit__(self, *a): pass
    def increment_total(self, **k): self.log.append("total")
    def increment_running(self, **k): self.log.append("running")
    def increment_completed(self, **k): self.log.append("completed")
    def increment_failed(self, **k): self.log.append("failed")
p = uberjob.Plan()
uberjob.run(p, output=p.call(lambda: 1), progress=[Progress(O), Progress(O)])
assert logs[0] == logs[1] == ["total", "running", "completed"], logs
''', "a composite with two members of the same class", "only the last of them is notified")

bug("C09-double-use", "C09",
    [(CACHING, '''        if dependency_type in (PositionalArg, KeywordArg):
            plan.graph.add_edge(read_node, successor, dependency)
''', '''        if dependency_type in (PositionalArg, KeywordArg):
            plan.graph.add_edge(
                # A set is built from the values before they are stored.
                node if is_stale and successor.fn is gather_set else read_node,
                successor,
                dependency,
            )
'''), (CACHING, "from uberjob._errors import NodeError, create", "from uberjob._builtins import gather_set\nfrom uberjob._errors import NodeError, create")],
    STORE + '''
class Norm(Store):
    def read(self):
        return "read:" + self.value
p, r = uberjob.Plan(), uberjob.Registry()
a = p.call(lambda: "x")
r.add(a, Norm())
out = uberjob.run(p, output=p.call(lambda s: s, {a}), registry=r, progress=None)
assert out == {"read:x"}, out
''', "a stored value that goes into a set and is being rebuilt", "the set receives the in-memory result")
