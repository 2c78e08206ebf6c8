From 6bd436467dc1cd22af830da5c5f50f2093e27381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:51 +0000
Subject: [PATCH 01/16] fix: treat naive modified times and fresh_time as local
 time in the stale check

They were compared as if they were UTC, so mixing naive values with aware ones, or
crossing a daylight-saving transition, changed which stored values were rebuilt.
---
 src/uberjob/_transformations/caching.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/uberjob/_transformations/caching.py b/src/uberjob/_transformations/caching.py
index c5b4110..f00bf07 100644
--- a/src/uberjob/_transformations/caching.py
+++ b/src/uberjob/_transformations/caching.py
@@ -39,11 +39,14 @@ Barrier = BarrierType()
 
 
 def _to_naive_utc_time(value: dt.datetime | None) -> dt.datetime | None:
-    return (
-        value.astimezone(dt.timezone.utc).replace(tzinfo=None)
-        if value and value.tzinfo
-        else value
-    )
+    if value is None:
+        return None
+    try:
+        # Like the standard library, astimezone treats naive values as local time.
+        return value.astimezone(dt.timezone.utc).replace(tzinfo=None)
+    except (OverflowError, ValueError):
+        # The instant is too close to datetime.min or datetime.max to be converted.
+        return value.replace(tzinfo=None)
 
 
 def _get_stale_scope(call: Call, registry: Registry) -> tuple:
-- 
2.43.0


From 885f32c455ec2811ba343d71094a65748a2ae0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:51 +0000
Subject: [PATCH 02/16] fix: keep newlines unchanged in TextFileStore

Newline translation made read return '\n' where '\r' or '\r\n' had been written.
---
 src/uberjob/stores/_text_file_store.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/stores/_text_file_store.py b/src/uberjob/stores/_text_file_store.py
index 5ccec2a..45f9616 100644
--- a/src/uberjob/stores/_text_file_store.py
+++ b/src/uberjob/stores/_text_file_store.py
@@ -35,7 +35,7 @@ class TextFileStore(FileStore):
 
     def read(self) -> str:
         """Read the string value from the file."""
-        with open(self.path, encoding=self.encoding) as inputfile:
+        with open(self.path, encoding=self.encoding, newline="") as inputfile:
             return inputfile.read()
 
     def write(self, value: str) -> None:
@@ -44,7 +44,9 @@ class TextFileStore(FileStore):
 
         :param value: The value.
         """
-        with staged_write(self.path, encoding=self.encoding) as outputfile:
+        with staged_write(
+            self.path, encoding=self.encoding, newline=""
+        ) as outputfile:
             outputfile.write(value)
 
     def __repr__(self):
-- 
2.43.0


From d28dea9bb77a04a276339c79f7b6c2bace3d5e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:51 +0000
Subject: [PATCH 03/16] fix: remove the staging file when the final rename
 fails

---
 src/uberjob/stores/_file_store.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uberjob/stores/_file_store.py b/src/uberjob/stores/_file_store.py
index 1d84783..90b000c 100644
--- a/src/uberjob/stores/_file_store.py
+++ b/src/uberjob/stores/_file_store.py
@@ -64,10 +64,10 @@ def staged_write_path(
         staging_path = pathlib.Path(staging_path)
     try:
         yield staging_path
+        os.replace(staging_path, path)
     except BaseException:
         _try_remove(staging_path)
         raise
-    os.replace(staging_path, path)
 
 
 @contextmanager
-- 
2.43.0


From b47d7ea7dc610248d87e7582a3502605eb169f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 04/16] fix: render scopes whose values cannot be ordered

Plan.scope only requires values to be hashable and equatable. Sorting same-typed values
without an ordering raised TypeError in the update thread, so the display stopped updating.
---
 src/uberjob/progress/_simple_progress_observer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/uberjob/progress/_simple_progress_observer.py b/src/uberjob/progress/_simple_progress_observer.py
index 6f1820e..e7e3520 100644
--- a/src/uberjob/progress/_simple_progress_observer.py
+++ b/src/uberjob/progress/_simple_progress_observer.py
@@ -25,7 +25,16 @@ def _universal_sort_key(*args):
 
 
 def sorted_scope_items(scope_dict):
-    return sorted(scope_dict.items(), key=lambda pair: _universal_sort_key(*pair[0]))
+    try:
+        return sorted(
+            scope_dict.items(), key=lambda pair: _universal_sort_key(*pair[0])
+        )
+    except Exception:
+        # Scope values only have to be hashable and equatable, so they may not be orderable.
+        return sorted(
+            scope_dict.items(),
+            key=lambda pair: [(str(type(x)), str(x)) for x in pair[0]],
+        )
 
 
 def get_scope_string(scope, *, add_zero_width_spaces=False):
-- 
2.43.0


From b785edd0e91119650ef7ff9df1ecf606a8f6718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 05/16] fix: render text that cannot be encoded

A lone surrogate (in an exception message, say), or a character outside the console's
encoding, ended the update thread, so the display stopped updating.
---
 src/uberjob/progress/_console_progress_observer.py | 9 ++++++++-
 src/uberjob/progress/_html_progress_observer.py    | 4 +++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/progress/_console_progress_observer.py b/src/uberjob/progress/_console_progress_observer.py
index b9ee3dc..a1968cf 100644
--- a/src/uberjob/progress/_console_progress_observer.py
+++ b/src/uberjob/progress/_console_progress_observer.py
@@ -14,6 +14,7 @@
 # limitations under the License.
 #
 import datetime as dt
+import sys
 import textwrap
 import traceback
 from functools import partial
@@ -109,4 +110,10 @@ class ConsoleProgressObserver(SimpleProgressObserver):
             return buffer.getvalue()
 
     def _output(self, value):
-        print(value, end="", flush=True)
+        try:
+            print(value, end="", flush=True)
+        except UnicodeEncodeError:
+            # The console's encoding cannot represent some of the characters.
+            encoding = sys.stdout.encoding
+            value = value.encode(encoding, "backslashreplace").decode(encoding)
+            print(value, end="", flush=True)
diff --git a/src/uberjob/progress/_html_progress_observer.py b/src/uberjob/progress/_html_progress_observer.py
index 6748bff..fc057cd 100644
--- a/src/uberjob/progress/_html_progress_observer.py
+++ b/src/uberjob/progress/_html_progress_observer.py
@@ -230,7 +230,9 @@ class HtmlProgressObserver(SimpleProgressObserver):
         self._output_fn = output
 
     def _render(self, state, new_exception_index, exception_tuples, elapsed):
-        return _render_html(state, exception_tuples, elapsed).encode()
+        return _render_html(state, exception_tuples, elapsed).encode(
+            errors="backslashreplace"
+        )
 
     def _output(self, value):
         self._output_fn(value)
-- 
2.43.0


From 75132651796985bebd836b56a35eac40f13dea3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 06/16] fix: stop the started workers when starting a worker is
 interrupted

When KeyboardInterrupt arrived, or a thread could not be started, while the worker threads
were being started, the workers already started never received DONE and run hung.
---
 .../_execution/run_function_on_graph.py       | 45 ++++++++-----------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/src/uberjob/_execution/run_function_on_graph.py b/src/uberjob/_execution/run_function_on_graph.py
index 153dc26..e7bad98 100644
--- a/src/uberjob/_execution/run_function_on_graph.py
+++ b/src/uberjob/_execution/run_function_on_graph.py
@@ -16,7 +16,6 @@
 """Functionality for running a function on a graph in parallel in topological order using a thread pool"""
 import os
 import threading
-from contextlib import contextmanager
 from typing import NamedTuple
 
 from uberjob._errors import NodeError
@@ -44,12 +43,6 @@ def coerce_max_errors(max_errors):
     return max_errors
 
 
-def thread(fn):
-    t = threading.Thread(target=fn)
-    t.start()
-    return t
-
-
 DONE = object()
 
 
@@ -64,19 +57,7 @@ def worker_thread(queue, process_item):
             finally:
                 queue.task_done()
 
-    return thread(process_items)
-
-
-@contextmanager
-def worker_pool(queue, process_item, worker_count):
-    workers = []
-    try:
-        for _ in range(worker_count):
-            workers.append(worker_thread(queue, process_item))
-        yield
-    finally:
-        for worker in workers:
-            worker.join()
+    return threading.Thread(target=process_items)
 
 
 class PreparedNodes(NamedTuple):
@@ -154,13 +135,23 @@ def run_function_on_graph(
                         if remaining_pred_count_mapping[successor] == 0:
                             queue.put(successor)
 
-    with worker_pool(queue, process_node, worker_count):
-        try:
-            queue.join()
-        finally:
-            stop = True
-            for _ in range(worker_count):
-                queue.put(DONE)
+    workers = []
+    try:
+        for _ in range(worker_count):
+            worker = worker_thread(queue, process_node)
+            workers.append(worker)
+            worker.start()
+        queue.join()
+    finally:
+        stop = True
+        for _ in workers:
+            queue.put(DONE)
+        for worker in workers:
+            try:
+                worker.join()
+            except RuntimeError:
+                # The worker could not be started.
+                pass
 
     if first_node_error:
         raise first_node_error
-- 
2.43.0


From e2ce6c8e0fe962e47e05946134f32271d84b5d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 07/16] fix: report dependency cycles that consist only of
 literals

Pruning such a literal removed its self loop, and the cycle with it, so what depended on the
cycle ran as if it did not.
---
 src/uberjob/_transformations/pruning.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/_transformations/pruning.py b/src/uberjob/_transformations/pruning.py
index c4a20f5..2b5db47 100644
--- a/src/uberjob/_transformations/pruning.py
+++ b/src/uberjob/_transformations/pruning.py
@@ -49,7 +49,8 @@ def _prune_literal_if_trivial(plan: Plan, literal: Literal) -> None:
     """
     Prunes the literal if:
     a) it is not an argument to any function, and
-    b) removing it does not increase the number of dependencies in the graph.
+    b) removing it does not increase the number of dependencies in the graph, and
+    c) it does not depend on itself, which would hide a cycle.
     """
     if not all(
         type(dependency) is Dependency
@@ -63,7 +64,7 @@ def _prune_literal_if_trivial(plan: Plan, literal: Literal) -> None:
     m = len(predecessors)
     n = len(successors)
 
-    if m * n > m + n:
+    if m * n > m + n or literal in predecessors:
         return
 
     for predecessor, successor in itertools.product(predecessors, successors):
-- 
2.43.0


From e118b089b48b643c3ce0137c603c3158924b62d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 08/16] fix: accept keyword arguments named fn, self and
 stack_frame in Plan.call

---
 src/uberjob/_plan.py            | 2 +-
 src/uberjob/_util/validation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/uberjob/_plan.py b/src/uberjob/_plan.py
index dca52ac..ade5ef3 100644
--- a/src/uberjob/_plan.py
+++ b/src/uberjob/_plan.py
@@ -49,7 +49,7 @@ class Plan:
         self._scope = ()
         self._scope_lock = RLock()
 
-    def _call(self, stack_frame, fn: Callable, *args, **kwargs) -> Call:
+    def _call(self, stack_frame, fn: Callable, /, *args, **kwargs) -> Call:
         call = Call(fn, scope=self._scope, stack_frame=stack_frame)
         self.graph.add_node(call)
         for index, arg in enumerate(args):
diff --git a/src/uberjob/_util/validation.py b/src/uberjob/_util/validation.py
index baf40e1..2f4b8a9 100644
--- a/src/uberjob/_util/validation.py
+++ b/src/uberjob/_util/validation.py
@@ -64,7 +64,7 @@ def try_get_signature(fn: Callable):
         return None
 
 
-def assert_can_bind(fn: Callable, *args, **kwargs):
+def assert_can_bind(fn: Callable, /, *args, **kwargs):
     sig = try_get_signature(fn)
     if sig is None:
         return
-- 
2.43.0


From 11cdd93389ff9473101e9644d41d00ce625bd81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 09/16] fix: accept unhashable callables in Plan.call

---
 src/uberjob/_util/__init__.py   | 19 +++++++++++++++++--
 src/uberjob/_util/validation.py |  5 ++---
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/uberjob/_util/__init__.py b/src/uberjob/_util/__init__.py
index c432564..df3cf4b 100644
--- a/src/uberjob/_util/__init__.py
+++ b/src/uberjob/_util/__init__.py
@@ -13,7 +13,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 #
-from functools import lru_cache
+from functools import lru_cache, wraps
 from reprlib import Repr
 
 
@@ -87,7 +87,22 @@ def repr_helper(instance, *args, defaults=None, **kwargs):
     )
 
 
-@lru_cache(4096)
+def cached(fn):
+    """Cache a function of one argument, except for unhashable arguments."""
+    cached_fn = lru_cache(4096)(fn)
+
+    @wraps(fn)
+    def wrapper(x):
+        try:
+            hash(x)
+        except TypeError:
+            return fn(x)
+        return cached_fn(x)
+
+    return wrapper
+
+
+@cached
 def fully_qualified_name(x):
     qualname = getattr(x, "__qualname__", None)
     if not qualname:
diff --git a/src/uberjob/_util/validation.py b/src/uberjob/_util/validation.py
index 2f4b8a9..796b69d 100644
--- a/src/uberjob/_util/validation.py
+++ b/src/uberjob/_util/validation.py
@@ -15,9 +15,8 @@
 #
 import inspect
 from collections.abc import Callable
-from functools import lru_cache
 
-from uberjob._util import fully_qualified_name
+from uberjob._util import cached, fully_qualified_name
 
 
 def assert_is_callable(argument_value, parameter_name, *, optional=False):
@@ -56,7 +55,7 @@ def assert_is_instance(
         )
 
 
-@lru_cache(4096)
+@cached
 def try_get_signature(fn: Callable):
     try:
         return inspect.signature(fn)
-- 
2.43.0


From 4a1c36f9760147bfa34b03f71e1f0847b04eca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 10/16] fix: attribute a failed gather of the output to the
 line that called run

---
 src/uberjob/_run.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uberjob/_run.py b/src/uberjob/_run.py
index 3b6418d..7845abf 100644
--- a/src/uberjob/_run.py
+++ b/src/uberjob/_run.py
@@ -27,6 +27,7 @@ from uberjob._transformations import get_mutable_plan
 from uberjob._transformations.caching import plan_with_value_stores
 from uberjob._transformations.pruning import prune_plan
 from uberjob._util.retry import create_retry
+from uberjob._util.traceback import get_stack_frame
 from uberjob._util.validation import assert_is_callable, assert_is_instance
 from uberjob.graph import Call, Node
 from uberjob.progress import (
@@ -141,7 +142,9 @@ def run(
 
     plan = get_mutable_plan(plan, inplace=False)
 
-    output_node = plan.gather(output) if output is not None else None
+    output_node = (
+        plan._gather(get_stack_frame(), output) if output is not None else None
+    )
     redirected_output_node = output_node
 
     progress = _coerce_progress(progress)
-- 
2.43.0


From 16c99f6daae443e6424a88f8f1e0a6538d528d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:06 +0000
Subject: [PATCH 11/16] fix: report a failed modified-time query of a stored
 literal as a CallError

Literals have no fn or stack frame, so AttributeError was raised in place of the failure.
---
 src/uberjob/_plan.py                    |  7 +++++--
 src/uberjob/_transformations/caching.py | 11 ++++++++++-
 src/uberjob/graph.py                    |  6 ++++--
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/uberjob/_plan.py b/src/uberjob/_plan.py
index ade5ef3..a0f2da8 100644
--- a/src/uberjob/_plan.py
+++ b/src/uberjob/_plan.py
@@ -87,7 +87,10 @@ class Plan:
         """
         if isinstance(value, Node):
             raise TypeError(f"The value is already a {Node.__name__}.")
-        literal = Literal(value, scope=self._scope)
+        return self._lit(get_stack_frame(), value)
+
+    def _lit(self, stack_frame, value) -> Literal:
+        literal = Literal(value, scope=self._scope, stack_frame=stack_frame)
         self.graph.add_node(literal)
         return literal
 
@@ -118,7 +121,7 @@ class Plan:
             return root
 
         value = recurse(value)
-        return value if isinstance(value, Node) else self.lit(value)
+        return value if isinstance(value, Node) else self._lit(stack_frame, value)
 
     def gather(self, value) -> Node:
         """
diff --git a/src/uberjob/_transformations/caching.py b/src/uberjob/_transformations/caching.py
index f00bf07..531aaae 100644
--- a/src/uberjob/_transformations/caching.py
+++ b/src/uberjob/_transformations/caching.py
@@ -124,7 +124,16 @@ def _get_stale_nodes(
                 raise NodeError(node) from exception
             progress_observer.increment_completed(section="stale", scope=scope)
         else:
-            process(node)
+            try:
+                process(node)
+            except BaseException as exception:
+                # Only a query of the literal's value store can fail.
+                call = Call(
+                    registry[node].__class__.get_modified_time,
+                    scope=node.scope,
+                    stack_frame=node.stack_frame,
+                )
+                raise NodeError(call) from exception
 
     run_function_on_graph(
         plan.graph, process_with_callbacks, worker_count=max_workers, scheduler="cheap"
diff --git a/src/uberjob/graph.py b/src/uberjob/graph.py
index 5577d72..10c976a 100644
--- a/src/uberjob/graph.py
+++ b/src/uberjob/graph.py
@@ -42,12 +42,14 @@ class Literal(Node):
     A symbolic literal value.
 
     :param value: The value of the literal.
+    :param stack_frame: The stack frame of the line that created the literal.
     """
 
-    __slots__ = ("value",)
+    __slots__ = ("value", "stack_frame")
 
-    def __init__(self, value, *, scope=()):
+    def __init__(self, value, *, scope=(), stack_frame=None):
         self.value = value
+        self.stack_frame = stack_frame
         super().__init__(scope=scope)
 
     def __repr__(self):
-- 
2.43.0


From f1fbe88347402b3c5718c8c4388a4ae91788bf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 12/16] fix: report exceptions that cannot be assigned to, or
 that two calls raise at once

Trimming the traceback raised instead, so the CallError did not name the exception that the
call raised.
---
 src/uberjob/_execution/run_physical.py  |  4 ++--
 src/uberjob/_transformations/caching.py |  6 ++----
 src/uberjob/_util/traceback.py          | 10 ++++++++++
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/uberjob/_execution/run_physical.py b/src/uberjob/_execution/run_physical.py
index 3294665..ee5b81c 100644
--- a/src/uberjob/_execution/run_physical.py
+++ b/src/uberjob/_execution/run_physical.py
@@ -24,6 +24,7 @@ from uberjob._plan import Plan
 from uberjob._transformations.pruning import prune_source_literals
 from uberjob._util import Slot
 from uberjob._util.retry import identity
+from uberjob._util.traceback import drop_internal_frames
 from uberjob.graph import Call, Graph, Literal, Node, get_argument_nodes
 from uberjob.progress._null_progress_observer import NullProgressObserver
 from uberjob.progress._progress_observer import ProgressObserver
@@ -101,8 +102,7 @@ def prep_run_physical(
             try:
                 bound_call.value.run(node.fn, retry)
             except Exception as exception:
-                # Drop internal frames
-                exception.__traceback__ = exception.__traceback__.tb_next.tb_next
+                drop_internal_frames(exception, 2)
                 progress_observer.increment_failed(
                     section="run",
                     scope=scope,
diff --git a/src/uberjob/_transformations/caching.py b/src/uberjob/_transformations/caching.py
index 531aaae..66f4b1b 100644
--- a/src/uberjob/_transformations/caching.py
+++ b/src/uberjob/_transformations/caching.py
@@ -24,6 +24,7 @@ from uberjob._registry import Registry, RegistryValue
 from uberjob._transformations import get_mutable_plan
 from uberjob._transformations.pruning import prune_plan, prune_source_literals
 from uberjob._util import Slot, fully_qualified_name, safe_max
+from uberjob._util.traceback import drop_internal_frames
 from uberjob.graph import Call, Dependency, KeywordArg, Node, PositionalArg
 from uberjob.progress._progress_observer import ProgressObserver
 
@@ -112,10 +113,7 @@ def _get_stale_nodes(
             try:
                 process(node)
             except Exception as exception:
-                # Drop internal frames
-                exception.__traceback__ = (
-                    exception.__traceback__.tb_next.tb_next.tb_next
-                )
+                drop_internal_frames(exception, 3)
                 progress_observer.increment_failed(
                     section="stale",
                     scope=scope,
diff --git a/src/uberjob/_util/traceback.py b/src/uberjob/_util/traceback.py
index 9c7d641..c178daf 100644
--- a/src/uberjob/_util/traceback.py
+++ b/src/uberjob/_util/traceback.py
@@ -111,3 +111,13 @@ def render_symbolic_traceback(stack_frame):
             ),
         ]
     )
+
+
+def drop_internal_frames(exception, count):
+    """Drop the outermost frames from the traceback of an exception."""
+    tb = exception.__traceback__
+    for _ in range(count):
+        # Another thread may be raising, and trimming, the same exception object.
+        tb = tb and tb.tb_next
+    # Not by assignment, which the class of the exception may override or forbid.
+    BaseException.with_traceback(exception, tb)
-- 
2.43.0


From 9c663685cba75e8c4a243dbde55c6b43c639fd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:23 +0000
Subject: [PATCH 13/16] fix: accept arguments that contain themselves or are
 nested deeply

They contain no symbolic node, so they are to be passed as they are, but looking for one
raised RecursionError.
---
 src/uberjob/_plan.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/uberjob/_plan.py b/src/uberjob/_plan.py
index a0f2da8..3b06e90 100644
--- a/src/uberjob/_plan.py
+++ b/src/uberjob/_plan.py
@@ -40,6 +40,21 @@ GATHER_LOOKUP = {
 }
 
 
+def _contains_node(value) -> bool:
+    visited = set()
+    stack = [value]
+    while stack:
+        item = stack.pop()
+        if isinstance(item, Node):
+            return True
+        if type(item) in GATHER_LOOKUP and id(item) not in visited:
+            visited.add(id(item))
+            stack.extend(item)
+            if type(item) is dict:
+                stack.extend(item.values())
+    return False
+
+
 class Plan:
     """Represents a symbolic call graph."""
 
@@ -120,7 +135,9 @@ class Plan:
                     return self._call(stack_frame, gather_fn, *children)
             return root
 
-        value = recurse(value)
+        # This also lets through values that are too deep for recurse, or that contain themselves.
+        if _contains_node(value):
+            value = recurse(value)
         return value if isinstance(value, Node) else self._lit(stack_frame, value)
 
     def gather(self, value) -> Node:
-- 
2.43.0


From 4b4452e676d0337ccdf714a2616da58cf22335d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 14/16] fix: notify observers that are falsy of the calls of
 the run section

---
 src/uberjob/_execution/run_physical.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/uberjob/_execution/run_physical.py b/src/uberjob/_execution/run_physical.py
index ee5b81c..a2f5489 100644
--- a/src/uberjob/_execution/run_physical.py
+++ b/src/uberjob/_execution/run_physical.py
@@ -92,7 +92,8 @@ def prep_run_physical(
     )
     plan = prune_source_literals(plan, inplace=inplace)
     retry = retry or identity
-    progress_observer = progress_observer or NullProgressObserver()
+    if progress_observer is None:
+        progress_observer = NullProgressObserver()
 
     def process(node):
         if type(node) is Call:
-- 
2.43.0


From 1ba0fbdaee72758d2258fd11528a95f2fe45ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:36 +0000
Subject: [PATCH 15/16] fix: make the wait for the workers safe to interrupt

KeyboardInterrupt delivered while queue.join() enters or leaves its wait could
leave the lock of the queue unlocked (run raised RuntimeError instead) or locked
for good (run never returned).
---
 src/uberjob/_execution/run_function_on_graph.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/uberjob/_execution/run_function_on_graph.py b/src/uberjob/_execution/run_function_on_graph.py
index e7bad98..2af289d 100644
--- a/src/uberjob/_execution/run_function_on_graph.py
+++ b/src/uberjob/_execution/run_function_on_graph.py
@@ -16,6 +16,7 @@
 """Functionality for running a function on a graph in parallel in topological order using a thread pool"""
 import os
 import threading
+from queue import SimpleQueue
 from typing import NamedTuple
 
 from uberjob._errors import NodeError
@@ -46,7 +47,7 @@ def coerce_max_errors(max_errors):
 DONE = object()
 
 
-def worker_thread(queue, process_item):
+def worker_thread(queue, process_item, finished):
     def process_items():
         while True:
             item = queue.get()
@@ -56,6 +57,8 @@ def worker_thread(queue, process_item):
                 process_item(item)
             finally:
                 queue.task_done()
+                if not queue.unfinished_tasks:
+                    finished.put(None)
 
     return threading.Thread(target=process_items)
 
@@ -109,6 +112,9 @@ def run_function_on_graph(
     failure_lock = threading.Lock()
 
     queue = create_queue(graph, source_nodes, scheduler)
+    # Unlike queue.join(), waiting on a SimpleQueue leaves no lock in the wrong
+    # state when it is interrupted.
+    finished = SimpleQueue()
 
     def process_node(node):
         nonlocal stop
@@ -138,10 +144,11 @@ def run_function_on_graph(
     workers = []
     try:
         for _ in range(worker_count):
-            worker = worker_thread(queue, process_node)
+            worker = worker_thread(queue, process_node, finished)
             workers.append(worker)
             worker.start()
-        queue.join()
+        if source_nodes:
+            finished.get()
     finally:
         stop = True
         for _ in workers:
-- 
2.43.0


From bb7a48ca39f540f125137f1a94008012cc9c8cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:01 +0000
Subject: [PATCH 16/16] fix: print what a finished section gained since it was
 last printed

---
 src/uberjob/progress/_console_progress_observer.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/uberjob/progress/_console_progress_observer.py b/src/uberjob/progress/_console_progress_observer.py
index a1968cf..2c5ee7f 100644
--- a/src/uberjob/progress/_console_progress_observer.py
+++ b/src/uberjob/progress/_console_progress_observer.py
@@ -87,7 +87,7 @@ class ConsoleProgressObserver(SimpleProgressObserver):
             min_update_interval=min_update_interval,
             max_update_interval=max_update_interval,
         )
-        self._skipped_sections = set()
+        self._done_totals = {}
 
     def _render(self, state, new_exception_index, exception_tuples, elapsed):
         with StringIO() as buffer:
@@ -100,12 +100,14 @@ class ConsoleProgressObserver(SimpleProgressObserver):
                         s.completed + s.failed == s.total
                         for s in scope_mapping.values()
                     )
-                    if not is_done or section not in self._skipped_sections:
+                    total = sum(s.total for s in scope_mapping.values())
+                    # More may have been announced and done since the section was last shown as done.
+                    if not is_done or self._done_totals.get(section) != total:
                         _print_section(print_, section, scope_mapping)
                     if is_done:
-                        self._skipped_sections.add(section)
+                        self._done_totals[section] = total
                     else:
-                        self._skipped_sections.discard(section)
+                        self._done_totals.pop(section, None)
             _print_new_exceptions(print_, new_exception_index, exception_tuples)
             return buffer.getvalue()
 
-- 
2.43.0

