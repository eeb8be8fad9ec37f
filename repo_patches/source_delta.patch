From 0850e7e52158f553c4262441e7b10e853a6cb7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:28 +0000
Subject: [PATCH 01/42] fix: record a function which was seen as an absent
 frame before

---
 profiling/stats.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/profiling/stats.py b/profiling/stats.py
index 525c513..efdead3 100644
--- a/profiling/stats.py
+++ b/profiling/stats.py
@@ -251,10 +251,18 @@ class RecordingStatistics(Statistics):
 
     def ensure_child(self, code, adding_stat_class=None):
         stats = self._children.get(code)
+        stat_class = adding_stat_class or type(self)
         if stats is None:
-            stat_class = adding_stat_class or type(self)
             stats = stat_class(code)
             self.add_child(code, stats)
+        elif (isinstance(stats, VoidRecordingStatistics) and
+              not issubclass(stat_class, VoidRecordingStatistics)):
+            # the function was only seen as an absent frame so far, but now it
+            # should be recorded itself.
+            void_stats, stats = stats, stat_class(code)
+            stats.deep_time = void_stats.deep_time
+            stats._children = void_stats._children
+            self.add_child(code, stats)
         return stats
 
     def clear(self):
-- 
2.43.0


From ba66fdd1ca675e0faf18ff9eaa80d41477a59e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 02/42] fix: do not lose statistics nodes added or fail on
 nodes read concurrently

---
 profiling/stats.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/profiling/stats.py b/profiling/stats.py
index efdead3..c6fe707 100644
--- a/profiling/stats.py
+++ b/profiling/stats.py
@@ -253,10 +253,10 @@ class RecordingStatistics(Statistics):
         stats = self._children.get(code)
         stat_class = adding_stat_class or type(self)
         if stats is None:
-            stats = stat_class(code)
-            self.add_child(code, stats)
-        elif (isinstance(stats, VoidRecordingStatistics) and
-              not issubclass(stat_class, VoidRecordingStatistics)):
+            # another thread or a signal handler could add it meanwhile.
+            stats = self._children.setdefault(code, stat_class(code))
+        if (isinstance(stats, VoidRecordingStatistics) and
+            not issubclass(stat_class, VoidRecordingStatistics)):
             # the function was only seen as an absent frame so far, but now it
             # should be recorded itself.
             void_stats, stats = stats, stat_class(code)
@@ -271,7 +271,8 @@ class RecordingStatistics(Statistics):
             setattr(self, attr, value)
 
     def __iter__(self):
-        return itervalues(self._children)
+        # it can be mutated by other threads during the iteration.
+        return iter(self.children)
 
     def __len__(self):
         return len(self._children)
-- 
2.43.0


From 478b62b5223258dd322fd3aae68b4b0f577ee937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 03/42] fix: never record ignored frames or frames below the
 base as functions

---
 profiling/sampling/__init__.py | 9 ++++++---
 profiling/tracing/__init__.py  | 6 ++++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/profiling/sampling/__init__.py b/profiling/sampling/__init__.py
index d13e851..b3cc60a 100644
--- a/profiling/sampling/__init__.py
+++ b/profiling/sampling/__init__.py
@@ -65,12 +65,15 @@ class SamplingProfiler(Profiler):
     def sample(self, frame):
         """Samples the given frame."""
         frames = self.frame_stack(frame)
-        if frames:
-            frames.pop()
+        if not frames:
+            # there's no frame above the base.
+            return
+        # an ignored frame is sampled as its nearest visible caller.
+        code = frames.pop().f_code
         parent_stats = self.stats
         for f in frames:
             parent_stats = parent_stats.ensure_child(f.f_code, void)
-        stats = parent_stats.ensure_child(frame.f_code, RecordingStatistics)
+        stats = parent_stats.ensure_child(code, RecordingStatistics)
         stats.own_hits += 1
 
     def run(self):
diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 2a1870b..17ae5bf 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -84,8 +84,10 @@ class TracingProfiler(Profiler):
             return
         time1 = self.timer()
         frames = self.frame_stack(frame)
-        if frames:
-            frames.pop()
+        if not frames or frames.pop() is not frame:
+            # the frame itself is ignored or not above the base.
+            self.overhead += self.timer() - time1
+            return
         parent_stats = self.stats
         for f in frames:
             parent_stats = parent_stats.ensure_child(f.f_code, void)
-- 
2.43.0


From 040a62ba89dff361fbe85eaad0b03859212dd5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:52 +0000
Subject: [PATCH 04/42] fix: do not lose counts of concurrent threads or record
 after stop

---
 profiling/profiler.py          | 10 +++++++++-
 profiling/sampling/__init__.py | 15 ++++++++++++---
 profiling/tracing/__init__.py  | 14 +++++++++++---
 profiling/utils.py             | 13 ++++++++++++-
 4 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index eee0e86..9f98728 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -16,7 +16,7 @@ except ImportError:
 import time
 
 from profiling.stats import RecordingStatistics
-from profiling.utils import frame_stack, Runnable
+from profiling.utils import frame_stack, recording_lock, Runnable
 from profiling.viewer import StatisticsTable, StatisticsViewer
 
 
@@ -32,6 +32,10 @@ class Profiler(Runnable):
     #: The root recording statistics.
     stats = None
 
+    #: Whether it still records.  After it stopped, the threads which started
+    #: before keep reporting but must not touch the result anymore.
+    _recording = True
+
     base_frame = None
     base_code = None
     ignored_frames = ()
@@ -51,6 +55,10 @@ class Profiler(Runnable):
         self.stats.clear()
         return super(Profiler, self).start()
 
+    def _stop_recording(self):
+        with recording_lock:
+            self._recording = False
+
     def frame_stack(self, frame):
         return frame_stack(frame, self.base_frame, self.base_code,
                            self.ignored_frames, self.ignored_codes)
diff --git a/profiling/sampling/__init__.py b/profiling/sampling/__init__.py
index b3cc60a..2efacf8 100644
--- a/profiling/sampling/__init__.py
+++ b/profiling/sampling/__init__.py
@@ -16,6 +16,7 @@ from profiling.profiler import Profiler
 from profiling.sampling.samplers import ItimerSampler, Sampler
 from profiling.stats import (
     RecordingStatistics, VoidRecordingStatistics as void)
+from profiling.utils import deferral, recording_lock
 from profiling.viewer import fmt, StatisticsTable
 
 
@@ -64,6 +65,11 @@ class SamplingProfiler(Profiler):
 
     def sample(self, frame):
         """Samples the given frame."""
+        with recording_lock:
+            if self._recording:
+                self._record(frame)
+
+    def _record(self, frame):
         frames = self.frame_stack(frame)
         if not frames:
             # there's no frame above the base.
@@ -77,6 +83,9 @@ class SamplingProfiler(Profiler):
         stats.own_hits += 1
 
     def run(self):
-        self.sampler.start(self)
-        yield
-        self.sampler.stop()
+        with deferral() as defer:
+            self._recording = True
+            defer(self._stop_recording)
+            self.sampler.start(self)
+            defer(self.sampler.stop)
+            yield
diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 17ae5bf..d5757c7 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -19,7 +19,7 @@ from profiling.profiler import Profiler
 from profiling.stats import (
     RecordingStatistics, VoidRecordingStatistics as void)
 from profiling.tracing.timers import Timer
-from profiling.utils import deferral
+from profiling.utils import deferral, recording_lock
 from profiling.viewer import fmt, StatisticsTable
 
 
@@ -82,6 +82,11 @@ class TracingProfiler(Profiler):
         # c = event.startswith('c_')
         if event.startswith('c_'):
             return
+        with recording_lock:
+            if self._recording:
+                self._record(frame, event)
+
+    def _record(self, frame, event):
         time1 = self.timer()
         frames = self.frame_stack(frame)
         if not frames or frames.pop() is not frame:
@@ -137,8 +142,11 @@ class TracingProfiler(Profiler):
             # but it's not documented.
             raise RuntimeError('Another profiler already registered')
         with deferral() as defer:
-            self._times_entered.clear()
-            self.overhead = 0.0
+            with recording_lock:
+                self._times_entered.clear()
+                self.overhead = 0.0
+                self._recording = True
+            defer(self._stop_recording)
             sys.setprofile(self._profile)
             defer(sys.setprofile, None)
             threading.setprofile(self._profile)
diff --git a/profiling/utils.py b/profiling/utils.py
index 5f69fff..fdffb5a 100644
--- a/profiling/utils.py
+++ b/profiling/utils.py
@@ -11,7 +11,9 @@ from __future__ import absolute_import
 
 from collections import deque
 from contextlib import contextmanager
+import os
 import sys
+import threading
 
 try:
     from profiling import speedup
@@ -20,7 +22,7 @@ except ImportError:
 
 
 __all__ = ['Runnable', 'frame_stack', 'repr_frame', 'lazy_import', 'deferral',
-           'thread_clock', 'noop']
+           'thread_clock', 'recording_lock', 'noop']
 
 
 class Runnable(object):
@@ -165,5 +167,14 @@ else:
         return time.clock_gettime(time.CLOCK_THREAD_CPUTIME_ID)
 
 
+#: Serializes the threads which record statistics.  It must be reentrant because
+#: a signal handler may record while the interrupted frame is recording.
+recording_lock = threading.RLock()
+if hasattr(os, 'register_at_fork'):
+    os.register_at_fork(before=recording_lock.acquire,
+                        after_in_parent=recording_lock.release,
+                        after_in_child=recording_lock.release)
+
+
 #: Does nothing.  It allows any arguments.
 noop = lambda x, *a, **k: None
-- 
2.43.0


From 702c879f9e5eb4331e74f51dc78ddd4f08070000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 05/42] fix: do not clear the result when starting a running
 profiler fails

---
 profiling/profiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index 9f98728..ef34586 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -50,6 +50,9 @@ class Profiler(Runnable):
         self.stats = RecordingStatistics()
 
     def start(self):
+        if self.is_running():
+            # keep the result of the running profiling.
+            raise RuntimeError('Already started')
         self._cpu_time_started = time.clock()
         self._wall_time_started = time.time()
         self.stats.clear()
-- 
2.43.0


From ae54d5d5677ba457560ee2646564a40cfddb4288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 06/42] fix: exclude the time after stop from the total times
 of a result

---
 profiling/profiler.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/profiling/profiler.py b/profiling/profiler.py
index ef34586..a048a08 100644
--- a/profiling/profiler.py
+++ b/profiling/profiler.py
@@ -55,9 +55,15 @@ class Profiler(Runnable):
             raise RuntimeError('Already started')
         self._cpu_time_started = time.clock()
         self._wall_time_started = time.time()
+        self._cpu_time_stopped = self._wall_time_stopped = None
         self.stats.clear()
         return super(Profiler, self).start()
 
+    def stop(self):
+        super(Profiler, self).stop()
+        self._cpu_time_stopped = time.clock()
+        self._wall_time_stopped = time.time()
+
     def _stop_recording(self):
         with recording_lock:
             self._recording = False
@@ -76,10 +82,14 @@ class Profiler(Runnable):
     def result(self):
         """Gets the frozen statistics to serialize by Pickle."""
         try:
-            cpu_time = max(0, time.clock() - self._cpu_time_started)
-            wall_time = max(0, time.time() - self._wall_time_started)
+            cpu_time, wall_time = self._cpu_time_stopped, self._wall_time_stopped
         except AttributeError:
             cpu_time = wall_time = 0.0
+        else:
+            if cpu_time is None:  # not stopped yet.
+                cpu_time, wall_time = time.clock(), time.time()
+            cpu_time = max(0, cpu_time - self._cpu_time_started)
+            wall_time = max(0, wall_time - self._wall_time_started)
         return self.stats, cpu_time, wall_time
 
     def dump(self, dump_filename, pickle_protocol=pickle.HIGHEST_PROTOCOL):
-- 
2.43.0


From 86338588b9a53ef5c452b3b07eb71379eb728fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:17 +0000
Subject: [PATCH 07/42] fix: the total CPU time of a tracing result is never
 negative

---
 profiling/tracing/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index d5757c7..e1b5544 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -133,7 +133,7 @@ class TracingProfiler(Profiler):
     def result(self):
         base = super(TracingProfiler, self)
         frozen_stats, cpu_time, wall_time = base.result()
-        return (frozen_stats, cpu_time - self.overhead, wall_time)
+        return (frozen_stats, max(0, cpu_time - self.overhead), wall_time)
 
     def run(self):
         if sys.getprofile() is not None:
-- 
2.43.0


From c10d2c5da4ddade568812aa86cc8e9b1695b5c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 08/42] fix: do not charge a call with the overhead in other
 threads or greenlets

---
 profiling/tracing/__init__.py | 22 +++++++++++++++++-----
 profiling/tracing/timers.py   | 11 +++++++++++
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index e1b5544..be058ca 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -76,6 +76,7 @@ class TracingProfiler(Profiler):
         base.__init__(base_frame, base_code, ignored_frames, ignored_codes)
         self.timer = timer
         self._times_entered = {}
+        self._overheads = {}
 
     def _profile(self, frame, event, arg):
         """The callback function to register by :func:`sys.setprofile`."""
@@ -91,7 +92,7 @@ class TracingProfiler(Profiler):
         frames = self.frame_stack(frame)
         if not frames or frames.pop() is not frame:
             # the frame itself is ignored or not above the base.
-            self.overhead += self.timer() - time1
+            self._add_overhead(self.timer() - time1)
             return
         parent_stats = self.stats
         for f in frames:
@@ -104,15 +105,25 @@ class TracingProfiler(Profiler):
         #     frame_key = id(arg)
         # record
         time2 = self.timer()
-        self.overhead += time2 - time1
+        overhead = self._add_overhead(time2 - time1)
         if event == 'call':
-            time = time2 - self.overhead
+            time = time2 - overhead
             self.record_entering(time, code, frame_key, parent_stats)
         elif event == 'return':
-            time = time1 - self.overhead
+            time = time1 - overhead
             self.record_leaving(time, code, frame_key, parent_stats)
         time3 = self.timer()
-        self.overhead += time3 - time2
+        self._add_overhead(time3 - time2)
+
+    def _add_overhead(self, time):
+        """Adds a profiling overhead of the current context.  It returns the
+        overhead which the clock of the context contains.
+        """
+        context = self.timer.detect_context()
+        overhead = self._overheads.get(context, 0.0) + time
+        self._overheads[context] = overhead
+        self.overhead += time
+        return overhead
 
     def record_entering(self, time, code, frame_key, parent_stats):
         """Entered to a function call."""
@@ -144,6 +155,7 @@ class TracingProfiler(Profiler):
         with deferral() as defer:
             with recording_lock:
                 self._times_entered.clear()
+                self._overheads.clear()
                 self.overhead = 0.0
                 self._recording = True
             defer(self._stop_recording)
diff --git a/profiling/tracing/timers.py b/profiling/tracing/timers.py
index a61396a..076dbfa 100644
--- a/profiling/tracing/timers.py
+++ b/profiling/tracing/timers.py
@@ -11,6 +11,8 @@ from __future__ import absolute_import
 
 import time
 
+import six.moves._thread as _thread
+
 from profiling.utils import lazy_import, Runnable, thread_clock
 
 
@@ -26,6 +28,12 @@ class Timer(Runnable):
     def __call__(self):
         return self.clock()
 
+    def detect_context(self):
+        """Identifies the context which has its own clock.  A basic timer has
+        only one clock.
+        """
+        return None
+
     def run(self, profiler):
         yield
 
@@ -72,6 +80,9 @@ class ThreadTimer(Timer):
     def __call__(self):
         return thread_clock()
 
+    def detect_context(self):
+        return _thread.get_ident()
+
 
 class GreenletTimer(ContextualTimer):
     """A timer to get CPU time per greenlet."""
-- 
2.43.0


From 096205ad2d93a6203fd4eb9582b711555ba6c291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 09/42] fix: do not subtract the overhead of leaving a call
 from its time

---
 profiling/tracing/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index be058ca..3ac7202 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -106,11 +106,10 @@ class TracingProfiler(Profiler):
         # record
         time2 = self.timer()
         overhead = self._add_overhead(time2 - time1)
+        time = time2 - overhead
         if event == 'call':
-            time = time2 - overhead
             self.record_entering(time, code, frame_key, parent_stats)
         elif event == 'return':
-            time = time1 - overhead
             self.record_leaving(time, code, frame_key, parent_stats)
         time3 = self.timer()
         self._add_overhead(time3 - time2)
-- 
2.43.0


From 23fcee50462e4423643914d50c1aa2980d92f95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 10/42] fix: forget greenlets paused in the last run and
 restore the trace function

---
 profiling/tracing/timers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/profiling/tracing/timers.py b/profiling/tracing/timers.py
index 076dbfa..96156f6 100644
--- a/profiling/tracing/timers.py
+++ b/profiling/tracing/timers.py
@@ -99,6 +99,10 @@ class GreenletTimer(ContextualTimer):
         self.resume(id(target))
 
     def run(self, profiler):
-        self.greenlet.settrace(self._trace)
-        yield
-        self.greenlet.settrace(None)
+        # forget the greenlets which were switched in the last run.
+        self._contextual_times.clear()
+        prev_trace = self.greenlet.settrace(self._trace)
+        try:
+            yield
+        finally:
+            self.greenlet.settrace(prev_trace)
-- 
2.43.0


From bc230e74ea038ce4c1bc1ced76862ba47810131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:58 +0000
Subject: [PATCH 11/42] fix: a runnable which failed to start is not running,
 and clean up all it did

---
 profiling/utils.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/profiling/utils.py b/profiling/utils.py
index fdffb5a..c501fdd 100644
--- a/profiling/utils.py
+++ b/profiling/utils.py
@@ -50,8 +50,14 @@ class Runnable(object):
         try:
             yielded = next(self._running)
         except StopIteration:
+            self._running = None
             raise TypeError('run() must yield just one time')
+        except BaseException:
+            self._running = None
+            raise
         if yielded is not None:
+            running, self._running = self._running, None
+            running.close()
             raise TypeError('run() must yield without value')
 
     def stop(self):
@@ -133,6 +139,17 @@ class LazyImport(object):
 lazy_import = LazyImport
 
 
+def call_deferred(deferred):
+    """Calls all deferred functions even if some of them fail."""
+    while deferred:
+        f, a, k = deferred.pop()
+        try:
+            f(*a, **k)
+        except BaseException:
+            call_deferred(deferred)
+            raise
+
+
 @contextmanager
 def deferral():
     """Defers a function call when it is being required like Go.
@@ -150,9 +167,7 @@ def deferral():
     try:
         yield defer
     finally:
-        while deferred:
-            f, a, k = deferred.pop()
-            f(*a, **k)
+        call_deferred(deferred)
 
 
 if sys.version_info < (3, 3):
-- 
2.43.0


From 5550049bb1a878e46f706ca63c5b624d9ad83afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:58 +0000
Subject: [PATCH 12/42] fix: restore the profiling functions which were set
 before

---
 profiling/sampling/samplers.py |  8 +++++---
 profiling/tracing/__init__.py  |  8 +++-----
 profiling/utils.py             | 11 ++++++++++-
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/profiling/sampling/samplers.py b/profiling/sampling/samplers.py
index 4c4a288..9ccbc0e 100644
--- a/profiling/sampling/samplers.py
+++ b/profiling/sampling/samplers.py
@@ -17,7 +17,8 @@ import weakref
 
 import six.moves._thread as _thread
 
-from profiling.utils import deferral, Runnable, thread_clock
+from profiling.utils import (
+    deferral, Runnable, thread_clock, threading_getprofile)
 
 
 __all__ = ['Sampler', 'ItimerSampler', 'TracingSampler']
@@ -104,8 +105,9 @@ class TracingSampler(Sampler):
     def run(self, profiler):
         profile = functools.partial(self._profile, profiler)
         with deferral() as defer:
+            prev_profiles = sys.getprofile(), threading_getprofile()
             sys.setprofile(profile)
-            defer(sys.setprofile, None)
+            defer(sys.setprofile, prev_profiles[0])
             threading.setprofile(profile)
-            defer(threading.setprofile, None)
+            defer(threading.setprofile, prev_profiles[1])
             yield
diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 3ac7202..6f557b4 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -19,7 +19,7 @@ from profiling.profiler import Profiler
 from profiling.stats import (
     RecordingStatistics, VoidRecordingStatistics as void)
 from profiling.tracing.timers import Timer
-from profiling.utils import deferral, recording_lock
+from profiling.utils import deferral, recording_lock, threading_getprofile
 from profiling.viewer import fmt, StatisticsTable
 
 
@@ -147,9 +147,6 @@ class TracingProfiler(Profiler):
 
     def run(self):
         if sys.getprofile() is not None:
-            # NOTE: There's no threading.getprofile().
-            # The profiling function will be stored at threading._profile_hook
-            # but it's not documented.
             raise RuntimeError('Another profiler already registered')
         with deferral() as defer:
             with recording_lock:
@@ -160,8 +157,9 @@ class TracingProfiler(Profiler):
             defer(self._stop_recording)
             sys.setprofile(self._profile)
             defer(sys.setprofile, None)
+            prev_profile = threading_getprofile()
             threading.setprofile(self._profile)
-            defer(threading.setprofile, None)
+            defer(threading.setprofile, prev_profile)
             self.timer.start(self)
             defer(self.timer.stop)
             yield
diff --git a/profiling/utils.py b/profiling/utils.py
index c501fdd..906ac87 100644
--- a/profiling/utils.py
+++ b/profiling/utils.py
@@ -22,7 +22,7 @@ except ImportError:
 
 
 __all__ = ['Runnable', 'frame_stack', 'repr_frame', 'lazy_import', 'deferral',
-           'thread_clock', 'recording_lock', 'noop']
+           'threading_getprofile', 'thread_clock', 'recording_lock', 'noop']
 
 
 class Runnable(object):
@@ -170,6 +170,15 @@ def deferral():
         call_deferred(deferred)
 
 
+def threading_getprofile():
+    """Gets the function set by :func:`threading.setprofile`."""
+    try:
+        return threading.getprofile()
+    except AttributeError:
+        # earlier than Python 3.10.
+        return getattr(threading, '_profile_hook', None)
+
+
 if sys.version_info < (3, 3):
     class _yappi_holder_type(object):
         yappi = lazy_import('yappi')
-- 
2.43.0


From 7ea9ba20e32b49d88b94749e03bbf511755e2235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:43 +0000
Subject: [PATCH 13/42] fix: the tracing sampler keeps the sampled time of live
 threads only

It forgot the times of the live threads instead of the dead ones from time to
time, so they were sampled too early, and a thread with the identifier of a
finished thread was not sampled until it used as much CPU time.
---
 profiling/sampling/samplers.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/profiling/sampling/samplers.py b/profiling/sampling/samplers.py
index 9ccbc0e..ff54194 100644
--- a/profiling/sampling/samplers.py
+++ b/profiling/sampling/samplers.py
@@ -15,8 +15,6 @@ import sys
 import threading
 import weakref
 
-import six.moves._thread as _thread
-
 from profiling.utils import (
     deferral, Runnable, thread_clock, threading_getprofile)
 
@@ -83,24 +81,17 @@ class TracingSampler(Sampler):
 
     def __init__(self, *args, **kwargs):
         super(TracingSampler, self).__init__(*args, **kwargs)
-        self.sampled_times = {}
-        self.counter = 0
+        # the last sampled time of each thread.  It is forgotten with its
+        # thread, because another thread could get the same identifier later.
+        self._local = threading.local()
 
     def _profile(self, profiler, frame, event, arg):
         t = thread_clock()
-        thread_id = _thread.get_ident()
-        sampled_at = self.sampled_times.get(thread_id, 0)
+        sampled_at = getattr(self._local, 'sampled_at', 0)
         if t - sampled_at < self.interval:
             return
-        self.sampled_times[thread_id] = t
+        self._local.sampled_at = t
         profiler.sample(frame)
-        self.counter += 1
-        if self.counter % 10000 == 0:
-            self._clear_for_dead_threads()
-
-    def _clear_for_dead_threads(self):
-        for thread_id in sys._current_frames().keys():
-            self.sampled_times.pop(thread_id, None)
 
     def run(self, profiler):
         profile = functools.partial(self._profile, profiler)
-- 
2.43.0


From 58d17f0f156b7c029522757d9e8b38df92a40ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 14/42] fix: take the snapshot of child nodes at once

---
 profiling/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/profiling/stats.py b/profiling/stats.py
index c6fe707..1705cb3 100644
--- a/profiling/stats.py
+++ b/profiling/stats.py
@@ -235,7 +235,8 @@ class RecordingStatistics(Statistics):
 
     @property
     def children(self):
-        return list(itervalues(self._children))
+        # list() takes the values at once, nobody can interrupt it.
+        return list(self._children.values())
 
     def get_child(self, code):
         return self._children[code]
-- 
2.43.0


From aec2b0493caef7b769fbddaebb9944723df33f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:31 +0000
Subject: [PATCH 15/42] fix: start the timer before the first call is recorded

---
 profiling/tracing/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index 6f557b4..b064897 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -155,11 +155,12 @@ class TracingProfiler(Profiler):
                 self.overhead = 0.0
                 self._recording = True
             defer(self._stop_recording)
+            # the timer must be ready before the first call is recorded.
+            self.timer.start(self)
+            defer(self.timer.stop)
             sys.setprofile(self._profile)
             defer(sys.setprofile, None)
             prev_profile = threading_getprofile()
             threading.setprofile(self._profile)
             defer(threading.setprofile, prev_profile)
-            self.timer.start(self)
-            defer(self.timer.stop)
             yield
-- 
2.43.0


From 796db774030f254c8de45936c9f7b803d7ac6743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:49 +0000
Subject: [PATCH 16/42] fix: report failures of the signal handler to the
 thread which sent the signal

---
 profiling/remote/background.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/profiling/remote/background.py b/profiling/remote/background.py
index 09a341b..e072183 100644
--- a/profiling/remote/background.py
+++ b/profiling/remote/background.py
@@ -13,8 +13,11 @@ from __future__ import absolute_import
 
 import os
 import signal
+import sys
 import threading
 
+from six import reraise
+
 from profiling.profiler import ProfilerWrapper
 
 
@@ -25,6 +28,9 @@ class BackgroundProfiler(ProfilerWrapper):
 
     signum = signal.SIGUSR2
 
+    #: The exception raised by the profiler in the signal handler.
+    _exc_info = None
+
     def __init__(self, profiler, signum=None):
         super(BackgroundProfiler, self).__init__(profiler)
         if signum is not None:
@@ -47,10 +53,21 @@ class BackgroundProfiler(ProfilerWrapper):
         self.event.clear()
         os.kill(os.getpid(), self.signum)
         self.event.wait()
+        exc_info, self._exc_info = self._exc_info, None
+        if exc_info is not None:
+            try:
+                reraise(*exc_info)
+            finally:
+                del exc_info
 
     def _signal_handler(self, signum, frame):
-        if self.profiler.is_running():
-            self.profiler.stop()
-        else:
-            self.profiler.start()
-        self.event.set()
+        try:
+            if self.profiler.is_running():
+                self.profiler.stop()
+            else:
+                self.profiler.start()
+        except Exception:
+            # it belongs to the requester, not to the interrupted program.
+            self._exc_info = sys.exc_info()
+        finally:
+            self.event.set()
-- 
2.43.0


From 8b0840a15de8ec2723e9450602e62c326117ceb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:17 +0000
Subject: [PATCH 17/42] fix: receive the rest of a message after a short read

---
 profiling/remote/__init__.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index ab5cb1a..ca6ce3e 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -68,10 +68,15 @@ def pack_msg(method, msg, pickle_protocol=PICKLE_PROTOCOL):
 
 def recv(sock, size):
     """Receives exactly `size` bytes.  This function blocks the thread."""
-    data = sock.recv(size, socket.MSG_WAITALL)
-    if len(data) < size:
-        raise socket.error(ECONNRESET, 'Connection closed')
-    return data
+    chunks = []
+    while size:
+        # it can be shorter than requested if a signal has been caught.
+        data = sock.recv(size, socket.MSG_WAITALL)
+        if not data:
+            raise socket.error(ECONNRESET, 'Connection closed')
+        chunks.append(data)
+        size -= len(data)
+    return b''.join(chunks)
 
 
 def recv_msg(sock):
-- 
2.43.0


From a957f44821347c11cf75f0e284113e6555b1bc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:23 +0000
Subject: [PATCH 18/42] fix: disconnect a client which a result could not be
 sent to

---
 profiling/remote/__init__.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index ca6ce3e..606e028 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -188,17 +188,14 @@ class ProfilingServer(object):
                             pickle_protocol=self.pickle_protocol)
             self._latest_result_data = data
             # broadcast.
-            closed_clients = []
-            for client in self.clients:
+            for client in list(self.clients):
                 try:
                     self._send(client, data)
-                except socket.error as exc:
-                    if exc.errno == EPIPE:
-                        closed_clients.append(client)
+                except socket.error:
+                    # a part of the message might be sent already.  nothing
+                    # meaningful can follow it.
+                    self.disconnected(client)
             del data
-            # handle disconnections.
-            for client in closed_clients:
-                self.disconnected(client)
         self._log_profiler_stopped()
 
     def send_msg(self, client, method, msg, pickle_protocol=None):
-- 
2.43.0


From da25732fc3410ee14f4ad66a1983bef0332da2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:23 +0000
Subject: [PATCH 19/42] fix: greet a client at once and survive a client which
 left before

---
 profiling/remote/__init__.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index 606e028..026e8e0 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -12,7 +12,7 @@
 """
 from __future__ import absolute_import
 
-from errno import EBADF, ECONNRESET, EPIPE
+from errno import ECONNRESET
 import functools
 import io
 from logging import getLogger as get_logger
@@ -206,28 +206,32 @@ class ProfilingServer(object):
 
     def connected(self, client):
         """Call this method when a client connected."""
+        # the results to be broadcasted from now on follow the greeting.
         self.clients.add(client)
+        data = self._greeting()
         self._log_connected(client)
         self._start_watching(client)
-        self.send_msg(client, WELCOME, (self.pickle_protocol, __version__),
-                      pickle_protocol=0)
+        try:
+            self._send(client, data)
+        except socket.error:
+            self.disconnected(client)
+            return
+        if len(self.clients) == 1:
+            self._start_profiling()
+
+    def _greeting(self):
+        """Packs the messages to be sent to a new client at once."""
         profiler = self.profiler
         while True:
             try:
                 profiler = profiler.profiler
             except AttributeError:
                 break
-        self.send_msg(client, PROFILER, type(profiler))
-        if self._latest_result_data is not None:
-            try:
-                self._send(client, self._latest_result_data)
-            except socket.error as exc:
-                if exc.errno in (EBADF, EPIPE):
-                    self.disconnected(client)
-                    return
-                raise
-        if len(self.clients) == 1:
-            self._start_profiling()
+        return (pack_msg(WELCOME, (self.pickle_protocol, __version__),
+                         pickle_protocol=0) +
+                pack_msg(PROFILER, type(profiler),
+                         pickle_protocol=self.pickle_protocol) +
+                (self._latest_result_data or b''))
 
     def disconnected(self, client):
         """Call this method when a client disconnected."""
-- 
2.43.0


From 0ffa97e40040b87c50aa991bd224d3dfe9d1f759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:58 +0000
Subject: [PATCH 20/42] fix: never nest profiling loops of a server

---
 profiling/remote/__init__.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/profiling/remote/__init__.py b/profiling/remote/__init__.py
index 026e8e0..16db10d 100644
--- a/profiling/remote/__init__.py
+++ b/profiling/remote/__init__.py
@@ -132,6 +132,9 @@ class ProfilingServer(object):
 
     _latest_result_data = None
 
+    #: Whether a profiling loop is under way.
+    _profiling = False
+
     def __init__(self, profiler, interval=INTERVAL,
                  log=LOG, pickle_protocol=PICKLE_PROTOCOL):
         self.profiler = profiler
@@ -174,7 +177,19 @@ class ProfilingServer(object):
                    time.sleep(self.interval)
 
         """
+        if self._profiling:
+            # the loop under way serves also the clients connected later.
+            return
+        self._profiling = True
         self._log_profiler_started()
+        try:
+            for __ in self._profiling_rounds():
+                yield
+        finally:
+            self._profiling = False
+        self._log_profiler_stopped()
+
+    def _profiling_rounds(self):
         while self.clients:
             try:
                 self.profiler.start()
@@ -196,7 +211,6 @@ class ProfilingServer(object):
                     # meaningful can follow it.
                     self.disconnected(client)
             del data
-        self._log_profiler_stopped()
 
     def send_msg(self, client, method, msg, pickle_protocol=None):
         if pickle_protocol is None:
@@ -216,7 +230,7 @@ class ProfilingServer(object):
         except socket.error:
             self.disconnected(client)
             return
-        if len(self.clients) == 1:
+        if not self._profiling:
             self._start_profiling()
 
     def _greeting(self):
-- 
2.43.0


From 88825b05a128d5d63425730e62ba5a26f5ebd382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:30 +0000
Subject: [PATCH 21/42] fix: send an entire message to a client which receives
 slowly

It also measures the time with the monotonic clock if there is one.
---
 profiling/remote/select.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/profiling/remote/select.py b/profiling/remote/select.py
index 9f7e4b7..97b32ee 100644
--- a/profiling/remote/select.py
+++ b/profiling/remote/select.py
@@ -16,7 +16,10 @@ from __future__ import absolute_import
 from errno import ECONNRESET, EINTR, ENOTCONN
 import select
 import socket
-import time
+try:
+    from time import monotonic
+except ImportError:
+    from time import time as monotonic
 
 from profiling.remote import ProfilingServer
 
@@ -35,7 +38,20 @@ class SelectProfilingServer(ProfilingServer):
             self.dispatch_sockets()
 
     def _send(self, sock, data):
-        sock.sendall(data, socket.MSG_DONTWAIT)
+        # wait for room, but never hold up the other clients longer than the
+        # interval.
+        data = memoryview(data)
+        deadline = monotonic() + self.interval
+        try:
+            while data:
+                sock.settimeout(max(0, deadline - monotonic()))
+                try:
+                    data = data[sock.send(data):]
+                except socket.error as exc:
+                    if exc.errno != EINTR:
+                        raise
+        finally:
+            sock.settimeout(None)
 
     def _close(self, sock):
         sock.close()
@@ -71,7 +87,7 @@ class SelectProfilingServer(ProfilingServer):
         sockets.
         """
         if timeout is not None:
-            t = time.time()
+            t = monotonic()
         while True:
             try:
                 ready, __, __ = select.select(self.sockets(), (), (), timeout)
@@ -89,7 +105,7 @@ class SelectProfilingServer(ProfilingServer):
             if timeout is None:
                 continue
             # decrease timeout.
-            t2 = time.time()
+            t2 = monotonic()
             timeout -= t2 - t
             t = t2
             if timeout <= 0:
-- 
2.43.0


From 87fccc9fe2df8199aad69f100e25f4f694eae818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:41 +0000
Subject: [PATCH 22/42] fix: a socket error of a client never stops the select
 server

---
 profiling/remote/select.py | 43 +++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/profiling/remote/select.py b/profiling/remote/select.py
index 97b32ee..8dc8645 100644
--- a/profiling/remote/select.py
+++ b/profiling/remote/select.py
@@ -13,9 +13,10 @@
 """
 from __future__ import absolute_import
 
-from errno import ECONNRESET, EINTR, ENOTCONN
+from errno import EINTR, EMFILE, ENFILE, ENOBUFS, ENOMEM
 import select
 import socket
+import time
 try:
     from time import monotonic
 except ImportError:
@@ -27,6 +28,10 @@ from profiling.remote import ProfilingServer
 __all__ = ['SelectProfilingServer']
 
 
+#: Seconds to wait before accepting again when resources are exhausted.
+ACCEPT_RETRY_DELAY = 0.1
+
+
 class SelectProfilingServer(ProfilingServer):
 
     def __init__(self, listener, *args, **kwargs):
@@ -59,11 +64,9 @@ class SelectProfilingServer(ProfilingServer):
     def _addr(self, sock):
         try:
             return sock.getpeername()
-        except socket.error as exc:
-            if exc.errno == ENOTCONN:
-                return None
-            else:
-                raise
+        except socket.error:
+            # it might be disconnected already.
+            return None
 
     def _start_profiling(self):
         self.profile_periodically()
@@ -92,8 +95,8 @@ class SelectProfilingServer(ProfilingServer):
             try:
                 ready, __, __ = select.select(self.sockets(), (), (), timeout)
             except ValueError:
-                # there's fd=0 socket.
-                pass
+                # there's a socket which cannot be selected by its fd.
+                self.disconnect_unselectable()
             except select.error as exc:
                 # ignore an interrupted system call.
                 if exc.args[0] != EINTR:
@@ -112,17 +115,33 @@ class SelectProfilingServer(ProfilingServer):
                 # timed out.
                 return []
 
+    def disconnect_unselectable(self):
+        """Disconnects the clients which cannot be watched by `select`."""
+        for sock in list(self.clients):
+            try:
+                select.select([sock], (), (), 0)
+            except ValueError:
+                self.disconnected(sock)
+            except select.error:
+                pass
+
     def dispatch_sockets(self, timeout=None):
         """Dispatches incoming sockets."""
         for sock in self.select_sockets(timeout=timeout):
             if sock is self.listener:
                 listener = sock
-                sock, addr = listener.accept()
+                try:
+                    sock, addr = listener.accept()
+                except socket.error as exc:
+                    if exc.errno in (EMFILE, ENFILE, ENOBUFS, ENOMEM):
+                        # wait for resources.
+                        time.sleep(min(self.interval, ACCEPT_RETRY_DELAY))
+                    continue
                 self.connected(sock)
             else:
                 try:
                     sock.recv(1)
-                except socket.error as exc:
-                    if exc.errno != ECONNRESET:
-                        raise
+                except socket.error:
+                    # whatever the reason is, it's not available anymore.
+                    pass
                 self.disconnected(sock)
-- 
2.43.0


From a163cf2a6f4a2f4886d89eacc8dca172f5a918eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 23/42] fix: gevent: never mix messages and never wait for a
 stalled client forever

---
 profiling/remote/gevent.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/profiling/remote/gevent.py b/profiling/remote/gevent.py
index aba98ee..f72441f 100644
--- a/profiling/remote/gevent.py
+++ b/profiling/remote/gevent.py
@@ -50,10 +50,15 @@ class GeventProfilingServer(StreamServer, ProfilingServer):
         ProfilingServer.__init__(self, profiler, interval,
                                  log, pickle_protocol)
         self.lock = Semaphore()
+        self.sending = Semaphore()
         self.profiling_greenlet = None
 
     def _send(self, sock, data):
-        sock.sendall(data)
+        # messages from different greenlets never mix.  a client which doesn't
+        # receive never holds up the others longer than the interval.
+        with self.sending:
+            with gevent.Timeout(self.interval, socket.timeout('timed out')):
+                sock.sendall(data)
 
     def _close(self, sock):
         sock.close()
-- 
2.43.0


From f19400ddcff5b47beb706772e411e10c8c36c599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 24/42] fix: make the asyncio server work on Python 3.7 or
 later

---
 profiling/remote/asyncio.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/profiling/remote/asyncio.py b/profiling/remote/asyncio.py
index b3cd904..319d1e4 100644
--- a/profiling/remote/asyncio.py
+++ b/profiling/remote/asyncio.py
@@ -60,12 +60,12 @@ class AsyncIOProfilingServer(ProfilingServer):
         return writer.get_extra_info('peername')
 
     def _start_profiling(self):
-        asyncio.async(self.profile_periodically())
+        asyncio.ensure_future(self.profile_periodically())
 
     def _start_watching(self, client):
         reader, writer = client
-        disconnected = lambda x: self.disconnected(reader, writer)
-        asyncio.async(reader.read()).add_done_callback(disconnected)
+        disconnected = lambda x: self.disconnected(client)
+        asyncio.ensure_future(reader.read()).add_done_callback(disconnected)
 
     @asyncio.coroutine
     def profile_periodically(self):
-- 
2.43.0


From c37b2de807aaa6abd1c84fa4ba9a74671f4708e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 25/42] fix: wait before reconnecting whenever the server
 didn't greet

---
 profiling/remote/client.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/profiling/remote/client.py b/profiling/remote/client.py
index b3ce40c..5ba9e90 100644
--- a/profiling/remote/client.py
+++ b/profiling/remote/client.py
@@ -10,7 +10,7 @@
 from __future__ import absolute_import
 
 from datetime import datetime
-from errno import ECONNREFUSED, EINPROGRESS, ENOENT
+from errno import EINPROGRESS, ENOENT
 import socket
 
 from valuedispatch import valuedispatch
@@ -51,6 +51,9 @@ class ProfilingClient(object):
 
     """
 
+    #: Whether a message was received through the current connection.
+    greeted = False
+
     def __init__(self, viewer, event_loop, sock,
                  title=None, protocol=protocol):
         self.viewer = viewer
@@ -68,6 +71,7 @@ class ProfilingClient(object):
         except socket.error as exc:
             self.erred(exc.errno)
             return
+        self.greeted = True
         self.protocol(method, msg, self)
 
     def erred(self, errno):
@@ -107,10 +111,12 @@ class FailoverProfilingClient(ProfilingClient):
     def disconnect(self, errno):
         self.sock.close()
         # try to reconnect.
-        delay = self.failover_interval if errno == ECONNREFUSED else 0
+        # but never rush a server which doesn't even greet.
+        delay = 0 if self.greeted else self.failover_interval
         self.create_connection(delay)
 
     def create_connection(self, delay=0):
+        self.greeted = False
         self.sock = socket.socket(self.family)
         self.sock.setblocking(0)
         self.event_loop.alarm(delay, self.connect)
-- 
2.43.0


From b8b522694f41de333d8daedb4e3915b0c02870cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 26/42] fix: retry whatever the reason of a failed connection
 is

---
 profiling/remote/client.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/profiling/remote/client.py b/profiling/remote/client.py
index 5ba9e90..f82c618 100644
--- a/profiling/remote/client.py
+++ b/profiling/remote/client.py
@@ -10,7 +10,7 @@
 from __future__ import absolute_import
 
 from datetime import datetime
-from errno import EINPROGRESS, ENOENT
+from errno import EINPROGRESS
 import socket
 
 from valuedispatch import valuedispatch
@@ -92,20 +92,15 @@ class FailoverProfilingClient(ProfilingClient):
         base.__init__(viewer, event_loop, None, title, protocol)
 
     def connect(self):
-        while True:
+        try:
             errno = self.sock.connect_ex(self.addr)
-            if not errno:
-                # connected immediately.
-                break
-            elif errno == EINPROGRESS:
-                # will be connected.
-                break
-            elif errno == ENOENT:
-                # no such socket file.
-                self.create_connection(self.failover_interval)
-                return
-            else:
-                raise ValueError('Unexpected socket errno: %d' % errno)
+        except socket.error as exc:
+            # e.g. the host name is not resolved.
+            errno = exc.errno
+        if errno not in (0, EINPROGRESS):
+            # neither connected immediately nor will be connected.
+            self.disconnect(errno)
+            return
         self.event_loop.watch_file(self.sock.fileno(), self.handle)
 
     def disconnect(self, errno):
-- 
2.43.0


From a97b9e93953fbc05d5f7c19a368d2570dc378bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:02 +0000
Subject: [PATCH 27/42] fix: do not take an incomplete message for a
 disconnection

---
 profiling/remote/client.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/profiling/remote/client.py b/profiling/remote/client.py
index f82c618..7683737 100644
--- a/profiling/remote/client.py
+++ b/profiling/remote/client.py
@@ -84,6 +84,9 @@ class FailoverProfilingClient(ProfilingClient):
 
     failover_interval = 1
 
+    #: How many seconds to wait for the rest of a message.
+    receive_timeout = 5
+
     def __init__(self, viewer, event_loop, addr=None, family=socket.AF_INET,
                  title=None, protocol=protocol):
         self.addr = addr
@@ -101,6 +104,8 @@ class FailoverProfilingClient(ProfilingClient):
             # neither connected immediately nor will be connected.
             self.disconnect(errno)
             return
+        # receive entire messages, but don't freeze the viewer forever.
+        self.sock.settimeout(self.receive_timeout)
         self.event_loop.watch_file(self.sock.fileno(), self.handle)
 
     def disconnect(self, errno):
-- 
2.43.0


From 89bda66b5ae75d6e6d5edcef33377870a91493e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 28/42] fix: sort unnamed functions and functions of unknown
 modules

In Python 3, None is not comparable with a string: choosing the FUNCTION
column made the viewer fail.
---
 profiling/sortkeys.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/profiling/sortkeys.py b/profiling/sortkeys.py
index 019ba89..0729cb4 100644
--- a/profiling/sortkeys.py
+++ b/profiling/sortkeys.py
@@ -29,14 +29,17 @@ class SortKey(object):
         return cls(lambda stat: -self.func(stat))
 
 
+# NOTE: Modules don't have a name, and unknown modules are ``None``.  But in
+# Python 3, ``None`` is not comparable with a string.
+
 #: Sorting by name in ascending order.
-by_name = SortKey(lambda stat: stat.name)
+by_name = SortKey(lambda stat: stat.name or '')
 
 #: Sorting by module in ascending order.
-by_module = SortKey(lambda stat: stat.module)
+by_module = SortKey(lambda stat: stat.module or '')
 
 #: Sorting by module and name in ascending order.
-by_function = SortKey(lambda stat: (stat.module, stat.name))
+by_function = SortKey(lambda stat: (stat.module or '', stat.name or ''))
 
 #: Sorting by number of inclusive hits in descending order.
 by_deep_hits = SortKey(lambda stat: -stat.deep_hits)
-- 
2.43.0


From 0d1d174b62eb371e0d4f81550878f3b6ae7332d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 29/42] fix: show when the result was received in the header

The table keeps the time as 'at' but the header looked for 'time'.
---
 profiling/viewer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index 6388d30..af4e088 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -478,7 +478,7 @@ class StatisticsTable(urwid.WidgetWrap):
 
     title = None
     stats = None
-    time = None
+    at = None
 
     def __init__(self, viewer):
         self._expanded_stat_hashes = set()
@@ -637,7 +637,7 @@ class StatisticsTable(urwid.WidgetWrap):
         if stats is None:
             return
         title = self.title
-        time = self.time
+        time = self.at
         if title or time:
             if time is not None:
                 time_string = '{:%H:%M:%S}'.format(time)
-- 
2.43.0


From e9cac42c6ed7bfea84af6e61c4502135545e08d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 30/42] fix: keep showing the result when the profiler class
 changes

---
 profiling/viewer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index af4e088..3de78ca 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -802,6 +802,8 @@ class StatisticsViewer(object):
             return
         self.table = table_class(self)
         self.widget.original_widget = self.table
+        # the new table doesn't know the current result yet.
+        self.update_result()
 
     def set_result(self, stats, cpu_time=0.0, wall_time=0.0,
                    title=None, at=None):
-- 
2.43.0


From 3e52e285e991052a7e3e9fd24e78dbd5710e8ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 31/42] fix: never collapse the root of the tree

It has no row.  When a function called at the root was a leaf, the left or
'-' key made the whole table disappear.
---
 profiling/viewer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index 3de78ca..3d8c523 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -334,6 +334,15 @@ class EmptyWidget(urwid.Widget):
 
 class RootStatisticsWidget(StatisticsWidget):
 
+    @property
+    def expanded(self):
+        return True
+
+    @expanded.setter
+    def expanded(self, expanded):
+        # collapsing the root would hide everything.
+        pass
+
     def load_inner_widget(self):
         return EmptyWidget()
 
-- 
2.43.0


From 8d306252622d6a188beaafb32a4dabc6433194f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 32/42] fix: show the header of the paused result in a new
 table

While paused, a table made for another profiler class showed the paused
result without the header.
---
 profiling/viewer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/profiling/viewer.py b/profiling/viewer.py
index 3d8c523..04c2af8 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -639,8 +639,6 @@ class StatisticsTable(urwid.WidgetWrap):
             widget = self.thead.base_widget.contents[x][0]
             text, __ = widget.get_text()
             widget.set_text((attr, text))
-        if self.viewer.paused:
-            return
         # Update header.
         stats = self.get_stats()
         if stats is None:
-- 
2.43.0


From f5004ac6813d4ce9333126e03ffe3389e8c15eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 33/42] fix: make room for times longer than 10 seconds

'12.3sec' has 7 letters but the columns had 6: '2.3sec' was shown instead.
---
 profiling/tracing/__init__.py | 8 ++++----
 profiling/viewer.py           | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/profiling/tracing/__init__.py b/profiling/tracing/__init__.py
index b064897..f21d1d3 100644
--- a/profiling/tracing/__init__.py
+++ b/profiling/tracing/__init__.py
@@ -34,11 +34,11 @@ class TracingStatisticsTable(StatisticsTable):
     columns = [
         ('FUNCTION', 'left', ('weight', 1), sortkeys.by_function),
         ('CALLS', 'right', (6,), sortkeys.by_own_hits),
-        ('OWN', 'right', (6,), sortkeys.by_own_time),
-        ('/CALL', 'right', (6,), sortkeys.by_own_time_per_call),
+        ('OWN', 'right', (7,), sortkeys.by_own_time),
+        ('/CALL', 'right', (7,), sortkeys.by_own_time_per_call),
         ('%', 'left', (4,), None),
-        ('DEEP', 'right', (6,), sortkeys.by_deep_time),
-        ('/CALL', 'right', (6,), sortkeys.by_deep_time_per_call),
+        ('DEEP', 'right', (7,), sortkeys.by_deep_time),
+        ('/CALL', 'right', (7,), sortkeys.by_deep_time_per_call),
         ('%', 'left', (4,), None),
     ]
     order = sortkeys.by_deep_time
diff --git a/profiling/viewer.py b/profiling/viewer.py
index 04c2af8..ef40b55 100644
--- a/profiling/viewer.py
+++ b/profiling/viewer.py
@@ -177,7 +177,7 @@ class Formatter(object):
 
     @staticmethod
     def format_time(sec):
-        # width: 1~6 (most cases)
+        # width: 1~7
         # examples:
         # 0: 0
         # 0.000001: 1us
-- 
2.43.0


From ef1e4e95735447063f89327a4f0aeb0f3173d579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 34/42] fix: keep start and stop of the profiler out of the
 result

---
 profiling/__main__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 418a9b6..37f9dfa 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -548,8 +548,10 @@ def __profile__(filename, code, globals_, profiler_factory,
         traceback.print_exc()
     else:
         profiler.stop()
-    # discard this __profile__ function from the result.
-    profiler.stats.discard_child(frame.f_code)
+    # discard this __profile__ function and what it called from the result.
+    for code in [frame.f_code,
+                 profiler.start.__code__, profiler.stop.__code__]:
+        profiler.stats.discard_child(code)
     if dump_filename is None:
         try:
             profiler.run_viewer(get_title(filename), mono=mono)
-- 
2.43.0


From 21eeb9fd5913a9d1c314b581c44535bf919afd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 35/42] fix: stop the profiler if the statement fails while it
 is calibrated

---
 profiling/__main__.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 37f9dfa..1f47b8e 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -753,15 +753,14 @@ def timeit_profile(stmt, number, repeat, setup,
     if number is None:
         # determine number so that 0.2 <= total time < 2.0 like timeit.
         dummy_profiler = profiler_factory()
-        dummy_profiler.start()
-        for x in range(1, 10):
-            number = 10 ** x
-            t = time.time()
-            for y in range(number):
-                exec_(stmt, globals_)
-            if time.time() - t >= 0.2:
-                break
-        dummy_profiler.stop()
+        with dummy_profiler:
+            for x in range(1, 10):
+                number = 10 ** x
+                t = time.time()
+                for y in range(number):
+                    exec_(stmt, globals_)
+                if time.time() - t >= 0.2:
+                    break
         del dummy_profiler
     code = compile('for _ in range(%d): %s' % (number, stmt),
                    'STATEMENT', 'exec')
-- 
2.43.0


From e462536ed095d121168decad57382f1f9a2ffef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 36/42] fix: repeat the whole statement of timeit, not only its
 first line

---
 profiling/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 1f47b8e..fefca8f 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -762,7 +762,8 @@ def timeit_profile(stmt, number, repeat, setup,
                 if time.time() - t >= 0.2:
                     break
         del dummy_profiler
-    code = compile('for _ in range(%d): %s' % (number, stmt),
+    code = compile('for _ in range(%d):\n %s' %
+                   (number, stmt.replace('\n', '\n ')),
                    'STATEMENT', 'exec')
     __profile__(stmt, code, globals_, profiler_factory,
                 pickle_protocol=pickle_protocol, dump_filename=dump_filename,
-- 
2.43.0


From cea85f6863c8d35749c055203657ba7ae62ac1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 37/42] fix: find the modules beside the script

---
 profiling/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index fefca8f..4548ecf 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -497,6 +497,8 @@ def profiler_arguments(f):
                 script_filename, argv = argv[0], argv[1:]
             except IndexError:
                 raise click.UsageError('Script not specified')
+            # the modules beside a script are found first.
+            sys.path.insert(0, os.path.dirname(script_filename))
             script = Script().convert(script_filename, None, None)
         kwargs.update(script=script, argv=argv)
         return f(**kwargs)
-- 
2.43.0


From c61b58cebce66cf70847c4b237c9de771aeea84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:01 +0000
Subject: [PATCH 38/42] fix: let the live viewer notice that the program died

Both processes held both ends of the socket pair.  So there was no end of
file unless the program reached the shutdown() at its end, and the viewer
stayed active after os._exit() or a fatal signal.
---
 profiling/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 4548ecf..80db55f 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -608,6 +608,7 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
     pid = os.fork()
     if pid:
         # parent
+        child_sock.close()
         os.close(stderr_w_fd)
         viewer, loop = make_viewer(mono)
         # loop.screen._term_output_file = open(os.devnull, 'w')
@@ -639,6 +640,7 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
         sys.exit(exit_code)
     else:
         # child
+        parent_sock.close()
         os.close(stderr_r_fd)
         # mute stdin, stdout.
         devnull = os.open(os.devnull, os.O_RDWR)
-- 
2.43.0


From 8522ff62724336bdb096dd46e3244be926e66f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:01 +0000
Subject: [PATCH 39/42] fix: don't exit successfully if the live program was
 killed by a signal

---
 profiling/__main__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 80db55f..81f3951 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -629,7 +629,11 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
         w_pid, status = os.waitpid(pid, os.WNOHANG)
         if w_pid == 0:
             os.kill(pid, signal.SIGTERM)
-        exit_code = os.WEXITSTATUS(status)
+        if os.WIFSIGNALED(status):
+            # like shells do.
+            exit_code = 128 + os.WTERMSIG(status)
+        else:
+            exit_code = os.WEXITSTATUS(status)
         # print stderr of child.
         with os.fdopen(stderr_r_fd, 'r') as f:
             child_stderr = f.read()
-- 
2.43.0


From 1d8ae4258670f81d65a0c810699b925803aa74de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 40/42] fix: don't block the live program when it writes much
 to stderr

The pipe was read only after the viewer quit.  A program which wrote more
than fits into it was blocked until then, or forever if the command waited
for it.  Also bytes which cannot be decoded made the command fail.
---
 profiling/__main__.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index 81f3951..e56ef44 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -615,6 +615,16 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
         title = get_title(filename)
         client = ProfilingClient(viewer, loop.event_loop, parent_sock, title)
         client.start()
+        # drain stderr of child.  otherwise, the child blocks when the pipe is
+        # full.
+        child_stderr = []
+        def read_stderr():
+            data = os.read(stderr_r_fd, 65536)
+            child_stderr.append(data)
+            if not data:
+                loop.event_loop.remove_watch_file(stderr_handle)
+            return data
+        stderr_handle = loop.event_loop.watch_file(stderr_r_fd, read_stderr)
         try:
             loop.run()
         except KeyboardInterrupt:
@@ -635,11 +645,11 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
         else:
             exit_code = os.WEXITSTATUS(status)
         # print stderr of child.
-        with os.fdopen(stderr_r_fd, 'r') as f:
-            child_stderr = f.read()
-        if child_stderr:
-            sys.stdout.flush()
-            sys.stderr.write(child_stderr)
+        while read_stderr():
+            pass
+        os.close(stderr_r_fd)
+        sys.stdout.flush()
+        click.echo(b''.join(child_stderr), nl=False, err=True)
         # exit with exit code of child.
         sys.exit(exit_code)
     else:
-- 
2.43.0


From 5724d77e67fcbd05d369f1d6e8d289ccedb51a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:29 +0000
Subject: [PATCH 41/42] fix: keep the exit of the live program if its viewer is
 gone

If the server had disconnected the viewer, the error of shutdown() replaced
the exception or exit code of the program.
---
 profiling/__main__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/profiling/__main__.py b/profiling/__main__.py
index e56ef44..b3a8171 100644
--- a/profiling/__main__.py
+++ b/profiling/__main__.py
@@ -674,7 +674,11 @@ def live_profile(script, argv, profiler_factory, interval, spawn, signum,
             exec_(code, globals_)
         finally:
             os.close(stderr_w_fd)
-            child_sock.shutdown(socket.SHUT_WR)
+            try:
+                child_sock.shutdown(socket.SHUT_WR)
+            except socket.error:
+                # the server disconnected the viewer already.
+                pass
 
 
 @cli.command('remote-profile', aliases=['remote'], cls=ProfilingCommand)
-- 
2.43.0


From 50b834831820508fba257c6d148ec9a82076a098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:21 +0000
Subject: [PATCH 42/42] fix: do not merge functions of different files whose
 code is equal

---
 profiling/stats.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/profiling/stats.py b/profiling/stats.py
index 1705cb3..2d2e752 100644
--- a/profiling/stats.py
+++ b/profiling/stats.py
@@ -195,6 +195,13 @@ class Statistics(with_metaclass(StatisticsMeta)):
                 ''.format(class_name, name_string, hits_string, time_string))
 
 
+def child_key(code):
+    """Makes a key for a child of :class:`RecordingStatistics`.  Code objects
+    are equal if they do the same, even if they are from different files.
+    """
+    return (code, code and code.co_filename)
+
+
 class RecordingStatistics(Statistics):
     """Recordig statistics measures execution time of a code."""
 
@@ -239,23 +246,24 @@ class RecordingStatistics(Statistics):
         return list(self._children.values())
 
     def get_child(self, code):
-        return self._children[code]
+        return self._children[child_key(code)]
 
     def add_child(self, code, stats):
-        self._children[code] = stats
+        self._children[child_key(code)] = stats
 
     def remove_child(self, code):
-        del self._children[code]
+        del self._children[child_key(code)]
 
     def discard_child(self, code):
-        self._children.pop(code, None)
+        self._children.pop(child_key(code), None)
 
     def ensure_child(self, code, adding_stat_class=None):
-        stats = self._children.get(code)
+        key = child_key(code)
+        stats = self._children.get(key)
         stat_class = adding_stat_class or type(self)
         if stats is None:
             # another thread or a signal handler could add it meanwhile.
-            stats = self._children.setdefault(code, stat_class(code))
+            stats = self._children.setdefault(key, stat_class(code))
         if (isinstance(stats, VoidRecordingStatistics) and
             not issubclass(stat_class, VoidRecordingStatistics)):
             # the function was only seen as an absent frame so far, but now it
@@ -279,7 +287,7 @@ class RecordingStatistics(Statistics):
         return len(self._children)
 
     def __contains__(self, code):
-        return code in self._children
+        return child_key(code) in self._children
 
 
 class VoidRecordingStatistics(RecordingStatistics):
-- 
2.43.0

