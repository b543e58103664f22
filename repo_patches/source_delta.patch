From 46b0dd046561a27fb23508027538456d9036f78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 01/63] fix: Heap[-k] on a heap of exactly k values, and
 Heap()[-1], follow list indexing

---
 big/heap.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/big/heap.py b/big/heap.py
index 187902e..d860c84 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -140,13 +140,17 @@ class Heap:
         elif item == 0:
             return self._queue[0]
         elif item == -1:
+            if not self._queue:
+                raise IndexError("list index out of range")
             return max(self._queue)
         elif 0 < item < 10:
             l = nsmallest(item + 1, self._queue)
             return l[item]
         elif -10 < item < 0:
-            l = nlargest((-item) + 1, self._queue)
-            return l[item]
+            # nlargest returns the largest in reverse order,
+            # so the item'th-from-last value is the last one.
+            l = nlargest(-item, self._queue)
+            return l[-item - 1]
         l = sorted(self._queue)
         # __getitem__ on a list handles ints and slices!
         return l[item]
-- 
2.43.0


From 49c6e57f8825e687e978dcedea1689795c1a4b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 02/63] fix: repr() of an empty Heap no longer raises
 IndexError

---
 big/heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/heap.py b/big/heap.py
index d860c84..64ea882 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -59,7 +59,7 @@ class Heap:
 
     def __repr__(self):
         id_string = hex(id(self))[-6:]
-        return f"<Heap {id_string} len={len(self._queue)} first={self._queue[0]}>"
+        return f"<Heap {id_string} len={len(self._queue)} first={self._queue[0] if self._queue else None}>"
 
     def append(self, o):
         heappush(self._queue, o)
-- 
2.43.0


From f5040e207a941e4f8ca0063f00b29f32af777152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 03/63] fix: a Heap iterator is itself iterable

---
 big/heap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big/heap.py b/big/heap.py
index 64ea882..2253c9b 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -161,6 +161,9 @@ class Heap:
             self._copy = heap._queue.copy()
             self._version = heap._version
 
+        def __iter__(self):
+            return self
+
         def __next__(self):
             if self._version != self._heap._version:
                 raise RuntimeError("heap modified during iteration")
-- 
2.43.0


From 335071ffdeb1775178379f026cff46841868320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 04/63] fix: Heap.extend leaves the heap untouched if its
 iterable raises

---
 big/heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/heap.py b/big/heap.py
index 2253c9b..3d69d2c 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -75,7 +75,7 @@ class Heap:
         return copy
 
     def extend(self, i):
-        self._queue.extend(i)
+        self._queue.extend(list(i))
         heapify(self._queue)
         self._version += 1
 
-- 
2.43.0


From b8aa288740ebe5599d504bc68507d90997331668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 05/63] fix: PushbackIterator.__next__ no longer swallows
 errors from the wrapped iterator

---
 big/itertools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/itertools.py b/big/itertools.py
index e385373..6faef73 100644
--- a/big/itertools.py
+++ b/big/itertools.py
@@ -44,7 +44,7 @@ class PushbackIterator:
         if self.i:
             try:
                 return next(self.i)
-            except:
+            except StopIteration:
                 self.i = None
         raise StopIteration
 
-- 
2.43.0


From ae1e0225ec1ce492ed03cb864e76960f6a08f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 06/63] fix: PushbackIterator accepts wrapped iterators that
 are false in boolean context

---
 big/itertools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/big/itertools.py b/big/itertools.py
index 6faef73..29a8c8c 100644
--- a/big/itertools.py
+++ b/big/itertools.py
@@ -20,7 +20,7 @@ class PushbackIterator:
     __slots__ = ('i', 'stack')
 
     def __init__(self, iterable=None):
-        if (iterable != None) and (not hasattr(iterable, '__next__')):
+        if (iterable is not None) and (not hasattr(iterable, '__next__')):
             iterable = iter(iterable)
         self.i = iterable
         self.stack = []
@@ -41,7 +41,7 @@ class PushbackIterator:
     def __next__(self):
         if self.stack:
             return self.stack.pop()
-        if self.i:
+        if self.i is not None:
             try:
                 return next(self.i)
             except StopIteration:
@@ -57,7 +57,7 @@ class PushbackIterator:
         """
         if self.stack:
             return self.stack.pop()
-        if self.i:
+        if self.i is not None:
             try:
                 return next(self.i)
             except StopIteration:
@@ -67,7 +67,7 @@ class PushbackIterator:
     def __bool__(self):
         if self.stack:
             return True
-        if self.i:
+        if self.i is not None:
             try:
                 o = next(self.i)
                 self.push(o)
-- 
2.43.0


From c4774c6d226e90b73d994a555954da80ca35b5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 07/63] fix: Log.print prints the correct fraction for times of
 one second or more

---
 big/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/log.py b/big/log.py
index ef96c9c..f022eff 100644
--- a/big/log.py
+++ b/big/log.py
@@ -179,7 +179,7 @@ class Log:
         def format_time(t):
             assert t is not None
             seconds = t // 1_000_000_000
-            nanoseconds = f"{t - seconds:>09}"
+            nanoseconds = f"{t - (seconds * 1_000_000_000):>09}"
             nanoseconds = nanoseconds[:fractional_width]
             return f"{seconds:0{seconds_width}}.{nanoseconds}"
 
-- 
2.43.0


From e67ddd07179ef1d0f8fa49735315168ceb2ebef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 08/63] fix: StateManager calls the observers now in the list,
 not equal ones from an earlier transition

---
 big/state.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/big/state.py b/big/state.py
index 6bed7dc..32e4078 100644
--- a/big/state.py
+++ b/big/state.py
@@ -232,10 +232,8 @@ class StateManager:
             if on_exit is not None:
                 on_exit()
         if self.observers:
-            if self.observers != self._observers_copy:
-                self._observers_copy = list(self.observers)
-                self._observers_tuple = tuple(self.observers)
-            for o in self._observers_tuple:
+            # iterate over a snapshot: the list may be modified by an observer.
+            for o in tuple(self.observers):
                 o(self)
 
         self.__state = state
@@ -277,8 +275,6 @@ class StateManager:
         self.on_exit = on_exit
 
         self.observers = []
-        self._observers_copy = []
-        self._observers_tuple = ()
         self.state = state
 
     def __repr__(self):
-- 
2.43.0


From a7062dc1e6aaa273f4b415ef227a13031a7756eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 09/63] fix: TopologicalSorter.copy gives the copy its own
 registered views and the dirty flag

---
 big/graph.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/big/graph.py b/big/graph.py
index 8b1dc7d..29d4333 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -565,10 +565,12 @@ class TopologicalSorter:
             p, s = p_s
             clone.nodes[node] = [p, s.copy()]
 
-        clone._default_view = self._default_view.copy()
-        clone._default_view.graph = clone
-        clone._stock_view = self._stock_view.copy()
-        clone._stock_view.graph = clone
+        clone.dirty = self.dirty
+
+        # replace the views created by the constructor.
+        clone.views.clear()
+        clone._default_view = self.View(clone, original=self._default_view)
+        clone._stock_view = self.View(clone, original=self._stock_view)
 
         return clone
 
-- 
2.43.0


From fab6b93a961fc53e2315847e514695474c3349c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 10/63] fix: depending on a node that is already done no longer
 blocks the successor forever

---
 big/graph.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/big/graph.py b/big/graph.py
index 29d4333..05c9706 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -276,7 +276,7 @@ class TopologicalSorter:
             #   1__2__3
             # A|o* x  x
             # B|o* x  x
-            # C|o* o  o
+            # C|o  o  o
             #
             # o = ok!
             # x = not ok, view is incoherent.
@@ -291,7 +291,9 @@ class TopologicalSorter:
                 self._conflicts[node].add(successor)
                 self._reverse_conflicts[successor].add(node)
 
-            if successor not in self._done:
+            # if node is already done, successor doesn't have to wait for it.
+            # (nothing would ever decrement the count again.)
+            if conflict_1 and (successor not in self._done):
                 self._predecessors[successor] += 1
                 if self._predecessors[successor] == 1:
                     try:
-- 
2.43.0


From fbe2dd3bc021a735e5debf484e385d40551e3e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 11/63] fix: View.done counts a repeated node once, and does
 nothing if any node is invalid

---
 big/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/graph.py b/big/graph.py
index 05c9706..ff83fbb 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -213,6 +213,8 @@ class TopologicalSorter:
                     raise ValueError(f"node {node!r} was not added using add()")
                 if node not in self._yielded:
                     raise ValueError(f"node {node!r} was not passed out")
+            # all the nodes are valid; mark each one done, exactly once.
+            for node in dict.fromkeys(nodes):
                 # print("CALL _mark_node_done", node, self.graph.nodes[node])
                 self._mark_node_done(node, self.graph.nodes[node][1])
             nodes = set(nodes)
-- 
2.43.0


From b9252aae25e241bb3f7f093bf915a2ec9ca7ba5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 12/63] fix: TopologicalSorter.cycle explores each node once,
 instead of every path

---
 big/graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/big/graph.py b/big/graph.py
index ff83fbb..e80358a 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -626,6 +626,7 @@ class TopologicalSorter:
         # but this is Python and we could blow our stack.
         iterators = [iter(nodes)]
         seen = set()
+        finished = set()
         cycle = []
 
         while iterators:
@@ -637,6 +638,9 @@ class TopologicalSorter:
                 # marked 'done' yet, and the only thing we ever
                 # add to 'iterators' are successor nodes.
                 assert node not in done
+                if node in finished:
+                    # already explored, and it doesn't lead to a cycle.
+                    continue
                 if node in seen:
                     # found a cycle
                     index = cycle.index(node)
@@ -648,9 +652,10 @@ class TopologicalSorter:
                 iterators.append(iter(self.nodes[node][1]))
             except StopIteration:
                 # ascend
+                iterators.pop()
                 node = cycle.pop()
                 seen.remove(node)
-                iterators.pop()
+                finished.add(node)
 
     def check_for_cycles(self):
         """
-- 
2.43.0


From 34e5a2dec65d600b0f626109aaf7ae354020b35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:58 +0000
Subject: [PATCH 13/63] fix: ThreadSafeRegulator.wake also wakes threads that
 are just about to sleep

---
 big/scheduler.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/big/scheduler.py b/big/scheduler.py
index 7bf6617..a4f8616 100644
--- a/big/scheduler.py
+++ b/big/scheduler.py
@@ -173,11 +173,19 @@ class ThreadSafeRegulator(Regulator):
         return time.monotonic()
 
     def wake(self):
-        self.event.set()
-        self.event.clear()
+        # Replace the event, instead of setting then clearing it:
+        # a thread that fetched "sleep" from the old event, but
+        # hasn't started waiting yet, must be woken too.
+        event = self.event
+        self.event = threading.Event()
+        event.set()
 
-    def sleep(self, interval):
-        self.event.wait(interval)
+    @property
+    def sleep(self):
+        # Scheduler fetches sleep while holding the lock.
+        # That binds the sleep to the current event, which is
+        # set by any subsequent call to wake.
+        return self.event.wait
 
 
 DEFAULT_PRIORITY = 100
-- 
2.43.0


From 58fe1e051cb7a96df1c38fd20123ecfc82e04005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 14/63] fix: Version accepts and normalizes upper-case version
 strings

---
 big/version.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big/version.py b/big/version.py
index 6138dc7..13221df 100644
--- a/big/version.py
+++ b/big/version.py
@@ -170,7 +170,8 @@ class Version:
             if not isinstance(s, str):
                 raise ValueError("you must specify either a version string or explicit keyword arguments")
 
-            match = _re_parse_version(s)
+            # PEP 440: versions are case-insensitive, and normalize to lowercase.
+            match = _re_parse_version(s.lower())
             if not match:
                 raise ValueError(f"invalid version initializer {s!r}") from None
 
-- 
2.43.0


From 879bc7ee8bdd05b718dd0b50084446d6a3a35ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:10 +0000
Subject: [PATCH 15/63] fix: Version('1.0.dev') and Version('1.0.post') have an
 implicit dev or post number of 0

---
 big/version.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/big/version.py b/big/version.py
index 13221df..524b85e 100644
--- a/big/version.py
+++ b/big/version.py
@@ -231,6 +231,9 @@ class Version:
             elif post_n2 is not None:
                 assert post_l is not None
                 post = post_n2
+            elif post_l is not None:
+                # PEP 440, "Implicit post release number"
+                post = 0
             else:
                 post = None
 
@@ -240,6 +243,9 @@ class Version:
             dev = get('dev_n')
             if dev is not None:
                 assert dev_l is not None
+            elif dev_l is not None:
+                # PEP 440, "Implicit development release number"
+                dev = 0
             dev = int(dev) if dev is not None else None
 
             local = original_local = get('local')
-- 
2.43.0


From a05b69badb01ade9b54071c8694eb70917913554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 16/63] fix: equal Version objects hash equal

---
 big/version.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/big/version.py b/big/version.py
index 524b85e..1c19e5a 100644
--- a/big/version.py
+++ b/big/version.py
@@ -359,15 +359,8 @@ class Version:
 
 
     def __hash__(self):
-        return (
-            hash(self._epoch)
-            ^ hash(self._release)
-            ^ hash(self._release_level)
-            ^ hash(self._serial)
-            ^ hash(self._post)
-            ^ hash(self._dev)
-            ^ hash(self._local)
-            )
+        # must agree with __eq__.
+        return hash(self._tuple)
 
     @property
     def epoch(self):
-- 
2.43.0


From af0967aab551604fe3761c9f6b5af9d0c1d88b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 17/63] fix: Version(release=...) strips trailing zeroes too

---
 big/version.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/big/version.py b/big/version.py
index 1c19e5a..424b750 100644
--- a/big/version.py
+++ b/big/version.py
@@ -200,13 +200,7 @@ class Version:
             epoch = get('epoch')
             epoch = int(epoch) if epoch is not None else None
 
-            release = [int(_) for _ in get('release').split('.')]
-            # if S is a release string, and T is S+".0",
-            # S and T represent the same version.
-            # so, let's clip off all trailing zero elements on release.
-            while (len(release) > 1) and (not release[-1]):
-                release.pop()
-            release = tuple(release)
+            release = tuple(int(_) for _ in get('release').split('.'))
 
             release_level = get('pre_l')
             if release_level is None:
@@ -252,6 +246,12 @@ class Version:
             if local is not None:
                 local = tuple(local.replace('-', '.').replace('_', '.').split('.'))
 
+        # if S is a release string, and T is S+".0",
+        # S and T represent the same version.
+        # so, let's clip off all trailing zero elements on release.
+        while (len(release) > 1) and (not release[-1]):
+            release = release[:-1]
+
         if local:
             # if local is true, it's an iterable of strings.
             # convert elements to ints where possible, leave as strings otherwise.
-- 
2.43.0


From 7e986e93293d0ecf789f9a9dd1d2bf50fb158263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:38 +0000
Subject: [PATCH 18/63] fix: multistrip only strips at the very end of the
 string, not before a trailing newline

---
 big/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index 58c5e8d..b346dc4 100644
--- a/big/text.py
+++ b/big/text.py
@@ -896,7 +896,7 @@ def multistrip(s, separators, left=True, right=True):
     if is_bytes:
         s_type = bytes
         head = b'^'
-        tail = b'$'
+        tail = b'\\Z'
 
         if isinstance(separators, str):
             raise TypeError("separators must be an iterable of non-empty objects the same type as s")
@@ -911,7 +911,7 @@ def multistrip(s, separators, left=True, right=True):
     else:
         s_type = str
         head = '^'
-        tail = '$'
+        tail = '\\Z'
 
         if isinstance(separators, bytes):
             raise TypeError("separators must be an iterable of non-empty objects the same type as s")
-- 
2.43.0


From 12ae7454fc9c1610a3e8aa03aa58cee9b57bcd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 19/63] fix: multisplit accepts an iterator of separators

---
 big/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/text.py b/big/text.py
index b346dc4..b96d174 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1250,6 +1250,8 @@ def multisplit(s, separators=None, *,
     if check_separators:
         if not hasattr(separators, '__iter__'):
             raise TypeError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
+        # (separators may be an iterator, which we can only iterate over once.)
+        separators = tuple(separators)
         for o in separators:
             if not isinstance(o, s_type):
                 raise TypeError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
-- 
2.43.0


From 64fdc179d4925705f6a8a2a5d437fb37a150b906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 20/63] fix: multisplit treats maxsplit=None and every negative
 maxsplit as unlimited

---
 big/text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big/text.py b/big/text.py
index b96d174..c2a113d 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1258,6 +1258,10 @@ def multisplit(s, separators=None, *,
 
     separators_to_re_keep = keep
 
+    # None, and all negative numbers, mean there's no maximum.
+    if (maxsplit is None) or (maxsplit < 0):
+        maxsplit = -1
+
     if strip:
         if strip == PROGRESSIVE:
             if maxsplit == -1:
-- 
2.43.0


From 49c2611ecf5b2c3c7ce05b101a9a5a83fcc08c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:56 +0000
Subject: [PATCH 21/63] fix: re_partition and re_rpartition partition at the
 match, not at the first equal text

---
 big/text.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/big/text.py b/big/text.py
index c2a113d..a458b94 100644
--- a/big/text.py
+++ b/big/text.py
@@ -441,8 +441,7 @@ def re_partition(s, pattern, count=1, *, flags=0, reverse=False):
         match = pattern.search(s)
         if not match:
             return (s, None, empty)
-        before, separator, after = s.partition(match.group(0))
-        return (before, match, after)
+        return (s[:match.start()], match, s[match.end():])
 
     if count == 0:
         return (s,)
@@ -453,17 +452,18 @@ def re_partition(s, pattern, count=1, *, flags=0, reverse=False):
     result = []
     extend = result.extend
     matches_iterator = pattern.finditer(s)
+    start = 0
 
     try:
         for remaining in range(count, 0, -1):
             match = next(matches_iterator)
-            before, separator, s = s.partition(match.group(0))
-            extend((before, match))
+            extend((s[start:match.start()], match))
+            start = match.end()
         extension = ()
     except StopIteration:
         extension *= remaining
 
-    result.append(s)
+    result.append(s[start:])
     return tuple(result) + extension
 
 
@@ -787,8 +787,7 @@ def re_rpartition(s, pattern, count=1, *, flags=0):
         matches_iterator = reversed_re_finditer(pattern, s, flags)
         try:
             match = next(matches_iterator)
-            before, separator, after = s.rpartition(match.group(0))
-            return (before, match, after)
+            return (s[:match.start()], match, s[match.end():])
         except StopIteration:
             return (empty, None, s)
 
@@ -801,17 +800,18 @@ def re_rpartition(s, pattern, count=1, *, flags=0):
     result = []
     extend = result.extend
     matches_iterator = reversed_re_finditer(pattern, s, flags)
+    end = len(s)
 
     try:
         for remaining in range(count, 0, -1):
             match = next(matches_iterator)
-            s, separator, after = s.rpartition(match.group(0))
-            extend((after, match))
+            extend((s[match.end():end], match))
+            end = match.start()
         extension = ()
     except StopIteration:
         extension *= remaining
 
-    result.append(s)
+    result.append(s[:end])
     result.reverse()
     return extension + tuple(result)
 
-- 
2.43.0


From 78cadc3177efd8ef7ad859dbb56be30d07747199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 22/63] fix: split_quoted_strings honors escaped multiline
 quotes

---
 big/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index a458b94..9a1029e 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2129,8 +2129,8 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
 
     # and also all escaped quote marks.
     if escape:
-        for first_character in {q[0:] for q in quotes}:
-            separators.append(escape + first_character)
+        for quote in all_quotes_set:
+            separators.append(escape + quote)
         separators.append(escape + escape)
 
     # help multisplit work better--it memoizes the conversion to a regular expression
-- 
2.43.0


From b18e7b104467f3a30942a3b32f9fd47bbd0eaf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 23/63] fix: split_quoted_strings no longer drops an opening
 quote at the very end of the string

---
 big/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big/text.py b/big/text.py
index 9a1029e..148534f 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1923,7 +1923,8 @@ def split_quoted_strings(s, separators, all_quotes_set, quotes, multiline_quotes
         buffer.clear()
         quote = empty
 
-    if buffer:
+    # (an opening quote at the very end of s is also an unterminated quoted string.)
+    if buffer or (quote and not state):
         text = empty.join(buffer)
         if text or quote:
             if quote and text and (quote not in multiline_quotes):
-- 
2.43.0


From 7a1e7c9bcfb892d87efa5b3888c0c5d2152f95ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 24/63] fix: split_delimiters accounts for flushed delimiters
 when it splits the rest of the text again

---
 big/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/big/text.py b/big/text.py
index 148534f..8524fee 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2644,6 +2644,7 @@ def split_delimiters(text, all_tokens, current, stack, empty, laden, str_or_byte
                 consumed += len(delimiter)
             elif action is _ACTION_FLUSH:
                 append(delimiter)
+                consumed += len(delimiter)
             elif action is _ACTION_FLUSH_1_AND_RESPLIT:
                 # flush first character of delimiter, and resplit.
                 append(delimiter[0:1])
-- 
2.43.0


From f4baed9733131b878f07ab9e85ba690ffa6b9e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 25/63] fix: lines_strip_indent accepts dedenting several
 levels to an enclosing indent

---
 big/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index 8524fee..9f025a8 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3651,8 +3651,8 @@ def lines_strip_indent(li):
             indent -= 1
             while leadings:
                 l = leadings[-1]
-                if l >= column_number:
-                    if l > column_number:
+                if l <= column_number:
+                    if l < column_number:
                         leadings.clear()
                     break
                 leadings.pop()
-- 
2.43.0


From 8c26d9c21672a136ada16e891ecb30d42aa16fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 26/63] fix: wrap_words honors two_spaces=False

---
 big/text.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big/text.py b/big/text.py
index 9f025a8..f918852 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3751,13 +3751,13 @@ def wrap_words(words, margin=79, *, two_spaces=True):
             if isinstance(word, bytes):
                 empty = lastword = b''
                 sentence_ending_punctuation = (b'.', b'?', b'!')
-                two_spaces = b'  '
+                sentence_space = b'  '
                 one_space = b' '
                 newline = b'\n'
             else:
                 empty = lastword = ''
                 sentence_ending_punctuation = ('.', '?', '!')
-                two_spaces = '  '
+                sentence_space = '  '
                 one_space = ' '
                 newline = '\n'
 
@@ -3770,7 +3770,7 @@ def wrap_words(words, margin=79, *, two_spaces=True):
         l = len(word)
 
         if two_spaces and lastword.endswith(sentence_ending_punctuation):
-            space = two_spaces
+            space = sentence_space
             len_space = 2
         else:
             space = one_space
-- 
2.43.0


From 01bfc0a4ada8f5c557ac9c98856fc59eb6082f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:12 +0000
Subject: [PATCH 27/63] fix: lines_strip with separators splits the line
 exactly where it was stripped

---
 big/text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/big/text.py b/big/text.py
index f918852..250e1a9 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3176,7 +3176,9 @@ def lines_strip(li, separators=None):
             if line:
                 stripped = multistrip(line, separators)
                 if stripped:
-                    leading, _, trailing = line.partition(stripped)
+                    lstripped = multistrip(line, separators, right=False)
+                    leading = line[:len(line) - len(lstripped)]
+                    trailing = lstripped[len(stripped):]
                 else:
                     trailing = line
 
-- 
2.43.0


From 6c4b676f64c28aa0f8c5271cfbb21b4e953b0109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 28/63] fix: LineInfo clip methods keep column_number correct
 when leading text contains tabs

---
 big/text.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/big/text.py b/big/text.py
index 250e1a9..1052a75 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2917,7 +2917,7 @@ class LineInfo:
             # (minus end)
             assert self.line.endswith(self.end)
             empty = self._empty
-            self.column_number -= len(self.leading)
+            self.column_number -= len(self.detab(self.leading))
             if self.end:
                 self.trailing = self.line[:-len(self.end)]
             else:
@@ -2926,9 +2926,10 @@ class LineInfo:
             return empty
         if s is None:
             s = l[:i]
+        # detab *all* the leading text.  how wide a tab is depends
+        # on what precedes it, which may have been clipped already.
+        length = len(self.detab(self.leading + s)) - len(self.detab(self.leading))
         self.leading += s
-        detabbed = self.detab(s)
-        length = len(detabbed)
         self.column_number += length
         return line
 
@@ -2958,7 +2959,7 @@ class LineInfo:
             # if you clip the entire line, we move the entire line into trailing (minus end)
             assert self.line.endswith(self.end)
             empty = self._empty
-            self.column_number -= len(self.leading)
+            self.column_number -= len(self.detab(self.leading))
             if self.end:
                 self.trailing = self.line[:-len(self.end)]
             else:
-- 
2.43.0


From 71ca12a7a7b1acc16b93668a251aef7f5d601a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 29/63] fix: gently_title capitalizes the word after a
 one-letter word O or D, or a lone quote mark

---
 big/text.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/big/text.py b/big/text.py
index 1052a75..b2624b3 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1719,17 +1719,24 @@ def gently_title(s, *, apostrophes=None, double_quotes=None):
                 else:
                     state = _in_word
         elif state == _after_whitespace_then_apostrophe_or_double_quote:
-            if not (is_apostrophe or is_double_quote):
+            if is_space:
+                state = _after_whitespace
+            elif not (is_apostrophe or is_double_quote):
                 c = c.upper()
                 state = _in_word
         elif state == _after_whitespace_then_D_or_O:
-            if is_apostrophe:
+            if is_space:
+                state = _after_whitespace
+            elif is_apostrophe:
                 state = _after_whitespace_then_D_or_O_then_apostrophe
             else:
                 state = _in_word
         elif state == _after_whitespace_then_D_or_O_then_apostrophe:
-            c = c.upper()
-            state = _in_word
+            if is_space:
+                state = _after_whitespace
+            else:
+                c = c.upper()
+                state = _in_word
         result.append(c)
     return empty.join(result)
 
-- 
2.43.0


From 28ae68a1c28fcb6f72d3bc63449fa9d5c0b2393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 30/63] fix: merge_columns ignores trailing whitespace on lines
 when it pads a column

---
 big/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/big/text.py b/big/text.py
index b2624b3..f6a2832 100644
--- a/big/text.py
+++ b/big/text.py
@@ -4283,6 +4283,7 @@ def merge_columns(*columns, column_separator=None,
         in_overflow = False
         next_overflow()
         for line_number, line in enumerate(lines):
+            line = rstripped_lines[line_number]
             if line_number > overflow_end:
                 in_overflow = False
                 next_overflow()
-- 
2.43.0


From 2cf29f1618fcb53962476b9e0df59d040bd5ee53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:05 +0000
Subject: [PATCH 31/63] fix: split_text_with_code handles text following code,
 then more code

---
 big/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/text.py b/big/text.py
index f6a2832..24c8a3e 100644
--- a/big/text.py
+++ b/big/text.py
@@ -4013,6 +4013,8 @@ class _column_wrapper_splitter:
 
         if self.previous_paragraph == _code_paragraph:
             self.paragraph_break()
+            # the paragraph break replaces the pending line breaks.
+            self.code.clear()
         self.state = self.state_text_line_start
         self.state(leading, word)
 
-- 
2.43.0


From 5944b4f4fe108934036944285acadb6ea8fe4bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 32/63] fix: split_text_with_code keeps a final line of code
 that doesn't end with a newline

---
 big/text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big/text.py b/big/text.py
index 24c8a3e..c41b65e 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3956,6 +3956,10 @@ class _column_wrapper_splitter:
             self.state(empty.join(self.leading), empty.join(self.word))
             self.leading.clear()
             self.word.clear()
+        # flush the current code line, if any.
+        if self.state == self.state_in_code_line:
+            self.emit(self.empty.join(self.code))
+            self.code.clear()
 
     def state_paragraph_start(self, leading, word):
         """
-- 
2.43.0


From d6463533db296309dc7a419e31ea717704ebe592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 33/63] fix: the number conversion functions handle infinities,
 NaNs, and ints too large for a float

---
 big/builtin.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/big/builtin.py b/big/builtin.py
index 7cca96a..5d98bcd 100644
--- a/big/builtin.py
+++ b/big/builtin.py
@@ -48,7 +48,7 @@ def try_float(o):
     try:
         float(o)
         return True
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         return False
 
 @export
@@ -60,7 +60,7 @@ def try_int(o):
     try:
         int(o)
         return True
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         return False
 
 _sentinel = object()
@@ -75,7 +75,7 @@ def get_float(o, default=_sentinel):
     """
     try:
         return float(o)
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         if default != _sentinel:
             return default
         return o
@@ -90,7 +90,7 @@ def get_int(o, default=_sentinel):
     """
     try:
         return int(o)
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         if default != _sentinel:
             return default
         return o
@@ -113,18 +113,22 @@ def get_int_or_float(o, default=_sentinel):
     if isinstance(o, int):
         return o
     if isinstance(o, float):
-        int_o = int(o)
+        try:
+            int_o = int(o)
+        except (OverflowError, ValueError):
+            # o is an infinity or a NaN
+            return o
         if int_o == o:
             return int_o
         return o
     try:
         return int(o)
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         try:
             # if you pass in the *string* "0.0",
             # this will return 0, not 0.0.
             return get_int_or_float(float(o))
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OverflowError):
             if default != _sentinel:
                 return default
             return o
-- 
2.43.0


From e6ca49718e014048fc0307d8f645dd1fbba48540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 34/63] fix: the deprecated split_quoted_strings handles a
 quote mark at the end of the string

---
 big/deprecated.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/big/deprecated.py b/big/deprecated.py
index 84ec58f..2d67ed6 100644
--- a/big/deprecated.py
+++ b/big/deprecated.py
@@ -153,10 +153,11 @@ def split_quoted_strings(s, quotes=None, *, triple_quotes=True, backslash=None):
                 in_quote = c
                 continue
             # scan for triple quotes.
-            c2 = next(i)
+            c2 = i.next(None)
             if c2 != c:
                 # only a single quote mark. flush unquoted string, start quoted string.
-                i.push(c2)
+                if c2 is not None:
+                    i.push(c2)
                 if text:
                     yield False, empty_join(text)
                     text.clear()
-- 
2.43.0


From f30bb7b4c09a18e1f39d8dfe0ecdf14984b2d517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:24 +0000
Subject: [PATCH 35/63] fix: multistrip no longer takes exponential time when
 separators overlap (even \r, \n and \r\n)

---
 big/text.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/big/text.py b/big/text.py
index c41b65e..0579337 100644
--- a/big/text.py
+++ b/big/text.py
@@ -896,7 +896,6 @@ def multistrip(s, separators, left=True, right=True):
     if is_bytes:
         s_type = bytes
         head = b'^'
-        tail = b'\\Z'
 
         if isinstance(separators, str):
             raise TypeError("separators must be an iterable of non-empty objects the same type as s")
@@ -911,7 +910,6 @@ def multistrip(s, separators, left=True, right=True):
     else:
         s_type = str
         head = '^'
-        tail = '\\Z'
 
         if isinstance(separators, bytes):
             raise TypeError("separators must be an iterable of non-empty objects the same type as s")
@@ -948,9 +946,12 @@ def multistrip(s, separators, left=True, right=True):
             start = left_match.end(0)
             s = s[start:]
     if right:
-        right_match = re.search(pattern + tail, s)
+        # match the reversed string.  (searching s for pattern + '\\Z'
+        # would take exponential time if separators overlap.)
+        pattern = __separators_to_re(_multisplit_reversed(separators, 'separators'), is_bytes, separate=False, keep=False)
+        right_match = re.match(head + pattern, _multisplit_reversed(s, 's'))
         if right_match:
-            end = right_match.start(0)
+            end = len(s) - right_match.end(0)
             s = s[:end]
     return s
 
-- 
2.43.0


From 93b0b39749ca6710f77b964b46441d1562d9fc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:03 +0000
Subject: [PATCH 36/63] fix: multisplit and multipartition never return
 instances of a subclass of str or bytes

---
 big/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big/text.py b/big/text.py
index 0579337..e4771d4 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1257,6 +1257,9 @@ def multisplit(s, separators=None, *,
             if not isinstance(o, s_type):
                 raise TypeError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
 
+    # always yield str or bytes objects, never instances of a subclass.
+    s = empty.join((s,))
+
     separators_to_re_keep = keep
 
     # None, and all negative numbers, mean there's no maximum.
-- 
2.43.0


From bc78fd14471078128ff56cbff0f8df7a3015a792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:59 +0000
Subject: [PATCH 37/63] fix: re_partition and re_rpartition never return
 instances of a subclass of str or bytes

---
 big/text.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/big/text.py b/big/text.py
index e4771d4..9264478 100644
--- a/big/text.py
+++ b/big/text.py
@@ -433,6 +433,10 @@ def re_partition(s, pattern, count=1, *, flags=0, reverse=False):
         empty = ''
         extension = (None, '')
 
+    # always return str or bytes objects, never instances of a subclass.
+    if isinstance(s, (str, bytes)):
+        s = empty.join((s,))
+
     if not isinstance_re_pattern(pattern):
         pattern = re.compile(pattern, flags=flags)
 
@@ -782,6 +786,10 @@ def re_rpartition(s, pattern, count=1, *, flags=0):
         empty = ''
         extension = ('', None)
 
+    # always return str or bytes objects, never instances of a subclass.
+    if isinstance(s, (str, bytes)):
+        s = empty.join((s,))
+
     # optimized fast path for the most frequent use case
     if count == 1:
         matches_iterator = reversed_re_finditer(pattern, s, flags)
-- 
2.43.0


From 46b6b8d686963d9aed1c56315c154247bb10fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:11 +0000
Subject: [PATCH 38/63] fix: split_quoted_strings closes a string at its own
 quote mark, even where a longer quote mark starts

---
 big/text.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/big/text.py b/big/text.py
index 9264478..b6ecf1d 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1905,7 +1905,21 @@ def split_quoted_strings(s, separators, all_quotes_set, quotes, multiline_quotes
 
     quote = state
     # print(f"    >> {state=}")
-    for pair in multisplit(s, separators, keep=AS_PAIRS, separate=True):
+    def pairs():
+        # yields (literal, separator) pairs.
+        # inside a quoted string, only its own quote mark counts
+        # (and the escapes), even if another quote mark starts with it.
+        start = 0
+        while True:
+            pattern = _separators_to_re(separators[quote], isinstance(s, bytes), separate=True)
+            match = re.compile(pattern).search(s, start)
+            if not match:
+                yield s[start:], empty
+                return
+            yield s[start:match.start()], match.group(0)
+            start = match.end()
+
+    for pair in pairs():
         # print(f"    >> {pair}  -- {quote=}")
         literal, separator = pair
 
@@ -2143,18 +2157,19 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
             s = ', '.join(repr(_) for _ in in_both_quotes_sets)
         raise ValueError(f"{s} appears in both quotes and multiline_quotes")
 
-    # separators is a list containing all quote marks,
-    separators = list(quotes_set)
-    separators.extend(multiline_quotes_set)
+    # separators maps the current quote mark to all separators recognized then.
+    # outside quotes (empty), that's all the quote marks; inside quotes, just the current one.
+    separators = {quote: [quote] for quote in all_quotes_set}
+    separators[empty] = list(all_quotes_set)
 
     # and also all escaped quote marks.
-    if escape:
-        for quote in all_quotes_set:
-            separators.append(escape + quote)
-        separators.append(escape + escape)
+    for recognized in separators.values():
+        if escape:
+            recognized.extend([escape + quote for quote in recognized])
+            recognized.append(escape + escape)
 
-    # help multisplit work better--it memoizes the conversion to a regular expression
-    separators.sort()
+        # help _separators_to_re work better--it memoizes the conversion to a regular expression
+        recognized.sort()
 
     return _split_quoted_strings(s, separators, all_quotes_set, quotes_set, multiline_quotes_set, empty, laden, state)
 
-- 
2.43.0


From 8bb7ade653785d6664a8ff7b2c3f766793cb7480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:28 +0000
Subject: [PATCH 39/63] fix: deprecated parse_delimiters raises ValueError, not
 TypeError, for unclosed delimiters in bytes

---
 big/deprecated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big/deprecated.py b/big/deprecated.py
index 2d67ed6..23458f1 100644
--- a/big/deprecated.py
+++ b/big/deprecated.py
@@ -367,7 +367,7 @@ def parse_delimiters(s, delimiters, backslash_character, closers, empty):
     if len(stack):
         stack.pop(0)
         stack.append(d)
-        raise ValueError("s does not close all opened delimiters, needs " + " ".join(d.close for d in reversed(stack)))
+        raise ValueError("s does not close all opened delimiters, needs " + " ".join(repr(d.close) for d in reversed(stack)))
 
     if text:
         yield flush(empty, empty)
@@ -448,7 +448,7 @@ def parse_delimiters(s, delimiters=None):
     disallowed = {disallowed_delimiters}
     illegal_delimiters = disallowed & delimiter_characters
     if illegal_delimiters:
-        raise ValueError("illegal delimiters used: " + "".join(illegal_delimiters))
+        raise ValueError("illegal delimiters used: " + " ".join(repr(d) for d in illegal_delimiters))
 
     # closers is a set of closing delimiters *only*.
     # if open and close delimiters are the same (e.g. quote marks)
@@ -464,7 +464,7 @@ def parse_delimiters(s, delimiters=None):
             closers.add(d.close)
 
     if repeated:
-        raise ValueError("these opening delimiters were used multiple times: " + " ".join(repeated))
+        raise ValueError("these opening delimiters were used multiple times: " + " ".join(repr(d) for d in repeated))
 
     return _parse_delimiters(s, delimiters, backslash_character, closers, empty)
 
-- 
2.43.0


From 52b30a749f1f5609af638b91aaf1dbbffdc07700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 40/63] fix: combine_splits always raises ValueError for a
 split array longer than the string

---
 big/text.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/big/text.py b/big/text.py
index b6ecf1d..a3fe380 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1491,6 +1491,12 @@ def combine_splits(s, split_lengths):
     "The generator function returned by the public combine_splits function."
     split_lengths_pop = split_lengths.pop
 
+    # check, did they try to split past the end?
+    # (a shorter split array could use up all of s before we'd notice.)
+    for lengths in split_lengths:
+        if sum(lengths) > len(s):
+            raise ValueError("split array is longer than the original string")
+
     pops = 0
 
     heap_pop = heapq.heappop
@@ -1502,11 +1508,6 @@ def combine_splits(s, split_lengths):
             index = smallest[0]
 
             snippet = s[:index]
-            if snippet == s:
-                # check, did they try to split past the end?
-                if index > len(s):
-                    raise ValueError("split array is longer than the original string")
-
             yield snippet
             s = s[index:]
             if not s:
@@ -1541,11 +1542,8 @@ def combine_splits(s, split_lengths):
 
     if split_lengths:
         start = end = 0
-        length = len(s)
         for index in split_lengths[0]:
             end += index
-            if end > length:
-                raise ValueError("split array is longer than the original string")
             yield s[start:end]
             start += index
         s = s[end:]
-- 
2.43.0


From 70e18a78b1db985efc0d748eef3a1ef4ae37861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 41/63] fix: Version normalizes and fully validates the local
 segments passed in as a keyword argument

---
 big/version.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/big/version.py b/big/version.py
index 424b750..49760ae 100644
--- a/big/version.py
+++ b/big/version.py
@@ -91,7 +91,7 @@ _re_parse_version = re.compile(VERSION_PATTERN, re.VERBOSE | re.IGNORECASE).matc
 
 del VERSION_PATTERN
 
-_re_is_valid_local_segment = re.compile("^[A-Za-z0-9]+$").match
+_re_is_valid_local_segment = re.compile("[A-Za-z0-9]+").fullmatch
 
 
 
@@ -144,6 +144,9 @@ class Version:
 
             if not ((local is None) or (isinstance(local, tuple) and local and all(isinstance(element, str) and element and _re_is_valid_local_segment(element) for element in local))):
                 raise ValueError(f"local must be None or a tuple of length 1+ containing only non-empty strings of letters and digits, not {local!r}")
+            if local is not None:
+                # PEP 440: versions are case-insensitive, and normalize to lowercase.
+                local = tuple(element.lower() for element in local)
 
         else:
             if (
-- 
2.43.0


From 74388b7e6d9744c09fc85b777828b92e877e1a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 42/63] fix: Version accepts the documented release_level
 values 'a' and 'b'

---
 big/version.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big/version.py b/big/version.py
index 49760ae..8138796 100644
--- a/big/version.py
+++ b/big/version.py
@@ -128,6 +128,9 @@ class Version:
             original_release_level = release_level
             if release_level is None:
                 release_level = 'final'
+            elif isinstance(release_level, str):
+                # 'a' and 'b' are documented, and a version string accepts all of these
+                release_level = _release_level_normalize.get(release_level, release_level)
             if not (release_level in _release_level_allowed_values):
                 raise ValueError(f"release_level {release_level!r} must be one of 'alpha', 'beta', 'rc', 'final', or None")
 
-- 
2.43.0


From 628aaef9a38b4d7348f36631c53ed68b86438a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:33 +0000
Subject: [PATCH 43/63] fix: Version raises ValueError for a serial number
 without a release level

---
 big/version.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big/version.py b/big/version.py
index 8138796..bee9546 100644
--- a/big/version.py
+++ b/big/version.py
@@ -138,6 +138,9 @@ class Version:
                 serial = 0
             elif not (isinstance(serial, int) and (serial >= 0)):
                 raise ValueError(f"serial must be non-negative int or None, not {serial!r}")
+            elif serial and (release_level == 'final'):
+                # there's no such version; its str and repr couldn't be parsed
+                raise ValueError("serial requires a release_level")
 
             if not ((post is None) or (isinstance(post, int) and (post >= 0))):
                 raise ValueError(f"post must be non-negative int or None, not {post!r}")
-- 
2.43.0


From 023828d6118f733efc41e52671b9f05333803659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 44/63] fix: accessing a bound inner class using super() or an
 alias doesn't replace the cached class

---
 big/boundinnerclass.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/big/boundinnerclass.py b/big/boundinnerclass.py
index 3540750..5efd2ce 100644
--- a/big/boundinnerclass.py
+++ b/big/boundinnerclass.py
@@ -93,6 +93,12 @@ class _Worker(object):
 
         name = self.cls.__name__
 
+        # We've already been accessed through outer, if we were accessed
+        # using an alias, or using super().
+        cache_name = self._cache_name(outer, name)
+        if cache_name in outer.__dict__:
+            return outer.__dict__[cache_name]
+
         wrapper_bases = [self.cls]
 
         # Iterate over cls's bases, and look in outer,
@@ -135,9 +141,31 @@ class _Worker(object):
         # Cache the bound instance in outer's dict.
         # This also means that future requests for us won't call our
         # __get__ again, it'll automatically use the cached copy.
-        outer.__dict__[name] = Wrapper
+        Wrapper._bound_by = self
+        outer.__dict__[cache_name] = Wrapper
         return Wrapper
 
+    def _cache_name(self, outer, name):
+        """
+        Returns the name to use in outer's dict to cache the bound inner class.
+        That's our own name--unless that's somebody else's name in outer,
+        which it is when we've been overridden in a subclass of the outer
+        class, and somebody accessed us using super().
+        """
+        mine = outer.__dict__.get(name)
+        if mine is None:
+            for cls in type(outer).__mro__:
+                if name in cls.__dict__:
+                    mine = cls.__dict__[name]
+                    break
+            else:
+                return name
+            if mine is self:
+                return name
+        elif getattr(mine, '__dict__', {}).get('_bound_by') is self:
+            return name
+        return f"{self.cls.__qualname__} {id(self)}"
+
 
 class BoundInnerClass(_Worker):
     """
-- 
2.43.0


From a4b94c7bc3c6a5cb3ac39697df7281b73f44b941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:33 +0000
Subject: [PATCH 45/63] fix: a bound inner class without its own __init__
 doesn't skip other classes' __init__

---
 big/boundinnerclass.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/big/boundinnerclass.py b/big/boundinnerclass.py
index 5efd2ce..439ab95 100644
--- a/big/boundinnerclass.py
+++ b/big/boundinnerclass.py
@@ -138,6 +138,17 @@ class _Worker(object):
         if multiply_inherit:
             Wrapper.__bases__ = tuple(wrapper_bases)
 
+            # If cls doesn't define __init__, and the __init__ it inherits is
+            # in a bound inner class, that one passes in outer.  We must not
+            # call cls.__init__ ourselves: it'd skip over the __init__ of any
+            # class that's between the two in a subclass's MRO.
+            if '__init__' not in self.cls.__dict__:
+                for base in Wrapper.__mro__[1:]:
+                    if '__init__' in base.__dict__:
+                        if ('__init__' in Wrapper.__dict__) and ('_bound_by' in base.__dict__):
+                            del Wrapper.__init__
+                        break
+
         # Cache the bound instance in outer's dict.
         # This also means that future requests for us won't call our
         # __get__ again, it'll automatically use the cached copy.
-- 
2.43.0


From 7c16ea35762172a3f1e2ae69f2c5972d55a9d397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:33 +0000
Subject: [PATCH 46/63] fix: timestamps: honor the timezone a struct_time
 states (UTC, or an explicit offset)

---
 big/time.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/big/time.py b/big/time.py
index 4212e19..97225ca 100644
--- a/big/time.py
+++ b/big/time.py
@@ -43,6 +43,16 @@ def export(o):
 
 
 
+def _struct_time_to_timestamp(t):
+    # prefer what t itself says about its timezone.
+    # a struct_time that doesn't say is in local time.
+    if t.tm_gmtoff is not None:
+        return calendar.timegm(t) - t.tm_gmtoff
+    if t.tm_zone in ("GMT", "UTC"):
+        return calendar.timegm(t)
+    return time.mktime(t)
+
+
 _timestamp_human_format = "%Y/%m/%d %H:%M:%S"
 
 @export
@@ -74,10 +84,7 @@ def timestamp_human(t=None, want_microseconds=None):
     value None.
     """
     if isinstance(t, time.struct_time):
-        if t.tm_zone == "GMT":
-            t = calendar.timegm(t)
-        else:
-            t = time.mktime(t)
+        t = _struct_time_to_timestamp(t)
         # force None to False
         want_microseconds = bool(want_microseconds)
 
@@ -138,10 +145,7 @@ def timestamp_3339Z(t=None, want_microseconds=None):
     value None.
     """
     if isinstance(t, time.struct_time):
-        if t.tm_zone == "GMT":
-            t = calendar.timegm(t)
-        else:
-            t = time.mktime(t)
+        t = _struct_time_to_timestamp(t)
         want_microseconds = bool(want_microseconds)
 
     if t is None:
-- 
2.43.0


From 9e786ddf5f5903b3dacd3fe6535e8ac2338fef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:04 +0000
Subject: [PATCH 47/63] fix: parse_timestamp_3339Z: Z is UTC, even where the
 local timezone is called UTC

---
 big/time.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/big/time.py b/big/time.py
index 97225ca..45f05eb 100644
--- a/big/time.py
+++ b/big/time.py
@@ -207,6 +207,8 @@ def datetime_ensure_timezone(d, timezone):
     return datetime_set_timezone(d, timezone)
 
 if have_dateutils:
+    _parse_tzinfos = {"UTC": timezone.utc, "Z": timezone.utc}
+
     @export
     def parse_timestamp_3339Z(s, *, timezone=None):
         """
@@ -219,7 +221,9 @@ if have_dateutils:
         a timezone, the 'tzinfo' attribute of the returned object
         will be explicitly set to timezone.
         """
-        d = dateutil.parser.parse(s)
+        # without tzinfos, dateutil thinks "Z" is the local timezone
+        # if that happens to be called "UTC"
+        d = dateutil.parser.parse(s, tzinfos=_parse_tzinfos)
         assert d
         d = datetime_ensure_timezone(d, timezone)
         return d
-- 
2.43.0


From 13222594f2191a87495f06acd77bf1e5d1e731c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:07 +0000
Subject: [PATCH 48/63] fix: grep and fgrep: there's no empty line after the
 file's last newline

---
 big/file.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/big/file.py b/big/file.py
index d9bcf65..4ae7822 100644
--- a/big/file.py
+++ b/big/file.py
@@ -94,6 +94,9 @@ def fgrep(path, text, *, encoding=None, enumerate=False, case_insensitive=False)
     with f:
         contents = f.read()
         split = contents.split(separator)
+        # every line ends with a separator, except perhaps the last
+        if not split[-1]:
+            split.pop()
         if not case_insensitive:
             if enumerate:
                 return [t for t in builtins.enumerate(split, 1) if text in t[1]]
@@ -167,6 +170,9 @@ def grep(path, pattern, *, encoding=None, enumerate=False, flags=0):
     with f:
         text = f.read()
         split = text.split(separator)
+        # every line ends with a separator, except perhaps the last
+        if not split[-1]:
+            split.pop()
         if enumerate:
             return [t for t in builtins.enumerate(split, 1)
                     if pattern.search(t[1])]
-- 
2.43.0


From 6c1b44ed763b7b4ae334443671cb5acbe965b4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 49/63] fix: fgrep: ignoring case never loses a line that
 contains the exact text

---
 big/file.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/big/file.py b/big/file.py
index 4ae7822..606976e 100644
--- a/big/file.py
+++ b/big/file.py
@@ -102,9 +102,15 @@ def fgrep(path, text, *, encoding=None, enumerate=False, case_insensitive=False)
                 return [t for t in builtins.enumerate(split, 1) if text in t[1]]
             return [line for line in split if text in line]
 
-        lower_contents = contents.lower()
+        # str.lower depends on context ('\N{GREEK CAPITAL LETTER SIGMA}'
+        # at the end of a word), str.casefold doesn't.
+        if isinstance(text, bytes):
+            lower = bytes.lower
+        else:
+            lower = str.casefold
+        lower_contents = lower(contents)
         lower_split = lower_contents.split(separator)
-        text = text.lower()
+        text = lower(text)
         if enumerate:
             return [(line_number, line) for line_number, (line, lower_line) in builtins.enumerate(zip(split, lower_split), 1) if text in lower_line]
         return [line for line, lower_line in zip(split, lower_split) if text in lower_line]
-- 
2.43.0


From 75b9a8661e13b6f74d1c90875002ef18cfcf0181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:51 +0000
Subject: [PATCH 50/63] fix: get_int and friends: return any default given,
 however it compares

---
 big/builtin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big/builtin.py b/big/builtin.py
index 5d98bcd..0d213cd 100644
--- a/big/builtin.py
+++ b/big/builtin.py
@@ -76,7 +76,7 @@ def get_float(o, default=_sentinel):
     try:
         return float(o)
     except (TypeError, ValueError, OverflowError):
-        if default != _sentinel:
+        if default is not _sentinel:
             return default
         return o
 
@@ -91,7 +91,7 @@ def get_int(o, default=_sentinel):
     try:
         return int(o)
     except (TypeError, ValueError, OverflowError):
-        if default != _sentinel:
+        if default is not _sentinel:
             return default
         return o
 
@@ -129,7 +129,7 @@ def get_int_or_float(o, default=_sentinel):
             # this will return 0, not 0.0.
             return get_int_or_float(float(o))
         except (TypeError, ValueError, OverflowError):
-            if default != _sentinel:
+            if default is not _sentinel:
                 return default
             return o
 
-- 
2.43.0


From 893dc869d768d55db2f0e717d5adc673032fd2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:44 +0000
Subject: [PATCH 51/63] fix: LineInfo.clip_trailing of nothing (0 or an empty
 string) clipped the whole line

---
 big/text.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/big/text.py b/big/text.py
index a3fe380..179b44b 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2986,7 +2986,9 @@ class LineInfo:
             i = s
             s = None
             l = line
-        line = line[:-i]
+        if i:
+            # (line[:-0] would be empty)
+            line = line[:-i]
         if not line:
             # if you clip the entire line, we move the entire line into trailing (minus end)
             assert self.line.endswith(self.end)
@@ -2999,7 +3001,7 @@ class LineInfo:
             self.leading = empty
             return empty
         if s is None:
-            s = l[-i:]
+            s = l[len(line):]
         self.trailing = s + self.trailing
         return line
 
@@ -3175,14 +3177,14 @@ def lines_rstrip(li, separators=None):
         for info, line in li:
             rstripped = line.rstrip()
             if rstripped != line:
-                line = info.clip_trailing(line, -len(rstripped))
+                line = info.clip_trailing(line, line[len(rstripped):])
             yield (info, line)
         return
 
     for info, line in li:
         rstripped = multistrip(line, separators, left=False, right=True)
         if rstripped != line:
-            line = info.clip_trailing(line, -len(rstripped))
+            line = info.clip_trailing(line, line[len(rstripped):])
         yield (info, rstripped)
 
 
-- 
2.43.0


From 96270639c4ac8a6befbaad8e2eb243944d144e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:43 +0000
Subject: [PATCH 52/63] fix: split_quoted_strings: quotes and multiline_quotes
 may be any iterable, iterators included

---
 big/text.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index 179b44b..5c17114 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2057,6 +2057,9 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
 
     if multiline_quotes is None:
         multiline_quotes = ()
+    elif not isinstance(multiline_quotes, bytes):
+        # in case multiline_quotes is an iterator
+        multiline_quotes = tuple(multiline_quotes)
 
     is_bytes = isinstance(s, bytes)
     if is_bytes:
@@ -2066,8 +2069,8 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
         if quotes in (_sqs_quotes_str, None):
             quotes = _sqs_quotes_bytes
         else:
-            if isinstance(quotes, bytes):
-                quotes = tuple(_iterate_over_bytes(quotes))
+            # (tuple, in case quotes is an iterator)
+            quotes = tuple(_iterate_over_bytes(quotes))
             for q in quotes:
                 if not isinstance(q, s_type):
                     raise TypeError(f"values in quotes must match s (str or bytes), not {q!r}")
@@ -2092,6 +2095,8 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
         if quotes in (_sqs_quotes_bytes, None):
             quotes = _sqs_quotes_str
         else:
+            # in case quotes is an iterator
+            quotes = tuple(quotes)
             for q in quotes:
                 if not isinstance(q, s_type):
                     raise TypeError(f"values in quotes must match s (str or bytes), not {q!r}")
-- 
2.43.0


From 937738d8fc25db36d8dd6113672e93a648e2f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:05 +0000
Subject: [PATCH 53/63] fix: lines_filter_line_comment_lines,
 lines_strip_line_comments: markers and quotes may be any iterable

---
 big/text.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/big/text.py b/big/text.py
index 5c17114..2426a22 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3294,17 +3294,18 @@ def lines_filter_line_comment_lines(li, comment_markers):
     if not comment_markers:
         raise ValueError("illegal comment_markers")
 
-    comment_markers_is_bytes = isinstance(comment_markers, bytes) or isinstance(comment_markers[0], bytes)
+    # in case comment_markers is an iterator, or an iterable
+    # that doesn't support indexing
+    comment_markers = tuple(_iterate_over_bytes(comment_markers))
+    if not comment_markers:
+        raise ValueError("illegal comment_markers")
+
+    comment_markers_is_bytes = isinstance(comment_markers[0], bytes)
     if comment_markers_is_bytes:
-        comment_markers = _iterate_over_bytes(comment_markers)
         skip_whitespace = b"\\s*"
     else:
         skip_whitespace = "\\s*"
 
-    # in case comment_markers is an iterator
-    # (for example, we just called _iterate_over_bytes on a bytes string)
-    comment_markers = tuple(comment_markers)
-
     if len(comment_markers) == 1:
         comment_marker = comment_markers[0]
         def match(s):
@@ -3551,6 +3552,16 @@ def lines_strip_line_comments(li, line_comment_markers, *,
     Composable with all the lines_ modifier functions in the big.text module.
     """
 
+    # in case any of these are iterators, or iterables
+    # that don't support indexing.
+    # (we examine quotes and multiline_quotes once per line.)
+    if line_comment_markers and not isinstance(line_comment_markers, (str, bytes)):
+        line_comment_markers = tuple(line_comment_markers)
+    if quotes and not isinstance(quotes, (str, bytes)):
+        quotes = tuple(quotes)
+    if multiline_quotes and not isinstance(multiline_quotes, (str, bytes)):
+        multiline_quotes = tuple(multiline_quotes)
+
     # check line_comment_markers
     if not line_comment_markers:
         bad_value = True
-- 
2.43.0


From e7e02c93b666533496bc7355f439b4364a5745b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:05 +0000
Subject: [PATCH 54/63] fix: lines_strip, lines_rstrip: an iterator of
 separators only worked for the first line

---
 big/text.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/big/text.py b/big/text.py
index 2426a22..2fb3c13 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3186,6 +3186,10 @@ def lines_rstrip(li, separators=None):
             yield (info, line)
         return
 
+    # we use separators once per line; it might be an iterator
+    if not isinstance(separators, (str, bytes)):
+        separators = tuple(separators)
+
     for info, line in li:
         rstripped = multistrip(line, separators, left=False, right=True)
         if rstripped != line:
@@ -3211,6 +3215,10 @@ def lines_strip(li, separators=None):
     """
     if separators is not None:
 
+        # we use separators once per line; it might be an iterator
+        if not isinstance(separators, (str, bytes)):
+            separators = tuple(separators)
+
         for info, line in li:
             leading = trailing = None
             if line:
-- 
2.43.0


From 6426c2d491465f758bc8ef0a0398ae7efab02f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:05 +0000
Subject: [PATCH 55/63] fix: deprecated split_quoted_strings,
 lines_strip_comments: quotes and separators may be any iterable

---
 big/deprecated.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/big/deprecated.py b/big/deprecated.py
index 23458f1..ea5dceb 100644
--- a/big/deprecated.py
+++ b/big/deprecated.py
@@ -130,6 +130,9 @@ def split_quoted_strings(s, quotes=None, *, triple_quotes=True, backslash=None):
             backslash = '\\'
         i = s
     empty_join = empty.join
+    if not isinstance(quotes, (str, bytes)):
+        # in case quotes is an iterator
+        quotes = tuple(quotes)
 
     i = PushbackIterator(i)
     in_quote = None
@@ -514,12 +517,14 @@ def lines_strip_comments(li, comment_separators, *, quotes=('"', "'"), backslash
     if not comment_separators:
         raise ValueError("illegal comment_separators")
 
-    if isinstance(comment_separators, bytes):
-        comment_separators = _iterate_over_bytes(comment_separators)
-        comment_separators_is_bytes = True
-    else:
-        comment_separators_is_bytes = isinstance(comment_separators[0], bytes)
-    comment_separators = tuple(comment_separators)
+    # in case comment_separators or quotes is an iterator,
+    # or an iterable that doesn't support indexing
+    comment_separators = tuple(_iterate_over_bytes(comment_separators))
+    if not comment_separators:
+        raise ValueError("illegal comment_separators")
+    comment_separators_is_bytes = isinstance(comment_separators[0], bytes)
+    if quotes and not isinstance(quotes, (str, bytes)):
+        quotes = tuple(quotes)
 
     if comment_separators_is_bytes:
         empty = b''
-- 
2.43.0


From fc86bd3823f9b10f8aec70ac1168da682f920b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:42 +0000
Subject: [PATCH 56/63] fix: timestamp_3339Z: years before 1000 have four
 digits, too

---
 big/time.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/big/time.py b/big/time.py
index 45f05eb..2907c5f 100644
--- a/big/time.py
+++ b/big/time.py
@@ -110,7 +110,7 @@ def timestamp_human(t=None, want_microseconds=None):
     return s
 
 
-_timestamp_3339Z_format_base = "%Y-%m-%dT%H:%M:%S"
+_timestamp_3339Z_format_base = "-%m-%dT%H:%M:%S"
 _timestamp_3339Z_format = f"{_timestamp_3339Z_format_base}Z"
 _timestamp_3339Z_microseconds_format = f"{_timestamp_3339Z_format_base}.%fZ"
 
@@ -170,7 +170,9 @@ def timestamp_3339Z(t=None, want_microseconds=None):
     else:
         f = _timestamp_3339Z_format
 
-    return t.strftime(f)
+    # RFC 3339 years are always four digits.
+    # strftime's %Y isn't zero-padded on all platforms.
+    return f"{t.year:04d}{t.strftime(f)}"
 
 
 @export
-- 
2.43.0


From 4857de937bdac651e47bd0b3195045aa09dbedcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:42 +0000
Subject: [PATCH 57/63] fix: bound inner classes: an outer attribute named like
 a base, or a false class, is no obstacle

---
 big/boundinnerclass.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big/boundinnerclass.py b/big/boundinnerclass.py
index 439ab95..b30ea42 100644
--- a/big/boundinnerclass.py
+++ b/big/boundinnerclass.py
@@ -121,11 +121,11 @@ class _Worker(object):
             # a bound inner class we need to inherit from, so just skip it.
             if base.__name__ != name:
                 bound_inner_base = getattr(outer, base.__name__, None)
-                if bound_inner_base:
-                    bases = getattr(bound_inner_base, "__bases__", (None,))
+                if bound_inner_base is not None:
+                    bases = getattr(bound_inner_base, "__bases__", None)
                     # The unbound class is always the first base of
                     # the bound inner class.
-                    if bases[0] == base:
+                    if bases and (bases[0] is base):
                         inherit_from = bound_inner_base
                         multiply_inherit = True
             wrapper_bases.append(inherit_from)
-- 
2.43.0


From b01e2a26b2a908c92bcdf508a7634a773a8ba062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:52 +0000
Subject: [PATCH 58/63] fix: bound inner classes: don't bind a base's override
 while looking for the base (endless recursion)

---
 big/boundinnerclass.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/big/boundinnerclass.py b/big/boundinnerclass.py
index b30ea42..8759935 100644
--- a/big/boundinnerclass.py
+++ b/big/boundinnerclass.py
@@ -119,7 +119,11 @@ class _Worker(object):
             #
             # If the name is the same as our own name, there's no way it's
             # a bound inner class we need to inherit from, so just skip it.
-            if base.__name__ != name:
+            #
+            # And if base isn't the inner class outer has under that name,
+            # don't touch the one it does have: that'd bind it, and it may
+            # well inherit from us.
+            if (base.__name__ != name) and self._declares(outer, base):
                 bound_inner_base = getattr(outer, base.__name__, None)
                 if bound_inner_base is not None:
                     bases = getattr(bound_inner_base, "__bases__", None)
@@ -156,6 +160,16 @@ class _Worker(object):
         outer.__dict__[cache_name] = Wrapper
         return Wrapper
 
+    def _declares(self, outer, cls):
+        """
+        Returns True if cls is the inner class outer has under the name of cls.
+        """
+        for outer_cls in type(outer).__mro__:
+            declared = outer_cls.__dict__.get(cls.__name__)
+            if declared is not None:
+                return isinstance(declared, _Worker) and (declared.cls is cls)
+        return False
+
     def _cache_name(self, outer, name):
         """
         Returns the name to use in outer's dict to cache the bound inner class.
-- 
2.43.0


From 1e44970208f1b359b68405b18ccc51f58aa44981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:33 +0000
Subject: [PATCH 59/63] fix: Version raises ValueError for a negative number in
 release

---
 big/version.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big/version.py b/big/version.py
index bee9546..3bea56b 100644
--- a/big/version.py
+++ b/big/version.py
@@ -122,8 +122,8 @@ class Version:
             elif not (isinstance(epoch, int) and (epoch >= 0)):
                 raise ValueError(f"epoch must be non-negative int or None, not {epoch!r}")
 
-            if not (isinstance(release, tuple) and release and all(isinstance(element, int) for element in release)):
-                raise ValueError(f"release must be a tuple of length 1+ containing only ints, not {release!r}")
+            if not (isinstance(release, tuple) and release and all(isinstance(element, int) and (element >= 0) for element in release)):
+                raise ValueError(f"release must be a tuple of length 1+ containing only non-negative ints, not {release!r}")
 
             original_release_level = release_level
             if release_level is None:
-- 
2.43.0


From 21efe1a71a35fb03484d7bd02b142e6e790a618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:02 +0000
Subject: [PATCH 60/63] fix: Version accepts no non-ASCII letters

---
 big/version.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/big/version.py b/big/version.py
index 3bea56b..22cf727 100644
--- a/big/version.py
+++ b/big/version.py
@@ -54,9 +54,10 @@ _sys_version_info_release_level_normalize = { 'candidate': 'rc', 'final': ''}
 
 #
 # regular expression is straight out of PEP 440.
+# (except for "(?a:": ignoring the case must not let in non-ASCII letters, like U+017F.)
 #
 
-VERSION_PATTERN = r"^\s*" + r"""
+VERSION_PATTERN = r"^\s*(?a:" + r"""
     v?
     (?:
         (?:(?P<epoch>[0-9]+)!)?                           # epoch
@@ -85,7 +86,7 @@ VERSION_PATTERN = r"^\s*" + r"""
         )?
     )
     (?:\+(?P<local>[a-z0-9]+(?:[-_\.][a-z0-9]+)*))?       # local version
-""" + r"\s*$"
+""" + r")\s*$"
 
 _re_parse_version = re.compile(VERSION_PATTERN, re.VERBOSE | re.IGNORECASE).match
 
@@ -179,8 +180,7 @@ class Version:
             if not isinstance(s, str):
                 raise ValueError("you must specify either a version string or explicit keyword arguments")
 
-            # PEP 440: versions are case-insensitive, and normalize to lowercase.
-            match = _re_parse_version(s.lower())
+            match = _re_parse_version(s)
             if not match:
                 raise ValueError(f"invalid version initializer {s!r}") from None
 
@@ -196,7 +196,8 @@ class Version:
             #    also split up into "dev_l" (must be 'dev') and "dev_n" (dev number)
             # "local", local version
 
-            d = match.groupdict()
+            # PEP 440: versions are case-insensitive, and normalize to lowercase.
+            d = {name: (value and value.lower()) for name, value in match.groupdict().items()}
             get = d.get
 
             # if an optional value is not None, and we expect it to be an int,
-- 
2.43.0


From a964e4ee474a072ef10112fb0d676a22beeab9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:04 +0000
Subject: [PATCH 61/63] fix: pushd restores the directory that was current on
 entry, also when reused

---
 big/file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/big/file.py b/big/file.py
index 606976e..7803dba 100644
--- a/big/file.py
+++ b/big/file.py
@@ -204,11 +204,14 @@ class pushd:
     """
     def __init__(self, path):
         self.path = path
-        self.cwd = os.getcwd()
+        # one entry for every time we've been entered and not yet exited
+        self.cwds = []
     def __enter__(self):
+        cwd = os.getcwd()
         os.chdir(self.path)
+        self.cwds.append(cwd)
     def __exit__(self, exc_type, exc_value, traceback):
-        os.chdir(self.cwd)
+        os.chdir(self.cwds.pop())
 
 
 @export
-- 
2.43.0


From 4cb0a70942a2586480c271559ca05f8c5b204f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:37:51 +0000
Subject: [PATCH 62/63] fix: Log uses the clock and the print function it's
 given, whatever their truth value

---
 big/log.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/big/log.py b/big/log.py
index f022eff..50aef31 100644
--- a/big/log.py
+++ b/big/log.py
@@ -83,7 +83,8 @@ class Log:
     # randomly in the last... seven? digits.  You'll go blind!)
 
     def __init__(self, clock=None):
-        clock = clock or default_clock
+        if clock is None:
+            clock = default_clock
         self.clock = clock
         self.reset()
 
@@ -170,7 +171,7 @@ class Log:
         seconds_width is how wide to make the seconds column, default 2.
         fractional_width is how wide to make the fractional column, default 9.
         """
-        if not print:
+        if print is None:
             print = builtins.print
 
         indent = " " * indent
-- 
2.43.0


From 6294929a201929bedd229ceff66a81305e077061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:14 +0000
Subject: [PATCH 63/63] fix: StateManager: abandon the transition when on_exit
 or an observer raises

next was left set for good, so every later transition was rejected
as if one were still in progress.
---
 big/state.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/big/state.py b/big/state.py
index 32e4078..82737fe 100644
--- a/big/state.py
+++ b/big/state.py
@@ -227,17 +227,21 @@ class StateManager:
         self.__next = state
         # as of this moment we are "transitioning" to a new state.
 
-        if self.on_exit:
-            on_exit = getattr(self.__state, self.on_exit, None)
-            if on_exit is not None:
-                on_exit()
-        if self.observers:
-            # iterate over a snapshot: the list may be modified by an observer.
-            for o in tuple(self.observers):
-                o(self)
-
-        self.__state = state
-        self.__next = None
+        try:
+            if self.on_exit:
+                on_exit = getattr(self.__state, self.on_exit, None)
+                if on_exit is not None:
+                    on_exit()
+            if self.observers:
+                # iterate over a snapshot: the list may be modified by an observer.
+                for o in tuple(self.observers):
+                    o(self)
+
+            self.__state = state
+        finally:
+            # (if on_exit or an observer raised, the transition is
+            # abandoned, and we are still in the old state.)
+            self.__next = None
         # as of this moment we are "in" our new state, the transition is over.
         # (it's explicitly permitted to start a new state transition from inside enter().)
 
-- 
2.43.0

