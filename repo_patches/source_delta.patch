From f5738bcd152fb0038aa4c0825c748472b194d2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 01/18] fix: Text: keep zero-word texts and request one
 separator per word gap

A text of zero words was dropped from the output (making emit() raise an
IndexError), and since separators were requested per text rather than per
gap, a zero-word text took one separator away from the other texts.
---
 src/fauxdoc/emitters/text.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index 3c33bc8..41d7024 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -287,11 +287,11 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         lengths = self._emitters['numwords'](number)
         total_words = sum(lengths)
         words = self._get_words_iterator(total_words)
-        seps = iter(self._emitters['sep'](total_words - number))
+        total_seps = sum(clamp(length - 1, mn=0) for length in lengths)
+        seps = iter(self._emitters['sep'](total_seps))
         for length in lengths:
-            if length:
-                render = [next(words)]
-                for _ in range(1, length):
-                    render.extend([next(seps, ' '), next(words)])
-                texts.append(''.join(render))
+            render = [next(words)] if length else []
+            for _ in range(1, length):
+                render.extend([next(seps, ' '), next(words)])
+            texts.append(''.join(render))
         return texts
-- 
2.43.0


From 0ea2c51ad46806ab9c8e3541a370a3ab3469d1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 02/18] fix: Word, Text: count each possible length once in
 num_unique_values

Items repeated in the length (or number-of-words) emitter were counted
repeatedly, and a text of zero words counted as a fraction or error.
---
 src/fauxdoc/emitters/text.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index 41d7024..de4e5d8 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -110,7 +110,7 @@ class Word(RandomWithChildrenMixin, Emitter[str]):
         self._num_unique_values: Optional[int] = None
         nchars = self._emitters['alphabet'].num_unique_values
         if nchars is not None and hasattr(self._emitters['length'], 'items'):
-            poss_items = self._emitters['length'].items
+            poss_items = set(self._emitters['length'].items)
             self._num_unique_values = sum([nchars ** i for i in poss_items])
 
     def reset(self) -> None:
@@ -217,9 +217,11 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         sep_em_has_uv = self._emitters['sep'].num_unique_values is not None
         if word_em_has_uv and sep_em_has_uv and hasattr(numwords, 'items'):
             nums: List[int] = []
-            for length in numwords.items:
+            for length in set(numwords.items):
                 n_uw = self._emitters['word'].num_unique_values ** length
-                n_us = self._emitters['sep'].num_unique_values ** (length - 1)
+                n_us = self._emitters['sep'].num_unique_values ** clamp(
+                    length - 1, mn=0
+                )
                 nums.append(n_uw * n_us)
             self._num_unique_values = sum(nums)
 
-- 
2.43.0


From b7883018e2f0e24f4c59ebc28dc4978b3a92d766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:30 +0000
Subject: [PATCH 03/18] fix: Field.multi_valued: False for any repeat emitter
 that only emits None

Only a repeat emitter whose items were exactly the list [None] was
recognized; a tuple or several None items made the field claim that it
is multi-valued although every call gives a single value.
---
 src/fauxdoc/profile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/profile.py b/src/fauxdoc/profile.py
index 42f11e0..aee467f 100644
--- a/src/fauxdoc/profile.py
+++ b/src/fauxdoc/profile.py
@@ -135,7 +135,7 @@ class Field(RandomWithChildrenMixin, Generic[T]):
     def multi_valued(self) -> bool:
         """See the 'multi_valued' attribute."""
         if hasattr(self.repeat_emitter, 'items'):
-            return bool(self.repeat_emitter.items != [None])
+            return any(item is not None for item in self.repeat_emitter.items)
         return True
 
     @property
-- 
2.43.0


From cea1aeffe88f5cd143cabb99aee055aa7693a37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:52 +0000
Subject: [PATCH 04/18] fix: weighted_shuffle: accept zero weights and a random
 number of 0.0

Shuffling with a zero weight raised ZeroDivisionError, a draw of exactly
0.0 raised a math domain error, and asking for a few items but more than
have a positive weight raised ValueError. Items with a weight of zero now
come after all others.
---
 src/fauxdoc/mathtools.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index 7291ee2..cfb94b8 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -1,6 +1,7 @@
 """Contains math utility functions used in the data module."""
 import math
 import random
+import sys
 from typing import List, Optional, Sequence
 
 from fauxdoc.typing import F, T
@@ -129,7 +130,13 @@ def weighted_shuffle(items: Sequence[T],
         # slower for lower values of k, but the lack of iteration makes
         # it scale very well for higher values of k. Zipping the scores
         # and items is faster than tracking positions.
-        scores = zip((math.log(rng.random()) / w for w in weights), items)
+        # Zero weights (and the very rare random number 0.0) are treated
+        # as negligibly small, so that they don't cause math errors.
+        tiny = sys.float_info.min
+        scores = zip(
+            (math.log(rng.random() or tiny) / (w or tiny) for w in weights),
+            items
+        )
 
         # Note: to pick the highest scoring k items, reverse sorting
         # the whole list is faster than using the `heapq.nlargest`
@@ -149,7 +156,8 @@ def weighted_shuffle(items: Sequence[T],
         )
 
     # The k threshold where the `high_k` method becomes faster than the
-    # `low_k` is k =~ 42% of the total number of items.
-    if number <= nitems * 0.42:
+    # `low_k` is k =~ 42% of the total number of items. The `low_k`
+    # method can only choose items that have a positive weight.
+    if number <= min(nitems * 0.42, sum(map(bool, weights))):
         return _faster_for_low_k(items, weights, rng, number)
     return _faster_for_high_k(items, weights, rng, number)
-- 
2.43.0


From 7176cb86ef09914bddd8a5897042dee8592d88a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 05/18] fix: time ranges: keep the time zone of the start value

The values of a range of time-zone-aware times were naive times.
---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index b196d0b..0dd4c2e 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -16,7 +16,7 @@ def _index_to_value(index: int, start: DT, step: timedelta) -> DT:
         # the math, and returning the time.
         ref_date = date(99, 1, 1)
         ref_dt = datetime.combine(ref_date, start)
-        return (ref_dt + delta).time()
+        return (ref_dt + delta).timetz()
     return start + delta
 
 
-- 
2.43.0


From a928b204390575c7334432565cdedc7e524173d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:56 +0000
Subject: [PATCH 06/18] fix: dtrange: stop values in the opposite direction of
 the step

A range whose stop lies in the other direction than its step got a
negative length (so len() and iteration failed) instead of being empty,
and a 24-hour time range (start == stop) with a negative step did too,
instead of going back a full day.
---
 src/fauxdoc/dtrange.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 0dd4c2e..f5336ec 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -349,9 +349,10 @@ def dtrange(start: Union[DT, str], stop: Union[DT, str], step: float = 1,
         # 24-hour clock as a time range. E.g., midnight to midnight is
         # a 24-hour range instead of an empty range.
         start_refdate = datetime.combine(date(99, 1, 1), start_obj)
-        stop_refdate = start_refdate + timedelta(days=1)
+        one_day = timedelta(days=1 if step_td > timedelta(0) else -1)
+        stop_refdate = start_refdate + one_day
         length, rem = _value_to_index(stop_refdate, start_refdate, step_td)
     else:
         length, rem = _value_to_index(stop_obj, start_obj, step_td)
-    length += 1 if rem else 0
+    length = max(length + 1 if rem else length, 0)
     return DateOrTimeRange(start_obj, length, step_td)
-- 
2.43.0


From 4a740cb6373e1f0d226c0ab0f933fb5ce7502902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:59 +0000
Subject: [PATCH 07/18] fix: slices of date/time ranges that have fewer than
 two values

Such a slice could raise a ValueError (if the multiplied step is too large
for a time range) or an OverflowError, although a start value or a step
between values isn't needed for it.
---
 src/fauxdoc/dtrange.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index f5336ec..f24f50f 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -179,7 +179,14 @@ class DateOrTimeRange(Sequence[DT]):
         """Returns the requested value or values from the range."""
         if isinstance(index, slice):
             slc = self._index_range[index]
+            if len(slc) == 0:
+                # There is no first value, so don't try to calculate it.
+                return type(self)(self.start, 0, self.step)
             start = _index_to_value(slc.start, self.start, self.step)
+            if len(slc) == 1:
+                # Multiplying the step could give an invalid step, and
+                # there is no second value.
+                return type(self)(start, 1, self.step)
             return type(self)(start, len(slc), self.step * slc.step)
         try:
             index_num = self._index_range[index]
-- 
2.43.0


From b3d5b82f192d0306cdd60b50ab2f6546465212c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 08/18] fix: membership of values not comparable to a date/time
 range's values

Asking a range of dates for a datetime, or a naive range for an aware
value (or vice versa), raised a TypeError instead of finding that the
value is not in the range.
---
 src/fauxdoc/dtrange.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index f24f50f..23bad75 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -247,7 +247,12 @@ class DateOrTimeRange(Sequence[DT]):
                 index value.
         """
         if isinstance(value, type(self.start)):
-            index, rem = _value_to_index(value, self._start, self._step)
+            try:
+                index, rem = _value_to_index(value, self._start, self._step)
+            except TypeError:
+                # The value can't be compared to the values in this
+                # range: naive vs. aware, or a datetime vs. a date.
+                raise ValueError(f'{value} is not in range')
             if not rem and index in self._index_range[start:stop]:
                 return index
         raise ValueError(f'{value} is not in range')
-- 
2.43.0


From 58e27f4a8b01f5ee9d518bf11ae5324bbe55c856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:52 +0000
Subject: [PATCH 09/18] fix: ObjectGroup slices, sums, products and copies hold
 the objects

UserList builds these as self.__class__(list), but ObjectGroup takes its
objects as star arguments, so each gave a group of one list.
---
 src/fauxdoc/group.py | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index 05feb02..6c3c063 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -1,6 +1,7 @@
 """Contains classes for grouping and operating on groups of objects."""
+import copy
 from abc import ABC, abstractmethod
-from typing import Any, Generic, Iterable, Mapping
+from typing import Any, Generic, Iterable, List, Mapping
 
 from fauxdoc.typing import OrderedDict, T, UserList
 
@@ -78,6 +79,40 @@ class ObjectGroup(GroupMixin[T], UserList[T]):
         """
         super().__init__(objects)
 
+    # The UserList methods overridden here otherwise build the new
+    # group as `self.__class__(objects_list)`, which doesn't match the
+    # signature of `__init__`.
+
+    def _make_group(self, objects: List[T]) -> 'ObjectGroup[T]':
+        """Makes a group like this one that has the given objects."""
+        group = copy.copy(self)
+        group.data = objects
+        return group
+
+    def __getitem__(self, i):
+        """Returns one object, or (for a slice) a group of objects."""
+        if isinstance(i, slice):
+            return self._make_group(self.data[i])
+        return self.data[i]
+
+    def __add__(self, other):
+        """Returns a group with the objects from other at the end."""
+        return self._make_group(self.data + list(other))
+
+    def __radd__(self, other):
+        """Returns a group with the objects from other at the start."""
+        return self._make_group(list(other) + self.data)
+
+    def __mul__(self, n):
+        """Returns a group with this group's objects repeated."""
+        return self._make_group(self.data * n)
+
+    __rmul__ = __mul__
+
+    def copy(self) -> 'ObjectGroup[T]':
+        """Returns a shallow copy of this group."""
+        return copy.copy(self)
+
     @property
     def objects_iterable(self) -> Iterable[T]:
         """Iterates through the objects in this group."""
-- 
2.43.0


From 72a67ef211ee72cdba45ad2d63d9120f9c4fb170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:16 +0000
Subject: [PATCH 10/18] fix: ObjectMaps can be copied

OrderedDict.copy (and copy.copy, deepcopy, pickle) call the class with
no arguments, which raised a TypeError.
---
 src/fauxdoc/group.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index 6c3c063..5c65af0 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -1,7 +1,7 @@
 """Contains classes for grouping and operating on groups of objects."""
 import copy
 from abc import ABC, abstractmethod
-from typing import Any, Generic, Iterable, List, Mapping
+from typing import Any, Generic, Iterable, List, Mapping, Optional
 
 from fauxdoc.typing import OrderedDict, T, UserList
 
@@ -131,14 +131,15 @@ class ObjectMap(GroupMixin[T], OrderedDict[str, T]):
     skip them.
     """
 
-    def __init__(self, objects: Mapping[str, T]) -> None:
+    def __init__(self, objects: Optional[Mapping[str, T]] = None) -> None:
         """Inits an ObjectMap with the given objects.
 
         Args:
-            objects: Your initial dict that maps keys to objects in
-                this group.
+            objects: (Optional.) Your initial dict that maps keys to
+                objects in this group. Copying an ObjectMap needs this
+                to be optional. Default is None (an empty group).
         """
-        super().__init__(objects)
+        super().__init__(objects or {})
 
     @property
     def objects_iterable(self) -> Iterable[T]:
-- 
2.43.0


From edf9d4ef9604405454157b3b012e85887cb20e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:45 +0000
Subject: [PATCH 11/18] fix: poisson overflowed for more than 170 items

mu ** x and factorial(x) are too large for a float there, so
poisson_choice raised an OverflowError for long item lists.
---
 src/fauxdoc/mathtools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index cfb94b8..cb93083 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -20,7 +20,12 @@ def poisson(x: int, mu: float = 1) -> float:
         A float value representing a probability that the given x value
         might occur.
     """
-    return (mu ** x) * (math.exp(-1 * mu)) / math.factorial(x)
+    # Multiplying step by step avoids numbers (like large factorials)
+    # that are too big for a float.
+    probability = math.exp(-1 * mu)
+    for i in range(1, x + 1):
+        probability *= mu / i
+    return probability
 
 
 def gaussian(x: float, mu: float = 0, sigma: float = 1) -> float:
-- 
2.43.0


From 8a2587c72541b64403faac17bc92e56ca446fb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 12/18] fix: Static reports one unique value for unhashable
 values

---
 src/fauxdoc/emitters/fixed.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fauxdoc/emitters/fixed.py b/src/fauxdoc/emitters/fixed.py
index 28cbcd6..deb479b 100644
--- a/src/fauxdoc/emitters/fixed.py
+++ b/src/fauxdoc/emitters/fixed.py
@@ -42,6 +42,11 @@ class Static(ItemsMixin[T], Emitter[T]):
         self._value = value
         self._items = [value]
 
+    @property
+    def num_unique_values(self) -> int:
+        """Always returns 1, also if the value is not hashable."""
+        return 1
+
     def emit(self) -> T:
         """Returns the static value."""
         return self._value
-- 
2.43.0


From aaf32f551c8054eea77385cadb82e73e3e980d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:46 +0000
Subject: [PATCH 13/18] fix: Refuse every date range step that is not a whole
 number of days

total_seconds() loses microseconds in steps of more than about 285 years.
---
 src/fauxdoc/dtrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/dtrange.py b/src/fauxdoc/dtrange.py
index 23bad75..42027e1 100644
--- a/src/fauxdoc/dtrange.py
+++ b/src/fauxdoc/dtrange.py
@@ -136,7 +136,7 @@ class DateOrTimeRange(Sequence[DT]):
             )
         start_is_date_only = not hasattr(self.start, 'second')
         start_is_time_only = not hasattr(self.start, 'day')
-        if start_is_date_only and step_val.total_seconds() % 86400:
+        if start_is_date_only and step_val % timedelta(days=1):
             raise ValueError(
                 "The 'step' amount is invalid for a date range lacking a time "
                 "component. It must be some number of whole days, e.g. "
-- 
2.43.0


From 06ef829cc9287d5001d812908705dd8dd5c25551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:49 +0000
Subject: [PATCH 14/18] fix: Use every given separator, repeat and gate emitter

An emitter-like object that is false (e.g. one with a length of 0) was
replaced by the default.
---
 src/fauxdoc/emitters/text.py | 2 +-
 src/fauxdoc/profile.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/text.py b/src/fauxdoc/emitters/text.py
index de4e5d8..ea1ee06 100644
--- a/src/fauxdoc/emitters/text.py
+++ b/src/fauxdoc/emitters/text.py
@@ -190,7 +190,7 @@ class Text(RandomWithChildrenMixin, Emitter[str]):
         super().__init__(children={
             'numwords': numwords_emitter,
             'word': word_emitter,
-            'sep': sep_emitter or Static(' ')
+            'sep': Static(' ') if sep_emitter is None else sep_emitter
         }, rng_seed=rng_seed)
         self._update_num_unique_vals()
 
diff --git a/src/fauxdoc/profile.py b/src/fauxdoc/profile.py
index aee467f..a1c54d8 100644
--- a/src/fauxdoc/profile.py
+++ b/src/fauxdoc/profile.py
@@ -127,8 +127,8 @@ class Field(RandomWithChildrenMixin, Generic[T]):
         self.hide = hide
         super().__init__(children={
             'emitter': emitter,
-            'repeat': repeat or Static(None),
-            'gate': gate or Static(True)
+            'repeat': Static(None) if repeat is None else repeat,
+            'gate': Static(True) if gate is None else gate
         }, rng_seed=rng_seed)
 
     @property
-- 
2.43.0


From b59528d1b737783b5992755eb9666c7a70f2d66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:52 +0000
Subject: [PATCH 15/18] fix: Unwrap only BoundWrapper instances

Any other callable that happens to have a 'function' attribute is itself
the function to wrap.
---
 src/fauxdoc/emitters/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fauxdoc/emitters/wrappers.py b/src/fauxdoc/emitters/wrappers.py
index 4db4d38..c3a3b11 100644
--- a/src/fauxdoc/emitters/wrappers.py
+++ b/src/fauxdoc/emitters/wrappers.py
@@ -70,7 +70,7 @@ class BoundWrapper(Generic[SourceT, OutputT]):
             function: See 'function' attribute.
             bound_to: See 'bound_to' attribute.
         """
-        if hasattr(function, 'function'):
+        if isinstance(function, BoundWrapper):
             # Account for trying to create a new BoundWrapper instance
             # using an existing BoundWrapper instance as the `function`
             # argument. In this case we'd want to rebind the unbound
-- 
2.43.0


From 0f8c07019f313f73a94e94f865f0bafca941ef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:11 +0000
Subject: [PATCH 16/18] fix: Let errors raised by a group member's method
 propagate

An AttributeError raised inside a method was taken for the absence of
the method.
---
 src/fauxdoc/group.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fauxdoc/group.py b/src/fauxdoc/group.py
index 5c65af0..37b9a48 100644
--- a/src/fauxdoc/group.py
+++ b/src/fauxdoc/group.py
@@ -52,9 +52,10 @@ class GroupMixin(Generic[T], ABC):
         for obj in self.objects_iterable:
             if obj is not None:
                 try:
-                    getattr(obj, method_name)(*args, **kwargs)
+                    method = getattr(obj, method_name)
                 except AttributeError:
-                    pass
+                    continue
+                method(*args, **kwargs)
 
 
 class ObjectGroup(GroupMixin[T], UserList[T]):
-- 
2.43.0


From c779642eff0dd71f2bc8f622038131fd1dab115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:14 +0000
Subject: [PATCH 17/18] fix: Count unique values also of items that are not
 hashable

Requesting too many values from a Choice emitter without replacement
raised TypeError instead of ValueError if its items were e.g. lists.
---
 src/fauxdoc/emitters/choice.py |  6 ++++--
 src/fauxdoc/mathtools.py       | 17 +++++++++++++++++
 src/fauxdoc/mixins.py          |  3 ++-
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/fauxdoc/emitters/choice.py b/src/fauxdoc/emitters/choice.py
index 3807891..46f2d98 100644
--- a/src/fauxdoc/emitters/choice.py
+++ b/src/fauxdoc/emitters/choice.py
@@ -3,7 +3,9 @@ import itertools
 from typing import Any, Optional, List, Sequence
 
 from fauxdoc.emitter import Emitter
-from fauxdoc.mathtools import clamp, gaussian, poisson, weighted_shuffle
+from fauxdoc.mathtools import (
+    clamp, count_unique, gaussian, poisson, weighted_shuffle
+)
 from fauxdoc.mixins import RandomMixin, ItemsMixin
 from fauxdoc.typing import T
 
@@ -290,7 +292,7 @@ class Choice(RandomMixin, ItemsMixin[T], Emitter[T]):
         selected.
         """
         if not self._replace:
-            return len(set(self._shuffled[self._shuffled_index:]))
+            return count_unique(self._shuffled[self._shuffled_index:])
         return super().num_unique_values
 
     @property
diff --git a/src/fauxdoc/mathtools.py b/src/fauxdoc/mathtools.py
index cb93083..82a1031 100644
--- a/src/fauxdoc/mathtools.py
+++ b/src/fauxdoc/mathtools.py
@@ -76,6 +76,23 @@ def clamp(number: F, mn: Optional[F] = None, mx: Optional[F] = None) -> F:
     return number
 
 
+def count_unique(values: Sequence[T]) -> int:
+    """Returns the number of unique values in a sequence.
+
+    Args:
+        values: The values to count. They don't have to be hashable,
+            but counting is slower if they aren't.
+    """
+    try:
+        return len(set(values))
+    except TypeError:
+        unique: List[T] = []
+        for value in values:
+            if value not in unique:
+                unique.append(value)
+        return len(unique)
+
+
 def weighted_shuffle(items: Sequence[T],
                      weights: Sequence[float],
                      rng: random.Random = random.Random(),
diff --git a/src/fauxdoc/mixins.py b/src/fauxdoc/mixins.py
index c185ff4..5e8ed4e 100644
--- a/src/fauxdoc/mixins.py
+++ b/src/fauxdoc/mixins.py
@@ -3,6 +3,7 @@ import random
 from typing import Any, Generic, Sequence
 
 from fauxdoc.group import ObjectMap
+from fauxdoc.mathtools import count_unique
 from fauxdoc.typing import EmitterLike, T
 
 
@@ -92,7 +93,7 @@ class ItemsMixin(Generic[T]):
     @property
     def num_unique_values(self) -> int:
         """Returns an int, the number of unique values emittable."""
-        return len(set(self._items))
+        return count_unique(self._items)
 
 
 class ChildrenMixin:
-- 
2.43.0


From bb1a50265e90a639ab002fa364f269e319355e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:52 +0000
Subject: [PATCH 18/18] fix: Don't use up source field values when checking an
 action

---
 src/fauxdoc/emitters/fromfields.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/fauxdoc/emitters/fromfields.py b/src/fauxdoc/emitters/fromfields.py
index db0d82f..1b904dc 100644
--- a/src/fauxdoc/emitters/fromfields.py
+++ b/src/fauxdoc/emitters/fromfields.py
@@ -251,19 +251,25 @@ class BasedOnFields(Generic[SourceT, OutputT], RandomMixin, Emitter[OutputT]):
             action: See the 'action' attribute.
         """
         self._action = action
-        if len(self.source) == 1:
-            args = [self.source[0]()]
-            kwargs = {}
-        else:
-            args = []
-            kwargs = {field.name: field() for field in self.source}
         try:
-            self._action.try_mock_call(*args, **kwargs)
+            self._try_action([field.previous for field in self.source])
         except TypeError:
-            raise
+            # The source fields may just not have a value, yet. But each
+            # new value we generate is one they won't output later, so
+            # only do that if we have to.
+            self._try_action([field() for field in self.source])
         finally:
             self.reset()
 
+    def _try_action(self, vals: Sequence[FieldReturn[SourceT]]) -> None:
+        """Tries a mock call of the 'action' using the given values."""
+        if len(self.source) == 1:
+            self._action.try_mock_call(*vals)
+        else:
+            self._action.try_mock_call(
+                **{field.name: val for field, val in zip(self.source, vals)}
+            )
+
     def reset_source(self) -> None:
         """Calls `reset` on all source fields.
 
-- 
2.43.0

