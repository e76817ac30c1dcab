From d6a290a278ed2cf6fa99f78886868601ffb9c435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 01/53] fix: do not change the cached type hints of a class
 when dumping it

_get_attributes_and_types added class variables and properties (as None) to
the dict that get_type_hints keeps in its cache, so that a load of the same
class by another thread, or from a callback, saw no hints for them.
---
 jsons/serializers/default_object.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 92cc570..515c8fc 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -206,7 +206,8 @@ def _get_attributes_and_types(cls: type,
     if '__slots__' in cls.__dict__:
         attributes = {attr: None for attr in cls.__slots__}
     elif hasattr(cls, '__annotations__'):
-        attributes = get_type_hints(cls)
+        # Copy, because the (cached) hints must not be changed below.
+        attributes = {**get_type_hints(cls)}
     elif strict:
         hints = get_type_hints(cls.__init__)
         attributes = {k: hints[k] for k in hints if k != 'self'}
-- 
2.43.0


From 519da8623dfc4f95232180ed7f10afb0e44b3a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 02/53] fix: do not confuse unions that differ in the order of
 their types only

Union[int, str] and Union[str, int] are equal, so the cached get_union_params
returned the types of one of them in the order of the other.
---
 jsons/_compatibility_impl.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index 2e4bdbd..457b2b8 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -49,7 +49,6 @@ def tuple_with_ellipsis(tup: type) -> bool:
     return use_el
 
 
-@cached
 def get_union_params(un: type) -> list:
     # Python3.5: Unions have __union_params__
     # Python3.7: Unions have __args__
-- 
2.43.0


From 7930eb324d9cfcf544e333dab6247fa2781a0615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 03/53] fix: let a registration take effect at once

Lookups of serializers, deserializers and validators are cached, but setting
one did not clear that cache: lookups that were cached before, or that were
in progress (in another thread or an enclosing call) at that moment, kept
returning the previous one.
---
 jsons/_cache.py       | 11 +++++++++--
 jsons/_lizers_impl.py |  6 +++++-
 jsons/_validation.py  |  3 ++-
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/jsons/_cache.py b/jsons/_cache.py
index 0978e24..ebf2535 100644
--- a/jsons/_cache.py
+++ b/jsons/_cache.py
@@ -14,13 +14,19 @@ class _Wrapper:
     for a single point from which cache can be cleared.
     """
     instances = deque([])
+    # Part of every cache key. It is replaced upon every clear, so that a
+    # result that was still being calculated at that moment is never used.
+    generation = object()
 
     def __init__(self, wrapped):
         self.wrapped = wrapped
         self.instances.append(self)
 
-    @lru_cache(typed=True)
     def __call__(self, *args, **kwargs):
+        return self._call(_Wrapper.generation, *args, **kwargs)
+
+    @lru_cache(typed=True)
+    def _call(self, _generation, *args, **kwargs):
         return self.wrapped(*args, **kwargs)
 
 
@@ -42,5 +48,6 @@ def clear():
     Clear all cache of functions that were cached using ``cached``.
     :return: None.
     """
+    _Wrapper.generation = object()
     for w in _Wrapper.instances:
-        w.__call__.cache_clear()
+        w._call.cache_clear()
diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 749a3dc..5f23472 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -6,7 +6,7 @@ deserializers.
 """
 from typing import Optional, Dict, Sequence, Union
 
-from jsons._cache import cached
+from jsons._cache import cached, clear
 from jsons._common_impl import StateHolder, get_class_name
 from jsons._compatibility_impl import get_naked_class
 
@@ -42,8 +42,10 @@ def set_serializer(
         fork_inst._classes_serializers.insert(index, cls)
         cls_name = get_class_name(cls, fully_qualified=True)
         fork_inst._serializers[cls_name.lower()] = func
+        clear()
     else:
         fork_inst._serializers['nonetype'] = func
+        clear()
 
 
 def set_deserializer(
@@ -78,8 +80,10 @@ def set_deserializer(
         fork_inst._classes_deserializers.insert(index, cls)
         cls_name = get_class_name(cls, fully_qualified=True)
         fork_inst._deserializers[cls_name.lower()] = func
+        clear()
     else:
         fork_inst._deserializers['nonetype'] = func
+        clear()
 
 
 @cached
diff --git a/jsons/_validation.py b/jsons/_validation.py
index 6512e46..c2e8b57 100644
--- a/jsons/_validation.py
+++ b/jsons/_validation.py
@@ -5,7 +5,7 @@ This module contains functionality for validating objects.
 """
 from typing import Union, Sequence, Callable
 
-from jsons._cache import cached
+from jsons._cache import cached, clear
 from jsons._common_impl import StateHolder, get_class_name
 from jsons._lizers_impl import _get_lizer
 from jsons.exceptions import ValidationError
@@ -33,6 +33,7 @@ def set_validator(
         cls_name = get_class_name(cls, fully_qualified=True)
         fork_inst._validators[cls_name.lower()] = func
         fork_inst._classes_validators.append(cls)
+        clear()
 
 
 @cached
-- 
2.43.0


From 9661a51b79f5540e0fe5b317493ab969dd409a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 04/53] fix: never list a class before its (de)serializer is
 stored

In between, a dump or load of a subclass in another thread failed with a
KeyError, and so did every later one if the registration was interrupted
there. Two simultaneous low priority registrations could swap places.
---
 jsons/_lizers_impl.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 5f23472..9660b20 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -38,10 +38,13 @@ def set_serializer(
         for cls_ in cls:
             set_serializer(func, cls_, high_prio, fork_inst)
     elif cls:
-        index = 0 if high_prio else len(fork_inst._classes_serializers)
-        fork_inst._classes_serializers.insert(index, cls)
+        # First store func, so that any listed class always has one.
         cls_name = get_class_name(cls, fully_qualified=True)
         fork_inst._serializers[cls_name.lower()] = func
+        if high_prio:
+            fork_inst._classes_serializers.insert(0, cls)
+        else:
+            fork_inst._classes_serializers.append(cls)
         clear()
     else:
         fork_inst._serializers['nonetype'] = func
@@ -76,10 +79,13 @@ def set_deserializer(
         for cls_ in cls:
             set_deserializer(func, cls_, high_prio, fork_inst)
     elif cls:
-        index = 0 if high_prio else len(fork_inst._classes_deserializers)
-        fork_inst._classes_deserializers.insert(index, cls)
+        # First store func, so that any listed class always has one.
         cls_name = get_class_name(cls, fully_qualified=True)
         fork_inst._deserializers[cls_name.lower()] = func
+        if high_prio:
+            fork_inst._classes_deserializers.insert(0, cls)
+        else:
+            fork_inst._classes_deserializers.append(cls)
         clear()
     else:
         fork_inst._deserializers['nonetype'] = func
-- 
2.43.0


From 4dcb42dddab98739a141d82d8777291b151e798b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 05/53] fix: give a fork its own validators and announced
 classes

They were shared with the parent: a validator that was set, or a class that
was announced, for one fork was in force for all of them.
---
 jsons/_fork_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/_fork_impl.py b/jsons/_fork_impl.py
index 6fd22b1..704b1a6 100644
--- a/jsons/_fork_impl.py
+++ b/jsons/_fork_impl.py
@@ -32,6 +32,9 @@ def fork(
     result._classes_deserializers = fork_inst._classes_deserializers.copy()
     result._serializers = fork_inst._serializers.copy()
     result._deserializers = fork_inst._deserializers.copy()
+    result._classes_validators = fork_inst._classes_validators.copy()
+    result._validators = fork_inst._validators.copy()
+    result._announced_classes = fork_inst._announced_classes.copy()
     result._fork_counter = 0
     result._suppress_warnings = fork_inst._suppress_warnings
     result._suppressed_warnings = fork_inst._suppressed_warnings.copy()
-- 
2.43.0


From 8dab58f1f7d00a9d5e7abb852289a1763e14b23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 06/53] fix: let a class be announced again after another one
 took its name

announce_class was cached, so that announcing A, then B, then A again under
one name left B announced.
---
 jsons/_extra_impl.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/jsons/_extra_impl.py b/jsons/_extra_impl.py
index fa2e038..07594d3 100644
--- a/jsons/_extra_impl.py
+++ b/jsons/_extra_impl.py
@@ -6,7 +6,6 @@ jsons.
 """
 from typing import Optional
 
-from jsons._cache import cached
 from jsons._common_impl import StateHolder, get_class_name
 
 
@@ -35,7 +34,6 @@ def suppress_warning(
     fork_inst._suppressed_warnings |= {code}
 
 
-@cached
 def announce_class(
         cls: type,
         cls_name: Optional[str] = None,
-- 
2.43.0


From fc2ed2b63cf2f55779a7477c9403cefa1d38b34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 07/53] fix: do not divide by zero when an empty collection is
 processed in parallel

---
 jsons/_multitasking.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/_multitasking.py b/jsons/_multitasking.py
index b11ad1e..c9091fb 100644
--- a/jsons/_multitasking.py
+++ b/jsons/_multitasking.py
@@ -18,6 +18,9 @@ def multi_task(
         task_type: type,
         *args,
         **kwargs):
+    if not len(obj):
+        return []
+
     result = _get_list_to_fill(obj, task_type)
     tasks_instances = _start_tasks(tasks=tasks, task_type=task_type, func=func,
                                    list_to_fill=result, obj=obj, args=args,
-- 
2.43.0


From b274d9fcdaf0cddabf9b522e8d80d7e48ac39437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:22 +0000
Subject: [PATCH 08/53] fix: raise if any task of a parallel load or dump fails

Errors in a task were printed at best, and the result held a 0 for each
element that was not processed because of an error, a killed worker or a lost
connection. Tasks that were started already were not waited for if a later
one could not be started.
---
 jsons/_multitasking.py | 66 +++++++++++++++++++++++++++++++++---------
 1 file changed, 53 insertions(+), 13 deletions(-)

diff --git a/jsons/_multitasking.py b/jsons/_multitasking.py
index c9091fb..cee6286 100644
--- a/jsons/_multitasking.py
+++ b/jsons/_multitasking.py
@@ -8,6 +8,13 @@ from typing import List, Callable, Union
 
 from typish import Something
 
+from jsons.exceptions import (
+    JsonsError,
+    DeserializationError,
+    SerializationError,
+    ValidationError
+)
+
 Subscriptable = Something['__getitem__': Callable[[int], object]]
 
 
@@ -22,18 +29,48 @@ def multi_task(
         return []
 
     result = _get_list_to_fill(obj, task_type)
-    tasks_instances = _start_tasks(tasks=tasks, task_type=task_type, func=func,
-                                   list_to_fill=result, obj=obj, args=args,
-                                   kwargs=kwargs)
-    for task in tasks_instances:
-        task.join()
+    tasks_instances = []
+    try:
+        _start_tasks(tasks=tasks, task_type=task_type, func=func,
+                     list_to_fill=result, obj=obj, args=args, kwargs=kwargs,
+                     tasks_instances=tasks_instances)
+    finally:
+        for task in tasks_instances:
+            task.join()
+
+    result = list(result)
+    for elem in result:
+        if isinstance(elem, _Failure):
+            raise elem.error
+    return result
+
 
-    return list(result)
+class _Failure:
+    # Takes the place of a result that could not be obtained.
+    def __init__(self, error: Exception):
+        self.error = error
+
+    def __reduce__(self):
+        # Most errors cannot be pickled, so only the essence is passed on.
+        types = (DeserializationError, SerializationError, ValidationError,
+                 JsonsError)
+        type_ = next((t for t in types if isinstance(self.error, t)),
+                     RuntimeError)
+        msg = getattr(self.error, 'message', None) or str(self.error)
+        return _unpickle_failure, (type_, msg)
+
+
+def _unpickle_failure(type_: type, msg: str) -> _Failure:
+    if type_ is DeserializationError:
+        return _Failure(DeserializationError(msg, None, None))
+    return _Failure(type_(msg))
 
 
 def _get_list_to_fill(obj: list, task_type: type) -> Union[list, Manager]:
     # Return a list or manager that contains enough spots to fill.
-    result = [0] * len(obj)
+    # A spot that was not filled by its task remains a failure.
+    result = [_Failure(RuntimeError('A task ended before it was finished.'))
+              for _ in range(len(obj))]
     if issubclass(task_type, Process):
         manager = Manager()
         result = manager.list(result)
@@ -47,10 +84,10 @@ def _start_tasks(
         list_to_fill: list,
         obj: Subscriptable,
         args,
-        kwargs) -> List[Something['join': Callable[[], None]]]:
-    # Start the tasks and return their instances so they can be joined.
+        kwargs,
+        tasks_instances: List[Something['join': Callable[[], None]]]) -> None:
+    # Start the tasks and add them to tasks_instances so they can be joined.
 
-    tasks_instances = []
     tasks_used = min(tasks, len(obj))
     tasks_left = tasks - tasks_used or 1
 
@@ -67,7 +104,6 @@ def _start_tasks(
             args=(func, list_to_fill, obj, start, end, tasks_left, args, kwargs))
         task.start()
         tasks_instances.append(task)
-    return tasks_instances
 
 
 def _fill(
@@ -81,5 +117,9 @@ def _fill(
         kwargs):
     # Fill the given list with results from func.
     for i_ in range(start, end):
-        loaded = func(obj[i_], tasks=tasks, *args, **kwargs)
-        list_to_fill[i_] = loaded
+        try:
+            loaded = func(obj[i_], tasks=tasks, *args, **kwargs)
+            list_to_fill[i_] = loaded
+        except Exception as err:
+            list_to_fill[i_] = _Failure(err)
+            break
-- 
2.43.0


From 066ea09e682f0ee33a11ef18afb73388c5ae1fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 09/53] fix: load the elements of a list in parallel as they
 are loaded sequentially

With tasks > 1 the elements were loaded without the fork, without
warn_on_fail and with the default task type for nested lists; errors did not
name the element, and a set could not be loaded.
---
 jsons/deserializers/default_list.py | 53 ++++++++++++++++-------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/jsons/deserializers/default_list.py b/jsons/deserializers/default_list.py
index 6f3a880..2a86e73 100644
--- a/jsons/deserializers/default_list.py
+++ b/jsons/deserializers/default_list.py
@@ -1,5 +1,6 @@
+from functools import partial
 from multiprocessing import Process
-from typing import Type
+from typing import Tuple, Type
 
 from typish import get_args
 
@@ -38,32 +39,38 @@ def default_list_deserializer(
         # from and the precedence of classes can be determined.
         kwargs_['_inferred_cls'] = True
 
+    if tasks < 1:
+        raise JsonsError('Invalid number of tasks: {}'.format(tasks))
+
+    load_elem = partial(_load_elem, cls=cls_, warn_on_fail=warn_on_fail,
+                        task_type=task_type, fork_inst=fork_inst, **kwargs_)
+    elems = list(enumerate(obj))
     if tasks == 1:
-        result = _do_load(obj, cls_, warn_on_fail, fork_inst, kwargs_)
-    elif tasks > 1:
-        result = multi_task(load, obj, tasks, task_type, cls_, **kwargs_)
+        result = [load_elem(elem, tasks=1) for elem in elems]
     else:
-        raise JsonsError('Invalid number of tasks: {}'.format(tasks))
-    return result
+        result = multi_task(load_elem, elems, tasks, task_type)
+    return [elem for elem in result if elem is not _Skipped]
 
 
-def _do_load(
-        obj: list,
+class _Skipped:
+    # Takes the place of an element that could not be deserialized.
+    pass
+
+
+def _load_elem(
+        indexed_elem: Tuple[int, object],
         cls: type,
         warn_on_fail: bool,
         fork_inst: Type[StateHolder],
-        kwargs) -> list:
-    result = []
-    for index, elem in enumerate(obj):
-        try:
-            result.append(load(elem, cls=cls, tasks=1, fork_inst=fork_inst, **kwargs))
-        except DeserializationError as err:
-            new_msg = ('Could not deserialize element at index %s. %s' %
-                       (index, err.message))
-            if warn_on_fail:
-                fork_inst._warn(new_msg, 'element-not-deserialized')
-            else:
-                new_err = DeserializationError(new_msg, err.source, err.target)
-                raise new_err from err
-
-    return result
+        **kwargs) -> object:
+    index, elem = indexed_elem
+    try:
+        return load(elem, cls=cls, fork_inst=fork_inst, **kwargs)
+    except DeserializationError as err:
+        new_msg = ('Could not deserialize element at index %s. %s' %
+                   (index, err.message))
+        if not warn_on_fail:
+            new_err = DeserializationError(new_msg, err.source, err.target)
+            raise new_err from err
+        fork_inst._warn(new_msg, 'element-not-deserialized')
+        return _Skipped
-- 
2.43.0


From 1f2916f6c273655cea97c70c1cba6628691cbb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:48 +0000
Subject: [PATCH 10/53] fix: do not remove the stored keys from a dict that is
 loaded

The -keys of the given dict were deleted one by one, so that it could not be
loaded again, nor be tried for the next type of a union.
---
 jsons/deserializers/default_dict.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 1bf7a5d..b9debb4 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -47,18 +47,17 @@ def _load_hashed_keys(
                                        'deserialize a dict with hashed keys.',
                                        obj, cls)
         result = {**obj}
+        original_keys = result.pop('-keys')
         key_type = cls_args[0]
         for key in stored_keys:
             # Get the original (unhashed) key and load it.
-            original_key = result['-keys'][key]
+            original_key = original_keys[key]
             loaded_key = load(original_key, cls=key_type, **kwargs)
 
             # Replace the hashed key by the loaded key entirely.
             result[loaded_key] = result[key]
-            del result['-keys'][key]
             del result[key]
 
-        del result['-keys']
     return result, len(stored_keys) > 0
 
 
-- 
2.43.0


From 1761e19a5dff1f4509f9dfbdc54cdc330d2994cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:51 +0000
Subject: [PATCH 11/53] fix: ignore only the attribute that cannot be dumped

A non-strict dump dropped all attributes after it as well (the warning says
'Ignoring the attribute'), and failed altogether if the error had no args.
---
 jsons/serializers/default_object.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 515c8fc..e5fbfc5 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -130,15 +130,16 @@ def _do_serialize(
                                      **kwargs)
             _store_cls_info(dumped_elem, attr, kwargs)
         except Exception as err:
+            reason = err.args[0] if err.args else repr(err)
             if strict:
-                raise SerializationError(message=err.args[0]) from err
+                raise SerializationError(message=reason) from err
             else:
                 fork_inst._warn('Failed to dump attribute "{}" of object of '
                                 'type "{}". Reason: {}. Ignoring the '
                                 'attribute.'
-                                .format(attr, get_class_name(cls), err.args[0]),
+                                .format(attr, get_class_name(cls), reason),
                                 'attribute-not-serialized')
-                break
+                continue
 
         if make_attributes_public:
             attr_name = attr_name.lstrip('_')
-- 
2.43.0


From add46b9356327d4002c6379f482f58a24cf15bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:15 +0000
Subject: [PATCH 12/53] fix: dump a naive datetime with the local offset of its
 own date

---
 jsons/_datetime_impl.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 575d9a6..c966d9b 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -68,8 +68,8 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
         fork_inst._warn('The use of datetimes without timezone is dangerous '
                         'and can lead to undesired results.',
                         'datetime-without-tz')
-        tzone = datetime.now(timezone.utc).astimezone().tzinfo
-        if tzone is timezone.utc or tzone.utc is timezone.utc:
+        tzone = _get_local_tz(obj)
+        if not tzone.utcoffset(None):
             return '+00:00'
     offset = 'Z'
     if tzone.tzname(None) not in ('UTC', 'UTC+00:00'):
@@ -79,6 +79,20 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
     return offset
 
 
+def _get_local_tz(obj: datetime) -> timezone:
+    """
+    Return the local timezone with the offset it has at the given datetime.
+    :param obj: a datetime instance without timezone info.
+    :return: a timezone instance.
+    """
+    try:
+        result = obj.astimezone().tzinfo
+    except (OverflowError, ValueError, OSError):
+        # The local offset is unknown this close to datetime.min/max.
+        result = datetime.now(timezone.utc).astimezone().tzinfo
+    return result
+
+
 def _timedelta_offset_str(tdelta: timedelta) -> str:
     """
     Return a textual offset (e.g. +01:00 or Z) for the given timedelta.
-- 
2.43.0


From 374ca741f9253dfe62bdd971e55800eb3cf3566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 13/53] fix: dump the minutes of a negative offset

---
 jsons/_datetime_impl.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index c966d9b..e7f1a8c 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -100,9 +100,8 @@ def _timedelta_offset_str(tdelta: timedelta) -> str:
     :return: the offset for ``tdelta``.
     """
     offset_s = tdelta.total_seconds()
-    offset_h = int(offset_s / 3600)
-    offset_m = int((offset_s / 60) % 60)
-    offset_t = time(abs(offset_h), abs(offset_m))
+    offset_h, offset_m = divmod(int(abs(offset_s) // 60), 60)
+    offset_t = time(offset_h, offset_m)
     operator = '+' if offset_s > 0 else '-'
     offset = offset_t.strftime('{}%H:%M'.format(operator))
     return offset
-- 
2.43.0


From 8fcc3b088249741635fddd9f8621bd576f4de712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 14/53] fix: dump a year before 1000 in four digits

---
 jsons/_datetime_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index e7f1a8c..c374392 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -18,6 +18,9 @@ def to_str(
         fork_inst: type,
         pattern: str = RFC3339_DATETIME_PATTERN) -> str:
     offset = get_offset_str(dt, fork_inst)
+    if '%Y' in pattern:
+        # strftime does not pad years with zeros on every platform.
+        pattern = pattern.replace('%Y', '{:04d}'.format(dt.year))
     if not strip_microseconds and getattr(dt, 'microsecond', None):
         pattern += '.%f'
     return dt.strftime("{}{}".format(pattern, offset))
-- 
2.43.0


From 4b623e662af2dee9e5a97a3320c5d0dd8a65e1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 15/53] fix: load a time with microseconds

---
 jsons/deserializers/default_time.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_time.py b/jsons/deserializers/default_time.py
index 988d1f3..0dd8c21 100644
--- a/jsons/deserializers/default_time.py
+++ b/jsons/deserializers/default_time.py
@@ -13,4 +13,7 @@ def default_time_deserializer(obj: str,
     :param kwargs: not used.
     :return: a ``datetime.time`` instance.
     """
-    return get_datetime_inst(obj, RFC3339_TIME_PATTERN).time()
+    pattern = RFC3339_TIME_PATTERN
+    if '.' in obj:
+        pattern += '.%f'
+    return get_datetime_inst(obj, pattern).time()
-- 
2.43.0


From 44b71726831e661c35a9c1ad07e94ee2a4520ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 16/53] fix: load the parts of a timezone and a complex number
 with the options and fork of the call

---
 jsons/deserializers/default_complex.py  | 3 ++-
 jsons/deserializers/default_timezone.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_complex.py b/jsons/deserializers/default_complex.py
index ae4a861..61cb677 100644
--- a/jsons/deserializers/default_complex.py
+++ b/jsons/deserializers/default_complex.py
@@ -16,7 +16,8 @@ def default_complex_deserializer(obj: Dict[str, float],
     """
     try:
         clean_obj = load({'real': obj['real'], 'imag': obj['imag']},
-                         cls=Dict[str, float])
+                         cls=Dict[str, float],
+                         **{**kwargs, 'key_transformer': None})
         return complex(clean_obj['real'], clean_obj['imag'])
     except KeyError as err:
         raise AttributeError("Cannot deserialize {} to a complex number, "
diff --git a/jsons/deserializers/default_timezone.py b/jsons/deserializers/default_timezone.py
index 213e1c0..7cdf26f 100644
--- a/jsons/deserializers/default_timezone.py
+++ b/jsons/deserializers/default_timezone.py
@@ -13,4 +13,4 @@ def default_timezone_deserializer(obj: dict,
     :param kwargs: not used.
     :return: a ``datetime.timezone`` instance.
     """
-    return timezone(load(obj['offset'], timedelta), obj['name'])
+    return timezone(load(obj['offset'], timedelta, **kwargs), obj['name'])
-- 
2.43.0


From ff7f0d0c2b976aa14d11c838f2898a335d79f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:43 +0000
Subject: [PATCH 17/53] fix: load a document of which the meta info holds no
 classes

---
 jsons/_common_impl.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 7e17359..b92592d 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -120,10 +120,13 @@ def determine_precedence(
 def get_cls_and_meta(
         json_obj: object,
         fork_inst: type) -> Tuple[Optional[type], Optional[dict]]:
-    if isinstance(json_obj, dict) and META_ATTR in json_obj:
-        cls_str = json_obj[META_ATTR]['classes']['/']
+    meta = json_obj.get(META_ATTR) if isinstance(json_obj, dict) else None
+    classes = meta.get('classes') if isinstance(meta, dict) else None
+    cls_str = classes.get('/') if isinstance(classes, dict) else None
+    if isinstance(cls_str, str):
         cls = get_cls_from_str(cls_str, json_obj, fork_inst)
-        return cls, json_obj[META_ATTR]
+        return cls, meta
+    # There is no meta info or it does not hold any info about the classes.
     return None, None
 
 
-- 
2.43.0


From 2e95cf33190aac22498eae8ff22cd3d2e001fa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:46 +0000
Subject: [PATCH 18/53] fix: load a document with nested generic types in its
 meta info

---
 jsons/_common_impl.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index b92592d..eaee704 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -86,19 +86,36 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
         cls_name = splitted[-1]
         cls_module = import_module(module_name)
         cls = getattr(cls_module, cls_name)
-    except (ImportError, AttributeError, ValueError):
+    except (ImportError, AttributeError, TypeError, ValueError):
         cls = _lookup_announced_class(cls_str, source, fork_inst)
     return cls
 
 
 def _get_generic_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     # If cls_str represents a generic type, try to parse the sub types.
-    origin_str, subtypes_str = cls_str.split('[')
+    origin_str, _, subtypes_str = cls_str.partition('[')
     subtypes_str = subtypes_str[0:-1]  # Remove the ']'.
     origin = get_cls_from_str(origin_str, source, fork_inst)
     subtypes = [get_cls_from_str(s.strip(), source, fork_inst)
-                for s in subtypes_str.split(',')]
-    return origin[tuple(subtypes)]
+                for s in _split_subtypes(subtypes_str)]
+    try:
+        return origin[tuple(subtypes)]
+    except TypeError as err:
+        msg = 'The type "{}" is not a valid generic type.'.format(cls_str)
+        raise UnknownClassError(msg, source, cls_str) from err
+
+
+def _split_subtypes(subtypes_str: str) -> list:
+    # Split by the commas that are not inside the brackets of a sub type.
+    result = ['']
+    depth = 0
+    for char in subtypes_str:
+        depth += (char == '[') - (char == ']')
+        if char == ',' and depth == 0:
+            result.append('')
+        else:
+            result[-1] += char
+    return result
 
 
 def determine_precedence(
-- 
2.43.0


From 471dd4243e0bf35fb0fb4733111e96db4fc4cc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 19/53] fix: call an attr_getter once for a constructor
 argument

---
 jsons/deserializers/default_object.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index cb41e84..13c20c1 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -37,6 +37,8 @@ def default_object_deserializer(
     """
     obj, kwargs = _check_and_transform_keys(obj, key_transformer, **kwargs)
     kwargs['strict'] = strict
+    # Copy, because every getter that provided a constructor argument is popped.
+    kwargs['attr_getters'] = dict(kwargs.get('attr_getters') or {})
     constructor_args = _get_constructor_args(obj, cls, **kwargs)
     remaining_attrs = _get_remaining_args(obj, cls, constructor_args,
                                           strict, kwargs['fork_inst'])
@@ -56,7 +58,7 @@ def _get_constructor_args(
     # json_obj.
     signature_parameters = _get_signature(cls)
     hints = get_type_hints(cls.__init__, fallback_ns=cls.__module__)
-    attr_getters = dict(**(attr_getters or {}))
+    attr_getters = {} if attr_getters is None else attr_getters
 
     result = {}
     for sig_key, sig in signature_parameters.items():
-- 
2.43.0


From 828f5ffaf0e6ec28368f37059f6b8555e03984dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:19 +0000
Subject: [PATCH 20/53] fix: dump a timezone that has a type hint

---
 jsons/serializers/default_timezone.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_timezone.py b/jsons/serializers/default_timezone.py
index cd565b1..cf341b2 100644
--- a/jsons/serializers/default_timezone.py
+++ b/jsons/serializers/default_timezone.py
@@ -12,7 +12,8 @@ def default_timezone_serializer(obj: timezone, **kwargs) -> dict:
     :return: ``timezone`` as a dict.
     """
     name = obj.tzname(None)
-    offset = dump(obj.utcoffset(None), **kwargs)
+    # The class in kwargs is that of obj, not that of its offset.
+    offset = dump(obj.utcoffset(None), **{**kwargs, 'cls': None})
     return {
         'name': name,
         'offset': offset
-- 
2.43.0


From fa544edfdac3bd92ce7054a5df37e73fb16ef1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 21/53] fix: process a tuple with a type hint without sub types

---
 jsons/_compatibility_impl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index 457b2b8..51b9f13 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -45,7 +45,9 @@ def tuple_with_ellipsis(tup: type) -> bool:
     # Python3.7: Tuples have __args__
     use_el = getattr(tup, '__tuple_use_ellipsis__', None)
     if use_el is None:
-        use_el = tup.__args__[-1] is ...
+        # Tuples without sub types have no (or empty) __args__.
+        args = getattr(tup, '__args__', None)
+        use_el = bool(args) and args[-1] is ...
     return use_el
 
 
-- 
2.43.0


From e555e1a240c4619c215e299f16aa6dbe7b1f964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:19 +0000
Subject: [PATCH 22/53] fix: recognize inner classes without reading their
 source code

---
 jsons/serializers/default_object.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index e5fbfc5..d55c45a 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -328,8 +328,10 @@ def _store_cls_info(result: object, original_obj: dict, kwargs):
 @cached
 def _is_innerclass(attr: str, cls: type) -> bool:
     attr_obj = getattr(cls, attr, None)
+    # Do not rely on the source code; it is not always available.
     return (isinstance(attr_obj, type)
-            and inspect.getsource(attr_obj) in inspect.getsource(cls))
+            and attr_obj.__module__ == cls.__module__
+            and attr_obj.__qualname__.startswith(cls.__qualname__ + '.'))
 
 
 _ABC_ATTRS = ('_abc_registry', '_abc_cache', '_abc_negative_cache',
-- 
2.43.0


From 949a49a0f7bbff1544ffa468777a58f63dfd7d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 23/53] fix: do not let keys with equal hashes overwrite each
 other

---
 jsons/serializers/default_dict.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 3f04af1..c84d421 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -76,6 +76,9 @@ def _store_and_hash(
             key_hash = hash(key)
             obj_ = {**obj}
             obj_.setdefault('-keys', {})
+            while key_hash in obj_:
+                # Another key has this hash already.
+                key_hash += 1
             obj_['-keys'][key_hash] = dumped_key
             result = obj_, key_hash
     return result
-- 
2.43.0


From a5dc084c98e8091a97ee822258f2a6e0ed99159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 24/53] fix: do not store the key of a stripped entry

---
 jsons/serializers/default_dict.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index c84d421..e30a6fe 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -37,6 +37,15 @@ def default_dict_serializer(
         obj_ = obj[key]
         cls_ = types.get(key, None)
 
+        dumped_elem = dump(obj_,
+                           cls=cls_,
+                           key_transformer=key_transformer,
+                           strip_nulls=strip_nulls,
+                           strict=strict,
+                           **kwargs)
+        if strip_nulls and dumped_elem is None:
+            continue
+
         # If key is not a valid json type, use the hash as key and store the
         # original key in a separate section.
         dict_and_key = _store_and_hash(result, key,
@@ -46,16 +55,9 @@ def default_dict_serializer(
         if dict_and_key:
             result, key = dict_and_key
 
-        dumped_elem = dump(obj_,
-                           cls=cls_,
-                           key_transformer=key_transformer,
-                           strip_nulls=strip_nulls,
-                           strict=strict,
-                           **kwargs)
-        if not (strip_nulls and dumped_elem is None):
-            if key_transformer:
-                key = key_transformer(key)
-            result[key] = dumped_elem
+        if key_transformer:
+            key = key_transformer(key)
+        result[key] = dumped_elem
     return result
 
 
-- 
2.43.0


From fb319e2e980a6d5062445bdcab6b2665b5bd6d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:14 +0000
Subject: [PATCH 25/53] fix: dump with the own fork after with_dump

---
 jsons/classes/json_serializable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/classes/json_serializable.py b/jsons/classes/json_serializable.py
index 4e84d70..da9125a 100644
--- a/jsons/classes/json_serializable.py
+++ b/jsons/classes/json_serializable.py
@@ -52,7 +52,8 @@ class JsonSerializable(StateHolder):
         """
 
         def _wrapper(inst, **kwargs_):
-            return dump(inst, **{**kwargs_, **kwargs})
+            return dump(inst, **{'fork_inst': inst.__class__,
+                                 **kwargs_, **kwargs})
 
         type_ = cls.fork() if fork else cls
         type_.dump = _wrapper
-- 
2.43.0


From 2a445a6225980f1c1667cad302a3eda8e5ec2208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 26/53] fix: do not cache the registered functions

A registration that overlapped lookups by other threads could be seen by one
lookup and not by a later one, which was still answered from the cache. The
lookups are as fast without the cache, so there is no need for one that must
be invalidated by every registration.
---
 jsons/_cache.py       | 11 ++---------
 jsons/_lizers_impl.py |  7 -------
 jsons/_validation.py  |  3 ---
 3 files changed, 2 insertions(+), 19 deletions(-)

diff --git a/jsons/_cache.py b/jsons/_cache.py
index ebf2535..0978e24 100644
--- a/jsons/_cache.py
+++ b/jsons/_cache.py
@@ -14,19 +14,13 @@ class _Wrapper:
     for a single point from which cache can be cleared.
     """
     instances = deque([])
-    # Part of every cache key. It is replaced upon every clear, so that a
-    # result that was still being calculated at that moment is never used.
-    generation = object()
 
     def __init__(self, wrapped):
         self.wrapped = wrapped
         self.instances.append(self)
 
-    def __call__(self, *args, **kwargs):
-        return self._call(_Wrapper.generation, *args, **kwargs)
-
     @lru_cache(typed=True)
-    def _call(self, _generation, *args, **kwargs):
+    def __call__(self, *args, **kwargs):
         return self.wrapped(*args, **kwargs)
 
 
@@ -48,6 +42,5 @@ def clear():
     Clear all cache of functions that were cached using ``cached``.
     :return: None.
     """
-    _Wrapper.generation = object()
     for w in _Wrapper.instances:
-        w._call.cache_clear()
+        w.__call__.cache_clear()
diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 9660b20..461fbb9 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -6,7 +6,6 @@ deserializers.
 """
 from typing import Optional, Dict, Sequence, Union
 
-from jsons._cache import cached, clear
 from jsons._common_impl import StateHolder, get_class_name
 from jsons._compatibility_impl import get_naked_class
 
@@ -45,10 +44,8 @@ def set_serializer(
             fork_inst._classes_serializers.insert(0, cls)
         else:
             fork_inst._classes_serializers.append(cls)
-        clear()
     else:
         fork_inst._serializers['nonetype'] = func
-        clear()
 
 
 def set_deserializer(
@@ -86,13 +83,10 @@ def set_deserializer(
             fork_inst._classes_deserializers.insert(0, cls)
         else:
             fork_inst._classes_deserializers.append(cls)
-        clear()
     else:
         fork_inst._deserializers['nonetype'] = func
-        clear()
 
 
-@cached
 def get_serializer(
         cls: type,
         fork_inst: Optional[type] = StateHolder) -> callable:
@@ -107,7 +101,6 @@ def get_serializer(
     return serializer
 
 
-@cached
 def get_deserializer(
         cls: type,
         fork_inst: Optional[type] = StateHolder) -> callable:
diff --git a/jsons/_validation.py b/jsons/_validation.py
index c2e8b57..15a158c 100644
--- a/jsons/_validation.py
+++ b/jsons/_validation.py
@@ -5,7 +5,6 @@ This module contains functionality for validating objects.
 """
 from typing import Union, Sequence, Callable
 
-from jsons._cache import cached, clear
 from jsons._common_impl import StateHolder, get_class_name
 from jsons._lizers_impl import _get_lizer
 from jsons.exceptions import ValidationError
@@ -33,10 +32,8 @@ def set_validator(
         cls_name = get_class_name(cls, fully_qualified=True)
         fork_inst._validators[cls_name.lower()] = func
         fork_inst._classes_validators.append(cls)
-        clear()
 
 
-@cached
 def get_validator(
         cls: type,
         fork_inst: type = StateHolder) -> callable:
-- 
2.43.0


From 9786196a40ef2f2a028108c1083f6550a55307f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:36 +0000
Subject: [PATCH 27/53] fix: a verbose dump does not write class names into
 dicts that belong to the dumped object

---
 jsons/serializers/default_object.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index d55c45a..25f87e3 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -128,7 +128,7 @@ def _do_serialize(
                                      strip_class_variables=strip_class_variables,
                                      strip_attr=strip_attr,
                                      **kwargs)
-            _store_cls_info(dumped_elem, attr, kwargs)
+            dumped_elem = _store_cls_info(dumped_elem, attr, kwargs)
         except Exception as err:
             reason = err.args[0] if err.args else repr(err)
             if strict:
@@ -322,7 +322,9 @@ def _store_cls_info(result: object, original_obj: dict, kwargs):
             cls_name = repr(cls)
         else:
             cls_name = get_class_name(cls, fully_qualified=True)
-        result['-cls'] = cls_name
+        # Copy, because a serializer may have returned a part of the object.
+        result = {**result, '-cls': cls_name}
+    return result
 
 
 @cached
-- 
2.43.0


From e6cac247a82ecaefc018aec693fd511cc18beee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 28/53] fix: keep the exception of a validator as the cause of
 the ValidationError

---
 jsons/_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/_validation.py b/jsons/_validation.py
index 15a158c..a3136e5 100644
--- a/jsons/_validation.py
+++ b/jsons/_validation.py
@@ -62,6 +62,7 @@ def validate(
     validator = get_validator(cls, fork_inst)
     result = True
     msg = 'Validation failed.'
+    cause = None
     if validator:
         try:
             result = validator(obj)
@@ -69,5 +70,6 @@ def validate(
             if err.args:
                 msg = err.args[0]
             result = False
+            cause = err
     if not result:
-        raise ValidationError(msg)
+        raise ValidationError(msg) from cause
-- 
2.43.0


From 09d09368234f88f7ddca31d28692fd59ac6cd4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 29/53] fix: warn_on_fail also skips an element that its
 validator rejects

---
 jsons/deserializers/default_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_list.py b/jsons/deserializers/default_list.py
index 2a86e73..2d919b6 100644
--- a/jsons/deserializers/default_list.py
+++ b/jsons/deserializers/default_list.py
@@ -66,10 +66,12 @@ def _load_elem(
     index, elem = indexed_elem
     try:
         return load(elem, cls=cls, fork_inst=fork_inst, **kwargs)
-    except DeserializationError as err:
+    except JsonsError as err:
         new_msg = ('Could not deserialize element at index %s. %s' %
                    (index, err.message))
         if not warn_on_fail:
+            if not isinstance(err, DeserializationError):
+                raise
             new_err = DeserializationError(new_msg, err.source, err.target)
             raise new_err from err
         fork_inst._warn(new_msg, 'element-not-deserialized')
-- 
2.43.0


From c8e4fcf05e13f59716aeec873b646500a9341af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:38 +0000
Subject: [PATCH 30/53] fix: keep the error of the first member of a union as
 the cause

---
 jsons/deserializers/default_union.py | 7 ++++---
 jsons/serializers/default_union.py   | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/jsons/deserializers/default_union.py b/jsons/deserializers/default_union.py
index a499e5a..6a11b75 100644
--- a/jsons/deserializers/default_union.py
+++ b/jsons/deserializers/default_union.py
@@ -17,14 +17,15 @@ def default_union_deserializer(obj: object, cls: Union, **kwargs) -> object:
     :return: An object of the first type of the Union that could be
     deserialized successfully.
     """
+    cause = None
     for sub_type in get_union_params(cls):
         try:
             return load(obj, sub_type, **kwargs)
-        except JsonsError:
-            pass  # Try the next one.
+        except JsonsError as err:
+            cause = cause or err  # Try the next one.
     else:
         args_msg = ', '.join([get_class_name(cls_)
                               for cls_ in get_union_params(cls)])
         err_msg = ('Could not match the object of type "{}" to any type of '
                    'the Union: {}'.format(type(obj).__name__, args_msg))
-        raise DeserializationError(err_msg, obj, cls)
+        raise DeserializationError(err_msg, obj, cls) from cause
diff --git a/jsons/serializers/default_union.py b/jsons/serializers/default_union.py
index f0cddd7..4e0169d 100644
--- a/jsons/serializers/default_union.py
+++ b/jsons/serializers/default_union.py
@@ -24,14 +24,15 @@ def default_union_serializer(obj: object, cls: Union, **kwargs) -> object:
     if obj is None and NoneType in sub_types:
         return obj
 
+    cause = None
     for sub_type in sub_types:
         try:
             return dump(obj, sub_type, **kwargs)
-        except JsonsError:
-            pass  # Try the next one.
+        except JsonsError as err:
+            cause = cause or err  # Try the next one.
     else:
         args_msg = ', '.join([get_class_name(cls_)
                               for cls_ in get_union_params(cls)])
         err_msg = ('Could not match the object of type "{}" to any type of '
                    'the Union: {}'.format(type(obj), args_msg))
-        raise SerializationError(err_msg)
+        raise SerializationError(err_msg) from cause
-- 
2.43.0


From 24a3156580f3998be05b23dfcc76ee31c4885041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 31/53] fix: dump an instance of a subclass of datetime as a
 datetime, not as a date

---
 jsons/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/__init__.py b/jsons/__init__.py
index 128f8f0..3152988 100644
--- a/jsons/__init__.py
+++ b/jsons/__init__.py
@@ -276,8 +276,8 @@ __all__ = [
 
 set_serializer(default_tuple_serializer, (tuple, Tuple))
 set_serializer(default_complex_serializer, complex)
-set_serializer(default_datetime_serializer, datetime)
 set_serializer(default_date_serializer, date)
+set_serializer(default_datetime_serializer, datetime)  # must be after date_serializer
 set_serializer(default_time_serializer, time)
 set_serializer(default_timezone_serializer, timezone)
 set_serializer(default_timedelta_serializer, timedelta)
@@ -296,8 +296,8 @@ set_deserializer(default_list_deserializer, (list, List))
 set_deserializer(default_tuple_deserializer, (tuple, Tuple))
 set_deserializer(default_union_deserializer, (Union, Optional))
 set_deserializer(default_defaultdict_deserializer, DefaultDict)
-set_deserializer(default_datetime_deserializer, datetime)
 set_deserializer(default_date_deserializer, date)
+set_deserializer(default_datetime_deserializer, datetime)  # must be after date_deserializer
 set_deserializer(default_time_deserializer, time)
 set_deserializer(default_timezone_deserializer, timezone)
 set_deserializer(default_timedelta_deserializer, timedelta)
-- 
2.43.0


From e84ff065560a255e3961eb9ee895cc7f5e3bbfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 32/53] fix: a strict dump of a sequence no longer converts
 elements to the type of the first one

---
 jsons/serializers/default_iterable.py | 11 ++++++-----
 jsons/serializers/default_list.py     |  2 +-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/jsons/serializers/default_iterable.py b/jsons/serializers/default_iterable.py
index c765f07..aca8fb6 100644
--- a/jsons/serializers/default_iterable.py
+++ b/jsons/serializers/default_iterable.py
@@ -1,8 +1,8 @@
-from collections.abc import Iterable
+from collections.abc import Iterable, Sequence
 from multiprocessing import Process
 from typing import Tuple, Optional
 
-from typish import get_args, get_type
+from typish import get_args
 
 from jsons._dump_impl import dump
 from jsons._multitasking import multi_task
@@ -75,7 +75,8 @@ def _do_dump(obj_cls_tuple: Tuple[object, type], *args, **kwargs):
 
 def _determine_cls(obj: Iterable, cls: Optional[type]) -> Optional[type]:
     cls_ = cls
-    if not cls and hasattr(obj, '__getitem__') and len(obj) > 0:
-        obj_with_only_one_elem = obj.__getitem__(slice(0, 1))
-        cls_ = get_type(obj_with_only_one_elem)
+    if not cls and isinstance(obj, Sequence) and len(obj) > 0:
+        elem_type = type(obj[0])
+        if all(isinstance(elem, elem_type) for elem in obj):
+            cls_ = Tuple[(elem_type,) * len(obj)]
     return cls_
diff --git a/jsons/serializers/default_list.py b/jsons/serializers/default_list.py
index fbf6128..4071a6d 100644
--- a/jsons/serializers/default_list.py
+++ b/jsons/serializers/default_list.py
@@ -41,7 +41,7 @@ def default_list_serializer(
     if cls_args:
         inner_type = cls_args[0]
         serializer = get_serializer(inner_type, fork_inst)
-    elif strict:
+    elif strict and all(isinstance(elem, type(obj[0])) for elem in obj):
         inner_type = type(obj[0])
         serializer = get_serializer(inner_type, fork_inst)
 
-- 
2.43.0


From a436345e9e9744ca046e00793db6b8a0f5fe64ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:25 +0000
Subject: [PATCH 33/53] fix: C12 loads of a too long number or too deep nesting
 raises an error of the library

---
 jsons/_load_impl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 724cdf2..3b7bb21 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -151,6 +151,10 @@ def loads(
     except JSONDecodeError as err:
         raise DecodeError('Could not load a dict; the given string is not '
                           'valid JSON.', str_, cls, err) from err
+    except (ValueError, RecursionError) as err:
+        # E.g. a number with too many digits or brackets nested too deeply.
+        raise DeserializationError('Could not decode the given string. {}'
+                                   .format(err), str_, cls) from err
     else:
         return load(obj, cls, *args, **kwargs)
 
-- 
2.43.0


From 186762075ffb4b168db318ddfdfc7894581b8b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 34/53] fix: C12 a string or an object is not loaded as a list
 or tuple of its characters or keys, nor a tuple with missing elements

---
 jsons/deserializers/default_list.py  |  4 ++++
 jsons/deserializers/default_tuple.py | 14 +++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_list.py b/jsons/deserializers/default_list.py
index 2d919b6..75df535 100644
--- a/jsons/deserializers/default_list.py
+++ b/jsons/deserializers/default_list.py
@@ -30,6 +30,10 @@ def default_list_deserializer(
     :param kwargs: any keyword arguments.
     :return: a deserialized list instance.
     """
+    if isinstance(obj, (str, dict)):
+        # These can be iterated as well, but they are not lists.
+        raise DeserializationError('Cannot deserialize "{}" as a list'
+                                   .format(obj), obj, cls)
     cls_ = None
     kwargs_ = {**kwargs}
     cls_args = get_args(cls)
diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 2f51905..88bd1a8 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -6,7 +6,7 @@ from jsons._common_impl import NoneType
 from jsons._compatibility_impl import (get_type_hints, get_union_params,
                                        tuple_with_ellipsis)
 from jsons._load_impl import load
-from jsons.exceptions import UnfulfilledArgumentError
+from jsons.exceptions import DeserializationError, UnfulfilledArgumentError
 
 
 def default_tuple_deserializer(obj: list,
@@ -24,11 +24,19 @@ def default_tuple_deserializer(obj: list,
     """
     if hasattr(cls, '_fields'):
         return default_namedtuple_deserializer(obj, cls, key_transformer=key_transformer, **kwargs)
+    if isinstance(obj, (str, dict)):
+        # These can be iterated as well, but they are not lists.
+        raise DeserializationError('Cannot deserialize "{}" as a tuple'
+                                   .format(obj), obj, cls)
     cls_args = get_args(cls)
     if cls_args:
         tuple_types = getattr(cls, '__tuple_params__', cls_args)
         if tuple_with_ellipsis(cls):
             tuple_types = [tuple_types[0]] * len(obj)
+        if len(obj) != len(tuple_types):
+            raise DeserializationError(
+                'Expected {} elements, but "{}" has {}'
+                .format(len(tuple_types), obj, len(obj)), obj, cls)
         list_ = [load(value, tuple_types[i], **kwargs)
                  for i, value in enumerate(obj)]
     else:
@@ -51,6 +59,10 @@ def default_namedtuple_deserializer(
     :return: a deserialized named tuple (i.e. an instance of a class).
     """
     is_dict = isinstance(obj, dict)
+    if isinstance(obj, str) or (not is_dict and len(obj) > len(cls._fields)):
+        raise DeserializationError('Cannot deserialize "{}" as a named tuple '
+                                   'with {} fields'
+                                   .format(obj, len(cls._fields)), obj, cls)
     key_tfr = key_transformer or (lambda key: key)
 
     if is_dict:
-- 
2.43.0


From 94a68b8f04a6465e6b7d91815e117b14f039beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 35/53] fix: C12 an empty list or string does not load as an
 object with all defaults

---
 jsons/deserializers/default_object.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 13c20c1..697662e 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -11,7 +11,11 @@ from jsons._common_impl import (
 )
 from jsons._compatibility_impl import get_type_hints
 from jsons._load_impl import load
-from jsons.exceptions import SignatureMismatchError, UnfulfilledArgumentError
+from jsons.exceptions import (
+    DeserializationError,
+    SignatureMismatchError,
+    UnfulfilledArgumentError
+)
 
 
 def default_object_deserializer(
@@ -35,6 +39,9 @@ def default_object_deserializer(
     deserializers.
     :return: an instance of type ``cls``.
     """
+    if not isinstance(obj, dict):
+        raise DeserializationError('Cannot deserialize "{}" into "{}"'
+                                   .format(obj, get_class_name(cls)), obj, cls)
     obj, kwargs = _check_and_transform_keys(obj, key_transformer, **kwargs)
     kwargs['strict'] = strict
     # Copy, because every getter that provided a constructor argument is popped.
-- 
2.43.0


From df5d300e0206fe4065efb4deb1e4f4d4fb95b255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 36/53] fix: C15 meta hints of a verbose dump leaked into
 nested objects and list elements

---
 jsons/_common_impl.py                 | 13 +++++++++++++
 jsons/_load_impl.py                   |  3 ++-
 jsons/deserializers/default_object.py | 22 +++++-----------------
 3 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index eaee704..c969c74 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -147,6 +147,19 @@ def get_cls_and_meta(
     return None, None
 
 
+def narrow_meta_hints(meta_hints: Optional[dict], key: str) -> dict:
+    """
+    Return the meta hints below the attribute with the given key: that
+    attribute becomes the new root.
+    """
+    prefix = '/{}'.format(key)
+    result = {path[len(prefix):]: meta_hints[path] for path in meta_hints or {}
+              if path.startswith(prefix + '/')}
+    if prefix in (meta_hints or {}):
+        result['/'] = meta_hints[prefix]
+    return result
+
+
 def can_match_with_none(cls: type):
     # Return True if cls allows None; None is a valid value with the given cls.
     result = cls in (Any, object, None, NoneType)
diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 3b7bb21..645df54 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -89,8 +89,9 @@ def load(
     initial = kwargs.get('_initial', True)
 
     kwargs_ = {
-        'meta_hints': meta_hints,  # Overridable by kwargs.
         **kwargs,
+        # The meta hints of json_obj itself precede those of its parents.
+        'meta_hints': meta_hints or kwargs.get('meta_hints') or {},
         'strict': strict,
         'fork_inst': fork_inst,
         'attr_getters': attr_getters,
diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 697662e..177d70b 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -7,7 +7,8 @@ from jsons._common_impl import (
     META_ATTR,
     get_cls_from_str,
     determine_precedence,
-    can_match_with_none
+    can_match_with_none,
+    narrow_meta_hints
 )
 from jsons._compatibility_impl import get_type_hints
 from jsons._load_impl import load
@@ -122,28 +123,15 @@ def _get_value_for_attr(
     return result
 
 
-def _remove_prefix(prefix: str, s: str) -> str:
-    if s.startswith(prefix):
-        return s[len(prefix):] or '/'  # Special case: map the empty string to '/'
-    return s
-
-
 def _get_value_from_obj(obj, cls, sig, sig_key, meta_hints, **kwargs):
     # Obtain the value for the attribute with the given signature from the
     # given obj. Try to obtain the class of this attribute from the meta info
     # or from type hints.
-    cls_key = '/{}'.format(sig_key)
-    cls_str_from_meta = meta_hints.get(cls_key, None)
-    new_hints = meta_hints
+    new_hints = narrow_meta_hints(meta_hints, sig_key)
     cls_from_meta = None
-    if cls_str_from_meta:
+    if new_hints.get('/'):
         cls_from_meta = get_cls_from_str(
-            cls_str_from_meta, obj, kwargs['fork_inst'])
-        # Rebuild the class hints: cls_key becomes the new root.
-        new_hints = {
-            _remove_prefix(cls_key, key): meta_hints[key]
-            for key in meta_hints
-        }
+            new_hints['/'], obj, kwargs['fork_inst'])
     cls_ = determine_precedence(cls=cls, cls_from_meta=cls_from_meta,
                                 cls_from_type=None, inferred_cls=True)
     value = load(obj[sig_key], cls_, meta_hints=new_hints, **kwargs)
-- 
2.43.0


From 96381277443e52ea44357a1b0671b3e4eb448fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 37/53] fix: C15 nested classes of a verbose dump were lost in
 dict values, unhinted attributes and with a key transformer

---
 jsons/_common_impl.py                 | 15 +++++++++++++++
 jsons/deserializers/default_dict.py   |  5 ++++-
 jsons/deserializers/default_object.py | 26 +++++++++++++++++++++-----
 jsons/deserializers/default_tuple.py  | 20 ++++++++++++++++++--
 4 files changed, 58 insertions(+), 8 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index c969c74..4480f82 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -160,6 +160,21 @@ def narrow_meta_hints(meta_hints: Optional[dict], key: str) -> dict:
     return result
 
 
+def transform_meta_hints(
+        meta_hints: Optional[dict],
+        key_transformer: Callable[[str], str]) -> dict:
+    """
+    Return the meta hints with the key transformer applied to the keys of the
+    attributes directly below the root.
+    """
+    result = {}
+    for path, cls_str in (meta_hints or {}).items():
+        key, slash, rest = path[1:].partition('/')
+        new_key = key_transformer(key) if key else key
+        result['/{}{}{}'.format(new_key, slash, rest)] = cls_str
+    return result
+
+
 def can_match_with_none(cls: type):
     # Return True if cls allows None; None is a valid value with the given cls.
     result = cls in (Any, object, None, NoneType)
diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index b9debb4..c43b79e 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -2,6 +2,7 @@ from typing import Callable, Optional, Tuple
 
 from typish import get_args
 
+from jsons._common_impl import narrow_meta_hints
 from jsons._load_impl import load
 from jsons.exceptions import DeserializationError
 
@@ -70,6 +71,7 @@ def _deserialize(
     key_transformer = key_transformer or (lambda key: key)
     key_func = key_transformer
     kwargs_ = {**kwargs, 'key_transformer': key_transformer}
+    meta_hints = kwargs_.pop('meta_hints', None)
 
     if len(cls_args) == 2:
         cls_k, cls_v = cls_args
@@ -81,6 +83,7 @@ def _deserialize(
             kwargs_k = {**kwargs, 'cls': cls_k}
             key_func = lambda key: load(key_transformer(key), **kwargs_k)
     return {
-        key_func(key): load(obj[key], **kwargs_)
+        key_func(key): load(obj[key], **kwargs_,
+                            meta_hints=narrow_meta_hints(meta_hints, key))
         for key in obj
     }
diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 177d70b..9d88a7a 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -8,7 +8,8 @@ from jsons._common_impl import (
     get_cls_from_str,
     determine_precedence,
     can_match_with_none,
-    narrow_meta_hints
+    narrow_meta_hints,
+    transform_meta_hints
 )
 from jsons._compatibility_impl import get_type_hints
 from jsons._load_impl import load
@@ -157,9 +158,13 @@ def _set_remaining_attrs(instance,
                             'that you did not provide an annotation in your '
                             'class (ending up in __annotations__).'
                             .format(attr_name), 'hashed-keys-without-hint')
-        attr_type = attr_type or type(remaining_attrs[attr_name])
+        hints = narrow_meta_hints(kwargs.get('meta_hints'), attr_name)
+        attr_type = (attr_type
+                     or _get_recorded_cls(instance, attr_name, hints, kwargs)
+                     or type(remaining_attrs[attr_name]))
 
-        loaded_attr = load(remaining_attrs[attr_name], attr_type, **kwargs)
+        loaded_attr = load(remaining_attrs[attr_name], attr_type,
+                           **{**kwargs, 'meta_hints': hints})
         try:
             setattr(instance, attr_name, loaded_attr)
         except AttributeError:
@@ -168,14 +173,25 @@ def _set_remaining_attrs(instance,
         setattr(instance, attr_name, getter())
 
 
+def _get_recorded_cls(instance, attr_name, meta_hints, kwargs):
+    # Get the class that a verbose dump recorded for a remaining attribute.
+    cls_str = meta_hints.get('/')
+    is_property = isinstance(getattr(type(instance), attr_name, None), property)
+    if cls_str and '[' not in cls_str and not is_property:
+        return get_cls_from_str(cls_str, instance, kwargs['fork_inst'])
+
+
 def _check_and_transform_keys(obj: dict,
                               key_transformer: Optional[Callable[[str], str]],
                               **kwargs) -> Tuple[dict, dict]:
     if key_transformer:
-        obj = {key_transformer(key): obj[key] for key in obj}
+        obj = {key if key == META_ATTR else key_transformer(key): obj[key]
+               for key in obj}
         kwargs = {
             **kwargs,
-            'key_transformer': key_transformer
+            'key_transformer': key_transformer,
+            'meta_hints': transform_meta_hints(kwargs.get('meta_hints'),
+                                               key_transformer)
         }
     return obj, kwargs
 
diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 88bd1a8..4365eb8 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -2,7 +2,13 @@ from typing import Callable, Optional, Union
 
 from typish import get_args
 
-from jsons._common_impl import NoneType
+from jsons._common_impl import (
+    NoneType,
+    determine_precedence,
+    get_cls_from_str,
+    narrow_meta_hints,
+    transform_meta_hints
+)
 from jsons._compatibility_impl import (get_type_hints, get_union_params,
                                        tuple_with_ellipsis)
 from jsons._load_impl import load
@@ -68,6 +74,9 @@ def default_namedtuple_deserializer(
     if is_dict:
         tfm_obj = {key_tfr(k): v for k, v in obj.items()}
 
+    meta_hints = kwargs.get('meta_hints')
+    if key_transformer:
+        meta_hints = transform_meta_hints(meta_hints, key_transformer)
     args = []
     for index, field_name in enumerate(cls._fields):
         if index < len(obj):
@@ -94,7 +103,14 @@ def default_namedtuple_deserializer(
                        .format(obj, field_name))
                 raise UnfulfilledArgumentError(msg, field_name, obj, cls)
         cls_ = field_types.get(field_name) if field_types else None
-        loaded_field = load(field, cls_, key_transformer=key_transformer, **kwargs)
+        new_hints = narrow_meta_hints(meta_hints, field_name)
+        cls_from_meta = None
+        if new_hints.get('/'):
+            cls_from_meta = get_cls_from_str(new_hints['/'], obj,
+                                             kwargs['fork_inst'])
+        cls_ = determine_precedence(cls_, cls_from_meta, None, True)
+        loaded_field = load(field, cls_, key_transformer=key_transformer,
+                            **{**kwargs, 'meta_hints': new_hints})
         args.append(loaded_field)
     inst = cls(*args)
     return inst
-- 
2.43.0


From 2624a37ebad0d7379085eb038a0c50e12db6580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:44 +0000
Subject: [PATCH 38/53] fix: C15 a verbose dump records the class of a named
 tuple in an attribute

---
 jsons/serializers/default_object.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 25f87e3..f2dafc7 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -317,7 +317,9 @@ def _get_class_name_and_strip_cls(cls_name: Optional[str], obj: dict) -> str:
 
 def _store_cls_info(result: object, original_obj: dict, kwargs):
     if kwargs.get('_store_cls', None) and isinstance(result, dict):
-        cls = get_type(original_obj)
+        # A named tuple is to be found by its own class.
+        is_tuple = isinstance(original_obj, tuple)
+        cls = type(original_obj) if is_tuple else get_type(original_obj)
         if cls.__module__ == 'typing':
             cls_name = repr(cls)
         else:
-- 
2.43.0


From 68c9d0ad88994239931dd6fdd06d30a7501e0539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 39/53] fix: C15 a verbose dump of a nested dict with keys that
 are no strings failed

---
 jsons/serializers/default_object.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index f2dafc7..744caa2 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -298,11 +298,13 @@ def _fill_collection_of_types(
     cls_name_ = _get_class_name_and_strip_cls(cls_name_, obj_)
     for attr in obj_:
         if attr != META_ATTR and isinstance(obj_[attr], dict):
+            # The keys of a dict are not necessarily strings.
+            path = '{}{}'.format(prefix, attr)
             attr_class = _fill_collection_of_types(obj_[attr],
                                                    None,
-                                                   prefix + attr + '/',
+                                                   path + '/',
                                                    collection_of_types_)
-            collection_of_types_[prefix + attr] = attr_class
+            collection_of_types_[path] = attr_class
     return cls_name_
 
 
-- 
2.43.0


From 082ca3d3cbf3c974a24badaf4dce6d8554f475f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:04 +0000
Subject: [PATCH 40/53] fix: load the elements of a tuple with the key
 transformer that was given

---
 jsons/deserializers/default_tuple.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 4365eb8..50d6986 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -43,10 +43,12 @@ def default_tuple_deserializer(obj: list,
             raise DeserializationError(
                 'Expected {} elements, but "{}" has {}'
                 .format(len(tuple_types), obj, len(obj)), obj, cls)
-        list_ = [load(value, tuple_types[i], **kwargs)
+        list_ = [load(value, tuple_types[i], key_transformer=key_transformer,
+                      **kwargs)
                  for i, value in enumerate(obj)]
     else:
-        list_ = [load(value, **kwargs) for i, value in enumerate(obj)]
+        list_ = [load(value, key_transformer=key_transformer, **kwargs)
+                 for i, value in enumerate(obj)]
     return tuple(list_)
 
 
-- 
2.43.0


From 799394852e60a8727c563a708d3c137df1645e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:43 +0000
Subject: [PATCH 41/53] fix: C15 a verbose dump records generic types by the
 names under which classes are announced

---
 jsons/serializers/default_object.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 744caa2..ad3ea71 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -3,7 +3,7 @@ from datetime import datetime, timezone
 from inspect import isfunction
 from typing import Optional, Callable, Union, MutableSequence, Tuple, Dict
 
-from typish import get_type, get_mro
+from typish import get_args, get_mro, get_type
 
 from jsons import get_serializer, announce_class
 from jsons._cache import cached
@@ -322,15 +322,23 @@ def _store_cls_info(result: object, original_obj: dict, kwargs):
         # A named tuple is to be found by its own class.
         is_tuple = isinstance(original_obj, tuple)
         cls = type(original_obj) if is_tuple else get_type(original_obj)
-        if cls.__module__ == 'typing':
-            cls_name = repr(cls)
-        else:
-            cls_name = get_class_name(cls, fully_qualified=True)
         # Copy, because a serializer may have returned a part of the object.
-        result = {**result, '-cls': cls_name}
+        result = {**result, '-cls': _get_recorded_name(cls)}
     return result
 
 
+def _get_recorded_name(cls: type) -> str:
+    # Get the name under which cls (and any generics) can be found again.
+    if cls.__module__ != 'typing':
+        return get_class_name(cls, fully_qualified=True)
+    args = get_args(cls)
+    if not args:
+        return repr(cls)
+    origin_name = repr(cls).split('[')[0]
+    return '{}[{}]'.format(origin_name, ', '.join(
+        _get_recorded_name(arg) for arg in args))
+
+
 @cached
 def _is_innerclass(attr: str, cls: type) -> bool:
     attr_obj = getattr(cls, attr, None)
-- 
2.43.0


From 9b9db452508fef7f3c96bc7b73306c4f2bb62e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 42/53] fix: C15 a verbose dump of a nested dict no longer
 hides the type hint of its values

---
 jsons/serializers/default_object.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index ad3ea71..acdcc79 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -322,8 +322,10 @@ def _store_cls_info(result: object, original_obj: dict, kwargs):
         # A named tuple is to be found by its own class.
         is_tuple = isinstance(original_obj, tuple)
         cls = type(original_obj) if is_tuple else get_type(original_obj)
+        # A mere dict says less about its values than any type hint does.
+        cls_name = _get_recorded_name(cls) if cls is not dict else None
         # Copy, because a serializer may have returned a part of the object.
-        result = {**result, '-cls': _get_recorded_name(cls)}
+        result = {**result, '-cls': cls_name}
     return result
 
 
-- 
2.43.0


From 29dcf112ad307048392b600c62fee9c81104ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:21 +0000
Subject: [PATCH 43/53] fix: C15 report an unknown class, whatever went wrong
 when its module was imported

---
 jsons/_common_impl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 4480f82..28d9446 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -86,7 +86,10 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
         cls_name = splitted[-1]
         cls_module = import_module(module_name)
         cls = getattr(cls_module, cls_name)
-    except (ImportError, AttributeError, TypeError, ValueError):
+        if cls is None:
+            raise ImportError('There is no class "{}".'.format(cls_str))
+    except Exception:
+        # Anything may go wrong while a module is being imported.
         cls = _lookup_announced_class(cls_str, source, fork_inst)
     return cls
 
-- 
2.43.0


From 984e17ea2d80922e9bdb6cb5853148dce2f7575d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:40 +0000
Subject: [PATCH 44/53] fix: C15 infer the type of a nested collection in a
 verbose dump from all its elements

---
 jsons/serializers/default_object.py | 43 ++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 7 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index acdcc79..907c7c8 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -1,9 +1,11 @@
 import inspect
+from collections import deque
 from datetime import datetime, timezone
 from inspect import isfunction
-from typing import Optional, Callable, Union, MutableSequence, Tuple, Dict
+from typing import (Optional, Callable, Union, MutableSequence, Tuple, Dict,
+                    Iterable, List, Set, FrozenSet, Deque)
 
-from typish import get_args, get_mro, get_type
+from typish import get_args, get_mro
 
 from jsons import get_serializer, announce_class
 from jsons._cache import cached
@@ -319,16 +321,42 @@ def _get_class_name_and_strip_cls(cls_name: Optional[str], obj: dict) -> str:
 
 def _store_cls_info(result: object, original_obj: dict, kwargs):
     if kwargs.get('_store_cls', None) and isinstance(result, dict):
-        # A named tuple is to be found by its own class.
-        is_tuple = isinstance(original_obj, tuple)
-        cls = type(original_obj) if is_tuple else get_type(original_obj)
-        # A mere dict says less about its values than any type hint does.
-        cls_name = _get_recorded_name(cls) if cls is not dict else None
+        cls = _infer_type(original_obj)
+        cls_name = _get_recorded_name(cls) if cls else None
         # Copy, because a serializer may have returned a part of the object.
         result = {**result, '-cls': cls_name}
     return result
 
 
+def _infer_type(obj: object) -> Optional[type]:
+    # Get the type of obj, with generics if it is a collection. Return None if
+    # that type cannot be told; it is left to the type hints then.
+    if obj is None:
+        return None
+    if isinstance(obj, dict):
+        types = (_infer_common_type(obj), _infer_common_type(obj.values()))
+        return Dict[types] if all(types) else None
+    if type(obj) is tuple:
+        types = tuple(_infer_type(elem) for elem in obj)
+        return Tuple[types] if types and all(types) else None
+    if type(obj) in _ALIASES:
+        elem_type = _infer_common_type(obj)
+        return _ALIASES[type(obj)][elem_type] if elem_type else None
+    return type(obj)
+
+
+def _infer_common_type(elems: Iterable) -> Optional[type]:
+    classes = list({type(elem): None for elem in elems})
+    if len(classes) > 1:
+        ancestor = next(cls for cls in classes[0].__mro__
+                        if all(cls in other.__mro__ for other in classes))
+        return ancestor if ancestor.__init__ is not object.__init__ else None
+    # An empty collection fits any type.
+    types = {_infer_type(elem) for elem in elems
+             if not isinstance(elem, (dict, *_ALIASES)) or elem}
+    return types.pop() if len(types) == 1 else None
+
+
 def _get_recorded_name(cls: type) -> str:
     # Get the name under which cls (and any generics) can be found again.
     if cls.__module__ != 'typing':
@@ -350,5 +378,6 @@ def _is_innerclass(attr: str, cls: type) -> bool:
             and attr_obj.__qualname__.startswith(cls.__qualname__ + '.'))
 
 
+_ALIASES = {list: List, set: Set, frozenset: FrozenSet, deque: Deque}
 _ABC_ATTRS = ('_abc_registry', '_abc_cache', '_abc_negative_cache',
               '_abc_negative_cache_version', '_abc_impl')
-- 
2.43.0


From 8b5c0fed51e97ac18ca39664c0eef66faa61cc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:16 +0000
Subject: [PATCH 45/53] fix: C15 the elements of a typed tuple are restored as
 the classes that a verbose dump recorded

---
 jsons/deserializers/default_tuple.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 50d6986..6ddd42a 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -43,8 +43,9 @@ def default_tuple_deserializer(obj: list,
             raise DeserializationError(
                 'Expected {} elements, but "{}" has {}'
                 .format(len(tuple_types), obj, len(obj)), obj, cls)
+        # The class of a verbose dumped element takes precedence over the hint.
         list_ = [load(value, tuple_types[i], key_transformer=key_transformer,
-                      **kwargs)
+                      **{**kwargs, '_inferred_cls': isinstance(value, dict)})
                  for i, value in enumerate(obj)]
     else:
         list_ = [load(value, key_transformer=key_transformer, **kwargs)
-- 
2.43.0


From 9461d2dac434df87622ab4d51b74f7a7b301eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 46/53] fix: C14 transform a key without any letters, such as
 an empty string

---
 jsons/_key_transformers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsons/_key_transformers.py b/jsons/_key_transformers.py
index 9c74ab6..f35d2ba 100644
--- a/jsons/_key_transformers.py
+++ b/jsons/_key_transformers.py
@@ -17,7 +17,7 @@ def camelcase(str_: str) -> str:
     splitted = str_.split('_')
     if len(splitted) > 1:
         str_ = ''.join([x.title() for x in splitted])
-    return str_[0].lower() + str_[1:]
+    return str_[:1].lower() + str_[1:]
 
 
 def snakecase(str_: str) -> str:
@@ -27,7 +27,7 @@ def snakecase(str_: str) -> str:
     :return: a string in snake_case.
     """
     str_ = str_.replace('-', '_')
-    str_ = str_[0].lower() + str_[1:]
+    str_ = str_[:1].lower() + str_[1:]
     return re.sub(r'([a-z])([A-Z])', '\\1_\\2', str_).lower()
 
 
@@ -38,7 +38,7 @@ def pascalcase(str_: str) -> str:
     :return: a string in PascalCase.
     """
     camelcase_str = camelcase(str_)
-    return camelcase_str[0].upper() + camelcase_str[1:]
+    return camelcase_str[:1].upper() + camelcase_str[1:]
 
 
 def lispcase(str_: str) -> str:
-- 
2.43.0


From c9e1ae43efd08deba7d3d8c133c8ebae13f6eae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:34 +0000
Subject: [PATCH 47/53] fix: C14 do not apply a key transformer to the keys of
 a dict that are no strings

---
 jsons/deserializers/default_dict.py | 10 +++++++---
 jsons/serializers/default_dict.py   |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index c43b79e..a8bd1f4 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -68,8 +68,12 @@ def _deserialize(
         key_transformer: Callable[[str], str],
         keys_were_hashed: bool,
         kwargs: dict) -> dict:
-    key_transformer = key_transformer or (lambda key: key)
-    key_func = key_transformer
+    def transform(key):
+        # A dict may hold keys that are no strings as well.
+        transformable = key_transformer and isinstance(key, str)
+        return key_transformer(key) if transformable else key
+
+    key_func = transform
     kwargs_ = {**kwargs, 'key_transformer': key_transformer}
     meta_hints = kwargs_.pop('meta_hints', None)
 
@@ -81,7 +85,7 @@ def _deserialize(
             # ensure that the keys in the result are <key>. If the keys were
             # hashed though, they have been loaded already.
             kwargs_k = {**kwargs, 'cls': cls_k}
-            key_func = lambda key: load(key_transformer(key), **kwargs_k)
+            key_func = lambda key: load(transform(key), **kwargs_k)
     return {
         key_func(key): load(obj[key], **kwargs_,
                             meta_hints=narrow_meta_hints(meta_hints, key))
diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index e30a6fe..1e1dd86 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -55,7 +55,7 @@ def default_dict_serializer(
         if dict_and_key:
             result, key = dict_and_key
 
-        if key_transformer:
+        if key_transformer and isinstance(key, str):
             key = key_transformer(key)
         result[key] = dumped_elem
     return result
-- 
2.43.0


From bd736091f5899a801fa2ad6145da38dfcb79cfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:50 +0000
Subject: [PATCH 48/53] fix: C10 map every positional argument of a decorated
 function with *args

---
 jsons/decorators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 0a4e987..067fbfb 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -140,7 +140,11 @@ def _get_params_sig(args, func):
     sig = signature(func)
     params = sig.parameters
     param_names = [param_name for param_name in params]
-    result = [(args[i], params[param_names[i]]) for i in range(len(args))]
+    # All arguments from *args on (if there is any) belong to that parameter.
+    rest = next((i for i, name in enumerate(param_names)
+                 if params[name].kind == Parameter.VAR_POSITIONAL), len(args))
+    result = [(args[i], params[param_names[min(i, rest)]])
+              for i in range(len(args))]
     return result
 
 
-- 
2.43.0


From 45ac6f6c1553452a7a02f0b203bcdb7762207e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:32 +0000
Subject: [PATCH 49/53] fix: C03 accept a list of names as strip_attr

---
 jsons/serializers/default_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 907c7c8..32baa50 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -168,7 +168,7 @@ def _normalize_strip_attr(strip_attr) -> tuple:
     if (not isinstance(strip_attr, MutableSequence)
             and not isinstance(strip_attr, tuple)):
         strip_attr = (strip_attr,)
-    return strip_attr
+    return tuple(strip_attr)
 
 
 @cached
-- 
2.43.0


From 31ff17e0618dcd42f89e01cd603b7695251f8293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:23 +0000
Subject: [PATCH 50/53] fix: C08 report exceptions and values that have no text

---
 jsons/_common_impl.py               | 11 +++++++++++
 jsons/_dump_impl.py                 |  4 ++--
 jsons/_load_impl.py                 |  4 +++-
 jsons/_multitasking.py              |  3 ++-
 jsons/serializers/default_object.py |  8 +++++---
 5 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 28d9446..19d28e2 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -188,6 +188,17 @@ def can_match_with_none(cls: type):
     return result
 
 
+def get_text(obj: object, func: Callable[[object], str] = str) -> str:
+    """
+    Return the textual representation of any object for use in a message, also
+    if it does not have any (e.g. when its ``__str__`` raises).
+    """
+    try:
+        return func(obj)
+    except Exception:
+        return object.__repr__(obj)
+
+
 def _lookup_announced_class(
         cls_str: str,
         source: object,
diff --git a/jsons/_dump_impl.py b/jsons/_dump_impl.py
index c371657..68363b7 100644
--- a/jsons/_dump_impl.py
+++ b/jsons/_dump_impl.py
@@ -7,7 +7,7 @@ import json
 from typing import Optional, Dict
 
 from jsons._cache import clear
-from jsons._common_impl import StateHolder
+from jsons._common_impl import StateHolder, get_text
 from jsons._extra_impl import announce_class
 from jsons._lizers_impl import get_serializer
 from jsons.exceptions import SerializationError
@@ -63,7 +63,7 @@ def _do_dump(obj, serializer, cls, initial, kwargs):
         return result
     except Exception as err:
         clear()
-        raise SerializationError(str(err)) from err
+        raise SerializationError(get_text(err)) from err
 
 
 def dumps(obj: object,
diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 645df54..0397aba 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -13,6 +13,7 @@ from jsons._common_impl import (
     get_cls_from_str,
     get_class_name,
     get_cls_and_meta,
+    get_text,
     determine_precedence,
     VALID_TYPES,
     T,
@@ -117,7 +118,8 @@ def _do_load(json_obj: object,
         clear()
         if isinstance(err, JsonsError):
             raise
-        message = 'Could not deserialize value "{}" into "{}". {}'.format(json_obj, cls_name, err)
+        message = 'Could not deserialize value "{}" into "{}". {}'.format(
+            get_text(json_obj), cls_name, get_text(err))
         raise DeserializationError(message, json_obj, cls) from err
     else:
         if initial:
diff --git a/jsons/_multitasking.py b/jsons/_multitasking.py
index cee6286..a206922 100644
--- a/jsons/_multitasking.py
+++ b/jsons/_multitasking.py
@@ -8,6 +8,7 @@ from typing import List, Callable, Union
 
 from typish import Something
 
+from jsons._common_impl import get_text
 from jsons.exceptions import (
     JsonsError,
     DeserializationError,
@@ -56,7 +57,7 @@ class _Failure:
                  JsonsError)
         type_ = next((t for t in types if isinstance(self.error, t)),
                      RuntimeError)
-        msg = getattr(self.error, 'message', None) or str(self.error)
+        msg = getattr(self.error, 'message', None) or get_text(self.error)
         return _unpickle_failure, (type_, msg)
 
 
diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 32baa50..0366e81 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -9,7 +9,8 @@ from typish import get_args, get_mro
 
 from jsons import get_serializer, announce_class
 from jsons._cache import cached
-from jsons._common_impl import get_class_name, META_ATTR, StateHolder
+from jsons._common_impl import (get_class_name, get_text, META_ATTR,
+                                StateHolder)
 from jsons._compatibility_impl import get_type_hints
 from jsons._datetime_impl import to_str
 from jsons.classes import JsonSerializable
@@ -132,14 +133,15 @@ def _do_serialize(
                                      **kwargs)
             dumped_elem = _store_cls_info(dumped_elem, attr, kwargs)
         except Exception as err:
-            reason = err.args[0] if err.args else repr(err)
+            reason = err.args[0] if err.args else get_text(err, repr)
             if strict:
                 raise SerializationError(message=reason) from err
             else:
                 fork_inst._warn('Failed to dump attribute "{}" of object of '
                                 'type "{}". Reason: {}. Ignoring the '
                                 'attribute.'
-                                .format(attr, get_class_name(cls), reason),
+                                .format(get_text(attr), get_class_name(cls),
+                                        get_text(reason)),
                                 'attribute-not-serialized')
                 continue
 
-- 
2.43.0


From 4ecd49b07da45f7145b6feadd17ae42975c182aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:53 +0000
Subject: [PATCH 51/53] fix: C06 clear the caches that an interrupted call left
 behind

---
 jsons/_dump_impl.py | 9 ++++++---
 jsons/_load_impl.py | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/jsons/_dump_impl.py b/jsons/_dump_impl.py
index 68363b7..53270dc 100644
--- a/jsons/_dump_impl.py
+++ b/jsons/_dump_impl.py
@@ -39,11 +39,14 @@ def dump(obj: object,
     :param kwargs: the keyword args are passed on to the serializer function.
     :return: the serialized obj as a JSON type.
     """
-    cls_ = cls or obj.__class__
-    serializer = get_serializer(cls_, fork_inst)
-
     # Is this the initial call or a nested?
     initial = kwargs.get('_initial', True)
+    if initial:
+        # A call that was interrupted could not clear its cache.
+        clear()
+
+    cls_ = cls or obj.__class__
+    serializer = get_serializer(cls_, fork_inst)
 
     kwargs_ = {
         'fork_inst': fork_inst,
diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 0397aba..966346b 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -74,6 +74,12 @@ def load(
     :param kwargs: the keyword args are passed on to the deserializer function.
     :return: an instance of ``cls`` if given, a dict otherwise.
     """
+    # Is this the initial call or a nested?
+    initial = kwargs.get('_initial', True)
+    if initial:
+        # A call that was interrupted could not clear its cache.
+        clear()
+
     _check_for_none(json_obj, cls)
     if _should_skip(json_obj, cls, strict):
         validate(json_obj, cls, fork_inst)
@@ -86,9 +92,6 @@ def load(
 
     deserializer = get_deserializer(cls, fork_inst)
 
-    # Is this the initial call or a nested?
-    initial = kwargs.get('_initial', True)
-
     kwargs_ = {
         **kwargs,
         # The meta hints of json_obj itself precede those of its parents.
-- 
2.43.0


From 8eeade6bede21344b315a09e1072fe8bdbcb6d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:33 +0000
Subject: [PATCH 52/53] fix: C09 dump the offset that a timezone has at the
 datetime itself

---
 jsons/_datetime_impl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index c374392..243a3b2 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -75,9 +75,9 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
         if not tzone.utcoffset(None):
             return '+00:00'
     offset = 'Z'
-    if tzone.tzname(None) not in ('UTC', 'UTC+00:00'):
-        tdelta = tzone.utcoffset(None) or \
-                 getattr(tzone, 'adjusted_offset', tzone.utcoffset(obj))
+    tdelta = getattr(tzone, 'adjusted_offset', tzone.utcoffset(obj))
+    if tdelta or tzone.tzname(None) not in ('UTC', 'UTC+00:00'):
+        # The name and the offset at no date say nothing about this date.
         offset = _timedelta_offset_str(tdelta)
     return offset
 
-- 
2.43.0


From 25b0460cb79cb512069aa05e1c600a95c5fdabbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:23 +0000
Subject: [PATCH 53/53] fix: C11 a hashed key never takes the place of another
 key of the dict

---
 jsons/serializers/default_dict.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 1e1dd86..594beeb 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -33,6 +33,7 @@ def default_dict_serializer(
     """
     result = dict()
     types = types or dict()
+    json_keys = {key for key in obj if _is_valid_json_key(key)}
     for key in obj:
         obj_ = obj[key]
         cls_ = types.get(key, None)
@@ -48,7 +49,7 @@ def default_dict_serializer(
 
         # If key is not a valid json type, use the hash as key and store the
         # original key in a separate section.
-        dict_and_key = _store_and_hash(result, key,
+        dict_and_key = _store_and_hash(result, key, json_keys,
                                        key_transformer=key_transformer,
                                        strip_nulls=strip_nulls, strict=strict,
                                        types=types, **kwargs)
@@ -64,10 +65,12 @@ def default_dict_serializer(
 def _store_and_hash(
         obj: dict,
         key: object,
+        json_keys: set,
         **kwargs
 ) -> Optional[Tuple[dict, int]]:
     # Store the given key in the given dict under a special section if that
-    # key is not a valid json key. Return a hash of that key.
+    # key is not a valid json key. Return a hash of that key that is not equal
+    # to any other key, neither in a dict nor in json.
     result = None
     if not _is_valid_json_key(key):
         # First try to dump the key, that might be enough already.
@@ -78,7 +81,8 @@ def _store_and_hash(
             key_hash = hash(key)
             obj_ = {**obj}
             obj_.setdefault('-keys', {})
-            while key_hash in obj_:
+            while any(elem in keys for keys in (obj_, json_keys)
+                      for elem in (key_hash, str(key_hash))):
                 # Another key has this hash already.
                 key_hash += 1
             obj_['-keys'][key_hash] = dumped_key
-- 
2.43.0

