From 599d17e6dbc3afbcbb18025ab91b264316753965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:44 +0000
Subject: [PATCH 01/20] fix: keep memoized objects alive while their id is a
 key

Without references (unpicklable=False or make_refs=False) flattened values
are remembered by address. Temporary bytes and other values that were freed
during the call could hand their address, and so their value, to a later
object.
---
 jsonpickle/pickler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 771db2b..854b109 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -345,7 +345,10 @@ class Pickler:
             try:
                 result = self._flattened[id(obj)]
             except KeyError:
-                result = self._flattened[id(obj)] = self._flatten_impl(obj)
+                result = self._flatten_impl(obj)
+                # Keep the object alive while its address is used as a key.
+                self._seen.append(obj)
+                self._flattened[id(obj)] = result
         return result
 
     def flatten(self, obj: Any, reset: bool = True) -> Any:
-- 
2.43.0


From 55079ef1c87e6e67f0473670152a7a6c9c59b913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:49 +0000
Subject: [PATCH 02/20] fix: withdraw reference ids of objects replaced by
 fail_safe

The abandoned object and its children kept their reference ids, so every
later py/id in the document pointed at the wrong object.
---
 jsonpickle/pickler.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 854b109..2941f0c 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -421,6 +421,8 @@ class Pickler:
         self._seen.append(obj)
 
         max_reached = self._max_reached()
+        num_objs = len(self._objs)
+        depth = self._depth
 
         try:
             in_cycle = _in_cycle(obj, self._objs, max_reached, self.make_refs)
@@ -440,6 +442,11 @@ class Pickler:
         except (KeyboardInterrupt, SystemExit):
             raise
         except Exception as e:
+            # Nothing flattened for this object ends up in the document, so
+            # withdraw the reference IDs that were handed out for it.
+            while len(self._objs) > num_objs:
+                self._objs.popitem()
+            self._depth = depth
             if self.fail_safe is None:
                 raise
             else:
-- 
2.43.0


From 64163c73a60cfcd731c419fccecb1863eb17703b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:54 +0000
Subject: [PATCH 03/20] fix: do not remove default_factory from the data being
 restored

Restoring the same flattened data twice lost the factory the second time.
---
 jsonpickle/unpickler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 76420ac..2195bcf 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -820,6 +820,9 @@ class Unpickler:
 
         # An object can install itself as its own factory, so load the factory
         # after the instance is available for referencing.
+        # The factory's entry is removed, so work on a copy of the input.
+        if tags.DEFAULT_FACTORY in obj or "default_factory" in obj:
+            obj = dict(obj)
         factory = self._loadfactory(obj)
 
         if has_tag(obj, tags.NEWARGSEX):
-- 
2.43.0


From 838906a3e128c2c7fb18bd13bf066f02ca3c7751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:00 +0000
Subject: [PATCH 04/20] fix: do not swallow a TypeError raised while restoring
 items

A TypeError from user code below a tuple, set, iterator or reduce entry
silently replaced the whole container by an empty one. Only the check
whether the entry is iterable is guarded now.
---
 jsonpickle/unpickler.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 2195bcf..51ee6b7 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -497,10 +497,12 @@ class Unpickler:
         return parent
 
     def _restore_iterator(self, obj: dict[str, Any]) -> Iterator[Any]:
+        items = obj[tags.ITERATOR]
         try:
-            return iter(self._restore_list(obj[tags.ITERATOR]))
+            iter(items)
         except TypeError:
             return iter([])
+        return iter(self._restore_list(items))
 
     def _swapref(self, proxy: _Proxy, instance: Any) -> None:
         proxy_id = id(proxy)
@@ -522,12 +524,13 @@ class Unpickler:
         proxy = _Proxy()
         self._mkref(proxy)
         try:
-            reduce_val = list(map(self._restore, obj[tags.REDUCE]))
+            items = iter(obj[tags.REDUCE])
         except TypeError:
             result = []
             proxy.reset(result)
             self._swapref(proxy, result)
             return result
+        reduce_val = list(map(self._restore, items))
         if len(reduce_val) < 6:
             reduce_val.extend([None] * (6 - len(reduce_val)))
         f, args, state, listitems, dictitems, state_setter = reduce_val
@@ -898,7 +901,12 @@ class Unpickler:
 
     def _restore_set(self, obj: dict[str, Any]) -> set[Any]:
         try:
-            return {self._restore(v) for v in obj[tags.SET]}
+            items = iter(obj[tags.SET])
+        except TypeError:
+            return set()
+        values = [self._restore(v) for v in items]
+        try:
+            return set(values)
         except TypeError:
             return set()
 
@@ -954,9 +962,10 @@ class Unpickler:
 
     def _restore_tuple(self, obj: dict[str, Any]) -> tuple[Any, ...]:
         try:
-            return tuple(self._restore(v) for v in obj[tags.TUPLE])
+            items = iter(obj[tags.TUPLE])
         except TypeError:
             return ()
+        return tuple(self._restore(v) for v in items)
 
     def _restore_tags(
         self, obj: Any, _passthrough: Callable[[Any], Any] = _passthrough
-- 
2.43.0


From c7e16ae2b9e21c8b274dd8a5b2e8db5302d6410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:04 +0000
Subject: [PATCH 05/20] fix: do not swallow an AttributeError raised by
 __setstate__

An AttributeError from inside __setstate__ of a reduced object was taken
for a missing method and the state was applied a second way.
---
 jsonpickle/unpickler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsonpickle/unpickler.py b/jsonpickle/unpickler.py
index 51ee6b7..4e47db7 100644
--- a/jsonpickle/unpickler.py
+++ b/jsonpickle/unpickler.py
@@ -555,9 +555,10 @@ class Unpickler:
                 stage1 = f.__new__(f, *args)
 
         if state and state_setter is None:
-            try:
-                stage1.__setstate__(state)
-            except AttributeError:
+            setstate = getattr(stage1, "__setstate__", None)
+            if setstate is not None:
+                setstate(state)
+            else:
                 # it's fine - we'll try the prescribed default methods
                 try:
                     # we can't do a straight update here because we
-- 
2.43.0


From 7abf3288d53591ba1a21ba66d22c032b7fce6258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:09 +0000
Subject: [PATCH 06/20] fix: do not drop a slot when flattening its value fails

An AttributeError raised while flattening the value of a slot was taken for
a deleted attribute, so the slot silently went missing.
---
 jsonpickle/pickler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 2941f0c..896b8c6 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -529,10 +529,10 @@ class Pickler:
                     value = getattr(obj, k)
                 else:
                     value = getattr(obj, f"_{obj.__class__.__name__}{k}")
-                flatten(k, value, data)
             except AttributeError:
                 # The attribute may have been deleted
                 continue
+            flatten(k, value, data)
             ok = True
         return ok
 
-- 
2.43.0


From fc580bd2b291cef05b553233e72d4a40aed7a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:13 +0000
Subject: [PATCH 07/20] fix: do not list a backend twice when it is loaded
 again

Removing such a backend left a stale name behind and every later call
failed with a KeyError.
---
 jsonpickle/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/backend.py b/jsonpickle/backend.py
index b150a02..bd6f33d 100644
--- a/jsonpickle/backend.py
+++ b/jsonpickle/backend.py
@@ -193,7 +193,8 @@ class JSONBackend:
         self._decoder_options.setdefault(name, ([], {}))
 
         # Add this backend to the list of candidate backends
-        self._backend_names.append(name)
+        if name not in self._backend_names:
+            self._backend_names.append(name)
 
         # Indicate that we successfully loaded a JSON backend
         self._verified = True
-- 
2.43.0


From eb53f57522a306d332bd71b2d83f8366aec61e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:17 +0000
Subject: [PATCH 08/20] fix: tolerate handler registration during a handler
 lookup

A handler registered with base=True by another thread made a running
lookup fail with "dictionary changed size during iteration".
---
 jsonpickle/handlers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/handlers.py b/jsonpickle/handlers.py
index 3148365..f5c88a3 100644
--- a/jsonpickle/handlers.py
+++ b/jsonpickle/handlers.py
@@ -54,7 +54,8 @@ class Registry:
         handler = self._handlers.get(cls_or_name)
         # attempt to find a base class
         if handler is None and util._is_type(cls_or_name):
-            for cls, base_handler in self._base_handlers.items():
+            # copy the items, another thread may be registering handlers
+            for cls, base_handler in list(self._base_handlers.items()):
                 if issubclass(cls_or_name, cls):
                     return base_handler
         return default if handler is None else handler
-- 
2.43.0


From 8f36a4cc51c6cdb6b5323d62fd0dbc5b87237466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:22 +0000
Subject: [PATCH 09/20] fix: do not share the context of registered handler
 instances

A handler registered as an instance kept the context of the latest call.
Nested or concurrent calls used each other's context, and the context (with
every object it had seen) was kept alive after the call.
---
 jsonpickle/handlers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/handlers.py b/jsonpickle/handlers.py
index f5c88a3..2cbf4ec 100644
--- a/jsonpickle/handlers.py
+++ b/jsonpickle/handlers.py
@@ -176,8 +176,10 @@ class BaseHandler:
         :Parameters:
           - `context`: reference to pickler/unpickler
         """
-        self.context = context
-        return self
+        # Handler instances are shared by all calls, so bind a copy to this one.
+        handler = copy.copy(self)
+        handler.context = context
+        return handler
 
 
 class ArrayHandler(BaseHandler):
-- 
2.43.0


From 202752dfd2ac971da2eea3f18f50fe9f6b75da29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:26 +0000
Subject: [PATCH 10/20] fix: unregister the numpy datetime64 handler too

---
 jsonpickle/ext/numpy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonpickle/ext/numpy.py b/jsonpickle/ext/numpy.py
index 7c895cb..3ed4f36 100644
--- a/jsonpickle/ext/numpy.py
+++ b/jsonpickle/ext/numpy.py
@@ -500,5 +500,6 @@ def unregister_handlers() -> None:
     unregister(np.dtype(np.float32).__class__)
     unregister(np.dtype(np.int32).__class__)
     unregister(np.dtype(np.datetime64).__class__)
+    unregister(np.datetime64)
     # other handlers
     unregister(np.ufunc)
-- 
2.43.0


From 40a55c788a0c3063c7c2a51680c23af55250f9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:31 +0000
Subject: [PATCH 11/20] fix: keep the backend list consistent while it is
 reordered

set_preferred_backend() removed the name before inserting it again. A call
running in another thread could find the list empty, skip a backend or
return None.
---
 jsonpickle/backend.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/jsonpickle/backend.py b/jsonpickle/backend.py
index bd6f33d..b2dc3a9 100644
--- a/jsonpickle/backend.py
+++ b/jsonpickle/backend.py
@@ -31,17 +31,18 @@ class JSONBackend:
         """
         self._verify()
 
+        names = self._backend_names
         if not self._fallthrough:
-            name = self._backend_names[0]
+            name = names[0]
             return self.backend_encode(name, obj, indent=indent, separators=separators)
 
-        for idx, name in enumerate(self._backend_names):
+        for idx, name in enumerate(names):
             try:
                 return self.backend_encode(
                     name, obj, indent=indent, separators=separators
                 )
             except Exception:
-                if idx == len(self._backend_names) - 1:
+                if idx == len(names) - 1:
                     raise
 
     # def dumps
@@ -57,15 +58,16 @@ class JSONBackend:
         """
         self._verify()
 
+        names = self._backend_names
         if not self._fallthrough:
-            name = self._backend_names[0]
+            name = names[0]
             return self.backend_decode(name, string)
 
-        for idx, name in enumerate(self._backend_names):
+        for idx, name in enumerate(names):
             try:
                 return self.backend_decode(name, string)
             except self._decoder_exceptions[name]:
-                if idx == len(self._backend_names) - 1:
+                if idx == len(names) - 1:
                     raise
                 else:
                     pass  # and try a more forgiving encoder
@@ -251,8 +253,8 @@ class JSONBackend:
 
         """
         if name in self._backend_names:
-            self._backend_names.remove(name)
-            self._backend_names.insert(0, name)
+            # replace the list so that a running call keeps a consistent one
+            self._backend_names = [name] + [n for n in self._backend_names if n != name]
         else:
             errmsg = 'The "%s" backend has not been loaded.' % name  # ruff: ignore[UP031]
             raise AssertionError(errmsg)
-- 
2.43.0


From c0a83c4246efcad92dcffb4350e130daa4636105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:35 +0000
Subject: [PATCH 12/20] fix: do not overwrite attributes when probing for
 read-only ones

With handle_readonly=True every attribute of a nested object was assigned
to the same-named attribute of the top-level object.
---
 jsonpickle/util.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/util.py b/jsonpickle/util.py
index e0414d2..ad8f0c1 100644
--- a/jsonpickle/util.py
+++ b/jsonpickle/util.py
@@ -342,9 +342,16 @@ def _is_cython_function(obj: Any) -> bool:
 
 
 def _is_readonly(obj: Any, attr: str, value: Any) -> bool:
+    # Assign the attribute's own value so that probing does not change the object.
+    own_attrs = getattr(obj, "__dict__", None)
+    if own_attrs is not None and attr not in own_attrs:
+        class_attr = getattr(type(obj), attr, None)
+        if not hasattr(type(class_attr), "__set__"):
+            # assigning would only shadow the class attribute
+            return False
     # CPython 3.11+ has 0-cost try/except, please use up-to-date versions!
     try:
-        setattr(obj, attr, value)
+        setattr(obj, attr, getattr(obj, attr))
         return False
     except AttributeError:
         # this is okay, it means the attribute couldn't be set
-- 
2.43.0


From ed8e1d1ca9e4efaa113e3a3c28b08b251ac6cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:45:27 +0000
Subject: [PATCH 13/20] fix: tolerate encoder options being set during an
 encode call

setting options for a further backend in another thread made the running
call fail with "dictionary changed size during iteration".
---
 jsonpickle/pickler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/pickler.py b/jsonpickle/pickler.py
index 896b8c6..19f83dc 100644
--- a/jsonpickle/pickler.py
+++ b/jsonpickle/pickler.py
@@ -265,7 +265,9 @@ class Pickler:
         self._original_object = original_object
 
     def _determine_sort_keys(self) -> bool:
-        for _, options in getattr(self.backend, "_encoder_options", {}).values():
+        encoder_options = getattr(self.backend, "_encoder_options", {})
+        # copy the values, another thread may be setting options
+        for _, options in list(encoder_options.values()):
             if options.get("sort_keys", False):
                 # the user has set one of the backends to sort keys
                 return True
-- 
2.43.0


From 5ec4d3e9cec7ccccf8fc64c1208603b1c767150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:12:37 +0000
Subject: [PATCH 14/20] fix: do not hide errors raised while restoring
 dataframe items

An exception from the __setstate__ or handler of an object in a dataframe
was taken for a pre-v3.4 document and replaced by an unrelated KeyError.
---
 jsonpickle/ext/pandas.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 73e695c..857e389 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -227,7 +227,10 @@ class PandasDfHandler(BaseHandler):
         data_encoded, meta = self.pp.restore_pandas(obj)
         try:
             data_columns = decode(data_encoded, keys=True)
-        except Exception:  # ruff: ignore[BLE001]
+        except Exception:
+            if "dtypes_rle" in meta:
+                # this is the current scheme, the error comes from an item
+                raise
             # this may be a specific type of jsondecode error for pre-v3.4 encoding schemes, but also might not be
             warnings.warn(
                 (
-- 
2.43.0


From 2c71cbc56313f1a134a6ecc2c47952af6c6bdb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:35:57 +0000
Subject: [PATCH 15/20] fix: leave a backend as it was when loading it again
 fails

A load that named a missing function removed the backend that was loaded
under that name, together with its options.
---
 jsonpickle/backend.py | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/jsonpickle/backend.py b/jsonpickle/backend.py
index b2dc3a9..f29dcb1 100644
--- a/jsonpickle/backend.py
+++ b/jsonpickle/backend.py
@@ -1,4 +1,3 @@
-from types import ModuleType
 from typing import Any
 
 
@@ -127,16 +126,6 @@ class JSONBackend:
         """
         self._fallthrough = enable
 
-    def _store(
-        self, dct: dict[str, Any], backend: str, obj: ModuleType, name: str
-    ) -> bool:
-        try:
-            dct[backend] = getattr(obj, name)
-        except AttributeError:
-            self.remove_backend(backend)
-            return False
-        return True
-
     def load_backend(
         self,
         name: str,
@@ -177,18 +166,20 @@ class JSONBackend:
         except AttributeError:
             return False
 
-        if not self._store(self._encoders, name, mod, dumps) or not self._store(
-            self._decoders, name, mod, loads
-        ):
+        # Look up everything first so that a failed load changes nothing
+        try:
+            encoder = getattr(mod, dumps)
+            decoder = getattr(mod, loads)
+            # The decoder exception may be part of the backend.
+            # simplejson uses ValueError
+            if isinstance(loads_exc, str):
+                loads_exc = getattr(mod, loads_exc)
+        except AttributeError:
             return False
 
-        if isinstance(loads_exc, str):
-            # This backend's decoder exception is part of the backend
-            if not self._store(self._decoder_exceptions, name, mod, loads_exc):
-                return False
-        else:
-            # simplejson uses ValueError
-            self._decoder_exceptions[name] = loads_exc
+        self._encoders[name] = encoder
+        self._decoders[name] = decoder
+        self._decoder_exceptions[name] = loads_exc
 
         # Setup the default args and kwargs for this encoder/decoder
         self._encoder_options.setdefault(name, ([], {}))  # type: ignore
-- 
2.43.0


From 065e7bc425630c7954bd55a05b702bdc445edc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:49:20 +0000
Subject: [PATCH 16/20] fix: give pandas dtypes the same tags in every process

The tags were derived from the iteration order of a set of classes, which
depends on memory addresses. A data frame written by one process could get
other column types when read by another.
---
 jsonpickle/tags_pd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsonpickle/tags_pd.py b/jsonpickle/tags_pd.py
index 4f2a729..d661581 100644
--- a/jsonpickle/tags_pd.py
+++ b/jsonpickle/tags_pd.py
@@ -128,7 +128,8 @@ def all_subclasses(cls: type) -> list[type]:
     for subclass in cls.__subclasses__():
         subclasses.add(subclass)
         subclasses.update(all_subclasses(subclass))
-    return list(subclasses)
+    # sort them, the tags must not depend on the addresses of the classes
+    return sorted(subclasses, key=lambda cls: (cls.__module__, cls.__qualname__))
 
 
 def get_all_numpy_dtype_strings() -> list[str]:
-- 
2.43.0


From dcd3f03e6493ab60af26a6a6372e180c04d13ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:07 +0000
Subject: [PATCH 17/20] fix: do not look a module up again after importing it

Another thread can remove or reload the module in between. The decode call
then failed with KeyError instead of using the class.
---
 jsonpickle/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsonpickle/util.py b/jsonpickle/util.py
index ad8f0c1..82673aa 100644
--- a/jsonpickle/util.py
+++ b/jsonpickle/util.py
@@ -592,8 +592,9 @@ def loadclass(
     for up_to in range(len(names) - 1, 0, -1):
         module = untranslate_module_name(".".join(names[:up_to]))
         try:
-            __import__(module)
-            obj = sys.modules[module]
+            # a fromlist gives the module itself, looking it up in sys.modules
+            # again fails when another thread has removed it in the meantime
+            obj = __import__(module, fromlist=["__name__"])
             for class_name in names[up_to:]:
                 obj = getattr(obj, class_name)
             return obj
-- 
2.43.0


From 6c9acd20a7f6fec4cfebbaaaa7a3d593b5871628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:24:09 +0000
Subject: [PATCH 18/20] fix: keep the name of a pandas index when it is
 restored

A string name came back as a tuple of its characters.
---
 jsonpickle/ext/pandas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index 857e389..cf6904a 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -380,7 +380,7 @@ class PandasIndexHandler(BaseHandler):
         buf, meta = self.pp.restore_pandas(data)
         dtype = meta.get("dtype", None)
         name_bundle = {
-            "name": (tuple if v is not None else lambda x: x)(v)  # ruff: ignore[B035]
+            "name": tuple(v) if isinstance(v, list) else v  # ruff: ignore[B035]
             for k, v in meta.items()
             if k in {"name", "names"}
         }
-- 
2.43.0


From a600d7760493743e391fb0a684bc54c2d0b696f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:19 +0000
Subject: [PATCH 19/20] fix: report exhausted stack or memory while restoring
 column types

Restoring a data frame took these errors for a column that cannot be
converted and returned the column with another type.
---
 jsonpickle/ext/pandas.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jsonpickle/ext/pandas.py b/jsonpickle/ext/pandas.py
index cf6904a..dc197a1 100644
--- a/jsonpickle/ext/pandas.py
+++ b/jsonpickle/ext/pandas.py
@@ -291,6 +291,8 @@ class PandasDfHandler(BaseHandler):
             try:
                 dtype = pd.api.types.pandas_dtype(dtype_str)
                 df[col] = df[col].astype(dtype)
+            except (MemoryError, RecursionError):
+                raise
             except Exception:  # ruff: ignore[BLE001]
                 msg = (
                     f"jsonpickle was unable to properly deserialize "
-- 
2.43.0


From c331f8ea83abea5e9b981cdcd2bf409ade10e1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:24:16 +0000
Subject: [PATCH 20/20] fix: do not take exhausted memory for an object that is
 not a collection

The document then had another form than the one written otherwise.
---
 jsonpickle/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonpickle/util.py b/jsonpickle/util.py
index 82673aa..fbf24c7 100644
--- a/jsonpickle/util.py
+++ b/jsonpickle/util.py
@@ -304,7 +304,7 @@ def _is_iterator(obj: Any) -> bool:
 def _is_collections(obj: Any) -> bool:
     try:
         return type(obj).__module__ == "collections"
-    except Exception:  # ruff: ignore[BLE001]
+    except AttributeError:
         return False
 
 
-- 
2.43.0

