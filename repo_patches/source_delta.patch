From 01de7078e3fdd02b8ff61f7a4a01676a50ee3b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:51 +0000
Subject: [PATCH 01/62] fix: ListConfig slicing follows list semantics for
 negative and out-of-range bounds

---
 omegaconf/listconfig.py | 33 +--------------------------------
 1 file changed, 1 insertion(+), 32 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 20a8f81..12ba272 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -1,5 +1,4 @@
 import copy
-import itertools
 from typing import (
     Any,
     Callable,
@@ -200,16 +199,11 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             assert isinstance(self.__dict__["_content"], list)
             if isinstance(index, slice):
                 result = []
-                start, stop, step = self._correct_index_params(index)
-                for slice_idx in itertools.islice(
-                    range(0, len(self)), start, stop, step
-                ):
+                for slice_idx in range(*index.indices(len(self))):
                     val = self._resolve_with_default(
                         key=slice_idx, value=self.__dict__["_content"][slice_idx]
                     )
                     result.append(val)
-                if index.step and index.step < 0:
-                    result.reverse()
                 return result
             else:
                 return self._resolve_with_default(
@@ -218,31 +212,6 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         except Exception as e:
             self._format_and_raise(key=index, value=None, cause=e)
 
-    def _correct_index_params(self, index: slice) -> Tuple[int, int, int]:
-        start = index.start
-        stop = index.stop
-        step = index.step
-        if index.start and index.start < 0:
-            start = self.__len__() + index.start
-        if index.stop and index.stop < 0:
-            stop = self.__len__() + index.stop
-        if index.step and index.step < 0:
-            step = abs(step)
-            if start and stop:
-                if start > stop:
-                    start, stop = stop + 1, start + 1
-                else:
-                    start = stop = 0
-            elif not start and stop:
-                start = list(range(self.__len__() - 1, stop, -step))[0]
-                stop = None
-            elif start and not stop:
-                stop = start + 1
-                start = (stop - 1) % step
-            else:
-                start = (self.__len__() - 1) % step
-        return start, stop, step
-
     def _set_at_index(self, index: Union[int, slice], value: Any) -> None:
         self._set_item_impl(index, value)
 
-- 
2.43.0


From edc9d932aefb6b1016a4e7292482727381526e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 02/62] fix: ListConfig.insert handles negative and
 out-of-range indices and leaves inserted nodes alone

---
 omegaconf/listconfig.py | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 12ba272..7e610cc 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -279,8 +279,6 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                 node._metadata.key = i
 
     def insert(self, index: int, item: Any) -> None:
-        from omegaconf.omegaconf import _maybe_wrap
-
         try:
             if self._get_flag("readonly"):
                 raise ReadonlyConfigError("Cannot insert into a read-only ListConfig")
@@ -291,20 +289,14 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             if self._is_missing():
                 raise MissingMandatoryValue("Cannot insert into missing ListConfig")
 
+            assert isinstance(self.__dict__["_content"], list)
+            size = len(self.__dict__["_content"])
+            # insert place holder
+            self.__dict__["_content"].insert(index, None)
+            # index of the place holder, as normalized by list.insert()
+            index = max(index + size, 0) if index < 0 else min(index, size)
             try:
-                assert isinstance(self.__dict__["_content"], list)
-                # insert place holder
-                self.__dict__["_content"].insert(index, None)
-                is_optional, ref_type = _resolve_optional(self._metadata.element_type)
-                node = _maybe_wrap(
-                    ref_type=ref_type,
-                    key=index,
-                    value=item,
-                    is_optional=is_optional,
-                    parent=self,
-                )
-                self._validate_set(key=index, value=node)
-                self._set_at_index(index, node)
+                self._set_item_impl(index, item)
                 self._update_keys()
             except Exception:
                 del self.__dict__["_content"][index]
-- 
2.43.0


From f810997d191c3f38e6cc963546733f65f9239549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 03/62] fix: ListConfig.sort updates the keys of the moved
 nodes

---
 omegaconf/listconfig.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 7e610cc..37ea633 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -466,6 +466,7 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
 
             assert isinstance(self.__dict__["_content"], list)
             self.__dict__["_content"].sort(key=key1, reverse=reverse)
+            self._update_keys()
 
         except Exception as e:
             self._format_and_raise(key=None, value=None, cause=e)
-- 
2.43.0


From 95fc5cbcfeafd3e6cc732586eac56a036219ce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:05 +0000
Subject: [PATCH 04/62] fix: extending a ListConfig with itself terminates

---
 omegaconf/listconfig.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 37ea633..a1a2f70 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -308,6 +308,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
 
     def extend(self, lst: Iterable[Any]) -> None:
         assert isinstance(lst, (tuple, list, ListConfig))
+        if lst is self:
+            lst = list(lst)
         for x in lst:
             self.append(x)
 
-- 
2.43.0


From f6f8244c26743a3a6b30098704c83294deb49fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:43 +0000
Subject: [PATCH 05/62] fix: ListConfig slice assignment keeps interpolations
 and missing values of untouched items

---
 omegaconf/listconfig.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index a1a2f70..1e6a4e6 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -254,7 +254,9 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
 
                 # Reinitialize self with work_copy
                 self.clear()
-                self.extend(work_copy)
+                self.__dict__["_content"] = work_copy.__dict__["_content"]
+                self._re_parent()
+                self._update_keys()
             else:
                 self._set_at_index(index, value)
         except Exception as e:
-- 
2.43.0


From 7663136a19537bd3e40e5d4f576f9ed08b20e49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 06/62] fix: assigning to a negative ListConfig index keys the
 node by its position

---
 omegaconf/listconfig.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 1e6a4e6..46210d1 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -213,6 +213,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             self._format_and_raise(key=index, value=None, cause=e)
 
     def _set_at_index(self, index: Union[int, slice], value: Any) -> None:
+        if isinstance(index, int) and -len(self) <= index < 0:
+            index += len(self)
         self._set_item_impl(index, value)
 
     def __setitem__(self, index: Union[int, slice], value: Any) -> None:
-- 
2.43.0


From 6929eb2b333bb587a767ae5f1e12e36c860c00e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 07/62] fix: merging with ListMergeMode.EXTEND updates the keys
 of the appended nodes

---
 omegaconf/basecontainer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 14e8667..f477020 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -483,6 +483,7 @@ class BaseContainer(Container, ABC):
                         dest.__dict__["_content"].append(entry)
             else:  # REPLACE (default)
                 dest.__dict__["_content"] = temp_target.__dict__["_content"]
+            dest._update_keys()
 
         # explicit flags on the source config are replacing the flag values in the destination
         flags = src._metadata.flags
-- 
2.43.0


From 480e3c1b89e0d85fcffaed72cd079d306d37bd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:49 +0000
Subject: [PATCH 08/62] fix: merging a list into a ListConfig that is None,
 missing or an interpolation

---
 omegaconf/basecontainer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index f477020..aed3ce3 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -334,7 +334,7 @@ class BaseContainer(Container, ABC):
             elif isinstance(node, DictConfig):
                 val = {}
             else:
-                assert False
+                val = []
 
             node._set_value(val)
 
@@ -475,6 +475,10 @@ class BaseContainer(Container, ABC):
                 for item in src._iter_ex(resolve=False):
                     temp_target.append(item)
 
+            if dest._is_none() or dest._is_missing() or dest._is_interpolation():
+                # there are no items to extend
+                dest.__dict__["_content"] = []
+
             if list_merge_mode == ListMergeMode.EXTEND:
                 dest.__dict__["_content"].extend(temp_target.__dict__["_content"])
             elif list_merge_mode == ListMergeMode.EXTEND_UNIQUE:
-- 
2.43.0


From 90f980860ec1efa124554d1f60c7a7191012a5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:29 +0000
Subject: [PATCH 09/62] fix: a rejected assignment to a DictConfig node keeps
 its type and flags

---
 omegaconf/dictconfig.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 11b2e70..caa9bfa 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -639,9 +639,12 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
     def _set_value(self, value: Any, flags: Optional[Dict[str, bool]] = None) -> None:
         try:
             previous_content = self.__dict__["_content"]
+            previous_metadata = copy.copy(self.__dict__["_metadata"])
             self._set_value_impl(value, flags)
         except Exception as e:
             self.__dict__["_content"] = previous_content
+            self.__dict__["_metadata"] = previous_metadata
+            self._invalidate_flags_cache()
             raise e
 
     def _set_value_impl(
-- 
2.43.0


From 7cef492ebcb330b0e95690955d914f0ef0f1502f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:49 +0000
Subject: [PATCH 10/62] fix: a rejected assignment to a ListConfig node keeps
 its flags

---
 omegaconf/listconfig.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 46210d1..ddfbb37 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -578,11 +578,12 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
     def _set_value(self, value: Any, flags: Optional[Dict[str, bool]] = None) -> None:
         try:
             previous_content = self.__dict__["_content"]
-            previous_metadata = self.__dict__["_metadata"]
+            previous_metadata = copy.copy(self.__dict__["_metadata"])
             self._set_value_impl(value, flags)
         except Exception as e:
             self.__dict__["_content"] = previous_content
             self.__dict__["_metadata"] = previous_metadata
+            self._invalidate_flags_cache()
             raise e
 
     def _set_value_impl(
-- 
2.43.0


From d5a6509d4197b05c63ef9d3c34d8a3e7d313456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 11/62] fix: merging into a read-only config never changes its
 content

---
 omegaconf/basecontainer.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index aed3ce3..8402225 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -61,6 +61,10 @@ class BaseContainer(Container, ABC):
             raise ConfigTypeError("Parent type is not omegaconf.Box")
         super().__init__(parent=parent, metadata=metadata)
 
+    def _validate_not_readonly(self) -> None:
+        if self._get_flag("readonly"):
+            raise ReadonlyConfigError("Cannot change read-only config container")
+
     def _get_child(
         self,
         key: Any,
@@ -315,13 +319,15 @@ class BaseContainer(Container, ABC):
         #  - None => set the destination DictConfig to None
         #  - an interpolation => set the destination DictConfig to be the same interpolation
         if src._is_none() or src._is_interpolation():
+            dest._validate_not_readonly()
             dest._set_value(src._value())
             _update_types(node=dest, ref_type=src_ref_type, object_type=src_type)
             return
 
         dest._validate_merge(value=src)
 
-        def expand(node: Container) -> None:
+        def expand(node: BaseContainer) -> None:
+            node._validate_not_readonly()
             rt = node._metadata.ref_type
             val: Any
             if rt is not Any:
@@ -369,7 +375,7 @@ class BaseContainer(Container, ABC):
                 dest_node._validate_merge(value=src_node)
 
             if (
-                isinstance(dest_node, Container)
+                isinstance(dest_node, BaseContainer)
                 and dest_node._is_none()
                 and not src_node_missing
                 and not _is_none(src_node, resolve=True)
@@ -417,6 +423,10 @@ class BaseContainer(Container, ABC):
                                 dest.__setitem__(key, node)
                             else:
                                 if not src_node_missing:
+                                    if dest_node._get_flag("readonly"):
+                                        raise ReadonlyConfigError(
+                                            "Cannot set value of read-only config node"
+                                        )
                                     dest_node._set_value(src_value)
 
                         except (ValidationError, ReadonlyConfigError) as e:
@@ -451,6 +461,9 @@ class BaseContainer(Container, ABC):
         assert isinstance(dest, ListConfig)
         assert isinstance(src, ListConfig)
 
+        if not src._is_missing():
+            dest._validate_not_readonly()
+
         if src._is_none():
             dest._set_value(None)
         elif src._is_missing():
-- 
2.43.0


From ad91c4c3aedb9ec6a51771a2353189db9ee17e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:35 +0000
Subject: [PATCH 12/62] fix: OmegaConf.resolve does not change read-only nodes

---
 omegaconf/_impl.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/omegaconf/_impl.py b/omegaconf/_impl.py
index 49be303..5672c0f 100644
--- a/omegaconf/_impl.py
+++ b/omegaconf/_impl.py
@@ -1,7 +1,11 @@
 from typing import Any
 
 from omegaconf import MISSING, Container, DictConfig, ListConfig, Node, ValueNode
-from omegaconf.errors import ConfigTypeError, InterpolationToMissingValueError
+from omegaconf.errors import (
+    ConfigTypeError,
+    InterpolationToMissingValueError,
+    ReadonlyConfigError,
+)
 from omegaconf.nodes import InterpolationResultNode
 
 from ._utils import (
@@ -13,6 +17,12 @@ from ._utils import (
 )
 
 
+def _set_resolved_value(node: Node, value: Any) -> None:
+    if node._get_flag("readonly"):
+        raise ReadonlyConfigError("Cannot resolve a read-only config node")
+    node._set_value(value)
+
+
 def _resolve_container_value(cfg: Container, key: Any) -> None:
     node = cfg._get_child(key)
     assert isinstance(node, Node)
@@ -20,7 +30,7 @@ def _resolve_container_value(cfg: Container, key: Any) -> None:
         try:
             resolved = node._dereference_node()
         except InterpolationToMissingValueError:
-            node._set_value(MISSING)
+            _set_resolved_value(node, MISSING)
         else:
             if isinstance(resolved, Container):
                 _resolve(resolved)
@@ -33,7 +43,7 @@ def _resolve_container_value(cfg: Container, key: Any) -> None:
             if isinstance(resolved, Container) and isinstance(node, ValueNode):
                 cfg[key] = resolved
             else:
-                node._set_value(_get_value(resolved))
+                _set_resolved_value(node, _get_value(resolved))
     else:
         _resolve(node)
 
@@ -44,9 +54,9 @@ def _resolve(cfg: Node) -> Node:
         try:
             resolved = cfg._dereference_node()
         except InterpolationToMissingValueError:
-            cfg._set_value(MISSING)
+            _set_resolved_value(cfg, MISSING)
         else:
-            cfg._set_value(resolved._value())
+            _set_resolved_value(cfg, resolved._value())
 
     if isinstance(cfg, DictConfig):
         for k in cfg.keys():
-- 
2.43.0


From 94bbf852757b87a15197f48bef237df2834631ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 13/62] fix: ListConfig.reverse keeps interpolations and
 missing values

---
 omegaconf/listconfig.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index ddfbb37..752b59f 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -478,6 +478,22 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             self._format_and_raise(key=None, value=None, cause=e)
             assert False
 
+    def reverse(self) -> None:
+        try:
+            if self._get_flag("readonly"):
+                raise ReadonlyConfigError("Cannot reverse a read-only ListConfig")
+            if self._is_none():
+                raise TypeError("Cannot reverse a ListConfig object representing None")
+            if self._is_missing():
+                raise MissingMandatoryValue("Cannot reverse a missing ListConfig")
+
+            assert isinstance(self.__dict__["_content"], list)
+            self.__dict__["_content"].reverse()
+            self._update_keys()
+        except Exception as e:
+            self._format_and_raise(key=None, value=None, cause=e)
+            assert False
+
     def __eq__(self, other: Any) -> bool:
         if isinstance(other, (list, tuple)) or other is None:
             other = ListConfig(other, flags={"allow_objects": True})
-- 
2.43.0


From 8e8fa01c9638ed1fcaaff7cd7f4c4a1cdec72716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 14/62] fix: DictConfig.clear works when values are missing or
 cannot be resolved

---
 omegaconf/dictconfig.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index caa9bfa..b3f1982 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -514,6 +514,10 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         except Exception as e:
             self._format_and_raise(key=key, value=None, cause=e)
 
+    def clear(self) -> None:
+        for key in list(self.keys()):
+            del self[key]
+
     def keys(self) -> KeysView[DictKeyType]:
         if self._is_missing() or self._is_interpolation() or self._is_none():
             return {}.keys()
-- 
2.43.0


From 9f99d5e70d96067c2c599323037c8ddad91bfd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:07 +0000
Subject: [PATCH 15/62] fix: to_yaml quotes strings with underscores that the
 YAML loader reads as floats

---
 omegaconf/_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index 57d0ef4..f7e528b 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -117,7 +117,10 @@ class OmegaConfDumper(BaseDumper):  # type: ignore
 
     @staticmethod
     def str_representer(dumper: yaml.Dumper, data: str) -> yaml.ScalarNode:
-        with_quotes = yaml_is_bool(data) or is_int(data) or is_float(data)
+        # underscores: "1._5" is not a float for Python but it is one for the YAML loader
+        with_quotes = (
+            yaml_is_bool(data) or is_int(data) or is_float(data.replace("_", ""))
+        )
         return dumper.represent_scalar(
             yaml.resolver.BaseResolver.DEFAULT_SCALAR_TAG,
             data,
-- 
2.43.0


From e1662e512a58fb53bada90fde0bb4e55fce57e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 16/62] fix: appending or inserting a container that holds the
 list itself

---
 omegaconf/listconfig.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 752b59f..077ce93 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -264,7 +264,14 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         except Exception as e:
             self._format_and_raise(key=index, value=value, cause=e)
 
+    def _copy_if_same_root(self, item: Any) -> Any:
+        # copy before this list holds a place holder: item may contain this list
+        if isinstance(item, BaseContainer) and item._get_root() is self._get_root():
+            return copy.deepcopy(item)
+        return item
+
     def append(self, item: Any) -> None:
+        item = self._copy_if_same_root(item)
         content = self.__dict__["_content"]
         index = len(content)
         content.append(None)
@@ -294,6 +301,7 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                 raise MissingMandatoryValue("Cannot insert into missing ListConfig")
 
             assert isinstance(self.__dict__["_content"], list)
+            item = self._copy_if_same_root(item)
             size = len(self.__dict__["_content"])
             # insert place holder
             self.__dict__["_content"].insert(index, None)
-- 
2.43.0


From 669d4ff15ccec1329ca1df8c22f4ed94f4f5876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 17/62] fix: defaults given by attr.Factory are used when
 creating from an attrs class

---
 omegaconf/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index f7e528b..e7c8a14 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -351,6 +351,8 @@ def get_attr_data(obj: Any, allow_objects: Optional[bool] = None) -> Dict[str, A
             value = attrib.default
             if value == attr.NOTHING:
                 value = MISSING
+            elif isinstance(value, attr.Factory) and not value.takes_self:  # type: ignore
+                value = value.factory()
         if is_union_annotation(type_) and not is_supported_union_annotation(type_):
             e = ConfigValueError(
                 f"Unions of containers are not supported:\n{name}: {type_str(type_)}"  # noqa: E231
-- 
2.43.0


From 6ead0b0bacd73fdc25868db210983547217717aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:18 +0000
Subject: [PATCH 18/62] fix: a failed ListConfig.sort leaves the list as it was

---
 omegaconf/listconfig.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 077ce93..23f3180 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -479,7 +479,9 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                     return key(x._value())
 
             assert isinstance(self.__dict__["_content"], list)
-            self.__dict__["_content"].sort(key=key1, reverse=reverse)
+            self.__dict__["_content"] = sorted(
+                self.__dict__["_content"], key=key1, reverse=reverse
+            )
             self._update_keys()
 
         except Exception as e:
-- 
2.43.0


From 1128424f2b1598f3a23a408bd7fd9e8f9347ec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 19/62] fix: full keys of containers held by lists

---
 omegaconf/basecontainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 8402225..9447ff2 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -814,7 +814,7 @@ class BaseContainer(Container, ABC):
             cur = self
             if cur._key() is None:
                 return ""
-            full_key = self._key()
+            full_key = prepand("", type(cur._get_parent()), type(cur), cur._key())
 
         assert cur is not None
         memo = {id(cur)}  # remember already visited nodes so as to detect cycles
-- 
2.43.0


From ecc5f4810093bfafe9554fc9b16c0ac4269d6db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:37 +0000
Subject: [PATCH 20/62] fix: merging accepts tuples

---
 omegaconf/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index e7c8a14..cf72155 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -960,7 +960,7 @@ def _ensure_container(target: Any, flags: Optional[Dict[str, bool]] = None) -> A
     from omegaconf import OmegaConf
 
     if is_primitive_container(target):
-        assert isinstance(target, (list, dict))
+        assert isinstance(target, (list, dict, tuple))
         target = OmegaConf.create(target, flags=flags)
     elif is_structured_config(target):
         target = OmegaConf.structured(target, flags=flags)
-- 
2.43.0


From 114f826b874015e0d74d44b493980fb7bca13a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:22 +0000
Subject: [PATCH 21/62] fix: merging a missing value never changes the
 destination

---
 omegaconf/basecontainer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 9447ff2..f2c7cac 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -382,7 +382,11 @@ class BaseContainer(Container, ABC):
             ):
                 expand(dest_node)
 
-            if dest_node is not None and dest_node._is_interpolation():
+            if (
+                dest_node is not None
+                and dest_node._is_interpolation()
+                and not src_node_missing
+            ):
                 target_node = dest_node._maybe_dereference_node()
                 if isinstance(target_node, Container):
                     dest[key] = target_node
@@ -407,7 +411,8 @@ class BaseContainer(Container, ABC):
                         dest.__setitem__(key, src_node)
                 else:
                     if isinstance(src_node, BaseContainer):
-                        dest.__setitem__(key, src_node)
+                        if not src_node_missing:
+                            dest.__setitem__(key, src_node)
                     else:
                         assert isinstance(dest_node, (ValueNode, UnionNode))
                         assert isinstance(src_node, (ValueNode, UnionNode))
-- 
2.43.0


From 1d0573ebd13b7cc8fe1a6f61f794b4d3f2b773ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 22/62] fix: merging an interpolation into a None container
 does not resolve it

---
 omegaconf/basecontainer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index f2c7cac..46491f4 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -378,7 +378,9 @@ class BaseContainer(Container, ABC):
                 isinstance(dest_node, BaseContainer)
                 and dest_node._is_none()
                 and not src_node_missing
-                and not _is_none(src_node, resolve=True)
+                and not _is_none(
+                    src_node, resolve=True, throw_on_resolution_failure=False
+                )
             ):
                 expand(dest_node)
 
-- 
2.43.0


From ee8da26f36e3688fc69f63fb5bebf525334a3fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:07 +0000
Subject: [PATCH 23/62] fix: nodes assigned to typed containers and structured
 fields are validated against the declared type

---
 omegaconf/basecontainer.py | 54 ++++++++++++++++++++++++++++++++++----
 1 file changed, 49 insertions(+), 5 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 46491f4..1c1f412 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -28,6 +28,7 @@ from ._utils import (
     is_structured_config,
     is_tuple_annotation,
     is_union_annotation,
+    type_str,
 )
 from .base import (
     Box,
@@ -623,16 +624,38 @@ class BaseContainer(Container, ABC):
         target_type_hint = get_target_type_hint(value)
         _, target_ref_type = _resolve_optional(target_type_hint)
 
-        def assign(value_key: Any, val: Node) -> None:
+        def assign(value_key: Any, val: Node, type_hint: Any) -> None:
             assert val._get_parent() is None
             v = val
             v._set_parent(self)
             v._set_key(value_key)
-            _deep_update_type_hint(node=v, type_hint=self._metadata.element_type)
+            _deep_update_type_hint(node=v, type_hint=type_hint)
             self.__dict__["_content"][value_key] = v
 
+        if isinstance(value, Container) and not _is_special(value):
+            self._validate_container_element(value)
+
+        if (
+            input_is_typed_vnode
+            and target_node_ref is not None
+            and isinstance(self, Box)
+            and is_structured_config(self._metadata.object_type)
+        ):
+            # the type of a field is declared by the structured config
+            target_type_hint = target_node_ref._metadata.type_hint
+            _, target_ref_type = _resolve_optional(target_type_hint)
+
         if input_is_typed_vnode and not is_union_annotation(target_ref_type):
-            assign(key, value)
+            if target_ref_type is Any:
+                assign(key, value, Any)
+            else:
+                _shallow_validate_type_hint(value, target_type_hint)
+                node_value = value._value()
+                wrapped = self._wrap_value(key, node_value, target_type_hint)
+                if type(wrapped) is type(value):
+                    assign(key, value, target_type_hint)
+                else:
+                    self.__dict__["_content"][key] = wrapped
         else:
             # input is not a ValueNode, can be primitive or box
 
@@ -664,11 +687,32 @@ class BaseContainer(Container, ABC):
                     value = _get_value(value)
                     self._wrap_value_and_set(key, value, target_type_hint)
                 else:
-                    assign(key, value)
+                    assign(key, value, self._metadata.element_type)
             else:
                 self._wrap_value_and_set(key, value, target_type_hint)
 
+    def _validate_container_element(self, value: Container) -> None:
+        """Error if a container node cannot be an element of this container."""
+        from .omegaconf import OmegaConf
+
+        _, ref_type = _resolve_optional(self._metadata.element_type)
+        if is_primitive_type_annotation(ref_type) or is_union_annotation(ref_type):
+            valid = False
+        elif is_structured_config(ref_type):
+            value_type = OmegaConf.get_type(value)
+            valid = value_type is not None and issubclass(value_type, ref_type)
+        else:
+            return
+        if not valid:
+            raise ValidationError(
+                f"Invalid type assigned: {type_str(OmegaConf.get_type(value))}"
+                f" is incompatible with {type_str(ref_type)}. value: {value}"
+            )
+
     def _wrap_value_and_set(self, key: Any, val: Any, type_hint: Any) -> None:
+        self.__dict__["_content"][key] = self._wrap_value(key, val, type_hint)
+
+    def _wrap_value(self, key: Any, val: Any, type_hint: Any) -> Node:
         from omegaconf.omegaconf import _maybe_wrap
 
         is_optional, ref_type = _resolve_optional(type_hint)
@@ -683,7 +727,7 @@ class BaseContainer(Container, ABC):
             )
         except ValidationError as e:
             self._format_and_raise(key=key, value=val, cause=e)
-        self.__dict__["_content"][key] = wrapped
+        return wrapped
 
     @staticmethod
     def _item_eq(
-- 
2.43.0


From 1412b5abf4d603882cc50da5b220ae3256e16128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:27 +0000
Subject: [PATCH 24/62] fix: plain dicts merged into nested typed containers
 become the declared structured configs

---
 omegaconf/basecontainer.py | 48 +++++++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 1c1f412..354ae47 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -447,7 +447,9 @@ class BaseContainer(Container, ABC):
                     with open_dict(dest):
                         dest[key] = src._get_node(key)
                 else:
-                    dest[key] = src._get_node(key)
+                    dest[key] = _as_new_element(
+                        src_node, is_optional, et, parent=dest, key=key
+                    )
 
         _update_types(node=dest, ref_type=src_ref_type, object_type=src_type)
 
@@ -494,7 +496,7 @@ class BaseContainer(Container, ABC):
                     temp_target.append(item)
             else:
                 for item in src._iter_ex(resolve=False):
-                    temp_target.append(item)
+                    temp_target.append(_as_new_element(item, is_optional, et))
 
             if dest._is_none() or dest._is_missing() or dest._is_interpolation():
                 # there are no items to extend
@@ -901,6 +903,41 @@ def _create_structured_with_missing_fields(
     return cfg
 
 
+def _as_new_element(
+    value: Any,
+    is_optional: bool,
+    ref_type: Any,
+    parent: Optional[BaseContainer] = None,
+    key: Any = None,
+) -> Any:
+    """
+    When a plain container is merged as a new element of a container of typed containers,
+    merge it into an empty container of that type, so that anything in it that should be
+    a structured config becomes one.
+    """
+    from omegaconf import DictConfig, ListConfig
+    from omegaconf.omegaconf import _node_wrap
+
+    if not isinstance(value, BaseContainer) or _is_special(value):
+        return value
+
+    empty: Any
+    if isinstance(value, DictConfig) and is_dict_annotation(ref_type):
+        if is_structured_config(value._metadata.object_type):
+            return value
+        empty = {}
+    elif isinstance(value, ListConfig) and is_list_annotation(ref_type):
+        empty = []
+    else:
+        return value
+    base = _node_wrap(
+        parent=parent, is_optional=is_optional, value=empty, key=key, ref_type=ref_type
+    )
+    assert isinstance(base, BaseContainer)
+    base._merge_with(value)
+    return base
+
+
 def _update_types(node: Node, ref_type: Any, object_type: Optional[type]) -> None:
     if object_type is not None and not is_primitive_dict(object_type):
         node._metadata.object_type = object_type
@@ -960,7 +997,7 @@ def _deep_update_subnode(node: BaseContainer, key: Any, value_type_hint: Any) ->
 
 def _shallow_validate_type_hint(node: Node, type_hint: Any) -> None:
     """Error if node's type, content and metadata are not compatible with type_hint."""
-    from omegaconf import DictConfig, ListConfig, ValueNode
+    from omegaconf import DictConfig, ListConfig, OmegaConf, ValueNode
 
     is_optional, ref_type = _resolve_optional(type_hint)
 
@@ -985,6 +1022,11 @@ def _shallow_validate_type_hint(node: Node, type_hint: Any) -> None:
                     + f" is incompatible with type hint '{ref_type.__name__}'"
                 )
         elif is_structured_config(ref_type) and isinstance(node, DictConfig):
+            object_type = OmegaConf.get_type(node)
+            if object_type is None or not issubclass(object_type, ref_type):
+                raise ValidationError(
+                    f"'{type_str(object_type)}' is not a subclass of '{type_str(ref_type)}'"
+                )
             return
         elif is_dict_annotation(ref_type) and isinstance(node, DictConfig):
             return
-- 
2.43.0


From 56cb8ddef4067e237b822e6f2092d0f018a4f2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 25/62] fix: merging a structured config into an interpolation
 validates it against the declared type

---
 omegaconf/dictconfig.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index b3f1982..760dace 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -216,7 +216,9 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         dest_obj_type = OmegaConf.get_type(dest)
         src_obj_type = OmegaConf.get_type(src)
 
-        if dest._is_missing() and src._metadata.object_type not in (dict, None):
+        if (
+            dest._is_missing() or dest._is_interpolation()
+        ) and src._metadata.object_type not in (dict, None):
             self._validate_set(key=None, value=_get_value(src))
 
         if src._is_missing():
-- 
2.43.0


From c80bad6aa3724ea7ffc5518c35942aeba2d8cf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 26/62] fix: values of an untyped container become typed nodes
 when it joins a typed container

---
 omegaconf/basecontainer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 354ae47..bc034f9 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -984,6 +984,8 @@ def _deep_update_type_hint(node: Node, type_hint: Any) -> None:
 
 def _deep_update_subnode(node: BaseContainer, key: Any, value_type_hint: Any) -> None:
     """Get node[key] and ensure it is compatible with value_type_hint, mutating if necessary."""
+    from omegaconf import AnyNode
+
     subnode = node._get_node(key)
     assert isinstance(subnode, Node)
     if _is_special(subnode):
@@ -993,6 +995,10 @@ def _deep_update_subnode(node: BaseContainer, key: Any, value_type_hint: Any) ->
         subnode = node._get_node(key)
         assert isinstance(subnode, Node)
     _deep_update_type_hint(subnode, value_type_hint)
+    _, ref_type = _resolve_optional(value_type_hint)
+    if isinstance(subnode, AnyNode) and ref_type is not Any:
+        # the value is valid: hold it in a node that validates later values
+        node._wrap_value_and_set(key, subnode._value(), value_type_hint)
 
 
 def _shallow_validate_type_hint(node: Node, type_hint: Any) -> None:
-- 
2.43.0


From 24c186a87cc481b8191285985451b20383b06178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:46 +0000
Subject: [PATCH 27/62] fix: assigning an AnyNode to a typed field validates
 the value it holds

---
 omegaconf/basecontainer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index bc034f9..49a2b46 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -673,7 +673,9 @@ class BaseContainer(Container, ABC):
                 )
             )
             if should_set_value:
-                if special_value and isinstance(value, Node):
+                if isinstance(value, ValueNode) or (
+                    special_value and isinstance(value, Node)
+                ):
                     value = value._value()
                 self.__dict__["_content"][key]._set_value(value)
             elif input_is_node:
-- 
2.43.0


From 3cf0c0cc0c9a8a659b1ee197cabfd53f82430389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:45 +0000
Subject: [PATCH 28/62] fix: the value held by a union node follows flag
 changes of its ancestors

---
 omegaconf/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/omegaconf/base.py b/omegaconf/base.py
index 39667d9..2f5e4c3 100644
--- a/omegaconf/base.py
+++ b/omegaconf/base.py
@@ -834,6 +834,13 @@ class UnionNode(Box):
         except Exception as ex:
             format_and_raise(node=None, key=key, value=content, msg=str(ex), cause=ex)
 
+    def _invalidate_flags_cache(self) -> None:
+        super()._invalidate_flags_cache()
+        # the wrapped node inherits its flags through this node
+        content = self.__dict__.get("_content")
+        if isinstance(content, Node):
+            content._invalidate_flags_cache()
+
     def _get_full_key(self, key: Optional[Union[DictKeyType, int]]) -> str:
         parent = self._get_parent()
         if parent is None:
-- 
2.43.0


From 2a30c666746889937cf430cfa20d9ee427044d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:11 +0000
Subject: [PATCH 29/62] fix: configs holding union values can join and be
 merged into containers of the same type

---
 omegaconf/basecontainer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 49a2b46..ed02a7f 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -996,11 +996,14 @@ def _deep_update_subnode(node: BaseContainer, key: Any, value_type_hint: Any) ->
         node._wrap_value_and_set(key, subnode._value(), value_type_hint)
         subnode = node._get_node(key)
         assert isinstance(subnode, Node)
+    prev_ref_type = subnode._metadata.ref_type
     _deep_update_type_hint(subnode, value_type_hint)
     _, ref_type = _resolve_optional(value_type_hint)
-    if isinstance(subnode, AnyNode) and ref_type is not Any:
+    if (isinstance(subnode, AnyNode) and ref_type is not Any) or (
+        is_union_annotation(ref_type) and prev_ref_type != ref_type
+    ):
         # the value is valid: hold it in a node that validates later values
-        node._wrap_value_and_set(key, subnode._value(), value_type_hint)
+        node._wrap_value_and_set(key, _get_value(subnode), value_type_hint)
 
 
 def _shallow_validate_type_hint(node: Node, type_hint: Any) -> None:
@@ -1029,6 +1032,11 @@ def _shallow_validate_type_hint(node: Node, type_hint: Any) -> None:
                     f"Value {value!r} ({type(value).__name__})"
                     + f" is incompatible with type hint '{ref_type.__name__}'"
                 )
+        elif is_union_annotation(ref_type) and isinstance(node, (ValueNode, UnionNode)):
+            # raises if the value is not of one of the member types
+            UnionNode(
+                content=_get_value(node), ref_type=ref_type, is_optional=is_optional
+            )
         elif is_structured_config(ref_type) and isinstance(node, DictConfig):
             object_type = OmegaConf.get_type(node)
             if object_type is None or not issubclass(object_type, ref_type):
-- 
2.43.0


From 0a93c18aa60d3d08f1b3929e70922594965bf28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:17 +0000
Subject: [PATCH 30/62] fix: malformed interpolations are rejected by union
 fields too

---
 omegaconf/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omegaconf/base.py b/omegaconf/base.py
index 2f5e4c3..8307fe3 100644
--- a/omegaconf/base.py
+++ b/omegaconf/base.py
@@ -895,6 +895,8 @@ class UnionNode(Box):
         type_hint = self._metadata.type_hint
 
         value = _get_value(value)
+        # malformed interpolations are refused here, like in any other node
+        get_value_kind(value, strict_interpolation_validation=True)
         if _is_special(value):
             assert isinstance(value, (str, NoneType))
             if value is None:
-- 
2.43.0


From dfab82ba3b22d7a52fc9e30e19220facff489d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:55 +0000
Subject: [PATCH 31/62] fix: missing_keys does not follow interpolations

---
 omegaconf/omegaconf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index db65eca..a7e889d 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -820,6 +820,9 @@ class OmegaConf:
             for key in itr:
                 if OmegaConf.is_missing(_cfg, key):
                     missings.add(_cfg._get_full_key(key))
+                elif OmegaConf.is_interpolation(_cfg, key):
+                    # what it points to is not part of this node, or not there at all
+                    continue
                 elif OmegaConf.is_config(_cfg[key]):
                     gather(_cfg[key])
 
-- 
2.43.0


From fb5d5e30762a80c896bff061acb29c09385da932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:20 +0000
Subject: [PATCH 32/62] fix: selecting below a missing dict finds nothing
 instead of failing

---
 omegaconf/omegaconf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index a7e889d..9fb617d 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -1135,7 +1135,7 @@ def _select_one(
 
     ret_key: Union[str, int] = key
     assert isinstance(c, Container), f"Unexpected type: {c}"
-    if c._is_none():
+    if c._is_none() or c._is_missing():
         return None, ret_key
 
     if isinstance(c, DictConfig):
-- 
2.43.0


From 34c9e3eeefe2f1846cbb22ff423d949e4dcf7158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:58 +0000
Subject: [PATCH 33/62] fix: deleting an enum key of a DictConfig by attribute

---
 omegaconf/dictconfig.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 760dace..b5fcd2d 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -389,8 +389,8 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
                 ),
             )
         try:
-            del self.__dict__["_content"][key]
-        except KeyError:
+            del self.__dict__["_content"][self._validate_and_normalize_key(key)]
+        except (KeyError, KeyValidationError):
             msg = "Attribute not found: '$KEY'"
             self._format_and_raise(key=key, value=None, cause=ConfigAttributeError(msg))
 
-- 
2.43.0


From 8113fe1e3ad57f8b963f126e1dbc52f4b3ccba23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:59 +0000
Subject: [PATCH 34/62] fix: incompatible keys are reported before the key type
 of a dict is changed

---
 omegaconf/basecontainer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index ed02a7f..4585d9b 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -972,8 +972,6 @@ def _deep_update_type_hint(node: Node, type_hint: Any) -> None:
 
     if is_dict_annotation(new_ref_type) and isinstance(node, DictConfig):
         new_key_type, new_element_type = get_dict_key_value_types(new_ref_type)
-        node._metadata.key_type = new_key_type
-        node._metadata.element_type = new_element_type
         if not _is_special(node):
             for key in node:
                 if new_key_type is not Any and not isinstance(key, new_key_type):
@@ -981,6 +979,10 @@ def _deep_update_type_hint(node: Node, type_hint: Any) -> None:
                         f"Key {key!r} ({type(key).__name__}) is incompatible"
                         + f" with key type hint '{new_key_type.__name__}'"
                     )
+        node._metadata.key_type = new_key_type
+        node._metadata.element_type = new_element_type
+        if not _is_special(node):
+            for key in node:
                 _deep_update_subnode(node, key, new_element_type)
 
 
-- 
2.43.0


From f8d6f756853fb682250bf76de5b3e6eb55b90d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:16 +0000
Subject: [PATCH 35/62] fix: the fast path for interpolations accepts only what
 the grammar accepts

---
 omegaconf/grammar_parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/omegaconf/grammar_parser.py b/omegaconf/grammar_parser.py
index 423a1ae..2347e41 100644
--- a/omegaconf/grammar_parser.py
+++ b/omegaconf/grammar_parser.py
@@ -20,17 +20,18 @@ _grammar_cache = threading.local()
 
 # Build regex pattern to efficiently identify typical interpolations.
 # See test `test_match_simple_interpolation_pattern` for examples.
+_ws = r"[ \t]*"  # the only white space characters of the grammar
 _config_key = r"[$\w]+"  # foo, $0, $bar, $foo_$bar123$
 _key_maybe_brackets = f"{_config_key}|\\[{_config_key}\\]"  # foo, [foo], [$bar]
 _node_access = f"\\.{_key_maybe_brackets}"  # .foo, [foo], [$bar]
 _node_path = f"(\\.)*({_key_maybe_brackets})({_node_access})*"  # [foo].bar, .foo[bar]
-_node_inter = f"\\${{\\s*{_node_path}\\s*}}"  # node interpolation ${foo.bar}
+_node_inter = f"\\${{{_ws}{_node_path}{_ws}}}"  # node interpolation ${foo.bar}
 _id = "[a-zA-Z_][\\w\\-]*"  # foo, foo_bar, foo-bar, abc123
-_resolver_name = f"({_id}(\\.{_id})*)?"  # foo, ns.bar3, ns_1.ns_2.b0z
+_resolver_name = f"{_id}(\\.{_id})*"  # foo, ns.bar3, ns_1.ns_2.b0z
 _arg = r"[a-zA-Z_0-9/\-\+.$%*@?|]+"  # string representing a resolver argument
-_args = f"{_arg}(\\s*,\\s*{_arg})*"  # list of resolver arguments  # noqa: E231
+_args = f"{_arg}({_ws},{_ws}{_arg})*"  # list of resolver arguments  # noqa: E231
 _resolver_inter = (
-    f"\\${{\\s*{_resolver_name}\\s*:\\s*{_args}?\\s*}}"  # ${foo:bar}  # noqa: E231
+    f"\\${{{_ws}{_resolver_name}{_ws}:{_ws}{_args}?{_ws}}}"  # ${foo:bar}  # noqa: E231
 )
 _inter = f"({_node_inter}|{_resolver_inter})"  # any kind of interpolation
 _outer = "([^$]|\\$(?!{))+"  # any character except $ (unless not followed by {)
-- 
2.43.0


From e055028469f22424c71cc997ebbd2647f138ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 36/62] fix: OmegaConf.resolve keeps literal text that looks
 like an interpolation

---
 omegaconf/_impl.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/omegaconf/_impl.py b/omegaconf/_impl.py
index 5672c0f..6cf47f7 100644
--- a/omegaconf/_impl.py
+++ b/omegaconf/_impl.py
@@ -1,3 +1,4 @@
+import re
 from typing import Any
 
 from omegaconf import MISSING, Container, DictConfig, ListConfig, Node, ValueNode
@@ -13,6 +14,8 @@ from ._utils import (
     _ensure_container,
     _get_value,
     is_primitive_container,
+    is_primitive_dict,
+    is_primitive_list,
     is_structured_config,
 )
 
@@ -20,7 +23,21 @@ from ._utils import (
 def _set_resolved_value(node: Node, value: Any) -> None:
     if node._get_flag("readonly"):
         raise ReadonlyConfigError("Cannot resolve a read-only config node")
-    node._set_value(value)
+    node._set_value(_escape_interpolations(value))
+
+
+def _escape_interpolations(value: Any) -> Any:
+    """
+    Escape what looks like an interpolation in a resolved value, so that reading
+    the resolved node gives this value.
+    """
+    if isinstance(value, str):
+        return re.sub(r"(\\*)\$\{", r"\1\1\\${", value)
+    elif is_primitive_list(value):
+        return [_escape_interpolations(v) for v in value]
+    elif is_primitive_dict(value):
+        return {k: _escape_interpolations(v) for k, v in value.items()}
+    return value
 
 
 def _resolve_container_value(cfg: Container, key: Any) -> None:
@@ -39,7 +56,7 @@ def _resolve_container_value(cfg: Container, key: Any) -> None:
                 if is_primitive_container(resolved_value) or is_structured_config(
                     resolved_value
                 ):
-                    resolved = _ensure_container(resolved_value)
+                    resolved = _ensure_container(_escape_interpolations(resolved_value))
             if isinstance(resolved, Container) and isinstance(node, ValueNode):
                 cfg[key] = resolved
             else:
-- 
2.43.0


From 2d3d21b9462380f8d1fef1f89b7f03a121dfe981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 37/62] fix: OmegaConf.resolve of a sub-config leaves the rest
 of the config alone

---
 omegaconf/_impl.py | 49 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/omegaconf/_impl.py b/omegaconf/_impl.py
index 6cf47f7..36fccb3 100644
--- a/omegaconf/_impl.py
+++ b/omegaconf/_impl.py
@@ -1,5 +1,6 @@
+import copy
 import re
-from typing import Any
+from typing import Any, Optional, Tuple
 
 from omegaconf import MISSING, Container, DictConfig, ListConfig, Node, ValueNode
 from omegaconf.errors import (
@@ -40,17 +41,32 @@ def _escape_interpolations(value: Any) -> Any:
     return value
 
 
-def _resolve_container_value(cfg: Container, key: Any) -> None:
+def _is_inside(node: Node, root: Node) -> bool:
+    current: Optional[Node] = node
+    while current is not None and current is not root:
+        current = current._get_parent()
+    return current is root
+
+
+def _resolve_container_value(
+    cfg: Container, key: Any, source: Container, root: Node
+) -> None:
     node = cfg._get_child(key)
+    source_node = source._get_child(key)
     assert isinstance(node, Node)
+    assert isinstance(source_node, Node)
     if node._is_interpolation():
         try:
-            resolved = node._dereference_node()
+            resolved = source_node._dereference_node()
         except InterpolationToMissingValueError:
             _set_resolved_value(node, MISSING)
         else:
             if isinstance(resolved, Container):
-                _resolve(resolved)
+                target = resolved
+                if not _is_inside(target, root):
+                    # what is not part of the config being resolved must not change
+                    resolved = copy.deepcopy(target)
+                _resolve(resolved, target, root)
             if isinstance(resolved, InterpolationResultNode):
                 resolved_value = _get_value(resolved)
                 if is_primitive_container(resolved_value) or is_structured_config(
@@ -62,26 +78,41 @@ def _resolve_container_value(cfg: Container, key: Any) -> None:
             else:
                 _set_resolved_value(node, _get_value(resolved))
     else:
-        _resolve(node)
+        _resolve(node, source_node, root)
 
 
-def _resolve(cfg: Node) -> Node:
+def _resolve(
+    cfg: Node, source: Optional[Node] = None, root: Optional[Node] = None
+) -> Node:
+    """
+    Resolve the interpolations in `cfg`.
+
+    :param cfg: Node to change in-place.
+    :param source: Node `cfg` is a copy of, whose interpolations are evaluated instead
+        of the ones of `cfg`. Default: `cfg` itself.
+    :param root: Only nodes in `root` are changed. Default: `cfg`.
+    """
     assert isinstance(cfg, Node)
+    source = source if source is not None else cfg
+    root = root if root is not None else cfg
     if cfg._is_interpolation():
         try:
-            resolved = cfg._dereference_node()
+            resolved = source._dereference_node()
         except InterpolationToMissingValueError:
             _set_resolved_value(cfg, MISSING)
         else:
             _set_resolved_value(cfg, resolved._value())
+            source = cfg
 
     if isinstance(cfg, DictConfig):
+        assert isinstance(source, DictConfig)
         for k in cfg.keys():
-            _resolve_container_value(cfg, k)
+            _resolve_container_value(cfg, k, source, root)
 
     elif isinstance(cfg, ListConfig):
+        assert isinstance(source, ListConfig)
         for i in range(len(cfg)):
-            _resolve_container_value(cfg, i)
+            _resolve_container_value(cfg, i, source, root)
 
     return cfg
 
-- 
2.43.0


From dfe5cd3a567e56d8b50183f23523d21cd8cfe398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 38/62] fix: loading YAML rejects duplicate keys that are not
 strings too

---
 omegaconf/_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index cf72155..fe0d63e 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -144,16 +144,20 @@ def get_yaml_loader() -> Any:
         def construct_mapping(self, node: yaml.Node, deep: bool = False) -> Any:
             keys = set()
             for key_node, value_node in node.value:
-                if key_node.tag != yaml.resolver.BaseResolver.DEFAULT_SCALAR_TAG:
+                if (
+                    not isinstance(key_node, yaml.ScalarNode)
+                    or key_node.tag == "tag:yaml.org,2002:merge"
+                ):
                     continue
-                if key_node.value in keys:
+                key = self.construct_object(key_node)
+                if key in keys:
                     raise yaml.constructor.ConstructorError(
                         "while constructing a mapping",
                         node.start_mark,
                         f"found duplicate key {key_node.value}",
                         key_node.start_mark,
                     )
-                keys.add(key_node.value)
+                keys.add(key)
             return super().construct_mapping(node, deep=deep)
 
     loader = OmegaConfLoader
-- 
2.43.0


From 88c0f465d9f6f77f31240340632b2e23bdb4ed5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 39/62] fix: iterating a list of union-typed elements gives the
 values

---
 omegaconf/listconfig.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 23f3180..e7f5bc2 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -25,7 +25,7 @@ from ._utils import (
     is_structured_config,
     type_str,
 )
-from .base import Box, ContainerMetadata, Node
+from .base import Box, ContainerMetadata, Node, UnionNode
 from .basecontainer import BaseContainer
 from .errors import (
     ConfigAttributeError,
@@ -543,6 +543,10 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
                     raise MissingMandatoryValue(f"Missing value at index {self.index}")
 
             self.index = self.index + 1
+            if isinstance(x, UnionNode):
+                x = x._value()
+                if not isinstance(x, Node):
+                    return x
             if isinstance(x, self.ValueNode):
                 return x._value()
             else:
-- 
2.43.0


From 8c96c53f33aa1bc3392826e65914b2e2dec3977a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 40/62] fix: a structured object given for a union field is a
 validation error

---
 omegaconf/omegaconf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index 9fb617d..3416c43 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -1038,7 +1038,9 @@ def _node_wrap(
             element_type=element_type,
             ref_type=ref_type,
         )
-    elif is_structured_config(ref_type) or is_structured_config(value):
+    elif is_structured_config(ref_type) or (
+        is_structured_config(value) and not is_union_annotation(ref_type)
+    ):
         key_type, element_type = get_dict_key_value_types(value)
         node = DictConfig(
             ref_type=ref_type,
-- 
2.43.0


From f6763f55f642b0064e3e9e855290390f02238dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 41/62] fix: comparing missing and unresolvable values never
 finds them equal to others

---
 omegaconf/basecontainer.py | 3 +++
 omegaconf/dictconfig.py    | 2 ++
 omegaconf/listconfig.py    | 4 ++++
 3 files changed, 9 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 4585d9b..3820e81 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -781,6 +781,9 @@ class BaseContainer(Container, ABC):
             assert isinstance(ret, bool)
             return ret
         else:
+            if dv1 is None or dv2 is None:
+                # an interpolation that cannot be resolved has no value
+                return False
             dv1 = _get_value(dv1)
             dv2 = _get_value(dv2)
             ret = dv1 == dv2
diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index b5fcd2d..3ef1750 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -712,6 +712,8 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
 
         assert isinstance(d1, DictConfig)
         assert isinstance(d2, DictConfig)
+        if d1._is_interpolation() or d2._is_interpolation():
+            return bool(d1._value() == d2._value())
         if len(d1) != len(d2):
             return False
         if d1._is_missing() or d2._is_missing():
diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index e7f5bc2..5ba5a65 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -669,8 +669,12 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
 
         assert isinstance(l1, ListConfig)
         assert isinstance(l2, ListConfig)
+        if l1._is_interpolation() or l2._is_interpolation():
+            return bool(l1._value() == l2._value())
         if len(l1) != len(l2):
             return False
+        if l1._is_missing() or l2._is_missing():
+            return l1._is_missing() is l2._is_missing()
         for i in range(len(l1)):
             if not BaseContainer._item_eq(l1, i, l2, i):
                 return False
-- 
2.43.0


From 00edddc677843ae429849cff2ff02aae5b79927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:50 +0000
Subject: [PATCH 42/62] fix: comparing with a container that cannot be a config
 is false instead of an error

---
 omegaconf/dictconfig.py | 6 +++++-
 omegaconf/listconfig.py | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 3ef1750..e1b3daa 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -603,7 +603,11 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         if other is None:
             return self.__dict__["_content"] is None
         if is_primitive_dict(other) or is_structured_config(other):
-            other = DictConfig(other, flags={"allow_objects": True})
+            try:
+                other = DictConfig(other, flags={"allow_objects": True})
+            except OmegaConfBaseException:
+                # not equal to what cannot be the content of a config
+                return False
             return DictConfig._dict_conf_eq(self, other)
         if isinstance(other, DictConfig):
             return DictConfig._dict_conf_eq(self, other)
diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 5ba5a65..713b99b 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -33,6 +33,7 @@ from .errors import (
     ConfigValueError,
     KeyValidationError,
     MissingMandatoryValue,
+    OmegaConfBaseException,
     ReadonlyConfigError,
     ValidationError,
 )
@@ -506,7 +507,11 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
 
     def __eq__(self, other: Any) -> bool:
         if isinstance(other, (list, tuple)) or other is None:
-            other = ListConfig(other, flags={"allow_objects": True})
+            try:
+                other = ListConfig(other, flags={"allow_objects": True})
+            except OmegaConfBaseException:
+                # not equal to what cannot be the content of a config
+                return False
             return ListConfig._list_eq(self, other)
         if other is None or isinstance(other, ListConfig):
             return ListConfig._list_eq(self, other)
-- 
2.43.0


From deb00324a31e162b5421f0c134d3aac0b5d8447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 43/62] fix: equality of unresolvable interpolations does not
 depend on declared types

---
 omegaconf/basecontainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 3820e81..5eb35ac 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -765,7 +765,7 @@ class BaseContainer(Container, ABC):
 
         if v1_inter and v2_inter:
             if dv1 is None or dv2 is None:
-                return v1 == v2
+                return bool(_get_value(v1) == _get_value(v2))
             else:
                 # both are not none, if both are containers compare as container
                 if isinstance(dv1, Container) and isinstance(dv2, Container):
-- 
2.43.0


From 2354eb563b7f28acce9c9e1e4316d99fba8f4e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 44/62] fix: converting a structured config with a key that is
 no attribute name raises a proper error

---
 omegaconf/dictconfig.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index e1b3daa..1952dd1 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -746,6 +746,14 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         init_field_items: Dict[str, Any] = {}
         non_init_field_items: Dict[str, Any] = {}
         for k in self.keys():
+            if not isinstance(k, str):
+                self._format_and_raise(
+                    key=k,
+                    value=None,
+                    cause=KeyValidationError(
+                        "$KEY ($KEY_TYPE) cannot be an attribute of an instance of '$OBJECT_TYPE'"
+                    ),
+                )
             assert isinstance(k, str)
             node = self._get_child(k)
             assert isinstance(node, Node)
-- 
2.43.0


From ade384dec2709bbf05aed8b258f05c6ee45ab43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:28 +0000
Subject: [PATCH 45/62] fix: keys with newlines in bracket notation are not
 dropped from paths

---
 omegaconf/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index fe0d63e..3637d7a 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -70,7 +70,7 @@ KEY_PATH_HEAD = re.compile(r"(\.)*[^.[]*")
 # be read as a choice between two syntaxes:
 #   - `.` followed by anything except `.` or `[` (ex: .b, .d)
 #   - `[` followed by anything then `]` (ex: [b], [c])
-KEY_PATH_OTHER = re.compile(r"\.([^.[]*)|\[(.*?)\]")
+KEY_PATH_OTHER = re.compile(r"\.([^.[]*)|\[(.*?)\]", re.DOTALL)
 
 
 # source: https://yaml.org/type/bool.html
-- 
2.43.0


From 98e9bbb6e59e0ef716e803d6de8e104cb0ea11cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:06 +0000
Subject: [PATCH 46/62] fix: OmegaConf.update creates parents in place of None
 and missing containers

---
 omegaconf/omegaconf.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index 3416c43..ebd976c 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -721,12 +721,21 @@ class OmegaConf:
             k = split[i]
             # if next_root is a primitive (string, int etc) replace it with an empty map
             next_root, key_ = _select_one(root, k, throw_on_missing=False)
-            if not isinstance(next_root, Container):
+            if (
+                not isinstance(next_root, Container)
+                or next_root._is_none()
+                or next_root._is_missing()
+            ):
+                empty: Any = {}
+                if isinstance(next_root, Container) and is_structured_config(
+                    next_root._metadata.ref_type
+                ):
+                    empty = next_root._metadata.ref_type
                 if force_add:
                     with flag_override(root, "struct", False):
-                        root[key_] = {}
+                        root[key_] = empty
                 else:
-                    root[key_] = {}
+                    root[key_] = empty
             root = root[key_]
 
         last = split[-1]
-- 
2.43.0


From 896043b36fc37c0c91634777783732291716b820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:46 +0000
Subject: [PATCH 47/62] fix: merging into a dict that is None fills it

---
 omegaconf/basecontainer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 5eb35ac..38b4af7 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -358,7 +358,9 @@ class BaseContainer(Container, ABC):
                 ref_type=src_ref_type, object_type=src_type
             )
 
-        if (dest._is_interpolation() or dest._is_missing()) and not src._is_missing():
+        if (
+            dest._is_none() or dest._is_interpolation() or dest._is_missing()
+        ) and not src._is_missing():
             expand(dest)
 
         src_items = list(src) if not src._is_missing() else []
-- 
2.43.0


From 3aa8e389cb86c09c76782bf6f932c6ec7961fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:44 +0000
Subject: [PATCH 48/62] fix: deep copies do not touch the nodes they copy

Copying a config temporarily cleared the parents of the source nodes, so
copying, merging or printing a config shared by threads could leave nodes
without a parent or make interpolations of another thread fail.
---
 omegaconf/base.py       |  9 ++-------
 omegaconf/dictconfig.py | 11 +++--------
 omegaconf/listconfig.py | 11 +++--------
 3 files changed, 8 insertions(+), 23 deletions(-)

diff --git a/omegaconf/base.py b/omegaconf/base.py
index 8307fe3..aeb5f22 100644
--- a/omegaconf/base.py
+++ b/omegaconf/base.py
@@ -947,13 +947,8 @@ class UnionNode(Box):
 
         src_content = self.__dict__["_content"]
         if isinstance(src_content, Node):
-            old_parent = src_content.__dict__["_parent"]
-            try:
-                src_content.__dict__["_parent"] = None
-                content_copy = copy.deepcopy(src_content, memo=memo)
-                content_copy.__dict__["_parent"] = res
-            finally:
-                src_content.__dict__["_parent"] = old_parent
+            content_copy = copy.deepcopy(src_content, memo=memo)
+            content_copy.__dict__["_parent"] = res
         else:
             # None and strings can be assigned as is
             content_copy = src_content
diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 1952dd1..e99e3e9 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -120,14 +120,9 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         if isinstance(src_content, dict):
             content_copy = {}
             for k, v in src_content.items():
-                old_parent = v.__dict__["_parent"]
-                try:
-                    v.__dict__["_parent"] = None
-                    vc = copy.deepcopy(v, memo=memo)
-                    vc.__dict__["_parent"] = res
-                    content_copy[k] = vc
-                finally:
-                    v.__dict__["_parent"] = old_parent
+                vc = copy.deepcopy(v, memo=memo)
+                vc.__dict__["_parent"] = res
+                content_copy[k] = vc
         else:
             # None and strings can be assigned as is
             content_copy = src_content
diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 713b99b..ae9937a 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -134,14 +134,9 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         if isinstance(src_content, list):
             content_copy: List[Optional[Node]] = []
             for v in src_content:
-                old_parent = v.__dict__["_parent"]
-                try:
-                    v.__dict__["_parent"] = None
-                    vc = copy.deepcopy(v, memo=memo)
-                    vc.__dict__["_parent"] = res
-                    content_copy.append(vc)
-                finally:
-                    v.__dict__["_parent"] = old_parent
+                vc = copy.deepcopy(v, memo=memo)
+                vc.__dict__["_parent"] = res
+                content_copy.append(vc)
         else:
             # None and strings can be assigned as is
             content_copy = src_content
-- 
2.43.0


From 91fd308c4c987ec63008e49275ca96776596e9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:04 +0000
Subject: [PATCH 49/62] fix: a config node given as a field's value is copied
 and converted

The field took over the node itself, which lost the parent and key it had in
its own config, and which could be of another type than the field declares.
---
 omegaconf/_utils.py | 53 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index 3637d7a..6769b1d 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -1,4 +1,5 @@
 import copy
+import copy
 import os
 import pathlib
 import re
@@ -282,10 +283,48 @@ def _resolve_forward(type_: Type[Any], module: str) -> Type[Any]:
         return type_
 
 
+def _wrap_field(
+    ref_type: Any, is_optional: bool, key: Any, value: Any, parent: Any
+) -> Any:
+    """
+    Wrap the value of a field. A config node is never used itself: it may be part of
+    another config, and its own type is not the declared type of the field.
+    """
+    from omegaconf.base import Container, Node
+    from omegaconf.omegaconf import _maybe_wrap, _node_wrap
+
+    if isinstance(value, Node) and (
+        ref_type is Any
+        or not (is_valid_value_annotation(ref_type) or is_tuple_annotation(ref_type))
+    ):
+        value = copy.deepcopy(value)
+    elif isinstance(value, Node):
+        if (
+            not isinstance(value, Container)
+            or value._is_none()
+            or value._is_missing()
+            or value._is_interpolation()
+        ):
+            while isinstance(value, Node):
+                value = value._value()
+        return _node_wrap(
+            ref_type=ref_type,
+            is_optional=is_optional,
+            key=key,
+            value=value,
+            parent=parent,
+        )
+    return _maybe_wrap(
+        ref_type=ref_type,
+        is_optional=is_optional,
+        key=key,
+        value=value,
+        parent=parent,
+    )
+
+
 def extract_dict_subclass_data(obj: Any, parent: Any) -> Optional[Dict[str, Any]]:
     """Check if obj is an instance of a subclass of Dict. If so, extract the Dict keys/values."""
-    from omegaconf.omegaconf import _maybe_wrap
-
     is_type = isinstance(obj, type)
     obj_type = obj if is_type else type(obj)
     subclasses_dict = is_dict_subclass(obj_type)
@@ -308,7 +347,7 @@ def extract_dict_subclass_data(obj: Any, parent: Any) -> Optional[Dict[str, Any]
             is_optional, type_ = _resolve_optional(element_type)
             type_ = _resolve_forward(type_, obj.__module__)
             try:
-                dict_subclass_data[name] = _maybe_wrap(
+                dict_subclass_data[name] = _wrap_field(
                     ref_type=type_,
                     is_optional=is_optional,
                     key=name,
@@ -332,7 +371,7 @@ def get_attr_class_fields(obj: Any) -> List["attr.Attribute[Any]"]:
 
 
 def get_attr_data(obj: Any, allow_objects: Optional[bool] = None) -> Dict[str, Any]:
-    from omegaconf.omegaconf import OmegaConf, _maybe_wrap
+    from omegaconf.omegaconf import OmegaConf
 
     flags = {"allow_objects": allow_objects} if allow_objects is not None else {}
 
@@ -364,7 +403,7 @@ def get_attr_data(obj: Any, allow_objects: Optional[bool] = None) -> Dict[str, A
             format_and_raise(node=None, key=None, value=value, cause=e, msg=str(e))
 
         try:
-            d[name] = _maybe_wrap(
+            d[name] = _wrap_field(
                 ref_type=type_,
                 is_optional=is_optional,
                 key=name,
@@ -390,7 +429,7 @@ def get_dataclass_fields(obj: Any) -> List["dataclasses.Field[Any]"]:
 def get_dataclass_data(
     obj: Any, allow_objects: Optional[bool] = None
 ) -> Dict[str, Any]:
-    from omegaconf.omegaconf import MISSING, OmegaConf, _maybe_wrap
+    from omegaconf.omegaconf import MISSING, OmegaConf
 
     flags = {"allow_objects": allow_objects} if allow_objects is not None else {}
     d = {}
@@ -422,7 +461,7 @@ def get_dataclass_data(
             )
             format_and_raise(node=None, key=None, value=value, cause=e, msg=str(e))
         try:
-            d[name] = _maybe_wrap(
+            d[name] = _wrap_field(
                 ref_type=type_,
                 is_optional=is_optional,
                 key=name,
-- 
2.43.0


From 97ba5e155eb6ee97e899ec03a8f7f41c043a495e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:23 +0000
Subject: [PATCH 50/62] fix: to_object of a frozen class with init=False fields

The fields that __init__ does not take were assigned with setattr, which a
frozen class refuses.
---
 omegaconf/dictconfig.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index e99e3e9..091aa5b 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -786,6 +786,9 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
                 msg="Could not create instance of `$OBJECT_TYPE`: " + str(exc),
             )
 
+        # __init__ of a frozen class sets its fields this way as well
+        frozen = is_structured_config_frozen(object_type)
+        set_attribute = object.__setattr__ if frozen else setattr
         for k, v in non_init_field_items.items():
-            setattr(result, k, v)
+            set_attribute(result, k, v)
         return result
-- 
2.43.0


From b94baec0921f78c0ad515751ac2a6cae82a57cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:27 +0000
Subject: [PATCH 51/62] fix: errors refer to the nodes of the configuration,
 not to deep copies of them

---
 omegaconf/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/_utils.py b/omegaconf/_utils.py
index 6769b1d..5f7d34d 100644
--- a/omegaconf/_utils.py
+++ b/omegaconf/_utils.py
@@ -870,7 +870,7 @@ def format_and_raise(
         ex = cause
         if type_override is not None:
             ex = type_override(str(cause))
-            ex.__dict__ = copy.deepcopy(cause.__dict__)
+            ex.__dict__ = copy.copy(cause.__dict__)
         _raise(ex, cause)
 
     object_type: Optional[Type[Any]]
-- 
2.43.0


From 9f86f4d34a9293d719523cb4b442df8df692ea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:27 +0000
Subject: [PATCH 52/62] fix: errors of get, del, update and of iterating a list
 say which item they are about

---
 omegaconf/dictconfig.py | 11 +++++++----
 omegaconf/listconfig.py | 12 +++++++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 091aa5b..11ce67d 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -390,7 +390,10 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
             self._format_and_raise(key=key, value=None, cause=ConfigAttributeError(msg))
 
     def __delitem__(self, key: DictKeyType) -> None:
-        key = self._validate_and_normalize_key(key)
+        try:
+            key = self._validate_and_normalize_key(key)
+        except KeyValidationError as e:
+            self._format_and_raise(key=key, value=None, cause=e)
         if self._get_flag("readonly"):
             self._format_and_raise(
                 key=key,
@@ -427,7 +430,7 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         `default_value` (defaulting to `None`)."""
         try:
             return self._get_impl(key=key, default_value=default_value)
-        except KeyValidationError as e:
+        except (KeyValidationError, InterpolationResolutionError) as e:
             self._format_and_raise(key=key, value=None, cause=e)
 
     def _get_impl(
@@ -457,9 +460,9 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
     ) -> Optional[Node]:
         try:
             key = self._validate_and_normalize_key(key)
-        except KeyValidationError:
+        except KeyValidationError as e:
             if validate_access and validate_key:
-                raise
+                self._format_and_raise(key=key, value=None, cause=e)
             else:
                 if throw_on_missing_key:
                     raise ConfigAttributeError
diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index ae9937a..ecbe811 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -528,6 +528,7 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
 
     class ListIterator(Iterator[Any]):
         def __init__(self, lst: Any, resolve: bool) -> None:
+            self.lst = lst
             self.resolve = resolve
             self.iterator = iter(lst.__dict__["_content"])
             self.index = 0
@@ -538,9 +539,14 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         def __next__(self) -> Any:
             x = next(self.iterator)
             if self.resolve:
-                x = x._dereference_node()
-                if x._is_missing():
-                    raise MissingMandatoryValue(f"Missing value at index {self.index}")
+                try:
+                    x = x._dereference_node()
+                    if x._is_missing():
+                        raise MissingMandatoryValue(
+                            f"Missing value at index {self.index}"
+                        )
+                except Exception as e:
+                    self.lst._format_and_raise(key=self.index, value=None, cause=e)
 
             self.index = self.index + 1
             if isinstance(x, UnionNode):
-- 
2.43.0


From 632746069a29019fd4947cc8d09fc314a1e1591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:57 +0000
Subject: [PATCH 53/62] fix: merging a class into a typed node that is None
 checks the class

---
 omegaconf/dictconfig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 11ce67d..6fe23b8 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -212,7 +212,7 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
         src_obj_type = OmegaConf.get_type(src)
 
         if (
-            dest._is_missing() or dest._is_interpolation()
+            dest._is_none() or dest._is_missing() or dest._is_interpolation()
         ) and src._metadata.object_type not in (dict, None):
             self._validate_set(key=None, value=_get_value(src))
 
-- 
2.43.0


From d072690b19fa29eca4e397403decc4d2ee8e220d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:52 +0000
Subject: [PATCH 54/62] fix: sorting a list compares the values of its items,
 membership skips missing ones

---
 omegaconf/listconfig.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index ecbe811..6c790ef 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -464,20 +464,27 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             if self._is_missing():
                 raise MissingMandatoryValue("Cannot sort a missing ListConfig")
 
-            if key is None:
-
-                def key1(x: Any) -> Any:
-                    return x._value()
-
+            # sort by what iterating the list gives, not by how the nodes hold it
+            values = list(self)
+            if key is not None:
+                values = [key(x) for x in values]
             else:
+                # lists are ordered by what they contain
+                values = [
+                    (
+                        self._to_content(x, resolve=True, throw_on_missing=True)
+                        if isinstance(x, ListConfig)
+                        else x
+                    )
+                    for x in values
+                ]
 
-                def key1(x: Any) -> Any:
-                    return key(x._value())
-
-            assert isinstance(self.__dict__["_content"], list)
-            self.__dict__["_content"] = sorted(
-                self.__dict__["_content"], key=key1, reverse=reverse
+            content = self.__dict__["_content"]
+            assert isinstance(content, list)
+            order = sorted(
+                range(len(content)), key=lambda i: values[i], reverse=reverse
             )
+            self.__dict__["_content"] = [content[i] for i in order]
             self._update_keys()
 
         except Exception as e:
@@ -607,7 +614,7 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
         lst = self.__dict__["_content"]
         for x in lst:
             x = x._dereference_node()
-            if x == item:
+            if not x._is_missing() and x == item:
                 return True
         return False
 
-- 
2.43.0


From 54174b87eb521daa6cf65f68fe0349b9e2ee79df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:28 +0000
Subject: [PATCH 55/62] fix: extending a list and assigning a slice take any
 iterable

---
 omegaconf/listconfig.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 6c790ef..6c9715f 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -216,7 +216,8 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
     def __setitem__(self, index: Union[int, slice], value: Any) -> None:
         try:
             if isinstance(index, slice):
-                _ = iter(value)  # check iterable
+                if not isinstance(value, (tuple, list, ListConfig)):
+                    value = list(value)
                 self_indices = index.indices(len(self))
                 indexes = range(*self_indices)
 
@@ -315,8 +316,7 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
             assert False
 
     def extend(self, lst: Iterable[Any]) -> None:
-        assert isinstance(lst, (tuple, list, ListConfig))
-        if lst is self:
+        if lst is self or not isinstance(lst, (tuple, list, ListConfig)):
             lst = list(lst)
         for x in lst:
             self.append(x)
-- 
2.43.0


From c9874a6fb2b755bb9a391b066558155716b5df9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:15 +0000
Subject: [PATCH 56/62] fix: oc.dict.values reads the values of dicts with enum
 keys

---
 omegaconf/resolvers/oc/dict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omegaconf/resolvers/oc/dict.py b/omegaconf/resolvers/oc/dict.py
index adbfd16..4205fd4 100644
--- a/omegaconf/resolvers/oc/dict.py
+++ b/omegaconf/resolvers/oc/dict.py
@@ -1,3 +1,4 @@
+from enum import Enum
 from typing import Any, List
 
 from omegaconf import AnyNode, Container, DictConfig, ListConfig
@@ -38,7 +39,8 @@ def values(key: str, _root_: BaseContainer, _parent_: Container) -> ListConfig:
     if key.startswith("."):
         key = f".{key}"  # extra dot to compensate for extra level of nesting within ret ListConfig
     for k in content:
-        ref_node = AnyNode(f"${{{key}.{k!s}}}")
+        key_name = k.name if isinstance(k, Enum) else k
+        ref_node = AnyNode(f"${{{key}.{key_name!s}}}")
         ret.append(ref_node)
 
     # Finalize result by setting proper type and parent.
-- 
2.43.0


From ba4b9feb12c014cc93dbdcdc63fcc062f068019d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:12 +0000
Subject: [PATCH 57/62] fix: oc.dict.values of the parent, the root or the dict
 itself

---
 omegaconf/resolvers/oc/dict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omegaconf/resolvers/oc/dict.py b/omegaconf/resolvers/oc/dict.py
index 4205fd4..7751556 100644
--- a/omegaconf/resolvers/oc/dict.py
+++ b/omegaconf/resolvers/oc/dict.py
@@ -38,9 +38,11 @@ def values(key: str, _root_: BaseContainer, _parent_: Container) -> ListConfig:
     ret = ListConfig([])
     if key.startswith("."):
         key = f".{key}"  # extra dot to compensate for extra level of nesting within ret ListConfig
+    # a key such as "" or "." already is the beginning of a key
+    prefix = key if key == "" or key.endswith(".") else f"{key}."
     for k in content:
         key_name = k.name if isinstance(k, Enum) else k
-        ref_node = AnyNode(f"${{{key}.{key_name!s}}}")
+        ref_node = AnyNode(f"${{{prefix}{key_name!s}}}")
         ret.append(ref_node)
 
     # Finalize result by setting proper type and parent.
-- 
2.43.0


From 3ab070033f088e67588ed1415338d1ab72c2a961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:45 +0000
Subject: [PATCH 58/62] fix: dir() of a config whose keys are not strings, or
 of a config that is an interpolation

---
 omegaconf/dictconfig.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 6fe23b8..96dc76a 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -314,9 +314,10 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
 
     # hide content while inspecting in debugger
     def __dir__(self) -> Iterable[str]:
-        if self._is_missing() or self._is_none():
+        if self._is_missing() or self._is_none() or self._is_interpolation():
             return []
-        return self.__dict__["_content"].keys()  # type: ignore
+        keys = self.__dict__["_content"].keys()
+        return [k.name if isinstance(k, Enum) else str(k) for k in keys]
 
     def __setattr__(self, key: str, value: Any) -> None:
         """
-- 
2.43.0


From 433c6d068b4c011dd922cb0317298ba85cecb61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:02 +0000
Subject: [PATCH 59/62] fix: masked_copy of a config that holds objects

---
 omegaconf/omegaconf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index ebd976c..1c7795d 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -550,7 +550,8 @@ class OmegaConf:
         if isinstance(keys, str):
             keys = [keys]
         content = {key: value for key, value in conf.items_ex(resolve=False, keys=keys)}
-        return DictConfig(content=content)
+        flags = {"allow_objects": True} if conf._get_flag("allow_objects") else None
+        return DictConfig(content=content, flags=flags)
 
     @staticmethod
     def to_container(
-- 
2.43.0


From 1a7b9a219a0fbab7942955c2208a480b17b50f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:19 +0000
Subject: [PATCH 60/62] fix: copying a config while other threads read it

---
 omegaconf/base.py       | 17 +++++++++++++++++
 omegaconf/dictconfig.py |  4 +---
 omegaconf/listconfig.py |  4 +---
 omegaconf/omegaconf.py  | 12 ++++++++++--
 4 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/omegaconf/base.py b/omegaconf/base.py
index aeb5f22..5366183 100644
--- a/omegaconf/base.py
+++ b/omegaconf/base.py
@@ -40,6 +40,14 @@ from .typing import Antlr4ParserRuleContext
 DictKeyType = Union[str, bytes, int, Enum, float, bool]
 
 
+def _copy_resolver_cache(cache: Dict[str, Any]) -> Dict[str, Any]:
+    """Copy a cache that other threads may be adding results to."""
+    res = copy.copy(cache)
+    for name, results in res.items():
+        res[name] = copy.copy(results)
+    return res
+
+
 @dataclass
 class Metadata:
     ref_type: Union[Type[Any], Any]
@@ -66,6 +74,15 @@ class Metadata:
         if self.flags is None:
             self.flags = {}
 
+    def __deepcopy__(self, memo: Dict[int, Any]) -> "Metadata":
+        res = copy.copy(self)
+        memo[id(self)] = res
+        for name, value in self.__dict__.items():
+            if name == "resolver_cache":
+                value = _copy_resolver_cache(value)
+            res.__dict__[name] = copy.deepcopy(value, memo)
+        return res
+
     @property
     def type_hint(self) -> Union[Type[Any], Any]:
         """Compute `type_hint` from `self.optional` and `self.ref_type`"""
diff --git a/omegaconf/dictconfig.py b/omegaconf/dictconfig.py
index 96dc76a..9a15c58 100644
--- a/omegaconf/dictconfig.py
+++ b/omegaconf/dictconfig.py
@@ -112,9 +112,7 @@ class DictConfig(BaseContainer, MutableMapping[Any, Any]):
     def __deepcopy__(self, memo: Dict[int, Any]) -> "DictConfig":
         res = DictConfig(None)
         res.__dict__["_metadata"] = copy.deepcopy(self.__dict__["_metadata"], memo=memo)
-        res.__dict__["_flags_cache"] = copy.deepcopy(
-            self.__dict__["_flags_cache"], memo=memo
-        )
+        res.__dict__["_flags_cache"] = copy.copy(self.__dict__["_flags_cache"])
 
         src_content = self.__dict__["_content"]
         if isinstance(src_content, dict):
diff --git a/omegaconf/listconfig.py b/omegaconf/listconfig.py
index 6c9715f..2a810e1 100644
--- a/omegaconf/listconfig.py
+++ b/omegaconf/listconfig.py
@@ -126,9 +126,7 @@ class ListConfig(BaseContainer, MutableSequence[Any]):
     def __deepcopy__(self, memo: Dict[int, Any]) -> "ListConfig":
         res = ListConfig(None)
         res.__dict__["_metadata"] = copy.deepcopy(self.__dict__["_metadata"], memo=memo)
-        res.__dict__["_flags_cache"] = copy.deepcopy(
-            self.__dict__["_flags_cache"], memo=memo
-        )
+        res.__dict__["_flags_cache"] = copy.copy(self.__dict__["_flags_cache"])
 
         src_content = self.__dict__["_content"]
         if isinstance(src_content, list):
diff --git a/omegaconf/omegaconf.py b/omegaconf/omegaconf.py
index 1c7795d..c8b91b4 100644
--- a/omegaconf/omegaconf.py
+++ b/omegaconf/omegaconf.py
@@ -53,7 +53,15 @@ from ._utils import (
     split_key,
     type_str,
 )
-from .base import Box, Container, ListMergeMode, Node, SCMode, UnionNode
+from .base import (
+    Box,
+    Container,
+    ListMergeMode,
+    Node,
+    SCMode,
+    UnionNode,
+    _copy_resolver_cache,
+)
 from .basecontainer import BaseContainer
 from .errors import (
     MissingMandatoryValue,
@@ -503,7 +511,7 @@ class OmegaConf:
 
     @staticmethod
     def set_cache(conf: BaseContainer, cache: Dict[str, Any]) -> None:
-        conf._metadata.resolver_cache = copy.deepcopy(cache)
+        conf._metadata.resolver_cache = copy.deepcopy(_copy_resolver_cache(cache))
 
     @staticmethod
     def clear_cache(conf: BaseContainer) -> None:
-- 
2.43.0


From 80632c1c2ac07d28292324a4c96eafbf678707f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:41 +0000
Subject: [PATCH 61/62] fix: pickling a config while other threads read it

---
 omegaconf/basecontainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omegaconf/basecontainer.py b/omegaconf/basecontainer.py
index 38b4af7..0a00314 100644
--- a/omegaconf/basecontainer.py
+++ b/omegaconf/basecontainer.py
@@ -39,6 +39,7 @@ from .base import (
     Node,
     SCMode,
     UnionNode,
+    _copy_resolver_cache,
 )
 from .errors import (
     ConfigCycleDetectedException,
@@ -129,6 +130,9 @@ class BaseContainer(Container, ABC):
         dict_copy.pop("_flags_cache", None)
 
         dict_copy["_metadata"] = copy.copy(dict_copy["_metadata"])
+        dict_copy["_metadata"].resolver_cache = _copy_resolver_cache(
+            self._metadata.resolver_cache
+        )
         ref_type = self._metadata.ref_type
         if is_container_annotation(ref_type):
             if is_dict_annotation(ref_type):
-- 
2.43.0


From 11171d59f5df965256a366feb27be0c70479d6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:06 +0000
Subject: [PATCH 62/62] fix: do not share the flags given to a new node with
 the caller

---
 omegaconf/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omegaconf/base.py b/omegaconf/base.py
index 5366183..b4e6c8a 100644
--- a/omegaconf/base.py
+++ b/omegaconf/base.py
@@ -71,8 +71,8 @@ class Metadata:
     resolver_cache: Dict[str, Any] = field(default_factory=lambda: defaultdict(dict))
 
     def __post_init__(self) -> None:
-        if self.flags is None:
-            self.flags = {}
+        # a copy: flags passed by a caller are not shared with the new node
+        self.flags = {} if self.flags is None else copy.copy(self.flags)
 
     def __deepcopy__(self, memo: Dict[int, Any]) -> "Metadata":
         res = copy.copy(self)
@@ -110,8 +110,8 @@ class ContainerMetadata(Metadata):
                     f"Unsupported value type: '{type_str(self.element_type, include_module_name=True)}'"
                 )
 
-        if self.flags is None:
-            self.flags = {}
+        # a copy: flags passed by a caller are not shared with the new node
+        self.flags = {} if self.flags is None else copy.copy(self.flags)
 
 
 class Node(ABC):
-- 
2.43.0

