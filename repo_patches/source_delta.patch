From 228d6fa7ddcc1fa901e324bb2d9cc3a33a11a3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:41 +0000
Subject: [PATCH 01/56] fix: register schedules nested more than one level deep

The walk to the parent of a scheduled field restarted at the root for every
path segment, so loading a config with a schedule two or more levels deep
raised KeyError or attached the schedule to the wrong object.
---
 hyperstate/hyperstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 1bf6602..eb9a7c2 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -438,7 +438,7 @@ class ScheduleDeserializer(Deserializer):
             for segment in path.split(".")[:-1]:
                 if segment not in schedules:
                     schedules[segment] = {}
-                schedules = self.schedules[segment]
+                schedules = schedules[segment]
             schedules[field_name] = Schedule(update, value)
             value = schedule.get_value(0.0)
             return cls(value), True, False  # type: ignore
-- 
2.43.0


From 9a9555ca548ac45181d7bec1c1048442a901b957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:43 +0000
Subject: [PATCH 02/56] fix: do not delete the current checkpoint when stepping
 twice

A step that did not advance the checkpoint key (or the first step after a
resume) moved the only checkpoint to a temporary directory and deleted it.
---
 hyperstate/hyperstate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index eb9a7c2..921ae9b 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -136,7 +136,10 @@ class StateManager(Generic[C, S]):
             )
             if not checkpoint_dir.exists():
                 self.checkpoint(str(checkpoint_dir))
-            if self._last_checkpoint is not None:
+            if (
+                self._last_checkpoint is not None
+                and self._last_checkpoint != checkpoint_dir
+            ):
                 with tempfile.TemporaryDirectory() as tmpdir:
                     shutil.move(str(self._last_checkpoint), tmpdir)
             self._last_checkpoint = checkpoint_dir
-- 
2.43.0


From 5f096dbfdac09ce3ccf5a679726f5faa920af8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:45 +0000
Subject: [PATCH 03/56] fix: reject invalid values in boolean overrides

An unrecognized value left `val` unbound, or bound to the value of the
previous override, which was then silently applied to the boolean field.
---
 hyperstate/hyperstate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 921ae9b..9ffb20e 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -401,6 +401,10 @@ class OverridesDeserializer(Deserializer):
                     or str_val == "F"
                 ):
                     val = False
+                else:
+                    raise ValueError(
+                        f"Invalid override: {override}. Expected a boolean, but got '{str_val}'"
+                    )
             else:
                 val = pyron.loads(str_val, preserve_structs=True, print_errors=False)
             _value = value
-- 
2.43.0


From ad93fa01e87b5d3a4679000993aba048ef1c8dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:47 +0000
Subject: [PATCH 04/56] fix: serialize enums by value

Enums are deserialized by value and schema evolution identifies variants by
their value, but they were written by name, so that configs with an enum
whose name differs from its value could be dumped but not loaded.
---
 hyperstate/serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 06fcacf..d81871b 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -122,7 +122,7 @@ def asdict(
             for i, v in enumerate(value)
         )
     elif isinstance(value, Enum):
-        return value.name
+        return value.value
     elif (
         isinstance(value, int)
         or isinstance(value, float)
-- 
2.43.0


From 27e2e7406c2858d9edd135e79c52b1166a83634f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:14 +0000
Subject: [PATCH 05/56] fix: honor ignore_extra_fields at every nesting level

The flag was only applied to the outermost dataclass; an unknown field in a
nested one was still an error.
---
 hyperstate/serde.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index d81871b..23afb0c 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -220,14 +220,14 @@ def from_dict(
         and clz == List[clz.__args__]  # type: ignore
         and isinstance(value, list)
     ):
-        return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]") for i, v in enumerate(value)]  # type: ignore
+        return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]", ignore_extra_fields) for i, v in enumerate(value)]  # type: ignore
     elif (
         hasattr(clz, "__args__")
         and clz == Tuple[clz.__args__]  # type: ignore
         and isinstance(value, tuple)
     ):
         return tuple(
-            from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]")  # type: ignore
+            from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]", ignore_extra_fields)  # type: ignore
             for i, v in enumerate(value)
         )
     elif (
@@ -237,7 +237,7 @@ def from_dict(
         and isinstance(value, dict)
     ):
         return {
-            k: from_dict(clz.__args__[1], v, deserializers, fpath=f"{fpath}.{k}")  # type: ignore
+            k: from_dict(clz.__args__[1], v, deserializers, fpath=f"{fpath}.{k}", ignore_extra_fields=ignore_extra_fields)  # type: ignore
             for k, v in value.items()
         }
     elif is_dataclass(clz):
@@ -274,6 +274,7 @@ def from_dict(
                 value=v,
                 deserializers=deserializers,
                 fpath=f"{fpath}.{field_name}" if fpath else field_name,
+                ignore_extra_fields=ignore_extra_fields,
             )
         _try_create_defaults(clz, kwargs, remaining_fields, fpath, weak_refs)
         try:
-- 
2.43.0


From f57c639f7232b30199baa6f452dad860550b13ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:16 +0000
Subject: [PATCH 06/56] fix: RejectValues drops accepted values and cannot be
 applied to a schema

apply() removed the field even when its value was allowed, so the loaded
config silently used the default. apply_to_schema() tested the enclosing
struct instead of the field's type and always failed its assertion.
---
 hyperstate/schema/rewrite_rule.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 43f3d65..6952651 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -159,7 +159,7 @@ class RejectValues(RewriteRule):
     disallowed_values: Set[Any]
 
     def apply(self, state_dict: Any) -> Any:
-        value, present = _remove(state_dict, self.field)
+        value, present = _get(state_dict, self.field)
         if present and value in self.disallowed_values:
             raise ValueError(
                 f"Value {value.__repr__()} is deprecated for field {self.field}."
@@ -169,7 +169,8 @@ class RejectValues(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        assert isinstance(schema, types.Literal)
+        literal = field.type
+        assert isinstance(literal, types.Literal)
         _insert_schema(
             schema,
             self.field,
@@ -178,7 +179,7 @@ class RejectValues(RewriteRule):
                 type=types.Literal(
                     [
                         v
-                        for v in schema.allowed_values
+                        for v in literal.allowed_values
                         if v not in self.disallowed_values
                     ]
                 ),
-- 
2.43.0


From a197b9d3a7c35909ad40f529a8fed4556178d161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:18 +0000
Subject: [PATCH 07/56] fix: keep values assigned to unloaded lazy fields

Assigning to a lazy field before its first access was silently undone: the
next access loaded the stored value over the assigned one.
---
 hyperstate/lazy.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index f1843f7..6ccad09 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -67,9 +67,13 @@ class Lazy:
                 self._deserialize_ctx if hasattr(self, "_deserialize_ctx") else {},
             )
             self.__setattr__(name, value)
-            del unloaded[name]
         return super(Lazy, self).__getattribute__(name)
 
+    def __setattr__(self, name: str, value: Any) -> None:
+        super(Lazy, self).__setattr__(name, value)
+        # An assigned value must not be replaced by the stored one on next access.
+        self.__dict__.get("_unloaded_lazy_fields", {}).pop(name, None)
+
     def set_deserialize_ctx(self, key: str, value: Any) -> None:
         """
         Add a value to the deserialization context.
-- 
2.43.0


From d33e0cb99b851cb41b1f60952d0db49aa6e2e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:20 +0000
Subject: [PATCH 08/56] fix: return writable numpy arrays from checkpoints

Restored arrays were views of immutable bytes, so resumed training failed on
the first in-place update.
---
 hyperstate/msgpack_torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/msgpack_torch.py b/hyperstate/msgpack_torch.py
index 1a9a8d8..2d5ddae 100644
--- a/hyperstate/msgpack_torch.py
+++ b/hyperstate/msgpack_torch.py
@@ -35,7 +35,7 @@ def decode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
             if obj[b"__tensor__"] == "torch" and torch is not None:
                 return torch.from_numpy(np.copy(tensor))
             else:
-                return tensor
+                return np.copy(tensor)
         else:
             return obj if chain is None else chain(obj)
     except KeyError:
-- 
2.43.0


From 83258ddd0f4cda0bdcfcb944d927bf45db1b8bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:22 +0000
Subject: [PATCH 09/56] fix: step schedules reach their final value

The last segment of a step schedule kept its initial value forever, so the
value at the last knot was never used.
---
 hyperstate/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schedule.py b/hyperstate/schedule.py
index 950935b..7594186 100644
--- a/hyperstate/schedule.py
+++ b/hyperstate/schedule.py
@@ -15,7 +15,7 @@ T = TypeVar("T")
 INTERPOLATORS = {
     "lin": lambda x: 1 - x,
     "cos": lambda x: math.cos(x * math.pi) * 0.5 + 0.5,
-    "step": lambda _: 1,
+    "step": lambda x: 1 if x < 1 else 0,
 }
 
 
-- 
2.43.0


From 19fc7b8f909e77e23c0e812ba39c18ba2ccc2fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:48 +0000
Subject: [PATCH 10/56] fix: honor weak default values inside absent nested
 dataclasses

---
 hyperstate/serde.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 23afb0c..1d0e7fd 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -276,7 +276,15 @@ def from_dict(
                 fpath=f"{fpath}.{field_name}" if fpath else field_name,
                 ignore_extra_fields=ignore_extra_fields,
             )
-        _try_create_defaults(clz, kwargs, remaining_fields, fpath, weak_refs)
+        _try_create_defaults(
+            clz,
+            kwargs,
+            remaining_fields,
+            fpath,
+            weak_refs,
+            deserializers,
+            ignore_extra_fields,
+        )
         try:
             instance = clz(**kwargs)  # type: ignore
             return instance
@@ -310,6 +318,8 @@ def _try_create_defaults(
     fpath: str,
     # weak_refs is values which should only be used if a dataclass is
     weak_refs: Dict[str, Any],
+    deserializers: List[Deserializer],
+    ignore_extra_fields: bool,
 ) -> Any:
     """
     Recursively initializes value for dataclass fields without default value with default constructor.
@@ -319,27 +329,31 @@ def _try_create_defaults(
     still_missing = []
     for _field_name in remaining_fields:
         field = cls.__dataclass_fields__.get(_field_name)
-        if field.default is MISSING and field.default_factory is MISSING:
+        _fpath = f"{fpath}.{_field_name}" if fpath else _field_name
+        weak_ref = weak_refs.get(_field_name, {WEAK_REF: True})
+        if not (isinstance(weak_ref, dict) and WEAK_REF in weak_ref):
+            kwargs[field.name] = from_dict(
+                clz=field.type,
+                value=weak_ref,
+                deserializers=deserializers,
+                fpath=_fpath,
+                ignore_extra_fields=ignore_extra_fields,
+            )
+        elif field.default is MISSING and field.default_factory is MISSING:
             if is_dataclass(field.type):
-                _missing_defaults = [
-                    f.name
-                    for f in field.type.__dataclass_fields__.values()
-                    if f.default is MISSING and f.default_factory is MISSING
-                ]
                 _kwargs: Dict[str, Any] = {}
-                _weak_refs = weak_refs.get(_field_name, {})
                 _try_create_defaults(
                     field.type,
                     _kwargs,
-                    _missing_defaults,
-                    f"{fpath}.{_field_name}" if fpath else _field_name,
-                    weak_refs=_weak_refs,
+                    field.type.__dataclass_fields__,
+                    _fpath,
+                    weak_refs=weak_ref,
+                    deserializers=deserializers,
+                    ignore_extra_fields=ignore_extra_fields,
                 )
                 kwargs[field.name] = field.type(**_kwargs)
             else:
                 still_missing.append(_field_name)
-        elif _field_name in weak_refs and WEAK_REF not in weak_refs[_field_name]:
-            kwargs[field.name] = weak_refs[_field_name]
 
     if len(still_missing) > 0:
         prefix = f"{fpath}." if fpath else ""
-- 
2.43.0


From a32d692cfd4c331afa40d195a9abe93f8e0a8401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:50 +0000
Subject: [PATCH 11/56] fix: rewriting a default inside an absent struct does
 not create the struct

---
 hyperstate/schema/rewrite_rule.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 6952651..f0ccce2 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -25,9 +25,10 @@ class RenameField(RewriteRule):
 
     def apply(self, state_dict: Any) -> Any:
         # TODO: handle lists
+        weak = _is_weak(state_dict, self.old_field)
         value, ok = _remove(state_dict, self.old_field)
         if ok:
-            _insert(state_dict, self.new_field, value)
+            _insert(state_dict, self.new_field, value, create_new=not weak)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -59,7 +60,7 @@ class MapFieldValue(RewriteRule):
         value, present = _remove(state_dict, path)
         if present:
             new_value = self.map_fn(value)
-            _insert(state_dict, path, new_value)
+            _insert(state_dict, path, new_value, create_new=False)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -94,7 +95,7 @@ class ChangeDefault(RewriteRule):
         if not ok or (isinstance(existing_value, dict) and WEAK_REF in existing_value):
             _insert(state_dict, self.field, self.old_default, create_new=False)
         else:
-            _insert(state_dict, self.field, existing_value)
+            _insert(state_dict, self.field, existing_value, create_new=False)
         return state_dict
 
     def apply_to_schema(self, schema: types.Type) -> None:
@@ -213,6 +214,19 @@ def _get(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
     return state_dict[path[-1]], True
 
 
+def _is_weak(state_dict: Any, path: Sequence[str]) -> bool:
+    """
+    Returns true if the value at `path` is a default inserted into an absent struct.
+    """
+    for field in path:
+        if not isinstance(state_dict, dict) or field not in state_dict:
+            return False
+        state_dict = state_dict[field]
+        if isinstance(state_dict, dict) and WEAK_REF in state_dict:
+            return True
+    return False
+
+
 def _insert(
     state_dict: Any,
     path: Sequence[str],
-- 
2.43.0


From e8019418b5fa5cf258f7373db3d48a21ebb3b66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:08 +0000
Subject: [PATCH 12/56] fix: upgraded configs do not share mutable defaults

---
 hyperstate/schema/rewrite_rule.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index f0ccce2..ebe8fdf 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from copy import deepcopy
 from dataclasses import dataclass, replace
 from typing import List, Optional, Sequence, Set, Tuple, Dict, Any, Callable
 from venv import create
@@ -93,7 +94,9 @@ class ChangeDefault(RewriteRule):
     def apply(self, state_dict: Any) -> Any:
         existing_value, ok = _remove(state_dict, self.field)
         if not ok or (isinstance(existing_value, dict) and WEAK_REF in existing_value):
-            _insert(state_dict, self.field, self.old_default, create_new=False)
+            _insert(
+                state_dict, self.field, deepcopy(self.old_default), create_new=False
+            )
         else:
             _insert(state_dict, self.field, existing_value, create_new=False)
         return state_dict
@@ -113,7 +116,10 @@ class AddDefault(RewriteRule):
     def apply(self, state_dict: Any) -> Any:
         value, present = _remove(state_dict, self.field)
         _insert(
-            state_dict, self.field, value if present else self.default, create_new=False
+            state_dict,
+            self.field,
+            value if present else deepcopy(self.default),
+            create_new=False,
         )
         return state_dict
 
-- 
2.43.0


From 0c2b37a62bca7292f8539327562620ea494b5694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:10 +0000
Subject: [PATCH 13/56] fix: CheckValue and RejectValues accept configs whose
 parent is None

---
 hyperstate/schema/rewrite_rule.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index ebe8fdf..35d0cf5 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -215,7 +215,9 @@ def _get(state_dict: Dict[str, Any], path: Sequence[str]) -> Tuple[Any, bool]:
         if field not in state_dict:
             return None, False
         state_dict = state_dict[field]
-    if path[-1] not in state_dict:
+        if state_dict is None:
+            return None, False
+    if not isinstance(state_dict, dict) or path[-1] not in state_dict:
         return None, False
     return state_dict[path[-1]], True
 
-- 
2.43.0


From ee0f73b4d01f6bbe7483151ff03d0127019e6cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:12 +0000
Subject: [PATCH 14/56] fix: unsupported types raise an error instead of
 starting a debugger

---
 hyperstate/schema/types.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 4b97aaa..af77d57 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -290,7 +290,6 @@ def materialize_type(clz: typing.Type[Any]) -> Type:
     elif typing.get_origin(clz) == typing.Literal:
         return Literal(list(typing.get_args(clz)))
     else:
-        breakpoint()
         raise ValueError(f"Unsupported type: {clz}")
 
 
-- 
2.43.0


From 9d9773b1a84693a697d899c99353f4dcb40c67c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:14 +0000
Subject: [PATCH 15/56] fix: upgrade-config closes the file it writes

---
 hyperstate/schema/schema_checker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 433de3e..117f66c 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -418,7 +418,8 @@ def _upgrade_config(
             else:
                 click.echo(line)
     else:
-        open(filename, "w").write(upgraded_config)
+        with open(filename, "w") as f:
+            f.write(upgraded_config)
 
 
 CONFIG_CLZ: typing.Type[Any] = None  # type: ignore
-- 
2.43.0


From a9858ee1334a240c24d44ab3e45ddb1d7077d578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:31 +0000
Subject: [PATCH 16/56] fix: AddDefault resolves the removal of a default value

---
 hyperstate/schema/rewrite_rule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 35d0cf5..d86193c 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -133,7 +133,8 @@ class AddDefault(RewriteRule):
                 has_default=False,
             )
         else:
-            field = replace(field, default=self.default, has_default=True)
+            # The rule fills in the value whenever it is absent
+            field = replace(field, default=None, has_default=False)
         _insert_schema(schema, self.field, field)
 
 
-- 
2.43.0


From 47fd590bdd4d25b06aea1dab3184f4763730b834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:33 +0000
Subject: [PATCH 17/56] fix: report removal of structs without fields

---
 hyperstate/schema/schema_checker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 117f66c..02d88c8 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -318,6 +318,8 @@ class SchemaChecker:
                 )
 
     def _all_gone(self, struct: t.Struct, path: typing.List[str]) -> None:
+        if len(struct.fields) == 0:
+            self.changes.append(FieldRemoved(tuple(path), struct))
         for name, field in struct.fields.items():
             if isinstance(field.type, t.Struct):
                 self._all_gone(field.type, path + [name])
-- 
2.43.0


From 25eba9d50a9bccfd8f03a33613cf67c6a4663101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:40 +0000
Subject: [PATCH 18/56] fix: subtyping of options and structs is covariant

---
 hyperstate/schema/types.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index af77d57..f918384 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -205,11 +205,17 @@ class Struct:
             isinstance(other, Struct)
             and all(
                 k in other.fields
-                and other.fields[k].type.is_subtype(self.fields[k].type)
-                for k in self.fields
+                and f.type.is_subtype(other.fields[k].type)
+                and (
+                    not f.has_default
+                    or (other.fields[k].has_default and other.fields[k].default == f.default)
+                )
+                for k, f in self.fields.items()
             )
-            or (isinstance(other, Option) and self.is_subtype(other.type))
-        )
+            and all(
+                f.has_default for k, f in other.fields.items() if k not in self.fields
+            )
+        ) or (isinstance(other, Option) and self.is_subtype(other.type))
 
 
 @dataclass(eq=True, frozen=True)
@@ -220,7 +226,7 @@ class Option:
         return f"Optional[{self.type}]"
 
     def is_subtype(self, other: Type) -> bool:
-        return isinstance(other, Option) and other.type.is_subtype(self.type)
+        return isinstance(other, Option) and self.type.is_subtype(other.type)
 
 
 @dataclass(eq=True, frozen=True)
-- 
2.43.0


From 6e4f85b079bd916997804855cb2c68fe481e1d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:12 +0000
Subject: [PATCH 19/56] fix: rules on optional fields can be applied to schemas

---
 hyperstate/schema/rewrite_rule.py | 50 +++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index d86193c..3a59549 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -67,17 +67,21 @@ class MapFieldValue(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        if isinstance(field.type, types.Enum):
+        inner = _unwrap_option(field.type)
+        if isinstance(inner, types.Enum):
             _insert_schema(
                 schema,
                 self.field,
                 replace(
                     field,
-                    type=replace(
+                    type=_replace_in_option(
                         field.type,
-                        variants={
-                            k: self.map_fn(v) for k, v in field.type.variants.items()
-                        },
+                        replace(
+                            inner,
+                            variants={
+                                k: self.map_fn(v) for k, v in inner.variants.items()
+                            },
+                        ),
                     ),
                 ),
             )
@@ -157,7 +161,12 @@ class CheckValue(RewriteRule):
         _insert_schema(
             schema,
             self.field,
-            replace(field, type=types.Literal(list(self.allowed_values))),
+            replace(
+                field,
+                type=_replace_in_option(
+                    field.type, types.Literal(list(self.allowed_values))
+                ),
+            ),
         )
 
 
@@ -177,19 +186,22 @@ class RejectValues(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        literal = field.type
+        literal = _unwrap_option(field.type)
         assert isinstance(literal, types.Literal)
         _insert_schema(
             schema,
             self.field,
             replace(
                 field,
-                type=types.Literal(
-                    [
-                        v
-                        for v in literal.allowed_values
-                        if v not in self.disallowed_values
-                    ]
+                type=_replace_in_option(
+                    field.type,
+                    types.Literal(
+                        [
+                            v
+                            for v in literal.allowed_values
+                            if v not in self.disallowed_values
+                        ]
+                    ),
                 ),
             ),
         )
@@ -257,6 +269,18 @@ def _insert(
     state_dict[path[-1]] = value
 
 
+def _unwrap_option(type: types.Type) -> types.Type:
+    while isinstance(type, types.Option):
+        type = type.type
+    return type
+
+
+def _replace_in_option(type: types.Type, new: types.Type) -> types.Type:
+    if isinstance(type, types.Option):
+        return types.Option(_replace_in_option(type.type, new))
+    return new
+
+
 def _remove_schema(schema: types.Type, path: Sequence[str]) -> Optional[types.Field]:
     assert len(path) > 0
     for field in path[:-1]:
-- 
2.43.0


From b7c3b04a61d9190596b1f48e0c68bedeae776461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:19 +0000
Subject: [PATCH 20/56] fix: support tuples, dicts and unions in schemas

---
 hyperstate/schema/schema_checker.py |  3 +++
 hyperstate/schema/types.py          | 10 +++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 02d88c8..0c326ae 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -223,6 +223,9 @@ class SchemaChecker:
                         removed_values,
                     )
                 )
+        elif isinstance(old, (t.Tuple, t.Dict, t.Union)):
+            if not (old.is_subtype(new) and new.is_subtype(old)):
+                self.changes.append(TypeChanged(tuple(path), old, new))
         else:
             raise ValueError(f"Field {'.'.join(path)} has unsupported type {type(old)}")
 
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index f918384..3303571 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -112,7 +112,7 @@ class Union:
             self == other
             or (
                 isinstance(other, Union)
-                and all(t.is_subtype(other) for t in self.types)
+                and all(any(t.is_subtype(o) for o in other.types) for t in self.types)
             )
             or (isinstance(other, Option) and self.is_subtype(other.type))
         )
@@ -314,6 +314,14 @@ def schema_from_namedtuple(schema: Any) -> Type:
         return Primitive(schema.type)
     elif clz_name == "List":
         return List(schema_from_namedtuple(schema.inner))
+    elif clz_name == "Tuple":
+        return Tuple([schema_from_namedtuple(inner) for inner in schema.inner])
+    elif clz_name == "Dict":
+        return Dict(
+            schema_from_namedtuple(schema.key), schema_from_namedtuple(schema.val)
+        )
+    elif clz_name == "Union":
+        return Union([schema_from_namedtuple(type) for type in schema.types])
     elif clz_name == "Struct":
         fields = {}
         for name, field in schema.fields.items():
-- 
2.43.0


From 7974d2d5bdd85b8d07a8ce3d5b29a6e53a3b94dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:21 +0000
Subject: [PATCH 21/56] fix: schemas and rules support dataclass and enum
 values in defaults

---
 hyperstate/schema/rewrite_rule.py   |  9 +++++----
 hyperstate/schema/schema_checker.py | 11 +++++++----
 hyperstate/schema/types.py          | 26 +++++++++++++++++++++++++-
 3 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 3a59549..470ab93 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -1,5 +1,4 @@
 from abc import ABC, abstractmethod
-from copy import deepcopy
 from dataclasses import dataclass, replace
 from typing import List, Optional, Sequence, Set, Tuple, Dict, Any, Callable
 from venv import create
@@ -99,7 +98,7 @@ class ChangeDefault(RewriteRule):
         existing_value, ok = _remove(state_dict, self.field)
         if not ok or (isinstance(existing_value, dict) and WEAK_REF in existing_value):
             _insert(
-                state_dict, self.field, deepcopy(self.old_default), create_new=False
+                state_dict, self.field, types.plain_value(self.old_default), create_new=False
             )
         else:
             _insert(state_dict, self.field, existing_value, create_new=False)
@@ -108,7 +107,9 @@ class ChangeDefault(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        assert field.default == self.old_default, f"Default value mismatch"
+        assert types.plain_value(field.default) == types.plain_value(
+            self.old_default
+        ), f"Default value mismatch"
         _insert_schema(schema, self.field, replace(field, default=self.new_default))
 
 
@@ -122,7 +123,7 @@ class AddDefault(RewriteRule):
         _insert(
             state_dict,
             self.field,
-            value if present else deepcopy(self.default),
+            value if present else types.plain_value(self.default),
             create_new=False,
         )
         return state_dict
diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 0c326ae..218a092 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -4,9 +4,9 @@ from dataclasses import is_dataclass
 from pathlib import Path
 import difflib
 
-import pyron
 import click
 
+import hyperstate.serde as serde
 from hyperstate.hyperstate import _typed_dump, _typed_load
 from hyperstate.schema.schema_change import (
     DefaultValueChanged,
@@ -150,7 +150,10 @@ class SchemaChecker:
                                         tuple(path + [name]), oldfield.default
                                     )
                                 )
-                        elif oldfield.has_default and oldfield.default != field.default:
+                        elif oldfield.has_default and (
+                            t.plain_value(oldfield.default)
+                            != t.plain_value(field.default)
+                        ):
                             self.changes.append(
                                 DefaultValueChanged(
                                     tuple(path + [name]),
@@ -270,7 +273,7 @@ class SchemaChecker:
             if (
                 removed.type.is_subtype(added.type)
                 and removed.has_default == added.has_default
-                and removed.default == added.default
+                and t.plain_value(removed.default) == t.plain_value(added.default)
             ):
                 return name_similarity(removed.field[-1], added.field[-1])
             return None
@@ -380,7 +383,7 @@ def levenshtein(s1: str, s2: str) -> float:
 
 
 def _dump_schema(filename: str, type: typing.Type[Versioned]) -> None:
-    serialized = pyron.to_string(materialize_type(type))
+    serialized = serde.dumps(materialize_type(type))
     with open(filename, "w") as f:
         f.write(serialized)
 
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 3303571..c7b9eb0 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -208,7 +208,11 @@ class Struct:
                 and f.type.is_subtype(other.fields[k].type)
                 and (
                     not f.has_default
-                    or (other.fields[k].has_default and other.fields[k].default == f.default)
+                    or (
+                        other.fields[k].has_default
+                        and plain_value(other.fields[k].default)
+                        == plain_value(f.default)
+                    )
                 )
                 for k, f in self.fields.items()
             )
@@ -345,6 +349,26 @@ def schema_from_namedtuple(schema: Any) -> Type:
         raise ValueError(f"Unsupported type: {clz_name}")
 
 
+def plain_value(value: Any) -> Any:
+    """
+    Copies a value, replacing dataclasses and named tuples with dicts and enums with their values.
+    """
+    if is_dataclass(value):
+        return {f: plain_value(getattr(value, f)) for f in value.__dataclass_fields__}
+    elif isinstance(value, tuple) and hasattr(value, "_fields"):
+        return {f: plain_value(v) for f, v in zip(value._fields, value)}
+    elif isinstance(value, dict):
+        return {plain_value(k): plain_value(v) for k, v in value.items()}
+    elif isinstance(value, list):
+        return [plain_value(v) for v in value]
+    elif isinstance(value, tuple):
+        return tuple(plain_value(v) for v in value)
+    elif isinstance(value, enum.Enum):
+        return value.value
+    else:
+        return value
+
+
 def load_schema(path: str) -> Struct:
     schema = pyron.load(path, preserve_structs=True)
     result = schema_from_namedtuple(schema)
-- 
2.43.0


From c2e578c9049242e974264b39a2af9d720fced3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:04 +0000
Subject: [PATCH 22/56] fix: dumped strings and small floats can be loaded
 again

---
 hyperstate/schema/schema_checker.py |  6 +++---
 hyperstate/serde.py                 | 27 +++++++++++++++++++++++++--
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 218a092..1c70bf2 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -384,7 +384,7 @@ def levenshtein(s1: str, s2: str) -> float:
 
 def _dump_schema(filename: str, type: typing.Type[Versioned]) -> None:
     serialized = serde.dumps(materialize_type(type))
-    with open(filename, "w") as f:
+    with open(filename, "w", encoding="utf-8") as f:
         f.write(serialized)
 
 
@@ -411,7 +411,7 @@ def _upgrade_config(
         config, elide_defaults=elide_defaults, schedules=schedules
     )
     if dry_run:
-        original_config = open(filename).read()
+        original_config = Path(filename).read_text(encoding="utf-8")
         diff = difflib.unified_diff(
             original_config.splitlines(),
             upgraded_config.splitlines(),
@@ -426,7 +426,7 @@ def _upgrade_config(
             else:
                 click.echo(line)
     else:
-        with open(filename, "w") as f:
+        with open(filename, "w", encoding="utf-8") as f:
             f.write(upgraded_config)
 
 
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 1d0e7fd..bfe416e 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -8,6 +8,7 @@ from typing import (
     List,
     Any,
     Literal,
+    Match,
     Optional,
     Set,
     Type,
@@ -17,6 +18,7 @@ from typing import (
     Union,
 )
 import inspect
+import re
 from dataclasses import MISSING, is_dataclass
 import typing
 
@@ -405,7 +407,7 @@ def dump(
     serializers: Optional[List[Serializer]] = None,
 ) -> str:
     serialized = dumps(obj, serializers)
-    with open(file, "w") as f:
+    with open(file, "w", encoding="utf-8") as f:
         f.write(serialized)
     return serialized
 
@@ -417,7 +419,28 @@ def dumps(
     if serializers is None:
         serializers = []
     state_dict = asdict(obj, named_tuples=True, serializers=serializers)
-    return pyron.to_string(state_dict)
+    return _normalize_ron(pyron.to_string(state_dict))
+
+
+def _normalize_ron(ron: str) -> str:
+    """
+    Rewrites tokens emitted by `pyron.to_string` that `pyron.loads` does not accept:
+    unsupported escape sequences in strings and a redundant suffix on small floats.
+    """
+
+    def unescape(match: Match[str]) -> str:
+        if match.group(0) == "\\'":
+            return "'"
+        elif match.group(1) is not None:
+            return chr(int(match.group(1), 16))
+        return match.group(0)
+
+    def normalize(match: Match[str]) -> str:
+        if match.group(1) is not None:
+            return match.group(1)
+        return re.sub(r"\\(?:u\{([0-9a-fA-F]+)\}|.)", unescape, match.group(0))
+
+    return re.sub(r'"(?:[^"\\]|\\.)*"|(\d+\.\d+)\.0\b', normalize, ron)
 
 
 def is_optional(clz: Type[Any]) -> bool:
-- 
2.43.0


From a29b5088ed54316f8e8ebffe75cf0874b9890cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:05 +0000
Subject: [PATCH 23/56] fix: integers written as strings keep their exact value

---
 hyperstate/serde.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index bfe416e..056173a 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -1,5 +1,6 @@
 from abc import ABC, abstractmethod
 from collections import namedtuple
+from decimal import Decimal
 from enum import Enum, EnumMeta
 from os import name
 from pathlib import Path
@@ -18,6 +19,7 @@ from typing import (
     Union,
 )
 import inspect
+import math
 import re
 from dataclasses import MISSING, is_dataclass
 import typing
@@ -186,9 +188,10 @@ def from_dict(
     elif (clz == float or ufloat) and isinstance(value, str):
         return float(value)  # type: ignore
     elif (clz == int or uint) and isinstance(value, str):
-        f = float(value)
-        if int(f) == f:
-            return int(f)  # type: ignore
+        float(value)  # raises ValueError if not a number
+        d = Decimal(value)
+        if math.isfinite(float(d)) and d == d.to_integral_value():
+            return int(d)  # type: ignore
         else:
             raise DeserializeValueError(f"Expected {fpath} to be an int, got {value}")
     elif typing.get_origin(clz) == typing.Union:
-- 
2.43.0


From a1388c06095d74c931333840efbc3ac12c613c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:07 +0000
Subject: [PATCH 24/56] fix: dump infinite floats and large integers so that
 they can be loaded

---
 hyperstate/schema/types.py | 15 +++++++++------
 hyperstate/serde.py        | 11 +++++++++++
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index c7b9eb0..a2ccb68 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -329,12 +329,15 @@ def schema_from_namedtuple(schema: Any) -> Type:
     elif clz_name == "Struct":
         fields = {}
         for name, field in schema.fields.items():
-            fields[name] = Field(
-                name,
-                schema_from_namedtuple(field.type),
-                field.default,
-                field.has_default,
-            )
+            type = schema_from_namedtuple(field.type)
+            default = field.default
+            if isinstance(default, str):
+                # Numbers that cannot be represented in RON are written as strings
+                if _unwrap_container_type(type) == Primitive("float"):
+                    default = float(default)
+                elif _unwrap_container_type(type) == Primitive("int"):
+                    default = int(default)
+            fields[name] = Field(name, type, default, field.has_default)
         return Struct(schema.name, fields, schema.version)
     elif clz_name == "Option":
         return Option(schema_from_namedtuple(schema.type))
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 056173a..2895b99 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -127,6 +127,9 @@ def asdict(
         )
     elif isinstance(value, Enum):
         return value.value
+    elif named_tuples and not _is_ron_number(value):
+        # Deserialized as number again by `from_dict`
+        return str(value)
     elif (
         isinstance(value, int)
         or isinstance(value, float)
@@ -141,6 +144,14 @@ def asdict(
         )
 
 
+def _is_ron_number(value: Any) -> bool:
+    if isinstance(value, float):
+        return math.isfinite(value)
+    elif isinstance(value, int):
+        return -(2 ** 63) <= value < 2 ** 63
+    return True
+
+
 def from_dict(
     clz: Type[T],
     value: Any,
-- 
2.43.0


From eeeb8b5f75c4034da56a4760036ef908dee08b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:29 +0000
Subject: [PATCH 25/56] fix: reject tuples with the wrong number of elements

---
 hyperstate/serde.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 2895b99..381b812 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -242,6 +242,10 @@ def from_dict(
         and clz == Tuple[clz.__args__]  # type: ignore
         and isinstance(value, tuple)
     ):
+        if len(value) != len(clz.__args__):  # type: ignore
+            raise DeserializeValueError(
+                f"Expected {fpath} to have {len(clz.__args__)} elements, got {len(value)}"  # type: ignore
+            )
         return tuple(
             from_dict(clz.__args__[i], v, deserializers, fpath + f"[{i}]", ignore_extra_fields)  # type: ignore
             for i, v in enumerate(value)
-- 
2.43.0


From 9f656e0c0e9c67ca7d258bc863a17c1fc9477ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:31 +0000
Subject: [PATCH 26/56] fix: deserialize dict keys as the declared type

---
 hyperstate/serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 381b812..82ab0a3 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -257,7 +257,7 @@ def from_dict(
         and isinstance(value, dict)
     ):
         return {
-            k: from_dict(clz.__args__[1], v, deserializers, fpath=f"{fpath}.{k}", ignore_extra_fields=ignore_extra_fields)  # type: ignore
+            from_dict(clz.__args__[0], k, fpath=f"{fpath}.{k}"): from_dict(clz.__args__[1], v, deserializers, fpath=f"{fpath}.{k}", ignore_extra_fields=ignore_extra_fields)  # type: ignore
             for k, v in value.items()
         }
     elif is_dataclass(clz):
-- 
2.43.0


From 9ce512a49125c0f23556358c0aaccea0d826ce15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:44 +0000
Subject: [PATCH 27/56] fix: dump dicts with enum keys

---
 hyperstate/serde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 82ab0a3..c5bb5a1 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -97,7 +97,7 @@ def asdict(
             return attrs
     elif isinstance(value, dict):
         return {
-            k: asdict(
+            asdict(k, named_tuples): asdict(
                 value=v,
                 named_tuples=named_tuples,
                 serializers=serializers,
-- 
2.43.0


From 548150f0a2c52604d6ae781a65ed9f9ba5607f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:46 +0000
Subject: [PATCH 28/56] fix: only resume from checkpoints written by step

---
 hyperstate/hyperstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 9ffb20e..8587f91 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -341,7 +341,7 @@ def find_latest_checkpoint(dir: Path) -> Optional[Path]:
     latest = None
     latest_dir = None
     for d in dir.iterdir():
-        if d.is_dir() and len(d.name) >= 12:
+        if d.is_dir() and d.name.startswith("latest") and len(d.name) >= 12:
             try:
                 if latest is None or int(d.name[-12:]) > latest:
                     latest = int(d.name[-12:])
-- 
2.43.0


From b55d43dd612fb0b54fdc08b3bb7833b786a6c47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:41 +0000
Subject: [PATCH 29/56] fix: overrides are applied after version upgrades

---
 hyperstate/hyperstate.py       | 43 +++++++++++++++++++++++++++-------
 hyperstate/schema/versioned.py |  1 +
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 8587f91..42070b6 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -19,6 +19,7 @@ from typing import (
 )
 from dataclasses import MISSING, dataclass
 import uuid
+from hyperstate.schema.rewrite_rule import WEAK_REF
 from hyperstate.schema.types import Struct, materialize_type
 import hyperstate.schema.types as t
 
@@ -270,13 +271,12 @@ def _typed_load(
     allow_missing_version: bool = False,
     ignore_extra_fields: bool = False,
 ) -> Tuple[T, Dict[str, Any]]:
+    # Upgrades run before overrides, which refer to fields of the current version
+    deserializers: List[Deserializer] = [VersionedDeserializer(allow_missing_version)]
     if overrides is not None:
-        deserializers: List[Deserializer] = [OverridesDeserializer(overrides)]
-    else:
-        deserializers = []
+        deserializers.append(OverridesDeserializer(overrides))
     schedules = ScheduleDeserializer()
     deserializers.append(schedules)
-    deserializers.append(VersionedDeserializer(allow_missing_version))
     lazy = None
     assert file is None or data is None, "cannot specify both file and source"
     if file is not None:
@@ -407,11 +407,9 @@ class OverridesDeserializer(Deserializer):
                     )
             else:
                 val = pyron.loads(str_val, preserve_structs=True, print_errors=False)
-            _value = value
+            _value, _cls = value, cls
             for segment in fpath[:-1]:
-                if segment not in _value or _value[segment] is None:
-                    _value[segment] = {}
-                _value = _value[segment]
+                _value, _cls = _enter_struct(_value, _cls, segment)
             _value[fpath[-1]] = val
         if len(errors) == 1:
             raise errors[0]
@@ -421,6 +419,35 @@ class OverridesDeserializer(Deserializer):
         return value, True, False
 
 
+def _enter_struct(value: Any, cls: Any, name: str) -> Tuple[Any, Any]:
+    """
+    Returns the (upgraded) value and type of the nested dataclass in field `name`.
+    """
+    field = cls.__dataclass_fields__[name]
+    cls = field.type
+    while serde.is_optional(cls):
+        cls = cls.__args__[0]
+    if name not in value:
+        default = None
+        if field.default is not MISSING:
+            default = field.default
+        elif field.default_factory is not MISSING:
+            default = field.default_factory()
+        if default is not None:
+            default = asdict(default, serializers=[VersionedSerializer()])
+        value[name] = default
+    if value[name] is None:
+        value[name] = {"version": cls.version()} if issubclass(cls, Versioned) else {}
+    elif issubclass(cls, Versioned) and "version" in value[name]:
+        version = value[name].pop("version")
+        value[name] = cls._apply_upgrades(value[name], version)
+        value[name]["version"] = cls.version()
+    # An overridden struct is present even if the config file omits it
+    if value[name].pop(WEAK_REF, False) and issubclass(cls, Versioned):
+        value[name]["version"] = cls.version()
+    return value[name], cls
+
+
 class ScheduleDeserializer(Deserializer):
     def __init__(self) -> None:
         # Use recursive type once supported (https://github.com/python/mypy/issues/731): ScheduleDict = Union[Dict[str, "ScheduleDict"], Schedule]
diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index aec72e4..6aad800 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -77,6 +77,7 @@ class VersionedDeserializer(Deserializer):
                     )
             else:
                 value = clz._apply_upgrades(state_dict=value, version=version)
+                return value, True, False
         return None, False, False
 
 
-- 
2.43.0


From f63eef86017fe6331921e2c6cc37068fdfe90b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:16 +0000
Subject: [PATCH 30/56] fix: overrides accept structs for union fields and
 fields inside overridden structs

---
 hyperstate/hyperstate.py | 2 ++
 hyperstate/serde.py      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 42070b6..9ea5283 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -427,6 +427,8 @@ def _enter_struct(value: Any, cls: Any, name: str) -> Tuple[Any, Any]:
     cls = field.type
     while serde.is_optional(cls):
         cls = cls.__args__[0]
+    if serde.isnamedtupleinstance(value.get(name)):
+        value[name] = value[name]._asdict()
     if name not in value:
         default = None
         if field.default is not MISSING:
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index c5bb5a1..6952132 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -206,6 +206,8 @@ def from_dict(
         else:
             raise DeserializeValueError(f"Expected {fpath} to be an int, got {value}")
     elif typing.get_origin(clz) == typing.Union:
+        if isnamedtupleinstance(value):
+            value = {"!__name__": value.__class__.__name__, **value._asdict()}
         if isinstance(value, dict):
             if "!__name__" in value:
                 for arg in clz.__args__:  # type: ignore
-- 
2.43.0


From e97b8256cdd936c9bc3033aa1b041ed26cb59778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:10 +0000
Subject: [PATCH 31/56] fix: load literals whose values are not valid type
 names

---
 hyperstate/serde.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 6952132..c7c4364 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -233,15 +233,13 @@ def from_dict(
         )
 
     elif (
-        hasattr(clz, "__args__")
+        typing.get_origin(clz) == list
         and len(clz.__args__) == 1  # type: ignore
-        and clz == List[clz.__args__]  # type: ignore
         and isinstance(value, list)
     ):
         return [from_dict(clz.__args__[0], v, deserializers, fpath + f"[{i}]", ignore_extra_fields) for i, v in enumerate(value)]  # type: ignore
     elif (
-        hasattr(clz, "__args__")
-        and clz == Tuple[clz.__args__]  # type: ignore
+        typing.get_origin(clz) == tuple
         and isinstance(value, tuple)
     ):
         if len(value) != len(clz.__args__):  # type: ignore
@@ -253,9 +251,8 @@ def from_dict(
             for i, v in enumerate(value)
         )
     elif (
-        hasattr(clz, "__args__")
+        typing.get_origin(clz) == dict
         and len(clz.__args__) == 2  # type: ignore
-        and clz == Dict[clz.__args__]  # type: ignore
         and isinstance(value, dict)
     ):
         return {
-- 
2.43.0


From 2e2e1c966a8d4a0cabd239d2fc674472b70f2e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:14 +0000
Subject: [PATCH 32/56] fix: do not load named structs as dicts with an extra
 entry

---
 hyperstate/serde.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index c7c4364..94bd550 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -254,6 +254,7 @@ def from_dict(
         typing.get_origin(clz) == dict
         and len(clz.__args__) == 2  # type: ignore
         and isinstance(value, dict)
+        and "!__name__" not in value
     ):
         return {
             from_dict(clz.__args__[0], k, fpath=f"{fpath}.{k}"): from_dict(clz.__args__[1], v, deserializers, fpath=f"{fpath}.{k}", ignore_extra_fields=ignore_extra_fields)  # type: ignore
-- 
2.43.0


From ce7488bf7d25f3d7f5da308abce1b7f5fb4cc6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:49 +0000
Subject: [PATCH 33/56] fix: overrides inside absent structs keep union fields
 of the default

---
 hyperstate/hyperstate.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index 9ea5283..b72eb87 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -427,8 +427,6 @@ def _enter_struct(value: Any, cls: Any, name: str) -> Tuple[Any, Any]:
     cls = field.type
     while serde.is_optional(cls):
         cls = cls.__args__[0]
-    if serde.isnamedtupleinstance(value.get(name)):
-        value[name] = value[name]._asdict()
     if name not in value:
         default = None
         if field.default is not MISSING:
@@ -436,8 +434,13 @@ def _enter_struct(value: Any, cls: Any, name: str) -> Tuple[Any, Any]:
         elif field.default_factory is not MISSING:
             default = field.default_factory()
         if default is not None:
-            default = asdict(default, serializers=[VersionedSerializer()])
+            # Named tuples preserve the class names required to load unions
+            default = asdict(
+                default, named_tuples=True, serializers=[VersionedSerializer()]
+            )
         value[name] = default
+    if serde.isnamedtupleinstance(value[name]):
+        value[name] = value[name]._asdict()
     if value[name] is None:
         value[name] = {"version": cls.version()} if issubclass(cls, Versioned) else {}
     elif issubclass(cls, Versioned) and "version" in value[name]:
-- 
2.43.0


From 3f6d6713376bedc8fc7f54460511fdb80c07f21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 34/56] fix: load versioned structs given as override values

---
 hyperstate/schema/namedtuple_utils.py | 9 ---------
 hyperstate/schema/versioned.py        | 9 +++++----
 2 files changed, 5 insertions(+), 13 deletions(-)
 delete mode 100644 hyperstate/schema/namedtuple_utils.py

diff --git a/hyperstate/schema/namedtuple_utils.py b/hyperstate/schema/namedtuple_utils.py
deleted file mode 100644
index 205495f..0000000
--- a/hyperstate/schema/namedtuple_utils.py
+++ /dev/null
@@ -1,9 +0,0 @@
-from collections import namedtuple
-from typing import Any
-
-
-def remove_field(value: Any, field: str) -> Any:
-    value = namedtuple(
-        value.__class__.__name__,
-        [f for f in value._fields if f is not field],
-    )(*[getattr(value, f) for f in value._fields if f is not field])
diff --git a/hyperstate/schema/versioned.py b/hyperstate/schema/versioned.py
index 6aad800..59856ef 100644
--- a/hyperstate/schema/versioned.py
+++ b/hyperstate/schema/versioned.py
@@ -3,10 +3,11 @@ from collections import namedtuple
 from dataclasses import dataclass
 from inspect import isclass
 from typing import Any, Dict, List, Optional, Type, TypeVar, Callable, Tuple
-from hyperstate.schema import namedtuple_utils, types
+from hyperstate.schema import types
 from hyperstate.serde import (
     Deserializer,
     Serializer,
+    isnamedtupleinstance,
 )
 
 from hyperstate.schema.rewrite_rule import RewriteRule
@@ -64,9 +65,9 @@ class VersionedDeserializer(Deserializer):
         if isclass(clz) and issubclass(clz, Versioned):
             if isinstance(value, dict):
                 version = value.pop("version", None)
-            elif hasattr(value, "version"):
-                version = value.version
-                value = namedtuple_utils.remove_field(value, "version")
+            elif isnamedtupleinstance(value):
+                value = value._asdict()
+                version = value.pop("version", None)
             else:
                 version = None
 
-- 
2.43.0


From 40a7f749fadef2b1d9276c4485fd5fd4c9d2c4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 35/56] fix: defaults added by rules load as values of union
 and versioned fields

---
 hyperstate/schema/rewrite_rule.py |  7 +++++--
 hyperstate/schema/types.py        | 23 +++++++++++++++++------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 470ab93..83a8c65 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -98,7 +98,10 @@ class ChangeDefault(RewriteRule):
         existing_value, ok = _remove(state_dict, self.field)
         if not ok or (isinstance(existing_value, dict) and WEAK_REF in existing_value):
             _insert(
-                state_dict, self.field, types.plain_value(self.old_default), create_new=False
+                state_dict,
+                self.field,
+                types.plain_value(self.old_default, tagged=True),
+                create_new=False,
             )
         else:
             _insert(state_dict, self.field, existing_value, create_new=False)
@@ -123,7 +126,7 @@ class AddDefault(RewriteRule):
         _insert(
             state_dict,
             self.field,
-            value if present else types.plain_value(self.default),
+            value if present else types.plain_value(self.default, tagged=True),
             create_new=False,
         )
         return state_dict
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index a2ccb68..19d9f77 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -352,20 +352,31 @@ def schema_from_namedtuple(schema: Any) -> Type:
         raise ValueError(f"Unsupported type: {clz_name}")
 
 
-def plain_value(value: Any) -> Any:
+def plain_value(value: Any, tagged: bool = False) -> Any:
     """
     Copies a value, replacing dataclasses and named tuples with dicts and enums with their values.
+    If `tagged`, dicts record the class name and version that are required to load them.
     """
     if is_dataclass(value):
-        return {f: plain_value(getattr(value, f)) for f in value.__dataclass_fields__}
+        result: typing.Dict[str, Any] = {}
+        if tagged:
+            result["!__name__"] = value.__class__.__name__
+            if hasattr(value, "upgrade_rules"):
+                result["version"] = value.version()
+        for f in value.__dataclass_fields__:
+            result[f] = plain_value(getattr(value, f), tagged)
+        return result
     elif isinstance(value, tuple) and hasattr(value, "_fields"):
-        return {f: plain_value(v) for f, v in zip(value._fields, value)}
+        result = {"!__name__": value.__class__.__name__} if tagged else {}
+        for f, v in zip(value._fields, value):
+            result[f] = plain_value(v, tagged)
+        return result
     elif isinstance(value, dict):
-        return {plain_value(k): plain_value(v) for k, v in value.items()}
+        return {plain_value(k, tagged): plain_value(v, tagged) for k, v in value.items()}
     elif isinstance(value, list):
-        return [plain_value(v) for v in value]
+        return [plain_value(v, tagged) for v in value]
     elif isinstance(value, tuple):
-        return tuple(plain_value(v) for v in value)
+        return tuple(plain_value(v, tagged) for v in value)
     elif isinstance(value, enum.Enum):
         return value.value
     else:
-- 
2.43.0


From 480bb8e280946ebb2915a17ccedd686cff09e539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 36/56] fix: do not interpret stored bytes as python objects

---
 hyperstate/msgpack_torch.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hyperstate/msgpack_torch.py b/hyperstate/msgpack_torch.py
index 2d5ddae..7e980fc 100644
--- a/hyperstate/msgpack_torch.py
+++ b/hyperstate/msgpack_torch.py
@@ -14,6 +14,8 @@ def encode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
         tensor_type = "torch"
 
     if isinstance(obj, np.ndarray):
+        if obj.dtype.hasobject:
+            raise TypeError(f"Cannot serialize array of dtype {obj.dtype}")
         return {
             b"__tensor__": tensor_type or "numpy",
             b"dtype": obj.dtype.str,
@@ -27,9 +29,13 @@ def encode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
 def decode(obj: Any, chain: Optional[Callable[[Any], Any]] = None) -> Any:
     try:
         if b"__tensor__" in obj:
+            dtype = np.dtype(obj[b"dtype"])
+            if dtype.hasobject:
+                # The stored bytes would be used as object pointers
+                raise ValueError(f"Cannot deserialize array of dtype {dtype}")
             tensor: Any = np.ndarray(
                 buffer=obj[b"data"],
-                dtype=np.dtype(obj[b"dtype"]),
+                dtype=dtype,
                 shape=obj[b"shape"],
             )
             if obj[b"__tensor__"] == "torch" and torch is not None:
-- 
2.43.0


From aae5e7c53562d12579109df5b343452dfafd0cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 37/56] fix: directories that resemble checkpoints are neither
 resumed nor deleted

---
 hyperstate/hyperstate.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index b72eb87..c75e48d 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -115,8 +115,8 @@ class StateManager(Generic[C, S]):
     def checkpoint_dir(self, value: Union[Path, None]) -> None:
         if value is not None:
             value.mkdir(parents=True, exist_ok=True)
-            checkpoint = find_latest_checkpoint(value)
-            if checkpoint is not None and checkpoint.name.startswith("latest"):
+            checkpoint = find_latest_checkpoint(value, f"latest-{self.checkpoint_key}")
+            if checkpoint is not None:
                 self._last_checkpoint = checkpoint
         else:
             self._checkpoint_dir = None
@@ -334,20 +334,24 @@ def load(
     )[0]
 
 
-def find_latest_checkpoint(dir: Path) -> Optional[Path]:
+def find_latest_checkpoint(dir: Path, prefix: str) -> Optional[Path]:
     # Check that dir exists
     if not dir.exists():
         return None
     latest = None
     latest_dir = None
     for d in dir.iterdir():
-        if d.is_dir() and d.name.startswith("latest") and len(d.name) >= 12:
+        if d.is_dir() and d.name.startswith(prefix):
             try:
-                if latest is None or int(d.name[-12:]) > latest:
-                    latest = int(d.name[-12:])
-                    latest_dir = d
+                val = int(d.name[len(prefix) :])
             except ValueError:
-                pass
+                continue
+            # Skip directories that were not named by `StateManager.step`
+            if d.name != f"{prefix}{val:012}":
+                continue
+            if latest is None or val > latest:
+                latest = val
+                latest_dir = d
     return latest_dir
 
 
-- 
2.43.0


From 45ce185ccc51f2f29a822a9e813d6870092d85ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:04 +0000
Subject: [PATCH 38/56] fix: step can be retried after it failed to remove the
 previous checkpoint

---
 hyperstate/hyperstate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index c75e48d..c34ddca 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -140,6 +140,8 @@ class StateManager(Generic[C, S]):
             if (
                 self._last_checkpoint is not None
                 and self._last_checkpoint != checkpoint_dir
+                # Already gone if an earlier step failed while removing it
+                and self._last_checkpoint.exists()
             ):
                 with tempfile.TemporaryDirectory() as tmpdir:
                     shutil.move(str(self._last_checkpoint), tmpdir)
-- 
2.43.0


From 1bed1ab47eac4420585474ebdfc9f125893b8325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:22 +0000
Subject: [PATCH 39/56] fix: numbers that RON cannot represent compare equal
 inside default values of schemas

---
 hyperstate/schema/types.py | 42 +++++++++++++++++++++++++++++++-------
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 19d9f77..9142c55 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -330,13 +330,7 @@ def schema_from_namedtuple(schema: Any) -> Type:
         fields = {}
         for name, field in schema.fields.items():
             type = schema_from_namedtuple(field.type)
-            default = field.default
-            if isinstance(default, str):
-                # Numbers that cannot be represented in RON are written as strings
-                if _unwrap_container_type(type) == Primitive("float"):
-                    default = float(default)
-                elif _unwrap_container_type(type) == Primitive("int"):
-                    default = int(default)
+            default = _restore_numbers(field.default, type)
             fields[name] = Field(name, type, default, field.has_default)
         return Struct(schema.name, fields, schema.version)
     elif clz_name == "Option":
@@ -352,6 +346,40 @@ def schema_from_namedtuple(schema: Any) -> Type:
         raise ValueError(f"Unsupported type: {clz_name}")
 
 
+def _restore_numbers(value: Any, type: Type) -> Any:
+    """
+    Numbers that cannot be represented in RON are written as strings.
+    """
+    if isinstance(type, Option):
+        return _restore_numbers(value, type.type)
+    elif isinstance(type, Primitive) and isinstance(value, str):
+        if type.type == "float":
+            return float(value)
+        elif type.type == "int":
+            return int(value)
+    elif isinstance(type, List) and isinstance(value, list):
+        return [_restore_numbers(v, type.inner) for v in value]
+    elif isinstance(type, Dict) and isinstance(value, dict):
+        return {
+            _restore_numbers(k, type.key): _restore_numbers(v, type.val)
+            for k, v in value.items()
+        }
+    elif isinstance(type, Tuple) and isinstance(value, tuple):
+        return tuple(_restore_numbers(v, t) for v, t in zip(value, type.inner))
+    elif isinstance(value, tuple) and hasattr(value, "_fields"):
+        types = type.types if isinstance(type, Union) else [type]
+        for struct in types:
+            if isinstance(struct, Struct) and struct.name == value.__class__.__name__:
+                return value._replace(
+                    **{
+                        name: _restore_numbers(getattr(value, name), field.type)
+                        for name, field in struct.fields.items()
+                        if name in value._fields
+                    }
+                )
+    return value
+
+
 def plain_value(value: Any, tagged: bool = False) -> Any:
     """
     Copies a value, replacing dataclasses and named tuples with dicts and enums with their values.
-- 
2.43.0


From 949fd94d2e5013669e8f8f67c52e5b20a34034c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:39 +0000
Subject: [PATCH 40/56] fix: structs whose fields all have defaults can be
 added to structs inside tuples, dicts and unions

---
 hyperstate/schema/types.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 9142c55..b96b694 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -126,6 +126,13 @@ class Field:
     has_default: bool
     docstring: typing.Optional[str] = None
 
+    def is_optional(self) -> bool:
+        """Whether configs may omit the field. Omitted structs are created from the defaults of their fields."""
+        return self.has_default or (
+            isinstance(self.type, Struct)
+            and all(f.is_optional() for f in self.type.fields.values())
+        )
+
 
 @dataclass(eq=True, frozen=True)
 class Enum:
@@ -217,7 +224,7 @@ class Struct:
                 for k, f in self.fields.items()
             )
             and all(
-                f.has_default for k, f in other.fields.items() if k not in self.fields
+                f.is_optional() for k, f in other.fields.items() if k not in self.fields
             )
         ) or (isinstance(other, Option) and self.is_subtype(other.type))
 
-- 
2.43.0


From cf317c2a2d83aa1cca067eb2a81328720b5b98c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:37 +0000
Subject: [PATCH 41/56] fix: help shows defaults and documentation of nested
 dataclasses

---
 hyperstate/schema/help.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/hyperstate/schema/help.py b/hyperstate/schema/help.py
index a6d1361..6050cb9 100644
--- a/hyperstate/schema/help.py
+++ b/hyperstate/schema/help.py
@@ -68,25 +68,18 @@ def print_schema(schema: t.Struct, depth: int = 0, recurse: bool = True) -> None
     for f in schema.fields.values():
         line = "  " * depth + style(f.name, fg="cyan") + style(":", fg="white") + " "
         unwrapped = _unwrap_container_type(f.type)
-        if isinstance(unwrapped, t.Struct):
-            line += style(str(f.type), fg="green")
-            print(line)
-            line = ""
-            if recurse:
-                print_schema(unwrapped, depth + 1)
-            continue
-        else:
-            line += style(f.type, fg="green")
+        line += style(str(f.type), fg="green")
         if f.default is not None:
             line += style(" = ", fg="white") + style(repr(f.default), fg="yellow")
-        if line != "":
-            if f.docstring is not None:
-                line += (
-                    " " * (40 - len(unstyle(line)))
-                    + style("  # ", fg="white")
-                    + style(f.docstring, fg="white")
-                )
-            print(line)
+        if f.docstring is not None:
+            line += (
+                " " * (40 - len(unstyle(line)))
+                + style("  # ", fg="white")
+                + style(f.docstring, fg="white")
+            )
+        print(line)
+        if isinstance(unwrapped, t.Struct) and recurse:
+            print_schema(unwrapped, depth + 1)
 
 
 def find_fields(
-- 
2.43.0


From b104d48b351eed9321824babf9f532b75652b220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:39 +0000
Subject: [PATCH 42/56] fix: help finds fields of dataclasses inside Optional
 and List

---
 hyperstate/schema/help.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperstate/schema/help.py b/hyperstate/schema/help.py
index 6050cb9..8a0c345 100644
--- a/hyperstate/schema/help.py
+++ b/hyperstate/schema/help.py
@@ -88,6 +88,7 @@ def find_fields(
     result = []
     for f in schema.fields.values():
         result.append((path or [], name_similarity(f.name, query), f))
-        if isinstance(f.type, t.Struct):
-            result.extend(find_fields(f.type, query, (path or []) + [f.name]))
+        unwrapped = _unwrap_container_type(f.type)
+        if isinstance(unwrapped, t.Struct):
+            result.extend(find_fields(unwrapped, query, (path or []) + [f.name]))
     return result
-- 
2.43.0


From 47ee6823e62b4e53c0f75358ba85d4d003de0552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:42 +0000
Subject: [PATCH 43/56] fix: documentation of redeclared fields takes
 precedence over that of the base class

---
 hyperstate/schema/types.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index b96b694..4f274eb 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -435,10 +435,12 @@ def _unwrap_container_type(type: Type) -> Type:
 
 def _find_all_field_docs(clz: typing.Type[Any]) -> typing.Dict[str, str]:
     docs = docstring_parser.parse(clz.__doc__ or "")
-    field_docs = {
-        f.arg_name: f.description for f in docs.params if f.description is not None
-    }
+    field_docs = {}
     if hasattr(clz, "__bases__"):
-        for base in clz.__bases__:
+        for base in reversed(clz.__bases__):
             field_docs.update(_find_all_field_docs(base))
+    # Documentation in the class itself takes precedence over its base classes
+    field_docs.update(
+        {f.arg_name: f.description for f in docs.params if f.description is not None}
+    )
     return field_docs
-- 
2.43.0


From 13076226dbebf21d4b1418ebfe2dbc7b339d8142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:17 +0000
Subject: [PATCH 44/56] fix: proposed fixes map values after filling in old
 defaults

---
 hyperstate/schema/schema_checker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 1c70bf2..ac508b5 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -25,6 +25,7 @@ from hyperstate.schema.schema_change import (
     TypeChanged,
 )
 from hyperstate.schema.versioned import Versioned
+from .rewrite_rule import MapFieldValue
 from .types import load_schema, materialize_type
 from . import types as t
 
@@ -55,6 +56,8 @@ class SchemaChecker:
             proposed_fix = change.proposed_fix()
             if proposed_fix is not None:
                 self.proposed_fixes.append(proposed_fix)
+        # Apply mapping functions last so that they see the old default values filled in by other rules
+        self.proposed_fixes.sort(key=lambda fix: isinstance(fix, MapFieldValue))
 
     def severity(self) -> Severity:
         max_severity = Severity.INFO
-- 
2.43.0


From 6b398fd74383615e76360eeb31a28270e19e3715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:08 +0000
Subject: [PATCH 45/56] fix: enum variant renames are only found within the
 same field

---
 hyperstate/schema/schema_checker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index ac508b5..6feaeb1 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -290,6 +290,8 @@ class SchemaChecker:
         def enum_similarity(
             added: EnumVariantAdded, removed: EnumVariantRemoved
         ) -> Optional[float]:
+            if added.field != removed.field:
+                return None
             return name_similarity(removed.variant, added.variant)
 
         def enum_renamed(
-- 
2.43.0


From 1959557904408c881a0c0b563d0e4d55a0d95c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:56 +0000
Subject: [PATCH 46/56] fix: proposed fixes for optional fields leave None
 alone

---
 hyperstate/schema/rewrite_rule.py   | 16 ++++++----------
 hyperstate/schema/schema_change.py  | 13 ++++++++++++-
 hyperstate/schema/schema_checker.py | 10 ++++++----
 3 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index 83a8c65..f9eee8a 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -162,16 +162,12 @@ class CheckValue(RewriteRule):
     def apply_to_schema(self, schema: types.Type) -> None:
         field = _remove_schema(schema, self.field)
         assert field is not None, f"Field {self.field} not found in schema"
-        _insert_schema(
-            schema,
-            self.field,
-            replace(
-                field,
-                type=_replace_in_option(
-                    field.type, types.Literal(list(self.allowed_values))
-                ),
-            ),
-        )
+        type: types.Type = types.Literal(list(self.allowed_values))
+        if isinstance(field.type, types.Option) and None in self.allowed_values:
+            type = types.Option(
+                types.Literal([v for v in self.allowed_values if v is not None])
+            )
+        _insert_schema(schema, self.field, replace(field, type=type))
 
 
 @dataclass
diff --git a/hyperstate/schema/schema_change.py b/hyperstate/schema/schema_change.py
index b35e896..36632e5 100644
--- a/hyperstate/schema/schema_change.py
+++ b/hyperstate/schema/schema_change.py
@@ -148,6 +148,8 @@ class DefaultValueRemoved(SchemaChange):
 class TypeChanged(SchemaChange):
     old: t.Type
     new: t.Type
+    # Whether the field could be and still can be `None` as well
+    optional: bool = False
 
     def severity(self) -> Severity:
         if self.old.is_subtype(self.new):
@@ -159,6 +161,12 @@ class TypeChanged(SchemaChange):
 
     def proposed_fix(self) -> typing.Optional[RewriteRule]:
         if isinstance(self.new, t.List) and self.new.inner == self.old:
+            if self.optional:
+                return MapFieldValue(
+                    self.field,
+                    lambda x: None if x is None else [x],
+                    rendered="lambda x: None if x is None else [x]",
+                )
             return MapFieldValue(self.field, lambda x: [x], rendered="lambda x: [x]")
         elif (
             isinstance(self.old, t.Primitive)
@@ -170,7 +178,10 @@ class TypeChanged(SchemaChange):
                 self.field, lambda x: int(x), rendered="lambda x: int(x)"
             )
         elif isinstance(self.new, t.Literal):
-            return CheckValue(self.field, set(self.new.allowed_values))
+            allowed_values = set(self.new.allowed_values)
+            if self.optional:
+                allowed_values.add(None)
+            return CheckValue(self.field, allowed_values)
         else:
             return None
 
diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 6feaeb1..3a1555b 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -94,12 +94,14 @@ class SchemaChecker:
                     bold=True,
                 )
 
-    def _find_changes(self, old: t.Type, new: t.Type, path: List[str]) -> None:
+    def _find_changes(
+        self, old: t.Type, new: t.Type, path: List[str], optional: bool = False
+    ) -> None:
         if old.__class__ != new.__class__:
-            self.changes.append(TypeChanged(tuple(path), old, new))
+            self.changes.append(TypeChanged(tuple(path), old, new, optional))
         elif isinstance(old, t.Primitive):
             if old != new:
-                self.changes.append(TypeChanged(tuple(path), old, new))
+                self.changes.append(TypeChanged(tuple(path), old, new, optional))
         elif isinstance(old, t.List):
             assert isinstance(new, t.List)
             self._find_changes(old.inner, new.inner, path)
@@ -182,7 +184,7 @@ class SchemaChecker:
                         )
         elif isinstance(old, t.Option):
             assert isinstance(new, t.Option)
-            self._find_changes(old.type, new.type, path)
+            self._find_changes(old.type, new.type, path, optional=True)
         elif isinstance(old, t.Enum):
             assert isinstance(new, t.Enum)
             for name, value in new.variants.items():
-- 
2.43.0


From faaea70114b9093bd29345d2d8e1be653d4ff092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:36 +0000
Subject: [PATCH 47/56] fix: checkpoint accepts a target with a trailing slash
 on another filesystem

---
 hyperstate/hyperstate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index c34ddca..b5eb731 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -198,7 +198,8 @@ class StateManager(Generic[C, S]):
             p.mkdir()
             _typed_dump(self.config, p / "config.ron", self._schedules)
             _typed_dump(self.state, p / "state.ron")
-            atomic_move(str(p), target_dir)
+            # A trailing slash must not end up in the middle of the temporary name
+            atomic_move(str(p), str(Path(target_dir)))
 
     def config_dict(self) -> Any:
         """
-- 
2.43.0


From 59648492db9c8e58bdcd0fb7c59e3cf140e9f637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:38 +0000
Subject: [PATCH 48/56] fix: optional types may be written as Union[None, T]
 and include unions

---
 hyperstate/hyperstate.py   |  4 ++--
 hyperstate/schema/types.py | 12 +++++++++---
 hyperstate/serde.py        | 12 ++----------
 3 files changed, 13 insertions(+), 15 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index b5eb731..f3b84c8 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -432,8 +432,8 @@ def _enter_struct(value: Any, cls: Any, name: str) -> Tuple[Any, Any]:
     """
     field = cls.__dataclass_fields__[name]
     cls = field.type
-    while serde.is_optional(cls):
-        cls = cls.__args__[0]
+    while t.is_optional(cls):
+        cls = t.optional_type(cls)
     if name not in value:
         default = None
         if field.default is not MISSING:
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 4f274eb..eed5f4f 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -267,7 +267,7 @@ def materialize_type(clz: typing.Type[Any]) -> Type:
             materialize_type(clz.__args__[0]), materialize_type(clz.__args__[1])
         )
     elif is_optional(clz):
-        return Option(materialize_type(clz.__args__[0]))
+        return Option(materialize_type(optional_type(clz)))
     elif hasattr(clz, "__origin__") and clz.__origin__ == typing.Union:
         return Union([materialize_type(t) for t in clz.__args__])
     elif is_dataclass(clz):
@@ -314,11 +314,17 @@ def is_optional(clz: Any) -> bool:
     return (
         hasattr(clz, "__origin__")
         and clz.__origin__ is typing.Union
-        and clz.__args__.__len__() == 2
-        and clz.__args__[1] is type(None)
+        and type(None) in clz.__args__
     )
 
 
+def optional_type(clz: Any) -> Any:
+    """
+    Returns `T` for the type `Optional[T]`, which may also be written as `Union[None, T]`.
+    """
+    return typing.Union[tuple(arg for arg in clz.__args__ if arg is not type(None))]
+
+
 def schema_from_namedtuple(schema: Any) -> Type:
     clz_name = schema.__class__.__name__
     if clz_name == "Primitive":
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 94bd550..28c78a3 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -27,6 +27,7 @@ import typing
 import pyron
 
 from hyperstate.schema.rewrite_rule import WEAK_REF
+from hyperstate.schema.types import is_optional, optional_type
 
 T = TypeVar("T")
 
@@ -166,7 +167,7 @@ def from_dict(
         if value is None:
             return None  # type: ignore
         else:
-            clz = clz.__args__[0]  # type: ignore
+            clz = optional_type(clz)
 
     ret = False
     for deserializer in deserializers:
@@ -461,15 +462,6 @@ def _normalize_ron(ron: str) -> str:
     return re.sub(r'"(?:[^"\\]|\\.)*"|(\d+\.\d+)\.0\b', normalize, ron)
 
 
-def is_optional(clz: Type[Any]) -> bool:
-    return (
-        hasattr(clz, "__origin__")
-        and clz.__origin__ is Union
-        and clz.__args__.__len__() == 2
-        and clz.__args__[1] is type(None)
-    )
-
-
 def _qualified_name(clz: Type[Any]) -> str:
     if clz.__module__ == "builtin":
         return clz.__name__
-- 
2.43.0


From ae04e55a3c3c485386b5d391e5e919d9e8e96370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:40 +0000
Subject: [PATCH 49/56] fix: report changes of the class of a default value of
 a union type

---
 hyperstate/schema/schema_checker.py |  7 ++---
 hyperstate/schema/types.py          | 40 +++++++++++++++++++++--------
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/hyperstate/schema/schema_checker.py b/hyperstate/schema/schema_checker.py
index 3a1555b..8202ded 100644
--- a/hyperstate/schema/schema_checker.py
+++ b/hyperstate/schema/schema_checker.py
@@ -156,8 +156,8 @@ class SchemaChecker:
                                     )
                                 )
                         elif oldfield.has_default and (
-                            t.plain_value(oldfield.default)
-                            != t.plain_value(field.default)
+                            t.plain_value(oldfield.default, type=oldfield.type)
+                            != t.plain_value(field.default, type=field.type)
                         ):
                             self.changes.append(
                                 DefaultValueChanged(
@@ -278,7 +278,8 @@ class SchemaChecker:
             if (
                 removed.type.is_subtype(added.type)
                 and removed.has_default == added.has_default
-                and t.plain_value(removed.default) == t.plain_value(added.default)
+                and t.plain_value(removed.default, type=removed.type)
+                == t.plain_value(added.default, type=added.type)
             ):
                 return name_similarity(removed.field[-1], added.field[-1])
             return None
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index eed5f4f..111d09c 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -217,8 +217,10 @@ class Struct:
                     not f.has_default
                     or (
                         other.fields[k].has_default
-                        and plain_value(other.fields[k].default)
-                        == plain_value(f.default)
+                        and plain_value(
+                            other.fields[k].default, type=other.fields[k].type
+                        )
+                        == plain_value(f.default, type=f.type)
                     )
                 )
                 for k, f in self.fields.items()
@@ -393,31 +395,49 @@ def _restore_numbers(value: Any, type: Type) -> Any:
     return value
 
 
-def plain_value(value: Any, tagged: bool = False) -> Any:
+def plain_value(
+    value: Any, tagged: bool = False, type: typing.Optional[Type] = None
+) -> Any:
     """
     Copies a value, replacing dataclasses and named tuples with dicts and enums with their values.
     If `tagged`, dicts record the class name and version that are required to load them.
+    If the `type` of the value is given, dicts record the class name where it selects one of the types of a union.
     """
+    if isinstance(type, Option):
+        type = type.type
+    result: typing.Dict[str, Any] = {}
+    if isinstance(type, Union) and (is_dataclass(value) or hasattr(value, "_fields")):
+        result["!__name__"] = value.__class__.__name__
+        for struct in type.types:
+            if isinstance(struct, Struct) and struct.name == result["!__name__"]:
+                type = struct
+                break
+    fields = type.fields if isinstance(type, Struct) else {}
     if is_dataclass(value):
-        result: typing.Dict[str, Any] = {}
         if tagged:
             result["!__name__"] = value.__class__.__name__
             if hasattr(value, "upgrade_rules"):
                 result["version"] = value.version()
         for f in value.__dataclass_fields__:
-            result[f] = plain_value(getattr(value, f), tagged)
+            inner = fields[f].type if f in fields else None
+            result[f] = plain_value(getattr(value, f), tagged, inner)
         return result
     elif isinstance(value, tuple) and hasattr(value, "_fields"):
-        result = {"!__name__": value.__class__.__name__} if tagged else {}
+        if tagged:
+            result["!__name__"] = value.__class__.__name__
         for f, v in zip(value._fields, value):
-            result[f] = plain_value(v, tagged)
+            inner = fields[f].type if f in fields else None
+            result[f] = plain_value(v, tagged, inner)
         return result
     elif isinstance(value, dict):
-        return {plain_value(k, tagged): plain_value(v, tagged) for k, v in value.items()}
+        inner = type.val if isinstance(type, Dict) else None
+        return {plain_value(k, tagged): plain_value(v, tagged, inner) for k, v in value.items()}
     elif isinstance(value, list):
-        return [plain_value(v, tagged) for v in value]
+        inner = type.inner if isinstance(type, List) else None
+        return [plain_value(v, tagged, inner) for v in value]
     elif isinstance(value, tuple):
-        return tuple(plain_value(v, tagged) for v in value)
+        inners = type.inner if isinstance(type, Tuple) else [None] * len(value)
+        return tuple(plain_value(v, tagged, inner) for v, inner in zip(value, inners))
     elif isinstance(value, enum.Enum):
         return value.value
     else:
-- 
2.43.0


From 7e7523c7153c8c66f7f6fa9757fa6ecc2ee5c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:56 +0000
Subject: [PATCH 50/56] fix: classes of a union with the same fields are not
 interchangeable in the schema checker

Replacing or removing a class of a union was reported as compatible when
another class of the union has the same fields, though configs that name
the class no longer load.
---
 hyperstate/schema/types.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 111d09c..68053be 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -112,7 +112,15 @@ class Union:
             self == other
             or (
                 isinstance(other, Union)
-                and all(any(t.is_subtype(o) for o in other.types) for t in self.types)
+                and all(
+                    any(
+                        t.is_subtype(o)
+                        # Configs name the class of a dataclass variant
+                        and (not isinstance(t, Struct) or str(t) == str(o))
+                        for o in other.types
+                    )
+                    for t in self.types
+                )
             )
             or (isinstance(other, Option) and self.is_subtype(other.type))
         )
-- 
2.43.0


From c58c7c1eb618cee3238ab961c12878accd56ba32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:49 +0000
Subject: [PATCH 51/56] fix: a literal type of ints that becomes float is a
 compatible change

int becoming float and a literal of ints becoming int are reported as
compatible, the two at once were reported as an error though every config
still loads.
---
 hyperstate/schema/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index 68053be..d953bc7 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -175,7 +175,7 @@ class Literal:
             )
             or (
                 isinstance(other, Primitive)
-                and other.type == "int"
+                and other.type in ("int", "float")
                 and all(isinstance(v, int) for v in self.allowed_values)
             )
         ) or (isinstance(other, Option) and self.is_subtype(other.type))
-- 
2.43.0


From acda303238180b8fa29a84c943d25a6cc8bdb69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:12 +0000
Subject: [PATCH 52/56] fix: rules suggested by check-schema that map values
 are printed as code

MapFieldValue carries the source of its function for the report, which
printed `map_fn=<function ...>` all the same.
---
 hyperstate/schema/rewrite_rule.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hyperstate/schema/rewrite_rule.py b/hyperstate/schema/rewrite_rule.py
index f9eee8a..65a6a92 100644
--- a/hyperstate/schema/rewrite_rule.py
+++ b/hyperstate/schema/rewrite_rule.py
@@ -55,6 +55,11 @@ class MapFieldValue(RewriteRule):
     map_fn: Callable[[Any], Any]
     rendered: Optional[str] = None
 
+    def __repr__(self) -> str:
+        # Rules suggested by the schema checker are printed as code
+        map_fn = self.rendered if self.rendered is not None else repr(self.map_fn)
+        return f"MapFieldValue(field={self.field!r}, map_fn={map_fn})"
+
     def apply(self, state_dict: Any) -> Any:
         path = self.field
         value, present = _remove(state_dict, path)
-- 
2.43.0


From c9de58d190cecc2fadeeb2ad71f6d4cc05181864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:14 +0000
Subject: [PATCH 53/56] fix: check-schema reports new fields with defaults and
 renamed enum variants truthfully

Fields with a default were listed as "new field without default value", and
a renamed variant with its new name twice.
---
 hyperstate/schema/schema_change.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperstate/schema/schema_change.py b/hyperstate/schema/schema_change.py
index 36632e5..661e8ba 100644
--- a/hyperstate/schema/schema_change.py
+++ b/hyperstate/schema/schema_change.py
@@ -94,6 +94,8 @@ class FieldAdded(SchemaChange):
         return None
 
     def diagnostic(self) -> str:
+        if self.has_default:
+            return "new field with default value"
         return "new field without default value"
 
 
@@ -237,7 +239,7 @@ class EnumVariantRenamed(SchemaChange):
         return Severity.INFO
 
     def diagnostic(self) -> str:
-        return f"variant {self.new_variant_name} of {self.enum_name} renamed to {self.new_variant_name}"
+        return f"variant {self.old_variant_name} of {self.enum_name} renamed to {self.new_variant_name}"
 
 
 @dataclass(eq=True, frozen=True)
-- 
2.43.0


From c4b18ed80e7cbc5f9dcd81c01897d65b7dcdcdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:09 +0000
Subject: [PATCH 54/56] fix: class constants (ClassVar) are not config fields

---
 hyperstate/hyperstate.py   |  4 +++-
 hyperstate/schema/types.py |  5 +++--
 hyperstate/serde.py        | 11 ++++++-----
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/hyperstate/hyperstate.py b/hyperstate/hyperstate.py
index f3b84c8..5fec4e9 100644
--- a/hyperstate/hyperstate.py
+++ b/hyperstate/hyperstate.py
@@ -18,6 +18,7 @@ from typing import (
     Union,
 )
 from dataclasses import MISSING, dataclass
+import dataclasses
 import uuid
 from hyperstate.schema.rewrite_rule import WEAK_REF
 from hyperstate.schema.types import Struct, materialize_type
@@ -540,7 +541,8 @@ class ElideDefaults(Serializer):
     def modify_dataclass_attrs(
         self, value: Any, attrs: Dict[str, Any], path: str
     ) -> None:
-        for name, field in value.__class__.__dataclass_fields__.items():
+        for field in dataclasses.fields(value):
+            name = field.name
             if field.default is not MISSING and attrs[name] == field.default:
                 del attrs[name]
             elif (
diff --git a/hyperstate/schema/types.py b/hyperstate/schema/types.py
index d953bc7..3b50a16 100644
--- a/hyperstate/schema/types.py
+++ b/hyperstate/schema/types.py
@@ -283,7 +283,8 @@ def materialize_type(clz: typing.Type[Any]) -> Type:
     elif is_dataclass(clz):
         fields = {}
         field_docs = _find_all_field_docs(clz)
-        for name, field in clz.__dataclass_fields__.items():
+        for field in dataclasses.fields(clz):
+            name = field.name
             if field.default is not dataclasses.MISSING:
                 has_default = True
                 default = field.default
@@ -426,7 +427,7 @@ def plain_value(
             result["!__name__"] = value.__class__.__name__
             if hasattr(value, "upgrade_rules"):
                 result["version"] = value.version()
-        for f in value.__dataclass_fields__:
+        for f in (field.name for field in dataclasses.fields(value)):
             inner = fields[f].type if f in fields else None
             result[f] = plain_value(getattr(value, f), tagged, inner)
         return result
diff --git a/hyperstate/serde.py b/hyperstate/serde.py
index 28c78a3..cb9bde9 100644
--- a/hyperstate/serde.py
+++ b/hyperstate/serde.py
@@ -22,6 +22,7 @@ import inspect
 import math
 import re
 from dataclasses import MISSING, is_dataclass
+import dataclasses
 import typing
 
 import pyron
@@ -88,7 +89,7 @@ def asdict(
                 serializers=serializers,
                 file=field_name if file == "" else f"{file}.{field_name}",
             )
-            for field_name in value.__dataclass_fields__
+            for field_name in (field.name for field in dataclasses.fields(value))
         }
         for serializer in serializers:
             serializer.modify_dataclass_attrs(value, attrs, file)
@@ -273,7 +274,7 @@ def from_dict(
                 f"'{value}' cannot be deserialized as '{clz.__name__}'."
             )
         kwargs = {}
-        remaining_fields = set(clz.__dataclass_fields__.keys())  # type: ignore
+        remaining_fields = {field.name for field in dataclasses.fields(clz)}
         weak_refs = {}
         for field_name, v in value.items():
             if field_name == "!__name__":
@@ -281,14 +282,14 @@ def from_dict(
             if isinstance(v, dict) and WEAK_REF in v:
                 weak_refs[field_name] = v
                 continue
-            field = clz.__dataclass_fields__.get(field_name)  # type: ignore
-            if field is None:
+            if field_name not in remaining_fields:
                 if ignore_extra_fields:
                     continue
                 else:
                     raise DeserializeTypeError(
                         f"{clz.__module__}.{clz.__name__} has no attribute {field_name}."
                     )
+            field = clz.__dataclass_fields__[field_name]  # type: ignore
             remaining_fields.remove(field_name)
             kwargs[field_name] = from_dict(
                 clz=field.type,
@@ -366,7 +367,7 @@ def _try_create_defaults(
                 _try_create_defaults(
                     field.type,
                     _kwargs,
-                    field.type.__dataclass_fields__,
+                    [f.name for f in dataclasses.fields(field.type)],
                     _fpath,
                     weak_refs=weak_ref,
                     deserializers=deserializers,
-- 
2.43.0


From e083b25f94ce1731cd07817994c87c45c77f24e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:17 +0000
Subject: [PATCH 55/56] fix: a schedule that jumps at its first or last point
 does not divide by zero

---
 hyperstate/schedule.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperstate/schedule.py b/hyperstate/schedule.py
index 7594186..dede0ca 100644
--- a/hyperstate/schedule.py
+++ b/hyperstate/schedule.py
@@ -46,6 +46,9 @@ class PiecewiseFunction:
             if x < s.end:
                 break
         assert segment is not None
+        # A jump at the first or last point has no width to rescale by
+        if segment.start == segment.end:
+            return segment.initial_value if x < segment.start else segment.final_value
         rescaled = (x - segment.start) / (segment.end - segment.start)
         if rescaled < 0:
             rescaled = 0
-- 
2.43.0


From d730fd35d5b2b003f03f9cfcf7196c262e850497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:19 +0000
Subject: [PATCH 56/56] fix: reading a field of a shallow copy of a lazy object
 does not make the original lose it

---
 hyperstate/lazy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hyperstate/lazy.py b/hyperstate/lazy.py
index 6ccad09..90b29b5 100644
--- a/hyperstate/lazy.py
+++ b/hyperstate/lazy.py
@@ -72,7 +72,12 @@ class Lazy:
     def __setattr__(self, name: str, value: Any) -> None:
         super(Lazy, self).__setattr__(name, value)
         # An assigned value must not be replaced by the stored one on next access.
-        self.__dict__.get("_unloaded_lazy_fields", {}).pop(name, None)
+        unloaded = self.__dict__.get("_unloaded_lazy_fields", {})
+        if name in unloaded:
+            # Shallow copies of this object share the dict and still have to load the field
+            self.__dict__["_unloaded_lazy_fields"] = {
+                k: v for k, v in unloaded.items() if k != name
+            }
 
     def set_deserialize_ctx(self, key: str, value: Any) -> None:
         """
-- 
2.43.0

