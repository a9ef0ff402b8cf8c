From e5f11e033ba0dee49dc93d0af642b11700432e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:48 +0000
Subject: [PATCH 01/43] fix: accept valid absolute quantities when the
 validation level is fatal

---
 gemd/entity/object/has_quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/object/has_quantities.py b/gemd/entity/object/has_quantities.py
index 5c366eb..d6e9d2b 100644
--- a/gemd/entity/object/has_quantities.py
+++ b/gemd/entity/object/has_quantities.py
@@ -120,6 +120,6 @@ class HasQuantities(object):
                 if level == WarningLevel.WARNING:
                     for message in messages:
                         logger.warning(message)
-                else:
+                elif messages:
                     raise ValueError("; ".join(messages))
             self._absolute_quantity = absolute_quantity
-- 
2.43.0


From 0302db3a86890e7a3b121a84d1cd7ac8118c1d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:48 +0000
Subject: [PATCH 02/43] fix: restore the validation level when its context is
 left by an exception

---
 gemd/entity/bounds_validation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gemd/entity/bounds_validation.py b/gemd/entity/bounds_validation.py
index 3b8c039..3af5cfe 100644
--- a/gemd/entity/bounds_validation.py
+++ b/gemd/entity/bounds_validation.py
@@ -39,7 +39,8 @@ def validation_level(level: WarningLevel):
     global BOUNDS_VALIDATION
     # Swap values and store
     old_value, BOUNDS_VALIDATION = BOUNDS_VALIDATION, WarningLevel(level)
-    yield old_value  # Since we know the new level, the old one may be useful
-
-    # Restore previous value
-    BOUNDS_VALIDATION = old_value
+    try:
+        yield old_value  # Since we know the new level, the old one may be useful
+    finally:
+        # Restore previous value
+        BOUNDS_VALIDATION = old_value
-- 
2.43.0


From 5257a2490f051a41beddbd378643f8078381e9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:21 +0000
Subject: [PATCH 03/43] fix: keep material/process links consistent when a
 process changes hands or is rejected

---
 gemd/entity/object/material_run.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/gemd/entity/object/material_run.py b/gemd/entity/object/material_run.py
index a99fd70..f2c3656 100644
--- a/gemd/entity/object/material_run.py
+++ b/gemd/entity/object/material_run.py
@@ -74,17 +74,15 @@ class MaterialRun(BaseObject, HasSpec, HasProcess, typ="material_run", skip={"_m
 
     @process.setter
     def process(self, process: Union[ProcessRun, LinkByUID]):
+        if process is not None and not isinstance(process, (ProcessRun, LinkByUID)):
+            raise TypeError("process must be a ProcessRun or LinkByUID: {}".format(process))
         if self.process is not None and isinstance(self.process, ProcessRun):
             self.process._output_material = None
-        if process is None:
-            self._process = None
-        elif isinstance(process, LinkByUID):
-            self._process = process
-        elif isinstance(process, ProcessRun):
+        if isinstance(process, ProcessRun):
+            if process.output_material is not None:  # A process has exactly one output
+                process.output_material._process = None
             process._output_material = self
-            self._process = process
-        else:
-            raise TypeError("process must be a ProcessRun or LinkByUID: {}".format(process))
+        self._process = process
 
     @property
     def measurements(self) -> List[MeasurementRunType]:
-- 
2.43.0


From cb6b53ba17af2be0fc737a824cd193d4ccf3cb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 04/43] fix: unlink the reassigned ingredient or measurement
 itself, not an equal sibling

---
 gemd/entity/object/ingredient_run.py  |  4 ++--
 gemd/entity/object/measurement_run.py |  3 ++-
 gemd/entity/setters.py                | 21 ++++++++++++++++++++-
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/gemd/entity/object/ingredient_run.py b/gemd/entity/object/ingredient_run.py
index 4be4a69..e6e5449 100644
--- a/gemd/entity/object/ingredient_run.py
+++ b/gemd/entity/object/ingredient_run.py
@@ -10,7 +10,7 @@ from gemd.entity.value.continuous_value import ContinuousValue
 from gemd.entity.dict_serializable import DictSerializable
 from gemd.entity.file_link import FileLink
 from gemd.entity.link_by_uid import LinkByUID
-from gemd.entity.setters import validate_list
+from gemd.entity.setters import remove_exact, validate_list
 
 from typing import Optional, Union, Iterable, List, Mapping, Type, Any
 
@@ -125,7 +125,7 @@ class IngredientRun(BaseObject,
     def process(self, process: Union[ProcessRun, LinkByUID]):
         if isinstance(self._process, ProcessRun):
             # This could throw an exception if it's not in the list, but then something else broke
-            self._process.ingredients.remove(self)
+            remove_exact(self._process.ingredients, self)
 
         if process is None or isinstance(process, (LinkByUID, ProcessRun)):
             self._process = process
diff --git a/gemd/entity/object/measurement_run.py b/gemd/entity/object/measurement_run.py
index 60e4230..20b4841 100644
--- a/gemd/entity/object/measurement_run.py
+++ b/gemd/entity/object/measurement_run.py
@@ -13,6 +13,7 @@ from gemd.entity.attribute.property import Property
 from gemd.entity.source.performed_source import PerformedSource
 from gemd.entity.file_link import FileLink
 from gemd.entity.link_by_uid import LinkByUID
+from gemd.entity.setters import remove_exact
 
 from typing import Optional, Union, Iterable, Mapping, Type
 
@@ -93,7 +94,7 @@ class MeasurementRun(BaseObject, HasMaterial, HasSpec, HasConditions, HasPropert
     def material(self, value: Union[MaterialRun, LinkByUID]):
         if isinstance(self._material, MaterialRun):
             # This could throw an exception if it's not in the list, but then something else broke
-            self._material.measurements.remove(self)
+            remove_exact(self._material.measurements, self)
 
         if value is None or isinstance(value, (MaterialRun, LinkByUID)):
             self._material = value
diff --git a/gemd/entity/setters.py b/gemd/entity/setters.py
index 6a86e64..35c04e0 100644
--- a/gemd/entity/setters.py
+++ b/gemd/entity/setters.py
@@ -3,7 +3,7 @@ from gemd.entity.valid_list import ValidList
 
 from typing import Union, Iterable, Optional, Callable, Type, TypeVar
 
-__all__ = ["validate_list", "validate_str"]
+__all__ = ["validate_list", "validate_str", "remove_exact"]
 
 T = TypeVar('T')
 
@@ -62,3 +62,22 @@ def validate_str(obj) -> str:
     if not isinstance(obj, str):
         raise TypeError("Expected a string but got {} instead".format(type(obj)))
     return obj
+
+
+def remove_exact(seq: list, obj) -> None:
+    """
+    Remove obj itself from a list, as opposed to the first element that happens to equal it.
+
+    Parameters
+    ----------
+    seq: list
+        The list to remove the object from
+    obj: Any
+        The object to remove.  If it is not in the list, remove its first equal (e.g., a link).
+
+    """
+    index = next((i for i, x in enumerate(seq) if x is obj), None)
+    if index is None:
+        seq.remove(obj)
+    else:
+        del seq[index]
-- 
2.43.0


From 40ead7c658e67d0eb6cca6adaf5a07b97c6bb307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 05/43] fix: keep the existing link of an ingredient or
 measurement when a new one is rejected

---
 gemd/entity/object/ingredient_run.py  | 8 ++++----
 gemd/entity/object/measurement_run.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/gemd/entity/object/ingredient_run.py b/gemd/entity/object/ingredient_run.py
index e6e5449..48a4980 100644
--- a/gemd/entity/object/ingredient_run.py
+++ b/gemd/entity/object/ingredient_run.py
@@ -123,11 +123,11 @@ class IngredientRun(BaseObject,
 
     @process.setter
     def process(self, process: Union[ProcessRun, LinkByUID]):
-        if isinstance(self._process, ProcessRun):
-            # This could throw an exception if it's not in the list, but then something else broke
-            remove_exact(self._process.ingredients, self)
-
         if process is None or isinstance(process, (LinkByUID, ProcessRun)):
+            if isinstance(self._process, ProcessRun):
+                # This could throw an exception if it's not in the list,
+                # but then something else broke
+                remove_exact(self._process.ingredients, self)
             self._process = process
             if isinstance(process, ProcessRun):
                 process.ingredients.append(self)
diff --git a/gemd/entity/object/measurement_run.py b/gemd/entity/object/measurement_run.py
index 20b4841..85bcc3e 100644
--- a/gemd/entity/object/measurement_run.py
+++ b/gemd/entity/object/measurement_run.py
@@ -92,11 +92,11 @@ class MeasurementRun(BaseObject, HasMaterial, HasSpec, HasConditions, HasPropert
 
     @material.setter
     def material(self, value: Union[MaterialRun, LinkByUID]):
-        if isinstance(self._material, MaterialRun):
-            # This could throw an exception if it's not in the list, but then something else broke
-            remove_exact(self._material.measurements, self)
-
         if value is None or isinstance(value, (MaterialRun, LinkByUID)):
+            if isinstance(self._material, MaterialRun):
+                # This could throw an exception if it's not in the list,
+                # but then something else broke
+                remove_exact(self._material.measurements, self)
             self._material = value
             if isinstance(value, MaterialRun):
                 value.measurements.append(self)
-- 
2.43.0


From 73e17a72ad2f4eafc9df125e04eaa32385a5e9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 06/43] fix: do not exhaust one-shot iterables while validating
 the contents of a list

---
 gemd/entity/valid_list.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index 5264782..ec8cca7 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -42,16 +42,16 @@ class ValidList(list):
         for elem in self._content_type:
             if not isinstance(elem, type):
                 raise TypeError('Content filters must be types')
-        for value in _list:
+        cache = list(_list)  # So that we don't exhaust an iterator or edit a passed reference
+        for value in cache:
             self._validate(value)
 
         self._trigger = None
-        cache = list(_list)
         if trigger is not None:
             if not callable(trigger):
                 raise TypeError('Triggers must be callable')
             self._trigger = trigger
-            for i, value in enumerate(_list):
+            for i, value in enumerate(cache):
                 result = self._trigger(value)
                 if result is not None:
                     cache[i] = result
@@ -149,12 +149,12 @@ class ValidList(list):
 
         """
         if isinstance(list_, Iterable):
-            for value in list_:
+            cache = list(list_)  # So that we don't exhaust an iterator or edit a passed reference
+            for value in cache:
                 self._validate(value)
         else:
             raise TypeError("'{}' object is not iterable".format(type(list_)))
 
-        cache = list(list_)  # So that we don't edit a passed reference
         if self._trigger is not None:
             for i, value in enumerate(cache):
                 result = self._trigger(value)
-- 
2.43.0


From be1b563f04d05ff3f1e66c1cd28618c83c926513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 07/43] fix: validate elements added to a list with +=

---
 gemd/entity/valid_list.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index ec8cca7..2c03b48 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -163,6 +163,11 @@ class ValidList(list):
 
         super().extend(cache)
 
+    def __iadd__(self, list_):
+        """Implement self += list_, with the same validation as extend."""
+        self.extend(list_)
+        return self
+
     def insert(self, i, value):
         """
         Insert a value at a given position, if it is one of the allowed types.
-- 
2.43.0


From f0e49eecdd9129e60c7d08ce985a21c048c6f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:18 +0000
Subject: [PATCH 08/43] fix: validate the elements, not the container, when
 assigning to a slice of a list

---
 gemd/entity/valid_list.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gemd/entity/valid_list.py b/gemd/entity/valid_list.py
index 2c03b48..5e05443 100644
--- a/gemd/entity/valid_list.py
+++ b/gemd/entity/valid_list.py
@@ -100,11 +100,14 @@ class ValidList(list):
             `value` is inserted into the list at position `index`, if it is valid.
 
         """
-        self._validate(value)
-        if self._trigger is not None:
-            result = self._trigger(value)
-            if result is not None:
-                value = result
+        if isinstance(index, slice):  # Each of the elements gets validated
+            value = ValidList(value, self._content_type, self._trigger)
+        else:
+            self._validate(value)
+            if self._trigger is not None:
+                result = self._trigger(value)
+                if result is not None:
+                    value = result
         super().__setitem__(index, value)
 
     def append(self, value):
-- 
2.43.0


From a34efbca290a32f1823bd30acfaedd67322212cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:24 +0000
Subject: [PATCH 09/43] fix: let setdefault of a case-insensitive dictionary
 find and register its key

---
 gemd/entity/case_insensitive_dict.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/gemd/entity/case_insensitive_dict.py b/gemd/entity/case_insensitive_dict.py
index 6aac2b3..0e7794b 100644
--- a/gemd/entity/case_insensitive_dict.py
+++ b/gemd/entity/case_insensitive_dict.py
@@ -127,6 +127,28 @@ class CaseInsensitiveDict(dict):
         del self.lowercase_dict[result[0].lower()]
         return result
 
+    def setdefault(self, key: str, default: Any = None) -> Any:
+        """
+        Get the value for a given case-insensitive key, storing the default if it is not present.
+
+        Parameters
+        ----------
+        key: str
+            The key to look up (possibly with a different casing).
+
+        default: Any
+            The value to store and return if the key is not present.
+
+        Returns
+        -------
+        Any
+            The value associated with the case-insensitive version of `key`
+
+        """
+        if key not in self:
+            self[key] = default
+        return self[key]
+
     def copy(self) -> 'CaseInsensitiveDict':
         """
         Return a shallow copy of the dictionary.
-- 
2.43.0


From 2097c0f55c96622113aaf091c29808489192834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:24 +0000
Subject: [PATCH 10/43] fix: make update of a case-insensitive dictionary
 accept pairs and verify all keys first

---
 gemd/entity/case_insensitive_dict.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/gemd/entity/case_insensitive_dict.py b/gemd/entity/case_insensitive_dict.py
index 0e7794b..b89aae7 100644
--- a/gemd/entity/case_insensitive_dict.py
+++ b/gemd/entity/case_insensitive_dict.py
@@ -179,25 +179,25 @@ class CaseInsensitiveDict(dict):
             Alternatively, the set of keyword arguments
 
         """
-        if mapping is None:
-            mapping = dict()
-            no_mapping = True
-        else:
-            no_mapping = False
-        for key in list(mapping.keys()) + list(kwargs.keys()):
+        new = CaseInsensitiveDict(mapping)  # Verifies that the new keys are mutually consistent
+        for key, value in kwargs.items():
+            new[key] = value
+        for key in new:
             if key.lower() in self.lowercase_dict:
                 prev = self.lowercase_dict[key.lower()]
                 if prev != key:
                     raise ValueError(
                         "Key '{}' already exists in dict with different case: "
                         "'{}'".format(key, prev))
-        if no_mapping:
-            super().update(**kwargs)
-        else:
-            super().update(mapping, **kwargs)
-        for key in list(mapping.keys()) + list(kwargs.keys()):
+        super().update(new)
+        for key in new:
             self._register_key(key)
 
+    def __ior__(self, mapping: Mapping[str, Any]) -> 'CaseInsensitiveDict':
+        """Implement self |= mapping, with the same verification as update."""
+        self.update(mapping)
+        return self
+
     def _register_key(self, key: str) -> None:
         """
         Register a key to the dictionary.
-- 
2.43.0


From c3f8cfef97ad7e3cd10caba041bcd91768c6223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:24 +0000
Subject: [PATCH 11/43] fix: give copied and pickled case-insensitive
 dictionaries their own key index

---
 gemd/entity/case_insensitive_dict.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gemd/entity/case_insensitive_dict.py b/gemd/entity/case_insensitive_dict.py
index b89aae7..838d3d3 100644
--- a/gemd/entity/case_insensitive_dict.py
+++ b/gemd/entity/case_insensitive_dict.py
@@ -161,6 +161,10 @@ class CaseInsensitiveDict(dict):
         """
         return CaseInsensitiveDict(super().copy())
 
+    def __reduce__(self) -> Tuple:
+        """Rebuild from the items, so that copies and pickles have an index of their own."""
+        return type(self), (dict(self),)
+
     def update(self, mapping: Optional[Mapping[str, Any]] = None, **kwargs) -> None:
         """
         Update the dictionary with the key/value pairs from other, overwriting existing keys.
-- 
2.43.0


From cb726dc9127bb2a2d277b6d887d27eee9877c6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:24 +0000
Subject: [PATCH 12/43] fix: do not conflate equal but distinct plain values
 and tuples when substituting

---
 gemd/util/impl.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gemd/util/impl.py b/gemd/util/impl.py
index 3e808a8..e297f87 100644
--- a/gemd/util/impl.py
+++ b/gemd/util/impl.py
@@ -107,12 +107,14 @@ def _substitute(thing: Any,
     """
     if visited is None:
         visited = {}
-    if thing.__hash__ is not None and thing in visited:
+    # Plain values can be equal without being interchangeable (e.g., 1, 1.0 and True)
+    memoize = cached_isinstance(thing, DictSerializable)
+    if memoize and thing in visited:
         return visited[thing]
 
     if applies(thing):
         replacement = sub(thing)
-        if thing.__hash__ is not None:
+        if memoize:
             visited[thing] = replacement
     else:
         replacement = thing
@@ -131,7 +133,7 @@ def _substitute(thing: Any,
     else:
         new = replacement
 
-    if thing.__hash__ is not None:
+    if memoize:
         visited[thing] = new
 
     return new
@@ -158,8 +160,8 @@ def _substitute_inplace(thing: Any,
 
     """
     def _key(obj):
-        if cached_isinstance(obj, (float, int, str)):
-            return None
+        if cached_isinstance(obj, (float, int, str, tuple)):
+            return None  # These can be equal without being interchangeable
         elif obj.__hash__ is not None:
             return obj
         elif cached_isinstance(obj, Iterable) and not cached_isinstance(obj, ByteString):
@@ -183,7 +185,6 @@ def _substitute_inplace(thing: Any,
             thing[i] = _substitute_inplace(x, sub, applies, visited)
     elif cached_isinstance(thing, Tuple):  # Tuples are immutable; regenerate
         thing = tuple(_substitute_inplace(x, sub, applies, visited) for x in thing)
-        visited[orig_key] = thing  # We mutated it
     elif cached_isinstance(thing, Mapping):  # Change dict in place, both keys & values
         remove = set()  # Store todos because can't mutate a dict in a loop
         update = dict()
-- 
2.43.0


From 24334cd25680db8aedffb72d305f9516196862ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:24 +0000
Subject: [PATCH 13/43] fix: traverse tuples that contain unhashable elements

---
 gemd/util/impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemd/util/impl.py b/gemd/util/impl.py
index e297f87..2c9a828 100644
--- a/gemd/util/impl.py
+++ b/gemd/util/impl.py
@@ -419,7 +419,7 @@ def recursive_foreach(obj: Union[Iterable, DictSerializable],
 
     while queue:
         this = queue.pop()
-        if this.__hash__ is not None:
+        if this.__hash__ is not None and not cached_isinstance(this, tuple):
             if this in seen:
                 continue
             else:
@@ -478,7 +478,7 @@ def recursive_flatmap(obj: Union[Iterable, DictSerializable],
     while queue:
         this = queue.pop()
 
-        if this.__hash__ is not None:
+        if this.__hash__ is not None and not cached_isinstance(this, tuple):
             if this in seen:
                 continue
             else:
-- 
2.43.0


From 740f7742b893ab4d23e310edba4df3a2a638c8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:24 +0000
Subject: [PATCH 14/43] fix: count repeated elements when comparing the lists
 of two objects

---
 gemd/entity/base_entity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index 06d169e..d7ed76e 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -188,8 +188,9 @@ class BaseEntity(DictSerializable):
                             elif result is None:
                                 # Don't know yet; pass as False will appear elsewhere
                                 found = None
-                    else:
-                        found = x in that_list
+                    elif x in that_list:
+                        found = True
+                        i_found = that_list.index(x)
                     if found is True:
                         if i_found is not None:
                             del that_list[i_found]
-- 
2.43.0


From a586dade54899bc5f8f843f93e790ad26c7ce5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:24 +0000
Subject: [PATCH 15/43] fix: accept whole numbers beyond float precision as
 integer bounds

---
 gemd/entity/bounds/integer_bounds.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/bounds/integer_bounds.py b/gemd/entity/bounds/integer_bounds.py
index bd27b99..93d06fa 100644
--- a/gemd/entity/bounds/integer_bounds.py
+++ b/gemd/entity/bounds/integer_bounds.py
@@ -37,7 +37,7 @@ class IntegerBounds(BaseBounds, typ="integer_bounds"):
     @lower_bound.setter
     def lower_bound(self, value: int):
         """Set the lower endpoint of the permitted range."""
-        if value is None or not isfinite(value) or int(value) != float(value):
+        if value is None or not isfinite(value) or int(value) != value:
             raise ValueError(f"Lower bound must be given, integer and finite: {value}")
         if self.upper_bound is not None and value > self.upper_bound:
             raise ValueError(f"Upper bound ({self.upper_bound}) must be "
@@ -52,7 +52,7 @@ class IntegerBounds(BaseBounds, typ="integer_bounds"):
     @upper_bound.setter
     def upper_bound(self, value: int):
         """Set the upper endpoint of the permitted range."""
-        if value is None or not isfinite(value) or int(value) != float(value):
+        if value is None or not isfinite(value) or int(value) != value:
             raise ValueError(f"Upper bound must be given, integer and finite: {value}")
         if self.lower_bound is not None and value < self.lower_bound:
             raise ValueError(f"Upper bound ({value}) must be "
-- 
2.43.0


From 8809b7c49b8f3830ece3ab5d7ea1e84f06112c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:24 +0000
Subject: [PATCH 16/43] fix: allow setting the value of an attribute whose
 template is a link

---
 gemd/entity/attribute/base_attribute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/attribute/base_attribute.py b/gemd/entity/attribute/base_attribute.py
index c38aa02..8820589 100644
--- a/gemd/entity/attribute/base_attribute.py
+++ b/gemd/entity/attribute/base_attribute.py
@@ -77,7 +77,7 @@ class BaseAttribute(DictSerializable):
         if value is None:
             self._value = None
         elif isinstance(value, BaseValue):
-            if self.template is not None:
+            if isinstance(self.template, AttributeTemplate):
                 self._check(self.template, value)
             self._value = value
         else:
-- 
2.43.0


From 32c7c397420866a04a97fea4d64b9c99c4e5c626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:24 +0000
Subject: [PATCH 17/43] fix: validate attributes by name against templates that
 include links

---
 gemd/entity/template/has_condition_templates.py | 3 ++-
 gemd/entity/template/has_parameter_templates.py | 3 ++-
 gemd/entity/template/has_property_templates.py  | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gemd/entity/template/has_condition_templates.py b/gemd/entity/template/has_condition_templates.py
index 6714b10..d8074ef 100644
--- a/gemd/entity/template/has_condition_templates.py
+++ b/gemd/entity/template/has_condition_templates.py
@@ -77,7 +77,8 @@ class HasConditionTemplates(HasDependencies):
             attr, bnd = next((x for x in self.conditions if condition.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.conditions if condition.name == x[0].name),
+            attr, bnd = next((x for x in self.conditions
+                              if isinstance(x[0], ConditionTemplate) and condition.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
diff --git a/gemd/entity/template/has_parameter_templates.py b/gemd/entity/template/has_parameter_templates.py
index 423c3eb..a004ca1 100644
--- a/gemd/entity/template/has_parameter_templates.py
+++ b/gemd/entity/template/has_parameter_templates.py
@@ -77,7 +77,8 @@ class HasParameterTemplates(HasDependencies):
             attr, bnd = next((x for x in self.parameters if parameter.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.parameters if parameter.name == x[0].name),
+            attr, bnd = next((x for x in self.parameters
+                              if isinstance(x[0], ParameterTemplate) and parameter.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
diff --git a/gemd/entity/template/has_property_templates.py b/gemd/entity/template/has_property_templates.py
index 0495fd2..818da97 100644
--- a/gemd/entity/template/has_property_templates.py
+++ b/gemd/entity/template/has_property_templates.py
@@ -79,7 +79,8 @@ class HasPropertyTemplates(HasDependencies):
             attr, bnd = next((x for x in self.properties if prop.template == x[0]),
                              (None, None))
         else:
-            attr, bnd = next((x for x in self.properties if prop.name == x[0].name),
+            attr, bnd = next((x for x in self.properties
+                              if isinstance(x[0], PropertyTemplate) and prop.name == x[0].name),
                              (None, None))
 
         if bnd is not None:
-- 
2.43.0


From d6cf52eb78e95f40d9937b4ddf4cec7e03defaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:24 +0000
Subject: [PATCH 18/43] fix: do not exhaust one-shot iterables of attribute
 templates

---
 gemd/entity/template/has_condition_templates.py | 1 +
 gemd/entity/template/has_parameter_templates.py | 1 +
 gemd/entity/template/has_property_templates.py  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/gemd/entity/template/has_condition_templates.py b/gemd/entity/template/has_condition_templates.py
index d8074ef..e9ae2b4 100644
--- a/gemd/entity/template/has_condition_templates.py
+++ b/gemd/entity/template/has_condition_templates.py
@@ -64,6 +64,7 @@ class HasConditionTemplates(HasDependencies):
 
         """
         if isinstance(conditions, Iterable):
+            conditions = list(conditions)  # It may be a one-shot iterator
             if any(isinstance(x, BaseBounds) for x in conditions):
                 conditions = [conditions]  # It's a template/bounds tuple (probably)
         self._conditions = validate_list(conditions,
diff --git a/gemd/entity/template/has_parameter_templates.py b/gemd/entity/template/has_parameter_templates.py
index a004ca1..a271859 100644
--- a/gemd/entity/template/has_parameter_templates.py
+++ b/gemd/entity/template/has_parameter_templates.py
@@ -64,6 +64,7 @@ class HasParameterTemplates(HasDependencies):
 
         """
         if isinstance(parameters, Iterable):
+            parameters = list(parameters)  # It may be a one-shot iterator
             if any(isinstance(x, BaseBounds) for x in parameters):
                 parameters = [parameters]  # It's a template/bounds tuple (probably)
         self._parameters = validate_list(parameters,
diff --git a/gemd/entity/template/has_property_templates.py b/gemd/entity/template/has_property_templates.py
index 818da97..5ee4534 100644
--- a/gemd/entity/template/has_property_templates.py
+++ b/gemd/entity/template/has_property_templates.py
@@ -62,6 +62,7 @@ class HasPropertyTemplates(HasDependencies):
 
         """
         if isinstance(properties, Iterable):
+            properties = list(properties)  # It may be a one-shot iterator
             if any(isinstance(x, BaseBounds) for x in properties):
                 properties = [properties]  # It's a template/bounds tuple (probably)
         self._properties = validate_list(properties,
-- 
2.43.0


From 9ad8adf096c58b953baa47834149503dd6d89cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:24 +0000
Subject: [PATCH 19/43] fix: keep the previous categories or components when an
 assignment is rejected

---
 gemd/entity/bounds/categorical_bounds.py | 11 +++++------
 gemd/entity/bounds/composition_bounds.py | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/gemd/entity/bounds/categorical_bounds.py b/gemd/entity/bounds/categorical_bounds.py
index 20be8ac..8643918 100644
--- a/gemd/entity/bounds/categorical_bounds.py
+++ b/gemd/entity/bounds/categorical_bounds.py
@@ -32,16 +32,15 @@ class CategoricalBounds(BaseBounds, typ="categorical_bounds"):
     @categories.setter
     def categories(self, categories: Optional[Iterable[str]]):
         if categories is None:
-            self._categories = set()
+            categories = set()
         elif isinstance(categories, array_like()):
-            self._categories = set(categories)
-        elif isinstance(categories, set):
-            self._categories = categories
-        else:
+            categories = set(categories)
+        elif not isinstance(categories, set):
             raise ValueError("Categories must be a list, tuple, or set")
 
-        if not all(isinstance(x, str) for x in self.categories):
+        if not all(isinstance(x, str) for x in categories):
             raise ValueError("All the categories must be strings")
+        self._categories = categories
 
     def contains(self, bounds: Union[BaseBounds, BaseValueType]) -> bool:
         """
diff --git a/gemd/entity/bounds/composition_bounds.py b/gemd/entity/bounds/composition_bounds.py
index 3b2ff8f..df83ee8 100644
--- a/gemd/entity/bounds/composition_bounds.py
+++ b/gemd/entity/bounds/composition_bounds.py
@@ -34,16 +34,15 @@ class CompositionBounds(BaseBounds, typ="composition_bounds"):
     def components(self, value: Iterable[str]):
         """Set collection of the components that are allowed in the composition."""
         if value is None:
-            self._components = set()
+            value = set()
         elif isinstance(value, array_like()):
-            self._components = set(value)
-        elif isinstance(value, set):
-            self._components = value
-        else:
+            value = set(value)
+        elif not isinstance(value, set):
             raise ValueError("Components must be a list, tuple, or set: {}".format(value))
 
-        if not all(isinstance(x, str) for x in self.components):
+        if not all(isinstance(x, str) for x in value):
             raise ValueError("All the components must be strings")
+        self._components = value
 
     def contains(self, bounds: Union[BaseBounds, BaseValueType]) -> bool:
         """
-- 
2.43.0


From 6a497238ae61ef1e27b444eaa5211fb458582155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:24 +0000
Subject: [PATCH 20/43] fix: only touch the prefix when normalizing an InChI

---
 gemd/entity/value/inchi_value.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/value/inchi_value.py b/gemd/entity/value/inchi_value.py
index 4e7ba26..df326e8 100644
--- a/gemd/entity/value/inchi_value.py
+++ b/gemd/entity/value/inchi_value.py
@@ -32,11 +32,11 @@ class InChI(MolecularValue, typ="inchi"):
             self._inchi = None
         elif isinstance(value, str):
             if value.lower().startswith('1s/'):
-                value = value.replace(value[:2], 'InChI=1S')
+                value = f"InChI=1S{value[2:]}"
             elif not value.lower().startswith('inchi'):
                 value = f"InChI=1S/{value}"
             elif not value.startswith('InChI'):
-                value = value.replace(value[:5], 'InChI')
+                value = f"InChI{value[5:]}"
             self._inchi = value
         else:
             raise TypeError("InChI must be given as a string; got {}".format(type(value)))
-- 
2.43.0


From 4ecd75d98ed61e670fed591521b205be3a18ff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:24 +0000
Subject: [PATCH 21/43] fix: accept integer absolute quantities in add_edge, as
 documented

---
 gemd/builders/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/builders/impl.py b/gemd/builders/impl.py
index 395755d..add55b9 100644
--- a/gemd/builders/impl.py
+++ b/gemd/builders/impl.py
@@ -174,7 +174,7 @@ def add_edge(input_material: MaterialRun,
         my_ingredient_run.volume_fraction = volume_fraction
 
     if absolute_quantity is not None:
-        if isinstance(absolute_quantity, float):
+        if isinstance(absolute_quantity, (int, float)):
             if absolute_units is None:
                 raise ValueError("Absolute Units are required if Absolute Quantity is not a Value")
             absolute_quantity = NominalReal(nominal=absolute_quantity, units=absolute_units)
-- 
2.43.0


From b4e98621c05e4619a20893533734b390880577ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:38 +0000
Subject: [PATCH 22/43] fix: spell the scope of a link as the linked object
 does

Scopes ignore case, but indexes are keyed by the object's own spelling, so a link made with another
one could not be substituted back.
---
 gemd/entity/base_entity.py | 1 +
 gemd/entity/link_by_uid.py | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index d7ed76e..ccbf639 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -103,6 +103,7 @@ class BaseEntity(DictSerializable):
         if uid is None:
             raise ValueError(f"{type(self)} {self.name} has no uid with scope {scope}.")
 
+        scope = next(x for x in self.uids if x.lower() == scope.lower())  # Use our own spelling
         return LinkByUID(scope=scope, id=uid)
 
     def all_dependencies(self) -> Set[Union[BaseEntityType, LinkByUIDType]]:
diff --git a/gemd/entity/link_by_uid.py b/gemd/entity/link_by_uid.py
index b8c10c3..23c3bf8 100644
--- a/gemd/entity/link_by_uid.py
+++ b/gemd/entity/link_by_uid.py
@@ -56,8 +56,8 @@ class LinkByUID(DictSerializable, typ="link_by_uid"):
         if scope is None:
             scope = "auto"  # set default
 
-        if scope in entity.uids:
-            uid = entity.uids[scope]
+        if scope in entity.uids:  # Use the spelling of the entity, since scopes ignore case
+            scope, uid = next((s, i) for s, i in entity.uids.items() if s.lower() == scope.lower())
         else:
             if not entity.uids:
                 entity.add_uid(scope, str(uuid.uuid4()))
-- 
2.43.0


From 998583ee8fce3508c06b17c56d3551013ed82d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:13 +0000
Subject: [PATCH 23/43] fix: match each element of a list at most once when
 comparing objects in a cycle

An element whose comparison was still in progress was accepted without being consumed, so that
equality was not symmetric.
---
 gemd/entity/base_entity.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index ccbf639..ccdc052 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -177,27 +177,23 @@ class BaseEntity(DictSerializable):
 
                 # Finally crawl and compare
                 for x in this_list:
-                    found = False
                     i_found = None
                     if isinstance(x, BaseEntity):
-                        for i_found, y in enumerate(that_list):
+                        for i, y in enumerate(that_list):
                             # Unless something really broke, y is a BaseEntity
                             result = BaseEntity._cached_equals(x, y, cache=cache)
                             if result is True:
-                                found = True
+                                i_found = i
                                 break
-                            elif result is None:
+                            elif result is None and i_found is None:
                                 # Don't know yet; pass as False will appear elsewhere
-                                found = None
+                                i_found = i
                     elif x in that_list:
-                        found = True
                         i_found = that_list.index(x)
-                    if found is True:
-                        if i_found is not None:
-                            del that_list[i_found]
-                    elif found is False:
+                    if i_found is None:
                         cache[cache_key] = False  # Mark as failed
                         return False
+                    del that_list[i_found]  # Each element can only be matched once
 
             elif this_value != that_value:  # __eq__ should be cheap
                 cache[cache_key] = False  # Mark as failed
-- 
2.43.0


From 150a72b8e3456b55216e3fe162dbce607f267580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:05 +0000
Subject: [PATCH 24/43] fix: refuse to update molecular structure bounds with
 another kind of bounds or value

---
 gemd/entity/bounds/molecular_structure_bounds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/bounds/molecular_structure_bounds.py b/gemd/entity/bounds/molecular_structure_bounds.py
index 4586531..cbaaa73 100644
--- a/gemd/entity/bounds/molecular_structure_bounds.py
+++ b/gemd/entity/bounds/molecular_structure_bounds.py
@@ -92,7 +92,7 @@ class MolecularStructureBounds(BaseBounds, typ="molecular_structure_bounds"):
             :func:`~gemd.entity.base_bounds.BaseBounds._to_bounds` method.
 
         """
-        pass  # This is a no-op for Molecular structure
+        self.union(*others)  # Verifies typing; otherwise a no-op for Molecular structure
 
     def as_dict(self):
         """
-- 
2.43.0


From 891d4e7ded7f89639964702eb0a10189556976ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:05 +0000
Subject: [PATCH 25/43] fix: reject probabilities that are not a number

---
 gemd/entity/value/discrete_categorical.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/value/discrete_categorical.py b/gemd/entity/value/discrete_categorical.py
index 6d3c1c1..fcb6873 100644
--- a/gemd/entity/value/discrete_categorical.py
+++ b/gemd/entity/value/discrete_categorical.py
@@ -42,7 +42,7 @@ class DiscreteCategorical(CategoricalValue, typ="discrete_categorical"):
         elif isinstance(probabilities, str):
             self._probabilities = {validate_str(probabilities): 1.0}
         elif isinstance(probabilities, dict):
-            if abs(sum(probabilities.values()) - 1.0) > 1.0e-9:
+            if not abs(sum(probabilities.values()) - 1.0) <= 1.0e-9:  # Also rejects nan
                 raise ValueError("probabilities must sum to 1.0")
             self._probabilities = {validate_str(k): v for k, v in probabilities.items()}
         else:
-- 
2.43.0


From 3193a34968e05bb3c59ff2edd8785692a4125f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:05 +0000
Subject: [PATCH 26/43] fix: keep the limits of real bounds in order when a
 unit conversion reverses them

---
 gemd/entity/bounds/real_bounds.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gemd/entity/bounds/real_bounds.py b/gemd/entity/bounds/real_bounds.py
index 041d015..3c95d23 100644
--- a/gemd/entity/bounds/real_bounds.py
+++ b/gemd/entity/bounds/real_bounds.py
@@ -199,6 +199,7 @@ class RealBounds(BaseBounds, typ="real_bounds"):
                 self.lower_bound, self.default_units, target_units)
             upper_bound = units.convert_units(
                 self.upper_bound, self.default_units, target_units)
-            return lower_bound, upper_bound
+            # Units with a negative scaling factor reverse the order
+            return min(lower_bound, upper_bound), max(lower_bound, upper_bound)
         except units.IncompatibleUnitsError:
             return None, None
-- 
2.43.0


From dc07be49fc4a609b17a079030278eb48b27cc994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:51 +0000
Subject: [PATCH 27/43] fix: replace scaling factors where they occur in a
 unit, and only there

Each scaled term was replaced wherever its text occurred, so 'kg / 2 m / 2 ms' became kg / (2 m)**2 and 'm * 2 * s**2' was
rejected; '.5' was read back as '-5', '5.' could not be read back, and 'm / 1 s' was taken as m * s.
---
 gemd/units/impl.py | 76 ++++++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 40 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index fcc1ec0..6544290 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -6,7 +6,7 @@ import os
 from pathlib import Path
 import re
 from tempfile import TemporaryDirectory
-from typing import Union, List, Tuple, Generator, Any
+from typing import Union, List, Tuple, Generator, Any, Optional
 
 from pint import UnitRegistry, register_unit_format
 try:  # Pint 0.23 migrated the location of this method, and augmented it
@@ -117,13 +117,13 @@ def _scaling_find_blocks(token_stream: Generator[TokenInfo, Any, None]) -> List[
 def _scaling_identify_factors(
         input_string: str,
         blocks: List[List[TokenInfo]]
-) -> List[Tuple[str, str, str]]:
+) -> List[Tuple[int, int, str, Optional[str]]]:
     """
     Supporting routine for _scaling_preprocessor; blocks -> scaling terms.
 
     Takes the input_string and the blocks output by _scaling_find_blocks and
-    returns a tuple of the substrings that contain scaling factors, the scaling
-    factor itself, and the unit string.
+    returns a tuple of where the term with a scaling factor starts and ends, the
+    scaling factor itself (in a normalized notation), and the unit string.
 
     """
     todo = []
@@ -141,13 +141,17 @@ def _scaling_identify_factors(
                 )
             if i_name is not None and i_name < position:
                 raise ValueError(f"Scaling factor ({value}) follows unit in {input_string}")
-            if float(value) != 1.0 and float(value) != 0.0:  # Don't create definitions for 0 or 1
-                block_string = input_string[block[0].start[1]:block[-1].end[1]]
-                if i_name is None:
-                    unit_string = None
-                else:
-                    unit_string = input_string[block[position + 1].start[1]:block[i_name].end[1]]
-                todo.append((block_string, value, unit_string))
+            number = re.sub(r"\.(?=$|[eE])", "", re.sub(r"^(?=\.)", "0", re.sub(r"[_+]", "", value)))
+            if sum(t.string == "-" for t in block[:position]) % 2 == 1:
+                number = "-" + number
+            if i_name is None:
+                i_last, unit_string = position, None
+            else:
+                i_last = i_name
+                unit_string = input_string[block[position + 1].start[1]:block[i_name].end[1]]
+            # Don't create definitions for 0 or a plain 1
+            if float(number) != 0.0 and (float(number) != 1.0 or i_last == position + 1):
+                todo.append((block[0].start[1], block[i_last].end[1], number, unit_string))
         elif len(numbers) > 1:
             raise ValueError(
                 f"Replicate scaling factor ({[n[1] for n in numbers]}) in {input_string}"
@@ -156,7 +160,8 @@ def _scaling_identify_factors(
     return todo
 
 
-def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[str, str, str]]) -> str:
+def _scaling_store_and_mangle(input_string: str,
+                              todo: List[Tuple[int, int, str, Optional[str]]]) -> str:
     """
     Supporting routine for _scaling_preprocessor; scaling terms -> updated input_string.
 
@@ -164,31 +169,21 @@ def _scaling_store_and_mangle(input_string: str, todo: List[Tuple[str, str, str]
     creating an entry for each in the registry.
 
     """
-    for scaled_term, number_string, unit_string in todo:
-        regex = rf"(?<![-+0-9.]){re.escape(scaled_term)}(?![0-9.])"
-        stripped = re.sub(
-            r"(?<=\d)_(?=\d)", "", re.sub(r"[+\s]+", "", scaled_term).replace("--", "")
-        )
-
-        if unit_string is not None:
-            stripped_unit = re.sub(
-                r"(?<!0)(?=\.)", "0", re.sub(r"[+\s]+", "", unit_string)
-            ).replace("--", "")
-            long_unit = f"{_REGISTRY.parse_units(stripped_unit)}"
-            short_unit = f"{_REGISTRY.parse_units(stripped_unit):~}"
-            long = stripped.replace(stripped_unit, "_" + long_unit)
-            short = stripped.replace(stripped_unit, " " + short_unit)
+    for start, end, number, unit_string in reversed(todo):  # From the end, so positions stay valid
+        if float(number) == 1.0:
+            valid = unit_string  # Scaling by one is no scaling
         else:
-            long = stripped
-            short = stripped
-
-        underscored = re.sub(r"[-.]", "_", long)
-        valid = f"_{underscored}"
-        if valid not in _REGISTRY:
-            # Parse subexpression to clean things up for define
-            value = f"{_REGISTRY.parse_expression(scaled_term)}"
-            _REGISTRY.define(f"{valid} = {value} = {short}")
-        input_string = re.sub(regex, valid, input_string)
+            valid = "_" + re.sub(r"[-.]", "_", number)
+            short = number
+            if unit_string is not None:
+                unit = _REGISTRY.parse_units(re.sub(r"[+\s]+", "", unit_string))
+                valid += f"_{unit}"
+                short += f" {unit:~}"
+            if valid not in _REGISTRY:
+                # Parse subexpression to clean things up for define
+                value = f"{_REGISTRY.parse_expression(input_string[start:end])}"
+                _REGISTRY.define(f"{valid} = {value} = {short}")
+        input_string = input_string[:start] + valid + input_string[end:]
 
     return input_string
 
@@ -205,15 +200,16 @@ def _scaling_preprocessor(input_string: str) -> str:
 
 def _unmangle_scaling(input_string: str) -> str:
     """Convert mangled scaling values into a pint-compatible expression."""
-    number_re = r'\b_(_)?(\d+)(_\d+)?([eE]_?\d+)?(_(?=[a-zA-Z]))?'
-    while match := re.search(number_re, input_string):
+    def _as_number(match: re.Match) -> str:
         replacement = '' if match.group(1) is None else '-'
         replacement += match.group(2)
         replacement += '' if match.group(3) is None else match.group(3).replace('_', '.')
         replacement += '' if match.group(4) is None else match.group(4).replace('_', '-')
         replacement += '' if match.group(5) is None else match.group(5).replace('_', ' ')
-        input_string = input_string.replace(match.group(0), replacement)
-    return input_string
+        return replacement
+
+    number_re = r'\b_(_)?(\d+)(_\d+)?([eE]_?\d+)?(_(?=[a-zA-Z]))?'
+    return re.sub(number_re, _as_number, input_string)
 
 
 try:  # pragma: no cover
-- 
2.43.0


From 6fbd066d8ed9924deebbc6b29088c042810fa336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:03 +0000
Subject: [PATCH 28/43] fix: write units with scaling factors such that they
 can be parsed again

Powers of scaled terms are spelled out and scaled terms do not lead, as neither is accepted by the parser.
---
 gemd/units/impl.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index 6544290..066b44f 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -212,6 +212,25 @@ def _unmangle_scaling(input_string: str) -> str:
     return re.sub(number_re, _as_number, input_string)
 
 
+def _arrange_scaling(input_string: str) -> str:
+    """Arrange a formatted unit so it can be parsed: no scaled term may lead or have a power."""
+    if not re.search(r'\b_', input_string):
+        return input_string
+
+    def _spell_out(terms: List[str]) -> List[str]:
+        result = []
+        for term in terms:
+            match = re.fullmatch(r'(_\w+) \*\* (\d+)', term)
+            result.extend([term] if match is None else [match.group(1)] * int(match.group(2)))
+        return result
+
+    numerator, *denominator = input_string.split(' / ')
+    terms = sorted(_spell_out(numerator.split(' * ')), key=lambda term: term.startswith('_'))
+    if terms[0].startswith('_'):
+        terms.insert(0, '1')
+    return ' / '.join([' * '.join(terms)] + _spell_out(denominator))
+
+
 try:  # pragma: no cover
     # Pint 0.23 modified the preferred way to derive a custom class
     # https://pint.readthedocs.io/en/0.23/advanced/custom-registry-class.html
@@ -223,7 +242,7 @@ try:  # pragma: no cover
 
         def __format__(self, format_spec):
             result = super().__format__(format_spec)
-            return _unmangle_scaling(result)
+            return _unmangle_scaling(_arrange_scaling(result))
 
     class _ScaleFactorQuantity(UnitRegistry.Quantity):
         """Child class of Quantity for generating units w/ clean scaling factors."""
@@ -243,7 +262,7 @@ except ImportError:  # pragma: no cover
 
         def __format__(self, format_spec):
             result = super().__format__(format_spec)
-            return _unmangle_scaling(result)
+            return _unmangle_scaling(_arrange_scaling(result))
 
     class _ScaleFactorRegistry(UnitRegistry):
         """UnitRegistry class that uses _GemdUnits."""
@@ -350,6 +369,8 @@ def parse_units(units: Union[str, UnitRegistry.Unit, None],
     elif isinstance(units, str):
         # SPT-1311 Protect against leaked mangled strings
         parsed = _REGISTRY.parse_units(_unmangle_scaling(units))
+        if any(k.startswith("_") and v != int(v) for k, v in parsed._units.items()):
+            raise ValueError(f"Fractional powers of scaling factors are not supported ({units})")
         if return_unit:
             return parsed
         else:
-- 
2.43.0


From 27b225cc8ff36a3982cfc8b7d2e055184e84b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:44 +0000
Subject: [PATCH 29/43] fix: read the units to convert the same way as
 parse_units does

A stringified unit such as 'g / _10_minute' was only understood if 'g / 10 minute' had been parsed before.
---
 gemd/units/impl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index 066b44f..f11e8d3 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -295,8 +295,8 @@ def convert_units(value: float, starting_unit: str, final_unit: str) -> float:
     if starting_unit == final_unit:
         return value  # skip computation
     else:
-        resolved_value = _REGISTRY.Quantity(value, starting_unit)
-        resolved_final_unit = _REGISTRY.parse_units(final_unit)
+        resolved_value = _REGISTRY.Quantity(value, parse_units(starting_unit, return_unit=True))
+        resolved_final_unit = parse_units(final_unit, return_unit=True)
         # Make sure count, radian, bit, and non-dimensional don't accidentally interconvert
         # https://pint.readthedocs.io/en/0.23/user/angular_frequency.html
         root1 = _REGISTRY.get_root_units(resolved_value)[1]
@@ -399,7 +399,7 @@ def get_base_units(units: Union[str, UnitRegistry.Unit]) -> Tuple[UnitRegistry.U
 
     """
     if isinstance(units, str):
-        units = _REGISTRY.parse_units(units)
+        units = parse_units(units, return_unit=True)
     ratio, base_unit = _REGISTRY.get_base_units(units)
     offset = _REGISTRY.Quantity(0, units).to(_REGISTRY.Quantity(0, base_unit)).magnitude
     return base_unit, float(ratio), offset
-- 
2.43.0


From 325a333758757ab75df6e0e02beba2ff295449e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:18 +0000
Subject: [PATCH 30/43] fix: make_instance follows spec histories of any length

---
 gemd/entity/util.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/gemd/entity/util.py b/gemd/entity/util.py
index 4d44526..1b4c5d9 100644
--- a/gemd/entity/util.py
+++ b/gemd/entity/util.py
@@ -22,8 +22,9 @@ def make_instance(base_spec):
 
     """
     seen = dict()
+    pending = list()  # Specs whose runs are not connected yet; a stack, so depth is not limited
 
-    def crawler(spec):
+    def instantiate(spec):
         from gemd.entity.object.measurement_spec import MeasurementSpec
         from gemd.entity.object.measurement_run import MeasurementRun
         from gemd.entity.object.material_spec import MaterialSpec
@@ -46,25 +47,38 @@ def make_instance(base_spec):
                 name=spec.name,
                 spec=spec
             )
-            seen[id(spec)].process = crawler(spec.process) if spec.process else None
         elif isinstance(spec, IngredientSpec):
             seen[id(spec)] = IngredientRun(spec=spec)
-            seen[id(spec)].material = crawler(spec.material) if spec.material else None
         elif isinstance(spec, ProcessSpec):
             seen[id(spec)] = ProcessRun(
                 name=spec.name,
                 spec=spec
             )
-            for x in spec.ingredients:
-                crawler(x).process = seen[id(spec)]
         else:
             raise TypeError('Passed object is not a spec-like object({})'.format(type(spec)))
 
         # Should we assume that the same MaterialSpec in different parts of the tree
         # yields the same MaterialRun?
+        pending.append(spec)
         return seen[id(spec)]
 
-    return crawler(base_spec)
+    def connect(spec):
+        from gemd.entity.object.material_spec import MaterialSpec
+        from gemd.entity.object.ingredient_spec import IngredientSpec
+        from gemd.entity.object.process_spec import ProcessSpec
+
+        if isinstance(spec, MaterialSpec):
+            seen[id(spec)].process = instantiate(spec.process) if spec.process else None
+        elif isinstance(spec, IngredientSpec):
+            seen[id(spec)].material = instantiate(spec.material) if spec.material else None
+        elif isinstance(spec, ProcessSpec):
+            for x in spec.ingredients:
+                instantiate(x).process = seen[id(spec)]
+
+    result = instantiate(base_spec)
+    while pending:
+        connect(pending.pop())
+    return result
 
 
 # Global to support array_like
-- 
2.43.0


From bf2d0321ab2a326a9bfaa88c3eabda5aaff7b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:41 +0000
Subject: [PATCH 31/43] fix: a refused add_edge or add_measurement leaves no
 half-built objects behind

---
 gemd/builders/impl.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gemd/builders/impl.py b/gemd/builders/impl.py
index add55b9..b168749 100644
--- a/gemd/builders/impl.py
+++ b/gemd/builders/impl.py
@@ -149,12 +149,11 @@ def add_edge(input_material: MaterialRun,
 
     if name is None:
         name = input_material.name
+    # Only connect to the processes once all arguments are accepted
     my_ingredient_spec = IngredientSpec(name=name,
-                                        process=output_spec.process,
                                         material=input_material.spec
                                         )
     my_ingredient_run = IngredientRun(spec=my_ingredient_spec,
-                                      process=output_material.process,
                                       material=input_material
                                       )
 
@@ -185,6 +184,9 @@ def add_edge(input_material: MaterialRun,
         raise ValueError("Absolute Units are only used if "
                          "Absolute Quantity is given as is a float.")
 
+    my_ingredient_spec.process = output_spec.process
+    my_ingredient_run.process = output_material.process
+
     return my_ingredient_run
 
 
@@ -231,7 +233,7 @@ def add_measurement(material: MaterialRun,
             name = template.name
 
     my_measurement_spec = MeasurementSpec(name, template=template)
-    my_measurement_run = MeasurementRun(name, spec=my_measurement_spec, material=material)
+    my_measurement_run = MeasurementRun(name, spec=my_measurement_spec)
 
     if attributes is not None:
         for attribute in attributes:
@@ -244,6 +246,8 @@ def add_measurement(material: MaterialRun,
             else:
                 raise ValueError(f"Unhandled Attribute type {type(attribute)}")
 
+    my_measurement_run.material = material  # Only once all attributes are accepted
+
     return my_measurement_run
 
 
-- 
2.43.0


From 0158f267fc9d8b25bb36dcf09879da272fdbb5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:34 +0000
Subject: [PATCH 32/43] fix: compare histories of any length without exceeding
 the recursion limit

---
 gemd/entity/base_entity.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index ccdc052..20d2cda 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -1,5 +1,6 @@
 """Base class for all entities."""
-from typing import TypeVar, Optional, Union, Iterable, List, Set, FrozenSet, MutableMapping, Dict
+from typing import TypeVar, Optional, Union, Iterable, List, Set, FrozenSet, MutableMapping, \
+    Dict, Generator, Tuple
 
 from gemd.entity.dict_serializable import DictSerializable
 from gemd.entity.has_dependencies import HasDependencies
@@ -133,6 +134,25 @@ class BaseEntity(DictSerializable):
         """
         if cache is None:
             cache = {}
+        # An explicit stack of comparisons, because long histories exceed Python's own
+        stack = [BaseEntity._compare(this, that, cache)]
+        result = None
+        while stack:
+            try:
+                next_pair = stack[-1].send(result)
+                stack.append(BaseEntity._compare(*next_pair, cache))
+                result = None
+            except StopIteration as finished:
+                stack.pop()
+                result = finished.value
+        return result
+
+    @staticmethod
+    def _compare(this: "BaseEntity",
+                 that: "BaseEntity",
+                 cache: Dict[FrozenSet, Optional[bool]]
+                 ) -> Generator[Tuple["BaseEntity", "BaseEntity"], Optional[bool], Optional[bool]]:
+        """Compare two Base Entities, yielding the pairs of linked ones to get their result."""
         cache_key = frozenset((id(this), id(that)))
         if cache_key in cache:
             return cache[cache_key]
@@ -156,7 +176,7 @@ class BaseEntity(DictSerializable):
             this_value = this_dict[key]
             that_value = that_dict[key]
             if isinstance(this_value, BaseEntity) and isinstance(that_value, BaseEntity):
-                if BaseEntity._cached_equals(this_value, that_value, cache=cache) is False:
+                if (yield this_value, that_value) is False:
                     cache[cache_key] = False  # Mark as failed
                     return False
             elif isinstance(this_value, Iterable) and isinstance(that_value, Iterable) \
@@ -181,7 +201,7 @@ class BaseEntity(DictSerializable):
                     if isinstance(x, BaseEntity):
                         for i, y in enumerate(that_list):
                             # Unless something really broke, y is a BaseEntity
-                            result = BaseEntity._cached_equals(x, y, cache=cache)
+                            result = yield x, y
                             if result is True:
                                 i_found = i
                                 break
-- 
2.43.0


From 6ddfc2032cf17351ab7ce69586d9348255a53cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:26 +0000
Subject: [PATCH 33/43] fix: refuse a pair whose attribute template is of the
 wrong kind in an object template

---
 gemd/entity/template/base_template.py           | 11 +++++++----
 gemd/entity/template/has_condition_templates.py |  4 +++-
 gemd/entity/template/has_parameter_templates.py |  4 +++-
 gemd/entity/template/has_property_templates.py  |  4 +++-
 4 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/gemd/entity/template/base_template.py b/gemd/entity/template/base_template.py
index 7620e43..d5a5427 100644
--- a/gemd/entity/template/base_template.py
+++ b/gemd/entity/template/base_template.py
@@ -4,7 +4,7 @@ from gemd.entity.bounds.base_bounds import BaseBounds
 from gemd.entity.link_by_uid import LinkByUID
 from gemd.entity.template.attribute_template import AttributeTemplate
 
-from typing import Union, Iterable, Mapping
+from typing import Union, Iterable, Mapping, Type
 
 __all__ = ["BaseTemplate"]
 
@@ -44,7 +44,8 @@ class BaseTemplate(BaseEntity):
     def _homogenize_ranges(template_or_tuple: Union[AttributeTemplate,
                                                     LinkByUID,
                                                     Iterable[Union[AttributeTemplate,
-                                                                   BaseBounds]]]):
+                                                                   BaseBounds]]],
+                           template_type: Type[AttributeTemplate] = AttributeTemplate):
         """
         Take either a template or pair and turn it into a (template, bounds) pair.
 
@@ -56,6 +57,8 @@ class BaseTemplate(BaseEntity):
         tuple [AttributeTemplate or LinkByUID, BaseBounds]
            An attribute template, optionally with another Bounds object that is more
            restrictive than the attribute template's default bounds.
+        template_type: Type[AttributeTemplate]
+           The kind of attribute template that is allowed.
 
         Returns
         -------
@@ -65,13 +68,13 @@ class BaseTemplate(BaseEntity):
 
         """
         # if given a template only, use None to represent passthrough bounds
-        if isinstance(template_or_tuple, (AttributeTemplate, LinkByUID)):
+        if isinstance(template_or_tuple, (template_type, LinkByUID)):
             return [template_or_tuple, None]
         # if given a (template, bounds) pair,
         # check that the bounds is consistent with that of the template
         elif isinstance(template_or_tuple, (tuple, list)):
             first, second = template_or_tuple
-            if isinstance(first, (LinkByUID, AttributeTemplate)) and \
+            if isinstance(first, (LinkByUID, template_type)) and \
                     (isinstance(second, BaseBounds) or second is None):
                 if isinstance(first, AttributeTemplate) and isinstance(second, BaseBounds):
                     if not first.bounds.contains(second):
diff --git a/gemd/entity/template/has_condition_templates.py b/gemd/entity/template/has_condition_templates.py
index e9ae2b4..51b3f28 100644
--- a/gemd/entity/template/has_condition_templates.py
+++ b/gemd/entity/template/has_condition_templates.py
@@ -6,6 +6,7 @@ from gemd.entity.template.base_template import BaseTemplate
 from gemd.entity.template.condition_template import ConditionTemplate
 from gemd.entity.bounds.base_bounds import BaseBounds
 
+from functools import partial
 from typing import TypeVar, Optional, Union, Iterable, List, Tuple, Set
 
 __all__ = ["HasConditionTemplates"]
@@ -69,7 +70,8 @@ class HasConditionTemplates(HasDependencies):
                 conditions = [conditions]  # It's a template/bounds tuple (probably)
         self._conditions = validate_list(conditions,
                                          (ConditionTemplate, LinkByUID, list, tuple),
-                                         trigger=BaseTemplate._homogenize_ranges
+                                         trigger=partial(BaseTemplate._homogenize_ranges,
+                                                         template_type=ConditionTemplate)
                                          )
 
     def validate_condition(self, condition: ConditionType) -> bool:
diff --git a/gemd/entity/template/has_parameter_templates.py b/gemd/entity/template/has_parameter_templates.py
index a271859..5e843b6 100644
--- a/gemd/entity/template/has_parameter_templates.py
+++ b/gemd/entity/template/has_parameter_templates.py
@@ -6,6 +6,7 @@ from gemd.entity.template.base_template import BaseTemplate
 from gemd.entity.template.parameter_template import ParameterTemplate
 from gemd.entity.bounds.base_bounds import BaseBounds
 
+from functools import partial
 from typing import TypeVar, Optional, Union, Iterable, List, Tuple, Set
 
 __all__ = ["HasParameterTemplates"]
@@ -69,7 +70,8 @@ class HasParameterTemplates(HasDependencies):
                 parameters = [parameters]  # It's a template/bounds tuple (probably)
         self._parameters = validate_list(parameters,
                                          (ParameterTemplate, LinkByUID, list, tuple),
-                                         trigger=BaseTemplate._homogenize_ranges
+                                         trigger=partial(BaseTemplate._homogenize_ranges,
+                                                         template_type=ParameterTemplate)
                                          )
 
     def validate_parameter(self, parameter: ParameterType) -> bool:
diff --git a/gemd/entity/template/has_property_templates.py b/gemd/entity/template/has_property_templates.py
index 5ee4534..3e46782 100644
--- a/gemd/entity/template/has_property_templates.py
+++ b/gemd/entity/template/has_property_templates.py
@@ -6,6 +6,7 @@ from gemd.entity.template.base_template import BaseTemplate
 from gemd.entity.template.property_template import PropertyTemplate
 from gemd.entity.bounds.base_bounds import BaseBounds
 
+from functools import partial
 from typing import TypeVar, Optional, Union, Iterable, List, Set, Tuple
 
 __all__ = ["HasPropertyTemplates"]
@@ -67,7 +68,8 @@ class HasPropertyTemplates(HasDependencies):
                 properties = [properties]  # It's a template/bounds tuple (probably)
         self._properties = validate_list(properties,
                                          (PropertyTemplate, LinkByUID, list, tuple),
-                                         trigger=BaseTemplate._homogenize_ranges
+                                         trigger=partial(BaseTemplate._homogenize_ranges,
+                                                         template_type=PropertyTemplate)
                                          )
 
     def validate_property(self, prop: Union[PropertyType, PropertyAndConditionsType]) -> bool:
-- 
2.43.0


From a31533aaaeb59b332de7e9dca6a2bf0e9851f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 34/43] fix: convert the uncertainty, not the value, to the
 standard deviation of a band gap

---
 gemd/demo/strehlow_and_cook.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/demo/strehlow_and_cook.py b/gemd/demo/strehlow_and_cook.py
index 11e1035..a9e4c22 100644
--- a/gemd/demo/strehlow_and_cook.py
+++ b/gemd/demo/strehlow_and_cook.py
@@ -212,7 +212,7 @@ def make_strehlow_objects(table: Iterable = None, template_scope: str = DEMO_TEM
                                      starting_unit=prop['units'],
                                      final_unit='aJ'
                                      )
-                std = convert_units(value=float(prop['scalars'][0]['value']),
+                std = convert_units(value=float(prop['scalars'][0]['uncertainty']),
                                     starting_unit=prop['units'],
                                     final_unit='aJ'
                                     )
-- 
2.43.0


From 0d3567eb94657bec71424a0f1d1d79290dbd5a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 35/43] fix: link an ingested material run to the spec it was
 given

---
 gemd/demo/material_run_example.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/demo/material_run_example.py b/gemd/demo/material_run_example.py
index 072e540..80fec88 100644
--- a/gemd/demo/material_run_example.py
+++ b/gemd/demo/material_run_example.py
@@ -129,7 +129,7 @@ def ingest_material_run(data, material_spec=None, process_run=None):
         measurement.material = material
 
     if material_spec:
-        material.material_spec = material_spec
+        material.spec = material_spec
 
     if process_run:
         material.process = process_run
-- 
2.43.0


From 7d160ca2e4e1f03fb3ec7a46eaf2138f02b870d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 36/43] fix: read the whole unit of an ingested value, also
 when it contains spaces

---
 gemd/demo/material_run_example.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gemd/demo/material_run_example.py b/gemd/demo/material_run_example.py
index 80fec88..2cebac6 100644
--- a/gemd/demo/material_run_example.py
+++ b/gemd/demo/material_run_example.py
@@ -46,13 +46,15 @@ def _parse_value(val):
         toks = val.split()
         mean = float(toks[0])
         std = -1
+        rest = toks[1:]
         if toks[1] in {"+-", "+/-"}:
             std = float(toks[2])
+            rest = toks[3:]
 
         try:
-            unit = units.parse_units(toks[-1])
+            unit = units.parse_units(" ".join(rest))
         except (ValueError, units.UndefinedUnitError):
-            print("Couldn't find {}".format(toks[-1]))
+            print("Couldn't find {}".format(" ".join(rest)))
             unit = ''
 
         if std >= 0:
-- 
2.43.0


From 3cbaf6e1823616574ff8ce7f41a7c0d219ecfd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:06 +0000
Subject: [PATCH 37/43] fix: ignore an unknown field named self like any other

---
 gemd/entity/dict_serializable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/dict_serializable.py b/gemd/entity/dict_serializable.py
index 777ed1a..5a11179 100644
--- a/gemd/entity/dict_serializable.py
+++ b/gemd/entity/dict_serializable.py
@@ -88,7 +88,7 @@ class DictSerializable(ABC, metaclass=DictSerializableMeta):
     @functools.lru_cache(maxsize=1024)
     def _init_sig(cls) -> List[str]:
         """Internal method for generating the argument names for the class init method."""
-        expected_arg_names = inspect.getfullargspec(cls.__init__).args
+        expected_arg_names = inspect.getfullargspec(cls.__init__).args[1:]  # All but `self`
         expected_arg_names += inspect.getfullargspec(cls.__init__).kwonlyargs
         return expected_arg_names
 
-- 
2.43.0


From d6f843f30d3617954fec067a5c41ccf52fb6f16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:18 +0000
Subject: [PATCH 38/43] fix: comparing an object with a pair of non-strings or
 a link without id

---
 gemd/entity/base_entity.py           | 2 +-
 gemd/entity/case_insensitive_dict.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index 20d2cda..75f3537 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -226,7 +226,7 @@ class BaseEntity(DictSerializable):
     def __eq__(self, other):
         from gemd.entity.link_by_uid import LinkByUID
         if isinstance(other, LinkByUID):
-            return self.uids.get(other.scope) == other.id
+            return other.scope in self.uids and self.uids[other.scope] == other.id
         elif isinstance(other, tuple):
             return len(other) == 2 and other[0] in self.uids and self.uids[other[0]] == other[1]
         elif isinstance(other, BaseEntity):
diff --git a/gemd/entity/case_insensitive_dict.py b/gemd/entity/case_insensitive_dict.py
index 838d3d3..f928b50 100644
--- a/gemd/entity/case_insensitive_dict.py
+++ b/gemd/entity/case_insensitive_dict.py
@@ -62,7 +62,7 @@ class CaseInsensitiveDict(dict):
         super().__setitem__(key, value)
 
     def __contains__(self, key: str) -> bool:
-        return self.lowercase_dict.__contains__(key.lower())
+        return isinstance(key, str) and self.lowercase_dict.__contains__(key.lower())
 
     def __delitem__(self, key) -> None:
         key = self.lowercase_dict.get(key.lower(), key)
-- 
2.43.0


From f3d173f7d0bf4097e7aa140044e0a306fcd9c25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:15 +0000
Subject: [PATCH 39/43] fix: do not rely on a comparison in progress that fails
 when comparing objects

---
 gemd/entity/base_entity.py | 84 +++++++++++++++++++++-----------------
 1 file changed, 46 insertions(+), 38 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index 75f3537..7b8aee1 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -123,52 +123,69 @@ class BaseEntity(DictSerializable):
     def _cached_equals(this: "BaseEntity",
                        that: "BaseEntity",
                        *,
-                       cache: Dict[FrozenSet, Optional[bool]] = None
-                       ) -> Optional[bool]:
+                       cache: Dict[FrozenSet, bool] = None
+                       ) -> bool:
         """
         Compute and stash whether two Base Entities are equal in a recursive sense.
 
-        The cache uses ternary logic to communicate state.  True or False indicate a completed
-        evaluation.  If the cache contains None, this indicates that we have not yet completed
-        an evaluation in an earlier frame of the stack.
+        Objects may refer to each other in a cycle, so a comparison that is still in progress
+        counts as passed when it comes up again.  A positive result that relies on that is
+        tentative: it is withdrawn if the comparison that it relies on eventually fails.
         """
         if cache is None:
             cache = {}
         # An explicit stack of comparisons, because long histories exceed Python's own
-        stack = [BaseEntity._compare(this, that, cache)]
-        result = None
-        while stack:
-            try:
-                next_pair = stack[-1].send(result)
-                stack.append(BaseEntity._compare(*next_pair, cache))
-                result = None
-            except StopIteration as finished:
-                stack.pop()
-                result = finished.value
-        return result
+        stack = []  # [key, generator, number of tentative results at its start, what it relies on]
+        position = {}  # Where in the stack the comparisons in progress are
+        tentative = {}  # Results that rely on a comparison in progress, and its position
+
+        next_pair = this, that
+        while True:
+            key = frozenset((id(next_pair[0]), id(next_pair[1])))
+            if key in cache or key in position:
+                result = cache.get(key, True)
+                if len(stack) == 0:
+                    return result
+                relies = tentative.get(key, position.get(key, len(stack)))
+                stack[-1][3] = min(stack[-1][3], relies)
+            else:
+                position[key] = len(stack)
+                stack.append([key, BaseEntity._compare(*next_pair), len(tentative), len(stack)])
+                result = None  # To start the generator
+
+            while True:
+                try:
+                    next_pair = stack[-1][1].send(result)
+                    break
+                except StopIteration as finished:
+                    result = finished.value
+                key, _, start, relies = stack.pop()
+                cache[key] = result
+                del position[key]
+                inner = [tentative.popitem()[0] for _ in range(len(tentative) - start)]
+                if not result:
+                    for x in inner:
+                        del cache[x]
+                elif relies < len(stack):
+                    tentative.update((x, relies) for x in [key] + inner)
+                if len(stack) == 0:
+                    return result
+                stack[-1][3] = min(stack[-1][3], relies)
 
     @staticmethod
     def _compare(this: "BaseEntity",
-                 that: "BaseEntity",
-                 cache: Dict[FrozenSet, Optional[bool]]
-                 ) -> Generator[Tuple["BaseEntity", "BaseEntity"], Optional[bool], Optional[bool]]:
+                 that: "BaseEntity"
+                 ) -> Generator[Tuple["BaseEntity", "BaseEntity"], bool, bool]:
         """Compare two Base Entities, yielding the pairs of linked ones to get their result."""
-        cache_key = frozenset((id(this), id(that)))
-        if cache_key in cache:
-            return cache[cache_key]
-        cache[cache_key] = None  # Mark as in progress
-
         this_dict = this._dict_for_compare()
         that_dict = that._dict_for_compare()
         if this_dict.keys() != that_dict.keys():
-            cache[cache_key] = False  # Mark as failed
             return False
 
         # Check UIDs for an easy potential win
         this_uids = this_dict.pop("uids")
         that_uids = that_dict.pop("uids")
         if this_uids != that_uids:
-            cache[cache_key] = False  # Mark as failed
             return False
 
         # Crawl rest of values to verify they align
@@ -176,8 +193,7 @@ class BaseEntity(DictSerializable):
             this_value = this_dict[key]
             that_value = that_dict[key]
             if isinstance(this_value, BaseEntity) and isinstance(that_value, BaseEntity):
-                if (yield this_value, that_value) is False:
-                    cache[cache_key] = False  # Mark as failed
+                if not (yield this_value, that_value):
                     return False
             elif isinstance(this_value, Iterable) and isinstance(that_value, Iterable) \
                     and not isinstance(this_value, str) and not isinstance(that_value, str):
@@ -192,7 +208,6 @@ class BaseEntity(DictSerializable):
                     if len(that_list) == 0:
                         if len(that_uids) > 0:  # But if it was flattened, uids will save us
                             continue
-                    cache[cache_key] = False  # Mark as failed
                     return False
 
                 # Finally crawl and compare
@@ -201,26 +216,19 @@ class BaseEntity(DictSerializable):
                     if isinstance(x, BaseEntity):
                         for i, y in enumerate(that_list):
                             # Unless something really broke, y is a BaseEntity
-                            result = yield x, y
-                            if result is True:
+                            if (yield x, y):
                                 i_found = i
                                 break
-                            elif result is None and i_found is None:
-                                # Don't know yet; pass as False will appear elsewhere
-                                i_found = i
                     elif x in that_list:
                         i_found = that_list.index(x)
                     if i_found is None:
-                        cache[cache_key] = False  # Mark as failed
                         return False
                     del that_list[i_found]  # Each element can only be matched once
 
             elif this_value != that_value:  # __eq__ should be cheap
-                cache[cache_key] = False  # Mark as failed
                 return False
 
-        cache[cache_key] = True  # All tests passed
-        return True
+        return True  # All tests passed
 
     # Note that this could violate transitivity -- Link(scope1) == obj == Link(scope2)
     def __eq__(self, other):
-- 
2.43.0


From b0c51b8e6fcddb8cd7ec746441451a12c02b4dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:25 +0000
Subject: [PATCH 40/43] fix: match lists of objects regardless of order when
 empty lists are ignored

---
 gemd/entity/base_entity.py | 51 ++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index 7b8aee1..84aa5da 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -211,25 +211,50 @@ class BaseEntity(DictSerializable):
                     return False
 
                 # Finally crawl and compare
-                for x in this_list:
-                    i_found = None
-                    if isinstance(x, BaseEntity):
-                        for i, y in enumerate(that_list):
-                            # Unless something really broke, y is a BaseEntity
-                            if (yield x, y):
-                                i_found = i
-                                break
-                    elif x in that_list:
-                        i_found = that_list.index(x)
-                    if i_found is None:
-                        return False
-                    del that_list[i_found]  # Each element can only be matched once
+                if not (yield from BaseEntity._match(this_list, that_list)):
+                    return False
 
             elif this_value != that_value:  # __eq__ should be cheap
                 return False
 
         return True  # All tests passed
 
+    @staticmethod
+    def _match(this_list: List,
+               that_list: List
+               ) -> Generator[Tuple["BaseEntity", "BaseEntity"], bool, bool]:
+        """Compare two lists of the same length regardless of order, but counting repetitions."""
+        free = list(range(len(that_list)))  # Elements that have no partner yet
+        partner, owner = {}, {}  # From index in this_list to index in that_list, and back
+        for first in range(len(this_list)):
+            # Find an element for this one; if none is free, other pairs may be rearranged
+            reached_by, queue, found = {}, [first], None
+            while found is None and len(queue) > 0:
+                i = queue.pop(0)
+                x = this_list[i]
+                for j in free + list(owner):
+                    y = that_list[j]
+                    if j in reached_by:
+                        equal = False
+                    elif isinstance(x, BaseEntity) and isinstance(y, BaseEntity):
+                        equal = yield x, y
+                    else:
+                        equal = x is y or x == y
+                    if equal:
+                        reached_by[j] = i
+                        if j not in owner:
+                            found = j
+                            break
+                        queue.append(owner[j])
+            if found is None:
+                return False
+            free.remove(found)
+            while found is not None:
+                i = reached_by[found]
+                owner[found] = i
+                partner[i], found = found, partner.get(i)
+        return True
+
     # Note that this could violate transitivity -- Link(scope1) == obj == Link(scope2)
     def __eq__(self, other):
         from gemd.entity.link_by_uid import LinkByUID
-- 
2.43.0


From f007f7b74aeae62a282bee003f0cbddf7045394a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:08 +0000
Subject: [PATCH 41/43] fix: accept uids whose scope is 'self' or 'seq'

The uids were expanded into keyword arguments, where these two names clash
with parameters of the mapping, so such an object could be made with add_uid
but neither constructed nor loaded from its own JSON.
---
 gemd/entity/base_entity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemd/entity/base_entity.py b/gemd/entity/base_entity.py
index 84aa5da..e2e9d0d 100644
--- a/gemd/entity/base_entity.py
+++ b/gemd/entity/base_entity.py
@@ -55,9 +55,9 @@ class BaseEntity(DictSerializable):
         if uids is None:
             self._uids = CaseInsensitiveDict()
         elif isinstance(uids, MutableMapping):
-            self._uids = CaseInsensitiveDict(**uids)
+            self._uids = CaseInsensitiveDict(dict(uids))
         else:
-            self._uids = CaseInsensitiveDict(**{uids[0]: uids[1]})
+            self._uids = CaseInsensitiveDict({uids[0]: uids[1]})
 
     def add_uid(self, scope: str, uid: str):
         """
-- 
2.43.0


From e55227251f40c3e49de5a1baab3254ff5a7d3a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:08 +0000
Subject: [PATCH 42/43] fix: link a material run to its process only once all
 its arguments are accepted

---
 gemd/entity/object/material_run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemd/entity/object/material_run.py b/gemd/entity/object/material_run.py
index f2c3656..36998c0 100644
--- a/gemd/entity/object/material_run.py
+++ b/gemd/entity/object/material_run.py
@@ -64,8 +64,8 @@ class MaterialRun(BaseObject, HasSpec, HasProcess, typ="material_run", skip={"_m
         self._measurements = validate_list(None, [MeasurementRun, LinkByUID])
         self._sample_type = None
 
-        self.process = process
         self.sample_type = sample_type
+        self.process = process  # Last, so that a rejected material is not linked from its process
 
     @property
     def process(self) -> Union[ProcessRun, LinkByUID]:
-- 
2.43.0


From df0ef901254a5436dc4ac669e193c9c6e0efa466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:11 +0000
Subject: [PATCH 43/43] fix: refuse a sign between a scaling factor and its
 unit, whatever was parsed before

---
 gemd/units/impl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gemd/units/impl.py b/gemd/units/impl.py
index f11e8d3..44e33d1 100644
--- a/gemd/units/impl.py
+++ b/gemd/units/impl.py
@@ -147,6 +147,10 @@ def _scaling_identify_factors(
             if i_name is None:
                 i_last, unit_string = position, None
             else:
+                if any(t.type == OP for t in block[position + 1:i_name]):
+                    raise ValueError(
+                        f"Scaling factor ({value}) is not followed by a unit in {input_string}"
+                    )
                 i_last = i_name
                 unit_string = input_string[block[position + 1].start[1]:block[i_name].end[1]]
             # Don't create definitions for 0 or a plain 1
-- 
2.43.0

