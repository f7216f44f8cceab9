From eff62964918b8654de2af851ab37f7430ceadcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 01/43] fix: require canonical array indices when evaluating a
 pointer on a JSON array

Operator precedence let any token through for JSON arrays, so '/-1' and '/01'
were accepted, and '/foo' and '/-' raised ValueError.
---
 jschon/jsonpointer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jschon/jsonpointer.py b/jschon/jsonpointer.py
index 0104b4e..48409f3 100644
--- a/jschon/jsonpointer.py
+++ b/jschon/jsonpointer.py
@@ -207,9 +207,9 @@ class JSONPointer(Sequence[str]):
                         not isjson and isinstance(value, Mapping):
                     return resolve(value[key], keys)
 
-                if isjson and value.type == "array" or \
-                        not isjson and isinstance(value, Sequence) and \
-                        not isinstance(value, str) and \
+                if (isjson and value.type == "array" or
+                    not isjson and isinstance(value, Sequence) and
+                    not isinstance(value, str)) and \
                         JSONPointer._array_index_re.fullmatch(key):
                     return resolve(value[int(key)], keys)
 
-- 
2.43.0


From 51f8b1bdb39e26cbf67071b66aa1a6194c4a8651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 02/43] fix: report bad patch targets as JSONPatchError

A scalar parent raised AssertionError or AttributeError, and array indices
such as '00', '+1' or ' 1', which RFC 6902 does not allow, were accepted.
---
 jschon/jsonpatch.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index 783cba8..5d07b53 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -205,8 +205,10 @@ class Node:
         except JSONPointerError as e:
             raise JSONPatchError(f'Expecting an array or object at {path[:-1]}') from e
 
-        if isinstance(parent, Sequence):
+        if isinstance(parent, Sequence) and not isinstance(parent, str):
             try:
+                if key != '-' and not JSONPointer._array_index_re.fullmatch(key):
+                    raise ValueError
                 if key == '-' or int(key) == len(parent):
                     self.type = NodeType.ARRAY_ITEM_NEW
                     self.index = len(parent)
@@ -224,7 +226,7 @@ class Node:
             self.index = key
 
         else:
-            assert False
+            raise JSONPatchError(f'Expecting an array or object at {path[:-1]}')
 
 
 def add(
-- 
2.43.0


From 8575f89a76e938340b062d20de87a9407e340da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 03/43] fix: reject a patch that moves a value into one of its
 own children

---
 jschon/jsonpatch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index 5d07b53..86c6a4d 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -293,6 +293,9 @@ def move(
         from_: JSONPointer,
 ) -> JSONCompatible:
     """Move the value at `from_` in `document` to `path`."""
+    if from_ < path:
+        raise JSONPatchError(f'Cannot move {from_} into one of its own children')
+
     try:
         value = from_.evaluate(document)
     except JSONPointerError as e:
-- 
2.43.0


From 9af25d5826623864784e01d139ce1d889c292047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 04/43] fix: patch one location only where a container occurs
 at several

deepcopy preserves sharing, so patching one occurrence of a list or dict
that appears more than once in a document changed all of them.
---
 jschon/jsonpatch.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index 86c6a4d..bc52340 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -124,7 +124,7 @@ class JSONPatch(MutableSequence[JSONPatchOperation]):
     def evaluate(self, document: JSONCompatible) -> JSONCompatible:
         """Return the result of sequentially applying all patch operations
         to `document`, as a new document. `document` itself is not modified."""
-        result = deepcopy(document)
+        result = _deepcopy(document)
         for operation in self._operations:
             result = operation.apply(result)
         return result
@@ -183,6 +183,16 @@ class JSONPatch(MutableSequence[JSONPatchOperation]):
         return f'JSONPatch(*{self._operations!r})'
 
 
+def _deepcopy(value: JSONCompatible) -> JSONCompatible:
+    # unlike copy.deepcopy, do not reproduce the sharing of a
+    # container between different locations within `value`
+    if isinstance(value, dict):
+        return {k: _deepcopy(v) for k, v in value.items()}
+    if isinstance(value, list):
+        return [_deepcopy(item) for item in value]
+    return deepcopy(value)
+
+
 class NodeType(Enum):
     ROOT = 0
     ARRAY_ITEM = 1
@@ -236,7 +246,7 @@ def add(
 ) -> JSONCompatible:
     """Add `value` to `document` at `path`."""
     target = Node(document, path)
-    value = deepcopy(value)
+    value = _deepcopy(value)
     if target.type == NodeType.ROOT:
         return value
 
@@ -274,7 +284,7 @@ def replace(
 ) -> JSONCompatible:
     """Replace the value at `path` in `document` with `value`."""
     target = Node(document, path)
-    value = deepcopy(value)
+    value = _deepcopy(value)
     if target.type == NodeType.ROOT:
         return value
 
-- 
2.43.0


From 534735e9bd667a21303a1dedbb147e4b00554816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 05/43] fix: reject non-canonical array indices in JSON.add

---
 jschon/json.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jschon/json.py b/jschon/json.py
index 56ea542..055e58b 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -356,6 +356,8 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         if target_parent.type == 'array':
             try:
+                if target_key != '-' and not JSONPointer._array_index_re.fullmatch(target_key):
+                    raise ValueError
                 if target_key == '-' or int(target_key) == len(target_parent):
                     target_index = len(target_parent)
                 elif 0 <= int(target_key) < len(target_parent):
-- 
2.43.0


From 17e56a31ebdd078fd4aa200020532e33da79d20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 06/43] fix: keep array keys consistent when editing by
 negative or out-of-range index

Item keys and paths were derived from the index as given, and setting or
deleting a slice raised only after corrupting the array.
---
 jschon/json.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/jschon/json.py b/jschon/json.py
index 055e58b..e5b8652 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -189,6 +189,15 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
         if self.parent is not None:
             self.parent._invalidate_value()
 
+    def _child_index(self, index: Union[int, str]) -> Union[int, str]:
+        if self.type == 'array':
+            if isinstance(index, slice):
+                raise TypeError('Slices of an array may not be set or deleted')
+            return range(len(self.data))[index]
+        if self.type == 'object' and not isinstance(index, str):
+            raise TypeError('Expecting str')
+        return index
+
     def dumpf(self, path: Union[str, PathLike]) -> None:
         """Serialize the instance data to a JSON file.
 
@@ -238,6 +247,7 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON types ``array`` and ``object``.
         """
+        index = self._child_index(index)
         self.data[index] = self.itemclass(
             obj.value if isinstance(obj, JSON) else obj,
             parent=self,
@@ -251,6 +261,7 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON types ``array`` and ``object``.
         """
+        index = self._child_index(index)
         del self.data[index]
         self._invalidate_value()
         if self.type == 'array':
@@ -263,6 +274,9 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
 
         Supported for JSON type ``array``.
         """
+        if self.type == 'array':
+            # locate the actual insertion point, as for list.insert
+            index, _, _ = slice(index, None).indices(len(self.data))
         self.data.insert(index, self.itemclass(
             obj.value if isinstance(obj, JSON) else obj,
             parent=self,
-- 
2.43.0


From fb91abb1bc4e773ce5372a68c9acc97617e6b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 07/43] fix: make pop with a default and clear work on JSON
 objects

The MutableSequence mixins hid those of MutableMapping.
---
 jschon/json.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/jschon/json.py b/jschon/json.py
index e5b8652..d217caf 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -288,6 +288,25 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
             item.key = str(int(item.key) + 1)
             item._invalidate_path()
 
+    def pop(self, *args: Any) -> JSON:
+        """Remove and return an item, as for ``dict.pop`` or ``list.pop``.
+
+        Supported for JSON types ``array`` and ``object``.
+        """
+        if self.type == 'object':
+            return MutableMapping.pop(self, *args)
+        return MutableSequence.pop(self, *args)
+
+    def clear(self) -> None:
+        """Remove all items.
+
+        Supported for JSON types ``array`` and ``object``.
+        """
+        if self.type == 'object':
+            MutableMapping.clear(self)
+        else:
+            MutableSequence.clear(self)
+
     def __eq__(self, other: Union[JSON, JSONCompatible]) -> bool:
         """Return `self == other`."""
         if not isinstance(other, JSON):
-- 
2.43.0


From 2021bcd3589611b0c4b34841a9a2dfa430a6fa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 08/43] fix: leave a JSON node intact when replacing its value
 fails

The type was changed before the new value was known to be JSON-compatible.
---
 jschon/json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/json.py b/jschon/json.py
index d217caf..acfa43c 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -134,18 +134,18 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
             self.data = value
 
         elif isinstance(value, Sequence):
-            self.type = "array"
             self.data = [
                 self.itemclass(v, parent=self, key=str(i), **self.itemkwargs)
                 for i, v in enumerate(value)
             ]
+            self.type = "array"
 
         elif isinstance(value, Mapping):
-            self.type = "object"
             self.data = {
                 k: self.itemclass(v, parent=self, key=k, **self.itemkwargs)
                 for k, v in value.items()
             }
+            self.type = "object"
 
         else:
             raise TypeError(f"{value=} is not JSON-compatible")
-- 
2.43.0


From 06821582198f50fcef239581de807a896cd986ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:13 +0000
Subject: [PATCH 09/43] fix: give equal URIs equal hashes

URIs compare equal after normalization, but were hashed without it, so that
a schema or vocabulary could not be found under an equal URI.
---
 jschon/uri.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jschon/uri.py b/jschon/uri.py
index 7c46f46..c927ed7 100644
--- a/jschon/uri.py
+++ b/jschon/uri.py
@@ -26,7 +26,8 @@ class URI:
         return len(str(self))
 
     def __hash__(self) -> int:
-        return hash(self._uriref)
+        # equality is determined after normalization
+        return hash(self._uriref.normalize())
 
     def __eq__(self, other) -> bool:
         if isinstance(other, URI):
-- 
2.43.0


From 936fa6eb9d0c15a7dd67d3020dfc304242518a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 10/43] fix: do not raise when comparing a URI with an
 unrelated object

---
 jschon/uri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/uri.py b/jschon/uri.py
index c927ed7..6b93d7c 100644
--- a/jschon/uri.py
+++ b/jschon/uri.py
@@ -32,8 +32,8 @@ class URI:
     def __eq__(self, other) -> bool:
         if isinstance(other, URI):
             return self._uriref == other._uriref
-        if other is None:
-            return False
+        if not isinstance(other, (str, rfc3986.URIReference)):
+            return NotImplemented
         return self._uriref.__eq__(other)
 
     @property
-- 
2.43.0


From ca3d76206021d3b82997bfed7fbd5a12379de261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 11/43] fix: read and write JSON files as UTF-8 whatever the
 locale

---
 jschon/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/utils.py b/jschon/utils.py
index adff27b..b1b3ea6 100644
--- a/jschon/utils.py
+++ b/jschon/utils.py
@@ -34,7 +34,7 @@ def tuplify(value: Any) -> Tuple:
 
 def json_dumpf(obj: Any, path: Union[str, PathLike]) -> None:
     """Serialize a JSON-compatible Python object to a JSON file."""
-    with open(path, 'w') as f:
+    with open(path, 'w', encoding='utf-8') as f:
         json.dump(obj, f, ensure_ascii=False, allow_nan=False, default=_serialize_custom_obj)
 
 
@@ -45,7 +45,7 @@ def json_dumps(obj: Any) -> str:
 
 def json_loadf(path: Union[str, PathLike]) -> Any:
     """Deserialize a JSON file, returning a JSON-compatible Python object."""
-    with open(path) as f:
+    with open(path, encoding='utf-8') as f:
         return json.load(f, parse_constant=_parse_invalid_const)
 
 
-- 
2.43.0


From d9a6c38fa964348e6dfb2bfa934a87c42987e8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:33 +0000
Subject: [PATCH 12/43] fix: reject invalid keyword arguments to
 RelativeJSONPointer

---
 jschon/jsonpointer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jschon/jsonpointer.py b/jschon/jsonpointer.py
index 48409f3..94c6cd9 100644
--- a/jschon/jsonpointer.py
+++ b/jschon/jsonpointer.py
@@ -319,6 +319,9 @@ class RelativeJSONPointer:
             self.path = JSONPointer(ref) if ref != '#' else None
 
         else:
+            if up < 0 or not isinstance(ref, JSONPointer) and ref != '#':
+                raise cls.malformed_exc(f'Invalid arguments {up=}, {over=}, {ref=}')
+
             self.up = up
             self.over = over
             self.path = ref if isinstance(ref, JSONPointer) else None
-- 
2.43.0


From d9ad8251226716fa91e1d800029d72a4f33757be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 13/43] fix: keep a local source within its base directory

A URI with an empty segment after the base gave an absolute path, which
replaced the base directory; '..' was possible in the query; and the base
URI itself designated a sibling of the base directory.
---
 jschon/catalog/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 3d6cf5e..9502e3a 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -37,7 +37,11 @@ class LocalSource(Source):
         self.base_dir = base_dir
 
     def __call__(self, relative_path: str) -> JSONCompatible:
-        filepath = pathlib.Path(self.base_dir) / relative_path
+        relpath = pathlib.PurePath(relative_path)
+        if not relpath.parts or relpath.anchor or '..' in relpath.parts:
+            raise CatalogError(f'{relative_path!r} does not designate a file in {str(self.base_dir)!r}')
+
+        filepath = pathlib.Path(self.base_dir) / relpath
         if self.suffix:
             filepath = str(filepath)
             filepath += self.suffix
-- 
2.43.0


From 2a2f8c93e1055cfd602c20d7e0bf4cbe66fc2e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 14/43] fix: reserve the identifier of a scoped cache while it
 is empty

---
 jschon/catalog/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 9502e3a..9ca8a10 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -389,6 +389,7 @@ class Catalog:
         if cacheid in self._schema_cache:
             raise CatalogError("cache identifier is already in use")
 
+        self._schema_cache[cacheid] = {}
         try:
             yield cacheid
         finally:
-- 
2.43.0


From 0ba5710085d418ade743277647c642dd507a43b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:57 +0000
Subject: [PATCH 15/43] fix: raise CatalogError for a loaded document that is
 not a schema

---
 jschon/catalog/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 9ca8a10..74902e4 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -5,7 +5,7 @@ import uuid
 from contextlib import contextmanager
 from importlib import import_module
 from os import PathLike
-from typing import Any, ContextManager, Dict, Hashable, Set, Union
+from typing import Any, ContextManager, Dict, Hashable, Mapping, Set, Union
 
 from jschon.exc import CatalogError, JSONPointerError, URIError
 from jschon.json import JSONCompatible
@@ -347,6 +347,9 @@ class Catalog:
 
         if schema is None:
             doc = self.load_json(base_uri)
+            if not isinstance(doc, (bool, Mapping)):
+                raise CatalogError(f"The object referenced by {base_uri} is not a JSON Schema")
+
             schema = JSONSchema(
                 doc,
                 catalog=self,
-- 
2.43.0


From 23ab30d2b1f2e7ec7482a1c9e98a8f28c085278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 16/43] fix: leave no trace in the cache of a schema that
 failed to construct

A schema was cached before its references were resolved, and a metaschema
before it was validated. Having failed, it was nevertheless found, and used,
by the next request for it.
---
 jschon/catalog/__init__.py | 40 ++++++++++++++++++++++++++------------
 jschon/jsonschema.py       | 12 ++++++++----
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 74902e4..9637c9d 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -226,19 +226,20 @@ class Catalog:
             self.get_vocabulary(vocab_uri)
             for vocab_uri in default_vocabulary_uris
         ]
-        metaschema = Metaschema(
-            self,
-            metaschema_doc,
-            default_core_vocabulary,
-            *default_vocabularies,
-            **kwargs,
-            uri=uri,
-        )
-        if not metaschema.validate().valid:
-            raise CatalogError(
-                "The metaschema is invalid against its own metaschema "
-                f'"{metaschema_doc["$schema"]}"'
+        with self._restore_on_error('__meta__'):
+            metaschema = Metaschema(
+                self,
+                metaschema_doc,
+                default_core_vocabulary,
+                *default_vocabularies,
+                **kwargs,
+                uri=uri,
             )
+            if not metaschema.validate().valid:
+                raise CatalogError(
+                    "The metaschema is invalid against its own metaschema "
+                    f'"{metaschema_doc["$schema"]}"'
+                )
         return metaschema
 
     def get_metaschema(self, uri: URI) -> Metaschema:
@@ -374,6 +375,21 @@ class Catalog:
 
         return schema
 
+    @contextmanager
+    def _restore_on_error(self, cacheid: Hashable) -> ContextManager[None]:
+        """Context manager that undoes all changes to the schema cache
+        identified by `cacheid` if an error is raised."""
+        cache = self._schema_cache.get(cacheid)
+        saved = None if cache is None else dict(cache)
+        try:
+            yield
+        except BaseException:
+            if saved is None:
+                self._schema_cache.pop(cacheid, None)
+            else:
+                self._schema_cache[cacheid] = saved
+            raise
+
     @contextmanager
     def cache(self, cacheid: Hashable = None) -> ContextManager[Hashable]:
         """Context manager for a schema cache.
diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index 894d5df..f8bce9f 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 from collections import deque
-from contextlib import contextmanager
+from contextlib import contextmanager, nullcontext
 from functools import cached_property
 from typing import Any, ContextManager, Dict, Hashable, Iterator, Mapping, Optional, TYPE_CHECKING, Tuple, Type, Union
 from uuid import uuid4
@@ -61,9 +61,6 @@ class JSONSchema(JSON):
         self.cacheid: Hashable = cacheid
         """Schema cache identifier."""
 
-        if uri is not None:
-            catalog.add_schema(uri, self, cacheid=cacheid)
-
         self._uri: Optional[URI] = uri
         self._metaschema_uri: Optional[URI] = metaschema_uri
 
@@ -94,6 +91,13 @@ class JSONSchema(JSON):
         self.key: Optional[str] = key
         """The index of the schema within its parent."""
 
+        with catalog._restore_on_error(cacheid) if parent is None else nullcontext():
+            if uri is not None:
+                catalog.add_schema(uri, self, cacheid=cacheid)
+
+            self._construct(value)
+
+    def _construct(self, value: Union[bool, Mapping[str, JSONCompatible]]) -> None:
         if isinstance(value, bool):
             self.type = "boolean"
             self.data = value
-- 
2.43.0


From c412bc70728e4ac22898ae3d48cc019649c313bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:45 +0000
Subject: [PATCH 17/43] fix: keep the registered catalog when create_catalog is
 given an unknown version

---
 jschon/__init__.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/jschon/__init__.py b/jschon/__init__.py
index 2dec870..1a4d92b 100644
--- a/jschon/__init__.py
+++ b/jschon/__init__.py
@@ -35,19 +35,18 @@ def create_catalog(*versions: str, name: str = 'catalog') -> Catalog:
     """
     from .catalog import _2019_09, _2020_12, _next
 
-    catalog = Catalog(name=name)
-
     version_initializers = {
         '2019-09': _2019_09.initialize,
         '2020-12': _2020_12.initialize,
         'next': _next.initialize,
     }
-    try:
-        for version in versions:
-            version_init = version_initializers[version]
-            version_init(catalog)
+    for version in versions:
+        if version not in version_initializers:
+            raise ValueError(f'Unrecognized version {version!r}')
 
-    except KeyError as e:
-        raise ValueError(f'Unrecognized version {e.args[0]!r}')
+    catalog = Catalog(name=name)
+    for version in versions:
+        version_init = version_initializers[version]
+        version_init(catalog)
 
     return catalog
-- 
2.43.0


From 58358a097b62dce0a248ae90a84e8c21455db7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 18/43] fix: do not remove another schema from the cache when a
 schema's URI changes

---
 jschon/catalog/__init__.py | 3 +++
 jschon/jsonschema.py       | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 9637c9d..ed823ed 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -315,6 +315,9 @@ class Catalog:
         if cacheid in self._schema_cache:
             self._schema_cache[cacheid].pop(uri, None)
 
+    def _is_cached(self, uri: URI, schema: JSONSchema, cacheid: Hashable) -> bool:
+        return self._schema_cache.get(cacheid, {}).get(uri) is schema
+
     def get_schema(
             self,
             uri: URI,
diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index f8bce9f..029cbb5 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -311,7 +311,7 @@ class JSONSchema(JSON):
     @uri.setter
     def uri(self, value: Optional[URI]) -> None:
         if self._uri != value:
-            if self._uri is not None:
+            if self._uri is not None and self.catalog._is_cached(self._uri, self, self.cacheid):
                 self.catalog.del_schema(self._uri, cacheid=self.cacheid)
 
             self._uri = value
-- 
2.43.0


From 875f3976284802721e49d56cfeb08d84f7e9a01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 19/43] fix: evaluate multipleOf exactly for numbers of any
 size

Decimal arithmetic is limited to 28 digits, so that 10**30 was not a
multiple of 10.
---
 jschon/vocabulary/validation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jschon/vocabulary/validation.py b/jschon/vocabulary/validation.py
index 70b8e28..2f06dc6 100644
--- a/jschon/vocabulary/validation.py
+++ b/jschon/vocabulary/validation.py
@@ -1,5 +1,5 @@
 import re
-from decimal import Decimal, InvalidOperation
+from fractions import Fraction
 
 from jschon.json import JSON
 from jschon.jsonschema import JSONSchema, Result
@@ -69,9 +69,9 @@ class MultipleOfKeyword(Keyword):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         try:
-            if Decimal(f'{instance.data}') % Decimal(f'{self.json.data}') != 0:
+            if Fraction(f'{instance.data}') % Fraction(f'{self.json.data}') != 0:
                 result.fail(f"The value must be a multiple of {self.json}")
-        except InvalidOperation:
+        except (ValueError, ZeroDivisionError):
             result.fail(f"Invalid operation: {instance} % {self.json}")
 
 
-- 
2.43.0


From f945892fc0f3f356f524a2dda0fce8233114824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 20/43] fix: do not raise for an out-of-range number where an
 integer is expected

---
 jschon/vocabulary/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/validation.py b/jschon/vocabulary/validation.py
index 2f06dc6..4c7e02d 100644
--- a/jschon/vocabulary/validation.py
+++ b/jschon/vocabulary/validation.py
@@ -38,7 +38,7 @@ class TypeKeyword(Keyword):
         if instance.type in types:
             valid = True
         elif instance.type == "number" and "integer" in types:
-            valid = instance.data == int(instance.data)
+            valid = isinstance(instance.data, int) or instance.data.is_integer()
         else:
             valid = False
 
-- 
2.43.0


From 1c185f7f2dfc196b4b7e7599a1f6fb4e2bb24af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 21/43] fix: accept any unknown keyword name

An empty name raised IndexError, and one that contains a null character
ValueError, as it cannot be used in the name of a class.
---
 jschon/vocabulary/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/__init__.py b/jschon/vocabulary/__init__.py
index 98d346b..4ea164a 100644
--- a/jschon/vocabulary/__init__.py
+++ b/jschon/vocabulary/__init__.py
@@ -100,7 +100,7 @@ class Metaschema(JSONSchema):
             return self.kwclasses[key]
         except KeyError:
             unknown_class = type(
-                f'UnknownKeyword{key[0].upper() + key[1:]}',
+                f'UnknownKeyword{key[0].upper() + key[1:]}' if key.isidentifier() else 'UnknownKeyword',
                 (_UnknownKeyword,),
                 dict(key=key),
             )
-- 
2.43.0


From 930f36d0bbb031b303fb91aeee1ab3a17748548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 22/43] fix: ignore an empty fragment in $id

The schema was cached under the URI including the fragment, so that it
could not be found by reference to the URI without it, or with another.
---
 jschon/vocabulary/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index bd222e0..c8c3a16 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -76,7 +76,8 @@ class IdKeyword(Keyword):
             else:
                 raise JSONSchemaError(f'No base URI against which to resolve the "$id" value "{value}"')
 
-        parentschema.uri = uri
+        # an empty fragment is allowed, but is not significant
+        parentschema.uri = uri.copy(fragment=False)
 
 
 class RefKeyword(Keyword):
-- 
2.43.0


From 54efbc1559ca37cc54fdbbfda2b085025fdff6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 23/43] fix: allow a $dynamicRef to a boolean schema

---
 jschon/vocabulary/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index c8c3a16..e22b120 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -140,7 +140,8 @@ class DynamicRefKeyword(Keyword):
         self.refschema = self.parentschema.catalog.get_schema(
             uri, metaschema_uri=self.parentschema.metaschema_uri, cacheid=self.parentschema.cacheid
         )
-        if (dynamic_anchor := self.refschema.get("$dynamicAnchor")) and dynamic_anchor.data == self.fragment:
+        if (dynamic_anchor := self.refschema.keywords.get("$dynamicAnchor")) and \
+                dynamic_anchor.json.data == self.fragment:
             self.dynamic = True
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-- 
2.43.0


From cc5b350fb180d8337e4a0dd6b7670e243366f0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 24/43] fix: resolve $dynamicRef without reference to the state
 of the cache

Dynamic anchors were looked up in the catalog during evaluation, so that
the verdict changed once a scoped cache had ended, or another schema with
the same URI had been created.
---
 jschon/jsonschema.py      |  4 ++++
 jschon/vocabulary/core.py | 18 ++++--------------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index 029cbb5..33fe22b 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -68,6 +68,10 @@ class JSONSchema(JSON):
         """A dictionary of the schema's :class:`~jschon.vocabulary.Keyword`
         objects, indexed by keyword name."""
 
+        self.dynamic_anchors: Dict[str, JSONSchema] = {}
+        """The (sub)schemas of this resource that have a ``"$dynamicAnchor"``,
+        indexed by anchor name."""
+
         # do not call super().__init__
         # all inherited attributes are initialized here:
 
diff --git a/jschon/vocabulary/core.py b/jschon/vocabulary/core.py
index e22b120..a4a90d9 100644
--- a/jschon/vocabulary/core.py
+++ b/jschon/vocabulary/core.py
@@ -149,21 +149,10 @@ class DynamicRefKeyword(Keyword):
 
         if self.dynamic:
             target = result
-            checked_uris = set()
-
             while target is not None:
-                if (base_uri := target.schema.base_uri) is not None and base_uri not in checked_uris:
-                    checked_uris |= {base_uri}
-                    target_uri = URI(f"#{self.fragment}").resolve(base_uri)
-                    try:
-                        found_schema = self.parentschema.catalog.get_schema(
-                            target_uri, cacheid=self.parentschema.cacheid
-                        )
-                        if (dynamic_anchor := found_schema.get("$dynamicAnchor")) and \
-                                dynamic_anchor.data == self.fragment:
-                            refschema = found_schema
-                    except CatalogError:
-                        pass
+                resource = target.schema.resource_rootschema
+                if (found_schema := resource.dynamic_anchors.get(self.fragment)) is not None:
+                    refschema = found_schema
 
                 target = target.parent
 
@@ -183,6 +172,7 @@ class DynamicAnchorKeyword(Keyword):
         else:
             raise JSONSchemaError(f'No base URI for "$dynamicAnchor" value "{value}"')
 
+        parentschema.resource_rootschema.dynamic_anchors[value] = parentschema
         parentschema.catalog.add_schema(uri, parentschema, cacheid=parentschema.cacheid)
 
 
-- 
2.43.0


From 6e7490757177a662c90edc63b137013b8968e675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 25/43] fix: let a boolean items schema evaluate the items in
 2019-09

---
 jschon/vocabulary/legacy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jschon/vocabulary/legacy.py b/jschon/vocabulary/legacy.py
index b6ef3c3..8981a9e 100644
--- a/jschon/vocabulary/legacy.py
+++ b/jschon/vocabulary/legacy.py
@@ -63,6 +63,8 @@ class ItemsKeyword_2019_09(Keyword, Subschema, ArrayOfSubschemas):
 
         elif isinstance(self.json.data, bool):
             self.json.evaluate(instance, result)
+            if result.passed:
+                result.annotate(True)
 
         elif isinstance(self.json, JSONSchema):
             for index, item in enumerate(instance):
-- 
2.43.0


From cdd2c1a00e70f3f5baeb2d72bc39c24374816c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 26/43] fix: treat an enabled format that has no validator as
 an annotation

Constructing a schema with such a format raised KeyError.
---
 jschon/vocabulary/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/format.py b/jschon/vocabulary/format.py
index 2921183..1dca2b4 100644
--- a/jschon/vocabulary/format.py
+++ b/jschon/vocabulary/format.py
@@ -17,7 +17,7 @@ class FormatKeyword(Keyword):
     def __init__(self, parentschema: JSONSchema, value: str):
         super().__init__(parentschema, value)
         if parentschema.catalog.is_format_enabled(value):
-            self.validator, self.validates_types = _format_validators[value]
+            self.validator, self.validates_types = _format_validators.get(value, (None, ()))
         else:
             self.validator = None
 
-- 
2.43.0


From 1743b3a2787ce291ebcc871db1a6a78ea0f7af97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 27/43] fix: list the names matched by patternProperties in the
 order of the instance

The order was that of a set, which varies from one process to the next.
---
 jschon/vocabulary/applicator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/vocabulary/applicator.py b/jschon/vocabulary/applicator.py
index b128109..bf9d270 100644
--- a/jschon/vocabulary/applicator.py
+++ b/jschon/vocabulary/applicator.py
@@ -305,7 +305,7 @@ class PatternPropertiesKeyword(Keyword, ObjectOfSubschemas):
         if err_names:
             result.fail(f"Properties {err_names} are invalid")
         else:
-            result.annotate(list(matched_names))
+            result.annotate([name for name in instance if name in matched_names])
 
 
 class AdditionalPropertiesKeyword(Keyword, Subschema):
-- 
2.43.0


From 4d8afeaa876fce09da5d42e3c1b582fd395d2444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 28/43] fix: drop annotations below a subschema that fails
 within not or contains

The keyword as a whole passes, so the annotations of those parts of the
subschema that passed were collected and counted as evaluated.
---
 jschon/jsonschema.py            | 9 +++++++++
 jschon/vocabulary/applicator.py | 4 ++++
 2 files changed, 13 insertions(+)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index 33fe22b..cd018a7 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -460,6 +460,15 @@ class Result:
         """Annotate the result."""
         self.annotation = value
 
+    def drop_annotations(self, instance: JSON = None) -> None:
+        """Remove all annotations from this subtree, or only from
+        the children that evaluated `instance`."""
+        if instance is None:
+            self.annotation = None
+        for child in self.children.values():
+            if instance is None or child.instance.path == instance.path:
+                child.drop_annotations()
+
     def fail(self, error: JSONCompatible = None) -> None:
         """Mark the result as invalid, optionally with an error."""
         self._valid = False
diff --git a/jschon/vocabulary/applicator.py b/jschon/vocabulary/applicator.py
index bf9d270..23eac48 100644
--- a/jschon/vocabulary/applicator.py
+++ b/jschon/vocabulary/applicator.py
@@ -84,6 +84,8 @@ class NotKeyword(Keyword, Subschema):
             result.fail('The instance must not be valid against the subschema')
         else:
             result.pass_()
+            # the subschema failed, so nothing below it may annotate
+            result.drop_annotations()
 
 
 class IfKeyword(Keyword, Subschema):
@@ -256,6 +258,8 @@ class ContainsKeyword(Keyword, Subschema):
                 annotation += [index]
             else:
                 result.pass_()
+                # the subschema failed, so nothing below it may annotate this item
+                result.drop_annotations(item)
 
         result.annotate(annotation)
         if not annotation:
-- 
2.43.0


From 48502a01eb780ddb6a8aaa22f3e97993fc8ba429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:33 +0000
Subject: [PATCH 29/43] fix: include referenced schemas in the hierarchical
 output

The errors and annotations of keywords in a referenced schema were lost.
---
 jschon/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/output.py b/jschon/output.py
index 7f828c5..e8ee684 100644
--- a/jschon/output.py
+++ b/jschon/output.py
@@ -129,7 +129,7 @@ def verbose(result: Result) -> JSONCompatible:
 @output_formatter('hierarchical')
 def hierarchical(result: Result) -> JSONCompatible:
     def visit(node: Result):
-        if isinstance(node.schema_node, JSONSchema):
+        if isinstance(node.schema_node, JSONSchema) or node._refschema is not None:
             output = {
                 "valid": (valid := node.valid),
                 "evaluationPath": str(node.path),
-- 
2.43.0


From 6fa17d074dd9b3625f8570014fe5bae3fab43e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:53 +0000
Subject: [PATCH 30/43] fix: list no results of the opposite verdict in the
 hierarchical output

---
 jschon/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/output.py b/jschon/output.py
index e8ee684..542b25d 100644
--- a/jschon/output.py
+++ b/jschon/output.py
@@ -142,7 +142,7 @@ def hierarchical(result: Result) -> JSONCompatible:
             for child in node.children.values():
                 details += [
                     childout for childout in (visit(child))
-                    if child.valid == valid
+                    if child.valid == childout["valid"] == valid
                 ]
                 if valid and child.annotation is not None:
                     annotations[child.key] = child.annotation
-- 
2.43.0


From dfb786dbcfc163f816251402b412cd58f6454ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:21 +0000
Subject: [PATCH 31/43] fix: evaluate each item on its own in the items keyword
 of 2019-09

---
 jschon/vocabulary/legacy.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jschon/vocabulary/legacy.py b/jschon/vocabulary/legacy.py
index 8981a9e..8e5bffa 100644
--- a/jschon/vocabulary/legacy.py
+++ b/jschon/vocabulary/legacy.py
@@ -67,10 +67,16 @@ class ItemsKeyword_2019_09(Keyword, Subschema, ArrayOfSubschemas):
                 result.annotate(True)
 
         elif isinstance(self.json, JSONSchema):
+            error = []
             for index, item in enumerate(instance):
-                self.json.evaluate(item, result)
+                if not self.json.evaluate(item, result).passed:
+                    error += [index]
+                    # reset to passed for the next iteration
+                    result.pass_()
 
-            if result.passed:
+            if error:
+                result.fail(error)
+            else:
                 result.annotate(True)
 
         elif self.json.type == "array":
-- 
2.43.0


From 5db9e579f1ef36f41e274183d4dc1b108e3aae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:45 +0000
Subject: [PATCH 32/43] fix: list the errors of a failed evaluation whatever
 annotations are asked for

---
 jschon/output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/output.py b/jschon/output.py
index 542b25d..387435b 100644
--- a/jschon/output.py
+++ b/jschon/output.py
@@ -48,7 +48,7 @@ def basic(result: Result, annotations: Iterable[str] = None) -> JSONCompatible:
     def visit(node: Result):
         if node.valid is valid:
             if (
-                    (annotations is None or node.key in annotations) and
+                    (not valid or annotations is None or node.key in annotations) and
                     (msgval := getattr(node, msgkey)) is not None
             ):
                 yield {
-- 
2.43.0


From 15603a0e87b1e2bb6662b04c4f910e9d8ff00728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:45 +0000
Subject: [PATCH 33/43] fix: keep the error of a boolean false schema in its
 detailed output

---
 jschon/output.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jschon/output.py b/jschon/output.py
index 387435b..f109935 100644
--- a/jschon/output.py
+++ b/jschon/output.py
@@ -93,7 +93,7 @@ def detailed(result: Result) -> JSONCompatible:
     msgkey = "annotation" if valid else "error"
     childkey = "annotations" if valid else "errors"
 
-    return {
+    output = {
         "valid": valid,
         "instanceLocation": str(result.instance.path),
         "keywordLocation": str(result.path),
@@ -101,6 +101,10 @@ def detailed(result: Result) -> JSONCompatible:
         childkey: [visit(child) for child in result.children.values()
                    if child.valid is valid],
     }
+    if (msgval := getattr(result, msgkey)) is not None:
+        output[msgkey] = msgval
+
+    return output
 
 
 @output_formatter('verbose')
-- 
2.43.0


From b73b9770383ddcbf7c5cf3df1ef6d8f9460dacce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:18 +0000
Subject: [PATCH 34/43] fix: reject a mapping whose keys are not strings as
 JSON

---
 jschon/json.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jschon/json.py b/jschon/json.py
index acfa43c..013910f 100644
--- a/jschon/json.py
+++ b/jschon/json.py
@@ -141,6 +141,8 @@ class JSON(MutableSequence['JSON'], MutableMapping[str, 'JSON']):
             self.type = "array"
 
         elif isinstance(value, Mapping):
+            if not all(isinstance(k, str) for k in value):
+                raise TypeError(f"{value=} is not JSON-compatible")
             self.data = {
                 k: self.itemclass(v, parent=self, key=k, **self.itemkwargs)
                 for k, v in value.items()
-- 
2.43.0


From 60c9081e5c727cda87fd20d3b72151fff8fcec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:20 +0000
Subject: [PATCH 35/43] fix: ignore the members a patch operation does not
 define when comparing it

---
 jschon/jsonpatch.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/jschon/jsonpatch.py b/jschon/jsonpatch.py
index bc52340..c5beebd 100644
--- a/jschon/jsonpatch.py
+++ b/jschon/jsonpatch.py
@@ -98,10 +98,8 @@ class JSONPatchOperation:
         """Return `self == other`."""
         if not isinstance(other, JSONPatchOperation):
             other = JSONPatchOperation(**other)
-        return (self.op == other.op and
-                self.path == other.path and
-                self.from_ == other.from_ and
-                JSON(self.value) == JSON(other.value))
+        # members that an operation does not define are ignored
+        return JSON(self.asdict()) == JSON(other.asdict())
 
     def __repr__(self) -> str:
         """Return `repr(self)`."""
-- 
2.43.0


From da1665d59dd7ac39e859bc487976c1fea06c6a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:48 +0000
Subject: [PATCH 36/43] fix: do not raise when comparing a URI with a string
 that cannot be encoded

---
 jschon/uri.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jschon/uri.py b/jschon/uri.py
index 6b93d7c..6121c9f 100644
--- a/jschon/uri.py
+++ b/jschon/uri.py
@@ -34,7 +34,11 @@ class URI:
             return self._uriref == other._uriref
         if not isinstance(other, (str, rfc3986.URIReference)):
             return NotImplemented
-        return self._uriref.__eq__(other)
+        try:
+            return self._uriref.__eq__(other)
+        except UnicodeError:
+            # a string that cannot be encoded is not a URI
+            return False
 
     @property
     def scheme(self) -> str:
-- 
2.43.0


From 71db2844819a5fa4a92d387b9c0431efd6c01332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 37/43] fix: reject a source base URI that does not end with a
 slash because of its query

---
 jschon/catalog/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index ed823ed..c41dfa3 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -126,9 +126,9 @@ class Catalog:
             except URIError as e:
                 raise CatalogError from e
 
-            if not base_uri.path or not base_uri.path.endswith('/'):
-                raise CatalogError('base_uri must end with "/"')
             prefix = str(base_uri)
+            if not base_uri.path or not base_uri.path.endswith('/') or not prefix.endswith('/'):
+                raise CatalogError('base_uri must end with "/"')
 
         self._uri_sources[prefix] = source
 
-- 
2.43.0


From 48106906a41ccad7d62984dbb3e46af7392accc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 38/43] fix: raise CatalogError for a loaded document that is
 not a metaschema

---
 jschon/catalog/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index c41dfa3..45f0cf0 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -217,6 +217,9 @@ class Catalog:
         :raise CatalogError: if the metaschema is not valid
         """
         metaschema_doc = self.load_json(uri)
+        if not isinstance(metaschema_doc, Mapping):
+            raise CatalogError(f"The object referenced by {uri} is not a metaschema")
+
         default_core_vocabulary = (
             self.get_vocabulary(default_core_vocabulary_uri)
             if default_core_vocabulary_uri
-- 
2.43.0


From abaaffcd50aec80c343d308c6b44e5492526ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:12 +0000
Subject: [PATCH 39/43] fix: do not mistake an unknown keyword for the known
 one of the same name

---
 jschon/jsonschema.py            | 20 +++++++++++++++++---
 jschon/vocabulary/__init__.py   |  1 +
 jschon/vocabulary/applicator.py | 16 ++++++++--------
 jschon/vocabulary/legacy.py     | 14 +++++++-------
 jschon/vocabulary/validation.py |  4 ++--
 5 files changed, 35 insertions(+), 20 deletions(-)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index cd018a7..d3cb452 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -394,6 +394,7 @@ class Result:
         self._valid = True
         self._assert = True
         self._discard = False
+        self._unknown = False
         self._refschema: Optional[JSONSchema] = None
 
         if parent is None:
@@ -491,6 +492,11 @@ class Result:
         """Indicate that the result should be ignored and discarded."""
         self._discard = True
 
+    def unknown(self) -> None:
+        """Indicate that the keyword is not known to the schema's metaschema.
+        Its annotation plays no part in the evaluation of other keywords."""
+        self._unknown = True
+
     def refschema(self, schema: JSONSchema) -> None:
         """Set the referenced schema for a by-reference keyword.
         
@@ -529,16 +535,24 @@ class Result:
                 relpath = self.relpath
             return schema_uri.copy(fragment=relpath.uri_fragment())
 
-    def collect_annotations(self, instance: JSON = None, key: str = None) -> Iterator[JSONCompatible]:
+    def collect_annotations(
+            self,
+            instance: JSON = None,
+            key: str = None,
+            *,
+            known: bool = False,
+    ) -> Iterator[JSONCompatible]:
         """Return an iterator over annotations produced in this subtree,
-        optionally filtered by instance and/or keyword."""
+        optionally filtered by instance and/or keyword. If `known` is True,
+        the annotations of unknown keywords are left out."""
         if self._valid and not self._discard:
             if self.annotation is not None and \
+                    not (known and self._unknown) and \
                     (key is None or key == self.key) and \
                     (instance is None or instance.path == self.instance.path):
                 yield self.annotation
             for child in self.children.values():
-                yield from child.collect_annotations(instance, key)
+                yield from child.collect_annotations(instance, key, known=known)
 
     def collect_errors(self, instance: JSON = None, key: str = None) -> Iterator[JSONCompatible]:
         """Return an iterator over errors produced in this subtree,
diff --git a/jschon/vocabulary/__init__.py b/jschon/vocabulary/__init__.py
index 4ea164a..53a38c4 100644
--- a/jschon/vocabulary/__init__.py
+++ b/jschon/vocabulary/__init__.py
@@ -163,6 +163,7 @@ class _UnknownKeyword(Keyword):
     def evaluate(self, instance: JSON, result: Result) -> None:
         result.annotate(self.json.value)
         result.noassert()
+        result.unknown()
 
 
 class SubschemaMixin:
diff --git a/jschon/vocabulary/applicator.py b/jschon/vocabulary/applicator.py
index 23eac48..a89152e 100644
--- a/jschon/vocabulary/applicator.py
+++ b/jschon/vocabulary/applicator.py
@@ -209,25 +209,25 @@ class UnevaluatedItemsKeyword(Keyword, Subschema):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         last_evaluated_item = -1
-        for prefix_items_annotation in result.parent.collect_annotations(instance, "prefixItems"):
+        for prefix_items_annotation in result.parent.collect_annotations(instance, "prefixItems", known=True):
             if prefix_items_annotation is True:
                 result.discard()
                 return
             if prefix_items_annotation > last_evaluated_item:
                 last_evaluated_item = prefix_items_annotation
 
-        for items_annotation in result.parent.collect_annotations(instance, "items"):
+        for items_annotation in result.parent.collect_annotations(instance, "items", known=True):
             if items_annotation is True:
                 result.discard()
                 return
 
-        for unevaluated_items_annotation in result.parent.collect_annotations(instance, "unevaluatedItems"):
+        for unevaluated_items_annotation in result.parent.collect_annotations(instance, "unevaluatedItems", known=True):
             if unevaluated_items_annotation is True:
                 result.discard()
                 return
 
         contains_indices = set()
-        for contains_annotation in result.parent.collect_annotations(instance, "contains"):
+        for contains_annotation in result.parent.collect_annotations(instance, "contains", known=True):
             contains_indices |= set(contains_annotation)
 
         annotation = None
@@ -368,13 +368,13 @@ class UnevaluatedPropertiesKeyword(Keyword, Subschema):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         evaluated_names = set()
-        for properties_annotation in result.parent.collect_annotations(instance, "properties"):
+        for properties_annotation in result.parent.collect_annotations(instance, "properties", known=True):
             evaluated_names |= set(properties_annotation)
-        for pattern_properties_annotation in result.parent.collect_annotations(instance, "patternProperties"):
+        for pattern_properties_annotation in result.parent.collect_annotations(instance, "patternProperties", known=True):
             evaluated_names |= set(pattern_properties_annotation)
-        for additional_properties_annotation in result.parent.collect_annotations(instance, "additionalProperties"):
+        for additional_properties_annotation in result.parent.collect_annotations(instance, "additionalProperties", known=True):
             evaluated_names |= set(additional_properties_annotation)
-        for unevaluated_properties_annotation in result.parent.collect_annotations(instance, "unevaluatedProperties"):
+        for unevaluated_properties_annotation in result.parent.collect_annotations(instance, "unevaluatedProperties", known=True):
             evaluated_names |= set(unevaluated_properties_annotation)
 
         annotation = []
diff --git a/jschon/vocabulary/legacy.py b/jschon/vocabulary/legacy.py
index 8e5bffa..1be931d 100644
--- a/jschon/vocabulary/legacy.py
+++ b/jschon/vocabulary/legacy.py
@@ -139,19 +139,19 @@ class UnevaluatedItemsKeyword_2019_09(Keyword, Subschema):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         last_evaluated_item = -1
-        for items_annotation in result.parent.collect_annotations(instance, "items"):
+        for items_annotation in result.parent.collect_annotations(instance, "items", known=True):
             if items_annotation is True:
                 result.discard()
                 return
             if type(items_annotation) is int and items_annotation > last_evaluated_item:
                 last_evaluated_item = items_annotation
 
-        for additional_items_annotation in result.parent.collect_annotations(instance, "additionalItems"):
+        for additional_items_annotation in result.parent.collect_annotations(instance, "additionalItems", known=True):
             if additional_items_annotation is True:
                 result.discard()
                 return
 
-        for unevaluated_items_annotation in result.parent.collect_annotations(instance, "unevaluatedItems"):
+        for unevaluated_items_annotation in result.parent.collect_annotations(instance, "unevaluatedItems", known=True):
             if unevaluated_items_annotation is True:
                 result.discard()
                 return
@@ -193,13 +193,13 @@ class UnevaluatedPropertiesKeyword_2019_09(Keyword, Subschema):
 
     def evaluate(self, instance: JSON, result: Result) -> None:
         evaluated_names = set()
-        for properties_annotation in result.parent.collect_annotations(instance, "properties"):
+        for properties_annotation in result.parent.collect_annotations(instance, "properties", known=True):
             evaluated_names |= set(properties_annotation)
-        for pattern_properties_annotation in result.parent.collect_annotations(instance, "patternProperties"):
+        for pattern_properties_annotation in result.parent.collect_annotations(instance, "patternProperties", known=True):
             evaluated_names |= set(pattern_properties_annotation)
-        for additional_properties_annotation in result.parent.collect_annotations(instance, "additionalProperties"):
+        for additional_properties_annotation in result.parent.collect_annotations(instance, "additionalProperties", known=True):
             evaluated_names |= set(additional_properties_annotation)
-        for unevaluated_properties_annotation in result.parent.collect_annotations(instance, "unevaluatedProperties"):
+        for unevaluated_properties_annotation in result.parent.collect_annotations(instance, "unevaluatedProperties", known=True):
             evaluated_names |= set(unevaluated_properties_annotation)
 
         annotation = []
diff --git a/jschon/vocabulary/validation.py b/jschon/vocabulary/validation.py
index 4c7e02d..7d3871d 100644
--- a/jschon/vocabulary/validation.py
+++ b/jschon/vocabulary/validation.py
@@ -183,7 +183,7 @@ class MaxContainsKeyword(Keyword):
     depends_on = "contains",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if contains := result.sibling(instance, "contains"):
+        if (contains := result.sibling(instance, "contains")) and not contains._unknown:
             if contains.annotation is not None and len(contains.annotation) > self.json:
                 result.fail('The array has too many elements matching the '
                             f'"contains" subschema (maximum {self.json})')
@@ -195,7 +195,7 @@ class MinContainsKeyword(Keyword):
     depends_on = "contains", "maxContains",
 
     def evaluate(self, instance: JSON, result: Result) -> None:
-        if contains := result.sibling(instance, "contains"):
+        if (contains := result.sibling(instance, "contains")) and not contains._unknown:
             contains_count = len(contains.annotation) \
                 if contains.annotation is not None \
                 else 0
-- 
2.43.0


From 62aa92f884f902939563087ba57dc4cea1cd7679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:05 +0000
Subject: [PATCH 40/43] fix: do not let the built-in format validators replace
 registered ones

---
 jschon/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jschon/__init__.py b/jschon/__init__.py
index 1a4d92b..d7f97b1 100644
--- a/jschon/__init__.py
+++ b/jschon/__init__.py
@@ -1,3 +1,4 @@
+from . import formats  # noqa: registers the built-in format validators before any others
 from .catalog import Catalog, LocalSource, RemoteSource
 from .json import JSON, JSONCompatible
 from .jsonpatch import JSONPatch, JSONPatchOperation
-- 
2.43.0


From 6e2ecc4629b8033007aca3f15280502465951987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 41/43] fix: find the root of a schema that is being
 constructed whatever its keywords

---
 jschon/jsonschema.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jschon/jsonschema.py b/jschon/jsonschema.py
index d3cb452..f303a65 100644
--- a/jschon/jsonschema.py
+++ b/jschon/jsonschema.py
@@ -249,7 +249,7 @@ class JSONSchema(JSON):
         if '$id' in self.keywords:
             return self
         ancestor = self
-        while ancestor.parentschema:
+        while ancestor.parentschema is not None:
             ancestor = ancestor.parentschema
             if '$id' in ancestor.keywords:
                 return ancestor
@@ -264,7 +264,7 @@ class JSONSchema(JSON):
         this method returns `self`.
         """
         ancestor = self
-        while ancestor.parentschema:
+        while ancestor.parentschema is not None:
             ancestor = ancestor.parentschema
         return ancestor
 
-- 
2.43.0


From d930529f8e1edbbfaa7b9ad6db2c2e246d2301fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 42/43] fix: raise CatalogError for an invalid metaschema that
 has no "$schema"

---
 jschon/catalog/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 45f0cf0..7c5cc61 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -241,7 +241,7 @@ class Catalog:
             if not metaschema.validate().valid:
                 raise CatalogError(
                     "The metaschema is invalid against its own metaschema "
-                    f'"{metaschema_doc["$schema"]}"'
+                    f'"{metaschema.metaschema_uri}"'
                 )
         return metaschema
 
-- 
2.43.0


From 2bad3415781f9bf4f2a9f51eb8ce2cd773245349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:31 +0000
Subject: [PATCH 43/43] fix: get an empty metaschema from the cache instead of
 loading it again

---
 jschon/catalog/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jschon/catalog/__init__.py b/jschon/catalog/__init__.py
index 7c5cc61..fde2f85 100644
--- a/jschon/catalog/__init__.py
+++ b/jschon/catalog/__init__.py
@@ -264,7 +264,7 @@ class Catalog:
         except KeyError:
             metaschema = None
 
-        if not metaschema:
+        if metaschema is None:
             metaschema = self.create_metaschema(uri)
 
         if not isinstance(metaschema, Metaschema):
-- 
2.43.0

