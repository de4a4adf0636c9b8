From bf09cb61c38d86b0e4d8904a016b70193fc0766e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:02 +0000
Subject: [PATCH 01/11] fix: tolerate alternatePeripheral/alternateCluster
 naming an element that does not exist

---
 src/svdsuite/process.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 866322c..0f204cb 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -765,7 +765,11 @@ class _ValidateAndFinalize:
             # Add peripherals that have 'current' as their alternate.
             stack.extend(name for name, p in peripheral_lookup.items() if p.alternate_peripheral == current)
             # If the current peripheral has an alternate (primary), add it.
-            primary = peripheral_lookup[current].alternate_peripheral
+            try:
+                primary = peripheral_lookup[current].alternate_peripheral
+            except KeyError:
+                primary = None
+
             if primary is not None:
                 stack.append(primary)
 
@@ -975,7 +979,11 @@ class _ValidateAndFinalize:
             # Add clusters that have 'current' as their alternate.
             stack.extend(name for name, p in cluster_lookup.items() if p.alternate_cluster == current)
             # If the current cluster has an alternate (primary), add it.
-            primary = cluster_lookup[current].alternate_cluster
+            try:
+                primary = cluster_lookup[current].alternate_cluster
+            except KeyError:
+                primary = None
+
             if primary is not None:
                 stack.append(primary)
 
-- 
2.43.0


From 24ac2e3d7cb8ee03cd3d74578969ab16771ed7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 02/11] fix: take the device's size, when stated, as the size
 registers inherit

---
 src/svdsuite/resolve/resolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 2fb9b48..1417402 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -435,7 +435,8 @@ class Resolver:
         parent = parents[0]  # only dim nodes have multiple parents, but all have same size
 
         if parent.level == ElementLevel.DEVICE:
-            return 32  # default size for device
+            device_size = cast(SVDDevice, parent.parsed).size
+            return 32 if device_size is None else device_size  # 32 is the default size for device
 
         element = parent.processed
         if not isinstance(element, IPeripheral | ICluster):
-- 
2.43.0


From 7085fd6d0e91ba6737425232b44e3271db2c62e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 03/11] fix: serialize a field's bit offset, width, lsb and msb
 each when stated

---
 src/svdsuite/serialize.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/serialize.py b/src/svdsuite/serialize.py
index afaac20..c0cffdc 100644
--- a/src/svdsuite/serialize.py
+++ b/src/svdsuite/serialize.py
@@ -316,12 +316,16 @@ class SVDFieldSerializer(XMLSerializable):
         if self.field.description is not None:
             element.append(self._append_element("description", text=self.field.description))
 
-        if self.field.bit_offset is not None and self.field.bit_width is not None:
+        if self.field.bit_offset is not None:
             element.append(self._append_element("bitOffset", text=str(self.field.bit_offset)))
+
+        if self.field.bit_width is not None:
             element.append(self._append_element("bitWidth", text=str(self.field.bit_width)))
 
-        if self.field.lsb is not None and self.field.msb is not None:
+        if self.field.lsb is not None:
             element.append(self._append_element("lsb", text=str(self.field.lsb)))
+
+        if self.field.msb is not None:
             element.append(self._append_element("msb", text=str(self.field.msb)))
 
         if self.field.bit_range is not None:
-- 
2.43.0


From cf999d27c066550fd4ae08f6a6f82d0eae26018e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 04/11] fix: converted write constraints refer to the field or
 register they belong to

---
 src/svdsuite/util/process_parse_model_convert.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/svdsuite/util/process_parse_model_convert.py b/src/svdsuite/util/process_parse_model_convert.py
index 04ad35f..f550f46 100644
--- a/src/svdsuite/util/process_parse_model_convert.py
+++ b/src/svdsuite/util/process_parse_model_convert.py
@@ -183,6 +183,9 @@ def process_parse_convert_field(field: Field) -> SVDField:
         parent=None,  # set by parent register
     )
 
+    if svd_field.write_constraint:
+        svd_field.write_constraint.parent = svd_field
+
     for container in enumerated_value_containers:
         container.parent = svd_field
 
@@ -215,6 +218,9 @@ def process_parse_convert_register(register: Register) -> SVDRegister:
         parent=None,  # set by parent cluster or peripheral
     )
 
+    if svd_register.write_constraint:
+        svd_register.write_constraint.parent = svd_register
+
     for field in fields:
         field.parent = svd_register
 
-- 
2.43.0


From 1a7002252191a2820af736fbc16a7eb6c48720dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 05/11] fix: allocated range of a peripheral ends with its
 furthest address block

---
 src/svdsuite/map.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/svdsuite/map.py b/src/svdsuite/map.py
index cd4f0fa..fb56e4f 100644
--- a/src/svdsuite/map.py
+++ b/src/svdsuite/map.py
@@ -78,12 +78,10 @@ class PeripheralRegisterMap:
         return registers
 
     def _get_allocated_range(self, start_address: int, address_blocks: list[AddressBlock]) -> tuple[int, int]:
-        address_blocks = sorted(address_blocks, key=lambda x: x.offset)
-
         if not address_blocks:
             raise ValueError("Address blocks are empty")
 
-        begin = start_address + address_blocks[0].offset
-        end = start_address + address_blocks[-1].offset + address_blocks[-1].size - 1
+        begin = start_address + min(block.offset for block in address_blocks)
+        end = start_address + max(block.offset + block.size for block in address_blocks) - 1
 
         return (begin, end)
-- 
2.43.0


From edb9366b51867254fdd7f9821f1aab63c25f46e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 06/11] fix: report every failure of the resolver as
 ProcessException

---
 src/svdsuite/process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 0f204cb..931a3f0 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -46,6 +46,7 @@ from svdsuite.resolve.resolver import Resolver
 from svdsuite.resolve.exception import (
     EnumeratedValueContainerException,
     LoopException,
+    ResolveException,
     CycleException,
     UnprocessedNodesException,
 )
@@ -104,6 +105,8 @@ class Process:
             raise ProcessException("A circular inheritance was detected during resolving") from e
         except UnprocessedNodesException as e:
             raise ProcessException("Some nodes were not processed during resolving") from e
+        except ResolveException as e:
+            raise ProcessException(f"Resolving failed: {e}") from e
 
         intermediate_device = IDevice(
             size=size,
-- 
2.43.0


From 4d8f92e19f11047641e948203c136aaa652c4fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 07/11] fix: stay importable on Python 3.10 and 3.11, as
 requires-python declares

---
 src/svdsuite/process.py        | 5 ++++-
 src/svdsuite/resolve/logger.py | 6 ++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 931a3f0..7ce4e42 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1,6 +1,7 @@
 import re
 import itertools
 import warnings
+from typing import TypeVar
 
 from svdsuite.parse import Parser
 from svdsuite.model.parse import (
@@ -52,8 +53,10 @@ from svdsuite.resolve.exception import (
 )
 from svdsuite.model.type_alias import ParsedDimablePeripheralTypes, IntermediateDimablePeripheralTypes
 
+T = TypeVar("T")
 
-def or_if_none[T](a: None | T, b: None | T) -> None | T:
+
+def or_if_none(a: None | T, b: None | T) -> None | T:
     return a if a is not None else b
 
 
diff --git a/src/svdsuite/resolve/logger.py b/src/svdsuite/resolve/logger.py
index a168db4..6294a5c 100644
--- a/src/svdsuite/resolve/logger.py
+++ b/src/svdsuite/resolve/logger.py
@@ -1,10 +1,12 @@
 import itertools
-from typing import Any, Callable
+from typing import Any, Callable, TypeVar
 
 from svdsuite.resolve.graph import ResolverGraph
 from svdsuite.resolve.graph_elements import ElementNode
 from svdsuite.util.html_generator import HTMLGenerator
 
+R = TypeVar("R")
+
 
 class ResolverLogger:
     def __init__(self, resolver_logging_file_path: None | str, resolver_graph: ResolverGraph):
@@ -17,7 +19,7 @@ class ResolverLogger:
             self._html_generator = HTMLGenerator(self._resolver_logging_file_path)
 
     @staticmethod
-    def _only_execute_if_logging_is_active[R](method: Callable[..., R]) -> Callable[..., R | None]:
+    def _only_execute_if_logging_is_active(method: Callable[..., R]) -> Callable[..., R | None]:
         def wrapper(self: "ResolverLogger", *args: Any, **kwargs: Any) -> R | None:
             if self._resolver_logging_file_path is None:  # pylint: disable=protected-access
                 return None
-- 
2.43.0


From 102aaadb5df5889cf2c32def83290bddcd113f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 08/11] fix: order schema versions without packaging, which is
 not a declared dependency

---
 src/svdsuite/validate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/svdsuite/validate.py b/src/svdsuite/validate.py
index 9f18e80..5891f3c 100644
--- a/src/svdsuite/validate.py
+++ b/src/svdsuite/validate.py
@@ -1,6 +1,5 @@
 import os
 from enum import Enum
-from packaging.version import Version
 import lxml.etree
 
 from svdsuite.util.xml_parse import safe_parse, safe_fromstring
@@ -25,7 +24,7 @@ class SVDSchemaVersion(Enum):
     @staticmethod
     def get_latest() -> "SVDSchemaVersion":
         versions = [e.value for e in SVDSchemaVersion]
-        versions.sort(key=Version)
+        versions.sort(key=lambda version: tuple(int(part) for part in version.split(".")))
         return SVDSchemaVersion(versions[-1])
 
 
-- 
2.43.0


From d301e8d28886979fa6cf94a4f02c90a83c21eb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 09/11] fix: refuse a dimIndex that only starts like a range
 instead of crashing

---
 src/svdsuite/process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 7ce4e42..efe84b6 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1132,14 +1132,14 @@ class _ProcessDimension:
 
         if dim_index is None:
             dim_index_list = [str(i) for i in range(dim)]
-        elif re.match(r"[0-9]+\-[0-9]+", dim_index):
+        elif re.fullmatch(r"[0-9]+\-[0-9]+", dim_index):
             start, end = dim_index.split("-")
 
             if int(start) > int(end):
                 raise ProcessException(f"dim index '{dim_index}' start value must be less than end value")
 
             dim_index_list = [str(i) for i in range(int(start), int(end) + 1)]
-        elif re.match(r"[A-Z]-[A-Z]", dim_index):
+        elif re.fullmatch(r"[A-Z]-[A-Z]", dim_index):
             start, end = dim_index.split("-")
 
             if ord(start) >= ord(end):
-- 
2.43.0


From 523f4f9b64ef1d0e5d8e98f59c946fb55a0af099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 10/11] fix: tolerate a default enumerated value in a field
 whose msb is below its lsb

---
 src/svdsuite/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index efe84b6..1fe26d5 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1266,7 +1266,7 @@ class _ProcessEnumeratedValueContainer:
         self, enumerated_values: list[IEnumeratedValue], default: IEnumeratedValue, lsb: int, msb: int
     ) -> list[IEnumeratedValue]:
         covered_values = {value.value for value in enumerated_values if value.value is not None}
-        all_possible_values = set(range(pow(2, msb - lsb + 1)))
+        all_possible_values = set(range(int(pow(2, msb - lsb + 1))))
 
         uncovered_values = all_possible_values - covered_values
 
-- 
2.43.0


From 3c4d7adcf6cffab02ed21143e138d3b1b5e30026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 11/11] fix: accept repeated elements of which one is empty

---
 src/svdsuite/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 82b4378..6bebd4f 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -143,7 +143,7 @@ class Parser:
         elements = parent.findall(element_name)
 
         if len(elements) > 1:
-            texts = ", ".join([x.text for x in elements])  # type: ignore[union-attr]
+            texts = ", ".join([x.text or "" for x in elements])
             lines = ", ".join([str(x.sourceline) for x in elements])
             warnings.warn(
                 f"Multiple elements '{element_name}' with texts '{texts}' found at svd file source lines '{lines}'. "
-- 
2.43.0

