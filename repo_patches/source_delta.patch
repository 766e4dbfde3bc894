From 71738ae0682fd018992b503fa81b26fca80ec571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:12 +0000
Subject: [PATCH 01/26] fix: size signed INTEGER members in generated C by
 their range

Signed ranges were always emitted as plain 'int', so wide ranges did not fit
and narrow ones disagreed with the COSMOS definition of the same item.
---
 asn1_parser/generators/generator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 6573cd1..4b208ed 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -77,6 +77,10 @@ class Generator:
                     # TODO specify correctly (smallest uint)
                     # if not matching get something big
                     valid_c_type = "unsigned long long"
+            elif valid_c_type == "int":
+                # get_bit_size() only returns sizes covered by stdint
+                is_stdint_needed = True
+                valid_c_type = valid_c_type + str(bit_size) + "_t"
         elif valid_c_type == "BOOLEAN":
             # Note: booleans are encoded as uint8_t bitfilds of 1 bit
             bit_length = " : 1"
-- 
2.43.0


From 43b503770a426f26a605ceb7f8fd04e418611a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:27 +0000
Subject: [PATCH 02/26] fix: encode members of a BOOLEAN alias type as 1 bit
 bitfields

They were emitted as 'bool' without including stdbool.h, 8 bits wide, unlike
direct BOOLEAN members and unlike the COSMOS definition.
---
 asn1_parser/generators/generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 4b208ed..2c32aa9 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -81,6 +81,11 @@ class Generator:
                 # get_bit_size() only returns sizes covered by stdint
                 is_stdint_needed = True
                 valid_c_type = valid_c_type + str(bit_size) + "_t"
+            elif valid_c_type == "bool":
+                # same encoding as for a direct use of BOOLEAN, see below
+                is_stdint_needed = True
+                bit_length = " : 1"
+                valid_c_type = "uint8_t"
         elif valid_c_type == "BOOLEAN":
             # Note: booleans are encoded as uint8_t bitfilds of 1 bit
             bit_length = " : 1"
-- 
2.43.0


From 0a36430727b5e185cd08760214d1872af56396ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:58 +0000
Subject: [PATCH 03/26] fix: do not turn COSMOS booleans without a fixed value
 into ID items

Every BOOLEAN item was emitted as APPEND_ID_ITEM with ID value 0 (and boolean
arrays with an array size of 0), so packets with the flag set were not
identified.
---
 asn1_parser/generators/cosmos/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/templates.py b/asn1_parser/generators/cosmos/templates.py
index 7164131..3463b45 100644
--- a/asn1_parser/generators/cosmos/templates.py
+++ b/asn1_parser/generators/cosmos/templates.py
@@ -62,7 +62,7 @@ def cosmos_telemetry(
             cos_type = "UINT"
             if specific_value == "True":
                 specific_value = "1"
-            else:
+            elif specific_value == "False":
                 specific_value = "0"
         elif cosmos_type == TypeEnum.A_DOUBLE:
             # change c_double to FLOAT
-- 
2.43.0


From 1ed721b3771b3982f3bad81dd1a7a7407277b1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:12 +0000
Subject: [PATCH 04/26] fix: generate COSMOS items for an APID without a fixed
 value

Formatting the missing value as hex raised ValueError.
---
 asn1_parser/generators/cosmos/generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 9a25552..ec728dc 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -217,7 +217,10 @@ class COSMOSGenerator:
                 is_array = isinstance(seq_type, Array)
                 if is_array:
                     specific_value = str(seq_type.get_length() * bitsize)
-                elif seq_item.get_key() == ASN1_KEY_CCSDS_APID:
+                elif (
+                    seq_item.get_key() == ASN1_KEY_CCSDS_APID
+                    and specific_value != ""
+                ):
                     specific_value = f"0x{specific_value:02X}"
                 else:
                     specific_value = str(specific_value)
-- 
2.43.0


From d3d927ce6c26e3e72d69446451907e803920e89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:24 +0000
Subject: [PATCH 05/26] fix: do not modify the model while generating COSMOS
 packets

The components of an enclosing WITH COMPONENTS were added to the model itself,
so later packets of the same run got values that do not belong to them.
---
 asn1_parser/generators/cosmos/generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index ec728dc..c507fbd 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -131,7 +131,8 @@ class COSMOSGenerator:
                 with_components: WithComponents = seq_item.get_with_components()
                 components_list: List[ComponentsItem] = []
                 if with_components:
-                    components_list = with_components.get_components()
+                    # copy(): the list is extended below, do not modify the model
+                    components_list = with_components.get_components().copy()
                 specific_value: str = ""
                 # go through WITH COMPONENTS
                 if with_comp:
-- 
2.43.0


From 6d78666cf8d2c285187088fb0716c9897078b8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:44 +0000
Subject: [PATCH 06/26] fix: include the headers of imported modules by their
 file name

generate-c and generate-binary emitted #include "module" without the .h
extension of the file they generate, so importing headers did not compile.
---
 asn1_parser/generators/binary/generator.py | 2 +-
 asn1_parser/generators/c/generator.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 969e740..23b153c 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -107,7 +107,7 @@ class BinaryGenerator(Generator):
                 module_cdata.add_include(
                     str(
                         cgen.Include(
-                            cls.get_filename(module_imported_item),
+                            cls.get_filename(module_imported_item) + ".h",
                             system=False,
                         )
                     )
diff --git a/asn1_parser/generators/c/generator.py b/asn1_parser/generators/c/generator.py
index 74ed97d..7472726 100644
--- a/asn1_parser/generators/c/generator.py
+++ b/asn1_parser/generators/c/generator.py
@@ -62,7 +62,7 @@ class CGenerator(Generator):
                 module_cdata.add_include(
                     str(
                         cgen.Include(
-                            cls.get_filename(module_imported_item),
+                            cls.get_filename(module_imported_item) + ".h",
                             system=False,
                         )
                     )
-- 
2.43.0


From 5bc8b8d004f4ad88f13f821721db1500323772f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:59 +0000
Subject: [PATCH 07/26] fix: keep the include of generated C initialisers

It was dropped as soon as a definition without WITH COMPONENTS followed, so the
generated .c file did not compile.
---
 asn1_parser/c_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/c_data.py b/asn1_parser/c_data.py
index be0cfb7..b3ebcf3 100644
--- a/asn1_parser/c_data.py
+++ b/asn1_parser/c_data.py
@@ -80,7 +80,8 @@ class CData:
         self._init_list.extend(other_cdata.get_init_list())
         self._init_list_predef.extend(other_cdata.get_init_list_predef())
         # TODO one init_include per file?
-        self.set_init_include(other_cdata.get_init_include())
+        if other_cdata.get_init_include():
+            self.set_init_include(other_cdata.get_init_include())
         self.set_stdbool_if_needed(other_cdata.is_stdbool_needed())
         self.set_stdint_if_needed(other_cdata.is_stdint_needed())
         # TODO prevent overriding existing keys
-- 
2.43.0


From de48a63b0395ee85f395482c8caad742e2fe4d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:37 +0000
Subject: [PATCH 08/26] fix: reject circular imports and circular type
 definitions

The documentation forbids circular imports, but they and recursive types made
the generators loop forever instead of being reported.
---
 .../asn1/validation/asn1_bundle_validator.py  | 42 ++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/validation/asn1_bundle_validator.py b/asn1_parser/asn1/validation/asn1_bundle_validator.py
index 97e948c..7c3d3b0 100644
--- a/asn1_parser/asn1/validation/asn1_bundle_validator.py
+++ b/asn1_parser/asn1/validation/asn1_bundle_validator.py
@@ -1,8 +1,11 @@
-from typing import List, Union, Dict
+from typing import List, Union, Dict, Set
 
 from asn1_parser.asn1.asn1_bundle import ASN1Bundle
 from asn1_parser.asn1.grammar_elements.asn1_module import Asn1Module
+from asn1_parser.asn1.grammar_elements.choice import Choice
 from asn1_parser.asn1.grammar_elements.definitions import Definitions
+from asn1_parser.asn1.grammar_elements.sequence import Sequence
+from asn1_parser.asn1.grammar_elements.simple_definition import SimpleDefinition
 from asn1_parser.asn1.processor import (
     model_processor_check_used_components_defined,
 )
@@ -35,6 +38,7 @@ class ASN1BundleValidator:
     def validate_bundle(bundle: ASN1Bundle) -> None:
         ASN1BundleValidator._check_imported_types_and_check_components(bundle)
         ASN1BundleValidator._check_bundle_for_duplicate_definitions(bundle)
+        ASN1BundleValidator._check_circular_dependencies(bundle)
 
     @staticmethod
     def _check_imported_types_and_check_components(bundle: ASN1Bundle) -> None:
@@ -101,6 +105,42 @@ class ASN1BundleValidator:
                         definition.get_type_name()
                     ] = module.get_module_name()
 
+    @staticmethod
+    def _check_circular_dependencies(bundle: ASN1Bundle) -> None:
+        imports: Dict[str, Set[str]] = {}
+        used_types: Dict[str, Set[str]] = {}
+        for module in bundle.get_modules():
+            imports[module.get_module_name()] = {
+                item.get_module_name() for item in module.get_import_items()
+            }
+            for definition in module.get_definitions():
+                uses: Set[str] = set()
+                if isinstance(definition, (Sequence, Choice)):
+                    uses = {
+                        child.get_asn_type().get_type_name()
+                        for child in definition.get_children()
+                    }
+                elif isinstance(definition, SimpleDefinition):
+                    uses = {definition.get_asn_type().get_type_name()}
+                used_types[definition.get_type_name()] = uses
+
+        for kind, graph in (("imports", imports), ("types", used_types)):
+            circular = ASN1BundleValidator._find_circular_names(graph)
+            if circular:
+                raise ASN1ConsistencyError(
+                    f"Circular {kind} are not allowed: {', '.join(circular)}"
+                )
+
+    @staticmethod
+    def _find_circular_names(graph: Dict[str, Set[str]]) -> List[str]:
+        # repeatedly drop what does not depend on a remaining name
+        remaining: Set[str] = set(graph)
+        while True:
+            resolved = {n for n in remaining if not graph[n] & remaining}
+            if not resolved:
+                return sorted(remaining)
+            remaining -= resolved
+
     @staticmethod
     def check_missing_modules(
         config: Union[
-- 
2.43.0


From 2e58df87cde253a6c33b15670e32f769684d8c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:36 +0000
Subject: [PATCH 09/26] fix: reject simple definitions of an undefined type

Only the members of sequences and choices were checked, so 'A ::= B' without a
definition of B was accepted.
---
 asn1_parser/asn1/processor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index c3bdd7c..b0d7107 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -65,9 +65,11 @@ def model_processor_check_used_types_defined(
 
     defined_types: List[str] = _check_types_once_defined(model)
     for definition in model.get_definitions():
-        key_type_pair_list: List[KeyTypePair] = []
+        key_type_pair_list: List[Union[KeyTypePair, SimpleDefinition]] = []
         if isinstance(definition, (Sequence, Choice)):
             key_type_pair_list = definition.get_children()
+        elif isinstance(definition, SimpleDefinition):
+            key_type_pair_list = [definition]
         else:
             pass
 
-- 
2.43.0


From c64a4fca5c56c09d06da14e5ed84b504cbfca195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:48 +0000
Subject: [PATCH 10/26] fix: use one bit for types whose only value is 0

INTEGER(0..0) crashed the C generators, an ENUMERATED with one item became a
named bitfield of width 0, which is not valid C, and COSMOS items of 0 bits.
---
 asn1_parser/asn1/grammar_elements/enumerated.py | 4 +++-
 asn1_parser/utils/size.py                       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/asn1/grammar_elements/enumerated.py b/asn1_parser/asn1/grammar_elements/enumerated.py
index 2490546..49f4349 100644
--- a/asn1_parser/asn1/grammar_elements/enumerated.py
+++ b/asn1_parser/asn1/grammar_elements/enumerated.py
@@ -37,4 +37,6 @@ class Enumerated(Definitions):
         """
         values = [e.get_pos() for e in self.get_enum()]
         last_value = max(values)
-        return last_value.bit_length()  # int.bit_length() is a Python builtin
+        # int.bit_length() is a Python builtin
+        # a field needs at least one bit, also if its only value is 0
+        return max(last_value.bit_length(), 1)
diff --git a/asn1_parser/utils/size.py b/asn1_parser/utils/size.py
index e1ad03c..c6cfedf 100644
--- a/asn1_parser/utils/size.py
+++ b/asn1_parser/utils/size.py
@@ -40,7 +40,9 @@ def get_bit_size(
         bitsize = 1
     elif c_type is TypeEnum.A_UINT:
         assert isinstance(end, int), f"Expected int, got {type(end)} ({end})"
-        bitsize = end.bit_length()  # int.bit_length() is a Python builtin
+        # int.bit_length() is a Python builtin
+        # a field needs at least one bit, also if its only value is 0
+        bitsize = max(end.bit_length(), 1)
     elif c_type is TypeEnum.A_INT:
         assert isinstance(
             begin, int
-- 
2.43.0


From 9c2c3304b7ef22b638502043539121b917d4c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:59 +0000
Subject: [PATCH 11/26] fix: reject unsigned INTEGER ranges of more than 64
 bits

Signed ranges beyond stdint are rejected, unsigned ones were generated to
bitfields wider than their type, which is not valid C.
---
 asn1_parser/utils/size.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1_parser/utils/size.py b/asn1_parser/utils/size.py
index c6cfedf..3708916 100644
--- a/asn1_parser/utils/size.py
+++ b/asn1_parser/utils/size.py
@@ -43,6 +43,10 @@ def get_bit_size(
         # int.bit_length() is a Python builtin
         # a field needs at least one bit, also if its only value is 0
         bitsize = max(end.bit_length(), 1)
+        if bitsize > 64:
+            raise ValueError(
+                f"One of {begin} and {end} is out of stdint definition."
+            )
     elif c_type is TypeEnum.A_INT:
         assert isinstance(
             begin, int
-- 
2.43.0


From 24010b5f70abcf1a82b0c3a0d2486ce06c58356d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:06 +0000
Subject: [PATCH 12/26] fix: reject duplicate and negative values of ENUMERATED
 items

Values were only checked by their sum: items all numbered 0, or numbers that
cancel out such as -1 and 1, were silently renumbered.
---
 asn1_parser/asn1/grammar.py                          | 8 ++++++--
 asn1_parser/asn1/grammar_elements/enumerated_item.py | 8 ++++++--
 asn1_parser/asn1/processor.py                        | 4 +++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/asn1_parser/asn1/grammar.py b/asn1_parser/asn1/grammar.py
index 6079e7b..e6f7b77 100644
--- a/asn1_parser/asn1/grammar.py
+++ b/asn1_parser/asn1/grammar.py
@@ -44,11 +44,15 @@ Enumerated:
 ;
 
 EnumeratedItemNotLast:
-  key=NameLower ('('pos=INT')')? (',') (comment=Asn1Comment)?
+  key=NameLower (position=EnumeratedPosition)? (',') (comment=Asn1Comment)?
 ;
 
 EnumeratedItemLast:
-  key=NameLower ('('pos=INT')')? (comment=Asn1Comment)?
+  key=NameLower (position=EnumeratedPosition)? (comment=Asn1Comment)?
+;
+
+EnumeratedPosition:
+  '('pos=INT')'
 ;
 
 Asn1Type[noskipws]:
diff --git a/asn1_parser/asn1/grammar_elements/enumerated_item.py b/asn1_parser/asn1/grammar_elements/enumerated_item.py
index 3b4fa8a..52f4e6c 100644
--- a/asn1_parser/asn1/grammar_elements/enumerated_item.py
+++ b/asn1_parser/asn1/grammar_elements/enumerated_item.py
@@ -7,10 +7,11 @@ class EnumeratedItem:
     _logger = Logger(__name__)
 
     def __init__(
-        self, key: str, pos: int, comment: Asn1Comment, parent: Any
+        self, key: str, position: Any, comment: Asn1Comment, parent: Any
     ) -> None:
         self._key = key
-        self._pos = pos
+        self._is_pos_given: bool = position is not None
+        self._pos: int = 0 if position is None else position.pos
         self._comment = comment
         EnumeratedItem._logger.debug(f"comment: {self._comment}")
         self._parent = parent
@@ -24,6 +25,9 @@ class EnumeratedItem:
     def get_pos(self) -> int:
         return self._pos
 
+    def is_pos_given(self) -> bool:
+        return self._is_pos_given
+
     def get_comment(self) -> Asn1Comment:
         return self._comment
 
diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index b0d7107..0c232d8 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -272,7 +272,9 @@ def check_comment(model: Asn1Comment) -> None:
 
 def check_enumerated(model: Enumerated) -> None:
     pos_sum = sum([e.get_pos() for e in model.get_enum()])
-    if pos_sum == 0:
+    if not any(e.get_pos() for e in model.get_enum()):
+        if len([e for e in model.get_enum() if e.is_pos_given()]) > 1:
+            raise IndexError("index '0' is defined multiple times")
         # write position into object, when no positions are given
         pos = 0
         for enum in model.get_enum():
-- 
2.43.0


From 5c544ddb3cb1553a8bf2c6cc8d7fd43df6d8c67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:56 +0000
Subject: [PATCH 13/26] fix: handle sequences with several WITH COMPONENTS
 members

generate-c defined the initialised variable once per member, which does not
compile, and generate-binary kept only the values of the last member.
---
 asn1_parser/generators/binary/generator.py |  7 ++--
 asn1_parser/generators/c/generator.py      | 38 ++++++++++------------
 asn1_parser/generators/cfs/generator.py    | 13 ++++----
 asn1_parser/generators/generator.py        | 23 ++++++++-----
 4 files changed, 43 insertions(+), 38 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 23b153c..af044c1 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -168,7 +168,7 @@ class BinaryGenerator(Generator):
     def _with_components_handling(
         cls,
         definition_type_name_c: str,
-        seq_item: KeyTypePair,
+        seq_items: List[KeyTypePair],
         module: Optional[Asn1Module],
     ) -> CData:
         if not module:
@@ -201,7 +201,10 @@ class BinaryGenerator(Generator):
                         )
                 definitions[definition.get_type_name()] = seq_specifications
 
-        bin_data_list.extend(cls._values_to_bytes_list(seq_item, definitions))
+        for seq_item in seq_items:
+            bin_data_list.extend(
+                cls._values_to_bytes_list(seq_item, definitions)
+            )
 
         cdata.add_binary_init(
             lowerize(definition_type_name_c),
diff --git a/asn1_parser/generators/c/generator.py b/asn1_parser/generators/c/generator.py
index 7472726..4df7432 100644
--- a/asn1_parser/generators/c/generator.py
+++ b/asn1_parser/generators/c/generator.py
@@ -122,7 +122,7 @@ class CGenerator(Generator):
     def _with_components_handling(
         cls,
         definition_type_name_c: str,
-        seq_item: KeyTypePair,
+        seq_items: List[KeyTypePair],
         module: Optional[Asn1Module],
     ) -> CData:
         if not module:
@@ -131,7 +131,7 @@ class CGenerator(Generator):
         cdata: CData = CData.create_empty()
 
         cdata.add_init(
-            cls._process_start_with_component(definition_type_name_c, seq_item)
+            cls._process_start_with_component(definition_type_name_c, seq_items)
         )
         cdata.add_init_predef(
             definition_type_name_c
@@ -148,28 +148,24 @@ class CGenerator(Generator):
     def _process_start_with_component(
         cls,
         seq_name: str,
-        seq_item: KeyTypePair,
+        seq_items: List[KeyTypePair],
     ) -> str:
-        seq_key: str = seq_item.get_key()
-        with_components: WithComponents = seq_item.get_with_components()
-
         shift_level: int = 1
-        return (
-            seq_name
-            + " "
-            + lowerize(seq_name)
-            + " = {\n"
-            + (shift_level * cls._C_SPACES)
-            + "."
-            + CPrinter.asn1_to_c_style_naming(seq_key)
-            + " = {\n"
-            + cls._process_with_components(
-                with_components=with_components, shift_level=shift_level + 1
+        init_str: str = seq_name + " " + lowerize(seq_name) + " = {\n"
+        for seq_item in seq_items:
+            init_str += (
+                (shift_level * cls._C_SPACES)
+                + "."
+                + CPrinter.asn1_to_c_style_naming(seq_item.get_key())
+                + " = {\n"
+                + cls._process_with_components(
+                    with_components=seq_item.get_with_components(),
+                    shift_level=shift_level + 1,
+                )
+                + (shift_level * cls._C_SPACES)
+                + "},\n"
             )
-            + (shift_level * cls._C_SPACES)
-            + "},\n"
-            + "};\n"
-        )
+        return init_str + "};\n"
 
     @classmethod
     def _process_with_components(
diff --git a/asn1_parser/generators/cfs/generator.py b/asn1_parser/generators/cfs/generator.py
index b981955..18e2d1d 100644
--- a/asn1_parser/generators/cfs/generator.py
+++ b/asn1_parser/generators/cfs/generator.py
@@ -262,16 +262,17 @@ class CFSGenerator(Generator):
     def _with_components_handling(
         cls,
         definition_type_name_c: str,
-        seq_item: KeyTypePair,
+        seq_items: List[KeyTypePair],
         module: Optional[Asn1Module],
     ) -> CData:
         cdata: CData = CData.create_empty()
 
-        cdata.extend_with_define_list(
-            cls._process_with_components(
-                definition_type_name_c,
-                seq_item.get_with_components(),
+        for seq_item in seq_items:
+            cdata.extend_with_define_list(
+                cls._process_with_components(
+                    definition_type_name_c,
+                    seq_item.get_with_components(),
+                )
             )
-        )
 
         return cdata
diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 2c32aa9..3d84f2b 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -193,15 +193,20 @@ class Generator:
             definition_type_name_c: str = CPrinter.asn1_to_c_style_naming(
                 definition.get_type_name()
             )
-            # WITH COMPONENTS
-            if seq_item.get_with_components():
-                cdata.extend_with_cdata(
-                    cls._with_components_handling(
-                        definition_type_name_c=definition_type_name_c,
-                        seq_item=seq_item,
-                        module=module,
-                    )
+        # WITH COMPONENTS
+        seq_items_with_components: List[KeyTypePair] = [
+            seq_item
+            for seq_item in definition.get_children()
+            if seq_item.get_with_components()
+        ]
+        if seq_items_with_components:
+            cdata.extend_with_cdata(
+                cls._with_components_handling(
+                    definition_type_name_c=definition_type_name_c,
+                    seq_items=seq_items_with_components,
+                    module=module,
                 )
+            )
         cdata.add_data(
             comment_str
             + str(
@@ -329,7 +334,7 @@ class Generator:
     def _with_components_handling(
         cls,
         definition_type_name_c: str,
-        seq_item: KeyTypePair,
+        seq_items: List[KeyTypePair],
         module: Optional[Asn1Module],
     ) -> CData:
         raise NotImplementedError(
-- 
2.43.0


From 0699da869fc0ac5eddee7f041cac33c95786a7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:13 +0000
Subject: [PATCH 14/26] fix: write binary values in the order of the sequence
 definition

They were written in the order of the WITH COMPONENTS, so the binary did not
match the generated C struct when the two orders differ.
---
 asn1_parser/generators/binary/generator.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index af044c1..c9b7ce1 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -228,7 +228,9 @@ class BinaryGenerator(Generator):
             )
         asn_type_name: str = asn_type.get_type_name()
 
-        for component in with_component.get_components():
+        for component in cls._in_definition_order(
+            with_component, definitions[asn_type_name]
+        ):
             bin_data = cls._component_to_bytes(
                 component,
                 asn_type_name,
@@ -238,6 +240,17 @@ class BinaryGenerator(Generator):
 
         return bin_data_list
 
+    @staticmethod
+    def _in_definition_order(
+        with_components: WithComponents,
+        specification: Dict[str, SequenceSpecificationContainer],
+    ) -> List[ComponentsItem]:
+        keys: List[str] = list(specification)
+        return sorted(
+            with_components.get_components(),
+            key=lambda component: keys.index(component.get_key()),
+        )
+
     @classmethod
     def _component_to_bytes(  # pylint: disable=too-many-arguments
         cls,
@@ -258,7 +271,9 @@ class BinaryGenerator(Generator):
 
         if isinstance(value, WithComponents):
             inner_asn_type_name: str = key.get_seq_type()
-            for inner_component in value.get_components():
+            for inner_component in cls._in_definition_order(
+                value, definitions[inner_asn_type_name]
+            ):
                 bin_data = cls._component_to_bytes(
                     inner_component,
                     inner_asn_type_name,
-- 
2.43.0


From 1fa49fe095cad892fcef9ba9a8553afa8c2a2af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:16 +0000
Subject: [PATCH 15/26] fix: generate valid C for arrays of bitfield types

Arrays of BOOLEAN or of an INTEGER of less than its C type's width were emitted
as 'uint8_t key : 4[3]'.
---
 asn1_parser/generators/generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 3d84f2b..802a152 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -167,10 +167,12 @@ class Generator:
 
             seq_key = CPrinter.asn1_to_c_style_naming(seq_item.get_key())
 
-            if bit_length:
+            seq_item_type = seq_item.get_asn_type().get_type()
+
+            # Note: C has no arrays of bitfields
+            if bit_length and not isinstance(seq_item_type, Array):
                 seq_key += bit_length
 
-            seq_item_type = seq_item.get_asn_type().get_type()
             if isinstance(seq_item_type, (Array, Asn1String)):
                 # array or string (char array)
 
-- 
2.43.0


From b227b015821406eb2ef41aa933c589822acbe75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:30 +0000
Subject: [PATCH 16/26] fix: support members of a string alias type

'Sample-string ::= IA5String (SIZE (128))' is documented, but its use crashed
the C, cFS, binary and COSMOS generators.
---
 asn1_parser/generators/cosmos/generator.py | 3 +++
 asn1_parser/generators/generator.py        | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index c507fbd..ef24208 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -187,6 +187,9 @@ class COSMOSGenerator:
                         c_type = inner_definition.get_asn_type().get_c_type()
                         begin = inner_definition.get_asn_type().get_begin()
                         end = inner_definition.get_asn_type().get_end()
+                        inner_type = inner_definition.get_asn_type().get_type()
+                        if isinstance(inner_type, Asn1String):
+                            end = inner_type.get_length()
                     elif isinstance(inner_definition, Enumerated):
                         # if it is an enumerated do not start a recursion but
                         # resolve the data
diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 802a152..ac5481e 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -51,6 +51,8 @@ class Generator:
                     f"c_type is None for {definition}. "
                     "The value should never be None."
                 )
+            if c_type is TypeEnum.A_STRING:
+                return bit_length, "char", is_stdbool_needed, is_stdint_needed
             bit_size: int = get_bit_size(
                 c_type,
                 definition.get_asn_type().get_begin(),
@@ -168,6 +170,13 @@ class Generator:
             seq_key = CPrinter.asn1_to_c_style_naming(seq_item.get_key())
 
             seq_item_type = seq_item.get_asn_type().get_type()
+            if len(simple_definition) > 0:
+                simple_type = simple_definition[0].get_asn_type().get_type()
+                if isinstance(simple_type, Asn1String):
+                    if isinstance(seq_item_type, Array):
+                        # array of strings
+                        seq_key += f"[{seq_item_type.get_length()}]"
+                    seq_item_type = simple_type
 
             # Note: C has no arrays of bitfields
             if bit_length and not isinstance(seq_item_type, Array):
-- 
2.43.0


From 6fa7f123ff8349aa07fa30f1e9f118e060d8ea0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:05 +0000
Subject: [PATCH 17/26] fix: reject duplicate module names also for
 generate-cosmos

With two modules of one name the types of one of them were silently ignored.
---
 asn1_parser/asn1/asn1_bundle_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1_parser/asn1/asn1_bundle_builder.py b/asn1_parser/asn1/asn1_bundle_builder.py
index c1f6c8a..716b4c3 100644
--- a/asn1_parser/asn1/asn1_bundle_builder.py
+++ b/asn1_parser/asn1/asn1_bundle_builder.py
@@ -66,6 +66,7 @@ class ASN1BundleBuilder:
             *config.input_paths
         )
 
+        ASN1BundleBuilder._validate_unique_module_names(modules, config)
         bundle = ASN1BundleBuilder.build(modules)
         ASN1BundleValidator.validate_bundle(bundle)
 
@@ -166,6 +167,7 @@ class ASN1BundleBuilder:
             GenerateCFSCommandConfig,
             GenerateBinaryCommandConfig,
             GenerateCCommandConfig,
+            GenerateCosmosCommandConfig,
         ],
     ) -> None:
         error_message: str = ""
-- 
2.43.0


From d8d55821bbc6818dba93b2a2b32487a1ddc003fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:35 +0000
Subject: [PATCH 18/26] fix: reject comments that break the generated artefacts

A comment ending in a backslash made the C compiler skip the next struct member
or enum item, '*/' ended the generated C comment and '"' the COSMOS string.
---
 asn1_parser/asn1/processor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index 0c232d8..c6762dd 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -257,7 +257,9 @@ def null_exception_catch(model: Union[KeyTypePair, SimpleDefinition]) -> None:
 
 def check_comment(model: Asn1Comment) -> None:
     assert isinstance(model, Asn1Comment), f"{model}"
-    not_allowed = ["[", "]", "--"]
+    # comments are copied into C comments and COSMOS strings, so they must not
+    # end them ("*/" and '"') or continue them on the next line ("\\")
+    not_allowed = ["[", "]", "--", "*/", '"', "\\"]
     for sign in not_allowed:
         if not model.get_comment():
             return
-- 
2.43.0


From 83a49b542e469864b701291ff95eceea39f51e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:13 +0000
Subject: [PATCH 19/26] fix: refuse binary files with members without a value

---
 asn1_parser/generators/binary/generator.py | 50 ++++++++++++++++------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index c9b7ce1..176b554 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -187,19 +187,25 @@ class BinaryGenerator(Generator):
                     str, SequenceSpecificationContainer
                 ] = {}
                 for sequence in definition.get_children():
-                    if sequence.get_with_components() is None:
-                        seq_specifications[
-                            sequence.get_key()
-                        ] = SequenceSpecificationContainer(
-                            # None if a WITH COMPONENTS otherwise TypeEnum
-                            c_type=sequence.get_asn_type().get_c_type(),
-                            # needed for correct (u)int assignement
-                            bitsize=sequence.get_size_bits(),
-                            # ASN.1 type, either simple definition or own
-                            # definition (Sequence, Choice, ...)
-                            seq_type=sequence.get_asn_type().get_type_name(),
-                        )
+                    seq_specifications[
+                        sequence.get_key()
+                    ] = SequenceSpecificationContainer(
+                        # None if a WITH COMPONENTS otherwise TypeEnum
+                        c_type=sequence.get_asn_type().get_c_type(),
+                        # needed for correct (u)int assignement
+                        bitsize=sequence.get_size_bits(),
+                        # ASN.1 type, either simple definition or own
+                        # definition (Sequence, Choice, ...)
+                        seq_type=sequence.get_asn_type().get_type_name(),
+                    )
                 definitions[definition.get_type_name()] = seq_specifications
+                if definition_type_name_c == CPrinter.asn1_to_c_style_naming(
+                    definition.get_type_name()
+                ):
+                    cls._check_all_members_have_values(
+                        seq_specifications,
+                        [seq_item.get_key() for seq_item in seq_items],
+                    )
 
         for seq_item in seq_items:
             bin_data_list.extend(
@@ -246,11 +252,31 @@ class BinaryGenerator(Generator):
         specification: Dict[str, SequenceSpecificationContainer],
     ) -> List[ComponentsItem]:
         keys: List[str] = list(specification)
+        BinaryGenerator._check_all_members_have_values(
+            specification,
+            [
+                component.get_key()
+                for component in with_components.get_components()
+            ],
+        )
         return sorted(
             with_components.get_components(),
             key=lambda component: keys.index(component.get_key()),
         )
 
+    @staticmethod
+    def _check_all_members_have_values(
+        specification: Dict[str, SequenceSpecificationContainer],
+        keys_with_value: List[str],
+    ) -> None:
+        # the file would be shorter than the corresponding C struct
+        missing = [key for key in specification if key not in keys_with_value]
+        if missing:
+            raise NotImplementedError(
+                "TODO: implement handling of members without a value: "
+                + ", ".join(missing)
+            )
+
     @classmethod
     def _component_to_bytes(  # pylint: disable=too-many-arguments
         cls,
-- 
2.43.0


From 2dbce27dd5fb185c926364cf21ce71d2bca01db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:04 +0000
Subject: [PATCH 20/26] fix: reject comments with the trigraph of a backslash

---
 asn1_parser/asn1/processor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index c6762dd..8d8ee83 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -258,8 +258,9 @@ def null_exception_catch(model: Union[KeyTypePair, SimpleDefinition]) -> None:
 def check_comment(model: Asn1Comment) -> None:
     assert isinstance(model, Asn1Comment), f"{model}"
     # comments are copied into C comments and COSMOS strings, so they must not
-    # end them ("*/" and '"') or continue them on the next line ("\\")
-    not_allowed = ["[", "]", "--", "*/", '"', "\\"]
+    # end them ("*/" and '"') or continue them on the next line ("\\" and its
+    # trigraph)
+    not_allowed = ["[", "]", "--", "*/", '"', "\\", "??/"]
     for sign in not_allowed:
         if not model.get_comment():
             return
-- 
2.43.0


From 80a5dbc7b2d1a454143cb87f170ad4bf4e82051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:31 +0000
Subject: [PATCH 21/26] fix: COSMOS lost components specified at several levels

When a member was specified by WITH COMPONENTS at more than one nesting
level, none of the specifications was used.
---
 asn1_parser/generators/cosmos/generator.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index ef24208..85368f8 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -136,18 +136,17 @@ class COSMOSGenerator:
                 specific_value: str = ""
                 # go through WITH COMPONENTS
                 if with_comp:
-                    spec_val: List[str] = [
+                    # Note: the same item can be specified at several levels
+                    spec_val: List[Any] = [
                         c.get_value()
                         for c in with_comp
                         if c.get_key() == item_name
                     ]
-                    if len(spec_val) == 1:
-                        specific_value = spec_val[0]
-                        if isinstance(specific_value, WithComponents):
-                            inner_components_list: List[
-                                ComponentsItem
-                            ] = specific_value.get_components()
-                            components_list.extend(inner_components_list)
+                    for value in spec_val:
+                        if isinstance(value, WithComponents):
+                            components_list.extend(value.get_components())
+                        else:
+                            specific_value = value
 
                 comment: str = ""
                 unit: str = ""
-- 
2.43.0


From c032e17e685f04e5811a34f9ce563bd795c854a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:12 +0000
Subject: [PATCH 22/26] fix: C arrays of arrays or strings lost a dimension

SEQUENCE (SIZE (2)) OF SEQUENCE (SIZE (3)) OF Uint8-t became uint8_t a[2],
SEQUENCE (SIZE (2)) OF IA5String (SIZE (3)) became char a[2].
---
 asn1_parser/generators/generator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index ac5481e..daaefca 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -170,6 +170,12 @@ class Generator:
             seq_key = CPrinter.asn1_to_c_style_naming(seq_item.get_key())
 
             seq_item_type = seq_item.get_asn_type().get_type()
+            # array of arrays or strings
+            while isinstance(seq_item_type, Array) and isinstance(
+                seq_item_type.get_asn_type().get_type(), (Array, Asn1String)
+            ):
+                seq_key += f"[{seq_item_type.get_length()}]"
+                seq_item_type = seq_item_type.get_asn_type().get_type()
             if len(simple_definition) > 0:
                 simple_type = simple_definition[0].get_asn_type().get_type()
                 if isinstance(simple_type, Asn1String):
-- 
2.43.0


From 1ed20507ad1fbdb6ebd20c5cf8b124642836ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:12 +0000
Subject: [PATCH 23/26] fix: COSMOS arrays of arrays lost a dimension

---
 asn1_parser/generators/cosmos/generator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 85368f8..376f052 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -219,7 +219,11 @@ class COSMOSGenerator:
 
                 is_array = isinstance(seq_type, Array)
                 if is_array:
-                    specific_value = str(seq_type.get_length() * bitsize)
+                    array_bits: int = bitsize
+                    while isinstance(seq_type, Array):
+                        array_bits *= seq_type.get_length()
+                        seq_type = seq_type.get_asn_type().get_type()
+                    specific_value = str(array_bits)
                 elif (
                     seq_item.get_key() == ASN1_KEY_CCSDS_APID
                     and specific_value != ""
-- 
2.43.0


From 590f804d5ed558fa93d850fc2346a0d63db34e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:35 +0000
Subject: [PATCH 24/26] fix: generate CHOICE as a C union that compiles

The members used the names of ASN.1 types, a comment swallowed the members
after it and the union was a variable, not a type.
---
 asn1_parser/generators/binary/generator.py |   4 +-
 asn1_parser/generators/c/generator.py      |   4 +-
 asn1_parser/generators/cfs/generator.py    |   4 +-
 asn1_parser/generators/generator.py        | 114 +++++++++++----------
 4 files changed, 67 insertions(+), 59 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 176b554..a2c855f 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -142,7 +142,9 @@ class BinaryGenerator(Generator):
                     enum_cdata = cls._convert_enumerated_to_c(definition)
                     module_cdata.extend_with_cdata(enum_cdata)
                 elif isinstance(definition, Choice):
-                    choice_cdata = cls._convert_choice_to_c(definition)
+                    choice_cdata = cls._convert_choice_to_c(
+                        simple_definition_list, definition
+                    )
                     module_cdata.extend_with_cdata(choice_cdata)
                 else:
                     raise NotImplementedError(
diff --git a/asn1_parser/generators/c/generator.py b/asn1_parser/generators/c/generator.py
index 4df7432..9d08c8c 100644
--- a/asn1_parser/generators/c/generator.py
+++ b/asn1_parser/generators/c/generator.py
@@ -96,7 +96,9 @@ class CGenerator(Generator):
                     enum_cdata = cls._convert_enumerated_to_c(definition)
                     module_cdata.extend_with_cdata(enum_cdata)
                 elif isinstance(definition, Choice):
-                    choice_cdata = cls._convert_choice_to_c(definition)
+                    choice_cdata = cls._convert_choice_to_c(
+                        simple_definition_list, definition
+                    )
                     module_cdata.extend_with_cdata(choice_cdata)
                 else:
                     raise NotImplementedError(
diff --git a/asn1_parser/generators/cfs/generator.py b/asn1_parser/generators/cfs/generator.py
index 18e2d1d..74e4638 100644
--- a/asn1_parser/generators/cfs/generator.py
+++ b/asn1_parser/generators/cfs/generator.py
@@ -133,7 +133,9 @@ class CFSGenerator(Generator):
                     )
                     module_cdata.extend_with_cdata(enum_cdata)
                 elif isinstance(definition, Choice):
-                    choice_cdata = CFSGenerator._convert_choice_to_c(definition)
+                    choice_cdata = CFSGenerator._convert_choice_to_c(
+                        simple_definition_list, definition
+                    )
                     module_cdata.extend_with_cdata(choice_cdata)
                 else:
                     raise NotImplementedError(
diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index daaefca..d622b7c 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -27,6 +27,8 @@ class Generator:
         if posix not in ["Float", "Double"]
     ]
 
+    _TYPES_WITHOUT_RANGE = {"INTEGER": "int64_t", "REAL": "double"}
+
     @classmethod
     def _map_simple_types_to_c(
         cls, definition: Union[SimpleDefinition, KeyTypePair]
@@ -102,22 +104,13 @@ class Generator:
         return bit_length, valid_c_type, is_stdbool_needed, is_stdint_needed
 
     @classmethod
-    def _convert_sequence_to_c(
+    def _convert_members_to_c(
         cls,
         simple_definition_list: List[SimpleDefinition],
-        definition: Sequence,
-        module: Asn1Module,
-    ) -> CData:
-        cdata = CData.create_empty()
-        comment_str: str = ""
-
-        if definition.get_comment() and definition.get_comment().get_comment():
-            comment_str += str(
-                cgen.Comment(definition.get_comment().get_comment())
-            )
-            comment_str += "\n"
-
-        # map Sequence to c struct
+        definition: Union[Sequence, Choice],
+        cdata: CData,
+    ) -> List[Any]:
+        # members of a c struct or union
         sequence_list: List[Any] = []
         for seq_item in definition.get_children():
             if seq_item.get_comment():
@@ -135,6 +128,22 @@ class Generator:
                     )
                 sequence_list.append(cgen.LineComment(seq_comment))
 
+            seq_item_type_name = seq_item.get_asn_type().get_type_name()
+            if (
+                isinstance(definition, Choice)
+                and seq_item_type_name in cls._TYPES_WITHOUT_RANGE
+                and seq_item.get_asn_type().get_c_type() is None
+            ):
+                # only items of a Choice may lack a range
+                cdata.set_stdint_if_needed(True)
+                sequence_list.append(
+                    cgen.Value(
+                        cls._TYPES_WITHOUT_RANGE[seq_item_type_name],
+                        CPrinter.asn1_to_c_style_naming(seq_item.get_key()),
+                    )
+                )
+                continue
+
             (
                 bit_length,
                 struct_c_type,
@@ -207,9 +216,31 @@ class Generator:
                         seq_key,
                     )
                 )
-            definition_type_name_c: str = CPrinter.asn1_to_c_style_naming(
-                definition.get_type_name()
+        return sequence_list
+
+    @classmethod
+    def _convert_sequence_to_c(
+        cls,
+        simple_definition_list: List[SimpleDefinition],
+        definition: Sequence,
+        module: Asn1Module,
+    ) -> CData:
+        cdata = CData.create_empty()
+        comment_str: str = ""
+
+        if definition.get_comment() and definition.get_comment().get_comment():
+            comment_str += str(
+                cgen.Comment(definition.get_comment().get_comment())
             )
+            comment_str += "\n"
+
+        # map Sequence to c struct
+        sequence_list: List[Any] = cls._convert_members_to_c(
+            simple_definition_list, definition, cdata
+        )
+        definition_type_name_c: str = CPrinter.asn1_to_c_style_naming(
+            definition.get_type_name()
+        )
         # WITH COMPONENTS
         seq_items_with_components: List[KeyTypePair] = [
             seq_item
@@ -289,7 +320,11 @@ class Generator:
         return cdata
 
     @classmethod
-    def _convert_choice_to_c(cls, definition: Choice) -> CData:
+    def _convert_choice_to_c(
+        cls,
+        simple_definition_list: List[SimpleDefinition],
+        definition: Choice,
+    ) -> CData:
         cdata = CData.create_empty()
         data_str: str = ""
 
@@ -299,47 +334,14 @@ class Generator:
             )
             data_str += "\n"
         # map Choice to c union
+        data_str += "typedef union {\n"
+        for choice_item in cls._convert_members_to_c(
+            simple_definition_list, definition, cdata
+        ):
+            data_str += cls._C_SPACES + str(choice_item) + "\n"
         data_str += (
-            "union "
+            "} __attribute__((packed)) "
             + CPrinter.asn1_to_c_style_naming(definition.get_type_name())
-            + " {\n"
-        )
-        for choice_item in definition.get_children():
-            choice_comment: str = ""
-            if choice_item.get_comment():
-                if choice_item.get_comment().get_unit():
-                    choice_comment = (
-                        choice_comment
-                        + "["
-                        + choice_item.get_comment().get_unit()
-                        + "] "
-                    )
-                if choice_item.get_comment().get_comment():
-                    choice_comment = (
-                        choice_comment + choice_item.get_comment().get_comment()
-                    )
-                choice_comment = "     " + str(cgen.LineComment(choice_comment))
-
-            if (
-                choice_item.get_asn_type().get_type_name()
-                in cls._POSIX_DEFINED_TYPES
-            ):
-                cdata.set_stdint_if_needed(True)
-            data_str += (
-                cls._C_SPACES
-                + CPrinter.asn1_to_c_style_naming(
-                    choice_item.get_asn_type().get_type_name()
-                )
-                + " "
-                + CPrinter.asn1_to_c_style_naming(choice_item.get_key())
-                + ";"
-                + choice_comment
-            )
-        data_str += (
-            "} "
-            + lowerize(
-                CPrinter.asn1_to_c_style_naming(definition.get_type_name())
-            )
             + ";"
         )
 
-- 
2.43.0


From 6b28935d0706e81b00476ab25057082f5be4c0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:55 +0000
Subject: [PATCH 25/26] fix: refuse negative sizes of strings and arrays

---
 asn1_parser/asn1/processor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index 8d8ee83..ec5e910 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -3,6 +3,7 @@ from typing import Any, List, Optional, Union
 from textx.exceptions import TextXSyntaxError
 from textx.metamodel import TextXMetaModel
 
+from asn1_parser.asn1.grammar_elements.array import Array
 from asn1_parser.asn1.grammar_elements.asn1_comment import Asn1Comment
 from asn1_parser.asn1.grammar_elements.asn1_module import Asn1Module
 from asn1_parser.asn1.grammar_elements.asn1_string import Asn1String
@@ -179,6 +180,8 @@ def asn1_type(model: Asn1Type) -> None:
 
     type_name: str = model.get_type_name()
     seq_type = model.get_type()
+    if isinstance(seq_type, (Array, Asn1String)) and seq_type.get_length() < 0:
+        raise ValueError(f"size: {seq_type.get_length()} is negative")
 
     c_type: Optional[TypeEnum]
     if ASN1_POSIX_RANGE.get(type_name) is not None:
-- 
2.43.0


From 7ddf306cef288bd7fafb43ea0beeafd76676c277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:22 +0000
Subject: [PATCH 26/26] fix: write only natural numbers in hexadecimal in
 COSMOS identifier items

A negative or real application-process-identifier gave an invalid item
or ended generate-cosmos with ValueError.
---
 asn1_parser/generators/cosmos/generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 376f052..987eba5 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -226,7 +226,8 @@ class COSMOSGenerator:
                     specific_value = str(array_bits)
                 elif (
                     seq_item.get_key() == ASN1_KEY_CCSDS_APID
-                    and specific_value != ""
+                    and isinstance(specific_value, int)
+                    and specific_value >= 0
                 ):
                     specific_value = f"0x{specific_value:02X}"
                 else:
-- 
2.43.0

