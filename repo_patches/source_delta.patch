From a863a62138ea4ce46fd4045ac744dcd7855f1218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 001/109] fix: report JSON arrays in place of MF2 data model
 objects as MF2ValidationError

---
 python/moz/l10n/formats/mf2/from_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/mf2/from_json.py b/python/moz/l10n/formats/mf2/from_json.py
index 654484b..38f1a86 100644
--- a/python/moz/l10n/formats/mf2/from_json.py
+++ b/python/moz/l10n/formats/mf2/from_json.py
@@ -69,7 +69,7 @@ def mf2_from_json(json: dict[str, Any]) -> Message:
             for vari in json["variants"]
         }
         return SelectMessage(declarations, selectors, variants)
-    except (IndexError, KeyError, TypeError) as err:
+    except (AttributeError, IndexError, KeyError, TypeError) as err:
         raise MF2ValidationError(f"Invalid JSON: {err!r}")
 
 
-- 
2.43.0


From 42fae536debe091bcc5c44f57540f40ce446c6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 002/109] fix: keep empty literal operands in MF2 serialization

---
 python/moz/l10n/formats/mf2/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/serialize.py b/python/moz/l10n/formats/mf2/serialize.py
index 1c90c29..595b365 100644
--- a/python/moz/l10n/formats/mf2/serialize.py
+++ b/python/moz/l10n/formats/mf2/serialize.py
@@ -103,10 +103,10 @@ def _quoted_pattern(pattern: Pattern) -> Iterator[str]:
 
 def _expression(expr: Expression) -> Iterator[str]:
     yield "{"
-    if expr.arg:
+    if expr.arg is not None:
         yield _value(expr.arg)
     if expr.function:
-        yield f" :{expr.function}" if expr.arg else f":{expr.function}"
+        yield f":{expr.function}" if expr.arg is None else f" :{expr.function}"
     yield from _options(expr.options)
     yield from _attributes(expr.attributes)
     yield "}"
-- 
2.43.0


From 147175e57c29b9c87735299e9c8a632df11d97dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 003/109] fix: require a space between an empty MF2 literal
 operand and a function

---
 python/moz/l10n/formats/mf2/message_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/mf2/message_parser.py b/python/moz/l10n/formats/mf2/message_parser.py
index 95b5735..4e08db1 100644
--- a/python/moz/l10n/formats/mf2/message_parser.py
+++ b/python/moz/l10n/formats/mf2/message_parser.py
@@ -264,7 +264,7 @@ class MF2Parser:
             arg_end = self.pos
             ch = self.skip_opt_space()
         if ch == ":":
-            if arg and self.pos == arg_end:
+            if arg is not None and self.pos == arg_end:
                 raise MF2ParseError(self, "Expected space")
             function = self.identifier(1)
             options = self.options()
-- 
2.43.0


From 0291193ef9746bf445ae788a8674c13c302db81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 004/109] fix: match only a decimal point in MF2 number
 literals

---
 python/moz/l10n/formats/mf2/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/mf2/validate.py b/python/moz/l10n/formats/mf2/validate.py
index d379ace..c043246 100644
--- a/python/moz/l10n/formats/mf2/validate.py
+++ b/python/moz/l10n/formats/mf2/validate.py
@@ -32,7 +32,7 @@ from ...model import (
 _name_start = r"a-zA-Z_\xC0-\xD6\xD8-\xF6\xF8-\u02FF\u0370-\u037D\u037F-\u061B\u061D-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFC\U00010000-\U000EFFFF"
 name_re = compile(f"[{_name_start}][{_name_start}0-9-.\xb7\u0300-\u036f\u203f-\u2040]*")
 identifier_re = compile(f"{name_re.pattern}(?::{name_re.pattern})?")
-number_re = compile(r"-?(?:0|(?:[1-9]\d*))(?:.\d+)?(?:[eE][-+]?\d+)?")
+number_re = compile(r"-?(?:0|(?:[1-9]\d*))(?:\.\d+)?(?:[eE][-+]?\d+)?")
 
 
 class MF2ValidationError(ValueError):
-- 
2.43.0


From a7f0280c78dd3a7e1cc65e5093a488fa88cc3ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:56 +0000
Subject: [PATCH 005/109] fix: reject an incomplete escape at the end of MF2
 text

---
 python/moz/l10n/formats/mf2/message_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/mf2/message_parser.py b/python/moz/l10n/formats/mf2/message_parser.py
index 4e08db1..7352b9e 100644
--- a/python/moz/l10n/formats/mf2/message_parser.py
+++ b/python/moz/l10n/formats/mf2/message_parser.py
@@ -242,6 +242,8 @@ class MF2Parser:
             else:
                 text += ch
             self.pos += 1
+        if at_esc:
+            raise MF2ParseError(self, "Incomplete escape")
         return text
 
     def expression_or_markup(self) -> Expression | Markup:
-- 
2.43.0


From 2651fd21b2e55d72ac364d39ae1971cbce8df293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 006/109] fix: quote all MF2 patterns which would parse as the
 start of a complex message

---
 python/moz/l10n/formats/mf2/serialize.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/serialize.py b/python/moz/l10n/formats/mf2/serialize.py
index 595b365..9ff8557 100644
--- a/python/moz/l10n/formats/mf2/serialize.py
+++ b/python/moz/l10n/formats/mf2/serialize.py
@@ -30,7 +30,7 @@ from ...model import (
 )
 from .validate import name_re, number_re
 
-complex_start_re = compile(r"[\t\n\r \u3000]*\.")
+complex_start_re = compile(r"[\t\n\r \u061c\u200e\u200f\u2066-\u2069\u3000]*\.")
 literal_esc_re = compile(r"[\\|]")
 text_esc_re = compile(r"[\\{}]")
 
@@ -42,17 +42,10 @@ def mf2_serialize_message(message: Message) -> str:
     Does not validate the message before serialization;
     for that, use `mf2_validate_message()`.
     """
-    if (
-        isinstance(message, PatternMessage)
-        and not message.declarations
-        and (
-            not message.pattern
-            or not isinstance(part0 := message.pattern[0], str)
-            or not complex_start_re.match(part0)
-        )
-    ):
-        # simple message
-        return "".join(mf2_serialize_pattern(message.pattern))
+    if isinstance(message, PatternMessage) and not message.declarations:
+        simple = "".join(mf2_serialize_pattern(message.pattern))
+        if not complex_start_re.match(simple):
+            return simple
 
     res = ""
     for name, expr in message.declarations.items():
-- 
2.43.0


From a876b977d015fafb245990ad83ec5339e5a84c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:19 +0000
Subject: [PATCH 007/109] fix: order MF2 declarations after all of their
 dependencies

---
 python/moz/l10n/formats/mf2/validate.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/validate.py b/python/moz/l10n/formats/mf2/validate.py
index c043246..ffe04af 100644
--- a/python/moz/l10n/formats/mf2/validate.py
+++ b/python/moz/l10n/formats/mf2/validate.py
@@ -15,7 +15,6 @@
 from __future__ import annotations
 
 from collections.abc import Iterable, Mapping
-from functools import cmp_to_key
 from re import compile
 from typing import Literal
 
@@ -106,16 +105,12 @@ def _validate_declarations(declarations: dict[str, Expression]) -> None:
                     deep_dependencies(dep, res)
         return res
 
-    def cmp_decl_data(a: tuple[str, bool], b: tuple[str, bool]) -> int:
-        a_name, a_input = a
-        b_name, b_input = b
-        if a_name in dependencies[b_name]:
-            return -1
-        if b_name in dependencies[a_name]:
-            return 1
-        if a_input != b_input:
-            return -1 if a_input else 1
-        return -1 if a_name < b_name else 1
+    def add_ordered(name: str) -> None:
+        if name not in ordered:
+            for dep, _ in decl_data:
+                if dep in dependencies[name]:
+                    add_ordered(dep)
+            ordered.append(name)
 
     if not isinstance(declarations, Mapping):
         raise MF2ValidationError(f"Invalid declarations: {declarations}")
@@ -143,8 +138,12 @@ def _validate_declarations(declarations: dict[str, Expression]) -> None:
         dependencies[name] = deps
 
     if len(declarations) > 1:
-        decl_data.sort(key=cmp_to_key(cmp_decl_data))
-        inserts = [(name, declarations.pop(name)) for name, _ in decl_data[1:]]
+        # Inputs first, then by name, but always after any dependencies
+        decl_data.sort(key=lambda decl: (not decl[1], decl[0]))
+        ordered: list[str] = []
+        for name, _ in decl_data:
+            add_ordered(name)
+        inserts = [(name, declarations.pop(name)) for name in ordered[1:]]
         for name, expr in inserts:
             declarations[name] = expr
 
-- 
2.43.0


From b9b9cd4f903a50d73a4169ff2819e98b54434f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 008/109] fix: round-trip backslashes in entry ids and
 declarations of empty values in entry JSON

---
 python/moz/l10n/message/from_json.py | 19 +++++++++++++------
 python/moz/l10n/message/to_json.py   |  5 ++++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/python/moz/l10n/message/from_json.py b/python/moz/l10n/message/from_json.py
index a19bb63..5be1e08 100644
--- a/python/moz/l10n/message/from_json.py
+++ b/python/moz/l10n/message/from_json.py
@@ -15,13 +15,14 @@
 from __future__ import annotations
 
 from collections.abc import Mapping
-from re import split
+from re import finditer
 from typing import Any, Literal
 
 from ..model import (
     CatchallKey,
     Entry,
     Expression,
+    Id,
     Markup,
     Message,
     Metadata,
@@ -39,14 +40,10 @@ def entry_from_json(key: str, json: dict[str, Any]) -> Entry[Message]:
 
     May raise `MF2ValidationError`.
     """
-    if r"\." in key:
-        id = tuple(str(part).replace(r"\.", ".") for part in split(r"(?<!\\)\.", key))
-    else:
-        id = tuple(key.split("."))
     meta = [Metadata(key, value) for key, value in json["@"]] if "@" in json else []
 
     return Entry(
-        id=id,
+        id=_entry_id(key),
         meta=meta,
         comment=json.get("#", ""),
         value=message_from_json(json["="]) if "=" in json else PatternMessage([]),
@@ -56,6 +53,16 @@ def entry_from_json(key: str, json: dict[str, Any]) -> Entry[Message]:
     )
 
 
+def _entry_id(key: str) -> Id:
+    parts = [""]
+    for match in finditer(r"\\([\\.])|[^\\.]+|.", key):
+        if match[0] == ".":
+            parts.append("")
+        else:
+            parts[-1] += match[1] or match[0]
+    return tuple(parts)
+
+
 def message_from_json(json: list[Any] | dict[str, Any]) -> Message:
     """
     Marshal the JSON output of `moz.l10n.message.message_to_json()`
diff --git a/python/moz/l10n/message/to_json.py b/python/moz/l10n/message/to_json.py
index 257de8a..c14fd85 100644
--- a/python/moz/l10n/message/to_json.py
+++ b/python/moz/l10n/message/to_json.py
@@ -35,7 +35,9 @@ def entry_to_json(entry: Entry[Message]) -> tuple[str, dict[str, Any]]:
     Returns the stringified entry id and a JSON object.
     The JSON Schema of the output is provided as [entry.json](../../../../schemas/entry.json).
     """
-    id = ".".join(part.replace(".", r"\.") for part in entry.id)
+    id = ".".join(
+        part.replace("\\", r"\\").replace(".", r"\.") for part in entry.id
+    )
     json: dict[str, Any] = {}
     if entry.meta:
         json["@"] = list([m.key, m.value] for m in entry.meta)
@@ -45,6 +47,7 @@ def entry_to_json(entry: Entry[Message]) -> tuple[str, dict[str, Any]]:
         not entry.properties
         or not isinstance(entry.value, PatternMessage)
         or entry.value.pattern
+        or entry.value.declarations
     ):
         json["="] = message_to_json(entry.value)
     if entry.properties:
-- 
2.43.0


From 4d5abbb6161dc6126d4bd274dae32a91e440e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:29 +0000
Subject: [PATCH 009/109] fix: compare sections with the same id independently
 of their order in l10n_equal

---
 python/moz/l10n/resource/l10n_equal.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/resource/l10n_equal.py b/python/moz/l10n/resource/l10n_equal.py
index 0a57878..aac5bf2 100644
--- a/python/moz/l10n/resource/l10n_equal.py
+++ b/python/moz/l10n/resource/l10n_equal.py
@@ -42,7 +42,15 @@ def l10n_sections(resource: Resource[Any]) -> list[tuple[Any, ...]]:
         for section in resource.sections
         if any(isinstance(entry, Entry) for entry in section.entries)
     ]
-    ls.sort(key=lambda s: s[0])
+    # Distinct sections may share an id
+    ls.sort(
+        key=lambda s: (
+            s[0],
+            s[1],
+            sorted((key, sorted(values)) for key, values in s[2].items()),
+            [e[0] for e in s[3]],
+        )
+    )
     nonempty_idx = next(
         (idx for idx, (id, comment, meta, _) in enumerate(ls) if id or comment or meta),
         len(ls),
-- 
2.43.0


From caf9c7c1a60996017ea27c456bdccc1f82a2ec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:39 +0000
Subject: [PATCH 010/109] fix: refuse conflicting identifiers in plain JSON
 serialization

---
 python/moz/l10n/formats/plain_json/serialize.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/plain_json/serialize.py b/python/moz/l10n/formats/plain_json/serialize.py
index b72680f..cffc4fb 100644
--- a/python/moz/l10n/formats/plain_json/serialize.py
+++ b/python/moz/l10n/formats/plain_json/serialize.py
@@ -45,13 +45,19 @@ def plain_json_serialize(
     def ddict() -> dict[str, Any]:
         return defaultdict(ddict)
 
+    def child(parent: dict[str, Any], part: str) -> dict[str, Any]:
+        obj: dict[str, Any] | str = parent[part]
+        if isinstance(obj, str):
+            raise ValueError(f"Identifier has both a value and children: {part}")
+        return obj
+
     check(resource.comment, resource.meta)
     root = ddict()
     for section in resource.sections:
         check(section.comment, section.meta)
         section_parent = root
         for part in section.id:
-            section_parent = section_parent[part]
+            section_parent = child(section_parent, part)
         for entry in section.entries:
             if isinstance(entry, Entry):
                 check(entry.comment, entry.meta)
@@ -70,7 +76,9 @@ def plain_json_serialize(
                     )
                 parent = section_parent
                 for part in entry.id[:-1]:
-                    parent = parent[part]
+                    parent = child(parent, part)
+                if entry.id[-1] in parent:
+                    raise ValueError(f"Duplicate identifier: {section.id + entry.id}")
                 parent[entry.id[-1]] = value
             else:
                 check(entry.comment, None)
-- 
2.43.0


From 088dc1bf6f90acdd76250c595c5a727b37b8989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:45 +0000
Subject: [PATCH 011/109] fix: escape comment markers at the start of
 .properties keys

---
 python/moz/l10n/formats/properties/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index 83a2075..4d90164 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -109,6 +109,8 @@ def properties_serialize(
                 key = id_prefix + ".".join(entry.id)
                 key = escape_chars(key, ensure_ascii)
                 key = key.translate(special_key_trans)
+                if key.startswith(("#", "!")):
+                    key = "\\" + key
 
                 value: str
                 msg = entry.value
-- 
2.43.0


From fe74ae078a2e887b8437fbcc4b0fe090dd147969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:45 +0000
Subject: [PATCH 012/109] fix: escape non-BMP characters in .properties as
 surrogate pairs

---
 python/moz/l10n/formats/properties/parse.py     | 10 ++++++++--
 python/moz/l10n/formats/properties/serialize.py |  6 +++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 10f5881..12a173c 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -30,12 +30,18 @@ class LineKind(Enum):
     VALUE = 3
 
 
-esc_re = compile("\\\\(u[0-9A-Fa-f]{1,4}|.)")
+esc_re = compile(
+    r"\\(u[Dd][89ABab][0-9A-Fa-f]{2}\\u[Dd][C-Fc-f][0-9A-Fa-f]{2}|u[0-9A-Fa-f]{1,4}|.)"
+)
 
 
 def esc_parse(match: Match[str]) -> str:
     esc = match.group(1)
-    if len(esc) > 1 and esc[0] == "u":
+    if len(esc) == 11:
+        # surrogate pair
+        high, low = int(esc[1:5], 16), int(esc[7:], 16)
+        return chr(0x10000 + ((high - 0xD800) << 10) + (low - 0xDC00))
+    elif len(esc) > 1 and esc[0] == "u":
         n = int(esc[1:], 16)
         return chr(n)
     elif esc == "t":
diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index 4d90164..b2640f1 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -37,7 +37,11 @@ def encode_char(m: Match[str]) -> str:
         return r"\f"
     elif ch == "\r":
         return r"\r"
-    return f"\\u{ord(ch):04x}"
+    n = ord(ch)
+    if n > 0xFFFF:
+        n -= 0x10000
+        return f"\\u{0xD800 + (n >> 10):04x}\\u{0xDC00 + (n & 0x3FF):04x}"
+    return f"\\u{n:04x}"
 
 
 def escape_chars(value: str, ensure_ascii: bool) -> str:
-- 
2.43.0


From 4435aac9678baef34314ac9c3d6e15da52060c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:45 +0000
Subject: [PATCH 013/109] fix: prefix every line of .properties comments also
 when separated by CR

---
 python/moz/l10n/formats/properties/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index b2640f1..4afeaa1 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Iterator
-from re import Match, compile
+from re import Match, compile, split
 from typing import Any, Callable, Literal
 
 from ...model import Entry, Message, PatternMessage, Resource
@@ -93,7 +93,7 @@ def properties_serialize(
         if comment:
             if standalone and not at_empty_line:
                 yield "\n"
-            for line in comment.strip("\n").split("\n"):
+            for line in split("\r\n?|\n", comment.strip("\r\n")):
                 if not line or line.isspace():
                     yield "#\n"
                 else:
-- 
2.43.0


From fbba39eba4018edc5bc1c394be9940bc29a8c743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:45 +0000
Subject: [PATCH 014/109] fix: process escapes before printf placeholders in
 properties_parse_message

---
 python/moz/l10n/formats/properties/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 12a173c..a36dfb7 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -157,7 +157,7 @@ def properties_parse_message(
     if kind != LineKind.VALUE or not all(kind == LineKind.EMPTY for kind, _, _ in rest):
         raise ValueError("Source is not a .properties value")
     if printf_placeholders:
-        return PatternMessage(list(parse_printf_pattern(source)))
+        return PatternMessage(list(parse_printf_pattern(value)))
     return PatternMessage([value])
 
 
-- 
2.43.0


From 11a5e10d073a3a1682d0f70b9f552a1f89ac8aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 015/109] fix: escape string values in .properties
 serialization

---
 python/moz/l10n/formats/properties/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index 4afeaa1..be462ba 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -120,7 +120,7 @@ def properties_serialize(
                 msg = entry.value
                 try:
                     if isinstance(msg, str):
-                        value = msg
+                        value = escape_chars(msg, ensure_ascii)
                     elif serialize_message:
                         value = serialize_message(msg)
                         value = escape_chars(value, ensure_ascii)
-- 
2.43.0


From e21917b72b6c22714c3d9022ab5da29f43643149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:03 +0000
Subject: [PATCH 016/109] fix: report MF2 JSON with anything but arrays where
 the data model has arrays

---
 python/moz/l10n/formats/mf2/from_json.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/from_json.py b/python/moz/l10n/formats/mf2/from_json.py
index 38f1a86..7d3fba1 100644
--- a/python/moz/l10n/formats/mf2/from_json.py
+++ b/python/moz/l10n/formats/mf2/from_json.py
@@ -42,7 +42,7 @@ def mf2_from_json(json: dict[str, Any]) -> Message:
             raise MF2ValidationError(f"Invalid JSON message: {json}")
 
         declarations: dict[str, Expression] = {}
-        for decl in json["declarations"]:
+        for decl in _list(json["declarations"]):
             decl_type = decl["type"]
             if decl_type not in {"input", "local"}:
                 raise MF2ValidationError(f"Invalid JSON declaration type: {decl}")
@@ -63,10 +63,10 @@ def mf2_from_json(json: dict[str, Any]) -> Message:
             return PatternMessage(pattern, declarations)
 
         assert msg_type == "select"
-        selectors = tuple(_variable(sel) for sel in json["selectors"])
+        selectors = tuple(_variable(sel) for sel in _list(json["selectors"]))
         variants = {
-            tuple(_key(key) for key in vari["keys"]): _pattern(vari["value"])
-            for vari in json["variants"]
+            tuple(_key(key) for key in _list(vari["keys"])): _pattern(vari["value"])
+            for vari in _list(json["variants"])
         }
         return SelectMessage(declarations, selectors, variants)
     except (AttributeError, IndexError, KeyError, TypeError) as err:
@@ -80,7 +80,7 @@ def _pattern(json: list[Any]) -> Pattern:
         else _markup(part)
         if part["type"] == "markup"
         else _expression(part)
-        for part in json
+        for part in _list(json)
     ]
 
 
@@ -154,6 +154,12 @@ def _variable(json: dict[str, Any]) -> VariableRef:
     return VariableRef(_string(json, "name"))
 
 
+def _list(value: Any) -> list[Any]:
+    if isinstance(value, list):
+        return value
+    raise MF2ValidationError(f"Expected a JSON array: {value}")
+
+
 def _string(obj: dict[str, Any], key: str | None = None) -> str:
     value = obj if key is None else obj.get(key, None)
     if isinstance(value, str):
-- 
2.43.0


From 79ac427e45590f51d50a9afa94e3580922a20b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:08 +0000
Subject: [PATCH 017/109] fix: report duplicate variants in MF2 JSON instead of
 dropping one

---
 python/moz/l10n/formats/mf2/from_json.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/from_json.py b/python/moz/l10n/formats/mf2/from_json.py
index 7d3fba1..fc234c2 100644
--- a/python/moz/l10n/formats/mf2/from_json.py
+++ b/python/moz/l10n/formats/mf2/from_json.py
@@ -64,10 +64,12 @@ def mf2_from_json(json: dict[str, Any]) -> Message:
 
         assert msg_type == "select"
         selectors = tuple(_variable(sel) for sel in _list(json["selectors"]))
-        variants = {
-            tuple(_key(key) for key in _list(vari["keys"])): _pattern(vari["value"])
-            for vari in _list(json["variants"])
-        }
+        variants: dict[tuple[str | CatchallKey, ...], Pattern] = {}
+        for vari in _list(json["variants"]):
+            keys = tuple(_key(key) for key in _list(vari["keys"]))
+            if keys in variants:
+                raise MF2ValidationError(f"Duplicate JSON variant keys: {vari}")
+            variants[keys] = _pattern(vari["value"])
         return SelectMessage(declarations, selectors, variants)
     except (AttributeError, IndexError, KeyError, TypeError) as err:
         raise MF2ValidationError(f"Invalid JSON: {err!r}")
-- 
2.43.0


From ca037955a2b50126415353de4c045390df919842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:30 +0000
Subject: [PATCH 018/109] fix: return None for invalid b+ Android locale
 qualifiers

---
 python/moz/l10n/paths/android_locale.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/paths/android_locale.py b/python/moz/l10n/paths/android_locale.py
index dcf8ebf..04b87bf 100644
--- a/python/moz/l10n/paths/android_locale.py
+++ b/python/moz/l10n/paths/android_locale.py
@@ -48,6 +48,8 @@ def parse_android_locale(alocale: str) -> str | None:
         `iw` -> `he`, `en-rGB` -> `en-GB`, `b+sr+Latn` -> `sr-Latn`
     """
     if alocale.startswith("b+"):
+        if not fullmatch(r"b(?:\+[0-9A-Za-z]{1,8})+", alocale):
+            return None  # Not a valid BCP-47 qualifier
         lc, *rest = alocale[2:].split("+")
     else:
         m = fullmatch(r"([a-z]{2,3})(?:-r([A-Z]{2}))?", alocale)
-- 
2.43.0


From fe9a55c439db72c9cd4d8b63b480136681831271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:30 +0000
Subject: [PATCH 019/109] fix: detect no JSON format in bytes that cannot be
 decoded

---
 python/moz/l10n/formats/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/__init__.py b/python/moz/l10n/formats/__init__.py
index f122e48..0c4e5e8 100644
--- a/python/moz/l10n/formats/__init__.py
+++ b/python/moz/l10n/formats/__init__.py
@@ -115,7 +115,7 @@ def detect_format(name: str | None, source: bytes | str | None = None) -> Format
     if ext != ".xml":
         try:
             json, valid_json = json_linecomment_loads(source)
-        except JSONDecodeError:
+        except (JSONDecodeError, UnicodeDecodeError):
             json, valid_json = None, False
         if is_object_of_strings(json):
             assert isinstance(json, dict)
@@ -138,6 +138,8 @@ def detect_format(name: str | None, source: bytes | str | None = None) -> Format
         return Format.android if xml_root.tag == "resources" else None
     except ImportError:
         pass
+    except UnicodeEncodeError:
+        pass
     except LxmlError:
         # Must be separate and after ImportError
         pass
-- 
2.43.0


From 310dbbd35fc510c7782ad2357730803f68a6577a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 020/109] fix: accept relative source directories in compare

---
 python/moz/l10n/bin/compare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/bin/compare.py b/python/moz/l10n/bin/compare.py
index 32fa19c..81cdabd 100644
--- a/python/moz/l10n/bin/compare.py
+++ b/python/moz/l10n/bin/compare.py
@@ -116,7 +116,7 @@ def cli(
         source_paths: L10nConfigPaths | L10nDiscoverPaths = (
             L10nConfigPaths(source)
             if source.endswith(".toml")
-            else L10nDiscoverPaths(source, source)
+            else L10nDiscoverPaths(source, ".")
         )
         path0 = abspath(paths[0])
         locale0 = basename(path0)
-- 
2.43.0


From c5e52ef3f670082ad25a539ed690edae5fbc0f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 021/109] fix: discover paths in the current directory

---
 python/moz/l10n/paths/discover.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index d40692d..395f8d6 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -18,7 +18,7 @@ import re
 from collections.abc import Iterable, Iterator
 from itertools import chain
 from os import sep, walk
-from os.path import commonpath, dirname, isdir, join, normpath, relpath, splitext
+from os.path import abspath, commonpath, dirname, isdir, join, normpath, relpath, splitext
 from typing import Literal
 
 from moz.l10n.formats import l10n_extensions
@@ -102,6 +102,8 @@ class L10nDiscoverPaths:
         root = normpath(root)
         if not isdir(root):
             raise ValueError(f"Not a directory: {root}")
+        if root == ".":
+            root = abspath(root)  # commonpath() drops any leading ./
         if ref_root:
             ref_root = normpath(join(root, ref_root))
         if source_locale is None:
-- 
2.43.0


From c8da8f397b9fec6a047e8180caac2836b8a39fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 022/109] fix: match the characters of configured paths
 literally

---
 python/moz/l10n/paths/config.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index d639850..0741c91 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -20,7 +20,7 @@ from collections.abc import Callable, Iterator
 from glob import glob
 from os import sep
 from os.path import dirname, isfile, join, normpath, relpath
-from re import Pattern, compile
+from re import Pattern, compile, escape
 from typing import Any, cast
 
 from .android_locale import get_android_locale
@@ -31,7 +31,7 @@ else:
     from tomli import load
 
 path_stars = compile(r"[*](?:[*](?:[/\\][*]*)?)?")
-path_var = compile(r"{(\w+)}")
+path_var = compile(r"\\{(\w+)\\}")
 
 _DEFAULT_LOCALE_MAP: dict[str, Callable[[str], str]] = {
     "locale": lambda locale: locale,
@@ -56,13 +56,12 @@ def path_regex(path: str) -> Pattern[str]:
     """
     if path.startswith("{l10n_base}/"):
         path = path[12:]
-    path = path_stars.sub(
-        lambda m: (
+    parts = [escape(part) for part in path_stars.split(path)]
+    for idx, m in enumerate(path_stars.finditer(path)):
+        parts[idx] += (
             "([^/]*)" if m[0] == "*" else "((?:.*/)?)" if m[0] == "**/" else "(.*)"
-        ),
-        path,
-    )
-    path = path_var.sub(r"(?P<\1>[^/]*)", path)
+        )
+    path = path_var.sub(r"(?P<\1>[^/]*)", "".join(parts))
     return compile(path)
 
 
@@ -155,7 +154,9 @@ class L10nConfigPaths:
                         f"Wildcard mismatch between reference & l10n: {path}"
                     )
                 ref_re = compile(
-                    path_stars.sub("(.*)", ref.replace(sep, "/").replace(".", r"\."))
+                    "(.*)".join(
+                        escape(part) for part in path_stars.split(ref.replace(sep, "/"))
+                    )
                 )
                 *tgt_parts, tgt_end = path_stars.split(target)
 
-- 
2.43.0


From 8d95a7641335c27b790e4fd72b213f0310587ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 023/109] fix: allow repeated variables in configured paths

---
 python/moz/l10n/paths/config.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 0741c91..91688dc 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -20,7 +20,7 @@ from collections.abc import Callable, Iterator
 from glob import glob
 from os import sep
 from os.path import dirname, isfile, join, normpath, relpath
-from re import Pattern, compile, escape
+from re import Match, Pattern, compile, escape
 from typing import Any, cast
 
 from .android_locale import get_android_locale
@@ -61,8 +61,16 @@ def path_regex(path: str) -> Pattern[str]:
         parts[idx] += (
             "([^/]*)" if m[0] == "*" else "((?:.*/)?)" if m[0] == "**/" else "(.*)"
         )
-    path = path_var.sub(r"(?P<\1>[^/]*)", "".join(parts))
-    return compile(path)
+    seen: set[str] = set()
+
+    def var_regex(m: Match[str]) -> str:
+        name = m[1]
+        if name in seen:
+            return f"(?P={name})"
+        seen.add(name)
+        return f"(?P<{name}>[^/]*)"
+
+    return compile(path_var.sub(var_regex, "".join(parts)))
 
 
 class PartialMap(dict[str, str]):
-- 
2.43.0


From 9d3b551fec0042d291e71326612908958bc9d0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 024/109] fix: find targets of .po reference files

---
 python/moz/l10n/paths/config.py   | 4 ++--
 python/moz/l10n/paths/discover.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 91688dc..bbdfb1e 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -340,9 +340,9 @@ class L10nConfigPaths:
         if locale is not None and self._locales and locale not in self._locales:
             return None, set()
         norm_ref_path = normpath(join(self._ref_root, ref_path))
-        if norm_ref_path.endswith(".po"):
-            norm_ref_path += "t"
         pd = self._path_data.get(norm_ref_path, None)
+        if pd is None and norm_ref_path.endswith(".po"):
+            pd = self._path_data.get(norm_ref_path + "t", None)
         target = None
         locales = None
         if pd:
diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index 395f8d6..2881afd 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -265,7 +265,7 @@ class L10nDiscoverPaths:
         If `locale` is not set, target path will include a `{locale}` variable.
         """
         ref_path = normpath(join(self._ref_root, ref_path))
-        if ref_path.endswith(".po"):
+        if ref_path.endswith(".po") and ref_path not in self.ref_paths:
             ref_path += "t"
         if ref_required and ref_path not in self.ref_paths:
             return None, ()
-- 
2.43.0


From 85c83630febdfae32fa5d52daf2955ae60f5d6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:03 +0000
Subject: [PATCH 025/109] fix: find references of targets configured with a
 .pot path

---
 python/moz/l10n/paths/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index bbdfb1e..0821c72 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -154,7 +154,8 @@ class L10nConfigPaths:
             target: str = path["l10n"]  # Note: not normalised, so sep=="/"
             if env_map:
                 target = target.format_map(env_map)
-            self._templates.append((path_stars.sub("{}", ref), path_regex(target)))
+            tgt_re = path_regex(target[:-1] if target.endswith(".pot") else target)
+            self._templates.append((path_stars.sub("{}", ref), tgt_re))
             locales: list[str] | None = path.get("locales", None)
             if "*" in ref:
                 if ref.count("*") != target.count("*"):
-- 
2.43.0


From faf4cd8cff6fa6e358eb8787c19cf8dd18fccd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:00 +0000
Subject: [PATCH 026/109] fix: build plain JSON files from empty localizations

---
 python/moz/l10n/bin/build.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/bin/build.py b/python/moz/l10n/bin/build.py
index 8e76184..8f39a4f 100644
--- a/python/moz/l10n/bin/build.py
+++ b/python/moz/l10n/bin/build.py
@@ -168,6 +168,9 @@ def write_target_file(
             if isinstance(entry, Entry)
         }
         l10n_res.sections = []
+        if not l10n_map:
+            # The format of an empty JSON file is not known from its contents.
+            l10n_res.format = source_res.format
     else:
         l10n_res = Resource(source_res.format, [])
         l10n_map = {}
-- 
2.43.0


From 1560fe5d193b528a5af744d56992271266017e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:03 +0000
Subject: [PATCH 027/109] fix: keep all plural variants in gettext
 serialization

---
 python/moz/l10n/formats/gettext/serialize.py | 41 ++++++++++----------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index ca065f2..d358826 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -87,28 +87,27 @@ def gettext_serialize(
                         for keys, pattern in msg.variants.items()
                     )
                 ):
-                    catchall_name = plurals[-1] if plurals else str(nplurals - 1)
-                    variants = tuple(
-                        (
-                            (
-                                key
-                                if isinstance(key := keys[0], str)
-                                else key.value or catchall_name
-                            ),
-                            "".join(cast(Sequence[str], pattern)),
-                        )
-                        for keys, pattern in msg.variants.items()
-                    )
+                    names = plurals or [
+                        str(idx) for idx in range(max(nplurals, len(msg.variants)))
+                    ]
+                    variants: dict[int, str] = {}
+                    for (key,), pattern in msg.variants.items():
+                        name = key if isinstance(key, str) else key.value
+                        if name not in names:
+                            if isinstance(key, str):
+                                raise ValueError(
+                                    f"Unsupported plural key for {entry.id}: {key}"
+                                )
+                            name = names[-1]
+                        idx = names.index(name)
+                        if idx in variants:
+                            raise ValueError(
+                                f"Duplicate plural key for {entry.id}: {name}"
+                            )
+                        variants[idx] = "".join(cast(Sequence[str], pattern))
                     pe.msgstr_plural = {
-                        idx: next(
-                            (
-                                pattern
-                                for key, pattern in variants
-                                if key == (plurals[idx] if plurals else str(idx))
-                            ),
-                            "",
-                        )
-                        for idx in range(nplurals)
+                        idx: variants.get(idx, "")
+                        for idx in range(max([nplurals - 1, *variants]) + 1)
                     }
                 else:
                     raise ValueError(
-- 
2.43.0


From c64c4714a76ca9fa3c028ff81cd3dd11b06155d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:14 +0000
Subject: [PATCH 028/109] fix: insert migrated entries only in the section of
 their id

---
 python/moz/l10n/migrate/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/migrate/utils.py b/python/moz/l10n/migrate/utils.py
index 6743bda..4a2ebea 100644
--- a/python/moz/l10n/migrate/utils.py
+++ b/python/moz/l10n/migrate/utils.py
@@ -170,9 +170,9 @@ def insert_entry_after(
     for section in reversed(res.sections):
         if section.id:
             sid_len = len(section.id)
-            eid_set = {id[sid_len:] for id in id_set if section.id == id[:sid_len]}
-            if not eid_set:
+            if section.id != entry.id[:sid_len]:
                 continue
+            eid_set = {id[sid_len:] for id in id_set if section.id == id[:sid_len]}
         else:
             sid_len = 0
             eid_set = id_set
-- 
2.43.0


From 6f0a140d8bb38bbac49ffa7aee224dca1331cb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:20 +0000
Subject: [PATCH 029/109] fix: insert migrated entries without a preceding one
 in the last matching section

---
 python/moz/l10n/migrate/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/migrate/utils.py b/python/moz/l10n/migrate/utils.py
index 4a2ebea..3027b32 100644
--- a/python/moz/l10n/migrate/utils.py
+++ b/python/moz/l10n/migrate/utils.py
@@ -182,7 +182,8 @@ def insert_entry_after(
                     entry.id = entry.id[sid_len:]
                 section.entries.insert(len(section.entries) - e_rev_idx, entry)
                 return
-        last_section = section
+        if last_section is None:
+            last_section = section
     if last_section is None:
         raise StopIteration
     else:
-- 
2.43.0


From f61441b42234764c1edfea4f5d64d6499e28feb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:40 +0000
Subject: [PATCH 030/109] fix: leave localized files which cannot be parsed
 alone in migrations

---
 python/moz/l10n/migrate/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 66bdcd5..cd0e8f3 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -130,6 +130,9 @@ class Migrate:
                 ctx = MigrationContext(self.paths, ref_path, locale, self.parse_options)
                 res = ctx.get_resource(ref_path)
                 if res is None:
+                    if isfile(self.paths.format_target_path(tgt_fmt, locale)):
+                        log.warning(f"Failed to parse {ref_path} for locale {locale}")
+                        continue
                     if src_res is None:
                         src_res = _get_empty_resource(
                             join(self.paths.ref_root, ref_path)
-- 
2.43.0


From 6ee377a51b38ebdfa89059a8e9f66839fd52f524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:45 +0000
Subject: [PATCH 031/109] fix: serialize migrated resources before opening
 their files

---
 python/moz/l10n/migrate/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index cd0e8f3..42e0d8d 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -157,9 +157,9 @@ class Migrate:
                     log.info(f"Adding {entries} to {ref_path} for locale {locale}")
                     tgt_path = self.paths.format_target_path(tgt_fmt, locale)
                     if not dry_run:
+                        contents = "".join(serialize_resource(res))
                         with open(tgt_path, "w", encoding="utf-8") as file:
-                            for line in serialize_resource(res):
-                                file.write(line)
+                            file.write(contents)
                     all_changes[tgt_path] = changed
         return all_changes
 
-- 
2.43.0


From 040542b91fc1a06e8d86214300ef749fb576f44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:50 +0000
Subject: [PATCH 032/109] fix: create directories of localized files added by
 migrations

---
 python/moz/l10n/migrate/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 42e0d8d..8716261 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -17,7 +17,8 @@ from __future__ import annotations
 import dataclasses
 from copy import deepcopy
 from logging import getLogger
-from os.path import isdir, isfile, join
+from os import makedirs
+from os.path import dirname, isdir, isfile, join
 from typing import Any, Callable, Union
 
 from moz.l10n.formats import Format, detect_format
@@ -157,6 +158,7 @@ class Migrate:
                     log.info(f"Adding {entries} to {ref_path} for locale {locale}")
                     tgt_path = self.paths.format_target_path(tgt_fmt, locale)
                     if not dry_run:
+                        makedirs(dirname(tgt_path) or ".", exist_ok=True)
                         contents = "".join(serialize_resource(res))
                         with open(tgt_path, "w", encoding="utf-8") as file:
                             file.write(contents)
-- 
2.43.0


From 971f45c4a37b74dc567660ab16c4848033f8d527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:04 +0000
Subject: [PATCH 033/109] fix: do not modify the placeholders passed to
 webext_parse_message

---
 python/moz/l10n/formats/webext/parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/webext/parse.py b/python/moz/l10n/formats/webext/parse.py
index 39ffc8b..e55729b 100644
--- a/python/moz/l10n/formats/webext/parse.py
+++ b/python/moz/l10n/formats/webext/parse.py
@@ -70,6 +70,7 @@ def webext_parse_message(
         if placeholders is not None
         else {}
     )
+    ph_names: dict[str, str] = {}
     pattern: Pattern = []
     declarations: dict[str, Expression] = {}
     pos = 0
@@ -86,8 +87,8 @@ def webext_parse_message(
             ph = ph_data.get(ph_key, None)
             if ph is None:
                 raise ValueError(f"Missing placeholders entry for {ph_key}")
-            elif "_name" in ph:
-                ph_name = ph["_name"]
+            elif ph_key in ph_names:
+                ph_name = ph_names[ph_key]
             else:
                 decl_src = ph["content"]
                 decl_arg_match = pos_arg.fullmatch(decl_src)
@@ -105,7 +106,7 @@ def webext_parse_message(
                 if ph_name[0].isdigit():
                     ph_name = f"_{ph_name}"
                 declarations[ph_name] = decl_value
-                ph["_name"] = ph_name
+                ph_names[ph_key] = ph_name
             exp = Expression(VariableRef(ph_name), attributes={"source": m[0]})
             pattern.append(exp)
         elif m[2]:
-- 
2.43.0


From 8bbd0d0eaf91dbb67178aac5c653c5a02bc66d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:10 +0000
Subject: [PATCH 034/109] fix: refuse duplicate identifiers in webext
 serialization

---
 python/moz/l10n/formats/webext/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index 53fb6a0..ae45521 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -63,6 +63,8 @@ def webext_serialize(
                 if len(entry.id) != 1:
                     raise ValueError(f"Unsupported entry identifier: {entry.id}")
                 name = entry.id[0]
+                if name in res:
+                    raise ValueError(f"Duplicate identifier: {name}")
                 if isinstance(entry.value, str):
                     res[name] = {"message": entry.value}
                     if not trim_comments and entry.comment:
-- 
2.43.0


From 49228cdcad0c23c2ad94ce24b2687006a0be702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:15 +0000
Subject: [PATCH 035/109] fix: refuse webext messages which parse with other
 placeholders

---
 python/moz/l10n/formats/webext/serialize.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index ae45521..9b14b84 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -27,6 +27,7 @@ from ...model import (
     Resource,
     VariableRef,
 )
+from .parse import placeholder
 
 
 def webext_serialize(
@@ -103,11 +104,16 @@ def webext_serialize_message(
     if not isinstance(msg, PatternMessage):
         raise ValueError(f"Unsupported message: {msg}")
     msgstr = ""
+    text = ""
+    sources: list[str] = []
     placeholders: dict[str, Any] = {}
     for part in msg.pattern:
         if isinstance(part, str):
-            msgstr += sub(r"\$+", r"$\g<0>", part)
-        elif (
+            text += part
+            continue
+        msgstr += sub(r"\$+", r"$\g<0>", text)
+        text = ""
+        if (
             isinstance(part, Expression)
             and isinstance(part.arg, VariableRef)
             and part.function is None
@@ -149,10 +155,14 @@ def webext_serialize_message(
                         raise ValueError(
                             f"Unsupported placeholder example for {ph_name}: {example}"
                         )
-                msgstr += source or f"${ph_name}$"
+                sources.append(source or f"${ph_name}$")
             else:
                 arg_name = source if isinstance(source, str) else ph_name
-                msgstr += arg_name if arg_name.startswith("$") else f"${arg_name}"
+                sources.append(arg_name if arg_name.startswith("$") else f"${arg_name}")
+            msgstr += sources[-1]
         else:
             raise ValueError(f"Unsupported message part: {part}")
+    msgstr += sub(r"\$+", r"$\g<0>", text)
+    if sources != [m[0] for m in placeholder.finditer(msgstr) if m[3] is None]:
+        raise ValueError(f"Unsupported placeholders or $ characters: {msgstr}")
     return msgstr, dict(sorted(placeholders.items()))
-- 
2.43.0


From 6cc6a9804fcda8dff186278e7e974e20671059dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:32 +0000
Subject: [PATCH 036/109] fix: refuse webext placeholders which differ only in
 case

---
 python/moz/l10n/formats/webext/serialize.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index 9b14b84..a52a70f 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -107,6 +107,7 @@ def webext_serialize_message(
     text = ""
     sources: list[str] = []
     placeholders: dict[str, Any] = {}
+    arg_names: dict[str, str] = {}
     for part in msg.pattern:
         if isinstance(part, str):
             text += part
@@ -144,6 +145,11 @@ def webext_serialize_message(
                     ph_name = source[1:-1]
                 else:
                     source = None
+                prev_name = arg_names.setdefault(ph_name.lower(), part.arg.name)
+                if prev_name != part.arg.name:
+                    raise ValueError(
+                        f"Conflicting placeholders {prev_name} and {part.arg.name}"
+                    )
                 if not any(key.lower() == ph_name.lower() for key in placeholders):
                     placeholders[ph_name] = {"content": content}
                     example = (
-- 
2.43.0


From ef9566d422dc07230315e086fabbac64da5e6d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:40 +0000
Subject: [PATCH 037/109] fix: refuse webext messages which parse with moved
 placeholders

---
 python/moz/l10n/formats/webext/serialize.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index a52a70f..d8dc83f 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -105,7 +105,7 @@ def webext_serialize_message(
         raise ValueError(f"Unsupported message: {msg}")
     msgstr = ""
     text = ""
-    sources: list[str] = []
+    sources: dict[int, str] = {}
     placeholders: dict[str, Any] = {}
     arg_names: dict[str, str] = {}
     for part in msg.pattern:
@@ -161,14 +161,17 @@ def webext_serialize_message(
                         raise ValueError(
                             f"Unsupported placeholder example for {ph_name}: {example}"
                         )
-                sources.append(source or f"${ph_name}$")
+                part_src = source or f"${ph_name}$"
             else:
                 arg_name = source if isinstance(source, str) else ph_name
-                sources.append(arg_name if arg_name.startswith("$") else f"${arg_name}")
-            msgstr += sources[-1]
+                part_src = arg_name if arg_name.startswith("$") else f"${arg_name}"
+            sources[len(msgstr)] = part_src
+            msgstr += part_src
         else:
             raise ValueError(f"Unsupported message part: {part}")
     msgstr += sub(r"\$+", r"$\g<0>", text)
-    if sources != [m[0] for m in placeholder.finditer(msgstr) if m[3] is None]:
+    if sources != {
+        m.start(): m[0] for m in placeholder.finditer(msgstr) if m[3] is None
+    }:
         raise ValueError(f"Unsupported placeholders or $ characters: {msgstr}")
     return msgstr, dict(sorted(placeholders.items()))
-- 
2.43.0


From 0e43158f4da5b03550558d757c1c3a94f482da28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:04 +0000
Subject: [PATCH 038/109] fix: refuse identifiers which .inc files can't
 represent

---
 python/moz/l10n/formats/inc/serialize.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/moz/l10n/formats/inc/serialize.py b/python/moz/l10n/formats/inc/serialize.py
index 2d12c58..63e12a6 100644
--- a/python/moz/l10n/formats/inc/serialize.py
+++ b/python/moz/l10n/formats/inc/serialize.py
@@ -15,10 +15,13 @@
 from __future__ import annotations
 
 from collections.abc import Iterator
+from re import compile
 from typing import Any
 
 from ...model import Entry, Message, PatternMessage, Resource
 
+re_name = compile(r"\w+")
+
 
 def inc_serialize(
     resource: Resource[str] | Resource[Message],
@@ -60,6 +63,8 @@ def inc_serialize(
                 yield from comment(entry.comment, entry.meta, False)
                 if len(entry.id) != 1:
                     raise ValueError(f"Unsupported identifier: {entry.id}")
+                if not re_name.fullmatch(entry.id[0]):
+                    raise ValueError(f"Unsupported identifier: {entry.id[0]}")
                 msg = entry.value
                 if isinstance(msg, str):
                     value = msg
-- 
2.43.0


From d00ccba77f14e45d8aed5891a3185a4aeff18d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:09 +0000
Subject: [PATCH 039/109] fix: keep empty lines in .inc comments

---
 python/moz/l10n/formats/inc/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/inc/parse.py b/python/moz/l10n/formats/inc/parse.py
index 0c3c8b1..ad3758d 100644
--- a/python/moz/l10n/formats/inc/parse.py
+++ b/python/moz/l10n/formats/inc/parse.py
@@ -39,7 +39,7 @@ def inc_parse(source: str | bytes) -> Resource[Message]:
             if comment:
                 entries.append(Comment(comment))
                 comment = ""
-        elif line.startswith("# "):
+        elif line.startswith("# ") or line == "#":
             nc = line[2:].lstrip()
             if nc.startswith("#"):
                 nc = line
-- 
2.43.0


From 6ba1b542bfe12416d5fc6c8a37d32820e7ebb224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:15 +0000
Subject: [PATCH 040/109] fix: refuse identifiers which .ini files can't
 represent

---
 python/moz/l10n/formats/ini/serialize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/ini/serialize.py b/python/moz/l10n/formats/ini/serialize.py
index 6be53ae..358d64f 100644
--- a/python/moz/l10n/formats/ini/serialize.py
+++ b/python/moz/l10n/formats/ini/serialize.py
@@ -81,8 +81,11 @@ def ini_serialize(
                 else:
                     raise ValueError(f"Unsupported message for {entry.id}: {msg}")
                 lines = value.rstrip().splitlines()
+                name = id_str(entry.id)
+                if search(r"^(?:[#;]|[rR][eE][mM])", name):
+                    raise ValueError(f"Identifier reads as a comment: {entry.id}")
                 yield (
-                    f"{id_str(entry.id)}={lines.pop(0) if lines else ''}".rstrip()
+                    f"{name}={lines.pop(0) if lines else ''}".rstrip()
                     + "\n"
                 )
                 for line in lines:
@@ -95,6 +98,6 @@ def ini_serialize(
 
 def id_str(id: tuple[str, ...]) -> str:
     name = ".".join(id)
-    if search(r"^\s|[\n:=[\]]|\s$", name):
+    if search(r"^\s|^$|[\n:=[\]]|\s$", name):
         raise ValueError(f"Unsupported character in identifier: {id}")
     return name
-- 
2.43.0


From 52fb917dce8e5c6a243023d3470a4f78e61e5da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:40 +0000
Subject: [PATCH 041/109] fix: keep standalone comments before the last
 entities of a DTD file

---
 python/moz/l10n/formats/dtd/parse.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/dtd/parse.py b/python/moz/l10n/formats/dtd/parse.py
index fb6aae3..cd1f424 100644
--- a/python/moz/l10n/formats/dtd/parse.py
+++ b/python/moz/l10n/formats/dtd/parse.py
@@ -66,6 +66,14 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
     entries: list[Entry[Message] | Comment] = []
     resource = Resource(Format.dtd, [Section((), entries)])
 
+    def add_standalone_comment() -> None:
+        nonlocal comment
+        if entries or resource.comment:
+            entries.append(Comment(comment))
+        else:
+            resource.comment = comment
+        comment = ""
+
     def handle_other_content(entry: str) -> None:
         if sm := re_system_include.fullmatch(entry):
             resource.meta.append(Metadata(sm[1], sm[2][1:-1]))
@@ -85,11 +93,7 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
                 handle_other_content(entry)
                 lines = entry.split("\n")
                 if comment and len(lines) > 2:
-                    if entries or resource.comment:
-                        entries.append(Comment(comment))
-                    else:
-                        resource.comment = comment
-                    comment = ""
+                    add_standalone_comment()
                 at_newline = len(lines) > 1
             else:
                 if comment:
@@ -113,6 +117,8 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
         for entry in dtd_iter(source, pos):
             if isinstance(entry, str):
                 handle_other_content(entry)
+                if comment and entry.count("\n") > 1:
+                    add_standalone_comment()
             else:
                 if comment:
                     entry.comment = comment
-- 
2.43.0


From 68b0cbb7d8f37aeb76d3d51a3f1bf0de1372939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:46 +0000
Subject: [PATCH 042/109] fix: parse consecutive references to other DTD files

---
 python/moz/l10n/formats/dtd/parse.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/dtd/parse.py b/python/moz/l10n/formats/dtd/parse.py
index cd1f424..57c4e61 100644
--- a/python/moz/l10n/formats/dtd/parse.py
+++ b/python/moz/l10n/formats/dtd/parse.py
@@ -75,9 +75,12 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
         comment = ""
 
     def handle_other_content(entry: str) -> None:
-        if sm := re_system_include.fullmatch(entry):
+        pos = 0
+        while sm := re_system_include.match(entry, pos):
             resource.meta.append(Metadata(sm[1], sm[2][1:-1]))
-        elif entry and not entry.isspace():
+            pos = sm.end(0)
+        entry = entry[pos:]
+        if entry and not entry.isspace():
             raise ValueError(f"Unexpected content in DTD: {entry}")
 
     pos = 0
-- 
2.43.0


From 80e8be1849898e3f2f2707fcdb4a2a13a3e50e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:53 +0000
Subject: [PATCH 043/109] fix: refuse DTD references with invalid names

---
 python/moz/l10n/formats/dtd/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/dtd/serialize.py b/python/moz/l10n/formats/dtd/serialize.py
index 85dd14e..d437e44 100644
--- a/python/moz/l10n/formats/dtd/serialize.py
+++ b/python/moz/l10n/formats/dtd/serialize.py
@@ -84,6 +84,8 @@ def dtd_serialize(
 
     yield from comment(resource.comment, None, True)
     for meta in resource.meta:
+        if not re_name.fullmatch(meta.key):
+            raise ValueError(f"Unsupported DTD name: {meta.key}")
         yield f"<!ENTITY % {meta.key} SYSTEM {quote(meta.value)}>\n%{meta.key};\n"
     for section in resource.sections:
         yield from comment(section.comment, section.meta, True)
-- 
2.43.0


From 3b24d95373d9fef40c93bc48051da5bbad33b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:24 +0000
Subject: [PATCH 044/109] fix: do not add a colon to gettext references without
 a line number

---
 python/moz/l10n/formats/gettext/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/gettext/parse.py b/python/moz/l10n/formats/gettext/parse.py
index 45b74ef..8302311 100644
--- a/python/moz/l10n/formats/gettext/parse.py
+++ b/python/moz/l10n/formats/gettext/parse.py
@@ -72,7 +72,7 @@ def gettext_parse(
         if pe.tcomment:
             meta.append(Metadata("translator-comments", pe.tcomment))
         for file, line in pe.occurrences:
-            meta.append(Metadata("reference", f"{file}:{line}"))
+            meta.append(Metadata("reference", f"{file}:{line}" if line else file))
         if pe.obsolete:
             if skip_obsolete:
                 continue
-- 
2.43.0


From 201cf622e565daba1c8f65e014229c427605da5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:29 +0000
Subject: [PATCH 045/109] fix: refuse section identifiers and long identifiers
 in gettext serialization

---
 python/moz/l10n/formats/gettext/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index d358826..4da48eb 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -64,8 +64,12 @@ def gettext_serialize(
             raise ValueError("Section comments are not supported")
         if section.meta:
             raise ValueError("Section metadata is not supported")
+        if section.id:
+            raise ValueError(f"Section identifiers not supported: {section.id}")
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if len(entry.id) not in (1, 2):
+                    raise ValueError(f"Unsupported identifier: {entry.id}")
                 context = entry.id[1] if len(entry.id) == 2 else None
                 pe = POEntry(msgctxt=context, msgid=entry.id[0])
                 msg = entry.value
-- 
2.43.0


From f313f43a8e26930f1f6e764d1796b8095dd26eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:35 +0000
Subject: [PATCH 046/109] fix: refuse gettext entries which would be read as a
 header

---
 python/moz/l10n/formats/gettext/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 4da48eb..400fe7d 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -139,6 +139,8 @@ def gettext_serialize(
                             raise ValueError(
                                 f'Unsupported meta entry "{m.key}" for {entry.id}: {m.value}'
                             )
+                if not pe.msgid and not pe.msgctxt and not pe.obsolete:
+                    raise ValueError("An empty identifier is reserved for the header")
                 if not pe.obsolete or not trim_comments:
                     yield "\n"
                     yield pe.__unicode__(wrapwidth=wrapwidth)
-- 
2.43.0


From d1edc2fa5023f8886e9dd3ef6246d98ee98951fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:37 +0000
Subject: [PATCH 047/109] fix: use only valid Fluent numbers and identifiers in
 Fluent serialization

---
 python/moz/l10n/formats/fluent/serialize.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 9312a18..31440fd 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -37,6 +37,8 @@ from ...model import (
     VariableRef,
 )
 
+number = compile(r"-?[0-9]+(?:\.[0-9]+)?")
+identifier = r"[a-zA-Z][a-zA-Z0-9_-]*"
 ws_at_start = compile(r"\s+")
 ws_at_end = compile(r"\s+$")
 
@@ -356,13 +358,11 @@ def variant_key(
     key: str | CatchallKey, other: str
 ) -> ftl.NumberLiteral | ftl.Identifier:
     kv = str(key) or other
-    try:
-        float(kv)
+    if number.fullmatch(kv):
         return ftl.NumberLiteral(kv)
-    except Exception:
-        if fullmatch(r"[a-zA-Z][\w-]*", kv):
-            return ftl.Identifier(kv)
-        raise ValueError(f"Unsupported variant key: {kv}")
+    if fullmatch(identifier, kv):
+        return ftl.Identifier(kv)
+    raise ValueError(f"Unsupported variant key: {kv}")
 
 
 def flat_pattern(
@@ -489,7 +489,7 @@ def function_ref(
             raise ValueError(
                 "Message and term references must have a literal message identifier"
             )
-        match = fullmatch(r"(-?[a-zA-Z][\w-]*)(?:\.([a-zA-Z][\w-]*))?", arg.value)
+        match = fullmatch(rf"(-?{identifier})(?:\.({identifier}))?", arg.value)
         if not match:
             raise ValueError(f"Invalid message or term identifier: {arg.value}")
         msg_id = match[1]
@@ -519,11 +519,9 @@ def value(
     decl: dict[str, Expression], val: str | VariableRef, decl_name: str = ""
 ) -> ftl.InlineExpression:
     if isinstance(val, str):
-        try:
-            float(val)
+        if number.fullmatch(val):
             return ftl.NumberLiteral(val)
-        except Exception:
-            return ftl.StringLiteral(esc_bs.sub(r"\\\1", val).translate(esc_cc))
+        return ftl.StringLiteral(esc_bs.sub(r"\\\1", val).translate(esc_cc))
     elif val.name != decl_name and val.name in decl:
         return expression(decl, decl[val.name], val.name)
     else:
-- 
2.43.0


From 88741af443ece1d95922b15d8d4ad598ab937f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:42 +0000
Subject: [PATCH 048/109] fix: keep Fluent string literals with a numeric value
 as strings

---
 python/moz/l10n/formats/fluent/serialize.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 31440fd..c76bea6 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -439,7 +439,12 @@ def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeab
 def expression(
     decl: dict[str, Expression], expr: Expression, decl_name: str = ""
 ) -> ftl.InlineExpression:
-    arg = value(decl, expr.arg, decl_name) if expr.arg is not None else None
+    if isinstance(expr.arg, str) and expr.function in (None, "string"):
+        arg: ftl.InlineExpression | None = string_literal(expr.arg)
+    elif expr.arg is not None:
+        arg = value(decl, expr.arg, decl_name)
+    else:
+        arg = None
     if expr.function:
         return function_ref(decl, arg, expr)
     if arg:
@@ -515,13 +520,17 @@ esc_cc = {n: f"\\u{n:04X}" for r in (range(0, 32), range(127, 160)) for n in r}
 esc_bs = compile(r'([\\"])')
 
 
+def string_literal(val: str) -> ftl.StringLiteral:
+    return ftl.StringLiteral(esc_bs.sub(r"\\\1", val).translate(esc_cc))
+
+
 def value(
     decl: dict[str, Expression], val: str | VariableRef, decl_name: str = ""
 ) -> ftl.InlineExpression:
     if isinstance(val, str):
         if number.fullmatch(val):
             return ftl.NumberLiteral(val)
-        return ftl.StringLiteral(esc_bs.sub(r"\\\1", val).translate(esc_cc))
+        return string_literal(val)
     elif val.name != decl_name and val.name in decl:
         return expression(decl, decl[val.name], val.name)
     else:
-- 
2.43.0


From 668f0badc3b26580a99e9f329a2a28b09d6a856f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:47 +0000
Subject: [PATCH 049/109] fix: keep Fluent functions called STRING and MESSAGE

---
 python/moz/l10n/formats/fluent/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index c76bea6..ac5e722 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -470,7 +470,7 @@ def function_ref(
 
     function = cast(str, expr.function)
     ftl_name = expr.attributes.get("fluent-fn", None)
-    if function == "string":
+    if function == "string" and not ftl_name:
         if not arg:
             raise ValueError("Argument required for :string")
         if named:
@@ -489,7 +489,7 @@ def function_ref(
                 ftl_name = "NUMBER"
             else:
                 return arg
-    if function == "message":
+    if function == "message" and not ftl_name:
         if not isinstance(arg, ftl.Literal):
             raise ValueError(
                 "Message and term references must have a literal message identifier"
-- 
2.43.0


From 2981a5b72fb1c227cb09f4d40fcc85fa41d6fc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:51 +0000
Subject: [PATCH 050/109] fix: escape line breaks other than newlines in Fluent
 text

---
 python/moz/l10n/formats/fluent/serialize.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index ac5e722..3fca1ca 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -415,7 +415,9 @@ def valid_empty_pattern(pattern: ftl.Pattern) -> ftl.Pattern:
     return ftl.Pattern([ftl.Placeable(value({}, empty_text))])
 
 
-not_text = compile(r"[{}]+|\n *[*.[]")
+# Fluent treats CRLF as a newline, and the Fluent serializer
+# indents lines after each of these line break characters.
+not_text = compile(r"[{}]+|\n *[*.[]|[\r\v\f\x1c-\x1e\x85\u2028\u2029]+")
 
 
 def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeable]:
@@ -425,11 +427,11 @@ def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeab
     idx = 0
     for m in not_text.finditer(source):
         start = m.start()
-        esc = m[0].lstrip()
+        esc = m[0].lstrip("\n ")
         start += len(m[0]) - len(esc)
         if start > idx:
             elements.append(ftl.TextElement(source[idx:start]))
-        elements.append(ftl.Placeable(ftl.StringLiteral(esc)))
+        elements.append(ftl.Placeable(string_literal(esc)))
         idx = m.end()
     if idx < len(source):
         elements.append(ftl.TextElement(source[idx:]))
@@ -516,7 +518,12 @@ def function_ref(
 
 
 # Non-printable ASCII C0 & C1 / Unicode Cc characters
-esc_cc = {n: f"\\u{n:04X}" for r in (range(0, 32), range(127, 160)) for n in r}
+# as well as the Unicode line and paragraph separators
+esc_cc = {
+    n: f"\\u{n:04X}"
+    for r in (range(0, 32), range(127, 160), range(0x2028, 0x202A))
+    for n in r
+}
 esc_bs = compile(r'([\\"])')
 
 
-- 
2.43.0


From 64b948815d354be7d95e053199574bf31f3bd212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:45 +0000
Subject: [PATCH 051/109] fix: keep spaces on otherwise empty lines in Fluent
 serialization

---
 python/moz/l10n/formats/fluent/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 3fca1ca..514215c 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -417,7 +417,7 @@ def valid_empty_pattern(pattern: ftl.Pattern) -> ftl.Pattern:
 
 # Fluent treats CRLF as a newline, and the Fluent serializer
 # indents lines after each of these line break characters.
-not_text = compile(r"[{}]+|\n *[*.[]|[\r\v\f\x1c-\x1e\x85\u2028\u2029]+")
+not_text = compile(r"[{}]+|\n *[*.[]|(?<=\n) +(?=\n)|[\r\v\f\x1c-\x1e\x85\u2028\u2029]+")
 
 
 def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeable]:
@@ -427,7 +427,7 @@ def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeab
     idx = 0
     for m in not_text.finditer(source):
         start = m.start()
-        esc = m[0].lstrip("\n ")
+        esc = m[0] if m[0].isspace() else m[0].lstrip("\n ")
         start += len(m[0]) - len(esc)
         if start > idx:
             elements.append(ftl.TextElement(source[idx:start]))
-- 
2.43.0


From 50b4f74851b555ce4ec54aefc2964fb7f105ad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:27 +0000
Subject: [PATCH 052/109] fix: keep indent in multi-line Fluent patterns which
 start with a special character

---
 python/moz/l10n/formats/fluent/serialize.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 514215c..a7e8464 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -393,6 +393,16 @@ def flat_pattern(
             elements.append(ftl.Placeable(expression(decl, el)))
         else:
             raise ValueError(f"Conversion to Fluent not supported: {el}")
+    if (
+        escape_syntax
+        and elements
+        and isinstance(el0 := elements[0], ftl.TextElement)
+        and el0.value[:1] in ("[", ".", "*")
+        and any("\n " in el.value for el in elements if isinstance(el, ftl.TextElement))
+    ):
+        # The pattern can't start on a new line unless its first character is escaped,
+        # and otherwise its indent is determined by its continuation lines only.
+        elements[:1] = text(f"\n{el0.value}", True)[1:]
     return ftl.Pattern(elements)
 
 
-- 
2.43.0


From ca607032f8368489d5d50e9ebb234ac72cfda94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:33 +0000
Subject: [PATCH 053/109] fix: escape empty variant patterns in Fluent
 serialization

---
 python/moz/l10n/formats/fluent/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index a7e8464..51efb00 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -307,6 +307,10 @@ def fluent_astify_message(
         (list(keys), flat_pattern(message.declarations, value, escape_syntax))
         for keys, value in message.variants.items()
     ]
+    variants = [
+        (keys, valid_empty_pattern(pattern) if pattern_is_empty(pattern) else pattern)
+        for keys, pattern in variants
+    ]
 
     other = fallback_name(message)
     keys0 = variants[0][0]
-- 
2.43.0


From cea687e643a191acbd9b0bb46db9869eaea349b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:37 +0000
Subject: [PATCH 054/109] fix: refuse messages with Fluent select expressions
 without a default variant

---
 python/moz/l10n/formats/fluent/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 51efb00..f2d495e 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -326,6 +326,7 @@ def fluent_astify_message(
             selector = selector.arguments.positional[0]
         base_keys = []
         sel_exp = None
+        sel_expressions = []
         i = 0
         while i < len(variants):
             keys, pattern = variants[i]
@@ -339,8 +340,11 @@ def fluent_astify_message(
             else:
                 base_keys = keys
                 sel_exp = ftl.SelectExpression(selector.clone(), [ftl_variant])
+                sel_expressions.append(sel_exp)
                 variants[i] = (keys, ftl.Pattern([ftl.Placeable(sel_exp)]))
                 i += 1
+        if any(sum(v.default for v in se.variants) != 1 for se in sel_expressions):
+            raise ValueError("Each Fluent select expression must have one default variant")
     if len(variants) != 1:
         raise ValueError(f"Error resolving select message variants (n={len(variants)})")
     return variants[0][1]
-- 
2.43.0


From d26d4d9484a6643f67d1f06bfe55900772b43e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:42 +0000
Subject: [PATCH 055/109] fix: refuse section identifiers in Fluent
 serialization

---
 python/moz/l10n/formats/fluent/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index f2d495e..19a24cf 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -142,6 +142,8 @@ def fluent_astify(
     if res_comment:
         body.append(ftl.ResourceComment(res_comment))
     for idx, section in enumerate(resource.sections):
+        if section.id:
+            raise ValueError(f"Section identifiers not supported: {section.id}")
         section_comment = comment_str(section)
         if (not trim_comments and idx != 0) or section_comment:
             body.append(ftl.GroupComment(section_comment))
-- 
2.43.0


From 0738b1ed511914f74b4257434a51c0e74b849290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:11 +0000
Subject: [PATCH 056/109] fix: parse Fluent select expressions in nested
 placeables

---
 python/moz/l10n/formats/fluent/parse.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 1bcecb2..95ade5d 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -314,12 +314,15 @@ def find_selectors(
     pattern: ftl.Pattern,
     result: list[tuple[Expression, list[ftl.InlineExpression], list[Key]]],
 ) -> list[tuple[Expression, list[ftl.InlineExpression], list[Key]]]:
+    el: (
+        ftl.TextElement | ftl.Placeable | ftl.InlineExpression | ftl.SelectExpression
+    )
     for el in pattern.elements:
-        if isinstance(el, ftl.Placeable) and isinstance(
-            el.expression, ftl.SelectExpression
-        ):
-            ftl_sel = el.expression.selector
-            keys = [variant_key(v) for v in el.expression.variants]
+        while isinstance(el, ftl.Placeable):
+            el = el.expression
+        if isinstance(el, ftl.SelectExpression):
+            ftl_sel = el.selector
+            keys = [variant_key(v) for v in el.variants]
             msg_sel = select_expression(ftl_sel, keys)
             prev = next((x for x in result if x[0] == msg_sel), None)
             if prev:
@@ -328,7 +331,7 @@ def find_selectors(
                 key_list += keys
             else:
                 result.append((msg_sel, [ftl_sel], keys))
-            for v in el.expression.variants:
+            for v in el.variants:
                 find_selectors(v.value, result)
     return result
 
-- 
2.43.0


From 2a052874c74c9514fcb32de60230ddc792b85004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:16 +0000
Subject: [PATCH 057/109] fix: use different names for different Fluent
 selectors

---
 python/moz/l10n/formats/fluent/parse.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 95ade5d..c00424a 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -265,11 +265,20 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
     add_pattern(ftl_pattern)
 
     if sel_expressions:
-        declarations = {}
+        declarations: dict[str, Expression] = {}
         selectors = []
+        var_names.update(
+            expr.arg.name
+            for expr in sel_expressions
+            if isinstance(expr.arg, VariableRef)
+        )
         for expr in sel_expressions:
             name = expr.arg.name if isinstance(expr.arg, VariableRef) else None
-            if name is None or expr.attributes.get("fluent-fn") is not None:
+            if (
+                name is None
+                or name in declarations
+                or expr.attributes.get("fluent-fn") is not None
+            ):
                 stem = name or "sel"
                 name = None
                 i = 0
-- 
2.43.0


From af360cf10036935fd2396734b78159f0d5456f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:20 +0000
Subject: [PATCH 058/109] fix: use default variants of Fluent select
 expressions which do not have all keys of their selector

---
 python/moz/l10n/formats/fluent/parse.py | 70 +++++++++++++++++--------
 1 file changed, 48 insertions(+), 22 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index c00424a..0ed0c6e 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -217,18 +217,37 @@ def fluent_entry(
 def message(ftl_pattern: ftl.Pattern) -> Message:
     sel_data = find_selectors(ftl_pattern, [])
     sel_expressions = [sd[0] for sd in sel_data]
-    filter: list[Key | None] = [None] * len(sel_expressions)
     msg_variants: dict[tuple[Key, ...], Pattern]
     var_names: set[str] = set()
     if sel_expressions:
         key_lists = [list(dict.fromkeys(sd[2])) for sd in sel_data]
         for keys in key_lists:
             keys.sort(key=lambda k: (k[2], not k[1]))
+            # All default variants match the same values, whatever their names.
+            while len(keys) > 1 and keys[-2][2]:
+                keys.pop()
         msg_variants = {key: [] for key in product(*key_lists)}
     else:
         msg_variants = {(): []}
 
-    def add_pattern(ftl_pattern: ftl.Pattern) -> None:
+    # Selectors for which only a default variant was found with a non-default key
+    fallbacks: dict[tuple[tuple[Key, ...], int], bool] = {}
+
+    def select(
+        sel: ftl.SelectExpression, keys: tuple[Key, ...], idx: int
+    ) -> ftl.Variant:
+        name, is_numeric, is_default = keys[idx]
+        default = next(v for v in sel.variants if v.default)
+        if is_default:
+            return default
+        for v in sel.variants:
+            if variant_key(v)[:2] == (name, is_numeric):
+                fallbacks[keys, idx] = False
+                return v
+        fallbacks.setdefault((keys, idx), True)
+        return default
+
+    def add_pattern(ftl_pattern: ftl.Pattern, all_keys: list[tuple[Key, ...]]) -> None:
         el: (
             ftl.TextElement
             | ftl.Placeable
@@ -241,28 +260,35 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
             if isinstance(el, ftl.SelectExpression):
                 msg_sel = next(sd[0] for sd in sel_data if el.selector in sd[1])
                 idx = sel_expressions.index(msg_sel)
-                prev_filt = filter[idx]
+                selected = [(select(el, keys, idx), keys) for keys in all_keys]
                 for v in el.variants:
-                    filter[idx] = variant_key(v)
-                    add_pattern(v.value)
-                filter[idx] = prev_filt
+                    add_pattern(v.value, [keys for sv, keys in selected if sv is v])
             else:
-                for keys, msg_pattern in msg_variants.items():
-                    if all(
-                        (filt is None or key == filt) for key, filt in zip(keys, filter)
-                    ):
-                        if isinstance(el, ftl.TextElement):
-                            if msg_pattern and isinstance(msg_pattern[-1], str):
-                                msg_pattern[-1] += el.value
-                            else:
-                                msg_pattern.append(el.value)
+                for keys in all_keys:
+                    msg_pattern = msg_variants[keys]
+                    if isinstance(el, ftl.TextElement):
+                        if msg_pattern and isinstance(msg_pattern[-1], str):
+                            msg_pattern[-1] += el.value
                         else:
-                            expr = inline_expression(el)
-                            if isinstance(expr.arg, VariableRef):
-                                var_names.add(expr.arg.name)
-                            msg_pattern.append(expr)
-
-    add_pattern(ftl_pattern)
+                            msg_pattern.append(el.value)
+                    else:
+                        expr = inline_expression(el)
+                        if isinstance(expr.arg, VariableRef):
+                            var_names.add(expr.arg.name)
+                        msg_pattern.append(expr)
+
+    add_pattern(ftl_pattern, list(msg_variants))
+
+    def is_redundant(keys: tuple[Key, ...]) -> bool:
+        """Is the same text given by a variant with a default key?"""
+        return any(
+            all(
+                fallbacks.get((other, idx))
+                for other in msg_variants
+                if other[: idx + 1] == keys[: idx + 1]
+            )
+            for idx in range(len(keys))
+        )
 
     if sel_expressions:
         declarations: dict[str, Expression] = {}
@@ -291,7 +317,7 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
         variants = {
             tuple(map(message_key, keys)): msg_pattern
             for keys, msg_pattern in msg_variants.items()
-            if msg_pattern
+            if not is_redundant(keys)
         }
         return SelectMessage(declarations, tuple(selectors), variants)
     else:
-- 
2.43.0


From 36e6ee842e6fb65f0bec01577f3f61e5c98319f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:40 +0000
Subject: [PATCH 059/109] fix: keep the indent of string values starting with a
 special character in Fluent

---
 python/moz/l10n/formats/fluent/serialize.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 19a24cf..95db38f 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -288,7 +288,7 @@ def fluent_astify_message(
 
     if isinstance(message, (str, PatternMessage)):
         pattern = (
-            ftl.Pattern(text(message, escape_syntax))
+            ftl.Pattern(escape_start(text(message, escape_syntax), escape_syntax))
             if isinstance(message, str)
             else flat_pattern(message.declarations, message.pattern, escape_syntax)
         )
@@ -403,6 +403,16 @@ def flat_pattern(
             elements.append(ftl.Placeable(expression(decl, el)))
         else:
             raise ValueError(f"Conversion to Fluent not supported: {el}")
+    return ftl.Pattern(escape_start(elements, escape_syntax))
+
+
+def escape_start(
+    elements: list[ftl.TextElement | ftl.Placeable], escape_syntax: bool
+) -> list[ftl.TextElement | ftl.Placeable]:
+    """
+    A pattern can't start on a new line unless its first character is escaped,
+    and otherwise its indent is determined by its continuation lines only.
+    """
     if (
         escape_syntax
         and elements
@@ -410,10 +420,8 @@ def flat_pattern(
         and el0.value[:1] in ("[", ".", "*")
         and any("\n " in el.value for el in elements if isinstance(el, ftl.TextElement))
     ):
-        # The pattern can't start on a new line unless its first character is escaped,
-        # and otherwise its indent is determined by its continuation lines only.
-        elements[:1] = text(f"\n{el0.value}", True)[1:]
-    return ftl.Pattern(elements)
+        return text(f"\n{el0.value}", True)[1:] + elements[1:]
+    return elements
 
 
 def pattern_is_empty(pattern: ftl.Pattern) -> bool:
-- 
2.43.0


From 17f2bd351c2d12bcf27999430483cfc501b74c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 060/109] fix: escape all control characters in Android strings

---
 python/moz/l10n/formats/android/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 322ab9a..a80b611 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -413,7 +413,7 @@ android_escape = str.maketrans(
 )
 
 # Control codes are not valid in XML, and nonstandard whitespace needs escaping
-control_chars = compile(r"[\x00-\x19\x7F-\x9F]|[^\S ]|(?<= ) ")
+control_chars = compile(r"[\x00-\x1F\x7F-\x9F]|[^\S ]|(?<= ) ")
 
 
 def escape_char(ch: str) -> str:
-- 
2.43.0


From 682169dcfd643f914b76ce0b3f41b57f8fec6d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 061/109] fix: write Android strings as well-formed XML rather
 than HTML

---
 python/moz/l10n/formats/android/serialize.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index a80b611..e86994b 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -159,7 +159,11 @@ def android_serialize(
         for entity in entities:
             yield f"  {entity}\n"
         yield "]>\n"
-    yield etree.tostring(root, encoding="unicode", method="html")
+    for el in root.iter("string", "item", "plurals", "string-array"):
+        if not el.text and len(el) == 0:
+            # Use separate start and end tags for empty values
+            el.text = ""
+    yield etree.tostring(root, encoding="unicode")
     yield "\n"
 
 
@@ -174,9 +178,7 @@ def android_serialize_message(msg: Message | str, *, allow_cdata: bool = False)
 
     target = etree.Element("string")
     set_pattern_message(target, msg, allow_cdata=allow_cdata)
-    string = etree.tostring(
-        target, encoding="unicode", method="html", pretty_print=True
-    ).strip()
+    string = etree.tostring(target, encoding="unicode").strip()
     if string == "<string/>":
         return ""
     if not string.startswith("<string>"):
@@ -288,9 +290,7 @@ def set_pattern_message(
         el.text = escape_part(msg)
         escape_pattern(el)
         if allow_cdata and tag_like.search(el.text) is not None:
-            # The manual wrapper is a workaround for
-            # https://bugs.launchpad.net/lxml/+bug/2111509
-            el.text = etree.CDATA(f"<![CDATA[{el.text}]]>")
+            el.text = etree.CDATA(el.text)
     elif isinstance(msg, PatternMessage) and not msg.declarations:
         set_pattern(el, msg.pattern, allow_cdata=allow_cdata)
     else:
@@ -392,9 +392,7 @@ def set_pattern(
         and el.text
         and tag_like.search(el.text) is not None
     ):
-        # The manual wrapper is a workaround for
-        # https://bugs.launchpad.net/lxml/+bug/2111509
-        el.text = etree.CDATA(f"<![CDATA[{el.text}]]>")
+        el.text = etree.CDATA(el.text)
 
 
 def entity_name(part: Expression) -> str | None:
-- 
2.43.0


From 71d8f8605d3e68f094608d0a90fc855df6ca968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:06 +0000
Subject: [PATCH 062/109] fix: do not use CDATA for Android strings including
 its end marker

---
 python/moz/l10n/formats/android/serialize.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index e86994b..42a73f8 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -289,8 +289,8 @@ def set_pattern_message(
     if isinstance(msg, str):
         el.text = escape_part(msg)
         escape_pattern(el)
-        if allow_cdata and tag_like.search(el.text) is not None:
-            el.text = etree.CDATA(el.text)
+        if allow_cdata:
+            wrap_cdata(el)
     elif isinstance(msg, PatternMessage) and not msg.declarations:
         set_pattern(el, msg.pattern, allow_cdata=allow_cdata)
     else:
@@ -386,12 +386,13 @@ def set_pattern(
             else:
                 raise ValueError(f"Improper element nesting for {part} in {parent}")
     escape_pattern(el)
-    if (
-        allow_cdata
-        and len(el) == 0
-        and el.text
-        and tag_like.search(el.text) is not None
-    ):
+    if allow_cdata and len(el) == 0:
+        wrap_cdata(el)
+
+
+def wrap_cdata(el: etree._Element) -> None:
+    # The CDATA end marker can only be represented as escaped text
+    if el.text and tag_like.search(el.text) is not None and "]]>" not in el.text:
         el.text = etree.CDATA(el.text)
 
 
-- 
2.43.0


From 9104b32f89a8a2d8219e0aefc461a40ecae3fbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:11 +0000
Subject: [PATCH 063/109] fix: unescape escaped HTML in Android strings

---
 python/moz/l10n/formats/android/parse.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index b941d2a..b1d4f98 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 
 import logging
 from collections.abc import Callable, Iterable, Iterator
-from re import ASCII, compile, match
+from re import ASCII, Match, compile, match
 from typing import Literal, cast
 
 from lxml import etree
@@ -465,17 +465,13 @@ def parse_inline(
                         acc += part[pos:start]
                 if at_br:
                     at_br = False
-                if m[1]:
-                    # Unicode escape
-                    acc += chr(int(m[1], base=16))
-                elif m[2]:
+                if m[1] or m[2]:
                     # Escaped character
-                    c = m[2]
-                    acc += "\n" if c == "n" else "\t" if c == "t" else c
+                    acc += unescape(m[0])
                 elif m[3]:
                     # Escaped HTML element, e.g. &lt;b>
                     # HTML elements containing internal % formatting are not wrapped as literals
-                    tag = m[3]
+                    tag = unescape(m[3])
                     if acc.endswith(" ") and block_tag_re.match(tag):
                         yield acc[:-1] + "\n"
                         acc = ""
@@ -533,6 +529,18 @@ def parse_inline(
         yield acc
 
 
+escape_re = compile(r"\\u([0-9a-fA-F]{4})|\\(.)")
+
+
+def unescape(src: str) -> str:
+    def char(m: Match[str]) -> str:
+        if m[1]:
+            return chr(int(m[1], base=16))
+        return {"n": "\n", "t": "\t"}.get(m[2], m[2])
+
+    return escape_re.sub(char, src)
+
+
 arg_idx = compile(r"%([1-9]\$)?")
 not_name_char = compile(f"[^{xml_name_start}{xml_name_rest}]")
 not_name_start = compile(f"[^{xml_name_start}]")
-- 
2.43.0


From 60f9cb54b6708243761ff8af007f1c39b944e1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 064/109] fix: unescape literal non-translatable contents of
 Android strings

---
 python/moz/l10n/formats/android/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index b1d4f98..40a623e 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -377,7 +377,7 @@ def flatten(el: etree._Element) -> Iterator[str | Expression | Markup]:
                                 arg = VariableRef(get_var_name(gc))
                                 attr["source"] = gc
                             else:
-                                arg = gc
+                                arg = unescape(gc)
                             if options:
                                 yield Expression(arg, name, options, attributes=attr)
                             else:
-- 
2.43.0


From 87b54b792476851dd41327d8b3651ee7c7a5f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 065/109] fix: do not break Android comments at other than line
 feeds

---
 python/moz/l10n/formats/android/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 40a623e..16b0f1f 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -255,7 +255,7 @@ def comment_str(body: list[str | None]) -> str:
                 lines.append(comment.replace("\n   - ", "\n").strip(" "))
             else:
                 lines.append(
-                    "\n".join(line.strip() for line in comment.splitlines()).strip("\n")
+                    "\n".join(line.strip() for line in comment.split("\n")).strip("\n")
                 )
     return "\n\n".join(lines).strip("\n")
 
-- 
2.43.0


From 7ebd838426d82f2c32764b6ea08d83765990747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:57 +0000
Subject: [PATCH 066/109] fix: keep a comment at the end of an Android strings
 file

---
 python/moz/l10n/formats/android/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 16b0f1f..03b4f58 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -195,6 +195,8 @@ def android_parse(
                 comment.clear()
         if el.tail and not el.tail.isspace():
             log.warning(f"Unexpected text in resource: {el.tail}")
+    if comment:
+        entries.append(Comment(comment_str(comment)))
     return res
 
 
-- 
2.43.0


From 8d1f8bb6c385f1582b8193d15192496d6b52cb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:02 +0000
Subject: [PATCH 067/109] fix: refuse Android plurals with duplicate quantities

---
 python/moz/l10n/formats/android/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 42a73f8..d02a690 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -273,6 +273,8 @@ def set_plural_message(plurals: etree._Element, msg: SelectMessage) -> None:
             key = key.value if has_other else "other"
         if key not in plural_categories:
             raise ValueError(f"Unsupported plural variant key: {keys}")
+        if any(prev.get("quantity") == key for prev in plurals.iter("item")):
+            raise ValueError(f"Duplicate plural variant key: {keys}")
         item = etree.SubElement(plurals, "item", attrib={"quantity": key})
         set_pattern(item, value)
         item.tail = "\n    "
-- 
2.43.0


From 6d44964a1ce1698cfdd8d16b782fc6fb9f757623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:09 +0000
Subject: [PATCH 068/109] fix: refuse characters invalid in XML in Android
 resource comments

---
 python/moz/l10n/formats/android/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index d02a690..0960327 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -67,7 +67,8 @@ def android_serialize(
 
     yield '<?xml version="1.0" encoding="utf-8"?>\n'
     if resource.comment and not trim_comments:
-        yield f"\n<!--{comment_body(resource.comment, 0)}-->\n\n"
+        comment = etree.Comment(comment_body(resource.comment, 0))
+        yield f"\n{etree.tostring(comment, encoding='unicode')}\n\n"
 
     # The nsmap needs to be set during creation
     # https://bugs.launchpad.net/lxml/+bug/555602
-- 
2.43.0


From 76193837e60d2fa9a637e4115797bf26798a2b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:14 +0000
Subject: [PATCH 069/109] fix: keep the position of Android entries and
 comments after a string array

---
 python/moz/l10n/formats/android/serialize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 0960327..2a3294d 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -109,6 +109,7 @@ def android_serialize(
                 if not xml_name.fullmatch(name):
                     raise ValueError(f"Invalid entry name: {name}")
                 if len(entry.id) == 1:
+                    string_array = None
                     attrib = get_attrib(name, entry.meta)
                     if isinstance(entry.value, SelectMessage):
                         # <plurals>
@@ -131,8 +132,10 @@ def android_serialize(
                     if entry.comment and not trim_comments:
                         add_comment(string_array, entry.comment, False)
                     set_string_array_item(string_array, entry)
-            elif not trim_comments:
-                add_comment(string_array or root, entry.comment, True)
+            else:
+                string_array = None
+                if not trim_comments:
+                    add_comment(root, entry.comment, True)
 
     etree.cleanup_namespaces(root, {"xliff": xliff_ns})
 
-- 
2.43.0


From 56218f28bac543d86d0726863bc3e74907d46e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:20 +0000
Subject: [PATCH 070/109] fix: allow comments in Android string arrays

---
 python/moz/l10n/formats/android/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 2a3294d..5478ecb 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -254,7 +254,7 @@ def set_string_array_item(
         num = int(entry.id[1])
     except ValueError:
         raise ValueError(f"Unsupported entry id: {entry.id}")
-    if num != len(parent):
+    if entry.id[1] != str(num) or num != len(parent.findall("item")):
         raise ValueError(f"String-array keys must be ordered: {entry.id}")
     if isinstance(entry.value, SelectMessage):
         raise ValueError(f"Unsupported message type for {entry.id}: {entry.value}")
-- 
2.43.0


From 0269816e8bbf588af75c26fc9e81de4219003514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 071/109] fix: read predefined XML entities in Android entity
 values as text

---
 python/moz/l10n/formats/android/parse.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 03b4f58..84417b7 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -264,18 +264,27 @@ def comment_str(body: list[str | None]) -> str:
 
 entity_ref = compile(f"&({xml_name.pattern});")
 
+# The values of entities may include markup, so &lt; needs to be kept separate from <
+predefined_entities = {"amp": "&", "gt": ">", "quot": '"', "apos": "'"}
+
 
 def parse_entity_value(src: str | None) -> Iterator[str | Expression]:
     if src:
+        acc = ""
         pos = 0
         for m in entity_ref.finditer(src):
-            start = m.start()
-            if start > pos:
-                yield src[pos:start]
-            yield Expression(VariableRef(m[1]), "entity")
+            acc += src[pos : m.start()]
             pos = m.end()
-        if pos < len(src):
-            yield src[pos:]
+            if m[1] in predefined_entities:
+                acc += predefined_entities[m[1]]
+            else:
+                if acc:
+                    yield acc
+                    acc = ""
+                yield Expression(VariableRef(m[1]), "entity")
+        acc += src[pos:]
+        if acc:
+            yield acc
 
 
 def parse_plurals(
-- 
2.43.0


From db7855242d6d21686856a3bba4d118d870186fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:45 +0000
Subject: [PATCH 072/109] fix: refuse Android entity values which are not
 well-formed

---
 python/moz/l10n/formats/android/serialize.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 5478ecb..d4e51f5 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -32,7 +32,7 @@ from ...model import (
     SelectMessage,
     VariableRef,
 )
-from .parse import plural_categories, resource_ref, xliff_g, xliff_ns, xml_name
+from .parse import entity_ref, plural_categories, resource_ref, xliff_g, xliff_ns, xml_name
 
 
 def android_serialize(
@@ -226,7 +226,7 @@ def entity_definition(entry: Entry[str] | Entry[Message]) -> str:
         raise ValueError(f"Invalid entity name: {name}")
 
     # Characters not allowed in XML EntityValue text
-    escape = str.maketrans({"&": "&amp;", "%": "&#37;", '"': "&quot;"})
+    escape = str.maketrans({"&": "&amp;", "%": "&#37;", '"': "&quot;", "\r": "&#13;"})
 
     if isinstance(entry.value, str):
         value = entry.value.translate(escape)
@@ -244,6 +244,12 @@ def entity_definition(entry: Entry[str] | Entry[Message]) -> str:
     else:
         raise ValueError(f"Unsupported entity value: {entry.value}")
 
+    # Entity values may include markup, but need to be well-formed
+    try:
+        etree.fromstring(f"<{name}>{entity_ref.sub('', value)}</{name}>")
+    except (etree.XMLSyntaxError, ValueError) as err:
+        raise ValueError(f"Invalid value for entity {name}: {err}")
+
     return f'<!ENTITY {name} "{value}">'
 
 
-- 
2.43.0


From 0aa3241f84d2afa0e61b0447ea639c343e841e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:46 +0000
Subject: [PATCH 073/109] fix: do not include escapes in Android placeholders

---
 python/moz/l10n/formats/android/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 84417b7..b1c1dc5 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -446,7 +446,7 @@ inline_re = compile(
     r"\\u([0-9a-fA-F]{4})|"
     r"\\(.)|"
     r"(<[^%>]+>)|"
-    r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?.))"
+    r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?[^\\\n]))"
 )
 block_tag_re = compile(r"<(div|h[123456r]|p|d[dt]|li|/?[dou]l)\b")
 break_tag_re = compile(r"<[bh]r/?>")
-- 
2.43.0


From ca93c9bc267f31670629d11aee388052ffe5951f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:51 +0000
Subject: [PATCH 074/109] fix: read Android strings with a percent sign before
 an HTML tag

---
 python/moz/l10n/formats/android/parse.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index b1c1dc5..07d77a9 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -446,7 +446,7 @@ inline_re = compile(
     r"\\u([0-9a-fA-F]{4})|"
     r"\\(.)|"
     r"(<[^%>]+>)|"
-    r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?[^\\\n]))"
+    r"(%(?:[1-9]\$|<(?![^%>]+>))?[-#+ 0,(]?[0-9.]*([tT]?[^\\\n<]))"
 )
 block_tag_re = compile(r"<(div|h[123456r]|p|d[dt]|li|/?[dou]l)\b")
 break_tag_re = compile(r"<[bh]r/?>")
@@ -491,6 +491,9 @@ def parse_inline(
                         acc = ""
                     yield Expression(tag, "html")
                     at_br = bool(break_tag_re.fullmatch(tag))
+                elif m[4].startswith("%<") and not prev_var_name:
+                    # There is no previous placeholder to refer to
+                    acc += m[4]
                 else:
                     if acc:
                         yield acc
@@ -521,13 +524,10 @@ def parse_inline(
                         source = m[0]
                         if source.startswith("%<"):
                             # https://developer.android.com/reference/java/util/Formatter#argument-index
-                            if prev_var_name:
-                                name = prev_var_name
-                                prev_idx_m = var_idx_re.search(name)
-                                prev_idx = prev_idx_m[0] + "$" if prev_idx_m else ""
-                                source = f"%{prev_idx}{source[2:]}"
-                            else:
-                                raise ValueError(f"Invalid {source} placeholder")
+                            name = cast(str, prev_var_name)
+                            prev_idx_m = var_idx_re.search(name)
+                            prev_idx = prev_idx_m[0] + "$" if prev_idx_m else ""
+                            source = f"%{prev_idx}{source[2:]}"
                         else:
                             name = get_var_name(source)
                             prev_var_name = name
-- 
2.43.0


From 735796d217e5a0f0d18c5859926673b01b480545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:53 +0000
Subject: [PATCH 075/109] fix: normalise all spaces after line breaks in
 Android strings

---
 python/moz/l10n/formats/android/parse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 07d77a9..2f39e18 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -465,6 +465,7 @@ def parse_inline(
                 yield acc
                 acc = ""
             yield part
+            at_br = False
         else:
             pos = 0
             for m in inline_re.finditer(part):
@@ -535,6 +536,11 @@ def parse_inline(
                             VariableRef(name), func, attributes={"source": source}
                         )
                 pos = m.end()
+            if at_br and pos < len(part):
+                at_br = False
+                if part[pos] == " ":
+                    acc += "\n"
+                    pos += 1
             acc += part[pos:]
     if acc:
         yield acc
-- 
2.43.0


From 55b870f4abf01e9b95ec625b7d9307cc7d4c74b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 076/109] fix: keep spaces next to placeholders in Android
 strings

---
 python/moz/l10n/formats/android/serialize.py | 28 +++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index d4e51f5..e661b99 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -328,11 +328,7 @@ def set_pattern(
     node = None
     for part in pattern:
         if isinstance(part, str):
-            esc = escape_part(part)
-            if node is None:
-                parent.text = parent.text + esc if parent.text else esc
-            else:
-                node.tail = node.tail + esc if node.tail else esc
+            add_text(parent, node, escape_part(part))
         elif isinstance(part, Expression):
             ent_name = entity_name(part)
             if part.attributes.get("translate", None) == "no":
@@ -358,10 +354,7 @@ def set_pattern(
                 source = part.attributes["source"]
                 if not isinstance(source, str):
                     raise ValueError(f"Unsupported expression source: {part}")
-                if node is None:
-                    parent.text = parent.text + source if parent.text else source
-                else:
-                    node.tail = node.tail + source if node.tail else source
+                add_text(parent, node, source)
             else:
                 source = None
                 if isinstance(part.arg, str):
@@ -369,10 +362,7 @@ def set_pattern(
                 elif isinstance(part.arg, VariableRef):
                     source = part.arg.name
                 if source is not None:
-                    if node is None:
-                        parent.text = parent.text + source if parent.text else source
-                    else:
-                        node.tail = node.tail + source if node.tail else source
+                    add_text(parent, node, source)
                 else:
                     raise ValueError(f"Unsupported expression: {part}")
         elif any(isinstance(value, VariableRef) for value in part.options.values()):
@@ -402,6 +392,18 @@ def set_pattern(
         wrap_cdata(el)
 
 
+def add_text(
+    parent: etree._Element, node: etree._Element | None, text: str
+) -> None:
+    prev = (parent.text if node is None else node.tail) or ""
+    if prev.endswith(" ") and text.startswith(" "):
+        text = escape_char(" ") + text[1:]
+    if node is None:
+        parent.text = prev + text
+    else:
+        node.tail = prev + text
+
+
 def wrap_cdata(el: etree._Element) -> None:
     # The CDATA end marker can only be represented as escaped text
     if el.text and tag_like.search(el.text) is not None and "]]>" not in el.text:
-- 
2.43.0


From 5cfe16849e04dd347a0f7922a1d4caadfee7d8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 077/109] fix: do not write non-translatable literals as
 placeholders in Android strings

---
 python/moz/l10n/formats/android/serialize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index e661b99..e405349 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -345,6 +345,9 @@ def set_pattern(
                 else:
                     if isinstance(part.arg, str):
                         node.text = escape_part(part.arg)
+                        if node.text.startswith(("%", "{")):
+                            # Not a placeholder
+                            node.text = escape_char(node.text[0]) + node.text[1:]
                     elif isinstance(part.arg, VariableRef):
                         node.text = part.arg.name
             elif ent_name:
-- 
2.43.0


From dc63bf976baa56d4aa73eb102e9e8fc1ccf8c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 078/109] fix: do not read spaces as conversions of Android
 placeholders

---
 python/moz/l10n/formats/android/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 2f39e18..5be08be 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -446,7 +446,7 @@ inline_re = compile(
     r"\\u([0-9a-fA-F]{4})|"
     r"\\(.)|"
     r"(<[^%>]+>)|"
-    r"(%(?:[1-9]\$|<(?![^%>]+>))?[-#+ 0,(]?[0-9.]*([tT]?[^\\\n<]))"
+    r"(%(?:[1-9]\$|<(?![^%>]+>))?[-#+ 0,(]?[0-9.]*([tT]?[^\\\s<]))"
 )
 block_tag_re = compile(r"<(div|h[123456r]|p|d[dt]|li|/?[dou]l)\b")
 break_tag_re = compile(r"<[bh]r/?>")
-- 
2.43.0


From 5922d0b4dba4a0094994d5c8b30bfae77e6b78b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 079/109] fix: do not add spaces to XLIFF sources and targets
 of only inline elements

---
 python/moz/l10n/formats/xliff/common.py    |  1 +
 python/moz/l10n/formats/xliff/serialize.py | 12 +++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/common.py b/python/moz/l10n/formats/xliff/common.py
index bc3f1b9..3c4147b 100644
--- a/python/moz/l10n/formats/xliff/common.py
+++ b/python/moz/l10n/formats/xliff/common.py
@@ -26,6 +26,7 @@ xliff_ns = {
     "urn:oasis:names:tc:xliff:document:1.1",
     "urn:oasis:names:tc:xliff:document:1.2",
 }
+content_elements = {"source", "target", "seg-source"}
 xml_ns = "http://www.w3.org/XML/1998/namespace"
 xcode_tool_id = Metadata("header/tool/@tool-id", "com.apple.dt.xcode")
 
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 8e08d62..3fad7d2 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -33,7 +33,7 @@ from ...model import (
     SelectMessage,
     VariableRef,
 )
-from .common import clark_name
+from .common import clark_name, content_elements
 
 
 def xliff_serialize(
@@ -183,6 +183,7 @@ def xliff_serialize_message(msg: Message) -> str:
         raise ValueError(f"Unsupported message: {msg}")
     target = etree.Element("target")
     set_pattern(target, msg.pattern)
+    keep_spaces(target)
     str = etree.tostring(target, encoding="unicode", pretty_print=True).strip()
     if str == "<target/>":
         return ""
@@ -218,6 +219,7 @@ def add_unit(
                 msg_el = etree.Element("target")
                 source.addnext(msg_el)
         set_pattern(msg_el, pattern)
+        keep_spaces(msg_el)
 
     if (
         comment
@@ -429,9 +431,17 @@ def assign_metadata(
             if not trim_comments or name != "note":
                 child = etree.SubElement(el, clark_name(el.nsmap, name))
                 assign_metadata(child, child_meta, trim_comments, child_base)
+                if name in content_elements:
+                    keep_spaces(child)
             done.append(child_base)
 
 
+def keep_spaces(el: etree._Element) -> None:
+    """Prevent pretty printing from adding spaces between inline elements."""
+    if len(el) > 0 and el.text is None:
+        el.text = ""
+
+
 def comment_body(content: str, indent: int) -> str:
     # Comments can't include --, so add a zero width space between and after dashes beyond the first
     cc = content.strip().replace("--", "-\u200b-\u200b")
-- 
2.43.0


From 1eb38bfddabfabcb8e28beb22c9261b584f9ab2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 080/109] fix: keep spaces in XLIFF sources and targets in
 metadata

---
 python/moz/l10n/formats/xliff/common.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/common.py b/python/moz/l10n/formats/xliff/common.py
index 3c4147b..864e39e 100644
--- a/python/moz/l10n/formats/xliff/common.py
+++ b/python/moz/l10n/formats/xliff/common.py
@@ -32,7 +32,7 @@ xcode_tool_id = Metadata("header/tool/@tool-id", "com.apple.dt.xcode")
 
 
 def element_as_metadata(
-    el: _Element, base: str, with_attrib: bool
+    el: _Element, base: str, with_attrib: bool, keep_spaces: bool = False
 ) -> Iterator[Metadata]:
     is_empty = True
     seen: dict[str, int] = defaultdict(int)
@@ -41,7 +41,9 @@ def element_as_metadata(
         if am:
             yield from am
             is_empty = False
-    if el.text and not el.text.isspace():
+    if isinstance(el.tag, str) and QName(el.tag).localname in content_elements:
+        keep_spaces = True
+    if el.text and (keep_spaces or not el.text.isspace()):
         yield Metadata(base, el.text)
         is_empty = False
     for child in el:
@@ -53,11 +55,11 @@ def element_as_metadata(
             child_base = f"{base}/{name}" if base else name
             if idx > 1:
                 child_base += f"[{idx}]"
-            yield from element_as_metadata(child, child_base, True)
+            yield from element_as_metadata(child, child_base, True, keep_spaces)
             seen[name] = idx
         else:
             raise ValueError(f"Unsupported metadata element in {base}: {el}")
-        if child.tail and not child.tail.isspace():
+        if child.tail and (keep_spaces or not child.tail.isspace()):
             yield Metadata(base, child.tail)
         is_empty = False
     if is_empty and with_attrib:
-- 
2.43.0


From 7ff6fe8c223d77ecc0bc3c27905bc2db28b915f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:37 +0000
Subject: [PATCH 081/109] fix: accept Clark notation in names of XLIFF inline
 elements and attributes

---
 python/moz/l10n/formats/xliff/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/common.py b/python/moz/l10n/formats/xliff/common.py
index 864e39e..0d9c0f7 100644
--- a/python/moz/l10n/formats/xliff/common.py
+++ b/python/moz/l10n/formats/xliff/common.py
@@ -96,7 +96,7 @@ def pretty_name(el: _Element, name: str) -> str:
 
 def clark_name(nsmap: dict[str | None, str], name: str) -> str:
     """See https://lxml.de/tutorial.html#namespaces"""
-    if ":" not in name:
+    if ":" not in name or name.startswith("{"):
         return name
     ns, local = name.split(":", 1)
     if ns in nsmap:
-- 
2.43.0


From e73c526fac6cff32e51f259d3580ba138739444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 082/109] fix: assign XLIFF section metadata only to the
 section's own element

---
 python/moz/l10n/formats/xliff/serialize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 3fad7d2..0385f3c 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -102,11 +102,13 @@ def xliff_serialize(
             parent_key += (id_part,)
             if parent == root:
                 file = etree.SubElement(root, "file", {"original": id_part})
-                assign_metadata(file, section.meta, trim_comments)
+                if len(section.id) == 1:
+                    assign_metadata(file, section.meta, trim_comments)
                 parent = etree.SubElement(file, "body")
             else:
                 parent = etree.SubElement(parent, "group", {"id": id_part})
-                assign_metadata(parent, section.meta, trim_comments)
+                if parent_key == tuple(section.id):
+                    assign_metadata(parent, section.meta, trim_comments)
             prev[parent_key] = parent
         indent = 2 * len(section.id)
         if section.comment:
-- 
2.43.0


From 73363ce26dcec8ac86237438a83c8ce457652697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 083/109] fix: refuse characters that are invalid in XML in
 XLIFF resource comments

---
 python/moz/l10n/formats/xliff/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 0385f3c..5b7dafe 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -65,7 +65,8 @@ def xliff_serialize(
 
     yield '<?xml version="1.0" encoding="utf-8"?>\n'
     if resource.comment and not trim_comments:
-        yield f"\n<!--{comment_body(resource.comment, 0)}-->\n\n"
+        root_comment = etree.Comment(comment_body(resource.comment, 0))
+        yield f"\n{etree.tostring(root_comment, encoding='unicode')}\n\n"
 
     # The nsmap needs to be set during creation
     # https://bugs.launchpad.net/lxml/+bug/555602
-- 
2.43.0


From eac7806825ad3f275e2a065ccaa6ba6f9e904893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 084/109] fix: break XLIFF comment lines only at line feeds

---
 python/moz/l10n/formats/xliff/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index 2c8c8f9..8a8bb11 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -239,6 +239,6 @@ def comment_str(body: list[str] | str) -> str:
                 lines.append(comment.replace("\n   - ", "\n").strip(" "))
             else:
                 lines.append(
-                    "\n".join(line.strip() for line in comment.splitlines()).strip("\n")
+                    "\n".join(line.strip() for line in comment.split("\n")).strip("\n")
                 )
     return "\n\n".join(lines).strip("\n")
-- 
2.43.0


From d39d7494ec51590aa90aca35bc05e16d649054a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 085/109] fix: detect duplicate XLIFF elements also when they
 are without children

---
 python/moz/l10n/formats/xliff/parse.py            | 2 +-
 python/moz/l10n/formats/xliff/parse_trans_unit.py | 2 +-
 python/moz/l10n/formats/xliff/serialize.py        | 4 +++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index 8a8bb11..0a5937e 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -113,7 +113,7 @@ def xliff_parse(
                 elif child.tag == f"{ns}header":
                     meta += element_as_metadata(child, "header", True)
                 elif child.tag == f"{ns}body":
-                    if body:
+                    if body is not None:
                         raise ValueError(f"Duplicate <body> in <file>: {file}")
                     body = child
                 else:
diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index 0dcfad7..9e36cd8 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -53,7 +53,7 @@ def parse_trans_unit(
         else:
             name = pretty_name(el, str(el.tag))
             if name == msg_name:
-                if msg_el:
+                if msg_el is not None:
                     raise ValueError(
                         f"Duplicate <{msg_name}> in <trans-unit> {id}: {unit}"
                     )
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 5b7dafe..2c239f3 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -231,7 +231,9 @@ def add_unit(
         and unit.find("note") is None
     ):
         if msg_el is None:
-            prev_el = unit.find("target") or unit.find("source")
+            prev_el = unit.find("target")
+            if prev_el is None:
+                prev_el = unit.find("source")
             if prev_el is None:
                 raise ValueError(f"Invalid entry with no source: {unit}")
         else:
-- 
2.43.0


From 156fa130610d9a4ddc167ba41dbd05489eb606a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:08 +0000
Subject: [PATCH 086/109] fix: parse Xcode placeholders also after XLIFF inline
 elements, and ignore comments in targets

---
 .../moz/l10n/formats/xliff/parse_trans_unit.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index 9e36cd8..dcb5d87 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -81,11 +81,12 @@ def parse_pattern(
     el: etree._Element, is_xcode: bool
 ) -> Iterator[str | Expression | Markup]:
     if el.text:
-        if is_xcode:
-            yield from parse_xcode_pattern(el.text)
-        else:
-            yield el.text
+        yield from parse_text(el.text, is_xcode)
     for child in el:
+        if isinstance(child, etree._Comment):
+            if child.tail:
+                yield from parse_text(child.tail, is_xcode)
+            continue
         q = etree.QName(cast(str, child.tag))
         ns = q.namespace
         name = q.localname if not ns or ns in xliff_ns else q.text
@@ -97,4 +98,11 @@ def parse_pattern(
             yield from parse_pattern(child, is_xcode)
             yield Markup("close", name)
         if child.tail:
-            yield child.tail
+            yield from parse_text(child.tail, is_xcode)
+
+
+def parse_text(text: str, is_xcode: bool) -> Iterator[str | Expression]:
+    if is_xcode:
+        yield from parse_xcode_pattern(text)
+    else:
+        yield text
-- 
2.43.0


From a6d0083ad8fc15604f309048b1af59da700401e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:13 +0000
Subject: [PATCH 087/109] fix: keep comments after the last XLIFF file

---
 python/moz/l10n/formats/xliff/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index 0a5937e..399566a 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -162,6 +162,8 @@ def xliff_parse(
                     )
                 if unit.tail and not unit.tail.isspace():
                     raise ValueError(f"Unexpected text in <body>: {unit.tail}")
+    if comment and res.sections:
+        res.sections[-1].entries.append(Comment(comment_str(comment)))
     return res
 
 
-- 
2.43.0


From 978c8c958ffdc9ec0b2f1ecdd676928875d4b682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:32 +0000
Subject: [PATCH 088/109] fix: write XLIFF file comments before the file,
 unless trimmed

---
 python/moz/l10n/formats/xliff/serialize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 2c239f3..b361d80 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -112,9 +112,10 @@ def xliff_serialize(
                     assign_metadata(parent, section.meta, trim_comments)
             prev[parent_key] = parent
         indent = 2 * len(section.id)
-        if section.comment:
+        if section.comment and not trim_comments:
             comment = etree.Comment(comment_body(section.comment, indent))
-            parent.addprevious(comment)
+            section_el = parent.getparent() if len(section.id) == 1 else parent
+            cast(etree._Element, section_el).addprevious(comment)
 
         indent += 2
         for entry in section.entries:
-- 
2.43.0


From 615c6aada7bada2af6022d6bbd7138fa0e58661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 089/109] fix: keep translated format keys of XLIFF stringsdict
 plurals

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 6038374..35c5d74 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -388,6 +388,9 @@ def parse_xliff_stringsdict(
             meta += attrib_as_metadata(plural.format_key.unit, "format", ("id",))
             if plural.format_key.target is not None:
                 meta += attrib_as_metadata(plural.format_key.target, "format/target")
+                target_text = plural.format_key.target.text
+                if target_text and target_text != plural.format_key.source.text:
+                    meta.append(Metadata("format/target", target_text))
         msg = SelectMessage(
             declarations={plural.var_name: selector},
             selectors=(VariableRef(plural.var_name),),
-- 
2.43.0


From c1f0a409fbe6b3c3f024407095cf66e1d31a2ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:14 +0000
Subject: [PATCH 090/109] fix: keep multiple notes of XLIFF xcstrings units
 separate

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 23 +++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 35c5d74..119e274 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -311,11 +311,8 @@ def parse_xliff_xcstrings_unit(
     source = unit_data.source
     target = unit_data.target
     meta = attrib_as_metadata(unit_data.unit, None, ("id",))
-    comments: list[str] = []
-    for note in unit_data.notes:
-        meta += element_as_metadata(note, "note", True)
-        if note.text and not note.text.isspace():
-            comments.append(note.text.strip())
+    note_meta, comment = notes_as_metadata(unit_data)
+    meta += note_meta
     if from_source:
         meta += attrib_as_metadata(source, "source")
         if target is not None:
@@ -330,7 +327,7 @@ def parse_xliff_xcstrings_unit(
             pattern_src = target.text
     entry_data: tuple[list[Metadata], str, Pattern] = (
         meta,
-        "\n\n".join(comments),
+        comment,
         list(parse_xcode_pattern(pattern_src)),
     )
 
@@ -497,6 +494,20 @@ def get_xcode_unit_data(ns: str, unit: etree._Element) -> XcodeUnitData:
     return XcodeUnitData(unit, source, target, notes)
 
 
+def notes_as_metadata(
+    unit_data: XcodeUnitData, base: str = ""
+) -> tuple[list[Metadata], str]:
+    """The metadata and the comment for the <note> elements of an Xcode <trans-unit>."""
+    meta: list[Metadata] = []
+    comments: list[str] = []
+    for idx, note in enumerate(unit_data.notes):
+        name = f"{base}note[{idx + 1}]" if idx > 0 else f"{base}note"
+        meta += element_as_metadata(note, name, True)
+        if note.text and not note.text.isspace():
+            comments.append(note.text.strip())
+    return meta, "\n\n".join(comments)
+
+
 def parse_xcode_pattern(src: str | None) -> Iterator[str | Expression]:
     if not src:
         return
-- 
2.43.0


From 18b1f1405df93035920b40b68e63f6df61c9aa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:21 +0000
Subject: [PATCH 091/109] fix: keep notes of XLIFF stringsdict plurals

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 12 +++++++++++-
 python/moz/l10n/formats/xliff/serialize.py   | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 119e274..f054adb 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -381,6 +381,7 @@ def parse_xliff_stringsdict(
             else {},
         )
         meta: list[Metadata] = []
+        comments: dict[str, str] = {}
         if plural.format_key:
             meta += attrib_as_metadata(plural.format_key.unit, "format", ("id",))
             if plural.format_key.target is not None:
@@ -388,6 +389,10 @@ def parse_xliff_stringsdict(
                 target_text = plural.format_key.target.text
                 if target_text and target_text != plural.format_key.source.text:
                     meta.append(Metadata("format/target", target_text))
+            note_meta, comment = notes_as_metadata(plural.format_key, "format/")
+            meta += note_meta
+            if comment:
+                comments["format"] = comment
         msg = SelectMessage(
             declarations={plural.var_name: selector},
             selectors=(VariableRef(plural.var_name),),
@@ -395,6 +400,10 @@ def parse_xliff_stringsdict(
         )
         for key, variant in plural.variants.items():
             meta += attrib_as_metadata(variant.unit, key, ("id",))
+            note_meta, comment = notes_as_metadata(variant, f"{key}/")
+            meta += note_meta
+            if comment:
+                comments[key] = comment
             if from_source:
                 meta += attrib_as_metadata(variant.source, f"{key}/source")
                 if variant.target is not None:
@@ -410,7 +419,8 @@ def parse_xliff_stringsdict(
             msg.variants[(CatchallKey("other") if key == "other" else key,)] = list(
                 parse_xcode_pattern(pattern_src)
             )
-        entries.append(Entry((msg_id,), msg, meta=meta))
+        entry_comment = "\n\n".join(f"{k}: {v}" for k, v in comments.items())
+        entries.append(Entry((msg_id,), msg, comment=entry_comment, meta=meta))
     return entries
 
 
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index b361d80..946f738 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -258,7 +258,11 @@ def add_xliff_stringsdict_plural(
     source_entries: bool,
     trim_comments: bool,
 ) -> None:
-    if entry.comment:
+    if (
+        entry.comment
+        and not trim_comments
+        and not any(has_note(m) for m in entry.meta)
+    ):
         raise ValueError(f"Unsupported comment on SelectMessage: {entry.comment}")
     msg = entry.value
     if len(msg.selectors) != 1:
@@ -274,6 +278,8 @@ def add_xliff_stringsdict_plural(
     sel_source = sel.attributes.get("source", None)
     meta_base = "format/"
     meta = [m for m in entry.meta if m.key.startswith(meta_base)]
+    if trim_comments:
+        meta = [m for m in meta if not has_note(m)]
     if isinstance(sel_source, str):
         xcode_id = f"{id_base}/NSStringLocalizedFormatKey:dict/:string"
         unit = etree.SubElement(parent, "trans-unit", {"id": xcode_id})
@@ -340,6 +346,10 @@ def add_xliff_stringsdict_plural(
             target.text = text
 
 
+def has_note(meta: Metadata) -> bool:
+    return any(part.split("[")[0] == "note" for part in meta.key.split("/"))
+
+
 def add_xcstrings_selectmessage(
     parent: etree._Element,
     entry: Entry[SelectMessage],
-- 
2.43.0


From ba344c14df2cdd16fd9ed5ab035dcc0e2097c32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 092/109] fix: write comments of XLIFF xcstrings messages as
 notes

---
 python/moz/l10n/formats/xliff/serialize.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 946f738..7c84707 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -356,9 +356,7 @@ def add_xcstrings_selectmessage(
     source_entries: bool,
     trim_comments: bool,
 ) -> None:
-    if entry.comment:
-        # TODO
-        pass
+    comment = "" if any(has_note(m) for m in entry.meta) else entry.comment
     msg = entry.value
     msg_id = entry.id[0]
 
@@ -381,12 +379,14 @@ def add_xcstrings_selectmessage(
                 base_meta.append(m)
         unit = etree.SubElement(parent, "trans-unit", {"id": msg_id})
         pattern: Pattern = [sel] if "source" in sel.attributes else []
-        add_unit(unit, "", base_meta, pattern, source_entries, trim_comments)
+        add_unit(unit, comment, base_meta, pattern, source_entries, trim_comments)
         for keys, pattern in msg.variants.items():
             key = str(keys[0]) or "other"
             id = f"{msg_id}|==|substitutions.{sub_name}.plural.{key}"
             unit = etree.SubElement(parent, "trans-unit", {"id": id})
-            add_unit(unit, "", sub_meta[key], pattern, source_entries, trim_comments)
+            add_unit(
+                unit, comment, sub_meta[key], pattern, source_entries, trim_comments
+            )
         return
 
     var_type = None
@@ -406,7 +406,7 @@ def add_xcstrings_selectmessage(
             if m_key == key:
                 meta.append(Metadata("/".join(parts), m.value))
         unit = etree.SubElement(parent, "trans-unit", {"id": id})
-        add_unit(unit, "", meta, pattern, source_entries, trim_comments)
+        add_unit(unit, comment, meta, pattern, source_entries, trim_comments)
 
 
 def assign_metadata(
-- 
2.43.0


From 6f813213426bd52aced4e0b3ee5157acf4fce1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:32 +0000
Subject: [PATCH 093/109] fix: refuse XLIFF inline elements without closing
 markup

---
 python/moz/l10n/formats/xliff/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 7c84707..85f84df 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -514,3 +514,5 @@ def set_pattern(el: etree._Element, pattern: Pattern) -> None:
                 add_text(part_source)
             else:
                 raise ValueError(f"Unsupported expression: {part}")
+    if parent != el:
+        raise ValueError(f"Missing closing markup for {parent.tag!s}")
-- 
2.43.0


From fa26aaf1db32dfa1fecc11a713af268968d047ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 094/109] fix: keep contents of XLIFF x, bx and ex elements

---
 python/moz/l10n/formats/xliff/parse_trans_unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index dcb5d87..ec70076 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -91,7 +91,7 @@ def parse_pattern(
         ns = q.namespace
         name = q.localname if not ns or ns in xliff_ns else q.text
         options: dict[str, str | VariableRef] = dict(child.attrib)
-        if name in ("x", "bx", "ex"):
+        if name in ("x", "bx", "ex") and len(child) == 0 and not child.text:
             yield Markup("standalone", name, options)
         elif isinstance(child.tag, str):
             yield Markup("open", name, options)
-- 
2.43.0


From 92f7743d0376d614f13d098ff18d8a9c20d8a84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 095/109] fix: allow comments in the body of XLIFF stringsdict
 and xcstrings files

---
 python/moz/l10n/formats/xliff/parse.py       | 7 +++++++
 python/moz/l10n/formats/xliff/parse_xcode.py | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index 399566a..744440e 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -139,9 +139,11 @@ def xliff_parse(
                 if file_name.endswith(".stringsdict"):
                     plural_entries = parse_xliff_stringsdict(ns, body, source_entries)
                     if plural_entries:
+                        entries += body_comments(body)
                         entries += plural_entries
                         continue
                 elif file_name.endswith(".xcstrings"):
+                    entries += body_comments(body)
                     entries += parse_xliff_xcstrings(ns, body, source_entries)
                     continue
 
@@ -216,6 +218,11 @@ def parse_group(
             raise ValueError(f"Unexpected text in <group>: {unit.tail}")
 
 
+def body_comments(body: etree._Element) -> Iterator[Comment]:
+    for comment in body.iterchildren(etree.Comment):
+        yield Comment(comment_str(comment.text))
+
+
 def parse_bin_unit(unit: etree._Element) -> Entry[Message]:
     id = unit.attrib.get("id", None)
     if id is None:
diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index f054adb..15bd945 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -76,6 +76,8 @@ def parse_xliff_xcstrings(
 ) -> Iterator[Entry[Message]]:
     units: dict[str, XcstringsMsgData] = defaultdict(XcstringsMsgData)
     for unit in body:
+        if isinstance(unit, etree._Comment):
+            continue
         if unit.tag != f"{ns}trans-unit":
             raise ValueError(f"Unsupported <{unit.tag!s}> element in <body>: {body}")
         if "id" not in unit.attrib:
@@ -359,6 +361,8 @@ def parse_xliff_stringsdict(
 ) -> list[Entry[SelectMessage]] | None:
     plurals: dict[str, StringsdictPlural] = {}
     for unit in body:
+        if isinstance(unit, etree._Comment):
+            continue
         if unit.tag != f"{ns}trans-unit":
             return None
         if unit.text and not unit.text.isspace():
-- 
2.43.0


From dd2bd846d71ac6cebb3cf61ddd8543a4032eef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:50 +0000
Subject: [PATCH 096/109] fix: always write the source of XLIFF trans-units
 with source_entries

---
 python/moz/l10n/formats/xliff/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 85f84df..247fdaf 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -208,7 +208,8 @@ def add_unit(
     assign_metadata(unit, meta, trim_comments)
 
     msg_el = None
-    if pattern:  # only non-empty for <trans-unit>
+    # A <source> is always required; pattern is only non-empty for <trans-unit>
+    if pattern or (source_entries and unit.tag == "trans-unit"):
         if source_entries:
             msg_el = unit.find("source")
             if msg_el is None:
-- 
2.43.0


From 5ba9a56ebdccce580804493e553a06ab9d9a32d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 097/109] fix: do not select XLIFF xcstrings plurals on
 substitutions

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 15bd945..fe795ac 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -237,6 +237,7 @@ def parse_xliff_xcstrings(
                         for el in pattern
                         if isinstance(el, Expression)
                         and isinstance(el.arg, VariableRef)
+                        and "substitution" not in el.attributes
                         and isinstance(src := el.attributes.get("source", None), str)
                         and not not_first_placeholder.match(src)
                     ),
-- 
2.43.0


From e1f01053c56a39af9655238132ff758aff56ee29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 098/109] fix: refuse empty variant keys in Fluent

---
 python/moz/l10n/formats/fluent/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 95db38f..79e238d 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -367,7 +367,7 @@ def fallback_name(message: SelectMessage) -> str:
 def variant_key(
     key: str | CatchallKey, other: str
 ) -> ftl.NumberLiteral | ftl.Identifier:
-    kv = str(key) or other
+    kv = (key.value or other) if isinstance(key, CatchallKey) else key
     if number.fullmatch(kv):
         return ftl.NumberLiteral(kv)
     if fullmatch(identifier, kv):
-- 
2.43.0


From 79564e93607e33b323e418e93d6586a4e61ca281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:26 +0000
Subject: [PATCH 099/109] fix: refuse an XLIFF xcstrings substitution with no
 place for it

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index fe795ac..7d1ffda 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -179,11 +179,16 @@ def parse_xliff_xcstrings(
                 for keys_, pattern in msg.variants.items():
                     if str(keys_[sel_idx]) == id:
                         sub_ph_idx = next(
-                            idx
-                            for idx, el in enumerate(pattern)
-                            if isinstance(el, Expression)
-                            and el.attributes.get("substitution", None) == sub_idx
+                            (
+                                idx
+                                for idx, el in enumerate(pattern)
+                                if isinstance(el, Expression)
+                                and el.attributes.get("substitution", None) == sub_idx
+                            ),
+                            None,
                         )
+                        if sub_ph_idx is None:
+                            error(f"Missing {var_name} substitution")
                         pattern[sub_ph_idx : sub_ph_idx + 1] = var_pattern
             for pattern in msg.variants.values():
                 pattern_: Pattern = []
-- 
2.43.0


From a9e4e3e708510f6a010a6f0f2af8de0c47f49c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:30 +0000
Subject: [PATCH 100/109] fix: refuse duplicate units in XLIFF xcstrings files

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 7d1ffda..bec84b2 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -339,27 +339,36 @@ def parse_xliff_xcstrings_unit(
         list(parse_xcode_pattern(pattern_src)),
     )
 
+    def error(message: str) -> NoReturn:
+        raise ValueError(f'{message} in Xcode <trans-unit id="{unit.attrib["id"]}">')
+
     if len(id_parts) == 1:
+        if units[msg_id].base is not None:
+            error("Duplicate unit")
         units[msg_id].base = entry_data
         return
     if len(id_parts) == 2:
         dim, *key = id_parts[1].split(".")
         if dim == "plural":
             if len(key) == 1:
+                if key[0] in units[msg_id].plural:
+                    error("Duplicate unit")
                 units[msg_id].plural[key[0]] = entry_data
                 return
         elif dim == "substitutions":
             if len(key) == 3 and key[1] == "plural":
+                if (key[0], key[2]) in units[msg_id].substitutions:
+                    error("Duplicate unit")
                 units[msg_id].substitutions[(key[0], key[2])] = entry_data
                 return
         elif dim == "device":
             if len(key) == 1:
+                if key[0] in units[msg_id].device:
+                    error("Duplicate unit")
                 units[msg_id].device[key[0]] = entry_data
                 return
 
-    raise ValueError(
-        f'Unsupported Xcode id syntax in <trans-unit id="{unit.attrib["id"]}">'
-    )
+    error("Unsupported Xcode id syntax")
 
 
 def parse_xliff_stringsdict(
-- 
2.43.0


From d7b4c795c9e6af9349ed01c24ae1dc56067adc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:03 +0000
Subject: [PATCH 101/109] fix: keep untranslated variants of XLIFF xcstrings
 substitutions

---
 python/moz/l10n/formats/xliff/parse_xcode.py |  8 ++++++++
 python/moz/l10n/formats/xliff/serialize.py   | 12 +++++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index bec84b2..6e65da0 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -142,6 +142,9 @@ def parse_xliff_xcstrings(
                 variants={keys: deepcopy(sub_pattern) for keys in var_keys},
             )
             entry = Entry((msg_id,), msg, meta=meta[:])
+            is_translated = len(sub_vars) == 1 and any(
+                var_pattern for _, _, var_pattern in data.substitutions.values()
+            )
 
             for (var_name, id), (
                 meta,
@@ -157,6 +160,11 @@ def parse_xliff_xcstrings(
                 entry.meta += meta
 
                 if not var_pattern:
+                    if is_translated and var_name in sub_vars:
+                        # Leave the pattern empty for an untranslated variant.
+                        for keys_, pattern in msg.variants.items():
+                            if str(keys_[0]) == id:
+                                pattern.clear()
                     continue
 
                 sub_decl = sub_vars.get(var_name, None)
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 247fdaf..94f3f38 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -379,9 +379,15 @@ def add_xcstrings_selectmessage(
             else:
                 base_meta.append(m)
         unit = etree.SubElement(parent, "trans-unit", {"id": msg_id})
-        pattern: Pattern = [sel] if "source" in sel.attributes else []
-        add_unit(unit, comment, base_meta, pattern, source_entries, trim_comments)
-        for keys, pattern in msg.variants.items():
+        base_pattern: Pattern = [sel] if "source" in sel.attributes else []
+        variants = msg.variants
+        first = next(iter(variants.values()), [])
+        if sel in first and all(pattern == first for pattern in variants.values()):
+            # None of the variants of the substitution is translated.
+            base_pattern = first
+            variants = {keys: [] for keys in variants}
+        add_unit(unit, comment, base_meta, base_pattern, source_entries, trim_comments)
+        for keys, pattern in variants.items():
             key = str(keys[0]) or "other"
             id = f"{msg_id}|==|substitutions.{sub_name}.plural.{key}"
             unit = etree.SubElement(parent, "trans-unit", {"id": id})
-- 
2.43.0


From 039d6c2990a165e52519f90c5397489037a86c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:30 +0000
Subject: [PATCH 102/109] fix: end line of Fluent entries with attributes

---
 python/moz/l10n/formats/fluent/parse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 0ed0c6e..f68f72e 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -209,7 +209,7 @@ def fluent_entry(
             entry.properties[attr.id.name] = prop_msg
         if lpm and entry.linepos and attr.span:
             span = attr.value.span or attr.span
-            entry.linepos.end = span.end
+            entry.linepos.end = lpm.get_line(span.end)
 
     return entry
 
@@ -457,7 +457,7 @@ class LinePosMapper:
         self._len = len(src)
         self._newlines = [m.start() for m in finditer("\n", src)]
 
-    def _get_line(self, char_idx: int) -> int:
+    def get_line(self, char_idx: int) -> int:
         # Treat the end of the string as a newline.
         if not self._newlines and char_idx >= self._len:
             return 2
@@ -467,8 +467,8 @@ class LinePosMapper:
         )
 
     def get_linepos(self, start: int, key: int, value: int, end: int) -> LinePos:
-        start_line = self._get_line(start)
-        key_line = start_line if key == start else self._get_line(key)
-        value_line = key_line if value == key else self._get_line(value)
-        end_line = self._get_line(end)
+        start_line = self.get_line(start)
+        key_line = start_line if key == start else self.get_line(key)
+        value_line = key_line if value == key else self.get_line(value)
+        end_line = self.get_line(end)
         return LinePos(start_line, key_line, value_line, end_line)
-- 
2.43.0


From b177bf5e6a2b4183e40e1e8c93e1868bfe690c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:35 +0000
Subject: [PATCH 103/109] fix: end line of Fluent entries at the end of a file
 and in files with CRLF

---
 python/moz/l10n/formats/fluent/parse.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index f68f72e..b7f402b 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -454,13 +454,10 @@ def literal_value(arg: ftl.NumberLiteral | ftl.StringLiteral) -> str:
 
 class LinePosMapper:
     def __init__(self, src: str) -> None:
-        self._len = len(src)
-        self._newlines = [m.start() for m in finditer("\n", src)]
+        # Treat the end of the string as a newline.
+        self._newlines = [m.start() for m in finditer(r"\r?\n|(?<=[^\n])\Z", src)]
 
     def get_line(self, char_idx: int) -> int:
-        # Treat the end of the string as a newline.
-        if not self._newlines and char_idx >= self._len:
-            return 2
         return next(
             (idx + 1 for idx, nl in enumerate(self._newlines) if nl > char_idx),
             len(self._newlines) + 1,
-- 
2.43.0


From a41e405add5357b76815c54587d9040a0370be8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:39 +0000
Subject: [PATCH 104/109] fix: value line of Fluent entries without a value

---
 python/moz/l10n/formats/fluent/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index b7f402b..9768a3f 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -196,7 +196,7 @@ def fluent_entry(
             else ftl_entry.span
         )
         k_span = ftl_entry.id.span or ftl_entry.span
-        v_span = (ftl_entry.value.span if ftl_entry.value else None) or ftl_entry.span
+        v_span = (ftl_entry.value.span if ftl_entry.value else None) or k_span
         entry.linepos = lpm.get_linepos(
             c_span.start, k_span.start, v_span.start, v_span.end
         )
-- 
2.43.0


From 6cd4302246f5e8c4f251422b37f3d24050365918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:44 +0000
Subject: [PATCH 105/109] fix: end line of a multi-line .properties value at
 the end of a file

---
 python/moz/l10n/formats/properties/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index a36dfb7..7e2e116 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -218,7 +218,9 @@ class PropertiesParser:
                         at_escape = True
             self.pos = end = start + idx + 1
             lines.append(self.source[line_start:end])
-            self.nl()
+            if not self.nl():
+                # Treat the end of the source as a newline.
+                self.line_pos += 1
             value = "".join(
                 esc_re.sub(esc_parse, line.lstrip("\f\t ")) for line in lines
             )
-- 
2.43.0


From c5f0dfa544e604ef461d4b57de1841904d33a2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:24 +0000
Subject: [PATCH 106/109] fix: take the selector of an Xcode plural from a
 numeric placeholder

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 6e65da0..2036160 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -250,6 +250,7 @@ def parse_xliff_xcstrings(
                         for el in pattern
                         if isinstance(el, Expression)
                         and isinstance(el.arg, VariableRef)
+                        and el.function in ("integer", "number")
                         and "substitution" not in el.attributes
                         and isinstance(src := el.attributes.get("source", None), str)
                         and not not_first_placeholder.match(src)
-- 
2.43.0


From 2ca7e4c72eaba83dacb17bcc978798b46ebdb705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 107/109] fix: keep all metadata of Fluent resources with info
 metadata

---
 python/moz/l10n/formats/fluent/serialize.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 79e238d..d34a313 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -111,15 +111,16 @@ def fluent_astify(
             return ""
         cs = node.comment.rstrip()
         if not isinstance(node, Comment) and node.meta:
-            if not serialize_metadata:
-                raise ValueError("Metadata requires serialize_metadata parameter")
             for field in node.meta:
                 if (
                     isinstance(node, Resource)
                     and field.key == "info"
+                    and field.value
                     and field == node.meta[0]
                 ):
                     continue
+                if not serialize_metadata:
+                    raise ValueError("Metadata requires serialize_metadata parameter")
                 meta_str = serialize_metadata(field)
                 if meta_str:
                     ms = meta_str.strip("\n")
@@ -136,9 +137,7 @@ def fluent_astify(
         and res_info.value
     ):
         body.append(ftl.Comment(res_info.value))
-        res_comment = resource.comment.rstrip()
-    else:
-        res_comment = comment_str(resource)
+    res_comment = comment_str(resource)
     if res_comment:
         body.append(ftl.ResourceComment(res_comment))
     for idx, section in enumerate(resource.sections):
-- 
2.43.0


From c2d29812a53b55fef97e8a92d2e33c8e54ba7415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:47 +0000
Subject: [PATCH 108/109] fix: keep the indent of continuation lines in Fluent
 message strings

---
 python/moz/l10n/formats/fluent/serialize.py | 33 ++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index d34a313..70db002 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -259,12 +259,39 @@ def fluent_serialize_message(
             message, escape_empty=escape_empty, escape_syntax=escape_syntax
         )
     )
+    elements = keep_indent(pattern.elements) if escape_syntax else pattern.elements
     return "".join(
         el.value if isinstance(el, ftl.TextElement) else serialize_expression(el)
-        for el in pattern.elements
+        for el in elements
     )
 
 
+def keep_indent(
+    elements: list[ftl.TextElement | ftl.Placeable],
+) -> list[ftl.TextElement | ftl.Placeable]:
+    """
+    An indent shared by all lines after the first one is dropped when parsing.
+    """
+    first: tuple[int, str, int] | None = None
+    for idx, el in enumerate(elements):
+        if isinstance(el, ftl.TextElement):
+            for m in line_start.finditer(el.value):
+                if not m[1]:
+                    return elements
+                if first is None:
+                    first = (idx, el.value, m.start(1))
+    if first is None:
+        return elements
+    idx, src, pos = first
+    return [
+        *elements[:idx],
+        ftl.TextElement(src[:pos]),
+        ftl.Placeable(string_literal("")),
+        ftl.TextElement(src[pos:]),
+        *elements[idx + 1 :],
+    ]
+
+
 def fluent_astify_message(
     message: str | Message,
     *,
@@ -447,6 +474,10 @@ def valid_empty_pattern(pattern: ftl.Pattern) -> ftl.Pattern:
 not_text = compile(r"[{}]+|\n *[*.[]|(?<=\n) +(?=\n)|[\r\v\f\x1c-\x1e\x85\u2028\u2029]+")
 
 
+# The indent of each line that is not blank.
+line_start = compile(r"\n( *)(?![ \n])")
+
+
 def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeable]:
     if not escape_syntax:
         return [ftl.TextElement(source)]
-- 
2.43.0


From 9c07e0998823b13f537493a27f1332ea2cb1cc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 109/109] fix: keep apart webext placeholders with the same
 variable name

---
 python/moz/l10n/formats/webext/parse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/webext/parse.py b/python/moz/l10n/formats/webext/parse.py
index e55729b..30842ad 100644
--- a/python/moz/l10n/formats/webext/parse.py
+++ b/python/moz/l10n/formats/webext/parse.py
@@ -33,6 +33,7 @@ from .. import Format
 
 placeholder = compile(r"\$([a-zA-Z0-9_@]+)\$|(\$[1-9])|\$(\$+)")
 pos_arg = compile(r"\$([1-9])")
+indexed_arg = compile(r"arg[1-9]")
 
 
 def webext_parse(source: str | bytes) -> Resource[Message]:
@@ -103,7 +104,9 @@ def webext_parse_message(
                 if "example" in ph:
                     decl_value.attributes["example"] = ph["example"]
                 ph_name = m[1].replace("@", "_")
-                if ph_name[0].isdigit():
+                if ph_name[0].isdigit() or indexed_arg.fullmatch(ph_name):
+                    ph_name = f"_{ph_name}"
+                while ph_name in declarations:
                     ph_name = f"_{ph_name}"
                 declarations[ph_name] = decl_value
                 ph_names[ph_key] = ph_name
-- 
2.43.0

