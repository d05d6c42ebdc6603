From 6f697eccf42e16d856fcb20193a299f2bfe25c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:17 +0000
Subject: [PATCH 01/70] fix: comment() of an element with a single empty
 comment line raised KeyError

---
 python/enolib/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/context.py b/python/enolib/context.py
index 791c7f1..4464d2d 100644
--- a/python/enolib/context.py
+++ b/python/enolib/context.py
@@ -21,7 +21,7 @@ class Context:
         if not 'computed_comment' in element:
             if 'comments' in element:
                 if len(element['comments']) == 1:
-                    element['computed_comment'] = element['comments'][0]['comment']
+                    element['computed_comment'] = element['comments'][0].get('comment')
                 else:
                     first_non_empty_line_index = None
                     shared_indent = math.inf
-- 
2.43.0


From 601ba56c67300c63c5ae1d32eacf753b7e83ce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 02/70] fix: raw() of a section copied without own elements
 raised TypeError

---
 python/enolib/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/context.py b/python/enolib/context.py
index 4464d2d..7d37c68 100644
--- a/python/enolib/context.py
+++ b/python/enolib/context.py
@@ -59,7 +59,7 @@ class Context:
 
     def elements(self, section):
         if 'mirror' in section:
-            self.elements(section['mirror'])
+            return self.elements(section['mirror'])
         else:
             if not 'computed_elements' in section:
                 section['computed_elements_map'] = {}
-- 
2.43.0


From f6964c5663fda1e564d5b928278f1885c2abec9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:21 +0000
Subject: [PATCH 03/70] fix: to_fieldset_entry() and to_list_item() raised
 AttributeError

---
 python/enolib/elements/element.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/element.py b/python/enolib/elements/element.py
index 6b4239c..0638d89 100644
--- a/python/enolib/elements/element.py
+++ b/python/enolib/elements/element.py
@@ -11,7 +11,7 @@ class Element(SectionElement):
         return f"<class Element key={self._instruction['key']}>"
 
     def to_fieldset_entry(self):
-        if not self._fieldset_entry:
+        if not hasattr(self, '_fieldset_entry'):
             if self._instruction['type'] is not InstructionType.FIELDSET_ENTRY:
                 raise Validation.unexpected_element_type(self._context, None, self._instruction, 'expected_fieldset_entry')
 
@@ -20,7 +20,7 @@ class Element(SectionElement):
         return self._fieldset_entry
 
     def to_list_item(self):
-        if not self._list_item:
+        if not hasattr(self, '_list_item'):
             if self._instruction['type'] is not InstructionType.LIST_ITEM:
                 raise Validation.unexpected_element_type(self._context, None, self._instruction, 'expected_list_item')
 
-- 
2.43.0


From dbe5f19c25f51fd80aa200b070b2098852341c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:23 +0000
Subject: [PATCH 04/70] fix: Fieldset.entry() returned None instead of a
 placeholder for a missing entry

---
 python/enolib/elements/fieldset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/fieldset.py b/python/enolib/elements/fieldset.py
index 6a644f8..ea820df 100644
--- a/python/enolib/elements/fieldset.py
+++ b/python/enolib/elements/fieldset.py
@@ -22,7 +22,7 @@ class Fieldset(ElementBase):
 
         return self._instantiated_entries_map if map else self._instantiated_entries
 
-    def _entry(self, key, *, required=False):
+    def _entry(self, key, *, required=None):
         self._touched = True
 
         if not key:
@@ -71,7 +71,7 @@ class Fieldset(ElementBase):
 
             self._instantiated_entries.extend(native_entries)
 
-    def _missingError(self, entry):
+    def _missing_error(self, entry):
         raise Validation.missing_element(self._context, entry._key, self._instruction, 'missing_fieldset_entry')
 
     def _untouched(self):
-- 
2.43.0


From 71e607242fac10b75de021bbc8f3cd98eb1a61dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 05/70] fix: Fieldset.assert_all_touched() raised TypeError for
 an untouched entry

---
 python/enolib/elements/fieldset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/elements/fieldset.py b/python/enolib/elements/fieldset.py
index ea820df..2d8b37e 100644
--- a/python/enolib/elements/fieldset.py
+++ b/python/enolib/elements/fieldset.py
@@ -97,7 +97,7 @@ class Fieldset(ElementBase):
                     if callable(message):
                         message = message(entry)
 
-                    raise Validation.unexpected_element(self._context, message, entry['instruction'])
+                    raise Validation.unexpected_element(self._context, message, entry._instruction)
 
     def entries(self, key=None):
         self._touched = True
-- 
2.43.0


From e5b5f25f9b4122b4e0277f80414f664cb43b3b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 06/70] fix: parent() of elements obtained through lookup
 raised AttributeError

---
 python/enolib/elements/empty.py          | 2 +-
 python/enolib/elements/field.py          | 2 +-
 python/enolib/elements/fieldset_entry.py | 2 +-
 python/enolib/elements/list_item.py      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/enolib/elements/empty.py b/python/enolib/elements/empty.py
index 6147dd0..4f2cf7c 100644
--- a/python/enolib/elements/empty.py
+++ b/python/enolib/elements/empty.py
@@ -7,4 +7,4 @@ class Empty(ElementBase):
         return f"<class Empty key={self._instruction['key']}>"
 
     def parent(self):
-        return self._parent or section.Section(self._context, self._instruction.parent)
+        return self._parent or section.Section(self._context, self._instruction['parent'])
diff --git a/python/enolib/elements/field.py b/python/enolib/elements/field.py
index ba44871..e740099 100644
--- a/python/enolib/elements/field.py
+++ b/python/enolib/elements/field.py
@@ -36,7 +36,7 @@ class Field(ValueElementBase):
         return self._value(loader, required=False)
 
     def parent(self):
-        return self._parent or section.Section(self._context, self._instruction.parent)
+        return self._parent or section.Section(self._context, self._instruction['parent'])
 
     def required_string_value(self):
         return self._value(required=True)
diff --git a/python/enolib/elements/fieldset_entry.py b/python/enolib/elements/fieldset_entry.py
index e383624..6ab1540 100644
--- a/python/enolib/elements/fieldset_entry.py
+++ b/python/enolib/elements/fieldset_entry.py
@@ -7,4 +7,4 @@ class FieldsetEntry(ValueElementBase):
         return f"<class FieldsetEntry key={self._instruction['key']} value={self._print_value()}>"
 
     def parent(self):
-        return self._parent or fieldset.Fieldset(self._context, self._instruction.parent)
+        return self._parent or fieldset.Fieldset(self._context, self._instruction['parent'])
diff --git a/python/enolib/elements/list_item.py b/python/enolib/elements/list_item.py
index 62584e1..d6f4d9b 100644
--- a/python/enolib/elements/list_item.py
+++ b/python/enolib/elements/list_item.py
@@ -7,4 +7,4 @@ class ListItem(ValueElementBase):
         return f"<class ListItem value={self._print_value()}>"
 
     def parent(self):
-        return self._parent or list.List(self._context, self._instruction.parent)
+        return self._parent or list.List(self._context, self._instruction['parent'])
-- 
2.43.0


From f3e4e6f9f2fda2b475d4acda5c6f6a04021ab188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:30 +0000
Subject: [PATCH 07/70] fix: Section.parent() returned None for sections and
 raised KeyError for the document

---
 python/enolib/elements/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 9f95629..45f750a 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -382,7 +382,7 @@ class Section(ElementBase):
         return self._section(key, required=False)
 
     def parent(self):
-        if self._instruction['type'] is not InstructionType.DOCUMENT:
+        if self._instruction['type'] is InstructionType.DOCUMENT:
             return None
 
         return self._parent or Section(self._context, self._instruction['parent'])
-- 
2.43.0


From d9e97a8f757d625f7a876b46b9e691fbfa7314eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 08/70] fix: all_elements_required() raised AttributeError
 before its sections and fieldsets were queried

---
 python/enolib/elements/section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 45f750a..80f9335 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -265,9 +265,9 @@ class Section(ElementBase):
         self._all_elements_required = required
 
         for element in self._elements():
-            if element._instruction['type'] is InstructionType.SECTION and element._yielded:
+            if element._instruction['type'] is InstructionType.SECTION and hasattr(element, '_yielded'):
                 element.to_section().all_elements_required(required)
-            elif element._instruction['type'] is InstructionType.FIELDSET and element._yielded:
+            elif element._instruction['type'] is InstructionType.FIELDSET and hasattr(element, '_yielded'):
                 element.to_fieldset().all_entries_required(required)
 
     def assert_all_touched(self, message=None, *, only=None, skip=None):
-- 
2.43.0


From 030a49144674a3177d9da29156686cebc15f2871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:09 +0000
Subject: [PATCH 09/70] fix: snippets for sections containing empty elements or
 copied fieldsets raised TypeError

---
 python/enolib/reporters/reporter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index b29a69a..54fa4bf 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -124,6 +124,8 @@ class Reporter:
                 return element['line'] + 1
         elif element['type'] is InstructionType.SECTION:
             return self._tag_section(element, tag)
+        elif element['type'] is not InstructionType.DOCUMENT:
+            return element['line'] + 1
 
     def _tag_section(self, section, tag, recursive=True):
         scan_line = section['line'] + 1
-- 
2.43.0


From 35d4ba6232c4d6e8ea9d54f8810ee4051b6e4b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:11 +0000
Subject: [PATCH 10/70] fix: terminal reporter raised KeyError on lines with a
 deep copy operator

---
 python/enolib/reporters/terminal_reporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/reporters/terminal_reporter.py b/python/enolib/reporters/terminal_reporter.py
index 4fb296c..8fb2c43 100644
--- a/python/enolib/reporters/terminal_reporter.py
+++ b/python/enolib/reporters/terminal_reporter.py
@@ -36,7 +36,7 @@ RANGE_STYLE = {
     'entry_operator': WHITE,
     'section_operator': WHITE,
     'copy_operator': WHITE,
-    'deepCopy_operator': WHITE,
+    'deep_copy_operator': WHITE,
     'multiline_field_operator': WHITE,
     'direct_line_continuation_operator': WHITE,
     'spaced_line_continuation_operator': WHITE,
-- 
2.43.0


From ac019c7a53eeb7ea7aa7273d8d4b743d5a092168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 11/70] fix: terminal reporter raised KeyError when reporting
 an invalid line

---
 python/enolib/reporters/terminal_reporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/reporters/terminal_reporter.py b/python/enolib/reporters/terminal_reporter.py
index 8fb2c43..262cbdb 100644
--- a/python/enolib/reporters/terminal_reporter.py
+++ b/python/enolib/reporters/terminal_reporter.py
@@ -71,7 +71,7 @@ class TerminalReporter(Reporter):
 
         content = ''
         if instruction:
-            if instruction['type'] is InstructionType.COMMENT or instruction['type'] is InstructionType.UNPARSED:
+            if instruction.get('type') in (InstructionType.COMMENT, InstructionType.UNPARSED):
                 content = BRIGHT_BLACK + self._context.input[instruction['ranges']['line'][BEGIN]:instruction['ranges']['line'][END]] + RESET
             else:
                 content = self._context.input[instruction['ranges']['line'][BEGIN]:instruction['ranges']['line'][END]]
-- 
2.43.0


From c4d3f741096c5e5e814a62904ce058366633cd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:16 +0000
Subject: [PATCH 12/70] fix: html reporter did not escape the source label

---
 python/enolib/reporters/html_reporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/reporters/html_reporter.py b/python/enolib/reporters/html_reporter.py
index e797b93..548a0fc 100644
--- a/python/enolib/reporters/html_reporter.py
+++ b/python/enolib/reporters/html_reporter.py
@@ -40,6 +40,6 @@ class HtmlReporter(Reporter):
         snippet = '\n'.join(self._line(line, tag) for line, tag in enumerate(self._snippet) if tag is not None)
 
         if self._context.source:
-            return f"<div><div>{self._context.source}</div><pre class=\"eno-report\">{columns_header}{snippet}</pre></div>"
+            return f"<div><div>{escape(self._context.source)}</div><pre class=\"eno-report\">{columns_header}{snippet}</pre></div>"
 
         return f"<pre class=\"eno-report\">{columns_header}{snippet}</pre>"
-- 
2.43.0


From 97c8e63412312360bf2d9496cf83ff5497858ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:18 +0000
Subject: [PATCH 13/70] fix: cyclic section copies through enclosing sections
 raised UnboundLocalError

---
 python/enolib/errors/parsing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/errors/parsing.py b/python/enolib/errors/parsing.py
index 1c87b9b..37ddfc7 100644
--- a/python/enolib/errors/parsing.py
+++ b/python/enolib/errors/parsing.py
@@ -13,8 +13,8 @@ class Parsing:
 
         if 'template' in feedback_chain[-1]:
             copy_instruction = feedback_chain[-1]
-        elif 'template' in feedback_chain[0]:
-            copy_instruction = feedback_chain[0]
+        else:
+            copy_instruction = next(element for element in feedback_chain if 'template' in element)
 
         reporter = context.reporter(context)
 
-- 
2.43.0


From eef588f8f2b224b2655b7fbeba94e74d3a9513f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:35 +0000
Subject: [PATCH 14/70] fix: a required accessor on a missing empty element
 reported a missing element instead

---
 python/enolib/elements/section.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index 80f9335..d8be8c3 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -215,6 +215,8 @@ class Section(ElementBase):
             raise Validation.missing_element(self._context, element._key, self._instruction, 'missing_list')
         elif isinstance(element, missing_section.MissingSection):
             raise Validation.missing_element(self._context, element._key, self._instruction, 'missing_section')
+        elif isinstance(element, missing_empty.MissingEmpty):
+            raise Validation.missing_element(self._context, element._key, self._instruction, 'missing_empty')
         else:
             raise Validation.missing_element(self._context, element._key, self._instruction, 'missing_element')
 
-- 
2.43.0


From 2aee6dd7e3c21791c3bae91a080c53f411464f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:37 +0000
Subject: [PATCH 15/70] fix: sections, elements and copies could span lines,
 which shifted all following line numbers

---
 python/enolib/grammar_regex.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/enolib/grammar_regex.py b/python/enolib/grammar_regex.py
index 7f2486f..20a4420 100644
--- a/python/enolib/grammar_regex.py
+++ b/python/enolib/grammar_regex.py
@@ -57,7 +57,7 @@ class Grammar:
     # # `key` < template
     SECTION_KEY = f"(?:{SECTION_KEY_UNESCAPED}|{SECTION_KEY_ESCAPED})"
     SECTION_TEMPLATE = rf"(?:(<(?!<)|<<)[^\S\n]*{REQUIRED})?"
-    SECTION = rf"{SECTION_OPERATOR}\s*{SECTION_KEY}[^\S\n]*{SECTION_TEMPLATE}"
+    SECTION = rf"{SECTION_OPERATOR}[^\S\n]*{SECTION_KEY}[^\S\n]*{SECTION_TEMPLATE}"
     SECTION_COPY_OPERATOR_INDEX = 17
     SECTION_TEMPLATE_INDEX = 18
 
@@ -88,11 +88,11 @@ class Grammar:
     FIELDSET_ENTRY_VALUE_INDEX = 26
 
     # < template
-    COPY = rf"(<)\s*{REQUIRED}"
+    COPY = rf"(<)[^\S\n]*{REQUIRED}"
     COPY_OPERATOR_INDEX = 27
     TEMPLATE_INDEX = 28
 
-    LATE_DETERMINED = rf"{KEY}\s*(?:{ELEMENT_OR_FIELD}|{FIELDSET_ENTRY}|{COPY})"
+    LATE_DETERMINED = rf"{KEY}[^\S\n]*(?:{ELEMENT_OR_FIELD}|{FIELDSET_ENTRY}|{COPY})"
 
     NOT_EMPTY = f"(?:{EARLY_DETERMINED}|{LATE_DETERMINED})"
 
-- 
2.43.0


From 54299121f95b5ff5ec16ffca61a5aba92a4377da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:39 +0000
Subject: [PATCH 16/70] fix: length() was not available on the placeholder for
 a missing list

---
 python/enolib/elements/missing/missing_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/enolib/elements/missing/missing_list.py b/python/enolib/elements/missing/missing_list.py
index a23d433..8ac261e 100644
--- a/python/enolib/elements/missing/missing_list.py
+++ b/python/enolib/elements/missing/missing_list.py
@@ -10,6 +10,9 @@ class MissingList(MissingElementBase):
     def items(self):
         return []
 
+    def length(self):
+        return 0
+
     def optional_string_values(self):
         return []
 
-- 
2.43.0


From b4b015f1280dcddf28a508e116596d736ad58a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 17/70] fix: queries on a copied section listed its own
 elements before the copied ones, unlike raw() and fieldsets

---
 python/enolib/elements/section.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index d8be8c3..f230e8c 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -169,11 +169,13 @@ class Section(ElementBase):
                 return instance
 
             filtered = [element for element in section['elements'] if element['key'] not in self._instantiated_elements_map]
-            self._instantiated_elements.extend(instantiate_and_index(element) for element in filtered)  # TODO: Probably needs to come AFTER 'if 'extend' in section:' below because otherwise the order is incorrect?
+            native_elements = [instantiate_and_index(element) for element in filtered]
 
             if 'extend' in section:
                 self._instantiate_elements(section['extend'])
 
+            self._instantiated_elements.extend(native_elements)
+
     def _list(self, key, *, required=None):
         self._touched = True
 
-- 
2.43.0


From 5e56b2e7d6794ad7f275ed5edfe57d67e70d188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:02 +0000
Subject: [PATCH 18/70] fix: snippet of an unterminated multiline field on the
 last line showed a line that does not exist

---
 python/enolib/analyzer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/enolib/analyzer.py b/python/enolib/analyzer.py
index 1bc611b..83e154c 100644
--- a/python/enolib/analyzer.py
+++ b/python/enolib/analyzer.py
@@ -19,6 +19,10 @@ class Analyzer:
         self._context.meta = []
 
     def _tokenize_error_context(self):
+        if self._index > len(self._context.input):
+            self._context.line_count = self._line
+            return None
+
         first_instruction = None
 
         while True:
-- 
2.43.0


From 52ac4617506d0decfde7b4ab5f9ad3459af1e473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:04 +0000
Subject: [PATCH 19/70] fix: snippets of parse errors showed the comment lines
 directly above the error as blank

---
 python/enolib/analyzer.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/python/enolib/analyzer.py b/python/enolib/analyzer.py
index 83e154c..e5d04c1 100644
--- a/python/enolib/analyzer.py
+++ b/python/enolib/analyzer.py
@@ -18,7 +18,10 @@ class Analyzer:
 
         self._context.meta = []
 
-    def _tokenize_error_context(self):
+    def _tokenize_error_context(self, comments=None):
+        if comments is not None:
+            self._context.meta.extend(comments)
+
         if self._index > len(self._context.input):
             self._context.line_count = self._line
             return None
@@ -71,7 +74,7 @@ class Analyzer:
             match = Grammar.REGEX.search(self._context.input, self._index)
 
             if not match or match.start() != self._index:
-                instruction = self._tokenize_error_context()
+                instruction = self._tokenize_error_context(comments)
                 raise Parsing.invalid_line(self._context, instruction)
 
             instruction = {
@@ -137,7 +140,7 @@ class Analyzer:
                     instruction['value'] = value
 
                 if last_non_section_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_list_for_list_item(self._context, instruction)
                 elif last_non_section_element['type'] is InstructionType.LIST:
                     last_non_section_element['items'].append(instruction)
@@ -145,7 +148,7 @@ class Analyzer:
                     last_non_section_element['items'] = [instruction]
                     last_non_section_element['type'] = InstructionType.LIST
                 else:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_list_for_list_item(self._context, instruction)
 
                 instruction['parent'] = last_non_section_element
@@ -179,7 +182,7 @@ class Analyzer:
                     instruction['value'] = value
 
                 if last_non_section_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_fieldset_for_fieldset_entry(self._context, instruction)
                 elif last_non_section_element['type'] is InstructionType.FIELDSET:
                     last_non_section_element['entries'].append(instruction)
@@ -187,7 +190,7 @@ class Analyzer:
                     last_non_section_element['entries'] = [instruction]
                     last_non_section_element['type'] = InstructionType.FIELDSET
                 else:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.missing_fieldset_for_fieldset_entry(self._context, instruction)
 
                 instruction['parent'] = last_non_section_element
@@ -196,7 +199,7 @@ class Analyzer:
             elif match.group(Grammar.SPACED_LINE_CONTINUATION_OPERATOR_INDEX) is not None:
 
                 if last_continuable_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(comments)
                     raise Parsing.missing_element_for_continuation(self._context, instruction)
 
                 instruction['spaced'] = True
@@ -224,7 +227,7 @@ class Analyzer:
             elif match.group(Grammar.DIRECT_LINE_CONTINUATION_OPERATOR_INDEX) is not None:
 
                 if last_continuable_element is None:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(comments)
                     raise Parsing.missing_element_for_continuation(self._context, instruction)
 
                 instruction['ranges']['direct_line_continuation_operator'] = match.span(Grammar.DIRECT_LINE_CONTINUATION_OPERATOR_INDEX)
@@ -272,7 +275,7 @@ class Analyzer:
 
                     instruction['parent'] = last_section['parent']
                 else:
-                    instruction = self._tokenize_error_context()
+                    instruction = self._tokenize_error_context(instruction.get('comments'))
                     raise Parsing.section_hierarchy_layer_skip(self._context, instruction, last_section)
 
                 instruction['parent']['elements'].append(instruction)
-- 
2.43.0


From 6aaac751767fb489ef2daa8d52048fee326475fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:35 +0000
Subject: [PATCH 20/70] fix: html reporter must accept source labels that are
 not strings

---
 python/enolib/reporters/html_reporter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/reporters/html_reporter.py b/python/enolib/reporters/html_reporter.py
index 548a0fc..87cb1c1 100644
--- a/python/enolib/reporters/html_reporter.py
+++ b/python/enolib/reporters/html_reporter.py
@@ -40,6 +40,6 @@ class HtmlReporter(Reporter):
         snippet = '\n'.join(self._line(line, tag) for line, tag in enumerate(self._snippet) if tag is not None)
 
         if self._context.source:
-            return f"<div><div>{escape(self._context.source)}</div><pre class=\"eno-report\">{columns_header}{snippet}</pre></div>"
+            return f"<div><div>{escape(str(self._context.source))}</div><pre class=\"eno-report\">{columns_header}{snippet}</pre></div>"
 
         return f"<pre class=\"eno-report\">{columns_header}{snippet}</pre>"
-- 
2.43.0


From 13e464d1e591b3cbaed286c4055054a4070808d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:37 +0000
Subject: [PATCH 21/70] fix: key and error accessors of the document raised
 KeyError

---
 python/enolib/elements/element_base.py | 3 +++
 python/enolib/errors/selections.py     | 3 +++
 python/enolib/reporters/reporter.py    | 6 ++++++
 3 files changed, 12 insertions(+)

diff --git a/python/enolib/elements/element_base.py b/python/enolib/elements/element_base.py
index c5d434a..98be538 100644
--- a/python/enolib/elements/element_base.py
+++ b/python/enolib/elements/element_base.py
@@ -30,6 +30,9 @@ class ElementBase:
         if self._instruction['type'] is InstructionType.LIST_ITEM:
             return self._instruction['parent']['key']
 
+        if self._instruction['type'] is InstructionType.DOCUMENT:
+            return None
+
         return self._instruction['key']
 
     def comment_error(self, message):
diff --git a/python/enolib/errors/selections.py b/python/enolib/errors/selections.py
index 099192e..c41bafd 100644
--- a/python/enolib/errors/selections.py
+++ b/python/enolib/errors/selections.py
@@ -22,6 +22,9 @@ def last_in(element):
         return element
 
 def cursor(instruction, range, position):
+    if instruction.get('type') is InstructionType.DOCUMENT:
+        return { 'column': 0, 'index': 0, 'line': 0 }
+
     index = instruction['ranges'][range][position]
 
     return {
diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index 54fa4bf..71cb825 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -160,6 +160,9 @@ class Reporter:
         return self
 
     def report_element(self, element):
+        if element['type'] is InstructionType.DOCUMENT:
+            return self
+
         self._snippet[element['line']] = EMPHASIZE
         self._tag_element(element, INDICATE)
 
@@ -173,6 +176,9 @@ class Reporter:
         return self
 
     def report_line(self, instruction):
+        if instruction.get('type') is InstructionType.DOCUMENT:
+            return self
+
         self._snippet[instruction['line']] = EMPHASIZE
 
         return self
-- 
2.43.0


From 1e4710ded873e1f41bbd4d302ffc9c1c27f1e281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 22/70] fix: comment_error() of an element without comment
 raised KeyError

---
 python/enolib/errors/selections.py  | 2 +-
 python/enolib/reporters/reporter.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/enolib/errors/selections.py b/python/enolib/errors/selections.py
index c41bafd..eae1fe6 100644
--- a/python/enolib/errors/selections.py
+++ b/python/enolib/errors/selections.py
@@ -44,7 +44,7 @@ def selection(instruction, range, position, *to):
     }
 
 def select_comments(element):
-    comments = element['comments']
+    comments = element.get('comments', [])
 
     if len(comments) == 1:
         if 'comment' in comments[0]:
diff --git a/python/enolib/reporters/reporter.py b/python/enolib/reporters/reporter.py
index 71cb825..626c861 100644
--- a/python/enolib/reporters/reporter.py
+++ b/python/enolib/reporters/reporter.py
@@ -153,6 +153,9 @@ class Reporter:
         return self
 
     def report_comments(self, element):
+        if not 'comments' in element:
+            return self.report_line(element)
+
         self._snippet[element['line']] = INDICATE
         for comment in element['comments']:
             self._snippet[comment['line']] = EMPHASIZE
-- 
2.43.0


From a88296abc31fb77d21b5a16db2f1b00432b2e2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 23/70] fix: key_error() and repr() of list items obtained
 through lookup raised KeyError

---
 python/enolib/elements/element.py  | 2 +-
 python/enolib/errors/validation.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/enolib/elements/element.py b/python/enolib/elements/element.py
index 0638d89..a61e42f 100644
--- a/python/enolib/elements/element.py
+++ b/python/enolib/elements/element.py
@@ -8,7 +8,7 @@ from .section_element import SectionElement
 class Element(SectionElement):
     # TODO: Revisit (also: missing in js implementation)
     def __repr__(self):
-        return f"<class Element key={self._instruction['key']}>"
+        return f"<class Element key={self._key()}>"
 
     def to_fieldset_entry(self):
         if not hasattr(self, '_fieldset_entry'):
diff --git a/python/enolib/errors/validation.py b/python/enolib/errors/validation.py
index 0cb62c1..b55dcb1 100644
--- a/python/enolib/errors/validation.py
+++ b/python/enolib/errors/validation.py
@@ -22,6 +22,9 @@ class Validation:
 
     @staticmethod
     def key_error(context, message, element):
+        if element['type'] is InstructionType.LIST_ITEM:
+            element = element['parent'] # list items are keyed by their list
+
         return ValidationError(
             context.messages.key_error(message),
             context.reporter(context).report_line(element).snippet(),
-- 
2.43.0


From 500338228c0b6874b3c8087a30a7d80dbf743c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:38 +0000
Subject: [PATCH 24/70] fix: touch() skipped everything that was not queried
 before, so assert_all_touched() failed after it

---
 python/enolib/elements/section_element.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/section_element.py b/python/enolib/elements/section_element.py
index f9c25e9..33e2a75 100644
--- a/python/enolib/elements/section_element.py
+++ b/python/enolib/elements/section_element.py
@@ -13,6 +13,9 @@ class SectionElement(ElementBase):
         return f"<class SectionElement key={self._instruction['key']}>"
 
     def _untouched(self):
+        if hasattr(self, '_touched_unyielded'):
+            return False
+
         if not hasattr(self, '_yielded'):
             return self._instruction
 
@@ -96,9 +99,17 @@ class SectionElement(ElementBase):
         return self._section
 
     def touch(self):
-        # TODO: Here and elsewhere: This needs to touch anyway; possibly not so small implications
         if not hasattr(self, '_yielded'):
-            return
+            if self.yields_section():
+                self.to_section()
+            elif self.yields_empty():
+                self._touched_unyielded = True # still allowed to be yielded as different types
+            elif self.yields_field():
+                self.to_field()
+            elif self.yields_fieldset():
+                self.to_fieldset()
+            else:
+                self.to_list()
 
         if hasattr(self, '_empty'):
             self._empty._touched = True
-- 
2.43.0


From 627f6c4f33b009e3be89947f4f6b53487ecf4c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:18 +0000
Subject: [PATCH 25/70] fix: lookup missed the continuations of the last item
 or entry

---
 python/enolib/lookup.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/python/enolib/lookup.py b/python/enolib/lookup.py
index 6b367eb..2366782 100644
--- a/python/enolib/lookup.py
+++ b/python/enolib/lookup.py
@@ -71,7 +71,7 @@ def check_fieldset_by_line(fieldset, line):
     if line == fieldset['line']:
         return { 'element': fieldset, 'instruction': fieldset }
 
-    if not 'entries' in fieldset or line > fieldset['entries'][-1]['line']:
+    if not 'entries' in fieldset:
         return False
 
     for entry in fieldset['entries']:
@@ -85,6 +85,8 @@ def check_fieldset_by_line(fieldset, line):
         if match_in_entry:
             return match_in_entry
 
+    return False
+
 def check_fieldset_by_index(fieldset, index):
     if index < fieldset['ranges']['line'][BEGIN]:
         return False
@@ -92,7 +94,7 @@ def check_fieldset_by_index(fieldset, index):
     if index <= fieldset['ranges']['line'][END]:
         return { 'element': fieldset, 'instruction': fieldset }
 
-    if not 'entries' in fieldset or index > fieldset['entries'][-1]['ranges']['line'][END]:
+    if not 'entries' in fieldset:
         return False
 
     for entry in fieldset['entries']:
@@ -106,6 +108,8 @@ def check_fieldset_by_index(fieldset, index):
         if match_in_entry:
             return match_in_entry
 
+    return False
+
 def check_list_by_line(list, line):
     if line < list['line']:
         return False
@@ -113,7 +117,7 @@ def check_list_by_line(list, line):
     if line == list['line']:
         return { 'element': list, 'instruction': list }
 
-    if not 'items' in list or line > list['items'][-1]['line']:
+    if not 'items' in list:
         return False
 
     for item in list['items']:
@@ -127,6 +131,8 @@ def check_list_by_line(list, line):
         if match_in_item:
             return match_in_item
 
+    return False
+
 def check_list_by_index(list, index):
     if index < list['ranges']['line'][BEGIN]:
         return False
@@ -134,7 +140,7 @@ def check_list_by_index(list, index):
     if index <= list['ranges']['line'][END]:
         return { 'element': list, 'instruction': list }
 
-    if not 'items' in list or index > list['items'][-1]['ranges']['line'][END]:
+    if not 'items' in list:
         return False
 
     for item in list['items']:
@@ -148,6 +154,8 @@ def check_list_by_index(list, index):
         if match_in_item:
             return match_in_item
 
+    return False
+
 def check_in_section_by_line(section, line):
     for element in reversed(section['elements']):
         if element['line'] > line:
-- 
2.43.0


From 7c1793cfa952454d6159d927a80cd4c9ff990314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:21 +0000
Subject: [PATCH 26/70] fix: lookup by index did not report the ranges of
 detached comments, unlike lookup by line

---
 python/enolib/lookup.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/enolib/lookup.py b/python/enolib/lookup.py
index 2366782..1b110bd 100644
--- a/python/enolib/lookup.py
+++ b/python/enolib/lookup.py
@@ -244,7 +244,10 @@ def lookup(input: str, *, column=None, index=None, line=None, **options):
     instruction = match['instruction']
 
     if not instruction:
-        instruction = next((i for i in context.meta if i['line'] == line), None)
+        if index is None:
+            instruction = next((i for i in context.meta if i['line'] == line), None)
+        else:
+            instruction = next((i for i in context.meta if i['ranges']['line'][BEGIN] <= index <= i['ranges']['line'][END]), None)
 
         if not instruction:
             return result
-- 
2.43.0


From 974d99ad601fe7d6f4a4eb4f24c14dac0ac68775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:00 +0000
Subject: [PATCH 27/70] fix: deep copies did not merge with sections that their
 template itself copies

---
 python/enolib/resolver.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index 17de161..cd49b24 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -63,7 +63,7 @@ class Resolver:
                 else:
                     merge_map[section_element['key']] = { 'section': section_element }
 
-            for section_element in template['elements']:
+            for section_element in self.effective_elements(template):
                 if section_element['key'] in merge_map:
                     merger = merge_map[section_element['key']]
 
@@ -79,6 +79,19 @@ class Resolver:
                 if merger and 'template' in merger:
                     self.consolidate_sections(merger['section'], merger['template'], True)
 
+    # Own elements of a resolved section together with those it copies
+    def effective_elements(self, section):
+        if 'mirror' in section:
+            return self.effective_elements(section['mirror'])
+
+        if not 'extend' in section:
+            return section['elements']
+
+        keys = [element['key'] for element in section['elements']]
+        copied_elements = [element for element in self.effective_elements(section['extend']) if element['key'] not in keys]
+
+        return copied_elements + section['elements']
+
     def mirror(self, element, template):
         if 'mirror' in template:
             element['mirror'] = template['mirror']
-- 
2.43.0


From eca92441033c4551003c2e8a469b0082b0dd9520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:38 +0000
Subject: [PATCH 28/70] fix: a chain of copies ending in a missing template
 raised KeyError

---
 python/enolib/resolver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index cd49b24..56a423b 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -164,6 +164,7 @@ class Resolver:
                 if not 'template' in copy:
                     raise Parsing.non_section_element_not_found(self._context, copy['targets'][0])
 
+            for copy in self._context._copy_non_section_elements.values():
                 for target in copy['targets']:
                     if 'copy' in target:
                         self.resolve_non_section_element(target)
@@ -175,6 +176,7 @@ class Resolver:
                 if not 'template' in copy:
                     raise Parsing.section_not_found(self._context, copy['targets'][0])
 
+            for copy in self._context._copy_sections.values():
                 for target in copy['targets']:
                     if 'copy' in target:
                         self.resolve_section(target)
-- 
2.43.0


From 556e0adc634447611223784fcfa493f753b19cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:40 +0000
Subject: [PATCH 29/70] fix: cyclic copies through enclosing sections blamed a
 copy that is not part of the cycle

---
 python/enolib/errors/parsing.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/enolib/errors/parsing.py b/python/enolib/errors/parsing.py
index 37ddfc7..1bc4d63 100644
--- a/python/enolib/errors/parsing.py
+++ b/python/enolib/errors/parsing.py
@@ -11,10 +11,11 @@ class Parsing:
         first_occurrence = instruction_chain.index(instruction)
         feedback_chain = instruction_chain[first_occurrence:]
 
-        if 'template' in feedback_chain[-1]:
-            copy_instruction = feedback_chain[-1]
-        else:
-            copy_instruction = next(element for element in feedback_chain if 'template' in element)
+        links = list(zip(feedback_chain, feedback_chain[1:] + feedback_chain[:1]))
+        copy_instruction = next(
+            element for element, successor in [links[-1], *links]
+            if 'copy' in element and element['copy']['template'] is successor
+        )
 
         reporter = context.reporter(context)
 
-- 
2.43.0


From 38819799376e622a2fe63136bcdac1a7c50d4d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:29 +0000
Subject: [PATCH 30/70] fix: all_elements_required() did not reach empty
 elements already queried as fieldsets

---
 python/enolib/elements/section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/elements/section.py b/python/enolib/elements/section.py
index f230e8c..6626499 100644
--- a/python/enolib/elements/section.py
+++ b/python/enolib/elements/section.py
@@ -269,9 +269,9 @@ class Section(ElementBase):
         self._all_elements_required = required
 
         for element in self._elements():
-            if element._instruction['type'] is InstructionType.SECTION and hasattr(element, '_yielded'):
+            if hasattr(element, '_section'):
                 element.to_section().all_elements_required(required)
-            elif element._instruction['type'] is InstructionType.FIELDSET and hasattr(element, '_yielded'):
+            elif hasattr(element, '_fieldset'):
                 element.to_fieldset().all_entries_required(required)
 
     def assert_all_touched(self, message=None, *, only=None, skip=None):
-- 
2.43.0


From 28077675e8a9ed7a1f9ade4132b0180c8b165310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:20 +0000
Subject: [PATCH 31/70] fix: deep copies replaced the template that a
 subsection explicitly copies

---
 python/enolib/resolver.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index 56a423b..e806e84 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -48,8 +48,6 @@ class Resolver:
         if len(section['elements']) == 0:
             self.mirror(section, template)
         else:
-            # TODO: Handle possibility in two templates (one hardcoded in the document, one implicitly derived through deep merging)
-            #       Possibly also elswhere (e.g. up there in the mirror branch?)
             section['extend'] = template
 
             if not deep_merge:
@@ -58,8 +56,10 @@ class Resolver:
             merge_map = {}
 
             for section_element in section['elements']:
-                if section_element['type'] is not InstructionType.SECTION or section_element['key'] in merge_map:
-                    merge_map[section_element['key']] = False # non-mergable (no section or multiple sections with same key)
+                if (section_element['type'] is not InstructionType.SECTION or
+                    section_element['key'] in merge_map or
+                    'template' in section_element):
+                    merge_map[section_element['key']] = False # non-mergable (no section, a section copying another one or multiple sections with same key)
                 else:
                     merge_map[section_element['key']] = { 'section': section_element }
 
-- 
2.43.0


From 9a67624c1285165e0e5df3cac48471ffcd17fb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:42 +0000
Subject: [PATCH 32/70] fix: missing element errors of all documents shared one
 mutable selection

---
 python/enolib/errors/selections.py | 5 -----
 python/enolib/errors/validation.py | 4 ++--
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/python/enolib/errors/selections.py b/python/enolib/errors/selections.py
index eae1fe6..83fd797 100644
--- a/python/enolib/errors/selections.py
+++ b/python/enolib/errors/selections.py
@@ -1,10 +1,5 @@
 from ..constants import BEGIN, END, InstructionType
 
-DOCUMENT_BEGIN = {
-    'from': { 'column': 0, 'index': 0, 'line': 0 },
-    'to': { 'column': 0, 'index': 0, 'line': 0 }
-}
-
 def last_in(element):
     if ((element['type'] == InstructionType.FIELD or
          element['type'] == InstructionType.LIST_ITEM or
diff --git a/python/enolib/errors/validation.py b/python/enolib/errors/validation.py
index b55dcb1..95f7a96 100644
--- a/python/enolib/errors/validation.py
+++ b/python/enolib/errors/validation.py
@@ -1,5 +1,5 @@
 from ..error_types import ValidationError
-from .selections import cursor, DOCUMENT_BEGIN, select_comments, select_element, select_key, selection
+from .selections import cursor, select_comments, select_element, select_key, selection
 from ..constants import BEGIN, END, InstructionType
 
 
@@ -46,7 +46,7 @@ class Validation:
         return ValidationError(
             message if key is None else message(key),
             context.reporter(context).report_missing_element(parent).snippet(),
-            DOCUMENT_BEGIN if parent['type'] is InstructionType.DOCUMENT else selection(parent, 'line', END)
+            selection(parent, 'line', END)
         )
 
     @staticmethod
-- 
2.43.0


From c6db5720602d6e2338983e70fe7df9a6e852f5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:14 +0000
Subject: [PATCH 33/70] fix: deep copies recursed endlessly when a template's
 subsection copies the very section it would be merged into

---
 python/enolib/resolver.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index e806e84..8a04500 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -70,8 +70,10 @@ class Resolver:
                     if merger is False:
                         continue
 
-                    if section_element['type'] is not InstructionType.SECTION or 'template' in merger:
-                        merge_map[section_element['key']] = False # non-mergable (no section or multiple template sections with same key)
+                    if (section_element['type'] is not InstructionType.SECTION or
+                        'template' in merger or
+                        self.copies(section_element, merger['section'])):
+                        merge_map[section_element['key']] = False # non-mergable (no section, multiple template sections with same key or a template that copies the section itself)
                     else:
                         merger['template'] = section_element
 
@@ -79,6 +81,9 @@ class Resolver:
                 if merger and 'template' in merger:
                     self.consolidate_sections(merger['section'], merger['template'], True)
 
+    def copies(self, section, template):
+        return section.get('mirror') is template or section.get('extend') is template
+
     # Own elements of a resolved section together with those it copies
     def effective_elements(self, section):
         if 'mirror' in section:
-- 
2.43.0


From cd74a86ef75eed3cd6f4d225c01fa3307919959d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:45 +0000
Subject: [PATCH 34/70] fix: a malformed line is no longer searched for in all
 lines behind it

---
 python/enolib/analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/enolib/analyzer.py b/python/enolib/analyzer.py
index e5d04c1..887b641 100644
--- a/python/enolib/analyzer.py
+++ b/python/enolib/analyzer.py
@@ -71,9 +71,9 @@ class Analyzer:
         last_section = self._context.document
 
         while self._index < len(self._context.input):
-            match = Grammar.REGEX.search(self._context.input, self._index)
+            match = Grammar.REGEX.match(self._context.input, self._index)
 
-            if not match or match.start() != self._index:
+            if not match:
                 instruction = self._tokenize_error_context(comments)
                 raise Parsing.invalid_line(self._context, instruction)
 
-- 
2.43.0


From adfedadb129ba4307db07ba79bae3889f42e9075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:05 +0000
Subject: [PATCH 35/70] fix: long runs of blanks no longer slow down parsing
 disproportionately

---
 python/enolib/errors/parsing.py |  2 +-
 python/enolib/grammar_regex.py  | 18 +++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/python/enolib/errors/parsing.py b/python/enolib/errors/parsing.py
index 1bc4d63..c98a78b 100644
--- a/python/enolib/errors/parsing.py
+++ b/python/enolib/errors/parsing.py
@@ -4,7 +4,7 @@ from ..error_types import ParseError
 from .selections import cursor, select_line, select_template
 
 class Parsing:
-    UNTERMINATED_ESCAPED_KEY = re.compile(r'^\s*#*\s*(`+)(?!`)((?:(?!\1).)+)$')
+    UNTERMINATED_ESCAPED_KEY = re.compile(r'^\s*(?:#+\s*)?(`+)(?!`)((?:(?!\1).)+)$')
 
     @staticmethod
     def cyclic_dependency(context, instruction, instruction_chain):
diff --git a/python/enolib/grammar_regex.py b/python/enolib/grammar_regex.py
index 20a4420..2c1c793 100644
--- a/python/enolib/grammar_regex.py
+++ b/python/enolib/grammar_regex.py
@@ -4,11 +4,11 @@ import re
 
 
 class Grammar:
-    OPTIONAL = r'([^\n]+?)?'
-    REQUIRED = r'(\S[^\n]*?)'
+    OPTIONAL = r'(\S(?:[^\n]*\S)?)?'
+    REQUIRED = r'(\S(?:[^\n]*\S)?)'
 
     #
-    EMPTY = '()'
+    EMPTY = r'()(?=\n|$)'
     EMPTY_LINE_INDEX = 1
 
     # TODO: Here and in other implementations possibly unify CONTINUATION REGEX into one, evaluate type of continuation operator in analyzer then
@@ -44,32 +44,32 @@ class Grammar:
     SECTION_OPERATOR_INDEX = 12
 
     # # key
-    SECTION_KEY_UNESCAPED = r'([^\s`<][^<\n]*?)'
+    SECTION_KEY_UNESCAPED = r'([^\s`<](?:[^<\n]*[^\s<])?)'
     SECTION_KEY_UNESCAPED_INDEX = 13
 
     # # `key`
     SECTION_KEY_ESCAPE_BEGIN_OPERATOR_INDEX = 14
-    SECTION_KEY_ESCAPED = rf"(`+)(?!`)[^\S\n]*(\S[^\n]*?)[^\S\n]*(\{SECTION_KEY_ESCAPE_BEGIN_OPERATOR_INDEX})" # TODO: Should this exclude the backreference inside the quotes? (as in ((?:(?!\\1).)+) ) here and elsewhere (probably not because it's not greedy.?)
+    SECTION_KEY_ESCAPED = rf"(`+)(?!`)[^\S\n]*(\S(?:[^\n]*?\S)??)[^\S\n]*(\{SECTION_KEY_ESCAPE_BEGIN_OPERATOR_INDEX})" # TODO: Should this exclude the backreference inside the quotes? (as in ((?:(?!\\1).)+) ) here and elsewhere (probably not because it's not greedy.?)
     SECTION_KEY_ESCAPED_INDEX = 15
     SECTION_KEY_ESCAPE_END_OPERATOR_INDEX = 16
 
     # # key < template
     # # `key` < template
     SECTION_KEY = f"(?:{SECTION_KEY_UNESCAPED}|{SECTION_KEY_ESCAPED})"
-    SECTION_TEMPLATE = rf"(?:(<(?!<)|<<)[^\S\n]*{REQUIRED})?"
-    SECTION = rf"{SECTION_OPERATOR}[^\S\n]*{SECTION_KEY}[^\S\n]*{SECTION_TEMPLATE}"
+    SECTION_TEMPLATE = rf"(?:[^\S\n]*(<(?!<)|<<)[^\S\n]*{REQUIRED})?"
+    SECTION = rf"{SECTION_OPERATOR}[^\S\n]*{SECTION_KEY}{SECTION_TEMPLATE}"
     SECTION_COPY_OPERATOR_INDEX = 17
     SECTION_TEMPLATE_INDEX = 18
 
     EARLY_DETERMINED = f"{CONTINUATION}|{COMMENT}|{LIST_ITEM}|{MULTILINE_FIELD}|{SECTION}"
 
     # key
-    KEY_UNESCAPED = r'([^\s>#\-`\\|:=<][^\n:=<]*?)'
+    KEY_UNESCAPED = r'([^\s>#\-`\\|:=<](?:[^\n:=<]*[^\s:=<])?)'
     KEY_UNESCAPED_INDEX = 19
 
     # `key`
     KEY_ESCAPE_BEGIN_OPERATOR_INDEX = 20
-    KEY_ESCAPED = rf"(`+)(?!`)[^\S\n]*(\S[^\n]*?)[^\S\n]*(\{KEY_ESCAPE_BEGIN_OPERATOR_INDEX})"
+    KEY_ESCAPED = rf"(`+)(?!`)[^\S\n]*(\S(?:[^\n]*?\S)??)[^\S\n]*(\{KEY_ESCAPE_BEGIN_OPERATOR_INDEX})"
     KEY_ESCAPED_INDEX = 21
     KEY_ESCAPE_END_OPERATOR_INDEX = 22
 
-- 
2.43.0


From e767b16dc02da74631e63b517ed52e0bf7f538c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:10 +0000
Subject: [PATCH 36/70] fix: deep copies searched the keys of their template
 one by one

---
 python/enolib/resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/resolver.py b/python/enolib/resolver.py
index 8a04500..eef805e 100644
--- a/python/enolib/resolver.py
+++ b/python/enolib/resolver.py
@@ -92,7 +92,7 @@ class Resolver:
         if not 'extend' in section:
             return section['elements']
 
-        keys = [element['key'] for element in section['elements']]
+        keys = {element['key'] for element in section['elements']}
         copied_elements = [element for element in self.effective_elements(section['extend']) if element['key'] not in keys]
 
         return copied_elements + section['elements']
-- 
2.43.0


From 9e862f0be61758bc6d17815cadcd4a62b1ee9928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:28 +0000
Subject: [PATCH 37/70] fix: values with many continuations were copied for
 every continuation

---
 python/enolib/context.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/enolib/context.py b/python/enolib/context.py
index 7d37c68..d15e3a3 100644
--- a/python/enolib/context.py
+++ b/python/enolib/context.py
@@ -176,20 +176,24 @@ class Context:
                     element['computed_value'] = element['value']
 
                 if 'continuations' in element:
+                    pieces = [] if element['computed_value'] is None else [element['computed_value']]
                     unapplied_spacing = None
 
                     for continuation in element['continuations']:
-                        if element['computed_value'] is None:
+                        if len(pieces) == 0:
                             if 'value' in continuation:
-                                element['computed_value'] = continuation['value']
+                                pieces.append(continuation['value'])
 
                             unapplied_spacing = None
                         elif not 'value' in continuation:
                             unapplied_spacing = unapplied_spacing or 'spaced' in continuation
                         elif 'spaced' in continuation or unapplied_spacing:
-                            element['computed_value'] += ' ' + continuation['value']
+                            pieces.append(' ' + continuation['value'])
                             unapplied_spacing = None
                         else:
-                            element['computed_value'] += continuation['value']
+                            pieces.append(continuation['value'])
+
+                    if len(pieces) > 0:
+                        element['computed_value'] = ''.join(pieces)
 
         return element['computed_value']
-- 
2.43.0


From bb59d5f9d3753d5d51638388ea51c0de243ddafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:21 +0000
Subject: [PATCH 38/70] fix: sections, elements and copies could span lines in
 javascript, which shifted all following line numbers

---
 javascript/lib/grammar_matcher.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/javascript/lib/grammar_matcher.js b/javascript/lib/grammar_matcher.js
index 437356f..2e478c2 100644
--- a/javascript/lib/grammar_matcher.js
+++ b/javascript/lib/grammar_matcher.js
@@ -52,7 +52,7 @@ exports.SECTION_KEY_ESCAPED_INDEX = 15;
 // # `key` <(<) template
 const SECTION_KEY = `(?:${SECTION_KEY_UNESCAPED}|${SECTION_KEY_ESCAPED})`;
 const SECTION_TEMPLATE = `(?:(<(?!<)|<<)[^\\S\\n]*${REQUIRED})?`;
-const SECTION = `${SECTION_OPERATOR}\\s*${SECTION_KEY}[^\\S\\n]*${SECTION_TEMPLATE}`;
+const SECTION = `${SECTION_OPERATOR}[^\\S\\n]*${SECTION_KEY}[^\\S\\n]*${SECTION_TEMPLATE}`;
 exports.SECTION_COPY_OPERATOR_INDEX = 16;
 exports.SECTION_TEMPLATE_INDEX = 17;
 
@@ -83,10 +83,10 @@ exports.FIELDSET_ENTRY_OPERATOR_INDEX = 23;
 exports.FIELDSET_ENTRY_VALUE_INDEX = 24;
 
 // < template
-const TEMPLATE = `<\\s*${REQUIRED}`;
+const TEMPLATE = `<[^\\S\\n]*${REQUIRED}`;
 exports.TEMPLATE_INDEX = 25;
 
-const LATE_DETERMINED = `${KEY}\\s*(?:${ELEMENT_OR_FIELD}|${FIELDSET_ENTRY}|${TEMPLATE})`;
+const LATE_DETERMINED = `${KEY}[^\\S\\n]*(?:${ELEMENT_OR_FIELD}|${FIELDSET_ENTRY}|${TEMPLATE})`;
 
 const NOT_EMPTY = `(?:${EARLY_DETERMINED}|${LATE_DETERMINED})`;
 
-- 
2.43.0


From 18d5194548aced8bf34c62e046d32f2109f67657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:05 +0000
Subject: [PATCH 39/70] fix: snippets of javascript parse errors showed comment
 lines above the error as blank and lines that do not exist

---
 javascript/lib/analyze.js | 54 +++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/javascript/lib/analyze.js b/javascript/lib/analyze.js
index aff9c34..9ecda7f 100644
--- a/javascript/lib/analyze.js
+++ b/javascript/lib/analyze.js
@@ -17,7 +17,11 @@ const {
   UNPARSED
 } = require('./constants.js');
 
-const tokenizeErrorContext = (context, index, line) => {
+const tokenizeErrorContext = (context, index, line, comments) => {
+  if(comments) {
+    context._meta.push(...comments);
+  }
+
   let firstInstruction = null;
 
   let endOfLineIndex;
@@ -90,7 +94,7 @@ exports.analyze = function() {
     const match = matcherRegex.exec(this._input);
 
     if(match === null) {
-      const instruction = tokenizeErrorContext(this, index, line);  // TODO: variable shadowing
+      const instruction = tokenizeErrorContext(this, index, line, comments);  // TODO: variable shadowing
       throw errors.invalidLine(this, instruction);
     } else {
       instruction = {
@@ -177,16 +181,16 @@ exports.analyze = function() {
       }
 
       if(lastNonSectionElement === null) {
-        const instruction = tokenizeErrorContext(this, index, line);  // TODO: variable shadowing etc., generally whack
-        throw errors.missingListForListItem(this, instruction);
+        const errorInstruction = tokenizeErrorContext(this, index, line, instruction.comments);  // TODO: variable shadowing etc., generally whack
+        throw errors.missingListForListItem(this, errorInstruction);
       } else if(lastNonSectionElement.type === LIST) {
         lastNonSectionElement.items.push(instruction);
       } else if(lastNonSectionElement.type === EMPTY_ELEMENT) {
         lastNonSectionElement.items = [instruction];
         lastNonSectionElement.type = LIST;
       } else {
-        const instruction = tokenizeErrorContext(this, index, line);  // TODO: variable shadowing etc., generally whack
-        throw errors.missingListForListItem(this, instruction);
+        const errorInstruction = tokenizeErrorContext(this, index, line, instruction.comments);  // TODO: variable shadowing etc., generally whack
+        throw errors.missingListForListItem(this, errorInstruction);
       }
 
       instruction.parent = lastNonSectionElement;
@@ -237,16 +241,16 @@ exports.analyze = function() {
       }
 
       if(lastNonSectionElement === null) {
-        const instruction = tokenizeErrorContext(this, index, line);  // TODO: variable shadowing etc., generally whack
-        throw errors.missingFieldsetForFieldsetEntry(this, instruction);
+        const errorInstruction = tokenizeErrorContext(this, index, line, instruction.comments);  // TODO: variable shadowing etc., generally whack
+        throw errors.missingFieldsetForFieldsetEntry(this, errorInstruction);
       } else if(lastNonSectionElement.type === FIELDSET) {
         lastNonSectionElement.entries.push(instruction);
       } else if(lastNonSectionElement.type === EMPTY_ELEMENT) {
         lastNonSectionElement.entries = [instruction];
         lastNonSectionElement.type = FIELDSET;
       } else {
-        const instruction = tokenizeErrorContext(this, index, line);  // TODO: variable shadowing etc., generally whack
-        throw errors.missingFieldsetForFieldsetEntry(this, instruction);
+        const errorInstruction = tokenizeErrorContext(this, index, line, instruction.comments);  // TODO: variable shadowing etc., generally whack
+        throw errors.missingFieldsetForFieldsetEntry(this, errorInstruction);
       }
 
       instruction.parent = lastNonSectionElement;
@@ -255,7 +259,7 @@ exports.analyze = function() {
     } else if(match[matcher.SPACED_LINE_CONTINUATION_OPERATOR_INDEX] !== undefined) {
 
       if(lastContinuableElement === null) {
-        const instruction = tokenizeErrorContext(this, index, line);  // TODO: variable shadowing etc., generally whack
+        const instruction = tokenizeErrorContext(this, index, line, comments);  // TODO: variable shadowing etc., generally whack
         throw errors.missingElementForContinuation(this, instruction);
       }
 
@@ -290,7 +294,7 @@ exports.analyze = function() {
     } else if(match[matcher.DIRECT_LINE_CONTINUATION_OPERATOR_INDEX] !== undefined) {
 
       if(lastContinuableElement === null) {
-        const instruction = tokenizeErrorContext(this, index, line);  // TODO: variable shadowing etc., generally whack
+        const instruction = tokenizeErrorContext(this, index, line, comments);  // TODO: variable shadowing etc., generally whack
         throw errors.missingElementForContinuation(this, instruction);
       }
 
@@ -344,8 +348,8 @@ exports.analyze = function() {
 
         instruction.parent = lastSection.parent;
       } else {
-        const instruction = tokenizeErrorContext(this, index, line);  // TODO: variable shadowing etc., generally whack
-        throw errors.sectionHierarchyLayerSkip(this, instruction, lastSection);
+        const errorInstruction = tokenizeErrorContext(this, index, line, instruction.comments);  // TODO: variable shadowing etc., generally whack
+        throw errors.sectionHierarchyLayerSkip(this, errorInstruction, lastSection);
       }
 
       instruction.parent.elements.push(instruction);
@@ -468,14 +472,20 @@ exports.analyze = function() {
           const endofLineIndex = this._input.indexOf('\n', index);
 
           if(endofLineIndex === -1) {
-            lastNonSectionElement.lines.push({
-              line: line,
-              ranges: {
-                line: [index, this._input.length],
-                value: [index, this._input.length]  // TODO: line range === value range, drop value range? (see how the custom terminal reporter eg. handles this for syntax coloring, then revisit)
-              },
-              type: MULTILINE_FIELD_VALUE
-            });
+            if(index <= this._input.length) {
+              lastNonSectionElement.lines.push({
+                line: line,
+                ranges: {
+                  line: [index, this._input.length],
+                  value: [index, this._input.length]  // TODO: line range === value range, drop value range? (see how the custom terminal reporter eg. handles this for syntax coloring, then revisit)
+                },
+                type: MULTILINE_FIELD_VALUE
+              });
+
+              line++;
+            }
+
+            this._lineCount = line;
 
             throw errors.unterminatedMultilineField(this, instruction);
           } else {
-- 
2.43.0


From 1f412392b72b3bdeda5296701aca73bafb820413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:35 +0000
Subject: [PATCH 40/70] fix: deep copies in javascript crashed on sections that
 their template does not have

---
 javascript/lib/resolve.js | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/javascript/lib/resolve.js b/javascript/lib/resolve.js
index d30e10a..9a7f2ed 100644
--- a/javascript/lib/resolve.js
+++ b/javascript/lib/resolve.js
@@ -85,11 +85,9 @@ const consolidateSections = (context, section, template, deepMerge) => {
     }
 
     for(const merger of Object.values(mergeMap)) {
-      if(merger === false) continue;
-      // TODO: merger.template can be undefined if a section is applicable for
-      //       merging but no matching merge template is present? (see python impl.)
-      //       Note: No spec in js impl. reported this so far, unlike in python impl.
-      consolidateSections(context, merger.section, merger.template, true);
+      if(merger !== false && merger.hasOwnProperty('template')) {
+        consolidateSections(context, merger.section, merger.template, true);
+      }
     }
   }
 };
-- 
2.43.0


From 30ea15bac0bb49b94795162ecbdbb560fd61b25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:35 +0000
Subject: [PATCH 41/70] fix: copies of copies that have no template crashed in
 javascript instead of being reported

---
 javascript/lib/resolve.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/javascript/lib/resolve.js b/javascript/lib/resolve.js
index 9a7f2ed..cb9418b 100644
--- a/javascript/lib/resolve.js
+++ b/javascript/lib/resolve.js
@@ -180,7 +180,9 @@ exports.resolve = function() {
     for(const copy of unresolvedNonSectionElements) {
       if(!copy.hasOwnProperty('template'))
         throw errors.nonSectionElementNotFound(this, copy.targets[0]);
+    }
 
+    for(const copy of unresolvedNonSectionElements) {
       for(const target of copy.targets) {
         if(!target.hasOwnProperty('copy')) continue;
 
@@ -191,7 +193,9 @@ exports.resolve = function() {
     for(const copy of unresolvedSections) {
       if(!copy.hasOwnProperty('template'))
         throw errors.sectionNotFound(this, copy.targets[0]);
+    }
 
+    for(const copy of unresolvedSections) {
       for(const target of copy.targets) {
         if(!target.hasOwnProperty('copy')) continue;
 
-- 
2.43.0


From bde461c4390aa61c0356709ca0eaa6910271a6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:35 +0000
Subject: [PATCH 42/70] fix: keys that are also names of javascript object
 members, and keys that are numbers, got mixed up in javascript

---
 javascript/lib/analyze.js           | 20 ++++++++---------
 javascript/lib/context.js           | 32 +++++++++++++--------------
 javascript/lib/elements/fieldset.js | 19 +++++++---------
 javascript/lib/elements/section.js  | 34 ++++++++++++++---------------
 javascript/lib/resolve.js           | 28 ++++++++++++------------
 5 files changed, 65 insertions(+), 68 deletions(-)

diff --git a/javascript/lib/analyze.js b/javascript/lib/analyze.js
index 9ecda7f..526dc7e 100644
--- a/javascript/lib/analyze.js
+++ b/javascript/lib/analyze.js
@@ -67,8 +67,8 @@ exports.analyze = function() {
 
   // TODO: Possibly flatten into two properties?
   this.copy = {
-    nonSectionElements: {},
-    sections: {}
+    nonSectionElements: new Map(),
+    sections: new Map()
   };
 
   this._meta = [];
@@ -401,13 +401,13 @@ exports.analyze = function() {
 
         instruction.ranges.template = [templateIndex, templateIndex + instruction.template.length];
 
-        if(this.copy.sections.hasOwnProperty(instruction.template)) {
-          this.copy.sections[instruction.template].targets.push(instruction);
+        if(this.copy.sections.has(instruction.template)) {
+          this.copy.sections.get(instruction.template).targets.push(instruction);
         } else {
-          this.copy.sections[instruction.template] = { targets: [instruction] };
+          this.copy.sections.set(instruction.template, { targets: [instruction] });
         }
 
-        instruction.copy = this.copy.sections[instruction.template];
+        instruction.copy = this.copy.sections.get(instruction.template);
       }
 
       lastContinuableElement = null;
@@ -548,13 +548,13 @@ exports.analyze = function() {
       lastContinuableElement = null;
       lastNonSectionElement = instruction;
 
-      if(this.copy.nonSectionElements.hasOwnProperty(instruction.template)) {
-        this.copy.nonSectionElements[instruction.template].targets.push(instruction);
+      if(this.copy.nonSectionElements.has(instruction.template)) {
+        this.copy.nonSectionElements.get(instruction.template).targets.push(instruction);
       } else {
-        this.copy.nonSectionElements[instruction.template] = { targets: [instruction] };
+        this.copy.nonSectionElements.set(instruction.template, { targets: [instruction] });
       }
 
-      instruction.copy = this.copy.nonSectionElements[instruction.template];
+      instruction.copy = this.copy.nonSectionElements.get(instruction.template);
 
     } else if(match[matcher.COMMENT_OPERATOR_INDEX] !== undefined) {
 
diff --git a/javascript/lib/context.js b/javascript/lib/context.js
index 403e2b5..8de4346 100644
--- a/javascript/lib/context.js
+++ b/javascript/lib/context.js
@@ -89,29 +89,29 @@ class Context {
       return this.elements(section.mirror);
     } else {
       if(!section.hasOwnProperty('computedElements')) {
-        section.computedElementsMap = {};
+        section.computedElementsMap = new Map();
         section.computedElements = section.elements;
 
         for(const element of section.computedElements) {
-          if(section.computedElementsMap.hasOwnProperty(element.key)) {
-            section.computedElementsMap[element.key].push(element);
+          if(section.computedElementsMap.has(element.key)) {
+            section.computedElementsMap.get(element.key).push(element);
           } else {
-            section.computedElementsMap[element.key] = [element];
+            section.computedElementsMap.set(element.key, [element]);
           }
         }
 
         if(section.hasOwnProperty('extend')) {
           const copiedElements = this.elements(section.extend).filter(element =>
-            !section.computedElementsMap.hasOwnProperty(element.key)
+            !section.computedElementsMap.has(element.key)
           );
 
           section.computedElements = copiedElements.concat(section.computedElements);  // TODO: .push(...xy) somehow possible too? (but careful about order, which is relevant)
 
           for(const element of copiedElements) {
-            if(section.computedElementsMap.hasOwnProperty(element.key)) {
-              section.computedElementsMap[element.key].push(element);
+            if(section.computedElementsMap.has(element.key)) {
+              section.computedElementsMap.get(element.key).push(element);
             } else {
-              section.computedElementsMap[element.key] = [element];
+              section.computedElementsMap.set(element.key, [element]);
             }
           }
         }
@@ -126,29 +126,29 @@ class Context {
       return this.entries(fieldset.mirror);
     } else {
       if(!fieldset.hasOwnProperty('computedEntries')) {
-        fieldset.computedEntriesMap = {};
+        fieldset.computedEntriesMap = new Map();
         fieldset.computedEntries = fieldset.entries;
 
         for(const entry of fieldset.computedEntries) {
-          if(fieldset.computedEntriesMap.hasOwnProperty(entry.key)) {
-            fieldset.computedEntriesMap[entry.key].push(entry);
+          if(fieldset.computedEntriesMap.has(entry.key)) {
+            fieldset.computedEntriesMap.get(entry.key).push(entry);
           } else {
-            fieldset.computedEntriesMap[entry.key] = [entry];
+            fieldset.computedEntriesMap.set(entry.key, [entry]);
           }
         }
 
         if(fieldset.hasOwnProperty('extend')) {
           const copiedEntries = this.entries(fieldset.extend).filter(entry =>
-            !fieldset.computedEntriesMap.hasOwnProperty(entry.key)
+            !fieldset.computedEntriesMap.has(entry.key)
           );
 
           fieldset.computedEntries = copiedEntries.concat(fieldset.computedEntries); // TODO: .push(...xy) somehow possible too? (but careful about order, which is relevant)
 
           for(const entry of copiedEntries) {
-            if(fieldset.computedEntriesMap.hasOwnProperty(entry.key)) {
-              fieldset.computedEntriesMap[entry.key].push(entry);
+            if(fieldset.computedEntriesMap.has(entry.key)) {
+              fieldset.computedEntriesMap.get(entry.key).push(entry);
             } else {
-              fieldset.computedEntriesMap[entry.key] = [entry];
+              fieldset.computedEntriesMap.set(entry.key, [entry]);
             }
           }
         }
diff --git a/javascript/lib/elements/fieldset.js b/javascript/lib/elements/fieldset.js
index 4637693..bd2760c 100644
--- a/javascript/lib/elements/fieldset.js
+++ b/javascript/lib/elements/fieldset.js
@@ -19,7 +19,7 @@ class Fieldset extends ElementBase {
   _entries(map = false) {
     if(!this.hasOwnProperty('_instantiatedEntries')) {
       this._instantiatedEntries = [];
-      this._instantiatedEntriesMap = {};
+      this._instantiatedEntriesMap = new Map();
       this._instantiateEntries(this._instruction);
     }
 
@@ -34,7 +34,7 @@ class Fieldset extends ElementBase {
       entries = this._entries();
     } else {
       const entriesMap = this._entries(true);
-      entries = entriesMap.hasOwnProperty(key) ? entriesMap[key] : [];
+      entries = entriesMap.get(key) || [];
     }
 
     if(entries.length === 0) {
@@ -63,14 +63,14 @@ class Fieldset extends ElementBase {
       this._instantiateEntries(fieldset.mirror);
     } else if(fieldset.hasOwnProperty('entries')) {
       const nativeEntries = fieldset.entries.filter(entry =>
-        !this._instantiatedEntriesMap.hasOwnProperty(entry.key)
+        !this._instantiatedEntriesMap.has(entry.key)
       ).map(entry => {
         const instance = new fieldset_entry_module.FieldsetEntry(this._context, entry, this);
 
-        if(this._instantiatedEntriesMap.hasOwnProperty(entry.key)) {
-          this._instantiatedEntriesMap[entry.key].push(instance);
+        if(this._instantiatedEntriesMap.has(entry.key)) {
+          this._instantiatedEntriesMap.get(entry.key).push(instance);
         } else {
-          this._instantiatedEntriesMap[entry.key] = [instance];
+          this._instantiatedEntriesMap.set(entry.key, [instance]);
         }
 
         return instance;
@@ -122,7 +122,7 @@ class Fieldset extends ElementBase {
 
     const entriesMap = this._entries(true);
 
-    for(const [key, entries] of Object.entries(entriesMap)) {
+    for(const [key, entries] of entriesMap) {
       if(options.hasOwnProperty('except') && options.except.includes(key)) continue;
       if(options.hasOwnProperty('only') && !options.only.includes(key)) continue;
 
@@ -152,10 +152,7 @@ class Fieldset extends ElementBase {
     } else {
       const entriesMap = this._entries(true);
 
-      if(!entriesMap.hasOwnProperty(key))
-        return [];
-
-      return entriesMap[key];
+      return entriesMap.get(key) || [];
     }
   }
 
diff --git a/javascript/lib/elements/section.js b/javascript/lib/elements/section.js
index e9ffed3..6bd34c9 100644
--- a/javascript/lib/elements/section.js
+++ b/javascript/lib/elements/section.js
@@ -47,7 +47,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.get(key) || [];
     }
 
     if(elements.length === 0) {
@@ -74,7 +74,7 @@ class Section extends ElementBase {
   _elements(map = false) {
     if(!this.hasOwnProperty('_instantiatedElements')) {
       this._instantiatedElements = [];
-      this._instantiatedElementsMap = {};
+      this._instantiatedElementsMap = new Map();
       this._instantiateElements(this._instruction);
     }
 
@@ -89,7 +89,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.get(key) || [];
     }
 
     if(elements.length === 0) {
@@ -126,7 +126,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.get(key) || [];
     }
 
     if(elements.length === 0) {
@@ -165,7 +165,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.get(key) || [];
     }
 
     if(elements.length === 0) {
@@ -200,14 +200,14 @@ class Section extends ElementBase {
     } else {
       this._instantiatedElements.push(
         ...section.elements.filter(element =>
-          !this._instantiatedElementsMap.hasOwnProperty(element.key)
+          !this._instantiatedElementsMap.has(element.key)
         ).map(element => {
           const instance = new section_element_module.SectionElement(this._context, element, this);
 
-          if(this._instantiatedElementsMap.hasOwnProperty(element.key)) {
-            this._instantiatedElementsMap[element.key].push(instance);
+          if(this._instantiatedElementsMap.has(element.key)) {
+            this._instantiatedElementsMap.get(element.key).push(instance);
           } else {
-            this._instantiatedElementsMap[element.key] = [instance];
+            this._instantiatedElementsMap.set(element.key, [instance]);
           }
 
           return instance;
@@ -228,7 +228,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.get(key) || [];
     }
 
     if(elements.length === 0) {
@@ -280,7 +280,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.get(key) || [];
     }
 
     if(elements.length === 0) {
@@ -356,7 +356,7 @@ class Section extends ElementBase {
 
     const elementsMap = this._elements(true);
 
-    for(const [key, elements] of Object.entries(elementsMap)) {
+    for(const [key, elements] of elementsMap) {
       if(options.hasOwnProperty('except') && options.except.includes(key)) continue;
       if(options.hasOwnProperty('only') && !options.only.includes(key)) continue;
 
@@ -392,7 +392,7 @@ class Section extends ElementBase {
       return this._elements();
     } else {
       const elementsMap = this._elements(true);
-      return elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      return elementsMap.get(key) || [];
     }
   }
 
@@ -414,7 +414,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.get(key) || [];
     }
 
     return elements.map(element => {
@@ -439,7 +439,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.get(key) || [];
     }
 
     return elements.map(element => {
@@ -462,7 +462,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.get(key) || [];
     }
 
     return elements.map(element => {
@@ -545,7 +545,7 @@ class Section extends ElementBase {
       elements = this._elements();
     } else {
       const elementsMap = this._elements(true);
-      elements = elementsMap.hasOwnProperty(key) ? elementsMap[key] : [];
+      elements = elementsMap.get(key) || [];
     }
 
     return elements.map(element => {
diff --git a/javascript/lib/resolve.js b/javascript/lib/resolve.js
index cb9418b..2bcf9a0 100644
--- a/javascript/lib/resolve.js
+++ b/javascript/lib/resolve.js
@@ -60,31 +60,31 @@ const consolidateSections = (context, section, template, deepMerge) => {
 
     if(!deepMerge) return;
 
-    const mergeMap = {};
+    const mergeMap = new Map();
 
     for(const elementInstruction of section.elements) {
-      if(elementInstruction.type !== SECTION || mergeMap.hasOwnProperty(elementInstruction.key)) {
-        mergeMap[elementInstruction.key] = false; // non-mergable (no section or multiple sections with same key)
+      if(elementInstruction.type !== SECTION || mergeMap.has(elementInstruction.key)) {
+        mergeMap.set(elementInstruction.key, false); // non-mergable (no section or multiple sections with same key)
       } else {
-        mergeMap[elementInstruction.key] = { section: elementInstruction };
+        mergeMap.set(elementInstruction.key, { section: elementInstruction });
       }
     }
 
     for(const elementInstruction of template.elements) {
-      if(mergeMap.hasOwnProperty(elementInstruction.key)) {
-        const merger = mergeMap[elementInstruction.key];
+      if(mergeMap.has(elementInstruction.key)) {
+        const merger = mergeMap.get(elementInstruction.key);
 
         if(merger === false) continue;
 
         if(elementInstruction.type !== SECTION || merger.hasOwnProperty('template')) {
-          mergeMap[elementInstruction.key] = false; // non-mergable (no section or multiple template sections with same key)
+          mergeMap.set(elementInstruction.key, false); // non-mergable (no section or multiple template sections with same key)
         } else {
           merger.template = elementInstruction;
         }
       }
     }
 
-    for(const merger of Object.values(mergeMap)) {
+    for(const merger of mergeMap.values()) {
       if(merger !== false && merger.hasOwnProperty('template')) {
         consolidateSections(context, merger.section, merger.template, true);
       }
@@ -148,9 +148,9 @@ const index = (context, section, indexNonSectionElements, indexSections) => {
       index(context, elementInstruction, indexNonSectionElements, indexSections);
 
       if(indexSections &&
-         context.copy.sections.hasOwnProperty(elementInstruction.key) &&
+         context.copy.sections.has(elementInstruction.key) &&
          elementInstruction.key !== elementInstruction.template) {
-        const copyData = context.copy.sections[elementInstruction.key];
+        const copyData = context.copy.sections.get(elementInstruction.key);
 
         if(copyData.hasOwnProperty('template'))
           throw errors.twoOrMoreTemplatesFound(context, copyData.targets[0], copyData.template, elementInstruction);
@@ -158,9 +158,9 @@ const index = (context, section, indexNonSectionElements, indexSections) => {
         copyData.template = elementInstruction;
       }
     } else if(indexNonSectionElements &&
-              context.copy.nonSectionElements.hasOwnProperty(elementInstruction.key) &&
+              context.copy.nonSectionElements.has(elementInstruction.key) &&
               elementInstruction.key !== elementInstruction.template) {
-      const copyData = context.copy.nonSectionElements[elementInstruction.key];
+      const copyData = context.copy.nonSectionElements.get(elementInstruction.key);
 
       if(copyData.hasOwnProperty('template'))
         throw errors.twoOrMoreTemplatesFound(context, copyData.targets[0], copyData.template, elementInstruction);
@@ -171,8 +171,8 @@ const index = (context, section, indexNonSectionElements, indexSections) => {
 }
 
 exports.resolve = function() {
-  const unresolvedNonSectionElements = Object.values(this.copy.nonSectionElements);
-  const unresolvedSections = Object.values(this.copy.sections);
+  const unresolvedNonSectionElements = [...this.copy.nonSectionElements.values()];
+  const unresolvedSections = [...this.copy.sections.values()];
 
   if(unresolvedNonSectionElements.length > 0 || unresolvedSections.length > 0) {
     index(this, this._document, unresolvedNonSectionElements.length > 0, unresolvedSections.length > 0);
-- 
2.43.0


From cb5d1065117bff4664502b635e18b995e8d3dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:41 +0000
Subject: [PATCH 43/70] fix: deep copies in javascript replaced the template of
 sections that explicitly copy another section

---
 javascript/lib/resolve.js | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/javascript/lib/resolve.js b/javascript/lib/resolve.js
index 2bcf9a0..c2bd5fb 100644
--- a/javascript/lib/resolve.js
+++ b/javascript/lib/resolve.js
@@ -54,8 +54,6 @@ const consolidateSections = (context, section, template, deepMerge) => {
   if(section.elements.length === 0) {
     mirror(section, template);
   } else {
-    // TODO: Handle possibility of two templates (one hardcoded in the document, one implicitly derived through deep merging)
-    //       Possibly also elswhere (e.g. up there in the mirror branch?)
     section.extend = template;
 
     if(!deepMerge) return;
@@ -63,8 +61,10 @@ const consolidateSections = (context, section, template, deepMerge) => {
     const mergeMap = new Map();
 
     for(const elementInstruction of section.elements) {
-      if(elementInstruction.type !== SECTION || mergeMap.has(elementInstruction.key)) {
-        mergeMap.set(elementInstruction.key, false); // non-mergable (no section or multiple sections with same key)
+      if(elementInstruction.type !== SECTION ||
+         mergeMap.has(elementInstruction.key) ||
+         elementInstruction.hasOwnProperty('template')) {
+        mergeMap.set(elementInstruction.key, false); // non-mergable (no section, a section copying another one or multiple sections with same key)
       } else {
         mergeMap.set(elementInstruction.key, { section: elementInstruction });
       }
-- 
2.43.0


From b4dd015bb5894144c27cf8aef8f9473ffb550a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:41 +0000
Subject: [PATCH 44/70] fix: deep copies in javascript did not merge into
 elements which the template itself copied

---
 javascript/lib/resolve.js | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/javascript/lib/resolve.js b/javascript/lib/resolve.js
index c2bd5fb..7e02d58 100644
--- a/javascript/lib/resolve.js
+++ b/javascript/lib/resolve.js
@@ -70,14 +70,16 @@ const consolidateSections = (context, section, template, deepMerge) => {
       }
     }
 
-    for(const elementInstruction of template.elements) {
+    for(const elementInstruction of effectiveElements(template)) {
       if(mergeMap.has(elementInstruction.key)) {
         const merger = mergeMap.get(elementInstruction.key);
 
         if(merger === false) continue;
 
-        if(elementInstruction.type !== SECTION || merger.hasOwnProperty('template')) {
-          mergeMap.set(elementInstruction.key, false); // non-mergable (no section or multiple template sections with same key)
+        if(elementInstruction.type !== SECTION ||
+           merger.hasOwnProperty('template') ||
+           copies(elementInstruction, merger.section)) {
+          mergeMap.set(elementInstruction.key, false); // non-mergable (no section, multiple template sections with same key or a template that copies the section itself)
         } else {
           merger.template = elementInstruction;
         }
@@ -92,6 +94,20 @@ const consolidateSections = (context, section, template, deepMerge) => {
   }
 };
 
+const copies = (section, template) => section.mirror === template || section.extend === template;
+
+// Own elements of a resolved section together with those it copies
+const effectiveElements = section => {
+  if(section.hasOwnProperty('mirror')) return effectiveElements(section.mirror);
+
+  if(!section.hasOwnProperty('extend')) return section.elements;
+
+  const keys = new Set(section.elements.map(element => element.key));
+  const copiedElements = effectiveElements(section.extend).filter(element => !keys.has(element.key));
+
+  return copiedElements.concat(section.elements);
+};
+
 const mirror = (element, template) => {
   if(template.hasOwnProperty('mirror')) {
     element.mirror = template.mirror;
-- 
2.43.0


From 9ceca812a4949fc3f00c934e508d6504e207332a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:41 +0000
Subject: [PATCH 45/70] fix: cyclic dependency errors in javascript crashed or
 blamed an element that is not part of the cycle

---
 javascript/lib/errors/parsing.js | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/javascript/lib/errors/parsing.js b/javascript/lib/errors/parsing.js
index 444b3aa..e0575b0 100644
--- a/javascript/lib/errors/parsing.js
+++ b/javascript/lib/errors/parsing.js
@@ -20,15 +20,11 @@ exports.errors = {
     const firstOccurrence = instructionChain.indexOf(instruction);
     const feedbackChain = instructionChain.slice(firstOccurrence);
 
-    const firstInstruction = feedbackChain[0];
-    const lastInstruction = feedbackChain[feedbackChain.length - 1];
-
-    let copyInstruction;
-    if(lastInstruction.hasOwnProperty('template')) {
-      copyInstruction = lastInstruction;
-    } else if(firstInstruction.hasOwnProperty('template')) {
-      copyInstruction = firstInstruction;
-    }
+    const lastIndex = feedbackChain.length - 1;
+    const isCopyOfNext = (element, index) =>
+      element.hasOwnProperty('copy') && element.copy.template === feedbackChain[index === lastIndex ? 0 : index + 1];
+
+    const copyInstruction = isCopyOfNext(feedbackChain[lastIndex], lastIndex) ? feedbackChain[lastIndex] : feedbackChain.find(isCopyOfNext);
 
     const reporter = new context.reporter(context);
 
-- 
2.43.0


From eabc3aa68a52cbd3d1265464a897cca5654ba8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:41 +0000
Subject: [PATCH 46/70] fix: unterminated escaped keys in javascript were not
 recognized with unusual line separators

---
 javascript/lib/errors/parsing.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascript/lib/errors/parsing.js b/javascript/lib/errors/parsing.js
index e0575b0..bd165ff 100644
--- a/javascript/lib/errors/parsing.js
+++ b/javascript/lib/errors/parsing.js
@@ -3,7 +3,7 @@ const { cursor, selectLine, selectTemplate } = require('./selections.js');
 const { ParseError } = require('../error_types.js');
 
 // ```key: value
-const UNTERMINATED_ESCAPED_KEY = /^\s*#*\s*(`+)(?!`)((?:(?!\1).)+)$/;
+const UNTERMINATED_ESCAPED_KEY = /^\s*(?:#+\s*)?(`+)(?!`)((?:(?!\1)[^\n])+)$/;
 const unterminatedEscapedKey = (context, instruction, unterminated) => {
   const line = context._input.substring(instruction.ranges.line[BEGIN], instruction.ranges.line[END]);
   const selectionColumn = line.lastIndexOf(unterminated);
-- 
2.43.0


From 648cd2c9e2a1b9fe147ab44563e49b7b4df44afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:41 +0000
Subject: [PATCH 47/70] fix: elements could not be converted to fieldset
 entries in javascript

---
 javascript/lib/elements/element.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascript/lib/elements/element.js b/javascript/lib/elements/element.js
index 786bd64..8a9c267 100644
--- a/javascript/lib/elements/element.js
+++ b/javascript/lib/elements/element.js
@@ -13,7 +13,7 @@ class Element extends SectionElement {
       if(this._instruction.type !== FIELDSET_ENTRY)
         throw errors.unexpectedElementType(this._context, null, this._instruction, 'expectedFieldsetEntry');
 
-      this._fieldsetEntry = new fieldset_entry_module.Fieldset(this._context, this._instruction); // TODO: parent missing? or: what if casting Element to Field (inherited from SectionElement) but does not have parent because originating from lookup? investigate
+      this._fieldsetEntry = new fieldset_entry_module.FieldsetEntry(this._context, this._instruction); // TODO: parent missing? or: what if casting Element to Field (inherited from SectionElement) but does not have parent because originating from lookup? investigate
     }
 
     return this._fieldsetEntry;
-- 
2.43.0


From 3a36dd12a0cf1788353a51aef3b4846c843526c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:41 +0000
Subject: [PATCH 48/70] fix: sections in javascript listed the elements they
 copy after their own ones

---
 javascript/lib/elements/section.js | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/javascript/lib/elements/section.js b/javascript/lib/elements/section.js
index 6bd34c9..43674ec 100644
--- a/javascript/lib/elements/section.js
+++ b/javascript/lib/elements/section.js
@@ -198,25 +198,27 @@ class Section extends ElementBase {
     if(section.hasOwnProperty('mirror')) {
       this._instantiateElements(section.mirror);
     } else {
-      this._instantiatedElements.push(
-        ...section.elements.filter(element =>
-          !this._instantiatedElementsMap.has(element.key)
-        ).map(element => {
-          const instance = new section_element_module.SectionElement(this._context, element, this);
-
-          if(this._instantiatedElementsMap.has(element.key)) {
-            this._instantiatedElementsMap.get(element.key).push(instance);
-          } else {
-            this._instantiatedElementsMap.set(element.key, [instance]);
-          }
+      const nativeElements = section.elements.filter(element =>
+        !this._instantiatedElementsMap.has(element.key)
+      ).map(element => {
+        const instance = new section_element_module.SectionElement(this._context, element, this);
+
+        if(this._instantiatedElementsMap.has(element.key)) {
+          this._instantiatedElementsMap.get(element.key).push(instance);
+        } else {
+          this._instantiatedElementsMap.set(element.key, [instance]);
+        }
 
-          return instance;
-        })
-      );
+        return instance;
+      });
 
       if(section.hasOwnProperty('extend')) {
         this._instantiateElements(section.extend);
       }
+
+      for(const instance of nativeElements) {
+        this._instantiatedElements.push(instance);
+      }
     }
   }
 
-- 
2.43.0


From db9f5dc8567f226080800d41190437c5aab16167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:32 +0000
Subject: [PATCH 49/70] fix: errors crashed in javascript when the document
 contains copies of elements

---
 javascript/lib/resolve.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/javascript/lib/resolve.js b/javascript/lib/resolve.js
index 7e02d58..a3b6803 100644
--- a/javascript/lib/resolve.js
+++ b/javascript/lib/resolve.js
@@ -16,15 +16,19 @@ const consolidateNonSectionElements = (context, element, template) => {
   if(element.type === EMPTY_ELEMENT) {
     if(template.type === MULTILINE_FIELD_BEGIN) {
       element.type = FIELD;  // TODO: Revisit this - maybe should be MULTILINE_FIELD_COPY or something else - consider implications all around.
+      element.continuations = [];
       mirror(element, template);
     } else if(template.type === FIELD) {
       element.type = FIELD;
+      element.continuations = [];
       mirror(element, template);
     } else if(template.type === FIELDSET) {
       element.type = FIELDSET;
+      element.entries = [];
       mirror(element, template);
     } else if(template.type === LIST) {
       element.type = LIST;
+      element.items = [];
       mirror(element, template);
     }
   } else if(element.type === FIELDSET) {
-- 
2.43.0


From 5df9e41eb71bdd6c655857ce64477c1a7000d050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:32 +0000
Subject: [PATCH 50/70] fix: snippets in javascript did not mark lines after
 empty elements and fieldsets without own entries

---
 javascript/lib/reporters/reporter.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/javascript/lib/reporters/reporter.js b/javascript/lib/reporters/reporter.js
index e241794..2c34edc 100644
--- a/javascript/lib/reporters/reporter.js
+++ b/javascript/lib/reporters/reporter.js
@@ -148,6 +148,8 @@ class Reporter {
       }
     } else if(element.type === SECTION) {
       return this._tagSection(element, tag);
+    } else if(element.type !== DOCUMENT) {
+      return element.line + 1;
     }
   }
 
-- 
2.43.0


From e93a89134d05b671d13fe0acfbc03f6633a1ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:32 +0000
Subject: [PATCH 51/70] fix: value errors of fields without an operator value
 crashed in javascript

---
 javascript/lib/errors/validation.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascript/lib/errors/validation.js b/javascript/lib/errors/validation.js
index affcc32..bf32193 100644
--- a/javascript/lib/errors/validation.js
+++ b/javascript/lib/errors/validation.js
@@ -146,7 +146,7 @@ exports.errors = {
         select.from = cursor(element, 'line', END);
       }
 
-      if(element.continuations.length > 0) {
+      if(element.hasOwnProperty('continuations') && element.continuations.length > 0) {
         select.to = cursor(element.continuations[element.continuations.length - 1], 'line', END);
       } else if(element.ranges.hasOwnProperty('value')) {
         select.to = cursor(element, 'value', END);
-- 
2.43.0


From f732d39b56c782406c0662c679fe1ceae5257325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:32 +0000
Subject: [PATCH 52/70] fix: comment errors crashed in javascript for elements
 without a comment or with a single empty comment line

---
 javascript/lib/errors/selections.js  | 4 ++--
 javascript/lib/reporters/reporter.js | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/javascript/lib/errors/selections.js b/javascript/lib/errors/selections.js
index 8efc04e..cc8b777 100644
--- a/javascript/lib/errors/selections.js
+++ b/javascript/lib/errors/selections.js
@@ -50,10 +50,10 @@ const selection = (instruction, range, position, ...to) => {
 };
 
 const selectComments = element => {
-  const { comments } = element;
+  const { comments = [] } = element;
 
   if(comments.length === 1) {
-    if(comments[0].hasOwnProperty('comment')) {
+    if(comments[0].comment !== null) {
       return selection(comments[0], 'comment', BEGIN, END);
     } else {
       return selection(comments[0], 'line', BEGIN, END);
diff --git a/javascript/lib/reporters/reporter.js b/javascript/lib/reporters/reporter.js
index 2c34edc..23603e6 100644
--- a/javascript/lib/reporters/reporter.js
+++ b/javascript/lib/reporters/reporter.js
@@ -183,6 +183,9 @@ class Reporter {
   }
 
   reportComments(element) {
+    if(!element.hasOwnProperty('comments'))
+      return this.reportLine(element);
+
     this._snippet[element.line] = INDICATE;
     for(const comment of element.comments) {
       this._snippet[comment.line] = EMPHASIZE;
-- 
2.43.0


From 40e7ff831813f87e8af2f6cb02f924d5d0d796ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:32 +0000
Subject: [PATCH 53/70] fix: key errors of list items crashed in javascript

---
 javascript/lib/errors/validation.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/javascript/lib/errors/validation.js b/javascript/lib/errors/validation.js
index bf32193..df7be32 100644
--- a/javascript/lib/errors/validation.js
+++ b/javascript/lib/errors/validation.js
@@ -31,6 +31,10 @@ exports.errors = {
   },
 
   keyError: (context, message, element) => {
+    if(element.type === LIST_ITEM) {
+      element = element.parent; // list items are keyed by their list
+    }
+
     return new ValidationError(
       context.messages.keyError(message),
       new context.reporter(context).reportLine(element).snippet(),
-- 
2.43.0


From 0d5e73b908bcd8f6b2bf531a18da7a8f23630614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:32 +0000
Subject: [PATCH 54/70] fix: errors reported on the document itself crashed in
 javascript, and shared one mutable selection

---
 javascript/lib/errors/selections.js  | 9 ++++-----
 javascript/lib/errors/validation.js  | 5 ++---
 javascript/lib/reporters/reporter.js | 6 ++++++
 3 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/javascript/lib/errors/selections.js b/javascript/lib/errors/selections.js
index cc8b777..4c7d085 100644
--- a/javascript/lib/errors/selections.js
+++ b/javascript/lib/errors/selections.js
@@ -1,5 +1,6 @@
 const {
   BEGIN,
+  DOCUMENT,
   END,
   FIELD,
   FIELDSET,
@@ -29,6 +30,9 @@ const lastIn = element => {
 }
 
 const cursor = (instruction, range, position) => {
+  if(instruction.type === DOCUMENT)
+    return { column: 0, index: 0, line: 0 };
+
   const index = instruction.ranges[range][position];
 
   return {
@@ -65,11 +69,6 @@ const selectComments = element => {
   }
 };
 
-exports.DOCUMENT_BEGIN = {
-  from: { column: 0, index: 0, line: 0 },
-  to: { column: 0, index: 0, line: 0 }
-};
-
 exports.cursor = cursor;
 exports.selection = selection;
 exports.selectComments = selectComments;
diff --git a/javascript/lib/errors/validation.js b/javascript/lib/errors/validation.js
index df7be32..4c0de71 100644
--- a/javascript/lib/errors/validation.js
+++ b/javascript/lib/errors/validation.js
@@ -1,9 +1,8 @@
 const { ValidationError } = require('../error_types.js');
-const { cursor, DOCUMENT_BEGIN, selection, selectComments, selectElement, selectKey } = require('./selections.js');
+const { cursor, selection, selectComments, selectElement, selectKey } = require('./selections.js');
 const {
   BEGIN,
   END,
-  DOCUMENT,
   EMPTY_ELEMENT,
   FIELD,
   FIELDSET_ENTRY,
@@ -54,7 +53,7 @@ exports.errors = {
     return new ValidationError(
       key === null ? context.messages[message] : context.messages[message + 'WithKey'](key),
       new context.reporter(context).reportMissingElement(parent).snippet(),
-      parent.type === DOCUMENT ? DOCUMENT_BEGIN : selection(parent, 'line', END)
+      selection(parent, 'line', END)
     );
   },
 
diff --git a/javascript/lib/reporters/reporter.js b/javascript/lib/reporters/reporter.js
index 23603e6..09f01e5 100644
--- a/javascript/lib/reporters/reporter.js
+++ b/javascript/lib/reporters/reporter.js
@@ -195,6 +195,9 @@ class Reporter {
   }
 
   reportElement(element) {
+    if(element.type === DOCUMENT)
+      return this;
+
     this._snippet[element.line] = EMPHASIZE;
     this._tagElement(element, INDICATE);
 
@@ -211,6 +214,9 @@ class Reporter {
   }
 
   reportLine(instruction) {
+    if(instruction.type === DOCUMENT)
+      return this;
+
     this._snippet[instruction.line] = EMPHASIZE;
 
     return this;
-- 
2.43.0


From 0010113aa2629895eea0d96ea7a4dab5d93250a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:47 +0000
Subject: [PATCH 55/70] fix: lookups in javascript crashed in and after copied
 lists and fieldsets and inside of continuations and missed comments

---
 javascript/lib/lookup.js | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/javascript/lib/lookup.js b/javascript/lib/lookup.js
index 915208c..2ffe0ef 100644
--- a/javascript/lib/lookup.js
+++ b/javascript/lib/lookup.js
@@ -86,11 +86,6 @@ const checkFieldsetByLine = (fieldset, line) => {
   if(line === fieldset.line)
     return { element: fieldset, instruction: fieldset };
 
-  if(!fieldset.hasOwnProperty('entries') ||
-     fieldset.entries.length === 0 ||
-     line > fieldset.entries[fieldset.entries.length - 1].line)
-    return false;
-
   for(const entry of fieldset.entries) {
     if(line === entry.line)
       return { element: entry, instruction: entry };
@@ -102,6 +97,8 @@ const checkFieldsetByLine = (fieldset, line) => {
     if(matchInEntry)
       return matchInEntry;
   }
+
+  return false;
 };
 
 const checkFieldsetByIndex = (fieldset, index) => {
@@ -111,11 +108,6 @@ const checkFieldsetByIndex = (fieldset, index) => {
   if(index <= fieldset.ranges.line[END])
     return { element: fieldset, instruction: fieldset };
 
-  if(!fieldset.hasOwnProperty('entries') ||
-     fieldset.entries.length === 0 ||
-     index > fieldset.entries[fieldset.entries.length - 1].ranges.line[END])
-    return false;
-
   for(const entry of fieldset.entries) {
     if(index < entry.ranges.line[BEGIN])
       return { element: fieldset, instruction: null };
@@ -127,6 +119,8 @@ const checkFieldsetByIndex = (fieldset, index) => {
     if(matchInEntry)
       return matchInEntry;
   }
+
+  return false;
 };
 
 const checkListByLine = (list, line) => {
@@ -136,10 +130,6 @@ const checkListByLine = (list, line) => {
   if(line === list.line)
     return { element: list, instruction: list };
 
-  if(!list.hasOwnProperty('items') ||
-     line > list.items[list.items.length - 1].line)
-    return false;
-
   for(const item of list.items) {
     if(line === item.line)
       return { element: item, instruction: item };
@@ -151,6 +141,8 @@ const checkListByLine = (list, line) => {
     if(matchInItem)
       return matchInItem;
   }
+
+  return false;
 };
 
 const checkListByIndex = (list, index) => {
@@ -160,10 +152,6 @@ const checkListByIndex = (list, index) => {
   if(index <= list.ranges.line[END])
     return { element: list, instruction: list };
 
-  if(!list.hasOwnProperty('items') ||
-     index > list.items[list.items.length - 1].ranges.line[END])
-    return false;
-
   for(const item of list.items) {
     if(index < item.ranges.line[BEGIN])
       return { element: list, instruction: null };
@@ -175,6 +163,8 @@ const checkListByIndex = (list, index) => {
     if(matchInItem)
       return matchInItem;
   }
+
+  return false;
 };
 
 const checkInSectionByLine = (section, line) => {
@@ -284,7 +274,11 @@ exports.lookup = (position, input, options = {}) => {
   let instruction = match.instruction;
 
   if(!instruction) {
-    instruction = context._meta.find(instruction => instruction.line === line);
+    if(index === undefined) {
+      instruction = context._meta.find(instruction => instruction.line === line);
+    } else {
+      instruction = context._meta.find(({ ranges }) => ranges.line[BEGIN] <= index && index <= ranges.line[END]);
+    }
 
     if(!instruction)
       return result;
-- 
2.43.0


From 521d01bee37e0aa59bc0ab7257458a2ddad43e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:41 +0000
Subject: [PATCH 56/70] fix: missing lists in javascript had no length

---
 javascript/lib/elements/missing/missing_list.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/javascript/lib/elements/missing/missing_list.js b/javascript/lib/elements/missing/missing_list.js
index 43e587f..a210a9b 100644
--- a/javascript/lib/elements/missing/missing_list.js
+++ b/javascript/lib/elements/missing/missing_list.js
@@ -9,6 +9,10 @@ class MissingList extends MissingElementBase {
     return [];
   }
 
+  length() {
+    return 0;
+  }
+
   optionalStringValues() {
     return [];
   }
-- 
2.43.0


From 96d1c1b638e73c0e01c91de6c8d042f10a1cc1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:41 +0000
Subject: [PATCH 57/70] fix: missing empties were reported as missing elements
 in javascript

---
 javascript/lib/elements/section.js | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/javascript/lib/elements/section.js b/javascript/lib/elements/section.js
index 43674ec..2030dbe 100644
--- a/javascript/lib/elements/section.js
+++ b/javascript/lib/elements/section.js
@@ -263,6 +263,8 @@ class Section extends ElementBase {
   _missingError(element) {
     if(element instanceof missing_field_module.MissingField) {
       throw errors.missingElement(this._context, element._key, this._instruction, 'missingField');
+    } else if(element instanceof missing_empty_module.MissingEmpty) {
+      throw errors.missingElement(this._context, element._key, this._instruction, 'missingEmpty');
     } else if(element instanceof missing_fieldset_module.MissingFieldset) {
       throw errors.missingElement(this._context, element._key, this._instruction, 'missingFieldset');
     } else if(element instanceof missing_list_module.MissingList) {
-- 
2.43.0


From 956b0dbf23df310d95233c2012554fa99cfbd399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:41 +0000
Subject: [PATCH 58/70] fix: touching elements in javascript had no effect
 unless they had been queried before

---
 javascript/lib/elements/section_element.js | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/javascript/lib/elements/section_element.js b/javascript/lib/elements/section_element.js
index ac2c2b1..1a17c60 100644
--- a/javascript/lib/elements/section_element.js
+++ b/javascript/lib/elements/section_element.js
@@ -19,6 +19,9 @@ const {
 
 class SectionElement extends ElementBase {
   _untouched() {
+    if(this._touchedUnyielded)
+      return false;
+
     if(!this._yielded)
       return this._instruction;
 
@@ -104,8 +107,19 @@ class SectionElement extends ElementBase {
   }
 
   touch() {
-    if(!this._yielded)  // TODO: Here we accutely would need the "marked touched below" with later repropagation mechanism
-      return;
+    if(!this._yielded) {
+      if(this.yieldsSection()) {
+        this.toSection();
+      } else if(this.yieldsEmpty()) {
+        this._touchedUnyielded = true; // still allowed to be yielded as different types
+      } else if(this.yieldsField()) {
+        this.toField();
+      } else if(this.yieldsFieldset()) {
+        this.toFieldset();
+      } else {
+        this.toList();
+      }
+    }
 
     if(this._empty) { this._empty._touched = true; }
     if(this._field) { this._field._touched = true; }
-- 
2.43.0


From f1b1f0a349745ab4d58df41ea83e07fd3385afa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:41 +0000
Subject: [PATCH 59/70] fix: allElementsRequired in javascript did not apply to
 empty elements queried as fieldsets

---
 javascript/lib/elements/section.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/javascript/lib/elements/section.js b/javascript/lib/elements/section.js
index 2030dbe..86b20de 100644
--- a/javascript/lib/elements/section.js
+++ b/javascript/lib/elements/section.js
@@ -330,9 +330,9 @@ class Section extends ElementBase {
     this._allElementsRequired = required;
 
     for(const element of this._elements()) {
-      if(element._instruction.type === SECTION && element._yielded) {
+      if(element._yielded === SECTION) {
         element.toSection().allElementsRequired(required);
-      } else if(element._instruction.type === FIELDSET && element._yielded) {
+      } else if(element._yielded === FIELDSET) {
         element.toFieldset().allEntriesRequired(required);
       }
     }
-- 
2.43.0


From 972e0c15beff8e6e62e4d4e414b0643e0a568664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:31 +0000
Subject: [PATCH 60/70] fix: source labels were not escaped in html snippets in
 javascript

---
 javascript/lib/reporters/html_reporter.js | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/javascript/lib/reporters/html_reporter.js b/javascript/lib/reporters/html_reporter.js
index 3bb1a44..5f6a817 100644
--- a/javascript/lib/reporters/html_reporter.js
+++ b/javascript/lib/reporters/html_reporter.js
@@ -20,6 +20,7 @@ const HTML_ESCAPE = {
 };
 
 const escape = string => string.replace(/[&<>"'/]/g, c => HTML_ESCAPE[c]);
+const escapeLabel = label => String(label).replace(/[&<>"']/g, c => HTML_ESCAPE[c]);
 
 class HtmlReporter extends Reporter {
   _line(line, tag) {
@@ -62,7 +63,7 @@ class HtmlReporter extends Reporter {
                                  .filter(line => line !== undefined)
                                  .join('');
 
-    return `<div>${this._context.source ? `<div>${this._context.source}</div>` : ''}<pre class="eno-report">${columnsHeader}${snippet}</pre></div>`;
+    return `<div>${this._context.source ? `<div>${escapeLabel(this._context.source)}</div>` : ''}<pre class="eno-report">${columnsHeader}${snippet}</pre></div>`;
   }
 }
 
-- 
2.43.0


From 0189205b6f5794f5ba0ef623afa50788b691d695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:16 +0000
Subject: [PATCH 61/70] fix: long runs of blanks slowed down parsing in
 javascript disproportionately

---
 javascript/lib/grammar_matcher.js | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/javascript/lib/grammar_matcher.js b/javascript/lib/grammar_matcher.js
index 2e478c2..8ebcbe6 100644
--- a/javascript/lib/grammar_matcher.js
+++ b/javascript/lib/grammar_matcher.js
@@ -1,10 +1,10 @@
 // Note: Study this file from the bottom up
 
-const OPTIONAL = '([^\\n]+?)?';
-const REQUIRED = '(\\S[^\\n]*?)';
+const OPTIONAL = '(\\S(?:[^\\n]*\\S)?)?';
+const REQUIRED = '(\\S(?:[^\\n]*\\S)?)';
 
 //
-const EMPTY = '()';
+const EMPTY = '()(?=\\n|$)';
 exports.EMPTY_LINE_INDEX = 1;
 
 // | value
@@ -39,32 +39,32 @@ const SECTION_OPERATOR = '(#+)(?!#)';
 exports.SECTION_OPERATOR_INDEX = 12;
 
 // # key
-const SECTION_KEY_UNESCAPED = '([^`\\s<][^<\\n]*?)';
+const SECTION_KEY_UNESCAPED = '([^`\\s<](?:[^<\\n]*[^\\s<])?)';
 exports.SECTION_KEY_UNESCAPED_INDEX = 13;
 
 // # `key`
 const SECTION_KEY_ESCAPE_BEGIN_OPERATOR_INDEX = 14
-const SECTION_KEY_ESCAPED = `(\`+)(?!\`)[^\\S\\n]*(\\S[^\\n]*?)[^\\S\\n]*\\${SECTION_KEY_ESCAPE_BEGIN_OPERATOR_INDEX}`; // TODO: Should this exclude the backreference inside the quotes? (as in ((?:(?!\\1).)+) ) here and elsewhere (probably not because it's not greedy.?)
+const SECTION_KEY_ESCAPED = `(\`+)(?!\`)[^\\S\\n]*(\\S(?:[^\\n]*?\\S)??)[^\\S\\n]*\\${SECTION_KEY_ESCAPE_BEGIN_OPERATOR_INDEX}`; // TODO: Should this exclude the backreference inside the quotes? (as in ((?:(?!\\1).)+) ) here and elsewhere (probably not because it's not greedy.?)
 exports.SECTION_KEY_ESCAPE_BEGIN_OPERATOR_INDEX = SECTION_KEY_ESCAPE_BEGIN_OPERATOR_INDEX;
 exports.SECTION_KEY_ESCAPED_INDEX = 15;
 
 // # key <(<) template
 // # `key` <(<) template
 const SECTION_KEY = `(?:${SECTION_KEY_UNESCAPED}|${SECTION_KEY_ESCAPED})`;
-const SECTION_TEMPLATE = `(?:(<(?!<)|<<)[^\\S\\n]*${REQUIRED})?`;
-const SECTION = `${SECTION_OPERATOR}[^\\S\\n]*${SECTION_KEY}[^\\S\\n]*${SECTION_TEMPLATE}`;
+const SECTION_TEMPLATE = `(?:[^\\S\\n]*(<(?!<)|<<)[^\\S\\n]*${REQUIRED})?`;
+const SECTION = `${SECTION_OPERATOR}[^\\S\\n]*${SECTION_KEY}${SECTION_TEMPLATE}`;
 exports.SECTION_COPY_OPERATOR_INDEX = 16;
 exports.SECTION_TEMPLATE_INDEX = 17;
 
 const EARLY_DETERMINED = `${CONTINUATION}|${COMMENT}|${LIST_ITEM}|${MULTILINE_FIELD}|${SECTION}`;
 
 // key
-const KEY_UNESCAPED = '([^\\s>#\\-`\\\\|:=<][^:=<\\n]*?)';
+const KEY_UNESCAPED = '([^\\s>#\\-`\\\\|:=<](?:[^:=<\\n]*[^\\s:=<])?)';
 exports.KEY_UNESCAPED_INDEX = 18;
 
 // `key`
 const KEY_ESCAPE_BEGIN_OPERATOR_INDEX = 19
-const KEY_ESCAPED = `(\`+)(?!\`)[^\\S\\n]*(\\S[^\\n]*?)[^\\S\\n]*\\${KEY_ESCAPE_BEGIN_OPERATOR_INDEX}`;
+const KEY_ESCAPED = `(\`+)(?!\`)[^\\S\\n]*(\\S(?:[^\\n]*?\\S)??)[^\\S\\n]*\\${KEY_ESCAPE_BEGIN_OPERATOR_INDEX}`;
 exports.KEY_ESCAPE_BEGIN_OPERATOR_INDEX = KEY_ESCAPE_BEGIN_OPERATOR_INDEX;
 exports.KEY_ESCAPED_INDEX = 20;
 
-- 
2.43.0


From 3c177e94b2755141d18119f75ece72116c87597d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:41 +0000
Subject: [PATCH 62/70] fix: parsing crashed in javascript on documents with
 very many comments in a row

---
 javascript/lib/analyze.js | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/javascript/lib/analyze.js b/javascript/lib/analyze.js
index 526dc7e..250d18e 100644
--- a/javascript/lib/analyze.js
+++ b/javascript/lib/analyze.js
@@ -19,7 +19,7 @@ const {
 
 const tokenizeErrorContext = (context, index, line, comments) => {
   if(comments) {
-    context._meta.push(...comments);
+    for(const comment of comments) context._meta.push(comment);
   }
 
   let firstInstruction = null;
@@ -108,7 +108,7 @@ exports.analyze = function() {
     if(match[matcher.EMPTY_LINE_INDEX] !== undefined) {
 
       if(comments) {
-        this._meta.push(...comments);
+        for(const comment of comments) this._meta.push(comment);
         comments = null;
       }
 
@@ -286,7 +286,7 @@ exports.analyze = function() {
       }
 
       if(comments) {
-        this._meta.push(...comments);
+        for(const comment of comments) this._meta.push(comment);
         comments = null;
       }
 
@@ -320,7 +320,7 @@ exports.analyze = function() {
       }
 
       if(comments) {
-        this._meta.push(...comments);
+        for(const comment of comments) this._meta.push(comment);
         comments = null;
       }
 
@@ -588,6 +588,6 @@ exports.analyze = function() {
   this._lineCount = this._input[this._input.length - 1] === '\n' ? line + 1 : line;
 
   if(comments) {
-    this._meta.push(...comments);
+    for(const comment of comments) this._meta.push(comment);
   }
 };
-- 
2.43.0


From 8a85553e06fa7158853a9eb6d14f85640c2a1a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:23 +0000
Subject: [PATCH 63/70] fix: representations of values with line feeds spanned
 several lines

---
 python/enolib/elements/value_element_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/enolib/elements/value_element_base.py b/python/enolib/elements/value_element_base.py
index d2ea72f..ffc0cff 100644
--- a/python/enolib/elements/value_element_base.py
+++ b/python/enolib/elements/value_element_base.py
@@ -12,7 +12,7 @@ class ValueElementBase(ElementBase):
         if len(value) > 14:
             value = f"{value[0:11]}..."
 
-        return value.replace("\n", '\n')
+        return value.replace('\n', '\\n')
 
     def _value(self, loader=None, *, required):
         self._touched = True
-- 
2.43.0


From 2d30c12d8a57ec49d348d84839fe0acdf8d64008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:23 +0000
Subject: [PATCH 64/70] fix: only the first line feed was escaped in
 representations in javascript

---
 javascript/lib/elements/value_element_base.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/javascript/lib/elements/value_element_base.js b/javascript/lib/elements/value_element_base.js
index c00b045..accdd4c 100644
--- a/javascript/lib/elements/value_element_base.js
+++ b/javascript/lib/elements/value_element_base.js
@@ -13,7 +13,7 @@ class ValueElementBase extends ElementBase {
       value = value.substring(0, 11) + '...';
     }
 
-    return value.replace('\n', '\\n');
+    return value.replace(/\n/g, '\\n');
   }
 
   _value(loader, required) {
-- 
2.43.0


From a45ff4dcdd4b9359f0d0c5759894e47c93dc089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:23 +0000
Subject: [PATCH 65/70] fix: double quotes and backslashes in translations
 corrupted the .po files when messages were generated

---
 locales/generate.js | 8 +++++---
 utilities.js        | 1 +
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/locales/generate.js b/locales/generate.js
index 30dd5d1..30046f2 100644
--- a/locales/generate.js
+++ b/locales/generate.js
@@ -10,10 +10,12 @@ const ruby = require('./generators/ruby.js');
 
 const { commaSeparated } = require('enotype');
 const { TerminalReporter } = require('../javascript');
-const { interpolatify } = require('../utilities.js');
+const { escapeBackslashes, escapeDoubleQuotes, escapeNewlines, interpolatify } = require('../utilities.js');
 
 enolib.register({ commaSeparated });
 
+const escapePo = string => escapeNewlines(escapeDoubleQuotes(escapeBackslashes(string)));
+
 const titleCase = /^[A-Z](?:-[A-Z]|[a-z])*( [A-Z](?:-[A-Z]|[a-z])*)*$/;
 
 const generate = async () => {
@@ -119,8 +121,8 @@ const generate = async () => {
           });
         }
 
-        updated += `msgid "${message}"\n`;
-        updated += `msgstr "${translation}"\n\n`;
+        updated += `msgid "${escapePo(message)}"\n`;
+        updated += `msgstr "${escapePo(translation)}"\n\n`;
       }
     }
 
diff --git a/utilities.js b/utilities.js
index 39ad755..4f86e94 100644
--- a/utilities.js
+++ b/utilities.js
@@ -20,6 +20,7 @@ exports.crop = text => {
   return text.split('\n').map(line => line.substring(depth)).join('\n');
 };
 
+exports.escapeBackslashes = string => string.replace(/\\/g, '\\\\');
 exports.escapeDoubleQuotes = string => string.replace(/"/g, '\\"');
 exports.escapeNewlines = string => string.replace(/\n/g, '\\n');
 exports.escapeSingleQuotes = string => string.replace(/'/g, "\\'");
-- 
2.43.0


From 8b9773b7b50d561007551fbc6f453d4ea5436335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:23 +0000
Subject: [PATCH 66/70] fix: special characters in translations broke the
 generated message catalogs

---
 locales/generators/javascript.js | 6 ++++--
 locales/generators/php.js        | 6 ++++--
 locales/generators/python.js     | 6 ++++--
 locales/generators/ruby.js       | 6 ++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/locales/generators/javascript.js b/locales/generators/javascript.js
index 1d5f919..c5e63be 100644
--- a/locales/generators/javascript.js
+++ b/locales/generators/javascript.js
@@ -2,7 +2,7 @@ const fs = require('fs');
 const fsExtra = require('fs-extra');
 const path = require('path');
 
-const { interpolatify } = require('../../utilities.js');
+const { escapeBackslashes, escapeNewlines, escapeSingleQuotes, interpolatify } = require('../../utilities.js');
 
 const camelCase = string => string.toLowerCase().replace(/[ \-][a-z]/g, boundary => boundary.charAt(1).toUpperCase());
 
@@ -14,6 +14,8 @@ module.exports = async (meta, locales) => {
     let translation = message.translation;
 
     if(message.arguments) {
+      translation = escapeNewlines(escapeBackslashes(translation)).replace(/[`$]/g, '\\$&');
+
       const arguments = message.arguments.map(argument => {
         const camelCased = camelCase(argument);
         translation = translation.replace(new RegExp(`\\[${argument}\\]`, 'g'), `\${${camelCased}}`);
@@ -22,7 +24,7 @@ module.exports = async (meta, locales) => {
 
       return `${camelCase(message.name)}: (${arguments.join(', ')}) => \`${translation}\``;
     } else {
-      return `${camelCase(message.name)}: '${translation.replace(/'/g, "\\'")}'`;
+      return `${camelCase(message.name)}: '${escapeNewlines(escapeSingleQuotes(escapeBackslashes(translation)))}'`;
     }
   };
 
diff --git a/locales/generators/php.js b/locales/generators/php.js
index 836bf94..3816c44 100644
--- a/locales/generators/php.js
+++ b/locales/generators/php.js
@@ -2,7 +2,7 @@ const fs = require('fs');
 const fsExtra = require('fs-extra');
 const path = require('path');
 
-const { interpolatify } = require('../../utilities.js');
+const { escapeBackslashes, escapeDoubleQuotes, escapeSingleQuotes, interpolatify } = require('../../utilities.js');
 
 const camelCase = string => string.toLowerCase().replace(/[ \-][a-z]/g, boundary => boundary.charAt(1).toUpperCase());
 const screamingSnakeCase = string => string.toUpperCase().replace(/[ \-]/g, '_');
@@ -17,6 +17,8 @@ module.exports = async (meta, locales) => {
     let translation = message.translation
 
     if(message.arguments) {
+      translation = escapeDoubleQuotes(escapeBackslashes(translation)).replace(/\$/g, '\\$&');
+
       const arguments = message.arguments.map(argument => {
         const snakeCased = snakeCase(argument);
         translation = translation.replace(new RegExp(`\\[${argument}\\]`, 'g'), `{$${snakeCased}}`);
@@ -25,7 +27,7 @@ module.exports = async (meta, locales) => {
 
       return `public static function ${camelCase(message.name)}(${arguments.join(', ')}) { return "${translation}"; }`;
     } else {
-      return `const ${screamingSnakeCase(message.name)} = '${translation.replace(/'/g, "\\'")}';`;
+      return `const ${screamingSnakeCase(message.name)} = '${escapeSingleQuotes(escapeBackslashes(translation))}';`;
     }
   };
 
diff --git a/locales/generators/python.js b/locales/generators/python.js
index 73af20e..d1611aa 100644
--- a/locales/generators/python.js
+++ b/locales/generators/python.js
@@ -2,7 +2,7 @@ const fs = require('fs');
 const fsExtra = require('fs-extra');
 const path = require('path');
 
-const { interpolatify } = require('../../utilities.js');
+const { escapeBackslashes, escapeDoubleQuotes, escapeNewlines, escapeSingleQuotes, interpolatify } = require('../../utilities.js');
 
 const snakeCase = string => string.toLowerCase().replace(/[ \-]/g, '_');
 
@@ -16,6 +16,8 @@ module.exports = async (meta, locales) => {
     let translation = message.translation
 
     if(message.arguments) {
+      translation = escapeNewlines(escapeDoubleQuotes(escapeBackslashes(translation))).replace(/[{}]/g, '$&$&');
+
       const arguments = message.arguments.map(argument => {
         const snakeCased = snakeCase(argument);
         translation = translation.replace(new RegExp(`\\[${argument}\\]`, 'g'), `{${snakeCased}}`);
@@ -24,7 +26,7 @@ module.exports = async (meta, locales) => {
 
       return `${snakeCase(message.name)} = lambda ${arguments.join(', ')}: f"${translation}"`;
     } else {
-      return `${snakeCase(message.name)} = '${translation.replace(/'/g, "\\'")}'`;
+      return `${snakeCase(message.name)} = '${escapeNewlines(escapeSingleQuotes(escapeBackslashes(translation)))}'`;
     }
   };
 
diff --git a/locales/generators/ruby.js b/locales/generators/ruby.js
index 56016ba..bd46242 100644
--- a/locales/generators/ruby.js
+++ b/locales/generators/ruby.js
@@ -2,7 +2,7 @@ const fs = require('fs');
 const fsExtra = require('fs-extra');
 const path = require('path');
 
-const { interpolatify } = require('../../utilities.js');
+const { escapeBackslashes, escapeDoubleQuotes, escapeSingleQuotes, interpolatify } = require('../../utilities.js');
 
 const screamingSnakeCase = string => string.toUpperCase().replace(/[ \-]/g, '_');
 const snakeCase = string => string.toLowerCase().replace(/[ \-]/g, '_');
@@ -16,6 +16,8 @@ module.exports = async (meta, locales) => {
     let translation = message.translation
 
     if(message.arguments) {
+      translation = escapeDoubleQuotes(escapeBackslashes(translation)).replace(/#/g, '\\$&');
+
       const arguments = message.arguments.map(argument => {
         const snakeCased = snakeCase(argument);
         translation = translation.replace(new RegExp(`\\[${argument}\\]`, 'g'), `#{${snakeCased}}`);
@@ -24,7 +26,7 @@ module.exports = async (meta, locales) => {
 
       return `def self.${snakeCase(message.name)}(${arguments.join(', ')}) "${translation}" end`;
     } else {
-      return `${screamingSnakeCase(message.name)} = '${translation.replace(/'/g, "\\'")}'`;
+      return `${screamingSnakeCase(message.name)} = '${escapeSingleQuotes(escapeBackslashes(translation))}'`;
     }
   };
 
-- 
2.43.0


From 30fd3b1d2561a0cc6607fde6a40e6fbb19c9061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:35 +0000
Subject: [PATCH 67/70] fix: reading a fieldset of very many entries crashed in
 javascript

---
 javascript/lib/elements/fieldset.js | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/javascript/lib/elements/fieldset.js b/javascript/lib/elements/fieldset.js
index bd2760c..e977dc2 100644
--- a/javascript/lib/elements/fieldset.js
+++ b/javascript/lib/elements/fieldset.js
@@ -80,7 +80,9 @@ class Fieldset extends ElementBase {
         this._instantiateEntries(fieldset.extend);
       }
 
-      this._instantiatedEntries.push(...nativeEntries);
+      for(const entry of nativeEntries) {
+        this._instantiatedEntries.push(entry);
+      }
     }
   }
 
-- 
2.43.0


From 68f1f6d64b843d5eb80dade0b7d2a19b51e0442b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:35 +0000
Subject: [PATCH 68/70] fix: parsing crashed in javascript on multiline fields
 with very long keys

---
 javascript/lib/analyze.js | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/javascript/lib/analyze.js b/javascript/lib/analyze.js
index 250d18e..2d34bcf 100644
--- a/javascript/lib/analyze.js
+++ b/javascript/lib/analyze.js
@@ -441,21 +441,19 @@ exports.analyze = function() {
       lastContinuableElement = null;
       lastNonSectionElement = instruction;
 
-      const keyEscaped = instruction.key.replace(/[-/\\^$*+?.()|[\]{}]/g, '\\$&');
-      const terminatorMatcher = new RegExp(`[^\\S\\n]*(${operator})(?!-)[^\\S\\n]*(${keyEscaped})[^\\S\\n]*(?=\\n|$)`, 'y');
-
       while(true) {
-        terminatorMatcher.lastIndex = index;
-        let terminatorMatch = terminatorMatcher.exec(this._input);
+        const endofLineIndex = this._input.indexOf('\n', index);
+        const endofTextIndex = endofLineIndex === -1 ? this._input.length : endofLineIndex;
+        const text = this._input.substring(index, endofTextIndex).trim();
 
-        if(terminatorMatch) {
+        if(text.startsWith(operator) && text[operator.length] !== '-' && text.substring(operator.length).trim() === instruction.key) {
           operatorIndex = this._input.indexOf(operator, index);
           keyIndex = this._input.indexOf(instruction.key, operatorIndex + operator.length);
 
           instruction = {
             line: line,
             ranges: {
-              line: [index, terminatorMatcher.lastIndex],
+              line: [index, endofTextIndex],
               multilineFieldOperator: [operatorIndex, operatorIndex + operator.length],
               key: [keyIndex, keyIndex + instruction.key.length]
             },
@@ -465,12 +463,10 @@ exports.analyze = function() {
           lastNonSectionElement.end = instruction;
           lastNonSectionElement = null;
 
-          matcherRegex.lastIndex = terminatorMatcher.lastIndex;
+          matcherRegex.lastIndex = endofTextIndex;
 
           break;
         } else {
-          const endofLineIndex = this._input.indexOf('\n', index);
-
           if(endofLineIndex === -1) {
             if(index <= this._input.length) {
               lastNonSectionElement.lines.push({
-- 
2.43.0


From 24641babb9b2d52fca3fe6cd6fceeb029319c344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:09 +0000
Subject: [PATCH 69/70] fix: placeholders in blueprints were interpolated in
 the generated javascript tests

---
 utilities.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utilities.js b/utilities.js
index 4f86e94..3e8f3e4 100644
--- a/utilities.js
+++ b/utilities.js
@@ -66,6 +66,7 @@ exports.interpolatify = (strings, ...variables) => {
 exports.quotedJavaScriptMultilineString = text => {
   text = text.replace(/\\/g, '\\\\'); // escape backslashes
   text = text.replace(/`/g, '\\`');   // escape quotes
+  text = text.replace(/\$\{/g, '\\${'); // escape interpolation
 
   return `\`${text.replace(/\n/g, '\\n` +\n`')}\``;
 }
-- 
2.43.0


From f1a417796b99cef290f3d0ad97ca222c65cdd105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:09 +0000
Subject: [PATCH 70/70] fix: carriage returns and null characters in blueprints
 changed or broke the generated tests

---
 utilities.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utilities.js b/utilities.js
index 3e8f3e4..b718fc7 100644
--- a/utilities.js
+++ b/utilities.js
@@ -67,6 +67,7 @@ exports.quotedJavaScriptMultilineString = text => {
   text = text.replace(/\\/g, '\\\\'); // escape backslashes
   text = text.replace(/`/g, '\\`');   // escape quotes
   text = text.replace(/\$\{/g, '\\${'); // escape interpolation
+  text = text.replace(/\r/g, '\\r');  // escape carriage returns, which would be read as line feeds
 
   return `\`${text.replace(/\n/g, '\\n` +\n`')}\``;
 }
@@ -81,6 +82,8 @@ exports.quotedPhpMultilineString = text => {
 exports.quotedPythonMultilineString = text => {
   text = text.replace(/\\/g, '\\\\'); // escape backslashes
   text = text.replace(/"/g, '\\"');   // escape quotes
+  text = text.replace(/\r/g, '\\r');  // escape carriage returns, which would end the line
+  text = text.replace(/\0/g, '\\x00'); // escape null characters, which are not allowed in source code
 
   return '("' + text.replace(/\n/g, '\\n"\n "') + '")';
 }
-- 
2.43.0

