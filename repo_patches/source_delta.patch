From 32adac7b0e613ed0b2cb5dd5258d1a1dd8ad683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:12 +0000
Subject: [PATCH 01/71] fix: render_to_object() handles top-level lists and
 keys without values

---
 conda_recipe_manager/parser/recipe_reader.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 782de49..8d02356 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -733,6 +733,11 @@ class RecipeReader(IsModifiable):
             return
 
         key = cast(str, node.value)
+        # Keys without a value are interpreted to point to `None`
+        if all(child.is_comment() for child in node.children):
+            data[key] = None
+            return
+
         for child in node.children:
             # Ignore comment-only lines
             if child.is_comment():
@@ -748,7 +753,7 @@ class RecipeReader(IsModifiable):
 
             # Empty keys are interpreted to point to `None`
             if child.is_empty_key():
-                data[key][child.value] = None
+                data.setdefault(key, {})[child.value] = None
                 continue
 
             # Collection nodes are skipped as they are placeholders. However, their children are rendered recursively
@@ -757,14 +762,14 @@ class RecipeReader(IsModifiable):
                 elem_dict = {}
                 for element in child.children:
                     self._render_object_tree(element, replace_variables, elem_dict)
-                if len(data[key]) == 0:
+                if not data.get(key):
                     data[key] = []
                 data[key].append(elem_dict)
                 continue
 
             # List members accumulate values in a list
             if child.list_member_flag:
-                if key not in data:
+                if not data.get(key):
                     data[key] = []
                 data[key].append(value)
                 continue
-- 
2.43.0


From c68e72aa4c41de0a7d9ae56588c58f870c0127e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:23 +0000
Subject: [PATCH 02/71] fix: block scalars keep relative indentation, may end
 the file and may be the first key of a list element

---
 conda_recipe_manager/parser/_types.py        |  2 +-
 conda_recipe_manager/parser/recipe_reader.py | 46 ++++++++++++--------
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 8379076..cdcd3d2 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -197,7 +197,7 @@ class Regex:
     SELECTOR: Final[re.Pattern[str]] = re.compile(r"\[.*\]")
     # Detects the 6 common variants (3 |'s, 3 >'s). See this guide for more info:
     #   https://stackoverflow.com/questions/3790454/how-do-i-break-a-string-in-yaml-over-multiple-lines/21699210
-    MULTILINE: Final[re.Pattern[str]] = re.compile(r"^\s*.*:\s+(\||>)(\+|\-)?(\s*|\s+#.*)")
+    MULTILINE: Final[re.Pattern[str]] = re.compile(r"^\s*.*:\s+(\||>)(\+|\-)?(\s*|\s+#.*)$")
     # Group where the "variant" string is identified
     MULTILINE_VARIANT_CAPTURE_GROUP_CHAR: Final[int] = 1
     MULTILINE_VARIANT_CAPTURE_GROUP_SUFFIX: Final[int] = 2
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 8d02356..c83e869 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -450,18 +450,27 @@ class RecipeReader(IsModifiable):
                 )
                 # Type narrow that we assigned `value` as a `list`
                 assert isinstance(multiline_node.value, list)
-                multiline = lines[line_idx]
-                multiline_indent = num_tab_spaces(multiline)
                 # Add the line to the list once it is verified to be the next line to capture in this node. This means
                 # that `line_idx` will point to the line of the next node, post-processing. Note that blank lines are
                 # valid in multi-line strings, occasionally found in `/about/summary` sections.
-                while multiline_indent > new_indent or multiline == "":
-                    multiline_node.value.append(multiline.strip())
+                captured: list[str] = []
+                # For `- key: |`, the value must be indented past the key, not past the list marker.
+                key_indent = new_indent
+                if new_node.is_collection_element():
+                    key_indent += len(clean_line) - len(clean_line[1:].lstrip())
+                while line_idx < num_lines and (
+                    not lines[line_idx].strip() or num_tab_spaces(lines[line_idx]) > key_indent
+                ):
+                    captured.append(lines[line_idx].rstrip())
                     line_idx += 1
-                    multiline = lines[line_idx]
-                    multiline_indent = num_tab_spaces(multiline)
+                # The first line with text sets the indentation of the block. Indentation beyond that is content.
+                block_indent = next((num_tab_spaces(i) for i in captured if i), 0)
+                multiline_node.value.extend(i[block_indent:] for i in captured)
                 # The previous level is the key to this multi-line value, so we can safely reset it.
-                new_node.children = [multiline_node]
+                if new_node.is_collection_element():
+                    new_node.children[0].children = [multiline_node]
+                else:
+                    new_node.children = [multiline_node]
             if new_indent > cur_indent:
                 node_stack.append(last_node)
                 # Edge case: The first element of a list of objects that is NOT a 1-line key-value pair needs
@@ -622,27 +631,29 @@ class RecipeReader(IsModifiable):
                 )
                 return
 
-            if is_first_collection_child:
-                lines.append(
-                    f"{TAB_AS_SPACES * (depth-1)}- {node.value}: "
-                    f"{stringify_yaml(node.children[0].value)}  "
-                    f"{node.children[0].comment}".rstrip()
-                )
-                return
-
             # Handle multi-line statements. In theory this will probably only ever be strings, but we'll try to account
             # for other types.
             #
             # By the language spec, # symbols do not indicate comments on multiline strings.
             if node.children[0].multiline_variant != MultilineVariant.NONE:
                 multi_variant: Final[MultilineVariant] = node.children[0].multiline_variant
-                lines.append(f"{spaces}{node.value}: {multi_variant}  {node.comment}".rstrip())
+                key_prefix: Final[str] = f"{TAB_AS_SPACES * (depth-1)}- " if is_first_collection_child else spaces
+                lines.append(f"{key_prefix}{node.value}: {multi_variant}  {node.comment}".rstrip())
                 for val_line in cast(list[str], node.children[0].value):
                     lines.append(
                         f"{spaces}{TAB_AS_SPACES}"
                         f"{stringify_yaml(val_line, multiline_variant=multi_variant)}".rstrip()
                     )
                 return
+
+            if is_first_collection_child:
+                lines.append(
+                    f"{TAB_AS_SPACES * (depth-1)}- {node.value}: "
+                    f"{stringify_yaml(node.children[0].value)}  "
+                    f"{node.children[0].comment}".rstrip()
+                )
+                return
+
             lines.append(
                 f"{spaces}{node.value}: "
                 f"{stringify_yaml(node.children[0].value)}  "
@@ -688,7 +699,8 @@ class RecipeReader(IsModifiable):
                 RecipeReader._render_tree(child, depth + depth_delta, lines, node)
             # By tradition, recipes have a blank line after every top-level section, unless they are a comment. Comments
             # should be left where they are.
-            if depth < 0 and not child.is_comment():
+            # A trailing blank line that belongs to a multi-line string already provides that separation.
+            if depth < 0 and not child.is_comment() and lines[-1] != "":
                 lines.append("")
 
     def render(self) -> str:
-- 
2.43.0


From 77df497a1c8c9e5f1c42303b4748061dc204ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 03/71] fix: parser follows any valid YAML indentation and
 comments do not change the structure

---
 conda_recipe_manager/parser/recipe_reader.py | 76 +++++++++++++++-----
 1 file changed, 58 insertions(+), 18 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index c83e869..a594d5b 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -394,6 +394,36 @@ class RecipeReader(IsModifiable):
 
         traverse_all(self._root, _collect_selectors)
 
+    @staticmethod
+    def _calc_comment_depth(
+        indent: int, levels: list[tuple[int, int]], last_node: Node, remaining_lines: list[str]
+    ) -> int:
+        """
+        Determines the depth a comment-only line belongs to. The indentation of a comment is respected as long as it
+        does not change how the surrounding lines are interpreted.
+
+        :param indent: Indentation of the comment
+        :param levels: Levels that are currently open, as tuples that start with the depth of the level
+        :param last_node: Last node found that is not a comment
+        :param remaining_lines: Lines found after the comment
+        :returns: Depth of the comment
+        """
+        next_depth = 0
+        for line in remaining_lines:
+            clean_line = line.strip()
+            if clean_line and not clean_line.startswith("#"):
+                next_depth = 2 * num_tab_spaces(line) + int(clean_line == "-" or clean_line.startswith("- "))
+                break
+
+        # A comment that is indented past the last line may be the only thing under a key that has no value.
+        depth = 2 * indent
+        if depth > levels[-1][0] and not last_node.is_empty_key():
+            depth = levels[-1][0]
+        # Otherwise, use the deepest level at or above the indentation of the comment.
+        elif depth <= levels[-1][0]:
+            depth = max((level for level, _ in levels if level // 2 <= indent), default=0)
+        return max(depth, next_depth)
+
     def __init__(self, content: str):
         # pylint: disable=too-complex
         # TODO Refactor and simplify ^
@@ -413,9 +443,13 @@ class RecipeReader(IsModifiable):
 
         # Read the YAML line-by-line, maintaining a stack to manage the last owning node in the tree.
         node_stack: list[Node] = [self._root]
-        # Relative depth is determined by the increase/decrease of indentation marks (spaces)
-        cur_indent = 0
+        # Relative depth is determined by the increase/decrease of indentation marks (spaces). As list members may share
+        # the indentation of the key that owns them, the depth of a line is twice its indentation, plus one for list
+        # members. Each level tracks its depth and the size of the node stack while on that level.
+        levels: list[tuple[int, int]] = [(0, 1)]
         last_node = node_stack[-1]
+        # If the last node is a list member that starts with a key, this is the depth of that key
+        last_key_depth = 0
 
         # Iterate with an index variable, so we can handle multiline values
         line_idx = 0
@@ -471,28 +505,34 @@ class RecipeReader(IsModifiable):
                     new_node.children[0].children = [multiline_node]
                 else:
                     new_node.children = [multiline_node]
-            if new_indent > cur_indent:
+            # Comments are not bound by YAML's indentation rules, so they may not open or close a level by themselves.
+            depth = 2 * new_indent + int(new_node.list_member_flag)
+            if new_node.is_comment():
+                depth = RecipeReader._calc_comment_depth(new_indent, levels, last_node, lines[line_idx:])
+            # Multiple levels of depth can change from line to line, so multiple stack nodes must be pop'd. Example:
+            # foo:
+            #   bar:
+            #     fizz: buzz
+            # baz: blah
+            while len(levels) > 1 and depth < levels[-1][0]:
+                levels.pop()
+                del node_stack[levels[-1][1] :]
+            if depth > levels[-1][0]:
                 node_stack.append(last_node)
                 # Edge case: The first element of a list of objects that is NOT a 1-line key-value pair needs
-                # to be added to the stack to maintain composition
-                if last_node.is_collection_element() and not last_node.children[0].is_single_key():
-                    node_stack.append(last_node.children[0])
-            elif new_indent < cur_indent:
-                # Multiple levels of depth can change from line to line, so multiple stack nodes must be pop'd. Example:
-                # foo:
-                #   bar:
-                #     fizz: buzz
-                # baz: blah
-                # TODO Figure out tab-depth of the recipe being read. 4 spaces is technically valid in YAML
-                depth_to_pop = (cur_indent - new_indent) // TAB_SPACE_COUNT
-                for _ in range(depth_to_pop):
-                    node_stack.pop()
-            cur_indent = new_indent
+                # to be added to the stack to maintain composition, if the line is indented past that key.
+                if last_node.is_collection_element():
+                    if depth > last_key_depth:
+                        levels.append((last_key_depth, len(node_stack)))
+                        node_stack.append(last_node.children[0])
+                levels.append((depth, len(node_stack)))
             # Look at the stack to determine the parent Node and then append the current node to the new parent.
             parent = node_stack[-1]
             parent.children.append(new_node)
             # Update the last node for the next line interpretation
-            last_node = new_node
+            if not new_node.is_comment():
+                last_node = new_node
+                last_key_depth = 2 * (new_indent + len(clean_line) - len(clean_line[1:].lstrip()))
 
         # Auto-detect and deserialize the version of the recipe schema. This will change how the class behaves.
         self._schema_version = SchemaVersion.V0
-- 
2.43.0


From 34e9aaa3d81768b06ddd40e92d8747a548609675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:18 +0000
Subject: [PATCH 04/71] fix: a quoted # is not a comment, and selectors of
 commented-out lines are not listed

---
 conda_recipe_manager/parser/recipe_reader.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index a594d5b..5c8eb5b 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -153,10 +153,16 @@ class RecipeReader(IsModifiable):
             return Node(comment=s)
         # There is a comment at the end of the line if a `#` symbol is found with leading whitespace before it. If it is
         # "touching" a character on the left-side, it is just part of a string.
-        comment_re_result = Regex.DETECT_TRAILING_COMMENT.search(s)
-        if comment_re_result is not None:
-            # Group 0 is the whole match, Group 1 is the leading whitespace, Group 2 locates the `#`
+        for comment_re_result in Regex.DETECT_TRAILING_COMMENT.finditer(s):
+            # Group 0 is the whole match, Group 1 is the leading whitespace, Group 2 locates the `#`. If the value is not
+            # the same without the text that follows, the symbol is part of a quoted string.
+            try:
+                if RecipeReader._parse_yaml(s[: comment_re_result.start()]) != output:
+                    continue
+            except Exception:  # pylint: disable=broad-exception-caught
+                continue
             comment = s[comment_re_result.start(2) :]
+            break
 
         # If a dictionary is returned, we have a line containing a key and potentially a value. There should only be 1
         # key/value pairing in 1 line. Nodes representing keys should be flagged for handling edge cases.
@@ -381,8 +387,8 @@ class RecipeReader(IsModifiable):
         self._selector_tbl: dict[str, list[SelectorInfo]] = {}
 
         def _collect_selectors(node: Node, path: StrStack) -> None:
-            # Ignore empty comments
-            if not node.comment:
+            # Ignore empty comments and lines that only contain a comment, as those are not addressable
+            if not node.comment or node.is_comment():
                 return
             match = Regex.SELECTOR.search(node.comment)
             if not match:
-- 
2.43.0


From 2225fe3d0c554c66bd955e8a09100ca0a22817a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 05/71] fix: rendering quotes strings that would be read back
 as another value

---
 conda_recipe_manager/parser/_utils.py         | 40 ++++++++++++++++++-
 .../parser/recipe_parser_convert.py           | 20 +++++++++-
 2 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 1f37fc8..3810202 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -9,6 +9,8 @@ import re
 from collections.abc import Iterable
 from typing import Final, cast
 
+import yaml
+
 from conda_recipe_manager.parser._types import (
     RECIPE_MANAGER_SUB_MARKER,
     ROOT_NODE_VALUE,
@@ -19,6 +21,12 @@ from conda_recipe_manager.parser._types import (
 from conda_recipe_manager.parser.types import TAB_AS_SPACES, MultilineVariant, NodeValue
 from conda_recipe_manager.types import H, JsonType, SentinelType
 
+# Import guard: Fallback to `SafeLoader` if `CSafeLoader` isn't available
+try:
+    from yaml import CSafeLoader as SafeLoader
+except ImportError:
+    from yaml import SafeLoader  # type: ignore[assignment]
+
 # Commonly used special characters that we need to ensure get quoted when rendered as a YAML string.
 # NOTE: `#`, `|`, `{`, `}`, `>`, and `<` are left out of this list as in our use case, they have specifics meaning that
 #       are already handled in the parser.
@@ -146,6 +154,36 @@ def quote_special_strings(s: str, multiline_variant: MultilineVariant = Multilin
     return s
 
 
+def quote_ambiguous_strings(
+    quoted: str, s: str, multiline_variant: MultilineVariant = MultilineVariant.NONE
+) -> str:
+    """
+    Ensure a string is still the same string when it is read back by a YAML parser. This covers strings that look like
+    another type (`"3.10"`), are empty, or contain characters that only have a meaning in some positions (`"a: b"`).
+
+    :param quoted: String that has been through `quote_special_strings()`
+    :param s: Original string
+    :param multiline_variant: (Optional) If the value being processed is a multiline string, indicate which YAML
+        descriptor is in use.
+    :returns: YAML version of a value, as a string.
+    """
+    # Multiline strings, JINJA statements and already quoted strings are left as-is.
+    if (
+        multiline_variant != MultilineVariant.NONE
+        or quoted != s
+        or "{{" in s
+        or Regex.JINJA_FUNCTION_MATCH.search(s)
+    ):
+        return quoted
+    try:
+        # The key ensures that we find issues with strings that are only valid YAML when they are on their own.
+        if yaml.load(f"key: {s}", Loader=SafeLoader) == {"key": s}:
+            return s
+    except yaml.YAMLError:
+        pass
+    return json.dumps(s)
+
+
 def stringify_yaml(
     val: NodeValue | SentinelType, multiline_variant: MultilineVariant = MultilineVariant.NONE
 ) -> NodeValue:
@@ -171,7 +209,7 @@ def stringify_yaml(
         return "false"
     # Handle special string quote cases
     if isinstance(val, str):
-        return quote_special_strings(val, multiline_variant)
+        return quote_ambiguous_strings(quote_special_strings(val, multiline_variant), val, multiline_variant)
     return val
 
 
diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 14cfc50..f288e9b 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -118,6 +118,24 @@ class RecipeParserConvert(RecipeParser):
 
     ## Upgrade functions ##
 
+    @staticmethod
+    def _simplify_context_value(value: Primitives) -> Primitives:
+        """
+        Numbers that are stored as strings do not need to be quoted in the `context` section, as long as the number
+        reads the same when it is substituted. In other words, `"921"` can be simplified, `"3.10"` can't.
+
+        :param value: Value of a variable
+        :returns: The number, if the value can be simplified. Otherwise, the original value.
+        """
+        if isinstance(value, str):
+            for number_type in (int, float):
+                try:
+                    if str(number_type(value)) == value:
+                        return number_type(value)
+                except ValueError:
+                    pass
+        return value
+
     def _upgrade_jinja_to_context_obj(self) -> None:
         """
         Upgrades the old proprietary JINJA templating usage to the new YAML-parsable `context` object and `$`-escaped
@@ -134,7 +152,7 @@ class RecipeParserConvert(RecipeParser):
             # Function calls need to preserve JINJA escaping or else they turn into unevaluated strings.
             if isinstance(value, str) and search_any_regex(Regex.JINJA_FUNCTIONS_SET, value):
                 value = "{{" + value + "}}"
-            context_obj[name] = value
+            context_obj[name] = RecipeParserConvert._simplify_context_value(value)
         # Ensure that we do not include an empty context object (which is forbidden by the schema).
         if context_obj:
             # Check for Jinja that is too complex to convert
-- 
2.43.0


From d51fa4fd57f73f70ed21be452f6ef72d670a7dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:05 +0000
Subject: [PATCH 06/71] fix: get_value() returns the value a YAML parser sees,
 and sections without values have no dependencies

---
 conda_recipe_manager/parser/recipe_reader.py  | 108 ++++++++++--------
 .../parser/recipe_reader_deps.py              |  11 +-
 2 files changed, 67 insertions(+), 52 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 5c8eb5b..f905cef 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -6,6 +6,7 @@
 from __future__ import annotations
 
 import ast
+import copy
 import hashlib
 import json
 import re
@@ -775,6 +776,24 @@ class RecipeReader(IsModifiable):
 
         return "\n".join(lines)
 
+    def _render_leaf_value(self, node: Node, replace_variables: bool) -> JsonType:
+        """
+        Helper function that interprets the value stored in a leaf node.
+
+        :param node: Leaf node to interpret
+        :param replace_variables: If set to True, this replaces all variable substitutions with their set values.
+        :returns: The value, as it would be seen by a YAML parser.
+        """
+        # Handle multiline strings and variable replacement
+        if node.multiline_variant != MultilineVariant.NONE:
+            value = cast(str, normalize_multiline_strings(cast(list[str], node.value), node.multiline_variant))
+            if replace_variables:
+                return self._render_jinja_vars(value)
+            return cast(JsonType, yaml.load(value, Loader=SafeLoader))
+        if replace_variables:
+            return self._parse_yaml_recursive_sub(copy.deepcopy(cast(JsonType, node.value)), self._render_jinja_vars)
+        return copy.deepcopy(cast(JsonType, node.value))
+
     @no_type_check
     def _render_object_tree(self, node: Node, replace_variables: bool, data: JsonType) -> None:
         # pylint: disable=too-complex
@@ -801,14 +820,6 @@ class RecipeReader(IsModifiable):
             if child.is_comment():
                 continue
 
-            # Handle multiline strings and variable replacement
-            value = normalize_multiline_strings(child.value, child.multiline_variant)
-            if isinstance(value, str):
-                if replace_variables:
-                    value = self._render_jinja_vars(value)
-                elif child.multiline_variant != MultilineVariant.NONE:
-                    value = cast(str, yaml.load(value, Loader=SafeLoader))
-
             # Empty keys are interpreted to point to `None`
             if child.is_empty_key():
                 data.setdefault(key, {})[child.value] = None
@@ -829,18 +840,39 @@ class RecipeReader(IsModifiable):
             if child.list_member_flag:
                 if not data.get(key):
                     data[key] = []
-                data[key].append(value)
+                data[key].append(self._render_leaf_value(child, replace_variables))
                 continue
 
             # Other (non list and non-empty-key) leaf nodes set values directly
             if child.is_leaf():
-                data[key] = value
+                data[key] = self._render_leaf_value(child, replace_variables)
                 continue
 
             # All other keys prep for containing more dictionaries
             data.setdefault(key, {})
             self._render_object_tree(child, replace_variables, data[key])
 
+    def _render_node_value(self, node: Node, replace_variables: bool) -> JsonType:
+        """
+        Helper function that generates the Pythonic value found at a node.
+
+        :param node: Node to interpret
+        :param replace_variables: If set to True, this replaces all variable substitutions with their set values.
+        :returns: The value, as it would be seen by a YAML parser.
+        """
+        if node.is_root():
+            return self.render_to_object(replace_variables=replace_variables)
+        data: dict[str, JsonType] = {}
+        if node.is_collection_element():
+            for child in node.children:
+                self._render_object_tree(child, replace_variables, data)
+            return data
+        if node.key_flag:
+            self._render_object_tree(node, replace_variables, data)
+            return data[cast(str, node.value)]
+        # Otherwise, this is a member of a list.
+        return self._render_leaf_value(node, replace_variables)
+
     def render_to_object(self, replace_variables: bool = False) -> JsonType:
         """
         Takes the underlying state of the parse tree and produces a Pythonic object/dictionary representation. Analogous
@@ -912,41 +944,10 @@ class RecipeReader(IsModifiable):
                 raise KeyError(f"No value/key found at path {path!r}")
             return default
 
-        return_value: JsonType = None
-        # Handle unpacking of the last key-value set of nodes.
-        if node.is_single_key() and not node.is_root():
-            if node.children[0].multiline_variant != MultilineVariant.NONE:
-                multiline_str = cast(
-                    str,
-                    normalize_multiline_strings(
-                        cast(list[str], node.children[0].value), node.children[0].multiline_variant
-                    ),
-                )
-                if sub_vars:
-                    return self._render_jinja_vars(multiline_str)
-                return cast(JsonType, yaml.load(multiline_str, Loader=SafeLoader))
-            return_value = cast(Primitives, node.children[0].value)
-        # Leaf nodes can return their value directly
-        elif node.is_leaf():
-            return_value = cast(Primitives, node.value)
-        else:
-            # NOTE: Traversing the tree and generating our own data structures will be more efficient than rendering and
-            # leveraging the YAML parser, BUT this method re-uses code and is easier to maintain.
-            lst: list[str] = []
-            RecipeReader._render_tree(node, -1, lst)
-            return_value = "\n".join(lst)
-
-        # Collection types are transformed into strings above and will need to be transformed into a proper data type.
-        # `_parse_yaml()` will also render JINJA variables for us, if requested.
-        if isinstance(return_value, str):
-            parser = self if sub_vars else None
-            parsed_value = RecipeReader._parse_yaml(return_value, parser)
-            # Lists containing 1 value will drop the surrounding list by the YAML parser. To ensure greater consistency
-            # and provide better type-safety, we will re-wrap such values.
-            if not isinstance(parsed_value, list) and len(node.children) == 1 and node.children[0].list_member_flag:
-                return [parsed_value]
-            return parsed_value
-        return return_value
+        # Empty keys are terminal paths
+        if node.is_empty_key():
+            return cast(Primitives, node.value)
+        return self._render_node_value(node, sub_vars)
 
     def find_value(self, value: Primitives) -> list[str]:
         """
@@ -1061,13 +1062,20 @@ class RecipeReader(IsModifiable):
 
         # Convenience function that reduces repeated logic between regular and multi-output recipes
         def _scan_requirements(path_prefix: str = "") -> None:
+            # Relying on `get_value()` ensures that we will only examine literal values and ignore comments in-between
+            # dependencies. Sections (or entire `requirements` blocks) without a value do not contain dependencies.
+            requirements = self.get_value(f"{path_prefix}/requirements", {})
+            if not isinstance(requirements, dict):
+                return
             for section in req_sections:
                 section_path = f"{path_prefix}/requirements/{section}"
-                # Relying on `get_value()` ensures that we will only examine literal values and ignore comments
-                # in-between dependencies.
-                dependencies = cast(list[str], self.get_value(section_path, []))
-                for i in range(len(dependencies)):
-                    paths.append(f"{section_path}/{i}")
+                dependencies = requirements.get(section, [])
+                if isinstance(dependencies, list):
+                    for i in range(len(dependencies)):
+                        paths.append(f"{section_path}/{i}")
+                # A single dependency does not have to be in a list.
+                elif dependencies is not None:
+                    paths.append(section_path)
 
         # Scan for both multi-output and non-multi-output recipes. Here is an example of a recipe that has both:
         #   https://github.com/AnacondaRecipes/curl-feedstock/blob/master/recipe/meta.yaml
diff --git a/conda_recipe_manager/parser/recipe_reader_deps.py b/conda_recipe_manager/parser/recipe_reader_deps.py
index feefba4..c1ab7d8 100644
--- a/conda_recipe_manager/parser/recipe_reader_deps.py
+++ b/conda_recipe_manager/parser/recipe_reader_deps.py
@@ -123,19 +123,26 @@ class RecipeReaderDeps(RecipeReader):
                 self.get_value(RecipeReader.append_to_path(path, "/requirements"), default={}, sub_vars=True),
             )
             dep_map[package] = []
+            # A `requirements` block without a value does not contain dependencies.
+            if not isinstance(requirements, dict):
+                continue
             for section_str, deps in requirements.items():
                 section = str_to_dependency_section(section_str)
                 # Unrecognized sections will be skipped as "junk" data
                 if section is None:
                     continue
 
-                for i, dep in enumerate(deps):
+                # A section may not have a value and a single dependency does not have to be in a list.
+                is_list = isinstance(deps, list)
+                for i, dep in enumerate(deps if is_list else [cast(Optional[str], deps)]):
                     dep = RecipeReaderDeps._sanitize_dep(dep)
                     if dep is None:
                         continue
 
                     # NOTE: `get_dependency_paths()` uses the same approach for calculating dependency paths.
-                    dep_path = RecipeReader.append_to_path(path, f"/requirements/{section_str}/{i}")
+                    dep_path = RecipeReader.append_to_path(path, f"/requirements/{section_str}")
+                    if is_list:
+                        dep_path = RecipeReader.append_to_path(dep_path, str(i))
                     dep_map[package].append(
                         Dependency(
                             required_by=package,
-- 
2.43.0


From 11ed88af232cdf305acb0ba4e4118e2409059eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:41 +0000
Subject: [PATCH 07/71] fix: variable substitution does not add quotes to or
 change the type of values

---
 conda_recipe_manager/parser/recipe_reader.py | 39 ++++++++++++++++++--
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index f905cef..ee15aea 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -72,7 +72,7 @@ class RecipeReader(IsModifiable):
         """
         # Add the substitutions back in
         if isinstance(data, str):
-            data = modifier(quote_special_strings(data))
+            data = modifier(data)
         if isinstance(data, dict):
             for key in data.keys():
                 data[key] = RecipeReader._parse_yaml_recursive_sub(cast(str, data[key]), modifier)
@@ -315,6 +315,36 @@ class RecipeReader(IsModifiable):
         :returns: The original value, augmented with Jinja substitutions. Types are re-rendered to account for multiline
             strings that may have been "normalized" prior to this call.
         """
+        return cast(JsonType, yaml.load(self._sub_jinja_vars(s), Loader=SafeLoader))
+
+    def _render_jinja_vars_in_leaf(self, s: str) -> JsonType:
+        """
+        Helper function that replaces Jinja substitutions in a string that has already been parsed.
+
+        :param s: String to be re-rendered
+        :returns: The original string, if there is nothing to substitute. Otherwise, the augmented value, with the type
+            the substituted text has in YAML.
+        """
+        _, sub_regex = self._set_on_schema_version()
+        if not sub_regex.search(s):
+            return s
+        rendered = self._sub_jinja_vars(s)
+        try:
+            value = cast(JsonType, yaml.load(rendered, Loader=SafeLoader))
+        except yaml.YAMLError:
+            return rendered
+        # These strings must have been quoted in the recipe. Otherwise they would not be a single value.
+        if isinstance(value, dict) or Regex.DETECT_TRAILING_COMMENT.search(rendered):
+            return rendered
+        return value
+
+    def _sub_jinja_vars(self, s: str) -> str:
+        """
+        Helper function that replaces the text of Jinja substitutions with their actual set values.
+
+        :param s: String to perform the substitutions on
+        :returns: The original string, augmented with Jinja substitutions.
+        """
         # TODO: Consider tokenizing expressions over using regular expressions. The scope of this function has expanded
         # drastically.
 
@@ -357,7 +387,7 @@ class RecipeReader(IsModifiable):
             #   - Ensures the returned value is YAML-parsable
             elif self._schema_version == SchemaVersion.V0 and s[:2] == "{{":
                 s = f"${s}"
-        return cast(JsonType, yaml.load(s, Loader=SafeLoader))
+        return s
 
     def _init_vars_tbl(self) -> None:
         """
@@ -790,9 +820,10 @@ class RecipeReader(IsModifiable):
             if replace_variables:
                 return self._render_jinja_vars(value)
             return cast(JsonType, yaml.load(value, Loader=SafeLoader))
+        value = copy.deepcopy(cast(JsonType, node.value))
         if replace_variables:
-            return self._parse_yaml_recursive_sub(copy.deepcopy(cast(JsonType, node.value)), self._render_jinja_vars)
-        return copy.deepcopy(cast(JsonType, node.value))
+            return RecipeReader._parse_yaml_recursive_sub(value, self._render_jinja_vars_in_leaf)
+        return value
 
     @no_type_check
     def _render_object_tree(self, node: Node, replace_variables: bool, data: JsonType) -> None:
-- 
2.43.0


From 52978db8bb3ec1846836801598a947631e8d8c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:54 +0000
Subject: [PATCH 08/71] fix: rendering quotes collections on one line and
 strings with variables that would be read back as another value

---
 conda_recipe_manager/parser/_utils.py | 29 ++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 3810202..b0ea424 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -167,21 +167,24 @@ def quote_ambiguous_strings(
         descriptor is in use.
     :returns: YAML version of a value, as a string.
     """
-    # Multiline strings, JINJA statements and already quoted strings are left as-is.
-    if (
-        multiline_variant != MultilineVariant.NONE
-        or quoted != s
-        or "{{" in s
-        or Regex.JINJA_FUNCTION_MATCH.search(s)
-    ):
+    # Multiline strings, JINJA functions and already quoted strings are left as-is.
+    if multiline_variant != MultilineVariant.NONE or quoted != s or Regex.JINJA_FUNCTION_MATCH.search(s):
         return quoted
+    # JINJA substitutions don't have to be quoted, the text that surrounds them might have to be.
+    text = Regex.JINJA_V0_SUB.sub(RECIPE_MANAGER_SUB_MARKER, s)
     try:
         # The key ensures that we find issues with strings that are only valid YAML when they are on their own.
-        if yaml.load(f"key: {s}", Loader=SafeLoader) == {"key": s}:
+        if "{{" in text or yaml.load(f"key: {text}", Loader=SafeLoader) == {"key": text}:
             return s
     except yaml.YAMLError:
         pass
-    return json.dumps(s)
+    if text == s:
+        return json.dumps(s)
+    # Escape characters can't be used in JINJA substitutions
+    for quote in ('"', "'"):
+        if quote not in s and (quote == "'" or "\\" not in s):
+            return f"{quote}{s}{quote}"
+    return s
 
 
 def stringify_yaml(
@@ -210,6 +213,14 @@ def stringify_yaml(
     # Handle special string quote cases
     if isinstance(val, str):
         return quote_ambiguous_strings(quote_special_strings(val, multiline_variant), val, multiline_variant)
+    # Collections that are found on 1 line
+    if isinstance(val, (list, dict)):
+        try:
+            if yaml.load(str(val), Loader=SafeLoader) == val:
+                return str(val)
+        except yaml.YAMLError:
+            pass
+        return json.dumps(val, default=str)
     return val
 
 
-- 
2.43.0


From 5e9e3b36e83470cbd6ac413985d3d2bd4736a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:24 +0000
Subject: [PATCH 09/71] fix: keys without values and one-line objects in lists
 of objects

---
 conda_recipe_manager/parser/_node.py         | 12 +++++++++++
 conda_recipe_manager/parser/recipe_reader.py | 21 ++++++++++----------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/conda_recipe_manager/parser/_node.py b/conda_recipe_manager/parser/_node.py
index 1ea2666..4407033 100644
--- a/conda_recipe_manager/parser/_node.py
+++ b/conda_recipe_manager/parser/_node.py
@@ -165,3 +165,15 @@ class Node:
         :returns: True if the node represents an element that is a collection. False otherwise.
         """
         return self.value == Node._sentinel and self.list_member_flag and bool(self.children)
+
+    def is_first_collection_child(self, child: Node) -> bool:
+        """
+        Indicates if a node is the first key of a dictionary that is a member of a list. Such keys render on the same
+        line as the list marker.
+
+        :param child: Child of this node
+        :returns: True if the child is the first key found in this collection element. False otherwise.
+        """
+        if not self.is_collection_element():
+            return False
+        return next((c for c in self.children if not c.is_comment()), None) is child
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index ee15aea..6b31ee7 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -190,14 +190,15 @@ class RecipeReader(IsModifiable):
             # `PKG-3006` tracks an investigation effort into what we need to support for our purposes.
             if isinstance(output[0], dict):
                 # Build up the key-and-potentially-value pair nodes first
-                key_children: list[Node] = []
-                key = list(output[0].keys())[0]
-                if output[0][key] is not None:
-                    key_children.append(Node(cast(Primitives, output[0][key]), comment))
-                key_node = Node(key, comment, key_children, key_flag=True)
+                key_nodes: list[Node] = []
+                for key, value in output[0].items():
+                    key_children: list[Node] = []
+                    if value is not None:
+                        key_children.append(Node(cast(Primitives, value), comment))
+                    key_nodes.append(Node(key, comment, key_children, key_flag=True))
 
                 elem_node = Node(comment=comment, list_member_flag=True)
-                elem_node.children.append(key_node)
+                elem_node.children.extend(key_nodes)
                 return elem_node
             return Node(cast(Primitives, output[0]), comment, list_member_flag=True)
         # Other types are just leaf nodes. This is scenario should likely not be triggered given our recipe files don't
@@ -689,9 +690,7 @@ class RecipeReader(IsModifiable):
 
         # Edge case: The first element of dictionary in a list has a list `- ` prefix. Subsequent keys in the dictionary
         # just have a tab.
-        is_first_collection_child: Final[bool] = (
-            parent is not None and parent.is_collection_element() and node == parent.children[0]
-        )
+        is_first_collection_child: Final[bool] = parent is not None and parent.is_first_collection_child(node)
 
         # Handle same-line printing
         if node.is_single_key():
@@ -768,7 +767,9 @@ class RecipeReader(IsModifiable):
             # Empty keys can be easily confused for leaf nodes. The difference is these nodes render with a "dangling"
             # `:` mark
             elif child.is_empty_key():
-                lines.append(f"{spaces}{extra_tab}" f"{stringify_yaml(child.value)}:  " f"{child.comment}".rstrip())
+                # Edge case: The first key of a dictionary in a list. See the note on the list prefix above.
+                key_prefix = f"{spaces}- " if node.is_first_collection_child(child) else f"{spaces}{extra_tab}"
+                lines.append(f"{key_prefix}{stringify_yaml(child.value)}:  {child.comment}".rstrip())
             # Leaf nodes are rendered as members in a list
             elif child.is_leaf():
                 lines.append(f"{spaces}{extra_tab}- " f"{stringify_yaml(child.value)}  " f"{child.comment}".rstrip())
-- 
2.43.0


From 52b93a7456cc8b349e5a21273f438313301b4fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:30 +0000
Subject: [PATCH 10/71] fix: block scalars may be members of a list

---
 conda_recipe_manager/parser/_types.py        |  2 +-
 conda_recipe_manager/parser/recipe_reader.py | 29 +++++++++++++++-----
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index cdcd3d2..5f651b9 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -197,7 +197,7 @@ class Regex:
     SELECTOR: Final[re.Pattern[str]] = re.compile(r"\[.*\]")
     # Detects the 6 common variants (3 |'s, 3 >'s). See this guide for more info:
     #   https://stackoverflow.com/questions/3790454/how-do-i-break-a-string-in-yaml-over-multiple-lines/21699210
-    MULTILINE: Final[re.Pattern[str]] = re.compile(r"^\s*.*:\s+(\||>)(\+|\-)?(\s*|\s+#.*)$")
+    MULTILINE: Final[re.Pattern[str]] = re.compile(r"^\s*(?:.*:|-)\s+(\||>)(\+|\-)?(\s*|\s+#.*)$")
     # Group where the "variant" string is identified
     MULTILINE_VARIANT_CAPTURE_GROUP_CHAR: Final[int] = 1
     MULTILINE_VARIANT_CAPTURE_GROUP_SUFFIX: Final[int] = 2
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 6b31ee7..9fb5cdb 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -538,8 +538,12 @@ class RecipeReader(IsModifiable):
                 # The first line with text sets the indentation of the block. Indentation beyond that is content.
                 block_indent = next((num_tab_spaces(i) for i in captured if i), 0)
                 multiline_node.value.extend(i[block_indent:] for i in captured)
+                # Multi-line strings may be a member of a list, without a key
+                if clean_line.startswith(("- |", "- >")):
+                    multiline_node.list_member_flag = True
+                    new_node = multiline_node
                 # The previous level is the key to this multi-line value, so we can safely reset it.
-                if new_node.is_collection_element():
+                elif new_node.is_collection_element():
                     new_node.children[0].children = [multiline_node]
                 else:
                     new_node.children = [multiline_node]
@@ -674,6 +678,21 @@ class RecipeReader(IsModifiable):
         # TODO complete
         raise NotImplementedError
 
+    @staticmethod
+    def _render_list_member(node: Node, spaces: str, lines: list[str]) -> None:
+        """
+        Helper function that renders a leaf node that is a member of a list.
+
+        :param node: Leaf node to render
+        :param spaces: Indentation of the list
+        :param lines: Accumulated list of lines in the recipe file
+        """
+        if node.multiline_variant != MultilineVariant.NONE:
+            lines.append(f"{spaces}- {node.multiline_variant}")
+            lines.extend(f"{spaces}{TAB_AS_SPACES}{val_line}".rstrip() for val_line in cast(list[str], node.value))
+            return
+        lines.append(f"{spaces}- {stringify_yaml(node.value)}  {node.comment}".rstrip())
+
     @staticmethod
     def _render_tree(node: Node, depth: int, lines: list[str], parent: Optional[Node] = None) -> None:
         # pylint: disable=too-complex
@@ -700,11 +719,7 @@ class RecipeReader(IsModifiable):
                     lines.append(f"{TAB_AS_SPACES * (depth-1)}- {node.value}:  {node.comment}".rstrip())
                 else:
                     lines.append(f"{spaces}{node.value}:  {node.comment}".rstrip())
-                lines.append(
-                    f"{spaces}{TAB_AS_SPACES}- "
-                    f"{stringify_yaml(node.children[0].value, multiline_variant=node.children[0].multiline_variant)}  "
-                    f"{node.children[0].comment}".rstrip()
-                )
+                RecipeReader._render_list_member(node.children[0], f"{spaces}{TAB_AS_SPACES}", lines)
                 return
 
             # Handle multi-line statements. In theory this will probably only ever be strings, but we'll try to account
@@ -772,7 +787,7 @@ class RecipeReader(IsModifiable):
                 lines.append(f"{key_prefix}{stringify_yaml(child.value)}:  {child.comment}".rstrip())
             # Leaf nodes are rendered as members in a list
             elif child.is_leaf():
-                lines.append(f"{spaces}{extra_tab}- " f"{stringify_yaml(child.value)}  " f"{child.comment}".rstrip())
+                RecipeReader._render_list_member(child, f"{spaces}{extra_tab}", lines)
             else:
                 RecipeReader._render_tree(child, depth + depth_delta, lines, node)
             # By tradition, recipes have a blank line after every top-level section, unless they are a comment. Comments
-- 
2.43.0


From 0f4d1598ed3a94208f252f32f8091c61c175b3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:54 +0000
Subject: [PATCH 11/71] fix: paths are made of keys and indices, not of values

---
 conda_recipe_manager/parser/_traverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_traverse.py b/conda_recipe_manager/parser/_traverse.py
index f32167c..d888f2f 100644
--- a/conda_recipe_manager/parser/_traverse.py
+++ b/conda_recipe_manager/parser/_traverse.py
@@ -90,7 +90,7 @@ def _traverse_recurse(node: Node, path: StrStack) -> Optional[Node]:
 
     for child in node.children:
         # Remember: for nodes that represent part of the path, the "value" stored in the node is part of the path-name.
-        if child.value == path_part:
+        if child.key_flag and child.value == path_part:
             path.pop()
             return _traverse_recurse(child, path)
     # Path not found
-- 
2.43.0


From c649ab50561a3d6c228a83153b727185483265fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 12/71] fix: JSON patch operations follow RFC 6902 for lists,
 objects and failures

---
 conda_recipe_manager/parser/_node.py         |  10 ++
 conda_recipe_manager/parser/_types.py        |   5 +
 conda_recipe_manager/parser/recipe_parser.py | 171 +++++++++++++------
 conda_recipe_manager/parser/recipe_reader.py |  34 ++--
 4 files changed, 154 insertions(+), 66 deletions(-)

diff --git a/conda_recipe_manager/parser/_node.py b/conda_recipe_manager/parser/_node.py
index 4407033..ab1637e 100644
--- a/conda_recipe_manager/parser/_node.py
+++ b/conda_recipe_manager/parser/_node.py
@@ -177,3 +177,13 @@ class Node:
         if not self.is_collection_element():
             return False
         return next((c for c in self.children if not c.is_comment()), None) is child
+
+    def holds_value(self) -> bool:
+        """
+        Indicates if a node can't own other keys or list members, because it already points to a value.
+
+        :returns: True if the node points to a value. False otherwise.
+        """
+        if self.key_flag:
+            return self.is_single_key() and not self.children[0].key_flag and not self.children[0].list_member_flag
+        return self.is_leaf() and self.value != Node._sentinel
diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 5f651b9..05e8268 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -198,6 +198,11 @@ class Regex:
     # Detects the 6 common variants (3 |'s, 3 >'s). See this guide for more info:
     #   https://stackoverflow.com/questions/3790454/how-do-i-break-a-string-in-yaml-over-multiple-lines/21699210
     MULTILINE: Final[re.Pattern[str]] = re.compile(r"^\s*(?:.*:|-)\s+(\||>)(\+|\-)?(\s*|\s+#.*)$")
+    # Strings that can't be represented by these variants: the first line sets the indentation, trailing spaces are not
+    # preserved, and only one newline may be found at the end.
+    NOT_A_BLOCK_SCALAR: Final[re.Pattern[str]] = re.compile(
+        r"\A\s|[ \t]$|\n\n\Z|[^\n\t\x20-\x7e\xa0-\u2027\u202a-\ud7ff\ue000-\ufefe\uff00-\ufffd]", re.MULTILINE
+    )
     # Group where the "variant" string is identified
     MULTILINE_VARIANT_CAPTURE_GROUP_CHAR: Final[int] = 1
     MULTILINE_VARIANT_CAPTURE_GROUP_SUFFIX: Final[int] = 2
diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 19ce469..0e5c5d6 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -17,6 +17,7 @@
 
 from __future__ import annotations
 
+import copy
 import difflib
 import re
 from typing import Final, Optional, TypeGuard, cast
@@ -28,7 +29,6 @@ from conda_recipe_manager.parser._traverse import (
     INVALID_IDX,
     remap_child_indices_virt_to_phys,
     traverse,
-    traverse_with_index,
 )
 from conda_recipe_manager.parser._types import Regex, StrStack
 from conda_recipe_manager.parser._utils import str_to_stack_path
@@ -37,7 +37,7 @@ from conda_recipe_manager.parser.exceptions import JsonPatchValidationException
 from conda_recipe_manager.parser.recipe_reader import RecipeReader
 from conda_recipe_manager.parser.selector_parser import SelectorParser
 from conda_recipe_manager.parser.types import JSON_PATCH_SCHEMA
-from conda_recipe_manager.types import PRIMITIVES_TUPLE, JsonPatchType, JsonType
+from conda_recipe_manager.types import JsonPatchType, JsonType
 
 
 class RecipeParser(RecipeReader):
@@ -285,6 +285,55 @@ class RecipeParser(RecipeReader):
 
         return True
 
+    @staticmethod
+    def _find_patch_target(root: Node, path_stack: StrStack) -> tuple[Optional[Node], int, int]:
+        """
+        Finds the target node of a patch operation. If the path terminates in an index, the node that owns the list is
+        returned, so that the list can be edited.
+
+        :param root: Root of the parse tree
+        :param path_stack: Path that describes a location in the tree, as a list, treated like a stack.
+        :returns: A tuple containing the node (`None`, if not found), the VIRTUAL index, and the PHYSICAL index.
+        """
+        if len(path_stack) == 0 or not path_stack[0].isdigit():
+            return traverse(root, path_stack), INVALID_IDX, INVALID_IDX
+        # Ensures that there is a list with a member at that index
+        if traverse(root, path_stack.copy()) is None:
+            return None, INVALID_IDX, INVALID_IDX
+        virt_idx = int(path_stack.pop(0))
+        node = traverse(root, path_stack)
+        if node is None:
+            return None, INVALID_IDX, INVALID_IDX
+        return node, virt_idx, remap_child_indices_virt_to_phys(node.children)[virt_idx]
+
+    @staticmethod
+    def _generate_list_member(value: JsonType) -> Node:
+        """
+        Generates a node that can be added to a list.
+
+        :param value: Value to add to a list.
+        :returns: The equivalent node
+        """
+        return RecipeReader._generate_subtree([value])[0]
+
+    @staticmethod
+    def _replace_children(node: Node, value: JsonType) -> bool:
+        """
+        Replaces the value a node points to.
+
+        :param node: Node to modify
+        :param value: New value of the node.
+        :returns: True if the operation was successful. False otherwise.
+        """
+        # A recipe is always an object
+        if node.is_root() and (not isinstance(value, dict) or not value):
+            return False
+        node.children = RecipeReader._generate_subtree(value)
+        # The comment of a line that has been replaced is not kept
+        if node.is_single_key() and not node.children[0].list_member_flag:
+            node.comment = node.children[0].comment
+        return True
+
     def _patch_add_find_target(self, path_stack: StrStack) -> tuple[Optional[Node], int, int, str, bool]:
         """
         Finds the target node of an `add()` operation, along with some supporting information.
@@ -306,15 +355,31 @@ class RecipeParser(RecipeReader):
             path_stack.pop(0)
             append_to_list = True
 
+        # The end of the list may also be specified with an index.
+        elif path_stack[0].isdigit():
+            parent = traverse(self._root, path_stack[1:])
+            if parent is not None and int(path_stack[0]) == len(remap_child_indices_virt_to_phys(parent.children)):
+                path_stack.pop(0)
+                append_to_list = True
+
         path_stack_copy = path_stack.copy()
-        node, virt_idx, phys_idx = traverse_with_index(self._root, path_stack)
+        node, virt_idx, phys_idx = RecipeParser._find_patch_target(self._root, path_stack)
         # Attempt to run a second time, if no node is found. As per the RFC, the containing object/list must exist. That
         # allows us to create only 1 level in the path.
         path_to_create = ""
         # NOTE: Appending to a non-existent list is effectively adding a second level and disallowed by the RFC.
         if node is None and not append_to_list:
             path_to_create = path_stack_copy.pop(0)
-            node, virt_idx, phys_idx = traverse_with_index(self._root, path_stack_copy)
+            # Indices are not keys, so they can't be created.
+            if path_to_create.isdigit():
+                return None, INVALID_IDX, INVALID_IDX, "", False
+            node = traverse(self._root, path_stack_copy)
+
+        # New members must match the type of the collection they are added to.
+        if node is not None and (append_to_list or path_to_create):
+            members = [child for child in node.children if not child.is_comment()]
+            if any(child.list_member_flag != append_to_list for child in members) or node.holds_value():
+                return None, INVALID_IDX, INVALID_IDX, "", False
 
         return node, virt_idx, phys_idx, path_to_create, append_to_list
 
@@ -336,30 +401,19 @@ class RecipeParser(RecipeReader):
         if not RecipeParser._is_valid_patch_node(node, virt_idx):
             return False
 
-        # If we couldn't find 1 level in the path, ensure that we re-insert that as the "root" of the sub-tree we are
-        # about to create.
-        if path_to_create:
-            value = {path_to_create: value}
-
-        new_children: list[Node] = RecipeReader._generate_subtree(value)
-        # Mark children as list members if they are list members
-        if append_to_list or phys_idx > INVALID_IDX:
-            # Adding an object to a list requires the children to be wrapped in a collection node
-            if not isinstance(value, PRIMITIVES_TUPLE):
-                new_children = [Node(list_member_flag=True, children=new_children)]
-            else:
-                for child in new_children:
-                    child.list_member_flag = True
-
         # Insert members if an index is specified. Otherwise, extend the list of child nodes from the existing list.
         if phys_idx > INVALID_IDX:
-            node.children[phys_idx:phys_idx] = new_children
+            node.children.insert(phys_idx, RecipeParser._generate_list_member(value))
         # Extend the list of children if we're appending or adding a new key.
-        elif append_to_list or path_to_create:
-            node.children.extend(new_children)
+        elif append_to_list:
+            node.children.append(RecipeParser._generate_list_member(value))
+        # If we couldn't find 1 level in the path, ensure that we re-insert that as the "root" of the sub-tree we are
+        # about to create.
+        elif path_to_create:
+            node.children.extend(RecipeReader._generate_subtree({path_to_create: value}))
         # NOTE from the RFC: "If the member already exists, it is replaced by the specified value."
         else:
-            node.children = new_children
+            return RecipeParser._replace_children(node, value)
 
         return True
 
@@ -393,8 +447,12 @@ class RecipeParser(RecipeReader):
 
         # In all other cases, the node to be removed must be found before eviction
         for i in range(len(node.children)):
-            if node.children[i] == node_to_rm:
+            if node.children[i] is node_to_rm:
                 node.children.pop(i)
+                # A list member that loses all of its keys is still a member of the list
+                if node.list_member_flag and all(child.is_comment() for child in node.children):
+                    node.value = {}
+                    node.children = []
                 return True
         return False
 
@@ -406,29 +464,18 @@ class RecipeParser(RecipeReader):
         :param value: Value to update with.
         :returns: True if the operation was successful. False otherwise.
         """
-        node, virt_idx, phys_idx = traverse_with_index(self._root, path_stack)
+        node, virt_idx, phys_idx = RecipeParser._find_patch_target(self._root, path_stack)
         if not RecipeParser._is_valid_patch_node(node, virt_idx):
             return False
 
-        new_children: list[Node] = RecipeReader._generate_subtree(value)
-        # Lists inject all children at the target position.
+        # Replace the member at the target position.
         if phys_idx > INVALID_IDX:
-            # Adding an object to a list requires the children to be wrapped in a collection node
-            if not isinstance(value, PRIMITIVES_TUPLE):
-                new_children = [Node(list_member_flag=True, children=new_children)]
-            else:
-                # Ensure all children are marked as list members
-                for child in new_children:
-                    child.list_member_flag = True
-            node.children[phys_idx:phys_idx] = new_children
-            # Evict the old child, which is now behind the new children
-            node.children.pop(phys_idx + len(new_children))
+            node.children[phys_idx] = RecipeParser._generate_list_member(value)
             return True
 
         # Leafs that represent values/paths of values can evict all children, and be replaced with new children, derived
         # from a new tree of values.
-        node.children = new_children
-        return True
+        return RecipeParser._replace_children(node, value)
 
     def _patch_move(self, path_stack: StrStack, value_from: str) -> bool:
         """
@@ -442,18 +489,23 @@ class RecipeParser(RecipeReader):
         #   This operation is functionally identical to a "remove" operation on the "from" location, followed
         #   immediately by an "add" operation at the target location with the value that was just removed.
         # So to save on development and maintenance, that is how this op is written.
-        original_value: JsonType
-        try:
-            original_value = self.get_value(value_from)
-        except KeyError:
+        node_from = traverse(self._root, str_to_stack_path(value_from))
+        if node_from is None:
             return False
+        original_value: Final[JsonType] = self._render_node_value(node_from, False)
 
         # Validate that `add` will succeed before we `remove` anything
         node, virt_idx, _, _, _ = self._patch_add_find_target(path_stack.copy())
         if not RecipeParser._is_valid_patch_node(node, virt_idx):
             return False
 
-        return self._patch_remove(str_to_stack_path(value_from)) and self._patch_add(path_stack, original_value)
+        # Removing the value may invalidate the target location, so we work on a copy until both operations succeed.
+        original_root: Final[Node] = self._root
+        self._root = copy.deepcopy(original_root)
+        if self._patch_remove(str_to_stack_path(value_from)) and self._patch_add(path_stack, original_value):
+            return True
+        self._root = original_root
+        return False
 
     def _patch_copy(self, path_stack: StrStack, value_from: str) -> bool:
         """
@@ -467,13 +519,26 @@ class RecipeParser(RecipeReader):
         #   This operation is functionally identical to an "add" operation at the target location using the value
         #   specified in the "from" member.
         # So to save on development and maintenance, that is how this op is written.
-        original_value: JsonType
-        try:
-            original_value = self.get_value(value_from)
-        except KeyError:
+        node_from = traverse(self._root, str_to_stack_path(value_from))
+        if node_from is None:
             return False
 
-        return self._patch_add(path_stack, original_value)
+        return self._patch_add(path_stack, self._render_node_value(node_from, False))
+
+    @staticmethod
+    def _is_equal(lhs: JsonType, rhs: JsonType) -> bool:
+        """
+        Compares two JSON values. Unlike Python, JSON does not consider `True` and `1` to be equal.
+
+        :param lhs: First value
+        :param rhs: Second value
+        :returns: True if both values are the same. False otherwise.
+        """
+        if isinstance(lhs, dict) and isinstance(rhs, dict):
+            return lhs.keys() == rhs.keys() and all(RecipeParser._is_equal(lhs[key], rhs[key]) for key in lhs)
+        if isinstance(lhs, list) and isinstance(rhs, list):
+            return len(lhs) == len(rhs) and all(map(RecipeParser._is_equal, lhs, rhs))
+        return isinstance(lhs, bool) == isinstance(rhs, bool) and lhs == rhs
 
     def _patch_test(self, path: str, value: JsonType) -> bool:
         """
@@ -483,11 +548,11 @@ class RecipeParser(RecipeReader):
         :param value: Value to evaluate against.
         :returns: True if the target value is equal to the provided value. False otherwise.
         """
-        try:
-            return self.get_value(path) == value
-        except KeyError:
-            # Path not found
+        node = traverse(self._root, str_to_stack_path(path))
+        # Path not found
+        if node is None:
             return False
+        return RecipeParser._is_equal(self._render_node_value(node, False), value)
 
     def _call_patch_op(self, op: str, path: str, patch: JsonPatchType) -> bool:
         """
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 9fb5cdb..bb03d70 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -22,7 +22,6 @@ from conda_recipe_manager.parser._traverse import traverse, traverse_all
 from conda_recipe_manager.parser._types import (
     RECIPE_MANAGER_SUB_MARKER,
     ROOT_NODE_VALUE,
-    ForceIndentDumper,
     Regex,
     StrStack,
 )
@@ -212,7 +211,7 @@ class RecipeReader(IsModifiable):
         creates a new subtree that can be used to patch other parse trees.
         """
         # Multiline values can replace the list of children with a single multiline leaf node.
-        if isinstance(value, str) and "\n" in value:
+        if isinstance(value, str) and "\n" in value and not Regex.NOT_A_BLOCK_SCALAR.search(value):
             return [
                 Node(
                     value=value.splitlines(),
@@ -222,17 +221,26 @@ class RecipeReader(IsModifiable):
                 )
             ]
 
-        # For complex types, generate the YAML equivalent and build a new tree.
-        if not isinstance(value, PRIMITIVES_TUPLE):
-            # Although not technically required by YAML, we add the optional spacing for human readability.
-            return RecipeReader(  # pylint: disable=protected-access
-                # NOTE: `yaml.dump()` defaults to 80 character lines. Longer lines may have newlines unexpectedly
-                #       injected into this value, screwing up the parse-tree.
-                yaml.dump(value, Dumper=ForceIndentDumper, sort_keys=False, width=sys.maxsize)  # type: ignore[misc]
-            )._root.children
-
-        # Primitives can be safely stringified to generate a parse tree.
-        return RecipeReader(str(stringify_yaml(value)))._root.children  # pylint: disable=protected-access
+        # For complex types, each member is the root of a new subtree.
+        if isinstance(value, dict) and value:
+            return [
+                # If a member is `None`, there is no leaf node to set
+                Node(key, children=None if member is None else RecipeReader._generate_subtree(member), key_flag=True)
+                for key, member in value.items()
+            ]
+        if isinstance(value, list) and value:
+            members: list[Node] = []
+            for member in value:
+                if isinstance(member, dict) and member:
+                    members.append(Node(children=RecipeReader._generate_subtree(member), list_member_flag=True))
+                    continue
+                # Lists in lists are found on 1 line
+                node = Node(member) if isinstance(member, list) else RecipeReader._generate_subtree(member)[0]
+                node.list_member_flag = True
+                members.append(node)
+            return members
+
+        return [Node(cast(Primitives, value))]
 
     def _set_on_schema_version(self) -> tuple[int, re.Pattern[str]]:
         """
-- 
2.43.0


From 8584c4c270d6e25ffbeea16ba09feb1357b98384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 13/71] fix: a key whose only member is a key without a value
 is not rendered as a value

---
 conda_recipe_manager/parser/_node.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/_node.py b/conda_recipe_manager/parser/_node.py
index ab1637e..bf4eeeb 100644
--- a/conda_recipe_manager/parser/_node.py
+++ b/conda_recipe_manager/parser/_node.py
@@ -155,7 +155,12 @@ class Node:
 
         :returns: True if the node represents a single key. False otherwise.
         """
-        return self.key_flag and len(self.children) == 1 and self.children[0].is_leaf()
+        return (
+            self.key_flag
+            and len(self.children) == 1
+            and self.children[0].is_leaf()
+            and not self.children[0].is_empty_key()
+        )
 
     def is_collection_element(self) -> bool:
         """
@@ -185,5 +190,5 @@ class Node:
         :returns: True if the node points to a value. False otherwise.
         """
         if self.key_flag:
-            return self.is_single_key() and not self.children[0].key_flag and not self.children[0].list_member_flag
+            return self.is_single_key() and not self.children[0].list_member_flag
         return self.is_leaf() and self.value != Node._sentinel
-- 
2.43.0


From 5423abe704aeb192af8f8c96929a8bb9b0e885e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:37 +0000
Subject: [PATCH 14/71] fix: appending below a list member does not append to
 the list

---
 conda_recipe_manager/parser/recipe_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 0e5c5d6..2062f2e 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -363,7 +363,12 @@ class RecipeParser(RecipeReader):
                 append_to_list = True
 
         path_stack_copy = path_stack.copy()
-        node, virt_idx, phys_idx = RecipeParser._find_patch_target(self._root, path_stack)
+        node: Optional[Node]
+        virt_idx, phys_idx = INVALID_IDX, INVALID_IDX
+        if append_to_list:
+            node = traverse(self._root, path_stack)
+        else:
+            node, virt_idx, phys_idx = RecipeParser._find_patch_target(self._root, path_stack)
         # Attempt to run a second time, if no node is found. As per the RFC, the containing object/list must exist. That
         # allows us to create only 1 level in the path.
         path_to_create = ""
-- 
2.43.0


From 73c0a180c84e2d97e9cb0d6ec4a0232a7cee1371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:13 +0000
Subject: [PATCH 15/71] fix: a value can't be moved into one of its own
 children

---
 conda_recipe_manager/parser/recipe_parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 2062f2e..b294b71 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -494,7 +494,11 @@ class RecipeParser(RecipeReader):
         #   This operation is functionally identical to a "remove" operation on the "from" location, followed
         #   immediately by an "add" operation at the target location with the value that was just removed.
         # So to save on development and maintenance, that is how this op is written.
-        node_from = traverse(self._root, str_to_stack_path(value_from))
+        path_from: Final[StrStack] = str_to_stack_path(value_from)
+        # As per the RFC, a location can't be moved into one of its children.
+        if len(path_from) < len(path_stack) and path_stack[-len(path_from) :] == path_from:
+            return False
+        node_from = traverse(self._root, path_from.copy())
         if node_from is None:
             return False
         original_value: Final[JsonType] = self._render_node_value(node_from, False)
@@ -507,7 +511,7 @@ class RecipeParser(RecipeReader):
         # Removing the value may invalidate the target location, so we work on a copy until both operations succeed.
         original_root: Final[Node] = self._root
         self._root = copy.deepcopy(original_root)
-        if self._patch_remove(str_to_stack_path(value_from)) and self._patch_add(path_stack, original_value):
+        if self._patch_remove(path_from) and self._patch_add(path_stack, original_value):
             return True
         self._root = original_root
         return False
-- 
2.43.0


From 2926b0e5723a232bc92782d1a3c1db18fe76596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:07 +0000
Subject: [PATCH 16/71] fix: variable references are found by whole name and in
 block scalars

---
 conda_recipe_manager/parser/_types.py        |  3 ++
 conda_recipe_manager/parser/recipe_reader.py | 32 ++++++++++++--------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 05e8268..cb7305b 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -174,6 +174,9 @@ class Regex:
 
     JINJA_V1_SUB: Final[re.Pattern[str]] = re.compile(r"\${{\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*}}")
 
+    # String literals in a JINJA expression
+    JINJA_QUOTED_STRING: Final[re.Pattern[str]] = re.compile(r"'[^']*'|\"[^\"]*\"")
+
     # All recognized JINJA functions are kept in a set for the convenience of trying to match against all of them.
     # Group 1 contains the function or variable name, Group 2 contains the arguments, if any.
     JINJA_FUNCTION_LOWER: Final[re.Pattern[str]] = re.compile(r"\|\s*(lower)")
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index bb03d70..699c2d7 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -417,7 +417,10 @@ class RecipeReader(IsModifiable):
                     except Exception:  # pylint: disable=broad-exception-caught
                         self._vars_tbl[key] = value
             case SchemaVersion.V1:
-                self._vars_tbl = cast(dict[str, JsonType], self.get_value("/context", {}))
+                context = self.get_value("/context", {})
+                # An empty section does not contain variables
+                if isinstance(context, dict):
+                    self._vars_tbl = context
 
     def _rebuild_selectors(self) -> None:
         """
@@ -1189,20 +1192,23 @@ class RecipeReader(IsModifiable):
 
         path_list: list[str] = []
 
-        # The regular expression between the braces is very forgiving to match JINJA expressions like
-        # `{{ name | lower }}`
-        def _init_re() -> re.Pattern[str]:
-            match self._schema_version:
-                case SchemaVersion.V0:
-                    return re.compile(r"{{.*" + var + r".*}}")
-                case SchemaVersion.V1:
-                    return re.compile(r"\${{.*" + var + r".*}}")
-
-        var_re: Final[re.Pattern[str]] = _init_re()
+        # Matches the name of the variable in a JINJA expression, like `{{ name | lower }}`. Text found in quotes, names
+        # of other variables, and attributes do not refer to the variable.
+        var_re: Final[re.Pattern[str]] = re.compile(rf"(?<![\w.]){re.escape(var)}(?!\w)")
+        # The regular expression between the braces is very forgiving to match any JINJA expression.
+        sub_re: Final[re.Pattern[str]] = re.compile(
+            r"{{.*?}}" if self._schema_version == SchemaVersion.V0 else r"\${{.*?}}"
+        )
+
+        def _is_reference(s: str) -> bool:
+            return any(
+                var_re.search(Regex.JINJA_QUOTED_STRING.sub("", match)) for match in cast(list[str], sub_re.findall(s))
+            )
 
         def _collect_var_refs(node: Node, path: StrStack) -> None:
-            # Variables can only be found inside string values.
-            if isinstance(node.value, str) and var_re.search(node.value):
+            # Variables can only be found inside string values, which may span multiple lines.
+            lines = node.value if node.multiline_variant != MultilineVariant.NONE else [node.value]
+            if any(isinstance(line, str) and _is_reference(line) for line in cast(list[JsonType], lines)):
                 path_list.append(stack_path_to_str(path))
 
         traverse_all(self._root, _collect_var_refs)
-- 
2.43.0


From cf305ab62f2e0631a66397a50d99fb1a48b10546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:07 +0000
Subject: [PATCH 17/71] fix: editing the variables of a V1 recipe edits its
 context section

---
 conda_recipe_manager/parser/recipe_parser.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index b294b71..15e0b1f 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -32,7 +32,7 @@ from conda_recipe_manager.parser._traverse import (
 )
 from conda_recipe_manager.parser._types import Regex, StrStack
 from conda_recipe_manager.parser._utils import str_to_stack_path
-from conda_recipe_manager.parser.enums import SelectorConflictMode
+from conda_recipe_manager.parser.enums import SchemaVersion, SelectorConflictMode
 from conda_recipe_manager.parser.exceptions import JsonPatchValidationException
 from conda_recipe_manager.parser.recipe_reader import RecipeReader
 from conda_recipe_manager.parser.selector_parser import SelectorParser
@@ -104,6 +104,13 @@ class RecipeParser(RecipeReader):
         """
         self._vars_tbl[var] = value
         self._is_modified = True
+        # V1 recipes store their variables in the parse tree
+        if self._schema_version == SchemaVersion.V1:
+            if self.get_value("/context", None) is None:
+                self._patch_add(str_to_stack_path("/context"), {var: value})
+            else:
+                self._patch_add(str_to_stack_path(f"/context/{var}"), value)
+            self._rebuild_selectors()
 
     def del_variable(self, var: str) -> None:
         """
@@ -115,6 +122,10 @@ class RecipeParser(RecipeReader):
             return
         del self._vars_tbl[var]
         self._is_modified = True
+        # V1 recipes store their variables in the parse tree
+        if self._schema_version == SchemaVersion.V1:
+            self._patch_remove(str_to_stack_path(f"/context/{var}"))
+            self._rebuild_selectors()
 
     ## Selector Editing Functions ##
     def add_selector(
@@ -632,6 +643,9 @@ class RecipeParser(RecipeReader):
 
         # Update the selector table and modified flag, if the operation succeeded.
         if is_successful and op != "test":
+            # V1 recipes store their variables in the parse tree
+            if self._schema_version == SchemaVersion.V1:
+                self._init_vars_tbl()
             # TODO this is not the most efficient way to update the selector table, but for now, it works.
             self._rebuild_selectors()
             # TODO technically this doesn't handle a no-op.
-- 
2.43.0


From cb0d08d18672e79a5c886da055214c7c3d5f31d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:00 +0000
Subject: [PATCH 18/71] fix: empty objects in lists, and keys are not values
 when searching

---
 conda_recipe_manager/parser/recipe_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 699c2d7..3af19a7 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -187,7 +187,7 @@ class RecipeReader(IsModifiable):
             # multi-output recipe files so we need to support the scenario here.
             #
             # `PKG-3006` tracks an investigation effort into what we need to support for our purposes.
-            if isinstance(output[0], dict):
+            if isinstance(output[0], dict) and output[0]:
                 # Build up the key-and-potentially-value pair nodes first
                 key_nodes: list[Node] = []
                 for key, value in output[0].items():
@@ -1347,6 +1347,9 @@ class RecipeReader(IsModifiable):
         paths: list[str] = []
 
         def _search_paths(node: Node, path_stack: StrStack) -> None:
+            # Keys are not values
+            if node.is_empty_key():
+                return
             value = str(stringify_yaml(node.value))
             if include_comment and node.comment:
                 value = f"{value}{TAB_AS_SPACES}{node.comment}"
-- 
2.43.0


From 377d1ecdded06c8599014da9258038d5d53e7b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:54 +0000
Subject: [PATCH 19/71] fix: selectors follow operator precedence, parentheses
 and multi-word operands

---
 .../parser/selector_parser.py                 | 60 +++++++++++++++++--
 1 file changed, 56 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/parser/selector_parser.py b/conda_recipe_manager/parser/selector_parser.py
index e2ba136..6365f39 100644
--- a/conda_recipe_manager/parser/selector_parser.py
+++ b/conda_recipe_manager/parser/selector_parser.py
@@ -25,6 +25,9 @@ from conda_recipe_manager.parser.selector_query import SelectorQuery
 # A selector is comprised of known operators and special types, or (in V0 recipes) arbitrary Python strings
 SelectorValue = LogicOp | PlatformQualifiers | str
 
+# Order in which operators are evaluated. Larger values are evaluated first.
+_OP_PRECEDENCE: Final[dict[SelectorValue, int]] = {LogicOp.OR: 1, LogicOp.AND: 2, LogicOp.NOT: 3}
+
 
 class _SelectorNode:
     """
@@ -106,6 +109,42 @@ class SelectorParser(IsModifiable):
                 cur.l_node = SelectorParser._process_postfix_stack(stack)
         return cur
 
+    @staticmethod
+    def _tokenize(content: str) -> list[str]:
+        """
+        Splits a selector into operators, parenthesis, and operands. Operands that are not supported by this parser may
+        be arbitrary expressions, like `py >= 38`.
+
+        :param content: Selector string to split
+        :returns: List of tokens
+        """
+        tokens: list[str] = []
+        is_operand = False
+        for word in content.split():
+            # Parenthesis that belong to an expression, like `environ.get("foo")`, are part of that operand.
+            stripped = word.lstrip("(")
+            opening = len(word) - len(stripped)
+            word = stripped
+            closing = 0
+            while word.endswith(")") and word.count(")") > word.count("("):
+                word = word[:-1]
+                closing += 1
+
+            if opening:
+                tokens.extend("(" * opening)
+                is_operand = False
+            if word:
+                is_operator = word.lower() in ALL_LOGIC_OPS
+                if is_operand and not is_operator:
+                    tokens[-1] += f" {word}"
+                else:
+                    tokens.append(word)
+                is_operand = not is_operator
+            if closing:
+                tokens.extend(")" * closing)
+                is_operand = False
+        return tokens
+
     @staticmethod
     def _parse_selector_tree(tokens: list[str]) -> Optional[_SelectorNode]:
         """
@@ -120,19 +159,32 @@ class SelectorParser(IsModifiable):
         postfix_stack: list[_SelectorNode] = []
         while tokens:
             node = _SelectorNode(tokens.pop(0))
+            if node.value == "(":
+                op_stack.append(node)
+                continue
+            if node.value == ")":
+                while op_stack and op_stack[-1].value != "(":
+                    postfix_stack.append(op_stack.pop())
+                if op_stack:
+                    op_stack.pop()
+                continue
             if node.is_logical_op():
-                # `NOT` has the highest precedence. For example:
+                # Operators follow the precedence rules used by Python. `NOT` has the highest precedence. For example:
                 #   - `not osx and win` is interpreted as `(not osx) and win`
                 #   - In Python, `not True or True` is interpreted as `(not True) or True`, returning `True`
+                #   - `osx or win and x86` is interpreted as `osx or (win and x86)`
                 if node.value != LogicOp.NOT:
-                    while op_stack and op_stack[-1].value == LogicOp.NOT:
+                    while op_stack and _OP_PRECEDENCE.get(op_stack[-1].value, 0) >= _OP_PRECEDENCE[node.value]:
                         postfix_stack.append(op_stack.pop())
                 op_stack.append(node)
                 continue
             postfix_stack.append(node)
 
         while op_stack:
-            postfix_stack.append(op_stack.pop())
+            op = op_stack.pop()
+            # Ignore parenthesis that are not closed
+            if op.is_logical_op():
+                postfix_stack.append(op)
 
         root = SelectorParser._process_postfix_stack(postfix_stack)
 
@@ -157,7 +209,7 @@ class SelectorParser(IsModifiable):
 
         self._content: Final[str] = _init_content()
 
-        self._root = SelectorParser._parse_selector_tree(self._content.split())
+        self._root = SelectorParser._parse_selector_tree(SelectorParser._tokenize(self._content))
 
     def __str__(self) -> str:
         """
-- 
2.43.0


From 282775fcfc05022be6d31243fd5552d39f71c6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:54 +0000
Subject: [PATCH 20/71] fix: and-ing a selector groups or-expressions

---
 conda_recipe_manager/parser/recipe_parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 15e0b1f..1f8eea7 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -158,6 +158,11 @@ class RecipeParser(RecipeReader):
         def _extract_selector(s: str) -> str:
             return s.replace("[", "", 1)[::-1].replace("]", "", 1)[::-1]
 
+        # Helper function that prevents operators from binding to the other selector
+        def _group_selector(s: str) -> str:
+            is_grouped = mode == SelectorConflictMode.AND and re.search(r"\bor\b", s)
+            return f"({s})" if is_grouped else s
+
         comment = ""
         old_selector_found = Regex.SELECTOR.search(node.comment)
         if node.comment == "" or mode == SelectorConflictMode.REPLACE:
@@ -165,8 +170,8 @@ class RecipeParser(RecipeReader):
         # "Append" to existing selectors
         elif old_selector_found:
             logic_op = "and" if mode == SelectorConflictMode.AND else "or"
-            old_selector = _extract_selector(old_selector_found.group())
-            new_selector = _extract_selector(selector)
+            old_selector = _group_selector(_extract_selector(old_selector_found.group()))
+            new_selector = _group_selector(_extract_selector(selector))
             comment = f"# [{old_selector} {logic_op} {new_selector}]"
         # If the comment is not a selector, put the selector first, then append the comment.
         else:
-- 
2.43.0


From 1bdcd4799445069f4ba6384043a100e89c212d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:53 +0000
Subject: [PATCH 21/71] fix: an HTTP error response is not fetched as an
 artifact

---
 conda_recipe_manager/fetcher/http_artifact_fetcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/fetcher/http_artifact_fetcher.py b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
index 2473478..bab1ffb 100644
--- a/conda_recipe_manager/fetcher/http_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
@@ -96,6 +96,9 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
         # Buffered download approach
         try:
             response = requests.get(str(self._archive_url), stream=True, timeout=_DOWNLOAD_TIMEOUT)
+            # The body of an error response is not the artifact.
+            if response.status_code // 100 != 2:
+                raise requests.exceptions.HTTPError(f"Unexpected HTTP status code: {response.status_code}")
             with open(self._archive_path, "wb") as archive:
                 for chunk in cast(Iterator[bytes], response.iter_content(chunk_size=1024)):
                     if not chunk:
-- 
2.43.0


From fe3768ae332cb253861a7dfb400c7dae65038d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:21 +0000
Subject: [PATCH 22/71] fix: archives that are truncated, corrupt or encrypted
 raise a FetchError

---
 .../fetcher/http_artifact_fetcher.py             | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/http_artifact_fetcher.py b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
index bab1ffb..0bb1846 100644
--- a/conda_recipe_manager/fetcher/http_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/http_artifact_fetcher.py
@@ -4,8 +4,10 @@
 
 from __future__ import annotations
 
+import lzma
 import tarfile
 import zipfile
+import zlib
 from enum import Enum, auto
 from pathlib import Path
 from typing import Final, Iterator, cast
@@ -20,6 +22,18 @@ from conda_recipe_manager.utils.cryptography.hashing import hash_file
 # Default download timeout for artifacts
 _DOWNLOAD_TIMEOUT: Final[int] = 5 * 60  # 5 minutes
 
+# Exceptions that the standard library raises when an archive is truncated, corrupt, encrypted, or uses a compression
+# method that is not available.
+_EXTRACTION_ERRORS: Final[tuple[type[Exception], ...]] = (
+    tarfile.TarError,
+    zipfile.BadZipFile,
+    EOFError,
+    RuntimeError,
+    ValueError,
+    lzma.LZMAError,
+    zlib.error,
+)
+
 
 class ArtifactArchiveType(Enum):
     """
@@ -82,7 +96,7 @@ class HttpArtifactFetcher(BaseArtifactFetcher):
                 # TODO 7-zip support
                 case _:
                     raise FetchError("The archive type could not be identified.")
-        except (tarfile.TarError, zipfile.BadZipFile, ValueError) as e:
+        except _EXTRACTION_ERRORS as e:
             raise FetchError("An extraction error occurred while extracting the archive.") from e
         except IOError as e:
             raise FetchError("A file system error occurred while extracting the archive.") from e
-- 
2.43.0


From 83da46c76829741b1b3089f54f5e5deaea3a4a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:37 +0000
Subject: [PATCH 23/71] fix: git sources are checked out at the requested tag
 or revision

---
 conda_recipe_manager/fetcher/git_artifact_fetcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/git_artifact_fetcher.py b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
index 2aa3c70..7f26a0c 100644
--- a/conda_recipe_manager/fetcher/git_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
@@ -104,7 +104,8 @@ class GitArtifactFetcher(BaseArtifactFetcher):
         git_target: Final[Optional[str]] = self._resolve_checkout_target()
         if git_target:
             try:
-                repo.git.checkout(self._git_target.branch, force=True)
+                # The trailing `--` prevents the target from being interpreted as the path to a file.
+                repo.git.checkout(git_target, "--", force=True)
             except git_exceptions.GitError as e:
                 raise FetchError(f"Failed to git checkout target: {git_target}") from e
 
-- 
2.43.0


From 3c2a9dc69038e80f5d3f93403154d92fc5459964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:37 +0000
Subject: [PATCH 24/71] fix: git sources can be fetched from a local path

---
 conda_recipe_manager/fetcher/git_artifact_fetcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/git_artifact_fetcher.py b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
index 7f26a0c..138e790 100644
--- a/conda_recipe_manager/fetcher/git_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
@@ -65,7 +65,8 @@ class GitArtifactFetcher(BaseArtifactFetcher):
             case True:
                 return Repo.clone_from(self._git_target.url, self._temp_dir_path)  # type: ignore[misc]
             case False:
-                shutil.copytree(self._git_target.url, self._temp_dir_path)
+                # The temporary directory always exists at this point.
+                shutil.copytree(self._git_target.url, self._temp_dir_path, symlinks=True, dirs_exist_ok=True)
                 return Repo(self._temp_dir_path)
 
     def _resolve_checkout_target(self) -> Optional[str]:
-- 
2.43.0


From b27b7354c116c2781064b2d31ba67c97adf9b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:19 +0000
Subject: [PATCH 25/71] fix: bumping to a new version always resets the build
 number

---
 conda_recipe_manager/commands/bump_recipe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/commands/bump_recipe.py b/conda_recipe_manager/commands/bump_recipe.py
index a92a213..d897d54 100644
--- a/conda_recipe_manager/commands/bump_recipe.py
+++ b/conda_recipe_manager/commands/bump_recipe.py
@@ -388,7 +388,7 @@ def bump_recipe(
         sys.exit(ExitCode.PARSE_EXCEPTION)
 
     # Attempt to update fields
-    _update_build_num(recipe_parser, build_num)
+    _update_build_num(recipe_parser, build_num and target_version is None)
 
     # NOTE: We check if `target_version` is specified to perform a "full bump" for type checking reasons. Also note that
     # the `build_num` flag is invalidated if we are bumping to a new version. The build number must be reset to 0 in
-- 
2.43.0


From 45d33a45eeda6e3c383f89f064cf34a115938e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:35 +0000
Subject: [PATCH 26/71] fix: official license names are recognized even if they
 contain the name of an operator

---
 conda_recipe_manager/licenses/spdx_utils.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/licenses/spdx_utils.py b/conda_recipe_manager/licenses/spdx_utils.py
index ab2969b..03f9bc7 100644
--- a/conda_recipe_manager/licenses/spdx_utils.py
+++ b/conda_recipe_manager/licenses/spdx_utils.py
@@ -10,6 +10,7 @@ from __future__ import annotations
 
 import difflib
 import json
+import re
 from importlib.resources import files
 from importlib.resources.abc import Traversable
 from typing import Final, Optional, cast
@@ -73,14 +74,17 @@ class SpdxUtils:
         # Short-circuit on perfect matches
         if license_field in self._license_ids:
             return license_field
+        if license_field in self._license_matching_table:
+            return self._license_matching_table[license_field]
 
         sanitized_license = license_field.strip().upper()
 
         # TODO: Improve this logic to support SPDX expressions.
         # Don't simplify compound licenses that might get accidentally simplified
-        for op in SPDX_EXPRESSION_OPS:
-            if op in sanitized_license:
-                return None
+        # NOTE: Operators are whole words. Words like "STANDARD" may contain the name of an operator.
+        words: Final[set[str]] = set(re.split(r"[^A-Z0-9.+-]+", sanitized_license))
+        if words & SPDX_EXPRESSION_OPS:
+            return None
         if "," in sanitized_license:
             return None
 
-- 
2.43.0


From e173c2cb0429900c8f04197a6a9fd4119fa4b0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:04 +0000
Subject: [PATCH 27/71] fix: bulk builds pass arguments to rattler-build
 unchanged and survive undecodable output

---
 conda_recipe_manager/commands/rattler_bulk_build.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/commands/rattler_bulk_build.py b/conda_recipe_manager/commands/rattler_bulk_build.py
index f51e44d..306eef9 100644
--- a/conda_recipe_manager/commands/rattler_bulk_build.py
+++ b/conda_recipe_manager/commands/rattler_bulk_build.py
@@ -53,13 +53,18 @@ def build_recipe(file: Path, path: Path, args: list[str]) -> tuple[str, BuildRes
     cmd.extend(args)
     try:
         output: Final[subprocess.CompletedProcess[str]] = subprocess.run(
-            " ".join(cmd),
+            cmd,
             encoding="utf-8",
+            errors="replace",
             capture_output=True,
-            shell=True,
             check=False,
             timeout=DEFAULT_RATTLER_BUILD_TIMEOUT,
         )
+    except OSError as e:
+        return str(file.relative_to(path)), BuildResult(
+            code=ExitCode.IO_ERROR,
+            errors=[f"Error: {e}"],
+        )
     except subprocess.TimeoutExpired:
         return str(file.relative_to(path)), BuildResult(
             code=ExitCode.TIMEOUT,
-- 
2.43.0


From d6dcf77a3bb6a893b9c34b20661d00fd49b8eabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:04 +0000
Subject: [PATCH 28/71] fix: relative imports are not dependencies and source
 files are decoded the way Python does

---
 conda_recipe_manager/scanner/dependency/py_dep_scanner.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
index b860230..41e8d37 100644
--- a/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/py_dep_scanner.py
@@ -96,7 +96,8 @@ class PythonDependencyScanner(BaseDependencyScanner):
         project_modules: Final[set[str]] = self._get_project_modules()
         # Adapted from:
         #   https://stackoverflow.com/questions/9008451/python-easy-way-to-read-all-import-statements-from-py-module
-        root = ast.parse(file.read_text(), file)
+        # NOTE: Python determines the encoding of source code from its bytes.
+        root = ast.parse(file.read_bytes(), file)
 
         for node in ast.walk(root):
             if not isinstance(node, (ast.Import, ast.ImportFrom)):
@@ -107,11 +108,11 @@ class PythonDependencyScanner(BaseDependencyScanner):
                 # Handle multiple (comma-separated) imports on one line
                 for alias in node.names:
                     module_names.append(alias.name.split(".")[0])
-            elif node.module is not None:
+            # Relative imports refer to modules found in the project.
+            elif node.module is not None and node.level == 0:
                 module_names.append(node.module.split(".")[0])
 
             for module_name in module_names:
-                # TODO filter relative imports
                 # Filter-out the standard library modules and local module names (i.e. modules defined in the target
                 # project).
                 if not module_name or module_name in sys.stdlib_module_names or module_name in project_modules:
-- 
2.43.0


From 975f35859142443eb90d715fa0f47753abb8b4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:04 +0000
Subject: [PATCH 29/71] fix: unreadable and malformed pyproject files are
 reported as messages

---
 .../dependency/pyproject_dep_scanner.py       | 34 +++++++++++++++----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py b/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
index 082f225..b2cee9c 100644
--- a/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
+++ b/conda_recipe_manager/scanner/dependency/pyproject_dep_scanner.py
@@ -43,10 +43,12 @@ class PyProjectDependencyScanner(BaseDependencyScanner):
         try:
             with open(self._src_dir / self._project_fn, "rb") as f:
                 data = cast(dict[str, dict[str, list[str] | dict[str, list[str]]]], tomllib.load(f))
-        except (FileNotFoundError, tomllib.TOMLDecodeError) as e:
+        except (OSError, tomllib.TOMLDecodeError, UnicodeDecodeError) as e:
             if isinstance(e, FileNotFoundError):
                 self._msg_tbl.add_message(MessageCategory.EXCEPTION, f"`{self._project_fn}` file not found.")
-            if isinstance(e, tomllib.TOMLDecodeError):
+            elif isinstance(e, OSError):
+                self._msg_tbl.add_message(MessageCategory.EXCEPTION, f"Could not read `{self._project_fn}` file.")
+            else:
                 self._msg_tbl.add_message(MessageCategory.EXCEPTION, f"Could not parse `{self._project_fn}` file.")
             return set()
 
@@ -64,13 +66,31 @@ class PyProjectDependencyScanner(BaseDependencyScanner):
         # TODO Future, consider handling Environment Markers:
         #   https://packaging.python.org/en/latest/specifications/dependency-specifiers/#environment-markers
         deps: set[ProjectDependency] = set()
-        for dep_name in cast(list[str], data["project"].get("dependencies", [])):
-            deps.add(new_project_dependency(dep_name, DependencySection.RUN))
+
+        def _add_deps(dep_lst: object, section: DependencySection) -> None:
+            if not isinstance(dep_lst, list) or not all(isinstance(dep, str) for dep in dep_lst):  # type: ignore[misc]
+                self._msg_tbl.add_message(
+                    MessageCategory.ERROR, f"`{self._project_fn}` contains dependencies that are not a list of strings."
+                )
+                return
+            for dep_name in cast(list[str], dep_lst):
+                deps.add(new_project_dependency(dep_name, section))
+
+        if not isinstance(data["project"], dict):
+            self._msg_tbl.add_message(MessageCategory.ERROR, f"The `project` section of `{self._project_fn}` is invalid.")
+            return set()
+
+        _add_deps(data["project"].get("dependencies", []), DependencySection.RUN)
 
         # Optional dependencies are stored in a dictionary, where the key is the "package extra" name and the value is
         # a dependency list. For example: {'dev': ['pytest'], 'conda_build': ['conda-build']}
-        for dep_lst in cast(dict[str, list[str]], data["project"].get("optional-dependencies", {})).values():
-            for dep_name in dep_lst:
-                deps.add(new_project_dependency(dep_name, DependencySection.RUN_CONSTRAINTS))
+        optional_deps = data["project"].get("optional-dependencies", {})
+        if not isinstance(optional_deps, dict):
+            self._msg_tbl.add_message(
+                MessageCategory.ERROR, f"The optional dependencies of `{self._project_fn}` are invalid."
+            )
+            return deps
+        for dep_lst in optional_deps.values():
+            _add_deps(dep_lst, DependencySection.RUN_CONSTRAINTS)
 
         return deps
-- 
2.43.0


From fb3624adb715eada1434ada58694e3dac93b2e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:41 +0000
Subject: [PATCH 30/71] fix: quotes in repository descriptions do not hide
 repositories from the selection

---
 scripts/randomly_select_recipes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/randomly_select_recipes.py b/scripts/randomly_select_recipes.py
index f095eb0..dede151 100755
--- a/scripts/randomly_select_recipes.py
+++ b/scripts/randomly_select_recipes.py
@@ -78,7 +78,7 @@ def main() -> None:
     # Parse the GitHub repo list
     all_repos: set[str] = set()
     with open(gh_list_file, encoding="utf-8") as fd:
-        reader = csv.reader(fd, delimiter="\t", quotechar='"')
+        reader = csv.reader(fd, delimiter="\t", quoting=csv.QUOTE_NONE)
         for row in reader:
             if not row:
                 continue
-- 
2.43.0


From 5d2f20a2599a7c0db14109f9f55721e0dc0296bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:57 +0000
Subject: [PATCH 31/71] fix: conditional and structured dependencies are
 reported instead of raising an exception

---
 .../parser/recipe_reader_deps.py              | 61 ++++++++++++++-----
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader_deps.py b/conda_recipe_manager/parser/recipe_reader_deps.py
index c1ab7d8..14ecc0c 100644
--- a/conda_recipe_manager/parser/recipe_reader_deps.py
+++ b/conda_recipe_manager/parser/recipe_reader_deps.py
@@ -16,6 +16,7 @@ from conda_recipe_manager.parser.dependency import (
 from conda_recipe_manager.parser.recipe_reader import RecipeReader
 from conda_recipe_manager.parser.selector_parser import SelectorParser
 from conda_recipe_manager.parser.types import SchemaVersion
+from conda_recipe_manager.types import JsonType
 
 
 class RecipeReaderDeps(RecipeReader):
@@ -41,7 +42,7 @@ class RecipeReaderDeps(RecipeReader):
             )
 
     @staticmethod
-    def _sanitize_dep(dep: Optional[str]) -> Optional[str]:
+    def _sanitize_dep(dep: JsonType) -> Optional[str]:
         """
         Sanitizes dependency strings. Invalid dependencies can be ignored with a `None` check. This function prevents
         consumption of bad recipe file data.
@@ -49,7 +50,7 @@ class RecipeReaderDeps(RecipeReader):
         :param dep: Dependency string to validate. This is the string found in a list in a dependency section.
         :returns: The sanitized string, if valid. `None`, if invalid.
         """
-        if dep is None:
+        if not isinstance(dep, str):
             return None
 
         dep = dep.strip()
@@ -58,6 +59,43 @@ class RecipeReaderDeps(RecipeReader):
 
         return dep
 
+    def _collect_deps(
+        self, value: JsonType, path: str, condition: Optional[SelectorParser] = None
+    ) -> list[tuple[str, str, Optional[SelectorParser]]]:
+        """
+        Recursively collects the dependency strings found in (part of) a dependency section.
+
+        NOTE: `get_dependency_paths()` uses the same approach for calculating dependency paths.
+
+        :param value: Value to examine.
+        :param path: Path to the value.
+        :param condition: (Optional) V1 condition that applies to the value.
+        :returns: List of dependency strings, paired with their path and selector (if applicable).
+        """
+        if isinstance(value, list):
+            return [dep for i, member in enumerate(value) for dep in self._collect_deps(member, f"{path}/{i}", condition)]
+
+        if isinstance(value, dict):
+            # V1 format selectors
+            if "if" in value:
+                if_str: Final[str] = str(value["if"])
+                then_deps = self._collect_deps(
+                    value.get("then"), f"{path}/then", SelectorParser(if_str, self._schema_version)
+                )
+                return then_deps + self._collect_deps(
+                    value.get("else"), f"{path}/else", SelectorParser(f"not ({if_str})", self._schema_version)
+                )
+            # The `run_exports` section may be divided into sub-sections. Other objects, like the V1 equivalent to
+            # pinning functions, are not dependency strings.
+            if path.endswith("/run_exports"):
+                return [dep for key in value for dep in self._collect_deps(value[key], f"{path}/{key}", condition)]
+            return []
+
+        dep = RecipeReaderDeps._sanitize_dep(value)
+        if dep is None:
+            return []
+        return [(dep, path, self._fetch_optional_selector(path) if condition is None else condition)]
+
     def _fetch_optional_selector(self, path: str) -> Optional[SelectorParser]:
         """
         Given a recipe path, optionally return a SelectorParser object.
@@ -118,9 +156,8 @@ class RecipeReaderDeps(RecipeReader):
             if path == ROOT_NODE_VALUE:
                 root_package = package
 
-            requirements = cast(
-                dict[str, list[Optional[str]]],
-                self.get_value(RecipeReader.append_to_path(path, "/requirements"), default={}, sub_vars=True),
+            requirements = self.get_value(
+                RecipeReader.append_to_path(path, "/requirements"), default={}, sub_vars=True
             )
             dep_map[package] = []
             # A `requirements` block without a value does not contain dependencies.
@@ -133,23 +170,15 @@ class RecipeReaderDeps(RecipeReader):
                     continue
 
                 # A section may not have a value and a single dependency does not have to be in a list.
-                is_list = isinstance(deps, list)
-                for i, dep in enumerate(deps if is_list else [cast(Optional[str], deps)]):
-                    dep = RecipeReaderDeps._sanitize_dep(dep)
-                    if dep is None:
-                        continue
-
-                    # NOTE: `get_dependency_paths()` uses the same approach for calculating dependency paths.
-                    dep_path = RecipeReader.append_to_path(path, f"/requirements/{section_str}")
-                    if is_list:
-                        dep_path = RecipeReader.append_to_path(dep_path, str(i))
+                section_path = RecipeReader.append_to_path(path, f"/requirements/{section_str}")
+                for dep, dep_path, selector in self._collect_deps(deps, section_path):
                     dep_map[package].append(
                         Dependency(
                             required_by=package,
                             path=dep_path,
                             type=section,
                             data=dependency_data_from_str(dep),
-                            selector=self._fetch_optional_selector(dep_path),
+                            selector=selector,
                         )
                     )
 
-- 
2.43.0


From 1d1120653c3a88f9b58ed86a471ae2f4de95ae2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:18 +0000
Subject: [PATCH 32/71] fix: packages without dependencies are part of the
 graphs

---
 conda_recipe_manager/grapher/recipe_graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/grapher/recipe_graph.py b/conda_recipe_manager/grapher/recipe_graph.py
index 7f7f3c9..79cd15c 100644
--- a/conda_recipe_manager/grapher/recipe_graph.py
+++ b/conda_recipe_manager/grapher/recipe_graph.py
@@ -97,6 +97,9 @@ class RecipeGraph:
                     continue
                 self._name_to_sha256[package_name] = sha
                 self._package_stats.total_packages += 1
+                # A package without dependencies is still part of the graphs.
+                self._build_graph.add_node(package_name)
+                self._test_graph.add_node(package_name)
                 for dep in deps:
                     match dep.type:
                         # Build graph
-- 
2.43.0


From cbf83c5ac2cbc7abfa596db1139d57a9181a1de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:12 +0000
Subject: [PATCH 33/71] fix: selectors and comments are set on, and reported
 for, exactly one line

- Collections in a list share the line of their first key; their comments are no longer kept twice
- The comment of a key is not copied to the only member of its list
- Comments of multi-line list members are not dropped
- Selectors and comments that do not fit on a line, and paths without a line, are rejected
---
 conda_recipe_manager/parser/_node.py          | 29 ++++++++++++
 conda_recipe_manager/parser/recipe_parser.py  | 47 ++++++++-----------
 .../parser/recipe_parser_deps.py              |  3 +-
 conda_recipe_manager/parser/recipe_reader.py  | 23 +++++----
 4 files changed, 63 insertions(+), 39 deletions(-)

diff --git a/conda_recipe_manager/parser/_node.py b/conda_recipe_manager/parser/_node.py
index bf4eeeb..4dc1cf2 100644
--- a/conda_recipe_manager/parser/_node.py
+++ b/conda_recipe_manager/parser/_node.py
@@ -183,6 +183,35 @@ class Node:
             return False
         return next((c for c in self.children if not c.is_comment()), None) is child
 
+    def get_line_comment(self) -> str:
+        """
+        Provides the comment on the line that represents this node. Collections that are members of a list are found on
+        the line of their first key.
+
+        :returns: The comment on the line of this node. Empty, if there is no such comment.
+        """
+        if self.is_collection_element():
+            first_child = next((c for c in self.children if not c.is_comment()), None)
+            return "" if first_child is None else first_child.get_line_comment()
+        return self.comment
+
+    def set_line_comment(self, comment: str) -> None:
+        """
+        Sets the comment on the line that represents this node. Some lines of YAML correspond to multiple nodes. For
+        consistency, the comment is duplicated across the nodes on a line.
+
+        :param comment: Comment to set
+        """
+        if self.is_collection_element():
+            first_child = next((c for c in self.children if not c.is_comment()), None)
+            if first_child is not None:
+                first_child.set_line_comment(comment)
+            return
+        self.comment = comment
+        # The only member of a list is found on another line than the key of the list.
+        if self.is_single_key() and not self.children[0].list_member_flag:
+            self.children[0].comment = comment
+
     def holds_value(self) -> bool:
         """
         Indicates if a node can't own other keys or list members, because it already points to a value.
diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 1f8eea7..0fa755d 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -149,9 +149,9 @@ class RecipeParser(RecipeReader):
         if isinstance(selector, SelectorParser):
             selector = selector.render()
 
-        if node is None:
+        if node is None or node.is_root():
             raise KeyError(f"Path not found: {path!r}")
-        if not Regex.SELECTOR.match(selector):
+        if not Regex.SELECTOR.fullmatch(selector):
             raise ValueError(f"Invalid selector provided: {selector}")
 
         # Helper function that extracts the outer set of []'s in a selector
@@ -160,12 +160,13 @@ class RecipeParser(RecipeReader):
 
         # Helper function that prevents operators from binding to the other selector
         def _group_selector(s: str) -> str:
-            is_grouped = mode == SelectorConflictMode.AND and re.search(r"\bor\b", s)
+            is_grouped = mode == SelectorConflictMode.AND and re.search(r"\bor\b", s, re.IGNORECASE)
             return f"({s})" if is_grouped else s
 
         comment = ""
-        old_selector_found = Regex.SELECTOR.search(node.comment)
-        if node.comment == "" or mode == SelectorConflictMode.REPLACE:
+        old_comment = node.get_line_comment()
+        old_selector_found = Regex.SELECTOR.search(old_comment)
+        if old_comment == "" or mode == SelectorConflictMode.REPLACE:
             comment = f"# {selector}"
         # "Append" to existing selectors
         elif old_selector_found:
@@ -176,13 +177,9 @@ class RecipeParser(RecipeReader):
         # If the comment is not a selector, put the selector first, then append the comment.
         else:
             # Strip the existing comment of it's leading `#` symbol
-            comment = f"# {selector} " + node.comment.replace("#", "", 1).strip()
+            comment = f"# {selector} " + old_comment.replace("#", "", 1).strip()
 
-        node.comment = comment
-        # Some lines of YAML correspond to multiple nodes. For consistency, we need to ensure that comments are
-        # duplicate across all nodes on a line.
-        if node.is_single_key():
-            node.children[0].comment = comment
+        node.set_line_comment(comment)
 
         self._rebuild_selectors()
         self._is_modified = True
@@ -200,26 +197,22 @@ class RecipeParser(RecipeReader):
         path_stack = str_to_stack_path(path)
         node = traverse(self._root, path_stack)
 
-        if node is None:
+        if node is None or node.is_root():
             raise KeyError(f"Path not found: {path!r}")
 
-        search_results = Regex.SELECTOR.search(node.comment)
+        search_results = Regex.SELECTOR.search(node.get_line_comment())
         if not search_results:
             return None
 
         selector = search_results.group(0)
-        comment = node.comment.replace(selector, "")
+        comment = node.get_line_comment().replace(selector, "")
         # Sanitize potential edge-case scenarios after a removal
         comment = comment.replace("#  ", "# ").replace("# # ", "# ")
         # Detect and remove empty comments. Other comments should remain intact.
         if comment.strip() == "#":
             comment = ""
 
-        node.comment = comment
-        # Some lines of YAML correspond to multiple nodes. For consistency, we need to ensure that comments are
-        # duplicate across all nodes on a line.
-        if node.is_single_key():
-            node.children[0].comment = comment
+        node.set_line_comment(comment)
 
         self._rebuild_selectors()
         self._is_modified = True
@@ -235,22 +228,24 @@ class RecipeParser(RecipeReader):
         :param path: Target path to add a comment to
         :param comment: Comment to add
         :raises KeyError: If the path provided is not found
-        :raises ValueError: If the comment provided is a selector, the empty string, or consists of only whitespace
-            characters
+        :raises ValueError: If the comment provided is a selector, the empty string, spans multiple lines, or
+            consists of only whitespace characters
         """
         comment = comment.strip()
         if comment == "":
             raise ValueError("Comments cannot consist only of whitespace characters")
+        if len(comment.splitlines()) > 1:
+            raise ValueError(f"Comments are limited to a single line: {comment!r}")
 
         if Regex.SELECTOR.match(comment):
             raise ValueError(f"Selectors can not be submitted as comments: {comment}")
 
         node = traverse(self._root, str_to_stack_path(path))
 
-        if node is None:
+        if node is None or node.is_root():
             raise KeyError(f"Path not found: {path}")
 
-        search_results = Regex.SELECTOR.search(node.comment)
+        search_results = Regex.SELECTOR.search(node.get_line_comment())
         # If a selector is present, append the selector.
         if search_results:
             selector = search_results.group(0)
@@ -261,11 +256,7 @@ class RecipeParser(RecipeReader):
         # Prepend a `#` if it is missing
         if comment[0] != "#":
             comment = f"# {comment}"
-        node.comment = comment
-        # Comments for "single key" nodes apply to both the parent and child. This is because such parent nodes render
-        # on the same line as their children.
-        if node.is_single_key():
-            node.children[0].comment = comment
+        node.set_line_comment(comment)
         self._is_modified = True
 
     ## YAML Patching Functions ##
diff --git a/conda_recipe_manager/parser/recipe_parser_deps.py b/conda_recipe_manager/parser/recipe_parser_deps.py
index 064f448..5f78838 100644
--- a/conda_recipe_manager/parser/recipe_parser_deps.py
+++ b/conda_recipe_manager/parser/recipe_parser_deps.py
@@ -196,7 +196,8 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
         patch_success: Final[bool] = self._patch_add_dep(dep, patch_op, patch_path, sel_mode, is_new_section)
 
         if patch_success and dep.selector is not None:
-            sel_path = patch_path
+            # The dependency is the first member of a new section
+            sel_path = f"{base_path}/0" if is_new_section else patch_path
             # `add_selector()`, by nature of how selectors work, does not support "append" mode. If an append operation
             # occurred, we must calculate the position of the last array element. We only add selectors on a successful
             # patch, so we know we can make assume a dependency list exists.
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 3af19a7..848dab6 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -196,7 +196,8 @@ class RecipeReader(IsModifiable):
                         key_children.append(Node(cast(Primitives, value), comment))
                     key_nodes.append(Node(key, comment, key_children, key_flag=True))
 
-                elem_node = Node(comment=comment, list_member_flag=True)
+                # The comment is owned by the first key, as that is what is found on the line of this element
+                elem_node = Node(list_member_flag=True)
                 elem_node.children.extend(key_nodes)
                 return elem_node
             return Node(cast(Primitives, output[0]), comment, list_member_flag=True)
@@ -431,9 +432,10 @@ class RecipeReader(IsModifiable):
 
         def _collect_selectors(node: Node, path: StrStack) -> None:
             # Ignore empty comments and lines that only contain a comment, as those are not addressable
-            if not node.comment or node.is_comment():
+            comment = node.get_line_comment()
+            if not comment or node.is_comment():
                 return
-            match = Regex.SELECTOR.search(node.comment)
+            match = Regex.SELECTOR.search(comment)
             if not match:
                 return
             selector = match.group(0)
@@ -526,9 +528,10 @@ class RecipeReader(IsModifiable):
                 if variant_sign is not None:
                     variant_capture += variant_sign
                 # Per YAML spec, multiline statements can't be commented. In other words, the `#` symbol is seen as a
-                # string character in multiline values.
+                # string character in multiline values. Only the line that starts the statement may have a comment.
                 multiline_node = Node(
                     [],
+                    comment=(new_node.children[0] if new_node.is_collection_element() else new_node).comment,
                     multiline_variant=MultilineVariant(variant_capture),
                 )
                 # Type narrow that we assigned `value` as a `list`
@@ -550,7 +553,7 @@ class RecipeReader(IsModifiable):
                 block_indent = next((num_tab_spaces(i) for i in captured if i), 0)
                 multiline_node.value.extend(i[block_indent:] for i in captured)
                 # Multi-line strings may be a member of a list, without a key
-                if clean_line.startswith(("- |", "- >")):
+                if new_node.list_member_flag and not new_node.is_collection_element():
                     multiline_node.list_member_flag = True
                     new_node = multiline_node
                 # The previous level is the key to this multi-line value, so we can safely reset it.
@@ -699,7 +702,7 @@ class RecipeReader(IsModifiable):
         :param lines: Accumulated list of lines in the recipe file
         """
         if node.multiline_variant != MultilineVariant.NONE:
-            lines.append(f"{spaces}- {node.multiline_variant}")
+            lines.append(f"{spaces}- {node.multiline_variant}  {node.comment}".rstrip())
             lines.extend(f"{spaces}{TAB_AS_SPACES}{val_line}".rstrip() for val_line in cast(list[str], node.value))
             return
         lines.append(f"{spaces}- {stringify_yaml(node.value)}  {node.comment}".rstrip())
@@ -1268,7 +1271,7 @@ class RecipeReader(IsModifiable):
         node = traverse(self._root, path_stack)
         if node is None:
             return False
-        return bool(Regex.SELECTOR.search(node.comment))
+        return bool(Regex.SELECTOR.search(node.get_line_comment()))
 
     def get_selector_at_path(self, path: str, default: str | SentinelType = _sentinel) -> str:
         """
@@ -1285,7 +1288,7 @@ class RecipeReader(IsModifiable):
         if node is None:
             raise KeyError(f"Path not found: {path}")
 
-        search_results = Regex.SELECTOR.search(node.comment)
+        search_results = Regex.SELECTOR.search(node.get_line_comment())
         if not search_results:
             # Use `default` case
             if default != RecipeReader._sentinel and not isinstance(default, SentinelType):
@@ -1311,9 +1314,9 @@ class RecipeReader(IsModifiable):
         comments_tbl: dict[str, str] = {}
 
         def _track_comments(node: Node, path_stack: StrStack) -> None:
-            if node.is_comment() or node.comment == "":
+            comment = node.get_line_comment()
+            if node.is_comment() or comment == "":
                 return
-            comment = node.comment
             # Handle comments found alongside a selector
             if Regex.SELECTOR.search(comment):
                 comment = Regex.SELECTOR.sub("", comment).strip()
-- 
2.43.0


From 6b5a7a1b1f6185a4935a1d6c6502d20067a509d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:34 +0000
Subject: [PATCH 34/71] fix: reading the paths of a selector does not clear
 them

---
 conda_recipe_manager/parser/_utils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index b0ea424..bbcbb8e 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -68,12 +68,9 @@ def stack_path_to_str(path_stack: StrStack | StrStackImmutable) -> str:
     :param path_stack: Stack to construct back into a string.
     :returns: Path, described as a string.
     """
-    # Normalize type if a tuple is given.
-    if isinstance(path_stack, tuple):
-        path_stack = list(path_stack)
     path = ""
-    while len(path_stack) > 0:
-        value = path_stack.pop()
+    # The stack is owned by the caller and must not be changed.
+    for value in reversed(path_stack):
         # Special case to bootstrap root; the first element will automatically add the first slash.
         if value == ROOT_NODE_VALUE:
             continue
-- 
2.43.0


From 322b4aad96bfa68dfbabaa3d4bdc800c05f80059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:34 +0000
Subject: [PATCH 35/71] fix: an empty path is the root path

---
 conda_recipe_manager/parser/_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index bbcbb8e..f589048 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -50,7 +50,7 @@ def str_to_stack_path(path: str) -> StrStack:
     # TODO reduce 3 (O)n operations to 1 O(n) operation
 
     # Wipe the trailing `/`, if provided. It doesn't have meaning here; only the `root` path is tracked.
-    if path[-1] == ROOT_NODE_VALUE:
+    if path.endswith(ROOT_NODE_VALUE):
         path = path[:-1]
     parts = path.split("/")
     # Replace empty strings with `/` for compatibility in other functions.
-- 
2.43.0


From 2d35d0824e54d22300f608c693326479278954f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:42 +0000
Subject: [PATCH 36/71] fix: values and expressions with variables are
 evaluated without losing parts of them

---
 conda_recipe_manager/parser/_types.py        |  2 +-
 conda_recipe_manager/parser/recipe_reader.py | 11 ++++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index cb7305b..4f7b37a 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -166,7 +166,7 @@ class Regex:
     JINJA_V0_SUB: Final[re.Pattern[str]] = re.compile(r"{{\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*}}")
     JINJA_V0_LINE: Final[re.Pattern[str]] = re.compile(r"({%.*%}|{#.*#})\n")
     JINJA_V0_SET_LINE: Final[re.Pattern[str]] = re.compile(
-        r"{%\s*set\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*=.*%}\s*\n"
+        r"{%-?\s*set\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*=.*%}\s*\n"
     )
     # Useful for replacing the older `{{` JINJA substitution with the newer `${{` WITHOUT accidentally doubling-up the
     # newer syntax when multiple replacements are possible.
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 848dab6..e8f6989 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -283,10 +283,11 @@ class RecipeReader(IsModifiable):
         if idx_match:
             key = key.replace(f"[{cast(str, idx_match.group(2))}]", "").strip()
 
-        # Addition/concatenation. Note the key(s) will need to be evaluated later.
+        # Addition/concatenation. Note the key(s) will need to be evaluated later. Other expressions that contain such an
+        # operation are not supported.
         # Example: {{ build_number + 100 }}
         # Example: {{ version + ".1" }}
-        add_concat_match = Regex.JINJA_FUNCTION_ADD_CONCAT.search(key)
+        add_concat_match = Regex.JINJA_FUNCTION_ADD_CONCAT.fullmatch(key)
 
         return key, lower_match, upper_match, idx_match, add_concat_match
 
@@ -346,6 +347,9 @@ class RecipeReader(IsModifiable):
         # These strings must have been quoted in the recipe. Otherwise they would not be a single value.
         if isinstance(value, dict) or Regex.DETECT_TRAILING_COMMENT.search(rendered):
             return rendered
+        # Text that only looks like another type (i.e. the version `1.10`) can't be converted without changing it.
+        if not isinstance(value, (str, bool, list)) and value is not None and str(value) != rendered:
+            return rendered
         return value
 
     def _sub_jinja_vars(self, s: str) -> str:
@@ -412,7 +416,8 @@ class RecipeReader(IsModifiable):
                 # Find all the set statements and record the values
                 for line in cast(list[str], Regex.JINJA_V0_SET_LINE.findall(self._init_content)):
                     key = line[line.find("set") + len("set") : line.find("=")].strip()
-                    value = line[line.find("=") + len("=") : line.find("%}")].strip()
+                    # The whitespace-control mark in `-%}` is not a part of the value
+                    value = line[line.find("=") + len("=") : line.find("%}")].removesuffix("-").strip()
                     try:
                         self._vars_tbl[key] = ast.literal_eval(value)  # type: ignore[misc]
                     except Exception:  # pylint: disable=broad-exception-caught
-- 
2.43.0


From 065528f4e3cb8859f26a72cfa739d3ca5ebb0e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:47 +0000
Subject: [PATCH 37/71] fix: variables are rendered and read with their quotes,
 escapes and line endings

---
 conda_recipe_manager/parser/_types.py        | 4 ++--
 conda_recipe_manager/parser/recipe_parser.py | 1 +
 conda_recipe_manager/parser/recipe_reader.py | 6 ++++++
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 4f7b37a..439a1fe 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -164,9 +164,9 @@ class Regex:
 
     ## Jinja regular expressions ##
     JINJA_V0_SUB: Final[re.Pattern[str]] = re.compile(r"{{\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*}}")
-    JINJA_V0_LINE: Final[re.Pattern[str]] = re.compile(r"({%.*%}|{#.*#})\n")
+    JINJA_V0_LINE: Final[re.Pattern[str]] = re.compile(r"({%.*%}|{#.*#})[ \t\r]*(?:\n|\Z)")
     JINJA_V0_SET_LINE: Final[re.Pattern[str]] = re.compile(
-        r"{%-?\s*set\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*=.*%}\s*\n"
+        r"{%-?\s*set\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*=.*%}\s*(?:\n|\Z)"
     )
     # Useful for replacing the older `{{` JINJA substitution with the newer `${{` WITHOUT accidentally doubling-up the
     # newer syntax when multiple replacements are possible.
diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 0fa755d..210d26c 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -103,6 +103,7 @@ class RecipeParser(RecipeReader):
         :param value: Value to set
         """
         self._vars_tbl[var] = value
+        self._expression_vars.discard(var)
         self._is_modified = True
         # V1 recipes store their variables in the parse tree
         if self._schema_version == SchemaVersion.V1:
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index e8f6989..e5bcc5f 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -410,6 +410,8 @@ class RecipeReader(IsModifiable):
         """
         # Tracks Jinja variables set by the file
         self._vars_tbl: dict[str, JsonType] = {}
+        # Variables that are set to the text of an expression that could not be evaluated
+        self._expression_vars: set[str] = set()
 
         match self._schema_version:
             case SchemaVersion.V0:
@@ -420,8 +422,10 @@ class RecipeReader(IsModifiable):
                     value = line[line.find("=") + len("=") : line.find("%}")].removesuffix("-").strip()
                     try:
                         self._vars_tbl[key] = ast.literal_eval(value)  # type: ignore[misc]
+                        self._expression_vars.discard(key)
                     except Exception:  # pylint: disable=broad-exception-caught
                         self._vars_tbl[key] = value
+                        self._expression_vars.add(key)
             case SchemaVersion.V1:
                 context = self.get_value("/context", {})
                 # An empty section does not contain variables
@@ -829,6 +833,8 @@ class RecipeReader(IsModifiable):
             for key, val in self._vars_tbl.items():
                 # Double quote strings
                 if isinstance(val, str):
+                    if key not in self._expression_vars:
+                        val = val.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n")
                     val = f'"{val}"'
                 lines.append(f"{{% set {key} = {val} %}}")
             # Add spacing if variables have been set
-- 
2.43.0


From da95672b08683368e0c2ea7a218e5b15ede76a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:47 +0000
Subject: [PATCH 38/71] fix: variables in one-line lists are references,
 concatenated strings keep their quotes

---
 conda_recipe_manager/parser/recipe_reader.py | 24 ++++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index e5bcc5f..d08d692 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -345,7 +345,10 @@ class RecipeReader(IsModifiable):
         except yaml.YAMLError:
             return rendered
         # These strings must have been quoted in the recipe. Otherwise they would not be a single value.
-        if isinstance(value, dict) or Regex.DETECT_TRAILING_COMMENT.search(rendered):
+        if isinstance(value, dict) or (isinstance(value, list) and not rendered.startswith("[")):
+            return rendered
+        is_quoted: Final[bool] = isinstance(value, str) and rendered.startswith('"') and rendered.endswith('"')
+        if Regex.DETECT_TRAILING_COMMENT.search(rendered) and not is_quoted:
             return rendered
         # Text that only looks like another type (i.e. the version `1.10`) can't be converted without changing it.
         if not isinstance(value, (str, bool, list)) and value is not None and str(value) != rendered:
@@ -375,7 +378,11 @@ class RecipeReader(IsModifiable):
                 lhs = self._eval_jinja_token(cast(str, add_concat_match.group(1)))
                 rhs = self._eval_jinja_token(cast(str, add_concat_match.group(2)))
                 # By default concat two strings and quote them. This ensures YAML will interpret the type correctly.
-                value = f'"{str(lhs) + str(rhs)}"'
+                value = str(lhs) + str(rhs)
+                # Characters that are special in a quoted string need to be escaped, if the string will be parsed.
+                if s == match:
+                    value = value.replace("\\", "\\\\").replace('"', '\\"')
+                value = f'"{value}"'
                 # Otherwise, perform arithmetic addition, IFF both sides are numeric types.
                 if isinstance(lhs, (int, float)) and isinstance(rhs, (int, float)):
                     value = str(lhs + rhs)
@@ -1219,10 +1226,17 @@ class RecipeReader(IsModifiable):
                 var_re.search(Regex.JINJA_QUOTED_STRING.sub("", match)) for match in cast(list[str], sub_re.findall(s))
             )
 
+        def _has_reference(value: JsonType) -> bool:
+            # Variables can only be found inside string values, which may span multiple lines or be a part of a list that
+            # is written on one line.
+            if isinstance(value, dict):
+                return any(_has_reference(v) for v in value.values())
+            if isinstance(value, list):
+                return any(_has_reference(v) for v in value)
+            return isinstance(value, str) and _is_reference(value)
+
         def _collect_var_refs(node: Node, path: StrStack) -> None:
-            # Variables can only be found inside string values, which may span multiple lines.
-            lines = node.value if node.multiline_variant != MultilineVariant.NONE else [node.value]
-            if any(isinstance(line, str) and _is_reference(line) for line in cast(list[JsonType], lines)):
+            if _has_reference(cast(JsonType, node.value)):
                 path_list.append(stack_path_to_str(path))
 
         traverse_all(self._root, _collect_var_refs)
-- 
2.43.0


From dfb5a2d0f52728db1963529d4e426cebecfbbaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:49 +0000
Subject: [PATCH 39/71] fix: any JINJA expression is recognized as a
 substitution

---
 conda_recipe_manager/parser/_types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 439a1fe..0b58997 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -126,6 +126,8 @@ class Regex:
     V0_UNSUPPORTED_JINJA: Final[list[re.Pattern[str]]] = [re.compile(r"\.join\(")]
 
     # Pattern to detect Jinja variable names and functions
+    # Pattern to detect any Jinja expression (that does not contain a dictionary)
+    _JINJA_EXPRESSION_PATTERN: Final[str] = r"[^{}\n]*"
     _JINJA_VAR_FUNCTION_PATTERN: Final[str] = r"[a-zA-Z0-9_\|\'\"\(\)\[\]\, =\.\-~\+]*"
 
     ## Pre-process conversion tooling regular expressions ##
@@ -163,7 +165,7 @@ class Regex:
     SELECTOR_PYTHON_VERSION_PY3K_REPLACEMENT: Final[re.Pattern[str]] = re.compile(r"py3k")
 
     ## Jinja regular expressions ##
-    JINJA_V0_SUB: Final[re.Pattern[str]] = re.compile(r"{{\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*}}")
+    JINJA_V0_SUB: Final[re.Pattern[str]] = re.compile(r"{{" + _JINJA_EXPRESSION_PATTERN + r"}}")
     JINJA_V0_LINE: Final[re.Pattern[str]] = re.compile(r"({%.*%}|{#.*#})[ \t\r]*(?:\n|\Z)")
     JINJA_V0_SET_LINE: Final[re.Pattern[str]] = re.compile(
         r"{%-?\s*set\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*=.*%}\s*(?:\n|\Z)"
@@ -172,7 +174,7 @@ class Regex:
     # newer syntax when multiple replacements are possible.
     JINJA_REPLACE_V0_STARTING_MARKER: Final[re.Pattern[str]] = re.compile(r"(?<!\$)\{\{")
 
-    JINJA_V1_SUB: Final[re.Pattern[str]] = re.compile(r"\${{\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*}}")
+    JINJA_V1_SUB: Final[re.Pattern[str]] = re.compile(r"\${{" + _JINJA_EXPRESSION_PATTERN + r"}}")
 
     # String literals in a JINJA expression
     JINJA_QUOTED_STRING: Final[re.Pattern[str]] = re.compile(r"'[^']*'|\"[^\"]*\"")
-- 
2.43.0


From b7cf113938c6c9291d157c75a5baa996263d62b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:49 +0000
Subject: [PATCH 40/71] fix: dependencies can be added to sections without
 dependencies

---
 conda_recipe_manager/parser/recipe_parser_deps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_deps.py b/conda_recipe_manager/parser/recipe_parser_deps.py
index 5f78838..5314008 100644
--- a/conda_recipe_manager/parser/recipe_parser_deps.py
+++ b/conda_recipe_manager/parser/recipe_parser_deps.py
@@ -169,9 +169,9 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
         patch_path = RecipeParserDeps._init_patch_path(dep, dep_mode, base_path, is_new_section)
 
         # TODO: Add a "get dependencies at path" function to `RecipeReaderDeps`
-        cur_deps: Final[list[Optional[str]]] = cast(
-            list[Optional[str]], self.get_value(base_path, sub_vars=True, default=[])
-        )
+        # Sections without any dependencies, and sections that are a single value, are not lists.
+        section: Final[JsonType] = self.get_value(base_path, sub_vars=True, default=[])
+        cur_deps: Final[list[Optional[str]]] = cast(list[Optional[str]], section) if isinstance(section, list) else []
 
         # Check for duplicate dependencies, if applicable.
         if dep_mode not in {DependencyConflictMode.USE_BOTH, DependencyConflictMode.EXACT_POSITION}:
-- 
2.43.0


From fbf72b8ab25930c24233fa8c4da323636d28de4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 41/71] fix: dependencies with JINJA expressions are added in
 the syntax of the recipe, and once

---
 .../parser/recipe_parser_deps.py              | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_deps.py b/conda_recipe_manager/parser/recipe_parser_deps.py
index 5314008..a4e44e3 100644
--- a/conda_recipe_manager/parser/recipe_parser_deps.py
+++ b/conda_recipe_manager/parser/recipe_parser_deps.py
@@ -13,7 +13,7 @@ from conda_recipe_manager.parser.dependency import (
     dependency_data_render_as_str,
     str_to_dependency_section,
 )
-from conda_recipe_manager.parser.enums import SelectorConflictMode
+from conda_recipe_manager.parser.enums import SchemaVersion, SelectorConflictMode
 from conda_recipe_manager.parser.recipe_parser import RecipeParser
 from conda_recipe_manager.parser.recipe_reader_deps import RecipeReaderDeps
 from conda_recipe_manager.types import JsonType
@@ -64,6 +64,17 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
             and path[5].isdigit()
         )
 
+    @staticmethod
+    def _to_v0_jinja(s: str) -> str:
+        """
+        Dependencies that are read from a recipe use the newer `${{ }}` JINJA substitution syntax, regardless of the
+        schema. This converts such a string to the syntax used by V0 recipes.
+
+        :param s: Target string.
+        :returns: The string with V0 JINJA substitutions.
+        """
+        return s.replace("${{", "{{")
+
     @staticmethod
     def _init_patch_path(
         dep: Dependency, dep_mode: DependencyConflictMode, base_path: str, is_new_section: bool
@@ -122,6 +133,8 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
                 pass
 
         value: JsonType = dependency_data_render_as_str(dep.data)
+        if self._schema_version == SchemaVersion.V0:
+            value = RecipeParserDeps._to_v0_jinja(value)
         # This allows us to create new lists for dependency sections that do not currently exist.
         if is_new_section:
             value = [value]
@@ -181,7 +194,9 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
                     continue
 
                 cur_data = dependency_data_from_str(cur_dep)
-                if cast(str, cur_data.name) != cast(str, dep.data.name):
+                # Both forms of JINJA substitutions name the same dependency
+                cur_name = RecipeParserDeps._to_v0_jinja(cast(str, cur_data.name))
+                if cur_name != RecipeParserDeps._to_v0_jinja(cast(str, dep.data.name)):
                     continue
 
                 # If we have a name match, act according to the conflict mode
-- 
2.43.0


From 593a945c0e92693d90e74bd8772a7c9eeb06132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:57 +0000
Subject: [PATCH 42/71] fix: a substituted value that starts with # is not a
 comment

---
 conda_recipe_manager/parser/recipe_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index d08d692..dc7f5df 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -348,7 +348,7 @@ class RecipeReader(IsModifiable):
         if isinstance(value, dict) or (isinstance(value, list) and not rendered.startswith("[")):
             return rendered
         is_quoted: Final[bool] = isinstance(value, str) and rendered.startswith('"') and rendered.endswith('"')
-        if Regex.DETECT_TRAILING_COMMENT.search(rendered) and not is_quoted:
+        if (rendered.startswith("#") or Regex.DETECT_TRAILING_COMMENT.search(rendered)) and not is_quoted:
             return rendered
         # Text that only looks like another type (i.e. the version `1.10`) can't be converted without changing it.
         if not isinstance(value, (str, bool, list)) and value is not None and str(value) != rendered:
-- 
2.43.0


From c4fcf597acb5f18a84800dcb0811eadd32ad9499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:19 +0000
Subject: [PATCH 43/71] fix: selectors of false values, multi-line strings and
 sections, and one-line lists, are converted or reported

---
 .../parser/recipe_parser_convert.py           | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index f288e9b..1fdaa10 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -13,7 +13,7 @@ from conda_recipe_manager.parser._types import ROOT_NODE_VALUE, CanonicalSortOrd
 from conda_recipe_manager.parser._utils import search_any_regex, set_key_conditionally, stack_path_to_str
 from conda_recipe_manager.parser.enums import SchemaVersion
 from conda_recipe_manager.parser.recipe_parser import RecipeParser
-from conda_recipe_manager.parser.types import CURRENT_RECIPE_SCHEMA_FORMAT
+from conda_recipe_manager.parser.types import CURRENT_RECIPE_SCHEMA_FORMAT, MultilineVariant
 from conda_recipe_manager.types import JsonPatchType, JsonType, MessageCategory, MessageTable, Primitives, SentinelType
 
 
@@ -178,7 +178,14 @@ class RecipeParserConvert(RecipeParser):
         jinja_sub_locations: Final[set[str]] = set(self._v1_recipe.search(Regex.JINJA_V0_SUB))
         for path in jinja_sub_locations:
             value = self._v1_recipe.get_value(path)
-            # Values that match the regex should only be strings. This prevents crashes that should not occur.
+            # Lists that are written on one line are a single value.
+            if isinstance(value, list):
+                value = RecipeParserConvert._parse_yaml_recursive_sub(
+                    value, lambda s: Regex.JINJA_REPLACE_V0_STARTING_MARKER.sub("${{", s)
+                )
+                self._patch_and_log({"op": "replace", "path": path, "value": value})
+                continue
+            # Other values that match the regex should only be strings. This prevents crashes that should not occur.
             if not isinstance(value, str):
                 self._msg_tbl.add_message(
                     MessageCategory.WARNING, f"A non-string value was found as a JINJA substitution: {value}"
@@ -202,6 +209,12 @@ class RecipeParserConvert(RecipeParser):
                 # Selectors can be applied to the parent node if they appear on the same line. We'll ignore these when
                 # building replacements.
                 if not info.node.is_leaf():
+                    # Selectors that apply to a whole section do not have an equivalent.
+                    if not info.node.is_collection_element() and not info.node.is_single_key():
+                        self._msg_tbl.add_message(
+                            MessageCategory.WARNING,
+                            f"A non-list item had a selector at: {stack_path_to_str(info.path)}",
+                        )
                     continue
 
                 # Strip the []'s around the selector
@@ -237,11 +250,12 @@ class RecipeParserConvert(RecipeParser):
                 patch: JsonPatchType = {
                     "op": "replace",
                     "path": selector_path,
-                    "value": "${{ true if " + bool_expression + " }}",
+                    "value": f"${{{{ {str(info.node.value).lower()} if {bool_expression} }}}}",
                 }
-                # `skip` is special and can be a single boolean expression or a list of boolean expressions.
+                # `skip` is special and can be a single boolean expression or a list of boolean expressions. Builds are
+                # not skipped by default, so there is no condition under which `false` makes a difference.
                 if selector_path.endswith("/build/skip"):
-                    patch["value"] = bool_expression
+                    patch["value"] = bool_expression if info.node.value else False
                 if not isinstance(info.node.value, bool):
                     # CEP-13 states that ONLY list members may use the `if/then/else` blocks
                     if not info.node.list_member_flag:
@@ -249,9 +263,13 @@ class RecipeParserConvert(RecipeParser):
                             MessageCategory.WARNING, f"A non-list item had a selector at: {selector_path}"
                         )
                         continue
+                    then_value = None if isinstance(info.node.value, SentinelType) else info.node.value
+                    # Multiline strings are a single value, not a list of values
+                    if info.node.multiline_variant != MultilineVariant.NONE:
+                        then_value = self._v1_recipe.get_value(selector_path)
                     bool_object = {
                         "if": bool_expression,
-                        "then": None if isinstance(info.node.value, SentinelType) else info.node.value,
+                        "then": then_value,
                     }
                     patch = {
                         "op": "replace",
-- 
2.43.0


From 7edb1224cc2b049634a0df7264cb282ee7f9eb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:06 +0000
Subject: [PATCH 44/71] fix: a skip that is repeated with other selectors keeps
 all of them

---
 .../parser/recipe_parser_convert.py           | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 1fdaa10..a033944 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -204,6 +204,8 @@ class RecipeParserConvert(RecipeParser):
         conda docs for common selectors:
           https://docs.conda.io/projects/conda-build/en/latest/resources/define-metadata.html#preprocessing-selectors
         """
+        # `skip` may be repeated in V0 recipes, each with its own selector.
+        skip_expressions: dict[str, list[str]] = {}
         for selector, instances in self._v1_recipe._selector_tbl.items():  # pylint: disable=protected-access
             for info in instances:
                 # Selectors can be applied to the parent node if they appear on the same line. We'll ignore these when
@@ -255,7 +257,10 @@ class RecipeParserConvert(RecipeParser):
                 # `skip` is special and can be a single boolean expression or a list of boolean expressions. Builds are
                 # not skipped by default, so there is no condition under which `false` makes a difference.
                 if selector_path.endswith("/build/skip"):
-                    patch["value"] = bool_expression if info.node.value else False
+                    if info.node.value is True:
+                        skip_expressions.setdefault(selector_path, []).append(bool_expression)
+                        continue
+                    patch["value"] = False
                 if not isinstance(info.node.value, bool):
                     # CEP-13 states that ONLY list members may use the `if/then/else` blocks
                     if not info.node.list_member_flag:
@@ -280,6 +285,19 @@ class RecipeParserConvert(RecipeParser):
                 self._patch_and_log(patch)
                 self._v1_recipe.remove_selector(selector_path)
 
+        for path, expressions in skip_expressions.items():
+            # Drop the repeated keys, in favor of a list
+            for _ in expressions[1:]:
+                self._patch_and_log({"op": "remove", "path": path})
+            self._patch_and_log(
+                {
+                    "op": "replace",
+                    "path": path,
+                    "value": expressions[0] if len(expressions) == 1 else cast(JsonType, expressions),
+                }
+            )
+            self._v1_recipe.remove_selector(path)
+
     def _correct_common_misspellings(self, base_package_paths: list[str]) -> None:
         """
         Corrects common spelling mistakes in field names.
-- 
2.43.0


From 95f45d254793fe873f2ee107c1245ca4aa3611d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:23 +0000
Subject: [PATCH 45/71] fix: the first member can be added to an empty object
 or list, so that the only key of a list member can be moved

---
 conda_recipe_manager/parser/recipe_parser.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 210d26c..4272dd2 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -391,6 +391,11 @@ class RecipeParser(RecipeReader):
         # New members must match the type of the collection they are added to.
         if node is not None and (append_to_list or path_to_create):
             members = [child for child in node.children if not child.is_comment()]
+            # `{}` and `[]` are values that may own new members.
+            if node.holds_value() and node.children and node.children[0].value == ([] if append_to_list else {}):
+                return node, virt_idx, phys_idx, path_to_create, append_to_list
+            if node.list_member_flag and not append_to_list and node.value == {}:
+                return node, virt_idx, phys_idx, path_to_create, append_to_list
             if any(child.list_member_flag != append_to_list for child in members) or node.holds_value():
                 return None, INVALID_IDX, INVALID_IDX, "", False
 
@@ -414,6 +419,18 @@ class RecipeParser(RecipeReader):
         if not RecipeParser._is_valid_patch_node(node, virt_idx):
             return False
 
+        # `{}` and `[]` are replaced by their first member
+        if append_to_list or path_to_create:
+            if node.holds_value() and node.children:
+                node.children = []
+            elif node.holds_value():
+                new_node: Final[Node] = RecipeParser._generate_list_member({path_to_create: value})
+                new_node.children[0].comment = node.comment
+                if new_node.children[0].is_single_key():
+                    new_node.children[0].children[0].comment = node.comment
+                node.value, node.comment, node.children = new_node.value, "", new_node.children
+                return True
+
         # Insert members if an index is specified. Otherwise, extend the list of child nodes from the existing list.
         if phys_idx > INVALID_IDX:
             node.children.insert(phys_idx, RecipeParser._generate_list_member(value))
-- 
2.43.0


From 6aa864ff5309d9e27be574f9e386ae464bea5d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:23 +0000
Subject: [PATCH 46/71] fix: conversion: empty tests, licenses and scripts are
 not read as their key names, and section selectors with one member are
 reported

---
 .../parser/recipe_parser_convert.py           | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index a033944..1c43078 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -9,8 +9,10 @@ from __future__ import annotations
 from typing import Final, Optional, cast
 
 from conda_recipe_manager.licenses.spdx_utils import SpdxUtils
+from conda_recipe_manager.parser._node import Node
+from conda_recipe_manager.parser._traverse import traverse
 from conda_recipe_manager.parser._types import ROOT_NODE_VALUE, CanonicalSortOrder, Regex
-from conda_recipe_manager.parser._utils import search_any_regex, set_key_conditionally, stack_path_to_str
+from conda_recipe_manager.parser._utils import search_any_regex, set_key_conditionally, stack_path_to_str, str_to_stack_path
 from conda_recipe_manager.parser.enums import SchemaVersion
 from conda_recipe_manager.parser.recipe_parser import RecipeParser
 from conda_recipe_manager.parser.types import CURRENT_RECIPE_SCHEMA_FORMAT, MultilineVariant
@@ -116,6 +118,18 @@ class RecipeParserConvert(RecipeParser):
             if self._patch_and_log({"op": "remove", "path": path}):
                 self._msg_tbl.add_message(MessageCategory.WARNING, f"Field at `{path}` is no longer supported.")
 
+    def _is_empty_key(self, path: str) -> bool:
+        """
+        Indicates if there is a key at a path that does not have a value.
+
+        :param path: Path to check
+        :returns: True if the path exists and it does not have a value. False otherwise.
+        """
+        node: Final[Optional[Node]] = traverse(
+            self._v1_recipe._root, str_to_stack_path(path)  # pylint: disable=protected-access
+        )
+        return node is not None and node.is_empty_key()
+
     ## Upgrade functions ##
 
     @staticmethod
@@ -212,7 +226,9 @@ class RecipeParserConvert(RecipeParser):
                 # building replacements.
                 if not info.node.is_leaf():
                     # Selectors that apply to a whole section do not have an equivalent.
-                    if not info.node.is_collection_element() and not info.node.is_single_key():
+                    if not info.node.is_collection_element() and (
+                        not info.node.is_single_key() or info.node.children[0].list_member_flag
+                    ):
                         self._msg_tbl.add_message(
                             MessageCategory.WARNING,
                             f"A non-list item had a selector at: {stack_path_to_str(info.path)}",
@@ -417,7 +433,7 @@ class RecipeParserConvert(RecipeParser):
         set_key_conditionally(cast(dict[str, JsonType], new_script_obj), "env", cast(JsonType, new_env))
         set_key_conditionally(cast(dict[str, JsonType], new_script_obj), "secrets", cast(JsonType, new_secrets))
 
-        script_value = self._v1_recipe.get_value(script_path, "")
+        script_value = "" if self._is_empty_key(script_path) else self._v1_recipe.get_value(script_path, "")
         patch_op: Final[str] = "replace" if script_value else "add"
         # TODO: Simple script files should be set as `file` not `content`
         set_key_conditionally(cast(dict[str, JsonType], new_script_obj), "content", script_value)
@@ -530,7 +546,7 @@ class RecipeParserConvert(RecipeParser):
         """
         license_path: Final[str] = RecipeParser.append_to_path(about_path, "/license")
         old_license: Final[Optional[str]] = cast(Optional[str], self._v1_recipe.get_value(license_path, default=None))
-        if old_license is None:
+        if old_license is None or self._is_empty_key(license_path):
             self._msg_tbl.add_message(MessageCategory.WARNING, f"No `license` provided in `{about_path}`")
             return
 
@@ -656,6 +672,11 @@ class RecipeParserConvert(RecipeParser):
             if not self._v1_recipe.contains_value(test_path):
                 continue
 
+            # An empty section does not contain any tests
+            if self._is_empty_key(test_path):
+                self._patch_and_log({"op": "remove", "path": test_path})
+                continue
+
             # Moving `files` to `files/recipe` is not possible in a single `move` operation as a new path has to be
             # created in the path being moved.
             test_files_path = RecipeParser.append_to_path(test_path, "/files")
-- 
2.43.0


From 69f2b718b63a4f8dd5b6205d1aa2d111ba6e4554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:13 +0000
Subject: [PATCH 47/71] fix: conversion: lists that are written as a single
 value, or left empty, are not read as letters

---
 .../parser/recipe_parser_convert.py           | 26 +++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 1c43078..08c9d07 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -130,6 +130,18 @@ class RecipeParserConvert(RecipeParser):
         )
         return node is not None and node.is_empty_key()
 
+    def _get_list(self, path: str) -> list[JsonType]:
+        """
+        Retrieves the members of a list. Lists of one member may be written as a single value.
+
+        :param path: Path to the list
+        :returns: Members of the list. Missing and empty lists do not have any members.
+        """
+        if self._is_empty_key(path):
+            return []
+        value: Final[JsonType] = self._v1_recipe.get_value(path, [])
+        return value if isinstance(value, list) else [value]
+
     ## Upgrade functions ##
 
     @staticmethod
@@ -390,7 +402,7 @@ class RecipeParserConvert(RecipeParser):
         script_env_path: Final[str] = RecipeParser.append_to_path(build_path, "/script_env")
         # The environment list could contain dictionaries if the variables are conditionally included.
         script_env_lst: Final[list[str | dict[str, str]]] = cast(
-            list[str | dict[str, str]], self._v1_recipe.get_value(script_env_path, [])
+            list[str | dict[str, str]], self._get_list(script_env_path)
         )
         if not script_env_lst:
             return
@@ -628,19 +640,21 @@ class RecipeParserConvert(RecipeParser):
         # flag defaults to `True`). DO NOT ADD THIS FLAG IF THE RECIPE IS NOT A "PYTHON RECIPE".
         if "python" not in cast(
             list[str],
-            self._v1_recipe.get_value(RecipeParser.append_to_path(base_path, "/requirements/host"), default=[]),
+            self._get_list(RecipeParser.append_to_path(base_path, "/requirements/host")),
         ):
             return
 
         commands_path: Final[str] = RecipeParser.append_to_path(test_path, "/commands")
-        commands = cast(list[str], self._v1_recipe.get_value(commands_path, []))
+        commands = cast(list[str], self._get_list(commands_path))
         pip_check = False
         for i, command in enumerate(commands):
             # TODO Future: handle selector cases (pip check will be in the `then` section of a dictionary object)
             if not isinstance(command, str) or command not in pip_check_variants:
                 continue
             # For now, we will only patch-out the first instance when no selector is attached
-            self._patch_and_log({"op": "remove", "path": RecipeParser.append_to_path(commands_path, f"/{i}")})
+            # A command that is not in a list is removed below, with the key
+            if len(commands) > 1:
+                self._patch_and_log({"op": "remove", "path": RecipeParser.append_to_path(commands_path, f"/{i}")})
             pip_check = True
             break
 
@@ -681,7 +695,9 @@ class RecipeParserConvert(RecipeParser):
             # created in the path being moved.
             test_files_path = RecipeParser.append_to_path(test_path, "/files")
             if self._v1_recipe.contains_value(test_files_path):
-                test_files_value = self._v1_recipe.get_value(test_files_path)
+                test_files_value = (
+                    None if self._is_empty_key(test_files_path) else self._v1_recipe.get_value(test_files_path)
+                )
                 # TODO: Fix, replace does not work here, produces `- null`, Issue #20
                 # self._patch_and_log({"op": "replace", "path": test_files_path, "value": None})
                 self._patch_and_log({"op": "remove", "path": test_files_path})
-- 
2.43.0


From d516e03e257ff15d0b196fb6739c91d4bf328873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:23 +0000
Subject: [PATCH 48/71] fix: conversion starts from the current state of the
 recipe, so that edits are converted and conversions can be repeated

---
 conda_recipe_manager/parser/recipe_parser_convert.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 08c9d07..7ec3e70 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -852,6 +852,10 @@ class RecipeParserConvert(RecipeParser):
         # Approach: In the event that we want to expand support later, this function should be implemented in terms
         # of a `RecipeParser` tree. This will make it easier to build an upgrade-path, if we so choose to pursue one.
 
+        # Start from the current state of the recipe, so that edits are converted and conversions are repeatable.
+        self._v1_recipe = RecipeParser(self.render())
+        self._msg_tbl = MessageTable()
+
         # Log the original comments
         old_comments: Final[dict[str, str]] = self._v1_recipe.get_comments_table()
 
-- 
2.43.0


From 6a8fe046cf9bb7896db658cd8d9ae21892b18b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:57 +0000
Subject: [PATCH 49/71] fix: pre-processing does not change strings, other
 look-ups, list members and hash types that it does not document

---
 conda_recipe_manager/parser/_types.py         | 19 +++++++++++-----
 conda_recipe_manager/parser/recipe_parser.py  |  8 ++++++-
 .../parser/recipe_parser_convert.py           | 22 ++++++-------------
 3 files changed, 27 insertions(+), 22 deletions(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 0b58997..f7596f0 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -133,25 +133,32 @@ class Regex:
     ## Pre-process conversion tooling regular expressions ##
     # Finds `environ[]` used by a some recipe files. Requires a whitespace character to prevent matches with
     # `os.environ[]`, which is very rare.
-    PRE_PROCESS_ENVIRON: Final[re.Pattern[str]] = re.compile(r"\s+environ\[(\"|')(.*)(\"|')\]")
+    PRE_PROCESS_ENVIRON: Final[re.Pattern[str]] = re.compile(r"(\s+)environ\[(\"|')([^\"'\n]*)\2\]")
     # Finds commonly used variants of `{{ hash_type }}:` which is a substitution for the `sha256` field
     PRE_PROCESS_JINJA_HASH_TYPE_KEY: Final[re.Pattern[str]] = re.compile(
         r"'{0,1}\{\{ (hash_type|hash|hashtype) \}\}'{0,1}:"
     )
     # Finds set statements that use dot functions over piped functions (`foo.replace(...)` vs `foo | replace(...)`).
-    # Group 1 and Group 2 match the left and right sides of the period mark.
     PRE_PROCESS_JINJA_DOT_FUNCTION_IN_ASSIGNMENT: Final[re.Pattern[str]] = re.compile(
-        r"(\{%\s*set.*=.*)\.(.*\(.*\)\s*%\})"
+        r"\{%\s*set(?:(?!%\}).)*=(?:(?!%\}).)*\)\s*%\}"
     )
     PRE_PROCESS_JINJA_DOT_FUNCTION_IN_SUBSTITUTION: Final[re.Pattern[str]] = re.compile(
-        r"(\{\{\s*[a-zA-Z0-9_]*.*)\.([a-zA-Z0-9_]*\(.*\)\s*\}\})"
+        r"\{\{(?:(?!\}\}).)*\)\s*\}\}"
+    )
+    # Finds the period mark of the dot functions in the above statements. Strings (Group 1) do not contain functions and
+    # `env.get()` is not a function of a value.
+    PRE_PROCESS_JINJA_DOT_FUNCTION: Final[re.Pattern[str]] = re.compile(
+        r"(\"[^\"]*\"|'[^']*')|(?<=[\w)\]\"'])(?<!\benv)\.(?=[a-zA-Z_]\w*\()"
     )
     # Strips empty parenthesis artifacts on functions like `| lower`
     PRE_PROCESS_JINJA_DOT_FUNCTION_STRIP_EMPTY_PARENTHESIS: Final[re.Pattern[str]] = re.compile(
         r"(\|\s*(lower|upper))(\(\))"
     )
-    # Attempts to normalize multiline strings containing quoted escaped newlines.
-    PRE_PROCESS_QUOTED_MULTILINE_STRINGS: Final[re.Pattern[str]] = re.compile(r"(\s*)(.*):\s*['\"](.*)\\n(.*)['\"]")
+    # Attempts to normalize multiline strings containing quoted escaped newlines. Only the values of keys that can be
+    # represented with the `|` syntax are matched.
+    PRE_PROCESS_QUOTED_MULTILINE_STRINGS: Final[re.Pattern[str]] = re.compile(
+        r"(\n[ \t]*)(\w[\w.-]*):[ \t]+\"([^\s\"\\][^\"\\\n]*)\\n(?![^{}\"]*\}\})([^\"\\\n]*)\"[ \t]*(?=\n|$)"
+    )
     # rattler-build@0.18.0 deprecates `min_pin` and `max_pin`
     PRE_PROCESS_MIN_PIN_REPLACEMENT: Final[re.Pattern[str]] = re.compile(r"min_pin=")
     PRE_PROCESS_MAX_PIN_REPLACEMENT: Final[re.Pattern[str]] = re.compile(r"max_pin=")
diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 4272dd2..29eeb25 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -91,7 +91,13 @@ class RecipeParser(RecipeReader):
         }
         for hash_type_variant in hash_type_var_variants:
             content = content.replace(hash_type_variant, "")
-        return Regex.PRE_PROCESS_JINJA_HASH_TYPE_KEY.sub("sha256:", content)
+
+        def _hash_type(key: re.Match[str]) -> str:
+            # The variable may still be set to another type
+            hash_type = re.search(r"\{%-?\s*set\s+" + key.group(1) + r"\s*=\s*[\"'](md5|sha\d+)[\"']", content)
+            return "sha256:" if hash_type is None else f"{hash_type.group(1)}:"
+
+        return Regex.PRE_PROCESS_JINJA_HASH_TYPE_KEY.sub(_hash_type, content)
 
     ## JINJA Variable Editing Functions ##
 
diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 7ec3e70..5ef4877 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -6,6 +6,7 @@
 
 from __future__ import annotations
 
+import re
 from typing import Final, Optional, cast
 
 from conda_recipe_manager.licenses.spdx_utils import SpdxUtils
@@ -801,8 +802,11 @@ class RecipeParserConvert(RecipeParser):
         # Some recipes use `foo.<function()>` instead of `{{ foo | <function()> }}` in JINJA statements. This causes
         # rattler-build to fail with `invalid operation: object has no method named <function()>`
         # NOTE: This is currently done BEFORE converting to use `env.get()` to wipe-out those changes.
-        content = Regex.PRE_PROCESS_JINJA_DOT_FUNCTION_IN_ASSIGNMENT.sub(r"\1 | \2", content)
-        content = Regex.PRE_PROCESS_JINJA_DOT_FUNCTION_IN_SUBSTITUTION.sub(r"\1 | \2", content)
+        def _pipe_functions(statement: re.Match[str]) -> str:
+            return Regex.PRE_PROCESS_JINJA_DOT_FUNCTION.sub(lambda m: m.group(1) or " | ", statement.group(0))
+
+        content = Regex.PRE_PROCESS_JINJA_DOT_FUNCTION_IN_ASSIGNMENT.sub(_pipe_functions, content)
+        content = Regex.PRE_PROCESS_JINJA_DOT_FUNCTION_IN_SUBSTITUTION.sub(_pipe_functions, content)
         # Strip any problematic parenthesis that may be left over from the previous operations.
         content = Regex.PRE_PROCESS_JINJA_DOT_FUNCTION_STRIP_EMPTY_PARENTHESIS.sub(r"\1", content)
         # Attempt to normalize quoted multiline strings into the common `|` syntax.
@@ -818,19 +822,7 @@ class RecipeParserConvert(RecipeParser):
         # NOTE:
         #   - This is mostly used by Bioconda recipes and R-based-packages in the `license_file` field.
         #   - From our search, it looks like we never deal with more than one set of outer quotes within the brackets
-        replacements: list[tuple[str, str]] = []
-        for groups in cast(list[str], Regex.PRE_PROCESS_ENVIRON.findall(content)):
-            # Each match should return ["<quote char>", "<key>", "<quote_char>"]
-            quote_char = groups[0]
-            key = groups[1]
-            replacements.append(
-                (
-                    f"environ[{quote_char}{key}{quote_char}]",
-                    f"env.get({quote_char}{key}{quote_char})",
-                )
-            )
-        for old, new in replacements:
-            content = content.replace(old, new, 1)
+        content = Regex.PRE_PROCESS_ENVIRON.sub(r"\1env.get(\2\3\2)", content)
 
         # Replace `{{ hash_type }}:` with the value of `hash_type`, which is likely `sha256`. This is an uncommon
         # practice that is not part of the V1 specification. Currently, about 70 AnacondaRecipes and conda-forge files
-- 
2.43.0


From 7360b8fb8b530347c54aa9bef282b1e71b63cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:15 +0000
Subject: [PATCH 50/71] fix: conversion does not drop a field when its new name
 is taken

---
 conda_recipe_manager/parser/recipe_parser_convert.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 5ef4877..04f332b 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -82,7 +82,14 @@ class RecipeParserConvert(RecipeParser):
         old_path: Final[str] = RecipeParser.append_to_path(base_path, old_ext)
         if not self._v1_recipe.contains_value(old_path):
             return
-        self._patch_and_log({"op": "move", "from": old_path, "path": RecipeParser.append_to_path(base_path, new_ext)})
+        new_path: Final[str] = RecipeParser.append_to_path(base_path, new_ext)
+        # Moving a value would replace the one that is already there
+        if self._v1_recipe.contains_value(new_path):
+            self._msg_tbl.add_message(
+                MessageCategory.WARNING, f"Field at `{old_path}` was not moved, as `{new_path}` already exists."
+            )
+            return
+        self._patch_and_log({"op": "move", "from": old_path, "path": new_path})
 
     def _patch_move_new_path(self, base_path: str, old_ext: str, new_path: str, new_ext: Optional[str] = None) -> None:
         """
-- 
2.43.0


From ed73d803001019149e08b386960179b6c541b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:34 +0000
Subject: [PATCH 51/71] fix: bulk conversion accounts for all failures, does
 not round failures away and works on directories with one recipe

---
 conda_recipe_manager/commands/convert.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/conda_recipe_manager/commands/convert.py b/conda_recipe_manager/commands/convert.py
index 357443f..14a81e5 100644
--- a/conda_recipe_manager/commands/convert.py
+++ b/conda_recipe_manager/commands/convert.py
@@ -164,8 +164,13 @@ def convert_file(file_path: Path, output: Optional[Path], print_output: bool, de
             "WARNING: File is not called `recipe.yaml`.",
             print_enabled=print_output and os.path.basename(output) != "recipe.yaml",
         )
-        with open(output, "w", encoding="utf-8") as fptr:
-            fptr.write(conversion_result.content)
+        try:
+            with open(output, "w", encoding="utf-8") as fptr:
+                fptr.write(conversion_result.content)
+        except OSError as e:
+            return _record_unrecoverable_failure(
+                conversion_result, ExitCode.IO_ERROR, f"EXCEPTION: Failed to write: {output}", print_output, e
+            )
 
     conversion_result.set_return_code()
     return conversion_result
@@ -273,7 +278,7 @@ def convert(
     files: list[Path] = _get_files_list(path)
 
     ## Single-file case ##
-    if len(files) == 1:
+    if path.is_file():
         result: Final[ConversionResult] = convert_file(files[0], output, True, debug)
         print_messages(MessageCategory.WARNING, result.msg_tbl)
         print_messages(MessageCategory.ERROR, result.msg_tbl)
@@ -306,9 +311,10 @@ def convert(
     num_recipe_success: int = 0
 
     for project_name, result in results.items():
-        if result.code in {ExitCode.PARSE_EXCEPTION, ExitCode.READ_EXCEPTION, ExitCode.RENDER_EXCEPTION}:
+        # All unrecoverable failures are recorded as exceptions
+        exceptions = result.msg_tbl.get_messages(MessageCategory.EXCEPTION)
+        if exceptions:
             recipes_with_except.append(project_name)
-            exceptions = result.msg_tbl.get_messages(MessageCategory.EXCEPTION)
             for exception in exceptions:
                 except_histogram.setdefault(exception, 0)
                 except_histogram[exception] += 1
@@ -368,4 +374,6 @@ def convert(
         final_output["recipes_with_warnings"] = recipes_with_warnings
 
     print_out(json.dumps(final_output, indent=2))
-    sys.exit(ExitCode.SUCCESS if percent_recipe_success >= min_success_rate else ExitCode.MISSED_SUCCESS_THRESHOLD)
+    # NOTE: The rounded percentage could hide failures.
+    success_rate: Final[float] = num_recipe_success / total_recipes
+    sys.exit(ExitCode.SUCCESS if success_rate >= min_success_rate else ExitCode.MISSED_SUCCESS_THRESHOLD)
-- 
2.43.0


From 41f88160635b5ee9b114d0ac8678d24c5e62b7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:17 +0000
Subject: [PATCH 52/71] fix: the patch command applies its patches completely
 or not at all, and reports files it can't read

---
 conda_recipe_manager/commands/patch.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/conda_recipe_manager/commands/patch.py b/conda_recipe_manager/commands/patch.py
index 587fcad..3ec4946 100644
--- a/conda_recipe_manager/commands/patch.py
+++ b/conda_recipe_manager/commands/patch.py
@@ -29,14 +29,20 @@ def _pre_patch_validate(
     :returns: A tuple containing the patch blob/blobs from the json file and a RecipeParser object
     """
     try:
-        contents_json = cast(JsonPatchType | list[JsonPatchType], json.loads(json_patch_file_path.read_text()))
-    except json.JSONDecodeError:
+        contents_json = cast(
+            JsonPatchType | list[JsonPatchType], json.loads(json_patch_file_path.read_text(encoding="utf-8"))
+        )
+    except IOError:
+        print_err(f"Couldn't read the given JSON file: {json_patch_file_path}")
+        sys.exit(ExitCode.IO_ERROR)
+    # NOTE: This includes text that can't be decoded
+    except (ValueError, RecursionError):
         print(f"Non-JSON file provided: {json_patch_file_path}")
         sys.exit(ExitCode.JSON_ERROR)
 
     try:
-        contents_recipe = recipe_file_path.read_text()
-    except IOError:
+        contents_recipe = recipe_file_path.read_text(encoding="utf-8")
+    except (IOError, UnicodeDecodeError):
         print_err(f"Couldn't read the given recipe file: {recipe_file_path}")
         sys.exit(ExitCode.IO_ERROR)  # untested
 
@@ -81,5 +87,7 @@ def patch(json_patch_file_path: str, recipe_file_path: str) -> None:
         print_err("The patch provided did not follow the expected schema.")
         error_code = ExitCode.JSON_ERROR
 
-    recipe_path.write_text(recipe_parser.render(), encoding="utf-8")
+    # The patches are applied completely or not at all
+    if error_code == ExitCode.SUCCESS:
+        recipe_path.write_text(recipe_parser.render(), encoding="utf-8")
     sys.exit(error_code)
-- 
2.43.0


From a255a2002d69140633183acd5d4eac911168061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:14 +0000
Subject: [PATCH 53/71] fix: indented Jinja lines don't change the indentation
 of the line that follows

---
 conda_recipe_manager/parser/_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index f7596f0..d25923c 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -173,7 +173,8 @@ class Regex:
 
     ## Jinja regular expressions ##
     JINJA_V0_SUB: Final[re.Pattern[str]] = re.compile(r"{{" + _JINJA_EXPRESSION_PATTERN + r"}}")
-    JINJA_V0_LINE: Final[re.Pattern[str]] = re.compile(r"({%.*%}|{#.*#})[ \t\r]*(?:\n|\Z)")
+    # NOTE: The indentation is a part of the line. If it was left behind, it would indent the line that follows.
+    JINJA_V0_LINE: Final[re.Pattern[str]] = re.compile(r"^[ \t]*({%.*%}|{#.*#})[ \t\r]*(?:\n|\Z)", re.MULTILINE)
     JINJA_V0_SET_LINE: Final[re.Pattern[str]] = re.compile(
         r"{%-?\s*set\s*" + _JINJA_VAR_FUNCTION_PATTERN + r"\s*=.*%}\s*(?:\n|\Z)"
     )
-- 
2.43.0


From 4c7901b6a5ceacc85b9f3a96c901e8fdd7c246b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:17 +0000
Subject: [PATCH 54/71] fix: recognizing match() takes no more than quadratic
 time

---
 conda_recipe_manager/parser/_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index d25923c..614074a 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -197,7 +197,7 @@ class Regex:
         r"([\"\']?[\w\.]+[\"\']?)\s*\+\s*([\"\']?[\w\.]+[\"\']?)"
     )
     # `match()` is a JINJA function available in the V1 recipe format
-    JINJA_FUNCTION_MATCH: Final[re.Pattern[str]] = re.compile(r"match\(.*,.*\)")
+    JINJA_FUNCTION_MATCH: Final[re.Pattern[str]] = re.compile(r"match\([^,\n]*,.*\)")
     JINJA_FUNCTIONS_SET: Final[set[re.Pattern[str]]] = {
         JINJA_FUNCTION_LOWER,
         JINJA_FUNCTION_UPPER,
-- 
2.43.0


From 0e1d0d71ef0fa9e885c63a5903d679a4271be39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:35 +0000
Subject: [PATCH 55/71] fix: the first key of a list member may be found on the
 line after the list marker

---
 conda_recipe_manager/parser/recipe_reader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index dc7f5df..a091c15 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -533,6 +533,12 @@ class RecipeReader(IsModifiable):
                 continue
 
             new_indent = num_tab_spaces(line)
+            # The first key of a list member may be found on the line after the list marker
+            if clean_line == "-" and line_idx < num_lines and num_tab_spaces(lines[line_idx]) >= new_indent + 2:
+                member_line = lines[line_idx].lstrip()
+                if member_line and member_line[0] not in "-#":
+                    lines[line_idx] = f"{line.rstrip():<{num_tab_spaces(lines[line_idx])}}{member_line}"
+                    continue
             new_node = RecipeReader._parse_line_node(clean_line)
             # If the last node ended (pre-comments) with a |, >, or other multi-line character, reset the value to be a
             # list of the following extra-indented strings
-- 
2.43.0


From d91baef97d8aacb9211e3b2138bc2179b7062cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:58 +0000
Subject: [PATCH 56/71] fix: variables and values are copied when they are
 handed in or out

---
 conda_recipe_manager/parser/recipe_parser.py | 2 +-
 conda_recipe_manager/parser/recipe_reader.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 29eeb25..bbfed33 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -108,7 +108,7 @@ class RecipeParser(RecipeReader):
         :param var: Variable to modify
         :param value: Value to set
         """
-        self._vars_tbl[var] = value
+        self._vars_tbl[var] = copy.deepcopy(value)
         self._expression_vars.discard(var)
         self._is_modified = True
         # V1 recipes store their variables in the parse tree
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index a091c15..1ee7680 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -236,12 +236,12 @@ class RecipeReader(IsModifiable):
                     members.append(Node(children=RecipeReader._generate_subtree(member), list_member_flag=True))
                     continue
                 # Lists in lists are found on 1 line
-                node = Node(member) if isinstance(member, list) else RecipeReader._generate_subtree(member)[0]
+                node = Node(copy.deepcopy(member)) if isinstance(member, list) else RecipeReader._generate_subtree(member)[0]
                 node.list_member_flag = True
                 members.append(node)
             return members
 
-        return [Node(cast(Primitives, value))]
+        return [Node(copy.deepcopy(cast(Primitives, value)))]
 
     def _set_on_schema_version(self) -> tuple[int, re.Pattern[str]]:
         """
@@ -1205,7 +1205,7 @@ class RecipeReader(IsModifiable):
             if default == RecipeReader._sentinel or isinstance(default, SentinelType):
                 raise KeyError
             return default
-        return self._vars_tbl[var]
+        return copy.deepcopy(self._vars_tbl[var])
 
     def get_variable_references(self, var: str) -> list[str]:
         """
-- 
2.43.0


From a24937c71895e678734cd7d10b950260914afde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:04 +0000
Subject: [PATCH 57/71] fix: Report script_env members that are not strings
 instead of failing

---
 conda_recipe_manager/parser/recipe_parser_convert.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser_convert.py b/conda_recipe_manager/parser/recipe_parser_convert.py
index 04f332b..6a08c86 100644
--- a/conda_recipe_manager/parser/recipe_parser_convert.py
+++ b/conda_recipe_manager/parser/recipe_parser_convert.py
@@ -424,7 +424,7 @@ class RecipeParserConvert(RecipeParser):
         for item in script_env_lst:
             # Attempt to edit conditional variables
             if isinstance(item, dict):
-                if "then" not in item:
+                if not isinstance(item.get("then"), str):
                     self._msg_tbl.add_message(
                         MessageCategory.ERROR, f"Could not parse dictionary `{item}` found in {script_env_path}"
                     )
@@ -442,6 +442,11 @@ class RecipeParserConvert(RecipeParser):
                     )
                 continue
 
+            # Only strings can name a variable
+            if not isinstance(item, str):
+                self._msg_tbl.add_message(MessageCategory.ERROR, f"Could not parse `{item}` found in {script_env_path}")
+                continue
+
             tokens = [i.strip() for i in item.split("=")]
             if len(tokens) == 1:
                 new_secrets.append(tokens[0])
-- 
2.43.0


From 71bb464de4ad30599213951894b473d6e5ff00ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:27 +0000
Subject: [PATCH 58/71] fix: Patch every value that a search finds, whichever
 position it moves to

---
 conda_recipe_manager/parser/recipe_parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index bbfed33..be9507e 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -688,9 +688,10 @@ class RecipeParser(RecipeReader):
         """
         paths = self.search(regex, include_comment)
         summation: bool = True
-        for path in paths:
-            patch["path"] = path
-            summation = summation and self.patch(patch)
+        # Work from the bottom to the top. List members that are added or removed do not shift the paths of the matches that
+        # are left to patch. One failure does not prevent the other matches from being patched.
+        for path in reversed(paths):
+            summation = self.patch({**patch, "path": path}) and summation
         return summation
 
     def diff(self) -> str:
-- 
2.43.0


From a373fb520fb668015c2e5e39f5fcb671d18c8290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:18 +0000
Subject: [PATCH 59/71] fix: Digits that are not decimal, such as superscripts,
 are not list indices

---
 conda_recipe_manager/parser/_traverse.py          | 4 ++--
 conda_recipe_manager/parser/recipe_parser.py      | 8 ++++----
 conda_recipe_manager/parser/recipe_parser_deps.py | 6 +++---
 conda_recipe_manager/parser/recipe_reader.py      | 2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/conda_recipe_manager/parser/_traverse.py b/conda_recipe_manager/parser/_traverse.py
index d888f2f..c2f3215 100644
--- a/conda_recipe_manager/parser/_traverse.py
+++ b/conda_recipe_manager/parser/_traverse.py
@@ -70,7 +70,7 @@ def _traverse_recurse(node: Node, path: StrStack) -> Optional[Node]:
 
     path_part = path[-1]
     # Check if the path is attempting an array index.
-    if path_part.isdigit():
+    if path_part.isdecimal():
         # Map virtual to physical indices and perform some out-of-bounds checks.
         idx_map = remap_child_indices_virt_to_phys(node.children)
         virtual_idx = int(path_part)
@@ -138,7 +138,7 @@ def traverse_with_index(root: Node, path: StrStack) -> tuple[Optional[Node], int
     virt_idx: int = INVALID_IDX
     phys_idx: int = INVALID_IDX
     # Pre-determine if the path is targeting a list position. Patching only applies on the last index provided.
-    if path[0].isdigit():
+    if path[0].isdecimal():
         # Find the index position of the target on the parent's list
         virt_idx = int(path.pop(0))
 
diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index be9507e..876ea57 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -309,7 +309,7 @@ class RecipeParser(RecipeReader):
         :param path_stack: Path that describes a location in the tree, as a list, treated like a stack.
         :returns: A tuple containing the node (`None`, if not found), the VIRTUAL index, and the PHYSICAL index.
         """
-        if len(path_stack) == 0 or not path_stack[0].isdigit():
+        if len(path_stack) == 0 or not path_stack[0].isdecimal():
             return traverse(root, path_stack), INVALID_IDX, INVALID_IDX
         # Ensures that there is a list with a member at that index
         if traverse(root, path_stack.copy()) is None:
@@ -370,7 +370,7 @@ class RecipeParser(RecipeReader):
             append_to_list = True
 
         # The end of the list may also be specified with an index.
-        elif path_stack[0].isdigit():
+        elif path_stack[0].isdecimal():
             parent = traverse(self._root, path_stack[1:])
             if parent is not None and int(path_stack[0]) == len(remap_child_indices_virt_to_phys(parent.children)):
                 path_stack.pop(0)
@@ -390,7 +390,7 @@ class RecipeParser(RecipeReader):
         if node is None and not append_to_list:
             path_to_create = path_stack_copy.pop(0)
             # Indices are not keys, so they can't be created.
-            if path_to_create.isdigit():
+            if path_to_create.isdecimal():
                 return None, INVALID_IDX, INVALID_IDX, "", False
             node = traverse(self._root, path_stack_copy)
 
@@ -464,7 +464,7 @@ class RecipeParser(RecipeReader):
             return False
 
         # Removal in all scenarios requires targeting the parent node.
-        node_idx = -1 if not path_stack[0].isdigit() else int(path_stack[0])
+        node_idx = -1 if not path_stack[0].isdecimal() else int(path_stack[0])
         # `traverse()` is destructive to the stack, so make a copy for the second traversal call.
         path_stack_copy = path_stack.copy()
         node_to_rm = traverse(self._root, path_stack)
diff --git a/conda_recipe_manager/parser/recipe_parser_deps.py b/conda_recipe_manager/parser/recipe_parser_deps.py
index a4e44e3..cb7e2db 100644
--- a/conda_recipe_manager/parser/recipe_parser_deps.py
+++ b/conda_recipe_manager/parser/recipe_parser_deps.py
@@ -51,17 +51,17 @@ class RecipeParserDeps(RecipeParser, RecipeReaderDeps):
                 not bool(path[0])
                 and path[1] == "requirements"
                 and str_to_dependency_section(path[2]) is not None
-                and path[3].isdigit()
+                and path[3].isdecimal()
             )
 
         # Multi-output
         return (
             not bool(path[0])
             and path[1] == "outputs"
-            and path[2].isdigit()
+            and path[2].isdecimal()
             and path[3] == "requirements"
             and str_to_dependency_section(path[4]) is not None
-            and path[5].isdigit()
+            and path[5].isdecimal()
         )
 
     @staticmethod
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 1ee7680..8306f8f 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -304,7 +304,7 @@ class RecipeReader(IsModifiable):
             return self._vars_tbl[s]
 
         # int
-        if s.isdigit():
+        if s.isdecimal():
             return int(s)
 
         # float
-- 
2.43.0


From 2c98fee39fd5f36933f179f5ed8819b11dc79807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:47 +0000
Subject: [PATCH 60/71] fix: A comment that becomes the start of a list member
 does not become a part of the multi-line string in front of it

---
 conda_recipe_manager/parser/recipe_reader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 8306f8f..4353959 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -809,9 +809,15 @@ class RecipeReader(IsModifiable):
             # Nodes representing collections in a list have nothing to render
             lines.append(f"{tmp_spaces}{list_prefix}{node.value}:  {node.comment}".rstrip())
 
+        is_list_marker_rendered = not node.is_collection_element()
         for child in node.children:
             # Top-level empty-key edge case: Top level keys should have no additional indentation.
             extra_tab = "" if depth < 0 else TAB_AS_SPACES
+            # Comments before the first key of a dictionary in a list are rendered before the list `-` mark. At a deeper
+            # indentation, they would be a part of a multi-line string found in front of them.
+            if not is_list_marker_rendered and child.is_comment():
+                extra_tab = ""
+            is_list_marker_rendered = is_list_marker_rendered or not child.is_comment()
             # Comments in a list are indented to list-level, but do not include a list `-` mark
             if child.is_comment():
                 lines.append(f"{spaces}{extra_tab}" f"{child.comment}".rstrip())
-- 
2.43.0


From bac5f09c66c5b8a01e0ca7fd423b0599f503bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:35 +0000
Subject: [PATCH 61/71] fix: Floats are rendered in a notation that YAML reads
 as floats

---
 conda_recipe_manager/parser/_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index f589048..08063ae 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -210,6 +210,9 @@ def stringify_yaml(
     # Handle special string quote cases
     if isinstance(val, str):
         return quote_ambiguous_strings(quote_special_strings(val, multiline_variant), val, multiline_variant)
+    # YAML requires a decimal point in scientific notation, and has its own notation for numbers that are not finite.
+    if isinstance(val, float) and yaml.load(str(val), Loader=SafeLoader) != val:
+        return cast(str, yaml.representer.SafeRepresenter().represent_float(val).value)
     # Collections that are found on 1 line
     if isinstance(val, (list, dict)):
         try:
-- 
2.43.0


From 79d11131579ae96b3c7ea4661649bd24ffbfefc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:12 +0000
Subject: [PATCH 62/71] fix: Floats in one-line collections are rendered in a
 notation that YAML reads as floats

---
 conda_recipe_manager/parser/_utils.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 08063ae..68defb6 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -184,6 +184,22 @@ def quote_ambiguous_strings(
     return s
 
 
+def _stringify_collection(val: JsonType) -> str:
+    """
+    Converts a collection back to YAML that is found on 1 line.
+
+    :param val: Value to convert
+    :returns: YAML version of the value, in which all strings are quoted.
+    """
+    if isinstance(val, list):
+        return f"[{', '.join(map(_stringify_collection, val))}]"
+    if isinstance(val, dict):
+        return f"{{{', '.join(f'{_stringify_collection(k)}: {_stringify_collection(v)}' for k, v in val.items())}}}"
+    if isinstance(val, float):
+        return str(stringify_yaml(val))
+    return json.dumps(val, default=str)
+
+
 def stringify_yaml(
     val: NodeValue | SentinelType, multiline_variant: MultilineVariant = MultilineVariant.NONE
 ) -> NodeValue:
@@ -220,7 +236,7 @@ def stringify_yaml(
                 return str(val)
         except yaml.YAMLError:
             pass
-        return json.dumps(val, default=str)
+        return _stringify_collection(val)
     return val
 
 
-- 
2.43.0


From 69aa923c7d1e480b4840979e0ea0786a512f2989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:45 +0000
Subject: [PATCH 63/71] fix: Characters outside of the basic multilingual plane
 are not rendered as surrogate pairs

---
 conda_recipe_manager/parser/_utils.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/_utils.py b/conda_recipe_manager/parser/_utils.py
index 68defb6..b48881c 100644
--- a/conda_recipe_manager/parser/_utils.py
+++ b/conda_recipe_manager/parser/_utils.py
@@ -109,6 +109,17 @@ def substitute_markers(s: str, subs: list[str]) -> str:
     return s
 
 
+def _quote_string(s: str) -> str:
+    """
+    Double-quotes a string. In contrast to JSON, YAML has no surrogate pairs, so the characters that JSON escapes with
+    those are left as-is.
+
+    :param s: String to quote
+    :returns: YAML version of the string, on 1 line.
+    """
+    return f'"{"".join(c if ord(c) > 0xFFFF else json.dumps(c)[1:-1] for c in s)}"'
+
+
 def quote_special_strings(s: str, multiline_variant: MultilineVariant = MultilineVariant.NONE) -> str:
     """
     Ensure string quote escaping if quote marks are present. Otherwise this has the unintended consequence of
@@ -147,7 +158,7 @@ def quote_special_strings(s: str, multiline_variant: MultilineVariant = Multilin
     # `*` is common enough that we query the set before checking every "startswith" option as a small optimization.
     if s in _TO_QUOTE_SPECIAL_CHARS or ("${{" not in s and ("'" in s or '"' in s)) or _startswith_check_all():
         # The PyYaml equivalent function injects newlines, hence why we abuse the JSON library to write our YAML
-        return json.dumps(s)
+        return _quote_string(s)
     return s
 
 
@@ -176,7 +187,7 @@ def quote_ambiguous_strings(
     except yaml.YAMLError:
         pass
     if text == s:
-        return json.dumps(s)
+        return _quote_string(s)
     # Escape characters can't be used in JINJA substitutions
     for quote in ('"', "'"):
         if quote not in s and (quote == "'" or "\\" not in s):
@@ -197,6 +208,8 @@ def _stringify_collection(val: JsonType) -> str:
         return f"{{{', '.join(f'{_stringify_collection(k)}: {_stringify_collection(v)}' for k, v in val.items())}}}"
     if isinstance(val, float):
         return str(stringify_yaml(val))
+    if isinstance(val, str):
+        return _quote_string(val)
     return json.dumps(val, default=str)
 
 
-- 
2.43.0


From 95fff27e491cb1058488626a33195aae7f8c09ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:48 +0000
Subject: [PATCH 64/71] fix: Filters in JINJA expressions are applied in order
 and are not dropped from additions

---
 conda_recipe_manager/parser/recipe_reader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 4353959..66bae9b 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -374,7 +374,8 @@ class RecipeReader(IsModifiable):
             # Check for and interpret common JINJA functions
             key, lower_match, upper_match, idx_match, add_concat_match = RecipeReader._set_key_and_matches(key)
 
-            if add_concat_match:
+            # Filters only apply to the operand they are next to, which is not supported.
+            if add_concat_match and not lower_match and not upper_match:
                 lhs = self._eval_jinja_token(cast(str, add_concat_match.group(1)))
                 rhs = self._eval_jinja_token(cast(str, add_concat_match.group(2)))
                 # By default concat two strings and quote them. This ensures YAML will interpret the type correctly.
@@ -394,6 +395,9 @@ class RecipeReader(IsModifiable):
                     value = value.lower()
                 if upper_match:
                     value = value.upper()
+                # Filters are applied from left to right
+                if lower_match and upper_match and upper_match.start() < lower_match.start():
+                    value = value.lower()
                 if idx_match:
                     idx = int(cast(str, idx_match.group(2)))
                     # From our research, it looks like string indexing on JINJA variables is almost exclusively used
-- 
2.43.0


From aaea0b5bda3fb8c84ed5ed62e714af3bce6e93d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:43 +0000
Subject: [PATCH 65/71] fix: A move of a value that does not exist is refused,
 also onto itself

---
 conda_recipe_manager/parser/recipe_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/recipe_parser.py b/conda_recipe_manager/parser/recipe_parser.py
index 876ea57..41d0bde 100644
--- a/conda_recipe_manager/parser/recipe_parser.py
+++ b/conda_recipe_manager/parser/recipe_parser.py
@@ -655,7 +655,8 @@ class RecipeParser(RecipeReader):
         # A no-op move is silly, but we might as well make it efficient AND ensure a no-op move doesn't corrupt our
         # modification flag.
         if op == "move" and path == patch["from"]:
-            return True
+            # As per the RFC, there must be a value to move.
+            return self.contains_value(path)
 
         # Both versions of the path are sent over so that the op can easily use both private and public functions
         # (without incurring even more conversions between path types).
-- 
2.43.0


From b4663efcc8b2e4b8498c58f59e1a037fbef1aaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:11 +0000
Subject: [PATCH 66/71] fix: Fetching a linked git work tree does not modify
 the repository it belongs to

---
 conda_recipe_manager/fetcher/git_artifact_fetcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/fetcher/git_artifact_fetcher.py b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
index 138e790..c0af283 100644
--- a/conda_recipe_manager/fetcher/git_artifact_fetcher.py
+++ b/conda_recipe_manager/fetcher/git_artifact_fetcher.py
@@ -61,7 +61,8 @@ class GitArtifactFetcher(BaseArtifactFetcher):
         :raises GitError: If there was an issue cloning the target git repository.
         :raises IOError: If there is an issue with the file system.
         """
-        match self._is_remote:
+        # Linked work trees and submodules refer to a repository found elsewhere. A copy would modify that repository.
+        match self._is_remote or Path(self._git_target.url, ".git").is_file():
             case True:
                 return Repo.clone_from(self._git_target.url, self._temp_dir_path)  # type: ignore[misc]
             case False:
-- 
2.43.0


From f2c21f031f94bb23fabfb73dc3edd262516b716b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:26 +0000
Subject: [PATCH 67/71] fix: A list member with the value / is not taken for
 the root of the recipe

---
 conda_recipe_manager/parser/_node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conda_recipe_manager/parser/_node.py b/conda_recipe_manager/parser/_node.py
index 4dc1cf2..c4b7ca8 100644
--- a/conda_recipe_manager/parser/_node.py
+++ b/conda_recipe_manager/parser/_node.py
@@ -119,7 +119,8 @@ class Node:
 
         :returns: True if the node is a root node. False otherwise.
         """
-        return self.value == ROOT_NODE_VALUE
+        # Other nodes may have the same value, such as a member of a list of directories
+        return self.value == ROOT_NODE_VALUE and not self.list_member_flag and not self.key_flag
 
     def is_comment(self) -> bool:
         """
-- 
2.43.0


From a1184fa594eceb75425aff81f013c78803b92598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:26 +0000
Subject: [PATCH 68/71] fix: Searching for a value does not find the names of
 keys without a value

---
 conda_recipe_manager/parser/recipe_reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 66bae9b..2fdc03a 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -1065,6 +1065,7 @@ class RecipeReader(IsModifiable):
             #   - Types are checked so bools aren't simplified to "truthiness" evaluations.
             if (value is None and node.is_empty_key()) or (
                 node.is_leaf()
+                and not node.is_empty_key()
                 and type(node.value) == type(value)  # pylint: disable=unidiomatic-typecheck
                 and node.value == value
             ):
-- 
2.43.0


From 5e79f77f8fb274586b45ba8a66e0151326814aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:26 +0000
Subject: [PATCH 69/71] fix: Document markers (--- and ...) are not read as
 values

---
 conda_recipe_manager/parser/_types.py        | 2 ++
 conda_recipe_manager/parser/recipe_reader.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/conda_recipe_manager/parser/_types.py b/conda_recipe_manager/parser/_types.py
index 614074a..65d130e 100644
--- a/conda_recipe_manager/parser/_types.py
+++ b/conda_recipe_manager/parser/_types.py
@@ -216,6 +216,8 @@ class Regex:
     NOT_A_BLOCK_SCALAR: Final[re.Pattern[str]] = re.compile(
         r"\A\s|[ \t]$|\n\n\Z|[^\n\t\x20-\x7e\xa0-\u2027\u202a-\ud7ff\ue000-\ufefe\uff00-\ufffd]", re.MULTILINE
     )
+    # Marks the start or the end of a YAML document
+    DOCUMENT_MARKER: Final[re.Pattern[str]] = re.compile(r"^(---|\.\.\.)(\s+#.*|\s*)$")
     # Group where the "variant" string is identified
     MULTILINE_VARIANT_CAPTURE_GROUP_CHAR: Final[int] = 1
     MULTILINE_VARIANT_CAPTURE_GROUP_SUFFIX: Final[int] = 2
diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 2fdc03a..6ebbf1a 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -535,6 +535,9 @@ class RecipeReader(IsModifiable):
             clean_line = line.strip()
             if clean_line == "":
                 continue
+            # Markers of the start and the end of the (only) document do not contain a value
+            if Regex.DOCUMENT_MARKER.match(line):
+                continue
 
             new_indent = num_tab_spaces(line)
             # The first key of a list member may be found on the line after the list marker
-- 
2.43.0


From 584457f0d322ec02259f5edaab3d05e7ede32348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:26 +0000
Subject: [PATCH 70/71] fix: Keys that YAML would read as something else are
 rendered in quotes

---
 conda_recipe_manager/parser/recipe_reader.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 6ebbf1a..75b1776 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -749,6 +749,8 @@ class RecipeReader(IsModifiable):
         :param parent: (Optional) Parent node to the current node. Set by recursive calls only.
         """
         spaces = TAB_AS_SPACES * depth
+        # Like values, some keys have to be quoted
+        key = stringify_yaml(node.value)
 
         # Edge case: The first element of dictionary in a list has a list `- ` prefix. Subsequent keys in the dictionary
         # just have a tab.
@@ -759,9 +761,9 @@ class RecipeReader(IsModifiable):
             # Edge case: Handle a list containing 1 member
             if node.children[0].list_member_flag:
                 if is_first_collection_child:
-                    lines.append(f"{TAB_AS_SPACES * (depth-1)}- {node.value}:  {node.comment}".rstrip())
+                    lines.append(f"{TAB_AS_SPACES * (depth-1)}- {key}:  {node.comment}".rstrip())
                 else:
-                    lines.append(f"{spaces}{node.value}:  {node.comment}".rstrip())
+                    lines.append(f"{spaces}{key}:  {node.comment}".rstrip())
                 RecipeReader._render_list_member(node.children[0], f"{spaces}{TAB_AS_SPACES}", lines)
                 return
 
@@ -772,7 +774,7 @@ class RecipeReader(IsModifiable):
             if node.children[0].multiline_variant != MultilineVariant.NONE:
                 multi_variant: Final[MultilineVariant] = node.children[0].multiline_variant
                 key_prefix: Final[str] = f"{TAB_AS_SPACES * (depth-1)}- " if is_first_collection_child else spaces
-                lines.append(f"{key_prefix}{node.value}: {multi_variant}  {node.comment}".rstrip())
+                lines.append(f"{key_prefix}{key}: {multi_variant}  {node.comment}".rstrip())
                 for val_line in cast(list[str], node.children[0].value):
                     lines.append(
                         f"{spaces}{TAB_AS_SPACES}"
@@ -782,14 +784,14 @@ class RecipeReader(IsModifiable):
 
             if is_first_collection_child:
                 lines.append(
-                    f"{TAB_AS_SPACES * (depth-1)}- {node.value}: "
+                    f"{TAB_AS_SPACES * (depth-1)}- {key}: "
                     f"{stringify_yaml(node.children[0].value)}  "
                     f"{node.children[0].comment}".rstrip()
                 )
                 return
 
             lines.append(
-                f"{spaces}{node.value}: "
+                f"{spaces}{key}: "
                 f"{stringify_yaml(node.children[0].value)}  "
                 f"{node.children[0].comment}".rstrip()
             )
@@ -814,7 +816,7 @@ class RecipeReader(IsModifiable):
                 list_prefix = "- "
                 tmp_spaces = tmp_spaces[TAB_SPACE_COUNT:]
             # Nodes representing collections in a list have nothing to render
-            lines.append(f"{tmp_spaces}{list_prefix}{node.value}:  {node.comment}".rstrip())
+            lines.append(f"{tmp_spaces}{list_prefix}{key}:  {node.comment}".rstrip())
 
         is_list_marker_rendered = not node.is_collection_element()
         for child in node.children:
-- 
2.43.0


From 2b0cdda8ef41b16af7e489f25e7ff8f4dcf6d9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:59 +0000
Subject: [PATCH 71/71] fix: An index in a JINJA addition is not dropped

---
 conda_recipe_manager/parser/recipe_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conda_recipe_manager/parser/recipe_reader.py b/conda_recipe_manager/parser/recipe_reader.py
index 75b1776..9609f9c 100644
--- a/conda_recipe_manager/parser/recipe_reader.py
+++ b/conda_recipe_manager/parser/recipe_reader.py
@@ -374,8 +374,8 @@ class RecipeReader(IsModifiable):
             # Check for and interpret common JINJA functions
             key, lower_match, upper_match, idx_match, add_concat_match = RecipeReader._set_key_and_matches(key)
 
-            # Filters only apply to the operand they are next to, which is not supported.
-            if add_concat_match and not lower_match and not upper_match:
+            # Filters and indices only apply to the operand they are next to, which is not supported.
+            if add_concat_match and not lower_match and not upper_match and not idx_match:
                 lhs = self._eval_jinja_token(cast(str, add_concat_match.group(1)))
                 rhs = self._eval_jinja_token(cast(str, add_concat_match.group(2)))
                 # By default concat two strings and quote them. This ensures YAML will interpret the type correctly.
-- 
2.43.0

