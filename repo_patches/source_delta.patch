From d7fe246150f1161b738b79503c27c52728b316b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:13 +0000
Subject: [PATCH 01/19] fix: don't add every derived quantity to the table of
 known units

Each unit value created by multiplying a base unit (so, each length that was
parsed) was appended to BaseUnit.UNITS, which grew without bound and was
scanned by every later call of parser.units().
---
 src/colosseum/units.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/colosseum/units.py b/src/colosseum/units.py
index 6c392a5..4cca9ee 100644
--- a/src/colosseum/units.py
+++ b/src/colosseum/units.py
@@ -28,7 +28,10 @@ class BaseUnit:
     UNITS = []
 
     def __init__(self, suffix, val=None):
-        BaseUnit.UNITS.append((suffix, self))
+        # Only the base units are known units; the quantities that are
+        # derived from them (10px, 5em, ...) are not.
+        if val is None:
+            BaseUnit.UNITS.append((suffix, self))
         self.suffix = suffix
         self.val = val if val is not None else 1
 
-- 
2.43.0


From 9e1d7de3f769455b5a3c45ca5133be6cee850208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:13 +0000
Subject: [PATCH 02/19] fix: don't accept an angle as a length

parser.units('10deg') returned an AngleUnit, which has no px(); a style with
width: 10deg was accepted, and then made the layout fail.
---
 src/colosseum/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 574b6ae..3c1d5d3 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -24,7 +24,7 @@ def units(value):
         return value * px
     elif isinstance(value, str):
         for suffix, unit in Unit.UNITS:
-            if value.endswith(suffix):
+            if isinstance(unit, Unit) and value.endswith(suffix):
                 try:
                     return float(value[: -len(suffix)]) * unit
                 except ValueError:
-- 
2.43.0


From 09fd7f912174f8f61ab76f51a453f298e5a7e206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:13 +0000
Subject: [PATCH 03/19] fix: accept values that are already parsed for clip,
 quotes, cursor and border-spacing

CSS.copy() assigns the stored (parsed) values to the copy. It raised ValueError
for a style with quotes or with a cursor url, and it silently dropped clip and
border_spacing.
---
 src/colosseum/parser.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 3c1d5d3..df73f75 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -161,7 +161,9 @@ def border_spacing(value):
     * A float (interpreted as pixels).
     * A string with of 1 or 2 length items separated by spaces.
     """
-    if isinstance(value, Sequence) and not isinstance(value, str):
+    if isinstance(value, BorderSpacing):
+        return value
+    elif isinstance(value, Sequence) and not isinstance(value, str):
         values = value
     elif isinstance(value, (int, float)):
         values = (value,)
@@ -181,6 +183,9 @@ def border_spacing(value):
 
 def rect(value):
     """Parse a given rect shape."""
+    if isinstance(value, Rect):
+        return value
+
     value = " ".join(val.strip() for val in value.split())
     if (
         value.startswith("rect(")
@@ -212,7 +217,9 @@ def quotes(value):
     * A sequence: ('<', '>') or ['{', '}']
     * A list of 2 item tuples: [('<', '>'), ('{', '}')]
     """
-    if isinstance(value, str):
+    if isinstance(value, Quotes):
+        return value
+    elif isinstance(value, str):
         values = [val.strip() for val in value.split()]
     elif isinstance(value, Sequence):
         # Flatten list of tuples
@@ -414,7 +421,9 @@ def uri(value):
     * url(<url>)
     * url(  <url>  )
     """
-    if isinstance(value, str):
+    if isinstance(value, Uri):
+        return value
+    elif isinstance(value, str):
         value = value.strip()
     else:
         raise ValueError("Value {value} must be a string")
-- 
2.43.0


From 4cd511649df3e9163713b8424d1e606d1bd8d4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:13 +0000
Subject: [PATCH 04/19] fix: report invalid values as ValueError

clip=5, border_spacing=object(), color='', cursor=5, quotes='1 2', quotes=[1, 2]
and z_index=inf raised AttributeError, IndexError, TypeError or OverflowError;
quotes accepted literals that are not strings.
---
 src/colosseum/parser.py     | 15 +++++++++++++--
 src/colosseum/validators.py |  2 +-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index df73f75..cef2fb0 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -59,7 +59,7 @@ def color(value):
         return value
 
     elif isinstance(value, str):
-        if value[0] == "#":
+        if value.startswith("#"):
             return pound_sign_color(value)
         elif value.startswith("rgba"):
             try:
@@ -167,8 +167,10 @@ def border_spacing(value):
         values = value
     elif isinstance(value, (int, float)):
         values = (value,)
-    else:
+    elif isinstance(value, str):
         values = [x.strip() for x in value.split()]
+    else:
+        raise ValueError(f"Unknown border spacing {str(value)}")
 
     if len(values) == 1:
         horizontal = units(values[0])
@@ -185,6 +187,8 @@ def rect(value):
     """Parse a given rect shape."""
     if isinstance(value, Rect):
         return value
+    elif not isinstance(value, str):
+        raise ValueError(f"Unknown shape {value}")
 
     value = " ".join(val.strip() for val in value.split())
     if (
@@ -223,6 +227,8 @@ def quotes(value):
         values = [val.strip() for val in value.split()]
     elif isinstance(value, Sequence):
         # Flatten list of tuples
+        if not all(isinstance(sublist, Sequence) for sublist in value):
+            raise ValueError(f"Unknown quote {value}")
         values = [repr(item) for sublist in value for item in sublist]
     else:
         raise ValueError(f"Unknown quote {value}")
@@ -240,6 +246,9 @@ def quotes(value):
                 closing = literal_eval(closing)
                 parsed_values.append((opening, closing))
 
+                if not isinstance(opening, str) or not isinstance(closing, str):
+                    raise ValueError(f"Invalid quotes {value}")
+
                 if len(opening) == 0 or len(closing) == 0:
                     raise ValueError(f"Invalid quotes {value}")
 
@@ -455,6 +464,8 @@ def cursor(values):
 
     if isinstance(values, str):
         values = [val.strip() for val in values.split(",")]
+    elif not isinstance(values, Sequence):
+        raise ValueError(f"Unknown cursor {values}")
 
     validated_values = []
     has_cursor_option = False
diff --git a/src/colosseum/validators.py b/src/colosseum/validators.py
index 8b49a98..a1bd4bb 100644
--- a/src/colosseum/validators.py
+++ b/src/colosseum/validators.py
@@ -11,7 +11,7 @@ from .exceptions import ValidationError
 def _numeric_validator(num_value, numeric_type, min_value, max_value):
     try:
         num_value = numeric_type(num_value)
-    except (ValueError, TypeError):
+    except (ValueError, TypeError, OverflowError):
         error_msg = f"Cannot coerce {num_value} to {numeric_type.__name__}"
         raise ValidationError(error_msg)
 
-- 
2.43.0


From 579443a795933eec782ad16a174f222a202e046a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:13 +0000
Subject: [PATCH 05/19] fix: convert hues between 240 and 300 degrees, and
 outside of [0, 360)

hsl(250, 1, .5) was converted to rgb(0, 43, 255), and not rgb(43, 0, 255);
hsl(420, 1, .5), the same color as hsl(60, 1, .5), to magenta.
---
 src/colosseum/colors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/colosseum/colors.py b/src/colosseum/colors.py
index 37a1ec8..2f932d8 100644
--- a/src/colosseum/colors.py
+++ b/src/colosseum/colors.py
@@ -34,7 +34,7 @@ class hsl(Color):
     @property
     def rgb(self):
         c = (1.0 - abs(2.0 * self.l - 1.0)) * self.s
-        h = self.h / 60.0
+        h = self.h % 360 / 60.0
         x = c * (1.0 - abs(h % 2 - 1.0))
         m = self.l - 0.5 * c
 
@@ -47,7 +47,7 @@ class hsl(Color):
         elif h < 4.0:
             r, g, b = m, x + m, c + m
         elif h < 5.0:
-            r, g, b = m, x + m, c + m
+            r, g, b = x + m, m, c + m
         else:
             r, g, b = c + m, m, x + m
 
-- 
2.43.0


From 3c0e73e86f3662c046bc0dda466296373be180ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:14 +0000
Subject: [PATCH 06/19] fix: disable the remaining mutating methods of
 ImmutableList

del value[0], value += [...], value *= 2 and value.clear() changed the list.
---
 src/colosseum/wrappers.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/colosseum/wrappers.py b/src/colosseum/wrappers.py
index ee82a21..f4a75be 100644
--- a/src/colosseum/wrappers.py
+++ b/src/colosseum/wrappers.py
@@ -194,6 +194,15 @@ class ImmutableList(list):
     def __setitem__(self, index, value):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
+    def __delitem__(self, index):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
+    def __iadd__(self, iterable):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
+    def __imul__(self, value):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
     def __hash__(self):
         return hash((self.__class__.__name__, tuple(self)))
 
@@ -216,6 +225,9 @@ class ImmutableList(list):
     def append(self, object):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
+    def clear(self):
+        raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
+
     def extend(self, iterable):
         raise TypeError(f"{self.__class__.__name__} values cannot be changed!")
 
-- 
2.43.0


From 6767a9735e465043d7c7bf634826c52d27da9e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:09 +0000
Subject: [PATCH 07/19] fix: report quotes that can't be evaluated as
 ValueError

quotes='{[]} {[]}' raised TypeError.
---
 src/colosseum/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index cef2fb0..0457dd8 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -252,7 +252,7 @@ def quotes(value):
                 if len(opening) == 0 or len(closing) == 0:
                     raise ValueError(f"Invalid quotes {value}")
 
-            except SyntaxError:
+            except (SyntaxError, TypeError):
                 raise ValueError(f"Invalid quotes {value}")
 
         return Quotes(parsed_values)
-- 
2.43.0


From a579709d7e806136bab1bb9bb7ef669b18a699c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:09 +0000
Subject: [PATCH 08/19] fix: allow changes to the style and the intrinsic size
 of a hidden node

The layout of a node with display: none is None once it has been laid out; every
later change to its style (even the one that shows it again) or to its intrinsic
size raised AttributeError. A node that is false (because it has a length of 0,
for example) was never marked as dirty.
---
 src/colosseum/declaration.py | 4 ++--
 src/colosseum/dimensions.py  | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index 3c3e13e..3ad3a71 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -668,12 +668,12 @@ class CSS:
     ######################################################################
     @property
     def dirty(self):
-        if self._node:
+        if self._node is not None and self._node.layout is not None:
             return self._node.layout.dirty
 
     @dirty.setter
     def dirty(self, value):
-        if self._node:
+        if self._node is not None and self._node.layout is not None:
             self._node.layout.dirty = value
 
     ######################################################################
diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index 2a083d3..18ca332 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -25,11 +25,13 @@ class Size:
 
     @property
     def dirty(self):
-        return self._node.layout.dirty
+        if self._node.layout is not None:
+            return self._node.layout.dirty
 
     @dirty.setter
     def dirty(self, value):
-        self._node.layout.dirty = value
+        if self._node.layout is not None:
+            self._node.layout.dirty = value
 
     @property
     def width(self):
-- 
2.43.0


From 09c2616ac5f4a8782f7e2d04162a38361555fdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:12 +0000
Subject: [PATCH 09/19] fix: lay out trees in which the root or some children
 are hidden

A root with display: none, a hidden child that is the last one of an inline
formatting context, and a hidden child that is followed by a block made layout()
raise AttributeError. A hidden child after a block kept its layout box, and made
the height of its parent 0.
---
 src/colosseum/engine.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index e62cfb7..5657a69 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -108,11 +108,16 @@ def layout(display, node, standard=HTML5):
     containing_block = Viewport(display, node)
     font = DummyFont(-1)  # FIXME: default font
 
-    node.layout.reset()
+    if node.layout is not None:
+        node.layout.reset()
 
     # 10.1 1
     layout_box(display, node, containing_block, containing_block, font)
 
+    # If the root node isn't displayed, it has no layout box.
+    if node.layout is None:
+        return
+
     # The full collapsed extent of the top margin on the root element
     # must be displayed, so move the default content position so that it is.
     node.layout.content_top += node.layout.collapse_top
@@ -232,7 +237,15 @@ def layout_box(display, node, containing_block, viewport, font):
             raise NotImplementedError("Section 17")  # pragma: no cover
         else:
             # Section 9.4.1 - Block formatting context
-            children = anonymize(node.children)
+            visible = []
+            for child in node.children:
+                if child.style.display is None:
+                    # Hidden children don't take part in the flow.
+                    layout_box(display, child, node, viewport, font)
+                else:
+                    visible.append(child)
+
+            children = anonymize(visible)
             offset_top = 0
             bottom_margin = None
 
@@ -671,8 +684,9 @@ def calculate_block_non_replaced_normal_flow_height(node, context):
         # if node.children and node.has_inline_formatting_content: # P4.1
         #     content_height = bottom edge of last line box
         # elif node.children and node.children[-1] non collapsing with bottom margin:
-        if node.children and node.children[-1]:
-            last_child = node.children[-1]
+        displayed = [child for child in node.children if child.layout]
+        if displayed:
+            last_child = displayed[-1]
             content_height = last_child.layout.border_box_bottom
 
             # Merge the margin of the last child with
-- 
2.43.0


From 1649d2d1578411ed7924f01c3c5cddad61526dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:12 +0000
Subject: [PATCH 10/19] fix: lay out a node that is shown again as if it had
 never been hidden

The new layout box of the node had the origin (0, 0), and not the position of its
container; and the layout of its descendants was computed on top of the previous
layout, because layout.reset() doesn't reach below a node without a box.
---
 src/colosseum/engine.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 5657a69..a20bbdb 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -176,6 +176,12 @@ def layout_box(display, node, containing_block, viewport, font):
         # Make sure the node *has* a display box.
         if node.layout is None:
             node.layout = Box(node)
+            # The descendants haven't been reset; and the box must start
+            # at the position of its container.
+            node.layout.reset()
+            if containing_block is not viewport:
+                node.layout._origin_top = containing_block.layout.absolute_content_top
+                node.layout._origin_left = containing_block.layout.absolute_content_left
 
     # Copy margin, border and padding attributes to the layout
     horizontal = {
-- 
2.43.0


From d5a231b8564cdb7423962754de82a603c6459698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:13 +0000
Subject: [PATCH 11/19] fix: let margins that aren't a whole number of pixels
 collapse

A margin of 2.5px was ignored: it took no space between siblings, or at the top
and the bottom of the root.
---
 src/colosseum/dimensions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/dimensions.py b/src/colosseum/dimensions.py
index 18ca332..c7d68a4 100644
--- a/src/colosseum/dimensions.py
+++ b/src/colosseum/dimensions.py
@@ -338,7 +338,7 @@ class Box:
 
     @collapse_top.setter
     def collapse_top(self, value):
-        if isinstance(value, int) and value > self._collapse_top:
+        if isinstance(value, (int, float)) and value > self._collapse_top:
             self._collapse_top = value
 
     @property
@@ -347,7 +347,7 @@ class Box:
 
     @collapse_right.setter
     def collapse_right(self, value):
-        if isinstance(value, int) and value > self._collapse_right:
+        if isinstance(value, (int, float)) and value > self._collapse_right:
             self._collapse_right = value
 
     @property
@@ -356,7 +356,7 @@ class Box:
 
     @collapse_bottom.setter
     def collapse_bottom(self, value):
-        if isinstance(value, int) and value > self._collapse_bottom:
+        if isinstance(value, (int, float)) and value > self._collapse_bottom:
             self._collapse_bottom = value
 
     @property
@@ -365,7 +365,7 @@ class Box:
 
     @collapse_left.setter
     def collapse_left(self, value):
-        if isinstance(value, int) and value > self._collapse_left:
+        if isinstance(value, (int, float)) and value > self._collapse_left:
             self._collapse_left = value
 
     ######################################################################
-- 
2.43.0


From 2e91b106d09d5364fb2fca84db14628f41efbd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:13 +0000
Subject: [PATCH 12/19] fix: don't fail on 'inherit' for a box offset that wins
 over the opposite one

position: relative with left: inherit (or top: inherit) and a right (or bottom)
that isn't auto raised AttributeError.
---
 src/colosseum/engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index a20bbdb..725e7e5 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -295,6 +295,8 @@ def layout_box(display, node, containing_block, viewport, font):
                 value_left = containing_block.layout.content_left
             else:
                 value_left = node.style.left.px(**horizontal)
+        elif node.style.left == INHERIT:  # P7
+            value_left = containing_block.layout.content_left
         else:  # P7
             value_left = node.style.left.px(**horizontal)
 
@@ -313,6 +315,8 @@ def layout_box(display, node, containing_block, viewport, font):
                 value_top = containing_block.layout.content_top
             else:
                 value_top = node.style.top.px(**vertical)
+        elif node.style.top == INHERIT:
+            value_top = containing_block.layout.content_top
         else:
             value_top = node.style.top.px(**vertical)
 
-- 
2.43.0


From 25fc7e7a6fbf5e9b3b3935cd4b5990a30773768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:15 +0000
Subject: [PATCH 13/19] fix: evaluate percentage margins and paddings against
 the width of the container

CSS 2.1 S8.3 and S8.4: the percentages of all the margins and paddings, the
vertical ones too, refer to the width of the containing block. padding-left and
padding-right, margin-top and margin-bottom referred to its height.
---
 src/colosseum/engine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 725e7e5..9948ea8 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -195,9 +195,9 @@ def layout_box(display, node, containing_block, viewport, font):
         "font": font,
         "size": containing_block.layout.content_height,
     }
-    node.layout.margin_top = calculate_size(node.style.margin_top, vertical)
+    node.layout.margin_top = calculate_size(node.style.margin_top, horizontal)
     node.layout.margin_right = calculate_size(node.style.margin_right, horizontal)
-    node.layout.margin_bottom = calculate_size(node.style.margin_bottom, vertical)
+    node.layout.margin_bottom = calculate_size(node.style.margin_bottom, horizontal)
     node.layout.margin_left = calculate_size(node.style.margin_left, horizontal)
 
     node.layout.border_top_width = calculate_size(
@@ -214,9 +214,9 @@ def layout_box(display, node, containing_block, viewport, font):
     )
 
     node.layout.padding_top = calculate_size(node.style.padding_top, horizontal)
-    node.layout.padding_right = calculate_size(node.style.padding_right, vertical)
+    node.layout.padding_right = calculate_size(node.style.padding_right, horizontal)
     node.layout.padding_bottom = calculate_size(node.style.padding_bottom, horizontal)
-    node.layout.padding_left = calculate_size(node.style.padding_left, vertical)
+    node.layout.padding_left = calculate_size(node.style.padding_left, horizontal)
 
     # print("NODE", node)
 
-- 
2.43.0


From 7845837d8adf813561ee6871f58395037f8bbf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:35 +0000
Subject: [PATCH 14/19] fix: leave a style unchanged when one of the directions
 of a property is invalid

style.margin = (1, 2, 'invalid', 4) raised ValueError, but had changed margin_top
and margin_right.
---
 src/colosseum/declaration.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/colosseum/declaration.py b/src/colosseum/declaration.py
index 3ad3a71..69b3448 100644
--- a/src/colosseum/declaration.py
+++ b/src/colosseum/declaration.py
@@ -230,6 +230,16 @@ def directional_property(name, initial):
         )
 
     def setter(self, value):
+        previous = dict(self.__dict__)
+        try:
+            assign(self, value)
+        except ValueError:
+            # Don't keep the directions that come before the invalid one.
+            self.__dict__.clear()
+            self.__dict__.update(previous)
+            raise
+
+    def assign(self, value):
         if isinstance(value, tuple):
             if len(value) == 4:
                 setattr(self, name % "_top", value[0])
-- 
2.43.0


From ef8b8f4c1aee4bc6e638108fbd44a079cd6fb7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:17 +0000
Subject: [PATCH 15/19] fix: treat auto as 0 for the vertical margins of inline
 boxes

An inline box with margin-top: auto made layout() raise TypeError.
---
 src/colosseum/engine.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 9948ea8..895d997 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -647,6 +647,12 @@ def calculate_height_and_margins(node, context):
 
 def calculate_inline_non_replaced_height(node, context):
     "Implements S10.6.1"
+    if node.layout.margin_top is AUTO:
+        node.layout.margin_top = 0
+
+    if node.layout.margin_bottom is AUTO:
+        node.layout.margin_bottom = 0
+
     node.layout.content_height = node.intrinsic.height
     node.layout.content_top += (
         node.layout.margin_top + node.layout.border_top_width + node.layout.padding_top
-- 
2.43.0


From e385e24fa2350f015f5c7c84a0c9c5b82da04abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:20 +0000
Subject: [PATCH 16/19] fix: define the constants that colosseum.utils imports

---
 src/colosseum/constants.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/colosseum/constants.py b/src/colosseum/constants.py
index 9347db2..74952d4 100644
--- a/src/colosseum/constants.py
+++ b/src/colosseum/constants.py
@@ -85,6 +85,8 @@ HTML5 = "html5"
 AUTO = "auto"
 COLUMN = "column"
 ROW = "row"
+WIDTH = "width"
+HEIGHT = "height"
 TRANSPARENT = "transparent"
 default = object()
 
-- 
2.43.0


From fe4ea13588aa31aa8ce0da7f4b9ea505d89785f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:24 +0000
Subject: [PATCH 17/19] fix: use an intrinsic height of 0 for replaced elements

---
 src/colosseum/engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index 895d997..c3e1d3e 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -675,7 +675,7 @@ def calculate_inline_replaced_height(node, context):
         content_height = node.intrinsic.height
     elif node.style.height is AUTO and node.intrinsic.ratio:  # P3
         content_height = node.layout.content_width * node.intrinsic.ratio
-    elif node.style.height is AUTO and node.intrinsic.height:  # P4
+    elif node.style.height is AUTO and node.intrinsic.height is not None:  # P4
         content_height = node.intrinsic.height
     elif node.style.height is AUTO:  # P5
         content_height = min(node.layout.content_width // 2, 150)
-- 
2.43.0


From a17413ea1857f48483659e86f8a0ac870a0065d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:42 +0000
Subject: [PATCH 18/19] fix: place the content of inline boxes after their left
 margin, border and padding

---
 src/colosseum/engine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/colosseum/engine.py b/src/colosseum/engine.py
index c3e1d3e..0b57045 100644
--- a/src/colosseum/engine.py
+++ b/src/colosseum/engine.py
@@ -384,6 +384,11 @@ def calculate_inline_non_replaced_width(node, context):
 
     # Use the actual width of the node.
     node.layout.content_width = node.intrinsic.width
+    node.layout.content_left = (
+        node.layout.margin_left
+        + node.layout.border_left_width
+        + node.layout.padding_left
+    )
 
 
 def calculate_inline_replaced_width(node, context):
-- 
2.43.0


From 783aad8086cf88b7d80efd17863930cfa8ac8286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:53 +0000
Subject: [PATCH 19/19] fix: refuse lengths that aren't finite

---
 src/colosseum/parser.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/colosseum/parser.py b/src/colosseum/parser.py
index 0457dd8..e3ff8e4 100644
--- a/src/colosseum/parser.py
+++ b/src/colosseum/parser.py
@@ -1,3 +1,4 @@
+import math
 from ast import literal_eval
 from collections.abc import Sequence
 
@@ -21,23 +22,30 @@ def units(value):
     if isinstance(value, Unit):
         return value
     elif isinstance(value, (int, float)):
-        return value * px
+        return finite(value) * px
     elif isinstance(value, str):
         for suffix, unit in Unit.UNITS:
             if isinstance(unit, Unit) and value.endswith(suffix):
                 try:
-                    return float(value[: -len(suffix)]) * unit
+                    return finite(float(value[: -len(suffix)])) * unit
                 except ValueError:
                     pass
 
         try:
-            return float(value) * px
+            return finite(float(value)) * px
         except ValueError:
             pass
 
     raise ValueError(f"Unknown size {value}")
 
 
+def finite(value):
+    """Return the number, which can't be infinite or NaN."""
+    if isinstance(value, float) and not math.isfinite(value):
+        raise ValueError(f"Unknown size {value}")
+    return value
+
+
 def color(value):
     """Parse a color from a value.
 
-- 
2.43.0

