# ---------------------------------------------------------------- styles
prop("C01", "A style only holds valid values, in canonical form",
     "Whatever is assigned to a property of a style, the value it reports afterwards is one of the property's keywords (none being reported as None) or a parsed value of the property's kind (length, colour, integer, rect, quotes, border spacing, cursor). "
     "A value that a style reports can be assigned again, to it or to another style, and is reported unchanged; the last accepted value counts. "
     "Assigning a property changes neither another property (those whose initial value depends on it excepted) nor another style.",
     ["inputs", "histories"], "all properties, all accepted values in every form, pairs of assignments, pairs of styles",
     "Tests assign a few values per property to a fresh style; that parsing is idempotent and doesn't leak into other properties and styles is a statement about all values and pairs.",
     ["declaration.py", "validators.py", "parser.py", "constants.py"],
     [("validated properties", "declaration.py: validated_property"), ("validation", "constants.py: Choices.validate"), ("conversion", "validators.py")])
prop("C02", "A value that isn't valid is refused with ValueError and changes nothing",
     "Assigning a value to a property of a style, by attribute, item, update() or in the constructor, is accepted or raises ValueError, whatever the value is. "
     "After a refused assignment all properties of the style have the values they had before, even if only a later side of a directional property or a later part of a shorthand is invalid. "
     "An access under a name that no property has is refused as well (KeyError for items, NameError for update() and the constructor) and changes nothing.",
     ["inputs", "fault_sequences"], "all properties, arbitrary words, numbers, objects and tuples with an invalid part at any place",
     "Tests refuse single bad values in a fresh style and don't look at the rest of the style.",
     ["declaration.py", "constants.py", "validators.py", "parser.py"],
     [("refusal", "declaration.py: validated_property"), ("directional properties", "declaration.py: directional_property"), ("shorthands", "declaration.py: validated_shorthand_property"), ("names", "declaration.py: CSS.update")])
prop("C03", "Every change of a style makes the layout of its node dirty",
     "When an assignment, update or deletion changes the value that a property of a node's style reports, the node's box and all boxes inside of it are dirty afterwards, for directional properties and shorthands as well. "
     "Reading a style, copying it, assigning the value it already reports and deleting a property that isn't set leave the state of the layout as it is. "
     "A change of a copy concerns the node of that copy only.",
     ["inputs", "histories"], "all properties, all pairs of old and new values, every way to change them",
     "Tests check the flag for some properties with one pair of values each.",
     ["declaration.py", "dimensions.py"], [("change detection", "declaration.py: validated_property"), ("the flag", "declaration.py: CSS.dirty"), ("propagation", "dimensions.py: Box.dirty")])
prop("C04", "Deleting a property brings back its initial value",
     "After a property is deleted (by attribute, by item or by updating it with None) it reports its initial value and is no longer among the keys, and no other property has changed; deleting it again changes nothing. "
     "Deleting a directional property or a shorthand deletes all its parts. "
     "The initial text_align follows the direction, the initial border colours follow the colour, as long as they aren't set themselves.",
     ["inputs", "histories"], "all properties with all values, all subsets of the parts of a shorthand, histories of setting and deleting",
     "Tests delete single properties of fresh styles.",
     ["declaration.py", "constants.py"], [("deletion", "declaration.py: validated_property, directional_property, validated_shorthand_property"), ("dynamic initial values", "constants.py: OtherProperty, TextAlignInitialValue")])
prop("C05", "Directional properties stand for their four sides",
     "Assigning 1 to 4 values to margin, padding, border_width, border_style or border_color sets the sides as CSS does: top, right, bottom, left, a missing left being the right, a missing bottom the top, a missing right the top. "
     "The property reports the four sides in that order, however they were set, and what it reports can be assigned again. "
     "Any other number of values is refused, and a refused assignment leaves the properties of the style unchanged.",
     ["inputs", "fault_sequences"], "the five directional properties, all values, all numbers of values, an invalid value at any place",
     "Tests use a few tuples.",
     ["declaration.py"], [("directional properties", "declaration.py: directional_property")])
prop("C06", "The border and outline shorthands set and report their parts",
     "Assigning border, border_top, border_right, border_bottom, border_left or outline a text or sequence of one to three parts (width, style, colour, in any order, each at most once) sets these and resets the other parts; other properties are unaffected. "
     "Anything else is refused with ValueError and changes nothing. "
     "A one-sided border or outline reports the parts that are set, and its text can be assigned again.",
     ["inputs", "histories"], "the six shorthands, all orders and subsets of the parts, all forms, on fresh and on styled declarations",
     "Tests use a few orders on fresh styles.",
     ["declaration.py", "parser.py", "wrappers.py"], [("shorthands", "declaration.py: validated_shorthand_property"), ("parts", "parser.py: border, outline"), ("wrappers", "wrappers.py: Shorthand")])
prop("C07", "The copy of a style is an independent style with the same values",
     "copy() gives a new style that reports the same value for every property, belongs to the node that was given (or to none), and leaves the original unchanged. "
     "After that, changing one of the two doesn't change the other, nor the layout of the other's node.",
     ["inputs", "histories"], "all properties with all values, pairs of properties that depend on each other, changes of either style",
     "Tests copy one style.",
     ["declaration.py"], [("copying", "declaration.py: CSS.copy")])
prop("C08", "Items, update() and the constructor are the same as attributes",
     "Setting, reading and deleting an item, update() and the constructor have the same effect as the attribute of that name, for every property, directional property and shorthand, under its Python name and its CSS name (with hyphens). "
     "Several properties are set in the order in which they are given; updating with None deletes.",
     ["inputs"], "all properties, spellings, values and ways of access",
     "Tests sample some properties.",
     ["declaration.py"], [("items", "declaration.py: CSS.__getitem__, __setitem__, __delitem__"), ("update", "declaration.py: CSS.update")])
prop("C09", "keys(), items() and str() report exactly what a style specifies",
     "keys() has the Python names of the properties that are set to something else than their initial value, items() has them with the values the style reports, and str() lists them as 'css-name: value', sorted by CSS name and separated by '; ', whatever the order of assignment. "
     "Directional properties and shorthands are reported through their parts. A style that is rebuilt from the items is the same, and reporting changes nothing.",
     ["inputs", "schedules"], "all properties with all values, combinations of several, every iteration order of sets",
     "Tests print one style; the order of a set depends on the hash seed of the run.",
     ["declaration.py"], [("reports", "declaration.py: CSS.keys, items, __str__")])
prop("C10", "Every property accepts the values of its CSS grammar and nothing else",
     "For every property, the keywords and the kind of other values (length, colour, integer, rect, quotes, border spacing, cursor) of the CSS 2.1 property index as documented are accepted and reported as given, numbers being lengths in pixels, and every other word, the keywords of other properties and values of another kind are refused. "
     "A style without assignments reports the property's initial value.",
     ["inputs"], "all properties; all keywords, arbitrary other words, all lengths in all units, all integers, colours in all forms, other objects",
     "Tests enumerate valid keywords for some properties and a few invalid ones.",
     ["constants.py", "declaration.py", "validators.py", "parser.py"], [("choices", "constants.py"), ("properties", "declaration.py: CSS"), ("kinds", "validators.py")],
     "Words that could be read as the floats inf and nan are left out.")
# ---------------------------------------------------------------- values
prop("C11", "Parsers and validators give a value of their kind or raise ValueError",
     "Each function of colosseum.parser (units, color, border_spacing, rect, quotes, uri, cursor, outline, border and its sides) returns a value of its kind or raises ValueError, and each validator of colosseum.validators returns a value of its kind or raises ValidationError, whatever object, number or text it is given. "
     "The argument is never changed.",
     ["inputs"], "arbitrary words (alone and inside every notation), all numbers, objects of all builtin kinds and of the library",
     "Tests give a few malformed values; that no text leads to another exception is a statement about all texts.",
     ["parser.py", "validators.py"], [("parsers", "parser.py"), ("validators", "validators.py")],
     "Resource exhaustion inside ast.literal_eval (thousands of nested operators) is left out.")
prop("C12", "Lengths are read as written",
     "A number followed by one of the units px, em, ex, ch, in, cm, mm, pt, pc, vw, vh, vmin, vmax or % is that many of the unit, with either sign and with blanks around it; a number, or its text, is a length in pixels, and a length that is already parsed is taken as it is. "
     "Any other text (other units, angles, words, numbers that aren't finite) and any other object is refused, and is_percentage accepts exactly the percentages that aren't negative. "
     "Reading lengths never changes the units themselves or how later texts are read.",
     ["inputs", "histories"], "all numbers with all units in all forms, arbitrary words as number and as unit, other objects",
     "Tests read some literals.",
     ["parser.py", "units.py", "validators.py"], [("lengths", "parser.py: units"), ("table of units", "units.py"), ("percentages", "validators.py: is_percentage")])
prop("C13", "Colours are read as written",
     "# with 3, 4, 6 or 8 hexadecimal digits, rgb(), rgba(), hsl() and hsla() give the colour with these components (alpha 1 if there is none), with any blanks around the components; a colour that is already parsed is taken as it is, and names are the same in upper and lower case. "
     "Another number of digits or components, components that aren't numbers, other words and other objects are refused with ValueError.",
     ["inputs"], "all digits, all components, arbitrary words as component or as name",
     "Tests read some literals.",
     ["parser.py", "colors.py", "validators.py"], [("colours", "parser.py: color"), ("components", "colors.py: rgb, hsl")])
prop("C14", "The named colours are the ones of CSS",
     "Each of the 148 colour names of the CSS Color Module has the components that CSS gives it, in any case, and has a constant in colosseum.colors. "
     "No other word is a colour name.",
     ["inputs"], "all names, arbitrary other words",
     "Tests use a handful of names.",
     ["colors.py", "parser.py"], [("table of names", "colors.py: NAMED_COLOR"), ("look-up", "parser.py: color")])
prop("C15", "HSL colours are converted to RGB as CSS does",
     "For every hue (in degrees, also outside of 0 to 360), saturation and lightness between 0 and 1, the rgb of an hsl colour has the components of CSS Color 3 section 4.2.4 times 255, rounded to integers, and the same alpha; converting doesn't change the colour. "
     "The rgb of an rgb colour has its components.",
     ["inputs"], "all real hues, saturations, lightnesses and alphas",
     "Tests convert some colours.",
     ["colors.py"], [("conversion", "colors.py: hsl.rgb")], "The hues from -720 to 1079 degrees are analysed.")
prop("C16", "Rects, border spacings, quotes, urls and cursors are read as written",
     "rect(), with four lengths separated by commas or by blanks, one or two lengths of a border spacing, pairs of quotes (as text or sequences), url() with or without quotes, and cursors (urls, then at most one keyword; as text or sequence) give a value with these parts in their order, blanks being ignored; an already parsed value is taken as it is, and the text of a value gives an equal value again. "
     "Anything else is refused with ValueError. "
     "Rects are equal if all four sides are, quotes if all levels are.",
     ["inputs"], "all lengths, arbitrary urls, pairs of quotes, all keywords, arbitrary other words, wrong numbers of parts",
     "Tests read some literals.",
     ["parser.py", "shapes.py", "wrappers.py", "validators.py"], [("rects", "parser.py: rect"), ("border spacing", "parser.py: border_spacing"), ("quotes", "parser.py: quotes"), ("urls", "parser.py: uri"), ("cursors", "parser.py: cursor"), ("values", "wrappers.py, shapes.py")])
prop("C17", "List values can't be changed",
     "Every operation that would change an ImmutableList or Cursor (methods, items, slices, in-place operators) raises TypeError and leaves it as it was; it doesn't share what it was made of, its copies are equal values of the same kind, equal list values have the same hash and are those with equal items. "
     "So the cursor that a style reports only changes by assignment.",
     ["inputs", "histories"], "all mutating operations of list, lists of all contents up to the analysed length",
     "Tests try some of the operations.",
     ["wrappers.py"], [("refused operations", "wrappers.py: ImmutableList")])
prop("C18", "A length has the right size in pixels",
     "For every number, display and font, the size of a length in 64ths of a pixel is its exact size, rounded: px are pixels; in, cm, mm, pt, pc refer to the resolution of the display, em, ex, ch to the font, vw, vh, vmin, vmax to the display's size, percentages to the size that is given; its size in pixels is that divided by 64, an integer for whole pixels. "
     "The opposite length has the opposite size, and resolving a length doesn't change it. An angle has its size in degrees.",
     ["inputs"], "all numbers, units, displays and fonts",
     "Tests compute some sizes on one display.",
     ["units.py"], [("sizes", "units.py: lu, px of each kind of unit")], "rad is left out (its factor isn't rational).")
prop("C19", "Quantities are values: a number and a unit",
     "A multiple or the opposite of a quantity is a new quantity of the same unit with the number multiplied; the operands, in particular the units, never change. "
     "Quantities are equal exactly if number and unit are, and only pixels equal their number. "
     "The text of a quantity is its number followed by the unit, and reading it gives an equal quantity.",
     ["inputs", "histories"], "all numbers, all pairs of units",
     "Tests compare some quantities.",
     ["units.py"], [("arithmetic and equality", "units.py: BaseUnit, PixelUnit")])
prop("C20", "There is no hidden state",
     "What a new style reports, what parsers and validators give, and how a new document is laid out doesn't depend on what was done before with other styles, values and documents, whether it succeeded or was refused. "
     "In particular, the units, the named colours and the initial values of the properties never change.",
     ["histories", "inputs"], "assignments of all values to all properties, shorthands, parsers, arithmetic, layouts and refused layouts before; all observable results after",
     "Tests use a fresh process state or don't compare with one.",
     ["declaration.py", "units.py", "parser.py", "constants.py", "engine.py", "colors.py"], [("module-level objects", "constants.py, units.py, colors.py"), ("class-level objects", "declaration.py: CSS")])
prop("C36", "Every module can be imported, and what its functions refer to is defined",
     "Importing any module of the package succeeds; every global name, every attribute of another module of the package, and every name in __all__ that is referred to is defined, and every direct call of one of the package's functions fits its parameters, on all paths. "
     "The functions of colosseum.utils give the sides and the dimension of the axis.",
     ["programs"], "all modules, all functions, all references and calls, executed by a test or not",
     "Tests execute neither the unfinished branches nor all modules.",
     ["__init__.py", "utils.py", "engine.py", "declaration.py", "dimensions.py", "parser.py", "validators.py"], [("references", "all modules")])
prop("C38", "Choices and numeric ranges accept exactly what they are made of",
     "Choices accept exactly their constants (none being None), their explicit defaulting constants and what one of their validators accepts, the first of which converts the value; everything else is refused with ValueError, with a message that names the property and the value and lists the valid values in alphabetical order. "
     "is_number and is_integer accept exactly the numbers from the minimum to the maximum, both included, 0 being a bound like any other.",
     ["inputs", "schedules"], "all subsets of constants and validators, arbitrary words, all numbers and bounds, every iteration order of sets",
     "Tests validate a few values against a few choices.",
     ["constants.py", "validators.py", "declaration.py"], [("choices", "constants.py: Choices"), ("ranges", "validators.py: is_number, is_integer"), ("message", "declaration.py: validated_property")])
prop("C39", "A shorthand value has exactly the parts it was made of",
     "A shorthand value (Border, BorderTop, BorderRight, BorderBottom, BorderLeft, Outline) is made of any of its parts by name, any other name being refused with ValueError; it has exactly these as attributes and in to_dict(), in the order of the shorthand whatever the order in which they were given. "
     "Its text is the texts of the parts separated by blanks, and two are equal exactly if their kinds and their parts are. "
     "What a style reports, and what to_dict() gives, doesn't change with the style, nor the style with it.",
     ["inputs", "histories"], "the six shorthands, all subsets and orders of the parts with arbitrary values, all pairs",
     "Tests make one or two of them.",
     ["wrappers.py", "declaration.py"], [("shorthand values", "wrappers.py: Shorthand"), ("reporting", "declaration.py: validated_shorthand_property")])
prop("C40", "Printing never fails, shows the parts and changes nothing",
     "str() and repr() of every value that a style can report, of every style and of every box in any state succeed and change nothing. "
     "The text of a style is that of its values; the text of a colour, rect, border spacing, url, cursor and quotes has all components in their order, and the one of a box has its size and absolute position.",
     ["inputs", "histories"], "all properties with all values, all numbers, boxes in any state",
     "Tests print a few values.",
     ["wrappers.py", "colors.py", "shapes.py", "units.py", "dimensions.py", "declaration.py"],
     [("values", "wrappers.py, colors.py, shapes.py, units.py: __repr__, __str__"), ("boxes", "dimensions.py: Box.__repr__"), ("styles", "declaration.py: CSS.__str__")])
# ---------------------------------------------------------------- boxes
prop("C21", "Content, padding and border boxes are consistent",
     "The padding box is the content box extended by the paddings, and the border box is the padding box extended by the borders: for each of the two, the top, right, bottom and left edges (relative and absolute), width and height follow from the stored content size, position, paddings and border widths, and right - left = width, bottom - top = height. "
     "A new box and a box that was reset are empty and at the origin.",
     ["inputs"], "all sizes and positions, integers and reals, boxes in positioned parents, changes in any order",
     "Tests compare literal geometry of one box.",
     ["dimensions.py"], [("derived edges", "dimensions.py: Box")])
prop("C22", "Moving a box moves everything inside of it",
     "The absolute position of a box is always its parent's absolute content position plus its own position in the parent, whatever the order in which boxes are positioned, moved, reset or resized; moving a box moves all boxes inside of it by the same distance, and no other box. "
     "Children without a box are skipped.",
     ["inputs", "histories"], "all positions, sequences of moves of any boxes in trees of several shapes, before and after layouts",
     "Tests move one box of one tree.",
     ["dimensions.py"], [("propagation of origins", "dimensions.py: Box._origin_top, _origin_left, content_top, content_left")])
prop("C23", "The collapsed margin of a box is the largest margin it was given",
     "For each of the four sides, the collapsed extent of a box is the largest of 0, the margins that were set on that side and the collapsed extents of children that were given to it since the last reset (auto counting for nothing); the margin itself is the last one that was set. "
     "The other sides are unaffected, and a reset forgets it.",
     ["inputs", "histories"], "all sequences up to the analysed length, all values of either sign, all sides",
     "Tests set single margins.",
     ["dimensions.py"], [("collapsed extents", "dimensions.py: Box.margin_top, collapse_top and the other sides")])
prop("C24", "A box knows whether its layout is up to date",
     "The dirty state of a box is the one that was set last on it or on a box around it, and setting it concerns no box outside. "
     "A change of any attribute of the intrinsic size makes the layout dirty; setting an equal value and setting geometry leave the state as it is. "
     "The state that the style and the intrinsic size of a node report and set is the one of its box.",
     ["inputs", "histories"], "all sequences of two states on any box of a tree, all changes of all intrinsic attributes",
     "Tests check single changes.",
     ["dimensions.py", "declaration.py"], [("state", "dimensions.py: Box.dirty, Size")])
prop("C26", "A layout writes boxes and nothing else",
     "A layout, even one that is refused, leaves the tree, the styles (of any node), the intrinsic sizes, the display and the boxes of other documents unchanged; a node gets no new or changed public attribute except its box. "
     "Nodes that share a style don't influence each other.",
     ["inputs", "fault_sequences"], "documents of all supported and several unsupported kinds, all sizes, both standards, layouts that end in an exception",
     "Tests look at the boxes only.",
     ["engine.py", "dimensions.py"], [("all stores of the engine", "engine.py"), ("all stores of a box", "dimensions.py")])
prop("C27", "What the engine can't lay out is refused, never laid out wrongly",
     "Laying out a document that contains a node with an absolute or fixed position, a float, a display type other than none, inline, block, list-item and table, or a replaced block, raises an exception, wherever in the document the node is and whatever its sizes. "
     "Documents of blocks, plain and replaced inline boxes, static or relatively positioned, are laid out.",
     ["inputs", "configurations"], "all display types, positions and floats, plain and replaced nodes, several depths, all sizes",
     "Tests cover supported documents only.",
     ["engine.py"], [("dispatch by kind of box", "engine.py: calculate_width_and_margins, calculate_height_and_margins, layout_box")])
# ---------------------------------------------------------------- layout: the tree as a whole
prop("C25", "A layout depends only on the current document, styles and display",
     "Laying out a document gives every box the same geometry as laying out a newly built document with the same tree, styles, intrinsic sizes and display, whatever was laid out, changed, hidden, shown, added or removed before. "
     "In particular, laying out again without a change changes nothing.",
     ["histories", "inputs"], "all histories of style changes, layouts on other displays, hidden and re-shown nodes, tree edits and refused layouts; all sizes",
     "Tests lay out a fresh document once; the reuse of boxes, collapsed margins and positions of an earlier layout shows up only in histories.",
     ["engine.py", "dimensions.py", "declaration.py"],
     [("reset of the boxes before a layout", "engine.py: layout"), ("reset of a box", "dimensions.py: Box._reset"), ("boxes of re-shown nodes", "engine.py: layout_box")])
prop("C28", "Widths of block boxes fill their container",
     "For a block-level box in normal flow, margins, borders, paddings and width satisfy the constraint of CSS 2.1 section 10.3.3 against the width of the container (the display for the root, the parent's content box otherwise): an auto width fills the rest with auto margins being 0; otherwise a single auto margin fills the rest, two auto margins share it equally (up to one pixel left over), and an over-constrained box gives up the margin at the end of its direction. "
     "A specified width is limited by the maximum width and then by the minimum width. The content starts after the left margin, border and padding.",
     ["inputs"], "all combinations of auto and specified margins and widths, all sizes, directions, limits, block-level displays (block, list-item, table) and depths",
     "Tests use a few sizes; the cases depend on inequalities between eight quantities.",
     ["engine.py"], [("section 10.3.3", "engine.py: calculate_block_non_replaced_normal_flow_width")],
     "Fractional lengths are covered through rounding to 64ths of a pixel; the rest is proved for whole pixels.")
prop("C29", "Block boxes are stacked, with collapsing margins",
     "The block-level children of a block are placed below each other from the top of its content box, separated by the larger of the two adjoining vertical margins (for margins that are not negative); the top margin of a first child and the bottom margin of a last child extend the parent's margins instead of its content. "
     "An auto height ends at the bottom border edge of the last child; a specified height is used, limited by the maximum height, and an empty block is as high as its minimum height; auto vertical margins are 0.",
     ["inputs"], "all numbers of children up to the analysed bound, all non-negative margins, paddings, borders and heights",
     "Tests sample single sizes; which margin wins depends on comparisons between all of them.",
     ["engine.py", "dimensions.py"], [("section 10.6.3", "engine.py: calculate_block_non_replaced_normal_flow_height"), ("stacking", "engine.py: layout_box"), ("collapsed extents", "dimensions.py: Box.collapse_top")])
prop("C30", "Replaced inline boxes get their size from the intrinsic size",
     "The width and height of a replaced inline box are the specified ones, or follow from the intrinsic width, height and ratio (width = height * ratio) by the rules of CSS 2.1 sections 10.3.2 and 10.6.2, and are 300 by at most 150 pixels if nothing is known. "
     "Auto margins are 0, and the content starts after the left and top margins, borders and paddings.",
     ["inputs"], "all 32 combinations of specified and known quantities, all sizes",
     "Tests cover few of the combinations, with one size each, and an intrinsic size of 0 isn't among them.",
     ["engine.py"], [("section 10.3.2", "engine.py: calculate_inline_replaced_width"), ("section 10.6.2", "engine.py: calculate_inline_replaced_height")])
prop("C31", "Non-replaced inline boxes have their intrinsic size",
     "An inline box that isn't replaced has the width and height of its intrinsic size, whatever width and height its style specifies; auto margins are 0; the paddings, borders and margins of its style are used. "
     "Its content starts after the left and top margins, borders and paddings.",
     ["inputs"], "all sizes, all edges, inline boxes in blocks and in other inline boxes",
     "Tests use one size without edges.",
     ["engine.py"], [("section 10.3.1", "engine.py: calculate_inline_non_replaced_width"), ("section 10.6.1", "engine.py: calculate_inline_non_replaced_height")])
prop("C32", "Relative positioning moves a box and nothing else",
     "A relatively positioned box is displaced by its offsets from the place it has in normal flow: left wins over right and top over bottom, an auto offset is the negative of the opposite one, percentages of left and right refer to the container's width. "
     "Its size and edges, its children relative to it, its siblings and its parent are as for the static box. The offsets of a static box have no effect.",
     ["inputs"], "all offsets of either sign, all combinations of auto and specified offsets, block and inline boxes in any position among their siblings",
     "Tests check one box per offset, never the siblings and the parent against the static layout.",
     ["engine.py"], [("relative offsets", "engine.py: layout_box")])
prop("C33", "Nodes that are not displayed take no part in the layout",
     "A node with display none has no box after a layout, and all other boxes are laid out exactly as if the node and its descendants didn't exist; this includes a hidden root. "
     "The style and the intrinsic size of a hidden node can be changed at any time.",
     ["inputs", "histories"], "any number of hidden nodes, in any positions, of any kind, with any descendants",
     "Tests hide one node of a small document.",
     ["engine.py", "declaration.py", "dimensions.py"], [("hidden nodes", "engine.py: layout_box"), ("displayed children", "engine.py: calculate_block_non_replaced_normal_flow_height")])
prop("C34", "Lengths of the style are resolved against what they refer to",
     "In a layout, every length of a style gets its size in pixels from the display (absolute and viewport units), and a percentage of a width, margin, padding or horizontal offset from the width of the container; a percentage height refers to a specified height of the parent. "
     "Border width keywords have the size that the display gives them.",
     ["inputs", "configurations"], "all units, all lengths, all properties with a length, all displays",
     "Tests lay out documents in pixels on one display.",
     ["engine.py", "units.py"], [("used values of the edges", "engine.py: layout_box"), ("sizes", "units.py: Unit.px")])
prop("C35", "The root box follows the rules of the HTML standard in use",
     "The root box is moved down by its collapsed top margin (the larger of its own and its first child's), and its children move with it. "
     "With the html5 standard, which is the default, the height of its content is that of the display less its collapsed top and bottom margins; with html4 it is the height of its content, as for any other block.",
     ["inputs", "configurations"], "all margins, sizes and displays, both standards",
     "Tests use a few sizes per standard.",
     ["engine.py"], [("finishing of the root", "engine.py: layout")])
prop("C37", "After a layout, every displayed box has a complete geometry",
     "After a layout of a supported document, every displayed node has a visible box whose sizes, positions, margins, collapsed margins, paddings and border widths, relative and absolute, are all numbers (never auto, None or a length), and whose paddings and border widths are the ones of its style; a hidden node has none.",
     ["inputs", "configurations"], "all combinations of auto and specified sizes, margins and offsets, limits, intrinsic sizes, displays and both standards",
     "Tests compare literal geometry of some documents.",
     ["engine.py", "dimensions.py"], [("all stores of the engine", "engine.py")])
prop("C41", "Only the properties of the box model influence the layout",
     "The geometry of a document depends on display, position, offsets, direction, sizes and their limits, margins, paddings and border widths only: every other property (colours, border styles, outlines, text and table properties, visibility, overflow, clipping, page breaks, cursors) can be set to any value, changed or deleted, and after the next layout all boxes are the same.",
     ["inputs", "configurations"], "every other property with every keyword and any length, on any nodes of a document of blocks, texts and images, before the first layout or after it",
     "Tests set none of these properties in a layout.",
     ["engine.py", "declaration.py"], [("all reads of a style by the engine", "engine.py")])
