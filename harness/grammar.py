"""The CSS properties: keywords, kinds of values, initial values (from the CSS 2.1 property index, as documented in docs/)"""
BORDER_STYLES = ("none", "hidden", "dotted", "dashed", "solid", "double", "groove", "ridge", "inset", "outset")
DISPLAYS = ("none", "inline", "block", "list-item", "inline-block", "table", "inline-table", "table-row-group", "table-header-group",
            "table-footer-group", "table-row", "table-column-group", "table-column", "table-cell", "table-caption", "flex", "inline-flex",
            "grid", "inline-grid")
CURSORS = ("auto", "crosshair", "default", "pointer", "move", "e-resize", "ne-resize", "nw-resize", "n-resize", "se-resize", "sw-resize",
           "s-resize", "w-resize", "text", "wait", "progress", "help")
SIDES = ("top", "right", "bottom", "left")
DYNAMIC = "<depends on another property>"
UNSPECIFIED = "<a value that no style can specify>"

# property: (keywords, kind of other values or None, initial value)
P = {}
for _side in SIDES:
    P["margin_" + _side] = (("auto",), "length", 0)
    P["padding_" + _side] = ((), "length", 0)
    P["border_" + _side + "_width"] = (("thin", "medium", "thick"), "length", 0)
    P["border_" + _side + "_style"] = (BORDER_STYLES, None, None)
    P["border_" + _side + "_color"] = (("transparent", "initial", "inherit", "unset", "revert"), "color", DYNAMIC)
    P[_side] = (("auto", "inherit"), "length", "auto")
P["display"] = (DISPLAYS, None, "inline")
P["position"] = (("static", "relative", "absolute", "fixed"), None, "static")
P["float"] = (("left", "right", "none"), None, None)
P["clear"] = (("none", "left", "right", "both"), None, None)
P["z_index"] = (("auto",), "integer", "auto")
P["direction"] = (("rtl", "ltr"), None, "ltr")
P["unicode_bidi"] = (("normal", "embed", "bidi-override"), None, "normal")
for _name in ("width", "height"):
    P[_name] = (("auto",), "length", "auto")
    P["min_" + _name] = (("auto",), "length", "auto")
    P["max_" + _name] = (("none",), "length", None)
P["overflow"] = (("visible", "hidden", "scroll", "auto", "inherit"), None, "visible")
P["clip"] = (("auto", "inherit"), "rect", "auto")
P["visibility"] = (("visible", "hidden", "collapse"), None, "visible")
P["quotes"] = (("none", "initial", "inherit"), "quotes", "initial")
P["page_break_before"] = (("auto", "always", "avoid", "left", "right", "inherit"), None, "auto")
P["page_break_after"] = (("auto", "always", "avoid", "left", "right", "inherit"), None, "auto")
P["page_break_inside"] = (("auto", "avoid", "inherit"), None, "auto")
P["orphans"] = (("inherit",), "integer", 2)
P["widows"] = (("inherit",), "integer", 2)
P["color"] = ((), "color", UNSPECIFIED)
P["background_color"] = (("transparent",), "color", UNSPECIFIED)
P["text_indent"] = (("inherit",), "length", 0)
P["text_align"] = (("left", "right", "center", "justify", "inherit"), None, DYNAMIC)
P["text_decoration"] = (("none", "underline", "overline", "line-through", "blink", "inherit"), None, None)
P["letter_spacing"] = (("normal", "inherit"), "length", "normal")
P["word_spacing"] = (("normal", "inherit"), "length", "normal")
P["text_transform"] = (("capitalize", "uppercase", "lowercase", "none", "inherit"), None, None)
P["white_space"] = (("normal", "pre", "nowrap", "pre-wrap", "pre-line", "inherit"), None, "normal")
P["caption_side"] = (("top", "bottom", "inherit"), None, "top")
P["table_layout"] = (("auto", "fixed", "inherit"), None, "auto")
P["border_collapse"] = (("collapse", "separate", "inherit"), None, "separate")
P["border_spacing"] = (("inherit",), "border-spacing", 0)
P["empty_cells"] = (("show", "hide", "inherit"), None, "show")
P["cursor"] = (("inherit",), "cursor", "auto")
P["outline_width"] = (("thin", "medium", "thick", "inherit"), "length", "medium")
P["outline_style"] = (BORDER_STYLES + ("inherit",), None, None)
P["outline_color"] = (("invert", "inherit"), "color", "invert")

NAMES = tuple(sorted(P))
DIRECTIONAL = {"margin": "margin_%s", "padding": "padding_%s", "border_width": "border_%s_width",
               "border_style": "border_%s_style", "border_color": "border_%s_color"}
SHORTHAND = {"border": ("border_width", "border_style", "border_color"), "outline": ("outline_width", "outline_style", "outline_color")}
for _side in SIDES:
    SHORTHAND["border_" + _side] = tuple("border_" + _side + "_" + x for x in ("width", "style", "color"))
ALL = NAMES + tuple(sorted(DIRECTIONAL)) + tuple(sorted(SHORTHAND))


def keyword_value(k):
    """what a style reports for a keyword"""
    return None if k == "none" else k


def a_value(name):
    """a valid value of a property that isn't the initial one, as a style reports it"""
    keywords, kind, initial = P[name]
    for k in keywords:
        if keyword_value(k) != initial and k != "none":
            return k
    return SAMPLE[kind]


SAMPLE = {"length": 3, "color": "red", "integer": 7}


def neighbours(tokens):
    """what is left of a sequence of tokens when one is missing, twice there, or in the place of its neighbour or of another one"""
    out = []
    n = len(tokens)
    for i in range(n):
        out.append(tokens[:i] + tokens[i + 1:])
        out.append(tokens[:i + 1] + tokens[i:])
        for j in range(n):
            if j != i:
                rest = tokens[:i] + tokens[i + 1:]
                out.append(rest[:j] + [tokens[i]] + rest[j:])
                out.append(tokens[:i] + [tokens[j]] + tokens[i + 1:])
    seen = []
    for t in out:
        if t not in seen:
            seen.append(t)
    return seen
