def na(id, title, statement, over, text, why, files, mechanism, reason):
    NOT_APPLICABLE.append(({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                            "anchors": {"files": files, "mechanism": mechanism}}, reason))


na("C90", "Layouts agree with a browser's for every HTML and CSS document",
   "For every document whose styles the library supports, the boxes are those that a conforming browser computes.",
   ["inputs"], "all documents and style sheets",
   "The repository's own comparison with a browser samples some hundred documents and lists most as not passing.",
   ["tests/utils.py"], [{"name": "reference data rendered by a browser", "where": "tests"}],
   "The oracle is another program (a browser) and most of CSS isn't implemented; there is no specification in the source to analyse against. The parts that are implemented are covered by C21-C35.")
na("C91", "Lengths are accurate to the last bit of floating point",
   "For every length, the size in pixels is the double that is closest to the exact value.",
   ["inputs"], "all finite doubles",
   "Tests sample a few values.",
   ["src/colosseum/units.py"], [{"name": "conversion in 64ths of a pixel", "where": "src/colosseum/units.py"}],
   "The numeric domain of the analysis is exact rational arithmetic; rounding of each floating-point operation would need an error analysis per operation, which the domain doesn't have. Exact arithmetic is decided in C18.")
na("C92", "A layout takes time and memory linear in the document",
   "Laying out a document takes time and memory that are bounded by a constant times the number of nodes.",
   ["inputs"], "all documents", "Tests measure nothing.",
   ["src/colosseum/engine.py", "src/colosseum/dimensions.py"], [{"name": "recursion over the children", "where": "src/colosseum/engine.py: layout_box"}],
   "It doesn't hold (moving a box updates the positions of all its descendants), and a resource bound quantifies over run-time quantities that the analysis doesn't track.")
