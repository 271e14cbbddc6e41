# Source of properties.jsonl and MANIFEST.json (python3 tools/gen.py)
PROPS = []
NA = {}


def P(id, title, statement, over, qtext, why, files, mech, state=None, level_note=None, level="proof"):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    PROPS.append((d, level, level_note))


B = "svgio/basic.py"
PA = "svgio/path.py"
N = "svgio/nodes.py"
CO = "svgio/constants.py"

P("P01", "Matrix product composes transforms",
  "For any two affine transforms A and B, their product is the transform that applies A first and B second to every "
  "point, through every operator and method that multiplies matrices or applies a matrix to a point or vector. The "
  "identity is neutral, and a textual transform may stand on either side of the product. Products and applications that "
  "return a new value leave their operands unchanged; in-place forms change only the object they are called on.",
  ["inputs"], "all real matrix entries and point coordinates; all operator and method forms",
  "Tests multiply a few matrices with zeros and ones in them, where swapped or transposed entries cancel out.",
  [B], [("matrix product", B), ("point application", B)], [("a..f", "the six matrix entries", B)])

P("P02", "Matrix inverse is a two-sided inverse",
  "Inverting any transform with non-zero determinant gives the transform that composes with it, on either side, to the "
  "identity, so mapping a point through a matrix and back returns the point. The operator form leaves the matrix "
  "unchanged and the method form changes it in place. A transform with zero determinant has no inverse: the attempt "
  "raises a zero-division error and leaves the matrix as it was.",
  ["inputs"], "all real matrices, singular or not, and all points",
  "Tests invert a handful of matrices; an error confined to entries that are zero there is invisible.",
  [B], [("matrix inverse", B), ("inverse-space point mapping", B)])

P("P03", "Elementary transforms about a centre act first or last",
  "The named constructors give the textbook matrices for scaling, translation, rotation and skewing. Pre-applying one of "
  "them to a matrix makes it act before the existing transform, post-applying after it. An optional centre (missing or "
  "None coordinates meaning zero) is the fixed point of the added scaling, rotation or skew, and a single scale factor "
  "applies to both axes.",
  ["inputs"], "all real factors, angles (skews away from odd quarter turns), centres and existing matrices",
  "The order of operations and the sign of the centre shifts coincide for the symmetric or centred cases tests use.",
  [B], [("pre_ and post_ operations", B)])

P("P04", "Transform lists parse to the SVG product",
  "Parsing a transform list yields the product in which the rightmost function acts on a point first. Every SVG and CSS "
  "2D transform function with every allowed argument count (with an optional centre of rotation or skew) gives its standard matrix, for all numbers, angle units "
  "(none or deg, rad, grad, turn) and lengths (resolved from the resolution and viewport given, where needed), regardless of letter case and of comma or space "
  "separators; an empty list gives the identity.",
  ["inputs"], "all numbers in all functions, arities and units; lists of any length by an inductive step over one more function",
  "The language of transform lists is infinite and argument defaults, units and ordering interact.",
  [B, CO], [("transform list parser", B), ("transform grammar", CO)])

P("P05", "Colour channels, integer views and the absent colour agree",
  "A colour stores red, green, blue and alpha as integers 0..255 (writes are clamped and lose their fraction; opacity is "
  "alpha/255, stored to the nearest step), and writing one channel leaves the others as they were. Every integer view "
  "(rgb, rgba, argb) and every constructor form gives the same four channels back, and two colours are equal exactly when "
  "their channels are. The absent colour (none) reads None everywhere, refuses channel writes and equals only none.",
  ["inputs"], "all channel values, in and out of range, integer or real, and all colours",
  "Packing four channels in one integer goes wrong only for particular bytes; tests use a few named colours.",
  [B], [("Color", B)], [("value", "the packed 0xRRGGBBAA integer or None", B)])

P("P06", "Colour text parses to its CSS meaning and round-trips",
  "Hexadecimal colours of 3, 4, 6 or 8 digits, rgb()/rgba() with integers or percentages and optional opacity, and all 147 "
  "colour keywords (and none) in any letter case denote the colour CSS gives them. Writing any colour as hex, str or repr and reading "
  "that text back gives the same colour.",
  ["inputs"], "all digits, integer and percentage channels, opacities, the whole keyword table, all stored colours",
  "The table and the digit combinations are far larger than any sample.",
  [B], [("Color.parse", B)])

P("P07", "HSL conversion is the CSS conversion both ways",
  "hsl()/hsla() text and the hue, saturation and lightness setters store the colour CSS defines for them, each channel "
  "truncated, with the hue wrapping every turn and percentages clamped. Hue, saturation and lightness readings of a stored "
  "colour are the textbook values. Writing one of the three keeps the other two and the alpha.",
  ["inputs"], "all stored colours, all real hues, saturations and lightnesses",
  "The six hue sectors and grey cases each have their own formula.",
  [B], [("Color.hsl_to_int", B), ("Color.hue", B)])

P("P08", "Compositing is Porter-Duff source-over; distance is red-mean",
  "Painting a colour over another gives the Porter-Duff source-over colour, each channel truncated and the alpha to the "
  "nearest step, and an invisible top leaves the bottom. Colour distance is the red-mean formula, symmetric, zero for equal "
  "channels and positive otherwise. Colours given as text stand for the colour, and operands are left unchanged.",
  ["inputs"], "all pairs of colours",
  "2^64 pairs; the blended result is wrong only when both are translucent.",
  [B], [("Color.over", B), ("Color.distance_sq", B)])

P("P09", "Lengths convert, add and compare by their size",
  "A length resolves to user units by the SVG/CSS definition of its unit given the context the unit needs (ppi, relative "
  "length, font size, viewport), and stays a length otherwise. Sums, differences, scalings, ratios and comparisons of "
  "lengths in convertible units are those of their sizes (to the 1e-4 of the stored unit factors); other combinations are "
  "refused. Operators leave their operands as they were.",
  ["inputs"], "all real amounts and contexts, all pairs of units",
  "Each pair of units has its own branch.",
  [B], [("Length.value", B), ("Length arithmetic", B)])

P("P10", "Length and point text round-trips",
  "Text of a number with any supported unit (or of a coordinate pair with any allowed separator) parses to that amount and "
  "unit (or pair). Writing a length or point as str or repr and reading it back gives the same unit and the same numbers to "
  "the printed precision, 12 decimals for lengths and 12 significant digits for points.",
  ["inputs"], "all real numbers, all units and separators",
  "Formatting errors (stripped zeros, exponents) show only for particular digits.",
  [B], [("Length.__str__", B), ("Point.__str__", B)])

P("P11", "Angles convert by unit and compare modulo full turns",
  "Angles given in degrees, gradians, radians, turns or percent, as text in any letter case or by constructor, convert by "
  "their definitions both ways. Two angles are equal exactly when they differ by whole turns (tolerance 1e-11), != is the "
  "negation, normalized() is the same direction in [0, one turn) and is_orthogonal holds exactly at quarter turns.",
  ["inputs"], "all real angles and any number of turns",
  "Wrap-around errors show only near a turn boundary or for negative angles.",
  [B], [("Angle.parse", B), ("Angle.__eq__", B)])

P("P12", "Points form the plane's vector algebra",
  "Points in every notation (coordinates, pair, complex, point) have the same x, y, index and equality views; +, -, * with "
  "any of them are the vector sum, difference and complex product, in place and reflected too. Distance is Euclidean, "
  "towards interpolates linearly, polar and angle are inverse to each other, reflection is central and orientation is the "
  "sign of the turn. Modulus, argument, conjugate and powers are the complex number's; copies are independent and plain operations leave their operands alone.",
  ["inputs"], "all real coordinates, factors and angles, all operand notations",
  "Aliasing and operand order are invisible with the symmetric samples tests use.",
  [B], [("Point", B)])

P("P13", "Evaluating a segment gives the points of its curve",
  "For every position in [0, 1] the point of a line, close or Bezier segment is the Bernstein combination of its control "
  "points, and that of an arc is the point of its ellipse at start parameter + position * sweep, with start and end met "
  "exactly at 0 and 1. Evaluating many positions at once gives, in order, exactly the point of each, with and without "
  "numpy. Parameter, angle and point conversions of an arc are inverse to each other up to whole turns.",
  ["inputs", "configurations"], "all control points, ellipses, sweeps and positions in [0, 1]; numpy present or absent",
  "Tests compare a few positions on a few curves; hand-expanded polynomials and quadrant logic fail elsewhere.",
  [PA], [("segment evaluation", PA), ("arc parameterisation", PA)],
  level_note="proved for all inputs; lists of positions up to three (npoint treats each position alike); numpy arrays are "
  "modelled elementwise; ellipse radii at least 0.001")

P("P14", "Transforming a curve gives the image of every point",
  "Multiplying a segment by a matrix gives a segment of the same kind whose point at every position is the matrix image of "
  "the original's point; arcs stay arcs on the image ellipse, turning the other way exactly under mirror images. The "
  "product leaves the original alone, the in-place form changes it. Transforming a path or sub-path transforms each of its "
  "segments so; a transform given as text acts as the matrix it denotes.",
  ["inputs"], "all segments of all kinds, all matrices (invertible ones for arcs), all positions",
  "Reflections, shears and non-uniform scales of rotated arcs go through branches that a few sample matrices miss.",
  [PA], [("segment times matrix", PA), ("arc image axes", PA), ("path times matrix", PA)],
  level_note="segment kinds proved for all inputs; whole paths by a proof over every kind plus a bounded one for an arc "
  "between other segments (the map is per segment)")

P("P15", "Reversing a segment runs the same curve backwards",
  "After reversing any segment its point at position s is what was its point at 1 - s, so start and end swap, control "
  "points swap, and an arc turns the other way on the same ellipse. Reversing twice restores the segment exactly.",
  ["inputs"], "all segments of all kinds and all positions",
  "Tests look at end points only, where a control point or sweep left behind does not show.",
  [PA], [("segment reverse", PA)])

P("P16", "Bounding boxes are exact",
  "The bounding box of a segment contains every point of the curve and each of its four sides is touched by the curve. "
  "Degenerate curves (straight or lower-degree control polygons) get exact boxes too.",
  ["inputs"], "all control points of lines, quadratics and cubics; arcs of at most one turn",
  "The interesting inputs (vanishing leading terms, extrema at the ends, arcs across axis extremes) are thin sets.",
  [PA], [("bbox", PA), ("cubic extrema", PA)],
  level_note="lines, quadratics and cubics proved for all inputs; the arc box is a bounded check on seeded random arcs "
  "(600 per run), not proved")

P("P17", "SVG arc arguments denote the standard's ellipse",
  "An arc made from start, radii, rotation, flags and end is the one SVG's implementation notes prescribe: it ends exactly "
  "at both points, lies on an ellipse with those radii and rotation, and its sweep has the size and direction the flags "
  "ask. Radii too short to span the points are scaled up together until they just do; their signs do not matter.",
  ["inputs"], "all centre-form arcs (whose flags and radii are recovered) and all too-short radii",
  "Flags, rotations and the scaling case combine; tests use a few arcs, mostly unrotated.",
  [PA], [("endpoint to centre conversion", PA)])

P("P18", "Arcs are replaced by curves that follow them",
  "Replacing an arc by cubic or quadratic curves gives pieces of equal parameter step that join on the arc, begin and end "
  "exactly at its ends and have tangent handles, so that each stays within 0.001% (cubic) or 0.6% (quadratic) of the "
  "ellipse for the default step. The default count is the fewest pieces of at most 1/12 turn. Replacing the arcs of a "
  "path honours the given step and leaves all other segments alone.",
  ["inputs"], "all ellipses, start parameters, sweeps and piece counts",
  "Tests compare a single picture; a wrong handle length is visible only for particular sweeps or ellipses.",
  [PA], [("arc to cubic and quadratic pieces", PA), ("path approximation", PA)],
  level_note="piece geometry and closeness lemmas hold for all arcs; the number of pieces is bounded (up to 3 symbolically, "
  "20 in runs on doubles)")

P("P19", "Every edit leaves the path connected",
  "After any single edit of a connected path (append, extend, insert, item or slice assignment and deletion, +=, +, text, "
  "pen methods, transform) each segment starts where the one before it ends and each close ends at the start of its "
  "sub-path, each keeping points of its own. Apart from these joints the segments are those of the same edit made to a plain list. The pen readings "
  "(current point, sub-path start, first point) are those of the edited path.",
  ["inputs", "histories"], "all coordinates; paths of up to six segments of all kinds, edited in every way once",
  "The number of (path shape, operation, index) combinations is large and each edit has its own repair code.",
  [PA], [("connection repair", PA), ("path editing", PA)], [("_segments", "the segments in order", PA)],
  level_note="proved for all coordinates; shapes are bounded (paths of up to six segments, one or two added, one edit; "
  "random longer ones on doubles)", level="bounded")

P("P20", "Path data means what the SVG grammar says",
  "Parsing path data yields, command by command, the segments the SVG path grammar denotes: absolute and relative forms, "
  "repeated argument groups, implicit lines after a move, smooth shorthands that reflect only a curve of their own kind, "
  "arcs, closes and the current point after them. Separators, signs, decimals and exponents in any legal spelling do not "
  "matter. Text may stand for the path it denotes in path operations.",
  ["inputs", "histories"], "any history of earlier commands (inductive step over one more command), any numbers",
  "The current point, the reflected point and the sub-path start depend on the whole history of commands.",
  [PA], [("path parser", PA), ("current, z and smooth point", PA)],
  level_note="one more command after any history is proved for all numbers (the step repeats for data of any length); the "
  "character-level scanner is checked on random data only (bounded, 600 texts per run); the data is well formed")

P("P21", "Writing a path and reading it back gives the same path",
  "The path data written for a path is in the notation asked, absolute, relative or as recorded, with or without smooth "
  "shorthand, and parses back to the same segments to the printed precision. A shorthand is used only where the reader will reconstruct the same control "
  "point. Arcs of less than a turn keep their ellipse and direction.",
  ["inputs", "configurations"], "all coordinates; paths of all segment kinds, in all notations",
  "Relative output and shorthand depend on preceding segments; tests use round numbers and single commands.",
  [PA], [("segment text", PA), ("path text", PA)],
  level_note="proved for all coordinates on paths of every kind (bounded shapes); arcs are checked on seeded random inputs "
  "only (bounded)")

P("P22", "Lengths and positions follow the curve and every edit",
  "The length of a line is the distance of its ends, that of a curve the limit of inscribed polylines, and that of a path "
  "the sum over its segments; the point at p of a path lies at fraction p of its length. After any edit, transform or "
  "reversal, length and points are those of the path as it is now.",
  ["inputs", "histories"], "all coordinates of lines; curves of every kind; any one edit after measuring",
  "Lengths are cached; a cache left stale shows only in a measure-edit-measure history.",
  [PA], [("length", PA), ("length cache", PA), ("path point", PA)], [("_length, _lengths", "cached lengths", PA)],
  level_note="straight lengths proved; path positions and cache freshness proved for all coordinates on bounded shapes; "
  "lengths of curves are a bounded check against polylines on seeded random curves")

P("P23", "Reversing paths and sub-paths",
  "Reversing a path runs every sub-path backwards and visits the sub-paths in opposite order; closed ones stay closed and "
  "an all-open path reversed twice is restored. Reversing one sub-path in place does the same to it alone, leaves the rest "
  "of the path as it was and keeps the path connected. Making closes direct puts a line in the place of every close that "
  "has a length, which then closes at once, and changes nothing else.",
  ["inputs"], "all coordinates; paths of up to three sub-paths of all segment kinds, open or closed at the end",
  "The treatment of moves and closes differs by position; tests reverse one or two shapes.",
  [PA], [("path reverse", PA), ("sub-path reverse", PA)],
  level_note="proved for all coordinates on bounded shapes", level="bounded")

P("P24", "Sub-paths are windows on their path",
  "The sub-paths of a path cut it before each move: together, in order, they are exactly its segments, and each reads like "
  "the path made of its segments alone. Editing a sub-path edits the path inside its window and nowhere else, and the "
  "window keeps covering the edited sub-path.",
  ["inputs", "histories"], "all coordinates; paths of up to three sub-paths; one edit through a sub-path",
  "Window offsets are zero in the first sub-path, which is the one tests use.",
  [PA], [("sub-path windows", PA)], [("_start, _end", "the window", PA)],
  level_note="proved for all coordinates on bounded shapes", level="bounded")

P("P25", "Copies and derived paths share nothing",
  "Copying a path, sub-path or segment, or deriving one by +, @, * or a constructor, gives an equal (or the derived) object "
  "that shares no segment and no point with its operands and keeps their notation, so later changes to either leave the "
  "other alone. The operands are unchanged.",
  ["inputs", "histories"], "all coordinates; paths of up to six segments of all kinds; every copying operation",
  "Shared mutable points only show when a later in-place change is made to one of the two.",
  [PA], [("copies", PA), ("operators", PA)],
  level_note="proved for all coordinates on bounded shapes", level="bounded")

P("P31", "Arcs through points and about centres",
  "An arc given by start, a point to pass and end is the circular arc through the three, in that order. An arc given by "
  "start, end and centre is the circular arc about that centre, turning the way asked (in the direction of growing angles "
  "by default). An arc given by start, end and radius is the shorter one of that radius that turns the way asked.",
  ["inputs"], "any three points off one line, any centre, radius and direction",
  "Orientation and the long way round depend on where the middle point lies.",
  [PA], [("arc constructor", PA)],
  level_note="proved for all points, centres, radii and directions (that the arc on the side the sweep says contains the "
  "passed point is elementary geometry, checked on doubles); the sagitta and bulge forms are checked on seeded random "
  "inputs only (bounded, 600 per run)")

P("P26", "A view box is fitted to its viewport as the standard says",
  "The transform written for a view box scales and moves it onto its viewport as preserveAspectRatio asks: alike on both "
  "axes unless none, the largest that fits (meet, the default) or the smallest that covers (slice), aligned at the start, "
  "middle or end of each axis. However box and element are given the transform is the same; with a measure missing there "
  "is none.",
  ["inputs", "configurations"], "all positions and sizes, all ten alignments with meet, slice or neither",
  "Thirty combinations times coincidences (equal scales, no shift) that change how the text is written.",
  [B, N], [("viewport transform", B), ("viewBox parsing", B)],
  level_note="proved for all numbers, the transform being read back from its text to the printed 12 decimals")

P("P27", "Elements read the attributes in force",
  "A property of an element reads the attribute the element itself sets, whatever the enclosing elements set; links are "
  "never inherited. Fill, stroke, their opacities and the stroke width come from the nearest element, itself first, that "
  "sets them. Reading changes nothing and later changes anywhere in the chain show at once.",
  ["inputs", "histories"], "all attribute values; every element type; up to three enclosing elements",
  "Tests read a property of a lone element; precedence needs conflicting settings along a chain.",
  [N], [("attributes in force", N), ("paint properties", N)], [("attributes", "an element's own attributes", N)],
  level_note="proved for all values; the depth of nesting is bounded (three symbolically, six on doubles)")

P("P28", "The document tree mirrors the XML read",
  "Reading XML gives, for every element in document order, a node of the type its tag names with exactly its attributes, "
  "linked to its parent, document, children and siblings; unknown elements keep their tag. Every id finds its node. "
  "Reading XML into an element adds it as that element's last child and leaves what was there.",
  ["inputs"], "all attribute values and texts; trees of every shape up to six elements (forty on doubles), every tag",
  "Tests read small fixed files; parent and sibling links break only for particular shapes.",
  [N], [("XML to nodes", N), ("navigation", N)], [("parent, document, objects", "links and id table", N)],
  level_note="proved for all values on bounded tree shapes; the XML parser itself (ElementTree) is trusted", level="bounded")

P("P29", "Reading and writing a document is lossless",
  "The XML written for a document or any of its elements has the same elements, attributes, order and non-blank character "
  "data as the tree in memory: that of the XML read, with whatever was changed, added, moved or removed since. A file "
  "written reads back as the same tree.",
  ["inputs", "histories"], "all attribute values and texts; trees up to six elements and one edit (more on doubles)",
  "Loss shows only for particular content: unknown tags, tails, non-ASCII text, edits after reading.",
  [N], [("nodes to XML", N), ("document write", N)],
  level_note="proved for all values on bounded tree shapes and edits; the XML writer itself (ElementTree) is trusted; blank "
  "character data may be dropped", level="bounded")

P("P30", "Elements are created exactly as asked",
  "An element made by its constructor or by the builder method of its tag on a node has exactly the attributes its "
  "positional and named arguments give. The builder adds it as the last child of that node, in the same document, and to "
  "nothing else. Elements share no attributes with each other or with the arguments.",
  ["inputs"], "all argument values, every tag, every number of positional arguments",
  "Each element type maps positions to attribute names on its own; tests build one or two of them.",
  [N], [("constructors", N), ("builder methods", N)])

P("P32", "Segments and paths are equal exactly when their parts are",
  "Two segments are equal exactly when they are of one kind and each defining point (to 1e-12 per coordinate) and the "
  "swept angle agree; two paths or sub-paths, in any combination, exactly when they have as many segments and each pair is "
  "equal. Text is compared as the path it denotes. != is always the negation and comparing changes nothing.",
  ["inputs"], "all coordinates and kinds; paths of up to four segments that differ in any one number, kind or count",
  "A number left out of a comparison, or a prefix taken for the whole, shows only for objects differing just there.",
  [PA], [("segment equality", PA), ("path equality", PA)],
  level_note="segments proved for all inputs; paths proved for all coordinates on bounded shapes")

P("P33", "Distinct colours are distinct",
  "Every index below 256 cubed gives an opaque colour of its own: different indexes give different colours. The colour is "
  "that of the index-th triple of components 0..255, listed in shells of growing largest component, its channels "
  "being the components less one with their bits reversed.",
  ["inputs"], "all indexes below 256^3",
  "Only indexes next to cubes go wrong, where the root of a cube is rounded down.",
  [B], [("Color.distinct", B)])

P("P34", "Convex hulls and closest points are exact",
  "The convex hull of points lists given points, each once, counterclockwise from the leftmost, turning strictly at every "
  "corner, with every given point inside or on it. The closest point of a line segment (or, without bounds, of its "
  "line) lies on it and no point of it is nearer. The arguments are left unchanged.",
  ["inputs"], "all lines and points; hulls of any points that are exactly equal, aligned or apart",
  "Points that share a coordinate or lie on one line, and lines of no length, are thin sets that random tests avoid.",
  [B, PA], [("Point.convex_hull", B), ("Linear.closest_segment_point", PA)],
  level_note="closest points proved for all inputs; hulls proved for up to three points of any coordinates (four in the "
  "thorough run) and checked for up to twelve points on small whole numbers")

P("P35", "A repr rebuilds its object",
  "Evaluating the repr of a length, colour, point, angle, matrix, path segment or path gives an object of the same kind, "
  "equal to it, with every number to 12 decimals; segments without a start and the absent colour are rebuilt as such. The "
  "repr of a sub-path rebuilds the path made of its segments. Taking a repr changes nothing.",
  ["inputs"], "all numbers; every kind of value and segment; paths of several segments",
  "A number printed with too few digits, dropped or in the wrong place shows only for values that need it.",
  [B, PA], [("value reprs", B), ("segment and path reprs", PA)],
  level_note="values and segments proved for all inputs (names and punctuation are evaluated by Python itself); paths "
  "proved for all coordinates on bounded shapes")

P("P36", "Points and segments are made of what is given",
  "A point made of two numbers, a pair, a complex number, a point or a text is that point. A segment holds exactly the "
  "points it is given, by place or by name in every documented form, as points of its own, keeps points not given absent, "
  "and records the relative and smooth flags. A segment is the sequence of its points: length, index and any number "
  "of simultaneous iterations agree.",
  ["inputs"], "all coordinates; every form of arguments; every kind of segment",
  "Constructors take many forms of arguments, and the rare combinations are never written in tests.",
  [B, PA], [("Point", B), ("segment constructors", PA)])

P("P37", "A path is built by the calls made on it",
  "Each of the path's move, line, horizontal, vertical, quad, smooth_quad, cubic, smooth_cubic, arc and closed calls "
  "appends, for every group of its arguments, the segment the SVG command of that name denotes at that point, records "
  "with each whether the call was relative, leaves earlier segments alone and returns the path. A last point may be "
  "given as z, the start of the sub-path, and the path's first, current, sub-path and smooth points are those of its segments.",
  ["inputs", "histories"], "all paths built so far, all calls and arguments, one to three groups per call",
  "Reflected control points and sub-path starts depend on the whole history of calls.",
  [PA], [("path building calls", PA), ("pen state", PA)],
  level_note="one step from any pen state, proved for all numbers; the pen state depends on the last segment and last move")
