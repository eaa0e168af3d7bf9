"""What each check runs: contract modules (contracts/<name>.vspec) and harness time."""
# property -> contract modules whose obligations decide it
MODULES={
 "P01":["lexer0","ast0","parser0","record0"],
 "P02":["lexer"],
 "P03":["ast","parser"],
 "P04":["map"],
 "P05":["builder"],
 "P06":["color","style","sizes","make","attrs"],
 "P07":["dag","dagcheck"],
 "P08":["reach"],
 "P09":["graph","types"],
 "P10":["split","shapes","lower"],
 "P11":["sink"],
 "P12":["cross"],
 "P13":["simple","verify","place","fixer","placer"],
 "P14":["whole","built"],
 "P15":["align","sched"],
 "P16":["outline","path"],
 "P17":["pred"],
 "P18":["geom","orient","elem"],
 "P19":["record"],
 "P20":["sizes","visit","tile"],
 "P21":["svg"],
 "P22":["svg"],
 "P23":["svg"],
 "P24":["make","draw"],
 "P25":["rows","lower"],
 "P26":["save"],
 "P27":["svg"],
}
# properties about every function they depend on: an obligation of any of them that a run does not abort, or that it ends, counts
SAFETY={"P14"}
# what a harness case is and when it counts as non-trivial
RULE={
 "P01":"random token soups, mutated programs and valid programs given to the real parser; non-trivial: the text has at least one token",
 "P02":"texts assembled from known tokens, comments and white space, compared with an independent reference lexer",
 "P03":"random syntax trees printed in random styles and parsed back; non-trivial: at least one statement",
 "P04":"random operation sequences on the scoped map compared with a list of maps",
 "P05":"random programs (as syntax trees) given to the builder and compared with an independent interpretation",
 "P06":"random attribute lists on nodes and edges compared with an independent reading of the attributes",
 "P07":"random operation sequences on the graph compared with a plain edge list and row lists",
 "P08":"random acyclic graphs; reachability and levels compared with independent computations",
 "P09":"random multigraphs (all small ones first) made acyclic; non-trivial: at least two nodes and one edge",
 "P10":"random multigraphs with labels lowered to chains; non-trivial: at least two nodes and one edge",
 "P11":"random ranked graphs given to the rank optimiser",
 "P12":"random layered graphs given to the crossing optimiser; non-trivial: the input has crossings",
 "P13":"random graphs placed by the real placer and measured; non-trivial: at least two nodes and one edge",
 "P14":"random graphs and DOT programs rendered with every combination of switches; non-trivial: at least two nodes and one edge",
 "P15":"random graphs; the alignment and the scheduled coordinates of the placer are inspected through the hooks",
 "P16":"random element chains with ports; end points compared with the outlines of the drawn shapes",
 "P17":"random boxes, points and segments compared with exact integer or independent geometry",
 "P18":"random positions and graphs, top-to-bottom and mirrored left-to-right",
 "P19":"random record labels compared with an independent splitter",
 "P20":"random records rendered into a recording backend and measured; non-trivial: at least two fields",
 "P21":"random hostile labels drawn directly and through the pipeline; the output is parsed by an independent strict XML parser",
 "P22":"random drawings; every reference of the parsed output is resolved",
 "P23":"random drawings; the view box is compared with everything drawn, after every operation",
 "P24":"random graphs rendered into a recording backend and compared with what was declared",
 "P25":"random graphs with many labels; labels compared before and after placement; non-trivial: a label moved",
 "P27":"random drawings (every kind of call, style and property); the elements of the parsed output are compared one by one with the calls",
 "P26":"random contents and file states in a scratch directory, including devices and paths that fail",
}
PROPS=sorted(RULE)
QUICK_SECS=10
THOROUGH_SECS=240
EXTRA_SECS=45   # additional search when an obligation fails
# assumptions that hold for every module
COMMON_ASSUME=[
 "Verus 0.2026.09.13 and its bundled Z3 are sound; vstd's specifications of std match the standard library",
 "the extraction of tools/weave.py is faithful: it drops attributes, doc comments, derives, log statements and prints, turns assert!/assert_eq! into calls with a precondition, panic!/unreachable! into calls that must be unreachable, trait methods into inherent ones, makes fields public, and rewrites for loops into while loops over the same index sequence",
 "usize is 64 bits wide where a contract says so; allocation never fails; the stack is deep enough",
]
REAL="floating point numbers are read as the real numbers they stand for: rounding, overflow, NaN and infinities are left to the bounded part (f64 is replaced by a type whose operators have exact real contracts)"
TEXT="the standard library's text operations (char classes, trim, find, lines, starts_with, slicing at byte offsets, String and str clone/compare) behave as their assumed contracts in contracts/text.vspec and contracts/lexer.vspec say"
HASH="std's HashMap with String keys, String/str equality and clones behave as the assumed contracts in contracts/props.vspec and vstd say"
DYN="a canvas behind &mut dyn RenderBackend (or a visitor behind &mut dyn RecordVisitor) is any type that implements the trait: the extraction replaces the trait object by a type parameter"
DRAWN="the attributes that a caller passes along with a drawing call read as attributes of one element, and neither define nor refer to an identifier; the path of an edge has at least two points and a clip handle comes from create_clip (what the renderer passes, P16 and P24)"
SHOWN="a number is shown as plain characters (no quote, ampersand or angle bracket; a whole number as its decimal digits); iterating over a HashMap gives every entry once; str::lines splits at line feeds and drops one carriage return before each; a String holds at most isize::MAX bytes"
ASSUME={
 "P21":[REAL,TEXT,HASH,DRAWN,SHOWN],
 "P22":[REAL,TEXT,HASH,DRAWN,SHOWN],
 "P23":[REAL,TEXT,HASH,DRAWN,SHOWN],
 "P27":[REAL,TEXT,HASH,DRAWN,SHOWN],
 "P14":[REAL,TEXT,HASH,DYN,"f64::INFINITY is read as a number that is not finite and below (above) whatever it is compared with","the user's elements have a positive size, a halo of at least 0 and their connection point inside, edges end in elements that are no connectors, the graph has not been lowered before, and (n + e)(e + 1) + e is at most 2^30 for n elements and e edges; graphs that come from a program have all but the last (proved)","functions of the standard library terminate","the canvas returns from every call"],
 "P13":[REAL,TEXT,"f64::INFINITY is read as a number that is not finite and below (above) whatever it is compared with","lowered graphs (what lower() establishes, P10 and P25: movable) whose elements have a positive size, a halo of at least 0 and their connection point inside; at most 2^30 elements","clone of a vector of coordinates or of nodes gives an equal vector"],
 "P15":[REAL,"std's HashSet of pairs of nodes is a set: insert adds and contains asks for membership (the stand-in EdgeSet of contracts/align.vspec)","ranked graphs as lowering leaves them: every edge leads from one rank to the next, every node is in one rank, at most 2^31 nodes; f64::INFINITY is read as a number that is not finite and below (above) whatever it is compared with"],
 "P25":[REAL,TEXT,"(n + e)(e + 1) + e at most 2^30 for n elements and e edges; no connector is the end point of an edge when lowering starts"],
 "P16":[REAL,TEXT,DYN,"no level of a record is empty and shapes have a positive size where the path of an edge has to be on an outline; an edge starts and ends in a shape that is no connector and passes only connectors (what the split of long edges establishes, P10)","sin, cos and to_radians are left unspecified (only a control point depends on them)"],
 "P20":[REAL,TEXT,DYN,"no level of a record is empty (the record parser makes none)"],
 "P24":[REAL,TEXT,DYN,"no level of a record is empty; an edge starts and ends in a shape that is no connector and passes only connectors (what the split of long edges establishes, P10)"],
 "P05":[TEXT,HASH,"nesting is not deep enough to exhaust the call stack"],
 "P06":[TEXT,HASH,REAL,"number parsing (str::parse, u32::from_str_radix) and {:08x} do what their documentation says (assumed contracts in contracts/text.vspec)"],
 "P26":["File::create truncates, write! and write_all hand over everything or return an error, and nothing else changes the file meanwhile (the assumed contracts in contracts/save.vspec; the state of the file system is a ghost argument added by the extraction)"],
 "P01":[TEXT,"print_error is called on texts of less than 2^31 characters","nesting is not deep enough to exhaust the call stack"],
 "P02":[TEXT,"the text contains no NUL character"],
 "P03":[TEXT,"the text contains no NUL character; nesting is not deep enough to exhaust the call stack"],
 "P19":[TEXT,"nesting is not deep enough to exhaust the call stack"],
 "P17":[REAL,"slice::to_vec and Vec::sort_by with the order of the numbers (standard library)"],
 "P18":[REAL],
 "P12":["at most 2^31 elements and at most 2^30 links between them (the crossing counts then fit 64 bits), no rank is empty and there is at least one (what levelling produces)"],
 "P10":["n + e*n + s at most 2^30 (n elements, e edges, s self edges when the long edges are split), at least one element, no edge passes through the same element twice in a row (what to_valid_dag and the label split produce)"],
 "P11":["fewer than 2^31 nodes (the pass counts them in an i32) and neighbour lists whose lengths add up within usize"],
 "P04":["the key type's == decides equality, clones are equal to the original, and keys satisfy HashMap's requirements (true for String and usize)"],
}
# parts of the property that no contract covers (bounded by the harness only)
REST={
 "P27":["that the shape is inside of the group opened just before it (the contracts give the elements in document order), and that a number reads back as the value it was written from"],
 "P18":["that the coordinates of a left-to-right layout are those of the top-to-bottom layout with the axes exchanged follows from Placer::layout transposing before and after; the phases in between are covered by the bounded part"],
}
def level(p): return "proof" if MODULES.get(p) else "exploration"
NOTE={
 "P21":"Every function of SVGWriter is proved against a reference XML reader: what a drawing call adds to the output reads, from any place between two tags, as whole elements whose text is exactly the lines of the label, and finalize gives one well-formed document (header, one root) whose labels are exactly the ones drawn, in order. The reader's meaning of every string literal of the module is computed and proved on every run.",
 "P22":"With the same reader: the identifiers of the finished document are proved to be the two markers, the clip regions and the edges, each once; every reference is one of them; every class used is a rule of the style sheet, with the font size the text was drawn with; and the rectangle of a clip region is the one it was created with.",
 "P23":"With the same reader: every drawing call is proved to grow the window so that it covers its rectangle, ellipse, text anchor or edge points and never shrinks, and finalize to declare exactly that window as width, height and view box.",
 "P27":"With the same reader, which also collects the elements of a text in document order, each with the set of its attributes: every drawing call is proved to append exactly the elements it stands for (the group with the caller's attributes and the shape; a text with one tspan per line; a path through all the points, and the label along it), for all coordinates, styles and path lengths, and finalize to emit everything drawn, in order, at the end of the document.",
 "P14":"VisualGraph::do_it is proved to return, without reaching a panic, a failed internal assertion, an index out of range or an overflow, for every graph and every combination of the switches; so is every function of lowering, placement and rendering that it calls (for this property an obligation of any of them that a run ends or does not abort counts). It is proved together with what the result is: the lowered graph is laid out (P13) and drawn (P24). A program's syntax tree is proved to give such a graph, through GraphBuilder (module built: a function of three calls written in the contract, like the one in the crate's documentation).",
 "P13":"The whole placement (Placer::layout: moving labels up, initial placement, order checks, alignment and scheduling, straightening and the other late adjustments, both orientations, with and without the layout phase) is proved: the elements of a rank lie side by side in the order of the rank, the nodes of a rank lie above those of the next, no two boxes overlap, no node has a negative coordinate, and only places change, apart from where the labels are. Without the layout phase the connectors are covered too.",
 "P15":"compute_alignment is proved, for both scan directions, to give every node at most one aligned neighbour above and one below, always along an edge and without crossings between two ranks; get_verticals to cut the alignment into blocks in consecutive ranks that hold every node once; the scheduler to finish, to place every block, and to give each node of a block the same coordinate with the rows in order.",
 "P25":"move_label, move_text_up and the pass that repeats it are proved, whatever the widths of the rows: the labels along every edge stay the same, in order, with their styles; only connectors change, and each one is resized to what it holds. What the pass needs (connectors on one edge each, linked connectors next to each other on it) is proved to be established by lower(), from the user's graph on.",
 "P16":"The connection points of boxes and ellipses, the field lookup of a port, the connector pass-through and the path construction are proved, over the real numbers: one point per visited element, the first and last on the outline of their shape (or field), the inner ones in the centers of the connectors.",
 "P20":"get_record_size, visit_record and render_record are proved against a reference tiling (every level is cut along its axis in proportion to the room its fields need), and the tiling is proved to fill its box without gap or overlap, to stay inside it, and to leave every text enough room.",
 "P24":"Element::render, render_arrow and VisualGraph::render are proved against the history of the calls made to an arbitrary canvas: each element and each visible edge is drawn once, in order, with its own data, and debug mode only adds marks around them. So is each constructor of an element, an edge, a shape and a record against the values that it is given.",
 "P05":"The whole builder (visit_graph, visit_stmt, visit_edge, visit_node, visit_att, init_node_with_name, get) is proved equal to a reference interpretation of the syntax tree: nodes in the order of first mention, one edge per operator with its own ports and direction, defaults of the enclosing scopes overridden by the statement's own attributes, scopes restored, and the orientation of the outermost graph.",
 "P06":"The colors (table, #rrggbb, #rrggbbaa, fallback), get_shape_from_attributes, get_arrow_from_attributes, normalize_color and the shape sizes are proved against a reference reading of the attribute list, for every list.",
 "P26":"save_to_file is proved against assumed contracts of the file operations it calls: success implies that the file holds exactly the content and that no other file changed.",
 "P01":"Every function of the lexer, the parser and the record splitter is proved, for every text, to return (a measure of what is left to read decreases), to stay inside the text and never to reach a panic.",
 "P02":"The lexer is proved equal to a reference definition of tokens written over the characters (separators, longest match, escapes, unterminated strings) for every text without NUL.",
 "P03":"The parser is proved to return, for an accepted text, exactly the tree that a reference grammar over the tokens gives, with the whole text used up; and to accept every text of a stricter grammar (one separator at most after a pair or a statement, and a node statement that is only a name is followed by a separator, a name or the closing brace).",
 "P19":"The record splitter is proved equal to a reference definition over the characters of the label, at any nesting depth.",
 "P17":"The range test, the box test, the segment/rectangle test and the median are proved for all inputs against their set definitions: a common point exists exactly when the test says so, and the median is the middle of a sorted permutation of the list.",
 "P18":"Every operation of Point and Position and the transposition of elements and graphs is proved against the box (size plus halo around the middle) and the center; each changes only the stated coordinate, and transposing twice gives back the same graph.",
 "P10":"split_text_edges, split_long_edges and expand_self_edges are proved with the passes they call (levelling, sinking, reordering): the label of an edge moves to one new connector of that edge, text and style unchanged; every chain keeps its end points and its old elements, what is added to it is a connector of its own (on one chain, once) without a label, two consecutive elements are linked in the graph and on consecutive ranks, and the connector of a self edge stands in front of its node or of another of its connectors.",
 "P09":"to_valid_dag and every operation of the graph it calls are proved: afterwards the dag is acyclic, self edges are set aside unchanged, every other edge is kept or turned around (arrow heads and ports swapped with it) exactly when it would close a cycle, and the edge list and the dag describe the same edges.",
 "P12":"The whole optimisation (counting, sweeps, perturbation, best-so-far) is proved: every row keeps its multiset of nodes, the number of crossings is exactly what the code counts and never grows, the sweeps terminate (a weighted crossing measure decreases), no edge and no rank number changes.",
 "P11":"The whole optimisation (new, try_to_sink_node, optimize) is proved on ranks that levelling produced: it terminates (a potential decreases), keeps every node in one rank, every edge pointing to a later rank, the number of ranks, no empty rank, the edges, and the total span never grows.",
 "P07":"Every operation of the graph (creation, edges, ranks, row access, the consistency check) is proved to keep the adjacency lists mirrored and every node in exactly one rank, and to change only what is asked for: the exact new lists are the postconditions, for all graphs and histories.",
 "P08":"Reachability is proved equivalent to the existence of a path, on every graph and with termination; topological_sort, compute_levels and recompute_node_ranks are proved to give every node of an acyclic graph the length of the longest path that ends in it, with no empty rank.",
 "P04":"Every operation of the scoped map is proved against a list-of-maps view, for all keys, values and histories.",
}
NOT_APPLICABLE=[]
