import json
L='layout/src/'
P=[]
def p(id,title,statement,over,text,why,files,mechanism,observe,state=None):
    a={"files":[L+f if not f.startswith('src/') else f for f in files],"mechanism":[{"name":n,"where":w} for n,w in mechanism],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Reading any text ends in a tree or an error",
 "For every input text, parsing a graph description terminates and returns either a syntax tree or an error message; it never panics, never reads outside the text and never loops. The same holds for every record label that is split into fields.",
 ["inputs"],"every sequence of characters, well formed or not, including truncated comments, strings, attribute lists and record labels (nesting deep enough to exhaust the call stack excluded)",
 "The tests feed a handful of fixed programs, nearly all of them valid; the failures hide at the end of the text and in malformed tails that no fixed sample enumerates.",
 ["gv/parser/lexer.rs","gv/parser/parser.rs","gv/record.rs"],
 [("character cursor with an end-of-text sentinel",L+"gv/parser/lexer.rs Lexer::read_char"),("recursive descent with one token of lookahead; refuses to lex after EOF or an error token",L+"gv/parser/parser.rs DotParser::lex"),("record label scanner",L+"gv/record.rs RecordParser::parse")],
 ["DotParser::process","Lexer::next_token","parse_record_string"],[("pos, ch","cursor and current character",L+"gv/parser/lexer.rs Lexer")])
p("P02","Every character ends up in exactly one token",
 "The token stream is determined by the text alone: blanks and comments (slash-star to star-slash, and double slash to the end of the line, either one running to the end of the text when unterminated) only separate tokens, and every other character belongs to exactly one token or is reported as an error. Keywords, identifiers, decimal numbers with an optional minus sign, edge operators and punctuation are recognised as the longest match; a quoted string is an identifier with its exact content after resolving escapes, and an unterminated one is an error.",
 ["inputs"],"every text, every position and adjacency of tokens, blanks, comments and quotes (texts without NUL characters)",
 "The tests lex six fixed strings and mostly check token kinds; a character dropped or merged at a token border depends on which tokens are adjacent.",
 ["gv/parser/lexer.rs"],[("token recognisers",L+"gv/parser/lexer.rs Lexer::next_token, read_identifier, read_number, read_string"),("separator skipping",L+"gv/parser/lexer.rs skip_whitespace, skip_comment")],["Lexer::next_token"])
p("P03","The syntax tree spells exactly the statements of the text",
 "An accepted text yields the tree its statements spell: every node, edge chain, attribute assignment and (nested or anonymous) subgraph appears exactly once, in source order, with its names, ports, edge operators and attribute pairs. A text that is not a complete graph (unbalanced braces or brackets, a missing name, operator or value, content after the closing brace) is rejected with an error, never silently truncated or repaired.",
 ["inputs"],"every sequence of tokens, with arbitrary nesting, chain lengths and attribute lists",
 "The parser tests only check that three programs are accepted and one is rejected; no test looks at the resulting tree.",
 ["gv/parser/parser.rs","gv/parser/ast.rs"],[("one function per grammar rule",L+"gv/parser/parser.rs parse_graph .. parse_node_id"),("tree constructors",L+"gv/parser/ast.rs")],["DotParser::process"])
p("P04","Scoped attributes: the innermost open scope wins",
 "Looking up a key in the scoped map gives the value most recently stored for it in the innermost open scope that has the key; flattening gives exactly the bindings that lookups would give. Storing touches only the given key in the innermost scope, opening a scope changes nothing that is visible, and closing a scope makes visible exactly what was visible when it was opened.",
 ["histories","inputs"],"every history of open, store and close operations over any keys and values",
 "Two fixed histories are tested; shadowing, overwriting and restoring interact over arbitrary interleavings of scopes.",
 ["adt/map.rs"],[("stack of association lists",L+"adt/map.rs ScopedMap")],["ScopedMap::get","ScopedMap::has","ScopedMap::flatten"],[("stack","open scopes, innermost last",L+"adt/map.rs ScopedMap")])
p("P05","The built graph has the nodes and edges the statements declare",
 "Building a graph from a syntax tree gives one node per distinct name, in the order of first mention, and one edge per edge operator, in source order, between the named nodes, with the ports written next to its own two endpoints and an arrow head exactly for directed operators. A node or edge carries the default attributes in force where it is first created, overridden by the attributes of its own statements; defaults set inside a subgraph do not leak out of it, and the orientation is the one the outermost graph declares.",
 ["inputs","programs"],"every syntax tree: any nesting of subgraphs, repeated mentions, chains, defaults and overrides",
 "No test inspects a built graph; the outcome depends on the interleaving of defaults, scopes and repeated mentions.",
 ["gv/builder.rs","adt/map.rs"],[("tree walk with scoped attribute maps",L+"gv/builder.rs GraphBuilder::visit_graph, visit_edge, visit_node, visit_att"),("node registry in first-mention order",L+"gv/builder.rs init_node_with_name"),("conversion",L+"gv/builder.rs GraphBuilder::get")],["GraphBuilder::get then VisualGraph, rendering calls"],[("nodes, node_order, edges","registered nodes and edges",L+"gv/builder.rs GraphBuilder")])
p("P06","Attributes select shape, text and style; bad values fall back",
 "The documented attributes decide how a node or edge is drawn: label (the node name when absent), shape (box, doublecircle, record and Mrecord, anything else an ellipse), color, fillcolor, style, fontsize, and the line widths, where named colours have their standard values and #rrggbb / #rrggbbaa are taken literally. A value that cannot be understood falls back to the default (black for a colour) instead of failing.",
 ["inputs","configurations"],"every combination of attribute values, every colour name and every hexadecimal colour",
 "Only two colours and no attribute are tested; the combinations of attributes are not enumerable by samples.",
 ["gv/builder.rs","core/color.rs","core/style.rs"],[("attribute interpretation",L+"gv/builder.rs get_shape_from_attributes, get_arrow_from_attributes, normalize_color"),("colour parsing",L+"core/color.rs Color::from_name, fast, to_web_color")],["GraphBuilder::get","Color::fast","Color::to_web_color"])
p("P07","Graph bookkeeping: adjacency mirrors and every node has one rank",
 "After any sequence of creating nodes, adding and removing edges and moving nodes between ranks, a node lists another as successor exactly as often as the other lists it as predecessor, and every node is in exactly one rank, which is the rank reported for it. Each operation changes only what it is asked to change: removing an edge removes one occurrence and keeps the order of the rest, and moving a node keeps the relative order of all other nodes and places it where requested.",
 ["histories","inputs"],"every history of graph operations over any number of nodes, parallel edges and ranks",
 "Two short fixed histories are tested; lost or duplicated entries need particular combinations of parallel edges and moves.",
 ["adt/dag.rs"],[("paired successor and predecessor lists",L+"adt/dag.rs DAG::add_edge, remove_edge"),("rank lists",L+"adt/dag.rs add_element_to_rank, update_node_rank_level, level")],["DAG::successors","DAG::predecessors","DAG::ranks","DAG::level"],[("nodes, ranks","adjacency lists and rank lists",L+"adt/dag.rs DAG")])
p("P08","Reachability is exact and levels follow the longest path",
 "The reachability query answers yes exactly when a directed path leads from the first node to the second, and it terminates on every graph, cyclic or not. On an acyclic graph (self edges ignored) levelling puts every node on the level equal to the length of the longest path that ends in it, so every edge leads to a strictly later level.",
 ["inputs"],"every directed graph and pair of nodes; every acyclic graph, in whatever order nodes and edges were added",
 "One five-node chain is tested; the answer depends on the shape of the whole graph and on insertion order.",
 ["adt/dag.rs"],[("depth first search with visit marks",L+"adt/dag.rs is_reachable_inner, is_reachable"),("reverse post-order and longest-path levels",L+"adt/dag.rs topological_sort, compute_levels, recompute_node_ranks")],["DAG::is_reachable","DAG::recompute_node_ranks","DAG::level"])
p("P09","Breaking cycles keeps every edge and only turns it around",
 "Turning the drawing into an acyclic graph keeps every edge that does not start and end in the same node exactly once, in order, either as it was or turned around together with its arrow heads and ports and with nothing else about it changed, and the result has no cycle. An edge is only turned around if the edges before it already connect its target to its source, and self edges are set aside unchanged.",
 ["inputs"],"every multigraph, cyclic or not, with any order of edges",
 "No test lowers a graph; cycles close only through particular orders of edges.",
 ["topo/layout.rs","adt/dag.rs","std_shapes/shapes.rs"],[("back edge reversal",L+"topo/layout.rs VisualGraph::to_valid_dag"),("edge reversal",L+"std_shapes/shapes.rs Arrow::reverse")],["VisualGraph::to_valid_dag then succ/preds; rendered arrows"])
p("P10","Splitting edges keeps their endpoints and steps one rank at a time",
 "After the long, labelled and self edges are split, every edge still runs from its own start node to its own end node, through connector elements that belong to it alone, and two consecutive elements of an edge between different nodes are always linked in the graph and lie on consecutive ranks. An edge label moves to exactly one connector of its own edge, with its text and style unchanged, and the connector of a self edge lies directly in front of its node on the same rank or in front of another connector of that node.",
 ["inputs","configurations"],"every graph, with and without optimisation, for every length of edge and every mix of labels and self edges",
 "No test lowers a graph; the chain of an edge depends on ranks chosen for the whole graph.",
 ["topo/layout.rs"],[("label connectors",L+"topo/layout.rs split_text_edges"),("rank-by-rank connectors",L+"topo/layout.rs split_long_edges"),("self edge connectors",L+"topo/layout.rs expand_self_edges")],["VisualGraph::succ/preds, DAG::ranks, rendered arrows"],[("edges","list of elements that each edge visits",L+"topo/layout.rs VisualGraph")])
p("P11","Sinking nodes keeps the ranking valid and never lengthens edges",
 "The rank optimisation terminates, and after it every node is still in exactly one rank, every edge still leads to a strictly later rank, the number of ranks is unchanged and no rank is left empty. It never increases the total number of ranks spanned by the edges, and it changes no edge.",
 ["inputs"],"every ranked acyclic graph",
 "No test runs the optimiser; the invariants depend on the order in which nodes sink.",
 ["topo/optimizer.rs","adt/dag.rs"],[("node sinking to a fixed point",L+"topo/optimizer.rs RankOptimizer::optimize, try_to_sink_node"),("rank update",L+"adt/dag.rs update_node_rank_level")],["RankOptimizer::optimize then DAG::ranks"])
p("P12","Reordering rows only permutes them and never adds crossings",
 "The crossing optimisation terminates, and after it every rank holds the same nodes as before, at most in a different order. The number of edge crossings between adjacent ranks, counting parallel edges once, is never larger than before the optimisation, and no edge changes.",
 ["inputs"],"every graph whose nodes are assigned to ranks",
 "No test runs the optimiser; the result is the outcome of dozens of interacting swaps and perturbations.",
 ["topo/optimizer.rs"],[("crossing count",L+"topo/optimizer.rs EdgeCrossOptimizer::num_crossing, count_crossed_edges"),("local swaps and perturbation, keeping the best ranking",L+"topo/optimizer.rs optimize, swap_crossed_edges, rotate_rank, perturb_rank")],["EdgeCrossOptimizer::optimize then DAG::ranks"])
p("P13","Placed nodes keep row order and never overlap",
 "After layout, the nodes of one rank appear from left to right in the order of the rank with no two overlapping, ranks are stacked in order so that nodes of different ranks do not overlap either, and no node has a negative coordinate (with the axes exchanged for left-to-right graphs). The initial placement, used when the layout phase is disabled, guarantees this for connectors as well, and no placement changes a size, a shape or the graph.",
 ["inputs","configurations"],"every graph, every combination of positive sizes of ordinary magnitude, both orientations, with and without the layout phase",
 "No test checks a coordinate; overlaps depend on combinations of sizes and on neighbouring rows.",
 ["topo/placer/simple.rs","topo/placer/bk.rs","topo/placer/verifier.rs","topo/placer/edge_fixer.rs","topo/placer/place.rs"],[("row stacking and initial placement",L+"topo/placer/simple.rs"),("block scheduling",L+"topo/placer/bk.rs Scheduler"),("late adjustments",L+"topo/placer/edge_fixer.rs"),("order check",L+"topo/placer/verifier.rs")],["Placer::layout then VisualGraph::pos"])
p("P14","Laying out any graph finishes",
 "For every graph, including the empty one, ones with parallel edges, cycles, self edges, isolated nodes and labels, and for each combination of the optimisation, layout and debug switches, layout and rendering terminate without panicking.",
 ["inputs","configurations"],"every graph with shapes of ordinary positive size and any labels, every combination of switches and orientations",
 "No test lays out a graph; internal consistency checks abort the program for rare combinations of sizes and edges.",
 ["topo/layout.rs","topo/placer/bk.rs","topo/placer/edge_fixer.rs","topo/placer/verifier.rs","topo/optimizer.rs","adt/dag.rs","core/geometry.rs"],[("phases",L+"topo/layout.rs VisualGraph::do_it, lower"),("vertical alignment and scheduling",L+"topo/placer/bk.rs NodeAttachInfo::get_verticals, Scheduler::schedule"),("internal assertions",L+"topo/placer/verifier.rs, edge_fixer.rs")],["VisualGraph::do_it"])
p("P15","Vertical alignment blocks partition the nodes and do not cross",
 "Each candidate alignment gives every node at most one aligned neighbour in the rank above and at most one in the rank below, always along an edge of the graph, and no two aligned pairs between the same two ranks cross. The blocks extracted from it contain every node exactly once, in consecutive ranks, and all of them get scheduled.",
 ["inputs"],"every ranked graph, both scan directions",
 "One hand-written alignment is tested; conflicts arise from the interplay of medians and row orders.",
 ["topo/placer/bk.rs"],[("greedy alignment with a monotone frontier",L+"topo/placer/bk.rs BK::compute_alignment"),("block extraction",L+"topo/placer/bk.rs NodeAttachInfo::get_verticals"),("ready-list scheduling",L+"topo/placer/bk.rs Scheduler::schedule, is_vertical_ready")],["Placer::layout (straight chains of a rank pair share one x coordinate)"])
p("P16","Edges start and end on their shapes and pass their connectors",
 "The drawn path of an edge starts on the outline of its source shape and ends on the outline of its target shape, where for a record with a matching port the outline is that of the field, and in between it visits the centers of the connectors of the edge in order. The path has one point per visited element, and the edge is drawn with the heads, dash style, colour and properties it was declared with.",
 ["inputs","configurations"],"every pair of shapes, sizes, relative positions and ports, any number of connectors",
 "No test renders an edge; the side of the outline depends on signs, slopes and ratios of real numbers.",
 ["core/geometry.rs","std_shapes/render.rs"],[("outline intersection",L+"core/geometry.rs get_connection_point_for_box, get_connection_point_for_circle, ellipse_line_intersection"),("path construction",L+"std_shapes/render.rs generate_curve_for_elements, render_arrow"),("port lookup",L+"std_shapes/render.rs get_record_port_location")],["RenderBackend::draw_arrow"])
p("P17","Geometric predicates are exact",
 "The segment/rectangle test answers yes exactly when the closed segment and the closed rectangle share a point, the box test, for boxes of positive width and height, exactly when they share an inner point, and the range test exactly for values within the closed range. The median of a non-empty list is the middle element of the sorted list, or the mean of the two middle ones, whatever the order of the list.",
 ["inputs"],"every segment, rectangle, pair of boxes, range and list of finite numbers",
 "Six segments and a few lists are tested; vertical, horizontal, touching and passing-by segments are distinct cases.",
 ["core/geometry.rs"],[("predicates",L+"core/geometry.rs segment_rect_intersection, do_boxes_intersect, in_range, weighted_median")],["segment_rect_intersection","do_boxes_intersect","in_range","weighted_median"])
p("P18","Positions: one consistent box, center and transposition",
 "The bounding box of a placed element is its size (plus its halo when asked for) centered on its middle point, and left, right, top, bottom and the distances to its sides agree with that box and with its center. Aligning, centering, moving and translating put the stated edge or point at the stated coordinate and change nothing but the affected coordinate; transposing exchanges the axes of everything and is its own inverse, so a left-to-right layout is the mirror image of the top-to-bottom layout.",
 ["inputs","histories"],"every position, size, center offset, halo and target coordinate; every graph for the mirror property",
 "Only point rotation is tested; an error in one accessor shows only for particular halos, offsets and orientations.",
 ["core/geometry.rs","std_shapes/shapes.rs","topo/placer/place.rs"],[("position algebra",L+"core/geometry.rs Position, Point"),("transposition around the placer",L+"topo/placer/place.rs Placer::layout, VisualGraph::transpose")],["Position accessors","Placer::layout then VisualGraph::pos"])
p("P19","Record labels are split into exactly their fields",
 "A record label with balanced braces is split into its fields in order: bars separate fields, braces nest a list of fields, blank fields are dropped, and each field has its text without surrounding blanks and the port name written in angle brackets in front of it, if any. Nothing of the label is lost, duplicated or attached to a neighbouring field.",
 ["inputs"],"every record label with balanced braces, at any nesting depth",
 "Three labels are only printed and one field is checked; fields get lost at particular borders of braces and bars.",
 ["gv/record.rs"],[("recursive scanner with a frame per nesting level",L+"gv/record.rs RecordParser::parse, RecordParserFrame")],["parse_record_string","record_builder"])
p("P20","Record fields tile their box",
 "When a record is drawn, the fields of each level lie side by side along one axis (alternating per level), in order, inside the box of the level, without gaps or overlaps, and together they fill it. Each text is drawn in the middle of its own field, and when the box has the size that was computed for the record, every field is large enough for its own text.",
 ["inputs","configurations"],"every nesting of fields, text sizes, font sizes and orientations",
 "No test draws a record; the tiling depends on the recursive sizes of all fields.",
 ["std_shapes/render.rs"],[("recursive size",L+"std_shapes/render.rs get_record_size, get_shape_size"),("recursive placement",L+"std_shapes/render.rs visit_record, render_record")],["RenderBackend::draw_rect, draw_text"])
p("P21","Text in the SVG file is exactly the label, safely escaped",
 "Every label that is drawn appears in the SVG output as text that decodes to exactly the label, line by line, and no character of a label can open or close an element, attribute or entity. Whatever the labels are, the output is one well-formed document: a header, one root element, definitions, styles, content, and the closing tag.",
 ["inputs"],"every label text made of characters that XML can represent, in shapes, fields, connectors and along edges",
 "No test looks at an SVG file; escaping fails only for particular characters and call paths.",
 ["backends/svg.rs"],[("escaping",L+"backends/svg.rs escape_string"),("emission",L+"backends/svg.rs draw_text, draw_arrow, finalize")],["SVGWriter::finalize"])
p("P22","References inside the SVG resolve to unique definitions",
 "In the SVG output every identifier is defined once, and every clip region, marker, text path and font class that is used is defined in the same document. A font class always stands for the font size the text was drawn with, and a clip region for the rectangle it was created with.",
 ["histories","inputs"],"every sequence of drawing calls, with any mix of font sizes, clips and edges",
 "No test looks at an SVG file; a clash needs particular sequences of calls.",
 ["backends/svg.rs"],[("running counter for edges",L+"backends/svg.rs SVGWriter::draw_arrow"),("font style registry",L+"backends/svg.rs get_or_create_font_style, emit_svg_font_styles"),("clip registry",L+"backends/svg.rs create_clip")],["SVGWriter::finalize"],[("counter, font_style_map, clip_regions","registries of the writer",L+"backends/svg.rs SVGWriter")])
p("P23","The canvas covers everything that is drawn",
 "The declared width, height and view box of the SVG output cover every rectangle, ellipse, text anchor and edge point that was drawn at non-negative coordinates, and the view box never shrinks as more is drawn.",
 ["histories","inputs"],"every sequence of drawing calls with finite coordinates",
 "No test looks at an SVG file; the extreme element can be any one of the calls.",
 ["backends/svg.rs"],[("window growth",L+"backends/svg.rs grow_window"),("emission",L+"backends/svg.rs finalize")],["SVGWriter::finalize"],[("view_size","extent seen so far",L+"backends/svg.rs SVGWriter")])
p("P24","Every node and edge is drawn exactly once",
 "Rendering a laid out graph draws every node once, in order, with its own shape, position, size, style, text and properties, then every visible edge once, with its own style and properties; an edge whose line style is none is not drawn. Debug mode adds markers but leaves out and changes nothing, and connectors draw nothing but their label. That data is what the element and the edge were created with, whichever constructor made them.",
 ["inputs","configurations"],"every graph, every mix of shapes, line styles and properties, with and without debug mode",
 "No test renders a graph through an observing backend.",
 ["topo/layout.rs","std_shapes/render.rs","std_shapes/shapes.rs"],[("render loop",L+"topo/layout.rs VisualGraph::render"),("shape rendering",L+"std_shapes/render.rs Element::render, render_record, render_arrow"),("constructors",L+"std_shapes/shapes.rs Element::create, Element::create_with_properties, Arrow::new, Arrow::with_properties")],["RenderBackend calls"])
p("P25","Moving labels between rows loses no label",
 "Balancing labels between rows moves a label only between two consecutive connectors of the same edge, and only onto one that has none, so that every edge has the same labels with the same style before and after, each exactly once. Nodes, edges and ranks are not changed, and the size of each connector fits what it holds afterwards.",
 ["inputs"],"every graph with any number of labelled edges of any length",
 "No test lays out a labelled edge; labels collide only when rows have particular widths.",
 ["topo/placer/move_between_rows.rs"],[("label exchange",L+"topo/placer/move_between_rows.rs move_label, move_text_up")],["Placer::layout then VisualGraph::element"])
p("P26","Saving reports success only for a completely written file",
 "Saving the output reports success only if the file was created and its whole content was handed to the operating system, and then the file holds exactly the given content, replacing whatever was there; every failure to create or write is reported as an error.",
 ["inputs","fault_sequences"],"every content and file name, every failure of creation or of any write",
 "No test saves a file or makes a write fail.",
 ["core/utils.rs","src/bin/layout.rs"],[("file output",L+"core/utils.rs save_to_file")],["save_to_file"])
p("P27","The SVG file shows each drawing call as it was asked",
 "Every rectangle, ellipse, line, text and edge that is drawn becomes, in the order of the calls, one SVG element of that kind with exactly the given position, size, line and fill color, line width, corner radius and clip region, in a group that carries its properties. A text is centered at its anchor, one line below the other. An edge is one path through exactly the given points and control points, with the given dash pattern and arrow heads, and its label runs along that path. Drawing adds nothing else to the picture.",
 ["inputs","histories"],"every sequence of drawing calls with every coordinate, style, property and path length",
 "No test looks at an SVG file; a swapped coordinate shows only where the two differ, a lost point only on edges of several segments.",
 ["backends/svg.rs"],[("shapes and text",L+"backends/svg.rs SVGWriter::draw_rect, draw_circle, draw_line, draw_text"),("edge paths",L+"backends/svg.rs SVGWriter::draw_arrow"),("emission",L+"backends/svg.rs finalize")],["SVGWriter::finalize"],[("content","what was drawn so far",L+"backends/svg.rs SVGWriter")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import collections
print(len(P),[x['id'] for x in P if len(x['title'])>80])
