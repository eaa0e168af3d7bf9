@module attrs
@use base text dag types geom orient color style shapes make sizes record props map
@file gv/builder.rs
@code
use std::collections::HashMap;
broadcast use {ax_fr, text_keys, vstd::std_specs::hash::group_hash_axioms};
// ---- what the attributes say ----
// only the first color of a list counts, and transparent is drawn white
pub open spec fn normal(c: Seq<char>) -> Seq<char> { let i = index_of(c, ':'); let f = if i < 0 { c } else { c.take(i) }; if f == "transparent"@ { "white"@ } else { f } }
pub open spec fn or(o: Option<Seq<char>>, d: Seq<char>) -> Seq<char> { match o { Some(x) => x, None => d } }
pub open spec fn number_or(o: Option<Seq<char>>, d: usize) -> int { match o { Some(x) => match number(x, 10, usize::MAX as int) { Some(v) => v, None => d as int }, None => d as int } }
// the color with this name; black when there is none
pub open spec fn colored(n: Seq<char>, c: Color) -> bool { exists|o: Option<Color>| painted(n, o) && c.color == (match o { Some(x) => x.color, None => 255 }) }
pub open spec fn outline(m: Map<String, String>) -> Seq<char> { match prop(m, "color"@) { Some(x) => normal(x), None => "black"@ } }
pub open spec fn inside_color(m: Map<String, String>) -> Seq<char> {
    match prop(m, "fillcolor"@) { Some(x) => normal(x), None => if prop(m, "style"@) == Some("filled"@) { "lightgray"@ } else { "white"@ } }
}
pub open spec fn shape_is(m: Map<String, String>, name: Seq<char>, s: ShapeKind) -> bool {
    let label = or(prop(m, "label"@), name);
    let sh = prop(m, "shape"@);
    if sh == Some("box"@) { s matches ShapeKind::Box(t) && t@ == label }
    else if sh == Some("doublecircle"@) { s matches ShapeKind::DoubleCircle(t) && t@ == label }
    else if sh == Some("record"@) || sh == Some("Mrecord"@) { s matches ShapeKind::Record(d) && recv(d) == record(label) }
    else { s matches ShapeKind::Circle(t) && t@ == label }
}
pub open spec fn node_drawn(dir: Orientation, m: Map<String, String>, name: Seq<char>, e: Element) -> bool {
    &&& shape_is(m, name, e.shape)
    &&& colored(outline(m), e.look.line_color)
    &&& e.look.fill_color matches Some(f) && colored(inside_color(m), f)
    &&& e.look.line_width == number_or(prop(m, "width"@), 1)
    &&& e.look.font_size == number_or(prop(m, "fontsize"@), 14)
    &&& e.look.rounded == (if prop(m, "shape"@) == Some("Mrecord"@) { 15 } else { 0int })
    &&& e.orientation == other(dir)
    &&& e.properties is None && xy(e.pos.middle) == (0real, 0real) && xy(e.pos.center) == (0real, 0real) && rv(e.pos.halo.x) >= 0real && rv(e.pos.halo.y) >= 0real
    &&& ({ let q = shape_size(other(dir), e.shape, e.look.font_size); if e.shape is DoubleCircle { xy(e.pos.size) == (rmax(q.0, q.1), rmax(q.0, q.1)) } else { xy(e.pos.size) == q } })
}
pub open spec fn edge_drawn(m: Map<String, String>, directed: bool, fp: Option<String>, tp: Option<String>, a: Arrow) -> bool {
    &&& a.start is None && (if directed { a.end is Arrow } else { a.end is None })
    &&& a.src_port == fp && a.dst_port == tp && a.properties is None
    &&& a.text@ == or(prop(m, "label"@), ""@)
    &&& (if prop(m, "style"@) == Some("dashed"@) { a.line_style is Dashed } else { a.line_style is Normal })
    &&& colored(outline(m), a.look.line_color)
    &&& a.look.line_width == number_or(prop(m, "penwidth"@), 1)
    &&& a.look.font_size == number_or(prop(m, "fontsize"@), 14)
    &&& a.look.fill_color is None && a.look.rounded == 0
}
@end
@type PropertyList
@struct EdgeDesc
@struct GraphBuilder
@fn GraphBuilder::normalize_color text
ret r
ensures r@ == normal(color@),
@start
let ghost c0 = color@;
proof { lemma_index_of(c0, ':'); assert(c0.take(0).len() == 0); assert(off(c0, 0, 0)); if index_of(c0, ':') >= 0 { assert(c0.subrange(0, index_of(c0, ':')) =~= c0.take(index_of(c0, ':'))); } }
@fn GraphBuilder::get_arrow_from_attributes text
ret r
ensures edge_drawn(lst@, has_arrow, from_port, to_port, r),
@fn GraphBuilder::get_shape_from_attributes text
ret r
ensures node_drawn(dir, lst@, default_name@, r),
