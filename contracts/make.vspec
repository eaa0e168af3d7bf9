@module make
@use base text dag types geom color style shapes
@file std_shapes/shapes.rs
@code
// what a value becomes when it is turned into a text
pub open spec fn turned_into<T: Into<String>>(x: T, s: String) -> bool { call_ensures(<T as Into<String>>::into, (x,), s) }
// an element that has not been placed: its size around the origin, with some space around it
pub open spec fn made(e: Element, shape: ShapeKind, look: StyleAttr, o: Orientation, size: Point) -> bool {
    &&& e.shape == shape && e.look == look && e.orientation == o && e.pos.size == size
    &&& xy(e.pos.middle) == (0real, 0real) && xy(e.pos.center) == (0real, 0real) && rv(e.pos.halo.x) >= 0real && rv(e.pos.halo.y) >= 0real
}
// the edge that these values make
pub open spec fn arrow_of(a: Arrow, s: LineEndKind, e: LineEndKind, l: LineStyleKind, t: Seq<char>, look: StyleAttr, sp: Option<String>, dp: Option<String>) -> bool {
    a.start == s && a.end == e && a.line_style == l && a.text@ == t && a.look == look && a.src_port == sp && a.dst_port == dp
}
pub open spec fn plain(a: Arrow) -> bool { a.look.line_width == 2 && a.look.font_size == 15 && a.src_port is None && a.dst_port is None }
@end
@fn RecordDef::new_text
ret r
ensures r matches RecordDef::Text(t, p) && t@ == s@ && p is None,
@fn RecordDef::new_text_with_port
ret r
ensures r matches RecordDef::Text(t, q) && t@ == s@ && (q matches Some(w) && w@ == p@),
@fn ShapeKind::new_box
ret r
ensures r matches ShapeKind::Box(t) && t@ == s@,
@fn ShapeKind::new_circle
ret r
ensures r matches ShapeKind::Circle(t) && t@ == s@,
@fn ShapeKind::new_double_circle
ret r
ensures r matches ShapeKind::DoubleCircle(t) && t@ == s@,
@fn ShapeKind::new_record vxclone
ret o
ensures o == ShapeKind::Record(*r),
@fn Element::create
ret r
ensures made(r, shape, look, orientation, size), r.properties is None,
@fn Element::create_with_properties
ret r
ensures made(r, shape, look, orientation, size), r.properties matches Some(s) && turned_into(properties, s),
@fn Element::move_to
ensures cx(final(self).pos) == rv(to.x), cy(final(self).pos) == rv(to.y), *final(self) == (Element { pos: final(self).pos, ..*old(self) }), final(self).pos == (Position { middle: final(self).pos.middle, ..old(self).pos }),
@fn Arrow::new vxclone
ret r
ensures arrow_of(r, start, end, line_style, text@, *look, *src_port, *dst_port), r.properties is None,
@fn Arrow::with_properties vxclone
ret r
ensures arrow_of(r, start, end, line_style, text@, *look, *src_port, *dst_port), r.properties matches Some(s) && turned_into(properties, s),
@fn Arrow::simple
ret r
ensures r.start is None, r.end is Arrow, r.line_style is Normal, r.text@ == text@, plain(r), r.properties is None,
@fn Arrow::simple_with_properties
ret r
ensures r.start is None, r.end is Arrow, r.line_style is Normal, r.text@ == text@, plain(r), r.properties matches Some(s) && turned_into(properties, s),
@fn Arrow::invisible text
ret r
ensures r.start is None, r.end is None, r.line_style is None, r.text@ == ""@, plain(r), r.properties is None,
