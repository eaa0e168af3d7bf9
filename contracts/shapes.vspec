@module shapes
@use base text dag types geom color style
@file std_shapes/shapes.rs
@code
// the label of a connector
pub open spec fn conn(e: Element) -> bool { e.shape is Connector }
pub open spec fn ltext(e: Element) -> Seq<char> { match e.shape { ShapeKind::Connector(Some(s)) => s@, _ => Seq::empty() } }
// an empty label is no label, and a connector has some space around it
pub open spec fn tidy(e: Element) -> bool { match e.shape { ShapeKind::Connector(l) => (match l { Some(s) => s@.len() > 0, None => true }) && rv(e.pos.halo.x) >= 0real && rv(e.pos.halo.y) >= 0real, _ => true } }
@end
@fn ShapeKind::new_connector
ret r
ensures r is Connector, match r { ShapeKind::Connector(Some(t)) => t@ == s@ && s@.len() > 0, ShapeKind::Connector(None) => s@.len() == 0, _ => false },
@fn Element::create_connector
ret r
ensures conn(r), ltext(r) =~= label@, tidy(r), r.look == *look, r.orientation == dir,
@fn Element::empty_connector
ret r
ensures conn(r), ltext(r).len() == 0, tidy(r), r.orientation == dir,
@start
proof { reveal_strlit(""); }
