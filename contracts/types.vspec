@module types
@use base dag
@file core/base.rs
@enum Orientation derive=Clone,Copy
@file core/color.rs
@struct Color derive=Clone,Copy
@file core/geometry.rs
@struct Point derive=Clone,Copy
@struct Position derive=Clone,Copy
@file core/style.rs
@enum LineStyleKind derive=Clone,Copy
@struct StyleAttr cloneeq
@file std_shapes/shapes.rs
@const PADDING
@const CONN_PADDING
@enum LineEndKind derive=Clone,Copy
@enum RecordDef cloneeq
@enum ShapeKind cloneeq
@struct Element cloneeq
@struct Arrow cloneeq
@file topo/layout.rs
@struct VisualGraph
@code
// an edge: its arrow and the elements it visits
pub type E = (Arrow, Seq<NodeHandle>);
pub open spec fn ev(v: Seq<(Arrow, Vec<NodeHandle>)>) -> Seq<E> { Seq::new(v.len(), |i: int| (v[i].0, v[i].1@)) }
pub open spec fn rev(a: Arrow) -> Arrow { Arrow { start: a.end, end: a.start, src_port: a.dst_port, dst_port: a.src_port, ..a } }
@end
@file std_shapes/shapes.rs
@fn Arrow::reverse
ret r
ensures r == rev(*self),
