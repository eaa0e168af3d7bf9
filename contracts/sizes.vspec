@module sizes
@use base text dag types geom orient
@code
broadcast use ax_fr;
// the room a text needs at some font size: as many characters as its longest line has and as many lines, at least one of each
pub open spec fn longest(l: Seq<Seq<char>>) -> nat decreases l.len() { if l.len() == 0 { 0 } else { let m = longest(l.drop_last()); if l.last().len() >= m { l.last().len() } else { m } } }
#[verifier::opaque]
pub open spec fn text_w(s: Seq<char>) -> nat { let m = longest(lines_of(s)); if m >= 1 { m } else { 1 } }
#[verifier::opaque]
pub open spec fn text_h(s: Seq<char>) -> nat { let n = lines_of(s).len(); if n >= 1 { n } else { 1 } }
pub open spec fn text_size(s: Seq<char>, font: usize) -> (real, real) { (text_w(s) as real * font as real, text_h(s) as real * font as real) }
pub open spec fn grown(p: (real, real), d: real) -> (real, real) { (p.0 + d, p.1 + d) }
// the room a record needs: the fields of a level lie side by side
pub open spec fn rec_size(r: RecordDef, dir: Orientation, font: usize) -> (real, real) decreases r, 0int {
    match r {
        RecordDef::Text(s, _) => grown(text_size(s@, font), vx_v_BOX_SHAPE_PADDING()),
        RecordDef::Array(a) => rec_sizes(a, a@.len() as int, dir, font),
    }
}
pub open spec fn rec_sizes(a: Vec<RecordDef>, k: int, dir: Orientation, font: usize) -> (real, real) decreases a, k + 1 {
    if k <= 0 || k > a@.len() { (0real, 0real) } else {
        let p = rec_sizes(a, k - 1, dir, font); let q = rec_size(a@[k - 1], other(dir), font);
        if dir is LeftToRight { (p.0 + q.0, rmax(p.1, q.1)) } else { (rmax(p.0, q.0), p.1 + q.1) }
    }
}
pub open spec fn shape_size(dir: Orientation, s: ShapeKind, font: usize) -> (real, real) {
    match s {
        ShapeKind::Box(t) => grown(text_size(t@, font), vx_v_BOX_SHAPE_PADDING()),
        ShapeKind::Circle(t) => grown(text_size(t@, font), vx_v_CIRCLE_SHAPE_PADDING()),
        ShapeKind::DoubleCircle(t) => grown(text_size(t@, font), vx_v_CIRCLE_SHAPE_PADDING()),
        ShapeKind::Record(r) => grown(rec_size(r, dir, font), vx_v_BOX_SHAPE_PADDING()),
        ShapeKind::Connector(Some(t)) => grown(text_size(t@, font), vx_v_BOX_SHAPE_PADDING()),
        _ => (1real, 1real),
    }
}
pub proof fn lemma_some_line(s: Seq<char>) requires s.len() > 0 ensures lines_of(s).len() > 0 { }
pub proof fn lemma_text_room(s: Seq<char>, font: usize) ensures text_size(s, font).0 >= 0real, text_size(s, font).1 >= 0real
{ assert(text_w(s) as real * font as real >= 0real) by(nonlinear_arith); assert(text_h(s) as real * font as real >= 0real) by(nonlinear_arith); }
@end
@file core/geometry.rs
@fn make_size_square float
ret r
ensures rv(r.x) == rmax(rv(sz.x), rv(sz.y)), rv(r.y) == rv(r.x),
@fn pad_shape_scalar float
ret r
ensures xy(r) == grown(xy(size), rv(s)),
@fn get_size_for_str float text
ret r
ensures xy(r) == text_size(label@, font_size),
@start
proof { reveal(text_w); reveal(text_h); if label@.len() > 0 { lemma_some_line(label@); } }
@loop 1 kind=iter
invariant vx_seen + vx_it1.rest() == lines_of(label@), vx_seen.len() == 0 ==> vx_m is None, vx_seen.len() > 0 ==> vx_m == Some(longest(vx_seen) as usize), longest(vx_seen) <= usize::MAX,
ensures lines_of(label@).len() > 0 ==> vx_m == Some(longest(lines_of(label@)) as usize), longest(lines_of(label@)) <= usize::MAX,
decreases vx_it1.left(),
@loopbefore 1
let ghost mut vx_seen = Seq::<Seq<char>>::empty();
@loopstart 1
let ghost vx_s0 = vx_seen;
@loopend 1
proof { vx_seen = vx_s0.push(x@); assert(vx_seen.drop_last() =~= vx_s0); assert(vx_seen + vx_it1.rest() =~= lines_of(label@)); }
@file std_shapes/render.rs
@const BOX_SHAPE_PADDING
@const CIRCLE_SHAPE_PADDING
@fn get_record_size float
ret r
ensures xy(r) == rec_size(*rec, dir, font_size),
decreases *rec,
@loop 1
invariant vx_s1 == arr, *rec == RecordDef::Array(*arr), (rv(x), rv(y)) == rec_sizes(*arr, vx_i1 as int, dir, font_size),
@loopstart 1
proof { assert(rec->Array_0 == *arr); assert(decreases_to!(*rec => rec->Array_0)); assert(decreases_to!(*arr => arr@[vx_i1 - 1])); assert(arr@[vx_i1 - 1] == *elem); }
@fn get_shape_size float
ret r
ensures !make_xy_same ==> xy(r) == shape_size(dir, *s, font), make_xy_same ==> rv(r.x) == rmax(shape_size(dir, *s, font).0, shape_size(dir, *s, font).1) && rv(r.y) == rv(r.x),
