@module visit
@use base text dag types geom orient sizes
@file std_shapes/render.rs
@code
broadcast use ax_fr;
// ---- where the fields of a record are ----
// the boxes (center, size) and the texts, outermost first
pub enum Ev { Box((real, real), (real, real)), Text((real, real), (real, real), Seq<char>, Option<String>) }
// every level has at least one field
pub open spec fn filled(r: RecordDef) -> bool decreases r {
    match r { RecordDef::Text(_, _) => true, RecordDef::Array(a) => a@.len() > 0 && forall|i: int| 0 <= i < a@.len() ==> filled(#[trigger] a@[i]) }
}
pub open spec fn share(total: real, part: real, sum: real) -> real { total * part / sum }
// from where to where the first k fields of a level reach, along the axis of the level: a part of the box in proportion to the room they need
pub open spec fn reach(a: Vec<RecordDef>, k: int, dir: Orientation, size: (real, real), font: usize) -> real {
    if dir is LeftToRight { share(size.0, rec_sizes(a, k, dir, font).0, rec_sizes(a, a@.len() as int, dir, font).0) }
    else { share(size.1, rec_sizes(a, k, dir, font).1, rec_sizes(a, a@.len() as int, dir, font).1) }
}
// the box of field k of a level: it begins where field k - 1 ends and is as thick as the level
pub open spec fn field_size(a: Vec<RecordDef>, k: int, dir: Orientation, size: (real, real), font: usize) -> (real, real) {
    let w = reach(a, k + 1, dir, size, font) - reach(a, k, dir, size, font);
    if dir is LeftToRight { (w, size.1) } else { (size.0, w) }
}
pub open spec fn field_loc(a: Vec<RecordDef>, k: int, dir: Orientation, loc: (real, real), size: (real, real), font: usize) -> (real, real) {
    let m = (reach(a, k, dir, size, font) + reach(a, k + 1, dir, size, font)) / 2real;
    if dir is LeftToRight { (loc.0 - size.0 / 2real + m, loc.1) } else { (loc.0, loc.1 - size.1 / 2real + m) }
}
pub open spec fn events(r: RecordDef, dir: Orientation, loc: (real, real), size: (real, real), font: usize) -> Seq<Ev> decreases r, 0int {
    match r {
        RecordDef::Text(s, p) => seq![Ev::Box(loc, size), Ev::Text(loc, size, s@, p)],
        RecordDef::Array(a) => seq![Ev::Box(loc, size)] + level_events(a, a@.len() as int, dir, loc, size, font),
    }
}
pub open spec fn level_events(a: Vec<RecordDef>, k: int, dir: Orientation, loc: (real, real), size: (real, real), font: usize) -> Seq<Ev> decreases a, k + 1 {
    if k <= 0 || k > a@.len() { seq![] }
    else { level_events(a, k - 1, dir, loc, size, font) + events(a@[k - 1], other(dir), field_loc(a, k - 1, dir, loc, size, font), field_size(a, k - 1, dir, size, font), font) }
}

// ---- what this means ----
pub open spec fn sane(r: RecordDef, dir: Orientation, font: usize) -> bool { rec_size(r, dir, font).0 > 0real && rec_size(r, dir, font).1 > 0real }
pub proof fn lemma_positive(r: RecordDef, dir: Orientation, font: usize)
    requires filled(r),
    ensures sane(r, dir, font)
    decreases r, 0int
{
    match r {
        RecordDef::Text(s, _) => { lemma_text(s@, font); }
        RecordDef::Array(a) => { assert(decreases_to!(r => a)); lemma_positives(a, a@.len() as int, dir, font); }
    }
}
pub proof fn lemma_text(s: Seq<char>, font: usize) ensures text_size(s, font).0 >= 0real, text_size(s, font).1 >= 0real
{ let w = text_w(s) as real; let h = text_h(s) as real; let f = font as real; assert(w * f >= 0real) by(nonlinear_arith) requires w >= 0real, f >= 0real; assert(h * f >= 0real) by(nonlinear_arith) requires h >= 0real, f >= 0real; }
pub proof fn lemma_positives(a: Vec<RecordDef>, k: int, dir: Orientation, font: usize)
    requires 0 <= k <= a@.len(), forall|i: int| 0 <= i < a@.len() ==> filled(#[trigger] a@[i]),
    ensures k > 0 ==> rec_sizes(a, k, dir, font).0 > 0real && rec_sizes(a, k, dir, font).1 > 0real, rec_sizes(a, 0, dir, font) == (0real, 0real),
        forall|i: int| 0 <= i < k ==> rec_size(#[trigger] a@[i], other(dir), font).0 > 0real && rec_size(a@[i], other(dir), font).1 > 0real,
        dir is LeftToRight ==> forall|i: int| 0 <= i < k ==> rec_size(#[trigger] a@[i], other(dir), font).1 <= rec_sizes(a, k, dir, font).1,
        !(dir is LeftToRight) ==> forall|i: int| 0 <= i < k ==> rec_size(#[trigger] a@[i], other(dir), font).0 <= rec_sizes(a, k, dir, font).0,
    decreases a, k + 1
{
    if k > 0 {
        lemma_positives(a, k - 1, dir, font);
        assert(decreases_to!(a => a@[k - 1]));
        lemma_positive(a@[k - 1], other(dir), font);
    }
}
// the space between two shares is the share of the difference
pub proof fn lemma_share(t: real, p: real, q: real, s: real) requires s > 0real ensures share(t, p + q, s) == share(t, p, s) + share(t, q, s), share(t, 0real, s) == 0real, share(t, s, s) == t
{
    assert((t * (p + q)) / s == (t * p) / s + (t * q) / s) by(nonlinear_arith) requires s > 0real;
    assert((t * 0real) / s == 0real) by(nonlinear_arith) requires s > 0real;
    assert((t * s) / s == t) by(nonlinear_arith) requires s > 0real;
}
// a share is at least the part when the whole is at least the sum
pub proof fn lemma_enough(t: real, p: real, s: real) requires s > 0real, t >= s, p >= 0real ensures share(t, p, s) >= p
{ assert((t * p) / s >= p) by(nonlinear_arith) requires s > 0real, t >= s, p >= 0real; }
pub proof fn lemma_field(a: Vec<RecordDef>, k: int, dir: Orientation, size: (real, real), font: usize)
    requires 0 <= k < a@.len(), forall|i: int| 0 <= i < a@.len() ==> filled(#[trigger] a@[i]),
    ensures ({ let n = a@.len() as int; let s = rec_sizes(a, n, dir, font); let c = rec_size(a@[k], other(dir), font);
        if dir is LeftToRight { s.0 > 0real && field_size(a, k, dir, size, font) == (share(size.0, c.0, s.0), size.1) } else { s.1 > 0real && field_size(a, k, dir, size, font) == (size.0, share(size.1, c.1, s.1)) } }),
        // the fields fill the level
        reach(a, 0, dir, size, font) == 0real, reach(a, a@.len() as int, dir, size, font) == (if dir is LeftToRight { size.0 } else { size.1 }),
        // in order
        (if dir is LeftToRight { size.0 } else { size.1 }) >= 0real ==> reach(a, k, dir, size, font) <= reach(a, k + 1, dir, size, font),
{
    let n = a@.len() as int; lemma_positives(a, n, dir, font); lemma_positives(a, k, dir, font); lemma_positives(a, k + 1, dir, font);
    let s = rec_sizes(a, n, dir, font); let p = rec_sizes(a, k, dir, font); let c = rec_size(a@[k], other(dir), font);
    if dir is LeftToRight { lemma_share(size.0, p.0, c.0, s.0); let t = size.0; let q = c.0; let z = s.0; if t >= 0real { assert((t * q) / z >= 0real) by(nonlinear_arith) requires t >= 0real, q > 0real, z > 0real; } }
    else { lemma_share(size.1, p.1, c.1, s.1); let t = size.1; let q = c.1; let z = s.1; if t >= 0real { assert((t * q) / z >= 0real) by(nonlinear_arith) requires t >= 0real, q > 0real, z > 0real; } }
}
pub open spec fn sz(e: Ev) -> (real, real) { match e { Ev::Box(_, s) => s, Ev::Text(_, s, _, _) => s } }
pub open spec fn lc(e: Ev) -> (real, real) { match e { Ev::Box(l, _) => l, Ev::Text(l, _, _, _) => l } }
pub open spec fn in_box(e: Ev, loc: (real, real), size: (real, real)) -> bool {
    &&& sz(e).0 >= 0real && sz(e).1 >= 0real
    &&& loc.0 - size.0 / 2real <= lc(e).0 - sz(e).0 / 2real && lc(e).0 + sz(e).0 / 2real <= loc.0 + size.0 / 2real
    &&& loc.1 - size.1 / 2real <= lc(e).1 - sz(e).1 / 2real && lc(e).1 + sz(e).1 / 2real <= loc.1 + size.1 / 2real
}
// every field and text is inside the box of the record
pub proof fn lemma_inside(r: RecordDef, dir: Orientation, loc: (real, real), size: (real, real), font: usize)
    requires filled(r), size.0 >= 0real, size.1 >= 0real,
    ensures forall|i: int| 0 <= i < events(r, dir, loc, size, font).len() ==> in_box(#[trigger] events(r, dir, loc, size, font)[i], loc, size)
    decreases r, 0int
{ match r { RecordDef::Text(_, _) => {} RecordDef::Array(a) => { assert(decreases_to!(r => a)); lemma_insides(a, a@.len() as int, dir, loc, size, font); let n = events(r, dir, loc, size, font); let p = level_events(a, a@.len() as int, dir, loc, size, font); assert forall|i: int| 0 <= i < n.len() implies in_box(#[trigger] n[i], loc, size) by { if i > 0 { assert(n[i] == p[i - 1]); } } } } }
pub proof fn lemma_insides(a: Vec<RecordDef>, k: int, dir: Orientation, loc: (real, real), size: (real, real), font: usize)
    requires 0 <= k <= a@.len(), forall|i: int| 0 <= i < a@.len() ==> filled(#[trigger] a@[i]), size.0 >= 0real, size.1 >= 0real,
    ensures forall|i: int| 0 <= i < level_events(a, k, dir, loc, size, font).len() ==> in_box(#[trigger] level_events(a, k, dir, loc, size, font)[i], loc, size)
    decreases a, k + 1
{
    if k > 0 {
        lemma_insides(a, k - 1, dir, loc, size, font);
        assert(decreases_to!(a => a@[k - 1]));
        lemma_field(a, k - 1, dir, size, font); lemma_reach(a, k - 1, dir, size, font); lemma_reach(a, k, dir, size, font);
        let l2 = field_loc(a, k - 1, dir, loc, size, font); let s2 = field_size(a, k - 1, dir, size, font);
        lemma_inside(a@[k - 1], other(dir), l2, s2, font);
        let e = events(a@[k - 1], other(dir), l2, s2, font); let p = level_events(a, k - 1, dir, loc, size, font); let n = level_events(a, k, dir, loc, size, font);
        assert(in_box(Ev::Box(l2, s2), loc, size));
        assert forall|i: int| 0 <= i < n.len() implies in_box(#[trigger] n[i], loc, size) by { if i >= p.len() { assert(n[i] == e[i - p.len()]); } else { assert(n[i] == p[i]); } }
    }
}
// the first k fields stay within the level
pub proof fn lemma_reach(a: Vec<RecordDef>, k: int, dir: Orientation, size: (real, real), font: usize)
    requires 0 <= k <= a@.len(), a@.len() > 0, forall|i: int| 0 <= i < a@.len() ==> filled(#[trigger] a@[i]), size.0 >= 0real, size.1 >= 0real,
    ensures 0real <= reach(a, k, dir, size, font) <= (if dir is LeftToRight { size.0 } else { size.1 })
    decreases a@.len() - k
{
    if k == a@.len() { lemma_field(a, 0, dir, size, font); }
    else { lemma_field(a, k, dir, size, font); lemma_reach(a, k + 1, dir, size, font); lemma_reach_up(a, k, dir, size, font); }
}
pub proof fn lemma_reach_up(a: Vec<RecordDef>, k: int, dir: Orientation, size: (real, real), font: usize)
    requires 0 <= k < a@.len(), forall|i: int| 0 <= i < a@.len() ==> filled(#[trigger] a@[i]), size.0 >= 0real, size.1 >= 0real,
    ensures 0real <= reach(a, k, dir, size, font)
    decreases k
{ lemma_field(a, k, dir, size, font); if k > 0 { lemma_reach_up(a, k - 1, dir, size, font); lemma_field(a, k - 1, dir, size, font); } }
// when the box has the computed size, every text has enough room
pub proof fn lemma_room(r: RecordDef, dir: Orientation, loc: (real, real), size: (real, real), font: usize)
    requires filled(r), size.0 >= rec_size(r, dir, font).0, size.1 >= rec_size(r, dir, font).1,
    ensures forall|i: int| 0 <= i < events(r, dir, loc, size, font).len() ==> roomy(#[trigger] events(r, dir, loc, size, font)[i], font)
    decreases r, 0int
{ match r { RecordDef::Text(_, _) => {} RecordDef::Array(a) => { assert(decreases_to!(r => a)); lemma_rooms(a, a@.len() as int, dir, loc, size, font); let n = events(r, dir, loc, size, font); let p = level_events(a, a@.len() as int, dir, loc, size, font); assert forall|i: int| 0 <= i < n.len() implies roomy(#[trigger] n[i], font) by { if i > 0 { assert(n[i] == p[i - 1]); } } } } }
pub open spec fn roomy(e: Ev, font: usize) -> bool { match e { Ev::Text(_, s, t, _) => s.0 >= text_size(t, font).0 + vx_v_BOX_SHAPE_PADDING() && s.1 >= text_size(t, font).1 + vx_v_BOX_SHAPE_PADDING(), _ => true } }
pub proof fn lemma_rooms(a: Vec<RecordDef>, k: int, dir: Orientation, loc: (real, real), size: (real, real), font: usize)
    requires 0 <= k <= a@.len(), forall|i: int| 0 <= i < a@.len() ==> filled(#[trigger] a@[i]), size.0 >= rec_sizes(a, a@.len() as int, dir, font).0, size.1 >= rec_sizes(a, a@.len() as int, dir, font).1,
    ensures forall|i: int| 0 <= i < level_events(a, k, dir, loc, size, font).len() ==> roomy(#[trigger] level_events(a, k, dir, loc, size, font)[i], font)
    decreases a, k + 1
{
    if k > 0 {
        lemma_rooms(a, k - 1, dir, loc, size, font);
        assert(decreases_to!(a => a@[k - 1]));
        lemma_field(a, k - 1, dir, size, font); lemma_positives(a, a@.len() as int, dir, font);
        let c = rec_size(a@[k - 1], other(dir), font); let s = rec_sizes(a, a@.len() as int, dir, font);
        if dir is LeftToRight { lemma_enough(size.0, c.0, s.0); } else { lemma_enough(size.1, c.1, s.1); }
        let l2 = field_loc(a, k - 1, dir, loc, size, font); let s2 = field_size(a, k - 1, dir, size, font);
        lemma_room(a@[k - 1], other(dir), l2, s2, font);
        let e = events(a@[k - 1], other(dir), l2, s2, font); let p = level_events(a, k - 1, dir, loc, size, font); let n = level_events(a, k, dir, loc, size, font);
        assert forall|i: int| 0 <= i < n.len() implies roomy(#[trigger] n[i], font) by { if i >= p.len() { assert(n[i] == e[i - p.len()]); } else { assert(n[i] == p[i]); } }
    }
}

// ---- visitors: what the calls do to the state of one ----
pub trait RecordVisitor: Sized {
    type St;
    #[verifier::prophetic] spec fn st(&self) -> Self::St;
    spec fn step(s: Self::St, e: Ev) -> Self::St;
    fn handle_box(&mut self, loc: Point, size: Point) ensures final(self).st() == Self::step(old(self).st(), Ev::Box(xy(loc), xy(size)));
    fn handle_text(&mut self, loc: Point, size: Point, label: &str, port: &Option<String>) ensures final(self).st() == Self::step(old(self).st(), Ev::Text(xy(loc), xy(size), label@, *port));
}
pub open spec fn run<V: RecordVisitor>(s: V::St, e: Seq<Ev>) -> V::St decreases e.len() { if e.len() == 0 { s } else { V::step(run::<V>(s, e.drop_last()), e.last()) } }
pub proof fn lemma_run<V: RecordVisitor>(s: V::St, a: Seq<Ev>, b: Seq<Ev>) ensures run::<V>(s, a + b) == run::<V>(run::<V>(s, a), b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_run::<V>(s, a, b.drop_last()); } }
pub proof fn lemma_run1<V: RecordVisitor>(s: V::St, e: Ev) ensures run::<V>(s, seq![e]) == V::step(s, e)
{ assert(seq![e].drop_last() =~= seq![]); assert(run::<V>(s, seq![e].drop_last()) == s); }
@end
@fn visit_record float
ensures filled(*rec) ==> final(visitor).st() == run::<VxD>(old(visitor).st(), events(*rec, dir, xy(loc), xy(size), look.font_size)),
decreases *rec,
@start
let ghost st0 = visitor.st(); let ghost evs = events(*rec, dir, xy(loc), xy(size), look.font_size);
let ghost first = Ev::Box(xy(loc), xy(size));
@after "visitor.handle_box(loc, size);" ?
proof {
    lemma_run1::<VxD>(st0, first);
    if rec is Text { assert(evs =~= seq![first] + seq![Ev::Text(xy(loc), xy(size), rec->Text_0@, rec->Text_1)]); lemma_run::<VxD>(st0, seq![first], seq![Ev::Text(xy(loc), xy(size), rec->Text_0@, rec->Text_1)]); lemma_run1::<VxD>(run::<VxD>(st0, seq![first]), Ev::Text(xy(loc), xy(size), rec->Text_0@, rec->Text_1)); }
}
@loop 1
invariant vx_s1 == arr, *rec == RecordDef::Array(*arr), sizes.len() == vx_i1, dir is LeftToRight ==> rv(sum.x) == rec_sizes(*arr, vx_i1 as int, dir, look.font_size).0, !(dir is LeftToRight) ==> rv(sum.y) == rec_sizes(*arr, vx_i1 as int, dir, look.font_size).1,
    forall|i: int| 0 <= i < vx_i1 ==> xy(#[trigger] sizes@[i]) == rec_size(arr@[i], other(dir), look.font_size),
@loopstart 1
proof { assert(arr@[vx_i1 - 1] == *elem); }
@after "mx = Point::new(mx.x.max(sz.x), mx.y.max(sz.y)); }"
let ghost sz0 = sizes@;
@loop 2
invariant vx_s2@.len() == arr@.len(), sz0.len() == arr@.len(), *rec == RecordDef::Array(*arr),
    forall|i: int| vx_i2 <= i < arr@.len() ==> vx_s2@[i] == sz0[i],
    (if dir is LeftToRight { rv(sum.x) } else { rv(sum.y) }) != 0real ==> forall|i: int| 0 <= i < vx_i2 ==> xy(#[trigger] vx_s2@[i]) == (if dir is LeftToRight { (rv(size.x) * rv(sz0[i].x) / rv(sum.x), rv(size.y)) } else { (rv(size.x), rv(size.y) * rv(sz0[i].y) / rv(sum.y)) }),
@loopafter 2
proof {
    assert(sizes@.len() == arr@.len());
    if filled(*rec) { assert forall|i: int| 0 <= i < arr@.len() implies xy(#[trigger] sizes@[i]) == field_size(*arr, i, dir, xy(size), look.font_size) by { lemma_field(*arr, i, dir, xy(size), look.font_size); assert(xy(sz0[i]) == rec_size(arr@[i], other(dir), look.font_size)); } }
}
@loop 3
invariant vx_e3 == sizes@.len(), *rec == RecordDef::Array(*arr), sizes@.len() == arr@.len(), dir is LeftToRight, filled(*rec) ==> forall|i: int| 0 <= i < arr@.len() ==> xy(#[trigger] sizes@[i]) == field_size(*arr, i, dir, xy(size), look.font_size),
    filled(*rec) ==> rv(startx) == rv(loc.x) - rv(size.x) / 2real + reach(*arr, vx_i3 as int, dir, xy(size), look.font_size),
    filled(*rec) ==> visitor.st() == run::<VxD>(st0, seq![first] + level_events(*arr, vx_i3 as int, dir, xy(loc), xy(size), look.font_size)),
@loopbefore 3
proof { if filled(*rec) { lemma_field(*arr, 0, dir, xy(size), look.font_size); assert(seq![first] + level_events(*arr, 0, dir, xy(loc), xy(size), look.font_size) =~= seq![first]); } }
@loopstart 3
proof { assert(decreases_to!(*rec => rec->Array_0)); assert(decreases_to!(*arr => arr@[vx_i3 - 1]));
    if filled(*rec) { assert(filled(arr@[vx_i3 - 1])); assert(xy(sizes@[vx_i3 - 1]) == field_size(*arr, vx_i3 - 1, dir, xy(size), look.font_size)); } }
let ghost before = visitor.st();
@loopend 3
proof { if filled(*rec) {
    let e = events(arr@[vx_i3 - 1], other(dir), field_loc(*arr, vx_i3 - 1, dir, xy(loc), xy(size), look.font_size), field_size(*arr, vx_i3 - 1, dir, xy(size), look.font_size), look.font_size);
    let p = level_events(*arr, vx_i3 - 1, dir, xy(loc), xy(size), look.font_size);
    lemma_run::<VxD>(st0, seq![first] + p, e); assert((seq![first] + p) + e =~= seq![first] + level_events(*arr, vx_i3 as int, dir, xy(loc), xy(size), look.font_size));
} }
@loop 4
invariant vx_e4 == sizes@.len(), *rec == RecordDef::Array(*arr), sizes@.len() == arr@.len(), !(dir is LeftToRight), filled(*rec) ==> forall|i: int| 0 <= i < arr@.len() ==> xy(#[trigger] sizes@[i]) == field_size(*arr, i, dir, xy(size), look.font_size),
    filled(*rec) ==> rv(starty) == rv(loc.y) - rv(size.y) / 2real + reach(*arr, vx_i4 as int, dir, xy(size), look.font_size),
    filled(*rec) ==> visitor.st() == run::<VxD>(st0, seq![first] + level_events(*arr, vx_i4 as int, dir, xy(loc), xy(size), look.font_size)),
@loopbefore 4
proof { if filled(*rec) { lemma_field(*arr, 0, dir, xy(size), look.font_size); assert(seq![first] + level_events(*arr, 0, dir, xy(loc), xy(size), look.font_size) =~= seq![first]); } }
@loopstart 4
proof { assert(decreases_to!(*rec => rec->Array_0)); assert(decreases_to!(*arr => arr@[vx_i4 - 1]));
    if filled(*rec) { assert(filled(arr@[vx_i4 - 1])); assert(xy(sizes@[vx_i4 - 1]) == field_size(*arr, vx_i4 - 1, dir, xy(size), look.font_size)); } }
let ghost before = visitor.st();
@loopend 4
proof { if filled(*rec) {
    let e = events(arr@[vx_i4 - 1], other(dir), field_loc(*arr, vx_i4 - 1, dir, xy(loc), xy(size), look.font_size), field_size(*arr, vx_i4 - 1, dir, xy(size), look.font_size), look.font_size);
    let p = level_events(*arr, vx_i4 - 1, dir, xy(loc), xy(size), look.font_size);
    lemma_run::<VxD>(st0, seq![first] + p, e); assert((seq![first] + p) + e =~= seq![first] + level_events(*arr, vx_i4 as int, dir, xy(loc), xy(size), look.font_size));
} }
@end_fn
