@module path
@use base text dag types geom orient sizes style visit outline elem
@file std_shapes/render.rs
@struct Locator
@code
broadcast use ax_fr;
// ---- the field with a port ----
pub open spec fn found(e: Seq<Ev>, port: Seq<char>, d: ((real, real), (real, real))) -> ((real, real), (real, real)) decreases e.len() {
    if e.len() == 0 { d } else { match e.last() { Ev::Text(l, s, _, p) => if p matches Some(q) && q@ == port { (l, s) } else { found(e.drop_last(), port, d) }, _ => found(e.drop_last(), port, d) } }
}
impl RecordVisitor for Locator {
    type St = (Seq<char>, ((real, real), (real, real)));
    #[verifier::prophetic] open spec fn st(&self) -> Self::St { (self.port_name@, (xy(self.loc), xy(self.size))) }
    open spec fn step(s: Self::St, e: Ev) -> Self::St { (s.0, match e { Ev::Text(l, z, _, p) => if p matches Some(q) && q@ == s.0 { (l, z) } else { s.1 }, _ => s.1 }) }
    fn handle_box(&mut self, loc: Point, size: Point) { Locator::handle_box(self, loc, size) }
    fn handle_text(&mut self, loc: Point, size: Point, label: &str, port: &Option<String>) { Locator::handle_text(self, loc, size, label, port) }
}
pub proof fn lemma_found(s: (Seq<char>, ((real, real), (real, real))), e: Seq<Ev>) ensures run::<Locator>(s, e) == (s.0, found(e, s.0, s.1)) decreases e.len()
{ if e.len() > 0 { lemma_found(s, e.drop_last()); } }
// fields of positive size
pub proof fn lemma_found_big(e: Seq<Ev>, port: Seq<char>, d: ((real, real), (real, real)))
    requires forall|i: int| 0 <= i < e.len() ==> big(sz(#[trigger] e[i])), big(d.1),
    ensures big(found(e, port, d).1)
    decreases e.len()
{ if e.len() > 0 { assert(big(sz(e[e.len() - 1]))); assert forall|i: int| 0 <= i < e.len() - 1 implies big(sz(#[trigger] e.drop_last()[i])) by { assert(e.drop_last()[i] == e[i]); } lemma_found_big(e.drop_last(), port, d); } }
pub proof fn lemma_big(r: RecordDef, dir: Orientation, loc: (real, real), size: (real, real), font: usize)
    requires filled(r), big(size),
    ensures forall|i: int| 0 <= i < events(r, dir, loc, size, font).len() ==> big(sz(#[trigger] events(r, dir, loc, size, font)[i]))
    decreases r, 0int
{
    match r { RecordDef::Text(_, _) => {} RecordDef::Array(a) => { assert(decreases_to!(r => a)); lemma_bigs(a, a@.len() as int, dir, loc, size, font);
        let n = events(r, dir, loc, size, font); let p = level_events(a, a@.len() as int, dir, loc, size, font);
        assert forall|i: int| 0 <= i < n.len() implies big(sz(#[trigger] n[i])) by { if i > 0 { assert(n[i] == p[i - 1]); } } } }
}
pub proof fn lemma_bigs(a: Vec<RecordDef>, k: int, dir: Orientation, loc: (real, real), size: (real, real), font: usize)
    requires 0 <= k <= a@.len(), forall|i: int| 0 <= i < a@.len() ==> filled(#[trigger] a@[i]), big(size),
    ensures forall|i: int| 0 <= i < level_events(a, k, dir, loc, size, font).len() ==> big(sz(#[trigger] level_events(a, k, dir, loc, size, font)[i]))
    decreases a, k + 1
{
    if k > 0 {
        lemma_bigs(a, k - 1, dir, loc, size, font);
        assert(decreases_to!(a => a@[k - 1]));
        lemma_field(a, k - 1, dir, size, font); lemma_positives(a, a@.len() as int, dir, font);
        let c = rec_size(a@[k - 1], other(dir), font); let s = rec_sizes(a, a@.len() as int, dir, font);
        if dir is LeftToRight { let t = size.0; let q = c.0; let z = s.0; assert((t * q) / z > 0real) by(nonlinear_arith) requires t > 0real, q > 0real, z > 0real; }
        else { let t = size.1; let q = c.1; let z = s.1; assert((t * q) / z > 0real) by(nonlinear_arith) requires t > 0real, q > 0real, z > 0real; }
        let l2 = field_loc(a, k - 1, dir, loc, size, font); let s2 = field_size(a, k - 1, dir, size, font);
        lemma_big(a@[k - 1], other(dir), l2, s2, font);
        let e = events(a@[k - 1], other(dir), l2, s2, font); let p = level_events(a, k - 1, dir, loc, size, font); let n = level_events(a, k, dir, loc, size, font);
        assert forall|i: int| 0 <= i < n.len() implies big(sz(#[trigger] n[i])) by { if i >= p.len() { assert(n[i] == e[i - p.len()]); } else { assert(n[i] == p[i]); } }
    }
}
// ---- the outline of a shape ----
pub open spec fn center(e: Element) -> (real, real) { (cx(e.pos), cy(e.pos)) }
// of a record: of the field with the port, if there is one
pub open spec fn on_outline(p: (real, real), e: Element, port: Option<String>) -> bool {
    match e.shape {
        ShapeKind::Record(r) => match port {
            Some(n) => { let f = found(events(r, e.orientation, center(e), xy(e.pos.size), e.look.font_size), n@, (center(e), xy(e.pos.size))); on_box(p, f.0, f.1) },
            None => on_box(p, center(e), xy(e.pos.size)),
        },
        ShapeKind::Box(_) => on_box(p, center(e), xy(e.pos.size)),
        ShapeKind::Circle(_) => on_ellipse(p, center(e), xy(e.pos.size)),
        ShapeKind::DoubleCircle(_) => on_ellipse(p, center(e), xy(e.pos.size)),
        _ => true,
    }
}
pub open spec fn drawable(e: Element) -> bool { big(xy(e.pos.size)) && (e.shape matches ShapeKind::Record(r) ==> filled(r)) }
// what an edge may start or end at, and what it may pass through
pub open spec fn end_ok(e: Element) -> bool { !(e.shape is Connector) }
pub open spec fn via_ok(e: Element) -> bool { e.shape is Connector }
pub open spec fn chain_ok(v: Seq<Element>) -> bool { v.len() >= 2 && end_ok(v[0]) && end_ok(v[v.len() - 1]) && forall|i: int| 0 < i < v.len() - 1 ==> via_ok(#[trigger] v[i]) }
// the path of an edge: one point for every element, on the outlines of the ends and in the centers of the connectors
pub open spec fn path_ok(p: Seq<(Point, Point)>, v: Seq<Element>, a: Arrow) -> bool {
    let n = v.len() as int;
    &&& p.len() == n
    &&& drawable(v[0]) ==> on_outline(xy(p[0].0), v[0], a.src_port)
    &&& drawable(v[n - 1]) ==> on_outline(xy(p[n - 1].1), v[n - 1], a.dst_port)
    &&& forall|i: int| 0 < i < n - 1 ==> xy(#[trigger] p[i].1) == center(v[i])
}
@end
@fn Locator::RecordVisitor::handle_box
ensures *final(self) == *old(self),
@fn Locator::RecordVisitor::handle_text
ensures final(self).port_name == old(self).port_name, match *port { Some(q) if q@ == old(self).port_name@ => final(self).loc == loc && final(self).size == size, _ => *final(self) == *old(self) },
@fn get_record_port_location
ret r
ensures filled(*rec) ==> (xy(r.0), xy(r.1)) == found(events(*rec, dir, xy(loc), xy(size), look.font_size), port_name@, (xy(loc), xy(size))),
@before "visit_record"
let ghost s0 = visitor.st();
@after "visit_record"
proof { lemma_found(s0, events(*rec, dir, xy(loc), xy(size), look.font_size)); }
@fn Element::get_connector_location
ret r
requires end_ok(*self),
ensures drawable(*self) ==> on_outline(xy(r.0), *self, *port),
@start
proof { if self.shape is Record && drawable(*self) { if let Some(n) = port {
    let r0 = self.shape->Record_0; lemma_big(r0, self.orientation, center(*self), xy(self.pos.size), self.look.font_size);
    lemma_found_big(events(r0, self.orientation, center(*self), xy(self.pos.size), self.look.font_size), n@, (center(*self), xy(self.pos.size)));
} } }
@fn Element::get_passthrough_path
ret r
requires via_ok(*self),
ensures xy(r.0) == center(*self),
@fn generate_curve_for_elements
ret r
requires chain_ok(elements@),
ensures path_ok(r@, elements@, *arrow),
@loop 1
invariant chain_ok(elements@), path.len() == vx_i1, vx_i1 >= 1, vx_e1 == elements.len(),
    drawable(elements@[0]) ==> on_outline(xy(path@[0].0), elements@[0], arrow.src_port),
    vx_i1 == elements.len() ==> (drawable(elements@[vx_i1 - 1]) ==> on_outline(xy(path@[vx_i1 - 1].1), elements@[vx_i1 - 1], arrow.dst_port)),
    forall|i: int| 0 < i < vx_i1 && i < elements.len() - 1 ==> xy(#[trigger] path@[i].1) == center(elements@[i]),
