@module placer
@use base text dag reach dagcheck types geom orient sizes color style shapes graph elem rows pred simple verify align sched place fixer
@file topo/placer/place.rs
@struct Placer
@code
broadcast use ax_fr;
use crate::dag::in_range;
use crate::simple;
use crate::verify as vx_verifier;
use crate::fixer as edge_fixer;
use crate::rows as move_between_rows;
// ---- left-to-right graphs are placed with their axes exchanged ----
pub open spec fn up(o: Orientation, v: Seq<Element>) -> Seq<Element> { if o is TopToBottom { v } else { turned_all(v, v.len() as int) } }
pub open spec fn upright(g: VisualGraph, a: VisualGraph) -> bool { only_elems(g, a) && a.nodes@ == up(g.orientation, g.nodes@) }
pub proof fn lemma_up_at(o: Orientation, v: Seq<Element>, h: int) requires 0 <= h < v.len() ensures up(o, v).len() == v.len(), up(o, v)[h] == (if o is TopToBottom { v[h] } else { turned_elem(v[h]) }), conn(up(o, v)[h]) == conn(v[h]), tag(up(o, v)[h]) == tag(v[h]), roomy1(v[h].pos) ==> roomy1(up(o, v)[h].pos) { }
pub proof fn lemma_up_twice(o: Orientation, v: Seq<Element>) ensures up(o, up(o, v)) =~= v { assert forall|h: int| 0 <= h < v.len() implies up(o, up(o, v))[h] == v[h] by { lemma_up_at(o, v, h); assert(flipped(flipped(v[h].pos)) == v[h].pos); } }
pub proof fn lemma_up_len(o: Orientation, v: Seq<Element>) ensures up(o, v).len() == v.len() { }
pub proof fn lemma_up_labels(o: Orientation, v: Seq<Element>, s: Seq<NodeHandle>) requires in_range(s, v.len() as int) ensures labels(up(o, v), s) == labels(v, s)
{ assert forall|i: int| 0 <= i < s.len() implies tag(up(o, v)[(#[trigger] s[i]).idx as int]) == tag(v[s[i].idx as int]) by { assert(s[i].idx < v.len()); lemma_up_at(o, v, s[i].idx as int); } lemma_labels_same(v, up(o, v), s); }
pub proof fn lemma_up_roomy(o: Orientation, v: Seq<Element>) requires roomy(v) ensures roomy(up(o, v)) { assert forall|h: int| 0 <= h < v.len() implies roomy1((#[trigger] up(o, v)[h]).pos) by { lemma_up_at(o, v, h); assert(roomy1(v[h].pos)); } }
pub broadcast proof fn b_upright(g: VisualGraph, a: VisualGraph) requires #[trigger] movable(g), upright(g, a) ensures #[trigger] movable(a)
{
    let v = g.nodes@; let w = a.nodes@; let ed = g.ed(); let d = g.dag; let o = g.orientation;
    assert forall|h: int| 0 <= h < v.len() implies conn(#[trigger] w[h]) == conn(v[h]) by { lemma_up_at(o, v, h); }
    lemma_up_len(o, v);
    assert(once(ed, w)) by { assert forall|j: int, i: int, l: int, m: int| #![trigger ed[j].1[i], ed[l].1[m]] 0 <= j < ed.len() && 0 <= i < ed[j].1.len() && 0 <= l < ed.len() && 0 <= m < ed[l].1.len() && ed[j].1[i] == ed[l].1[m] && conn(w[ed[j].1[i].idx as int]) implies j == l && i == m by { assert(in_range(ed[j].1, v.len() as int)); assert(ed[j].1[i].idx < v.len()); let h = ed[j].1[i].idx as int; assert(conn(v[h])); } }
    assert(wired(d, ed, w)) by { assert forall|x: NodeHandle, y: NodeHandle| #[trigger] d.pred(y.idx as int).contains(x) && x.idx < d.n() && y.idx < d.n() && conn(w[x.idx as int]) && conn(w[y.idx as int]) implies leads_to(ed, x, y) by { assert(conn(v[x.idx as int]) && conn(v[y.idx as int])); } }
}
// a connector that fits what it holds has a size
pub proof fn lemma_fits_roomy(o: Orientation, e: Element) requires fits_in(o, e), conn(e), rv(e.pos.halo.x) >= 0real, rv(e.pos.halo.y) >= 0real ensures roomy1(e.pos)
{
    let f = if o is TopToBottom { e } else { turned_elem(e) }; let s = shape_size(f.orientation, f.shape, f.look.font_size);
    assert(s.0 > 0real && s.1 > 0real) by { match f.shape { ShapeKind::Connector(Some(t)) => { let font = f.look.font_size; assert(text_w(t@) as real * font as real >= 0real) by (nonlinear_arith) requires text_w(t@) >= 0, font >= 0; assert(text_h(t@) as real * font as real >= 0real) by (nonlinear_arith) requires text_h(t@) >= 0, font >= 0; } _ => {} } }
}
pub proof fn lemma_keeps_roomy(a: VisualGraph, b: VisualGraph) requires keeps(a, b), roomy(a.nodes@) ensures roomy(b.nodes@)
{ assert forall|h: int| 0 <= h < b.nodes@.len() implies roomy1((#[trigger] b.nodes@[h]).pos) by { let v = a.nodes@; let w = b.nodes@; assert(roomy1(v[h].pos)); if w[h] != v[h] { assert(alike(v[h], w[h])); lemma_fits_roomy(a.orientation, w[h]); } } }
// ---- the placement, axes exchanged ----
pub open spec fn standing(v0: Seq<Element>, v: Seq<Element>, r: Rk, all: bool) -> bool { forall|l: int, i: int| #![trigger is_pos(r, l, i)] is_pos(r, l, i) && (all || !conn(v[r[l][i].idx as int])) ==> in_band(v0, r, l, el(v, r[l][i])) }
pub open spec fn from_zero_x(v: Seq<Element>, all: bool) -> bool { forall|h: int| 0 <= h < v.len() && (all || !conn(#[trigger] v[h])) ==> lx(v[h].pos, true) >= 0real }
// c is g with the axes exchanged if need be, the labels moved and everything placed
pub open spec fn phase(g: VisualGraph, b: VisualGraph, c: VisualGraph, all: bool) -> bool {
    &&& only_elems(g, b) && roomy(b.nodes@) && kept_but_labels(g.orientation, g.ed(), up(g.orientation, g.nodes@), b.nodes@) && only_moved(b, c)
    &&& neat(c, 0real) && standing(b.nodes@, c.nodes@, g.dag.rk(), all) && from_zero_x(c.nodes@, all)
}
pub broadcast proof fn b_rows(g: VisualGraph, a: VisualGraph, b: VisualGraph) requires #[trigger] movable(g), upright(g, a), roomy(g.nodes@), #[trigger] keeps(a, b) ensures roomy(b.nodes@), solid(b.nodes@)
{ lemma_up_roomy(g.orientation, g.nodes@); lemma_keeps_roomy(a, b); assert(moved(b.nodes@, b.nodes@)); lemma_moved_roomy(b.nodes@, b.nodes@); }
pub broadcast proof fn b_first(g: VisualGraph, a: VisualGraph, b: VisualGraph, c: VisualGraph)
    requires #[trigger] movable(g), upright(g, a), roomy(g.nodes@), #[trigger] keeps(a, b), only_elems(a, b), movable(b), #[trigger] only_moved(b, c), not_negative(c.nodes@), ordered(c.nodes@, g.dag.rk(), 0real), stacked(b.nodes@, c.nodes@, g.dag.rk(), g.dag.rk().len() as int),
    ensures phase(g, b, c, true),
{
    b_rows(g, a, b); lemma_moved_roomy(b.nodes@, c.nodes@); let r = g.dag.rk();
    assert forall|l: int, i: int| #![trigger is_pos(r, l, i)] is_pos(r, l, i) implies in_band(b.nodes@, r, l, el(c.nodes@, r[l][i])) by { assert(banded(b.nodes@, c.nodes@, r, l, r[l].len() as int)); }
}
pub broadcast proof fn b_next(g: VisualGraph, b: VisualGraph, c: VisualGraph, e: VisualGraph) requires #[trigger] phase(g, b, c, true), #[trigger] only_moved(c, e), same_y(c.nodes@, e.nodes@), ordered(e.nodes@, c.dag.rk(), vx_v_EPSILON()), not_negative(e.nodes@) ensures phase(g, b, e, true), neat(e, vx_v_EPSILON())
{
    b_moved(b, c, e); lemma_moved_roomy(c.nodes@, e.nodes@); lemma_less_apart(e.nodes@, c.dag.rk(), vx_v_EPSILON(), 0real); let r = g.dag.rk(); let v = c.nodes@; let w = e.nodes@;
    assert forall|l: int, i: int| #![trigger is_pos(r, l, i)] is_pos(r, l, i) implies in_band(b.nodes@, r, l, el(w, r[l][i])) by { lemma_row_in(g.dag, l); let h = r[l][i]; assert(h.idx < v.len()); assert(in_band(b.nodes@, r, l, el(v, h))); assert(moved1(v[h.idx as int], w[h.idx as int])); assert(rv(w[h.idx as int].pos.middle.y) == rv(v[h.idx as int].pos.middle.y)); }
}
pub broadcast proof fn b_last(g: VisualGraph, b: VisualGraph, c: VisualGraph, e: VisualGraph) requires #[trigger] phase(g, b, c, true), #[trigger] only_moved(c, e), same_y_nodes(c.nodes@, e.nodes@), neat(e, 0real), nodes_right(e.nodes@) ensures phase(g, b, e, false)
{
    b_moved(b, c, e); let r = g.dag.rk(); let v = c.nodes@; let w = e.nodes@;
    assert forall|l: int, i: int| #![trigger is_pos(r, l, i)] is_pos(r, l, i) && !conn(w[r[l][i].idx as int]) implies in_band(b.nodes@, r, l, el(w, r[l][i])) by { lemma_row_in(g.dag, l); let h = r[l][i]; assert(h.idx < v.len()); assert(in_band(b.nodes@, r, l, el(v, h))); assert(moved1(v[h.idx as int], w[h.idx as int])); assert(rv(w[h.idx as int].pos.middle.y) == rv(v[h.idx as int].pos.middle.y)); }
}

// ---- the result ----
// the boxes (with their halo) of different ranks lie one below the other
pub open spec fn rows_apart(v: Seq<Element>, r: Rk, all: bool) -> bool { forall|l: int, i: int, m: int, j: int| #![trigger is_pos(r, l, i), is_pos(r, m, j)] is_pos(r, l, i) && is_pos(r, m, j) && l < m && (all || !conn(v[r[l][i].idx as int]) && !conn(v[r[m][j].idx as int])) ==> by(el(v, r[l][i]), true) <= ty(el(v, r[m][j]), true) }
pub open spec fn positive(v: Seq<Element>, all: bool) -> bool { forall|h: int| 0 <= h < v.len() && (all || !conn(#[trigger] v[h])) ==> lx(v[h].pos, true) >= 0real && ty(v[h].pos, true) >= 0real }
// rows in order and in their place; this is about all elements, or about the nodes only
pub open spec fn arranged(v: Seq<Element>, r: Rk, all: bool) -> bool { ordered(v, r, 0real) && rows_apart(v, r, all) && positive(v, all) }
// no two boxes have a point of their inside in common
pub open spec fn beside2(p: Position, q: Position) -> bool { rx(p, true) <= lx(q, true) || rx(q, true) <= lx(p, true) || by(p, true) <= ty(q, true) || by(q, true) <= ty(p, true) }
pub open spec fn no_overlap(v: Seq<Element>, all: bool) -> bool { forall|h: int, k: int| 0 <= h < v.len() && 0 <= k < v.len() && h != k && (all || !conn(v[h]) && !conn(v[k])) ==> beside2((#[trigger] v[h]).pos, (#[trigger] v[k]).pos) }
// nothing but places changes, apart from where the labels are
pub open spec fn rest_kept(g: VisualGraph, f: VisualGraph) -> bool {
    &&& f.nodes.len() == g.nodes.len()
    &&& forall|h: int| #![trigger g.nodes@[h]] #![trigger f.nodes@[h]] 0 <= h < g.nodes.len() ==> conn(f.nodes@[h]) == conn(g.nodes@[h])
    &&& forall|h: int| #![trigger g.nodes@[h]] #![trigger f.nodes@[h]] 0 <= h < g.nodes.len() && !conn(g.nodes@[h]) ==> moved1(g.nodes@[h], f.nodes@[h])
    &&& forall|h: int| #![trigger g.nodes@[h]] #![trigger f.nodes@[h]] 0 <= h < g.nodes.len() && conn(g.nodes@[h]) ==> f.nodes@[h].orientation == g.nodes@[h].orientation && f.nodes@[h].properties == g.nodes@[h].properties && f.nodes@[h].pos.halo == g.nodes@[h].pos.halo
    &&& forall|j: int| 0 <= j < g.ed().len() ==> labels(f.nodes@, #[trigger] g.ed()[j].1) == labels(g.nodes@, g.ed()[j].1)
}
pub open spec fn laid(g: VisualGraph, f: VisualGraph, all: bool) -> bool { only_elems(g, f) && rest_kept(g, f) && arranged(up(g.orientation, f.nodes@), g.dag.rk(), all) && no_overlap(f.nodes@, all) }
pub proof fn lemma_no_overlap(d: DAG, v: Seq<Element>, all: bool) requires d.wf(), v.len() == d.n(), solid(v), ordered(v, d.rk(), 0real), rows_apart(v, d.rk(), all) ensures no_overlap(v, all)
{
    let r = d.rk();
    assert forall|h: int, k: int| 0 <= h < v.len() && 0 <= k < v.len() && h != k && (all || !conn(v[h]) && !conn(v[k])) implies beside2((#[trigger] v[h]).pos, (#[trigger] v[k]).pos) by {
        let (l, i) = spot_of(d, h); let (m, j) = spot_of(d, k);
        assert(is_pos(r, l, i) && is_pos(r, m, j));
        if l == m { lemma_row_in(d, l); assert(in_line(v, r[l], r[l].len() as int, 0real)); if i < j { lemma_in_line(v, r[l], r[l].len() as int, 0real, i, j); } else { assert(j < i); lemma_in_line(v, r[l], r[l].len() as int, 0real, j, i); } }
    }
}
pub proof fn spot_of(d: DAG, h: int) -> (t: (int, int)) requires d.wf(), 0 <= h < d.n() ensures is_pos(d.rk(), t.0, t.1), d.rk()[t.0][t.1].idx == h
{ let r = d.rk(); let x = NodeHandle { idx: h as usize }; lemma_on_rank(r, d.n() as int, x); let l = rank_of(r, x); lemma_contains_on(r, l, x); let i = choose|i: int| 0 <= i < r[l].len() && r[l][i] == x; assert(r[l][i] == x); (l, i) }
pub proof fn lemma_arranged(g: VisualGraph, b: VisualGraph, c: VisualGraph, all: bool) requires g.ok(), phase(g, b, c, all) ensures arranged(c.nodes@, g.dag.rk(), all), no_overlap(c.nodes@, all)
{
    let r = g.dag.rk(); let v = c.nodes@; let v0 = b.nodes@;
    assert forall|l: int, i: int, m: int, j: int| #![trigger is_pos(r, l, i), is_pos(r, m, j)] is_pos(r, l, i) && is_pos(r, m, j) && l < m && (all || !conn(v[r[l][i].idx as int]) && !conn(v[r[m][j].idx as int])) implies by(el(v, r[l][i]), true) <= ty(el(v, r[m][j]), true) by { assert(in_band(v0, r, l, el(v, r[l][i])) && in_band(v0, r, m, el(v, r[m][j]))); lemma_band_up(v0, r, l + 1, m); }
    assert forall|h: int| 0 <= h < v.len() && (all || !conn(#[trigger] v[h])) implies lx(v[h].pos, true) >= 0real && ty(v[h].pos, true) >= 0real by { let (l, i) = spot_of(g.dag, h); assert(in_band(v0, r, l, el(v, r[l][i]))); lemma_band_up(v0, r, 0, l); }
    assert(moved(v, v)); lemma_moved_roomy(v, v); lemma_no_overlap(g.dag, v, all);
}
pub proof fn lemma_turned_apart(o: Orientation, v: Seq<Element>, all: bool) requires no_overlap(up(o, v), all) ensures no_overlap(v, all)
{ assert forall|h: int, k: int| 0 <= h < v.len() && 0 <= k < v.len() && h != k && (all || !conn(v[h]) && !conn(v[k])) implies beside2((#[trigger] v[h]).pos, (#[trigger] v[k]).pos) by { lemma_up_at(o, v, h); lemma_up_at(o, v, k); let a = up(o, v)[h]; let b = up(o, v)[k]; assert(beside2(a.pos, b.pos)); } }
pub broadcast proof fn b_laid(g: VisualGraph, b: VisualGraph, c: VisualGraph, f: VisualGraph, all: bool) requires #[trigger] movable(g), #[trigger] phase(g, b, c, all), only_elems(c, f), f.nodes@ == up(g.orientation, c.nodes@) ensures #[trigger] laid(g, f, all)
{
    let o = g.orientation; let v = g.nodes@; let w = c.nodes@; let u = up(o, v); let z = f.nodes@; let ed = g.ed(); let bn = b.nodes@;
    lemma_arranged(g, b, c, all); lemma_up_twice(o, w); lemma_turned_apart(o, z, all); lemma_up_len(o, v);
    assert forall|h: int| #![trigger v[h]] #![trigger z[h]] 0 <= h < v.len() implies conn(z[h]) == conn(v[h]) && (!conn(v[h]) ==> moved1(v[h], z[h])) && (conn(v[h]) ==> z[h].orientation == v[h].orientation && z[h].properties == v[h].properties && z[h].pos.halo == v[h].pos.halo) by {
        lemma_up_at(o, v, h); lemma_up_at(o, w, h); assert(moved1(bn[h], w[h])); assert(bn[h] == u[h] || alike(u[h], bn[h]));
    }
    assert forall|j: int| 0 <= j < ed.len() implies labels(z, #[trigger] ed[j].1) == labels(v, ed[j].1) by {
        let s = ed[j].1; assert(in_range(s, v.len() as int)); lemma_up_labels(o, v, s); lemma_up_labels(o, w, s); assert(labels(bn, s) == labels(u, s));
        assert forall|i: int| 0 <= i < s.len() implies tag(w[(#[trigger] s[i]).idx as int]) == tag(bn[s[i].idx as int]) by { assert(s[i].idx < v.len()); assert(moved1(bn[s[i].idx as int], w[s[i].idx as int])); } lemma_labels_same(bn, w, s);
    }
}
@end
@fn Placer::new
ret r
ensures *r.vg == *old(vg), *final(r.vg) == *final(vg),
@fn Placer::layout
requires movable(*old(self).vg), roomy(old(self).vg.nodes@),
ensures *final(final(self).vg) == *final(old(self).vg), laid(*old(self).vg, *final(self).vg, no_layout), movable(*final(self).vg),
@start
broadcast use {b_upright, b_rows, b_first, b_next, b_last, b_laid};
proof { lemma_up_len(self.vg.orientation, self.vg.nodes@); }
