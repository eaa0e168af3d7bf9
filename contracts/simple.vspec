@module simple
@use base text dag reach dagcheck types geom orient shapes graph elem
@file topo/placer/mod.rs
@const EPSILON
@file topo/placer/simple.rs
@code
broadcast use ax_fr;
// ---- where the elements are ----
pub open spec fn el(v: Seq<Element>, h: NodeHandle) -> Position { v[h.idx as int].pos }
pub open spec fn wide(p: Position) -> real { hv(p, true).0 }
pub open spec fn tall(p: Position) -> real { hv(p, true).1 }
// only places differ
pub open spec fn moved1(a: Element, b: Element) -> bool { b == (Element { pos: Position { middle: b.pos.middle, ..a.pos }, ..a }) }
pub open spec fn moved(v: Seq<Element>, w: Seq<Element>) -> bool { w.len() == v.len() && forall|h: int| #![trigger v[h]] #![trigger w[h]] 0 <= h < v.len() ==> moved1(v[h], w[h]) }
pub open spec fn only_moved(a: VisualGraph, b: VisualGraph) -> bool { b.edges == a.edges && b.self_edges == a.self_edges && b.dag == a.dag && b.orientation == a.orientation && moved(a.nodes@, b.nodes@) }
pub proof fn lemma_moved_trans(u: Seq<Element>, v: Seq<Element>, w: Seq<Element>) requires moved(u, v), moved(v, w) ensures moved(u, w)
{ assert forall|h: int| #![trigger u[h]] #![trigger w[h]] 0 <= h < u.len() implies moved1(u[h], w[h]) by { assert(moved1(u[h], v[h]) && moved1(v[h], w[h])); } }
// the boxes (with their halo) have a size
pub open spec fn solid(v: Seq<Element>) -> bool { forall|h: int| 0 <= h < v.len() ==> wide((#[trigger] v[h]).pos) > 0real && tall(v[h].pos) > 0real }
pub proof fn lemma_moved_solid(v: Seq<Element>, w: Seq<Element>) requires moved(v, w), solid(v) ensures solid(w) { assert forall|h: int| 0 <= h < w.len() implies wide((#[trigger] w[h]).pos) > 0real && tall(w[h].pos) > 0real by { assert(moved1(v[h], w[h])); assert(wide(v[h].pos) > 0real); } }
// the elements of a row lie side by side, in order, at least g apart
pub open spec fn apart_by(a: Position, b: Position, g: real) -> bool { rx(a, true) + g <= lx(b, true) }
pub open spec fn in_line(v: Seq<Element>, s: Seq<NodeHandle>, k: int, g: real) -> bool { forall|i: int| 0 < i < k ==> apart_by(el(v, s[i - 1]), el(v, #[trigger] s[i]), g) }
pub open spec fn ordered(v: Seq<Element>, r: Rk, g: real) -> bool { forall|l: int| 0 <= l < r.len() ==> in_line(v, #[trigger] r[l], r[l].len() as int, g) }
// the room the rows need: each is as tall as its tallest element, and they are stacked
pub open spec fn row_h(v: Seq<Element>, s: Seq<NodeHandle>, k: int) -> real decreases k { if k <= 0 { 0real } else { rmax(row_h(v, s, k - 1), tall(el(v, s[k - 1]))) } }
pub open spec fn band(v: Seq<Element>, r: Rk, l: int) -> real decreases l { if l <= 0 { 0real } else { band(v, r, l - 1) + row_h(v, r[l - 1], r[l - 1].len() as int) } }
pub open spec fn in_band(v0: Seq<Element>, r: Rk, l: int, p: Position) -> bool { band(v0, r, l) <= ty(p, true) && by(p, true) <= band(v0, r, l + 1) }
pub open spec fn banded(v0: Seq<Element>, v: Seq<Element>, r: Rk, l: int, k: int) -> bool { forall|i: int| 0 <= i < k ==> in_band(v0, r, l, el(v, #[trigger] r[l][i])) }
pub open spec fn stacked(v0: Seq<Element>, v: Seq<Element>, r: Rk, k: int) -> bool { forall|l: int| 0 <= l < k ==> #[trigger] banded(v0, v, r, l, r[l].len() as int) }
pub proof fn lemma_row_h(v: Seq<Element>, s: Seq<NodeHandle>, k: int, i: int) requires 0 <= i < k ensures tall(el(v, s[i])) <= row_h(v, s, k), row_h(v, s, k) >= 0real decreases k { if i < k - 1 { lemma_row_h(v, s, k - 1, i); } else { lemma_row_h0(v, s, k - 1); } }
pub proof fn lemma_row_h0(v: Seq<Element>, s: Seq<NodeHandle>, k: int) ensures row_h(v, s, k) >= 0real decreases k { if k > 0 { lemma_row_h0(v, s, k - 1); } }
pub proof fn lemma_row_h_moved(v: Seq<Element>, w: Seq<Element>, s: Seq<NodeHandle>, k: int) requires moved(v, w), in_range(s, v.len() as int), k <= s.len() ensures row_h(w, s, k) == row_h(v, s, k) decreases k { if k > 0 { lemma_row_h_moved(v, w, s, k - 1); assert(s[k - 1].idx < v.len()); assert(moved1(v[s[k - 1].idx as int], w[s[k - 1].idx as int])); } }
pub proof fn lemma_band_up(v: Seq<Element>, r: Rk, l: int, m: int) requires 0 <= l <= m ensures 0real <= band(v, r, l) <= band(v, r, m) decreases m { if m > 0 { lemma_row_h0(v, r[m - 1], r[m - 1].len() as int); if l < m { lemma_band_up(v, r, l, m - 1); } else { lemma_band_up(v, r, l - 1, m - 1); } } }
pub proof fn lemma_row_in(d: DAG, l: int) requires d.wf(), 0 <= l < d.rk().len() ensures in_range(d.rk()[l], d.n())
{ reveal(ranks_wf); let r = d.rk(); assert forall|i: int| 0 <= i < r[l].len() implies (#[trigger] r[l][i]).idx < d.n() by { assert(is_pos(r, l, i)); assert(at(r, l, i) == r[l][i]); } }
pub proof fn lemma_once(d: DAG, l: int, i: int, m: int, j: int) requires d.wf(), is_pos(d.rk(), l, i), is_pos(d.rk(), m, j), d.rk()[l][i].idx == d.rk()[m][j].idx ensures l == m, i == j
{ reveal(ranks_wf); let r = d.rk(); assert(at(r, l, i) == at(r, m, j)); }
// any two elements of a row, when neighbours are apart
pub proof fn lemma_in_line(v: Seq<Element>, s: Seq<NodeHandle>, k: int, g: real, i: int, j: int)
    requires in_line(v, s, k, g), 0 <= i < j < k, g >= 0real, solid(v), in_range(s, v.len() as int), k <= s.len(), ensures apart_by(el(v, s[i]), el(v, s[j]), g), lx(el(v, s[i]), true) < lx(el(v, s[j]), true)
    decreases j
{ assert(s[i].idx < v.len() && s[j].idx < v.len() && s[j - 1].idx < v.len()); assert(wide(v[s[i].idx as int].pos) > 0real); assert(wide(v[s[j - 1].idx as int].pos) > 0real); assert(apart_by(el(v, s[j - 1]), el(v, s[j]), g)); if i < j - 1 { lemma_in_line(v, s, k, g, i, j - 1); } }
// what the placement needs to know about the graph
pub open spec fn placeable(g: VisualGraph) -> bool { g.ok() && solid(g.nodes@) }
pub proof fn lemma_still_placeable(g: VisualGraph, f: VisualGraph) requires placeable(g), only_moved(g, f) ensures placeable(f) { lemma_moved_solid(g.nodes@, f.nodes@); }
pub open spec fn not_negative(v: Seq<Element>) -> bool { forall|h: int| 0 <= h < v.len() ==> lx((#[trigger] v[h]).pos, true) >= 0real }
// everything went d to the left
pub open spec fn shifted1(a: Element, b: Element, d: real) -> bool { moved1(a, b) && at_xy(b.pos.middle, rv(a.pos.middle.x) - d, rv(a.pos.middle.y)) }
pub open spec fn shifted(v: Seq<Element>, w: Seq<Element>, d: real, k: int) -> bool { w.len() == v.len() && forall|h: int| #![trigger v[h]] #![trigger w[h]] 0 <= h < v.len() ==> if h < k { shifted1(v[h], w[h], d) } else { w[h] == v[h] } }
pub open spec fn all_shifted(v: Seq<Element>, w: Seq<Element>, d: real) -> bool { shifted(v, w, d, v.len() as int) }
pub open spec fn same_y(v: Seq<Element>, w: Seq<Element>) -> bool { forall|h: int| #![trigger v[h]] #![trigger w[h]] 0 <= h < v.len() ==> rv(w[h].pos.middle.y) == rv(v[h].pos.middle.y) }
// placing the element at (l, j) leaves the rows before it, and the row up to it, as they were
pub proof fn lemma_place_x(d: DAG, w: Seq<Element>, w2: Seq<Element>, l: int, j: int, g: real)
    requires d.wf(), is_pos(d.rk(), l, j), w.len() == d.n(), w2 == w.update(d.rk()[l][j].idx as int, w2[d.rk()[l][j].idx as int]), in_line(w, d.rk()[l], j, g), forall|m: int| 0 <= m < l ==> in_line(w, #[trigger] d.rk()[m], d.rk()[m].len() as int, g),
        j > 0 ==> apart_by(el(w, d.rk()[l][j - 1]), el(w2, d.rk()[l][j]), g),
    ensures in_line(w2, d.rk()[l], j + 1, g), forall|m: int| 0 <= m < l ==> in_line(w2, #[trigger] d.rk()[m], d.rk()[m].len() as int, g),
{
    let r = d.rk(); let h = r[l][j];
    assert forall|m: int, i: int| is_pos(r, m, i) && !(m == l && i == j) implies (#[trigger] r[m][i]).idx != h.idx by { if r[m][i].idx == h.idx { lemma_once(d, m, i, l, j); } }
    assert forall|i: int| 0 < i < j + 1 implies apart_by(el(w2, r[l][i - 1]), el(w2, #[trigger] r[l][i]), g) by { assert(r[l][i - 1].idx != h.idx); if i < j { assert(r[l][i].idx != h.idx); assert(apart_by(el(w, r[l][i - 1]), el(w, r[l][i]), g)); } }
    assert forall|m: int| 0 <= m < l implies in_line(w2, #[trigger] r[m], r[m].len() as int, g) by {
        assert(in_line(w, r[m], r[m].len() as int, g));
        assert forall|i: int| 0 < i < r[m].len() implies apart_by(el(w2, r[m][i - 1]), el(w2, #[trigger] r[m][i]), g) by { assert(r[m][i - 1].idx != h.idx && r[m][i].idx != h.idx); assert(apart_by(el(w, r[m][i - 1]), el(w, r[m][i]), g)); }
    }
}
// nothing lies left of zero
pub open spec fn from_zero(v: Seq<Element>, s: Seq<NodeHandle>, k: int) -> bool { forall|i: int| 0 <= i < k ==> lx(el(v, #[trigger] s[i]), true) >= 0real }
pub open spec fn all_from_zero(v: Seq<Element>, r: Rk, k: int) -> bool { forall|l: int| 0 <= l < k ==> from_zero(v, #[trigger] r[l], r[l].len() as int) }
pub proof fn lemma_place_zero(d: DAG, w: Seq<Element>, w2: Seq<Element>, l: int, j: int)
    requires d.wf(), is_pos(d.rk(), l, j), w.len() == d.n(), w2 == w.update(d.rk()[l][j].idx as int, w2[d.rk()[l][j].idx as int]), from_zero(w, d.rk()[l], j), all_from_zero(w, d.rk(), l), lx(el(w2, d.rk()[l][j]), true) >= 0real,
    ensures from_zero(w2, d.rk()[l], j + 1), all_from_zero(w2, d.rk(), l),
{
    let r = d.rk(); let h = r[l][j];
    assert forall|m: int, i: int| is_pos(r, m, i) && !(m == l && i == j) implies (#[trigger] r[m][i]).idx != h.idx by { if r[m][i].idx == h.idx { lemma_once(d, m, i, l, j); } }
    assert forall|i: int| 0 <= i < j + 1 implies lx(el(w2, #[trigger] r[l][i]), true) >= 0real by { if i < j { assert(is_pos(r, l, i)); } }
    assert forall|m: int| 0 <= m < l implies from_zero(w2, #[trigger] r[m], r[m].len() as int) by { assert(from_zero(w, r[m], r[m].len() as int)); assert forall|i: int| 0 <= i < r[m].len() implies lx(el(w2, #[trigger] r[m][i]), true) >= 0real by { assert(is_pos(r, m, i)); } }
}
pub proof fn lemma_from_zero(d: DAG, w: Seq<Element>) requires d.wf(), w.len() == d.n(), all_from_zero(w, d.rk(), d.rk().len() as int) ensures not_negative(w)
{
    let r = d.rk();
    assert forall|h: int| 0 <= h < w.len() implies lx((#[trigger] w[h]).pos, true) >= 0real by { let x = NodeHandle { idx: h as usize }; assert(x.idx < d.n()); lemma_on_rank(r, d.n() as int, x); let l = rank_of(r, x); lemma_contains_on(r, l, x); assert(from_zero(w, r[l], r[l].len() as int)); let i = choose|i: int| 0 <= i < r[l].len() && r[l][i] == x; assert(r[l][i] == x); }
}
// a change along x does not move a row up or down
pub proof fn lemma_stacked_x(v: Seq<Element>, w: Seq<Element>, w2: Seq<Element>, d: DAG) requires d.wf(), w.len() == d.n(), stacked(v, w, d.rk(), d.rk().len() as int), moved(w, w2), same_y(w, w2) ensures stacked(v, w2, d.rk(), d.rk().len() as int)
{
    let r = d.rk();
    assert forall|l: int| 0 <= l < r.len() implies #[trigger] banded(v, w2, r, l, r[l].len() as int) by {
        assert(banded(v, w, r, l, r[l].len() as int)); lemma_row_in(d, l);
        assert forall|i: int| 0 <= i < r[l].len() implies in_band(v, r, l, el(w2, #[trigger] r[l][i])) by { let h = r[l][i].idx as int; assert(moved1(w[h], w2[h])); assert(in_band(v, r, l, el(w, r[l][i]))); }
    }
}
pub broadcast proof fn b_moved(a: VisualGraph, b: VisualGraph, c: VisualGraph) requires #[trigger] only_moved(a, b), #[trigger] only_moved(b, c) ensures only_moved(a, c) { lemma_moved_trans(a.nodes@, b.nodes@, c.nodes@); }
pub broadcast proof fn b_same_y(u: Seq<Element>, v: Seq<Element>, w: Seq<Element>) requires #[trigger] same_y(u, v), #[trigger] same_y(v, w), u.len() == v.len() ensures same_y(u, w) { assert forall|h: int| #![trigger u[h]] #![trigger w[h]] 0 <= h < u.len() implies rv(w[h].pos.middle.y) == rv(u[h].pos.middle.y) by { assert(rv(v[h].pos.middle.y) == rv(u[h].pos.middle.y)); } }
pub broadcast proof fn b_solid(v: Seq<Element>, w: Seq<Element>) requires #[trigger] moved(v, w), #[trigger] solid(v) ensures solid(w) { lemma_moved_solid(v, w); }
pub broadcast proof fn b_stacked_x(v: Seq<Element>, g: VisualGraph, f: VisualGraph) requires g.ok(), #[trigger] stacked(v, g.nodes@, g.dag.rk(), g.dag.rk().len() as int), #[trigger] only_moved(g, f), same_y(g.nodes@, f.nodes@) ensures stacked(v, f.nodes@, g.dag.rk(), g.dag.rk().len() as int) { lemma_stacked_x(v, g.nodes@, f.nodes@, g.dag); }
@end
@fn align_to_left float
requires old(vg).ok(),
ensures only_moved(*old(vg), *final(vg)), not_negative(final(vg).nodes@), exists|d: real| #[trigger] all_shifted(old(vg).nodes@, final(vg).nodes@, d),
@loop 1 kind=iter
invariant vg.ok(), *vg == *old(vg), vx_it1.last == vg.nodes.len(), vx_it1.curr <= vx_it1.last, forall|h: int| 0 <= h < vx_it1.curr ==> rv(first_x) <= lx((#[trigger] vg.nodes@[h]).pos, true),
ensures vx_it1.curr == vx_it1.last,
decreases vx_it1.left(),
@loop 2 kind=iter
invariant vx_it2.last == old(vg).nodes.len(), vx_it2.curr <= vx_it2.last, only_moved(*old(vg), *vg), shifted(old(vg).nodes@, vg.nodes@, rv(first_x), vx_it2.curr as int), forall|h: int| 0 <= h < old(vg).nodes.len() ==> rv(first_x) <= lx((#[trigger] old(vg).nodes@[h]).pos, true),
ensures vx_it2.curr == vx_it2.last,
decreases vx_it2.left(),
@loopstart 2
broadcast use ax_fr;
@end_fn
proof { let v = old(vg).nodes@; let w = vg.nodes@; assert(all_shifted(v, w, rv(first_x))); assert forall|h: int| 0 <= h < w.len() implies lx((#[trigger] w[h]).pos, true) >= 0real by { assert(shifted1(v[h], w[h], rv(first_x))); assert(rv(first_x) <= lx(v[h].pos, true)); } }
@fn assign_y_coordinates float
requires old(vg).ok(),
ensures only_moved(*old(vg), *final(vg)), stacked(old(vg).nodes@, final(vg).nodes@, old(vg).dag.rk(), old(vg).dag.rk().len() as int),
@start
let ghost g = *vg; let ghost v = vg.nodes@; let ghost r = vg.dag.rk();
@loop 1
invariant g == *old(vg), g.ok(), v == g.nodes@, r == g.dag.rk(), vg.ok(), only_moved(g, *vg), rv(lowest_point) == band(v, r, vx_i1 as int), stacked(v, vg.nodes@, r, vx_i1 as int), vx_e1 == r.len(),
@loopbefore 2
let ghost v1 = vg.nodes@; 
@loop 2
invariant g == *old(vg), g.ok(), v == g.nodes@, r == g.dag.rk(), vg.ok(), only_moved(g, *vg), i < r.len(), vx_s2@ == r[i as int], current_row@ == r[i as int], rv(max_height) == row_h(v, r[i as int], vx_i2 as int), vg.nodes@ == v1,
@loopstart 2
proof { lemma_row_in(g.dag, i as int); assert(r[i as int][vx_i2 - 1] == *idx); assert(moved1(v[idx.idx as int], vg.nodes@[idx.idx as int])); }
@loopend 1
proof { assert(banded(v, vg.nodes@, r, i as int, r[i as int].len() as int)); }
@loop 3
invariant g == *old(vg), g.ok(), v == g.nodes@, r == g.dag.rk(), vg.ok(), only_moved(g, *vg), i < r.len(), vx_s3@ == r[i as int], rv(new_center) == band(v, r, i as int) + rv(max_height) / 2real, rv(max_height) == row_h(v, r[i as int], r[i as int].len() as int),
    stacked(v, vg.nodes@, r, i as int), banded(v, vg.nodes@, r, i as int, vx_i3 as int),
@loopstart 3
let ghost w = vg.nodes@;
proof { lemma_row_in(g.dag, i as int); assert(r[i as int][vx_i3 - 1] == *idx); assert(moved1(v[idx.idx as int], vg.nodes@[idx.idx as int])); lemma_row_h(v, r[i as int], r[i as int].len() as int, vx_i3 - 1); }
@loopend 3
proof {
    let w2 = vg.nodes@; let k = i as int; let j = vx_i3 - 1;
    assert(in_band(v, r, k, el(w2, *idx)));
    assert forall|q: int| 0 <= q < vx_i3 implies in_band(v, r, k, el(w2, #[trigger] r[k][q])) by { if q < j { if r[k][q].idx == idx.idx { lemma_once(g.dag, k, q, k, j); } } }
    assert forall|l: int| 0 <= l < k implies #[trigger] banded(v, w2, r, l, r[l].len() as int) by { assert(banded(v, w, r, l, r[l].len() as int)); assert forall|q: int| 0 <= q < r[l].len() implies in_band(v, r, l, el(w2, #[trigger] r[l][q])) by { if r[l][q].idx == idx.idx { lemma_once(g.dag, l, q, k, j); } } }
}
@fn assign_x_coordinates float
requires placeable(*old(vg)),
ensures only_moved(*old(vg), *final(vg)), same_y(old(vg).nodes@, final(vg).nodes@), ordered(final(vg).nodes@, old(vg).dag.rk(), 0real), not_negative(final(vg).nodes@),
@start
let ghost g = *vg; let ghost r = vg.dag.rk();
@loop 1
invariant g == *old(vg), g.ok(), r == g.dag.rk(), vg.ok(), only_moved(g, *vg), same_y(g.nodes@, vg.nodes@), vx_e1 == r.len(), forall|l: int| 0 <= l < vx_i1 ==> in_line(vg.nodes@, #[trigger] r[l], r[l].len() as int, 0real), all_from_zero(vg.nodes@, r, vx_i1 as int), solid(g.nodes@),
@loop 2
invariant g == *old(vg), g.ok(), r == g.dag.rk(), vg.ok(), only_moved(g, *vg), same_y(g.nodes@, vg.nodes@), i < r.len(), vx_s2@ == r[i as int], forall|l: int| 0 <= l < i ==> in_line(vg.nodes@, #[trigger] r[l], r[l].len() as int, 0real),
    all_from_zero(vg.nodes@, r, i as int), from_zero(vg.nodes@, r[i as int], vx_i2 as int), rv(rightmost_point) >= 0real, solid(g.nodes@), in_line(vg.nodes@, r[i as int], vx_i2 as int, 0real), vx_i2 > 0 ==> rv(rightmost_point) >= rx(el(vg.nodes@, r[i as int][vx_i2 - 1]), true),
@loopstart 2
let ghost w = vg.nodes@;
proof { lemma_row_in(g.dag, i as int); assert(r[i as int][vx_i2 - 1] == *idx); assert(moved1(g.nodes@[idx.idx as int], w[idx.idx as int])); assert(wide(g.nodes@[idx.idx as int].pos) > 0real); }
@loopend 2
proof { lemma_place_x(g.dag, w, vg.nodes@, i as int, vx_i2 - 1, 0real); lemma_place_zero(g.dag, w, vg.nodes@, i as int, vx_i2 - 1); }
@end_fn
proof { lemma_from_zero(g.dag, vg.nodes@); }
@fn do_it
requires placeable(*old(vg)),
ensures only_moved(*old(vg), *final(vg)), ordered(final(vg).nodes@, old(vg).dag.rk(), 0real), not_negative(final(vg).nodes@), stacked(old(vg).nodes@, final(vg).nodes@, old(vg).dag.rk(), old(vg).dag.rk().len() as int),
@start
broadcast use {b_moved, b_solid, b_stacked_x};
