@module fixer
@use base text dag reach dagcheck types geom orient sizes shapes graph elem rows pred simple align sched place
@file topo/placer/edge_fixer.rs
@type Segment
@type Rect
@code
broadcast use ax_fr;
use crate::dag::in_range;
// a box of positive size with the connection point inside
pub open spec fn roomy1(p: Position) -> bool { rv(p.size.x) > 0real && rv(p.size.y) > 0real && rv(p.halo.x) >= 0real && rv(p.halo.y) >= 0real && lx(p, true) <= cx(p) <= rx(p, true) && ty(p, true) <= cy(p) <= by(p, true) }
pub open spec fn roomy(v: Seq<Element>) -> bool { forall|h: int| 0 <= h < v.len() ==> roomy1((#[trigger] v[h]).pos) }
pub proof fn lemma_moved_roomy(v: Seq<Element>, w: Seq<Element>) requires moved(v, w), roomy(v) ensures roomy(w), solid(w) { assert forall|h: int| 0 <= h < w.len() implies roomy1((#[trigger] w[h]).pos) && wide(w[h].pos) > 0real && tall(w[h].pos) > 0real by { assert(moved1(v[h], w[h])); assert(roomy1(v[h].pos)); } }
// only connectors change
pub open spec fn nodes_kept(v: Seq<Element>, w: Seq<Element>) -> bool { w.len() == v.len() && forall|h: int| #![trigger v[h]] #![trigger w[h]] 0 <= h < v.len() && !conn(v[h]) ==> w[h] == v[h] }
// the elements next to the one at (l, i) leave it room
pub open spec fn between(v: Seq<Element>, s: Seq<NodeHandle>, i: int, p: Position, g: real) -> bool { (i > 0 ==> apart_by(el(v, s[i - 1]), p, g)) && (i + 1 < s.len() ==> apart_by(p, el(v, s[i + 1]), g)) }
pub proof fn lemma_slide(d: DAG, v: Seq<Element>, w: Seq<Element>, l: int, i: int, g: real)
    requires d.wf(), v.len() == d.n(), is_pos(d.rk(), l, i), ordered(v, d.rk(), g), w == v.update(d.rk()[l][i].idx as int, w[d.rk()[l][i].idx as int]), between(v, d.rk()[l], i, el(w, d.rk()[l][i]), g),
    ensures ordered(w, d.rk(), g),
{
    let r = d.rk(); let h = r[l][i]; lemma_row_in(d, l); assert(h.idx < d.n());
    assert forall|m: int, j: int| is_pos(r, m, j) && !(m == l && i == j) implies el(w, #[trigger] r[m][j]) == el(v, r[m][j]) by { if r[m][j].idx == h.idx { lemma_once(d, m, j, l, i); } }
    assert forall|m: int| 0 <= m < r.len() implies in_line(w, #[trigger] r[m], r[m].len() as int, g) by {
        assert(in_line(v, r[m], r[m].len() as int, g));
        assert forall|j: int| 0 < j < r[m].len() implies apart_by(el(w, r[m][j - 1]), el(w, #[trigger] r[m][j]), g) by { assert(apart_by(el(v, r[m][j - 1]), el(v, r[m][j]), g)); assert(is_pos(r, m, j) && is_pos(r, m, j - 1)); }
    }
}
pub proof fn lemma_neighbours(d: DAG, v: Seq<Element>, l: int, i: int, g: real) requires d.wf(), v.len() == d.n(), is_pos(d.rk(), l, i), ordered(v, d.rk(), g) ensures d.rk()[l][i].idx < d.n(), between(v, d.rk()[l], i, el(v, d.rk()[l][i]), g), i > 0 ==> d.rk()[l][i - 1].idx < d.n(), i + 1 < d.rk()[l].len() ==> d.rk()[l][i + 1].idx < d.n()
{ lemma_row_in(d, l); let s = d.rk()[l]; assert(in_line(v, s, s.len() as int, g)); if i > 0 { assert(apart_by(el(v, s[i - 1]), el(v, s[i]), g)); assert(s[i - 1].idx < d.n()); } if i + 1 < s.len() { assert(apart_by(el(v, s[i + 1 - 1]), el(v, s[i + 1]), g)); } assert(s[i].idx < d.n()); }
pub proof fn lemma_less_apart(v: Seq<Element>, r: Rk, g: real, f: real) requires ordered(v, r, g), f <= g ensures ordered(v, r, f)
{ assert forall|l: int| 0 <= l < r.len() implies in_line(v, #[trigger] r[l], r[l].len() as int, f) by { assert(in_line(v, r[l], r[l].len() as int, g)); assert forall|i: int| 0 < i < r[l].len() implies apart_by(el(v, r[l][i - 1]), el(v, #[trigger] r[l][i]), f) by { assert(apart_by(el(v, r[l][i - 1]), el(v, r[l][i]), g)); } } }
// what limits an element: the end of its neighbour, or nothing
pub open spec fn limits(v: Seq<Element>, s: Seq<NodeHandle>, i: int, b: (Fl, Fl)) -> bool {
    &&& if i > 0 { rv(b.0) == rx(el(v, s[i - 1]), true) } else { !finite(b.0) }
    &&& if i + 1 < s.len() { rv(b.1) == lx(el(v, s[i + 1]), true) } else { !finite(b.1) }
}
// one element is moved
pub open spec fn slid(v: Seq<Element>, w: Seq<Element>, h: int) -> bool { 0 <= h < v.len() && w == v.update(h, w[h]) && moved1(v[h], w[h]) }
pub proof fn lemma_slid(d: DAG, u: Seq<Element>, v: Seq<Element>, l: int, i: int, g: real)
    requires d.wf(), v.len() == d.n(), is_pos(d.rk(), l, i), ordered(v, d.rk(), g), moved(u, v), roomy(v),
    ensures forall|w: Seq<Element>| #![trigger ordered(w, d.rk(), g)] slid(v, w, d.rk()[l][i].idx as int) && between(v, d.rk()[l], i, el(w, d.rk()[l][i]), g) ==> ordered(w, d.rk(), g),
        forall|w: Seq<Element>| #![trigger moved(u, w)] slid(v, w, d.rk()[l][i].idx as int) ==> moved(u, w),
        forall|w: Seq<Element>| #![trigger roomy(w)] slid(v, w, d.rk()[l][i].idx as int) ==> roomy(w),
        same_y(u, v) ==> forall|w: Seq<Element>| #![trigger same_y(u, w)] slid(v, w, d.rk()[l][i].idx as int) && rv(w[d.rk()[l][i].idx as int].pos.middle.y) == rv(v[d.rk()[l][i].idx as int].pos.middle.y) ==> same_y(u, w),
        nodes_kept(u, v) ==> forall|w: Seq<Element>| #![trigger nodes_kept(u, w)] slid(v, w, d.rk()[l][i].idx as int) && conn(v[d.rk()[l][i].idx as int]) ==> nodes_kept(u, w),
{
    let h = d.rk()[l][i].idx as int;
    assert forall|w: Seq<Element>| #![trigger ordered(w, d.rk(), g)] slid(v, w, h) && between(v, d.rk()[l], i, el(w, d.rk()[l][i]), g) implies ordered(w, d.rk(), g) by { lemma_slide(d, v, w, l, i, g); }
    assert forall|w: Seq<Element>| #![trigger moved(u, w)] slid(v, w, h) implies moved(u, w) by { assert(moved(v, w)); lemma_moved_trans(u, v, w); }
    assert forall|w: Seq<Element>| #![trigger roomy(w)] slid(v, w, h) implies roomy(w) by { assert(moved(v, w)); lemma_moved_roomy(v, w); }
    if nodes_kept(u, v) { assert forall|w: Seq<Element>| #![trigger nodes_kept(u, w)] slid(v, w, h) && conn(v[h]) implies nodes_kept(u, w) by { assert forall|k: int| #![trigger u[k]] #![trigger w[k]] 0 <= k < u.len() && !conn(u[k]) implies w[k] == u[k] by { assert(moved1(u[k], v[k])); assert(v[k] == u[k]); } } }
}
// nodes keep their height
pub open spec fn same_y_nodes(v: Seq<Element>, w: Seq<Element>) -> bool { forall|h: int| #![trigger v[h]] #![trigger w[h]] 0 <= h < v.len() && !conn(v[h]) ==> rv(w[h].pos.middle.y) == rv(v[h].pos.middle.y) }
// no node has a negative x coordinate
pub open spec fn nodes_right(v: Seq<Element>) -> bool { forall|h: int| 0 <= h < v.len() && !conn(#[trigger] v[h]) ==> lx(v[h].pos, true) >= 0real }
pub open spec fn sane(b: (Point, Point)) -> bool { rv(b.0.x) <= rv(b.1.x) && rv(b.0.y) <= rv(b.1.y) }
// connectors with one element before and one after them
pub open spec fn straight(g: VisualGraph, s: Seq<NodeHandle>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).idx < g.dag.n() && conn(g.nodes@[s[i].idx as int]) && g.dag.pred(s[i].idx as int).len() == 1 && g.dag.succ(s[i].idx as int).len() == 1 }
pub proof fn lemma_single(d: DAG, x: int) requires d.wf(), 0 <= x < d.n() ensures d.pred(x).len() == 1 ==> d.pred(x)[0].idx < d.n(), d.succ(x).len() == 1 ==> d.succ(x)[0].idx < d.n()
{ let s = d.succ(x); let p = d.pred(x); assert(in_range(d.succ(x), d.n())); assert(in_range(d.pred(x), d.n())); }
pub open spec fn all_sane(s: Seq<(Point, Point)>) -> bool { forall|i: int| 0 <= i < s.len() ==> sane(#[trigger] s[i]) }
pub proof fn lemma_roomy_all(v: Seq<Element>) requires roomy(v) ensures forall|h: int| 0 <= h < v.len() ==> roomy1(#[trigger] v[h].pos) { assert forall|h: int| 0 <= h < v.len() implies roomy1(#[trigger] v[h].pos) by { let e = v[h]; assert(roomy1(e.pos)); } }
// connectors to move up or down
pub open spec fn lifts(g: VisualGraph, s: Seq<(NodeHandle, Point)>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.idx < g.dag.n() && conn(g.nodes@[s[i].0.idx as int]) && rv(s[i].1.x) == 0real }
pub open spec fn neat(g: VisualGraph, e: real) -> bool { g.ok() && roomy(g.nodes@) && ordered(g.nodes@, g.dag.rk(), e) }
pub broadcast proof fn b_less(g: VisualGraph) requires #[trigger] neat(g, vx_v_EPSILON()) ensures neat(g, 0real) { lemma_less_apart(g.nodes@, g.dag.rk(), vx_v_EPSILON(), 0real); }
pub broadcast proof fn b_shift(g: VisualGraph, f: VisualGraph, e: real, x: real) requires #[trigger] neat(g, e), #[trigger] only_moved(g, f), #[trigger] all_shifted(g.nodes@, f.nodes@, x) ensures neat(f, e), same_y(g.nodes@, f.nodes@)
{ lemma_shift_ordered(g.dag, g.nodes@, f.nodes@, x, e); lemma_moved_roomy(g.nodes@, f.nodes@); let v = g.nodes@; let w = f.nodes@; assert forall|h: int| #![trigger v[h]] #![trigger w[h]] 0 <= h < v.len() implies rv(w[h].pos.middle.y) == rv(v[h].pos.middle.y) by { assert(shifted1(v[h], w[h], x)); } }
pub broadcast proof fn b_kept(u: Seq<Element>, v: Seq<Element>, w: Seq<Element>) requires #[trigger] nodes_kept(u, v), #[trigger] nodes_kept(v, w), moved(u, v) ensures nodes_kept(u, w) { assert forall|h: int| #![trigger u[h]] #![trigger w[h]] 0 <= h < u.len() && !conn(u[h]) implies w[h] == u[h] by { assert(moved1(u[h], v[h])); assert(v[h] == u[h]); } }
pub broadcast proof fn b_fixed_y(u: Seq<Element>, v: Seq<Element>, w: Seq<Element>) requires #[trigger] same_y(u, v), #[trigger] nodes_kept(v, w), moved(u, v) ensures same_y_nodes(u, w) { assert forall|h: int| #![trigger u[h]] #![trigger w[h]] 0 <= h < u.len() && !conn(u[h]) implies rv(w[h].pos.middle.y) == rv(u[h].pos.middle.y) by { assert(moved1(u[h], v[h])); assert(rv(v[h].pos.middle.y) == rv(u[h].pos.middle.y)); } }
pub broadcast proof fn b_fixed_x(v: Seq<Element>, w: Seq<Element>) requires not_negative(v), #[trigger] nodes_kept(v, w), moved(v, w) ensures nodes_right(w) { assert forall|h: int| 0 <= h < w.len() && !conn(#[trigger] w[h]) implies lx(w[h].pos, true) >= 0real by { assert(moved1(v[h], w[h])); assert(w[h] == v[h]); } }
@end
@fn compute_bounds_for_node float inf="cx(vg.nodes@[node.idx as int].pos)"
ret r
requires neat(*vg, 0real), node.idx < vg.nodes.len(),
ensures forall|l: int, i: int| #![trigger is_pos(vg.dag.rk(), l, i)] is_pos(vg.dag.rk(), l, i) && vg.dag.rk()[l][i] == node ==> limits(vg.nodes@, vg.dag.rk()[l], i, r),
@start
let ghost r = vg.dag.rk(); let ghost l0 = rank_of(r, node); let ghost i0 = first(r[l0], node);
proof {
    lemma_on_rank(r, vg.dag.n(), node); lemma_contains_on(r, l0, node); lemma_first_exists(r[l0], node);
    lemma_neighbours(vg.dag, vg.nodes@, l0, i0, 0real); assert(roomy1(vg.nodes@[node.idx as int].pos));
    assert forall|l: int, i: int| #![trigger r[l][i]] #![trigger is_pos(r, l, i)] is_pos(r, l, i) && r[l][i] == node implies l == l0 && i == i0 by { lemma_once(vg.dag, l, i, l0, i0); }
}
@fn handle_disconnected_nodes float
ret c
requires neat(*old(vg), vx_v_EPSILON()), old(vg).dag.n() <= 0x4000_0000,
ensures c <= old(vg).dag.n(), neat(*final(vg), vx_v_EPSILON()), only_moved(*old(vg), *final(vg)), same_y(old(vg).nodes@, final(vg).nodes@),
@start
let ghost g = *vg; let ghost r = vg.dag.rk();
proof { lemma_count(r, g.dag.n() as int); assert(r.take(r.len() as int) =~= r); }
@loop 1
invariant g == *old(vg), r == g.dag.rk(), g.dag.n() <= 0x4000_0000, rsum(r) == g.dag.n(), neat(*vg, vx_v_EPSILON()), only_moved(g, *vg), same_y(g.nodes@, vg.nodes@), vx_e1 == r.len(), cnt <= rsum(r.take(vx_i1 as int)),
@loopstart 1
proof { lemma_rsum_take(r, row_idx as int); lemma_rsum_le(r, vx_i1 as int); }
@loop 2
invariant g == *old(vg), r == g.dag.rk(), g.dag.n() <= 0x4000_0000, rsum(r.take(row_idx + 1)) <= g.dag.n(), rsum(r.take(row_idx + 1)) == rsum(r.take(row_idx as int)) + r[row_idx as int].len(), neat(*vg, vx_v_EPSILON()), only_moved(g, *vg), same_y(g.nodes@, vg.nodes@), row_idx < r.len(), vx_s2@ == r[row_idx as int], cnt <= rsum(r.take(row_idx as int)) + vx_i2,
@loopstart 2
proof {
    let w = vg.nodes@; let i = vx_i2 - 1; let l = row_idx as int;
    assert(is_pos(r, l, i)); assert(r[l][i] == *elem); lemma_neighbours(vg.dag, w, l, i, vx_v_EPSILON()); lemma_less_apart(w, r, vx_v_EPSILON(), 0real); lemma_slid(vg.dag, g.nodes@, w, l, i, vx_v_EPSILON());
}
@fn align_self_edges float
ret c
requires neat(*old(vg), 0real), old(vg).dag.n() <= 0x4000_0000,
ensures c <= old(vg).dag.n(), neat(*final(vg), 0real), only_moved(*old(vg), *final(vg)), same_y(old(vg).nodes@, final(vg).nodes@), nodes_kept(old(vg).nodes@, final(vg).nodes@),
@start
let ghost g = *vg; let ghost r = vg.dag.rk();
proof { lemma_count(r, g.dag.n() as int); assert(r.take(r.len() as int) =~= r); }
@loop 1
invariant g == *old(vg), r == g.dag.rk(), g.dag.n() <= 0x4000_0000, rsum(r) == g.dag.n(), neat(*vg, 0real), only_moved(g, *vg), same_y(g.nodes@, vg.nodes@), nodes_kept(g.nodes@, vg.nodes@), vx_e1 == r.len(), cnt <= rsum(r.take(vx_i1 as int)),
@loopstart 1
proof { lemma_rsum_take(r, row_idx as int); lemma_rsum_le(r, vx_i1 as int); }
@loop 2
invariant g == *old(vg), r == g.dag.rk(), g.dag.n() <= 0x4000_0000, rsum(r.take(row_idx + 1)) <= g.dag.n(), rsum(r.take(row_idx + 1)) == rsum(r.take(row_idx as int)) + r[row_idx as int].len(), neat(*vg, 0real), only_moved(g, *vg), same_y(g.nodes@, vg.nodes@), nodes_kept(g.nodes@, vg.nodes@), row_idx < r.len(), vx_s2@ == r[row_idx as int], row@ == r[row_idx as int], cnt <= rsum(r.take(row_idx as int)) + vx_i2,
@loopstart 2
let ghost w = vg.nodes@;
proof {
    let l = row_idx as int; let k = i as int;
    assert(is_pos(r, l, k)); assert(r[l][k] == *curr); lemma_neighbours(vg.dag, w, l, k, 0real); lemma_slid(vg.dag, g.nodes@, w, l, k, 0real);
}
@loop 3
invariant vg.nodes@ == w, row@ == r[row_idx as int], found_before ==> i > 0, found_after ==> i + 1 < row.len(),
@fn straighten_edge float loop_isolation
requires neat(*old(vg), 0real), old(vg).dag.n() <= 0x4000_0000, old(vg).dag.rk().len() >= 1,
ensures neat(*final(vg), 0real), only_moved(*old(vg), *final(vg)), same_y(old(vg).nodes@, final(vg).nodes@), nodes_kept(old(vg).nodes@, final(vg).nodes@),
@start
let ghost g = *vg; let ghost r = vg.dag.rk();
proof { lemma_count(r, g.dag.n() as int); assert(r.take(r.len() as int) =~= r); }
@loop 1 noauto
invariant 1 <= vx_i1, g == *old(vg), r == g.dag.rk(), *vg == g, neat(g, 0real), straight(g, to_straighten@), vx_e1 == r.len() - 1, cnt == 0,
@loop 2
invariant g == *old(vg), r == g.dag.rk(), *vg == g, neat(g, 0real), straight(g, to_straighten@), row_idx < r.len(), row@ == r[row_idx as int], vx_s2@ == row@, cnt == 0,
@loopstart 2
proof { let l = row_idx as int; let k = vx_i2 - 1; assert(is_pos(r, l, k)); assert(r[l][k] == *elem); lemma_neighbours(g.dag, g.nodes@, l, k, 0real); lemma_single(g.dag, elem.idx as int); }
@loop 3
invariant g == *old(vg), r == g.dag.rk(), *vg == g, neat(g, 0real), straight(g, to_straighten@), row_idx < r.len(), row@ == r[row_idx as int], vx_s3@ == row@, cnt == 0,
@loopstart 3
proof { let l = row_idx as int; let k = vx_i3 - 1; assert(is_pos(r, l, k)); assert(r[l][k] == *elem); lemma_neighbours(g.dag, g.nodes@, l, k, 0real); assert(roomy1(g.nodes@[elem.idx as int].pos)); }
@loop 4 kind=vecown
invariant g == *old(vg), r == g.dag.rk(), neat(*vg, 0real), only_moved(g, *vg), same_y(g.nodes@, vg.nodes@), nodes_kept(g.nodes@, vg.nodes@), straight(g, vx_a4), cnt <= vx_i4,
@loopstart 4
proof {
    assert(elem == vx_a4[vx_i4 - 1]); lemma_single(g.dag, elem.idx as int); lemma_on_rank(r, g.dag.n() as int, elem); let l = rank_of(r, elem); lemma_first_exists(r[l], elem); let i = first(r[l], elem);
    assert(is_pos(r, l, i)); lemma_neighbours(vg.dag, vg.nodes@, l, i, 0real); lemma_slid(vg.dag, g.nodes@, vg.nodes@, l, i, 0real); assert(moved1(g.nodes@[elem.idx as int], vg.nodes@[elem.idx as int]));
}
@fn is_intersecting_any
requires all_sane(rects@),
@loop 1
invariant all_sane(rects@),
@loop 2
invariant vx_s2 == rects, all_sane(rects@),
@loopstart 2
proof { assert(sane(rects@[vx_i2 - 1])); }
@fn adjust_crossing_edges float loop_isolation
requires neat(*old(vg), 0real), old(vg).dag.n() <= 0x4000_0000,
ensures neat(*final(vg), 0real), only_moved(*old(vg), *final(vg)), nodes_kept(old(vg).nodes@, final(vg).nodes@),
@start
let ghost g = *vg; let ghost r = vg.dag.rk();
@loop 1
invariant g == *old(vg), r == g.dag.rk(), *vg == g, neat(g, 0real), len == r.len(), lifts(g, to_move@), forall|k: int| 0 <= k < offsets.len() ==> rv((#[trigger] offsets@[k]).x) == 0real,
@loop 2 isolated
invariant g == *old(vg), r == g.dag.rk(), *vg == g, neat(g, 0real), len == r.len(), lifts(g, to_move@), forall|k: int| 0 <= k < offsets.len() ==> rv((#[trigger] offsets@[k]).x) == 0real, row_idx < r.len(), row@ == r[row_idx as int], in_range(all@, g.dag.n()), row_idx > 0, vx_s2@ == r[row_idx - 1],
@loopstart 2
proof { lemma_row_in(g.dag, row_idx - 1); assert(r[row_idx - 1][vx_i2 - 1] == *elem); }
@loop 3 isolated
invariant g == *old(vg), r == g.dag.rk(), *vg == g, neat(g, 0real), len == r.len(), lifts(g, to_move@), forall|k: int| 0 <= k < offsets.len() ==> rv((#[trigger] offsets@[k]).x) == 0real, row_idx < r.len(), row@ == r[row_idx as int], in_range(all@, g.dag.n()), row_idx + 1 < r.len(), vx_s3@ == r[row_idx + 1],
@loopstart 3
proof { lemma_row_in(g.dag, row_idx + 1); assert(r[row_idx + 1][vx_i3 - 1] == *elem); }
@loop 4
invariant g == *old(vg), r == g.dag.rk(), *vg == g, neat(g, 0real), len == r.len(), lifts(g, to_move@), forall|k: int| 0 <= k < offsets.len() ==> rv((#[trigger] offsets@[k]).x) == 0real, row_idx < r.len(), row@ == r[row_idx as int], in_range(all@, g.dag.n()), vx_e4 == row.len(),
@loopstart 4
proof { let l = row_idx as int; let k = i as int; assert(is_pos(r, l, k)); lemma_neighbours(g.dag, g.nodes@, l, k, 0real); lemma_single(g.dag, r[l][k].idx as int); lemma_roomy_all(g.nodes@); }
@loop 5 isolated
invariant g == *old(vg), r == g.dag.rk(), *vg == g, neat(g, 0real), len == r.len(), lifts(g, to_move@), forall|k: int| 0 <= k < offsets.len() ==> rv((#[trigger] offsets@[k]).x) == 0real, row_idx < r.len(), row@ == r[row_idx as int], in_range(all@, g.dag.n()), i < row.len(), all_sane(pos_all@), all_sane(bounds@), pred.idx < g.dag.n(), succ.idx < g.dag.n(), curr == row@[i as int], vx_s5@ == all@,
@loopstart 5
proof { assert(all@[vx_i5 - 1] == *e); lemma_roomy_all(g.nodes@); }
@loop 6 kind=vecval
invariant g == *old(vg), r == g.dag.rk(), *vg == g, neat(g, 0real), len == r.len(), lifts(g, to_move@), forall|k: int| 0 <= k < offsets.len() ==> rv((#[trigger] offsets@[k]).x) == 0real, row_idx < r.len(), row@ == r[row_idx as int], i < row.len(), all_sane(pos_all@), curr.idx < g.dag.n(), conn(g.nodes@[curr.idx as int]), vx_s6@ == offsets@, vx_e6 == offsets.len(),
@loop 7 kind=vecown isolated
invariant g == *old(vg), r == g.dag.rk(), neat(*vg, 0real), only_moved(g, *vg), nodes_kept(g.nodes@, vg.nodes@), lifts(g, vx_a7), cnt <= vx_i7,
@loopstart 7
proof {
    assert(elem == vx_a7[vx_i7 - 1]); let h = elem.0; lemma_on_rank(r, g.dag.n() as int, h); let l = rank_of(r, h); lemma_first_exists(r[l], h); let k = first(r[l], h);
    assert(is_pos(r, l, k)); lemma_neighbours(vg.dag, vg.nodes@, l, k, 0real); lemma_slid(vg.dag, g.nodes@, vg.nodes@, l, k, 0real); assert(moved1(g.nodes@[h.idx as int], vg.nodes@[h.idx as int]));
}
@fn do_it
requires neat(*old(vg), vx_v_EPSILON()), old(vg).dag.n() <= 0x4000_0000, old(vg).dag.rk().len() >= 1,
ensures neat(*final(vg), 0real), only_moved(*old(vg), *final(vg)), same_y_nodes(old(vg).nodes@, final(vg).nodes@), nodes_right(final(vg).nodes@),
@start
broadcast use {b_less, b_shift, b_moved, b_same_y, b_kept, b_fixed_y, b_fixed_x};
