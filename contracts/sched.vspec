@module sched
@use base text dag reach dagcheck types geom orient graph elem pred simple align
@file topo/placer/bk.rs
@struct Scheduler
@code
broadcast use ax_fr;
use crate::dag::in_range;
use crate::simple::EPSILON;
// ---- distances, read from the left or from the right ----
pub open spec fn sg(lr: bool, x: real) -> real { if lr { x } else { 0real - x } }
pub open spec fn front(p: Position, lr: bool) -> real { if lr { cx(p) - lx(p, true) } else { rx(p, true) - cx(p) } }
pub open spec fn back(p: Position, lr: bool) -> real { front(p, !lr) }
// ---- the verticals ----
pub open spec fn lev(r: Rk, h: NodeHandle) -> int { rank_of(r, h) }
pub open spec fn stepped(r: Rk, v: Seq<NodeHandle>) -> bool { forall|j: int, k: int| 0 <= j < v.len() && 0 <= k < v.len() ==> lev(r, #[trigger] v[k]) + k == lev(r, #[trigger] v[j]) + j }
pub open spec fn climbing(a: Ab, vs: Rk) -> bool { forall|q: int, k: int| is_pos(vs, q, k) && k > 0 ==> a[at(vs, q, k - 1).idx as int] == Some(#[trigger] at(vs, q, k)) }
pub open spec fn all_filled(vs: Rk) -> bool { forall|q: int| 0 <= q < vs.len() ==> (#[trigger] vs[q]).len() > 0 }
// the verticals of an alignment
pub open spec fn blocks(d: DAG, vs: Rk, a: Ab) -> bool { alignment(d, d.rk(), a) && ranks_wf(vs, d.n()) && all_filled(vs) && climbing(a, vs) }
pub open spec fn blocks_of(d: DAG, vs: Rk) -> bool { exists|a: Ab| #[trigger] blocks(d, vs, a) }
pub proof fn lemma_blocks(d: DAG, vs: Rk, a: Ab, b: Ab) requires alignment(d, d.rk(), a), verticals(a, b, vs), ranks_wf(vs, d.n()) ensures blocks_of(d, vs)
{
    assert forall|q: int| 0 <= q < vs.len() implies (#[trigger] vs[q]).len() > 0 by { assert(vertical(a, b, vs[q])); }
    assert forall|q: int, k: int| is_pos(vs, q, k) && k > 0 implies a[at(vs, q, k - 1).idx as int] == Some(#[trigger] at(vs, q, k)) by { assert(vertical(a, b, vs[q])); assert(a[vs[q][k - 1].idx as int] == Some(vs[q][k])); }
    assert(blocks(d, vs, a));
}
// two nodes that follow each other in a vertical are joined
pub proof fn lemma_block_join(d: DAG, vs: Rk, a: Ab, q: int, k: int) -> (t: (int, int, int))
    requires d.wf(), blocks(d, vs, a), is_pos(vs, q, k), k > 0,
    ensures joined(d.rk(), a, t.0, t.1, t.2), at(d.rk(), t.0, t.1) == at(vs, q, k), at(d.rk(), t.0 + 1, t.2) == at(vs, q, k - 1), lev(d.rk(), at(vs, q, k)) == t.0, lev(d.rk(), at(vs, q, k - 1)) == t.0 + 1,
{
    let r = d.rk(); let x = at(vs, q, k - 1); let y = at(vs, q, k);
    assert(x.idx < d.n()) by { reveal(ranks_wf); assert(is_pos(vs, q, k - 1)); }
    assert(a[x.idx as int] == Some(y)); assert(tied(d, r, a, x.idx as int));
    let (l, i, j) = choose|l: int, i: int, j: int| #[trigger] joined(r, a, l, i, j) && at(r, l + 1, j).idx == x.idx && d.edge(at(r, l, i).idx as int, x.idx as int);
    assert(at(r, l + 1, j) == x); assert(at(r, l, i) == y);
    assert(r[l + 1][j] == x && r[l][i] == y);
    lemma_rank_of(r, d.n(), x, l + 1); lemma_rank_of(r, d.n(), y, l);
    (l, i, j)
}
pub proof fn lemma_stepped1(d: DAG, vs: Rk, a: Ab, q: int, k: int) requires d.wf(), blocks(d, vs, a), is_pos(vs, q, k) ensures lev(d.rk(), vs[q][k]) + k == lev(d.rk(), vs[q][0]) decreases k
{ if k > 0 { let t = lemma_block_join(d, vs, a, q, k); assert(at(vs, q, k) == vs[q][k] && at(vs, q, k - 1) == vs[q][k - 1]); lemma_stepped1(d, vs, a, q, k - 1); } }
pub proof fn lemma_stepped(d: DAG, vs: Rk, a: Ab, q: int) requires d.wf(), blocks(d, vs, a), 0 <= q < vs.len() ensures stepped(d.rk(), vs[q]), in_range(vs[q], d.n()), forall|k: int| 0 <= k < vs[q].len() ==> 0 <= lev(d.rk(), #[trigger] vs[q][k]) < d.rk().len() && d.rk()[lev(d.rk(), vs[q][k])].contains(vs[q][k])
{
    let r = d.rk(); let v = vs[q];
    assert forall|k: int| 0 <= k < v.len() implies (#[trigger] v[k]).idx < d.n() by { assert(is_pos(vs, q, k)); assert(at(vs, q, k) == v[k]); reveal(ranks_wf); }
    assert forall|j: int, k: int| 0 <= j < v.len() && 0 <= k < v.len() implies lev(r, #[trigger] v[k]) + k == lev(r, #[trigger] v[j]) + j by { lemma_stepped1(d, vs, a, q, j); lemma_stepped1(d, vs, a, q, k); }
    assert forall|k: int| 0 <= k < v.len() implies 0 <= lev(r, #[trigger] v[k]) < r.len() && r[lev(r, v[k])].contains(v[k]) by { assert(v[k].idx < d.n()); lemma_on_rank(r, d.n(), v[k]); }
}
// ---- the state of the schedule; o: the rows in the order of the schedule ----
// in every row the first s[l] nodes are placed, and the verticals that are left hold exactly the other nodes
#[verifier::opaque]
pub open spec fn state(o: Rk, s: Seq<usize>, vs0: Rk, vs: Rk) -> bool {
    &&& s.len() == o.len() && vs.len() == vs0.len()
    &&& forall|l: int| 0 <= l < o.len() ==> (#[trigger] s[l]) <= o[l].len()
    &&& forall|q: int| 0 <= q < vs.len() ==> (#[trigger] vs[q]) == vs0[q] || vs[q].len() == 0
    &&& forall|l: int, i: int, q: int, k: int| is_pos(o, l, i) && is_pos(vs0, q, k) && #[trigger] at(o, l, i) == #[trigger] at(vs0, q, k) ==> (i < s[l]) == (vs[q].len() == 0)
}
// h is the next node of its row
pub open spec fn is_next(o: Rk, s: Seq<usize>, l: int, h: NodeHandle) -> bool { s[l] < o[l].len() && o[l][s[l] as int] == h }
pub open spec fn ready(r: Rk, o: Rk, s: Seq<usize>, v: Seq<NodeHandle>) -> bool { v.len() > 0 && forall|k: int| 0 <= k < v.len() ==> is_next(o, s, lev(r, #[trigger] v[k]), v[k]) }
pub open spec fn on_row(r: Rk, v: Seq<NodeHandle>, l: int, k: int) -> bool { exists|j: int| 0 <= j < k && lev(r, #[trigger] v[j]) == l }
// one more node is placed on every row the first k nodes of the vertical are on
pub open spec fn advanced(r: Rk, v: Seq<NodeHandle>, s: Seq<usize>, t: Seq<usize>, k: int) -> bool { t.len() == s.len() && forall|l: int| 0 <= l < s.len() ==> (#[trigger] t[l]) == s[l] + (if on_row(r, v, l, k) { 1int } else { 0 }) }
// how many verticals are left
pub open spec fn live(vs: Rk) -> nat decreases vs.len() { if vs.len() == 0 { 0 } else { live(vs.drop_last()) + (if vs.last().len() > 0 { 1nat } else { 0 }) } }
pub proof fn lemma_live_all(vs: Rk) requires all_filled(vs) ensures live(vs) == vs.len() decreases vs.len()
{ if vs.len() > 0 { assert forall|q: int| 0 <= q < vs.len() - 1 implies (#[trigger] vs.drop_last()[q]).len() > 0 by { assert(vs[q].len() > 0); } lemma_live_all(vs.drop_last()); assert(vs[vs.len() - 1].len() > 0); } }
pub proof fn lemma_live_some(vs: Rk) -> (q: int) requires live(vs) > 0 ensures 0 <= q < vs.len(), vs[q].len() > 0 decreases vs.len()
{ if vs.last().len() > 0 { vs.len() - 1 } else { let q = lemma_live_some(vs.drop_last()); assert(vs.drop_last()[q] == vs[q]); q } }
pub proof fn lemma_live_none(vs: Rk, q: int) requires live(vs) == 0, 0 <= q < vs.len() ensures vs[q].len() == 0 decreases vs.len()
{ if q < vs.len() - 1 { lemma_live_none(vs.drop_last(), q); assert(vs.drop_last()[q] == vs[q]); } }
pub proof fn lemma_live_clear(vs: Rk, q: int) requires 0 <= q < vs.len(), vs[q].len() > 0 ensures live(vs.update(q, Seq::empty())) + 1 == live(vs), live(vs) <= vs.len() decreases vs.len()
{
    let ws = vs.update(q, Seq::empty());
    if q < vs.len() - 1 { assert(vs.drop_last()[q] == vs[q]); assert(ws.drop_last() =~= vs.drop_last().update(q, Seq::empty())); lemma_live_clear(vs.drop_last(), q); } else { assert(ws.drop_last() =~= vs.drop_last()); lemma_live_le(vs.drop_last()); }
}
pub proof fn lemma_live_le(vs: Rk) ensures live(vs) <= vs.len() decreases vs.len() { if vs.len() > 0 { lemma_live_le(vs.drop_last()); } }
// where a node stands in the ordered rows
pub proof fn lemma_find(o: Rk, n: int, h: NodeHandle) -> (t: (int, int)) requires ranks_wf(o, n), h.idx < n ensures is_pos(o, t.0, t.1), at(o, t.0, t.1) == h
{ reveal(ranks_wf); assert(on_rank(o, h)); choose|l: int, i: int| is_pos(o, l, i) && at(o, l, i) == h }
pub proof fn lemma_same_spot(o: Rk, n: int, l: int, i: int, m: int, j: int) requires ranks_wf(o, n), is_pos(o, l, i), is_pos(o, m, j), o[l][i] == o[m][j] ensures l == m, i == j { reveal(ranks_wf); assert(at(o, l, i) == at(o, m, j)); }
pub proof fn lemma_spot_in(o: Rk, n: int, l: int, i: int) requires ranks_wf(o, n), is_pos(o, l, i) ensures o[l][i].idx < n { reveal(ranks_wf); assert(at(o, l, i).idx < n); }
pub proof fn lemma_state0(o: Rk, s: Seq<usize>, vs: Rk) requires s.len() == o.len(), all_filled(vs), forall|l: int| 0 <= l < s.len() ==> (#[trigger] s[l]) == 0 ensures state(o, s, vs, vs) { reveal(state); assert forall|l: int, i: int, q: int, k: int| is_pos(o, l, i) && is_pos(vs, q, k) && #[trigger] at(o, l, i) == #[trigger] at(vs, q, k) implies (i < s[l]) == (vs[q].len() == 0) by { assert(s[l] == 0); } }
pub proof fn lemma_state_at(o: Rk, s: Seq<usize>, vs0: Rk, vs: Rk, l: int, i: int, q: int, k: int) requires state(o, s, vs0, vs), is_pos(o, l, i), is_pos(vs0, q, k), o[l][i] == vs0[q][k] ensures (i < s[l]) == (vs[q].len() == 0), vs[q].len() > 0 ==> vs[q] == vs0[q] { reveal(state); assert(at(o, l, i) == at(vs0, q, k)); assert(vs[q] == vs0[q] || vs[q].len() == 0); }
// the level of a node is its row, in either order of the rows
pub open spec fn ordered_rows(d: DAG, o: Rk, lr: bool) -> bool { d.wf() && o == lined(d.rk(), lr) && ranks_wf(o, d.n()) && o.len() == d.rk().len() }
pub proof fn lemma_lev(d: DAG, o: Rk, lr: bool, l: int, i: int) requires ordered_rows(d, o, lr), is_pos(o, l, i) ensures lev(d.rk(), o[l][i]) == l, o[l][i].idx < d.n(), o[l].len() == d.rk()[l].len()
{
    lemma_spot_in(o, d.n(), l, i); let r = d.rk(); let h = o[l][i];
    if lr { assert(r[l][i] == h); } else { assert(r[l][r[l].len() - 1 - i] == h); }
    assert(r[l].contains(h)); lemma_rank_of(r, d.n(), h, l);
}
// placing a ready vertical
pub proof fn lemma_place(d: DAG, o: Rk, lr: bool, s: Seq<usize>, t: Seq<usize>, vs0: Rk, vs: Rk, a: Ab, q: int)
    requires ordered_rows(d, o, lr), blocks(d, vs0, a), state(o, s, vs0, vs), 0 <= q < vs.len(), ready(d.rk(), o, s, vs[q]), advanced(d.rk(), vs[q], s, t, vs[q].len() as int),
    ensures state(o, t, vs0, vs.update(q, Seq::empty())), forall|p: int| 0 <= p < vs.len() && p != q && ready(d.rk(), o, s, #[trigger] vs[p]) ==> ready(d.rk(), o, t, vs[p]),
{
    let r = d.rk(); let v = vs[q]; let ws = vs.update(q, Seq::empty()); let n = d.n();
    assert(v == vs0[q] && s.len() == o.len() && vs.len() == vs0.len()) by { reveal(state); }
    assert forall|l: int| 0 <= l < o.len() && on_row(r, v, l, v.len() as int) implies s[l] < o[l].len() && exists|k: int| 0 <= k < v.len() && #[trigger] v[k] == o[l][s[l] as int] by {
        let k = choose|k: int| 0 <= k < v.len() && lev(r, #[trigger] v[k]) == l; assert(is_next(o, s, lev(r, v[k]), v[k])); }
    assert forall|l: int| 0 <= l < o.len() implies (#[trigger] t[l]) <= o[l].len() by { reveal(state); assert(s[l] <= o[l].len()); }
    assert forall|p: int| 0 <= p < ws.len() implies (#[trigger] ws[p]) == vs0[p] || ws[p].len() == 0 by { reveal(state); assert(vs[p] == vs0[p] || vs[p].len() == 0); }
    assert forall|l: int, i: int, p: int, k: int| is_pos(o, l, i) && is_pos(vs0, p, k) && #[trigger] at(o, l, i) == #[trigger] at(vs0, p, k) implies (i < t[l]) == (ws[p].len() == 0) by {
        lemma_state_at(o, s, vs0, vs, l, i, p, k); lemma_lev(d, o, lr, l, i);
        if p == q { assert(v[k] == o[l][i]); assert(is_next(o, s, lev(r, v[k]), v[k])); lemma_same_spot(o, n, l, i, l, s[l] as int); assert(on_row(r, v, l, v.len() as int)); }
        else if on_row(r, v, l, v.len() as int) { let k2 = choose|k2: int| 0 <= k2 < v.len() && #[trigger] v[k2] == o[l][s[l] as int]; if i == s[l] { assert(vs0[q][k2] == vs0[p][k]); lemma_same_spot(vs0, n, q, k2, p, k); } }
    }
    assert(state(o, t, vs0, ws)) by { reveal(state); }
    assert forall|p: int| 0 <= p < vs.len() && p != q && ready(r, o, s, #[trigger] vs[p]) implies ready(r, o, t, vs[p]) by {
        let w = vs[p]; assert(w == vs0[p]) by { reveal(state); }
        assert forall|k: int| 0 <= k < w.len() implies is_next(o, t, lev(r, #[trigger] w[k]), w[k]) by {
            lemma_stepped(d, vs0, a, p); let l = lev(r, w[k]); assert(is_next(o, s, l, w[k]));
            if on_row(r, v, l, v.len() as int) { let k2 = choose|k2: int| 0 <= k2 < v.len() && #[trigger] v[k2] == o[l][s[l] as int]; assert(vs0[q][k2] == vs0[p][k]); lemma_same_spot(vs0, n, q, k2, p, k); }
        }
    }
}
// all nodes of the vertical on the rows up to m are next, and there is one
pub open spec fn starts(r: Rk, o: Rk, s: Seq<usize>, v: Seq<NodeHandle>, m: int) -> bool { (exists|k: int| 0 <= k < v.len() && lev(r, #[trigger] v[k]) <= m) && forall|k: int| 0 <= k < v.len() && lev(r, #[trigger] v[k]) <= m ==> is_next(o, s, lev(r, v[k]), v[k]) }
// the vertical that holds the next node of a row
pub proof fn lemma_holder(d: DAG, o: Rk, lr: bool, s: Seq<usize>, vs0: Rk, vs: Rk, l: int, i: int) -> (t: (int, int))
    requires ordered_rows(d, o, lr), ranks_wf(vs0, d.n()), state(o, s, vs0, vs), is_pos(o, l, i), i >= s[l], ensures is_pos(vs0, t.0, t.1), vs0[t.0][t.1] == o[l][i], vs[t.0] == vs0[t.0], 0 <= t.0 < vs.len(),
{
    lemma_lev(d, o, lr, l, i); let t = lemma_find(vs0, d.n(), o[l][i]); lemma_state_at(o, s, vs0, vs, l, i, t.0, t.1); assert(vs.len() == vs0.len()) by { reveal(state); } t
}
// node k of vertical q is on row m but not the next there, and the nodes of q further up are next: the vertical of the next node of row m ends there
pub proof fn lemma_before(d: DAG, o: Rk, lr: bool, s: Seq<usize>, vs0: Rk, vs: Rk, a: Ab, m: int, q: int, k: int, ka: int) -> (t: (int, int))
    requires ordered_rows(d, o, lr), blocks(d, vs0, a), state(o, s, vs0, vs), 0 < m < o.len(), 0 <= q < vs.len(), vs[q] == vs0[q], starts(d.rk(), o, s, vs[q], m - 1), 0 <= k < vs[q].len(), lev(d.rk(), vs[q][k]) == m, !is_next(o, s, m, vs[q][k]),
        0 <= ka < vs[q].len(), lev(d.rk(), vs[q][ka]) <= m - 1,
    ensures 0 <= t.0 < vs.len(), vs[t.0] == vs0[t.0], t.1 == vs[t.0].len() - 1, t.1 >= 0, lev(d.rk(), vs[t.0][t.1]) == m, is_next(o, s, m, vs[t.0][t.1]),
{
    let r = d.rk(); let n = d.n(); let v = vs[q]; assert(vs.len() == vs0.len()) by { reveal(state); } lemma_stepped(d, vs0, a, q);
    assert(lev(r, v[ka]) + ka == lev(r, v[k]) + k); assert(k < ka); let y = v[k]; let u = v[k + 1]; assert(lev(r, v[k + 1]) + (k + 1) == lev(r, v[k]) + k); assert(lev(r, u) == m - 1); assert(is_next(o, s, lev(r, v[k + 1]), v[k + 1]));
    let (l2, iy) = lemma_find(o, n, y); lemma_lev(d, o, lr, l2, iy); assert(l2 == m); lemma_state_at(o, s, vs0, vs, m, iy, q, k); assert(iy >= s[m]);
    let (q2, kz) = lemma_holder(d, o, lr, s, vs0, vs, m, s[m] as int); let v2 = vs[q2]; lemma_lev(d, o, lr, m, s[m] as int); lemma_stepped(d, vs0, a, q2); assert(v2[kz] == o[m][s[m] as int]); assert(iy > s[m]);
    if kz + 1 < v2.len() {
        let w = v2[kz + 1]; assert(lev(r, v2[kz + 1]) + (kz + 1) == lev(r, v2[kz]) + kz); assert(lev(r, w) == m - 1);
        let (l3, iw) = lemma_find(o, n, w); lemma_lev(d, o, lr, l3, iw); assert(l3 == m - 1); lemma_state_at(o, s, vs0, vs, m - 1, iw, q2, kz + 1); assert(iw >= s[m - 1]);
        lemma_no_swap(d, o, lr, vs0, a, q, k, q2, kz, m - 1, s[m - 1] as int, iy, iw, s[m] as int);
    }
    (q2, kz)
}
pub proof fn lemma_no_swap(d: DAG, o: Rk, lr: bool, vs0: Rk, a: Ab, q: int, k: int, q2: int, k2: int, l: int, i1: int, j1: int, i2: int, j2: int)
    requires ordered_rows(d, o, lr), blocks(d, vs0, a), is_pos(vs0, q, k + 1), is_pos(vs0, q2, k2 + 1), k >= 0, k2 >= 0, is_pos(o, l, i1), is_pos(o, l + 1, j1), is_pos(o, l, i2), is_pos(o, l + 1, j2),
        vs0[q][k] == o[l + 1][j1], vs0[q][k + 1] == o[l][i1], vs0[q2][k2] == o[l + 1][j2], vs0[q2][k2 + 1] == o[l][i2], j2 < j1, ensures i2 < i1,
{
    lemma_alignment_back(d, a, lr);
    assert(a[at(vs0, q, k).idx as int] == Some(at(vs0, q, k + 1))); assert(a[at(vs0, q2, k2).idx as int] == Some(at(vs0, q2, k2 + 1)));
    assert(joined(o, a, l, i1, j1)); assert(joined(o, a, l, i2, j2));
    reveal(no_cross);
}
pub proof fn lemma_progress(d: DAG, o: Rk, lr: bool, s: Seq<usize>, vs0: Rk, vs: Rk, a: Ab, m: int, l0: int) -> (q: int)
    requires ordered_rows(d, o, lr), blocks(d, vs0, a), state(o, s, vs0, vs), 0 <= l0 <= m < o.len(), s[l0] < o[l0].len(),
    ensures 0 <= q < vs.len(), vs[q] == vs0[q], starts(d.rk(), o, s, vs[q], m),
    decreases m
{
    let r = d.rk(); let n = d.n(); assert(vs.len() == vs0.len()) by { reveal(state); }
    if forall|l: int| 0 <= l < m ==> (#[trigger] s[l]) >= o[l].len() {
        assert(l0 == m) by { if l0 < m { assert(s[l0] >= o[l0].len()); } }
        let (q, k0) = lemma_holder(d, o, lr, s, vs0, vs, m, s[m] as int); let v = vs[q]; lemma_lev(d, o, lr, m, s[m] as int); assert(v[k0] == o[m][s[m] as int]);
        assert forall|k: int| 0 <= k < v.len() && lev(r, #[trigger] v[k]) <= m implies is_next(o, s, lev(r, v[k]), v[k]) by {
            lemma_stepped(d, vs0, a, q); let l = lev(r, v[k]);
            let (l2, i2) = lemma_find(o, n, v[k]); lemma_lev(d, o, lr, l2, i2); lemma_state_at(o, s, vs0, vs, l2, i2, q, k);
            if l < m { assert(s[l] >= o[l].len()); assert(false); } else { assert(lev(r, v[k]) + k == lev(r, v[k0]) + k0); }
        }
        assert(lev(r, v[k0]) <= m);
        q
    } else {
        let l1 = choose|l: int| 0 <= l < m && (#[trigger] s[l]) < o[l].len();
        let q = lemma_progress(d, o, lr, s, vs0, vs, a, m - 1, l1); let v = vs[q]; lemma_stepped(d, vs0, a, q);
        let ka = choose|k: int| 0 <= k < v.len() && lev(r, #[trigger] v[k]) <= m - 1;
        if exists|k: int| 0 <= k < v.len() && lev(r, #[trigger] v[k]) == m && !is_next(o, s, m, v[k]) {
            let k = choose|k: int| 0 <= k < v.len() && lev(r, #[trigger] v[k]) == m && !is_next(o, s, m, v[k]);
            let (q2, kz) = lemma_before(d, o, lr, s, vs0, vs, a, m, q, k, ka); let v2 = vs[q2]; lemma_stepped(d, vs0, a, q2);
            // z has nothing above it
            assert forall|k: int| 0 <= k < v2.len() && lev(r, #[trigger] v2[k]) <= m implies is_next(o, s, lev(r, v2[k]), v2[k]) by { assert(lev(r, v2[k]) + k == lev(r, v2[kz]) + kz); assert(k == kz); }
            assert(lev(r, v2[kz]) <= m);
            q2
        } else {
            assert forall|k: int| 0 <= k < v.len() && lev(r, #[trigger] v[k]) <= m implies is_next(o, s, lev(r, v[k]), v[k]) by { if lev(r, v[k]) == m { } }
            assert(lev(r, v[ka]) <= m);
            q
        }
    }
}
// while verticals are left, one of them is ready
pub proof fn lemma_some_ready(d: DAG, o: Rk, lr: bool, s: Seq<usize>, vs0: Rk, vs: Rk, a: Ab) -> (q: int)
    requires ordered_rows(d, o, lr), blocks(d, vs0, a), state(o, s, vs0, vs), live(vs) > 0, ensures 0 <= q < vs.len(), ready(d.rk(), o, s, vs[q]),
{
    let p = lemma_live_some(vs); assert(vs[p] == vs0[p] && s.len() == o.len() && vs.len() == vs0.len()) by { reveal(state); }
    lemma_stepped(d, vs0, a, p); let h = vs0[p][0]; assert(h.idx < d.n()); let (l, i) = lemma_find(o, d.n(), h); lemma_state_at(o, s, vs0, vs, l, i, p, 0); assert(s[l] <= i);
    let q = lemma_progress(d, o, lr, s, vs0, vs, a, o.len() - 1, l); lemma_stepped(d, vs0, a, q); assert(vs0[q].len() > 0);
    assert forall|k: int| 0 <= k < vs[q].len() implies is_next(o, s, lev(d.rk(), #[trigger] vs[q][k]), vs[q][k]) by { assert(lev(d.rk(), vs[q][k]) <= o.len() - 1); }
    q
}
pub proof fn lemma_all_placed(d: DAG, o: Rk, lr: bool, s: Seq<usize>, vs0: Rk, vs: Rk) requires ordered_rows(d, o, lr), ranks_wf(vs0, d.n()), state(o, s, vs0, vs), live(vs) == 0 ensures forall|l: int| 0 <= l < o.len() ==> (#[trigger] s[l]) == o[l].len()
{
    assert forall|l: int| 0 <= l < o.len() implies (#[trigger] s[l]) == o[l].len() by {
        assert(s[l] <= o[l].len()) by { reveal(state); }
        if s[l] < o[l].len() { let (q, k) = lemma_holder(d, o, lr, s, vs0, vs, l, s[l] as int); lemma_live_none(vs, q); }
    }
}
// ---- where the nodes are placed ----
// in every row the placed nodes keep their distance, and the end of the last one is known
pub open spec fn spaced_at(e: Seq<Element>, o: Rk, xs: Seq<Fl>, lr: bool, l: int, i: int) -> bool {
    sg(lr, rv(xs[o[l][i] .idx as int])) - front(el(e, o[l][i]), lr) >= sg(lr, rv(xs[o[l][i - 1].idx as int])) + back(el(e, o[l][i - 1]), lr) + vx_v_EPSILON()
}
#[verifier::opaque]
pub open spec fn spaced(e: Seq<Element>, o: Rk, s: Seq<usize>, xs: Seq<Fl>, last: Seq<Fl>, lr: bool) -> bool {
    &&& last.len() == o.len()
    &&& forall|l: int, i: int| 0 <= l < o.len() && 0 < i < s[l] ==> #[trigger] spaced_at(e, o, xs, lr, l, i)
    &&& forall|l: int| 0 <= l < o.len() && s[l] > 0 ==> sg(lr, rv(#[trigger] last[l])) == sg(lr, rv(xs[o[l][s[l] - 1].idx as int])) + back(el(e, o[l][s[l] - 1]), lr)
}
// the first k nodes of the vertical got the coordinate x
pub open spec fn put(r: Rk, e: Seq<Element>, v: Seq<NodeHandle>, k: int, x: Fl, lr: bool, xs0: Seq<Fl>, xs: Seq<Fl>, last0: Seq<Fl>, last: Seq<Fl>) -> bool {
    &&& xs.len() == xs0.len() && last.len() == last0.len()
    &&& forall|h: int| 0 <= h < xs.len() ==> #[trigger] xs[h] == xs0[h] || exists|j: int| 0 <= j < k && (#[trigger] v[j]).idx == h
    &&& forall|j: int| 0 <= j < k ==> xs[(#[trigger] v[j]).idx as int] == x && sg(lr, rv(last[lev(r, v[j])])) == sg(lr, rv(x)) + back(el(e, v[j]), lr)
    &&& forall|l: int| 0 <= l < last.len() && !on_row(r, v, l, k) ==> #[trigger] last[l] == last0[l]
}
pub open spec fn far_enough(r: Rk, e: Seq<Element>, v: Seq<NodeHandle>, k: int, x: real, lr: bool, last: Seq<Fl>) -> bool { forall|j: int| 0 <= j < k ==> sg(lr, x) >= sg(lr, rv(last[lev(r, #[trigger] v[j])])) + front(el(e, v[j]), lr) + vx_v_EPSILON() }
pub proof fn lemma_spaced(d: DAG, e: Seq<Element>, o: Rk, lr: bool, s: Seq<usize>, t: Seq<usize>, vs0: Rk, a: Ab, q: int, x: Fl, xs0: Seq<Fl>, xs: Seq<Fl>, last0: Seq<Fl>, last: Seq<Fl>)
    requires ordered_rows(d, o, lr), blocks(d, vs0, a), 0 <= q < vs0.len(), ready(d.rk(), o, s, vs0[q]), s.len() == o.len(), advanced(d.rk(), vs0[q], s, t, vs0[q].len() as int), forall|l: int| 0 <= l < o.len() ==> (#[trigger] s[l]) <= o[l].len(),
        spaced(e, o, s, xs0, last0, lr), xs0.len() == d.n(), far_enough(d.rk(), e, vs0[q], vs0[q].len() as int, rv(x), lr, last0), put(d.rk(), e, vs0[q], vs0[q].len() as int, x, lr, xs0, xs, last0, last),
    ensures spaced(e, o, t, xs, last, lr),
{
    let r = d.rk(); let v = vs0[q]; let n = d.n(); let z = v.len() as int;
    lemma_stepped(d, vs0, a, q);
    // the nodes placed before keep their coordinates
    assert forall|l: int, i: int| 0 <= l < o.len() && 0 <= i < s[l] implies xs[(#[trigger] o[l][i]).idx as int] == xs0[o[l][i].idx as int] by {
        assert(s[l] <= o[l].len()); lemma_lev(d, o, lr, l, i); let h = o[l][i].idx as int;
        if xs[h] != xs0[h] { let j = choose|j: int| 0 <= j < z && (#[trigger] v[j]).idx == h; assert(v[j] == o[l][i]); assert(is_next(o, s, lev(r, v[j]), v[j])); lemma_same_spot(o, n, l, i, l, s[l] as int); }
    }
    assert forall|l: int| 0 <= l < o.len() && on_row(r, v, l, z) implies s[l] < o[l].len() && t[l] == s[l] + 1 && xs[o[l][s[l] as int].idx as int] == x && sg(lr, rv(#[trigger] last[l])) == sg(lr, rv(x)) + back(el(e, o[l][s[l] as int]), lr) && sg(lr, rv(x)) >= sg(lr, rv(last0[l])) + front(el(e, o[l][s[l] as int]), lr) + vx_v_EPSILON() by {
        let j = choose|j: int| 0 <= j < z && lev(r, #[trigger] v[j]) == l; assert(is_next(o, s, lev(r, v[j]), v[j])); assert(t[l] == s[l] + 1);
    }
    assert forall|l: int, i: int| 0 <= l < o.len() && 0 < i < t[l] implies #[trigger] spaced_at(e, o, xs, lr, l, i) by {
        assert(t[l] == s[l] + (if on_row(r, v, l, z) { 1int } else { 0 }));
        assert(xs[o[l][i - 1].idx as int] == xs0[o[l][i - 1].idx as int]);
        if i < s[l] { reveal(spaced); assert(spaced_at(e, o, xs0, lr, l, i)); assert(xs[o[l][i].idx as int] == xs0[o[l][i].idx as int]); }
        else { assert(on_row(r, v, l, z) && i == s[l]); assert(last[l] == last[l]); assert(sg(lr, rv(last0[l])) == sg(lr, rv(xs0[o[l][s[l] - 1].idx as int])) + back(el(e, o[l][s[l] - 1]), lr)) by { reveal(spaced); } }
    }
    assert forall|l: int| 0 <= l < o.len() && t[l] > 0 implies sg(lr, rv(#[trigger] last[l])) == sg(lr, rv(xs[o[l][t[l] - 1].idx as int])) + back(el(e, o[l][t[l] - 1]), lr) by {
        assert(t[l] == s[l] + (if on_row(r, v, l, z) { 1int } else { 0 }));
        if !on_row(r, v, l, z) { assert(last.len() == o.len()) by { reveal(spaced); } assert(last[l] == last0[l]); assert(xs[o[l][s[l] - 1].idx as int] == xs0[o[l][s[l] - 1].idx as int]); reveal(spaced); assert(sg(lr, rv(last0[l])) == sg(lr, rv(xs0[o[l][s[l] - 1].idx as int])) + back(el(e, o[l][s[l] - 1]), lr)); }
    }
    assert(last.len() == o.len()) by { reveal(spaced); }
    reveal(spaced);
}
// every row, from left to right
pub open spec fn centres_apart(e: Seq<Element>, r: Rk, xs: Seq<Fl>) -> bool { forall|l: int, i: int| 0 <= l < r.len() && 0 < i < r[l].len() ==> #[trigger] spaced_at(e, r, xs, true, l, i) }
pub proof fn lemma_centres(d: DAG, e: Seq<Element>, o: Rk, s: Seq<usize>, xs: Seq<Fl>, last: Seq<Fl>, lr: bool)
    requires ordered_rows(d, o, lr), spaced(e, o, s, xs, last, lr), s.len() == o.len(), forall|l: int| 0 <= l < o.len() ==> (#[trigger] s[l]) == o[l].len(), ensures centres_apart(e, d.rk(), xs)
{
    let r = d.rk(); reveal(spaced);
    assert forall|l: int, i: int| 0 <= l < r.len() && 0 < i < r[l].len() implies #[trigger] spaced_at(e, r, xs, true, l, i) by {
        assert(s[l] == o[l].len());
        if lr { assert(spaced_at(e, o, xs, lr, l, i)); } else { let k = r[l].len() - i; assert(spaced_at(e, o, xs, lr, l, k)); assert(o[l][k] == r[l][i - 1] && o[l][k - 1] == r[l][i]); }
    }
}
impl<'a> Scheduler<'a> {
    pub open spec fn d(&self) -> DAG { self.vg.dag }
    pub open spec fn e(&self) -> Seq<Element> { self.vg.nodes@ }
    pub open spec fn o(&self) -> Rk { lined(self.vg.dag.rk(), self.order.lr()) }
    pub open spec fn fit(&self) -> bool { self.vg.ok() && self.x_coordinates.len() == self.d().n() && self.sched_idx.len() == self.d().rk().len() && self.last_x_for_row.len() == self.d().rk().len() }
    pub open spec fn fresh(&self) -> bool { self.fit() && forall|l: int| 0 <= l < self.sched_idx.len() ==> (#[trigger] self.sched_idx@[l]) == 0 }
    // vertical v can be looked at: its nodes are on consecutive rows
    pub open spec fn sound(&self, v: Seq<NodeHandle>) -> bool { stepped(self.d().rk(), v) && in_range(v, self.d().n()) }
}
@end
@fn Scheduler::new float
ret r
requires vg.ok(),
ensures r.fresh(), r.vg == vg, r.vl == vl, r.order == order,
@fn Scheduler::get_x_placement
ret r
ensures *r == self.x_coordinates,
@fn Scheduler::verify_vertical
requires self.vg.ok(), self.sound(v@),
@loop 1
invariant self.vg.ok(), self.sound(v@), vx_s1@ == v@, vx_i1 > 0 ==> prev_level == lev(self.d().rk(), v@[vx_i1 - 1]),
@loopstart 1
proof { assert(v@[i as int].idx < self.d().n()); lemma_on_rank(self.d().rk(), self.d().n(), v@[i as int]); lemma_contains_on(self.d().rk(), rank_of(self.d().rk(), *elem), *elem); if i > 0 { assert(lev(self.d().rk(), v@[i as int]) + i == lev(self.d().rk(), v@[i - 1]) + (i - 1)); } }
@after "let level = self.vg.dag.level(*elem)"
proof { lemma_rank_of(self.d().rk(), self.d().n(), *elem, level as int); }
@fn Scheduler::is_next_avail_in_row
ret r
requires self.fit(), row_idx < self.d().rk().len(),
ensures r == is_next(self.o(), self.sched_idx@, row_idx as int, node),
@fn Scheduler::is_vertical_ready
ret r
requires self.fit(), idx < self.vl.len(), self.sound(self.vl@[idx as int]@),
ensures r == ready(self.d().rk(), self.o(), self.sched_idx@, self.vl@[idx as int]@),
@loop 1
invariant self.fit(), self.sound(vx_s1@), vx_s1@ == self.vl@[idx as int]@, forall|k: int| 0 <= k < vx_i1 ==> is_next(self.o(), self.sched_idx@, lev(self.d().rk(), #[trigger] vx_s1@[k]), vx_s1@[k]),
@loopstart 1
proof { assert(vx_s1@[vx_i1 - 1] == *node); assert(vx_s1@[vx_i1 - 1].idx < self.d().n()); lemma_on_rank(self.d().rk(), self.d().n(), *node); lemma_contains_on(self.d().rk(), rank_of(self.d().rk(), *node), *node); }
@after "let level = self.vg.dag.level(*node)"
proof { lemma_rank_of(self.d().rk(), self.d().n(), *node, level as int); }
@fn Scheduler::first_schedule_x float
ret r
requires self.fit(), self.sound(v@),
ensures far_enough(self.d().rk(), self.e(), v@, v.len() as int, rv(r), self.order.lr(), self.last_x_for_row@),
@loop 1
invariant self.fit(), self.sound(v@), vx_s1@ == v@, far_enough(self.d().rk(), self.e(), v@, vx_i1 as int, rv(last_offset_x), self.order.lr(), self.last_x_for_row@),
@loopstart 1
proof { assert(v@[vx_i1 - 1] == *elem); assert(v@[vx_i1 - 1].idx < self.d().n()); lemma_on_rank(self.d().rk(), self.d().n(), *elem); lemma_contains_on(self.d().rk(), rank_of(self.d().rk(), *elem), *elem); }
@after "let level = self.vg.dag.level(*elem)"
proof { lemma_rank_of(self.d().rk(), self.d().n(), *elem, level as int); }
@fn Scheduler::place_vertical float
requires old(self).fit(), old(self).sound(v@), ready(old(self).d().rk(), old(self).o(), old(self).sched_idx@, v@),
ensures final(self).fit(), final(self).vg == old(self).vg, final(self).vl == old(self).vl, final(self).order == old(self).order,
    advanced(old(self).d().rk(), v@, old(self).sched_idx@, final(self).sched_idx@, v.len() as int), put(old(self).d().rk(), old(self).e(), v@, v.len() as int, center_x, old(self).order.lr(), old(self).x_coordinates@, final(self).x_coordinates@, old(self).last_x_for_row@, final(self).last_x_for_row@),
@loop 1
invariant old(self).fit(), old(self).sound(v@), ready(old(self).d().rk(), old(self).o(), old(self).sched_idx@, v@), vx_s1@ == v@, self.fit(), self.vg == old(self).vg, self.vl == old(self).vl, self.order == old(self).order,
    advanced(old(self).d().rk(), v@, old(self).sched_idx@, self.sched_idx@, vx_i1 as int), put(old(self).d().rk(), old(self).e(), v@, vx_i1 as int, center_x, old(self).order.lr(), old(self).x_coordinates@, self.x_coordinates@, old(self).last_x_for_row@, self.last_x_for_row@),
@loopstart 1
let ghost r = self.d().rk(); let ghost z = vx_i1 - 1; let ghost s1 = self.sched_idx@; let ghost xs1 = self.x_coordinates@; let ghost last1 = self.last_x_for_row@;
proof { assert(v@[z] == *elem); assert(v@[z].idx < self.d().n()); lemma_on_rank(r, self.d().n(), *elem); lemma_contains_on(r, rank_of(r, *elem), *elem); assert(is_next(old(self).o(), old(self).sched_idx@, lev(r, v@[z]), v@[z]));
    assert(!on_row(r, v@, lev(r, *elem), z)) by { if on_row(r, v@, lev(r, *elem), z) { let j = choose|j: int| 0 <= j < z && lev(r, #[trigger] v@[j]) == lev(r, *elem); assert(lev(r, v@[j]) + j == lev(r, v@[z]) + z); } } }
@after "let level = self.vg.dag.level(*elem)"
proof { lemma_rank_of(r, self.d().n(), *elem, level as int); assert(s1[level as int] == old(self).sched_idx@[level as int]); assert(self.o()[level as int].len() == self.vg.dag.ranks@[level as int].len()); }
@loopend 1
proof {
    let s2 = self.sched_idx@; let xs2 = self.x_coordinates@; let last2 = self.last_x_for_row@; let l0 = lev(r, *elem);
    assert forall|l: int| 0 <= l < s2.len() implies (#[trigger] s2[l]) == old(self).sched_idx@[l] + (if on_row(r, v@, l, z + 1) { 1int } else { 0 }) by {
        assert(s1[l] == old(self).sched_idx@[l] + (if on_row(r, v@, l, z) { 1int } else { 0 }));
        if l == l0 { assert(lev(r, v@[z]) == l); } else if on_row(r, v@, l, z + 1) { let j = choose|j: int| 0 <= j < z + 1 && lev(r, #[trigger] v@[j]) == l; assert(j < z); } else if on_row(r, v@, l, z) { let j = choose|j: int| 0 <= j < z && lev(r, #[trigger] v@[j]) == l; assert(lev(r, v@[j]) == l); }
    }
    assert forall|h: int| 0 <= h < xs2.len() implies #[trigger] xs2[h] == old(self).x_coordinates@[h] || exists|j: int| 0 <= j < z + 1 && (#[trigger] v@[j]).idx == h by { if h == elem.idx { assert(v@[z].idx == h); } else { assert(xs2[h] == xs1[h]); if xs1[h] != old(self).x_coordinates@[h] { let j = choose|j: int| 0 <= j < z && (#[trigger] v@[j]).idx == h; assert(v@[j].idx == h); } } }
    assert forall|j: int| 0 <= j < z + 1 implies xs2[(#[trigger] v@[j]).idx as int] == center_x && sg(self.order.lr(), rv(last2[lev(r, v@[j])])) == sg(self.order.lr(), rv(center_x)) + back(el(self.e(), v@[j]), self.order.lr()) by {
        assert(v@[j].idx < self.d().n()); lemma_on_rank(r, self.d().n(), v@[j]);
        if j < z { assert(lev(r, v@[j]) + j == lev(r, v@[z]) + z); assert(lev(r, v@[j]) != l0); assert(xs1[v@[j].idx as int] == center_x); }
    }
    assert forall|l: int| 0 <= l < last2.len() && !on_row(r, v@, l, z + 1) implies #[trigger] last2[l] == old(self).last_x_for_row@[l] by { assert(lev(r, v@[z]) == l0); assert(l != l0); if on_row(r, v@, l, z) { let j = choose|j: int| 0 <= j < z && lev(r, #[trigger] v@[j]) == l; assert(lev(r, v@[j]) == l); } assert(last2[l] == last1[l]); }
}
@fn Scheduler::schedule
requires old(self).fresh(), blocks_of(old(self).d(), ranks_of(old(self).vl)),
ensures final(self).vg == old(self).vg, final(self).order == old(self).order, final(self).fit(), centres_apart(old(self).e(), old(self).d().rk(), final(self).x_coordinates@),
    forall|l: int| 0 <= l < old(self).d().rk().len() ==> (#[trigger] final(self).sched_idx@[l]) == old(self).d().rk()[l].len(),
    forall|q: int| 0 <= q < final(self).vl.len() ==> (#[trigger] final(self).vl@[q])@.len() == 0,
@start
let ghost d = self.d(); let ghost e = self.e(); let ghost vs0 = ranks_of(self.vl); let ghost lr = self.order.lr(); let ghost o = self.o(); let ghost r = d.rk();
let ghost a = choose|a: Ab| #[trigger] blocks(d, vs0, a);
proof { lemma_lined(r, d.n(), lr); lemma_live_all(vs0); lemma_state0(o, self.sched_idx@, vs0); assert(spaced(e, o, self.sched_idx@, self.x_coordinates@, self.last_x_for_row@, lr)) by { reveal(spaced); assert forall|l: int, i: int| 0 <= l < o.len() && 0 < i < self.sched_idx@[l] implies #[trigger] spaced_at(e, o, self.x_coordinates@, lr, l, i) by { assert(self.sched_idx@[l] == 0); } assert forall|l: int| 0 <= l < o.len() && self.sched_idx@[l] > 0 implies sg(lr, rv(#[trigger] self.last_x_for_row@[l])) == sg(lr, rv(self.x_coordinates@[o[l][self.sched_idx@[l] - 1].idx as int])) + back(el(e, o[l][self.sched_idx@[l] - 1]), lr) by { assert(self.sched_idx@[l] == 0); } } }
@loop 1
invariant self.fit(), *self == *old(self), d == self.d(), r == d.rk(), vs0 == ranks_of(self.vl), blocks(d, vs0, a), vx_s1 == &self.vl,
@loopstart 1
proof { assert(vs0[vx_i1 - 1] == v@); lemma_stepped(d, vs0, a, vx_i1 - 1); }
@loop 2
invariant self.fit(), self.vg == old(self).vg, self.order == old(self).order, d == self.d(), e == self.e(), r == d.rk(), lr == self.order.lr(), o == self.o(), ordered_rows(d, o, lr), blocks(d, vs0, a), self.vl.len() == vs0.len(), state(o, self.sched_idx@, vs0, ranks_of(self.vl)), spaced(e, o, self.sched_idx@, self.x_coordinates@, self.last_x_for_row@, lr), to_place == live(ranks_of(self.vl)),
decreases to_place,
@loopbefore 3
let ghost start = to_place as int; let ghost j0 = lemma_some_ready(d, o, lr, self.sched_idx@, vs0, ranks_of(self.vl), a);
@loop 3
invariant self.fit(), self.vg == old(self).vg, self.order == old(self).order, d == self.d(), e == self.e(), r == d.rk(), lr == self.order.lr(), o == self.o(), ordered_rows(d, o, lr), blocks(d, vs0, a), self.vl.len() == vs0.len(), state(o, self.sched_idx@, vs0, ranks_of(self.vl)), spaced(e, o, self.sched_idx@, self.x_coordinates@, self.last_x_for_row@, lr), to_place == live(ranks_of(self.vl)),
    vx_e3 == vs0.len(), 0 <= j0 < vs0.len(), to_place <= start, vx_i3 <= j0 ==> ready(r, o, self.sched_idx@, ranks_of(self.vl)[j0]), vx_i3 > j0 ==> to_place < start,
@loopstart 3
let ghost s1 = self.sched_idx@; let ghost vs1 = ranks_of(self.vl); let ghost xs1 = self.x_coordinates@; let ghost last1 = self.last_x_for_row@;
proof { lemma_stepped(d, vs0, a, i as int); assert(vs1[i as int] == self.vl@[i as int]@); assert(self.sound(self.vl@[i as int]@) && (vs1[i as int] == vs0[i as int] || vs1[i as int].len() == 0)) by { reveal(state); } if vs1[i as int].len() > 0 { lemma_live_clear(vs1, i as int); } }
@loopend 3
proof {
    let vs2 = ranks_of(self.vl); assert(vs2 =~= vs1.update(i as int, Seq::empty()));
    lemma_place(d, o, lr, s1, self.sched_idx@, vs0, vs1, a, i as int); lemma_live_clear(vs1, i as int);
    assert forall|l: int| 0 <= l < o.len() implies (#[trigger] s1[l]) <= o[l].len() by { reveal(state); }
    lemma_spaced(d, e, o, lr, s1, self.sched_idx@, vs0, a, i as int, x, xs1, self.x_coordinates@, last1, self.last_x_for_row@);
    if vx_i3 <= j0 { assert(vs1[j0] == vs2[j0]); }
}
@end_fn
proof {
    lemma_all_placed(d, o, lr, self.sched_idx@, vs0, ranks_of(self.vl)); lemma_centres(d, e, o, self.sched_idx@, self.x_coordinates@, self.last_x_for_row@, lr);
    assert forall|q: int| 0 <= q < self.vl.len() implies (#[trigger] self.vl@[q])@.len() == 0 by { lemma_live_none(ranks_of(self.vl), q); assert(ranks_of(self.vl)[q] == self.vl@[q]@); }
}
