@module align
@use base dag reach dagcheck types geom orient graph elem pred
@file topo/placer/bk.rs
@enum OrderLR derive=Clone,Copy
@type EdgeIdxs
@type Vertical
@type VerticalList
@struct NodeAttachInfo
@struct BK
@code
broadcast use ax_fr;
use crate::dag::in_range;
// stands for the set of edges (a HashSet)
pub struct EdgeSet { pub v: Vec<(NodeHandle, NodeHandle)> }
impl EdgeSet {
    pub fn new() -> (r: Self) ensures r.v@.len() == 0 { EdgeSet { v: Vec::new() } }
    pub fn insert(&mut self, e: (NodeHandle, NodeHandle)) -> (r: bool) ensures final(self).v@ == old(self).v@.push(e) { self.v.push(e); true }
    pub fn contains(&self, e: &(NodeHandle, NodeHandle)) -> (r: bool) ensures r == self.v@.contains(*e) {
        let mut i = 0;
        while i < self.v.len() invariant i <= self.v.len(), forall|k: int| 0 <= k < i ==> self.v@[k] != *e, decreases self.v.len() - i
        { if self.v[i].0.idx == e.0.idx && self.v[i].1.idx == e.1.idx { assert(self.v@[i as int] == *e); return true; } i = i + 1; }
        false
    }
}
impl OrderLR { pub open spec fn lr(self) -> bool { self is LeftToRight } }
pub type Ab = Seq<Option<NodeHandle>>;
// ---- who is aligned to whom ----
pub open spec fn ties(a: Ab, x: int, y: int) -> bool { 0 <= x < a.len() && 0 <= y < a.len() && a[x] == Some(hd(y)) }
// "above" and "below" tell the same story
pub open spec fn mutual(a: Ab, b: Ab) -> bool {
    &&& a.len() == b.len() && a.len() <= usize::MAX
    &&& forall|x: int| 0 <= x < a.len() ==> (match #[trigger] a[x] { Some(h) => h.idx < a.len() && b[h.idx as int] == Some(hd(x)), None => true })
    &&& forall|x: int| 0 <= x < a.len() ==> (match #[trigger] b[x] { Some(h) => h.idx < a.len() && a[h.idx as int] == Some(hd(x)), None => true })
}
impl NodeAttachInfo {
    pub open spec fn n(&self) -> int { self.above@.len() as int }
    pub open spec fn ok(&self) -> bool { mutual(self.above@, self.below@) }
}
// going up leads from one level to the next one up
#[verifier::opaque]
pub open spec fn graded(a: Ab, lv: spec_fn(int) -> int, m: int) -> bool { forall|x: int| 0 <= x < a.len() ==> 0 <= #[trigger] lv(x) <= m && match a[x] { Some(h) => lv(h.idx as int) + 1 == lv(x), None => true } }
pub proof fn lemma_graded(a: Ab, lv: spec_fn(int) -> int, m: int, x: int) requires graded(a, lv, m), 0 <= x < a.len() ensures 0 <= lv(x) <= m, match a[x] { Some(h) => lv(h.idx as int) + 1 == lv(x), None => true } { reveal(graded); }
// a vertical: from a node nothing is aligned to, up to one that is aligned to nothing
pub open spec fn climbs(a: Ab, v: Seq<NodeHandle>) -> bool { forall|k: int| 0 < k < v.len() ==> a[v[k - 1].idx as int] == Some(#[trigger] v[k]) }
pub open spec fn vertical(a: Ab, b: Ab, v: Seq<NodeHandle>) -> bool { v.len() > 0 && in_range(v, a.len() as int) && climbs(a, v) && b[v[0].idx as int] is None && a[v.last().idx as int] is None }
pub open spec fn verticals(a: Ab, b: Ab, vs: Rk) -> bool { forall|q: int| 0 <= q < vs.len() ==> vertical(a, b, #[trigger] vs[q]) }
// what the search for the verticals has done so far
#[verifier::opaque]
pub open spec fn closed(a: Ab, b: Ab, u: Seq<bool>) -> bool {
    &&& forall|x: int| 0 <= x < a.len() && #[trigger] u[x] ==> (match a[x] { Some(h) => u[h.idx as int], None => true }) && (match b[x] { Some(h) => u[h.idx as int], None => true })
}
pub open spec fn holds(vs: Rk, x: int) -> bool { exists|q: int, k: int| is_pos(vs, q, k) && (#[trigger] at(vs, q, k)).idx == x }
pub proof fn lemma_closed(a: Ab, b: Ab, u: Seq<bool>, x: int) requires closed(a, b, u), 0 <= x < a.len(), u[x] ensures (match a[x] { Some(h) => u[h.idx as int], None => true }), (match b[x] { Some(h) => u[h.idx as int], None => true }) { reveal(closed); }
pub proof fn lemma_gathered(a: Ab, b: Ab, u: Seq<bool>, vs: Rk) requires gathered(a, b, u, vs) ensures u.len() == a.len(), closed(a, b, u), verticals(a, b, vs) { reveal(gathered); }
#[verifier::opaque]
pub open spec fn gathered(a: Ab, b: Ab, u: Seq<bool>, vs: Rk) -> bool {
    &&& u.len() == a.len() && closed(a, b, u) && verticals(a, b, vs) && ranks_once(vs)
    &&& forall|q: int, k: int| is_pos(vs, q, k) ==> u[(#[trigger] at(vs, q, k)).idx as int]
    &&& forall|x: int| 0 <= x < a.len() && u[x] ==> #[trigger] holds(vs, x)
}
// the vertical under construction: all but its last node are used, and nothing else changed
#[verifier::opaque]
pub open spec fn growing(a: Ab, b: Ab, u0: Seq<bool>, u: Seq<bool>, v: Seq<NodeHandle>, lv: spec_fn(int) -> int) -> bool {
    &&& v.len() > 0 && in_range(v, a.len() as int) && climbs(a, v) && b[v[0].idx as int] is None && u.len() == a.len() && u0.len() == a.len()
    &&& forall|k: int| 0 <= k < v.len() ==> !u0[(#[trigger] v[k]).idx as int]
    &&& forall|j: int, k: int| 0 <= j < k < v.len() ==> lv((#[trigger] v[k]).idx as int) < lv((#[trigger] v[j]).idx as int)
    &&& forall|x: int| 0 <= x < a.len() ==> (#[trigger] u[x] == (u0[x] || exists|k: int| 0 <= k < v.len() - 1 && (#[trigger] v[k]).idx == x))
}
pub proof fn lemma_grow0(a: Ab, b: Ab, u0: Seq<bool>, x: int, lv: spec_fn(int) -> int) requires 0 <= x < a.len(), a.len() <= usize::MAX, u0.len() == a.len(), !u0[x], b[x] is None ensures growing(a, b, u0, u0, seq![hd(x)], lv) { reveal(growing); }
pub proof fn lemma_grow(a: Ab, b: Ab, u0: Seq<bool>, u: Seq<bool>, v: Seq<NodeHandle>, lv: spec_fn(int) -> int, m: int)
    requires mutual(a, b), graded(a, lv, m), closed(a, b, u0), growing(a, b, u0, u, v, lv),
    ensures !u[v.last().idx as int], v.last().idx < a.len(), u.len() == a.len(), match a[v.last().idx as int] { Some(h) => h.idx < a.len() && 0 <= lv(h.idx as int) < lv(v.last().idx as int) && growing(a, b, u0, u.update(v.last().idx as int, true), v.push(h), lv), None => true },
{
    reveal(growing); let x = v.last().idx as int; assert(v[v.len() - 1].idx == x);
    assert(!u0[x]); lemma_graded(a, lv, m, x);
    if u[x] { let k = choose|k: int| 0 <= k < v.len() - 1 && (#[trigger] v[k]).idx == x; assert(lv(v[v.len() - 1].idx as int) < lv(v[k].idx as int)); assert(false); }
    if let Some(h) = a[x] {
        let w = v.push(h); let u2 = u.update(x, true);
        assert(b[h.idx as int] == Some(hd(x))); lemma_graded(a, lv, m, h.idx as int);
        assert(!u0[h.idx as int]) by { if u0[h.idx as int] { lemma_closed(a, b, u0, h.idx as int); assert(u0[hd(x).idx as int]); } }
        assert forall|k: int| 0 < k < w.len() implies a[w[k - 1].idx as int] == Some(#[trigger] w[k]) by { if k < v.len() { assert(a[v[k - 1].idx as int] == Some(v[k])); } }
        assert forall|j: int, k: int| 0 <= j < k < w.len() implies lv((#[trigger] w[k]).idx as int) < lv((#[trigger] w[j]).idx as int) by { if k < v.len() { assert(lv(v[k].idx as int) < lv(v[j].idx as int)); } else if j < v.len() - 1 { assert(lv(v[v.len() - 1].idx as int) < lv(v[j].idx as int)); } }
        assert forall|y: int| 0 <= y < a.len() implies (#[trigger] u2[y] == (u0[y] || exists|k: int| 0 <= k < w.len() - 1 && (#[trigger] w[k]).idx == y)) by {
            if y == x { assert(w[v.len() - 1].idx == y); }
            else {
                assert(u2[y] == u[y]);
                if u[y] && !u0[y] { let k = choose|k: int| 0 <= k < v.len() - 1 && (#[trigger] v[k]).idx == y; assert(w[k].idx == y); }
                if exists|k: int| 0 <= k < w.len() - 1 && (#[trigger] w[k]).idx == y { let k = choose|k: int| 0 <= k < w.len() - 1 && (#[trigger] w[k]).idx == y; assert(v[k].idx == y); assert(k < v.len() - 1); }
            }
        }
    }
}
pub open spec fn marked(u0: Seq<bool>, u2: Seq<bool>, v: Seq<NodeHandle>) -> bool { u2.len() == u0.len() && forall|y: int| 0 <= y < u0.len() ==> #[trigger] u2[y] == (u0[y] || exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).idx == y) }
pub proof fn lemma_marked(a: Ab, b: Ab, u0: Seq<bool>, u: Seq<bool>, v: Seq<NodeHandle>, lv: spec_fn(int) -> int) requires growing(a, b, u0, u, v, lv) ensures marked(u0, u.update(v.last().idx as int, true), v)
{
    reveal(growing); let x = v.last().idx as int; let u2 = u.update(x, true); assert(v[v.len() - 1].idx == x);
    assert forall|y: int| 0 <= y < u0.len() implies #[trigger] u2[y] == (u0[y] || exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).idx == y) by {
        if y == x { assert(v[v.len() - 1].idx == y); } else { assert(u2[y] == u[y]); if u[y] && !u0[y] { let k = choose|k: int| 0 <= k < v.len() - 1 && (#[trigger] v[k]).idx == y; assert(v[k].idx == y); }
            if exists|k: int| 0 <= k < v.len() && (#[trigger] v[k]).idx == y { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).idx == y; assert(k < v.len() - 1); } }
    }
}
pub proof fn lemma_mark_closed(a: Ab, b: Ab, u0: Seq<bool>, u2: Seq<bool>, v: Seq<NodeHandle>)
    requires mutual(a, b), closed(a, b, u0), u0.len() == a.len(), marked(u0, u2, v), vertical(a, b, v), ensures closed(a, b, u2)
{
    assert forall|y: int| 0 <= y < a.len() && u2[y] implies (match a[y] { Some(h) => u2[h.idx as int], None => true }) && (match b[y] { Some(h) => u2[h.idx as int], None => true }) by {
        if u0[y] { lemma_closed(a, b, u0, y); if let Some(h) = a[y] { assert(u2[h.idx as int]); } if let Some(h) = b[y] { assert(u2[h.idx as int]); } }
        else {
            let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).idx == y;
            if let Some(h) = a[y] { if k == v.len() - 1 { assert(v.last() == v[k]); } assert(a[v[k].idx as int] == Some(v[k + 1])); assert(v[k + 1].idx == h.idx); assert(u2[h.idx as int]); }
            if let Some(h) = b[y] { assert(k > 0); assert(a[v[k - 1].idx as int] == Some(v[k])); assert(v[k - 1].idx < a.len()); assert(b[v[k].idx as int] == Some(hd(v[k - 1].idx as int))); assert(v[k - 1].idx == h.idx); assert(u2[h.idx as int]); }
        }
    }
    reveal(closed);
}
pub proof fn lemma_mark_once(vs: Rk, v: Seq<NodeHandle>, u0: Seq<bool>)
    requires ranks_once(vs), forall|q: int, k: int| is_pos(vs, q, k) ==> u0[(#[trigger] at(vs, q, k)).idx as int], forall|k: int| 0 <= k < v.len() ==> !u0[(#[trigger] v[k]).idx as int], forall|j: int, k: int| 0 <= j < k < v.len() ==> (#[trigger] v[k]) != (#[trigger] v[j]),
    ensures ranks_once(vs.push(v)),
{
    let ws = vs.push(v); let z = vs.len() as int;
    assert forall|l: int, i: int, p: int, j: int| #![trigger at(ws, l, i), at(ws, p, j)] is_pos(ws, l, i) && is_pos(ws, p, j) && at(ws, l, i) == at(ws, p, j) implies l == p && i == j by {
        if l < z { assert(is_pos(vs, l, i)); assert(at(vs, l, i) == at(ws, l, i)); } else { assert(!u0[v[i].idx as int]); }
        if p < z { assert(is_pos(vs, p, j)); assert(at(vs, p, j) == at(ws, p, j)); } else { assert(!u0[v[j].idx as int]); }
    }
}
pub proof fn lemma_grown(a: Ab, b: Ab, u0: Seq<bool>, u: Seq<bool>, v: Seq<NodeHandle>, vs: Rk, lv: spec_fn(int) -> int, m: int)
    requires mutual(a, b), graded(a, lv, m), gathered(a, b, u0, vs), growing(a, b, u0, u, v, lv), a[v.last().idx as int] is None,
    ensures gathered(a, b, u.update(v.last().idx as int, true), vs.push(v)), marked(u0, u.update(v.last().idx as int, true), v),
{
    reveal(growing); lemma_gathered(a, b, u0, vs); lemma_marked(a, b, u0, u, v, lv);
    let x = v.last().idx as int; let u2 = u.update(x, true); let ws = vs.push(v); let z = vs.len() as int; assert(v[v.len() - 1].idx == x);
    lemma_mark_closed(a, b, u0, u2, v);
    assert forall|q: int, k: int| is_pos(vs, q, k) implies u0[(#[trigger] at(vs, q, k)).idx as int] by { reveal(gathered); }
    assert(ranks_once(vs)) by { reveal(gathered); }
    assert forall|j: int, k: int| 0 <= j < k < v.len() implies (#[trigger] v[k]) != (#[trigger] v[j]) by { assert(lv(v[k].idx as int) < lv(v[j].idx as int)); }
    lemma_mark_once(vs, v, u0);
    assert forall|q: int| 0 <= q < ws.len() implies vertical(a, b, #[trigger] ws[q]) by { if q < z { assert(ws[q] == vs[q]); } }
    assert forall|q: int, k: int| is_pos(ws, q, k) implies u2[(#[trigger] at(ws, q, k)).idx as int] by {
        if q < z { assert(vertical(a, b, vs[q])); assert(vs[q][k].idx < a.len()); assert(u0[at(vs, q, k).idx as int]); } else { assert(v[k].idx < a.len()); assert(u2[v[k].idx as int]); }
    }
    assert forall|y: int| 0 <= y < a.len() && u2[y] implies #[trigger] holds(ws, y) by {
        if u0[y] { assert(holds(vs, y)) by { reveal(gathered); } let (q, k) = choose|q: int, k: int| is_pos(vs, q, k) && (#[trigger] at(vs, q, k)).idx == y; assert(is_pos(ws, q, k) && at(ws, q, k).idx == y); }
        else { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).idx == y; assert(is_pos(ws, z, k) && at(ws, z, k).idx == y); }
    }
    reveal(gathered);
}
pub proof fn lemma_all_gathered(a: Ab, b: Ab, u: Seq<bool>, vs: Rk) requires a.len() <= usize::MAX, gathered(a, b, u, vs), forall|x: int| 0 <= x < a.len() ==> #[trigger] u[x] ensures ranks_wf(vs, a.len() as int)
{
    reveal(ranks_wf); reveal(gathered);
    assert forall|q: int, k: int| is_pos(vs, q, k) implies (#[trigger] at(vs, q, k)).idx < a.len() by { assert(vertical(a, b, vs[q])); assert(vs[q][k].idx < a.len()); }
    assert forall|h: NodeHandle| h.idx < a.len() implies #[trigger] on_rank(vs, h) by { assert(u[h.idx as int]); assert(holds(vs, h.idx as int)); let (q, k) = choose|q: int, k: int| is_pos(vs, q, k) && (#[trigger] at(vs, q, k)).idx == h.idx; assert(at(vs, q, k) == h); }
}
@end
@fn OrderLR::is_left_to_right
ret r
ensures r == self.lr(),
@fn NodeAttachInfo::new
ret r
ensures r.n() == size, r.ok(), forall|x: int| 0 <= x < size ==> (#[trigger] r.above@[x]) is None, forall|x: int| 0 <= x < size ==> (#[trigger] r.below@[x]) is None,
@fn NodeAttachInfo::add
requires old(self).ok(), from.idx < old(self).n(), to.idx < old(self).n(), old(self).above@[from.idx as int] is None, old(self).below@[to.idx as int] is None,
ensures final(self).ok(), final(self).above@ == old(self).above@.update(from.idx as int, Some(to)), final(self).below@ == old(self).below@.update(to.idx as int, Some(from)),
@fn NodeAttachInfo::above
ret r
requires node.idx < self.above.len(),
ensures r == self.above@[node.idx as int],
@fn NodeAttachInfo::below
ret r
requires node.idx < self.below.len(),
ensures r == self.below@[node.idx as int],
@fn NodeAttachInfo::get_verticals
ret r
requires old(self).ok(), exists|lv: spec_fn(int) -> int, m: int| #[trigger] graded(old(self).above@, lv, m),
ensures *final(self) == *old(self), verticals(old(self).above@, old(self).below@, ranks_of(r)), ranks_wf(ranks_of(r), old(self).n()),
@start
let ghost a = self.above@; let ghost b = self.below@;
let ghost (lv, m) = choose|lv: spec_fn(int) -> int, m: int| #[trigger] graded(a, lv, m);
proof { assert(a.len() == self.above.len()); }
@loop 1
invariant vx_e1 == a.len(), a.len() <= usize::MAX, *self == *old(self), self.above@ == a, self.below@ == b, mutual(a, b), graded(a, lv, m), gathered(a, b, used@, ranks_of(res)), forall|x: int| 0 <= x < vx_i1 ==> #[trigger] used@[x],
@loopbefore 1
proof { assert(ranks_of(res) =~= Seq::<Seq<NodeHandle>>::empty()); reveal(gathered); reveal(closed); }
@looptop 1
proof { lemma_gathered(a, b, used@, ranks_of(res)); }
@loop 2
invariant *self == *old(self), self.above@ == a, self.below@ == b, mutual(a, b), graded(a, lv, m), i < a.len(), idx < a.len(), used@.len() == a.len(), closed(a, b, used@), !used@[i as int], !used@[idx as int], forall|u: Seq<bool>| u.len() == a.len() && #[trigger] closed(a, b, u) && u[idx as int] ==> u[i as int],
decreases m - lv(idx as int),
@loopstart 2
proof { let h = b[idx as int].unwrap(); assert(a[h.idx as int] == Some(hd(idx as int))); lemma_graded(a, lv, m, h.idx as int); if used@[h.idx as int] { lemma_closed(a, b, used@, h.idx as int); assert(used@[hd(idx as int).idx as int]); }
    assert forall|u: Seq<bool>| u.len() == a.len() && #[trigger] closed(a, b, u) && u[h.idx as int] implies u[i as int] by { lemma_closed(a, b, u, h.idx as int); assert(u[hd(idx as int).idx as int]); } }
@loopbefore 3
let ghost u0 = used@; let ghost bottom = idx as int;
proof { lemma_grow0(a, b, u0, idx as int, lv); assert(vertical@ =~= seq![hd(idx as int)]); }
@loop 3
invariant *self == *old(self), self.above@ == a, self.below@ == b, mutual(a, b), graded(a, lv, m), closed(a, b, u0), idx < a.len(), growing(a, b, u0, used@, vertical@, lv), vertical@.len() > 0, vertical@.last().idx == idx, vertical@[0].idx == bottom, used@.len() == a.len(), b.len() == a.len(),
decreases lv(idx as int),
@loopstart 3
proof { assert(vertical@[vertical.len() - 1].idx == idx); lemma_grow(a, b, u0, used@, vertical@, lv, m); lemma_graded(a, lv, m, idx as int); }
@loopafter 3
proof { lemma_grow(a, b, u0, used@, vertical@, lv, m); lemma_grown(a, b, u0, used@, vertical@, ranks_of(res), lv, m); }
let ghost rs = res@; let ghost vs = vertical@;
@loopend 1
proof { assert(ranks_of(res) =~= Seq::new(rs.len(), |k: int| rs[k]@).push(vs)); lemma_gathered(a, b, used@, ranks_of(res)); assert(used@[vs[0].idx as int]); }
@end_fn
proof { lemma_gathered(a, b, used@, ranks_of(res)); lemma_all_gathered(a, b, used@, ranks_of(res)); }
@code
// ---- the rows as they are read: from the left or from the right ----
pub open spec fn lined(r: Rk, lr: bool) -> Rk { if lr { r } else { Seq::new(r.len(), |l: int| r[l].reverse()) } }
// the j-th node of row l + 1 is aligned to the i-th of row l
pub open spec fn joined(o: Rk, a: Ab, l: int, i: int, j: int) -> bool { is_pos(o, l, i) && is_pos(o, l + 1, j) && a[at(o, l + 1, j).idx as int] == Some(at(o, l, i)) }
#[verifier::opaque]
pub open spec fn no_cross(o: Rk, a: Ab) -> bool { forall|l: int, i1: int, j1: int, i2: int, j2: int| #[trigger] joined(o, a, l, i1, j1) && #[trigger] joined(o, a, l, i2, j2) && j1 < j2 ==> i1 < i2 }
// node x is aligned to a node of the row above it, along an edge
pub open spec fn tied(d: DAG, o: Rk, a: Ab, x: int) -> bool { exists|l: int, i: int, j: int| #[trigger] joined(o, a, l, i, j) && at(o, l + 1, j).idx == x && d.edge(at(o, l, i).idx as int, x) }
pub open spec fn alignment(d: DAG, o: Rk, a: Ab) -> bool { a.len() == d.n() && no_cross(o, a) && forall|x: int| 0 <= x < a.len() && a[x] is Some ==> #[trigger] tied(d, o, a, x) }
pub proof fn lemma_lined(r: Rk, n: int, lr: bool) requires ranks_wf(r, n) ensures ranks_wf(lined(r, lr), n), lined(r, lr).len() == r.len(), forall|l: int| 0 <= l < r.len() ==> (#[trigger] lined(r, lr)[l]).len() == r[l].len()
{
    let o = lined(r, lr);
    if !lr {
        assert forall|l: int, i: int| is_pos(o, l, i) implies is_pos(r, l, r[l].len() - 1 - i) && (#[trigger] at(o, l, i)) == at(r, l, r[l].len() - 1 - i) by { }
        assert forall|h: NodeHandle| h.idx < n implies #[trigger] on_rank(o, h) by { reveal(ranks_wf); assert(on_rank(r, h)); let (l, i) = choose|l: int, i: int| is_pos(r, l, i) && at(r, l, i) == h; assert(is_pos(o, l, r[l].len() - 1 - i) && at(o, l, r[l].len() - 1 - i) == h); }
        assert forall|l: int, i: int| is_pos(o, l, i) implies (#[trigger] at(o, l, i)).idx < n by { reveal(ranks_wf); assert(at(o, l, i) == at(r, l, r[l].len() - 1 - i)); }
        assert(ranks_once(o)) by { reveal(ranks_wf);
            assert forall|l: int, i: int, m: int, j: int| #![trigger at(o, l, i), at(o, m, j)] is_pos(o, l, i) && is_pos(o, m, j) && at(o, l, i) == at(o, m, j) implies l == m && i == j by { assert(at(r, l, r[l].len() - 1 - i) == at(r, m, r[m].len() - 1 - j)); } }
        reveal(ranks_wf);
    }
}
// reading the rows the other way round turns both sides
pub proof fn lemma_alignment_lined(d: DAG, a: Ab, lr: bool) requires alignment(d, lined(d.rk(), lr), a) ensures alignment(d, d.rk(), a)
{
    let r = d.rk(); let o = lined(r, lr);
    if !lr {
        assert forall|l: int, i: int, j: int| #[trigger] joined(r, a, l, i, j) implies joined(o, a, l, r[l].len() - 1 - i, r[l + 1].len() - 1 - j) by { assert(at(o, l, r[l].len() - 1 - i) == at(r, l, i)); assert(at(o, l + 1, r[l + 1].len() - 1 - j) == at(r, l + 1, j)); }
        assert(no_cross(r, a)) by { reveal(no_cross); 
            assert forall|l: int, i1: int, j1: int, i2: int, j2: int| #[trigger] joined(r, a, l, i1, j1) && #[trigger] joined(r, a, l, i2, j2) && j1 < j2 implies i1 < i2 by { assert(joined(o, a, l, r[l].len() - 1 - i1, r[l + 1].len() - 1 - j1)); assert(joined(o, a, l, r[l].len() - 1 - i2, r[l + 1].len() - 1 - j2)); } }
        assert forall|x: int| 0 <= x < a.len() && a[x] is Some implies #[trigger] tied(d, r, a, x) by {
            assert(tied(d, o, a, x)); let (l, i, j) = choose|l: int, i: int, j: int| #[trigger] joined(o, a, l, i, j) && at(o, l + 1, j).idx == x && d.edge(at(o, l, i).idx as int, x);
            assert(at(o, l, i) == at(r, l, r[l].len() - 1 - i)); assert(at(o, l + 1, j) == at(r, l + 1, r[l + 1].len() - 1 - j)); assert(joined(r, a, l, r[l].len() - 1 - i, r[l + 1].len() - 1 - j));
        }
    }
}
// and the same read back
pub proof fn lemma_alignment_back(d: DAG, a: Ab, lr: bool) requires alignment(d, d.rk(), a) ensures alignment(d, lined(d.rk(), lr), a)
{
    let r = d.rk(); let o = lined(r, lr);
    if !lr {
        assert forall|l: int, i: int, j: int| #[trigger] joined(o, a, l, i, j) implies joined(r, a, l, r[l].len() - 1 - i, r[l + 1].len() - 1 - j) by { assert(at(r, l, r[l].len() - 1 - i) == at(o, l, i)); assert(at(r, l + 1, r[l + 1].len() - 1 - j) == at(o, l + 1, j)); }
        assert(no_cross(o, a)) by { reveal(no_cross); 
            assert forall|l: int, i1: int, j1: int, i2: int, j2: int| #[trigger] joined(o, a, l, i1, j1) && #[trigger] joined(o, a, l, i2, j2) && j1 < j2 implies i1 < i2 by { assert(joined(r, a, l, r[l].len() - 1 - i1, r[l + 1].len() - 1 - j1)); assert(joined(r, a, l, r[l].len() - 1 - i2, r[l + 1].len() - 1 - j2)); } }
        assert forall|x: int| 0 <= x < a.len() && a[x] is Some implies #[trigger] tied(d, o, a, x) by {
            assert(tied(d, r, a, x)); let (l, i, j) = choose|l: int, i: int, j: int| #[trigger] joined(r, a, l, i, j) && at(r, l + 1, j).idx == x && d.edge(at(r, l, i).idx as int, x);
            assert(at(r, l, i) == at(o, l, r[l].len() - 1 - i)); assert(at(r, l + 1, j) == at(o, l + 1, r[l + 1].len() - 1 - j)); assert(joined(o, a, l, r[l].len() - 1 - i, r[l + 1].len() - 1 - j));
        }
    }
}
pub proof fn lemma_alignment_graded(d: DAG, a: Ab) requires d.wf(), alignment(d, d.rk(), a) ensures graded(a, |x: int| rank_of(d.rk(), hd(x)), d.rk().len() as int)
{
    let r = d.rk(); let lv = |x: int| rank_of(d.rk(), hd(x)); 
    assert(d.n() == d.nodes.len());
    assert forall|x: int| 0 <= x < a.len() implies 0 <= #[trigger] lv(x) <= r.len() && match a[x] { Some(h) => lv(h.idx as int) + 1 == lv(x), None => true } by {
        lemma_on_rank(r, d.n(), hd(x));
        if a[x] is Some { assert(tied(d, r, a, x)); let (l, i, j) = choose|l: int, i: int, j: int| #[trigger] joined(r, a, l, i, j) && at(r, l + 1, j).idx == x && d.edge(at(r, l, i).idx as int, x);
            assert(r[l + 1][j] == hd(x)); lemma_rank_of(r, d.n(), hd(x), l + 1); assert(r[l][i] == a[x].unwrap()); lemma_rank_of(r, d.n(), r[l][i], l); assert(hd(r[l][i].idx as int) == r[l][i]); }
    }
    reveal(graded);
}
pub proof fn lemma_row_range(d: DAG, l: int) requires d.wf(), 0 <= l < d.rk().len() ensures in_range(d.rk()[l], d.n())
{ reveal(ranks_wf); let r = d.rk(); assert forall|i: int| 0 <= i < r[l].len() implies (#[trigger] r[l][i]).idx < d.n() by { assert(is_pos(r, l, i)); assert(at(r, l, i) == r[l][i]); } }
// ---- the search for the alignment: all rows before row l are done, and the first j nodes of row l + 1 ----
pub open spec fn tied_by(d: DAG, o: Rk, a: Ab, x: int, m: int, q: int) -> bool { exists|l: int, i: int, j: int| #[trigger] joined(o, a, l, i, j) && at(o, l + 1, j).idx == x && d.edge(at(o, l, i).idx as int, x) && (l < m || l == m && j < q) }
pub open spec fn aligned_to(d: DAG, o: Rk, a: Ab, m: int, q: int) -> bool { a.len() == d.n() && no_cross(o, a) && forall|x: int| 0 <= x < a.len() && a[x] is Some ==> #[trigger] tied_by(d, o, a, x, m, q) }
// the nodes of the upper row that are taken: the first c, and all that are aligned to are among them
pub open spec fn taken(o: Rk, a: Ab, m: int, u: Seq<bool>, c: int) -> bool { u.len() == o[m].len() && 0 <= c <= u.len() && (forall|i: int| 0 <= i < u.len() ==> #[trigger] u[i] == (i < c)) && forall|i: int, j: int| #[trigger] joined(o, a, m, i, j) ==> i < c }
pub proof fn lemma_join_at(d: DAG, o: Rk, a: Ab, m: int, q: int, l: int, i: int, j: int)
    requires ranks_wf(o, d.n()), aligned_to(d, o, a, m, q), joined(o, a, l, i, j), ensures l < m || l == m && j < q
{
    reveal(ranks_wf); let h = at(o, l + 1, j); assert(h.idx < d.n()); assert(tied_by(d, o, a, h.idx as int, m, q));
    let (l2, i2, j2) = choose|l2: int, i2: int, j2: int| #[trigger] joined(o, a, l2, i2, j2) && at(o, l2 + 1, j2).idx == h.idx && d.edge(at(o, l2, i2).idx as int, h.idx as int) && (l2 < m || l2 == m && j2 < q);
    assert(at(o, l2 + 1, j2) == at(o, l + 1, j));
}
pub proof fn lemma_free(d: DAG, o: Rk, a: Ab, b: Ab, m: int, q: int, u: Seq<bool>, c: int, i: int)
    requires ranks_wf(o, d.n()), aligned_to(d, o, a, m, q), taken(o, a, m, u, c), mutual(a, b), is_pos(o, m, i), is_pos(o, m + 1, q), i >= c, ensures a[at(o, m + 1, q).idx as int] is None, b[at(o, m, i).idx as int] is None, at(o, m + 1, q).idx < d.n(), at(o, m, i).idx < d.n()
{
    assert(at(o, m + 1, q).idx < d.n() && at(o, m, i).idx < d.n()) by { reveal(ranks_wf); }
    let x = at(o, m + 1, q); let y = at(o, m, i);
    if a[x.idx as int] is Some {
        assert(tied_by(d, o, a, x.idx as int, m, q));
        let (l2, i2, j2) = choose|l2: int, i2: int, j2: int| #[trigger] joined(o, a, l2, i2, j2) && at(o, l2 + 1, j2).idx == x.idx && d.edge(at(o, l2, i2).idx as int, x.idx as int) && (l2 < m || l2 == m && j2 < q);
        assert(at(o, l2 + 1, j2) == x); reveal(ranks_wf); assert(false);
    }
    if let Some(f) = b[y.idx as int] {
        assert(a[f.idx as int] == Some(hd(y.idx as int)));
        assert(tied_by(d, o, a, f.idx as int, m, q));
        let (l2, i2, j2) = choose|l2: int, i2: int, j2: int| #[trigger] joined(o, a, l2, i2, j2) && at(o, l2 + 1, j2).idx == f.idx && d.edge(at(o, l2, i2).idx as int, f.idx as int) && (l2 < m || l2 == m && j2 < q);
        assert(at(o, l2 + 1, j2) == f); assert(at(o, l2, i2) == y); assert(l2 == m && i2 == i) by { reveal(ranks_wf); } assert(joined(o, a, m, i, j2)); assert(false);
    }
}
pub proof fn lemma_joins_kept(o: Rk, n: int, a: Ab, m: int, i: int, q: int, l: int, p: int, j: int)
    requires ranks_wf(o, n), n == a.len(), is_pos(o, m, i), is_pos(o, m + 1, q), !(l == m && j == q), ensures joined(o, a.update(at(o, m + 1, q).idx as int, Some(at(o, m, i))), l, p, j) == joined(o, a, l, p, j)
{
    reveal(ranks_wf); let x = at(o, m + 1, q); assert(x.idx < n);
    if is_pos(o, l + 1, j) { assert(at(o, l + 1, j).idx < n); if at(o, l + 1, j).idx == x.idx { assert(at(o, l + 1, j) == x); assert(false); } }
}
pub proof fn lemma_align_step(d: DAG, o: Rk, a: Ab, m: int, q: int, u: Seq<bool>, c: int, i: int)
    requires ranks_wf(o, d.n()), aligned_to(d, o, a, m, q), taken(o, a, m, u, c), is_pos(o, m, i), is_pos(o, m + 1, q), i >= c, d.edge(at(o, m, i).idx as int, at(o, m + 1, q).idx as int),
    ensures ({ let a2 = a.update(at(o, m + 1, q).idx as int, Some(at(o, m, i))); aligned_to(d, o, a2, m, q + 1) && (forall|p: int, j: int| #[trigger] joined(o, a2, m, p, j) ==> p <= i) })
{
    let x = at(o, m + 1, q).idx as int; let a2 = a.update(x, Some(at(o, m, i)));
    assert(x < d.n()) by { reveal(ranks_wf); }
    assert(joined(o, a2, m, i, q));
    assert forall|p: int, j: int| #[trigger] joined(o, a2, m, p, j) implies p <= i && (j == q ==> p == i) && j <= q && (j < q ==> p < i) by { if j != q { lemma_joins_kept(o, d.n(), a, m, i, q, m, p, j); assert(joined(o, a, m, p, j)); lemma_join_at(d, o, a, m, q, m, p, j); } else { assert(at(o, m, p) == at(o, m, i)); reveal(ranks_wf); } }
    assert(no_cross(o, a2)) by {
        reveal(no_cross);
        assert forall|l: int, i1: int, j1: int, i2: int, j2: int| #[trigger] joined(o, a2, l, i1, j1) && #[trigger] joined(o, a2, l, i2, j2) && j1 < j2 implies i1 < i2 by {
            if l == m && j2 == q { } else { if l == m && j1 == q { assert(false); } lemma_joins_kept(o, d.n(), a, m, i, q, l, i1, j1); lemma_joins_kept(o, d.n(), a, m, i, q, l, i2, j2); }
        }
    }
    assert forall|y: int| 0 <= y < a2.len() && a2[y] is Some implies #[trigger] tied_by(d, o, a2, y, m, q + 1) by {
        if y == x { assert(joined(o, a2, m, i, q) && at(o, m + 1, q).idx == y); }
        else {
            assert(a[y] is Some); assert(tied_by(d, o, a, y, m, q));
            let (l2, i2, j2) = choose|l2: int, i2: int, j2: int| #[trigger] joined(o, a, l2, i2, j2) && at(o, l2 + 1, j2).idx == y && d.edge(at(o, l2, i2).idx as int, y) && (l2 < m || l2 == m && j2 < q);
            lemma_joins_kept(o, d.n(), a, m, i, q, l2, i2, j2); assert(joined(o, a2, l2, i2, j2));
        }
    }
}
// nothing was aligned in this step
pub proof fn lemma_align_skip(d: DAG, o: Rk, a: Ab, m: int, q: int, m2: int, q2: int) requires aligned_to(d, o, a, m, q), m < m2 || m == m2 && q <= q2 ensures aligned_to(d, o, a, m2, q2)
{
    assert forall|x: int| 0 <= x < a.len() && a[x] is Some implies #[trigger] tied_by(d, o, a, x, m2, q2) by {
        assert(tied_by(d, o, a, x, m, q));
        let (l2, i2, j2) = choose|l2: int, i2: int, j2: int| #[trigger] joined(o, a, l2, i2, j2) && at(o, l2 + 1, j2).idx == x && d.edge(at(o, l2, i2).idx as int, x) && (l2 < m || l2 == m && j2 < q);
        assert(joined(o, a, l2, i2, j2));
    }
}
pub proof fn lemma_align_done(d: DAG, o: Rk, a: Ab, m: int) requires aligned_to(d, o, a, m, 0) ensures alignment(d, o, a)
{
    assert forall|x: int| 0 <= x < a.len() && a[x] is Some implies #[trigger] tied(d, o, a, x) by {
        assert(tied_by(d, o, a, x, m, 0));
        let (l2, i2, j2) = choose|l2: int, i2: int, j2: int| #[trigger] joined(o, a, l2, i2, j2) && at(o, l2 + 1, j2).idx == x && d.edge(at(o, l2, i2).idx as int, x) && (l2 < m || l2 == m && j2 < 0);
        assert(joined(o, a, l2, i2, j2));
    }
}
// at the start of a row pair nothing of the upper row is taken
pub proof fn lemma_row_start(d: DAG, o: Rk, a: Ab, m: int, u: Seq<bool>) requires ranks_wf(o, d.n()), aligned_to(d, o, a, m, 0), 0 <= m < o.len(), u.len() == o[m].len(), forall|i: int| 0 <= i < u.len() ==> !#[trigger] u[i] ensures taken(o, a, m, u, 0)
{ assert forall|i: int, j: int| #[trigger] joined(o, a, m, i, j) implies i < 0 by { lemma_join_at(d, o, a, m, 0, m, i, j); } }
pub proof fn lemma_pred_edge(d: DAG, x: int, h: NodeHandle) requires d.wf(), 0 <= x < d.n(), d.pred(x).contains(h) ensures d.edge(h.idx as int, x), h.idx < d.n()
{ let k = d.pred(x).index_of(h); let s = d.succ(x); assert(in_range(d.pred(x), d.n())); assert(d.pred(x)[k].idx < d.n()); lemma_cnt_is(d.pred(x), h); assert(hd(h.idx as int) == h); lemma_cnt_is(d.succ(h.idx as int), hd(x)); assert(cnt(d.succ(h.idx as int), hd(x)) == cnt(d.pred(x), hd(h.idx as int))); }
@end
@fn BK::new
ret r
ensures *r.vg == *old(vg), *final(r.vg) == *final(vg),
@fn BK::are_edges_crossing
ret r
ensures r == !(edge_a.0 < edge_b.0 && edge_a.1 < edge_b.1 || edge_a.0 > edge_b.0 && edge_a.1 > edge_b.1),
@fn BK::get_valid_edges
requires self.vg.ok(), self.vg.dag.rk().len() >= 1,
@loop 1
invariant self.vg.ok(), vx_e1 == self.vg.dag.rk().len() - 1,
@loopstart 1
proof { lemma_row_range(self.vg.dag, i as int); }
@loop 2 kind=vecval
@fn BK::extract_edges_with_no_type2_conflict loop_isolation
requires self.vg.ok(), in_range(r0@, self.vg.dag.n()),
@loop 1
invariant self.vg.ok(), in_range(r0@, self.vg.dag.n()), vx_s1@ == r0@, forall|k: int| 0 <= k < regular_edges.len() ==> (#[trigger] regular_edges[k]).0 < r0.len() && regular_edges[k].1 < r1.len(), forall|k: int| 0 <= k < strong_edges.len() ==> (#[trigger] strong_edges[k]).0 < r0.len() && strong_edges[k].1 < r1.len(),
@loopstart 1
proof { assert(r0@[idx0 as int].idx < self.vg.dag.n()); assert(in_range(self.vg.dag.succ(r0@[idx0 as int].idx as int), self.vg.dag.n())); }
@loop 2
invariant self.vg.ok(), elem.idx < self.vg.dag.n(), in_range(vx_s2@, self.vg.dag.n()), idx0 < r0.len(), forall|k: int| 0 <= k < regular_edges.len() ==> (#[trigger] regular_edges[k]).0 < r0.len() && regular_edges[k].1 < r1.len(), forall|k: int| 0 <= k < strong_edges.len() ==> (#[trigger] strong_edges[k]).0 < r0.len() && strong_edges[k].1 < r1.len(),
@loopstart 2
proof { assert(vx_s2@[vx_i2 - 1].idx < self.vg.dag.n()); }
@loop 3
invariant vx_s3@ == regular_edges@, forall|k: int| 0 <= k < regular_edges.len() ==> (#[trigger] regular_edges[k]).0 < r0.len() && regular_edges[k].1 < r1.len(),
@loop 4
invariant vx_s4@ == strong_edges@,
@loop 5 kind=vecval
invariant forall|k: int| 0 <= k < vx_s5.len() ==> (#[trigger] vx_s5[k]).0 < r0.len() && vx_s5[k].1 < r1.len(),
@fn BK::get_pred_medians float strcontains
ret r
requires self.vg.ok(),
ensures r.len() == old(self.vg).dag.n(),
@loop 1 kind=iter
invariant self.vg.ok(), vx_it1.last == self.vg.dag.n(), vx_it1.curr <= vx_it1.last, res.len() == vx_it1.curr,
ensures vx_it1.curr == vx_it1.last,
decreases vx_it1.left(),
@loopstart 1
proof { let s = self.vg.dag.succ(node.idx as int); assert(in_range(self.vg.dag.pred(node.idx as int), self.vg.dag.n())); }
@loop 2
invariant self.vg.ok(), in_range(vx_s2@, self.vg.dag.n()), res.len() + 1 == vx_it1.curr,
@loopstart 2
proof { assert(vx_s2@[vx_i2 - 1].idx < self.vg.dag.n()); }
@fn BK::index_of
ret r
ensures match r { Some(i) => i < vec.len() && vec@[i as int] == elem, None => true },
@fn BK::compute_alignment float
ret r
requires self.vg.ok(), self.vg.dag.rk().len() >= 1,
ensures r.ok(), alignment(old(self.vg).dag, old(self.vg).dag.rk(), r.above@),
@start
let ghost d = self.vg.dag; let ghost o = lined(self.vg.dag.rk(), order.lr());
proof { lemma_lined(d.rk(), d.n(), order.lr()); }
@loop 1
invariant self.vg.ok(), d == self.vg.dag, o == lined(d.rk(), order.lr()), ranks_wf(o, d.n()), o.len() == d.rk().len(), vx_e1 == o.len() - 1, align_info.ok(), aligned_to(d, o, align_info.above@, vx_i1 as int, 0), medians.len() == d.n(),
@loopbefore 1
proof { let a = align_info.above@; assert(aligned_to(d, o, a, 0, 0)) by { assert forall|l: int, i: int, j: int| !#[trigger] joined(o, a, l, i, j) by { if joined(o, a, l, i, j) { assert(at(o, l + 1, j).idx < d.n()) by { reveal(ranks_wf); } assert(a[at(o, l + 1, j).idx as int] is None); } } reveal(no_cross); } }
@loopbefore 2
let ghost mut c: int = 0; let ghost m = i as int;
proof { lemma_row_range(d, m); lemma_row_range(d, m + 1); assert(r0@ == o[m]); assert(r1@ == o[m + 1]); lemma_row_start(d, o, align_info.above@, m, used@); }
@loop 2 kind=vecval
invariant self.vg.ok(), d == self.vg.dag, o == lined(d.rk(), order.lr()), ranks_wf(o, d.n()), 0 <= m < o.len() - 1, r0@ == o[m], vx_s2@ == o[m + 1], align_info.ok(), aligned_to(d, o, align_info.above@, m, vx_i2 as int), medians.len() == d.n(), taken(o, align_info.above@, m, used@, c),
@loopstart 2
let ghost q = vx_i2 - 1;
proof { assert(is_pos(o, m + 1, q)); assert(at(o, m + 1, q) == node); assert(node.idx < d.n()) by { reveal(ranks_wf); } let s = d.succ(node.idx as int); assert(in_range(d.pred(node.idx as int), d.n())); }
@loop 3
invariant self.vg.ok(), d == self.vg.dag, node.idx < d.n(), vx_s3@ == d.pred(node.idx as int), in_range(vx_s3@, d.n()), used.len() == r0.len(), match best_idx { Some(x) => x < r0.len() && !used@[x as int] && d.pred(node.idx as int).contains(r0@[x as int]), None => true },
@loopstart 3
proof { assert(vx_s3@[vx_i3 - 1] == *pred); assert(vx_s3@[vx_i3 - 1].idx < d.n()); }
@loopbefore 4
let ghost u1 = used@;
proof { lemma_pred_edge(d, node.idx as int, r0@[idx as int]); lemma_free(d, o, align_info.above@, align_info.below@, m, q, used@, c, idx as int); lemma_align_step(d, o, align_info.above@, m, q, used@, c, idx as int); assert(is_pos(o, m, idx as int)); assert(at(o, m, idx as int) == r0@[idx as int]); }
@loop 4
invariant used.len() == u1.len(), idx < used.len(), vx_e4 == idx + 1, forall|k: int| 0 <= k < used.len() ==> #[trigger] used@[k] == (k < vx_i4 || u1[k]),
@loopafter 4
proof { c = idx + 1; }
@loopend 2
proof { lemma_align_skip(d, o, align_info.above@, m, if best_idx is Some { q + 1 } else { q }, m, q + 1); }
@loopend 1
proof { lemma_align_skip(d, o, align_info.above@, vx_i1 - 1, o[vx_i1 as int].len() as int, vx_i1 as int, 0); }
@end_fn
proof { lemma_align_done(d, o, align_info.above@, o.len() - 1); lemma_alignment_lined(d, align_info.above@, order.lr()); }
