@module dag
@use base
@file adt/dag.rs
@struct NodeHandle
@struct Node
@struct DAG
@struct NodeIterator
@type RankType
@code
impl VxEq for NodeHandle { fn vx_eq(&self, o: &Self) -> (r: bool) { *self == *o } }
impl VxClone for NodeHandle { open spec fn same(self, o: Self) -> bool { self == o } fn vx_clone(&self) -> (r: Self) { *self } }
pub open spec fn hd(i: int) -> NodeHandle { NodeHandle { idx: i as usize } }
pub open spec fn cnt(s: Seq<NodeHandle>, h: NodeHandle) -> nat { s.to_multiset().count(h) }
pub proof fn lemma_cnt_is(s: Seq<NodeHandle>, h: NodeHandle) ensures s.contains(h) <==> cnt(s, h) > 0 { s.to_multiset_ensures(); assert(s.contains(h) <==> s.to_multiset().count(h) > 0); }
pub open spec fn in_range(s: Seq<NodeHandle>, n: int) -> bool { forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).idx < n }
pub type Rk = Seq<Seq<NodeHandle>>;
pub open spec fn at(r: Rk, l: int, i: int) -> NodeHandle { r[l][i] }
pub open spec fn is_pos(r: Rk, l: int, i: int) -> bool { 0 <= l < r.len() && 0 <= i < r[l].len() }
pub open spec fn on_rank(r: Rk, h: NodeHandle) -> bool { exists|l: int, i: int| is_pos(r, l, i) && at(r, l, i) == h }
// every node is in exactly one rank, once
pub open spec fn ranks_once(r: Rk) -> bool {
    forall|l: int, i: int, m: int, j: int| #![trigger at(r, l, i), at(r, m, j)] is_pos(r, l, i) && is_pos(r, m, j) && at(r, l, i) == at(r, m, j) ==> l == m && i == j
}
#[verifier::opaque]
pub open spec fn ranks_wf(r: Rk, n: int) -> bool {
    &&& forall|l: int, i: int| is_pos(r, l, i) ==> (#[trigger] at(r, l, i)).idx < n
    &&& ranks_once(r)
    &&& forall|h: NodeHandle| h.idx < n ==> #[trigger] on_rank(r, h)
}
pub open spec fn rank_of(r: Rk, h: NodeHandle) -> int { choose|l: int| 0 <= l < r.len() && r[l].contains(h) }
pub proof fn lemma_rank_of(r: Rk, n: int, h: NodeHandle, l: int)
    requires ranks_wf(r, n), 0 <= l < r.len(), r[l].contains(h),
    ensures rank_of(r, h) == l
{
    reveal(ranks_wf);
    let m = rank_of(r, h);
    let i = choose|i: int| 0 <= i < r[l].len() && r[l][i] == h;
    let j = choose|j: int| 0 <= j < r[m].len() && r[m][j] == h;
    assert(at(r, l, i) == at(r, m, j) && is_pos(r, l, i) && is_pos(r, m, j));
}
pub proof fn lemma_contains_on(r: Rk, l: int, h: NodeHandle) requires 0 <= l < r.len(), r[l].contains(h) ensures on_rank(r, h)
{ let i = choose|i: int| 0 <= i < r[l].len() && r[l][i] == h; assert(is_pos(r, l, i) && at(r, l, i) == h); }
pub proof fn lemma_on_rank(r: Rk, n: int, h: NodeHandle)
    requires ranks_wf(r, n), h.idx < n,
    ensures 0 <= rank_of(r, h) < r.len(), r[rank_of(r, h)].contains(h)
{
    reveal(ranks_wf);
    assert(on_rank(r, h));
    let (l, i) = choose|l: int, i: int| is_pos(r, l, i) && at(r, l, i) == h;
    assert(r[l][i] == h);
    assert(0 <= l < r.len() && r[l].contains(h));
}
pub open spec fn pad(r: Rk, k: int) -> Rk decreases k - r.len() { if r.len() >= k { r } else { pad(r.push(Seq::empty()), k) } }
pub proof fn lemma_pad(r: Rk, k: int)
    ensures pad(r, k).len() == (if r.len() >= k { r.len() as int } else { k }), forall|i: int| 0 <= i < r.len() ==> pad(r, k)[i] == r[i], forall|i: int| r.len() <= i < pad(r, k).len() ==> pad(r, k)[i] == Seq::<NodeHandle>::empty(),
    decreases k - r.len()
{ if r.len() < k { let s = r.push(Seq::empty()); lemma_pad(s, k); assert forall|i: int| 0 <= i < r.len() implies pad(r, k)[i] == r[i] by { assert(s[i] == r[i]); assert(pad(s, k)[i] == s[i]); } assert(pad(s, k)[r.len() as int] == s[r.len() as int]); } }
// where the node goes: in front of the marker, or at the end of the row
pub open spec fn spec_place(row: Seq<NodeHandle>, node: NodeHandle, before: Option<NodeHandle>) -> Seq<NodeHandle> {
    match before { None => row.push(node), Some(m) => row.insert(first(row, m), node) }
}
pub open spec fn spec_take_out(r: Rk, node: NodeHandle) -> Rk { let c = rank_of(r, node); r.update(c, rm1(r[c], node)) }
pub open spec fn spec_move(r: Rk, node: NodeHandle, lvl: int, before: Option<NodeHandle>) -> Rk {
    let q = pad(spec_take_out(r, node), lvl + 1);
    q.update(lvl, spec_place(q[lvl], node, before))
}
pub open spec fn ranks_of(n: RankType) -> Rk { Seq::new(n@.len(), |i: int| n@[i]@) }
// moving keeps "every node once", puts the node on the row, in front of the marker, and disturbs no other node
pub proof fn lemma_take_out(r: Rk, n: int, node: NodeHandle)
    requires ranks_wf(r, n), node.idx < n,
    ensures ({ let q = spec_take_out(r, node);
        q.len() == r.len() && ranks_once(q) && !on_rank(q, node)
        && (forall|l: int, i: int| is_pos(q, l, i) ==> (#[trigger] at(q, l, i)).idx < n)
        && (forall|h: NodeHandle| h.idx < n && h != node ==> #[trigger] on_rank(q, h))
        && (forall|l: int, h: NodeHandle| 0 <= l < r.len() && h != node ==> (#[trigger] r[l].contains(h) ==> q[l].contains(h))) })
{
    reveal(ranks_wf);
    lemma_on_rank(r, n, node);
    let c = rank_of(r, node); let p = first(r[c], node); let q = spec_take_out(r, node);
    lemma_first_exists(r[c], node); lemma_first(r[c], node, p);
    let back = |l: int, i: int| if l == c && i >= p { i + 1 } else { i };
    assert forall|l: int, i: int| is_pos(q, l, i) implies is_pos(r, l, back(l, i)) && #[trigger] at(q, l, i) == at(r, l, back(l, i)) by { if l == c { assert(q[l] == r[c].remove(p)); } else { assert(q[l] == r[l]); } }
    assert forall|l: int, i: int, m: int, j: int| #![trigger at(q, l, i), at(q, m, j)] is_pos(q, l, i) && is_pos(q, m, j) && at(q, l, i) == at(q, m, j) implies l == m && i == j by {
        assert(at(r, l, back(l, i)) == at(r, m, back(m, j)));
    }
    if on_rank(q, node) {
        let (l, i) = choose|l: int, i: int| is_pos(q, l, i) && at(q, l, i) == node;
        assert(at(r, l, back(l, i)) == at(r, c, p) && is_pos(r, c, p));
    }
    assert forall|h: NodeHandle| h.idx < n && h != node implies #[trigger] on_rank(q, h) by {
        assert(on_rank(r, h));
        let (l, i) = choose|l: int, i: int| is_pos(r, l, i) && at(r, l, i) == h;
        let i2 = if l == c && i > p { i - 1 } else { i };
        assert(!(l == c && i == p));
        assert(is_pos(q, l, i2) && at(q, l, i2) == h);
    }
    assert forall|l: int, h: NodeHandle| 0 <= l < r.len() && h != node && #[trigger] r[l].contains(h) implies q[l].contains(h) by {
        let i = choose|i: int| 0 <= i < r[l].len() && r[l][i] == h;
        if l == c { if i < p { assert(q[l][i] == h); } else { assert(i != p); assert(q[l][i - 1] == h); } } else { assert(q[l] == r[l]); }
    }
}
pub open spec fn almost(q: Rk, n: int, node: NodeHandle) -> bool {
    &&& ranks_once(q) && !on_rank(q, node)
    &&& forall|l: int, i: int| is_pos(q, l, i) ==> (#[trigger] at(q, l, i)).idx < n
    &&& forall|h: NodeHandle| h.idx < n && h != node ==> #[trigger] on_rank(q, h)
}
pub proof fn lemma_pad_almost(t: Rk, n: int, node: NodeHandle, k: int) requires almost(t, n, node) ensures almost(pad(t, k), n, node)
{
    lemma_pad(t, k); let s = pad(t, k);
    assert forall|l: int, i: int| is_pos(s, l, i) implies is_pos(t, l, i) && #[trigger] at(s, l, i) == at(t, l, i) by { }
    assert forall|l: int, i: int, m: int, j: int| #![trigger at(s, l, i), at(s, m, j)] is_pos(s, l, i) && is_pos(s, m, j) && at(s, l, i) == at(s, m, j) implies l == m && i == j by { assert(at(t, l, i) == at(t, m, j)); }
    if on_rank(s, node) { let (l, i) = choose|l: int, i: int| is_pos(s, l, i) && at(s, l, i) == node; assert(is_pos(t, l, i) && at(t, l, i) == node); }
    assert forall|h: NodeHandle| h.idx < n && h != node implies #[trigger] on_rank(s, h) by { assert(on_rank(t, h)); let (l, i) = choose|l: int, i: int| is_pos(t, l, i) && at(t, l, i) == h; assert(is_pos(s, l, i) && at(s, l, i) == h); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_insert(q: Rk, n: int, node: NodeHandle, lvl: int, p: int)
    requires almost(q, n, node), node.idx < n, 0 <= lvl < q.len(), 0 <= p <= q[lvl].len(),
    ensures ({ let s = q.update(lvl, q[lvl].insert(p, node)); ranks_wf(s, n) && rank_of(s, node) == lvl && s[lvl].contains(node) && spec_take_out(s, node) == q })
{
    reveal(ranks_wf);
    let row = q[lvl]; let s = q.update(lvl, row.insert(p, node));
    let back = |l: int, i: int| if l == lvl && i > p { i - 1 } else { i };
    assert forall|l: int, i: int| is_pos(s, l, i) && !(l == lvl && i == p) implies is_pos(q, l, back(l, i)) && #[trigger] at(s, l, i) == at(q, l, back(l, i)) by {
        if l == lvl { assert(s[l] == row.insert(p, node)); } else { assert(s[l] == q[l]); }
    }
    assert(at(s, lvl, p) == node);
    assert forall|l: int, i: int| is_pos(s, l, i) implies (#[trigger] at(s, l, i)).idx < n by { if !(l == lvl && i == p) { assert(at(s, l, i) == at(q, l, back(l, i))); } }
    assert forall|l: int, i: int, m: int, j: int| #![trigger at(s, l, i), at(s, m, j)] is_pos(s, l, i) && is_pos(s, m, j) && at(s, l, i) == at(s, m, j) implies l == m && i == j by {
        if l == lvl && i == p { if !(m == lvl && j == p) { assert(at(q, m, back(m, j)) == node); assert(on_rank(q, node)); } }
        else if m == lvl && j == p { assert(at(q, l, back(l, i)) == node); assert(on_rank(q, node)); }
        else { assert(at(q, l, back(l, i)) == at(q, m, back(m, j))); }
    }
    assert forall|h: NodeHandle| h.idx < n implies #[trigger] on_rank(s, h) by {
        if h == node { assert(is_pos(s, lvl, p)); } else {
            assert(on_rank(q, h));
            let (l, i) = choose|l: int, i: int| is_pos(q, l, i) && at(q, l, i) == h;
            let i2 = if l == lvl && i >= p { i + 1 } else { i };
            assert(is_pos(s, l, i2) && at(s, l, i2) == h);
        }
    }
    assert(s[lvl][p] == node);
    lemma_rank_of(s, n, node, lvl);
    assert forall|j: int| 0 <= j < p implies s[lvl][j] != node by { assert(is_pos(s, lvl, j) && is_pos(s, lvl, p)); if s[lvl][j] == node { assert(at(s, lvl, j) == at(s, lvl, p)); } }
    lemma_first(s[lvl], node, p);
    assert(row.insert(p, node).remove(p) =~= row);
    assert(spec_take_out(s, node) =~= q);
}
pub proof fn lemma_place(row: Seq<NodeHandle>, node: NodeHandle, before: Option<NodeHandle>)
    requires before.is_some() ==> row.contains(before.unwrap()),
    ensures ({ let p = match before { None => row.len() as int, Some(m) => first(row, m) }; 0 <= p <= row.len() && spec_place(row, node, before) == row.insert(p, node) })
{ match before { None => { assert(row.push(node) =~= row.insert(row.len() as int, node)); }, Some(m) => { lemma_first_exists(row, m); } } }
pub proof fn lemma_spec_move(r: Rk, n: int, node: NodeHandle, lvl: int, before: Option<NodeHandle>)
    requires ranks_wf(r, n), node.idx < n, lvl >= 0, before.is_some() ==> before.unwrap() != node && lvl < r.len() && r[lvl].contains(before.unwrap()),
    ensures ({ let s = spec_move(r, node, lvl, before);
        ranks_wf(s, n) && s.len() == pad(r, lvl + 1).len() && rank_of(s, node) == lvl && s[lvl].contains(node)
        && spec_take_out(s, node) == pad(spec_take_out(r, node), lvl + 1)
        && forall|m: int| #![trigger s[m]] 0 <= m < s.len() && m != lvl && m != rank_of(r, node) ==> s[m] == pad(r, lvl + 1)[m] })
{
    lemma_on_rank(r, n, node);
    lemma_take_out(r, n, node); lemma_pad(r, lvl + 1);
    let t = spec_take_out(r, node); lemma_pad(t, lvl + 1); let q = pad(t, lvl + 1);
    lemma_pad_almost(t, n, node, lvl + 1);
    if before.is_some() { assert(r[lvl].contains(before.unwrap())); assert(t[lvl].contains(before.unwrap())); }
    lemma_place(q[lvl], node, before);
    let p = match before { None => q[lvl].len() as int, Some(m) => first(q[lvl], m) };
    lemma_insert(q, n, node, lvl, p);
    let s = spec_move(r, node, lvl, before);
    assert forall|m: int| #![trigger s[m]] 0 <= m < s.len() && m != lvl && m != rank_of(r, node) implies s[m] == pad(r, lvl + 1)[m] by { assert(s[m] == q[m]); if m < r.len() { assert(t[m] == r[m]); } }
}
// adding a fresh node at the end of a row
pub proof fn lemma_add(r: Rk, n: int, lvl: int)
    requires ranks_wf(r, n), 0 <= lvl < r.len(), 0 <= n < usize::MAX,
    ensures ranks_wf(r.update(lvl, r[lvl].push(hd(n))), n + 1)
{
    reveal(ranks_wf);
    let s = r.update(lvl, r[lvl].push(hd(n))); let p = r[lvl].len() as int;
    assert forall|l: int, i: int| is_pos(s, l, i) && !(l == lvl && i == p) implies is_pos(r, l, i) && #[trigger] at(s, l, i) == at(r, l, i) && at(s, l, i).idx < n by { if l != lvl { assert(s[l] == r[l]); } }
    assert forall|l: int, i: int| is_pos(s, l, i) implies (#[trigger] at(s, l, i)).idx < n + 1 by { if l == lvl && i == p { assert(at(s, l, i) == hd(n)); } }
    assert forall|l: int, i: int, m: int, j: int| #![trigger at(s, l, i), at(s, m, j)] is_pos(s, l, i) && is_pos(s, m, j) && at(s, l, i) == at(s, m, j) implies l == m && i == j by {
        if l == lvl && i == p { if !(m == lvl && j == p) { assert(at(s, m, j).idx < n); assert(at(s, lvl, p).idx == n); } }
        else if m == lvl && j == p { assert(at(s, l, i).idx < n); assert(at(s, lvl, p).idx == n); }
        else { assert(at(r, l, i) == at(r, m, j)); }
    }
    assert forall|h: NodeHandle| h.idx < n + 1 implies #[trigger] on_rank(s, h) by {
        if h.idx == n { assert(is_pos(s, lvl, p) && at(s, lvl, p) == h); } else {
            assert(on_rank(r, h)); let (l, i) = choose|l: int, i: int| is_pos(r, l, i) && at(r, l, i) == h;
            assert(is_pos(s, l, i) && at(s, l, i) == h);
        }
    }
}
pub proof fn lemma_pad_wf(r: Rk, n: int, k: int) requires ranks_wf(r, n) ensures ranks_wf(pad(r, k), n)
{
    reveal(ranks_wf);
    lemma_pad(r, k); let s = pad(r, k);
    assert forall|l: int, i: int| is_pos(s, l, i) implies is_pos(r, l, i) && #[trigger] at(s, l, i) == at(r, l, i) by { }
    assert forall|l: int, i: int, m: int, j: int| #![trigger at(s, l, i), at(s, m, j)] is_pos(s, l, i) && is_pos(s, m, j) && at(s, l, i) == at(s, m, j) implies l == m && i == j by { assert(at(r, l, i) == at(r, m, j)); }
    assert forall|h: NodeHandle| h.idx < n implies #[trigger] on_rank(s, h) by { assert(on_rank(r, h)); let (l, i) = choose|l: int, i: int| is_pos(r, l, i) && at(r, l, i) == h; assert(is_pos(s, l, i) && at(s, l, i) == h); }
}
impl DAG {
    pub open spec fn n(&self) -> int { self.nodes.len() as int }
    pub open spec fn succ(&self, i: int) -> Seq<NodeHandle> { self.nodes@[i].successors@ }
    pub open spec fn pred(&self, i: int) -> Seq<NodeHandle> { self.nodes@[i].predecessors@ }
    pub open spec fn rk(&self) -> Rk { ranks_of(self.ranks) }
    pub open spec fn targets_ok(&self) -> bool { forall|i: int| 0 <= i < self.n() ==> in_range(#[trigger] self.succ(i), self.n()) && in_range(self.pred(i), self.n()) }
    // b is listed after a exactly as often as a is listed before b
    pub open spec fn mirror(&self) -> bool { forall|a: int, b: int| #![trigger cnt(self.succ(a), hd(b))] #![trigger cnt(self.pred(b), hd(a))] 0 <= a < self.n() && 0 <= b < self.n() ==> cnt(self.succ(a), hd(b)) == cnt(self.pred(b), hd(a)) }
    pub open spec fn edges_wf(&self) -> bool { self.targets_ok() && self.mirror() }
    pub open spec fn wf(&self) -> bool { self.edges_wf() && ranks_wf(self.rk(), self.n()) }
    // same adjacency lists, element by element
    pub open spec fn same_edges(&self, o: &DAG) -> bool { self.n() == o.n() && forall|i: int| 0 <= i < self.n() ==> #[trigger] self.succ(i) == o.succ(i) && self.pred(i) == o.pred(i) }
}
pub proof fn lemma_same_edges(a: DAG, b: DAG) requires a.edges_wf(), b.same_edges(&a) ensures b.edges_wf()
{
    assert forall|i: int| 0 <= i < b.n() implies in_range(#[trigger] b.succ(i), b.n()) && in_range(b.pred(i), b.n()) by { assert(b.succ(i) == a.succ(i)); assert(in_range(a.succ(i), a.n())); }
    assert forall|x: int, y: int| #![trigger cnt(b.succ(x), hd(y))] #![trigger cnt(b.pred(y), hd(x))] 0 <= x < b.n() && 0 <= y < b.n() implies cnt(b.succ(x), hd(y)) == cnt(b.pred(y), hd(x)) by { assert(b.succ(x) == a.succ(x)); assert(b.succ(y) == a.succ(y)); assert(cnt(a.succ(x), hd(y)) == cnt(a.pred(y), hd(x))); }
}
pub broadcast proof fn lemma_cnt_push(s: Seq<NodeHandle>, x: NodeHandle, h: NodeHandle) ensures #[trigger] cnt(s.push(x), h) == cnt(s, h) + (if x == h { 1nat } else { 0nat })
{ broadcast use vstd::seq_lib::group_to_multiset_ensures, vstd::multiset::group_multiset_axioms; }
pub broadcast proof fn lemma_cnt_remove(s: Seq<NodeHandle>, i: int, h: NodeHandle) requires 0 <= i < s.len() ensures #[trigger] cnt(s.remove(i), h) == cnt(s, h) - (if s[i] == h { 1int } else { 0int })
{ broadcast use vstd::seq_lib::group_to_multiset_ensures, vstd::multiset::group_multiset_axioms; assert(s.to_multiset().contains(s[i])); }
pub proof fn lemma_cnt_contains(s: Seq<NodeHandle>, h: NodeHandle) ensures s.contains(h) <==> cnt(s, h) > 0
{ broadcast use vstd::seq_lib::group_to_multiset_ensures, vstd::multiset::group_multiset_axioms; assert(s.contains(h) <==> s.to_multiset().contains(h)); }
pub proof fn lemma_cnt_empty(h: NodeHandle) ensures cnt(Seq::<NodeHandle>::empty(), h) == 0
{ broadcast use vstd::seq_lib::group_to_multiset_ensures, vstd::multiset::group_multiset_axioms; }
@end
@fn NodeHandle::new
ret r
ensures r.idx == x,
@fn NodeHandle::get_index
ret r
ensures r == self.idx,
@fn NodeHandle::from
ret r
ensures r.idx == idx,
@fn Node::new
ret r
ensures r.successors@ == Seq::<NodeHandle>::empty(), r.predecessors@ == Seq::<NodeHandle>::empty(),
@code
impl NodeIterator { pub open spec fn left(&self) -> int { self.last - self.curr } }
@end
@fn NodeIterator::next item=NodeHandle
ret r
requires old(self).curr <= old(self).last,
ensures final(self).last == old(self).last, final(self).curr <= final(self).last,
    match r { None => old(self).curr == old(self).last && final(self).curr == old(self).curr, Some(h) => old(self).curr < old(self).last && h.idx == old(self).curr && final(self).curr == old(self).curr + 1 },
@fn DAG::new
ret r
ensures r.n() == 0, r.rk() =~= Seq::<Seq<NodeHandle>>::empty(), r.wf(), r.validate,
@start
proof { reveal(ranks_wf); }
@fn DAG::set_validate
ensures final(self).same_edges(old(self)), final(self).ranks == old(self).ranks, final(self).validate == validate, final(self).nodes == old(self).nodes,
@fn DAG::clear
ensures final(self).n() == 0, final(self).rk() =~= Seq::<Seq<NodeHandle>>::empty(), final(self).wf(), final(self).validate == old(self).validate,
@start
proof { reveal(ranks_wf); }
@fn DAG::iter
ret r
ensures r.curr == 0, r.last == self.n(),
@fn DAG::add_edge
requires old(self).edges_wf(), from.idx < old(self).n(), to.idx < old(self).n(),
ensures final(self).edges_wf(), final(self).n() == old(self).n(), final(self).ranks == old(self).ranks, final(self).validate == old(self).validate,
    forall|i: int| 0 <= i < old(self).n() ==> (#[trigger] final(self).succ(i)) == (if i == from.idx { old(self).succ(i).push(to) } else { old(self).succ(i) }),
    forall|i: int| 0 <= i < old(self).n() ==> (#[trigger] final(self).pred(i)) == (if i == to.idx { old(self).pred(i).push(from) } else { old(self).pred(i) }),
@end_fn
proof {
    broadcast use lemma_cnt_push;
    let o = old(self);
    assert forall|i: int| 0 <= i < self.n() implies in_range(#[trigger] self.succ(i), self.n()) && in_range(self.pred(i), self.n()) by { assert(in_range(o.succ(i), o.n())); }
    assert forall|a: int, b: int| 0 <= a < self.n() && 0 <= b < self.n() implies cnt(self.succ(a), hd(b)) == cnt(self.pred(b), hd(a)) by { assert(cnt(o.succ(a), hd(b)) == cnt(o.pred(b), hd(a))); }
}
@fn DAG::remove_edge
ret r
requires old(self).edges_wf(), from.idx < old(self).n(), to.idx < old(self).n(),
ensures final(self).edges_wf(), final(self).n() == old(self).n(), final(self).ranks == old(self).ranks, final(self).validate == old(self).validate,
    r == old(self).succ(from.idx as int).contains(to),
    forall|i: int| 0 <= i < old(self).n() ==> (#[trigger] final(self).succ(i)) == (if i == from.idx { rm1(old(self).succ(i), to) } else { old(self).succ(i) }),
    forall|i: int| 0 <= i < old(self).n() ==> (#[trigger] final(self).pred(i)) == (if i == to.idx { rm1(old(self).pred(i), from) } else { old(self).pred(i) }),
@start
proof {
    let s = self.succ(from.idx as int); let p = self.pred(to.idx as int);
    lemma_cnt_contains(s, to); lemma_cnt_contains(p, from); assert(hd(from.idx as int) == from && hd(to.idx as int) == to);
    assert(cnt(s, hd(to.idx as int)) == cnt(p, hd(from.idx as int)));
    assert forall|i: int| 0 <= i < s.len() && s[i] == to && (forall|j: int| 0 <= j < i ==> s[j] != to) implies rm1(s, to) == #[trigger] s.remove(i) by { lemma_first(s, to, i); }
    assert forall|i: int| 0 <= i < p.len() && p[i] == from && (forall|j: int| 0 <= j < i ==> p[j] != from) implies rm1(p, from) == #[trigger] p.remove(i) by { lemma_first(p, from, i); }
}
@end_fn
proof {
    broadcast use lemma_cnt_remove;
    let o = old(self);
    let s = o.succ(from.idx as int); let p = o.pred(to.idx as int);
    if s.contains(to) { lemma_first_exists(s, to); lemma_first_exists(p, from); }
    assert forall|i: int| 0 <= i < self.n() implies in_range(#[trigger] self.succ(i), self.n()) && in_range(self.pred(i), self.n()) by { assert(in_range(o.succ(i), o.n())); }
    assert forall|a: int, b: int| 0 <= a < self.n() && 0 <= b < self.n() implies cnt(self.succ(a), hd(b)) == cnt(self.pred(b), hd(a)) by { assert(cnt(o.succ(a), hd(b)) == cnt(o.pred(b), hd(a))); }
}
@fn DAG::add_element_to_rank
requires level < usize::MAX,
ensures final(self).nodes == old(self).nodes, final(self).validate == old(self).validate,
    ({ let q = pad(old(self).rk(), level + 1); final(self).rk() == q.update(level as int, if prepend { q[level as int].insert(0, elem) } else { q[level as int].push(elem) }) }),
@start
proof { lemma_pad(self.rk(), level + 1); }
@loop 1
invariant self.nodes == old(self).nodes, self.validate == old(self).validate, level < usize::MAX, pad(self.rk(), level + 1) == pad(old(self).rk(), level + 1),
decreases level + 1 - self.ranks.len(),
@loopstart 1
let ghost g0 = self.rk();
@loopend 1
proof { assert(self.rk() =~= g0.push(Seq::empty())); }
@loopafter 1
proof { assert(self.rk() == pad(old(self).rk(), level + 1)); }
@end_fn
proof { let q = pad(old(self).rk(), level + 1); assert(self.rk() =~= q.update(level as int, if prepend { q[level as int].insert(0, elem) } else { q[level as int].push(elem) })); }
@fn DAG::new_node
ret r
requires old(self).wf(), old(self).n() < usize::MAX,
ensures final(self).wf(), final(self).n() == old(self).n() + 1, r.idx == old(self).n(), final(self).validate == old(self).validate,
    forall|i: int| 0 <= i < old(self).n() ==> (#[trigger] final(self).succ(i)) == old(self).succ(i) && final(self).pred(i) == old(self).pred(i),
    final(self).succ(old(self).n()) == Seq::<NodeHandle>::empty(), final(self).pred(old(self).n()) == Seq::<NodeHandle>::empty(),
    ({ let q = pad(old(self).rk(), 1); final(self).rk() == q.update(0, q[0].push(r)) }),
@end_fn
proof { lemma_new_node(*old(self), *self); }
@code
pub open spec fn one_more(o: DAG, d: DAG) -> bool {
    &&& d.n() == o.n() + 1 && o.n() < usize::MAX
    &&& forall|i: int| 0 <= i < o.n() ==> (#[trigger] d.succ(i)) == o.succ(i) && d.pred(i) == o.pred(i)
    &&& d.succ(o.n()) == Seq::<NodeHandle>::empty() && d.pred(o.n()) == Seq::<NodeHandle>::empty()
    &&& ({ let q = pad(o.rk(), 1); d.rk() == q.update(0, q[0].push(hd(o.n()))) })
}
pub proof fn lemma_new_node(o: DAG, d: DAG) requires o.wf(), one_more(o, d) ensures d.wf()
{
    lemma_pad_wf(o.rk(), o.n(), 1); lemma_pad(o.rk(), 1); lemma_add(pad(o.rk(), 1), o.n(), 0);
    let n = o.n();
    assert forall|i: int| 0 <= i < d.n() implies in_range(#[trigger] d.succ(i), d.n()) && in_range(d.pred(i), d.n()) by { if i < n { assert(in_range(o.succ(i), n)); } }
    assert forall|a: int, b: int| 0 <= a < d.n() && 0 <= b < d.n() implies cnt(d.succ(a), hd(b)) == cnt(d.pred(b), hd(a)) by {
        lemma_cnt_empty(hd(a)); lemma_cnt_empty(hd(b)); if b < n { assert(d.succ(b) == o.succ(b)); } if a < n { assert(d.succ(a) == o.succ(a)); }
        if a < n && b < n { assert(cnt(o.succ(a), hd(b)) == cnt(o.pred(b), hd(a))); }
        else if a < n { assert(in_range(o.succ(a), n)); lemma_cnt_contains(o.succ(a), hd(b)); }
        else if b < n { assert(in_range(o.succ(b), n)); lemma_cnt_contains(o.pred(b), hd(a)); }
    }
}
@end
@fn DAG::successors
ret r
requires from.idx < self.n(),
ensures r@ == self.succ(from.idx as int),
@fn DAG::predecessors
ret r
requires from.idx < self.n(),
ensures r@ == self.pred(from.idx as int),
@fn DAG::single_pred
ret r
requires from.idx < self.n(),
ensures r == (if self.pred(from.idx as int).len() == 1 { Some(self.pred(from.idx as int)[0]) } else { None }),
@fn DAG::single_succ
ret r
requires from.idx < self.n(),
ensures r == (if self.succ(from.idx as int).len() == 1 { Some(self.succ(from.idx as int)[0]) } else { None }),
@fn DAG::len
ret r
ensures r == self.n(),
@fn DAG::is_empty
ret r
ensures r == (self.n() == 0),
@fn DAG::num_levels
ret r
ensures r == self.rk().len(),
@fn DAG::row_mut
ret r
requires level < old(self).rk().len(),
ensures r@ == old(self).rk()[level as int], final(self).nodes == old(self).nodes, final(self).validate == old(self).validate,
    final(self).rk() =~= old(self).rk().update(level as int, final(r)@),
@fn DAG::row
ret r
requires level < self.rk().len(),
ensures r@ == self.rk()[level as int], *r == self.ranks@[level as int],
@fn DAG::ranks
ret r
ensures *r == self.ranks,
@fn DAG::ranks_mut
ret r
ensures *r == old(self).ranks, final(self).nodes == old(self).nodes, final(self).validate == old(self).validate, final(self).ranks == *final(r),
@fn DAG::is_first_in_row
ret r
ensures r == (level < self.rk().len() && self.rk()[level as int].len() > 0 && self.rk()[level as int][0] == elem),
@fn DAG::is_last_in_row
ret r
ensures r == (level < self.rk().len() && self.rk()[level as int].len() > 0 && self.rk()[level as int].last() == elem),
@fn DAG::level
ret r
requires node.idx < self.n(), on_rank(self.rk(), node),
ensures r < self.rk().len(), self.rk()[r as int].contains(node), forall|j: int| 0 <= j < r ==> !(#[trigger] self.rk()[j]).contains(node),
    ranks_wf(self.rk(), self.n()) ==> r == rank_of(self.rk(), node),
@loop 1
invariant node.idx < self.n(), on_rank(self.rk(), node), vx_s1 == &self.ranks, forall|j: int| 0 <= j < vx_i1 ==> !(#[trigger] self.rk()[j]).contains(node),
@loopstart 1
proof {
    assert(self.rk()[i as int] == row@);
    if row@.contains(node) && ranks_wf(self.rk(), self.n()) { lemma_rank_of(self.rk(), self.n(), node, i as int); }
}
@loopafter 1
proof { let (l, i) = choose|l: int, i: int| is_pos(self.rk(), l, i) && at(self.rk(), l, i) == node; assert(self.rk()[l][i] == node); assert(self.rk()[l].contains(node)); }
@fn DAG::update_node_rank_level loop_isolation rlimit=60 spinoff_prover
requires old(self).wf(), node.idx < old(self).n(), new_level < usize::MAX,
    insert_before.is_some() ==> insert_before.unwrap() != node && new_level < old(self).rk().len() && old(self).rk()[new_level as int].contains(insert_before.unwrap()),
ensures final(self).nodes == old(self).nodes, final(self).validate == old(self).validate,
    final(self).rk() == spec_move(old(self).rk(), node, new_level as int, insert_before), final(self).wf(),
@start
let ghost r0 = self.rk();
proof {
    lemma_on_rank(r0, self.n(), node); lemma_take_out(r0, self.n(), node); lemma_spec_move(r0, self.n(), node, new_level as int, insert_before);
    let s = r0[rank_of(r0, node)];
    lemma_first_exists(s, node);
    lemma_contains_on(r0, rank_of(r0, node), node);
    assert forall|i: int| 0 <= i < s.len() && s[i] == node && (forall|j: int| 0 <= j < i ==> s[j] != node) implies rm1(s, node) == #[trigger] s.remove(i) by { lemma_first(s, node, i); }
}
@after "level.remove(idx)"
proof { assert(self.rk() =~= spec_take_out(r0, node)); lemma_pad(self.rk(), new_level + 1); }
@loop 1
invariant self.nodes == old(self).nodes, self.validate == old(self).validate, new_level < usize::MAX, pad(self.rk(), new_level + 1) == pad(spec_take_out(r0, node), new_level + 1),
decreases new_level + 1 - self.ranks.len(),
@loopstart 1
let ghost g0 = self.rk();
@loopend 1
proof { assert(self.rk() =~= g0.push(Seq::empty())); }
@loopafter 1
let ghost q = self.rk();
proof { assert(q == pad(spec_take_out(r0, node), new_level + 1)); if insert_before.is_some() { lemma_pad(spec_take_out(r0, node), new_level + 1); assert(r0[new_level as int].contains(insert_before.unwrap())); } }
@loop 2
invariant row@ == q[new_level as int], q[new_level as int].contains(marker), q == pad(spec_take_out(r0, node), new_level + 1), new_level < q.len(),
    forall|j: int| 0 <= j < vx_i2 ==> row@[j] != marker,
@loopstart 2
proof { if row@[i as int] == marker { lemma_first(row@, marker, i as int); assert(q.update(new_level as int, row@.insert(i as int, node)) == spec_move(r0, node, new_level as int, insert_before)); } }
@before "return;" ?
proof { assert(self.rk() =~= q.update(new_level as int, q[new_level as int].insert(i as int, node))); lemma_same_edges(*old(self), *self); }
@after "self.ranks[new_level].push(node)"
proof { assert(self.rk() =~= q.update(new_level as int, q[new_level as int].push(node))); lemma_same_edges(*old(self), *self); lemma_contains_on(self.rk(), new_level as int, node); }
