@module graph
@use base text dag reach dagcheck types
@file topo/layout.rs
@code
impl VisualGraph {
    pub open spec fn ed(&self) -> Seq<E> { ev(self.edges@) }
    // the parts that must fit together
    pub open spec fn ok(&self) -> bool { self.dag.wf() && self.nodes.len() == self.dag.n() }
    pub open spec fn same_but_edges(&self, o: &VisualGraph) -> bool { self.nodes == o.nodes && self.orientation == o.orientation }
}
pub proof fn lemma_ev_push(v: Seq<(Arrow, Vec<NodeHandle>)>, x: (Arrow, Vec<NodeHandle>)) ensures ev(v.push(x)) == ev(v).push((x.0, x.1@)) { assert(ev(v.push(x)) =~= ev(v).push((x.0, x.1@))); }
@end
@fn VisualGraph::new
ret r
ensures r.ok(), r.ed() =~= Seq::<E>::empty(), r.self_edges@.len() == 0, r.dag.n() == 0, r.orientation == orientation, r.dag.validate,
@fn VisualGraph::orientation
ret r
ensures r == self.orientation,
@fn VisualGraph::num_nodes
ret r
ensures r == self.dag.n(),
@fn VisualGraph::iter_nodes
ret r
ensures r.curr == 0, r.last == self.dag.n(),
@fn VisualGraph::succ
ret r
requires node.idx < self.dag.n(),
ensures r@ == self.dag.succ(node.idx as int),
@fn VisualGraph::preds
ret r
requires node.idx < self.dag.n(),
ensures r@ == self.dag.pred(node.idx as int),
@fn VisualGraph::element
ret r
requires node.idx < self.nodes.len(),
ensures *r == self.nodes@[node.idx as int],
@fn VisualGraph::element_mut
ret r
requires node.idx < old(self).nodes.len(),
ensures *r == old(self).nodes@[node.idx as int], final(self).nodes@ == old(self).nodes@.update(node.idx as int, *final(r)), final(self).edges == old(self).edges, final(self).self_edges == old(self).self_edges, final(self).dag == old(self).dag, final(self).orientation == old(self).orientation,
@fn VisualGraph::add_node
ret r
requires old(self).ok(), old(self).dag.n() < usize::MAX,
ensures final(self).ok(), r.idx == old(self).dag.n(), final(self).nodes@ == old(self).nodes@.push(elem), final(self).edges == old(self).edges, final(self).self_edges == old(self).self_edges, final(self).orientation == old(self).orientation,
    final(self).dag.n() == old(self).dag.n() + 1, final(self).dag.validate == old(self).dag.validate,
    forall|i: int| 0 <= i < old(self).dag.n() ==> (#[trigger] final(self).dag.succ(i)) == old(self).dag.succ(i) && final(self).dag.pred(i) == old(self).dag.pred(i),
    final(self).dag.succ(old(self).dag.n()) == Seq::<NodeHandle>::empty(), final(self).dag.pred(old(self).dag.n()) == Seq::<NodeHandle>::empty(),
    ({ let q = pad(old(self).dag.rk(), 1); final(self).dag.rk() == q.update(0, q[0].push(r)) }),
@fn VisualGraph::add_edge
requires from.idx < old(self).nodes.len(), to.idx < old(self).nodes.len(),
ensures final(self).ed() == old(self).ed().push((arrow, seq![from, to])), final(self).nodes == old(self).nodes, final(self).dag == old(self).dag, final(self).self_edges == old(self).self_edges, final(self).orientation == old(self).orientation,
@end_fn
proof { assert(self.edges@[self.edges.len() - 1].1@ =~= seq![from, to]); assert(self.edges@ =~= old(self).edges@.push(self.edges@[self.edges.len() - 1])); lemma_ev_push(old(self).edges@, self.edges@[self.edges.len() - 1]); }
@code
use std::mem::swap;
pub proof fn lemma_ev_same(v: Vec<(Arrow, Vec<NodeHandle>)>, w: Vec<(Arrow, Vec<NodeHandle>)>) requires v.same(w) ensures ev(w@) == ev(v@)
{ assert forall|i: int| 0 <= i < v.len() implies ev(w@)[i] == ev(v@)[i] by { assert(v[i].same(w[i])); assert(v[i].1.same(w[i].1)); assert(v[i].1@ =~= w[i].1@) by { assert forall|k: int| 0 <= k < v[i].1.len() implies v[i].1[k] == w[i].1[k] by { assert(v[i].1[k].same(w[i].1[k])); } } } assert(ev(w@) =~= ev(v@)); }
// ---- how often two elements follow each other on the edges ----
pub open spec fn pairs(s: Seq<NodeHandle>, a: NodeHandle, b: NodeHandle) -> nat decreases s.len() { if s.len() < 2 { 0 } else { pairs(s.drop_last(), a, b) + (if s[s.len() - 2] == a && s.last() == b { 1nat } else { 0 }) } }
pub open spec fn links(ed: Seq<E>, a: NodeHandle, b: NodeHandle) -> nat decreases ed.len() { if ed.len() == 0 { 0 } else { links(ed.drop_last(), a, b) + pairs(ed.last().1, a, b) } }
// the graph has exactly the links of the edges
pub open spec fn linked_ok(d: DAG, ed: Seq<E>) -> bool { forall|a: int, b: int| 0 <= a < d.n() && 0 <= b < d.n() ==> #[trigger] cnt(d.succ(a), hd(b)) == links(ed, hd(a), hd(b)) }
pub open spec fn chains_in(ed: Seq<E>, n: int) -> bool { forall|i: int| 0 <= i < ed.len() ==> in_range(#[trigger] ed[i].1, n) }
pub open spec fn pairs_only(ed: Seq<E>) -> bool { forall|i: int| 0 <= i < ed.len() ==> (#[trigger] ed[i]).1.len() == 2 }
pub proof fn lemma_links_push(ed: Seq<E>, e: E, a: NodeHandle, b: NodeHandle) ensures links(ed.push(e), a, b) == links(ed, a, b) + pairs(e.1, a, b) { assert(ed.push(e).drop_last() =~= ed); }
pub proof fn lemma_pairs2(x: NodeHandle, y: NodeHandle, a: NodeHandle, b: NodeHandle) ensures pairs(seq![x, y], a, b) == (if x == a && y == b { 1nat } else { 0 }) { reveal_with_fuel(pairs, 2); }
// ---- paths over a list of edges ----
pub open spec fn ledge(ed: Seq<E>, a: int, b: int) -> bool { 0 <= a <= usize::MAX && 0 <= b <= usize::MAX && links(ed, hd(a), hd(b)) > 0 }
pub open spec fn lpath(ed: Seq<E>, p: Seq<int>) -> bool { p.len() >= 1 && forall|k: int| 0 <= k < p.len() - 1 ==> #[trigger] ledge(ed, p[k], p[k + 1]) }
pub open spec fn lreaches(ed: Seq<E>, a: NodeHandle, b: NodeHandle) -> bool { exists|p: Seq<int>| #[trigger] lpath(ed, p) && p[0] == a.idx && p.last() == b.idx }
// ---- what breaking the cycles does ----
pub open spec fn turn(out: Seq<E>, e: E) -> Seq<E> { let a = e.1[0]; let b = e.1[1]; if a == b { out } else if lreaches(out, b, a) { out.push((rev(e.0), seq![b, a])) } else { out.push(e) } }
pub open spec fn turned(inp: Seq<E>, k: int) -> Seq<E> decreases k { if k <= 0 { Seq::empty() } else { turn(turned(inp, k - 1), inp[k - 1]) } }
pub open spec fn selfs(inp: Seq<E>, k: int) -> Seq<(Arrow, NodeHandle)> decreases k { if k <= 0 { Seq::empty() } else if inp[k - 1].1[0] == inp[k - 1].1[1] { selfs(inp, k - 1).push((inp[k - 1].0, inp[k - 1].1[0])) } else { selfs(inp, k - 1) } }
pub proof fn lemma_links_in(ed: Seq<E>, n: int, a: NodeHandle, b: NodeHandle) requires chains_in(ed, n), links(ed, a, b) > 0 ensures a.idx < n, b.idx < n decreases ed.len()
{
    if ed.len() > 0 {
        let d = ed.drop_last(); assert forall|i: int| 0 <= i < d.len() implies in_range(#[trigger] d[i].1, n) by { assert(d[i] == ed[i]); }
        assert(in_range(ed[ed.len() - 1].1, n));
        if pairs(ed.last().1, a, b) > 0 { lemma_pairs_in(ed.last().1, n, a, b); } else { lemma_links_in(d, n, a, b); }
    }
}
pub proof fn lemma_pairs_in(s: Seq<NodeHandle>, n: int, a: NodeHandle, b: NodeHandle) requires in_range(s, n), pairs(s, a, b) > 0 ensures a.idx < n, b.idx < n decreases s.len()
{ if s.len() >= 2 { if s[s.len() - 2] == a && s.last() == b { assert(s[s.len() - 2].idx < n && s[s.len() - 1].idx < n); } else { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).idx < n by { assert(d[i] == s[i]); } lemma_pairs_in(d, n, a, b); } } }
pub proof fn lemma_edge_is(d: DAG, ed: Seq<E>, a: int, b: int) requires linked_ok(d, ed), chains_in(ed, d.n()) ensures d.edge(a, b) == ledge(ed, a, b)
{
    if 0 <= a < d.n() && 0 <= b < d.n() { lemma_cnt_is(d.succ(a), hd(b)); assert(cnt(d.succ(a), hd(b)) == links(ed, hd(a), hd(b))); }
    else if ledge(ed, a, b) { lemma_links_in(ed, d.n(), hd(a), hd(b)); }
}
pub proof fn lemma_reach_is(d: DAG, ed: Seq<E>, a: NodeHandle, b: NodeHandle) requires linked_ok(d, ed), chains_in(ed, d.n()), a.idx < d.n() ensures d.reaches(a.idx as int, b.idx as int) == lreaches(ed, a, b)
{
    if d.reaches(a.idx as int, b.idx as int) { let p = choose|p: Seq<int>| d.path(p) && p[0] == a.idx && p.last() == b.idx; assert forall|k: int| 0 <= k < p.len() - 1 implies #[trigger] ledge(ed, p[k], p[k + 1]) by { lemma_edge_is(d, ed, p[k], p[k + 1]); assert(d.edge(p[k], p[k + 1])); } assert(lpath(ed, p)); }
    if lreaches(ed, a, b) { let p = choose|p: Seq<int>| #[trigger] lpath(ed, p) && p[0] == a.idx && p.last() == b.idx; assert forall|k: int| 0 <= k < p.len() - 1 implies #[trigger] d.edge(p[k], p[k + 1]) by { lemma_edge_is(d, ed, p[k], p[k + 1]); assert(ledge(ed, p[k], p[k + 1])); } assert(d.path(p)); }
}
// a new edge keeps the graph acyclic when its target does not reach its source
pub proof fn lemma_stays_acyclic(o: DAG, d: DAG, a: int, b: int)
    requires o.acyclic(), o.targets_ok(), 0 <= a < o.n(), 0 <= b < o.n(), !o.reaches(b, a), d.n() == o.n(), forall|i: int| 0 <= i < o.n() ==> (#[trigger] d.succ(i)) == (if i == a { o.succ(i).push(hd(b)) } else { o.succ(i) }),
    ensures d.acyclic()
{
    let f = choose|f: spec_fn(int) -> int| o.up(f); let c = (if f(a) - f(b) >= 0 { f(a) - f(b) } else { 0 }) + 1;
    let g = |x: int| f(x) + (if o.reaches(b, x) { c } else { 0 });
    assert forall|x: int, y: int| #[trigger] d.edge(x, y) && x != y implies g(x) < g(y) by {
        assert(d.succ(x) == (if x == a { o.succ(x).push(hd(b)) } else { o.succ(x) }));
        if o.succ(x).contains(hd(y)) {
            assert(o.edge(x, y)); assert(f(x) < f(y));
            if o.reaches(b, x) { let p = choose|p: Seq<int>| o.path(p) && p[0] == b && p.last() == x; let q = p.push(y); assert forall|k: int| 0 <= k < q.len() - 1 implies #[trigger] o.edge(q[k], q[k + 1]) by { if k < p.len() - 1 { assert(o.edge(p[k], p[k + 1])); } } assert(q[0] == b && q.last() == y); assert(o.path(q)); assert(o.reaches(b, y)); }
        } else {
            let k = choose|k: int| 0 <= k < d.succ(x).len() && d.succ(x)[k] == hd(y);
            assert(x == a) by { if x != a { assert(o.succ(x)[k] == hd(y)); } }
            if k < o.succ(x).len() { assert(o.succ(x)[k] == hd(y)); }
            assert(y == b);
            assert(o.reaches(b, b)) by { assert(o.path(seq![b])); assert(seq![b].last() == b); }
        }
    }
    assert(d.up(g));
}
@end
@fn VisualGraph::to_valid_dag vxclone
requires old(self).ok(), chains_in(old(self).ed(), old(self).dag.n()), pairs_only(old(self).ed()),
    forall|i: int| 0 <= i < old(self).dag.n() ==> (#[trigger] old(self).dag.succ(i)).len() == 0,
ensures final(self).ok(), final(self).nodes == old(self).nodes, final(self).orientation == old(self).orientation, final(self).dag.n() == old(self).dag.n(), final(self).dag.ranks == old(self).dag.ranks, final(self).dag.validate == old(self).dag.validate,
    final(self).ed() == turned(old(self).ed(), old(self).ed().len() as int), final(self).self_edges@ == old(self).self_edges@ + selfs(old(self).ed(), old(self).ed().len() as int),
    final(self).dag.acyclic(), linked_ok(final(self).dag, final(self).ed()), chains_in(final(self).ed(), final(self).dag.n()), pairs_only(final(self).ed()), apart(final(self).ed()),
    selfs_in(old(self).self_edges@, old(self).dag.n()) ==> selfs_in(final(self).self_edges@, final(self).dag.n()),
@start
let ghost inp = self.ed();
@after "self.edges.clear()"
proof {
    assert(ev(edges@) == inp) by { lemma_ev_same(old(self).edges, edges); }
    assert(self.ed() =~= turned(inp, 0)); assert(self.self_edges@ =~= old(self).self_edges@ + selfs(inp, 0));
    let z = |x: int| 0int;
    assert forall|a: int, b: int| #[trigger] self.dag.edge(a, b) && a != b implies z(a) < z(b) by { assert(self.dag.succ(a).len() == 0); }
    assert(self.dag.up(z));
    assert forall|a: int, b: int| 0 <= a < self.dag.n() && 0 <= b < self.dag.n() implies #[trigger] cnt(self.dag.succ(a), hd(b)) == links(self.ed(), hd(a), hd(b)) by { assert(self.dag.succ(a) =~= Seq::empty()); lemma_cnt_empty(hd(b)); }
}
@loop 1 kind=vecown
invariant inp == old(self).ed(), ev(vx_a1) == inp, chains_in(inp, self.dag.n()), pairs_only(inp), self.ok(), self.dag.acyclic(), self.nodes == old(self).nodes, self.orientation == old(self).orientation, self.dag.n() == old(self).dag.n(), self.dag.ranks == old(self).dag.ranks, self.dag.validate == old(self).dag.validate,
    self.ed() == turned(inp, vx_i1 as int), self.self_edges@ == old(self).self_edges@ + selfs(inp, vx_i1 as int), linked_ok(self.dag, self.ed()), chains_in(self.ed(), self.dag.n()), pairs_only(self.ed()), apart(self.ed()),
    selfs_in(old(self).self_edges@, old(self).dag.n()) ==> selfs_in(self.self_edges@, self.dag.n()),
@loopstart 1
let ghost k = vx_i1 - 1; let ghost d0 = self.dag; let ghost e0 = self.ed(); let ghost s0 = self.self_edges@;
proof { assert(edge == vx_a1[k]); assert(inp[k] == (edge.0, edge.1@)); assert(inp[k].1.len() == 2); assert(in_range(inp[k].1, self.dag.n())); assert(edge.1@[0].idx < self.dag.n() && edge.1@[1].idx < self.dag.n()); assert(edge.1@ =~= seq![edge.1@[0], edge.1@[1]]); }
@before "continue;"
proof { assert(selfs(inp, k + 1) == selfs(inp, k).push((inp[k].0, inp[k].1[0]))); assert(self.self_edges@ =~= old(self).self_edges@ + selfs(inp, k + 1)); assert(turned(inp, k + 1) == turned(inp, k)); assert(self.ed() == e0); }
@before "if self.dag.is_reachable"
proof { lemma_reach_is(self.dag, self.ed(), to, from); if self.dag.reaches(to.idx as int, from.idx as int) { lemma_no_back2(self.dag, to.idx as int, from.idx as int); } }
@before "self.dag.verify();"
proof {
    assert(self.ed() == turned(inp, k + 1));
    assert(self.ed() == e0.push(self.ed().last()) && self.ed().last().1 == seq![from, to]);
    lemma_stays_acyclic(d0, self.dag, from.idx as int, to.idx as int);
    assert forall|a: int, b: int| 0 <= a < self.dag.n() && 0 <= b < self.dag.n() implies #[trigger] cnt(self.dag.succ(a), hd(b)) == links(self.ed(), hd(a), hd(b)) by {
        broadcast use lemma_cnt_push; lemma_links_push(e0, self.ed().last(), hd(a), hd(b)); lemma_pairs2(from, to, hd(a), hd(b)); assert(cnt(d0.succ(a), hd(b)) == links(e0, hd(a), hd(b)));
    }
}
@code
pub open spec fn selfs_in(s: Seq<(Arrow, NodeHandle)>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.idx < n }
pub open spec fn apart(ed: Seq<E>) -> bool { forall|i: int| 0 <= i < ed.len() ==> (#[trigger] ed[i]).1[0] != ed[i].1[1] }
// in an acyclic graph two different nodes do not reach each other
pub proof fn lemma_no_back2(d: DAG, a: int, b: int) requires d.acyclic(), d.reaches(a, b), a != b ensures !d.reaches(b, a)
{ let f = choose|f: spec_fn(int) -> int| d.up(f); lemma_up_path2(d, f, a, b); if d.reaches(b, a) { lemma_up_path2(d, f, b, a); } }
pub proof fn lemma_up_path2(d: DAG, f: spec_fn(int) -> int, a: int, b: int) requires d.up(f), d.reaches(a, b), a != b ensures f(a) < f(b)
{ let p = choose|p: Seq<int>| d.path(p) && p[0] == a && p.last() == b; lemma_up_strict(d, f, p, 0); }
pub proof fn lemma_up_strict(d: DAG, f: spec_fn(int) -> int, p: Seq<int>, k: int) requires d.up(f), d.path(p), 0 <= k < p.len() ensures f(p[k]) <= f(p.last()), f(p[k]) == f(p.last()) ==> p[k] == p.last() decreases p.len() - k
{ if k < p.len() - 1 { lemma_up_strict(d, f, p, k + 1); assert(d.edge(p[k], p[k + 1])); } }
@end
