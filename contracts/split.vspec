@module split
@use base text dag reach dagcheck types shapes graph sink cross
@file topo/layout.rs
@code
// ---- putting a connector between two neighbours of a chain ----
pub open spec fn b01(b: bool) -> int { if b { 1 } else { 0 } }
pub proof fn lemma_pairs_insert(s: Seq<NodeHandle>, i: int, c: NodeHandle, a: NodeHandle, b: NodeHandle)
    requires 0 < i < s.len(),
    ensures pairs(s.insert(i, c), a, b) == pairs(s, a, b) - b01(s[i - 1] == a && s[i] == b) + b01(s[i - 1] == a && c == b) + b01(c == a && s[i] == b)
    decreases s.len()
{
    let t = s.insert(i, c); let d = s.drop_last();
    if i < s.len() - 1 { assert(t.drop_last() =~= d.insert(i, c)); lemma_pairs_insert(d, i, c, a, b); assert(d[i] == s[i]); assert(t[t.len() - 2] == s[s.len() - 2]); }
    else {
        assert(t.drop_last() =~= d.push(c)); assert(d.push(c).drop_last() =~= d); assert(t[t.len() - 2] == c);
        assert(pairs(d.push(c), a, b) == pairs(d, a, b) + b01(s[i - 1] == a && c == b)) by { assert(d.push(c)[d.len() - 1] == s[i - 1]); }
    }
}
pub proof fn lemma_links_update(ed: Seq<E>, i: int, e: E, a: NodeHandle, b: NodeHandle)
    requires 0 <= i < ed.len(),
    ensures links(ed.update(i, e), a, b) + pairs(ed[i].1, a, b) == links(ed, a, b) + pairs(e.1, a, b)
    decreases ed.len()
{
    let q = ed.update(i, e);
    if i == ed.len() - 1 { assert(q.drop_last() =~= ed.drop_last()); } else { assert(q.drop_last() =~= ed.drop_last().update(i, e)); lemma_links_update(ed.drop_last(), i, e, a, b); }
}
pub proof fn lemma_ev_update(v: Seq<(Arrow, Vec<NodeHandle>)>, i: int, x: (Arrow, Vec<NodeHandle>)) requires 0 <= i < v.len() ensures ev(v.update(i, x)) == ev(v).update(i, (x.0, x.1@)) { assert(ev(v.update(i, x)) =~= ev(v).update(i, (x.0, x.1@))); }
// the edge from p to q becomes one from p to c and one from c to q
pub open spec fn resplit(o: DAG, d: DAG, p: int, c: int, q: int) -> bool {
    &&& d.n() == o.n() && 0 <= p < o.n() && 0 <= c < o.n() && 0 <= q < o.n() && p != c && q != c && p != q
    &&& o.succ(c).len() == 0 && o.pred(c).len() == 0 && o.succ(p).contains(hd(q))
    &&& forall|i: int| 0 <= i < o.n() ==> (#[trigger] d.succ(i)) == (if i == p { rm1(o.succ(p), hd(q)).push(hd(c)) } else if i == c { seq![hd(q)] } else { o.succ(i) })
}
pub proof fn lemma_rm1_cnt(s: Seq<NodeHandle>, q: NodeHandle, h: NodeHandle) requires s.contains(q) ensures cnt(rm1(s, q), h) == cnt(s, h) - b01(h == q)
{ broadcast use lemma_cnt_remove; lemma_first_exists(s, q); }
pub proof fn lemma_resplit_cnt(o: DAG, d: DAG, p: int, c: int, q: int, a: int, b: int) requires resplit(o, d, p, c, q), 0 <= a < o.n(), 0 <= b < o.n()
    ensures cnt(d.succ(a), hd(b)) == cnt(o.succ(a), hd(b)) - b01(a == p && b == q) + b01(a == p && b == c) + b01(a == c && b == q)
{
    broadcast use lemma_cnt_push; lemma_cnt_empty(hd(b));
    assert(d.succ(a) == (if a == p { rm1(o.succ(p), hd(q)).push(hd(c)) } else if a == c { seq![hd(q)] } else { o.succ(a) }));
    if a == p { lemma_rm1_cnt(o.succ(p), hd(q), hd(b)); }
    if a == c { assert(o.succ(c) =~= Seq::empty()); assert(seq![hd(q)] =~= Seq::<NodeHandle>::empty().push(hd(q))); }
}
pub proof fn lemma_resplit_edge(o: DAG, d: DAG, p: int, c: int, q: int, a: int, b: int) requires resplit(o, d, p, c, q), d.edge(a, b), o.mirror() ensures (o.edge(a, b) && a != c && b != c) || (a == p && b == c) || (a == c && b == q)
{ lemma_resplit_cnt(o, d, p, c, q, a, b); lemma_cnt_is(d.succ(a), hd(b)); lemma_cnt_is(o.succ(a), hd(b)); if b == c { assert(cnt(o.succ(a), hd(c)) == cnt(o.pred(c), hd(a))); assert(o.pred(c) =~= Seq::empty()); lemma_cnt_empty(hd(a)); } if a == c { assert(o.succ(c) =~= Seq::empty()); lemma_cnt_empty(hd(b)); } }
pub proof fn lemma_resplit_acyclic(o: DAG, d: DAG, p: int, c: int, q: int) requires resplit(o, d, p, c, q), o.acyclic(), o.mirror() ensures d.acyclic()
{
    let f = choose|f: spec_fn(int) -> int| o.up(f); let g = |x: int| if x == c { 2 * f(p) + 1 } else { 2 * f(x) };
    assert(o.edge(p, q)); assert(f(p) < f(q));
    assert forall|a: int, b: int| #[trigger] d.edge(a, b) && a != b implies g(a) < g(b) by { lemma_resplit_edge(o, d, p, c, q, a, b); if o.edge(a, b) { assert(f(a) < f(b)); } }
    assert(d.up(g));
}
// the list of edges follows
pub proof fn lemma_resplit_links(o: DAG, d: DAG, ed: Seq<E>, k: int, i: int, c: int, e: E)
    requires linked_ok(o, ed), chains_in(ed, o.n()), 0 <= k < ed.len(), 0 < i < ed[k].1.len(), 0 <= c < o.n(), e.1 == ed[k].1.insert(i, hd(c)), resplit(o, d, ed[k].1[i - 1].idx as int, c, ed[k].1[i].idx as int),
    ensures linked_ok(d, ed.update(k, e)), chains_in(ed.update(k, e), d.n())
{
    let q = ed.update(k, e); let s = ed[k].1;
    assert forall|a: int, b: int| 0 <= a < d.n() && 0 <= b < d.n() implies #[trigger] cnt(d.succ(a), hd(b)) == links(q, hd(a), hd(b)) by {
        lemma_resplit_cnt(o, d, s[i - 1].idx as int, c, s[i].idx as int, a, b); lemma_pairs_insert(s, i, hd(c), hd(a), hd(b)); lemma_links_update(ed, k, e, hd(a), hd(b));
        assert(cnt(o.succ(a), hd(b)) == links(ed, hd(a), hd(b)));
    }
    assert forall|j: int| 0 <= j < q.len() implies in_range(#[trigger] q[j].1, d.n()) by { assert(in_range(ed[j].1, o.n())); if j == k { let t = s.insert(i, hd(c)); assert forall|x: int| 0 <= x < t.len() implies (#[trigger] t[x]).idx < d.n() by { if x < i { assert(t[x] == s[x]); } else if x > i { assert(t[x] == s[x - 1]); } } } }
}
// a new node has no links
pub proof fn lemma_fresh_links(o: DAG, m: DAG, ed: Seq<E>) requires linked_ok(o, ed), chains_in(ed, o.n()), o.targets_ok(), m.n() == o.n() + 1, m.n() <= usize::MAX, m.succ(o.n()).len() == 0, forall|i: int| 0 <= i < o.n() ==> (#[trigger] m.succ(i)) == o.succ(i) ensures linked_ok(m, ed), chains_in(ed, m.n())
{
    assert forall|a: int, b: int| 0 <= a < m.n() && 0 <= b < m.n() implies #[trigger] cnt(m.succ(a), hd(b)) == links(ed, hd(a), hd(b)) by {
        if a < o.n() && b < o.n() { assert(m.succ(a) == o.succ(a)); assert(cnt(o.succ(a), hd(b)) == links(ed, hd(a), hd(b))); }
        else {
            if links(ed, hd(a), hd(b)) > 0 { lemma_links_in(ed, o.n(), hd(a), hd(b)); }
            if a == o.n() { assert(m.succ(a) =~= Seq::empty()); lemma_cnt_empty(hd(b)); }
            else { assert(m.succ(a) == o.succ(a)); assert(in_range(o.succ(a), o.n())); lemma_cnt_is(o.succ(a), hd(b)); }
        }
    }
    assert forall|j: int| 0 <= j < ed.len() implies in_range(#[trigger] ed[j].1, m.n()) by { assert(in_range(ed[j].1, o.n())); }
}
pub proof fn lemma_fresh_acyclic(o: DAG, m: DAG) requires o.acyclic(), m.n() == o.n() + 1, m.n() <= usize::MAX, o.targets_ok(), m.succ(o.n()).len() == 0, forall|i: int| 0 <= i < o.n() ==> (#[trigger] m.succ(i)) == o.succ(i) ensures m.acyclic()
{
    let f = choose|f: spec_fn(int) -> int| o.up(f);
    assert forall|a: int, b: int| #[trigger] m.edge(a, b) && a != b implies f(a) < f(b) by {
        assert(a != o.n()); assert(m.succ(a) == o.succ(a)); assert(in_range(o.succ(a), o.n())); let i = choose|i: int| 0 <= i < o.succ(a).len() && o.succ(a)[i] == hd(b); assert(o.succ(a)[i].idx < o.n()); assert(o.edge(a, b));
    }
    assert(m.up(f));
}
// a listed pair is an edge
pub proof fn lemma_pairs_at(s: Seq<NodeHandle>, i: int) requires 0 < i < s.len() ensures pairs(s, s[i - 1], s[i]) > 0 decreases s.len()
{ if i < s.len() - 1 { assert(s.drop_last()[i] == s[i] && s.drop_last()[i - 1] == s[i - 1]); lemma_pairs_at(s.drop_last(), i); } }
pub proof fn lemma_links_at(ed: Seq<E>, k: int, a: NodeHandle, b: NodeHandle) requires 0 <= k < ed.len() ensures links(ed, a, b) >= pairs(ed[k].1, a, b) decreases ed.len()
{ if k < ed.len() - 1 { assert(ed.drop_last()[k] == ed[k]); lemma_links_at(ed.drop_last(), k, a, b); } }
pub proof fn lemma_listed(d: DAG, ed: Seq<E>, k: int, i: int) requires linked_ok(d, ed), chains_in(ed, d.n()), 0 <= k < ed.len(), 0 < i < ed[k].1.len() ensures d.succ(ed[k].1[i - 1].idx as int).contains(ed[k].1[i]), ed[k].1[i - 1].idx < d.n(), ed[k].1[i].idx < d.n()
{
    let s = ed[k].1; let a = s[i - 1]; let b = s[i]; assert(in_range(ed[k].1, d.n())); assert(s[i - 1].idx < d.n() && s[i].idx < d.n());
    assert(hd(a.idx as int) == a && hd(b.idx as int) == b);
    lemma_pairs_at(s, i); lemma_links_at(ed, k, a, b); assert(cnt(d.succ(a.idx as int), hd(b.idx as int)) == links(ed, a, b)); lemma_cnt_is(d.succ(a.idx as int), b);
}
// ---- labelled edges ----
pub open spec fn bare(a: Arrow, b: Arrow) -> bool { b.text@.len() == 0 && b == Arrow { text: b.text, ..a } }
// how many of the first k edges have a label
pub open spec fn texts(ed: Seq<E>, k: int) -> int decreases k { if k <= 0 { 0 } else { texts(ed, k - 1) + b01(ed[k - 1].0.text@.len() > 0) } }
// the edge e went through connector c if it has a label: the label and its style moved there
pub open spec fn holds(g: Element, a: Arrow) -> bool { conn(g) && tidy(g) && ltext(g) == a.text@ && g.look == a.look }
pub open spec fn relabelled(e: E, f: E, c: int, nodes: Seq<Element>) -> bool { if e.0.text@.len() == 0 { f == e } else { bare(e.0, f.0) && f.1 =~= e.1.insert(1, hd(c)) && 0 <= c < nodes.len() && holds(nodes[c], e.0) } }
pub open spec fn text_split(inp: Seq<E>, out: Seq<E>, nodes: Seq<Element>, n0: int, k: int) -> bool {
    out.len() == inp.len() && (forall|i: int| 0 <= i < k ==> #[trigger] relabelled(inp[i], out[i], n0 + texts(inp, i), nodes)) && (forall|i: int| k <= i < inp.len() ==> out[i] == inp[i])
}
pub open spec fn kept(a: Seq<Element>, b: Seq<Element>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> a[i] == b[i] }
pub proof fn lemma_texts(ed: Seq<E>, k: int) ensures 0 <= texts(ed, k), k >= 0 ==> texts(ed, k) <= k decreases k { if k > 0 { lemma_texts(ed, k - 1); } }
pub proof fn lemma_text_step(inp: Seq<E>, c0: Seq<E>, c1: Seq<E>, v0: Seq<Element>, v1: Seq<Element>, n0: int, k: int)
    requires 0 <= k < inp.len(), text_split(inp, c0, v0, n0, k), kept(v0, v1), v0.len() == n0 + texts(inp, k), c1 == c0.update(k, c1[k]), relabelled(inp[k], c1[k], n0 + texts(inp, k), v1),
    ensures text_split(inp, c1, v1, n0, k + 1)
{
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] relabelled(inp[i], c1[i], n0 + texts(inp, i), v1) by {
        if i < k { assert(relabelled(inp[i], c0[i], n0 + texts(inp, i), v0)); assert(c1[i] == c0[i]); }
    }
}
@end
@fn VisualGraph::split_text_edges vxclone
requires old(self).ok(), chains_in(old(self).ed(), old(self).dag.n()), pairs_only(old(self).ed()), apart(old(self).ed()), linked_ok(old(self).dag, old(self).ed()), old(self).dag.acyclic(), old(self).dag.n() + old(self).ed().len() <= usize::MAX,
ensures final(self).ok(), final(self).self_edges == old(self).self_edges, final(self).orientation == old(self).orientation, kept(old(self).nodes@, final(self).nodes@),
    final(self).dag.n() == old(self).dag.n() + texts(old(self).ed(), old(self).ed().len() as int),
    text_split(old(self).ed(), final(self).ed(), final(self).nodes@, old(self).dag.n(), old(self).ed().len() as int),
    final(self).dag.acyclic(), linked_ok(final(self).dag, final(self).ed()), chains_in(final(self).ed(), final(self).dag.n()),
@start
let ghost inp = self.ed(); let ghost n0 = self.dag.n();
@loopbefore 1
proof { lemma_ev_same(self.edges, edges); }
@loop 1
invariant inp == old(self).ed(), n0 == old(self).dag.n(), self.ok(), self.edges == old(self).edges, self.self_edges == old(self).self_edges, self.orientation == old(self).orientation, kept(old(self).nodes@, self.nodes@), old(self).nodes.len() == n0,
    edges.len() == inp.len(), pairs_only(inp), apart(inp), n0 + inp.len() <= usize::MAX, text_split(inp, ev(edges@), self.nodes@, n0, vx_i1 as int), self.dag.n() == n0 + texts(inp, vx_i1 as int),
    self.dag.acyclic(), linked_ok(self.dag, ev(edges@)), chains_in(ev(edges@), self.dag.n()),
@looptop 1
let ghost k = vx_i1 as int; let ghost c0 = ev(edges@); let ghost es0 = edges@; let ghost d0 = self.dag; let ghost v0 = self.nodes@;
proof { assert(c0[k] == inp[k]); assert(inp[k].1.len() == 2); assert(inp[k].1[0] != inp[k].1[1]); lemma_texts(inp, k); lemma_listed(self.dag, c0, k, 1); }
@before "continue;"
proof { assert(edges@ =~= es0); assert(texts(inp, k + 1) == texts(inp, k)); assert(c0 == c0.update(k, c0[k])); lemma_text_step(inp, c0, c0, v0, v0, n0, k); }
@after "let conn = self.add_node(conn)"
let ghost d1 = self.dag;
proof { lemma_fresh_links(d0, d1, c0); lemma_fresh_acyclic(d0, d1); }
@loopend 1
proof {
    let c1 = ev(edges@); let e1 = edges@[k];
    assert(edges@ =~= es0.update(k, e1)); lemma_ev_update(es0, k, e1);
    assert(c1[k].1 =~= c0[k].1.insert(1, conn));
    lemma_resplit_acyclic(d1, self.dag, from.idx as int, conn.idx as int, to.idx as int);
    lemma_resplit_links(d1, self.dag, c0, k, 1, conn.idx as int, c1[k]);
    lemma_text_step(inp, c0, c1, v0, self.nodes@, n0, k);
}
@code
// ---- a fresh node put on a row ----
pub proof fn lemma_almost_fresh(r: Rk, n: int) requires ranks_wf(r, n), 0 <= n < usize::MAX ensures almost(r, n + 1, hd(n))
{ reveal(ranks_wf); if on_rank(r, hd(n)) { let (l, i) = choose|l: int, i: int| is_pos(r, l, i) && at(r, l, i) == hd(n); assert(at(r, l, i).idx < n); } assert forall|l: int, i: int| is_pos(r, l, i) implies (#[trigger] at(r, l, i)).idx < n + 1 by { assert(at(r, l, i).idx < n); } assert forall|h: NodeHandle| h.idx < n + 1 && h != hd(n) implies #[trigger] on_rank(r, h) by { assert(h.idx != n); } }
pub open spec fn spot(row: Seq<NodeHandle>, before: Option<NodeHandle>) -> int { match before { None => row.len() as int, Some(m) => first(row, m) } }
pub open spec fn put(r: Rk, lvl: int, x: NodeHandle, before: Option<NodeHandle>) -> Rk { r.update(lvl, spec_place(r[lvl], x, before)) }
#[verifier::spinoff_prover]
pub proof fn lemma_fresh_move(r: Rk, n: int, lvl: int, before: Option<NodeHandle>)
    requires ranks_wf(r, n), 0 <= n < usize::MAX, 0 <= lvl < r.len(), before.is_some() ==> r[lvl].contains(before.unwrap()),
    ensures spec_move(r.update(0, r[0].push(hd(n))), hd(n), lvl, before) == put(r, lvl, hd(n), before)
{
    let c = hd(n); lemma_almost_fresh(r, n); let p0 = r[0].len() as int; assert(r[0].push(c) =~= r[0].insert(p0, c));
    lemma_insert(r, n + 1, c, 0, p0); lemma_pad(r, lvl + 1);
}
#[verifier::spinoff_prover]
pub proof fn lemma_put(r: Rk, n: int, lvl: int, before: Option<NodeHandle>)
    requires ranks_wf(r, n), 0 <= n < usize::MAX, 0 <= lvl < r.len(), before.is_some() ==> r[lvl].contains(before.unwrap()),
    ensures ranks_wf(put(r, lvl, hd(n), before), n + 1), rank_of(put(r, lvl, hd(n), before), hd(n)) == lvl
{ lemma_almost_fresh(r, n); lemma_place(r[lvl], hd(n), before); lemma_insert(r, n + 1, hd(n), lvl, spot(r[lvl], before)); }
#[verifier::spinoff_prover]
pub proof fn lemma_put_rank(r: Rk, n: int, lvl: int, before: Option<NodeHandle>, h: NodeHandle)
    requires ranks_wf(r, n), 0 <= n < usize::MAX, 0 <= lvl < r.len(), before.is_some() ==> r[lvl].contains(before.unwrap()), h.idx < n,
    ensures rank_of(put(r, lvl, hd(n), before), h) == rank_of(r, h)
{
    let d = put(r, lvl, hd(n), before); lemma_put(r, n, lvl, before); lemma_place(r[lvl], hd(n), before); let p = spot(r[lvl], before);
    lemma_on_rank(r, n, h); let l = rank_of(r, h); let i = choose|i: int| 0 <= i < r[l].len() && r[l][i] == h;
    assert(d.len() == r.len());
    if l == lvl { if i < p { assert(d[l][i] == h); } else { assert(d[l][i + 1] == h); } } else { assert(d[l] == r[l]); }
    assert(d[l].contains(h));
    lemma_rank_of(d, n + 1, h, l);
}
pub proof fn lemma_fresh_place(r: Rk, n: int, lvl: int, before: Option<NodeHandle>)
    requires ranks_wf(r, n), 0 <= n < usize::MAX, 0 <= lvl < r.len(), before.is_some() ==> r[lvl].contains(before.unwrap()),
    ensures ({ let d = put(r, lvl, hd(n), before); spec_move(r.update(0, r[0].push(hd(n))), hd(n), lvl, before) == d && ranks_wf(d, n + 1) && rank_of(d, hd(n)) == lvl
        && forall|h: NodeHandle| h.idx < n ==> #[trigger] rank_of(d, h) == rank_of(r, h) }),
{
    lemma_fresh_move(r, n, lvl, before); lemma_put(r, n, lvl, before);
    assert forall|h: NodeHandle| h.idx < n implies #[trigger] rank_of(put(r, lvl, hd(n), before), h) == rank_of(r, h) by { lemma_put_rank(r, n, lvl, before, h); }
}
pub proof fn lemma_place_gap(r: Rk, lvl: int, x: NodeHandle, before: Option<NodeHandle>) requires no_gap(r), 0 <= lvl < r.len(), before.is_some() ==> r[lvl].contains(before.unwrap()) ensures no_gap(put(r, lvl, x, before))
{ lemma_place(r[lvl], x, before); let d = r.update(lvl, spec_place(r[lvl], x, before)); assert forall|l: int| 0 <= l < d.len() implies (#[trigger] d[l]).len() > 0 by { assert(r[l].len() > 0); } }
// ---- self edges ----
// x stands directly in front of v, or of another of the connectors of v
#[verifier::opaque]
pub open spec fn beside(r: Rk, x: NodeHandle, v: NodeHandle, se: Seq<(Arrow, NodeHandle)>, n0: int, k: int) -> bool {
    exists|l: int, i: int| is_pos(r, l, i) && is_pos(r, l, i + 1) && #[trigger] at(r, l, i) == x && (r[l][i + 1] == v || exists|j: int| 0 <= j < k && #[trigger] hd(n0 + j) == r[l][i + 1] && se[j].1 == v)
}
pub proof fn lemma_beside(r: Rk, d: Rk, x: NodeHandle, v: NodeHandle, se: Seq<(Arrow, NodeHandle)>, n0: int, k: int, lvl: int)
    requires beside(r, x, v, se, n0, k), 0 <= k < se.len(), 0 <= n0, n0 + k < usize::MAX, 0 <= lvl < r.len(), r[lvl].contains(se[k].1), v.idx < n0, se[k].1.idx < n0, d == put(r, lvl, hd(n0 + k), Some(se[k].1)),
    ensures beside(d, x, v, se, n0, k + 1)
{
    reveal(beside);
    let (l, i) = choose|l: int, i: int| is_pos(r, l, i) && is_pos(r, l, i + 1) && #[trigger] at(r, l, i) == x && (r[l][i + 1] == v || exists|j: int| 0 <= j < k && #[trigger] hd(n0 + j) == r[l][i + 1] && se[j].1 == v);
    let m = se[k].1; let p = first(r[lvl], m); lemma_first_exists(r[lvl], m);
    if r[l][i + 1] != v { let j = choose|j: int| 0 <= j < k && #[trigger] hd(n0 + j) == r[l][i + 1] && se[j].1 == v; assert(hd(n0 + j).idx == n0 + j); assert(r[l][i + 1] != m); }
    if l != lvl { assert(d[l] == r[l]); assert(at(d, l, i) == x && is_pos(d, l, i + 1)); }
    else if i + 1 < p { assert(at(d, l, i) == x && d[l][i + 1] == r[l][i + 1]); assert(is_pos(d, l, i + 1)); }
    else if i + 1 == p { assert(at(d, l, i) == x && d[l][i + 1] == hd(n0 + k)); assert(is_pos(d, l, i + 1)); assert(r[l][p] == m); assert(v == m); }
    else { assert(at(d, l, i + 1) == x && d[l][i + 1 + 1] == r[l][i + 1]); assert(is_pos(d, l, i + 1 + 1)); }
}
pub proof fn lemma_beside_new(r: Rk, d: Rk, se: Seq<(Arrow, NodeHandle)>, n0: int, k: int, lvl: int)
    requires 0 <= k < se.len(), 0 <= lvl < r.len(), r[lvl].contains(se[k].1), d == put(r, lvl, hd(n0 + k), Some(se[k].1)),
    ensures beside(d, hd(n0 + k), se[k].1, se, n0, k + 1)
{ reveal(beside); let p = first(r[lvl], se[k].1); lemma_first_exists(r[lvl], se[k].1); assert(at(d, lvl, p) == hd(n0 + k) && d[lvl][p + 1] == se[k].1 && is_pos(d, lvl, p) && is_pos(d, lvl, p + 1)); }
// the self edge s became the chain v - c - v
pub open spec fn looped(s: (Arrow, NodeHandle), f: E, c: int, nodes: Seq<Element>) -> bool { bare(s.0, f.0) && f.1 =~= seq![s.1, hd(c), s.1] && 0 <= c < nodes.len() && holds(nodes[c], s.0) }
#[verifier::opaque]
pub open spec fn expanded(se: Seq<(Arrow, NodeHandle)>, inp: Seq<E>, out: Seq<E>, nodes: Seq<Element>, r: Rk, n0: int, k: int) -> bool {
    out.len() == inp.len() + k && (forall|j: int| 0 <= j < inp.len() ==> out[j] == inp[j])
    && forall|j: int| 0 <= j < k ==> #[trigger] looped(se[j], out[inp.len() + j], n0 + j, nodes) && beside(r, hd(n0 + j), se[j].1, se, n0, k) && rank_of(r, hd(n0 + j)) == rank_of(r, se[j].1)
}
// the graph o with k unlinked nodes more; the others keep their ranks
#[verifier::opaque]
pub open spec fn wider(o: DAG, d: DAG, k: int) -> bool {
    d.n() == o.n() + k && d.rk().len() == o.rk().len() && d.validate == o.validate && (forall|i: int| 0 <= i < o.n() ==> #[trigger] d.succ(i) == o.succ(i) && d.pred(i) == o.pred(i)) && (forall|i: int| o.n() <= i < d.n() ==> (#[trigger] d.succ(i)).len() == 0 && d.pred(i).len() == 0)
    && (forall|h: NodeHandle| h.idx < o.n() ==> #[trigger] rank_of(d.rk(), h) == rank_of(o.rk(), h)) && (no_gap(o.rk()) ==> no_gap(d.rk()))
}
pub proof fn lemma_wider_step(o: DAG, d0: DAG, d1: DAG, d: DAG, k: int, lvl: int, before: Option<NodeHandle>)
    requires wider(o, d0, k), d0.wf(), one_more(d0, d1), d.nodes == d1.nodes, d.validate == d0.validate, 0 <= lvl < d0.rk().len(), before.is_some() ==> d0.rk()[lvl].contains(before.unwrap()), d.rk() == put(d0.rk(), lvl, hd(d0.n()), before), k >= 0,
    ensures wider(o, d, k + 1)
{
    reveal(wider);
    assert forall|i: int| 0 <= i < o.n() implies #[trigger] d.succ(i) == o.succ(i) && d.pred(i) == o.pred(i) by { assert(d0.succ(i) == o.succ(i)); assert(d1.succ(i) == d0.succ(i)); }
    assert forall|i: int| o.n() <= i < d.n() implies (#[trigger] d.succ(i)).len() == 0 && d.pred(i).len() == 0 by { assert(d1.succ(i) == d.succ(i)); if i < d0.n() { assert(d0.succ(i).len() == 0); assert(d1.succ(i) == d0.succ(i)); } }
    assert forall|h: NodeHandle| h.idx < o.n() implies #[trigger] rank_of(d.rk(), h) == rank_of(o.rk(), h) by { lemma_put_rank(d0.rk(), d0.n(), lvl, before, h); }
    if no_gap(o.rk()) { lemma_place_gap(d0.rk(), lvl, hd(d0.n()), before); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_expanded_step(se: Seq<(Arrow, NodeHandle)>, inp: Seq<E>, c0: Seq<E>, c1: Seq<E>, v0: Seq<Element>, v1: Seq<Element>, d0: DAG, d: DAG, n0: int, k: int, lvl: int)
    requires 0 <= k < se.len(), selfs_in(se, n0), expanded(se, inp, c0, v0, d0.rk(), n0, k), kept(v0, v1), c1.len() == c0.len() + 1, c1 =~= c0.push(c1.last()), d0.n() == n0 + k, d0.wf(), 0 <= n0, n0 + k < usize::MAX,
        0 <= lvl < d0.rk().len(), d0.rk()[lvl].contains(se[k].1), d.rk() == put(d0.rk(), lvl, hd(n0 + k), Some(se[k].1)), looped(se[k], c1.last(), n0 + k, v1),
    ensures expanded(se, inp, c1, v1, d.rk(), n0, k + 1)
{
    reveal(expanded); let b = Some(se[k].1); lemma_put(d0.rk(), d0.n(), lvl, b);
    assert forall|j: int| 0 <= j < k + 1 implies #[trigger] looped(se[j], c1[inp.len() + j], n0 + j, v1) && beside(d.rk(), hd(n0 + j), se[j].1, se, n0, k + 1) && rank_of(d.rk(), hd(n0 + j)) == rank_of(d.rk(), se[j].1) by {
        assert(se[j].1.idx < n0); lemma_put_rank(d0.rk(), d0.n(), lvl, b, se[j].1);
        if j < k { assert(looped(se[j], c0[inp.len() + j], n0 + j, v0)); assert(c1[inp.len() + j] == c0[inp.len() + j]); assert(v1[n0 + j] == v0[n0 + j]); assert(looped(se[j], c1[inp.len() + j], n0 + j, v1)); lemma_beside(d0.rk(), d.rk(), hd(n0 + j), se[j].1, se, n0, k, lvl); assert(hd(n0 + j).idx < d0.n()); lemma_put_rank(d0.rk(), d0.n(), lvl, b, hd(n0 + j)); }
        else { lemma_beside_new(d0.rk(), d.rk(), se, n0, k, lvl); lemma_rank_of(d0.rk(), d0.n(), se[k].1, lvl); assert(c1[inp.len() + j] == c1.last()); }
    }
    assert forall|j: int| 0 <= j < inp.len() implies c1[j] == inp[j] by { assert(c1[j] == c0[j]); }
}
@end
@fn VisualGraph::expand_self_edges vxclone rlimit=80 spinoff_prover isolate
requires old(self).ok(), selfs_in(old(self).self_edges@, old(self).dag.n()), old(self).dag.n() + old(self).self_edges.len() < usize::MAX,
ensures final(self).ok(), final(self).self_edges.len() == 0, final(self).orientation == old(self).orientation, kept(old(self).nodes@, final(self).nodes@), wider(old(self).dag, final(self).dag, old(self).self_edges.len() as int),
    expanded(old(self).self_edges@, old(self).ed(), final(self).ed(), final(self).nodes@, final(self).dag.rk(), old(self).dag.n(), old(self).self_edges.len() as int),
@start
let ghost inp = self.ed(); let ghost n0 = self.dag.n(); let ghost se0 = self.self_edges@;
proof { if se0.len() > 0 { assert(se0[0].1.idx < n0); lemma_on_rank(self.dag.rk(), n0, se0[0].1); } }
@loop 1
invariant inp == old(self).ed(), n0 == old(self).dag.n(), se0 == old(self).self_edges@, vx_s1@ =~= se0, self.ok(), self.orientation == old(self).orientation, kept(old(self).nodes@, self.nodes@), old(self).nodes.len() == n0, selfs_in(se0, n0), n0 + se0.len() < usize::MAX,
    self.dag.n() == n0 + vx_i1, wider(old(self).dag, self.dag, vx_i1 as int), expanded(se0, inp, self.ed(), self.nodes@, self.dag.rk(), n0, vx_i1 as int), old(self).ok(),
@loopbefore 1
proof { assert(self.ed() =~= inp); reveal(wider); reveal(expanded); }
@looptop 1
let ghost k = vx_i1 as int; let ghost d0 = self.dag; let ghost v0 = self.nodes@; let ghost c0 = self.ed(); let ghost es0 = self.edges@;
@loopstart 1
proof { assert(*se == se0[k]); assert(se0[k].1.idx < n0); lemma_on_rank(d0.rk(), d0.n(), se.1); lemma_contains_on(d0.rk(), rank_of(d0.rk(), se.1), se.1); }
@after "let conn = self.add_node(conn)"
let ghost d1 = self.dag;
proof { assert(d0.ranks.len() <= usize::MAX); lemma_pad(d0.rk(), 1); lemma_fresh_place(d0.rk(), d0.n(), level as int, Some(node)); assert(d1.rk()[level as int].contains(node)) by { let i = choose|i: int| 0 <= i < d0.rk()[level as int].len() && d0.rk()[level as int][i] == node; assert(d1.rk()[level as int][i] == node); } }
@loopend 1
proof {
    lemma_ev_push(es0, self.edges@.last()); assert(self.edges@ =~= es0.push(self.edges@.last()));
    lemma_wider_step(old(self).dag, d0, d1, self.dag, k, level as int, Some(node));
    lemma_expanded_step(se0, inp, c0, self.ed(), v0, self.nodes@, d0, self.dag, n0, k, level as int);
}
@code
// ---- the number of links ----
pub type F1 = spec_fn(int) -> int;
pub open spec fn sum1(f: F1, k: int) -> int decreases k { if k <= 0 { 0 } else { sum1(f, k - 1) + f(k - 1) } }
pub open spec fn sum2(f: F2, n: int, m: int) -> int { sum1(|a: int| sum1(|b: int| f(a, b), m), n) }
pub proof fn lemma_sum1_ext(f: F1, g: F1, k: int) requires forall|i: int| 0 <= i < k ==> #[trigger] f(i) == g(i) ensures sum1(f, k) == sum1(g, k) decreases k { if k > 0 { lemma_sum1_ext(f, g, k - 1); assert(f(k - 1) == g(k - 1)); } }
pub proof fn lemma_sum1_add(f: F1, g: F1, h: F1, k: int) requires forall|i: int| 0 <= i < k ==> #[trigger] h(i) == f(i) + g(i) ensures sum1(h, k) == sum1(f, k) + sum1(g, k) decreases k { if k > 0 { lemma_sum1_add(f, g, h, k - 1); assert(h(k - 1) == f(k - 1) + g(k - 1)); } }
pub proof fn lemma_sum1_at(f: F1, x: int, k: int) requires forall|i: int| 0 <= i < k && i != x ==> #[trigger] f(i) == 0 ensures sum1(f, k) == (if 0 <= x < k { f(x) } else { 0 }) decreases k { if k > 0 { lemma_sum1_at(f, x, k - 1); if k - 1 != x { assert(f(k - 1) == 0); } } }
pub proof fn lemma_sum2_add(f: F2, g: F2, h: F2, n: int, m: int) requires forall|a: int, b: int| 0 <= a < n && 0 <= b < m ==> #[trigger] h(a, b) == f(a, b) + g(a, b) ensures sum2(h, n, m) == sum2(f, n, m) + sum2(g, n, m)
{
    let ff = |a: int| sum1(|b: int| f(a, b), m); let gg = |a: int| sum1(|b: int| g(a, b), m); let hh = |a: int| sum1(|b: int| h(a, b), m);
    assert forall|a: int| 0 <= a < n implies #[trigger] hh(a) == ff(a) + gg(a) by { let f1 = |b: int| f(a, b); let g1 = |b: int| g(a, b); let h1 = |b: int| h(a, b); assert forall|b: int| 0 <= b < m implies #[trigger] h1(b) == f1(b) + g1(b) by { assert(h(a, b) == f(a, b) + g(a, b)); } lemma_sum1_add(f1, g1, h1, m); }
    lemma_sum1_add(ff, gg, hh, n);
}
pub proof fn lemma_sum2_at(f: F2, x: int, y: int, n: int, m: int) requires 0 <= x < n, 0 <= y < m, f(x, y) == 1, forall|a: int, b: int| 0 <= a < n && 0 <= b < m && !(a == x && b == y) ==> #[trigger] f(a, b) == 0 ensures sum2(f, n, m) == 1
{
    let ff = |a: int| sum1(|b: int| f(a, b), m);
    assert forall|a: int| 0 <= a < n && a != x implies #[trigger] ff(a) == 0 by { let f1 = |b: int| f(a, b); assert forall|b: int| 0 <= b < m && b != y implies #[trigger] f1(b) == 0 by { assert(f(a, b) == 0); } lemma_sum1_at(f1, y, m); assert(f(a, y) == 0); }
    let fx = |b: int| f(x, b); assert forall|b: int| 0 <= b < m && b != y implies #[trigger] fx(b) == 0 by { assert(f(x, b) == 0); } lemma_sum1_at(fx, y, m);
    lemma_sum1_at(ff, x, n);
}
pub proof fn lemma_sum2_zero(f: F2, n: int, m: int) requires forall|a: int, b: int| 0 <= a < n && 0 <= b < m ==> #[trigger] f(a, b) == 0 ensures sum2(f, n, m) == 0
{ let ff = |a: int| sum1(|b: int| f(a, b), m); assert forall|a: int| 0 <= a < n && a != -1 implies #[trigger] ff(a) == 0 by { let f1 = |b: int| f(a, b); assert forall|b: int| 0 <= b < m && b != -1 implies #[trigger] f1(b) == 0 by { assert(f(a, b) == 0); } lemma_sum1_at(f1, -1, m); } lemma_sum1_at(ff, -1, n); }
pub open spec fn fp(s: Seq<NodeHandle>, t: bool) -> F2 { |a: int, b: int| if t { pairs(s, hd(b), hd(a)) as int } else { pairs(s, hd(a), hd(b)) as int } }
pub open spec fn fl(ed: Seq<E>, t: bool) -> F2 { |a: int, b: int| if t { links(ed, hd(b), hd(a)) as int } else { links(ed, hd(a), hd(b)) as int } }
pub open spec fn steps(ed: Seq<E>) -> int decreases ed.len() { if ed.len() == 0 { 0 } else { steps(ed.drop_last()) + (if ed.last().1.len() > 0 { ed.last().1.len() - 1 } else { 0 }) } }
pub proof fn lemma_sum_pairs(s: Seq<NodeHandle>, t: bool, n: int) requires in_range(s, n), 0 <= n <= usize::MAX ensures sum2(fp(s, t), n, n) == (if s.len() > 0 { s.len() - 1 } else { 0 }) decreases s.len()
{
    if s.len() < 2 { lemma_sum2_zero(fp(s, t), n, n); }
    else {
        let d = s.drop_last(); assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).idx < n by { assert(d[k] == s[k]); } lemma_sum_pairs(d, t, n);
        let x = s[s.len() - 2]; let y = s.last(); assert(x.idx < n); assert(s[s.len() - 1].idx < n);
        let g = |a: int, b: int| if t { b01(x == hd(b) && y == hd(a)) } else { b01(x == hd(a) && y == hd(b)) };
        assert(hd(x.idx as int) == x && hd(y.idx as int) == y);
        assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies #[trigger] fp(s, t)(a, b) == fp(d, t)(a, b) + g(a, b) by { }
        lemma_sum2_add(fp(d, t), g, fp(s, t), n, n);
        if t { lemma_sum2_at(g, y.idx as int, x.idx as int, n, n); } else { lemma_sum2_at(g, x.idx as int, y.idx as int, n, n); }
    }
}
pub proof fn lemma_sum_links(ed: Seq<E>, t: bool, n: int) requires chains_in(ed, n), 0 <= n <= usize::MAX ensures sum2(fl(ed, t), n, n) == steps(ed) decreases ed.len()
{
    if ed.len() == 0 { lemma_sum2_zero(fl(ed, t), n, n); }
    else {
        let d = ed.drop_last(); assert forall|k: int| 0 <= k < d.len() implies in_range(#[trigger] d[k].1, n) by { assert(d[k] == ed[k]); } lemma_sum_links(d, t, n);
        assert(in_range(ed[ed.len() - 1].1, n)); lemma_sum_pairs(ed.last().1, t, n);
        lemma_sum2_add(fl(d, t), fp(ed.last().1, t), fl(ed, t), n, n);
    }
}
pub proof fn lemma_all_cnt_sum(s: Seq<NodeHandle>, f: F1, k: int) requires forall|i: int| 0 <= i < k ==> #[trigger] f(i) == cnt(s, hd(i)) ensures all_cnt(s, k) == sum1(f, k) decreases k { if k > 0 { lemma_all_cnt_sum(s, f, k - 1); assert(f(k - 1) == cnt(s, hd(k - 1))); } }
pub proof fn lemma_wt_is(d: DAG, ed: Seq<E>, a: int) requires linked_ok(d, ed), d.wf(), 0 <= a < d.n()
    ensures wt(d, hd(a)) == sum1(|b: int| fl(ed, false)(a, b), d.n()) + sum1(|b: int| fl(ed, true)(a, b), d.n())
{
    let n = d.n(); assert(in_range(d.succ(a), n) && in_range(d.pred(a), n)); lemma_all_cnt(d.succ(a), n); lemma_all_cnt(d.pred(a), n);
    let f = |b: int| fl(ed, false)(a, b); let g = |b: int| fl(ed, true)(a, b);
    assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == cnt(d.succ(a), hd(i)) by { }
    assert forall|i: int| 0 <= i < n implies #[trigger] g(i) == cnt(d.pred(a), hd(i)) by { assert(cnt(d.succ(i), hd(a)) == cnt(d.pred(a), hd(i))); assert(cnt(d.succ(i), hd(a)) == links(ed, hd(i), hd(a))); }
    lemma_all_cnt_sum(d.succ(a), f, n); lemma_all_cnt_sum(d.pred(a), g, n);
}
pub proof fn lemma_wts_sum(d: DAG, ed: Seq<E>, f: F1, g: F1, k: int) requires linked_ok(d, ed), d.wf(), 0 <= k <= d.n(), f == (|a: int| sum1(|b: int| fl(ed, false)(a, b), d.n())), g == (|a: int| sum1(|b: int| fl(ed, true)(a, b), d.n())) ensures wts(d, k) == sum1(f, k) + sum1(g, k) decreases k
{ if k > 0 { lemma_wts_sum(d, ed, f, g, k - 1); lemma_wt_is(d, ed, k - 1); } }
// every step of a chain is one link
pub proof fn lemma_links_total(d: DAG, ed: Seq<E>) requires linked_ok(d, ed), chains_in(ed, d.n()), d.wf() ensures wts(d, d.n()) == 2 * steps(ed)
{ lemma_sum_links(ed, false, d.n()); lemma_sum_links(ed, true, d.n()); lemma_wts_sum(d, ed, |a: int| sum1(|b: int| fl(ed, false)(a, b), d.n()), |a: int| sum1(|b: int| fl(ed, true)(a, b), d.n()), d.n()); }
pub proof fn lemma_wt_le(d: DAG, a: int, k: int) requires 0 <= a < k <= d.n() ensures wt(d, hd(a)) <= wts(d, k) decreases k { if k - 1 > a { lemma_wt_le(d, a, k - 1); } else { lemma_wts_pos(d, k - 1); } }
pub proof fn lemma_wts_pos(d: DAG, k: int) ensures wts(d, k) >= 0 decreases k { if k > 0 { lemma_wts_pos(d, k - 1); } }
pub proof fn lemma_few_links(d: DAG, ed: Seq<E>) requires linked_ok(d, ed), chains_in(ed, d.n()), d.wf(), 2 * steps(ed) <= usize::MAX ensures few_links(d)
{ lemma_links_total(d, ed); assert forall|i: int| 0 <= i < d.n() implies (#[trigger] d.succ(i)).len() + d.pred(i).len() <= usize::MAX by { lemma_wt_le(d, i, d.n()); assert(hd(i).idx == i); } }
pub proof fn lemma_steps_le(ed: Seq<E>, l: int) requires forall|j: int| 0 <= j < ed.len() ==> (#[trigger] ed[j]).1.len() <= l, l >= 0 ensures 0 <= steps(ed) <= ed.len() * l decreases ed.len()
{ if ed.len() > 0 { let d = ed.drop_last(); assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]).1.len() <= l by { assert(d[j] == ed[j]); } lemma_steps_le(d, l); assert(ed[ed.len() - 1].1.len() <= l); assert((ed.len() - 1) * l + l == ed.len() * l) by(nonlinear_arith); } else { assert(ed.len() * l == 0) by(nonlinear_arith) requires ed.len() == 0; } }
// ---- chains over the ranks ----
pub open spec fn rko(r: Rk, h: NodeHandle) -> int { rank_of(r, h) }
pub open spec fn rising(s: Seq<NodeHandle>, r: Rk) -> bool { forall|i: int| 0 < i < s.len() ==> rko(r, s[i - 1]) < rko(r, #[trigger] s[i]) }
// each of the first m elements is one rank below the one before it
pub open spec fn stepping(s: Seq<NodeHandle>, r: Rk, m: int) -> bool { forall|i: int| 0 < i < m ==> rko(r, s[i - 1]) + 1 == rko(r, #[trigger] s[i]) }
pub open spec fn all_rising(ed: Seq<E>, r: Rk) -> bool { forall|j: int| 0 <= j < ed.len() ==> rising(#[trigger] ed[j].1, r) }
pub open spec fn all_stepping(ed: Seq<E>, r: Rk, k: int) -> bool { forall|j: int| 0 <= j < k ==> stepping(#[trigger] ed[j].1, r, ed[j].1.len() as int) }
pub open spec fn no_stop(ed: Seq<E>) -> bool { forall|j: int| 0 <= j < ed.len() ==> (#[trigger] ed[j]).1.len() >= 2 && forall|i: int| 0 < i < ed[j].1.len() ==> ed[j].1[i - 1] != #[trigger] ed[j].1[i] }
pub proof fn lemma_rising(d: DAG, ed: Seq<E>) requires down(d), linked_ok(d, ed), chains_in(ed, d.n()), no_stop(ed) ensures all_rising(ed, d.rk())
{
    assert forall|j: int| 0 <= j < ed.len() implies rising(#[trigger] ed[j].1, d.rk()) by {
        let s = ed[j].1;
        assert forall|i: int| 0 < i < s.len() implies rko(d.rk(), s[i - 1]) < rko(d.rk(), #[trigger] s[i]) by { lemma_listed(d, ed, j, i); assert(s[i - 1] != s[i]); assert(hd(s[i].idx as int) == s[i] && hd(s[i - 1].idx as int) == s[i - 1]); assert(real_edge(d, s[i - 1].idx as int, s[i].idx as int)); }
    }
}
pub proof fn lemma_rising_len(s: Seq<NodeHandle>, r: Rk, n: int, i: int) requires rising(s, r), in_range(s, n), ranks_wf(r, n), 0 <= i < s.len() ensures i <= rko(r, s[i]) < r.len() decreases i
{ assert(s[i].idx < n); lemma_on_rank(r, n, s[i]); if i > 0 { lemma_rising_len(s, r, n, i - 1); } }
pub proof fn lemma_chain_len(s: Seq<NodeHandle>, r: Rk, n: int) requires rising(s, r), in_range(s, n), ranks_wf(r, n) ensures s.len() <= r.len() { if s.len() > 0 { lemma_rising_len(s, r, n, s.len() - 1); } }
pub proof fn lemma_chains_len(d: DAG, ed: Seq<E>) requires all_rising(ed, d.rk()), chains_in(ed, d.n()), d.wf() ensures forall|j: int| 0 <= j < ed.len() ==> (#[trigger] ed[j]).1.len() <= d.rk().len(), 0 <= steps(ed) <= ed.len() * d.rk().len()
{ assert forall|j: int| 0 <= j < ed.len() implies (#[trigger] ed[j]).1.len() <= d.rk().len() by { assert(rising(ed[j].1, d.rk())); assert(in_range(ed[j].1, d.n())); lemma_chain_len(ed[j].1, d.rk(), d.n()); } lemma_steps_le(ed, d.rk().len() as int); }
// ---- what was inserted ----
// the elements that were there before
pub open spec fn olds(s: Seq<NodeHandle>, n1: int) -> Seq<NodeHandle> decreases s.len() { if s.len() == 0 { s } else if s.last().idx < n1 { olds(s.drop_last(), n1).push(s.last()) } else { olds(s.drop_last(), n1) } }
pub proof fn lemma_olds_same(s: Seq<NodeHandle>, n1: int) requires in_range(s, n1) ensures olds(s, n1) == s decreases s.len()
{ if s.len() > 0 { let d = s.drop_last(); assert forall|k: int| 0 <= k < d.len() implies (#[trigger] d[k]).idx < n1 by { assert(d[k] == s[k]); } lemma_olds_same(d, n1); assert(s[s.len() - 1].idx < n1); assert(d.push(s.last()) =~= s); } }
pub proof fn lemma_olds_insert(s: Seq<NodeHandle>, i: int, c: NodeHandle, n1: int) requires 0 <= i <= s.len(), c.idx >= n1 ensures olds(s.insert(i, c), n1) == olds(s, n1) decreases s.len()
{ let t = s.insert(i, c); if i == s.len() { assert(t.drop_last() =~= s); } else { assert(t.drop_last() =~= s.drop_last().insert(i, c)); assert(t.last() == s.last()); lemma_olds_insert(s.drop_last(), i, c, n1); } }
// the same edge with further elements between its ends
pub open spec fn refined1(e: E, f: E, n1: int) -> bool { f.0 == e.0 && olds(f.1, n1) == e.1 && f.1.len() >= 2 && f.1[0] == e.1[0] && f.1.last() == e.1.last() }
pub open spec fn refined(inp: Seq<E>, cur: Seq<E>, n1: int) -> bool { inp.len() == cur.len() && forall|j: int| 0 <= j < inp.len() ==> #[trigger] refined1(inp[j], cur[j], n1) }
// a new element is on one chain, once
pub open spec fn fresh_once(ed: Seq<E>, n1: int) -> bool { forall|j: int, i: int, l: int, m: int| #![trigger ed[j].1[i], ed[l].1[m]] 0 <= j < ed.len() && 0 <= i < ed[j].1.len() && 0 <= l < ed.len() && 0 <= m < ed[l].1.len() && ed[j].1[i] == ed[l].1[m] && ed[j].1[i].idx >= n1 ==> j == l && i == m }
pub open spec fn plain(nodes: Seq<Element>, n1: int) -> bool { forall|h: int| n1 <= h < nodes.len() ==> conn(#[trigger] nodes[h]) && tidy(nodes[h]) && ltext(nodes[h]).len() == 0 }
// what holds while connectors are being inserted
#[verifier::opaque]
pub open spec fn mid(d: DAG, nodes: Seq<Element>, cur: Seq<E>, inp: Seq<E>, v1: Seq<Element>, l: int) -> bool {
    &&& d.wf() && nodes.len() == d.n() && d.rk().len() == l && no_gap(d.rk()) && down(d)
    &&& linked_ok(d, cur) && chains_in(cur, d.n()) && all_rising(cur, d.rk())
    &&& kept(v1, nodes) && plain(nodes, v1.len() as int) && refined(inp, cur, v1.len() as int) && fresh_once(cur, v1.len() as int)
}
pub proof fn lemma_mid_start(d: DAG, v: Seq<Element>, ed: Seq<E>) requires d.wf(), v.len() == d.n(), no_gap(d.rk()), down(d), linked_ok(d, ed), chains_in(ed, d.n()), no_stop(ed) ensures mid(d, v, ed, ed, v, d.rk().len() as int)
{
    reveal(mid); lemma_rising(d, ed);
    assert forall|j: int| 0 <= j < ed.len() implies #[trigger] refined1(ed[j], ed[j], v.len() as int) by { assert(in_range(ed[j].1, d.n())); lemma_olds_same(ed[j].1, d.n()); assert(ed[j].1.len() >= 2); }
    assert forall|j: int, i: int, l: int, m: int| #![trigger ed[j].1[i], ed[l].1[m]] 0 <= j < ed.len() && 0 <= i < ed[j].1.len() && 0 <= l < ed.len() && 0 <= m < ed[l].1.len() && ed[j].1[i] == ed[l].1[m] && ed[j].1[i].idx >= v.len() implies j == l && i == m by { assert(in_range(ed[j].1, d.n())); }
}
// one connector goes in: what the pieces of mid need
pub open spec fn mid_a(d: DAG, n: int, l: int) -> bool { d.wf() && n == d.n() && d.rk().len() == l && no_gap(d.rk()) && down(d) }
pub open spec fn mid_b(d: DAG, cur: Seq<E>) -> bool { linked_ok(d, cur) && chains_in(cur, d.n()) }
pub open spec fn mid_c(nodes: Seq<Element>, cur: Seq<E>, inp: Seq<E>, v1: Seq<Element>) -> bool { kept(v1, nodes) && plain(nodes, v1.len() as int) && refined(inp, cur, v1.len() as int) && fresh_once(cur, v1.len() as int) }
pub open spec fn gap_at(r: Rk, cur: Seq<E>, k: int, i: int, n: int) -> bool { 0 <= k < cur.len() && 0 < i < cur[k].1.len() && in_range(cur[k].1, n) && rko(r, cur[k].1[i - 1]) + 1 < rko(r, cur[k].1[i]) }
#[verifier::spinoff_prover]
pub proof fn lemma_ins_ranks(r: Rk, n: int, p: NodeHandle, q: NodeHandle, s: Rk)
    requires ranks_wf(r, n), 0 <= n < usize::MAX, no_gap(r), p.idx < n, q.idx < n, rko(r, p) + 1 < rko(r, q), s == put(r, rko(r, p) + 1, hd(n), None)
    ensures no_gap(s), s.len() == r.len(), ranks_wf(s, n + 1), forall|h: NodeHandle| h.idx < n ==> #[trigger] rank_of(s, h) == rank_of(r, h), rank_of(s, hd(n)) == rko(r, p) + 1
{
    let lvl = rko(r, p) + 1;
    lemma_on_rank(r, n, q); lemma_on_rank(r, n, p);
    lemma_put(r, n, lvl, None);
    assert forall|h: NodeHandle| h.idx < n implies #[trigger] rank_of(s, h) == rank_of(r, h) by { lemma_put_rank(r, n, lvl, None, h); }
    lemma_place_gap(r, lvl, hd(n), None);
}
#[verifier::spinoff_prover]
pub proof fn lemma_ins_down(o: DAG, m: DAG, e: DAG, d: DAG, p: NodeHandle, q: NodeHandle)
    requires o.wf(), down(o), one_more(o, m), p.idx < o.n(), q.idx < o.n(), rko(o.rk(), p) + 1 < rko(o.rk(), q), resplit(m, e, p.idx as int, o.n(), q.idx as int), d.nodes == e.nodes, d.wf(), m.n() <= usize::MAX,
        forall|h: NodeHandle| h.idx < o.n() ==> #[trigger] rank_of(d.rk(), h) == rank_of(o.rk(), h), rank_of(d.rk(), hd(o.n())) == rko(o.rk(), p) + 1,
    ensures down(d)
{
    lemma_new_node(o, m);
    assert forall|a: int, b: int| #[trigger] real_edge(d, a, b) implies rank_of(d.rk(), hd(a)) < rank_of(d.rk(), hd(b)) by {
        assert(d.succ(a) == e.succ(a)); assert(e.edge(a, b)); lemma_resplit_edge(m, e, p.idx as int, o.n(), q.idx as int, a, b);
        assert(hd(p.idx as int) == p && hd(q.idx as int) == q);
        if m.edge(a, b) && a != o.n() && b != o.n() { assert(m.succ(a) == o.succ(a)); assert(real_edge(o, a, b)); assert(hd(a).idx < o.n() && hd(b).idx < o.n()); }
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_ins_linked(o: DAG, m: DAG, e: DAG, d: DAG, cur: Seq<E>, k: int, i: int)
    requires o.wf(), mid_b(o, cur), one_more(o, m), m.n() <= usize::MAX, 0 <= k < cur.len(), 0 < i < cur[k].1.len(), resplit(m, e, cur[k].1[i - 1].idx as int, o.n(), cur[k].1[i].idx as int), d.nodes == e.nodes,
    ensures mid_b(d, cur.update(k, (cur[k].0, cur[k].1.insert(i, hd(o.n())))))
{
    let f = (cur[k].0, cur[k].1.insert(i, hd(o.n()))); let q = cur.update(k, f);
    lemma_new_node(o, m);
    lemma_fresh_links(o, m, cur); lemma_resplit_links(m, e, cur, k, i, o.n(), f);
    assert forall|a: int, b: int| 0 <= a < d.n() && 0 <= b < d.n() implies #[trigger] cnt(d.succ(a), hd(b)) == links(q, hd(a), hd(b)) by { assert(d.succ(a) == e.succ(a)); assert(cnt(e.succ(a), hd(b)) == links(q, hd(a), hd(b))); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_rising_insert(r: Rk, s: Rk, n: int, w: Seq<NodeHandle>, i: int)
    requires rising(w, r), in_range(w, n), 0 < i < w.len(), rko(r, w[i - 1]) + 1 < rko(r, w[i]), 0 <= n < usize::MAX,
        forall|h: NodeHandle| h.idx < n ==> #[trigger] rank_of(s, h) == rank_of(r, h), rank_of(s, hd(n)) == rko(r, w[i - 1]) + 1,
    ensures rising(w.insert(i, hd(n)), s)
{
    let c = hd(n); let t = w.insert(i, c);
    assert forall|y: int| 0 < y < t.len() implies rko(s, t[y - 1]) < rko(s, #[trigger] t[y]) by {
        let y0 = if y < i { y } else { y - 1 };
        if y == i { assert(t[y - 1] == w[i - 1] && t[y] == c); }
        else if y == i + 1 { assert(t[y - 1] == c && t[y] == w[i]); }
        else { assert(t[y] == w[y0] && t[y - 1] == w[y0 - 1]); assert(rko(r, w[y0 - 1]) < rko(r, w[y0])); }
    }
}
pub proof fn lemma_rising_same(r: Rk, s: Rk, n: int, w: Seq<NodeHandle>)
    requires rising(w, r), in_range(w, n), forall|h: NodeHandle| h.idx < n ==> #[trigger] rank_of(s, h) == rank_of(r, h), ensures rising(w, s)
{ assert forall|y: int| 0 < y < w.len() implies rko(s, w[y - 1]) < rko(s, #[trigger] w[y]) by { assert(rko(r, w[y - 1]) < rko(r, w[y])); assert(w[y - 1].idx < n && w[y].idx < n); } }
#[verifier::spinoff_prover]
pub proof fn lemma_ins_rising(r: Rk, s: Rk, n: int, cur: Seq<E>, k: int, i: int)
    requires all_rising(cur, r), chains_in(cur, n), gap_at(r, cur, k, i, n), 0 <= n < usize::MAX,
        forall|h: NodeHandle| h.idx < n ==> #[trigger] rank_of(s, h) == rank_of(r, h), rank_of(s, hd(n)) == rko(r, cur[k].1[i - 1]) + 1,
    ensures all_rising(cur.update(k, (cur[k].0, cur[k].1.insert(i, hd(n)))), s)
{
    let q = cur.update(k, (cur[k].0, cur[k].1.insert(i, hd(n))));
    assert forall|j: int| 0 <= j < q.len() implies rising(#[trigger] q[j].1, s) by {
        assert(rising(cur[j].1, r)); assert(in_range(cur[j].1, n));
        if j == k { lemma_rising_insert(r, s, n, cur[k].1, i); } else { lemma_rising_same(r, s, n, cur[j].1); }
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_ins_new(v0: Seq<Element>, v: Seq<Element>, cur: Seq<E>, inp: Seq<E>, v1: Seq<Element>, n: int, k: int, i: int)
    requires mid_c(v0, cur, inp, v1), v0.len() == n, chains_in(cur, n), 0 <= n < usize::MAX, 0 <= k < cur.len(), 0 < i < cur[k].1.len(),
        v == v0.push(v.last()), v.len() == v0.len() + 1, conn(v.last()), tidy(v.last()), ltext(v.last()).len() == 0,
    ensures mid_c(v, cur.update(k, (cur[k].0, cur[k].1.insert(i, hd(n)))), inp, v1)
{
    let s = cur[k].1; let c = hd(n); let f = (cur[k].0, s.insert(i, c)); let q = cur.update(k, f); let n1 = v1.len() as int;
    assert forall|j: int| 0 <= j < inp.len() implies #[trigger] refined1(inp[j], q[j], n1) by { assert(refined1(inp[j], cur[j], n1)); if j == k { lemma_olds_insert(s, i, c, n1); } }
    lemma_fresh_once(cur, k, i, n, n1, f);
    assert forall|h: int| n1 <= h < v.len() implies conn(#[trigger] v[h]) && tidy(v[h]) && ltext(v[h]).len() == 0 by { if h < v0.len() { assert(v[h] == v0[h]); } }
    assert(kept(v1, v)) by { assert forall|h: int| 0 <= h < v1.len() implies v1[h] == v[h] by { assert(v0[h] == v[h]); } }
}
#[verifier::spinoff_prover]
pub proof fn lemma_mid_insert(o: DAG, m: DAG, e: DAG, d: DAG, v0: Seq<Element>, v: Seq<Element>, cur: Seq<E>, inp: Seq<E>, v1: Seq<Element>, l: int, k: int, i: int)
    requires mid(o, v0, cur, inp, v1, l), o.n() < usize::MAX, one_more(o, m), 0 <= k < cur.len(), 0 < i < cur[k].1.len(), resplit(m, e, cur[k].1[i - 1].idx as int, o.n(), cur[k].1[i].idx as int), d.nodes == e.nodes, d.wf(),
        rko(o.rk(), cur[k].1[i - 1]) + 1 < rko(o.rk(), cur[k].1[i]), d.rk() == put(o.rk(), rko(o.rk(), cur[k].1[i - 1]) + 1, hd(o.n()), None),
        v == v0.push(v.last()), v.len() == v0.len() + 1, conn(v.last()), tidy(v.last()), ltext(v.last()).len() == 0,
    ensures mid(d, v, cur.update(k, (cur[k].0, cur[k].1.insert(i, hd(o.n())))), inp, v1, l),
        forall|h: NodeHandle| h.idx < o.n() ==> #[trigger] rank_of(d.rk(), h) == rank_of(o.rk(), h), rank_of(d.rk(), hd(o.n())) == rko(o.rk(), cur[k].1[i - 1]) + 1,
{
    reveal(mid);
    let s = cur[k].1;
    assert(in_range(s, o.n())); assert(s[i - 1].idx < o.n() && s[i].idx < o.n());
    lemma_new_node(o, m);
    lemma_ins_ranks(o.rk(), o.n(), s[i - 1], s[i], d.rk());
    lemma_ins_down(o, m, e, d, s[i - 1], s[i]);
    lemma_ins_linked(o, m, e, d, cur, k, i);
    lemma_ins_rising(o.rk(), d.rk(), o.n(), cur, k, i);
    lemma_ins_new(v0, v, cur, inp, v1, o.n(), k, i);
}
pub proof fn lemma_fresh_once(cur: Seq<E>, k: int, i: int, n: int, n1: int, f: E) requires fresh_once(cur, n1), chains_in(cur, n), 0 <= n <= usize::MAX, 0 <= k < cur.len(), 0 < i < cur[k].1.len(), f.1 == cur[k].1.insert(i, hd(n)) ensures fresh_once(cur.update(k, f), n1)
{
    let q = cur.update(k, f); let s = cur[k].1; let t = f.1;
    assert forall|j: int, x: int, l: int, y: int| #![trigger q[j].1[x], q[l].1[y]] 0 <= j < q.len() && 0 <= x < q[j].1.len() && 0 <= l < q.len() && 0 <= y < q[l].1.len() && q[j].1[x] == q[l].1[y] && q[j].1[x].idx >= n1 implies j == l && x == y by {
        let x0 = if j == k && x > i { x - 1 } else { x }; let y0 = if l == k && y > i { y - 1 } else { y };
        assert(in_range(cur[j].1, n) && in_range(cur[l].1, n));
        if !(j == k && x == i) { assert(q[j].1[x] == cur[j].1[x0]); } if !(l == k && y == i) { assert(q[l].1[y] == cur[l].1[y0]); }
        if j == k && x == i { assert(q[j].1[x] == hd(n)); if !(l == k && y == i) { assert(cur[l].1[y0].idx < n); } }
        else if l == k && y == i { assert(q[l].1[y] == hd(n)); assert(cur[j].1[x0].idx < n); }
        else { assert(cur[j].1[x0] == cur[l].1[y0]); }
    }
}
pub proof fn lemma_chain_at(d: DAG, s: Seq<NodeHandle>, l: int) requires d.wf(), d.rk().len() == l, in_range(s, d.n())
    ensures forall|i: int| 0 <= i < s.len() ==> 0 <= rko(d.rk(), #[trigger] s[i]) < l && on_rank(d.rk(), s[i]) && s[i].idx < d.n()
{ assert forall|i: int| 0 <= i < s.len() implies 0 <= rko(d.rk(), #[trigger] s[i]) < l && on_rank(d.rk(), s[i]) && s[i].idx < d.n() by { lemma_on_rank(d.rk(), d.n(), s[i]); lemma_contains_on(d.rk(), rko(d.rk(), s[i]), s[i]); } }
pub proof fn lemma_chain_links(d: DAG, ed: Seq<E>, k: int) requires linked_ok(d, ed), chains_in(ed, d.n()), 0 <= k < ed.len()
    ensures forall|i: int| 0 < i < ed[k].1.len() ==> d.succ(ed[k].1[i - 1].idx as int).contains(#[trigger] ed[k].1[i])
{ let s = ed[k].1; assert forall|i: int| 0 < i < s.len() implies d.succ(s[i - 1].idx as int).contains(#[trigger] s[i]) by { lemma_listed(d, ed, k, i); } }
#[verifier::spinoff_prover]
pub proof fn lemma_mid_at(d: DAG, v: Seq<Element>, cur: Seq<E>, inp: Seq<E>, v1: Seq<Element>, l: int, k: int)
    requires mid(d, v, cur, inp, v1, l), 0 <= k < cur.len(),
    ensures d.wf(), v.len() == d.n(), d.rk().len() == l, in_range(cur[k].1, d.n()), rising(cur[k].1, d.rk()), cur[k].1.len() <= l, 2 <= cur[k].1.len(), cur.len() == inp.len(), chains_in(cur, d.n()), d.acyclic(),
        forall|i: int| 0 <= i < cur[k].1.len() ==> 0 <= rko(d.rk(), #[trigger] cur[k].1[i]) < l && on_rank(d.rk(), cur[k].1[i]) && cur[k].1[i].idx < d.n(),
        forall|i: int| 0 < i < cur[k].1.len() ==> d.succ(cur[k].1[i - 1].idx as int).contains(#[trigger] cur[k].1[i]),
{
    let s = cur[k].1;
    assert(d.wf() && v.len() == d.n() && d.rk().len() == l && cur.len() == inp.len() && linked_ok(d, cur) && chains_in(cur, d.n()) && down(d) && all_rising(cur, d.rk()) && refined1(inp[k], cur[k], v1.len() as int)) by { reveal(mid); }
    assert(in_range(s, d.n())); assert(rising(s, d.rk())); lemma_chain_len(s, d.rk(), d.n()); lemma_down_acyclic(d);
    lemma_chain_at(d, s, l); lemma_chain_links(d, cur, k);
}
pub proof fn lemma_stepping_keep(r: Rk, s: Rk, n: int, w: Seq<NodeHandle>, m: int)
    requires stepping(w, r, m), in_range(w, n), m <= w.len(), forall|h: NodeHandle| h.idx < n ==> #[trigger] rank_of(s, h) == rank_of(r, h), ensures stepping(w, s, m)
{ assert forall|y: int| 0 < y < m implies rko(s, w[y - 1]) + 1 == rko(s, #[trigger] w[y]) by { assert(rko(r, w[y - 1]) + 1 == rko(r, w[y])); assert(w[y - 1].idx < n && w[y].idx < n); } }
pub proof fn lemma_stepping_insert(r: Rk, s: Rk, n: int, w: Seq<NodeHandle>, i: int, c: NodeHandle)
    requires stepping(w, r, i), in_range(w, n), 0 < i <= w.len(), forall|h: NodeHandle| h.idx < n ==> #[trigger] rank_of(s, h) == rank_of(r, h), ensures stepping(w.insert(i, c), s, i)
{ let t = w.insert(i, c); assert forall|y: int| 0 < y < i implies rko(s, t[y - 1]) + 1 == rko(s, #[trigger] t[y]) by { assert(t[y] == w[y] && t[y - 1] == w[y - 1]); assert(rko(r, w[y - 1]) + 1 == rko(r, w[y])); assert(w[y - 1].idx < n && w[y].idx < n); } }
pub proof fn lemma_all_stepping_keep(r: Rk, s: Rk, n: int, cur: Seq<E>, k: int)
    requires all_stepping(cur, r, k), chains_in(cur, n), 0 <= k <= cur.len(), forall|h: NodeHandle| h.idx < n ==> #[trigger] rank_of(s, h) == rank_of(r, h), ensures all_stepping(cur, s, k)
{ assert forall|j: int| 0 <= j < k implies stepping(#[trigger] cur[j].1, s, cur[j].1.len() as int) by { assert(stepping(cur[j].1, r, cur[j].1.len() as int)); assert(in_range(cur[j].1, n)); lemma_stepping_keep(r, s, n, cur[j].1, cur[j].1.len() as int); } }
pub proof fn lemma_all_stepping_update(r: Rk, cur: Seq<E>, k: int, f: E)
    requires all_stepping(cur, r, k), 0 <= k < cur.len(), stepping(f.1, r, f.1.len() as int), ensures all_stepping(cur.update(k, f), r, k + 1)
{ let q = cur.update(k, f); assert forall|j: int| 0 <= j < k + 1 implies stepping(#[trigger] q[j].1, r, q[j].1.len() as int) by { if j < k { assert(q[j] == cur[j]); assert(stepping(cur[j].1, r, cur[j].1.len() as int)); } else { assert(q[j] == f); } } }
pub proof fn lemma_all_stepping_at(r: Rk, cur: Seq<E>, k: int, f: E)
    requires all_stepping(cur, r, k), 0 <= k < cur.len(), ensures all_stepping(cur.update(k, f), r, k)
{ let q = cur.update(k, f); assert forall|j: int| 0 <= j < k implies stepping(#[trigger] q[j].1, r, q[j].1.len() as int) by { assert(q[j] == cur[j]); assert(stepping(cur[j].1, r, cur[j].1.len() as int)); } }
pub proof fn lemma_down_same(o: DAG, d: DAG) requires down(o), d.nodes == o.nodes, forall|h: NodeHandle| h.idx < o.n() ==> #[trigger] rank_of(d.rk(), h) == rank_of(o.rk(), h), o.targets_ok(), o.n() <= usize::MAX ensures down(d)
{ assert forall|a: int, b: int| #[trigger] real_edge(d, a, b) implies rank_of(d.rk(), hd(a)) < rank_of(d.rk(), hd(b)) by { assert(d.succ(a) == o.succ(a)); assert(real_edge(o, a, b)); assert(hd(a).idx < o.n() && hd(b).idx < o.n()); } }
pub proof fn lemma_same_list(v: Vec<NodeHandle>, w: Vec<NodeHandle>) requires v.same(w) ensures v@ == w@
{ assert(v@ =~= w@) by { assert forall|k: int| 0 <= k < v.len() implies v[k] == w[k] by { assert(v[k].same(w[k])); } } }
pub proof fn lemma_same_links(o: DAG, d: DAG, ed: Seq<E>) requires linked_ok(o, ed), d.nodes == o.nodes ensures linked_ok(d, ed)
{ assert forall|a: int, b: int| 0 <= a < d.n() && 0 <= b < d.n() implies #[trigger] cnt(d.succ(a), hd(b)) == links(ed, hd(a), hd(b)) by { assert(d.succ(a) == o.succ(a)); } }
// the pass that moves nodes down can run
pub proof fn lemma_can_sink(d: DAG, ed: Seq<E>)
    requires d.wf(), levelled(d), linked_ok(d, ed), chains_in(ed, d.n()), no_stop(ed), 0 < d.n(), d.n() + ed.len() * d.n() <= 0x4000_0000,
    ensures sinkable(d), no_empty(d), d.acyclic()
{
    lemma_on_rank(d.rk(), d.n(), hd(0)); lemma_levelled_spine(d); assert(down(d)); lemma_down_acyclic(d); lemma_rising(d, ed); lemma_chains_len(d, ed);
    lemma_count(d.rk(), d.n()); assert(no_gap(d.rk())); lemma_sum_len(d.rk());
    assert(ed.len() * d.rk().len() <= ed.len() * d.n()) by(nonlinear_arith) requires d.rk().len() <= d.n(), ed.len() >= 0;
    lemma_few_links(d, ed);
}
// the graph after the connectors went in, before the self edges
pub open spec fn spaced(o: DAG, ed: Seq<E>, v: Seq<Element>, d: DAG, cur: Seq<E>, nodes: Seq<Element>) -> bool {
    &&& d.wf() && d.n() >= o.n() && down(d) && no_gap(d.rk()) && linked_ok(d, cur) && chains_in(cur, d.n()) && all_stepping(cur, d.rk(), cur.len() as int)
    &&& refined(ed, cur, o.n()) && fresh_once(cur, o.n())
    &&& nodes.len() >= d.n() && kept(v, nodes) && forall|h: int| o.n() <= h < d.n() ==> conn(#[trigger] nodes[h]) && tidy(nodes[h]) && ltext(nodes[h]).len() == 0
}
pub open spec fn split_ok(o: VisualGraph, f: VisualGraph, d: DAG, cur: Seq<E>) -> bool {
    &&& spaced(o.dag, o.ed(), o.nodes@, d, cur, f.nodes@)
    &&& wider(d, f.dag, o.self_edges.len() as int)
    &&& expanded(o.self_edges@, cur, f.ed(), f.nodes@, f.dag.rk(), d.n(), o.self_edges.len() as int)
}
@end
@fn VisualGraph::split_long_edges vxclone rlimit=100 spinoff_prover
requires old(self).ok(), linked_ok(old(self).dag, old(self).ed()), chains_in(old(self).ed(), old(self).dag.n()), old(self).dag.acyclic(), no_stop(old(self).ed()), selfs_in(old(self).self_edges@, old(self).dag.n()), old(self).dag.n() > 0,
    old(self).dag.n() + old(self).ed().len() * old(self).dag.n() + old(self).self_edges.len() <= 0x4000_0000,
ensures final(self).ok(), final(self).self_edges.len() == 0, final(self).orientation == old(self).orientation, final(self).dag.n() <= 0x4000_0000,
    exists|d: DAG, cur: Seq<E>| #[trigger] split_ok(*old(self), *final(self), d, cur),
@start
let ghost inp = self.ed(); let ghost n1 = self.dag.n(); let ghost v1 = self.nodes@; let ghost m = inp.len() as int;
proof { assert(m * n1 >= 0) by(nonlinear_arith) requires m >= 0, n1 >= 0; }
@after "self.dag.recompute_node_ranks()"
proof {
    lemma_same_links(old(self).dag, self.dag, inp); lemma_can_sink(self.dag, inp);
}
@before "let mut edges = self.edges"
let ghost l = self.dag.rk().len() as int;
@loopbefore 1
proof {
    lemma_same_links(old(self).dag, self.dag, inp); lemma_mid_start(self.dag, v1, inp); lemma_ev_same(old(self).edges, edges);
    lemma_count(self.dag.rk(), n1); lemma_sum_len(self.dag.rk()); assert(l <= n1);
    assert(m * l <= m * n1) by(nonlinear_arith) requires 0 <= l <= n1, m >= 0;
}
@loop 1
invariant inp == old(self).ed(), n1 == old(self).dag.n(), v1 == old(self).nodes@, m == inp.len(), edges.len() == m, mid(self.dag, self.nodes@, ev(edges@), inp, v1, l), all_stepping(ev(edges@), self.dag.rk(), vx_i1 as int),
    self.ok(), self.dag.n() <= n1 + vx_i1 * l, 0 <= l <= n1, m * l <= m * n1, n1 + m * n1 + old(self).self_edges.len() <= 0x4000_0000, self.self_edges == old(self).self_edges, self.orientation == old(self).orientation,
@looptop 1
let ghost k = vx_i1 as int; let ghost c0 = ev(edges@); let ghost es0 = edges@;
proof { lemma_mid_at(self.dag, self.nodes@, c0, inp, v1, l, k); assert((k + 1) * l == k * l + l) by(nonlinear_arith); assert((k + 1) * l <= m * l) by(nonlinear_arith) requires k + 1 <= m, l >= 0; assert(c0[k].1 == es0[k].1@); }
@loopbefore 2
proof { lemma_same_list(es0[k].1, lst); assert(c0.update(k, (c0[k].0, lst@)) =~= c0); }
@loop 2
invariant inp == old(self).ed(), n1 == old(self).dag.n(), v1 == old(self).nodes@, m == inp.len(), mid(self.dag, self.nodes@, c0.update(k, (c0[k].0, lst@)), inp, v1, l), all_stepping(c0.update(k, (c0[k].0, lst@)), self.dag.rk(), k),
    0 <= k < m, c0.len() == m, 1 <= i <= lst.len(), stepping(lst@, self.dag.rk(), i as int), self.dag.n() <= n1 + k * l + lst.len(), n1 + k * l + l <= 0x4000_0000,
    self.ok(), self.self_edges == old(self).self_edges, self.orientation == old(self).orientation, lst.len() <= l, l <= n1,
decreases l - rko(self.dag.rk(), lst@[i - 1]), (if i < lst.len() { rko(self.dag.rk(), lst@[i as int]) } else { 0 }),
@loopstart 2
let ghost d0 = self.dag; let ghost w0 = lst@; let ghost v0 = self.nodes@; let ghost cur = c0.update(k, (c0[k].0, lst@));
proof { lemma_mid_at(d0, v0, cur, inp, v1, l, k); assert(cur[k].1 == lst@); assert(rko(d0.rk(), w0[i - 1]) < rko(d0.rk(), w0[i as int])); assert(on_rank(d0.rk(), w0[i - 1]) && on_rank(d0.rk(), w0[i as int])); }
@after "let conn = self.add_node(conn)"
let ghost d1 = self.dag;
proof { lemma_new_node(d0, d1); assert(d1.succ(prev.idx as int) == d0.succ(prev.idx as int)); }
@before "self.dag.update_node_rank_level"
let ghost d2 = self.dag;
proof {
    lemma_pad(d0.rk(), 1); assert(d2.rk() == d1.rk()); lemma_fresh_place(d0.rk(), d0.n(), prev_level + 1, None); assert(conn == hd(d0.n()));
    assert(resplit(d1, d2, prev.idx as int, d0.n(), curr.idx as int));
}
@loopend 2
proof {
    let d = self.dag; assert(d.rk() == put(d0.rk(), rko(d0.rk(), prev) + 1, hd(d0.n()), None));
    assert(lst@ == w0.insert(i as int, conn));
    lemma_mid_insert(d0, d1, d2, d, v0, self.nodes@, cur, inp, v1, l, k, i as int);
    assert(cur.update(k, (cur[k].0, cur[k].1.insert(i as int, hd(d0.n())))) =~= c0.update(k, (c0[k].0, lst@)));
    lemma_stepping_insert(d0.rk(), d.rk(), d0.n(), w0, i as int, conn);
    lemma_all_stepping_keep(d0.rk(), d.rk(), d0.n(), cur, k); lemma_all_stepping_at(d.rk(), cur, k, (c0[k].0, lst@));
    lemma_mid_at(d, self.nodes@, c0.update(k, (c0[k].0, lst@)), inp, v1, l, k);
    assert(lst@[i - 1] == prev && lst@[i as int] == conn);
}
@loopend 1
proof {
    let c1 = ev(edges@); let e1 = edges@[k]; let f = (c0[k].0, lst@);
    assert(edges@ =~= es0.update(k, e1)); lemma_ev_update(es0, k, e1); assert(c1 =~= c0.update(k, f));
    lemma_all_stepping_update(self.dag.rk(), c0.update(k, f), k, f); assert(c1.update(k, f) =~= c1);
}
@after "self.edges = edges"
let ghost dm = self.dag; let ghost cm = self.ed();
proof { reveal(mid); lemma_chains_len(dm, cm); lemma_links_total(dm, cm); lemma_down_acyclic(dm); assert(0 <= steps(cm) <= m * l); lemma_sizes(dm); lemma_on_rank(dm.rk(), dm.n(), hd(0)); }
@before "self.expand_self_edges()"
let ghost dp = self.dag;
proof {
    assert(dp.nodes == dm.nodes && forall|h: NodeHandle| h.idx < dm.n() ==> #[trigger] rank_of(dp.rk(), h) == rank_of(dm.rk(), h)) by { if dp != dm { lemma_permuted(dm, dp); } }
    lemma_down_same(dm, dp); lemma_same_links(dm, dp, cm); lemma_all_stepping_keep(dm.rk(), dp.rk(), dm.n(), cm, m);
    assert(forall|j: int| 0 <= j < old(self).self_edges@.len() ==> (#[trigger] old(self).self_edges@[j]).1.idx < n1);
}
@end_fn
proof {
    assert(spaced(old(self).dag, old(self).ed(), old(self).nodes@, dp, cm, self.nodes@)) by {
        reveal(mid); reveal(wider);
    }
    assert(split_ok(*old(self), *self, dp, cm)); reveal(wider); assert(dp.n() <= n1 + m * l);
}
