@module lower
@use base text dag reach dagcheck types geom orient sizes color style shapes graph elem sink cross split rows
@file topo/layout.rs
@code
// ---- what the steps of lowering a graph leave for the placement ----
// no connector is on the edge
pub open spec fn bare_ends(s: Seq<NodeHandle>, v: Seq<Element>) -> bool { forall|i: int| 0 <= i < s.len() ==> !conn(v[(#[trigger] s[i]).idx as int]) }
pub open spec fn plain_ends(ed: Seq<E>, v: Seq<Element>) -> bool { forall|j: int| 0 <= j < ed.len() ==> bare_ends(#[trigger] ed[j].1, v) }
pub open spec fn plain_selfs(s: Seq<(Arrow, NodeHandle)>, v: Seq<Element>) -> bool { forall|i: int| 0 <= i < s.len() ==> !conn(v[(#[trigger] s[i]).1.idx as int]) }
pub proof fn lemma_turned_plain(inp: Seq<E>, v: Seq<Element>, k: int)
    requires 0 <= k <= inp.len(), pairs_only(inp), plain_ends(inp, v),
    ensures plain_ends(turned(inp, k), v), plain_selfs(selfs(inp, k), v), turned(inp, k).len() + selfs(inp, k).len() == k
    decreases k
{
    if k > 0 {
        lemma_turned_plain(inp, v, k - 1); let e = inp[k - 1]; assert(bare_ends(e.1, v)); assert(e.1.len() == 2); let a = e.1[0]; let b = e.1[1];
        let t = turned(inp, k - 1); let u = turned(inp, k);
        assert forall|j: int| 0 <= j < u.len() implies bare_ends(#[trigger] u[j].1, v) by { if j < t.len() { assert(u[j] == t[j]); assert(bare_ends(t[j].1, v)); } else { assert forall|i: int| 0 <= i < u[j].1.len() implies !conn(v[(#[trigger] u[j].1[i]).idx as int]) by { assert(u[j].1[i] == a || u[j].1[i] == b); } } }
        let s = selfs(inp, k - 1); let w = selfs(inp, k);
        assert forall|i: int| 0 <= i < w.len() implies !conn(v[(#[trigger] w[i]).1.idx as int]) by { if i < s.len() { assert(w[i] == s[i]); } else { assert(w[i].1 == a); } }
    }
}
pub proof fn lemma_texts_up(ed: Seq<E>, i: int, j: int) requires 0 <= i < j, ed[i].0.text@.len() > 0 ensures texts(ed, i) < texts(ed, j) decreases j { if j > i + 1 { lemma_texts_up(ed, i, j - 1); } }
// a label connector is on one edge
pub proof fn lemma_text_once(inp: Seq<E>, out: Seq<E>, v: Seq<Element>, w: Seq<Element>)
    requires pairs_only(inp), apart(inp), chains_in(inp, v.len() as int), plain_ends(inp, v), kept(v, w), text_split(inp, out, w, v.len() as int, inp.len() as int), w.len() <= usize::MAX,
    ensures once(out, w), no_stop(out), forall|j: int| 0 <= j < out.len() ==> !conn(w[(#[trigger] out[j]).1[0].idx as int]) && !conn(w[out[j].1.last().idx as int])
{
    let n = v.len() as int;
    assert forall|j: int| 0 <= j < out.len() implies ({ let s = (#[trigger] out[j]).1; s.len() >= 2 && !conn(w[s[0].idx as int]) && !conn(w[s.last().idx as int]) && (forall|i: int| 0 < i < s.len() ==> s[i - 1] != #[trigger] s[i])
        && forall|i: int| 0 <= i < s.len() && conn(w[(#[trigger] s[i]).idx as int]) ==> i == 1 && s[i].idx == n + texts(inp, j) && inp[j].0.text@.len() > 0 }) by {
        lemma_text_at(inp, out, v, w, j);
    }
    assert forall|j: int, i: int, l: int, m: int| #![trigger out[j].1[i], out[l].1[m]] 0 <= j < out.len() && 0 <= i < out[j].1.len() && 0 <= l < out.len() && 0 <= m < out[l].1.len() && out[j].1[i] == out[l].1[m] && conn(w[out[j].1[i].idx as int]) implies j == l && i == m by {
        assert(out[j].1.len() >= 2 && out[l].1.len() >= 2);
        if j < l { lemma_texts_up(inp, j, l); } if l < j { lemma_texts_up(inp, l, j); }
    }
}
pub proof fn lemma_text_at(inp: Seq<E>, out: Seq<E>, v: Seq<Element>, w: Seq<Element>, j: int)
    requires pairs_only(inp), apart(inp), chains_in(inp, v.len() as int), plain_ends(inp, v), kept(v, w), text_split(inp, out, w, v.len() as int, inp.len() as int), 0 <= j < out.len(), w.len() <= usize::MAX,
    ensures ({ let s = out[j].1; s.len() >= 2 && !conn(w[s[0].idx as int]) && !conn(w[s.last().idx as int]) && (forall|i: int| 0 < i < s.len() ==> s[i - 1] != #[trigger] s[i])
        && forall|i: int| 0 <= i < s.len() && conn(w[(#[trigger] s[i]).idx as int]) ==> i == 1 && s[i].idx == v.len() + texts(inp, j) && inp[j].0.text@.len() > 0 }),
{
    let n = v.len() as int; let s = out[j].1; let e = inp[j].1; let c = n + texts(inp, j); lemma_texts(inp, j);
    assert(relabelled(inp[j], out[j], c, w)); assert(in_range(e, n)); assert(bare_ends(e, v)); assert(e.len() == 2); assert(e[0] != e[1]); assert(e[0].idx < n && e[1].idx < n);
    assert(!conn(v[e[0].idx as int]) && !conn(v[e[1].idx as int]));
    if inp[j].0.text@.len() > 0 { assert(s =~= e.insert(1, hd(c))); assert(s[0] == e[0] && s[1] == hd(c) && s[2] == e[1] && s.len() == 3); assert(hd(c).idx == c); } else { assert(s == e); }
}
// where the i-th element of a chain is among the older ones
pub proof fn lemma_olds_at(s: Seq<NodeHandle>, n1: int, i: int)
    requires 0 <= i < s.len(), s[i].idx < n1,
    ensures ({ let p = olds(s.take(i), n1).len() as int; 0 <= p < olds(s, n1).len() && olds(s, n1)[p] == s[i] })
    decreases s.len()
{
    let d = s.drop_last();
    if i == s.len() - 1 { assert(s.take(i) =~= d); assert(s.last() == s[i]); } else { assert(d[i] == s[i]); lemma_olds_at(d, n1, i); assert(d.take(i) =~= s.take(i)); }
}
pub proof fn lemma_olds_mono(s: Seq<NodeHandle>, n1: int, i: int, j: int)
    requires 0 <= i < j <= s.len(), s[i].idx < n1,
    ensures olds(s.take(i), n1).len() < olds(s.take(j), n1).len()
    decreases j
{
    let t = s.take(j); assert(t.drop_last() =~= s.take(j - 1)); assert(t.last() == s[j - 1]);
    if j - 1 > i { lemma_olds_mono(s, n1, i, j - 1); } else { assert(s.take(j - 1) =~= s.take(i)); }
}
pub proof fn lemma_split_once(inp: Seq<E>, cur: Seq<E>, v: Seq<Element>, w: Seq<Element>)
    requires once(inp, v), refined(inp, cur, v.len() as int), fresh_once(cur, v.len() as int), kept(v, w),
    ensures once(cur, w)
{
    let n1 = v.len() as int;
    assert forall|j: int, i: int, l: int, m: int| #![trigger cur[j].1[i], cur[l].1[m]] 0 <= j < cur.len() && 0 <= i < cur[j].1.len() && 0 <= l < cur.len() && 0 <= m < cur[l].1.len() && cur[j].1[i] == cur[l].1[m] && conn(w[cur[j].1[i].idx as int]) implies j == l && i == m by {
        if cur[j].1[i].idx < n1 {
            assert(refined1(inp[j], cur[j], n1) && refined1(inp[l], cur[l], n1));
            lemma_olds_at(cur[j].1, n1, i); lemma_olds_at(cur[l].1, n1, m);
            let p = olds(cur[j].1.take(i), n1).len() as int; let q = olds(cur[l].1.take(m), n1).len() as int;
            assert(inp[j].1[p] == inp[l].1[q]); assert(conn(v[inp[j].1[p].idx as int]));
            assert(j == l && p == q);
            if i < m { lemma_olds_mono(cur[j].1, n1, i, m); } if m < i { lemma_olds_mono(cur[j].1, n1, m, i); }
        }
    }
}
pub proof fn lemma_pairs_at(s: Seq<NodeHandle>, a: NodeHandle, b: NodeHandle) -> (i: int) requires pairs(s, a, b) > 0 ensures 0 <= i, i + 1 < s.len(), s[i] == a, s[i + 1] == b decreases s.len()
{ if s[s.len() - 2] == a && s.last() == b { s.len() - 2 } else { let d = s.drop_last(); let i = lemma_pairs_at(d, a, b); assert(d[i] == s[i] && d[i + 1] == s[i + 1]); i } }
pub proof fn lemma_links_at(ed: Seq<E>, a: NodeHandle, b: NodeHandle) requires links(ed, a, b) > 0 ensures leads_to(ed, a, b) decreases ed.len()
{
    if pairs(ed.last().1, a, b) > 0 { let i = lemma_pairs_at(ed.last().1, a, b); assert(follows(ed, ed.len() - 1, i, a, b)); }
    else { let d = ed.drop_last(); lemma_links_at(d, a, b); let (j, i) = choose|j: int, i: int| #[trigger] follows(d, j, i, a, b); assert(d[j] == ed[j]); assert(follows(ed, j, i, a, b)); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_split_movable(o: VisualGraph, f: VisualGraph, d: DAG, cur: Seq<E>)
    requires split_ok(o, f, d, cur), o.ok(), f.ok(), f.dag.n() <= 0x4000_0000, o.dag.n() > 0, once(o.ed(), o.nodes@), plain_selfs(o.self_edges@, o.nodes@), selfs_in(o.self_edges@, o.dag.n()),
    ensures movable(f)
{
    reveal(wider); reveal(expanded);
    let v = o.nodes@; let w = f.nodes@; let out = f.ed(); let se = o.self_edges@; let n0 = d.n();
    lemma_split_once(o.ed(), cur, v, w);
    assert forall|j: int| 0 <= j < out.len() implies in_range(#[trigger] out[j].1, f.dag.n()) by {
        if j < cur.len() { assert(out[j] == cur[j]); assert(in_range(cur[j].1, d.n())); } else { let q = j - cur.len(); assert(looped(se[q], out[cur.len() + q], n0 + q, w)); assert(se[q].1.idx < o.dag.n()); assert(hd(n0 + q).idx == n0 + q); }
    }
    assert forall|j: int, i: int| cur.len() <= j < out.len() && 0 <= i < out[j].1.len() && conn(w[(#[trigger] out[j].1[i]).idx as int]) implies i == 1 && out[j].1[i].idx == n0 + (j - cur.len()) by {
        let q = j - cur.len(); assert(looped(se[q], out[cur.len() + q], n0 + q, w)); assert(se[q].1.idx < o.dag.n()); assert(!conn(v[se[q].1.idx as int])); assert(hd(n0 + q).idx == n0 + q);
        assert(out[j].1[0] == se[q].1 && out[j].1[1] == hd(n0 + q) && out[j].1[2] == se[q].1 && out[j].1.len() == 3);
    }
    assert forall|j: int, i: int, l: int, m: int| #![trigger out[j].1[i], out[l].1[m]] 0 <= j < out.len() && 0 <= i < out[j].1.len() && 0 <= l < out.len() && 0 <= m < out[l].1.len() && out[j].1[i] == out[l].1[m] && conn(w[out[j].1[i].idx as int]) implies j == l && i == m by {
        if j < cur.len() { assert(out[j] == cur[j]); assert(in_range(cur[j].1, n0)); assert(cur[j].1[i].idx < n0); }
        if l < cur.len() { assert(out[l] == cur[l]); assert(in_range(cur[l].1, n0)); assert(cur[l].1[m].idx < n0); }
    }
    assert forall|a: NodeHandle, b: NodeHandle| #[trigger] f.dag.pred(b.idx as int).contains(a) && a.idx < f.dag.n() && b.idx < f.dag.n() && conn(w[a.idx as int]) && conn(w[b.idx as int]) implies leads_to(out, a, b) by {
        let x = a.idx as int; let y = b.idx as int; assert(f.dag.succ(y) == f.dag.succ(y));
        if y >= n0 { assert(f.dag.succ(y).len() == 0 && f.dag.pred(y).len() == 0); }
        assert(f.dag.pred(y) == d.pred(y)) by { assert(f.dag.succ(y) == d.succ(y)); }
        assert(in_range(d.pred(y), d.n())) by { assert(d.succ(y) == d.succ(y)); }
        let k = choose|k: int| 0 <= k < d.pred(y).len() && d.pred(y)[k] == a; assert(d.pred(y)[k].idx < n0);
        assert(hd(x) == a && hd(y) == b); lemma_cnt_contains(d.pred(y), a); assert(cnt(d.succ(x), hd(y)) == cnt(d.pred(y), hd(x)));
        lemma_links_at(cur, a, b); let (j, i) = choose|j: int, i: int| #[trigger] follows(cur, j, i, a, b); assert(out[j] == cur[j]); assert(follows(out, j, i, a, b));
    }
    assert(d.rk().len() > 0) by { lemma_on_rank(d.rk(), d.n(), hd(0)); }
}
// a graph whose edges have not been lowered yet
pub open spec fn fresh(g: VisualGraph) -> bool {
    let n = g.dag.n(); let m = g.ed().len() as int;
    &&& g.ok() && n > 0 && chains_in(g.ed(), n) && pairs_only(g.ed()) && plain_ends(g.ed(), g.nodes@) && g.self_edges.len() == 0
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] g.dag.succ(i)).len() == 0
    &&& (n + m) * (m + 1) + m <= 0x4000_0000
}
pub open spec fn all_fit(v: Seq<Element>, k: int) -> bool { forall|h: int| 0 <= h < k && h < v.len() && conn(#[trigger] v[h]) ==> fits(v[h]) }
// w is v with the sizes and centers of the first k connectors set
pub open spec fn resized(v: Seq<Element>, w: Seq<Element>, k: int) -> bool { w.len() == v.len() && forall|h: int| #![trigger w[h]] #![trigger v[h]] 0 <= h < v.len() ==> if h < k && conn(v[h]) { fits(w[h]) && w[h] == (Element { pos: Position { size: w[h].pos.size, center: w[h].pos.center, ..v[h].pos }, ..v[h] }) } else { w[h] == v[h] } }
pub proof fn lemma_resized_movable(g: VisualGraph, f: VisualGraph, k: int) requires movable(g), only_elems(g, f), resized(g.nodes@, f.nodes@, k) ensures movable(f)
{
    let v = g.nodes@; let w = f.nodes@; let ed = g.ed(); let d = g.dag;
    assert forall|h: int| 0 <= h < v.len() implies conn(#[trigger] w[h]) == conn(v[h]) by { }
    assert forall|j: int, i: int, l: int, m: int| #![trigger ed[j].1[i], ed[l].1[m]] 0 <= j < ed.len() && 0 <= i < ed[j].1.len() && 0 <= l < ed.len() && 0 <= m < ed[l].1.len() && ed[j].1[i] == ed[l].1[m] && conn(w[ed[j].1[i].idx as int]) implies j == l && i == m by { assert(in_range(ed[j].1, v.len() as int)); assert(ed[j].1[i].idx < v.len()); let h = ed[j].1[i].idx as int; assert(conn(v[h])); }
    assert forall|a: NodeHandle, b: NodeHandle| #[trigger] d.pred(b.idx as int).contains(a) && a.idx < d.n() && b.idx < d.n() && conn(w[a.idx as int]) && conn(w[b.idx as int]) implies leads_to(ed, a, b) by { assert(conn(v[a.idx as int]) && conn(v[b.idx as int])); }
}
// lowering: the cycles are broken, labels and long edges go through connectors, and self edges become loops
pub open spec fn lowered(g: VisualGraph, f: VisualGraph, t: VisualGraph, s: VisualGraph, d: DAG, cur: Seq<E>) -> bool {
    let e = turned(g.ed(), g.ed().len() as int);
    &&& text_split(e, t.ed(), t.nodes@, g.nodes.len() as int, e.len() as int) && t.self_edges@ == selfs(g.ed(), g.ed().len() as int)
    &&& kept(g.nodes@, t.nodes@) && t.dag.n() == t.nodes.len() && t.dag.n() == g.nodes.len() + texts(e, e.len() as int)
    &&& split_ok(t, s, d, cur) && only_elems(s, f) && resized(s.nodes@, f.nodes@, s.nodes.len() as int)
}
@end
@fn VisualGraph::lower
requires fresh(*old(self)),
ensures movable(*final(self)), all_fit(final(self).nodes@, final(self).nodes.len() as int), final(self).orientation == old(self).orientation, final(self).self_edges.len() == 0,
    exists|t: VisualGraph, s: VisualGraph, d: DAG, cur: Seq<E>| #[trigger] lowered(*old(self), *final(self), t, s, d, cur),
@start
let ghost inp = self.ed(); let ghost v = self.nodes@; let ghost n = self.dag.n(); let ghost m = inp.len() as int;
proof { lemma_turned_plain(inp, v, m); assert((n + m) * (m + 1) == n * m + n + m * m + m) by(nonlinear_arith); }
@after "self.to_valid_dag()"
let ghost t1 = self.ed(); let ghost k = t1.len() as int;
proof { assert(self.self_edges@ =~= selfs(inp, m)); lemma_texts(t1, k); assert(m * m >= 0 && n * m >= 0) by(nonlinear_arith) requires m >= 0, n > 0; assert(selfs_in(old(self).self_edges@, n)); }
@after "self.split_text_edges()"
let ghost n1 = self.dag.n(); let ghost t2 = self.ed(); let ghost v1 = self.nodes@; let ghost g2 = *self;
proof {
    lemma_text_once(t1, t2, v, v1);
    assert(k * n1 <= m * (n + m)) by(nonlinear_arith) requires 0 <= k <= m, 0 <= n1 <= n + m; assert(m * (n + m) == m * n + m * m) by(nonlinear_arith); assert(n * m == m * n) by(nonlinear_arith);
    assert forall|i: int| 0 <= i < self.self_edges@.len() implies !conn(v1[(#[trigger] self.self_edges@[i]).1.idx as int]) by { assert(self.self_edges@[i].1.idx < n); assert(!conn(v[self.self_edges@[i].1.idx as int])); }
}
@after "self.split_long_edges(disable_optimizations)"
let ghost g3 = *self;
proof { let (d, cur) = choose|d: DAG, cur: Seq<E>| #[trigger] split_ok(g2, g3, d, cur); lemma_split_movable(g2, g3, d, cur); }
@loop 1 kind=iter
invariant vx_it1.last == g3.nodes.len(), vx_it1.curr <= vx_it1.last, resized(g3.nodes@, self.nodes@, vx_it1.curr as int), only_elems(g3, *self), movable(g3),
ensures vx_it1.curr == vx_it1.last,
decreases vx_it1.left(),
@end_fn
proof { lemma_resized_movable(g3, *self, self.nodes.len() as int); let (d, cur) = choose|d: DAG, cur: Seq<E>| #[trigger] split_ok(g2, g3, d, cur); assert(lowered(*old(self), *self, g2, g3, d, cur)); }
