@module whole
@use base text dag reach dagcheck types geom orient sizes color style shapes graph elem sink cross split rows lower pred simple verify align sched place fixer placer canvas visit tile outline path draw
@file topo/layout.rs
@code
broadcast use ax_fr;
use crate::dag::in_range;
use crate::fixer::roomy;
// ---- from the user's graph to the picture ----
// every edge runs from a node to a node, and only through connectors
pub open spec fn through1(s: Seq<NodeHandle>, v: Seq<Element>) -> bool {
    s.len() >= 2 && in_range(s, v.len() as int) && !conn(v[s[0].idx as int]) && !conn(v[s.last().idx as int]) && forall|i: int| 0 < i < s.len() - 1 ==> conn(v[(#[trigger] s[i]).idx as int])
}
pub open spec fn through(ed: Seq<E>, v: Seq<Element>) -> bool { forall|j: int| 0 <= j < ed.len() ==> through1(#[trigger] ed[j].1, v) }
pub open spec fn same_conn(v: Seq<Element>, w: Seq<Element>) -> bool { w.len() == v.len() && forall|h: int| #![trigger v[h]] #![trigger w[h]] 0 <= h < v.len() ==> conn(w[h]) == conn(v[h]) }
pub proof fn lemma_through_same(ed: Seq<E>, v: Seq<Element>, w: Seq<Element>) requires through(ed, v), same_conn(v, w) ensures through(ed, w)
{
    assert forall|j: int| 0 <= j < ed.len() implies through1(#[trigger] ed[j].1, w) by {
        let s = ed[j].1; assert(through1(s, v)); assert(s[0].idx < v.len() && s[s.len() - 1].idx < v.len());
        assert forall|i: int| 0 < i < s.len() - 1 implies conn(w[(#[trigger] s[i]).idx as int]) by { assert(s[i].idx < v.len()); assert(conn(v[s[i].idx as int])); }
    }
}
// the labelled edges of t, then the connectors of s, then the loops
pub proof fn lemma_refined_through(e: E, f: E, v: Seq<Element>, w: Seq<Element>, n0: int)
    requires refined1(e, f, n0), through1(e.1, v), v.len() == n0, kept(v, w), in_range(f.1, w.len() as int), forall|h: int| n0 <= h < w.len() ==> conn(#[trigger] w[h]),
    ensures through1(f.1, w)
{
    let s = f.1; let o = e.1; let n = s.len() as int;
    assert(o[0].idx < n0 && o[o.len() - 1].idx < n0);
    assert(s[0] == o[0] && s[n - 1] == o.last());
    assert forall|i: int| 0 < i < n - 1 implies conn(w[(#[trigger] s[i]).idx as int]) by {
        if s[i].idx < n0 {
            lemma_olds_at(s, n0, i); lemma_olds_at(s, n0, 0); lemma_olds_at(s, n0, n - 1);
            lemma_olds_mono(s, n0, 0, i); lemma_olds_mono(s, n0, i, n - 1);
            let p = olds(s.take(i), n0).len() as int; let q = olds(s.take(n - 1), n0).len() as int;
            assert(0 < p && p < q && q < o.len()); assert(o[p] == s[i]); assert(conn(v[o[p].idx as int]));
        } else { assert(s[i].idx < w.len()); }
    }
}
pub proof fn lemma_turned_shape(inp: Seq<E>, k: int, n: int)
    requires 0 <= k <= inp.len(), pairs_only(inp), chains_in(inp, n),
    ensures pairs_only(turned(inp, k)), chains_in(turned(inp, k), n), apart(turned(inp, k)), selfs_in(selfs(inp, k), n),
    decreases k
{
    if k > 0 {
        lemma_turned_shape(inp, k - 1, n); let e = inp[k - 1]; assert(in_range(e.1, n)); assert(e.1.len() == 2); let a = e.1[0]; let b = e.1[1]; assert(a.idx < n && b.idx < n);
        let t = turned(inp, k - 1); let u = turned(inp, k); let s = selfs(inp, k - 1); let w = selfs(inp, k);
        assert forall|j: int| 0 <= j < u.len() implies in_range(#[trigger] u[j].1, n) && u[j].1.len() == 2 && u[j].1[0] != u[j].1[1] by { if j < t.len() { assert(u[j] == t[j]); assert(in_range(t[j].1, n)); } else { assert(u[j].1 =~= seq![b, a] || u[j] == e); } }
        assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).1.idx < n by { if i < s.len() { assert(w[i] == s[i]); } else { assert(w[i].1 == a); } }
    }
}
pub proof fn lemma_text_through(g: VisualGraph, t: VisualGraph)
    requires fresh(g), kept(g.nodes@, t.nodes@), t.nodes.len() <= usize::MAX,
        ({ let e = turned(g.ed(), g.ed().len() as int); text_split(e, t.ed(), t.nodes@, g.nodes.len() as int, e.len() as int) }),
    ensures through(t.ed(), t.nodes@)
{
    let inp = g.ed(); let m = inp.len() as int; let e = turned(inp, m); let v = g.nodes@; let u = t.nodes@; let n0 = g.dag.n();
    lemma_turned_plain(inp, v, m); lemma_turned_shape(inp, m, n0);
    assert forall|j: int| 0 <= j < t.ed().len() implies through1(#[trigger] t.ed()[j].1, u) by {
        lemma_text_at(e, t.ed(), v, u, j); lemma_texts(e, j);
        let q = t.ed()[j].1; let o = e[j].1; let c = n0 + texts(e, j);
        assert(relabelled(e[j], t.ed()[j], c, u)); assert(in_range(o, n0)); assert(o.len() == 2); assert(o[0].idx < n0 && o[1].idx < n0);
        if e[j].0.text@.len() > 0 { assert(q =~= o.insert(1, hd(c))); assert(q[0] == o[0] && q[1] == hd(c) && q[2] == o[1]); assert(conn(u[c])); assert(hd(c).idx == c); } else { assert(q == o); }
    }
}
pub proof fn lemma_split_through(t: VisualGraph, s: VisualGraph, d: DAG, cur: Seq<E>)
    requires split_ok(t, s, d, cur), through(t.ed(), t.nodes@), t.nodes.len() == t.dag.n(), s.nodes.len() <= usize::MAX, s.nodes.len() == s.dag.n(), selfs_in(t.self_edges@, t.dag.n()), plain_selfs(t.self_edges@, t.nodes@),
    ensures through(s.ed(), s.nodes@)
{
    reveal(expanded); reveal(wider);
    let u = t.nodes@; let w = s.nodes@; let out = s.ed(); let se = t.self_edges@; let n0 = d.n();
    assert forall|h: int| u.len() <= h < w.len() implies conn(#[trigger] w[h]) by { if h >= n0 { let q = h - n0; assert(looped(se[q], out[cur.len() + q], n0 + q, w)); } }
    assert forall|j: int| 0 <= j < out.len() implies through1(#[trigger] out[j].1, w) by {
        if j < cur.len() {
            assert(out[j] == cur[j]); assert(refined1(t.ed()[j], cur[j], t.dag.n())); assert(in_range(cur[j].1, n0)); assert(through1(t.ed()[j].1, u));
            lemma_refined_through(t.ed()[j], cur[j], u, w, t.dag.n());
        } else {
            let q = j - cur.len(); assert(looped(se[q], out[cur.len() + q], n0 + q, w)); assert(se[q].1.idx < t.dag.n()); assert(hd(n0 + q).idx == n0 + q);
            assert(!conn(u[se[q].1.idx as int])); assert(!conn(w[se[q].1.idx as int]));
            assert(out[j].1[0] == se[q].1 && out[j].1[1] == hd(n0 + q) && out[j].1[2] == se[q].1 && out[j].1.len() == 3);
        }
    }
}
pub proof fn lemma_lowered_through(g: VisualGraph, f: VisualGraph, t: VisualGraph, s: VisualGraph, d: DAG, cur: Seq<E>)
    requires fresh(g), lowered(g, f, t, s, d, cur), f.ok(),
    ensures through(f.ed(), f.nodes@)
{
    let v = g.nodes@; let u = t.nodes@; let w = s.nodes@; let m = g.ed().len() as int;
    lemma_turned_plain(g.ed(), v, m); lemma_turned_shape(g.ed(), m, g.dag.n());
    assert(t.dag.n() == t.nodes.len());
    lemma_text_through(g, t);
    assert forall|i: int| 0 <= i < t.self_edges@.len() implies (#[trigger] t.self_edges@[i]).1.idx < t.dag.n() && !conn(u[t.self_edges@[i].1.idx as int]) by { let h = t.self_edges@[i].1.idx; assert(h < g.dag.n()); assert(u[h as int] == v[h as int]); }
    lemma_split_through(t, s, d, cur);
    assert(same_conn(w, f.nodes@)) by { assert forall|h: int| #![trigger w[h]] #![trigger f.nodes@[h]] 0 <= h < w.len() implies conn(f.nodes@[h]) == conn(w[h]) by { } }
    lemma_through_same(s.ed(), w, f.nodes@);
}
// every new element is a connector with some space around it
pub open spec fn new_tidy(v: Seq<Element>, n0: int) -> bool { forall|h: int| n0 <= h < v.len() ==> conn(#[trigger] v[h]) && tidy(v[h]) }
pub proof fn lemma_text_hit(ed: Seq<E>, x: int, k: int) -> (i: int) requires 0 <= x < texts(ed, k), 0 <= k <= ed.len() ensures 0 <= i < k, texts(ed, i) == x, ed[i].0.text@.len() > 0 decreases k
{ if k > 0 && x < texts(ed, k - 1) { lemma_text_hit(ed, x, k - 1) } else { k - 1 } }
pub proof fn lemma_lowered_tidy(g: VisualGraph, f: VisualGraph, t: VisualGraph, s: VisualGraph, d: DAG, cur: Seq<E>)
    requires lowered(g, f, t, s, d, cur), s.ok(), g.ok(),
    ensures new_tidy(s.nodes@, g.dag.n()), kept(g.nodes@, s.nodes@), resized(s.nodes@, f.nodes@, s.nodes.len() as int)
{
    reveal(expanded); reveal(wider);
    let u = t.nodes@; let w = s.nodes@; let e = turned(g.ed(), g.ed().len() as int); let n0 = g.dag.n(); let se = t.self_edges@;
    assert forall|h: int| n0 <= h < w.len() implies conn(#[trigger] w[h]) && tidy(w[h]) by {
        if h < u.len() { let i = lemma_text_hit(e, h - n0, e.len() as int); assert(relabelled(e[i], t.ed()[i], n0 + texts(e, i), u)); assert(w[h] == u[h]); }
        else if h >= d.n() { let q = h - d.n(); assert(looped(se[q], s.ed()[cur.len() + q], d.n() + q, w)); }
    }
}
// what the user's elements need: a size, and some space around them
pub open spec fn has_size(e: Element) -> bool { (conn(e) ==> rv(e.pos.halo.x) >= 0real && rv(e.pos.halo.y) >= 0real) && (!conn(e) ==> roomy1(e.pos)) }
pub open spec fn layable(g: VisualGraph) -> bool { fresh(g) && forall|h: int| 0 <= h < g.nodes@.len() ==> has_size(#[trigger] g.nodes@[h]) }
pub open spec fn is_lowered(g: VisualGraph, f: VisualGraph) -> bool { exists|t: VisualGraph, s: VisualGraph, d: DAG, cur: Seq<E>| #[trigger] lowered(g, f, t, s, d, cur) }
pub proof fn lemma_lowered_roomy(g: VisualGraph, f: VisualGraph, t: VisualGraph, s: VisualGraph, d: DAG, cur: Seq<E>)
    requires layable(g), lowered(g, f, t, s, d, cur), f.ok(), s.ok(), all_fit(f.nodes@, f.nodes.len() as int),
    ensures roomy(f.nodes@)
{
    let v = g.nodes@; let w = s.nodes@; let z = f.nodes@; let n0 = g.dag.n();
    lemma_lowered_tidy(g, f, t, s, d, cur);
    assert forall|h: int| 0 <= h < z.len() implies roomy1((#[trigger] z[h]).pos) by {
        if h < n0 { assert(has_size(v[h])); assert(w[h] == v[h]); } else { assert(tidy(w[h])); }
        if conn(z[h]) { assert(fits(z[h])); assert(z[h].pos.halo == w[h].pos.halo); lemma_fits_roomy(Orientation::TopToBottom, z[h]); }
    }
}
pub open spec fn all_filled(v: Seq<Element>) -> bool { forall|h: int| 0 <= h < v.len() ==> records_filled(#[trigger] v[h]) }
pub proof fn lemma_lowered_filled(g: VisualGraph, f: VisualGraph, z: VisualGraph, t: VisualGraph, s: VisualGraph, d: DAG, cur: Seq<E>)
    requires all_filled(g.nodes@), lowered(g, f, t, s, d, cur), s.ok(), g.ok(), rest_kept(f, z),
    ensures all_filled(z.nodes@)
{
    lemma_lowered_tidy(g, f, t, s, d, cur);
    assert forall|h: int| 0 <= h < z.nodes@.len() implies records_filled(#[trigger] z.nodes@[h]) by {
        assert(conn(z.nodes@[h]) == conn(f.nodes@[h])); assert(conn(f.nodes@[h]) == conn(s.nodes@[h]));
        if h < g.dag.n() { assert(s.nodes@[h] == g.nodes@[h]); assert(records_filled(g.nodes@[h])); } else { assert(conn(s.nodes@[h])); }
        if !conn(f.nodes@[h]) { assert(moved1(f.nodes@[h], z.nodes@[h])); assert(f.nodes@[h] == s.nodes@[h]); }
    }
}
pub proof fn lemma_through_edges_ok(g: VisualGraph) requires through(g.ed(), g.nodes@) ensures edges_ok(g)
{
    assert forall|j: int| 0 <= j < g.edges@.len() implies (forall|i: int| 0 <= i < (#[trigger] g.edges@[j]).1@.len() ==> (#[trigger] g.edges@[j].1@[i]).idx < g.nodes@.len()) && chain_ok(visited(g, j)) by {
        let s = g.ed()[j].1; assert(s == g.edges@[j].1@); assert(through1(s, g.nodes@)); let q = visited(g, j);
        assert(q[0] == g.nodes@[s[0].idx as int]); assert(q[q.len() - 1] == g.nodes@[s.last().idx as int]);
        assert forall|i: int| 0 < i < q.len() - 1 implies via_ok(#[trigger] q[i]) by { assert(conn(g.nodes@[s[i].idx as int])); }
    }
}
// the whole picture: every element and every edge once, in order
pub open spec fn shown(g: VisualGraph, debug: bool, log0: Seq<Cmd>, log1: Seq<Cmd>) -> bool {
    exists|n: Seq<Seq<Cmd>>, m: Seq<Seq<Cmd>>| log1 == log0 + n.flatten() + m.flatten() && nodes_shown(g, g.nodes@.len() as int, debug, n) && edges_shown(g, g.edges@.len() as int, debug, m)
}
@end
@fn VisualGraph::do_it
requires old(self).dag.n() == 0 || layable(*old(self)),
ensures
    old(self).dag.n() == 0 ==> *final(self) == *old(self) && final(rb).log() == old(rb).log(),
    old(self).dag.n() > 0 ==> exists|l: VisualGraph| is_lowered(*old(self), l) && #[trigger] laid(l, *final(self), disable_layout),
    old(self).dag.n() > 0 && all_filled(old(self).nodes@) ==> shown(*final(self), debug_mode, old(rb).log(), final(rb).log()),
@after "self.lower(disable_opt)"
let ghost l = *self;
proof {
    let (t, s, d, cur) = choose|t: VisualGraph, s: VisualGraph, d: DAG, cur: Seq<E>| #[trigger] lowered(*old(self), l, t, s, d, cur);
    lemma_lowered_through(*old(self), l, t, s, d, cur); lemma_lowered_roomy(*old(self), l, t, s, d, cur);
}
@before "self.render"
proof {
    let (t, s, d, cur) = choose|t: VisualGraph, s: VisualGraph, d: DAG, cur: Seq<E>| #[trigger] lowered(*old(self), l, t, s, d, cur);
    assert(laid(l, *self, disable_layout));
    lemma_through_same(l.ed(), l.nodes@, self.nodes@); lemma_through_edges_ok(*self);
    if all_filled(old(self).nodes@) { lemma_lowered_filled(*old(self), l, *self, t, s, d, cur); }
}
