@module sink
@use base dag reach dagcheck
@file topo/optimizer.rs
@struct RankOptimizer
@code
pub open spec fn rf(d: DAG) -> spec_fn(int) -> int { |v: int| rank_of(d.rk(), hd(v)) }
// every edge except self edges leads to a later rank
pub open spec fn down(d: DAG) -> bool { forall|a: int, b: int| #[trigger] real_edge(d, a, b) ==> rank_of(d.rk(), hd(a)) < rank_of(d.rk(), hd(b)) }
pub open spec fn no_empty(d: DAG) -> bool { forall|l: int| 0 <= l < d.rk().len() ==> (#[trigger] d.rk()[l]).len() > 0 }
// a path with one node on every rank (what keeps the ranks occupied)
pub open spec fn is_spine(d: DAG, p: Seq<int>) -> bool { real_path(d, p) && p.len() == d.rk().len() && forall|k: int| 0 <= k < p.len() ==> 0 <= #[trigger] p[k] < d.n() && rank_of(d.rk(), hd(p[k])) == k }
pub open spec fn spined(d: DAG) -> bool { exists|p: Seq<int>| is_spine(d, p) }
// total number of ranks that the edges span
pub open spec fn span_row(s: Seq<NodeHandle>, r: spec_fn(int) -> int, from: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { span_row(s.drop_last(), r, from) + (r(s.last().idx as int) - from) } }
pub open spec fn span_upto(d: DAG, r: spec_fn(int) -> int, k: int) -> int decreases k { if k <= 0 { 0 } else { span_upto(d, r, k - 1) + span_row(d.succ(k - 1), r, r(k - 1)) } }
pub open spec fn span(d: DAG) -> int { span_upto(d, rf(d), d.n()) }
pub open spec fn pot(r: spec_fn(int) -> int, l: int, k: int) -> int decreases k { if k <= 0 { 0 } else { pot(r, l, k - 1) + (l - r(k - 1)) } }
pub open spec fn occ(d: DAG, v: int, k: int) -> int decreases k { if k <= 0 { 0 } else { occ(d, v, k - 1) + cnt(d.succ(k - 1), hd(v)) } }
pub proof fn lemma_down_acyclic(d: DAG) requires down(d) ensures d.acyclic()
{ let f = rf(d); assert forall|a: int, b: int| #[trigger] d.edge(a, b) && a != b implies f(a) < f(b) by { assert(real_edge(d, a, b)); } assert(d.up(f)); }
pub proof fn lemma_spined_no_empty(d: DAG) requires spined(d), ranks_wf(d.rk(), d.n()) ensures no_empty(d)
{
    let p = choose|p: Seq<int>| is_spine(d, p);
    assert forall|l: int| 0 <= l < d.rk().len() implies (#[trigger] d.rk()[l]).len() > 0 by { assert(0 <= p[l] < d.n()); lemma_on_rank(d.rk(), d.n(), hd(p[l])); assert(d.rk()[l].contains(hd(p[l]))); }
}
// levelling leaves such a path
pub proof fn lemma_levelled_spine(d: DAG) requires levelled(d), d.wf(), d.rk().len() > 0 ensures spined(d)
{
    let l = d.rk().len() - 1; let r = d.rk();
    assert(r[l].len() > 0); let h = r[l][0]; assert(at(r, l, 0) == h && is_pos(r, l, 0));
    assert(h.idx < d.n()) by { reveal(ranks_wf); }
    assert(r[l].contains(h)); lemma_rank_of(r, d.n(), h, l); assert(hd(h.idx as int) == h);
    assert(longest(d, h.idx as int, rank_of(r, hd(h.idx as int))));
    let p = choose|p: Seq<int>| real_path(d, p) && p.last() == h.idx && p.len() == l + 1;
    assert forall|k: int| 0 <= k < p.len() implies 0 <= #[trigger] p[k] < d.n() && rank_of(r, hd(p[k])) == k by {
        lemma_ranks_along(d, p, 0, k); lemma_ranks_along(d, p, k, p.len() - 1); lemma_path_in(d, p, k); lemma_path_in(d, p, 0);
        lemma_on_rank(r, d.n(), hd(p[0]));
    }
    assert(is_spine(d, p));
}
pub proof fn lemma_path_in(d: DAG, p: Seq<int>, k: int) requires real_path(d, p), 0 <= k < p.len() ensures 0 <= p[k] < d.n() { if k > 0 { assert(real_edge(d, p[k - 1], p[k - 1 + 1])); } }
pub proof fn lemma_ranks_along(d: DAG, p: Seq<int>, i: int, j: int) requires real_path(d, p), 0 <= i <= j < p.len(), down(d) ensures rank_of(d.rk(), hd(p[j])) - rank_of(d.rk(), hd(p[i])) >= j - i decreases j - i
{ if i < j { lemma_ranks_along(d, p, i, j - 1); assert(real_edge(d, p[j - 1], p[j - 1 + 1])); } }
// ---- moving one node by delta changes the span by delta * (edges in - edges out) ----
pub open spec fn shift(r: spec_fn(int) -> int, v: int, delta: int) -> spec_fn(int) -> int { |x: int| if x == v { r(x) + delta } else { r(x) } }
pub proof fn lemma_span_row(s: Seq<NodeHandle>, r: spec_fn(int) -> int, q: spec_fn(int) -> int, v: int, delta: int, f0: int, f1: int)
    requires 0 <= v <= usize::MAX, forall|k: int| 0 <= k < s.len() ==> q((#[trigger] s[k]).idx as int) == shift(r, v, delta)(s[k].idx as int),
    ensures span_row(s, q, f1) == span_row(s, r, f0) + delta * cnt(s, hd(v)) - (f1 - f0) * s.len()
    decreases s.len()
{
    broadcast use lemma_cnt_push;
    if s.len() == 0 { lemma_cnt_empty(hd(v)); assert(s =~= Seq::empty()); assert(delta * 0 == 0 && (f1 - f0) * 0 == 0) by(nonlinear_arith); }
    else {
        let t = s.drop_last(); assert(t.push(s.last()) =~= s);
        assert forall|k: int| 0 <= k < t.len() implies q((#[trigger] t[k]).idx as int) == shift(r, v, delta)(t[k].idx as int) by { assert(t[k] == s[k]); }
        lemma_span_row(t, r, q, v, delta, f0, f1);
        let e = if s.last() == hd(v) { 1int } else { 0int };
        assert(cnt(s, hd(v)) == cnt(t, hd(v)) + e);
        assert(s[s.len() - 1] == s.last());
        assert(hd(s.last().idx as int) == s.last());
        assert(q(s.last().idx as int) == r(s.last().idx as int) + delta * e);
        assert(delta * (cnt(t, hd(v)) + e) == delta * cnt(t, hd(v)) + delta * e) by(nonlinear_arith);
        assert((f1 - f0) * (t.len() + 1) == (f1 - f0) * t.len() + (f1 - f0)) by(nonlinear_arith);
    }
}
pub proof fn lemma_span_shift(d: DAG, r: spec_fn(int) -> int, q: spec_fn(int) -> int, v: int, delta: int, k: int)
    requires d.targets_ok(), 0 <= v < d.n(), 0 <= k <= d.n(), forall|x: int| 0 <= x < d.n() ==> #[trigger] q(x) == shift(r, v, delta)(x),
    ensures span_upto(d, q, k) == span_upto(d, r, k) + delta * occ(d, v, k) - (if v < k { delta * d.succ(v).len() } else { 0 })
    decreases k
{
    if k > 0 {
        lemma_span_shift(d, r, q, v, delta, k - 1);
        let s = d.succ(k - 1);
        assert(in_range(s, d.n()));
        assert forall|i: int| 0 <= i < s.len() implies q((#[trigger] s[i]).idx as int) == shift(r, v, delta)(s[i].idx as int) by { assert(s[i].idx < d.n()); }
        lemma_span_row(s, r, q, v, delta, r(k - 1), q(k - 1));
        assert(delta * (occ(d, v, k - 1) + cnt(s, hd(v))) == delta * occ(d, v, k - 1) + delta * cnt(s, hd(v))) by(nonlinear_arith);
        assert(q(k - 1) == shift(r, v, delta)(k - 1));
        if k - 1 != v { assert((q(k - 1) - r(k - 1)) * s.len() == 0) by(nonlinear_arith) requires q(k - 1) == r(k - 1); }
    } else { assert(delta * 0 == 0) by(nonlinear_arith); }
}
pub open spec fn all_cnt(s: Seq<NodeHandle>, k: int) -> int decreases k { if k <= 0 { 0 } else { all_cnt(s, k - 1) + cnt(s, hd(k - 1)) } }
pub proof fn lemma_all_cnt_push(s: Seq<NodeHandle>, x: NodeHandle, k: int) requires 0 <= k <= usize::MAX ensures all_cnt(s.push(x), k) == all_cnt(s, k) + (if x.idx < k { 1int } else { 0int }) decreases k
{ broadcast use lemma_cnt_push; if k > 0 { lemma_all_cnt_push(s, x, k - 1); } }
pub proof fn lemma_all_cnt(s: Seq<NodeHandle>, n: int) requires in_range(s, n), 0 <= n <= usize::MAX ensures all_cnt(s, n) == s.len() decreases s.len()
{
    if s.len() > 0 { let t = s.drop_last(); assert(t.push(s.last()) =~= s); assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).idx < n by { assert(t[k] == s[k]); } assert(s[s.len() - 1].idx < n); lemma_all_cnt(t, n); lemma_all_cnt_push(t, s.last(), n); }
    else { assert(s =~= Seq::empty()); lemma_all_zero(n); }
}
pub proof fn lemma_all_zero(n: int) requires 0 <= n <= usize::MAX ensures all_cnt(Seq::<NodeHandle>::empty(), n) == 0 decreases n { if n > 0 { lemma_all_zero(n - 1); lemma_cnt_empty(hd(n - 1)); } }
pub proof fn lemma_occ(d: DAG, v: int, k: int) requires d.mirror(), 0 <= v < d.n(), 0 <= k <= d.n() ensures occ(d, v, k) == all_cnt(d.pred(v), k) decreases k
{ if k > 0 { lemma_occ(d, v, k - 1); assert(cnt(d.succ(k - 1), hd(v)) == cnt(d.pred(v), hd(k - 1))); } }
pub proof fn lemma_pot(r: spec_fn(int) -> int, q: spec_fn(int) -> int, v: int, delta: int, l: int, k: int, n: int)
    requires 0 <= k <= n, 0 <= v < n, forall|x: int| 0 <= x < n ==> #[trigger] q(x) == shift(r, v, delta)(x),
    ensures pot(q, l, k) == pot(r, l, k) - (if v < k { delta } else { 0 })
    decreases k
{ if k > 0 { lemma_pot(r, q, v, delta, l, k - 1, n); assert(q(k - 1) == shift(r, v, delta)(k - 1)); } }
pub proof fn lemma_pot_nonneg(r: spec_fn(int) -> int, l: int, k: int) requires forall|x: int| 0 <= x < k ==> #[trigger] r(x) <= l ensures pot(r, l, k) >= 0 decreases k { if k > 0 { lemma_pot_nonneg(r, l, k - 1); assert(r(k - 1) <= l); } }
// the other nodes keep their rank
#[verifier::spinoff_prover]
pub proof fn lemma_move_rank(r: Rk, n: int, node: NodeHandle, lvl: int, h: NodeHandle)
    requires ranks_wf(r, n), node.idx < n, h.idx < n, h != node, lvl >= 0,
    ensures rank_of(spec_move(r, node, lvl, None), h) == rank_of(r, h)
{
    lemma_on_rank(r, n, h); lemma_take_out(r, n, node); lemma_on_rank(r, n, node);
    let t = spec_take_out(r, node); lemma_pad(t, lvl + 1); let q = pad(t, lvl + 1); let s = spec_move(r, node, lvl, None);
    let l = rank_of(r, h);
    assert(r[l].contains(h)); assert(t[l].contains(h)); assert(q[l] == t[l]);
    if l == lvl { lemma_contains_push(q[l], node, h); }
    assert(s[l].contains(h));
    lemma_spec_move(r, n, node, lvl, None);
    lemma_rank_of(s, n, h, l);
}
// everything a sink preserves
#[verifier::spinoff_prover]
pub proof fn lemma_sink(o: DAG, d: DAG, node: NodeHandle, lvl: int)
    requires o.wf(), down(o), spined(o), node.idx < o.n(), d.nodes == o.nodes, d.rk() == spec_move(o.rk(), node, lvl, None), d.wf(),
        rank_of(o.rk(), node) < lvl, o.succ(node.idx as int).len() > 0, o.pred(node.idx as int).len() <= o.succ(node.idx as int).len(),
        forall|k: int| 0 <= k < o.succ(node.idx as int).len() ==> lvl < rank_of(o.rk(), #[trigger] o.succ(node.idx as int)[k]),
    ensures down(d), spined(d), d.rk().len() == o.rk().len(), span(d) <= span(o), pot(rf(d), d.rk().len() as int, d.n()) < pot(rf(o), o.rk().len() as int, o.n())
{
    let v = node.idx as int; let r = o.rk(); let q = d.rk(); let n = o.n(); let delta = lvl - rank_of(r, node);
    assert(hd(v) == node);
    assert forall|i: int| 0 <= i < n implies #[trigger] o.succ(i) == d.succ(i) && o.pred(i) == d.pred(i) by { }
    let s0 = o.succ(v)[0]; assert(in_range(o.succ(v), n)); assert(s0.idx < n); lemma_on_rank(r, n, s0);
    assert(lvl < r.len()); lemma_on_rank(r, n, node); assert(lvl >= 0);
    lemma_pad(r, lvl + 1); lemma_spec_move(r, n, node, lvl, None);
    assert forall|x: int| 0 <= x < n implies #[trigger] rf(d)(x) == shift(rf(o), v, delta)(x) by { if x != v { lemma_move_rank(r, n, node, lvl, hd(x)); } }
    assert forall|a: int, b: int| #[trigger] real_edge(d, a, b) implies rank_of(q, hd(a)) < rank_of(q, hd(b)) by {
        assert(o.succ(a) == d.succ(a)); assert(real_edge(o, a, b));
        assert(rf(d)(a) == shift(rf(o), v, delta)(a)); assert(rf(d)(b) == shift(rf(o), v, delta)(b));
        if a == v { let k = choose|k: int| 0 <= k < o.succ(v).len() && o.succ(v)[k] == hd(b); assert(lvl < rank_of(r, o.succ(v)[k])); }
    }
    let p = choose|p: Seq<int>| is_spine(o, p);
    assert(is_spine(d, p)) by {
        assert forall|k: int| 0 <= k < p.len() implies 0 <= #[trigger] p[k] < n && rank_of(q, hd(p[k])) == k by {
            assert(rank_of(r, hd(p[k])) == k);
            if p[k] == v {
                if k < p.len() - 1 {
                    assert(real_edge(o, p[k], p[k + 1])); let i = choose|i: int| 0 <= i < o.succ(v).len() && o.succ(v)[i] == hd(p[k + 1]); assert(lvl < rank_of(r, o.succ(v)[i])); assert(rank_of(r, hd(p[k + 1])) == k + 1);
                }
                assert(false);
            }
            assert(rf(d)(p[k]) == shift(rf(o), v, delta)(p[k]));
        }
        assert forall|k: int| 0 <= k < p.len() - 1 implies #[trigger] real_edge(d, p[k], p[k + 1]) by { assert(real_edge(o, p[k], p[k + 1])); assert(o.succ(p[k]) == d.succ(p[k])); }
    }
    lemma_span_shift(o, rf(o), rf(d), v, delta, n); lemma_occ(o, v, n); lemma_all_cnt(o.pred(v), n);
    lemma_span_same(o, d, rf(d), n);
    assert(delta * o.pred(v).len() <= delta * o.succ(v).len()) by(nonlinear_arith) requires delta > 0, o.pred(v).len() <= o.succ(v).len();
    lemma_pot(rf(o), rf(d), v, delta, r.len() as int, n, n);
}
pub proof fn lemma_span_same(o: DAG, d: DAG, f: spec_fn(int) -> int, k: int) requires o.nodes == d.nodes ensures span_upto(o, f, k) == span_upto(d, f, k) decreases k
{ if k > 0 { lemma_span_same(o, d, f, k - 1); assert(o.succ(k - 1) == d.succ(k - 1)); } }
pub open spec fn sinkable(d: DAG) -> bool { d.wf() && down(d) && (spined(d) || d.rk().len() == 0 || d.n() == 0) && d.n() < 0x7fff_ffff && few_links(d) } // fewer than 2^31 nodes: the pass counts them in an i32
// (each list of neighbours is a Vec of 8-byte handles, two of them fit a usize)
pub open spec fn few_links(d: DAG) -> bool { forall|i: int| 0 <= i < d.n() ==> (#[trigger] d.succ(i)).len() + d.pred(i).len() <= usize::MAX }
pub open spec fn potential(d: DAG) -> int { pot(rf(d), d.rk().len() as int, d.n()) }
pub proof fn lemma_potential(d: DAG) requires d.wf() ensures potential(d) >= 0
{ assert forall|x: int| 0 <= x < d.n() implies #[trigger] rf(d)(x) <= d.rk().len() by { lemma_on_rank(d.rk(), d.n(), hd(x)); } lemma_pot_nonneg(rf(d), d.rk().len() as int, d.n()); }
@end
@fn RankOptimizer::new
ret r
ensures *r.dag == *old(dag), *final(r.dag) == *final(dag),
@fn RankOptimizer::try_to_sink_node
ret r
requires sinkable(*old(self).dag), node.idx < old(self).dag.n(),
ensures sinkable(*final(self).dag), *final(final(self).dag) == *final(old(self).dag), final(self).dag.nodes == old(self).dag.nodes, final(self).dag.validate == old(self).dag.validate,
    final(self).dag.rk().len() == old(self).dag.rk().len(), span(*final(self).dag) <= span(*old(self).dag),
    !r ==> *final(self).dag == *old(self).dag, r ==> potential(*final(self).dag) < potential(*old(self).dag),
@start
proof { assert(self.dag.succ(node.idx as int).len() + self.dag.pred(node.idx as int).len() <= usize::MAX); lemma_on_rank(self.dag.rk(), self.dag.n(), node); let _ = self.dag.ranks.len(); lemma_contains_on(self.dag.rk(), rank_of(self.dag.rk(), node), node); }
@loop 1
invariant vx_s1@ == self.dag.succ(node.idx as int), self.dag.wf(), node.idx < self.dag.n(), highest_next <= self.dag.n(),
    forall|k: int| 0 <= k < vx_i1 ==> highest_next <= rank_of(self.dag.rk(), #[trigger] self.dag.succ(node.idx as int)[k]),
@loopstart 1
proof { assert(in_range(self.dag.succ(node.idx as int), self.dag.n())); assert(self.dag.succ(node.idx as int)[vx_i1 - 1] == *elem); lemma_on_rank(self.dag.rk(), self.dag.n(), *elem); lemma_contains_on(self.dag.rk(), rank_of(self.dag.rk(), *elem), *elem); }
@before "return true;" ?
proof { assert forall|i: int| 0 <= i < self.dag.n() implies #[trigger] self.dag.succ(i) == old(self).dag.succ(i) && self.dag.pred(i) == old(self).dag.pred(i) by { } lemma_sink(*old(self).dag, *self.dag, node, highest_next - 1); }
@fn RankOptimizer::optimize
requires sinkable(*old(self).dag),
ensures sinkable(*final(self).dag), *final(final(self).dag) == *final(old(self).dag), final(self).dag.nodes == old(self).dag.nodes, final(self).dag.validate == old(self).dag.validate,
    final(self).dag.rk().len() == old(self).dag.rk().len(), span(*final(self).dag) <= span(*old(self).dag), no_empty(*old(self).dag) ==> no_empty(*final(self).dag),
@start
proof { lemma_down_acyclic(*self.dag); }
@loop 1
invariant sinkable(*self.dag), *final(self.dag) == *final(old(self).dag), self.dag.nodes == old(self).dag.nodes, self.dag.validate == old(self).dag.validate,
    self.dag.rk().len() == old(self).dag.rk().len(), span(*self.dag) <= span(*old(self).dag),
    no_empty(*old(self).dag) ==> no_empty(*self.dag),
decreases potential(*self.dag),
@loopstart 1
let ghost p0 = potential(*self.dag);
proof { lemma_potential(*self.dag); }
@loop 2 kind=iter
invariant sinkable(*self.dag), *final(self.dag) == *final(old(self).dag), self.dag.nodes == old(self).dag.nodes, self.dag.validate == old(self).dag.validate,
    self.dag.rk().len() == old(self).dag.rk().len(), span(*self.dag) <= span(*old(self).dag), no_empty(*old(self).dag) ==> no_empty(*self.dag),
    vx_it2.curr <= vx_it2.last, vx_it2.last == self.dag.n(), 0 <= c <= vx_it2.curr,
    /*P14*/ potential(*self.dag) <= p0, /*P14*/ c > 0 ==> potential(*self.dag) < p0,
decreases vx_it2.last - vx_it2.curr,
@loopstart 2
proof { lemma_potential(*self.dag); assert(c < vx_it2.curr); }
@loopend 2
proof { lemma_potential(*self.dag); if self.dag.rk().len() > 0 && spined(*self.dag) { lemma_spined_no_empty(*self.dag); } }
@loopend 1
proof { assert(potential(*self.dag) < p0); lemma_potential(*self.dag); assert(p0 >= 0); }
