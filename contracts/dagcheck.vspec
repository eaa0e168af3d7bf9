@module dagcheck
@use base dag reach
@file adt/dag.rs
@code
// ---- the consistency check ----
pub open spec fn rsum(r: Rk) -> nat decreases r.len() { if r.len() == 0 { 0 } else { rsum(r.drop_last()) + r.last().len() } }
pub proof fn lemma_row_sum_update(r: Rk, l: int, s: Seq<NodeHandle>)
    requires 0 <= l < r.len(),
    ensures rsum(r.update(l, s)) + r[l].len() == rsum(r) + s.len()
    decreases r.len()
{
    let q = r.update(l, s);
    if l == r.len() - 1 { assert(q.drop_last() =~= r.drop_last()); } else { assert(q.drop_last() =~= r.drop_last().update(l, s)); lemma_row_sum_update(r.drop_last(), l, s); }
}
pub proof fn lemma_row_sum_zero(r: Rk) requires forall|l: int| 0 <= l < r.len() ==> (#[trigger] r[l]).len() == 0 ensures rsum(r) == 0 decreases r.len()
{ if r.len() > 0 { assert forall|l: int| 0 <= l < r.len() - 1 implies (#[trigger] r.drop_last()[l]).len() == 0 by { assert(r.drop_last()[l] == r[l]); } lemma_row_sum_zero(r.drop_last()); assert(r[r.len() - 1].len() == 0); } }
pub proof fn lemma_count(r: Rk, n: int)
    requires ranks_wf(r, n), 0 <= n <= usize::MAX,
    ensures rsum(r) == n
    decreases n
{
    if n == 0 { reveal(ranks_wf); assert forall|l: int| 0 <= l < r.len() implies (#[trigger] r[l]).len() == 0 by { if r[l].len() > 0 { assert(is_pos(r, l, 0)); assert(at(r, l, 0).idx < 0); } } lemma_row_sum_zero(r); }
    else {
        let h = hd(n - 1); let q = spec_take_out(r, h);
        lemma_on_rank(r, n, h); lemma_take_out(r, n, h); lemma_first_exists(r[rank_of(r, h)], h);
        lemma_row_sum_update(r, rank_of(r, h), rm1(r[rank_of(r, h)], h));
        assert(ranks_wf(q, n - 1)) by {
            reveal(ranks_wf);
            assert forall|l: int, i: int| is_pos(q, l, i) implies (#[trigger] at(q, l, i)).idx < n - 1 by { assert(at(q, l, i).idx < n); if at(q, l, i) == h { assert(on_rank(q, h)); } }
        }
        lemma_count(q, n - 1);
    }
}
@end
@fn DAG::count_nodes_in_ranks
ret r
requires rsum(self.rk()) <= usize::MAX,
ensures r == rsum(self.rk()),
@loop 1
invariant vx_s1 == &self.ranks, rsum(self.rk()) <= usize::MAX, cnt == rsum(self.rk().take(vx_i1 as int)),
@loopstart 1
proof { let q = self.rk().take(vx_i1 as int); assert(q.drop_last() =~= self.rk().take(vx_i1 - 1)); assert(q.last() == row@); lemma_row_sum_take(self.rk(), vx_i1 as int); }
@loopafter 1
proof { assert(self.rk().take(vx_e1 as int) =~= self.rk()); }
@code
pub proof fn lemma_row_sum_take(r: Rk, k: int) requires 0 <= k <= r.len() ensures rsum(r.take(k)) <= rsum(r) decreases r.len()
{ if k < r.len() { assert(r.drop_last().take(k) =~= r.take(k)); lemma_row_sum_take(r.drop_last(), k); } else { assert(r.take(k) =~= r); } }
// the check cannot fail on a consistent acyclic graph
pub proof fn lemma_no_back(d: DAG, a: int, b: int) requires d.acyclic(), d.edge(a, b), a != b ensures !d.reaches(b, a)
{
    let f = choose|f: spec_fn(int) -> int| d.up(f);
    if d.reaches(b, a) { let p = choose|p: Seq<int>| d.path(p) && p[0] == b && p.last() == a; lemma_up_path(d, f, p, p.len() - 1); }
}
@end
@fn DAG::verify
requires self.validate ==> self.wf() && self.acyclic(),
@start
proof { if self.validate { lemma_count(self.rk(), self.n()); } }
@loop 1
invariant vx_s1 == &self.nodes, self.targets_ok(),
@loopstart 1
proof { assert(self.succ(vx_i1 - 1) == node.successors@); assert(in_range(self.succ(vx_i1 - 1), self.n())); }
@loop 2
invariant in_range(node.successors@, self.n()), vx_s2 == &node.successors,
@loopstart 2
proof { assert(node.successors@[vx_i2 - 1] == *edge); }
@loop 3
invariant vx_s3 == &self.nodes, self.targets_ok(), self.acyclic(),
@loopstart 3
proof { assert(self.succ(vx_i3 - 1) == node.successors@); assert(in_range(self.succ(vx_i3 - 1), self.n())); }
@loop 4
invariant vx_s4 == &node.successors, self.targets_ok(), self.acyclic(), from.idx < self.n(), node.successors@ == self.succ(from.idx as int), in_range(node.successors@, self.n()),
@loopstart 4
proof { assert(self.succ(from.idx as int)[vx_i4 - 1] == *dest); assert(hd(dest.idx as int) == *dest); assert(self.edge(from.idx as int, dest.idx as int)); if from != *dest { lemma_no_back(*self, from.idx as int, dest.idx as int); } }
@code
// k fresh nodes at the end of the first rank
pub open spec fn grown(o: DAG, d: DAG, k: int) -> bool {
    &&& d.n() == o.n() + k
    &&& forall|i: int| 0 <= i < o.n() ==> (#[trigger] d.succ(i)) == o.succ(i) && d.pred(i) == o.pred(i)
    &&& forall|i: int| o.n() <= i < d.n() ==> (#[trigger] d.succ(i)) == Seq::<NodeHandle>::empty() && d.pred(i) == Seq::<NodeHandle>::empty()
    &&& if k == 0 { d.rk() == o.rk() } else { let q = pad(o.rk(), 1); d.rk() == q.update(0, q[0] + Seq::new(k as nat, |i: int| hd(o.n() + i))) }
}
pub proof fn lemma_grown(o: DAG, m: DAG, d: DAG, k: int)
    requires grown(o, m, k), one_more(m, d), k >= 0,
    ensures grown(o, d, k + 1)
{
    lemma_pad(o.rk(), 1); lemma_pad(m.rk(), 1);
    assert forall|i: int| 0 <= i < o.n() implies (#[trigger] d.succ(i)) == o.succ(i) && d.pred(i) == o.pred(i) by { assert(m.succ(i) == o.succ(i)); }
    assert forall|i: int| o.n() <= i < d.n() implies (#[trigger] d.succ(i)) == Seq::<NodeHandle>::empty() && d.pred(i) == Seq::<NodeHandle>::empty() by { if i < m.n() { assert(m.succ(i) == Seq::<NodeHandle>::empty()); } }
    let q = pad(o.rk(), 1); let f = Seq::new((k + 1) as nat, |i: int| hd(o.n() + i)); let e = Seq::new(k as nat, |i: int| hd(o.n() + i));
    if k > 0 { assert(pad(m.rk(), 1) == m.rk()); assert((q[0] + e).push(hd(m.n())) =~= q[0] + f); } else { assert(q[0].push(hd(m.n())) =~= q[0] + f); }
    assert(d.rk() =~= q.update(0, q[0] + f));
}
pub proof fn lemma_grown_acyclic(o: DAG, d: DAG, k: int) requires grown(o, d, k), o.acyclic(), o.targets_ok() ensures d.acyclic()
{
    let f = choose|f: spec_fn(int) -> int| o.up(f);
    assert forall|a: int, b: int| #[trigger] d.edge(a, b) && a != b implies f(a) < f(b) by {
        assert(d.succ(a).contains(hd(b)));
        if a < o.n() { assert(d.succ(a) == o.succ(a)); assert(in_range(o.succ(a), o.n())); let i = choose|i: int| 0 <= i < o.succ(a).len() && o.succ(a)[i] == hd(b); assert(o.succ(a)[i].idx < o.n()); assert(o.edge(a, b)); } else { assert(d.succ(a) == Seq::<NodeHandle>::empty()); }
    }
    assert(d.up(f));
}
@end
@fn DAG::new_nodes
requires old(self).wf(), old(self).validate ==> old(self).acyclic(), old(self).n() + n < usize::MAX,
ensures final(self).wf(), final(self).validate == old(self).validate, grown(*old(self), *final(self), n as int),
@loop 1
invariant self.wf(), self.validate == old(self).validate, old(self).n() + n < usize::MAX, vx_e1 == n, grown(*old(self), *self, vx_i1 as int),
@loopstart 1
let ghost m = *self;
@loopend 1
proof { assert(one_more(m, *self)); lemma_new_node(m, *self); lemma_grown(*old(self), m, *self, vx_i1 - 1); }
@loopafter 1
proof { if self.validate { lemma_grown_acyclic(*old(self), *self, n as int); } }
