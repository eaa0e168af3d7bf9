@module reach
@use base dag
@file adt/dag.rs
@code
// ---- paths ----
impl DAG {
    pub open spec fn edge(&self, a: int, b: int) -> bool { 0 <= a < self.n() && 0 <= b < self.n() && self.succ(a).contains(hd(b)) }
    // the nodes p[0], p[1], .. are connected one after the other
    pub open spec fn path(&self, p: Seq<int>) -> bool { p.len() >= 1 && 0 <= p[0] < self.n() && forall|k: int| 0 <= k < p.len() - 1 ==> #[trigger] self.edge(p[k], p[k + 1]) }
    pub open spec fn reaches(&self, a: int, b: int) -> bool { exists|p: Seq<int>| self.path(p) && p[0] == a && p.last() == b }
    // f orders the nodes: every edge except self edges goes up
    pub open spec fn up(&self, f: spec_fn(int) -> int) -> bool { forall|a: int, b: int| #[trigger] self.edge(a, b) && a != b ==> f(a) < f(b) }
    pub open spec fn acyclic(&self) -> bool { exists|f: spec_fn(int) -> int| self.up(f) }
}
pub proof fn lemma_step(d: DAG, a: int, b: int, c: int)
    requires d.edge(a, b), d.reaches(b, c),
    ensures d.reaches(a, c)
{
    let p = choose|p: Seq<int>| d.path(p) && p[0] == b && p.last() == c;
    let q = seq![a] + p;
    assert forall|k: int| 0 <= k < q.len() - 1 implies #[trigger] d.edge(q[k], q[k + 1]) by { if k > 0 { assert(q[k] == p[k - 1] && q[k + 1] == p[k - 1 + 1]); assert(d.edge(p[k - 1], p[k - 1 + 1])); } }
    assert(d.path(q) && q[0] == a && q.last() == c);
}
pub proof fn lemma_self(d: DAG, a: int) requires 0 <= a < d.n() ensures d.reaches(a, a)
{ let p = seq![a]; assert(d.path(p) && p[0] == a && p.last() == a); }
// a set that contains a, is closed under edges and does not contain b: no path from a to b
pub proof fn lemma_closed(d: DAG, v: Seq<bool>, a: int, b: int)
    requires v.len() == d.n(), 0 <= a < d.n(), v[a], 0 <= b < d.n(), !v[b], forall|x: int, y: int| #[trigger] d.edge(x, y) && v[x] ==> v[y],
    ensures !d.reaches(a, b)
{
    if d.reaches(a, b) {
        let p = choose|p: Seq<int>| d.path(p) && p[0] == a && p.last() == b;
        lemma_closed_path(d, v, p, p.len() - 1);
    }
}
pub proof fn lemma_closed_path(d: DAG, v: Seq<bool>, p: Seq<int>, k: int)
    requires v.len() == d.n(), d.path(p), v[p[0]], 0 <= k < p.len(), forall|x: int, y: int| #[trigger] d.edge(x, y) && v[x] ==> v[y],
    ensures 0 <= p[k] < d.n(), v[p[k]]
    decreases k
{ if k > 0 { lemma_closed_path(d, v, p, k - 1); assert(d.edge(p[k - 1], p[k - 1 + 1])); } }
pub proof fn lemma_up_path(d: DAG, f: spec_fn(int) -> int, p: Seq<int>, k: int)
    requires d.up(f), d.path(p), 0 <= k < p.len(),
    ensures f(p[0]) <= f(p[k]), f(p[0]) == f(p[k]) ==> p[0] == p[k]
    decreases k
{ if k > 0 { lemma_up_path(d, f, p, k - 1); assert(d.edge(p[k - 1], p[k - 1 + 1])); } }
pub open spec fn unseen(v: Seq<bool>) -> nat decreases v.len() { if v.len() == 0 { 0 } else { unseen(v.drop_last()) + (if v.last() { 0nat } else { 1nat }) } }
pub proof fn lemma_unseen(v: Seq<bool>, i: int)
    requires 0 <= i < v.len(), !v[i],
    ensures unseen(v.update(i, true)) + 1 == unseen(v)
    decreases v.len()
{
    let w = v.update(i, true);
    if i == v.len() - 1 { assert(w.drop_last() =~= v.drop_last()); } else { assert(w.drop_last() =~= v.drop_last().update(i, true)); lemma_unseen(v.drop_last(), i); }
}
pub proof fn lemma_unseen_le(v: Seq<bool>, w: Seq<bool>)
    requires v.len() == w.len(), forall|i: int| 0 <= i < v.len() && v[i] ==> w[i],
    ensures unseen(w) <= unseen(v)
    decreases v.len()
{ if v.len() > 0 { assert forall|i: int| 0 <= i < v.len() - 1 && v.drop_last()[i] implies w.drop_last()[i] by { assert(v[i] ==> w[i]); } lemma_unseen_le(v.drop_last(), w.drop_last()); assert(v[v.len() - 1] ==> w[v.len() - 1]); } }
// the nodes that became visited have all their successors visited
pub open spec fn closed_new(d: DAG, v0: Seq<bool>, v: Seq<bool>) -> bool { forall|x: int, y: int| #[trigger] d.edge(x, y) && v[x] && !v0[x] ==> v[y] }
pub open spec fn more(v0: Seq<bool>, v: Seq<bool>) -> bool { v.len() == v0.len() && forall|i: int| 0 <= i < v.len() && v0[i] ==> #[trigger] v[i] }
@end
@fn DAG::is_reachable_inner
ret r
requires self.targets_ok(), from.idx < self.n(), to.idx < self.n(), old(visited).len() == self.n(), !old(visited)@[to.idx as int],
ensures r ==> self.reaches(from.idx as int, to.idx as int),
    more(old(visited)@, final(visited)@),
    !r ==> final(visited)@[from.idx as int] && !final(visited)@[to.idx as int] && closed_new(*self, old(visited)@, final(visited)@),
decreases unseen(old(visited)@),
@start
proof { if from == to { lemma_self(*self, from.idx as int); } else if !visited@[from.idx as int] { lemma_unseen(visited@, from.idx as int); } }
@loop 1
invariant self.targets_ok(), from.idx < self.n(), to.idx < self.n(), visited.len() == self.n(), from != to, !visited@[to.idx as int],
    vx_s1@ == self.succ(from.idx as int), !old(visited)@[from.idx as int], visited@[from.idx as int], unseen(visited@) < unseen(old(visited)@),
    more(old(visited)@, visited@),
    forall|k: int| 0 <= k < vx_i1 ==> visited@[(#[trigger] self.succ(from.idx as int)[k]).idx as int],
    forall|x: int, y: int| #[trigger] self.edge(x, y) && visited@[x] && !old(visited)@[x] && x != from.idx ==> visited@[y],
@loopstart 1
let ghost v1 = visited@;
proof { assert(in_range(self.succ(from.idx as int), self.n())); assert(self.succ(from.idx as int)[vx_i1 - 1] == *edge); assert(hd(edge.idx as int) == *edge); assert(self.edge(from.idx as int, edge.idx as int)); if self.reaches(edge.idx as int, to.idx as int) { lemma_step(*self, from.idx as int, edge.idx as int, to.idx as int); } }
@loopend 1
proof { lemma_unseen_le(v1, visited@); assert forall|x: int, y: int| #[trigger] self.edge(x, y) && visited@[x] && !old(visited)@[x] && x != from.idx implies visited@[y] by { if v1[x] { assert(v1[y]); } } }
@loopafter 1
proof { assert forall|x: int, y: int| #[trigger] self.edge(x, y) && visited@[x] && !old(visited)@[x] implies visited@[y] by { if x == from.idx { let k = choose|k: int| 0 <= k < self.succ(x).len() && self.succ(x)[k] == hd(y); assert(visited@[self.succ(x)[k].idx as int]); } } }
@fn DAG::is_reachable
ret r
requires self.targets_ok(), from.idx < self.n(), to.idx < self.n(),
ensures r <==> self.reaches(from.idx as int, to.idx as int),
@start
proof { if from == to { lemma_self(*self, from.idx as int); } }
@end_fn
proof { if !vx_r { lemma_closed(*self, visited@, from.idx as int, to.idx as int); } }
@code
// ---- topological order ----
pub type Wk = Seq<(NodeHandle, bool)>;
pub open spec fn later(w: Wk, p: int, h: NodeHandle) -> bool { exists|q: int| p < q < w.len() && (#[trigger] w[q]).0 == h }
pub open spec fn fx(f: spec_fn(int) -> int, h: NodeHandle) -> int { f(h.idx as int) }
#[verifier::opaque]
pub open spec fn topo_inv(d: DAG, f: spec_fn(int) -> int, o: Seq<NodeHandle>, v: Seq<bool>, w: Wk) -> bool {
    &&& v.len() == d.n() && in_range(o, d.n()) && forall|k: int| 0 <= k < w.len() ==> (#[trigger] w[k]).0.idx < d.n()
    &&& forall|h: NodeHandle| h.idx < d.n() ==> (v[h.idx as int] <==> (#[trigger] o.contains(h) || w.contains((h, true))))
    &&& o.no_duplicates()
    &&& forall|p: int, q: int| #![trigger w[p], w[q]] 0 <= p < q < w.len() && w[p].1 && w[q].1 ==> fx(f, w[p].0) < fx(f, w[q].0)
    &&& forall|p: int| 0 <= p < w.len() && (#[trigger] w[p]).1 ==> !o.contains(w[p].0)
    &&& forall|p: int, q: int| #![trigger w[p], w[q]] 0 <= p < q < w.len() && w[p].1 && !w[q].1 ==> w[q].0 == w[p].0 || fx(f, w[p].0) < fx(f, w[q].0)
    &&& forall|p: int, y: int| 0 <= p < w.len() && w[p].1 && #[trigger] d.edge(w[p].0.idx as int, y) && y != w[p].0.idx ==> o.contains(hd(y)) || later(w, p, hd(y))
    &&& forall|k: int, y: int| 0 <= k < o.len() && #[trigger] d.edge(o[k].idx as int, y) && y != o[k].idx ==> o.take(k).contains(hd(y))
    &&& forall|h: NodeHandle| h.idx < d.n() ==> v[h.idx as int] || #[trigger] w.contains((h, false))
}
pub proof fn lemma_contains_drop<T>(s: Seq<T>, x: T) requires s.len() > 0 ensures s.contains(x) <==> (s.drop_last().contains(x) || s.last() == x)
{
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < s.len() - 1 { assert(s.drop_last()[i] == x); } }
    if s.drop_last().contains(x) { let i = choose|i: int| 0 <= i < s.len() - 1 && s.drop_last()[i] == x; assert(s[i] == x); }
    if s.last() == x { assert(s[s.len() - 1] == x); }
}
pub proof fn lemma_contains_push<T>(s: Seq<T>, y: T, x: T) ensures s.push(y).contains(x) <==> (s.contains(x) || y == x)
{ lemma_contains_drop(s.push(y), x); assert(s.push(y).drop_last() =~= s); }
pub broadcast proof fn lemma_pop<T>(s: Seq<T>) requires s.len() > 0 ensures (#[trigger] s.subrange(0, s.len() - 1)).push(s.last()) == s
{ assert(s.subrange(0, s.len() - 1).push(s.last()) =~= s); }
pub broadcast proof fn lemma_pop2<T>(s: Seq<T>) requires s.len() > 0 ensures (#[trigger] s.drop_last()).push(s.last()) == s
{ assert(s.drop_last().push(s.last()) =~= s); }
// a finished node goes to the order
#[verifier::spinoff_prover]
pub proof fn lemma_topo_done(d: DAG, f: spec_fn(int) -> int, o: Seq<NodeHandle>, v: Seq<bool>, w: Wk)
    requires topo_inv(d, f, o, v, w), w.len() > 0, w.last().1, d.targets_ok(), d.up(f),
    ensures topo_inv(d, f, o.push(w.last().0), v, w.drop_last())
{
    reveal(topo_inv);
    let c = w.last().0; let o2 = o.push(c); let w2 = w.drop_last(); let t = w.len() - 1;
    assert(w[t] == (c, true));
    assert forall|h: NodeHandle| h.idx < d.n() implies (v[h.idx as int] <==> (#[trigger] o2.contains(h) || w2.contains((h, true)))) by { lemma_contains_push(o, c, h); lemma_contains_drop(w, (h, true)); assert(o.contains(h) || !o.contains(h)); }
    assert forall|h: NodeHandle| h.idx < d.n() implies v[h.idx as int] || #[trigger] w2.contains((h, false)) by { lemma_contains_drop(w, (h, false)); }
    assert forall|i: int, j: int| 0 <= i < o2.len() && 0 <= j < o2.len() && i != j implies o2[i] != o2[j] by { if i == o.len() { assert(o.contains(o[j])); } else if j == o.len() { assert(o.contains(o[i])); } }
    assert forall|p: int| 0 <= p < w2.len() && (#[trigger] w2[p]).1 implies !o2.contains(w2[p].0) by { lemma_contains_push(o, c, w2[p].0); assert(w[p] == w2[p]); assert(fx(f, w[p].0) < fx(f, w[t].0)); }
    assert forall|p: int, y: int| 0 <= p < w2.len() && w2[p].1 && #[trigger] d.edge(w2[p].0.idx as int, y) && y != w2[p].0.idx implies o2.contains(hd(y)) || later(w2, p, hd(y)) by {
        assert(w[p] == w2[p]); lemma_contains_push(o, c, hd(y));
        if !o2.contains(hd(y)) { let q = choose|q: int| p < q < w.len() && (#[trigger] w[q]).0 == hd(y); assert(q != t); assert(w2[q] == w[q]); }
    }
    assert forall|k: int, y: int| 0 <= k < o2.len() && #[trigger] d.edge(o2[k].idx as int, y) && y != o2[k].idx implies o2.take(k).contains(hd(y)) by {
        if k == o.len() { assert(d.edge(w[t].0.idx as int, y)); assert(!later(w, t, hd(y))); assert(o2.take(k) =~= o); }
        else { assert(o2.take(k) =~= o.take(k)); assert(d.edge(o[k].idx as int, y)); }
    }
}
// a node that was seen before is dropped
#[verifier::spinoff_prover]
pub proof fn lemma_topo_skip(d: DAG, f: spec_fn(int) -> int, o: Seq<NodeHandle>, v: Seq<bool>, w: Wk)
    requires topo_inv(d, f, o, v, w), w.len() > 0, !w.last().1, v[w.last().0.idx as int], d.targets_ok(), d.up(f),
    ensures topo_inv(d, f, o, v, w.drop_last())
{
    reveal(topo_inv);
    let c = w.last().0; let w2 = w.drop_last(); let t = w.len() - 1;
    assert(w[t] == (c, false));
    assert forall|h: NodeHandle| h.idx < d.n() implies (v[h.idx as int] <==> (#[trigger] o.contains(h) || w2.contains((h, true)))) by { lemma_contains_drop(w, (h, true)); }
    assert forall|h: NodeHandle| h.idx < d.n() implies v[h.idx as int] || #[trigger] w2.contains((h, false)) by { lemma_contains_drop(w, (h, false)); }
    assert forall|p: int, y: int| 0 <= p < w2.len() && w2[p].1 && #[trigger] d.edge(w2[p].0.idx as int, y) && y != w2[p].0.idx implies o.contains(hd(y)) || later(w2, p, hd(y)) by {
        assert(w[p] == w2[p]);
        if !o.contains(hd(y)) {
            let q = choose|q: int| p < q < w.len() && (#[trigger] w[q]).0 == hd(y);
            if q == t {
                assert(hd(y) == c); assert(w.contains((c, true)));
                let m = choose|m: int| 0 <= m < w.len() && w[m] == (c, true);
                assert(f(w[p].0.idx as int) < f(y));
                if m < p { assert(fx(f, w[m].0) < fx(f, w[p].0)); }
                assert(m != p); assert(m > p && m < t); assert(w2[m].0 == hd(y));
            } else { assert(w2[q] == w[q]); }
        }
    }
}
// a fresh node is marked and its successors are put on the list
#[verifier::spinoff_prover]
pub proof fn lemma_topo_visit(d: DAG, f: spec_fn(int) -> int, o: Seq<NodeHandle>, v: Seq<bool>, w: Wk, w3: Wk)
    requires topo_inv(d, f, o, v, w), w.len() > 0, !w.last().1, !v[w.last().0.idx as int], d.targets_ok(), d.up(f),
        w3 == w.drop_last().push((w.last().0, true)) + Seq::new(d.succ(w.last().0.idx as int).len(), |i: int| (d.succ(w.last().0.idx as int)[i], false)),
    ensures topo_inv(d, f, o, v.update(w.last().0.idx as int, true), w3)
{
    reveal(topo_inv);
    let c = w.last().0; let t = w.len() - 1; let v3 = v.update(c.idx as int, true); let s = d.succ(c.idx as int);
    let w2 = w.drop_last();
    assert(w[t] == (c, false)); assert(in_range(s, d.n()));
    assert(w3.len() == t + 1 + s.len());
    assert(forall|p: int| 0 <= p < t ==> #[trigger] w3[p] == w[p]);
    assert(w3[t] == (c, true));
    assert forall|p: int| t < p < w3.len() implies w3[p] == (s[p - t - 1], false) && s[p - t - 1].idx < d.n() && (s[p - t - 1] == c || fx(f, c) < fx(f, #[trigger] w3[p].0)) by { let y = s[p - t - 1]; assert(hd(y.idx as int) == y); assert(d.edge(c.idx as int, y.idx as int)); }
    assert(!o.contains(c) && !w.contains((c, true)));
    assert forall|p: int| 0 <= p < t && (#[trigger] w3[p]).1 implies fx(f, w3[p].0) < fx(f, c) by { assert(w[p].0 != c) by { if w[p].0 == c { assert(w[p] == (c, true)); } } }
    assert forall|h: NodeHandle| h.idx < d.n() implies (v3[h.idx as int] <==> (#[trigger] o.contains(h) || w3.contains((h, true)))) by {
        if w.contains((h, true)) { let i = choose|i: int| 0 <= i < w.len() && w[i] == (h, true); assert(w3[i] == (h, true)); }
        if w3.contains((h, true)) && h != c { let i = choose|i: int| 0 <= i < w3.len() && w3[i] == (h, true); assert(w[i] == (h, true)); }
        if h == c { assert(w3[t] == (h, true)); }
        assert(h.idx == c.idx ==> h == c);
    }
    assert forall|h: NodeHandle| h.idx < d.n() implies v3[h.idx as int] || #[trigger] w3.contains((h, false)) by {
        if !v[h.idx as int] && h != c { assert(w.contains((h, false))); let i = choose|i: int| 0 <= i < w.len() && w[i] == (h, false); assert(i != t); assert(w3[i] == (h, false)); }
    }
    assert forall|p: int, y: int| 0 <= p < w3.len() && w3[p].1 && #[trigger] d.edge(w3[p].0.idx as int, y) && y != w3[p].0.idx implies o.contains(hd(y)) || later(w3, p, hd(y)) by {
        if p < t {
            assert(w3[p] == w[p]); assert(d.edge(w[p].0.idx as int, y));
            if !o.contains(hd(y)) { assert(later(w, p, hd(y))); let q = choose|q: int| p < q < w.len() && (#[trigger] w[q]).0 == hd(y); assert(w3[q].0 == w[q].0); }
        } else {
            assert(p == t);
            let i = choose|i: int| 0 <= i < s.len() && s[i] == hd(y); assert(w3[t + 1 + i].0 == hd(y));
        }
    }
    assert forall|p: int, q: int| #![trigger w3[p], w3[q]] 0 <= p < q < w3.len() && w3[p].1 && !w3[q].1 implies w3[q].0 == w3[p].0 || fx(f, w3[p].0) < fx(f, w3[q].0) by {
        if q < t { assert(w3[p] == w[p] && w3[q] == w[q]); } else if p < t { assert(fx(f, w3[p].0) < fx(f, c)); }
    }
    assert forall|p: int, q: int| #![trigger w3[p], w3[q]] 0 <= p < q < w3.len() && w3[p].1 && w3[q].1 implies fx(f, w3[p].0) < fx(f, w3[q].0) by {
        if q < t { assert(w3[p] == w[p] && w3[q] == w[q]); }
    }
    assert forall|p: int| 0 <= p < w3.len() && (#[trigger] w3[p]).1 implies !o.contains(w3[p].0) by { if p < t { assert(w3[p] == w[p]); } }
}
// every node once, and every edge leads to a later position
pub open spec fn topo_order(d: DAG, s: Seq<NodeHandle>) -> bool {
    &&& s.len() == d.n() && in_range(s, d.n()) && s.no_duplicates()
    &&& forall|h: NodeHandle| h.idx < d.n() ==> #[trigger] s.contains(h)
    &&& forall|j: int, k: int| #![trigger s[j], s[k]] 0 <= j < s.len() && 0 <= k < s.len() && j != k && d.edge(s[j].idx as int, s[k].idx as int) ==> j < k
}
pub proof fn lemma_all_len(s: Seq<NodeHandle>, n: int)
    requires 0 <= n <= usize::MAX, in_range(s, n), s.no_duplicates(), forall|h: NodeHandle| h.idx < n ==> #[trigger] s.contains(h),
    ensures s.len() == n
    decreases n
{
    if n == 0 { if s.len() > 0 { assert(s[0].idx < 0); } }
    else {
        let h = hd(n - 1); assert(s.contains(h)); let i = choose|i: int| 0 <= i < s.len() && s[i] == h; let t = s.remove(i);
        assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).idx < n - 1 by { let k2 = if k < i { k } else { k + 1 }; assert(t[k] == s[k2]); assert(s[k2] != s[i]); assert(s[k2].idx < n); }
        assert forall|g: NodeHandle| g.idx < n - 1 implies #[trigger] t.contains(g) by { assert(s.contains(g)); let k = choose|k: int| 0 <= k < s.len() && s[k] == g; if k < i { assert(t[k] == g); } else { assert(k != i); assert(t[k - 1] == g); } }
        lemma_all_len(t, n - 1);
    }
}
pub proof fn lemma_topo_end(d: DAG, f: spec_fn(int) -> int, o: Seq<NodeHandle>, v: Seq<bool>)
    requires topo_inv(d, f, o, v, Seq::empty()), 
    ensures topo_order(d, o.reverse())
{
    reveal(topo_inv);
    let w: Wk = Seq::empty(); let s = o.reverse();
    assert forall|h: NodeHandle| h.idx < d.n() implies #[trigger] o.contains(h) by { assert(!w.contains((h, false)) && !w.contains((h, true))); }
    lemma_all_len(o, d.n());
    assert(s.len() == o.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == o[o.len() - 1 - i]);
    assert forall|h: NodeHandle| h.idx < d.n() implies #[trigger] s.contains(h) by { assert(o.contains(h)); let i = choose|i: int| 0 <= i < o.len() && o[i] == h; assert(s[o.len() - 1 - i] == h); }
    assert forall|j: int, k: int| #![trigger s[j], s[k]] 0 <= j < s.len() && 0 <= k < s.len() && j != k && d.edge(s[j].idx as int, s[k].idx as int) implies j < k by {
        let a = o.len() - 1 - j; let b = o.len() - 1 - k;
        assert(s[j] == o[a] && s[k] == o[b]);
        assert(o[a] != o[b]);
        assert(d.edge(o[a].idx as int, o[b].idx as int)); assert(hd(o[b].idx as int) == o[b]);
        assert(o.take(a).contains(o[b]));
        let i = choose|i: int| 0 <= i < a && o.take(a)[i] == o[b]; assert(o[i] == o[b]);
    }
}
@end
@fn DAG::topological_sort
ret r
requires self.targets_ok(), self.acyclic(),
ensures topo_order(*self, r@),
@start
broadcast use lemma_pop, lemma_pop2;
let ghost f = choose|f: spec_fn(int) -> int| self.up(f);
@loop 1 kind=iter
invariant vx_it1.curr <= vx_it1.last, vx_it1.last == self.n(), worklist@ =~= Seq::new(vx_it1.curr as nat, |i: int| (hd(i), false)),
ensures vx_it1.curr == vx_it1.last,
decreases vx_it1.last - vx_it1.curr,
@loopafter 1
proof {
    let w = worklist@;
    assert forall|h: NodeHandle| h.idx < self.n() implies #[trigger] w.contains((h, false)) by { assert(w[h.idx as int] == (h, false)); }
    assert forall|h: NodeHandle| !#[trigger] w.contains((h, true)) by { }
    assert(topo_inv(*self, f, order@, visited@, worklist@)) by { reveal(topo_inv); }
}
@loop 2
invariant self.targets_ok(), self.up(f), topo_inv(*self, f, order@, visited@, worklist@), visited.len() == self.n(),
ensures worklist@.len() == 0,
decreases unseen(visited@), worklist.len(),
@loopstart 2
broadcast use lemma_pop, lemma_pop2;
let ghost w0 = worklist@.push((current, cmd)); let ghost v0 = visited@;
proof {
    assert(w0.drop_last() =~= worklist@); assert(w0.last() == (current, cmd));
    assert(current.idx < self.n()) by { reveal(topo_inv); assert(w0[w0.len() - 1].0.idx < self.n()); }
    if cmd { lemma_topo_done(*self, f, order@, visited@, w0); } else if visited@[current.idx as int] { lemma_topo_skip(*self, f, order@, visited@, w0); } else { lemma_unseen(visited@, current.idx as int); }
}
@loop 3
invariant vx_s3@ == self.succ(current.idx as int), worklist@ =~= w0.drop_last().push((current, true)) + Seq::new(vx_i3 as nat, |i: int| (self.succ(current.idx as int)[i], false)),
@loopafter 3
proof { lemma_topo_visit(*self, f, order@, v0, w0, worklist@); }
@loopafter 2
proof { assert(worklist@ =~= Seq::empty()); lemma_topo_end(*self, f, order@, visited@); }
@code
// ---- levels ----
pub open spec fn real_edge(d: DAG, a: int, b: int) -> bool { d.edge(a, b) && a != b }
pub open spec fn real_path(d: DAG, p: Seq<int>) -> bool { p.len() >= 1 && 0 <= p[0] < d.n() && forall|k: int| 0 <= k < p.len() - 1 ==> #[trigger] real_edge(d, p[k], p[k + 1]) }
// l is the number of edges of the longest path that ends in v (self edges do not count)
pub open spec fn longest(d: DAG, v: int, l: int) -> bool {
    (exists|p: Seq<int>| real_path(d, p) && p.last() == v && p.len() == l + 1) && forall|p: Seq<int>| #[trigger] real_path(d, p) && p.last() == v ==> p.len() <= l + 1
}
pub open spec fn above(d: DAG, lv: Seq<usize>, b: int) -> bool { exists|a: int| #[trigger] real_edge(d, a, b) && lv[b] == lv[a] + 1 }
pub open spec fn levels_ok(d: DAG, lv: Seq<usize>) -> bool {
    &&& lv.len() == d.n()
    &&& forall|a: int, b: int| #[trigger] real_edge(d, a, b) ==> lv[b] >= lv[a] + 1
    &&& forall|b: int| 0 <= b < d.n() ==> lv[b] == 0 || #[trigger] above(d, lv, b)
}
pub proof fn lemma_long_upper(d: DAG, lv: Seq<usize>, p: Seq<int>, k: int)
    requires levels_ok(d, lv), real_path(d, p), 0 <= k < p.len(),
    ensures 0 <= p[k] < d.n(), lv[p[k]] >= k
    decreases k
{ if k > 0 { lemma_long_upper(d, lv, p, k - 1); assert(real_edge(d, p[k - 1], p[k - 1 + 1])); } }
pub proof fn lemma_long_exists(d: DAG, lv: Seq<usize>, v: int)
    requires levels_ok(d, lv), 0 <= v < d.n(),
    ensures exists|p: Seq<int>| real_path(d, p) && p.last() == v && p.len() == lv[v] + 1
    decreases lv[v]
{
    if lv[v] == 0 { let p = seq![v]; assert(real_path(d, p) && p.last() == v && p.len() == lv[v] + 1); }
    else {
        assert(above(d, lv, v));
        let a = choose|a: int| #[trigger] real_edge(d, a, v) && lv[v] == lv[a] + 1;
        lemma_long_exists(d, lv, a);
        let p = choose|p: Seq<int>| real_path(d, p) && p.last() == a && p.len() == lv[a] + 1;
        let q = p.push(v);
        assert forall|k: int| 0 <= k < q.len() - 1 implies #[trigger] real_edge(d, q[k], q[k + 1]) by { assert(q[k] == p[k]); if k < p.len() - 1 { assert(q[k + 1] == p[k + 1]); assert(real_edge(d, p[k], p[k + 1])); } }
        assert(real_path(d, q) && q.last() == v && q.len() == lv[v] + 1);
    }
}
pub proof fn lemma_longest(d: DAG, lv: Seq<usize>, v: int)
    requires levels_ok(d, lv), 0 <= v < d.n(),
    ensures longest(d, v, lv[v] as int)
{
    lemma_long_exists(d, lv, v);
    assert forall|p: Seq<int>| #[trigger] real_path(d, p) && p.last() == v implies p.len() <= lv[v] + 1 by { lemma_long_upper(d, lv, p, p.len() - 1); }
}
// what holds after the first k nodes of the order were processed
pub open spec fn above_k(d: DAG, s: Seq<NodeHandle>, lv: Seq<usize>, b: int, k: int) -> bool { exists|j: int| 0 <= j < k && #[trigger] real_edge(d, s[j].idx as int, b) && lv[b] == lv[s[j].idx as int] + 1 }
#[verifier::opaque]
pub open spec fn lev_inv(d: DAG, s: Seq<NodeHandle>, lv: Seq<usize>, k: int) -> bool {
    &&& lv.len() == d.n()
    &&& forall|x: int| 0 <= x < d.n() ==> #[trigger] lv[x] <= k
    &&& forall|j: int, b: int| 0 <= j < k && #[trigger] real_edge(d, s[j].idx as int, b) ==> lv[b] >= lv[s[j].idx as int] + 1
    &&& forall|b: int| 0 <= b < d.n() ==> #[trigger] lv[b] == 0 || above_k(d, s, lv, b, k)
}
// what one node of the order changes
pub open spec fn lev_step(d: DAG, c: int, l0: Seq<usize>, lv: Seq<usize>, m: int) -> bool {
    &&& lv.len() == l0.len() && lv[c] == l0[c]
    &&& forall|x: int| 0 <= x < lv.len() ==> #[trigger] lv[x] == l0[x] || (real_edge(d, c, x) && lv[x] == l0[c] + 1 && l0[x] <= lv[x])
    &&& forall|i: int| 0 <= i < m ==> (#[trigger] d.succ(c)[i]).idx == c || lv[d.succ(c)[i].idx as int] >= l0[c] + 1
}
#[verifier::spinoff_prover]
pub proof fn lemma_lev_step(d: DAG, s: Seq<NodeHandle>, l0: Seq<usize>, lv: Seq<usize>, k: int)
    requires topo_order(d, s), 0 <= k < s.len(), lev_inv(d, s, l0, k), lev_step(d, s[k].idx as int, l0, lv, d.succ(s[k].idx as int).len() as int), d.targets_ok(), 
    ensures lev_inv(d, s, lv, k + 1)
{
    reveal(lev_inv);
    let c = s[k].idx as int;
    // a node processed before c gets nothing from c
    assert forall|j: int| 0 <= j < k implies lv[(#[trigger] s[j]).idx as int] == l0[s[j].idx as int] by {
        let a = s[j].idx as int;
        assert(lv[a] == lv[a]);
        if real_edge(d, c, a) { assert(hd(a) == s[j]); assert(d.edge(s[k].idx as int, s[j].idx as int)); assert(k < j); }
    }
    assert forall|j: int, b: int| 0 <= j < k + 1 && #[trigger] real_edge(d, s[j].idx as int, b) implies lv[b] >= lv[s[j].idx as int] + 1 by {
        let a = s[j].idx as int;
        if j == k { let i = choose|i: int| 0 <= i < d.succ(c).len() && d.succ(c)[i] == hd(b); assert(d.succ(c)[i].idx == b); }
        else { assert(lv[a] == l0[a]); assert(l0[b] >= l0[a] + 1); assert(lv[b] >= l0[b]); }
    }
    assert forall|b: int| 0 <= b < d.n() implies #[trigger] lv[b] == 0 || above_k(d, s, lv, b, k + 1) by {
        if lv[b] != l0[b] { assert(real_edge(d, s[k].idx as int, b) && lv[b] == lv[c] + 1); }
        else if lv[b] != 0 {
            assert(l0[b] != 0); assert(above_k(d, s, l0, b, k)); let j = choose|j: int| 0 <= j < k && #[trigger] real_edge(d, s[j].idx as int, b) && l0[b] == l0[s[j].idx as int] + 1;
            assert(lv[s[j].idx as int] == l0[s[j].idx as int]);
            assert(real_edge(d, s[j].idx as int, b) && lv[b] == lv[s[j].idx as int] + 1);
        }
    }
    assert forall|x: int| 0 <= x < d.n() implies #[trigger] lv[x] <= k + 1 by { assert(l0[x] <= k); assert(l0[c] <= k); }
}
pub proof fn lemma_lev_end(d: DAG, s: Seq<NodeHandle>, lv: Seq<usize>)
    requires topo_order(d, s), lev_inv(d, s, lv, s.len() as int),
    ensures levels_ok(d, lv)
{
    reveal(lev_inv);
    assert forall|a: int, b: int| #[trigger] real_edge(d, a, b) implies lv[b] >= lv[a] + 1 by { assert(s.contains(hd(a))); let j = choose|j: int| 0 <= j < s.len() && s[j] == hd(a); assert(real_edge(d, s[j].idx as int, b)); }
    assert forall|b: int| 0 <= b < d.n() implies lv[b] == 0 || #[trigger] above(d, lv, b) by {
        if lv[b] != 0 { assert(above_k(d, s, lv, b, s.len() as int)); let j = choose|j: int| 0 <= j < s.len() && #[trigger] real_edge(d, s[j].idx as int, b) && lv[b] == lv[s[j].idx as int] + 1; assert(real_edge(d, s[j].idx as int, b)); }
    }
}
@end
@fn DAG::compute_levels
ret r
requires self.targets_ok(), topo_order(*self, order@),
ensures levels_ok(*self, r@),
@loop 1
invariant self.targets_ok(), topo_order(*self, order@), vx_s1@ == order@, levels@.len() == self.n(), lev_inv(*self, order@, levels@, vx_i1 as int),
@loopbefore 1
proof { assert(lev_inv(*self, order@, levels@, 0)) by { reveal(lev_inv); } }
@loopstart 1
let ghost l0 = levels@; let ghost c = src.idx as int;
proof { assert(order@[vx_i1 - 1] == *src); assert(l0[c] < vx_e1) by { reveal(lev_inv); assert(l0[c] <= vx_i1 - 1); } }
@loop 2
invariant self.targets_ok(), c == src.idx, 0 <= c < self.n(), vx_s2@ == self.succ(c), levels@.len() == self.n(), lev_step(*self, c, l0, levels@, vx_i2 as int), l0[c] < usize::MAX,
@loopstart 2
let ghost l1 = levels@;
proof { assert(self.succ(c)[vx_i2 - 1] == *dest); assert(in_range(self.succ(c), self.n())); assert(hd(dest.idx as int) == *dest); assert(self.edge(c, dest.idx as int)); assert(l1[dest.idx as int] == l1[dest.idx as int]); }
@loopafter 2
proof { lemma_lev_step(*self, order@, l0, levels@, vx_i1 - 1); }
@loopafter 1
proof { lemma_lev_end(*self, order@, levels@); }
@loop 3
invariant self.targets_ok(), topo_order(*self, order@), vx_s3@ == order@, levels_ok(*self, levels@),
@loopstart 3
proof { assert(order@[vx_i3 - 1] == *src); }
@loop 4
invariant self.targets_ok(), src.idx < self.n(), vx_s4@ == self.succ(src.idx as int), levels_ok(*self, levels@),
@loopstart 4
proof { assert(self.succ(src.idx as int)[vx_i4 - 1] == *dest); assert(in_range(self.succ(src.idx as int), self.n())); assert(hd(dest.idx as int) == *dest); if src.idx != dest.idx { assert(real_edge(*self, src.idx as int, dest.idx as int)); } }
@code
// the ranks hold exactly the first k nodes, each on its level, and end with an occupied rank
pub open spec fn placed(r: Rk, lv: Seq<usize>, k: int) -> bool {
    &&& ranks_wf(r, k)
    &&& forall|i: int| 0 <= i < k ==> #[trigger] lv[i] < r.len() && r[lv[i] as int].contains(hd(i))
    &&& r.len() > 0 ==> exists|i: int| 0 <= i < k && #[trigger] lv[i] == r.len() - 1
}
pub proof fn lemma_placed_step(r: Rk, lv: Seq<usize>, k: int)
    requires placed(r, lv, k), 0 <= k < lv.len(), k < usize::MAX, 
    ensures ({ let q = pad(r, lv[k] + 1); placed(q.update(lv[k] as int, q[lv[k] as int].push(hd(k))), lv, k + 1) })
{
    let l = lv[k] as int;
    let q = pad(r, l + 1); let s = q.update(l, q[l].push(hd(k)));
    lemma_pad(r, l + 1); lemma_pad_wf(r, k, l + 1); lemma_add(q, k, l);
    lemma_contains_push(q[l], hd(k), hd(k));
    assert forall|i: int| 0 <= i < k + 1 implies #[trigger] lv[i] < s.len() && s[lv[i] as int].contains(hd(i)) by {
        if i < k { assert(r[lv[i] as int].contains(hd(i))); assert(q[lv[i] as int] == r[lv[i] as int]); if lv[i] == l { lemma_contains_push(q[l], hd(k), hd(i)); } else { assert(s[lv[i] as int] == q[lv[i] as int]); } }
    }
    if r.len() >= l + 1 { let i = choose|i: int| 0 <= i < k && #[trigger] lv[i] == r.len() - 1; assert(lv[i] == s.len() - 1); } else { assert(lv[k] == s.len() - 1); }
}
pub proof fn lemma_no_empty(d: DAG, r: Rk, lv: Seq<usize>, l: int)
    requires levels_ok(d, lv), placed(r, lv, d.n()), 0 <= l < r.len(),
    ensures exists|i: int| 0 <= i < d.n() && #[trigger] lv[i] == l
    decreases r.len() - l
{
    if l < r.len() - 1 {
        lemma_no_empty(d, r, lv, l + 1); let b = choose|b: int| 0 <= b < d.n() && #[trigger] lv[b] == l + 1;
        assert(above(d, lv, b)); let a = choose|a: int| #[trigger] real_edge(d, a, b) && lv[b] == lv[a] + 1; assert(lv[a] == l);
    }
}
pub proof fn lemma_ranked(d: DAG, lv: Seq<usize>)
    requires levels_ok(d, lv), placed(d.rk(), lv, d.n()),
    ensures levelled(d),
{
    let r = d.rk();
    assert forall|v: int| 0 <= v < d.n() implies #[trigger] rank_of(r, hd(v)) == lv[v] by { assert(lv[v] == lv[v]); lemma_rank_of(r, d.n(), hd(v), lv[v] as int); }
    assert forall|v: int| 0 <= v < d.n() implies longest(d, v, #[trigger] rank_of(r, hd(v))) by { lemma_longest(d, lv, v); }
    assert forall|a: int, b: int| #[trigger] real_edge(d, a, b) implies rank_of(r, hd(a)) < rank_of(r, hd(b)) by { assert(rank_of(r, hd(a)) == lv[a] && rank_of(r, hd(b)) == lv[b]); }
    assert forall|l: int| 0 <= l < r.len() implies (#[trigger] r[l]).len() > 0 by { lemma_no_empty(d, r, lv, l); let i = choose|i: int| 0 <= i < d.n() && #[trigger] lv[i] == l; assert(r[lv[i] as int].contains(hd(i))); }
}
pub proof fn lemma_same_levels(d: DAG, e: DAG, lv: Seq<usize>) requires d.nodes == e.nodes, levels_ok(d, lv) ensures levels_ok(e, lv)
{
    assert forall|a: int, b: int| #[trigger] real_edge(e, a, b) implies lv[b] >= lv[a] + 1 by { assert(d.succ(a) == e.succ(a)); assert(real_edge(d, a, b)); }
    assert forall|b: int| 0 <= b < e.n() implies lv[b] == 0 || #[trigger] above(e, lv, b) by { if lv[b] != 0 { assert(above(d, lv, b)); let a = choose|a: int| #[trigger] real_edge(d, a, b) && lv[b] == lv[a] + 1; assert(d.succ(a) == e.succ(a)); assert(real_edge(e, a, b)); } }
}
// a path has no node twice, so no level reaches the number of nodes
pub proof fn lemma_level_bound(d: DAG, lv: Seq<usize>, v: int)
    requires levels_ok(d, lv), 0 <= v < d.n(),
    ensures lv[v] < d.n()
{
    lemma_long_exists(d, lv, v);
    let p = choose|p: Seq<int>| real_path(d, p) && p.last() == v && p.len() == lv[v] + 1;
    let s = Seq::new(p.len(), |i: int| hd(p[i]));
    assert forall|i: int, j: int| 0 <= i < j < p.len() implies lv[p[i]] < lv[p[j]] by { lemma_grow(d, lv, p, i, j); }
    assert forall|i: int| 0 <= i < p.len() implies 0 <= #[trigger] p[i] < d.n() by { lemma_long_upper(d, lv, p, i); }
    assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert(lv[p[i]] < lv[p[j]]); } else { assert(lv[p[j]] < lv[p[i]]); } } }
    assert(in_range(s, d.n()));
    lemma_few(s, d.n());
}
pub proof fn lemma_grow(d: DAG, lv: Seq<usize>, p: Seq<int>, i: int, j: int)
    requires levels_ok(d, lv), real_path(d, p), 0 <= i < j < p.len(),
    ensures lv[p[i]] < lv[p[j]]
    decreases j - i
{ assert(real_edge(d, p[j - 1], p[j - 1 + 1])); if i < j - 1 { lemma_grow(d, lv, p, i, j - 1); } }
pub proof fn lemma_few(s: Seq<NodeHandle>, n: int)
    requires 0 <= n <= usize::MAX, in_range(s, n), s.no_duplicates(),
    ensures s.len() <= n
    decreases n
{
    if n == 0 { if s.len() > 0 { assert(s[0].idx < 0); } }
    else {
        let h = hd(n - 1);
        if s.contains(h) {
            let i = choose|i: int| 0 <= i < s.len() && s[i] == h; let t = s.remove(i);
            assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).idx < n - 1 by { let k2 = if k < i { k } else { k + 1 }; assert(t[k] == s[k2]); assert(s[k2] != s[i]); assert(s[k2].idx < n); }
            lemma_few(t, n - 1);
        } else {
            assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).idx < n - 1 by { assert(s[k].idx < n); if s[k].idx == n - 1 { assert(s[k] == h); } }
            lemma_few(s, n - 1);
        }
    }
}
// what levelling promises
pub open spec fn levelled(d: DAG) -> bool {
    &&& forall|v: int| 0 <= v < d.n() ==> longest(d, v, #[trigger] rank_of(d.rk(), hd(v)))
    &&& forall|a: int, b: int| #[trigger] real_edge(d, a, b) ==> rank_of(d.rk(), hd(a)) < rank_of(d.rk(), hd(b))
    &&& forall|l: int| 0 <= l < d.rk().len() ==> (#[trigger] d.rk()[l]).len() > 0
}
@end
@fn DAG::recompute_node_ranks
requires old(self).edges_wf(), old(self).acyclic(), old(self).n() > 0, old(self).n() < usize::MAX,
ensures final(self).nodes == old(self).nodes, final(self).validate == old(self).validate, final(self).wf(), levelled(*final(self)),
@loop 1
invariant vx_s1@ == levels@, levels@.len() == self.n(), levels_ok(*self, levels@), self.nodes == old(self).nodes, self.validate == old(self).validate, placed(self.rk(), levels@, vx_i1 as int), self.n() < usize::MAX, 
@loopbefore 1
proof { reveal(ranks_wf); assert(self.rk() =~= Seq::empty()); lemma_same_levels(*old(self), *self, levels@); }
@loopstart 1
proof { assert(levels@[vx_i1 - 1] == *level); lemma_level_bound(*self, levels@, vx_i1 - 1); lemma_placed_step(self.rk(), levels@, vx_i1 - 1); }
let ghost d0 = *self;
@loopend 1
proof { lemma_same_levels(d0, *self, levels@); }
@loopafter 1
proof { lemma_ranked(*self, levels@); lemma_same_edges(*old(self), *self); }
