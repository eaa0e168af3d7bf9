@module cross
@use base dag reach dagcheck
@file core/base.rs
@enum Direction derive=Clone,Copy
@fn Direction::is_down
ret r
ensures r == self.down(),
@fn Direction::is_up
ret r
ensures r == self.goes_up(),
@code
impl Direction {
    pub open spec fn down(&self) -> bool { match self { Direction::Both | Direction::Down => true, _ => false } }
    pub open spec fn goes_up(&self) -> bool { match self { Direction::Both | Direction::Up => true, _ => false } }
}
@end
@file topo/optimizer.rs
@struct EdgeCrossOptimizer
@code
// ---- triangular sums ----
pub type F2 = spec_fn(int, int) -> int;
pub open spec fn colsum(f: F2, j: int, k: int) -> int decreases k { if k <= 0 { 0 } else { colsum(f, j, k - 1) + f(k - 1, j) } }
pub open spec fn rowsum(f: F2, i: int, n: int) -> int decreases n - i { if n <= i + 1 { 0 } else { rowsum(f, i, n - 1) + f(i, n - 1) } }
// the sum of f(i, j) for all i < j < n
pub open spec fn tri(f: F2, n: int) -> int decreases n { if n <= 0 { 0 } else { tri(f, n - 1) + colsum(f, n - 1, n - 1) } }
// the same, row by row, the first k rows
pub open spec fn trirow(f: F2, k: int, n: int) -> int decreases k { if k <= 0 { 0 } else { trirow(f, k - 1, n) + rowsum(f, k - 1, n) } }
pub proof fn lemma_trirow_step(f: F2, k: int, n: int) requires 0 <= k <= n ensures trirow(f, k, n + 1) == trirow(f, k, n) + colsum(f, n, k) decreases k { if k > 0 { lemma_trirow_step(f, k - 1, n); } }
pub proof fn lemma_trirow(f: F2, n: int) requires 0 <= n ensures trirow(f, n, n) == tri(f, n) decreases n
{ if n > 0 { lemma_trirow(f, n - 1); lemma_trirow_step(f, n - 1, n - 1); assert(rowsum(f, n - 1, n) == 0); } }
pub proof fn lemma_col_ext(f: F2, g: F2, jf: int, jg: int, k: int) requires forall|i: int| 0 <= i < k ==> #[trigger] f(i, jf) == g(i, jg) ensures colsum(f, jf, k) == colsum(g, jg, k) decreases k { if k > 0 { lemma_col_ext(f, g, jf, jg, k - 1); assert(f(k - 1, jf) == g(k - 1, jg)); } }
pub proof fn lemma_tri_ext(f: F2, g: F2, n: int) requires forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] f(i, j) == g(i, j) ensures tri(f, n) == tri(g, n) decreases n { if n > 0 { lemma_tri_ext(f, g, n - 1); lemma_col_ext(f, g, n - 1, n - 1, n - 1); } }
pub open spec fn sw(p: int, i: int) -> int { if i == p { p + 1 } else if i == p + 1 { p } else { i } }
// a column does not notice that two of its rows are exchanged
pub proof fn lemma_col_swap(f: F2, g: F2, p: int, j: int, k: int)
    requires 0 <= p, p + 1 < k, forall|i: int| 0 <= i < k ==> #[trigger] g(i, j) == f(sw(p, i), j),
    ensures colsum(g, j, k) == colsum(f, j, k)
    decreases k
{
    if k == p + 2 {
        lemma_col_ext(g, f, j, j, p);
        assert(colsum(g, j, p + 2) == colsum(g, j, p) + g(p, j) + g(p + 1, j)) by { reveal_with_fuel(colsum, 3); }
        assert(colsum(f, j, p + 2) == colsum(f, j, p) + f(p, j) + f(p + 1, j)) by { reveal_with_fuel(colsum, 3); }
        assert(g(p, j) == f(p + 1, j)); assert(g(p + 1, j) == f(p, j));
    } else { lemma_col_swap(f, g, p, j, k - 1); assert(g(k - 1, j) == f(k - 1, j)); }
}
// exchanging two neighbours changes only their own pair
pub proof fn lemma_tri_swap(f: F2, g: F2, p: int, n: int)
    requires 0 <= p, p + 1 < n, forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] g(i, j) == f(sw(p, i), sw(p, j)),
    ensures tri(g, n) == tri(f, n) - f(p, p + 1) + f(p + 1, p)
    decreases n
{
    if n == p + 2 {
        lemma_tri_ext(g, f, p);
        assert(tri(g, p + 2) == tri(g, p) + colsum(g, p, p) + colsum(g, p + 1, p) + g(p, p + 1)) by { reveal_with_fuel(tri, 3); reveal_with_fuel(colsum, 2); }
        assert(tri(f, p + 2) == tri(f, p) + colsum(f, p, p) + colsum(f, p + 1, p) + f(p, p + 1)) by { reveal_with_fuel(tri, 3); reveal_with_fuel(colsum, 2); }
        assert forall|i: int| 0 <= i < p implies #[trigger] g(i, p) == f(i, p + 1) by { }
        assert forall|i: int| 0 <= i < p implies #[trigger] g(i, p + 1) == f(i, p) by { }
        lemma_col_ext(g, f, p, p + 1, p); lemma_col_ext(g, f, p + 1, p, p);
        assert(g(p, p + 1) == f(p + 1, p));
    } else {
        lemma_tri_swap(f, g, p, n - 1);
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] g(i, n - 1) == f(sw(p, i), n - 1) by { }
        lemma_col_swap(f, g, p, n - 1, n - 1);
    }
}
pub proof fn lemma_col_lin(f: F2, g: F2, h1: F2, h2: F2, j: int, k: int) requires forall|i: int| 0 <= i < k ==> #[trigger] g(i, j) == f(i, j) - h1(i, j) + h2(i, j) ensures colsum(g, j, k) == colsum(f, j, k) - colsum(h1, j, k) + colsum(h2, j, k) decreases k
{ if k > 0 { lemma_col_lin(f, g, h1, h2, j, k - 1); assert(g(k - 1, j) == f(k - 1, j) - h1(k - 1, j) + h2(k - 1, j)); } }
pub proof fn lemma_tri_lin(f: F2, g: F2, h1: F2, h2: F2, n: int) requires forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] g(i, j) == f(i, j) - h1(i, j) + h2(i, j) ensures tri(g, n) == tri(f, n) - tri(h1, n) + tri(h2, n) decreases n
{ if n > 0 { lemma_tri_lin(f, g, h1, h2, n - 1); lemma_col_lin(f, g, h1, h2, n - 1, n - 1); } }
pub proof fn lemma_col_bound(f: F2, j: int, k: int, b: int) requires 0 <= k, b >= 0, forall|i: int| 0 <= i < k ==> 0 <= #[trigger] f(i, j) <= b ensures 0 <= colsum(f, j, k) <= b * k decreases k
{ if k > 0 { lemma_col_bound(f, j, k - 1, b); assert(0 <= f(k - 1, j) <= b); assert(b * (k - 1) + b == b * k) by(nonlinear_arith); } else { assert(b * k == 0) by(nonlinear_arith) requires k == 0; } }
pub proof fn lemma_tri_bound(f: F2, n: int, b: int) requires 0 <= n, b >= 0, forall|i: int, j: int| 0 <= i < j < n ==> 0 <= #[trigger] f(i, j) <= b ensures 0 <= tri(f, n) <= b * n * n decreases n
{
    if n > 0 { lemma_tri_bound(f, n - 1, b); lemma_col_bound(f, n - 1, n - 1, b); assert(b * (n - 1) * (n - 1) + b * (n - 1) <= b * n * n) by(nonlinear_arith) requires n > 0, b >= 0; }
    else { assert(b * n * n == 0) by(nonlinear_arith) requires n == 0; }
}
// ---- crossings ----
pub open spec fn linked(d: DAG, a: NodeHandle, x: NodeHandle) -> bool { d.succ(a.idx as int).contains(x) || d.pred(a.idx as int).contains(x) }
pub open spec fn lk(d: DAG, a: NodeHandle, x: NodeHandle) -> int { if linked(d, a, x) { 1 } else { 0 } }
// the pairs x before y of the row with an edge from b to x and one from a to y: with a to the left of b these two edges cross
pub open spec fn crf(d: DAG, a: NodeHandle, b: NodeHandle, row: Seq<NodeHandle>) -> F2 { |x: int, y: int| lk(d, b, row[x]) * lk(d, a, row[y]) }
pub open spec fn cr(d: DAG, a: NodeHandle, b: NodeHandle, row: Seq<NodeHandle>) -> int { tri(crf(d, a, b, row), row.len() as int) }
pub open spec fn numb(d: DAG, b: NodeHandle, row: Seq<NodeHandle>, k: int) -> int decreases k { if k <= 0 { 0 } else { numb(d, b, row, k - 1) + lk(d, b, row[k - 1]) } }
pub open spec fn pairf(d: DAG, s: Seq<NodeHandle>, t: Seq<NodeHandle>) -> F2 { |i: int, j: int| cr(d, s[i], s[j], t) }
// the number of crossings between two rows
pub open spec fn cross(d: DAG, s: Seq<NodeHandle>, t: Seq<NodeHandle>) -> int { tri(pairf(d, s, t), s.len() as int) }
// weighted sum over the first k pairs of rows
pub open spec fn wsum(d: DAG, r: Rk, w: spec_fn(int) -> int, k: int) -> int decreases k { if k <= 0 { 0 } else { wsum(d, r, w, k - 1) + w(k - 1) * cross(d, r[k - 1], r[k]) } }
pub open spec fn one() -> spec_fn(int) -> int { |i: int| 1 }
pub open spec fn crossings(d: DAG, r: Rk) -> int { wsum(d, r, one(), r.len() - 1) }
pub proof fn lemma_numb(d: DAG, a: NodeHandle, b: NodeHandle, row: Seq<NodeHandle>, y: int, k: int) requires 0 <= k ensures colsum(crf(d, a, b, row), y, k) == numb(d, b, row, k) * lk(d, a, row[y]), 0 <= numb(d, b, row, k) <= k decreases k
{ if k > 0 { lemma_numb(d, a, b, row, y, k - 1); assert((numb(d, b, row, k - 1) + lk(d, b, row[k - 1])) * lk(d, a, row[y]) == numb(d, b, row, k - 1) * lk(d, a, row[y]) + lk(d, b, row[k - 1]) * lk(d, a, row[y])) by(nonlinear_arith); } }
pub proof fn lemma_cr_bound(d: DAG, a: NodeHandle, b: NodeHandle, row: Seq<NodeHandle>, k: int) requires 0 <= k ensures 0 <= tri(crf(d, a, b, row), k) <= k * k
{
    let f = crf(d, a, b, row);
    assert forall|i: int, j: int| 0 <= i < j < k implies 0 <= #[trigger] f(i, j) <= 1 by { assert(lk(d, b, row[i]) * lk(d, a, row[j]) <= 1 && lk(d, b, row[i]) * lk(d, a, row[j]) >= 0) by(nonlinear_arith) requires 0 <= lk(d, b, row[i]) <= 1, 0 <= lk(d, a, row[j]) <= 1; }
    lemma_tri_bound(f, k, 1); assert(1 * k * k == k * k) by(nonlinear_arith);
}
pub proof fn lemma_cross_bound(d: DAG, s: Seq<NodeHandle>, t: Seq<NodeHandle>) ensures 0 <= cross(d, s, t) <= t.len() * t.len() * s.len() * s.len()
{
    let f = pairf(d, s, t); let b = (t.len() * t.len()) as int;
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies 0 <= #[trigger] f(i, j) <= b by { lemma_cr_bound(d, s[i], s[j], t, t.len() as int); }
    assert(b >= 0);
    lemma_tri_bound(f, s.len() as int, b);
}
// links are symmetric
pub proof fn lemma_lk_sym(d: DAG, a: NodeHandle, b: NodeHandle) requires d.mirror(), a.idx < d.n(), b.idx < d.n() ensures lk(d, a, b) == lk(d, b, a)
{ lemma_lk_half(d, a, b); lemma_lk_half(d, b, a); }
pub proof fn lemma_lk_half(d: DAG, a: NodeHandle, b: NodeHandle) requires d.mirror(), a.idx < d.n(), b.idx < d.n() ensures linked(d, a, b) ==> linked(d, b, a)
{
    assert(hd(a.idx as int) == a && hd(b.idx as int) == b);
    assert(cnt(d.succ(a.idx as int), hd(b.idx as int)) == cnt(d.pred(b.idx as int), hd(a.idx as int)));
    assert(cnt(d.succ(b.idx as int), hd(a.idx as int)) == cnt(d.pred(a.idx as int), hd(b.idx as int)));
    lemma_cnt_is(d.succ(a.idx as int), b); lemma_cnt_is(d.pred(b.idx as int), a); lemma_cnt_is(d.succ(b.idx as int), a); lemma_cnt_is(d.pred(a.idx as int), b);
}
// exchanging neighbours p and p+1 of the first row
#[verifier::spinoff_prover]
pub proof fn lemma_cross_first(d: DAG, s: Seq<NodeHandle>, t: Seq<NodeHandle>, p: int)
    requires 0 <= p, p + 1 < s.len(),
    ensures cross(d, swapped(s, p, p + 1), t) == cross(d, s, t) - cr(d, s[p], s[p + 1], t) + cr(d, s[p + 1], s[p], t)
{
    let q = swapped(s, p, p + 1); let f = pairf(d, s, t); let g = pairf(d, q, t);
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies #[trigger] g(i, j) == f(sw(p, i), sw(p, j)) by { }
    lemma_tri_swap(f, g, p, s.len() as int);
}
// ... and of the second row
#[verifier::spinoff_prover]
pub proof fn lemma_cross_second(d: DAG, s: Seq<NodeHandle>, t: Seq<NodeHandle>, p: int)
    requires 0 <= p, p + 1 < t.len(), d.mirror(), in_range(s, d.n()), in_range(t, d.n()),
    ensures cross(d, s, swapped(t, p, p + 1)) == cross(d, s, t) - cr(d, t[p], t[p + 1], s) + cr(d, t[p + 1], t[p], s)
{
    let q = swapped(t, p, p + 1); let f = pairf(d, s, t); let g = pairf(d, s, q); let u = t[p]; let v = t[p + 1];
    let h1 = crf(d, u, v, s); let h2 = crf(d, v, u, s);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] g(i, j) == f(i, j) - h1(i, j) + h2(i, j) by {
        let a = s[i]; let b = s[j]; let x = crf(d, a, b, t); let y = crf(d, a, b, q);
        assert forall|k: int, l: int| 0 <= k < t.len() && 0 <= l < t.len() implies #[trigger] y(k, l) == x(sw(p, k), sw(p, l)) by { }
        lemma_tri_swap(x, y, p, t.len() as int);
        assert(a.idx < d.n() && b.idx < d.n() && u.idx < d.n() && v.idx < d.n());
        lemma_lk_sym(d, a, u); lemma_lk_sym(d, a, v); lemma_lk_sym(d, b, u); lemma_lk_sym(d, b, v);
        assert(x(p, p + 1) == lk(d, b, u) * lk(d, a, v)); assert(x(p + 1, p) == lk(d, b, v) * lk(d, a, u));
        assert(h1(i, j) == lk(d, v, a) * lk(d, u, b)); assert(h2(i, j) == lk(d, u, a) * lk(d, v, b));
        assert(lk(d, v, a) * lk(d, u, b) == lk(d, b, u) * lk(d, a, v)) by(nonlinear_arith) requires lk(d, v, a) == lk(d, a, v), lk(d, u, b) == lk(d, b, u);
        assert(lk(d, u, a) * lk(d, v, b) == lk(d, b, v) * lk(d, a, u)) by(nonlinear_arith) requires lk(d, u, a) == lk(d, a, u), lk(d, v, b) == lk(d, b, v);
    }
    lemma_tri_lin(f, g, h1, h2, s.len() as int);
}
@end
@fn EdgeCrossOptimizer::new
ret r
ensures *r.dag == *old(dag), *final(r.dag) == *final(dag),
@fn EdgeCrossOptimizer::num_crossing
ret r
requires a.idx < self.dag.n(), b.idx < self.dag.n(), row@.len() <= lim(),
ensures r == cr(*old(self.dag), a, b, row@), r <= row@.len() * row@.len(),
@loop 1
invariant vx_s1 == row, row@.len() <= lim(), a_edges1@ == self.dag.succ(a.idx as int), a_edges2@ == self.dag.pred(a.idx as int), b_edges1@ == self.dag.succ(b.idx as int), b_edges2@ == self.dag.pred(b.idx as int),
    num_b == numb(*self.dag, b, row@, vx_i1 as int), sum == tri(crf(*self.dag, a, b, row@), vx_i1 as int), sum <= vx_i1 * vx_i1, num_b <= vx_i1,
@loopstart 1
let ghost s0 = sum as int; let ghost nb0 = num_b as int;
proof {
    let k = vx_i1 - 1; lemma_numb(*self.dag, a, b, row@, k, k); lemma_cr_bound(*self.dag, a, b, row@, k + 1); lemma_cr_bound(*self.dag, a, b, row@, k);
    assert(tri(crf(*self.dag, a, b, row@), k + 1) == tri(crf(*self.dag, a, b, row@), k) + colsum(crf(*self.dag, a, b, row@), k, k));
    lemma_numb(*self.dag, a, b, row@, k, k + 1);
    assert((k + 1) * (k + 1) <= 0x8000_0000 * 0x8000_0000) by(nonlinear_arith) requires 0 <= k < 0x8000_0000;
    assert(k * k <= 0x8000_0000 * 0x8000_0000) by(nonlinear_arith) requires 0 <= k < 0x8000_0000;
}
@loopend 1
proof {
    let la = lk(*self.dag, a, *node); let lb = lk(*self.dag, b, *node);
    assert((is_a1 || is_a2) == (la == 1)); assert((is_b1 || is_b2) == (lb == 1));
    assert(nb0 * la == (if la == 1 { nb0 } else { 0 })) by(nonlinear_arith) requires la == 0 || la == 1;
}
@code
// ---- the same nodes on every rank ----
pub open spec fn same_rows(r: Rk, q: Rk) -> bool { r.len() == q.len() && forall|l: int| 0 <= l < r.len() ==> (#[trigger] r[l]).to_multiset() == q[l].to_multiset() }
pub proof fn lemma_swapped<T>(s: Seq<T>, a: int, b: int) requires 0 <= a < s.len(), 0 <= b < s.len() ensures swapped(s, a, b).to_multiset() == s.to_multiset(), swapped(s, a, b).len() == s.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let x = s.update(a, s[b]); let y = x.update(b, s[a]);
    vstd::seq_lib::to_multiset_update(s, a, s[b]); vstd::seq_lib::to_multiset_update(x, b, s[a]);
    assert(y.to_multiset() =~= s.to_multiset()) by { assert(s.contains(s[a]) && s.contains(s[b])); assert(x.contains(x[b])); assert(s.to_multiset().count(s[a]) > 0); }
}
pub proof fn lemma_rotated<T>(s: Seq<T>, k: int) requires 0 <= k <= s.len() ensures rotated(s, k).to_multiset() == s.to_multiset(), rotated(s, k).len() == s.len()
{
    let a = s.subrange(0, k); let b = s.subrange(k, s.len() as int);
    vstd::seq_lib::lemma_multiset_commutative(a, b); vstd::seq_lib::lemma_multiset_commutative(b, a);
    assert(a + b =~= s); assert((a + b).to_multiset() =~= (b + a).to_multiset());
}
pub proof fn lemma_same_len(s: Seq<NodeHandle>, t: Seq<NodeHandle>) requires s.to_multiset() == t.to_multiset() ensures s.len() == t.len(), forall|h: NodeHandle| s.contains(h) == t.contains(h), in_range(s, usize::MAX as int) == in_range(s, usize::MAX as int)
{ s.to_multiset_ensures(); t.to_multiset_ensures(); assert forall|h: NodeHandle| s.contains(h) == t.contains(h) by { lemma_cnt_is(s, h); lemma_cnt_is(t, h); } }
pub proof fn lemma_no_dup(s: Seq<NodeHandle>, h: NodeHandle, i: int, j: int) requires 0 <= i < j < s.len(), s[i] == h, s[j] == h ensures cnt(s, h) >= 2
{
    let a = s.subrange(0, j); let b = s.subrange(j, s.len() as int); assert(s =~= a + b);
    vstd::seq_lib::lemma_multiset_commutative(a, b);
    assert(a[i] == h); assert(b[0] == h); lemma_cnt_is(a, h); lemma_cnt_is(b, h);
}
pub proof fn lemma_cnt_one(s: Seq<NodeHandle>, h: NodeHandle) requires forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && s[i] == h && s[j] == h ==> i == j ensures cnt(s, h) <= 1
{
    lemma_cnt_is(s, h);
    if cnt(s, h) > 0 {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == h;
        let q = s.remove(i); s.to_multiset_ensures(); assert(q.to_multiset() =~= s.to_multiset().remove(s[i]));
        lemma_cnt_is(q, h);
        if q.contains(h) { let j = choose|j: int| 0 <= j < q.len() && q[j] == h; if j < i { assert(s[j] == h); } else { assert(s[j + 1] == h); } }
    }
}
#[verifier::spinoff_prover]
pub proof fn lemma_same_wf(r: Rk, q: Rk, n: int) requires ranks_wf(r, n), same_rows(r, q) ensures ranks_wf(q, n), forall|h: NodeHandle| h.idx < n ==> #[trigger] rank_of(q, h) == rank_of(r, h), forall|l: int| 0 <= l < r.len() ==> (#[trigger] r[l]).len() == q[l].len()
{
    assert forall|l: int| 0 <= l < r.len() implies (#[trigger] r[l]).len() == q[l].len() by { lemma_same_len(r[l], q[l]); }
    assert(ranks_wf(q, n)) by {
        reveal(ranks_wf);
        assert forall|l: int, i: int| is_pos(q, l, i) implies (#[trigger] at(q, l, i)).idx < n by {
            lemma_same_len(r[l], q[l]); assert(q[l].contains(at(q, l, i))); let k = choose|k: int| 0 <= k < r[l].len() && r[l][k] == at(q, l, i); assert(is_pos(r, l, k)); assert(at(r, l, k).idx < n);
        }
        assert forall|l: int, i: int, m: int, j: int| #![trigger at(q, l, i), at(q, m, j)] is_pos(q, l, i) && is_pos(q, m, j) && at(q, l, i) == at(q, m, j) implies l == m && i == j by {
            let h = at(q, l, i);
            lemma_same_len(r[l], q[l]); lemma_same_len(r[m], q[m]); assert(q[l].contains(h)); assert(q[m].contains(h));
            let k1 = choose|k: int| 0 <= k < r[l].len() && r[l][k] == h; let k2 = choose|k: int| 0 <= k < r[m].len() && r[m][k] == h;
            assert(is_pos(r, l, k1) && is_pos(r, m, k2)); assert(at(r, l, k1) == at(r, m, k2)); assert(l == m);
            assert forall|x: int, y: int| 0 <= x < r[l].len() && 0 <= y < r[l].len() && r[l][x] == h && r[l][y] == h implies x == y by { assert(is_pos(r, l, x) && is_pos(r, l, y)); assert(at(r, l, x) == at(r, l, y)); }
            lemma_cnt_one(r[l], h);
            if i < j { lemma_no_dup(q[l], h, i, j); } else if j < i { lemma_no_dup(q[l], h, j, i); }
        }
        assert forall|h: NodeHandle| h.idx < n implies #[trigger] on_rank(q, h) by {
            assert(on_rank(r, h)); let (l, i) = choose|l: int, i: int| is_pos(r, l, i) && at(r, l, i) == h;
            lemma_same_len(r[l], q[l]); assert(r[l].contains(h)); let k = choose|k: int| 0 <= k < q[l].len() && q[l][k] == h; assert(is_pos(q, l, k)); assert(at(q, l, k) == h);
        }
    }
    assert forall|h: NodeHandle| h.idx < n implies #[trigger] rank_of(q, h) == rank_of(r, h) by { lemma_on_rank(r, n, h); let l = rank_of(r, h); lemma_same_len(r[l], q[l]); assert(q[l].contains(h)); lemma_rank_of(q, n, h, l); }
}
pub proof fn lemma_same_update(r: Rk, q: Rk, l: int, s: Seq<NodeHandle>) requires same_rows(r, q), 0 <= l < q.len(), s.to_multiset() == q[l].to_multiset() ensures same_rows(r, q.update(l, s))
{ let z = q.update(l, s); assert forall|m: int| 0 <= m < r.len() implies (#[trigger] r[m]).to_multiset() == z[m].to_multiset() by { assert(r[m].to_multiset() == q[m].to_multiset()); } }
// what all the passes over the rows keep
pub open spec fn lim() -> int { 0x8000_0000 } // 2^31: every count below stays under 2^62
pub open spec fn crossable(d: DAG) -> bool { d.wf() && no_gap(d.rk()) && d.n() <= lim() && wts(d, d.n()) <= lim() && d.rk().len() <= d.n() && rows_short(d.rk(), d.n()) }
pub open spec fn no_gap(r: Rk) -> bool { forall|l: int| 0 <= l < r.len() ==> (#[trigger] r[l]).len() > 0 }
pub open spec fn rows_short(r: Rk, n: int) -> bool { forall|l: int| 0 <= l < r.len() ==> (#[trigger] r[l]).len() <= n }
pub open spec fn permuted(o: DAG, d: DAG) -> bool { d.nodes == o.nodes && d.validate == o.validate && same_rows(o.rk(), d.rk()) }
pub proof fn lemma_permuted(o: DAG, d: DAG) requires crossable(o), permuted(o, d) ensures crossable(d), forall|h: NodeHandle| h.idx < o.n() ==> #[trigger] rank_of(d.rk(), h) == rank_of(o.rk(), h)
{
    lemma_same_wf(o.rk(), d.rk(), o.n());
    assert forall|l: int| 0 <= l < d.rk().len() implies (#[trigger] d.rk()[l]).len() > 0 && d.rk()[l].len() <= d.n() by { assert(o.rk()[l].len() == d.rk()[l].len()); }
    lemma_same_dag(o, d); lemma_wts_same(o, d, o.n());
}
pub proof fn lemma_same_dag(o: DAG, d: DAG) requires o.wf(), d.nodes == o.nodes, ranks_wf(d.rk(), o.n()) ensures d.wf() { assert(d.same_edges(&o)); lemma_same_edges(o, d); }
@end
@fn EdgeCrossOptimizer::perturb_rank
requires crossable(*old(self).dag),
ensures permuted(*old(self).dag, *final(self).dag), *final(final(self).dag) == *final(old(self).dag), crossable(*final(self).dag),
@loop 1
invariant permuted(*old(self).dag, *self.dag), crossable(*old(self).dag), *final(self.dag) == *final(old(self).dag), vx_e1 == self.dag.rk().len(),
@loopstart 1
proof { lemma_permuted(*old(self).dag, *self.dag); }
let ghost d0 = *self.dag;
@loop 2
invariant row@.to_multiset() == d0.rk()[i as int].to_multiset(), row@.len() == len, vx_e2 == len, len <= lim(),
@loopstart 2
proof { lemma_swapped(row@, ((j * 17) % len as int) as int, j as int); }
@loopend 1
proof { lemma_same_update(old(self).dag.rk(), d0.rk(), i as int, self.dag.rk()[i as int]); }
@end_fn
proof { lemma_permuted(*old(self).dag, *self.dag); }
@fn EdgeCrossOptimizer::rotate_rank
requires crossable(*old(self).dag),
ensures permuted(*old(self).dag, *final(self).dag), *final(final(self).dag) == *final(old(self).dag), crossable(*final(self).dag),
@loop 1
invariant permuted(*old(self).dag, *self.dag), crossable(*old(self).dag), *final(self.dag) == *final(old(self).dag), vx_e1 == self.dag.rk().len(),
@loopstart 1
proof { lemma_permuted(*old(self).dag, *self.dag); assert(self.dag.rk()[vx_i1 - 1].len() > 0); lemma_rotated(self.dag.rk()[vx_i1 - 1], 1); }
let ghost d0 = *self.dag;
@loopend 1
proof { lemma_same_update(old(self).dag.rk(), d0.rk(), i as int, self.dag.rk()[i as int]); }
@end_fn
proof { lemma_permuted(*old(self).dag, *self.dag); }
@code
pub proof fn lemma_row_nonneg(f: F2, i: int, j: int, n: int) requires i + 1 <= j <= n, forall|k: int, l: int| 0 <= k < l < n ==> 0 <= #[trigger] f(k, l), 0 <= i ensures 0 <= rowsum(f, i, j) <= rowsum(f, i, n) decreases n - j, j
{ if j < n { lemma_row_nonneg(f, i, j + 1, n); assert(f(i, j) >= 0); } lemma_row_pos(f, i, j, n); }
pub proof fn lemma_row_pos(f: F2, i: int, j: int, n: int) requires 0 <= i < j <= n, forall|k: int, l: int| 0 <= k < l < n ==> 0 <= #[trigger] f(k, l) ensures 0 <= rowsum(f, i, j) decreases j { if j > i + 1 { lemma_row_pos(f, i, j - 1, n); assert(f(i, j - 1) >= 0); } }
pub proof fn lemma_part(f: F2, i: int, n: int) requires 0 <= i <= n, forall|k: int, l: int| 0 <= k < l < n ==> 0 <= #[trigger] f(k, l) ensures 0 <= trirow(f, i, n) <= tri(f, n) decreases n - i
{ if i < n { lemma_part(f, i + 1, n); lemma_row_pos(f, i, n, n); } else { lemma_trirow(f, n); } lemma_part0(f, i, n); }
pub proof fn lemma_part0(f: F2, i: int, n: int) requires 0 <= i <= n, forall|k: int, l: int| 0 <= k < l < n ==> 0 <= #[trigger] f(k, l) ensures 0 <= trirow(f, i, n) decreases i { if i > 0 { lemma_part0(f, i - 1, n); lemma_row_pos(f, i - 1, n, n); } }
pub proof fn lemma_pairf_pos(d: DAG, s: Seq<NodeHandle>, t: Seq<NodeHandle>) ensures forall|i: int, j: int| 0 <= i < j < s.len() ==> 0 <= #[trigger] pairf(d, s, t)(i, j)
{ assert forall|i: int, j: int| 0 <= i < j < s.len() implies 0 <= #[trigger] pairf(d, s, t)(i, j) by { lemma_cr_bound(d, s[i], s[j], t, t.len() as int); } }
// sizes
pub proof fn lemma_sizes(d: DAG) requires d.wf(), no_gap(d.rk()), d.n() <= lim(), wts(d, d.n()) <= lim() ensures crossable(d), rsum(d.rk()) == d.n()
{
    lemma_count(d.rk(), d.n()); lemma_sum_len(d.rk());
    assert forall|l: int| 0 <= l < d.rk().len() implies (#[trigger] d.rk()[l]).len() <= d.n() by { lemma_sum_row(d.rk(), l); }
}
pub proof fn lemma_sum_len(r: Rk) requires no_gap(r) ensures rsum(r) >= r.len() decreases r.len()
{ if r.len() > 0 { let q = r.drop_last(); assert forall|l: int| 0 <= l < q.len() implies (#[trigger] q[l]).len() > 0 by { assert(q[l] == r[l]); } lemma_sum_len(q); assert(r[r.len() - 1].len() > 0); } }
pub proof fn lemma_sum_row(r: Rk, l: int) requires 0 <= l < r.len() ensures r[l].len() <= rsum(r) decreases r.len()
{ if l < r.len() - 1 { assert(r.drop_last()[l] == r[l]); lemma_sum_row(r.drop_last(), l); } }
// the number of links of a node, of the first k nodes, of a row, of all rows
pub open spec fn wt(d: DAG, h: NodeHandle) -> int { (d.succ(h.idx as int).len() + d.pred(h.idx as int).len()) as int }
pub open spec fn wts(d: DAG, k: int) -> int decreases k { if k <= 0 { 0 } else { wts(d, k - 1) + wt(d, hd(k - 1)) } }
pub open spec fn wrow(d: DAG, s: Seq<NodeHandle>, k: int) -> int decreases k { if k <= 0 { 0 } else { wrow(d, s, k - 1) + wt(d, s[k - 1]) } }
pub open spec fn wrows(d: DAG, r: Rk, k: int) -> int decreases k { if k <= 0 { 0 } else { wrows(d, r, k - 1) + wrow(d, r[k - 1], r[k - 1].len() as int) } }
pub proof fn lemma_wrow_ext(d: DAG, s: Seq<NodeHandle>, t: Seq<NodeHandle>, k: int) requires 0 <= k <= s.len(), k <= t.len(), forall|i: int| 0 <= i < k ==> s[i] == t[i] ensures wrow(d, s, k) == wrow(d, t, k) decreases k { if k > 0 { lemma_wrow_ext(d, s, t, k - 1); } }
pub proof fn lemma_wrow_remove(d: DAG, s: Seq<NodeHandle>, i: int, k: int) requires 0 <= i < k <= s.len() ensures wrow(d, s.remove(i), k - 1) == wrow(d, s, k) - wt(d, s[i]) decreases k
{ if k == i + 1 { lemma_wrow_ext(d, s, s.remove(i), i); } else { lemma_wrow_remove(d, s, i, k - 1); assert(s.remove(i)[k - 2] == s[k - 1]); } }
pub proof fn lemma_wrow_pos(d: DAG, s: Seq<NodeHandle>, k: int) ensures wrow(d, s, k) >= 0 decreases k { if k > 0 { lemma_wrow_pos(d, s, k - 1); } }
pub proof fn lemma_wrows_pos(d: DAG, r: Rk, k: int) ensures wrows(d, r, k) >= 0 decreases k { if k > 0 { lemma_wrows_pos(d, r, k - 1); lemma_wrow_pos(d, r[k - 1], r[k - 1].len() as int); } }
pub proof fn lemma_wrows_mono(d: DAG, r: Rk, k: int, m: int) requires k <= m ensures wrows(d, r, k) <= wrows(d, r, m) decreases m - k { if k < m { lemma_wrows_mono(d, r, k, m - 1); if m > 0 { lemma_wrow_pos(d, r[m - 1], r[m - 1].len() as int); } } }
pub proof fn lemma_wrows_update(d: DAG, r: Rk, l: int, s: Seq<NodeHandle>, k: int) requires 0 <= l < r.len(), k <= r.len() ensures wrows(d, r.update(l, s), k) == wrows(d, r, k) + (if l < k { wrow(d, s, s.len() as int) - wrow(d, r[l], r[l].len() as int) } else { 0 }) decreases k
{ if k > 0 { lemma_wrows_update(d, r, l, s, k - 1); } }
pub proof fn lemma_wrows_zero(d: DAG, r: Rk, k: int) requires k <= r.len(), forall|l: int| 0 <= l < r.len() ==> (#[trigger] r[l]).len() == 0 ensures wrows(d, r, k) == 0 decreases k { if k > 0 { lemma_wrows_zero(d, r, k - 1); assert(r[k - 1].len() == 0); } }
// every node is on one row, so the rows have all the links
pub proof fn lemma_wrows(d: DAG, r: Rk, n: int) requires ranks_wf(r, n), 0 <= n <= usize::MAX ensures wrows(d, r, r.len() as int) == wts(d, n) decreases n
{
    if n == 0 { reveal(ranks_wf); assert forall|l: int| 0 <= l < r.len() implies (#[trigger] r[l]).len() == 0 by { if r[l].len() > 0 { assert(is_pos(r, l, 0)); assert(at(r, l, 0).idx < 0); } } lemma_wrows_zero(d, r, r.len() as int); }
    else {
        let h = hd(n - 1); let q = spec_take_out(r, h); let c = rank_of(r, h);
        lemma_on_rank(r, n, h); lemma_take_out(r, n, h); lemma_first_exists(r[c], h);
        lemma_wrow_remove(d, r[c], first(r[c], h), r[c].len() as int);
        lemma_wrows_update(d, r, c, rm1(r[c], h), r.len() as int);
        assert(ranks_wf(q, n - 1)) by {
            reveal(ranks_wf);
            assert forall|l: int, i: int| is_pos(q, l, i) implies (#[trigger] at(q, l, i)).idx < n - 1 by { assert(at(q, l, i).idx < n); if at(q, l, i) == h { assert(on_rank(q, h)); } }
        }
        lemma_wrows(d, q, n - 1);
    }
}
// a row without repetitions has at most as many elements linked with b as b has links
pub open spec fn distinct(t: Seq<NodeHandle>) -> bool { forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && t[i] == t[j] ==> i == j }
pub proof fn lemma_numb_le(d: DAG, b: NodeHandle, t: Seq<NodeHandle>, s: Seq<NodeHandle>, p: Seq<NodeHandle>, k: int)
    requires distinct(t), 0 <= k <= t.len(), forall|i: int| 0 <= i < k && linked(d, b, #[trigger] t[i]) ==> s.contains(t[i]) || p.contains(t[i]),
    ensures numb(d, b, t, k) <= s.len() + p.len()
    decreases k
{
    if k > 0 {
        let x = t[k - 1];
        if linked(d, b, x) {
            let s2 = rm1(s, x); let p2 = rm1(p, x);
            if s.contains(x) { lemma_first_exists(s, x); } if p.contains(x) { lemma_first_exists(p, x); }
            assert forall|i: int| 0 <= i < k - 1 && linked(d, b, #[trigger] t[i]) implies s2.contains(t[i]) || p2.contains(t[i]) by {
                assert(t[i] != x); lemma_rm1_keeps(s, x, t[i]); lemma_rm1_keeps(p, x, t[i]);
            }
            lemma_numb_le(d, b, t, s2, p2, k - 1);
        } else { lemma_numb_le(d, b, t, s, p, k - 1); }
    }
}
pub proof fn lemma_rm1_keeps(s: Seq<NodeHandle>, x: NodeHandle, y: NodeHandle) requires x != y ensures s.contains(y) ==> rm1(s, x).contains(y)
{ if s.contains(x) && s.contains(y) { lemma_first_exists(s, x); let f = first(s, x); let i = choose|i: int| 0 <= i < s.len() && s[i] == y; if i < f { assert(s.remove(f)[i] == y); } else { assert(i != f); assert(s.remove(f)[i - 1] == y); } } }
pub proof fn lemma_row_distinct(d: DAG, l: int) requires d.wf(), 0 <= l < d.rk().len() ensures distinct(d.rk()[l])
{ reveal(ranks_wf); let r = d.rk(); assert forall|i: int, j: int| 0 <= i < r[l].len() && 0 <= j < r[l].len() && r[l][i] == r[l][j] implies i == j by { assert(is_pos(r, l, i) && is_pos(r, l, j)); assert(at(r, l, i) == at(r, l, j)); } }
pub proof fn lemma_numb_mono(d: DAG, b: NodeHandle, t: Seq<NodeHandle>, k: int, m: int) requires k <= m ensures numb(d, b, t, k) <= numb(d, b, t, m) decreases m - k { if k < m { lemma_numb_mono(d, b, t, k, m - 1); } }
pub proof fn lemma_cr_le(d: DAG, a: NodeHandle, b: NodeHandle, t: Seq<NodeHandle>, k: int) requires 0 <= k <= t.len() ensures 0 <= tri(crf(d, a, b, t), k) <= numb(d, b, t, k) * numb(d, a, t, k), 0 <= numb(d, a, t, k), 0 <= numb(d, b, t, k) decreases k
{
    if k > 0 {
        lemma_cr_le(d, a, b, t, k - 1); lemma_numb(d, a, b, t, k - 1, k - 1);
        let nb = numb(d, b, t, k - 1); let na = numb(d, a, t, k - 1); let la = lk(d, a, t[k - 1]); let lb = lk(d, b, t[k - 1]);
        assert(nb * na + nb * la <= (nb + lb) * (na + la)) by(nonlinear_arith) requires 0 <= nb, 0 <= na, 0 <= la, 0 <= lb;
        assert(nb * la >= 0) by(nonlinear_arith) requires 0 <= nb, 0 <= la;
    } else { assert(numb(d, b, t, k) * numb(d, a, t, k) == 0) by(nonlinear_arith) requires numb(d, b, t, k) == 0; }
}
pub proof fn lemma_cr_wt(d: DAG, a: NodeHandle, b: NodeHandle, t: Seq<NodeHandle>) requires distinct(t) ensures 0 <= cr(d, a, b, t) <= wt(d, a) * wt(d, b)
{
    let k = t.len() as int; lemma_cr_le(d, a, b, t, k);
    lemma_numb_le(d, a, t, d.succ(a.idx as int), d.pred(a.idx as int), k); lemma_numb_le(d, b, t, d.succ(b.idx as int), d.pred(b.idx as int), k);
    assert(numb(d, b, t, k) * numb(d, a, t, k) <= wt(d, a) * wt(d, b)) by(nonlinear_arith) requires 0 <= numb(d, a, t, k) <= wt(d, a), 0 <= numb(d, b, t, k) <= wt(d, b);
}
pub proof fn lemma_col_wt(d: DAG, s: Seq<NodeHandle>, t: Seq<NodeHandle>, j: int, k: int) requires distinct(t), 0 <= k <= j < s.len() ensures 0 <= colsum(pairf(d, s, t), j, k) <= wrow(d, s, k) * wt(d, s[j]) decreases k
{
    if k > 0 { lemma_col_wt(d, s, t, j, k - 1); lemma_cr_wt(d, s[k - 1], s[j], t); assert((wrow(d, s, k - 1) + wt(d, s[k - 1])) * wt(d, s[j]) == wrow(d, s, k - 1) * wt(d, s[j]) + wt(d, s[k - 1]) * wt(d, s[j])) by(nonlinear_arith); }
    else { assert(wrow(d, s, k) * wt(d, s[j]) == 0) by(nonlinear_arith) requires wrow(d, s, k) == 0; }
}
pub proof fn lemma_tri_wt(d: DAG, s: Seq<NodeHandle>, t: Seq<NodeHandle>, k: int) requires distinct(t), 0 <= k <= s.len() ensures 0 <= tri(pairf(d, s, t), k) <= wrow(d, s, k) * wrow(d, s, k) decreases k
{
    if k > 0 {
        lemma_tri_wt(d, s, t, k - 1); lemma_col_wt(d, s, t, k - 1, k - 1); lemma_wrow_pos(d, s, k - 1);
        let x = wrow(d, s, k - 1); let y = wt(d, s[k - 1]);
        assert(x * x + x * y <= (x + y) * (x + y)) by(nonlinear_arith) requires 0 <= x, 0 <= y;
    } else { assert(wrow(d, s, k) * wrow(d, s, k) == 0) by(nonlinear_arith) requires wrow(d, s, k) == 0; }
}
pub proof fn lemma_wsum_bound(d: DAG, k: int) requires d.wf(), 0 <= k < d.rk().len() ensures 0 <= wsum(d, d.rk(), one(), k) <= wrows(d, d.rk(), k) * wrows(d, d.rk(), k) decreases k
{
    let r = d.rk();
    if k > 0 {
        lemma_wsum_bound(d, k - 1); lemma_row_distinct(d, k); lemma_tri_wt(d, r[k - 1], r[k], r[k - 1].len() as int);
        assert(one()(k - 1) == 1); lemma_wrows_pos(d, r, k - 1); lemma_wrow_pos(d, r[k - 1], r[k - 1].len() as int);
        let x = wrows(d, r, k - 1); let y = wrow(d, r[k - 1], r[k - 1].len() as int);
        assert(x * x + y * y <= (x + y) * (x + y)) by(nonlinear_arith) requires 0 <= x, 0 <= y;
    } else { assert(wrows(d, r, k) * wrows(d, r, k) == 0) by(nonlinear_arith) requires wrows(d, r, k) == 0; }
}
pub open spec fn most() -> int { 0x4000_0000_0000_0000 }
pub proof fn lemma_most(x: int) requires 0 <= x <= lim() ensures x * x <= most(), most() < usize::MAX { assert(x * x <= 0x8000_0000 * 0x8000_0000) by(nonlinear_arith) requires 0 <= x <= 0x8000_0000; }
pub proof fn lemma_fits(d: DAG, k: int) requires crossable(d), 0 <= k < d.rk().len() ensures 0 <= wsum(d, d.rk(), one(), k) <= most(), most() < usize::MAX
{ lemma_wsum_bound(d, k); lemma_wrows(d, d.rk(), d.n()); lemma_wrows_mono(d, d.rk(), k, d.rk().len() as int); lemma_wrows_pos(d, d.rk(), k); lemma_most(wrows(d, d.rk(), k)); }
pub proof fn lemma_cross_one(d: DAG, k: int) requires crossable(d), 0 <= k < d.rk().len() - 1 ensures 0 <= cross(d, d.rk()[k], d.rk()[k + 1]) <= most(), most() < usize::MAX
{
    let r = d.rk(); lemma_row_distinct(d, k + 1); lemma_tri_wt(d, r[k], r[k + 1], r[k].len() as int);
    lemma_wrows(d, r, d.n()); lemma_wrows_mono(d, r, k + 1, r.len() as int); lemma_wrows_pos(d, r, k); lemma_wrow_pos(d, r[k], r[k].len() as int); lemma_most(wrow(d, r[k], r[k].len() as int));
}
pub proof fn lemma_wts_same(o: DAG, d: DAG, k: int) requires o.nodes == d.nodes ensures wts(o, k) == wts(d, k) decreases k { if k > 0 { lemma_wts_same(o, d, k - 1); assert(o.succ(hd(k - 1).idx as int) == d.succ(hd(k - 1).idx as int)); assert(o.pred(hd(k - 1).idx as int) == d.pred(hd(k - 1).idx as int)); } }
@end
@fn EdgeCrossOptimizer::count_crossing_in_rows
ret r
requires in_range(first@, self.dag.n()), first@.len() <= lim(), second@.len() <= lim(), cross(*old(self.dag), first@, second@) <= usize::MAX,
ensures r == cross(*old(self.dag), first@, second@),
@start
proof { lemma_pairf_pos(*self.dag, first@, second@); lemma_part(pairf(*self.dag, first@, second@), 0, first@.len() as int); lemma_trirow(pairf(*self.dag, first@, second@), first@.len() as int);
    if first@.len() < 2 { reveal_with_fuel(tri, 2); assert(colsum(pairf(*self.dag, first@, second@), 0, 0) == 0); } }
let ghost f = pairf(*self.dag, first@, second@); let ghost n = first@.len() as int;
@loop 1
invariant vx_e1 == n, sum == trirow(f, vx_i1 as int, n), f == pairf(*self.dag, first@, second@), n == first@.len(), in_range(first@, self.dag.n()), n <= lim(), second@.len() <= lim(), tri(f, n) <= usize::MAX,
    forall|i: int, j: int| 0 <= i < j < n ==> 0 <= #[trigger] f(i, j),
@loop 2
invariant vx_e2 == n, i == vx_i1 - 1, 0 <= i < n, i + 1 <= vx_i2, sum == trirow(f, i as int, n) + rowsum(f, i as int, vx_i2 as int), f == pairf(*self.dag, first@, second@), n == first@.len(), in_range(first@, self.dag.n()), n <= lim(), second@.len() <= lim(), tri(f, n) <= usize::MAX,
    forall|i: int, j: int| 0 <= i < j < n ==> 0 <= #[trigger] f(i, j),
@loopstart 2
proof { assert(in_range(first@, self.dag.n())); assert(first@[i as int].idx < self.dag.n()); assert(first@[j as int].idx < self.dag.n()); lemma_row_nonneg(f, i as int, j + 1, n); lemma_part(f, i + 1, n); assert(rowsum(f, i as int, j + 1) == rowsum(f, i as int, j as int) + f(i as int, j as int)); }
@loopend 1
proof { assert(trirow(f, i + 1, n) == trirow(f, i as int, n) + rowsum(f, i as int, n)); }
@fn EdgeCrossOptimizer::count_crossed_edges
ret r
requires crossable(*old(self.dag)), self.dag.rk().len() > 0,
ensures r == crossings(*old(self.dag), old(self.dag).rk()),
@loop 1
invariant crossable(*self.dag), vx_e1 == self.dag.rk().len() - 1, sum == wsum(*self.dag, self.dag.rk(), one(), vx_i1 as int),
@loopstart 1
proof { let k = vx_i1 - 1; lemma_fits(*self.dag, k + 1); lemma_fits(*self.dag, k); lemma_cross_one(*self.dag, k); assert(one()(k) == 1);
    assert(self.dag.rk()[k].len() <= lim()); assert(self.dag.rk()[k + 1].len() <= lim()); lemma_row_range(*self.dag, k); }
@code
pub proof fn lemma_row_range(d: DAG, l: int) requires d.wf(), 0 <= l < d.rk().len() ensures in_range(d.rk()[l], d.n())
{ reveal(ranks_wf); assert forall|i: int| 0 <= i < d.rk()[l].len() implies (#[trigger] d.rk()[l][i]).idx < d.n() by { assert(is_pos(d.rk(), l, i)); assert(at(d.rk(), l, i).idx < d.n()); } }
@end
@code
// ---- the measure that makes the sweeps stop ----
pub open spec fn bb() -> int { most() + 1 }
pub open spec fn pw(k: int) -> int decreases k { if k <= 0 { 1 } else { bb() * pw(k - 1) } }
pub open spec fn weight(dir: Direction, l: int) -> spec_fn(int) -> int { match dir { Direction::Down => |i: int| pw(i), Direction::Up => |i: int| pw(l - i), _ => one() } }
pub open spec fn mu(d: DAG, dir: Direction) -> int { wsum(d, d.rk(), weight(dir, d.rk().len() as int), d.rk().len() - 1) }
pub proof fn lemma_pw(k: int) ensures pw(k) >= 1 decreases k { if k > 0 { lemma_pw(k - 1); assert(bb() >= 1) by(compute); assert(bb() * pw(k - 1) >= 1) by(nonlinear_arith) requires bb() >= 1, pw(k - 1) >= 1; } }
pub proof fn lemma_weight(dir: Direction, l: int, i: int) ensures weight(dir, l)(i) >= 1 { match dir { Direction::Down => { lemma_pw(i); }, Direction::Up => { lemma_pw(l - i); }, _ => { } } }
pub proof fn lemma_wsum_nonneg(d: DAG, r: Rk, w: spec_fn(int) -> int, k: int) requires 0 <= k < r.len(), forall|i: int| #[trigger] w(i) >= 1 ensures wsum(d, r, w, k) >= 0 decreases k
{ if k > 0 { lemma_wsum_nonneg(d, r, w, k - 1); lemma_cross_bound(d, r[k - 1], r[k]); assert(w(k - 1) * cross(d, r[k - 1], r[k]) >= 0) by(nonlinear_arith) requires w(k - 1) >= 1, cross(d, r[k - 1], r[k]) >= 0; } }
pub proof fn lemma_mu(d: DAG, dir: Direction) ensures mu(d, dir) >= 0
{ let l = d.rk().len() as int; assert forall|i: int| #[trigger] weight(dir, l)(i) >= 1 by { lemma_weight(dir, l, i); } if l > 0 { lemma_wsum_nonneg(d, d.rk(), weight(dir, l), l - 1); } }
// crossings depend on the edges only
pub proof fn lemma_cross_same(d: DAG, e: DAG, s: Seq<NodeHandle>, t: Seq<NodeHandle>) requires d.nodes == e.nodes ensures cross(d, s, t) == cross(e, s, t)
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] pairf(d, s, t)(i, j) == pairf(e, s, t)(i, j) by {
        let a = s[i]; let b = s[j];
        assert forall|x: int, y: int| 0 <= x < y < t.len() implies #[trigger] crf(d, a, b, t)(x, y) == crf(e, a, b, t)(x, y) by {
            assert(d.succ(a.idx as int) == e.succ(a.idx as int) && d.pred(a.idx as int) == e.pred(a.idx as int));
            assert(d.succ(b.idx as int) == e.succ(b.idx as int) && d.pred(b.idx as int) == e.pred(b.idx as int));
        }
        lemma_tri_ext(crf(d, a, b, t), crf(e, a, b, t), t.len() as int);
    }
    lemma_tri_ext(pairf(d, s, t), pairf(e, s, t), s.len() as int);
}
pub proof fn lemma_wsum_same(d: DAG, e: DAG, r: Rk, w: spec_fn(int) -> int, k: int) requires d.nodes == e.nodes ensures wsum(d, r, w, k) == wsum(e, r, w, k) decreases k
{ if k > 0 { lemma_wsum_same(d, e, r, w, k - 1); lemma_cross_same(d, e, r[k - 1], r[k]); } }
pub open spec fn part(d: DAG, r: Rk, i: int) -> int { if 0 <= i < r.len() - 1 { cross(d, r[i], r[i + 1]) } else { 0 } }
pub proof fn lemma_wsum_update(d: DAG, r: Rk, x: int, s: Seq<NodeHandle>, w: spec_fn(int) -> int, k: int)
    requires 0 <= x < r.len(), 0 <= k < r.len(),
    ensures ({ let q = r.update(x, s); wsum(d, q, w, k) == wsum(d, r, w, k) + (if x < k { w(x) * (part(d, q, x) - part(d, r, x)) } else { 0 }) + (if 0 <= x - 1 < k { w(x - 1) * (part(d, q, x - 1) - part(d, r, x - 1)) } else { 0 }) })
    decreases k
{
    if k > 0 {
        lemma_wsum_update(d, r, x, s, w, k - 1); let q = r.update(x, s); let i = k - 1;
        if i != x && i != x - 1 { assert(q[i] == r[i] && q[i + 1] == r[i + 1]); }
        else { assert(w(i) * (part(d, q, i) - part(d, r, i)) == w(i) * part(d, q, i) - w(i) * part(d, r, i)) by(nonlinear_arith); }
    }
}
pub open spec fn none() -> Seq<NodeHandle> { Seq::empty() }
pub open spec fn prevs(d: DAG, x: int, dir: Direction) -> Seq<NodeHandle> { if x > 0 && dir.goes_up() { d.rk()[x - 1] } else { none() } }
pub open spec fn nexts(d: DAG, x: int, dir: Direction) -> Seq<NodeHandle> { if x + 1 < d.rk().len() && dir.down() { d.rk()[x + 1] } else { none() } }
pub open spec fn own(d: DAG, x: int, dir: Direction, row: Seq<NodeHandle>) -> int { cross(d, prevs(d, x, dir), row) + cross(d, row, nexts(d, x, dir)) }
pub proof fn lemma_cross_none(d: DAG, row: Seq<NodeHandle>) ensures cross(d, none(), row) == 0, cross(d, row, none()) == 0
{ lemma_cross_bound(d, row, none()); lemma_cross_bound(d, none(), row); assert(none().len() * none().len() * row.len() * row.len() == 0) by(nonlinear_arith) requires none().len() == 0; assert(row.len() * row.len() * none().len() * none().len() == 0) by(nonlinear_arith) requires none().len() == 0; }
pub proof fn lemma_part_bound(d: DAG, r: Rk, i: int, e: DAG) requires crossable(e), r == e.rk(), d.nodes == e.nodes ensures 0 <= part(d, r, i) < bb()
{  if 0 <= i < r.len() - 1 { lemma_cross_one(e, i); lemma_cross_same(d, e, r[i], r[i + 1]); } }
#[verifier::spinoff_prover]
pub proof fn lemma_mu_drops(o: DAG, d: DAG, x: int, dir: Direction, row: Seq<NodeHandle>)
    requires crossable(o), crossable(d), d.nodes == o.nodes, 0 <= x < o.rk().len(), d.rk() == o.rk().update(x, row), own(o, x, dir, row) < own(o, x, dir, o.rk()[x]),
    ensures mu(d, dir) < mu(o, dir)
{
    let r = o.rk(); let q = d.rk(); let l = r.len() as int; let w = weight(dir, l);
    lemma_wsum_same(d, o, q, w, l - 1); lemma_wsum_update(o, r, x, row, w, l - 1);
    lemma_cross_none(o, row); lemma_cross_none(o, r[x]);
    lemma_part_bound(o, r, x, o); lemma_part_bound(o, r, x - 1, o); lemma_part_bound(o, q, x, d); lemma_part_bound(o, q, x - 1, d);
    let dx = part(o, q, x) - part(o, r, x); let dp = part(o, q, x - 1) - part(o, r, x - 1);
    match dir {
        Direction::Down => {
            assert(dx <= -1 && x + 1 < l); lemma_pw(x);
            if x > 0 { lemma_pw(x - 1); assert(pw(x) == bb() * pw(x - 1)); assert(pw(x) * dx + pw(x - 1) * dp < 0) by(nonlinear_arith) requires pw(x) == bb() * pw(x - 1), dx <= -1, dp <= bb() - 1, pw(x - 1) >= 1, bb() >= 1; }
            else { assert(pw(x) * dx < 0) by(nonlinear_arith) requires pw(x) >= 1, dx <= -1; }
        },
        Direction::Up => {
            assert(dp <= -1 && x > 0); lemma_pw(l - x); lemma_pw(l - (x - 1));
            assert(pw(l - (x - 1)) == bb() * pw(l - x));
            if x + 1 < l { assert(pw(l - (x - 1)) * dp + pw(l - x) * dx < 0) by(nonlinear_arith) requires pw(l - (x - 1)) == bb() * pw(l - x), dp <= -1, dx <= bb() - 1, pw(l - x) >= 1, bb() >= 1; }
            else { assert(pw(l - (x - 1)) * dp < 0) by(nonlinear_arith) requires pw(l - (x - 1)) >= 1, dp <= -1; }
        },
        Direction::Both => { },
        Direction::None => { assert(false); },
    }
}
@end
@fn EdgeCrossOptimizer::swap_crossed_edges_on_row
ret r
requires crossable(*old(self).dag), row_idx < old(self).dag.rk().len(),
ensures permuted(*old(self).dag, *final(self).dag), *final(final(self).dag) == *final(old(self).dag), crossable(*final(self).dag),
    !r ==> *final(self).dag == *old(self).dag, /*P14*/ r ==> mu(*final(self).dag, dir) < mu(*old(self).dag, dir),
@before "let mut row ="
proof {
    lemma_row_range(*self.dag, row_idx as int);
    if row_idx > 0 { lemma_row_range(*self.dag, row_idx - 1); assert(self.dag.rk()[row_idx - 1].len() <= lim()); }
    if row_idx + 1 < self.dag.rk().len() { lemma_row_range(*self.dag, row_idx + 1); assert(self.dag.rk()[row_idx + 1].len() <= lim()); }
    assert(prev_row@ =~= prevs(*self.dag, row_idx as int, dir)); assert(next_row@ =~= nexts(*self.dag, row_idx as int, dir));
}
@after "let mut row ="
proof { assert(row@ =~= self.dag.rk()[row_idx as int]); assert(row@.len() <= lim()); }
let ghost row0 = row@;
@loop 1
invariant vx_e1 == row@.len() - 1, row0 == self.dag.rk()[row_idx as int], row@.to_multiset() == row0.to_multiset(), row@.len() == row0.len(), 2 <= row0.len() <= lim(), in_range(row@, self.dag.n()), self.dag.wf(),
    prev_row@ == prevs(*self.dag, row_idx as int, dir), next_row@ == nexts(*self.dag, row_idx as int, dir), prev_row@.len() <= lim(), next_row@.len() <= lim(), in_range(prev_row@, self.dag.n()), in_range(next_row@, self.dag.n()),
    !changed ==> row@ == row0, /*P14*/ changed ==> own(*self.dag, row_idx as int, dir, row@) < own(*self.dag, row_idx as int, dir, row0),
@loopstart 1
let ghost r1 = row@;
proof {
    assert(row@[i as int].idx < self.dag.n() && row@[i + 1].idx < self.dag.n());
    assert(prev_row@.len() * prev_row@.len() <= lim() * lim()) by(nonlinear_arith) requires 0 <= prev_row@.len() <= lim(); assert(next_row@.len() * next_row@.len() <= lim() * lim()) by(nonlinear_arith) requires 0 <= next_row@.len() <= lim();
    lemma_cross_first(*self.dag, row@, next_row@, i as int); lemma_cross_second(*self.dag, prev_row@, row@, i as int); lemma_swapped(row@, i as int, i + 1);
}
@loopend 1
proof { assert(row@ =~= r1 || row@ =~= swapped(r1, i as int, i + 1)); lemma_same_range(r1, row@, self.dag.n()); }
@end_fn
proof { if changed { lemma_same_update(old(self).dag.rk(), old(self).dag.rk(), row_idx as int, row0); assert(self.dag.rk() == old(self).dag.rk().update(row_idx as int, self.dag.rk()[row_idx as int])); lemma_same_update(old(self).dag.rk(), old(self).dag.rk(), row_idx as int, self.dag.rk()[row_idx as int]); lemma_permuted(*old(self).dag, *self.dag); lemma_mu_drops(*old(self).dag, *self.dag, row_idx as int, dir, self.dag.rk()[row_idx as int]); } }
@code
pub proof fn lemma_same_range(s: Seq<NodeHandle>, t: Seq<NodeHandle>, n: int) requires s.to_multiset() == t.to_multiset(), in_range(s, n) ensures in_range(t, n)
{ lemma_same_len(s, t); assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).idx < n by { assert(t.contains(t[k])); assert(s.contains(t[k])); } }
@end
@fn EdgeCrossOptimizer::swap_crossed_edges
requires crossable(*old(self).dag),
ensures permuted(*old(self).dag, *final(self).dag), *final(final(self).dag) == *final(old(self).dag), crossable(*final(self).dag),
@loop 1
invariant permuted(*old(self).dag, *self.dag), crossable(*self.dag), *final(self.dag) == *final(old(self).dag),
decreases mu(*self.dag, dir), (if changed { 1int } else { 0int }),
@loopstart 1
let ghost m0 = mu(*self.dag, dir);
proof { lemma_mu(*self.dag, dir); }
@loop 2
invariant permuted(*old(self).dag, *self.dag), crossable(*self.dag), *final(self.dag) == *final(old(self).dag), vx_e2 == self.dag.rk().len(),
    /*P14*/ mu(*self.dag, dir) <= m0, /*P14*/ changed ==> mu(*self.dag, dir) < m0,
@loop 3
invariant permuted(*old(self).dag, *self.dag), crossable(*self.dag), *final(self.dag) == *final(old(self).dag), vx_i3 <= self.dag.rk().len(),
    /*P14*/ mu(*self.dag, dir) <= m0, /*P14*/ changed ==> mu(*self.dag, dir) < m0,
@loopend 1
proof { lemma_mu(*self.dag, dir); assert(changed ==> mu(*self.dag, dir) < m0); assert(mu(*self.dag, dir) <= m0); }
@fn EdgeCrossOptimizer::optimize
requires crossable(*old(self).dag), old(self).dag.rk().len() > 0, old(self).dag.acyclic(),
ensures permuted(*old(self).dag, *final(self).dag), *final(final(self).dag) == *final(old(self).dag), crossable(*final(self).dag),
    crossings(*final(self).dag, final(self).dag.rk()) <= crossings(*old(self).dag, old(self).dag.rk()),
@after "let mut best_cnt ="
proof { assert(ranks_of(best_rank) =~= self.dag.rk()); }
@loop 1
invariant permuted(*old(self).dag, *self.dag), crossable(*self.dag), *final(self.dag) == *final(old(self).dag), crossable(*old(self).dag), self.dag.rk().len() > 0,
    same_rows(old(self).dag.rk(), ranks_of(best_rank)), best_cnt == crossings(*old(self).dag, ranks_of(best_rank)), best_cnt <= crossings(*old(self).dag, old(self).dag.rk()),
@after "best_rank = self.dag.ranks().clone()" 2
proof { assert(ranks_of(best_rank) =~= self.dag.rk()); lemma_wsum_same(*old(self).dag, *self.dag, self.dag.rk(), one(), self.dag.rk().len() - 1); }
@end_fn
proof { assert(self.dag.rk() == ranks_of(best_rank)); lemma_permuted(*old(self).dag, *self.dag); lemma_wsum_same(*old(self).dag, *self.dag, self.dag.rk(), one(), self.dag.rk().len() - 1); }
