@module place
@use base text dag reach dagcheck types geom orient shapes graph elem pred simple align sched
@file topo/placer/bk.rs
@code
broadcast use ax_fr;
use crate::simple;
use crate::dag::in_range;
pub broadcast proof fn ax_graded(d: DAG, a: Ab) requires d.wf(), #[trigger] alignment(d, d.rk(), a) ensures exists|lv: spec_fn(int) -> int, m: int| #[trigger] graded(a, lv, m)
{ lemma_alignment_graded(d, a); }
pub broadcast proof fn ax_blocks(d: DAG, vs: Rk, a: Ab, b: Ab) requires #[trigger] alignment(d, d.rk(), a), #[trigger] verticals(a, b, vs), ranks_wf(vs, d.n()) ensures blocks_of(d, vs) { lemma_blocks(d, vs, a, b); }
// the mean of four coordinates
pub open spec fn mean(a: Seq<Fl>, b: Seq<Fl>, c: Seq<Fl>, d: Seq<Fl>, h: int) -> real { (rv(a[h]) + rv(b[h]) + rv(c[h]) + rv(d[h])) / 4real }
pub proof fn lemma_mean(d: DAG, v: Seq<Element>, w: Seq<Element>, x0: Seq<Fl>, x1: Seq<Fl>, x2: Seq<Fl>, x3: Seq<Fl>)
    requires d.wf(), v.len() == d.n(), moved(v, w), centres_apart(v, d.rk(), x0), centres_apart(v, d.rk(), x1), centres_apart(v, d.rk(), x2), centres_apart(v, d.rk(), x3), forall|h: int| 0 <= h < w.len() ==> cx((#[trigger] w[h]).pos) == mean(x0, x1, x2, x3, h),
    ensures ordered(w, d.rk(), vx_v_EPSILON()),
{
    let r = d.rk();
    assert forall|l: int| 0 <= l < r.len() implies in_line(w, #[trigger] r[l], r[l].len() as int, vx_v_EPSILON()) by {
        lemma_row_in(d, l);
        assert forall|i: int| 0 < i < r[l].len() implies apart_by(el(w, r[l][i - 1]), el(w, #[trigger] r[l][i]), vx_v_EPSILON()) by {
            let a = r[l][i - 1].idx as int; let b = r[l][i].idx as int;
            assert(r[l][i - 1].idx < d.n()); assert(moved1(v[a], w[a]) && moved1(v[b], w[b]));
            assert(spaced_at(v, r, x0, true, l, i) && spaced_at(v, r, x1, true, l, i) && spaced_at(v, r, x2, true, l, i) && spaced_at(v, r, x3, true, l, i));
            assert(cx(w[a].pos) == mean(x0, x1, x2, x3, a) && cx(w[b].pos) == mean(x0, x1, x2, x3, b));
        }
    }
}
pub broadcast proof fn lemma_shift_ordered(d: DAG, v: Seq<Element>, w: Seq<Element>, x: real, g: real) requires d.wf(), v.len() == d.n(), #[trigger] all_shifted(v, w, x), #[trigger] ordered(v, d.rk(), g) ensures ordered(w, d.rk(), g)
{
    let r = d.rk();
    assert forall|l: int| 0 <= l < r.len() implies in_line(w, #[trigger] r[l], r[l].len() as int, g) by {
        lemma_row_in(d, l); assert(in_line(v, r[l], r[l].len() as int, g));
        assert forall|i: int| 0 < i < r[l].len() implies apart_by(el(w, r[l][i - 1]), el(w, #[trigger] r[l][i]), g) by {
            let a = r[l][i - 1].idx as int; let b = r[l][i].idx as int; assert(r[l][i - 1].idx < d.n());
            assert(shifted1(v[a], w[a], x) && shifted1(v[b], w[b], x)); assert(apart_by(el(v, r[l][i - 1]), el(v, r[l][i]), g));
        }
    }
}
pub broadcast proof fn lemma_shift_moved(u: Seq<Element>, v: Seq<Element>, w: Seq<Element>, x: real) requires #[trigger] moved(u, v), same_y(u, v), #[trigger] all_shifted(v, w, x) ensures moved(u, w), same_y(u, w)
{
    assert forall|h: int| #![trigger u[h]] #![trigger w[h]] 0 <= h < u.len() implies moved1(u[h], w[h]) && rv(w[h].pos.middle.y) == rv(u[h].pos.middle.y) by { assert(moved1(u[h], v[h])); assert(shifted1(v[h], w[h], x)); assert(rv(v[h].pos.middle.y) == rv(u[h].pos.middle.y)); }
}
@end
@fn BK::do_it float
requires old(self).vg.ok(), old(self).vg.dag.rk().len() >= 1,
ensures final(self).vg.ok(), *final(final(self).vg) == *final(old(self).vg), only_moved(*old(self).vg, *final(self).vg), same_y(old(self).vg.nodes@, final(self).vg.nodes@), ordered(final(self).vg.nodes@, old(self).vg.dag.rk(), vx_v_EPSILON()), not_negative(final(self).vg.nodes@),
@start
broadcast use {ax_graded, ax_blocks, lemma_shift_ordered, lemma_shift_moved};
let ghost g = *self.vg;
@loop 1
invariant g == *old(self).vg, self.vg.ok(), *final(self.vg) == *final(old(self).vg), g.ok(), only_moved(g, *self.vg), same_y(g.nodes@, self.vg.nodes@), xs0.len() == g.dag.n(), xs1.len() == g.dag.n(), xs2.len() == g.dag.n(), xs3.len() == g.dag.n(), vx_e1 == g.dag.n(),
    forall|h: int| 0 <= h < vx_i1 ==> cx((#[trigger] self.vg.nodes@[h]).pos) == mean(xs0@, xs1@, xs2@, xs3@, h),
@loopstart 1
broadcast use ax_fr;
@loopafter 1
proof { lemma_mean(g.dag, g.nodes@, self.vg.nodes@, xs0@, xs1@, xs2@, xs3@); }
