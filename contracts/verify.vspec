@module verify
@use base text dag reach dagcheck types geom orient shapes graph elem pred simple
@file topo/placer/verifier.rs
@code
broadcast use ax_fr;
use crate::dag::in_range;
// every element of the row from k on lies to the right of the first
pub proof fn lemma_right_of_first(g: VisualGraph, l: int, i: int)
    requires g.ok(), solid(g.nodes@), ordered(g.nodes@, g.dag.rk(), 0real), 0 <= l < g.dag.rk().len(), 0 < i < g.dag.rk()[l].len(),
    ensures rx(el(g.nodes@, g.dag.rk()[l][0]), true) <= lx(el(g.nodes@, g.dag.rk()[l][i]), true), lx(el(g.nodes@, g.dag.rk()[l][0]), true) < lx(el(g.nodes@, g.dag.rk()[l][i]), true),
        g.dag.rk()[l][0].idx < g.dag.n(), g.dag.rk()[l][i].idx < g.dag.n(),
{ lemma_row_in(g.dag, l); let s = g.dag.rk()[l]; assert(in_line(g.nodes@, s, s.len() as int, 0real)); lemma_in_line(g.nodes@, s, s.len() as int, 0real, 0, i); }
@end
@fn verify_order_in_rank
requires old(vg).ok(), solid(old(vg).nodes@), ordered(old(vg).nodes@, old(vg).dag.rk(), 0real),
ensures *final(vg) == *old(vg),
@loop 1
invariant *vg == *old(vg), vg.ok(), solid(vg.nodes@), ordered(vg.nodes@, vg.dag.rk(), 0real), vx_e1 == vg.dag.rk().len(),
@loop 2 kind=iter
invariant *vg == *old(vg), vg.ok(), solid(vg.nodes@), ordered(vg.nodes@, vg.dag.rk(), 0real), row < vg.dag.rk().len(), vx_it2.s@ == vg.dag.rk()[row as int], vx_it2.i >= 1, vx_it2.s.len() > 0, first_node == vx_it2.s@[0],
decreases vx_it2.left(),
@loopstart 2
proof { lemma_right_of_first(*vg, row as int, vx_it2.i - 1); }
@fn do_it
requires old(vg).ok(), solid(old(vg).nodes@), ordered(old(vg).nodes@, old(vg).dag.rk(), 0real),
ensures *final(vg) == *old(vg),
