@module rows
@use base text dag reach dagcheck types geom orient sizes shapes graph elem
@file topo/placer/move_between_rows.rs
@code
broadcast use ax_fr;
// the label an element carries, with its style
pub open spec fn tag(e: Element) -> Seq<(String, StyleAttr)> { match e.shape { ShapeKind::Connector(Some(t)) => seq![(t, e.look)], _ => Seq::empty() } }
// the labels along an edge, in order
pub open spec fn labels(v: Seq<Element>, s: Seq<NodeHandle>) -> Seq<(String, StyleAttr)> decreases s.len() { if s.len() == 0 { Seq::empty() } else { labels(v, s.drop_last()) + tag(v[s.last().idx as int]) } }
// a connector belongs to one place of one edge
pub open spec fn once(ed: Seq<E>, v: Seq<Element>) -> bool {
    forall|j: int, i: int, l: int, m: int| #![trigger ed[j].1[i], ed[l].1[m]] 0 <= j < ed.len() && 0 <= i < ed[j].1.len() && 0 <= l < ed.len() && 0 <= m < ed[l].1.len() && ed[j].1[i] == ed[l].1[m] && conn(v[ed[j].1[i].idx as int]) ==> j == l && i == m
}
pub open spec fn follows(ed: Seq<E>, j: int, i: int, a: NodeHandle, b: NodeHandle) -> bool { 0 <= j < ed.len() && 0 <= i && i + 1 < ed[j].1.len() && ed[j].1[i] == a && ed[j].1[i + 1] == b }
// linked connectors follow each other on an edge
pub open spec fn wired(d: DAG, ed: Seq<E>, v: Seq<Element>) -> bool {
    forall|a: NodeHandle, b: NodeHandle| #[trigger] d.pred(b.idx as int).contains(a) && a.idx < d.n() && b.idx < d.n() && conn(v[a.idx as int]) && conn(v[b.idx as int]) ==> leads_to(ed, a, b)
}
// the size and the center of a connector are those of what it holds
pub open spec fn fits(e: Element) -> bool {
    let s = shape_size(e.orientation, e.shape, e.look.font_size);
    xy(e.pos.size) == s && xy(e.pos.center) == (if e.orientation is TopToBottom { (0real, s.1 / 2real) } else { (s.0 / 2real, 0real) })
}
// left-to-right graphs are placed with their axes exchanged, but the text is not turned
pub open spec fn fits_in(o: Orientation, e: Element) -> bool { if o is TopToBottom { fits(e) } else { fits(turned_elem(e)) } }
// b is a, apart from the label, its style, and the place
pub open spec fn alike(a: Element, b: Element) -> bool { conn(a) && conn(b) && b.orientation == a.orientation && b.properties == a.properties && b.pos.halo == a.pos.halo && b.pos.middle == a.pos.middle }
pub open spec fn kept_but_labels(o: Orientation, ed: Seq<E>, v: Seq<Element>, w: Seq<Element>) -> bool {
    &&& w.len() == v.len()
    &&& forall|h: int| #![trigger w[h]] #![trigger v[h]] 0 <= h < v.len() ==> w[h] == v[h] || alike(v[h], w[h]) && fits_in(o, w[h])
    &&& forall|j: int| 0 <= j < ed.len() ==> labels(w, #[trigger] ed[j].1) == labels(v, ed[j].1)
}
// the label of a goes to b, which has none
pub open spec fn handed(o: Orientation, v: Seq<Element>, w: Seq<Element>, a: int, b: int) -> bool {
    &&& 0 <= a < v.len() && 0 <= b < v.len() && w.len() == v.len() && v[a].shape is Connector && v[b].shape == ShapeKind::Connector(None) && v[a].shape->Connector_0 is Some
    &&& w[b].shape == v[a].shape && w[b].look == v[a].look && w[a].shape == ShapeKind::Connector(None)
    &&& w =~= v.update(b, w[b]).update(a, w[a]) && alike(v[a], w[a]) && alike(v[b], w[b]) && fits_in(o, w[a]) && fits_in(o, w[b])
}
pub proof fn lemma_labels_same(v: Seq<Element>, w: Seq<Element>, s: Seq<NodeHandle>)
    requires v.len() == w.len(), forall|i: int| 0 <= i < s.len() ==> tag(w[(#[trigger] s[i]).idx as int]) == tag(v[s[i].idx as int]), ensures labels(w, s) == labels(v, s) decreases s.len()
{ if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies tag(w[(#[trigger] d[i]).idx as int]) == tag(v[d[i].idx as int]) by { assert(d[i] == s[i]); } lemma_labels_same(v, w, d); assert(s[s.len() - 1] == s.last()); } }
pub proof fn lemma_labels_handed(v: Seq<Element>, w: Seq<Element>, s: Seq<NodeHandle>, x: int)
    requires v.len() == w.len(), 0 <= x, x + 1 < s.len(), tag(w[s[x].idx as int]) + tag(w[s[x + 1].idx as int]) == tag(v[s[x].idx as int]) + tag(v[s[x + 1].idx as int]),
        forall|i: int| 0 <= i < s.len() && i != x && i != x + 1 ==> tag(w[(#[trigger] s[i]).idx as int]) == tag(v[s[i].idx as int]),
    ensures labels(w, s) == labels(v, s) decreases s.len()
{
    let d = s.drop_last();
    if x + 2 == s.len() {
        reveal_with_fuel(labels, 3);
        let e = d.drop_last(); assert forall|i: int| 0 <= i < e.len() implies tag(w[(#[trigger] e[i]).idx as int]) == tag(v[e[i].idx as int]) by { assert(e[i] == s[i]); } lemma_labels_same(v, w, e);
        assert(d.last() == s[x] && s.last() == s[x + 1]);
        let p = s[x].idx as int; let q = s[x + 1].idx as int;
        assert(labels(w, s) =~= labels(w, e) + (tag(w[p]) + tag(w[q]))); assert(labels(v, s) =~= labels(v, e) + (tag(v[p]) + tag(v[q])));
    } else {
        assert(d[x] == s[x] && d[x + 1] == s[x + 1]);
        assert forall|i: int| 0 <= i < d.len() && i != x && i != x + 1 implies tag(w[(#[trigger] d[i]).idx as int]) == tag(v[d[i].idx as int]) by { assert(d[i] == s[i]); }
        lemma_labels_handed(v, w, d, x); assert(s[s.len() - 1] == s.last());
    }
}
// a label that goes to a neighbour stays on its edge
pub proof fn lemma_handed(o: Orientation, ed: Seq<E>, v: Seq<Element>, w: Seq<Element>, a: NodeHandle, b: NodeHandle, p: NodeHandle, q: NodeHandle, j0: int, x: int)
    requires once(ed, v), chains_in(ed, v.len() as int), handed(o, v, w, a.idx as int, b.idx as int), (p == a && q == b) || (p == b && q == a), follows(ed, j0, x, p, q),
    ensures kept_but_labels(o, ed, v, w), once(ed, w),
{
    assert(conn(v[p.idx as int]) && conn(v[q.idx as int])); assert(ed[j0].1[x] == p && ed[j0].1[x + 1] == q);
    assert(a != b) by { if a == b { assert(ed[j0].1[x] == ed[j0].1[x + 1]); } }
    assert(tag(w[p.idx as int]) + tag(w[q.idx as int]) =~= tag(v[p.idx as int]) + tag(v[q.idx as int]));
    assert forall|j: int| 0 <= j < ed.len() implies labels(w, #[trigger] ed[j].1) == labels(v, ed[j].1) by {
        let s = ed[j].1; assert(in_range(s, v.len() as int));
        if j == j0 {
            assert forall|i: int| 0 <= i < s.len() && i != x && i != x + 1 implies tag(w[(#[trigger] s[i]).idx as int]) == tag(v[s[i].idx as int]) by { assert(s[i] == ed[j].1[i]); if s[i].idx == p.idx { assert(ed[j].1[i] == ed[j0].1[x]); } if s[i].idx == q.idx { assert(ed[j].1[i] == ed[j0].1[x + 1]); } assert(s[i].idx < v.len()); }
            lemma_labels_handed(v, w, s, x);
        } else {
            assert forall|i: int| 0 <= i < s.len() implies tag(w[(#[trigger] s[i]).idx as int]) == tag(v[s[i].idx as int]) by { assert(s[i] == ed[j].1[i]); if s[i].idx == p.idx { assert(ed[j].1[i] == ed[j0].1[x]); } if s[i].idx == q.idx { assert(ed[j].1[i] == ed[j0].1[x + 1]); } assert(s[i].idx < v.len()); }
            lemma_labels_same(v, w, s);
        }
    }
    assert(once(ed, w)) by {
        assert forall|j: int, i: int, l: int, m: int| #![trigger ed[j].1[i], ed[l].1[m]] 0 <= j < ed.len() && 0 <= i < ed[j].1.len() && 0 <= l < ed.len() && 0 <= m < ed[l].1.len() && ed[j].1[i] == ed[l].1[m] && conn(w[ed[j].1[i].idx as int]) implies j == l && i == m by { assert(in_range(ed[j].1, v.len() as int)); assert(ed[j].1[i].idx < v.len()); let h = ed[j].1[i].idx as int; assert(conn(v[h])); }
    }
}
pub proof fn lemma_kept_trans(o: Orientation, ed: Seq<E>, u: Seq<Element>, v: Seq<Element>, w: Seq<Element>) requires kept_but_labels(o, ed, u, v), kept_but_labels(o, ed, v, w) ensures kept_but_labels(o, ed, u, w)
{ assert forall|h: int| #![trigger w[h]] #![trigger u[h]] 0 <= h < u.len() implies w[h] == u[h] || alike(u[h], w[h]) && fits_in(o, w[h]) by { assert(v[h] == u[h] || alike(u[h], v[h])); assert(w[h] == v[h] || alike(v[h], w[h])); }
  assert forall|j: int| 0 <= j < ed.len() implies labels(w, #[trigger] ed[j].1) == labels(u, ed[j].1) by { assert(labels(v, ed[j].1) == labels(u, ed[j].1)); } }
pub proof fn lemma_kept_once(o: Orientation, d: DAG, ed: Seq<E>, v: Seq<Element>, w: Seq<Element>) requires kept_but_labels(o, ed, v, w), once(ed, v), wired(d, ed, v), chains_in(ed, v.len() as int), v.len() == d.n() ensures once(ed, w), wired(d, ed, w)
{
    assert forall|h: int| 0 <= h < v.len() implies conn(#[trigger] w[h]) == conn(v[h]) by { }
    assert forall|j: int, i: int, l: int, m: int| #![trigger ed[j].1[i], ed[l].1[m]] 0 <= j < ed.len() && 0 <= i < ed[j].1.len() && 0 <= l < ed.len() && 0 <= m < ed[l].1.len() && ed[j].1[i] == ed[l].1[m] && conn(w[ed[j].1[i].idx as int]) implies j == l && i == m by { assert(in_range(ed[j].1, v.len() as int)); assert(ed[j].1[i].idx < v.len()); let h = ed[j].1[i].idx as int; assert(conn(v[h])); }
    assert forall|a: NodeHandle, b: NodeHandle| #[trigger] d.pred(b.idx as int).contains(a) && a.idx < d.n() && b.idx < d.n() && conn(w[a.idx as int]) && conn(w[b.idx as int]) implies leads_to(ed, a, b) by { assert(conn(v[a.idx as int]) && conn(v[b.idx as int])); }
}
// everything but the elements stays
pub open spec fn only_elems(a: VisualGraph, b: VisualGraph) -> bool { b.edges == a.edges && b.self_edges == a.self_edges && b.dag == a.dag && b.orientation == a.orientation }
pub proof fn lemma_rsum_take(r: Rk, i: int) requires 0 <= i < r.len() ensures rsum(r.take(i + 1)) == rsum(r.take(i)) + r[i].len() { assert(r.take(i + 1).drop_last() =~= r.take(i)); assert(r.take(i + 1).last() == r[i]); }
pub proof fn lemma_row_at(g: VisualGraph, l: int, i: int) requires g.ok(), 0 <= l < g.dag.rk().len(), 0 <= i < g.dag.rk()[l].len() ensures g.dag.rk()[l][i].idx < g.nodes.len()
{ let r = g.dag.rk(); assert(is_pos(r, l, i)); reveal(ranks_wf); assert(at(r, l, i) == r[l][i]); assert(ranks_wf(r, g.dag.n())); assert(at(r, l, i).idx < g.dag.n()); }
pub proof fn lemma_rsum_le(r: Rk, i: int) requires 0 <= i <= r.len() ensures rsum(r.take(i)) <= rsum(r) decreases r.len() - i { if i < r.len() { lemma_rsum_take(r, i); lemma_rsum_le(r, i + 1); } else { assert(r.take(i) =~= r); } }
// what moving labels needs
pub open spec fn movable(g: VisualGraph) -> bool { g.ok() && g.dag.rk().len() > 0 && g.dag.n() <= 0x4000_0000 && chains_in(g.ed(), g.dag.n()) && once(g.ed(), g.nodes@) && wired(g.dag, g.ed(), g.nodes@) }
pub open spec fn keeps(a: VisualGraph, b: VisualGraph) -> bool { kept_but_labels(a.orientation, a.ed(), a.nodes@, b.nodes@) }
pub open spec fn leads_to(ed: Seq<E>, a: NodeHandle, b: NodeHandle) -> bool { exists|j: int, i: int| #[trigger] follows(ed, j, i, a, b) }
pub open spec fn neighbours(ed: Seq<E>, a: NodeHandle, b: NodeHandle) -> bool { leads_to(ed, a, b) || leads_to(ed, b, a) }
pub proof fn lemma_kept_refl(o: Orientation, ed: Seq<E>, v: Seq<Element>) ensures kept_but_labels(o, ed, v, v) {}
pub broadcast proof fn lemma_keeps_trans(u: VisualGraph, v: VisualGraph, w: VisualGraph) requires #[trigger] keeps(u, v), #[trigger] keeps(v, w), only_elems(u, v) ensures keeps(u, w) { lemma_kept_trans(u.orientation, u.ed(), u.nodes@, v.nodes@, w.nodes@); }
// a connector and the connector before it are neighbours on an edge
pub broadcast proof fn lemma_neighbours(g: VisualGraph, b: NodeHandle) requires movable(g), b.idx < g.nodes.len(), conn(g.nodes@[b.idx as int]), (#[trigger] g.dag.pred(b.idx as int)).len() == 1, conn(g.nodes@[g.dag.pred(b.idx as int)[0].idx as int])
    ensures neighbours(g.ed(), g.dag.pred(b.idx as int)[0], b), neighbours(g.ed(), b, g.dag.pred(b.idx as int)[0]), g.dag.pred(b.idx as int)[0].idx < g.nodes.len()
{ let a = g.dag.pred(b.idx as int)[0]; assert(g.dag.pred(b.idx as int).contains(a)); assert(g.dag.targets_ok()); assert(in_range(g.dag.succ(b.idx as int), g.dag.n())); assert(g.dag.pred(b.idx as int)[0].idx < g.dag.n()); }
pub broadcast proof fn lemma_handed_ok(g: VisualGraph, f: VisualGraph, a: NodeHandle, b: NodeHandle) requires movable(g), #[trigger] only_elems(g, f), neighbours(g.ed(), a, b), #[trigger] handed(g.orientation, g.nodes@, f.nodes@, a.idx as int, b.idx as int) ensures keeps(g, f), movable(f)
{
    if leads_to(g.ed(), a, b) { let (j, x) = choose|j: int, x: int| #[trigger] follows(g.ed(), j, x, a, b); lemma_handed(g.orientation, g.ed(), g.nodes@, f.nodes@, a, b, a, b, j, x); }
    else { let (j, x) = choose|j: int, x: int| #[trigger] follows(g.ed(), j, x, b, a); lemma_handed(g.orientation, g.ed(), g.nodes@, f.nodes@, a, b, b, a, j, x); }
    lemma_kept_once(g.orientation, g.dag, g.ed(), g.nodes@, f.nodes@);
}
@end
@file std_shapes/shapes.rs
@fn Element::resize float
ensures conn(*old(self)) ==> fits(*final(self)), *final(self) == (Element { pos: Position { size: final(self).pos.size, center: final(self).pos.center, ..old(self).pos }, ..*old(self) }), !conn(*old(self)) ==> *final(self) == *old(self),
@start
proof { if let ShapeKind::Connector(Some(t)) = &self.shape { lemma_text_room(t@, self.look.font_size); } }
@file topo/placer/move_between_rows.rs
@fn get_row_width float
requires old(vg).ok(), idx < old(vg).dag.rk().len(),
ensures *final(vg) == *old(vg),
@loop 1
invariant vx_s1@ == vg.dag.rk()[idx as int], vg.ok(), *vg == *old(vg), idx < vg.dag.rk().len(),
@loopstart 1
proof { lemma_row_at(*vg, idx as int, vx_i1 - 1); }
@fn resize_connector
requires node.idx < old(vg).nodes.len(), conn(old(vg).nodes@[node.idx as int]),
ensures only_elems(*old(vg), *final(vg)), ({ let e = old(vg).nodes@[node.idx as int]; let f = final(vg).nodes@[node.idx as int];
    final(vg).nodes@ == old(vg).nodes@.update(node.idx as int, f) && alike(e, f) && f.shape == e.shape && f.look == e.look && fits_in(old(vg).orientation, f) }),
@fn move_label
ret r
requires curr.idx < old(vg).nodes.len(), pred.idx < old(vg).nodes.len(),
ensures only_elems(*old(vg), *final(vg)), !r ==> final(vg).nodes == old(vg).nodes, r ==> handed(old(vg).orientation, old(vg).nodes@, final(vg).nodes@, curr.idx as int, pred.idx as int),
@fn move_text_up float
ret r
requires movable(*old(vg)),
ensures only_elems(*old(vg), *final(vg)), keeps(*old(vg), *final(vg)), movable(*final(vg)), r <= old(vg).dag.n(),
@start
let ghost g = *vg; let ghost r = vg.dag.rk(); let ghost n = g.dag.n();
proof { lemma_count(r, n); lemma_rsum_le(r, 1); lemma_kept_refl(g.orientation, g.ed(), g.nodes@); }
@loop 1
invariant g == *old(vg), r == g.dag.rk(), movable(g), movable(*vg), only_elems(g, *vg), keeps(g, *vg), cnt <= rsum(r.take(vx_i1 as int)), vx_e1 == r.len(), 1 <= vx_i1 <= r.len(), rsum(r) == n, n == g.dag.n(),
@looptop 1
proof { lemma_rsum_take(r, vx_i1 as int); lemma_rsum_le(r, vx_i1 + 1); }
@loop 2
invariant g == *old(vg), r == g.dag.rk(), movable(g), movable(*vg), only_elems(g, *vg), keeps(g, *vg), cnt <= rsum(r.take(i as int)) + vx_i2, i < r.len(), row@ == r[i as int], vx_s2@ == row@, rsum(r) == n, n == g.dag.n(),
@loopstart 2
broadcast use lemma_keeps_trans, lemma_neighbours, lemma_handed_ok;
proof { lemma_row_at(g, i as int, vx_i2 - 1); assert(r[i as int][vx_i2 - 1] == *elem); lemma_rsum_take(r, i as int); lemma_rsum_le(r, i + 1); assert(g.dag.targets_ok() && in_range(g.dag.succ(elem.idx as int), n)); }
@end_fn
proof { lemma_rsum_le(r, r.len() as int); }
@fn do_it
requires movable(*old(vg)),
ensures only_elems(*old(vg), *final(vg)), keeps(*old(vg), *final(vg)), movable(*final(vg)),
@start
proof { lemma_kept_refl(vg.orientation, vg.ed(), vg.nodes@); }
@loop 1
invariant movable(*old(vg)), movable(*vg), only_elems(*old(vg), *vg), keeps(*old(vg), *vg), cnt <= vx_i1 * 0x4000_0000, 0 <= vx_i1 <= 3, vx_e1 == 3,
@loopstart 1
broadcast use lemma_keeps_trans;
