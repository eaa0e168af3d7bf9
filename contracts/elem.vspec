@module elem
@use base text dag dagcheck types geom graph orient
@file std_shapes/shapes.rs
@code
broadcast use ax_fr;
// the element with its axes exchanged
pub open spec fn turned_elem(e: Element) -> Element { Element { orientation: other(e.orientation), pos: flipped(e.pos), ..e } }
pub open spec fn turned_all(v: Seq<Element>, k: int) -> Seq<Element> { Seq::new(v.len(), |i: int| if i < k { turned_elem(v[i]) } else { v[i] }) }
pub proof fn lemma_turn_twice(v: Seq<Element>) ensures turned_all(turned_all(v, v.len() as int), v.len() as int) == v { assert(turned_all(turned_all(v, v.len() as int), v.len() as int) =~= v); }
@end
@fn Element::position
ret r
ensures r == self.pos,
@fn Element::position_mut
ret r
ensures *r == old(self).pos, *final(self) == (Element { pos: *final(r), ..*old(self) }),
@fn Element::is_connector
ret r
ensures r == (self.shape is Connector),
@fn Element::transpose
ensures *final(self) == turned_elem(*old(self)),
@file topo/layout.rs
@fn VisualGraph::pos
ret r
requires n.idx < self.nodes.len(),
ensures r == self.nodes@[n.idx as int].pos,
@fn VisualGraph::pos_mut
ret r
requires n.idx < old(self).nodes.len(),
ensures *r == old(self).nodes@[n.idx as int].pos, final(self).nodes@ == old(self).nodes@.update(n.idx as int, Element { pos: *final(r), ..old(self).nodes@[n.idx as int] }),
    final(self).edges == old(self).edges, final(self).self_edges == old(self).self_edges, final(self).dag == old(self).dag, final(self).orientation == old(self).orientation,
@fn VisualGraph::is_connector
ret r
requires n.idx < self.nodes.len(),
ensures r == (self.nodes@[n.idx as int].shape is Connector),
@fn VisualGraph::transpose
requires old(self).nodes.len() == old(self).dag.n(),
ensures final(self).nodes@ == turned_all(old(self).nodes@, old(self).nodes.len() as int), final(self).edges == old(self).edges, final(self).self_edges == old(self).self_edges, final(self).dag == old(self).dag, final(self).orientation == old(self).orientation,
@loop 1 kind=iter
invariant vx_it1.last == old(self).nodes.len(), vx_it1.curr <= vx_it1.last, self.nodes@ == turned_all(old(self).nodes@, vx_it1.curr as int), self.edges == old(self).edges, self.self_edges == old(self).self_edges, self.dag == old(self).dag, self.orientation == old(self).orientation,
ensures vx_it1.curr == vx_it1.last,
decreases vx_it1.left(),
@loopbefore 1
proof { assert(self.nodes@ =~= turned_all(old(self).nodes@, 0)); }
@loopend 1
proof { assert(self.nodes@ =~= turned_all(old(self).nodes@, vx_it1.curr as int)); }
