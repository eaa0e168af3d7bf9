@module builder
@use base text dag types geom orient color style shapes make sizes record props map ast attrs graph
@file gv/builder.rs
@code
use std::collections::HashMap;
use crate::ast;
use vstd::std_specs::hash::*;
broadcast use {text_keys, vstd::std_specs::hash::group_hash_axioms};
pub type PM = Map<String, String>;
// an edge as it is remembered
pub struct Ed { pub from: String, pub to: String, pub props: PM, pub directed: bool, pub fp: Option<String>, pub tp: Option<String> }
pub open spec fn edv(e: EdgeDesc) -> Ed { Ed { from: e.from, to: e.to, props: e.props@, directed: e.is_directed, fp: e.from_port, tp: e.to_port } }
// what has been seen so far: the defaults in force, innermost scope last, and the nodes and edges
pub struct World { pub g: Seq<PM>, pub n: Seq<PM>, pub e: Seq<PM>, pub order: Seq<String>, pub nodes: Map<String, PM>, pub edges: Seq<Ed>, pub state: PM }
// ---- what the statements mean ----
pub open spec fn set(m: PM, l: Seq<(String, String)>, k: int) -> PM decreases k { if k <= 0 || k > l.len() { m } else { set(m, l, k - 1).insert(l[k - 1].0, l[k - 1].1) } }
pub open spec fn set_top(s: Seq<PM>, l: Seq<(String, String)>, k: int) -> Seq<PM> { s.update(s.len() - 1, set(s.last(), l, k)) }
pub open spec fn mention(w: World, name: String) -> World {
    if w.nodes.dom().contains(name) { w } else { World { order: w.order.push(name), nodes: w.nodes.insert(name, merged(w.n)), ..w } }
}
pub open spec fn hop_from(e: EdgeStmt, k: int) -> NodeId { if k <= 0 || k > e.to@.len() { e.from } else { e.to@[k - 1].0 } }
// the first k operators of an edge statement
pub open spec fn do_hops(w: World, e: EdgeStmt, k: int) -> World decreases k {
    if k <= 0 || k > e.to@.len() { mention(w, e.from.name) } else {
        let a = hop_from(e, k - 1); let b = e.to@[k - 1].0; let v = mention(do_hops(w, e, k - 1), b.name);
        World { edges: v.edges.push(Ed { from: a.name, to: b.name, props: merged(w.e.push(set(Map::empty(), e.list.list@, e.list.list@.len() as int))), directed: e.to@[k - 1].1 is Arrow, fp: a.port, tp: b.port }), ..v }
    }
}
pub open spec fn do_edge(w: World, e: EdgeStmt) -> World { do_hops(w, e, e.to@.len() as int) }
pub open spec fn do_node(w: World, n: NodeStmt) -> World { let v = mention(w, n.id.name); World { nodes: v.nodes.insert(n.id.name, set(v.nodes[n.id.name], n.list.list@, n.list.list@.len() as int)), ..v } }
pub open spec fn do_attr(w: World, a: AttrStmt) -> World {
    let l = a.list.list@; let k = l.len() as int;
    match a.target { AttrStmtTarget::Graph => World { g: set_top(w.g, l, k), ..w }, AttrStmtTarget::Node => World { n: set_top(w.n, l, k), ..w }, AttrStmtTarget::Edge => World { e: set_top(w.e, l, k), ..w } }
}
pub open spec fn open_scope(w: World) -> World { World { g: w.g.push(Map::empty()), n: w.n.push(Map::empty()), e: w.e.push(Map::empty()), ..w } }
// the defaults set inside are forgotten; the attributes of the graph are those in force at its end
pub open spec fn close_scope(w: World) -> World { World { g: w.g.drop_last(), n: w.n.drop_last(), e: w.e.drop_last(), state: merged(w.g), ..w } }
pub open spec fn do_stmt(w: World, s: Stmt) -> World decreases s, 0int {
    match s {
        Stmt::Edge(e) => do_edge(w, e), Stmt::Node(n) => do_node(w, n), Stmt::Attribute(a) => do_attr(w, a),
        Stmt::SubGraph(g) => do_graph(w, g),
    }
}
pub open spec fn do_graph(w: World, g: Graph) -> World decreases g, 0int { close_scope(do_stmts(open_scope(w), g.list.list, g.list.list@.len() as int)) }
pub open spec fn do_stmts(w: World, l: Vec<Stmt>, k: int) -> World decreases l, k + 1 { if k <= 0 || k > l@.len() { w } else { do_stmt(do_stmts(w, l, k - 1), l@[k - 1]) } }
impl GraphBuilder {
    pub open spec fn world(&self) -> World {
        World { g: self.global_attr.view(), n: self.node_attr.view(), e: self.edge_attr.view(), order: self.node_order@, nodes: self.nodes@.map_values(|h: HashMap<String, String>| h@), edges: self.edges@.map_values(|e: EdgeDesc| edv(e)), state: self.global_state@ }
    }
    pub open spec fn wf(&self) -> bool { self.global_attr.wf() && self.node_attr.wf() && self.edge_attr.wf() && eq_ok::<String>() && clone_ok::<String>() && sane(self.world()) }
    pub open spec fn scoped(&self) -> bool { self.wf() && self.global_attr.view().len() > 0 && self.node_attr.view().len() > 0 && self.edge_attr.view().len() > 0 }
}
pub open spec fn same_scopes(a: World, b: World) -> bool { b.g.len() == a.g.len() && b.n.len() == a.n.len() && b.e.len() == a.e.len() && b.g.drop_last() =~= a.g.drop_last() && b.n.drop_last() =~= a.n.drop_last() && b.e.drop_last() =~= a.e.drop_last() }
// every node is listed once; edges connect known nodes
pub open spec fn sane(w: World) -> bool {
    &&& w.order.no_duplicates()
    &&& forall|s: String| #[trigger] w.nodes.dom().contains(s) == w.order.contains(s)
    &&& w.nodes.dom().len() == w.order.len()
    &&& forall|i: int| 0 <= i < w.edges.len() ==> w.nodes.dom().contains((#[trigger] w.edges[i]).from) && w.nodes.dom().contains(w.edges[i].to)
}
pub open spec fn eqw(a: World, b: World) -> bool { a.g =~= b.g && a.n =~= b.n && a.e =~= b.e && a.order =~= b.order && a.nodes =~= b.nodes && a.edges =~= b.edges && a.state =~= b.state }
pub proof fn lemma_mention(w: World, name: String) requires sane(w) ensures sane(mention(w, name)), mention(w, name).nodes.dom().contains(name)
{
    let v = mention(w, name);
    if !w.nodes.dom().contains(name) {
        assert(!w.order.contains(name));
        assert(v.order.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < j < v.order.len() implies v.order[i] != v.order[j] by { if j == w.order.len() { assert(w.order.contains(w.order[i])); } } }
        assert forall|s: String| #[trigger] v.nodes.dom().contains(s) == v.order.contains(s) by {
            if v.order.contains(s) { let i = choose|i: int| 0 <= i < v.order.len() && v.order[i] == s; if i < w.order.len() { assert(w.order.contains(s)); } }
            if w.order.contains(s) { let i = choose|i: int| 0 <= i < w.order.len() && w.order[i] == s; assert(v.order[i] == s); }
            assert(v.order[w.order.len() as int] == name);
        }
        assert forall|i: int| 0 <= i < v.edges.len() implies v.nodes.dom().contains((#[trigger] v.edges[i]).from) && v.nodes.dom().contains(v.edges[i].to) by { assert(w.nodes.dom().contains(w.edges[i].from)); }
    }
}
// an edge statement changes no defaults
pub proof fn lemma_hops(w: World, e: EdgeStmt, k: int) requires sane(w) ensures ({ let v = do_hops(w, e, k); v.g == w.g && v.n == w.n && v.e == w.e && v.state == w.state && sane(v) && v.nodes.dom().contains(hop_from(e, k).name) }) decreases k
{
    if k <= 0 || k > e.to@.len() { lemma_mention(w, e.from.name); }
    else {
        lemma_hops(w, e, k - 1); let u = do_hops(w, e, k - 1); let v = mention(u, e.to@[k - 1].0.name); lemma_mention(u, e.to@[k - 1].0.name); let x = do_hops(w, e, k);
        assert(v.nodes.dom().contains(hop_from(e, k - 1).name));
        assert(sane(x)) by { assert forall|i: int| 0 <= i < x.edges.len() implies x.nodes.dom().contains((#[trigger] x.edges[i]).from) && x.nodes.dom().contains(x.edges[i].to) by { if i < v.edges.len() { assert(x.edges[i] == v.edges[i]); } } }
    }
}
@end
@fn GraphBuilder::new
ret r
ensures r.wf(), eqw(r.world(), (World { g: seq![], n: seq![], e: seq![], order: seq![], nodes: Map::empty(), edges: seq![], state: Map::empty() })),
@fn GraphBuilder::visit_graph
requires old(self).wf(),
ensures final(self).wf(), eqw(final(self).world(), do_graph(old(self).world(), *graph)),
    final(self).world().g =~= old(self).world().g, final(self).world().n =~= old(self).world().n, final(self).world().e =~= old(self).world().e,
decreases *graph, 0int,
@loop 1
invariant self.scoped(), vx_s1 == &graph.list.list, eqw(self.world(), do_stmts(open_scope(old(self).world()), graph.list.list, vx_i1 as int)),
   self.world().g.drop_last() =~= old(self).world().g, self.world().n.drop_last() =~= old(self).world().n, self.world().e.drop_last() =~= old(self).world().e,
   self.world().g.len() == old(self).world().g.len() + 1, self.world().n.len() == old(self).world().n.len() + 1, self.world().e.len() == old(self).world().e.len() + 1,
@fn GraphBuilder::visit_stmt
requires old(self).scoped(),
ensures final(self).wf(), eqw(final(self).world(), do_stmt(old(self).world(), *stmt)), same_scopes(old(self).world(), final(self).world()),
decreases *stmt, 1int,
@start
proof { if stmt is Edge { lemma_hops(old(self).world(), stmt->Edge_0, stmt->Edge_0.to@.len() as int); } }
@fn GraphBuilder::visit_edge
requires old(self).scoped(),
ensures final(self).wf(), eqw(final(self).world(), do_edge(old(self).world(), *e)),
@loop 1 kind=iter
invariant self.scoped(), runs(vx_it1, e.list.list@, vx_k1), eqw(self.world(), (World { e: old(self).world().e.push(set(Map::empty(), e.list.list@, vx_k1)), ..old(self).world() })),
ensures vx_k1 == e.list.list@.len(),
decreases e.list.list@.len() - vx_k1,
@loopbefore 1
let ghost mut vx_k1: int = 0;
@loopstart 1
proof { vx_k1 = vx_k1 + 1; }
@loop 2
invariant old(self).scoped(), self.scoped(), vx_s2 == &e.to, eqw(self.world(), (World { e: old(self).world().e.push(set(Map::empty(), e.list.list@, e.list.list@.len() as int)), ..do_hops(old(self).world(), *e, vx_i2 as int) })),
   *prev == hop_from(*e, vx_i2 as int).name, *prev_port == hop_from(*e, vx_i2 as int).port,
@start
proof { lemma_hops(old(self).world(), *e, e.to@.len() as int); lemma_hops(old(self).world(), *e, 0); }
@loopbefore 2
proof { assert(self.world().e =~= old(self).world().e.push(set(Map::empty(), e.list.list@, e.list.list@.len() as int))); }
@loopstart 2
proof { lemma_hops(old(self).world(), *e, vx_i2 - 1); lemma_hops(old(self).world(), *e, vx_i2 as int); }
@loopend 2
proof { let w = (World { e: old(self).world().e.push(set(Map::empty(), e.list.list@, e.list.list@.len() as int)), ..do_hops(old(self).world(), *e, vx_i2 as int) }); assert(self.edges@.last().props@ =~= merged(old(self).world().e.push(set(Map::empty(), e.list.list@, e.list.list@.len() as int)))); assert(eqw(self.world(), w)); assert(sane(w)); }
@fn GraphBuilder::init_node_with_name
requires old(self).wf(),
ensures final(self).wf(), eqw(final(self).world(), mention(old(self).world(), txt(name@))),
@start
proof { lemma_mention(self.world(), txt(name@)); }
@fn GraphBuilder::visit_node strmap
requires old(self).wf(),
ensures final(self).wf(), eqw(final(self).world(), do_node(old(self).world(), *n)),
@loop 1 kind=iter
invariant runs(vx_it1, n.list.list@, vx_k1), prop_list@ == set(m0, n.list.list@, vx_k1), obeys_key_model::<String>(),
ensures vx_k1 == n.list.list@.len(),
decreases n.list.list@.len() - vx_k1,
@loopbefore 1
let ghost mut vx_k1: int = 0; let ghost m0 = prop_list@;
@loopstart 1
proof { vx_k1 = vx_k1 + 1; }
@fn GraphBuilder::visit_att
requires old(self).scoped(),
ensures final(self).wf(), eqw(final(self).world(), do_attr(old(self).world(), *att)),
@start
let ghost at0 = *att;
@loop 1 kind=iter
invariant self.scoped(), runs(vx_it1, at0.list.list@, vx_k1), eqw(self.world(), (World { g: set_top(old(self).world().g, at0.list.list@, vx_k1), ..old(self).world() })),
ensures vx_k1 == at0.list.list@.len(),
decreases at0.list.list@.len() - vx_k1,
@loopbefore 1
let ghost mut vx_k1: int = 0;
@loopstart 1
proof { vx_k1 = vx_k1 + 1; }
@loop 2 kind=iter
invariant self.scoped(), runs(vx_it2, at0.list.list@, vx_k2), eqw(self.world(), (World { n: set_top(old(self).world().n, at0.list.list@, vx_k2), ..old(self).world() })),
ensures vx_k2 == at0.list.list@.len(),
decreases at0.list.list@.len() - vx_k2,
@loopbefore 2
let ghost mut vx_k2: int = 0;
@loopstart 2
proof { vx_k2 = vx_k2 + 1; }
@loop 3 kind=iter
invariant self.scoped(), runs(vx_it3, at0.list.list@, vx_k3), eqw(self.world(), (World { e: set_top(old(self).world().e, at0.list.list@, vx_k3), ..old(self).world() })),
ensures vx_k3 == at0.list.list@.len(),
decreases at0.list.list@.len() - vx_k3,
@loopbefore 3
let ghost mut vx_k3: int = 0;
@loopstart 3
proof { vx_k3 = vx_k3 + 1; }
@code
pub open spec fn direction(m: PM) -> Orientation { if prop(m, "rankdir"@) == Some("LR"@) { Orientation::LeftToRight } else { Orientation::TopToBottom } }
// the graph has one element per node, in the order of first mention, and one edge per operator, between the named nodes
pub open spec fn node_ok(w: World, i: int, e: Element) -> bool { node_drawn(direction(w.state), w.nodes[w.order[i]], w.order[i]@, e) }
pub open spec fn edge_ok(w: World, i: int, e: E) -> bool {
    &&& edge_drawn(w.edges[i].props, w.edges[i].directed, w.edges[i].fp, w.edges[i].tp, e.0)
    &&& e.1.len() == 2 && e.1[0].idx < w.order.len() && e.1[1].idx < w.order.len() && w.order[e.1[0].idx as int] == w.edges[i].from && w.order[e.1[1].idx as int] == w.edges[i].to
}
pub open spec fn unlinked(d: DAG) -> bool { forall|i: int| 0 <= i < d.n() ==> (#[trigger] d.succ(i)).len() == 0 }
@end
@fn GraphBuilder::get
ret r
requires self.wf(),
ensures r.ok(), unlinked(r.dag), r.orientation == direction(self.world().state), r.self_edges@.len() == 0,
    r.nodes.len() == self.world().order.len(), forall|i: int| 0 <= i < r.nodes.len() ==> node_ok(self.world(), i, #[trigger] r.nodes@[i]),
    r.ed().len() == self.world().edges.len(), forall|i: int| 0 <= i < r.ed().len() ==> edge_ok(self.world(), i, #[trigger] r.ed()[i]),
@loop 1
invariant self.wf(), vx_s1 == &self.node_order, dir == direction(self.world().state), vg.ok(), unlinked(vg.dag), vg.orientation == dir, vg.self_edges@.len() == 0, vg.ed().len() == 0, vg.nodes.len() == vx_i1,
    forall|i: int| 0 <= i < vg.nodes.len() ==> node_ok(self.world(), i, #[trigger] vg.nodes@[i]),
    forall|i: int| 0 <= i < vx_i1 ==> node_map@.dom().contains(#[trigger] self.node_order@[i]) && node_map@[self.node_order@[i]].idx == i,
@loopstart 1
broadcast use {text_keys, vstd::std_specs::hash::group_hash_axioms};
let ghost m0 = node_map@;
proof { assert(self.world().order.contains(*node_name)); assert(self.world().nodes.dom().contains(*node_name)); assert forall|i: int| 0 <= i < vx_i1 - 1 implies self.node_order@[i] != *node_name by { assert(self.world().order[i] != self.world().order[vx_i1 - 1]); } }
@loop 2
invariant self.wf(), vx_s2 == &self.edges, dir == direction(self.world().state), vg.ok(), unlinked(vg.dag), vg.orientation == dir, vg.self_edges@.len() == 0, vg.ed().len() == vx_i2, vg.nodes.len() == self.node_order.len(),
    forall|i: int| 0 <= i < vg.nodes.len() ==> node_ok(self.world(), i, #[trigger] vg.nodes@[i]),
    forall|i: int| 0 <= i < self.node_order.len() ==> node_map@.dom().contains(#[trigger] self.node_order@[i]) && node_map@[self.node_order@[i]].idx == i,
    forall|i: int| 0 <= i < vg.ed().len() ==> edge_ok(self.world(), i, #[trigger] vg.ed()[i]),
@loopstart 2
broadcast use {text_keys, vstd::std_specs::hash::group_hash_axioms};
let ghost d0 = vg.ed();
proof {
    let w = self.world(); let e = w.edges[vx_i2 - 1]; assert(e == edv(*edge_prop));
    assert(w.order.contains(e.from)); assert(w.order.contains(e.to));
    let i = choose|i: int| 0 <= i < w.order.len() && w.order[i] == e.from; assert(self.node_order@[i] == e.from);
    let j = choose|j: int| 0 <= j < w.order.len() && w.order[j] == e.to; assert(self.node_order@[j] == e.to);
}
@loopend 2
proof { assert(edge_ok(self.world(), vx_i2 - 1, vg.ed()[vx_i2 - 1])); assert(vg.ed().len() == vx_i2); }
