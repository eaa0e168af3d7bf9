@module built
@use base text dag reach dagcheck types geom orient sizes color style shapes make graph elem sink cross split rows lower pred simple verify align sched place fixer placer canvas visit tile outline path draw whole record props map ast attrs builder
@file topo/layout.rs
@code
broadcast use {ax_fr, text_keys, vstd::std_specs::hash::group_hash_axioms};
use crate::dag::in_range;
use crate::ast;
use crate::record::closed;
use crate::whole::all_filled;
use crate::whole::shown;
// ---- the graphs that come from a program can be laid out and drawn ----
// every level of a record has at least one field
pub open spec fn full(r: RV) -> bool decreases r { match r { RV::Text(_, _) => true, RV::Arr(a) => a.len() > 0 && forall|i: int| 0 <= i < a.len() ==> full(#[trigger] a[i]) } }
pub open spec fn all_full(a: Seq<RV>) -> bool { forall|i: int| 0 <= i < a.len() ==> full(#[trigger] a[i]) }
pub proof fn lemma_flush_full(l: Seq<char>, a: Seq<RV>) requires all_full(a) ensures all_full(flush(l, a)), full(closed(flush(l, a)))
{ let f = flush(l, a); assert forall|i: int| 0 <= i < f.len() implies full(#[trigger] f[i]) by { if i < a.len() { assert(f[i] == a[i]); } } }
pub proof fn lemma_level_full(s: Seq<char>, i: int, l: Seq<char>, a: Seq<RV>) requires all_full(a) ensures full(level(s, i, l, a).0) decreases s.len() - i
{
    lemma_flush_full(l, a);
    if i < 0 || i >= s.len() { }
    else if s[i] == '{' {
        lemma_level_full(s, i + 1, seq![], seq![]); let r = level(s, i + 1, seq![], seq![]);
        if i < r.1 <= s.len() { let b = flush(l, a).push(r.0); assert forall|k: int| 0 <= k < b.len() implies full(#[trigger] b[k]) by { if k < b.len() - 1 { assert(b[k] == flush(l, a)[k]); } } lemma_level_full(s, r.1, seq![], b); }
    }
    else if s[i] == '|' { lemma_level_full(s, i + 1, seq![], flush(l, a)); }
    else if s[i] == '}' { }
    else { lemma_level_full(s, i + 1, l.push(s[i]), a); }
}
pub proof fn lemma_full_filled(r: RecordDef) requires full(recv(r)) ensures filled(r) decreases r
{
    match r {
        RecordDef::Text(_, _) => {},
        RecordDef::Array(a) => {
            lemma_recv(a); assert(recvs(a@).len() == a@.len());
            assert forall|i: int| 0 <= i < a@.len() implies filled(#[trigger] a@[i]) by { assert(full(recvs(a@)[i])); lemma_full_filled(a@[i]); }
        },
    }
}
pub proof fn lemma_rec_room(r: RecordDef, dir: Orientation, font: usize) ensures rec_size(r, dir, font).0 >= 0real, rec_size(r, dir, font).1 >= 0real
    decreases r, 0int
{
    match r { RecordDef::Text(s, _) => { lemma_text_room(s@, font); }, RecordDef::Array(a) => { lemma_recs_room(a, a@.len() as int, dir, font); } }
}
pub proof fn lemma_recs_room(a: Vec<RecordDef>, k: int, dir: Orientation, font: usize) ensures rec_sizes(a, k, dir, font).0 >= 0real, rec_sizes(a, k, dir, font).1 >= 0real
    decreases a, k + 1
{ if k > 0 && k <= a@.len() { lemma_recs_room(a, k - 1, dir, font); lemma_rec_room(a@[k - 1], other(dir), font); } }
pub proof fn lemma_shape_room(dir: Orientation, s: ShapeKind, font: usize) ensures shape_size(dir, s, font).0 > 0real, shape_size(dir, s, font).1 > 0real
{
    match s { ShapeKind::Box(t) => { lemma_text_room(t@, font); }, ShapeKind::Circle(t) => { lemma_text_room(t@, font); }, ShapeKind::DoubleCircle(t) => { lemma_text_room(t@, font); }, ShapeKind::Connector(Some(t)) => { lemma_text_room(t@, font); }, ShapeKind::Record(r) => { lemma_rec_room(r, dir, font); }, _ => {} }
}
pub proof fn lemma_drawn_ready(dir: Orientation, m: Map<String, String>, name: Seq<char>, e: Element) requires node_drawn(dir, m, name, e) ensures !conn(e), has_size(e), records_filled(e)
{
    lemma_shape_room(other(dir), e.shape, e.look.font_size);
    match e.shape { ShapeKind::Record(d) => { let l = or(prop(m, "label"@), name); lemma_level_full(l, 0, seq![], seq![]); lemma_full_filled(d); }, _ => {} }
}
// what GraphBuilder::get() ensures
pub open spec fn built(w: World, r: VisualGraph) -> bool {
    &&& r.ok() && unlinked(r.dag) && r.orientation == direction(w.state) && r.self_edges@.len() == 0
    &&& r.nodes.len() == w.order.len() && forall|i: int| 0 <= i < r.nodes.len() ==> node_ok(w, i, #[trigger] r.nodes@[i])
    &&& r.ed().len() == w.edges.len() && forall|i: int| 0 <= i < r.ed().len() ==> edge_ok(w, i, #[trigger] r.ed()[i])
}
// not beyond what the layout can count
pub open spec fn small(n: int, m: int) -> bool { (n + m) * (m + 1) + m <= 0x4000_0000 }
pub proof fn lemma_built(w: World, g: VisualGraph) requires built(w, g), small(w.order.len() as int, w.edges.len() as int) ensures g.dag.n() == 0 || layable(g), all_filled(g.nodes@)
{
    let v = g.nodes@; let ed = g.ed(); let n = g.dag.n();
    assert forall|h: int| 0 <= h < v.len() implies !conn(#[trigger] v[h]) && has_size(v[h]) && records_filled(v[h]) by { assert(node_ok(w, h, v[h])); lemma_drawn_ready(direction(w.state), w.nodes[w.order[h]], w.order[h]@, v[h]); }
    assert forall|j: int| 0 <= j < ed.len() implies (#[trigger] ed[j]).1.len() == 2 && in_range(ed[j].1, n) && bare_ends(ed[j].1, v) by {
        assert(edge_ok(w, j, ed[j])); let s = ed[j].1; assert(s[0].idx < n && s[1].idx < n);
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).idx < n && !conn(v[s[i].idx as int]) by { assert(i == 0 || i == 1); }
    }
}
// a program, from its syntax tree to its picture
pub fn vx_draw<VxD: RenderBackend>(program: &ast::Graph, debug_mode: bool, disable_opt: bool, disable_layout: bool, rb: &mut VxD) -> (r: VisualGraph)
    requires small(do_graph(nothing(), *program).order.len() as int, do_graph(nothing(), *program).edges.len() as int),
    ensures ({ let w = do_graph(nothing(), *program); w.order.len() == 0 && final(rb).log() == old(rb).log() || exists|g: VisualGraph, l: VisualGraph| built(w, g) && #[trigger] is_lowered(g, l) && laid(l, r, disable_layout) && shown(r, debug_mode, old(rb).log(), final(rb).log()) }),
{
    let mut gb = GraphBuilder::new();
    gb.visit_graph(program);
    let mut vg = gb.get();
    proof { lemma_built(gb.world(), vg); }
    vg.do_it(debug_mode, disable_opt, disable_layout, rb);
    vg
}
pub open spec fn nothing() -> World { World { g: seq![], n: seq![], e: seq![], order: seq![], nodes: Map::empty(), edges: seq![], state: Map::empty() } }
@end
