@module draw
@use base text dag types geom orient sizes style canvas visit tile elem outline path
@code
broadcast use ax_fr;
// ---- one element ----
pub open spec fn corner0(e: Element, h: bool) -> (real, real) { (lx(e.pos, h), ty(e.pos, h)) }
pub open spec fn inner(s: (real, real)) -> (real, real) { (s.0 - 15real, s.1 - 15real) }
// the drawing of an element: its shape, once, where it is, with its own style, properties and text
pub open spec fn element_drawn(e: Element, d: Seq<Cmd>) -> bool {
    let s = xy(e.pos.size); let p = otext(e.properties);
    match e.shape {
        ShapeKind::None => d == Seq::<Cmd>::empty(),
        ShapeKind::Record(r) => exists|c: usize| record_drawn(r, e.orientation, center(e), s, e.look, p, c, d),
        ShapeKind::Box(t) => d == seq![Cmd::Rect(corner0(e, false), s, e.look, p, None), Cmd::Text(center(e), t@, e.look)],
        ShapeKind::Circle(t) => d == seq![Cmd::Circle(center(e), s, e.look, p), Cmd::Text(center(e), t@, e.look)],
        ShapeKind::DoubleCircle(t) => d == seq![Cmd::Circle(center(e), s, e.look, p), Cmd::Circle(center(e), inner(s), e.look, None), Cmd::Text(center(e), t@, e.look)],
        ShapeKind::Connector(Some(t)) => d == seq![Cmd::Text(xy(e.pos.middle), t@, e.look)],
        ShapeKind::Connector(None) => d == Seq::<Cmd>::empty(),
    }
}
// what debug mode may add: boxes, lines and circles in the debug styles
pub open spec fn marks(d: Seq<Cmd>) -> bool { forall|i: int| 0 <= i < d.len() ==> mark(#[trigger] d[i]) }
pub open spec fn mark_look(l: StyleAttr) -> bool { l.line_width == 1 && l.rounded == 0 && l.font_size == 15 && l.fill_color is Some }
pub open spec fn mark(c: Cmd) -> bool { match c { Cmd::Rect(_, _, l, _, None) => mark_look(l), Cmd::Line(_, _, l, None) => mark_look(l), Cmd::Circle(_, _, l, None) => mark_look(l), _ => false } }
// the drawing, between marks when in debug mode
pub open spec fn cut(a: Seq<Cmd>, d: Seq<Cmd>, b: Seq<Cmd>, debug: bool) -> bool { marks(a) && marks(b) && (!debug ==> a.len() == 0 && b.len() == 0) }
pub open spec fn element_shown(e: Element, debug: bool, log: Seq<Cmd>) -> bool { exists|a: Seq<Cmd>, d: Seq<Cmd>, b: Seq<Cmd>| log == a + d + b && cut(a, d, b, debug) && element_drawn(e, d) }
// ---- one edge ----
pub open spec fn dashed(a: Arrow) -> bool { !(a.line_style is Normal) }
pub open spec fn heads(a: Arrow) -> (bool, bool) { (a.start is Arrow, a.end is Arrow) }
// once, unless its line style is none
pub open spec fn edge_drawn(a: Arrow, v: Seq<Element>, d: Seq<Cmd>) -> bool {
    if a.line_style is None { d == Seq::<Cmd>::empty() }
    else { exists|p: Seq<(Point, Point)>| #[trigger] path_ok(p, v, a) && d == seq![Cmd::Arrow(segs(p), dashed(a), heads(a), a.look, otext(a.properties), a.text@)] }
}
pub open spec fn edge_shown(a: Arrow, v: Seq<Element>, debug: bool, log: Seq<Cmd>) -> bool { exists|m: Seq<Cmd>, d: Seq<Cmd>| log == m + d && cut(m, d, Seq::<Cmd>::empty(), debug) && edge_drawn(a, v, d) }
pub proof fn lemma_flat(s: Seq<Seq<Cmd>>, x: Seq<Cmd>) ensures s.push(x).flatten() == s.flatten() + x { s.lemma_flatten_push(x); }
// ---- the graph: the first n nodes in order, then the first m edges in order ----
pub open spec fn visited(g: VisualGraph, j: int) -> Seq<Element> { Seq::new(g.edges@[j].1@.len(), |i: int| g.nodes@[g.edges@[j].1@[i].idx as int]) }
pub open spec fn nodes_shown(g: VisualGraph, n: int, debug: bool, d: Seq<Seq<Cmd>>) -> bool { d.len() == n && forall|i: int| 0 <= i < n ==> element_shown(g.nodes@[i], debug, #[trigger] d[i]) }
pub open spec fn edges_shown(g: VisualGraph, m: int, debug: bool, d: Seq<Seq<Cmd>>) -> bool { d.len() == m && forall|j: int| 0 <= j < m ==> edge_shown(g.edges@[j].0, visited(g, j), debug, #[trigger] d[j]) }
pub open spec fn renderable(g: VisualGraph) -> bool {
    &&& forall|i: int| 0 <= i < g.nodes@.len() ==> records_filled(#[trigger] g.nodes@[i])
    &&& edges_ok(g)
}
pub open spec fn records_filled(e: Element) -> bool { e.shape matches ShapeKind::Record(r) ==> filled(r) }
// edges run between shapes and only through connectors
pub open spec fn edges_ok(g: VisualGraph) -> bool {
    forall|j: int| 0 <= j < g.edges@.len() ==> (forall|i: int| 0 <= i < (#[trigger] g.edges@[j]).1@.len() ==> (#[trigger] g.edges@[j].1@[i]).idx < g.nodes@.len()) && chain_ok(visited(g, j))
}
@end
@file std_shapes/render.rs
@fn Element::render float rlimit=60 spinoff_prover
ensures records_filled(*self) ==> exists|d: Seq<Cmd>| final(canvas).log() == old(canvas).log() + d && #[trigger] element_shown(*self, debug, d),
@start
let ghost log0 = canvas.log();
@before "match & self . shape"
let ghost l1 = canvas.log();
@before "if debug" 3
let ghost l2 = canvas.log();
proof {
    assert(debug ==> l1 == log0.push(l1[log0.len() as int]) && mark(l1[log0.len() as int])); assert(!debug ==> l1 == log0);
    let k: int = if debug && self.shape is Connector { 2 } else { 0 }; let d = l2.skip(l1.len() + k);
    match &self.shape {
        ShapeKind::Box(t) => { assert(d =~= seq![Cmd::Rect(corner0(*self, false), xy(self.pos.size), self.look, otext(self.properties), None), Cmd::Text(center(*self), t@, self.look)]); }
        ShapeKind::Circle(t) => { assert(d =~= seq![Cmd::Circle(center(*self), xy(self.pos.size), self.look, otext(self.properties)), Cmd::Text(center(*self), t@, self.look)]); }
        ShapeKind::DoubleCircle(t) => { assert(d =~= seq![Cmd::Circle(center(*self), xy(self.pos.size), self.look, otext(self.properties)), Cmd::Circle(center(*self), inner(xy(self.pos.size)), self.look, None), Cmd::Text(center(*self), t@, self.look)]); }
        ShapeKind::Connector(Some(t)) => { assert(d =~= seq![Cmd::Text(xy(self.pos.middle), t@, self.look)]); }
        ShapeKind::Record(r) => { if filled(*r) { let (c, e) = choose|c: usize, e: Seq<Cmd>| l2 == l1 + e && record_drawn(*r, self.orientation, center(*self), xy(self.pos.size), self.look, otext(self.properties), c, e); assert(d =~= e); } }
        _ => { assert(d =~= seq![]); }
    }
    assert(records_filled(*self) ==> element_drawn(*self, d));
    assert(records_filled(*self) ==> l2.len() >= l1.len() + k);
    assert(records_filled(*self) ==> l2 =~= l1 + l2.subrange(l1.len() as int, l1.len() + k) + d);
    assert(records_filled(*self) ==> marks(l2.subrange(l1.len() as int, l1.len() + k)));
}
@end_fn
proof { if records_filled(*self) {
    let k: int = if debug && self.shape is Connector { 2 } else { 0 }; let d = l2.skip(l1.len() + k);
    let n = log0.len() as int; let l3 = canvas.log();
    let x = l3.skip(n); let a = l3.subrange(n, l1.len() + k); let b = l3.skip(l2.len() as int);
    assert(debug ==> b =~= seq![l3.last()]); assert(!debug ==> b =~= seq![]); assert(!debug ==> a =~= seq![]);
    assert(x =~= a + d + b);
    assert(marks(a)) by { let m = l2.subrange(l1.len() as int, l1.len() + k); assert forall|i: int| 0 <= i < a.len() implies mark(#[trigger] a[i]) by { if i > 0 { assert(a[i] == m[i - 1]); } else { assert(a[0] == l1[n]); } } }
    assert(cut(a, d, b, debug));
    assert(element_shown(*self, debug, x));
    assert(l3 =~= log0 + x);
} }
@fn render_arrow float
requires chain_ok(elements@),
ensures exists|d: Seq<Cmd>| final(canvas).log() == old(canvas).log() + d && #[trigger] edge_shown(*arrow, elements@, debug, d),
@start
let ghost log0 = canvas.log(); let ghost n = log0.len() as int;
proof {
    assert(log0.skip(n) =~= seq![]); assert(log0.take(n) =~= log0);
    assert(marks(log0.skip(n)));
    assert forall|l: Seq<Cmd>| #![trigger marks(l.skip(n))] n <= l.len() && l.take(n) == log0 && marks(l.skip(n)) && (debug || l == log0) implies l == log0 + l.skip(n) && (arrow.line_style is None ==> edge_shown(*arrow, elements@, debug, l.skip(n))) by {
        let m = l.skip(n); assert(l =~= log0 + m);
        if arrow.line_style is None { assert(m =~= m + seq![]); assert(cut(m, seq![], seq![], debug)); assert(edge_drawn(*arrow, elements@, seq![])); }
    }
}
@loop 1
invariant debug, n == log0.len(), canvas.log().len() >= n, canvas.log().take(n) == log0, marks(canvas.log().skip(n)),
@loopstart 1
let ghost l1 = canvas.log();
@loopend 1
proof {
    let m = canvas.log().skip(n); let m1 = l1.skip(n);
    assert forall|i: int| 0 <= i < m.len() implies mark(#[trigger] m[i]) by { if i < m1.len() { assert(m[i] == m1[i]); } }
    assert(canvas.log().take(n) =~= log0);
}
@end_fn
proof {
    let l2 = canvas.log().drop_last(); let m2 = l2.skip(n);
    let d = seq![Cmd::Arrow(segs(path@), dashed(*arrow), heads(*arrow), arrow.look, otext(arrow.properties), arrow.text@)];
    assert(marks(m2)); assert(l2 == log0 + m2);
    assert(path_ok(path@, elements@, *arrow));
    assert(canvas.log() =~= log0 + (m2 + d)); assert(cut(m2, d, seq![], debug)); assert(edge_drawn(*arrow, elements@, d));
    assert(edge_shown(*arrow, elements@, debug, m2 + d));
}
@file topo/layout.rs
@fn VisualGraph::render
requires edges_ok(*self),
ensures renderable(*self) ==> exists|n: Seq<Seq<Cmd>>, m: Seq<Seq<Cmd>>| final(rb).log() == old(rb).log() + n.flatten() + m.flatten() && nodes_shown(*self, self.nodes@.len() as int, debug, n) && edges_shown(*self, self.edges@.len() as int, debug, m),
@start
let ghost log0 = rb.log(); let ghost mut nd: Seq<Seq<Cmd>> = seq![]; let ghost mut ed: Seq<Seq<Cmd>> = seq![];
proof { assert(log0 =~= log0 + nd.flatten()); }
@loop 1
invariant vx_s1@ == self.nodes@, renderable(*self) ==> rb.log() == log0 + nd.flatten() && nodes_shown(*self, vx_i1 as int, debug, nd),
@loopstart 1
let ghost l1 = rb.log();
@loopend 1
proof { if renderable(*self) {
    assert(records_filled(self.nodes@[vx_i1 - 1]));
    let d = choose|d: Seq<Cmd>| rb.log() == l1 + d && #[trigger] element_shown(*node, debug, d);
    let o = nd; nd = nd.push(d); lemma_flat(o, d); assert(rb.log() =~= log0 + nd.flatten());
} }
@loopafter 1
let ghost l2 = rb.log();
proof { assert(l2 =~= l2 + ed.flatten()); }
@loop 2
invariant edges_ok(*self), vx_s2@ == self.edges@, renderable(*self) ==> rb.log() == log0 + nd.flatten() + ed.flatten() && edges_shown(*self, vx_i2 as int, debug, ed),
@loopstart 2
let ghost l1 = rb.log();
@loopend 2
proof {
    let d = choose|d: Seq<Cmd>| rb.log() == l1 + d && #[trigger] edge_shown(arrow.0, elements@, debug, d);
    assert(elements@ =~= visited(*self, vx_i2 - 1));
    if renderable(*self) { let o = ed; ed = ed.push(d); lemma_flat(o, d); assert(rb.log() =~= log0 + nd.flatten() + ed.flatten()); }
}
@before "render_arrow" 
proof { assert(elements@ =~= visited(*self, vx_i2 - 1)); assert(chain_ok(visited(*self, vx_i2 - 1))); }
@loop 3
invariant edges_ok(*self), 0 < vx_i2 <= self.edges@.len(), vx_s3@ == self.edges@[vx_i2 - 1].1@, elements@.len() == vx_i3, forall|i: int| 0 <= i < vx_i3 ==> #[trigger] elements@[i] == self.nodes@[vx_s3@[i].idx as int],
@loopstart 3
proof { assert(self.edges@[vx_i2 - 1].1@[vx_i3 - 1].idx < self.nodes@.len()); }
@end_fn
proof { if renderable(*self) { assert(nodes_shown(*self, self.nodes@.len() as int, debug, nd)); } }
