//! Random graphs for the layout pipeline.
use crate::rng::Rng;
use layout::adt::dag::NodeHandle;
use layout::core::base::Orientation;
use layout::core::color::Color;
use layout::core::geometry::Point;
use layout::core::style::{LineStyleKind, StyleAttr};
use layout::std_shapes::render::get_shape_size;
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;

#[derive(Clone, Debug)]
pub struct N { pub shape: ShapeKind, pub size: Point, pub look: StyleAttr, pub props: Option<String>, pub dir: Orientation }
#[derive(Clone, Debug)]
pub struct E { pub from: usize, pub to: usize, pub arrow: Arrow }
#[derive(Clone, Debug)]
pub struct G { pub lr: bool, pub nodes: Vec<N>, pub edges: Vec<E> }

pub fn ori(lr: bool) -> Orientation { if lr { Orientation::LeftToRight } else { Orientation::TopToBottom } }
pub fn look(r: &mut Rng) -> StyleAttr {
    let mut fs = *r.pick(&[14usize, 15, 8, 30, 1]); if r.1 > 0 && r.n(3) == 0 { fs = 1 + r.n(200) }
    StyleAttr::new(Color::new(r.next() as u32), r.k(4), if r.chance(1, 4) { None } else { Some(Color::new(r.next() as u32)) }, if r.chance(1, 5) { 15 } else { 0 }, fs)
}
pub fn word(r: &mut Rng) -> String { let n = 1 + r.k(6); (0..n).map(|_| (b'a' + r.n(26) as u8) as char).collect() }
pub fn label(r: &mut Rng) -> String {
    if r.chance(1, 12) { return r.pick(&[" ", "  ", "\n", " \n ", "\u{a0}"]).to_string(); }
    let n = r.k(4); let mut s = word(r);
    for _ in 0..n { match r.n(4) { 0 => s.push_str(["\n", "\n", "\n\n", " \n\n\n"][r.n(4)]), 1 => s.push(' '), 2 => s.push_str("äß"), _ => {} } s.push_str(&word(r)); }
    s
}
pub fn port(r: &mut Rng) -> String { r.pick(&["p0", "p1", "p2", "p3", "p", "p10", "p11", "P1", ""]).to_string() }
pub fn record(r: &mut Rng, depth: usize) -> RecordDef {
    if depth == 0 || r.chance(1, 2) {
        let t = if r.chance(1, 8) { String::new() } else { label(r) };
        return RecordDef::Text(t, if r.chance(1, 2) { Some(port(r)) } else { None });
    }
    let n = 1 + r.k(4);
    RecordDef::Array((0..n).map(|_| record(r, depth - 1)).collect())
}
pub fn shape(r: &mut Rng) -> ShapeKind {
    match r.n(8) { 0 | 1 => ShapeKind::Box(label(r)), 2 | 3 => ShapeKind::Circle(label(r)), 4 => ShapeKind::DoubleCircle(label(r)), 5 | 6 => ShapeKind::Record(record(r, 3)), _ => if r.chance(1, 4) { ShapeKind::None } else { ShapeKind::Box(String::new()) } }
}
pub fn size(r: &mut Rng, mode: usize) -> Point {
    let mut s = || match mode { 0 => (10 + r.n(200)) as f64, 1 => (100 + r.n(20000)) as f64 / 97.0, _ => 10f64.powi(r.n(7) as i32 - 2) * (1.0 + r.n(1000) as f64 / 1000.0) };
    Point::new(s(), s())
}
pub fn arrow(r: &mut Rng, i: usize, labels: bool) -> Arrow {
    let ek = |r: &mut Rng| if r.chance(1, 2) { LineEndKind::Arrow } else { LineEndKind::None };
    let (s, e) = (ek(r), ek(r));
    let st = *r.pick(&[LineStyleKind::Normal, LineStyleKind::Normal, LineStyleKind::Dashed, LineStyleKind::Dotted, LineStyleKind::None]);
    let t = if labels && r.chance(1, 3) { label(r) } else { String::new() };
    let p = |r: &mut Rng| if r.chance(1, 4) { Some(port(r)) } else { None };
    let (sp, dp) = (p(r), p(r));
    // a plain statement of what the edge is; `edge_of` makes it with a constructor
    Arrow { start: s, end: e, line_style: st, text: t, look: look(r), properties: Some(format!("id=\"t{}\"", i)), src_port: sp, dst_port: dp }
}
/// kind of topology is chosen at random; n nodes at most
pub fn pairs(r: &mut Rng, n: usize) -> Vec<(usize, usize)> {
    let mut v = vec![];
    match r.n(8) {
        0 => { for i in 1..n { v.push((i - 1, i)); } for _ in 0..r.n(n + 1) { v.push((r.n(n), r.n(n))); } }
        1 => { for i in 0..n { v.push((i, (i + 1) % n)); } for _ in 0..r.n(3) { v.push((r.n(n), r.n(n))); } }
        2 => { for i in 1..n { v.push((r.n(i), i)); } for _ in 0..r.n(4) { v.push((r.n(n), r.n(n))); } }
        3 => { let k = 1 + r.n(3 * n); for _ in 0..k { v.push((r.n(n), r.n(n))); } }
        4 => { for i in 0..n { for j in i + 1..n { if r.chance(1, 2) { v.push((i, j)); } } } }
        5 => { let h = (n / 2).max(1); for i in 0..h { for j in h..n { if r.chance(1, 2) { v.push((i, j)); } } } }
        6 => { let k = r.n(n + 2); for _ in 0..k { let a = r.n(n); let b = r.n(n); for _ in 0..1 + r.n(3) { v.push((a, b)); } } }
        _ => { let k = r.n(2 * n); for _ in 0..k { let a = r.n(n); if r.chance(1, 3) { v.push((a, a)) } else { v.push((a, r.n(n))) } } }
    }
    if r.1 > 0 && r.n(3) == 0 { let h = n / 3 + 1; for _ in 0..r.n(60) { v.push((r.n(h), r.n(n))); } }
    v.truncate(if r.1 > 0 { 100 } else { 40 });
    v
}
pub struct Opt { pub max_n: usize, pub labels: bool, pub selfs: bool, pub none_shape: bool, pub natural: bool }
pub fn graph(r: &mut Rng, o: &Opt) -> G {
    let n = 1 + r.n(o.max_n);
    let lr = r.chance(1, 3);
    let mode = r.n(3);
    let nodes = (0..n).map(|i| {
        let mut s = shape(r);
        if !o.none_shape { if let ShapeKind::None = s { s = ShapeKind::new_box("n"); } }
        let l = look(r);
        let dir = ori(!lr);
        let sz = if o.natural || r.chance(1, 3) { get_shape_size(dir, &s, l.font_size, r.chance(1, 5)) } else { size(r, mode) };
        N { shape: s, size: sz, look: l, props: if r.chance(1, 3) { Some(format!("id=\"n{}\"", i)) } else { None }, dir }
    }).collect();
    let mut ps = pairs(r, n);
    if !o.selfs { ps.retain(|p| p.0 != p.1); }
    let edges = ps.into_iter().enumerate().map(|(i, (a, b))| E { from: a, to: b, arrow: arrow(r, i, o.labels) }).collect();
    G { lr, nodes, edges }
}
/// the same shape, from the library's constructors
pub fn shape_of(s: &ShapeKind) -> ShapeKind {
    match s { ShapeKind::Box(t) => ShapeKind::new_box(t), ShapeKind::Circle(t) => ShapeKind::new_circle(t), ShapeKind::DoubleCircle(t) => ShapeKind::new_double_circle(t), ShapeKind::Record(d) => ShapeKind::new_record(&rec_of(d)), o => o.clone() }
}
fn rec_of(d: &RecordDef) -> RecordDef {
    match d { RecordDef::Text(t, None) => RecordDef::new_text(t), RecordDef::Text(t, Some(p)) => RecordDef::new_text_with_port(t, p), RecordDef::Array(v) => RecordDef::Array(v.iter().map(rec_of).collect()) }
}
/// the same edge, from the library's constructors
pub fn edge_of(a: &Arrow) -> Arrow {
    match &a.properties {
        Some(p) => Arrow::with_properties(a.start, a.end, a.line_style, &a.text, &a.look, p.clone(), &a.src_port, &a.dst_port),
        None => Arrow::new(a.start, a.end, a.line_style, &a.text, &a.look, &a.src_port, &a.dst_port),
    }
}
pub fn build(g: &G) -> VisualGraph {
    let mut vg = VisualGraph::new(ori(g.lr));
    for n in &g.nodes {
        vg.add_node(match &n.props {
            Some(p) => Element::create_with_properties(shape_of(&n.shape), n.look.clone(), n.dir, n.size, p.clone()),
            None => Element::create(shape_of(&n.shape), n.look.clone(), n.dir, n.size),
        });
    }
    for e in &g.edges { vg.add_edge(edge_of(&e.arrow), NodeHandle::new(e.from), NodeHandle::new(e.to)); }
    vg
}
pub fn show(g: &G) -> String {
    let mut s = format!("graph {}\n", if g.lr { "LR" } else { "TB" });
    for (i, n) in g.nodes.iter().enumerate() { s += &format!("  node {} {:?} size ({}, {}) font {} rounded {} props {:?}\n", i, n.shape, n.size.x, n.size.y, n.look.font_size, n.look.rounded, n.props); }
    for e in &g.edges { s += &format!("  edge {} -> {} text {:?} {:?} {:?} {:?} ports {:?} {:?} {:?}\n", e.from, e.to, e.arrow.text, e.arrow.line_style, e.arrow.start, e.arrow.end, e.arrow.src_port, e.arrow.dst_port, e.arrow.properties); }
    s
}
pub fn ghash(g: &G) -> Option<u64> { if g.edges.is_empty() || g.nodes.len() < 2 { None } else { Some(crate::rng::hash(&show(g))) } }
