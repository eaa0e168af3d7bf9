//! P05, P06 (graph builder), P19 (record labels).
use crate::gen::ori; use crate::rng::*; use crate::{desc, Case, R};
use layout::adt::dag::NodeHandle;
use layout::core::color::Color;
use layout::core::style::StyleAttr;
use layout::gv::parser::ast::*;
use layout::gv::record::parse_record_string;
use layout::gv::GraphBuilder;
use layout::std_shapes::render::get_shape_size;
use layout::std_shapes::shapes::*;
use std::collections::BTreeMap;
type Props = BTreeMap<String, String>;
include!("colors.rs");

pub fn color(s: &str) -> u32 {
    for (n, v) in COLORS { if *n == s { return (v << 8) + 0xff } }
    if let Some(h) = s.strip_prefix('#') { if h.len() == 6 && h.chars().all(|c| c.is_ascii_hexdigit()) { return (u32::from_str_radix(h, 16).unwrap() << 8) + 0xff } if h.len() == 8 && h.chars().all(|c| c.is_ascii_hexdigit()) { return u32::from_str_radix(h, 16).unwrap() } }
    0xff
}
/// values whose meaning the statement does not fix
fn odd_color(s: &str) -> bool { s.starts_with('#') && { let h = &s[1..]; !((h.len() == 6 || h.len() == 8) && h.chars().all(|c| c.is_ascii_hexdigit())) && h.chars().all(|c| c.is_ascii_hexdigit() || c == '+' || c == '#') } }
fn norm(s: &str) -> String { let t = s.split(':').next().unwrap(); if t == "transparent" { "white".into() } else { t.into() } }
fn num(p: &Props, k: &str, d: usize) -> usize { p.get(k).and_then(|v| v.parse::<usize>().ok()).unwrap_or(d) }
fn node(p: &Props, name: &str, lr: bool) -> Element {
    let text = p.get("label").cloned().unwrap_or(name.to_string());
    let sh = p.get("shape").map(|s| s.as_str()).unwrap_or("");
    let shape = match sh { "box" => ShapeKind::Box(text), "doublecircle" => ShapeKind::DoubleCircle(text), "record" | "Mrecord" => ShapeKind::Record(parse_record_string(&text)), _ => ShapeKind::Circle(text) };
    let line = color(&norm(p.get("color").map(|s| s.as_str()).unwrap_or("black")));
    let fill = match p.get("fillcolor") { Some(f) => color(&norm(f)), None => if p.get("style").map(|s| s.as_str()) == Some("filled") { color("lightgray") } else { color("white") } };
    let fs = num(p, "fontsize", 14);
    let look = StyleAttr::new(Color::new(line), num(p, "width", 1), Some(Color::new(fill)), if sh == "Mrecord" { 15 } else { 0 }, fs);
    let size = get_shape_size(ori(!lr), &shape, fs, sh == "doublecircle");
    Element::create(shape, look, ori(!lr), size)
}
fn edge(p: &Props, arrow: bool, sp: &Option<String>, dp: &Option<String>) -> Arrow {
    let look = StyleAttr::new(Color::new(color(&norm(p.get("color").map(|s| s.as_str()).unwrap_or("black")))), num(p, "penwidth", 1), None, 0, num(p, "fontsize", 14));
    let ls = if p.get("style").map(|s| s.as_str()) == Some("dashed") { layout::core::style::LineStyleKind::Dashed } else { layout::core::style::LineStyleKind::Normal };
    Arrow::new(LineEndKind::None, if arrow { LineEndKind::Arrow } else { LineEndKind::None }, ls, p.get("label").map(|s| s.as_str()).unwrap_or(""), &look, sp, dp)
}
#[derive(Default)]
struct Model { order: Vec<String>, nodes: BTreeMap<String, Props>, edges: Vec<(String, String, Props, bool, Option<String>, Option<String>)> }
impl Model {
    fn mention(&mut self, n: &str, d: &Props) { if !self.nodes.contains_key(n) { self.order.push(n.to_string()); self.nodes.insert(n.to_string(), d.clone()); } }
    /// returns the graph attributes in force at the end of the scope
    fn scope(&mut self, l: &StmtList, mut ga: Props, mut na: Props, mut ea: Props) -> Props {
        for s in &l.list { match s {
            Stmt::Node(n) => { self.mention(&n.id.name, &na); let p = self.nodes.get_mut(&n.id.name).unwrap(); for (k, v) in &n.list.list { p.insert(k.clone(), v.clone()); } }
            Stmt::Edge(e) => {
                let mut p = ea.clone(); for (k, v) in &e.list.list { p.insert(k.clone(), v.clone()); }
                self.mention(&e.from.name, &na);
                let mut prev = e.from.clone();
                for (n, k) in &e.to { self.mention(&n.name, &na); self.edges.push((prev.name.clone(), n.name.clone(), p.clone(), matches!(k, ArrowKind::Arrow), prev.port.clone(), n.port.clone())); prev = n.clone(); }
            }
            Stmt::Attribute(a) => { let t = match a.target { AttrStmtTarget::Graph => &mut ga, AttrStmtTarget::Node => &mut na, AttrStmtTarget::Edge => &mut ea }; for (k, v) in &a.list.list { t.insert(k.clone(), v.clone()); } }
            Stmt::SubGraph(g) => { self.scope(&g.list, ga.clone(), na.clone(), ea.clone()); }
        } }
        ga
    }
}
const VALS: &[(&str, &[&str])] = &[
    ("label", &["x", "long label", "a|b", "{a|<p>b}|c", "", "é\nü"]), ("shape", &["box", "doublecircle", "record", "Mrecord", "circle", "ellipse", "BOX", "oval"]),
    ("color", &["red", "blue", "#112233", "#aAbBcC80", "nosuchcolor", "transparent", "red:blue", "#zz", ""]), ("fillcolor", &["coral", "#102030", "white", "transparent", "lime:red", "bogus"]),
    ("style", &["filled", "dashed", "bold", "Filled"]), ("fontsize", &["10", "20", "x", "-3", "", "0", "14"]), ("width", &["2", "0.5", "7", "bad"]), ("penwidth", &["3", "9", "1.5", "z"]), ("rankdir", &["LR", "TB", "lr", "RL"]), ("tooltip", &["t"])];
fn attrs(r: &mut Rng, n: usize) -> AttributeList { let mut l = AttributeList::new(); for _ in 0..n { let (k, vs) = r.pick(VALS); let v = r.pick(vs); l.add_attr(k, v); }
    // now and then a list with many names, more than the layout knows
    if r.chance(1, 12) { for i in 0..r.n(14) { l.add_attr(&format!("x{}", i), "1"); } for _ in 0..r.n(4) { let (k, vs) = r.pick(VALS); let v = r.pick(vs); l.add_attr(k, v); } }
    l }
fn nid(r: &mut Rng) -> NodeId { let p = if r.chance(1, 3) { Some(format!("p{}", r.n(3))) } else { None }; NodeId::new(["a", "b", "c", "d", "e", "f"][r.n(6)], &p) }
fn stmts(r: &mut Rng, d: usize, k: usize) -> StmtList {
    let mut l = StmtList::new();
    for _ in 0..r.k(k) { l.list.push(match r.n(if d > 0 { 10 } else { 8 }) {
        0 | 1 => { let n = r.n(3); Stmt::Node(NodeStmt::new_with_list(nid(r), attrs(r, n))) }
        2 | 3 | 4 => { let mut e = EdgeStmt::new(nid(r)); for _ in 0..1 + r.k(3) { let n = nid(r); e.insert(n, if r.chance(1, 2) { ArrowKind::Arrow } else { ArrowKind::Line }); } let n = r.n(3); e.list = attrs(r, n); Stmt::Edge(e) }
        5 | 6 | 7 => { let t = match r.n(3) { 0 => AttrStmtTarget::Graph, 1 => AttrStmtTarget::Node, _ => AttrStmtTarget::Edge }; let n = 1 + r.n(3); Stmt::Attribute(AttrStmt::new(t, attrs(r, n))) }
        _ => { let mut g = Graph::new(["", "s", "anonymous"][r.n(3)]); g.list = stmts(r, d - 1, k); Stmt::SubGraph(g) }
    }); }
    l
}
fn check(g: &Graph) -> R {
    desc(|| format!("{:?}", g));
    let mut gb = GraphBuilder::new(); gb.visit_graph(g); let vg = gb.get();
    let mut m = Model::default(); let ga = m.scope(&g.list, Props::new(), Props::new(), Props::new());
    let lr = ga.get("rankdir").map(|s| s.as_str()) == Some("LR");
    if vg.orientation().is_left_right() != lr { return Err(format!("orientation: expected LR={}", lr)) }
    if vg.num_nodes() != m.order.len() { return Err(format!("{} nodes, expected {:?}", vg.num_nodes(), m.order)) }
    for (i, n) in m.order.iter().enumerate() {
        let e = node(&m.nodes[n], n, lr); let got = vg.element(NodeHandle::new(i));
        for k in ["color", "fillcolor"] { if let Some(v) = m.nodes[n].get(k) { if odd_color(&norm(v)) { return Ok(None) } } }
        let f = |e: &Element| format!("{:?} {:?} {:?} {:?}", e.shape, e.look, e.orientation, e.properties);
        if f(&e) != f(got) { return Err(format!("node {} ({}):\n  expected {}\n  got      {}", i, n, f(&e), f(got))) }
        let (a, b) = (e.pos.size(false), got.pos.size(false));
        if (a.x - b.x).abs() > 1e-6 || (a.y - b.y).abs() > 1e-6 { return Err(format!("node {}: size {:?} expected {:?}", n, b, a)) }
    }
    #[cfg(verif_hooks)]
    {
        let es = vg.verif_edges();
        if es.len() != m.edges.len() { return Err(format!("{} edges, expected {}", es.len(), m.edges.len())) }
        for (i, x) in m.edges.iter().enumerate() {
            let p = |n: &String| m.order.iter().position(|y| y == n).unwrap();
            let ends: Vec<usize> = es[i].1.iter().map(|h| h.get_index()).collect();
            if ends != vec![p(&x.0), p(&x.1)] { return Err(format!("edge {} connects {:?}, expected {} -> {}", i, ends, x.0, x.1)) }
            let e = edge(&x.2, x.3, &x.4, &x.5);
            if format!("{:?}", e) != format!("{:?}", es[i].0) { return Err(format!("edge {}:\n  expected {:?}\n  got      {:?}", i, e, es[i].0)) }
        }
    }
    Ok(if m.edges.len() + m.order.len() > 2 { Some(hash(&format!("{:?}", g))) } else { None })
}
pub fn p05(c: &mut Case) -> R { let mut g = Graph::new("g"); let d = c.r.n(4); let k = 3 + c.r.n(3 + c.size.min(12) / 2); g.list = stmts(&mut c.r, d, k);
    // a long chain of scopes, each within the one before
    if c.r.1 > 0 { for _ in 0..c.r.n(24) { let mut o = stmts(&mut c.r, 0, 3); let mut s = Graph::new(["", "s"][c.r.n(2)]); s.list = std::mem::replace(&mut g.list, StmtList::new()); let i = c.r.n(o.list.len() + 1); o.list.insert(i, Stmt::SubGraph(s)); g.list = o; } }
    check(&g)
}
pub fn p06(c: &mut Case) -> R {
    let r = &mut c.r;
    let cv = |r: &mut Rng| -> String { match r.n(6) { 0 | 1 => r.pick(COLORS).0.to_string(), 2 => format!("#{:06x}", r.next() as u32 & 0xffffff), 3 => format!("#{:08X}", r.next() as u32), 4 => crate::gen::word(r), _ => r.pick(&["Red", "red ", "", ":", "red:blue", "#", "#ggg", "#12345g", "é", "transparent", "#éé"]).to_string() } };
    if c.idx < 148 { let (n, v) = COLORS[c.idx as usize]; let w = Color::from_name(n).map(|c| c.to_web_color()); if w != Some(format!("#{:06x}ff", v)) { return Err(format!("colour {} is {:?}, expected #{:06x}ff", n, w, v)) } return Ok(Some(c.idx)) }
    let s = cv(r);
    if !odd_color(&s) {
        desc(|| format!("colour {:?}", s));
        let w = Color::fast(&s).to_web_color(); if w != format!("#{:08x}", color(&s)) { return Err(format!("colour {:?} is drawn as {}, expected #{:08x}", s, w, color(&s))) }
    }
    let mut g = Graph::new("g");
    let mut l = AttributeList::new();
    for (k, vs) in VALS { if r.chance(1, 2) { let v = if k.ends_with("color") { cv(r) } else if (*k == "fontsize" || k.ends_with("width")) && r.chance(1, 2) { r.n(60).to_string() } else { r.pick(vs).to_string() }; l.add_attr(k, &v); } }
    let mut l2 = AttributeList::new();
    for (k, vs) in VALS { if r.chance(1, 2) { let v = if *k == "color" { cv(r) } else if (*k == "fontsize" || k.ends_with("width")) && r.chance(1, 2) { r.n(60).to_string() } else { r.pick(vs).to_string() }; l2.add_attr(k, &v); } }
    for p in l2.list.iter().chain(l.list.iter()) { if p.0.ends_with("color") && odd_color(&norm(&p.1)) { return Ok(None) } }
    if r.chance(1, 3) { let mut a = AttributeList::new(); a.add_attr("rankdir", "LR"); g.list.list.push(Stmt::Attribute(AttrStmt::new(AttrStmtTarget::Graph, a))); }
    g.list.list.push(Stmt::Node(NodeStmt::new_with_list(NodeId::new("n1", &None), l)));
    let mut e = EdgeStmt::new(NodeId::new("n1", &None)); e.insert(NodeId::new("n2", &None), ArrowKind::Arrow); e.list = l2;
    g.list.list.push(Stmt::Edge(e));
    check(&g)
}
// ---- P19: grammar: row := item*, items separated by bars or braces
#[derive(Debug)]
enum It { Text(String), Row(Vec<It>), Bar }
fn row(r: &mut Rng, d: usize) -> Vec<It> {
    let n = r.k(5); let mut v = vec![];
    for i in 0..n {
        if i > 0 { v.push(It::Bar) }
        if d > 0 && r.chance(1, 3) {
            if r.chance(1, 6) { v.push(It::Text(field(r))) }
            v.push(It::Row(row(r, d - 1)));
            if r.chance(1, 6) { v.push(It::Text(field(r))) }
        } else { v.push(It::Text(field(r))) }
    }
    v
}
fn field(r: &mut Rng) -> String {
    let b = |r: &mut Rng| " ".repeat(r.n(3));
    let t = match r.n(6) { 0 => String::new(), 1 => "x y".into(), 2 => "a>b".into(), 3 => "é\nü".into(), _ => crate::gen::word(r) };
    let (b1, b2, b3) = (b(r), b(r), b(r));
    if r.chance(1, 3) { format!("{}<f{}>{}{}{}", b1, r.n(5), b2, t, b3) } else { format!("{}{}{}", b1, t, b3) }
}
fn print(v: &[It], o: &mut String) { for i in v { match i { It::Text(s) => o.push_str(s), It::Row(x) => { o.push('{'); print(x, o); o.push('}') } It::Bar => o.push('|') } } }
fn expect(v: &[It]) -> RecordDef {
    let mut out = vec![];
    for i in v { match i {
        It::Bar => {}
        It::Row(x) => out.push(expect(x)),
        It::Text(s) => { let t = s.trim(); if t.is_empty() { continue } out.push(match t.strip_prefix('<').and_then(|u| u.find('>').map(|k| (&u[..k], &u[k + 1..]))) { Some((p, x)) => RecordDef::Text(x.trim().to_string(), Some(p.to_string())), None => RecordDef::Text(t.to_string(), None) }) }
    } }
    if out.is_empty() { RecordDef::Text(String::new(), None) } else { RecordDef::Array(out) }
}
/// items of a raw label with balanced braces
fn items(s: &[char], i: &mut usize) -> Vec<It> {
    let mut v = vec![]; let mut t = String::new();
    while *i < s.len() { let ch = s[*i]; *i += 1; match ch {
        '{' => { v.push(It::Text(std::mem::take(&mut t))); v.push(It::Row(items(s, i))) }
        '}' => break,
        '|' => { v.push(It::Text(std::mem::take(&mut t))); v.push(It::Bar) }
        c => t.push(c) } }
    v.push(It::Text(t)); v
}
pub fn p19(c: &mut Case) -> R {
    let d = c.r.k(4).min(12);
    let (s, want) = if c.idx % 2 == 0 { let v = row(&mut c.r, d); let mut s = String::new(); print(&v, &mut s); (s, expect(&v)) } else {
        let n = c.r.k(14); let mut s = String::new(); let mut depth = 0;
        let mut e = c.idx / 2;
        if c.idx < 20_000 { while e > 0 { let ch = ['|', '{', '}', 'a', ' ', '<', '>'][(e % 7) as usize]; e /= 7; if ch == '}' { if depth == 0 { continue } depth -= 1 } if ch == '{' { depth += 1 } s.push(ch); } }
        else { for _ in 0..n { match c.r.n(9) { 0 => { s.push('{'); depth += 1 } 1 => if depth > 0 { s.push('}'); depth -= 1 }, 2 | 3 => s.push('|'), 4 => s.push(' '), 5 => s.push_str("<p>"), 6 => s.push(*c.r.pick(&['<', '>', '\n', 'é'])), _ => s.push('x') } } }
        for _ in 0..depth { s.push('}') }
        let k: Vec<char> = s.chars().collect(); let mut i = 0; let v = items(&k, &mut i);
        (s, expect(&v))
    };
    desc(|| format!("label: {:?}", s));
    let got = parse_record_string(&s);
    if format!("{:?}", got) != format!("{:?}", want) { return Err(format!("fields differ\n  expected {:?}\n  got      {:?}", want, got)) }
    let rb = layout::gv::record::record_builder(&s);
    if format!("{:?}", rb) != format!("{:?}", ShapeKind::Record(want)) { return Err("record_builder differs from parse_record_string".into()) }
    Ok(if s.len() > 2 { Some(hash(&s)) } else { None })
}
