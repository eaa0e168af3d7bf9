//! P16 edge paths, P20 record tiling, P24 everything is drawn once.
use crate::cap::*; use crate::gen::*; use crate::rng::*; use crate::{desc, Case, R};
use layout::core::base::Orientation;
use layout::core::format::{Renderable, Visible};
use layout::core::geometry::*;
use layout::core::style::{LineStyleKind, StyleAttr};
use layout::std_shapes::render::*;
use layout::std_shapes::shapes::*;

fn tol(a: f64) -> f64 { 1e-6 * (1.0 + a.abs()) }
pub fn text_size(t: &str, font: usize) -> Point {
    let w = t.lines().map(|l| l.chars().count()).max().unwrap_or(0).max(1); let h = t.lines().count().max(1);
    Point::new((w * font) as f64, (h * font) as f64)
}
/// One record level starting at ops[*k]: its own box, then its text or its fields.
/// Returns the top left corner and the size of the box. Leaves are collected in order.
pub fn level(rec: &RecordDef, horizontal: bool, want: Option<(Point, Point)>, ops: &[Op], k: &mut usize, look: &str, clip: Option<usize>, leaves: &mut Vec<(Option<String>, Point, Point, String)>) -> Result<(Point, Point), String> {
    let (xy, size) = match ops.get(*k) { Some(Op::Rect { xy, size, look: l, props, clip: c }) => { if l != look { return Err(format!("field box has style {} instead of {}", l, look)) } if *c != clip { return Err(format!("field box has clip {:?} instead of {:?}", c, clip)) } if props.is_some() { return Err("an inner box carries properties".into()) } (*xy, *size) } o => return Err(format!("expected the box of a field, got {:?}", o)) };
    *k += 1;
    if let Some((p, s)) = want { if !pclose(p, xy) || !pclose(s, size) { return Err(format!("record box is {:?} {:?} instead of {:?} {:?}", xy, size, p, s)) } }
    match rec {
        RecordDef::Text(t, port) => {
            match ops.get(*k) { Some(Op::Text { xy: c, text, look: l }) => { if text != t { return Err(format!("field text {:?} instead of {:?}", text, t)) } if l != look { return Err("field text style".into()) } let m = Point::new(xy.x + size.x / 2., xy.y + size.y / 2.); if (c.x - m.x).abs() > tol(size.x) || (c.y - m.y).abs() > tol(size.y) { return Err(format!("text {:?} is at {:?}, the middle of its field is {:?}", t, c, m)) } } o => return Err(format!("expected the text {:?}, got {:?}", t, o)) }
            *k += 1; leaves.push((port.clone(), xy, size, t.clone()));
        }
        RecordDef::Array(v) => {
            let mut at = if horizontal { xy.x } else { xy.y };
            for f in v {
                let (p, s) = level(f, !horizontal, None, ops, k, look, clip, leaves)?;
                let t = tol(size.x.max(size.y));
                let (a, w, b, hgt, b0, h0) = if horizontal { (p.x, s.x, p.y, s.y, xy.y, size.y) } else { (p.y, s.y, p.x, s.x, xy.x, size.x) };
                if (a - at).abs() > t { return Err(format!("field {:?} starts at {} and not at {}", f, a, at)) }
                if (b - b0).abs() > t || (hgt - h0).abs() > t { return Err(format!("field {:?} spans {}+{} across, its box {}+{}", f, b, hgt, b0, h0)) }
                if w < 0. { return Err("negative field size".into()) }
                at += w;
            }
            let end = if horizontal { xy.x + size.x } else { xy.y + size.y };
            if !v.is_empty() && (end - at).abs() > tol(size.x.max(size.y)) { return Err(format!("the fields end at {} and not at {}", at, end)) }
        }
    }
    Ok((xy, size))
}
pub fn with_no_round(l: &StyleAttr) -> String { let mut l = l.clone(); l.rounded = 0; lk(&l) }
/// The whole record: optional clip region, fields, outline.
pub fn record_ops(rec: &RecordDef, e: &Element, ops: &[Op], k: &mut usize, clips: &mut usize) -> Result<Vec<(Option<String>, Point, Point, String)>, String> {
    let (xy, size) = (e.pos.bbox(false).0, e.pos.size(false));
    let mut clip = None;
    if e.look.rounded > 0 {
        match ops.get(*k) { Some(Op::Clip { xy: p, size: s, .. }) => { if !pclose(*p, xy) || !pclose(*s, size) { return Err("the clip region is not the box of the record".into()) } clip = Some(*clips); *clips += 1; *k += 1; } o => return Err(format!("no clip region for a rounded record: {:?}", o)) }
    }
    let mut lv = vec![];
    level(rec, e.orientation.is_left_right(), Some((xy, size)), ops, k, &with_no_round(&e.look), clip, &mut lv)?;
    let mut l = e.look.clone(); l.fill_color = None;
    let want = Op::Rect { xy, size, look: lk(&l), props: e.properties.clone(), clip: None };
    match ops.get(*k) { Some(o) if op_eq(o, &want) => {} o => return Err(format!("record outline: expected {:?}, got {:?}", want, o)) }
    *k += 1;
    Ok(lv)
}
fn place(r: &mut Rng, e: &mut Element, span: i64) { let p = Point::new(r.range(-span, span) as f64 + if r.chance(1, 3) { 0.25 } else { 0. }, r.range(-span, span) as f64); e.move_to(p) }
pub fn p20(c: &mut Case) -> R {
    let dir = ori(c.r.chance(1, 2)); let rec = { let d = 1 + c.r.n(4); record(&mut c.r, d) }; let l = look(&mut c.r);
    let natural = c.r.chance(2, 3); let sq = c.r.chance(1, 6);
    let shape = ShapeKind::Record(rec.clone());
    let nat = get_shape_size(dir, &shape, l.font_size, sq);
    let sz = if natural { nat } else { let m = c.r.n(3); size(&mut c.r, m) };
    let mut e = Element::create(shape, l, dir, sz); if c.r.chance(1, 2) { e.properties = Some("k=\"v\"".into()) }
    place(&mut c.r, &mut e, 1000);
    desc(|| format!("{:?}\nnatural size: {}", e, natural));
    let mut cap = Cap::default(); e.render(false, &mut cap);
    let mut k = 0; let mut clips = 0;
    let lv = record_ops(&rec, &e, &cap.ops, &mut k, &mut clips)?;
    if k != cap.ops.len() { return Err(format!("unexpected operation {:?}", cap.ops[k])) }
    if natural {
        for (_, _, s, t) in &lv { let w = text_size(t, e.look.font_size); if s.x < w.x - tol(w.x) || s.y < w.y - tol(w.y) { return Err(format!("the field of {:?} has size {:?}, its text needs {:?}", t, s, w)) } }
    }
    Ok(if lv.len() > 1 { Some(hash(&format!("{:?}", e))) } else { None })
}
fn on_box(p: Point, xy: Point, s: Point) -> bool {
    let t = tol(s.x.abs() + s.y.abs() + xy.x.abs() + xy.y.abs());
    let (x0, y0, x1, y1) = (xy.x, xy.y, xy.x + s.x, xy.y + s.y);
    let inx = p.x >= x0 - t && p.x <= x1 + t; let iny = p.y >= y0 - t && p.y <= y1 + t;
    (inx && iny) && ((p.x - x0).abs() <= t || (p.x - x1).abs() <= t || (p.y - y0).abs() <= t || (p.y - y1).abs() <= t)
}
pub fn on_outline(e: &Element, port: &Option<String>, p: Point) -> Result<(), String> {
    if !p.x.is_finite() || !p.y.is_finite() { return Err(format!("the end point {:?} is no point", p)) }
    let (xy, s) = (e.pos.bbox(false).0, e.pos.size(false));
    match &e.shape {
        ShapeKind::Box(_) => if !on_box(p, xy, s) { return Err(format!("{:?} is not on the box {:?} {:?}", p, xy, s)) },
        ShapeKind::Circle(_) | ShapeKind::DoubleCircle(_) => {
            let c = e.pos.center(); let (u, v) = ((p.x - c.x) / (s.x / 2.), (p.y - c.y) / (s.y / 2.));
            let slack = 1e-6 + 1e-12 * (c.x.abs() + c.y.abs()) / s.x.min(s.y);
            if ((u * u + v * v) - 1.).abs() > slack { return Err(format!("{:?} is not on the ellipse {:?} {:?}", p, c, s)) }
        }
        ShapeKind::Record(rec) => {
            let mut cap = Cap::default(); e.render(false, &mut cap); let mut k = 0; let mut cl = 0; let lv = record_ops(rec, e, &cap.ops, &mut k, &mut cl)?;
            let m: Vec<_> = lv.iter().filter(|l| port.is_some() && l.0 == *port).collect();
            if m.is_empty() { if !on_box(p, xy, s) { return Err(format!("{:?} is not on the record {:?} {:?}", p, xy, s)) } }
            else if !m.iter().any(|l| on_box(p, l.1, l.2)) { return Err(format!("{:?} is not on the field of port {:?}: {:?}", p, port, m)) }
        }
        _ => {}
    }
    Ok(())
}
fn dashed(k: LineStyleKind) -> Option<bool> { match k { LineStyleKind::None => None, LineStyleKind::Normal => Some(false), LineStyleKind::Dashed | LineStyleKind::Dotted => Some(true) } }
fn heads(a: &Arrow) -> (bool, bool) { (matches!(a.start, LineEndKind::Arrow), matches!(a.end, LineEndKind::Arrow)) }
pub fn p16(c: &mut Case) -> R {
    if c.idx % 8 == 7 {
        // whole graphs: the edges, reversed ones included, as they are drawn after a layout
        let o = Opt { max_n: 2 + c.size, labels: c.r.chance(2, 3), selfs: c.r.chance(1, 2), none_shape: false, natural: c.r.chance(1, 2) };
        let g = graph(&mut c.r, &o); let no_opt = c.r.chance(1, 3);
        desc(|| format!("{}optimisation disabled: {}", show(&g), no_opt));
        let mut vg = build(&g); let mut cap = Cap::default(); vg.do_it(false, no_opt, false, &mut cap);
        let arrows: Vec<Op> = cap.ops.iter().filter(|o| matches!(o, Op::Arrow { .. })).cloned().collect();
        edges_drawn(&g, &vg, &arrows)?;
        return Ok(ghash(&g));
    }
    let n = 2 + c.r.n(4); let dir = ori(c.r.chance(1, 2)); let mut es: Vec<Element> = vec![];
    let span = *c.r.pick(&[5i64, 60, 600, 3000]);
    for i in 0..n {
        let mut e = if i == 0 || i == n - 1 {
            let mut s = shape(&mut c.r); if let ShapeKind::None = s { s = ShapeKind::new_circle("c") }
            let l = look(&mut c.r); let m = c.r.n(3);
            let sz = if c.r.chance(1, 2) { get_shape_size(dir, &s, l.font_size, false) } else { let mut z = size(&mut c.r, m); if m == 2 { z = Point::new(z.x.max(1.), z.y.max(1.)) } z };
            Element::create(s, l, dir, sz)
        } else { let l = look(&mut c.r); let t = if c.r.chance(1, 3) { label(&mut c.r) } else { String::new() }; let mut k = Element::create_connector(&t, &l, dir); k.resize(); k };
        place(&mut c.r, &mut e, span);
        if i > 0 && c.r.chance(1, 3) { let q = es[i - 1].pos.center(); let p = e.pos.center(); match c.r.n(3) { 0 => e.move_to(Point::new(q.x, p.y)), 1 => e.move_to(Point::new(p.x, q.y)), _ => e.move_to(q) } }
        es.push(e);
    }
    if n == 3 && c.r.chance(1, 4) { es[2] = es[0].clone(); }
    let a = arrow(&mut c.r, 7, true);
    desc(|| format!("elements {:#?}\narrow {:?}", es, a));
    let mut cap = Cap::default(); render_arrow(&mut cap, false, &es, &a);
    let d = match dashed(a.line_style) { None => { if !cap.ops.is_empty() { return Err("an invisible edge was drawn".into()) } return Ok(None) } Some(d) => d };
    if cap.ops.len() != 1 { return Err(format!("{} operations for one edge", cap.ops.len())) }
    if let Op::Arrow { path, dashed, head, look, props, text } = &cap.ops[0] {
        if path.len() != n { return Err(format!("{} points for {} elements", path.len(), n)) }
        if *dashed != d { return Err(format!("line style {:?} was drawn with dashes: {}", a.line_style, dashed)) }
        if *head != heads(&a) { return Err(format!("heads {:?} instead of {:?}", head, heads(&a))) }
        if *look != lk(&a.look) { return Err("the style of the edge changed".into()) }
        if *props != a.properties { return Err("the properties of the edge changed".into()) }
        if *text != a.text { return Err("the text of the edge changed".into()) }
        on_outline(&es[0], &a.src_port, path[0].0)?;
        on_outline(&es[n - 1], &a.dst_port, path[n - 1].1)?;
        for i in 1..n - 1 { if !pclose(path[i].1, es[i].pos.center()) { return Err(format!("point {} of the path is {:?}, the connector is at {:?}", i, path[i].1, es[i].pos.center())) } }
        for p in path { for q in [p.0, p.1] { if !q.x.is_finite() || !q.y.is_finite() { return Err(format!("the path has the point {:?}", q)) } } }
    } else { return Err("not an arrow".into()) }
    Ok(Some(hash(&format!("{:?} {:?}", es, a))))
}
fn handles_of(vg: &layout::topo::layout::VisualGraph, tag: &str) -> Option<Vec<usize>> {
    #[cfg(verif_hooks)]
    { return vg.verif_edges().iter().find(|e| e.0.properties.as_deref() == Some(tag)).map(|e| e.1.iter().map(|h| h.get_index()).collect()); }
    #[cfg(not(verif_hooks))]
    { let _ = (vg, tag); None }
}
/// every edge of `g` is drawn once by `ops`, as it was declared, between its shapes and through its connectors
fn edges_drawn(g: &G, vg: &layout::topo::layout::VisualGraph, ops: &[Op]) -> Result<(), String> {
    let mut seen = vec![false; g.edges.len()];
    for o in ops {
        let (path, dash, head, look, props, text) = match o { Op::Arrow { path, dashed, head, look, props, text } => (path, dashed, head, look, props, text), o => return Err(format!("unexpected operation {:?}", o)) };
        let tag = props.clone().unwrap_or_default();
        let i = match g.edges.iter().position(|e| e.arrow.properties.as_deref() == Some(&tag[..])) { Some(i) => i, None => return Err(format!("unknown edge properties {:?}", props)) };
        if seen[i] { return Err(format!("edge {} is drawn twice", i)) } seen[i] = true;
        let e = &g.edges[i]; let a = &e.arrow;
        match dashed(a.line_style) { None => return Err(format!("invisible edge {} is drawn", i)), Some(d) => if d != *dash { return Err(format!("edge {} has the wrong dash style", i)) } }
        if *look != lk(&a.look) { return Err(format!("edge {} has the wrong style", i)) }
        if !text.is_empty() { return Err(format!("edge {} is drawn with the text {:?}", i, text)) }
        let hd = heads(a); let rev = (hd.1, hd.0);
        let hs = handles_of(vg, &tag);
        let flipped = match &hs { Some(v) => v[0] != e.from, None => *head != hd };
        if *head != if flipped { rev } else { hd } { return Err(format!("edge {} has the heads {:?}, declared {:?}, reversed: {}", i, head, hd, flipped)) }
        let (f, t) = if flipped { (e.to, e.from) } else { (e.from, e.to) };
        let (sp, dp) = if flipped { (&a.dst_port, &a.src_port) } else { (&a.src_port, &a.dst_port) };
        let el = |i: usize| vg.element(layout::adt::dag::NodeHandle::new(i)).clone();
        on_outline(&el(f), sp, path[0].0).map_err(|m| format!("edge {}: {}", i, m))?;
        on_outline(&el(t), dp, path[path.len() - 1].1).map_err(|m| format!("edge {}: {}", i, m))?;
        if let Some(v) = &hs {
            if path.len() != v.len() { return Err(format!("edge {} has {} points for {} elements", i, path.len(), v.len())) }
            for j in 1..v.len() - 1 { let q = el(v[j]).pos.center(); if !pclose(path[j].1, q) { return Err(format!("edge {} passes {:?} instead of its connector at {:?}", i, path[j].1, q)) } }
        }
    }
    for (i, e) in g.edges.iter().enumerate() { if !seen[i] && dashed(e.arrow.line_style).is_some() { return Err(format!("edge {} is not drawn", i)) } }
    Ok(())
}
pub fn p24(c: &mut Case) -> R {
    let o = Opt { max_n: 2 + c.size, labels: c.r.chance(2, 3), selfs: c.r.chance(2, 3), none_shape: false, natural: c.r.chance(1, 2) };
    let g = graph(&mut c.r, &o); let (no_opt, no_layout) = (c.r.chance(1, 3), c.r.chance(1, 3));
    desc(|| format!("{}optimisation disabled: {}, layout disabled: {}", show(&g), no_opt, no_layout));
    let mut vg = build(&g); let mut cap = Cap::default(); vg.do_it(false, no_opt, no_layout, &mut cap);
    let ops = &cap.ops; let (mut k, mut clips) = (0, 0);
    let total = vg.num_nodes(); let mut labels: Vec<String> = vec![];
    for i in 0..total {
        let e = vg.element(layout::adt::dag::NodeHandle::new(i)).clone();
        if i < g.nodes.len() {
            let w = &g.nodes[i];
            if !pclose(e.pos.size(false), w.size) || lk(&e.look) != lk(&w.look) || e.properties != w.props || format!("{:?}", e.shape) != format!("{:?}", w.shape) || e.orientation.is_left_right() != w.dir.is_left_right() { return Err(format!("node {} was declared as {:?} and ended as {:?}", i, w, e)) }
        }
        let (xy, size, ctr) = (e.pos.bbox(false).0, e.pos.size(false), e.pos.center());
        let mut exp: Vec<Op> = vec![];
        let t = |t: &String, p: Point| Op::Text { xy: p, text: t.clone(), look: lk(&e.look) };
        match &e.shape {
            ShapeKind::Box(s) => { exp.push(Op::Rect { xy, size, look: lk(&e.look), props: e.properties.clone(), clip: None }); exp.push(t(s, ctr)) }
            ShapeKind::Circle(s) => { exp.push(Op::Circle { xy: ctr, size, look: lk(&e.look), props: e.properties.clone() }); exp.push(t(s, ctr)) }
            ShapeKind::DoubleCircle(s) => {
                exp.push(Op::Circle { xy: ctr, size, look: lk(&e.look), props: e.properties.clone() });
                match ops.get(k + 1) { Some(Op::Circle { xy: p, size: s2, look: l2, props: None }) if pclose(*p, ctr) && *l2 == lk(&e.look) && s2.x < size.x && s2.y < size.y => exp.push(ops[k + 1].clone()), o => return Err(format!("the inner circle of node {} is {:?}", i, o)) }
                exp.push(t(s, ctr))
            }
            ShapeKind::Record(rec) => { record_ops(rec, &e, ops, &mut k, &mut clips).map_err(|m| format!("node {}: {}", i, m))?; }
            ShapeKind::Connector(Some(s)) => { exp.push(t(s, e.pos.middle())); labels.push(s.clone()) }
            _ => {}
        }
        for x in exp { match ops.get(k) { Some(y) if op_eq(&x, y) => {} y => return Err(format!("node {}: expected {:?}, got {:?}", i, x, y)) } k += 1; }
    }
    let mut want: Vec<String> = g.edges.iter().map(|e| e.arrow.text.clone()).filter(|t| !t.is_empty()).collect(); want.sort(); labels.sort();
    if want != labels { return Err(format!("the edge labels {:?} were drawn as {:?}", want, labels)) }
    edges_drawn(&g, &vg, &ops[k..])?;
    let mut v2 = build(&g); let mut dbg = Cap::default(); v2.do_it(true, no_opt, no_layout, &mut dbg);
    let mut j = 0; for o in ops { while j < dbg.ops.len() && !op_eq(&dbg.ops[j], o) { j += 1 } if j == dbg.ops.len() { return Err(format!("debug mode does not draw {:?}", o)) } j += 1; }
    for o in &dbg.ops { if let Op::Text { .. } | Op::Arrow { .. } = o { if !ops.iter().any(|x| op_eq(x, o)) { return Err(format!("only debug mode draws {:?}", o)) } } }
    let nt = |v: &Vec<Op>| v.iter().filter(|o| matches!(o, Op::Text { .. } | Op::Arrow { .. })).count();
    if nt(ops) != nt(&dbg.ops) { return Err("debug mode draws a text or an edge twice".into()) }
    Ok(ghash(&g))
}
#[allow(dead_code)] fn _o(_: Orientation) {}
