//! P21-P23 and P27 the SVG output, P26 saving it.
use crate::gen::*; use crate::rng::*; use crate::topo::some_graph; use crate::{desc, Case, R};
use layout::backends::svg::SVGWriter;
use layout::core::color::Color;
use layout::core::format::RenderBackend;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use layout::core::utils::save_to_file;
use layout::std_shapes::shapes::*;

#[derive(Debug, Clone)]
pub enum X { El(String, Vec<(String, String)>, Vec<X>), Tx(String) }
struct P<'a> { s: &'a [char], i: usize }
impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> Result<T, String> { let a = self.i.saturating_sub(40); let b = (self.i + 40).min(self.s.len()); Err(format!("not well-formed: {} near {:?}", m, self.s[a..b].iter().collect::<String>())) }
    fn at(&self, t: &str) -> bool { let t: Vec<char> = t.chars().collect(); self.s.len() >= self.i + t.len() && self.s[self.i..self.i + t.len()] == t[..] }
    fn ws(&mut self) { while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() { self.i += 1 } }
    fn name(&mut self) -> Result<String, String> { let a = self.i; while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || "-_:".contains(self.s[self.i])) { self.i += 1 } if a == self.i || !(self.s[a].is_ascii_alphabetic() || self.s[a] == '_') { return self.err("name expected") } Ok(self.s[a..self.i].iter().collect()) }
    fn text(&mut self, end: &[char]) -> Result<String, String> {
        let mut o = String::new();
        while self.i < self.s.len() && !end.contains(&self.s[self.i]) {
            let c = self.s[self.i];
            if c == '<' { return self.err("< in a value") }
            if c == '&' {
                let mut j = self.i + 1; while j < self.s.len() && self.s[j] != ';' && j < self.i + 12 { j += 1 }
                if j >= self.s.len() || self.s[j] != ';' { return self.err("bare &") }
                let n: String = self.s[self.i + 1..j].iter().collect();
                o.push(match &n[..] { "amp" => '&', "lt" => '<', "gt" => '>', "quot" => '"', "apos" => '\'', _ => { let v = if let Some(h) = n.strip_prefix("#x") { u32::from_str_radix(h, 16).ok() } else if let Some(d) = n.strip_prefix('#') { d.parse().ok() } else { None }; match v.and_then(char::from_u32) { Some(c) => c, None => return self.err("unknown entity") } } });
                self.i = j + 1; continue;
            }
            if c == ']' && self.at("]]>") { return self.err("]]> in text") }
            o.push(c); self.i += 1;
        }
        Ok(o)
    }
    fn el(&mut self, depth: usize) -> Result<X, String> {
        if !self.at("<") || depth > 50 { return self.err("element expected") } self.i += 1;
        let n = self.name()?; let mut at: Vec<(String, String)> = vec![];
        loop {
            let b = self.i; self.ws();
            if self.at("/>") { self.i += 2; return Ok(X::El(n, at, vec![])) }
            if self.at(">") { self.i += 1; break }
            if b == self.i { return self.err("space expected between attributes") }
            let k = self.name()?; self.ws(); if !self.at("=") { return self.err("= expected") } self.i += 1; self.ws();
            if !self.at("\"") && !self.at("'") { return self.err("quote expected") }
            let q = self.s[self.i]; self.i += 1; let v = self.text(&[q])?; if self.i >= self.s.len() { return self.err("open attribute value") } self.i += 1;
            if at.iter().any(|a| a.0 == k) { return self.err("attribute given twice") } at.push((k, v));
        }
        let mut ch = vec![];
        loop {
            let t = self.text(&['<'])?; if !t.is_empty() { ch.push(X::Tx(t)) }
            if self.i >= self.s.len() { return self.err(&format!("element {} is not closed", n)) }
            if self.at("</") { self.i += 2; let m = self.name()?; self.ws(); if m != n { return self.err(&format!("{} closed by {}", n, m)) } if !self.at(">") { return self.err("> expected") } self.i += 1; return Ok(X::El(n, at, ch)) }
            ch.push(self.el(depth + 1)?);
        }
    }
}
pub fn parse(s: &str) -> Result<X, String> {
    let head = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>";
    if !s.starts_with("<?xml version=\"1.0\"") { return Err("the output does not start with an XML header".into()) }
    let e = s.find("?>").ok_or("unterminated XML header")? + 2; let _ = head;
    for c in s.chars() { let u = c as u32; if (u < 32 && c != '\n' && c != '\t' && c != '\r') || u == 0xfffe || u == 0xffff { return Err(format!("character {:?} is not allowed in XML", c)) } }
    let v: Vec<char> = s[e..].chars().collect(); let mut p = P { s: &v, i: 0 };
    p.ws(); let r = p.el(0)?; p.ws(); if p.i != v.len() { return p.err("text after the root element") }
    Ok(r)
}
impl X {
    pub fn name(&self) -> &str { if let X::El(n, _, _) = self { n } else { "" } }
    pub fn a(&self, k: &str) -> Option<&str> { if let X::El(_, a, _) = self { a.iter().find(|x| x.0 == k).map(|x| &x.1[..]) } else { None } }
    pub fn kids(&self) -> &[X] { if let X::El(_, _, c) = self { c } else { &[] } }
    pub fn all<'a>(&'a self, o: &mut Vec<&'a X>) { o.push(self); for k in self.kids() { if let X::El(..) = k { k.all(o) } } }
    pub fn txt(&self) -> String { match self { X::Tx(t) => t.clone(), X::El(_, _, c) => c.iter().map(|x| x.txt()).collect() } }
}
/// root, definitions, styles, content; gives every element in document order
fn structure(s: &str) -> Result<X, String> {
    let r = parse(s)?;
    if r.name() != "svg" || r.a("xmlns") != Some("http://www.w3.org/2000/svg") { return Err("the root element is not an SVG image".into()) }
    let els: Vec<&X> = r.kids().iter().filter(|k| matches!(k, X::El(..))).collect();
    for (i, n) in ["defs", "style"].iter().enumerate() { if els.get(i).map(|e| e.name()) != Some(n) { return Err(format!("element {} of the image is not {}", i, n)) } }
    if els.iter().skip(2).any(|e| e.name() == "defs" || e.name() == "style") { return Err("definitions or styles are repeated".into()) }
    for k in r.kids() { if let X::Tx(t) = k { if !t.trim().is_empty() { return Err(format!("stray text {:?}", t)) } } }
    let mut v = vec![]; r.all(&mut v);
    for e in &v { for (k, allowed) in [("rect", ""), ("ellipse", ""), ("path", ""), ("line", "")] { if e.name() == k && !e.kids().is_empty() && allowed.is_empty() { return Err("a shape has content".into()) } } if ["text", "tspan", "textPath", "style"].contains(&e.name()) { continue } for k in e.kids() { if let X::Tx(t) = k { if !t.trim().is_empty() { return Err(format!("stray text {:?} in {}", t, e.name())) } } } }
    Ok(r)
}
#[derive(Debug, Clone)]
enum O { Rect(Point, Point, Option<String>, bool), Circ(Point, Point, Option<String>), Line(Point, Point, Option<String>), Text(Point, String), Arrow(Vec<(Point, Point)>, bool, (bool, bool), Option<String>, String), Clip(Point, Point, usize) }
fn nasty(r: &mut Rng) -> String {
    let parts = ["<", ">", "&", "\"", "'", "&amp;", "&lt;", "</text>", "</tspan>", "<tspan>", "]]>", "<!--", "-->", "&#38;", "<![CDATA[", "<svg", "/>", "a", "Z", "0", " ", "  ", "é", "日本", "𝄞", "\u{a0}", "\u{fffd}", "\n", "\n", "\n\n", "\t", ";", "#", "=", "{", "}", "%", "\\", "url(#C0)", "\u{2028}", "\u{85}"];
    let n = r.n(9); (0..n).map(|_| *r.pick(&parts)).collect()
}
fn point(r: &mut Rng, m: usize) -> Point { let mut f = || match m { 0 => r.n(500) as f64, 1 => r.range(-300, 300) as f64 + 0.5, 2 => r.f01() * 10f64.powi(r.n(9) as i32 - 3), _ => r.n(7) as f64 / 7. }; Point::new(f(), f()) }
fn ops(r: &mut Rng, clean: bool) -> Vec<(O, StyleAttr)> {
    let m = r.n(4); let n = r.k(12); let clippy = r.1 > 0 && r.chance(1, 4); let mut clips = 0; let mut v = vec![];
    let fonts: Vec<usize> = (0..1 + r.n(3)).map(|_| *r.pick(&[0usize, 1, 11, 14, 15, 100, 1115, 4096])).collect();
    for i in 0..n {
        let mut l = look(r); l.font_size = *r.pick(&fonts);
        let pr = |r: &mut Rng| if r.chance(1, 3) { Some(format!("data-k=\"v{}\"", i)) } else { None };
        let t = |r: &mut Rng| { let s = nasty(r); if clean { s.replace('\n', " ") } else { s } };
        let o = match if clippy && r.chance(1, 2) { 5 } else { r.n(6) } {
            0 => { let has = clips > 0 && r.chance(1, 2); O::Rect(point(r, m), { let p = point(r, m); Point::new(p.x.abs(), p.y.abs()) }, pr(r), has) }
            1 => O::Circ(point(r, m), { let p = point(r, m); Point::new(p.x.abs(), p.y.abs()) }, pr(r)),
            2 => O::Line(point(r, m), point(r, m), pr(r)),
            3 => O::Text(point(r, m), t(r)),
            4 => { let k = 2 + r.k(4); O::Arrow((0..k).map(|_| (point(r, m), point(r, m))).collect(), r.chance(1, 2), (r.chance(1, 2), r.chance(1, 2)), pr(r), t(r)) }
            _ => { clips += 1; O::Clip(point(r, m), { let p = point(r, m); Point::new(p.x.abs(), p.y.abs()) }, r.n(20)) }
        };
        v.push((o, l));
    }
    v
}
fn apply(w: &mut SVGWriter, o: &O, l: &StyleAttr, handles: &mut Vec<(usize, Point, Point)>, used: &mut Vec<(usize, usize)>, rects: &mut usize) {
    match o {
        O::Rect(a, b, p, c) => { let cl = if *c { let k = *rects % handles.len(); used.push((*rects, k)); Some(handles[k].0) } else { None }; *rects += 1; w.draw_rect(*a, *b, l, p.clone(), cl) }
        O::Circ(a, b, p) => w.draw_circle(*a, *b, l, p.clone()),
        O::Line(a, b, p) => w.draw_line(*a, *b, l, p.clone()),
        O::Text(a, t) => w.draw_text(*a, t, l),
        O::Arrow(p, d, h, pr, t) => w.draw_arrow(p, *d, *h, l, pr.clone(), t),
        O::Clip(a, b, r) => { let h = w.create_clip(*a, *b, *r); handles.push((h, *a, *b)) }
    }
}
fn lines(t: &str) -> Vec<String> { let mut v: Vec<String> = t.split('\n').map(|x| x.to_string()).collect(); if v.last().map_or(false, |x| x.is_empty()) { v.pop(); } v }
/// The texts of the document in order: Ok(lines) for a drawn text, Err(text) for an edge label.
fn texts(r: &X) -> Result<Vec<Result<Vec<String>, String>>, String> {
    let mut v = vec![]; r.all(&mut v); let mut o = vec![];
    for e in v { if e.name() != "text" { continue }
        let k = e.kids();
        if k.len() == 1 && k[0].name() == "textPath" { if k[0].kids().iter().any(|x| matches!(x, X::El(..))) { return Err("an edge label contains an element".into()) } o.push(Err(k[0].txt())); continue }
        let mut ls = vec![];
        for t in k { match t { X::El(n, _, c) if n == "tspan" => { if c.iter().any(|x| matches!(x, X::El(..))) { return Err("a label contains an element".into()) } ls.push(t.txt()) } X::Tx(s) if s.trim().is_empty() => {} _ => return Err(format!("unexpected content of a text: {:?}", t)) } }
        o.push(Ok(ls));
    }
    Ok(o)
}
pub fn p21(c: &mut Case) -> R {
    if c.idx % 4 == 3 { return p21_graph(c) }
    let v = ops(&mut c.r, false); desc(|| format!("{:#?}", v));
    let mut w = SVGWriter::new(); let (mut h, mut u, mut k) = (vec![], vec![], 0);
    let mut want = vec![];
    for (o, l) in &v { apply(&mut w, o, l, &mut h, &mut u, &mut k); match o { O::Text(_, t) => want.push(Ok(lines(t))), O::Arrow(_, _, _, _, t) => want.push(Err(t.clone())), _ => {} } }
    let s = w.finalize(); desc(|| s.clone());
    let r = structure(&s)?; let got = texts(&r)?;
    if got.len() != want.len() { return Err(format!("{} texts in the document, {} were drawn", got.len(), want.len())) }
    for (g, w) in got.iter().zip(&want) { if g != w { return Err(format!("the label {:?} became {:?}", w, g)) } }
    Ok(if want.is_empty() { None } else { Some(hash(&format!("{:?}", v))) })
}
fn nlabel(r: &mut Rng) -> String { let s = nasty(r); if s.len() > 60 { "<".into() } else { s } }
fn nrec(r: &mut Rng, d: &RecordDef) -> RecordDef { match d { RecordDef::Text(_, p) => RecordDef::Text(nlabel(r), p.clone()), RecordDef::Array(v) => RecordDef::Array(v.iter().map(|x| nrec(r, x)).collect()) } }
fn reclabels(d: &RecordDef, o: &mut Vec<String>) { match d { RecordDef::Text(t, _) => o.push(t.clone()), RecordDef::Array(v) => for x in v { reclabels(x, o) } } }
fn p21_graph(c: &mut Case) -> R {
    let o = Opt { max_n: 2 + c.size.min(6), labels: true, selfs: true, none_shape: false, natural: false };
    let mut g = some_graph(c, &o);
    for n in g.nodes.iter_mut() { n.shape = match &n.shape { ShapeKind::Box(_) => ShapeKind::Box(nlabel(&mut c.r)), ShapeKind::Circle(_) => ShapeKind::Circle(nlabel(&mut c.r)), ShapeKind::DoubleCircle(_) => ShapeKind::DoubleCircle(nlabel(&mut c.r)), ShapeKind::Record(d) => ShapeKind::Record(nrec(&mut c.r, d)), s => s.clone() } }
    for e in g.edges.iter_mut() { if !e.arrow.text.is_empty() { e.arrow.text = nlabel(&mut c.r) } }
    let k = c.r.n(8); desc(|| format!("{}debug: {}, optimisation disabled: {}, layout disabled: {}", show(&g), k & 1 == 1, k & 2 == 2, k & 4 == 4));
    let mut vg = build(&g); let mut w = SVGWriter::new(); vg.do_it(k & 1 == 1, k & 2 == 2, k & 4 == 4, &mut w); let s = w.finalize(); desc(|| s.clone());
    let r = structure(&s)?;
    let mut want: Vec<String> = vec![]; for n in &g.nodes { match &n.shape { ShapeKind::Box(t) | ShapeKind::Circle(t) | ShapeKind::DoubleCircle(t) => want.push(t.clone()), ShapeKind::Record(d) => reclabels(d, &mut want), _ => {} } }
    for e in &g.edges { if !e.arrow.text.is_empty() { want.push(e.arrow.text.clone()) } }
    let mut want: Vec<Vec<String>> = want.iter().map(|t| lines(t)).collect(); let mut got = vec![];
    for t in texts(&r)? { match t { Ok(l) => got.push(l), Err(t) => if !t.is_empty() { got.push(lines(&t)) } } }
    want.retain(|x| !x.is_empty()); got.retain(|x| !x.is_empty()); want.sort(); got.sort();
    if want != got { let a = want.iter().find(|x| !got.contains(x)); let b = got.iter().find(|x| !want.contains(x)); return Err(format!("the labels of the document differ: {} expected, {} found; for example {:?} / {:?}", want.len(), got.len(), a, b)) }
    Ok(ghash(&g))
}
fn f(x: Option<&str>) -> Result<f64, String> { x.and_then(|v| v.trim().parse().ok()).ok_or(format!("{:?} is no number", x)) }
fn urlref(v: &str) -> Option<String> { v.strip_prefix("url(#").and_then(|x| x.strip_suffix(')')).map(|x| x.to_string()) }
fn refs(r: &X) -> Result<Vec<(usize, String)>, String> {
    let mut v = vec![]; r.all(&mut v); let mut ids: Vec<(&str, &str)> = vec![];
    for e in &v { if let Some(i) = e.a("id") { if ids.iter().any(|x| x.0 == i) { return Err(format!("the identifier {} is defined twice", i)) } ids.push((i, e.name())) } }
    let style: String = v.iter().filter(|e| e.name() == "style").map(|e| e.txt()).collect();
    let mut fonts: Vec<(String, f64)> = vec![];
    for rule in style.split('}') { let rule = rule.trim(); if rule.is_empty() { continue } let (sel, body) = rule.split_once('{').ok_or(format!("bad style rule {:?}", rule))?; let sel = sel.trim().strip_prefix('.').ok_or(format!("bad selector {:?}", sel))?; let mut size = None; for d in body.split(';') { if let Some((k, x)) = d.split_once(':') { if k.trim() == "font-size" { size = x.trim().strip_suffix("px").and_then(|n| n.trim().parse::<f64>().ok()) } } } if fonts.iter().any(|x| x.0 == sel) { return Err(format!("the class {} is defined twice", sel)) } fonts.push((sel.to_string(), size.ok_or(format!("class {} has no font size", sel))?)) }
    let need = |i: &str, k: &str| if ids.iter().any(|x| x.0 == i && x.1 == k) { Ok(()) } else { Err(format!("the {} {} is used and not defined", k, i)) };
    let mut out = vec![]; let mut texts = 0;
    for e in &v {
        if let X::El(n, at, _) = e { for (k, x) in at {
            if x.contains("url(") && k != "data-k" { let i = urlref(x).ok_or(format!("bad reference {:?}", x))?; match &k[..] { "clip-path" => need(&i, "clipPath")?, "marker-start" | "marker-end" => need(&i, "marker")?, _ => return Err(format!("reference in attribute {}", k)) } }
            if k == "href" { need(x.strip_prefix('#').ok_or("bad href")?, "path")? }
            if k == "class" { let c = fonts.iter().find(|y| y.0 == *x).ok_or(format!("the class {} is used and not defined", x))?; out.push((texts, c.1.to_string())); }
            let _ = n;
        } }
        if e.name() == "text" { texts += 1 }
    }
    Ok(out)
}
pub fn p22(c: &mut Case) -> R {
    if c.idx % 4 == 3 {
        let o = Opt { max_n: 2 + c.size.min(6), labels: true, selfs: true, none_shape: true, natural: false };
        let mut g = some_graph(c, &o); for (i, e) in g.edges.iter_mut().enumerate() { e.arrow.properties = if i % 2 == 0 { None } else { Some(format!("data-k=\"{}\"", i)) } }
        for n in g.nodes.iter_mut() { n.props = None }
        let k = c.r.n(8); desc(|| show(&g)); let mut vg = build(&g); let mut w = SVGWriter::new(); vg.do_it(k & 1 == 1, k & 2 == 2, k & 4 == 4, &mut w); let s = w.finalize(); desc(|| s.clone());
        refs(&parse(&s)?)?; return Ok(ghash(&g))
    }
    let v = ops(&mut c.r, true); desc(|| format!("{:#?}", v));
    let mut w = SVGWriter::new(); let (mut h, mut u, mut k) = (vec![], vec![], 0);
    for (o, l) in &v { apply(&mut w, o, l, &mut h, &mut u, &mut k) }
    let s = w.finalize(); desc(|| s.clone()); let r = parse(&s)?;
    let cls = refs(&r)?;
    let mut els = vec![]; r.all(&mut els);
    // the class of each text stands for its font size
    let fonts: Vec<usize> = v.iter().filter(|x| matches!(x.0, O::Text(..) | O::Arrow(..))).map(|x| x.1.font_size).collect();
    let mut got: Vec<Option<f64>> = vec![None; fonts.len()]; let mut ti = 0; let mut ci = cls.iter();
    for e in &els { if e.name() == "text" { if ti >= fonts.len() { return Err("too many texts".into()) } ti += 1 } if e.a("class").is_some() { let x: f64 = ci.next().unwrap().1.parse().unwrap(); if ti > 0 { got[ti - 1] = Some(x) } } }
    for (i, f) in fonts.iter().enumerate() { if got[i] != Some(*f as f64) { return Err(format!("text {} was drawn with font size {}, its class stands for {:?}", i, f, got[i])) } }
    // clip regions
    let rects: Vec<&&X> = els.iter().filter(|e| e.name() == "rect" && e.a("fill").is_some()).collect();
    for (ri, hi) in &u {
        let e = rects.get(*ri).ok_or("missing rectangle")?; let id = e.a("clip-path").and_then(urlref).ok_or("a clipped rectangle has no clip region")?;
        let d = els.iter().find(|x| x.a("id") == Some(&id)).unwrap(); let q = d.kids().iter().find(|x| x.name() == "rect").ok_or("empty clip region")?; let (_, p, s) = h[*hi];
        if f(q.a("x"))? != p.x || f(q.a("y"))? != p.y || f(q.a("width"))? != s.x || f(q.a("height"))? != s.y { return Err(format!("clip region {} is {:?}, it was created as {:?} {:?}", id, q, p, s)) }
    }
    for (i, e) in rects.iter().enumerate() { if e.a("clip-path").is_some() != u.iter().any(|x| x.0 == i) { return Err(format!("rectangle {} clipped: {}", i, e.a("clip-path").is_some())) } }
    let hs: std::collections::HashSet<usize> = h.iter().map(|x| x.0).collect(); if hs.len() != h.len() { return Err("two clip regions have one handle".into()) }
    // markers and edge label paths
    let paths: Vec<&&X> = els.iter().filter(|e| e.name() == "path").collect(); let tps: Vec<&&X> = els.iter().filter(|e| e.name() == "textPath").collect();
    let ar: Vec<&O> = v.iter().map(|x| &x.0).filter(|o| matches!(o, O::Arrow(..))).collect();
    if paths.len() != ar.len() || tps.len() != ar.len() { return Err(format!("{} paths for {} edges", paths.len(), ar.len())) }
    for i in 0..ar.len() { if let O::Arrow(_, _, hd, _, _) = ar[i] {
        for (k, w, m) in [("marker-start", hd.0, "startarrow"), ("marker-end", hd.1, "endarrow")] { if paths[i].a(k).and_then(urlref) != if w { Some(m.to_string()) } else { None } { return Err(format!("edge {} has {} {:?}", i, k, paths[i].a(k))) } }
        if tps[i].a("href").and_then(|x| x.strip_prefix('#')) != paths[i].a("id") { return Err(format!("the label of edge {} follows {:?}", i, tps[i].a("href"))) }
    } }
    Ok(if v.is_empty() { None } else { Some(hash(&format!("{:?}", v))) })
}
fn view(s: &str) -> Result<Point, String> {
    let r = parse(s)?; let (w, h) = (f(r.a("width"))?, f(r.a("height"))?); let vb: Vec<f64> = r.a("viewBox").unwrap_or("").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    if vb != vec![0., 0., w, h] { return Err(format!("view box {:?}, size {} x {}", vb, w, h)) }
    Ok(Point::new(w, h))
}
pub fn p23(c: &mut Case) -> R {
    if c.idx % 4 == 3 {
        let o = Opt { max_n: 2 + c.size.min(6), labels: true, selfs: true, none_shape: false, natural: false }; let g = some_graph(c, &o); let k = c.r.n(4);
        desc(|| show(&g)); let mut vg = build(&g); let mut w = SVGWriter::new(); vg.do_it(false, k & 1 == 1, k & 2 == 2, &mut w); let v = view(&w.finalize())?;
        for i in vg.iter_nodes() { let b = vg.pos(i).bbox(false).1; if !vg.is_connector(i) && (b.x > v.x || b.y > v.y) { return Err(format!("node {:?} ends at {:?} outside of the canvas {:?}", i, b, v)) } }
        return Ok(ghash(&g))
    }
    let v = ops(&mut c.r, true); desc(|| format!("{:#?}", v));
    let mut w = SVGWriter::new(); let (mut h, mut u, mut k) = (vec![], vec![], 0);
    let mut last = view(&w.finalize())?; let mut need: Vec<Point> = vec![];
    for (o, l) in &v {
        apply(&mut w, o, l, &mut h, &mut u, &mut k);
        let now = view(&w.finalize())?;
        if now.x < last.x || now.y < last.y { return Err(format!("the view box shrank from {:?} to {:?}", last, now)) } last = now;
        match o { O::Rect(a, b, ..) => need.push(a.add(*b)), O::Circ(a, b, _) => need.push(Point::new(a.x + b.x / 2., a.y + b.y / 2.)), O::Text(a, _) => need.push(*a), O::Arrow(p, ..) => for q in p { need.push(q.0); need.push(q.1) }, _ => {} }
        for p in &need { if p.x > now.x || p.y > now.y { return Err(format!("{:?} is outside of the canvas {:?}", p, now)) } }
    }
    Ok(if v.is_empty() { None } else { Some(hash(&format!("{:?}", v))) })
}
fn same(e: &X, want: &[(&str, String)]) -> R {
    if let X::El(n, at, _) = e {
        for (k, w) in want {
            let g = e.a(k).ok_or(format!("a {} has no {}", n, k))?;
            let ok = if *k == "d" { let t = |x: &str| x.replace(',', " ").split_whitespace().map(|y| y.to_string()).collect::<Vec<_>>(); let (a, b) = (t(g), t(w)); a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| x == y || numeq(x, y)) } else { g == w || numeq(g, w) };
            if !ok { return Err(format!("the {} of a {} is {:?}, {:?} was asked for", k, n, g, w)) }
        }
        for (k, _) in at { if !want.iter().any(|x| x.0 == k) { return Err(format!("a {} has an unexpected {}", n, k)) } }
    }
    Ok(None)
}
fn numeq(a: &str, b: &str) -> bool { match (a.parse::<f64>(), b.parse::<f64>()) { (Ok(x), Ok(y)) => (x - y).abs() <= 1e-9 * (1. + x.abs().max(y.abs())), _ => false } }
pub fn p27(c: &mut Case) -> R {
    let v = ops(&mut c.r, false); desc(|| format!("{:#?}", v));
    let mut w = SVGWriter::new(); let (mut h, mut u, mut k) = (vec![], vec![], 0);
    for (o, l) in &v { apply(&mut w, o, l, &mut h, &mut u, &mut k) }
    let s = w.finalize(); desc(|| s.clone()); let r = structure(&s)?;
    let els: Vec<&X> = r.kids().iter().filter(|e| matches!(e, X::El(..)) && !["defs", "style", "clipPath"].contains(&e.name())).collect();
    let st = |x: f64| x.to_string(); let mut i = 0; let mut rects = 0; let mut arrows = 0;
    let mut next = |name: &str| -> Result<&X, String> { i += 1; let e = els.get(i - 1).ok_or(format!("a {} is missing at the end of the image", name))?; if e.name() != name { return Err(format!("element {} of the drawing is a {}, a {} was asked for", i - 1, e.name(), name)) } Ok(*e) };
    let inner = |g: &X, p: &Option<String>, name: &str| -> Result<X, String> {
        same(g, &match p { Some(p) => { let (a, b) = p.split_once('=').unwrap(); vec![(a, b.trim_matches('"').to_string())] } None => vec![] })?;
        let k: Vec<&X> = g.kids().iter().filter(|x| matches!(x, X::El(..))).collect();
        if k.len() != 1 || k[0].name() != name { return Err(format!("a group holds {:?} and not one {}", k.iter().map(|x| x.name()).collect::<Vec<_>>(), name)) }
        Ok(k[0].clone())
    };
    for (o, l) in &v {
        let stroke = [("stroke-width", l.line_width.to_string()), ("stroke", l.line_color.to_web_color())];
        let fill = ("fill", l.fill_color.map_or("#00000000".to_string(), |x| x.to_web_color()));
        match o {
            O::Rect(a, b, p, cl) => {
                let e = inner(next("g")?, p, "rect")?; let mut wt = vec![("x", st(a.x)), ("y", st(a.y)), ("width", st(b.x)), ("height", st(b.y)), ("rx", l.rounded.to_string()), fill]; wt.extend(stroke.iter().cloned());
                if *cl { let k = u.iter().find(|x| x.0 == rects).unwrap().1; wt.push(("clip-path", format!("url(#C{})", h[k].0))) }
                rects += 1; same(&e, &wt)?;
            }
            O::Circ(a, b, p) => { let e = inner(next("g")?, p, "ellipse")?; let mut wt = vec![("cx", st(a.x)), ("cy", st(a.y)), ("rx", st(b.x / 2.)), ("ry", st(b.y / 2.)), fill]; wt.extend(stroke.iter().cloned()); same(&e, &wt)?; }
            O::Line(a, b, p) => { let e = inner(next("g")?, p, "line")?; let mut wt = vec![("x1", st(a.x)), ("y1", st(a.y)), ("x2", st(b.x)), ("y2", st(b.y))]; wt.extend(stroke.iter().cloned()); same(&e, &wt)?; }
            O::Text(a, t) => {
                let e = next("text")?; let n = lines(t).len();
                let cls = e.a("class").unwrap_or("").to_string();
                same(e, &[("dominant-baseline", "middle".into()), ("text-anchor", "middle".into()), ("x", st(a.x)), ("y", st(a.y - (1 + n) as f64 * l.font_size as f64 / 2.)), ("class", cls)])?;
                let sp: Vec<&X> = e.kids().iter().filter(|x| matches!(x, X::El(..))).collect();
                if sp.len() != n { return Err(format!("a text of {} lines is shown in {} lines", n, sp.len())) }
                for x in sp { if x.name() != "tspan" { return Err(format!("a text holds a {}", x.name())) } same(x, &[("x", st(a.x)), ("dy", "1.0em".into())])?; }
            }
            O::Arrow(q, dash, head, p, _) => {
                let e = inner(next("g")?, p, "path")?;
                let mut d = format!("M {} {} C {} {} {} {} {} {}", q[0].0.x, q[0].0.y, q[0].1.x, q[0].1.y, q[1].0.x, q[1].0.y, q[1].1.x, q[1].1.y);
                for z in &q[2..] { d.push_str(&format!(" S {} {} {} {}", z.0.x, z.0.y, z.1.x, z.1.y)) }
                let mut wt = vec![("id", format!("arrow{}", arrows)), ("d", d), ("fill", "transparent".into())]; wt.extend(stroke.iter().cloned());
                if *dash { wt.push(("stroke-dasharray", "5,5".into())) } if head.0 { wt.push(("marker-start", "url(#startarrow)".into())) } if head.1 { wt.push(("marker-end", "url(#endarrow)".into())) }
                same(&e, &wt)?;
                let t = next("text")?; same(t, &[])?; let tp: Vec<&X> = t.kids().iter().filter(|x| matches!(x, X::El(..))).collect();
                if tp.len() != 1 || tp[0].name() != "textPath" { return Err("an edge label is not on its path".into()) }
                same(tp[0], &[("href", format!("#arrow{}", arrows)), ("startOffset", "50%".into()), ("text-anchor", "middle".into()), ("class", tp[0].a("class").unwrap_or("").to_string())])?;
                arrows += 1;
            }
            O::Clip(..) => {}
        }
    }
    if i != els.len() { return Err(format!("{} elements are shown, {} were asked for", els.len(), i)) }
    Ok(if v.is_empty() { None } else { Some(hash(&format!("{:?}", v))) })
}
struct Dir(std::path::PathBuf);
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
/// files of this process cannot grow beyond this size: the rest of a longer text has no room
const LIMIT: usize = 2_000_000;
fn limit() {
    extern "C" { fn signal(n: i32, h: usize) -> usize; fn getrlimit(r: i32, l: *mut [u64; 2]) -> i32; fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; }
    static ONCE: std::sync::Once = std::sync::Once::new();
    // RLIMIT_FSIZE is 1, SIGXFSZ is 25 and SIG_IGN is 1 on Linux
    ONCE.call_once(|| unsafe { let mut l = [0u64; 2]; signal(25, 1); if getrlimit(1, &mut l) == 0 { l[0] = LIMIT as u64; setrlimit(1, &l); } });
}
pub fn p26(c: &mut Case) -> R {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let d = Dir(std::env::temp_dir().join(format!("vh-save-{}-{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed))));
    std::fs::create_dir(&d.0).map_err(|e| format!("scratch directory: {}", e))?;
    limit();
    let n = match c.r.n(6) { 0 => 0, 1 => 1, 2 => c.r.n(100), 3 => c.r.n(10_000), 4 => 8190 + c.r.n(8), _ => c.r.n(if c.idx % 20 == 0 { 3_000_000 } else { 70_000 }) };
    let unit = *c.r.pick(&["a", "ä", "日\n", "\r\n", "\0x", "{}%s\\", "<svg>"]);
    let mut s = String::with_capacity(n + 8); while s.len() < n { s.push_str(unit); if c.r.chance(1, 9) { s.push((b'a' + c.r.n(26) as u8) as char) } }
    let name = c.r.pick(&["f", "a b", "ü.svg", ".x", "f.svg"]).to_string(); let p = d.0.join(&name); let ps = p.to_str().unwrap().to_string();
    let kind = c.r.n(9); desc(|| format!("case {} file {:?} with {} bytes of {:?}", kind, name, s.len(), unit));
    match kind {
        0 => { if save_to_file(d.0.join("no/dir").join(&name).to_str().unwrap(), &s).is_ok() { return Err("saving into a missing directory succeeded".into()) } }
        1 => { std::fs::create_dir(&p).unwrap(); if save_to_file(&ps, &s).is_ok() { return Err("saving over a directory succeeded".into()) } }
        2 => { let x = p.join("below"); std::fs::write(&p, "file").unwrap(); if save_to_file(x.to_str().unwrap(), &s).is_ok() { return Err("saving below a file succeeded".into()) } }
        3 => { if save_to_file(&format!("{}/\0", d.0.display()), &s).is_ok() { return Err("saving to an invalid name succeeded".into()) } }
        4 => { std::os::unix::fs::symlink("/dev/full", &p).unwrap(); if save_to_file(&ps, &s).is_ok() && !s.is_empty() { return Err("saving to a full device succeeded".into()) } }
        k => {
            if k >= 6 { std::fs::write(&p, vec![b'#'; c.r.n(20_000)]).unwrap(); }
            if k == 8 { save_to_file(&ps, "first").map_err(|e| e.to_string())?; }
            if let Err(e) = save_to_file(&ps, &s) { if s.len() > LIMIT { return Ok(Some(hash(&s))) } return Err(format!("saving failed: {}", e)) }
            let got = std::fs::read(&p).map_err(|e| format!("the file is not there: {}", e))?;
            if got != s.as_bytes() { return Err(format!("the file holds {} bytes, {} were saved", got.len(), s.len())) }
            let fs: Vec<_> = std::fs::read_dir(&d.0).unwrap().flatten().collect(); if fs.len() != 1 { return Err(format!("{} files were left in the directory", fs.len())) }
        }
    }
    Ok(Some(hash(&s) ^ kind as u64))
}
#[allow(dead_code)] fn _c(_: Color) {}
