//! P01-P03: lexer and parser.
use crate::rng::*; use crate::{desc, Case, R};
use layout::gv::parser::ast::*;
use layout::gv::{DotParser, Lexer, Token};

#[derive(Clone, Debug, PartialEq)]
pub enum Tk { Id(String), Graph, Node, Edge, Digraph, Strict, Sub, Eq, Colon, Comma, Semi, Arrow, Line, LB, RB, LC, RC, Err, Eof }

/// Reference tokeniser, written from the statement of P02.
pub fn reflex(s: &[char]) -> Vec<Tk> {
    let mut i = 0; let n = s.len(); let mut out = vec![];
    loop {
        if i >= n { out.push(Tk::Eof); return out }
        let c = s[i]; let nx = if i + 1 < n { s[i + 1] } else { '\0' };
        if matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c') { i += 1; continue }
        if c == '/' && nx == '/' { while i < n && s[i] != '\n' { i += 1 } continue }
        if c == '/' && nx == '*' { i += 2; while i < n && !(s[i] == '*' && i + 1 < n && s[i + 1] == '/') { i += 1 } i = (i + 2).min(n); continue }
        let single = match c { '=' => Some(Tk::Eq), ';' => Some(Tk::Semi), ':' => Some(Tk::Colon), ',' => Some(Tk::Comma), '[' => Some(Tk::LB), ']' => Some(Tk::RB), '{' => Some(Tk::LC), '}' => Some(Tk::RC), _ => None };
        if let Some(t) = single { out.push(t); i += 1; continue }
        if c == '"' {
            let mut v = String::new(); i += 1; let mut ok = false;
            while i < n {
                if s[i] == '"' { ok = true; i += 1; break }
                if s[i] == '\\' { i += 1; if i >= n { break } v.push(if s[i] == 'n' || s[i] == 'l' { '\n' } else { s[i] }); i += 1; continue }
                v.push(s[i]); i += 1;
            }
            if !ok { out.push(Tk::Err); return out }
            out.push(Tk::Id(v)); continue
        }
        let num = |mut j: usize| { let mut dot = false; while j < n && (s[j].is_ascii_digit() || (s[j] == '.' && !dot)) { if s[j] == '.' { dot = true } j += 1 } j };
        if c == '-' {
            if nx == '>' { out.push(Tk::Arrow); i += 2; continue }
            if nx == '-' { out.push(Tk::Line); i += 2; continue }
            if nx.is_ascii_digit() { let j = num(i + 1); out.push(Tk::Id(s[i..j].iter().collect())); i = j; continue }
            out.push(Tk::Err); return out
        }
        if c.is_ascii_digit() { let j = num(i); out.push(Tk::Id(s[i..j].iter().collect())); i = j; continue }
        if c.is_ascii_alphabetic() {
            let mut j = i; while j < n && (s[j].is_ascii_alphanumeric() || s[j] == '_') { j += 1 }
            let w: String = s[i..j].iter().collect(); i = j;
            out.push(match w.as_str() { "graph" => Tk::Graph, "node" => Tk::Node, "edge" => Tk::Edge, "digraph" => Tk::Digraph, "strict" => Tk::Strict, "subgraph" => Tk::Sub, _ => Tk::Id(w) });
            continue
        }
        out.push(Tk::Err); return out
    }
}
fn conv(t: Token) -> Tk {
    match t { Token::EOF => Tk::Eof, Token::Identifier(s) => Tk::Id(s), Token::GraphKW => Tk::Graph, Token::NodeKW => Tk::Node, Token::EdgeKW => Tk::Edge, Token::DigraphKW => Tk::Digraph, Token::StrictKW => Tk::Strict, Token::SubgraphKW => Tk::Sub,
        Token::Equal => Tk::Eq, Token::Colon => Tk::Colon, Token::Comma => Tk::Comma, Token::Semicolon => Tk::Semi, Token::ArrowRight => Tk::Arrow, Token::ArrowLine => Tk::Line, Token::OpenBracket => Tk::LB, Token::CloseBracket => Tk::RB, Token::OpenBrace => Tk::LC, Token::CloseBrace => Tk::RC, Token::Error(_) => Tk::Err }
}
const PIECES: &[&str] = &["a", "b0", "_", "graph", "digraph", "node", "edge", "strict", "subgraph", "graphx", "{", "}", "[", "]", "=", ";", ":", ",", "->", "--", "-", ">", "1", "12.5", "-3", "-4.", ".5", "1.2.3", "\"", "\"a b\"", "\"x\\\"y\"", "\\", "\\n", "\\l", "\"\\\\\"", "/", "//", "//c\n", "/*", "*/", "/* x */", "*", "\n", " ", "\t", "\r\n", "\u{c}", "é", "日", "#", "<", "&", "label", "\"\"", "\u{b}", "-a", "--a", "1a", "a1", "'", "\u{7f}", "\u{1}", "/*/", "/**/", "/***/", "//\u{1}x\n", "node1", "Graph", "9-9", "5/"];
const ALPHA: &[char] = &['a', '1', '-', '>', '"', '\\', '/', '*', '\n', ' ', '{', '}', '[', ']', '=', ';', ':', ',', '.', 'n', '_', 'é'];
fn soup(c: &mut Case) -> String {
    let k = ALPHA.len() as u64; let mut e = c.idx;
    // all texts of up to 3 characters first
    for len in 0..4u32 { let m = k.pow(len); if e < m { let mut s = String::new(); for _ in 0..len { s.push(ALPHA[(e % k) as usize]); e /= k; } return s } e -= m; }
    let n = 1 + c.r.k(14); let mut s = String::new();
    let reps = ["1", "0", "a", "_", "a1_", "\"", "x", "-", "/", "*", " ", "\n", "{", "}", ";", "\\\\", "12345.", "/*", "é"];
    for _ in 0..n { if c.r.1 > 0 && c.r.chance(1, 6) { let p = *c.r.pick(&reps); for _ in 0..c.r.n(80) { s.push_str(p) } } else if c.r.chance(1, 4) { s.push(*c.r.pick(ALPHA)) } else { s.push_str(c.r.pick(PIECES)); } if c.r.chance(1, 4) { s.push(' ') } }
    s
}
pub fn p02(c: &mut Case) -> R {
    let s = soup(c);
    desc(|| format!("text: {:?}", s));
    let want = reflex(&s.chars().collect::<Vec<_>>());
    let mut l = Lexer::from_string(&s); let mut got = vec![];
    for _ in 0..want.len() + 3 { let t = conv(l.next_token()); got.push(t.clone()); if t == Tk::Eof || t == Tk::Err { break } }
    if got != want { return Err(format!("token stream differs\n  expected {:?}\n  got      {:?}", want, got)) }
    Ok(if want.len() > 2 { Some(hash(&s)) } else { None })
}

// ---- P03
fn gid(r: &mut Rng) -> String { match r.n(10) { 0 if r.1 > 0 => { let n = 1 + r.k(12); (0..n).map(|_| (b'0' + r.n(10) as u8) as char).collect() } 0 => "-12".into(), 1 => "3.5".into(), 2 => "a b".into(), 3 => "graph".into(), 4 => "x\"y\\z".into(), 5 => "".into(), 6 => "é;{".into(), 7 => "l\nm".into(), _ => { let w = crate::gen::word(r); w } } }
fn al(r: &mut Rng) -> AttributeList { let mut l = AttributeList::new(); for _ in 0..r.k(4) { let (a, b) = (gid(r), gid(r)); l.add_attr(&a, &b); } l }
fn nid(r: &mut Rng) -> NodeId { let p = if r.chance(1, 4) { Some(gid(r)) } else { None }; NodeId::new(&gid(r), &p) }
fn gstmts(r: &mut Rng, d: usize) -> StmtList {
    let mut l = StmtList::new();
    for _ in 0..r.k(5) {
        l.list.push(match r.n(if d > 0 { 8 } else { 6 }) {
            0 | 1 => { let id = nid(r); Stmt::Node(NodeStmt::new_with_list(id, if r.chance(1, 2) { al(r) } else { AttributeList::new() })) }
            2 | 3 => { let mut e = EdgeStmt::new(nid(r)); for _ in 0..1 + r.k(3) { let n = nid(r); e.insert(n, if r.chance(1, 2) { ArrowKind::Arrow } else { ArrowKind::Line }); } if r.chance(1, 2) { e.list = al(r); } Stmt::Edge(e) }
            4 => { let t = match r.n(3) { 0 => AttrStmtTarget::Graph, 1 => AttrStmtTarget::Node, _ => AttrStmtTarget::Edge }; Stmt::Attribute(AttrStmt::new(t, al(r))) }
            5 => { let mut a = AttributeList::new(); let (x, y) = (gid(r), gid(r)); a.add_attr(&x, &y); Stmt::Attribute(AttrStmt::new(AttrStmtTarget::Graph, a)) }
            6 => { let mut g = Graph::new("anonymous"); g.list = gstmts(r, d - 1); Stmt::SubGraph(g) }
            _ => { let mut g = Graph::new(&if r.chance(1, 2) { gid(r) } else { String::new() }); g.list = gstmts(r, d - 1); Stmt::SubGraph(g) }
        });
    }
    l
}
fn quote(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c => o.push(c) } } o.push('"'); o }
struct Pr<'a> { r: &'a mut Rng, out: Vec<String> }
impl<'a> Pr<'a> {
    fn id(&mut self, s: &str) {
        let t = reflex(&s.chars().collect::<Vec<_>>());
        let bare = t.len() == 2 && t[0] == Tk::Id(s.to_string());
        let x = if bare && self.r.chance(3, 4) { s.to_string() } else { quote(s) }; self.out.push(x);
    }
    fn t(&mut self, s: &str) { self.out.push(s.to_string()) }
    fn nid(&mut self, n: &NodeId) { self.id(&n.name); if let Some(p) = &n.port { self.t(":"); self.id(p); } }
    fn al(&mut self, l: &AttributeList, force: bool) { if l.list.is_empty() && !force && self.r.chance(3, 4) { return } self.t("["); for (i, p) in l.list.iter().enumerate() { self.id(&p.0); self.t("="); self.id(&p.1); let _ = i; match self.r.n(4) { 0 => self.t(";"), 1 => self.t(","), 2 => { self.t(";"); self.t(",") } _ => {} } } self.t("]"); }
    fn stmts(&mut self, l: &StmtList) {
        self.t("{");
        for s in &l.list {
            match s {
                Stmt::Node(n) => { self.nid(&n.id); let k = self.out.len(); self.al(&n.list, false); if self.out.len() == k { self.t(";"); continue } }
                Stmt::Edge(e) => { self.nid(&e.from); for (n, k) in &e.to { self.t(match k { ArrowKind::Arrow => "->", ArrowKind::Line => "--" }); self.nid(n); } self.al(&e.list, false); }
                Stmt::Attribute(a) => match a.target {
                    AttrStmtTarget::Graph if a.list.list.len() == 1 && self.r.chance(2, 3) => { let p = a.list.list[0].clone(); self.id(&p.0); self.t("="); self.id(&p.1); }
                    AttrStmtTarget::Graph => { self.t("graph"); self.al(&a.list, true) }
                    AttrStmtTarget::Node => { self.t("node"); self.al(&a.list, true) }
                    AttrStmtTarget::Edge => { self.t("edge"); self.al(&a.list, true) }
                },
                Stmt::SubGraph(g) => { if g.name == "anonymous" && self.r.chance(3, 4) {} else { self.t("subgraph"); if !g.name.is_empty() { self.id(&g.name); } } self.stmts(&g.list); }
            }
            if self.r.chance(1, 2) { self.t(";"); }
        }
        self.t("}");
    }
}
fn join(r: &mut Rng, v: &[String]) -> String {
    let mut s = String::new(); let mut prev = String::new();
    for x in v {
        // separate tokens that would merge
        let tight = { let both: Vec<char> = format!("{}{}", prev, x).chars().collect(); let mut a = reflex(&prev.chars().collect::<Vec<_>>()); a.pop(); let mut b = reflex(&x.chars().collect::<Vec<_>>()); let mut ab = a.clone(); ab.append(&mut b); !prev.is_empty() && reflex(&both) == ab };
        if !s.is_empty() && !(tight && r.chance(1, 2)) { s.push_str(r.pick(&[" ", "\n", "\t", " /* c */ ", " // x\n", "/**/", "  "])); }
        s.push_str(x); prev = x.clone();
    }
    if r.chance(1, 4) { s.push_str(r.pick(&[" ", "\n", "// end", "/* end"])); }
    s
}
struct Sp<'a> { t: &'a [Tk], i: usize }
impl<'a> Sp<'a> {
    fn is(&self, t: Tk) -> bool { self.i < self.t.len() && self.t[self.i] == t }
    fn eat(&mut self, t: Tk) -> bool { let b = self.is(t); if b { self.i += 1 } b }
    fn id(&mut self, s: &str) -> bool { self.eat(Tk::Id(s.to_string())) }
    fn nid(&mut self, n: &NodeId) -> bool { self.id(&n.name) && match &n.port { Some(p) => self.eat(Tk::Colon) && self.id(p), None => !self.is(Tk::Colon) } }
    fn al(&mut self, l: &AttributeList, force: bool) -> bool {
        let mut k = 0; let mut any = false;
        while self.eat(Tk::LB) { any = true; loop { if self.eat(Tk::RB) { break } if k >= l.list.len() { return false } let p = &l.list[k]; k += 1; if !(self.id(&p.0) && self.eat(Tk::Eq) && self.id(&p.1)) { return false } while self.is(Tk::Semi) || self.is(Tk::Comma) { self.i += 1 } } }
        k == l.list.len() && (any || !force)
    }
    fn stmts(&mut self, l: &StmtList) -> bool {
        if !self.eat(Tk::LC) { return false }
        for s in &l.list {
            while self.eat(Tk::Semi) {}
            let ok = match s {
                Stmt::Node(n) => self.nid(&n.id) && self.al(&n.list, false),
                Stmt::Edge(e) => !e.to.is_empty() && self.nid(&e.from) && e.to.iter().all(|(n, k)| self.eat(match k { ArrowKind::Arrow => Tk::Arrow, ArrowKind::Line => Tk::Line }) && self.nid(n)) && self.al(&e.list, false),
                Stmt::Attribute(a) => match a.target {
                    AttrStmtTarget::Graph => if self.eat(Tk::Graph) { self.al(&a.list, true) } else { a.list.list.len() == 1 && { let p = &a.list.list[0]; self.id(&p.0) && self.eat(Tk::Eq) && self.id(&p.1) } },
                    AttrStmtTarget::Node => self.eat(Tk::Node) && self.al(&a.list, true),
                    AttrStmtTarget::Edge => self.eat(Tk::Edge) && self.al(&a.list, true),
                },
                Stmt::SubGraph(g) => { if self.is(Tk::LC) { g.name == "anonymous" && self.stmts(&g.list) } else { self.eat(Tk::Sub) && (if let Tk::Id(_) = self.t[self.i] { self.id(&g.name) } else { g.name.is_empty() }) && self.stmts(&g.list) } }
            };
            if !ok { return false }
        }
        while self.eat(Tk::Semi) {}
        self.eat(Tk::RC)
    }
}
/// does the tree spell exactly the tokens of the text?
fn spells(g: &Graph, t: &[Tk]) -> bool {
    let mut p = Sp { t, i: 0 };
    p.eat(Tk::Strict);
    (p.eat(Tk::Graph) || p.eat(Tk::Digraph) || p.eat(Tk::Sub)) && (if let Some(Tk::Id(_)) = t.get(p.i) { p.id(&g.name) } else { g.name.is_empty() }) && p.stmts(&g.list) && p.eat(Tk::Eof) && p.i == t.len()
}
fn parse(s: &str) -> Result<Graph, String> { DotParser::new(s).process() }
fn p03_tree(c: &mut Case) -> (Graph, Vec<String>) {
    let mut g = Graph::new(&if c.r.chance(1, 2) { gid(&mut c.r) } else { String::new() });
    let d = c.r.k(4);
    g.list = gstmts(&mut c.r, d);
    let mut p = Pr { r: &mut c.r, out: vec![] };
    if p.r.chance(1, 5) { p.t("strict") }
    if p.r.chance(1, 2) { p.t("graph") } else { p.t("digraph") }
    if !g.name.is_empty() { let n = g.name.clone(); p.id(&n); }
    p.stmts(&g.list);
    let o = p.out;
    (g, o)
}
const TOKS: &[&str] = &["{", "}", "[", "]", "=", ";", ":", ",", "->", "--", "a", "b", "1", "\"q\"", "graph", "node", "edge", "subgraph", "strict", "digraph"];
pub fn p03(c: &mut Case) -> R {
    if c.idx % 2 == 0 && c.idx > 1200 || c.idx < 20 {
        let (g, toks) = p03_tree(c);
        let s = join(&mut c.r, &toks);
        desc(|| format!("text: {:?}", s));
        return match parse(&s) {
            Err(e) => Err(format!("a valid text is rejected: {}", e)),
            Ok(t) => if format!("{:?}", t) == format!("{:?}", g) { Ok(if g.list.list.len() > 1 { Some(hash(&s)) } else { None }) } else { Err(format!("wrong tree\n  expected {:?}\n  got      {:?}", g, t)) },
        };
    }
    let s = if c.idx <= 1200 {
        // short bodies, systematically
        let k = TOKS.len(); let mut e = c.idx as usize; let mut b = String::new(); for _ in 0..3 { b.push_str(TOKS[e % k]); b.push(' '); e /= k; }
        if c.r.chance(1, 2) { format!("digraph {{ {} }}", b) } else { format!("digraph {{ a {}", b) }
    } else {
        let (_, mut toks) = p03_tree(c);
        for _ in 0..1 + c.r.n(2) { if toks.is_empty() { break } let i = c.r.n(toks.len()); match c.r.n(4) { 0 => { toks.remove(i); } 1 => { toks.insert(i, c.r.pick(TOKS).to_string()); } 2 => { toks[i] = c.r.pick(TOKS).to_string(); } _ => { let x = toks[i].clone(); toks.insert(i, x); } } }
        toks.join(" ")
    };
    desc(|| format!("text: {:?}", s));
    let tk = reflex(&s.chars().collect::<Vec<_>>());
    match parse(&s) { Err(_) => Ok(Some(hash(&s))), Ok(g) => if spells(&g, &tk) { Ok(Some(hash(&s))) } else { Err(format!("the tree does not spell the text: {:?}", g)) } }
}
pub fn p01(c: &mut Case) -> R {
    let mut s = if c.idx < 3000 { let b = { let mut d = Case { r: c.r.clone(), idx: c.idx, size: 1 }; soup(&mut d) }; if c.r.chance(1, 2) { format!("digraph {{ {}", b) } else { b } }
    else if c.r.chance(1, 2) { let (_, mut t) = p03_tree(c); for _ in 0..c.r.n(3) { if t.is_empty() { break } let i = c.r.n(t.len()); match c.r.n(3) { 0 => { t.truncate(i) } 1 => { t.remove(i); } _ => { t.insert(i, c.r.pick(PIECES).to_string()) } } } join(&mut c.r, &t) }
    else { let n = c.r.k(30); let mut s = String::new(); if c.r.chance(1, 2) { s.push_str("digraph { ") } for _ in 0..n { s.push_str(c.r.pick(PIECES)); if c.r.chance(1, 3) { s.push(' ') } } s };
    if c.r.chance(1, 10) { let k: Vec<char> = s.chars().collect(); let i = c.r.n(k.len() + 1); s = k[..i].iter().collect(); }
    if c.r.chance(1, 40) { s.push('\0'); }
    desc(|| format!("text: {:?}", s));
    let _ = parse(&s);
    let n = c.r.k(12); let mut l = String::new();
    for _ in 0..n { l.push_str(c.r.pick(&["{", "}", "|", "<", ">", "a", " ", "<p>", "é", "\n", "{}", "||"])); }
    if c.idx < 300 { l = { let mut e = c.idx; let a = ['{', '}', '|', '<', '>', 'a', ' ']; let mut t = String::new(); while e > 0 { t.push(a[(e % 7) as usize]); e /= 7 } t } }
    desc(|| format!("record label: {:?}", l));
    let _ = layout::gv::record::parse_record_string(&l);
    let _ = layout::gv::record::record_builder(&l);
    Ok(Some(hash(&s)))
}
