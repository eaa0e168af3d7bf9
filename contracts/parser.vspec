@module parser
@use base lexer ast
@file gv/parser/parser.rs
@struct DotParser
@code
use super::ast;
// ---- the tokens that are left ----
pub open spec fn toks(t: Seq<char>, i: int) -> Seq<Tk> decreases t.len() - i {
    let n = next(t, i);
    if stop(n.0) || !(i < n.1 <= t.len()) { seq![n.0] } else { seq![n.0] + toks(t, n.1) }
}
pub proof fn lemma_next(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures !stop(next(t, i).0) ==> i < next(t, i).1 <= t.len(),
{
    reveal_strlit("graph");
    let k = skip(t, i); lemma_skip(t, i);
    if k < t.len() {
        lemma_quoted(t, k + 1); lemma_ends(t, k); lemma_ends(t, k + 1); lemma_num_end(t, k, false); lemma_num_end(t, k + 1, false); ax_numeric();
    }
}
impl DotParser {
    pub open spec fn wf(self) -> bool { self.lexer.wf() }
    pub open spec fn good(self) -> bool { self.wf() && plain(self.lexer.input@) && (!stop(tk(self.tok)) ==> self.lexer.good()) }
    #[verifier::opaque]
    pub open spec fn rest(self) -> Seq<Tk> { if stop(tk(self.tok)) { seq![tk(self.tok)] } else { seq![tk(self.tok)] + toks(self.lexer.input@, self.lexer.at()) } }
    pub open spec fn work(self) -> int { 2 * self.lexer.left() + if stop(tk(self.tok)) { 0int } else { 1int } }
    // what every step of the parser keeps
    pub open spec fn from(self, o: DotParser) -> bool { self.wf() && self.lexer.input == o.lexer.input && self.work() <= o.work() && (o.good() ==> self.good() && self.rest().len() <= o.rest().len()) }
    pub open spec fn past(self, o: DotParser) -> bool { self.work() < o.work() && (o.good() ==> self.rest().len() < o.rest().len()) }
}

pub broadcast proof fn lemma_rest(p: DotParser)
    ensures (#[trigger] p.rest()).len() >= 1, p.rest()[0] == tk(p.tok), stop(tk(p.tok)) ==> p.rest() == seq![tk(p.tok)], !stop(tk(p.tok)) ==> p.rest().len() >= 2
{ reveal(DotParser::rest); }
pub broadcast proof fn lemma_skip2(s: Seq<Tk>, a: int, b: int) requires 0 <= a, 0 <= b, a + b <= s.len() ensures #[trigger] s.skip(a).skip(b) == s.skip(a + b) { assert(s.skip(a).skip(b) =~= s.skip(a + b)); }
pub broadcast proof fn lemma_push_add<T>(a: Seq<T>, x: T, b: Seq<T>) ensures #[trigger] (a.push(x) + b) == a + (seq![x] + b) { assert(a.push(x) + b =~= a + (seq![x] + b)); }
pub broadcast proof fn lemma_add_nil<T>(a: Seq<T>) ensures #[trigger] (a + Seq::<T>::empty()) == a { assert(a + Seq::<T>::empty() =~= a); }
pub broadcast proof fn lemma_nil_add<T>(a: Seq<T>) ensures #[trigger] (Seq::<T>::empty() + a) == a { assert(Seq::<T>::empty() + a =~= a); }
broadcast group grp { lemma_sub, lemma_rest, lemma_skip2, lemma_push_add, lemma_add_nil, lemma_nil_add }
// ---- what a list of tokens spells (separators may be repeated freely) ----
pub open spec fn tkn(s: Seq<Tk>, i: int) -> Tk { if 0 <= i < s.len() { s[i] } else { Tk::Error } }
// '[' was read: a=b pairs up to ']'
pub open spec fn g_attrs(s: Seq<Tk>) -> Option<(AttrsV, Seq<Tk>)> decreases s.len() {
    if s.len() == 0 { None } else { match s[0] {
        Tk::CloseBracket => Some((seq![], s.skip(1))),
        Tk::Semicolon => g_attrs(s.skip(1)),
        Tk::Comma => g_attrs(s.skip(1)),
        Tk::Ident(a) => match tkn(s, 2) { Tk::Ident(b) => if tkn(s, 1) == Tk::Equal { match g_attrs(s.skip(3)) { None => None, Some((l, r)) => Some((seq![(a, b)] + l, r)) } } else { None }, _ => None },
        _ => None,
    } }
}
pub open spec fn g_id(s: Seq<Tk>) -> Option<(IdV, Seq<Tk>)> {
    match tkn(s, 0) {
        Tk::Ident(n) => if tkn(s, 1) == Tk::Colon { match tkn(s, 2) { Tk::Ident(p) => Some((IdV { name: n, port: Some(p) }, s.skip(3))), _ => None } } else { Some((IdV { name: n, port: None }, s.skip(1))) },
        _ => None,
    }
}
pub open spec fn arrow(k: Tk) -> Option<ArrowKind> { if k == Tk::ArrowRight { Some(ArrowKind::Arrow) } else if k == Tk::ArrowLine { Some(ArrowKind::Line) } else { None } }
pub open spec fn g_hops(s: Seq<Tk>) -> Option<(Seq<(IdV, ArrowKind)>, Seq<Tk>)> decreases s.len() {
    match arrow(tkn(s, 0)) {
        None => Some((seq![], s)),
        Some(k) => match g_id(s.skip(1)) { None => None, Some((id, r)) => if r.len() < s.len() { match g_hops(r) { None => None, Some((l, q)) => Some((seq![(id, k)] + l, q)) } } else { None } },
    }
}
pub open spec fn target(k: Tk) -> Option<AttrStmtTarget> { if k == Tk::GraphKW { Some(AttrStmtTarget::Graph) } else if k == Tk::NodeKW { Some(AttrStmtTarget::Node) } else if k == Tk::EdgeKW { Some(AttrStmtTarget::Edge) } else { None } }
// a name, if there is one
pub open spec fn g_name(s: Seq<Tk>) -> (Seq<char>, Seq<Tk>) { match tkn(s, 0) { Tk::Ident(n) => (n, s.skip(1)), _ => (""@, s) } }
pub open spec fn g_stmt(s: Seq<Tk>) -> Option<(StV, Seq<Tk>)> decreases s.len(), 0int {
    match tkn(s, 0) {
        Tk::Ident(_) => match g_id(s) {
            None => None,
            Some((id, r)) =>
                if arrow(tkn(r, 0)) is Some { match g_hops(r) {
                    None => None,
                    Some((l, q)) => if tkn(q, 0) == Tk::OpenBracket { match g_attrs(q.skip(1)) { None => None, Some((a, z)) => Some((StV::Edge(id, l, a), z)) } } else { Some((StV::Edge(id, l, seq![]), q)) },
                } }
                else if tkn(r, 0) == Tk::Equal { match tkn(r, 1) { Tk::Ident(v) => if id.port is None { Some((StV::Attribute(AttrStmtTarget::Graph, seq![(id.name, v)]), r.skip(2))) } else { None }, _ => None } }
                else if tkn(r, 0) == Tk::OpenBracket { match g_attrs(r.skip(1)) { None => None, Some((a, z)) => Some((StV::Node(id, a), z)) } }
                else { Some((StV::Node(id, seq![]), r)) },
        },
        Tk::SubgraphKW => g_body(s.skip(1)),
        Tk::OpenBrace => if s.len() > 0 { match g_stmts(s.skip(1)) { None => None, Some((l, r)) => Some((StV::Sub("anonymous"@, l), r)) } } else { None },
        k => match target(k) { None => None, Some(t) => if tkn(s, 1) == Tk::OpenBracket { match g_attrs(s.skip(2)) { None => None, Some((a, z)) => Some((StV::Attribute(t, a), z)) } } else { None } },
    }
}
// [ name ] '{' statements '}'
pub open spec fn g_body(s: Seq<Tk>) -> Option<(StV, Seq<Tk>)> decreases s.len(), 2int {
    let n = g_name(s);
    if tkn(n.1, 0) == Tk::OpenBrace { match g_stmts(n.1.skip(1)) { None => None, Some((l, r)) => Some((StV::Sub(n.0, l), r)) } } else { None }
}
// statements up to '}'
pub open spec fn g_stmts(s: Seq<Tk>) -> Option<(Seq<StV>, Seq<Tk>)> decreases s.len(), 1int {
    if s.len() == 0 { None }
    else if s[0] == Tk::Semicolon { g_stmts(s.skip(1)) }
    else if s[0] == Tk::CloseBrace { Some((seq![], s.skip(1))) }
    else { match g_stmt(s) { None => None, Some((x, r)) => if r.len() < s.len() { match g_stmts(r) { None => None, Some((l, q)) => Some((seq![x] + l, q)) } } else { None } } }
}
pub open spec fn pre_attrs(l: AttrsV, o: Option<(AttrsV, Seq<Tk>)>) -> Option<(AttrsV, Seq<Tk>)> { match o { None => None, Some((x, r)) => Some((l + x, r)) } }
pub open spec fn pre_hops(l: Seq<(IdV, ArrowKind)>, o: Option<(Seq<(IdV, ArrowKind)>, Seq<Tk>)>) -> Option<(Seq<(IdV, ArrowKind)>, Seq<Tk>)> { match o { None => None, Some((x, r)) => Some((l + x, r)) } }
pub open spec fn pre_stmts(l: Seq<StV>, o: Option<(Seq<StV>, Seq<Tk>)>) -> Option<(Seq<StV>, Seq<Tk>)> { match o { None => None, Some((x, r)) => Some((l + x, r)) } }
// ---- texts that have to be accepted: one separator at most between two pairs or statements ----
pub open spec fn drop1(s: Seq<Tk>, comma: bool) -> Seq<Tk> { if tkn(s, 0) == Tk::Semicolon || (comma && tkn(s, 0) == Tk::Comma) { s.skip(1) } else { s } }
pub open spec fn w_attrs(s: Seq<Tk>) -> bool decreases s.len() {
    match tkn(s, 0) {
        Tk::CloseBracket => true,
        Tk::Ident(_) => s.len() > 3 && tkn(s, 1) == Tk::Equal && tkn(s, 2) is Ident && w_attrs(drop1(s.skip(3), true)),
        _ => false,
    }
}
pub open spec fn w_hops(s: Seq<Tk>) -> bool { match g_hops(s) { None => false, Some((l, q)) => tkn(q, 0) == Tk::OpenBracket ==> w_attrs(q.skip(1)) } }
pub open spec fn w_stmt(s: Seq<Tk>) -> bool decreases s.len(), 0int {
    match tkn(s, 0) {
        Tk::Ident(_) => match g_id(s) {
            None => false,
            Some((id, r)) =>
                if arrow(tkn(r, 0)) is Some { w_hops(r) }
                else if tkn(r, 0) == Tk::Equal { tkn(r, 1) is Ident && id.port is None }
                else if tkn(r, 0) == Tk::OpenBracket { w_attrs(r.skip(1)) }
                else { tkn(r, 0) is Ident || tkn(r, 0) == Tk::Semicolon || tkn(r, 0) == Tk::CloseBrace },
        },
        Tk::SubgraphKW => w_body(s.skip(1)),
        Tk::OpenBrace => s.len() > 0 && w_stmts(s.skip(1)),
        k => target(k) is Some && tkn(s, 1) == Tk::OpenBracket && w_attrs(s.skip(2)),
    }
}
pub open spec fn w_body(s: Seq<Tk>) -> bool decreases s.len(), 2int { let n = g_name(s); tkn(n.1, 0) == Tk::OpenBrace && w_stmts(n.1.skip(1)) }
pub open spec fn w_stmts(s: Seq<Tk>) -> bool decreases s.len(), 1int {
    if s.len() == 0 { false }
    else if s[0] == Tk::CloseBrace { true }
    else { w_stmt(s) && match g_stmt(s) { None => false, Some((x, r)) => r.len() < s.len() && w_stmts(drop1(r, false)) } }
}
pub proof fn lemma_begins(s: Seq<Tk>) requires w_stmts(s) ensures tkn(s, 0) != Tk::Semicolon { reveal_with_fuel(w_stmts, 2); reveal_with_fuel(w_stmt, 2); }
// what may be left where the next statement starts
pub open spec fn w_more(s: Seq<Tk>) -> bool { w_stmts(drop1(s, false)) }
pub open spec fn w_text(s: Seq<Tk>) -> bool {
    let a = if tkn(s, 0) == Tk::StrictKW { s.skip(1) } else { s };
    g_text(s) is Some && w_body(a.skip(1))
}
// the whole text
pub open spec fn g_text(s: Seq<Tk>) -> Option<StV> {
    let a = if tkn(s, 0) == Tk::StrictKW { s.skip(1) } else { s };
    if tkn(a, 0) == Tk::GraphKW || tkn(a, 0) == Tk::DigraphKW || tkn(a, 0) == Tk::SubgraphKW { match g_body(a.skip(1)) { None => None, Some((g, r)) => if r == seq![Tk::EOF] { Some(g) } else { None } } } else { None }
}
@end
@fn to_error
ret r
ensures r is Err,
@fn DotParser::new
ret r
ensures r.wf(), r.lexer.input@ == input@, tk(r.tok) == Tk::Colon, plain(input@) ==> r.good() && r.rest() == seq![Tk::Colon] + toks(input@, 0),
@start
proof { reveal(DotParser::rest); }
@fn DotParser::print_error
requires self.lexer.input.len() <= i32::MAX,
@fn DotParser::lex
requires old(self).wf(), !stop(tk(old(self).tok)),
ensures final(self).from(*old(self)), final(self).past(*old(self)),
    old(self).good() ==> final(self).rest() == old(self).rest().skip(1),
@end_fn
proof { reveal(DotParser::rest); if old(self).good() { assert(self.rest() =~= old(self).rest().skip(1)); } }
@start
proof { reveal(DotParser::rest); if self.good() { lemma_next(self.lexer.input@, self.lexer.at()); } }
@fn DotParser::parse_graph rlimit=60 spinoff_prover
ret r
requires old(self).wf(),
ensures final(self).from(*old(self)), r is Ok ==> final(self).past(*old(self)),
    old(self).good() && r is Ok ==> ({
        let s = old(self).rest();
        let a = if !is_subgraph && tkn(s, 0) == Tk::StrictKW { s.skip(1) } else { s };
        &&& if is_subgraph { tkn(a, 0) == Tk::SubgraphKW } else { tkn(a, 0) == Tk::GraphKW || tkn(a, 0) == Tk::DigraphKW || tkn(a, 0) == Tk::SubgraphKW }
        &&& g_body(a.skip(1)) == Some((StV::Sub(r->Ok_0.name@, stvs(r->Ok_0.list.list@)), final(self).rest()))
    }),
    old(self).good() && ({
        let s = old(self).rest();
        let a = if !is_subgraph && tkn(s, 0) == Tk::StrictKW { s.skip(1) } else { s };
        &&& if is_subgraph { tkn(a, 0) == Tk::SubgraphKW } else { tkn(a, 0) == Tk::GraphKW || tkn(a, 0) == Tk::DigraphKW || tkn(a, 0) == Tk::SubgraphKW }
        &&& w_body(a.skip(1))
    }) ==> r is Ok,
decreases old(self).work(), 0int,
@start
broadcast use grp;
proof { reveal_strlit(""); }
@fn DotParser::parse_stmt_list
ret r
requires old(self).wf(),
ensures final(self).from(*old(self)), r is Ok ==> final(self).past(*old(self)),
    old(self).good() && r is Ok ==> g_stmts(old(self).rest()) == Some((stvs(r->Ok_0.list@), final(self).rest())),
    old(self).good() && w_stmts(old(self).rest()) ==> r is Ok,
decreases old(self).work(), 2int,
@start
broadcast use grp;
@loop 1
invariant self.from(*old(self)),
    old(self).good() ==> g_stmts(old(self).rest()) == pre_stmts(stvs(lst.list@), g_stmts(self.rest())),
    old(self).good() && w_stmts(old(self).rest()) ==> w_more(self.rest()),
decreases self.work(),
@loopstart 1
broadcast use grp;
let ghost s0 = self.rest(); let ghost l0 = stvs(lst.list@); let ghost s1 = drop1(s0, false);
proof { if old(self).good() { assert(g_stmts(s0) == g_stmts(s1)); } }

@loopend 1
proof { if old(self).good() {
    assert(stvs(lst.list@) =~= l0.push(stv(lst.list@.last())));
    let g = g_stmt(s1)->0;
    assert(g_stmts(s1) == pre_stmts(seq![stv(lst.list@.last())], g_stmts(g.1)));
    assert(g_stmts(g.1) == g_stmts(self.rest()));
    if w_more(s0) { let q = drop1(g.1, false); assert(w_stmts(s1)); assert(w_stmts(q)); lemma_begins(q); assert(drop1(q, false) == q); }
} }
@fn DotParser::parse_stmt
ret r
requires old(self).wf(),
ensures final(self).from(*old(self)), r is Ok ==> final(self).past(*old(self)),
    old(self).good() && r is Ok ==> (g_stmt(old(self).rest()) matches Some((x, q)) && x == stv(r->Ok_0) && q.len() < old(self).rest().len() && (final(self).rest() == q || (tkn(q, 0) == Tk::Semicolon && final(self).rest() == q.skip(1)))),
    old(self).good() && w_stmt(old(self).rest()) ==> r is Ok,
decreases old(self).work(), 1int,
@start
broadcast use grp;
@fn DotParser::parse_attr_list
ret r
requires old(self).wf(),
ensures final(self).from(*old(self)), r is Ok ==> final(self).past(*old(self)),
    old(self).good() && r is Ok ==> tkn(old(self).rest(), 0) == Tk::OpenBracket && g_attrs(old(self).rest().skip(1)) == Some((attrs(r->Ok_0), final(self).rest())),
    old(self).good() && tkn(old(self).rest(), 0) == Tk::OpenBracket && w_attrs(old(self).rest().skip(1)) ==> r is Ok,
@start
broadcast use grp;
@loop 1
invariant self.from(*old(self)), self.past(*old(self)),
    old(self).good() ==> tkn(old(self).rest(), 0) == Tk::OpenBracket && g_attrs(old(self).rest().skip(1)) == pre_attrs(attrs(lst), g_attrs(self.rest())),
    old(self).good() && w_attrs(old(self).rest().skip(1)) ==> w_attrs(self.rest()),
decreases self.work(),
@loopstart 1
broadcast use grp;
let ghost s0 = self.rest(); let ghost a0 = attrs(lst);

@loopend 1
proof { if old(self).good() {
    let n = (tkn(s0, 0)->Ident_0, tkn(s0, 2)->Ident_0);
    assert(g_attrs(s0) == pre_attrs(seq![n], g_attrs(s0.skip(3))));
    assert(attrs(lst) == a0.push(n));
    assert(g_attrs(s0.skip(3)) == g_attrs(self.rest())) by { reveal_with_fuel(g_attrs, 3); }
    if w_attrs(s0) { let q = drop1(s0.skip(3), true); assert(w_attrs(q)); assert(tkn(q, 0) is CloseBracket || tkn(q, 0) is Ident); assert(self.rest() == q); }
} }
@fn DotParser::is_edge_token
ret r
ensures r == (arrow(tk(self.tok)) is Some),
@fn DotParser::parse_attribute_stmt
ret r
requires old(self).wf(),
ensures final(self).from(*old(self)), r is Ok ==> final(self).past(*old(self)),
    old(self).good() && r is Ok ==> ({
        let s = old(self).rest();
        &&& id.port is None && tkn(s, 0) == Tk::Equal
        &&& tkn(s, 1) matches Tk::Ident(v) && stv(Stmt::Attribute(r->Ok_0)) == StV::Attribute(AttrStmtTarget::Graph, seq![(id.name@, v)])
        &&& final(self).rest() == s.skip(2)
    }),
    old(self).good() && id.port is None && tkn(old(self).rest(), 0) == Tk::Equal && tkn(old(self).rest(), 1) is Ident ==> r is Ok,
@start
broadcast use grp;
@fn DotParser::parse_edge_stmt
ret r
requires old(self).wf(),
ensures final(self).from(*old(self)), r is Ok && arrow(tk(old(self).tok)) is Some ==> final(self).past(*old(self)),
    old(self).good() && r is Ok ==> ({
        let s = old(self).rest();
        &&& g_hops(s) matches Some((l, q))
        &&& nid(r->Ok_0.from) == nid(id) && hops(r->Ok_0.to@) == l
        &&& if tkn(q, 0) == Tk::OpenBracket { g_attrs(q.skip(1)) == Some((attrs(r->Ok_0.list), final(self).rest())) } else { attrs(r->Ok_0.list) == Seq::<(Seq<char>, Seq<char>)>::empty() && final(self).rest() == q }
    }),
    old(self).good() && w_hops(old(self).rest()) ==> r is Ok,
@start
broadcast use grp;
@loop 1
invariant self.from(*old(self)), nid(es.from) == nid(id), attrs(es.list) =~= Seq::empty(), arrow(tk(old(self).tok)) is Some ==> *self == *old(self) || self.past(*old(self)),
    old(self).good() ==> g_hops(old(self).rest()) == pre_hops(hops(es.to@), g_hops(self.rest())),
decreases self.work(),
@loopstart 1
broadcast use grp;
let ghost s0 = self.rest(); let ghost h0 = hops(es.to@);
@loopend 1
proof { if old(self).good() { assert(g_id(s0.skip(1)) is Some); assert(self.rest().len() < s0.len()); assert(g_hops(s0) == pre_hops(seq![(nid(id), ak)], g_hops(self.rest()))); } }
@fn DotParser::parse_node_id
ret r
requires old(self).wf(),
ensures final(self).from(*old(self)), r is Ok ==> final(self).past(*old(self)),
    old(self).good() && r is Ok ==> g_id(old(self).rest()) == Some((nid(r->Ok_0), final(self).rest())),
    old(self).good() && g_id(old(self).rest()) is Some ==> r is Ok,
@start
broadcast use grp;
@fn DotParser::process
ret r
requires old(self).wf(), tk(old(self).tok) == Tk::Colon,
ensures final(self).wf(),
    old(self).good() && r is Ok ==> g_text(old(self).rest().skip(1)) == Some(StV::Sub(r->Ok_0.name@, stvs(r->Ok_0.list.list@))),
    old(self).good() && w_text(old(self).rest().skip(1)) ==> r is Ok,
@start
broadcast use grp;
