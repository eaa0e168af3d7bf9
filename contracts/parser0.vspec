@module parser0
@use base lexer0 ast0
@file gv/parser/parser.rs
@struct DotParser
@code
use super::ast0 as ast;
impl DotParser {
    pub open spec fn wf(self) -> bool { self.lexer.wf() }
    pub open spec fn work(self) -> int { 2 * self.lexer.left() + if stop(self.tok) { 0int } else { 1int } }
    pub open spec fn from(self, o: DotParser) -> bool { self.wf() && self.lexer.input == o.lexer.input && self.work() <= o.work() }
}
@end
@fn to_error
ret r
ensures r is Err,
@fn DotParser::new
ret r
ensures r.wf(), r.lexer.input@ == input@, r.tok is Colon,
@fn DotParser::print_error
requires self.lexer.input.len() <= i32::MAX,
@fn DotParser::lex
requires old(self).wf(), !stop(old(self).tok),
ensures final(self).from(*old(self)), final(self).work() < old(self).work(),
@fn DotParser::parse_graph
ret r
requires old(self).wf(),
ensures final(self).from(*old(self)), r is Ok ==> final(self).work() < old(self).work(),
decreases old(self).work(), 0int,
@fn DotParser::parse_stmt_list
ret r
requires old(self).wf(),
ensures final(self).from(*old(self)), r is Ok ==> final(self).work() < old(self).work(),
decreases old(self).work(), 2int,
@loop 1
invariant self.from(*old(self)),
decreases self.work(),
@fn DotParser::parse_stmt
ret r
requires old(self).wf(),
ensures final(self).from(*old(self)), r is Ok ==> final(self).work() < old(self).work(),
decreases old(self).work(), 1int,
@fn DotParser::parse_attr_list
ret r
requires old(self).wf(),
ensures final(self).from(*old(self)), r is Ok ==> final(self).work() < old(self).work(),
@loop 1
invariant self.from(*old(self)), self.work() < old(self).work(),
decreases self.work(),
@fn DotParser::parse_attribute_stmt
ret r
requires old(self).wf(),
ensures final(self).from(*old(self)), r is Ok ==> final(self).work() < old(self).work(),
@fn DotParser::parse_edge_stmt
ret r
requires old(self).wf(),
ensures final(self).from(*old(self)), r is Ok && (old(self).tok is ArrowLine || old(self).tok is ArrowRight) ==> final(self).work() < old(self).work(),
@loop 1
invariant self.from(*old(self)), *self == *old(self) || self.work() < old(self).work(),
decreases self.work(),
@fn DotParser::parse_node_id
ret r
requires old(self).wf(),
ensures final(self).from(*old(self)), r is Ok ==> final(self).work() < old(self).work(),
@fn DotParser::is_edge_token
ret r
ensures r == (self.tok is ArrowLine || self.tok is ArrowRight),
@fn DotParser::process
requires old(self).wf(), old(self).tok is Colon,
ensures final(self).wf(),
