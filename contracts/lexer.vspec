@module lexer
@use base
@file gv/parser/lexer.rs
@enum Token cloneeq
@struct Lexer
@code
// ---- the standard library's character classes ----
pub assume_specification [<char>::is_ascii_whitespace] (c: &char) -> (r: bool) ensures r == white(*c);
pub assume_specification [<char>::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == alpha(*c);
pub assume_specification [<char>::is_ascii_alphanumeric] (c: &char) -> (r: bool) ensures r == (alpha(*c) || digit(*c));
pub assume_specification [<char>::is_ascii_digit] (c: &char) -> (r: bool) ensures r == digit(*c);
pub assume_specification [<char>::is_numeric] (c: char) -> (r: bool) ensures r == numeric(c);
pub open spec fn white(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\x0C' }
pub open spec fn alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
// the digits of every script
pub uninterp spec fn numeric(c: char) -> bool;
pub axiom fn ax_numeric() ensures !numeric('\0'), forall|c: char| #[trigger] digit(c) ==> numeric(c);
// a string slice is its characters
pub broadcast axiom fn ax_str(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;

// ---- what a text means: the reference lexer ----
pub enum Tk { EOF, Ident(Seq<char>), GraphKW, NodeKW, EdgeKW, DigraphKW, StrictKW, SubgraphKW, Equal, Colon, Comma, Semicolon, ArrowRight, ArrowLine, OpenBracket, CloseBracket, OpenBrace, CloseBrace, Error }
pub open spec fn tk(t: Token) -> Tk {
    match t {
        Token::EOF => Tk::EOF, Token::Identifier(s) => Tk::Ident(s@), Token::GraphKW => Tk::GraphKW, Token::NodeKW => Tk::NodeKW, Token::EdgeKW => Tk::EdgeKW, Token::DigraphKW => Tk::DigraphKW,
        Token::StrictKW => Tk::StrictKW, Token::SubgraphKW => Tk::SubgraphKW, Token::Equal => Tk::Equal, Token::Colon => Tk::Colon, Token::Comma => Tk::Comma, Token::Semicolon => Tk::Semicolon,
        Token::ArrowRight => Tk::ArrowRight, Token::ArrowLine => Tk::ArrowLine, Token::OpenBracket => Tk::OpenBracket, Token::CloseBracket => Tk::CloseBracket, Token::OpenBrace => Tk::OpenBrace, Token::CloseBrace => Tk::CloseBrace,
        Token::Error(_) => Tk::Error,
    }
}
pub open spec fn stop(k: Tk) -> bool { k == Tk::EOF || k == Tk::Error }
pub open spec fn cur(t: Seq<char>, i: int) -> char { if 0 <= i < t.len() { t[i] } else { '\0' } }
// the end of the block comment whose text starts at i
pub open spec fn block_end(t: Seq<char>, i: int) -> int decreases t.len() - i {
    if i + 1 >= t.len() { t.len() as int } else if t[i] == '*' && t[i + 1] == '/' { i + 2 } else { block_end(t, i + 1) }
}
pub open spec fn line_end(t: Seq<char>, i: int) -> int decreases t.len() - i {
    if i >= t.len() { t.len() as int } else if t[i] == '\n' { i + 1 } else { line_end(t, i + 1) }
}
pub open spec fn white_end(t: Seq<char>, i: int) -> int decreases t.len() - i { if 0 <= i < t.len() && white(t[i]) { white_end(t, i + 1) } else { i } }
pub open spec fn comment_at(t: Seq<char>, i: int) -> bool { cur(t, i) == '/' && (cur(t, i + 1) == '*' || cur(t, i + 1) == '/') }
pub open spec fn comment_end(t: Seq<char>, i: int) -> int { if cur(t, i + 1) == '*' { block_end(t, i + 2) } else { line_end(t, i + 2) } }
// where the blanks and comments that start at i end
pub open spec fn skip(t: Seq<char>, i: int) -> int decreases t.len() - i {
    if 0 <= i < t.len() {
        if white(t[i]) { skip(t, i + 1) } else if comment_at(t, i) && i < comment_end(t, i) <= t.len() { skip(t, comment_end(t, i)) } else { i }
    } else { i }
}
pub open spec fn wordy(c: char) -> bool { alpha(c) || digit(c) || c == '_' }
pub open spec fn word_end(t: Seq<char>, i: int) -> int decreases t.len() - i { if 0 <= i < t.len() && wordy(t[i]) { word_end(t, i + 1) } else { i } }
// digits with at most one period
pub open spec fn num_end(t: Seq<char>, i: int, dot: bool) -> int decreases t.len() - i {
    if 0 <= i < t.len() && t[i] == '.' && !dot { num_end(t, i + 1, true) }
    else if 0 <= i < t.len() && t[i] != '.' && numeric(t[i]) { num_end(t, i + 1, dot) }
    else { i }
}
pub open spec fn unescape(c: char) -> char { if c == 'n' || c == 'l' { '\n' } else { c } }
// the string whose text starts at i: its content and where it ends
pub open spec fn quoted(t: Seq<char>, i: int) -> Option<(Seq<char>, int)> decreases t.len() - i {
    if i < 0 || i >= t.len() { None }
    else if t[i] == '"' { Some((seq![], i + 1)) }
    else if t[i] == '\\' { if i + 1 >= t.len() { None } else { front(unescape(t[i + 1]), quoted(t, i + 2)) } }
    else { front(t[i], quoted(t, i + 1)) }
}
pub open spec fn front(c: char, q: Option<(Seq<char>, int)>) -> Option<(Seq<char>, int)> { match q { None => None, Some((s, e)) => Some((seq![c] + s, e)) } }
pub open spec fn glue(r: Seq<char>, q: Option<(Seq<char>, int)>) -> Option<(Seq<char>, int)> { match q { None => None, Some((s, e)) => Some((r + s, e)) } }
pub open spec fn keyword(s: Seq<char>) -> Tk {
    if s == "graph"@ { Tk::GraphKW } else if s == "node"@ { Tk::NodeKW } else if s == "edge"@ { Tk::EdgeKW } else if s == "digraph"@ { Tk::DigraphKW }
    else if s == "strict"@ { Tk::StrictKW } else if s == "subgraph"@ { Tk::SubgraphKW } else { Tk::Ident(s) }
}
pub open spec fn punct(c: char) -> Option<Tk> {
    if c == '=' { Some(Tk::Equal) } else if c == ';' { Some(Tk::Semicolon) } else if c == ':' { Some(Tk::Colon) } else if c == ',' { Some(Tk::Comma) }
    else if c == '[' { Some(Tk::OpenBracket) } else if c == ']' { Some(Tk::CloseBracket) } else if c == '{' { Some(Tk::OpenBrace) } else if c == '}' { Some(Tk::CloseBrace) } else { None }
}
// the token whose first character is at i, and where it ends
pub open spec fn token(t: Seq<char>, i: int) -> (Tk, int) {
    let c = cur(t, i);
    if i >= t.len() { (Tk::EOF, t.len() as int) }
    else if punct(c) is Some { (punct(c)->0, i + 1) }
    else if c == '"' { match quoted(t, i + 1) { None => (Tk::Error, i), Some((s, e)) => (Tk::Ident(s), e) } }
    else if c == '-' {
        if cur(t, i + 1) == '>' { (Tk::ArrowRight, i + 2) } else if cur(t, i + 1) == '-' { (Tk::ArrowLine, i + 2) }
        else if digit(cur(t, i + 1)) { (Tk::Ident(seq!['-'] + t.subrange(i + 1, num_end(t, i + 1, false))), num_end(t, i + 1, false)) }
        else { (Tk::Error, i) }
    }
    else if alpha(c) { (keyword(t.subrange(i, word_end(t, i))), word_end(t, i)) }
    else if digit(c) { (Tk::Ident(t.subrange(i, num_end(t, i, false))), num_end(t, i, false)) }
    else { (Tk::Error, i) }
}
// the next token after blanks and comments
pub open spec fn next(t: Seq<char>, i: int) -> (Tk, int) { token(t, skip(t, i)) }

// ---- the cursor ----
pub open spec fn plain(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != '\0' }
impl Lexer {
    pub open spec fn wf(self) -> bool { self.pos <= self.input.len() }
    // the index of the current character
    pub open spec fn at(self) -> int { if self.ch == '\0' { self.input.len() as int } else { self.pos - 1 } }
    pub open spec fn good(self) -> bool { self.wf() && plain(self.input@) && if self.ch == '\0' { self.pos == self.input.len() } else { self.pos >= 1 && self.ch == self.input[self.pos - 1] } }
    pub open spec fn left(self) -> int { 2 * (self.input.len() - self.pos) + if self.ch == '\0' { 0int } else { 1int } }
}
pub proof fn lemma_ends(t: Seq<char>, i: int)
    requires 0 <= i,
    ensures i <= t.len() ==> (i <= block_end(t, i) <= t.len() && i <= line_end(t, i) <= t.len() && i <= white_end(t, i) <= t.len() && i <= word_end(t, i) <= t.len()), i > t.len() ==> block_end(t, i) == t.len() && line_end(t, i) == t.len(),
    decreases t.len() - i
{ if i < t.len() { lemma_ends(t, i + 1); } }
pub proof fn lemma_num_end(t: Seq<char>, i: int, dot: bool)
    requires 0 <= i <= t.len(),
    ensures i <= num_end(t, i, dot) <= t.len(),
    decreases t.len() - i
{ if i < t.len() { lemma_num_end(t, i + 1, dot); lemma_num_end(t, i + 1, true); } }
pub proof fn lemma_quoted(t: Seq<char>, i: int)
    requires 0 <= i,
    ensures quoted(t, i) matches Some((s, e)) ==> i < e <= t.len(),
    decreases t.len() - i
{ if i < t.len() { lemma_quoted(t, i + 1); if i + 1 < t.len() { lemma_quoted(t, i + 2); } } }
pub proof fn lemma_white(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures skip(t, i) == skip(t, white_end(t, i)),
    decreases t.len() - i
{ if i < t.len() { lemma_white(t, i + 1); } }
pub proof fn lemma_skip(t: Seq<char>, i: int)
    requires 0 <= i <= t.len(),
    ensures i <= skip(t, i) <= t.len(),
    decreases t.len() - i
{ if i < t.len() { if white(t[i]) { lemma_skip(t, i + 1); } else if comment_at(t, i) { lemma_ends(t, i + 2); lemma_skip(t, comment_end(t, i)); } } }
@end
@fn Lexer::from_string
ret r
ensures r.wf(), r.input@ == input@, plain(input@) ==> r.good() && r.at() == 0,
@fn Lexer::new
ret r
ensures r.wf(), r.input@ == input@, plain(input@) ==> r.good() && r.at() == 0,
@fn Lexer::print_error
requires self.input.len() <= i32::MAX,
@loop 1
invariant idx == vx_i1, 0 <= since_last_line <= vx_i1, vx_e1 <= i32::MAX,
@loop 2 noauto type=i32
@fn Lexer::has_next
ret r
ensures r == (self.pos < self.input.len()),
@fn Lexer::read_char
requires old(self).wf(),
ensures final(self).wf(), final(self).input == old(self).input,
    old(self).pos < old(self).input.len() ==> final(self).pos == old(self).pos + 1 && final(self).ch == old(self).input[old(self).pos as int],
    old(self).pos == old(self).input.len() ==> final(self).pos == old(self).pos && final(self).ch == '\0',
    old(self).left() >= final(self).left(), old(self).ch != '\0' ==> old(self).left() > final(self).left(),
    old(self).good() ==> final(self).good() && final(self).at() == if old(self).at() < old(self).input.len() { old(self).at() + 1 } else { old(self).at() },
@fn Lexer::skip_whitespace
ret r
requires old(self).wf(),
ensures final(self).wf(), final(self).input == old(self).input, old(self).left() >= final(self).left(), r ==> old(self).left() > final(self).left(), r == white(old(self).ch), !white(final(self).ch), !r ==> *final(self) == *old(self),
    old(self).good() ==> final(self).good() && final(self).at() == white_end(old(self).input@, old(self).at()) && skip(old(self).input@, final(self).at()) == skip(old(self).input@, old(self).at()),
@start
proof { if self.good() { lemma_white(self.input@, self.at()); } }
@loop 1
invariant self.wf(), self.input == old(self).input, old(self).left() >= self.left(), changed ==> old(self).left() > self.left(), changed == (*self != *old(self)), changed ==> white(old(self).ch), !changed ==> *self == *old(self),
    old(self).good() ==> self.good() && 0 <= self.at() && white_end(old(self).input@, old(self).at()) == white_end(self.input@, self.at()),
decreases self.left(),
@fn Lexer::skip_comment
ret r
requires old(self).wf(),
ensures final(self).wf(), final(self).input == old(self).input, old(self).left() >= final(self).left(), r ==> old(self).left() > final(self).left(), !r ==> *final(self) == *old(self),
    old(self).good() ==> final(self).good() && r == comment_at(old(self).input@, old(self).at()) && (r ==> final(self).at() == comment_end(old(self).input@, old(self).at()) && skip(old(self).input@, final(self).at()) == skip(old(self).input@, old(self).at())),
@start
proof { lemma_ends(self.input@, self.at() + 2); }
@loop 1
invariant self.wf(), self.input == old(self).input, old(self).left() > self.left(), changed, self.ch != '\0' || !plain(self.input@),
    old(self).good() ==> self.good() && comment_at(self.input@, old(self).at()) && comment_end(self.input@, old(self).at()) == block_end(self.input@, old(self).at() + 2)
        && ((prev == '\0' && self.at() == old(self).at() + 1) || (self.at() >= old(self).at() + 2 && prev == self.ch && block_end(self.input@, self.at()) == block_end(self.input@, old(self).at() + 2))),
decreases self.left(),
@loop 2
invariant self.wf(), self.input == old(self).input, old(self).left() > self.left(), changed, self.ch != '\0' || !plain(self.input@),
    old(self).good() ==> self.good() && comment_at(self.input@, old(self).at()) && comment_end(self.input@, old(self).at()) == line_end(self.input@, old(self).at() + 2)
        && self.at() >= old(self).at() + 1 && line_end(self.input@, self.at() + 1) == line_end(self.input@, old(self).at() + 2),
decreases self.left(),
@fn Lexer::read_identifier
ret r
requires old(self).wf(),
ensures final(self).wf(), final(self).input == old(self).input, old(self).left() >= final(self).left(), wordy(old(self).ch) ==> old(self).left() > final(self).left(),
    old(self).good() ==> final(self).good() && final(self).at() == word_end(old(self).input@, old(self).at()) && r@ == old(self).input@.subrange(old(self).at(), final(self).at()),
@start
proof { reveal_strlit(""); if self.good() { lemma_ends(self.input@, self.at()); } }
@loop 1
invariant self.wf(), self.input == old(self).input, old(self).left() >= self.left(), *self != *old(self) ==> old(self).left() > self.left(), wordy(old(self).ch) && !wordy(self.ch) ==> old(self).left() > self.left(),
    old(self).good() ==> self.good() && 0 <= old(self).at() <= self.at() <= self.input.len() && word_end(old(self).input@, old(self).at()) == word_end(self.input@, self.at()) && result@ =~= old(self).input@.subrange(old(self).at(), self.at()),
decreases self.left(),
@fn Lexer::read_number
ret r
requires old(self).wf(),
ensures final(self).wf(), final(self).input == old(self).input, old(self).left() >= final(self).left(), digit(old(self).ch) ==> old(self).left() > final(self).left(),
    old(self).good() ==> final(self).good() && final(self).at() == num_end(old(self).input@, old(self).at(), false) && r@ == old(self).input@.subrange(old(self).at(), final(self).at()),
@start
proof { reveal_strlit(""); ax_numeric(); if self.good() { lemma_num_end(self.input@, self.at(), false); } }
@loop 1
invariant self.wf(), self.input == old(self).input, old(self).left() >= self.left(), !numeric('\0'), forall|c: char| #[trigger] digit(c) ==> numeric(c), *self != *old(self) ==> old(self).left() > self.left(), period && *self == *old(self) ==> false,
    old(self).good() ==> self.good() && 0 <= old(self).at() <= self.at() <= self.input.len() && num_end(old(self).input@, old(self).at(), false) == num_end(self.input@, self.at(), period) && result@ =~= old(self).input@.subrange(old(self).at(), self.at()),
ensures digit(old(self).ch) ==> old(self).left() > self.left(),
    old(self).good() ==> num_end(self.input@, self.at(), period) == self.at(),
decreases self.left(),
@fn Lexer::read_string
ret r
requires old(self).wf(), old(self).ch == '"',
ensures final(self).wf(), final(self).input == old(self).input, old(self).left() > final(self).left(), stop(tk(r)) || final(self).ch == '"', tk(r) != Tk::EOF,
    old(self).good() ==> match quoted(old(self).input@, old(self).at() + 1) {
        None => tk(r) == Tk::Error,
        Some((s, e)) => tk(r) == Tk::Ident(s) && final(self).good() && final(self).at() == e - 1,
    },
@start
proof { reveal_strlit(""); lemma_quoted(self.input@, self.at() + 1); }
@loop 1
invariant self.wf(), self.input == old(self).input, old(self).left() > self.left(),
    old(self).good() ==> self.good() && self.at() > old(self).at() && quoted(self.input@, old(self).at() + 1) == glue(result@, quoted(self.input@, self.at())),
decreases self.left(),
@fn Lexer::next_token
ret r
requires old(self).wf(),
ensures final(self).wf(), final(self).input == old(self).input, old(self).left() >= final(self).left(), !stop(tk(r)) ==> old(self).left() > final(self).left(),
    old(self).good() ==> tk(r) == next(old(self).input@, old(self).at()).0 && (tk(r) != Tk::Error ==> final(self).good() && final(self).at() == next(old(self).input@, old(self).at()).1),
@start
proof { reveal_strlit(""); ax_numeric(); reveal_strlit("-"); assert("-"@ =~= seq!['-']); reveal_strlit("graph"); reveal_strlit("node"); reveal_strlit("edge"); reveal_strlit("digraph"); reveal_strlit("strict"); reveal_strlit("subgraph"); assert(""@ =~= seq![]); assert forall|r: Seq<char>| #[trigger] (seq![].push('-') + r) == seq!['-'] + r by { assert(seq![].push('-') =~= seq!['-']); } }
broadcast use ax_str;
@loop 1
invariant self.wf(), self.input == old(self).input, old(self).left() >= self.left(), old(self).good() ==> self.good() && 0 <= self.at() <= self.input.len() && skip(self.input@, self.at()) == skip(self.input@, old(self).at()),
ensures old(self).good() ==> skip(self.input@, self.at()) == self.at(),
decreases self.left(),
