@module lexer0
@use base
@file gv/parser/lexer.rs
@enum Token cloneeq
@struct Lexer
@code
// ---- the standard library's character classes ----
pub assume_specification [<char>::is_ascii_whitespace] (c: &char) -> (r: bool) ensures r == white(*c);
pub assume_specification [<char>::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == alpha(*c);
pub assume_specification [<char>::is_ascii_alphanumeric] (c: &char) -> (r: bool) ensures r == (alpha(*c) || digit(*c));
pub assume_specification [<char>::is_ascii_digit] (c: &char) -> (r: bool) ensures r == digit(*c);
pub assume_specification [<char>::is_numeric] (c: char) -> (r: bool) ensures r == numeric(c);
pub open spec fn white(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\x0C' }
pub open spec fn alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
// the digits of every script
pub uninterp spec fn numeric(c: char) -> bool;
pub axiom fn ax_numeric() ensures !numeric('\0'), forall|c: char| #[trigger] digit(c) ==> numeric(c);

pub open spec fn wordy(c: char) -> bool { alpha(c) || digit(c) || c == '_' }
pub open spec fn stop(t: Token) -> bool { t is EOF || t is Error }
impl Lexer {
    pub open spec fn wf(self) -> bool { self.pos <= self.input.len() }
    // what is left to read
    pub open spec fn left(self) -> int { 2 * (self.input.len() - self.pos) + if self.ch == '\0' { 0int } else { 1int } }
    // every step keeps the cursor inside the text and never goes back
    pub open spec fn from(self, o: Lexer) -> bool { self.wf() && self.input == o.input && self.left() <= o.left() }
}
@end
@fn Lexer::from_string
ret r
ensures r.wf(), r.input@ == input@,
@fn Lexer::new
ret r
ensures r.wf(), r.input@ == input@,
@fn Lexer::print_error
requires self.input.len() <= i32::MAX,
@loop 1
invariant idx == vx_i1, 0 <= since_last_line <= vx_i1, vx_e1 <= i32::MAX,
@loop 2 noauto type=i32
@fn Lexer::has_next
ret r
ensures r == (self.pos < self.input.len()),
@fn Lexer::read_char
requires old(self).wf(),
ensures final(self).from(*old(self)), old(self).ch != '\0' ==> old(self).left() > final(self).left(), old(self).pos < old(self).input.len() ==> old(self).left() > final(self).left(),
@fn Lexer::skip_whitespace
ret r
requires old(self).wf(),
ensures final(self).from(*old(self)), r ==> old(self).left() > final(self).left(),
@loop 1
invariant self.from(*old(self)), changed ==> old(self).left() > self.left(),
decreases self.left(),
@fn Lexer::skip_comment
ret r
requires old(self).wf(),
ensures final(self).from(*old(self)), r ==> old(self).left() > final(self).left(),
@loop 1
invariant self.from(*old(self)), old(self).left() > self.left(), changed,
decreases self.left(),
@loop 2
invariant self.from(*old(self)), old(self).left() > self.left(), changed,
decreases self.left(),
@fn Lexer::read_identifier
requires old(self).wf(),
ensures final(self).from(*old(self)), wordy(old(self).ch) ==> old(self).left() > final(self).left(),
@loop 1
invariant self.from(*old(self)), *self == *old(self) || old(self).left() > self.left(),
decreases self.left(),
@fn Lexer::read_number
requires old(self).wf(),
ensures final(self).from(*old(self)), digit(old(self).ch) ==> old(self).left() > final(self).left(),
@start
proof { ax_numeric(); }
@loop 1
invariant self.from(*old(self)), !numeric('\0'), forall|c: char| #[trigger] digit(c) ==> numeric(c), (*self == *old(self) && !period) || old(self).left() > self.left(),
ensures digit(old(self).ch) ==> old(self).left() > self.left(),
decreases self.left(),
@fn Lexer::read_string
ret r
requires old(self).wf(), old(self).ch == '"',
ensures final(self).from(*old(self)), old(self).left() > final(self).left(), !(r is EOF),
@loop 1
invariant self.from(*old(self)), old(self).left() > self.left(),
decreases self.left(),
@fn Lexer::next_token
ret r
requires old(self).wf(),
ensures final(self).from(*old(self)), !stop(r) ==> old(self).left() > final(self).left(),
@start
proof { ax_numeric(); }
@loop 1
invariant self.from(*old(self)),
decreases self.left(),
