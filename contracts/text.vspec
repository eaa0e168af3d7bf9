@module text
@use base
@code
// ---- operations on text that the standard library provides: assumed, over characters and byte offsets ----
// Unicode white space
pub uninterp spec fn blank(c: char) -> bool;
pub open spec fn ltrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && blank(s[0]) { ltrim(s.skip(1)) } else { s } }
pub open spec fn rtrim(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && blank(s.last()) { rtrim(s.drop_last()) } else { s } }
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> { rtrim(ltrim(s)) }
// the length of the UTF-8 encoding
pub uninterp spec fn ulen(c: char) -> nat;
pub broadcast axiom fn ax_ulen(c: char) ensures 1 <= #[trigger] ulen(c) <= 4, c < '\u{80}' ==> ulen(c) == 1;
pub open spec fn bytes(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { bytes(s.drop_last()) + ulen(s.last()) } }
// the character index i is the byte offset b
pub open spec fn off(s: Seq<char>, i: int, b: int) -> bool { 0 <= i <= s.len() && bytes(s.take(i)) == b }
pub proof fn lemma_off_next(s: Seq<char>, i: int) requires 0 <= i < s.len() ensures bytes(s.take(i + 1)) == bytes(s.take(i)) + ulen(s[i])
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn lemma_off_mono(s: Seq<char>, i: int, j: int) requires 0 <= i < j <= s.len() ensures bytes(s.take(i)) < bytes(s.take(j)) decreases j - i
{ broadcast use ax_ulen; lemma_off_next(s, j - 1); if i < j - 1 { lemma_off_mono(s, i, j - 1); } }
// where a character, or a text, occurs first and last (-1: nowhere)
pub open spec fn index_of(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { -1 } else if s[0] == c { 0 } else { let k = index_of(s.skip(1), c); if k < 0 { -1 } else { k + 1 } } }
pub open spec fn last_of(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { -1 } else if s.last() == c { s.len() - 1 } else { last_of(s.drop_last(), c) } }
pub open spec fn text_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn index_from(s: Seq<char>, p: Seq<char>, i: int) -> int decreases s.len() - i + 1 { if i > s.len() { -1 } else if text_at(s, p, i) { i } else { index_from(s, p, i + 1) } }
pub open spec fn last_from(s: Seq<char>, p: Seq<char>, i: int) -> int decreases i + 1 { if i < 0 { -1 } else if text_at(s, p, i) { i } else { last_from(s, p, i - 1) } }
pub proof fn lemma_index_of(s: Seq<char>, c: char)
    ensures ({ let i = index_of(s, c); -1 <= i < s.len() && (i >= 0 ==> s[i] == c) && forall|j: int| 0 <= j < (if i < 0 { s.len() as int } else { i }) ==> s[j] != c }),
    decreases s.len()
{ if s.len() > 0 && s[0] != c { let t = s.skip(1); lemma_index_of(t, c); assert forall|j: int| 0 <= j < (if index_of(s, c) < 0 { s.len() as int } else { index_of(s, c) }) implies s[j] != c by { if j > 0 { assert(t[j - 1] == s[j]); } } } }
pub trait VxPat: Sized { spec fn first(self, s: Seq<char>) -> int; spec fn last(self, s: Seq<char>) -> int; spec fn starts(self, s: Seq<char>) -> bool; spec fn ends(self, s: Seq<char>) -> bool; spec fn plen(self) -> nat; }
impl VxPat for char { open spec fn first(self, s: Seq<char>) -> int { index_of(s, self) } open spec fn last(self, s: Seq<char>) -> int { last_of(s, self) } open spec fn starts(self, s: Seq<char>) -> bool { s.len() > 0 && s[0] == self } open spec fn ends(self, s: Seq<char>) -> bool { s.len() > 0 && s.last() == self } open spec fn plen(self) -> nat { 1 } }
impl VxPat for &str { open spec fn first(self, s: Seq<char>) -> int { index_from(s, self@, 0) } open spec fn last(self, s: Seq<char>) -> int { last_from(s, self@, s.len() as int) } open spec fn starts(self, s: Seq<char>) -> bool { text_at(s, self@, 0) } open spec fn ends(self, s: Seq<char>) -> bool { text_at(s, self@, s.len() - self@.len()) } open spec fn plen(self) -> nat { self@.len() } }
impl VxPat for &String { open spec fn first(self, s: Seq<char>) -> int { index_from(s, self@, 0) } open spec fn last(self, s: Seq<char>) -> int { last_from(s, self@, s.len() as int) } open spec fn starts(self, s: Seq<char>) -> bool { text_at(s, self@, 0) } open spec fn ends(self, s: Seq<char>) -> bool { text_at(s, self@, s.len() - self@.len()) } open spec fn plen(self) -> nat { self@.len() } }
pub open spec fn byte_of(s: Seq<char>, i: int, r: Option<usize>) -> bool { if i < 0 { r is None } else { r matches Some(b) && off(s, i, b as int) && b <= isize::MAX } }
// numbers as u32::from_str_radix and str::parse read them: an optional plus sign, then digits
pub open spec fn digit(c: char, radix: int) -> int {
    let d = if '0' <= c && c <= '9' { c as int - 48 } else if 'a' <= c && c <= 'z' { c as int - 97 + 10 } else if 'A' <= c && c <= 'Z' { c as int - 65 + 10 } else { -1 };
    if d < radix { d } else { -1 }
}
pub open spec fn digits(s: Seq<char>, radix: int) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i], radix) >= 0 }
pub open spec fn value(s: Seq<char>, radix: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { value(s.drop_last(), radix) * radix + digit(s.last(), radix) } }
pub open spec fn number(s: Seq<char>, radix: int, bound: int) -> Option<int> {
    let t = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if t.len() > 0 && digits(t, radix) && value(t, radix) <= bound { Some(value(t, radix)) } else { None }
}
pub open spec fn strip(s: Seq<char>, c: char) -> Seq<char> decreases s.len() { if s.len() > 0 && s[0] == c { strip(s.skip(1), c) } else { s } }
#[verifier::external_body]
pub struct NoNumber {}
#[verifier::external_body]
pub fn vx_u32_from_str_radix(s: &str, radix: u32) -> (r: Result<u32, NoNumber>)
    requires 2 <= radix <= 36,
    ensures match number(s@, radix as int, u32::MAX as int) { Some(v) => r matches Ok(x) && x == v, None => r is Err },
{ unimplemented!() }
// what {:08x} prints
pub open spec fn hex_digit(d: int) -> char { if d < 10 { (48 + d) as char } else { (97 + d - 10) as char } }
pub open spec fn hex_text(v: int, k: nat) -> Seq<char> decreases k { if k == 0 { seq![] } else { hex_text(v / 16, (k - 1) as nat).push(hex_digit(v % 16)) } }
#[verifier::external_body]
pub fn vx_disp_08x(x: &u32) -> (r: String) ensures r@ == hex_text(*x as int, 8) { unimplemented!() }
// .len() in bytes
pub trait VxLen { spec fn vlen(&self) -> nat; fn vx_len(&self) -> (r: usize) ensures r == self.vlen(); }
impl VxLen for str { open spec fn vlen(&self) -> nat { bytes(self@) } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } }
impl VxLen for String { open spec fn vlen(&self) -> nat { bytes(self@) } #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } }
impl<T> VxLen for Vec<T> { open spec fn vlen(&self) -> nat { self@.len() } fn vx_len(&self) -> (r: usize) { self.len() } }
impl<T> VxLen for [T] { open spec fn vlen(&self) -> nat { self@.len() } fn vx_len(&self) -> (r: usize) { self.len() } }
// the case of a character is left open
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn alower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn aupper(s: Seq<char>) -> Seq<char>;
pub trait VxText {
    spec fn tv(&self) -> Seq<char>;
    fn vx_trim_start(&self) -> (r: &str) ensures r@ == ltrim(self.tv());
    fn vx_trim_end(&self) -> (r: &str) ensures r@ == rtrim(self.tv());
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == p.ends(self.tv());
    fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) ensures r is Some <==> p.starts(self.tv()), r matches Some(x) ==> x@ == self.tv().skip(p.plen() as int);
    fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>) ensures r is Some <==> p.ends(self.tv()), r matches Some(x) ==> x@ == self.tv().take(self.tv().len() - p.plen());
    fn vx_to_lowercase(&self) -> (r: String) ensures r@ == lower(self.tv());
    fn vx_to_uppercase(&self) -> (r: String) ensures r@ == upper(self.tv());
    fn vx_to_ascii_lowercase(&self) -> (r: String) ensures r@ == alower(self.tv());
    fn vx_to_ascii_uppercase(&self) -> (r: String) ensures r@ == aupper(self.tv());
    fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (alower(self.tv()) == alower(o@));
    fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.tv());
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == p.starts(self.tv());
    fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) ensures byte_of(self.tv(), p.first(self.tv()), r);
    fn vx_rfind<P: VxPat>(&self, p: P) -> (r: Option<usize>) ensures byte_of(self.tv(), p.last(self.tv()), r);
    fn vx_trim_start_matches(&self, c: char) -> (r: &str) ensures r@ == strip(self.tv(), c);
    fn vx_parse_usize(&self) -> (r: Result<usize, NoNumber>) ensures match number(self.tv(), 10, usize::MAX as int) { Some(v) => r matches Ok(x) && x == v, None => r is Err };
    fn vx_parse_u32(&self) -> (r: Result<u32, NoNumber>) ensures match number(self.tv(), 10, u32::MAX as int) { Some(v) => r matches Ok(x) && x == v, None => r is Err };
    fn vx_slice(&self, a: usize, b: usize) -> (r: &str)
        requires a <= b, exists|i: int| #[trigger] off(self.tv(), i, a as int), exists|i: int| #[trigger] off(self.tv(), i, b as int)
        ensures forall|i: int, j: int| #[trigger] off(self.tv(), i, a as int) && #[trigger] off(self.tv(), j, b as int) ==> i <= j && r@ == self.tv().subrange(i, j);
    fn vx_from(&self, a: usize) -> (r: &str)
        requires exists|i: int| #[trigger] off(self.tv(), i, a as int)
        ensures forall|i: int| #[trigger] off(self.tv(), i, a as int) ==> r@ == self.tv().skip(i);
}
impl VxText for str {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_parse_usize(&self) -> (r: Result<usize, NoNumber>) { unimplemented!() }
    #[verifier::external_body] fn vx_parse_u32(&self) -> (r: Result<u32, NoNumber>) { unimplemented!() }
    #[verifier::external_body] fn vx_slice(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &str) { &self[a..] }
}
impl VxText for String {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind<P: VxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_parse_usize(&self) -> (r: Result<usize, NoNumber>) { unimplemented!() }
    #[verifier::external_body] fn vx_parse_u32(&self) -> (r: Result<u32, NoNumber>) { unimplemented!() }
    #[verifier::external_body] fn vx_slice(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    #[verifier::external_body] fn vx_from(&self, a: usize) -> (r: &str) { &self[a..] }
}
// ---- the lines of a text ----
pub open spec fn unreturned(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    let i = index_of(s, '\n');
    if s.len() == 0 { Seq::empty() } else if i < 0 || i >= s.len() { seq![s] } else { seq![unreturned(s.take(i))] + lines_of(s.skip(i + 1)) }
}
#[verifier::external_body]
pub struct VxLines<'a> { s: &'a str }
impl<'a> VxLines<'a> {
    pub uninterp spec fn rest(&self) -> Seq<Seq<char>>;
    pub open spec fn left(&self) -> nat { self.rest().len() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a str>)
        ensures match r { Some(x) => old(self).rest().len() > 0 && x@ == old(self).rest()[0] && final(self).rest() == old(self).rest().skip(1), None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest() }
    { unimplemented!() }
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self.rest().len(), r <= isize::MAX { unimplemented!() }
}
pub trait VxLinesOf { spec fn lv(&self) -> Seq<char>; fn vx_lines(&self) -> (r: VxLines<'_>) ensures r.rest() == lines_of(self.lv()); }
impl VxLinesOf for str { open spec fn lv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_lines(&self) -> (r: VxLines<'_>) { unimplemented!() } }
pub trait VxCountChars { spec fn cv(&self) -> Seq<char>; fn vx_count_chars(&self) -> (r: usize) ensures r == self.cv().len(); }
impl VxCountChars for str { open spec fn cv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_count_chars(&self) -> (r: usize) { unimplemented!() } }
@end
