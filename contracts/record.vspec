@module record
@use base text dag types
@file gv/record.rs
@struct RecordParser
@struct RecordParserFrame
@code
// ---- a record as plain data ----
pub enum RV { Text(Seq<char>, Option<Seq<char>>), Arr(Seq<RV>) }
pub open spec fn ov(o: Option<String>) -> Option<Seq<char>> { match o { None => None, Some(s) => Some(s@) } }
pub open spec fn recv(r: RecordDef) -> RV decreases r {
    match r {
        RecordDef::Text(s, p) => RV::Text(s@, ov(p)),
        RecordDef::Array(a) => RV::Arr(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { recv(a@[i]) } else { arbitrary() })),
    }
}
pub open spec fn recvs(s: Seq<RecordDef>) -> Seq<RV> { s.map_values(|x: RecordDef| recv(x)) }
pub broadcast proof fn lemma_recv(a: Vec<RecordDef>) ensures #[trigger] recv(RecordDef::Array(a)) == RV::Arr(recvs(a@))
{ reveal_with_fuel(recv, 2); let s = Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { recv(a@[i]) } else { arbitrary() }); assert(s =~= recvs(a@)); assert(recv(RecordDef::Array(a))->Arr_0 =~= s); }
pub broadcast proof fn lemma_same(a: Vec<RecordDef>, b: Vec<RecordDef>) ensures #[trigger] a.same(b) ==> recvs(a@) == recvs(b@) { if a.same(b) { assert(recvs(a@) =~= recvs(b@)); } }

// ---- what a label means ----
// "<port> text": the text and the port of one field
pub open spec fn field(l: Seq<char>) -> (Seq<char>, Option<Seq<char>>) {
    let t = trimmed(l); let i = index_of(t, '>');
    if t.len() > 0 && t[0] == '<' && i >= 0 { (trimmed(t.skip(i + 1)), Some(t.subrange(1, i))) } else { (t, None) }
}
// the fields, with the one that is being read; blank ones are dropped
pub open spec fn flush(l: Seq<char>, a: Seq<RV>) -> Seq<RV> { if trimmed(l).len() == 0 { a } else { a.push(RV::Text(field(l).0, field(l).1)) } }
pub open spec fn closed(a: Seq<RV>) -> RV { if a.len() == 0 { RV::Text(seq![], None) } else { RV::Arr(a) } }
// the rest of a level from character i on (l: the text of the current field, a: the fields before it) and where the level ends
pub open spec fn level(s: Seq<char>, i: int, l: Seq<char>, a: Seq<RV>) -> (RV, int) decreases s.len() - i {
    if i < 0 || i >= s.len() { (closed(flush(l, a)), i) }
    else if s[i] == '{' { let r = level(s, i + 1, seq![], seq![]); if i < r.1 <= s.len() { level(s, r.1, seq![], flush(l, a).push(r.0)) } else { (r.0, r.1) } }
    else if s[i] == '|' { level(s, i + 1, seq![], flush(l, a)) }
    else if s[i] == '}' { (closed(flush(l, a)), i + 1) }
    else { level(s, i + 1, l.push(s[i]), a) }
}
pub open spec fn record(s: Seq<char>) -> RV { level(s, 0, seq![], seq![]).0 }

pub open spec fn blanks(b: Seq<char>) -> bool { forall|i: int| 0 <= i < b.len() ==> blank(#[trigger] b[i]) }
pub proof fn lemma_ltrim(b: Seq<char>, l: Seq<char>) requires blanks(b) ensures ltrim(b + l) == ltrim(l) decreases b.len()
{ if b.len() == 0 { assert(b + l =~= l); } else { assert((b + l)[0] == b[0]); assert((b + l).skip(1) =~= b.skip(1) + l); lemma_ltrim(b.skip(1), l); } }
// a text without anything but blanks
pub proof fn lemma_rtrim(s: Seq<char>) ensures rtrim(s).len() == 0 ==> blanks(s) decreases s.len()
{ if s.len() > 0 && blank(s.last()) { lemma_rtrim(s.drop_last()); if rtrim(s).len() == 0 { assert forall|i: int| 0 <= i < s.len() implies blank(#[trigger] s[i]) by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } } } } }
pub proof fn lemma_blank(s: Seq<char>) requires trimmed(s).len() == 0 ensures blanks(s) decreases s.len()
{ if s.len() > 0 { if blank(s[0]) { lemma_blank(s.skip(1)); assert forall|i: int| 0 <= i < s.len() implies blank(#[trigger] s[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } } } else { lemma_rtrim(s); } } }
pub proof fn lemma_level(s: Seq<char>, i: int, b: Seq<char>, l: Seq<char>, a: Seq<RV>)
    requires blanks(b),
    ensures level(s, i, b + l, a) == level(s, i, l, a)
    decreases s.len() - i
{
    lemma_ltrim(b, l);
    if 0 <= i < s.len() && s[i] != '{' && s[i] != '|' && s[i] != '}' { assert((b + l).push(s[i]) =~= b + l.push(s[i])); lemma_level(s, i + 1, b, l.push(s[i]), a); }
}
// leading blanks of a label do not matter
pub proof fn lemma_level_blank(s: Seq<char>, i: int, l: Seq<char>, a: Seq<RV>)
    requires trimmed(l).len() == 0,
    ensures level(s, i, l, a) == level(s, i, seq![], a)
{ lemma_blank(l); lemma_level(s, i, l, seq![], a); assert(l + seq![] =~= l); }
@end
@fn RecordParserFrame::new
ret r
ensures r.label@ =~= Seq::empty(), recvs(r.arr@) =~= Seq::empty(),
@start
proof { reveal_strlit(""); }
@fn RecordParserFrame::split_label_to_text_and_port text
ret r
ensures r.0@ == field(str@).0, ov(r.1) == field(str@).1,
@start
broadcast use ax_ulen;
proof {
    let t = trimmed(str@); let i = index_of(t, '>'); lemma_index_of(t, '>');
    if t.len() > 0 && t[0] == '<' { lemma_off_next(t, 0); assert(t.take(0).len() == 0); assert(off(t, 1, 1)); if i >= 0 { lemma_off_next(t, i); assert(off(t, i, bytes(t.take(i)) as int)); assert(off(t, i + 1, bytes(t.take(i)) as int + 1)); if i > 1 { lemma_off_mono(t, 1, i); } } }
}
@fn RecordParserFrame::finalize_label text
ensures recvs(final(self).arr@) =~= flush(old(self).label@, recvs(old(self).arr@)), trimmed(old(self).label@).len() == 0 ==> final(self).label == old(self).label, trimmed(old(self).label@).len() != 0 ==> final(self).label@ =~= Seq::empty(),
@fn RecordParserFrame::finalize_record text vxclone
ret r
ensures recv(r) == closed(flush(old(self).label@, recvs(old(self).arr@))),
@start
broadcast use lemma_recv, lemma_same;
proof { reveal_strlit(""); assert(""@ =~= seq![]); }
@fn RecordParser::new
ret r
ensures r.input@ == input@, r.pos == 0,
@fn RecordParser::parse
ret r
requires old(self).pos <= old(self).input.len(),
ensures final(self).input == old(self).input, old(self).pos <= final(self).pos <= final(self).input.len(), (recv(r), final(self).pos as int) == level(old(self).input@, old(self).pos as int, seq![], seq![]),
decreases old(self).input.len() - old(self).pos,
@loop 1
invariant self.input == old(self).input, old(self).pos <= self.pos <= self.input.len(),
    level(self.input@, old(self).pos as int, seq![], seq![]) == level(self.input@, self.pos as int, frame.label@, recvs(frame.arr@)),
decreases self.input.len() - self.pos,
@loopstart 1
let ghost l0 = frame.label@; let ghost a0 = recvs(frame.arr@); let ghost i0 = self.pos as int;
proof { if trimmed(l0).len() == 0 { lemma_ltrim(seq![], l0); assert(trimmed(seq![]).len() == 0); } }
@loopend 1
proof {
    if trimmed(l0).len() == 0 && frame.label@ == l0 { lemma_level_blank(self.input@, self.pos as int, l0, recvs(frame.arr@)); }
    if frame.label@.len() == 0 { assert(frame.label@ =~= seq![]); }
    if self.input@[i0] == '{' { assert(recvs(frame.arr@) =~= flush(l0, a0).push(level(self.input@, i0 + 1, seq![], seq![]).0)); }
    else if self.input@[i0] == '|' { assert(recvs(frame.arr@) =~= flush(l0, a0)); }
}
@fn parse_record_string
ret r
ensures recv(r) == record(label@),
@fn record_builder
ret r
ensures r matches ShapeKind::Record(d) && recv(d) == record(label@),
