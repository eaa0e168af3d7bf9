@module record0
@use base text dag types
@file gv/record.rs
@struct RecordParser
@struct RecordParserFrame
@fn RecordParserFrame::new
@fn RecordParserFrame::split_label_to_text_and_port text
@start
broadcast use ax_ulen;
proof {
    let t = trimmed(str@); let i = index_of(t, '>'); lemma_index_of(t, '>');
    if t.len() > 0 && t[0] == '<' { lemma_off_next(t, 0); assert(t.take(0).len() == 0); assert(off(t, 1, 1)); if i >= 0 { lemma_off_next(t, i); assert(off(t, i, bytes(t.take(i)) as int)); assert(off(t, i + 1, bytes(t.take(i)) as int + 1)); if i > 1 { lemma_off_mono(t, 1, i); } } }
}
@fn RecordParserFrame::finalize_label text
@fn RecordParserFrame::finalize_record text vxclone
@fn RecordParser::new
ret r
ensures r.input@ == input@, r.pos == 0,
@fn RecordParser::parse
requires old(self).pos <= old(self).input.len(),
ensures final(self).input == old(self).input, old(self).pos <= final(self).pos <= final(self).input.len(),
decreases old(self).input.len() - old(self).pos,
@loop 1
invariant self.input == old(self).input, old(self).pos <= self.pos <= self.input.len(),
decreases self.input.len() - self.pos,
@fn parse_record_string
@fn record_builder
