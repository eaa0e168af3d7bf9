@module svg
@use base dag types geom text color canvas sizes xml svgid svglit
@file backends/svg.rs
@static SVG_HEADER
@static SVG_DEFS
@static SVG_FOOTER
@struct SVGWriter
@code
use std::collections::HashMap;
broadcast use {ax_fr, vstd::std_specs::hash::group_hash_axioms, vx_literals, lemma_eff_add, lemma_eff_none, lemma_eff_vt, lemma_vt_add, lemma_vt_none, lemma_tt_add, lemma_tt_none, lemma_dec, lemma_hex_vt, lemma_color, ax_string_len, ax_num, lemma_push_drop, lemma_push_add, lemma_eff_char, lemma_add_none, lemma_none_add, lemma_eff_well, lemma_class, lemma_class_text, lemma_href, lemma_url, lemma_url_start, lemma_url_end};
impl SVGWriter {
    // the drawing so far: what stands between the definitions and the end of the document
    pub open spec fn drawn(self) -> XR { frag(self.content@) }
    pub open spec fn wf(self) -> bool { well(self.content@) && self.drawn().css == Seq::<char>::empty() && (forall|k: int| 0 <= k < self.clip_regions@.len() ==> clip_ok((#[trigger] self.clip_regions@[k])@, k)) && rules_ok(self.font_style_map@) && self.counter <= self.content@.len() }
    pub open spec fn ids_ok(self) -> bool { self.drawn().ids == arrow_ids(self.counter as int) && resolved(self.drawn().refs, self.counter as int, self.clip_regions@.len() as int) && classed(self.drawn().fonts, self.font_style_map@) }
    pub open spec fn covers(self, x: real, y: real) -> bool { x <= rv(self.view_size.x) && y <= rv(self.view_size.y) }
    pub open spec fn grown(self, o: SVGWriter) -> bool { rv(o.view_size.x) <= rv(self.view_size.x) && rv(o.view_size.y) <= rv(self.view_size.y) }
}
pub open spec fn sized(at: Set<(int, int, Seq<char>)>, e: int, p: Point, s: Point) -> bool { at.contains((e, NAME(x), num(p.x))) && at.contains((e, NAME(y), num(p.y))) && at.contains((e, NAME(width), num(s.x))) && at.contains((e, NAME(height), num(s.y))) }
// an ellipse around the point, as wide and as high as given
pub open spec fn round(at: Set<(int, int, Seq<char>)>, p: Point, s: Point) -> bool { at.contains((NAME(ellipse), NAME(cx), num(p.x))) && at.contains((NAME(ellipse), NAME(cy), num(p.y))) && exists|a: Fl, b: Fl| rv(a) == rv(s.x) / 2real && rv(b) == rv(s.y) / 2real && at.contains((NAME(ellipse), NAME(rx), num(a))) && at.contains((NAME(ellipse), NAME(ry), num(b))) }
// ---- the elements that show the drawing calls ----
pub open spec fn ctext(c: Color) -> Seq<char> { seq!['#'] + hex_text(c.color as int, 8) }
pub open spec fn ctext_fill(look: &StyleAttr) -> Seq<char> { match look.fill_color { Some(c) => ctext(c), None => seq!['#'] + hex_text(0, 8) } }
pub open spec fn group_el(o: Option<String>) -> (int, Set<(int, Seq<char>)>) { (NAME(g), match o { Some(p) => Set::<(int, Seq<char>)>::empty().union(given(p@)), None => Set::<(int, Seq<char>)>::empty() }) }
pub open spec fn rect_el(p: Point, s: Point, look: &StyleAttr, clip: Option<ClipHandle>) -> (int, Set<(int, Seq<char>)>) {
    let a = Set::<(int, Seq<char>)>::empty().insert((NAME(x), num(p.x))).insert((NAME(y), num(p.y))).insert((NAME(width), num(s.x))).insert((NAME(height), num(s.y))).insert((NAME(fill), ctext_fill(look))).insert((NAME(stroke-width), dec(look.line_width as nat))).insert((NAME(stroke), ctext(look.line_color))).insert((NAME(rx), dec(look.rounded as nat)));
    (NAME(rect), match clip { Some(c) => a.insert((NAME(clip-path), (TEXT{url(#C} + dec(c as nat)).push(')'))), None => a })
}
pub open spec fn ellipse_el(p: Point, a: Fl, b: Fl, look: &StyleAttr) -> (int, Set<(int, Seq<char>)>) {
    (NAME(ellipse), Set::<(int, Seq<char>)>::empty().insert((NAME(cx), num(p.x))).insert((NAME(cy), num(p.y))).insert((NAME(rx), num(a))).insert((NAME(ry), num(b))).insert((NAME(fill), ctext_fill(look))).insert((NAME(stroke-width), dec(look.line_width as nat))).insert((NAME(stroke), ctext(look.line_color))))
}
pub open spec fn line_el(p: Point, q: Point, look: &StyleAttr) -> (int, Set<(int, Seq<char>)>) {
    (NAME(line), Set::<(int, Seq<char>)>::empty().insert((NAME(x1), num(p.x))).insert((NAME(y1), num(p.y))).insert((NAME(x2), num(q.x))).insert((NAME(y2), num(q.y))).insert((NAME(stroke-width), dec(look.line_width as nat))).insert((NAME(stroke), ctext(look.line_color))))
}
pub open spec fn text_el(x: Fl, y: Fl, font: usize) -> (int, Set<(int, Seq<char>)>) {
    (NAME(text), Set::<(int, Seq<char>)>::empty().insert((NAME(dominant-baseline), TEXT{middle})).insert((NAME(text-anchor), TEXT{middle})).insert((NAME(x), num(x))).insert((NAME(y), num(y))).insert((NAME(class), font_class(font as nat))))
}
// the curve: out of the first point, then into every other one
pub open spec fn path_upto(p: Seq<(Point, Point)>, n: int) -> Seq<char> decreases n {
    if n <= 2 { "M "@ + num(p[0].0.x) + " "@ + num(p[0].0.y) + " C "@ + num(p[0].1.x) + " "@ + num(p[0].1.y) + ", "@ + num(p[1].0.x) + " "@ + num(p[1].0.y) + ", "@ + num(p[1].1.x) + " "@ + num(p[1].1.y) + " "@ }
    else { path_upto(p, n - 1) + ("S "@ + num(p[n - 1].0.x) + " "@ + num(p[n - 1].0.y) + ", "@ + num(p[n - 1].1.x) + " "@ + num(p[n - 1].1.y) + " "@) }
}
pub open spec fn path_el(d: Seq<char>, dashed: bool, head: (bool, bool), look: &StyleAttr, k: nat) -> (int, Set<(int, Seq<char>)>) {
    let a = Set::<(int, Seq<char>)>::empty().insert((NAME(id), arrow_id(k))).insert((NAME(d), d)).insert((NAME(stroke), ctext(look.line_color))).insert((NAME(stroke-width), dec(look.line_width as nat)));
    let b = if dashed { a.insert((NAME(stroke-dasharray), TEXT{5,5})) } else { a };
    let c = if head.0 { b.insert((NAME(marker-start), TEXT{url(#startarrow)})) } else { b };
    let e = if head.1 { c.insert((NAME(marker-end), TEXT{url(#endarrow)})) } else { c };
    (NAME(path), e.insert((NAME(fill), TEXT{transparent})))
}
pub open spec fn along_el(k: nat, font: usize) -> (int, Set<(int, Seq<char>)>) {
    (NAME(textPath), Set::<(int, Seq<char>)>::empty().insert((NAME(href), TEXT{#arrow} + dec(k))).insert((NAME(startOffset), TEXT{50%})).insert((NAME(text-anchor), TEXT{middle})).insert((NAME(class), font_class(font as nat))))
}
pub open spec fn span_el(xy: Point) -> (int, Set<(int, Seq<char>)>) { (NAME(tspan), Set::<(int, Seq<char>)>::empty().insert((NAME(x), num(xy.x))).insert((NAME(dy), TEXT{1.0em}))) }
pub open spec fn read(s: Seq<char>) -> XZ { eff(XZ { m: XM::Text, r: doc0() }, s) }
// one document with a header, one root element, and these labels
pub open spec fn document(s: Seq<char>, texts: Seq<Seq<char>>) -> bool { let z = read(s); z.m is Text && z.r.ok && z.r.head && z.r.roots == 1 && z.r.stack.len() == 0 && z.r.texts == texts }
// every identifier is defined once, and everything referred to is defined
pub open spec fn linked(s: Seq<char>) -> bool { let r = read(s).r; r.ids.no_duplicates() && forall|i: int| 0 <= i < r.refs.len() ==> r.ids.contains(#[trigger] r.refs[i]) }
pub open spec fn window(at: Set<(int, int, Seq<char>)>, v: Point) -> bool { at.contains((NAME(svg), NAME(width), num(v.x))) && at.contains((NAME(svg), NAME(height), num(v.y))) && at.contains((NAME(svg), NAME(viewBox), TEXT{0 0 } + num(v.x) + " "@ + num(v.y))) }
@end
@fn escape_string
ret r
ensures spells(r@, x@),
@loop 1 kind=native name=it
invariant spells(res@, x@.take(it.index@)),
@loopend 1
proof {
    assert(x@.take(it.index@ + 1) =~= x@.take(it.index@).push(c));
}
@end_fn
proof { assert(x@.take(x@.len() as int) =~= x@); }
@fn SVGWriter::new
ret r
ensures r.wf(), /*P22*/ r.ids_ok(), /*P23*/ r.covers(0real, 0real),
@start
proof { lemma_well_none(); assert(arrow_ids(0) =~= Seq::<Seq<char>>::empty()); }
@fn SVGWriter::grow_window float
ensures /*P23*/ final(self).covers(rv(point.x) + rv(size.x), rv(point.y) + rv(size.y)), /*P23*/ final(self).grown(*old(self)), *final(self) == (SVGWriter { view_size: final(self).view_size, ..*old(self) }),
@fn SVGWriter::get_or_create_font_style
ret r
requires rules_ok(old(self).font_style_map@),
ensures /*P22*/ r@ == font_class(font_size as nat), /*P22*/ final(self).font_style_map@.contains_key(font_size), /*P22*/ rules_ok(final(self).font_style_map@), /*P22*/ old(self).font_style_map@.submap_of(final(self).font_style_map@),
    *final(self) == (SVGWriter { font_style_map: final(self).font_style_map, ..*old(self) }),
@fn SVGWriter::emit_svg_font_styles
ret r
requires self.wf(),
ensures well(r@), frag(r@).ids == clip_ids(self.clip_regions@.len() as int), bare(frag(r@)),
    exists|a: Seq<(usize, (String, String))>| enumerates(a, self.font_style_map@) && frag(r@).css == css_upto(a, a.len() as int),
    forall|k: int| 0 <= k < self.clip_regions@.len() ==> frag((#[trigger] self.clip_regions@[k])@).at.subset_of(frag(r@).at),
@loop 1 kind=iter map
invariant self.wf(), enumerates(vx_it1.all(), self.font_style_map@), 0 <= vx_it1.pos() <= vx_it1.all().len(),
    eff(XZ { m: XM::Text, r: r0() }, content@) == (XZ { m: XM::Text, r: XR { els: Seq::empty().push((NAME(style), Set::<(int, Seq<char>)>::empty())), stack: Seq::<int>::empty().push(NAME(svg)).push(NAME(style)), css: css_upto(vx_it1.all(), vx_it1.pos()), ..r0() } }),
ensures enumerates(vx_it1.all(), self.font_style_map@), eff(XZ { m: XM::Text, r: r0() }, content@) == (XZ { m: XM::Text, r: XR { els: Seq::empty().push((NAME(style), Set::<(int, Seq<char>)>::empty())), stack: Seq::<int>::empty().push(NAME(svg)).push(NAME(style)), css: css_upto(vx_it1.all(), vx_it1.all().len() as int), ..r0() } }),
decreases vx_it1.left(),
@loopstart 1
proof { lemma_rule((*p.0) as nat); lemma_eff_tt(eff(XZ { m: XM::Text, r: r0() }, content@), rule((*p.0) as nat)); }
@loop 2
invariant self.wf(), vx_s2@ == self.clip_regions@, well(content@), frag(content@).ids == clip_ids(vx_i2 as int), bare(frag(content@)), frag(content@).css == css0,
    forall|k: int| 0 <= k < vx_i2 ==> frag((#[trigger] self.clip_regions@[k])@).at.subset_of(frag(content@).at),
@loopstart 2
let ghost c0 = content@;
proof { lemma_well_add(c0, p@); assert(clip_ok(self.clip_regions@[vx_i2 - 1]@, vx_i2 - 1)); assert(clip_ids(vx_i2 as int) =~= clip_ids(vx_i2 - 1) + seq![clip_id((vx_i2 - 1) as nat)]); }
@loopbefore 2
let ghost css0 = frag(content@).css;
@fn SVGWriter::finalize
ret r
requires self.wf(), self.ids_ok(),
ensures /*P27*/ exists|pre: Seq<(int, Set<(int, Seq<char>)>)>| read(r@).r.els == #[trigger] (pre + self.drawn().els),
        /*P21*/ document(r@, self.drawn().texts),
    /*P22*/ linked(r@),
    /*P22*/ exists|a: Seq<(usize, (String, String))>| enumerates(a, self.font_style_map@) && read(r@).r.css == css_upto(a, a.len() as int),
    /*P22*/ read(r@).r.fonts == self.drawn().fonts,
    /*P22*/ forall|k: int| 0 <= k < self.clip_regions@.len() ==> frag((#[trigger] self.clip_regions@[k])@).at.subset_of(read(r@).r.at),
    /*P23*/ window(read(r@).r.at, self.view_size), /*P23*/ self.drawn().at.subset_of(read(r@).r.at),
@end_fn
proof {
    let n = self.counter as int; let m = self.clip_regions@.len() as int;
    lemma_ids_unique(n, m);
    let z = read(vx_r@);
    assert(z.m is Text);
    assert(z.r.ids =~= all_ids(n, m));
    assert(z.r.texts =~= self.drawn().texts); assert(z.r.fonts =~= self.drawn().fonts);
}
@fn SVGWriter::create_clip
ret r
requires old(self).wf(),
ensures final(self).wf(), final(self).clip_regions@.len() == r + 1, final(self).clip_regions@.drop_last() == old(self).clip_regions@,
    /*P22*/ sized(frag(final(self).clip_regions@[r as int]@).at, NAME(rect), xy, size),
    *final(self) == (SVGWriter { clip_regions: final(self).clip_regions, ..*old(self) }),
@fn SVGWriter::draw_rect
requires old(self).wf(), old(self).ids_ok(), attrs_given(properties), clip matches Some(c) ==> c < old(self).clip_regions@.len(),
ensures /*P27*/ final(self).drawn().els == old(self).drawn().els.push(group_el(properties)).push(rect_el(xy, size, look, clip)),
    final(self).wf(), /*P22*/ final(self).ids_ok(), /*P21*/ final(self).drawn().texts == old(self).drawn().texts, /*P23*/ final(self).grown(*old(self)), /*P23*/ final(self).covers(rv(xy.x) + rv(size.x), rv(xy.y) + rv(size.y)),
    /*P23*/ old(self).drawn().at.subset_of(final(self).drawn().at), /*P23*/ sized(final(self).drawn().at, NAME(rect), xy, size),
    *final(self) == (SVGWriter { content: final(self).content, view_size: final(self).view_size, ..*old(self) }),
@start
proof { lemma_no_attributes(); }
@end_fn
proof { if clip is Some { assert(self.drawn().refs == old(self).drawn().refs.push(clip_id(clip->0 as nat))); } else { assert(self.drawn().refs == old(self).drawn().refs); } }
@fn SVGWriter::draw_circle float
requires old(self).wf(), old(self).ids_ok(), attrs_given(properties),
ensures /*P27*/ final(self).drawn().els == old(self).drawn().els.push(group_el(properties)).push(ellipse_el(xy, fr(rv(size.x) / 2real), fr(rv(size.y) / 2real), look)),
    final(self).wf(), /*P22*/ final(self).ids_ok(), /*P21*/ final(self).drawn().texts == old(self).drawn().texts, /*P23*/ final(self).grown(*old(self)), /*P23*/ rv(size.x) >= 0real && rv(size.y) >= 0real ==> final(self).covers(rv(xy.x) + rv(size.x) / 2real, rv(xy.y) + rv(size.y) / 2real),
    /*P23*/ old(self).drawn().at.subset_of(final(self).drawn().at), /*P23*/ round(final(self).drawn().at, xy, size),
    *final(self) == (SVGWriter { content: final(self).content, view_size: final(self).view_size, ..*old(self) }),
@start
proof { lemma_no_attributes(); }
@fn SVGWriter::draw_line
requires old(self).wf(), old(self).ids_ok(), attrs_given(properties),
ensures /*P27*/ final(self).drawn().els == old(self).drawn().els.push(group_el(properties)).push(line_el(start, stop, look)),
    final(self).wf(), /*P22*/ final(self).ids_ok(), /*P21*/ final(self).drawn().texts == old(self).drawn().texts,
    /*P23*/ old(self).drawn().at.subset_of(final(self).drawn().at),
    *final(self) == (SVGWriter { content: final(self).content, ..*old(self) }),
@start
proof { lemma_no_attributes(); }
@fn SVGWriter::draw_text float text blen
requires old(self).wf(), old(self).ids_ok(),
ensures /*P27*/ final(self).drawn().els == old(self).drawn().els.push(text_el(xy.x, fr(rv(xy.y) - ((1 + lines_of(text@).len()) as real) * (look.font_size as real) / 2real), look.font_size)) + repeated(span_el(xy), lines_of(text@).len()),
    final(self).wf(), /*P22*/ final(self).ids_ok(), /*P21*/ final(self).drawn().texts == old(self).drawn().texts + lines_of(text@),
    /*P22*/ final(self).drawn().fonts == old(self).drawn().fonts.push(font_class(look.font_size as nat)),
    /*P23*/ final(self).grown(*old(self)), /*P23*/ final(self).covers(rv(xy.x), rv(xy.y)), /*P23*/ old(self).drawn().at.subset_of(final(self).drawn().at),
    final(self).clip_regions == old(self).clip_regions, final(self).counter == old(self).counter,
@start
proof {
    let n = lines_of(text@).len(); let f = look.font_size as real;
    assert(f * ((n + 1) as real) == ((1 + n) as real) * f) by (nonlinear_arith);
    assert(((n + 1) as real) * f == ((1 + n) as real) * f);
    assert((n as real) * f + f == ((1 + n) as real) * f) by (nonlinear_arith);
    assert(f * (n as real) + f == ((1 + n) as real) * f) by (nonlinear_arith);
}
@loop 1 kind=iter
invariant vx_done + vx_it1.rest() == lines_of(text@), spans(content@, vx_done, vx_at, span_el(xy)),
ensures spans(content@, lines_of(text@), vx_at, span_el(xy)),
decreases vx_it1.left(),
@loopbefore 1
let ghost mut vx_done = Seq::<Seq<char>>::empty();
let ghost mut vx_at = Set::<(int, int, Seq<char>)>::empty();
proof { lemma_spans_none(span_el(xy)); }
@loopstart 1
let ghost c0 = content@;
let ghost t0 = vx_done;
@loopend 1
proof {
    let a1 = vx_at.insert((NAME(tspan), NAME(x), num(xy.x))).insert((NAME(tspan), NAME(dy), TEXT{1.0em}));
    assert forall|z: XZ| in_text(z) implies #[trigger] eff(z, content@) == (XZ { m: XM::Text, r: XR { texts: z.r.texts + t0.push(line@), at: z.r.at.union(a1), els: z.r.els + repeated(span_el(xy), (t0.len() + 1) as nat), ..z.r } }) by {
        let y = eff(z, c0); assert(in_text(y));
        let w = eff(z, content@);
        assert(w.r.texts =~= z.r.texts + t0.push(line@)); assert(w.r.at =~= z.r.at.union(a1)); assert(span_el(xy).1 =~= w.r.els.last().1); assert(w.r.els =~= z.r.els + repeated(span_el(xy), (t0.len() + 1) as nat));
    }
    vx_done = t0.push(line@); vx_at = a1;
    assert(vx_done + vx_it1.rest() =~= lines_of(text@));
}
@end_fn
proof { lemma_classed(old(self).drawn().fonts, old(self).font_style_map@, self.font_style_map@, look.font_size); }
@fn SVGWriter::draw_arrow float text rlimit=100 spinoff_prover
requires old(self).wf(), old(self).ids_ok(), attrs_given(properties), path@.len() >= 2,
ensures /*P27*/ final(self).drawn().els == old(self).drawn().els.push(group_el(properties)).push(path_el(path_upto(path@, path@.len() as int), dashed, head, look, old(self).counter as nat)).push((NAME(text), Set::<(int, Seq<char>)>::empty())).push(along_el(old(self).counter as nat, look.font_size)),
    final(self).wf(), /*P22*/ final(self).ids_ok(), /*P21*/ final(self).drawn().texts == old(self).drawn().texts.push(text@),
    /*P22*/ final(self).drawn().fonts == old(self).drawn().fonts.push(font_class(look.font_size as nat)),
    /*P22*/ head.0 ==> final(self).drawn().refs.contains(start_id()), /*P22*/ head.1 ==> final(self).drawn().refs.contains(end_id()),
    /*P23*/ final(self).grown(*old(self)), /*P23*/ forall|k: int| 0 <= k < path@.len() ==> final(self).covers(rv((#[trigger] path@[k]).0.x), rv(path@[k].0.y)) && final(self).covers(rv(path@[k].1.x), rv(path@[k].1.y)),
    /*P23*/ old(self).drawn().at.subset_of(final(self).drawn().at),
    final(self).clip_regions == old(self).clip_regions,
@start
proof { lemma_no_attributes(); }
@loop 1
invariant vx_s1@ == path@, self.grown(*old(self)), *self == (SVGWriter { view_size: self.view_size, ..*old(self) }),
    forall|k: int| 0 <= k < vx_i1 ==> self.covers(rv((#[trigger] path@[k]).0.x), rv(path@[k].0.y)) && self.covers(rv(path@[k].1.x), rv(path@[k].1.y)),
@loop 2
invariant vx_s2@ == path@, path@.len() >= 2, vx_i2 >= 2, vt(path_builder@), path_builder@ == path_upto(path@, vx_i2 as int),
@before "self . counter = self . counter"
proof {
    let c0 = old(self).content@; let c1 = self.content@;
    assert(self.drawn().texts == old(self).drawn().texts.push(text@));
    assert(c1.len() > c0.len()) by { if c1.len() <= c0.len() { assert(c1 =~= c0); assert(old(self).drawn().texts.len() == self.drawn().texts.len()); } }
}
@end_fn
proof {
    let n = old(self).counter; let h = old(self).drawn().refs;
    lemma_arrow_ids(n as int);
    let a = if head.0 { h.push(start_id()) } else { h }; let b = if head.1 { a.push(end_id()) } else { a };
    assert(self.drawn().refs == b.push(arrow_id(n as nat)));
    if head.0 { assert(self.drawn().refs[h.len() as int] == start_id()); }
    if head.1 { assert(self.drawn().refs[a.len() as int] == end_id()); }
    lemma_classed(old(self).drawn().fonts, old(self).font_style_map@, self.font_style_map@, look.font_size);
}
