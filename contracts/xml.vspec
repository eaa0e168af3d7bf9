@module xml
@use base text
@code
use std::collections::HashMap;
// ---- what an XML document says: a reference reader ----
// first the characters: tags, attributes, references, text (names are numbers: their letters as digits to the base 100)
pub enum XM { Text, Ref(int), Lt, Open(int), Tag, Sl, Name(int), NameSp(int), Eq(int), Val(int, Seq<char>, bool), VRef(int, Seq<char>, bool, int), After, Close(int), CloseSp(int), Pi, PiQ, Bad }
pub enum XE { Pi, Start(int), Attr(int, Seq<char>), Body, Empty, End(int), Ch(char) }
pub struct XL { pub m: XM, pub o: Seq<XE> }
@alphabet
pub open spec fn xsp(c: char) -> bool { c == ' ' || c == '\n' || c == '\t' || c == '\r' }
pub open spec fn xname(c: char) -> bool { xcode(c) != 0 }
pub open spec fn xref(n: int) -> Option<char> { if n == NAME(amp) { Some('&') } else if n == NAME(lt) { Some('<') } else if n == NAME(gt) { Some('>') } else if n == NAME(quot) { Some('"') } else if n == NAME(apos) { Some('\'') } else { None } }
pub open spec fn to(l: XL, m: XM) -> XL { XL { m: m, o: l.o } }
pub open spec fn out(l: XL, m: XM, e: XE) -> XL { XL { m: m, o: l.o.push(e) } }
pub open spec fn xstep(l: XL, c: char) -> XL {
    match l.m {
        XM::Text => if c == '<' { to(l, XM::Lt) } else if c == '&' { to(l, XM::Ref(0)) } else if c == '>' { to(l, XM::Bad) } else { out(l, XM::Text, XE::Ch(c)) },
        XM::Ref(n) => if c == ';' { match xref(n) { Some(d) => out(l, XM::Text, XE::Ch(d)), None => to(l, XM::Bad) } } else if xname(c) { to(l, XM::Ref(n * 100 + xcode(c))) } else { to(l, XM::Bad) },
        XM::Lt => if c == '/' { to(l, XM::Close(0)) } else if c == '?' { to(l, XM::Pi) } else if xname(c) { to(l, XM::Open(xcode(c))) } else { to(l, XM::Bad) },
        XM::Pi => if c == '?' { to(l, XM::PiQ) } else { l },
        XM::PiQ => if c == '>' { out(l, XM::Text, XE::Pi) } else if c == '?' { l } else { to(l, XM::Pi) },
        XM::Open(n) => if xname(c) { to(l, XM::Open(n * 100 + xcode(c))) } else if xsp(c) { out(l, XM::Tag, XE::Start(n)) } else if c == '>' { XL { m: XM::Text, o: l.o.push(XE::Start(n)).push(XE::Body) } } else if c == '/' { out(l, XM::Sl, XE::Start(n)) } else { to(l, XM::Bad) },
        XM::Tag => if xsp(c) { l } else if c == '>' { out(l, XM::Text, XE::Body) } else if c == '/' { to(l, XM::Sl) } else if xname(c) { to(l, XM::Name(xcode(c))) } else { to(l, XM::Bad) },
        XM::Sl => if c == '>' { out(l, XM::Text, XE::Empty) } else { to(l, XM::Bad) },
        XM::Name(n) => if xname(c) { to(l, XM::Name(n * 100 + xcode(c))) } else if xsp(c) { to(l, XM::NameSp(n)) } else if c == '=' { to(l, XM::Eq(n)) } else { to(l, XM::Bad) },
        XM::NameSp(n) => if xsp(c) { l } else if c == '=' { to(l, XM::Eq(n)) } else { to(l, XM::Bad) },
        XM::Eq(n) => if xsp(c) { l } else if c == '"' { to(l, XM::Val(n, Seq::empty(), false)) } else if c == '\'' { to(l, XM::Val(n, Seq::empty(), true)) } else { to(l, XM::Bad) },
        XM::Val(n, v, q) => if c == (if q { '\'' } else { '"' }) { out(l, XM::After, XE::Attr(n, v)) } else if c == '<' { to(l, XM::Bad) } else if c == '&' { to(l, XM::VRef(n, v, q, 0)) } else { to(l, XM::Val(n, v.push(c), q)) },
        XM::VRef(n, v, q, k) => if c == ';' { match xref(k) { Some(d) => to(l, XM::Val(n, v.push(d), q)), None => to(l, XM::Bad) } } else if xname(c) { to(l, XM::VRef(n, v, q, k * 100 + xcode(c))) } else { to(l, XM::Bad) },
        XM::After => if xsp(c) { to(l, XM::Tag) } else if c == '>' { out(l, XM::Text, XE::Body) } else if c == '/' { to(l, XM::Sl) } else { to(l, XM::Bad) },
        XM::Close(n) => if xname(c) { to(l, XM::Close(n * 100 + xcode(c))) } else if xsp(c) { to(l, XM::CloseSp(n)) } else if c == '>' { out(l, XM::Text, XE::End(n)) } else { to(l, XM::Bad) },
        XM::CloseSp(n) => if xsp(c) { l } else if c == '>' { out(l, XM::Text, XE::End(n)) } else { to(l, XM::Bad) },
        XM::Bad => l,
    }
}
pub open spec fn xlex(l: XL, s: Seq<char>) -> XL decreases s.len() { if s.len() == 0 { l } else { xstep(xlex(l, s.drop_last()), s.last()) } }
// then the elements: nesting, attributes, the texts of labels, identifiers, references, classes, style rules
pub struct XR {
    pub ok: bool,                        // nothing wrong so far
    pub fresh: bool, pub roots: int,     // nothing read yet; how many root elements
    pub head: bool,                      // there was a header
    pub stack: Seq<int>,                 // the open elements
    pub names: Set<int>,                 // the attributes of the tag being read
    pub cur: Seq<char>,                  // the text of the label being read
    pub texts: Seq<Seq<char>>,           // the texts of the elements that carry labels (tspan, textPath), in order
    pub ids: Seq<Seq<char>>,             // the identifiers defined
    pub refs: Seq<Seq<char>>,            // the identifiers referred to
    pub fonts: Seq<Seq<char>>,           // the classes used
    pub css: Seq<char>,                  // the style sheet
    pub at: Set<(int, int, Seq<char>)>,  // element, attribute, value
    pub tag: Set<(int, Seq<char>)>,      // the attributes of the tag being read, with their values
    pub els: Seq<(int, Set<(int, Seq<char>)>)>, // the elements, in order, with their attributes
}
pub open spec fn labels(n: int) -> bool { n == NAME(tspan) || n == NAME(textPath) }
pub open spec fn top(r: XR) -> int { if r.stack.len() == 0 { 0 } else { r.stack.last() } }
// the attributes whose value can be url(#id)
pub open spec fn linking(n: int) -> bool { n == NAME(clip-path) || n == NAME(marker-start) || n == NAME(marker-mid) || n == NAME(marker-end) || n == NAME(fill) || n == NAME(stroke) || n == NAME(mask) || n == NAME(filter) }
pub open spec fn refers(n: int, v: Seq<char>) -> Option<Seq<char>> {
    if n == NAME(href) && v.len() > 0 && v[0] == '#' { Some(v.skip(1)) }
    else if linking(n) && v.len() > 6 && v[0] == 'u' && v[1] == 'r' && v[2] == 'l' && v[3] == '(' && v[4] == '#' && v.last() == ')' { Some(v.skip(5).drop_last()) }
    else { None }
}
pub open spec fn closed(r: XR) -> XR { XR { stack: if r.stack.len() == 0 { r.stack } else { r.stack.drop_last() }, texts: if labels(top(r)) { r.texts.push(r.cur) } else { r.texts }, cur: Seq::empty(), names: Set::empty(), ..r } }
// the tag is complete
pub open spec fn tagged(r: XR) -> XR { XR { names: Set::empty(), tag: Set::empty(), els: r.els.push((top(r), r.tag)), ..r } }
pub open spec fn feed(r: XR, e: XE) -> XR {
    match e {
        XE::Pi => XR { ok: r.ok && r.fresh, fresh: false, head: true, ..r },
        XE::Start(n) => XR { ok: r.ok && !labels(top(r)) && top(r) != NAME(style) && (r.stack.len() > 0 || r.roots == 0), roots: if r.stack.len() == 0 { r.roots + 1 } else { r.roots }, fresh: false, stack: r.stack.push(n), names: Set::empty(), tag: Set::empty(), cur: Seq::empty(), ..r },
        XE::Attr(n, v) => XR { ok: r.ok && !r.names.contains(n), names: r.names.insert(n), tag: r.tag.insert((n, v)), at: r.at.insert((top(r), n, v)), ids: if n == NAME(id) { r.ids.push(v) } else { r.ids }, fonts: if n == NAME(class) { r.fonts.push(v) } else { r.fonts }, refs: match refers(n, v) { Some(x) => r.refs.push(x), None => r.refs }, ..r },
        XE::Body => tagged(r),
        XE::Empty => closed(tagged(r)),
        XE::End(n) => XR { ok: r.ok && top(r) == n, ..closed(r) },
        // text is allowed in labels and style sheets, white space everywhere
        XE::Ch(c) => if labels(top(r)) { XR { cur: r.cur.push(c), ..r } } else if top(r) == NAME(style) { XR { css: r.css.push(c), ..r } } else { XR { ok: r.ok && xsp(c), fresh: false, ..r } },
    }
}
// several characters in a row; sp: all of them are white space
pub open spec fn feeds(r: XR, s: Seq<char>, sp: bool) -> XR { if labels(top(r)) { XR { cur: r.cur + s, ..r } } else if top(r) == NAME(style) { XR { css: r.css + s, ..r } } else { XR { ok: r.ok && sp, fresh: false, ..r } } }
pub proof fn lemma_feeds_one(r: XR, c: char) ensures feed(r, XE::Ch(c)) == feeds(r, Seq::<char>::empty().push(c), xsp(c)) { assert(r.cur.push(c) =~= r.cur + Seq::<char>::empty().push(c)); assert(r.css.push(c) =~= r.css + Seq::<char>::empty().push(c)); }
pub proof fn lemma_feeds_push(r: XR, s: Seq<char>, sp: bool, c: char) ensures feed(feeds(r, s, sp), XE::Ch(c)) == feeds(r, s.push(c), sp && xsp(c)) { assert((r.cur + s).push(c) =~= r.cur + s.push(c)); assert((r.css + s).push(c) =~= r.css + s.push(c)); }
pub open spec fn xproc(r: XR, o: Seq<XE>) -> XR decreases o.len() { if o.len() == 0 { r } else { feed(xproc(r, o.drop_last()), o.last()) } }
// both together
pub struct XZ { pub m: XM, pub r: XR }
#[verifier::opaque]
pub open spec fn eff(z: XZ, s: Seq<char>) -> XZ { let l = xlex(XL { m: z.m, o: Seq::empty() }, s); XZ { m: l.m, r: xproc(z.r, l.o) } }
// ---- how it composes ----
pub broadcast proof fn lemma_proc_push(r: XR, o: Seq<XE>, e: XE) ensures #[trigger] xproc(r, o.push(e)) == feed(xproc(r, o), e) { assert(o.push(e).drop_last() =~= o); }
pub proof fn lemma_proc_add(r: XR, a: Seq<XE>, b: Seq<XE>) ensures xproc(r, a + b) == xproc(xproc(r, a), b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_proc_add(r, a, b.drop_last()); } }
pub proof fn lemma_step_out(m: XM, o: Seq<XE>, c: char) ensures xstep(XL { m: m, o: o }, c) == (XL { m: xstep(XL { m: m, o: Seq::empty() }, c).m, o: o + xstep(XL { m: m, o: Seq::empty() }, c).o })
{ let e = Seq::<XE>::empty(); assert(o + e =~= o); let x = xstep(XL { m: m, o: e }, c); let y = xstep(XL { m: m, o: o }, c); assert(y.o =~= o + x.o); assert(y.m == x.m); }
pub proof fn lemma_lex_out(m: XM, o: Seq<XE>, s: Seq<char>)
    ensures xlex(XL { m: m, o: o }, s) == (XL { m: xlex(XL { m: m, o: Seq::empty() }, s).m, o: o + xlex(XL { m: m, o: Seq::empty() }, s).o })
    decreases s.len()
{
    let e = Seq::<XE>::empty();
    if s.len() == 0 { assert(o + e =~= o); }
    else {
        lemma_lex_out(m, o, s.drop_last());
        let a = xlex(XL { m: m, o: e }, s.drop_last()); let c = s.last(); let x = xstep(XL { m: a.m, o: e }, c);
        lemma_step_out(a.m, o + a.o, c); lemma_step_out(a.m, a.o, c);
        assert((o + a.o) + x.o =~= o + (a.o + x.o));
    }
}
pub proof fn lemma_lex_add(l: XL, a: Seq<char>, b: Seq<char>) ensures xlex(l, a + b) == xlex(xlex(l, a), b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_lex_add(l, a, b.drop_last()); } }
pub broadcast proof fn lemma_eff_add(z: XZ, a: Seq<char>, b: Seq<char>) ensures #[trigger] eff(z, a + b) == eff(eff(z, a), b)
{
    reveal(eff);
    let e = Seq::<XE>::empty(); let l = XL { m: z.m, o: e }; let la = xlex(l, a);
    lemma_lex_add(l, a, b); lemma_lex_out(la.m, la.o, b); lemma_proc_add(z.r, la.o, xlex(XL { m: la.m, o: e }, b).o);
}
pub broadcast proof fn lemma_eff_none(z: XZ) ensures #[trigger] eff(z, Seq::<char>::empty()) == z { reveal(eff); }
pub broadcast proof fn lemma_eff_push(z: XZ, s: Seq<char>, c: char) ensures #[trigger] eff(z, s.push(c)) == eff(eff(z, s), seq![c]) { assert(s.push(c) =~= s + seq![c]); lemma_eff_add(z, s, seq![c]); }
pub proof fn lemma_eff_one(z: XZ, c: char) ensures eff(z, seq![c]) == ({ let l = xstep(XL { m: z.m, o: Seq::empty() }, c); XZ { m: l.m, r: xproc(z.r, l.o) } })
{ reveal(eff); reveal_with_fuel(xlex, 2); assert(seq![c].drop_last() =~= Seq::<char>::empty()); assert(seq![c].last() == c); }
// a reader that has read p before it reads what leads to q
pub open spec fn joined(p: XR, q: XR) -> XR { XR { texts: p.texts + q.texts, ids: p.ids + q.ids, refs: p.refs + q.refs, fonts: p.fonts + q.fonts, css: p.css + q.css, at: p.at.union(q.at), els: p.els + q.els, ..q } }
pub proof fn lemma_feed_joined(p: XR, q: XR, e: XE) ensures feed(joined(p, q), e) == joined(p, feed(q, e))
{
    let a = feed(joined(p, q), e); let b = joined(p, feed(q, e));
    assert(a.texts =~= b.texts); assert(a.ids =~= b.ids); assert(a.refs =~= b.refs); assert(a.fonts =~= b.fonts); assert(a.css =~= b.css); assert(a.at =~= b.at); assert(a.els =~= b.els); assert(a.tag =~= b.tag);
}
pub proof fn lemma_proc_joined(p: XR, q: XR, o: Seq<XE>) ensures xproc(joined(p, q), o) == joined(p, xproc(q, o)) decreases o.len()
{ if o.len() > 0 { lemma_proc_joined(p, q, o.drop_last()); lemma_feed_joined(p, xproc(q, o.drop_last()), o.last()); } }
pub proof fn lemma_eff_joined(m: XM, p: XR, q: XR, s: Seq<char>) ensures eff(XZ { m: m, r: joined(p, q) }, s) == ({ let z = eff(XZ { m: m, r: q }, s); XZ { m: z.m, r: joined(p, z.r) } })
{ reveal(eff); lemma_proc_joined(p, q, xlex(XL { m: m, o: Seq::empty() }, s).o); }
// ---- fragments: what stands between two tags of the root element ----
pub open spec fn tidy_r(r: XR) -> bool { r.ok && !r.fresh && r.head && r.roots == 1 && r.stack == Seq::<int>::empty().push(NAME(svg)) && r.names == Set::<int>::empty() && r.tag == Set::<(int, Seq<char>)>::empty() && r.cur == Seq::<char>::empty() }
pub open spec fn r0() -> XR { XR { ok: true, fresh: false, roots: 1, head: true, stack: Seq::<int>::empty().push(NAME(svg)), names: Set::empty(), cur: Seq::empty(), texts: Seq::empty(), ids: Seq::empty(), refs: Seq::empty(), fonts: Seq::empty(), css: Seq::empty(), at: Set::empty(), tag: Set::empty(), els: Seq::empty() } }
pub open spec fn doc0() -> XR { XR { ok: true, fresh: true, roots: 0, head: false, stack: Seq::empty(), ..r0() } }
pub open spec fn frag(s: Seq<char>) -> XR { eff(XZ { m: XM::Text, r: r0() }, s).r }
pub open spec fn well(s: Seq<char>) -> bool { eff(XZ { m: XM::Text, r: r0() }, s).m is Text && tidy_r(frag(s)) }
pub proof fn lemma_well(r: XR, s: Seq<char>) requires tidy_r(r), well(s) ensures eff(XZ { m: XM::Text, r: r }, s) == (XZ { m: XM::Text, r: joined(r, frag(s)) }), tidy_r(joined(r, frag(s)))
{
    let j = joined(r, r0());
    assert(j.texts =~= r.texts); assert(j.ids =~= r.ids); assert(j.refs =~= r.refs); assert(j.fonts =~= r.fonts); assert(j.css =~= r.css); assert(j.at =~= r.at); assert(j.els =~= r.els);
    lemma_eff_joined(XM::Text, r, r0(), s);
}
pub proof fn lemma_well_none() ensures well(Seq::empty()), frag(Seq::empty()) == r0() { lemma_eff_none(XZ { m: XM::Text, r: r0() }); }
// ---- plain text inside an attribute value, a label, a style sheet ----
pub open spec fn vc(c: char) -> bool { c != '<' && c != '&' && c != '"' }
#[verifier::opaque]
pub open spec fn vt(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> vc(#[trigger] s[i]) }
pub broadcast proof fn lemma_vt_add(a: Seq<char>, b: Seq<char>) requires vt(a), vt(b) ensures #[trigger] vt(a + b) { reveal(vt); }
pub broadcast proof fn lemma_vt_none() ensures #[trigger] vt(Seq::<char>::empty()) { reveal(vt); }
pub broadcast proof fn lemma_eff_vt(z: XZ, s: Seq<char>) requires z.m is Val, !z.m->Val_2, #[trigger] vt(s) ensures #[trigger] eff(z, s) == (XZ { m: XM::Val(z.m->Val_0, z.m->Val_1 + s, false), r: z.r }) decreases s.len()
{
    if s.len() == 0 { lemma_eff_none(z); assert(s =~= Seq::<char>::empty()); assert(z.m->Val_1 + s =~= z.m->Val_1); }
    else {
        let d = s.drop_last(); reveal(vt); assert(vt(d)) by { assert forall|i: int| 0 <= i < d.len() implies vc(#[trigger] d[i]) by { assert(d[i] == s[i]); } }
        lemma_eff_vt(z, d); assert(d.push(s.last()) =~= s); lemma_eff_push(z, d, s.last()); lemma_eff_one(eff(z, d), s.last());
        assert((z.m->Val_1 + d).push(s.last()) =~= z.m->Val_1 + s);
    }
}
// the same in a style sheet
pub open spec fn tc(c: char) -> bool { c != '<' && c != '&' && c != '>' }
#[verifier::opaque]
pub open spec fn tt(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> tc(#[trigger] s[i]) }
pub broadcast proof fn lemma_tt_add(a: Seq<char>, b: Seq<char>) requires tt(a), tt(b) ensures #[trigger] tt(a + b) { reveal(tt); }
pub broadcast proof fn lemma_tt_none() ensures #[trigger] tt(Seq::<char>::empty()) { reveal(tt); }
pub proof fn lemma_eff_tt(z: XZ, s: Seq<char>) requires z.m is Text, top(z.r) == NAME(style), tt(s) ensures eff(z, s) == (XZ { m: XM::Text, r: XR { css: z.r.css + s, ..z.r } }) decreases s.len()
{
    if s.len() == 0 { lemma_eff_none(z); assert(s =~= Seq::<char>::empty()); assert(z.r.css + s =~= z.r.css); }
    else {
        let d = s.drop_last(); reveal(tt); assert(tt(d)) by { assert forall|i: int| 0 <= i < d.len() implies tc(#[trigger] d[i]) by { assert(d[i] == s[i]); } }
        lemma_eff_tt(z, d); assert(d.push(s.last()) =~= s); lemma_eff_push(z, d, s.last()); lemma_eff_one(eff(z, d), s.last());
        lemma_proc_push(eff(z, d).r, Seq::empty(), XE::Ch(s.last()));
        assert((z.r.css + d).push(s.last()) =~= z.r.css + s);
    }
}
// ---- text that reads as exactly a label, wherever a label stands ----
pub open spec fn in_label(z: XZ) -> bool { z.m is Text && labels(top(z.r)) }
pub open spec fn spells(s: Seq<char>, x: Seq<char>) -> bool { forall|z: XZ| in_label(z) ==> #[trigger] eff(z, s) == (XZ { m: XM::Text, r: XR { cur: z.r.cur + x, ..z.r } }) }
pub broadcast proof fn lemma_push_add<T>(a: Seq<T>, b: Seq<T>, c: T) ensures #[trigger] (a + b).push(c) == a + b.push(c) { assert((a + b).push(c) =~= a + b.push(c)); }
pub broadcast proof fn lemma_eff_char(z: XZ, s: Seq<char>, c: char) requires eff(z, s).m is Text, tc(c) ensures #[trigger] eff(z, s.push(c)) == (XZ { m: XM::Text, r: feed(eff(z, s).r, XE::Ch(c)) })
{ lemma_eff_push(z, s, c); lemma_eff_one(eff(z, s), c); lemma_proc_push(eff(z, s).r, Seq::empty(), XE::Ch(c)); }
pub broadcast proof fn lemma_add_none<T>(a: Seq<T>) ensures #[trigger] (Seq::<T>::empty() + a) == a { assert(Seq::<T>::empty() + a =~= a); }
pub broadcast proof fn lemma_none_add<T>(a: Seq<T>) ensures #[trigger] (a + Seq::<T>::empty()) == a { assert(a + Seq::<T>::empty() =~= a); }
pub broadcast proof fn lemma_eff_well(z: XZ, s: Seq<char>) requires z.m is Text, tidy_r(z.r), #[trigger] well(s) ensures #[trigger] eff(z, s) == (XZ { m: XM::Text, r: joined(z.r, frag(s)) }), tidy_r(joined(z.r, frag(s))) { lemma_well(z.r, s); }
pub proof fn lemma_well_add(a: Seq<char>, b: Seq<char>) requires well(a), well(b) ensures well(a + b), frag(a + b) == joined(frag(a), frag(b))
{ lemma_eff_add(XZ { m: XM::Text, r: r0() }, a, b); lemma_well(frag(a), b); }
// a string is never longer than the memory
pub broadcast axiom fn ax_string_len(s: String) ensures #[trigger] s@.len() <= isize::MAX;
// ---- numbers ----
// the decimal text of a floating point number: digits, a sign, a point, or a word; what it prints is left open
pub uninterp spec fn num(x: Fl) -> Seq<char>;
pub broadcast axiom fn ax_num(x: Fl) ensures vt(#[trigger] num(x)), tt(num(x));
impl VxDisp for Fl { open spec fn shown(&self) -> Seq<char> { num(*self) } #[verifier::external_body] fn vx_show(&self) -> (r: String) { unimplemented!() } }
pub open spec fn dig(d: int) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' } }
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![dig(n as int)] } else { dec(n / 10).push(dig((n % 10) as int)) } }
impl VxDisp for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vx_show(&self) -> (r: String) { unimplemented!() } }
pub broadcast proof fn lemma_dec(n: nat) ensures vt(#[trigger] dec(n)), tt(dec(n)), dec(n).len() > 0 decreases n
{ if n >= 10 { lemma_dec(n / 10); } reveal(vt); reveal(tt); }
pub broadcast proof fn lemma_dec_inj(a: nat, b: nat) requires #[trigger] dec(a) == #[trigger] dec(b) ensures a == b decreases a
{
    lemma_dec(a / 10); lemma_dec(b / 10);
    if a < 10 { if b >= 10 { assert(dec(b).len() >= 2); } else { assert(dec(a)[0] == dig(a as int)); assert(dec(b)[0] == dig(b as int)); } }
    else if b < 10 { assert(dec(a).len() >= 2); }
    else { assert(dec(a).drop_last() =~= dec(a / 10)); assert(dec(b).drop_last() =~= dec(b / 10)); lemma_dec_inj(a / 10, b / 10); assert(dec(a).last() == dig((a % 10) as int)); assert(dec(b).last() == dig((b % 10) as int)); assert(a % 10 == b % 10); }
}
pub broadcast proof fn lemma_hex_vt(v: int, k: nat) requires 0 <= v ensures vt(#[trigger] hex_text(v, k)) decreases k
{ reveal(vt); if k > 0 { lemma_hex_vt(v / 16, (k - 1) as nat); let d = v % 16; let c = hex_digit(d);
    assert(c as int == if d < 10 { 48 + d } else { 97 + d - 10 }); assert(vc(c));
    let p = hex_text(v / 16, (k - 1) as nat); assert(hex_text(v, k) == p.push(c));
    assert forall|i: int| 0 <= i < hex_text(v, k).len() implies vc(#[trigger] hex_text(v, k)[i]) by { if i < p.len() { assert(vc(p[i])); } } } }
// the text of a color is no reference
pub broadcast proof fn lemma_color(v: int, k: nat) requires 0 <= v ensures vt(#[trigger] (seq!['#'] + hex_text(v, k))), (seq!['#'] + hex_text(v, k))[0] == '#'
{ lemma_hex_vt(v, k); reveal(vt); let t = seq!['#'] + hex_text(v, k); assert(t[0] == '#'); assert forall|i: int| 0 <= i < t.len() implies vc(#[trigger] t[i]) by { if i > 0 { assert(t[i] == hex_text(v, k)[i - 1]); assert(vc(hex_text(v, k)[i - 1])); } } }
pub broadcast proof fn lemma_push_drop<T>(s: Seq<T>, x: T) ensures #[trigger] s.push(x).drop_last() == s { assert(s.push(x).drop_last() =~= s); }
// ---- the entries of a hash map, in some order ----
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)]
pub struct VxMapIter<'a, K, V> { m: &'a HashMap<K, V> }
pub open spec fn enumerates<K, V>(a: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> m.contains_key((#[trigger] a[i]).0) && m[a[i].0] == a[i].1
    &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> (#[trigger] a[i]).0 != (#[trigger] a[j]).0
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == k
}
impl<'a, K, V> VxMapIter<'a, K, V> {
    pub uninterp spec fn all(&self) -> Seq<(K, V)>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn left(&self) -> nat { if self.pos() < self.all().len() { (self.all().len() - self.pos()) as nat } else { 0 } }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        ensures final(self).all() == old(self).all(), match r { Some(x) => 0 <= old(self).pos() < old(self).all().len() && (*x.0, *x.1) == old(self).all()[old(self).pos()] && final(self).pos() == old(self).pos() + 1, None => old(self).pos() >= old(self).all().len() && final(self).pos() == old(self).pos() }
    { unimplemented!() }
}
pub trait VxIterMap<K, V> { spec fn mv(&self) -> Map<K, V>; fn vx_iter_map(&self) -> (r: VxMapIter<'_, K, V>) ensures r.pos() == 0, enumerates(r.all(), self.mv()); }
impl<K, V> VxIterMap<K, V> for HashMap<K, V> { open spec fn mv(&self) -> Map<K, V> { self@ } #[verifier::external_body] fn vx_iter_map(&self) -> (r: VxMapIter<'_, K, V>) { unimplemented!() } }
@end
