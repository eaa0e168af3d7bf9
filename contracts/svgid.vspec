@module svgid
@use base text xml
@code
// ---- identifiers and classes ----
pub open spec fn arrow_id(k: nat) -> Seq<char> { TEXT{arrow} + dec(k) }
pub open spec fn clip_id(k: nat) -> Seq<char> { TEXT{C} + dec(k) }
pub open spec fn font_class(k: nat) -> Seq<char> { TEXT{a} + dec(k) }
pub open spec fn start_id() -> Seq<char> { TEXT{startarrow} }
pub open spec fn end_id() -> Seq<char> { TEXT{endarrow} }
// the style rule that gives the class its font size
pub open spec fn rule(k: nat) -> Seq<char> { ".a"@ + dec(k) + " { font-size: "@ + dec(k) + "px; font-family: Times, serif; }"@ }
pub broadcast proof fn lemma_class(k: nat) ensures vt(#[trigger] font_class(k)) { reveal(vt); lemma_dec(k); assert(vt(TEXT{a})); lemma_vt_add(TEXT{a}, dec(k)); }
pub broadcast proof fn lemma_class_text(k: nat) ensures #[trigger] ("a"@ + dec(k)) == font_class(k) { reveal_strlit("a"); assert("a"@ =~= TEXT{a}); }
pub proof fn lemma_rule(k: nat) ensures tt(rule(k)) {
    reveal(tt); reveal_strlit(".a"); reveal_strlit(" { font-size: "); reveal_strlit("px; font-family: Times, serif; }"); lemma_dec(k);
    assert(tt(".a"@)); assert(tt(" { font-size: "@)); assert(tt("px; font-family: Times, serif; }"@));
    lemma_tt_add(".a"@, dec(k)); lemma_tt_add(".a"@ + dec(k), " { font-size: "@); lemma_tt_add(".a"@ + dec(k) + " { font-size: "@, dec(k)); lemma_tt_add(".a"@ + dec(k) + " { font-size: "@ + dec(k), "px; font-family: Times, serif; }"@);
}
pub broadcast proof fn lemma_href(d: Seq<char>) ensures #[trigger] (TEXT{#arrow} + d).skip(1) == TEXT{arrow} + d
{ assert((TEXT{#arrow} + d).skip(1) =~= TEXT{arrow} + d); }
pub broadcast proof fn lemma_url(d: Seq<char>) ensures #[trigger] (TEXT{url(#C} + d).push(')').skip(5).drop_last() == TEXT{C} + d
{ assert((TEXT{url(#C} + d).push(')').skip(5).drop_last() =~= TEXT{C} + d); }
pub broadcast proof fn lemma_url_start() ensures #[trigger] TEXT{url(#startarrow)}.skip(5).drop_last() == start_id()
{ assert(TEXT{url(#startarrow)}.skip(5).drop_last() =~= start_id()); }
pub broadcast proof fn lemma_url_end() ensures #[trigger] TEXT{url(#endarrow)}.skip(5).drop_last() == end_id()
{ assert(TEXT{url(#endarrow)}.skip(5).drop_last() =~= end_id()); }
// what can be referred to after so many arrows and clip regions
pub open spec fn is_id(v: Seq<char>, arrows: int, clips: int) -> bool { v == start_id() || v == end_id() || (exists|k: nat| k < arrows && v == #[trigger] arrow_id(k)) || (exists|k: nat| k < clips && v == #[trigger] clip_id(k)) }
pub open spec fn resolved(refs: Seq<Seq<char>>, arrows: int, clips: int) -> bool { forall|i: int| 0 <= i < refs.len() ==> is_id(#[trigger] refs[i], arrows, clips) }
pub open spec fn arrow_ids(n: int) -> Seq<Seq<char>> { Seq::new(n as nat, |k: int| arrow_id(k as nat)) }
pub open spec fn clip_ids(n: int) -> Seq<Seq<char>> { Seq::new(n as nat, |k: int| clip_id(k as nat)) }
pub open spec fn all_ids(arrows: int, clips: int) -> Seq<Seq<char>> { seq![start_id(), end_id()] + clip_ids(clips) + arrow_ids(arrows) }
pub proof fn lemma_arrow_ids(n: int) requires n >= 0 ensures arrow_ids(n).push(arrow_id(n as nat)) == arrow_ids(n + 1) { assert(arrow_ids(n).push(arrow_id(n as nat)) =~= arrow_ids(n + 1)); }
pub proof fn lemma_ids_unique(arrows: int, clips: int)
    requires arrows >= 0, clips >= 0,
    ensures all_ids(arrows, clips).no_duplicates(), forall|v: Seq<char>| #[trigger] is_id(v, arrows, clips) ==> all_ids(arrows, clips).contains(v),
{
    let a = all_ids(arrows, clips); let c = clip_ids(clips); let r = arrow_ids(arrows);
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies a[i] != a[j] by {
        if j == 1 { assert(start_id()[0] != end_id()[0]); }
        else if j < 2 + clips {
            assert(a[j] == clip_id((j - 2) as nat)); assert(clip_id((j - 2) as nat)[0] == 'C');
            if i < 2 { assert(a[i][0] != 'C'); } else { assert(a[i] == clip_id((i - 2) as nat)); lemma_tail(TEXT{C}, dec((i - 2) as nat), dec((j - 2) as nat)); if a[i] == a[j] { lemma_dec_inj((i - 2) as nat, (j - 2) as nat); } }
        } else {
            let y = (j - 2 - clips) as nat; assert(a[j] == arrow_id(y)); assert(arrow_id(y)[0] == 'a');
            if i < 2 { assert(a[i][0] != 'a'); } else if i < 2 + clips { assert(a[i] == clip_id((i - 2) as nat)); assert(clip_id((i - 2) as nat)[0] == 'C'); }
            else { let x = (i - 2 - clips) as nat; assert(a[i] == arrow_id(x)); lemma_tail(TEXT{arrow}, dec(x), dec(y)); if a[i] == a[j] { lemma_dec_inj(x, y); } }
        }
    }
    assert forall|v: Seq<char>| #[trigger] is_id(v, arrows, clips) implies a.contains(v) by {
        if v == start_id() { assert(a[0] == v); } else if v == end_id() { assert(a[1] == v); }
        else if exists|k: nat| k < clips && v == #[trigger] clip_id(k) { let k = choose|k: nat| k < clips && v == #[trigger] clip_id(k); assert(a[2 + k as int] == v); }
        else { let k = choose|k: nat| k < arrows && v == #[trigger] arrow_id(k); assert(a[2 + clips + k as int] == v); }
    }
}
pub proof fn lemma_tail(p: Seq<char>, a: Seq<char>, b: Seq<char>) ensures p + a == p + b ==> a == b
{ if p + a == p + b { assert((p + a).skip(p.len() as int) =~= a); assert((p + b).skip(p.len() as int) =~= b); } }
// a class stands for one font size
pub proof fn lemma_classes(a: nat, b: nat) requires font_class(a) == font_class(b) ensures a == b { lemma_tail(TEXT{a}, dec(a), dec(b)); lemma_dec_inj(a, b); }
// the style sheet: one rule for every class
pub open spec fn css_upto(a: Seq<(usize, (String, String))>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::<char>::empty().push('\n') } else { (css_upto(a, n - 1) + a[n - 1].1.1@).push('\n') } }
pub open spec fn rules_ok(m: Map<usize, (String, String)>) -> bool { forall|k: usize| #[trigger] m.contains_key(k) ==> m[k].0@ == font_class(k as nat) && m[k].1@ == rule(k as nat) }
pub open spec fn classed(fonts: Seq<Seq<char>>, m: Map<usize, (String, String)>) -> bool { forall|i: int| 0 <= i < fonts.len() ==> has_class(#[trigger] fonts[i], m) }
pub open spec fn has_class(v: Seq<char>, m: Map<usize, (String, String)>) -> bool { exists|k: usize| #[trigger] m.contains_key(k) && v == font_class(k as nat) }
pub proof fn lemma_classed(fonts: Seq<Seq<char>>, m: Map<usize, (String, String)>, n: Map<usize, (String, String)>, k: usize) requires classed(fonts, m), m.submap_of(n), n.contains_key(k), rules_ok(n) ensures classed(fonts.push(font_class(k as nat)), n)
{
    let f = fonts.push(font_class(k as nat));
    assert forall|i: int| 0 <= i < f.len() implies has_class(#[trigger] f[i], n) by {
        if i < fonts.len() { assert(has_class(fonts[i], m)); let j = choose|j: usize| #[trigger] m.contains_key(j) && fonts[i] == font_class(j as nat); assert(n.contains_key(j)); } else { assert(f[i] == font_class(k as nat)); }
    }
}
// a clip region: one identifier of its own, no text, no references
pub open spec fn clip_ok(s: Seq<char>, k: int) -> bool { well(s) && frag(s).ids == seq![clip_id(k as nat)] && bare(frag(s)) && frag(s).css == Seq::<char>::empty() }
pub open spec fn bare(r: XR) -> bool { r.texts == Seq::<Seq<char>>::empty() && r.refs == Seq::<Seq<char>>::empty() && r.fonts == Seq::<Seq<char>>::empty() }
// the attributes that are read from the text
pub open spec fn given(p: Seq<char>) -> Set<(int, Seq<char>)> { eff(XZ { m: XM::Tag, r: r0() }, p).r.tag }
// attributes the user gives: they read as attributes, and define and use nothing
pub open spec fn attributes(p: Seq<char>) -> bool {
    forall|z: XZ| z.m is Tag && z.r.names == Set::<int>::empty() ==> ({
        let y = #[trigger] eff(z, p);
        (y.m is Tag || y.m is After) && y.r == (XR { names: y.r.names, at: y.r.at, tag: z.r.tag.union(given(p)), ..z.r }) && z.r.at.subset_of(y.r.at)
    })
}
pub open spec fn attrs_given(o: Option<String>) -> bool { match o { None => true, Some(p) => attributes(p@) } }
pub proof fn lemma_no_attributes() ensures attributes(Seq::empty()), given(Seq::empty()) == Set::<(int, Seq<char>)>::empty() {
    lemma_eff_none(XZ { m: XM::Tag, r: r0() });
    assert forall|z: XZ| z.m is Tag implies #[trigger] eff(z, Seq::empty()) == z && z.r.tag.union(given(Seq::empty())) == z.r.tag by { lemma_eff_none(z); assert(z.r.tag.union(given(Seq::empty())) =~= z.r.tag); }
}
// ---- the lines of a label, each as an element of its own ----
pub open spec fn in_text(z: XZ) -> bool { z.m is Text && z.r.stack.len() > 0 && !labels(top(z.r)) && top(z.r) != NAME(style) && !z.r.fresh && z.r.names == Set::<int>::empty() && z.r.tag == Set::<(int, Seq<char>)>::empty() && z.r.cur == Seq::<char>::empty() }
pub open spec fn repeated(e: (int, Set<(int, Seq<char>)>), n: nat) -> Seq<(int, Set<(int, Seq<char>)>)> { Seq::new(n, |i: int| e) }
pub open spec fn spans(s: Seq<char>, ls: Seq<Seq<char>>, a: Set<(int, int, Seq<char>)>, e: (int, Set<(int, Seq<char>)>)) -> bool { forall|z: XZ| in_text(z) ==> #[trigger] eff(z, s) == (XZ { m: XM::Text, r: XR { texts: z.r.texts + ls, at: z.r.at.union(a), els: z.r.els + repeated(e, ls.len()), ..z.r } }) }
pub proof fn lemma_spans_none(e: (int, Set<(int, Seq<char>)>)) ensures spans(Seq::empty(), Seq::empty(), Set::empty(), e) {
    assert forall|z: XZ| in_text(z) implies #[trigger] eff(z, Seq::empty()) == (XZ { m: XM::Text, r: XR { texts: z.r.texts + Seq::<Seq<char>>::empty(), at: z.r.at.union(Set::empty()), els: z.r.els + repeated(e, 0), ..z.r } }) by {
        lemma_eff_none(z); assert(z.r.texts + Seq::<Seq<char>>::empty() =~= z.r.texts); assert(z.r.at.union(Set::empty()) =~= z.r.at); assert(z.r.els + repeated(e, 0) =~= z.r.els);
    }
}
@end
