@module props
@use base text
@code
// ---- maps whose keys are strings: what the standard library's HashMap and String do (assumed) ----
use std::collections::HashMap;
use vstd::std_specs::hash::*;
use vstd::std_specs::cmp::*;
// the String with these characters
pub uninterp spec fn txt(s: Seq<char>) -> String;
pub broadcast axiom fn ax_txt(s: Seq<char>) ensures (#[trigger] txt(s))@ == s;
pub broadcast axiom fn ax_string(s: String) ensures txt(#[trigger] s@) == s;
pub broadcast axiom fn ax_str2(a: &str, b: &str) ensures #[trigger] a@ == #[trigger] b@ ==> a == b;
pub broadcast axiom fn ax_key0() ensures #[trigger] obeys_key_model::<String>();
pub broadcast axiom fn ax_key1<V>(m: Map<String, V>, k: &str) ensures #[trigger] contains_borrowed_key::<String, V, str>(m, k) == m.dom().contains(txt(k@));
pub broadcast axiom fn ax_key2<V>(m: Map<String, V>, k: &str, v: V) ensures #[trigger] maps_borrowed_key_to_value::<String, V, str>(m, k, v) == (m.dom().contains(txt(k@)) && m[txt(k@)] == v);
pub broadcast axiom fn ax_eq0() ensures #[trigger] <String as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn ax_eq1(a: String, b: String) ensures #[trigger] PartialEqSpec::eq_spec(&a, &b) == (a == b);
pub broadcast axiom fn ax_seq0() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax_sev0(a: String, b: &str) ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@);
pub broadcast axiom fn ax_seq1<'x>() ensures #[trigger] <String as PartialEqSpec<&'x str>>::obeys_eq_spec();
pub broadcast axiom fn ax_sev1<'x>(a: String, b: &'x str) ensures #[trigger] <String as PartialEqSpec<&'x str>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_seq2() ensures #[trigger] <str as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax_sev2(a: &str, b: String) ensures #[trigger] <str as PartialEqSpec<String>>::eq_spec(a, &b) == (a@ == b@);
pub broadcast axiom fn ax_seq3<'x>() ensures #[trigger] <&'x str as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax_sev3<'x>(a: &'x str, b: String) ensures #[trigger] <&'x str as PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast group text_keys { ax_txt, ax_string, ax_str2, ax_key0, ax_key1, ax_key2, ax_eq0, ax_eq1, ax_seq0, ax_sev0, ax_seq1, ax_sev1, ax_seq2, ax_sev2, ax_seq3, ax_sev3 }
pub trait VxKey { spec fn ks(&self) -> Seq<char>; }
impl VxKey for str { open spec fn ks(&self) -> Seq<char> { self@ } }
impl VxKey for String { open spec fn ks(&self) -> Seq<char> { self@ } }
pub trait VxStrMap<V> { fn vx_get_mut<'a, K: VxKey + ?Sized>(&'a mut self, k: &K) -> (r: Option<&'a mut V>); }
impl<V> VxStrMap<V> for HashMap<String, V> {
    #[verifier::external_body]
    fn vx_get_mut<'a, K: VxKey + ?Sized>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures match r { None => !old(self)@.dom().contains(txt(k.ks())) && final(self)@ == old(self)@,
            Some(v) => old(self)@.dom().contains(txt(k.ks())) && old(self)@[txt(k.ks())] == *v && final(self)@ == old(self)@.insert(txt(k.ks()), *final(v)) }
    { unimplemented!() }
}
// the value of a property
pub open spec fn prop(m: Map<String, String>, k: Seq<char>) -> Option<Seq<char>> { if m.dom().contains(txt(k)) { Some(m[txt(k)]@) } else { None } }
@end
