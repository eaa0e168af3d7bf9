@module base
@code
use std::cmp::Ordering;
global size_of usize == 8;
// ---- what the verified text relies on instead of a macro or a std iterator adapter; each one is proved here ----
pub fn vx_assert(b: bool) requires b, ensures b { }
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { panic!() }
pub open spec fn vx_pre<T, F: Fn(&T) -> bool>(s: Seq<T>, f: F) -> bool { forall|i: int| 0 <= i < s.len() ==> f.requires((&#[trigger] s[i],)) }
pub fn vx_position<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: Option<usize>)
    requires vx_pre(s@, f),
    ensures match r {
        Some(p) => p < s.len() && f.ensures((&s[p as int],), true) && forall|i: int| 0 <= i < p ==> f.ensures((&#[trigger] s[i],), false),
        None => forall|i: int| 0 <= i < s.len() ==> f.ensures((&#[trigger] s[i],), false),
    }
{
    let mut i = 0;
    while i < s.len()
        invariant i <= s.len(), vx_pre(s@, f), forall|k: int| 0 <= k < i ==> f.ensures((&#[trigger] s[k],), false),
        decreases s.len() - i
    { if f(&s[i]) { return Some(i); } i = i + 1; }
    None
}
pub fn vx_any<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool)
    requires vx_pre(s@, f),
    ensures r ==> exists|i: int| 0 <= i < s.len() && f.ensures((&#[trigger] s[i],), true), !r ==> forall|i: int| 0 <= i < s.len() ==> f.ensures((&#[trigger] s[i],), false),
{ vx_position(s, f).is_some() }
pub fn vx_all<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool)
    requires vx_pre(s@, f),
    ensures !r ==> exists|i: int| 0 <= i < s.len() && f.ensures((&#[trigger] s[i],), false), r ==> forall|i: int| 0 <= i < s.len() ==> f.ensures((&#[trigger] s[i],), true),
{
    let mut i = 0;
    while i < s.len()
        invariant i <= s.len(), vx_pre(s@, f), forall|k: int| 0 <= k < i ==> f.ensures((&#[trigger] s[k],), true),
        decreases s.len() - i
    { if !f(&s[i]) { return false; } i = i + 1; }
    true
}
pub fn vx_contains_usize(s: &[usize], x: usize) -> (r: bool) ensures r == s@.contains(x) {
    let mut i = 0;
    while i < s.len() invariant i <= s.len(), forall|k: int| 0 <= k < i ==> s[k] != x, decreases s.len() - i
    { if s[i] == x { assert(s@[i as int] == x); return true; } i = i + 1; }
    false
}
// equality that the verifier understands, for every type whose == is structural
pub trait VxEq: Sized { fn vx_eq(&self, o: &Self) -> (r: bool) ensures r == (*self == *o); }
impl VxEq for usize { fn vx_eq(&self, o: &Self) -> (r: bool) { *self == *o } }
pub fn vx_contains<T: VxEq>(s: &[T], x: &T) -> (r: bool) ensures r == s@.contains(*x) {
    let mut i = 0;
    while i < s.len() invariant i <= s.len(), forall|k: int| 0 <= k < i ==> s[k] != *x, decreases s.len() - i
    { if s[i].vx_eq(x) { assert(s@[i as int] == *x); return true; } i = i + 1; }
    false
}
// (a..b).find(f)
pub fn vx_find<F: Fn(usize) -> bool>(a: usize, b: usize, f: F) -> (r: Option<usize>)
    requires forall|i: usize| a <= i < b ==> f.requires((i,)),
    ensures match r { Some(p) => a <= p < b && f.ensures((p,), true) && forall|i: usize| a <= i < p ==> f.ensures((i,), false), None => forall|i: usize| a <= i < b ==> f.ensures((i,), false) },
{
    let mut i = a;
    while i < b
        invariant a <= i, a <= b ==> i <= b, forall|k: usize| a <= k < b ==> f.requires((k,)), forall|k: usize| a <= k < i ==> f.ensures((k,), false),
        decreases b - i
    { if f(i) { return Some(i); } i = i + 1; }
    None
}
// x.iter().copied()
pub struct VxCopied<'a, T> { pub s: &'a [T], pub i: usize }
impl<'a, T: Copy> VxCopied<'a, T> {
    pub open spec fn left(self) -> nat { if self.i <= self.s.len() { (self.s.len() - self.i) as nat } else { 0 } }
    pub fn next(&mut self) -> (r: Option<T>)
        ensures final(self).s == old(self).s, match r { Some(x) => old(self).i < old(self).s.len() && x == old(self).s@[old(self).i as int] && final(self).i == old(self).i + 1, None => old(self).i >= old(self).s.len() && final(self).i == old(self).i },
    { if self.i < self.s.len() { let x = self.s[self.i]; self.i = self.i + 1; Some(x) } else { None } }
}
pub trait VxCopyIter<T> { spec fn cv(&self) -> Seq<T>; fn vx_iter_copied(&self) -> (r: VxCopied<'_, T>) ensures r.s@ == self.cv(), r.i == 0; }
impl<T: Copy> VxCopyIter<T> for Vec<T> { open spec fn cv(&self) -> Seq<T> { self@ } fn vx_iter_copied(&self) -> (r: VxCopied<'_, T>) { VxCopied { s: self.as_slice(), i: 0 } } }
impl<T: Copy> VxCopyIter<T> for [T] { open spec fn cv(&self) -> Seq<T> { self@ } fn vx_iter_copied(&self) -> (r: VxCopied<'_, T>) { VxCopied { s: self, i: 0 } } }
// a |= b and a &= b (both operands are evaluated)
pub trait VxBits: Sized { spec fn bor(self, o: Self) -> Self; spec fn band(self, o: Self) -> Self; fn vx_or(self, o: Self) -> (r: Self) ensures r == self.bor(o); fn vx_and(self, o: Self) -> (r: Self) ensures r == self.band(o); }
impl VxBits for bool { open spec fn bor(self, o: Self) -> Self { self || o } open spec fn band(self, o: Self) -> Self { self && o } fn vx_or(self, o: Self) -> (r: Self) { self || o } fn vx_and(self, o: Self) -> (r: Self) { self && o } }
pub fn vx_bor<T: VxBits>(a: T, b: T) -> (r: T) ensures r == a.bor(b) { a.vx_or(b) }
pub fn vx_band<T: VxBits>(a: T, b: T) -> (r: T) ensures r == a.band(b) { a.vx_and(b) }
// x.to_string() and String::from(x) on strings
pub trait VxStr { spec fn sv(&self) -> Seq<char>; fn vx_str(&self) -> (r: String) ensures r@ == self.sv(); }
impl VxStr for str { open spec fn sv(&self) -> Seq<char> { self@ } fn vx_str(&self) -> (r: String) { broadcast use vstd::string::to_string_from_display_ensures_for_str; self.to_string() } }
impl VxStr for String { open spec fn sv(&self) -> Seq<char> { self@ } fn vx_str(&self) -> (r: String) { self.clone() } }
pub fn vx_string_from(s: &str) -> (r: String) ensures r@ == s@ { s.vx_str() }
// what {} prints
pub trait VxDisp { spec fn shown(&self) -> Seq<char>; fn vx_show(&self) -> (r: String) ensures r@ == self.shown(); }
impl VxDisp for str { open spec fn shown(&self) -> Seq<char> { self@ } fn vx_show(&self) -> (r: String) { self.vx_str() } }
impl VxDisp for String { open spec fn shown(&self) -> Seq<char> { self@ } fn vx_show(&self) -> (r: String) { self.clone() } }
impl<'a, T: VxDisp + ?Sized> VxDisp for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } fn vx_show(&self) -> (r: String) { (**self).vx_show() } }
pub fn vx_disp<T: VxDisp + ?Sized>(x: &T) -> (r: String) ensures r@ == x.shown() { x.vx_show() }
// &x[..]
pub trait VxFull { type Out: ?Sized; spec fn full(&self, r: &Self::Out) -> bool; fn vx_full(&self) -> (r: &Self::Out) ensures self.full(r); }
impl VxFull for String { type Out = str; open spec fn full(&self, r: &str) -> bool { r@ == self@ } fn vx_full(&self) -> (r: &str) { self.as_str() } }
impl<T> VxFull for Vec<T> { type Out = [T]; open spec fn full(&self, r: &[T]) -> bool { r@ == self@ } fn vx_full(&self) -> (r: &[T]) { self.as_slice() } }
// x.clone(), element by element
pub trait VxClone: Sized { spec fn same(self, o: Self) -> bool; fn vx_clone(&self) -> (r: Self) ensures self.same(r); }
impl VxClone for usize { open spec fn same(self, o: Self) -> bool { self == o } fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for String { open spec fn same(self, o: Self) -> bool { self == o } fn vx_clone(&self) -> (r: Self) { self.clone() } }
impl<T: VxClone> VxClone for Option<T> {
    open spec fn same(self, o: Self) -> bool { match self { None => o is None, Some(a) => match o { None => false, Some(b) => a.same(b) } } }
    fn vx_clone(&self) -> (r: Self) { match self { None => None, Some(a) => Some(a.vx_clone()) } }
}
impl<A: VxClone, B: VxClone> VxClone for (A, B) { open spec fn same(self, o: Self) -> bool { self.0.same(o.0) && self.1.same(o.1) } fn vx_clone(&self) -> (r: Self) { (self.0.vx_clone(), self.1.vx_clone()) } }
impl<T: VxClone> VxClone for Vec<T> {
    open spec fn same(self, o: Self) -> bool { self.len() == o.len() && forall|i: int| 0 <= i < self.len() ==> (#[trigger] self[i]).same(o[i]) }
    fn vx_clone(&self) -> (r: Self) {
        let mut r = Vec::new(); let mut i = 0;
        while i < self.len() invariant i <= self.len(), r.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] self[k]).same(r[k]), decreases self.len() - i
        { r.push(self[i].vx_clone()); i = i + 1; }
        r
    }
}
// what an iterator over a slice still has to give
#[verifier::prophetic] pub open spec fn left<'a, T>(it: std::slice::Iter<'a, T>) -> Seq<&'a T> { vstd::std_specs::iter::IteratorSpec::remaining(&it) }
#[verifier::prophetic] pub open spec fn runs<'a, T>(it: std::slice::Iter<'a, T>, s: Seq<T>, k: int) -> bool { 0 <= k <= s.len() && left(it).len() == s.len() - k && forall|i: int| 0 <= i < s.len() - k ==> *(#[trigger] left(it)[i]) == s[i + k] }
// stands for std::cmp
pub mod cmp {
    use vstd::prelude::*;
    pub trait VxOrd: Sized { spec fn le(self, o: Self) -> bool; fn vx_le(&self, o: &Self) -> (r: bool) ensures r == self.le(*o); }
    impl VxOrd for usize { open spec fn le(self, o: Self) -> bool { self <= o } fn vx_le(&self, o: &Self) -> (r: bool) { *self <= *o } }
    pub fn max<T: VxOrd>(a: T, b: T) -> (r: T) ensures r == (if a.le(b) { b } else { a }) { if a.vx_le(&b) { b } else { a } }
    pub fn min<T: VxOrd>(a: T, b: T) -> (r: T) ensures r == (if a.le(b) { a } else { b }) { if a.vx_le(&b) { a } else { b } }
}
pub assume_specification<T> [ <[T]>::reverse ] (s: &mut [T]) ensures final(s)@ == old(s)@.reverse();
pub open spec fn swapped<T>(s: Seq<T>, a: int, b: int) -> Seq<T> { s.update(a, s[b]).update(b, s[a]) }
pub open spec fn rotated<T>(s: Seq<T>, k: int) -> Seq<T> { s.subrange(k, s.len() as int) + s.subrange(0, k) }
pub assume_specification<T> [ <[T]>::swap ] (s: &mut [T], a: usize, b: usize) requires a < old(s)@.len(), b < old(s)@.len() ensures final(s)@ == swapped(old(s)@, a as int, b as int);
pub assume_specification<T> [ <[T]>::rotate_left ] (s: &mut [T], k: usize) requires k <= old(s)@.len() ensures final(s)@ == rotated(old(s)@, k as int);
pub proof fn lemma_first<T>(s: Seq<T>, h: T, i: int)
    requires 0 <= i < s.len(), s[i] == h, forall|j: int| 0 <= j < i ==> s[j] != h,
    ensures first(s, h) == i, s.contains(h), rm1(s, h) == s.remove(i)
{ let f = first(s, h); if f < i { assert(s[f] != h); } else if i < f { assert(s[i] != h); } }
// the position of the first h, and s without it
pub open spec fn first<T>(s: Seq<T>, h: T) -> int { choose|i: int| 0 <= i < s.len() && s[i] == h && forall|j: int| 0 <= j < i ==> s[j] != h }
pub open spec fn rm1<T>(s: Seq<T>, h: T) -> Seq<T> { if s.contains(h) { s.remove(first(s, h)) } else { s } }
pub proof fn lemma_first_exists<T>(s: Seq<T>, h: T)
    requires s.contains(h),
    ensures ({ let i = first(s, h); 0 <= i < s.len() && s[i] == h && forall|j: int| 0 <= j < i ==> s[j] != h })
    decreases s.len()
{
    if s[s.len() - 1] == h && !s.drop_last().contains(h) {
        let i = s.len() - 1;
        assert forall|j: int| 0 <= j < i implies s[j] != h by { if s[j] == h { assert(s.drop_last()[j] == h); } }
        lemma_first(s, h, i);
    } else {
        let d = s.drop_last();
        if !d.contains(h) { let j = choose|j: int| 0 <= j < s.len() && s[j] == h; assert(d[j] == h); }
        lemma_first_exists(d, h); let i = first(d, h);
        assert forall|j: int| 0 <= j < i implies s[j] != h by { assert(d[j] != h); }
        lemma_first(s, h, i);
    }
}
pub assume_specification<T: Clone> [ <[T]>::to_vec ] (s: &[T]) -> (r: Vec<T>) ensures r.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(#[trigger] s@[i], r@[i]);
// ---- floating point numbers, read as the real numbers they stand for (rounding, NaN and infinities are left out) ----
pub mod flt {
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
verus!{
#[verifier::external_body]
pub struct Fl { v: f64 }
impl Clone for Fl { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for Fl {}
pub uninterp spec fn rv(x: Fl) -> real;
pub uninterp spec fn fr(x: real) -> Fl;
pub broadcast axiom fn ax_fr(x: real) ensures rv(#[trigger] fr(x)) == x;
impl AddSpecImpl for Fl { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Fl) -> bool { true } open spec fn add_spec(self, o: Fl) -> Fl { fr(rv(self) + rv(o)) } }
impl core::ops::Add for Fl { type Output = Fl; #[verifier::external_body] fn add(self, o: Fl) -> Fl { Fl { v: self.v + o.v } } }
impl SubSpecImpl for Fl { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Fl) -> bool { true } open spec fn sub_spec(self, o: Fl) -> Fl { fr(rv(self) - rv(o)) } }
impl core::ops::Sub for Fl { type Output = Fl; #[verifier::external_body] fn sub(self, o: Fl) -> Fl { Fl { v: self.v - o.v } } }
impl MulSpecImpl for Fl { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: Fl) -> bool { true } open spec fn mul_spec(self, o: Fl) -> Fl { fr(rv(self) * rv(o)) } }
impl core::ops::Mul for Fl { type Output = Fl; #[verifier::external_body] fn mul(self, o: Fl) -> Fl { Fl { v: self.v * o.v } } }
// nothing is known about a quotient by zero
pub uninterp spec fn by_zero(x: Fl) -> Fl;
impl DivSpecImpl for Fl { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: Fl) -> bool { true } open spec fn div_spec(self, o: Fl) -> Fl { if rv(o) == 0real { by_zero(self) } else { fr(rv(self) / rv(o)) } } }
impl core::ops::Div for Fl { type Output = Fl; #[verifier::external_body] fn div(self, o: Fl) -> Fl { Fl { v: self.v / o.v } } }
impl NegSpecImpl for Fl { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> Fl { fr(0real - rv(self)) } }
impl core::ops::Neg for Fl { type Output = Fl; #[verifier::external_body] fn neg(self) -> Fl { Fl { v: -self.v } } }
impl PartialEqSpecImpl for Fl { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Fl) -> bool { rv(*self) == rv(*o) } }
impl PartialEq for Fl { #[verifier::external_body] fn eq(&self, o: &Fl) -> bool { self.v == o.v } }
impl PartialOrdSpecImpl for Fl { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Fl) -> Option<Ordering> { if rv(*self) < rv(*o) { Some(Ordering::Less) } else if rv(*self) == rv(*o) { Some(Ordering::Equal) } else { Some(Ordering::Greater) } } }
impl PartialOrd for Fl { #[verifier::external_body] fn partial_cmp(&self, o: &Fl) -> Option<Ordering> { self.v.partial_cmp(&o.v) } }
pub open spec fn rabs(x: real) -> real { if x < 0real { 0real - x } else { x } }
pub open spec fn rmax(a: real, b: real) -> real { if a < b { b } else { a } }
pub open spec fn rmin(a: real, b: real) -> real { if b < a { b } else { a } }
impl Fl {
    #[verifier::external_body] pub fn abs(self) -> (r: Fl) ensures rv(r) == rabs(rv(self)) { Fl { v: self.v.abs() } }
    #[verifier::external_body] pub fn max(self, b: Fl) -> (r: Fl) ensures rv(r) == rmax(rv(self), rv(b)) { Fl { v: self.v.max(b.v) } }
    #[verifier::external_body] pub fn min(self, b: Fl) -> (r: Fl) ensures rv(r) == rmin(rv(self), rv(b)) { Fl { v: self.v.min(b.v) } }
    #[verifier::external_body] pub fn is_finite(self) -> (r: bool) ensures r == finite(self) { self.v.is_finite() }
    #[verifier::external_body] pub fn sqrt(self) -> (r: Fl) ensures rv(self) >= 0real ==> rv(r) >= 0real && rv(r) * rv(r) == rv(self) { Fl { v: self.v.sqrt() } }
    #[verifier::external_body] pub fn sin(self) -> Fl { Fl { v: self.v.sin() } }
    #[verifier::external_body] pub fn cos(self) -> Fl { Fl { v: self.v.cos() } }
    #[verifier::external_body] pub fn to_radians(self) -> Fl { Fl { v: self.v.to_radians() } }
    #[verifier::external_body] pub fn signum(self) -> (r: Fl) ensures rv(self) > 0real ==> rv(r) == 1real, rv(self) < 0real ==> rv(r) == 0real - 1real, rv(r) == 1real || rv(r) == 0real - 1real { Fl { v: self.v.signum() } }
}
// the number n / d
#[verifier::external_body] pub const fn vx_c(n: u64, d: u64) -> (r: Fl) requires d > 0 ensures d == 1 ==> rv(r) == n as int as real, d != 1 ==> rv(r) == (n as int as real) / (d as int as real) { Fl { v: n as f64 / d as f64 } }
#[verifier::external_body] pub fn vx_f64(n: usize) -> (r: Fl) ensures rv(r) == n as int as real { Fl { v: n as f64 } }
// the infinities: numbers below and above all the (finitely many) numbers they are compared with
pub uninterp spec fn finite(x: Fl) -> bool;
#[verifier::external_body] pub fn vx_inf(b: Ghost<real>) -> (r: Fl) ensures rv(r) >= b@, !finite(r) { Fl { v: f64::INFINITY } }
#[verifier::external_body] pub fn vx_neg_inf(b: Ghost<real>) -> (r: Fl) ensures rv(r) <= b@, !finite(r) { Fl { v: f64::NEG_INFINITY } }
pub fn vx_neg(a: Fl) -> (r: Fl) ensures rv(r) == 0real - rv(a) { broadcast use ax_fr; -a }
}
}
pub use flt::*;
@end
