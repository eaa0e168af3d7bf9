@module map
@use base
@code
use std::collections::HashMap;
use std::hash::Hash;
use vstd::std_specs::cmp::*;
// The key and value types are well behaved: `==` decides equality, clones are equal.
pub open spec fn eq_ok<K: PartialEq>() -> bool { K::obeys_eq_spec() && forall|a: K, b: K| #[trigger] a.eq_spec(&b) == (a == b) }
pub open spec fn clone_ok<V: Clone>() -> bool { forall|a: &V, b: V| #[trigger] call_ensures(V::clone, (a,), b) ==> *a == b }
pub open spec fn unique_keys<K, V>(s: Seq<(K, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
pub open spec fn scope_map<K, V>(s: Seq<(K, V)>) -> Map<K, V> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { scope_map(s.drop_last()).insert(s.last().0, s.last().1) }
}
pub proof fn scope_map_dom<K, V>(s: Seq<(K, V)>)
    requires unique_keys(s),
    ensures forall|i: int| 0 <= i < s.len() ==> scope_map(s).dom().contains((#[trigger] s[i]).0) && scope_map(s)[s[i].0] == s[i].1,
        forall|k: K| (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != k) ==> !scope_map(s).dom().contains(k),
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert(forall|i: int| 0 <= i < d.len() ==> d[i] == s[i]);
        scope_map_dom(d);
        assert forall|i: int| 0 <= i < s.len() implies scope_map(s).dom().contains((#[trigger] s[i]).0) && scope_map(s)[s[i].0] == s[i].1 by {
            if i < s.len() - 1 { assert(d[i] == s[i]); assert(s[i].0 != s.last().0); }
        }
        assert forall|k: K| (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != k) implies !scope_map(s).dom().contains(k) by {
            assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0 != k by { assert(d[i] == s[i]); }
            assert(!scope_map(d).dom().contains(k)); assert(s[s.len() - 1].0 != k);
        }
    }
}
pub proof fn scope_map_push<K, V>(s: Seq<(K, V)>, p: (K, V)) ensures scope_map(s.push(p)) == scope_map(s).insert(p.0, p.1) {
    assert(s.push(p).drop_last() =~= s);
}
pub proof fn scope_map_ext<K, V>(a: Seq<(K, V)>, m: Map<K, V>)
    requires unique_keys(a),
        forall|i: int| 0 <= i < a.len() ==> m.dom().contains((#[trigger] a[i]).0) && m[a[i].0] == a[i].1,
        forall|k: K| m.dom().contains(k) ==> exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == k,
    ensures scope_map(a) == m
{
    scope_map_dom(a);
    assert(scope_map(a) =~= m) by {
        assert forall|k: K| scope_map(a).dom().contains(k) <==> m.dom().contains(k) by {
            if scope_map(a).dom().contains(k) { if !exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == k { assert(false); } }
        }
    }
}
pub proof fn scope_map_update<K, V>(s: Seq<(K, V)>, i: int, v: V)
    requires unique_keys(s), 0 <= i < s.len(),
    ensures scope_map(s.update(i, (s[i].0, v))) == scope_map(s).insert(s[i].0, v), unique_keys(s.update(i, (s[i].0, v)))
{
    let t = s.update(i, (s[i].0, v));
    let m = scope_map(s).insert(s[i].0, v);
    scope_map_dom(s);
    assert forall|j: int, k: int| 0 <= j < k < t.len() implies (#[trigger] t[j]).0 != (#[trigger] t[k]).0 by { assert(s[j].0 != s[k].0); }
    assert forall|j: int| 0 <= j < t.len() implies m.dom().contains((#[trigger] t[j]).0) && m[t[j].0] == t[j].1 by { let x = s[j]; if j < i { assert(s[j].0 != s[i].0); } else if j > i { assert(s[i].0 != s[j].0); } }
    assert forall|k: K| m.dom().contains(k) implies exists|j: int| 0 <= j < t.len() && (#[trigger] t[j]).0 == k by {
        if k == s[i].0 { assert(t[i].0 == k); } else { assert(scope_map(s).dom().contains(k)); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == k; assert(t[j].0 == k); }
    }
    scope_map_ext(t, m);
}
// innermost scope wins
pub open spec fn lookup<K, V>(v: Seq<Map<K, V>>, k: K) -> Option<V> decreases v.len() {
    if v.len() == 0 { None } else if v.last().dom().contains(k) { Some(v.last()[k]) } else { lookup(v.drop_last(), k) }
}
pub open spec fn merged<K, V>(v: Seq<Map<K, V>>) -> Map<K, V> decreases v.len() {
    if v.len() == 0 { Map::empty() } else { merged(v.drop_last()).union_prefer_right(v.last()) }
}
// the flattened map is exactly the lookup of every key
pub proof fn merged_is_lookup<K, V>(v: Seq<Map<K, V>>, k: K)
    ensures match lookup(v, k) { Some(x) => merged(v).dom().contains(k) && merged(v)[k] == x, None => !merged(v).dom().contains(k) }
    decreases v.len()
{ if v.len() > 0 { merged_is_lookup(v.drop_last(), k); } }
@end
@file adt/map.rs
@struct ScopedMap
@code
impl<K, V> ScopedMap<K, V> {
    pub open spec fn wf(&self) -> bool { forall|i: int| 0 <= i < self.stack.len() ==> unique_keys((#[trigger] self.stack@[i])@) }
    pub open spec fn view(&self) -> Seq<Map<K, V>> { Seq::new(self.stack@.len(), |i: int| scope_map(self.stack@[i]@)) }
}
@end
@fn ScopedMap::new
ret r
ensures r.wf(), r.view() =~= Seq::<Map<K, V>>::empty(),
@fn ScopedMap::push
requires old(self).wf(),
ensures final(self).wf(), final(self).view() =~= old(self).view().push(Map::empty()),
@fn ScopedMap::pop
requires old(self).wf(),
ensures final(self).wf(), final(self).view() =~= (if old(self).view().len() == 0 { old(self).view() } else { old(self).view().drop_last() }),
@fn ScopedMap::len
ret r
ensures r == self.view().len(),
@fn ScopedMap::is_empty
ret r
ensures r == (self.view().len() == 0),
@fn ScopedMap::insert loop_isolation
requires old(self).wf(), old(self).view().len() > 0, eq_ok::<K>(), clone_ok::<K>(), clone_ok::<V>(),
ensures final(self).wf(),
    final(self).view() =~= old(self).view().update(old(self).view().len() - 1, old(self).view().last().insert(*key, *val)),
@loop 1 kind=vecmut
invariant eq_ok::<K>(), clone_ok::<K>(), clone_ok::<V>(), unique_keys(vx_s1@), vx_s1@ == old(self).stack@.last()@,
   forall|i: int| 0 <= i < vx_i1 ==> (#[trigger] vx_s1@[i]).0 != *key,
@loopstart 1
proof { scope_map_update(old(self).stack@.last()@, vx_i1 - 1, *val); }
@loopafter 1
proof { scope_map_push(old(self).stack@.last()@, (*key, *val)); }
@fn ScopedMap::get
ret r
requires self.wf(), eq_ok::<K>(), clone_ok::<V>(),
ensures r == lookup(self.view(), *key),
@loop 1
invariant self.wf(), eq_ok::<K>(), clone_ok::<V>(), vx_s1 == &self.stack, lookup(self.view(), *key) == lookup(self.view().take(vx_e1 - vx_i1), *key),
@loopbefore 1
proof { assert(self.view().take(vx_e1 as int) =~= self.view()); }
@loopstart 1
proof { let v = self.view().take(vx_e1 - vx_i1 + 1); assert(v.drop_last() =~= self.view().take(vx_e1 - vx_i1)); assert(v.last() == scope_map(scope@)); scope_map_dom(scope@); }
@loop 2
invariant self.wf(), eq_ok::<K>(), clone_ok::<V>(), vx_s2 == scope, unique_keys(scope@),
  forall|i: int| 0 <= i < vx_i2 ==> (#[trigger] scope@[i]).0 != *key,
  scope_map(scope@).dom().contains(*key) ==> lookup(self.view(), *key) == Some(scope_map(scope@)[*key]),
@loopstart 2
proof { scope_map_dom(scope@); assert(pair == scope@[vx_i2 - 1]); }
@loopafter 2
proof { scope_map_dom(scope@); }
@fn ScopedMap::has
ret r
requires self.wf(), eq_ok::<K>(), clone_ok::<V>(),
ensures r == lookup(self.view(), *key).is_some(),
@fn ScopedMap::flatten
ret r
requires self.wf(), clone_ok::<K>(), clone_ok::<V>(), vstd::std_specs::hash::obeys_key_model::<K>(),
ensures r@ =~= merged(self.view()),
@loop 1
invariant self.wf(), clone_ok::<K>(), clone_ok::<V>(), vstd::std_specs::hash::obeys_key_model::<K>(), vx_s1 == &self.stack,
   map@ == merged(self.view().take(vx_i1 as int)),
@loopstart 1
let ghost m0 = map@;
proof { let v = self.view().take(vx_i1 as int); assert(v.drop_last() =~= self.view().take(vx_i1 - 1)); assert(v.last() == scope_map(scope@)); assert(scope@.take(0) =~= Seq::empty()); }
@loop 2
invariant self.wf(), clone_ok::<K>(), clone_ok::<V>(), vstd::std_specs::hash::obeys_key_model::<K>(), vx_s2 == scope,
   map@ =~= m0.union_prefer_right(scope_map(scope@.take(vx_i2 as int))),
@loopstart 2
proof { scope_map_push(scope@.take(vx_i2 - 1), (pair.0, pair.1)); assert(scope@.take(vx_i2 - 1).push((pair.0, pair.1)) =~= scope@.take(vx_i2 as int)); }
@loopafter 2
proof { assert(scope@.take(vx_e2 as int) =~= scope@); }
@loopafter 1
proof { assert(self.view().take(vx_e1 as int) =~= self.view()); }
