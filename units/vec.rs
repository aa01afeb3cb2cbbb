pub mod vecs {
use super::pre::*;
use vstd::prelude::*;
use std::collections::{HashMap, HashSet, VecDeque};
broadcast use {super::pre::group_strings, vstd::std_specs::hash::group_hash_axioms, vstd::group_vstd_default};
// ---------------------------------------------------------------- iterators are taken as the vector of what they yield
pub open spec fn derefs<T>(s: Seq<&T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub trait VIter<T> {
    spec fn vseq(&self) -> Seq<T>;
    fn v_iter<'a>(&'a self) -> (r: Vec<&'a T>) ensures derefs(r@) == self.vseq(), r@.len() == self.vseq().len(),
        forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == self.vseq()[i], forall|i: int| 0 <= i < r@.len() ==> *r@[i] == #[trigger] self.vseq()[i];
}
impl<T> VIter<T> for Vec<T> {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: Vec<&'a T>) { self.iter().collect() }
}
impl<T> VIter<T> for [T] {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter<'a>(&'a self) -> (r: Vec<&'a T>) { self.iter().collect() }
}
// IntoIterator
pub trait VInto2<T>: Sized {
    spec fn items(&self) -> Seq<T>;
    fn v_into_iter(self) -> (r: Vec<T>) ensures r@ == self.items();
}
impl<T> VInto2<T> for Vec<T> {
    open spec fn items(&self) -> Seq<T> { self@ }
    fn v_into_iter(self) -> (r: Vec<T>) { self }
}
// results of a filter_map: the values kept
pub open spec fn somes<U>(s: Seq<Option<U>>) -> Seq<U> decreases s.len() {
    if s.len() == 0 { seq![] } else { match s.last() { Some(x) => somes(s.drop_last()).push(x), None => somes(s.drop_last()) } }
}
pub open spec fn usum(s: Seq<usize>) -> int decreases s.len() { if s.len() == 0 { 0 } else { usum(s.drop_last()) + s.last() as int } }
pub trait VVec<T>: Sized {
    spec fn sq(&self) -> Seq<T>;
    fn v_chain<I: VInto2<T>>(self, o: I) -> (r: Vec<T>) ensures r@ == self.sq() + o.items();
    fn v_position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|i: int| 0 <= i < self.sq().len() ==> call_requires(f, (#[trigger] self.sq()[i],))
        ensures match r {
            Some(k) => k < self.sq().len() && call_ensures(f, (self.sq()[k as int],), true)
                && forall|i: int| 0 <= i < k ==> call_ensures(f, (#[trigger] self.sq()[i],), false),
            None => forall|i: int| 0 <= i < self.sq().len() ==> call_ensures(f, (#[trigger] self.sq()[i],), false),
        };
    fn v_filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.sq().len() ==> call_requires(f, (#[trigger] self.sq()[i],))
        ensures exists|rs: Seq<Option<U>>| #[trigger] somes(rs) == r@ && rs.len() == self.sq().len()
            && forall|i: int| 0 <= i < rs.len() ==> call_ensures(f, (self.sq()[i],), #[trigger] rs[i]);
    fn v_map<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>)
        requires forall|i: int| 0 <= i < self.sq().len() ==> call_requires(f, (#[trigger] self.sq()[i],))
        ensures r@.len() == self.sq().len(), forall|i: int| 0 <= i < r@.len() ==> call_ensures(f, (self.sq()[i],), #[trigger] r@[i]);
    // a stable sort by a key computed once per element; keys are usize here
    fn v_sort_by_cached_key<F: Fn(&T) -> usize>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).sq().len() ==> call_requires(f, (&#[trigger] old(self).sq()[i],))
        ensures final(self).sq().len() == old(self).sq().len(),
            exists|p: Seq<int>| #[trigger] is_perm(p, old(self).sq().len()) && forall|i: int| 0 <= i < p.len() ==> #[trigger] final(self).sq()[i] == old(self).sq()[p[i]],
            exists|ks: Seq<usize>| #[trigger] rising(ks) && ks.len() == final(self).sq().len()
                && forall|i: int| 0 <= i < ks.len() ==> call_ensures(f, (&final(self).sq()[i],), #[trigger] ks[i]);
}
pub open spec fn is_perm(p: Seq<int>, n: nat) -> bool {
    p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n) && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j])
    && forall|k: int| 0 <= k < n ==> #[trigger] p.contains(k)
}
pub open spec fn rising(ks: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] <= #[trigger] ks[j] }
impl<T> VVec<T> for Vec<T> {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_chain<I: VInto2<T>>(self, o: I) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body]
    fn v_position<F: Fn(T) -> bool>(self, f: F) -> (r: Option<usize>) { self.into_iter().position(f) }
    #[verifier::external_body]
    fn v_filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: Vec<U>) { self.into_iter().filter_map(f).collect() }
    #[verifier::external_body]
    fn v_map<U, F: Fn(T) -> U>(self, f: F) -> (r: Vec<U>) { self.into_iter().map(f).collect() }
    #[verifier::external_body]
    fn v_sort_by_cached_key<F: Fn(&T) -> usize>(&mut self, f: F) { self.sort_by_cached_key(f) }
}
pub trait VSum { fn v_sum(self) -> usize; }
#[verifier::external_body]
pub fn v_sum(v: Vec<usize>) -> (r: usize) requires usum(v@) <= usize::MAX ensures r == usum(v@) { v.into_iter().sum() }
// String::from_iter over strings
pub open spec fn cat(v: Seq<String>) -> Seq<char> decreases v.len() { if v.len() == 0 { seq![] } else { cat(v.drop_last()) + v.last()@ } }
#[verifier::external_body]
pub fn v_concat(v: Vec<String>) -> (r: String) ensures r@ == cat(v@) { String::from_iter(v.into_iter()) }
// slices, vectors
pub trait VSlice<T> {
    spec fn sl(&self) -> Seq<T>;
    fn v_to_vec(&self) -> (r: Vec<T>) where T: Copy ensures r@ == self.sl();
    fn v_at(&self, i: usize) -> (r: &T) requires i < self.sl().len() ensures *r == self.sl()[i as int];
}
impl<T> VSlice<T> for [T] {
    open spec fn sl(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_to_vec(&self) -> (r: Vec<T>) where T: Copy { self.to_vec() }
    fn v_at(&self, i: usize) -> (r: &T) { &self[i] }
}
impl<T> VSlice<T> for Vec<T> {
    open spec fn sl(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_to_vec(&self) -> (r: Vec<T>) where T: Copy { self.to_vec() }
    fn v_at(&self, i: usize) -> (r: &T) { &self[i] }
}
pub trait VMutAt<T>: Sized {
    spec fn sm(&self) -> Seq<T>;
    fn v_at_mut(&mut self, i: usize) -> (r: &mut T) requires i < old(self).sm().len()
        ensures *r == old(self).sm()[i as int], final(self).sm() == old(self).sm().update(i as int, *final(r));
}
impl<T> VMutAt<T> for Vec<T> {
    open spec fn sm(&self) -> Seq<T> { self@ }
    fn v_at_mut(&mut self, i: usize) -> (r: &mut T) { &mut self[i] }
}
// bytes of a text (the lifetime is free: rustc has checked the borrow in the real code)
pub trait VBytes { spec fn bts(&self) -> Seq<u8>; fn v_as_bytes<'b>(&self) -> (r: &'b [u8]) ensures r@ == self.bts(); }
impl VBytes for String {
    open spec fn bts(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self@) }
    #[verifier::external_body]
    fn v_as_bytes<'b>(&self) -> (r: &'b [u8]) { unimplemented!() }
}
impl VBytes for str {
    open spec fn bts(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self@) }
    #[verifier::external_body]
    fn v_as_bytes<'b>(&self) -> (r: &'b [u8]) { unimplemented!() }
}
// maps keyed by numbers
pub trait VMapU<V>: Sized {
    spec fn mm(&self) -> Map<u32, V>;
    fn v_get_mut<'a>(&'a mut self, k: &u32) -> (r: Option<&'a mut V>)
        ensures match r {
            Some(v) => old(self).mm().contains_key(*k) && *v == old(self).mm()[*k] && final(self).mm() == old(self).mm().insert(*k, *final(v)),
            None => !old(self).mm().contains_key(*k) && *final(self) == *old(self),
        };
    // the values, in some order
    fn v_values<'a>(&'a self) -> (r: Vec<&'a V>)
        ensures exists|ks: Seq<u32>| #[trigger] enumerates(ks, self.mm().dom()) && ks.len() == r@.len()
            && forall|i: int| 0 <= i < ks.len() ==> *#[trigger] r@[i] == self.mm()[ks[i]];
}
pub open spec fn enumerates(ks: Seq<u32>, d: Set<u32>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < ks.len() ==> #[trigger] ks[i] != #[trigger] ks[j])
    && (forall|i: int| 0 <= i < ks.len() ==> d.contains(#[trigger] ks[i]))
    && forall|k: u32| #[trigger] d.contains(k) ==> exists|i: int| 0 <= i < ks.len() && ks[i] == k
}
impl<V> VMapU<V> for HashMap<u32, V> {
    open spec fn mm(&self) -> Map<u32, V> { self@ }
    #[verifier::external_body]
    fn v_get_mut<'a>(&'a mut self, k: &u32) -> (r: Option<&'a mut V>) { self.get_mut(k) }
    #[verifier::external_body]
    fn v_values<'a>(&'a self) -> (r: Vec<&'a V>) { self.values().collect() }
}
} // vecs
