use vstd::prelude::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::convert::Infallible;
use std::str::FromStr;
pub mod pre {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::hash::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::str::FromStr;
verus! {

// ---------------------------------------------------------------- strings
// a String is determined by its characters; mk(s) is the String with the characters s
pub uninterp spec fn mk(s: Seq<char>) -> String;
pub broadcast axiom fn ax_mk_view(s: Seq<char>) ensures (#[trigger] mk(s))@ == s;
pub broadcast axiom fn ax_view_mk(s: String) ensures mk(#[trigger] s@) == s;
pub broadcast axiom fn ax_se1<'b>() ensures #[trigger] <String as PartialEqSpec<&'b str>>::obeys_eq_spec();
pub broadcast axiom fn ax_se2<'b>(a: String, b: &'b str) ensures #[trigger] <String as PartialEqSpec<&'b str>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn ax_se3() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax_se4(a: String, b: &str) ensures #[trigger] <String as PartialEqSpec<str>>::eq_spec(&a, b) == (a@ == b@);
// String keys of hash containers, also looked up by &str
pub broadcast axiom fn ax_string_key() ensures #[trigger] obeys_key_model::<String>();
pub broadcast axiom fn ax_str_borrow<V>(m: Map<String, V>, k: &str)
    ensures #[trigger] contains_borrowed_key::<String, V, str>(m, k) <==> m.contains_key(mk(k@));
pub broadcast axiom fn ax_str_borrow_val<V>(m: Map<String, V>, k: &str, v: V)
    ensures #[trigger] maps_borrowed_key_to_value::<String, V, str>(m, k, v) <==> m.contains_key(mk(k@)) && m[mk(k@)] == v;
pub broadcast axiom fn ax_str_borrow_set(m: Set<String>, k: &str)
    ensures #[trigger] set_contains_borrowed_key::<String, str>(m, k) <==> m.contains(mk(k@));

pub broadcast group group_strings {
    ax_mk_view, ax_view_mk, ax_se1, ax_se2, ax_se3, ax_se4, ax_string_key, ax_str_borrow, ax_str_borrow_val, ax_str_borrow_set,
}

pub assume_specification<T> [std::option::Option::<std::option::Option<T>>::flatten] (o: std::option::Option<std::option::Option<T>>) -> (r: std::option::Option<T>)
    ensures r == (match o { Some(x) => x, None => None });

// ---------------------------------------------------------------- standard library functions that a change may bring in
pub assume_specification<T> [std::option::Option::<T>::or] (o: std::option::Option<T>, p: std::option::Option<T>) -> (r: std::option::Option<T>)
    ensures r == (if o is Some { o } else { p });
pub assume_specification<T, U> [std::option::Option::<T>::and] (o: std::option::Option<T>, p: std::option::Option<U>) -> (r: std::option::Option<U>)
    ensures r == (if o is Some { p } else { None });
pub assume_specification<T, U> [std::option::Option::<T>::zip] (o: std::option::Option<T>, p: std::option::Option<U>) -> (r: std::option::Option<(T, U)>)
    ensures r == (if o is Some && p is Some { Some((o->0, p->0)) } else { None });
pub assume_specification<T> [std::option::Option::<T>::xor] (o: std::option::Option<T>, p: std::option::Option<T>) -> (r: std::option::Option<T>)
    ensures r == (if o is Some && p is None { o } else if o is None && p is Some { p } else { None });
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (o: std::result::Result<T, E>, d: T) -> (r: T)
    ensures r == (match o { Ok(x) => x, Err(_) => d });
pub assume_specification<T, E, F> [std::result::Result::<T, E>::or] (o: std::result::Result<T, E>, p: std::result::Result<T, F>) -> (r: std::result::Result<T, F>)
    ensures match o { Err(e) => r == p, Ok(x) => r == Ok::<T, F>(x) };
pub assume_specification<T> [bool::then_some::<T>] (b: bool, t: T) -> (r: std::option::Option<T>) ensures r == (if b { Some(t) } else { None });
pub assume_specification<T> [std::mem::replace::<T>] (a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::is_empty] (s: &VecDeque<T, A>) -> (r: bool) ensures r == (s@.len() == 0);
pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::front] (s: &VecDeque<T, A>) -> (r: std::option::Option<&T>) ensures match r { Some(x) => s@.len() > 0 && *x == s@[0], None => s@.len() == 0 };
pub assume_specification<T, A: std::alloc::Allocator> [VecDeque::<T, A>::get] (s: &VecDeque<T, A>, i: usize) -> (r: std::option::Option<&T>) ensures match r { Some(x) => i < s@.len() && *x == s@[i as int], None => i >= s@.len() };
pub assume_specification<'a, T: Copy> [std::option::Option::<&'a T>::copied] (o: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
pub uninterp spec fn trimmed(s: Seq<char>, a: bool, b: bool) -> Seq<char>;
pub assume_specification [str::trim] (s: &str) -> (r: &str) ensures r@ == trimmed(s@, true, true);
pub assume_specification [str::trim_start] (s: &str) -> (r: &str) ensures r@ == trimmed(s@, true, false);
pub assume_specification [str::trim_end] (s: &str) -> (r: &str) ensures r@ == trimmed(s@, false, true);
pub uninterp spec fn cased(s: Seq<char>, up: bool, ascii: bool) -> Seq<char>;
pub assume_specification [str::to_uppercase] (s: &str) -> (r: String) ensures r@ == cased(s@, true, false);
pub assume_specification [str::to_lowercase] (s: &str) -> (r: String) ensures r@ == cased(s@, false, false);
pub assume_specification [str::to_ascii_uppercase] (s: &str) -> (r: String) ensures r@ == cased(s@, true, true);
pub assume_specification [str::to_ascii_lowercase] (s: &str) -> (r: String) ensures r@ == cased(s@, false, true);

pub assume_specification<T> [<T as std::borrow::ToOwned>::to_owned] (x: &T) -> (r: T)
    where T: std::clone::Clone,
    ensures call_ensures(T::clone, (x,), r);

// ---------------------------------------------------------------- control
#[verifier::external_body]
pub fn v_panic() -> ! requires false { panic!() }
// a refusal by panic; `ok` is the condition under which the contract allows it
#[verifier::external_body]
pub fn v_reject<T>(Ghost(ok): Ghost<bool>) -> (r: T) requires ok ensures false { panic!() }

pub trait VUnwrap<T>: Sized {
    spec fn good(&self) -> bool;
    spec fn val(&self) -> T;
    fn v_unwrap_may(self, Ghost(ok): Ghost<bool>) -> (r: T) requires self.good() || ok ensures self.good(), r == self.val();
    fn v_expect_may(self, msg: &str, Ghost(ok): Ghost<bool>) -> (r: T) requires self.good() || ok ensures self.good(), r == self.val();
}
impl<T> VUnwrap<T> for Option<T> {
    open spec fn good(&self) -> bool { self is Some }
    open spec fn val(&self) -> T { self->0 }
    fn v_unwrap_may(self, Ghost(ok): Ghost<bool>) -> (r: T) { match self { Some(x) => x, None => v_reject(Ghost(ok)) } }
    fn v_expect_may(self, msg: &str, Ghost(ok): Ghost<bool>) -> (r: T) { match self { Some(x) => x, None => v_reject(Ghost(ok)) } }
}
impl<T, E> VUnwrap<T> for Result<T, E> {
    open spec fn good(&self) -> bool { self is Ok }
    open spec fn val(&self) -> T { self->Ok_0 }
    fn v_unwrap_may(self, Ghost(ok): Ghost<bool>) -> (r: T) { match self { Ok(x) => x, Err(_) => v_reject(Ghost(ok)) } }
    fn v_expect_may(self, msg: &str, Ghost(ok): Ghost<bool>) -> (r: T) { match self { Ok(x) => x, Err(_) => v_reject(Ghost(ok)) } }
}

// ---------------------------------------------------------------- text of numbers
pub open spec fn digit(n: nat) -> char { seq!['0','1','2','3','4','5','6','7','8','9'][n as int] }
pub open spec fn dec(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) }
}
pub open spec fn pad0(s: Seq<char>, w: nat) -> Seq<char> {
    if s.len() >= w { s } else { Seq::new((w - s.len()) as nat, |i: int| '0') + s }
}

// ---------------------------------------------------------------- format!, write!, to_string
pub struct VErr;
pub struct VFmt { pub s: String }
impl View for VFmt { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { self.s@ } }
impl VFmt {
    #[verifier::external_body]
    pub fn new() -> (r: VFmt) ensures r@ == Seq::<char>::empty() { VFmt { s: String::new() } }
    #[verifier::external_body]
    pub fn v_put_str(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { self.s.push_str(s) }
    pub fn v_put<T: VDisplay + ?Sized>(&mut self, t: &T)
        requires t.show_req()
        ensures exists|x: Seq<char>| #[trigger] t.shows(x) && final(self)@ == old(self)@ + x
    { let _ = t.fmt(self); }
    #[verifier::external_body]
    pub fn v_put_debug<T: ?Sized>(&mut self, t: &T) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_put_pad0_3<T: VDisplay + ?Sized>(&mut self, t: &T)
        requires t.show_req()
        ensures exists|x: Seq<char>| #[trigger] t.shows(x) && final(self)@ == old(self)@ + pad0(x, 3)
    { unimplemented!() }
    pub fn v_done(&mut self) -> (r: Result<(), VErr>) ensures r is Ok, final(self)@ == old(self)@ { Ok(()) }
    pub fn v_finish(self) -> (r: String) ensures r@ == self@ { self.s }
}
pub trait VDisplay {
    spec fn shows(&self, x: Seq<char>) -> bool;
    spec fn show_req(&self) -> bool;
    fn fmt(&self, f: &mut VFmt) -> (r: Result<(), VErr>)
        requires self.show_req()
        ensures r is Ok, exists|x: Seq<char>| #[trigger] self.shows(x) && final(f)@ == old(f)@ + x;
}
macro_rules! disp { ($t:ty, $self:ident, $($e:tt)*) => { verus!{
impl VDisplay for $t {
    open spec fn shows(&$self, x: Seq<char>) -> bool { x == $($e)* }
    open spec fn show_req(&self) -> bool { true }
    #[verifier::external_body]
    fn fmt(&self, f: &mut VFmt) -> (r: Result<(), VErr>) { unimplemented!() }
} } } }
disp!(str, self, self@);
disp!(String, self, self@);
disp!(char, self, seq![*self]);
disp!(u8, self, dec(*self as nat));
disp!(u16, self, dec(*self as nat));
disp!(u32, self, dec(*self as nat));
disp!(u64, self, dec(*self as nat));
disp!(usize, self, dec(*self as nat));
impl<T: VDisplay + ?Sized> VDisplay for &T {
    open spec fn shows(&self, x: Seq<char>) -> bool { (**self).shows(x) }
    open spec fn show_req(&self) -> bool { (**self).show_req() }
    fn fmt(&self, f: &mut VFmt) -> (r: Result<(), VErr>) {
        let r = (**self).fmt(f);
        proof { let x = choose|x: Seq<char>| #[trigger] (**self).shows(x) && f@ == old(f)@ + x; assert(self.shows(x)); }
        r
    }
}
pub trait VToString: VDisplay {
    fn v_to_string(&self) -> (r: String) requires self.show_req() ensures self.shows(r@);
}
impl<T: VDisplay + ?Sized> VToString for T {
    fn v_to_string(&self) -> (r: String) { 
        let mut f = VFmt::new();
        let _ = self.fmt(&mut f);
        proof { let x = choose|x: Seq<char>| #[trigger] self.shows(x) && f@ == Seq::<char>::empty() + x; assert(f@ =~= x); }
        f.v_finish()
    }
}

// ---------------------------------------------------------------- parsing of values
#[verifier::external_trait_specification]
pub trait ExFromStr: Sized {
    type ExternalTraitSpecificationFor: FromStr;
    type Err;
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExParseIntError(std::num::ParseIntError);
// the standard parse of a text as T
pub uninterp spec fn parse_ok<T>(s: Seq<char>) -> bool;
pub uninterp spec fn parse_val<T>(s: Seq<char>) -> T;
// position of the first c in s, s.len() if there is none
pub open spec fn find(s: Seq<char>, c: char) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + find(s.drop_first(), c) }
}
pub proof fn find_bound(s: Seq<char>, c: char) ensures find(s, c) <= s.len() decreases s.len()
{ if s.len() > 0 && s[0] != c { find_bound(s.drop_first(), c); } }
// the pieces of s that are ended by c (the last one may lack it)
pub open spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![] } else if find(s, c) >= s.len() { seq![s] }
    else { seq![s.subrange(0, find(s, c) as int)] + pieces(s.subrange(find(s, c) as int + 1, s.len() as int), c) }
}
pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub trait VStr {
    spec fn chars(&self) -> Seq<char>;
    fn v_split_terminator<'a>(&'a self, c: char) -> (r: Vec<&'a str>)
        ensures views(r@) == pieces(self.chars(), c);
    fn v_split_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>)
        ensures match r {
            Some((a, b)) => find(self.chars(), c) < self.chars().len() && a@ == self.chars().subrange(0, find(self.chars(), c) as int)
                && b@ == self.chars().subrange(find(self.chars(), c) as int + 1, self.chars().len() as int),
            None => find(self.chars(), c) >= self.chars().len(),
        };
    fn v_parse<T: FromStr>(&self) -> (r: Result<T, T::Err>)
        ensures r is Ok <==> parse_ok::<T>(self.chars()), r is Ok ==> r->Ok_0 == parse_val::<T>(self.chars());
}
impl VStr for str {
    open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_split_terminator<'a>(&'a self, c: char) -> (r: Vec<&'a str>) { self.split_terminator(c).collect() }
    #[verifier::external_body]
    fn v_split_once<'a>(&'a self, c: char) -> (r: Option<(&'a str, &'a str)>) { self.split_once(c) }
    #[verifier::external_body]
    fn v_parse<T: FromStr>(&self) -> (r: Result<T, T::Err>) { self.parse::<T>() }
}
// parsing a text as text gives that text
pub broadcast axiom fn ax_parse_string(s: Seq<char>)
    ensures #[trigger] parse_ok::<String>(s);
pub broadcast axiom fn ax_parse_string2(s: Seq<char>)
    ensures #[trigger] parse_val::<String>(s) == mk(s);
// u32: the digits to_string writes are read back
pub axiom fn ax_parse_dec(t: u32)
    ensures parse_ok::<u32>(dec(t as nat)), parse_val::<u32>(dec(t as nat)) == t;
pub broadcast group group_parse { ax_parse_string, ax_parse_string2 }

// Into<String>
pub trait VInto: Sized {
    spec fn txt(&self) -> Seq<char>;
    fn v_into(self) -> (r: String) ensures r@ == self.txt();
}
impl VInto for String { open spec fn txt(&self) -> Seq<char> { self@ } fn v_into(self) -> (r: String) { self } }
impl VInto for &String { open spec fn txt(&self) -> Seq<char> { self@ } fn v_into(self) -> (r: String) { self.clone() } }
impl VInto for &str { open spec fn txt(&self) -> Seq<char> { self@ } fn v_into(self) -> (r: String) { self.to_string() } }

// ---------------------------------------------------------------- derive(Default), derive(Clone)
pub trait VDefault: Sized {
    spec fn is_def(&self) -> bool;
    fn v_default() -> (r: Self) ensures r.is_def();
}
macro_rules! dflt { ($t:ty, $g:tt, $v:expr, $self:ident, $($e:tt)*) => { verus!{
impl VDefault for $t {
    open spec fn is_def(&$self) -> bool { $($e)* }
    fn v_default() -> (r: Self) { $v }
} } } }
dflt!(u32, (), 0, self, *self == 0);
dflt!(usize, (), 0, self, *self == 0);
dflt!(bool, (), false, self, *self == false);
impl VDefault for String {
    open spec fn is_def(&self) -> bool { self@ == Seq::<char>::empty() }
    fn v_default() -> (r: Self) { String::new() }
}
impl<T> VDefault for Option<T> {
    open spec fn is_def(&self) -> bool { self is None }
    fn v_default() -> (r: Self) { None }
}
impl<T> VDefault for Vec<T> {
    open spec fn is_def(&self) -> bool { self@ == Seq::<T>::empty() }
    fn v_default() -> (r: Self) { Vec::new() }
}
impl<T> VDefault for VecDeque<T> {
    open spec fn is_def(&self) -> bool { self@ == Seq::<T>::empty() }
    fn v_default() -> (r: Self) { VecDeque::new() }
}
impl<K: std::hash::Hash + Eq, V> VDefault for HashMap<K, V> {
    open spec fn is_def(&self) -> bool { self@ == Map::<K, V>::empty() }
    fn v_default() -> (r: Self) { HashMap::new() }
}
impl<K: std::hash::Hash + Eq> VDefault for HashSet<K> {
    open spec fn is_def(&self) -> bool { self@ == Set::<K>::empty() }
    fn v_default() -> (r: Self) { HashSet::new() }
}
} // verus!
} // pre
use pre::*;
verus! {
broadcast use {pre::group_strings, pre::group_parse, vstd::std_specs::hash::group_hash_axioms, vstd::group_vstd_default};
