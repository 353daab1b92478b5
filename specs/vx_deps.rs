// Stand-ins for what /repo imports from other crates, with assumed contracts.
// Everything marked external_body / uninterp / axiom in this file is trusted.
use alloc::string::String;

pub mod digest { pub use super::Digest; }
pub mod sha2 { pub use super::Sha256; }
pub mod hashbrown { pub use super::HashMap; }
pub mod fuel_storage { pub use super::{Mappable, StorageInspect, StorageMutate}; }
pub mod hex { pub use super::encode; }

// ---- assertions -----------------------------------------------------------

/// `assert!(b)` and `debug_assert!(b)` in the source: `b` must be provable.
pub fn vx_assert(b: bool)
    requires b,
{}

pub fn vx_unreachable() -> !
    requires false,
{ loop {} }

// ---- sizes of the key types (rustc evaluates these) -------------------------

pub type VxBytes8 = [u8; 8];
pub type VxBytes32 = [u8; 32];
global size_of VxBytes8 == 8;
global size_of VxBytes32 == 32;
pub proof fn size_of_bytes8() ensures vstd::layout::size_of::<[u8; 8]>() == 8 {}
pub proof fn size_of_bytes32() ensures vstd::layout::size_of::<[u8; 32]>() == 32 {}

// ---- SHA-256 --------------------------------------------------------------

/// The SHA-256 function on byte strings (uninterpreted).
pub uninterp spec fn sha256(m: Seq<u8>) -> [u8; 32];

#[verifier::external_body]
pub struct Sha256 { x: u8 }

impl Sha256 {
    /// the bytes absorbed so far
    pub uninterp spec fn view(&self) -> Seq<u8>;
}

pub uninterp spec fn bytes_of<T>(t: T) -> Seq<u8>;

pub trait VxBytes { }

pub trait Digest: Sized {
    spec fn absorbed(&self) -> Seq<u8>;
    fn new() -> (r: Self)
        ensures r.absorbed() == Seq::<u8>::empty();
    fn update<T: AsRef<[u8]>>(&mut self, data: T)
        ensures exists|s: &[u8]| #![trigger slice_view(s)] call_ensures(<T as AsRef<[u8]>>::as_ref, (&data,), s)
            && final(self).absorbed() == old(self).absorbed() + slice_view(s);
    fn finalize(self) -> (r: [u8; 32])
        ensures r == sha256(self.absorbed());
}

impl Digest for Sha256 {
    open spec fn absorbed(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    fn update<T: AsRef<[u8]>>(&mut self, data: T) { unimplemented!() }
    #[verifier::external_body]
    fn finalize(self) -> (r: [u8; 32]) { unimplemented!() }
}

// ---- core conversions -------------------------------------------------------

#[verifier::external_trait_specification]
pub trait ExAsRef<T: core::marker::PointeeSized>: core::marker::PointeeSized {
    type ExternalTraitSpecificationFor: AsRef<T>;
    fn as_ref(&self) -> &T;
}

pub assume_specification<T, const N: usize>[ <[T; N] as AsRef<[T]>>::as_ref ](s: &[T; N]) -> (r: &[T])
    ensures r@ == s@;

pub assume_specification<T>[ <[T] as AsRef<[T]>>::as_ref ](s: &[T]) -> (r: &[T])
    ensures r@ == s@;

pub assume_specification<'a, 'b, T: core::marker::PointeeSized + AsRef<U>, U: core::marker::PointeeSized>[ <&'a T as AsRef<U>>::as_ref ](s: &'b &'a T) -> (r: &'b U)
    ensures call_ensures(<T as AsRef<U>>::as_ref, (*s,), r);

/// big-endian bytes of a 64-bit integer
pub open spec fn be64(x: u64) -> Seq<u8> {
    Seq::new(8, |i: int| ((x >> ((56 - 8 * i) as u64)) & 0xff) as u8)
}

pub open spec fn slice_view(s: &[u8]) -> Seq<u8> { s@ }
pub open spec fn arr_view<const N: usize>(s: &[u8; N]) -> Seq<u8> { s@ }

/// `u64::to_be_bytes` (trusted)
/// The eight bytes of `x`, most significant first.
pub open spec fn be8(x: u64) -> [u8; 8] {
    [be64(x)[0], be64(x)[1], be64(x)[2], be64(x)[3], be64(x)[4], be64(x)[5], be64(x)[6], be64(x)[7]]
}
pub broadcast proof fn be8_seq(x: u64)
    ensures (#[trigger] be8(x))@ == be64(x),
{
    assert(be8(x)@ =~= be64(x));
}
#[verifier::external_body]
pub fn vx_to_be_bytes(x: u64) -> (r: [u8; 8])
    ensures r == be8(x),
{ x.to_be_bytes() }

pub broadcast proof fn array32_eq(a: &[u8; 32], b: &[u8; 32])
    ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b) == (*a == *b)
{
    let r = vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b);
    assert(r ==> a@ =~= b@);
    assert(r ==> a =~= b);
    assert(!r ==> a@ != b@);
}

// ---- hex ------------------------------------------------------------------

#[verifier::external_body]
pub fn encode<T: AsRef<[u8]>>(data: T) -> String { unimplemented!() }

// ---- Clone ----------------------------------------------------------------

/// Cloning a `T` gives an equal value.
pub open spec fn clone_eq<T: Clone>() -> bool {
    forall|a: &T, b: T| #[trigger] call_ensures(<T as Clone>::clone, (a,), b) ==> *a == b
}

/// Cloning tuples and results is componentwise.
pub axiom fn clone_eq_pair<A: Clone, B: Clone>()
    ensures clone_eq::<A>() && clone_eq::<B>() ==> clone_eq::<(A, B)>();
pub axiom fn clone_eq_result<A: Clone, B: Clone>()
    ensures clone_eq::<A>() && clone_eq::<B>() ==> clone_eq::<Result<A, B>>();
pub axiom fn clone_eq_infallible()
    ensures clone_eq::<core::convert::Infallible>();
pub proof fn clone_eq_array<A: Clone, const N: usize>()
    ensures clone_eq::<A>() ==> clone_eq::<[A; N]>(),
{
    if clone_eq::<A>() {
        assert forall|a: &[A; N], b: [A; N]| #[trigger] call_ensures(<[A; N] as Clone>::clone, (a,), b) implies *a == b by {
            assert forall|i: int| 0 <= i < N implies a@[i] == b@[i] by { assert(cloned(a@[i], b@[i])); }
            assert(a@ =~= b@);
            assert(*a =~= b);
        }
    }
}

pub proof fn clone_hints()
    ensures clone_eq::<[u8; 32]>(), clone_eq::<[u8; 8]>(),
{
    assert(clone_eq::<u8>());
    clone_eq_array::<u8, 32>();
    clone_eq_array::<u8, 8>();
}

// ---- storage (fuel-storage) ----------------------------------------------

pub trait Mappable {
    type Key;
    type SetValue: ?Sized;
    type GetValue;
}

/// Stand-in for `alloc::borrow::Cow` over `Clone` types (same two variants; the
/// `Clone` bound sits on `into_owned` instead of on the type).
pub enum Cow<'a, B> { Borrowed(&'a B), Owned(B) }
pub mod borrow { pub use super::Cow; pub use alloc::borrow::{Borrow, BorrowMut, ToOwned}; }

/// the value behind a `Cow`
pub open spec fn cow_view<T>(c: Cow<'_, T>) -> T {
    match c { Cow::Borrowed(b) => *b, Cow::Owned(o) => o }
}

impl<'a, B: Clone> Cow<'a, B> {
    pub fn into_owned(self) -> (r: B)
        ensures clone_eq::<B>() ==> r == cow_view(self)
    { match self { Cow::Borrowed(b) => b.clone(), Cow::Owned(b) => b } }
}

/// `Infallible` has no values.
pub broadcast axiom fn no_infallible<Type: Mappable, S: StorageInspect<Type, Error = core::convert::Infallible>>(e: core::convert::Infallible)
    ensures !#[trigger] <S as StorageInspect<Type>>::serr(e);

pub trait StorageInspect<Type: Mappable> {
    type Error;

    /// the abstract contents
    spec fn smap(&self) -> Map<Type::Key, Type::GetValue>;
    /// number of failed mutations so far
    spec fn sfail(&self) -> nat;
    /// errors that storage calls report
    spec fn serr(e: Self::Error) -> bool;

    fn get(&self, key: &Type::Key) -> (r: Result<Option<Cow<'_, Type::GetValue>>, Self::Error>)
        ensures
            r matches Ok(Some(c)) ==> self.smap().contains_key(*key) && cow_view(c) == self.smap()[*key],
            r matches Ok(None) ==> !self.smap().contains_key(*key),
            r matches Err(e) ==> Self::serr(e);

    fn contains_key(&self, key: &Type::Key) -> (r: Result<bool, Self::Error>)
        ensures
            r matches Ok(b) ==> b == self.smap().contains_key(*key),
            r matches Err(e) ==> Self::serr(e);
}

/// how a written value reads back
pub uninterp spec fn stored_as<S: ?Sized, G>(s: &S) -> G;

pub broadcast axiom fn stored_as_same<G>(s: &G)
    ensures #[trigger] stored_as::<G, G>(s) == *s;

pub trait StorageMutate<Type: Mappable>: StorageInspect<Type> {
    /// keys and values are cloned and converted faithfully
    spec fn s_lawful() -> bool;

    fn insert(&mut self, key: &Type::Key, value: &Type::SetValue) -> (r: Result<Option<Type::GetValue>, Self::Error>)
        ensures
            r matches Ok(o) ==> Self::s_lawful() ==> final(self).smap() == old(self).smap().insert(*key, stored_as::<Type::SetValue, Type::GetValue>(value))
                && final(self).sfail() == old(self).sfail()
                && o == (if old(self).smap().contains_key(*key) { Some(old(self).smap()[*key]) } else { None }),
            r matches Err(e) ==> Self::serr(e) && final(self).sfail() == old(self).sfail() + 1;

    fn remove(&mut self, key: &Type::Key) -> (r: Result<Option<Type::GetValue>, Self::Error>)
        ensures
            r matches Ok(o) ==> final(self).smap() == old(self).smap().remove(*key)
                && final(self).sfail() == old(self).sfail()
                && o == (if old(self).smap().contains_key(*key) { Some(old(self).smap()[*key]) } else { None }),
            r matches Err(e) ==> Self::serr(e) && final(self).sfail() == old(self).sfail() + 1;
}

// ---- hashbrown::HashMap ----------------------------------------------------

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }

impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
}

impl<K, V> Default for HashMap<K, V> {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
}

impl<K: Eq + core::hash::Hash, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r matches Some(v) ==> self@.contains_key(*k) && *v == self@[*k],
            r is None ==> !self@.contains_key(*k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool)
        ensures r == self@.contains_key(*k),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
}

// ---- iteration --------------------------------------------------------------

/// The part of `Iterator` the source implements: `next`.
pub trait VxIter: Sized {
    type Item;
    spec fn it_inv(&self) -> bool;
    spec fn it_rel(pre: Self, post: Self, r: Option<Self::Item>) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).it_inv(),
        ensures final(self).it_inv(), Self::it_rel(*old(self), *final(self), r);
}

#[verifier::external]
impl<K, V> core::fmt::Debug for HashMap<K, V> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() }
}

/// An iterator whose remaining items are a function of its state.
pub trait VxSeq: VxIter {
    spec fn rest(&self) -> Seq<Self::Item>;
    proof fn rest_step(pre: Self, post: Self, r: Option<Self::Item>)
        requires pre.it_inv(), Self::it_rel(pre, post, r),
        ensures
            r is None ==> pre.rest().len() == 0 && post.rest().len() == 0,
            r matches Some(x) ==> pre.rest() == seq![x] + post.rest();
}

/// All remaining items, in order.
pub fn vx_collect<I: VxSeq>(it: I) -> (r: Vec<I::Item>)
    requires it.it_inv(),
    ensures r@ == it.rest(),
{
    let mut it = it;
    let ghost all = it.rest();
    let mut v: Vec<I::Item> = Vec::new();
    loop
        invariant
            it.it_inv(),
            v@ + it.rest() == all,
        ensures v@ == all,
        decreases it.rest().len(),
    {
        let ghost pre = it;
        let x = it.next();
        proof { I::rest_step(pre, it, x); }
        match x {
            None => { proof { assert(v@ + Seq::<I::Item>::empty() =~= v@); assert(pre.rest() =~= Seq::<I::Item>::empty()); } break; }
            Some(y) => {
                let ghost v0 = v@;
                v.push(y);
                proof { assert(v@ + it.rest() =~= v0 + (seq![y] + it.rest())); }
            }
        }
    }
    v
}

pub trait VxPairs<A, B>: Sized {
    spec fn pairs_ok(&self) -> bool;
    spec fn pairs(&self) -> Seq<(A, B)>;
    fn into_pairs(self) -> (r: Vec<(A, B)>)
        requires self.pairs_ok(),
        ensures r@ == self.pairs();
}

impl<A, B> VxPairs<A, B> for Vec<(A, B)> {
    open spec fn pairs_ok(&self) -> bool { true }
    open spec fn pairs(&self) -> Seq<(A, B)> { self@ }
    fn into_pairs(self) -> (r: Vec<(A, B)>) { self }
}

pub open spec fn seq_firsts<A, B>(s: Seq<(A, B)>) -> Seq<A> { Seq::new(s.len(), |i: int| s[i].0) }
pub open spec fn seq_seconds<A, B>(s: Seq<(A, B)>) -> Seq<B> { Seq::new(s.len(), |i: int| s[i].1) }

/// `Iterator::unzip` into two vectors.
pub fn vx_unzip<A, B, S: VxPairs<A, B>>(s: S) -> (r: (Vec<A>, Vec<B>))
    requires s.pairs_ok(),
    ensures
        r.0@ == seq_firsts(s.pairs()),
        r.1@ == seq_seconds(s.pairs()),
{
    let ghost all = s.pairs();
    let v = s.into_pairs();
    let mut a: Vec<A> = Vec::new();
    let mut b: Vec<B> = Vec::new();
    for p in it: v
        invariant
            it.seq() == all, it.index@ <= all.len(),
            a@ == seq_firsts(all.take(it.index@)),
            b@ == seq_seconds(all.take(it.index@)),
    {
        let (x, y) = p;
        a.push(x);
        b.push(y);
        proof {
            let k = it.index@;
            assert(a@ =~= seq_firsts(all.take(k + 1)));
            assert(b@ =~= seq_seconds(all.take(k + 1)));
        }
    }
    proof { assert(all.take(all.len() as int) =~= all); }
    (a, b)
}

/// the next index of an `enumerate`
pub fn vx_inc(x: usize) -> (r: usize)
    ensures x < usize::MAX ==> r == x + 1,
{ if x < usize::MAX { x + 1 } else { x } }

/// `iter::repeat(x).take(n)`, eagerly.
pub fn vx_repeat_take<T: Clone>(x: T, n: usize) -> (r: Vec<T>)
    ensures r.len() == n, clone_eq::<T>() ==> r@ == Seq::new(n as nat, |i: int| x),
{
    let mut v: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant v.len() == i, i <= n, clone_eq::<T>() ==> v@ == Seq::new(i as nat, |j: int| x),
        decreases n - i,
    {
        let ghost v0 = v@;
        v.push(x.clone());
        i += 1;
        proof { if clone_eq::<T>() { assert(v@ =~= Seq::new(i as nat, |j: int| x)); } }
    }
    v
}

// ---- std functions vstd has no contract for --------------------------------

pub assume_specification<T> [ <[T]>::reverse ] (s: &mut [T])
    ensures final(s)@ == Seq::new(old(s)@.len(), |i: int| old(s)@[old(s)@.len() - 1 - i]);

pub assume_specification<T> [std::option::Option::<T>::or] (a: std::option::Option<T>, b: std::option::Option<T>) -> (r: std::option::Option<T>)
    where T: core::marker::Destruct,
    ensures r == (if a is Some { a } else { b });

pub open spec fn is_pow2_ge(r: u64, x: u64) -> bool {
    exists|e: nat| #[trigger] vstd::arithmetic::power2::pow2(e) == r && r >= x && (e > 0 ==> vstd::arithmetic::power2::pow2((e - 1) as nat) < x)
}
pub assume_specification [ u64::next_power_of_two ] (x: u64) -> (r: u64)
    requires x <= 0x8000_0000_0000_0000,
    ensures is_pow2_ge(r, x);

/// the `?` operator converts errors with `From::from`
pub broadcast axiom fn question_from<S: From<T>, T>(v: T, r: S)
    ensures #[trigger] vstd::std_specs::control_flow::spec_from::<S, T>(v, r) ==> call_ensures(<S as From<T>>::from, (v,), r);

/// converting to the same type changes nothing
pub assume_specification<T>[ <T as From<T>>::from ](v: T) -> (r: T)
    ensures r == v;

pub assume_specification<T> [std::cmp::max](a: T, b: T) -> (r: T)
    where T: core::cmp::Ord + core::marker::Destruct,
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==>
        r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) == core::cmp::Ordering::Greater { a } else { b });

/// Stand-in for `IntoIterator` where the source iterates over an array by value:
/// the elements, in order.
pub trait VxIntoIterator: Sized {
    type Item;
    spec fn items(&self) -> Seq<Self::Item>;
    fn into_iter(self) -> (r: Vec<Self::Item>)
        ensures r@ == self.items();
}
impl<T, const N: usize> VxIntoIterator for [T; N] {
    type Item = T;
    open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn into_iter(self) -> (r: Vec<T>) { self.into() }
}
pub axiom fn clone_eq_tuple4<A: Clone, B: Clone, C: Clone, D: Clone>()
    ensures clone_eq::<A>() && clone_eq::<B>() && clone_eq::<C>() && clone_eq::<D>() ==> clone_eq::<(A, B, C, D)>();
pub assume_specification [ <u8 as From<bool>>::from ](b: bool) -> (r: u8)
    ensures r == (if b { 1u8 } else { 0u8 });
// ---- further std functions: contracts as documented, used only if the source calls them

pub assume_specification<T> [std::cmp::min](a: T, b: T) -> (r: T)
    where T: core::cmp::Ord + core::marker::Destruct,
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==>
        r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) == core::cmp::Ordering::Greater { b } else { a });
pub assume_specification<T, U> [std::option::Option::<T>::and] (a: std::option::Option<T>, b: std::option::Option<U>) -> (r: std::option::Option<U>)
    where T: core::marker::Destruct, U: core::marker::Destruct,
    ensures r == (if a is Some { b } else { None });
pub assume_specification<T> [std::option::Option::<T>::xor] (a: std::option::Option<T>, b: std::option::Option<T>) -> (r: std::option::Option<T>)
    where T: core::marker::Destruct,
    ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
pub assume_specification<T, U> [std::option::Option::<T>::zip] (a: std::option::Option<T>, b: std::option::Option<U>) -> (r: std::option::Option<(T, U)>)
    where T: core::marker::Destruct, U: core::marker::Destruct,
    ensures r == (if a is Some && b is Some { Some((a->0, b->0)) } else { None });
pub assume_specification<T> [std::option::Option::<T>::replace] (a: &mut std::option::Option<T>, v: T) -> (r: std::option::Option<T>)
    ensures r == *old(a), *final(a) == Some(v);
pub assume_specification<'a, T: Copy> [std::option::Option::<&'a T>::copied] (a: std::option::Option<&'a T>) -> (r: std::option::Option<T>)
    ensures r == (match a { Some(x) => Some(*x), None => None });
pub assume_specification<T> [std::option::Option::<std::option::Option<T>>::flatten] (a: std::option::Option<std::option::Option<T>>) -> (r: std::option::Option<T>)
    ensures r == (match a { Some(x) => x, None => None });
pub assume_specification<T, E> [std::option::Option::<Result<T, E>>::transpose] (a: std::option::Option<Result<T, E>>) -> (r: Result<std::option::Option<T>, E>)
    ensures r == (match a { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) });
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (a: Result<T, E>, d: T) -> (r: T)
    where T: core::marker::Destruct, E: core::marker::Destruct,
    ensures r == (match a { Ok(x) => x, Err(_) => d });
pub assume_specification<T, E, U> [Result::<T, E>::and] (a: Result<T, E>, b: Result<U, E>) -> (r: Result<U, E>)
    where T: core::marker::Destruct, E: core::marker::Destruct, U: core::marker::Destruct,
    ensures r == (match a { Ok(_) => b, Err(e) => Err(e) });
pub assume_specification<T, E, F> [Result::<T, E>::or] (a: Result<T, E>, b: Result<T, F>) -> (r: Result<T, F>)
    where T: core::marker::Destruct, E: core::marker::Destruct, F: core::marker::Destruct,
    ensures r == (match a { Ok(x) => Ok(x), Err(_) => b });
pub assume_specification<T, E> [Result::<std::option::Option<T>, E>::transpose] (a: Result<std::option::Option<T>, E>) -> (r: std::option::Option<Result<T, E>>)
    ensures r == (match a { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) });
pub assume_specification<T> [std::mem::replace] (a: &mut T, v: T) -> (r: T)
    ensures r == *old(a), *final(a) == v;
pub assume_specification<T> [std::mem::take] (a: &mut T) -> (r: T)
    where T: Default,
    ensures r == *old(a), call_ensures(<T as Default>::default, (), *final(a));
pub assume_specification<T> [std::mem::drop] (v: T)
    where T: core::marker::Destruct;
pub assume_specification<T> [bool::then_some] (b: bool, v: T) -> (r: std::option::Option<T>)
    where T: core::marker::Destruct,
    ensures r == (if b { Some(v) } else { None });
pub assume_specification [core::cmp::Ordering::reverse] (o: core::cmp::Ordering) -> (r: core::cmp::Ordering)
    ensures r == (match o { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Greater => core::cmp::Ordering::Less, core::cmp::Ordering::Equal => core::cmp::Ordering::Equal });
pub assume_specification<T> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    where T: Clone,
    ensures r@.len() == s@.len(), clone_eq::<T>() ==> r@ == s@;
pub assume_specification<T> [<[T]>::swap] (s: &mut [T], i: usize, j: usize)
    requires i < old(s)@.len(), j < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(i as int, old(s)@[j as int]).update(j as int, old(s)@[i as int]);
pub assume_specification<T> [<[T]>::split_last] (s: &[T]) -> (r: std::option::Option<(&T, &[T])>)
    ensures s@.len() == 0 ==> r is None,
        s@.len() > 0 ==> r is Some && *(r->0).0 == s@.last() && (r->0).1@ == s@.drop_last();
pub assume_specification [u64::checked_shl] (a: u64, n: u32) -> (r: std::option::Option<u64>)
    ensures r == (if n < 64 { Some(a << n) } else { None });
pub assume_specification [u64::checked_shr] (a: u64, n: u32) -> (r: std::option::Option<u64>)
    ensures r == (if n < 64 { Some(a >> n) } else { None });
pub assume_specification [u64::overflowing_add] (a: u64, b: u64) -> (r: (u64, bool))
    ensures r.0 as int == (a + b) % 0x1_0000_0000_0000_0000, r.1 == (a + b > u64::MAX);
pub assume_specification [u64::overflowing_sub] (a: u64, b: u64) -> (r: (u64, bool))
    ensures r.0 as int == (a - b) % 0x1_0000_0000_0000_0000, r.1 == (a < b);
pub assume_specification [u64::pow] (a: u64, n: u32) -> (r: u64)
    requires vstd::arithmetic::power::pow(a as int, n as nat) <= u64::MAX,
    ensures r as int == vstd::arithmetic::power::pow(a as int, n as nat);
pub assume_specification [u64::checked_pow] (a: u64, n: u32) -> (r: std::option::Option<u64>)
    ensures r == (if vstd::arithmetic::power::pow(a as int, n as nat) <= u64::MAX { Some(vstd::arithmetic::power::pow(a as int, n as nat) as u64) } else { None });
pub assume_specification [u64::abs_diff] (a: u64, b: u64) -> (r: u64)
    ensures r as int == (if a > b { a - b } else { b - a });
pub assume_specification [u64::div_ceil] (a: u64, b: u64) -> (r: u64)
    requires b != 0,
    ensures r as int == a as int / b as int + (if a % b == 0 { 0int } else { 1int });
pub assume_specification [u64::rem_euclid] (a: u64, b: u64) -> (r: u64)
    requires b != 0,
    ensures r == a % b;
pub assume_specification [u64::is_power_of_two] (a: u64) -> (r: bool)
    ensures r == (a != 0 && a & ((a - 1) as u64) == 0);
pub assume_specification [u64::ilog2] (a: u64) -> (r: u32)
    requires a > 0,
    ensures r < 64, a >> r == 1;
pub assume_specification [u64::checked_next_power_of_two] (x: u64) -> (r: std::option::Option<u64>)
    ensures x <= 0x8000_0000_0000_0000 ==> r is Some && is_pow2_ge(r->0, x), x > 0x8000_0000_0000_0000 ==> r is None;
pub assume_specification [i64::unsigned_abs] (a: i64) -> (r: u64)
    ensures r as int == (if a < 0 { -a } else { a as int });
pub assume_specification [i64::abs] (a: i64) -> (r: i64)
    requires a > i64::MIN,
    ensures r as int == (if a < 0 { -a } else { a as int });
pub assume_specification [i64::is_negative] (a: i64) -> (r: bool)
    ensures r == (a < 0);
pub assume_specification [i64::signum] (a: i64) -> (r: i64)
    ensures r == (if a < 0 { -1i64 } else if a > 0 { 1i64 } else { 0i64 });
