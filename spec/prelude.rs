// Prelude: models of external types, and shims (vx_*) standing for the standard library operations
// used by the extracted code. Every shim body is external (trusted); its contract is the documented
// behaviour of the operation, with the documented panics as preconditions.
use vstd::prelude::*;
use vstd::string::*;

verus! {

global size_of usize == 8;

// ---------------------------------------------------------------- external types
pub type Word = [u8; 32];
pub type Bytes = Vec<u8>;
pub type FixedBytes = Vec<u8>;

/// ethereum_types::U256, seen through its 32 big-endian bytes.
#[derive(Clone, Copy)]
pub struct U256 { pub be: [u8; 32] }
/// ethereum_types::H160
#[derive(Clone, Copy)]
pub struct H160 { pub b: [u8; 20] }
/// ethereum_types::H256
#[derive(Clone, Copy)]
pub struct H256 { pub b: [u8; 32] }
pub type Address = H160;
pub type Hash = H256;
pub type Uint = U256;
pub type Int = U256;

impl vstd::std_specs::cmp::PartialEqSpecImpl for H256 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &H256) -> bool { self.b@ =~= other.b@ }
}
impl PartialEq for H256 {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { self.b == other.b }
}

pub trait VxInto<T>: Sized {
    spec fn vx_into_ok(self, r: T) -> bool;
    fn vx_into(self) -> (r: T) ensures self.vx_into_ok(r);
}
pub fn vx_into<S: VxInto<T>, T>(s: S) -> (r: T) ensures s.vx_into_ok(r) { s.vx_into() }

impl VxInto<[u8; 32]> for U256 {
    open spec fn vx_into_ok(self, r: [u8; 32]) -> bool { r@ == self.be@ }
    #[verifier::external_body] fn vx_into(self) -> (r: [u8; 32]) { unimplemented!() }
}
impl VxInto<U256> for [u8; 32] {
    open spec fn vx_into_ok(self, r: U256) -> bool { r.be@ == self@ }
    #[verifier::external_body] fn vx_into(self) -> (r: U256) { unimplemented!() }
}
impl VxInto<[u8; 32]> for H256 {
    open spec fn vx_into_ok(self, r: [u8; 32]) -> bool { r@ == self.b@ }
    #[verifier::external_body] fn vx_into(self) -> (r: [u8; 32]) { unimplemented!() }
}
impl VxInto<H256> for [u8; 32] {
    open spec fn vx_into_ok(self, r: H256) -> bool { r.b@ == self@ }
    #[verifier::external_body] fn vx_into(self) -> (r: H256) { unimplemented!() }
}
impl VxInto<H160> for [u8; 20] {
    open spec fn vx_into_ok(self, r: H160) -> bool { r.b@ == self@ }
    #[verifier::external_body] fn vx_into(self) -> (r: H160) { unimplemented!() }
}
impl VxInto<[u8; 20]> for H160 {
    open spec fn vx_into_ok(self, r: [u8; 20]) -> bool { r@ == self.b@ }
    #[verifier::external_body] fn vx_into(self) -> (r: [u8; 20]) { unimplemented!() }
}
impl VxInto<String> for &str {
    open spec fn vx_into_ok(self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() }
}
impl VxInto<String> for String {
    open spec fn vx_into_ok(self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() }
}
impl VxInto<[u8; 32]> for [u8; 32] {
    open spec fn vx_into_ok(self, r: [u8; 32]) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_into(self) -> (r: [u8; 32]) { unimplemented!() }
}
impl VxInto<Vec<u8>> for [u8; 32] {
    open spec fn vx_into_ok(self, r: Vec<u8>) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_into(self) -> (r: Vec<u8>) { unimplemented!() }
}

impl H160 {
    #[verifier::external_body] pub fn vx_as_ref(&self) -> (r: &[u8]) ensures r@ == self.b@ { unimplemented!() }
    #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self.b@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == self.b@ { unimplemented!() }
    pub fn as_fixed_bytes(&self) -> (r: &[u8; 20]) ensures r@ == self.b@ { &self.b }
    pub fn to_fixed_bytes(self) -> (r: [u8; 20]) ensures r@ == self.b@ { self.b }
    #[verifier::external_body] pub fn from_slice(s: &[u8]) -> (r: H160) requires s@.len() == 20 ensures r.b@ == s@ { unimplemented!() }
}
impl H256 {
    #[verifier::external_body] pub fn vx_as_ref(&self) -> (r: &[u8]) ensures r@ == self.b@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == self.b@ { unimplemented!() }
    pub fn as_fixed_bytes(&self) -> (r: &[u8; 32]) ensures r@ == self.b@ { &self.b }
    pub fn to_fixed_bytes(self) -> (r: [u8; 32]) ensures r@ == self.b@ { self.b }
    #[verifier::external_body] pub fn from_slice(s: &[u8]) -> (r: H256) requires s@.len() == 32 ensures r.b@ == s@ { unimplemented!() }
}

// ---------------------------------------------------------------- sequences
/// `.iter()` of a slice, as a source of a loop.
pub struct VxRefs<'a, T> { pub s: &'a [T] }
impl<'a, T> VxRefs<'a, T> {
    pub open spec fn view(&self) -> Seq<T> { self.s@ }
    #[verifier::external_body] pub fn vx_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn vx_at(&self, i: usize) -> (r: &'a T) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn vx_last(self) -> (r: Option<&'a T>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r is Some && *r->0 == self@.last() { unimplemented!() }
    #[verifier::external_body] pub fn vx_first(self) -> (r: Option<&'a T>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r is Some && *r->0 == self@[0] { unimplemented!() }
}
/// `.iter()` of a slice, kept in a variable and advanced by hand.
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct VxIter<'a, T> { s: core::slice::Iter<'a, T> }
impl<'a, T> VxIter<'a, T> {
    /// what it runs over, and how much is consumed
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).pos() <= old(self).all().len()
        ensures final(self).all() == old(self).all(), final(self).pos() <= final(self).all().len(),
            old(self).pos() < old(self).all().len() ==> r is Some && *r->0 == old(self).all()[old(self).pos() as int] && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
    #[verifier::external_body] pub fn vx_len(&self) -> (r: usize) requires self.pos() <= self.all().len() ensures r == self.all().len() - self.pos() { unimplemented!() }
}
pub trait VxToIter<T> { spec fn itq(&self) -> Seq<T>; fn vx_iter(&self) -> (r: VxIter<'_, T>) ensures r.all() == self.itq(), r.pos() == 0; }
impl<T> VxToIter<T> for [T] { open spec fn itq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter(&self) -> (r: VxIter<'_, T>) { unimplemented!() } }
impl<T> VxToIter<T> for Vec<T> { open spec fn itq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter(&self) -> (r: VxIter<'_, T>) { unimplemented!() } }
/// `.into_iter()` of a vector, kept in a variable and advanced by hand.
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct VxIterO<T> { s: std::vec::IntoIter<T> }
impl<T> VxIterO<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).pos() <= old(self).all().len()
        ensures final(self).all() == old(self).all(), final(self).pos() <= final(self).all().len(),
            old(self).pos() < old(self).all().len() ==> r is Some && r->0 == old(self).all()[old(self).pos() as int] && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
    #[verifier::external_body] pub fn vx_len(&self) -> (r: usize) requires self.pos() <= self.all().len() ensures r == self.all().len() - self.pos() { unimplemented!() }
}
pub trait VxToIterO<T>: Sized { spec fn itoq(self) -> Seq<T>; fn vx_into_iter(self) -> (r: VxIterO<T>) ensures r.all() == self.itoq(), r.pos() == 0; }
impl<T> VxToIterO<T> for Vec<T> { open spec fn itoq(self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIterO<T>) { unimplemented!() } }
/// A sequence consumed by value, as a source of a loop; each element is taken at most once.
pub struct VxOwned<T> { pub v: Vec<T> }
impl<T> VxOwned<T> {
    pub open spec fn view(&self) -> Seq<T> { self.v@ }
    #[verifier::external_body] pub fn vx_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn vx_at(&self, i: usize) -> (r: T) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn vx_last(self) -> (r: Option<T>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r is Some && r->0 == self@.last() { unimplemented!() }
    #[verifier::external_body] pub fn vx_first(self) -> (r: Option<T>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r is Some && r->0 == self@[0] { unimplemented!() }
}
pub struct VxRange { pub lo: usize, pub hi: usize }
impl VxRange {
    pub open spec fn count(&self) -> nat { if self.lo <= self.hi { (self.hi - self.lo) as nat } else { 0 } }
    pub open spec fn view(&self) -> Seq<usize> { Seq::new(self.count(), |i: int| (self.lo + i) as usize) }
    #[verifier::external_body] pub fn vx_len(&self) -> (r: usize) ensures r == self.count() { unimplemented!() }
    #[verifier::external_body] pub fn vx_at(&self, i: usize) -> (r: usize) requires i < self.count() ensures r == self.lo + i { unimplemented!() }
}
pub fn vx_range(lo: usize, hi: usize) -> (r: VxRange) ensures r.lo == lo, r.hi == hi { VxRange { lo, hi } }

pub trait VxIntoSrc: Sized {
    type S;
    spec fn vx_src_ok(self, r: Self::S) -> bool;
    fn vx_src0(self) -> (r: Self::S) ensures self.vx_src_ok(r);
}
pub fn vx_src<X: VxIntoSrc>(x: X) -> (r: X::S) ensures x.vx_src_ok(r) { x.vx_src0() }
impl<'a, T> VxIntoSrc for &'a [T] {
    type S = VxRefs<'a, T>;
    open spec fn vx_src_ok(self, r: VxRefs<'a, T>) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_src0(self) -> VxRefs<'a, T> { unimplemented!() }
}
impl<'a, T> VxIntoSrc for &'a Vec<T> {
    type S = VxRefs<'a, T>;
    open spec fn vx_src_ok(self, r: VxRefs<'a, T>) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_src0(self) -> VxRefs<'a, T> { unimplemented!() }
}
impl<'a, T> VxIntoSrc for VxRefs<'a, T> {
    type S = VxRefs<'a, T>;
    open spec fn vx_src_ok(self, r: VxRefs<'a, T>) -> bool { r == self }
    #[verifier::external_body] fn vx_src0(self) -> VxRefs<'a, T> { unimplemented!() }
}
impl<'a, T, const N: usize> VxIntoSrc for &'a [T; N] {
    type S = VxRefs<'a, T>;
    open spec fn vx_src_ok(self, r: VxRefs<'a, T>) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_src0(self) -> VxRefs<'a, T> { unimplemented!() }
}
impl<T> VxIntoSrc for Vec<T> {
    type S = VxOwned<T>;
    open spec fn vx_src_ok(self, r: VxOwned<T>) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_src0(self) -> VxOwned<T> { unimplemented!() }
}
impl<T, const N: usize> VxIntoSrc for [T; N] {
    type S = VxOwned<T>;
    open spec fn vx_src_ok(self, r: VxOwned<T>) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_src0(self) -> VxOwned<T> { unimplemented!() }
}
impl<T> VxIntoSrc for Option<T> {
    type S = VxOwned<T>;
    open spec fn vx_src_ok(self, r: VxOwned<T>) -> bool { r@ == (match self { Some(x) => seq![x], None => Seq::<T>::empty() }) }
    #[verifier::external_body] fn vx_src0(self) -> VxOwned<T> { unimplemented!() }
}
impl VxIntoSrc for VxRange {
    type S = VxRange;
    open spec fn vx_src_ok(self, r: VxRange) -> bool { r == self }
    fn vx_src0(self) -> VxRange { self }
}

/// Slice operations.
pub trait VxSlice<T> {
    spec fn sq(&self) -> Seq<T>;
    fn vx_refs(&self) -> (r: VxRefs<'_, T>) ensures r@ == self.sq();
    fn vx_len(&self) -> (r: usize) ensures r == self.sq().len(), r <= isize::MAX;
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.sq().len() == 0);
    fn vx_sub(&self, lo: usize, hi: usize) -> (r: &[T]) requires lo <= hi <= self.sq().len() ensures r@ == self.sq().subrange(lo as int, hi as int);
    fn vx_from(&self, lo: usize) -> (r: &[T]) requires lo <= self.sq().len() ensures r@ == self.sq().subrange(lo as int, self.sq().len() as int);
    fn vx_to(&self, hi: usize) -> (r: &[T]) requires hi <= self.sq().len() ensures r@ == self.sq().subrange(0, hi as int);
    fn vx_all(&self) -> (r: &[T]) ensures r@ == self.sq();
    fn vx_as_slice(&self) -> (r: &[T]) ensures r@ == self.sq();
    fn vx_as_ref(&self) -> (r: &[T]) ensures r@ == self.sq();
    fn vx_first(&self) -> (r: Option<&T>) ensures self.sq().len() == 0 ==> r is None, self.sq().len() > 0 ==> r is Some && *r->0 == self.sq()[0];
    fn vx_index(&self, i: usize) -> (r: &T) requires i < self.sq().len() ensures *r == self.sq()[i as int];
    fn vx_last(&self) -> (r: Option<&T>) ensures self.sq().len() == 0 ==> r is None, self.sq().len() > 0 ==> r is Some && *r->0 == self.sq().last();
    fn vx_get_range(&self, lo: usize, hi: usize) -> (r: Option<&[T]>)
        ensures lo <= hi <= self.sq().len() ==> r is Some && r->0@ == self.sq().subrange(lo as int, hi as int), !(lo <= hi <= self.sq().len()) ==> r is None;
    fn vx_get(&self, i: usize) -> (r: Option<&T>) ensures i >= self.sq().len() ==> r is None, i < self.sq().len() ==> r is Some && *r->0 == self.sq()[i as int];
}
macro_rules! vx_slice_impl { ($ty:ty, [$($g:tt)*]) => { verus! {
impl<T $($g)*> VxSlice<T> for $ty {
    open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_refs(&self) -> (r: VxRefs<'_, T>) { unimplemented!() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_sub(&self, lo: usize, hi: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, lo: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_to(&self, hi: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_all(&self) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_as_slice(&self) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_as_ref(&self) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_index(&self, i: usize) -> (r: &T) { unimplemented!() }
    #[verifier::external_body] fn vx_last(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_get(&self, i: usize) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_get_range(&self, lo: usize, hi: usize) -> (r: Option<&[T]>) { unimplemented!() }
}
} } }
vx_slice_impl!([T], []);
vx_slice_impl!(Vec<T>, []);
vx_slice_impl!([T; N], [, const N: usize]);

/// `copy_from_slice` into (a range of) an array or vector.
pub trait VxCopy {
    fn vx_copy_range(&mut self, lo: usize, hi: usize, src: &[u8]);
    fn vx_copy_from(&mut self, src: &[u8]);
}
pub open spec fn overwrite(s: Seq<u8>, lo: int, src: Seq<u8>) -> Seq<u8> {
    s.subrange(0, lo) + src + s.subrange(lo + src.len(), s.len() as int)
}
pub trait VxCopyA<const N: usize> {
    spec fn cur(&self) -> Seq<u8>;
    fn vx_copy_range(&mut self, lo: usize, hi: usize, src: &[u8])
        requires lo <= hi <= old(self).cur().len(), src@.len() == hi - lo
        ensures final(self).cur() == overwrite(old(self).cur(), lo as int, src@);
    fn vx_copy_from(&mut self, src: &[u8])
        requires src@.len() == old(self).cur().len()
        ensures final(self).cur() == src@;
}
impl<const N: usize> VxCopyA<N> for [u8; N] {
    open spec fn cur(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vx_copy_range(&mut self, lo: usize, hi: usize, src: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_copy_from(&mut self, src: &[u8]) { unimplemented!() }
}

pub trait VxClone: Sized {
    spec fn vx_clone_ok(&self, r: Self) -> bool;
    fn vx_clone(&self) -> (r: Self) ensures self.vx_clone_ok(r);
}
impl<T> VxClone for Vec<T> {
    open spec fn vx_clone_ok(&self, r: Vec<T>) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_clone(&self) -> Vec<T> { unimplemented!() }
}
impl VxClone for String {
    open spec fn vx_clone_ok(&self, r: String) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_clone(&self) -> String { unimplemented!() }
}

/// to_vec, extend
pub trait VxToVec<T> { spec fn tvq(&self) -> Seq<T>; fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.tvq(); fn vx_to_owned(&self) -> (r: Vec<T>) ensures r@ == self.tvq(); }
impl<T> VxToVec<T> for [T] {
    open spec fn tvq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: Vec<T>) { unimplemented!() }
}
impl<T, const N: usize> VxToVec<T> for [T; N] {
    open spec fn tvq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: Vec<T>) { unimplemented!() }
}
pub trait VxSeqLike<T> { spec fn slq(&self) -> Seq<T>; }
impl<T> VxSeqLike<T> for Vec<T> { open spec fn slq(&self) -> Seq<T> { self@ } }
impl<T> VxSeqLike<T> for VxRefs<'_, T> { open spec fn slq(&self) -> Seq<T> { self@ } }
impl<T> VxSeqLike<T> for VxOwned<T> { open spec fn slq(&self) -> Seq<T> { self@ } }
impl<T> VxSeqLike<T> for &Vec<T> { open spec fn slq(&self) -> Seq<T> { self@ } }
impl<T> VxSeqLike<T> for &[T] { open spec fn slq(&self) -> Seq<T> { self@ } }
impl<T, const N: usize> VxSeqLike<T> for [T; N] { open spec fn slq(&self) -> Seq<T> { self@ } }
impl<T, const N: usize> VxSeqLike<T> for &[T; N] { open spec fn slq(&self) -> Seq<T> { self@ } }
#[verifier::opaque]
pub open spec fn reps<T>(x: T, n: nat) -> Seq<T> { Seq::new(n, |i: int| x) }
pub trait VxResize<T> { fn vx_resize(&mut self, n: usize, x: T); fn vx_clear(&mut self); }
impl<T> VxResize<T> for Vec<T> {
    #[verifier::external_body] fn vx_resize(&mut self, n: usize, x: T)
        ensures final(self)@ == if n <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ + reps(x, (n - old(self)@.len()) as nat) } { unimplemented!() }
    #[verifier::external_body] fn vx_clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
}
pub trait VxExtend<T> {
    spec fn exq(&self) -> Seq<T>;
    fn vx_extend<S: VxSeqLike<T>>(&mut self, s: S) ensures final(self).exq() == old(self).exq() + s.slq();
    fn vx_append(&mut self, s: &mut Vec<T>) ensures final(self).exq() == old(self).exq() + old(s)@, final(s)@ == Seq::<T>::empty();
}
impl<T> VxExtend<T> for Vec<T> {
    open spec fn exq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_extend<S: VxSeqLike<T>>(&mut self, s: S) { unimplemented!() }
    #[verifier::external_body] fn vx_append(&mut self, s: &mut Vec<T>) { unimplemented!() }
}
pub trait VxReserve<T> { fn vx_reserve(&mut self, n: usize); }
impl<T> VxReserve<T> for Vec<T> { #[verifier::external_body] fn vx_reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() } }
/// Vec::with_capacity; `vx_cap_ok` is the memory claim, see the decoder contracts.
#[verifier::external_body]
pub fn vx_with_capacity<T>(n: usize) -> (r: Vec<T>) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_repeat<T>(x: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }

pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn vx_min_off(start: usize, n: usize, len: usize) -> (r: usize) requires start <= len ensures r == if n <= len - start { start + n } else { len as int }
{ if n <= len - start { start + n } else { len } }
pub trait VxNum: Sized { 
    spec fn n(self) -> int;
    fn vx_min(self, o: Self) -> (r: Self) ensures r.n() == if self.n() <= o.n() { self.n() } else { o.n() };
    fn vx_max(self, o: Self) -> (r: Self) ensures r.n() == if self.n() >= o.n() { self.n() } else { o.n() };
}
impl VxNum for usize { open spec fn n(self) -> int { self as int }
    #[verifier::external_body] fn vx_min(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vx_max(self, o: Self) -> (r: Self) { unimplemented!() } }
impl VxNum for u32 { open spec fn n(self) -> int { self as int }
    #[verifier::external_body] fn vx_min(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vx_max(self, o: Self) -> (r: Self) { unimplemented!() } }
pub open spec fn sat_add(a: int, b: int, m: int) -> int { if a + b > m { m } else { a + b } }
pub trait VxSat: Sized {
    spec fn sn(self) -> int; spec fn smax(self) -> int;
    fn vx_saturating_add(self, o: Self) -> (r: Self) ensures r.sn() == sat_add(self.sn(), o.sn(), self.smax());
    fn vx_saturating_sub(self, o: Self) -> (r: Self) ensures r.sn() == if self.sn() < o.sn() { 0 } else { self.sn() - o.sn() };
    fn vx_div_ceil(self, o: Self) -> (r: Self) requires o.sn() > 0 ensures r.sn() == (self.sn() + o.sn() - 1) / o.sn();
}
impl VxSat for usize { open spec fn sn(self) -> int { self as int } open spec fn smax(self) -> int { usize::MAX as int }
    #[verifier::external_body] fn vx_saturating_add(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vx_saturating_sub(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vx_div_ceil(self, o: Self) -> (r: Self) { unimplemented!() } }
impl VxSat for u32 { open spec fn sn(self) -> int { self as int } open spec fn smax(self) -> int { u32::MAX as int }
    #[verifier::external_body] fn vx_saturating_add(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vx_saturating_sub(self, o: Self) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vx_div_ceil(self, o: Self) -> (r: Self) { unimplemented!() } }

/// the value of i bytes from lo on (i <= 4)
pub open spec fn be_part(w: Seq<u8>, lo: int, i: int) -> int {
    if i <= 0 { 0 } else if i == 1 { w[lo] as int } else if i == 2 { w[lo] * 0x100 + w[lo + 1] } else if i == 3 { w[lo] * 0x10000 + w[lo + 1] * 0x100 + w[lo + 2] }
    else { w[lo] * 0x1000000 + w[lo + 1] * 0x10000 + w[lo + 2] * 0x100 + w[lo + 3] }
}
pub proof fn lemma_be_part(w: Seq<u8>, lo: int, i: int)
    requires 0 <= i < 4,
    ensures
        be_part(w, lo, i + 1) == be_part(w, lo, i) * 256 + w[lo + i],
        forall|r: usize, b: usize| r < 0x1000000 && b < 256 ==> #[trigger] ((r << 8) | b) == r * 256 + b,
        forall|r: usize| r < 0x1000000 ==> #[trigger] (r << 8) == r * 256,
        be_part(w, lo, i) < 0x1000000,
{
    assert forall|r: usize, b: usize| r < 0x1000000 && b < 256 implies #[trigger] ((r << 8) | b) == r * 256 + b by {
        assert(r < 0x1000000 && b < 256 ==> ((r << 8) | b) == r * 256 + b) by (bit_vector);
    }
    assert forall|r: usize| r < 0x1000000 implies #[trigger] (r << 8) == r * 256 by { assert(r < 0x1000000 ==> (r << 8) == r * 256) by (bit_vector); }
}
#[verifier::external_body] pub fn vx_from_be4(b: [u8; 4]) -> (r: u32)
    ensures r == b@[0] * 0x1000000 + b@[1] * 0x10000 + b@[2] * 0x100 + b@[3] { unimplemented!() }
/// `.chunks(k)`: the pieces of k elements, the last one possibly shorter.
pub struct VxChunks<'a, T> { pub s: &'a [T], pub k: usize }
pub open spec fn chunk_end(l: int, k: int, i: int) -> int { if k * (i + 1) <= l { k * (i + 1) } else { l } }
impl<'a, T> VxChunks<'a, T> {
    #[verifier::external_body] pub fn vx_len(&self) -> (r: usize) ensures self.k > 0 ==> r == (self.s@.len() + self.k - 1) / (self.k as int) { unimplemented!() }
    #[verifier::external_body] pub fn vx_at(&self, i: usize) -> (r: &'a [T])
        ensures self.k > 0 && self.k * i < self.s@.len() ==> r@ == self.s@.subrange(self.k * i, chunk_end(self.s@.len() as int, self.k as int, i as int)) { unimplemented!() }
}
pub fn vx_chunks<'a, T>(s: &'a [T], k: usize) -> (r: VxChunks<'a, T>) requires k > 0 ensures r.s == s, r.k == k { VxChunks { s, k } }
pub open spec fn be4(v: nat) -> Seq<u8> { seq![(v / 0x1000000) as u8, (v / 0x10000 % 256) as u8, (v / 0x100 % 256) as u8, (v % 256) as u8] }
pub trait VxBe { type A; spec fn be_ok(self, r: Self::A) -> bool; fn vx_to_be_bytes(self) -> (r: Self::A) ensures self.be_ok(r); }
impl VxBe for u32 {
    type A = [u8; 4];
    open spec fn be_ok(self, r: [u8; 4]) -> bool { r@ == be4(self as nat) }
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 4]) { unimplemented!() }
}

/// type probes of the driver; no type implements this
pub trait VxProbe { }
pub trait VxElem { }
pub struct VxZ1; pub struct VxZ2;
impl VxElem for VxZ1 { } impl VxElem for VxZ2 { }
impl<T: VxElem> VxElem for Vec<T> { } impl<T: VxElem> VxElem for Option<T> { }
impl<T: VxElem> VxProbe for Vec<T> { } impl<T: VxElem> VxProbe for Option<T> { }
pub fn vx_probe<T: VxProbe>(x: &T) { }

// ---------------------------------------------------------------- panics and errors
/// A call that would panic: no execution may reach it.
#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }
pub fn vx_assert(b: bool) requires b { }
pub fn vx_is_some<T>(o: &Option<T>) -> (r: bool) ensures r == (*o is Some) { o.is_some() }

pub trait VxDefault: Sized { spec fn dflt(&self) -> bool; fn vx_default0() -> (r: Self) ensures r.dflt(); }
pub fn vx_default<T: VxDefault>() -> (r: T) ensures r.dflt() { T::vx_default0() }
impl<T> VxDefault for Vec<T> { open spec fn dflt(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vx_default0() -> (r: Self) { unimplemented!() } }
impl VxDefault for bool { open spec fn dflt(&self) -> bool { !*self } fn vx_default0() -> (r: Self) { false } }
impl<T> VxDefault for Option<T> { open spec fn dflt(&self) -> bool { *self is None } fn vx_default0() -> (r: Self) { None } }
impl VxDefault for usize { open spec fn dflt(&self) -> bool { *self == 0 } fn vx_default0() -> (r: Self) { 0 } }
impl VxDefault for String { open spec fn dflt(&self) -> bool { self@.len() == 0 } #[verifier::external_body] fn vx_default0() -> (r: Self) { unimplemented!() } }

/// ethabi::Error; only the kind is modelled
pub enum Error { InvalidName(String), InvalidData, Other, Io, Json, Num, Hex, Int, Parse }
pub trait VxErr<E>: Sized { spec fn err_ok(self, r: E) -> bool; fn vx_err0(self) -> (r: E) ensures self.err_ok(r); }
impl VxErr<Error> for Error { open spec fn err_ok(self, r: Error) -> bool { r == self } fn vx_err0(self) -> (r: Error) { self } }
pub fn vx_err<E: VxErr<F>, F>(e: E) -> (r: F) ensures e.err_ok(r) { e.vx_err0() }

// ---------------------------------------------------------------- text
pub trait VxText {
    spec fn txt(&self) -> Seq<char>;
    fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == vstd::utf8::encode_utf8(self.txt());
    fn vx_as_str(&self) -> (r: &str) ensures r@ == self.txt();
    fn vx_to_owned(&self) -> (r: String) ensures r@ == self.txt();
    fn vx_into_owned(&self) -> (r: String) ensures r@ == self.txt();
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.txt().len() == 0);
}
macro_rules! vx_text_impl { ($ty:ty) => { verus! {
impl VxText for $ty {
    open spec fn txt(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_into_owned(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
} } }
/// String::from_utf8_lossy
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub fn vx_from_utf8_lossy(b: &[u8]) -> (r: String) ensures r@ == lossy(b@) { unimplemented!() }
vx_text_impl!(str);
vx_text_impl!(String);

/// std::fmt::Display: the text `{}` and `to_string` give
pub trait VxDisp {
    spec fn disp(&self) -> Seq<char>;
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.disp();
}
impl VxDisp for str { open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for String { open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }

/// Option<&T>::cloned
pub trait VxCloned<T> { spec fn cl_ok(self, r: Option<T>) -> bool; fn vx_cloned(self) -> (r: Option<T>) ensures self.cl_ok(r); }
impl<'a, T: VxClone> VxCloned<T> for Option<&'a T> {
    open spec fn cl_ok(self, r: Option<T>) -> bool { match self { Some(x) => r is Some && x.vx_clone_ok(r->0), None => r is None } }
    fn vx_cloned(self) -> (r: Option<T>) { match self { Some(x) => Some(x.vx_clone()), None => None } }
}
pub trait VxOptRef<T> { spec fn oo(&self) -> Option<T>; fn vx_as_ref(&self) -> (r: Option<&T>) ensures r is Some == self.oo() is Some, r is Some ==> *r->0 == self.oo()->0; }
impl<T> VxOptRef<T> for Option<T> { open spec fn oo(&self) -> Option<T> { *self } #[verifier::external_body] fn vx_as_ref(&self) -> (r: Option<&T>) { unimplemented!() } }
pub trait VxBoxRef<X> { spec fn bo(&self) -> X; fn vx_as_ref(&self) -> (r: &X) ensures *r == self.bo(); fn vx_as_mut(&mut self) -> (r: &mut X) ensures *r == old(self).bo(), *final(r) == final(self).bo(); }
impl<X> VxBoxRef<X> for Box<X> { open spec fn bo(&self) -> X { **self } fn vx_as_ref(&self) -> (r: &X) { &**self } fn vx_as_mut(&mut self) -> (r: &mut X) { &mut **self } }
} // verus!
