// Unsigned numbers of 256 bits: the contracts of ethereum_types::U256 as far as they are used, through the value of the 32 bytes.
verus! {
pub open spec fn p256(k: nat) -> nat
    decreases k
{ if k == 0 { 1 } else { 256 * p256((k - 1) as nat) } }
/// 2^255 and 2^256
#[verifier::opaque]
pub open spec fn half() -> nat { 128 * p256(31) }
#[verifier::opaque]
pub open spec fn full() -> nat { p256(32) }
pub broadcast proof fn lemma_full() ensures #[trigger] full() == 2 * half(), half() > 0 { reveal(full); reveal(half); reveal_with_fuel(p256, 2); lemma_p256(31); }
pub proof fn lemma_p256(k: nat) ensures p256(k) > 0 decreases k { if k > 0 { lemma_p256((k - 1) as nat); } }
/// n in k big-endian bytes
#[verifier::opaque]
pub open spec fn be(n: nat, k: nat) -> Seq<u8>
    decreases k
{ if k == 0 { Seq::empty() } else { be(n / 256, (k - 1) as nat).push((n % 256) as u8) } }
/// the number whose big-endian bytes these are
#[verifier::opaque]
pub open spec fn beval(b: Seq<u8>) -> nat
    decreases b.len()
{ if b.len() == 0 { 0 } else { beval(b.drop_last()) * 256 + b.last() as nat } }
pub proof fn lemma_be(n: nat, k: nat)
    requires n < p256(k),
    ensures beval(be(n, k)) == n, be(n, k).len() == k,
    decreases k
{
    reveal_with_fuel(be, 2); reveal_with_fuel(beval, 2);
    if k > 0 {
        assert(n / 256 < p256((k - 1) as nat)) by (nonlinear_arith) requires n < 256 * p256((k - 1) as nat);
        lemma_be(n / 256, (k - 1) as nat);
        assert(be(n, k).drop_last() =~= be(n / 256, (k - 1) as nat));
        assert(n / 256 * 256 + n % 256 == n) by (nonlinear_arith);
    }
}
/// the number with a value
pub uninterp spec fn u_of(n: nat) -> U256;
#[verifier::external_body]
pub proof fn axiom_u_of(n: nat) requires n < full() ensures u_of(n).be@ == be(n, 32) { }
#[verifier::opaque]
pub open spec fn uv(u: U256) -> nat { beval(u.be@) }
pub broadcast proof fn lemma_u_of(n: nat)
    requires n < full(),
    ensures #![trigger u_of(n)] u_of(n).be@ == be(n, 32), uv(u_of(n)) == n,
{ axiom_u_of(n); reveal(full); reveal(uv); lemma_be(n, 32); }

macro_rules! vx_u256_op { ($t:ty, $v:expr) => { verus! {
impl vstd::std_specs::ops::AddSpecImpl<$t> for U256 {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: $t) -> bool { $v(o) >= 0 && uv(self) + $v(o) < full() }
    open spec fn add_spec(self, o: $t) -> U256 { u_of((uv(self) + $v(o)) as nat) }
}
impl core::ops::Add<$t> for U256 { type Output = U256; #[verifier::external_body] fn add(self, o: $t) -> (r: U256) { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<$t> for U256 {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: $t) -> bool { $v(o) >= 0 && uv(self) >= $v(o) }
    open spec fn sub_spec(self, o: $t) -> U256 { u_of((uv(self) - $v(o)) as nat) }
}
impl core::ops::Sub<$t> for U256 { type Output = U256; #[verifier::external_body] fn sub(self, o: $t) -> (r: U256) { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<$t> for U256 {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: $t) -> bool { $v(o) > 0 }
    open spec fn div_spec(self, o: $t) -> U256 { u_of((uv(self) as int / $v(o)) as nat) }
}
impl core::ops::Div<$t> for U256 { type Output = U256; #[verifier::external_body] fn div(self, o: $t) -> (r: U256) { unimplemented!() } }
} } }
pub open spec fn vi(x: i32) -> int { x as int }
pub open spec fn vu(x: U256) -> int { uv(x) as int }
vx_u256_op!(i32, vi);
vx_u256_op!(U256, vu);
impl vstd::std_specs::ops::NotSpecImpl for U256 {
    open spec fn obeys_not_spec() -> bool { true }
    open spec fn not_req(self) -> bool { true }
    open spec fn not_spec(self) -> U256 { u_of((full() - 1 - uv(self)) as nat) }
}
impl core::ops::Not for U256 { type Output = U256; #[verifier::external_body] fn not(self) -> (r: U256) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for U256 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &U256) -> bool { uv(*self) == uv(*o) }
}
impl PartialEq for U256 { #[verifier::external_body] fn eq(&self, o: &U256) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for U256 {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &U256) -> Option<core::cmp::Ordering> { if uv(*self) < uv(*o) { Some(core::cmp::Ordering::Less) } else if uv(*self) == uv(*o) { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) } }
}
impl PartialOrd for U256 { #[verifier::external_body] fn partial_cmp(&self, o: &U256) -> (r: Option<core::cmp::Ordering>) { unimplemented!() } }
pub struct FromDecStrErr { }
impl VxErr<Error> for FromDecStrErr { open spec fn err_ok(self, r: Error) -> bool { true } fn vx_err0(self) -> (r: Error) { Error::Parse } }
pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
impl U256 {
    #[verifier::external_body] pub fn max_value() -> (r: U256) ensures r == u_of((full() - 1) as nat) { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: U256) ensures r == u_of(0) { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: U256) ensures r == u_of(1) { unimplemented!() }
    #[verifier::external_body] pub fn vx_is_zero(&self) -> (r: bool) ensures r == (uv(*self) == 0) { unimplemented!() }
    #[verifier::external_body] pub fn from_dec_str(s: &str) -> (r: Result<U256, FromDecStrErr>)
        ensures all_digits(s@) && uval(s@) < full() ==> r == Ok::<U256, FromDecStrErr>(u_of(uval(s@))), !(all_digits(s@) && uval(s@) < full()) ==> r is Err { unimplemented!() }
}
} // verus!
