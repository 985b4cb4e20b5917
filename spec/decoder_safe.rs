// Memory and arithmetic safety of decoding.
verus! {
pub trait VxPt { spec fn pt(&self) -> ParamType; }
impl VxPt for ParamType { open spec fn pt(&self) -> ParamType { *self } }
impl VxPt for Box<ParamType> { open spec fn pt(&self) -> ParamType { **self } }

/// An arbitrary bound; decoding is started with data and tuple types within it.
pub uninterp spec fn cap_bound() -> nat;
/// every tuple in the type has at most `cap_bound` members (lengths of fixed arrays do not count)
#[verifier::opaque]
pub open spec fn tcap(ty: ParamType) -> bool
    decreases ty
{
    match ty {
        ParamType::Array(t) => tcap(*t),
        ParamType::FixedArray(t, _) => tcap(*t),
        ParamType::Tuple(ts) => ts@.len() <= cap_bound() && forall|i: int| 0 <= i < ts@.len() ==> tcap(#[trigger] ts@[i]),
        _ => true,
    }
}
pub broadcast proof fn lemma_tcap(ty: ParamType)
    ensures #![trigger tcap(ty)]
        ty is Array ==> tcap(ty) == tcap(*ty->Array_0),
        ty is FixedArray ==> tcap(ty) == tcap(*ty->FixedArray_0),
        ty is Tuple ==> tcap(ty) == (ty->Tuple_0@.len() <= cap_bound() && forall|i: int| 0 <= i < ty->Tuple_0@.len() ==> tcap(#[trigger] ty->Tuple_0@[i])),
{ reveal_with_fuel(tcap, 2); }
/// Vec::with_capacity, vec![x; n], reserve: room may be made for at most `cap_bound` elements at once
#[verifier::external_body]
pub fn vx_cap_new<T>(n: usize) -> (r: Vec<T>) requires n <= cap_bound() ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body]
pub fn vx_cap_repeat<T>(x: T, n: usize) -> (r: Vec<T>) requires n <= cap_bound() ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }
pub trait VxCapVec<T> {
    spec fn cur_seq(&self) -> Seq<T>;
    fn vx_cap_reserve(&mut self, n: usize) requires n <= cap_bound() ensures final(self).cur_seq() == old(self).cur_seq();
    fn vx_cap_resize(&mut self, n: usize, x: T) requires n <= cap_bound() ensures final(self).cur_seq() == if n <= old(self).cur_seq().len() { old(self).cur_seq().take(n as int) } else { old(self).cur_seq() + reps(x, (n - old(self).cur_seq().len()) as nat) };
}
impl<T> VxCapVec<T> for Vec<T> {
    open spec fn cur_seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_cap_reserve(&mut self, n: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_cap_resize(&mut self, n: usize, x: T) { unimplemented!() }
}
pub proof fn lemma_shift_bounds()
    ensures
        forall|x: usize| x < 256 ==> #[trigger] (x << 24) == x * 0x1000000,
        forall|x: usize| x < 256 ==> #[trigger] (x << 16) == x * 0x10000,
        forall|x: usize| x < 256 ==> #[trigger] (x << 8) == x * 0x100,
{
    assert forall|x: usize| x < 256 implies #[trigger] (x << 24) == x * 0x1000000 by { assert(x < 256 ==> (x << 24) == x * 0x1000000) by (bit_vector); }
    assert forall|x: usize| x < 256 implies #[trigger] (x << 16) == x * 0x10000 by { assert(x < 256 ==> (x << 16) == x * 0x10000) by (bit_vector); }
    assert forall|x: usize| x < 256 implies #[trigger] (x << 8) == x * 0x100 by { assert(x < 256 ==> (x << 8) == x * 0x100) by (bit_vector); }
}
} // verus!
