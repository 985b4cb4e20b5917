// When a value is of a type.
verus! {
/// equality of types, as derived
#[verifier::opaque]
pub open spec fn pteq(a: ParamType, b: ParamType) -> bool
    decreases a
{
    match (a, b) {
        (ParamType::Address, ParamType::Address) => true,
        (ParamType::Bytes, ParamType::Bytes) => true,
        (ParamType::Bool, ParamType::Bool) => true,
        (ParamType::String, ParamType::String) => true,
        (ParamType::Int(x), ParamType::Int(y)) => x == y,
        (ParamType::Uint(x), ParamType::Uint(y)) => x == y,
        (ParamType::FixedBytes(x), ParamType::FixedBytes(y)) => x == y,
        (ParamType::Array(x), ParamType::Array(y)) => pteq(*x, *y),
        (ParamType::FixedArray(x, m), ParamType::FixedArray(y, n)) => m == n && pteq(*x, *y),
        (ParamType::Tuple(xs), ParamType::Tuple(ys)) => xs@.len() == ys@.len() && forall|i: int| 0 <= i < xs@.len() ==> pteq(#[trigger] xs@[i], ys@[i]),
        _ => false,
    }
}
pub broadcast proof fn lemma_pteq(a: ParamType, b: ParamType)
    ensures #![trigger pteq(a, b)]
        a is Address || b is Address ==> pteq(a, b) == (a is Address && b is Address),
        a is Bytes || b is Bytes ==> pteq(a, b) == (a is Bytes && b is Bytes),
        a is Bool || b is Bool ==> pteq(a, b) == (a is Bool && b is Bool),
        a is String || b is String ==> pteq(a, b) == (a is String && b is String),
        a is Int || b is Int ==> pteq(a, b) == (a is Int && b is Int && a->Int_0 == b->Int_0),
        a is Uint || b is Uint ==> pteq(a, b) == (a is Uint && b is Uint && a->Uint_0 == b->Uint_0),
        a is FixedBytes || b is FixedBytes ==> pteq(a, b) == (a is FixedBytes && b is FixedBytes && a->FixedBytes_0 == b->FixedBytes_0),
{ reveal(pteq); }
impl vstd::std_specs::cmp::PartialEqSpecImpl for ParamType {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &ParamType) -> bool { pteq(*self, *other) }
}
impl PartialEq for ParamType {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() }
}

/// the value is of the type
#[verifier::opaque]
pub open spec fn oftype(v: V, ty: ParamType) -> bool
    decreases v
{
    match v {
        V::Address(_) => ty is Address,
        V::Bytes(_) => ty is Bytes,
        V::Int(_) => ty is Int,
        V::Uint(_) => ty is Uint,
        V::Bool(_) => ty is Bool,
        V::Str(_) => ty is String,
        V::FixedBytes(b) => ty is FixedBytes && b.len() <= ty->FixedBytes_0,
        V::Arr(vs) => ty is Array && forall|i: int| 0 <= i < vs.len() ==> oftype(#[trigger] vs[i], *ty->Array_0),
        V::FArr(vs) => ty is FixedArray && vs.len() == ty->FixedArray_1 && forall|i: int| 0 <= i < vs.len() ==> oftype(#[trigger] vs[i], *ty->FixedArray_0),
        V::Tup(vs) => ty is Tuple && vs.len() == ty->Tuple_0@.len() && forall|i: int| 0 <= i < vs.len() ==> oftype(#[trigger] vs[i], ty->Tuple_0@[i]),
    }
}
pub open spec fn oftypes(vs: Seq<V>, tys: Seq<ParamType>) -> bool {
    vs.len() == tys.len() && forall|i: int| 0 <= i < vs.len() ==> oftype(#[trigger] vs[i], tys[i])
}
/// one level of it
pub proof fn lemma_oftype(v: V, ty: ParamType)
    ensures
        oftype(v, ty) == match v {
        V::Address(_) => ty is Address,
        V::Bytes(_) => ty is Bytes,
        V::Int(_) => ty is Int,
        V::Uint(_) => ty is Uint,
        V::Bool(_) => ty is Bool,
        V::Str(_) => ty is String,
        V::FixedBytes(b) => ty is FixedBytes && b.len() <= ty->FixedBytes_0,
        V::Arr(vs) => ty is Array && forall|i: int| 0 <= i < vs.len() ==> oftype(#[trigger] vs[i], *ty->Array_0),
        V::FArr(vs) => ty is FixedArray && vs.len() == ty->FixedArray_1 && forall|i: int| 0 <= i < vs.len() ==> oftype(#[trigger] vs[i], *ty->FixedArray_0),
        V::Tup(vs) => ty is Tuple && oftypes(vs, ty->Tuple_0@),
        },
{ reveal_with_fuel(oftype, 2); }
} // verus!
