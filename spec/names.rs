// The canonical names of types, and signatures.
verus! {

pub enum TY { Address, Bytes, Int(nat), Uint(nat), Bool, Str, Arr(Box<TY>), FBytes(nat), FArr(Box<TY>, nat), Tup(Seq<TY>) }
/// the type of a ParamType
#[verifier::opaque]
pub open spec fn ty(t: ParamType) -> TY
    decreases t
{
    match t {
        ParamType::Address => TY::Address,
        ParamType::Bytes => TY::Bytes,
        ParamType::Int(n) => TY::Int(n as nat),
        ParamType::Uint(n) => TY::Uint(n as nat),
        ParamType::Bool => TY::Bool,
        ParamType::String => TY::Str,
        ParamType::Array(t) => TY::Arr(Box::new(ty(*t))),
        ParamType::FixedBytes(n) => TY::FBytes(n as nat),
        ParamType::FixedArray(t, n) => TY::FArr(Box::new(ty(*t)), n as nat),
        ParamType::Tuple(ts) => TY::Tup(Seq::new(ts@.len(), |i: int| if 0 <= i < ts@.len() { ty(ts@[i]) } else { arbitrary() })),
    }
}
#[verifier::opaque]
pub open spec fn tys(ts: Seq<ParamType>) -> Seq<TY> { Seq::new(ts.len(), |i: int| ty(ts[i])) }
pub broadcast proof fn lemma_ty(t: ParamType)
    ensures #![trigger ty(t)]
        t is Address ==> ty(t) == TY::Address, t is Bytes ==> ty(t) == TY::Bytes, t is Bool ==> ty(t) == TY::Bool, t is String ==> ty(t) == TY::Str,
        t is Int ==> ty(t) == TY::Int(t->Int_0 as nat), t is Uint ==> ty(t) == TY::Uint(t->Uint_0 as nat), t is FixedBytes ==> ty(t) == TY::FBytes(t->FixedBytes_0 as nat),
        t is Tuple ==> ty(t) == TY::Tup(tys(t->Tuple_0@)),
{
    reveal_with_fuel(ty, 2); reveal(tys);
    match t { ParamType::Tuple(ts) => { assert(ty(t)->Tup_0 =~= tys(ts@)); } _ => {} }
}
pub broadcast proof fn lemma_ty_arr(t: ParamType)
    requires t is Array,
    ensures #![trigger ty(t), t->Array_0] ty(t) == TY::Arr(Box::new(ty(*t->Array_0))),
{ reveal_with_fuel(ty, 2); }
pub broadcast proof fn lemma_ty_farr(t: ParamType)
    requires t is FixedArray,
    ensures #![trigger ty(t), t->FixedArray_0] ty(t) == TY::FArr(Box::new(ty(*t->FixedArray_0)), t->FixedArray_1 as nat),
{ reveal_with_fuel(ty, 2); }
pub broadcast proof fn lemma_ty_mk_arr(t: Box<ParamType>) ensures #[trigger] ty(ParamType::Array(t)) == TY::Arr(Box::new(ty(*t))) { reveal_with_fuel(ty, 2); }
pub broadcast proof fn lemma_ty_mk_farr(t: Box<ParamType>, n: usize) ensures #[trigger] ty(ParamType::FixedArray(t, n)) == TY::FArr(Box::new(ty(*t)), n as nat) { reveal_with_fuel(ty, 2); }
pub broadcast proof fn lemma_tys(ts: Seq<ParamType>) ensures (#[trigger] tys(ts)).len() == ts.len(), ts.len() == 0 ==> tys(ts) == Seq::<TY>::empty() { reveal(tys); if ts.len() == 0 { assert(tys(ts) =~= Seq::<TY>::empty()); } }
pub broadcast proof fn lemma_tys_index(ts: Seq<ParamType>, i: int) requires 0 <= i < ts.len() ensures #[trigger] tys(ts)[i] == ty(ts[i]) { reveal(tys); }
pub broadcast proof fn lemma_tys_push(ts: Seq<ParamType>, t: ParamType) ensures #[trigger] tys(ts.push(t)) == tys(ts).push(ty(t)) { reveal(tys); assert(tys(ts.push(t)) =~= tys(ts).push(ty(t))); }
pub broadcast group group_ty { lemma_ty, lemma_ty_arr, lemma_ty_farr, lemma_ty_mk_arr, lemma_ty_mk_farr, lemma_tys, lemma_tys_index, lemma_tys_push }

/// the name of a type; tuples are spelled out if `full`, and the word tuple otherwise
#[verifier::opaque]
pub open spec fn tname(t: TY, full: bool) -> Seq<char>
    decreases t, 0int, 0int
{
    match t {
        TY::Address => "address"@,
        TY::Bytes => "bytes"@,
        TY::Int(n) => "int"@ + decimal(n),
        TY::Uint(n) => "uint"@ + decimal(n),
        TY::Bool => "bool"@,
        TY::Str => "string"@,
        TY::FBytes(n) => "bytes"@ + decimal(n),
        TY::Arr(t) => tname(*t, full) + "[]"@,
        TY::FArr(t, n) => tname(*t, full) + "["@ + decimal(n) + "]"@,
        TY::Tup(ts) => if full { "("@ + jnames(ts, full, ts.len() as int) + ")"@ } else { "tuple"@ },
    }
}
/// the names of the first k types, separated by commas
#[verifier::opaque]
pub open spec fn jnames(ts: Seq<TY>, full: bool, k: int) -> Seq<char>
    decreases ts, 1int, k
{ if k <= 0 || k > ts.len() { Seq::empty() } else if k == 1 { tname(ts[0], full) } else { jnames(ts, full, k - 1) + ","@ + tname(ts[k - 1], full) } }
pub proof fn lemma_jnames(ts: Seq<TY>, full: bool, k: int)
    requires 0 <= k <= ts.len(),
    ensures jnames(ts, full, k) == joined(tnames(ts, full).take(k), ","@),
    decreases k
{
    reveal_with_fuel(jnames, 2); reveal_with_fuel(joined, 2); reveal(tnames); reveal_with_fuel(tname, 2);
    let a = tnames(ts, full).take(k);
    if k > 1 { lemma_jnames(ts, full, k - 1); assert(a.drop_last() =~= tnames(ts, full).take(k - 1)); assert(a.last() == tname(ts[k - 1], full)); }
    if k == 1 { assert(a[0] == tname(ts[0], full)); }
}
#[verifier::opaque]
pub open spec fn tnames(ts: Seq<TY>, full: bool) -> Seq<Seq<char>> { Seq::new(ts.len(), |i: int| tname(ts[i], full)) }
pub proof fn lemma_tname(t: TY, full: bool)
    ensures tname(t, full) == match t {
        TY::Address => "address"@,
        TY::Bytes => "bytes"@,
        TY::Int(n) => "int"@ + decimal(n),
        TY::Uint(n) => "uint"@ + decimal(n),
        TY::Bool => "bool"@,
        TY::Str => "string"@,
        TY::FBytes(n) => "bytes"@ + decimal(n),
        TY::Arr(t) => tname(*t, full) + "[]"@,
        TY::FArr(t, n) => tname(*t, full) + "["@ + decimal(n) + "]"@,
        TY::Tup(ts) => if full { "("@ + joined(tnames(ts, full), ","@) + ")"@ } else { "tuple"@ },
    }
{
    reveal_with_fuel(tname, 3); reveal_with_fuel(jnames, 3); reveal(tnames);
    match t { TY::Tup(ts) => { lemma_jnames(ts, full, ts.len() as int); assert(tnames(ts, full).take(ts.len() as int) =~= tnames(ts, full)); } _ => {} }
}
pub broadcast proof fn lemma_tnames(ts: Seq<TY>, full: bool) ensures (#[trigger] tnames(ts, full)).len() == ts.len() { reveal(tnames); }
pub broadcast proof fn lemma_tnames_index(ts: Seq<TY>, full: bool, i: int) requires 0 <= i < ts.len() ensures #[trigger] tnames(ts, full)[i] == tname(ts[i], full) { reveal(tnames); }
pub broadcast group group_names { lemma_tnames, lemma_tnames_index }

impl VxDisp for ParamType { open spec fn disp(&self) -> Seq<char> { tname(ty(*self), true) }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxClone for ParamType {
    open spec fn vx_clone_ok(&self, r: ParamType) -> bool { r == *self }
    #[verifier::external_body] fn vx_clone(&self) -> ParamType { unimplemented!() }
}
pub open spec fn list_text(ts: Seq<TY>) -> Seq<char> { joined(tnames(ts, true), ","@) }
/// name(types)
pub open spec fn sig_text(name: Seq<char>, ts: Seq<TY>) -> Seq<char> { name + "("@ + list_text(ts) + ")"@ }
pub open spec fn sig_hash(name: Seq<char>, ts: Seq<TY>) -> Seq<u8> { keccak(vstd::utf8::encode_utf8(sig_text(name, ts))) }

} // verus!
