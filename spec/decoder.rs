// Reading the ABI layout: what decoding returns for every type and every byte string.
verus! {

pub trait VxPt { spec fn pt(&self) -> ParamType; }
impl VxPt for ParamType { open spec fn pt(&self) -> ParamType { *self } }
impl VxPt for Box<ParamType> { open spec fn pt(&self) -> ParamType { **self } }
#[verifier::opaque]
pub open spec fn dynt(ty: ParamType) -> bool
    decreases ty
{
    match ty {
        ParamType::Bytes | ParamType::String | ParamType::Array(_) => true,
        ParamType::FixedArray(t, _) => dynt(*t),
        ParamType::Tuple(ts) => exists|i: int| 0 <= i < ts@.len() && dynt(#[trigger] ts@[i]),
        _ => false,
    }
}
pub proof fn lemma_dynt_ex(ty: ParamType)
    ensures
        ty is Tuple ==> dynt(ty) == exists|i: int| 0 <= i < ty->Tuple_0@.len() && dynt(#[trigger] ty->Tuple_0@[i]),
        ty is FixedArray ==> dynt(ty) == dynt(*ty->FixedArray_0),
        ty is Bytes || ty is String || ty is Array ==> dynt(ty),
        ty is Address || ty is FixedBytes || ty is Int || ty is Uint || ty is Bool ==> !dynt(ty),
{ reveal_with_fuel(dynt, 2); }

/// the word at an offset
pub open spec fn rdw(d: Seq<u8>, o: int) -> Option<Seq<u8>> {
    if 0 <= o && o + 32 <= d.len() { Some(d.subrange(o, o + 32)) } else { None }
}
/// the number in a word, if below 2^32
pub open spec fn wnum(w: Seq<u8>) -> Option<int> {
    if forall|i: int| 0 <= i < 28 ==> #[trigger] w[i] == 0 { Some(w[28] * 0x1000000 + w[29] * 0x10000 + w[30] * 0x100 + w[31]) } else { None }
}
pub open spec fn rdn(d: Seq<u8>, o: int) -> Option<int> {
    match rdw(d, o) { Some(w) => wnum(w), None => None }
}
/// n bytes at an offset
pub open spec fn rdb(d: Seq<u8>, o: int, n: int) -> Option<Seq<u8>> {
    if 0 <= o && 0 <= n && o + n <= d.len() { Some(d.subrange(o, o + n)) } else { None }
}
/// the length-prefixed bytes an offset word points to
pub open spec fn rdlb(d: Seq<u8>, o: int) -> Option<Seq<u8>> {
    match rdn(d, o) { Some(p) => match rdn(d, p) { Some(n) => rdb(d, p + 32, n), None => None }, None => None }
}
pub open spec fn wbool(w: Seq<u8>) -> Option<bool> {
    if forall|i: int| 0 <= i < 31 ==> #[trigger] w[i] == 0 { Some(w[31] == 1) } else { None }
}
pub struct Dec { pub v: V, pub o: int }
pub struct Decs { pub vs: Seq<V>, pub o: int }
pub open spec fn suffix(d: Seq<u8>, o: int) -> Seq<u8> { d.subrange(o, d.len() as int) }

/// the value of type `ty` whose head is at offset `o` of the list `d`, and where the next head is
#[verifier::opaque]
pub open spec fn dec(ty: ParamType, d: Seq<u8>, o: int) -> Option<Dec>
    decreases ty, 0int, 0int
{
    match ty {
        ParamType::Address => match rdw(d, o) { Some(w) => Some(Dec { v: V::Address(w.subrange(12, 32)), o: o + 32 }), None => None },
        ParamType::Int(_) => match rdw(d, o) { Some(w) => Some(Dec { v: V::Int(w), o: o + 32 }), None => None },
        ParamType::Uint(_) => match rdw(d, o) { Some(w) => Some(Dec { v: V::Uint(w), o: o + 32 }), None => None },
        ParamType::Bool => match rdw(d, o) { Some(w) => match wbool(w) { Some(b) => Some(Dec { v: V::Bool(b), o: o + 32 }), None => None }, None => None },
        ParamType::FixedBytes(n) => match rdb(d, o, n as int) { Some(b) => Some(Dec { v: V::FixedBytes(b), o: o + 32 }), None => None },
        ParamType::Bytes => match rdlb(d, o) { Some(b) => Some(Dec { v: V::Bytes(b), o: o + 32 }), None => None },
        ParamType::String => match rdlb(d, o) { Some(b) => Some(Dec { v: V::Str(lossy(b)), o: o + 32 }), None => None },
        ParamType::Array(t) => match rdn(d, o) {
            Some(p) => match rdn(d, p) {
                Some(n) => match rep(*t, suffix(d, p + 32), 0, n) { Some(r) => Some(Dec { v: V::Arr(r.vs), o: o + 32 }), None => None },
                None => None },
            None => None },
        ParamType::FixedArray(t, n) =>
            if dynt(*t) {
                match rdn(d, o) {
                    Some(p) => if p > d.len() { None } else { match rep(*t, suffix(d, p), 0, n as int) { Some(r) => Some(Dec { v: V::FArr(r.vs), o: o + 32 }), None => None } },
                    None => None }
            } else { match rep(*t, d, o, n as int) { Some(r) => Some(Dec { v: V::FArr(r.vs), o: r.o }), None => None } },
        ParamType::Tuple(ts) =>
            if dynt(ty) {
                match rdn(d, o) {
                    Some(p) => if p > d.len() { None } else { match each(ts@, suffix(d, p), 0, ts@.len() as int) { Some(r) => Some(Dec { v: V::Tup(r.vs), o: o + 32 }), None => None } },
                    None => None }
            } else { match each(ts@, d, o, ts@.len() as int) { Some(r) => Some(Dec { v: V::Tup(r.vs), o: r.o }), None => None } },
    }
}
/// n consecutive values of one type
#[verifier::opaque]
pub open spec fn rep(ty: ParamType, d: Seq<u8>, o: int, n: int) -> Option<Decs>
    decreases ty, 1int, n
{
    if n <= 0 { Some(Decs { vs: Seq::empty(), o }) } else {
        match rep(ty, d, o, n - 1) {
            Some(r) => match dec(ty, d, r.o) { Some(x) => Some(Decs { vs: r.vs.push(x.v), o: x.o }), None => None },
            None => None }
    }
}
/// one value per type, for the first n types
#[verifier::opaque]
pub open spec fn each(tys: Seq<ParamType>, d: Seq<u8>, o: int, n: int) -> Option<Decs>
    decreases tys, 1int, n
{
    if n <= 0 || n > tys.len() { Some(Decs { vs: Seq::empty(), o }) } else {
        match each(tys, d, o, n - 1) {
            Some(r) => match dec(tys[n - 1], d, r.o) { Some(x) => Some(Decs { vs: r.vs.push(x.v), o: x.o }), None => None },
            None => None }
    }
}
pub open spec fn empty_ok(ty: ParamType) -> bool {
    match ty { ParamType::FixedBytes(n) => n == 0, ParamType::FixedArray(_, n) => n == 0, _ => false }
}
pub open spec fn all_empty_ok(tys: Seq<ParamType>) -> bool { forall|i: int| 0 <= i < tys.len() ==> empty_ok(#[trigger] tys[i]) }
/// decoding a list
pub open spec fn dec_list(tys: Seq<ParamType>, d: Seq<u8>) -> Option<Seq<V>> {
    if d.len() == 0 && !all_empty_ok(tys) { None } else { match each(tys, d, 0, tys.len() as int) { Some(r) => Some(r.vs), None => None } }
}

pub proof fn lemma_dec(ty: ParamType, d: Seq<u8>, o: int)
    ensures 
        dec(ty, d, o) == (match ty {
        ParamType::Address => match rdw(d, o) { Some(w) => Some(Dec { v: V::Address(w.subrange(12, 32)), o: o + 32 }), None => None },
        ParamType::Int(_) => match rdw(d, o) { Some(w) => Some(Dec { v: V::Int(w), o: o + 32 }), None => None },
        ParamType::Uint(_) => match rdw(d, o) { Some(w) => Some(Dec { v: V::Uint(w), o: o + 32 }), None => None },
        ParamType::Bool => match rdw(d, o) { Some(w) => match wbool(w) { Some(b) => Some(Dec { v: V::Bool(b), o: o + 32 }), None => None }, None => None },
        ParamType::FixedBytes(n) => match rdb(d, o, n as int) { Some(b) => Some(Dec { v: V::FixedBytes(b), o: o + 32 }), None => None },
        ParamType::Bytes => match rdlb(d, o) { Some(b) => Some(Dec { v: V::Bytes(b), o: o + 32 }), None => None },
        ParamType::String => match rdlb(d, o) { Some(b) => Some(Dec { v: V::Str(lossy(b)), o: o + 32 }), None => None },
        ParamType::Array(t) => match rdn(d, o) {
            Some(p) => match rdn(d, p) {
                Some(n) => match rep(*t, suffix(d, p + 32), 0, n) { Some(r) => Some(Dec { v: V::Arr(r.vs), o: o + 32 }), None => None },
                None => None },
            None => None },
        ParamType::FixedArray(t, n) =>
            if dynt(*t) {
                match rdn(d, o) {
                    Some(p) => if p > d.len() { None } else { match rep(*t, suffix(d, p), 0, n as int) { Some(r) => Some(Dec { v: V::FArr(r.vs), o: o + 32 }), None => None } },
                    None => None }
            } else { match rep(*t, d, o, n as int) { Some(r) => Some(Dec { v: V::FArr(r.vs), o: r.o }), None => None } },
        ParamType::Tuple(ts) =>
            if dynt(ty) {
                match rdn(d, o) {
                    Some(p) => if p > d.len() { None } else { match each(ts@, suffix(d, p), 0, ts@.len() as int) { Some(r) => Some(Dec { v: V::Tup(r.vs), o: o + 32 }), None => None } },
                    None => None }
            } else { match each(ts@, d, o, ts@.len() as int) { Some(r) => Some(Dec { v: V::Tup(r.vs), o: r.o }), None => None } },
        }),
{ reveal_with_fuel(dec, 3); reveal_with_fuel(rep, 3); reveal_with_fuel(each, 3); }
pub broadcast proof fn lemma_rep_0(ty: ParamType, d: Seq<u8>, o: int, n: int)
    requires n <= 0,
    ensures #[trigger] rep(ty, d, o, n) == Some(Decs { vs: Seq::empty(), o }),
{ reveal_with_fuel(rep, 2); }
pub proof fn lemma_rep_step(ty: ParamType, d: Seq<u8>, o: int, i: int, j: int)
    requires j == i + 1, i >= 0,
    ensures  rep(ty, d, o, j) ==
        match rep(ty, d, o, i) {
            Some(r) => match dec(ty, d, r.o) { Some(x) => Some(Decs { vs: r.vs.push(x.v), o: x.o }), None => None },
            None => None },
{ reveal_with_fuel(rep, 3); reveal_with_fuel(dec, 3); }
/// what fails for some of the elements fails for more of them
pub proof fn lemma_rep_none(ty: ParamType, d: Seq<u8>, o: int, i: int, j: int)
    requires i <= j, rep(ty, d, o, i) is None,
    ensures  rep(ty, d, o, j) is None,
    decreases j - i
{ if i < j { lemma_rep_none(ty, d, o, i, j - 1); if j > 0 { lemma_rep_step(ty, d, o, j - 1, j); } else { lemma_rep_0(ty, d, o, i); } } }
pub broadcast proof fn lemma_each_0(tys: Seq<ParamType>, d: Seq<u8>, o: int, n: int)
    requires n <= 0,
    ensures #[trigger] each(tys, d, o, n) == Some(Decs { vs: Seq::empty(), o }),
{ reveal_with_fuel(each, 2); }
pub proof fn lemma_each_step(tys: Seq<ParamType>, d: Seq<u8>, o: int, i: int, j: int)
    requires j == i + 1, i >= 0, j <= tys.len(),
    ensures  each(tys, d, o, j) ==
        match each(tys, d, o, i) {
            Some(r) => match dec(tys[i], d, r.o) { Some(x) => Some(Decs { vs: r.vs.push(x.v), o: x.o }), None => None },
            None => None },
{ reveal_with_fuel(each, 3); reveal_with_fuel(dec, 3); }
pub proof fn lemma_each_none(tys: Seq<ParamType>, d: Seq<u8>, o: int, i: int, j: int)
    requires i <= j, j <= tys.len(), each(tys, d, o, i) is None,
    ensures  each(tys, d, o, j) is None,
    decreases j - i
{ if i < j { lemma_each_none(tys, d, o, i, j - 1); if j > 0 { lemma_each_step(tys, d, o, j - 1, j); } else { lemma_each_0(tys, d, o, i); } } }
pub broadcast group group_dec { lemma_rep_0, lemma_each_0 }

pub broadcast proof fn lemma_sub_len(d: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= d.len(),
    ensures #[trigger] d.subrange(a, b).len() == b - a,
{ }
pub broadcast proof fn lemma_sub_sub(d: Seq<u8>, a: int, b: int, e: int, f: int)
    requires 0 <= a <= b <= d.len(), 0 <= e <= f <= b - a,
    ensures #[trigger] d.subrange(a, b).subrange(e, f) == d.subrange(a + e, a + f),
{ assert(d.subrange(a, b).subrange(e, f) =~= d.subrange(a + e, a + f)); }
pub broadcast group group_sub { lemma_sub_len, lemma_sub_sub }
pub proof fn lemma_shifts()
    ensures
        forall|x: usize| x < 256 ==> #[trigger] (x << 24) == x * 0x1000000,
        forall|x: usize| x < 256 ==> #[trigger] (x << 16) == x * 0x10000,
        forall|x: usize| x < 256 ==> #[trigger] (x << 8) == x * 0x100,
{
    assert forall|x: usize| x < 256 implies #[trigger] (x << 24) == x * 0x1000000 by { assert(x < 256 ==> (x << 24) == x * 0x1000000) by (bit_vector); }
    assert forall|x: usize| x < 256 implies #[trigger] (x << 16) == x * 0x10000 by { assert(x < 256 ==> (x << 16) == x * 0x10000) by (bit_vector); }
    assert forall|x: usize| x < 256 implies #[trigger] (x << 8) == x * 0x100 by { assert(x < 256 ==> (x << 8) == x * 0x100) by (bit_vector); }
}
/// one step of a loop over n elements of one type
pub proof fn step_rep(ty: ParamType, d: Seq<u8>, o: int, i: int, n: int)
    requires 0 <= i < n,
    ensures
        rep(ty, d, o, i + 1) == (match rep(ty, d, o, i) {
            Some(r) => match dec(ty, d, r.o) { Some(x) => Some(Decs { vs: r.vs.push(x.v), o: x.o }), None => None },
            None => None }),
        rep(ty, d, o, i + 1) is None ==> rep(ty, d, o, n) is None,
{ lemma_rep_step(ty, d, o, i, i + 1); if rep(ty, d, o, i + 1) is None { lemma_rep_none(ty, d, o, i + 1, n); } }
pub proof fn step_each(tys: Seq<ParamType>, d: Seq<u8>, o: int, i: int)
    requires 0 <= i < tys.len(),
    ensures
        each(tys, d, o, i + 1) == (match each(tys, d, o, i) {
            Some(r) => match dec(tys[i], d, r.o) { Some(x) => Some(Decs { vs: r.vs.push(x.v), o: x.o }), None => None },
            None => None }),
        each(tys, d, o, i + 1) is None ==> each(tys, d, o, tys.len() as int) is None,
{ lemma_each_step(tys, d, o, i, i + 1); if each(tys, d, o, i + 1) is None { lemma_each_none(tys, d, o, i + 1, tys.len() as int); } }

} // verus!
