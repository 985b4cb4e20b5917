// Model of the encoder's intermediate form (encoder.rs, enum Mediate).
verus! {

pub open spec fn mdyn(m: Mediate) -> bool {
    match m { Mediate::Raw(_) | Mediate::RawTuple(_) => false, _ => true }
}
/// the bytes a mediate stands for
#[verifier::opaque]
pub open spec fn mbody(m: Mediate) -> Seq<u8>
    decreases m
{
    match m {
        Mediate::Raw(ws) => flat(ws@),
        Mediate::Prefixed(ws) => flat(ws@),
        Mediate::PrefixedArray(ms) => lay(mitems(ms@)),
        Mediate::RawTuple(ms) => lay(mitems(ms@)),
        Mediate::PrefixedTuple(ms) => lay(mitems(ms@)),
        Mediate::PrefixedArrayWithLength(ms) => word(ms@.len()) + lay(mitems(ms@)),
    }
}
#[verifier::opaque]
pub open spec fn mitems(ms: Seq<Mediate>) -> Seq<Item>
    decreases ms
{ Seq::new(ms.len(), |i: int| if 0 <= i < ms.len() { Item { dy: mdyn(ms[i]), body: mbody(ms[i]) } } else { arbitrary() }) }
/// what the encoder builds: all of it fits, raw tuples have no dynamic members
#[verifier::opaque]
pub open spec fn mok(m: Mediate) -> bool
    decreases m
{
    mbody(m).len() < 0x1_0000_0000 && match m {
        Mediate::Raw(_) | Mediate::Prefixed(_) => true,
        Mediate::PrefixedArray(ms) => forall|i: int| 0 <= i < ms@.len() ==> mok(#[trigger] ms@[i]),
        Mediate::PrefixedTuple(ms) => forall|i: int| 0 <= i < ms@.len() ==> mok(#[trigger] ms@[i]),
        Mediate::PrefixedArrayWithLength(ms) => ms@.len() < 0x1_0000_0000 && forall|i: int| 0 <= i < ms@.len() ==> mok(#[trigger] ms@[i]),
        Mediate::RawTuple(ms) => forall|i: int| 0 <= i < ms@.len() ==> mok(#[trigger] ms@[i]) && !mdyn(ms@[i]),
    }
}
pub open spec fn msok(ms: Seq<Mediate>) -> bool { forall|i: int| 0 <= i < ms.len() ==> mok(#[trigger] ms[i]) }
pub open spec fn msstatic(ms: Seq<Mediate>) -> bool { forall|i: int| 0 <= i < ms.len() ==> !mdyn(#[trigger] ms[i]) }
pub broadcast proof fn lemma_mbody(m: Mediate)
    ensures #![trigger mbody(m)]
        m is Raw ==> mbody(m) == flat(m->Raw_0@),
        m is Prefixed ==> mbody(m) == flat(m->Prefixed_0@),
        m is PrefixedArray ==> mbody(m) == lay(mitems(m->PrefixedArray_0@)),
        m is RawTuple ==> mbody(m) == lay(mitems(m->RawTuple_0@)),
        m is PrefixedTuple ==> mbody(m) == lay(mitems(m->PrefixedTuple_0@)),
        m is PrefixedArrayWithLength ==> mbody(m) == word(m->PrefixedArrayWithLength_0@.len()) + lay(mitems(m->PrefixedArrayWithLength_0@)),
{ reveal_with_fuel(mbody, 3); reveal_with_fuel(mitems, 3); }
pub broadcast proof fn lemma_mok(m: Mediate)
    ensures #![trigger mok(m)]
        mok(m) ==> mbody(m).len() < 0x1_0000_0000,
        m is Raw || m is Prefixed ==> mok(m) == (mbody(m).len() < 0x1_0000_0000),
        m is PrefixedArray ==> mok(m) == (mbody(m).len() < 0x1_0000_0000 && msok(m->PrefixedArray_0@)),
        m is PrefixedTuple ==> mok(m) == (mbody(m).len() < 0x1_0000_0000 && msok(m->PrefixedTuple_0@)),
        m is PrefixedArrayWithLength ==> mok(m) == (mbody(m).len() < 0x1_0000_0000 && m->PrefixedArrayWithLength_0@.len() < 0x1_0000_0000 && msok(m->PrefixedArrayWithLength_0@)),
        m is RawTuple ==> mok(m) == (mbody(m).len() < 0x1_0000_0000 && msok(m->RawTuple_0@) && msstatic(m->RawTuple_0@)),
{ reveal_with_fuel(mok, 2); }
pub broadcast proof fn lemma_mitems_len(ms: Seq<Mediate>) ensures (#[trigger] mitems(ms)).len() == ms.len() { reveal_with_fuel(mbody, 3); reveal_with_fuel(mitems, 3); }
pub broadcast group group_m { lemma_mbody, lemma_mok, lemma_mitems_len, lemma_mitems_index, lemma_mitems_index2, lemma_static_mitems, lemma_mitems }
/// without dynamic members there are no tails, and offsets do not matter
pub proof fn lemma_static_lay(xs: Seq<Item>, base: nat, base2: nat, n: int)
    requires 0 <= n <= xs.len(), forall|i: int| 0 <= i < n ==> !(#[trigger] xs[i]).dy,
    ensures tails(xs, n) == Seq::<u8>::empty(), heads(xs, base, n) == heads(xs, base2, n),
    decreases n
{
    reveal(tails); reveal(heads);
    if n > 0 { lemma_static_lay(xs, base, base2, n - 1); }
}
pub broadcast proof fn lemma_static_mitems(ms: Seq<Mediate>)
    requires msstatic(ms),
    ensures
        #[trigger] lay(mitems(ms)) == heads(mitems(ms), 0, ms.len() as int), tails(mitems(ms), ms.len() as int).len() == 0,
        lay(mitems(ms)).len() == heads_size(mitems(ms), ms.len() as int),
{
    let n = ms.len() as int;
    reveal(lay); reveal_with_fuel(mbody, 3); reveal_with_fuel(mitems, 3);
    lemma_static_lay(mitems(ms), 0, heads_size(mitems(ms), n), n);
    lemma_lay_len(mitems(ms));
    assert(lay(mitems(ms)) =~= heads(mitems(ms), 0, n));
}
pub broadcast proof fn lemma_mitems_index(ms: Seq<Mediate>, i: int)
    requires 0 <= i < ms.len(),
    ensures #![trigger mitems(ms), ms[i]] mitems(ms)[i] == (Item { dy: mdyn(ms[i]), body: mbody(ms[i]) }),
{ reveal_with_fuel(mbody, 3); reveal_with_fuel(mitems, 3); }
pub broadcast proof fn lemma_mitems_index2(ms: Seq<Mediate>, i: int)
    requires 0 <= i < ms.len(),
    ensures #![trigger mitems(ms)[i]] mitems(ms)[i] == (Item { dy: mdyn(ms[i]), body: mbody(ms[i]) }),
{ reveal_with_fuel(mbody, 3); reveal_with_fuel(mitems, 3); }
#[verifier::opaque]
pub open spec fn mof(m: Mediate, v: V) -> bool { mok(m) && mdyn(m) == dynv(v) && mbody(m) == enc(v) }
pub broadcast proof fn lemma_mof(m: Mediate, v: V)
    ensures #[trigger] mof(m, v) == (mok(m) && mdyn(m) == dynv(v) && mbody(m) == enc(v)),
{ reveal(mof); }
pub open spec fn msof(ms: Seq<Mediate>, vs: Seq<V>) -> bool {
    ms.len() == vs.len() && forall|i: int| 0 <= i < ms.len() ==> mof(#[trigger] ms[i], vs[i])
}
/// mediates of values lay out as the values do
pub broadcast proof fn lemma_mitems(ms: Seq<Mediate>, vs: Seq<V>)
    requires msof(ms, vs),
    ensures #![trigger mitems(ms), items(vs)] mitems(ms) == items(vs),
{
    reveal_with_fuel(mbody, 3); reveal_with_fuel(mitems, 3); reveal_with_fuel(enc, 3); reveal_with_fuel(items, 3); reveal(mof);
    assert forall|i: int| 0 <= i < ms.len() implies mitems(ms)[i] == items(vs)[i] by { assert(mof(ms[i], vs[i])); }
    assert(mitems(ms) =~= items(vs));
}
/// every member of a list that fits, fits
pub broadcast proof fn lemma_fits_member(vs: Seq<V>, i: int)
    requires list_fits(vs), 0 <= i < vs.len(),
    ensures #![trigger list_fits(vs), vs[i]] fits(vs[i]),
{
    reveal(fits); reveal(list_fits); reveal_with_fuel(enc, 3); reveal_with_fuel(items, 3);
    lemma_item_bound(items(vs), i);
}
pub broadcast proof fn lemma_fits(v: V)
    ensures #![trigger fits(v)]
        fits(v) ==> enc(v).len() < 0x1_0000_0000,
        fits(v) && v is Arr ==> list_fits(v->Arr_0) && v->Arr_0.len() < 0x1_0000_0000,
        v is FArr ==> fits(v) == list_fits(v->FArr_0),
        v is Tup ==> fits(v) == list_fits(v->Tup_0),
{ reveal(fits); reveal(list_fits); reveal_with_fuel(counts_ok, 2); lemma_enc(v); }
pub broadcast proof fn lemma_list_fits(vs: Seq<V>)
    ensures #![trigger list_fits(vs)] list_fits(vs) ==> lay(items(vs)).len() < 0x1_0000_0000,
{ reveal(list_fits); }
pub broadcast group group_fits { lemma_fits_member, lemma_fits, lemma_list_fits, lemma_mof }

// padding
pub proof fn lemma_zpad_full(b: Seq<u8>, i: int)
    ensures b.len() <= 32 * i < b.len() + 32 ==> zpad(b).take(32 * i) == zpad(b),
{
    if b.len() <= 32 * i < b.len() + 32 {
        assert(zpad_len(b.len()) == 32 * i) by (nonlinear_arith) requires b.len() <= 32 * i < b.len() + 32, zpad_len(b.len()) == (b.len() + 31) / 32 * 32;
        assert(zpad(b).take(32 * i) =~= zpad(b));
    }
}
pub proof fn lemma_zpad_step(b: Seq<u8>, i: int)
    requires 0 <= i, 32 * i < b.len(),
    ensures
        32 * i + 32 <= b.len() ==> zpad(b).take(32 * (i + 1)) == zpad(b).take(32 * i) + (b.subrange(32 * i, 32 * i + 32) + zeros(0)),
        32 * i + 32 >= b.len() ==> zpad(b).take(32 * (i + 1)) == zpad(b).take(32 * i) + (b.subrange(32 * i, b.len() as int) + zeros((32 * i + 32 - b.len()) as nat)),
{
    if 32 * i + 32 <= b.len() {
        assert(zpad(b).take(32 * (i + 1)) =~= zpad(b).take(32 * i) + (b.subrange(32 * i, 32 * i + 32) + zeros(0)));
    }
    if 32 * i + 32 >= b.len() {
        assert(zpad_len(b.len()) == 32 * i + 32) by (nonlinear_arith) requires 32 * i < b.len() <= 32 * i + 32, zpad_len(b.len()) == (b.len() + 31) / 32 * 32;
        assert(zpad(b).take(32 * (i + 1)) =~= zpad(b).take(32 * i) + (b.subrange(32 * i, b.len() as int) + zeros((32 * i + 32 - b.len()) as nat)));
    }
}

} // verus!
