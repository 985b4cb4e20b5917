// Topic filters.
verus! {
impl VxClone for Token {
    open spec fn vx_clone_ok(&self, r: Token) -> bool { r == *self }
    #[verifier::external_body] fn vx_clone(&self) -> Token { unimplemented!() }
}
pub open spec fn scalar(v: V) -> bool { v is Address || v is FixedBytes || v is Int || v is Uint || v is Bool }
/// zeros up to a multiple of 32 bytes
#[verifier::opaque]
pub open spec fn rpad(b: Seq<u8>) -> Seq<u8> { zpad(b) }
/// elements one after the other, padded to words, without offsets and lengths
#[verifier::opaque]
pub open spec fn in_place(v: V) -> Seq<u8>
    decreases v, 0int
{
    match v {
        V::Bytes(b) => rpad(b),
        V::Str(s) => rpad(vstd::utf8::encode_utf8(s)),
        V::Arr(vs) => in_places(vs, vs.len() as int),
        V::FArr(vs) => in_places(vs, vs.len() as int),
        V::Tup(vs) => in_places(vs, vs.len() as int),
        _ => enc(v),
    }
}
#[verifier::opaque]
pub open spec fn in_places(vs: Seq<V>, n: int) -> Seq<u8>
    decreases vs, n
{ if n <= 0 || n > vs.len() { Seq::empty() } else { in_places(vs, n - 1) + in_place(vs[n - 1]) } }
/// the topic the EVM logs for a value
pub open spec fn topic_of(v: V) -> Seq<u8> {
    match v {
        V::Bytes(b) => keccak(b),
        V::Str(s) => keccak(vstd::utf8::encode_utf8(s)),
        V::Arr(_) | V::FArr(_) | V::Tup(_) => keccak(in_place(v)),
        _ => enc(v),
    }
}
/// (there is no bytes<M> with M > 32)
#[verifier::opaque]
pub open spec fn topic_is(v: V, w: Seq<u8>) -> bool { (v is FixedBytes ==> v->FixedBytes_0.len() <= 32) ==> w == topic_of(v) }
/// the encoder's length limit, for the only values it is applied to
#[verifier::opaque]
pub open spec fn leaves_fit(v: V) -> bool
    decreases v
{
    match v {
        V::FixedBytes(b) => b.len() < 0xffff_ff00,
        V::Arr(vs) => forall|i: int| 0 <= i < vs.len() ==> leaves_fit(#[trigger] vs[i]),
        V::FArr(vs) => forall|i: int| 0 <= i < vs.len() ==> leaves_fit(#[trigger] vs[i]),
        V::Tup(vs) => forall|i: int| 0 <= i < vs.len() ==> leaves_fit(#[trigger] vs[i]),
        _ => true,
    }
}
pub open spec fn topic_fits(t: Topic<Token>) -> bool {
    match t { Topic::Any => true, Topic::This(t) => leaves_fit(tv(t)), Topic::OneOf(ts) => forall|i: int| 0 <= i < ts@.len() ==> leaves_fit(tv(#[trigger] ts@[i])) }
}
pub open spec fn conv_ok(t: Topic<Token>, k: Option<&ParamType>) -> bool {
    match t { Topic::Any => true, Topic::This(t) => k is Some && oftype(tv(t), *k->0), Topic::OneOf(ts) => k is Some && forall|i: int| 0 <= i < ts@.len() ==> oftype(tv(#[trigger] ts@[i]), *k->0) }
}
pub open spec fn topics_are(ts: Seq<Token>, hs: Seq<H256>, n: int) -> bool { hs.len() == n && forall|i: int| 0 <= i < n ==> topic_is(tv(ts[i]), (#[trigger] hs[i]).b@) }
pub open spec fn conv_is(t: Topic<Token>, r: Topic<Hash>) -> bool {
    match t {
        Topic::Any => r is Any,
        Topic::This(t) => r is This && topic_is(tv(t), r->This_0.b@),
        Topic::OneOf(ts) => r is OneOf && r->OneOf_0@.len() == ts@.len() && forall|i: int| 0 <= i < ts@.len() ==> topic_is(tv(ts@[i]), (#[trigger] r->OneOf_0@[i]).b@),
    }
}
pub open spec fn nth(e: Event, i: int) -> Option<&'static ParamType> {
    let ps = all_sel(e.inputs@, true);
    if i < ps.len() { Some(&ps[i].kind) } else { None }
}
pub open spec fn filter_ok(e: Event, raw: RawTopicFilter) -> bool { conv_ok(raw.topic0, nth(e, 0)) && conv_ok(raw.topic1, nth(e, 1)) && conv_ok(raw.topic2, nth(e, 2)) }
pub open spec fn filter_is(e: Event, raw: RawTopicFilter, r: TopicFilter) -> bool {
    if e.anonymous { conv_is(raw.topic0, r.topic0) && conv_is(raw.topic1, r.topic1) && conv_is(raw.topic2, r.topic2) && r.topic3 is Any }
    else { r.topic0 is This && r.topic0->This_0.b@ == sig_hash(e.name@, tys(ekinds(e.inputs@))) && conv_is(raw.topic0, r.topic1) && conv_is(raw.topic1, r.topic2) && conv_is(raw.topic2, r.topic3) }
}

pub broadcast proof fn lemma_in_places_0(vs: Seq<V>) ensures #[trigger] in_places(vs, 0) == Seq::<u8>::empty() { reveal_with_fuel(in_places, 2); }
pub proof fn lemma_in_places_step(vs: Seq<V>, i: int)
    ensures 0 <= i < vs.len() ==> in_places(vs, i + 1) == in_places(vs, i) + in_place(vs[i]),
{ reveal_with_fuel(in_places, 3); reveal_with_fuel(in_place, 3); }
pub proof fn lemma_up32(n: int)
    requires n >= 0,
    ensures (n + 31) / 32 * 32 >= n, ((n + 31) / 32 * 32) % 32 == 0, n % 32 == 0 ==> (n + 31) / 32 * 32 == n, n % 32 != 0 ==> (n + 32) / 32 * 32 == (n + 31) / 32 * 32,
{
    let q = n / 32; let r = n % 32;
    assert(n == 32 * q + r && 0 <= r < 32) by (nonlinear_arith) requires q == n / 32, r == n % 32;
    let u = (n + 31) / 32;
    assert(r == 0 ==> u == q) by (nonlinear_arith) requires u == (n + 31) / 32, n == 32 * q + r;
    assert(r > 0 ==> u == q + 1) by (nonlinear_arith) requires u == (n + 31) / 32, n == 32 * q + r, 0 <= r < 32;
    assert((n + 32) / 32 == q + 1) by (nonlinear_arith) requires n == 32 * q + r, 0 <= r < 32;
    assert((u * 32) % 32 == 0) by (nonlinear_arith);
}
pub broadcast proof fn lemma_rpad(s: Seq<u8>)
    ensures #![trigger rpad(s)]
        s.len() % 32 == 0 ==> rpad(s) == s,
        rpad(s).len() % 32 == 0, rpad(s).len() >= s.len(),
{
    reveal(rpad);
    lemma_up32(s.len() as int);
    if s.len() % 32 == 0 { assert(zpad_len(s.len()) == s.len()); assert(zpad(s) =~= s); }
    assert(zpad(s).len() == zpad_len(s.len()));
}
pub broadcast proof fn lemma_rpad_push(s: Seq<u8>)
    requires s.len() % 32 != 0,
    ensures #[trigger] rpad(s.push(0)) == rpad(s),
{
    reveal(rpad);
    lemma_up32(s.len() as int);
    assert(zpad_len(s.len()) == zpad_len(s.len() + 1));
    assert(zpad(s.push(0)) =~= zpad(s));
}
pub broadcast proof fn lemma_rpad_resize(s: Seq<u8>, n: nat)
    requires s.len() + n == (s.len() + 31) / 32 * 32,
    ensures #[trigger] (s + reps(0u8, n)) == rpad(s),
{ reveal(rpad); reveal(reps); assert(s + reps(0u8, n) =~= zpad(s)); }
pub broadcast group group_filter { lemma_rpad_resize, lemma_in_places_0, lemma_rpad, lemma_rpad_push, lemma_sel_0, lemma_one }
/// a list of one value type
pub proof fn lemma_enc_one(v: V)
    requires scalar(v),
    ensures enc_list(seq![v]) == enc(v), leaves_fit(v) && enc(v).len() < 0x1_0000_0000 ==> list_fits(seq![v]),
{
    let vs = seq![v];
    reveal(lay); reveal_with_fuel(heads, 3); reveal_with_fuel(tails, 3); reveal_with_fuel(heads_size, 3);
    lemma_items_len(vs); lemma_items_index2(vs, 0);
    reveal_with_fuel(dynv, 2);
    assert(enc_list(vs) =~= enc(v));
    reveal_with_fuel(leaves_fit, 2); reveal(list_fits); reveal_with_fuel(counts_ok, 2);
    lemma_enc(v);
    if v is FixedBytes { assert(zpad(v->FixedBytes_0).len() == zpad_len(v->FixedBytes_0.len())); }
}
pub open spec fn elems(t: Token) -> Seq<Token> { match t { Token::Array(ts) | Token::FixedArray(ts) | Token::Tuple(ts) => ts@, _ => Seq::empty() } }
pub open spec fn is_list(t: Token) -> bool { t is Array || t is FixedArray || t is Tuple }
pub proof fn lemma_in_place_def(v: V)
    ensures in_place(v) == (match v {
        V::Bytes(b) => rpad(b),
        V::Str(s) => rpad(vstd::utf8::encode_utf8(s)),
        V::Arr(vs) => in_places(vs, vs.len() as int),
        V::FArr(vs) => in_places(vs, vs.len() as int),
        V::Tup(vs) => in_places(vs, vs.len() as int),
        _ => enc(v),
    }),
{ reveal_with_fuel(in_place, 3); reveal_with_fuel(in_places, 3); }
pub proof fn lemma_zpad_len(b: Seq<u8>) ensures zpad(b).len() == zpad_len(b.len()), zpad(b).len() % 32 == 0, zpad(b).len() < b.len() + 32 { }
pub proof fn lemma_in_place(t: Token)
    ensures
        t is Bytes ==> in_place(tv(t)) == rpad(t->Bytes_0@),
        t is String ==> in_place(tv(t)) == rpad(vstd::utf8::encode_utf8(t->String_0@)),
        is_list(t) ==> in_place(tv(t)) == in_places(tvs(elems(t)), elems(t).len() as int),
        scalar(tv(t)) ==> in_place(tv(t)) == enc(tv(t)) && enc_list(seq![tv(t)]) == enc(tv(t)) && enc_list(tvs(seq![t])) == enc(tv(t)) && (leaves_fit(tv(t)) ==> list_fits(tvs(seq![t]))),
        in_place(tv(t)).len() % 32 == 0,
        leaves_fit(tv(t)) ==> forall|i: int| 0 <= i < elems(t).len() ==> leaves_fit(tv(#[trigger] elems(t)[i])),
    decreases t, 1int
{
    lemma_in_place_def(tv(t)); reveal_with_fuel(leaves_fit, 2);
    broadcast use group_tv;
    broadcast use lemma_rpad;
    if scalar(tv(t)) {
        lemma_enc(tv(t));
        if t is FixedBytes { lemma_zpad_len(t->FixedBytes_0@); }
        assert(leaves_fit(tv(t)) ==> enc(tv(t)).len() < 0x1_0000_0000);
        lemma_enc_one(tv(t)); assert(tvs(seq![t]) =~= seq![tv(t)]); lemma_enc(tv(t));
    }
    if is_list(t) {
        assert(tv(t) is Arr ==> tv(t)->Arr_0 == tvs(elems(t)));
        assert(tv(t) is FArr ==> tv(t)->FArr_0 == tvs(elems(t)));
        assert(tv(t) is Tup ==> tv(t)->Tup_0 == tvs(elems(t)));
        assert(tvs(elems(t)).len() == elems(t).len());
        if t is Array { lemma_in_places(t->Array_0@, elems(t).len() as int, t); }
        if t is FixedArray { lemma_in_places(t->FixedArray_0@, elems(t).len() as int, t); }
        if t is Tuple { lemma_in_places(t->Tuple_0@, elems(t).len() as int, t); }
        if leaves_fit(tv(t)) {
            assert forall|i: int| 0 <= i < elems(t).len() implies leaves_fit(tv(#[trigger] elems(t)[i])) by { assert(leaves_fit(tvs(elems(t))[i])); }
        }
    }
}
pub proof fn lemma_in_places(ts: Seq<Token>, n: int, t: Token)
    requires 0 <= n <= ts.len(), is_list(t), ts == elems(t),
    ensures in_places(tvs(ts), n).len() % 32 == 0,
    decreases t, 0int, n
{
    broadcast use group_tv;
    if n > 0 {
        lemma_in_places(ts, n - 1, t);
        lemma_in_places_step(tvs(ts), n - 1);
        assert(decreases_to!(t => ts[n - 1]));
        lemma_in_place(ts[n - 1]);
    } else { lemma_in_places_0(tvs(ts)); }
}
pub broadcast proof fn lemma_one(s: Seq<Token>)
    requires s.len() == 1, scalar(tv(s[0])),
    ensures #![trigger enc_list(tvs(s))] #![trigger list_fits(tvs(s))] enc_list(tvs(s)) == enc(tv(s[0])), leaves_fit(tv(s[0])) ==> list_fits(tvs(s)),
{ lemma_in_place(s[0]); assert(s =~= seq![s[0]]); }
pub proof fn lemma_topic_of(t: Token)
    ensures
        t is Bytes ==> topic_of(tv(t)) == keccak(t->Bytes_0@),
        t is String ==> topic_of(tv(t)) == keccak(vstd::utf8::encode_utf8(t->String_0@)),
        is_list(t) ==> topic_of(tv(t)) == keccak(in_place(tv(t))),
        scalar(tv(t)) ==> topic_of(tv(t)) == enc(tv(t)) && enc_list(tvs(seq![t])) == enc(tv(t)) && (leaves_fit(tv(t)) ==> list_fits(tvs(seq![t]))),
        t is FixedBytes && t->FixedBytes_0@.len() <= 32 ==> enc(tv(t)).len() == 32,
        t is Address || t is Int || t is Uint || t is Bool ==> enc(tv(t)).len() == 32,
{
    broadcast use group_tv;
    lemma_in_place(t); lemma_enc(tv(t));
}
} // verus!
