// Values.
verus! {

// ---------------------------------------------------------------- values
pub enum V {
    Address(Seq<u8>), FixedBytes(Seq<u8>), Bytes(Seq<u8>), Int(Seq<u8>), Uint(Seq<u8>), Bool(bool), Str(Seq<char>),
    FArr(Seq<V>), Arr(Seq<V>), Tup(Seq<V>),
}

/// the value of a token
#[verifier::opaque]
pub open spec fn tv(t: Token) -> V
    decreases t
{
    match t {
        Token::Address(a) => V::Address(a.b@),
        Token::FixedBytes(b) => V::FixedBytes(b@),
        Token::Bytes(b) => V::Bytes(b@),
        Token::Int(i) => V::Int(i.be@),
        Token::Uint(i) => V::Uint(i.be@),
        Token::Bool(b) => V::Bool(b),
        Token::String(s) => V::Str(s@),
        Token::FixedArray(ts) => V::FArr(Seq::new(ts@.len(), |i: int| if 0 <= i < ts@.len() { tv(ts@[i]) } else { arbitrary() })),
        Token::Array(ts) => V::Arr(Seq::new(ts@.len(), |i: int| if 0 <= i < ts@.len() { tv(ts@[i]) } else { arbitrary() })),
        Token::Tuple(ts) => V::Tup(Seq::new(ts@.len(), |i: int| if 0 <= i < ts@.len() { tv(ts@[i]) } else { arbitrary() })),
    }
}
#[verifier::opaque]
pub open spec fn tvs(ts: Seq<Token>) -> Seq<V> { Seq::new(ts.len(), |i: int| tv(ts[i])) }
/// one level of tv
pub broadcast proof fn lemma_tv(t: Token)
    ensures #![trigger tv(t)]
        t is Address ==> tv(t) == V::Address(t->Address_0.b@),
        t is FixedBytes ==> tv(t) == V::FixedBytes(t->FixedBytes_0@),
        t is Bytes ==> tv(t) == V::Bytes(t->Bytes_0@),
        t is Int ==> tv(t) == V::Int(t->Int_0.be@),
        t is Uint ==> tv(t) == V::Uint(t->Uint_0.be@),
        t is Bool ==> tv(t) == V::Bool(t->Bool_0),
        t is String ==> tv(t) == V::Str(t->String_0@),
        t is FixedArray ==> tv(t) == V::FArr(tvs(t->FixedArray_0@)) && tv(t)->FArr_0 == tvs(t->FixedArray_0@),
        t is Array ==> tv(t) == V::Arr(tvs(t->Array_0@)) && tv(t)->Arr_0 == tvs(t->Array_0@),
        t is Tuple ==> tv(t) == V::Tup(tvs(t->Tuple_0@)) && tv(t)->Tup_0 == tvs(t->Tuple_0@),
{
    reveal(tv); reveal(tvs);
    match t {
        Token::FixedArray(ts) => { assert(tv(t)->FArr_0 =~= tvs(ts@)); }
        Token::Array(ts) => { assert(tv(t)->Arr_0 =~= tvs(ts@)); }
        Token::Tuple(ts) => { assert(tv(t)->Tup_0 =~= tvs(ts@)); }
        _ => {}
    }
}
pub broadcast proof fn lemma_tvs_len(ts: Seq<Token>) ensures (#[trigger] tvs(ts)).len() == ts.len() { reveal(tvs); }
pub broadcast proof fn lemma_tvs_push(ts: Seq<Token>, t: Token) ensures #[trigger] tvs(ts.push(t)) == tvs(ts).push(tv(t)) {
    reveal(tvs);
    assert(tvs(ts.push(t)) =~= tvs(ts).push(tv(t)));
}
pub broadcast proof fn lemma_tvs_empty(ts: Seq<Token>) requires ts.len() == 0 ensures #[trigger] tvs(ts) == Seq::<V>::empty() {
    reveal(tvs);
    assert(tvs(ts) =~= Seq::<V>::empty());
}
pub broadcast proof fn lemma_tvs_index(ts: Seq<Token>, i: int) requires 0 <= i < ts.len() ensures #![trigger tvs(ts), ts[i]] tvs(ts)[i] == tv(ts[i]) { reveal(tvs); }
pub broadcast proof fn lemma_tvs_index2(ts: Seq<Token>, i: int) requires 0 <= i < ts.len() ensures #![trigger tvs(ts)[i]] tvs(ts)[i] == tv(ts[i]) { reveal(tvs); }
pub broadcast group group_tv { lemma_tvs_len, lemma_tvs_index, lemma_tvs_index2, lemma_tv, lemma_tvs_push, lemma_tvs_empty }

} // verus!
