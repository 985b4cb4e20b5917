// Writing parameters as JSON.
verus! {
/// what can be written: the values it may be written as
pub trait VxSerT { spec fn writes(&self, j: J) -> bool; }
impl VxSerT for String { open spec fn writes(&self, j: J) -> bool { j == J::Text(self@) } }
impl VxSerT for str { open spec fn writes(&self, j: J) -> bool { j == J::Text(self@) } }
impl VxSerT for bool { open spec fn writes(&self, j: J) -> bool { j == J::Flag(*self) } }
impl<T: VxSerT + ?Sized> VxSerT for &T { open spec fn writes(&self, j: J) -> bool { (**self).writes(j) } }
impl<T: VxSerT> VxSerT for Option<T> { open spec fn writes(&self, j: J) -> bool { match self { Some(x) => x.writes(j), None => j is Null } } }
/// the serialize functions of these are under contract below
impl<'a> VxSerT for SerializeableParam<'a> { open spec fn writes(&self, j: J) -> bool { tparam(j) == Some(ty(*self.0)) } }
impl<'a> VxSerT for SerializeableParamVec<'a> { open spec fn writes(&self, j: J) -> bool { tlist(j) == Some(tys(self.0@)) } }

#[verifier::external_body]
pub struct VxOut { s: String }
impl VxOut { pub uninterp spec fn j(&self) -> J; }
/// serde::Serializer and its parts, as those of serde_json that write to memory: they do not fail
#[verifier::external_body]
pub struct VxSer { s: String }
#[verifier::external_body]
pub struct VxSerMap { s: String }
#[verifier::external_body]
pub struct VxSerSeq { s: String }
impl VxSer {
    #[verifier::external_body] pub fn serialize_map(self, n: Option<usize>) -> (r: Result<VxSerMap, Error>) ensures r is Ok, r->Ok_0.ks() == Seq::<Seq<char>>::empty(), r->Ok_0.vs() == Seq::<J>::empty(), r->Ok_0.key() is None { unimplemented!() }
    #[verifier::external_body] pub fn serialize_seq(self, n: Option<usize>) -> (r: Result<VxSerSeq, Error>) ensures r is Ok, r->Ok_0.js() == Seq::<J>::empty() { unimplemented!() }
}
impl VxSerMap {
    pub uninterp spec fn ks(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn vs(&self) -> Seq<J>;
    /// a key without a value so far
    pub uninterp spec fn key(&self) -> Option<Seq<char>>;
    #[verifier::external_body] pub fn serialize_entry<K: VxTx + ?Sized, T: VxSerT + ?Sized>(&mut self, k: &K, v: &T) -> (r: Result<(), Error>)
        requires old(self).key() is None
        ensures r is Ok, final(self).key() is None, final(self).ks() == old(self).ks().push(k.tx()), final(self).vs() == old(self).vs().push(final(self).vs().last()), v.writes(final(self).vs().last()) { unimplemented!() }
    #[verifier::external_body] pub fn serialize_key<K: VxTx + ?Sized>(&mut self, k: &K) -> (r: Result<(), Error>)
        requires old(self).key() is None
        ensures r is Ok, final(self).key() == Some(k.tx()), final(self).ks() == old(self).ks(), final(self).vs() == old(self).vs() { unimplemented!() }
    #[verifier::external_body] pub fn serialize_value<T: VxSerT + ?Sized>(&mut self, v: &T) -> (r: Result<(), Error>)
        requires old(self).key() is Some
        ensures r is Ok, final(self).key() is None, final(self).ks() == old(self).ks().push(old(self).key()->0), final(self).vs() == old(self).vs().push(final(self).vs().last()), v.writes(final(self).vs().last()) { unimplemented!() }
    #[verifier::external_body] pub fn end(self) -> (r: Result<VxOut, Error>) requires self.key() is None ensures r is Ok, r->Ok_0.j() == J::Obj(self.ks(), self.vs()) { unimplemented!() }
}
impl VxSerSeq {
    pub uninterp spec fn js(&self) -> Seq<J>;
    #[verifier::external_body] pub fn serialize_element<T: VxSerT + ?Sized>(&mut self, v: &T) -> (r: Result<(), Error>)
        ensures r is Ok, final(self).js() == old(self).js().push(final(self).js().last()), v.writes(final(self).js().last()) { unimplemented!() }
    #[verifier::external_body] pub fn end(self) -> (r: Result<VxOut, Error>) ensures r is Ok, r->Ok_0.j() == J::List(self.js()) { unimplemented!() }
}

// ---------------------------------------------------------------- a type and its components
pub proof fn lemma_word_tuple() ensures rd("tuple"@) == Some(TY::Tup(Seq::empty()))
{
    reveal_strlit("address"); reveal_strlit("bytes"); reveal_strlit("int"); reveal_strlit("uint"); reveal_strlit("bool"); reveal_strlit("string"); reveal_strlit("tuple");
    lemma_rd("tuple"@);
    assert("tuple"@[0] == 't' && "bytes"@[0] == 'b' && "string"@[0] == 's');
}
/// the written name of a type gives the type but for the members of its tuple
pub proof fn lemma_short(t: TY)
    requires sized(t),
    ensures rd(tname(t, false)) is Some, tname(t, false).len() > 0,
        tup(t) is None ==> rd(tname(t, false)) == Some(t),
        tup(t) is Some ==> tup(rd(tname(t, false))->0) == Some(Seq::<TY>::empty()) && put(rd(tname(t, false))->0, tup(t)->0) == t,
    decreases t
{
    lemma_tname(t, false);
    reveal_with_fuel(sized, 2); reveal_with_fuel(tup, 2); reveal_with_fuel(put, 2);
    match t {
        TY::Int(n) | TY::Uint(n) | TY::FBytes(n) => { lemma_pnum(n); lemma_word_int(decimal(n)); lemma_word_uint(decimal(n)); lemma_word_bytes(decimal(n)); }
        TY::Arr(x) => {
            lemma_short(*x);
            let e = Seq::<char>::empty();
            reveal_strlit("[]"); reveal_strlit("["); reveal_strlit("]");
            assert(tname(t, false) =~= tname(*x, false) + "["@ + e + "]"@);
            lemma_suffix(tname(*x, false), e, tname(t, false));
            assert(rd(tname(t, false)) == Some(TY::Arr(Box::new(rd(tname(*x, false))->0))));
        }
        TY::FArr(x, n) => {
            lemma_short(*x);
            lemma_pnum(n);
            lemma_suffix(tname(*x, false), decimal(n), tname(t, false));
            assert(rd(tname(t, false)) == Some(TY::FArr(Box::new(rd(tname(*x, false))->0), n)));
        }
        TY::Tup(ts) => { lemma_word_tuple(); reveal_strlit("tuple"); }
        _ => { lemma_words(); reveal_strlit("address"); reveal_strlit("bytes"); reveal_strlit("bool"); reveal_strlit("string"); }
    }
}
/// the name and the components are read as the type
pub proof fn lemma_kind(p: ParamType)
    ensures forall|cs: Option<Seq<TY>>| (tup(ty(p)) is Some ==> cs == tup(ty(p))) ==> #[trigger] kind_of(Some(J::Text(tname(ty(p), false))), cs) == Some(ty(p)),
{
    lemma_sized(p); lemma_short(ty(p));
    let u = rd(tname(ty(p), false))->0;
    if tup(ty(p)) is Some { assert(Seq::<TY>::empty() + tup(ty(p))->0 =~= tup(ty(p))->0); }
}
pub proof fn lemma_tlist(js: Seq<J>, ts: Seq<TY>)
    ensures js.len() == ts.len() && (forall|i: int| 0 <= i < js.len() ==> tparam(#[trigger] js[i]) == Some(ts[i])) ==> tlist(J::List(js)) == Some(ts),
{
    if js.len() == ts.len() && (forall|i: int| 0 <= i < js.len() ==> tparam(#[trigger] js[i]) == Some(ts[i])) {
        lemma_tlist_def(js);
        assert(tlist(J::List(js))->0 =~= ts);
    }
}
pub proof fn lemma_tlist_def(js: Seq<J>)
    ensures (forall|i: int| 0 <= i < js.len() ==> tparam(#[trigger] js[i]) is Some) ==> tlist(J::List(js)) is Some && tlist(J::List(js))->0.len() == js.len() && forall|i: int| 0 <= i < js.len() ==> #[trigger] tlist(J::List(js))->0[i] == tparam(js[i])->0,
{ reveal_with_fuel(tparam, 3); reveal_with_fuel(tlist, 3); }
pub open spec fn wrote(js: Seq<J>, ts: Seq<ParamType>, n: int) -> bool { js.len() == n && forall|i: int| 0 <= i < n ==> tparam(#[trigger] js[i]) == Some(ty(ts[i])) }
pub broadcast proof fn lemma_tparam_b(ks: Seq<Seq<char>>, vs: Seq<J>)
    ensures #[trigger] tparam(J::Obj(ks, vs)) == (if common(ks, vs) && internal(ks, vs) { the_kind(ks, vs) } else { None }),
{ lemma_tparam(ks, vs); }
pub broadcast proof fn lemma_fld_push(ks: Seq<Seq<char>>, vs: Seq<J>, k: Seq<char>, v: J, n: Seq<char>)
    requires ks.len() == vs.len(),
    ensures #[trigger] fld(ks.push(k), vs.push(v), n) == (if k == n { Some(v) } else { fld(ks, vs, n) }),
{ lemma_at_push(ks, k, n); lemma_at(ks, n); }
pub broadcast group group_out { lemma_tparam_b, lemma_at_push, lemma_fld_push }
} // verus!
