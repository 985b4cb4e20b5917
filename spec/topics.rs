// Topic filters as JSON, and the conversions of topics.
verus! {
pub enum J { Null, Text(Seq<char>), List(Seq<J>), Other(int) }
impl VxHexed for H256 { open spec fn hx(&self) -> Seq<char> { hexed(self.b@) } }
/// 0x and the 64 digits of the hash
pub open spec fn hash_text(h: Hash) -> Seq<char> { "0x"@ + hexed(h.b@) }
#[verifier::opaque]
pub open spec fn hash_texts(hs: Seq<Hash>) -> Seq<J> { Seq::new(hs.len(), |i: int| J::Text(hash_text(hs[i]))) }
/// null matches anything, a hash is a text, alternatives are a list of them in the same order
pub open spec fn topic_json(t: Topic<Hash>) -> J {
    match t { Topic::Any => J::Null, Topic::This(h) => J::Text(hash_text(h)), Topic::OneOf(hs) => J::List(hash_texts(hs@)) }
}
pub open spec fn filter_json(f: TopicFilter) -> J { J::List(seq![topic_json(f.topic0), topic_json(f.topic1), topic_json(f.topic2), topic_json(f.topic3)]) }

pub open spec fn jlist(js: Seq<J>) -> J { J::List(js) }
/// serde_json::Value
pub enum Value { Null, Bool(bool), String(String), Array(Vec<Value>) }
pub open spec fn vj(v: Value) -> J
    decreases v
{
    match v { Value::Null => J::Null, Value::Bool(_) => J::Other(0), Value::String(s) => J::Text(s@), Value::Array(vs) => J::List(Seq::new(vs@.len(), |i: int| if 0 <= i < vs@.len() { vj(vs@[i]) } else { J::Null })) }
}
pub open spec fn vjs(vs: Seq<Value>) -> Seq<J> { Seq::new(vs.len(), |i: int| vj(vs[i])) }
pub broadcast proof fn lemma_vj(v: Value)
    ensures #![trigger vj(v)] v is Array ==> vj(v) == J::List(vjs(v->Array_0@))
{ if v is Array { assert(vj(v)->List_0 =~= vjs(v->Array_0@)); } }
pub broadcast proof fn lemma_vj_all(vs: Seq<Value>, hs: Seq<Hash>)
    requires vs.len() == hs.len(), forall|i: int| 0 <= i < hs.len() ==> vj(#[trigger] vs[i]) == J::Text(hash_text(hs[i])),
    ensures #![trigger vjs(vs), hash_texts(hs)] vjs(vs) == hash_texts(hs)
{ reveal(hash_texts); assert(vjs(vs) =~= hash_texts(hs)); }
pub broadcast proof fn lemma_texts_all(js: Seq<J>, hs: Seq<Hash>)
    requires js.len() == hs.len(), forall|i: int| 0 <= i < hs.len() ==> #[trigger] js[i] == J::Text(hash_text(hs[i])),
    ensures #![trigger jlist(js), hash_texts(hs)] js == hash_texts(hs)
{ reveal(hash_texts); assert(js =~= hash_texts(hs)); }

/// what can be written, and as what
pub trait VxSerT {
    spec fn wr(&self) -> J;
    fn serialize(&self, s: VxSer) -> (r: Result<VxOut, Error>) ensures r is Ok, r->Ok_0.j() == self.wr();
}
impl VxSerT for Value { open spec fn wr(&self) -> J { vj(*self) } #[verifier::external_body] fn serialize(&self, s: VxSer) -> (r: Result<VxOut, Error>) { unimplemented!() } }
impl VxSerT for String { open spec fn wr(&self) -> J { J::Text(self@) } #[verifier::external_body] fn serialize(&self, s: VxSer) -> (r: Result<VxOut, Error>) { unimplemented!() } }
impl VxSerT for str { open spec fn wr(&self) -> J { J::Text(self@) } #[verifier::external_body] fn serialize(&self, s: VxSer) -> (r: Result<VxOut, Error>) { unimplemented!() } }
impl VxSerT for () { open spec fn wr(&self) -> J { J::Null } #[verifier::external_body] fn serialize(&self, s: VxSer) -> (r: Result<VxOut, Error>) { unimplemented!() } }
/// its serialize function is under contract below
impl VxSerT for Topic<Hash> { open spec fn wr(&self) -> J { topic_json(*self) } #[verifier::external_body] fn serialize(&self, s: VxSer) -> (r: Result<VxOut, Error>) { unimplemented!() } }
impl<T: VxSerT + ?Sized> VxSerT for &T { open spec fn wr(&self) -> J { (**self).wr() } #[verifier::external_body] fn serialize(&self, s: VxSer) -> (r: Result<VxOut, Error>) { unimplemented!() } }
impl<T: VxSerT> VxSerT for Option<T> { open spec fn wr(&self) -> J { match self { Some(x) => x.wr(), None => J::Null } } #[verifier::external_body] fn serialize(&self, s: VxSer) -> (r: Result<VxOut, Error>) { unimplemented!() } }
pub open spec fn wrs<T: VxSerT>(s: Seq<T>) -> Seq<J> { Seq::new(s.len(), |i: int| s[i].wr()) }
impl<T: VxSerT> VxSerT for Vec<T> { open spec fn wr(&self) -> J { J::List(wrs(self@)) } #[verifier::external_body] fn serialize(&self, s: VxSer) -> (r: Result<VxOut, Error>) { unimplemented!() } }
impl<T: VxSerT> VxSerT for [T] { open spec fn wr(&self) -> J { J::List(wrs(self@)) } #[verifier::external_body] fn serialize(&self, s: VxSer) -> (r: Result<VxOut, Error>) { unimplemented!() } }
impl<T: VxSerT, const N: usize> VxSerT for [T; N] { open spec fn wr(&self) -> J { J::List(wrs(self@)) } #[verifier::external_body] fn serialize(&self, s: VxSer) -> (r: Result<VxOut, Error>) { unimplemented!() } }
impl<A: VxSerT, B: VxSerT, C: VxSerT, D: VxSerT> VxSerT for (A, B, C, D) { open spec fn wr(&self) -> J { J::List(seq![self.0.wr(), self.1.wr(), self.2.wr(), self.3.wr()]) } #[verifier::external_body] fn serialize(&self, s: VxSer) -> (r: Result<VxOut, Error>) { unimplemented!() } }
pub broadcast proof fn lemma_four<T: VxSerT>(s: Seq<T>)
    requires s.len() == 4
    ensures #[trigger] wrs(s) == seq![s[0].wr(), s[1].wr(), s[2].wr(), s[3].wr()]
{ assert(wrs(s) =~= seq![s[0].wr(), s[1].wr(), s[2].wr(), s[3].wr()]); }
pub broadcast proof fn lemma_four_js(s: Seq<J>)
    requires s.len() == 4
    ensures #[trigger] jlist(s) == J::List(seq![s[0], s[1], s[2], s[3]])
{ assert(s =~= seq![s[0], s[1], s[2], s[3]]); }
pub broadcast proof fn lemma_wrs_texts(ss: Seq<String>, hs: Seq<Hash>)
    requires ss.len() == hs.len(), forall|i: int| 0 <= i < hs.len() ==> (#[trigger] ss[i])@ == hash_text(hs[i]),
    ensures #![trigger wrs(ss), hash_texts(hs)] wrs(ss) == hash_texts(hs)
{ reveal(hash_texts); assert(wrs(ss) =~= hash_texts(hs)); }
pub broadcast group group_topics { lemma_vj, lemma_vj_all, lemma_texts_all, lemma_four, lemma_four_js, lemma_wrs_texts }

#[verifier::external_body]
pub struct VxOut { s: String }
impl VxOut { pub uninterp spec fn j(&self) -> J; }
/// serde::Serializer and its parts, as those of serde_json that write to memory: they do not fail
#[verifier::external_body]
pub struct VxSer { s: String }
#[verifier::external_body]
pub struct VxSerSeq { s: String }
impl VxSer {
    #[verifier::external_body] pub fn serialize_seq(self, n: Option<usize>) -> (r: Result<VxSerSeq, Error>) ensures r is Ok, r->Ok_0.js() == Seq::<J>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn serialize_tuple(self, n: usize) -> (r: Result<VxSerSeq, Error>) ensures r is Ok, r->Ok_0.js() == Seq::<J>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn serialize_none(self) -> (r: Result<VxOut, Error>) ensures r is Ok, r->Ok_0.j() == J::Null { unimplemented!() }
    #[verifier::external_body] pub fn serialize_unit(self) -> (r: Result<VxOut, Error>) ensures r is Ok, r->Ok_0.j() == J::Null { unimplemented!() }
    #[verifier::external_body] pub fn serialize_str(self, x: &str) -> (r: Result<VxOut, Error>) ensures r is Ok, r->Ok_0.j() == J::Text(x@) { unimplemented!() }
    #[verifier::external_body] pub fn collect_seq<T: VxSerT>(self, x: Vec<T>) -> (r: Result<VxOut, Error>) ensures r is Ok, r->Ok_0.j() == J::List(wrs(x@)) { unimplemented!() }
    #[verifier::external_body] pub fn collect_str<T: VxDisp + ?Sized>(self, x: &T) -> (r: Result<VxOut, Error>) ensures r is Ok, r->Ok_0.j() == J::Text(x.disp()) { unimplemented!() }
}
impl VxSerSeq {
    pub uninterp spec fn js(&self) -> Seq<J>;
    #[verifier::external_body] pub fn serialize_element<T: VxSerT + ?Sized>(&mut self, v: &T) -> (r: Result<(), Error>)
        ensures r is Ok, final(self).js() == old(self).js().push(v.wr()) { unimplemented!() }
    #[verifier::external_body] pub fn end(self) -> (r: Result<VxOut, Error>) ensures r is Ok, r->Ok_0.j() == jlist(self.js()) { unimplemented!() }
}
} // verus!
