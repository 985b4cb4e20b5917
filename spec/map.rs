// Maps keyed by text, and data read through serde.
verus! {

/// std::collections::HashMap
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { s: std::collections::HashMap<K, V> }
/// what `Default::default` gives
impl<V> VxDefault for HashMap<String, V> { open spec fn dflt(&self) -> bool { self.m() == Map::<Seq<char>, V>::empty() } #[verifier::external_body] fn vx_default0() -> (r: Self) { unimplemented!() } }

impl<V> HashMap<String, V> {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.m() == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vx_get<Q: VxTx + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r is Some == self.m().dom().contains(k.tx()), r is Some ==> *r->0 == self.m()[k.tx()] { unimplemented!() }
    #[verifier::external_body] pub fn vx_contains_key<Q: VxTx + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self.m().dom().contains(k.tx()) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut<Q: VxTx + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures r is Some == old(self).m().dom().contains(k.tx()), r is Some ==> *r->0 == old(self).m()[k.tx()] && final(self).m() == old(self).m().insert(k.tx(), *final(r->0)),
            r is None ==> final(self).m() == old(self).m() { unimplemented!() }
    #[verifier::external_body] pub fn vx_insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self).m() == old(self).m().insert(k@, v), r is Some == old(self).m().dom().contains(k@), r is Some ==> r->0 == old(self).m()[k@] { unimplemented!() }
    pub fn vx_entry(&mut self, k: String) -> (r: VxEntry<'_, V>) ensures *r.map == *old(self), *final(r.map) == *final(self), r.key == k { VxEntry { map: self, key: k } }
    #[verifier::external_body] pub fn vx_values(&self) -> (r: Values<'_, String, V>) ensures r.m() == self.m(), lists_dom(r.ks(), self.m()) { unimplemented!() }
}
/// std::collections::hash_map::Entry
#[verifier::reject_recursive_types(V)]
pub struct VxEntry<'a, V> { pub map: &'a mut HashMap<String, V>, pub key: String }
impl<'a, V> VxEntry<'a, V> {
    #[verifier::external_body] pub fn vx_or_insert(self, v: V) -> (r: &'a mut V)
        ensures *r == if (*old(self.map)).m().dom().contains(self.key@) { (*old(self.map)).m()[self.key@] } else { v },
            (*final(self.map)).m() == (*old(self.map)).m().insert(self.key@, *final(r)) { unimplemented!() }
}
impl<'a, V: VxDefault> VxEntry<'a, V> {
    #[verifier::external_body] pub fn vx_or_default(self) -> (r: &'a mut V)
        ensures (*old(self.map)).m().dom().contains(self.key@) ==> *r == (*old(self.map)).m()[self.key@],
            !(*old(self.map)).m().dom().contains(self.key@) ==> r.dflt(),
            (*final(self.map)).m() == (*old(self.map)).m().insert(self.key@, *final(r)) { unimplemented!() }
}

/// the keys of a map, each once, in some order
pub open spec fn lists_dom<V>(ks: Seq<Seq<char>>, m: Map<Seq<char>, V>) -> bool { ks.no_duplicates() && (forall|k: Seq<char>| #[trigger] ks.contains(k) == m.dom().contains(k)) }
/// std::collections::hash_map::Values
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)]
pub struct Values<'a, K, V> { s: std::collections::hash_map::Values<'a, K, V> }
impl<'a, V> Values<'a, String, V> {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, V>;
    /// the order of the keys, which is arbitrary
    pub uninterp spec fn ks(&self) -> Seq<Seq<char>>;
}
/// std::iter::Flatten
#[verifier::external_body] #[verifier::reject_recursive_types(I)]
pub struct Flatten<I> { s: Option<I> }
/// the lists under the first n keys
#[verifier::opaque]
pub open spec fn flat_lists<T>(m: Map<Seq<char>, Vec<T>>, ks: Seq<Seq<char>>, n: int) -> Seq<T>
    decreases n
{ if n <= 0 { Seq::empty() } else { flat_lists(m, ks, n - 1) + m[ks[n - 1]]@ } }
impl<'a, T> Values<'a, String, Vec<T>> {
    #[verifier::external_body] pub fn flatten(self) -> (r: Flatten<Values<'a, String, Vec<T>>>) ensures r.all() == flat_lists(self.m(), self.ks(), self.ks().len() as int), r.pos() == 0 { unimplemented!() }
}
impl<'a, T> Flatten<Values<'a, String, Vec<T>>> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a T>)
        ensures final(self).all() == old(self).all(),
            old(self).pos() < old(self).all().len() ==> r is Some && *r->0 == old(self).all()[old(self).pos() as int] && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).all().len() ==> r is None && final(self).pos() == old(self).pos() { unimplemented!() }
}

// ---------------------------------------------------------------- serde
/// a piece of JSON (or whatever a Deserializer reads), and what deserializing it gives
#[verifier::external_body]
pub struct VxData { s: String }
pub uninterp spec fn de<T>(d: VxData) -> Option<T>;
#[verifier::external_body]
pub fn vx_de<T>(d: VxData) -> (r: Result<T, Error>) ensures r is Ok == de::<T>(d) is Some, r is Ok ==> r->Ok_0 == de::<T>(d)->0 { unimplemented!() }
pub fn vx_de_error() -> Error { Error::Other }
/// serde::de::SeqAccess over a list of such pieces
#[verifier::external_body]
pub struct VxSeqAccess { s: Vec<VxData> }
impl VxSeqAccess {
    pub uninterp spec fn all(&self) -> Seq<VxData>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body] pub fn next_element<T>(&mut self) -> (r: Result<Option<T>, Error>)
        requires old(self).pos() <= old(self).all().len()
        ensures final(self).all() == old(self).all(), final(self).pos() <= final(self).all().len(),
            old(self).pos() < old(self).all().len() ==> final(self).pos() == old(self).pos() + 1 && (match de::<T>(old(self).all()[old(self).pos() as int]) { Some(x) => r is Ok && r->Ok_0 == Some(x), None => r is Err }),
            old(self).pos() >= old(self).all().len() ==> r is Ok && r->Ok_0 is None && final(self).pos() == old(self).pos() { unimplemented!() }
}
} // verus!
