// Writing a contract as the list of its entries.
verus! {
// ---------------------------------------------------------------- writing
/// how serde writes an entry; the derived Deserialize of Operation reads it back
pub trait VxOp { spec fn opv(&self) -> Operation; }
#[verifier::external_body]
pub struct VxOut { s: String }
impl VxOut { pub uninterp spec fn data(&self) -> Seq<VxData>; }
/// serde::Serializer and its sequences, as those of serde_json that write to memory: they do not fail
#[verifier::external_body]
pub struct VxSer { s: String }
#[verifier::external_body]
pub struct VxSerSeq { s: String }
impl VxSer {
    #[verifier::external_body] pub fn serialize_seq(self, n: Option<usize>) -> (r: Result<VxSerSeq, Error>) ensures r is Ok, r->Ok_0.data() == Seq::<VxData>::empty() { unimplemented!() }
}
impl VxSerSeq {
    pub uninterp spec fn data(&self) -> Seq<VxData>;
    #[verifier::external_body] pub fn serialize_element<T: VxOp>(&mut self, v: &T) -> (r: Result<(), Error>)
        ensures r is Ok, final(self).data() == old(self).data().push(final(self).data().last()), op(final(self).data().last()) == Some(v.opv()) { unimplemented!() }
    #[verifier::external_body] pub fn end(self) -> (r: Result<VxOut, Error>) ensures r is Ok, r->Ok_0.data() == self.data() { unimplemented!() }
}
impl<'a, V> Values<'a, String, V> {
    #[verifier::external_body] pub fn vx_len(&self) -> (r: usize) ensures r == self.ks().len() { unimplemented!() }
    #[verifier::external_body] pub fn vx_at(&self, i: usize) -> (r: &'a V) requires i < self.ks().len() ensures *r == self.m()[self.ks()[i as int]] { unimplemented!() }
}
pub open spec fn o_fns(ds: Seq<VxData>) -> Seq<Function> { fns_all(ds, ds.len() as int) }
pub open spec fn o_evs(ds: Seq<VxData>) -> Seq<Event> { evs_all(ds, ds.len() as int) }
pub open spec fn o_ctor(ds: Seq<VxData>) -> Option<Constructor> { last_ctor(ds, ds.len() as int) }
pub open spec fn o_fb(ds: Seq<VxData>) -> bool { some_fallback(ds, ds.len() as int) }
pub open spec fn o_rc(ds: Seq<VxData>) -> bool { some_receive(ds, ds.len() as int) }
pub open spec fn o_ok(ds: Seq<VxData>) -> bool { readable(ds, ds.len() as int) }
pub proof fn lemma_prefix(a: Seq<VxData>, b: Seq<VxData>, k: int)
    requires k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i]
    ensures fns_all(a, k) == fns_all(b, k), evs_all(a, k) == evs_all(b, k), last_ctor(a, k) == last_ctor(b, k), some_fallback(a, k) == some_fallback(b, k), some_receive(a, k) == some_receive(b, k), readable(a, k) == readable(b, k),
    decreases k
{
    reveal_with_fuel(fns_all, 2); reveal_with_fuel(evs_all, 2); reveal_with_fuel(last_ctor, 2); reveal_with_fuel(some_fallback, 2); reveal_with_fuel(some_receive, 2); reveal_with_fuel(readable, 2);
    if k > 0 { lemma_prefix(a, b, k - 1); }
}
/// one more entry is written
pub broadcast proof fn lemma_out_push(ds: Seq<VxData>, d: VxData)
    ensures #![trigger ds.push(d)]
        o_fns(ds.push(d)) == (match op(d) { Some(Operation::Function(f)) => o_fns(ds).push(f), _ => o_fns(ds) }),
        o_evs(ds.push(d)) == (match op(d) { Some(Operation::Event(f)) => o_evs(ds).push(f), _ => o_evs(ds) }),
        o_ctor(ds.push(d)) == (match op(d) { Some(Operation::Constructor(f)) => Some(f), _ => o_ctor(ds) }),
        o_fb(ds.push(d)) == (op(d) == Some(Operation::Fallback) || o_fb(ds)),
        o_rc(ds.push(d)) == (op(d) == Some(Operation::Receive) || o_rc(ds)),
        o_ok(ds.push(d)) == (op(d) is Some && o_ok(ds)),
{
    reveal_with_fuel(fns_all, 2); reveal_with_fuel(evs_all, 2); reveal_with_fuel(last_ctor, 2); reveal_with_fuel(some_fallback, 2); reveal_with_fuel(some_receive, 2); reveal_with_fuel(readable, 2);
    let e = ds.push(d);
    assert(e[e.len() - 1] == d);
    lemma_prefix(e, ds, ds.len() as int);
}
pub proof fn lemma_out_0()
    ensures o_fns(Seq::empty()) == Seq::<Function>::empty(), o_evs(Seq::empty()) == Seq::<Event>::empty(), o_ctor(Seq::empty()) is None, !o_fb(Seq::empty()), !o_rc(Seq::empty()), o_ok(Seq::empty()),
{ reveal_with_fuel(fns_all, 2); reveal_with_fuel(evs_all, 2); reveal_with_fuel(last_ctor, 2); reveal_with_fuel(some_fallback, 2); reveal_with_fuel(some_receive, 2); reveal_with_fuel(readable, 2); }
pub proof fn lemma_flat_step<T>(m: Map<Seq<char>, Vec<T>>, ks: Seq<Seq<char>>, i: int)
    ensures flat_lists(m, ks, 0) == Seq::<T>::empty(), i >= 0 ==> flat_lists(m, ks, i + 1) == flat_lists(m, ks, i) + m[ks[i]]@
{ reveal_with_fuel(flat_lists, 2); }
pub open spec fn keyed(c: Contract) -> bool { fkeyed(c.functions.m()) && ekeyed(c.events.m()) }
/// the entries written for a contract: those of a name in their order, the constructor and the flags
pub open spec fn written(c: Contract, ds: Seq<VxData>) -> bool {
    o_ok(ds) && o_ctor(ds) == c.constructor && o_fb(ds) == c.fallback && o_rc(ds) == c.receive && fwrote(c.functions.m(), o_fns(ds)) && ewrote(c.events.m(), o_evs(ds))
}
/// a contract that was read and written is read again as the same contract
pub proof fn theorem_write_read(c: Contract, ds: Seq<VxData>, d2: Seq<VxData>, c2: Contract)
    requires has_all(c, ds, ds.len() as int), written(c, d2), has_all(c2, d2, d2.len() as int)
    ensures keyed(c), o_ok(d2), c2.constructor == c.constructor, c2.fallback == c.fallback, c2.receive == c.receive,
        c2.functions.m().dom() =~= c.functions.m().dom(), c2.events.m().dom() =~= c.events.m().dom(),
        forall|n: Seq<char>| c.functions.m().dom().contains(n) ==> (#[trigger] c2.functions.m()[n])@ =~= c.functions.m()[n]@,
        forall|n: Seq<char>| c.events.m().dom().contains(n) ==> (#[trigger] c2.events.m()[n])@ =~= c.events.m()[n]@,
{
    lemma_fkeyed(c.functions, ds, ds.len() as int);
    lemma_ekeyed(c.events, ds, ds.len() as int);
    assert forall|n: Seq<char>| c2.functions.m().dom().contains(n) == c.functions.m().dom().contains(n) && (c.functions.m().dom().contains(n) ==> c2.functions.m()[n]@ =~= c.functions.m()[n]@) by {
        lemma_fnamed(d2, d2.len() as int, n);
        assert(fby(o_fns(d2), n) == named(c.functions.m(), n));
    }
    assert forall|n: Seq<char>| c2.events.m().dom().contains(n) == c.events.m().dom().contains(n) && (c.events.m().dom().contains(n) ==> c2.events.m()[n]@ =~= c.events.m()[n]@) by {
        lemma_enamed(d2, d2.len() as int, n);
        assert(eby(o_evs(d2), n) == named(c.events.m(), n));
    }
}
/// those of that name, in order
#[verifier::opaque]
pub open spec fn fby(s: Seq<Function>, n: Seq<char>) -> Seq<Function>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.last().name@ == n { fby(s.drop_last(), n).push(s.last()) } else { fby(s.drop_last(), n) } }
pub open spec fn fkeyed(m: Map<Seq<char>, Vec<Function>>) -> bool { forall|n: Seq<char>| #![trigger m[n]] m.dom().contains(n) ==> m[n]@.len() > 0 && (forall|i: int| 0 <= i < m[n]@.len() ==> (#[trigger] m[n]@[i]).name@ == n) }
pub open spec fn fwrote(m: Map<Seq<char>, Vec<Function>>, s: Seq<Function>) -> bool { forall|n: Seq<char>| #[trigger] fby(s, n) == named(m, n) }
pub proof fn lemma_fby_add(a: Seq<Function>, b: Seq<Function>, n: Seq<char>)
    ensures fby(a + b, n) == fby(a, n) + fby(b, n)
    decreases b.len()
{
    reveal_with_fuel(fby, 2);
    if b.len() == 0 { assert(a + b =~= a); assert(fby(a, n) + fby(b, n) =~= fby(a, n)); }
    else { lemma_fby_add(a, b.drop_last(), n); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); assert(fby(a + b, n) =~= fby(a, n) + fby(b, n)); }
}
pub proof fn lemma_fby_all(a: Seq<Function>, k: Seq<char>, n: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).name@ == k
    ensures fby(a, n) == if n == k { a } else { Seq::empty() }
    decreases a.len()
{
    reveal_with_fuel(fby, 2);
    if a.len() > 0 { assert forall|i: int| 0 <= i < a.drop_last().len() implies (#[trigger] a.drop_last()[i]).name@ == k by { assert(a[i].name@ == k); } lemma_fby_all(a.drop_last(), k, n); assert(a.last() == a[a.len() - 1]); assert(a.drop_last().push(a.last()) =~= a); } else { assert(a =~= Seq::empty()); }
}
pub proof fn lemma_fflat(m: Map<Seq<char>, Vec<Function>>, ks: Seq<Seq<char>>, j: int, n: Seq<char>)
    requires lists_dom(ks, m), fkeyed(m), 0 <= j <= ks.len()
    ensures fby(flat_lists(m, ks, j), n) == if ks.take(j).contains(n) { m[n]@ } else { Seq::empty() }
    decreases j
{
    reveal_with_fuel(flat_lists, 2);
    if j == 0 { assert(ks.take(0) =~= Seq::<Seq<char>>::empty()); reveal_with_fuel(fby, 2); }
    else {
        let k = ks[j - 1];
        lemma_fflat(m, ks, j - 1, n);
        lemma_fby_add(flat_lists(m, ks, j - 1), m[k]@, n);
        assert(ks.contains(k)); assert(m.dom().contains(k));
        lemma_fby_all(m[k]@, k, n);
        assert(ks.take(j) =~= ks.take(j - 1).push(k));
        assert(ks.take(j)[j - 1] == k);
        if n == k {
            assert(!ks.take(j - 1).contains(n)); assert(ks.take(j).contains(n));
            assert(Seq::<Function>::empty() + m[k]@ =~= m[k]@);
        } else {
            if ks.take(j).contains(n) { let i = choose|i: int| 0 <= i < j && #[trigger] ks.take(j)[i] == n; assert(ks.take(j - 1)[i] == n); }
            if ks.take(j - 1).contains(n) { let i = choose|i: int| 0 <= i < j - 1 && #[trigger] ks.take(j - 1)[i] == n; assert(ks.take(j)[i] == n); }
            assert(fby(flat_lists(m, ks, j - 1), n) + Seq::<Function>::empty() =~= fby(flat_lists(m, ks, j - 1), n));
        }
    }
}
/// the lists of all keys, one after the other
pub proof fn lemma_fwrote(m: Map<Seq<char>, Vec<Function>>, s: Seq<Function>)
    ensures fkeyed(m) && all_of(m, s) ==> fwrote(m, s)
{
    if fkeyed(m) && all_of(m, s) {
        let ks = choose|ks: Seq<Seq<char>>| lists_dom(ks, m) && s == #[trigger] flat_lists(m, ks, ks.len() as int);
        assert(ks.take(ks.len() as int) =~= ks);
        assert forall|n: Seq<char>| #[trigger] fby(s, n) == named(m, n) by { lemma_fflat(m, ks, ks.len() as int, n); assert(ks.contains(n) == m.dom().contains(n)); }
    }
}
pub proof fn lemma_fall(m: Map<Seq<char>, Vec<Function>>, ks: Seq<Seq<char>>, s: Seq<Function>)
    ensures lists_dom(ks, m) && s =~= flat_lists(m, ks, ks.len() as int) && fkeyed(m) ==> fwrote(m, s)
{ if lists_dom(ks, m) && s =~= flat_lists(m, ks, ks.len() as int) { assert(all_of(m, s)); lemma_fwrote(m, s); } }
pub proof fn lemma_fnamed(ds: Seq<VxData>, k: int, n: Seq<char>)
    ensures fns_named(ds, k, n) == fby(fns_all(ds, k), n)
    decreases k
{
    reveal_with_fuel(fns_named, 2); reveal_with_fuel(fns_all, 2); reveal_with_fuel(fby, 2);
    if k > 0 {
        lemma_fnamed(ds, k - 1, n);
        match op(ds[k - 1]) { Some(Operation::Function(f)) => { assert(fns_all(ds, k).drop_last() =~= fns_all(ds, k - 1)); } _ => {} }
    }
}
pub proof fn lemma_fby_names(s: Seq<Function>, n: Seq<char>)
    ensures forall|i: int| 0 <= i < fby(s, n).len() ==> (#[trigger] fby(s, n)[i]).name@ == n
    decreases s.len()
{
    reveal_with_fuel(fby, 2);
    if s.len() > 0 {
        let d = fby(s.drop_last(), n);
        lemma_fby_names(s.drop_last(), n);
        assert forall|i: int| 0 <= i < fby(s, n).len() implies (#[trigger] fby(s, n)[i]).name@ == n by { if i < d.len() { assert(fby(s, n)[i] == d[i]); } else { assert(fby(s, n)[i] == s.last()); } }
    }
}
pub proof fn lemma_fkeyed(c: HashMap<String, Vec<Function>>, ds: Seq<VxData>, k: int)
    requires has_fns(c, ds, k)
    ensures fkeyed(c.m())
{
    assert forall|n: Seq<char>| #![trigger c.m()[n]] c.m().dom().contains(n) implies c.m()[n]@.len() > 0 && (forall|i: int| 0 <= i < c.m()[n]@.len() ==> (#[trigger] c.m()[n]@[i]).name@ == n) by {
        lemma_fnamed(ds, k, n); lemma_fby_names(fns_all(ds, k), n);
    }
}
/// those of that name, in order
#[verifier::opaque]
pub open spec fn eby(s: Seq<Event>, n: Seq<char>) -> Seq<Event>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.last().name@ == n { eby(s.drop_last(), n).push(s.last()) } else { eby(s.drop_last(), n) } }
pub open spec fn ekeyed(m: Map<Seq<char>, Vec<Event>>) -> bool { forall|n: Seq<char>| #![trigger m[n]] m.dom().contains(n) ==> m[n]@.len() > 0 && (forall|i: int| 0 <= i < m[n]@.len() ==> (#[trigger] m[n]@[i]).name@ == n) }
pub open spec fn ewrote(m: Map<Seq<char>, Vec<Event>>, s: Seq<Event>) -> bool { forall|n: Seq<char>| #[trigger] eby(s, n) == named(m, n) }
pub proof fn lemma_eby_add(a: Seq<Event>, b: Seq<Event>, n: Seq<char>)
    ensures eby(a + b, n) == eby(a, n) + eby(b, n)
    decreases b.len()
{
    reveal_with_fuel(eby, 2);
    if b.len() == 0 { assert(a + b =~= a); assert(eby(a, n) + eby(b, n) =~= eby(a, n)); }
    else { lemma_eby_add(a, b.drop_last(), n); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); assert(eby(a + b, n) =~= eby(a, n) + eby(b, n)); }
}
pub proof fn lemma_eby_all(a: Seq<Event>, k: Seq<char>, n: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).name@ == k
    ensures eby(a, n) == if n == k { a } else { Seq::empty() }
    decreases a.len()
{
    reveal_with_fuel(eby, 2);
    if a.len() > 0 { assert forall|i: int| 0 <= i < a.drop_last().len() implies (#[trigger] a.drop_last()[i]).name@ == k by { assert(a[i].name@ == k); } lemma_eby_all(a.drop_last(), k, n); assert(a.last() == a[a.len() - 1]); assert(a.drop_last().push(a.last()) =~= a); } else { assert(a =~= Seq::empty()); }
}
pub proof fn lemma_eflat(m: Map<Seq<char>, Vec<Event>>, ks: Seq<Seq<char>>, j: int, n: Seq<char>)
    requires lists_dom(ks, m), ekeyed(m), 0 <= j <= ks.len()
    ensures eby(flat_lists(m, ks, j), n) == if ks.take(j).contains(n) { m[n]@ } else { Seq::empty() }
    decreases j
{
    reveal_with_fuel(flat_lists, 2);
    if j == 0 { assert(ks.take(0) =~= Seq::<Seq<char>>::empty()); reveal_with_fuel(eby, 2); }
    else {
        let k = ks[j - 1];
        lemma_eflat(m, ks, j - 1, n);
        lemma_eby_add(flat_lists(m, ks, j - 1), m[k]@, n);
        assert(ks.contains(k)); assert(m.dom().contains(k));
        lemma_eby_all(m[k]@, k, n);
        assert(ks.take(j) =~= ks.take(j - 1).push(k));
        assert(ks.take(j)[j - 1] == k);
        if n == k {
            assert(!ks.take(j - 1).contains(n)); assert(ks.take(j).contains(n));
            assert(Seq::<Event>::empty() + m[k]@ =~= m[k]@);
        } else {
            if ks.take(j).contains(n) { let i = choose|i: int| 0 <= i < j && #[trigger] ks.take(j)[i] == n; assert(ks.take(j - 1)[i] == n); }
            if ks.take(j - 1).contains(n) { let i = choose|i: int| 0 <= i < j - 1 && #[trigger] ks.take(j - 1)[i] == n; assert(ks.take(j)[i] == n); }
            assert(eby(flat_lists(m, ks, j - 1), n) + Seq::<Event>::empty() =~= eby(flat_lists(m, ks, j - 1), n));
        }
    }
}
/// the lists of all keys, one after the other
pub proof fn lemma_ewrote(m: Map<Seq<char>, Vec<Event>>, s: Seq<Event>)
    ensures ekeyed(m) && all_of(m, s) ==> ewrote(m, s)
{
    if ekeyed(m) && all_of(m, s) {
        let ks = choose|ks: Seq<Seq<char>>| lists_dom(ks, m) && s == #[trigger] flat_lists(m, ks, ks.len() as int);
        assert(ks.take(ks.len() as int) =~= ks);
        assert forall|n: Seq<char>| #[trigger] eby(s, n) == named(m, n) by { lemma_eflat(m, ks, ks.len() as int, n); assert(ks.contains(n) == m.dom().contains(n)); }
    }
}
pub proof fn lemma_eall(m: Map<Seq<char>, Vec<Event>>, ks: Seq<Seq<char>>, s: Seq<Event>)
    ensures lists_dom(ks, m) && s =~= flat_lists(m, ks, ks.len() as int) && ekeyed(m) ==> ewrote(m, s)
{ if lists_dom(ks, m) && s =~= flat_lists(m, ks, ks.len() as int) { assert(all_of(m, s)); lemma_ewrote(m, s); } }
pub proof fn lemma_enamed(ds: Seq<VxData>, k: int, n: Seq<char>)
    ensures evs_named(ds, k, n) == eby(evs_all(ds, k), n)
    decreases k
{
    reveal_with_fuel(evs_named, 2); reveal_with_fuel(evs_all, 2); reveal_with_fuel(eby, 2);
    if k > 0 {
        lemma_enamed(ds, k - 1, n);
        match op(ds[k - 1]) { Some(Operation::Event(f)) => { assert(evs_all(ds, k).drop_last() =~= evs_all(ds, k - 1)); } _ => {} }
    }
}
pub proof fn lemma_eby_names(s: Seq<Event>, n: Seq<char>)
    ensures forall|i: int| 0 <= i < eby(s, n).len() ==> (#[trigger] eby(s, n)[i]).name@ == n
    decreases s.len()
{
    reveal_with_fuel(eby, 2);
    if s.len() > 0 {
        let d = eby(s.drop_last(), n);
        lemma_eby_names(s.drop_last(), n);
        assert forall|i: int| 0 <= i < eby(s, n).len() implies (#[trigger] eby(s, n)[i]).name@ == n by { if i < d.len() { assert(eby(s, n)[i] == d[i]); } else { assert(eby(s, n)[i] == s.last()); } }
    }
}
pub proof fn lemma_ekeyed(c: HashMap<String, Vec<Event>>, ds: Seq<VxData>, k: int)
    requires has_evs(c, ds, k)
    ensures ekeyed(c.m())
{
    assert forall|n: Seq<char>| #![trigger c.m()[n]] c.m().dom().contains(n) implies c.m()[n]@.len() > 0 && (forall|i: int| 0 <= i < c.m()[n]@.len() ==> (#[trigger] c.m()[n]@[i]).name@ == n) by {
        lemma_enamed(ds, k, n); lemma_eby_names(evs_all(ds, k), n);
    }
}
} // verus!
