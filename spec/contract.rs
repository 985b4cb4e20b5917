// A contract as the list of its ABI entries gives it.
verus! {
impl VxDefault for Contract {
    open spec fn dflt(&self) -> bool { self.constructor is None && self.functions.dflt() && self.events.dflt() && !self.receive && !self.fallback }
    #[verifier::external_body] fn vx_default0() -> (r: Self) { unimplemented!() }
}
pub open spec fn op(d: VxData) -> Option<Operation> { de::<Operation>(d) }
pub open spec fn is_fn(d: VxData, n: Seq<char>) -> bool { match op(d) { Some(Operation::Function(f)) => f.name@ == n, _ => false } }
pub open spec fn is_ev(d: VxData, n: Seq<char>) -> bool { match op(d) { Some(Operation::Event(f)) => f.name@ == n, _ => false } }
pub open spec fn is_ctor(d: VxData) -> bool { match op(d) { Some(Operation::Constructor(_)) => true, _ => false } }
/// the functions of that name among the first k entries, in order
#[verifier::opaque]
pub open spec fn fns_named(ds: Seq<VxData>, k: int, n: Seq<char>) -> Seq<Function>
    decreases k
{ if k <= 0 { Seq::empty() } else if is_fn(ds[k - 1], n) { fns_named(ds, k - 1, n).push(op(ds[k - 1])->0->Function_0) } else { fns_named(ds, k - 1, n) } }
#[verifier::opaque]
pub open spec fn evs_named(ds: Seq<VxData>, k: int, n: Seq<char>) -> Seq<Event>
    decreases k
{ if k <= 0 { Seq::empty() } else if is_ev(ds[k - 1], n) { evs_named(ds, k - 1, n).push(op(ds[k - 1])->0->Event_0) } else { evs_named(ds, k - 1, n) } }
/// the last constructor
#[verifier::opaque]
pub open spec fn last_ctor(ds: Seq<VxData>, k: int) -> Option<Constructor>
    decreases k
{ if k <= 0 { None } else if is_ctor(ds[k - 1]) { Some(op(ds[k - 1])->0->Constructor_0) } else { last_ctor(ds, k - 1) } }
#[verifier::opaque]
pub open spec fn some_fallback(ds: Seq<VxData>, k: int) -> bool
    decreases k
{ if k <= 0 { false } else { op(ds[k - 1]) == Some(Operation::Fallback) || some_fallback(ds, k - 1) } }
#[verifier::opaque]
pub open spec fn some_receive(ds: Seq<VxData>, k: int) -> bool
    decreases k
{ if k <= 0 { false } else { op(ds[k - 1]) == Some(Operation::Receive) || some_receive(ds, k - 1) } }
/// every entry can be read
#[verifier::opaque]
pub open spec fn readable(ds: Seq<VxData>, k: int) -> bool
    decreases k
{ if k <= 0 { true } else { readable(ds, k - 1) && op(ds[k - 1]) is Some } }

/// what is found under a name; a name without entries is not in the map
pub open spec fn has_fns(c: HashMap<String, Vec<Function>>, ds: Seq<VxData>, k: int) -> bool {
    forall|n: Seq<char>| #![trigger c.m().dom().contains(n)] #![trigger c.m()[n]] #![trigger fns_named(ds, k, n)]
        (c.m().dom().contains(n) == (fns_named(ds, k, n).len() > 0)) && (c.m().dom().contains(n) ==> c.m()[n]@ =~= fns_named(ds, k, n))
}
pub open spec fn has_evs(c: HashMap<String, Vec<Event>>, ds: Seq<VxData>, k: int) -> bool {
    forall|n: Seq<char>| #![trigger c.m().dom().contains(n)] #![trigger c.m()[n]] #![trigger evs_named(ds, k, n)]
        (c.m().dom().contains(n) == (evs_named(ds, k, n).len() > 0)) && (c.m().dom().contains(n) ==> c.m()[n]@ =~= evs_named(ds, k, n))
}
/// the contract has what the first k entries say
pub open spec fn has_all(c: Contract, ds: Seq<VxData>, k: int) -> bool {
    c.constructor == last_ctor(ds, k) && c.fallback == some_fallback(ds, k) && c.receive == some_receive(ds, k) && has_fns(c.functions, ds, k) && has_evs(c.events, ds, k)
}
pub proof fn lemma_ops_0(ds: Seq<VxData>)
    ensures readable(ds, 0), last_ctor(ds, 0) is None, !some_fallback(ds, 0), !some_receive(ds, 0),
        forall|n: Seq<char>| #[trigger] fns_named(ds, 0, n) == Seq::<Function>::empty(), forall|n: Seq<char>| #[trigger] evs_named(ds, 0, n) == Seq::<Event>::empty(),
{ reveal(readable); reveal(last_ctor); reveal(some_fallback); reveal(some_receive); reveal(fns_named); reveal(evs_named); }
/// one more entry
pub proof fn lemma_ops_step(ds: Seq<VxData>, k: int)
    ensures 0 <= k < ds.len() ==> {
        let d = ds[k];
        &&& readable(ds, k + 1) == (readable(ds, k) && op(d) is Some)
        &&& last_ctor(ds, k + 1) == (if is_ctor(d) { Some(op(d)->0->Constructor_0) } else { last_ctor(ds, k) })
        &&& some_fallback(ds, k + 1) == (op(d) == Some(Operation::Fallback) || some_fallback(ds, k))
        &&& some_receive(ds, k + 1) == (op(d) == Some(Operation::Receive) || some_receive(ds, k))
        &&& forall|n: Seq<char>| #[trigger] fns_named(ds, k + 1, n) == (if is_fn(d, n) { fns_named(ds, k, n).push(op(d)->0->Function_0) } else { fns_named(ds, k, n) })
        &&& forall|n: Seq<char>| #[trigger] evs_named(ds, k + 1, n) == (if is_ev(d, n) { evs_named(ds, k, n).push(op(d)->0->Event_0) } else { evs_named(ds, k, n) })
    },
{ reveal_with_fuel(readable, 2); reveal_with_fuel(last_ctor, 2); reveal_with_fuel(some_fallback, 2); reveal_with_fuel(some_receive, 2); reveal_with_fuel(fns_named, 2); reveal_with_fuel(evs_named, 2); }
/// what cannot be read stays so
pub proof fn lemma_unreadable(ds: Seq<VxData>, k: int, j: int)
    ensures 0 <= k < j <= ds.len() && op(ds[k]) is None ==> !readable(ds, j),
    decreases j
{ reveal_with_fuel(readable, 2); if 0 <= k < j - 1 { lemma_unreadable(ds, k, j - 1); } }

/// the list under a name
pub open spec fn named<T>(m: Map<Seq<char>, Vec<T>>, n: Seq<char>) -> Seq<T> { if m.dom().contains(n) { m[n]@ } else { Seq::empty() } }
pub open spec fn all_of<T>(m: Map<Seq<char>, Vec<T>>, s: Seq<T>) -> bool { exists|ks: Seq<Seq<char>>| lists_dom(ks, m) && s == #[trigger] flat_lists(m, ks, ks.len() as int) }
pub open spec fn first_ok<T>(r: Option<&T>, s: Seq<T>) -> bool { if s.len() == 0 { r is None } else { r is Some && *r->0 == s[0] } }
pub open spec fn head_of<T>(s: Seq<&Vec<T>>, i: int) -> Seq<T> { if i <= 0 { Seq::empty() } else { s[0]@ } }

/// a name up to its first opening parenthesis
pub open spec fn cut(s: Seq<char>, r: Seq<char>) -> bool {
    if s.contains('(') { exists|k: int| 0 <= k < s.len() && s[k] == '(' && (forall|j: int| 0 <= j < k ==> s[j] != '(') && r == s.take(k) } else { r == s }
}

/// all of them, in order
#[verifier::opaque]
pub open spec fn fns_all(ds: Seq<VxData>, k: int) -> Seq<Function>
    decreases k
{ if k <= 0 { Seq::empty() } else { match op(ds[k - 1]) { Some(Operation::Function(f)) => fns_all(ds, k - 1).push(f), _ => fns_all(ds, k - 1) } } }
pub proof fn lemma_fns_count(ds: Seq<VxData>, k: int, n: Seq<char>, f: Function)
    ensures fns_named(ds, k, n).to_multiset().count(f) == if f.name@ == n { fns_all(ds, k).to_multiset().count(f) } else { 0 },
    decreases k
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal_with_fuel(fns_named, 2); reveal_with_fuel(fns_all, 2);
    if k > 0 {
        lemma_fns_count(ds, k - 1, n, f);
        match op(ds[k - 1]) { Some(Operation::Function(g)) => { fns_all(ds, k - 1).to_multiset_ensures(); fns_named(ds, k - 1, n).to_multiset_ensures(); } _ => {} }
    } else { Seq::<Function>::empty().to_multiset_ensures(); assert(fns_named(ds, k, n) =~= Seq::<Function>::empty()); assert(fns_all(ds, k) =~= Seq::<Function>::empty()); }
}
pub proof fn lemma_fns_flat(c: HashMap<String, Vec<Function>>, ds: Seq<VxData>, k: int, ks: Seq<Seq<char>>, j: int, f: Function)
    requires has_fns(c, ds, k), 0 <= j <= ks.len(), lists_dom(ks, c.m()),
    ensures flat_lists(c.m(), ks, j).to_multiset().count(f) == if ks.take(j).contains(f.name@) { fns_all(ds, k).to_multiset().count(f) } else { 0 },
    decreases j
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal_with_fuel(flat_lists, 2);
    if j > 0 {
        lemma_fns_flat(c, ds, k, ks, j - 1, f);
        let n = ks[j - 1];
        assert(ks.contains(n));
        assert(c.m().dom().contains(n));
        lemma_fns_count(ds, k, n, f);
        vstd::seq_lib::lemma_multiset_commutative(flat_lists(c.m(), ks, j - 1), c.m()[n]@);
        assert(ks.take(j) =~= ks.take(j - 1).push(n));
        assert(ks.take(j).contains(n)) by { assert(ks.take(j)[j - 1] == n); }
        if f.name@ == n {
            assert(!ks.take(j - 1).contains(n));
        } else {
            if ks.take(j).contains(f.name@) { let i = choose|i: int| 0 <= i < j && #[trigger] ks.take(j)[i] == f.name@; assert(ks.take(j - 1)[i] == f.name@); }
            if ks.take(j - 1).contains(f.name@) { let i = choose|i: int| 0 <= i < j - 1 && #[trigger] ks.take(j - 1)[i] == f.name@; assert(ks.take(j)[i] == f.name@); }
        }
    } else { assert(ks.take(0) =~= Seq::<Seq<char>>::empty()); Seq::<Function>::empty().to_multiset_ensures(); assert(flat_lists(c.m(), ks, 0) =~= Seq::<Function>::empty()); }
}
/// iterating a loaded contract yields each entry exactly once
pub proof fn theorem_each_function_once(c: HashMap<String, Vec<Function>>, ds: Seq<VxData>, k: int, s: Seq<Function>)
    requires has_fns(c, ds, k), all_of(c.m(), s),
    ensures s.to_multiset() == fns_all(ds, k).to_multiset(), s.len() == fns_all(ds, k).len(),
{
    let ks = choose|ks: Seq<Seq<char>>| lists_dom(ks, c.m()) && s == #[trigger] flat_lists(c.m(), ks, ks.len() as int);
    assert(ks.take(ks.len() as int) =~= ks);
    assert forall|f: Function| s.to_multiset().count(f) == fns_all(ds, k).to_multiset().count(f) by {
        lemma_fns_flat(c, ds, k, ks, ks.len() as int, f);
        lemma_fns_count(ds, k, f.name@, f);
        if !ks.contains(f.name@) { assert(!c.m().dom().contains(f.name@)); assert(fns_named(ds, k, f.name@) =~= Seq::<Function>::empty()); Seq::<Function>::empty().to_multiset_ensures(); }
    }
    assert(s.to_multiset() =~= fns_all(ds, k).to_multiset());
    s.to_multiset_ensures(); fns_all(ds, k).to_multiset_ensures();
}

/// all of them, in order
#[verifier::opaque]
pub open spec fn evs_all(ds: Seq<VxData>, k: int) -> Seq<Event>
    decreases k
{ if k <= 0 { Seq::empty() } else { match op(ds[k - 1]) { Some(Operation::Event(f)) => evs_all(ds, k - 1).push(f), _ => evs_all(ds, k - 1) } } }
pub proof fn lemma_evs_count(ds: Seq<VxData>, k: int, n: Seq<char>, f: Event)
    ensures evs_named(ds, k, n).to_multiset().count(f) == if f.name@ == n { evs_all(ds, k).to_multiset().count(f) } else { 0 },
    decreases k
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal_with_fuel(evs_named, 2); reveal_with_fuel(evs_all, 2);
    if k > 0 {
        lemma_evs_count(ds, k - 1, n, f);
        match op(ds[k - 1]) { Some(Operation::Event(g)) => { evs_all(ds, k - 1).to_multiset_ensures(); evs_named(ds, k - 1, n).to_multiset_ensures(); } _ => {} }
    } else { Seq::<Event>::empty().to_multiset_ensures(); assert(evs_named(ds, k, n) =~= Seq::<Event>::empty()); assert(evs_all(ds, k) =~= Seq::<Event>::empty()); }
}
pub proof fn lemma_evs_flat(c: HashMap<String, Vec<Event>>, ds: Seq<VxData>, k: int, ks: Seq<Seq<char>>, j: int, f: Event)
    requires has_evs(c, ds, k), 0 <= j <= ks.len(), lists_dom(ks, c.m()),
    ensures flat_lists(c.m(), ks, j).to_multiset().count(f) == if ks.take(j).contains(f.name@) { evs_all(ds, k).to_multiset().count(f) } else { 0 },
    decreases j
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal_with_fuel(flat_lists, 2);
    if j > 0 {
        lemma_evs_flat(c, ds, k, ks, j - 1, f);
        let n = ks[j - 1];
        assert(ks.contains(n));
        assert(c.m().dom().contains(n));
        lemma_evs_count(ds, k, n, f);
        vstd::seq_lib::lemma_multiset_commutative(flat_lists(c.m(), ks, j - 1), c.m()[n]@);
        assert(ks.take(j) =~= ks.take(j - 1).push(n));
        assert(ks.take(j).contains(n)) by { assert(ks.take(j)[j - 1] == n); }
        if f.name@ == n {
            assert(!ks.take(j - 1).contains(n));
        } else {
            if ks.take(j).contains(f.name@) { let i = choose|i: int| 0 <= i < j && #[trigger] ks.take(j)[i] == f.name@; assert(ks.take(j - 1)[i] == f.name@); }
            if ks.take(j - 1).contains(f.name@) { let i = choose|i: int| 0 <= i < j - 1 && #[trigger] ks.take(j - 1)[i] == f.name@; assert(ks.take(j)[i] == f.name@); }
        }
    } else { assert(ks.take(0) =~= Seq::<Seq<char>>::empty()); Seq::<Event>::empty().to_multiset_ensures(); assert(flat_lists(c.m(), ks, 0) =~= Seq::<Event>::empty()); }
}
/// iterating a loaded contract yields each entry exactly once
pub proof fn theorem_each_event_once(c: HashMap<String, Vec<Event>>, ds: Seq<VxData>, k: int, s: Seq<Event>)
    requires has_evs(c, ds, k), all_of(c.m(), s),
    ensures s.to_multiset() == evs_all(ds, k).to_multiset(), s.len() == evs_all(ds, k).len(),
{
    let ks = choose|ks: Seq<Seq<char>>| lists_dom(ks, c.m()) && s == #[trigger] flat_lists(c.m(), ks, ks.len() as int);
    assert(ks.take(ks.len() as int) =~= ks);
    assert forall|f: Event| s.to_multiset().count(f) == evs_all(ds, k).to_multiset().count(f) by {
        lemma_evs_flat(c, ds, k, ks, ks.len() as int, f);
        lemma_evs_count(ds, k, f.name@, f);
        if !ks.contains(f.name@) { assert(!c.m().dom().contains(f.name@)); assert(evs_named(ds, k, f.name@) =~= Seq::<Event>::empty()); Seq::<Event>::empty().to_multiset_ensures(); }
    }
    assert(s.to_multiset() =~= evs_all(ds, k).to_multiset());
    s.to_multiset_ensures(); evs_all(ds, k).to_multiset_ensures();
}
} // verus!
