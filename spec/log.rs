// Logs.
verus! {
pub open spec fn hbytes(hs: Seq<H256>) -> Seq<Seq<u8>> { Seq::new(hs.len(), |i: int| hs[i].b@) }
pub open spec fn enames(ps: Seq<EventParam>) -> Seq<Seq<char>> { Seq::new(ps.len(), |i: int| ps[i].name@) }
#[verifier::opaque]
pub open spec fn lnames(ps: Seq<LogParam>) -> Seq<Seq<char>> { Seq::new(ps.len(), |i: int| ps[i].name@) }
#[verifier::opaque]
pub open spec fn lvals(ps: Seq<LogParam>) -> Seq<V> { Seq::new(ps.len(), |i: int| tv(ps[i].value)) }

/// types whose values are logged as they are
pub open spec fn plain(t: ParamType) -> bool { !(t is String || t is Bytes || t is Array || t is FixedArray || t is Tuple) }
pub open spec fn ttype(t: ParamType) -> ParamType { if plain(t) { t } else { ParamType::FixedBytes(32) } }
#[verifier::opaque]
pub open spec fn ttypes(ps: Seq<EventParam>) -> Seq<ParamType> { Seq::new(ps.len(), |i: int| ttype(ps[i].kind)) }
/// the value of a topic
pub open spec fn topic_val(t: ParamType, w: Seq<u8>) -> Option<V> {
    if plain(t) { match dec(t, w, 0) { Some(x) => Some(x.v), None => None } } else { Some(V::FixedBytes(w)) }
}
pub open spec fn topic_vals(ps: Seq<EventParam>, ws: Seq<Seq<u8>>) -> Option<Seq<V>> {
    if forall|i: int| 0 <= i < ps.len() ==> topic_val(#[trigger] ps[i].kind, ws[i]) is Some { Some(Seq::new(ps.len(), |i: int| topic_val(ps[i].kind, ws[i])->0)) } else { None }
}
/// the types there are: bytes<M> has M <= 32
pub open spec fn topics_valid(ps: Seq<EventParam>) -> bool { forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i].kind is FixedBytes ==> ps[i].kind->FixedBytes_0 <= 32) }
/// each parameter's value, by its rank
#[verifier::opaque]
pub open spec fn log_vals(ps: Seq<EventParam>, tvals: Seq<V>, dvals: Seq<V>) -> Seq<V> {
    Seq::new(ps.len(), |i: int| if ps[i].indexed { tvals[sel(ps, true, i).len() as int] } else { dvals[sel(ps, false, i).len() as int] })
}
/// parsing a log
pub open spec fn log_of(e: Event, ws: Seq<Seq<u8>>, d: Seq<u8>) -> Option<Seq<V>> {
    if !e.anonymous && (ws.len() == 0 || ws[0] != sig_hash(e.name@, tys(ekinds(e.inputs@)))) { None } else {
        let ts = if e.anonymous { ws } else { ws.subrange(1, ws.len() as int) };
        if ts.len() != all_sel(e.inputs@, true).len() { None } else {
            match topic_vals(all_sel(e.inputs@, true), ts) {
                None => None,
                Some(a) => match dec_list(ekinds(all_sel(e.inputs@, false)), d) { None => None, Some(b) => Some(log_vals(e.inputs@, a, b)) },
            }
        }
    }
}
/// the bytes of topics lo..i
#[verifier::opaque]
pub open spec fn hflat(hs: Seq<H256>, lo: int, i: int) -> Seq<u8>
    decreases i
{ if i <= lo || i > hs.len() || lo < 0 { Seq::empty() } else { hflat(hs, lo, i - 1) + hs[i - 1].b@ } }

pub broadcast proof fn lemma_ttypes(ps: Seq<EventParam>) ensures (#[trigger] ttypes(ps)).len() == ps.len() { reveal(ttypes); }
pub broadcast proof fn lemma_ttypes_index(ps: Seq<EventParam>, i: int) requires 0 <= i < ps.len() ensures #[trigger] ttypes(ps)[i] == ttype(ps[i].kind) { reveal(ttypes); }
pub broadcast proof fn lemma_hflat_0(hs: Seq<H256>, lo: int, i: int) requires i <= lo ensures #[trigger] hflat(hs, lo, i) == Seq::<u8>::empty() { reveal(hflat); }
pub broadcast proof fn lemma_lvals_push(ps: Seq<LogParam>, p: LogParam) ensures #[trigger] lvals(ps.push(p)) == lvals(ps).push(tv(p.value)) { reveal(lvals); assert(lvals(ps.push(p)) =~= lvals(ps).push(tv(p.value))); }
pub broadcast proof fn lemma_lnames_push(ps: Seq<LogParam>, p: LogParam) ensures #[trigger] lnames(ps.push(p)) == lnames(ps).push(p.name@) { reveal(lnames); assert(lnames(ps.push(p)) =~= lnames(ps).push(p.name@)); }
pub broadcast proof fn lemma_lvals_0(ps: Seq<LogParam>) requires ps.len() == 0 ensures #[trigger] lvals(ps) == Seq::<V>::empty() { reveal(lvals); assert(lvals(ps) =~= Seq::<V>::empty()); }
pub broadcast proof fn lemma_lnames_0(ps: Seq<LogParam>) requires ps.len() == 0 ensures #[trigger] lnames(ps) == Seq::<Seq<char>>::empty() { reveal(lnames); assert(lnames(ps) =~= Seq::<Seq<char>>::empty()); }
pub broadcast proof fn lemma_log_vals(ps: Seq<EventParam>, a: Seq<V>, b: Seq<V>) ensures (#[trigger] log_vals(ps, a, b)).len() == ps.len() { reveal(log_vals); }
pub broadcast proof fn lemma_log_vals_index(ps: Seq<EventParam>, a: Seq<V>, b: Seq<V>, i: int) requires 0 <= i < ps.len()
    ensures #[trigger] log_vals(ps, a, b)[i] == if ps[i].indexed { a[sel(ps, true, i).len() as int] } else { b[sel(ps, false, i).len() as int] } { reveal(log_vals); }
pub broadcast proof fn lemma_ttypes_push(ps: Seq<EventParam>, p: EventParam) ensures #[trigger] ttypes(ps.push(p)) == ttypes(ps).push(ttypes(seq![p])[0]) { reveal(ttypes); assert(ttypes(ps.push(p)) =~= ttypes(ps).push(ttypes(seq![p])[0])); }
pub broadcast proof fn lemma_ttypes_0() ensures #[trigger] ttypes(Seq::<EventParam>::empty()) == Seq::<ParamType>::empty() { reveal(ttypes); assert(ttypes(Seq::<EventParam>::empty()) =~= Seq::<ParamType>::empty()); }
pub broadcast group group_log { lemma_ttypes_push, lemma_ttypes_0, lemma_ttypes, lemma_ttypes_index, lemma_hflat_0, lemma_sel_0, lemma_lvals_push, lemma_lnames_push, lemma_lvals_0, lemma_lnames_0, lemma_log_vals, lemma_log_vals_index }

pub proof fn lemma_hflat_step(hs: Seq<H256>, lo: int, i: int)
    ensures 0 <= lo <= i < hs.len() ==> hflat(hs, lo, i + 1) == hflat(hs, lo, i) + hs[i].b@,
{ reveal_with_fuel(hflat, 2); }
pub proof fn lemma_hflat(hs: Seq<H256>, lo: int, j: int)
    requires 0 <= lo <= j <= hs.len(),
    ensures
        hflat(hs, lo, j).len() == 32 * (j - lo),
        forall|i: int| lo <= i < j ==> hflat(hs, lo, j).subrange(32 * (i - lo), 32 * (i - lo) + 32) =~= (#[trigger] hs[i]).b@,
    decreases j
{
    reveal_with_fuel(hflat, 2);
    if lo < j {
        lemma_hflat(hs, lo, j - 1);
        let f = hflat(hs, lo, j); let g = hflat(hs, lo, j - 1);
        assert(f =~= g + hs[j - 1].b@);
        assert forall|i: int| lo <= i < j implies f.subrange(32 * (i - lo), 32 * (i - lo) + 32) =~= (#[trigger] hs[i]).b@ by {
            if i < j - 1 { assert(f.subrange(32 * (i - lo), 32 * (i - lo) + 32) =~= g.subrange(32 * (i - lo), 32 * (i - lo) + 32)); }
        }
    }
}
/// a value type at offset o of a list is what its word says
pub proof fn lemma_topic(t: ParamType, d: Seq<u8>, o: int, w: Seq<u8>)
    requires 0 <= o, o + 32 <= d.len(), w == d.subrange(o, o + 32), t is FixedBytes ==> t->FixedBytes_0 <= 32,
    ensures
        dec(ttype(t), d, o) is Some <==> topic_val(t, w) is Some,
        dec(ttype(t), d, o) is Some ==> dec(ttype(t), d, o)->0.v == topic_val(t, w)->0 && dec(ttype(t), d, o)->0.o == o + 32,
{
    lemma_dec(ttype(t), d, o);
    lemma_dec(t, w, 0);
    assert(w.subrange(0, 32) =~= w);
    if t is FixedBytes { let n = t->FixedBytes_0 as int; assert(w.subrange(0, n) =~= d.subrange(o, o + n)); }
}
pub proof fn lemma_each_len(ts: Seq<ParamType>, d: Seq<u8>, o: int, n: int)
    requires 0 <= n <= ts.len(),
    ensures each(ts, d, o, n) is Some ==> each(ts, d, o, n)->0.vs.len() == n,
    decreases n
{ if n <= 0 { lemma_each_0(ts, d, o, n); } else { lemma_each_len(ts, d, o, n - 1); lemma_each_step(ts, d, o, n - 1, n); } }
/// decoding topics one after the other
pub proof fn lemma_topics(ps: Seq<EventParam>, hs: Seq<H256>, lo: int, n: int)
    requires 0 <= lo, hs.len() - lo == ps.len(), topics_valid(ps), 0 <= n <= ps.len(),
    ensures ({
        let r = each(ttypes(ps), hflat(hs, lo, hs.len() as int), 0, n);
        &&& r is Some <==> forall|i: int| 0 <= i < n ==> topic_val(#[trigger] ps[i].kind, hs[lo + i].b@) is Some
        &&& r is Some ==> r->0.o == 32 * n && r->0.vs.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] r->0.vs[i] == topic_val(ps[i].kind, hs[lo + i].b@)->0
    }),
    decreases n
{
    let d = hflat(hs, lo, hs.len() as int);
    if n <= 0 { lemma_each_0(ttypes(ps), d, 0, n); } else {
        lemma_topics(ps, hs, lo, n - 1);
        lemma_ttypes(ps); lemma_ttypes_index(ps, n - 1);
        lemma_each_step(ttypes(ps), d, 0, n - 1, n);
        lemma_hflat(hs, lo, hs.len() as int);
        assert(hs[lo + n - 1].b@ =~= d.subrange(32 * (n - 1), 32 * (n - 1) + 32));
        assert(ps[n - 1].kind is FixedBytes ==> ps[n - 1].kind->FixedBytes_0 <= 32);
        lemma_topic(ps[n - 1].kind, d, 32 * (n - 1), hs[lo + n - 1].b@);
    }
}
pub proof fn lemma_sel_kinds(ps: Seq<EventParam>, b: bool, n: int)
    requires topics_valid(ps), 0 <= n <= ps.len(),
    ensures topics_valid(sel(ps, b, n)),
    decreases n
{
    reveal_with_fuel(sel, 2);
    if n > 0 {
        lemma_sel_kinds(ps, b, n - 1);
        assert(ps[n - 1].kind is FixedBytes ==> ps[n - 1].kind->FixedBytes_0 <= 32);
        assert forall|i: int| 0 <= i < sel(ps, b, n).len() implies (#[trigger] sel(ps, b, n)[i].kind is FixedBytes ==> sel(ps, b, n)[i].kind->FixedBytes_0 <= 32) by {
            if i < sel(ps, b, n - 1).len() { assert(sel(ps, b, n)[i] == sel(ps, b, n - 1)[i]); assert(sel(ps, b, n - 1)[i].kind is FixedBytes ==> sel(ps, b, n - 1)[i].kind->FixedBytes_0 <= 32); }
        }
    }
}
/// decoding the topics at once is decoding each of them
pub proof fn lemma_log(e: Event, hs: Seq<H256>, d: Seq<u8>)
    ensures ({
        let lo = if e.anonymous { 0int } else { 1int };
        let ip = all_sel(e.inputs@, true);
        let ts = if e.anonymous { hbytes(hs) } else { hbytes(hs).subrange(1, hs.len() as int) };
        let r = dec_list(ttypes(ip), hflat(hs, lo, hs.len() as int));
        let r2 = dec_list(ekinds(all_sel(e.inputs@, false)), d);
        &&& hs.len() >= lo ==> hflat(hs, lo, hs.len() as int).len() == 32 * (hs.len() - lo)
        &&& r is Some ==> r->0.len() == ip.len()
        &&& r2 is Some ==> r2->0.len() == all_sel(e.inputs@, false).len()
        &&& topics_valid(e.inputs@) && hs.len() >= lo && hs.len() - lo == ip.len() ==> r == topic_vals(ip, ts)
    }),
{
    let lo = if e.anonymous { 0int } else { 1int };
    let ip = all_sel(e.inputs@, true);
    let dp = all_sel(e.inputs@, false);
    let f = hflat(hs, lo, hs.len() as int);
    lemma_ttypes(ip); lemma_ekinds(dp);
    lemma_each_len(ttypes(ip), f, 0, ip.len() as int);
    lemma_each_len(ekinds(dp), d, 0, dp.len() as int);
    if hs.len() >= lo { lemma_hflat(hs, lo, hs.len() as int); }
    if topics_valid(e.inputs@) && hs.len() >= lo && hs.len() - lo == ip.len() {
        lemma_sel_kinds(e.inputs@, true, e.inputs@.len() as int);
        lemma_topics(ip, hs, lo, ip.len() as int);
        let ts = if e.anonymous { hbytes(hs) } else { hbytes(hs).subrange(1, hs.len() as int) };
        assert forall|i: int| 0 <= i < ip.len() implies ts[i] == hs[lo + i].b@ by { }
        let r = dec_list(ttypes(ip), f);
        if r is Some {
            assert forall|i: int| 0 <= i < ip.len() implies topic_val(#[trigger] ip[i].kind, ts[i]) is Some by { assert(topic_val(ip[i].kind, hs[lo + i].b@) is Some); }
            assert(r->0 =~= topic_vals(ip, ts)->0);
        } else if topic_vals(ip, ts) is Some {
            assert forall|i: int| 0 <= i < ip.len() implies topic_val(#[trigger] ip[i].kind, hs[lo + i].b@) is Some by { assert(ts[i] == hs[lo + i].b@); }
            assert(false);
        }
    }
}
} // verus!
