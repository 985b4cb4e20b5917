// Parameters of functions and events.
verus! {
#[verifier::opaque]
pub open spec fn kinds(ps: Seq<Param>) -> Seq<ParamType> { Seq::new(ps.len(), |i: int| ps[i].kind) }
#[verifier::opaque]
pub open spec fn ekinds(ps: Seq<EventParam>) -> Seq<ParamType> { Seq::new(ps.len(), |i: int| ps[i].kind) }
pub broadcast proof fn lemma_kinds(ps: Seq<Param>) ensures (#[trigger] kinds(ps)).len() == ps.len() { reveal(kinds); }
pub broadcast proof fn lemma_kinds_index(ps: Seq<Param>, i: int) requires 0 <= i < ps.len() ensures #[trigger] kinds(ps)[i] == ps[i].kind { reveal(kinds); }
pub broadcast proof fn lemma_ekinds(ps: Seq<EventParam>) ensures (#[trigger] ekinds(ps)).len() == ps.len() { reveal(ekinds); }
pub broadcast proof fn lemma_ekinds_index(ps: Seq<EventParam>, i: int) requires 0 <= i < ps.len() ensures #[trigger] ekinds(ps)[i] == ps[i].kind { reveal(ekinds); }
pub broadcast proof fn lemma_ekinds_push(ps: Seq<EventParam>, p: EventParam) ensures #[trigger] ekinds(ps.push(p)) == ekinds(ps).push(p.kind) { reveal(ekinds); assert(ekinds(ps.push(p)) =~= ekinds(ps).push(p.kind)); }
pub broadcast proof fn lemma_ekinds_0() ensures #[trigger] ekinds(Seq::<EventParam>::empty()) == Seq::<ParamType>::empty() { reveal(ekinds); assert(ekinds(Seq::<EventParam>::empty()) =~= Seq::<ParamType>::empty()); }
pub broadcast proof fn lemma_take_step<T>(s: Seq<T>, i: int) requires 0 <= i < s.len() ensures #[trigger] s.take(i + 1) == s.take(i).push(s[i]) { assert(s.take(i + 1) =~= s.take(i).push(s[i])); }
pub broadcast proof fn lemma_take_all<T>(s: Seq<T>, i: int) requires i == s.len() ensures #[trigger] s.take(i) == s { assert(s.take(i) =~= s); }
pub broadcast proof fn lemma_take_0<T>(s: Seq<T>) ensures #[trigger] s.take(0) == Seq::<T>::empty() { assert(s.take(0) =~= Seq::<T>::empty()); }
/// a name is not empty
pub broadcast proof fn lemma_list_text_nonempty(ts: Seq<TY>)
    ensures blen(#[trigger] list_text(ts)) == 0 <==> ts.len() == 0, list_text(ts).len() == 0 <==> ts.len() == 0,
{ lemma_nonempty(ts, ts.len() as int); }
pub proof fn lemma_tname_pos(t: TY) ensures tname(t, true).len() > 0
    decreases t
{ lemma_tname(t, true); reveal_strlit("address"); reveal_strlit("bytes"); reveal_strlit("int"); reveal_strlit("uint"); reveal_strlit("bool"); reveal_strlit("string"); reveal_strlit("[]"); reveal_strlit("]"); reveal_strlit("("); }
pub proof fn lemma_nonempty(ts: Seq<TY>, k: int)
    requires k == ts.len(),
    ensures blen(list_text(ts)) == 0 <==> ts.len() == 0, list_text(ts).len() == 0 <==> ts.len() == 0,
{
    reveal(blen); reveal(joined); reveal(tnames);
    if ts.len() > 0 { lemma_tname_pos(ts.last()); lemma_tname_pos(ts[0]); assert(list_text(ts).len() > 0); assert(width(list_text(ts).last()) > 0); }
}
pub broadcast group group_sig { lemma_ekinds_push, lemma_ekinds_0, lemma_kinds, lemma_kinds_index, lemma_ekinds, lemma_ekinds_index, lemma_take_step, lemma_take_all, lemma_take_0, lemma_list_text_nonempty }
} // verus!
