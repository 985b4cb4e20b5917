// Indexed and other parameters of an event.
verus! {
impl VxClone for EventParam {
    open spec fn vx_clone_ok(&self, r: EventParam) -> bool { r == *self }
    #[verifier::external_body] fn vx_clone(&self) -> EventParam { unimplemented!() }
}
/// the parameters with that indexed flag among the first n
#[verifier::opaque]
pub open spec fn sel(ps: Seq<EventParam>, b: bool, n: int) -> Seq<EventParam>
    decreases n
{
    if n <= 0 || n > ps.len() { Seq::empty() } else if ps[n - 1].indexed == b { sel(ps, b, n - 1).push(ps[n - 1]) } else { sel(ps, b, n - 1) }
}
pub open spec fn all_sel(ps: Seq<EventParam>, b: bool) -> Seq<EventParam> { sel(ps, b, ps.len() as int) }
pub broadcast proof fn lemma_sel_0(ps: Seq<EventParam>, b: bool) ensures #[trigger] sel(ps, b, 0) == Seq::<EventParam>::empty() { reveal(sel); }
pub proof fn lemma_sel_len(ps: Seq<EventParam>, b: bool, i: int, j: int)
    requires 0 <= i <= j <= ps.len(),
    ensures sel(ps, b, i).len() <= sel(ps, b, j).len(), sel(ps, b, j).len() <= j,
    decreases j
{ reveal_with_fuel(sel, 2); if j > 0 { if i < j { lemma_sel_len(ps, b, i, j - 1); } else { lemma_sel_len(ps, b, j - 1, j - 1); } } }
/// one more parameter
pub proof fn lemma_sel_step(ps: Seq<EventParam>, i: int)
    ensures
        0 <= i < ps.len() ==> sel(ps, true, i + 1) == (if ps[i].indexed { sel(ps, true, i).push(ps[i]) } else { sel(ps, true, i) }),
        0 <= i < ps.len() ==> sel(ps, false, i + 1) == (if ps[i].indexed { sel(ps, false, i) } else { sel(ps, false, i).push(ps[i]) }),
        0 <= i < ps.len() && ps[i].indexed ==> sel(ps, true, i).len() < all_sel(ps, true).len(),
        0 <= i < ps.len() && !ps[i].indexed ==> sel(ps, false, i).len() < all_sel(ps, false).len(),
{
    if 0 <= i < ps.len() {
        reveal_with_fuel(sel, 2);
        lemma_sel_len(ps, true, i + 1, ps.len() as int);
        lemma_sel_len(ps, false, i + 1, ps.len() as int);
    }
}
} // verus!
