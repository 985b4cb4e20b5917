// Byte positions and numbers in texts.
verus! {

// ---------------------------------------------------------------- byte positions
pub broadcast proof fn lemma_bpos_step(s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures #![trigger bpos(s, k), s[k]] bpos(s, k + 1) == bpos(s, k) + width(s[k]),
{ reveal(bpos); reveal_with_fuel(blen, 2); assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]); }
pub proof fn lemma_bpos_mono(s: Seq<char>, a: int, b: int)
    requires 0 <= a < b <= s.len(),
    ensures bpos(s, a) < bpos(s, b),
    decreases b - a
{ lemma_bpos_step(s, b - 1); if a < b - 1 { lemma_bpos_mono(s, a, b - 1); } }
pub broadcast proof fn lemma_bpos_inj(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= s.len(), 0 <= b <= s.len(),
    ensures #![trigger bpos(s, a), bpos(s, b)] a < b ==> bpos(s, a) < bpos(s, b), a == b ==> bpos(s, a) == bpos(s, b), a > b ==> bpos(s, a) > bpos(s, b),
{ if a < b { lemma_bpos_mono(s, a, b); } else if b < a { lemma_bpos_mono(s, b, a); } }
pub broadcast proof fn lemma_cidx(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures #![trigger bpos(s, k)] is_bnd(s, bpos(s, k) as int), cidx(s, bpos(s, k) as int) == k,
{ reveal(is_bnd); reveal(cidx); let j = cidx(s, bpos(s, k) as int); assert(bpos(s, k) == bpos(s, k)); assert(0 <= j <= s.len() && bpos(s, j) == bpos(s, k)); lemma_bpos_inj(s, j, k); }
pub proof fn lemma_bpos_count(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures k <= bpos(s, k),
    decreases k
{ if k > 0 { lemma_bpos_step(s, k - 1); lemma_bpos_count(s, k - 1); } }
/// the positions of the ends
pub proof fn lemma_ends(s: Seq<char>)
    ensures bpos(s, 0) == 0, bpos(s, s.len() as int) == blen(s), s.len() <= blen(s),
        s.len() > 0 ==> bpos(s, 1) == width(s[0]) && bpos(s, s.len() - 1) == blen(s) - width(s.last()),
{
    reveal(bpos); reveal_with_fuel(blen, 2); assert(s.take(0) =~= Seq::<char>::empty()); assert(s.take(s.len() as int) =~= s);
    lemma_bpos_count(s, s.len() as int);
    if s.len() > 0 { lemma_bpos_step(s, 0); lemma_bpos_step(s, s.len() - 1); }
}
pub broadcast proof fn lemma_ends_b(s: Seq<char>)
    ensures #![trigger blen(s)] bpos(s, 0) == 0, bpos(s, s.len() as int) == blen(s), s.len() <= blen(s),
        s.len() > 0 ==> bpos(s, 1) == width(s[0]) && bpos(s, s.len() - 1) == blen(s) - width(s.last()),
{ lemma_ends(s); }
pub proof fn lemma_ascii_prefix(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> (#[trigger] s[i] as u32) < 0x80,
    ensures bpos(s, k) == k,
    decreases k
{ if k > 0 { lemma_ascii_prefix(s, k - 1); lemma_bpos_step(s, k - 1); } else { lemma_ends(s); } }
pub broadcast proof fn lemma_prefix_pos(p: Seq<char>, s: Seq<char>)
    ensures #![trigger is_prefix(p, s)] is_prefix(p, s) && (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i] as u32) < 0x80) ==> bpos(s, p.len() as int) == p.len(),
{
    if is_prefix(p, s) && (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i] as u32) < 0x80) {
        assert forall|i: int| 0 <= i < p.len() implies (#[trigger] s[i] as u32) < 0x80 by { assert(s[i] == s.take(p.len() as int)[i]); }
        lemma_ascii_prefix(s, p.len() as int);
    }
}
pub broadcast proof fn lemma_prefix_1(c: char, s: Seq<char>)
    ensures #![trigger is_prefix(seq![c], s)] is_prefix(seq![c], s) == (s.len() > 0 && s[0] == c),
{ if s.len() > 0 { assert(s.take(1) =~= seq![s[0]]); assert(s.take(1)[0] == s[0]); if s[0] != c { assert(seq![c][0] == c); } } }
pub broadcast group group_bpos { lemma_bpos_step, lemma_bpos_inj, lemma_ends_b, lemma_cidx, lemma_prefix_pos, lemma_prefix_1 }

// ---------------------------------------------------------------- numbers
pub open spec fn is_digit(c: char) -> bool { 48 <= c as u32 && c as u32 <= 57 }
#[verifier::opaque]
pub open spec fn uval(s: Seq<char>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { (uval(s.drop_last()) * 10 + (s.last() as u32 - 48)) as nat } }
/// usize::from_str
#[verifier::opaque]
pub open spec fn pnum(s: Seq<char>) -> Option<nat> {
    let t = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if t.len() == 0 || !(forall|i: int| 0 <= i < t.len() ==> is_digit(#[trigger] t[i])) || uval(t) > usize::MAX { None } else { Some(uval(t)) }
}
pub struct ParseIntError { }
impl VxErr<Error> for ParseIntError { open spec fn err_ok(self, r: Error) -> bool { true } fn vx_err0(self) -> (r: Error) { Error::Int } }
pub trait VxFromStr: Sized { type E; spec fn from_str_ok(s: Seq<char>, r: Result<Self, Self::E>) -> bool; }
impl VxFromStr for usize {
    type E = ParseIntError;
    open spec fn from_str_ok(s: Seq<char>, r: Result<usize, ParseIntError>) -> bool { match pnum(s) { Some(n) => r is Ok && r->Ok_0 == n, None => r is Err } }
}
pub trait VxParse { spec fn pq(&self) -> Seq<char>; fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::E>) ensures T::from_str_ok(self.pq(), r); }
impl VxParse for str { open spec fn pq(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::E>) { unimplemented!() } }
impl VxParse for String { open spec fn pq(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::E>) { unimplemented!() } }

} // verus!
