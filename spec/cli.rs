// The command line: an ABI file, what is named in it, texts in and out.
verus! {
/// what the file at a path holds, if it can be opened and loaded
pub uninterp spec fn abi_file(path: Seq<char>) -> Option<Contract>;
#[verifier::external_body]
pub struct File { s: String }
pub struct IoError { }
impl VxErr<Error> for IoError { open spec fn err_ok(self, r: Error) -> bool { true } fn vx_err0(self) -> (r: Error) { Error::Io } }
impl File {
    pub uninterp spec fn path(&self) -> Seq<char>;
    #[verifier::external_body] pub fn open<P: VxTx>(p: P) -> (r: Result<File, IoError>)
        ensures r is Ok ==> r->Ok_0.path() == p.tx(), abi_file(p.tx()) is Some ==> r is Ok { unimplemented!() }
}
pub open spec fn nonempty<T>(m: Map<Seq<char>, Vec<T>>) -> bool { forall|n: Seq<char>| #![trigger m[n]] m.dom().contains(n) ==> m[n]@.len() > 0 }
pub fn vx_cli_error() -> Error { Error::Other }

// ---------------------------------------------------------------- what is named
pub open spec fn named<T>(m: Map<Seq<char>, Vec<T>>, n: Seq<char>) -> Seq<T> { if m.dom().contains(n) { m[n]@ } else { Seq::empty() } }
/// where the first opening parenthesis is
pub open spec fn par(n: Seq<char>, k: int) -> bool { 0 <= k < n.len() && n[k] == '(' && (forall|j: int| 0 <= j < k ==> n[j] != '(') }
pub open spec fn pname(n: Seq<char>) -> Seq<char> { n.take(choose|k: int| par(n, k)) }
pub proof fn lemma_word(n: Seq<char>, k: int) requires par(n, k) ensures pname(n) == n.take(k) { let j = choose|j: int| par(n, j); assert(par(n, j)); if j < k { assert(n[j] != '('); } if k < j { assert(n[k] != '('); } }
pub proof fn lemma_words(n: Seq<char>) ensures n.contains('(') ==> (exists|k: int| #[trigger] par(n, k)), forall|k: int| #![trigger par(n, k)] #![trigger bpos(n, k)] par(n, k) ==> n.contains('(') && pname(n) == n.take(k)
{
    assert forall|k: int| #[trigger] par(n, k) implies n.contains('(') && pname(n) == n.take(k) by { lemma_word(n, k); assert(n[k] == '('); }
    if n.contains('(') { let k = choose|k: int| 0 <= k < n.len() && n[k] == '('; lemma_first_par(n, k); }
}
pub proof fn lemma_first_par(n: Seq<char>, k: int) requires 0 <= k < n.len(), n[k] == '(' ensures exists|j: int| par(n, j) decreases k
{ if exists|j: int| 0 <= j < k && n[j] == '(' { let j = choose|j: int| 0 <= j < k && n[j] == '('; lemma_first_par(n, j); } else { assert(par(n, k)); } }
pub open spec fn fsig(f: Function) -> Seq<char> { sig_text(f.name@, tys(kinds(f.inputs@))) + (if f.outputs@.len() == 0 { Seq::empty() } else { ":("@ + list_text(tys(kinds(f.outputs@))) + ")"@ }) }
pub open spec fn esig(e: Event) -> Seq<u8> { sig_hash(e.name@, tys(ekinds(e.inputs@))) }
/// the first of the first k with that signature
#[verifier::opaque]
pub open spec fn first_f(fs: Seq<Function>, n: Seq<char>, k: int) -> Option<Function> decreases k
{ if k <= 0 { None } else if first_f(fs, n, k - 1) is Some { first_f(fs, n, k - 1) } else if fsig(fs[k - 1]) == n { Some(fs[k - 1]) } else { None } }
#[verifier::opaque]
pub open spec fn first_e(fs: Seq<Event>, h: Seq<u8>, k: int) -> Option<Event> decreases k
{ if k <= 0 { None } else if first_e(fs, h, k - 1) is Some { first_e(fs, h, k - 1) } else if esig(fs[k - 1]) == h { Some(fs[k - 1]) } else { None } }
pub broadcast proof fn lemma_first_f0(fs: Seq<Function>, n: Seq<char>, k: int) requires k <= 0 ensures #[trigger] first_f(fs, n, k) is None { reveal_with_fuel(first_f, 2); }
pub broadcast proof fn lemma_first_e0(fs: Seq<Event>, n: Seq<u8>, k: int) requires k <= 0 ensures #[trigger] first_e(fs, n, k) is None { reveal_with_fuel(first_e, 2); }
/// one step, and a hit stays one
pub proof fn lemma_first_f_step(fs: Seq<Function>, n: Seq<char>, k: int)
    ensures first_f(fs, n, 0) is None, k >= 0 ==> first_f(fs, n, k + 1) == (if first_f(fs, n, k) is Some { first_f(fs, n, k) } else if fsig(fs[k]) == n { Some(fs[k]) } else { None }),
        forall|j: int| k < j ==> first_f(fs, n, k + 1) is Some && k >= 0 ==> #[trigger] first_f(fs, n, j) == first_f(fs, n, k + 1)
{
    reveal_with_fuel(first_f, 2);
    assert forall|j: int| k < j && first_f(fs, n, k + 1) is Some && k >= 0 implies #[trigger] first_f(fs, n, j) == first_f(fs, n, k + 1) by { lemma_first_f_stays(fs, n, k + 1, j); }
}
pub proof fn lemma_first_f_stays(fs: Seq<Function>, n: Seq<char>, k: int, j: int) requires k <= j, first_f(fs, n, k) is Some ensures first_f(fs, n, j) == first_f(fs, n, k) decreases j - k
{ if k < j { lemma_first_f_stays(fs, n, k, j - 1); reveal_with_fuel(first_f, 2); if j <= 0 { } } }
pub proof fn lemma_first_e_step(fs: Seq<Event>, n: Seq<u8>, k: int)
    ensures first_e(fs, n, 0) is None, k >= 0 ==> first_e(fs, n, k + 1) == (if first_e(fs, n, k) is Some { first_e(fs, n, k) } else if esig(fs[k]) == n { Some(fs[k]) } else { None }),
        forall|j: int| k < j ==> first_e(fs, n, k + 1) is Some && k >= 0 ==> #[trigger] first_e(fs, n, j) == first_e(fs, n, k + 1)
{
    reveal_with_fuel(first_e, 2);
    assert forall|j: int| k < j && first_e(fs, n, k + 1) is Some && k >= 0 implies #[trigger] first_e(fs, n, j) == first_e(fs, n, k + 1) by { lemma_first_e_stays(fs, n, k + 1, j); }
}
pub proof fn lemma_first_e_stays(fs: Seq<Event>, n: Seq<u8>, k: int, j: int) requires k <= j, first_e(fs, n, k) is Some ensures first_e(fs, n, j) == first_e(fs, n, k) decreases j - k
{ if k < j { lemma_first_e_stays(fs, n, k, j - 1); reveal_with_fuel(first_e, 2); if j <= 0 { } } }
pub open spec fn hit<T>(r: Option<&T>, s: Option<T>) -> bool { match s { Some(x) => r is Some && *r->0 == x, None => r is None } }
pub open spec fn hit_at<T>(r: Option<usize>, l: Seq<T>, s: Option<T>) -> bool { match s { Some(x) => r is Some && r->0 < l.len() && l[r->0 as int] == x, None => r is None } }
/// a text without its spaces
pub uninterp spec fn unspaced(n: Seq<char>) -> Seq<char>;
pub open spec fn hash_of(n: Seq<char>) -> Seq<u8> { keccak(vstd::utf8::encode_utf8(unspaced(n))) }
/// the function that is meant: by a name that is not overloaded, or by its signature
pub open spec fn pick_f(c: Contract, n: Seq<char>) -> Option<Function> {
    if n.contains('(') { let l = named(c.functions.m(), pname(n)); first_f(l, n, l.len() as int) }
    else { let l = named(c.functions.m(), n); if l.len() == 1 { Some(l[0]) } else { None } }
}
pub open spec fn pick_e(c: Contract, n: Seq<char>) -> Option<Event> {
    if n.contains('(') { let l = named(c.events.m(), pname(n)); first_e(l, hash_of(n), l.len() as int) }
    else { let l = named(c.events.m(), n); if l.len() == 1 { Some(l[0]) } else { None } }
}
pub open spec fn the_f(path: Seq<char>, n: Seq<char>) -> Option<Function> { match abi_file(path) { Some(c) => pick_f(c, n), None => None } }
pub open spec fn the_e(path: Seq<char>, n: Seq<char>) -> Option<Event> { match abi_file(path) { Some(c) => pick_e(c, n), None => None } }

// ---------------------------------------------------------------- texts to values
#[verifier::opaque]
pub open spec fn read_list(l: bool, ts: Seq<TY>, xs: Seq<Seq<char>>, k: int) -> Option<Seq<V>> decreases k
{ if k <= 0 { Some(Seq::empty()) } else { match (read_list(l, ts, xs, k - 1), tok(l, ts[k - 1], xs[k - 1])) { (Some(vs), Some(v)) => Some(vs.push(v)), _ => None } } }
pub proof fn lemma_read_step(l: bool, ts: Seq<TY>, xs: Seq<Seq<char>>, k: int)
    ensures read_list(l, ts, xs, 0) == Some(Seq::<V>::empty()),
        k >= 0 ==> read_list(l, ts, xs, k + 1) == (match (read_list(l, ts, xs, k), tok(l, ts[k], xs[k])) { (Some(vs), Some(v)) => Some(vs.push(v)), _ => None }),
        forall|j: int| k < j && k >= 0 && read_list(l, ts, xs, k + 1) is None ==> #[trigger] read_list(l, ts, xs, j) is None
{
    reveal_with_fuel(read_list, 2);
    assert forall|j: int| k < j && k >= 0 && read_list(l, ts, xs, k + 1) is None implies #[trigger] read_list(l, ts, xs, j) is None by { lemma_read_none(l, ts, xs, k + 1, j); }
}
pub proof fn lemma_read_none(l: bool, ts: Seq<TY>, xs: Seq<Seq<char>>, k: int, j: int) requires 0 <= k <= j, read_list(l, ts, xs, k) is None ensures read_list(l, ts, xs, j) is None decreases j
{ if k < j { lemma_read_none(l, ts, xs, k, j - 1); reveal_with_fuel(read_list, 2); } }
#[verifier::opaque]
pub open spec fn ptys(ps: Seq<(ParamType, &str)>) -> Seq<TY> { Seq::new(ps.len(), |i: int| ty(ps[i].0)) }
#[verifier::opaque]
pub open spec fn ptxts(ps: Seq<(ParamType, &str)>) -> Seq<Seq<char>> { Seq::new(ps.len(), |i: int| ps[i].1@) }

// ---------------------------------------------------------------- values to texts
/// one line for each: its type or name, and the value
#[verifier::opaque]
pub open spec fn lines(a: Seq<Seq<char>>, vs: Seq<V>) -> Seq<Seq<char>> { Seq::new(vs.len(), |i: int| a[i] + " "@ + shown(vs[i])) }
pub broadcast proof fn lemma_lines(a: Seq<Seq<char>>, vs: Seq<V>) ensures (#[trigger] lines(a, vs)).len() == vs.len() { reveal(lines); }
pub broadcast proof fn lemma_lines_index(a: Seq<Seq<char>>, vs: Seq<V>, i: int) requires 0 <= i < vs.len() ensures #[trigger] lines(a, vs)[i] == a[i] + " "@ + shown(vs[i]) { reveal(lines); }
/// itertools: pairs of consecutive elements, a last one without a partner is left out
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct VxPairs<'a, T> { s: &'a [T] }
impl<'a, T> VxPairs<'a, T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn vx_len(&self) -> (r: usize) ensures r == self@.len() / 2 { unimplemented!() }
    #[verifier::external_body] pub fn vx_at(&self, i: usize) -> (r: (&'a T, &'a T)) requires i < self@.len() / 2 ensures *r.0 == self@[2 * i], *r.1 == self@[2 * i + 1] { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_pairs<T>(s: &[T]) -> (r: VxPairs<'_, T>) ensures r@ == s@ { unimplemented!() }
/// the types and the texts of such pairs
#[verifier::opaque]
pub open spec fn evens(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len() / 2, |i: int| s[2 * i]@) }
#[verifier::opaque]
pub open spec fn odds(s: Seq<String>) -> Seq<Seq<char>> { Seq::new(s.len() / 2, |i: int| s[2 * i + 1]@) }
/// the types that texts name
#[verifier::opaque]
pub open spec fn rds(s: Seq<Seq<char>>, k: int) -> Option<Seq<TY>> decreases k
{ if k <= 0 { Some(Seq::empty()) } else { match (rds(s, k - 1), rd(s[k - 1])) { (Some(ts), Some(t)) => Some(ts.push(t)), _ => None } } }
pub proof fn lemma_rds_step(s: Seq<Seq<char>>, k: int)
    ensures rds(s, 0) == Some(Seq::<TY>::empty()), k >= 0 ==> rds(s, k + 1) == (match (rds(s, k), rd(s[k])) { (Some(ts), Some(t)) => Some(ts.push(t)), _ => None }),
        forall|j: int| k < j && k >= 0 && rds(s, k + 1) is None ==> #[trigger] rds(s, j) is None
{
    reveal_with_fuel(rds, 2);
    assert forall|j: int| k < j && k >= 0 && rds(s, k + 1) is None implies #[trigger] rds(s, j) is None by { lemma_rds_none(s, k + 1, j); }
}
pub proof fn lemma_rds_none(s: Seq<Seq<char>>, k: int, j: int) requires 0 <= k <= j, rds(s, k) is None ensures rds(s, j) is None decreases j
{ if k < j { lemma_rds_none(s, k, j - 1); reveal_with_fuel(rds, 2); } }
/// the hashes that texts give (H256::from_str)
pub uninterp spec fn hash_text(s: Seq<char>) -> Option<Seq<u8>>;
pub struct FromHexErr { }
impl VxErr<Error> for FromHexErr { open spec fn err_ok(self, r: Error) -> bool { true } fn vx_err0(self) -> (r: Error) { Error::Hex } }
impl VxFromStr for H256 {
    type E = FromHexErr;
    open spec fn from_str_ok(s: Seq<char>, r: Result<H256, FromHexErr>) -> bool { match hash_text(s) { Some(b) => r is Ok && r->Ok_0.b@ == b, None => r is Err } }
}
#[verifier::opaque]
pub open spec fn hashes(s: Seq<Seq<char>>, k: int) -> Option<Seq<Seq<u8>>> decreases k
{ if k <= 0 { Some(Seq::empty()) } else { match (hashes(s, k - 1), hash_text(s[k - 1])) { (Some(ts), Some(t)) => Some(ts.push(t)), _ => None } } }
pub proof fn lemma_hashes_step(s: Seq<Seq<char>>, k: int)
    ensures hashes(s, 0) == Some(Seq::<Seq<u8>>::empty()), k >= 0 ==> hashes(s, k + 1) == (match (hashes(s, k), hash_text(s[k])) { (Some(ts), Some(t)) => Some(ts.push(t)), _ => None }),
        forall|j: int| k < j && k >= 0 && hashes(s, k + 1) is None ==> #[trigger] hashes(s, j) is None
{
    reveal_with_fuel(hashes, 2);
    assert forall|j: int| k < j && k >= 0 && hashes(s, k + 1) is None implies #[trigger] hashes(s, j) is None by { lemma_hashes_none(s, k + 1, j); }
}
pub proof fn lemma_hashes_none(s: Seq<Seq<char>>, k: int, j: int) requires 0 <= k <= j, hashes(s, k) is None ensures hashes(s, j) is None decreases j
{ if k < j { lemma_hashes_none(s, k, j - 1); reveal_with_fuel(hashes, 2); } }
impl VxInto<RawLog> for (Vec<H256>, Vec<u8>) {
    open spec fn vx_into_ok(self, r: RawLog) -> bool { r.topics == self.0 && r.data == self.1 }
    fn vx_into(self) -> (r: RawLog) { RawLog { topics: self.0, data: self.1 } }
}
/// what is replaced: a text or a character
pub trait VxSubst { spec fn pt(&self) -> Seq<char>; }
impl VxSubst for &str { open spec fn pt(&self) -> Seq<char> { self@ } }
impl VxSubst for char { open spec fn pt(&self) -> Seq<char> { seq![*self] } }
pub trait VxReplace { spec fn rp(&self) -> Seq<char>; fn vx_replace<P: VxSubst>(&self, a: P, b: &str) -> (r: String) ensures a.pt() == " "@ && b@.len() == 0 ==> r@ == unspaced(self.rp()); }
impl VxReplace for str { open spec fn rp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_replace<P: VxSubst>(&self, a: P, b: &str) -> (r: String) { unimplemented!() } }
impl VxReplace for String { open spec fn rp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_replace<P: VxSubst>(&self, a: P, b: &str) -> (r: String) { unimplemented!() } }
impl VxClone for Function { open spec fn vx_clone_ok(&self, r: Function) -> bool { r == *self } #[verifier::external_body] fn vx_clone(&self) -> Function { unimplemented!() } }
impl VxClone for Event { open spec fn vx_clone_ok(&self, r: Event) -> bool { r == *self } #[verifier::external_body] fn vx_clone(&self) -> Event { unimplemented!() } }
pub open spec fn call_fits(f: Function, l: bool, xs: Seq<Seq<char>>) -> bool { match read_list(l, tys(kinds(f.inputs@)), xs, if xs.len() < f.inputs@.len() { xs.len() as int } else { f.inputs@.len() as int }) { Some(vs) => list_fits(vs), None => true } }
/// a call: a value for each input
pub open spec fn call_of(f: Function, l: bool, xs: Seq<Seq<char>>) -> Option<Seq<u8>> {
    if xs.len() != f.inputs@.len() { None } else {
        match read_list(l, tys(kinds(f.inputs@)), xs, xs.len() as int) { Some(vs) => if oftypes(vs, kinds(f.inputs@)) { Some(sig_hash(f.name@, tys(kinds(f.inputs@))).take(4) + enc_list(vs)) } else { None }, None => None }
    }
}
/// types followed by their texts
pub open spec fn params_of(l: bool, s: Seq<String>) -> Option<Seq<V>> {
    match rds(evens(s), s.len() as int / 2) { Some(ts) => read_list(l, ts, odds(s), s.len() as int / 2), None => None }
}
pub proof fn lemma_read_len(l: bool, ts: Seq<TY>, xs: Seq<Seq<char>>, k: int) ensures k >= 0 && read_list(l, ts, xs, k) is Some ==> read_list(l, ts, xs, k)->0.len() == k decreases k
{ reveal_with_fuel(read_list, 2); if k > 0 { lemma_read_len(l, ts, xs, k - 1); } }
pub proof fn lemma_read_take1(l: bool, ts: Seq<TY>, xs: Seq<Seq<char>>, n: int, k: int) requires 0 <= k <= n, n <= ts.len(), n <= xs.len() ensures read_list(l, ts.take(n), xs.take(n), k) == read_list(l, ts, xs, k) decreases k
{ reveal_with_fuel(read_list, 2); if k > 0 { lemma_read_take1(l, ts, xs, n, k - 1); } }
pub proof fn lemma_read_take(l: bool, ts: Seq<TY>, xs: Seq<Seq<char>>)
    ensures forall|k: int| #![trigger ts.take(k), xs.take(k)] 0 <= k <= ts.len() && k <= xs.len() ==> read_list(l, ts.take(k), xs.take(k), k) == read_list(l, ts, xs, k)
{ assert forall|k: int| #![trigger ts.take(k), xs.take(k)] 0 <= k <= ts.len() && k <= xs.len() implies read_list(l, ts.take(k), xs.take(k), k) == read_list(l, ts, xs, k) by { lemma_read_take1(l, ts, xs, k, k); } }
pub broadcast proof fn lemma_ptys(ps: Seq<(ParamType, &str)>) ensures (#[trigger] ptys(ps)).len() == ps.len(), ps.len() == 0 ==> ptys(ps) == Seq::<TY>::empty() { reveal(ptys); if ps.len() == 0 { assert(ptys(ps) =~= Seq::empty()); } }
pub broadcast proof fn lemma_ptxts(ps: Seq<(ParamType, &str)>) ensures (#[trigger] ptxts(ps)).len() == ps.len(), ps.len() == 0 ==> ptxts(ps) == Seq::<Seq<char>>::empty() { reveal(ptxts); if ps.len() == 0 { assert(ptxts(ps) =~= Seq::empty()); } }
pub broadcast proof fn lemma_ptys_index(ps: Seq<(ParamType, &str)>, i: int) requires 0 <= i < ps.len() ensures #[trigger] ptys(ps)[i] == ty(ps[i].0) { reveal(ptys); }
pub broadcast proof fn lemma_ptxts_index(ps: Seq<(ParamType, &str)>, i: int) requires 0 <= i < ps.len() ensures #[trigger] ptxts(ps)[i] == ps[i].1@ { reveal(ptxts); }
pub broadcast proof fn lemma_ptys_push(ps: Seq<(ParamType, &str)>, x: (ParamType, &str)) ensures #[trigger] ptys(ps.push(x)) == ptys(ps).push(ty(x.0)) { reveal(ptys); assert(ptys(ps.push(x)) =~= ptys(ps).push(ty(x.0))); }
pub broadcast proof fn lemma_ptxts_push(ps: Seq<(ParamType, &str)>, x: (ParamType, &str)) ensures #[trigger] ptxts(ps.push(x)) == ptxts(ps).push(x.1@) { reveal(ptxts); assert(ptxts(ps.push(x)) =~= ptxts(ps).push(x.1@)); }
pub broadcast proof fn lemma_evens(s: Seq<String>) ensures (#[trigger] evens(s)).len() == s.len() / 2 { reveal(evens); }
pub broadcast proof fn lemma_odds(s: Seq<String>) ensures (#[trigger] odds(s)).len() == s.len() / 2 { reveal(odds); }
pub broadcast proof fn lemma_evens_index(s: Seq<String>, i: int) requires 0 <= i < s.len() / 2 ensures #[trigger] evens(s)[i] == s[2 * i]@ { reveal(evens); }
pub broadcast proof fn lemma_odds_index(s: Seq<String>, i: int) requires 0 <= i < s.len() / 2 ensures #[trigger] odds(s)[i] == s[2 * i + 1]@ { reveal(odds); }
pub broadcast proof fn lemma_dec_list_len(ps: Seq<ParamType>, d: Seq<u8>) ensures #[trigger] dec_list(ps, d) is Some ==> dec_list(ps, d)->0.len() == ps.len() { lemma_each_len(ps, d, 0, ps.len() as int); }
pub broadcast proof fn lemma_hbytes_push(hs: Seq<H256>, h: H256) ensures #[trigger] hbytes(hs.push(h)) == hbytes(hs).push(h.b@) { assert(hbytes(hs.push(h)) =~= hbytes(hs).push(h.b@)); }
pub broadcast proof fn lemma_hbytes_0(hs: Seq<H256>) requires hs.len() == 0 ensures #[trigger] hbytes(hs) == Seq::<Seq<u8>>::empty() { assert(hbytes(hs) =~= Seq::empty()); }
pub broadcast proof fn lemma_lnames_i(ps: Seq<LogParam>, i: int) requires 0 <= i < ps.len() ensures #[trigger] lnames(ps)[i] == ps[i].name@ { reveal(lnames); }
pub broadcast proof fn lemma_lvals_i(ps: Seq<LogParam>, i: int) requires 0 <= i < ps.len() ensures #[trigger] lvals(ps)[i] == tv(ps[i].value) { reveal(lvals); }
pub broadcast proof fn lemma_lvals_n(ps: Seq<LogParam>) ensures (#[trigger] lvals(ps)).len() == ps.len() { reveal(lvals); }
pub proof fn lemma_tys_0() ensures tys(Seq::<ParamType>::empty()) == Seq::<TY>::empty() { lemma_tys(Seq::<ParamType>::empty()); assert(tys(Seq::<ParamType>::empty()) =~= Seq::<TY>::empty()); }
/// what a command line means to structopt
#[verifier::external_body]
pub struct VxArgs { s: String }
pub uninterp spec fn opt_of(a: VxArgs) -> Opt;
impl Opt { #[verifier::external_body] pub fn from_iter(a: VxArgs) -> (r: Opt) ensures r == opt_of(a) { unimplemented!() } }
pub open spec fn fn_done(path: Seq<char>, n: Seq<char>, vs: Seq<String>, l: bool, r: Result<String, Error>) -> bool
{ match the_f(path, n) { Some(f) => vs.len() <= f.inputs@.len() ==> match call_of(f, l, strs(vs)) { Some(b) => r is Ok && r->Ok_0@ == hexed(b), None => r is Err }, None => r is Err } }
pub open spec fn out_done(path: Seq<char>, n: Seq<char>, data: Seq<char>, r: Result<String, Error>) -> bool
{ match (the_f(path, n), unhex(data)) { (Some(f), Some(d)) => match dec_list(kinds(f.outputs@), d) { Some(vs) => r is Ok && r->Ok_0@ == joined(lines(tnames(tys(kinds(f.outputs@)), true), vs), "\n"@), None => r is Err }, _ => r is Err } }
pub open spec fn types_done(types: Seq<String>, data: Seq<char>, r: Result<String, Error>) -> bool
{ match (rds(strs(types), types.len() as int), unhex(data)) { (Some(ts), Some(d)) => exists|ps: Seq<ParamType>| tys(ps) == ts && match #[trigger] dec_list(ps, d) { Some(vs) => r is Ok && r->Ok_0@ == joined(lines(tnames(ts, true), vs), "\n"@), None => r is Err }, _ => r is Err } }
pub open spec fn log_done(path: Seq<char>, n: Seq<char>, topics: Seq<String>, data: Seq<char>, r: Result<String, Error>) -> bool
{ match (the_e(path, n), hashes(strs(topics), topics.len() as int), unhex(data)) { (Some(e), Some(hs), Some(d)) => match log_of(e, hs, d) { Some(vs) => r is Ok && r->Ok_0@ == joined(lines(enames(e.inputs@), vs), "\n"@), None => r is Err }, _ => r is Err } }
pub open spec fn opt_fits(o: Opt) -> bool {
    match o {
        Opt::Encode(Encode::Function { abi_path, function_name_or_signature, params, lenient }) => the_f(abi_path@, function_name_or_signature@) is Some ==> call_fits(the_f(abi_path@, function_name_or_signature@)->0, lenient, strs(params@)),
        Opt::Encode(Encode::Params { params, lenient }) => params@.len() % 2 == 0 && (params_of(lenient, params@) is Some ==> list_fits(params_of(lenient, params@)->0)),
        Opt::Decode(Decode::Log { abi_path, event_name_or_signature, topics, data }) => 32 * topics@.len() <= isize::MAX && (the_e(abi_path@, event_name_or_signature@) is Some ==> topics_valid(the_e(abi_path@, event_name_or_signature@)->0.inputs@)),
        _ => true,
    }
}
pub open spec fn done(o: Opt, r: Result<String, Error>) -> bool {
    match o {
        Opt::Encode(Encode::Function { abi_path, function_name_or_signature, params, lenient }) => fn_done(abi_path@, function_name_or_signature@, params@, lenient, r),
        Opt::Encode(Encode::Params { params, lenient }) => match params_of(lenient, params@) { Some(vs) => r is Ok && r->Ok_0@ == hexed(enc_list(vs)), None => r is Err },
        Opt::Decode(Decode::Function { abi_path, function_name_or_signature, data }) => out_done(abi_path@, function_name_or_signature@, data@, r),
        Opt::Decode(Decode::Params { types, data }) => types_done(types@, data@, r),
        Opt::Decode(Decode::Log { abi_path, event_name_or_signature, topics, data }) => log_done(abi_path@, event_name_or_signature@, topics@, data@, r),
    }
}
pub broadcast group group_cli { lemma_first_f0, lemma_first_e0, lemma_lines, lemma_lines_index, lemma_ptys, lemma_ptxts, lemma_ptys_index, lemma_ptxts_index, lemma_ptys_push, lemma_ptxts_push, lemma_evens, lemma_odds, lemma_evens_index, lemma_odds_index, lemma_dec_list_len, lemma_hbytes_push, lemma_hbytes_0, lemma_lnames_i, lemma_lvals_i, lemma_lvals_n }
} // verus!
