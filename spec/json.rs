// JSON values as serde hands them over, and the parameters they describe.
verus! {
pub enum J { Null, Flag(bool), Text(Seq<char>), List(Seq<J>), Obj(Seq<Seq<char>>, Seq<J>), Other(int) }

// ---------------------------------------------------------------- objects
/// where the last field of that name is, or -1
#[verifier::opaque]
pub open spec fn at(ks: Seq<Seq<char>>, n: Seq<char>) -> int
    decreases ks.len()
{ if ks.len() == 0 { -1 } else if ks.last() == n { ks.len() - 1 } else { at(ks.drop_last(), n) } }
/// at most one field of that name
#[verifier::opaque]
pub open spec fn once(ks: Seq<Seq<char>>, n: Seq<char>) -> bool
    decreases ks.len()
{ if ks.len() == 0 { true } else { once(ks.drop_last(), n) && (ks.last() == n ==> at(ks.drop_last(), n) < 0) } }
pub open spec fn fld(ks: Seq<Seq<char>>, vs: Seq<J>, n: Seq<char>) -> Option<J> { if 0 <= at(ks, n) < vs.len() { Some(vs[at(ks, n)]) } else { None } }
pub broadcast proof fn lemma_at(ks: Seq<Seq<char>>, n: Seq<char>)
    ensures -1 <= #[trigger] at(ks, n) < ks.len(), at(ks, n) >= 0 ==> ks[at(ks, n)] == n, ks.len() == 0 ==> once(ks, n),
    decreases ks.len()
{ reveal_with_fuel(at, 2); reveal_with_fuel(once, 2); if ks.len() > 0 { lemma_at(ks.drop_last(), n); } }
pub broadcast proof fn lemma_at_push(ks: Seq<Seq<char>>, k: Seq<char>, n: Seq<char>)
    ensures #![trigger at(ks.push(k), n)] #![trigger once(ks.push(k), n)]
        at(ks.push(k), n) == (if k == n { ks.len() as int } else { at(ks, n) }),
        once(ks.push(k), n) == (once(ks, n) && (k == n ==> at(ks, n) < 0)),
{ reveal_with_fuel(at, 2); reveal_with_fuel(once, 2); assert(ks.push(k).drop_last() =~= ks); }
pub broadcast proof fn lemma_once_0(ks: Seq<Seq<char>>, n: Seq<char>) ensures ks.len() == 0 ==> #[trigger] once(ks, n) { reveal_with_fuel(once, 2); }
/// one more field
pub proof fn lemma_at_step(ks: Seq<Seq<char>>, p: int, n: Seq<char>)
    ensures 0 <= p < ks.len() ==> at(ks.take(p + 1), n) == (if ks[p] == n { p } else { at(ks.take(p), n) }) && once(ks.take(p + 1), n) == (once(ks.take(p), n) && (ks[p] == n ==> at(ks.take(p), n) < 0)),
        p == 0 ==> at(ks.take(p), n) == -1 && once(ks.take(p), n),
{ if 0 <= p < ks.len() { assert(ks.take(p + 1) =~= ks.take(p).push(ks[p])); lemma_at_push(ks.take(p), ks[p], n); } if p == 0 { lemma_at(ks.take(p), n); } }
/// a repeated field stays one
pub proof fn lemma_once(ks: Seq<Seq<char>>, p: int, n: Seq<char>)
    ensures 0 <= p <= ks.len() && !once(ks.take(p), n) ==> !once(ks, n),
    decreases ks.len() - p
{
    if 0 <= p < ks.len() { lemma_at_step(ks, p, n); lemma_once(ks, p + 1, n); }
    if p == ks.len() { assert(ks.take(p) =~= ks); }
}
pub proof fn lemma_at_end(ks: Seq<Seq<char>>, p: int, n: Seq<char>)
    ensures p == ks.len() ==> ks.take(p) == ks,
        0 <= p <= ks.len() && once(ks, n) && at(ks.take(p), n) >= 0 ==> at(ks, n) == at(ks.take(p), n),
    decreases ks.len() - p
{
    if p == ks.len() { assert(ks.take(p) =~= ks); }
    if 0 <= p < ks.len() { lemma_at_step(ks, p, n); lemma_once(ks, p + 1, n); lemma_at_end(ks, p + 1, n); lemma_at(ks.take(p), n); }
}

// ---------------------------------------------------------------- tuples under arrays
/// the members of the tuple under the arrays
#[verifier::opaque]
pub open spec fn tup(t: TY) -> Option<Seq<TY>>
    decreases t
{ match t { TY::Arr(x) => tup(*x), TY::FArr(x, _) => tup(*x), TY::Tup(ts) => Some(ts), _ => None } }
/// with other members
#[verifier::opaque]
pub open spec fn put(t: TY, ts: Seq<TY>) -> TY
    decreases t
{ match t { TY::Arr(x) => TY::Arr(Box::new(put(*x, ts))), TY::FArr(x, n) => TY::FArr(Box::new(put(*x, ts)), n), TY::Tup(_) => TY::Tup(ts), _ => t } }

// ---------------------------------------------------------------- what an object describes
pub open spec fn textual(o: Option<J>) -> bool { match o { Some(J::Text(_)) => true, Some(_) => false, None => true } }
pub open spec fn text_of(o: Option<J>) -> Seq<char> { match o { Some(J::Text(s)) => s, _ => Seq::empty() } }
/// the type the type field names, with the components as the members of its tuple
pub open spec fn kind_of(t: Option<J>, cs: Option<Seq<TY>>) -> Option<TY> {
    match t {
        Some(J::Text(s)) => match rd(s) {
            Some(t) => match tup(t) { None => Some(t), Some(ts) => match cs { Some(cs) => Some(put(t, ts + cs)), None => None } },
            None => None },
        _ => None,
    }
}
/// the type of a component
#[verifier::opaque]
pub open spec fn tparam(j: J) -> Option<TY>
    decreases j
{
    match j {
        J::Obj(ks, vs) => {
            let c = at(ks, "components"@);
            let cs = if 0 <= c < vs.len() { tlist(vs[c]) } else { None };
            if once(ks, "name"@) && once(ks, "type"@) && once(ks, "internalType"@) && once(ks, "components"@) && textual(fld(ks, vs, "name"@)) && textual(fld(ks, vs, "internalType"@))
                && (0 <= c < vs.len() ==> cs is Some) { kind_of(fld(ks, vs, "type"@), cs) } else { None }
        }
        _ => None,
    }
}
/// the types of a list of components
#[verifier::opaque]
pub open spec fn tlist(j: J) -> Option<Seq<TY>>
    decreases j
{
    match j {
        J::List(js) => if forall|i: int| 0 <= i < js.len() ==> tparam(#[trigger] js[i]) is Some { Some(Seq::new(js.len(), |i: int| if 0 <= i < js.len() { tparam(js[i])->0 } else { arbitrary() })) } else { None },
        _ => None,
    }
}
pub open spec fn comps(ks: Seq<Seq<char>>, vs: Seq<J>) -> Option<Seq<TY>> { match fld(ks, vs, "components"@) { Some(j) => tlist(j), None => None } }
/// the fields all three have
pub open spec fn common(ks: Seq<Seq<char>>, vs: Seq<J>) -> bool {
    once(ks, "name"@) && once(ks, "type"@) && once(ks, "components"@) && textual(fld(ks, vs, "name"@)) && (fld(ks, vs, "components"@) is Some ==> comps(ks, vs) is Some)
}
pub open spec fn internal(ks: Seq<Seq<char>>, vs: Seq<J>) -> bool { once(ks, "internalType"@) && textual(fld(ks, vs, "internalType"@)) }
pub open spec fn the_kind(ks: Seq<Seq<char>>, vs: Seq<J>) -> Option<TY> { kind_of(fld(ks, vs, "type"@), comps(ks, vs)) }
pub proof fn lemma_tparam(ks: Seq<Seq<char>>, vs: Seq<J>)
    ensures tparam(J::Obj(ks, vs)) == (if common(ks, vs) && internal(ks, vs) { the_kind(ks, vs) } else { None }),
{ reveal_with_fuel(tparam, 3); reveal_with_fuel(tlist, 3); }

/// the names of the fields are different
pub proof fn lemma_field_names()
    ensures "name"@ != "type"@, "name"@.len() == 4, "type"@.len() == 4, "internalType"@.len() == 12, "components"@.len() == 10, "indexed"@.len() == 7,
{ reveal_strlit("name"); reveal_strlit("type"); reveal_strlit("internalType"); reveal_strlit("components"); reveal_strlit("indexed"); assert("name"@[0] == 'n' && "type"@[0] == 't'); }
/// an optional text as a field gives it
pub open spec fn opt_text(o: Option<String>, f: Option<J>) -> bool { match o { Some(s) => f == Some(J::Text(s@)), None => f is None } }
pub open spec fn is_param(p: Param, ks: Seq<Seq<char>>, vs: Seq<J>) -> bool { fld(ks, vs, "name"@) == Some(J::Text(p.name@)) && the_kind(ks, vs) == Some(ty(p.kind)) && opt_text(p.internal_type, fld(ks, vs, "internalType"@)) }
pub open spec fn reads_param(ks: Seq<Seq<char>>, vs: Seq<J>) -> bool { common(ks, vs) && internal(ks, vs) && fld(ks, vs, "name"@) is Some && the_kind(ks, vs) is Some }
pub open spec fn is_tparam(p: TupleParam, ks: Seq<Seq<char>>, vs: Seq<J>) -> bool { opt_text(p.name, fld(ks, vs, "name"@)) && the_kind(ks, vs) == Some(ty(p.kind)) && opt_text(p.internal_type, fld(ks, vs, "internalType"@)) }
pub open spec fn reads_tparam(ks: Seq<Seq<char>>, vs: Seq<J>) -> bool { common(ks, vs) && internal(ks, vs) && the_kind(ks, vs) is Some }
pub open spec fn flag(f: Option<J>) -> bool { match f { Some(J::Flag(b)) => b, _ => false } }
pub open spec fn is_eparam(p: EventParam, ks: Seq<Seq<char>>, vs: Seq<J>) -> bool { fld(ks, vs, "name"@) == Some(J::Text(p.name@)) && the_kind(ks, vs) == Some(ty(p.kind)) && p.indexed == flag(fld(ks, vs, "indexed"@)) }
pub open spec fn reads_eparam(ks: Seq<Seq<char>>, vs: Seq<J>) -> bool {
    common(ks, vs) && once(ks, "indexed"@) && (match fld(ks, vs, "indexed"@) { Some(J::Flag(_)) => true, Some(_) => false, None => true }) && fld(ks, vs, "name"@) is Some && the_kind(ks, vs) is Some
}

// ---------------------------------------------------------------- reading
/// Deserialize: when a value can be read as such a thing, and what it is then
pub trait VxDe: Sized { spec fn reads(j: J) -> bool; spec fn got(&self, j: J) -> bool; }
impl VxDe for String { open spec fn reads(j: J) -> bool { j is Text } open spec fn got(&self, j: J) -> bool { j == J::Text(self@) } }
impl VxDe for bool { open spec fn reads(j: J) -> bool { j is Flag } open spec fn got(&self, j: J) -> bool { j == J::Flag(*self) } }
impl<T: VxDe> VxDe for Option<T> { open spec fn reads(j: J) -> bool { j is Null || T::reads(j) } open spec fn got(&self, j: J) -> bool { match self { Some(x) => !(j is Null) && x.got(j), None => j is Null } } }
/// ParamTypeVisitor
impl VxDe for ParamType { open spec fn reads(j: J) -> bool { j is Text && rd(j->Text_0) is Some } open spec fn got(&self, j: J) -> bool { j is Text && rd(j->Text_0) == Some(ty(*self)) } }
/// lists of what TupleParamVisitor gives
impl VxDe for Vec<TupleParam> { open spec fn reads(j: J) -> bool { tlist(j) is Some } open spec fn got(&self, j: J) -> bool { tlist(j) == Some(tys(tkinds(self@))) } }
pub struct IgnoredAny;
impl VxDe for IgnoredAny { open spec fn reads(j: J) -> bool { true } open spec fn got(&self, j: J) -> bool { true } }

/// serde::de::MapAccess over the fields of an object: keys and values in turn
#[verifier::external_body]
pub struct VxMapAccess { s: String }
impl VxMapAccess {
    pub uninterp spec fn ks(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn vs(&self) -> Seq<J>;
    /// how many keys have been read
    pub uninterp spec fn pos(&self) -> nat;
    /// the value of the last key has not been read
    pub uninterp spec fn half(&self) -> bool;
    pub open spec fn wf(&self) -> bool { self.ks().len() == self.vs().len() && self.pos() <= self.ks().len() && (self.half() ==> self.pos() > 0) }
    #[verifier::external_body] pub fn next_key<T: VxDe>(&mut self) -> (r: Result<Option<T>, Error>)
        requires old(self).wf(), !old(self).half()
        ensures final(self).wf(), final(self).ks() == old(self).ks(), final(self).vs() == old(self).vs(),
            old(self).pos() < old(self).ks().len() ==> final(self).pos() == old(self).pos() + 1 && final(self).half() && (r is Ok == T::reads(J::Text(old(self).ks()[old(self).pos() as int])))
                && (r is Ok ==> r->Ok_0 is Some && r->Ok_0->0.got(J::Text(old(self).ks()[old(self).pos() as int]))),
            old(self).pos() >= old(self).ks().len() ==> r is Ok && r->Ok_0 is None && final(self).pos() == old(self).pos() && !final(self).half() { unimplemented!() }
    #[verifier::external_body] pub fn next_value<T: VxDe>(&mut self) -> (r: Result<T, Error>)
        requires old(self).wf(), old(self).half()
        ensures final(self).wf(), final(self).ks() == old(self).ks(), final(self).vs() == old(self).vs(), final(self).pos() == old(self).pos(), !final(self).half(),
            r is Ok == T::reads(old(self).vs()[old(self).pos() - 1]), r is Ok ==> r->Ok_0.got(old(self).vs()[old(self).pos() - 1]) { unimplemented!() }
}
pub fn vx_de_error() -> Error { Error::Other }

#[verifier::opaque]
pub open spec fn tkinds(ps: Seq<TupleParam>) -> Seq<ParamType> { Seq::new(ps.len(), |i: int| ps[i].kind) }
pub broadcast proof fn lemma_tkinds(ps: Seq<TupleParam>) ensures (#[trigger] tkinds(ps)).len() == ps.len() { reveal(tkinds); }
pub broadcast proof fn lemma_tkinds_index(ps: Seq<TupleParam>, i: int) requires 0 <= i < ps.len() ensures #[trigger] tkinds(ps)[i] == ps[i].kind { reveal(tkinds); }

/// what is stored for a field after p fields
pub open spec fn stored<T: VxDe>(o: Option<T>, ks: Seq<Seq<char>>, vs: Seq<J>, p: int, n: Seq<char>) -> bool {
    match o { None => at(ks.take(p), n) < 0, Some(x) => at(ks.take(p), n) >= 0 && x.got(vs[at(ks.take(p), n)]) }
}
/// all that is to be known about the fields of that name when the p-th is read
pub proof fn lemma_field(ks: Seq<Seq<char>>, p: int, n: Seq<char>)
    ensures 0 <= p < ks.len() ==> at(ks.take(p + 1), n) == (if ks[p] == n { p } else { at(ks.take(p), n) }) && once(ks.take(p + 1), n) == (once(ks.take(p), n) && (ks[p] == n ==> at(ks.take(p), n) < 0)),
        0 <= p < ks.len() && !once(ks.take(p + 1), n) ==> !once(ks, n),
        0 <= p < ks.len() && once(ks, n) && at(ks.take(p + 1), n) >= 0 ==> at(ks, n) == at(ks.take(p + 1), n),
        at(ks.take(0), n) == -1, once(ks.take(0), n), ks.take(ks.len() as int) == ks,
{ lemma_at_step(ks, p, n); lemma_at_step(ks, 0, n); lemma_once(ks, p + 1, n); lemma_at_end(ks, p + 1, n); lemma_at_end(ks, ks.len() as int, n); }
pub proof fn lemma_fields(ks: Seq<Seq<char>>, p: int)
    ensures forall|n: Seq<char>| #![trigger at(ks.take(p + 1), n)] #![trigger once(ks.take(p + 1), n)] 0 <= p < ks.len() ==> at(ks.take(p + 1), n) == (if ks[p] == n { p } else { at(ks.take(p), n) }) && once(ks.take(p + 1), n) == (once(ks.take(p), n) && (ks[p] == n ==> at(ks.take(p), n) < 0)),
        forall|n: Seq<char>| 0 <= p < ks.len() && #[trigger] once(ks, n) ==> once(ks.take(p + 1), n),
        forall|n: Seq<char>| 0 <= p < ks.len() && once(ks, n) && #[trigger] at(ks.take(p + 1), n) >= 0 ==> at(ks, n) == at(ks.take(p + 1), n),
        forall|n: Seq<char>| #[trigger] at(ks.take(0), n) == -1, forall|n: Seq<char>| #[trigger] once(ks.take(0), n), ks.take(ks.len() as int) == ks,
{
    assert forall|n: Seq<char>| true implies #[trigger] at(ks.take(0), n) == -1 && once(ks.take(0), n) && ks.take(ks.len() as int) == ks by { lemma_field(ks, p, n); }
    lemma_field(ks, p, Seq::empty());
    assert forall|n: Seq<char>| true implies #[trigger] once(ks.take(0), n) by { lemma_field(ks, p, n); }
    if 0 <= p < ks.len() {
        assert forall|n: Seq<char>| true implies #[trigger] at(ks.take(p + 1), n) == (if ks[p] == n { p } else { at(ks.take(p), n) }) && once(ks.take(p + 1), n) == (once(ks.take(p), n) && (ks[p] == n ==> at(ks.take(p), n) < 0))
            && (once(ks, n) && at(ks.take(p + 1), n) >= 0 ==> at(ks, n) == at(ks.take(p + 1), n)) by { lemma_field(ks, p, n); }
        assert forall|n: Seq<char>| #[trigger] once(ks, n) implies once(ks.take(p + 1), n) by { lemma_field(ks, p, n); }
    }
}

// ---------------------------------------------------------------- tuples in ParamType
pub open spec fn ptup(t: ParamType) -> Option<Vec<ParamType>>
    decreases t
{ match t { ParamType::Array(x) => ptup(*x), ParamType::FixedArray(x, _) => ptup(*x), ParamType::Tuple(v) => Some(v), _ => None } }
/// equal but for the members of the tuple
pub open spec fn same(a: ParamType, b: ParamType) -> bool
    decreases a
{
    match a {
        ParamType::Array(x) => b is Array && same(*x, *b->Array_0),
        ParamType::FixedArray(x, n) => b is FixedArray && b->FixedArray_1 == n && same(*x, *b->FixedArray_0),
        ParamType::Tuple(_) => b is Tuple,
        _ => a == b,
    }
}
pub broadcast proof fn lemma_ptup(t: ParamType)
    ensures #![trigger ptup(t)] #![trigger tup(ty(t))] ptup(t) is Some == tup(ty(t)) is Some, ptup(t) is Some ==> tup(ty(t)) == Some(tys(ptup(t)->0@)),
    decreases t
{
    lemma_ty(t); reveal_with_fuel(tup, 2);
    match t { ParamType::Array(x) => { lemma_ty_arr(t); lemma_ptup(*x); } ParamType::FixedArray(x, _) => { lemma_ty_farr(t); lemma_ptup(*x); } _ => {} }
}
pub broadcast proof fn lemma_same(a: ParamType, b: ParamType)
    requires #[trigger] same(a, b),
    ensures ptup(a) is Some == ptup(b) is Some, ptup(b) is Some ==> ty(b) == put(ty(a), tys(ptup(b)->0@)), ptup(b) is None ==> a == b,
    decreases a
{
    lemma_ty(a); lemma_ty(b); reveal_with_fuel(put, 2);
    match a {
        ParamType::Array(x) => { lemma_ty_arr(a); lemma_ty_arr(b); lemma_same(*x, *b->Array_0); }
        ParamType::FixedArray(x, _) => { lemma_ty_farr(a); lemma_ty_farr(b); lemma_same(*x, *b->FixedArray_0); }
        _ => {}
    }
}
pub broadcast proof fn lemma_tys_cat(a: Seq<ParamType>, b: Seq<ParamType>) ensures #[trigger] tys(a + b) == tys(a) + tys(b) { reveal(tys); assert(tys(a + b) =~= tys(a) + tys(b)); }
pub broadcast proof fn lemma_take_all<A>(s: Seq<A>, n: int) requires n == s.len() ensures #[trigger] s.take(n) == s { assert(s.take(n) =~= s); }
pub broadcast group group_json { lemma_take_all, lemma_ptup, lemma_same, lemma_tys_cat, lemma_tkinds, lemma_tkinds_index, lemma_at, lemma_once_0 }
} // verus!
