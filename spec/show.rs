// How values are shown.
verus! {
pub open spec fn hexdig(n: int) -> char { if n < 10 { (48 + n) as u8 as char } else { (87 + n) as u8 as char } }
/// two lower-case hexadecimal digits for each byte
#[verifier::opaque]
pub open spec fn hexed(b: Seq<u8>) -> Seq<char> { Seq::new(2 * b.len(), |i: int| hexdig(if i % 2 == 0 { b[i / 2] as int / 16 } else { b[i / 2] as int % 16 })) }
#[verifier::external_body]
pub fn vx_hex_encode<B: VxHashable>(b: B) -> (r: String) ensures r@ == hexed(b.hb()) { unimplemented!() }
/// without leading zeros, the last digit stays
#[verifier::opaque]
pub open spec fn unpadded(s: Seq<char>) -> Seq<char> decreases s.len()
{ if s.len() > 1 && s[0] == '0' { unpadded(s.drop_first()) } else { s } }

/// booleans as words, texts as they are, numbers in hexadecimal, bytes and addresses digit by digit, lists in brackets
#[verifier::opaque]
pub open spec fn shown(v: V) -> Seq<char>
    decreases v, 0int, 0int
{
    match v {
        V::Bool(b) => if b { "true"@ } else { "false"@ },
        V::Str(s) => s,
        V::Address(b) => hexed(b),
        V::Bytes(b) => hexed(b),
        V::FixedBytes(b) => hexed(b),
        V::Uint(b) => unpadded(hexed(b)),
        V::Int(b) => unpadded(hexed(b)),
        V::Arr(vs) => "["@ + jshown(vs, vs.len() as int) + "]"@,
        V::FArr(vs) => "["@ + jshown(vs, vs.len() as int) + "]"@,
        V::Tup(vs) => "("@ + jshown(vs, vs.len() as int) + ")"@,
    }
}
/// the first k values, separated by commas
#[verifier::opaque]
pub open spec fn jshown(vs: Seq<V>, k: int) -> Seq<char>
    decreases vs, 1int, k
{ if k <= 0 || k > vs.len() { Seq::empty() } else if k == 1 { shown(vs[0]) } else { jshown(vs, k - 1) + ","@ + shown(vs[k - 1]) } }
#[verifier::opaque]
pub open spec fn showns(vs: Seq<V>) -> Seq<Seq<char>> { Seq::new(vs.len(), |i: int| shown(vs[i])) }
pub broadcast proof fn lemma_showns(vs: Seq<V>) ensures (#[trigger] showns(vs)).len() == vs.len() { reveal(showns); }
pub broadcast proof fn lemma_showns_index(vs: Seq<V>, i: int) requires 0 <= i < vs.len() ensures #[trigger] showns(vs)[i] == shown(vs[i]) { reveal(showns); }
pub proof fn lemma_jshown(vs: Seq<V>, k: int)
    requires 0 <= k <= vs.len(),
    ensures jshown(vs, k) == joined(showns(vs).take(k), ","@),
    decreases k
{
    reveal_with_fuel(jshown, 2); reveal_with_fuel(joined, 2); reveal(showns); reveal_with_fuel(shown, 2);
    let a = showns(vs).take(k);
    if k > 1 { lemma_jshown(vs, k - 1); assert(a.drop_last() =~= showns(vs).take(k - 1)); assert(a.last() == shown(vs[k - 1])); }
    if k == 1 { assert(a[0] == shown(vs[0])); }
}
pub proof fn lemma_shown(v: V)
    ensures shown(v) == match v {
        V::Bool(b) => if b { "true"@ } else { "false"@ },
        V::Str(s) => s,
        V::Address(b) => hexed(b),
        V::Bytes(b) => hexed(b),
        V::FixedBytes(b) => hexed(b),
        V::Uint(b) => unpadded(hexed(b)),
        V::Int(b) => unpadded(hexed(b)),
        V::Arr(vs) => "["@ + joined(showns(vs), ","@) + "]"@,
        V::FArr(vs) => "["@ + joined(showns(vs), ","@) + "]"@,
        V::Tup(vs) => "("@ + joined(showns(vs), ","@) + ")"@,
    }
{
    reveal_with_fuel(shown, 3); reveal_with_fuel(jshown, 3); reveal(showns);
    match v {
        V::Arr(vs) => { lemma_jshown(vs, vs.len() as int); assert(showns(vs).take(vs.len() as int) =~= showns(vs)); }
        V::FArr(vs) => { lemma_jshown(vs, vs.len() as int); assert(showns(vs).take(vs.len() as int) =~= showns(vs)); }
        V::Tup(vs) => { lemma_jshown(vs, vs.len() as int); assert(showns(vs).take(vs.len() as int) =~= showns(vs)); }
        _ => {}
    }
}
impl VxDisp for Token { open spec fn disp(&self) -> Seq<char> { shown(tv(*self)) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for bool { open spec fn disp(&self) -> Seq<char> { if *self { "true"@ } else { "false"@ } } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
/// {:x}
pub trait VxHexed { spec fn hx(&self) -> Seq<char>; }
impl VxHexed for H160 { open spec fn hx(&self) -> Seq<char> { hexed(self.b@) } }
impl VxHexed for U256 { open spec fn hx(&self) -> Seq<char> { unpadded(hexed(self.be@)) } }
impl<T: VxHexed + ?Sized> VxHexed for &T { open spec fn hx(&self) -> Seq<char> { (**self).hx() } }
pub trait VxPushHex { spec fn cur_(&self) -> Seq<char>; fn vx_push_hex<T: VxHexed + ?Sized>(&mut self, x: &T) ensures final(self).cur_() == old(self).cur_() + x.hx(); }
impl VxPushHex for String { open spec fn cur_(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_push_hex<T: VxHexed + ?Sized>(&mut self, x: &T) { unimplemented!() } }
pub broadcast proof fn lemma_showns_all(vs: Seq<V>, k: int) requires k == vs.len() ensures #[trigger] showns(vs).take(k) == showns(vs) { reveal(showns); assert(showns(vs).take(k) =~= showns(vs)); }
pub broadcast group group_show { lemma_showns_all, lemma_showns, lemma_showns_index }
} // verus!
