// Text: strings as sequences of characters, with the byte positions the standard library uses.
verus! {

/// bytes of a character in UTF-8
pub open spec fn width(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
/// bytes of a text in UTF-8
#[verifier::opaque]
pub open spec fn blen(s: Seq<char>) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { blen(s.drop_last()) + width(s.last()) } }
/// the byte position of the k-th character
#[verifier::opaque]
pub open spec fn bpos(s: Seq<char>, k: int) -> nat { blen(s.take(k)) }
/// the character at a byte position, and whether one begins (or the text ends) there
#[verifier::opaque]
pub open spec fn cidx(s: Seq<char>, b: int) -> int { choose|k: int| 0 <= k <= s.len() && bpos(s, k) == b }
#[verifier::opaque]
pub open spec fn is_bnd(s: Seq<char>, b: int) -> bool { exists|k: int| 0 <= k <= s.len() && bpos(s, k) == b }

pub open spec fn digit(n: nat) -> char { (48 + n % 10) as u8 as char }
/// a number in decimal
#[verifier::opaque]
pub open spec fn decimal(n: nat) -> Seq<char>
    decreases n
{ if n < 10 { seq![digit(n)] } else { decimal(n / 10).push(digit(n)) } }

/// texts with a separator between them
#[verifier::opaque]
pub open spec fn joined(ss: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases ss.len()
{ if ss.len() == 0 { Seq::empty() } else if ss.len() == 1 { ss[0] } else { joined(ss.drop_last(), sep) + sep + ss.last() } }
#[verifier::opaque]
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
pub broadcast proof fn lemma_strs(v: Seq<String>) ensures (#[trigger] strs(v)).len() == v.len(), v.len() == 0 ==> strs(v) == Seq::<Seq<char>>::empty() { reveal(strs); if v.len() == 0 { assert(strs(v) =~= Seq::<Seq<char>>::empty()); } }
pub broadcast proof fn lemma_strs_index(v: Seq<String>, i: int) requires 0 <= i < v.len() ensures #[trigger] strs(v)[i] == v[i]@ { reveal(strs); }
pub broadcast proof fn lemma_strs_push(v: Seq<String>, x: String) ensures #[trigger] strs(v.push(x)) == strs(v).push(x@) { reveal(strs); assert(strs(v.push(x)) =~= strs(v).push(x@)); }
pub broadcast proof fn lemma_joined_few(ss: Seq<Seq<char>>, sep: Seq<char>)
    ensures #![trigger joined(ss, sep)] ss.len() == 0 ==> joined(ss, sep) == Seq::<char>::empty(), ss.len() == 1 ==> joined(ss, sep) == ss[0],
{ reveal(joined); }
pub proof fn lemma_joined_step(ss: Seq<Seq<char>>, sep: Seq<char>, i: int)
    requires 0 <= i < ss.len(),
    ensures joined(ss.take(i + 1), sep) == if i == 0 { ss[0] } else { joined(ss.take(i), sep) + sep + ss[i] },
        ss.take(ss.len() as int) == ss, ss.take(i + 1) == ss.take(i).push(ss[i]),
{ reveal(joined); assert(ss.take(i + 1).drop_last() =~= ss.take(i)); assert(ss.take(ss.len() as int) =~= ss); assert(ss.take(i + 1) =~= ss.take(i).push(ss[i])); assert(ss.take(i + 1).last() == ss[i]); assert(ss.take(i + 1)[0] == ss[0]); }
pub broadcast group group_text { lemma_strs, lemma_strs_index, lemma_strs_push, lemma_joined_few }

// ---------------------------------------------------------------- shims
/// a pattern: a character or a text
pub trait VxPat: Sized { spec fn pat(self) -> Seq<char>; }
impl VxPat for char { open spec fn pat(self) -> Seq<char> { seq![self] } }
impl VxPat for &str { open spec fn pat(self) -> Seq<char> { self@ } }
impl VxPat for &String { open spec fn pat(self) -> Seq<char> { self@ } }
pub open spec fn is_prefix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
pub open spec fn is_suffix(p: Seq<char>, s: Seq<char>) -> bool { p.len() <= s.len() && s.skip(s.len() - p.len()) == p }

pub trait VxStr {
    spec fn st(&self) -> Seq<char>;
    fn vx_len(&self) -> (r: usize) ensures r == blen(self.st());
    fn vx_sub(&self, lo: usize, hi: usize) -> (r: &str)
        requires is_bnd(self.st(), lo as int), is_bnd(self.st(), hi as int), lo <= hi
        ensures r@ == self.st().subrange(cidx(self.st(), lo as int), cidx(self.st(), hi as int));
    fn vx_from(&self, lo: usize) -> (r: &str)
        requires is_bnd(self.st(), lo as int)
        ensures r@ == self.st().skip(cidx(self.st(), lo as int));
    fn vx_to(&self, hi: usize) -> (r: &str)
        requires is_bnd(self.st(), hi as int)
        ensures r@ == self.st().take(cidx(self.st(), hi as int));
    fn vx_all(&self) -> (r: &str) ensures r@ == self.st();
    fn vx_chars(&self) -> (r: VxChars<'_>) ensures r@ == self.st();
    fn vx_char_indices(&self) -> (r: VxCharIndices<'_>) ensures r.cs() == self.st(), blen(self.st()) <= isize::MAX;
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == is_prefix(p.pat(), self.st());
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == is_suffix(p.pat(), self.st());
    fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>)
        ensures match r { Some(t) => is_prefix(p.pat(), self.st()) && t@ == self.st().skip(p.pat().len() as int), None => !is_prefix(p.pat(), self.st()) };
    fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>)
        ensures match r { Some(t) => is_suffix(p.pat(), self.st()) && t@ == self.st().take(self.st().len() - p.pat().len()), None => !is_suffix(p.pat(), self.st()) };
    fn vx_find(&self, c: char) -> (r: Option<usize>)
        ensures blen(self.st()) <= isize::MAX, match r { Some(p) => exists|k: int| 0 <= k < self.st().len() && p == #[trigger] bpos(self.st(), k) && self.st()[k] == c && (forall|j: int| 0 <= j < k ==> self.st()[j] != c), None => forall|j: int| 0 <= j < self.st().len() ==> self.st()[j] != c };
    fn vx_rfind(&self, c: char) -> (r: Option<usize>)
        ensures blen(self.st()) <= isize::MAX, match r { Some(p) => exists|k: int| 0 <= k < self.st().len() && p == #[trigger] bpos(self.st(), k) && self.st()[k] == c && (forall|j: int| k < j < self.st().len() ==> self.st()[j] != c), None => forall|j: int| 0 <= j < self.st().len() ==> self.st()[j] != c };
    fn vx_contains(&self, c: char) -> (r: bool) ensures r == self.st().contains(c);
}
macro_rules! vx_str_impl { ($ty:ty) => { verus! {
impl VxStr for $ty {
    open spec fn st(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_sub(&self, lo: usize, hi: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_from(&self, lo: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_to(&self, hi: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_all(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: VxChars<'_>) { unimplemented!() }
    #[verifier::external_body] fn vx_char_indices(&self) -> (r: VxCharIndices<'_>) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_find(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind(&self, c: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_contains(&self, c: char) -> (r: bool) { unimplemented!() }
}
} } }
vx_str_impl!(str);
vx_str_impl!(String);

/// `.chars()`
#[verifier::external_body]
pub struct VxChars<'a> { s: &'a str }
impl<'a> VxChars<'a> {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn vx_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn vx_at(&self, i: usize) -> (r: char) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn vx_last(self) -> (r: Option<char>) ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(self@.last()) { unimplemented!() }
    #[verifier::external_body] pub fn vx_first(self) -> (r: Option<char>) ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(self@[0]) { unimplemented!() }
}
/// `.char_indices()`
#[verifier::external_body]
pub struct VxCharIndices<'a> { s: &'a str }
impl<'a> VxCharIndices<'a> {
    pub uninterp spec fn cs(&self) -> Seq<char>;
    #[verifier::external_body] pub fn vx_len(&self) -> (r: usize) ensures r == self.cs().len() { unimplemented!() }
    #[verifier::external_body] pub fn vx_at(&self, i: usize) -> (r: (usize, char)) requires i < self.cs().len() ensures r.1 == self.cs()[i as int], r.0 == bpos(self.cs(), i as int) { unimplemented!() }
}

impl VxDisp for usize { open spec fn disp(&self) -> Seq<char> { decimal(*self as nat) }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxDisp for char { open spec fn disp(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl<T: VxDisp + ?Sized> VxDisp for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
pub trait VxPush {
    spec fn cur(&self) -> Seq<char>;
    fn vx_push_str(&mut self, x: &str) ensures final(self).cur() == old(self).cur() + x@;
    fn vx_push_disp<T: VxDisp + ?Sized>(&mut self, x: &T) ensures final(self).cur() == old(self).cur() + x.disp();
    fn vx_push_char(&mut self, x: char) ensures final(self).cur() == old(self).cur().push(x);
    fn vx_truncate(&mut self, n: usize) requires n >= blen(old(self).cur()) || is_bnd(old(self).cur(), n as int)
        ensures final(self).cur() == if n >= blen(old(self).cur()) { old(self).cur() } else { old(self).cur().take(cidx(old(self).cur(), n as int)) };
}
impl VxPush for String {
    open spec fn cur(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_push_str(&mut self, x: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_push_disp<T: VxDisp + ?Sized>(&mut self, x: &T) { unimplemented!() }
    #[verifier::external_body] fn vx_push_char(&mut self, x: char) { unimplemented!() }
    #[verifier::external_body] fn vx_truncate(&mut self, n: usize) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
/// equality of texts
pub trait VxTx { spec fn tx(&self) -> Seq<char>; }
impl VxTx for str { open spec fn tx(&self) -> Seq<char> { self@ } }
impl VxTx for String { open spec fn tx(&self) -> Seq<char> { self@ } }
impl<T: VxTx + ?Sized> VxTx for &T { open spec fn tx(&self) -> Seq<char> { (**self).tx() } }
#[verifier::external_body]
pub fn vx_str_eq<A: VxTx, B: VxTx>(a: A, b: B) -> (r: bool) ensures r == (a.tx() == b.tx()) { unimplemented!() }
/// `[String]::join`
pub trait VxJoin { spec fn jq(&self) -> Seq<Seq<char>>; fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.jq(), sep@); fn vx_concat(&self) -> (r: String) ensures r@ == joined(self.jq(), Seq::empty()); }
impl VxJoin for Vec<String> { open spec fn jq(&self) -> Seq<Seq<char>> { strs(self@) }
    #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_concat(&self) -> (r: String) { unimplemented!() } }
impl VxInto<Vec<u8>> for &str {
    open spec fn vx_into_ok(self, r: Vec<u8>) -> bool { r@ == vstd::utf8::encode_utf8(self@) }
    #[verifier::external_body] fn vx_into(self) -> (r: Vec<u8>) { unimplemented!() }
}
impl VxInto<Vec<u8>> for String {
    open spec fn vx_into_ok(self, r: Vec<u8>) -> bool { r@ == vstd::utf8::encode_utf8(self@) }
    #[verifier::external_body] fn vx_into(self) -> (r: Vec<u8>) { unimplemented!() }
}
pub trait VxIntoBytes { fn vx_into_bytes(self) -> Vec<u8>; }
pub trait VxStringBytes: Sized { spec fn ibq(self) -> Seq<u8>; fn vx_into_bytes(self) -> (r: Vec<u8>) ensures r@ == self.ibq(); }
impl VxStringBytes for String { open spec fn ibq(self) -> Seq<u8> { vstd::utf8::encode_utf8(self@) }
    #[verifier::external_body] fn vx_into_bytes(self) -> (r: Vec<u8>) { unimplemented!() } }
/// std::fmt::Formatter
#[verifier::external_body]
pub struct Formatter { s: String }
impl Formatter { pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn vx_write(&mut self, s: String) -> (r: FmtResult) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body] pub fn write_str(&mut self, s: &str) -> (r: FmtResult) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
}
pub struct FmtError { }
impl VxErr<FmtError> for FmtError { open spec fn err_ok(self, r: FmtError) -> bool { true } fn vx_err0(self) -> (r: FmtError) { self } }
pub type FmtResult = Result<(), FmtError>;

// ---------------------------------------------------------------- hashing
/// Keccak-256
pub uninterp spec fn keccak(b: Seq<u8>) -> Seq<u8>;
pub trait VxHashable { spec fn hb(&self) -> Seq<u8>; }
impl VxHashable for Vec<u8> { open spec fn hb(&self) -> Seq<u8> { self@ } }
impl VxHashable for [u8] { open spec fn hb(&self) -> Seq<u8> { self@ } }
impl VxHashable for str { open spec fn hb(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self@) } }
impl VxHashable for String { open spec fn hb(&self) -> Seq<u8> { vstd::utf8::encode_utf8(self@) } }
impl<T: VxHashable + ?Sized> VxHashable for &T { open spec fn hb(&self) -> Seq<u8> { (**self).hb() } }
#[verifier::external_body]
pub fn vx_keccak<T: VxHashable>(x: T) -> (r: [u8; 32]) ensures r@ == keccak(x.hb()) { unimplemented!() }

pub trait VxStrRef { spec fn so(&self) -> Seq<char>; fn vx_as_ref(&self) -> (r: &str) ensures r@ == self.so(); }
impl VxStrRef for String { open spec fn so(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
} // verus!
