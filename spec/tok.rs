// What a text stands for as a value of a type.
use core::cmp::Ordering::{self, Less, Equal, Greater};
verus! {
// ---------------------------------------------------------------- scalars
pub open spec fn is_hex(c: char) -> bool { 48 <= c as u32 <= 57 || 97 <= c as u32 <= 102 || 65 <= c as u32 <= 70 }
pub open spec fn hexval(c: char) -> int { if c as u32 <= 57 { c as u32 - 48 } else if c as u32 <= 70 { c as u32 - 55 } else { c as u32 - 87 } }
/// the bytes of a hexadecimal text
#[verifier::opaque]
pub open spec fn unhex(s: Seq<char>) -> Option<Seq<u8>> {
    if s.len() % 2 == 0 && forall|i: int| 0 <= i < s.len() ==> is_hex(#[trigger] s[i]) { Some(Seq::new(s.len() / 2, |i: int| (hexval(s[2 * i]) * 16 + hexval(s[2 * i + 1])) as u8)) } else { None }
}
/// of n bytes
pub open spec fn unhex_n(s: Seq<char>, n: nat) -> Option<Seq<u8>> { match unhex(s) { Some(b) => if b.len() == n { Some(b) } else { None }, None => None } }
/// the 32 bytes of an unsigned integer: hexadecimal, or (lenient) decimal
#[verifier::opaque]
pub open spec fn uint_of(lenient: bool, s: Seq<char>) -> Option<Seq<u8>> {
    match unhex_n(s, 32) {
        Some(b) => Some(b),
        None => if lenient && s.len() > 0 && all_digits(s) && uval(s) < full() { Some(be(uval(s), 32)) } else { None },
    }
}
/// of a signed integer in two's complement
#[verifier::opaque]
pub open spec fn int_of(lenient: bool, s: Seq<char>) -> Option<Seq<u8>> {
    match unhex_n(s, 32) {
        Some(b) => Some(b),
        None => {
            let neg = s.len() > 0 && s[0] == '-';
            let d = if neg { s.skip(1) } else { s };
            if !lenient || d.len() == 0 || !all_digits(d) { None }
            else if neg { if uval(d) > half() { None } else if uval(d) == 0 { Some(be(0, 32)) } else { Some(be((full() - uval(d)) as nat, 32)) } }
            else { if uval(d) >= half() { None } else { Some(be(uval(d), 32)) } }
        }
    }
}
pub proof fn lemma_uint_of(l: bool, s: Seq<char>) ensures uint_of(l, s) == (match unhex_n(s, 32) { Some(b) => Some(b), None => if l && s.len() > 0 && all_digits(s) && uval(s) < full() { Some(be(uval(s), 32)) } else { None } }) { reveal(uint_of); }
#[verifier::opaque]
pub open spec fn bool_of(s: Seq<char>) -> Option<bool> {
    if s == "true"@ || s == "1"@ { Some(true) } else if s == "false"@ || s == "0"@ { Some(false) } else { None }
}

// ---------------------------------------------------------------- lists
pub open spec fn op(m: TY) -> char { if m is Tup { '(' } else { '[' } }
pub open spec fn cl(m: TY) -> char { if m is Tup { ')' } else { ']' } }
/// inside double quotes after k characters
#[verifier::opaque]
pub open spec fn quoted(s: Seq<char>, k: int) -> bool
    decreases k
{ if k <= 0 { false } else if s[k - 1] == '"' { !quoted(s, k - 1) } else { quoted(s, k - 1) } }
/// brackets of the list's kind that are open after k characters
#[verifier::opaque]
pub open spec fn level(m: TY, s: Seq<char>, k: int) -> int
    decreases k
{ if k <= 0 { 0 } else if quoted(s, k - 1) { level(m, s, k - 1) } else if s[k - 1] == op(m) { level(m, s, k - 1) + 1 } else if s[k - 1] == cl(m) { level(m, s, k - 1) - 1 } else { level(m, s, k - 1) } }
/// the k-th character ends a piece: a comma at the list's own level, or its closing bracket
pub open spec fn cut(m: TY, s: Seq<char>, k: int) -> bool { !quoted(s, k - 1) && (s[k - 1] == ',' && level(m, s, k - 1) == 1 || s[k - 1] == cl(m) && level(m, s, k) == 0) }
/// the k-th character is a closing bracket too many, or closes the list before its end
pub open spec fn stray(m: TY, s: Seq<char>, k: int) -> bool { !quoted(s, k - 1) && s[k - 1] == cl(m) && (level(m, s, k) < 0 || level(m, s, k) == 0 && k != s.len()) }
/// where the piece begins that is open after k characters
#[verifier::opaque]
pub open spec fn begin(m: TY, s: Seq<char>, k: int) -> int
    decreases k
{ if k <= 0 { 1 } else if cut(m, s, k) { k } else { begin(m, s, k - 1) } }
/// the values of the pieces that end within the first k characters, if they all stand for values of their types
#[verifier::opaque]
pub open spec fn scan(l: bool, m: TY, s: Seq<char>, k: int) -> Option<Seq<V>>
    decreases m, 0int, k
{
    if k <= 0 { Some(Seq::empty()) }
    else {
        match scan(l, m, s, k - 1) {
            None => None,
            Some(vs) =>
                if stray(m, s, k) { None }
                else if !cut(m, s, k) { Some(vs) }
                else {
                    let p = s.subrange(begin(m, s, k - 1), k - 1);
                    let v = match m {
                        TY::Arr(t) => tok(l, *t, p),
                        TY::FArr(t, _) => tok(l, *t, p),
                        TY::Tup(ts) => if vs.len() < ts.len() { tok(l, ts[vs.len() as int], p) } else { None },
                        _ => None,
                    };
                    match v { Some(v) => Some(vs.push(v)), None => None }
                }
        }
    }
}
/// the members of a list
#[verifier::opaque]
pub open spec fn titems(l: bool, m: TY, s: Seq<char>) -> Option<Seq<V>>
    decreases m, 1int, 0int
{
    if s.len() < 2 || s[0] != op(m) || s.last() != cl(m) { None }
    else if s.len() == 2 { if m is Tup && m->Tup_0.len() > 0 { None } else { Some(Seq::empty()) } }
    else if quoted(s, s.len() as int) || level(m, s, s.len() as int) != 0 { None }
    else { match scan(l, m, s, s.len() as int) { Some(vs) => if m is Tup && vs.len() != m->Tup_0.len() { None } else { Some(vs) }, None => None } }
}
#[verifier::opaque]
pub open spec fn tok(l: bool, t: TY, s: Seq<char>) -> Option<V>
    decreases t, 2int, 0int
{
    match t {
        TY::Address => match unhex_n(s, 20) { Some(b) => Some(V::Address(b)), None => None },
        TY::Str => Some(V::Str(s)),
        TY::Bool => match bool_of(s) { Some(b) => Some(V::Bool(b)), None => None },
        TY::Bytes => match unhex(s) { Some(b) => Some(V::Bytes(b)), None => None },
        TY::FBytes(n) => match unhex_n(s, n) { Some(b) => Some(V::FixedBytes(b)), None => None },
        TY::Uint(_) => match uint_of(l, s) { Some(b) => Some(V::Uint(b)), None => None },
        TY::Int(_) => match int_of(l, s) { Some(b) => Some(V::Int(b)), None => None },
        TY::Arr(_) => match titems(l, t, s) { Some(vs) => Some(V::Arr(vs)), None => None },
        TY::FArr(x, n) => match titems(l, t, s) { Some(vs) => if vs.len() == n { Some(V::FArr(vs)) } else { None }, None => None },
        TY::Tup(_) => match titems(l, t, s) { Some(vs) => Some(V::Tup(vs)), None => None },
    }
}

// ---------------------------------------------------------------- one step
pub open spec fn member(m: TY, i: int) -> Option<TY> {
    match m { TY::Arr(t) => Some(*t), TY::FArr(t, _) => Some(*t), TY::Tup(ts) => if 0 <= i < ts.len() { Some(ts[i]) } else { None }, _ => None }
}
pub proof fn lemma_scan_none(l: bool, m: TY, s: Seq<char>, k: int, n: int)
    requires scan(l, m, s, k) is None, 0 <= k <= n,
    ensures scan(l, m, s, n) is None,
    decreases n - k
{ reveal_with_fuel(scan, 3); reveal_with_fuel(tok, 3); reveal_with_fuel(titems, 3); if k < n { lemma_scan_none(l, m, s, k + 1, n); } }
pub proof fn lemma_tok_char(l: bool, m: TY, s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures
        quoted(s, k + 1) == (if s[k] == '"' { !quoted(s, k) } else { quoted(s, k) }),
        level(m, s, k + 1) == (if quoted(s, k) { level(m, s, k) } else if s[k] == op(m) { level(m, s, k) + 1 } else if s[k] == cl(m) { level(m, s, k) - 1 } else { level(m, s, k) }),
        begin(m, s, k + 1) == (if cut(m, s, k + 1) { k + 1 } else { begin(m, s, k) }),
        scan(l, m, s, k) is Some ==> scan(l, m, s, k + 1) == (
            if stray(m, s, k + 1) { None } else if !cut(m, s, k + 1) { scan(l, m, s, k) }
            else { match member(m, scan(l, m, s, k)->0.len() as int) { None => None, Some(t) => match tok(l, t, s.subrange(begin(m, s, k), k)) { Some(v) => Some(scan(l, m, s, k)->0.push(v)), None => None } } }),
        scan(l, m, s, k + 1) is None ==> titems(l, m, s) is None || s.len() <= 2,
        level(m, s, 0) == 0, !quoted(s, 0), begin(m, s, 0) == 1, scan(l, m, s, 0) == Some(Seq::<V>::empty()),
{
    reveal_with_fuel(quoted, 2); reveal_with_fuel(level, 2); reveal_with_fuel(begin, 2);
    reveal_with_fuel(scan, 3); reveal_with_fuel(tok, 3); reveal_with_fuel(titems, 3);
    if scan(l, m, s, k + 1) is None { lemma_scan_none(l, m, s, k + 1, s.len() as int); }
}
pub proof fn lemma_items(l: bool, m: TY, s: Seq<char>)
    ensures
        s.len() < 2 || s[0] != op(m) || s.last() != cl(m) ==> titems(l, m, s) is None,
        s.len() == 2 && s[0] == op(m) && s.last() == cl(m) ==> titems(l, m, s) == (if m is Tup && m->Tup_0.len() > 0 { None } else { Some(Seq::<V>::empty()) }),
        s.len() > 2 && s[0] == op(m) && s.last() == cl(m) ==> titems(l, m, s) == (
            if quoted(s, s.len() as int) || level(m, s, s.len() as int) != 0 { None }
            else { match scan(l, m, s, s.len() as int) { Some(vs) => if m is Tup && vs.len() != m->Tup_0.len() { None } else { Some(vs) }, None => None } }),
        level(m, s, 0) == 0, !quoted(s, 0), begin(m, s, 0) == 1, scan(l, m, s, 0) == Some(Seq::<V>::empty()),
{
    reveal_with_fuel(quoted, 2); reveal_with_fuel(level, 2); reveal_with_fuel(begin, 2);
    reveal_with_fuel(scan, 3); reveal_with_fuel(tok, 3); reveal_with_fuel(titems, 3);
}
pub proof fn lemma_tok(l: bool, t: TY, s: Seq<char>)
    ensures tok(l, t, s) == (match t {
        TY::Address => match unhex_n(s, 20) { Some(b) => Some(V::Address(b)), None => None },
        TY::Str => Some(V::Str(s)),
        TY::Bool => match bool_of(s) { Some(b) => Some(V::Bool(b)), None => None },
        TY::Bytes => match unhex(s) { Some(b) => Some(V::Bytes(b)), None => None },
        TY::FBytes(n) => match unhex_n(s, n) { Some(b) => Some(V::FixedBytes(b)), None => None },
        TY::Uint(_) => match uint_of(l, s) { Some(b) => Some(V::Uint(b)), None => None },
        TY::Int(_) => match int_of(l, s) { Some(b) => Some(V::Int(b)), None => None },
        TY::Arr(_) => match titems(l, t, s) { Some(vs) => Some(V::Arr(vs)), None => None },
        TY::FArr(x, n) => match titems(l, t, s) { Some(vs) => if vs.len() == n { Some(V::FArr(vs)) } else { None }, None => None },
        TY::Tup(_) => match titems(l, t, s) { Some(vs) => Some(V::Tup(vs)), None => None },
    }),
{ reveal_with_fuel(scan, 3); reveal_with_fuel(tok, 3); reveal_with_fuel(titems, 3); }
/// an array and a fixed array have the same text
pub proof fn lemma_scan_arr(l: bool, t: TY, n: nat, s: Seq<char>, k: int)
    ensures scan(l, TY::Arr(Box::new(t)), s, k) == scan(l, TY::FArr(Box::new(t), n), s, k),
        level(TY::Arr(Box::new(t)), s, k) == level(TY::FArr(Box::new(t), n), s, k), begin(TY::Arr(Box::new(t)), s, k) == begin(TY::FArr(Box::new(t), n), s, k),
    decreases k
{
    reveal_with_fuel(level, 2); reveal_with_fuel(begin, 2); reveal_with_fuel(scan, 3); reveal_with_fuel(tok, 3); reveal_with_fuel(titems, 3);
    if k > 0 { lemma_scan_arr(l, t, n, s, k - 1); }
}
pub proof fn lemma_items_arr(l: bool, t: TY, n: nat, s: Seq<char>)
    ensures titems(l, TY::Arr(Box::new(t)), s) == titems(l, TY::FArr(Box::new(t), n), s),
{ lemma_items(l, TY::Arr(Box::new(t)), s); lemma_items(l, TY::FArr(Box::new(t), n), s); lemma_scan_arr(l, t, n, s, s.len() as int); }
pub broadcast proof fn lemma_suffix_1(c: char, s: Seq<char>)
    ensures #![trigger is_suffix(seq![c], s)] is_suffix(seq![c], s) == (s.len() > 0 && s.last() == c),
{ if s.len() > 0 { assert(s.skip(s.len() - 1) =~= seq![s.last()]); assert(s.skip(s.len() - 1)[0] == s.last()); if s.last() != c { assert(seq![c][0] == c); } } }

// ---------------------------------------------------------------- what is returned is of the type that was asked for
#[verifier::opaque]
pub open spec fn vof(v: V, t: TY) -> bool
    decreases t
{
    match t {
        TY::Address => v is Address && v->Address_0.len() == 20,
        TY::Str => v is Str,
        TY::Bool => v is Bool,
        TY::Bytes => v is Bytes,
        TY::FBytes(n) => v is FixedBytes && v->FixedBytes_0.len() == n,
        TY::Uint(_) => v is Uint && v->Uint_0.len() == 32,
        TY::Int(_) => v is Int && v->Int_0.len() == 32,
        TY::Arr(x) => v is Arr && forall|i: int| 0 <= i < v->Arr_0.len() ==> vof(#[trigger] v->Arr_0[i], *x),
        TY::FArr(x, n) => v is FArr && v->FArr_0.len() == n && forall|i: int| 0 <= i < v->FArr_0.len() ==> vof(#[trigger] v->FArr_0[i], *x),
        TY::Tup(ts) => v is Tup && v->Tup_0.len() == ts.len() && forall|i: int| 0 <= i < ts.len() ==> vof(#[trigger] v->Tup_0[i], ts[i]),
    }
}
pub proof fn lemma_scan_typed(l: bool, m: TY, s: Seq<char>, k: int)
    requires m is Arr || m is FArr || m is Tup, scan(l, m, s, k) is Some,
    ensures forall|i: int| 0 <= i < scan(l, m, s, k)->0.len() ==> member(m, i) is Some && vof(#[trigger] scan(l, m, s, k)->0[i], member(m, i)->0),
        m is Tup ==> scan(l, m, s, k)->0.len() <= m->Tup_0.len(),
    decreases m, 0int, k
{
    if k <= 0 { reveal_with_fuel(scan, 2); } else {
        assert(scan(l, m, s, k) == (match scan(l, m, s, k - 1) { None => None, Some(vs) => if stray(m, s, k) { None } else if !cut(m, s, k) { Some(vs) }
            else { match member(m, vs.len() as int) { None => None, Some(t) => match tok(l, t, s.subrange(begin(m, s, k - 1), k - 1)) { Some(v) => Some(vs.push(v)), None => None } } } }))
            by { reveal_with_fuel(scan, 3); reveal_with_fuel(tok, 3); reveal_with_fuel(titems, 3); }
        lemma_scan_typed(l, m, s, k - 1);
        let vs = scan(l, m, s, k - 1)->0;
        if !stray(m, s, k) && cut(m, s, k) {
            let p = s.subrange(begin(m, s, k - 1), k - 1);
            match m { TY::Arr(t) => { theorem_typed(l, *t, p); } TY::FArr(t, _) => { theorem_typed(l, *t, p); } TY::Tup(ts) => { theorem_typed(l, ts[vs.len() as int], p); } _ => { } }
        }
    }
}
pub proof fn theorem_typed(l: bool, t: TY, s: Seq<char>)
    requires tok(l, t, s) is Some,
    ensures vof(tok(l, t, s)->0, t),
    decreases t, 2int, 0int
{
    lemma_tok(l, t, s); reveal_with_fuel(vof, 2); reveal(uint_of); reveal(int_of); reveal(full);
    broadcast use lemma_full;
    match t {
        TY::Arr(_) | TY::FArr(_, _) | TY::Tup(_) => {
            lemma_items(l, t, s);
            if s.len() > 2 { lemma_scan_typed(l, t, s, s.len() as int); }
        }
        TY::Uint(_) => { if uval(s) < full() { lemma_be(uval(s), 32); } }
        TY::Int(_) => {
            lemma_be(0, 32);
            let d = if s.len() > 0 && s[0] == '-' { s.skip(1) } else { s };
            if uval(d) < full() { lemma_be(uval(d), 32); if uval(d) > 0 { lemma_be((full() - uval(d)) as nat, 32); } }
        }
        _ => { }
    }
}
/// a list that is read is balanced: its own bracket closes at its end and nowhere else
pub proof fn theorem_balanced(l: bool, m: TY, s: Seq<char>, k: int)
    requires titems(l, m, s) is Some, 0 < k < s.len(),
    ensures level(m, s, k) > 0,
    decreases k
{
    lemma_items(l, m, s);
    reveal_with_fuel(level, 3); reveal_with_fuel(quoted, 2);
    if k > 1 {
        theorem_balanced(l, m, s, k - 1);
        if s.len() > 2 && scan(l, m, s, k) is None { lemma_scan_none(l, m, s, k, s.len() as int); }
        assert(scan(l, m, s, k) is Some);
        assert(!stray(m, s, k)) by { reveal_with_fuel(scan, 3); reveal_with_fuel(tok, 3); reveal_with_fuel(titems, 3); }
    }
}

// ---------------------------------------------------------------- shims
pub struct FromHexError { }
impl VxErr<Error> for FromHexError { open spec fn err_ok(self, r: Error) -> bool { true } fn vx_err0(self) -> (r: Error) { Error::Hex } }
#[verifier::external_body]
pub fn vx_hex_decode(s: &str) -> (r: Result<Vec<u8>, FromHexError>) ensures match unhex(s@) { Some(b) => r is Ok && r->Ok_0@ == b && b.len() <= isize::MAX, None => r is Err } { unimplemented!() }
pub struct Anyhow { }
pub fn vx_anyhow() -> Anyhow { Anyhow { } }
impl VxInto<Error> for Anyhow { open spec fn vx_into_ok(self, r: Error) -> bool { true } #[verifier::external_body] fn vx_into(self) -> (r: Error) { unimplemented!() } }
pub trait VxCmp: Sized { spec fn iv(&self) -> int; fn vx_cmp(&self, o: &Self) -> (r: Ordering) ensures r == (if self.iv() < o.iv() { Ordering::Less } else if self.iv() == o.iv() { Ordering::Equal } else { Ordering::Greater }); }
impl VxCmp for isize { open spec fn iv(&self) -> int { *self as int } #[verifier::external_body] fn vx_cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl VxCmp for usize { open spec fn iv(&self) -> int { *self as int } #[verifier::external_body] fn vx_cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl VxCmp for i32 { open spec fn iv(&self) -> int { *self as int } #[verifier::external_body] fn vx_cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl VxCmp for u32 { open spec fn iv(&self) -> int { *self as int } #[verifier::external_body] fn vx_cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
} // verus!
