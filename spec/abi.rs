// The mathematical ABI: types, the encoding layout, and lemmas about it.
verus! {


/// dynamic in the sense of the ABI
#[verifier::opaque]
pub open spec fn dynv(v: V) -> bool
    decreases v
{
    match v {
        V::Bytes(_) | V::Str(_) | V::Arr(_) => true,
        V::FArr(vs) => exists|i: int| 0 <= i < vs.len() && dynv(#[trigger] vs[i]),
        V::Tup(vs) => exists|i: int| 0 <= i < vs.len() && dynv(#[trigger] vs[i]),
        _ => false,
    }
}
pub broadcast proof fn lemma_dynv_leaf(v: V)
    ensures #![trigger dynv(v)]
        v is Bytes || v is Str || v is Arr ==> dynv(v),
        v is Address || v is FixedBytes || v is Int || v is Uint || v is Bool ==> !dynv(v),
{ reveal(dynv); }
pub broadcast proof fn lemma_dynv_tup(v: V, i: int)
    requires v is Tup, 0 <= i < v->Tup_0.len(),
    ensures #![trigger dynv(v), v->Tup_0[i]] dynv(v->Tup_0[i]) ==> dynv(v),
{ reveal_with_fuel(dynv, 2); }
pub broadcast proof fn lemma_dynv_farr(v: V, i: int)
    requires v is FArr, 0 <= i < v->FArr_0.len(),
    ensures #![trigger dynv(v), v->FArr_0[i]] dynv(v->FArr_0[i]) ==> dynv(v),
{ reveal_with_fuel(dynv, 2); }
pub proof fn lemma_dynv_ex(v: V)
    ensures
        v is Tup ==> dynv(v) == exists|i: int| 0 <= i < v->Tup_0.len() && dynv(#[trigger] v->Tup_0[i]),
        v is FArr ==> dynv(v) == exists|i: int| 0 <= i < v->FArr_0.len() && dynv(#[trigger] v->FArr_0[i]),
{ reveal_with_fuel(dynv, 2); }
pub broadcast group group_dyn { lemma_dynv_leaf, lemma_dynv_tup, lemma_dynv_farr }

// ---------------------------------------------------------------- layout
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
/// 32-byte big-endian unsigned integer below 2^32
pub open spec fn word(n: nat) -> Seq<u8> { zeros(28) + be4(n) }
/// right-padded with zeros to a multiple of 32 bytes
pub open spec fn zpad_len(n: nat) -> nat { (((n + 31) / 32) * 32) as nat }
pub open spec fn zpad(b: Seq<u8>) -> Seq<u8> { b + zeros((zpad_len(b.len()) - b.len()) as nat) }

/// one element of a list to lay out: a static body goes to the head, a dynamic one to the tail
pub struct Item { pub dy: bool, pub body: Seq<u8> }
pub open spec fn hsize(x: Item) -> nat { if x.dy { 32 } else { x.body.len() } }
/// size of the heads of the first n elements
#[verifier::opaque]
pub open spec fn heads_size(xs: Seq<Item>, n: int) -> nat
    decreases n
{ if n <= 0 { 0 } else { heads_size(xs, n - 1) + hsize(xs[n - 1]) } }
/// tails of the first n elements
#[verifier::opaque]
pub open spec fn tails(xs: Seq<Item>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::empty() } else if xs[n - 1].dy { tails(xs, n - 1) + xs[n - 1].body } else { tails(xs, n - 1) } }
/// heads of the first n elements; `base`: the size of all heads of the list
#[verifier::opaque]
pub open spec fn heads(xs: Seq<Item>, base: nat, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        heads(xs, base, n - 1) + if xs[n - 1].dy { word(base + tails(xs, n - 1).len()) } else { xs[n - 1].body }
    }
}
#[verifier::opaque]
pub open spec fn lay(xs: Seq<Item>) -> Seq<u8> { heads(xs, heads_size(xs, xs.len() as int), xs.len() as int) + tails(xs, xs.len() as int) }

/// enc(X) of the ABI specification
#[verifier::opaque]
pub open spec fn enc(v: V) -> Seq<u8>
    decreases v
{
    match v {
        V::Address(a) => zeros(12) + a,
        V::FixedBytes(b) => if b.len() == 0 { zeros(32) } else { zpad(b) },
        V::Bytes(b) => word(b.len()) + zpad(b),
        V::Int(i) => i,
        V::Uint(i) => i,
        V::Bool(b) => zeros(31) + seq![if b { 1u8 } else { 0u8 }],
        V::Str(s) => word(vstd::utf8::encode_utf8(s).len()) + zpad(vstd::utf8::encode_utf8(s)),
        V::FArr(vs) => lay(items(vs)),
        V::Tup(vs) => lay(items(vs)),
        V::Arr(vs) => word(vs.len()) + lay(items(vs)),
    }
}
#[verifier::opaque]
pub open spec fn items(vs: Seq<V>) -> Seq<Item>
    decreases vs
{ Seq::new(vs.len(), |i: int| if 0 <= i < vs.len() { Item { dy: dynv(vs[i]), body: enc(vs[i]) } } else { arbitrary() }) }
pub open spec fn item(v: V) -> Item { Item { dy: dynv(v), body: enc(v) } }
/// the encoding of a list of values
pub open spec fn enc_list(vs: Seq<V>) -> Seq<u8> { lay(items(vs)) }
pub broadcast proof fn lemma_enc(v: V)
    ensures #![trigger enc(v)]
        v is Address ==> enc(v) == zeros(12) + v->Address_0,
        v is FixedBytes ==> enc(v) == if v->FixedBytes_0.len() == 0 { zeros(32) } else { zpad(v->FixedBytes_0) },
        v is Bytes ==> enc(v) == word(v->Bytes_0.len()) + zpad(v->Bytes_0),
        v is Int ==> enc(v) == v->Int_0,
        v is Uint ==> enc(v) == v->Uint_0,
        v is Bool ==> enc(v) == zeros(31) + seq![if v->Bool_0 { 1u8 } else { 0u8 }],
        v is Str ==> enc(v) == word(vstd::utf8::encode_utf8(v->Str_0).len()) + zpad(vstd::utf8::encode_utf8(v->Str_0)),
        v is FArr ==> enc(v) == lay(items(v->FArr_0)),
        v is Tup ==> enc(v) == lay(items(v->Tup_0)),
        v is Arr ==> enc(v) == word(v->Arr_0.len()) + lay(items(v->Arr_0)),
{ reveal_with_fuel(enc, 3); reveal_with_fuel(items, 3); }
pub broadcast proof fn lemma_items_len(vs: Seq<V>) ensures (#[trigger] items(vs)).len() == vs.len() { reveal_with_fuel(enc, 3); reveal_with_fuel(items, 3); }
pub broadcast proof fn lemma_items_index(vs: Seq<V>, i: int)
    requires 0 <= i < vs.len(),
    ensures #![trigger items(vs), vs[i]] items(vs)[i] == item(vs[i]),
{ reveal_with_fuel(enc, 3); reveal_with_fuel(items, 3); }
pub broadcast proof fn lemma_items_index2(vs: Seq<V>, i: int)
    requires 0 <= i < vs.len(),
    ensures #![trigger items(vs)[i]] items(vs)[i] == item(vs[i]),
{ reveal_with_fuel(enc, 3); reveal_with_fuel(items, 3); }
pub broadcast group group_enc { lemma_enc, lemma_items_len, lemma_items_index, lemma_items_index2 }

/// array lengths fit the 32-bit length arithmetic of the encoder
#[verifier::opaque]
pub open spec fn counts_ok(v: V) -> bool
    decreases v
{
    match v {
        V::FArr(vs) => forall|i: int| 0 <= i < vs.len() ==> counts_ok(#[trigger] vs[i]),
        V::Tup(vs) => forall|i: int| 0 <= i < vs.len() ==> counts_ok(#[trigger] vs[i]),
        V::Arr(vs) => vs.len() < 0x1_0000_0000 && forall|i: int| 0 <= i < vs.len() ==> counts_ok(#[trigger] vs[i]),
        _ => true,
    }
}
#[verifier::opaque]
pub open spec fn list_fits(vs: Seq<V>) -> bool {
    enc_list(vs).len() < 0x1_0000_0000 && forall|i: int| 0 <= i < vs.len() ==> counts_ok(#[trigger] vs[i])
}
#[verifier::opaque]
pub open spec fn fits(v: V) -> bool { enc(v).len() < 0x1_0000_0000 && counts_ok(v) }

// ---------------------------------------------------------------- lemmas about the layout
// The functions over prefixes are opaque: they unfold only between two prefixes that occur.
pub broadcast proof fn lemma_heads_size_0(xs: Seq<Item>, n: int)
    ensures #![trigger heads_size(xs, n)] n <= 0 ==> heads_size(xs, n) == 0,
{ reveal(heads_size); }
pub broadcast proof fn lemma_heads_size_step(xs: Seq<Item>, i: int, j: int)
    requires 0 <= i, j == i + 1,
    ensures #![trigger heads_size(xs, i), heads_size(xs, j)] heads_size(xs, j) == heads_size(xs, i) + hsize(xs[i]),
{ reveal(heads_size); }
pub broadcast proof fn lemma_tails_0(xs: Seq<Item>, n: int)
    ensures #![trigger tails(xs, n)] n <= 0 ==> tails(xs, n) == Seq::<u8>::empty(),
{ reveal(tails); }
pub broadcast proof fn lemma_tails_step(xs: Seq<Item>, i: int, j: int)
    requires 0 <= i, j == i + 1,
    ensures #![trigger tails(xs, i), tails(xs, j)] tails(xs, j) == if xs[i].dy { tails(xs, i) + xs[i].body } else { tails(xs, i) },
{ reveal(tails); }
pub broadcast proof fn lemma_heads_0(xs: Seq<Item>, base: nat, n: int)
    ensures #![trigger heads(xs, base, n)] n <= 0 ==> heads(xs, base, n) == Seq::<u8>::empty(),
{ reveal(heads); }
pub broadcast proof fn lemma_heads_step(xs: Seq<Item>, base: nat, i: int, j: int)
    requires 0 <= i, j == i + 1,
    ensures #![trigger heads(xs, base, i), heads(xs, base, j)]
        heads(xs, base, j) == heads(xs, base, i) + if xs[i].dy { word(base + tails(xs, i).len()) } else { xs[i].body },
{ reveal(heads); }
pub broadcast proof fn lemma_lay_def(xs: Seq<Item>, n: int, base: nat)
    ensures #![trigger lay(xs), heads(xs, base, n)] n == xs.len() && base == heads_size(xs, n) ==> lay(xs) == heads(xs, base, n) + tails(xs, n),
{ reveal(lay); }
pub broadcast proof fn lemma_heads_len(xs: Seq<Item>, base: nat, n: int)
    ensures #[trigger] heads(xs, base, n).len() == heads_size(xs, n),
    decreases n
{
    reveal(heads_size); reveal(heads);
    if n > 0 { lemma_heads_len(xs, base, n - 1); }
}
pub broadcast proof fn lemma_lay_len(xs: Seq<Item>)
    ensures #[trigger] lay(xs).len() == heads_size(xs, xs.len() as int) + tails(xs, xs.len() as int).len(),
{ reveal(lay); lemma_heads_len(xs, heads_size(xs, xs.len() as int), xs.len() as int); }
pub proof fn lemma_size_mono(xs: Seq<Item>, i: int, j: int)
    requires 0 <= i <= j <= xs.len(),
    ensures heads_size(xs, i) <= heads_size(xs, j), tails(xs, i).len() <= tails(xs, j).len(),
    decreases j - i
{
    reveal(heads_size); reveal(tails);
    if i < j { lemma_size_mono(xs, i, j - 1); }
}
/// no part is larger than the whole
pub broadcast proof fn lemma_heads_bound(xs: Seq<Item>, i: int)
    requires 0 <= i <= xs.len(),
    ensures #[trigger] heads_size(xs, i) <= heads_size(xs, xs.len() as int),
{ lemma_size_mono(xs, i, xs.len() as int); }
pub broadcast proof fn lemma_heads_bound1(xs: Seq<Item>, i: int)
    requires 0 <= i < xs.len(),
    ensures #![trigger heads_size(xs, i), xs[i]] heads_size(xs, i) + hsize(xs[i]) <= heads_size(xs, xs.len() as int),
{ lemma_size_mono(xs, i + 1, xs.len() as int); lemma_heads_size_step(xs, i, i + 1); }
pub broadcast proof fn lemma_tails_bound(xs: Seq<Item>, i: int)
    requires 0 <= i <= xs.len(),
    ensures (#[trigger] tails(xs, i)).len() <= tails(xs, xs.len() as int).len(),
{ lemma_size_mono(xs, i, xs.len() as int); }
pub broadcast proof fn lemma_tails_bound1(xs: Seq<Item>, i: int)
    requires 0 <= i < xs.len(),
    ensures #![trigger tails(xs, i), xs[i]] xs[i].dy ==> tails(xs, i).len() + xs[i].body.len() <= tails(xs, xs.len() as int).len(),
{ lemma_size_mono(xs, i + 1, xs.len() as int); lemma_tails_step(xs, i, i + 1); }
pub broadcast proof fn lemma_item_bound(xs: Seq<Item>, i: int)
    requires 0 <= i < xs.len(),
    ensures #![trigger lay(xs), xs[i]] xs[i].body.len() <= lay(xs).len(),
{
    lemma_lay_len(xs);
    lemma_heads_bound1(xs, i);
    lemma_tails_bound1(xs, i);
}
pub broadcast group group_lay {
    lemma_heads_size_0, lemma_heads_size_step, lemma_tails_0, lemma_tails_step, lemma_heads_0, lemma_heads_step, lemma_lay_def,
    lemma_heads_len, lemma_lay_len, lemma_heads_bound, lemma_heads_bound1, lemma_tails_bound, lemma_tails_bound1, lemma_item_bound
}

/// the bytes of the first n words of a list
pub open spec fn flat_to(ws: Seq<[u8; 32]>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { Seq::empty() } else { flat_to(ws, n - 1) + ws[n - 1]@ } }
#[verifier::opaque]
pub open spec fn flat(ws: Seq<[u8; 32]>) -> Seq<u8> { flat_to(ws, ws.len() as int) }
pub proof fn lemma_flat_ext(a: Seq<[u8; 32]>, b: Seq<[u8; 32]>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures flat_to(a, n) == flat_to(b, n), flat_to(a, n).len() == 32 * n,
    decreases n
{ if n > 0 { lemma_flat_ext(a, b, n - 1); } }
pub broadcast proof fn lemma_flat_def(ws: Seq<[u8; 32]>, n: int)
    ensures #![trigger flat(ws), flat_to(ws, n)] n == ws.len() ==> flat(ws) == flat_to(ws, n),
{ reveal(flat); }
pub broadcast proof fn lemma_flat_len(ws: Seq<[u8; 32]>)
    ensures #[trigger] flat(ws).len() == 32 * ws.len(),
{ reveal(flat); lemma_flat_ext(ws, ws, ws.len() as int); }
pub broadcast proof fn lemma_flat_empty(ws: Seq<[u8; 32]>)
    requires ws.len() == 0,
    ensures #[trigger] flat(ws) == Seq::<u8>::empty(),
{ reveal(flat); }
pub broadcast proof fn lemma_flat_single(ws: Seq<[u8; 32]>)
    requires ws.len() == 1,
    ensures
        #[trigger] flat(ws) == ws[0]@,
        (forall|i: int| 0 <= i < 31 ==> ws[0]@[i] == 0) ==> flat(ws) == zeros(31) + seq![ws[0]@[31]],
        (forall|i: int| 0 <= i < 32 ==> ws[0]@[i] == 0) ==> flat(ws) == zeros(32),
{
    reveal(flat);
    reveal_with_fuel(flat_to, 3);
    assert(flat(ws) =~= ws[0]@);
    if forall|i: int| 0 <= i < 31 ==> ws[0]@[i] == 0 { assert(ws[0]@ =~= zeros(31) + seq![ws[0]@[31]]); }
    if forall|i: int| 0 <= i < 32 ==> ws[0]@[i] == 0 { assert(ws[0]@ =~= zeros(32)); }
}
pub broadcast proof fn lemma_flat_push(ws: Seq<[u8; 32]>, w: [u8; 32])
    ensures #[trigger] flat(ws.push(w)) == flat(ws) + w@,
{ reveal(flat); lemma_flat_ext(ws.push(w), ws, ws.len() as int); }
pub broadcast proof fn lemma_flat_add(a: Seq<[u8; 32]>, b: Seq<[u8; 32]>)
    ensures #[trigger] flat(a + b) == flat(a) + flat(b),
    decreases b
{
    if b.len() == 0 { assert(a + b =~= a); lemma_flat_empty(b); assert(flat(a) + flat(b) =~= flat(a)); } else {
        let b0 = b.drop_last();
        assert((a + b) =~= (a + b0).push(b.last()));
        assert(b =~= b0.push(b.last()));
        lemma_flat_add(a, b0);
        lemma_flat_push(a + b0, b.last());
        lemma_flat_push(b0, b.last());
        assert(flat(a) + (flat(b0) + b.last()@) =~= flat(a) + flat(b0) + b.last()@);
    }
}
pub broadcast group group_flat { lemma_flat_def, lemma_flat_len, lemma_flat_empty, lemma_flat_single, lemma_flat_push, lemma_flat_add }

// overwriting a zeroed word
pub broadcast proof fn lemma_overwrite_suffix(s: Seq<u8>, lo: int, src: Seq<u8>)
    requires s.len() == 32, 0 <= lo, lo + src.len() == 32, forall|i: int| 0 <= i < 32 ==> s[i] == 0,
    ensures #[trigger] overwrite(s, lo, src) == zeros(lo as nat) + src,
{ assert(overwrite(s, lo, src) =~= zeros(lo as nat) + src); }
pub broadcast proof fn lemma_overwrite_prefix(s: Seq<u8>, src: Seq<u8>)
    requires s.len() == 32, src.len() <= 32, forall|i: int| 0 <= i < 32 ==> s[i] == 0,
    ensures #[trigger] overwrite(s, 0, src) == src + zeros((32 - src.len()) as nat),
{ assert(overwrite(s, 0, src) =~= src + zeros((32 - src.len()) as nat)); }
pub broadcast group group_word { lemma_overwrite_suffix, lemma_overwrite_prefix }

} // verus!
