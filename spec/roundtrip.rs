// Decoding an encoding gives back the values: a theorem about the two specifications that the
// code of encoder.rs and decoder.rs is proved to meet.
verus! {

/// the library's lossy UTF-8 conversion is exact on valid UTF-8 (assumed, documented)
pub axiom fn axiom_lossy(s: Seq<char>) ensures lossy(vstd::utf8::encode_utf8(s)) == s;

/// types of Solidity
pub open spec fn valid(ty: ParamType) -> bool
    decreases ty
{
    match ty {
        ParamType::FixedBytes(n) => 1 <= n <= 32,
        ParamType::Array(t) => valid(*t),
        ParamType::FixedArray(t, n) => n > 0 && valid(*t),
        ParamType::Tuple(ts) => ts@.len() > 0 && forall|i: int| 0 <= i < ts@.len() ==> valid(#[trigger] ts@[i]),
        _ => true,
    }
}
/// values of exactly the type
pub open spec fn exact(v: V, ty: ParamType) -> bool
    decreases v
{
    match v {
        V::Address(a) => ty is Address && a.len() == 20,
        V::Bytes(_) => ty is Bytes,
        V::Int(x) => ty is Int && x.len() == 32,
        V::Uint(x) => ty is Uint && x.len() == 32,
        V::Bool(_) => ty is Bool,
        V::Str(_) => ty is String,
        V::FixedBytes(b) => ty is FixedBytes && b.len() == ty->FixedBytes_0,
        V::Arr(vs) => ty is Array && forall|i: int| 0 <= i < vs.len() ==> exact(#[trigger] vs[i], *ty->Array_0),
        V::FArr(vs) => ty is FixedArray && vs.len() == ty->FixedArray_1 && forall|i: int| 0 <= i < vs.len() ==> exact(#[trigger] vs[i], *ty->FixedArray_0),
        V::Tup(vs) => ty is Tuple && vs.len() == ty->Tuple_0@.len() && forall|i: int| 0 <= i < vs.len() ==> exact(#[trigger] vs[i], ty->Tuple_0@[i]),
    }
}
pub open spec fn exacts(vs: Seq<V>, tys: Seq<ParamType>) -> bool {
    vs.len() == tys.len() && forall|i: int| 0 <= i < vs.len() ==> exact(#[trigger] vs[i], tys[i])
}
pub open spec fn valids(tys: Seq<ParamType>) -> bool { forall|i: int| 0 <= i < tys.len() ==> valid(#[trigger] tys[i]) }

pub proof fn lemma_dyn_same(v: V, ty: ParamType)
    requires exact(v, ty), valid(ty),
    ensures dynv(v) == dynt(ty),
    decreases v
{
    lemma_dynv_leaf(v); lemma_dynv_ex(v); lemma_dynt_ex(ty);
    match v {
        V::FArr(vs) => {
            assert(exact(vs[0], *ty->FixedArray_0));
            lemma_dyn_same(vs[0], *ty->FixedArray_0);
            if dynv(v) {
                let i = choose|i: int| 0 <= i < v->FArr_0.len() && dynv(#[trigger] v->FArr_0[i]);
                lemma_dyn_same(vs[i], *ty->FixedArray_0);
            } else { assert(!dynv(v->FArr_0[0])); }
        }
        V::Tup(vs) => {
            let ts = ty->Tuple_0@;
            if dynv(v) {
                let i = choose|i: int| 0 <= i < v->Tup_0.len() && dynv(#[trigger] v->Tup_0[i]);
                lemma_dyn_same(vs[i], ts[i]);
            }
            if dynt(ty) {
                let i = choose|i: int| 0 <= i < ty->Tuple_0@.len() && dynt(#[trigger] ty->Tuple_0@[i]);
                assert(exact(vs[i], ts[i]));
                lemma_dyn_same(vs[i], ts[i]);
                assert(dynv(v->Tup_0[i]));
            }
        }
        _ => {}
    }
}

pub proof fn lemma_wnum_word(n: nat)
    requires n < 0x1_0000_0000,
    ensures wnum(word(n)) == Some(n as int), word(n).len() == 32,
{
    let w = word(n);
    assert(w.len() == 32);
    assert(w[28] == be4(n)[0] && w[29] == be4(n)[1] && w[30] == be4(n)[2] && w[31] == be4(n)[3]);
    assert(n / 0x1000000 < 256) by (nonlinear_arith) requires n < 0x1_0000_0000;
    assert(n == (n / 0x1000000) * 0x1000000 + (n / 0x10000 % 256) * 0x10000 + (n / 0x100 % 256) * 0x100 + n % 256) by (nonlinear_arith) requires 0 <= n < 0x1_0000_0000;
}

/// the head part of element i
pub open spec fn headpart(xs: Seq<Item>, base: nat, i: int) -> Seq<u8> {
    if xs[i].dy { word(base + tails(xs, i).len()) } else { xs[i].body }
}
pub proof fn lemma_head_in(xs: Seq<Item>, base: nat, i: int, n: int)
    requires 0 <= i < n <= xs.len(),
    ensures
        heads_size(xs, i) + hsize(xs[i]) <= heads(xs, base, n).len(),
        heads(xs, base, n).subrange(heads_size(xs, i) as int, (heads_size(xs, i) + hsize(xs[i])) as int) == headpart(xs, base, i),
    decreases n
{
    lemma_heads_len(xs, base, n); lemma_heads_len(xs, base, n - 1); lemma_heads_step(xs, base, n - 1, n); lemma_heads_size_step(xs, n - 1, n);
    let (a, b) = (heads_size(xs, i) as int, (heads_size(xs, i) + hsize(xs[i])) as int);
    if i < n - 1 {
        lemma_head_in(xs, base, i, n - 1);
        assert(heads(xs, base, n).subrange(a, b) =~= heads(xs, base, n - 1).subrange(a, b));
    } else {
        assert(heads(xs, base, n).subrange(a, b) =~= headpart(xs, base, i));
    }
}
pub proof fn lemma_tail_in(xs: Seq<Item>, i: int, n: int)
    requires 0 <= i < n <= xs.len(), xs[i].dy,
    ensures
        tails(xs, i).len() + xs[i].body.len() <= tails(xs, n).len(),
        tails(xs, n).subrange(tails(xs, i).len() as int, (tails(xs, i).len() + xs[i].body.len()) as int) == xs[i].body,
    decreases n
{
    lemma_tails_step(xs, n - 1, n);
    let (a, b) = (tails(xs, i).len() as int, (tails(xs, i).len() + xs[i].body.len()) as int);
    if i < n - 1 {
        lemma_tail_in(xs, i, n - 1);
        assert(tails(xs, n).subrange(a, b) =~= tails(xs, n - 1).subrange(a, b));
    } else {
        assert(tails(xs, n).subrange(a, b) =~= xs[i].body);
    }
}
pub open spec fn has_at(d: Seq<u8>, o: int, b: Seq<u8>) -> bool { 0 <= o && o + b.len() <= d.len() && d.subrange(o, o + b.len()) == b }
pub proof fn lemma_has_sub(d: Seq<u8>, o: int, b: Seq<u8>, x: int, y: int)
    requires has_at(d, o, b), 0 <= x <= y <= b.len(),
    ensures d.subrange(o + x, o + y) == b.subrange(x, y),
{ assert(d.subrange(o, o + b.len()).subrange(x, y) =~= d.subrange(o + x, o + y)); }
/// where the parts of a layout are
pub proof fn lemma_lay_in(xs: Seq<Item>, d: Seq<u8>, o: int, i: int)
    requires 0 <= i < xs.len(), has_at(d, o, lay(xs)),
    ensures ({
        let base = heads_size(xs, xs.len() as int);
        &&& has_at(d, o + heads_size(xs, i), headpart(xs, base, i))
        &&& headpart(xs, base, i).len() == hsize(xs[i])
        &&& xs[i].dy ==> has_at(d, o + base + tails(xs, i).len(), xs[i].body)
        &&& base + tails(xs, i).len() <= lay(xs).len()
    }),
{
    let n = xs.len() as int;
    let base = heads_size(xs, n);
    reveal(lay);
    lemma_heads_len(xs, base, n);
    lemma_head_in(xs, base, i, n);
    let h = heads(xs, base, n);
    let t = tails(xs, n);
    assert(lay(xs) == h + t);
    let (a, b) = (heads_size(xs, i) as int, (heads_size(xs, i) + hsize(xs[i])) as int);
    assert((h + t).subrange(a, b) =~= h.subrange(a, b));
    lemma_has_sub(d, o, lay(xs), a, b);
    lemma_size_mono(xs, i, n);
    if xs[i].dy {
        lemma_tail_in(xs, i, n);
        let (x, y) = (tails(xs, i).len() as int, (tails(xs, i).len() + xs[i].body.len()) as int);
        assert((h + t).subrange(base + x, base + y) =~= t.subrange(x, y));
        lemma_has_sub(d, o, lay(xs), base + x, base + y);
    }
}

/// the value's encoding is where its head at `o` says
pub open spec fn stored(v: V, d: Seq<u8>, o: int) -> bool {
    if dynv(v) {
        exists|p: nat| p < 0x1_0000_0000 && has_at(d, o, #[trigger] word(p)) && has_at(d, p as int, enc(v))
    } else { has_at(d, o, enc(v)) }
}
pub open spec fn headlen(v: V) -> nat { if dynv(v) { 32 } else { enc(v).len() } }

pub proof fn lemma_size_pos(v: V, ty: ParamType)
    requires exact(v, ty), valid(ty),
    ensures headlen(v) >= 32,
    decreases v
{
    lemma_dynv_leaf(v); lemma_enc(v);
    match v {
        V::FArr(vs) => if !dynv(v) { lemma_size_pos(vs[0], *ty->FixedArray_0); lemma_items_index(vs, 0); lemma_items_len(vs); lemma_item_bound(items(vs), 0); lemma_dynv_farr(v, 0); },
        V::Tup(vs) => if !dynv(v) { lemma_size_pos(vs[0], ty->Tuple_0@[0]); lemma_items_index(vs, 0); lemma_items_len(vs); lemma_item_bound(items(vs), 0); lemma_dynv_tup(v, 0); },
        _ => {}
    }
}
pub proof fn lemma_count(vs: Seq<V>, tys: Seq<ParamType>, n: int)
    requires exacts(vs, tys), valids(tys), 0 <= n <= vs.len(),
    ensures heads_size(items(vs), n) >= 32 * n,
    decreases n
{
    lemma_heads_size_0(items(vs), n);
    if n > 0 {
        lemma_count(vs, tys, n - 1);
        lemma_heads_size_step(items(vs), n - 1, n);
        lemma_items_len(vs); lemma_items_index(vs, n - 1);
        assert(exact(vs[n - 1], tys[n - 1]) && valid(tys[n - 1]));
        lemma_size_pos(vs[n - 1], tys[n - 1]);
    }
}

/// a stored value is what decoding finds
pub proof fn lemma_dec_stored(v: V, ty: ParamType, d: Seq<u8>, o: int)
    requires exact(v, ty), valid(ty), stored(v, d, o), 0 <= o, enc(v).len() < 0x1_0000_0000,
    ensures dec(ty, d, o) == Some(Dec { v, o: o + headlen(v) }),
    decreases v, 0int, 0int
{
    lemma_dec(ty, d, o);
    lemma_dyn_same(v, ty);
    lemma_dynt_ex(ty);
    lemma_dynv_leaf(v);
    lemma_enc(v);
    if dynv(v) {
        let p = choose|p: nat| p < 0x1_0000_0000 && has_at(d, o, #[trigger] word(p)) && has_at(d, p as int, enc(v));
        lemma_wnum_word(p);
        assert(rdn(d, o) == Some(p as int));
        match v {
            V::Bytes(b) => { lemma_lb(d, o, p, b); }
            V::Str(s) => { lemma_lb(d, o, p, vstd::utf8::encode_utf8(s)); axiom_lossy(s); }
            V::Arr(vs) => {
                let t = *ty->Array_0;
                let xs = items(vs);
                let tys = Seq::new(vs.len(), |i: int| t);
                assert(exacts(vs, tys) && valids(tys));
                lemma_items_len(vs);
                lemma_count(vs, tys, vs.len() as int);
                lemma_lay_len(xs);
                lemma_wnum_word(vs.len());
                lemma_has_sub(d, p as int, enc(v), 0, 32);
                assert(enc(v).subrange(0, 32) =~= word(vs.len()));
                assert(rdn(d, p as int) == Some(vs.len() as int));
                lemma_has_sub(d, p as int, enc(v), 32, enc(v).len() as int);
                assert(enc(v).subrange(32, enc(v).len() as int) =~= lay(xs));
                let e = suffix(d, p as int + 32);
                assert(e.subrange(0, lay(xs).len() as int) =~= lay(xs));
                lemma_list(vs, tys, e, 0, vs.len() as int);
                lemma_rep_each(t, tys, e, 0, vs.len() as int);
                assert(vs.take(vs.len() as int) =~= vs);
            }
            V::FArr(vs) => {
                let t = *ty->FixedArray_0;
                let tys = Seq::new(vs.len(), |i: int| t);
                assert(exacts(vs, tys) && valids(tys));
                let e = suffix(d, p as int);
                assert(e.subrange(0, lay(items(vs)).len() as int) =~= d.subrange(p as int, p as int + lay(items(vs)).len()));
                lemma_list(vs, tys, e, 0, vs.len() as int);
                lemma_rep_each(t, tys, e, 0, vs.len() as int);
                assert(vs.take(vs.len() as int) =~= vs);
            }
            V::Tup(vs) => {
                let tys = ty->Tuple_0@;
                assert(exacts(vs, tys) && valids(tys));
                let e = suffix(d, p as int);
                assert(e.subrange(0, lay(items(vs)).len() as int) =~= d.subrange(p as int, p as int + lay(items(vs)).len()));
                lemma_list(vs, tys, e, 0, vs.len() as int);
                assert(vs.take(vs.len() as int) =~= vs);
            }
            _ => {}
        }
    } else {
        lemma_size_pos(v, ty);
        match v {
            V::Address(a) => {
                assert(enc(v).len() == 32);
                assert(d.subrange(o, o + 32).subrange(12, 32) =~= enc(v).subrange(12, 32));
                assert(enc(v).subrange(12, 32) =~= a);
            }
            V::FixedBytes(b) => {
                assert(zpad_len(b.len()) == 32);
                lemma_has_sub(d, o, enc(v), 0, b.len() as int);
                assert(enc(v).subrange(0, b.len() as int) =~= b);
            }
            V::Int(i) => { assert(d.subrange(o, o + 32) =~= i); }
            V::Uint(i) => { assert(d.subrange(o, o + 32) =~= i); }
            V::Bool(b) => {
                let w = enc(v);
                assert(w.len() == 32);
                assert(w[31] == if b { 1u8 } else { 0u8 });
                assert(forall|i: int| 0 <= i < 31 ==> #[trigger] w[i] == 0);
                assert(wbool(w) == Some(b));
                assert(rdw(d, o) == Some(w));
            }
            V::FArr(vs) => {
                let t = *ty->FixedArray_0;
                let tys = Seq::new(vs.len(), |i: int| t);
                assert(exacts(vs, tys) && valids(tys));
                assert forall|i: int| 0 <= i < vs.len() implies !dynv(#[trigger] vs[i]) by { lemma_dynv_farr(v, i); }
                lemma_list(vs, tys, d, o, vs.len() as int);
                lemma_rep_each(t, tys, d, o, vs.len() as int);
                lemma_static_items(vs, vs.len() as int);
                lemma_lay_len(items(vs)); lemma_items_len(vs);
                assert(vs.take(vs.len() as int) =~= vs);
            }
            V::Tup(vs) => {
                let tys = ty->Tuple_0@;
                assert(exacts(vs, tys) && valids(tys));
                assert forall|i: int| 0 <= i < vs.len() implies !dynv(#[trigger] vs[i]) by { lemma_dynv_tup(v, i); }
                lemma_list(vs, tys, d, o, vs.len() as int);
                lemma_static_items(vs, vs.len() as int);
                lemma_lay_len(items(vs)); lemma_items_len(vs);
                assert(vs.take(vs.len() as int) =~= vs);
            }
            _ => {}
        }
    }
}
pub proof fn lemma_static_items(vs: Seq<V>, n: int)
    requires 0 <= n <= vs.len(), forall|i: int| 0 <= i < n ==> !dynv(#[trigger] vs[i]),
    ensures tails(items(vs), n).len() == 0,
    decreases n
{
    lemma_tails_0(items(vs), n);
    if n > 0 { lemma_static_items(vs, n - 1); lemma_tails_step(items(vs), n - 1, n); lemma_items_len(vs); lemma_items_index(vs, n - 1); }
}
pub proof fn lemma_lb(d: Seq<u8>, o: int, p: nat, b: Seq<u8>)
    requires rdn(d, o) == Some(p as int), has_at(d, p as int, word(b.len()) + zpad(b)), word(b.len()).len() + zpad(b).len() < 0x1_0000_0000,
    ensures rdlb(d, o) == Some(b),
{
    let e = word(b.len()) + zpad(b);
    lemma_wnum_word(b.len());
    lemma_has_sub(d, p as int, e, 0, 32);
    assert(e.subrange(0, 32) =~= word(b.len()));
    assert(b.len() <= zpad(b).len());
    lemma_has_sub(d, p as int, e, 32, 32int + b.len());
    assert(e.subrange(32, 32int + b.len()) =~= b);
}
pub proof fn lemma_rep_each(t: ParamType, tys: Seq<ParamType>, d: Seq<u8>, o: int, n: int)
    requires 0 <= n <= tys.len(), forall|i: int| 0 <= i < tys.len() ==> #[trigger] tys[i] == t,
    ensures rep(t, d, o, n) == each(tys, d, o, n),
    decreases n
{
    if n == 0 { lemma_rep_0(t, d, o, 0); lemma_each_0(tys, d, o, 0); } else {
        lemma_rep_each(t, tys, d, o, n - 1);
        lemma_rep_step(t, d, o, n - 1, n); lemma_each_step(tys, d, o, n - 1, n);
    }
}
/// a stored list: at the start of the data, or anywhere when all its values are static
pub proof fn lemma_list(vs: Seq<V>, tys: Seq<ParamType>, d: Seq<u8>, o: int, n: int)
    requires
        exacts(vs, tys), valids(tys), 0 <= n <= vs.len(), 0 <= o, has_at(d, o, lay(items(vs))), lay(items(vs)).len() < 0x1_0000_0000,
        o == 0 || forall|i: int| 0 <= i < vs.len() ==> !dynv(#[trigger] vs[i]),
    ensures each(tys, d, o, n) == Some(Decs { vs: vs.take(n), o: o + heads_size(items(vs), n) }),
    decreases vs, 1int, n
{
    let xs = items(vs);
    lemma_items_len(vs);
    if n == 0 {
        lemma_each_0(tys, d, o, 0); lemma_heads_size_0(xs, 0);
        assert(vs.take(0) =~= Seq::empty());
    } else {
        let i = n - 1;
        lemma_list(vs, tys, d, o, i);
        lemma_each_step(tys, d, o, i, n);
        lemma_items_index(vs, i);
        lemma_lay_in(xs, d, o, i);
        lemma_heads_size_step(xs, i, n);
        lemma_item_bound(xs, i);
        let v = vs[i];
        let h = o + heads_size(xs, i);
        let base = heads_size(xs, xs.len() as int);
        assert(exact(v, tys[i]) && valid(tys[i]));
        if dynv(v) {
            let p = base + tails(xs, i).len();
            assert(o == 0);
            lemma_tails_bound1(xs, i); lemma_lay_len(xs);
            lemma_size_pos(v, tys[i]);
            if p >= 0x1_0000_0000 { assert(false); }
            assert(has_at(d, h, word(p)));
        }
        assert(stored(v, d, h));
        lemma_dec_stored(v, tys[i], d, h);
        assert(vs.take(i).push(v) =~= vs.take(n));
    }
}
/// the round trip
pub proof fn theorem_round_trip(vs: Seq<V>, tys: Seq<ParamType>)
    requires exacts(vs, tys), valids(tys), enc_list(vs).len() < 0x1_0000_0000,
    ensures dec_list(tys, enc_list(vs)) == Some(vs),
{
    let d = enc_list(vs);
    assert(d.subrange(0, d.len() as int) =~= d);
    lemma_list(vs, tys, d, 0, vs.len() as int);
    assert(vs.take(vs.len() as int) =~= vs);
    if d.len() == 0 && vs.len() > 0 {
        lemma_count(vs, tys, vs.len() as int); lemma_lay_len(items(vs)); lemma_items_len(vs);
    }
}
/// the statement about tokens: what `encode` returns, `decode` turns back into the same values
pub proof fn theorem_tokens(ts: Seq<Token>, tys: Seq<ParamType>, bytes: Seq<u8>)
    requires exacts(tvs(ts), tys), valids(tys), list_fits(tvs(ts)), bytes == enc_list(tvs(ts)),
    ensures dec_list(tys, bytes) == Some(tvs(ts)),
{ reveal(list_fits); theorem_round_trip(tvs(ts), tys); }

} // verus!
