// Reading the name of a type gives the type.
verus! {

/// every size fits a usize
#[verifier::opaque]
pub open spec fn sized(t: TY) -> bool
    decreases t
{
    match t {
        TY::Int(n) | TY::Uint(n) | TY::FBytes(n) => n <= usize::MAX,
        TY::Arr(t) => sized(*t),
        TY::FArr(t, n) => n <= usize::MAX && sized(*t),
        TY::Tup(ts) => forall|i: int| 0 <= i < ts.len() ==> sized(#[trigger] ts[i]),
        _ => true,
    }
}
pub proof fn lemma_sized(p: ParamType)
    ensures sized(ty(p)),
    decreases p
{
    lemma_ty(p); reveal_with_fuel(sized, 2);
    match p {
        ParamType::Array(t) => { lemma_ty_arr(p); lemma_sized(*t); }
        ParamType::FixedArray(t, n) => { lemma_ty_farr(p); lemma_sized(*t); }
        ParamType::Tuple(ts) => {
            assert forall|i: int| 0 <= i < tys(ts@).len() implies sized(#[trigger] tys(ts@)[i]) by { lemma_tys(ts@); lemma_tys_index(ts@, i); lemma_sized(ts@[i]); }
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- numbers
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub proof fn lemma_digit(n: nat) ensures is_digit(digit(n)), digit(n) as u32 == 48 + n % 10
{ let x = (48 + n % 10) as u8; assert(x as char as u32 == x as u32) by { assert(x < 128); } }
pub proof fn lemma_decimal(n: nat)
    ensures digits(decimal(n)), uval(decimal(n)) == n, decimal(n).len() > 0,
    decreases n
{
    reveal_with_fuel(decimal, 2); reveal_with_fuel(uval, 2);
    lemma_digit(n);
    if n < 10 {
        assert(decimal(n).drop_last() =~= Seq::<char>::empty());
        assert(uval(Seq::<char>::empty()) == 0);
    } else {
        lemma_decimal(n / 10);
        assert(decimal(n).drop_last() =~= decimal(n / 10));
    }
}
pub proof fn lemma_pnum(n: nat)
    requires n <= usize::MAX,
    ensures pnum(decimal(n)) == Some(n), decimal(n).len() > 0, digits(decimal(n)),
{ lemma_decimal(n); reveal(pnum); assert(is_digit(decimal(n)[0])); }

// ---------------------------------------------------------------- nesting
/// depth depends on what is before only
pub proof fn lemma_depth_cat(a: Seq<char>, b: Seq<char>, k: int)
    requires 0 <= k <= a.len() + b.len(),
    ensures depth(a + b, k) == if k <= a.len() { depth(a, k) } else { depth(a, a.len() as int) + depth(b, k - a.len()) },
    decreases k
{
    reveal_with_fuel(depth, 2);
    if k > 0 {
        lemma_depth_cat(a, b, k - 1);
        if k <= a.len() { assert((a + b)[k - 1] == a[k - 1]); } else { assert((a + b)[k - 1] == b[k - 1 - a.len()]); }
    }
}
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '(' && s[i] != ')' && s[i] != ',' }
pub proof fn lemma_plain_depth(s: Seq<char>, k: int)
    requires plain(s), k <= s.len(),
    ensures depth(s, k) == 0,
    decreases k
{ reveal_with_fuel(depth, 2); if k > 0 { lemma_plain_depth(s, k - 1); } }
/// balanced, without commas outside of parentheses
#[verifier::opaque]
pub open spec fn nice(s: Seq<char>) -> bool { s.len() > 0 && well_nested(s) && forall|k: int| 0 <= k < s.len() && s[k] == ',' ==> #[trigger] depth(s, k) > 0 }
pub proof fn lemma_plain_nice(s: Seq<char>)
    requires plain(s), s.len() > 0,
    ensures nice(s),
{
    reveal(nice);
    assert forall|k: int| 0 <= k <= s.len() implies #[trigger] depth(s, k) == 0 by { lemma_plain_depth(s, k); }
}
pub proof fn lemma_nice_cat(a: Seq<char>, b: Seq<char>)
    requires nice(a), plain(b),
    ensures nice(a + b),
{
    reveal(nice);
    let s = a + b;
    assert forall|k: int| 0 <= k <= s.len() implies #[trigger] depth(s, k) >= 0 by { lemma_depth_cat(a, b, k); if k > a.len() { lemma_plain_depth(b, k - a.len()); } else { assert(depth(a, k) >= 0); } }
    lemma_depth_cat(a, b, s.len() as int); lemma_plain_depth(b, b.len() as int);
    assert forall|k: int| 0 <= k < s.len() && s[k] == ',' implies #[trigger] depth(s, k) > 0 by { lemma_depth_cat(a, b, k); if k < a.len() { assert(s[k] == a[k]); assert(depth(a, k) > 0); } else { assert(s[k] == b[k - a.len()]); } }
}
pub proof fn lemma_nice_paren(j: Seq<char>)
    requires well_nested(j),
    ensures nice("("@ + j + ")"@),
{
    reveal(nice); reveal_strlit("("); reveal_strlit(")");
    let s = "("@ + j + ")"@;
    let o = "("@;
    assert(depth(o, 1) == 1) by { reveal_with_fuel(depth, 3); }
    assert(depth(o, 0) == 0 && depth(j, 0) == 0) by { reveal_with_fuel(depth, 2); }
    assert forall|k: int| 0 <= k <= s.len() implies #[trigger] depth(s, k) == (if k == 0 || k == s.len() { 0 } else { 1 + depth(j, k - 1) }) by {
        lemma_depth_cat(o + j, ")"@, k);
        if k <= (o + j).len() { lemma_depth_cat(o, j, k); } else { lemma_depth_cat(o, j, (o + j).len() as int); assert(depth(")"@, 1) == -1) by { reveal_with_fuel(depth, 3); } }
        if k >= 1 && k <= j.len() + 1 { assert(depth(j, k - 1) >= 0); }
    }
    assert forall|k: int| 0 <= k <= s.len() implies #[trigger] depth(s, k) >= 0 by { if 0 < k < s.len() { assert(depth(j, k - 1) >= 0); } }
    assert forall|k: int| 0 <= k < s.len() && s[k] == ',' implies #[trigger] depth(s, k) > 0 by { if k == 0 { assert(s[0] == '('); } else { assert(depth(j, k - 1) >= 0); } }
}

// ---------------------------------------------------------------- lists of names
/// positions further on do not matter
pub proof fn lemma_prefix_same(a: Seq<char>, b: Seq<char>, k: int)
    requires 0 <= k <= a.len(),
    ensures start(a + b, k) == start(a, k), parts(a + b, k) == parts(a, k),
    decreases k
{
    reveal_with_fuel(start, 2); reveal_with_fuel(parts, 3); reveal_with_fuel(piece, 3); reveal_with_fuel(rd, 3);
    if k > 0 {
        lemma_prefix_same(a, b, k - 1); lemma_depth_cat(a, b, k - 1);
        assert((a + b)[k - 1] == a[k - 1]);
        lemma_start(a, k - 1);
        assert((a + b).subrange(start(a, k - 1), k - 1) =~= a.subrange(start(a, k - 1), k - 1));
    }
}
/// through a nice text at the end nothing is split off
pub proof fn lemma_through(a: Seq<char>, b: Seq<char>, k: int)
    requires nice(b), 0 <= k <= b.len(), depth(a, a.len() as int) == 0,
    ensures start(a + b, a.len() + k) == start(a + b, a.len() as int), parts(a + b, a.len() + k) == parts(a + b, a.len() as int),
    decreases k
{
    if k > 0 {
        lemma_through(a, b, k - 1);
        lemma_char(a + b, a.len() + k - 1);
        lemma_depth_cat(a, b, a.len() + k - 1);
        assert((a + b)[a.len() + k - 1] == b[k - 1]);
        assert(b[k - 1] == ',' ==> depth(b, k - 1) > 0) by { reveal(nice); }
        assert(depth(b, 0) == 0) by { reveal_with_fuel(depth, 2); }
    }
}
pub open spec fn jn(ts: Seq<TY>, k: int) -> Seq<char> { joined(tnames(ts, true).take(k), ","@) }
pub proof fn lemma_list(ts: Seq<TY>, k: int)
    requires 1 <= k <= ts.len(), forall|i: int| 0 <= i < ts.len() ==> nice(#[trigger] tname(ts[i], true)) && rd(tname(ts[i], true)) == Some(ts[i]),
    ensures
        well_nested(jn(ts, k)),
        start(jn(ts, k), jn(ts, k).len() as int) == jn(ts, k).len() - tname(ts[k - 1], true).len(),
        jn(ts, k).len() >= tname(ts[k - 1], true).len(),
        jn(ts, k).skip(jn(ts, k).len() - tname(ts[k - 1], true).len()) == tname(ts[k - 1], true),
        parts(jn(ts, k), jn(ts, k).len() as int) == Some(ts.take(k - 1)),
    decreases k
{
    let s = jn(ts, k);
    let n = tname(ts[k - 1], true);
    assert(nice(n));
    let e = Seq::<char>::empty();
    assert(tnames(ts, true)[k - 1] == n && tnames(ts, true).len() == ts.len() && tnames(ts, true)[0] == tname(ts[0], true)) by { reveal(tnames); }
    lemma_joined_step(tnames(ts, true), ","@, k - 1);
    if k == 1 {
        assert(s == n);
        assert(e + n =~= n);
        assert(depth(e, 0) == 0) by { reveal_with_fuel(depth, 2); }
        lemma_through(e, n, n.len() as int);
        assert(start(n, 0) == 0 && parts(n, 0) == Some(Seq::<TY>::empty())) by { reveal_with_fuel(start, 2); reveal_with_fuel(parts, 2); }
        assert(ts.take(0) =~= Seq::<TY>::empty());
        assert(n.skip(0) =~= n);
        assert(well_nested(n)) by { reveal(nice); }
    } else {
        lemma_list(ts, k - 1);
        let a = jn(ts, k - 1);
        let m = tname(ts[k - 2], true);
        let c = ","@;
        reveal_strlit(",");
        assert(s == a + c + n);
        let ac = a + c;
        assert(s == ac + n);
        // the comma
        assert(s =~= a + (c + n));
        lemma_prefix_same(a, c + n, a.len() as int);
        lemma_depth_cat(a, c + n, a.len() as int);
        lemma_char(s, a.len() as int);
        assert(s[a.len() as int] == ',');
        assert(depth(s, a.len() as int) == 0);
        let st = start(s, a.len() as int);
        assert(st == a.len() - m.len());
        assert(m.len() > 0) by { assert(nice(m)); reveal(nice); }
        assert(s.subrange(st, a.len() as int) =~= a.skip(a.len() - m.len()));
        assert(parts(s, a.len() as int) == Some(ts.take(k - 2)));
        assert(ts.take(k - 1) =~= ts.take(k - 2).push(ts[k - 2]));
        assert(parts(s, (a.len() + 1) as int) == Some(ts.take(k - 1)));
        assert(start(s, (a.len() + 1) as int) == a.len() + 1);
        // the name
        lemma_depth_cat(a, c, ac.len() as int);
        assert(depth(c, 1) == 0) by { reveal_with_fuel(depth, 3); }
        assert(depth(ac, ac.len() as int) == 0);
        lemma_through(ac, n, n.len() as int);
        assert(s.skip(s.len() - n.len()) =~= n);
        assert(well_nested(s)) by {
            reveal(nice);
            lemma_depth_cat(ac, n, s.len() as int);
            assert forall|j: int| 0 <= j <= s.len() implies #[trigger] depth(s, j) >= 0 by {
                lemma_depth_cat(ac, n, j);
                if j <= a.len() { lemma_depth_cat(a, c, j); assert(depth(a, j) >= 0); } else if j > ac.len() { assert(depth(n, j - ac.len()) >= 0); }
            }
        }
    }
}

// ---------------------------------------------------------------- the theorem
pub proof fn lemma_word_plain(a: Seq<char>, d: Seq<char>)
    requires digits(d), plain(a),
    ensures plain(a + d),
{
    let s = a + d;
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s[i] != '(' && s[i] != ')' && s[i] != ',' by { if i >= a.len() { assert(s[i] == d[i - a.len()]); assert(is_digit(d[i - a.len()])); } else { assert(s[i] == a[i]); } }
}
pub proof fn lemma_word_int(d: Seq<char>)
    requires digits(d), d.len() > 0,
    ensures plain("int"@ + d), rd("int"@ + d) == (match pnum(d) { Some(n) => Some(TY::Int(n)), None => None }),
{
    let s = "int"@ + d;
    assert(is_digit(d[d.len() - 1]));
    lemma_rd(s);
    reveal_strlit("address"); reveal_strlit("bytes"); reveal_strlit("int"); reveal_strlit("uint"); reveal_strlit("bool"); reveal_strlit("string"); reveal_strlit("tuple");
    lemma_word_plain("int"@, d);
    assert(s.last() == d.last() && s.len() > 3);
    assert(s.take(3) =~= "int"@); assert(s.skip(3) =~= d);
    assert(s[0] == "int"@[0] && s[1] == "int"@[1]);
    assert("address"@[0] == 'a' && "bytes"@[0] == 'b' && "bytes"@[1] == 'y' && "bool"@[0] == 'b' && "bool"@[1] == 'o' && "string"@[0] == 's' && "tuple"@[0] == 't' && "uint"@[0] == 'u');
    
    assert(wtype(s) == (match pnum(d) { Some(n) => Some(TY::Int(n)), None => None }));
}
pub proof fn lemma_word_uint(d: Seq<char>)
    requires digits(d), d.len() > 0,
    ensures plain("uint"@ + d), rd("uint"@ + d) == (match pnum(d) { Some(n) => Some(TY::Uint(n)), None => None }),
{
    let s = "uint"@ + d;
    assert(is_digit(d[d.len() - 1]));
    lemma_rd(s);
    reveal_strlit("address"); reveal_strlit("bytes"); reveal_strlit("int"); reveal_strlit("uint"); reveal_strlit("bool"); reveal_strlit("string"); reveal_strlit("tuple");
    lemma_word_plain("uint"@, d);
    assert(s.last() == d.last() && s.len() > 4);
    assert(s.take(4) =~= "uint"@); assert(s.skip(4) =~= d);
    assert(s[0] == "uint"@[0] && s[1] == "uint"@[1]);
    assert("address"@[0] == 'a' && "bytes"@[0] == 'b' && "bytes"@[1] == 'y' && "bool"@[0] == 'b' && "bool"@[1] == 'o' && "string"@[0] == 's' && "tuple"@[0] == 't' && "uint"@[0] == 'u');
    assert(s.take(3)[0] == 'u' && "int"@[0] == 'i');
    assert(wtype(s) == (match pnum(d) { Some(n) => Some(TY::Uint(n)), None => None }));
}
pub proof fn lemma_word_bytes(d: Seq<char>)
    requires digits(d), d.len() > 0,
    ensures plain("bytes"@ + d), rd("bytes"@ + d) == (match pnum(d) { Some(n) => Some(TY::FBytes(n)), None => None }),
{
    let s = "bytes"@ + d;
    assert(is_digit(d[d.len() - 1]));
    lemma_rd(s);
    reveal_strlit("address"); reveal_strlit("bytes"); reveal_strlit("int"); reveal_strlit("uint"); reveal_strlit("bool"); reveal_strlit("string"); reveal_strlit("tuple");
    lemma_word_plain("bytes"@, d);
    assert(s.last() == d.last() && s.len() > 5);
    assert(s.take(5) =~= "bytes"@); assert(s.skip(5) =~= d);
    assert(s[0] == "bytes"@[0] && s[1] == "bytes"@[1]);
    assert("address"@[0] == 'a' && "bytes"@[0] == 'b' && "bytes"@[1] == 'y' && "bool"@[0] == 'b' && "bool"@[1] == 'o' && "string"@[0] == 's' && "tuple"@[0] == 't' && "uint"@[0] == 'u');
    assert(s.take(3)[0] == 'b' && s.take(4)[0] == 'b' && "int"@[0] == 'i' && "uint"@[0] == 'u');
    assert(wtype(s) == (match pnum(d) { Some(n) => Some(TY::FBytes(n)), None => None }));
}
pub proof fn lemma_words()
    ensures rd("address"@) == Some(TY::Address), rd("bytes"@) == Some(TY::Bytes), rd("bool"@) == Some(TY::Bool), rd("string"@) == Some(TY::Str),
        nice("address"@), nice("bytes"@), nice("bool"@), nice("string"@),
{
    reveal_strlit("address"); reveal_strlit("bytes"); reveal_strlit("int"); reveal_strlit("uint"); reveal_strlit("bool"); reveal_strlit("string"); reveal_strlit("tuple");
    lemma_rd("address"@); lemma_rd("bytes"@); lemma_rd("bool"@); lemma_rd("string"@);
    assert("bytes"@[1] == 'y' && "bool"@[1] == 'o' && "address"@[0] == 'a' && "bytes"@[0] == 'b' && "bool"@[0] == 'b' && "string"@[0] == 's');
    lemma_plain_nice("address"@); lemma_plain_nice("bytes"@); lemma_plain_nice("bool"@); lemma_plain_nice("string"@);
}
pub proof fn lemma_suffix(a: Seq<char>, d: Seq<char>, s: Seq<char>)
    requires digits(d), s == a + "["@ + d + "]"@, a.len() > 0,
    ensures rd(s) == (match rd(a) { Some(t) => if d.len() == 0 { Some(TY::Arr(Box::new(t))) } else { match pnum(d) { Some(n) => Some(TY::FArr(Box::new(t), n)), None => None } }, None => None }),
        nice(a) ==> nice(s),
{
    reveal_strlit("["); reveal_strlit("]");
    lemma_rd(s);
    let p = a.len() as int;
    assert(s[p] == '[');
    assert(s.last() == ']');
    assert forall|j: int| p < j < s.len() implies s[j] != '[' by { if j < s.len() - 1 { assert(s[j] == d[j - p - 1]); assert(is_digit(d[j - p - 1])); } }
    lemma_last_open_at(s, p, s.len() as int);
    assert(s.take(p) =~= a);
    assert(s.subrange(p + 1, s.len() - 1) =~= d);
    if nice(a) {
        let b = "["@ + d + "]"@;
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] != '(' && b[i] != ')' && b[i] != ',' by { if 0 < i < b.len() - 1 { assert(b[i] == d[i - 1]); assert(is_digit(d[i - 1])); } }
        lemma_nice_cat(a, b);
        assert(a + b =~= s);
    }
}
pub proof fn theorem_names(t: TY)
    requires sized(t),
    ensures rd(tname(t, true)) == Some(t), nice(tname(t, true)),
    decreases t
{
    lemma_tname(t, true);
    reveal_with_fuel(sized, 2);
    match t {
        TY::Int(n) | TY::Uint(n) | TY::FBytes(n) => {
            lemma_pnum(n); lemma_word_int(decimal(n)); lemma_word_uint(decimal(n)); lemma_word_bytes(decimal(n)); lemma_plain_nice(tname(t, true));
        }
        TY::Arr(x) => {
            theorem_names(*x);
            let e = Seq::<char>::empty();
            reveal_strlit("[]"); reveal_strlit("["); reveal_strlit("]");
            assert(tname(*x, true).len() > 0) by { reveal(nice); }
            assert(tname(t, true) =~= tname(*x, true) + "["@ + e + "]"@);
            lemma_suffix(tname(*x, true), e, tname(t, true));
        }
        TY::FArr(x, n) => {
            theorem_names(*x);
            lemma_pnum(n);
            assert(tname(*x, true).len() > 0) by { reveal(nice); }
            lemma_suffix(tname(*x, true), decimal(n), tname(t, true));
        }
        TY::Tup(ts) => {
            assert forall|i: int| 0 <= i < ts.len() implies nice(#[trigger] tname(ts[i], true)) && rd(tname(ts[i], true)) == Some(ts[i]) by { theorem_names(ts[i]); }
            let j = joined(tnames(ts, true), ","@);
            let k = ts.len() as int;
            let s = tname(t, true);
            reveal_strlit("("); reveal_strlit(")");
            lemma_rd(s);
            assert(s.subrange(1, s.len() - 1) =~= j);
            lemma_members(j);
            assert(tnames(ts, true).len() == ts.len()) by { reveal(tnames); }
            if k == 0 {
                lemma_joined_few(tnames(ts, true), ","@);
                lemma_at_0(j);
                assert(well_nested(j)) by { assert(depth(j, 0) == 0); }
                assert(ts =~= Seq::<TY>::empty());
            } else {
                assert(tnames(ts, true).take(k) =~= tnames(ts, true));
                lemma_list(ts, k);
                let n = tname(ts[k - 1], true);
                assert(n.len() > 0) by { assert(nice(n)); reveal(nice); }
                assert(j.subrange(j.len() - n.len(), j.len() as int) =~= j.skip(j.len() - n.len()));
                assert(ts.take(k - 1).push(ts[k - 1]) =~= ts);
            }
            lemma_nice_paren(j);
        }
        _ => { lemma_words(); }
    }
}
/// what Writer::write writes, Reader::read reads
pub proof fn theorem_round_trip(p: ParamType)
    ensures rd(tname(ty(p), true)) == Some(ty(p)),
{ lemma_sized(p); theorem_names(ty(p)); }
} // verus!
