// Reading type names.
verus! {

// ---------------------------------------------------------------- names
/// the position of the last [, or -1
#[verifier::opaque]
pub open spec fn last_open(s: Seq<char>, k: int) -> int
    decreases k
{ if k <= 0 || k > s.len() { -1 } else if s[k - 1] == '[' { k - 1 } else { last_open(s, k - 1) } }
/// how many parentheses are open after k characters
#[verifier::opaque]
pub open spec fn depth(s: Seq<char>, k: int) -> int
    decreases k
{ if k <= 0 || k > s.len() { 0 } else if s[k - 1] == '(' { depth(s, k - 1) + 1 } else if s[k - 1] == ')' { depth(s, k - 1) - 1 } else { depth(s, k - 1) } }
pub open spec fn well_nested(s: Seq<char>) -> bool { depth(s, s.len() as int) == 0 && forall|k: int| 0 <= k <= s.len() ==> #[trigger] depth(s, k) >= 0 }
/// where the piece begins that the k-th character is in
#[verifier::opaque]
pub open spec fn start(s: Seq<char>, k: int) -> int
    decreases k
{ if k <= 0 || k > s.len() { 0 } else if s[k - 1] == ',' && depth(s, k - 1) == 0 { k } else { start(s, k - 1) } }
pub proof fn lemma_start(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures 0 <= start(s, k) <= k,
    decreases k
{ reveal_with_fuel(start, 2); if k > 0 { lemma_start(s, k - 1); } }

/// the type a name names
#[verifier::opaque]
pub open spec fn rd(s: Seq<char>) -> Option<TY>
    decreases s.len(), 0int, 0int
{
    if s.len() == 0 { None }
    else if s.last() == ')' { if s[0] != '(' { None } else { match members(s.subrange(1, s.len() - 1)) { Some(ts) => Some(TY::Tup(ts)), None => None } } }
    else if s.last() == ']' {
        let p = last_open(s, s.len() as int);
        if !(0 <= p < s.len()) { None } else {
            let num = s.subrange(p + 1, s.len() - 1);
            match rd(s.take(p)) {
                Some(t) => if num.len() == 0 { Some(TY::Arr(Box::new(t))) } else { match pnum(num) { Some(n) => Some(TY::FArr(Box::new(t), n)), None => None } },
                None => None }
        }
    } else { wtype(s) }
}
pub open spec fn wtype(s: Seq<char>) -> Option<TY> {
    if s == "address"@ { Some(TY::Address) } else if s == "bytes"@ { Some(TY::Bytes) } else if s == "bool"@ { Some(TY::Bool) } else if s == "string"@ { Some(TY::Str) }
    else if s == "int"@ { Some(TY::Int(256)) } else if s == "tuple"@ { Some(TY::Tup(Seq::empty())) } else if s == "uint"@ { Some(TY::Uint(256)) }
    else if is_prefix("int"@, s) { match pnum(s.skip(3)) { Some(n) => Some(TY::Int(n)), None => None } }
    else if is_prefix("uint"@, s) { match pnum(s.skip(4)) { Some(n) => Some(TY::Uint(n)), None => None } }
    else if is_prefix("bytes"@, s) { match pnum(s.skip(5)) { Some(n) => Some(TY::FBytes(n)), None => None } }
    else { None }
}
/// the types named between the top-level commas of the first k characters; empty pieces name nothing
#[verifier::opaque]
pub open spec fn parts(s: Seq<char>, k: int) -> Option<Seq<TY>>
    decreases s.len(), 1int, k
{
    if k <= 0 || k > s.len() { Some(Seq::empty()) }
    else if s[k - 1] == ',' && depth(s, k - 1) == 0 { match parts(s, k - 1) { Some(ts) => piece(s, ts, k - 1), None => None } }
    else { parts(s, k - 1) }
}
/// with the type of the piece that ends before the k-th character
#[verifier::opaque]
pub open spec fn piece(s: Seq<char>, ts: Seq<TY>, k: int) -> Option<Seq<TY>>
    decreases s.len(), 0int, 1int
{
    let a = start(s, k);
    if !(0 <= a < k && k < s.len()) { Some(ts) } else { match rd(s.subrange(a, k)) { Some(t) => Some(ts.push(t)), None => None } }
}
#[verifier::opaque]
pub open spec fn members(s: Seq<char>) -> Option<Seq<TY>>
    decreases s.len(), 2int, 0int
{
    if !well_nested(s) { None } else {
        match parts(s, s.len() as int) {
            Some(ts) => { let a = start(s, s.len() as int); if !(0 <= a < s.len()) { Some(ts) } else { match rd(s.subrange(a, s.len() as int)) { Some(t) => Some(ts.push(t)), None => None } } },
            None => None }
    }
}
pub proof fn lemma_rd(s: Seq<char>)
    ensures rd(s) == (
    if s.len() == 0 { None }
    else if s.last() == ')' { if s[0] != '(' { None } else { match members(s.subrange(1, s.len() - 1)) { Some(ts) => Some(TY::Tup(ts)), None => None } } }
    else if s.last() == ']' {
        let p = last_open(s, s.len() as int);
        if !(0 <= p < s.len()) { None } else {
            let num = s.subrange(p + 1, s.len() - 1);
            match rd(s.take(p)) {
                Some(t) => if num.len() == 0 { Some(TY::Arr(Box::new(t))) } else { match pnum(num) { Some(n) => Some(TY::FArr(Box::new(t), n)), None => None } },
                None => None }
        }
    } else { wtype(s) }),
{ reveal_with_fuel(rd, 3); reveal_with_fuel(members, 3); }
pub broadcast proof fn lemma_last_open(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), s[k] == '[', forall|j: int| k < j < s.len() ==> s[j] != '[',
    ensures #![trigger bpos(s, k), s[k]] last_open(s, s.len() as int) == k,
{ lemma_last_open_at(s, k, s.len() as int); }
pub proof fn lemma_last_open_at(s: Seq<char>, k: int, n: int)
    requires 0 <= k < n <= s.len(), s[k] == '[', forall|j: int| k < j < s.len() ==> s[j] != '[',
    ensures last_open(s, n) == k,
    decreases n
{ reveal_with_fuel(last_open, 2); if k < n - 1 { lemma_last_open_at(s, k, n - 1); } }
pub proof fn lemma_no_open(s: Seq<char>, n: int)
    requires n <= s.len(), forall|j: int| 0 <= j < s.len() ==> s[j] != '[',
    ensures last_open(s, n) == -1,
    decreases n
{ reveal_with_fuel(last_open, 2); if n > 0 { lemma_no_open(s, n - 1); } }
pub proof fn lemma_open(s: Seq<char>)
    ensures (forall|j: int| 0 <= j < s.len() ==> s[j] != '[') ==> last_open(s, s.len() as int) == -1,
{ if forall|j: int| 0 <= j < s.len() ==> s[j] != '[' { lemma_no_open(s, s.len() as int); } }
pub proof fn lemma_parts_none(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(), parts(s, i) is None,
    ensures parts(s, j) is None,
    decreases j - i
{ if i < j { lemma_parts_none(s, i, j - 1); reveal_with_fuel(parts, 2); } }
pub broadcast proof fn lemma_at_0(s: Seq<char>)
    ensures #![trigger members(s)] depth(s, 0) == 0, start(s, 0) == 0, parts(s, 0) == Some(Seq::<TY>::empty()),
{ reveal_with_fuel(depth, 2); reveal_with_fuel(start, 2); reveal_with_fuel(parts, 2); }
/// one character further
pub proof fn lemma_char(s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures
        depth(s, i + 1) == depth(s, i) + (if s[i] == '(' { 1int } else if s[i] == ')' { -1 } else { 0 }),
        start(s, i + 1) == if s[i] == ',' && depth(s, i) == 0 { i + 1 } else { start(s, i) },
        0 <= start(s, i) <= i, 0 <= start(s, i + 1) <= i + 1,
        parts(s, i + 1) == if s[i] == ',' && depth(s, i) == 0 { match parts(s, i) { Some(ts) => if start(s, i) == i { Some(ts) } else { match rd(s.subrange(start(s, i), i)) { Some(t) => Some(ts.push(t)), None => None } }, None => None } } else { parts(s, i) },
        parts(s, i + 1) is None ==> members(s) is None,
        depth(s, i + 1) < 0 ==> members(s) is None,
{
    reveal_with_fuel(depth, 2); reveal_with_fuel(start, 2); reveal_with_fuel(parts, 3); reveal_with_fuel(piece, 3); reveal_with_fuel(rd, 3); reveal_with_fuel(members, 3);
    lemma_start(s, i); lemma_start(s, i + 1);
    if parts(s, i + 1) is None { lemma_parts_none(s, i + 1, s.len() as int); }
}
pub proof fn lemma_members(s: Seq<char>)
    ensures members(s) == if !well_nested(s) { None } else {
        match parts(s, s.len() as int) {
            Some(ts) => { let a = start(s, s.len() as int); if a == s.len() { Some(ts) } else { match rd(s.subrange(a, s.len() as int)) { Some(t) => Some(ts.push(t)), None => None } } },
            None => None }
    }, 0 <= start(s, s.len() as int) <= s.len(),
{ reveal_with_fuel(members, 3); reveal_with_fuel(rd, 3); reveal_with_fuel(parts, 3); reveal_with_fuel(piece, 3); lemma_start(s, s.len() as int); }
pub broadcast group group_rd { lemma_last_open, lemma_at_0 }
} // verus!
