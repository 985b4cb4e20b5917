//! What the results have to be, written from the ABI specification and the property texts.
use ethabi::{ParamType, Token};

pub fn keccak(data: &[u8]) -> [u8; 32] {
    const RC: [u64; 24] = [
        0x0000000000000001, 0x0000000000008082, 0x800000000000808a, 0x8000000080008000, 0x000000000000808b, 0x0000000080000001,
        0x8000000080008081, 0x8000000000008009, 0x000000000000008a, 0x0000000000000088, 0x0000000080008009, 0x000000008000000a,
        0x000000008000808b, 0x800000000000008b, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002, 0x8000000000000080,
        0x000000000000800a, 0x800000008000000a, 0x8000000080008081, 0x8000000000008080, 0x0000000080000001, 0x8000000080008008,
    ];
    const ROT: [u32; 25] = [0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14];
    fn f(a: &mut [u64; 25]) {
        for rc in RC.iter() {
            let mut c = [0u64; 5];
            for x in 0..5 {
                c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
            }
            for x in 0..5 {
                let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
                for y in 0..5 {
                    a[x + 5 * y] ^= d;
                }
            }
            let mut b = [0u64; 25];
            for x in 0..5 {
                for y in 0..5 {
                    b[y + 5 * ((2 * x + 3 * y) % 5)] = a[x + 5 * y].rotate_left(ROT[x + 5 * y]);
                }
            }
            for x in 0..5 {
                for y in 0..5 {
                    a[x + 5 * y] = b[x + 5 * y] ^ (!b[(x + 1) % 5 + 5 * y] & b[(x + 2) % 5 + 5 * y]);
                }
            }
            a[0] ^= rc;
        }
    }
    let mut a = [0u64; 25];
    let mut m = data.to_vec();
    m.push(1);
    while m.len() % 136 != 0 {
        m.push(0);
    }
    let l = m.len();
    m[l - 1] |= 0x80;
    for block in m.chunks(136) {
        for (i, w) in block.chunks(8).enumerate() {
            let mut b = [0u8; 8];
            b.copy_from_slice(w);
            a[i] ^= u64::from_le_bytes(b);
        }
        f(&mut a);
    }
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[i * 8..i * 8 + 8].copy_from_slice(&a[i].to_le_bytes());
    }
    out
}

pub fn u256(b: &ethabi::Uint) -> [u8; 32] {
    let mut w = [0u8; 32];
    for i in 0..4 {
        w[24 - 8 * i..32 - 8 * i].copy_from_slice(&b.0[i].to_be_bytes());
    }
    w
}
pub fn num(n: usize) -> [u8; 32] {
    let mut w = [0u8; 32];
    w[24..].copy_from_slice(&(n as u64).to_be_bytes());
    w
}
pub fn rpad(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    while v.len() % 32 != 0 {
        v.push(0);
    }
    v
}
pub fn dynv(t: &Token) -> bool {
    match t {
        Token::Bytes(_) | Token::String(_) | Token::Array(_) => true,
        Token::FixedArray(v) | Token::Tuple(v) => v.iter().any(dynv),
        _ => false,
    }
}
pub fn dynt(t: &ParamType) -> bool {
    match t {
        ParamType::Bytes | ParamType::String | ParamType::Array(_) => true,
        ParamType::FixedArray(p, _) => dynt(p),
        ParamType::Tuple(v) => v.iter().any(dynt),
        _ => false,
    }
}
/// the encoding of one value
pub fn enc(t: &Token) -> Vec<u8> {
    match t {
        Token::Address(a) => {
            let mut w = vec![0u8; 12];
            w.extend_from_slice(&a.0);
            w
        }
        Token::Int(i) | Token::Uint(i) => u256(i).to_vec(),
        Token::Bool(b) => num(*b as usize).to_vec(),
        Token::FixedBytes(b) => {
            if b.is_empty() {
                vec![0; 32]
            } else {
                rpad(b)
            }
        }
        Token::Bytes(b) => [num(b.len()).to_vec(), rpad(b)].concat(),
        Token::String(s) => [num(s.len()).to_vec(), rpad(s.as_bytes())].concat(),
        Token::Array(v) => [num(v.len()).to_vec(), list(v)].concat(),
        Token::FixedArray(v) | Token::Tuple(v) => list(v),
    }
}
/// the encoding of a list of values: heads, then tails
pub fn list(v: &[Token]) -> Vec<u8> {
    let encs: Vec<Vec<u8>> = v.iter().map(enc).collect();
    let head: usize = v.iter().zip(&encs).map(|(t, e)| if dynv(t) { 32 } else { e.len() }).sum();
    let (mut h, mut tail) = (vec![], vec![]);
    for (t, e) in v.iter().zip(&encs) {
        if dynv(t) {
            h.extend_from_slice(&num(head + tail.len()));
            tail.extend_from_slice(e);
        } else {
            h.extend_from_slice(e);
        }
    }
    h.extend(tail);
    h
}

fn rdw(d: &[u8], o: usize) -> Option<[u8; 32]> {
    let mut w = [0u8; 32];
    w.copy_from_slice(d.get(o..o.checked_add(32)?)?);
    Some(w)
}
fn rdn(d: &[u8], o: usize) -> Option<usize> {
    let w = rdw(d, o)?;
    if w[..28].iter().any(|b| *b != 0) {
        return None;
    }
    Some(u32::from_be_bytes([w[28], w[29], w[30], w[31]]) as usize)
}
fn rdlb(d: &[u8], o: usize) -> Option<&[u8]> {
    let p = rdn(d, o)?;
    let n = rdn(d, p)?;
    d.get(p + 32..p + 32 + n)
}
pub fn dec(t: &ParamType, d: &[u8], o: usize) -> Option<(Token, usize)> {
    Some(match t {
        ParamType::Address => {
            let mut a = [0u8; 20];
            a.copy_from_slice(&rdw(d, o)?[12..]);
            (Token::Address(a.into()), o + 32)
        }
        ParamType::Int(_) => (Token::Int(rdw(d, o)?.into()), o + 32),
        ParamType::Uint(_) => (Token::Uint(rdw(d, o)?.into()), o + 32),
        ParamType::Bool => {
            let w = rdw(d, o)?;
            if w[..31].iter().any(|b| *b != 0) {
                return None;
            }
            (Token::Bool(w[31] == 1), o + 32)
        }
        ParamType::FixedBytes(n) => (Token::FixedBytes(d.get(o..o.checked_add(*n)?)?.to_vec()), o + 32),
        ParamType::Bytes => (Token::Bytes(rdlb(d, o)?.to_vec()), o + 32),
        ParamType::String => (Token::String(String::from_utf8_lossy(rdlb(d, o)?).to_string()), o + 32),
        ParamType::Array(p) => {
            let at = rdn(d, o)?;
            let n = rdn(d, at)?;
            (Token::Array(rep(p, &d[at + 32..], 0, n)?.0), o + 32)
        }
        ParamType::FixedArray(p, n) => {
            if dynt(p) {
                let at = rdn(d, o)?;
                (Token::FixedArray(rep(p, d.get(at..)?, 0, *n)?.0), o + 32)
            } else {
                let (v, e) = rep(p, d, o, *n)?;
                (Token::FixedArray(v), e)
            }
        }
        ParamType::Tuple(ps) => {
            if dynt(t) {
                let at = rdn(d, o)?;
                (Token::Tuple(each(ps, d.get(at..)?, 0)?.0), o + 32)
            } else {
                let (v, e) = each(ps, d, o)?;
                (Token::Tuple(v), e)
            }
        }
    })
}
fn rep(p: &ParamType, d: &[u8], mut o: usize, n: usize) -> Option<(Vec<Token>, usize)> {
    let mut v = vec![];
    for _ in 0..n {
        let (t, e) = dec(p, d, o)?;
        v.push(t);
        o = e;
    }
    Some((v, o))
}
fn each(ps: &[ParamType], d: &[u8], mut o: usize) -> Option<(Vec<Token>, usize)> {
    let mut v = vec![];
    for p in ps {
        let (t, e) = dec(p, d, o)?;
        v.push(t);
        o = e;
    }
    Some((v, o))
}
pub fn dec_list(ps: &[ParamType], d: &[u8]) -> Option<Vec<Token>> {
    if d.is_empty() && !ps.iter().all(|p| matches!(p, ParamType::FixedBytes(0) | ParamType::FixedArray(_, 0))) {
        return None;
    }
    each(ps, d, 0).map(|x| x.0)
}

/// equality of values, written out
pub fn teq(a: &Token, b: &Token) -> bool {
    match (a, b) {
        (Token::Address(x), Token::Address(y)) => x.0 == y.0,
        (Token::Bytes(x), Token::Bytes(y)) | (Token::FixedBytes(x), Token::FixedBytes(y)) => x == y,
        (Token::Int(x), Token::Int(y)) | (Token::Uint(x), Token::Uint(y)) => x.0 == y.0,
        (Token::Bool(x), Token::Bool(y)) => x == y,
        (Token::String(x), Token::String(y)) => x == y,
        (Token::Array(x), Token::Array(y)) | (Token::FixedArray(x), Token::FixedArray(y)) | (Token::Tuple(x), Token::Tuple(y)) => tseq(x, y),
        _ => false,
    }
}
pub fn tseq(a: &[Token], b: &[Token]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| teq(x, y))
}
pub fn peq(a: &ParamType, b: &ParamType) -> bool {
    match (a, b) {
        (ParamType::Address, ParamType::Address)
        | (ParamType::Bytes, ParamType::Bytes)
        | (ParamType::Bool, ParamType::Bool)
        | (ParamType::String, ParamType::String) => true,
        (ParamType::Int(x), ParamType::Int(y)) | (ParamType::Uint(x), ParamType::Uint(y)) | (ParamType::FixedBytes(x), ParamType::FixedBytes(y)) => x == y,
        (ParamType::Array(x), ParamType::Array(y)) => peq(x, y),
        (ParamType::FixedArray(x, n), ParamType::FixedArray(y, m)) => n == m && peq(x, y),
        (ParamType::Tuple(x), ParamType::Tuple(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| peq(p, q)),
        _ => false,
    }
}
pub fn oftype(t: &Token, p: &ParamType) -> bool {
    match (t, p) {
        (Token::Address(_), ParamType::Address)
        | (Token::Bytes(_), ParamType::Bytes)
        | (Token::Int(_), ParamType::Int(_))
        | (Token::Uint(_), ParamType::Uint(_))
        | (Token::Bool(_), ParamType::Bool)
        | (Token::String(_), ParamType::String) => true,
        (Token::FixedBytes(b), ParamType::FixedBytes(n)) => b.len() <= *n,
        (Token::Array(v), ParamType::Array(p)) => v.iter().all(|t| oftype(t, p)),
        (Token::FixedArray(v), ParamType::FixedArray(p, n)) => v.len() == *n && v.iter().all(|t| oftype(t, p)),
        (Token::Tuple(v), ParamType::Tuple(ps)) => oftypes(v, ps),
        _ => false,
    }
}
pub fn oftypes(v: &[Token], ps: &[ParamType]) -> bool {
    v.len() == ps.len() && v.iter().zip(ps).all(|(t, p)| oftype(t, p))
}

/// canonical text of a type
pub fn write(p: &ParamType) -> String {
    let mut s = String::new();
    wr(p, &mut s);
    s
}
fn wr(p: &ParamType, s: &mut String) {
    match p {
        ParamType::Address => s.push_str("address"),
        ParamType::Bytes => s.push_str("bytes"),
        ParamType::Bool => s.push_str("bool"),
        ParamType::String => s.push_str("string"),
        ParamType::Int(n) => {
            s.push_str("int");
            dec_num(*n, s)
        }
        ParamType::Uint(n) => {
            s.push_str("uint");
            dec_num(*n, s)
        }
        ParamType::FixedBytes(n) => {
            s.push_str("bytes");
            dec_num(*n, s)
        }
        ParamType::Array(p) => {
            wr(p, s);
            s.push_str("[]")
        }
        ParamType::FixedArray(p, n) => {
            wr(p, s);
            s.push('[');
            dec_num(*n, s);
            s.push(']')
        }
        ParamType::Tuple(v) => {
            s.push('(');
            for (i, p) in v.iter().enumerate() {
                if i > 0 {
                    s.push(',')
                }
                wr(p, s)
            }
            s.push(')')
        }
    }
}
fn dec_num(n: usize, s: &mut String) {
    if n >= 10 {
        dec_num(n / 10, s)
    }
    s.push((b'0' + (n % 10) as u8) as char)
}
pub fn write_list(v: &[ParamType]) -> String {
    write(&ParamType::Tuple(v.to_vec()))
}

/// the type a name denotes
pub fn read(s: &str) -> Option<ParamType> {
    let c: Vec<char> = s.chars().collect();
    rd(&c)
}
fn number(c: &[char]) -> Option<usize> {
    let c = if c.first() == Some(&'+') { &c[1..] } else { c };
    if c.is_empty() {
        return None;
    }
    let mut n = 0usize;
    for d in c {
        if !('0'..='9').contains(d) {
            return None;
        }
        n = n.checked_mul(10)?.checked_add(*d as usize - '0' as usize)?;
    }
    Some(n)
}
fn rd(c: &[char]) -> Option<ParamType> {
    match c.last() {
        Some(')') => {
            if c[0] != '(' || c.len() < 2 {
                return None;
            }
            let mut parts: Vec<&[char]> = vec![];
            let inner = &c[1..c.len() - 1];
            let (mut depth, mut start) = (0usize, 0usize);
            for (i, x) in inner.iter().enumerate() {
                match x {
                    '(' => depth += 1,
                    ')' => depth = depth.checked_sub(1)?,
                    ',' if depth == 0 => {
                        parts.push(&inner[start..i]);
                        start = i + 1
                    }
                    _ => {}
                }
            }
            if depth != 0 {
                return None;
            }
            parts.push(&inner[start..]);
            let mut v = vec![];
            for p in parts {
                if !p.is_empty() {
                    v.push(rd(p)?)
                }
            }
            Some(ParamType::Tuple(v))
        }
        Some(']') => {
            let at = c.iter().rposition(|x| *x == '[')?;
            let n = &c[at + 1..c.len() - 1];
            if n.is_empty() {
                Some(ParamType::Array(Box::new(rd(&c[..at])?)))
            } else {
                Some(ParamType::FixedArray(Box::new(rd(&c[..at])?), number(n)?))
            }
        }
        _ => {
            let s: String = c.iter().collect();
            let after = |p: &str| -> Option<usize> { number(&s.strip_prefix(p)?.chars().collect::<Vec<_>>()) };
            Some(match s.as_str() {
                "address" => ParamType::Address,
                "bool" => ParamType::Bool,
                "string" => ParamType::String,
                "bytes" => ParamType::Bytes,
                "int" => ParamType::Int(256),
                "uint" => ParamType::Uint(256),
                "tuple" => ParamType::Tuple(vec![]),
                _ => {
                    if let Some(n) = after("int") {
                        ParamType::Int(n)
                    } else if let Some(n) = after("uint") {
                        ParamType::Uint(n)
                    } else if let Some(n) = after("bytes") {
                        ParamType::FixedBytes(n)
                    } else {
                        return None;
                    }
                }
            })
        }
    }
}

fn hexd(c: char) -> Option<u8> {
    match c {
        '0'..='9' => Some(c as u8 - b'0'),
        'a'..='f' => Some(c as u8 - b'a' + 10),
        'A'..='F' => Some(c as u8 - b'A' + 10),
        _ => None,
    }
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let c: Vec<char> = s.chars().collect();
    if c.len() % 2 != 0 {
        return None;
    }
    c.chunks(2).map(|p| Some(hexd(p[0])? << 4 | hexd(p[1])?)).collect()
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        s.push(char::from_digit((x >> 4) as u32, 16).unwrap());
        s.push(char::from_digit((x & 15) as u32, 16).unwrap());
    }
    s
}
/// decimal number of at most 256 bits
pub fn undec(s: &str) -> Option<[u8; 32]> {
    let mut w = [0u8; 32];
    for c in s.chars() {
        if !('0'..='9').contains(&c) {
            return None;
        }
        let mut carry = c as u32 - '0' as u32;
        for i in (0..32).rev() {
            let v = w[i] as u32 * 10 + carry;
            w[i] = v as u8;
            carry = v >> 8;
        }
        if carry != 0 {
            return None;
        }
    }
    Some(w)
}
pub fn negate(w: &[u8; 32]) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut carry = 1u32;
    for i in (0..32).rev() {
        let v = (!w[i]) as u32 + carry;
        out[i] = v as u8;
        carry = v >> 8;
    }
    out
}
/// outer None: not claimed; inner None: error
pub fn word_text(s: &str, lenient: bool, signed: bool) -> Option<Option<[u8; 32]>> {
    if let Some(h) = unhex(s) {
        if h.len() == 32 {
            let mut w = [0u8; 32];
            w.copy_from_slice(&h);
            return Some(Some(w));
        }
    }
    if !lenient {
        return Some(None);
    }
    let (neg, digits) = match s.strip_prefix('-') {
        Some(d) if signed => (true, d),
        _ => (false, s),
    };
    if digits.is_empty() {
        return Some(None);
    }
    let w = match undec(digits) {
        Some(w) => w,
        None => return Some(None),
    };
    if !signed {
        return Some(Some(w));
    }
    let mut min = [0u8; 32];
    min[0] = 0x80;
    Some(if neg {
        if w > min {
            None
        } else {
            Some(negate(&w))
        }
    } else if w >= min {
        None
    } else {
        Some(w)
    })
}
/// the value of a text; outer None: not claimed
pub fn tokenize(p: &ParamType, s: &str, lenient: bool) -> Option<Option<Token>> {
    Some(match p {
        ParamType::Address => unhex(s).filter(|h| h.len() == 20).map(|h| {
            let mut a = [0u8; 20];
            a.copy_from_slice(&h);
            Token::Address(a.into())
        }),
        ParamType::String => Some(Token::String(s.to_string())),
        ParamType::Bool => match s {
            "true" | "1" => Some(Token::Bool(true)),
            "false" | "0" => Some(Token::Bool(false)),
            _ => None,
        },
        ParamType::Bytes => unhex(s).map(Token::Bytes),
        ParamType::FixedBytes(n) => unhex(s).filter(|h| h.len() == *n).map(Token::FixedBytes),
        ParamType::Uint(_) => word_text(s, lenient, false)?.map(|w| Token::Uint(w.into())),
        ParamType::Int(_) => word_text(s, lenient, true)?.map(|w| Token::Int(w.into())),
        ParamType::Array(e) => match pieces(s, '[', ']') {
            None => None,
            Some(ps) => {
                let mut v = Some(vec![]);
                for t in ps {
                    match tokenize(e, &t, lenient)? {
                        Some(x) => {
                            if let Some(v) = v.as_mut() {
                                v.push(x)
                            }
                        }
                        None => v = None,
                    }
                }
                v.map(Token::Array)
            }
        },
        ParamType::FixedArray(e, n) => match tokenize(&ParamType::Array(e.clone()), s, lenient)? {
            Some(Token::Array(v)) if v.len() == *n => Some(Token::FixedArray(v)),
            _ => None,
        },
        ParamType::Tuple(ts) => match pieces(s, '(', ')') {
            Some(ps) if ps.len() == ts.len() => {
                let mut v = Some(vec![]);
                for (e, t) in ts.iter().zip(ps) {
                    match tokenize(e, &t, lenient)? {
                        Some(x) => {
                            if let Some(v) = v.as_mut() {
                                v.push(x)
                            }
                        }
                        None => v = None,
                    }
                }
                v.map(Token::Tuple)
            }
            _ => None,
        },
    })
}
/// the pieces between the commas at the own bracket level, outside double quotes
pub fn pieces(s: &str, open: char, close: char) -> Option<Vec<String>> {
    let c: Vec<char> = s.chars().collect();
    let n = c.len();
    if n < 2 || c[0] != open || c[n - 1] != close {
        return None;
    }
    if n == 2 {
        return Some(vec![]);
    }
    let (mut depth, mut quoted) = (0usize, false);
    let mut out = vec![String::new()];
    for x in &c[1..n - 1] {
        if *x == '"' {
            quoted = !quoted
        }
        if !quoted && *x == open {
            depth += 1
        }
        if !quoted && *x == close {
            if depth == 0 {
                return None;
            }
            depth -= 1
        }
        if !quoted && *x == ',' && depth == 0 {
            out.push(String::new())
        } else {
            out.last_mut().unwrap().push(*x)
        }
    }
    if quoted || depth != 0 {
        return None;
    }
    Some(out)
}

/// the topic the EVM logs for an indexed value
pub fn topic(t: &Token) -> [u8; 32] {
    match t {
        Token::Bytes(b) => keccak(b),
        Token::String(s) => keccak(s.as_bytes()),
        Token::Array(_) | Token::FixedArray(_) | Token::Tuple(_) => keccak(&in_place(t)),
        _ => {
            let mut w = [0u8; 32];
            w.copy_from_slice(&enc(t));
            w
        }
    }
}
pub fn in_place(t: &Token) -> Vec<u8> {
    match t {
        Token::Bytes(b) => rpad(b),
        Token::String(s) => rpad(s.as_bytes()),
        Token::Array(v) | Token::FixedArray(v) | Token::Tuple(v) => v.iter().flat_map(in_place).collect(),
        _ => enc(t),
    }
}
/// how a value is printed
pub fn show(t: &Token) -> String {
    match t {
        Token::Bool(b) => if *b { "true" } else { "false" }.to_string(),
        Token::String(s) => s.clone(),
        Token::Address(a) => hex(&a.0),
        Token::Bytes(b) | Token::FixedBytes(b) => hex(b),
        Token::Int(i) | Token::Uint(i) => {
            let h = hex(&u256(i));
            let h = h.trim_start_matches('0');
            if h.is_empty() {
                "0".to_string()
            } else {
                h.to_string()
            }
        }
        Token::Array(v) | Token::FixedArray(v) => format!("[{}]", v.iter().map(show).collect::<Vec<_>>().join(",")),
        Token::Tuple(v) => format!("({})", v.iter().map(show).collect::<Vec<_>>().join(",")),
    }
}
