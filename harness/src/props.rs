//! One case per (property, seed, index).
use crate::gen::{self, Rng};
use crate::oracle as o;
use crate::Info;
use ethabi::param_type::{Reader, Writer};
use ethabi::token::{LenientTokenizer, StrictTokenizer, Tokenizer};
use ethabi::{
    decode, encode, Constructor, Contract, Error, Event, EventParam, Function, Hash, Param, ParamType, RawLog, RawTopicFilter, StateMutability, Token, Topic, TupleParam,
};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash as _, Hasher};

thread_local! {
    pub static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}
fn cut(s: String) -> String {
    if s.len() <= 4000 {
        return s;
    }
    let mut k = 4000;
    while !s.is_char_boundary(k) {
        k -= 1
    }
    format!("{}... ({} bytes)", &s[..k], s.len())
}
fn input(s: String) {
    LAST.with(|l| *l.borrow_mut() = cut(s))
}
fn last() -> String {
    LAST.with(|l| l.borrow().clone())
}
fn ok(nontrivial: bool) -> Result<Info, String> {
    let s = last();
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    Ok(Info { nontrivial, key: h.finish(), sample: s })
}
fn bad<T>(what: String) -> Result<T, String> {
    Err(format!("{} on input {}", cut(what), last()))
}
macro_rules! need {
    ($c:expr, $($f:tt)*) => { if !$c { return bad(format!($($f)*)); } };
}
fn types_text(p: &[ParamType]) -> String {
    o::write_list(p)
}
fn hx(b: &[u8]) -> String {
    if b.len() > 3000 {
        format!("{}... ({} bytes)", o::hex(&b[..3000]), b.len())
    } else {
        o::hex(b)
    }
}

pub fn case(prop: &str, seed: u64, idx: u64) -> Result<Info, String> {
    input(String::new());
    let mut tag = 0u64;
    for b in prop.bytes() {
        tag = tag.wrapping_mul(131).wrapping_add(b as u64)
    }
    let mut r = Rng::new(seed.wrapping_add(tag << 20), idx);
    match prop {
        "C01" => c01(&mut r, idx),
        "C02" => c02(&mut r, idx),
        "C03" => c0304(&mut r, idx, false),
        "C04" => c0304(&mut r, idx, true),
        "C05" => c05(&mut r),
        "C06" => c06(&mut r),
        "C07" => c07(&mut r, idx),
        "C08" => c08(&mut r, idx),
        "C09" => c09(&mut r),
        "C10" => c10(&mut r),
        "C11" => c11(&mut r),
        "C12" => c12(&mut r),
        "C13" => c13(&mut r),
        "C14" => c14(&mut r),
        "C15" => c15(&mut r),
        "C16" => c16(&mut r, idx),
        _ => panic!("no such property"),
    }
}

fn c01(r: &mut Rng, idx: u64) -> Result<Info, String> {
    let toks: Vec<Token> = match idx {
        0 => vec![Token::Bytes(vec![7; (1 << 24) + 5]), Token::String("x".into())],
        1 => vec![Token::Array((0..70_000).map(|i| Token::Bool(i % 3 == 0)).collect()), Token::Bytes(vec![1])],
        2 => vec![Token::Array((0..66_000).map(|i| Token::Bytes(vec![i as u8; i % 3])).collect())],
        3 => vec![],
        4 => (0..300).map(|i| if i % 2 == 0 { Token::Bool(true) } else { Token::String("ab".into()) }).collect(),
        _ => {
            if r.chance(1, 2) {
                let t = gen::tys(r, true);
                t.iter().map(|t| gen::tok(r, t, true)).collect()
            } else {
                let n = r.below(5);
                (0..n).map(|_| gen::any(r, 3)).collect()
            }
        }
    };
    if idx > 2 {
        input(format!("encode({:?})", toks));
    } else {
        input(format!("encode(large case {})", idx));
    }
    let want = o::list(&toks);
    let got = encode(&toks);
    if got != want {
        let at = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return bad(format!("encoding has {} bytes, expected {}; first difference at byte {}; got {} expected {}", got.len(), want.len(), at, hx(&got), hx(&want)));
    }
    ok(!toks.is_empty())
}

fn c02(r: &mut Rng, idx: u64) -> Result<Info, String> {
    let types = gen::tys(r, false);
    let toks: Vec<Token> = types.iter().map(|t| gen::tok(r, t, false)).collect();
    let (types, toks) = match idx {
        0 => (vec![ParamType::Bytes, ParamType::String], vec![Token::Bytes(vec![7; (1 << 24) + 5]), Token::String("x".into())]),
        1 => (
            vec![ParamType::Array(Box::new(ParamType::Bool)), ParamType::Bytes],
            vec![Token::Array((0..70_000).map(|i| Token::Bool(i % 3 == 0)).collect()), Token::Bytes(vec![1])],
        ),
        _ => (types, toks),
    };
    if idx > 1 {
        input(format!("types {} values {:?}", types_text(&types), toks));
    } else {
        input(format!("large case {}", idx));
    }
    let e = encode(&toks);
    match decode(&types, &e) {
        Err(e) => bad(format!("decoding the encoding fails: {:?}", e)),
        Ok(v) => {
            need!(o::tseq(&v, &toks), "decoding the encoding gives {:?}", v);
            ok(!toks.is_empty())
        }
    }
}

fn data_for(r: &mut Rng, types: &[ParamType]) -> Vec<u8> {
    match r.below(10) {
        0 => {
            let n = *r.pick(&[0, 1, 31, 32, 33, 63, 64, 65, 96, 128, 200]);
            r.bytes(n)
        }
        1 => {
            // words of small numbers
            let n = r.below(12);
            let mut d = vec![];
            for _ in 0..n {
                let w = gen::bound_word(r, n * 32);
                d.extend_from_slice(&w);
            }
            d
        }
        2 => {
            let n = r.below(14);
            let mut d = vec![];
            for _ in 0..n {
                let v = 32 * r.below(n + 1);
                let v = if r.chance(1, 3) { r.below(3) } else { v };
                d.extend_from_slice(&o::num(v));
            }
            d
        }
        k => {
            let toks: Vec<Token> = types.iter().map(|t| gen::tok(r, t, false)).collect();
            let mut d = o::list(&toks);
            if k > 3 {
                for _ in 0..1 + r.below(3) {
                    gen::mutate(r, &mut d);
                }
            }
            d
        }
    }
}
fn nodes(p: &ParamType) -> usize {
    match p {
        ParamType::Array(p) | ParamType::FixedArray(p, _) => 1 + nodes(p),
        ParamType::Tuple(v) => 1 + v.iter().map(nodes).sum::<usize>(),
        _ => 1,
    }
}
fn c0304(r: &mut Rng, idx: u64, exact: bool) -> Result<Info, String> {
    let mut types = gen::tys(r, true);
    while !types.iter().all(gen::sized) {
        types = gen::tys(r, true);
    }
    if idx % 997 == 5 {
        types.push(ParamType::FixedBytes(usize::MAX));
    }
    if idx % 997 == 6 {
        types.push(ParamType::FixedBytes(usize::MAX - 31));
    }
    if idx % 499 == 7 {
        types.push(ParamType::FixedArray(Box::new(ParamType::Bool), usize::MAX));
    }
    if idx % 499 == 8 {
        types.push(ParamType::FixedArray(Box::new(ParamType::String), 1 << 40));
    }
    let data = {
        let small: Vec<ParamType> = types.iter().filter(|t| !matches!(t, ParamType::FixedArray(_, n) if *n > 1000) && !matches!(t, ParamType::FixedBytes(n) if *n > 1000)).cloned().collect();
        data_for(r, &small)
    };
    input(format!("decode({}, {})", types_text(&types), hx(&data)));
    crate::mem_reset();
    let got = decode(&types, &data);
    let mem = crate::mem_max();
    if !exact {
        let bound = 256 * data.len() + 64 * types.iter().map(nodes).sum::<usize>() + 4096;
        need!(mem <= bound, "decoding {} bytes asked for {} bytes of memory at once", data.len(), mem);
        return ok(!types.is_empty());
    }
    let want = o::dec_list(&types, &data);
    match (&got, &want) {
        (Err(_), None) => ok(!types.is_empty()),
        (Ok(v), Some(w)) => {
            need!(o::tseq(v, w), "decoded {:?}, the layout holds {:?}", v, w);
            ok(!types.is_empty())
        }
        (Ok(v), None) => bad(format!("decoded {:?} although the layout does not fit", v)),
        (Err(e), Some(w)) => bad(format!("error {:?} although the layout holds {:?}", e, w)),
    }
}

const NAMES: [&str; 14] = ["", "foo", "bar", "baz", "transfer", "f_1", "$x", "ünï", "Foo", "tuple", "a", "constructor", "veryLongFunctionNameWithMoreThanThirtyTwoCharacters", "f o o"];
fn params(r: &mut Rng, t: &[ParamType]) -> Vec<Param> {
    t.iter().map(|k| Param { name: r.pick(&NAMES).to_string(), kind: k.clone(), internal_type: None }).collect()
}
#[allow(deprecated)]
fn function(name: &str, inputs: Vec<Param>, outputs: Vec<Param>) -> Function {
    Function { name: name.into(), inputs, outputs, constant: false, state_mutability: StateMutability::NonPayable }
}
fn near_list(r: &mut Rng, t: &[ParamType]) -> Vec<Token> {
    if r.chance(1, 2) {
        return t.iter().map(|t| gen::tok(r, t, true)).collect();
    }
    let mut v: Vec<Token> = t.iter().map(|t| if r.chance(1, 3) { gen::near(r, t) } else { gen::tok(r, t, true) }).collect();
    match r.below(8) {
        0 => {
            v.pop();
        }
        1 => v.push(gen::any(r, 1)),
        2 => v.reverse(),
        3 => {
            if !v.is_empty() {
                v.remove(0);
            }
        }
        _ => {}
    }
    v
}
fn c05(r: &mut Rng) -> Result<Info, String> {
    let ti = gen::tys(r, false);
    let to = gen::tys(r, false);
    let name = r.pick(&NAMES).to_string();
    let f = function(&name, params(r, &ti), params(r, &to));
    let toks = near_list(r, &ti);
    input(format!("function {}{} outputs {} arguments {:?}", name, types_text(&ti), types_text(&to), toks));
    let fits = o::oftypes(&toks, &ti);
    match f.encode_input(&toks) {
        Ok(b) => {
            need!(fits, "arguments that do not match are encoded as {}", hx(&b));
            let mut want = o::keccak(format!("{}{}", name, types_text(&ti)).as_bytes())[..4].to_vec();
            want.extend(o::list(&toks));
            need!(b == want, "call data is {} instead of {}", hx(&b), hx(&want));
        }
        Err(e) => need!(!fits, "matching arguments are refused: {:?}", e),
    }
    let c = Constructor { inputs: params(r, &ti) };
    let n = gen::len(r);
    let code = r.bytes(n);
    input(format!("constructor {} code {} arguments {:?}", types_text(&ti), hx(&code), toks));
    match c.encode_input(code.clone(), &toks) {
        Ok(b) => {
            need!(fits, "arguments that do not match are encoded as {}", hx(&b));
            let mut want = code.clone();
            want.extend(o::list(&toks));
            need!(b == want, "constructor data is {} instead of {}", hx(&b), hx(&want));
        }
        Err(e) => need!(!fits, "matching arguments are refused: {:?}", e),
    }
    for (ts, output) in [(&ti, false), (&to, true)] {
        let d = data_for(r, ts);
        input(format!("function {}{} outputs {} decode {} {}", name, types_text(&ti), types_text(&to), if output { "output" } else { "input" }, hx(&d)));
        let got = if output { f.decode_output(&d) } else { f.decode_input(&d) };
        match (got, o::dec_list(ts, &d)) {
            (Ok(v), Some(w)) => need!(o::tseq(&v, &w), "decoded {:?} instead of {:?}", v, w),
            (Err(_), None) => {}
            (Ok(v), None) => return bad(format!("decoded {:?} instead of an error", v)),
            (Err(e), Some(w)) => return bad(format!("error {:?} instead of {:?}", e, w)),
        }
    }
    ok(!ti.is_empty())
}
fn c06(r: &mut Rng) -> Result<Info, String> {
    let loose = r.chance(1, 2);
    let mut ti = gen::tys(r, loose);
    let mut to = gen::tys(r, loose);
    if r.chance(1, 5) {
        let d = 5;
        ti.push(gen::ty(r, d, true));
    }
    if r.chance(1, 3) {
        to.clear();
    }
    let name = if r.chance(1, 4) { gen::string(r) } else { r.pick(&NAMES).to_string() };
    let f = function(&name, params(r, &ti), params(r, &to));
    let sig = format!("{}{}", name, types_text(&ti));
    input(format!("signature {} outputs {}", sig, types_text(&to)));
    let hash = o::keccak(sig.as_bytes());
    let toks: Vec<Token> = ti.iter().map(|t| gen::tok(r, t, false)).collect();
    match f.encode_input(&toks) {
        Ok(b) => need!(b.len() >= 4 && b[..4] == hash[..4], "selector is {} instead of {}", hx(&b[..b.len().min(4)]), hx(&hash[..4])),
        Err(e) => return bad(format!("no selector: {:?}", e)),
    }
    let want = if to.is_empty() { sig.clone() } else { format!("{}:{}", sig, types_text(&to)) };
    let got = f.signature();
    need!(got == want, "the signature reads {:?} instead of {:?}", got, want);
    let e = Event {
        name: name.clone(),
        inputs: ti.iter().map(|k| EventParam { name: r.pick(&NAMES).to_string(), kind: k.clone(), indexed: r.chance(1, 2) }).collect(),
        anonymous: r.chance(1, 3),
    };
    need!(e.signature().0 == hash, "the event hash is {} instead of {}", hx(&e.signature().0), hx(&hash));
    ok(true)
}
fn any_size(r: &mut Rng, t: &mut ParamType) {
    let n = match r.below(4) {
        0 => r.next() as usize,
        1 => usize::MAX - r.below(3),
        2 => r.below(1000),
        _ => return,
    };
    match t {
        ParamType::Int(k) | ParamType::Uint(k) | ParamType::FixedBytes(k) => *k = n,
        ParamType::FixedArray(p, k) => {
            *k = n;
            any_size(r, p)
        }
        ParamType::Array(p) => any_size(r, p),
        ParamType::Tuple(v) => v.iter_mut().for_each(|p| any_size(r, p)),
        _ => {}
    }
}
fn c07(r: &mut Rng, idx: u64) -> Result<Info, String> {
    let d = r.below(6);
    let mut t = gen::ty(r, d, true);
    if r.chance(1, 2) {
        any_size(r, &mut t);
    }
    if idx == 0 {
        t = ParamType::Tuple((0..300).map(|i| ParamType::Uint(i)).collect());
    }
    if idx % 101 == 1 {
        for _ in 0..40 {
            t = match r.below(3) {
                0 => ParamType::Array(Box::new(t)),
                1 => ParamType::FixedArray(Box::new(t), r.below(100)),
                _ => ParamType::Tuple(vec![ParamType::Bool, t, ParamType::Address]),
            };
        }
    }
    input(format!("type {:?}", t));
    let s = Writer::write(&t);
    need!(t.to_string() == s, "written as {:?} and displayed as {:?}", s, t.to_string());
    match Reader::read(&s) {
        Err(e) => bad(format!("the text {:?} is not read: {:?}", s, e)),
        Ok(u) => {
            need!(o::peq(&t, &u), "the text {:?} is read as {:?}", s, u);
            ok(true)
        }
    }
}
const ATOMS: [&str; 52] = [
    "address", "bool", "string", "bytes", "bytes32", "bytes1", "int", "uint", "int8", "uint256", "tuple", "(", ")", "[", "]", "[]", "[3]", ",", "()", "(uint256,bool)", " ", "é", "日", "0",
    "9", "18446744073709551615", "18446744073709551616", "+7", "-1", "[00]", "ufixed", "function", "Tuple", "bytesx", "int256 ", "[ ]", "[+2]", "(,)", "((", "))",
    "Address", "address payable", "byte", "fixed128x18", "BOOL", "String", "[0x2]", "[1_0]", "uint_8", "\t", "'", ";",
];
fn c08(r: &mut Rng, idx: u64) -> Result<Info, String> {
    let s = match r.below(5) {
        0 => {
            let n = r.below(7);
            (0..n).map(|_| *r.pick(&ATOMS)).collect::<String>()
        }
        1 => {
            let d = r.below(4);
            let t = if r.chance(1, 20) { gen::deep(r, true) } else { gen::ty(r, d, true) };
            o::write(&t)
        }
        2 => {
            let n = r.below(6);
            (0..n).map(|_| *r.pick(&['(', ')', '[', ']', ',', 'a', '1', 'é', '+', ' '])).collect()
        }
        _ => {
            let d = r.below(4);
            let t = gen::ty(r, d, true);
            let mut c: Vec<char> = o::write(&t).chars().collect();
            for _ in 0..1 + r.below(3) {
                let k = r.below(c.len() + 1);
                match r.below(4) {
                    0 if k < c.len() => {
                        c.remove(k);
                    }
                    1 => {
                        let a: Vec<char> = r.pick(&ATOMS).chars().collect();
                        for (j, x) in a.into_iter().enumerate() {
                            c.insert(k + j, x)
                        }
                    }
                    2 if k < c.len() => c[k] = *r.pick(&['(', ')', '[', ']', ',', 'u', '1', 'é', '+', ' ', 'B']),
                    _ => {
                        let suf: Vec<char> = r.pick(&["[]", "[2]", "[", "]", ")", "(", ",", "[x]", "[-1]"]).chars().collect();
                        c.extend(suf)
                    }
                }
            }
            c.into_iter().collect()
        }
    };
    let s = match idx {
        0..=51 => ATOMS[idx as usize].to_string(),
        _ => s,
    };
    input(format!("{:?}", s));
    match (Reader::read(&s), o::read(&s)) {
        (Err(_), None) => {}
        (Ok(t), Some(u)) => need!(o::peq(&t, &u), "read as {:?} instead of {:?}", t, u),
        (Ok(t), None) => return bad(format!("read as {:?} although it names no type", t)),
        (Err(e), Some(u)) => return bad(format!("error {:?} although it names {:?}", e, u)),
    }
    // the deserializer reads the same
    if r.chance(1, 4) {
        let j = serde_json::to_string(&s).unwrap();
        match (serde_json::from_str::<ParamType>(&j), o::read(&s)) {
            (Err(_), None) => {}
            (Ok(t), Some(u)) => need!(o::peq(&t, &u), "deserialized as {:?} instead of {:?}", t, u),
            (a, b) => return bad(format!("deserialized as {:?} instead of {:?}", a, b)),
        }
    }
    ok(!s.is_empty())
}

fn scalar_text(r: &mut Rng, t: &ParamType) -> String {
    let hexn = |r: &mut Rng, n: usize| -> String {
        let h = o::hex(&r.bytes(n));
        if r.chance(1, 4) {
            h.to_uppercase()
        } else {
            h
        }
    };
    match t {
        ParamType::Address => {
            let n = *r.pick(&[20, 20, 20, 20, 20, 20, 19, 21, 32, 0, 4]);
            hexn(r, n)
        }
        ParamType::Bool => r.pick(&["true", "false", "1", "0", "true", "false", "1", "0", "", "2", "True", "01", "00", "yes", "FALSE", " 1"]).to_string(),
        ParamType::String => {
            if r.chance(1, 3) {
                r.pick(&["a,b", "\"a,b\"", "\"(\"", "[", "\"]\"", "é", "", "\"", "\"\"", "x y"]).to_string()
            } else {
                gen::string(r).chars().take(20).collect()
            }
        }
        ParamType::Bytes => {
            let n = r.below(40);
            let mut s = hexn(r, n);
            if r.chance(1, 8) {
                s.pop();
            }
            s
        }
        ParamType::FixedBytes(n) => {
            let n = if r.chance(3, 4) { (*n).min(100) } else { *r.pick(&[0usize, 1, 31, 32, 33]) };
            hexn(r, n)
        }
        _ => match r.below(14) {
            0..=3 => hexn(r, 32),
            4 => {
                let n = *r.pick(&[31, 33, 16, 0, 1]);
                hexn(r, n)
            }
            5 | 6 => r
                .pick(&[
                    "115792089237316195423570985008687907853269984665640564039457584007913129639935",
                    "115792089237316195423570985008687907853269984665640564039457584007913129639936",
                    "57896044618658097711785492504343953926634992332820282019728792003956564819967",
                    "57896044618658097711785492504343953926634992332820282019728792003956564819968",
                    "57896044618658097711785492504343953926634992332820282019728792003956564819969",
                    "-57896044618658097711785492504343953926634992332820282019728792003956564819967",
                    "-57896044618658097711785492504343953926634992332820282019728792003956564819968",
                    "-57896044618658097711785492504343953926634992332820282019728792003956564819969",
                    "-115792089237316195423570985008687907853269984665640564039457584007913129639935",
                    "-115792089237316195423570985008687907853269984665640564039457584007913129639936",
                ])
                .to_string(),
            7 => r.pick(&["0", "-0", "1", "-1", "--1", "-", "", "+1", " 1", "1 ", "0x10", "1e3", "-00", "0001", "-0001", "é", "１", "-é", "1-1", "---0"]).to_string(),
            _ => {
                let n = *r.pick(&[1, 2, 5, 20, 40, 63, 64, 65, 76, 77, 78, 79]);
                let mut s: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
                if r.chance(1, 3) {
                    s = format!("-{}", s)
                }
                if r.chance(1, 10) {
                    s.push(*r.pick(&['a', ' ', '.', '-', '٣']))
                }
                s
            }
        },
    }
}
fn good_text(r: &mut Rng, t: &ParamType, lenient: bool) -> String {
    match t {
        ParamType::Address => o::hex(&r.bytes(20)),
        ParamType::Bool => r.pick(&["true", "false", "1", "0"]).to_string(),
        ParamType::String => r.pick(&["a", "", "\"a,b\"", "\"(\"", "\"]\"", "é", "\"\"", "x y", "日本", "\"[(,\"", "it's", "a;b", "\\", "a\\\"b", "{}", "a b ", "'a,b'", "x:y", "\"a\"\"b\"", "a\tb"]).to_string(),
        ParamType::Bytes => {
            let n = r.below(5);
            o::hex(&r.bytes(n))
        }
        ParamType::FixedBytes(n) => o::hex(&r.bytes((*n).min(100))),
        ParamType::Uint(_) if lenient && r.chance(1, 2) => format!("{}", r.next()),
        ParamType::Int(_) if lenient && r.chance(1, 2) => format!("{}", r.next() as i64),
        ParamType::Uint(_) | ParamType::Int(_) => o::hex(&r.bytes(32)),
        ParamType::Array(p) => {
            let n = r.below(4);
            format!("[{}]", (0..n).map(|_| good_text(r, p, lenient)).collect::<Vec<_>>().join(","))
        }
        ParamType::FixedArray(p, n) => format!("[{}]", (0..*n).map(|_| good_text(r, p, lenient)).collect::<Vec<_>>().join(",")),
        ParamType::Tuple(v) => format!("({})", v.iter().map(|p| good_text(r, p, lenient)).collect::<Vec<_>>().join(",")),
    }
}
fn tokenize_case(t: &ParamType, s: &str, lenient: bool) -> Result<(), String> {
    input(format!("{} tokenizing of {:?} as {}", if lenient { "lenient" } else { "strict" }, s, o::write(t)));
    let got = if lenient { LenientTokenizer::tokenize(t, s) } else { StrictTokenizer::tokenize(t, s) };
    if let Ok(v) = &got {
        need!(o::oftype(v, t), "the value {:?} is not of the type", v);
    }
    match (got, o::tokenize(t, s, lenient)) {
        (_, None) => Ok(()),
        (Err(_), Some(None)) => Ok(()),
        (Ok(v), Some(Some(w))) => {
            need!(o::teq(&v, &w), "the value is {:?} instead of {:?}", v, w);
            Ok(())
        }
        (Ok(v), Some(None)) => bad(format!("the value is {:?} instead of an error", v)),
        (Err(e), Some(Some(w))) => bad(format!("error {:?} instead of {:?}", e, w)),
    }
}
fn c09(r: &mut Rng) -> Result<Info, String> {
    let d = 1 + r.below(3);
    let inner = gen::ty(r, d - 1, true);
    let t = match r.below(4) {
        0 => ParamType::Array(Box::new(inner)),
        1 => ParamType::FixedArray(Box::new(inner), r.below(4)),
        2 => {
            let n = r.below(5);
            ParamType::Tuple((0..n).map(|_| gen::ty(r, d - 1, true)).collect())
        }
        _ if r.chance(1, 20) => gen::deep(r, true),
        _ => gen::ty(r, d, true),
    };
    let lenient = r.chance(1, 2);
    let mut c: Vec<char> = good_text(r, &t, lenient).chars().collect();
    if r.chance(2, 3) {
        for _ in 0..1 + r.below(3) {
            let k = r.below(c.len() + 1);
            match r.below(6) {
                0 if k < c.len() => {
                    c.remove(k);
                }
                1 => c.insert(k, *r.pick(&['(', ')', '[', ']', ',', '"', '1', 'é', ';', '\'', '\\', '\t', '{', ' '])),
                2 if k < c.len() => c[k] = *r.pick(&['(', ')', '[', ']', ',', '"', '0', 'é', ';', '\'', '\\', '\t', '{', ' ']),
                3 => c.push(*r.pick(&[']', ')', ',', '"', ' '])),
                4 => c.insert(0, *r.pick(&['[', '(', '"', ' ', 'é'])),
                _ if !c.is_empty() => {
                    c.pop();
                }
                _ => {}
            }
        }
    }
    if r.chance(1, 12) {
        let n = r.below(7);
        c = (0..n).map(|_| *r.pick(&['(', ')', '[', ']', ',', '"', '1', 'é'])).collect();
    }
    let s: String = c.into_iter().collect();
    tokenize_case(&t, &s, false)?;
    tokenize_case(&t, &s, true)?;
    ok(s.len() > 2)
}
fn c10(r: &mut Rng) -> Result<Info, String> {
    let t = gen::ty(r, 0, true);
    let s = if r.chance(1, 6) { good_text(r, &t, true) } else { scalar_text(r, &t) };
    let s = if r.chance(1, 10) {
        let mut c: Vec<char> = s.chars().collect();
        let k = r.below(c.len() + 1);
        if r.chance(1, 3) {
            let pre: Vec<char> = r.pick(&["0x", "0X", "x", "+", "#", " ", "\t", "\u{feff}"]).chars().collect();
            c.splice(0..0, pre);
        } else if r.chance(1, 6) {
            c.push(*r.pick(&['h', ' ', '\n', 'L', '0', '.']));
        } else if r.chance(1, 2) {
            c.insert(k, *r.pick(&['0', 'g', ' ', 'é', '-', 'x', '_', ',', '.', '\'']))
        } else if k < c.len() {
            c[k] = *r.pick(&['0', 'g', ' ', 'é', '-', 'x', '_', ',', '.', '\''])
        }
        c.into_iter().collect()
    } else {
        s
    };
    tokenize_case(&t, &s, false)?;
    tokenize_case(&t, &s, true)?;
    ok(!s.is_empty())
}
fn event(r: &mut Rng) -> Event {
    let n = r.below(7);
    let mut inputs = vec![];
    for i in 0..n {
        let d = r.below(3);
        let kind = gen::ty(r, d, false);
        let name = match r.below(4) {
            0 => "".to_string(),
            1 => r.pick(&NAMES).to_string(),
            _ => format!("p{}", i),
        };
        inputs.push(EventParam { name, kind, indexed: r.chance(2, 5) });
    }
    Event { name: r.pick(&NAMES).to_string(), inputs, anonymous: r.chance(1, 3) }
}
fn event_hash(e: &Event) -> [u8; 32] {
    let t: Vec<ParamType> = e.inputs.iter().map(|p| p.kind.clone()).collect();
    o::keccak(format!("{}{}", e.name, types_text(&t)).as_bytes())
}
fn value_type(t: &ParamType) -> bool {
    matches!(t, ParamType::Address | ParamType::Int(_) | ParamType::Uint(_) | ParamType::Bool | ParamType::FixedBytes(_))
}
fn c11(r: &mut Rng) -> Result<Info, String> {
    let e = event(r);
    let h = event_hash(&e);
    let mut topics: Vec<[u8; 32]> = vec![];
    if !e.anonymous {
        topics.push(h);
    }
    let mut toks = vec![];
    for p in &e.inputs {
        let t = gen::tok(r, &p.kind, false);
        if p.indexed {
            topics.push(if r.chance(1, 15) { r.word() } else { o::topic(&t) });
        } else {
            toks.push(t);
        }
    }
    let mut data = o::list(&toks);
    match r.below(12) {
        0 => {
            topics.pop();
        }
        1 => topics.push(r.word()),
        2 => gen::mutate(r, &mut data),
        3 if !topics.is_empty() => {
            let k = r.below(topics.len());
            topics[k] = r.word()
        }
        4 if !topics.is_empty() => {
            let k = r.below(topics.len());
            let j = r.below(32);
            topics[k][j] ^= 1 << r.below(8)
        }
        5 if topics.len() > 1 => {
            topics.swap(0, 1);
        }
        6 if !topics.is_empty() => {
            topics.remove(0);
        }
        7 => topics.insert(0, h),
        _ => {}
    }
    let nontrivial = !e.inputs.is_empty();
    input(format!("event {:?} topics {:?} data {}", e, topics.iter().map(|t| o::hex(t)).collect::<Vec<_>>(), hx(&data)));
    // expected
    let want = (|| -> Option<Vec<(String, Token)>> {
        let mut ts = &topics[..];
        if !e.anonymous {
            if ts.first()? != &h {
                return None;
            }
            ts = &ts[1..];
        }
        if ts.len() != e.inputs.iter().filter(|p| p.indexed).count() {
            return None;
        }
        let dt: Vec<ParamType> = e.inputs.iter().filter(|p| !p.indexed).map(|p| p.kind.clone()).collect();
        let mut dv = o::dec_list(&dt, &data)?.into_iter();
        let mut out = vec![];
        let mut k = 0;
        for p in &e.inputs {
            let v = if p.indexed {
                let t = &ts[k];
                k += 1;
                if value_type(&p.kind) {
                    o::dec(&p.kind, t, 0)?.0
                } else {
                    Token::FixedBytes(t.to_vec())
                }
            } else {
                dv.next()?
            };
            out.push((p.name.clone(), v));
        }
        Some(out)
    })();
    let raw: RawLog = (topics.iter().map(|t| Hash::from(*t)).collect::<Vec<_>>(), data.clone()).into();
    match (e.parse_log(raw), want) {
        (Err(_), None) => {}
        (Ok(l), None) => return bad(format!("parsed as {:?} instead of an error", l)),
        (Err(x), Some(w)) => return bad(format!("error {:?} instead of {:?}", x, w)),
        (Ok(l), Some(w)) => {
            let same = l.params.len() == w.len() && l.params.iter().zip(&w).all(|(p, (n, v))| p.name == *n && o::teq(&p.value, v));
            need!(same, "parsed as {:?} instead of {:?}", l, w);
        }
    }
    ok(nontrivial)
}
fn dup(t: &Topic<Token>) -> Topic<Token> {
    match t {
        Topic::Any => Topic::Any,
        Topic::This(t) => Topic::This(t.clone()),
        Topic::OneOf(v) => Topic::OneOf(v.clone()),
    }
}
fn c12(r: &mut Rng) -> Result<Info, String> {
    let mut e = event(r);
    for p in e.inputs.iter_mut() {
        if r.chance(1, 3) {
            p.indexed = true
        }
    }
    let kinds: Vec<ParamType> = e.inputs.iter().filter(|p| p.indexed).map(|p| p.kind.clone()).collect();
    let mut raw: Vec<Topic<Token>> = vec![];
    for i in 0..3 {
        let mk = |r: &mut Rng| -> Token {
            match kinds.get(i) {
                Some(k) if r.chance(11, 12) => gen::tok(r, k, true),
                Some(k) => gen::near(r, k),
                None => gen::any(r, 1),
            }
        };
        let p = if i < kinds.len() { 4 } else { 30 };
        raw.push(match r.below(p) {
            0 => Topic::This(mk(r)),
            1 => {
                let n = r.below(4);
                Topic::OneOf((0..n).map(|_| mk(r)).collect())
            }
            2 if i < kinds.len() => Topic::This(mk(r)),
            _ => Topic::Any,
        });
    }
    input(format!("event {:?} topics {:?}", e, raw));
    let conv = |t: &Topic<Token>, k: Option<&ParamType>| -> Option<Topic<[u8; 32]>> {
        Some(match t {
            Topic::Any => Topic::Any,
            Topic::This(t) => {
                if !o::oftype(t, k?) {
                    return None;
                }
                Topic::This(o::topic(t))
            }
            Topic::OneOf(v) => {
                let k = k?;
                let mut out = vec![];
                for t in v {
                    if !o::oftype(t, k) {
                        return None;
                    }
                    out.push(o::topic(t))
                }
                Topic::OneOf(out)
            }
        })
    };
    let want = (|| -> Option<Vec<Topic<[u8; 32]>>> {
        let mut v = vec![];
        if !e.anonymous {
            v.push(Topic::This(event_hash(&e)));
        }
        for i in 0..3 {
            v.push(conv(&raw[i], kinds.get(i))?);
        }
        if e.anonymous {
            v.push(Topic::Any);
        }
        Some(v)
    })();
    let got = e.filter(RawTopicFilter { topic0: dup(&raw[0]), topic1: dup(&raw[1]), topic2: dup(&raw[2]) });
    match (got, want) {
        (Err(_), None) => {}
        (Ok(f), None) => return bad(format!("filter {:?} instead of an error", f)),
        (Err(x), Some(w)) => return bad(format!("error {:?} instead of {:?}", x, w)),
        (Ok(f), Some(w)) => {
            let same = |a: &Topic<Hash>, b: &Topic<[u8; 32]>| match (a, b) {
                (Topic::Any, Topic::Any) => true,
                (Topic::This(x), Topic::This(y)) => x.0 == *y,
                (Topic::OneOf(x), Topic::OneOf(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.0 == *q),
                _ => false,
            };
            need!(same(&f.topic0, &w[0]) && same(&f.topic1, &w[1]) && same(&f.topic2, &w[2]) && same(&f.topic3, &w[3]), "filter {:?} instead of {:?}", f, w);
            // as JSON: null, a text or a list of texts for each of the four
            let text = |h: &[u8; 32]| serde_json::Value::String(format!("0x{}", h.iter().map(|b| format!("{:02x}", b)).collect::<String>()));
            let json = serde_json::Value::Array(
                w.iter()
                    .map(|t| match t {
                        Topic::Any => serde_json::Value::Null,
                        Topic::This(h) => text(h),
                        Topic::OneOf(v) => serde_json::Value::Array(v.iter().map(text).collect()),
                    })
                    .collect(),
            );
            let got = serde_json::to_value(&f).map_err(|e| e.to_string())?;
            need!(got == json, "filter {:?} written as {} instead of {}", f, got, json);
            // conversions keep the values and their order
            for (t, w) in vec![f.topic0, f.topic1, f.topic2, f.topic3].into_iter().zip(&w) {
                let vals: Vec<[u8; 32]> = match w {
                    Topic::Any => vec![],
                    Topic::This(h) => vec![*h],
                    Topic::OneOf(v) => v.clone(),
                };
                need!(t.is_any() == matches!(w, Topic::Any), "is_any of {:?}", t);
                for (i, v) in vals.iter().enumerate() {
                    need!(t[i].0 == *v, "{:?}[{}]", t, i);
                }
                let flat = |x: Topic<Hash>| -> Vec<[u8; 32]> { Vec::<Hash>::from(x).into_iter().map(|h| h.0).collect() };
                let m = t.map(|h| Hash::from(h.0));
                need!(same(&m, w), "mapped to {:?} instead of {:?}", m, w);
                need!(flat(m) == vals, "as a list: not {:?}", vals);
                if let Some(v) = vals.first() {
                    need!(flat(Topic::<Hash>::from(Hash::from(*v))) == vec![*v], "topic of one value");
                    need!(flat(Topic::<Hash>::from(Some(Hash::from(*v)))) == vec![*v], "topic of some value");
                }
                need!(Topic::<Hash>::from(None::<Hash>) == Topic::Any, "topic of none");
                let l: Vec<Hash> = vals.iter().map(|v| Hash::from(*v)).collect();
                need!(Topic::<Hash>::from(l.clone()) == Topic::OneOf(l), "topic of a list");
            }
        }
    }
    ok(!kinds.is_empty())
}
fn c14(r: &mut Rng) -> Result<Info, String> {
    let d = r.below(4);
    let t = gen::ty(r, d, true);
    let v = match r.below(5) {
        0 => gen::any(r, 2),
        1 => gen::tok(r, &t, true),
        _ => gen::near(r, &t),
    };
    input(format!("value {:?} type {}", v, o::write(&t)));
    need!(v.type_check(&t) == o::oftype(&v, &t), "type check answers {}", v.type_check(&t));
    need!(v.is_dynamic() == o::dynv(&v), "reported dynamic: {}", v.is_dynamic());
    let ts = gen::tys(r, true);
    let vs = near_list(r, &ts);
    let c = |x: &Token| x.clone();
    let e = |a: Option<Token>, b: Option<Token>| match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => o::teq(&x, &y),
        _ => false,
    };
    let only = |p: bool| if p { Some(c(&v)) } else { None };
    need!(e(c(&v).into_address().map(Token::Address), only(matches!(v, Token::Address(_)))), "into_address");
    need!(e(c(&v).into_fixed_bytes().map(Token::FixedBytes), only(matches!(v, Token::FixedBytes(_)))), "into_fixed_bytes");
    need!(e(c(&v).into_bytes().map(Token::Bytes), only(matches!(v, Token::Bytes(_)))), "into_bytes");
    need!(e(c(&v).into_int().map(Token::Int), only(matches!(v, Token::Int(_)))), "into_int");
    need!(e(c(&v).into_uint().map(Token::Uint), only(matches!(v, Token::Uint(_)))), "into_uint");
    need!(e(c(&v).into_bool().map(Token::Bool), only(matches!(v, Token::Bool(_)))), "into_bool");
    need!(e(c(&v).into_string().map(Token::String), only(matches!(v, Token::String(_)))), "into_string");
    need!(e(c(&v).into_fixed_array().map(Token::FixedArray), only(matches!(v, Token::FixedArray(_)))), "into_fixed_array");
    need!(e(c(&v).into_array().map(Token::Array), only(matches!(v, Token::Array(_)))), "into_array");
    input(format!("values {:?} types {}", vs, types_text(&ts)));
    need!(Token::types_check(&vs, &ts) == o::oftypes(&vs, &ts), "type check answers {}", Token::types_check(&vs, &ts));
    ok(true)
}

// ---- JSON ----
fn js(r: &mut Rng, s: &str) -> String {
    let plain = serde_json::to_string(s).unwrap();
    if r.chance(1, 6) {
        let mut out = String::from("\"");
        let mut buf = [0u16; 2];
        for c in s.chars() {
            for u in c.encode_utf16(&mut buf) {
                out.push_str(&format!("\\u{:04x}", u));
            }
        }
        out.push('"');
        out
    } else {
        plain
    }
}
fn junk(r: &mut Rng) -> String {
    r.pick(&["1", "null", "true", "\"x\"", "[]", "{}", "[1,{\"name\":2}]", "{\"type\":\"foo\",\"components\":5}", "-1.5e3"]).to_string()
}
const UNKNOWN: [&str; 5] = ["extra", "Name", "kind", "", "constant2"];
/// fields of a parameter of a type
fn fields(r: &mut Rng, t: &ParamType) -> Vec<(String, String)> {
    let (mut text, mut base) = (String::new(), t);
    loop {
        match base {
            ParamType::Array(p) => {
                text = format!("[]{}", text);
                base = p
            }
            ParamType::FixedArray(p, n) => {
                text = format!("[{}]{}", n, text);
                base = p
            }
            _ => break,
        }
    }
    let mut f = vec![];
    if let ParamType::Tuple(v) = base {
        text = format!("tuple{}", text);
        let mut items = vec![];
        for p in v {
            let mut g = fields(r, p);
            if r.chance(3, 4) {
                let n = gen::string(r);
                g.push(("name".into(), js(r, &n)));
            }
            if r.chance(1, 3) {
                g.push(("internalType".into(), js(r, "struct X")));
            }
            items.push(object(r, g));
        }
        f.push(("components".to_string(), format!("[{}]", items.join(","))));
    } else {
        text = format!("{}{}", o::write(base), text);
        if r.chance(1, 12) {
            f.push(("components".to_string(), "[]".to_string()));
        }
    }
    f.push(("type".to_string(), js(r, &text)));
    f
}
fn object(r: &mut Rng, mut f: Vec<(String, String)>) -> String {
    while r.chance(1, 4) {
        let v = junk(r);
        f.push((r.pick(&UNKNOWN).to_string(), v));
    }
    for i in (1..f.len()).rev() {
        let j = r.below(i + 1);
        f.swap(i, j);
    }
    let sp = r.pick(&["", " ", "\n\t"]).to_string();
    let mut out = String::from("{");
    for (i, (k, v)) in f.iter().enumerate() {
        if i > 0 {
            out.push(',')
        }
        let k = js(r, k);
        out.push_str(&format!("{}{}{}:{}{}", sp, k, sp, sp, v));
    }
    out.push('}');
    out
}
fn from_json<'a, T: serde_like::De>(r: &mut Rng, s: &'a str) -> std::result::Result<T, String> {
    if r.chance(1, 2) {
        T::from_str(s)
    } else {
        T::from_rd(s.as_bytes())
    }
}
mod serde_like {
    pub trait De: Sized {
        fn from_str(s: &str) -> Result<Self, String>;
        fn from_rd(s: &[u8]) -> Result<Self, String>;
        fn text(&self) -> String;
    }
    macro_rules! de {
        ($($t:ty),*) => { $(impl De for $t {
            fn from_str(s: &str) -> Result<Self, String> { serde_json::from_str(s).map_err(|e| e.to_string()) }
            fn from_rd(s: &[u8]) -> Result<Self, String> { serde_json::from_reader(s).map_err(|e| e.to_string()) }
            fn text(&self) -> String { serde_json::to_string(self).unwrap() }
        })* };
    }
    de!(ethabi::Param, ethabi::EventParam, ethabi::TupleParam);
}
use serde_like::De;
/// other lengths and sizes, where nothing is encoded
fn lengths(r: &mut Rng, t: &mut ParamType) {
    match t {
        ParamType::FixedArray(p, n) => {
            if r.chance(1, 2) {
                *n = r.below(12);
            }
            if r.chance(1, 20) {
                *n = r.below(2000);
            }
            lengths(r, p)
        }
        ParamType::Array(p) => lengths(r, p),
        ParamType::Tuple(ts) => ts.iter_mut().for_each(|t| lengths(r, t)),
        _ => {}
    }
}
fn c15(r: &mut Rng) -> Result<Info, String> {
    let d = r.below(5);
    let mut t = gen::ty(r, d, true);
    if r.chance(1, 3) {
        // a tuple below array suffixes
        let n = r.below(4);
        t = ParamType::Tuple((0..n).map(|_| gen::ty(r, d.min(2), true)).collect());
        for _ in 0..r.below(4) {
            t = if r.chance(1, 2) { ParamType::Array(Box::new(t)) } else { ParamType::FixedArray(Box::new(t), r.below(5)) };
        }
    }
    lengths(r, &mut t);
    let name = gen::string(r);
    let internal = if r.chance(1, 2) { Some(r.pick(&["uint256", "struct A.B", "", "tuple"]).to_string()) } else { None };
    let indexed = *r.pick(&[None, Some(true), Some(false)]);
    let which = r.below(3);
    let mut f = fields(r, &t);
    let mut named = true;
    if which == 2 && r.chance(1, 4) {
        named = false
    }
    if named {
        f.push(("name".into(), js(r, &name)));
    }
    if which != 1 {
        if let Some(i) = &internal {
            f.push(("internalType".into(), js(r, i)));
        }
    } else if r.chance(1, 4) {
        f.push(("internalType".into(), js(r, "x")));
    }
    if which == 1 {
        if let Some(b) = indexed {
            f.push(("indexed".into(), b.to_string()));
        }
    }
    let tuple = {
        let mut b = &t;
        loop {
            match b {
                ParamType::Array(p) | ParamType::FixedArray(p, _) => b = p,
                _ => break matches!(b, ParamType::Tuple(_)),
            }
        }
    };
    let mut fail = false;
    let known: &[&str] = match which {
        1 => &["name", "type", "components", "indexed"],
        _ => &["name", "type", "components", "internalType"],
    };
    match r.below(10) {
        0 => {
            let k = r.below(f.len());
            if known.contains(&f[k].0.as_str()) {
                fail = true
            }
            let c = f[k].clone();
            f.push(c);
        }
        1 => {
            let k = *r.pick(&["name", "type", "components"]);
            let had = f.len();
            f.retain(|x| x.0 != k);
            if had != f.len() && (k == "type" || (k == "name" && which != 2) || (k == "components" && tuple)) {
                fail = true
            }
            if k == "name" {
                named = false
            }
        }
        2 => {
            let k = r.below(f.len());
            if known.contains(&f[k].0.as_str()) {
                f[k].1 = "17".into();
                fail = true
            }
        }
        3 => {
            for x in f.iter_mut() {
                if x.0 == "type" {
                    x.1 = js(r, "nonsense");
                    fail = true
                }
            }
        }
        _ => {}
    }
    let j = object(r, f);
    input(format!("{} {}", ["Param", "EventParam", "TupleParam"][which], j));
    macro_rules! both {
        ($t:ty, $same:expr) => {{
            let got: std::result::Result<$t, String> = from_json(r, &j);
            match got {
                Err(e) => need!(fail, "error {}", e),
                Ok(p) => {
                    need!(!fail, "read as {:?} instead of an error", p);
                    need!($same(&p), "read as {:?}", p);
                    let back = p.text();
                    match <$t as De>::from_str(&back) {
                        Ok(q) => need!($same(&q), "written as {} and read back as {:?}", back, q),
                        Err(e) => return bad(format!("written as {} and not read back: {}", back, e)),
                    }
                }
            }
        }};
    }
    match which {
        0 => both!(Param, |p: &Param| p.name == name && o::peq(&p.kind, &t) && p.internal_type == internal),
        1 => both!(EventParam, |p: &EventParam| p.name == name && o::peq(&p.kind, &t) && p.indexed == indexed.unwrap_or(false)),
        _ => {
            let n = if named { Some(name.clone()) } else { None };
            both!(TupleParam, |p: &TupleParam| p.name == n && o::peq(&p.kind, &t) && p.internal_type == internal)
        }
    }
    ok(true)
}

// ---- contracts ----
enum Entry {
    F { name: String, i: Vec<(String, ParamType)>, o: Vec<(String, ParamType)>, m: Option<usize> },
    E { name: String, i: Vec<(String, ParamType, bool)>, anonymous: bool },
    C(Vec<(String, ParamType)>),
    Fallback,
    Receive,
}
const MUT: [&str; 4] = ["pure", "view", "nonpayable", "payable"];
const ENAMES: [&str; 10] = ["foo", "bar", "foo", "baz", "foo(uint256)", "foo(", "", "bar(bool)(", "ünï", "(x)"];
fn plist(r: &mut Rng, p: &[(String, ParamType)]) -> String {
    let mut v = vec![];
    for (n, t) in p {
        let mut f = fields(r, t);
        f.push(("name".into(), js(r, n)));
        v.push(object(r, f));
    }
    format!("[{}]", v.join(","))
}
fn gen_params(r: &mut Rng) -> Vec<(String, ParamType)> {
    let n = r.below(4);
    (0..n)
        .map(|_| {
            let d = r.below(3);
            (r.pick(&NAMES).to_string(), gen::ty(r, d, false))
        })
        .collect()
}
fn entry(r: &mut Rng, names: &[&str]) -> Entry {
    match r.below(12) {
        0..=5 => Entry::F {
            name: r.pick(names).to_string(),
            i: gen_params(r),
            o: gen_params(r),
            m: if r.chance(1, 2) { Some(r.below(4)) } else { None },
        },
        6..=8 => Entry::E {
            name: r.pick(names).to_string(),
            i: gen_params(r).into_iter().map(|(n, t)| (n, t, r.chance(1, 2))).collect(),
            anonymous: r.chance(1, 3),
        },
        9 => Entry::C(gen_params(r)),
        10 => Entry::Fallback,
        _ => Entry::Receive,
    }
}
fn entry_json(r: &mut Rng, e: &Entry) -> String {
    let f: Vec<(String, String)> = match e {
        Entry::F { name, i, o, m } => {
            let mut f = vec![
                ("type".into(), "\"function\"".into()),
                ("name".into(), js(r, name)),
                ("inputs".into(), plist(r, i)),
                ("outputs".into(), plist(r, o)),
            ];
            if let Some(m) = m {
                f.push(("stateMutability".into(), format!("\"{}\"", MUT[*m])));
            }
            if r.below(4) == 0 {
                f.push(("constant".into(), (r.below(2) == 0).to_string()));
            }
            f
        }
        Entry::E { name, i, anonymous } => {
            let mut v = vec![];
            for (n, t, x) in i {
                let mut f = fields(r, t);
                f.push(("name".into(), js(r, n)));
                f.push(("indexed".into(), x.to_string()));
                v.push(object(r, f));
            }
            vec![
                ("type".into(), "\"event\"".into()),
                ("name".into(), js(r, name)),
                ("inputs".into(), format!("[{}]", v.join(","))),
                ("anonymous".into(), anonymous.to_string()),
            ]
        }
        Entry::C(i) => vec![("type".into(), "\"constructor\"".into()), ("inputs".into(), plist(r, i))],
        Entry::Fallback => vec![("type".into(), "\"fallback\"".into())],
        Entry::Receive => vec![("type".into(), "\"receive\"".into())],
    };
    // in any order
    let mut f = f;
    for i in (1..f.len()).rev() {
        let j = r.below(i + 1);
        f.swap(i, j);
    }
    let body = f.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",");
    format!("{{{}}}", body)
}
fn cutname(n: &str) -> String {
    n.split('(').next().unwrap().to_string()
}
fn same_params(a: &[Param], b: &[(String, ParamType)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(p, (n, t))| p.name == *n && o::peq(&p.kind, t))
}
fn same_f(f: &Function, e: &Entry) -> bool {
    match e {
        Entry::F { name, i, o, m } => {
            f.name == cutname(name) && same_params(&f.inputs, i) && same_params(&f.outputs, o) && {
                let want = [StateMutability::Pure, StateMutability::View, StateMutability::NonPayable, StateMutability::Payable][m.unwrap_or(2)];
                f.state_mutability == want
            }
        }
        _ => false,
    }
}
fn same_e(f: &Event, e: &Entry) -> bool {
    match e {
        Entry::E { name, i, anonymous } => {
            f.name == cutname(name)
                && f.anonymous == *anonymous
                && f.inputs.len() == i.len()
                && f.inputs.iter().zip(i).all(|(p, (n, t, x))| p.name == *n && o::peq(&p.kind, t) && p.indexed == *x)
        }
        _ => false,
    }
}
fn c13(r: &mut Rng) -> Result<Info, String> {
    let n = r.below(9);
    let es: Vec<Entry> = (0..n).map(|_| entry(r, &ENAMES)).collect();
    let js: Vec<String> = es.iter().map(|e| entry_json(r, e)).collect();
    let j = format!("[{}]", js.join(","));
    input(j.clone());
    let c = match Contract::load(j.as_bytes()) {
        Ok(c) => c,
        Err(e) => return bad(format!("not loaded: {:?}", e)),
    };
    let fs: Vec<(String, &Entry)> = es.iter().filter_map(|e| if let Entry::F { name, .. } = e { Some((cutname(name), e)) } else { None }).collect();
    let vs: Vec<(String, &Entry)> = es.iter().filter_map(|e| if let Entry::E { name, .. } = e { Some((cutname(name), e)) } else { None }).collect();
    need!(c.fallback == es.iter().any(|e| matches!(e, Entry::Fallback)), "fallback is {}", c.fallback);
    need!(c.receive == es.iter().any(|e| matches!(e, Entry::Receive)), "receive is {}", c.receive);
    let last_c = es.iter().rev().find_map(|e| if let Entry::C(i) = e { Some(i) } else { None });
    match (c.constructor(), last_c) {
        (None, None) => {}
        (Some(x), Some(i)) => need!(same_params(&x.inputs, i), "constructor is {:?}", x),
        (x, _) => return bad(format!("constructor is {:?}", x)),
    }
    for name in ["foo", "bar", "baz", "", "ünï", "foo(", "foo(uint256)", "nope", "(x)", "FOO"] {
        let want: Vec<&Entry> = fs.iter().filter(|x| x.0 == name).map(|x| x.1).collect();
        match c.functions_by_name(name) {
            Ok(v) => need!(!want.is_empty() && v.len() == want.len() && v.iter().zip(&want).all(|(f, e)| same_f(f, e)), "functions_by_name({:?}) gives {:?}", name, v),
            Err(Error::InvalidName(m)) => need!(want.is_empty() && m == name, "functions_by_name({:?}) fails naming {:?}", name, m),
            Err(e) => return bad(format!("functions_by_name({:?}) fails with {:?}", name, e)),
        }
        match c.function(name) {
            Ok(f) => need!(!want.is_empty() && same_f(f, want[0]), "function({:?}) gives {:?}", name, f),
            Err(Error::InvalidName(m)) => need!(want.is_empty() && m == name, "function({:?}) fails naming {:?}", name, m),
            Err(e) => return bad(format!("function({:?}) fails with {:?}", name, e)),
        }
        let want: Vec<&Entry> = vs.iter().filter(|x| x.0 == name).map(|x| x.1).collect();
        match c.events_by_name(name) {
            Ok(v) => need!(!want.is_empty() && v.len() == want.len() && v.iter().zip(&want).all(|(f, e)| same_e(f, e)), "events_by_name({:?}) gives {:?}", name, v),
            Err(Error::InvalidName(m)) => need!(want.is_empty() && m == name, "events_by_name({:?}) fails naming {:?}", name, m),
            Err(e) => return bad(format!("events_by_name({:?}) fails with {:?}", name, e)),
        }
        match c.event(name) {
            Ok(f) => need!(!want.is_empty() && same_e(f, want[0]), "event({:?}) gives {:?}", name, f),
            Err(Error::InvalidName(m)) => need!(want.is_empty() && m == name, "event({:?}) fails naming {:?}", name, m),
            Err(e) => return bad(format!("event({:?}) fails with {:?}", name, e)),
        }
    }
    // iteration: a bijection
    let mut left: Vec<&Entry> = fs.iter().map(|x| x.1).collect();
    for f in c.functions() {
        match left.iter().position(|e| same_f(f, e)) {
            Some(k) => {
                left.remove(k);
            }
            None => return bad(format!("functions() yields {:?} once too often", f)),
        }
    }
    need!(left.is_empty(), "functions() misses {} functions", left.len());
    let mut left: Vec<&Entry> = vs.iter().map(|x| x.1).collect();
    for f in c.events() {
        match left.iter().position(|e| same_e(f, e)) {
            Some(k) => {
                left.remove(k);
            }
            None => return bad(format!("events() yields {:?} once too often", f)),
        }
    }
    need!(left.is_empty(), "events() misses {} events", left.len());
    // written and loaded again
    let w = match serde_json::to_string(&c) {
        Ok(w) => w,
        Err(e) => return bad(format!("not written: {:?}", e)),
    };
    match Contract::load(w.as_bytes()) {
        Ok(d) => need!(c == d, "written as {} and loaded again it is another contract", w),
        Err(e) => return bad(format!("written as {} it is not loaded: {:?}", w, e)),
    }
    ok(!es.is_empty())
}

// ---- command line ----
fn cli(args: &[String]) -> Option<String> {
    let exe = std::env::var("ETHABI_CLI").expect("ETHABI_CLI");
    let out = std::process::Command::new(exe).args(args).stdin(std::process::Stdio::null()).output().expect("run the command line tool");
    if out.status.success() {
        Some(String::from_utf8_lossy(&out.stdout).to_string())
    } else {
        None
    }
}
fn plain_text(r: &mut Rng, t: &ParamType, lenient: bool) -> String {
    match t {
        ParamType::String => r.pick(&["a", "hello", "é", "x y", "日本"]).to_string(),
        ParamType::Int(_) => {
            if lenient {
                format!("{}", r.next() >> 2)
            } else {
                o::hex(&r.bytes(32))
            }
        }
        ParamType::Array(p) => {
            let n = r.below(4);
            format!("[{}]", (0..n).map(|_| plain_text(r, p, lenient)).collect::<Vec<_>>().join(","))
        }
        ParamType::FixedArray(p, n) => format!("[{}]", (0..*n).map(|_| plain_text(r, p, lenient)).collect::<Vec<_>>().join(",")),
        ParamType::Tuple(v) => format!("({})", v.iter().map(|p| plain_text(r, p, lenient)).collect::<Vec<_>>().join(",")),
        ParamType::Bytes => {
            let n = 1 + r.below(5);
            o::hex(&r.bytes(n))
        }
        _ => good_text(r, t, lenient),
    }
}
fn sig_of(e: &Entry) -> String {
    match e {
        Entry::F { name, i, o: out, .. } => {
            let a = format!("{}{}", cutname(name), types_text(&i.iter().map(|x| x.1.clone()).collect::<Vec<_>>()));
            if out.is_empty() {
                a
            } else {
                format!("{}:{}", a, types_text(&out.iter().map(|x| x.1.clone()).collect::<Vec<_>>()))
            }
        }
        Entry::E { name, i, .. } => format!("{}{}", cutname(name), types_text(&i.iter().map(|x| x.1.clone()).collect::<Vec<_>>())),
        _ => String::new(),
    }
}
fn small_numbers(r: &mut Rng, t: &mut Token) {
    match t {
        Token::Int(x) | Token::Uint(x) => *x = r.below(3).into(),
        Token::Array(v) | Token::FixedArray(v) | Token::Tuple(v) => v.iter_mut().for_each(|t| small_numbers(r, t)),
        _ => {}
    }
}
fn c16(r: &mut Rng, idx: u64) -> Result<Info, String> {
    let dir = std::env::var("HARNESS_TMP").expect("HARNESS_TMP");
    let lenient = r.chance(1, 2);
    let s = |x: &str| x.to_string();
    // values as they are shown
    for _ in 0..40 {
        let d = r.below(4);
        let t = gen::ty(r, d, true);
        let mut v = gen::tok(r, &t, true);
        if r.chance(1, 2) {
            small_numbers(r, &mut v);
        }
        input(format!("{:?}", v));
        need!(v.to_string() == o::show(&v), "shown as {:?} instead of {:?}", v.to_string(), o::show(&v));
    }
    match r.below(8) {
        0 => {
            // encode params
            let n = 1 + r.below(4);
            let ts: Vec<ParamType> = (0..n)
                .map(|_| {
                    let d = r.below(3);
                    gen::ty(r, d, false)
                })
                .collect();
            let vals: Vec<String> = ts.iter().map(|t| if lenient && matches!(t, ParamType::Int(_)) && r.chance(1, 2) { format!("-{}", r.below(1000)) } else { plain_text(r, t, lenient) }).collect();
            let mut a = vec![s("encode"), s("params")];
            for (t, v) in ts.iter().zip(&vals) {
                a.extend([s("-v"), o::write(t), v.clone()]);
            }
            if lenient {
                a.push(s("--lenient"));
            }
            input(format!("{:?}", a));
            let toks: Option<Vec<Token>> = ts.iter().zip(&vals).map(|(t, v)| o::tokenize(t, v, lenient).unwrap()).collect();
            let want = toks.map(|t| format!("{}\n", o::hex(&o::list(&t))));
            let got = cli(&a);
            need!(got == want, "printed {:?} instead of {:?}", got, want);
        }
        1 => {
            // decode params
            let n = 1 + r.below(4);
            let ts: Vec<ParamType> = (0..n)
                .map(|_| {
                    let d = r.below(3);
                    gen::ty(r, d, false)
                })
                .collect();
            let mut d = data_for(r, &ts);
            d.truncate(5000);
            if d.is_empty() {
                d.push(0)
            }
            let mut a = vec![s("decode"), s("params")];
            for t in &ts {
                a.extend([s("-t"), o::write(t)]);
            }
            a.push(o::hex(&d));
            input(format!("{:?}", a));
            let want = o::dec_list(&ts, &d).map(|v| {
                let l: Vec<String> = ts.iter().zip(&v).map(|(t, v)| format!("{} {}", o::write(t), o::show(v))).collect();
                format!("{}\n", l.join("\n"))
            });
            let got = cli(&a);
            need!(got == want, "printed {:?} instead of {:?}", got, want);
        }
        k => {
            const N: [&str; 4] = ["foo", "bar", "foo", "baz"];
            let n = 1 + r.below(6);
            let mut es: Vec<Entry> = (0..n).map(|_| entry(r, &N)).collect();
            if r.chance(1, 3) {
                // an overload of a function with the same inputs and other outputs
                if let Some(Entry::F { name, i, .. }) = es.iter().find(|e| matches!(e, Entry::F { .. })) {
                    let e = Entry::F { name: name.clone(), i: i.clone(), o: gen_params(r), m: None };
                    es.push(e);
                }
            }
            let js: Vec<String> = es.iter().map(|e| entry_json(r, e)).collect();
            let j = format!("[{}]", js.join(","));
            let path = format!("{}/{}.json", dir, idx);
            std::fs::write(&path, &j).unwrap();
            let events = k >= 6;
            let all: Vec<&Entry> = es.iter().filter(|e| if events { matches!(e, Entry::E { .. }) } else { matches!(e, Entry::F { .. }) }).collect();
            let nm = |e: &Entry| match e {
                Entry::F { name, .. } | Entry::E { name, .. } => cutname(name),
                _ => String::new(),
            };
            let asked = if !all.is_empty() && r.chance(2, 3) {
                let sig = sig_of(all[r.below(all.len())]);
                if r.chance(1, 8) {
                    format!("{}x", sig)
                } else if events && r.chance(1, 4) {
                    sig.replace(',', ", ")
                } else {
                    sig
                }
            } else {
                r.pick(&["foo", "bar", "baz", "nope", "foo()", "foo(uint256)", "nope()"]).to_string()
            };
            let chosen: Option<&Entry> = if asked.contains('(') {
                let a = if events { asked.replace(' ', "") } else { asked.clone() };
                all.iter().find(|e| sig_of(e) == a).copied()
            } else {
                let v: Vec<&&Entry> = all.iter().filter(|e| nm(e) == asked).collect();
                if v.len() == 1 {
                    Some(v[0])
                } else {
                    None
                }
            };
            let res = (|| -> Result<(), String> {
                if events {
                    let mut topics: Vec<[u8; 32]> = vec![];
                    let mut toks = vec![];
                    let model = chosen.or(all.first().copied());
                    if let Some(Entry::E { i, anonymous, .. }) = model {
                        if !anonymous {
                            topics.push(o::keccak(sig_of(model.unwrap()).as_bytes()));
                        }
                        for (_, t, x) in i {
                            let v = gen::tok(r, t, false);
                            if *x {
                                topics.push(o::topic(&v))
                            } else {
                                toks.push(v)
                            }
                        }
                    }
                    let mut wrong = false;
                    if r.chance(1, 10) {
                        wrong = true;
                        if topics.is_empty() || r.chance(1, 2) {
                            topics.push([7; 32]);
                        } else {
                            topics.pop();
                        }
                    }
                    let mut d = o::list(&toks);
                    d.truncate(20000);
                    let mut a = vec![s("decode"), s("log"), path.clone(), asked.clone()];
                    for t in &topics {
                        a.extend([s("-l"), o::hex(t)]);
                    }
                    if d.is_empty() {
                        d.extend([0; 32]);
                    }
                    a.push(o::hex(&d));
                    input(format!("abi {} args {:?}", j, a));
                    let want = match chosen {
                        Some(Entry::E { i, anonymous, .. }) if !wrong => {
                            let mut k = if *anonymous { 0 } else { 1 };
                            let dt: Vec<ParamType> = i.iter().filter(|x| !x.2).map(|x| x.1.clone()).collect();
                            o::dec_list(&dt, &d).map(|v| {
                                let mut v = v.into_iter();
                                let mut l = vec![];
                                for (n, t, x) in i {
                                    let val = if *x {
                                        let w = topics[k];
                                        k += 1;
                                        if value_type(t) {
                                            o::dec(t, &w, 0).unwrap().0
                                        } else {
                                            Token::FixedBytes(w.to_vec())
                                        }
                                    } else {
                                        v.next().unwrap()
                                    };
                                    l.push(format!("{} {}", n, o::show(&val)));
                                }
                                format!("{}\n", l.join("\n"))
                            })
                        }
                        _ => None,
                    };
                    let got = cli(&a);
                    need!(got == want, "printed {:?} instead of {:?}", got, want);
                } else if k < 4 {
                    let mut vals = vec![];
                    let mut want = None;
                    if let Some(Entry::F { i, .. }) = chosen.or(all.first().copied()) {
                        for (_, t) in i {
                            vals.push(plain_text(r, t, lenient));
                        }
                        if r.chance(1, 10) {
                            vals.pop();
                        }
                        if chosen.is_some() && vals.len() == i.len() {
                            let toks: Option<Vec<Token>> = i.iter().zip(&vals).map(|((_, t), v)| o::tokenize(t, v, lenient).unwrap()).collect();
                            let sel = sig_of(chosen.unwrap());
                            let sel = sel.split(':').next().unwrap();
                            want = toks.map(|t| format!("{}{}\n", o::hex(&o::keccak(sel.as_bytes())[..4]), o::hex(&o::list(&t))));
                        }
                    }
                    let mut a = vec![s("encode"), s("function"), path.clone(), asked.clone()];
                    for v in &vals {
                        a.extend([s("-p"), v.clone()]);
                    }
                    if lenient {
                        a.push(s("--lenient"));
                    }
                    input(format!("abi {} args {:?}", j, a));
                    let got = cli(&a);
                    need!(got == want, "printed {:?} instead of {:?}", got, want);
                } else {
                    let model = chosen.or(all.first().copied());
                    let ts: Vec<ParamType> = match model {
                        Some(Entry::F { o, .. }) => o.iter().map(|x| x.1.clone()).collect(),
                        _ => vec![],
                    };
                    let mut d = data_for(r, &ts);
                    d.truncate(20000);
                    if d.is_empty() {
                        d.push(0)
                    }
                    let a = vec![s("decode"), s("function"), path.clone(), asked.clone(), o::hex(&d)];
                    input(format!("abi {} args {:?}", j, a));
                    let want = if chosen.is_some() {
                        o::dec_list(&ts, &d).map(|v| {
                            let l: Vec<String> = ts.iter().zip(&v).map(|(t, v)| format!("{} {}", o::write(t), o::show(v))).collect();
                            format!("{}\n", l.join("\n"))
                        })
                    } else {
                        None
                    };
                    let got = cli(&a);
                    need!(got == want, "printed {:?} instead of {:?}", got, want);
                }
                Ok(())
            })();
            let _ = std::fs::remove_file(&path);
            res?;
        }
    }
    ok(true)
}
