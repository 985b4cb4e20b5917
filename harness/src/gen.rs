//! Deterministic generation of types, values and byte strings.
use ethabi::{ParamType, Token};

pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, idx: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ idx.wrapping_mul(0xD1B54A32D192ED03) ^ 0x1234_5678_9abc_def1);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn byte(&mut self) -> u8 {
        match self.below(8) {
            0 => 0,
            1 => 0xff,
            2 => 1,
            3 => 0x80,
            _ => self.next() as u8,
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        match self.below(12) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            _ => (0..n).map(|_| self.byte()).collect(),
        }
    }
    pub fn word(&mut self) -> [u8; 32] {
        let mut w = [0u8; 32];
        match self.below(6) {
            0 => {}
            1 => w = [0xff; 32],
            2 => w[31] = self.byte(),
            3 => {
                let k = self.below(256);
                w[31 - k / 8] = 1 << (k % 8);
                if self.chance(1, 2) {
                    // 2^k - 1
                    w = [0; 32];
                    for j in 0..k {
                        w[31 - j / 8] |= 1 << (j % 8);
                    }
                }
            }
            _ => {
                let b = self.bytes(32);
                w.copy_from_slice(&b)
            }
        }
        w
    }
}

pub const LENS: [usize; 22] = [0, 1, 2, 4, 5, 20, 31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 255, 256, 257, 300];

pub fn len(r: &mut Rng) -> usize {
    match r.below(60) {
        0 => *r.pick(&[511, 512, 513, 1000, 4095, 4096, 8191, 65535, 65536, 65537]),
        1..=20 => r.below(8),
        _ => *r.pick(&LENS),
    }
}

/// valid Solidity types, `loose` also allows odd sizes, empty tuples, zero-length fixed arrays
pub fn ty(r: &mut Rng, depth: usize, loose: bool) -> ParamType {
    let k = if depth == 0 { r.below(9) } else { r.below(15) };
    match k {
        0 => ParamType::Address,
        1 => ParamType::Bytes,
        2 => ParamType::Int(size(r, loose)),
        3 => ParamType::Uint(size(r, loose)),
        4 => ParamType::Bool,
        5 => ParamType::String,
        6 | 7 => ParamType::FixedBytes(fsize(r, loose)),
        8 => {
            if r.chance(1, 2) {
                ParamType::Bytes
            } else {
                ParamType::String
            }
        }
        9 | 10 => ParamType::Array(Box::new(ty(r, depth - 1, loose))),
        11 | 12 => {
            if r.chance(1, 24) {
                let n = 5 + r.below(66);
                return ParamType::FixedArray(Box::new(ty(r, 0, loose)), n);
            }
            let n = if loose && r.chance(1, 6) { 0 } else { 1 + r.below(4) };
            ParamType::FixedArray(Box::new(ty(r, depth - 1, loose)), n)
        }
        _ => {
            if r.chance(1, 24) {
                let n = 5 + r.below(30);
                return ParamType::Tuple((0..n).map(|_| ty(r, 0, loose)).collect());
            }
            let n = if loose && r.chance(1, 10) { 0 } else { 1 + r.below(4) };
            ParamType::Tuple((0..n).map(|_| ty(r, depth - 1, loose)).collect())
        }
    }
}
/// many levels around a small type
pub fn deep(r: &mut Rng, loose: bool) -> ParamType {
    let mut t = ty(r, 0, loose);
    for _ in 0..5 + r.below(10) {
        t = match r.below(4) {
            0 => ParamType::Array(Box::new(t)),
            1 => ParamType::FixedArray(Box::new(t), 1),
            2 => ParamType::Tuple(vec![t]),
            _ => {
                if r.chance(1, 2) {
                    ParamType::Tuple(vec![ParamType::Bool, t])
                } else {
                    ParamType::Tuple(vec![t, ParamType::Bytes])
                }
            }
        };
    }
    t
}
fn size(r: &mut Rng, loose: bool) -> usize {
    if loose && r.chance(1, 8) {
        *r.pick(&[0, 1, 7, 257, 10000, usize::MAX])
    } else {
        match r.below(4) {
            0 => 256,
            1 => 8,
            _ => 8 * (1 + r.below(32)),
        }
    }
}
fn fsize(r: &mut Rng, loose: bool) -> usize {
    if loose && r.chance(1, 6) {
        *r.pick(&[0, 33, 40, 64, 100])
    } else {
        match r.below(5) {
            0 => 32,
            1 => 31,
            2 => 1,
            _ => 1 + r.below(32),
        }
    }
}
pub fn tys(r: &mut Rng, loose: bool) -> Vec<ParamType> {
    let n = match r.below(8) {
        0 => 0,
        1 | 2 => 1,
        3 => 5 + r.below(4),
        _ => 1 + r.below(4),
    };
    if r.chance(1, 150) {
        return vec![deep(r, loose)];
    }
    if r.chance(1, 150) {
        let n = 9 + r.below(60);
        return (0..n).map(|_| ty(r, 0, loose)).collect();
    }
    let d = r.below(4);
    (0..n).map(|_| ty(r, d, loose)).collect()
}

pub const STRS: [&str; 20] = ["a\r\nb", "it's", "a;b", "C:\\x", "\u{feff}a", " x ", "0x00", "A\tb\u{301}", "", "a", "gavofyork", "hello, world", "äöü", "日本語", "𝄞𝄞", "\u{0}", "(x)", "[1]", "\"q\"", "\u{fffd}"];
pub fn string(r: &mut Rng) -> String {
    if r.chance(1, 2) {
        r.pick(&STRS).to_string()
    } else {
        let n = len(r);
        let uni = r.chance(1, 3);
        let mut s = String::new();
        while s.len() < n {
            if uni && r.chance(1, 4) {
                s.push(*r.pick(&['ß', '€', '𐍈', '\u{7ff}', '\u{800}']));
            } else {
                s.push((32 + r.below(95) as u8) as char);
            }
        }
        s
    }
}

/// a value of exactly the type
pub fn tok(r: &mut Rng, t: &ParamType, short_fixed: bool) -> Token {
    match t {
        ParamType::Address => {
            let mut a = [0u8; 20];
            a.copy_from_slice(&r.bytes(20));
            Token::Address(a.into())
        }
        ParamType::Bytes => {
            let n = len(r);
            Token::Bytes(r.bytes(n))
        }
        ParamType::Int(_) => Token::Int(r.word().into()),
        ParamType::Uint(_) => Token::Uint(r.word().into()),
        ParamType::Bool => Token::Bool(r.chance(1, 2)),
        ParamType::String => Token::String(string(r)),
        ParamType::FixedBytes(n) => {
            let k = if short_fixed && r.chance(1, 3) { r.below(*n + 1) } else { *n };
            Token::FixedBytes(r.bytes(k))
        }
        ParamType::Array(p) => {
            let n = match r.below(12) {
                0 => 0,
                1 => *r.pick(&[31, 32, 33, 255, 256, 257, 300]),
                _ => r.below(4),
            };
            let small = matches!(**p, ParamType::Address | ParamType::Bool | ParamType::Int(_) | ParamType::Uint(_) | ParamType::FixedBytes(_));
            let n = if small { n } else { n.min(4) };
            Token::Array((0..n).map(|_| tok(r, p, short_fixed)).collect())
        }
        ParamType::FixedArray(p, n) => Token::FixedArray((0..*n).map(|_| tok(r, p, short_fixed)).collect()),
        ParamType::Tuple(ps) => Token::Tuple(ps.iter().map(|p| tok(r, p, short_fixed)).collect()),
    }
}

/// a value near the type: sometimes of it, sometimes not
pub fn near(r: &mut Rng, t: &ParamType) -> Token {
    if r.chance(1, 12) {
        return any(r, 2);
    }
    match t {
        ParamType::FixedBytes(n) => {
            let k = *r.pick(&[*n, n + 1, n.saturating_sub(1), 0, 32, 33]);
            Token::FixedBytes(r.bytes(k))
        }
        ParamType::Array(p) => {
            let n = r.below(4);
            let v: Vec<Token> = (0..n).map(|_| near(r, p)).collect();
            if r.chance(1, 8) {
                Token::FixedArray(v)
            } else {
                Token::Array(v)
            }
        }
        ParamType::FixedArray(p, n) => {
            let k = if r.chance(1, 4) { *r.pick(&[n + 1, n.saturating_sub(1), 0]) } else { *n };
            let v: Vec<Token> = (0..k).map(|_| near(r, p)).collect();
            if r.chance(1, 8) {
                Token::Array(v)
            } else {
                Token::FixedArray(v)
            }
        }
        ParamType::Tuple(ps) => {
            let mut v: Vec<Token> = ps.iter().map(|p| near(r, p)).collect();
            match r.below(8) {
                0 => {
                    v.pop();
                }
                1 => v.push(any(r, 1)),
                2 => v.reverse(),
                3 => {
                    if !v.is_empty() {
                        v.remove(0);
                    }
                }
                _ => {}
            }
            Token::Tuple(v)
        }
        ParamType::Int(_) if r.chance(1, 6) => Token::Uint(r.word().into()),
        ParamType::Uint(_) if r.chance(1, 6) => Token::Int(r.word().into()),
        ParamType::Bytes if r.chance(1, 6) => {
            if r.chance(1, 2) {
                Token::String("x".into())
            } else {
                Token::FixedBytes(vec![1])
            }
        }
        ParamType::String if r.chance(1, 6) => Token::Bytes(vec![65]),
        _ => tok(r, t, true),
    }
}

/// any value at all, of no type in particular
pub fn any(r: &mut Rng, depth: usize) -> Token {
    let k = if depth == 0 { r.below(8) } else { r.below(14) };
    match k {
        0 => tok(r, &ParamType::Address, false),
        1 => tok(r, &ParamType::Bytes, false),
        2 => tok(r, &ParamType::Int(256), false),
        3 => tok(r, &ParamType::Uint(256), false),
        4 => tok(r, &ParamType::Bool, false),
        5 => tok(r, &ParamType::String, false),
        6 | 7 => {
            let n = if r.chance(1, 4) { *r.pick(&LENS) } else { r.below(33) };
            Token::FixedBytes(r.bytes(n))
        }
        8 | 9 => {
            let n = r.below(4);
            Token::Array((0..n).map(|_| any(r, depth - 1)).collect())
        }
        10 | 11 => {
            let n = r.below(4);
            Token::FixedArray((0..n).map(|_| any(r, depth - 1)).collect())
        }
        _ => {
            let n = r.below(4);
            Token::Tuple((0..n).map(|_| any(r, depth - 1)).collect())
        }
    }
}

/// damages an encoding
pub fn mutate(r: &mut Rng, d: &mut Vec<u8>) {
    let n = d.len();
    match r.below(12) {
        0 if n > 0 => {
            let k = r.below(n + 1);
            d.truncate(k)
        }
        1 if n > 0 => {
            let k = r.below(n);
            d[k] = r.byte()
        }
        2 => {
            let k = r.below(70);
            let b = r.bytes(k);
            d.extend(b)
        }
        3 if n > 0 => {
            d.pop();
        }
        4 if n >= 32 => d.truncate(n - n % 32 - 32),
        5 if n > 0 => {
            d.drain(..r.below(n.min(64)) + 1);
        }
        _ if n >= 32 => {
            let w = r.below(n / 32);
            let v = bound_word(r, n);
            d[w * 32..w * 32 + 32].copy_from_slice(&v)
        }
        _ => {}
    }
}
/// numbers around every limit a length or offset can meet
pub fn bound_word(r: &mut Rng, n: usize) -> [u8; 32] {
    let mut w = [0u8; 32];
    let v: u64 = match r.below(26) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 31,
        4 => 32,
        5 => 33,
        6 => 64,
        7 => n as u64,
        8 => (n as u64).saturating_sub(1),
        9 => n as u64 + 1,
        10 => (n as u64).saturating_sub(31),
        11 => (n as u64).saturating_sub(32),
        12 => (n as u64).saturating_sub(33),
        13 => u32::MAX as u64,
        14 => 1 << 32,
        15 => (1 << 32) - 32,
        16 => u64::MAX,
        17 => u64::MAX - 31,
        18 => 1 << 63,
        19 => i64::MAX as u64,
        20 => 1 << 31,
        21 => 0x0100_0000,
        22 => {
            w = [0xff; 32];
            return w;
        }
        23 => {
            w[r.below(24)] = 1;
            r.below(n + 1) as u64
        }
        24 => 32 * r.below(n / 32 + 2) as u64,
        _ => r.below(n + 40) as u64,
    };
    w[24..].copy_from_slice(&v.to_be_bytes());
    w
}

/// no array whose elements take no room
pub fn sized(t: &ParamType) -> bool {
    match t {
        ParamType::Array(p) => !zero(p) && sized(p),
        ParamType::FixedArray(p, _) => sized(p),
        ParamType::Tuple(v) => v.iter().all(sized),
        _ => true,
    }
}
fn zero(t: &ParamType) -> bool {
    match t {
        ParamType::FixedArray(p, n) => !crate::oracle::dynt(p) && (*n == 0 || zero(p)),
        ParamType::Tuple(v) => v.iter().all(zero),
        _ => false,
    }
}
