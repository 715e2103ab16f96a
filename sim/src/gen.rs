//! Generators of what callers do: Clarity values, transactions, typed contract answers, and the
//! two-way bridge between the reference model's types and the library's.

use crate::choice::Choices;
use crate::refimpl as rf;
use crate::refimpl::{Asset, Payload, Pc, Tx, Who, V};
use stacks_rs::clarity as lc;
use stacks_rs::clarity::{Cast, Clarity};
use stacks_rs::crypto::c32::Mode;
use stacks_rs::transaction as lt;
use stacks_rs::{PublicKey, SecretKey};
use std::str::FromStr;

pub const VERS: [u8; 4] = [22, 26, 20, 21];

pub fn hash20(ch: &mut Choices) -> [u8; 20] {
    let mut h: [u8; 20] = ch.bytes(20).try_into().unwrap();
    match ch.draw(16) {
        // the ends of the range, and zeros where an encoding may lose them
        13 => {
            let n = 1 + ch.below(20);
            h[..n].fill(0);
        }
        14 => {
            let n = 1 + ch.below(20);
            h[20 - n..].fill(0);
        }
        15 => h.fill([0xff, 0x00][ch.below(2)]),
        _ => {}
    }
    h
}

pub fn principal(ch: &mut Choices) -> (u8, [u8; 20]) {
    (*ch.pick(&VERS), hash20(ch))
}

fn text(ch: &mut Choices, n: usize, alphabet: &[u8]) -> String {
    let mut p = ch.sub();
    (0..n).map(|_| alphabet[(p.next() % alphabet.len() as u64) as usize] as char).collect()
}

/// A length with weight on the ends of 0..=max.
pub fn size(ch: &mut Choices, max: usize) -> usize {
    match ch.draw(10) {
        0 => 0.min(max),
        1 => 1.min(max),
        2 => max,
        3 => max.saturating_sub(1),
        4 | 5 => ch.below(max + 1),
        _ => ch.below(max.min(16) + 1),
    }
}

pub fn contract_name(ch: &mut Choices) -> String {
    match ch.draw(8) {
        0 => "pool".into(),
        1 => text(ch, 128, b"abcdefghijklmnopqrstuvwxyz-"),
        2 => "a".into(),
        3 => text(ch, 127, b"abcABC-_09"),
        4 => text(ch, 40, b"abcABC-_09"),
        _ => {
            let n = 1 + ch.below(30);
            text(ch, n, b"abcdefghijABCDEFGHIJ0123456789-_")
        }
    }
}

pub fn fn_name(ch: &mut Choices) -> String {
    match ch.draw(9) {
        0 => "get-info".into(),
        1 => text(ch, 128, b"abcdefghijklmnopqrstuvwxyz-!?"),
        2 => "is-ok?".into(),
        3 => "a/b".into(),
        4 => "set-it!".into(),
        5 => "<=+>*".into(),
        _ => {
            let n = 1 + ch.below(40);
            text(ch, n, b"abcXYZ019-!?+<>=/*_")
        }
    }
}

pub fn uni(ch: &mut Choices, n: usize) -> String {
    // Characters a codec is tempted to treat specially: a byte order mark, combining marks,
    // spaces of every kind, line and paragraph separators, the replacement character, the ends
    // of every UTF-8 length class, escapes.
    let pool = [
        'a', 'Z', '0', ' ', '"', '\\', '\n', '\u{0}', 'é', 'ß', '漢', '🦀', '\u{7f}', '\u{10ffff}', '\u{feff}', '\r', '\t', '\u{a0}', '\u{301}', '\u{200d}',
        '\u{2028}', '\u{3000}', '\u{fffd}', '\u{fffe}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{130}', '\u{1f}',
    ];
    let mut p = ch.sub();
    (0..n).map(|_| pool[(p.next() % pool.len() as u64) as usize]).collect()
}

pub fn ascii(ch: &mut Choices, n: usize) -> String {
    let mut p = ch.sub();
    (0..n).map(|_| (p.next() % 128) as u8 as char).collect()
}

fn int(ch: &mut Choices) -> u128 {
    match ch.draw(8) {
        0 => 0,
        1 => 1,
        2 => u128::MAX,
        3 => 1 << 127,
        4 => (1 << 127) - 1,
        5 => u128::from(u64::MAX) + 1,
        _ => {
            let mut p = ch.sub();
            let x = (u128::from(p.next()) << 64) | u128::from(p.next());
            x >> (p.next() % 128)
        }
    }
}

pub fn amount(ch: &mut Choices) -> u64 {
    match ch.draw(8) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => 1 << 63,
        4 => u64::from(u32::MAX) + 1,
        _ => {
            let mut p = ch.sub();
            let s = p.next() % 64;
            p.next() >> s
        }
    }
}

/// Lengths that do not fit into one or two bytes.
fn huge(ch: &mut Choices) -> V {
    match ch.draw(5) {
        0 => V::Buf(ch.bytes(65_536 + 300)),
        1 => V::Ascii(ascii(ch, 65_536 + 7)),
        2 => V::Utf8(uni(ch, 33_000)),
        3 => {
            let v = [V::None, V::Bool(true)][ch.below(2)].clone();
            V::List(vec![v; 65_536 + 2])
        }
        _ => tuple_of(ch, 300),
    }
}

/// As large as the network lets a value be, or nearly.
pub fn colossal(ch: &mut Choices) -> V {
    let n = [200_000, 600_000, 1_048_000, 1 << 20][ch.below(4)];
    match ch.draw(4) {
        0 => V::Buf(ch.bytes(n)),
        1 => V::Ascii(ascii(ch, n)),
        2 => {
            let v = V::UInt(int(ch));
            V::List(vec![v; n / 17])
        }
        _ => {
            let b = V::Buf(ch.bytes(n / 8));
            V::Tuple((0..8).map(|i| (format!("part-{i}"), b.clone())).collect())
        }
    }
}

fn tuple_of(ch: &mut Choices, n: usize) -> V {
    let v = value(ch, 0, false);
    V::Tuple((0..n).map(|i| (format!("key{i}"), v.clone())).collect())
}

pub fn value(ch: &mut Choices, depth: usize, big: bool) -> V {
    if big && ch.chance(1, 24) {
        return huge(ch);
    }
    let k = if depth == 0 { ch.draw(10) } else { ch.draw(16) };
    match k {
        0 => V::UInt(int(ch)),
        1 => V::Int(int(ch) as i128),
        2 => V::Bool(true),
        3 => V::Bool(false),
        4 => V::None,
        5 => {
            let n = size(ch, if big { 5000 } else { 300 });
            V::Buf(ch.bytes(n))
        }
        6 => {
            let (v, h) = principal(ch);
            V::Std(v, h)
        }
        7 => {
            let (v, h) = principal(ch);
            V::Con(v, h, contract_name(ch))
        }
        8 => {
            let n = size(ch, if big { 2000 } else { 200 });
            V::Ascii(ascii(ch, n))
        }
        9 => {
            let n = size(ch, if big { 1000 } else { 100 });
            V::Utf8(uni(ch, n))
        }
        10 => V::Ok(Box::new(value(ch, depth - 1, false))),
        11 => V::Err(Box::new(value(ch, depth - 1, false))),
        12 => V::Some(Box::new(value(ch, depth - 1, false))),
        13 => {
            let n = if big && ch.chance(1, 8) { 300 } else { ch.below(5) };
            if n == 300 {
                let v = value(ch, 0, false);
                return V::List(vec![v; 300]);
            }
            if ch.chance(1, 10) {
                let n = 6 + ch.below(40);
                return V::List((0..n).map(|_| value(ch, 0, false)).collect());
            }
            V::List((0..n).map(|_| value(ch, depth - 1, false)).collect())
        }
        14 => {
            if ch.chance(1, 10) {
                let n = 6 + ch.below(30);
                return tuple(ch, n, 1);
            }
            let n = ch.below(5);
            tuple(ch, n, depth)
        }
        _ => {
            // a narrow, deep one
            let n = ch.below(if depth >= 3 { 40 } else { 4 });
            let mut v = value(ch, 0, false);
            let kinds = ch.sub().next();
            for i in 0..n {
                v = match (kinds >> (i % 16 * 4)) & 7 {
                    0 => V::Ok(Box::new(v)),
                    1 => V::Err(Box::new(v)),
                    2 => V::List(vec![V::None, v]),
                    3 => V::Tuple(vec![("k".into(), v)]),
                    _ => V::Some(Box::new(v)),
                };
            }
            v
        }
    }
}

fn tuple(ch: &mut Choices, n: usize, depth: usize) -> V {
    let mut t: Vec<(String, V)> = Vec::new();
    for i in 0..n {
        let mut k = match ch.draw(5) {
            0 => format!("key-{i}"),
            1 => text(ch, 128, b"abcdefghij"),
            2 => text(ch, 1, b"abcdefghij"),
            _ => contract_name(ch),
        };
        while t.iter().any(|x| x.0 == k) {
            k = format!("k{i}{}", &k[..k.len().min(60)]);
        }
        let v = value(ch, depth.saturating_sub(1), false);
        t.push((k, v));
    }
    V::Tuple(t)
}

// ------------------------------------------------------------------ bridge

/// The version that stands for "an address text that is not an address".
pub const BAD_VER: u8 = 0xee;

thread_local! {
    static BAD_TEXT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn addr_text(v: u8, h: &[u8; 20]) -> String {
    if v == BAD_VER {
        BAD_TEXT.with(|t| t.borrow().clone())
    } else {
        rf::c32_address(v, h)
    }
}

/// An address text with a bad checksum, alphabet, prefix or length.
pub fn bad_address(ch: &mut Choices) -> String {
    let (v, h) = principal(ch);
    let good = rf::c32_address(v, &h);
    let n = good.len();
    let junk = |ch: &mut Choices| {
        ch.pick(&[" ", "-", "\n", "\t", "\0", "\r\n", ".", ".pool", "::token", "/", "0", "00", "S", "'", "\u{200b}", "\u{ff33}", "_", "="]).to_string()
    };
    let s = match ch.draw(16) {
        11 => format!("{good}{}", junk(ch)),
        12 => format!("{}{good}", junk(ch)),
        13 => {
            let i = ch.below(n);
            format!("{}{}{}", &good[..i], junk(ch), &good[i..])
        }
        14 => {
            let c = ch.pick(&['s', '5', '$', 'T', 'ſ']);
            format!("{c}{}", &good[1..])
        }
        0 => {
            // one wrong character
            let i = 2 + ch.below(n - 2);
            let c = good.as_bytes()[i];
            let d = if c == b'Z' { 'Y' } else { 'Z' };
            format!("{}{d}{}", &good[..i], &good[i + 1..])
        }
        1 => {
            let i = 2 + ch.below(n - 2);
            format!("{}{}{}", &good[..i], ch.pick(&['U', 'u', '!', ' ', 'é', '-']), &good[i + 1..])
        }
        2 => format!("X{}", &good[1..]),
        3 => good[1..].to_string(),
        4 => good[..n - 1].to_string(),
        5 => format!("{good}0"),
        6 => String::new(),
        7 => format!("S{}", rf::c32check(v, &h[..19])),
        8 => {
            let mut b = h.to_vec();
            b.push(7);
            format!("S{}", rf::c32check(v, &b))
        }
        9 => "S".into(),
        10 => {
            let mut b = h.to_vec();
            b.extend_from_slice(&h);
            format!("S{}", rf::c32check(v, &b))
        }
        _ => {
            // another version under the checksum of this one
            let w = if v == 22 { 26 } else { 22 };
            format!("S{}{}", rf::c32_char(w), &good[2..])
        }
    };
    if rf::c32_address_parse(&s).is_some() {
        return "S".into();
    }
    s
}

static WAYS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// Which of the library's equivalent constructors and readers a run goes through; 0 is always the first.
pub fn set_ways(x: u64) {
    WAYS.store(x, std::sync::atomic::Ordering::Relaxed);
}

fn way(n: u64) -> u64 {
    let x = WAYS.load(std::sync::atomic::Ordering::Relaxed);
    if x == 0 {
        return 0;
    }
    let y = crate::choice::mix(x, 0x3a75) | 1;
    WAYS.store(y, std::sync::atomic::Ordering::Relaxed);
    (y >> 20) % n
}

/// Evaluates `$e` with `$x` bound to the library value for `$v`, with its own type.
macro_rules! concrete {
    ($v:expr, $x:ident => $e:expr) => {
        match $v {
            V::Int(i) => {
                let $x = match way(3) {
                    0 => lc::Int::new(*i),
                    1 => lc::Int::from(*i),
                    _ => stacks_rs::clarity!(Int, *i),
                };
                $e
            }
            V::UInt(i) => {
                let $x = match way(3) {
                    0 => lc::UInt::new(*i),
                    1 => lc::UInt::from(*i),
                    _ => stacks_rs::clarity!(UInt, *i),
                };
                $e
            }
            V::Buf(b) => {
                let $x = match way(4) {
                    0 => lc::Buffer::new(b.clone()),
                    1 => lc::Buffer::from(b.clone()),
                    2 => lc::Buffer::from(&b[..]),
                    _ => stacks_rs::clarity!(Buffer, b),
                };
                $e
            }
            V::Bool(true) => {
                let $x = if way(2) == 0 { lc::True::new() } else { lc::True::default() };
                $e
            }
            V::Bool(false) => {
                let $x = if way(2) == 0 { lc::False::new() } else { stacks_rs::clarity!(False) };
                $e
            }
            V::Std(v, h) => {
                let $x = std_of(*v, h);
                $e
            }
            V::Con(v, h, n) => {
                let $x = con_of(*v, h, n);
                $e
            }
            V::Ok(y) => {
                let $x = lc::ResponseOk::new(to_lib(y));
                $e
            }
            V::Err(y) => {
                let $x = lc::ResponseErr::new(to_lib(y));
                $e
            }
            V::None => {
                let $x = lc::OptionalNone::new();
                $e
            }
            V::Some(y) => {
                let $x = lc::OptionalSome::new(to_lib(y));
                $e
            }
            V::List(l) => {
                let $x = lc::List::new(l.iter().map(to_lib).collect());
                $e
            }
            V::Tuple(t) => {
                let $x = lib_tuple(t);
                $e
            }
            V::Ascii(y) => {
                let $x = if way(2) == 0 { lc::StringAscii::new(y.clone()) } else { stacks_rs::clarity!(StringAscii, y) };
                $e
            }
            V::Utf8(y) => {
                let $x = if way(2) == 0 { lc::StringUtf8::new(y.clone()) } else { stacks_rs::clarity!(StringUtf8, y) };
                $e
            }
        }
    };
}

fn lib_tuple(t: &[(String, V)]) -> lc::Tuple {
    let all = || lc::Tuple::new(t.iter().map(|(k, x)| (k.clone(), to_lib(x))).collect());
    match way(5) {
        1 => {
            // one after the other
            let mut l = lc::Tuple::new(vec![]);
            for (k, x) in t {
                concrete!(x, y => l.insert(k.clone(), y));
            }
            l
        }
        2 => {
            // with one too many, taken out again
            let mut l = all();
            let k = "\u{1}not there";
            l.insert(k.to_string(), lc::UInt::new(7));
            l.remove(k);
            l.remove(k);
            l
        }
        3 if !t.is_empty() && t.iter().enumerate().all(|(i, x)| t[..i].iter().all(|y| y.0 != x.0)) => {
            // one of them replaced
            let i = way(t.len() as u64) as usize;
            let mut l = lc::Tuple::new(
                t.iter().enumerate().map(|(j, (k, x))| (k.clone(), if i == j { Box::new(lc::OptionalNone::new()) } else { to_lib(x) })).collect(),
            );
            if let Some(x) = l.get_mut(&t[i].0) {
                *x = to_lib(&t[i].1);
            }
            l
        }
        4 => all().clone(),
        _ => all(),
    }
}

pub fn to_lib(v: &V) -> Box<dyn Clarity> {
    let b: Box<dyn Clarity> = concrete!(v, x => Box::new(x));
    if way(8) == 1 {
        b.clone()
    } else {
        b
    }
}

/// What a caller sees in a library value; None if it holds something no Clarity value holds.
#[allow(clippy::borrowed_box)]
pub fn from_lib(v: &Box<dyn Clarity>) -> Option<V> {
    let sub = |x: &Box<dyn Clarity>| from_lib(x).map(Box::new);
    if let Ok(x) = v.cast_as::<lc::Int>() {
        return Some(V::Int(match way(3) {
            0 => *x.value(),
            1 => i128::from(*x),
            _ => v.clone().cast::<lc::Int>().ok()?.into_value(),
        }));
    }
    if let Ok(x) = v.cast_as::<lc::UInt>() {
        return Some(V::UInt(match way(3) {
            0 => *x.value(),
            1 => u128::from(*x),
            _ => v.clone().cast::<lc::UInt>().ok()?.into_value(),
        }));
    }
    if let Ok(x) = v.cast_as::<lc::Buffer>() {
        return Some(V::Buf(match way(4) {
            0 => x.value().clone(),
            1 => Vec::from(x.clone()),
            2 => x.clone().into_iter().collect(),
            _ => v.clone().cast::<lc::Buffer>().ok()?.into_value(),
        }));
    }
    if let Ok(x) = v.cast_as::<lc::True>() {
        return x.value().then_some(V::Bool(true));
    }
    if let Ok(x) = v.cast_as::<lc::False>() {
        return (!x.value()).then_some(V::Bool(false));
    }
    if let Ok(x) = v.cast_as::<lc::PrincipalStandard>() {
        let (v, h) = rf::c32_address_parse(x.value())?;
        return Some(V::Std(v, h));
    }
    if let Ok(x) = v.cast_as::<lc::PrincipalContract>() {
        let (v, h) = rf::c32_address_parse(&x.value().0)?;
        return Some(V::Con(v, h, x.value().1.clone()));
    }
    if let Ok(x) = v.cast_as::<lc::ResponseOk>() {
        if way(3) == 1 {
            if let Ok(i) = x.cast_as::<lc::UInt>() {
                return Some(V::Ok(Box::new(V::UInt(*i.value()))));
            }
            if let Ok(t) = x.clone().cast::<lc::Tuple>() {
                let t: Box<dyn Clarity> = Box::new(t);
                return Some(V::Ok(sub(&t)?));
            }
        }
        return Some(V::Ok(sub(x.value())?));
    }
    if let Ok(x) = v.cast_as::<lc::ResponseErr>() {
        return Some(V::Err(sub(x.value())?));
    }
    if v.cast_as::<lc::OptionalNone>().is_ok() {
        return Some(V::None);
    }
    if let Ok(x) = v.cast_as::<lc::OptionalSome>() {
        if way(3) == 1 {
            if let Ok(i) = x.cast_as::<lc::Int>() {
                return Some(V::Some(Box::new(V::Int(*i.value()))));
            }
        }
        return Some(V::Some(sub(x.value())?));
    }
    if let Ok(x) = v.cast_as::<lc::List>() {
        if way(3) == 1 {
            return Some(V::List(x.clone().into_iter().map(|y| from_lib(&y)).collect::<Option<_>>()?));
        }
        return Some(V::List(x.value().iter().map(from_lib).collect::<Option<_>>()?));
    }
    if let Ok(x) = v.cast_as::<lc::Tuple>() {
        let mut t = Vec::new();
        match way(4) {
            1 => {
                for (k, y) in x.clone() {
                    t.push((k, from_lib(&y)?));
                }
            }
            2 => {
                for (k, y) in x.keys().zip(x.values()) {
                    t.push((k.clone(), from_lib(y)?));
                }
            }
            3 if x.keys().enumerate().all(|(i, k)| x.keys().take(i).all(|j| j != k)) => {
                for k in x.keys() {
                    t.push((k.clone(), from_lib(&x.get(k)?)?));
                }
            }
            _ => {
                for (k, y) in x.value() {
                    t.push((k.clone(), from_lib(y)?));
                }
            }
        }
        return Some(V::Tuple(t));
    }
    if let Ok(x) = v.cast_as::<lc::StringAscii>() {
        return Some(V::Ascii(x.value().clone()));
    }
    if let Ok(x) = v.cast_as::<lc::StringUtf8>() {
        return Some(V::Utf8(x.value().clone()));
    }
    None
}

pub fn secret(k: &[u8; 32]) -> SecretKey {
    SecretKey::from_slice(k).unwrap()
}
pub fn public(k: &[u8; 32]) -> PublicKey {
    PublicKey::from_slice(&rf::pubkey(k)).unwrap()
}

pub fn key(ch: &mut Choices) -> [u8; 32] {
    let mut k = [0u8; 32];
    match ch.draw(12) {
        0 => k[31] = 1,
        1 => {
            // group order minus one
            k = rf::unhex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364140").unwrap().try_into().unwrap();
        }
        2 => {
            ch.sub().fill(&mut k[8..]);
            k[31] |= 1;
        }
        _ => {
            ch.sub().fill(&mut k);
            k[0] &= 0x7f;
            k[31] |= 1;
        }
    }
    k
}

// ------------------------------------------------------------------ transactions

#[derive(Clone, Debug)]
pub enum Spender {
    Single { mode: u8, key: [u8; 32] },
    Multi { mode: u8, keys: Vec<[u8; 32]>, required: u8 },
}

pub fn mode(m: u8) -> Mode {
    [Mode::P2PKH, Mode::P2SH, Mode::P2WPKH, Mode::P2WSH][m as usize]
}

impl Spender {
    pub fn single(ch: &mut Choices) -> Spender {
        Spender::Single { mode: [0, 2][ch.below(2)], key: key(ch) }
    }
    pub fn multi(ch: &mut Choices) -> Spender {
        let n = match ch.draw(24) {
            23 if ch.chance(1, 6) => {
                let most = if ch.chance(1, 4) { 230 } else { 40 };
                20 + ch.below(most)
            }
            23 => 15 + ch.below(5),
            21 | 22 => 1,
            18..=20 => 5 + ch.below(6),
            _ => 2 + ch.below(3),
        };
        let keys: Vec<[u8; 32]> = (0..n).map(|_| key(ch)).collect();
        let required = 1 + ch.below(n);
        let mut keys = keys;
        if n > 1 && ch.chance(1, 12) {
            // one party holds two places
            let (i, j) = (ch.below(n), ch.below(n));
            keys[i] = keys[j];
        }
        Spender::Multi { mode: [1, 3][ch.below(2)], keys, required: required as u8 }
    }
    pub fn any(ch: &mut Choices) -> Spender {
        if ch.chance(1, 2) {
            Spender::multi(ch)
        } else {
            Spender::single(ch)
        }
    }
    pub fn cond(&self, nonce: u64, fee: u64) -> rf::Cond {
        match self {
            Spender::Single { mode, key } => {
                let pk = rf::pubkey(key);
                let signer = if *mode == 0 { rf::hash160(&pk) } else { rf::p2wpkh(&pk) };
                rf::Cond::Single { mode: *mode, signer, nonce, fee, sig: [0; 65] }
            }
            Spender::Multi { mode, keys, required } => {
                let pks: Vec<[u8; 33]> = keys.iter().map(rf::pubkey).collect();
                rf::Cond::Multi {
                    mode: *mode,
                    signer: rf::multisig_hash(*mode, *required, &pks),
                    nonce,
                    fee,
                    fields: vec![],
                    required: u16::from(*required),
                }
            }
        }
    }
    pub fn lib(&self, nonce: u64, fee: u64) -> Box<dyn lt::SpendingCondition> {
        match self {
            Spender::Single { mode: m, key } => {
                Box::new(lt::SpendingConditionStandard::new(public(key), fee, nonce, mode(*m)))
            }
            Spender::Multi { mode: m, keys, required } => {
                let pks: Vec<PublicKey> = keys.iter().map(public).collect();
                Box::new(lt::SpendingConditionMultiSig::new(pks, fee, nonce, *required, mode(*m)))
            }
        }
    }
    /// The library's condition holding what this reference condition holds.
    pub fn lib_from(&self, c: &rf::Cond) -> Box<dyn lt::SpendingCondition> {
        use lt::Modification as M;
        use stacks_rs::crypto::MessageSignature;
        let (nonce, fee) = c.nonce_fee();
        let mut l = self.lib(nonce, fee);
        match c {
            rf::Cond::Single { sig, .. } => {
                if *sig != [0; 65] {
                    l.modify(M::SetSignature(MessageSignature::new(sig))).unwrap();
                }
            }
            rf::Cond::Multi { fields, .. } => {
                for f in fields {
                    match f {
                        rf::Field::Pk(k) => l.modify(M::AddPublicKey(PublicKey::from_slice(k).unwrap())).unwrap(),
                        rf::Field::Sig(s) => l.modify(M::AddSignature(MessageSignature::new(s))).unwrap(),
                    }
                }
            }
        }
        l
    }
}

/// What the caller wants: the reference transaction, and who signs it.
#[derive(Clone, Debug)]
pub struct Plan {
    pub tx: Tx,
    pub origin: Spender,
    pub sponsor: Option<Spender>,
    pub net: u32,
    pub memo: String,
    pub builder: bool,
    /// Something that is no principal, where one belongs.
    pub stranger: Option<(bool, V)>,
}

pub fn who(ch: &mut Choices) -> Who {
    let (v, h) = principal(ch);
    if ch.chance(1, 3) {
        Who::Con(v, h, contract_name(ch))
    } else {
        Who::Std(v, h)
    }
}

fn asset(ch: &mut Choices) -> Asset {
    let (ver, hash) = principal(ch);
    Asset { ver, hash, contract: contract_name(ch), name: contract_name(ch) }
}

pub fn pc(ch: &mut Choices) -> Pc {
    match ch.draw(3) {
        0 => Pc::Stx { who: who(ch), code: 1 + ch.draw(5) as u8, amount: amount(ch) },
        1 => Pc::Ft { who: who(ch), asset: asset(ch), code: 1 + ch.draw(5) as u8, amount: amount(ch) },
        _ => Pc::Nft { who: who(ch), asset: asset(ch), name: value(ch, 1, false), code: 0x10 + ch.draw(2) as u8 },
    }
}

pub fn memo(ch: &mut Choices) -> String {
    match ch.draw(8) {
        0 => String::new(),
        1 => text(ch, 34, b"abcdef "),
        2 => text(ch, 33, b"abcdef "),
        3 => match ch.draw(4) {
            0 => " lead and trail ".into(),
            1 => "line\n".into(),
            2 => "nul\0".into(),
            _ => "é".repeat(17),
        },
        4 => "漢".repeat(11),
        5 => "a\0b".into(),
        _ => {
            let n = ch.below(34);
            text(ch, n, b"abcXYZ 0123!")
        }
    }
}

pub fn payload(ch: &mut Choices, big: bool) -> (Payload, String) {
    if ch.chance(1, 2) {
        let (ver, hash) = principal(ch);
        let n = match ch.draw(6) {
            0 => 0,
            5 => 8,
            _ => 1 + ch.below(3),
        };
        let mut args: Vec<V> = (0..n).map(|_| value(ch, 3, big)).collect();
        if ch.chance(1, 16) {
            let n = 6 + ch.below(15);
            args = (0..n).map(|_| value(ch, 0, false)).collect();
        }
        if !args.is_empty() && ch.chance(1, 8) {
            let v = args[ch.below(args.len())].clone();
            let at = ch.below(args.len() + 1);
            args.insert(at, v);
        }
        if big && ch.chance(1, 12) {
            let v = value(ch, 0, false);
            let n = [255, 256, 257, 300][ch.below(4)];
            args.resize(n, v);
        }
        if big && ch.chance(1, 30) {
            args.push(colossal(ch));
        }
        (Payload::Call { ver, hash, contract: contract_name(ch), func: fn_name(ch), args }, String::new())
    } else {
        let m = memo(ch);
        let mut b = [0u8; 34];
        b[..m.len()].copy_from_slice(m.as_bytes());
        (Payload::Transfer { to: who(ch), amount: amount(ch), memo: b }, m)
    }
}

pub fn plan(ch: &mut Choices, origin: Spender, sponsored: bool, big: bool) -> Plan {
    let net = ch.draw(3);
    let (version, chain) = if net == 0 { (0x00, 1) } else { (0x80, 0x8000_0000) };
    let (payload, memo) = payload(ch, big);
    let n = match ch.draw(6) {
        0..=2 => 0,
        5 => 4,
        k => k - 2,
    };
    let mut pcs: Vec<Pc> = (0..n).map(|_| pc(ch)).collect();
    if big && ch.chance(1, 3) {
        if let Some(Pc::Nft { name, .. }) = pcs.iter_mut().find(|p| matches!(p, Pc::Nft { .. })) {
            *name = value(ch, 3, true);
        }
    }
    if ch.chance(1, 16) {
        let n = 5 + ch.below(16);
        pcs = (0..n).map(|_| pc(ch)).collect();
    }
    if !pcs.is_empty() && ch.chance(1, 6) {
        // the same limit stated twice, or for the same party with another amount
        let mut c = pcs[ch.below(pcs.len())].clone();
        if ch.chance(1, 2) {
            if let Pc::Stx { amount, .. } | Pc::Ft { amount, .. } = &mut c {
                *amount = crate::gen::amount(ch);
            }
        }
        let at = ch.below(pcs.len() + 1);
        pcs.insert(at, c);
    }
    if big && ch.chance(1, 12) {
        let c = pc(ch);
        let n = [255, 256, 257, 300][ch.below(4)];
        let step = ch.draw(2);
        while pcs.len() < n {
            let mut c = c.clone();
            if let Pc::Stx { amount, .. } | Pc::Ft { amount, .. } = &mut c {
                *amount = amount.wrapping_add(u64::from(step) * pcs.len() as u64);
            }
            pcs.push(c);
        }
    }
    let (mut nonce, mut fee) = (amount(ch), amount(ch));
    let bare = ch.chance(1, 8);
    let (mut payload, mut memo) = (payload, memo);
    if bare {
        // only what the builder insists on
        (nonce, fee) = (0, 0);
        pcs.clear();
        memo.clear();
        if let Payload::Transfer { memo, .. } = &mut payload {
            *memo = [0; 34];
        }
    }
    let oc = origin.cond(nonce, fee);
    let auth = if sponsored { rf::Auth::Spon(oc, rf::Cond::sentinel()) } else { rf::Auth::Std(oc) };
    let builder = !sponsored && matches!(origin, Spender::Single { mode: 0, .. }) && ch.chance(1, 2);
    Plan {
        tx: Tx {
            version,
            chain,
            auth,
            anchor: if bare { 3 } else { [3, 1, 2][ch.below(3)] },
            pc_mode: if bare { 1 } else { 1 + ch.draw(2) as u8 },
            pcs,
            payload,
        },
        origin,
        sponsor: None,
        net,
        memo,
        builder,
        stranger: None,
    }
}

/// A plan with exactly one part that has no valid encoding.
pub fn broken(ch: &mut Choices, p: &mut Plan) -> String {
    let bad = bad_address(ch);
    BAD_TEXT.with(|t| *t.borrow_mut() = bad.clone());
    let long = |ch: &mut Choices| {
        let n = [129, 130, 255, 256, 257, 300, 384][ch.below(7)];
        match ch.draw(5) {
            // few characters, many bytes
            1 => "é".repeat(n / 2 + 1),
            2 => format!("{}{}", text(ch, 100, b"abcdefgh-"), "🦀".repeat(8 + ch.below(7))),
            // nothing but padding beyond the limit
            3 => format!("{}{}", text(ch, 120, b"abcdefgh-"), ch.pick(&[" ", "\0", "\n", "-"]).repeat(9 + ch.below(30))),
            _ => text(ch, n, b"abcdefgh-"),
        }
    };
    let h = [0u8; 20];
    let bad_value = |ch: &mut Choices| -> (V, &'static str) {
        let (v, w) = match ch.draw(6) {
            0 => (V::Ascii(ch.pick(&["caf\u{e9}", "\u{1f980}", "a\u{4e2d}b", "\u{ff}", "\u{7f}\u{80}", "A\u{301}", "\u{2019}s"]).to_string()), "non-ascii text"),
            1 => (V::Std(BAD_VER, h), "bad address"),
            2 => (V::Con(BAD_VER, h, "c".into()), "bad contract address"),
            3 => {
                let (v, h) = principal(ch);
                (V::Con(v, h, long(ch)), "long contract name")
            }
            4 => (V::Tuple(vec![(long(ch), V::None)]), "long tuple key"),
            _ => {
                let n = ch.below(130);
                (V::Ascii(format!("{}\u{80}", ascii(ch, n))), "non-ascii text")
            }
        };
        let v = match ch.draw(7) {
            1 => V::Some(Box::new(v)),
            2 => V::List(vec![V::None, v, V::UInt(1)]),
            3 => V::Tuple(vec![("a".into(), V::Int(1)), ("b".into(), v)]),
            4 => V::Ok(Box::new(v)),
            5 => V::Err(Box::new(v)),
            6 => V::List(vec![V::Tuple(vec![("a".into(), V::Some(Box::new(v)))])]),
            _ => v,
        };
        (v, w)
    };
    let stranger = |ch: &mut Choices| match ch.draw(4) {
        0 => V::UInt(5),
        1 => V::Ascii(bad.clone()),
        2 => V::Some(Box::new(V::Std(22, h))),
        _ => V::Buf(vec![22; 21]),
    };
    if ch.chance(1, 3) {
        // in a post-condition
        let mut pcs = p.tx.pcs.clone();
        let mut x = pc(ch);
        let what;
        match ch.draw(5) {
            0 => {
                match &mut x {
                    Pc::Stx { who, .. } | Pc::Ft { who, .. } | Pc::Nft { who, .. } => {
                        *who = if ch.chance(1, 2) { Who::Con(BAD_VER, h, "c".into()) } else { Who::Std(BAD_VER, h) }
                    }
                }
                what = format!("post-condition address {bad:?}");
            }
            1 => {
                p.stranger = Some((false, stranger(ch)));
                what = "post-condition on something that is no principal".to_string();
            }
            2 => {
                let (v, hh) = principal(ch);
                match &mut x {
                    Pc::Stx { who, .. } | Pc::Ft { who, .. } | Pc::Nft { who, .. } => *who = Who::Con(v, hh, long(ch)),
                }
                what = "post-condition contract name too long".to_string();
            }
            k => {
                let w = who(ch);
                let mut a = asset(ch);
                let mut name = V::UInt(1);
                what = match (k, ch.draw(4)) {
                    (3, 0) | (4, 0) => {
                        a.ver = BAD_VER;
                        format!("asset address {bad:?}")
                    }
                    (_, 1) => {
                        a.contract = long(ch);
                        "asset contract name too long".into()
                    }
                    (3, _) => {
                        a.name = long(ch);
                        "asset name too long".into()
                    }
                    _ => {
                        let (v, w) = bad_value(ch);
                        name = v;
                        format!("non-fungible token id with {w}")
                    }
                };
                x = if k == 3 && ch.chance(1, 2) {
                    Pc::Ft { who: w, asset: a, code: 1, amount: 1 }
                } else {
                    Pc::Nft { who: w, asset: a, name, code: 0x10 }
                };
            }
        }
        let at = ch.below(pcs.len() + 1);
        pcs.insert(at, x);
        p.tx.pcs = pcs;
        if let Some(s) = &mut p.stranger {
            s.0 = false;
            p.tx.pcs.swap(0, at);
        }
        return what;
    }
    match &mut p.tx.payload {
        Payload::Transfer { to, .. } => match ch.draw(5) {
            0 => {
                let n = [35, 36, 64, 100, 290][ch.below(5)];
                p.memo = match ch.draw(5) {
                    0 | 1 => "m".repeat(n),
                    2 => "é".repeat(n.div_ceil(2).max(18)),
                    3 => {
                        let k = ch.below(35);
                        format!("{}{}", "m".repeat(k), ch.pick(&[" ", "\0", "\n"]).repeat(n - k))
                    }
                    _ => format!("{}{}", "m".repeat(32), "🦀".repeat(1 + ch.below(8))),
                };
                format!("memo of {} bytes", p.memo.len())
            }
            1 => {
                *to = Who::Std(BAD_VER, h);
                format!("recipient {bad:?}")
            }
            2 => {
                *to = Who::Con(BAD_VER, h, "c".into());
                format!("contract recipient {bad:?}")
            }
            3 => {
                let (v, hh) = principal(ch);
                *to = Who::Con(v, hh, long(ch));
                "recipient contract name too long".into()
            }
            _ => {
                p.stranger = Some((true, stranger(ch)));
                p.builder = false;
                "recipient that is no principal".into()
            }
        },
        Payload::Call { ver, contract, func, args, .. } => match ch.draw(6) {
            0 => {
                *func = long(ch);
                "function name too long".into()
            }
            1 => {
                *contract = long(ch);
                "contract name too long".into()
            }
            2 => {
                *ver = BAD_VER;
                format!("contract address {bad:?}")
            }
            _ => {
                let (v, w) = bad_value(ch);
                let at = ch.below(args.len() + 1);
                args.insert(at, v);
                format!("argument with {w}")
            }
        },
    }
}

fn code(c: u8) -> lt::ConditionCode {
    use lt::ConditionCode as C;
    match c {
        1 => C::EQ,
        2 => C::GT,
        3 => C::GTE,
        4 => C::LT,
        5 => C::LTE,
        0x10 => C::HasNot,
        _ => C::Has,
    }
}

fn std_of(v: u8, h: &[u8; 20]) -> lc::PrincipalStandard {
    let a = addr_text(v, h);
    match way(4) {
        0 => lc::PrincipalStandard::new(a),
        1 => lc::PrincipalStandard::from(a),
        2 => lc::PrincipalStandard::from(&a[..]),
        _ => stacks_rs::clarity!(PrincipalStandard, a),
    }
}
fn con_of(v: u8, h: &[u8; 20], n: &str) -> lc::PrincipalContract {
    let a = addr_text(v, h);
    match way(4) {
        0 => lc::PrincipalContract::new((a, n.to_string())),
        1 => lc::PrincipalContract::from((a, n.to_string())),
        2 => lc::PrincipalContract::from((&a[..], n)),
        _ => stacks_rs::clarity!(PrincipalContract, a, n),
    }
}
fn info_of(a: &Asset) -> lt::AssetInfo {
    lt::AssetInfo::new(addr_text(a.ver, &a.hash), a.contract.clone(), a.name.clone())
}

pub fn lib_pc(p: &Pc) -> Box<dyn lt::Condition> {
    match p {
        Pc::Stx { who, code: c, amount } => match who {
            Who::Std(v, h) => Box::new(lt::STXPostCondition::new(std_of(*v, h), *amount, code(*c))),
            Who::Con(v, h, n) => Box::new(lt::STXPostCondition::new(con_of(*v, h, n), *amount, code(*c))),
        },
        Pc::Ft { who, asset, code: c, amount } => match who {
            Who::Std(v, h) => Box::new(lt::FungiblePostCondition::new(std_of(*v, h), *amount, code(*c), info_of(asset))),
            Who::Con(v, h, n) => {
                Box::new(lt::FungiblePostCondition::new(con_of(*v, h, n), *amount, code(*c), info_of(asset)))
            }
        },
        Pc::Nft { who, asset, name, code: c } => match (way(2), who) {
            (0, _) => Box::new(lt::NonFungiblePostCondition {
                address: to_lib(&who.val()),
                name: to_lib(name),
                code: code(*c),
                info: info_of(asset),
            }),
            (_, Who::Std(v, h)) => concrete!(name, n => Box::new(lt::NonFungiblePostCondition::new(std_of(*v, h), n, code(*c), info_of(asset)))),
            (_, Who::Con(v, h, a)) => concrete!(name, n => Box::new(lt::NonFungiblePostCondition::new(con_of(*v, h, a), n, code(*c), info_of(asset)))),
        },
    }
}

pub fn lib_pcs(p: &[Pc]) -> lt::PostConditions {
    lt::PostConditions::new(p.iter().map(lib_pc).collect())
}

/// The first post-condition with its principal replaced by something else.
fn strange_pc(p: &Pc, v: &V) -> Box<dyn lt::Condition> {
    match (p, v) {
        (Pc::Nft { asset, name, code: c, .. }, v) => Box::new(lt::NonFungiblePostCondition {
            address: to_lib(v),
            name: to_lib(name),
            code: code(*c),
            info: info_of(asset),
        }),
        (Pc::Stx { amount, code: c, .. }, V::UInt(x)) => Box::new(lt::STXPostCondition::new(lc::UInt::new(*x), *amount, code(*c))),
        (Pc::Stx { amount, code: c, .. }, V::Buf(x)) => Box::new(lt::STXPostCondition::new(lc::Buffer::new(x.clone()), *amount, code(*c))),
        (Pc::Stx { amount, code: c, .. }, _) => {
            Box::new(lt::STXPostCondition::new(lc::OptionalSome::new(to_lib(&V::Std(22, [1; 20]))), *amount, code(*c)))
        }
        (Pc::Ft { amount, code: c, asset, .. }, V::Ascii(x)) => {
            Box::new(lt::FungiblePostCondition::new(lc::StringAscii::new(x.clone()), *amount, code(*c), info_of(asset)))
        }
        (Pc::Ft { amount, code: c, asset, .. }, V::UInt(x)) => {
            Box::new(lt::FungiblePostCondition::new(lc::UInt::new(*x), *amount, code(*c), info_of(asset)))
        }
        (Pc::Ft { amount, code: c, asset, .. }, _) => {
            Box::new(lt::FungiblePostCondition::new(lc::OptionalNone::new(), *amount, code(*c), info_of(asset)))
        }
    }
}

pub fn lib_args(a: &[V]) -> lc::FnArguments {
    lc::FnArguments::new(a.iter().map(to_lib).collect())
}

pub fn lib_payload(p: &Payload, memo: &str) -> Result<Box<dyn lt::Payload>, String> {
    Ok(match p {
        Payload::Transfer { to, amount, .. } => match to {
            Who::Std(v, h) => Box::new(lt::TokenTransferPayload::new(std_of(*v, h), *amount, memo)),
            Who::Con(v, h, n) => Box::new(lt::TokenTransferPayload::new(con_of(*v, h, n), *amount, memo)),
        },
        Payload::Call { ver, hash, contract, func, args } => Box::new(lt::ContractCallPayload::new(
            stacks_rs::crypto::c32::Address::from_str(&addr_text(*ver, hash)).map_err(|e| e.to_string())?,
            contract.clone(),
            func.clone(),
            lib_args(args),
        )),
    })
}

pub fn anchor(a: u8) -> lt::AnchorMode {
    match a {
        1 => lt::AnchorMode::Strict,
        2 => lt::AnchorMode::Micro,
        _ => lt::AnchorMode::Any,
    }
}
pub fn pmode(m: u8) -> lt::PostConditionMode {
    if m == 1 {
        lt::PostConditionMode::Allow
    } else {
        lt::PostConditionMode::Deny
    }
}
pub fn lib_version(v: u8) -> lt::TransactionVersion {
    if v == 0 {
        lt::TransactionVersion::Mainnet
    } else {
        lt::TransactionVersion::Testnet
    }
}
pub fn lib_chain(c: u32) -> lt::ChainID {
    if c == 1 {
        lt::ChainID::Mainnet
    } else {
        lt::ChainID::Testnet
    }
}

fn via_builder<N: lt::Network>(p: &Plan, n: N) -> Result<lt::Transaction, String> {
    let Spender::Single { key, .. } = &p.origin else { unreachable!() };
    let (nonce, fee) = p.tx.origin().nonce_fee();
    let t = &p.tx;
    if (nonce, fee, t.anchor, t.pc_mode) == (0, 0, 3, 1) && t.pcs.is_empty() && p.memo.is_empty() {
        return Ok(match &t.payload {
            Payload::Transfer { to: Who::Std(v, h), amount, .. } => lt::STXTokenTransfer::builder()
                .recipient(std_of(*v, h))
                .amount(*amount)
                .sender(secret(key))
                .network(n)
                .build()
                .transaction(),
            Payload::Transfer { to: Who::Con(v, h, c), amount, .. } => lt::STXTokenTransfer::builder()
                .recipient(con_of(*v, h, c))
                .amount(*amount)
                .sender(secret(key))
                .network(n)
                .build()
                .transaction(),
            Payload::Call { ver, hash, contract, func, args } => lt::STXContractCall::builder()
                .address(addr_text(*ver, hash))
                .contract(contract.clone())
                .fn_name(func.clone())
                .fn_args(lib_args(args))
                .sender(secret(key))
                .network(n)
                .build()
                .transaction()
                .map_err(|e| e.to_string())?,
        });
    }
    Ok(match &t.payload {
        Payload::Transfer { to, amount, .. } => match to {
            Who::Std(v, h) => lt::STXTokenTransfer::builder()
                .recipient(std_of(*v, h))
                .amount(*amount)
                .sender(secret(key))
                .network(n)
                .fee(fee)
                .nonce(nonce)
                .anchor_mode(anchor(t.anchor))
                .memo(p.memo.clone())
                .post_condition_mode(pmode(t.pc_mode))
                .post_conditions(lib_pcs(&t.pcs))
                .build()
                .transaction(),
            Who::Con(v, h, c) => lt::STXTokenTransfer::builder()
                .recipient(con_of(*v, h, c))
                .amount(*amount)
                .sender(secret(key))
                .network(n)
                .fee(fee)
                .nonce(nonce)
                .anchor_mode(anchor(t.anchor))
                .memo(p.memo.clone())
                .post_condition_mode(pmode(t.pc_mode))
                .post_conditions(lib_pcs(&t.pcs))
                .build()
                .transaction(),
        },
        Payload::Call { ver, hash, contract, func, args } => lt::STXContractCall::builder()
            .address(addr_text(*ver, hash))
            .contract(contract.clone())
            .fn_name(func.clone())
            .fn_args(lib_args(args))
            .sender(secret(key))
            .network(n)
            .fee(fee)
            .nonce(nonce)
            .anchor_mode(anchor(t.anchor))
            .post_condition_mode(pmode(t.pc_mode))
            .post_conditions(lib_pcs(&t.pcs))
            .build()
            .transaction()
            .map_err(|e| e.to_string())?,
    })
}

impl Plan {
    /// The library's transaction for this plan, unsigned or holding the signatures `tx` holds.
    pub fn build(&self) -> lt::Transaction {
        self.try_build().expect("a valid plan builds")
    }
    pub fn try_build(&self) -> Result<lt::Transaction, String> {
        let mut t = self.make()?;
        if let Some((recipient, v)) = &self.stranger {
            if *recipient {
                let amount = 7;
                t.payload = Box::new(lt::TokenTransferPayload { address: to_lib(v), amount, memo: self.memo.clone() });
            } else {
                let mut l: Vec<Box<dyn lt::Condition>> = vec![strange_pc(&self.tx.pcs[0], v)];
                l.extend(self.tx.pcs[1..].iter().map(lib_pc));
                t.post_conditions = lt::PostConditions::new(l);
            }
        }
        Ok(t)
    }
    fn make(&self) -> Result<lt::Transaction, String> {
        let t = &self.tx;
        if self.builder {
            let mut l = match self.net {
                0 => via_builder(self, lt::StacksMainnet::new())?,
                1 => via_builder(self, lt::StacksTestnet::new())?,
                _ => via_builder(self, lt::StacksMocknet::new())?,
            };
            if let rf::Auth::Std(c @ rf::Cond::Single { sig, .. }) = &t.auth {
                if *sig != [0; 65] {
                    l.auth = lt::Auth::Standard(self.origin.lib_from(c));
                }
            }
            return Ok(l);
        }
        Ok(lt::Transaction::new(
            lib_version(t.version),
            lib_chain(t.chain),
            self.lib_auth(),
            anchor(t.anchor),
            pmode(t.pc_mode),
            lib_pcs(&t.pcs),
            lib_payload(&t.payload, &self.memo)?,
        ))
    }
    pub fn lib_auth(&self) -> lt::Auth {
        match &self.tx.auth {
            rf::Auth::Std(c) => lt::Auth::Standard(self.origin.lib_from(c)),
            rf::Auth::Spon(c, s) => {
                let sp: Box<dyn lt::SpendingCondition> = match &self.sponsor {
                    Some(p) => p.lib_from(s),
                    None => Box::<lt::SpendingConditionStandard>::default(),
                };
                lt::Auth::Sponsored(self.origin.lib_from(c), sp)
            }
        }
    }
}

// ------------------------------------------------------------------ typed answers

/// The tuple a contract answers a typed call with: shape 1 to 4, in the version of the contract
/// that happens to be deployed (fields moved, added, missing, or of another type).
pub fn typed_tuple(ch: &mut Choices, hint: u32) -> V {
    let small = |ch: &mut Choices| value(ch, 1, false);
    let inner = |ch: &mut Choices| {
        let n = size(ch, 40);
        let f = vec![
            ("id".to_string(), V::UInt(int(ch))),
            ("tag".to_string(), small(ch)),
            ("blob".to_string(), V::Buf(ch.bytes(n))),
        ];
        drift(ch, f, 12)
    };
    let opt = |ch: &mut Choices, v: V| if ch.chance(1, 3) { V::None } else { V::Some(Box::new(v)) };
    let f = if hint % 8 == 1 {
        let n = size(ch, 40);
        let k = ch.below(4);
        let a = V::Int(int(ch) as i128);
        let b = V::UInt(int(ch));
        vec![
            ("amount".to_string(), V::Int(int(ch) as i128)),
            ("amount-2".to_string(), V::Int(int(ch) as i128)),
            ("total".to_string(), V::UInt(int(ch))),
            ("active".to_string(), V::Bool(ch.chance(1, 2))),
            ("paused?".to_string(), V::Bool(ch.chance(1, 2))),
            ("label".to_string(), small(ch)),
            ("data".to_string(), V::Buf(ch.bytes(n))),
            ("items".to_string(), V::List((0..k).map(|_| small(ch)).collect())),
            ("opt-i".to_string(), opt(ch, a)),
            ("opt-u".to_string(), opt(ch, b)),
            ("opt-s".to_string(), {
                let v = small(ch);
                opt(ch, v)
            }),
            ("res-i".to_string(), V::Ok(Box::new(V::Int(int(ch) as i128)))),
            ("res-u".to_string(), V::Ok(Box::new(V::UInt(int(ch))))),
            ("inner".to_string(), inner(ch)),
            ("inner-2".to_string(), inner(ch)),
        ]
    } else if hint % 8 == 3 {
        let n = size(ch, 40);
        let k = ch.below(4);
        let low = vec![("inner".to_string(), inner(ch)), ("level".to_string(), V::UInt(int(ch)))];
        let mid = vec![("level".to_string(), drift(ch, low, 16)), ("inner".to_string(), inner(ch)), ("ok?".to_string(), V::Bool(ch.chance(1, 2)))];
        let a = V::Int(int(ch) as i128);
        vec![
            ("a".to_string(), V::UInt(int(ch))),
            ("b".to_string(), V::UInt(int(ch))),
            ("A".to_string(), V::UInt(int(ch))),
            ("type".to_string(), V::Ok(Box::new(V::Int(int(ch) as i128)))),
            ("tuple".to_string(), V::Ok(Box::new(V::UInt(int(ch))))),
            ("value".to_string(), V::Int(int(ch) as i128)),
            ("bytes".to_string(), V::Buf(ch.bytes(n))),
            ("list".to_string(), V::List((0..k).map(|_| small(ch)).collect())),
            ("maybe".to_string(), {
                let v = small(ch);
                opt(ch, v)
            }),
            ("may-be".to_string(), opt(ch, a)),
            ("deep".to_string(), drift(ch, mid, 16)),
        ]
    } else if hint % 8 == 4 {
        crate::typed::WIDE.iter().map(|k| (k.to_string(), V::UInt(int(ch)))).collect()
    } else {
        vec![
            ("id".to_string(), V::UInt(int(ch))),
            ("owner".to_string(), small(ch)),
            ("inner".to_string(), inner(ch)),
            ("next".to_string(), {
                let v = V::UInt(int(ch));
                opt(ch, v)
            }),
        ]
    };
    let t = drift(ch, f, 8);
    match ch.draw(12) {
        11 => V::Err(Box::new(V::UInt(1))),
        10 => V::Some(Box::new(t)),
        _ if hint >= 8 => V::Ok(Box::new(t)),
        _ => t,
    }
}

fn drift(ch: &mut Choices, mut f: Vec<(String, V)>, den: u32) -> V {
    if ch.chance(1, 2) {
        for i in (1..f.len()).rev() {
            let j = i - ch.below(i + 1);
            f.swap(i, j);
        }
    }
    if ch.chance(1, 3) {
        let n = 1 + ch.below(3);
        for i in 0..n {
            let k = match ch.draw(7) {
                4 => f[ch.below(f.len())].0.replace('-', "_"),
                5 => f[ch.below(f.len())].0.replace('_', "-"),
                6 => f[ch.below(f.len())].0.replace(['-', '_'], ""),
                0 => format!("extra-{i}"),
                1 => format!("{}-x", f[ch.below(f.len())].0),
                2 => f[ch.below(f.len())].0.to_uppercase(),
                _ => f[ch.below(f.len())].0.chars().rev().collect(),
            };
            if k.len() <= 128 && f.iter().all(|x| x.0 != k) {
                let v = f[ch.below(f.len())].1.clone();
                let at = ch.below(f.len() + 1);
                f.insert(at, (k, v));
            }
        }
    }
    if ch.chance(1, den) {
        let i = ch.below(f.len());
        let (k, v) = f.remove(i);
        // renamed in the other version, to a key that only looks like it
        if ch.chance(1, 2) {
            let k = match ch.draw(7) {
                0 => k.replace('-', "_"),
                1 => k.to_uppercase(),
                2 => format!("{k}-"),
                3 => format!("{k}?"),
                4 => k[..k.len() - 1].to_string(),
                5 => format!("{k}{k}"),
                _ => k.replace(['-', '?'], ""),
            };
            if !k.is_empty() && k.len() <= 128 && f.iter().all(|x| x.0 != k) {
                f.insert(i, (k, v));
            }
        }
    }
    if !f.is_empty() && ch.chance(2, den) {
        let i = ch.below(f.len());
        let v = f[i].1.clone();
        f[i].1 = match ch.draw(8) {
            0 => V::None,
            1 => V::Some(Box::new(v)),
            2 => match v {
                V::Int(x) => V::UInt(x as u128),
                V::UInt(x) => V::Int(x as i128),
                V::Ok(x) => V::Err(x),
                V::Some(x) => match *x {
                    V::UInt(y) => V::Some(Box::new(V::Int(y as i128))),
                    V::Int(y) => V::Some(Box::new(V::UInt(y as u128))),
                    y => y,
                },
                V::Buf(b) => V::Ascii(rf::hex(&b)),
                V::Bool(b) => V::UInt(u128::from(b)),
                V::List(mut l) => l.pop().unwrap_or(V::None),
                _ => V::UInt(0),
            },
            3 => V::Ok(Box::new(v)),
            4 => V::List(vec![v]),
            5 => match v {
                V::Ok(x) | V::Some(x) => *x,
                _ => V::Ascii("0".into()),
            },
            6 => V::Err(Box::new(v)),
            _ => V::Tuple(vec![("id".into(), v)]),
        };
    }
    V::Tuple(f)
}

// ------------------------------------------------------------------ signing a plan in one go

/// Who signs what, decided up front.
#[derive(Clone, Debug)]
pub struct Signing {
    /// One entry per key of the origin: sign, or only add the public key.
    pub origin: Vec<bool>,
    pub sponsor: Option<(Spender, u64, u64)>,
}

pub fn signers(ch: &mut Choices, s: &Spender) -> Vec<bool> {
    match s {
        Spender::Single { .. } => vec![true],
        Spender::Multi { keys, required, .. } => {
            let mut v = vec![false; keys.len()];
            let mut left = *required as usize;
            for i in 0..keys.len() {
                let rest = keys.len() - i;
                if left > 0 && (left == rest || ch.chance(1, 2)) {
                    v[i] = true;
                    left -= 1;
                }
            }
            v
        }
    }
}

impl Signing {
    pub fn draw(ch: &mut Choices, p: &Plan) -> Signing {
        let origin = signers(ch, &p.origin);
        let sponsor = if matches!(p.tx.auth, rf::Auth::Spon(..)) {
            let mut s = Spender::any(ch);
            if let Spender::Multi { keys, required, .. } = &mut s {
                *required = keys.len() as u8;
            }
            Some((s, amount(ch), amount(ch)))
        } else {
            None
        };
        Signing { origin, sponsor }
    }
    /// Signs with the library.
    pub fn sign(&self, p: &Plan, t: lt::Transaction) -> Result<lt::Transaction, String> {
        let e = |e: lt::Error| e.to_string();
        let t = match &p.origin {
            Spender::Single { key, .. } => t.sign(secret(key)).map_err(e)?,
            Spender::Multi { keys, .. } => {
                let mut s = lt::TransactionSigner::new(t).map_err(e)?;
                for (k, sig) in keys.iter().zip(&self.origin) {
                    if *sig {
                        s.sign_origin(secret(k)).map_err(e)?;
                    } else {
                        s.append_origin(public(k)).map_err(e)?;
                    }
                }
                s.transaction()
            }
        };
        let Some((sp, nonce, fee)) = &self.sponsor else { return Ok(t) };
        let mut s = lt::TransactionSigner::new_sponser(&t, sp.lib(*nonce, *fee)).map_err(e)?;
        match sp {
            Spender::Single { key, .. } => s.sign_sponsor(secret(key)).map_err(e)?,
            Spender::Multi { keys, .. } => {
                for k in keys {
                    s.sign_sponsor(secret(k)).map_err(e)?;
                }
            }
        }
        Ok(s.transaction())
    }
    /// What it must look like, signatures left blank.
    pub fn expect(&self, p: &Plan) -> Tx {
        let mut t = p.tx.clone();
        if let (rf::Cond::Multi { fields, .. }, Spender::Multi { keys, .. }) = (t.origin_mut(), &p.origin) {
            *fields = keys
                .iter()
                .zip(&self.origin)
                .map(|(k, s)| if *s { rf::Field::Sig([0; 65]) } else { rf::Field::Pk(rf::pubkey(k)) })
                .collect();
        }
        if let (rf::Auth::Spon(_, c), Some((sp, nonce, fee))) = (&mut t.auth, &self.sponsor) {
            *c = sp.cond(*nonce, *fee);
            if let (rf::Cond::Multi { fields, .. }, Spender::Multi { keys, .. }) = (c, sp) {
                *fields = keys.iter().map(|_| rf::Field::Sig([0; 65])).collect();
            }
        }
        blank(&t)
    }
}

pub fn blank_cond(c: &rf::Cond) -> rf::Cond {
    let mut c = c.clone();
    match &mut c {
        rf::Cond::Single { sig, .. } => *sig = [0; 65],
        rf::Cond::Multi { fields, .. } => fields.iter_mut().for_each(|f| {
            if let rf::Field::Sig(s) = f {
                *s = [0; 65];
            }
        }),
    }
    c
}

/// The same transaction with the content of signatures left out.
pub fn blank(t: &Tx) -> Tx {
    let mut t = t.clone();
    t.auth = match &t.auth {
        rf::Auth::Std(c) => rf::Auth::Std(blank_cond(c)),
        rf::Auth::Spon(c, s) => rf::Auth::Spon(blank_cond(c), blank_cond(s)),
    };
    t
}

pub fn addr_of(ch: &mut Choices) -> String {
    let (v, h) = principal(ch);
    let a = rf::c32_address(v, &h);
    if ch.chance(1, 4) {
        format!("{a}.{}", contract_name(ch))
    } else {
        a
    }
}
