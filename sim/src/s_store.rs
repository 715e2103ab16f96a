//! Addresses and encoded values that are kept on a disk that tears, loses and flips, or are carried
//! over a channel that drops, repeats and swaps, and are read back.

use crate::choice::Choices;
use crate::gen;
use crate::refimpl as rf;
use crate::refimpl::V;
use crate::rt::*;
use crate::s_sign::calm_swarm;
use crate::sc::*;
use stacks_rs::clarity as lc;
use stacks_rs::clarity::{Clarity, Codec};
use stacks_rs::crypto as cy;
use stacks_rs::transaction as lt;
use std::collections::BTreeMap;
use std::str::FromStr;

fn ch() -> &'static mut Choices {
    &mut rt().ch
}

fn pause() {
    unsafe {
        crate::interpose::sched_yield();
    }
}

pub fn run() {
    let r = rt();
    calm_swarm(r);
    let k = 1 + r.ch.weighted(&[3, 2, 1]);
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for _ in 0..k {
        bodies.push(Box::new(|| {
            body(|| match focus() {
                "C10" => c10(),
                _ => c11(),
            })
        }));
    }
    r.run(bodies);
}

// ------------------------------------------------------------------ the disk

/// Sectors; what was written but not synced may reach the platter in part, in any order, or not at all.
struct Disk {
    sector: usize,
    data: Vec<u8>,
    dirty: BTreeMap<usize, Vec<u8>>,
}

impl Disk {
    fn new(size: usize) -> Disk {
        Disk { sector: [16, 1, 4, 7, 64, 512][ch().below(6)], data: vec![b'\n'; size], dirty: BTreeMap::new() }
    }
    fn read(&self, at: usize, n: usize) -> Vec<u8> {
        let mut v = self.data.clone();
        for (s, b) in &self.dirty {
            let o = s * self.sector;
            v[o..o + b.len()].copy_from_slice(b);
        }
        v[at..at + n].to_vec()
    }
    fn write(&mut self, at: usize, b: &[u8]) {
        for (i, x) in b.iter().enumerate() {
            let s = (at + i) / self.sector;
            let o = s * self.sector;
            let e = (o + self.sector).min(self.data.len());
            let data = &self.data;
            let d = self.dirty.entry(s).or_insert_with(|| data[o..e].to_vec());
            d[at + i - o] = *x;
        }
    }
    fn sync(&mut self) {
        let lying = ch().chance(1, 12);
        for (s, b) in std::mem::take(&mut self.dirty) {
            if lying && ch().chance(1, 2) {
                rt().fault("lost write");
                continue;
            }
            let o = s * self.sector;
            self.data[o..o + b.len()].copy_from_slice(&b);
        }
    }
    fn crash(&mut self) {
        rt().fault("crash");
        for (s, b) in std::mem::take(&mut self.dirty) {
            let o = s * self.sector;
            match ch().draw(4) {
                0 => rt().fault("lost write"),
                1 => {
                    let k = ch().below(b.len() + 1);
                    rt().fault("torn write");
                    self.data[o..o + k].copy_from_slice(&b[..k]);
                }
                _ => self.data[o..o + b.len()].copy_from_slice(&b),
            }
        }
    }
    fn rot(&mut self) {
        let i = ch().below(self.data.len());
        rt().fault("flipped bit");
        self.data[i] ^= 1 << ch().draw(8);
    }
}

// ------------------------------------------------------------------ C10

#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    /// Sxx..., 20 bytes
    Address,
    /// without the S, any payload
    C32,
    B58,
}

#[derive(Clone, Debug)]
struct Written {
    form: Form,
    ver: u8,
    data: Vec<u8>,
    text: String,
}

fn address() -> Option<Written> {
    let c = ch();
    let form = [Form::Address, Form::Address, Form::B58, Form::C32][c.below(4)];
    let (ver, data) = match form {
        Form::Address => (*c.pick(&gen::VERS), gen::hash20(c).to_vec()),
        Form::C32 => {
            let n = if c.chance(1, 2) { 20 } else { c.below(40) };
            (c.draw(32) as u8, c.bytes(n))
        }
        Form::B58 => {
            let v = if c.chance(2, 3) { [0, 5, 111, 196][c.below(4)] } else { c.draw(256) as u8 };
            let n = if c.chance(3, 4) { 20 } else { c.below(40) };
            (v, c.bytes(n))
        }
    };
    let d = data.clone();
    let got = lib("C10", "encoding", || match form {
        Form::Address => cy::c32_address(d, ver).map_err(|e| e.to_string()),
        Form::C32 => cy::c32check_encode(d, ver).map_err(|e| e.to_string()),
        Form::B58 => Ok(cy::base58check_encode(d, ver)),
    })?;
    let text = match form {
        Form::Address => rf::c32_address(ver, data.as_slice().try_into().unwrap()),
        Form::C32 => rf::c32check(ver, &data),
        Form::B58 => rf::b58check(ver, &data),
    };
    check("C10", got.as_ref() == Ok(&text), "wrong address text", || format!("{form:?} {ver} {}: {got:?}, should be {text}", rf::hex(&data)));
    hit(match form {
        Form::Address => "address written",
        Form::C32 => "c32check written",
        Form::B58 => "base58check written",
    });
    Some(Written { form, ver, data, text })
}

/// What the text says to a reader that allows for spelling (case, look-alikes, space around it).
fn reading(form: Form, t: &str) -> Option<(u8, Vec<u8>)> {
    let t = t.trim();
    match form {
        Form::Address => {
            let s = t.strip_prefix('S').or_else(|| t.strip_prefix('s'))?;
            let (v, d) = rf::c32check_parse(s)?;
            (d.len() == 20).then_some((v, d))
        }
        Form::C32 => rf::c32check_parse(t),
        Form::B58 => rf::b58check_parse(t),
    }
}

/// Reads a text back in every way the library offers.
fn read_back(form: Form, text: &str, intact: Option<&Written>) {
    let want = reading(form, text);
    let judge = |what: &'static str, got: Result<(u8, Vec<u8>), String>| {
        match (&got, intact) {
            (Ok(g), Some(w)) => {
                check("C10", g.0 == w.ver && g.1 == w.data, "intact address misread", || {
                    format!("{what} of {text:?} gave version {} hash {}, written as {} {}", g.0, rf::hex(&g.1), w.ver, rf::hex(&w.data))
                });
            }
            (Err(e), Some(_)) => {
                check("C10", false, "intact address refused", || format!("{what} of {text:?}: {e}"));
            }
            (Ok(g), None) => {
                check("C10", want.as_ref() == Some(g), "damaged address accepted", || {
                    format!("{what} of {text:?} gave version {} hash {}, should be {want:?}", g.0, rf::hex(&g.1))
                });
                hit("spelling variant accepted");
            }
            (Err(_), None) => {
                check("C10", true, "", String::new);
                hit("damaged address refused");
            }
        };
    };
    let t = text.to_string();
    match form {
        Form::Address => {
            if let Some(r) = lib("C10", "c32_address_decode", || cy::c32_address_decode(t.clone()).map_err(|e| e.to_string())) {
                judge("c32_address_decode", r.map(|(d, v)| (v, d)));
            }
            if let Some(r) = lib("C10", "Address::from_str", || cy::c32::Address::from_str(&t).map_err(|e| e.to_string())) {
                judge("Address::from_str", r.map(|a| (a.version, a.hash.as_bytes().to_vec())));
            }
            let split = |b: Vec<u8>, id: u8, tail: &[u8]| -> (u8, Vec<u8>) {
                let n = b.len() - tail.len().min(b.len());
                if b.len() < 2 || b[0] != id || &b[n..] != tail || n < 2 {
                    return (0xff, b);
                }
                (b[1], b[2..n].to_vec())
            };
            if let Some(r) = lib("C10", "PrincipalStandard::encode", || lc::PrincipalStandard::new(t.clone()).encode().map_err(|e| e.to_string())) {
                judge("PrincipalStandard::encode", r.map(|b| split(b, 5, &[])));
            }
            if let Some(r) = lib("C10", "PrincipalContract::encode", || {
                lc::PrincipalContract::new((t.clone(), "pool".to_string())).encode().map_err(|e| e.to_string())
            }) {
                judge("PrincipalContract::encode", r.map(|b| split(b, 6, b"\x04pool")));
            }
            // on its way into a transaction
            if ch().chance(1, 4) {
                if let Some(r) = lib("C10", "TokenTransferPayload::encode", || {
                    lt::TokenTransferPayload::new(lc::PrincipalStandard::new(t.clone()), 7, "").encode().map_err(|e| e.to_string())
                }) {
                    let mut tail = 7u64.to_be_bytes().to_vec();
                    tail.extend_from_slice(&[0; 34]);
                    judge("TokenTransferPayload::encode", r.map(|b| split(b[1.min(b.len())..].to_vec(), 5, &tail)));
                }
            }
        }
        Form::C32 => {
            if let Some(r) = lib("C10", "c32check_decode", || cy::c32check_decode(t.clone()).map_err(|e| e.to_string())) {
                judge("c32check_decode", r.map(|(d, v)| (v, d)));
            }
        }
        Form::B58 => {
            if let Some(r) = lib("C10", "base58check_decode", || cy::base58check_decode(t.clone()).map_err(|e| e.to_string())) {
                judge("base58check_decode", r.map(|(d, v)| (v, d)));
            }
        }
    }
}

fn spot(n: usize) -> usize {
    if n == 0 {
        return 0;
    }
    match ch().draw(6) {
        0 => 0,
        1 => n - 1,
        2 => 1.min(n - 1),
        _ => ch().below(n),
    }
}

/// One slip of a hand, a channel or a disk.
fn slip(w: &Written, text: &str, others: &[Written]) -> String {
    let mut c: Vec<char> = text.chars().collect();
    if c.is_empty() {
        return "S".into();
    }
    let i = spot(c.len());
    let alphabet: Vec<char> = match w.form {
        Form::B58 => "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz",
        _ => "0123456789ABCDEFGHJKMNPQRSTVWXYZ",
    }
    .chars()
    .collect();
    match ch().draw(16) {
        0 | 1 => {
            c[i] = *ch().pick(&alphabet);
            rt().fault("character replaced");
        }
        2 => {
            c.remove(i);
            rt().fault("character lost");
        }
        3 => {
            let x = c[i];
            c.insert(i, x);
            rt().fault("character repeated");
        }
        4 => {
            let j = (i + 1).min(c.len() - 1);
            c.swap(i, j);
            rt().fault("characters transposed");
        }
        5 => {
            let j = spot(c.len());
            c.swap(i, j);
            rt().fault("characters swapped");
        }
        6 => {
            c.truncate(i);
            rt().fault("cut short");
        }
        7 => {
            c[i] = *ch().pick(&[' ', '\0', 'é', '漢', '\u{fffd}', '\u{7f}', '-', '.', 'U', 'O', 'I', 'l', '\u{ff}', '\u{130}']);
            rt().fault("character replaced");
        }
        8 => {
            c.insert(i, *ch().pick(&[' ', '0', '1', 'S', 'é', '\n']));
            rt().fault("character added");
        }
        9 => {
            let o = &others[ch().below(others.len())].text;
            let t: Vec<char> = o.chars().collect();
            let k = i.min(t.len());
            c.truncate(k);
            c.extend_from_slice(&t[k..]);
            rt().fault("torn between two");
        }
        10 => {
            let x = c[i];
            c[i] = if x.is_ascii_uppercase() { x.to_ascii_lowercase() } else { x.to_ascii_uppercase() };
            rt().fault("case changed");
        }
        11 => {
            c[i] = match c[i] {
                '0' => 'O',
                'O' => '0',
                '1' => ['I', 'L', 'l', 'i'][ch().below(4)],
                'I' | 'L' => '1',
                x => x.to_ascii_lowercase(),
            };
            rt().fault("look-alike");
        }
        12 => {
            let o = others[ch().below(others.len())].text.clone();
            c.extend(o.chars());
            rt().fault("two run together");
        }
        _ => {
            // below the text: the bytes under the digits
            rt().fault("bits under the text");
            let mut raw = w.data.clone();
            let mut full = vec![w.ver];
            full.extend_from_slice(&w.data);
            let sum = rf::dsha256(&full);
            raw.extend_from_slice(&sum[..4]);
            let mut ver = w.ver;
            let n = raw.len();
            let a = if ch().chance(1, 2) { n - 4 + ch().below(4) } else { ch().below(n) };
            match ch().draw(8) {
                0 | 1 => raw[a] ^= 1 << ch().draw(8),
                2 => {
                    let b = if ch().chance(1, 2) { n - 4 + ch().below(4) } else { ch().below(n) };
                    raw.swap(a, b);
                }
                3 => {
                    raw.remove(a);
                }
                4 => raw.insert(a, [0, 0xff][ch().below(2)]),
                5 => {
                    raw.insert(0, 0);
                }
                6 => {
                    if raw[0] == 0 {
                        raw.remove(0);
                    } else {
                        raw[0] = 0;
                    }
                }
                _ => {
                    ver = if w.form == Form::B58 { ver ^ 1 << ch().draw(8) } else { ver ^ 1 << ch().draw(5) };
                }
            }
            return match w.form {
                Form::B58 => {
                    let mut b = vec![ver];
                    b.extend_from_slice(&raw);
                    rf::b58_raw(&b)
                }
                Form::C32 => format!("{}{}", rf::c32_char(ver), rf::c32_raw(&raw)),
                Form::Address => format!("S{}{}", rf::c32_char(ver), rf::c32_raw(&raw)),
            };
        }
    }
    c.into_iter().collect()
}

const SLOT: usize = 96;

fn c10() {
    let n = 2 + ch().below(4);
    let mut all: Vec<Written> = Vec::new();
    for _ in 0..n {
        let Some(w) = address() else { return };
        all.push(w);
    }
    for w in &all {
        read_back(w.form, &w.text, Some(w));
    }
    // in a message
    let k = 2 + ch().below(24);
    for _ in 0..k {
        let w = &all[ch().below(all.len())].clone();
        let mut t = w.text.clone();
        let m = 1 + ch().weighted(&[6, 2, 1]);
        for _ in 0..m {
            t = slip(w, &t, &all);
        }
        let intact = (t == w.text).then_some(w);
        // what it was meant to be is not what it is read as: every reader gets it
        let form = if ch().chance(1, 8) { [Form::Address, Form::C32, Form::B58][ch().below(3)] } else { w.form };
        read_back(form, &t, if form == w.form { intact } else { None });
        pause();
    }
    // on a disk
    let slots = 1 + ch().below(3);
    let mut disk = Disk::new(SLOT * slots);
    let mut last: Vec<Option<usize>> = vec![None; slots];
    let mut hist: Vec<Vec<usize>> = vec![vec![]; slots];
    let steps = 2 + ch().below(10);
    for _ in 0..steps {
        let s = ch().below(slots);
        match ch().draw(8) {
            0..=3 => {
                let i = ch().below(all.len());
                // an update in place, without or with wiping the rest of the slot
                let mut b = all[i].text.clone().into_bytes();
                b.push(b'\n');
                b.resize(SLOT, b'\n');
                disk.write(s * SLOT, &b);
                last[s] = Some(i);
                hist[s].push(i);
            }
            4 => disk.sync(),
            5 => {
                disk.crash();
                for l in &mut last {
                    *l = None;
                }
            }
            6 => {
                disk.rot();
                for l in &mut last {
                    *l = None;
                }
            }
            _ => {}
        }
        let raw = disk.read(s * SLOT, SLOT);
        let text = String::from_utf8_lossy(&raw[..raw.iter().position(|b| *b == b'\n').unwrap_or(SLOT)]).into_owned();
        let _ = &last;
        for i in hist[s].iter().rev().take(2) {
            let w = &all[*i];
            read_back(w.form, &text, (text == w.text).then_some(w));
        }
        pause();
    }
}

// ------------------------------------------------------------------ C11

#[derive(Clone, Debug)]
enum Obj {
    Val(V),
    Args(Vec<V>),
    Pay(rf::Payload, String),
}

impl Obj {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Obj::Val(v) => v.bytes(),
            Obj::Args(a) => {
                let mut o = (a.len() as u32).to_be_bytes().to_vec();
                for v in a {
                    v.enc(&mut o);
                }
                o
            }
            Obj::Pay(p, _) => p.bytes(),
        }
    }
    fn kind(&self) -> Kind {
        match self {
            Obj::Val(_) => Kind::Val,
            Obj::Args(_) => Kind::Args,
            Obj::Pay(..) => Kind::Pay,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Val,
    Args,
    Pay,
}

/// What a caller gets: what it holds (bytes by the reference encoder) and what the library encodes it as.
struct Got {
    holds: Option<Vec<u8>>,
    enc: Result<Vec<u8>, String>,
}

#[allow(clippy::borrowed_box)]
fn of(v: &Box<dyn Clarity>) -> Got {
    Got { holds: gen::from_lib(v).map(|x| x.bytes()), enc: v.encode().map_err(|e| e.to_string()) }
}

fn typed<T: Clarity + Codec>(b: &[u8]) -> Result<Got, String> {
    T::decode(b).map(|x| of(&(Box::new(x) as Box<dyn Clarity>))).map_err(|e| e.to_string())
}

fn args_got(a: &lc::FnArguments) -> Got {
    let vs: Option<Vec<V>> = a.value().iter().map(gen::from_lib).collect();
    Got { holds: vs.map(|v| Obj::Args(v).bytes()), enc: a.encode().map_err(|e| e.to_string()) }
}

fn transfer_got(p: &lt::TokenTransferPayload) -> Got {
    let to = gen::from_lib(&p.address);
    let holds = to.filter(|t| matches!(t, V::Std(..) | V::Con(..))).and_then(|t| {
        let m = p.memo.as_bytes();
        if m.len() > 34 {
            return None;
        }
        let mut o = vec![0u8];
        t.enc(&mut o);
        o.extend_from_slice(&p.amount.to_be_bytes());
        o.extend_from_slice(m);
        o.extend(std::iter::repeat(0).take(34 - m.len()));
        Some(o)
    });
    Got { holds, enc: p.encode().map_err(|e| e.to_string()) }
}

fn call_got(p: &lt::ContractCallPayload) -> Got {
    let holds = args_got(&p.args).holds.map(|a| {
        let mut o = vec![2u8, p.address.version];
        o.extend_from_slice(p.address.hash.as_bytes());
        rf::lps(&mut o, p.contract.value());
        rf::lps(&mut o, p.name.value());
        o.extend_from_slice(&a);
        o
    });
    Got { holds, enc: p.encode().map_err(|e| e.to_string()) }
}

/// Every way to read such bytes; the second is by the type the first byte names.
fn readers(kind: Kind, b: &[u8]) -> Vec<(&'static str, Box<dyn Fn(&[u8]) -> Result<Got, String>>)> {
    let mut out: Vec<(&'static str, Box<dyn Fn(&[u8]) -> Result<Got, String>>)> = Vec::new();
    match kind {
        Kind::Val => {
            out.push(("decode_clarity_type", Box::new(|b| lc::decode_clarity_type(b).map(|v| of(&v)).map_err(|e| e.to_string()))));
            let t: (&'static str, Box<dyn Fn(&[u8]) -> Result<Got, String>>) = match b.first() {
                Some(0) => ("Int::decode", Box::new(typed::<lc::Int>)),
                Some(1) => ("UInt::decode", Box::new(typed::<lc::UInt>)),
                Some(2) => ("Buffer::decode", Box::new(typed::<lc::Buffer>)),
                Some(3) => ("True::decode", Box::new(typed::<lc::True>)),
                Some(4) => ("False::decode", Box::new(typed::<lc::False>)),
                Some(5) => ("PrincipalStandard::decode", Box::new(typed::<lc::PrincipalStandard>)),
                Some(6) => ("PrincipalContract::decode", Box::new(typed::<lc::PrincipalContract>)),
                Some(7) => ("ResponseOk::decode", Box::new(typed::<lc::ResponseOk>)),
                Some(8) => ("ResponseErr::decode", Box::new(typed::<lc::ResponseErr>)),
                Some(9) => ("OptionalNone::decode", Box::new(typed::<lc::OptionalNone>)),
                Some(10) => ("OptionalSome::decode", Box::new(typed::<lc::OptionalSome>)),
                Some(11) => ("List::decode", Box::new(typed::<lc::List>)),
                Some(12) => ("Tuple::decode", Box::new(typed::<lc::Tuple>)),
                Some(13) => ("StringAscii::decode", Box::new(typed::<lc::StringAscii>)),
                _ => ("StringUtf8::decode", Box::new(typed::<lc::StringUtf8>)),
            };
            out.push(t);
        }
        Kind::Args => out.push(("FnArguments::decode", Box::new(|b| lc::FnArguments::decode(b).map(|a| args_got(&a)).map_err(|e| e.to_string())))),
        Kind::Pay => {
            out.push((
                "Payload::decode",
                Box::new(|b| {
                    let p = <Box<dyn lt::Payload> as Codec>::decode(b).map_err(|e| e.to_string())?;
                    let enc = p.encode().map_err(|e| e.to_string());
                    Ok(Got { holds: enc.clone().ok(), enc })
                }),
            ));
            if b.first() == Some(&2) {
                out.push(("ContractCallPayload::decode", Box::new(|b| lt::ContractCallPayload::decode(b).map(|p| call_got(&p)).map_err(|e| e.to_string()))));
            } else {
                out.push(("TokenTransferPayload::decode", Box::new(|b| lt::TokenTransferPayload::decode(b).map(|p| transfer_got(&p)).map_err(|e| e.to_string()))));
            }
        }
    }
    out
}

enum Expect<'a> {
    /// Exactly this encoding, possibly followed by something else.
    Intact(&'a [u8]),
    /// A strict prefix of an encoding.
    Torn,
    Damaged,
}

fn read_value(kind: Kind, tag: &[u8], b: &[u8], want: &Expect) {
    for (name, f) in readers(kind, tag) {
        let (r, peak) = crate::alloc::peak(|| guard(|| f(b)));
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                viol("C11", "panic", format!("{name} panicked: {p}; input {}", short(&rf::hex(b))));
                continue;
            }
        };
        let limit = (1 << 20) + 1000 * b.len();
        check("C11", peak <= limit, "memory", || format!("{name} held {peak} bytes for an input of {}", b.len()));
        match (want, r) {
            (Expect::Intact(w), Ok(g)) => {
                check("C11", g.holds.as_deref() == Some(w) && g.enc.as_deref() == Ok(w), "intact value misread", || {
                    format!("{name}: {} holds {:?}, encodes as {:?}", short(&rf::hex(w)), g.holds.as_deref().map(rf::hex).map(|s| short(&s)), g.enc.map(|e| short(&rf::hex(&e))))
                });
                hit("intact");
            }
            (Expect::Intact(w), Err(e)) => {
                check("C11", false, "intact value refused", || format!("{name}: {e}: {}", short(&rf::hex(w))));
            }
            (Expect::Torn, r) => {
                check("C11", r.is_err(), "torn value accepted", || format!("{name}: {} bytes: {}", b.len(), short(&rf::hex(b))));
                hit("torn");
            }
            (Expect::Damaged, Ok(g)) => {
                let ok = g.enc.as_ref().is_ok_and(|e| b.starts_with(e)) && g.holds.as_ref() == g.enc.as_ref().ok();
                check("C11", ok, "damaged value misread", || {
                    format!(
                        "{name}: {} holds {:?}, encodes as {:?}",
                        short(&rf::hex(b)),
                        g.holds.as_deref().map(rf::hex).map(|s| short(&s)),
                        g.enc.map(|e| short(&rf::hex(&e)))
                    )
                });
                hit("damaged but readable");
            }
            (Expect::Damaged, Err(_)) => {
                check("C11", true, "", String::new);
                hit("damaged and refused");
            }
        }
    }
}

fn object() -> Obj {
    let c = ch();
    match c.draw(6) {
        0 => {
            let n = c.below(5);
            Obj::Args((0..n).map(|_| gen::value(c, 2, false)).collect())
        }
        1 | 2 => {
            let (p, m) = gen::payload(c, false);
            Obj::Pay(p, m)
        }
        3 => Obj::Val(gen::value(c, 0, true)),
        _ => Obj::Val(gen::value(c, 3, true)),
    }
}

/// Where the lengths of an encoding are.
fn harm(b: &mut Vec<u8>, others: &[Vec<u8>]) {
    let c = ch();
    if b.is_empty() {
        b.push(c.draw(256) as u8);
        return;
    }
    let i = spot(b.len());
    let c = ch();
    match c.draw(16) {
        14 | 15 => {
            // other characters where letters were
            let x: &[u8] = ["é", "漢", "🦀", "\u{80}", "\u{7ff}", "\u{202e}"][c.below(6)].as_bytes();
            let spots: Vec<usize> = (0..b.len().saturating_sub(x.len() - 1)).filter(|i| b[*i..*i + x.len()].iter().all(|y| (0x21..0x7f).contains(y))).collect();
            let at = if spots.is_empty() { i } else { spots[c.below(spots.len())] };
            for (k, y) in x.iter().enumerate() {
                if at + k < b.len() {
                    b[at + k] = *y;
                }
            }
            rt().fault("bytes replaced");
        }
        0 | 1 => {
            b[i] ^= 1 << c.draw(8);
            rt().fault("flipped bit");
        }
        2 => {
            b[i] = c.draw(256) as u8;
            rt().fault("byte replaced");
        }
        3 => {
            b.remove(i);
            rt().fault("byte lost");
        }
        4 => {
            let x = b[i];
            b.insert(i, x);
            rt().fault("byte repeated");
        }
        5 => {
            let j = c.below(b.len());
            b.swap(i, j);
            rt().fault("bytes swapped");
        }
        6 => {
            let o = &others[c.below(others.len())];
            let k = c.below(o.len() + 1);
            b.truncate(i);
            b.extend_from_slice(&o[k.min(o.len())..]);
            rt().fault("torn between two");
        }
        7 => {
            // a tag or a length
            b[i] = c.draw(17) as u8;
            rt().fault("byte replaced");
        }
        8 => {
            // a length field turned huge, tiny or off by one
            let n = b.len();
            if n >= 5 {
                let at = if c.chance(1, 2) { 1 } else { c.below(n - 4) };
                let old = u32::from_be_bytes(b[at..at + 4].try_into().unwrap());
                let new: u32 = [0, u32::MAX, 0x7fff_ffff, 0x8000_0000, old.wrapping_add(1), old.wrapping_sub(1), 0x00ff_ffff, 1][c.below(8)];
                b[at..at + 4].copy_from_slice(&new.to_be_bytes());
            }
            rt().fault("length field changed");
        }
        9 => {
            let n = 1 + c.below(20);
            let x = c.bytes(n);
            b.splice(i..i, x);
            rt().fault("bytes added");
        }
        10 => {
            let e = (i + 1 + c.below(8)).min(b.len());
            b[i..e].iter_mut().for_each(|x| *x = 0);
            rt().fault("zeroed");
        }
        11 => {
            let e = (i + 1 + c.below(16)).min(b.len());
            b.drain(i..e);
            rt().fault("bytes lost");
        }
        12 => {
            let o = &others[c.below(others.len())];
            let at = i.min(b.len());
            b.splice(at..at, o.iter().copied());
            rt().fault("misplaced write");
        }
        _ => {
            b.truncate(i);
            rt().fault("cut short");
        }
    }
}

/// Bytes nobody ever encoded.
fn hostile() -> (Kind, Vec<u8>) {
    let c = ch();
    rt().fault("hostile bytes");
    let kind = [Kind::Val, Kind::Val, Kind::Args, Kind::Pay][c.below(4)];
    let mut b: Vec<u8> = match kind {
        Kind::Val => vec![],
        Kind::Args => 1u32.to_be_bytes().to_vec(),
        Kind::Pay => {
            let mut b = vec![2u8, 22];
            b.extend_from_slice(&[3; 20]);
            b.extend_from_slice(b"\x01a\x01b\0\0\0\x01");
            b
        }
    };
    match c.draw(6) {
        0 => {
            // nested without end
            let n = [40, 63, 64, 65, 66, 100, 1000, 50_000, 400_000][c.below(9)];
            let unit: &[u8] = [&b"\x0a"[..], b"\x07", b"\x08", b"\x0b\0\0\0\x01", b"\x0c\0\0\0\x01\x01k"][c.below(5)];
            for _ in 0..n {
                b.extend_from_slice(unit);
            }
            if c.chance(1, 2) {
                b.push(9);
            }
        }
        1 => {
            b.push([2, 11, 12, 13, 14][c.below(5)]);
            b.extend_from_slice(&[u32::MAX, 0x7fff_ffff, 0x8000_0000, 0x1000_0000, 0x0010_0000][c.below(5)].to_be_bytes());
            let n = c.below(64);
            let x = c.bytes(n);
            b.extend_from_slice(&x);
        }
        2 => {
            // a long flat list of nothing
            let n = [1000u32, 20_000, 100_000][c.below(3)];
            b.push(11);
            b.extend_from_slice(&n.to_be_bytes());
            b.extend(std::iter::repeat([3, 4, 9][c.below(3)]).take(n as usize));
        }
        3 => {
            // lists of lists that claim much
            let n = 1 + c.below(40);
            for _ in 0..n {
                b.push(11);
                b.extend_from_slice(&[0xff, 0xff, 0xff, 0xff]);
            }
        }
        _ => {
            let n = gen::size(c, 300);
            let mut p = c.sub();
            for _ in 0..n {
                let x = p.next();
                b.push(if x & 1 == 0 { (x >> 8) as u8 } else { (x >> 8) as u8 % 16 });
            }
        }
    }
    (kind, b)
}

/// The same bytes kept as text.
fn text_copy(o: &Obj, w: &[u8], others: &[Vec<u8>]) {
    use stacks_rs::crypto::hex_to_bytes;
    let plain = rf::hex(w);
    if let Obj::Val(v) = o {
        let got = lib("C11", "hex", || {
            let x = gen::to_lib(v);
            (x.hex().map_err(|e| e.to_string()), x.hex_prefixed().map_err(|e| e.to_string()))
        });
        let Some((a, b)) = got else { return };
        check("C11", a.as_ref().is_ok_and(|a| a.eq_ignore_ascii_case(&plain)), "hex text differs", || format!("{a:?} for {plain}"));
        check("C11", b.as_ref().is_ok_and(|b| b.strip_prefix("0x").is_some_and(|b| b.eq_ignore_ascii_case(&plain))), "hex text differs", || format!("{b:?} for {plain}"));
    }
    let mut t: Vec<u8> = match ch().draw(4) {
        0 => plain.to_uppercase().into_bytes(),
        1 => {
            let mut p = ch().sub();
            plain.bytes().map(|b| if p.next() & 1 == 0 { b.to_ascii_uppercase() } else { b }).collect()
        }
        _ => plain.clone().into_bytes(),
    };
    let harmed = ch().chance(2, 3);
    if harmed {
        match ch().draw(6) {
            0 => {
                let at = ch().below(t.len());
                t.truncate(at);
                rt().fault("torn write");
            }
            1 => {
                let i = ch().below(t.len());
                t.remove(i);
                rt().fault("byte lost");
            }
            2 | 3 => {
                // what creeps into text
                let i = spot(t.len());
                t[i] = *ch().pick(b"_ -+gGoOlxX.:/@`{\n\0\t");
                rt().fault("byte replaced");
            }
            4 => {
                let i = spot(t.len());
                t.insert(i, *ch().pick(b"_ -+gGx\n\0"));
                rt().fault("byte added");
            }
            _ => {
                let o: Vec<Vec<u8>> = others.iter().map(|b| rf::hex(b).into_bytes()).collect();
                harm(&mut t, &o);
            }
        }
    }
    let t = String::from_utf8_lossy(&t).into_owned();
    let want: Option<Vec<u8>> = (t.len() % 2 == 0)
        .then(|| t.as_bytes().chunks(2).map(|c| Some((char::from(c[0]).to_digit(16)? * 16 + char::from(c[1]).to_digit(16)?) as u8)).collect())
        .flatten();
    let got = match guard(|| hex_to_bytes(&t).map_err(|e| e.to_string())) {
        Ok(g) => g,
        Err(e) => {
            viol("C11", "panic", format!("hex_to_bytes panicked: {e}; input {}", short(&t)));
            return;
        }
    };
    match (want, got) {
        (Some(b), got) => {
            if !check("C11", got.as_ref() == Ok(&b), "hex text misread", || format!("{} read as {got:?}", short(&t))) {
                return;
            }
            hit("hex text");
            let e = if b == w {
                Expect::Intact(w)
            } else if b.len() < w.len() && w.starts_with(&b) {
                Expect::Torn
            } else {
                Expect::Damaged
            };
            read_value(o.kind(), w, &b, &e);
        }
        // a prefix is a matter of spelling
        (None, Ok(b)) if t.starts_with("0x") && rf::unhex(&t[2..]).as_ref() == Some(&b) => {}
        (None, got) => {
            check("C11", got.is_err(), "damaged hex text accepted", || format!("{} read as {got:?}", short(&t)));
            hit("damaged hex text refused");
        }
    }
}

fn c11() {
    let n = 1 + ch().below(4);
    let mut all: Vec<(Obj, Vec<u8>)> = Vec::new();
    for _ in 0..n {
        let o = object();
        let want = o.bytes();
        let got = lib("C11", "encoding", || {
            match &o {
                Obj::Val(v) => gen::to_lib(v).encode().map_err(|e| e.to_string()),
                Obj::Args(a) => gen::lib_args(a).encode().map_err(|e| e.to_string()),
                Obj::Pay(p, m) => gen::lib_payload(p, m).and_then(|p| p.encode().map_err(|e| e.to_string())),
            }
        });
        let Some(got) = got else { return };
        if !check("C11", got.as_ref() == Ok(&want), "wrong encoding", || format!("{o:?}: {got:?}")) {
            return;
        }
        read_value(o.kind(), &want, &want, &Expect::Intact(&want));
        all.push((o, want));
        pause();
    }
    let bytes: Vec<Vec<u8>> = all.iter().map(|x| x.1.clone()).collect();
    let k = 4 + ch().below(28);
    for _ in 0..k {
        let (o, w) = &all[ch().below(all.len())];
        match ch().draw(11) {
            10 => text_copy(o, w, &bytes),
            0 => {
                // intact, again
                read_value(o.kind(), w, w, &Expect::Intact(w));
            }
            1 => {
                // with something behind it
                let mut b = w.clone();
                match ch().draw(3) {
                    0 => {
                        let n = 1 + ch().below(40);
                        let x = ch().bytes(n);
                        b.extend_from_slice(&x);
                    }
                    1 => {
                        let x = bytes[ch().below(bytes.len())].clone();
                        b.extend_from_slice(&x);
                    }
                    _ => b.extend_from_slice(&[0xff; 64]),
                }
                rt().fault("something behind it");
                read_value(o.kind(), w, &b, &Expect::Intact(w));
            }
            2 | 3 => {
                let at = match ch().draw(4) {
                    0 => w.len() - 1,
                    1 => ch().below(w.len().min(30)),
                    _ => ch().below(w.len()),
                };
                rt().fault("torn write");
                read_value(o.kind(), w, &w[..at], &Expect::Torn);
            }
            4 => {
                // every cut of a short one
                if w.len() < 80 {
                    rt().fault("torn write");
                    for at in 0..w.len() {
                        read_value(o.kind(), w, &w[..at], &Expect::Torn);
                    }
                }
            }
            5 if ch().chance(1, 2) => {
                let (kind, b) = hostile();
                read_value(kind, &b, &b, &Expect::Damaged);
            }
            _ => {
                let mut b = w.clone();
                let m = 1 + ch().weighted(&[6, 2, 1]);
                for _ in 0..m {
                    harm(&mut b, &bytes);
                }
                let kind = if ch().chance(1, 10) { [Kind::Val, Kind::Args, Kind::Pay][ch().below(3)] } else { o.kind() };
                let want = if b == *w && kind == o.kind() {
                    Expect::Intact(w)
                } else if b.len() < w.len() && w.starts_with(&b) && kind == o.kind() {
                    Expect::Torn
                } else {
                    Expect::Damaged
                };
                read_value(kind, if ch().chance(1, 6) { w } else { &b }, &b, &want);
            }
        }
        pause();
    }
    // On a disk, overwritten in place, across crashes.
    let slot = bytes.iter().map(Vec::len).max().unwrap_or(0) + 16;
    if slot < 4000 && ch().chance(1, 2) {
        let mut disk = Disk::new(slot);
        let mut prev: Option<usize> = None;
        let steps = 1 + ch().below(5);
        for _ in 0..steps {
            let i = ch().below(all.len());
            disk.write(0, &bytes[i]);
            match ch().draw(4) {
                0 => disk.sync(),
                1 | 2 => disk.crash(),
                _ => {
                    disk.sync();
                    disk.rot();
                }
            }
            let b = disk.read(0, slot);
            for j in [Some(i), prev].into_iter().flatten() {
                let (o, w) = &all[j];
                let want = if b.starts_with(w) { Expect::Intact(w) } else { Expect::Damaged };
                read_value(o.kind(), &b, &b, &want);
            }
            prev = Some(i);
            pause();
        }
    }
    // and at the end the first is still read as before
    let (o, w) = &all[0];
    read_value(o.kind(), w, w, &Expect::Intact(w));
}
