//! Independent reference implementation: hashes, c32, base58check, Clarity values, SIP-005
//! transactions, signature rules, BIP-39/32. Shares no code with the crate under test except the
//! libsecp256k1 binding (curve arithmetic).

use hmac::{Hmac, Mac};
use ripemd::Ripemd160;
use secp256k1::ecdsa::{RecoverableSignature, RecoveryId};
use secp256k1::{Message, PublicKey, Secp256k1, SecretKey};
use sha2::{Digest, Sha256, Sha512, Sha512_256};

pub fn sha256(b: &[u8]) -> [u8; 32] {
    Sha256::digest(b).into()
}
pub fn dsha256(b: &[u8]) -> [u8; 32] {
    sha256(&sha256(b))
}
pub fn sha512_256(b: &[u8]) -> [u8; 32] {
    Sha512_256::digest(b).into()
}
pub fn hash160(b: &[u8]) -> [u8; 20] {
    Ripemd160::digest(sha256(b)).into()
}
pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    let d = |c: u8| -> Option<u8> { (c as char).to_digit(16).map(|x| x as u8) };
    b.chunks(2).map(|p| Some(d(p[0])? << 4 | d(p[1])?)).collect()
}

// ---------------------------------------------------------------- positional number systems

/// Big-endian base conversion by schoolbook division, no leading zeros in the output.
fn convert(digits: &[u8], from: u32, to: u32) -> Vec<u8> {
    let mut out = Vec::new();
    let mut cur: Vec<u8> = digits.iter().copied().skip_while(|d| *d == 0).collect();
    while !cur.is_empty() {
        let mut rem = 0u32;
        let mut next = Vec::with_capacity(cur.len());
        for d in &cur {
            let x = rem * from + u32::from(*d);
            let q = x / to;
            rem = x % to;
            if !next.is_empty() || q != 0 {
                next.push(q as u8);
            }
        }
        out.push(rem as u8);
        cur = next;
    }
    out.reverse();
    out
}

const C32: &[u8; 32] = b"0123456789ABCDEFGHJKMNPQRSTVWXYZ";
const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";

fn base_encode(data: &[u8], alphabet: &[u8]) -> String {
    let zeros = data.iter().take_while(|b| **b == 0).count();
    let mut s: String = std::iter::repeat(alphabet[0] as char).take(zeros).collect();
    for d in convert(data, 256, alphabet.len() as u32) {
        s.push(alphabet[d as usize] as char);
    }
    s
}

fn base_decode(digits: &[u8], base: u32) -> Vec<u8> {
    let zeros = digits.iter().take_while(|b| **b == 0).count();
    let mut v = vec![0u8; zeros];
    v.extend(convert(digits, base, 256));
    v
}

/// c32check text of any payload (also malformed ones, for the refusal scenarios).
pub fn c32check(version: u8, payload: &[u8]) -> String {
    let mut c = vec![version];
    c.extend_from_slice(payload);
    let sum = dsha256(&c);
    let mut body = payload.to_vec();
    body.extend_from_slice(&sum[..4]);
    format!("{}{}", C32[version as usize] as char, base_encode(&body, C32))
}

pub fn c32_address(version: u8, hash: &[u8; 20]) -> String {
    format!("S{}", c32check(version, hash))
}

/// Strict reading of an address text as any spelling (case, O/0, I/L/1) of a valid address.
pub fn c32_address_parse(s: &str) -> Option<(u8, [u8; 20])> {
    let s = s.strip_prefix('S')?;
    let mut ds = Vec::new();
    for c in s.chars() {
        let c = match c.to_ascii_uppercase() {
            'O' => '0',
            'I' | 'L' => '1',
            c => c,
        };
        ds.push(C32.iter().position(|x| *x as char == c)? as u8);
    }
    let (v, ds) = ds.split_first()?;
    let b = base_decode(ds, 32);
    if b.len() != 24 {
        return None;
    }
    let mut c = vec![*v];
    c.extend_from_slice(&b[..20]);
    if dsha256(&c)[..4] != b[20..] {
        return None;
    }
    Some((*v, b[..20].try_into().unwrap()))
}

/// Any spelling of c32check text, without length limits on the payload.
pub fn c32check_parse(s: &str) -> Option<(u8, Vec<u8>)> {
    let mut ds = Vec::new();
    for c in s.chars() {
        let c = match c.to_ascii_uppercase() {
            'O' => '0',
            'I' | 'L' => '1',
            c => c,
        };
        ds.push(C32.iter().position(|x| *x as char == c)? as u8);
    }
    let (v, ds) = ds.split_first()?;
    let b = base_decode(ds, 32);
    if b.len() < 4 {
        return None;
    }
    let (data, sum) = b.split_at(b.len() - 4);
    let mut c = vec![*v];
    c.extend_from_slice(data);
    (dsha256(&c)[..4] == *sum).then(|| (*v, data.to_vec()))
}

pub fn b58check(version: u8, payload: &[u8]) -> String {
    let mut c = vec![version];
    c.extend_from_slice(payload);
    let sum = dsha256(&c);
    c.extend_from_slice(&sum[..4]);
    base_encode(&c, B58)
}

pub fn b58_digits(s: &str) -> Option<Vec<u8>> {
    s.chars().map(|c| B58.iter().position(|x| *x as char == c).map(|p| p as u8)).collect()
}

pub fn b58check_parse(s: &str) -> Option<(u8, Vec<u8>)> {
    let b = base_decode(&b58_digits(s)?, 58);
    if b.len() < 5 {
        return None;
    }
    let (body, sum) = b.split_at(b.len() - 4);
    if dsha256(body)[..4] != *sum {
        return None;
    }
    Some((body[0], body[1..].to_vec()))
}

/// Text of raw bytes (checksum included as given).
pub fn b58_raw(b: &[u8]) -> String {
    base_encode(b, B58)
}
pub fn c32_raw(b: &[u8]) -> String {
    base_encode(b, C32)
}
pub fn c32_char(v: u8) -> char {
    C32[v as usize] as char
}

// ---------------------------------------------------------------- Clarity

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum V {
    Int(i128),
    UInt(u128),
    Buf(Vec<u8>),
    Bool(bool),
    Std(u8, [u8; 20]),
    Con(u8, [u8; 20], String),
    Ok(Box<V>),
    Err(Box<V>),
    None,
    Some(Box<V>),
    List(Vec<V>),
    Tuple(Vec<(String, V)>),
    Ascii(String),
    Utf8(String),
}

impl V {
    pub fn enc(&self, o: &mut Vec<u8>) {
        let len = |o: &mut Vec<u8>, n: usize| o.extend_from_slice(&(n as u32).to_be_bytes());
        match self {
            V::Int(i) => {
                o.push(0);
                o.extend_from_slice(&i.to_be_bytes());
            }
            V::UInt(i) => {
                o.push(1);
                o.extend_from_slice(&i.to_be_bytes());
            }
            V::Buf(b) => {
                o.push(2);
                len(o, b.len());
                o.extend_from_slice(b);
            }
            V::Bool(b) => o.push(if *b { 3 } else { 4 }),
            V::Std(v, h) => {
                o.extend_from_slice(&[5, *v]);
                o.extend_from_slice(h);
            }
            V::Con(v, h, n) => {
                o.extend_from_slice(&[6, *v]);
                o.extend_from_slice(h);
                lps(o, n);
            }
            V::Ok(x) => {
                o.push(7);
                x.enc(o);
            }
            V::Err(x) => {
                o.push(8);
                x.enc(o);
            }
            V::None => o.push(9),
            V::Some(x) => {
                o.push(10);
                x.enc(o);
            }
            V::List(l) => {
                o.push(11);
                len(o, l.len());
                l.iter().for_each(|x| x.enc(o));
            }
            V::Tuple(t) => {
                o.push(12);
                len(o, t.len());
                for (k, x) in t {
                    lps(o, k);
                    x.enc(o);
                }
            }
            V::Ascii(s) => {
                o.push(13);
                len(o, s.len());
                o.extend_from_slice(s.as_bytes());
            }
            V::Utf8(s) => {
                o.push(14);
                len(o, s.len());
                o.extend_from_slice(s.as_bytes());
            }
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = Vec::new();
        self.enc(&mut o);
        o
    }
    /// Clarity literal rendering as the library documents it.
    pub fn show(&self) -> String {
        match self {
            V::Int(i) => i.to_string(),
            V::UInt(i) => format!("u{i}"),
            V::Buf(b) => format!("0x{}", hex(b)),
            V::Bool(b) => b.to_string(),
            V::Std(v, h) => c32_address(*v, h),
            V::Con(v, h, n) => format!("{}.{n}", c32_address(*v, h)),
            V::Ok(x) => format!("(ok {})", x.show()),
            V::Err(x) => format!("(err {})", x.show()),
            V::None => "none".into(),
            V::Some(x) => format!("(some {})", x.show()),
            V::List(l) => format!("(list {})", l.iter().map(V::show).collect::<Vec<_>>().join(" ")),
            V::Tuple(t) => format!(
                "(tuple {})",
                t.iter().map(|(k, x)| format!("({k} {})", x.show())).collect::<Vec<_>>().join(" ")
            ),
            V::Ascii(s) => format!("\"{s}\""),
            V::Utf8(s) => format!("u\"{s}\""),
        }
    }
    pub fn depth(&self) -> usize {
        1 + match self {
            V::Ok(x) | V::Err(x) | V::Some(x) => x.depth(),
            V::List(l) => l.iter().map(V::depth).max().unwrap_or(0),
            V::Tuple(t) => t.iter().map(|(_, x)| x.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
}

pub fn lps(o: &mut Vec<u8>, s: &str) {
    o.push(s.len() as u8);
    o.extend_from_slice(s.as_bytes());
}

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
}

type R<T> = Result<T, String>;

impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, p: 0 }
    }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() - self.p < n {
            return Err(format!("short input at {}", self.p));
        }
        let r = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(r)
    }
    pub fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> R<u16> {
        Ok(u16::from_be_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn u32(&mut self) -> R<u32> {
        Ok(u32::from_be_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> R<u64> {
        Ok(u64::from_be_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn h20(&mut self) -> R<[u8; 20]> {
        Ok(self.take(20)?.try_into().unwrap())
    }
    pub fn lps(&mut self) -> R<String> {
        let n = self.u8()? as usize;
        if n > 128 {
            return Err("name over 128 bytes".into());
        }
        String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
    }
    pub fn value(&mut self, depth: usize) -> R<V> {
        if depth > 200 {
            return Err("too deep".into());
        }
        Ok(match self.u8()? {
            0 => V::Int(i128::from_be_bytes(self.take(16)?.try_into().unwrap())),
            1 => V::UInt(u128::from_be_bytes(self.take(16)?.try_into().unwrap())),
            2 => {
                let n = self.u32()? as usize;
                V::Buf(self.take(n)?.to_vec())
            }
            3 => V::Bool(true),
            4 => V::Bool(false),
            5 => V::Std(self.u8()?, self.h20()?),
            6 => V::Con(self.u8()?, self.h20()?, self.lps()?),
            7 => V::Ok(Box::new(self.value(depth + 1)?)),
            8 => V::Err(Box::new(self.value(depth + 1)?)),
            9 => V::None,
            10 => V::Some(Box::new(self.value(depth + 1)?)),
            11 => {
                let n = self.u32()?;
                let mut l = Vec::new();
                for _ in 0..n {
                    l.push(self.value(depth + 1)?);
                }
                V::List(l)
            }
            12 => {
                let n = self.u32()?;
                let mut t = Vec::new();
                for _ in 0..n {
                    let k = self.lps()?;
                    t.push((k, self.value(depth + 1)?));
                }
                V::Tuple(t)
            }
            13 => {
                let n = self.u32()? as usize;
                let s = String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())?;
                if !s.is_ascii() {
                    return Err("non-ascii".into());
                }
                V::Ascii(s)
            }
            14 => {
                let n = self.u32()? as usize;
                V::Utf8(String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())?)
            }
            t => return Err(format!("clarity type {t}")),
        })
    }
    pub fn done(&self) -> R<()> {
        if self.p == self.b.len() {
            Ok(())
        } else {
            Err(format!("{} trailing bytes", self.b.len() - self.p))
        }
    }
}

pub fn decode_value(b: &[u8]) -> R<V> {
    let mut r = Rd::new(b);
    let v = r.value(0)?;
    r.done()?;
    Ok(v)
}

// ---------------------------------------------------------------- transactions

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Field {
    Pk([u8; 33]),
    Sig([u8; 65]),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Cond {
    Single { mode: u8, signer: [u8; 20], nonce: u64, fee: u64, sig: [u8; 65] },
    Multi { mode: u8, signer: [u8; 20], nonce: u64, fee: u64, fields: Vec<Field>, required: u16 },
}

impl Cond {
    pub fn signer(&self) -> [u8; 20] {
        match self {
            Cond::Single { signer, .. } | Cond::Multi { signer, .. } => *signer,
        }
    }
    pub fn nonce_fee(&self) -> (u64, u64) {
        match self {
            Cond::Single { nonce, fee, .. } | Cond::Multi { nonce, fee, .. } => (*nonce, *fee),
        }
    }
    pub fn set(&mut self, n: u64, f: u64) {
        match self {
            Cond::Single { nonce, fee, .. } | Cond::Multi { nonce, fee, .. } => {
                *nonce = n;
                *fee = f;
            }
        }
    }
    pub fn cleared(&self) -> Cond {
        let mut c = self.clone();
        c.set(0, 0);
        match &mut c {
            Cond::Single { sig, .. } => *sig = [0; 65],
            Cond::Multi { fields, .. } => fields.clear(),
        }
        c
    }
    pub fn sentinel() -> Cond {
        Cond::Single { mode: 0, signer: [0; 20], nonce: 0, fee: 0, sig: [0; 65] }
    }
    pub fn enc(&self, o: &mut Vec<u8>) {
        match self {
            Cond::Single { mode, signer, nonce, fee, sig } => {
                o.push(*mode);
                o.extend_from_slice(signer);
                o.extend_from_slice(&nonce.to_be_bytes());
                o.extend_from_slice(&fee.to_be_bytes());
                o.push(0);
                o.extend_from_slice(sig);
            }
            Cond::Multi { mode, signer, nonce, fee, fields, required } => {
                o.push(*mode);
                o.extend_from_slice(signer);
                o.extend_from_slice(&nonce.to_be_bytes());
                o.extend_from_slice(&fee.to_be_bytes());
                o.extend_from_slice(&(fields.len() as u32).to_be_bytes());
                for f in fields {
                    match f {
                        Field::Pk(k) => {
                            o.push(0);
                            o.extend_from_slice(k);
                        }
                        Field::Sig(s) => {
                            o.push(2);
                            o.extend_from_slice(s);
                        }
                    }
                }
                o.extend_from_slice(&required.to_be_bytes());
            }
        }
    }
    pub fn dec(r: &mut Rd) -> R<Cond> {
        let mode = r.u8()?;
        let signer = r.h20()?;
        let nonce = r.u64()?;
        let fee = r.u64()?;
        match mode {
            0 | 2 => {
                if r.u8()? != 0 {
                    return Err("key encoding".into());
                }
                let sig = r.take(65)?.try_into().unwrap();
                Ok(Cond::Single { mode, signer, nonce, fee, sig })
            }
            1 | 3 => {
                let n = r.u32()?;
                let mut fields = Vec::new();
                for _ in 0..n {
                    fields.push(match r.u8()? {
                        0 => Field::Pk(r.take(33)?.try_into().unwrap()),
                        2 => Field::Sig(r.take(65)?.try_into().unwrap()),
                        t => return Err(format!("auth field {t}")),
                    });
                }
                let required = r.u16()?;
                Ok(Cond::Multi { mode, signer, nonce, fee, fields, required })
            }
            m => Err(format!("hash mode {m}")),
        }
    }
    /// The network's verification of one condition: next sighash, or why not.
    pub fn verify(&self, start: [u8; 32], flag: u8) -> R<[u8; 32]> {
        match self {
            Cond::Single { mode, signer, nonce, fee, sig } => {
                let (pk, next) = next_verify(start, flag, *fee, *nonce, sig)?;
                let h = if *mode == 0 { hash160(&pk) } else { p2wpkh(&pk) };
                if h != *signer {
                    return Err("signer".into());
                }
                Ok(next)
            }
            Cond::Multi { mode, signer, nonce, fee, fields, required } => {
                let mut cur = start;
                let mut keys = Vec::new();
                let mut n = 0u16;
                for f in fields {
                    match f {
                        Field::Pk(k) => keys.push(*k),
                        Field::Sig(s) => {
                            let (pk, next) = next_verify(cur, flag, *fee, *nonce, s)?;
                            keys.push(pk);
                            cur = next;
                            n += 1;
                        }
                    }
                }
                if n != *required {
                    return Err("signature count".into());
                }
                if multisig_hash(*mode, *required as u8, &keys) != *signer {
                    return Err("signer".into());
                }
                Ok(cur)
            }
        }
    }
}

pub fn p2wpkh(pk: &[u8]) -> [u8; 20] {
    let mut s = vec![0u8, 20];
    s.extend_from_slice(&hash160(pk));
    hash160(&s)
}

fn script_int(s: &mut Vec<u8>, n: usize) {
    match n {
        0 => s.push(0),
        1..=16 => s.push(0x50 + n as u8),
        17..=0x7f => s.extend_from_slice(&[1, n as u8]),
        0x80..=0x7fff => s.extend_from_slice(&[2, n as u8, (n >> 8) as u8]),
        _ => s.extend_from_slice(&[3, n as u8, (n >> 8) as u8, (n >> 16) as u8]),
    }
}

pub fn multisig_script(required: u8, keys: &[[u8; 33]]) -> Vec<u8> {
    let mut s = Vec::new();
    script_int(&mut s, usize::from(required));
    for k in keys {
        s.push(33);
        s.extend_from_slice(k);
    }
    script_int(&mut s, keys.len());
    s.push(0xae);
    s
}

pub fn multisig_hash(mode: u8, required: u8, keys: &[[u8; 33]]) -> [u8; 20] {
    let s = multisig_script(required, keys);
    if mode == 1 {
        hash160(&s)
    } else {
        let mut w = vec![0u8, 32];
        w.extend_from_slice(&sha256(&s));
        hash160(&w)
    }
}

pub fn presign(h: [u8; 32], flag: u8, fee: u64, nonce: u64) -> [u8; 32] {
    let mut b = h.to_vec();
    b.push(flag);
    b.extend_from_slice(&fee.to_be_bytes());
    b.extend_from_slice(&nonce.to_be_bytes());
    sha512_256(&b)
}

pub fn postsign(pre: [u8; 32], sig: &[u8; 65]) -> [u8; 32] {
    let mut b = pre.to_vec();
    b.push(0);
    b.extend_from_slice(sig);
    sha512_256(&b)
}

thread_local! {
    static SECP: Secp256k1<secp256k1::All> = Secp256k1::new();
}

pub fn next_verify(h: [u8; 32], flag: u8, fee: u64, nonce: u64, sig: &[u8; 65]) -> R<([u8; 33], [u8; 32])> {
    let pre = presign(h, flag, fee, nonce);
    let id = RecoveryId::from_i32(i32::from(sig[0])).map_err(|e| e.to_string())?;
    let rs = RecoverableSignature::from_compact(&sig[1..], id).map_err(|e| e.to_string())?;
    let m = Message::from_digest_slice(&pre).unwrap();
    let pk = SECP.with(|s| s.recover_ecdsa(&m, &rs)).map_err(|e| e.to_string())?;
    Ok((pk.serialize(), postsign(pre, sig)))
}

pub fn ref_sign(h: [u8; 32], flag: u8, fee: u64, nonce: u64, key: &[u8; 32]) -> ([u8; 65], [u8; 32]) {
    let pre = presign(h, flag, fee, nonce);
    let m = Message::from_digest_slice(&pre).unwrap();
    let sk = SecretKey::from_slice(key).unwrap();
    let (id, b) = SECP.with(|s| s.sign_ecdsa_recoverable(&m, &sk)).serialize_compact();
    let mut sig = [0u8; 65];
    sig[0] = id.to_i32() as u8;
    sig[1..].copy_from_slice(&b);
    (sig, postsign(pre, &sig))
}

pub fn pubkey(key: &[u8; 32]) -> [u8; 33] {
    let sk = SecretKey::from_slice(key).unwrap();
    SECP.with(|s| PublicKey::from_secret_key(s, &sk)).serialize()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Auth {
    Std(Cond),
    Spon(Cond, Cond),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Who {
    Std(u8, [u8; 20]),
    Con(u8, [u8; 20], String),
}

impl Who {
    pub fn val(&self) -> V {
        match self {
            Who::Std(v, h) => V::Std(*v, *h),
            Who::Con(v, h, n) => V::Con(*v, *h, n.clone()),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Asset {
    pub ver: u8,
    pub hash: [u8; 20],
    pub contract: String,
    pub name: String,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Pc {
    Stx { who: Who, code: u8, amount: u64 },
    Ft { who: Who, asset: Asset, code: u8, amount: u64 },
    Nft { who: Who, asset: Asset, name: V, code: u8 },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Payload {
    Transfer { to: Who, amount: u64, memo: [u8; 34] },
    Call { ver: u8, hash: [u8; 20], contract: String, func: String, args: Vec<V> },
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tx {
    pub version: u8,
    pub chain: u32,
    pub auth: Auth,
    pub anchor: u8,
    pub pc_mode: u8,
    pub pcs: Vec<Pc>,
    pub payload: Payload,
}

impl Payload {
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = Vec::new();
        match self {
            Payload::Transfer { to, amount, memo } => {
                o.push(0);
                to.val().enc(&mut o);
                o.extend_from_slice(&amount.to_be_bytes());
                o.extend_from_slice(memo);
            }
            Payload::Call { ver, hash, contract, func, args } => {
                o.push(2);
                o.push(*ver);
                o.extend_from_slice(hash);
                lps(&mut o, contract);
                lps(&mut o, func);
                o.extend_from_slice(&(args.len() as u32).to_be_bytes());
                args.iter().for_each(|a| a.enc(&mut o));
            }
        }
        o
    }
}

fn who_enc(o: &mut Vec<u8>, w: &Who) {
    match w {
        Who::Std(v, h) => {
            o.extend_from_slice(&[2, *v]);
            o.extend_from_slice(h);
        }
        Who::Con(v, h, n) => {
            o.extend_from_slice(&[3, *v]);
            o.extend_from_slice(h);
            lps(o, n);
        }
    }
}
fn who_dec(r: &mut Rd) -> R<Who> {
    match r.u8()? {
        2 => Ok(Who::Std(r.u8()?, r.h20()?)),
        3 => Ok(Who::Con(r.u8()?, r.h20()?, r.lps()?)),
        t => Err(format!("post-condition principal {t}")),
    }
}
fn asset_enc(o: &mut Vec<u8>, a: &Asset) {
    o.push(a.ver);
    o.extend_from_slice(&a.hash);
    lps(o, &a.contract);
    lps(o, &a.name);
}
fn asset_dec(r: &mut Rd) -> R<Asset> {
    Ok(Asset { ver: r.u8()?, hash: r.h20()?, contract: r.lps()?, name: r.lps()? })
}

impl Tx {
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![self.version];
        o.extend_from_slice(&self.chain.to_be_bytes());
        match &self.auth {
            Auth::Std(c) => {
                o.push(4);
                c.enc(&mut o);
            }
            Auth::Spon(a, b) => {
                o.push(5);
                a.enc(&mut o);
                b.enc(&mut o);
            }
        }
        o.push(self.anchor);
        o.push(self.pc_mode);
        o.extend_from_slice(&(self.pcs.len() as u32).to_be_bytes());
        for p in &self.pcs {
            match p {
                Pc::Stx { who, code, amount } => {
                    o.push(0);
                    who_enc(&mut o, who);
                    o.push(*code);
                    o.extend_from_slice(&amount.to_be_bytes());
                }
                Pc::Ft { who, asset, code, amount } => {
                    o.push(1);
                    who_enc(&mut o, who);
                    asset_enc(&mut o, asset);
                    o.push(*code);
                    o.extend_from_slice(&amount.to_be_bytes());
                }
                Pc::Nft { who, asset, name, code } => {
                    o.push(2);
                    who_enc(&mut o, who);
                    asset_enc(&mut o, asset);
                    name.enc(&mut o);
                    o.push(*code);
                }
            }
        }
        o.extend_from_slice(&self.payload.bytes());
        o
    }
    pub fn parse(b: &[u8]) -> R<Tx> {
        let mut r = Rd::new(b);
        let r = &mut r;
        let version = r.u8()?;
        let chain = r.u32()?;
        let auth = match r.u8()? {
            4 => Auth::Std(Cond::dec(r)?),
            5 => {
                let a = Cond::dec(r)?;
                Auth::Spon(a, Cond::dec(r)?)
            }
            t => return Err(format!("auth type {t}")),
        };
        let anchor = r.u8()?;
        let pc_mode = r.u8()?;
        if !(1..=3).contains(&anchor) || !(1..=2).contains(&pc_mode) {
            return Err("anchor/post-condition mode".into());
        }
        let n = r.u32()?;
        let mut pcs = Vec::new();
        for _ in 0..n {
            pcs.push(match r.u8()? {
                0 => {
                    let who = who_dec(r)?;
                    Pc::Stx { who, code: r.u8()?, amount: r.u64()? }
                }
                1 => {
                    let who = who_dec(r)?;
                    let asset = asset_dec(r)?;
                    Pc::Ft { who, asset, code: r.u8()?, amount: r.u64()? }
                }
                2 => {
                    let who = who_dec(r)?;
                    let asset = asset_dec(r)?;
                    let name = r.value(0)?;
                    Pc::Nft { who, asset, name, code: r.u8()? }
                }
                t => return Err(format!("post-condition type {t}")),
            });
        }
        let payload = match r.u8()? {
            0 => {
                let to = match r.value(0)? {
                    V::Std(v, h) => Who::Std(v, h),
                    V::Con(v, h, n) => Who::Con(v, h, n),
                    _ => return Err("recipient".into()),
                };
                Payload::Transfer { to, amount: r.u64()?, memo: r.take(34)?.try_into().unwrap() }
            }
            2 => {
                let ver = r.u8()?;
                let hash = r.h20()?;
                let contract = r.lps()?;
                let func = r.lps()?;
                let n = r.u32()?;
                let mut args = Vec::new();
                for _ in 0..n {
                    args.push(r.value(0)?);
                }
                Payload::Call { ver, hash, contract, func, args }
            }
            t => return Err(format!("payload type {t}")),
        };
        r.done()?;
        Ok(Tx { version, chain, auth, anchor, pc_mode, pcs, payload })
    }
    /// Initial sighash: conditions cleared, sponsor replaced by the sentinel.
    pub fn sighash0(&self) -> [u8; 32] {
        let mut t = self.clone();
        t.auth = match &self.auth {
            Auth::Std(c) => Auth::Std(c.cleared()),
            Auth::Spon(c, _) => Auth::Spon(c.cleared(), Cond::sentinel()),
        };
        sha512_256(&t.bytes())
    }
    pub fn txid(&self) -> [u8; 32] {
        sha512_256(&self.bytes())
    }
    pub fn origin(&self) -> &Cond {
        match &self.auth {
            Auth::Std(c) | Auth::Spon(c, _) => c,
        }
    }
    pub fn origin_mut(&mut self) -> &mut Cond {
        match &mut self.auth {
            Auth::Std(c) | Auth::Spon(c, _) => c,
        }
    }
    pub fn verify_origin(&self) -> R<[u8; 32]> {
        self.origin().verify(self.sighash0(), 4)
    }
    pub fn verify(&self) -> R<()> {
        let h = self.verify_origin()?;
        if let Auth::Spon(_, s) = &self.auth {
            s.verify(h, 5)?;
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- BIP-39 / BIP-32

fn hmac512(key: &[u8], data: &[u8]) -> [u8; 64] {
    let mut m = <Hmac<Sha512> as Mac>::new_from_slice(key).unwrap();
    m.update(data);
    m.finalize().into_bytes().into()
}

pub fn mnemonic(entropy: &[u8], words: &[&str]) -> String {
    let mut bits: Vec<u8> = Vec::new();
    let cs = sha256(entropy);
    for b in entropy.iter().chain(std::iter::once(&cs[0])) {
        for i in (0..8).rev() {
            bits.push((b >> i) & 1);
        }
    }
    bits.truncate(entropy.len() * 8 + entropy.len() / 4);
    bits.chunks(11)
        .map(|c| words[c.iter().fold(0usize, |a, b| a << 1 | *b as usize)])
        .collect::<Vec<_>>()
        .join(" ")
}

pub fn bip39_seed(phrase: &str) -> [u8; 64] {
    // PBKDF2-HMAC-SHA512, 2048 rounds, one block.
    let mut salt = b"mnemonic".to_vec();
    salt.extend_from_slice(&1u32.to_be_bytes());
    let base = <Hmac<Sha512> as Mac>::new_from_slice(phrase.as_bytes()).unwrap();
    let run = |d: &[u8]| -> [u8; 64] {
        let mut m = base.clone();
        m.update(d);
        m.finalize().into_bytes().into()
    };
    let mut u = run(&salt);
    let mut t = u;
    for _ in 1..2048 {
        u = run(&u);
        for i in 0..64 {
            t[i] ^= u[i];
        }
    }
    t
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct XKey {
    pub key: [u8; 32],
    pub chain: [u8; 32],
}

impl XKey {
    pub fn master(seed: &[u8]) -> XKey {
        let i = hmac512(b"Bitcoin seed", seed);
        XKey { key: i[..32].try_into().unwrap(), chain: i[32..].try_into().unwrap() }
    }
    pub fn child(&self, index: u32) -> XKey {
        let mut d = Vec::new();
        if index >= 0x8000_0000 {
            d.push(0);
            d.extend_from_slice(&self.key);
        } else {
            d.extend_from_slice(&pubkey(&self.key));
        }
        d.extend_from_slice(&index.to_be_bytes());
        let i = hmac512(&self.chain, &d);
        let t = secp256k1::Scalar::from_be_bytes(i[..32].try_into().unwrap()).unwrap();
        let k = SecretKey::from_slice(&self.key).unwrap().add_tweak(&t).unwrap();
        XKey { key: k.secret_bytes(), chain: i[32..].try_into().unwrap() }
    }
}

pub fn stacks_root(phrase: &str) -> XKey {
    const H: u32 = 0x8000_0000;
    XKey::master(&bip39_seed(phrase)).child(44 | H).child(5757 | H).child(H).child(0)
}
