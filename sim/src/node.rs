//! The simulated Stacks node: HTTP/1.1 server and API behaviour, including rejections, errors,
//! redirects and answers no sane node gives.

use crate::choice::Choices;
use crate::gen;
use crate::net::*;
use crate::refimpl as rf;
use crate::rt::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Sem {
    Info(Vec<u64>, Vec<String>),
    Account(Vec<String>, u64, u64),
    Fees(Vec<(u64, f64)>),
    Ro(String, rf::V),
    RoErr(String),
    Txid(String),
    Reject(String, String, String),
    /// An HTTP error status with this text.
    Text,
    /// A success status with a body that is not an answer.
    Garbage,
    Redirect,
}

/// How nodes behave in this run, in percent.
#[derive(Clone, Debug, Default)]
pub struct Mix {
    pub reject: u32,
    pub http_err: u32,
    /// the one status an outage answers with, 0 for any
    pub one_code: u16,
    pub garbage: u32,
    pub redirect: u32,
    pub gzip: u32,
    pub chunked: u32,
    pub close_delim: u32,
    pub extra: u32,
    pub big: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Framing {
    Length,
    Chunked,
    Close,
}

pub struct Answer {
    pub rec: RespRec,
    pub framing: Framing,
    pub gzip: bool,
    pub close: bool,
    pub ctype: &'static str,
    pub location: Option<String>,
    pub more: Vec<(&'static str, &'static str)>,
    pub lower: bool,
    pub cuts: Vec<usize>,
    /// 0: a proper head; 1..=7: what is no HTTP answer at all; from 10: unusual, but proper.
    pub odd: u8,
}

pub struct Parsed {
    pub method: String,
    pub target: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

pub fn parse_request(b: &[u8]) -> Option<(usize, Parsed)> {
    let h = b.windows(4).position(|w| w == b"\r\n\r\n")?;
    let head = String::from_utf8_lossy(&b[..h]).to_string();
    let mut lines = head.split("\r\n");
    let mut first = lines.next()?.split(' ');
    let method = first.next().unwrap_or("").to_string();
    let target = first.next().unwrap_or("").to_string();
    let headers: Vec<(String, String)> = lines
        .filter_map(|l| l.split_once(':').map(|(a, b)| (a.trim().to_ascii_lowercase(), b.trim().to_string())))
        .collect();
    let get = |k: &str| headers.iter().find(|x| x.0 == k).map(|x| x.1.clone());
    let mut p = h + 4;
    let mut body = Vec::new();
    if get("transfer-encoding").is_some_and(|v| v.to_ascii_lowercase().contains("chunked")) {
        loop {
            let e = p + b[p..].windows(2).position(|w| w == b"\r\n")?;
            let line = String::from_utf8_lossy(&b[p..e]).to_string();
            let n = usize::from_str_radix(line.split(';').next().unwrap_or("").trim(), 16).unwrap_or(0);
            p = e + 2;
            if b.len() < p + n + 2 {
                return None;
            }
            body.extend_from_slice(&b[p..p + n]);
            p += n + 2;
            if n == 0 {
                break;
            }
        }
    } else if let Some(n) = get("content-length").and_then(|v| v.parse::<usize>().ok()) {
        if b.len() < p + n {
            return None;
        }
        body.extend_from_slice(&b[p..p + n]);
        p += n;
    }
    Some((p, Parsed { method, target, headers, body }))
}

fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= u32::from(*x);
        for _ in 0..8 {
            c = if c & 1 != 0 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 };
        }
    }
    !c
}

fn gzip(b: &[u8]) -> Vec<u8> {
    let mut o = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3];
    let chunks: Vec<&[u8]> = if b.is_empty() { vec![b] } else { b.chunks(60000).collect() };
    let k = chunks.len();
    for (i, c) in chunks.into_iter().enumerate() {
        o.push(u8::from(i + 1 == k));
        o.extend_from_slice(&(c.len() as u16).to_le_bytes());
        o.extend_from_slice(&(!(c.len() as u16)).to_le_bytes());
        o.extend_from_slice(c);
    }
    o.extend_from_slice(&crc32(b).to_le_bytes());
    o.extend_from_slice(&(b.len() as u32).to_le_bytes());
    o
}

impl Answer {
    /// (length of the head, everything)
    pub fn wire(&self, req: &ReqRec) -> (usize, Vec<u8>) {
        let accepts = req.headers.iter().any(|h| h.0 == "accept-encoding" && h.1.contains("gzip"));
        let gz = self.gzip && accepts;
        let body = if gz { gzip(self.rec.body.as_bytes()) } else { self.rec.body.clone().into_bytes() };
        let st = self.rec.status;
        let mut o = match self.odd {
            1 => "SSH-2.0-OpenSSH_9.6\r\n".to_string(),
            2 => format!("HTTP/1.1 {} OK\r\n", st / 10),
            3 => "HTTP/2 200 OK\r\n".to_string(),
            4 => "220 mail.example ESMTP ready\r\n".to_string(),
            5 => "\u{15}\u{3}\u{1}\u{0}\u{2}\u{2}\u{16}".to_string(),
            10 => format!("HTTP/1.0 {st} {}\r\n", reason(st)),
            11 => format!("HTTP/1.1 {st}\r\n"),
            12 => format!("HTTP/1.1 {st} \r\n"),
            13 => format!("HTTP/1.1 {st} {}\r\n", if st < 300 { "Internal Server Error" } else { "200 OK" }),
            _ => format!("HTTP/1.1 {st} {}\r\n", reason(st)),
        };
        if self.odd == 5 {
            return (o.len(), o.into_bytes());
        }
        match self.odd {
            6 => (0..120).for_each(|i| o.push_str(&format!("X-Filler-{i}: {i}\r\n"))),
            7 => o.push_str(&format!("X-Long: {}\r\n", "x".repeat(103_000))),
            14 => (0..60).for_each(|i| o.push_str(&format!("X-Filler-{i}: {i}\r\n"))),
            15 => o.push_str("this line is no header\r\nX-\u{e9}: 1\r\n"),
            _ => {}
        }
        let mut h = |k: &str, v: &str| {
            let k = if self.lower { k.to_ascii_lowercase() } else { k.to_string() };
            o.push_str(&format!("{k}: {v}\r\n"));
        };
        h("Server", "sim/1");
        h("Content-Type", self.ctype);
        if gz {
            h("Content-Encoding", "gzip");
        }
        for (k, v) in &self.more {
            h(k, v);
        }
        if let Some(l) = &self.location {
            h("Location", l);
        }
        match self.framing {
            Framing::Length => h("Content-Length", &body.len().to_string()),
            Framing::Chunked => h("Transfer-Encoding", "chunked"),
            Framing::Close => {}
        }
        if self.close {
            h("Connection", "close");
        }
        o.push_str("\r\n");
        let mut w = o.into_bytes();
        let head = w.len();
        if self.framing == Framing::Chunked {
            let mut rest = &body[..];
            let mut i = 0;
            while !rest.is_empty() {
                let n = self.cuts.get(i).copied().unwrap_or(usize::MAX).clamp(1, rest.len());
                i += 1;
                w.extend_from_slice(format!("{n:x}\r\n").as_bytes());
                w.extend_from_slice(&rest[..n]);
                w.extend_from_slice(b"\r\n");
                rest = &rest[n..];
            }
            w.extend_from_slice(b"0\r\n\r\n");
        } else {
            w.extend_from_slice(&body);
        }
        (head, w)
    }
}

fn reason(s: u16) -> &'static str {
    match s {
        200 => "OK",
        202 => "Accepted",
        400 => "Bad Request",
        404 => "Not Found",
        _ => "Whatever",
    }
}

pub fn percent_decode(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 2 < b.len() + 0 && rf::unhex(&s[i + 1..i + 3]).is_some() {
            o.push(rf::unhex(&s[i + 1..i + 3]).unwrap()[0]);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).to_string()
}

// ------------------------------------------------------------------ JSON text

pub fn jstr(ch: &mut Choices, s: &str) -> String {
    let esc = ch.draw(6);
    let mut o = String::from("\"");
    for (i, c) in s.chars().enumerate() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            '/' if esc == 5 => o.push_str("\\/"),
            c if esc >= 4 && i % 7 == 3 && (c as u32) < 0x10000 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn junk(ch: &mut Choices, depth: u32) -> String {
    match ch.draw(if depth > 2 { 5 } else { 7 }) {
        0 => "0".into(),
        1 => "null".into(),
        2 => "true".into(),
        3 => "-1.5e-3".into(),
        4 => jstr(ch, "nonce\":1,{}"),
        5 => format!("[{},{}]", junk(ch, depth + 1), junk(ch, depth + 1)),
        _ => {
            let k = *ch.pick(&["nonce", "fee", "result", "stacks_tip", "error", "okay", "balance", "txid", "zz"]);
            format!("{{\"{k}\":{},\"fee_rate\":{}}}", junk(ch, depth + 1), junk(ch, depth + 1))
        }
    }
}

const KNOWN: &[&str] = &[
    "okay", "result", "cause", "error", "reason", "txid", "fee", "fee_rate", "estimations", "nonce", "balance", "locked", "unlock_height",
    "balance_proof", "nonce_proof", "peer_version", "burn_block_height", "stable_burn_block_height", "network_id", "parent_network_id",
    "stacks_tip_height", "pox_consensus", "stable_pox_consensus", "server_version", "stacks_tip", "stacks_tip_consensus_hash",
    "genesis_chainstate_hash",
];

pub fn obj(ch: &mut Choices, mut f: Vec<(String, String)>, extra: u32) -> String {
    if extra > 0 && ch.chance(extra, 100) {
        let n = ch.range(1, 3);
        for i in 0..n {
            let v = junk(ch, 0);
            let at = ch.below(f.len() + 1);
            // a key of its own, one newer nodes have, or one much like a key that is there
            let key = match ch.draw(4) {
                0 if !f.is_empty() => {
                    let j = ch.below(f.len());
                    let (k, w) = f[j].clone();
                    let key = match ch.draw(7) {
                        0 => k.to_uppercase(),
                        1 => k.replace('_', "-"),
                        2 => format!("stable_{k}"),
                        3 => format!("{k}_hash"),
                        4 => k.split('_').next_back().unwrap_or("").to_string(),
                        5 => format!("{k}s"),
                        _ => k.split('_').enumerate().map(|(i, x)| if i == 0 { x.to_string() } else { x[..1].to_uppercase() + &x[1..] }).collect(),
                    };
                    if f.iter().any(|x| x.0 == key) || KNOWN.contains(&key.as_str()) {
                        format!("x_{i}")
                    } else {
                        // with a value that would do in its place
                        if ch.chance(1, 2) {
                            f.insert(at, (key, w));
                            continue;
                        }
                        key
                    }
                }
                1 => {
                    let k = ["unanchored_tip", "unanchored_seq", "exit_at_block_height", "tenure_height", "is_fully_synced", "reason_data", "message", "code", "status", "data", "id", "tx_id"][ch.below(12)];
                    if f.iter().any(|x| x.0 == k) { format!("x_{i}") } else { k.to_string() }
                }
                _ => format!("x_{i}"),
            };
            f.insert(at, (key, v));
        }
    }
    if ch.chance(1, 3) {
        for i in (1..f.len()).rev() {
            let j = i - ch.below(i + 1);
            f.swap(i, j);
        }
    }
    let (a, b, c) = match ch.draw(3) {
        0 => ("", "", ""),
        1 => (" ", "", " "),
        _ => ("\n  ", "\n", "  "),
    };
    let inner = f.iter().map(|(k, v)| format!("{a}\"{k}\":{c}{v}")).collect::<Vec<_>>().join(",");
    format!("{{{inner}{b}}}")
}

pub fn num(ch: &mut Choices) -> u64 {
    match ch.draw(8) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => (1 << 53) + 1,
        4 => i64::MAX as u64 + 1,
        5 => u64::from(u32::MAX),
        _ => {
            let mut p = ch.sub();
            let s = p.next() % 64;
            p.next() >> s
        }
    }
}

/// A fee rate as a node writes it.
fn rate(ch: &mut Choices) -> String {
    match ch.draw(8) {
        0 => format!("{}", ch.draw(1 << 20)),
        1 => format!("{:?}", f64::from(ch.draw(1 << 20)) / 8.0),
        2 => ["0.0", "0", "1e-7", "1E+3", "5e2", "123456789012345680000", "0.1", "9007199254740993"][ch.below(8)].to_string(),
        3 => format!("{:?}", f64::from(ch.draw(1 << 30)) / 1000.0),
        4 => format!("{:e}", f64::from(1 + ch.draw(1 << 30)) * 1e12),
        _ => format!("{:?}", f64::from(1 + ch.draw(1 << 30)) / f64::from(1 + ch.draw(1 << 20))),
    }
}

/// Why a node turns a transaction away (MemPoolRejection in stacks-core), and what a proxy adds.
pub const HTTP_ERRORS: [u16; 15] = [500, 400, 404, 403, 429, 502, 503, 504, 401, 408, 409, 410, 413, 422, 501];

const REASONS: &[&str] = &[
    "BadNonce",
    "ConflictingNonceInMempool",
    "FeeTooLow",
    "NotEnoughFunds",
    "Serialization",
    "Deserialization",
    "SignatureValidation",
    "TooMuchChaining",
    "NoSuchContract",
    "NoSuchPublicFunction",
    "BadFunctionArgument",
    "ContractAlreadyExists",
    "PoisonMicroblocksDoNotConflict",
    "PoisonMicroblockHasUnknownPubKeyHash",
    "PoisonMicroblockIsInvalid",
    "BadAddressVersionByte",
    "NoCoinbaseViaMempool",
    "NoTenureChangeViaMempool",
    "ServerFailureNoSuchChainTip",
    "ServerFailureDatabase",
    "ServerFailureOther",
    "TransferAmountMustBePositive",
    "TransferRecipientCannotEqualSender",
    "TemporarilyBlacklisted",
    "already known",
    "duplicate",
    "",
];

impl Rt {
    fn token(&mut self) -> String {
        self.net.tokens += 1;
        let t = self.net.tokens;
        let mut b = vec![0u8; 32];
        self.ch.sub().fill(&mut b);
        b[..4].copy_from_slice(&(t as u32).to_be_bytes());
        match self.ch.draw(16) {
            11 => format!(" \t{} \n", rf::hex(&b[..8])),
            12 => format!("{}  {}\u{a0}", rf::hex(&b[..4]), "x".repeat(1 + t as usize % 300)),
            13 => format!("{t}"),
            14 => format!("v{t} \"quoted\" \\ ünïcödé 🦀 \n tab"),
            15 if self.net.mix.big > 0 => format!("0x{}", rf::hex(&b).repeat(20 + (t as usize * 37) % 400)),
            _ => format!("0x{}", rf::hex(&b)),
        }
    }

    fn hexnum(&mut self) -> String {
        let n = match self.ch.draw(4) {
            0 => 0u128,
            1 => u128::MAX,
            _ => u128::from(self.ch.u64()) * 7919,
        };
        format!("0x{n:032x}")
    }

    pub fn answer(&mut self, op: Option<usize>, req: &ReqRec) -> Answer {
        let mix = if self.net.healed { Mix { extra: 20, ..Mix::default() } } else { self.net.mix.clone() };
        let prefix = self.net.nodes[req.node].prefix.clone();
        let path = req.target.strip_prefix(prefix.as_str()).unwrap_or("").to_string();
        let path = path.split('?').next().unwrap_or("").to_string();
        let redirected = op.is_some_and(|o| {
            self.net.ops[o].reqs.iter().any(|r| r.resp.as_ref().is_some_and(|x| x.sem == Sem::Redirect))
        });
        let mut location = None;
        let mut ctype = "application/json";
        let is_tx = path == "/v2/transactions";
        let known = path == "/v2/info"
            || path.starts_with("/v2/accounts/")
            || path == "/v2/fees/transaction"
            || path.starts_with("/v2/contracts/call-read/")
            || is_tx;
        let pick = |rt: &mut Rt, p: u32| p > 0 && rt.ch.chance(p, 100);
        let (status, sem, body) = if !known {
            ctype = "text/plain";
            (404, Sem::Text, "no such path".to_string())
        } else if !redirected && pick(self, mix.redirect) {
            self.fault("redirect");
            ctype = "text/html";
            let code = *self.ch.pick(&[302u16, 301, 303, 307, 308, 300, 304]);
            if !self.ch.chance(1, 8) {
                let n = self.ch.below(self.net.nodes.len());
                let nd = &self.net.nodes[n];
                location = Some(match self.ch.draw(3) {
                    0 => format!("http://{}:{}{}{path}", nd.name, nd.port, nd.prefix),
                    1 => req.target.clone(),
                    _ => format!("http://{}:{}{}/v2/info", nd.name, nd.port, nd.prefix),
                });
            }
            let b = if is_tx && self.ch.chance(1, 3) { self.look_alike(&path, &req.body) } else { "<html>moved</html>".to_string() };
            (code, Sem::Redirect, b)
        } else if pick(self, mix.http_err) {
            self.fault("http error");
            let code = if mix.one_code != 0 { mix.one_code } else { *self.ch.pick(&HTTP_ERRORS) };
            ctype = "text/plain";
            let b = match self.ch.draw(11) {
                8 | 9 => self.look_alike(&path, &req.body),
                0 => "Internal error".to_string(),
                1 => "<html><body>Bad gateway</body></html>".to_string(),
                2 if mix.big > 0 && self.ch.chance(1, 4) => {
                    let n = [9_000, 70_000, 300_000][self.ch.below(3)];
                    format!("{} {}", self.token(), "stack trace é ".repeat(n / 14))
                }
                2 => String::new(),
                3 => "Fee estimator has not been initialised\n".to_string(),
                4 => "\r\n  Estimation for the given cost is not available yet \t\r\n\r\n".to_string(),
                5 => "\"NoEstimateAvailable\"".to_string(),
                6 => "{\"error\":\"Estimation could not be performed\",\"reason\":\"NoEstimateAvailable\",\"txid\":7}".to_string(),
                7 => "{\"estimations\":[{\"fee\":1,\"fee_rate\":1.0}]}".to_string(),
                _ => format!("overloaded {} éè", self.token()),
            };
            (code, Sem::Text, b)
        } else if is_tx && req.method == "POST" {
            let txid = rf::hex(&rf::sha512_256(&req.body));
            if pick(self, mix.reject) {
                self.fault("rejection");
                let code = *self.ch.pick(&[400u16, 400, 400, 422, 500, 409, 403, 404, 413, 429, 503]);
                let code = if mix.one_code != 0 { mix.one_code } else { code };
                let e = if self.ch.chance(1, 3) { self.token() } else { "transaction rejected".to_string() };
                let r = if self.ch.chance(1, 4) { self.token() } else { self.ch.pick(REASONS).to_string() };
                // the id in one of the ways nodes write it
                let txid = match self.ch.draw(12) {
                    0 => format!("0x{txid}"),
                    1 => txid.to_uppercase(),
                    2 => String::new(),
                    3 => self.token(),
                    _ => txid,
                };
                let mut f = vec![
                    ("error".to_string(), jstr(&mut self.ch, &e)),
                    ("reason".to_string(), jstr(&mut self.ch, &r)),
                    ("txid".to_string(), jstr(&mut self.ch, &txid)),
                ];
                if pick(self, mix.garbage) {
                    self.fault("unreadable rejection");
                    let i = self.ch.below(3);
                    match self.ch.draw(3) {
                        0 => {
                            f.remove(i);
                        }
                        1 => f[i].1 = "17".into(),
                        _ => f[i].1 = "null".into(),
                    }
                    let b = obj(&mut self.ch, f, mix.extra);
                    (code, Sem::Garbage, b)
                } else {
                    let b = obj(&mut self.ch, f, mix.extra);
                    (code, Sem::Reject(e, r, txid), b)
                }
            } else {
                let code = if self.ch.chance(1, 6) { *self.ch.pick(&[202u16, 201, 203, 226, 299]) } else { 200 };
                if pick(self, mix.garbage / 2) {
                    self.fault("answer of something in between");
                    ctype = "text/html";
                    let b = self.ch.pick(&["<html>log in first</html>", "", "{}", "ok"]).to_string();
                    return self.framed(mix, code, Sem::Garbage, b, ctype, location);
                }
                // nodes write the id in more than one way
                let b = match self.ch.draw(16) {
                    0 => format!("\"0x{txid}\""),
                    1 => format!("\"{}\"", txid.to_uppercase()),
                    2 => format!(" \"{txid}\""),
                    _ => format!("\"{txid}\""),
                };
                (code, Sem::Txid(b.clone()), b)
            }
        } else {
            let (f, sem) = if path == "/v2/info" {
                let n: Vec<u64> = (0..6)
                    .map(|i| {
                        let x = num(&mut self.ch);
                        if i == 3 || i == 4 {
                            u64::from(x as u32)
                        } else {
                            x
                        }
                    })
                    .collect();
                let s: Vec<String> = (0..6).map(|_| self.token()).collect();
                let nk = ["peer_version", "burn_block_height", "stable_burn_block_height", "network_id", "parent_network_id", "stacks_tip_height"];
                let sk = ["pox_consensus", "stable_pox_consensus", "server_version", "stacks_tip", "stacks_tip_consensus_hash", "genesis_chainstate_hash"];
                let mut f: Vec<(String, String)> = nk.iter().zip(&n).map(|(k, v)| (k.to_string(), v.to_string())).collect();
                for (k, v) in sk.iter().zip(&s) {
                    f.push((k.to_string(), jstr(&mut self.ch, v)));
                }
                (f, Sem::Info(n, s))
            } else if path.starts_with("/v2/accounts/") {
                let s = vec![self.hexnum(), self.hexnum(), self.token(), self.token()];
                let (u, n) = (num(&mut self.ch), num(&mut self.ch));
                let mut f = vec![("unlock_height".to_string(), u.to_string()), ("nonce".to_string(), n.to_string())];
                for (k, v) in ["balance", "locked", "balance_proof", "nonce_proof"].iter().zip(&s) {
                    f.push((k.to_string(), jstr(&mut self.ch, v)));
                }
                (f, Sem::Account(s, u, n))
            } else if path == "/v2/fees/transaction" {
                let mut k = [3, 0, 1, 2, 8][self.ch.below(5)];
                if mix.big > 0 && self.ch.chance(1, 40) {
                    k = [20, 101, 300][self.ch.below(3)];
                }
                let mut v = Vec::new();
                let mut last: Option<(u64, String)> = None;
                let mut items = Vec::new();
                for _ in 0..k {
                    let (mut fee, mut rs) = (num(&mut self.ch), rate(&mut self.ch));
                    if let Some((f, r)) = last.clone() {
                        // quotes that agree in part
                        match self.ch.draw(8) {
                            0 => fee = f,
                            1 => rs = r,
                            2 => (fee, rs) = (f, r),
                            _ => {}
                        }
                    }
                    last = Some((fee, rs.clone()));
                    v.push((fee, rs.parse().unwrap()));
                    items.push(obj(&mut self.ch, vec![("fee".into(), fee.to_string()), ("fee_rate".into(), rs)], mix.extra));
                }
                let f = vec![
                    ("estimated_cost_scalar".into(), "14".into()),
                    ("estimations".into(), format!("[{}]", items.join(","))),
                    ("cost_scalar_change_by_byte".into(), "0.00476837158203125".into()),
                ];
                (f, Sem::Fees(v))
            } else if pick(self, mix.reject) {
                self.fault("read-only refusal");
                let c = self.token();
                (
                    vec![("okay".into(), "false".into()), ("cause".into(), jstr(&mut self.ch, &c))],
                    Sem::RoErr(c),
                )
            } else {
                let hint = op.map_or(0, |o| self.net.ops[o].hint);
                let v = if hint > 0 {
                    gen::typed_tuple(&mut self.ch, hint)
                } else if mix.big > 0 && self.ch.chance(1, 60) {
                    gen::colossal(&mut self.ch)
                } else { gen::value(&mut self.ch, 4, mix.big > 0) };
                let r = format!("0x{}", rf::hex(&v.bytes()));
                (vec![("okay".into(), "true".into()), ("result".into(), format!("\"{r}\""))], Sem::Ro(r, v))
            };
            if pick(self, mix.garbage) {
                self.fault("unreadable answer");
                let b = self.garble(f);
                (200, Sem::Garbage, b)
            } else {
                let b = obj(&mut self.ch, f, mix.extra);
                let code = if self.ch.chance(1, 20) { *self.ch.pick(&[203u16, 201, 202, 226, 299]) } else { 200 };
                (code, sem, b)
            }
        };
        self.framed(mix, status, sem, body, ctype, location)
    }

    fn framed(&mut self, mix: Mix, status: u16, sem: Sem, body: String, ctype: &'static str, location: Option<String>) -> Answer {
        let pick = |rt: &mut Rt, p: u32| p > 0 && rt.ch.chance(p, 100);
        let framing = if pick(self, mix.close_delim) {
            Framing::Close
        } else if pick(self, mix.chunked) {
            Framing::Chunked
        } else {
            Framing::Length
        };
        let gz = pick(self, mix.gzip);
        let mut sem = sem;
        let mut odd = 0;
        if pick(self, mix.garbage / 6) {
            self.fault("answer that is no HTTP");
            odd = 1 + self.ch.below(if mix.big > 0 { 7 } else { 6 }) as u8;
            sem = Sem::Garbage;
        } else if pick(self, mix.extra / 6) {
            odd = 10 + self.ch.below(6) as u8;
            if odd == 10 && framing == Framing::Chunked {
                odd = 0;
            }
        }
        let close = framing == Framing::Close || (1..=10).contains(&odd) || self.ch.chance(1, 3);
        let cuts = if framing == Framing::Chunked {
            let n = self.ch.below(5);
            (0..n).map(|_| 1 + self.ch.below(60)).collect()
        } else {
            vec![]
        };
        let mut more = Vec::new();
        if status >= 300 && self.ch.chance(1, 4) {
            more.push(("Retry-After", *self.ch.pick(&["0", "1", "2", "30", "900000", "4000000000", "Fri, 31 Dec 1999 23:59:59 GMT"])));
        }
        if self.ch.chance(1, 8) {
            let n = 1 + self.ch.below(3);
            for _ in 0..n {
                more.push(*self.ch.pick(&[
                    ("Date", "Tue, 15 Nov 1994 08:12:31 GMT"),
                    ("Cache-Control", "max-age=600"),
                    ("ETag", "\"33a64df5\""),
                    ("Set-Cookie", "session=1; Path=/"),
                    ("Age", "86400"),
                    ("X-Canonical-Stacks-Tip-Height", "123456"),
                    ("X-Request-Id", "7"),
                    ("Vary", "Accept-Encoding"),
                    ("Warning", "199 - stale"),
                    ("Keep-Alive", "timeout=5, max=1"),
                    ("Access-Control-Allow-Origin", "*"),
                ]))
            }
        }
        let more = more;
        Answer {
            more,
            rec: RespRec { status, chunked: framing == Framing::Chunked, body, sem, delivered: false },
            framing,
            gzip: gz,
            close,
            ctype,
            location,
            lower: self.ch.chance(1, 4),
            cuts,
            odd,
        }
    }

    /// What looks just like a good answer, but comes with an error status.
    fn look_alike(&mut self, path: &str, body: &[u8]) -> String {
        let n = num(&mut self.ch) as u32;
        let h = self.token();
        let h = jstr(&mut self.ch, &h);
        if path == "/v2/transactions" {
            format!("\"{}\"", rf::hex(&rf::sha512_256(body)))
        } else if path == "/v2/info" {
            let mut f = Vec::new();
            for k in ["peer_version", "burn_block_height", "stable_burn_block_height", "network_id", "parent_network_id", "stacks_tip_height"] {
                f.push((k.to_string(), n.to_string()));
            }
            for k in ["pox_consensus", "stable_pox_consensus", "server_version", "stacks_tip", "stacks_tip_consensus_hash", "genesis_chainstate_hash"] {
                f.push((k.to_string(), h.clone()));
            }
            obj(&mut self.ch, f, 0)
        } else if path.starts_with("/v2/accounts/") {
            format!("{{\"balance\":\"0x00\",\"locked\":\"0x00\",\"unlock_height\":0,\"nonce\":{n},\"balance_proof\":{h},\"nonce_proof\":{h}}}")
        } else if path == "/v2/fees/transaction" {
            format!("{{\"estimations\":[{{\"fee\":{n},\"fee_rate\":1.5}}]}}")
        } else if self.ch.chance(1, 2) {
            "{\"okay\":true,\"result\":\"0x03\"}".to_string()
        } else {
            format!("{{\"okay\":false,\"cause\":{h}}}")
        }
    }

    /// Turns the fields of a proper answer into something that is not one.
    fn garble(&mut self, mut f: Vec<(String, String)>) -> String {
        let keep = ["estimated_cost_scalar", "cost_scalar_change_by_byte"];
        let idx: Vec<usize> = (0..f.len()).filter(|i| !keep.contains(&f[*i].0.as_str())).collect();
        let i = idx[self.ch.below(idx.len())];
        match self.ch.draw(9) {
            0 => {
                f.remove(i);
            }
            1 => f[i].1 = "null".into(),
            2 => f[i].1 = "-1".into(),
            3 => f[i].1 = "{}".into(),
            4 => {
                let s = obj(&mut self.ch, f, 0);
                let k = 1 + self.ch.below(s.len() - 2);
                let mut k = k;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                return s[..k.max(1)].to_string();
            }
            5 => return "<html>proxy</html>".into(),
            6 => return String::new(),
            7 => {
                let s = obj(&mut self.ch, f, 0);
                return format!("{s} {s}");
            }
            _ => return format!("[{}]", obj(&mut self.ch, f, 0)),
        }
        obj(&mut self.ch, f, 0)
    }
}
