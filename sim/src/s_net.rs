//! Clients, handles and threads against simulated nodes over the simulated network.

use crate::choice::Choices;
use crate::gen;
use crate::gen::{Plan, Signing, Spender};
use crate::net::*;
use crate::node::{percent_decode, Mix, Sem};
use crate::refimpl as rf;
use crate::refimpl::V;
use crate::rt::*;
use crate::sc::*;
use crate::typed;
use stacks_rs::clarity::{decode_clarity_type, Codec};
use stacks_rs::rpc as lr;
use stacks_rs::rpc::StacksRPC;
use stacks_rs::transaction::Transaction;
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq)]
enum Res {
    Info(Vec<u64>, Vec<String>),
    Account(Vec<String>, u64, u64),
    Fees(Vec<(u64, f64)>),
    FeesErr(String),
    Ro(bool, String),
    RoErr(bool, String),
    Ok(String),
    Rej(String, String, String),
    Err(String),
    Panic(String),
}

enum Kind {
    Info,
    Address(String),
    Fee { payload: Vec<u8>, len: usize },
    Ro { ver: u8, hash: [u8; 20], contract: String, func: String, args: Vec<V>, sender: String, hint: u32, val: Option<Result<Option<V>, String>>, typed: Option<typed::Got> },
    Send { want: rf::Tx, signed: bool, bytes: Vec<u8>, hash: [u8; 32], quoted: bool },
    Broken { what: String, call: &'static str },
}

struct Done {
    op: usize,
    kind: Kind,
    res: Res,
    healed: bool,
}

static DONE: Mutex<Vec<Done>> = Mutex::new(Vec::new());

pub fn call<T>(tid: usize, label: &'static str, node: usize, hint: u32, f: impl FnOnce() -> T) -> (usize, Result<T, String>) {
    let id = {
        let _b = Bypass::on();
        let r = rt();
        let start = r.now;
        r.net.ops.push(OpRec { label, node, start, hint, ..Default::default() });
        let id = r.net.ops.len() - 1;
        r.set_op(tid, Some(id));
        r.note(|| format!("call {id}: {label} on node {node}"));
        id
    };
    let res = guard(f);
    {
        let _b = Bypass::on();
        let r = rt();
        let now = r.now;
        r.net.ops[id].returned = true;
        r.net.ops[id].end = now;
        r.set_op(tid, None);
        r.note(|| format!("call {id}: {label} returned"));
    }
    (id, res)
}

fn flat<T>(r: Result<Result<T, lr::Error>, String>, f: impl FnOnce(T) -> Res) -> Res {
    match r {
        Ok(Ok(v)) => f(v),
        Ok(Err(e)) => Res::Err(e.to_string()),
        Err(p) => Res::Panic(p),
    }
}

fn done(op: usize, kind: Kind, res: Res) {
    let _b = Bypass::on();
    let r = rt();
    let healed = r.net.healed;
    r.note(|| format!("call {op} gave {}", short(&format!("{res:?}"))));
    DONE.lock().unwrap().push(Done { op, kind, res, healed });
}

fn info(t: usize, h: &Handle) {
    let (id, r) = call(t, "info", h.node, 0, || h.rpc.info());
    let res = flat(r, |i| {
        Res::Info(
            vec![
                i.peer_version as u64,
                i.burn_block_height as u64,
                i.stable_burn_block_height as u64,
                i.network_id as u64,
                i.parent_network_id as u64,
                i.stacks_tip_height as u64,
            ],
            vec![
                i.pox_consensus,
                i.stable_pox_consensus,
                i.server_version,
                i.stacks_tip,
                i.stacks_tip_consensus_hash,
                i.genesis_chainstate_hash,
            ],
        )
    });
    done(id, Kind::Info, res);
}

fn address(t: usize, h: &Handle, a: String) -> Option<u64> {
    let (id, r) = call(t, "address", h.node, 0, || h.rpc.address(a.clone()));
    let res = flat(r, |i| Res::Account(vec![i.balance, i.locked, i.balance_proof, i.nonce_proof], i.unlock_height as u64, i.nonce as u64));
    let n = if let Res::Account(_, _, n) = &res { Some(*n) } else { None };
    done(id, Kind::Address(a), res);
    n
}

fn fee(t: usize, h: &Handle, want: &rf::Tx, tx: &Transaction) -> Vec<u64> {
    let (id, r) = call(t, "estimate_fee", h.node, 0, || h.rpc.estimate_fee(tx));
    let res = flat(r, |x| match x {
        lr::EstimateFeeResponse::Ok(f) => Res::Fees(f.estimations.iter().map(|e| (e.fee as u64, e.fee_rate as f64)).collect()),
        lr::EstimateFeeResponse::Err(s) => Res::FeesErr(s),
    });
    let q = if let Res::Fees(f) = &res { f.iter().map(|x| x.0).collect() } else { vec![] };
    done(id, Kind::Fee { payload: want.payload.bytes(), len: want.bytes().len() }, res);
    q
}

struct RoCall {
    ver: u8,
    hash: [u8; 20],
    contract: String,
    func: String,
    args: Vec<V>,
    sender: String,
    hint: u32,
}

fn draw_ro(ch: &mut Choices, hint: u32, big: bool) -> RoCall {
    let (ver, hash) = gen::principal(ch);
    let n = match ch.draw(6) {
        0 => 0,
        5 => 6,
        _ => 1 + ch.below(2),
    };
    let mut args: Vec<V> = (0..n).map(|_| gen::value(ch, 3, big)).collect();
    if big && ch.chance(1, 12) {
        let v = gen::value(ch, 0, false);
        let n = [20, 64, 65, 129, 255, 256, 257, 400, 1100][ch.below(9)];
        while args.len() < n {
            args.push(if ch.chance(1, 8) { V::UInt(args.len() as u128) } else { v.clone() });
        }
    } else if big && ch.chance(1, 30) {
        args.push(gen::colossal(ch));
    }
    let (sv, sh) = gen::principal(ch);
    let mut sender = rf::c32_address(sv, &sh);
    if ch.chance(1, 4) {
        sender = format!("{sender}.{}", gen::contract_name(ch));
    }
    RoCall {
        ver,
        hash,
        contract: gen::contract_name(ch),
        func: gen::fn_name(ch),
        args,
        sender,
        hint,
    }
}

fn read_only(t: usize, h: &Handle, c: RoCall) {
    let a = gen::lib_args(&c.args);
    let at = rf::c32_address(c.ver, &c.hash);
    let (id, r) =
        call(t, "read_only", h.node, c.hint, || h.rpc.read_only(&at, &c.contract, &c.func, a, &c.sender));
    let res = flat(r, |x| match x {
        lr::ReadOnlyResponse::Ok(o) => Res::Ro(o.okay, o.result),
        lr::ReadOnlyResponse::Err(e) => Res::RoErr(e.okay, e.cause),
    });
    let mut val = None;
    let mut got = None;
    if let Res::Ro(_, s) = &res {
        let d = guard(|| {
            let b = stacks_rs::crypto::hex_to_bytes(s.trim_start_matches("0x")).map_err(|e| e.to_string())?;
            decode_clarity_type(&b).map_err(|e| e.to_string())
        });
        match d {
            Ok(Ok(v)) => {
                val = Some(Ok(gen::from_lib(&v)));
                if c.hint > 0 {
                    got = Some(guard(|| typed::extract(v, c.hint)).unwrap_or_else(|p| typed::Got::Err(format!("PANIC {p}"))));
                }
            }
            Ok(Err(e)) => val = Some(Err(e)),
            Err(p) => val = Some(Err(format!("PANIC {p}"))),
        }
    }
    let RoCall { ver, hash, contract, func, args, sender, hint } = c;
    done(id, Kind::Ro { ver, hash, contract, func, args, sender, hint, val, typed: got }, res);
}

fn send(t: usize, h: &Handle, want: rf::Tx, signed: bool, tx: &Transaction, quoted: bool) {
    let pre = guard(|| (tx.encode().map_err(|e| e.to_string()), tx.hash().map_err(|e| e.to_string())));
    let (bytes, hash) = match pre {
        Ok((Ok(b), Ok(h))) => {
            let text = guard(|| h.hex());
            let _b = Bypass::on();
            check("C06", text.as_deref() == Ok(&rf::hex(h.as_bytes())), "id text differs", || format!("{text:?} for {:?}", h.as_bytes()));
            (b, h.into_bytes())
        }
        Ok((Err(e), _)) | Ok((_, Err(e))) | Err(e) => {
            let _b = Bypass::on();
            viol("C12", "valid transaction refused", format!("{e}: {want:?}"));
            viol("C01", "valid transaction refused", format!("{e}: {want:?}"));
            return;
        }
    };
    let (id, r) = call(t, "broadcast", h.node, 0, || h.rpc.broadcast(tx));
    let res = flat(r, |x| match x {
        lr::BroadcastResponse::Ok(s) => Res::Ok(s),
        lr::BroadcastResponse::Err(e) => Res::Rej(e.error, e.reason, e.txid),
    });
    {
        let _b = Bypass::on();
        let again = guard(|| tx.encode().ok());
        check("C17", again == Ok(Some(bytes.clone())), "changed by broadcast", || "the transaction reads differently after broadcast".into());
    }
    done(id, Kind::Send { want, signed, bytes, hash, quoted }, res);
}

fn draw_plan(ch: &mut Choices, big: bool) -> Plan {
    let w = ch.weighted(&[6, 2, 2]);
    let origin = match w {
        0 => Spender::single(ch),
        1 => Spender::multi(ch),
        _ => Spender::any(ch),
    };
    gen::plan(ch, origin, w == 2, big)
}

/// Builds (and signs) with the library; what must go out.
fn built(p: &Plan, s: Option<&Signing>) -> Option<(Transaction, rf::Tx)> {
    let r = guard(|| {
        let t = p.try_build()?;
        match s {
            Some(s) => s.sign(p, t),
            None => Ok(t),
        }
    });
    let e = match r {
        Ok(Ok(t)) => return Some((t, s.map_or_else(|| p.tx.clone(), |s| s.expect(p)))),
        Ok(Err(e)) | Err(e) => e,
    };
    let _b = Bypass::on();
    viol("C12", "valid transaction refused", format!("{e}: {:?}", p.tx));
    viol("C01", "valid transaction refused", format!("{e}: {:?}", p.tx));
    None
}

fn do_send(t: usize, h: &Handle, quoted: bool) {
    let (mut p, s, acct) = {
        let _b = Bypass::on();
        let ch = &mut rt().ch;
        let big = ch.chance(1, 6);
        let p = draw_plan(ch, big);
        let s = if quoted || !ch.chance(1, 6) { Some(Signing::draw(ch, &p)) } else { None };
        let mut p = p;
        if quoted && !p.builder && ch.chance(1, 2) {
            // the sponsor is known from the start, perhaps with the origin's fee or nonce
            let (n0, f0) = p.tx.origin().nonce_fee();
            if let rf::Auth::Spon(_, c) = &mut p.tx.auth {
                let sp = Spender::any(ch);
                let (mut n, mut f) = (gen::amount(ch), gen::amount(ch));
                let same = ch.below(4);
                if same & 1 != 0 {
                    n = n0;
                }
                if same & 2 != 0 {
                    f = f0;
                }
                *c = sp.cond(n, f);
                p.sponsor = Some(sp);
            }
        }
        (p, s, gen::addr_of(ch))
    };
    if quoted {
        let Some((mut tx, _)) = built(&p, None) else { return };
        // One to three rounds of asking and setting; the last round counts.
        let rounds = {
            let _b = Bypass::on();
            1 + rt().ch.weighted(&[8, 2, 1])
        };
        for _ in 0..rounds {
            let q = fee(t, h, &p.tx, &tx);
            let n = address(t, h, acct.clone());
            let (mut nonce, mut f) = p.tx.origin().nonce_fee();
            let (pick, how) = {
                let _b = Bypass::on();
                let ch = &mut rt().ch;
                let pick = if q.is_empty() { None } else { Some(q[ch.below(q.len())]) };
                (pick, ch.below(5))
            };
            if how == 3 {
                // nonce first
                if let Some(x) = n {
                    nonce = x;
                    tx.set_nonce(x);
                }
            }
            if let Some(x) = pick {
                f = x;
                match how {
                    1 => tx.auth.set_fee(x),
                    2 => tx.auth.origin_mut().set_fee(x),
                    _ => tx.set_fee(x),
                }
            }
            if let (Some(x), true) = (n, how != 3) {
                nonce = x;
                match how {
                    1 => tx.auth.set_nonce(x),
                    2 => tx.auth.origin_mut().set_nonce(x),
                    _ => tx.set_nonce(x),
                }
            }
            if how == 4 {
                tx = tx.clone();
            }
            p.tx.origin_mut().set(nonce, f);
            let got = guard(|| tx.encode().map(|b| b.to_vec()).ok());
            let _b = Bypass::on();
            check("C14", got.as_ref().is_ok_and(|g| g.as_deref() == Some(&p.tx.bytes()[..])), "setting fee and nonce changed something else", || {
                format!("fee {f} and nonce {nonce}: {} should be {}", short(&format!("{got:?}")), rf::hex(&p.tx.bytes()))
            });
        }
        let s = s.unwrap();
        let tx = match guard(|| s.sign(&p, tx)) {
            Ok(Ok(t)) => t,
            Ok(Err(e)) | Err(e) => {
                let _b = Bypass::on();
                viol("C14", "cannot sign after quote", e.clone());
                viol("C01", "valid transaction refused", e);
                return;
            }
        };
        after(t, h, s.expect(&p), true, &tx, true);
    } else {
        let Some((tx, want)) = built(&p, s.as_ref()) else { return };
        after(t, h, want, s.is_some(), &tx, false);
    }
}

/// Sends what is ready: sometimes asks for a quote for exactly that once more, or sends it twice.
fn after(t: usize, h: &Handle, want: rf::Tx, signed: bool, tx: &Transaction, quoted: bool) {
    let (ask, twice) = {
        let _b = Bypass::on();
        let ch = &mut rt().ch;
        (ch.chance(1, 6), ch.chance(1, 10))
    };
    if ask {
        fee(t, h, &want, tx);
    }
    if twice {
        send(t, h, want.clone(), signed, tx, quoted);
    }
    send(t, h, want, signed, tx, quoted);
}

fn do_broken(t: usize, h: &Handle) {
    let (p, s, what, key, ro) = {
        let _b = Bypass::on();
        let ch = &mut rt().ch;
        let mut p = draw_plan(ch, false);
        let s = Signing::draw(ch, &p);
        let what = gen::broken(ch, &mut p);
        let key = gen::key(ch);
        let ro = ch.chance(1, 3).then(|| draw_ro(ch, 0, false));
        (p, s, what, key, ro)
    };
    if let (Some(c), rf::Payload::Call { args, .. }) = (&ro, &p.tx.payload) {
        if what.starts_with("argument") {
            let a = gen::lib_args(args);
            let at = rf::c32_address(c.ver, &c.hash);
            let (id, r) = call(t, "read_only", h.node, 0, || h.rpc.read_only(&at, &c.contract, &c.func, a, &c.sender));
            let res = flat(r, |x| Res::Ok(format!("{x:?}")));
            done(id, Kind::Broken { what: what.clone(), call: "read_only" }, res);
        }
    }
    let tx = match guard(|| p.try_build()) {
        Ok(Ok(t)) => t,
        Ok(Err(_)) => {
            let _b = Bypass::on();
            check("C12", true, "", String::new);
            hit("refused at build");
            return;
        }
        Err(e) => {
            let _b = Bypass::on();
            viol("C12", "panic", format!("building with {what}: {e}"));
            return;
        }
    };
    let pre = |name: &'static str, r: Result<Result<Vec<u8>, String>, String>| {
        let _b = Bypass::on();
        let ok = matches!(r, Ok(Err(_)));
        check("C12", ok, "encoded what has no encoding", || {
            format!("{name} of a transaction with {what} gave {}", short(&format!("{r:?}")))
        });
    };
    pre("encode", guard(|| tx.encode().map_err(|e| e.to_string())));
    pre("hash", guard(|| tx.hash().map(|h| h.into_bytes().to_vec()).map_err(|e| e.to_string())));
    pre("sign", guard(|| tx.clone().sign(gen::secret(&key)).map(|_| vec![]).map_err(|e| e.to_string())));
    pre("signing", guard(|| s.sign(&p, tx.clone()).map(|_| vec![])));
    let (id, r) = call(t, "broadcast", h.node, 0, || h.rpc.broadcast(&tx));
    done(id, Kind::Broken { what: what.clone(), call: "broadcast" }, flat(r, |x| Res::Ok(format!("{x:?}"))));
    let (id, r) = call(t, "estimate_fee", h.node, 0, || h.rpc.estimate_fee(&tx));
    done(id, Kind::Broken { what, call: "estimate_fee" }, flat(r, |x| Res::Ok(format!("{x:?}"))));
}

#[derive(Clone)]
pub struct Handle {
    pub node: usize,
    pub rpc: StacksRPC,
}

const OPS: usize = 8;
fn weights(focus: &str) -> [u32; OPS] {
    // info, address, fee, read_only, typed, send, quoted send, broken
    match focus {
        "C01" => [1, 1, 1, 1, 0, 12, 3, 0],
        "C06" => [1, 1, 1, 1, 0, 12, 2, 0],
        "C16" => [1, 1, 2, 1, 0, 12, 3, 0],
        "C07" => [4, 4, 4, 4, 1, 1, 0, 0],
        "C08" => [1, 1, 1, 12, 2, 1, 0, 0],
        "C12" => [0, 0, 1, 1, 0, 2, 0, 12],
        "C14" => [1, 1, 6, 0, 0, 1, 8, 0],
        "C15" => [1, 0, 0, 1, 14, 0, 0, 0],
        _ => [3, 3, 3, 3, 1, 4, 1, 1],
    }
}

pub fn client(t: usize, handles: Vec<Handle>, n: usize) {
    let w = weights(focus());
    for _ in 0..n {
        let (k, h) = {
            let _b = Bypass::on();
            let ch = &mut rt().ch;
            (ch.weighted(&w), handles[ch.below(handles.len())].clone())
        };
        one(t, &h, k);
        unsafe {
            crate::interpose::sched_yield();
        }
    }
}

fn one(t: usize, h: &Handle, k: usize) {
    match k {
        0 => info(t, h),
        1 => {
            let a = {
                let _b = Bypass::on();
                gen::addr_of(&mut rt().ch)
            };
            address(t, h, a);
        }
        2 => {
            let (p, s) = {
                let _b = Bypass::on();
                let ch = &mut rt().ch;
                let big = ch.chance(1, 6);
                let p = draw_plan(ch, big);
                let s = ch.chance(1, 3).then(|| Signing::draw(ch, &p));
                (p, s)
            };
            if let Some((tx, want)) = built(&p, s.as_ref()) {
                fee(t, h, &want, &tx);
            }
        }
        3 | 4 => {
            let c = {
                let _b = Bypass::on();
                let ch = &mut rt().ch;
                let hint = if k == 4 { [1, 2, 3, 4, 9, 10, 11, 12][ch.below(8)] } else { 0 };
                let big = ch.chance(1, 6);
                draw_ro(ch, hint, big)
            };
            read_only(t, h, c);
        }
        5 => do_send(t, h, false),
        6 => do_send(t, h, true),
        _ => do_broken(t, h),
    }
}

pub fn swarm(r: &mut Rt) {
    let ch = &mut r.ch;
    let calm = ch.chance(1, 6);
    let mut p = Prof {
        keep: [4, 1, 2, 12][ch.below(4)],
        event: [2, 1, 6][ch.below(3)],
        preempt: [0, 0, 600, 100, 20][ch.below(5)],
        lat_us: [200, 20, 5_000, 300_000, 4_000_000][ch.below(5)],
        ..Default::default()
    };
    let mut m = Mix { extra: [0, 30][ch.below(2)], big: [0, 1][ch.below(2)], ..Default::default() };
    if !calm {
        p.short = [0, 10, 50][ch.below(3)];
        p.eintr = [0, 0, 5, 25][ch.below(4)];
        p.seg = [0, 15, 60][ch.below(3)];
        p.conn_fault = [0, 0, 15, 35, 70][ch.below(5)];
        if p.conn_fault > 0 {
            for k in p.kinds.iter_mut() {
                *k = ch.draw(3);
            }
        }
        p.node_crash = [0, 0, 1, 2][ch.below(4)];
        p.clock = [0, 0, 2][ch.below(3)];
        p.stall = [0, 0, 0, 2, 10][ch.below(5)];
        let pct = |ch: &mut Choices| [0, 0, 10, 40][ch.below(4)];
        m.reject = pct(ch);
        m.http_err = pct(ch);
        m.garbage = pct(ch);
        m.redirect = pct(ch);
        m.gzip = pct(ch);
        m.chunked = pct(ch);
        m.close_delim = pct(ch);
        // An outage: one thing keeps failing, every time, until the faults stop.
        match ch.weighted(&[14, 2, 2]) {
            0 => {}
            1 => {
                p.conn_fault = 100;
                p.kinds = Default::default();
                let k = ch.below(p.kinds.len());
                p.kinds[k] = 1;
            }
            _ => match ch.below(3) {
                0 => {
                    m.http_err = 100;
                    m.one_code = if ch.chance(3, 4) { *ch.pick(&crate::node::HTTP_ERRORS) } else { 0 };
                }
                1 => {
                    m.reject = 100;
                    m.one_code = if ch.chance(1, 2) { *ch.pick(&crate::node::HTTP_ERRORS) } else { 0 };
                }
                _ => m.garbage = 100,
            },
        }
    }
    for _ in 0..p.node_crash {
        let n = r.net.nodes.len();
        let node = r.ch.below(n);
        let span = u64::from(p.lat_us) * 12 + 1;
        let at = r.now + u64::from(r.ch.draw(span.min(u64::from(u32::MAX)) as u32)) * 1000;
        r.push_event(at, Ev::Crash { node });
    }
    for _ in 0..p.clock {
        let at = r.now + u64::from(r.ch.draw(p.lat_us * 8 + 1)) * 1000;
        let by = [3_600_000_000_000i64, -3_600_000_000_000, 86_400_000_000_000 * 400, -5_000_000_000][r.ch.below(4)];
        r.push_event(at, Ev::Clock { by });
    }
    r.prof = p;
    r.net.mix = m;
}

pub fn nodes(r: &mut Rt) -> Vec<(usize, String)> {
    let n = 1 + r.ch.below(3);
    let mut out = Vec::new();
    for i in 0..n {
        let ch = &mut r.ch;
        let port = [20443u16, 80, 3999, 65535][ch.below(4)];
        let prefix = ["", "/api", "/a/b", "/Proxy/v2", "/node-1/v2/info", "/~Ab_c.d"][ch.weighted(&[8, 2, 1, 1, 1, 1])].to_string();
        let ip = 0x0a00_0001 + i as u32;
        let name = format!("node{i}.sim");
        let host = if ch.chance(1, 5) { format!("10.0.0.{}", i + 1) } else { name.clone() };
        let url = if port == 80 && ch.chance(1, 2) { format!("http://{host}{prefix}") } else { format!("http://{host}:{port}{prefix}") };
        r.net.nodes.push(Node { name, ip, port, prefix, up: true });
        out.push((i, url));
    }
    // a bystander on the mocknet's default address, which no handle names
    r.net.nodes.push(Node { name: "localhost".into(), ip: 0x7f00_0001, port: 3999, prefix: String::new(), up: true });
    out
}

pub fn handles(urls: &[(usize, String)]) -> Vec<Handle> {
    urls.iter().map(|(node, u)| Handle { node: *node, rpc: StacksRPC::new(u.clone()) }).collect()
}

pub fn run() {
    let r = rt();
    let urls = nodes(r);
    swarm(r);
    r.entropy = crate::choice::Prng::new(r.ch.draw(u32::MAX).into());
    let handles = handles(&urls);
    // a process that has been up for long
    let long = r.ch.chance(1, 200);
    let k = if long { 1 } else { 1 + r.ch.weighted(&[3, 3, 2, 1]) };
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for t in 0..k {
        let n = if long { 100 + r.ch.below(250) } else { 1 + r.ch.below(if k > 2 { 3 } else { 5 }) };
        let hs: Vec<Handle> = handles.clone();
        bodies.push(Box::new(move || body(|| client(t, hs, n))));
    }
    if long {
        hit("a hundred calls and more");
        r.max_steps = 20_000_000;
    }
    r.run(bodies);
    // Faults stop: every handle and clone serves again.
    let r = rt();
    r.heal();
    r.note(|| "faults stop".into());
    let all = matches!(focus(), "C13");
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for (t, h) in handles.into_iter().enumerate() {
        bodies.push(Box::new(move || body(|| {
            if all {
                let c = h.clone();
                for k in [0, 1, 2, 3, 5] {
                    one(t, if k % 2 == 0 { &h } else { &c }, k);
                }
            } else {
                let w = weights(focus());
                let k = {
                    let _b = Bypass::on();
                    let k = rt().ch.weighted(&w);
                    k
                };
                one(t, &h, k);
                if k != 5 {
                    info(t, &h);
                }
            }
        })));
    }
    r.max_steps += r.steps;
    r.run(bodies);
    judge();
}

// ------------------------------------------------------------------ the verdict

fn expect(k: &Kind, x: &RespRec) -> Res {
    let ok = x.status < 300;
    let err = || Res::Err(String::new());
    match (k, &x.sem) {
        (Kind::Info, Sem::Info(n, s)) if ok => Res::Info(n.clone(), s.clone()),
        (Kind::Address(_), Sem::Account(s, u, n)) if ok => Res::Account(s.clone(), *u, *n),
        (Kind::Fee { .. }, Sem::Fees(f)) if ok => Res::Fees(f.clone()),
        (Kind::Fee { .. }, Sem::Text) => Res::FeesErr(x.body.clone()),
        (Kind::Ro { .. }, Sem::Ro(r, _)) if ok => Res::Ro(true, r.clone()),
        (Kind::Ro { .. }, Sem::RoErr(c)) if ok => Res::RoErr(false, c.clone()),
        (Kind::Send { .. }, Sem::Txid(b)) if ok => Res::Ok(b.clone()),
        (Kind::Send { .. }, Sem::Reject(e, r, t)) => Res::Rej(e.clone(), r.clone(), t.clone()),
        _ => err(),
    }
}

/// serde_json may miss the nearest double by one unit when a number has more than 15 digits.
fn near(a: f64, b: f64) -> bool {
    a == b || (a > 0.0 && b > 0.0 && a.to_bits().abs_diff(b.to_bits()) <= 1)
}

fn hex_arg(s: &str) -> Option<Vec<u8>> {
    rf::unhex(&s.strip_prefix("0x").unwrap_or(s).to_ascii_lowercase())
}

fn judge() {
    let all = std::mem::take(&mut *DONE.lock().unwrap());
    let r = rt();
    let ops = std::mem::take(&mut r.net.ops);
    let stray = std::mem::take(&mut r.net.stray);
    for s in &stray {
        viol("C16", "request that belongs to no call", format!("{} {}", s.method, s.target));
    }
    for d in &all {
        let op = &ops[d.op];
        verdict(d, op, r);
    }
}

/// A signal interrupted a read of this call's chunked answer.
pub fn interrupted_chunk(op: &OpRec) -> bool {
    op.disturbed.contains(&"EINTR") && op.reqs.iter().any(|q| q.resp.as_ref().is_some_and(|x| x.chunked))
}

fn verdict(d: &Done, op: &OpRec, r: &mut Rt) {
    let prefix = r.net.nodes[op.node].prefix.clone();
    let clean = op.disturbed.is_empty();
    let primary = match d.kind {
        Kind::Send { .. } => "C06",
        Kind::Broken { .. } => "C12",
        _ => "C07",
    };
    hit(match (&d.kind, clean) {
        (Kind::Info, true) => "info undisturbed",
        (Kind::Info, false) => "info under faults",
        (Kind::Address(_), true) => "address undisturbed",
        (Kind::Address(_), false) => "address under faults",
        (Kind::Fee { .. }, true) => "estimate_fee undisturbed",
        (Kind::Fee { .. }, false) => "estimate_fee under faults",
        (Kind::Ro { .. }, true) => "read_only undisturbed",
        (Kind::Ro { .. }, false) => "read_only under faults",
        (Kind::Send { .. }, true) => "broadcast undisturbed",
        (Kind::Send { .. }, false) => "broadcast under faults",
        (Kind::Broken { .. }, _) => "refused before sending",
    });
    if let Res::Panic(p) = &d.res {
        viol(primary, "panic", format!("{} panicked: {p}", op.label));
        viol("C13", "panic", format!("{} panicked: {p}", op.label));
        return;
    }
    // it ends
    let took = op.end.saturating_sub(op.start) / 1_000_000_000;
    let count = |k: &str| op.disturbed.iter().filter(|x| **x == k).count() as u64;
    let cap = 600 + 3700 * count("stalled") + 41 * count("process stalled");
    check("C13", took <= cap, "call takes too long", || format!("{} took {took} s of simulated time", op.label));

    // what went out
    let is_tx = |q: &ReqRec| q.target.trim_end_matches('/').ends_with("/v2/transactions");
    if let Kind::Broken { what, call } = &d.kind {
        check("C12", op.reqs.is_empty(), "sent what has no encoding", || {
            format!("{call} with {what} sent {} {}", op.reqs[0].method, op.reqs[0].target)
        });
        check("C12", matches!(d.res, Res::Err(_)), "accepted what has no encoding", || format!("{call} with {what} gave {:?}", d.res));
        return;
    }
    let sending = matches!(d.kind, Kind::Send { .. });
    for q in &op.reqs {
        check("C16", !q.late, "sent after the call returned", || format!("{} {}", q.method, q.target));
        if !sending {
            check("C16", !(q.complete && q.method == "POST" && is_tx(q)), "submission the caller did not make", || {
                format!("{} sent {} {}", op.label, q.method, q.target)
            });
        } else {
            check("C16", !q.complete || (q.method == "POST" && is_tx(q)), "a broadcast sent something else", || {
                format!("{} {}", q.method, q.target)
            });
        }
    }
    if sending {
        check("C16", op.reqs.len() <= 1, "submitted more than once", || {
            op.reqs.iter().map(|q| format!("{} {} complete={}", q.method, q.target, q.complete)).collect::<Vec<_>>().join("; ")
        });
    }
    let redirected = op.reqs.iter().any(|q| q.resp.as_ref().is_some_and(|x| x.sem == Sem::Redirect));
    if let Some(q) = op.reqs.iter().find(|q| q.complete) {
        request(d, op, q, &prefix);
    }
    if sending {
        for q in op.reqs.iter().filter(|q| q.complete && q.method == "POST").skip(1) {
            request(d, op, q, &prefix);
        }
    }

    // what came back
    let resps: Vec<&RespRec> = op.reqs.iter().filter_map(|q| q.resp.as_ref()).collect();
    let good = |x: &RespRec| -> bool {
        let e = expect(&d.kind, x);
        match (&e, &d.res) {
            (Res::Err(_), Res::Err(_)) => true,
            (Res::Fees(a), Res::Fees(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && near(x.1, y.1)),
            (a, b) => a == b,
        }
    };
    let said = || {
        let x = resps.last().map(|x| format!("{} {}", x.status, short(&x.body)));
        format!("{} gave {}; the node said {x:?}; faults {:?}", op.label, short(&format!("{:?}", d.res)), op.disturbed)
    };
    let ok = if d.healed || (clean && !redirected) {
        resps.last().is_some_and(|x| good(x))
    } else {
        matches!(d.res, Res::Err(_)) || resps.iter().any(|x| !matches!(expect(&d.kind, x), Res::Err(_)) && good(x))
    };
    let cut = match &d.res {
        Res::FeesErr(t) => !clean && resps.iter().any(|x| x.chunked && x.sem == Sem::Text && x.body.len() > t.len() && x.body.starts_with(t.as_str())),
        _ => false,
    };
    // ureq's chunk decoder forgets the size it has read when a signal interrupts the read after it
    let forgot = !ok && !clean && interrupted_chunk(op);
    let class = match (&d.res, resps.is_empty()) {
        _ if forgot => "interrupted chunk decoding",
        _ if cut => "cut text passed on",
        (Res::Err(_), _) => "answer lost",
        (_, true) => "answer out of nowhere",
        _ => "wrong answer",
    };
    check(primary, ok, class, said);
    if !ok {
        if d.healed {
            viol("C13", "not serving after faults stopped", said());
        }
        match &d.kind {
            Kind::Ro { .. } if !forgot => viol("C08", class, said()),
            Kind::Fee { .. } if !cut && !forgot => viol("C14", class, said()),
            _ => {}
        }
        if clean && op.reqs.is_empty() && matches!(d.res, Res::Err(_)) {
            viol("C12", "valid call refused", said());
            if sending {
                viol("C01", "valid transaction not sent", said());
            }
        }
    }
    if d.healed {
        check("C13", !matches!(d.res, Res::Err(_)), "not serving after faults stopped", said);
    }
    if let (Kind::Send { hash, .. }, Res::Ok(b)) = (&d.kind, &d.res) {
        let id = b.trim().trim_matches('"').to_ascii_lowercase();
        let id = id.trim_start_matches("0x").to_string();
        check("C06", forgot || id == rf::hex(hash), "txid differs from Transaction::hash", || format!("node {id}, hash {}", rf::hex(hash)));
        check("C17", forgot || id == rf::hex(hash), "txid differs from Transaction::hash", || format!("node {id}, hash {}", rf::hex(hash)));
        hit("accepted");
    }
    if matches!(d.res, Res::Rej(..)) {
        hit("rejected");
    }

    if let (Kind::Ro { val, typed: got, hint, .. }, Res::Ro(_, text)) = (&d.kind, &d.res) {
        // the value the node encoded in the answer that was returned
        let sent = resps.iter().find_map(|x| match &x.sem {
            Sem::Ro(t, v) if t == text => Some(v),
            _ => None,
        });
        if let Some(v) = sent {
            let okv = matches!(val, Some(Ok(Some(w))) if w == v);
            check("C08", okv, "result decoded to another value", || {
                format!("{} became {}", short(&v.show()), short(&format!("{val:?}")))
            });
            if let Some(g) = got {
                match typed::judge(v, *hint, g) {
                    Ok(k) => {
                        hit(k);
                        check("C15", !matches!(g, typed::Got::Err(e) if e.starts_with("PANIC")), "panic", || format!("{g:?}"));
                    }
                    Err(m) => {
                        check("C15", false, "typed extraction", || short(&m));
                    }
                }
            } else if *hint > 0 {
                check("C15", false, "typed answer not decoded", || short(&format!("{val:?}")));
            }
        }
    }
}

/// The first complete request of a call carries what the caller asked for.
fn request(d: &Done, op: &OpRec, q: &ReqRec, prefix: &str) {
    let path = q.target.split('?').next().unwrap_or("").to_string();
    let wrong = |p: &'static str, what: &str, m: String| {
        check(p, false, what, || format!("{}: {}", op.label, short(&m)));
    };
    let node_prop = match d.kind {
        Kind::Send { .. } => "C01",
        Kind::Fee { .. } => "C14",
        Kind::Ro { .. } => "C08",
        _ => "C07",
    };
    check(node_prop, q.node == op.node, "sent to another node", || format!("{} for node {} went to node {}", op.label, op.node, q.node));
    let json = || serde_json::from_slice::<serde_json::Value>(&q.body).unwrap_or_default();
    match &d.kind {
        Kind::Info => {
            check("C07", q.method == "GET" && path == format!("{prefix}/v2/info"), "wrong request", || format!("{} {}", q.method, q.target));
        }
        Kind::Address(a) => {
            check("C07", q.method == "GET" && percent_decode(&path) == format!("{prefix}/v2/accounts/{a}"), "wrong request", || {
                format!("{} {} for {a}", q.method, q.target)
            });
        }
        Kind::Fee { payload, len } => {
            check("C14", q.method == "POST" && path == format!("{prefix}/v2/fees/transaction"), "wrong request", || format!("{} {}", q.method, q.target));
            let j = json();
            let p = j["transaction_payload"].as_str().and_then(hex_arg);
            check("C14", p.as_ref() == Some(payload), "quote asked for another payload", || {
                format!("asked for {}, the payload is {}", short(&j["transaction_payload"].to_string()), short(&rf::hex(payload)))
            });
            check("C14", j["estimated_len"].as_u64() == Some(*len as u64), "wrong estimated length", || {
                format!("asked for {}, the transaction has {len} bytes", j["estimated_len"])
            });
        }
        Kind::Ro { ver, hash, contract, func, args, sender, .. } => {
            let base = format!("{prefix}/v2/contracts/call-read/{}/", rf::c32_address(*ver, hash));
            let rest = path.strip_prefix(&base);
            let parts: Option<(String, String)> =
                rest.and_then(|x| x.split_once('/')).map(|(a, b)| (percent_decode(a), percent_decode(b)));
            let raw_slash = rest.is_some_and(|x| x.matches('/').count() != 1);
            check("C08", q.method == "POST" && !raw_slash && parts == Some((contract.clone(), func.clone())) && !q.target.contains('?'), "wrong contract or function", || {
                format!("{} {} for {contract} {func:?}", q.method, q.target)
            });
            let j = json();
            check("C08", j["sender"].as_str() == Some(sender), "wrong sender", || format!("{} for {sender}", j["sender"]));
            let got: Option<Vec<V>> = j["arguments"]
                .as_array()
                .and_then(|a| a.iter().map(|x| x.as_str().and_then(hex_arg).and_then(|b| rf::decode_value(&b).ok())).collect());
            check("C08", got.as_ref() == Some(args), "arguments changed", || {
                format!("sent {}, node read {}", short(&format!("{args:?}")), short(&format!("{got:?}")))
            });
        }
        Kind::Send { want, signed, bytes, quoted, .. } => {
            let c = |k: &str| q.headers.iter().find(|h| h.0 == k).map(|h| h.1.clone());
            check("C01", q.method == "POST" && path == format!("{prefix}/v2/transactions"), "wrong request", || format!("{} {}", q.method, q.target));
            let ct = c("content-type").unwrap_or_default();
            check("C01", ct.split(';').next().unwrap_or("").trim().eq_ignore_ascii_case("application/octet-stream"), "wrong content type", || ct.clone());
            check("C01", q.body == *bytes, "node received other bytes than were built", || first_diff(&q.body, bytes));
            check("C16", q.body == *bytes, "submission of another transaction", || first_diff(&q.body, bytes));
            match rf::Tx::parse(&q.body) {
                Err(e) => wrong("C01", "node cannot read the transaction", format!("{e}: {want:?}")),
                Ok(t) => {
                    let b = gen::blank(&t);
                    let w = gen::blank(want);
                    if !check("C01", b == w, "node read another transaction", || format!("asked for {w:?}, node read {b:?}")) && *quoted {
                        viol("C14", "sent another transaction than quoted", format!("asked for {w:?}, node read {b:?}"));
                    }
                    if *signed {
                        let v = t.verify();
                        check("C01", v.is_ok(), "signature does not verify at the node", || format!("{v:?}"));
                        if *quoted {
                            check("C14", v.is_ok(), "signature does not verify after setting fee and nonce", || format!("{v:?}"));
                        }
                    } else {
                        check("C01", t == *want, "unsigned transaction changed", || format!("asked for {want:?}, node read {t:?}"));
                    }
                }
            }
        }
        Kind::Broken { .. } => {}
    }
}
