//! One transaction, made again and again: by processes that crash anywhere and are started anew with
//! another clock, other randomness, other threads beside them and another path to the same inputs.

use crate::choice::Choices;
use crate::exec;
use crate::gen;
use crate::gen::{Plan, Signing, Spender};
use crate::refimpl as rf;
use crate::rt::*;
use crate::s_net;
use crate::sc::*;
use serde_json::{json, Value};
use stacks_rs::clarity::Codec;
use stacks_rs::rpc as lr;
use stacks_rs::transaction as lt;
use stacks_rs::transaction::{Transaction, TransactionSigner};
use std::sync::Mutex;

fn ch() -> &'static mut Choices {
    &mut rt().ch
}

fn pause() {
    unsafe {
        crate::interpose::sched_yield();
    }
}

/// What an observer outside the process saw of it.
static SEEN: Mutex<Vec<(&'static str, String)>> = Mutex::new(Vec::new());
static OURS: Mutex<Vec<usize>> = Mutex::new(Vec::new());

fn saw(k: &'static str, v: String) {
    let _b = Bypass::on();
    rt().note(|| format!("{k}: {}", short(&v)));
    SEEN.lock().unwrap().push((k, v));
}

fn enc(t: &Transaction) -> Option<String> {
    match guard(|| t.encode().map_err(|e| e.to_string())) {
        Ok(Ok(b)) => Some(rf::hex(&b)),
        Ok(Err(e)) | Err(e) => {
            let _b = Bypass::on();
            viol("C17", "cannot encode", e);
            None
        }
    }
}

/// Things a caller does with a transaction that must not change it.
fn touch(t: &mut Transaction) {
    let n = ch().below(4);
    for _ in 0..n {
        let Some(before) = enc(t) else { return };
        let what = match ch().draw(8) {
            0 => {
                let _ = guard(|| t.hash().is_ok());
                "hash"
            }
            1 => {
                let _ = guard(|| t.len().is_ok());
                "len"
            }
            2 => {
                let _ = guard(|| (t.hex().is_ok(), t.hex_prefixed().is_ok()));
                "hex"
            }
            3 => {
                let c = t.clone();
                *t = c;
                "clone"
            }
            4 => {
                let mut c = t.clone();
                c.set_fee(gen::amount(ch()));
                c.set_nonce(gen::amount(ch()));
                let k = gen::key(ch());
                let _ = guard(|| c.sign(gen::secret(&k)).is_ok());
                "work on a copy"
            }
            5 => {
                let _ = guard(|| (t.payload.encode().is_ok(), t.post_conditions.encode().is_ok()));
                "encoding its parts"
            }
            6 => {
                let _ = guard(|| format!("{t:?}").len());
                "printing"
            }
            _ => {
                let h = [7u8; 32];
                let _ = guard(|| t.auth.verify(stacks_rs::crypto::SignatureHash(h)).is_ok());
                "verify"
            }
        };
        let after = enc(t);
        let _b = Bypass::on();
        check("C17", after.as_ref() == Some(&before), "changed by looking at it", || format!("{what} changed {} into {after:?}", short(&before)));
    }
}

/// Signs it, in one session or several.
fn sign(p: &Plan, s: &Signing, t: Transaction) -> Result<Transaction, String> {
    if ch().chance(1, 2) {
        return s.sign(p, t);
    }
    let e = |e: lt::Error| e.to_string();
    let mut t = t;
    match &p.origin {
        Spender::Single { key, .. } => {
            let mut g = TransactionSigner::new(t).map_err(e)?;
            g.sign_origin(gen::secret(key)).map_err(e)?;
            t = g.transaction();
        }
        Spender::Multi { keys, .. } => {
            let mut g = TransactionSigner::new(t.clone()).map_err(e)?;
            for (k, sig) in keys.iter().zip(&s.origin) {
                if *sig {
                    g.sign_origin(gen::secret(k)).map_err(e)?;
                } else {
                    g.append_origin(gen::public(k)).map_err(e)?;
                }
                if ch().chance(1, 3) {
                    // handed on
                    g = TransactionSigner::new(g.transaction()).map_err(e)?;
                    pause();
                }
            }
            t = g.transaction();
        }
    }
    let rest = Signing { origin: vec![], sponsor: s.sponsor.clone() };
    if s.sponsor.is_none() {
        return Ok(t);
    }
    let (sp, nonce, fee) = rest.sponsor.as_ref().unwrap();
    let mut g = TransactionSigner::new_sponser(&t, sp.lib(*nonce, *fee)).map_err(e)?;
    let keys = match sp {
        Spender::Single { key, .. } => vec![*key],
        Spender::Multi { keys, .. } => keys.clone(),
    };
    for k in &keys {
        g.sign_sponsor(gen::secret(k)).map_err(e)?;
        pause();
    }
    Ok(g.transaction())
}

/// From the same inputs to the same transaction, by one of many ways.
fn make(p: &Plan, s: &Signing) -> Option<Transaction> {
    let mut q = p.clone();
    let (nonce, fee) = p.tx.origin().nonce_fee();
    let detour = ch().chance(1, 2);
    if detour {
        q.tx.origin_mut().set(gen::amount(ch()), gen::amount(ch()));
    }
    let built = match guard(|| q.try_build()) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) | Err(e) => {
            let _b = Bypass::on();
            viol("C17", "cannot build", e);
            return None;
        }
    };
    let mut t = built;
    pause();
    if detour {
        touch(&mut t);
        if ch().chance(1, 2) {
            t.set_fee(gen::amount(ch()));
        }
        if ch().chance(1, 2) {
            t.set_fee(fee);
            t.set_nonce(nonce);
        } else {
            t.set_nonce(nonce);
            t.set_fee(fee);
        }
    }
    touch(&mut t);
    saw("unsigned", enc(&t)?);
    pause();
    let mut t = match guard(|| sign(p, s, t)) {
        Ok(Ok(t)) => t,
        Ok(Err(e)) | Err(e) => {
            let _b = Bypass::on();
            viol("C17", "cannot sign", e);
            return None;
        }
    };
    touch(&mut t);
    saw("signed", enc(&t)?);
    if let Some(Ok(h)) = lib("C17", "hash", || t.hash()) {
        saw("id", h.hex());
    }
    pause();
    Some(t)
}

fn worker(tid: usize, p: &Plan, s: &Signing, h: Option<&s_net::Handle>) {
    let times = 1 + ch().below(2);
    for _ in 0..times {
        let Some(t) = make(p, s) else { return };
        let Some(h) = h else { continue };
        let sends = 1 + ch().below(2);
        for _ in 0..sends {
            {
                let _b = Bypass::on();
                OURS.lock().unwrap().push(rt().net.ops.len());
            }
            let (op, r) = s_net::call(tid, "broadcast", h.node, 0, || h.rpc.broadcast(&t));
            match r {
                Ok(Ok(lr::BroadcastResponse::Ok(_))) if s_net::interrupted_chunk(&rt().net.ops[op]) => {}
                Ok(Ok(lr::BroadcastResponse::Ok(id))) => saw("accepted", id.trim().trim_matches('"').to_ascii_lowercase().trim_start_matches("0x").to_string()),
                Ok(_) => {}
                Err(e) => {
                    let _b = Bypass::on();
                    viol("C17", "panic", format!("broadcast: {e}"));
                    return;
                }
            }
            let after = enc(&t);
            saw("signed", after.unwrap_or_default());
        }
    }
}

pub fn extra() -> Value {
    let _b = Bypass::on();
    let r = rt();
    let mut v: Vec<(String, String)> = SEEN.lock().unwrap().iter().map(|(k, v)| ((*k).to_string(), v.clone())).collect();
    for id in OURS.lock().unwrap().iter() {
        if let Some(o) = r.net.ops.get(*id) {
            for q in o.reqs.iter().filter(|q| q.complete && q.method == "POST") {
                v.push(("submitted".into(), rf::hex(&q.body)));
            }
        }
    }
    json!(v)
}

/// What a process that has been up for long has done before.
fn history() {
    let n = match ch().draw(480) {
        0..=1 => 1200,
        2..=40 => 1 + ch().below(30),
        _ => return,
    };
    let o = Spender::Single { mode: 0, key: gen::key(ch()) };
    let p = gen::plan(ch(), o, false, false);
    let s = Signing::draw(ch(), &p);
    rt().note(|| format!("{n} signatures before"));
    let Ok(Ok(t)) = guard(|| p.try_build()) else { return };
    for i in 0..n as u64 {
        let mut t = t.clone();
        t.set_nonce(i);
        let Ok(Ok(_)) = guard(|| s.sign(&p, t)) else { return };
    }
    hit(if n > 1000 { "more than a thousand signatures before" } else { "signatures before" });
}

/// One life of the process.
fn life(p: &Plan, s: &Signing, calm: bool) {
    let r = rt();
    let urls = s_net::nodes(r);
    if calm {
        crate::s_sign::calm_swarm(r);
        r.prof.lat_us = 200;
    } else {
        s_net::swarm(r);
        r.base_real = [1_700_000_000_000_000_000, 0, 4_000_000_000_000_000_000, 951_782_400_000_000_000][r.ch.below(4)];
    }
    let seed = r.ch.draw(u32::MAX);
    r.entropy = crate::choice::Prng::new(u64::from(seed));
    let online = r.ch.chance(2, 3);
    let handles = s_net::handles(&urls);
    let others = r.ch.below(3);
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    let (p0, s0, h0) = (p.clone(), s.clone(), handles[0].clone());
    bodies.push(Box::new(move || body(|| {
        history();
        worker(0, &p0, &s0, online.then_some(&h0));
    })));
    for t in 0..others {
        if r.ch.chance(1, 2) {
            let (p, s) = (p.clone(), s.clone());
            bodies.push(Box::new(move || body(|| worker(t + 1, &p, &s, None))));
        } else {
            let hs = handles.clone();
            bodies.push(Box::new(move || body(|| s_net::client(t + 1, hs, 2))));
        }
    }
    r.run(bodies);
}

pub fn run() {
    let r = rt();
    let c = &mut r.ch;
    let o = if c.chance(1, 3) { Spender::multi(c) } else { Spender::single(c) };
    let sponsored = c.chance(1, 4);
    let big = c.chance(1, 8);
    let p = gen::plan(c, o, sponsored, big);
    let s = Signing::draw(c, &p);
    let lives = 2 + c.below(3);
    let mut first: Vec<(String, String)> = Vec::new();
    let mut want: Vec<(&'static str, String)> = vec![("unsigned", rf::hex(&p.tx.bytes()))];
    for i in 0..lives {
        let r = rt();
        let seed = r.ch.draw(u32::MAX);
        let last = i + 1 == lives;
        let crash = if last || !r.ch.chance(2, 3) { None } else { Some(1 + u64::from(r.ch.draw(120))) };
        if let Some(n) = crash {
            r.note(|| format!("life {i}: dies after {n} steps"));
            r.fault("process crash");
        } else {
            r.note(|| format!("life {i}"));
        }
        r.switches += 1;
        let calm = last;
        let got = exec::life(seed, crash, || life(&p, &s, calm));
        OUT.lock().unwrap().forks += 1;
        let got = match got {
            Ok(g) => g,
            Err(e) => {
                viol("C17", "abort", format!("life {i}: {e}"));
                return;
            }
        };
        for (k, v) in got {
            let w = match k.as_str() {
                "submitted" => "signed",
                "accepted" => "id",
                x => x,
            };
            hit(match k.as_str() {
                "unsigned" => "unsigned bytes seen",
                "signed" => "signed bytes seen",
                "id" => "id seen",
                "submitted" => "submission seen at a node",
                _ => "id reported by a node",
            });
            if w == "id" && !want.iter().any(|x| x.0 == "id") {
                // the network's id of what was signed
                if let Some(b) = want.iter().find(|x| x.0 == "signed").and_then(|x| rf::unhex(&x.1)) {
                    if let Ok(t) = rf::Tx::parse(&b) {
                        want.push(("id", rf::hex(&t.txid())));
                    }
                }
            }
            match want.iter().find(|x| x.0 == w) {
                Some((_, x)) => {
                    if !check("C17", *x == v, "not the same again", || {
                        format!("life {i}: {k} differs from the {w} before: {}; now {}", first_diff(x.as_bytes(), v.as_bytes()), short(&v))
                    }) {
                        return;
                    }
                }
                None => want.push((if w == "signed" { "signed" } else { "id" }, v.clone())),
            }
            first.push((k, v));
        }
        if last {
            check("C17", first.iter().any(|x| x.0 == "signed"), "never completed", || format!("{first:?}"));
        }
    }
}
