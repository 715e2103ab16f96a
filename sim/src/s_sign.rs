//! Signers, cosigners, sponsors and verifiers that hand transactions to each other.

use crate::choice::Choices;
use crate::gen;
use crate::gen::{Plan, Signing, Spender};
use crate::refimpl as rf;
use crate::refimpl::{Cond, Field};
use crate::rt::*;
use crate::sc::*;
use stacks_rs::clarity::Codec;
use stacks_rs::crypto::SignatureHash;
use stacks_rs::transaction as lt;
use stacks_rs::transaction::{Modification, Transaction, TransactionSigner};

fn ch() -> &'static mut Choices {
    &mut rt().ch
}

fn pause() {
    unsafe {
        crate::interpose::sched_yield();
    }
}

/// A thread schedule, a clock and a source of randomness of its own for every run.
pub fn calm_swarm(r: &mut Rt) {
    r.prof.keep = [4, 1, 2, 12][r.ch.below(4)];
    r.prof.event = 2;
    r.prof.preempt = [0, 0, 600, 100, 15][r.ch.below(5)];
    r.base_real = [1_700_000_000_000_000_000, 0, 4_000_000_000_000_000_000][r.ch.below(3)];
    let s = r.ch.draw(u32::MAX);
    r.entropy = crate::choice::Prng::new(u64::from(s));
}

pub fn run() {
    let r = rt();
    calm_swarm(r);
    let k = 1 + r.ch.weighted(&[3, 2, 1]);
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for _ in 0..k {
        bodies.push(Box::new(move || {
            body(|| match focus() {
                "C02" => c02(),
                "C03" => c03(),
                "C04" => c04(),
                _ => c05(),
            });
        }));
    }
    r.run(bodies);
}

fn bytes(p: &'static str, t: &Transaction) -> Option<Vec<u8>> {
    match guard(|| t.encode().map_err(|e| e.to_string())) {
        Ok(Ok(b)) => Some(b),
        Ok(Err(e)) | Err(e) => {
            viol(p, "valid transaction refused", format!("encode: {e}"));
            None
        }
    }
}

/// What an independent reader sees.
fn observe(p: &'static str, t: &Transaction) -> Option<rf::Tx> {
    let b = bytes(p, t)?;
    match rf::Tx::parse(&b) {
        Ok(x) => Some(x),
        Err(e) => {
            viol(p, "unreadable transaction", e);
            None
        }
    }
}

/// The library's verdict against the independent one.
fn compare(p: &'static str, t: &Transaction, x: &rf::Tx) {
    let h = x.sighash0();
    let want = x.verify();
    let want_o = x.verify_origin();
    let Some(got) = lib(p, "Auth::verify", || t.auth.verify(SignatureHash(h)).map_err(|e| e.to_string())) else { return };
    let Some(got_o) = lib(p, "Auth::verify_origin", || t.auth.verify_origin(SignatureHash(h)).map_err(|e| e.to_string())) else {
        return;
    };
    hit(if want.is_ok() { "verified" } else { "not verified" });
    check(p, got.is_ok() == want.is_ok(), if got.is_ok() { "accepted what the network refuses" } else { "refused what the network accepts" }, || {
        format!("Auth::verify gave {got:?}, the network {want:?}: {}", short(&format!("{:?}", x.auth)))
    });
    check(
        p,
        got_o.is_ok() == want_o.is_ok(),
        if got_o.is_ok() { "accepted an origin the network refuses" } else { "refused an origin the network accepts" },
        || format!("Auth::verify_origin gave {got_o:?}, the network {want_o:?}: {}", short(&format!("{:?}", x.auth))),
    );
    if let (Ok(a), Ok(b)) = (&got_o, &want_o) {
        check(p, a.as_bytes() == b, "verify_origin returned another hash", || format!("{a:?} vs {}", rf::hex(b)));
    }
}

/// Changes one thing, in the library's transaction and in the plan; says what.
fn edit(p: &mut Plan, t: &mut Transaction) -> &'static str {
    // from now on it may hold what the builders cannot say
    p.builder = false;
    let c = ch();
    let (nonce, fee) = p.tx.origin().nonce_fee();
    let other = |c: &mut Choices, x: u64| match c.draw(4) {
        0 => x ^ 1,
        1 => x ^ (1 << c.draw(64)),
        2 => x.wrapping_add(1),
        _ => {
            let y = gen::amount(c);
            if y == x {
                x ^ 1
            } else {
                y
            }
        }
    };
    match c.draw(9) {
        0 => {
            let f = other(c, fee);
            if c.chance(1, 3) {
                t.auth.origin_mut().set_fee(f);
            } else {
                t.set_fee(f);
            }
            p.tx.origin_mut().set(nonce, f);
            "fee"
        }
        1 => {
            let n = other(c, nonce);
            if c.chance(1, 3) {
                t.auth.origin_mut().set_nonce(n);
            } else {
                t.set_nonce(n);
            }
            p.tx.origin_mut().set(n, fee);
            "nonce"
        }
        2 => {
            let main = p.tx.version == 0;
            p.tx.version = if main { 0x80 } else { 0 };
            p.tx.chain = if main { 0x8000_0000 } else { 1 };
            t.version = gen::lib_version(p.tx.version);
            t.chain_id = gen::lib_chain(p.tx.chain);
            "network"
        }
        3 => {
            p.tx.chain = if p.tx.chain == 1 { 0x8000_0000 } else { 1 };
            t.chain_id = gen::lib_chain(p.tx.chain);
            "chain id"
        }
        4 => {
            p.tx.anchor = p.tx.anchor % 3 + 1;
            t.anchor_mode = gen::anchor(p.tx.anchor);
            "anchor mode"
        }
        5 => {
            p.tx.pc_mode = 3 - p.tx.pc_mode;
            t.post_condition_mode = gen::pmode(p.tx.pc_mode);
            "post-condition mode"
        }
        6 => {
            if !p.tx.pcs.is_empty() && c.chance(1, 2) {
                p.tx.pcs.pop();
            } else {
                let x = gen::pc(c);
                p.tx.pcs.push(x);
            }
            t.post_conditions = gen::lib_pcs(&p.tx.pcs);
            "post-conditions"
        }
        _ => {
            let before = p.tx.payload.bytes();
            match &mut p.tx.payload {
                rf::Payload::Transfer { amount, to, .. } => {
                    if c.chance(1, 2) {
                        *amount = other(c, *amount);
                    } else {
                        *to = gen::who(c);
                    }
                }
                rf::Payload::Call { func, args, .. } => {
                    if c.chance(1, 2) {
                        let v = gen::value(c, 1, false);
                        args.push(v);
                    } else {
                        *func = gen::fn_name(c);
                    }
                }
            }
            if p.tx.payload.bytes() == before {
                let f = fee ^ 1;
                t.set_fee(f);
                p.tx.origin_mut().set(nonce, f);
                return "fee";
            }
            t.payload = gen::lib_payload(&p.tx.payload, &p.memo).expect("valid payload");
            "payload"
        }
    }
}

/// Stored, lost, and read back: the same transaction rebuilt from its bytes.
fn resume(pr: &'static str, p: &Plan, t: &Transaction) -> Option<Transaction> {
    let x = observe(pr, t)?;
    let mut q = p.clone();
    q.tx = x;
    if let (rf::Auth::Spon(_, s), None) = (&q.tx.auth, &q.sponsor) {
        if *s != Cond::sentinel() {
            return Some(t.clone());
        }
    }
    rt().fault("crash and resume from stored bytes");
    lib(pr, "rebuilding", || q.try_build().ok()).flatten()
}

fn plan_for(sponsored: u32, multi: u32) -> Plan {
    let c = ch();
    let o = if c.chance(multi, 100) { Spender::multi(c) } else { Spender::single(c) };
    let s = c.chance(sponsored, 100);
    gen::plan(c, o, s, false)
}

// ------------------------------------------------------------------ C02

fn c02() {
    let rounds = 1 + ch().below(3);
    let mut prev: Option<Plan> = None;
    let mut kept: Vec<(Transaction, Vec<u8>)> = Vec::new();
    for _ in 0..rounds {
        let mut p = match &prev {
            // much like the one before
            Some(q) if ch().chance(1, 2) => q.clone(),
            _ => plan_for(25, 25),
        };
        let Some(mut t) = lib("C02", "building", || p.build()) else { return };
        let n = ch().below(5);
        for _ in 0..n {
            match ch().draw(6) {
                0..=2 => {
                    let w = edit(&mut p, &mut t);
                    rt().note(|| format!("edited {w} before signing"));
                    hit("edited before signing");
                }
                3 => t = t.clone(),
                4 => {
                    let Some(x) = resume("C02", &p, &t) else { return };
                    t = x;
                }
                _ => {
                    let _ = guard(|| (t.hash().is_ok(), t.len().is_ok(), t.hex().is_ok()));
                }
            }
            pause();
        }
        prev = Some(p.clone());
        let s = Signing::draw(ch(), &p);
        // the wrong key
        if ch().chance(1, 4) {
            let k = gen::key(ch());
            let own = match &p.origin {
                Spender::Single { key, .. } => *key == k,
                Spender::Multi { keys, .. } => keys.contains(&k),
            };
            if !own {
                if let Some(Ok(w)) = lib("C02", "sign", || t.clone().sign(gen::secret(&k))) {
                    if let Some(x) = observe("C02", &w) {
                        check("C02", x.verify_origin().is_err(), "another key's signature attributed to the signer", || format!("{:?}", x.auth));
                        hit("signed with another key");
                    }
                }
            }
        }
        pause();
        let signed = match guard(|| s.sign(&p, t.clone())) {
            Ok(Ok(t)) => t,
            Ok(Err(e)) | Err(e) => {
                check("C02", false, "cannot sign", || format!("{e}: {:?}", p.tx));
                return;
            }
        };
        pause();
        let Some(b) = bytes("C02", &signed) else { return };
        let Ok(x) = rf::Tx::parse(&b) else {
            check("C02", false, "unreadable transaction", || short(&rf::hex(&b)));
            return;
        };
        let w = s.expect(&p);
        check("C02", gen::blank(&x) == w, "signing changed the transaction", || format!("wanted {w:?}, got {:?}", gen::blank(&x)));
        let v = x.verify();
        check("C02", v.is_ok(), "signature not attributed to its signer", || format!("{v:?}: {}", short(&format!("{x:?}"))));
        hit("signed");
        kept.push((signed.clone(), b.clone()));
        // changed afterwards
        let k = 1 + ch().below(3);
        for _ in 0..k {
            let mut q = p.clone();
            let mut e = signed.clone();
            let what = edit(&mut q, &mut e);
            hit("edited after signing");
            rt().fault("edited after signing");
            if let Some(y) = observe("C02", &e) {
                check("C02", gen::blank(&y) != gen::blank(&x), "edit lost", || what.into());
                let v = y.verify();
                check("C02", v.is_err(), "changed transaction attributed to the signer", || format!("{what} changed after signing"));
                let l = lib("C02", "Auth::verify", || e.auth.verify(SignatureHash(y.sighash0())).is_ok());
                check("C02", l != Some(true), "changed transaction verifies in the library", || format!("{what} changed after signing"));
            }
            // signed again as it is now
            if let (Spender::Single { key, .. }, true) = (&q.origin, ch().chance(1, 3)) {
                let afresh = ch().chance(1, 2);
                let (n, f) = q.tx.origin().nonce_fee();
                let r = lib("C02", "signing again", || {
                    let mut a = e.clone();
                    if afresh {
                        a.auth = a.auth.reset();
                        a.set_fee(f);
                        a.set_nonce(n);
                        return a.sign(gen::secret(key)).map_err(|e| e.to_string());
                    }
                    let mut g = TransactionSigner::new(a).map_err(|e| e.to_string())?;
                    g.verify_oversign = false;
                    g.sign_origin(gen::secret(key)).map_err(|e| e.to_string())?;
                    Ok(g.transaction())
                });
                hit(if afresh { "reset and signed again" } else { "signature replaced" });
                match r {
                    Some(Ok(a)) => {
                        if let Some(y) = observe("C02", &a) {
                            let v = y.verify_origin();
                            check("C02", v.is_ok(), "second signature not attributed to its signer", || format!("{v:?} after {what} changed: {}", short(&format!("{y:?}"))));
                            check("C02", gen::blank(&y).origin() == gen::blank(&q.tx).origin(), "signing again changed the origin", || format!("{:?} vs {:?}", y.origin(), q.tx.origin()));
                        }
                    }
                    Some(Err(e)) => {
                        check("C02", false, "cannot sign again", || format!("{what} changed: {e}"));
                    }
                    None => {}
                }
            }
            // and back again
            if what == "fee" || what == "nonce" {
                let (n, f) = p.tx.origin().nonce_fee();
                e.set_fee(f);
                e.set_nonce(n);
                check("C02", bytes("C02", &e) == Some(b.clone()), "restored transaction differs", || what.into());
            }
            pause();
        }
        // changed in flight
        let k = ch().below(4);
        for _ in 0..k {
            let mut d = b.clone();
            let i = ch().below(d.len());
            match ch().draw(3) {
                0 => d[i] ^= 1 << ch().draw(8),
                1 => d[i] = ch().draw(256) as u8,
                _ => {
                    let j = ch().below(d.len());
                    d.swap(i, j);
                }
            }
            if d == b {
                continue;
            }
            rt().fault("bytes changed in flight");
            if let Ok(y) = rf::Tx::parse(&d) {
                let same = gen::blank(&y) == gen::blank(&x);
                let owner = y.origin().signer() == x.origin().signer();
                check("C02", same || !owner || y.verify().is_err(), "changed bytes attributed to the signer", || format!("byte {i}"));
            }
        }
    }
    for (t, b) in kept {
        check("C02", bytes("C02", &t).as_ref() == Some(&b), "a signed transaction changed later", || first_diff(&b, &bytes("C02", &t).unwrap_or_default()));
    }
}

// ------------------------------------------------------------------ C03

/// One field as the model knows it: whose key, and, for a signature, over what it was made.
#[derive(Clone, Debug, PartialEq)]
struct F {
    pk: [u8; 33],
    sig: Option<([u8; 32], u64, u64)>,
}

#[derive(Clone)]
struct Held {
    t: Transaction,
    p: Plan,
    f: Vec<F>,
    b: Vec<u8>,
}

impl Held {
    fn over(&self) -> ([u8; 32], u64, u64) {
        let (n, f) = self.p.tx.origin().nonce_fee();
        (self.p.tx.sighash0(), n, f)
    }
    fn sigs(&self) -> usize {
        self.f.iter().filter(|x| x.sig.is_some()).count()
    }
    fn complete(&self) -> bool {
        let Spender::Multi { keys, required, .. } = &self.p.origin else { return false };
        let now = self.over();
        self.f.len() == keys.len()
            && self.f.iter().zip(keys).all(|(f, k)| f.pk == rf::pubkey(k))
            && self.sigs() == *required as usize
            && self.f.iter().all(|f| f.sig.as_ref().is_none_or(|s| *s == now))
    }
    /// Compares the library's transaction with the model.
    fn look(&mut self, what: &str) -> bool {
        let Some(b) = bytes("C03", &self.t) else { return false };
        self.b = b;
        let x = match rf::Tx::parse(&self.b) {
            Ok(x) => x,
            Err(e) => return check("C03", false, "unreadable transaction", || e),
        };
        let mut w = self.p.tx.clone();
        if let Cond::Multi { fields, .. } = w.origin_mut() {
            *fields = self.f.iter().map(|f| if f.sig.is_some() { Field::Sig([0; 65]) } else { Field::Pk(f.pk) }).collect();
        }
        let y = gen::blank(&x);
        if !check("C03", y == w, "wrong contents", || format!("after {what}: wanted {w:?}, got {y:?}")) {
            return false;
        }
        let v = x.verify_origin();
        let good = self.complete();
        hit(match (good, self.f.is_empty()) {
            (true, _) => "complete",
            (false, true) => "nothing signed",
            _ => "incomplete or wrong",
        });
        check("C03", v.is_ok() == good, if good { "complete but does not verify" } else { "verifies though incomplete or wrong" }, || {
            format!("after {what}: {v:?}; fields {}", short(&format!("{:?}", self.f)))
        })
    }
}

/// Steps that do not fit the condition they are taken on.
fn c03_misfits() {
    let c = ch();
    let multi = c.chance(1, 3);
    let o = if multi { Spender::multi(c) } else { Spender::single(c) };
    let sponsored = c.chance(1, 4);
    let p = gen::plan(c, o, sponsored, false);
    let Some(t) = lib("C03", "building", || p.build()) else { return };
    let Ok(Ok(mut s)) = guard(|| TransactionSigner::new(t).map_err(|e| e.to_string())) else {
        check("C03", false, "session refused", || format!("{:?}", p.tx.auth));
        return;
    };
    let steps = 1 + ch().below(4);
    for _ in 0..steps {
        let k = match (&p.origin, ch().chance(1, 2)) {
            (Spender::Single { key, .. }, true) => *key,
            (Spender::Multi { keys, .. }, true) => keys[ch().below(keys.len())],
            _ => gen::key(ch()),
        };
        let Some(before) = bytes("C03", &s.tx) else { return };
        let hash = s.hash;
        let err = |e: lt::Error| e.to_string();
        let sig = stacks_rs::crypto::MessageSignature([ch().draw(256) as u8; 65]);
        let (what, r) = match (multi, ch().draw(4)) {
            (false, 0 | 1) => ("an append to a single-sig condition", guard(|| s.append_origin(gen::public(&k)).map_err(err))),
            (false, 2) => ("AddPublicKey on a single-sig condition", guard(|| s.tx.auth.origin_mut().modify(Modification::AddPublicKey(gen::public(&k))).map_err(err))),
            (false, _) => ("AddSignature on a single-sig condition", guard(|| s.tx.auth.origin_mut().modify(Modification::AddSignature(sig)).map_err(err))),
            (true, _) => ("SetSignature on a multi-sig condition", guard(|| s.tx.auth.origin_mut().modify(Modification::SetSignature(sig)).map_err(err))),
        };
        hit("a step that does not fit");
        check("C03", matches!(r, Ok(Err(_))), "step that does not fit not refused", || format!("{what}: {r:?}"));
        check("C03", bytes("C03", &s.tx) == Some(before) && s.hash == hash, "refused step changed the transaction", || what.into());
        if let (Spender::Single { key, .. }, true) = (&p.origin, ch().chance(1, 3)) {
            let signed = s.tx.auth.origin().signatures() > 0;
            let Some(before) = bytes("C03", &s.tx) else { return };
            let r = guard(|| s.sign_origin(gen::secret(key)).map_err(err));
            if signed {
                check("C03", matches!(r, Ok(Err(_))), "oversigning accepted", || format!("{r:?}"));
                check("C03", bytes("C03", &s.tx) == Some(before), "refused step changed the transaction", || "oversigning".into());
            } else {
                check("C03", matches!(r, Ok(Ok(()))), "signature refused", || format!("{r:?}"));
                if let Some(x) = observe("C03", &s.tx) {
                    let v = x.verify_origin();
                    check("C03", v.is_ok(), "does not verify after refused steps", || format!("{v:?}"));
                }
            }
        }
        pause();
    }
}

fn c03() {
    if ch().chance(1, 12) {
        return c03_misfits();
    }
    let c = ch();
    let o = Spender::multi(c);
    let sponsored = c.chance(1, 5);
    let p = gen::plan(c, o, sponsored, false);
    let Spender::Multi { keys, required, .. } = p.origin.clone() else { return };
    let n = keys.len();
    let Some(t) = lib("C03", "building", || p.build()) else { return };
    let mut start = Held { t, p, f: vec![], b: vec![] };
    if !start.look("building") {
        return;
    }
    let parties = 1 + ch().below(4);
    // what each party holds in memory, what it has stored, and what is on its way to it
    let mut mem: Vec<Vec<Held>> = vec![vec![]; parties];
    let mut disk: Vec<Option<Held>> = vec![None; parties];
    let mut bus: Vec<(usize, Held)> = vec![];
    mem[0].push(start.clone());
    let steps = 2 + ch().below(4 + n.min(8) * 3);
    let mut last = 0;
    for _ in 0..steps {
        pause();
        let i = ch().below(parties);
        if i != last {
            rt().switches += 1;
            last = i;
        }
        // deliver something
        if !bus.is_empty() && ch().chance(2, 3) {
            let k = ch().below(bus.len());
            if k > 0 {
                rt().fault("hand-over overtaken");
            }
            let (to, h) = bus[k].clone();
            match ch().draw(8) {
                6 => rt().fault("hand-over duplicated"),
                7 => {
                    rt().fault("hand-over lost");
                    bus.remove(k);
                    continue;
                }
                _ => {
                    bus.remove(k);
                }
            }
            mem[to].push(h);
            continue;
        }
        if mem[i].is_empty() {
            if let Some(h) = disk[i].clone() {
                mem[i].push(h);
            }
            continue;
        }
        let which = if ch().chance(3, 4) { mem[i].len() - 1 } else { ch().below(mem[i].len()) };
        let before: Vec<Vec<u8>> = mem.iter().flatten().map(|h| h.b.clone()).collect();
        let mut h = mem[i][which].clone();
        match ch().draw(12) {
            0..=5 => {
                if !session(&mut h, &keys, required) {
                    return;
                }
                if ch().chance(1, 2) {
                    mem[i][which] = h;
                } else {
                    mem[i].push(h);
                }
            }
            6 => {
                let w = edit(&mut h.p, &mut h.t);
                if !h.look(&format!("editing {w}")) {
                    return;
                }
                rt().fault("edited between signatures");
                mem[i].push(h);
            }
            7 | 8 => {
                let to = ch().below(parties);
                bus.push((to, rewire(&h)));
                rt().note(|| format!("party {i} hands a copy with {} fields to {to}", h.f.len()));
            }
            9 => disk[i] = Some(rewire(&h)),
            10 => {
                rt().fault("cosigner crash");
                mem[i].clear();
                if let Some(d) = &disk[i] {
                    mem[i].push(d.clone());
                }
                continue;
            }
            _ => {
                mem[i].push(h.clone());
            }
        }
        // nobody else's copy changed
        for h in mem.iter_mut().flatten() {
            let Some(b) = bytes("C03", &h.t) else { return };
            check("C03", b == h.b || !before.contains(&h.b), "another copy changed", || first_diff(&h.b, &b));
        }
        for v in &mut mem {
            if v.len() > 4 {
                v.remove(0);
            }
        }
    }
    // Faults stop: the cosigners go through it in order and it comes out complete.
    let mut h = start;
    let mask = gen::signers(ch(), &h.p.origin);
    let mut k = 0;
    while k < n {
        let m = 1 + ch().below(n - k);
        let r = guard(|| {
            let mut s = TransactionSigner::new(h.t.clone()).map_err(|e| e.to_string())?;
            for j in k..k + m {
                if mask[j] {
                    s.sign_origin(gen::secret(&keys[j])).map_err(|e| e.to_string())?;
                } else {
                    s.append_origin(gen::public(&keys[j])).map_err(|e| e.to_string())?;
                }
            }
            Ok::<_, String>(s.transaction())
        });
        match r {
            Ok(Ok(t)) => h.t = t,
            Ok(Err(e)) | Err(e) => {
                check("C03", false, "cosigner cannot sign in turn", || e);
                return;
            }
        }
        let over = h.over();
        for j in k..k + m {
            h.f.push(F { pk: rf::pubkey(&keys[j]), sig: mask[j].then_some(over) });
        }
        k += m;
        if !h.look("an orderly session") {
            return;
        }
        if ch().chance(1, 2) {
            h = rewire(&h);
        }
        pause();
    }
    check("C03", h.complete(), "orderly signing did not complete", || format!("{:?}", h.f));
}

/// Over the wire and back: nothing of the sender's memory survives.
fn rewire(h: &Held) -> Held {
    let mut g = h.clone();
    let Ok(x) = rf::Tx::parse(&h.b) else { return g };
    let mut q = h.p.clone();
    q.tx = x;
    if let Some(Ok(t)) = lib("C03", "rebuilding", || q.try_build()) {
        g.t = t;
        if bytes("C03", &g.t).as_ref() != Some(&h.b) {
            check("C03", false, "rebuilt transaction differs", || first_diff(&h.b, &bytes("C03", &g.t).unwrap_or_default()));
        }
    }
    g
}

/// One signing session of one party on one copy.
fn session(h: &mut Held, keys: &[[u8; 32]], required: u8) -> bool {
    let r = guard(|| TransactionSigner::new(h.t.clone()).map_err(|e| e.to_string()));
    let mut s = match r {
        Ok(Ok(s)) => s,
        // stale signatures may not even parse; that is a refusal
        Ok(Err(e)) => {
            let stale = h.f.iter().any(|f| f.sig.as_ref().is_some_and(|x| *x != h.over()));
            return check("C03", stale, "session refused", || e);
        }
        Err(e) => return check("C03", false, "panic", || e),
    };
    let steps = 1 + ch().below(3);
    for _ in 0..steps {
        let k = match ch().draw(10) {
            8 => {
                rt().fault("out of turn");
                keys[ch().below(keys.len())]
            }
            9 => {
                rt().fault("a stranger's key");
                gen::key(ch())
            }
            _ => keys[h.f.len() % keys.len()],
        };
        let Some(before) = bytes("C03", &s.tx) else { return false };
        let full = h.sigs() >= required as usize;
        // Mostly what makes sense, sometimes not.
        let left = keys.len().saturating_sub(h.f.len());
        let need = (required as usize).saturating_sub(h.sigs());
        let sign = match ch().draw(8) {
            7 => true,
            6 => false,
            x if need >= left => x < 6,
            x if need == 0 => x > 6,
            x => x < 3,
        };
        if sign {
            match guard(|| s.sign_origin(gen::secret(&k)).map_err(|e| e.to_string())) {
                Ok(Ok(())) => {
                    let over = h.over();
                    h.f.push(F { pk: rf::pubkey(&k), sig: Some(over) });
                    if !check("C03", !full, "oversigning accepted", || format!("{} of {required} signatures were there", h.sigs() - 1)) {
                        return false;
                    }
                }
                Ok(Err(e)) => {
                    if !check("C03", full, "signature refused", || e) {
                        return false;
                    }
                    hit("oversigning refused");
                    let after = bytes("C03", &s.tx);
                    check("C03", after.as_ref() == Some(&before), "refused step changed the transaction", || "oversigning".into());
                }
                Err(e) => return check("C03", false, "panic", || e),
            }
        } else {
            match guard(|| s.append_origin(gen::public(&k)).map_err(|e| e.to_string())) {
                Ok(Ok(())) => h.f.push(F { pk: rf::pubkey(&k), sig: None }),
                Ok(Err(e)) | Err(e) => return check("C03", false, "append refused", || e),
            }
        }
        if ch().chance(1, 4) {
            // a look in the middle of the session
            h.t = s.tx.clone();
            if !h.look("a step of a session") {
                return false;
            }
        }
        pause();
    }
    h.t = s.transaction();
    h.look("a session")
}

// ------------------------------------------------------------------ C04

fn cond_of(x: &rf::Tx) -> Option<Cond> {
    match &x.auth {
        rf::Auth::Spon(_, s) => Some(s.clone()),
        rf::Auth::Std(_) => None,
    }
}

fn refused(what: &'static str, before: &[u8], t: &Transaction, r: Result<Result<(), String>, String>) {
    match r {
        Ok(Err(_)) => {
            hit("refused");
            let a = bytes("C04", t);
            check("C04", a.as_deref() == Some(before), "refused step changed the transaction", || what.into());
        }
        Ok(Ok(())) => {
            check("C04", false, "step not refused", || what.into());
        }
        Err(e) => {
            check("C04", false, "panic", || format!("{what}: {e}"));
        }
    }
}

fn open(t: &Transaction, s: Box<dyn lt::SpendingCondition>) -> Result<Result<TransactionSigner, String>, String> {
    guard(|| TransactionSigner::new_sponser(t, s).map_err(|e| e.to_string()))
}

fn c04() {
    let c = ch();
    let o = if c.chance(1, 3) { Spender::multi(c) } else { Spender::single(c) };
    let mut p = gen::plan(c, o, true, false);
    let okeys = match &p.origin {
        Spender::Single { key, .. } => vec![*key],
        Spender::Multi { keys, .. } => keys.clone(),
    };
    let Some(mut t) = lib("C04", "building", || p.build()) else { return };
    let (on, of) = p.tx.origin().nonce_fee();
    let draw_sponsor = move || {
        let c = ch();
        let s = Spender::any(c);
        // sometimes the origin's own numbers
        let n = if c.chance(1, 5) { on } else { gen::amount(c) };
        let f = if c.chance(1, 5) { of } else { gen::amount(c) };
        (s, n, f)
    };
    // a standard transaction has no sponsor
    if ch().chance(1, 4) {
        let mut q = p.clone();
        q.tx.auth = rf::Auth::Std(p.tx.origin().clone());
        if let Some(u) = lib("C04", "building", || q.build()) {
            let Some(b) = bytes("C04", &u) else { return };
            let (s, n, f) = draw_sponsor();
            refused("sponsoring a standard transaction", &b, &u, open(&u, s.lib(n, f)).map(|r| r.map(|_| ())));
            if let Ok(Ok(mut g)) = guard(|| TransactionSigner::new(u.clone())) {
                let r = guard(|| g.sign_sponsor(gen::secret(&okeys[0])).map_err(|e| e.to_string()));
                refused("sponsor-signing a standard transaction", &b, &g.tx, r);
            }
            let mut u = u;
            let r = guard(|| u.auth.set_sponsor(s.lib(n, f)).map_err(|e| e.to_string()));
            refused("giving a standard transaction a sponsor", &b, &u, r);
            let r = guard(|| u.auth.sponsor_mut().map(|c| c.set_fee(1)).map_err(|e| e.to_string()));
            refused("changing the sponsor of a standard transaction", &b, &u, r);
        }
    }
    let n = ch().below(3);
    for _ in 0..n {
        edit(&mut p, &mut t);
    }
    // a provisional sponsor may be there already
    let mut prov: Option<(Spender, u64, u64)> = None;
    if ch().chance(1, 3) {
        let (s, n, f) = draw_sponsor();
        let _ = lib("C04", "set_sponsor", || t.auth.set_sponsor(s.lib(n, f)).is_ok());
        // each still has its own fee and nonce
        let (mut sn, mut sf) = (n, f);
        let k = ch().below(4);
        for _ in 0..k {
            let (on, of) = p.tx.origin().nonce_fee();
            let c = ch();
            let x = match c.draw(5) {
                0 => sn,
                1 => sf,
                2 => of,
                _ => gen::amount(c),
            };
            let what = match c.draw(6) {
                0 | 1 => {
                    t.set_fee(x);
                    p.tx.origin_mut().set(on, x);
                    "Transaction::set_fee"
                }
                2 => {
                    t.set_nonce(x);
                    p.tx.origin_mut().set(x, of);
                    "Transaction::set_nonce"
                }
                3 => {
                    t.auth.origin_mut().set_fee(x);
                    p.tx.origin_mut().set(on, x);
                    "origin's set_fee"
                }
                4 => {
                    let _ = lib("C04", "sponsor_mut", || t.auth.sponsor_mut().map(|s| s.set_fee(x)).is_ok());
                    sf = x;
                    "sponsor's set_fee"
                }
                _ => {
                    let _ = lib("C04", "sponsor_mut", || t.auth.sponsor_mut().map(|s| s.set_nonce(x)).is_ok());
                    sn = x;
                    "sponsor's set_nonce"
                }
            };
            p.builder = false;
            let Some(y) = observe("C04", &t) else { return };
            let mut want = p.tx.clone();
            want.auth = rf::Auth::Spon(p.tx.origin().clone(), s.cond(sn, sf));
            if !check("C04", y == want, "a fee or nonce went elsewhere", || format!("after {what} with {x}: {:?}, not {:?}", y.auth, want.auth)) {
                return;
            }
        }
        prov = Some((s, sn, sf));
    }
    // no session before the origin has signed
    let Some(b) = bytes("C04", &t) else { return };
    if ch().chance(1, 2) {
        let (s, n, f) = draw_sponsor();
        refused("sponsoring before the origin signed", &b, &t, open(&t, s.lib(n, f)).map(|r| r.map(|_| ())));
    }
    pause();
    // the sponsor first
    if ch().chance(1, 8) {
        let mut u = t.clone();
        let k = gen::key(ch());
        let s = Spender::Single { mode: 0, key: k };
        let _ = lib("C04", "set_sponsor", || u.auth.set_sponsor(s.lib(1, 2)).is_ok());
        if let Ok(Ok(mut g)) = guard(|| TransactionSigner::new(u)) {
            if let Ok(Ok(())) = guard(|| g.sign_sponsor(gen::secret(&k)).map_err(|e| e.to_string())) {
                let Some(b) = bytes("C04", &g.tx) else { return };
                let r = guard(|| g.sign_origin(gen::secret(&okeys[0])).map_err(|e| e.to_string()));
                refused("signing the origin after the sponsor", &b, &g.tx, r);
                let r = guard(|| g.append_origin(gen::public(&okeys[0])).map_err(|e| e.to_string()));
                refused("extending the origin after the sponsor", &b, &g.tx, r);
                if let Ok(x) = rf::Tx::parse(&b) {
                    check("C04", x.verify().is_err(), "valid without the origin", || format!("{:?}", x.auth));
                }
                hit("sponsor signed first");
            }
        }
    }
    // the origin signs
    let mask = gen::signers(ch(), &p.origin);
    let in_one = ch().chance(1, 4) && prov.is_some();
    let half = okeys.len() > 1 && ch().chance(1, 3);
    let mut g = match guard(|| TransactionSigner::new(t.clone()).map_err(|e| e.to_string())) {
        Ok(Ok(g)) => g,
        Ok(Err(e)) | Err(e) => {
            check("C04", false, "origin cannot sign", || e);
            return;
        }
    };
    for (i, k) in okeys.iter().enumerate() {
        let r = guard(|| if mask[i] { g.sign_origin(gen::secret(k)).map_err(|e| e.to_string()) } else { g.append_origin(gen::public(k)).map_err(|e| e.to_string()) });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => {
                check("C04", false, "origin cannot sign", || e);
                return;
            }
        }
        if half && i + 1 < okeys.len() {
            let Some(b) = bytes("C04", &g.tx) else { return };
            let (s, n, f) = draw_sponsor();
            let u = g.tx.clone();
            refused("sponsoring before the origin is complete", &b, &u, open(&u, s.lib(n, f)).map(|r| r.map(|_| ())));
        }
        pause();
    }
    let valid_origin = |t: &Transaction, what: &str| -> Option<rf::Tx> {
        let x = observe("C04", t)?;
        let v = x.verify_origin();
        check("C04", v.is_ok(), "origin signature does not hold", || format!("{what}: {v:?}")).then_some(x)
    };
    if in_one {
        // origin and sponsor in one session
        let (s, n, f) = prov.clone().unwrap();
        if !sponsor_steps(&mut g, &s, 0, usize::MAX) {
            return;
        }
        let t = g.transaction();
        finish(&t, &p, &s, n, f, &okeys, &mask);
        return;
    }
    t = g.transaction();
    if valid_origin(&t, "after signing").is_none() {
        return;
    }
    // what reaches the sponsor may be something else
    if ch().chance(1, 3) {
        let Some(x) = observe("C04", &t) else { return };
        let k = 1 + ch().below(3);
        for _ in 0..k {
            let mut q = p.clone();
            q.tx = x.clone();
            q.sponsor = prov.as_ref().map(|x| x.0.clone());
            q.builder = false;
            let h0 = q.tx.sighash0();
            let mut s = q.origin.clone();
            let mut what = Vec::new();
            let m = 1 + ch().weighted(&[5, 1]);
            for _ in 0..m {
                what.push(tamper(q.tx.origin_mut(), &mut s, h0, 4));
                refit(q.tx.origin_mut(), &s);
            }
            q.origin = s;
            rt().fault("tampered authorization");
            let Some(u) = lib("C04", "building", || q.build()) else { return };
            let Some(y) = observe("C04", &u) else { return };
            let (s, n, f) = draw_sponsor();
            let r = open(&u, s.lib(n, f)).map(|g| g.map(|_| ()));
            let ok = y.verify_origin();
            check("C04", matches!(&r, Ok(g) if g.is_ok() == ok.is_ok()), "sponsor session on a bad origin", || {
                format!("{what:?}: origin {ok:?}, session {r:?}")
            });
            pause();
        }
    }
    // the sponsor is not settled yet
    let k = ch().below(4);
    for _ in 0..k {
        match ch().draw(3) {
            0 => {
                let (s, n, f) = draw_sponsor();
                let _ = lib("C04", "set_sponsor", || t.auth.set_sponsor(s.lib(n, f)).is_ok());
                prov = Some((s, n, f));
            }
            1 => {
                let x = gen::amount(ch());
                let _ = lib("C04", "sponsor_mut", || t.auth.sponsor_mut().map(|s| s.set_fee(x)).is_ok());
            }
            _ => {
                let x = gen::amount(ch());
                let _ = lib("C04", "sponsor_mut", || t.auth.sponsor_mut().map(|s| s.set_nonce(x)).is_ok());
            }
        }
        rt().fault("sponsor replaced");
        if valid_origin(&t, "after changing the sponsor").is_none() {
            return;
        }
        pause();
    }
    let _ = &prov;
    // the sponsor's session, or sessions
    let (s, n, f) = draw_sponsor();
    let mut cond = s.cond(n, f);
    let total = match &s {
        Spender::Single { .. } => 1,
        Spender::Multi { keys, .. } => keys.len(),
    };
    let mut at = 0;
    while at < total {
        let Some(b) = bytes("C04", &t) else { return };
        let mut g = match open(&t, s.lib_from(&cond)) {
            Ok(Ok(g)) => g,
            Ok(Err(e)) | Err(e) => {
                check("C04", false, "sponsor session refused", || e);
                return;
            }
        };
        check("C04", bytes("C04", &t).as_ref() == Some(&b), "opening a session changed the transaction", || "new_sponser".into());
        for (i, k) in okeys.iter().enumerate().take(2) {
            if ch().chance(1, 2) {
                let Some(b) = bytes("C04", &g.tx) else { return };
                if i == 0 {
                    let r = guard(|| g.sign_origin(gen::secret(k)).map_err(|e| e.to_string()));
                    refused("signing the origin in a sponsor session", &b, &g.tx, r);
                } else {
                    let r = guard(|| g.append_origin(gen::public(k)).map_err(|e| e.to_string()));
                    refused("extending the origin in a sponsor session", &b, &g.tx, r);
                }
            }
        }
        let m = if total > 1 && ch().chance(1, 2) { 1 + ch().below(total - at) } else { total - at };
        if !sponsor_steps(&mut g, &s, at, m) {
            return;
        }
        at += m;
        t = g.transaction();
        let Some(x) = observe("C04", &t) else { return };
        if at < total {
            check("C04", x.verify().is_err(), "verifies before the sponsor is complete", || format!("{:?}", x.auth));
        }
        cond = match cond_of(&x) {
            Some(c) => c,
            None => {
                check("C04", false, "sponsor lost", String::new);
                return;
            }
        };
        if at < total && ch().chance(1, 2) {
            let mut q = p.clone();
            q.tx = x;
            q.sponsor = Some(s.clone());
            rt().fault("crash and resume from stored bytes");
            if let Some(u) = lib("C04", "rebuilding", || q.build()) {
                t = u;
            }
        }
        pause();
    }
    finish(&t, &p, &s, n, f, &okeys, &mask);
}

/// Sponsor signatures `at .. at+m`, in key order.
fn sponsor_steps(g: &mut TransactionSigner, s: &Spender, at: usize, m: usize) -> bool {
    let (keys, required) = match s {
        Spender::Single { key, .. } => (vec![*key], 1usize),
        Spender::Multi { keys, required, .. } => (keys.clone(), *required as usize),
    };
    let end = at.saturating_add(m).min(keys.len());
    for (i, k) in keys.iter().enumerate().take(end).skip(at) {
        // the first `required` keys sign, the rest are only named
        let r = guard(|| {
            if i < required {
                g.sign_sponsor(gen::secret(k)).map_err(|e| e.to_string())
            } else {
                g.tx.auth.sponsor_mut().and_then(|c| c.modify(Modification::AddPublicKey(gen::public(k)))).map_err(|e| e.to_string())
            }
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => return check("C04", false, "sponsor cannot sign", || e),
        }
        if ch().chance(1, 4) {
            let Some(b) = bytes("C04", &g.tx) else { return false };
            let r = guard(|| g.sign_origin(gen::secret(k)).map_err(|e| e.to_string()));
            refused("signing the origin after the sponsor", &b, &g.tx, r);
            let r = guard(|| g.append_origin(gen::public(k)).map_err(|e| e.to_string()));
            refused("extending the origin after the sponsor", &b, &g.tx, r);
        }
        if i + 1 >= required && ch().chance(1, 3) {
            let Some(b) = bytes("C04", &g.tx) else { return false };
            let r = guard(|| g.sign_sponsor(gen::secret(k)).map_err(|e| e.to_string()));
            refused("oversigning the sponsor", &b, &g.tx, r);
        }
        pause();
    }
    true
}

fn finish(t: &Transaction, p: &Plan, s: &Spender, n: u64, f: u64, okeys: &[[u8; 32]], mask: &[bool]) {
    let Some(x) = observe("C04", t) else { return };
    let v = x.verify();
    check("C04", v.is_ok(), "sponsored transaction does not verify", || format!("{v:?}: {}", short(&format!("{:?}", x.auth))));
    hit("sponsored");
    // what it must look like
    let mut w = p.tx.clone();
    if let Cond::Multi { fields, .. } = w.origin_mut() {
        *fields = okeys.iter().zip(mask).map(|(k, m)| if *m { Field::Sig([0; 65]) } else { Field::Pk(rf::pubkey(k)) }).collect();
    }
    if let rf::Auth::Spon(_, c) = &mut w.auth {
        *c = s.cond(n, f);
        if let (Cond::Multi { fields, required, .. }, Spender::Multi { keys, .. }) = (c, s) {
            *fields = keys
                .iter()
                .enumerate()
                .map(|(i, k)| if i < *required as usize { Field::Sig([0; 65]) } else { Field::Pk(rf::pubkey(k)) })
                .collect();
        }
    }
    check("C04", gen::blank(&x) == w, "wrong contents", || format!("wanted {w:?}, got {:?}", gen::blank(&x)));
    compare("C04", t, &x);
    // bound: nothing of it can change
    let k = 1 + ch().below(3);
    for _ in 0..k {
        let mut q = p.clone();
        let mut u = t.clone();
        let (what, origin_holds) = match ch().draw(4) {
            0 => {
                let y = f ^ (1 << ch().draw(64));
                let _ = lib("C04", "sponsor_mut", || u.auth.sponsor_mut().map(|s| s.set_fee(y)).is_ok());
                ("sponsor fee", true)
            }
            1 => {
                let y = n ^ (1 << ch().draw(64));
                let _ = lib("C04", "sponsor_mut", || u.auth.sponsor_mut().map(|s| s.set_nonce(y)).is_ok());
                ("sponsor nonce", true)
            }
            _ => (edit(&mut q, &mut u), false),
        };
        rt().fault("edited after signing");
        let Some(y) = observe("C04", &u) else { return };
        check("C04", y.verify().is_err(), "verifies though changed", || format!("{what} changed after the sponsor signed"));
        check("C04", y.verify_origin().is_ok() == origin_holds, "origin binding", || format!("{what} changed: {:?}", y.verify_origin()));
        compare("C04", &u, &y);
    }
    // the sponsor's signature under another origin
    if ch().chance(1, 2) {
        let mut q = p.clone();
        let (on, of) = q.tx.origin().nonce_fee();
        q.tx.origin_mut().set(on ^ 1, of);
        let sg = Signing { origin: mask.to_vec(), sponsor: None };
        if let Ok(Ok(mut u)) = guard(|| q.try_build().and_then(|u| sg.sign(&q, u))) {
            if let Some(c) = cond_of(&x) {
                let _ = lib("C04", "set_sponsor", || u.auth.set_sponsor(s.lib_from(&c)).is_ok());
                rt().fault("sponsor signature transplanted");
                let Some(y) = observe("C04", &u) else { return };
                check("C04", y.verify_origin().is_ok() && y.verify().is_err(), "sponsor signature not bound to the origin", || {
                    format!("{:?} {:?}", y.verify_origin(), y.verify())
                });
            }
        }
    }
}

// ------------------------------------------------------------------ C05

/// Signs with the reference implementation, so that what is verified owes nothing to the library.
fn ref_sign(c: &mut Cond, s: &Spender, mask: &[bool], start: [u8; 32], flag: u8) -> [u8; 32] {
    let (nonce, fee) = c.nonce_fee();
    match (c, s) {
        (Cond::Single { sig, .. }, Spender::Single { key, .. }) => {
            let (g, next) = rf::ref_sign(start, flag, fee, nonce, key);
            *sig = g;
            next
        }
        (Cond::Multi { fields, .. }, Spender::Multi { keys, .. }) => {
            let mut cur = start;
            for (k, m) in keys.iter().zip(mask) {
                if *m {
                    let (g, next) = rf::ref_sign(cur, flag, fee, nonce, k);
                    fields.push(Field::Sig(g));
                    cur = next;
                } else {
                    fields.push(Field::Pk(rf::pubkey(k)));
                }
            }
            cur
        }
        _ => unreachable!(),
    }
}

/// Returns whether the lib-side owner (keys, mode, threshold) changed too.
fn tamper(c: &mut Cond, s: &mut Spender, start: [u8; 32], flag: u8) -> &'static str {
    let r = ch();
    let (nonce, fee) = c.nonce_fee();
    let some_key = |r: &mut Choices, s: &Spender| match s {
        Spender::Single { key, .. } => *key,
        Spender::Multi { keys, .. } => keys[r.below(keys.len())],
    };
    let sigs = |r: &mut Choices, k: [u8; 32]| -> [u8; 65] {
        match r.draw(7) {
            0 => rf::ref_sign(start, flag, fee, nonce, &k).0,
            1 => rf::ref_sign(start, flag ^ 1, fee, nonce, &k).0,
            2 => rf::ref_sign(start, flag, fee ^ 1, nonce, &k).0,
            3 => rf::ref_sign(start, flag, nonce, fee, &k).0,
            4 => rf::ref_sign([7; 32], flag, fee, nonce, &k).0,
            5 => [0; 65],
            _ => {
                let mut b = [0u8; 65];
                r.sub().fill(&mut b);
                b[0] &= 3;
                b
            }
        }
    };
    if r.chance(1, 6) {
        // somebody else's condition
        return match s {
            Spender::Single { mode, key } => {
                if r.chance(1, 2) {
                    *key = gen::key(r);
                    "other key"
                } else {
                    *mode = 2 - *mode;
                    "other mode"
                }
            }
            Spender::Multi { mode, keys, required } => match r.draw(6) {
                0 => {
                    *mode = 4 - *mode;
                    "other mode"
                }
                1 => {
                    *required += 1;
                    "one more required"
                }
                2 => {
                    *required = (*required - 1).max(1);
                    "one less required"
                }
                3 => {
                    keys.reverse();
                    "other key order"
                }
                4 => {
                    let k = gen::key(r);
                    keys.push(k);
                    "one more key"
                }
                _ => {
                    if keys.len() > 1 {
                        keys.pop();
                    }
                    "one key less"
                }
            },
        };
    }
    if r.chance(1, 8) {
        let (a, b) = match r.draw(3) {
            0 => (nonce ^ (1 << r.draw(64)), fee),
            1 => (nonce, fee ^ (1 << r.draw(64))),
            _ => (fee, nonce),
        };
        c.set(a, b);
        return "other fee or nonce";
    }
    let stranger = gen::key(r);
    match c {
        Cond::Single { sig, .. } => match r.draw(6) {
            0 => {
                let i = r.below(65);
                sig[i] ^= 1 << r.draw(8);
                "flipped signature bit"
            }
            1 => {
                sig[0] = r.draw(256) as u8;
                "other recovery id"
            }
            2 => {
                *sig = [0; 65];
                "no signature"
            }
            3 => {
                *sig = sigs(r, stranger);
                "signature of another key"
            }
            4 => {
                let b = [0u8, 0xff][r.below(2)];
                let half = r.below(2);
                sig[1 + 32 * half..33 + 32 * half].iter_mut().for_each(|x| *x = b);
                "signature out of range"
            }
            _ => {
                let k = some_key(r, s);
                *sig = sigs(r, k);
                "signature over something else"
            }
        },
        Cond::Multi { fields, .. } => {
            let n = fields.len();
            let k = if r.chance(1, 2) { some_key(r, s) } else { stranger };
            match r.draw(11) {
                0 if n > 0 => {
                    let i = r.below(n);
                    fields.remove(i);
                    "dropped field"
                }
                1 if n > 0 => {
                    let i = r.below(n);
                    let f = fields[i].clone();
                    let j = r.below(n + 1);
                    fields.insert(j, f);
                    "repeated field"
                }
                2 if n > 1 => {
                    let i = r.below(n);
                    let j = r.below(n);
                    fields.swap(i, j);
                    "reordered fields"
                }
                3 if n > 0 => {
                    let i = r.below(n);
                    fields[i] = Field::Pk(rf::pubkey(&k));
                    "key in place of a field"
                }
                4 if n > 0 => {
                    let i = r.below(n);
                    fields[i] = Field::Sig(sigs(r, k));
                    "signature in place of a field"
                }
                5 | 6 if n > 0 => {
                    let i = r.below(n);
                    if let Field::Sig(g) = &mut fields[i] {
                        if r.chance(1, 3) {
                            g[0] = r.draw(256) as u8;
                        } else {
                            let j = r.below(65);
                            g[j] ^= 1 << r.draw(8);
                        }
                    }
                    "damaged signature"
                }
                7 => {
                    fields.push(Field::Pk(rf::pubkey(&k)));
                    "key added"
                }
                8 => {
                    let g = sigs(r, k);
                    let j = r.below(n + 1);
                    fields.insert(j, Field::Sig(g));
                    "signature added"
                }
                9 => {
                    fields.clear();
                    "no fields"
                }
                _ if r.chance(1, 6) => {
                    let m = [16, 40, 255, 256, 257, 300][r.below(6)];
                    let f = if n > 0 && r.chance(1, 2) { fields[r.below(n)].clone() } else { Field::Pk(rf::pubkey(&k)) };
                    for _ in 0..m {
                        fields.push(f.clone());
                    }
                    "many fields"
                }
                _ => {
                    let f = fields.pop();
                    fields.extend(f);
                    "nothing"
                }
            }
        }
    }
}

fn c05() {
    let rounds = 1 + ch().below(3);
    for _ in 0..rounds {
        let mut p = plan_for(40, 60);
        let h0 = p.tx.sighash0();
        let mask = gen::signers(ch(), &p.origin);
        let origin = p.origin.clone();
        let next = ref_sign(p.tx.origin_mut(), &origin, &mask, h0, 4);
        let mut sponsor = None;
        if let rf::Auth::Spon(_, c) = &mut p.tx.auth {
            let r = ch();
            let s = Spender::any(r);
            *c = s.cond(gen::amount(r), gen::amount(r));
            let m = gen::signers(r, &s);
            ref_sign(c, &s, &m, next, 5);
            sponsor = Some(s);
        }
        p.sponsor = sponsor;
        let Some(t) = lib("C05", "building", || p.build()) else { return };
        // it travels, and arrives as it was sent
        let Some(x) = observe("C05", &t) else { return };
        check("C05", x == p.tx, "rebuilt transaction differs", || format!("{:?} vs {:?}", x, p.tx));
        check("C05", x.verify().is_ok(), "harness: reference signature", || format!("{:?}", x.verify()));
        compare("C05", &t, &x);
        pause();
        let k = 1 + ch().below(5);
        for _ in 0..k {
            let mut q = p.clone();
            let m = 1 + ch().weighted(&[4, 2, 1]);
            let mut what = Vec::new();
            for _ in 0..m {
                let on_sponsor = q.sponsor.is_some() && ch().chance(1, 2);
                let w = if on_sponsor {
                    let mut s = q.sponsor.clone().unwrap();
                    let rf::Auth::Spon(_, c) = &mut q.tx.auth else { unreachable!() };
                    let w = tamper(c, &mut s, next, 5);
                    refit(c, &s);
                    q.sponsor = Some(s);
                    w
                } else {
                    let mut s = q.origin.clone();
                    let w = tamper(q.tx.origin_mut(), &mut s, h0, 4);
                    refit(q.tx.origin_mut(), &s);
                    q.origin = s;
                    w
                };
                what.push(w);
            }
            if ch().chance(1, 6) {
                // contents changed in flight
                let r = ch();
                match r.draw(3) {
                    0 => q.tx.anchor = q.tx.anchor % 3 + 1,
                    1 => q.tx.pc_mode = 3 - q.tx.pc_mode,
                    _ => q.tx.chain = if q.tx.chain == 1 { 0x8000_0000 } else { 1 },
                }
                q.builder = false;
                what.push("other contents");
            }
            q.builder = false;
            rt().fault("tampered authorization");
            rt().note(|| format!("tampered: {what:?}"));
            let Some(u) = lib("C05", "building", || q.build()) else { return };
            let Some(y) = observe("C05", &u) else { return };
            check("C05", y == q.tx, "rebuilt transaction differs", || format!("{:?} vs {:?}", y, q.tx));
            compare("C05", &u, &y);
            // the sponsor can only build on an origin that holds
            if ch().chance(1, 4) && matches!(y.auth, rf::Auth::Spon(..)) {
                let s = Spender::single(ch());
                let r = open(&u, s.lib(3, 4));
                let ok = y.verify_origin().is_ok();
                check("C05", r.as_ref().is_ok_and(|g| g.is_ok() == ok), "sponsor session on a bad origin", || {
                    format!("{what:?}: origin {:?}, session {:?}", y.verify_origin(), r.map(|g| g.map(|_| ())))
                });
            }
            pause();
        }
        // and the untouched one still holds
        compare("C05", &t, &x);
    }
}

/// The condition under the keys, mode and threshold of `s`, with the fields it has.
fn refit(c: &mut Cond, s: &Spender) {
    let (n, f) = c.nonce_fee();
    let mut d = s.cond(n, f);
    match (&*c, &mut d) {
        (Cond::Single { sig, .. }, Cond::Single { sig: g, .. }) => *g = *sig,
        (Cond::Multi { fields, .. }, Cond::Multi { fields: g, .. }) => g.clone_from(fields),
        _ => unreachable!(),
    }
    *c = d;
}
