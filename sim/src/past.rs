//! What a process has been through before: long series of ordinary and failing calls whose results
//! nobody keeps, and which must not change what later calls do.

use crate::choice::Choices;
use crate::gen;
use crate::gen::{Signing, Spender};
use crate::refimpl as rf;
use crate::rt::*;
use crate::sc::hit;
use stacks_rs::clarity as lc;
use stacks_rs::clarity::Codec;
use stacks_rs::crypto as cr;
use stacks_rs::crypto::c32::Version;
use stacks_rs::transaction as lt;
use stacks_rs::wallet::StacksWallet;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn ch() -> &'static mut Choices {
    &mut rt().ch
}

/// A call whose result nobody looks at.
fn did<T>(f: impl FnOnce() -> T) {
    let _ = catch_unwind(AssertUnwindSafe(f));
}

fn times() -> usize {
    match ch().draw(12) {
        0..=6 => 20 + ch().below(60),
        7..=10 => 70 + ch().below(230),
        _ => 1100,
    }
}

fn decodes(n: usize) {
    let v: Vec<Vec<u8>> = (0..4).map(|_| gen::value(ch(), 3, false).bytes()).collect();
    let pay = {
        let (p, _) = gen::payload(ch(), false);
        p.bytes()
    };
    let torn = ch().chance(2, 3);
    for i in 0..n {
        let mut b = if i % 7 == 6 { pay.clone() } else { v[i % 4].clone() };
        if torn {
            // cut anywhere, often right behind a header, or of an unknown kind
            let at = match i % 3 {
                0 => i % (b.len() + 1),
                1 => 1.min(b.len()),
                _ => 5.min(b.len()),
            };
            b.truncate(at);
            if i % 11 == 0 {
                b.insert(0, 0xee);
            }
        }
        match i % 7 {
            6 => did(|| <Box<dyn lt::Payload> as Codec>::decode(&b).is_ok()),
            5 => did(|| lc::FnArguments::decode(&b).is_ok()),
            4 => did(|| lc::Tuple::decode(&b).is_ok()),
            3 => {
                let mut h = rf::hex(&b);
                if torn {
                    h.pop();
                }
                did(|| cr::hex_to_bytes(h).is_ok());
            }
            _ => did(|| lc::decode_clarity_type(&b).is_ok()),
        }
    }
    hit(if torn { "before: torn values read" } else { "before: values read" });
}

fn encodes(n: usize) {
    let p = {
        let c = ch();
        let o = Spender::single(c);
        let mut p = gen::plan(c, o, false, false);
        if c.chance(2, 3) {
            gen::broken(c, &mut p);
        }
        p
    };
    for i in 0..n {
        did(|| {
            if let Ok(t) = p.try_build() {
                match i % 4 {
                    0 => {
                        let _ = t.hash();
                    }
                    1 => {
                        let _ = t.len();
                    }
                    2 => {
                        let _ = t.payload.hex();
                    }
                    _ => {
                        let _ = t.encode();
                    }
                }
            }
        });
    }
    hit("before: transactions encoded");
}

fn addresses(n: usize) {
    let bad: Vec<String> = (0..6).map(|_| gen::bad_address(ch())).collect();
    let (_, h) = gen::principal(ch());
    let fine = ch().chance(1, 2);
    for i in 0..n {
        if fine {
            let mut h = h;
            h[i % 20] ^= i as u8;
            did(|| cr::c32_address(h, 22).map(cr::c32_address_decode).is_ok());
            did(|| cr::base58check_decode(cr::base58check_encode(h, 0)).is_ok());
        } else {
            let t = &bad[i % bad.len()];
            did(|| cr::c32_address_decode(t.as_str()).is_ok());
            did(|| cr::base58check_decode(t.as_str()).is_ok());
            did(|| lc::PrincipalStandard::new(t.clone()).encode().is_ok());
        }
    }
    hit("before: addresses read");
}

fn signatures(n: usize) {
    let n = n.min(150);
    let (p, s) = {
        let c = ch();
        let o = if c.chance(1, 2) { Spender::multi(c) } else { Spender::single(c) };
        let p = gen::plan(c, o, false, false);
        let s = Signing::draw(c, &p);
        (p, s)
    };
    let other = gen::key(ch());
    let fail = ch().chance(1, 2);
    did(|| {
        let Ok(t) = p.try_build() else { return };
        let Ok(signed) = s.sign(&p, t.clone()) else { return };
        for i in 0..n as u64 {
            if fail {
                // refused: signed once more, or handed to a sponsor it does not have
                let _ = signed.clone().sign(gen::secret(&other));
                let _ = lt::TransactionSigner::new_sponser(&signed, Box::<lt::SpendingConditionStandard>::default());
                let _ = signed.auth.verify(cr::SignatureHash([i as u8; 32]));
            } else {
                let mut t = t.clone();
                t.set_nonce(i);
                let _ = s.sign(&p, t);
            }
        }
    });
    hit(if fail { "before: signatures refused" } else { "before: signatures made" });
}

fn wallets(n: usize) {
    let n = n.min(60);
    let e = ch().bytes(16);
    let text = rf::mnemonic(&e, bip39::Language::English.word_list());
    did(|| {
        let _ = StacksWallet::from_secret_key(text.replacen(' ', " x", 1));
        let Ok(mut w) = StacksWallet::from_secret_key(text) else { return };
        for i in 0..n as u32 {
            if let Ok(a) = w.get_account(i) {
                let _ = a.get_address(Version::MainnetP2PKH);
            }
        }
    });
    hit("before: accounts asked for");
}

/// Now and then the thread that begins has a past.
pub fn maybe() {
    if !ch().chance(1, 32) {
        return;
    }
    rt().note(|| "this thread has a past".into());
    let kinds = 1 + ch().below(2);
    for _ in 0..kinds {
        let n = times();
        match ch().draw(8) {
            0..=2 => decodes(n),
            3 => encodes(n),
            4 | 5 => addresses(n),
            6 => signatures(n),
            _ => wallets(n),
        }
    }
}
