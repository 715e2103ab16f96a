//! Wallets: made, cloned, asked in any order, handed between threads, lost and made again.

use crate::choice::Choices;
use crate::refimpl as rf;
use crate::rt::*;
use crate::s_sign::calm_swarm;
use crate::sc::*;
use stacks_rs::crypto::c32::Version;
use stacks_rs::wallet::{StacksAccount, StacksWallet};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

fn ch() -> &'static mut Choices {
    &mut rt().ch
}

fn pause() {
    unsafe {
        crate::interpose::sched_yield();
    }
}

const VERSIONS: [(Version, u8); 4] = [
    (Version::MainnetP2PKH, 22),
    (Version::MainnetP2SH, 20),
    (Version::TestnetP2PKH, 26),
    (Version::TestnetP2SH, 21),
];

/// Whose account: phrase and index.
type Id = (usize, u32);

struct World {
    phrases: Vec<String>,
    roots: Vec<rf::XKey>,
    keys: Mutex<BTreeMap<Id, [u8; 32]>>,
    /// The pool of wallets threads take from and put back: the wallet, its phrase, what was set on it.
    pool: Mutex<Vec<(StacksWallet, Model)>>,
}

#[derive(Clone)]
struct Model {
    phrase: usize,
    set: BTreeMap<u32, Id>,
}

impl Model {
    fn id(&self, i: u32) -> Id {
        self.set.get(&i).copied().unwrap_or((self.phrase, i))
    }
}

impl World {
    fn key(&self, id: Id) -> [u8; 32] {
        let _b = Bypass::on();
        let mut k = self.keys.lock().unwrap();
        *k.entry(id).or_insert_with(|| self.roots[id.0].child(id.1).key)
    }
}

fn words() -> &'static [&'static str] {
    bip39::Language::English.word_list()
}

fn phrase(c: &mut Choices) -> String {
    let n = [16, 32, 20, 24, 28][c.below(5)];
    let e = c.bytes(n);
    rf::mnemonic(&e, words())
}

fn index(c: &mut Choices, last: u32) -> u32 {
    match c.draw(12) {
        0 => 0,
        1 => 0x7fff_ffff,
        2 => 0x8000_0000,
        3 => u32::MAX,
        4 => last ^ 0x8000_0000,
        5 => last ^ (1 << c.draw(32)),
        6 => c.draw(u32::MAX),
        7 => last,
        8 => last.wrapping_add(1),
        _ => c.draw(24),
    }
}

fn look(w: &World, a: &StacksAccount, id: Id, what: &str) -> bool {
    let k = w.key(id);
    let pk = rf::pubkey(&k);
    let h = rf::hash160(&pk);
    let Some(got) = lib("C09", "private_key", || a.private_key().map(|s| s.secret_bytes()).map_err(|e| e.to_string())) else {
        return false;
    };
    let mut ok = check("C09", got.as_ref() == Ok(&k), "another account", || {
        format!("{what}: account {} of phrase {} has private key {got:?}", id.1, id.0)
    });
    let Some(got) = lib("C09", "public_key", || a.public_key().map(|s| s.serialize()).map_err(|e| e.to_string())) else {
        return false;
    };
    ok &= check("C09", got.as_ref() == Ok(&pk), "another account", || {
        format!("{what}: account {} of phrase {} has public key {got:?}", id.1, id.0)
    });
    // every version, starting anywhere
    let at = ch().below(4);
    for i in 0..4 {
        let (v, n) = VERSIONS[(at + i) % 4];
        let Some(got) = lib("C09", "get_address", || a.get_address(v).map_err(|e| e.to_string())) else { return false };
        let want = rf::c32_address(n, &h);
        ok &= check("C09", got.as_ref() == Ok(&want), "another address", || {
            format!("{what}: account {} of phrase {} at {v:?}: {got:?}, should be {want}", id.1, id.0)
        });
    }
    hit("account looked at");
    ok
}

fn make(w: &World, p: usize) -> Option<(StacksWallet, Model)> {
    let text = w.phrases[p].clone();
    match lib("C09", "from_secret_key", || StacksWallet::from_secret_key(text).map_err(|e| e.to_string()))? {
        Ok(x) => {
            hit("wallet made");
            Some((x, Model { phrase: p, set: BTreeMap::new() }))
        }
        Err(e) => {
            check("C09", false, "valid phrase refused", || format!("{}: {e}", w.phrases[p]));
            None
        }
    }
}

/// Whether BIP-39 accepts these words.
fn valid(text: &str) -> bool {
    let ix: Option<Vec<usize>> = text.split(' ').map(|x| words().iter().position(|y| *y == x)).collect();
    let Some(ix) = ix else { return false };
    if ![12, 15, 18, 21, 24].contains(&ix.len()) {
        return false;
    }
    let bits: Vec<u8> = ix.iter().flat_map(|i| (0..11).rev().map(move |b| ((i >> b) & 1) as u8)).collect();
    let n = bits.len() * 32 / 33 / 8;
    let e: Vec<u8> = bits[..n * 8].chunks(8).map(|c| c.iter().fold(0, |a, b| a << 1 | b)).collect();
    rf::mnemonic(&e, words()) == text
}

/// A phrase written down wrong.
fn wrong(w: &World) {
    let c = ch();
    let p = c.below(w.phrases.len());
    let good = &w.phrases[p];
    let mut t: Vec<String> = good.split(' ').map(String::from).collect();
    let i = c.below(t.len());
    let text = match c.draw(10) {
        0 => {
            t[i] = (*c.pick(words())).to_string();
            t.join(" ")
        }
        1 => {
            let j = c.below(t.len());
            t.swap(i, j);
            t.join(" ")
        }
        2 => {
            t.remove(i);
            t.join(" ")
        }
        3 => {
            let x = t[i].clone();
            t.insert(i, x);
            t.join(" ")
        }
        4 => {
            let mut b = t[i].clone().into_bytes();
            let k = c.below(b.len());
            b[k] = b'a' + c.draw(26) as u8;
            t[i] = String::from_utf8(b).unwrap();
            t.join(" ")
        }
        5 => good[..c.below(good.len())].to_string(),
        6 => {
            let q = c.below(w.phrases.len());
            let o: Vec<&str> = w.phrases[q].split(' ').collect();
            let k = i.min(o.len());
            t.truncate(k);
            t.extend(o[k..].iter().map(|x| (*x).to_string()));
            t.join(" ")
        }
        7 => {
            // three words more are as many as a longer phrase has
            for _ in 0..3 {
                t.push((*c.pick(words())).to_string());
            }
            t.join(" ")
        }
        8 => {
            let m = c.draw(4);
            match m {
                0 => format!(" {good}"),
                1 => format!("{good}\n"),
                2 => good.replacen(' ', "  ", 1),
                _ => good.to_uppercase(),
            }
        }
        _ => {
            t[i].push('é');
            t.join(" ")
        }
    };
    rt().fault("phrase damaged");
    let Some(r) = lib("C09", "from_secret_key", || StacksWallet::from_secret_key(text.clone()).map_err(|e| e.to_string())) else {
        return;
    };
    let norm = text.split_whitespace().collect::<Vec<_>>().join(" ").to_lowercase();
    let key = |r: Result<StacksWallet, String>| r.ok().and_then(|x| x.private_key().ok()).map(|k| k.secret_bytes());
    if valid(&text) {
        let want = rf::stacks_root(&text).key;
        let got = key(r);
        check("C09", got == Some(want), "another wallet", || format!("phrase {text:?} gave {got:?}"));
        hit("damaged into a valid phrase");
    } else if valid(&norm) {
        // a spelling variant: refused, or the same wallet
        if let Ok(x) = r {
            let want = rf::stacks_root(&norm).key;
            let got = key(Ok(x));
            check("C09", got == Some(want), "another wallet", || format!("phrase {text:?} gave {got:?}"));
        }
        hit("spelling variant");
    } else {
        check("C09", r.is_err(), "invalid phrase accepted", || format!("{text:?}"));
        hit("invalid phrase");
    }
}

fn story(w: &World) {
    let mut own: Vec<(StacksWallet, Model)> = Vec::new();
    // accounts asked for, kept by the caller
    let mut kept: Vec<(StacksAccount, Id)> = Vec::new();
    let long = ch().chance(1, 8);
    let steps = if long { 30 + ch().below(60) } else { 3 + ch().below(14) };
    let mut last = ch().draw(8);
    let wide = if ch().chance(1, 10) { ch().below(steps) } else { usize::MAX };
    for step in 0..steps {
        pause();
        if own.is_empty() {
            let from_pool = ch().chance(1, 2);
            let got = if from_pool { w.pool.lock().unwrap().pop() } else { None };
            match got {
                Some(x) => {
                    hit("wallet taken over");
                    own.push(x);
                }
                None => {
                    let p = ch().below(w.phrases.len());
                    let Some(x) = make(w, p) else { return };
                    own.push(x);
                }
            }
        }
        let k = ch().below(own.len());
        if step == wide {
            // many accounts of one wallet
            let n = match ch().draw(24) {
                0 => 1100,
                1..=3 => 257 + ch().draw(30),
                4..=8 => 65 + ch().draw(70),
                _ => 17 + ch().draw(48),
            };
            let from = if ch().chance(1, 2) { 0 } else { index(ch(), last) };
            let (x, m) = &mut own[k];
            for i in 0..n {
                let at = from.wrapping_add(i);
                let Some(r) = lib("C09", "get_account", || x.get_account(at).map_err(|e| e.to_string())) else { return };
                match r {
                    Ok(a) => {
                        if (i % 16 == 0 || i + 1 == n) && !look(w, &a, m.id(at), "one of many") {
                            return;
                        }
                    }
                    Err(e) => {
                        check("C09", false, "account refused", || format!("index {at}: {e}"));
                        return;
                    }
                }
            }
            hit("many accounts of one wallet");
        }
        match ch().draw(20) {
            0..=9 => {
                last = index(ch(), last);
                let (x, m) = &mut own[k];
                let id = m.id(last);
                let Some(r) = lib("C09", "get_account", || x.get_account(last).map_err(|e| e.to_string())) else { return };
                match r {
                    Ok(a) => {
                        if !look(w, &a, id, if m.set.contains_key(&last) { "set account" } else { "get_account" }) {
                            return;
                        }
                        if kept.len() < 6 {
                            kept.push((a, id));
                        }
                    }
                    Err(e) => {
                        check("C09", false, "account refused", || format!("index {last}: {e}"));
                        return;
                    }
                }
            }
            10 => {
                let (x, m) = &own[k];
                let want = w.roots[m.phrase].key;
                let Some(a) = lib("C09", "private_key", || x.private_key().map(|s| s.secret_bytes()).ok()) else { return };
                let Some(b) = lib("C09", "public_key", || x.public_key().map(|s| s.serialize()).ok()) else { return };
                check("C09", a == Some(want) && b == Some(rf::pubkey(&want)), "another wallet", || format!("{a:?} {b:?}"));
                hit("wallet keys");
            }
            11 | 12 => {
                let x = own[k].clone();
                hit("wallet cloned");
                own.push(x);
            }
            13 | 14 if !kept.is_empty() => {
                let (a, id) = kept[ch().below(kept.len())].clone();
                last = index(ch(), last);
                let (x, m) = &mut own[k];
                if lib("C09", "set_account", || x.set_account(last, a)).is_none() {
                    return;
                }
                m.set.insert(last, id);
                hit("account set");
            }
            15 => {
                let x = own.swap_remove(k);
                w.pool.lock().unwrap().push(x);
                hit("wallet handed over");
            }
            16 => {
                rt().fault("crash and restart");
                own.clear();
                kept.clear();
            }
            17 => wrong(w),
            18 => {
                if let Some(x) = make(w, ch().below(w.phrases.len())) {
                    own.push(x);
                } else {
                    return;
                }
            }
            _ => {
                // what the caller kept is still what it was
                for (a, id) in &kept {
                    if !look(w, a, *id, "kept account") {
                        return;
                    }
                }
            }
        }
        if own.len() > 5 {
            own.remove(0);
        }
    }
    // at the end everything still yields the same
    for (x, m) in &mut own {
        let mut ids: Vec<u32> = m.set.keys().copied().take(4).collect();
        ids.push(last);
        ids.push(0);
        for i in ids {
            let Some(Ok(a)) = lib("C09", "get_account", || x.get_account(i)) else {
                check("C09", false, "account refused", || format!("index {i}"));
                return;
            };
            let id = m.id(i);
            if !look(w, &a, id, "at the end") {
                return;
            }
        }
    }
}

pub fn run() {
    let r = rt();
    calm_swarm(r);
    let n = 1 + r.ch.weighted(&[3, 2, 1]);
    let phrases: Vec<String> = (0..n).map(|_| phrase(&mut r.ch)).collect();
    let roots = phrases.iter().map(|p| rf::stacks_root(p)).collect();
    let w = Arc::new(World { phrases, roots, keys: Mutex::default(), pool: Mutex::default() });
    let k = 1 + r.ch.weighted(&[2, 2, 1]);
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    for _ in 0..k {
        let w = w.clone();
        bodies.push(Box::new(move || body(|| story(&w))));
    }
    r.run(bodies);
}
