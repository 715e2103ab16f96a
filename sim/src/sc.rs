//! What every scenario shares: findings, coverage counters, guarded calls into the library.

use crate::choice::mix;
use crate::rt::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: &'static str,
    pub class: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Out {
    pub viol: Vec<Viol>,
    pub hits: BTreeMap<&'static str, u64>,
    pub evals: u64,
    pub forks: u64,
}

pub static OUT: Mutex<Out> =
    Mutex::new(Out { viol: Vec::new(), hits: BTreeMap::new(), evals: 0, forks: 0 });

/// The property whose check is running.
pub static FOCUS: Mutex<&'static str> = Mutex::new("");

pub fn focus() -> &'static str {
    let _b = Bypass::on();
    *FOCUS.lock().unwrap()
}

pub fn viol(prop: &'static str, class: impl Into<String>, msg: impl Into<String>) {
    let _b = Bypass::on();
    let (class, msg) = (class.into(), msg.into());
    rt().note(|| format!("VIOLATION {prop} {class}: {msg}"));
    OUT.lock().unwrap().viol.push(Viol { prop, class, msg });
}

/// A check that was actually evaluated.
pub fn check(prop: &'static str, ok: bool, class: &str, msg: impl FnOnce() -> String) -> bool {
    let _b = Bypass::on();
    if prop == focus() {
        OUT.lock().unwrap().evals += 1;
    }
    if !ok {
        let m = msg();
        viol(prop, class, m);
    }
    ok
}

pub fn hit(k: &'static str) {
    let _b = Bypass::on();
    *OUT.lock().unwrap().hits.entry(k).or_default() += 1;
    let r = rt();
    r.sched = mix(r.sched, 0xc0_0000 + k.bytes().fold(7u64, |a, b| a.wrapping_mul(31) + u64::from(b)));
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {at}"));
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}

/// A call into the library: Err is a panic.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(|| {
        let _in = InLib::on();
        f()
    }))
    .map_err(|_| last_panic())
}

/// Like `guard`, for calls that must not panic under `prop`.
pub fn lib<T>(prop: &'static str, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    match guard(f) {
        Ok(v) => Some(v),
        Err(p) => {
            viol(prop, "panic", format!("{what} panicked: {p}"));
            None
        }
    }
}

pub fn short(s: &str) -> String {
    if s.len() > 400 {
        let mut k = 400;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}... ({} bytes)", &s[..k], s.len())
    } else {
        s.to_string()
    }
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("{} vs {} bytes, first difference at {i}", a.len(), b.len())
}

/// The body of a simulated thread: a panic that comes out of it is the harness's own.
pub fn body(f: impl FnOnce()) {
    let f = || {
        crate::past::maybe();
        f();
    };
    if catch_unwind(AssertUnwindSafe(f)).is_err() {
        let _b = Bypass::on();
        eprintln!("harness: {}", last_panic());
        crate::exec::quit(77);
    }
}

/// The surroundings a process is started in: what it does must not depend on them.
pub fn environment(c: &mut crate::choice::Choices) {
    const PROXY: [&str; 6] = ["http_proxy", "HTTP_PROXY", "https_proxy", "ALL_PROXY", "all_proxy", "no_proxy"];
    for v in ["LANG", "LC_ALL", "TZ", "USER", "HOME", "HOSTNAME"] {
        std::env::remove_var(v);
    }
    for v in PROXY {
        std::env::remove_var(v);
    }
    match c.draw(6) {
        0..=3 => {}
        4 => {
            for v in PROXY.iter().take(5) {
                std::env::set_var(v, "http://proxy.test:3128");
            }
        }
        _ => {
            std::env::set_var("LANG", "tr_TR.UTF-8");
            std::env::set_var("LC_ALL", "tr_TR.UTF-8");
            std::env::set_var("TZ", "Pacific/Apia");
            std::env::set_var("USER", "nobody");
            std::env::set_var("HOME", "/nonexistent");
            std::env::set_var("HOSTNAME", "elsewhere");
        }
    }
}
