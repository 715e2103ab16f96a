//! One simulated run = one forked child: whatever it does (abort, stack overflow, endless loop) is
//! observed from outside, and no run sees what another left behind.

use crate::choice::{mix, Choices};
use crate::rt::{Bypass, Rt};
use crate::sc;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

pub const PROPS: [&str; 17] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17",
];

pub fn prop(s: &str) -> Option<&'static str> {
    PROPS.iter().find(|p| **p == s).copied()
}

/// What a run is made of.
#[derive(Clone)]
pub enum Source {
    Seed(u64),
    Seq(Vec<u32>),
}

#[derive(Clone, Debug, Default)]
pub struct Found {
    pub prop: String,
    pub class: String,
    pub msg: String,
}

#[derive(Clone, Debug, Default)]
pub struct RunOut {
    pub viol: Vec<Found>,
    pub hits: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub evals: u64,
    pub forks: u64,
    pub sched: u64,
    pub switches: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub trace: Vec<String>,
    pub choices: Vec<u32>,
    pub harness: Option<String>,
}

const CAP: usize = 4 << 20;
static mut SHM: *mut u32 = std::ptr::null_mut();

fn shm() -> *mut u32 {
    unsafe {
        if SHM.is_null() {
            let p = libc::mmap(
                std::ptr::null_mut(),
                CAP * 4,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "mmap");
            SHM = p.cast();
        }
        SHM
    }
}

static mut PIPE: i32 = -1;

fn emit() {
    let r = crate::rt::rt();
    let o = sc::OUT.lock().unwrap();
    let v = json!({
        "viol": o.viol.iter().map(|v| json!([v.prop, v.class, v.msg])).collect::<Vec<_>>(),
        "hits": o.hits, "evals": o.evals, "forks": o.forks,
        "faults": r.faults, "sched": r.sched.to_string(), "switches": r.switches, "steps": r.steps,
        "sim_ns": r.now - 1_000_000_000_000,
        "trace": r.trace, "extra": crate::s_crash::extra(),
    });
    let s = serde_json::to_vec(&v).unwrap();
    let mut at = 0;
    while at < s.len() {
        let n = unsafe { crate::rt::raw_syscall(libc::SYS_write, PIPE as usize, s[at..].as_ptr() as usize, s.len() - at, 0, 0, 0) };
        if n <= 0 {
            break;
        }
        at += n as usize;
    }
}

pub fn quit(code: i32) -> ! {
    unsafe {
        crate::rt::raw_syscall(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    }
    std::process::abort()
}

fn on_hang(r: &mut Rt, why: &str) -> ! {
    let _b = Bypass::on();
    // whoever waits, waits for the rest of a chunk whose size the HTTP client has misread
    let calls: Vec<usize> = r.threads.iter().filter(|t| t.st != crate::rt::St::Done).map(|t| t.op.unwrap_or(usize::MAX)).collect();
    if !calls.is_empty() && calls.iter().all(|o| r.net.ops.get(*o).is_some_and(crate::s_net::interrupted_chunk)) {
        sc::viol("C13", "interrupted chunk decoding", format!("EINTR while a chunked answer was read: {why}"));
        emit();
        quit(0)
    }
    let p = sc::focus();
    sc::viol(p, "hang", why.to_string());
    emit();
    quit(0)
}

fn on_die(_: &mut Rt) -> ! {
    let _b = Bypass::on();
    emit();
    quit(0)
}

/// One life of a process inside a run: forked from the run before it called anything, decided by
/// `seed` alone, and killed after `crash` scheduling steps if given. What an observer saw of it.
pub fn life(seed: u32, crash: Option<u64>, f: impl FnOnce()) -> Result<Vec<(String, String)>, String> {
    let mut fds = [0i32; 2];
    let buf = unsafe {
        assert!(libc::pipe(fds.as_mut_ptr()) == 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            PIPE = fds[1];
            crate::rt::raw_syscall(libc::SYS_close, fds[0] as usize, 0, 0, 0, 0, 0);
            let trace = crate::rt::rt().trace.is_some();
            let r = Rt::install(Choices::random(u64::from(seed)));
            *sc::OUT.lock().unwrap() = sc::Out::default();
            r.on_hang = Some(on_hang);
            r.on_die = Some(on_die);
            r.die_at = crash;
            if trace {
                r.trace = Some(Vec::new());
            }
            sc::environment(&mut r.ch);
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err() {
                eprintln!("harness: {}", sc::last_panic());
                quit(77);
            }
            emit();
            quit(0);
        }
        crate::rt::raw_syscall(libc::SYS_close, fds[1] as usize, 0, 0, 0, 0, 0);
        let mut buf = Vec::new();
        let mut tmp = vec![0u8; 1 << 16];
        loop {
            let n = crate::rt::raw_syscall(libc::SYS_read, fds[0] as usize, tmp.as_mut_ptr() as usize, tmp.len(), 0, 0, 0);
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&tmp[..n as usize]);
        }
        crate::rt::raw_syscall(libc::SYS_close, fds[0] as usize, 0, 0, 0, 0, 0);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            return Err(format!("died of signal {}", libc::WTERMSIG(st)));
        }
        if libc::WEXITSTATUS(st) != 0 {
            quit(77);
        }
        buf
    };
    let v: Value = serde_json::from_slice(&buf).map_err(|e| e.to_string())?;
    let mut o = RunOut::default();
    fill(&mut o, &v);
    let r = crate::rt::rt();
    r.sched = mix(r.sched, o.sched);
    r.steps += o.steps;
    r.switches += o.switches;
    r.now += o.sim_ns;
    for (k, n) in o.faults {
        *r.faults.entry(Box::leak(k.into_boxed_str())).or_default() += n;
    }
    if let Some(t) = &mut r.trace {
        t.extend(o.trace.into_iter().map(|l| format!("    {l}")));
    }
    let mut out = sc::OUT.lock().unwrap();
    out.evals += o.evals;
    for x in o.viol {
        if let Some(p) = prop(&x.prop) {
            out.viol.push(sc::Viol { prop: p, class: x.class, msg: x.msg });
        }
    }
    let pairs = v["extra"].as_array().map(|a| {
        a.iter().map(|x| (x[0].as_str().unwrap_or("").to_string(), x[1].as_str().unwrap_or("").to_string())).collect()
    });
    Ok(pairs.unwrap_or_default())
}

fn child(focus: &'static str, run: u64, src: &Source, trace: bool) -> ! {
    let ch = match src {
        Source::Seed(s) => Choices::random(*s),
        Source::Seq(q) => Choices::replay(q.clone()),
    };
    let ch = ch.recorded(shm(), CAP);
    *sc::FOCUS.lock().unwrap() = focus;
    let r = Rt::install(ch);
    r.on_hang = Some(on_hang);
    if trace {
        r.trace = Some(Vec::new());
    }
    crate::gen::set_ways(u64::from(r.ch.draw(1 << 16)));
    sc::environment(&mut r.ch);
    let ok = std::panic::catch_unwind(|| crate::scenario(focus, run));
    if ok.is_err() {
        eprintln!("harness: {}", sc::last_panic());
        quit(77);
    }
    emit();
    quit(0)
}

/// Executes one run in a child process.
pub fn execute(focus: &'static str, run: u64, src: &Source, trace: bool) -> RunOut {
    let m = shm();
    unsafe { *m = 0 };
    let mut fds = [0i32; 2];
    unsafe {
        assert!(libc::pipe(fds.as_mut_ptr()) == 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            PIPE = fds[1];
            crate::rt::raw_syscall(libc::SYS_close, fds[0] as usize, 0, 0, 0, 0, 0);
            child(focus, run, src, trace);
        }
        crate::rt::raw_syscall(libc::SYS_close, fds[1] as usize, 0, 0, 0, 0, 0);
        let mut buf = Vec::new();
        let mut tmp = vec![0u8; 1 << 16];
        // Thirty seconds, at least half of them spent computing; more when the machine is busy with other things.
        let began = Instant::now();
        let mut hung = false;
        loop {
            let left = Duration::from_secs(30).saturating_sub(began.elapsed()).max(Duration::from_millis(200));
            if began.elapsed() > Duration::from_secs(30) && (cpu_secs(pid) > 15 || began.elapsed() > Duration::from_secs(150)) {
                hung = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let n = libc::poll(&mut p, 1, left.as_millis().min(1000) as i32);
            if n <= 0 {
                continue;
            }
            let n = crate::rt::raw_syscall(libc::SYS_read, fds[0] as usize, tmp.as_mut_ptr() as usize, tmp.len(), 0, 0, 0);
            if n <= 0 {
                break;
            }
            buf.extend_from_slice(&tmp[..n as usize]);
        }
        crate::rt::raw_syscall(libc::SYS_close, fds[0] as usize, 0, 0, 0, 0, 0);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        let len = *m as usize;
        let choices = std::slice::from_raw_parts(m.add(1), len).to_vec();
        let mut out = RunOut { choices, ..Default::default() };
        let add = |out: &mut RunOut, class: &str, msg: String| {
            out.viol.push(Found { prop: focus.into(), class: class.into(), msg });
        };
        if hung {
            add(&mut out, "endless loop", "the run did not end within 30 s".into());
        } else if libc::WIFSIGNALED(st) {
            add(&mut out, "abort", format!("the process died of signal {}", libc::WTERMSIG(st)));
        } else if libc::WEXITSTATUS(st) != 0 {
            out.harness = Some(format!("child exited with {}", libc::WEXITSTATUS(st)));
        }
        if let Ok(v) = serde_json::from_slice::<Value>(&buf) {
            fill(&mut out, &v);
        } else if out.viol.is_empty() && out.harness.is_none() {
            out.harness = Some("child said nothing".into());
        }
        out
    }
}

/// Seconds of processor time a child has used.
fn cpu_secs(pid: i32) -> i64 {
    unsafe {
        let mut c: libc::clockid_t = 0;
        let mut t: libc::timespec = std::mem::zeroed();
        if libc::clock_getcpuclockid(pid, &mut c) != 0 || crate::rt::raw_syscall(libc::SYS_clock_gettime, c as usize, std::ptr::addr_of_mut!(t) as usize, 0, 0, 0, 0) != 0 {
            return i64::MAX;
        }
        t.tv_sec
    }
}

fn fill(o: &mut RunOut, v: &Value) {
    let map = |v: &Value| -> BTreeMap<String, u64> {
        v.as_object().map(|m| m.iter().map(|(k, x)| (k.clone(), x.as_u64().unwrap_or(0))).collect()).unwrap_or_default()
    };
    if let Some(a) = v["viol"].as_array() {
        for x in a {
            let s = |i: usize| x[i].as_str().unwrap_or("").to_string();
            o.viol.push(Found { prop: s(0), class: s(1), msg: s(2) });
        }
    }
    o.hits = map(&v["hits"]);
    o.faults = map(&v["faults"]);
    let n = |k: &str| v[k].as_u64().unwrap_or(0);
    o.evals = n("evals");
    o.forks = n("forks");
    o.switches = n("switches");
    o.steps = n("steps");
    o.sim_ns = n("sim_ns");
    o.sched = v["sched"].as_str().and_then(|s| s.parse().ok()).unwrap_or(0);
    o.trace = v["trace"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
}

pub fn seed_of(seed: u64, focus: &str, run: u64) -> u64 {
    let p = focus.bytes().fold(17u64, |a, b| a.wrapping_mul(131) + u64::from(b));
    mix(mix(seed, p), run)
}

/// A digest of everything a run did.
pub fn digest(o: &RunOut) -> u64 {
    let mut h = mix(o.sched, o.steps);
    h = mix(h, o.sim_ns);
    h = mix(h, o.evals);
    for c in &o.choices {
        h = mix(h, u64::from(*c));
    }
    for s in o.trace.iter().chain(o.viol.iter().map(|v| &v.msg)) {
        for b in s.bytes() {
            h = h.wrapping_mul(0x100_0000_01b3) ^ u64::from(b);
        }
    }
    h
}
