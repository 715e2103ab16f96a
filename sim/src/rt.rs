//! The simulator core: one baton, one virtual clock, one event queue. Real OS threads run the real
//! library code, but exactly one of them is ever released, and which one, for how long, and what
//! happens in between is decided by `Choices`.

use crate::choice::{mix, Choices, Prng};
use crate::net::{Ev, Net};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
    static BYPASS: Cell<u32> = const { Cell::new(0) };
    static INLIB: Cell<u32> = const { Cell::new(0) };
}

/// While it lives, this thread runs library code, which may be preempted wherever it takes or
/// gives back memory.
pub struct InLib;
impl InLib {
    pub fn on() -> InLib {
        INLIB.with(|b| b.set(b.get() + 1));
        InLib
    }
}
impl Drop for InLib {
    fn drop(&mut self) {
        INLIB.with(|b| b.set(b.get() - 1));
    }
}

/// Called by the allocator: every so often another thread goes on from here.
#[inline]
pub fn alloc_point() {
    if INLIB.with(Cell::get) == 0 {
        return;
    }
    if let Some(t) = sim_tid() {
        let r = rt();
        if r.prof.preempt == 0 {
            return;
        }
        if r.pre_left > 0 {
            r.pre_left -= 1;
            return;
        }
        if r.pre_count >= 2_000 {
            return;
        }
        let _b = Bypass::on();
        r.pre_count += 1;
        let n = r.prof.preempt;
        r.pre_left = u64::from(r.ch.draw(n));
        r.yield_point(t);
    }
}

pub static mut RT: *mut Rt = std::ptr::null_mut();

/// The simulator state. Sound because only the baton holder (or the controller before start and
/// after the end of a phase) ever calls this.
pub fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}

/// Id of the calling simulated thread, if calls are to be simulated for it.
pub fn sim_tid() -> Option<usize> {
    let t = TID.with(Cell::get);
    if t >= 0 && BYPASS.with(Cell::get) == 0 {
        Some(t as usize)
    } else {
        None
    }
}

pub struct Bypass;
impl Bypass {
    pub fn on() -> Bypass {
        BYPASS.with(|b| b.set(b.get() + 1));
        Bypass
    }
}
impl Drop for Bypass {
    fn drop(&mut self) {
        BYPASS.with(|b| b.set(b.get() - 1));
    }
}

#[inline]
pub unsafe fn raw_syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}

/// How far ahead an event may overtake threads that are ready to run.
const SLICE: u64 = 2_000_000;

pub struct Baton(AtomicU32);
impl Baton {
    pub const fn new() -> Baton {
        Baton(AtomicU32::new(0))
    }
    pub fn post(&self) {
        self.0.store(1, Ordering::SeqCst);
        unsafe {
            raw_syscall(libc::SYS_futex, self.0.as_ptr() as usize, libc::FUTEX_WAKE as usize, 1, 0, 0, 0);
        }
    }
    pub fn wait(&self) {
        while self.0.swap(0, Ordering::SeqCst) == 0 {
            unsafe {
                raw_syscall(libc::SYS_futex, self.0.as_ptr() as usize, libc::FUTEX_WAIT as usize, 0, 0, 0, 0);
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Key {
    Sock(usize),
    AnySock,
    Futex(usize),
    Join(u64),
    Sleep,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Runnable,
    Blocked(Key),
    Done,
}

pub struct Th {
    pub st: St,
    pub gen: u64,
    pub timed_out: bool,
    pub op: Option<usize>,
    pub pthread: u64,
    pub background: bool,
    sem: &'static Baton,
}

/// Per-run knobs drawn at the start of a run (swarm testing: every run has its own mix).
#[derive(Clone, Debug, Default)]
pub struct Prof {
    pub keep: u32,
    pub event: u32,
    pub short: u32,
    pub eintr: u32,
    pub lat_us: u32,
    pub seg: u32,
    pub conn_fault: u32,
    pub kinds: [u32; 12],
    pub node_err: u32,
    pub stall: u32,
    pub clock: u32,
    pub node_crash: u32,
    /// Library code is preempted every so many allocations (0: never).
    pub preempt: u32,
}

pub struct Rt {
    pub ch: Choices,
    pub now: u64,
    pub base_real: u64,
    pub skew: i64,
    seq: u64,
    pub heap: BTreeMap<(u64, u64), Ev>,
    pub threads: Vec<Th>,
    pub cur: usize,
    pub steps: u64,
    pub max_steps: u64,
    pub sched: u64,
    pub switches: u64,
    pub entropy: Prng,
    pre_left: u64,
    pub pre_count: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub net: Net,
    pub prof: Prof,
    pub trace: Option<Vec<String>>,
    ctl: &'static Baton,
    pub on_hang: Option<fn(&mut Rt, &str) -> !>,
    /// The process is killed at this step.
    pub die_at: Option<u64>,
    pub on_die: Option<fn(&mut Rt) -> !>,
}

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum Woke {
    Woken,
    Timeout,
}

impl Rt {
    pub fn install(ch: Choices) -> &'static mut Rt {
        let r = Box::new(Rt {
            ch,
            now: 1_000_000_000_000,
            base_real: 1_700_000_000_000_000_000,
            skew: 0,
            seq: 0,
            heap: BTreeMap::new(),
            threads: Vec::new(),
            cur: 0,
            steps: 0,
            max_steps: 400_000,
            sched: 0x5151,
            switches: 0,
            entropy: Prng::new(7),
            pre_left: 0,
            pre_count: 0,
            faults: BTreeMap::new(),
            net: Net::default(),
            prof: Prof { keep: 3, event: 1, ..Default::default() },
            trace: None,
            ctl: Box::leak(Box::new(Baton::new())),
            on_hang: None,
            die_at: None,
            on_die: None,
        });
        unsafe {
            RT = Box::leak(r);
        }
        rt()
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.trace.is_some() {
            let _b = Bypass::on();
            let now = self.now - 1_000_000_000_000;
            let cur = self.cur;
            let s = f();
            if let Some(t) = &mut self.trace {
                if t.len() < 4000 {
                    t.push(format!("[{:>12}us t{cur}] {s}", now / 1000));
                }
            }
        }
    }

    pub fn fault(&mut self, k: &'static str) {
        *self.faults.entry(k).or_default() += 1;
        self.sched = mix(self.sched, 0xf000 + k.len() as u64 * 31 + k.as_bytes()[0] as u64);
        self.note(|| format!("fault {k}"));
    }

    pub fn push_event(&mut self, at: u64, ev: Ev) {
        self.seq += 1;
        self.heap.insert((at.max(self.now), self.seq), ev);
    }

    fn fire(&mut self) {
        if let Some(((at, _), ev)) = self.heap.pop_first() {
            self.now = self.now.max(at);
            self.sched = mix(self.sched, 0xe0 + ev.code());
            self.handle(ev);
        }
    }

    /// When the next event is due; timers nobody waits for any more are dropped.
    fn next_at(&mut self) -> Option<u64> {
        loop {
            let (k, ev) = self.heap.first_key_value()?;
            let stale = match ev {
                Ev::Timer { tid, gen } => {
                    self.threads.get(*tid).is_none_or(|t| t.gen != *gen || !matches!(t.st, St::Blocked(_)))
                }
                _ => false,
            };
            if !stale {
                return Some(k.0);
            }
            self.heap.pop_first();
        }
    }

    /// The whole process stands still for a while (swapped out, suspended).
    fn stall(&mut self) {
        let p = self.prof.stall;
        if p == 0 || self.net.healed || !self.ch.chance(p, 1000) {
            return;
        }
        let d: u64 = [5_000_000, 1_000_000_000, 40_000_000_000][self.ch.below(3)];
        self.fault("process stalled");
        self.now += d;
        if d > 100_000_000 {
            for o in &mut self.net.ops {
                if !o.returned {
                    o.disturbed.push("process stalled");
                }
            }
        }
    }

    fn bump(&mut self) {
        self.steps += 1;
        if let (Some(n), Some(f)) = (self.die_at, self.on_die) {
            if self.steps >= n {
                f(self);
            }
        }
        if self.steps > self.max_steps {
            self.hang("step limit reached: no progress");
        }
    }

    fn hang(&mut self, why: &str) -> ! {
        let _b = Bypass::on();
        match self.on_hang {
            Some(f) => f(self, why),
            None => std::process::abort(),
        }
    }

    /// Chooses who runs next; fires events in between.
    fn choose(&mut self, me: Option<usize>) -> usize {
        loop {
            self.bump();
            let mut who: Vec<usize> = Vec::with_capacity(4);
            let mut w: Vec<u32> = Vec::with_capacity(5);
            if let Some(m) = me {
                if self.threads[m].st == St::Runnable {
                    who.push(m);
                    w.push(self.prof.keep);
                }
            }
            for (i, t) in self.threads.iter().enumerate() {
                if Some(i) != me && t.st == St::Runnable {
                    who.push(i);
                    w.push(1);
                }
            }
            if who.is_empty() {
                if self.next_at().is_none() {
                    self.note(|| "nobody can run and nothing is on its way".into());
                    for i in 0..self.threads.len() {
                        let (st, op, bg) = (self.threads[i].st, self.threads[i].op, self.threads[i].background);
                        self.note(|| format!("thread {i}: {st:?}, call {op:?}, background {bg}"));
                    }
                    self.hang("deadlock: every thread waits and nothing is on its way");
                }
                self.fire();
                continue;
            }
            self.stall();
            if self.next_at().is_some_and(|at| at <= self.now + SLICE) {
                w.push(self.prof.event);
            }
            let i = if w.len() == 1 { 0 } else { self.ch.weighted(&w) };
            if i == who.len() {
                self.fire();
                continue;
            }
            let t = who[i];
            self.sched = mix(self.sched, t as u64);
            return t;
        }
    }

    fn switch(&mut self, me: usize, to: usize) {
        if me == to {
            return;
        }
        self.switches += 1;
        self.cur = to;
        self.threads[to].sem.post();
        self.threads[me].sem.wait();
    }

    pub fn yield_point(&mut self, me: usize) {
        let to = self.choose(Some(me));
        self.switch(me, to);
    }

    pub fn block(&mut self, me: usize, key: Key, deadline: Option<u64>) -> Woke {
        self.threads[me].gen += 1;
        let gen = self.threads[me].gen;
        self.threads[me].st = St::Blocked(key);
        self.threads[me].timed_out = false;
        if let Some(d) = deadline {
            self.push_event(d, Ev::Timer { tid: me, gen });
        }
        let to = self.choose(Some(me));
        self.switch(me, to);
        if self.threads[me].timed_out {
            Woke::Timeout
        } else {
            Woke::Woken
        }
    }

    pub fn timer(&mut self, tid: usize, gen: u64) {
        let t = &mut self.threads[tid];
        if t.gen == gen && matches!(t.st, St::Blocked(_)) {
            t.st = St::Runnable;
            t.timed_out = true;
        }
    }

    pub fn wake(&mut self, key: Key, mut n: usize) -> usize {
        let mut k = 0;
        for t in self.threads.iter_mut() {
            if n == 0 {
                break;
            }
            if t.st == St::Blocked(key) {
                t.st = St::Runnable;
                t.gen += 1;
                n -= 1;
                k += 1;
            }
        }
        k
    }

    pub fn wake_sock(&mut self, s: usize) {
        self.wake(Key::Sock(s), usize::MAX);
        self.wake(Key::AnySock, usize::MAX);
    }

    pub fn add_thread(&mut self, op: Option<usize>, background: bool) -> (usize, &'static Baton) {
        let sem: &'static Baton = Box::leak(Box::new(Baton::new()));
        self.threads.push(Th { st: St::Runnable, gen: 0, timed_out: false, op, pthread: 0, background, sem });
        (self.threads.len() - 1, sem)
    }

    pub fn thread_main(tid: usize, sem: &'static Baton, f: impl FnOnce()) {
        sem.wait();
        TID.with(|t| t.set(tid as i32));
        f();
        TID.with(|t| t.set(-1));
        let r = rt();
        r.threads[tid].st = St::Done;
        let p = r.threads[tid].pthread;
        r.wake(Key::Join(p), usize::MAX);
        if r.threads.iter().all(|t| t.st == St::Done) {
            r.ctl.post();
            return;
        }
        let to = r.choose(None);
        r.cur = to;
        r.threads[to].sem.post();
    }

    /// Runs the given bodies as simulated threads until all of them are done.
    pub fn run(&mut self, bodies: Vec<Box<dyn FnOnce() + Send>>) {
        if bodies.is_empty() {
            return;
        }
        self.threads.clear();
        let mut hs = Vec::new();
        let named = self.ch.draw(4);
        for (i, b) in bodies.into_iter().enumerate() {
            let (tid, sem) = self.add_thread(None, false);
            let th = std::thread::Builder::new();
            let th = match named {
                1 => th.name("main".into()),
                2 => th.name(format!("worker-{i}")),
                3 if i % 2 == 1 => th.name(format!("tokio-runtime-worker-{i}")),
                _ => th,
            };
            hs.push(
                th.stack_size(4 << 20)
                    .spawn(move || Rt::thread_main(tid, sem, b))
                    .expect("spawn"),
            );
        }
        let to = self.choose(None);
        self.cur = to;
        self.threads[to].sem.post();
        self.ctl.wait();
        for h in hs {
            let _ = h.join();
        }
        // whatever is still on its way when the callers are done
        let mut n = 0;
        while self.next_at().is_some() && n < 10_000 {
            self.fire();
            n += 1;
        }
    }

    pub fn op(&self) -> Option<usize> {
        self.threads.get(self.cur).and_then(|t| t.op)
    }
    pub fn set_op(&mut self, tid: usize, op: Option<usize>) {
        self.threads[tid].op = op;
    }
}
