//! The seam: the libc entry points through which the library (and ureq and std below it) reaches the
//! world. Called from a simulated thread they act on the simulated world; from any other thread they
//! are the plain system calls.

use crate::net::*;
use crate::rt::*;
use libc::*;
use std::ffi::CStr;
use std::sync::atomic::{AtomicUsize, Ordering};

const FD0: c_int = 1_000_000;

fn sim_fd(fd: c_int) -> Option<(usize, usize)> {
    if fd < FD0 {
        return None;
    }
    let t = sim_tid()?;
    let s = rt().net.fds.get((fd - FD0) as usize).copied().flatten()?;
    Some((t, s))
}

fn fail(e: c_int) -> isize {
    unsafe {
        *__errno_location() = e;
    }
    -1
}
fn ret(r: i64) -> isize {
    if r < 0 && r > -4096 {
        fail(-r as c_int)
    } else {
        r as isize
    }
}

unsafe fn next(name: &'static str, slot: &AtomicUsize) -> usize {
    let v = slot.load(Ordering::Relaxed);
    if v != 0 {
        return v;
    }
    let p = dlsym(RTLD_NEXT, name.as_ptr().cast()) as usize;
    slot.store(p, Ordering::Relaxed);
    p
}

fn new_fd(r: &mut Rt, s: usize) -> c_int {
    r.net.fds.push(Some(s));
    r.net.socks[s].refs += 1;
    FD0 + r.net.fds.len() as c_int - 1
}

#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, proto: c_int) -> c_int {
    let Some(t) = sim_tid() else {
        return ret(raw_syscall(SYS_socket, domain as usize, ty as usize, proto as usize, 0, 0, 0)) as c_int;
    };
    let _b = Bypass::on();
    let r = rt();
    r.yield_point(t);
    if let Some(e) = r.socket_fault() {
        return fail(e) as c_int;
    }
    let s = r.net.socks.len();
    r.net.socks.push(Sock { nonblock: ty & SOCK_NONBLOCK != 0, ..Sock::default() });
    new_fd(r, s)
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, addr: *const sockaddr, len: socklen_t) -> c_int {
    let Some((t, s)) = sim_fd(fd) else {
        return ret(raw_syscall(SYS_connect, fd as usize, addr as usize, len as usize, 0, 0, 0)) as c_int;
    };
    let _b = Bypass::on();
    let r = rt();
    r.yield_point(t);
    let (ip, port) = match i32::from((*addr).sa_family) {
        AF_INET => {
            let a = &*(addr as *const sockaddr_in);
            (u32::from_be(a.sin_addr.s_addr), u16::from_be(a.sin_port))
        }
        _ => (0, 0),
    };
    match r.net.socks[s].state {
        SockState::New => {}
        SockState::Connecting => return fail(EALREADY) as c_int,
        _ => return fail(EISCONN) as c_int,
    }
    if let Err(e) = r.connect_start(s, ip, port) {
        return fail(e) as c_int;
    }
    if r.net.socks[s].nonblock {
        return fail(EINPROGRESS) as c_int;
    }
    loop {
        match r.net.socks[s].state {
            SockState::Connecting => {
                r.block(t, Key::Sock(s), None);
            }
            SockState::Failed(e) => return fail(e) as c_int,
            _ => return 0,
        }
    }
}

fn poll_ready(r: &Rt, s: usize, ev: c_short) -> c_short {
    let k = &r.net.socks[s];
    let mut o = 0;
    match k.state {
        SockState::New => o |= POLLHUP,
        SockState::Connecting => {}
        SockState::Failed(_) => o |= POLLERR | POLLHUP | (ev & (POLLIN | POLLOUT)),
        SockState::Open => {
            if !k.inbuf.is_empty() || k.eof || k.rst {
                o |= ev & POLLIN;
            }
            if k.rst {
                o |= POLLERR | POLLHUP;
            }
            o |= ev & POLLOUT;
        }
    }
    o
}

#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut pollfd, n: nfds_t, timeout: c_int) -> c_int {
    let set = if n > 0 && !fds.is_null() { std::slice::from_raw_parts_mut(fds, n as usize) } else { &mut [] };
    let t = match sim_tid() {
        Some(t) if set.iter().any(|p| sim_fd(p.fd).is_some()) => t,
        _ => return ret(raw_syscall(SYS_poll, fds as usize, n as usize, timeout as usize, 0, 0, 0)) as c_int,
    };
    let socks: Vec<Option<usize>> = set.iter().map(|p| sim_fd(p.fd).map(|x| x.1)).collect();
    let _b = Bypass::on();
    let r = rt();
    r.yield_point(t);
    if r.eintr("poll EINTR") {
        return fail(EINTR) as c_int;
    }
    let deadline = if timeout < 0 { None } else { Some(r.now + timeout as u64 * 1_000_000) };
    loop {
        let mut k = 0;
        for (p, s) in set.iter_mut().zip(&socks) {
            p.revents = s.map_or(0, |s| poll_ready(r, s, p.events));
            k += c_int::from(p.revents != 0);
        }
        if k > 0 || timeout == 0 {
            return k;
        }
        let key = if let [Some(s)] = socks[..] { Key::Sock(s) } else { Key::AnySock };
        if r.block(t, key, deadline) == Woke::Timeout {
            return 0;
        }
    }
}

unsafe fn sim_send(t: usize, s: usize, data: &[u8]) -> isize {
    let _b = Bypass::on();
    let r = rt();
    r.yield_point(t);
    if r.eintr("send EINTR") {
        return fail(EINTR);
    }
    match r.sock_send(t, s, data) {
        Ok(n) => n as isize,
        Err(e) => fail(e),
    }
}

unsafe fn sim_recv(t: usize, s: usize, buf: &mut [u8], flags: c_int) -> isize {
    let _b = Bypass::on();
    let r = rt();
    r.yield_point(t);
    if r.eintr("recv EINTR") {
        // the HTTP client's chunk decoder does not retry
        let op = r.op();
        r.disturb(op, "EINTR");
        return fail(EINTR);
    }
    let deadline = match r.net.socks[s].rcv_timeo {
        0 => None,
        d => Some(r.now + d),
    };
    loop {
        if let Some(x) = r.sock_recv(s, buf, flags & MSG_PEEK != 0) {
            return match x {
                Ok(n) => n as isize,
                Err(e) => fail(e),
            };
        }
        if r.net.socks[s].nonblock || flags & MSG_DONTWAIT != 0 {
            return fail(EAGAIN);
        }
        if r.block(t, Key::Sock(s), deadline) == Woke::Timeout {
            return fail(EAGAIN);
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: size_t, flags: c_int) -> ssize_t {
    match sim_fd(fd) {
        Some((t, s)) => sim_send(t, s, std::slice::from_raw_parts(b.cast(), n)),
        None => ret(raw_syscall(SYS_sendto, fd as usize, b as usize, n, flags as usize, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: size_t, flags: c_int) -> ssize_t {
    match sim_fd(fd) {
        Some((t, s)) => sim_recv(t, s, std::slice::from_raw_parts_mut(b.cast(), n), flags),
        None => ret(raw_syscall(SYS_recvfrom, fd as usize, b as usize, n, flags as usize, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    match sim_fd(fd) {
        Some((t, s)) => sim_send(t, s, std::slice::from_raw_parts(b.cast(), n)),
        None => ret(raw_syscall(SYS_write, fd as usize, b as usize, n, 0, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    match sim_fd(fd) {
        Some((t, s)) => sim_recv(t, s, std::slice::from_raw_parts_mut(b.cast(), n), 0),
        None => ret(raw_syscall(SYS_read, fd as usize, b as usize, n, 0, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    match sim_fd(fd) {
        Some((t, s)) => {
            let mut all = Vec::new();
            for i in std::slice::from_raw_parts(v, n as usize) {
                all.extend_from_slice(std::slice::from_raw_parts(i.iov_base.cast(), i.iov_len));
            }
            sim_send(t, s, &all)
        }
        None => ret(raw_syscall(SYS_writev, fd as usize, v as usize, n as usize, 0, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    match sim_fd(fd) {
        Some((t, s)) => {
            for i in std::slice::from_raw_parts(v, n as usize) {
                if i.iov_len > 0 {
                    return sim_recv(t, s, std::slice::from_raw_parts_mut(i.iov_base.cast(), i.iov_len), 0);
                }
            }
            0
        }
        None => ret(raw_syscall(SYS_readv, fd as usize, v as usize, n as usize, 0, 0, 0)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let Some((t, s)) = sim_fd(fd) else {
        if fd >= FD0 {
            return 0;
        }
        return ret(raw_syscall(SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int;
    };
    let _b = Bypass::on();
    let r = rt();
    r.net.fds[(fd - FD0) as usize] = None;
    r.net.socks[s].refs -= 1;
    if r.net.socks[s].refs == 0 {
        r.sock_close(s);
    }
    r.yield_point(t);
    0
}

#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    match sim_fd(fd) {
        Some((_, s)) => {
            let _b = Bypass::on();
            if how != SHUT_RD {
                rt().sock_close(s);
            }
            0
        }
        None => ret(raw_syscall(SYS_shutdown, fd as usize, how as usize, 0, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, l: c_int, o: c_int, v: *mut c_void, n: *mut socklen_t) -> c_int {
    match sim_fd(fd) {
        Some((_, s)) => {
            let k = &mut rt().net.socks[s];
            if l == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO) {
                let d = if o == SO_RCVTIMEO { k.rcv_timeo } else { k.snd_timeo };
                *(v as *mut timeval) =
                    timeval { tv_sec: (d / 1_000_000_000) as i64, tv_usec: (d % 1_000_000_000 / 1000) as i64 };
                *n = std::mem::size_of::<timeval>() as u32;
                return 0;
            }
            let x: c_int = if l == SOL_SOCKET && o == SO_ERROR {
                match k.state {
                    SockState::Failed(e) => e,
                    _ if k.rst && !k.rst_seen => {
                        k.rst_seen = true;
                        ECONNRESET
                    }
                    _ => 0,
                }
            } else {
                0
            };
            *(v as *mut c_int) = x;
            *n = 4;
            0
        }
        None => ret(raw_syscall(SYS_getsockopt, fd as usize, l as usize, o as usize, v as usize, n as usize, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, l: c_int, o: c_int, v: *const c_void, n: socklen_t) -> c_int {
    match sim_fd(fd) {
        Some((_, s)) => {
            if l == SOL_SOCKET && (o == SO_RCVTIMEO || o == SO_SNDTIMEO) {
                let tv = &*(v as *const timeval);
                let d = tv.tv_sec as u64 * 1_000_000_000 + tv.tv_usec as u64 * 1000;
                let k = &mut rt().net.socks[s];
                if o == SO_RCVTIMEO {
                    k.rcv_timeo = d;
                } else {
                    k.snd_timeo = d;
                }
            }
            0
        }
        None => ret(raw_syscall(SYS_setsockopt, fd as usize, l as usize, o as usize, v as usize, n as usize, 0)) as c_int,
    }
}

unsafe fn put_addr(ip: u32, port: u16, a: *mut sockaddr, n: *mut socklen_t) {
    let mut sa: sockaddr_in = std::mem::zeroed();
    sa.sin_family = AF_INET as u16;
    sa.sin_port = port.to_be();
    sa.sin_addr.s_addr = ip.to_be();
    let k = (*n as usize).min(std::mem::size_of::<sockaddr_in>());
    std::ptr::copy_nonoverlapping((&sa as *const sockaddr_in).cast::<u8>(), a.cast::<u8>(), k);
    *n = std::mem::size_of::<sockaddr_in>() as u32;
}
#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, n: *mut socklen_t) -> c_int {
    match sim_fd(fd) {
        Some((_, s)) => {
            put_addr(0x0a01_0001, 40000 + (s % 20000) as u16, a, n);
            0
        }
        None => ret(raw_syscall(SYS_getsockname, fd as usize, a as usize, n as usize, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, n: *mut socklen_t) -> c_int {
    match sim_fd(fd) {
        Some((_, s)) => {
            let (ip, port) = rt().net.socks[s].peer;
            put_addr(ip, port, a, n);
            0
        }
        None => ret(raw_syscall(SYS_getpeername, fd as usize, a as usize, n as usize, 0, 0, 0)) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: usize) -> c_int {
    match sim_fd(fd) {
        Some((_, s)) => {
            if req == FIONBIO {
                rt().net.socks[s].nonblock = *(arg as *const c_int) != 0;
            }
            0
        }
        None => ret(raw_syscall(SYS_ioctl, fd as usize, req as usize, arg, 0, 0, 0)) as c_int,
    }
}

unsafe fn do_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    match sim_fd(fd) {
        Some((_, s)) => {
            let _b = Bypass::on();
            let r = rt();
            match cmd {
                F_GETFL => O_RDWR | if r.net.socks[s].nonblock { O_NONBLOCK } else { 0 },
                F_SETFL => {
                    r.net.socks[s].nonblock = arg as c_int & O_NONBLOCK != 0;
                    0
                }
                F_DUPFD | F_DUPFD_CLOEXEC => new_fd(r, s),
                _ => 0,
            }
        }
        None => ret(raw_syscall(SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    do_fcntl(fd, cmd, arg)
}

static GAI: AtomicUsize = AtomicUsize::new(0);
static FAI: AtomicUsize = AtomicUsize::new(0);

#[repr(C)]
struct SimAi {
    ai: addrinfo,
    sa: sockaddr_in,
}

#[no_mangle]
pub unsafe extern "C" fn getaddrinfo(
    node: *const c_char,
    service: *const c_char,
    hints: *const addrinfo,
    res: *mut *mut addrinfo,
) -> c_int {
    let Some(t) = sim_tid() else {
        type F = unsafe extern "C" fn(*const c_char, *const c_char, *const addrinfo, *mut *mut addrinfo) -> c_int;
        let f: F = std::mem::transmute(next("getaddrinfo\0", &GAI));
        return f(node, service, hints, res);
    };
    let _b = Bypass::on();
    let r = rt();
    r.yield_point(t);
    let name = CStr::from_ptr(node).to_string_lossy().to_string();
    let ips = match r.resolve(t, &name) {
        Ok(v) => v,
        Err(e) => return e,
    };
    let mut head: *mut addrinfo = std::ptr::null_mut();
    for ip in ips.iter().rev() {
        let mut b: Box<SimAi> = Box::new(std::mem::zeroed());
        b.sa.sin_family = AF_INET as u16;
        b.sa.sin_addr.s_addr = ip.to_be();
        b.ai.ai_family = AF_INET;
        b.ai.ai_socktype = SOCK_STREAM;
        b.ai.ai_addrlen = std::mem::size_of::<sockaddr_in>() as u32;
        let p = Box::into_raw(b);
        (*p).ai.ai_addr = (&mut (*p).sa as *mut sockaddr_in).cast();
        (*p).ai.ai_next = head;
        head = p.cast();
    }
    *res = head;
    0
}

#[no_mangle]
pub unsafe extern "C" fn freeaddrinfo(res: *mut addrinfo) {
    if sim_tid().is_none() {
        let f: unsafe extern "C" fn(*mut addrinfo) = std::mem::transmute(next("freeaddrinfo\0", &FAI));
        return f(res);
    }
    let _b = Bypass::on();
    let mut p = res;
    while !p.is_null() {
        let n = (*p).ai_next;
        drop(Box::from_raw(p.cast::<SimAi>()));
        p = n;
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if sim_tid().is_none() {
        return ret(raw_syscall(SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int;
    }
    let r = rt();
    r.now += 500;
    let v = if clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE {
        (r.base_real as i64 + r.now as i64 + r.skew) as u64
    } else {
        r.now
    };
    (*ts).tv_sec = (v / 1_000_000_000) as i64;
    (*ts).tv_nsec = (v % 1_000_000_000) as i64;
    0
}

unsafe fn sim_sleep(t: usize, until: u64) {
    let _b = Bypass::on();
    let r = rt();
    while r.now < until {
        r.block(t, Key::Sleep, Some(until));
    }
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const timespec, rem: *mut timespec) -> c_int {
    match sim_tid() {
        Some(t) => {
            sim_sleep(t, rt().now + (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64);
            0
        }
        None => ret(raw_syscall(SYS_nanosleep, ts as usize, rem as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: clockid_t, fl: c_int, ts: *const timespec, rem: *mut timespec) -> c_int {
    match sim_tid() {
        Some(t) => {
            let d = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
            sim_sleep(t, if fl & TIMER_ABSTIME != 0 { d } else { rt().now + d });
            0
        }
        None => -(raw_syscall(SYS_clock_nanosleep, c as usize, fl as usize, ts as usize, rem as usize, 0, 0) as c_int),
    }
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    match sim_tid() {
        Some(t) => {
            let _b = Bypass::on();
            rt().now += 1000;
            rt().yield_point(t);
            0
        }
        None => raw_syscall(SYS_sched_yield, 0, 0, 0, 0, 0, 0) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if sim_tid().is_none() {
        return ret(raw_syscall(SYS_getrandom, b as usize, n, flags as usize, 0, 0, 0));
    }
    rt().entropy.fill(std::slice::from_raw_parts_mut(b.cast(), n));
    n as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    let Some(t) = sim_tid() else {
        return ret(raw_syscall(n, a, b, c, d, e, f)) as c_long;
    };
    if n == SYS_getrandom {
        return getrandom(a as *mut c_void, b, c as c_uint) as c_long;
    }
    if n != SYS_futex {
        return ret(raw_syscall(n, a, b, c, d, e, f)) as c_long;
    }
    let _g = Bypass::on();
    let r = rt();
    match b as c_int & 0x7f {
        FUTEX_WAIT | FUTEX_WAIT_BITSET => {
            r.yield_point(t);
            if (*(a as *const std::sync::atomic::AtomicU32)).load(Ordering::SeqCst) != c as u32 {
                return fail(EAGAIN) as c_long;
            }
            let deadline = if d == 0 {
                None
            } else {
                let ts = &*(d as *const timespec);
                let v = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                Some(if b as c_int & 0x7f == FUTEX_WAIT { r.now + v } else { v })
            };
            match r.block(t, Key::Futex(a), deadline) {
                Woke::Woken => 0,
                Woke::Timeout => fail(ETIMEDOUT) as c_long,
            }
        }
        FUTEX_WAKE | FUTEX_WAKE_BITSET => {
            let k = r.wake(Key::Futex(a), c.min(1 << 20));
            k as c_long
        }
        _ => ret(raw_syscall(n, a, b, c, d, e, f)) as c_long,
    }
}

static PTC: AtomicUsize = AtomicUsize::new(0);
static PTJ: AtomicUsize = AtomicUsize::new(0);

struct Boot {
    tid: usize,
    sem: &'static Baton,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
}
extern "C" fn boot(p: *mut c_void) -> *mut c_void {
    let b = unsafe { Box::from_raw(p.cast::<Boot>()) };
    let mut out = std::ptr::null_mut();
    Rt::thread_main(b.tid, b.sem, || {
        let _in = InLib::on();
        out = (b.f)(b.arg);
    });
    out
}

/// A thread the library itself starts becomes a simulated thread, attributed to the call that
/// started it.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    th: *mut pthread_t,
    attr: *const pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    type F = unsafe extern "C" fn(
        *mut pthread_t,
        *const pthread_attr_t,
        extern "C" fn(*mut c_void) -> *mut c_void,
        *mut c_void,
    ) -> c_int;
    let real: F = std::mem::transmute(next("pthread_create\0", &PTC));
    let Some(t) = sim_tid() else { return real(th, attr, f, arg) };
    let _b = Bypass::on();
    let r = rt();
    let op = r.threads[t].op;
    let (tid, sem) = r.add_thread(op, true);
    let p = Box::into_raw(Box::new(Boot { tid, sem, f, arg }));
    let e = real(th, attr, boot, p.cast());
    if e == 0 {
        r.threads[tid].pthread = *th as u64;
    }
    r.yield_point(t);
    e
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: pthread_t, out: *mut *mut c_void) -> c_int {
    type F = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;
    let real: F = std::mem::transmute(next("pthread_join\0", &PTJ));
    let Some(t) = sim_tid() else { return real(th, out) };
    let _b = Bypass::on();
    let r = rt();
    while r.threads.iter().any(|x| x.pthread == th as u64 && x.st != St::Done) {
        r.block(t, Key::Join(th as u64), None);
    }
    real(th, out)
}
