//! The simulated network: sockets, connections, latency, and what can go wrong with them.

use crate::node::*;
use crate::rt::*;
use libc::*;
use std::collections::VecDeque;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub enum SockState {
    #[default]
    New,
    Connecting,
    Open,
    Failed(i32),
}

#[derive(Default)]
pub struct Sock {
    pub state: SockState,
    pub nonblock: bool,
    pub refs: usize,
    pub inbuf: VecDeque<u8>,
    pub eof: bool,
    pub rst: bool,
    pub rst_seen: bool,
    pub rcv_timeo: u64,
    pub snd_timeo: u64,
    pub peer: (u32, u16),
    pub conn: Option<usize>,
    pub closed: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cut {
    Rst,
    Fin,
    Crash,
}

pub struct Conn {
    pub sock: usize,
    pub node: usize,
    pub cur_op: Option<usize>,
    pub lat: u64,
    c2n_last: u64,
    n2c_last: u64,
    pub cut_in: Option<(usize, Cut)>,
    /// Where in the response to cut: position class, a fraction in 1/1000, and how.
    pub cut_out: Option<(u32, u32, Cut)>,
    pub stall: u64,
    pub drip: bool,
    pub recvd: usize,
    pub buf: Vec<u8>,
    pub buf_op: Option<usize>,
    pub buf_late: bool,
    pub dead: bool,
    pub busy: bool,
}

pub enum Ev {
    Timer { tid: usize, gen: u64 },
    Connected { sock: usize },
    ConnectFail { sock: usize, err: i32 },
    ToNode { conn: usize, data: Vec<u8>, op: Option<usize>, late: bool },
    NodeFin { conn: usize },
    Respond { conn: usize, op: Option<usize>, req: usize },
    ToClient { conn: usize, data: Vec<u8>, last: Option<(usize, usize)> },
    ClientEof { conn: usize },
    ClientRst { conn: usize },
    Crash { node: usize },
    Restart { node: usize },
    Clock { by: i64 },
}

impl Ev {
    pub fn code(&self) -> u64 {
        match self {
            Ev::Timer { .. } => 1,
            Ev::Connected { .. } => 2,
            Ev::ConnectFail { .. } => 3,
            Ev::ToNode { .. } => 4,
            Ev::NodeFin { .. } => 5,
            Ev::Respond { .. } => 6,
            Ev::ToClient { .. } => 7,
            Ev::ClientEof { .. } => 8,
            Ev::ClientRst { .. } => 9,
            Ev::Crash { .. } => 10,
            Ev::Restart { .. } => 11,
            Ev::Clock { .. } => 12,
        }
    }
}

pub struct Node {
    pub name: String,
    pub ip: u32,
    pub port: u16,
    pub prefix: String,
    pub up: bool,
}

#[derive(Clone, Debug)]
pub struct ReqRec {
    pub node: usize,
    pub conn: usize,
    pub method: String,
    pub target: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub complete: bool,
    /// Some of it was sent after the call it belongs to had returned.
    pub late: bool,
    pub at: u64,
    pub resp: Option<RespRec>,
}

#[derive(Clone, Debug)]
pub struct RespRec {
    pub status: u16,
    pub body: String,
    pub sem: Sem,
    pub delivered: bool,
    pub chunked: bool,
}

#[derive(Clone, Debug, Default)]
pub struct OpRec {
    pub label: &'static str,
    pub node: usize,
    pub returned: bool,
    pub start: u64,
    pub end: u64,
    pub reqs: Vec<ReqRec>,
    /// Faults that may legitimately make the call fail.
    pub disturbed: Vec<&'static str>,
    pub conns: usize,
    /// What the contract is asked to return: used by typed-extraction calls.
    pub hint: u32,
}

#[derive(Default)]
pub struct Net {
    pub fds: Vec<Option<usize>>,
    pub socks: Vec<Sock>,
    pub conns: Vec<Conn>,
    pub nodes: Vec<Node>,
    pub ops: Vec<OpRec>,
    /// Requests that belong to no call.
    pub stray: Vec<ReqRec>,
    pub healed: bool,
    pub tokens: u64,
    pub mix: Mix,
}

pub const K_REFUSE: usize = 0;
pub const K_BLACKHOLE: usize = 1;
pub const K_UNREACH: usize = 2;
pub const K_RST_IN: usize = 3;
pub const K_RST_OUT: usize = 4;
pub const K_FIN_OUT: usize = 5;
pub const K_FIN_NONE: usize = 6;
pub const K_DNS: usize = 7;
pub const K_CRASH: usize = 8;
pub const K_STALL: usize = 9;
pub const K_EMFILE: usize = 10;
pub const K_DRIP: usize = 11;

impl Rt {
    pub fn disturb(&mut self, op: Option<usize>, why: &'static str) {
        if let Some(o) = op {
            self.net.ops[o].disturbed.push(why);
        }
    }

    fn conn_chance(&mut self) -> bool {
        let p = self.prof.conn_fault;
        !self.net.healed && p > 0 && self.ch.chance(p, 100)
    }

    pub fn eintr(&mut self, k: &'static str) -> bool {
        let p = self.prof.eintr;
        if self.net.healed || p == 0 || !self.ch.chance(p, 100) {
            return false;
        }
        self.fault(k);
        true
    }

    pub fn socket_fault(&mut self) -> Option<i32> {
        if self.prof.kinds[K_EMFILE] == 0 || self.net.healed || !self.ch.chance(if self.prof.conn_fault == 100 { 100 } else { self.prof.conn_fault.min(20) }, 100) {
            return None;
        }
        self.fault("socket EMFILE");
        self.disturb(self.op(), "EMFILE");
        Some(EMFILE)
    }

    pub fn resolve(&mut self, _t: usize, name: &str) -> Result<Vec<u32>, i32> {
        let op = self.op();
        if self.prof.kinds[K_DNS] > 0 && self.conn_chance() {
            let k = if self.prof.conn_fault == 100 { 1 + self.ch.below(3) } else { self.ch.below(4) };
            match k {
                0 => {}
                1 => {
                    self.fault("dns failure");
                    self.disturb(op, "dns");
                    return Err(EAI_AGAIN);
                }
                2 => {
                    self.fault("dns failure");
                    self.disturb(op, "dns");
                    return Err(EAI_NONAME);
                }
                _ => {
                    self.fault("dns dead first address");
                    self.disturb(op, "dead address");
                    let ip = self.node_ip(name).ok_or(EAI_NONAME)?;
                    return Ok(vec![0x0a09_0001, ip]);
                }
            }
        }
        self.node_ip(name).map(|i| vec![i]).ok_or(EAI_NONAME)
    }

    fn node_ip(&self, name: &str) -> Option<u32> {
        self.net.nodes.iter().find(|n| n.name == name).map(|n| n.ip)
    }

    pub fn connect_start(&mut self, s: usize, ip: u32, port: u16) -> Result<(), i32> {
        let op = self.op();
        if let Some(o) = op {
            self.net.ops[o].conns += 1;
        }
        self.net.socks[s].peer = (ip, port);
        self.net.socks[s].state = SockState::Connecting;
        let lat = self.latency();
        let node = self.net.nodes.iter().position(|n| n.ip == ip && n.port == port);
        self.note(|| format!("connect to node {node:?} for call {op:?}"));
        let Some(node) = node else {
            self.disturb(op, "dead address");
            if self.ch.chance(1, 2) {
                self.fault("connect never answered");
            } else {
                self.fault("connect refused");
                let at = self.now + lat;
                self.push_event(at, Ev::ConnectFail { sock: s, err: ECONNREFUSED });
            }
            return Ok(());
        };
        let mut c = Conn {
            sock: s,
            node,
            cur_op: op,
            lat,
            c2n_last: 0,
            n2c_last: 0,
            cut_in: None,
            cut_out: None,
            stall: 0,
            drip: false,
            recvd: 0,
            buf: Vec::new(),
            buf_op: None,
            buf_late: false,
            dead: false,
            busy: false,
        };
        let mut fate = usize::MAX;
        if self.conn_chance() {
            let k = self.prof.kinds;
            if k.iter().any(|x| *x > 0) {
                fate = self.ch.weighted(&k);
            }
        }
        if !self.net.nodes[node].up {
            fate = K_REFUSE;
        }
        match fate {
            K_REFUSE => {
                self.fault("connect refused");
                self.disturb(op, "refused");
                self.push_event(self.now + lat, Ev::ConnectFail { sock: s, err: ECONNREFUSED });
                return Ok(());
            }
            K_BLACKHOLE => {
                self.fault("connect never answered");
                self.disturb(op, "connect timeout");
                return Ok(());
            }
            K_UNREACH => {
                self.fault("network unreachable");
                self.disturb(op, "unreachable");
                if self.ch.chance(1, 2) {
                    self.net.socks[s].state = SockState::Failed(ENETUNREACH);
                    return Err(ENETUNREACH);
                }
                self.push_event(self.now + lat, Ev::ConnectFail { sock: s, err: EHOSTUNREACH });
                return Ok(());
            }
            K_RST_IN | K_CRASH => {
                let how = if fate == K_CRASH { Cut::Crash } else { Cut::Rst };
                let k = match self.ch.below(4) {
                    0 => 0,
                    1 => self.ch.below(60),
                    2 => self.ch.below(400),
                    _ => self.ch.below(1500),
                };
                c.cut_in = Some((k, how));
            }
            K_RST_OUT => c.cut_out = Some((self.ch.draw(6), self.ch.draw(1001), Cut::Rst)),
            K_FIN_OUT => c.cut_out = Some((self.ch.draw(6), self.ch.draw(1001), Cut::Fin)),
            K_FIN_NONE => c.cut_out = Some((0, 0, Cut::Fin)),
            K_STALL => {
                self.fault("stalled answer");
                c.stall = [50_000_000, 2_000_000_000, 20_000_000_000, 3_600_000_000_000][self.ch.below(4)];
                if c.stall > 5_000_000_000 {
                    self.disturb(op, "stalled");
                }
            }
            K_DRIP => {
                self.fault("dripping answer");
                c.drip = true;
            }
            _ => {}
        }
        self.net.conns.push(c);
        self.net.socks[s].conn = Some(self.net.conns.len() - 1);
        self.push_event(self.now + lat, Ev::Connected { sock: s });
        Ok(())
    }

    pub fn latency(&mut self) -> u64 {
        let m = self.prof.lat_us.max(1);
        (20 + u64::from(self.ch.draw(m))) * 1000
    }

    fn jitter(&mut self) -> u64 {
        let m = (self.prof.lat_us / 2).max(1);
        u64::from(self.ch.draw(m)) * 1000
    }

    pub fn sock_send(&mut self, t: usize, s: usize, data: &[u8]) -> Result<usize, i32> {
        match self.net.socks[s].state {
            SockState::Open => {}
            SockState::Failed(e) => return Err(e),
            _ => return Err(ENOTCONN),
        }
        let c = self.net.socks[s].conn.unwrap();
        if self.net.socks[s].closed {
            return Err(EPIPE);
        }
        if self.net.socks[s].rst {
            if !self.net.socks[s].rst_seen {
                self.net.socks[s].rst_seen = true;
                return Err(ECONNRESET);
            }
            return Err(EPIPE);
        }
        let mut n = data.len();
        let p = self.prof.short;
        if n > 1 && p > 0 && !self.net.healed && self.ch.chance(p, 100) {
            n = 1 + self.ch.below(n - 1);
            self.fault("short write");
        }
        if n == 0 {
            return Ok(0);
        }
        let op = self.threads[t].op;
        let late = op.map_or(true, |o| self.net.ops[o].returned);
        let j = self.jitter();
        let c0 = &mut self.net.conns[c];
        c0.cur_op = op;
        let at = (self.now + c0.lat + j).max(c0.c2n_last);
        c0.c2n_last = at;
        let d = data[..n].to_vec();
        self.push_event(at, Ev::ToNode { conn: c, data: d, op, late });
        Ok(n)
    }

    pub fn sock_recv(&mut self, s: usize, buf: &mut [u8], peek: bool) -> Option<Result<usize, i32>> {
        if buf.is_empty() {
            return Some(Ok(0));
        }
        let avail = self.net.socks[s].inbuf.len();
        if avail > 0 {
            let mut n = avail.min(buf.len());
            let p = self.prof.short;
            if n > 1 && !peek && p > 0 && !self.net.healed && self.ch.chance(p, 100) {
                n = 1 + self.ch.below(n - 1);
                self.fault("short read");
            }
            let k = &mut self.net.socks[s];
            for b in buf.iter_mut().take(n).enumerate() {
                *b.1 = if peek { k.inbuf[b.0] } else { k.inbuf.pop_front().unwrap() };
            }
            return Some(Ok(n));
        }
        let k = &mut self.net.socks[s];
        if let SockState::Failed(e) = k.state {
            return Some(Err(e));
        }
        if k.state != SockState::Open {
            return Some(Err(ENOTCONN));
        }
        if k.rst {
            if !k.rst_seen {
                k.rst_seen = true;
                return Some(Err(ECONNRESET));
            }
            return Some(Ok(0));
        }
        if k.eof || k.closed {
            return Some(Ok(0));
        }
        None
    }

    pub fn sock_close(&mut self, s: usize) {
        if self.net.socks[s].closed {
            return;
        }
        self.net.socks[s].closed = true;
        if let Some(c) = self.net.socks[s].conn {
            let c0 = &self.net.conns[c];
            let at = (self.now + c0.lat).max(c0.c2n_last);
            self.push_event(at, Ev::NodeFin { conn: c });
        }
    }

    fn kill(&mut self, conn: usize, cut: Cut, why: &'static str) {
        let op = self.net.conns[conn].cur_op;
        self.disturb(op, why);
        self.net.conns[conn].dead = true;
        self.flush_partial(conn);
        let c = &self.net.conns[conn];
        let at = (self.now + c.lat).max(c.n2c_last);
        self.push_event(at, if cut == Cut::Fin { Ev::ClientEof { conn } } else { Ev::ClientRst { conn } });
    }

    pub fn crash_node(&mut self, node: usize) {
        self.fault("node crash");
        self.net.nodes[node].up = false;
        for c in 0..self.net.conns.len() {
            if self.net.conns[c].node == node && !self.net.conns[c].dead {
                self.kill(c, Cut::Rst, "node crash");
            }
        }
        let d = [1_000_000, 100_000_000, 5_000_000_000][self.ch.below(3)];
        self.push_event(self.now + d, Ev::Restart { node });
    }

    /// A request that will never be completed is still on record.
    fn flush_partial(&mut self, conn: usize) {
        let c = &mut self.net.conns[conn];
        if c.buf.is_empty() {
            return;
        }
        let raw = std::mem::take(&mut c.buf);
        let (op, late, node) = (c.buf_op, c.buf_late, c.node);
        let line = String::from_utf8_lossy(&raw).lines().next().unwrap_or("").to_string();
        let mut it = line.split(' ');
        let rec = ReqRec {
            node,
            conn,
            method: it.next().unwrap_or("").into(),
            target: it.next().unwrap_or("").into(),
            headers: vec![],
            body: raw,
            complete: false,
            late,
            at: self.now,
            resp: None,
        };
        self.record(op, rec);
    }

    fn record(&mut self, op: Option<usize>, rec: ReqRec) -> usize {
        match op {
            Some(o) => {
                self.net.ops[o].reqs.push(rec);
                self.net.ops[o].reqs.len() - 1
            }
            None => {
                self.net.stray.push(rec);
                self.net.stray.len() - 1
            }
        }
    }

    pub fn handle(&mut self, ev: Ev) {
        match ev {
            Ev::Timer { tid, gen } => self.timer(tid, gen),
            Ev::Connected { sock } => {
                let c = self.net.socks[sock].conn.unwrap();
                if self.net.conns[c].dead || !self.net.nodes[self.net.conns[c].node].up {
                    let op = self.net.conns[c].cur_op;
                    self.disturb(op, "refused");
                    self.net.conns[c].dead = true;
                    self.net.socks[sock].state = SockState::Failed(ECONNREFUSED);
                } else {
                    self.net.socks[sock].state = SockState::Open;
                }
                self.wake_sock(sock);
            }
            Ev::ConnectFail { sock, err } => {
                self.net.socks[sock].state = SockState::Failed(err);
                self.wake_sock(sock);
            }
            Ev::ToNode { conn, mut data, op, late } => {
                if self.net.conns[conn].dead {
                    self.disturb(op, "sent to a dead connection");
                    return;
                }
                let mut cut = None;
                if let Some((k, how)) = self.net.conns[conn].cut_in {
                    let got = self.net.conns[conn].recvd;
                    if got + data.len() >= k {
                        data.truncate(k - got);
                        cut = Some(how);
                    }
                }
                let c = &mut self.net.conns[conn];
                c.recvd += data.len();
                if !data.is_empty() {
                    if c.buf.is_empty() {
                        c.buf_op = op;
                        c.buf_late = late;
                    }
                    c.buf_late |= late;
                    c.buf.extend_from_slice(&data);
                }
                self.node_parse(conn);
                if let Some(how) = cut {
                    if how == Cut::Crash {
                        let n = self.net.conns[conn].node;
                        self.crash_node(n);
                    } else {
                        self.fault("reset while sending");
                        self.kill(conn, Cut::Rst, "reset");
                    }
                }
            }
            Ev::NodeFin { conn } => {
                self.flush_partial(conn);
                self.net.conns[conn].dead = true;
            }
            Ev::Respond { conn, op, req } => self.respond(conn, op, req),
            Ev::ToClient { conn, data, last } => {
                let s = self.net.conns[conn].sock;
                if !self.net.socks[s].closed && !self.net.socks[s].rst {
                    self.net.socks[s].inbuf.extend(data);
                    if let Some((o, r)) = last {
                        if let Some(x) = &mut self.net.ops[o].reqs[r].resp {
                            x.delivered = true;
                        }
                    }
                    self.wake_sock(s);
                }
            }
            Ev::ClientEof { conn } => {
                let s = self.net.conns[conn].sock;
                self.net.socks[s].eof = true;
                self.wake_sock(s);
            }
            Ev::ClientRst { conn } => {
                let s = self.net.conns[conn].sock;
                if self.net.socks[s].state == SockState::Connecting {
                    self.net.socks[s].state = SockState::Failed(ECONNREFUSED);
                }
                self.net.socks[s].rst = true;
                self.wake_sock(s);
            }
            Ev::Crash { node } => {
                if self.net.nodes[node].up && !self.net.healed {
                    self.crash_node(node);
                }
            }
            Ev::Restart { node } => {
                self.note(|| format!("node {node} restarts"));
                self.net.nodes[node].up = true;
            }
            Ev::Clock { by } => {
                self.fault("wall clock jump");
                self.skew += by;
            }
        }
    }

    fn node_parse(&mut self, conn: usize) {
        if self.net.conns[conn].busy || self.net.conns[conn].dead {
            return;
        }
        let Some((used, p)) = parse_request(&self.net.conns[conn].buf) else { return };
        let c = &mut self.net.conns[conn];
        c.buf.drain(..used);
        let (op, late, node) = (c.buf_op, c.buf_late, c.node);
        c.busy = true;
        let rec = ReqRec {
            node,
            conn,
            method: p.method,
            target: p.target,
            headers: p.headers,
            body: p.body,
            complete: true,
            late,
            at: self.now,
            resp: None,
        };
        self.note(|| format!("node {node} has read {} {} ({} bytes) of call {op:?}", rec.method, rec.target, rec.body.len()));
        let req = self.record(op, rec);
        let stall = std::mem::take(&mut self.net.conns[conn].stall);
        let d = self.latency() + stall;
        self.push_event(self.now + d, Ev::Respond { conn, op, req });
    }

    fn respond(&mut self, conn: usize, op: Option<usize>, req: usize) {
        if self.net.conns[conn].dead {
            return;
        }
        let rec = match op {
            Some(o) => self.net.ops[o].reqs[req].clone(),
            None => self.net.stray[req].clone(),
        };
        let a = self.answer(op, &rec);
        let (head, wire) = a.wire(&rec);
        let close = a.close;
        self.note(|| format!("node {} answers {} with {} ({} bytes)", rec.node, rec.target, a.rec.status, wire.len()));
        match op {
            Some(o) => self.net.ops[o].reqs[req].resp = Some(a.rec),
            None => self.net.stray[req].resp = Some(a.rec),
        }
        let mut data = wire;
        let mut cut = None;
        if let Some((class, frac, how)) = self.net.conns[conn].cut_out {
            let n = data.len();
            let f = frac as usize;
            let mut k = match class {
                0 => 0,
                1 => 1 + f % 14,
                2 => head * f / 1001,
                3 => head,
                4 => head + (n - head) * f / 1001,
                _ => n - 1,
            }
            .min(n - 1);
            if a.framing == Framing::Close && k >= head {
                // A body delimited by the end of the connection cannot show its own truncation.
                k = head.saturating_sub(1);
            }
            data.truncate(k);
            cut = Some(how);
        }
        // hand it over in segments
        let mut segs: Vec<Vec<u8>> = Vec::new();
        let drip = self.net.conns[conn].drip && !self.net.healed;
        let p = self.prof.seg;
        let mut rest = &data[..];
        while !rest.is_empty() {
            let mut n = rest.len();
            if n > 1 && segs.len() < 40 && !self.net.healed && (drip || (p > 0 && self.ch.chance(p, 100))) {
                n = 1 + self.ch.below(if drip { 40.min(n - 1) } else { n - 1 });
            }
            segs.push(rest[..n].to_vec());
            rest = &rest[n..];
        }
        if segs.len() > 1 {
            *self.faults.entry("segmented answer").or_default() += 1;
        }
        let k = segs.len();
        for (i, data) in segs.into_iter().enumerate() {
            let j = if drip { 400_000_000 } else { self.jitter() };
            let c = &mut self.net.conns[conn];
            let at = (self.now + c.lat + j).max(c.n2c_last + if drip { 400_000_000 } else { 0 });
            c.n2c_last = at;
            let last = if i + 1 == k && cut.is_none() { op.map(|o| (o, req)) } else { None };
            self.push_event(at, Ev::ToClient { conn, data, last });
        }
        match cut {
            Some(Cut::Fin) => {
                self.fault("truncated answer");
                self.kill(conn, Cut::Fin, "truncated");
            }
            Some(_) => {
                self.fault("reset while answering");
                self.kill(conn, Cut::Rst, "reset");
            }
            None => {
                self.net.conns[conn].busy = false;
                if close {
                    self.net.conns[conn].dead = true;
                    let at = self.net.conns[conn].n2c_last;
                    self.push_event(at, Ev::ClientEof { conn });
                } else {
                    self.node_parse(conn);
                }
            }
        }
    }

    /// Faults stop, nodes come back.
    pub fn heal(&mut self) {
        self.net.healed = true;
        for n in &mut self.net.nodes {
            n.up = true;
        }
        for c in &mut self.net.conns {
            c.cut_in = None;
            c.cut_out = None;
        }
    }
}
