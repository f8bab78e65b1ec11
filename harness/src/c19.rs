//! C19: a peer that fails, leaves or sends garbage affects nobody else.
use crate::core::*;
use crate::interpose::*;
use crate::rig::*;
use over_there::core::transport::auth::NoopAuthenticator;
use over_there::core::transport::crypto::NoopBicrypter;
use over_there::core::transport::{InboundWire, OutboundWire, Wire};
use over_there::core::{Content, ListeningServer, Msg, Reply, Request, ServerBuilder, Transport};
use serde_json::json;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::net::SocketAddr;
use std::os::unix::io::AsRawFd;
use std::sync::atomic::Ordering;
use std::time::Duration;
use tokio::net::UdpSocket;

type Bad = (&'static str, String);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum E {
    /// a connection on which nothing is sent
    Open(u8),
    /// a request that has to be answered
    Ask(u8),
    /// one with a reply of several packets
    Big(u8),
    /// a request in two segments with another peer's request in between
    Split(u8),
    /// two requests in one segment
    Two(u8),
    /// bytes that are no packet
    Garbage(u8, u8),
    /// well-formed packets around something that is no message
    Undecodable(u8),
    /// a reply instead of a request
    Reversed(u8),
    /// the beginning of a packet
    Half(u8),
    Close(u8),
    Reset(u8),
    /// a request, and then the peer leaves without waiting
    AskClose(u8),
    AskReset(u8),
    /// many requests with large replies, and then the peer leaves
    FloodClose(u8),
    /// the peer stops sending
    Shut(u8),
    /// sending the reply to a request fails
    SendError(u8, i32),
    /// only a part of the reply's packet can be sent (datagrams)
    SendPart(u8),
    RecvError(i32),
    AcceptError(i32),
}
use E::*;

fn encode(o: &mut OutboundWire<NoopAuthenticator, NoopBicrypter>, c: Content) -> (u32, Vec<Vec<u8>>) {
    let m = Msg::from(c);
    let p = o.process(&m.to_vec().expect("encodes")).expect("packets");
    (m.header.id, p)
}
fn request(big: bool) -> Content {
    Content::Request(if big { Request::Batch(vec![Request::Capabilities; 60].into()) } else { Request::Version })
}
fn right(big: bool, r: &Reply) -> bool {
    match r {
        Reply::Version(_) => !big,
        Reply::Batch(b) => big && b.results.len() == 60 && b.results.iter().all(|r| matches!(r, Reply::Capabilities(_))),
        _ => false,
    }
}
const GARBAGE: [&[u8]; 5] = [&[0xff; 3], &[0], &[0x9f, 0x9f, 0x9f], &[0xa3, 1, 2, 3, 4], &[0x7b; 2000]];

// -------------------------------------------------------------------- TCP
struct Conn {
    s: std::net::TcpStream,
    port: u16,
    inw: InboundWire<NoopAuthenticator, NoopBicrypter>,
    outw: OutboundWire<NoopAuthenticator, NoopBicrypter>,
    buf: Vec<u8>,
    /// nothing can be expected of this connection any more
    spoiled: bool,
}
const SIZE: usize = 1500;
struct Tcp {
    rt: tokio::runtime::Runtime,
    #[allow(dead_code)]
    server: ListeningServer,
    addr: SocketAddr,
    conns: [Option<Conn>; 3],
    /// ports of peers that left
    gone: Vec<u16>,
    accepted: Vec<Accepted>,
    cases: u64,
    dead: bool,
}
impl Tcp {
    fn new() -> Tcp {
        freeze_clock();
        take_accepted();
        let mut rt = tokio::runtime::Builder::new().basic_scheduler().enable_all().max_threads(8).build().unwrap();
        let server = rt.block_on(async {
            let far = Duration::from_secs(1_000_000);
            let mut b = ServerBuilder::default();
            b.transport(Transport::Tcp(vec![LOCAL.parse().unwrap()])).authenticator(NoopAuthenticator).bicrypter(NoopBicrypter).file_ttl(far).proc_ttl(far).dead_proc_ttl(far).cleanup_interval(far).packet_ttl(far).buffer(1000usize);
            b.build().expect("server configuration").cloneable_listen().await.expect("server start")
        });
        let addr = server.addr();
        Tcp { rt, server, addr, conns: [None, None, None], gone: vec![], accepted: vec![], cases: 0, dead: false }
    }
    fn run(&mut self, n: usize) {
        self.rt.block_on(async {
            for _ in 0..n {
                tokio::task::yield_now().await;
            }
        })
    }
    fn conn(&mut self, i: u8) -> &mut Conn {
        let i = i as usize;
        if self.conns[i].is_none() {
            let s = std::net::TcpStream::connect(self.addr).expect("the kernel takes the connection");
            s.set_nodelay(true).unwrap();
            s.set_nonblocking(true).unwrap();
            let port = s.local_addr().unwrap().port();
            let (inw, outw) = Wire::new(SIZE, Duration::from_secs(1_000_000), NoopAuthenticator, NoopBicrypter).clone_split();
            self.conns[i] = Some(Conn { s, port, inw, outw, buf: vec![], spoiled: false });
        }
        self.conns[i].as_mut().unwrap()
    }
    fn put(&mut self, i: u8, b: &[u8]) {
        self.conn(i);
        let mut at = 0;
        let t = real_now();
        while at < b.len() {
            match self.conns[i as usize].as_mut().unwrap().s.write(&b[at..]) {
                Ok(n) => at += n,
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock && real_now() - t < Duration::from_secs(3) => self.run(5),
                Err(_) => {
                    // the server has given up on this connection
                    self.conns[i as usize].as_mut().unwrap().spoiled = true;
                    return;
                }
            }
        }
    }
    fn leave(&mut self, i: u8, reset: bool) {
        if let Some(c) = self.conns[i as usize].take() {
            if reset {
                let g = libc::linger { l_onoff: 1, l_linger: 0 };
                unsafe { libc::setsockopt(c.s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &g as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32) };
            }
            self.gone.push(c.port);
        }
    }
    /// Wait for the reply to `id`.
    fn reply(&mut self, i: u8, id: u32) -> Option<Reply> {
        let t = real_now();
        let mut n = 0;
        loop {
            n += 1;
            self.run(4);
            if n > 20 {
                // whoever waits before trying again gets the time
                advance_clock(Duration::from_millis(50));
            }
            let c = self.conns[i as usize].as_mut().unwrap();
            let mut b = [0u8; 65536];
            match c.s.read(&mut b) {
                Ok(0) => return None,
                Ok(k) => c.buf.extend_from_slice(&b[..k]),
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => (),
                Err(_) => return None,
            }
            // packets are self-delimiting
            while let Some(k) = packet_len(&c.buf) {
                let p: Vec<u8> = c.buf.drain(..k).collect();
                if let Ok(Some(d)) = c.inw.process(&p) {
                    let m = Msg::from_slice(&d).expect("the server's message decodes");
                    if m.parent_header.as_ref().map(|h| h.id) == Some(id) {
                        match m.content {
                            Content::Reply(r) => return Some(r),
                            x => panic!("the server sent {:?}", x),
                        }
                    }
                }
            }
            if real_now() - t > Duration::from_secs(3) {
                return None;
            }
        }
    }
    fn ask(&mut self, i: u8, big: bool) -> Result<(), Bad> {
        let (id, ps) = encode(&mut self.conn(i).outw, request(big));
        self.put(i, &ps.concat());
        self.answered(i, id, big)
    }
    fn answered(&mut self, i: u8, id: u32, big: bool) -> Result<(), Bad> {
        if self.conns[i as usize].as_ref().unwrap().spoiled {
            return Ok(());
        }
        match self.reply(i, id) {
            Some(r) if right(big, &r) => Ok(()),
            Some(r) => Err(("reply", format!("peer {} was answered {:?}", i, r))),
            None => Err(("silent", format!("peer {} gets no reply", i))),
        }
    }
    fn accepted(&mut self) -> &[Accepted] {
        self.accepted.extend(take_accepted());
        &self.accepted
    }
    fn server_fd(&mut self, i: u8) -> Option<i32> {
        let port = self.conns[i as usize].as_ref()?.port;
        self.accepted().iter().rev().find(|a| a.port == port && a.open()).map(|a| a.fd)
    }
    fn step(&mut self, e: E) -> Result<(), Bad> {
        match e {
            Open(i) => {
                self.conn(i);
                self.run(4);
            }
            Ask(i) | Big(i) if self.conn(i).spoiled => (),
            Ask(i) => self.ask(i, false)?,
            Big(i) => self.ask(i, true)?,
            Split(i) => {
                if !self.conn(i).spoiled {
                    let (id, ps) = encode(&mut self.conn(i).outw, request(false));
                    let all = ps.concat();
                    self.put(i, &all[..all.len() / 2]);
                    self.run(6);
                    let other = (i + 1) % 2;
                    if !self.conn(other).spoiled {
                        self.ask(other, false)?;
                    }
                    self.put(i, &all[all.len() / 2..]);
                    self.answered(i, id, false)?;
                }
            }
            Two(i) => {
                if !self.conn(i).spoiled {
                    let (a, mut ps) = encode(&mut self.conn(i).outw, request(false));
                    let (b, qs) = encode(&mut self.conn(i).outw, request(true));
                    ps.extend(qs);
                    self.put(i, &ps.concat());
                    self.answered(i, a, false)?;
                    self.answered(i, b, true)?;
                }
            }
            Garbage(i, k) => {
                self.put(i, GARBAGE[k as usize]);
                self.conn(i).spoiled = true;
                self.run(6);
            }
            Undecodable(i) => {
                if !self.conn(i).spoiled {
                    let ps = self.conn(i).outw.process(&[0x80, 1, 2]).unwrap();
                    self.put(i, &ps.concat());
                    self.run(3);
                }
            }
            Reversed(i) => {
                if !self.conn(i).spoiled {
                    let (_, ps) = encode(&mut self.conn(i).outw, Content::Reply(Reply::Heartbeat));
                    self.put(i, &ps.concat());
                    self.run(3);
                }
            }
            Half(i) => {
                let (_, ps) = encode(&mut self.conn(i).outw, request(false));
                self.put(i, &ps[0][..ps[0].len() - 4]);
                self.conn(i).spoiled = true;
                self.run(6);
            }
            Close(i) | Reset(i) => {
                self.leave(i, matches!(e, Reset(_)));
                self.run(6);
            }
            AskClose(i) | AskReset(i) => {
                let (_, ps) = encode(&mut self.conn(i).outw, request(true));
                self.put(i, &ps.concat());
                self.leave(i, matches!(e, AskReset(_)));
            }
            FloodClose(i) => {
                for _ in 0..6 {
                    let (_, ps) = encode(&mut self.conn(i).outw, request(true));
                    self.put(i, &ps.concat());
                }
                self.run(3);
                self.leave(i, false);
            }
            Shut(i) => {
                let c = self.conn(i);
                let _ = c.s.shutdown(std::net::Shutdown::Write);
                c.spoiled = true;
                self.run(6);
            }
            SendError(i, errno) => {
                if !self.conn(i).spoiled {
                    // make sure that the server knows the connection
                    self.ask(i, false)?;
                    if let Some(fd) = self.server_fd(i) {
                        script_fd(fd, IoScript { writes: vec![IoStep::Errno(errno)].into(), ..Default::default() });
                        let (_, ps) = encode(&mut self.conn(i).outw, request(false));
                        self.put(i, &ps.concat());
                        self.run(20);
                        unscript_fd(fd);
                        self.conn(i).spoiled = true;
                    }
                }
            }
            AcceptError(errno) => fail_accept(errno),
            SendPart(_) | RecvError(_) => unreachable!(),
        }
        Ok(())
    }
    fn finish(&mut self) -> Result<(), Bad> {
        for i in 0..2u8 {
            if self.conns[i as usize].as_ref().map(|c| !c.spoiled).unwrap_or(false) {
                self.ask(i, false)?;
            }
        }
        // somebody new
        self.ask(2, false)?;
        for i in 0..3 {
            self.leave(i, i == 1);
        }
        // everything kept for them goes away
        let t = real_now();
        let mut n = 0;
        loop {
            self.run(8);
            n += 1;
            if n > 20 {
                advance_clock(Duration::from_millis(50));
            }
            let gone = self.gone.clone();
            let left: Vec<u16> = self.accepted().iter().filter(|a| gone.contains(&a.port) && a.open()).map(|a| a.port).collect();
            if left.is_empty() {
                break;
            }
            if real_now() - t > Duration::from_secs(2) {
                return Err(("kept", format!("the server keeps {} connections of peers that left", left.len())));
            }
        }
        // and nothing goes on
        let before = received();
        self.run(30);
        if received() != before {
            return Err(("busy", format!("with no peer left the server still reads from sockets ({} times)", received() - before)));
        }
        self.gone.clear();
        self.accepted.clear();
        Ok(())
    }
}
/// Size of the packet at the start, judged by the encoding alone.
fn packet_len(b: &[u8]) -> Option<usize> {
    fn item(b: &[u8], at: usize) -> Option<usize> {
        let (major, info) = (*b.get(at)? >> 5, b[at] & 31);
        let (n, mut at) = match info {
            0..=23 => (info as usize, at + 1),
            24 => (*b.get(at + 1)? as usize, at + 2),
            25 => (u16::from_be_bytes([*b.get(at + 1)?, *b.get(at + 2)?]) as usize, at + 3),
            26 => (u32::from_be_bytes([*b.get(at + 1)?, *b.get(at + 2)?, *b.get(at + 3)?, *b.get(at + 4)?]) as usize, at + 5),
            27 => (u64::from_be_bytes([*b.get(at + 1)?, *b.get(at + 2)?, *b.get(at + 3)?, *b.get(at + 4)?, *b.get(at + 5)?, *b.get(at + 6)?, *b.get(at + 7)?, *b.get(at + 8)?]) as usize, at + 9),
            _ => (0, at + 1),
        };
        match major {
            0 | 1 | 7 => Some(at),
            2 | 3 => {
                if at + n > b.len() {
                    None
                } else {
                    Some(at + n)
                }
            }
            4 | 5 => {
                for _ in 0..n * if major == 5 { 2 } else { 1 } {
                    at = item(b, at)?;
                }
                Some(at)
            }
            _ => item(b, at),
        }
    }
    if b.is_empty() {
        None
    } else {
        item(b, 0)
    }
}
thread_local! {
    static TCP: RefCell<Option<Tcp>> = const { RefCell::new(None) };
    static UDP: RefCell<Option<Udp>> = const { RefCell::new(None) };
}
fn tcp_case(ctx: &Ctx, seq: &[E]) {
    last_case(|| format!("tcp {:?}", seq));
    ctx.traces.fetch_add(1, Ordering::Relaxed);
    ctx.states.fetch_add(1, Ordering::Relaxed);
    TCP.with(|x| {
        let mut x = x.borrow_mut();
        if x.as_ref().map(|x| x.dead || x.cases > 300).unwrap_or(true) {
            if let Some(w) = x.take() {
                w.rt.shutdown_timeout(Duration::from_millis(200));
            }
            *x = Some(Tcp::new());
        }
        let w = x.as_mut().unwrap();
        w.cases += 1;
        let mut run = || -> Result<(), Bad> {
            for e in seq {
                ctx.transitions.fetch_add(1, Ordering::Relaxed);
                w.step(*e)?;
            }
            w.finish()
        };
        if let Err(b) = run() {
            w.dead = true;
            clear_accept_errors();
            ctx.violation(b.0, &b.1, json!({"transport": "tcp", "events": format!("{:?}", seq)}));
        } else {
            ctx.outcome("tcp held");
        }
    });
}
// -------------------------------------------------------------------- UDP
struct Udp {
    rig: Rig,
    fd: i32,
    /// peers that left are replaced
    slots: [usize; 2],
}
fn udp_server_fd(addr: SocketAddr) -> i32 {
    for fd in 3..4096 {
        unsafe {
            let mut a: libc::sockaddr_in = std::mem::zeroed();
            let mut l = std::mem::size_of::<libc::sockaddr_in>() as u32;
            let mut t: libc::c_int = 0;
            let mut tl = 4;
            if libc::getsockname(fd, &mut a as *mut _ as *mut _, &mut l) == 0 && a.sin_family == libc::AF_INET as u16 && u16::from_be(a.sin_port) == addr.port() && libc::getsockopt(fd, libc::SOL_SOCKET, libc::SO_TYPE, &mut t as *mut _ as *mut _, &mut tl) == 0 && t == libc::SOCK_DGRAM {
                return fd;
            }
        }
    }
    panic!("server socket not found");
}
impl Udp {
    fn new() -> Udp {
        let mut rig = Rig::new(Cfg { clients: 3, ..Default::default() });
        rig.lenient = true;
        let fd = udp_server_fd(rig.addr);
        Udp { rig, fd, slots: [0, 1] }
    }
    fn run(&mut self, n: usize) {
        self.rig.block_on(async {
            for _ in 0..n {
                tokio::task::yield_now().await;
            }
        })
    }
    fn ask(&mut self, peer: usize, big: bool) -> Result<(), Bad> {
        let r = match request(big) {
            Content::Request(r) => r,
            _ => unreachable!(),
        };
        match self.rig.ask_from(peer, r) {
            Some(r) if right(big, &r) => Ok(()),
            Some(r) => Err(("reply", format!("a peer was answered {:?}", r))),
            None => Err(("silent", "a peer gets no reply".to_string())),
        }
    }
    fn post(&mut self, peer: usize, big: bool) {
        if let Content::Request(r) = request(big) {
            self.rig.send(peer, r);
        }
    }
    fn step(&mut self, e: E) -> Result<(), Bad> {
        match e {
            Ask(i) => self.ask(self.slots[i as usize], false)?,
            Big(i) => self.ask(self.slots[i as usize], true)?,
            Garbage(i, k) => {
                self.rig.send_bytes(self.slots[i as usize], GARBAGE[k as usize]);
                self.run(6);
            }
            Half(i) => {
                // nothing, and the beginning of a packet
                self.rig.send_bytes(self.slots[i as usize], &[]);
                let p = &mut self.rig.peers[self.slots[i as usize]];
                let (_, ps) = encode(&mut p.outw, request(false));
                self.rig.send_bytes(self.slots[i as usize], &ps[0][..ps[0].len() - 4]);
                self.run(6);
            }
            Undecodable(i) => {
                let ps = self.rig.peers[self.slots[i as usize]].outw.process(&[0x80, 1, 2]).unwrap();
                self.rig.send_bytes(self.slots[i as usize], &ps[0]);
                self.run(6);
            }
            Reversed(i) => {
                self.rig.send_msg(self.slots[i as usize], &Msg::from(Content::Reply(Reply::Heartbeat)));
                self.run(6);
            }
            AskClose(i) | Close(i) => {
                let k = self.slots[i as usize];
                if matches!(e, AskClose(_)) {
                    self.post(k, true);
                }
                let fresh = self.rig.block_on(async { UdpSocket::bind(LOCAL.parse::<SocketAddr>().unwrap()).await.unwrap() });
                self.rig.peers[k].sock = fresh;
                self.run(10);
            }
            SendError(i, errno) => self.failing(i, IoStep::Errno(errno)),
            SendPart(i) => self.failing(i, IoStep::Max(3)),
            RecvError(errno) => {
                script_fd(self.fd, IoScript { reads: vec![IoStep::Errno(errno)].into(), ..Default::default() });
                // something arrives, so that the server looks
                self.rig.send_bytes(2, &[]);
                self.run(20);
                unscript_fd(self.fd);
            }
            _ => unreachable!(),
        }
        Ok(())
    }
    fn failing(&mut self, i: u8, s: IoStep) {
        script_fd(self.fd, IoScript { writes: vec![s].into(), ..Default::default() });
        self.post(self.slots[i as usize], false);
        let t = real_now();
        loop {
            self.run(5);
            if crate::interpose::peek_script(self.fd).map(|s| s.write_calls > 0).unwrap_or(true) || real_now() - t > Duration::from_millis(200) {
                break;
            }
        }
        unscript_fd(self.fd);
    }
}
fn udp_case(ctx: &Ctx, seq: &[E]) {
    last_case(|| format!("udp {:?}", seq));
    ctx.traces.fetch_add(1, Ordering::Relaxed);
    ctx.states.fetch_add(1, Ordering::Relaxed);
    UDP.with(|x| {
        let mut x = x.borrow_mut();
        if x.as_ref().map(|x| x.rig.dead || x.rig.asked > 3000).unwrap_or(true) {
            *x = None;
            *x = Some(Udp::new());
        }
        let w = x.as_mut().unwrap();
        let mut run = || -> Result<(), Bad> {
            for e in seq {
                ctx.transitions.fetch_add(1, Ordering::Relaxed);
                w.step(*e)?;
            }
            for i in 0..3 {
                w.ask(i, i == 1)?;
            }
            Ok(())
        };
        if let Err(b) = run() {
            w.rig.dead = true;
            ctx.violation(b.0, &b.1, json!({"transport": "udp", "events": format!("{:?}", seq)}));
        } else {
            ctx.outcome("udp held");
        }
    });
}
fn product(ls: &[E], n: usize) -> Vec<Vec<E>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|p: Vec<E>| ls.iter().map(move |e| { let mut q = p.clone(); q.push(*e); q })).collect();
    }
    v
}
pub fn run(ctx: &Ctx) -> i32 {
    let mut wide: Vec<E> = vec![];
    for i in 0..2 {
        wide.extend([Open(i), Ask(i), Big(i), Split(i), Two(i), Undecodable(i), Reversed(i), Half(i), Close(i), Reset(i), AskClose(i), AskReset(i), FloodClose(i), Shut(i), SendError(i, libc::EPIPE), SendError(i, libc::ECONNRESET)]);
        wide.extend((0..GARBAGE.len() as u8).map(|k| Garbage(i, k)));
    }
    for e in [libc::ECONNABORTED, libc::EMFILE, libc::ENOMEM, libc::EPROTO, libc::ENETDOWN] {
        wide.push(AcceptError(e));
    }
    let mut tcp = product(&wide, ctx.pick(2, 3));
    let main = [Open(0), Ask(0), Ask(1), Split(0), Half(1), Close(0), Close(1), Reset(1), AskClose(0), AskReset(1), Shut(0), Garbage(0, 3), AcceptError(libc::ECONNABORTED), SendError(1, libc::EPIPE)];
    tcp.extend(product(&main, ctx.pick(5, 6)));
    ctx.note("tcp_event_sequences", tcp.len() as u64);
    par_items(ctx, &tcp, |ctx, i, s| {
        tcp_case(ctx, s);
        if i % 2003 == 5 && ctx.wants_sample() {
            ctx.sample(json!({"transport": "tcp", "events": format!("{:?}", s)}));
        }
    });
    let mut wide: Vec<E> = vec![];
    for i in 0..2 {
        wide.extend([Ask(i), Big(i), Half(i), Undecodable(i), Reversed(i), Close(i), AskClose(i), SendPart(i)]);
        wide.extend((0..GARBAGE.len() as u8).map(|k| Garbage(i, k)));
        wide.extend([libc::EPERM, libc::ENETUNREACH, libc::EHOSTUNREACH, libc::ECONNREFUSED, libc::EMSGSIZE, libc::ENOBUFS, libc::EINVAL, libc::EINTR].iter().map(|e| SendError(i, *e)));
    }
    wide.extend([libc::ECONNREFUSED, libc::EHOSTUNREACH, libc::ENETUNREACH, libc::ECONNRESET, libc::ENOBUFS, libc::EINTR, libc::ENOMEM].iter().map(|e| RecvError(*e)));
    let mut udp = product(&wide, ctx.pick(2, 3));
    let main = [Ask(0), Big(1), Half(0), AskClose(1), SendPart(0), SendError(0, libc::EPERM), SendError(1, libc::ECONNREFUSED), RecvError(libc::ECONNREFUSED), Garbage(0, 2)];
    udp.extend(product(&main, ctx.pick(5, 6)));
    ctx.note("udp_event_sequences", udp.len() as u64);
    par_items(ctx, &udp, |ctx, i, s| {
        udp_case(ctx, s);
        if i % 2003 == 5 && ctx.wants_sample() {
            ctx.sample(json!({"transport": "udp", "events": format!("{:?}", s)}));
        }
    });
    ctx.finish(
        "model_checking",
        "all sequences up to the depth of requests, segment boundaries, garbage, failing sends, receives and accepts, and departures of 2-3 peers of a real server over TCP and UDP; afterwards every remaining peer and a new one must be answered, and the server must have closed the connections of those who left and be idle",
        true,
        &["a released connection is recognised by its socket being closed, which only happens when both of the tasks that served it are gone"],
    )
}
