//! A real server (public API) on a single-threaded runtime, driven over a
//! loopback UDP socket by one or more clients on the same runtime.
use futures::task::AtomicWaker;
use over_there::core::transport::auth::NoopAuthenticator;
use over_there::core::transport::crypto::NoopBicrypter;
use over_there::core::transport::{InboundWire, OutboundWire, Wire};
use over_there::core::{reply, request, Content, ListeningServer, Msg, Reply, Request, ServerBuilder, Transport};
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::{Arc, Mutex, OnceLock};
use std::task::{Context, Poll};
use std::time::Duration;
use tokio::net::UdpSocket;

pub type CustomFut = Pin<Box<dyn Future<Output = Result<reply::CustomArgs, Box<dyn std::error::Error>>> + Send>>;
pub type CustomFn = Box<dyn FnMut(request::CustomArgs) -> CustomFut + Send>;

pub struct Cfg {
    pub file_ttl: Duration,
    pub proc_ttl: Duration,
    pub dead_proc_ttl: Duration,
    pub cleanup: Duration,
    pub packet_ttl: Duration,
    pub custom: Option<CustomFn>,
    pub clients: usize,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            file_ttl: Duration::from_secs(100_000),
            proc_ttl: Duration::from_secs(100_000),
            dead_proc_ttl: Duration::from_secs(100_000),
            cleanup: Duration::from_secs(100_000),
            packet_ttl: Duration::from_secs(100_000),
            custom: None,
            clients: 1,
        }
    }
}

pub fn real_now() -> Duration {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        crate::interpose::raw_syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut ts as *mut _ as i64, 0, 0, 0, 0);
    }
    Duration::new(ts.tv_sec as u64, ts.tv_nsec as u32)
}
/// Wakes waiting futures now and then so that real-time limits work on
/// threads whose clock is frozen.
pub struct Ticker {
    wakers: Mutex<Vec<Arc<AtomicWaker>>>,
}
pub fn ticker() -> &'static Ticker {
    static T: OnceLock<Ticker> = OnceLock::new();
    T.get_or_init(|| {
        std::thread::spawn(|| {
            crate::gate::exempt();
            loop {
                std::thread::sleep(Duration::from_millis(20));
                let ws = ticker().wakers.lock().unwrap().clone();
                for w in ws {
                    w.wake();
                }
            }
        });
        Ticker { wakers: Mutex::new(vec![]) }
    })
}
pub struct TickReg(pub Arc<AtomicWaker>);
impl TickReg {
    pub fn new() -> Self {
        let w = Arc::new(AtomicWaker::new());
        ticker().wakers.lock().unwrap().push(w.clone());
        TickReg(w)
    }
}
impl Drop for TickReg {
    fn drop(&mut self) {
        ticker().wakers.lock().unwrap().retain(|x| !Arc::ptr_eq(x, &self.0));
    }
}
/// `fut` or None after `limit` of real time.
pub async fn real_timeout<F: Future>(limit: Duration, fut: F) -> Option<F::Output> {
    let reg = TickReg::new();
    let end = real_now() + limit;
    let mut fut = Box::pin(fut);
    futures::future::poll_fn(move |cx: &mut Context<'_>| {
        if let Poll::Ready(x) = fut.as_mut().poll(cx) {
            return Poll::Ready(Some(x));
        }
        if real_now() >= end {
            return Poll::Ready(None);
        }
        reg.0.register(cx.waker());
        Poll::Pending
    })
    .await
}

pub struct Peer {
    pub sock: UdpSocket,
    pub inw: InboundWire<NoopAuthenticator, NoopBicrypter>,
    pub outw: OutboundWire<NoopAuthenticator, NoopBicrypter>,
}
pub struct Rig {
    rt: Option<tokio::runtime::Runtime>,
    pub server: ListeningServer,
    pub addr: SocketAddr,
    pub peers: Vec<Peer>,
    pub limit: Duration,
    tick: TickReg,
    pub dead: bool,
    /// requests sent so far
    pub asked: u64,
    /// leave out packets that cannot be understood (a fault cut them short)
    pub lenient: bool,
}

/// What arrived at a peer.
#[derive(Debug, Clone)]
pub struct Got {
    pub parent: Option<u32>,
    pub reply: Reply,
    pub id: u32,
}
pub const PACKET: usize = 508;
pub const LOCAL: &str = "127.0.0.1:0";

impl Rig {
    pub fn new(cfg: Cfg) -> Rig {
        let mut rt = tokio::runtime::Builder::new().basic_scheduler().enable_all().max_threads(8).build().unwrap();
        let n = cfg.clients;
        let (server, peers) = rt.block_on(async move {
            let mut b = ServerBuilder::default();
            b.transport(Transport::Udp(vec![LOCAL.parse().unwrap()]))
                .authenticator(NoopAuthenticator)
                .bicrypter(NoopBicrypter)
                .file_ttl(cfg.file_ttl)
                .proc_ttl(cfg.proc_ttl)
                .dead_proc_ttl(cfg.dead_proc_ttl)
                .cleanup_interval(cfg.cleanup)
                .packet_ttl(cfg.packet_ttl)
                .buffer(1000usize);
            if let Some(mut f) = cfg.custom {
                // the handler type is not exported, but converts from closures
                b.custom_handler(From::from(move |a: request::CustomArgs| f(a)));
            }
            let server = b.build().expect("server configuration").listen().await.expect("server start");
            let mut peers = vec![];
            for _ in 0..n {
                peers.push(new_peer().await);
            }
            (server, peers)
        });
        let addr = server.addr();
        Rig { rt: Some(rt), server, addr, peers, limit: Duration::from_secs(5), tick: TickReg::new(), dead: false, asked: 0, lenient: false }
    }
    pub fn block_on<F: Future>(&mut self, f: F) -> F::Output {
        self.rt.as_mut().unwrap().block_on(f)
    }
    pub fn send_bytes(&mut self, peer: usize, b: &[u8]) {
        let addr = self.addr;
        let p = &mut self.peers[peer];
        self.rt.as_mut().unwrap().block_on(async { p.sock.send_to(b, addr).await.expect("loopback send") });
    }
    pub fn send_msg(&mut self, peer: usize, m: &Msg) {
        let bytes = m.to_vec().expect("harness message encodes");
        let packets = self.peers[peer].outw.process(&bytes).expect("harness packets");
        for p in packets {
            self.send_bytes(peer, &p);
        }
    }
    pub fn send(&mut self, peer: usize, r: Request) -> u32 {
        let m = Msg::from(Content::Request(r));
        self.asked += 1;
        self.send_msg(peer, &m);
        m.header.id
    }
    /// The next message that arrives at `peer`.
    pub fn recv(&mut self, peer: usize, limit: Duration) -> Option<Got> {
        self.recv_msg(peer, limit).map(|m| Got {
            parent: m.parent_header.as_ref().map(|h| h.id),
            id: m.header.id,
            reply: match m.content {
                Content::Reply(r) => r,
                Content::Request(r) => panic!("server sent a request: {:?}", r),
            },
        })
    }
    pub fn recv_msg(&mut self, peer: usize, limit: Duration) -> Option<Msg> {
        let p = &mut self.peers[peer];
        let tick = &self.tick;
        let end = real_now() + limit;
        let mut buf = vec![0u8; 70_000];
        self.rt.as_mut().unwrap().block_on(async {
            loop {
                let mut got = None;
                {
                    let mut f = Box::pin(p.sock.recv_from(&mut buf));
                    futures::future::poll_fn(|cx: &mut Context<'_>| {
                        if let Poll::Ready(x) = f.as_mut().poll(cx) {
                            got = Some(x);
                            return Poll::Ready(());
                        }
                        if real_now() >= end {
                            return Poll::Ready(());
                        }
                        tick.0.register(cx.waker());
                        Poll::Pending
                    })
                    .await;
                }
                match got {
                    None => return None,
                    Some(Ok((n, _))) => match p.inw.process(&buf[..n]) {
                        Ok(Some(d)) => match Msg::from_slice(&d) {
                            Ok(m) => return Some(m),
                            Err(e) => panic!("undecodable message from the server: {}", e),
                        },
                        Ok(None) => (),
                        Err(_) if self.lenient => (),
                        Err(e) => panic!("bad packet from the server: {:?}", e),
                    },
                    Some(Err(e)) => panic!("loopback recv: {}", e),
                }
            }
        })
    }
    /// Send a request and return the reply to it; None if there is none.
    pub fn ask_from(&mut self, peer: usize, r: Request) -> Option<Reply> {
        let id = self.send(peer, r);
        let limit = self.limit;
        let end = real_now() + limit;
        loop {
            let left = end.checked_sub(real_now()).unwrap_or_default();
            match self.recv(peer, left) {
                Some(g) if g.parent == Some(id) => return Some(g.reply),
                Some(_) => continue,
                None => {
                    self.dead = true;
                    return None;
                }
            }
        }
    }
    pub fn ask(&mut self, r: Request) -> Option<Reply> {
        self.ask_from(0, r)
    }
    pub fn add_peer(&mut self) -> usize {
        let p = self.rt.as_mut().unwrap().block_on(new_peer());
        self.peers.push(p);
        self.peers.len() - 1
    }
}
impl Drop for Rig {
    fn drop(&mut self) {
        if let Some(rt) = self.rt.take() {
            rt.shutdown_timeout(Duration::from_millis(if self.dead { 50 } else { 1000 }));
        }
    }
}
pub async fn new_peer() -> Peer {
    let sock = UdpSocket::bind(LOCAL.parse::<SocketAddr>().unwrap()).await.unwrap();
    // packets no larger than what the server reads in one go
    let (inw, outw) = Wire::new(PACKET, Duration::from_secs(100_000), NoopAuthenticator, NoopBicrypter).clone_split();
    Peer { sock, inw, outw }
}
