//! C24: a client and a server started from command line options understand
//! each other exactly when they were given the same options and keys.
use crate::core::*;
use crate::interpose::*;
use crate::rig::{real_now, TickReg};
use clap::Clap;
use over_there::cli::{run as cli_run, Opts};
use serde_json::json;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::sync::atomic::Ordering;
use std::task::Poll;
use std::time::Duration;

pub const TRANSPORTS: [&str; 2] = ["udp", "tcp"];
pub const AUTHS: [&str; 3] = ["none", "sha256", "sha512"];
/// Name and number of bytes of its key.
pub const ENCS: [(&str, usize); 7] = [("none", 0), ("aes128_gcm", 16), ("aes256_gcm", 32), ("aes128_gcm_siv", 16), ("aes256_gcm_siv", 32), ("aes128_siv", 32), ("aes256_siv", 64)];

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Side {
    pub transport: &'static str,
    pub auth: &'static str,
    pub akey: Option<String>,
    pub enc: &'static str,
    pub ekey: Option<String>,
}
impl Side {
    pub fn args(&self) -> Vec<String> {
        let mut v: Vec<String> = vec!["-t".into(), self.transport.into()];
        v.extend(["-a".into(), self.auth.into(), "-e".into(), self.enc.into()]);
        if let Some(k) = &self.akey {
            v.push(format!("--akey={}", k));
        }
        if let Some(k) = &self.ekey {
            v.push(format!("--ekey={}", k));
        }
        v
    }
    /// Do the two use the same keys and choices?
    fn like(&self, o: &Side) -> bool {
        self.transport == o.transport && self.auth == o.auth && self.enc == o.enc && (self.auth == "none" || self.akey == o.akey) && (self.enc == "none" || self.ekey == o.ekey)
    }
    fn same_enc(&self, o: &Side) -> bool {
        self.enc == o.enc && (self.enc == "none" || self.ekey == o.ekey)
    }
    fn valid(&self) -> bool {
        (self.auth == "none" || self.akey.is_some()) && (self.enc == "none" || self.ekey.as_ref().map(|k| k.len()) == Some(ENCS.iter().find(|e| e.0 == self.enc).unwrap().1))
    }
}
pub type Res = Result<(), String>;
pub type Running = Pin<Box<dyn Future<Output = Res>>>;
pub fn program(args: Vec<String>) -> Running {
    match Opts::try_parse_from(std::iter::once("over-there".to_string()).chain(args.iter().cloned())) {
        Ok(o) => Box::pin(async move { cli_run(o).await.map_err(|e| e.to_string()) }),
        Err(e) => Box::pin(async move { Err(e.to_string()) }),
    }
}

/// A runtime on which servers and clients run as the program runs them.
pub struct Cli {
    rt: Option<tokio::runtime::Runtime>,
    tick: TickReg,
    servers: Vec<Running>,
    pub dir: Scratch,
    pub addr: Option<std::net::SocketAddr>,
}
pub enum End {
    Done(Res),
    Panicked(String),
    Still,
}
impl Cli {
    pub fn new() -> Cli {
        freeze_clock();
        Cli::live()
    }
    /// On the real clock, unless it has been frozen.
    pub fn live() -> Cli {
        let rt = tokio::runtime::Builder::new().basic_scheduler().enable_all().max_threads(8).build().unwrap();
        Cli { rt: Some(rt), tick: TickReg::new(), servers: vec![], dir: Scratch::new("cli"), addr: None }
    }
    pub fn path(&self, p: &str) -> String {
        self.dir.path().join(p).to_string_lossy().to_string()
    }
    /// Poll `f` for `turns` turns of the runtime or, with `turns` == None,
    /// until it ends or `limit` of real time is over.
    pub fn drive(&mut self, f: &mut Running, turns: Option<usize>, limit: Duration) -> End {
        let end = real_now() + limit;
        let mut n = 0;
        let tick = &self.tick;
        let rt = self.rt.as_mut().unwrap();
        let r = std::panic::catch_unwind(AssertUnwindSafe(|| {
            rt.block_on(futures::future::poll_fn(|cx| {
                if let Poll::Ready(x) = f.as_mut().poll(cx) {
                    return Poll::Ready(Some(x));
                }
                n += 1;
                match turns {
                    Some(t) if n > t => return Poll::Ready(None),
                    Some(_) => cx.waker().wake_by_ref(),
                    None => {
                        if real_now() >= end {
                            return Poll::Ready(None);
                        }
                        tick.0.register(cx.waker());
                    }
                }
                Poll::Pending
            }))
        }));
        match r {
            Ok(Some(x)) => End::Done(x),
            Ok(None) => End::Still,
            Err(_) => End::Panicked(take_panic().map(|p| p.1).unwrap_or_default()),
        }
    }
    /// Start a server on a fresh port; Err if it does not stay up.
    pub fn serve(&mut self, args: Vec<String>) -> Result<(), String> {
        take_bound();
        let mut v = vec!["server".to_string(), "127.0.0.1:0".into()];
        v.extend(args);
        let mut f = program(v);
        match self.drive(&mut f, Some(20), Duration::default()) {
            End::Done(r) => Err(format!("ended: {:?}", r)),
            End::Panicked(m) => Err(format!("panicked: {}", m)),
            End::Still => match take_bound().last() {
                None => Err("runs without an address".into()),
                Some(a) => {
                    self.addr = Some(*a);
                    self.servers.push(f);
                    Ok(())
                }
            },
        }
    }
    pub fn client(&self, side: &[String], command: &[String]) -> Running {
        let mut v = vec!["client".to_string(), self.addr.unwrap().to_string()];
        v.extend(side.iter().cloned());
        v.extend(command.iter().cloned());
        program(v)
    }
    /// Run a client that is expected to succeed.
    pub fn ask(&mut self, side: &[String], command: &[String]) -> End {
        let mut f = self.client(side, command);
        self.drive(&mut f, None, Duration::from_secs(5))
    }
    /// Run a client that is expected to fail: nothing else happens any more,
    /// so let the time it waits for an answer go by.
    pub fn ask_in_vain(&mut self, side: &[String], command: &[String]) -> End {
        let mut f = self.client(side, command);
        self.in_vain(&mut f)
    }
    fn in_vain(&mut self, f: &mut Running) -> End {
        match self.drive(f, Some(40), Duration::default()) {
            End::Still => {
                advance_clock(Duration::from_secs(60));
                self.drive(f, None, Duration::from_secs(5))
            }
            e => e,
        }
    }
}
impl Drop for Cli {
    fn drop(&mut self) {
        if let Some(rt) = self.rt.take() {
            rt.shutdown_timeout(Duration::from_millis(500));
        }
    }
}
pub fn strings(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}

// ------------------------------------------------------------------- checks
type Bad = (String, String);
fn bad<T>(k: &str, what: String) -> Result<T, Bad> {
    Err((k.into(), what))
}
/// A key of `n` bytes.
pub fn key(n: usize, shift: u8) -> String {
    (0..n).map(|i| (b'a' + ((i as u8).wrapping_mul(7).wrapping_add(shift)) % 26) as char).collect()
}
const BIG: usize = 6000;

/// Keys of `n` bytes that are alike except for blanks and letter case.
fn odd_keys(n: usize) -> Vec<String> {
    let k = |m: usize| key(m, 5);
    vec![k(n), k(n).to_uppercase(), format!("{} ", k(n - 1)), format!(" {}", k(n - 1)), format!("{}\n", k(n - 1)), format!("\t{}", k(n - 1)), format!("{}  ", k(n - 2)), format!(" {} ", k(n - 2)), format!("{} {}", k(2), &k(n - 1)[2..]), " ".repeat(n), "=".repeat(n), format!("{}==", k(n - 2)), format!("0x{}", k(n - 2)), "00".repeat(n / 2), format!("\"{}\"", k(n - 2))]
}
/// Start one side alone and tell whether it starts.
fn start_case(side: &Side, server: bool) -> Result<bool, Bad> {
    let mut w = Cli::new();
    if server {
        return Ok(w.serve(side.args()).is_ok());
    }
    // something silent to talk to
    let udp = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    let tcp = std::net::TcpListener::bind(udp.local_addr().unwrap());
    udp.set_nonblocking(true).unwrap();
    let tcp = match tcp {
        Ok(t) => t,
        // the port is taken: use another one for TCP
        Err(_) => std::net::TcpListener::bind("127.0.0.1:0").unwrap(),
    };
    tcp.set_nonblocking(true).unwrap();
    w.addr = Some(if side.transport == "udp" { udp.local_addr().unwrap() } else { tcp.local_addr().unwrap() });
    let mut f = w.client(&side.args(), &strings(&["version"]));
    let r = w.drive(&mut f, Some(40), Duration::default());
    let mut buf = [0u8; 2000];
    let spoke = if side.transport == "udp" {
        udp.recv(&mut buf).is_ok()
    } else {
        match tcp.accept() {
            Ok((mut s, _)) => {
                s.set_nonblocking(true).unwrap();
                matches!(std::io::Read::read(&mut s, &mut buf), Ok(n) if n > 0)
            }
            Err(_) => false,
        }
    };
    match (r, spoke) {
        (End::Still, true) => Ok(true),
        (End::Done(Err(_)) | End::Panicked(_), false) => Ok(false),
        (End::Done(Ok(())), _) => bad("client-success", "the client reports success without an answer".into()),
        (End::Still, false) => bad("client-stuck", "the client neither asks nor fails".into()),
        (_, true) => bad("client-refused-late", "the client fails after it has sent its request".into()),
    }
}

fn exists(p: &Path) -> bool {
    std::fs::symlink_metadata(p).is_ok()
}
/// One server and every client against it.
fn world(ctx: &Ctx, server: &Side, clients: &[Side]) -> Result<(), (Bad, Option<Side>)> {
    let mut w = Cli::new();
    if let Err(e) = w.serve(server.args()) {
        return Err((("start".into(), format!("the server does not start: {}", e)), None));
    }
    let mut never: Vec<(PathBuf, Side)> = vec![];
    for (i, c) in clients.iter().chain(std::iter::once(server)).enumerate() {
        last_case(|| format!("server {:?} client {:?}", server, c));
        ctx.transitions.fetch_add(1, Ordering::Relaxed);
        ctx.traces.fetch_add(1, Ordering::Relaxed);
        ctx.states.fetch_add(1, Ordering::Relaxed);
        let d = w.path(&format!("d{}", i));
        let here = |b: Bad| (b, Some(c.clone()));
        if c.like(server) {
            let (f, o) = (w.path(&format!("f{}", i)), w.path(&format!("o{}", i)));
            let text = key(BIG, i as u8);
            for cmd in [vec!["--redirect-stdout", "/dev/null", "mk-dir", d.as_str()], vec!["--redirect-stdout", "/dev/null", "write-file", f.as_str(), text.as_str()], vec!["--redirect-stdout", o.as_str(), "read-file", f.as_str()]] {
                match w.ask(&c.args(), &strings(&cmd)) {
                    End::Done(Ok(())) => (),
                    End::Done(Err(e)) => return Err(here(("refused".into(), format!("{} fails: {}", cmd[2], e)))),
                    End::Panicked(e) => return Err(here(("refused".into(), format!("{} panics: {}", cmd[2], e)))),
                    End::Still => return Err(here(("silent".into(), format!("{} gets no answer", cmd[2])))),
                }
            }
            if !exists(Path::new(&d)) {
                return Err(here(("no-effect".into(), "the directory asked for does not exist".into())));
            }
            match std::fs::read_to_string(&o) {
                Ok(s) if s == text => (),
                Ok(s) => return Err(here(("wrong-reply".into(), format!("read back {} bytes instead of the {} written", s.len(), text.len())))),
                Err(e) => return Err(here(("wrong-reply".into(), format!("no output: {}", e)))),
            }
            ctx.outcome("understood");
        } else {
            match w.ask_in_vain(&c.args(), &strings(&["--redirect-stdout", "/dev/null", "mk-dir", &d])) {
                End::Done(Ok(())) => return Err(here(("acted-on-reply".into(), "the client takes the reply of a server with other options".into()))),
                End::Done(Err(_)) | End::Panicked(_) => (),
                End::Still => return Err(here(("client-hang".into(), "the client waits for ever".into()))),
            }
            // a server told not to authenticate takes any signature
            if !(c.transport == server.transport && server.auth == "none" && c.same_enc(server)) {
                never.push((d.into(), c.clone()));
            }
            ctx.outcome("kept apart");
        }
    }
    let dir = std::mem::replace(&mut w.dir, Scratch::new("cli"));
    drop(w);
    for (d, c) in never {
        if exists(&d) {
            return Err((("acted-on-request".into(), "the server acts on the request of a client with other options".into()), Some(c)));
        }
    }
    drop(dir);
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    // 1. start-up
    let mut starts = vec![];
    for transport in TRANSPORTS {
        for auth in AUTHS {
            for (enc, need) in ENCS {
                let akey = Some(key(5, 0));
                let at = |akey: Option<String>, ekey: Option<String>| Side { transport, auth, akey, enc, ekey };
                starts.push(at(None, None));
                starts.push(at(akey.clone(), None));
                starts.push(at(None, Some(key(need.max(1), 0))));
                for n in (if enc == "none" { 1 } else { 0 })..=70 {
                    if auth == "none" || !ctx.quick() || n % 8 < 2 || n + 2 > need && n < need + 3 {
                        starts.push(at(akey.clone(), Some(key(n, 3))));
                    }
                }
                for n in [need / 2, need].iter().copied().filter(|n| *n > 0) {
                    // as many characters, but of more than one byte each
                    starts.push(at(akey.clone(), Some("é".repeat(n))));
                }
                // every byte counts, whatever it is
                if need > 0 {
                    for k in odd_keys(need).into_iter().chain(odd_keys(need).into_iter().flat_map(|k| [format!("{} ", k), format!("{}\n", k), format!(" {}", k), k.trim().to_string()])) {
                        starts.push(at(akey.clone(), Some(k)));
                    }
                }
                for n in 1..=70 {
                    if enc == "none" {
                        starts.push(at(Some(key(n, 1)), None));
                    }
                }
            }
        }
    }
    let starts: Vec<(Side, bool)> = starts.into_iter().flat_map(|s| [(s.clone(), true), (s, false)]).collect();
    ctx.note("start_ups", starts.len() as u64);
    par_items(ctx, &starts, |ctx, i, (s, server)| {
        last_case(|| format!("start {:?} server {}", s, server));
        ctx.states.fetch_add(1, Ordering::Relaxed);
        ctx.transitions.fetch_add(1, Ordering::Relaxed);
        ctx.traces.fetch_add(1, Ordering::Relaxed);
        let case = || json!({"options": s.args(), "side": if *server { "server" } else { "client" }});
        match start_case(s, *server) {
            Err(b) => ctx.violation(&b.0, &b.1, case()),
            Ok(started) if started != s.valid() => ctx.violation(
                if started { "started" } else { "refused-start" },
                if started { "the program starts although a key is missing or has the wrong length" } else { "the program does not start with options it offers" },
                case(),
            ),
            Ok(started) => {
                ctx.outcome(if started { "starts" } else { "refused" });
                if i % 997 == 3 {
                    ctx.sample(case());
                }
            }
        }
    });

    // 2. every pair of configurations
    let mut sides = vec![];
    for transport in TRANSPORTS {
        for auth in AUTHS {
            for a in 0..if auth == "none" { 1 } else { 2u8 } {
                for (enc, n) in ENCS {
                    for e in 0..if enc == "none" { 1 } else { 2u8 } {
                        sides.push(Side { transport, auth, akey: if auth == "none" { None } else { Some(key(20, a)) }, enc, ekey: if enc == "none" { None } else { Some(key(n, e)) } });
                    }
                }
            }
        }
    }
    let mut worlds: Vec<(Side, Vec<Side>)> = sides.iter().map(|s| (s.clone(), sides.clone())).collect();
    // 3. keys that differ a little
    for transport in TRANSPORTS {
        for (enc, n) in ENCS.iter().skip(1) {
            let k = key(*n, 0);
            let server = Side { transport, auth: "none", akey: None, enc, ekey: Some(k.clone()) };
            let mut cs = vec![];
            for i in 0..*n {
                let mut b = k.clone().into_bytes();
                b[i] ^= 1 << (i % 3);
                cs.push(Side { ekey: Some(String::from_utf8(b).unwrap()), ..server.clone() });
            }
            worlds.push((server, cs));
            // blanks and case
            let at = |k: &String| Side { transport, auth: "none", akey: None, enc, ekey: Some(k.clone()) };
            let all = odd_keys(*n);
            for k in &all {
                worlds.push((at(k), all.iter().map(at).collect()));
            }
        }
        for auth in &AUTHS[1..] {
            let at = |k: &String| Side { transport, auth, akey: Some(k.clone()), enc: "none", ekey: None };
            let mut all = odd_keys(20);
            all.extend(["secret", "secret ", " secret", " secret ", "secret\n", "Secret", "SECRET", "secret\t", "sec ret", "secretsecret", "s"].iter().map(|s| s.to_string()));
            for k in &all {
                worlds.push((at(k), all.iter().map(at).collect()));
            }
            for n in [1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200] {
                let k = key(n, 0);
                let server = Side { transport, auth, akey: Some(k.clone()), enc: "none", ekey: None };
                let mut cs: Vec<Side> = (0..n)
                    .map(|i| {
                        let mut b = k.clone().into_bytes();
                        b[i] ^= 1 << (i % 3);
                        Side { akey: Some(String::from_utf8(b).unwrap()), ..server.clone() }
                    })
                    .collect();
                cs.push(Side { akey: Some(format!("{}a", k)), ..server.clone() });
                if n > 1 {
                    cs.push(Side { akey: Some(k[1..].into()), ..server.clone() });
                    cs.push(Side { akey: Some(k[..n - 1].into()), ..server.clone() });
                }
                worlds.push((server, cs));
            }
        }
    }
    ctx.note("servers", worlds.len() as u64);
    ctx.note("pairs", worlds.iter().map(|w| w.1.len() as u64 + 1).sum::<u64>());
    par_items(ctx, &worlds, |ctx, i, (s, cs)| {
        match world(ctx, s, cs) {
            Ok(()) => {
                if i % 23 == 1 {
                    ctx.sample(json!({"server": s.args(), "clients": cs.len()}));
                }
            }
            Err((b, c)) => ctx.violation(&b.0, &b.1, json!({"server": s.args(), "client": c.map(|c| c.args())})),
        }
    });
    ctx.finish(
        "model_checking",
        "every command line configuration of both programs (transport x authentication x encryption x key) is started for real, and every pair of configurations exchanges requests: the same options must be understood (including payloads of several packets), different ones must have no effect on either side; every key length 0..70 must be refused or accepted at start-up as documented",
        true,
        &["whether random bytes that an unkeyed side receives happen to decode as a message is left out: the chance is negligible", "a server told not to authenticate may act on signed requests: it takes any signature"],
    )
}
