//! C11: a client's ask gets its own reply or fails in bounded time.  A real
//! client talks to a scripted server; every sequence of arrivals, losses,
//! delays and transport errors up to a depth is run under a frozen clock.
use crate::core::*;
use crate::interpose::*;
use crate::msgs::kind;
use crate::rig::*;
use over_there::core::transport::auth::NoopAuthenticator;
use over_there::core::transport::crypto::NoopBicrypter;
use over_there::core::{reply::*, request, AskError, ClientBuilder, ConnectedClient, Content, ExecAskError, FileAskError, Header, Msg, RemoteFile, RemoteProc, Reply, ReplyError, Request, Transport};
use serde_json::json;
use std::cell::RefCell;
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::sync::atomic::Ordering;
use std::time::Duration;

type Bad = (&'static str, String);
const TIMEOUT: Duration = Duration::from_millis(4000);
/// one step of time: three are more than the timeout, two are less
const TICK: Duration = Duration::from_millis(1900);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum E {
    /// the reply to the current ask (or the one before)
    Rep,
    RepOld,
    /// a general error in answer to it
    Fail,
    FailOld,
    /// an I/O error in answer to it
    Io,
    /// a reply to nothing anybody asked
    Unknown,
    Orphan,
    /// a request that claims to belong to the ask
    Asked,
    Garbage,
    Empty,
    /// only the first packet of a reply
    Part,
    /// its reply, from elsewhere
    Foreign,
    Tick,
    /// the caller gives up (if waiting) and asks the next
    Next,
    /// the client's socket reports an error
    RecvError(i32),
    /// the next sending fails
    SendError(i32),
    /// nobody is listening (until the next Up)
    Down,
    Up,
}
use E::*;

struct World {
    rt: tokio::runtime::Runtime,
    client: ConnectedClient,
    server: Option<Peer>,
    other: Peer,
    addr: SocketAddr,
    /// where the client sends from
    at: SocketAddr,
    fd: i32,
    asks: u64,
    dead: bool,
    /// the general error text for an ask
    n: u8,
}
fn fd_connected_to(addr: SocketAddr) -> i32 {
    for fd in 3..4096 {
        unsafe {
            let mut a: libc::sockaddr_in = std::mem::zeroed();
            let mut l = std::mem::size_of::<libc::sockaddr_in>() as u32;
            if libc::getpeername(fd, &mut a as *mut _ as *mut _, &mut l) == 0 && a.sin_family == libc::AF_INET as u16 && u16::from_be(a.sin_port) == addr.port() {
                return fd;
            }
        }
    }
    panic!("client socket not found");
}
impl World {
    fn new() -> World {
        freeze_clock();
        let mut rt = tokio::runtime::Builder::new().basic_scheduler().enable_all().max_threads(4).build().unwrap();
        let (client, server, other, addr) = rt.block_on(async {
            let mut server = new_peer().await;
            server.sock = own_port().await;
            let other = new_peer().await;
            let addr = server.sock.local_addr().unwrap();
            let client = ClientBuilder::default()
                .transport(Transport::Udp(vec![addr]))
                .authenticator(NoopAuthenticator)
                .bicrypter(NoopBicrypter)
                .packet_ttl(Duration::from_secs(100_000))
                .build()
                .expect("client configuration")
                .connect()
                .await
                .expect("client start");
            (client, server, other, addr)
        });
        let fd = fd_connected_to(addr);
        let at = unsafe {
            let mut a: libc::sockaddr_in = std::mem::zeroed();
            let mut l = std::mem::size_of::<libc::sockaddr_in>() as u32;
            assert_eq!(libc::getsockname(fd, &mut a as *mut _ as *mut _, &mut l), 0);
            SocketAddr::from(([127, 0, 0, 1], u16::from_be(a.sin_port)))
        };
        let mut client = client;
        client.timeout = TIMEOUT;
        World { rt, client, server: Some(server), other, addr, at, fd, asks: 0, dead: false, n: 0 }
    }
}
thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
}
fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|x| {
        let mut x = x.borrow_mut();
        if x.as_ref().map(|x| x.dead || x.asks > 3_000).unwrap_or(true) {
            if let Some(w) = x.take() {
                w.rt.shutdown_timeout(Duration::from_millis(200));
            }
            *x = Some(World::new());
        }
        f(x.as_mut().unwrap())
    })
}
async fn rounds(n: usize) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}
/// Send packets and wait until the client has taken them from its socket.
async fn deliver(p: &mut Peer, at: SocketAddr, packets: &[Vec<u8>]) -> Result<(), Bad> {
    for b in packets {
        let before = received();
        p.sock.send_to(b, at).await.expect("loopback send");
        let t = real_now();
        while received() == before {
            tokio::task::yield_now().await;
            if real_now() - t > Duration::from_secs(3) {
                return Err(("deaf", "the client no longer takes what arrives at its socket".into()));
            }
        }
    }
    rounds(25).await;
    Ok(())
}
fn message(c: Content, parent: Option<u32>) -> Msg {
    let mut m = Msg::from(c);
    m.parent_header = parent.map(|id| Header { id, ..Header::default() });
    m
}
fn packets(p: &mut Peer, m: &Msg) -> Vec<Vec<u8>> {
    p.outw.process(&m.to_vec().expect("encodes")).expect("packets")
}
/// The next message at the server.
async fn incoming(p: &mut Peer, limit: Duration) -> Option<Msg> {
    let mut buf = vec![0u8; 70_000];
    real_timeout(limit, async {
        loop {
            let (n, _) = p.sock.recv_from(&mut buf).await.expect("loopback recv");
            if let Ok(Some(d)) = p.inw.process(&buf[..n]) {
                return Msg::from_slice(&d).expect("the client's message decodes");
            }
        }
    })
    .await
}
type Ask<'a> = Pin<Box<dyn Future<Output = Result<Reply, AskError>> + 'a>>;
#[derive(Debug, Clone, PartialEq)]
enum Res {
    Pending,
    Done(Result<Reply, AskError2>),
}
#[derive(Debug, Clone, PartialEq)]
enum AskError2 {
    Failure(String),
    Timeout,
    Send,
    Other(String),
}
fn plain(r: Result<Reply, AskError>) -> Result<Reply, AskError2> {
    r.map_err(|e| match e {
        AskError::Failure { msg } => AskError2::Failure(msg),
        AskError::Timeout => AskError2::Timeout,
        AskError::SendFailed => AskError2::Send,
        x => AskError2::Other(format!("{:?}", x)),
    })
}
fn custom(v: Vec<u8>) -> Reply {
    Reply::Custom(CustomArgs { data: v })
}

async fn script(ctx: &Ctx, w: &mut World, seq: &[E], rest: &mut Vec<Vec<u8>>) -> Result<(), Bad> {
    let World { client, server, other, addr, at, fd, asks, n, .. } = w;
    let (addr, at, fd) = (*addr, *at, *fd);
    let mut old: Option<u32> = None;
    let mut left: std::collections::VecDeque<E> = seq.iter().copied().collect();
    let mut last = false;
    let mut send_error: Option<i32> = None;
    loop {
        // one ask after another
        *n = n.wrapping_add(1);
        let tag = *n;
        *asks += 1;
        let mut can_fail_to_send = server.is_none();
        if let Some(e) = send_error.take() {
            can_fail_to_send = true;
            script_fd(fd, IoScript { writes: vec![IoStep::Errno(e)].into(), ..Default::default() });
        }
        let mut fut: Ask = Box::pin(client.ask(Request::Custom(request::CustomArgs { data: vec![tag] })));
        let mut res = Res::Pending;
        macro_rules! poll {
            ($n:expr) => {
                for _ in 0..$n {
                    if res == Res::Pending {
                        if let std::task::Poll::Ready(x) = futures::poll!(fut.as_mut()) {
                            res = Res::Done(plain(x));
                        }
                    }
                    tokio::task::yield_now().await;
                }
            };
        }
        poll!(25);
        let sent_failed = can_fail_to_send && unscript_fd(fd).map(|s| s.write_calls > 0).unwrap_or(false);
        let mut current: Option<u32> = None;
        if let Some(s) = server.as_mut() {
            match incoming(s, Duration::from_millis(if sent_failed { 5 } else { 3000 })).await {
                None if sent_failed => (),
                None => return Err(("mute", format!("the client's ask never reached the server (ask: {:?})", res))),
                Some(m) => match m.content {
                    Content::Request(Request::Custom(x)) if x.data == [tag] && m.parent_header.is_none() => current = Some(m.header.id),
                    x => return Err(("request", format!("the client asked {:?} instead of {:?}", x, tag))),
                },
            }
        }
        if server.is_none() {
            // the kernel reports the missing receiver on the socket
            poll!(25);
        }
        let mut want = Res::Pending;
        let mut time = Duration::from_secs(0);
        macro_rules! check {
            ($what:expr) => {{
                // what is expected to be there gets the time to arrive
                let t = real_now();
                poll!(4);
                while res == Res::Pending && want != Res::Pending && real_now() - t < Duration::from_secs(3) {
                    poll!(8);
                }
                let fine = res == want || (can_fail_to_send && res == Res::Done(Err(AskError2::Send)) && (want == Res::Pending || want == Res::Done(Err(AskError2::Timeout))));
                if !fine {
                    return Err((if res == Res::Pending { "late" } else { "answer" }, format!("after {:?} the ask is {:?}, expected {:?}", $what, res, want)));
                }
            }};
        }
        check!(E::Next);
        let mut again = false;
        while let Some(e) = left.pop_front() {
            ctx.transitions.fetch_add(1, Ordering::Relaxed);
            let ours: Option<(Option<u32>, Content, bool)> = match e {
                Rep => current.map(|id| (Some(id), Content::Reply(custom(vec![tag, left.len() as u8])), true)),
                Fail => current.map(|id| (Some(id), Content::Reply(Reply::Error(ReplyError::Generic(GenericErrorArgs { msg: format!("no {} {}", tag, left.len()) }))), true)),
                Io => current.map(|id| (Some(id), Content::Reply(Reply::Error(ReplyError::Io(IoErrorArgs { description: format!("{}", left.len()), os_code: Some(2), error_kind: SerErrorKind::NotFound }))), true)),
                RepOld => old.map(|id| (Some(id), Content::Reply(custom(vec![tag.wrapping_sub(1), 99])), false)),
                FailOld => old.map(|id| (Some(id), Content::Reply(Reply::Error(ReplyError::Generic(GenericErrorArgs { msg: "old".into() }))), false)),
                Unknown => current.map(|id| (Some(id ^ 1), Content::Reply(custom(vec![tag, 98])), false)),
                Orphan => Some((None, Content::Reply(custom(vec![tag, 97])), false)),
                Asked => current.map(|id| (Some(id), Content::Request(Request::Heartbeat), false)),
                _ => None,
            };
            if let (Some((parent, content, counts)), Some(s)) = (ours, server.as_mut()) {
                let ps = packets(s, &message(content.clone(), parent));
                deliver(s, at, &ps).await?;
                if counts && want == Res::Pending {
                    want = Res::Done(match content {
                        Content::Reply(Reply::Error(ReplyError::Generic(g))) => Err(AskError2::Failure(g.msg)),
                        Content::Reply(r) => Ok(r),
                        _ => unreachable!(),
                    });
                    if sent_failed {
                        // an ask that failed stays failed
                        poll!(1);
                    }
                }
            }
            match (e, server.as_mut()) {
                (Garbage, Some(s)) => {
                    let v: Vec<u8> = vec![0xff, 0x00, 0x9f, 0xa1];
                    deliver(s, at, &[v]).await?;
                    // well-formed packets around something that is no message
                    let ps = s.outw.process(&[0x80, 1, 2]).unwrap();
                    deliver(s, at, &ps).await?;
                }
                (Empty, Some(s)) => deliver(s, at, &[vec![]]).await?,
                (Part, Some(s)) => {
                    if let Some(id) = current {
                        let ps = packets(s, &message(Content::Reply(custom(vec![7; 600])), Some(id)));
                        assert!(ps.len() > 1);
                        deliver(s, at, &ps[..1]).await?;
                    }
                }
                (Foreign, _) => {
                    if let Some(id) = current {
                        for p in packets(other, &message(Content::Reply(custom(vec![tag, 96])), Some(id))) {
                            let _ = other.sock.send_to(&p, at).await;
                        }
                        poll!(25);
                    }
                }
                (Tick, _) => {
                    advance_clock(TICK);
                    time += TICK;
                    if time > TIMEOUT && want == Res::Pending {
                        want = Res::Done(Err(AskError2::Timeout));
                    }
                }
                (Next, _) => again = true,
                (RecvError(x), Some(s)) => {
                    // the reader wakes up for an unrelated reply and finds an error first
                    script_fd(fd, IoScript { reads: vec![IoStep::Errno(x)].into(), ..Default::default() });
                    let ps = packets(s, &message(Content::Reply(custom(vec![95])), None));
                    let before = received();
                    s.sock.send_to(&ps[0], at).await.expect("loopback send");
                    let t = real_now();
                    while received() < before + 2 {
                        poll!(2);
                        if real_now() - t > Duration::from_secs(3) {
                            return Err(("deaf", format!("after its socket reported error {} the client no longer takes what arrives", x)));
                        }
                    }
                    poll!(25);
                    unscript_fd(fd);
                }
                (SendError(x), _) => send_error = Some(x),
                (Down, Some(_)) => *server = None,
                (Up, None) => {
                    let mut p = new_peer().await;
                    p.sock = tokio::net::UdpSocket::bind(addr).await.expect("the server's port is free again");
                    *server = Some(p);
                    poll!(25);
                }
                _ => (),
            }
            check!(e);
            if again {
                break;
            }
        }
        ctx.outcome(match &res {
            Res::Pending => "given up",
            Res::Done(Ok(Reply::Error(_))) => "error reply",
            Res::Done(Ok(_)) => "reply",
            Res::Done(Err(AskError2::Failure(_))) => "failure",
            Res::Done(Err(AskError2::Timeout)) => "timeout",
            Res::Done(Err(AskError2::Send)) => "not sent",
            _ => "other",
        });
        if current.is_some() {
            old = current;
        }
        if again {
            continue;
        }
        if last {
            return Ok(());
        }
        // whatever happened, the next ask works
        last = true;
        left = vec![RepOld, Rep].into();
        if server.is_none() {
            let mut p = new_peer().await;
            p.sock = tokio::net::UdpSocket::bind(addr).await.expect("the server's port is free again");
            *server = Some(p);
        }
        send_error = None;
        rest.clear();
        drop(fut);
        rounds(25).await;
    }
}
/// A port nobody else gets, so that it can be left and taken again: on an
/// address of this process, outside of the range of ephemeral ports.
async fn own_port() -> tokio::net::UdpSocket {
    static NEXT: std::sync::atomic::AtomicU16 = std::sync::atomic::AtomicU16::new(0);
    let pid = std::process::id();
    let ip = std::net::Ipv4Addr::new(127, 1 + (pid >> 16) as u8 % 200, (pid >> 8) as u8, pid as u8);
    loop {
        let n = NEXT.fetch_add(1, Ordering::SeqCst);
        match tokio::net::UdpSocket::bind((ip, 10_000 + n % 20_000)).await {
            Ok(s) => return s,
            Err(e) => assert!(n < 30_000, "no port is free: {}", e),
        }
    }
}
fn case(ctx: &Ctx, seq: &[E]) {
    last_case(|| format!("{:?}", seq));
    ctx.traces.fetch_add(1, Ordering::Relaxed);
    ctx.states.fetch_add(1, Ordering::Relaxed);
    with(|w| {
        let mut rt = std::mem::replace(&mut w.rt, tokio::runtime::Builder::new().build().unwrap());
        let mut rest = vec![];
        let r = rt.block_on(script(ctx, w, seq, &mut rest));
        w.rt = rt;
        unscript_fd(w.fd);
        if let Err(b) = r {
            w.dead = true;
            ctx.violation(b.0, &b.1, json!({"events": format!("{:?}", seq)}));
        }
    });
}

// ------------------------------------------------------------- typed asks
#[derive(Debug)]
enum Err3 {
    General(AskError),
    Io(std::io::ErrorKind, Option<i32>, String),
    Sig(u32),
    Other(String),
}
fn gen(e: AskError) -> Err3 {
    Err3::General(e)
}
fn io(e: std::io::Error) -> Err3 {
    Err3::Io(e.kind(), e.raw_os_error(), e.to_string())
}
fn file(e: FileAskError) -> Err3 {
    match e {
        FileAskError::GeneralAskFailed(x) => gen(x),
        FileAskError::IoError(x) => io(x),
        FileAskError::FileSignatureChanged { id } => Err3::Sig(id),
    }
}
fn exec(e: ExecAskError) -> Err3 {
    match e {
        ExecAskError::GeneralAskFailed(x) => gen(x),
        ExecAskError::IoError(x) => io(x),
        x => Err3::Other(format!("{:?}", x)),
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Class {
    General,
    File,
    Exec,
}
struct Typed {
    name: &'static str,
    class: Class,
    /// the request it has to send
    request: Request,
    /// the kind of reply it wants
    wants: &'static str,
    /// it keeps the signature of such a reply
    keeps: bool,
}
const FILE: (u32, u32) = (0x0102_0304, 0xf1f2_f3f4);
fn rf() -> RemoteFile {
    RemoteFile::from(FileOpenedArgs { id: FILE.0, sig: FILE.1, path: "p/q".into(), read: true, write: true })
}
fn typed() -> Vec<Typed> {
    use over_there::core::request::*;
    let t = |name, class, request, wants, keeps| Typed { name, class, request, wants, keeps };
    let (id, sig) = FILE;
    use Class::*;
    vec![
        t("heartbeat", General, Request::Heartbeat, "Heartbeat", false),
        t("version", General, Request::Version, "Version", false),
        t("capabilities", General, Request::Capabilities, "Capabilities", false),
        t("internal_debug", General, Request::InternalDebug(InternalDebugArgs { input: vec![] }), "InternalDebug", false),
        t("create_dir", File, Request::CreateDir(CreateDirArgs { path: "a/b".into(), include_components: true }), "DirCreated", false),
        t("create_dir_plain", File, Request::CreateDir(CreateDirArgs { path: "a".into(), include_components: false }), "DirCreated", false),
        t("rename_dir", File, Request::RenameDir(RenameDirArgs { from: "x".into(), to: "y".into() }), "DirRenamed", false),
        t("remove_dir", File, Request::RemoveDir(RemoveDirArgs { path: "r".into(), non_empty: true }), "DirRemoved", false),
        t("remove_dir_plain", File, Request::RemoveDir(RemoveDirArgs { path: "r".into(), non_empty: false }), "DirRemoved", false),
        t("list_root", File, Request::ListDirContents(ListDirContentsArgs { path: ".".into() }), "DirContentsList", false),
        t("list", File, Request::ListDirContents(ListDirContentsArgs { path: "l".into() }), "DirContentsList", false),
        t("open", File, Request::OpenFile(OpenFileArgs { path: "o".into(), create_if_missing: true, write_access: true, read_access: true }), "FileOpened", false),
        t("open_c", File, Request::OpenFile(OpenFileArgs { path: "o".into(), create_if_missing: true, write_access: false, read_access: false }), "FileOpened", false),
        t("open_w", File, Request::OpenFile(OpenFileArgs { path: "o".into(), create_if_missing: false, write_access: true, read_access: false }), "FileOpened", false),
        t("open_r", File, Request::OpenFile(OpenFileArgs { path: "o".into(), create_if_missing: false, write_access: false, read_access: true }), "FileOpened", false),
        t("close", File, Request::CloseFile(CloseFileArgs { id, sig }), "FileClosed", false),
        t("rename_file", File, Request::RenameFile(RenameFileArgs { id, sig, to: "t".into() }), "FileRenamed", true),
        t("rename_unopened", File, Request::RenameUnopenedFile(RenameUnopenedFileArgs { from: "f".into(), to: "t".into() }), "UnopenedFileRenamed", false),
        t("remove_file", File, Request::RemoveFile(RemoveFileArgs { id, sig }), "FileRemoved", true),
        t("remove_unopened", File, Request::RemoveUnopenedFile(RemoveUnopenedFileArgs { path: "u".into() }), "UnopenedFileRemoved", false),
        t("read", File, Request::ReadFile(ReadFileArgs { id, sig }), "FileContents", false),
        t("write", File, Request::WriteFile(WriteFileArgs { id, sig, contents: vec![0, 255, 3] }), "FileWritten", true),
        t("exec", Exec, Request::ExecProc(ExecProcArgs { command: "c".into(), args: vec!["1".into(), "".into()], stdin: true, stdout: true, stderr: true, current_dir: None }), "ProcStarted", false),
        t("exec_dir", Exec, Request::ExecProc(ExecProcArgs { command: "c".into(), args: vec![], stdin: true, stdout: true, stderr: true, current_dir: Some("d".into()) }), "ProcStarted", false),
        t("exec_i", Exec, Request::ExecProc(ExecProcArgs { command: "c".into(), args: vec![], stdin: true, stdout: false, stderr: false, current_dir: None }), "ProcStarted", false),
        t("exec_o", Exec, Request::ExecProc(ExecProcArgs { command: "c".into(), args: vec![], stdin: false, stdout: true, stderr: false, current_dir: Some("e".into()) }), "ProcStarted", false),
        t("exec_e", Exec, Request::ExecProc(ExecProcArgs { command: "c".into(), args: vec![], stdin: false, stdout: false, stderr: true, current_dir: None }), "ProcStarted", false),
        t("stdin", Exec, Request::WriteProcStdin(WriteProcStdinArgs { id: 9, input: vec![1, 0] }), "ProcStdinWritten", false),
        t("stdout", Exec, Request::ReadProcStdout(ReadProcStdoutArgs { id: 9 }), "ProcStdoutContents", false),
        t("stderr", Exec, Request::ReadProcStderr(ReadProcStderrArgs { id: 9 }), "ProcStderrContents", false),
        t("status", Exec, Request::ReadProcStatus(ReadProcStatusArgs { id: 9 }), "ProcStatus", false),
        t("kill", Exec, Request::KillProc(KillProcArgs { id: 9 }), "ProcKilled", false),
    ]
}
async fn call(c: &mut ConnectedClient, name: &str, f: &mut RemoteFile) -> Result<Reply, Err3> {
    let p = RemoteProc::shallow(9);
    let s = |x: &str| x.to_string();
    match name {
        "heartbeat" => c.ask_heartbeat().await.map(|_| Reply::Heartbeat).map_err(gen),
        "version" => c.ask_version().await.map(Reply::Version).map_err(gen),
        "capabilities" => c.ask_capabilities().await.map(Reply::Capabilities).map_err(gen),
        "internal_debug" => c.ask_internal_debug().await.map(Reply::InternalDebug).map_err(gen),
        "create_dir" => c.ask_create_dir(s("a/b"), true).await.map(Reply::DirCreated).map_err(file),
        "create_dir_plain" => c.ask_create_dir(s("a"), false).await.map(Reply::DirCreated).map_err(file),
        "rename_dir" => c.ask_rename_dir(s("x"), s("y")).await.map(Reply::DirRenamed).map_err(file),
        "remove_dir" => c.ask_remove_dir(s("r"), true).await.map(Reply::DirRemoved).map_err(file),
        "remove_dir_plain" => c.ask_remove_dir(s("r"), false).await.map(Reply::DirRemoved).map_err(file),
        "list_root" => c.ask_list_root_dir_contents().await.map(Reply::DirContentsList).map_err(file),
        "list" => c.ask_list_dir_contents(s("l")).await.map(Reply::DirContentsList).map_err(file),
        "open" => c.ask_open_file(s("o")).await.map(Reply::FileOpened).map_err(file),
        "open_c" => c.ask_open_file_with_options(s("o"), true, false, false).await.map(Reply::FileOpened).map_err(file),
        "open_w" => c.ask_open_file_with_options(s("o"), false, true, false).await.map(Reply::FileOpened).map_err(file),
        "open_r" => c.ask_open_file_with_options(s("o"), false, false, true).await.map(Reply::FileOpened).map_err(file),
        "close" => c.ask_close_file(f).await.map(Reply::FileClosed).map_err(file),
        "rename_file" => c.ask_rename_file(f, s("t")).await.map(Reply::FileRenamed).map_err(file),
        "rename_unopened" => c.ask_rename_unopened_file(s("f"), s("t")).await.map(Reply::UnopenedFileRenamed).map_err(file),
        "remove_file" => c.ask_remove_file(f).await.map(Reply::FileRemoved).map_err(file),
        "remove_unopened" => c.ask_remove_unopened_file(s("u")).await.map(Reply::UnopenedFileRemoved).map_err(file),
        "read" => c.ask_read_file(f).await.map(Reply::FileContents).map_err(file),
        "write" => c.ask_write_file(f, &[0, 255, 3]).await.map(Reply::FileWritten).map_err(file),
        "exec" => c.ask_exec_proc(s("c"), vec![s("1"), s("")]).await.map(Reply::ProcStarted).map_err(exec),
        "exec_dir" => c.ask_exec_proc_with_current_dir(s("c"), vec![], s("d")).await.map(Reply::ProcStarted).map_err(exec),
        "exec_i" => c.ask_exec_proc_with_options(s("c"), vec![], true, false, false, None).await.map(Reply::ProcStarted).map_err(exec),
        "exec_o" => c.ask_exec_proc_with_options(s("c"), vec![], false, true, false, Some(s("e"))).await.map(Reply::ProcStarted).map_err(exec),
        "exec_e" => c.ask_exec_proc_with_options(s("c"), vec![], false, false, true, None).await.map(Reply::ProcStarted).map_err(exec),
        "stdin" => c.ask_write_proc_stdin(&p, &[1, 0]).await.map(Reply::ProcStdinWritten).map_err(exec),
        "stdout" => c.ask_read_proc_stdout(&p).await.map(Reply::ProcStdoutContents).map_err(exec),
        "stderr" => c.ask_read_proc_stderr(&p).await.map(Reply::ProcStderrContents).map_err(exec),
        "status" => c.ask_read_proc_status(&p).await.map(Reply::ProcStatus).map_err(exec),
        "kill" => c.ask_proc_kill(&p).await.map(Reply::ProcKilled).map_err(exec),
        _ => unreachable!(),
    }
}
fn matches(t: &Typed, r: &Reply, got: &Result<Reply, Err3>) -> bool {
    match (r, got) {
        (Reply::Error(ReplyError::Generic(g)), Err(Err3::General(AskError::Failure { msg }))) => *msg == g.msg,
        (Reply::Error(ReplyError::Generic(_)), _) => false,
        (Reply::Error(ReplyError::Io(a)), Err(Err3::Io(k, code, text))) if t.class != Class::General => {
            let want: std::io::Error = a.clone().into();
            *k == want.kind() && *code == a.os_code && (a.os_code.is_some() || *text == a.description)
        }
        (Reply::Error(ReplyError::Io(_)), _) if t.class != Class::General => false,
        (Reply::Error(ReplyError::FileSigChanged(a)), Err(Err3::Sig(id))) if t.class == Class::File => a.id == *id,
        (Reply::Error(ReplyError::FileSigChanged(_)), _) if t.class == Class::File => false,
        (r, Ok(x)) => kind(r) == t.wants && r == x,
        (r, Err(Err3::General(AskError::InvalidResponse { reply }))) => kind(r) != t.wants && r == reply,
        _ => false,
    }
}
fn typed_case(ctx: &Ctx, t: &Typed, replies: &[Reply]) {
    ctx.traces.fetch_add(1, Ordering::Relaxed);
    with(|w| {
        let mut rt = std::mem::replace(&mut w.rt, tokio::runtime::Builder::new().build().unwrap());
        let r: Result<(), (Bad, Reply)> = rt.block_on(async {
            let World { client, server, at, asks, .. } = w;
            let s = server.as_mut().unwrap();
            for r in replies {
                last_case(|| format!("{} {:?}", t.name, r));
                *asks += 1;
                ctx.eval();
                ctx.transitions.fetch_add(1, Ordering::Relaxed);
                let mut f = rf();
                let serve = async {
                    let m = incoming(s, Duration::from_secs(3)).await?;
                    let ps = packets(s, &message(Content::Reply(r.clone()), Some(m.header.id)));
                    let _ = deliver(s, *at, &ps).await;
                    Some(m.content)
                };
                let (got, asked) = futures::future::join(real_timeout(Duration::from_secs(5), call(client, t.name, &mut f)), serve).await;
                if asked != Some(Content::Request(t.request.clone())) {
                    return Err((("request", format!("{} sent {:?}", t.name, asked)), r.clone()));
                }
                match got {
                    Some(got) if matches(t, r, &got) => (),
                    got => return Err((("typed", format!("{} answered with {:?} gave the caller {:?}", t.name, r, got)), r.clone())),
                }
                // the file's signature follows the reply
                let want = match r {
                    Reply::FileRenamed(a) if t.keeps && kind(r) == t.wants => a.sig,
                    Reply::FileRemoved(a) if t.keeps && kind(r) == t.wants => a.sig,
                    Reply::FileWritten(a) if t.keeps && kind(r) == t.wants => a.sig,
                    _ => FILE.1,
                };
                if f != RemoteFile::from(FileOpenedArgs { id: FILE.0, sig: want, path: "p/q".into(), read: true, write: true }) {
                    return Err((("signature", format!("after {} answered with {:?} the file is {:?}", t.name, r, f)), r.clone()));
                }
            }
            Ok(())
        });
        w.rt = rt;
        if let Err((b, r)) = r {
            w.dead = true;
            ctx.violation(b.0, &b.1, json!({"ask": t.name, "reply": format!("{:?}", r)}));
        }
    });
}
fn product(ls: &[E], n: usize) -> Vec<Vec<E>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|p: Vec<E>| ls.iter().map(move |e| { let mut q = p.clone(); q.push(*e); q })).collect();
    }
    v
}
pub fn run(ctx: &Ctx) -> i32 {
    let main = [Rep, RepOld, Fail, FailOld, Io, Unknown, Orphan, Asked, Garbage, Part, Foreign, Tick, Next];
    let mut items = product(&main, ctx.pick(5, 6));
    // time and late replies, deeper
    items.extend(product(&[Rep, RepOld, Tick, Next, Fail], ctx.pick(8, 9)));
    // transport errors
    let errs = [libc::ECONNREFUSED, libc::EINTR, libc::ENETUNREACH, libc::EHOSTUNREACH, libc::ENOBUFS, libc::EMSGSIZE, libc::EPERM, libc::ECONNRESET];
    for e in errs {
        let l = vec![Rep, RepOld, Tick, Next, SendError(e), RecvError(e)];
        items.extend(product(&l, ctx.pick(4, 6)));
    }
    items.extend(product(&[Rep, RepOld, Tick, Next, Down, Up, Empty], ctx.pick(5, 7)));
    ctx.note("event_sequences", items.len() as u64);
    par_items(ctx, &items, |ctx, i, s| {
        case(ctx, s);
        if i % 3001 == 7 && ctx.wants_sample() {
            ctx.sample(json!({"events": format!("{:?}", s)}));
        }
    });
    let ts = typed();
    let all = crate::msgs::plain_replies();
    let mut of_kind: std::collections::HashMap<String, usize> = Default::default();
    let mut some: Vec<Reply> = all
        .iter()
        .filter(|r| {
            let k = of_kind.entry(kind(r)).or_insert(0);
            *k += 1;
            *k <= ctx.pick(24, 200) || matches!(r, Reply::Error(ReplyError::Io(_)) | Reply::Error(ReplyError::FileSigChanged(_)))
        })
        .cloned()
        .collect();
    some.extend(crate::msgs::one_of_each(&all).iter().flat_map(crate::msgs::wrap_reply));
    ctx.note("typed_asks", ts.len() as u64);
    ctx.note("replies_per_typed_ask", some.len() as u64);
    let work: Vec<(usize, &[Reply])> = (0..ts.len()).flat_map(|i| some.chunks(60).map(move |c| (i, c))).collect();
    par_items(ctx, &work, |ctx, _, (i, rs)| typed_case(ctx, &ts[*i], rs));
    ctx.finish(
        "model_checking",
        "all sequences up to the depth of replies (right, late, duplicate, foreign, orphaned, malformed, partial), time steps around the timeout, abandoned asks, socket errors and server absences around up to depth asks of one client under a frozen clock; every typed ask against every kind of reply, checking the request sent, the value or error returned and the signature kept",
        true,
        &["the client runs on a single-threaded runtime; each arrival is processed before the next"],
    )
}
