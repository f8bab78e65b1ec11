//! C25: the commands of the client program have the effects and print the
//! answers they stand for, one after another, whatever the format.
use crate::c24::*;
use crate::core::*;
use crate::fsx::*;
use crate::interpose::*;
use over_there::core::{Content, Reply};
use serde_json::json;
use std::cell::RefCell;
use std::path::PathBuf;
use std::sync::atomic::Ordering;
use std::time::Duration;

type Bad = (String, String);
fn bad<T>(k: &str, what: String) -> Result<T, Bad> {
    Err((k.into(), what))
}
#[derive(Clone, Debug)]
enum Cmd {
    Write(&'static str, u8),
    Read(&'static str),
    Op(Op),
    /// the same through a raw request
    Raw(Op),
}
impl Cmd {
    fn argv(&self, abs: &dyn Fn(&str) -> String) -> Vec<String> {
        let v: Vec<String> = match self {
            Cmd::Write(p, k) => vec!["write-file".into(), abs(p), String::from_utf8(payload(*k)).unwrap()],
            Cmd::Read(p) => vec!["read-file".into(), abs(p)],
            Cmd::Raw(op) => {
                let q = |p: &str| abs(p);
                let r = request(op, &q);
                vec!["raw".into(), serde_json::to_string(&Content::Request(r)).unwrap()]
            }
            Cmd::Op(op) => match op {
                Op::RenameU(a, b) => vec!["mv-file".into(), abs(a), abs(b)],
                Op::RemoveU(a) => vec!["rm-file".into(), abs(a)],
                Op::Mkdir(a, false) => vec!["mk-dir".into(), abs(a)],
                Op::Mkdir(a, true) => vec!["mk-dir".into(), "--parents".into(), abs(a)],
                Op::RenameDir(a, b) => vec!["mv-dir".into(), abs(a), abs(b)],
                Op::Rmdir(a, false) => vec!["rm-dir".into(), abs(a)],
                Op::Rmdir(a, true) => vec!["rm-dir".into(), "--non-empty".into(), abs(a)],
                Op::List(a) => vec!["ls-dir".into(), abs(a)],
                _ => unreachable!(),
            },
        };
        v
    }
    fn apply(&self, m: &mut Model) -> Want {
        match self {
            Cmd::Write(p, k) => match m.apply(&Op::Open { path: p.to_string(), create: true, w: true, r: true }) {
                Want::Opened(s) => m.apply(&Op::Write(s, *k)),
                _ => Want::Error,
            },
            Cmd::Read(p) => match m.apply(&Op::Open { path: p.to_string(), create: false, w: false, r: true }) {
                Want::Opened(s) => m.apply(&Op::Read(s)),
                _ => Want::Error,
            },
            Cmd::Op(o) | Cmd::Raw(o) => m.apply(o),
        }
    }
}
pub fn request(op: &Op, path: &dyn Fn(&str) -> String) -> over_there::core::Request {
    use over_there::core::{request::*, Request};
    match op {
        Op::RenameU(a, b) => Request::RenameUnopenedFile(RenameUnopenedFileArgs { from: path(a), to: path(b) }),
        Op::RemoveU(p) => Request::RemoveUnopenedFile(RemoveUnopenedFileArgs { path: path(p) }),
        Op::Mkdir(p, all) => Request::CreateDir(CreateDirArgs { path: path(p), include_components: *all }),
        Op::RenameDir(a, b) => Request::RenameDir(RenameDirArgs { from: path(a), to: path(b) }),
        Op::Rmdir(p, ne) => Request::RemoveDir(RemoveDirArgs { path: path(p), non_empty: *ne }),
        Op::List(p) => Request::ListDirContents(ListDirContentsArgs { path: path(p) }),
        _ => unreachable!(),
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Mode {
    pub tcp: bool,
    pub json: bool,
    pub redirect: bool,
}
struct World {
    cli: Cli,
    mode_tcp: bool,
    n: u64,
}
thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
}
/// Everything printed: through the standard streams and into the file.
pub struct Printed {
    pub out: String,
    pub err: String,
    pub file: String,
}
fn invoke(w: &mut World, mode: Mode, argv: Vec<String>, extra: &[&str]) -> Result<(Res, Printed), Bad> {
    let file = w.cli.path("out");
    let _ = std::fs::remove_file(&file);
    let mut side = strings(&["-t", if mode.tcp { "tcp" } else { "udp" }, "--output-format", if mode.json { "json" } else { "human" }]);
    side.extend(strings(extra));
    if mode.redirect {
        side.extend(["--redirect-stdout".into(), file.clone()]);
    }
    let mut f = w.cli.client(&side, &argv);
    capture_output();
    let r = w.cli.drive(&mut f, None, Duration::from_secs(5));
    let [o, e] = captured();
    let p = Printed { out: String::from_utf8_lossy(&o).into(), err: String::from_utf8_lossy(&e).into(), file: std::fs::read_to_string(&file).unwrap_or_default() };
    match r {
        End::Done(r) => Ok((r, p)),
        End::Panicked(m) => bad("client-panic", format!("{:?} panics: {}", argv, m)),
        End::Still => bad("silent", format!("{:?} does not come to an end", argv)),
    }
}
fn case(ctx: &Ctx, mode: Mode, seq: &[Cmd]) -> Result<(), Bad> {
    WORLD.with(|x| {
        let mut x = x.borrow_mut();
        if x.as_ref().map(|w| w.n >= 12 || w.mode_tcp != mode.tcp).unwrap_or(true) {
            *x = None;
            let mut cli = Cli::new();
            if let Err(e) = cli.serve(strings(&["-t", if mode.tcp { "tcp" } else { "udp" }])) {
                return bad("start", format!("the server does not start: {}", e));
            }
            *x = Some(World { cli, mode_tcp: mode.tcp, n: 0 });
        }
        let w = x.as_mut().unwrap();
        w.n += 1;
        let r = steps(ctx, w, mode, seq);
        if r.is_err() {
            *x = None;
        }
        r
    })
}
fn steps(ctx: &Ctx, w: &mut World, mode: Mode, seq: &[Cmd]) -> Result<(), Bad> {
    let root = PathBuf::from(w.cli.path(&format!("t{}", w.n)));
    std::fs::create_dir(&root).unwrap();
    let mut m = Model::initial();
    lay_out(&root, &m);
    let abs = |p: &str| if p.is_empty() { root.to_string_lossy().to_string() } else { root.join(p).to_string_lossy().to_string() };
    for c in seq {
        ctx.transitions.fetch_add(1, Ordering::Relaxed);
        let want = c.apply(&mut m);
        let argv = c.argv(&abs);
        let (res, p) = invoke(w, mode, argv.clone(), &[])?;
        let raw = matches!(c, Cmd::Raw(_));
        compare(mode, raw, &argv, &want, res, &p, &abs)?;
        let (real, exp) = (walk(&root), m.snapshot());
        if real != exp {
            return bad("tree", format!("after {:?} the tree is [{}], expected [{}]", argv, show(&real), show(&exp)));
        }
    }
    std::fs::remove_dir_all(&root).unwrap();
    Ok(())
}
pub fn compare(mode: Mode, raw: bool, argv: &[String], want: &Want, res: Res, p: &Printed, abs: &dyn Fn(&str) -> String) -> Result<(), Bad> {
    let shown = || format!("{:?}: result {:?}, stdout {:?}, stderr {:?}, file {:?}, expected {:?}", argv, res, p.out, p.err, p.file, want);
    if !mode.json && !raw {
        // human-readable output
        let out = if mode.redirect { &p.file } else { &p.out };
        if mode.redirect && !p.out.is_empty() {
            return bad("redirect", format!("output is not redirected: {}", shown()));
        }
        if !mode.redirect && !p.file.is_empty() {
            return bad("redirect", format!("output is redirected: {}", shown()));
        }
        return match want {
            Want::Error => match &res {
                Err(e) if !e.is_empty() => Ok(()),
                _ => bad("accepted", format!("a command that must fail reports no error: {}", shown())),
            },
            _ if res.is_err() => bad("refused", format!("the command fails: {}", shown())),
            Want::Contents(c) if out.as_bytes() != &c[..] => bad("contents", format!("the contents printed are not those of the file: {}", shown())),
            Want::Listing(set) => {
                let mut got: Vec<String> = out.lines().map(|l| l.to_string()).collect();
                let mut exp: Vec<String> = set.iter().map(|(q, d)| format!("[{}] {}", if *d { "D" } else { "F" }, abs(q))).collect();
                got.sort();
                exp.sort();
                if got != exp {
                    return bad("listing", format!("the listing printed is wrong: {}", shown()));
                }
                Ok(())
            }
            _ => Ok(()),
        };
    }
    // one line with the reply
    let text = if *want == Want::Error && p.file.is_empty() { &p.out } else if mode.redirect { &p.file } else { &p.out };
    let other = if mode.redirect { &p.out } else { &p.file };
    if *want != Want::Error && !other.is_empty() {
        return bad("redirect", format!("output in the wrong place: {}", shown()));
    }
    let reply = match serde_json::from_str::<Content>(text.trim_end()) {
        Ok(Content::Reply(r)) if text.ends_with('\n') && !text.trim_end().contains('\n') => r,
        _ => return bad("output", format!("the output is not one line with a reply: {}", shown())),
    };
    let ok = match (want, &reply) {
        (Want::Error, Reply::Error(_)) => true,
        (Want::Error, _) => return bad("accepted", format!("a command that must fail reports no error: {}", shown())),
        (Want::Contents(c), Reply::FileContents(x)) => x.contents == *c,
        (Want::Changed, Reply::FileWritten(_)) => argv[0] == "write-file",
        (Want::Listing(set), Reply::DirContentsList(x)) => {
            let mut got: Vec<_> = x.entries.iter().map(|e| (e.path.clone(), e.is_dir, e.is_file, e.is_symlink)).collect();
            got.sort();
            let mut exp: Vec<_> = set.iter().map(|(q, d)| (abs(q), *d, !*d, false)).collect();
            exp.sort();
            got == exp
        }
        (Want::Done, Reply::UnopenedFileRenamed(x)) => raw || argv[0] == "mv-file" && x.from == argv[1] && x.to == argv[2],
        (Want::Done, Reply::UnopenedFileRemoved(x)) => raw || argv[0] == "rm-file" && x.path == argv[1],
        (Want::Done, Reply::DirCreated(x)) => raw || argv[0] == "mk-dir" && Some(&x.path) == argv.last(),
        (Want::Done, Reply::DirRenamed(x)) => raw || argv[0] == "mv-dir" && x.from == argv[1] && x.to == argv[2],
        (Want::Done, Reply::DirRemoved(x)) => raw || argv[0] == "rm-dir" && Some(&x.path) == argv.last(),
        _ => false,
    };
    if !ok {
        return bad("reply", format!("the reply printed is not the one for the command: {}", shown()));
    }
    if res.is_err() {
        return bad("output", format!("an answered command fails: {}", shown()));
    }
    Ok(())
}

// ------------------------------------------------------------------ options
/// A client waits for an answer exactly as long as it was told to.
fn timeout_case(tcp: bool, secs: &str) -> Result<(), Bad> {
    let d = Duration::from_secs_f64(secs.parse().unwrap());
    let mut cli = Cli::new();
    let udp = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    let listener = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    cli.addr = Some(if tcp { listener.local_addr().unwrap() } else { udp.local_addr().unwrap() });
    let mut f = cli.client(&strings(&["-t", if tcp { "tcp" } else { "udp" }, "--timeout", secs]), &strings(&["version"]));
    let step = Duration::from_millis(20);
    match cli.drive(&mut f, Some(40), Duration::default()) {
        End::Still => (),
        _ => return bad("timeout", format!("with --timeout {} the client fails at once", secs)),
    }
    advance_clock(d - step);
    match cli.drive(&mut f, Some(40), Duration::default()) {
        End::Still => (),
        _ => return bad("timeout", format!("with --timeout {} the client gives up early", secs)),
    }
    advance_clock(step * 2);
    match cli.drive(&mut f, Some(400), Duration::default()) {
        End::Done(Err(_)) => Ok(()),
        End::Done(Ok(())) => bad("client-success", "success without an answer".into()),
        End::Panicked(m) => bad("client-panic", m),
        End::Still => bad("timeout", format!("with --timeout {} the client still waits after {:?}", secs, d + step)),
    }
}
/// What a raw request gets.
fn raw(w: &mut World, content: serde_json::Value) -> Result<serde_json::Value, Bad> {
    let (res, p) = invoke(w, Mode { tcp: w.mode_tcp, json: true, redirect: false }, vec!["raw".into(), content.to_string()], &[])?;
    match serde_json::from_str(&p.out) {
        Ok(v) if res.is_ok() => Ok(v),
        _ => bad("output", format!("raw {} gives {:?} {:?}", content, res, p.out)),
    }
}
fn seconds(d: u64) -> Duration {
    Duration::from_secs(d)
}
/// Every time limit of the server is the one its own option sets.
fn ttl_case(tcp: bool, late: bool, file: u64, proc: u64, dead: u64, cleanup: u64) -> Result<(), Bad> {
    use over_there::core::{request::*, Request};
    let mut cli = Cli::new();
    let a: Vec<String> = ["--untouched-file-ttl", "--untouched-proc-ttl", "--dead-proc-ttl", "--cleanup-interval"].iter().zip([file, proc, dead, cleanup]).flat_map(|(k, v)| [k.to_string(), v.to_string()]).chain(strings(&["-t", if tcp { "tcp" } else { "udp" }])).collect();
    cli.serve(a).map_err(|e| ("start".to_string(), format!("the server does not start: {}", e)))?;
    let mut w = World { cli, mode_tcp: tcp, n: 0 };
    let ask = |w: &mut World, r: Request| -> Result<Reply, Bad> {
        let v = raw(w, serde_json::to_value(Content::Request(r)).unwrap())?;
        match serde_json::from_value::<Content>(v.clone()) {
            Ok(Content::Reply(r)) => Ok(r),
            _ => bad("output", format!("not a reply: {}", v)),
        }
    };
    let path = w.cli.path("f");
    std::fs::write(&path, b"x").unwrap();
    let f = match ask(&mut w, Request::OpenFile(OpenFileArgs { path, create_if_missing: false, write_access: false, read_access: true }))? {
        Reply::FileOpened(x) => x,
        r => return bad("open", format!("{:?}", r)),
    };
    let mut start = |w: &mut World, arg: &str| match ask(w, Request::ExecProc(ExecProcArgs { command: "sleep".into(), args: vec![arg.into()], stdin: false, stdout: false, stderr: false, current_dir: None })) {
        Ok(Reply::ProcStarted(x)) => Ok(x.id),
        Ok(r) => bad("exec", format!("{:?}", r)),
        Err(b) => Err(b),
    };
    let live = start(&mut w, "30")?;
    let short = start(&mut w, "0")?;
    let mut dead_now = false;
    for _ in 0..2000 {
        match ask(&mut w, Request::ReadProcStatus(ReadProcStatusArgs { id: short }))? {
            Reply::ProcStatus(x) if !x.is_alive => {
                dead_now = true;
                break;
            }
            Reply::ProcStatus(_) => std::thread::sleep(Duration::from_millis(1)),
            r => return bad("status", format!("{:?}", r)),
        }
    }
    if !dead_now {
        return bad("status", "a process that has ended is never reported dead".into());
    }
    // each is looked at once: just before its time, or late enough
    let mut probes: Vec<(u64, &str, Request)> = vec![
        (file, "file", Request::ReadFile(ReadFileArgs { id: f.id, sig: f.sig })),
        (proc, "process", Request::ReadProcStatus(ReadProcStatusArgs { id: live })),
        (dead, "dead process", Request::ReadProcStatus(ReadProcStatusArgs { id: short })),
    ];
    probes.sort_by_key(|p| p.0);
    let mut never: Running = Box::pin(futures::future::pending());
    let mut now = 0;
    for (ttl, what, r) in probes {
        let at = if late { ttl + 2 * cleanup + 2 } else { ttl - 1 };
        while now < at {
            advance_clock(seconds(1));
            now += 1;
            w.cli.drive(&mut never, Some(30), Duration::default());
        }
        let held = match ask(&mut w, r)? {
            Reply::Error(_) => false,
            Reply::FileContents(_) | Reply::ProcStatus(_) => true,
            r => return bad("probe", format!("{:?}", r)),
        };
        if held == late {
            return bad("ttl", format!("a {} is {} after {} s with a limit of {} s and cleanups every {} s", what, if held { "still held" } else { "given up" }, now, ttl, cleanup));
        }
    }
    ask(&mut w, Request::KillProc(KillProcArgs { id: live }))?;
    Ok(())
}
/// A message whose parts arrive `gap` apart, with a limit of `ttl`.
fn packet_ttl_case(tcp: bool, ttl: u64, gap: u64) -> Result<(), Bad> {
    use over_there::core::transport::{auth::NoopAuthenticator, crypto::NoopBicrypter, Wire};
    use std::io::{Read, Write};
    let mut cli = Cli::new();
    cli.serve(strings(&["-t", if tcp { "tcp" } else { "udp" }, "--packet-ttl", &ttl.to_string()])).map_err(|e| ("start".to_string(), e))?;
    let m = over_there::core::Msg::from(Content::Request(over_there::core::Request::Batch(vec![over_there::core::Request::Version; 60].into())));
    let (_, mut ow) = Wire::new(508, seconds(1000), NoopAuthenticator, NoopBicrypter).clone_split();
    let ps = ow.process(&m.to_vec().unwrap()).unwrap();
    let mut never: Running = Box::pin(futures::future::pending());
    let addr = cli.addr.unwrap();
    let udp = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    udp.set_nonblocking(true).unwrap();
    let mut stream = if tcp { Some(std::net::TcpStream::connect(addr).unwrap()) } else { None };
    if let Some(s) = &stream {
        s.set_nonblocking(true).unwrap();
    }
    let mut put = |b: &[u8]| match &mut stream {
        Some(s) => s.write_all(b).unwrap(),
        None => {
            udp.send_to(b, addr).unwrap();
        }
    };
    put(&ps[0]);
    cli.drive(&mut never, Some(20), Duration::default());
    advance_clock(seconds(gap));
    for p in &ps[1..] {
        put(p);
        cli.drive(&mut never, Some(10), Duration::default());
    }
    cli.drive(&mut never, Some(60), Duration::default());
    let mut buf = [0u8; 5000];
    let answered = match &mut stream {
        Some(s) => matches!(s.read(&mut buf), Ok(n) if n > 0),
        None => udp.recv(&mut buf).is_ok(),
    };
    if answered != (gap < ttl) {
        return bad("packet-ttl", format!("with --packet-ttl {} a message whose parts arrive {} s apart is {}", ttl, gap, if answered { "answered" } else { "not answered" }));
    }
    Ok(())
}
/// A client gets a reply whose parts arrive `gap` apart.
fn client_packet_ttl_case(tcp: bool, ttl: u64, gap: u64) -> Result<(), Bad> {
    use over_there::core::transport::{auth::NoopAuthenticator, crypto::NoopBicrypter, Wire};
    use over_there::core::{reply, Header, Msg};
    use std::io::{Read, Write};
    let mut cli = Cli::new();
    let udp = std::net::UdpSocket::bind("127.0.0.1:0").unwrap();
    let listener = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    cli.addr = Some(if tcp { listener.local_addr().unwrap() } else { udp.local_addr().unwrap() });
    udp.set_nonblocking(true).unwrap();
    listener.set_nonblocking(true).unwrap();
    let (mut inw, mut ow) = Wire::new(1500, seconds(1_000_000), NoopAuthenticator, NoopBicrypter).clone_split();
    let mut f = cli.client(&strings(&["-t", if tcp { "tcp" } else { "udp" }, "--timeout", "100000", "--packet-ttl", &ttl.to_string(), "--redirect-stdout", "/dev/null"]), &strings(&["version"]));
    if let End::Done(_) | End::Panicked(_) = cli.drive(&mut f, Some(40), Duration::default()) {
        return bad("start", "the client fails at once".into());
    }
    let mut buf = vec![0u8; 5000];
    let mut stream = None;
    let (n, to) = if tcp {
        let (s, _) = listener.accept().map_err(|e| ("start".to_string(), format!("the client does not connect: {}", e)))?;
        s.set_nonblocking(true).unwrap();
        s.set_nodelay(true).unwrap();
        let s = stream.insert(s);
        (s.read(&mut buf), None)
    } else {
        match udp.recv_from(&mut buf) {
            Ok((n, a)) => (Ok(n), Some(a)),
            Err(e) => (Err(e), None),
        }
    };
    let n = n.map_err(|e| ("start".to_string(), format!("the client does not ask: {}", e)))?;
    let id = match inw.process(&buf[..n]) {
        Ok(Some(d)) => Msg::from_slice(&d).map_err(|e| ("request".to_string(), format!("{}", e)))?.header.id,
        x => return bad("request", format!("the request is {:?}", x)),
    };
    let mut m = Msg::from(Content::Reply(Reply::Version(reply::VersionArgs { version: "v".repeat(5000) })));
    m.parent_header = Some(Header { id, ..Header::default() });
    let (_, mut small) = Wire::new(508, seconds(1000), NoopAuthenticator, NoopBicrypter).clone_split();
    let ps = if tcp { ow.process(&m.to_vec().unwrap()).unwrap() } else { small.process(&m.to_vec().unwrap()).unwrap() };
    let mut put = |b: &[u8]| match (&mut stream, to) {
        (Some(s), _) => s.write_all(b).unwrap(),
        (_, Some(a)) => {
            udp.send_to(b, a).unwrap();
        }
        _ => (),
    };
    put(&ps[0]);
    cli.drive(&mut f, Some(20), Duration::default());
    advance_clock(seconds(gap));
    for p in &ps[1..] {
        put(p);
        cli.drive(&mut f, Some(10), Duration::default());
    }
    // what is expected gets the time it takes
    let end = if gap < ttl { cli.drive(&mut f, None, seconds(5)) } else { cli.drive(&mut f, Some(60), Duration::default()) };
    match end {
        End::Done(Ok(())) if gap < ttl => Ok(()),
        End::Still if gap > ttl => Ok(()),
        e => bad(
            "client-packet-ttl",
            format!(
                "with --packet-ttl {} and a reply whose parts arrive {} s apart the client {}",
                ttl,
                gap,
                match e {
                    End::Done(x) => format!("ends with {:?}", x),
                    End::Panicked(x) => format!("panics: {}", x),
                    End::Still => "still waits".into(),
                }
            ),
        ),
    }
}
/// Run a program remotely and collect what it prints.
fn exec_case(tcp: bool, json: bool, out: usize, err: usize, code: i32, exit_print: bool) -> Result<(), Bad> {
    unfreeze_clock();
    let mut cli = Cli::live();
    cli.serve(strings(&["-t", if tcp { "tcp" } else { "udp" }])).map_err(|e| ("start".to_string(), e))?;
    let (so, se) = (cli.path("so"), cli.path("se"));
    let script = format!("i=0; while [ $i -lt {} ]; do printf 0123456789; i=$((i+1)); done; i=0; while [ $i -lt {} ]; do printf abcdefghij >&2; i=$((i+1)); done; exit {}", out, err, code);
    let mut side = strings(&["-t", if tcp { "tcp" } else { "udp" }, "--output-format", if json { "json" } else { "human" }, "--redirect-stdout", &so, "--redirect-stderr", &se, "--timeout", "60"]);
    if exit_print {
        side.push("--exit-print".into());
    }
    let argv = strings(&["exec", "--no-stdin", "--post-exit-duration", "1000", "--", "sh", "-c", &script]);
    let mut f = cli.client(&side, &argv);
    capture_output();
    let r = cli.drive(&mut f, None, Duration::from_secs(10));
    let [o, e] = captured();
    match r {
        End::Done(Ok(())) => (),
        End::Done(Err(e)) => return bad("refused", format!("exec fails: {}", e)),
        End::Panicked(m) => return bad("client-panic", format!("exec panics: {}", m)),
        End::Still => return bad("silent", "exec does not come to an end".into()),
    }
    let (so, se) = (std::fs::read(&so).unwrap_or_default(), std::fs::read(&se).unwrap_or_default());
    let (want_o, want_e) = ("0123456789".repeat(out), "abcdefghij".repeat(err));
    if !o.is_empty() || !e.is_empty() {
        return bad("redirect", format!("redirected output appears on the terminal: {:?} {:?}", String::from_utf8_lossy(&o), String::from_utf8_lossy(&e)));
    }
    if json {
        let (mut got_o, mut got_e, mut status) = (vec![], vec![], vec![]);
        for line in String::from_utf8_lossy(&so).lines().chain(String::from_utf8_lossy(&se).lines()) {
            match serde_json::from_str::<Content>(line) {
                Ok(Content::Reply(Reply::ProcStdoutContents(x))) => got_o.extend(x.output),
                Ok(Content::Reply(Reply::ProcStderrContents(x))) => got_e.extend(x.output),
                Ok(Content::Reply(Reply::ProcStatus(x))) => status.push((x.is_alive, x.exit_code)),
                _ => return bad("output", format!("unexpected line {:?}", line)),
            }
        }
        if got_o != want_o.as_bytes() || got_e != want_e.as_bytes() {
            return bad("exec-output", format!("{} and {} bytes of output arrive instead of {} and {}", got_o.len(), got_e.len(), want_o.len(), want_e.len()));
        }
        if status != [(false, Some(code))] {
            return bad("exec-status", format!("reported status {:?}, expected exit code {}", status, code));
        }
        return Ok(());
    }
    // what the program wrote late comes after the exit information
    let mut se = String::from_utf8_lossy(&se).to_string();
    let mut info = String::new();
    if let Some(i) = se.find("Proc ") {
        let text = format!("exited with code {}", code);
        if let Some(j) = se[i..].find(&text) {
            info = se[i..i + j + text.len()].to_string();
            se.replace_range(i..i + j + text.len(), "");
        }
    }
    if so != want_o.as_bytes() || se != want_e {
        return bad("exec-output", format!("{} and {} bytes of output arrive instead of {} and {}", so.len(), se.len(), want_o.len(), want_e.len()));
    }
    if exit_print == info.is_empty() {
        return bad("exec-status", format!("the exit information is {:?}, wanted: {}", info, exit_print));
    }
    Ok(())
}

pub fn run(ctx: &Ctx) -> i32 {
    let s = |x: &str| x.to_string();
    let mut al: Vec<Cmd> = vec![];
    for p in ["a", "c", "d/b"] {
        al.push(Cmd::Write(p, 1));
        al.push(Cmd::Read(p));
        al.push(Cmd::Op(Op::RemoveU(s(p))));
    }
    al.push(Cmd::Write("a", 2));
    for (a, b) in [("a", "c"), ("c", "a"), ("a", "d/b"), ("d/b", "c"), ("a", "d")] {
        al.push(Cmd::Op(Op::RenameU(s(a), s(b))));
    }
    for (p, all) in [("n", false), ("n/m", false), ("n/m", true), ("d", false), ("d/k", true)] {
        al.push(Cmd::Op(Op::Mkdir(s(p), all)));
    }
    for (a, b) in [("d", "n"), ("d", "e"), ("e", "n"), ("e", "d")] {
        al.push(Cmd::Op(Op::RenameDir(s(a), s(b))));
    }
    for (p, all) in [("d", false), ("d", true), ("e", false), ("n", true)] {
        al.push(Cmd::Op(Op::Rmdir(s(p), all)));
    }
    for p in ["", "d", "a"] {
        al.push(Cmd::Op(Op::List(s(p))));
    }
    al.push(Cmd::Raw(Op::Mkdir(s("n"), false)));
    al.push(Cmd::Raw(Op::RemoveU(s("a"))));
    al.push(Cmd::Raw(Op::List(s(""))));
    let mut cases: Vec<(Mode, Vec<Cmd>)> = vec![];
    for tcp in [false, true] {
        for json in [false, true] {
            for redirect in [false, true] {
                let mode = Mode { tcp, json, redirect };
                // human-readable lines without an end stay in the shared
                // buffer of the standard output, so look at files there
                if !json && !redirect {
                    continue;
                }
                for x in &al {
                    for y in &al {
                        cases.push((mode, vec![x.clone(), y.clone()]));
                    }
                }
                if !ctx.quick() || tcp != json {
                    for x in &al {
                        for y in &al {
                            for z in &al {
                                if redirect || !ctx.quick() {
                                    cases.push((mode, vec![x.clone(), y.clone(), z.clone()]));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.note("command_sequences", cases.len() as u64);
    par_items(ctx, &cases, |ctx, i, (mode, seq)| {
        last_case(|| format!("{:?} {:?}", mode, seq));
        ctx.states.fetch_add(1, Ordering::Relaxed);
        ctx.traces.fetch_add(1, Ordering::Relaxed);
        match case(ctx, *mode, seq) {
            Ok(()) => {
                ctx.outcome("as the model");
                if i % 4001 == 7 && ctx.wants_sample() {
                    ctx.sample(json!({"mode": format!("{:?}", mode), "commands": format!("{:?}", seq)}));
                }
            }
            Err(b) => ctx.violation(&b.0, &b.1, json!({"mode": format!("{:?}", mode), "commands": format!("{:?}", seq)})),
        }
    });
    // options
    #[derive(Clone, Debug)]
    enum O {
        Timeout(bool, &'static str),
        Ttl(bool, bool, [u64; 4]),
        Packet(bool, u64, u64),
        ClientPacket(bool, u64, u64),
        Exec(bool, bool, usize, usize, i32, bool),
    }
    let mut os = vec![];
    for tcp in [false, true] {
        for t in ["0.5", "1", "2.5", "5", "7", "60", "3600"] {
            os.push(O::Timeout(tcp, t));
        }
        let vals = [3u64, 7, 13, 2];
        for p in permutations(4) {
            for late in [false, true] {
                os.push(O::Ttl(tcp, late, [vals[p[0]], vals[p[1]], vals[p[2]], vals[p[3]]]));
            }
        }
        for ttl in [1, 5, 300, 1000] {
            for gap in [0, 1, 4, 6, 299, 301, 999, 1001] {
                if gap != ttl {
                    os.push(O::Packet(tcp, ttl, gap));
                    os.push(O::ClientPacket(tcp, ttl, gap));
                }
            }
        }
        for json in [false, true] {
            for (out, err) in [(0, 0), (1, 0), (0, 1), (1, 1), (300, 2), (2, 300)] {
                for code in [0, 3] {
                    os.push(O::Exec(tcp, json, out, err, code, out == 1));
                }
            }
        }
    }
    ctx.note("option_cases", os.len() as u64);
    par_items(ctx, &os, |ctx, i, o| {
        last_case(|| format!("{:?}", o));
        ctx.states.fetch_add(1, Ordering::Relaxed);
        ctx.transitions.fetch_add(1, Ordering::Relaxed);
        ctx.traces.fetch_add(1, Ordering::Relaxed);
        let r = match o.clone() {
            O::Timeout(t, s) => timeout_case(t, s),
            O::Ttl(t, l, [f, p, d, c]) => ttl_case(t, l, f, p, d, c),
            O::Packet(t, a, b) => packet_ttl_case(t, a, b),
            O::ClientPacket(t, a, b) => client_packet_ttl_case(t, a, b),
            O::Exec(t, j, o, e, c, x) => exec_case(t, j, o, e, c, x),
        };
        match r {
            Ok(()) => {
                ctx.outcome("option takes effect");
                if i % 23 == 2 {
                    ctx.sample(json!(format!("{:?}", o)));
                }
            }
            Err(b) => ctx.violation(&b.0, &b.1, json!({"option": format!("{:?}", o)})),
        }
    });
    ctx.finish(
        "model_checking",
        "all sequences up to the depth of client commands, each a program run of its own against one server, in every format, transport and kind of redirection, compared with a file system model in effect and printed answer; every permutation of the server's time limits, client timeouts on both sides of the limit, and remote programs with their output and exit code",
        true,
        &["the working directory option changes the whole process and is tried in C27", "human-readable output is only looked at when redirected"],
    )
}
