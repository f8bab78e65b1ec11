//! C27: interactive sessions and remote programs with input, in processes of
//! their own.
use crate::c25::{compare, request, Mode};
use crate::core::*;
use crate::fsx::*;
use over_there::core::{reply, request as rq, Content, LazilyTransformedRequest, Reply, Request, TransformRule};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::os::unix::process::CommandExt;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicU16, Ordering};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::Duration;

type Bad = (String, String);
fn bad<T>(k: &str, what: String) -> Result<T, Bad> {
    Err((k.into(), what))
}
/// Long enough for anything that happens at all.
const LONG: Duration = Duration::from_secs(20);
/// What ends by itself.
struct Program(Child);
impl Drop for Program {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
fn start(args: &[String], dir: &Path) -> Program {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg0("over-there").args(args).current_dir(dir).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).env("RUST_BACKTRACE", "0").env_remove("RUST_LOG");
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    Program(c.spawn().expect("the program starts"))
}
fn strings(v: &[&str]) -> Vec<String> {
    v.iter().map(|s| s.to_string()).collect()
}
/// What a process prints on one stream, as it comes.
struct Stream {
    rx: Receiver<Vec<u8>>,
    got: Vec<u8>,
    taken: usize,
    open: bool,
}
impl Stream {
    fn new(mut r: impl Read + Send + 'static) -> Stream {
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let mut b = [0u8; 65536];
            while let Ok(n) = r.read(&mut b) {
                if n == 0 || tx.send(b[..n].to_vec()).is_err() {
                    break;
                }
            }
        });
        Stream { rx, got: vec![], taken: 0, open: true }
    }
    fn more(&mut self, limit: Duration) {
        match self.rx.recv_timeout(limit) {
            Ok(b) => self.got.extend(b),
            Err(RecvTimeoutError::Timeout) => (),
            Err(RecvTimeoutError::Disconnected) => self.open = false,
        }
    }
    /// The next line, once it is there.
    fn line(&mut self, limit: Duration) -> Option<String> {
        let t = std::time::Instant::now();
        loop {
            if let Some(i) = self.got[self.taken..].iter().position(|b| *b == b'\n') {
                let l = String::from_utf8_lossy(&self.got[self.taken..self.taken + i]).to_string();
                self.taken += i + 1;
                return Some(l);
            }
            if !self.open || t.elapsed() >= limit {
                return None;
            }
            self.more(limit.saturating_sub(t.elapsed()));
        }
    }
    /// Everything, when it has ended.
    fn rest(&mut self, limit: Duration) -> bool {
        let t = std::time::Instant::now();
        while self.open && t.elapsed() < limit {
            self.more(limit.saturating_sub(t.elapsed()));
        }
        !self.open
    }
    fn contains(&mut self, what: &[u8], limit: Duration) -> bool {
        let t = std::time::Instant::now();
        loop {
            if what.is_empty() || self.got.windows(what.len()).any(|w| w == what) {
                return true;
            }
            if !self.open || t.elapsed() >= limit {
                return false;
            }
            self.more(limit.saturating_sub(t.elapsed()));
        }
    }
}
struct Session {
    p: Program,
    stdin: Option<ChildStdin>,
    out: Stream,
    err: Stream,
}
impl Session {
    fn new(args: &[String], dir: &Path) -> Session {
        let mut p = start(args, dir);
        let out = Stream::new(p.0.stdout.take().unwrap());
        let err = Stream::new(p.0.stderr.take().unwrap());
        Session { stdin: p.0.stdin.take(), p, out, err }
    }
    fn type_in(&mut self, b: &[u8]) {
        // a program that has ended reads nothing, which shows elsewhere
        if let Some(s) = &mut self.stdin {
            let _ = s.write_all(b).and_then(|_| s.flush());
        }
    }
    /// Exit status, or None when it does not end.
    fn end(&mut self, limit: Duration) -> Option<i32> {
        let t = std::time::Instant::now();
        loop {
            if let Some(s) = self.p.0.try_wait().unwrap() {
                self.out.rest(LONG);
                self.err.rest(LONG);
                return Some(s.code().unwrap_or(-1));
            }
            if t.elapsed() >= limit {
                return None;
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }
}
/// A server in a process of its own.
struct Host {
    _p: Program,
    addr: String,
    tcp: bool,
    dir: Scratch,
    n: u64,
}
/// An address nobody else uses.
fn own_address() -> String {
    static NEXT: AtomicU16 = AtomicU16::new(0);
    let pid = std::process::id();
    format!("127.{}.{}.{}:{}", 1 + (pid >> 16) as u8 % 200, (pid >> 8) as u8, pid as u8, 10_000 + NEXT.fetch_add(1, Ordering::SeqCst) % 20_000)
}
impl Host {
    fn new(tcp: bool) -> Result<Host, Bad> {
        let dir = Scratch::new("c27");
        for d in ["home", "elsewhere"] {
            std::fs::create_dir(dir.path().join(d)).unwrap();
        }
        let t = if tcp { "tcp" } else { "udp" };
        let mut why = String::new();
        for _ in 0..20 {
            let addr = own_address();
            let home = dir.path().join("home").to_string_lossy().to_string();
            let mut p = start(&strings(&["server", &addr, "-t", t, "--working-dir", &home]), &dir.path().join("elsewhere"));
            for _ in 0..200 {
                if let Some(st) = p.0.try_wait().unwrap() {
                    let mut e = Stream::new(p.0.stderr.take().unwrap());
                    e.rest(LONG);
                    why = format!("{}: {}", st, String::from_utf8_lossy(&e.got));
                    break;
                }
                let mut s = Session::new(&strings(&["client", &addr, "-t", t, "--timeout", "0.2", "version"]), dir.path());
                s.stdin = None;
                if s.end(LONG) == Some(0) && !s.out.got.is_empty() {
                    return Ok(Host { _p: p, addr, tcp, dir, n: 0 });
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
        bad("start", format!("the server does not start: {}", why))
    }
    fn home(&self) -> PathBuf {
        self.dir.path().join("home")
    }
    fn client(&self, opts: &[&str], command: &[String]) -> Session {
        let mut a = strings(&["client", &self.addr, "-t", if self.tcp { "tcp" } else { "udp" }, "--timeout", "15"]);
        a.extend(strings(opts));
        a.extend(command.iter().cloned());
        Session::new(&a, self.dir.path())
    }
}
thread_local! {
    static HOSTS: RefCell<[Option<Host>; 2]> = const { RefCell::new([None, None]) };
}
fn with_host(tcp: bool, f: impl FnOnce(&mut Host) -> Result<(), Bad>) -> Result<(), Bad> {
    HOSTS.with(|h| {
        let mut h = h.borrow_mut();
        let h = &mut h[tcp as usize];
        if h.is_none() {
            *h = Some(Host::new(tcp)?);
        }
        let x = h.as_mut().unwrap();
        x.n += 1;
        let r = f(x);
        if r.is_err() || x.n >= 300 {
            *h = None;
        }
        r
    })
}

// ---------------------------------------------------------------- sessions
#[derive(Clone, Debug)]
enum Line {
    Op(Op),
    Version,
    Heartbeat,
    Capabilities,
    Batch,
    /// a sequence that opens, reads and closes a file by its transformations
    Chain(&'static str),
    /// so many versions in a batch
    Many(usize),
    /// what is not a request
    Bad(&'static str),
}
impl Line {
    fn request(&self, path: &dyn Fn(&str) -> String) -> Option<Request> {
        let lz = |r: Request, rules: &[(&str, &str)]| LazilyTransformedRequest::new(r, rules.iter().map(|(p, v)| TransformRule { path: p.to_string(), value: v.to_string() }).collect());
        Some(match self {
            Line::Op(op) => request(op, path),
            Line::Version => Request::Version,
            Line::Heartbeat => Request::Heartbeat,
            Line::Capabilities => Request::Capabilities,
            Line::Batch => Request::Batch(vec![Request::Heartbeat, Request::Custom(rq::CustomArgs { data: vec![] }), Request::Version].into()),
            Line::Many(n) => Request::Batch(vec![Request::Version; *n].into()),
            Line::Chain(p) => {
                let rules = [("$.payload.id", "$.payload.id"), ("$.payload.sig", "$.payload.sig")];
                Request::Sequence(
                    vec![
                        lz(Request::OpenFile(rq::OpenFileArgs { path: path(p), create_if_missing: false, write_access: false, read_access: true }), &[]),
                        lz(Request::CloseFile(rq::CloseFileArgs { id: 0, sig: 0 }), &rules),
                    ]
                    .into(),
                )
            }
            Line::Bad(_) => return None,
        })
    }
    fn text(&self, path: &dyn Fn(&str) -> String, meta: Option<&Value>) -> Vec<u8> {
        match (self, self.request(path)) {
            (_, Some(r)) => {
                let c = serde_json::to_value(Content::Request(r)).unwrap();
                match meta {
                    Some(m) => json!({"content": c, "metadata": m}).to_string(),
                    None => c.to_string(),
                }
                .into_bytes()
            }
            (Line::Bad(t), _) => t.as_bytes().to_vec(),
            _ => unreachable!(),
        }
    }
    fn check(&self, argv: &[String], want: &Want, r: &Reply, abs: &dyn Fn(&str) -> String) -> Result<(), Bad> {
        let ok = match (self, r) {
            (Line::Op(_), r) => {
                let p = crate::c25::Printed { out: serde_json::to_string(&Content::Reply(r.clone())).unwrap() + "\n", err: String::new(), file: String::new() };
                return compare(Mode { tcp: false, json: true, redirect: false }, true, argv, want, Ok(()), &p, abs);
            }
            (Line::Version, Reply::Version(_)) | (Line::Heartbeat, Reply::Heartbeat) | (Line::Capabilities, Reply::Capabilities(_)) => true,
            (Line::Batch, Reply::Batch(b)) => matches!(&b.results[..], [Reply::Heartbeat, Reply::Error(_) | Reply::Ignore, Reply::Version(_)]),
            (Line::Many(n), Reply::Batch(b)) => b.results.len() == *n && b.results.iter().all(|r| matches!(r, Reply::Version(_))),
            (Line::Chain(_), Reply::Sequence(s)) => match want {
                // what comes after an error is aborted
                Want::Error => matches!(&s.results[..], [Reply::Error(_), Reply::Error(_)]),
                _ => matches!(&s.results[..], [Reply::FileOpened(_), Reply::FileClosed(_)]),
            },
            (Line::Bad(_), Reply::Error(reply::ReplyError::Generic(x))) => !x.msg.is_empty(),
            (Line::Bad(_), Reply::Error(_)) => true,
            _ => false,
        };
        if !ok {
            return bad("reply", format!("{:?} is answered by {:?}", self, r));
        }
        Ok(())
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Feed {
    /// the next line after the answer to the last
    Step,
    /// everything at once
    Burst,
    /// as `Burst`, the last line without an end
    Cut,
}
#[derive(Clone, Copy, Debug)]
struct How {
    tcp: bool,
    meta: bool,
    redirect: bool,
    feed: Feed,
    /// the first line as an argument
    arg: bool,
    relative: bool,
}
fn session(ctx: &Ctx, how: How, lines: &[Line]) -> Result<(), Bad> {
    with_host(how.tcp, |h| {
        let name = format!("t{}", h.n);
        let root = h.home().join(&name);
        std::fs::create_dir(&root).unwrap();
        let mut m = Model::initial();
        lay_out(&root, &m);
        let base = if how.relative { PathBuf::from(&name) } else { root.clone() };
        let abs = |p: &str| if p.is_empty() { base.to_string_lossy().to_string() } else { base.join(p).to_string_lossy().to_string() };
        let file = h.dir.path().join("out");
        let _ = std::fs::remove_file(&file);
        let file_name = file.to_string_lossy().to_string();
        let metas = [json!({}), json!({"cb": "1"}), json!({"a": "ünï ☃", "": "{\"x\"\n:1}"})];
        let meta_of = |i: usize| if how.meta { Some(&metas[i % metas.len()]) } else { None };
        let mut texts: Vec<Vec<u8>> = lines.iter().enumerate().map(|(i, l)| l.text(&abs, meta_of(i))).collect();
        let mut cmd = strings(&["raw", "--interactive"]);
        if how.meta {
            cmd.push("--meta-mode".into());
        }
        let mut fed = 0;
        if how.arg {
            cmd.push("--".into());
            cmd.push(String::from_utf8(texts[0].clone()).unwrap());
            fed = 1;
        }
        for t in texts.iter_mut() {
            t.push(b'\n');
        }
        if how.feed == Feed::Cut {
            texts.last_mut().unwrap().pop();
        }
        let mut opts = vec![];
        if how.redirect {
            opts.extend(["--redirect-stdout", &file_name]);
        }
        let mut s = h.client(&opts, &cmd);
        if how.feed != Feed::Step {
            s.type_in(&texts[fed..].concat());
            s.stdin = None;
            fed = lines.len();
        }
        let mut printed: Vec<String> = vec![];
        // the next line of output, wherever it goes
        let next = |s: &mut Session, k: usize| -> Option<String> {
            if !how.redirect {
                return s.out.line(LONG);
            }
            let t = std::time::Instant::now();
            loop {
                let text = std::fs::read_to_string(&file).unwrap_or_default();
                let ls: Vec<&str> = text.split_inclusive('\n').filter(|l| l.ends_with('\n')).collect();
                if ls.len() > k {
                    return Some(ls[k].trim_end_matches('\n').to_string());
                }
                if t.elapsed() > LONG || s.p.0.try_wait().unwrap().is_some() && t.elapsed() > Duration::from_millis(500) {
                    return None;
                }
                std::thread::sleep(Duration::from_micros(300));
            }
        };
        for (i, l) in lines.iter().enumerate() {
            ctx.transitions.fetch_add(1, Ordering::Relaxed);
            if i >= fed {
                s.type_in(&texts[i]);
                fed = i + 1;
            }
            let text = match next(&mut s, i) {
                Some(t) => t,
                None => {
                    let e = String::from_utf8_lossy(&s.err.got).to_string();
                    return bad("unanswered", format!("line {} ({:?}) is not answered; stderr {:?}", i + 1, l, e));
                }
            };
            let v: Value = match serde_json::from_str(&text) {
                Ok(v) => v,
                Err(e) => return bad("output", format!("{:?} is answered by {:?}: {}", l, text, e)),
            };
            let body = match (how.meta, meta_of(i)) {
                (true, Some(m)) => {
                    let o = v.as_object().map(|o| o.len());
                    let is_bad = matches!(l, Line::Bad(_));
                    // metadata of what cannot be read may be lost
                    if o != Some(2) || v["metadata"] != *m && !(is_bad && v["metadata"] == json!({})) {
                        return bad("metadata", format!("{:?} with metadata {} is answered by {}", l, m, text));
                    }
                    v["content"].clone()
                }
                _ => v,
            };
            let r = match serde_json::from_value::<Content>(body) {
                Ok(Content::Reply(r)) => r,
                _ => return bad("output", format!("{:?} is answered by {:?}", l, text)),
            };
            let want = match l {
                Line::Op(op) => m.apply(op),
                Line::Chain(p) => match m.clone().apply(&Op::Open { path: p.to_string(), create: false, w: false, r: true }) {
                    Want::Error => Want::Error,
                    _ => Want::Done,
                },
                _ => Want::Done,
            };
            // entries of a directory have their full path
            let full = |p: &str| if p.is_empty() { root.to_string_lossy().to_string() } else { root.join(p).to_string_lossy().to_string() };
            l.check(&[format!("{:?}", l)], &want, &r, &full)?;
            if how.feed == Feed::Step || i + 1 == lines.len() {
                let (real, exp) = (walk(&root), m.snapshot());
                if real != exp {
                    return bad("tree", format!("after {:?} the tree is [{}], expected [{}]", l, show(&real), show(&exp)));
                }
            }
            printed.push(text);
        }
        s.stdin = None;
        match s.end(LONG) {
            Some(0) => (),
            Some(c) => return bad("failed", format!("the session ends with status {}, stderr {:?}", c, String::from_utf8_lossy(&s.err.got))),
            None => return bad("endless", "the session does not end with its input".into()),
        }
        let all = printed.iter().map(|p| format!("{}\n", p)).collect::<String>();
        let file_text = std::fs::read_to_string(&file).unwrap_or_default();
        let (o, other) = if how.redirect { (file_text.into_bytes(), s.out.got.clone()) } else { (s.out.got.clone(), file_text.into_bytes()) };
        if o != all.as_bytes() || !other.is_empty() || !s.err.got.is_empty() {
            return bad("more-output", format!("there is more output than answers: {:?}, elsewhere {:?}, stderr {:?}", String::from_utf8_lossy(&o), String::from_utf8_lossy(&other), String::from_utf8_lossy(&s.err.got)));
        }
        std::fs::remove_dir_all(&root).unwrap();
        if Path::new(&h.dir.path().join("elsewhere")).read_dir().unwrap().next().is_some() {
            return bad("working-dir", "something outside the working directory has changed".into());
        }
        Ok(())
    })
}

// ---------------------------------------------------------------- programs
/// What the remote program does, one step after another.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    /// read a line and print it
    Read,
    /// read a line and print it on stderr
    ReadErr,
    Print,
    PrintErr,
    /// without an end of line
    Part,
    /// bytes that are no text
    Bytes,
}
const DOS: [Do; 6] = [Do::Read, Do::ReadErr, Do::Print, Do::PrintErr, Do::Part, Do::Bytes];
fn script(ds: &[Do], code: i32) -> String {
    let mut s = String::new();
    for d in ds {
        s += match d {
            Do::Read => "IFS= read -r x; printf '<%s>\\n' \"$x\"; ",
            Do::ReadErr => "IFS= read -r x; printf '<%s>\\n' \"$x\" >&2; ",
            Do::Print => "echo out; ",
            Do::PrintErr => "echo err >&2; ",
            Do::Part => "printf part; ",
            Do::Bytes => "printf '\\377\\303'; ",
        };
    }
    format!("{}exit {}", s, code)
}
/// Its output after each step.
fn expected(ds: &[Do], input: &[Vec<u8>]) -> Vec<(Vec<u8>, Vec<u8>)> {
    let (mut o, mut e, mut k) = (vec![], vec![], 0);
    ds.iter()
        .map(|d| {
            let mut line = || {
                let l = input[k].clone();
                k += 1;
                [b"<", &l[..], b">\n"].concat()
            };
            match d {
                Do::Read => o.extend(line()),
                Do::ReadErr => e.extend(line()),
                Do::Print => o.extend(b"out\n"),
                Do::PrintErr => e.extend(b"err\n"),
                Do::Part => o.extend(b"part"),
                Do::Bytes => o.extend(b"\xff\xc3"),
            }
            (o.clone(), e.clone())
        })
        .collect()
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Typing {
    /// everything at once, then the end of input
    All,
    /// everything at once, the input stays open
    Open,
    /// each line when the output up to there has appeared
    Step,
    /// as `Step`, with another client attached for every line
    Reattach,
}
#[derive(Clone, Debug)]
struct Prog {
    tcp: bool,
    json: bool,
    ds: Vec<Do>,
    extra: usize,
    code: i32,
    typing: Typing,
    shift: usize,
}
/// The bytes printed on both streams so far, in either format.
fn output(json: bool, s: &Session) -> Result<(Vec<u8>, Vec<u8>, Vec<(bool, Option<i32>)>, Option<u32>), Bad> {
    if !json {
        return Ok((s.out.got.clone(), s.err.got.clone(), vec![], None));
    }
    let (mut o, mut e, mut st, mut id) = (vec![], vec![], vec![], None);
    let mut lines = BufReader::new(&s.out.got[..]).lines().map_while(Result::ok).collect::<Vec<_>>();
    if s.out.open && s.out.got.last() != Some(&b'\n') {
        lines.pop();
    }
    for l in lines {
        match serde_json::from_str::<Content>(&l) {
            Ok(Content::Reply(Reply::ProcStdoutContents(x))) => {
                id = Some(x.id);
                o.extend(x.output)
            }
            Ok(Content::Reply(Reply::ProcStderrContents(x))) => {
                id = Some(x.id);
                e.extend(x.output)
            }
            Ok(Content::Reply(Reply::ProcStatus(x))) => st.push((x.is_alive, x.exit_code)),
            _ => return bad("output", format!("unexpected line {:?}", l)),
        }
    }
    Ok((o, e, st, id))
}
fn program(p: &Prog, patience: u32) -> Result<(), Bad> {
    with_host(p.tcp, |h| {
        let reads = p.ds.iter().filter(|d| matches!(d, Do::Read | Do::ReadErr)).count();
        let pool: [&[u8]; 6] = [b"a", b"", "ünï ☃".as_bytes(), b"  sp \\t ", &[b'x'; 700], b"b"];
        let input: Vec<Vec<u8>> = (0..reads + p.extra).map(|i| pool[(i + p.shift) % pool.len()].to_vec()).collect();
        let steps = expected(&p.ds, &input);
        let (want_o, want_e) = steps.last().cloned().unwrap_or_default();
        let post = (200 * patience).to_string();
        let fmt = ["--output-format", if p.json { "json" } else { "human" }];
        let argv = strings(&["exec", "--post-exit-duration", &post, "--", "sh", "-c", &script(&p.ds, p.code)]);
        let mut s = h.client(&fmt, &argv);
        let typed: Vec<Vec<u8>> = input.iter().map(|l| [&l[..], b"\n"].concat()).collect();
        // what earlier clients have shown
        let mut shown: (Vec<u8>, Vec<u8>) = Default::default();
        let see = |s: &mut Session, shown: &(Vec<u8>, Vec<u8>), want: &(Vec<u8>, Vec<u8>)| -> Result<(), Bad> {
            let t = std::time::Instant::now();
            loop {
                let (o, e, _, _) = output(p.json, s)?;
                let (o, e) = ([&shown.0[..], &o].concat(), [&shown.1[..], &e].concat());
                if o == want.0 && e == want.1 {
                    return Ok(());
                }
                if t.elapsed() > LONG / 2 || !s.out.open {
                    return bad("late-output", format!("without further input, {:?} and {:?} have appeared instead of {:?} and {:?}; the client says {:?}", String::from_utf8_lossy(&o), String::from_utf8_lossy(&e), String::from_utf8_lossy(&want.0), String::from_utf8_lossy(&want.1), String::from_utf8_lossy(&s.err.got)));
                }
                s.out.more(Duration::from_millis(2));
                s.err.more(Duration::from_micros(100));
            }
        };
        match p.typing {
            Typing::All | Typing::Open => {
                s.type_in(&typed.concat());
                if p.typing == Typing::All {
                    s.stdin = None;
                }
            }
            Typing::Step | Typing::Reattach => {
                let mut k = 0;
                let mut before: (Vec<u8>, Vec<u8>) = Default::default();
                for (d, after) in p.ds.iter().zip(&steps) {
                    if matches!(d, Do::Read | Do::ReadErr) {
                        see(&mut s, &shown, &before)?;
                        if p.typing == Typing::Reattach && k > 0 {
                            // the last client goes, another one takes over
                            let id = match output(p.json, &s)?.3 {
                                Some(x) => x,
                                None => return bad("output", "no process id".into()),
                            };
                            let _ = s.p.0.kill();
                            let _ = s.p.0.wait();
                            s.out.rest(LONG);
                            let (o, e, _, _) = output(p.json, &s)?;
                            shown.0.extend(o);
                            shown.1.extend(e);
                            s = h.client(&fmt, &strings(&["reattach", "--post-exit-duration", &post, &id.to_string()]));
                        }
                        s.type_in(&typed[k]);
                        k += 1;
                    }
                    before = after.clone();
                }
                for l in &typed[k..] {
                    s.type_in(l);
                }
            }
        }
        let end = s.end(LONG);
        let (o, e, st, _) = output(p.json, &s)?;
        let (o, e) = ([&shown.0[..], &o].concat(), [&shown.1[..], &e].concat());
        let say = || format!("{:?} and {:?}, status {:?}, client's end {:?}, its stderr {:?}", String::from_utf8_lossy(&o), String::from_utf8_lossy(&e), st, end, String::from_utf8_lossy(&s.err.got));
        if o != want_o || (e != want_e) {
            return bad("program-output", format!("the output is {}", say()));
        }
        match end {
            Some(0) => (),
            Some(_) => return bad("failed", format!("the client fails: {}", say())),
            None => return bad("endless", format!("the client does not end: {}", say())),
        }
        if p.json && (st != [(false, Some(p.code))] || !s.err.got.is_empty()) {
            return bad("status", format!("the exit code {} is not reported: {}", p.code, say()));
        }
        Ok(())
    })
}

pub fn run(ctx: &Ctx) -> i32 {
    let s = |x: &str| x.to_string();
    let al: Vec<Line> = vec![
        Line::Version,
        Line::Op(Op::Mkdir(s("n"), false)),
        Line::Op(Op::RemoveU(s("a"))),
        Line::Op(Op::List(s(""))),
        Line::Op(Op::RenameU(s("a"), s("c"))),
        Line::Op(Op::Rmdir(s("d"), true)),
        Line::Heartbeat,
        Line::Capabilities,
        Line::Batch,
        Line::Chain("a"),
        Line::Many(300),
        Line::Bad(""),
        Line::Bad("   "),
        Line::Bad("nonsense"),
        Line::Bad("{\"type\":\"version_request\""),
        Line::Bad("{\"type\":\"version_reply\",\"payload\":{\"version\":\"1\"}}"),
        Line::Bad("{\"type\":\"unknown_request\"}"),
        Line::Bad("{\"content\":{\"type\":\"unknown_request\"},\"metadata\":{\"cb\":\"1\"}}"),
        Line::Bad("{\"content\":{\"type\":\"heartbeat_reply\"},\"metadata\":{}}"),
        Line::Bad("{\"metadata\":{}}"),
        Line::Bad("[]"),
    ];
    let mut cases: Vec<(How, Vec<Line>)> = vec![];
    let mut k = 0;
    for tcp in [false, true] {
        for meta in [false, true] {
            for redirect in [false, true] {
                for feed in [Feed::Step, Feed::Burst, Feed::Cut] {
                    let how = How { tcp, meta, redirect, feed, arg: false, relative: false };
                    for x in &al {
                        // the first line is given as an argument
                        cases.push((How { arg: true, feed: Feed::Step, relative: redirect, ..how }, vec![x.clone()]));
                        for y in &al {
                            k += 1;
                            if ctx.quick() && feed == Feed::Burst && redirect {
                                continue;
                            }
                            cases.push((How { relative: k % 2 == 0, arg: k % 3 == 0 && feed != Feed::Cut, ..how }, vec![x.clone(), y.clone()]));
                            if feed == Feed::Step && (!ctx.quick() || tcp && !redirect) {
                                for z in &al {
                                    k += 1;
                                    // a step of three, so that all pairs of lines meet every third
                                    if !ctx.quick() || k % 4 == 0 {
                                        cases.push((How { relative: k % 8 < 4, ..how }, vec![x.clone(), y.clone(), z.clone()]));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    // a last line that is empty and has no end is no line
    cases.retain(|(h, l)| !(h.feed == Feed::Cut && l.last().unwrap().text(&|p: &str| p.to_string(), None).is_empty()));
    // an empty argument counts as none
    cases.retain(|(h, l)| !(h.arg && matches!(l[0], Line::Bad(""))));
    ctx.note("sessions", cases.len() as u64);
    par_items(ctx, &cases, |ctx, i, (how, lines)| {
        last_case(|| format!("{:?} {:?}", how, lines));
        ctx.states.fetch_add(1, Ordering::Relaxed);
        ctx.traces.fetch_add(1, Ordering::Relaxed);
        match session(ctx, *how, lines) {
            Ok(()) => {
                ctx.outcome("session as expected");
                if i % 1501 == 7 {
                    ctx.sample(json!({"how": format!("{:?}", how), "lines": format!("{:?}", lines)}));
                }
            }
            Err(b) => ctx.violation(&b.0, &b.1, json!({"how": format!("{:?}", how), "lines": format!("{:?}", lines)})),
        }
    });
    let mut ps: Vec<Prog> = vec![];
    let mut lists: Vec<Vec<Do>> = vec![vec![]];
    let mut layer = lists.clone();
    for _ in 0..ctx.pick(2, 3) {
        layer = layer.iter().flat_map(|l| DOS.iter().map(move |d| [&l[..], &[*d]].concat())).collect();
        lists.extend(layer.clone());
    }
    let mut k = 0;
    for tcp in [false, true] {
        for json in [false, true] {
            for ds in &lists {
                for typing in [Typing::All, Typing::Open, Typing::Step, Typing::Reattach] {
                    let reads = ds.iter().filter(|d| matches!(d, Do::Read | Do::ReadErr)).count();
                    if typing == Typing::Reattach && (reads < 2 || !json) || typing == Typing::Step && reads == 0 {
                        continue;
                    }
                    for extra in [0, 1, 3] {
                        k += 1;
                        if extra == 3 && ctx.quick() && k % 2 == 0 {
                            continue;
                        }
                        ps.push(Prog { tcp, json, ds: ds.clone(), extra, code: [0, 3, 255][k % 3], typing, shift: k });
                    }
                }
            }
        }
    }
    ctx.note("programs", ps.len() as u64);
    par_items(ctx, &ps, |ctx, i, p| {
        last_case(|| format!("{:?}", p));
        ctx.states.fetch_add(1, Ordering::Relaxed);
        ctx.traces.fetch_add(1, Ordering::Relaxed);
        ctx.transitions.fetch_add(p.ds.len() as u64 + 1, Ordering::Relaxed);
        // output that comes late is waited for as long as the client was
        // told to, so on a busy machine that is not to be taken at its word
        match program(p, 1).or_else(|b| if b.0 == "program-output" { program(p, 10) } else { Err(b) }) {
            Ok(()) => {
                ctx.outcome("program as expected");
                if i % 301 == 7 {
                    ctx.sample(json!(format!("{:?}", p)));
                }
            }
            Err(b) => ctx.violation(&b.0, &b.1, json!({"program": format!("{:?}", p)})),
        }
    });
    ctx.finish(
        "model_checking",
        "all sequences up to the depth of input lines (requests of every kind of outcome, malformed lines) to an interactive session, in every mode, transport and manner of feeding, each answer and the files compared with a model; all remote programs up to so many steps of reading and printing, with all manners of typing, attached to once or again for every line. states = sessions and programs run as real processes.",
        true,
        &["real processes and time: the order of events within the programs is theirs", "input ends or stays open after all that the remote program reads"],
    )
}
