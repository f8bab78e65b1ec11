//! C16: remote processes.  A child process takes its steps on command; every
//! interleaving of its steps with client requests is run on a real server.
use crate::core::*;
use crate::rig::*;
use over_there::core::{request::*, Reply, Request};
use serde_json::json;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::os::unix::net::{UnixListener, UnixStream};
use std::sync::atomic::Ordering;
use std::time::Duration;

type Bad = (&'static str, String);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum L {
    /// the process writes 3 (2) bytes
    Out,
    ErrOut,
    /// more than its pipe holds
    BigOut,
    BigErr,
    /// the process reads everything written to it so far
    In,
    CloseOut,
    Exit(u8),
    Signal,
    // requests
    ReadOut,
    ReadErr,
    WriteIn,
    WriteNothing,
    Status,
    Kill,
    /// the server gets time
    Settle,
    /// the same from another client
    ReadOut2,
    /// two reads at once
    BatchOut,
    /// status and reads, in order, in one request
    Seq,
}
use L::*;

struct Child {
    id: u32,
    s: Option<UnixStream>,
    streams: [bool; 3],
    /// produced so far
    made: [usize; 2],
    got: [Vec<u8>; 2],
    closed_out: bool,
    sent: Vec<u8>,
    consumed: usize,
    /// exit code, once ended
    ended: Option<Option<i32>>,
    known: bool,
    /// the status that was reported
    reported: bool,
}
fn pattern(i: usize, k: usize) -> u8 {
    ((k * k + 7 * k + i * 131) % 253) as u8
}
struct W {
    rig: Rig,
    #[allow(dead_code)]
    dir: Scratch,
    sock: String,
    listener: UnixListener,
}
thread_local! {
    static WORLD: RefCell<Option<W>> = const { RefCell::new(None) };
}
fn with<R>(f: impl FnOnce(&mut W) -> R) -> R {
    WORLD.with(|x| {
        let mut x = x.borrow_mut();
        if x.as_ref().map(|x| x.rig.dead || x.rig.asked > 5_000).unwrap_or(true) {
            *x = None;
            let dir = Scratch::new("proc");
            let sock = dir.0.join("s").to_string_lossy().to_string();
            let listener = UnixListener::bind(&sock).unwrap();
            let rig = Rig::new(Cfg { clients: 2, ..Default::default() });
            *x = Some(W { rig, dir, sock, listener });
        }
        f(x.as_mut().unwrap())
    })
}
pub fn program() -> String {
    std::env::current_exe().unwrap().parent().unwrap().join("otv-child").to_string_lossy().to_string()
}
fn receive(s: &mut UnixStream) -> Option<Vec<u8>> {
    let mut n = [0; 4];
    s.read_exact(&mut n).ok()?;
    let mut v = vec![0; u32::from_be_bytes(n) as usize];
    s.read_exact(&mut v).ok()?;
    Some(v)
}
fn order(s: &mut UnixStream, c: u8, n: u32) {
    let mut b = vec![c];
    b.extend_from_slice(&n.to_be_bytes());
    s.write_all(&b).expect("child takes commands");
}
fn zombie(pid: u32) -> bool {
    match std::fs::read_to_string(format!("/proc/{}/stat", pid)) {
        Err(_) => true,
        Ok(s) => s.rsplit(')').next().map(|r| r.trim_start().starts_with('Z') || r.trim_start().starts_with('X')).unwrap_or(true),
    }
}
fn until(what: impl Fn() -> bool) -> bool {
    let t = real_now();
    while real_now() - t < Duration::from_secs(10) {
        if what() {
            return true;
        }
        std::thread::yield_now();
    }
    false
}
fn ask(w: &mut W, peer: usize, r: Request) -> Result<Reply, Bad> {
    match w.rig.ask_from(peer, r.clone()) {
        Some(x) => Ok(x),
        None => Err(("silent", format!("{:?} got no reply", r))),
    }
}
fn beat(w: &mut W) -> Result<(), Bad> {
    match ask(w, 0, Request::Heartbeat)? {
        Reply::Heartbeat => Ok(()),
        x => Err(("silent", format!("heartbeat answered {:?}", x))),
    }
}
fn start(w: &mut W, streams: [bool; 3], extra: &[&str], dir: Option<String>) -> Result<(Child, Vec<String>), Bad> {
    let mut args = vec![w.sock.clone()];
    args.extend(extra.iter().map(|s| s.to_string()));
    let req = Request::ExecProc(ExecProcArgs { command: program(), args, stdin: streams[0], stdout: streams[1], stderr: streams[2], current_dir: dir });
    let id = match ask(w, 0, req)? {
        Reply::ProcStarted(x) => x.id,
        x => return Err(("start", format!("starting answered {:?}", x))),
    };
    let (mut s, _) = w.listener.accept().unwrap();
    s.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
    let hello = receive(&mut s).expect("child says hello");
    let hello: Vec<String> = String::from_utf8_lossy(&hello).split('\u{1}').map(|x| x.to_string()).collect();
    if hello[0] != id.to_string() {
        return Err(("start", format!("process {} was reported as {}", hello[0], id)));
    }
    Ok((Child { id, s: Some(s), streams, made: [0; 2], got: [vec![], vec![]], closed_out: false, sent: vec![], consumed: 0, ended: None, known: true, reported: false }, hello))
}
fn take(c: &mut Child, i: usize, r: &Reply, alive: bool) -> Result<(), Bad> {
    let v = match r {
        Reply::ProcStdoutContents(x) if i == 0 && x.id == c.id => &x.output,
        Reply::ProcStderrContents(x) if i == 1 && x.id == c.id => &x.output,
        Reply::Error(_) if !alive || !c.streams[1 + i] => return Ok(()),
        x => return Err(("read", format!("reading stream {} (asked for: {}) answered {:?}", i + 1, c.streams[1 + i], x))),
    };
    if !alive {
        return Err(("forgotten", format!("a process that was killed answers reads: {:?}", r)));
    }
    if !c.streams[1 + i] {
        return Err(("unasked", format!("stream {} was not asked for, but reading it gave {:?}", i + 1, r)));
    }
    c.got[i].extend_from_slice(v);
    let want: Vec<u8> = (0..c.got[i].len()).map(|k| pattern(i, k)).collect();
    if c.got[i] != want || c.got[i].len() > c.made[i] {
        let at = c.got[i].iter().zip(&want).position(|(a, b)| a != b).unwrap_or(c.made[i]);
        return Err(("output", format!("what was read of stream {} ({} bytes) is not a beginning of what the process wrote ({} bytes): byte {} differs", i + 1, c.got[i].len(), c.made[i], at)));
    }
    Ok(())
}
fn status(c: &mut Child, r: &Reply, alive: bool) -> Result<(), Bad> {
    match r {
        Reply::ProcStatus(x) if alive && x.id == c.id => {
            let want = (c.ended.is_none(), c.ended.flatten());
            if (x.is_alive, x.exit_code) != want {
                return Err(("status", format!("reported alive {} code {:?}, it is alive {} code {:?}", x.is_alive, x.exit_code, want.0, want.1)));
            }
            c.reported |= !x.is_alive;
            Ok(())
        }
        Reply::Error(_) if !alive => Ok(()),
        x => Err(("status", format!("status answered {:?} for a process that is {}known", x, if alive { "" } else { "not " }))),
    }
}
/// Wait for the child's answer while the server runs.
fn answer(w: &mut W, c: &mut Child) -> Result<Vec<u8>, Bad> {
    let s = c.s.as_mut().unwrap();
    s.set_nonblocking(true).unwrap();
    let t = real_now();
    loop {
        let mut b = [0; 1];
        let n = unsafe { libc::recv(std::os::unix::io::AsRawFd::as_raw_fd(s), b.as_mut_ptr() as *mut _, 1, libc::MSG_PEEK) };
        if n > 0 {
            break;
        }
        if real_now() - t > Duration::from_secs(10) {
            s.set_nonblocking(false).unwrap();
            return Err(("stuck", "the process cannot go on writing although the server takes its output".into()));
        }
        beat(w)?;
    }
    s.set_nonblocking(false).unwrap();
    Ok(receive(s).expect("child answers"))
}
/// One step; false if it does not apply (the process has ended).
fn step(ctx: &Ctx, w: &mut W, c: &mut Child, l: L) -> Result<bool, Bad> {
    let alive = c.known;
    let id = c.id;
    match l {
        Out | ErrOut | BigOut | BigErr | In | CloseOut | Exit(_) | Signal => {
            if c.ended.is_some() {
                return Ok(false);
            }
        }
        _ => (),
    }
    ctx.transitions.fetch_add(1, Ordering::Relaxed);
    match l {
        Out | ErrOut | BigOut | BigErr => {
            let i = (l == ErrOut || l == BigErr) as usize;
            if i == 0 && c.closed_out {
                return Ok(false);
            }
            let big = l == BigOut || l == BigErr;
            let n = if big { 6000 } else { 3 - i };
            order(c.s.as_mut().unwrap(), b"oe"[i], n as u32);
            if c.streams[1 + i] {
                c.made[i] += n;
            }
            if big {
                answer(w, c)?;
            } else if receive(c.s.as_mut().unwrap()).is_none() {
                // its pipe is full of what the server did not take yet
                return Err(("stuck", "the process cannot write 3 bytes".into()));
            }
        }
        In => {
            let s = c.s.as_mut().unwrap();
            if c.streams[0] {
                order(s, b'?', 0);
                let n: usize = String::from_utf8_lossy(&receive(s).unwrap()).parse().unwrap();
                let want = c.sent[c.consumed..].to_vec();
                if n != want.len() {
                    return Err(("input", format!("{} bytes are there to read, {} were reported as written", n, want.len())));
                }
                order(s, b'i', n as u32);
                let v = receive(s).unwrap();
                if v != want {
                    return Err(("input", format!("the process read {:?}, written was {:?}", v, want)));
                }
                c.consumed += n;
            } else {
                order(s, b'i', 1);
                let v = receive(s).unwrap();
                if !v.is_empty() {
                    return Err(("input", "input appeared on a stream that was not asked for".into()));
                }
            }
        }
        CloseOut => {
            order(c.s.as_mut().unwrap(), b'c', 1);
            receive(c.s.as_mut().unwrap());
            c.closed_out = true;
        }
        Exit(_) | Signal => {
            let s = c.s.as_mut().unwrap();
            let code = match l {
                Exit(x) => {
                    order(s, b'x', x as u32);
                    Some(x as i32)
                }
                _ => {
                    order(s, b's', libc::SIGTERM as u32);
                    None
                }
            };
            if !until(|| zombie(id)) {
                return Err(("harness", "the child does not end".into()));
            }
            c.ended = Some(code);
        }
        ReadOut | ReadOut2 => {
            let r = ask(w, (l == ReadOut2) as usize, Request::ReadProcStdout(ReadProcStdoutArgs { id }))?;
            take(c, 0, &r, alive)?;
        }
        ReadErr => {
            let r = ask(w, 0, Request::ReadProcStderr(ReadProcStderrArgs { id }))?;
            take(c, 1, &r, alive)?;
        }
        WriteIn | WriteNothing => {
            let data: Vec<u8> = if l == WriteIn { (0..2).map(|k| (c.sent.len() * 5 + k) as u8).collect() } else { vec![] };
            match ask(w, 0, Request::WriteProcStdin(WriteProcStdinArgs { id, input: data.clone() }))? {
                Reply::ProcStdinWritten(x) if alive && c.streams[0] && x.id == id => c.sent.extend(data),
                Reply::Error(_) if !alive || !c.streams[0] || c.ended.is_some() => (),
                x => return Err(("write", format!("writing input answered {:?}", x))),
            }
        }
        Status => {
            let r = ask(w, 0, Request::ReadProcStatus(ReadProcStatusArgs { id }))?;
            status(c, &r, alive)?;
        }
        Kill => match ask(w, 0, Request::KillProc(KillProcArgs { id }))? {
            Reply::ProcKilled(x) if alive && x.id == id => {
                if x.exit_code != c.ended.flatten() {
                    return Err(("kill", format!("killing reported exit code {:?}, it is {:?}", x.exit_code, c.ended.flatten())));
                }
                c.known = false;
                c.ended = c.ended.or(Some(None));
                if !zombie(id) {
                    return Err(("kill", "a process that was reported as killed runs on".into()));
                }
            }
            Reply::Error(_) if !alive => (),
            // gone already: the id must be forgotten all the same
            Reply::Error(_) if c.ended.is_some() => c.known = false,
            x => return Err(("kill", format!("killing a process that is {}known answered {:?}", if alive { "" } else { "not " }, x))),
        },
        Settle => {
            beat(w)?;
            beat(w)?;
        }
        BatchOut => {
            let one = Request::ReadProcStdout(ReadProcStdoutArgs { id });
            match ask(w, 0, Request::Batch(vec![one.clone(), one].into()))? {
                Reply::Batch(b) if b.results.len() == 2 => {
                    // one of them got what there was
                    let (first, second) = match (&b.results[0], &b.results[1]) {
                        (Reply::ProcStdoutContents(a), _) if a.output.is_empty() => (1, 0),
                        _ => (0, 1),
                    };
                    take(c, 0, &b.results[first], alive)?;
                    take(c, 0, &b.results[second], alive)?;
                }
                x => return Err(("read", format!("a batch of reads answered {:?}", x))),
            }
        }
        Seq => {
            let v = vec![
                crate::msgs::plain_op(Request::ReadProcStatus(ReadProcStatusArgs { id })),
                crate::msgs::plain_op(Request::ReadProcStdout(ReadProcStdoutArgs { id })),
            ];
            match ask(w, 0, Request::Sequence(v.into()))? {
                Reply::Sequence(x) if x.results.len() == 2 => {
                    status(c, &x.results[0], alive)?;
                    take(c, 0, &x.results[1], alive)?;
                }
                x => return Err(("read", format!("a sequence of status and read answered {:?}", x))),
            }
        }
    }
    Ok(true)
}
/// The process ends and everything it wrote has to come out.
fn finish(ctx: &Ctx, w: &mut W, c: &mut Child) -> Result<(), Bad> {
    if c.known {
        step(ctx, w, c, Status)?;
        if c.ended.is_none() {
            step(ctx, w, c, Exit(7))?;
        }
        for i in 0..2 {
            if !c.streams[1 + i] {
                continue;
            }
            let t = real_now();
            while c.got[i].len() < c.made[i] {
                step(ctx, w, c, if i == 0 { ReadOut } else { ReadErr })?;
                if real_now() - t > Duration::from_secs(5) {
                    return Err(("lost", format!("only {} of {} bytes of stream {} can be read after the process ended", c.got[i].len(), c.made[i], i + 1)));
                }
            }
        }
        // nothing more, and the same status every time
        for l in [ReadOut, ReadErr, Status, Settle, ReadOut, ReadErr, Status] {
            step(ctx, w, c, l)?;
        }
        ctx.outcome("drained");
        step(ctx, w, c, Kill)?;
    } else {
        ctx.outcome("killed");
    }
    for l in [ReadOut, ReadErr, Status, WriteIn, Kill] {
        step(ctx, w, c, l)?;
    }
    Ok(())
}
fn case(ctx: &Ctx, streams: [bool; 3], seq: &[L]) {
    last_case(|| format!("{:?} {:?}", streams, seq));
    ctx.traces.fetch_add(1, Ordering::Relaxed);
    ctx.states.fetch_add(1, Ordering::Relaxed);
    with(|w| {
        let mut run = || -> Result<(), Bad> {
            let (mut c, _) = start(w, streams, &[], None)?;
            let r = (|| {
                for l in seq {
                    step(ctx, w, &mut c, *l)?;
                }
                finish(ctx, w, &mut c)
            })();
            // the child ends when its socket closes
            c.s = None;
            r
        };
        if let Err(b) = run() {
            w.rig.dead = true;
            ctx.violation(b.0, &b.1, json!({"streams": streams, "steps": format!("{:?}", seq)}));
        }
    });
}
/// Two processes at once.
fn two(ctx: &Ctx, seq: &[(usize, L)]) {
    last_case(|| format!("{:?}", seq));
    ctx.traces.fetch_add(1, Ordering::Relaxed);
    ctx.states.fetch_add(1, Ordering::Relaxed);
    with(|w| {
        let mut run = || -> Result<(), Bad> {
            let (a, _) = start(w, [true; 3], &[], None)?;
            let (b, _) = start(w, [true; 3], &[], None)?;
            let mut cs = [a, b];
            for (i, l) in seq {
                step(ctx, w, &mut cs[*i], *l)?;
            }
            finish(ctx, w, &mut cs[0])?;
            finish(ctx, w, &mut cs[1])
        };
        if let Err(b) = run() {
            w.rig.dead = true;
            ctx.violation(b.0, &b.1, json!({"two processes": format!("{:?}", seq)}));
        }
    });
}
fn starts(ctx: &Ctx) {
    let sub = Scratch::new("cwd");
    let real = sub.0.to_string_lossy().to_string();
    let here = std::env::current_dir().unwrap().to_string_lossy().to_string();
    let link = format!("{}.link", real);
    std::os::unix::fs::symlink(&real, &link).unwrap();
    let argsets: Vec<Vec<&str>> = vec![vec![], vec![""], vec!["a b", "c\"d'e"], vec!["-x", "--", "$HOME", "`ls`", "*"], vec!["\n", "ü☃", "\\"], vec!["x"; 40]];
    for args in &argsets {
        for (dir, want) in [(None, here.clone()), (Some(real.clone()), real.clone()), (Some(format!("{}/../{}/.", real, sub.0.file_name().unwrap().to_string_lossy())), real.clone()), (Some(link.clone()), real.clone()), (Some(".".into()), here.clone())] {
            ctx.traces.fetch_add(1, Ordering::Relaxed);
            let r = with(|w| -> Result<(), Bad> {
                let (mut c, hello) = start(w, [true; 3], args, dir.clone())?;
                if hello[1] != want {
                    return Err(("dir", format!("started in {}, asked for {:?}", hello[1], dir)));
                }
                if hello[2..].iter().map(|s| s.as_str()).ne(args.iter().copied()) {
                    return Err(("args", format!("started with {:?}, asked for {:?}", &hello[2..], args)));
                }
                step(ctx, w, &mut c, Kill).map(|_| ())
            });
            if let Err(b) = r {
                ctx.violation(b.0, &b.1, json!({"args": args, "dir": dir}));
            }
        }
    }
    // what cannot be started
    for (cmd, dir) in [("/no/such/program", None), (real.as_str(), None), ("", None), ("true", Some(format!("{}/absent", real))), ("true", Some("".to_string()))] {
        let r = with(|w| ask(w, 0, Request::ExecProc(ExecProcArgs { command: cmd.into(), args: vec![], stdin: true, stdout: true, stderr: true, current_dir: dir.clone() })));
        match r {
            Ok(Reply::Error(_)) => ctx.outcome("refused to start"),
            x => ctx.violation("start", &format!("starting {:?} in {:?} answered {:?}", cmd, dir, x), json!({"command": cmd, "dir": dir})),
        }
    }
    let _ = std::fs::remove_file(&link);
}
/// Input that the process does not read fills its pipe.
fn full_pipe(ctx: &Ctx) {
    for n in [4096usize, 4097, 10_000] {
        let r = with(|w| -> Result<(), Bad> {
            let (mut c, _) = start(w, [true; 3], &[], None)?;
            let data: Vec<u8> = (0..n).map(|k| (k % 23) as u8).collect();
            let before = w.rig.limit;
            let id = w.rig.send(0, Request::WriteProcStdin(WriteProcStdinArgs { id: c.id, input: data.clone() }));
            w.rig.limit = Duration::from_millis(1500);
            let hb = w.rig.ask_from(1, Request::Heartbeat);
            w.rig.limit = before;
            w.rig.dead = false;
            let stalled = !matches!(hb, Some(Reply::Heartbeat));
            if stalled {
                ctx.violation(if n > 4096 { "stdin-full" } else { "stdin-stall" }, "input for a process that does not read it stalls the server: no other request is answered until the process reads or ends", json!({"bytes": n}));
            }
            // once it is read everything arrives in order and the server goes on
            order(c.s.as_mut().unwrap(), b'i', n as u32);
            let t = real_now();
            let s = c.s.as_mut().unwrap();
            s.set_nonblocking(true).unwrap();
            let mut acc: Vec<u8> = vec![];
            while acc.len() < n + 4 && real_now() - t < Duration::from_secs(10) {
                let mut b = [0; 4096];
                match s.read(&mut b) {
                    Ok(k) => acc.extend_from_slice(&b[..k]),
                    _ => {
                        w.rig.block_on(async { tokio::task::yield_now().await });
                    }
                }
                w.rig.recv(0, Duration::from_millis(1));
            }
            let _ = id;
            if acc.get(4..) != Some(&data[..]) {
                return Err(("input", format!("of {} bytes of input {} arrived", n, acc.len().saturating_sub(4))));
            }
            s.set_nonblocking(false).unwrap();
            beat(w)?;
            step(ctx, w, &mut c, Kill).map(|_| ())
        });
        ctx.traces.fetch_add(1, Ordering::Relaxed);
        if let Err(b) = r {
            ctx.violation(b.0, &b.1, json!({"unread input": n}));
        }
    }
}
fn product(ls: &[L], n: usize) -> Vec<Vec<L>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|p: Vec<L>| ls.iter().map(move |e| { let mut q = p.clone(); q.push(*e); q })).collect();
    }
    v
}
/// Nothing happens to a process after it ended; killing ends it.
fn sensible(s: &[L]) -> bool {
    let mut ended = false;
    for l in s {
        match l {
            Out | ErrOut | BigOut | BigErr | In | CloseOut | Exit(_) | Signal if ended => return false,
            Exit(_) | Signal | Kill => ended = true,
            _ => (),
        }
    }
    true
}

pub fn run(ctx: &Ctx) -> i32 {
    guarded(ctx, || starts(ctx));
    guarded(ctx, || full_pipe(ctx));
    let main = [Out, ErrOut, In, Exit(3), ReadOut, ReadErr, WriteIn, Status, Kill, Settle];
    let mut items: Vec<([bool; 3], Vec<L>)> = vec![];
    for s in product(&main, ctx.pick(5, 6)) {
        items.push(([true; 3], s));
    }
    let wide = [Out, ErrOut, BigOut, BigErr, In, CloseOut, Exit(0), Exit(255), Signal, ReadOut, ReadErr, WriteIn, WriteNothing, Status, Kill, Settle, ReadOut2, BatchOut, Seq];
    for s in product(&wide, ctx.pick(3, 4)) {
        items.push(([true; 3], s));
    }
    for k in 0..7usize {
        for s in product(&[Out, ErrOut, In, Exit(1), ReadOut, ReadErr, WriteIn, Status, Kill], ctx.pick(2, 3)) {
            items.push(([k & 1 > 0, k & 2 > 0, k & 4 > 0], s));
        }
    }
    items.retain(|x| sensible(&x.1));
    ctx.note("interleavings", items.len() as u64);
    par_items(ctx, &items, |ctx, i, (f, s)| {
        case(ctx, *f, s);
        if i % 1501 == 9 && ctx.wants_sample() {
            ctx.sample(json!({"streams": f, "steps": format!("{:?}", s)}));
        }
    });
    let mut pairs: Vec<Vec<(usize, L)>> = vec![vec![]];
    for _ in 0..ctx.pick(3, 4) {
        pairs = pairs.into_iter().flat_map(|p| {
            let mut v = vec![];
            for i in 0..2 {
                for l in [Out, ReadOut, WriteIn, In, Exit(4), Status, Kill] {
                    let mut q = p.clone();
                    q.push((i, l));
                    v.push(q);
                }
            }
            v
        }).collect();
    }
    pairs.retain(|p| (0..2).all(|i| sensible(&p.iter().filter(|x| x.0 == i).map(|x| x.1).collect::<Vec<_>>())));
    ctx.note("interleavings_of_two_processes", pairs.len() as u64);
    par_items(ctx, &pairs, |ctx, _, s| two(ctx, s));
    ctx.finish(
        "model_checking",
        "all interleavings up to the depth of a commanded child process's steps with client requests (single, batched, in sequence, from two clients), for all choices of streams and for two processes, on a real server; outputs, input, status and exit codes compared with the record of what the process did",
        true,
        &["signals and scheduling of the child are the kernel's; the child takes a step only when told to"],
    )
}
