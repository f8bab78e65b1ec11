//! C15: expiry of idle files and processes.  The clock is virtual, cleanup
//! runs happen at known instants; every history of requests placed around
//! the instants that decide is compared with a table of last uses.
use crate::core::*;
use crate::fsx::{Bad, Fx, Model};
use crate::interpose::*;
use crate::rig::*;
use over_there::core::{request::*, Reply, ReplyError, Request};
use serde_json::json;
use std::cell::RefCell;
use std::sync::atomic::Ordering;
use std::time::Duration;

/// between cleanup runs
const P: Duration = Duration::from_millis(20_002);
const INTERVAL: Duration = Duration::from_secs(20);
const HALF: Duration = Duration::from_millis(10_001);
const NS: Duration = Duration::from_nanos(1);
/// 2.5 and 1.5 periods: reached exactly at a cleanup run by what happens
/// half a period before one
const TTL: Duration = Duration::from_millis(50_005);
const DEAD_TTL: Duration = Duration::from_millis(30_003);

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Wrap {
    Plain,
    Batch,
    Sequence,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Act {
    Read,
    Write,
    /// with a wrong signature
    StaleRead,
    StaleClose,
    /// onto a directory: refused
    BadRename,
    Rename,
    /// the path again, with the same or other permissions
    Open,
    Upgrade,
    Close,
    Remove,
    // processes
    Status,
    Stdout,
    /// not asked for at the start: refused
    Stderr,
    Stdin,
    Kill,
}
use Act::*;
const FILE_ACTS: [Act; 10] = [Read, Write, StaleRead, StaleClose, BadRename, Rename, Open, Upgrade, Close, Remove];
const PROC_ACTS: [Act; 5] = [Status, Stdout, Stderr, Stdin, Kill];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
    File,
    /// runs until killed
    Live,
    /// ends at once
    Brief,
}
/// In each period: what happens and whether half a period before its end, or
/// one nanosecond later.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
struct Ev {
    item: usize,
    act: Act,
    wrap: Wrap,
    late: bool,
}
struct Item {
    kind: Kind,
    id: u32,
    sig: u32,
    name: String,
    last: Duration,
    ttl: Duration,
    alive: bool,
    write: bool,
}

struct T {
    fx: Fx,
    now: Duration,
    cleaned: Duration,
    /// number of renames, for names
    n: usize,
}
thread_local! {
    static T_: RefCell<Option<T>> = const { RefCell::new(None) };
}
fn with<R>(f: impl FnOnce(&mut T) -> R) -> R {
    T_.with(|x| {
        let mut x = x.borrow_mut();
        if x.as_ref().map(|x| x.fx.rig.dead || x.fx.rig.asked > 10_000).unwrap_or(true) {
            *x = None;
            freeze_clock();
            let fx = Fx::new(Cfg { file_ttl: TTL, proc_ttl: TTL, dead_proc_ttl: DEAD_TTL, cleanup: INTERVAL, ..Default::default() });
            *x = Some(T { fx, now: Duration::from_secs(0), cleaned: Duration::from_secs(0), n: 0 });
        }
        f(x.as_mut().unwrap())
    })
}
impl T {
    fn advance(&mut self, d: Duration) {
        advance_clock(d);
        self.now += d;
    }
    fn settle(&mut self) -> Result<(), Bad> {
        for _ in 0..3 {
            match self.fx.rig.ask(Request::Heartbeat) {
                Some(Reply::Heartbeat) => (),
                x => return Err(("silent", format!("heartbeat answered {:?}", x))),
            }
        }
        Ok(())
    }
    /// The next cleanup run, at its time.
    fn clean(&mut self) -> Result<(), Bad> {
        let d = self.cleaned + P - self.now;
        self.advance(d);
        self.cleaned = self.now;
        self.settle()
    }
    fn ask(&mut self, r: Request) -> Result<Reply, Bad> {
        match self.fx.rig.ask(r.clone()) {
            Some(x) => Ok(x),
            None => Err(("silent", format!("{:?} got no reply", r))),
        }
    }
}
fn wrap(r: Request, w: Wrap) -> Request {
    match w {
        Wrap::Plain => r,
        Wrap::Batch => Request::Batch(vec![r].into()),
        Wrap::Sequence => Request::Sequence(vec![crate::msgs::plain_op(r)].into()),
    }
}
fn unwrap(r: Reply) -> Reply {
    match r {
        Reply::Batch(mut b) if b.results.len() == 1 => b.results.pop().unwrap(),
        Reply::Sequence(mut b) if b.results.len() == 1 => b.results.pop().unwrap(),
        x => x,
    }
}
fn ended(pid: u32) -> bool {
    match std::fs::read_to_string(format!("/proc/{}/stat", pid)) {
        Err(_) => true,
        Ok(s) => s.rsplit(')').next().map(|r| r.trim_start().starts_with('Z') || r.trim_start().starts_with('X')).unwrap_or(true),
    }
}
fn ends(pid: u32) -> bool {
    let t = real_now();
    while real_now() - t < Duration::from_secs(5) {
        if ended(pid) {
            return true;
        }
        std::thread::yield_now();
    }
    false
}
fn start(t: &mut T, k: Kind, i: usize) -> Result<Item, Bad> {
    let name = format!("f{}", i);
    let (id, sig) = match k {
        Kind::File => match t.ask(Request::OpenFile(OpenFileArgs { path: t.fx.abs(&name), create_if_missing: true, write_access: true, read_access: true }))? {
            Reply::FileOpened(x) => (x.id, x.sig),
            x => return Err(("start", format!("opening a file: {:?}", x))),
        },
        _ => {
            let (c, a) = if k == Kind::Live { ("cat", vec![]) } else { ("true", vec![]) };
            match t.ask(Request::ExecProc(ExecProcArgs { command: c.into(), args: a, stdin: true, stdout: true, stderr: false, current_dir: None }))? {
                Reply::ProcStarted(x) => (x.id, 0),
                x => return Err(("start", format!("starting a process: {:?}", x))),
            }
        }
    };
    if k == Kind::Brief && !ends(id) {
        return Err(("harness", "true does not end".into()));
    }
    Ok(Item { kind: k, id, sig, name, last: t.now, ttl: TTL, alive: true, write: true })
}
/// Does the reply fit an item that is there (`alive`) or not?
fn act(t: &mut T, it: &mut Item, e: &Ev) -> Result<(), Bad> {
    let (id, sig) = (it.id, it.sig);
    let path = t.fx.abs(&it.name);
    t.n += 1;
    let fresh = format!("r{}", t.n);
    let req = match e.act {
        Read => Request::ReadFile(ReadFileArgs { id, sig }),
        Write => Request::WriteFile(WriteFileArgs { id, sig, contents: vec![t.n as u8] }),
        StaleRead => Request::ReadFile(ReadFileArgs { id, sig: !sig }),
        StaleClose => Request::CloseFile(CloseFileArgs { id, sig: !sig }),
        BadRename => Request::RenameFile(RenameFileArgs { id, sig, to: t.fx.abs("d") }),
        Rename => Request::RenameFile(RenameFileArgs { id, sig, to: t.fx.abs(&fresh) }),
        Open => Request::OpenFile(OpenFileArgs { path, create_if_missing: false, write_access: false, read_access: true }),
        Upgrade => Request::OpenFile(OpenFileArgs { path, create_if_missing: true, write_access: true, read_access: true }),
        Close => Request::CloseFile(CloseFileArgs { id, sig }),
        Remove => Request::RemoveFile(RemoveFileArgs { id, sig }),
        Status => Request::ReadProcStatus(ReadProcStatusArgs { id }),
        Stdout => Request::ReadProcStdout(ReadProcStdoutArgs { id }),
        Stderr => Request::ReadProcStderr(ReadProcStderrArgs { id }),
        Stdin => Request::WriteProcStdin(WriteProcStdinArgs { id, input: b"x".to_vec() }),
        Kill => Request::KillProc(KillProcArgs { id }),
    };
    let reply = unwrap(t.ask(wrap(req.clone(), e.wrap))?);
    let was = it.alive;
    if !was && (e.act == Open || e.act == Upgrade) {
        // a new life
        match &reply {
            Reply::FileOpened(x) => {
                if x.id == it.id {
                    return Err(("kept", format!("{:?}: a file that expired is still open under its id", req)));
                }
                it.id = x.id;
                it.sig = x.sig;
                it.alive = true;
                it.write = e.act == Upgrade;
                it.last = t.now;
                it.ttl = TTL;
                return Ok(());
            }
            // closed by removal
            Reply::Error(_) if e.act == Open => return Ok(()),
            x => return Err(("start", format!("opening again: {:?}", x))),
        }
    }
    let ok = match (&reply, e.act) {
        (Reply::Error(_), _) if !was => true,
        (_, _) if !was => return Err(("kept", format!("{:?} should have expired, but the answer is {:?}", req, reply))),
        (Reply::FileContents(_), Read) | (Reply::FileWritten(_), Write) | (Reply::Error(ReplyError::FileSigChanged(_)), StaleRead) | (Reply::FileRenamed(_), Rename) | (Reply::FileClosed(_), Close) | (Reply::FileRemoved(_), Remove) => true,
        (Reply::Error(ReplyError::Io(_)), StaleClose) | (Reply::Error(ReplyError::Io(_)), BadRename) | (Reply::Error(ReplyError::Io(_)), Stderr) => true,
        (Reply::Error(ReplyError::Io(_)), Write) => !it.write,
        (Reply::FileOpened(x), Open) | (Reply::FileOpened(x), Upgrade) => x.id == id,
        (Reply::ProcStatus(x), Status) => x.id == id && x.is_alive == (it.kind == Kind::Live),
        (Reply::ProcStdoutContents(_), Stdout) | (Reply::ProcKilled(_), Kill) => true,
        (Reply::ProcStdinWritten(_), Stdin) => true,
        // to a process that has ended
        (Reply::Error(_), Stdin) | (Reply::Error(_), Kill) => it.kind == Kind::Brief,
        _ => false,
    };
    if !ok {
        return Err(("expired", format!("{:?} is not to expire yet, but the answer is {:?}", req, reply)));
    }
    if !was {
        return Ok(());
    }
    it.last = t.now;
    it.ttl = TTL;
    match &reply {
        Reply::FileWritten(x) => it.sig = x.sig,
        Reply::FileRenamed(x) => {
            it.sig = x.sig;
            it.name = fresh;
        }
        Reply::ProcStatus(x) if !x.is_alive => it.ttl = DEAD_TTL,
        _ => (),
    }
    it.write |= e.act == Upgrade;
    if matches!(e.act, Close | Remove | Kill) {
        it.alive = false;
        if e.act == Kill && !ends(id) {
            return Err(("kill", format!("process {} runs on after it was killed", id)));
        }
    }
    Ok(())
}
/// What can be seen without naming the item.
fn look(t: &mut T, it: &Item) -> Result<bool, Bad> {
    match it.kind {
        Kind::File => {
            let path = t.fx.abs(&it.name);
            if !std::path::Path::new(&path).exists() {
                return Ok(false);
            }
            // refused exactly if the file is open
            match t.ask(Request::RenameUnopenedFile(RenameUnopenedFileArgs { from: path.clone(), to: path }))? {
                Reply::UnopenedFileRenamed(_) => Ok(false),
                Reply::Error(_) => Ok(true),
                x => Err(("reply", format!("{:?}", x))),
            }
        }
        _ => Ok(!ended(it.id)),
    }
}
fn expire(t: &T, items: &mut [Item]) -> Vec<u32> {
    let mut v = vec![];
    for it in items.iter_mut() {
        if it.alive && t.now - it.last >= it.ttl {
            it.alive = false;
            if it.kind != Kind::File {
                v.push(it.id);
            }
        }
    }
    v
}
fn compare(ctx: &Ctx, t: &mut T, items: &mut [Item]) -> Result<(), Bad> {
    let before: Vec<bool> = items.iter().map(|i| i.alive).collect();
    let pids = expire(t, items);
    for (i, b) in items.iter().zip(before) {
        match (b, i.alive) {
            (true, true) => ctx.outcome(&format!("{:?} kept, {}", i.kind, if t.now - i.last == i.ttl - NS { "one nanosecond short" } else { "not yet due" })),
            (true, false) => ctx.outcome(&format!("{:?} expired, {}", i.kind, if t.now - i.last == i.ttl { "to the nanosecond" } else { "overdue" })),
            _ => (),
        }
    }
    for pid in pids {
        if !ends(pid) {
            return Err(("kept", format!("process {} expired but runs on", pid)));
        }
    }
    for it in items.iter() {
        if it.kind == Kind::Brief {
            continue;
        }
        let seen = look(t, it)?;
        if seen != it.alive {
            let k = if seen { "kept" } else { "expired" };
            return Err((k, format!("{:?} {} was last named {:?} before this cleanup (time to live {:?}) and is {}", it.kind, it.id, t.now - it.last, it.ttl, if seen { "still there" } else { "gone" })));
        }
    }
    Ok(())
}
fn play(ctx: &Ctx, t: &mut T, kinds: &[Kind], evs: &[Option<Ev>]) -> Result<(), Bad> {
    t.fx.slots.clear();
    let empty = Model { tree: Default::default(), data: vec![], handles: vec![] };
    t.fx.reset(&empty)?;
    std::fs::create_dir(t.fx.root.join("d")).unwrap();
    t.clean()?;
    t.advance(HALF);
    let mut items = vec![];
    for (i, k) in kinds.iter().enumerate() {
        items.push(start(t, *k, i)?);
    }
    t.clean()?;
    for e in evs {
        if let Some(e) = e {
            t.advance(HALF + if e.late { NS } else { Duration::from_secs(0) });
            act(t, &mut items[e.item], e)?;
        }
        t.clean()?;
        ctx.transitions.fetch_add(1, Ordering::Relaxed);
        compare(ctx, t, &mut items)?;
    }
    // everything named now answers as the table says, at this very moment
    for i in 0..items.len() {
        let a = if items[i].kind == Kind::File { Read } else { Status };
        act(t, &mut items[i], &Ev { item: i, act: a, wrap: Wrap::Plain, late: false })?;
    }
    // and expires when it is left alone
    for _ in 0..3 {
        t.clean()?;
        compare(ctx, t, &mut items)?;
    }
    if items.iter().any(|i| i.alive) {
        return Err(("harness", "something is alive in the end".into()));
    }
    for e in std::fs::read_dir("/proc/self/fd").unwrap() {
        if let Ok(p) = e.and_then(|e| std::fs::read_link(e.path())) {
            if p.starts_with(&t.fx.root) {
                return Err(("leak", format!("{:?} is still open although every file expired", p)));
            }
        }
    }
    Ok(())
}
fn check(ctx: &Ctx, kinds: &[Kind], evs: &[Option<Ev>]) {
    last_case(|| format!("{:?} {:?}", kinds, evs));
    ctx.traces.fetch_add(1, Ordering::Relaxed);
    ctx.states.fetch_add(1, Ordering::Relaxed);
    with(|t| {
        if let Err(b) = play(ctx, t, kinds, evs) {
            // start afresh after a disagreement
            t.fx.rig.dead = true;
            ctx.violation(b.0, &b.1, json!({"items": format!("{:?}", kinds), "periods": format!("{:?}", evs)}));
        }
    });
}

fn events(kinds: &[Kind], wraps: bool) -> Vec<Option<Ev>> {
    let mut v = vec![None];
    for (i, k) in kinds.iter().enumerate() {
        for act in if *k == Kind::File { &FILE_ACTS[..] } else { &PROC_ACTS[..] } {
            for late in [false, true] {
                v.push(Some(Ev { item: i, act: *act, wrap: Wrap::Plain, late }));
                if wraps {
                    v.push(Some(Ev { item: i, act: *act, wrap: Wrap::Batch, late }));
                    v.push(Some(Ev { item: i, act: *act, wrap: Wrap::Sequence, late }));
                }
            }
        }
    }
    v
}
fn product(evs: &[Option<Ev>], n: usize) -> Vec<Vec<Option<Ev>>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|p: Vec<Option<Ev>>| evs.iter().map(move |e| { let mut q = p.clone(); q.push(*e); q })).collect();
    }
    v
}

pub fn run(ctx: &Ctx) -> i32 {
    let mut items: Vec<(Vec<Kind>, Vec<Option<Ev>>)> = vec![];
    let mut add = |kinds: &[Kind], wraps: bool, depth: usize, tail: usize| {
        let evs = events(kinds, wraps);
        for mut p in product(&evs, depth) {
            for _ in 0..tail {
                p.push(None);
            }
            items.push((kinds.to_vec(), p));
        }
    };
    // one item alone, everything that can name it, then waiting
    for tail in 0..4 {
        add(&[Kind::File], true, 1, tail);
        add(&[Kind::Live], true, 1, tail);
        add(&[Kind::Brief], true, 1, tail);
        add(&[Kind::File], false, 2, tail);
        add(&[Kind::Live], false, 2, tail);
        add(&[Kind::Brief], false, 2, tail);
    }
    add(&[Kind::File], false, 3, ctx.pick(0, 1));
    add(&[Kind::Live, Kind::Brief], false, 2, 0);
    add(&[Kind::File, Kind::File], false, 2, 1);
    add(&[Kind::File, Kind::Live], false, 2, 1);
    add(&[Kind::Brief], false, 3, 0);
    add(&[Kind::Live], false, 3, 1);
    add(&[Kind::Live, Kind::Brief], false, 2, 1);
    add(&[Kind::File, Kind::Brief], false, 2, 1);
    add(&[Kind::File, Kind::File, Kind::Live], false, 2, 0);
    if !ctx.quick() {
        add(&[Kind::File, Kind::Brief], false, 3, 0);
        add(&[Kind::File, Kind::File], false, 3, 1);
        add(&[Kind::File, Kind::File, Kind::Live], false, 2, 1);
        add(&[Kind::File], false, 4, 1);
        add(&[Kind::Live], false, 4, 0);
        add(&[Kind::Brief], false, 4, 1);
        add(&[Kind::Live, Kind::Live], false, 3, 0);
        add(&[Kind::Live, Kind::Brief], false, 3, 0);
    }
    ctx.note("histories", items.len() as u64);
    par_items(ctx, &items, |ctx, i, (k, e)| {
        check(ctx, k, e);
        if i % 2003 == 9 && ctx.wants_sample() {
            ctx.sample(json!({"items": format!("{:?}", k), "periods": format!("{:?}", e)}));
        }
    });
    ctx.finish(
        "model_checking",
        "all histories of requests (at, and one nanosecond after, the instant from which the time-to-live ends exactly at a cleanup run) over up to three items and several cleanup runs, under a virtual clock, on a real server with real files and processes",
        true,
        &["a process is ended by SIGKILL within 5 s of real time"],
    )
}
