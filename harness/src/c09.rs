//! C09: sequences in order and stopping at errors; batches by position;
//! nesting limit.
use crate::c08::custom;
use crate::core::*;
use crate::rig::*;
use over_there::core::{request, Reply, Request};
use serde_json::json;
use std::cell::RefCell;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, PartialEq)]
enum Op {
    /// custom operation: succeeds, fails, panics, yields before succeeding
    C(u8),
    Heartbeat,
    /// a read of a file that is not open
    Bad,
    /// an operation nobody answers
    Forward,
    /// an operation of another kind, see `real`
    Real(usize),
    Seq(Vec<Op>),
    Batch(Vec<Op>),
}
/// Expected reply shape.
#[derive(Clone, Debug, PartialEq)]
enum R {
    Custom(u8),
    Heartbeat,
    Error,
    Nothing,
    Kind(String),
    Seq(Vec<R>),
    Batch(Vec<R>),
}

#[derive(Clone, Default)]
struct Env {
    root: String,
    /// an open file
    file: (u32, u32),
}
thread_local! {
    static ENV: RefCell<Env> = RefCell::new(Env::default());
}
/// Operations that touch nothing: those that fail, each in its own way, and
/// those that succeed with the kind of their replies.
const FAILING: usize = 11;
const SUCCEEDING: [&str; 6] = ["Version", "Capabilities", "FileContents", "FileOpened", "DirContentsList", "InternalDebug"];
fn real(k: usize) -> Request {
    use request::*;
    let e = ENV.with(|e| e.borrow().clone());
    let (id, sig) = e.file;
    let (file, none) = (format!("{}/f", e.root), format!("{}/none/x", e.root));
    match k {
        0 => Request::ReadFile(ReadFileArgs { id, sig: sig.wrapping_add(1) }),
        1 => Request::RenameFile(RenameFileArgs { id, sig: !sig, to: none }),
        2 => Request::CloseFile(CloseFileArgs { id, sig: !sig }),
        3 => Request::OpenFile(OpenFileArgs { path: none, create_if_missing: true, write_access: true, read_access: true }),
        4 => Request::ListDirContents(ListDirContentsArgs { path: none }),
        5 => Request::RemoveDir(RemoveDirArgs { path: e.root, non_empty: true }),
        6 => Request::RenameUnopenedFile(RenameUnopenedFileArgs { from: file, to: none }),
        7 => Request::CreateDir(CreateDirArgs { path: file, include_components: false }),
        8 => Request::ReadProcStatus(ReadProcStatusArgs { id: 0 }),
        9 => Request::WriteProcStdin(WriteProcStdinArgs { id: 0, input: vec![1] }),
        10 => Request::ExecProc(ExecProcArgs { command: none, args: vec![], stdin: false, stdout: false, stderr: false, current_dir: None }),
        11 => Request::Version,
        12 => Request::Capabilities,
        13 => Request::ReadFile(ReadFileArgs { id, sig }),
        14 => Request::OpenFile(OpenFileArgs { path: file, create_if_missing: false, write_access: false, read_access: true }),
        15 => Request::ListDirContents(ListDirContentsArgs { path: e.root }),
        _ => Request::InternalDebug(InternalDebugArgs { input: vec![] }),
    }
}
/// Number the custom operations in document order.
fn build(op: &Op, next: &mut u8) -> Request {
    match op {
        Op::C(k) => {
            *next += 1;
            Request::Custom(request::CustomArgs { data: vec![*k, *next] })
        }
        Op::Heartbeat => Request::Heartbeat,
        Op::Bad => Request::ReadFile(request::ReadFileArgs { id: 1, sig: 2 }),
        Op::Forward => Request::Forward(request::ForwardArgs { address: "127.0.0.1:1".parse().unwrap(), request: Box::new(Request::Heartbeat) }),
        Op::Real(k) => real(*k),
        Op::Seq(v) => Request::Sequence(v.iter().map(|o| crate::msgs::plain_op(build(o, next))).collect::<Vec<_>>().into()),
        Op::Batch(v) => Request::Batch(v.iter().map(|o| build(o, next)).collect::<Vec<_>>().into()),
    }
}
const LIMIT: usize = 5;
/// What must happen: the expected reply and, for every custom operation in
/// document order, whether it is executed.  `order` receives groups of
/// executed operations in the order in which they must happen.
fn expect(op: &Op, depth: usize, live: bool, next: &mut u8, exec: &mut Vec<u8>) -> R {
    let live = live && depth < LIMIT;
    match op {
        Op::C(k) => {
            *next += 1;
            if live {
                exec.push(*next);
                if *k == 1 || *k == 2 {
                    return R::Error;
                }
                return R::Custom(*next);
            }
            R::Error
        }
        _ if !live => {
            // count what is inside
            match op {
                Op::Seq(v) | Op::Batch(v) => {
                    for o in v {
                        expect(o, depth + 1, false, next, exec);
                    }
                }
                _ => (),
            }
            R::Error
        }
        Op::Heartbeat => R::Heartbeat,
        Op::Bad => R::Error,
        Op::Forward => R::Nothing,
        Op::Real(k) if *k < FAILING => R::Error,
        Op::Real(k) => R::Kind(SUCCEEDING[*k - FAILING].into()),
        Op::Seq(v) => {
            let mut rs = vec![];
            let mut ok = true;
            for o in v {
                let r = expect(o, depth + 1, ok, next, exec);
                let r = if ok { r } else { R::Error };
                ok = ok && r != R::Error;
                rs.push(r);
            }
            R::Seq(rs)
        }
        Op::Batch(v) => R::Batch(v.iter().map(|o| expect(o, depth + 1, true, next, exec)).collect()),
    }
}
fn shape(r: &Reply) -> R {
    match r {
        Reply::Custom(c) => R::Custom(*c.data.get(1).unwrap_or(&0)),
        Reply::Heartbeat => R::Heartbeat,
        Reply::Error(_) => R::Error,
        Reply::Ignore => R::Nothing,
        Reply::Sequence(a) => R::Seq(a.results.iter().map(shape).collect()),
        Reply::Batch(a) => R::Batch(a.results.iter().map(shape).collect()),
        r => R::Kind(crate::msgs::kind(r)),
    }
}
/// The constraints on the execution order: pairs (before, after).
fn order(op: &Op, next: &mut u8, pairs: &mut Vec<(u8, u8)>) -> Vec<u8> {
    match op {
        Op::C(_) => {
            *next += 1;
            vec![*next]
        }
        Op::Seq(v) => {
            let mut all: Vec<u8> = vec![];
            for o in v {
                let these = order(o, next, pairs);
                for a in &all {
                    for b in &these {
                        pairs.push((*a, *b));
                    }
                }
                all.extend(these);
            }
            all
        }
        Op::Batch(v) => v.iter().flat_map(|o| order(o, next, pairs)).collect(),
        _ => vec![],
    }
}

struct Local {
    rig: Rig,
    scratch: Scratch,
    log: Arc<Mutex<Vec<Vec<u8>>>>,
}
thread_local! {
    static RIG: RefCell<Option<Local>> = const { RefCell::new(None) };
}

fn check(ctx: &Ctx, op: &Op) {
    RIG.with(|r| {
        let mut r = r.borrow_mut();
        if r.as_ref().map(|x| x.rig.dead || x.rig.asked > 3000).unwrap_or(true) {
            *r = None;
            let log: Arc<Mutex<Vec<Vec<u8>>>> = Arc::default();
            let mut rig = Rig::new(Cfg { custom: Some(custom(Some(log.clone()))), ..Default::default() });
            let scratch = Scratch::new("seq");
            let root = scratch.path().to_string_lossy().to_string();
            std::fs::write(scratch.path().join("f"), b"data").unwrap();
            let open = Request::OpenFile(request::OpenFileArgs { path: format!("{}/f", root), create_if_missing: false, write_access: true, read_access: true });
            let file = match rig.ask(open) {
                Some(Reply::FileOpened(a)) => (a.id, a.sig),
                x => panic!("opening a file gave {:?}", x),
            };
            ENV.with(|e| *e.borrow_mut() = Env { root, file });
            *r = Some(Local { rig, scratch, log });
        }
        let l = r.as_mut().unwrap();
        l.log.lock().unwrap().clear();
        let mut n = 0;
        let req = build(op, &mut n);
        last_case(|| format!("{:?}", op));
        let mut exec = vec![];
        let want = expect(op, 0, true, &mut 0, &mut exec);
        let case = || json!({"request": format!("{:?}", op)});
        ctx.states.fetch_add(1, Ordering::Relaxed);
        ctx.traces.fetch_add(1, Ordering::Relaxed);
        ctx.transitions.fetch_add(exec.len() as u64 + 1, Ordering::Relaxed);
        let got = if want == R::Nothing {
            l.rig.send(0, req);
            // a barrier instead of a reply
            if l.rig.ask(Request::Heartbeat).is_none() {
                ctx.violation("silent", "the server stopped answering", case());
                return;
            }
            R::Nothing
        } else {
            match l.rig.ask(req) {
                None => {
                    ctx.violation("silent", "the request got no reply", case());
                    return;
                }
                Some(x) => shape(&x),
            }
        };
        if got != want {
            ctx.violation("results", &format!("results {:?}, expected {:?}", got, want), case());
        }
        let ran: Vec<u8> = l.log.lock().unwrap().iter().map(|d| d[1]).collect();
        let mut sorted = ran.clone();
        sorted.sort();
        exec.sort();
        if sorted != exec {
            ctx.violation("executed", &format!("operations {:?} were executed, expected {:?}", ran, exec), case());
        }
        // what was meant to touch nothing has touched nothing
        if std::fs::read(l.scratch.path().join("f")).ok().as_deref() != Some(b"data") {
            ctx.violation("effect", "an operation that must fail changed the file", case());
            l.rig.dead = true;
        }
        let mut pairs = vec![];
        order(op, &mut 0, &mut pairs);
        for (a, b) in pairs {
            if let (Some(i), Some(j)) = (ran.iter().position(|x| *x == a), ran.iter().position(|x| *x == b)) {
                if i > j {
                    ctx.violation("order", &format!("operation {} of a sequence ran after operation {}: {:?}", a, b, ran), case());
                }
            }
        }
        match &got {
            R::Seq(v) if v.contains(&R::Error) => ctx.outcome("sequence with a failure"),
            R::Seq(_) => ctx.outcome("sequence"),
            R::Batch(v) if v.contains(&R::Error) => ctx.outcome("batch with a failure"),
            R::Batch(_) => ctx.outcome("batch"),
            _ => ctx.outcome("single"),
        }
    });
}

pub fn run(ctx: &Ctx) -> i32 {
    let atoms = vec![Op::C(0), Op::C(1), Op::C(2), Op::C(3), Op::Heartbeat, Op::Bad, Op::Forward];
    let leaf = [Op::C(0), Op::C(1), Op::C(2)];
    // containers of at most two of the basic operations
    let mut inner: Vec<Op> = vec![Op::Seq(vec![]), Op::Batch(vec![])];
    for a in &leaf {
        inner.push(Op::Seq(vec![a.clone()]));
        inner.push(Op::Batch(vec![a.clone()]));
        for b in &leaf {
            inner.push(Op::Seq(vec![a.clone(), b.clone()]));
            inner.push(Op::Batch(vec![a.clone(), b.clone()]));
        }
    }
    let mut items: Vec<Op> = vec![];
    items.extend(atoms.iter().cloned());
    items.extend(inner.iter().cloned());
    // every list of up to 6 (7) atoms in both containers
    let mut lists: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..ctx.pick(6, 7) {
        let mut nl = vec![];
        for l in &lists {
            for a in &atoms {
                let mut l = l.clone();
                l.push(a.clone());
                nl.push(l);
            }
        }
        for l in &nl {
            items.push(Op::Seq(l.clone()));
            items.push(Op::Batch(l.clone()));
        }
        lists = nl;
    }
    // the same with operations that fail and succeed in every other way
    let all: Vec<Op> = (0..FAILING + SUCCEEDING.len()).map(Op::Real).collect();
    let around = [Op::C(0), Op::C(1), Op::Seq(vec![Op::C(0), Op::C(1)])];
    let some: Vec<Op> = all.iter().chain(&around).cloned().collect();
    items.extend(all.iter().cloned());
    for a in &some {
        for b in &some {
            for c in &some {
                for outer in [Op::Seq as fn(Vec<Op>) -> Op, Op::Batch as fn(Vec<Op>) -> Op] {
                    let l = vec![a.clone(), b.clone(), c.clone()];
                    items.push(outer(l.clone()));
                    if let Op::C(0) = c {
                        items.push(Op::Seq(vec![outer(l.clone()), b.clone(), Op::C(0)]));
                        items.push(Op::Batch(vec![outer(l), b.clone(), Op::C(0)]));
                    }
                }
            }
        }
    }
    // every arrangement of containers and atoms, up to three members
    let mixed: Vec<Op> = leaf.iter().cloned().chain(inner.iter().cloned()).collect();
    for a in &mixed {
        for b in &mixed {
            for outer in [Op::Seq as fn(Vec<Op>) -> Op, Op::Batch as fn(Vec<Op>) -> Op] {
                items.push(outer(vec![a.clone(), b.clone()]));
                for c in ctx.pick(&leaf[..], &mixed[..]) {
                    items.push(outer(vec![a.clone(), b.clone(), c.clone()]));
                }
            }
        }
    }
    // every chain of up to 8 nested containers, operations at every level
    for d in 1..=8usize {
        for m in 0..1u32 << d {
            for style in 0..4 {
                let mut o = Op::C(0);
                for l in 0..d {
                    let k = if style == 3 && l % 2 == 0 { Op::C(1) } else { Op::C(3) };
                    let v = match style {
                        0 => vec![o],
                        1 => vec![Op::C(0), o, Op::C(0)],
                        2 => vec![o, k],
                        _ => vec![k, o, Op::C(0)],
                    };
                    o = if m >> l & 1 == 1 { Op::Seq(v) } else { Op::Batch(v) };
                }
                items.push(o);
            }
        }
    }
    // a long batch and a long sequence
    for n in [50usize, 200] {
        items.push(Op::Batch((0..n).map(|i| Op::C((i % 4) as u8)).collect()));
        items.push(Op::Seq((0..n).map(|i| Op::C(if i == n / 2 { 1 } else { 3 })).collect()));
    }
    par_items(ctx, &items, |ctx, i, op| {
        check(ctx, op);
        if ctx.wants_sample() && i % 977 == 0 {
            ctx.sample(json!(format!("{:?}", op)));
        }
    });
    ctx.finish(
        "model_checking",
        "every list of up to 6 (7) operations that succeed, fail, panic, yield, are unknown or unanswerable, in sequences and batches; the same with eleven other operations that fail with every kind of error and six that succeed; every arrangement of nested containers to two levels; every chain of up to 8 nested containers. Executed on the real server and compared with an independent interpreter: results by position, the set of executed operations, and their order. states = requests, transitions = executed operations.",
        true,
        &[],
    )
}
