//! C21: concurrent requests are atomic and always finish.  The parts of a
//! batch (and a cleanup run) are interleaved in every way, up to a number of
//! preemptions, at every lock, every file operation and every other point
//! where a task gives way; replies and final state must be those of running
//! them one at a time in some order.
use crate::core::*;
use crate::fsx::*;
use crate::interpose::*;
use crate::rig::*;
use crate::sched::*;
use over_there::core::{request::*, Reply, ReplyError, Request};
use serde_json::json;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

/// between cleanup runs, and the time to live of files and processes
const P: Duration = Duration::from_secs(1000);

#[derive(Clone, Debug, PartialEq)]
enum A {
    F(Op),
    /// acquires every lock there is
    Debug,
    Exec,
    Kill(usize),
    Status(usize),
    Stdin(usize),
    Stdout(usize),
}
#[derive(Clone, Debug, PartialEq)]
enum Part {
    One(A),
    Seq(Vec<A>),
    Batch(Vec<Part>),
}
/// Where the parts come from.
#[derive(Clone, Copy, Debug, PartialEq)]
enum From_ {
    OneBatch,
    Clients,
}
#[derive(Clone, Debug)]
struct Case {
    parts: Vec<Part>,
    cleanup: bool,
    from: From_,
    procs: usize,
    bound: usize,
    reduced: bool,
}

struct T {
    fx: Fx,
}
thread_local! {
    static T_: RefCell<Option<T>> = const { RefCell::new(None) };
}
fn with<R>(f: impl FnOnce(&mut T) -> R) -> R {
    T_.with(|x| {
        let mut x = x.borrow_mut();
        if x.as_ref().map(|x| x.fx.rig.dead || x.fx.rig.asked > 60_000).unwrap_or(true) {
            *x = None;
            freeze_clock();
            let fx = Fx::new(Cfg { file_ttl: P, proc_ttl: P, dead_proc_ttl: P, cleanup: P, clients: 3, packet_ttl: Duration::from_secs(1 << 40), ..Default::default() });
            *x = Some(T { fx });
        }
        f(x.as_mut().unwrap())
    })
}
fn settle(t: &mut T) -> Result<(), Bad> {
    for _ in 0..2 {
        match t.fx.rig.ask(Request::Heartbeat) {
            Some(Reply::Heartbeat) => (),
            x => return Err(("silent", format!("heartbeat answered {:?}", x))),
        }
    }
    Ok(())
}
fn initial() -> Model {
    let mut m = Model::initial();
    m.data.push(b"C".to_vec());
    m.tree.insert("c".into(), Node::File(2));
    m
}

/// A state the requests may have led to, with what the server told so far.
#[derive(Clone)]
struct Cand {
    m: Model,
    slots: Vec<(u32, u32, Vec<u32>)>,
    /// signature of each slot when the requests were sent
    sent: Vec<u32>,
    used: Vec<bool>,
    procs: Vec<Option<u32>>,
    proc_used: Vec<bool>,
}
/// One step of a request: first it counts as a use of what it names, then it
/// is carried out.
#[derive(Clone)]
enum Step {
    Use(A),
    Do(A, Reply),
}

fn use_of(c: &mut Cand, a: &A) {
    match a {
        A::F(op) => {
            if let Some(s) = op.slot() {
                if let Some(u) = c.used.get_mut(s) {
                    *u = true;
                }
            }
        }
        A::Kill(p) | A::Status(p) | A::Stdin(p) | A::Stdout(p) => {
            if let Some(u) = c.proc_used.get_mut(*p) {
                *u = true;
            }
        }
        _ => (),
    }
}
/// Carry out `a`; false if the reply is not the one it has to give then.
fn do_it(fx: &mut Fx, c: &mut Cand, a: &A, req: &Request, reply: &Reply) -> bool {
    match a {
        A::F(op) => {
            if let Some(s) = op.slot() {
                let open = c.m.handles.get(s).map(|h| h.is_some()).unwrap_or(false);
                if open && c.slots[s].1 != c.sent[s] {
                    // somebody else changed the file in between
                    return match reply {
                        Reply::Error(ReplyError::FileSigChanged(x)) => !matches!(op, Op::Close(_)) && x.id == c.slots[s].0 && x.sig == c.slots[s].1,
                        Reply::Error(_) => matches!(op, Op::Close(_)),
                        _ => false,
                    };
                }
            }
            let w = c.m.apply(op);
            if let Want::Opened(s) = w {
                while c.used.len() <= s {
                    c.used.push(true);
                }
                c.used[s] = true;
            }
            let keep = std::mem::replace(&mut fx.slots, std::mem::take(&mut c.slots));
            let r = fx.compare(op, &w, req, reply.clone());
            c.slots = std::mem::replace(&mut fx.slots, keep);
            r.is_ok()
        }
        A::Debug => matches!(reply, Reply::InternalDebug(_)),
        A::Exec => match reply {
            Reply::ProcStarted(x) => {
                c.procs.push(Some(x.id));
                c.proc_used.push(true);
                true
            }
            _ => false,
        },
        A::Kill(p) | A::Status(p) | A::Stdin(p) | A::Stdout(p) => match c.procs[*p] {
            None => matches!(reply, Reply::Error(ReplyError::Io(_))),
            Some(id) => match (reply, a) {
                (Reply::ProcKilled(x), A::Kill(_)) => {
                    c.procs[*p] = None;
                    x.id == id
                }
                (Reply::ProcStatus(x), A::Status(_)) => x.id == id && x.is_alive,
                (Reply::ProcStdinWritten(x), A::Stdin(_)) => x.id == id,
                (Reply::ProcStdoutContents(x), A::Stdout(_)) => x.id == id && x.output.iter().all(|b| *b == b'x'),
                _ => false,
            },
        },
    }
}
fn evict(c: &mut Cand, procs: bool) {
    if procs {
        for (p, u) in c.procs.iter_mut().zip(&c.proc_used) {
            if !*u {
                *p = None;
            }
        }
    } else {
        for (h, u) in c.m.handles.iter_mut().zip(&c.used) {
            if !*u {
                *h = None;
            }
        }
    }
}
/// Looks for a way to run the steps one at a time that explains the replies
/// and ends in a state `fits` agrees with.
struct Search<'a> {
    rows: &'a [Vec<(Step, Request)>],
    seen: BTreeSet<u64>,
    ends: usize,
}
impl<'a> Search<'a> {
    fn go(&mut self, t: &mut T, c: Cand, at: &mut Vec<usize>, ev: usize, fits: &mut dyn FnMut(&mut T, &Cand) -> bool) -> bool {
        if !self.seen.insert(hash64(&(&*at, ev, c.m.key(), &c.slots, &c.used, &c.procs, &c.proc_used))) {
            return false;
        }
        if ev == 0 && self.rows.iter().zip(at.iter()).all(|(r, i)| r.len() == *i) {
            self.ends += 1;
            return fits(t, &c);
        }
        for k in 0..self.rows.len() {
            if at[k] == self.rows[k].len() {
                continue;
            }
            let mut d = c.clone();
            let (s, req) = &self.rows[k][at[k]];
            let ok = match s {
                Step::Use(a) => {
                    use_of(&mut d, a);
                    true
                }
                Step::Do(a, reply) => do_it(&mut t.fx, &mut d, a, req, reply),
            };
            if ok {
                at[k] += 1;
                let r = self.go(t, d, at, ev, fits);
                at[k] -= 1;
                if r {
                    return true;
                }
            }
        }
        if ev > 0 {
            let mut d = c.clone();
            evict(&mut d, ev == 1);
            return self.go(t, d, at, ev - 1, fits);
        }
        false
    }
}

fn request(t: &T, c: &Cand, a: &A) -> Request {
    let pid = |p: &usize| c.procs[*p].unwrap();
    match a {
        A::F(op) => {
            let root = t.fx.root.clone();
            t.fx.request(op, &move |p: &str| if p.is_empty() { root.to_string_lossy().to_string() } else { root.join(p).to_string_lossy().to_string() })
        }
        A::Debug => Request::InternalDebug(InternalDebugArgs { input: vec![] }),
        A::Exec => Request::ExecProc(ExecProcArgs { command: "cat".into(), args: vec![], stdin: true, stdout: true, stderr: false, current_dir: None }),
        A::Kill(p) => Request::KillProc(KillProcArgs { id: pid(p) }),
        A::Status(p) => Request::ReadProcStatus(ReadProcStatusArgs { id: pid(p) }),
        A::Stdin(p) => Request::WriteProcStdin(WriteProcStdinArgs { id: pid(p), input: b"x".to_vec() }),
        A::Stdout(p) => Request::ReadProcStdout(ReadProcStdoutArgs { id: pid(p) }),
    }
}
fn build(t: &T, c: &Cand, p: &Part) -> Request {
    match p {
        Part::One(a) => request(t, c, a),
        Part::Seq(v) => Request::Sequence(v.iter().map(|a| crate::msgs::plain_op(request(t, c, a))).collect::<Vec<_>>().into()),
        Part::Batch(v) => Request::Batch(v.iter().map(|p| build(t, c, p)).collect::<Vec<_>>().into()),
    }
}
/// The steps behind a part, one row per concurrent activity.
fn rows(p: &Part, req: &Request, reply: &Reply, out: &mut Vec<Vec<(Step, Request)>>) -> Result<(), Bad> {
    let shape = || Err(("shape", format!("{:?} was answered {:?}", req, reply)));
    let steps = |a: &A, q: &Request, r: &Reply| vec![(Step::Use(a.clone()), q.clone()), (Step::Do(a.clone(), r.clone()), q.clone())];
    match (p, req, reply) {
        (Part::One(a), q, r) => out.push(steps(a, q, r)),
        (Part::Seq(v), Request::Sequence(_), Reply::Sequence(rs)) if rs.results.len() == v.len() => {
            let mut row = vec![];
            let mut failed = false;
            for (i, (a, r)) in v.iter().zip(&rs.results).enumerate() {
                if failed {
                    if !matches!(r, Reply::Error(_)) {
                        return Err(("sequence", format!("operation {} of a sequence was carried out after a failure: {:?}", i, reply)));
                    }
                    continue;
                }
                // the echo in the reply is compared with the request itself
                let q = match req {
                    Request::Sequence(s) => s.operations[i].clone().into_raw_request(),
                    _ => unreachable!(),
                };
                row.extend(steps(a, &q, r));
                failed = matches!(r, Reply::Error(_));
            }
            out.push(row);
        }
        (Part::Batch(v), Request::Batch(q), Reply::Batch(r)) if r.results.len() == v.len() && q.operations.len() == v.len() => {
            for i in 0..v.len() {
                rows(&v[i], &q.operations[i], &r.results[i], out)?;
            }
        }
        _ => return shape(),
    }
    Ok(())
}
fn setup(t: &mut T, case: &Case) -> Result<Cand, Bad> {
    // everything from before expires
    t.fx.slots.clear();
    advance_clock(P * 3);
    settle(t)?;
    let mut m = initial();
    t.fx.reset(&m)?;
    for (p, w) in [("a", true), ("d/b", false)] {
        let op = Op::Open { path: p.into(), create: false, w, r: true };
        let want = m.apply(&op);
        t.fx.step(&op, &want)?;
    }
    let mut procs = vec![];
    for _ in 0..case.procs {
        match t.fx.rig.ask(Request::ExecProc(ExecProcArgs { command: "cat".into(), args: vec![], stdin: true, stdout: true, stderr: false, current_dir: None })) {
            Some(Reply::ProcStarted(x)) => procs.push(Some(x.id)),
            x => return Err(("start", format!("{:?}", x))),
        }
    }
    advance_clock(P - Duration::from_secs(1));
    settle(t)?;
    Ok(Cand {
        m,
        slots: t.fx.slots.clone(),
        sent: t.fx.slots.iter().map(|s| s.1).collect(),
        used: vec![false; 2],
        proc_used: vec![false; procs.len()],
        procs,
    })
}
static STEPS: AtomicU64 = AtomicU64::new(0);
static DIVERGED: AtomicU64 = AtomicU64::new(0);
static LOST: AtomicU64 = AtomicU64::new(0);

/// One task after the other, file operations included.
fn plain<R>(f: impl FnOnce() -> R) -> R {
    with_plan(vec![], true, None, f).0
}
fn once(ctx: &Ctx, t: &mut T, case: &Case, prefix: Vec<usize>) -> (Plan, Result<(), Bad>) {
    let c = match plain(|| setup(t, case)) {
        Ok(c) => c,
        Err(b) => return (Plan::default(), Err((b.0, format!("before the requests: {}", b.1)))),
    };
    let parts: Vec<Part> = match case.from {
        From_::OneBatch => vec![Part::Batch(case.parts.clone())],
        From_::Clients => case.parts.clone(),
    };
    let reqs: Vec<Request> = parts.iter().map(|p| build(t, &c, p)).collect();
    let event: Option<Box<dyn FnOnce()>> = if case.cleanup { Some(Box::new(|| advance_clock(Duration::from_secs(2)))) } else { None };
    let (replies, plan) = with_plan(prefix, case.reduced, event, || {
        let ids: Vec<u32> = reqs.iter().enumerate().map(|(i, r)| t.fx.rig.send(i, r.clone())).collect();
        let mut v = vec![];
        for (i, id) in ids.iter().enumerate() {
            let end = real_now() + t.fx.rig.limit;
            loop {
                let left = end.checked_sub(real_now()).unwrap_or_default();
                match t.fx.rig.recv(i, left) {
                    Some(g) if g.parent == Some(*id) => {
                        v.push(Some(g.reply));
                        break;
                    }
                    Some(_) => continue,
                    None => {
                        v.push(None);
                        break;
                    }
                }
            }
        }
        v
    });
    STEPS.fetch_add(plan.steps, Ordering::Relaxed);
    ctx.traces.fetch_add(1, Ordering::Relaxed);
    ctx.transitions.fetch_add(plan.points.len() as u64, Ordering::Relaxed);
    let r = plain(|| judge(ctx, t, c, &parts, &reqs, replies, &plan));
    (plan, r)
}
fn judge(ctx: &Ctx, t: &mut T, c: Cand, parts: &[Part], reqs: &[Request], replies: Vec<Option<Reply>>, plan: &Plan) -> Result<(), Bad> {
    let mut steps = vec![];
    let mut shown = vec![];
    for i in 0..parts.len() {
        match &replies[i] {
            None => {
                t.fx.rig.dead = true;
                return Err(("hang", "the requests never finish".into()));
            }
            Some(r) => {
                shown.push(format!("{:?}", r));
                rows(&parts[i], &reqs[i], r, &mut steps)?;
            }
        }
    }
    for r in steps.iter().flatten() {
        if let Step::Do(_, r) = &r.0 {
            ctx.outcome(format!("{:?}", r).split('(').next().unwrap_or(""));
        }
    }
    if plan.happened {
        settle(t)?;
    }
    let mut at = vec![0; steps.len()];
    let real = walk(&t.fx.root);
    let mut search = Search { rows: &steps, seen: BTreeSet::new(), ends: 0 };
    let mut why: Option<Bad> = None;
    let keep = t.fx.slots.clone();
    let found = search.go(t, c, &mut at, if plan.happened { 2 } else { 0 }, &mut |t, e| {
        if e.m.snapshot() != real {
            why.get_or_insert_with(|| ("tree", format!("the tree afterwards is [{}]", show(&real))));
            return false;
        }
        t.fx.slots = e.slots.clone();
        let r = t.fx.compare_handles(&e.m).and_then(|_| procs_agree(t, e));
        t.fx.slots = keep.clone();
        match r {
            Ok(()) => true,
            Err(b) => {
                if b.0 == "silent" {
                    why = Some(b);
                } else if why.as_ref().map(|w| w.0 != "silent").unwrap_or(true) {
                    why = Some(("handles", format!("what is open afterwards differs: {}", b.1)));
                }
                false
            }
        }
    });
    if found {
        return Ok(());
    }
    Err(match why {
        None => ("order", format!("no order of running them one at a time gives these replies: {}", shown.join(", "))),
        Some((k, w)) => (k, format!("{}; no order of running them one at a time both gives the replies and ends like this; replies {}", w, shown.join(", "))),
    })
}
fn procs_agree(t: &mut T, e: &Cand) -> Result<(), Bad> {
    // ids no longer known are refused; the others are there
    for p in e.procs.iter().flatten() {
        match t.fx.rig.ask(Request::ReadProcStatus(ReadProcStatusArgs { id: *p })) {
            Some(Reply::ProcStatus(x)) if x.is_alive => (),
            x => return Err(("process", format!("process {} should still run, its status is {:?}", p, x))),
        }
    }
    Ok(())
}

fn files(quick: bool) -> Vec<A> {
    let o = |p: &str, create, w, r| Op::Open { path: p.into(), create, w, r };
    let s = |x: &str| x.to_string();
    let mut v = vec![
        o("a", false, true, true),
        o("a", true, true, false),
        o("d/b", false, true, false),
        o("c", false, false, true),
        o("c", false, true, true),
        o("n", true, true, true),
        Op::Read(0),
        Op::Write(0, 1),
        Op::Close(0),
        Op::RenameH(0, s("n")),
        Op::RenameH(0, s("c")),
        Op::RemoveH(0),
        Op::Read(1),
        Op::Close(1),
        Op::RenameU(s("c"), s("n")),
        Op::RenameU(s("c"), s("a")),
        Op::RemoveU(s("a")),
        Op::RemoveU(s("c")),
        Op::Mkdir(s("e/x"), false),
        Op::RenameDir(s("d"), s("n")),
        Op::RenameDir(s("e"), s("n")),
        Op::Rmdir(s("d"), true),
        Op::Rmdir(s("e"), false),
        Op::List(s("")),
    ];
    if !quick {
        v.extend([
            Op::Write(0, 0),
            Op::Write(0, 2),
            Op::RenameH(0, s("e/n")),
            Op::RenameH(0, s("d/b")),
            Op::RenameH(1, s("n")),
            Op::RemoveH(1),
            o("d", false, false, true),
            o("e/x", true, true, false),
            Op::RenameU(s("c"), s("d/b")),
            Op::RemoveU(s("d/b")),
            Op::Mkdir(s("n/m"), true),
            Op::RenameDir(s("e"), s("d/x")),
            Op::Rmdir(s("e"), true),
            Op::List(s("d")),
        ]);
    }
    v.into_iter().map(A::F).collect()
}
fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    let fs = files(ctx.quick());
    let one = |a: &A| Part::One(a.clone());
    let b = ctx.pick(2, 3);
    // the bound without and with a cleanup run at any moment
    let mut add2 = |parts: Vec<Part>, from, procs, bound: usize, with: Option<usize>| {
        v.push(Case { parts: parts.clone(), cleanup: false, from, procs, bound, reduced: true });
        if let Some(bound) = with {
            v.push(Case { parts, cleanup: true, from, procs, bound, reduced: true });
        }
    };
    let mut add = |parts: Vec<Part>, from, procs, bound| add2(parts, from, procs, bound, Some(bound));
    for (i, x) in fs.iter().enumerate() {
        add(vec![one(x)], From_::OneBatch, 0, b + 1);
        add(vec![one(x), Part::One(A::Debug)], From_::OneBatch, 0, b);
        for y in &fs[i..] {
            add(vec![one(x), one(y)], From_::OneBatch, 0, b);
            if !ctx.quick() {
                add(vec![one(x), one(y)], From_::Clients, 0, b);
                add(vec![one(y), one(x)], From_::OneBatch, 0, b);
            }
        }
    }
    // processes
    let ps = [A::Exec, A::Kill(0), A::Status(0), A::Stdin(0), A::Stdout(0), A::Kill(1), A::Debug];
    for (i, x) in ps.iter().enumerate() {
        add(vec![one(x)], From_::OneBatch, 2, b);
        for y in &ps[i..] {
            add(vec![one(x), one(y)], From_::OneBatch, 2, ctx.pick(1, 2));
        }
    }
    // more than two at a time, sequences beside others, batches in batches
    let few: Vec<A> = {
        let s = |x: &str| x.to_string();
        let mut v = vec![
            Op::Open { path: s("a"), create: false, w: true, r: true },
            Op::Open { path: s("n"), create: true, w: true, r: false },
            Op::Write(0, 1),
            Op::Close(0),
            Op::RenameH(0, s("n")),
            Op::RenameU(s("c"), s("a")),
            Op::RemoveU(s("a")),
        ];
        if !ctx.quick() {
            v.extend([Op::Read(0), Op::RemoveH(0), Op::RenameDir(s("d"), s("n")), Op::List(s(""))]);
        }
        v.into_iter().map(A::F).collect()
    };
    let (m, mc, sc) = (ctx.pick(1, 2), ctx.pick(None, Some(1)), ctx.pick(Some(0), Some(1)));
    for (i, x) in few.iter().enumerate() {
        for (j, y) in few.iter().enumerate() {
            for z in &few[j..] {
                if j >= i {
                    add2(vec![one(x), one(y), one(z)], From_::OneBatch, 0, m, mc);
                }
                add2(vec![one(x), Part::Batch(vec![one(y), one(z)])], From_::OneBatch, 0, m, mc);
            }
            for z in &few {
                add2(vec![Part::Seq(vec![x.clone(), y.clone()]), one(z)], From_::OneBatch, 0, m + 1, sc);
                if !ctx.quick() {
                    add2(vec![Part::Seq(vec![x.clone(), y.clone()]), one(z)], From_::Clients, 0, m, None);
                }
            }
        }
    }
    // spread the long ones over all workers
    v.sort_by_key(|c| c.cleanup);
    v
}

pub fn run(ctx: &Ctx) -> i32 {
    let items = cases(ctx);
    ctx.note("combinations", items.len() as u64);
    par_items(ctx, &items, |ctx, i, case| {
        let mut worst = 0;
        let stop = || ctx.stopped();
        let x = explore(case.bound, &stop, &mut |prefix| {
            last_case(|| format!("{:?} {:?}", case, prefix));
            let (plan, r) = with(|t| once(ctx, t, case, prefix.clone()));
            if plan.diverged {
                if std::env::var("OTV_SHOW").is_ok() {
                    println!("diverged {:?} {:?} {:?}", case, prefix, plan.log);
                }
                DIVERGED.fetch_add(1, Ordering::Relaxed);
            }
            worst = worst.max(plan.points.len());
            if let Err(b) = r {
                ctx.violation(b.0, &b.1, json!({"parts": format!("{:?}", case.parts), "cleanup": case.cleanup, "from": format!("{:?}", case.from), "processes": case.procs, "choices": plan.points.iter().map(|p| p.taken).collect::<Vec<_>>(), "schedule": plan.log}));
            }
            plan
        });
        let n = x.runs;
        LOST.fetch_add(x.lost, Ordering::Relaxed);
        ctx.states.fetch_add(n, Ordering::Relaxed);
        if std::env::var("OTV_SHOW").is_ok() {
            println!("{} {} {:?}", n, worst, case);
        }
        if i % 97 == 5 && ctx.wants_sample() {
            ctx.sample(json!({"case": format!("{:?}", case), "schedules": n, "points": worst}));
        }
    });
    ctx.note("steps", STEPS.load(Ordering::Relaxed));
    ctx.note("schedules repeated because a process took its step at another moment", DIVERGED.load(Ordering::Relaxed));
    let lost = LOST.load(Ordering::Relaxed);
    ctx.note("schedules that never came about in twelve attempts", lost);
    ctx.finish(
        "model_checking",
        "every schedule with at most the stated number of preemptions of the tasks the server runs (parts of a batch, cleanup), switching at locks, at file operations and wherever a task waits; replies and final state explained by some serial order of a file system model",
        lost == 0,
        &["tasks switch where they wait or take a lock: code between two such points touches only what it owns or has locked (checked by the compiler, no unsafe code)", "at most two preemptions (quick) or three (thorough)"],
    )
}
