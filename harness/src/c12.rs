//! C12: file and directory requests against a plain model of a file system.
use crate::core::*;
use crate::fsx::*;
use crate::rig::Cfg;
use serde_json::json;
use std::cell::RefCell;
use std::collections::HashSet;
use std::sync::atomic::Ordering;

pub const PATHS: [&str; 7] = ["a", "n", "d", "d/b", "d/n", "e", "x/n"];
pub const DIRS: [&str; 6] = ["a", "d", "e", "n", "d/e", "x/n"];

thread_local! {
    static FX: RefCell<Option<Fx>> = const { RefCell::new(None) };
}
pub fn with_fx<T>(max: u64, f: impl FnOnce(&mut Fx) -> T) -> T {
    FX.with(|x| {
        let mut x = x.borrow_mut();
        if x.as_ref().map(|x| x.rig.dead || x.rig.asked > max).unwrap_or(true) {
            *x = None;
            *x = Some(Fx::new(Cfg::default()));
        }
        f(x.as_mut().unwrap())
    })
}
fn report(ctx: &Ctx, seq: &[Op], b: Bad) {
    ctx.violation(b.0, &b.1, json!({"operations": describe(seq)}));
}
fn class(op: &Op, w: &Want) -> &'static str {
    match (op, w) {
        (_, Want::Error) => "refused",
        (Op::Open { .. }, _) => "opened",
        (Op::Read(_), _) => "read",
        (Op::Write(..), _) => "written",
        (Op::Close(_), _) => "closed",
        (Op::RenameH(..), _) => "renamed by handle",
        (Op::RemoveH(_), _) => "removed by handle",
        (Op::RenameU(..), _) => "renamed by path",
        (Op::RemoveU(_), _) => "removed by path",
        (Op::Mkdir(..), _) => "directory created",
        (Op::RenameDir(..), _) => "directory renamed",
        (Op::Rmdir(..), _) => "directory removed",
        (Op::List(_), _) => "listed",
    }
}
/// Replays `seq` from the initial tree; the model follows.
pub fn replay(fx: &mut Fx, seq: &[Op]) -> Result<Model, Bad> {
    let mut m = Model::initial();
    fx.reset(&m)?;
    for op in seq {
        let w = m.apply(op);
        fx.step(op, &w)?;
    }
    Ok(m)
}
fn full(ctx: &Ctx, fx: &mut Fx, seq: &[Op]) {
    last_case(|| format!("{:?}", seq));
    ctx.traces.fetch_add(1, Ordering::Relaxed);
    ctx.transitions.fetch_add(seq.len() as u64, Ordering::Relaxed);
    let r = replay(fx, seq).and_then(|m| {
        fx.compare_tree(&m)?;
        fx.compare_handles(&m)
    });
    if let Err(b) = r {
        report(ctx, seq, b);
    }
}
/// Every operation from the state that `seq` leads to.
fn expand(ctx: &Ctx, seq: &[Op], ops: &[Op], max_slots: usize) {
    let run = |fx: &mut Fx, tail: &mut Vec<Op>| -> Result<(), Bad> {
        let mut m = replay(fx, seq)?;
        fx.compare_tree(&m)?;
        let key = m.key();
        for op in ops {
            let mut n = m.clone();
            let w = n.apply(op);
            if n.handles.len() > max_slots {
                continue;
            }
            ctx.transitions.fetch_add(1, Ordering::Relaxed);
            ctx.outcome(class(op, &w));
            if n.key() == key {
                // nothing changes: try all of these one after the other
                tail.push(op.clone());
                fx.step(op, &w)?;
                fx.compare_tree(&m)?;
                m = n;
            }
        }
        ctx.traces.fetch_add(1, Ordering::Relaxed);
        fx.compare_handles(&m)
    };
    let mut tail = vec![];
    if let Err(b) = with_fx(20_000, |fx| run(fx, &mut tail)) {
        let mut s = seq.to_vec();
        s.extend(tail);
        report(ctx, &s, b);
    }
    // the operations that change something, each from a fresh replay
    let mut m = Model::initial();
    for op in seq {
        m.apply(op);
    }
    for op in ops {
        let mut n = m.clone();
        n.apply(op);
        if n.key() != m.key() && n.handles.len() <= max_slots && !ctx.stopped() {
            let mut s = seq.to_vec();
            s.push(op.clone());
            with_fx(20_000, |fx| full(ctx, fx, &s));
        }
    }
}

pub fn states(depth: usize, ops: &[Op], max_slots: usize) -> Vec<Vec<Op>> {
    let mut seen = HashSet::new();
    let mut all: Vec<Vec<Op>> = vec![vec![]];
    seen.insert(hash64(&Model::initial().key()));
    let mut level = vec![(Model::initial(), vec![])];
    for _ in 0..depth {
        let mut next = vec![];
        for (m, seq) in &level {
            for op in ops {
                let mut n = m.clone();
                n.apply(op);
                if n.handles.len() <= max_slots && seen.insert(hash64(&n.key())) {
                    let mut s: Vec<Op> = seq.clone();
                    s.push(op.clone());
                    all.push(s.clone());
                    next.push((n, s));
                }
            }
        }
        level = next;
    }
    all
}

pub fn run(ctx: &Ctx) -> i32 {
    let paths = &PATHS[..];
    let dirs = &DIRS[..];
    // every sequence of two operations, states not merged
    let ops2 = ops(paths, dirs, 1, &[1, 2]);
    par_items(ctx, &ops2, |ctx, _, a| {
        for b in &ops2 {
            if ctx.stopped() {
                return;
            }
            with_fx(20_000, |fx| full(ctx, fx, &[a.clone(), b.clone()]));
        }
    });
    ctx.note("operations", ops2.len() as u64);
    ctx.note("sequences_of_two", (ops2.len() * ops2.len()) as u64);
    // every operation from every state within the depth
    let slots = 2;
    let depth = ctx.pick(3, 4);
    let all = ops(paths, dirs, slots, &[0, 1]);
    let st = states(depth, &all, slots);
    ctx.states.fetch_add(st.len() as u64, Ordering::Relaxed);
    ctx.note("state_depth", depth as u64);
    par_items(ctx, &st, |ctx, i, seq| {
        expand(ctx, seq, &all, slots);
        if i % 97 == 5 && ctx.wants_sample() {
            ctx.sample(json!({"state_reached_by": describe(seq)}));
        }
    });
    if !ctx.quick() {
        // every sequence of three whose first two change something
        let ops3 = ops(&["a", "n", "d", "d/b", "e"], &["d", "e", "n", "d/e"], 2, &[1]);
        let mut pre = vec![];
        for a in &ops3 {
            let mut m = Model::initial();
            let k0 = m.key();
            m.apply(a);
            let k1 = m.key();
            if k1 == k0 {
                continue;
            }
            for b in &ops3 {
                let mut n = m.clone();
                n.apply(b);
                if n.key() != k1 {
                    pre.push(vec![a.clone(), b.clone()]);
                }
            }
        }
        par_items(ctx, &pre, |ctx, _, p| {
            for c in &ops3 {
                if ctx.stopped() {
                    return;
                }
                let mut s = p.clone();
                s.push(c.clone());
                with_fx(20_000, |fx| full(ctx, fx, &s));
            }
        });
        ctx.note("sequences_of_three", (pre.len() * ops3.len()) as u64);
    }
    ctx.finish(
        "model_checking",
        "all sequences of two operations over the whole alphabet; every operation from every model state reachable within the depth, each replayed on a real server (UDP loopback) with real files; replies, tree and readable contents compared with the model",
        true,
        &["no symbolic links and nothing outside the server touches the tree", "the scratch file system behaves like POSIX (tmpfs)"],
    )
}
