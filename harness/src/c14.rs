//! C14: open files are protected against path-based requests, however the
//! path is spelled and whatever the file's history; protection ends with the
//! file's closing, removal or expiry.
use crate::core::*;
use crate::fsx::*;
use crate::interpose::*;
use crate::rig::Cfg;
use over_there::core::{request::*, Reply, Request};
use serde_json::json;
use std::cell::RefCell;
use std::path::PathBuf;
use std::sync::atomic::Ordering;
use std::time::Duration;

const TTL: Duration = Duration::from_secs(50);

/// Ways to write down a path.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Sp {
    Abs,
    /// relative to the server's working directory
    Rel,
    DotRel,
    /// "." and doubled separators inside
    Dots,
    /// through the parent of a directory
    UpDown,
    /// through a symbolic link to the root of the tree
    Link,
    /// through a symbolic link to the containing directory
    LinkDir,
    /// through a symbolic link to the file or directory itself
    LinkSelf,
    /// a trailing separator
    Slash,
}
const ALL: [Sp; 9] = [Sp::Abs, Sp::Rel, Sp::DotRel, Sp::Dots, Sp::UpDown, Sp::Link, Sp::LinkDir, Sp::LinkSelf, Sp::Slash];

struct F {
    fx: Fx,
    cwd: PathBuf,
}
fn is_dir_op(op: &Op) -> bool {
    matches!(op, Op::RenameDir(..) | Op::Rmdir(..))
}

/// directory "p/q/r" of the given depth
fn dir(depth: usize) -> String {
    ["p", "q", "r"][..depth].join("/")
}
fn join(d: &str, n: &str) -> String {
    if d.is_empty() {
        n.into()
    } else {
        format!("{}/{}", d, n)
    }
}
/// The tree: f in the deepest directory, another file and an empty directory
/// beside it and at the top.
fn initial(depth: usize) -> Model {
    let mut m = Model { tree: Default::default(), data: vec![b"F".to_vec(), b"O".to_vec(), b"P".to_vec()], handles: vec![] };
    for d in 1..=depth {
        m.tree.insert(dir(d), Node::Dir);
    }
    m.tree.insert(join(&dir(depth), "f"), Node::File(0));
    m.tree.insert("o".into(), Node::File(1));
    m.tree.insert("empty".into(), Node::Dir);
    // a name that begins like the containing directory's and like the file's
    m.tree.insert("pp".into(), Node::Dir);
    m.tree.insert("pp/f".into(), Node::File(2));
    m
}

thread_local! {
    static F: RefCell<Option<F>> = const { RefCell::new(None) };
}
fn with<T>(f: impl FnOnce(&mut F) -> T) -> T {
    F.with(|x| {
        let mut x = x.borrow_mut();
        if x.as_ref().map(|x| x.fx.rig.dead || x.fx.rig.asked > 20_000).unwrap_or(true) {
            *x = None;
            let fx = Fx::new(Cfg { file_ttl: TTL, cleanup: Duration::from_millis(1), ..Default::default() });
            *x = Some(F { cwd: std::env::current_dir().unwrap(), fx });
        }
        f(x.as_mut().unwrap())
    })
}

/// How a history ends.
#[derive(Clone, Debug, PartialEq)]
enum Step {
    Do(Op, Sp),
    /// an attempt to close or remove with a wrong signature
    WrongClose(usize),
    WrongRemove(usize),
    /// nothing names the file until it has expired
    Expire,
    /// almost, but a read comes in between
    AlmostExpire(usize),
}

fn lay(fx: &mut Fx, depth: usize) -> Result<Model, Bad> {
    let old = format!("{}.alias", fx.root.to_string_lossy());
    let _ = std::fs::remove_dir_all(old);
    let m = initial(depth);
    fx.reset(&m)?;
    let alias = format!("{}.alias", fx.root.to_string_lossy());
    std::fs::create_dir(&alias).unwrap();
    let ln = |t: String, n: &str| std::os::unix::fs::symlink(t, format!("{}/{}", alias, n)).unwrap();
    ln(fx.abs(""), "root");
    for d in 0..=depth {
        ln(fx.abs(&dir(d)), &format!("dir{}", d));
        if d > 0 {
            ln(fx.abs(&dir(d)), &format!("self-{}", dir(d).replace('/', "-")));
        }
    }
    let f = join(&dir(depth), "f");
    ln(fx.abs(&f), &format!("self-{}", f.replace('/', "-")));
    ln(fx.abs("o"), "self-o");
    Ok(m)
}
fn one(f: &mut F, m: &mut Model, op: &Op, sp: Sp) -> Result<(), Bad> {
    let cwd = f.cwd.clone();
    let sp = match op {
        Op::RenameU(a, b) | Op::RenameDir(a, b) if a == b && (sp == Sp::Slash || sp == Sp::LinkSelf) => Sp::Abs,
        _ => sp,
    };
    let mut w = m.apply(op);
    let root = f.fx.root.clone();
    // the target of a rename is written without a link to itself: a link
    // there would be followed or replaced
    let target = match op {
        Op::RenameU(_, t) | Op::RenameDir(_, t) | Op::RenameH(_, t) => Some(t.clone()),
        _ => None,
    };
    let path = move |p: &str| {
        let s = if target.as_deref() == Some(p) && (sp == Sp::LinkSelf || sp == Sp::Slash) { Sp::Abs } else { sp };
        spell_at(&root, &cwd, s, p)
    };
    if sp == Sp::Slash && !is_dir_op(op) {
        // a file name with a trailing separator names nothing
        w = Want::Error;
    }
    f.fx.step_at(op, &w, &path)
}
fn spell_at(root: &std::path::Path, cwd: &std::path::Path, sp: Sp, p: &str) -> String {
    let abs = |p: &str| if p.is_empty() { root.to_string_lossy().to_string() } else { root.join(p).to_string_lossy().to_string() };
    let rel = root.join(p).strip_prefix(cwd).map(|x| x.to_string_lossy().to_string()).expect("scratch below the working directory");
    let (dir, name) = match p.rfind('/') {
        Some(i) => (&p[..i], &p[i + 1..]),
        None => ("", p),
    };
    let alias = format!("{}.alias", root.to_string_lossy());
    match sp {
        Sp::Abs => abs(p),
        Sp::Rel => rel,
        Sp::DotRel => format!("./{}", rel),
        Sp::Dots => format!("{}/./{}", abs("").replacen('/', "//", 1), p.replace('/', "//.//")),
        Sp::UpDown => format!("{}/../{}/{}", abs(dir), abs(dir).rsplit('/').next().unwrap(), name),
        Sp::Link => format!("{}/root/{}", alias, p),
        Sp::LinkDir => {
            let known = dir.is_empty() || "p/q/r".starts_with(dir);
            let d = if dir.is_empty() { 0 } else { dir.matches('/').count() + 1 };
            if known {
                format!("{}/dir{}/{}", alias, d, name)
            } else {
                abs(p)
            }
        }
        Sp::LinkSelf => {
            let l = format!("{}/self-{}", alias, p.replace('/', "-"));
            if std::fs::symlink_metadata(&l).is_ok() && std::fs::metadata(&l).is_ok() {
                l
            } else {
                abs(p)
            }
        }
        Sp::Slash => format!("{}/", abs(p)),
    }
}
fn play(f: &mut F, depth: usize, hist: &[Step]) -> Result<Model, Bad> {
    let mut m = lay(&mut f.fx, depth)?;
    for s in hist {
        match s {
            Step::Do(op, sp) => one(f, &mut m, op, *sp)?,
            Step::WrongClose(n) | Step::WrongRemove(n) => {
                let (id, sig, _) = f.fx.slots[*n].clone();
                let sig = sig.wrapping_add(1);
                let r = match s {
                    Step::WrongRemove(_) => Request::RemoveFile(RemoveFileArgs { id, sig }),
                    _ => Request::CloseFile(CloseFileArgs { id, sig }),
                };
                match f.fx.rig.ask(r) {
                    Some(Reply::Error(_)) => (),
                    x => return Err(("stale", format!("a request with a wrong signature was answered {:?}", x))),
                }
            }
            Step::Expire => {
                advance_clock(TTL + Duration::from_millis(20));
                settle(f)?;
                for s in 0..m.handles.len() {
                    m.handles[s] = None;
                }
            }
            Step::AlmostExpire(s) => {
                advance_clock(TTL - Duration::from_secs(1));
                settle(f)?;
                let want = match &m.handles[*s] {
                    Some(h) if h.r && h.inode.is_some() => Want::Contents(m.data[h.inode.unwrap()].clone()),
                    _ => Want::Error,
                };
                f.fx.step(&Op::Read(*s), &want)?;
                advance_clock(TTL - Duration::from_secs(1));
                settle(f)?;
                for i in 0..m.handles.len() {
                    if i != *s {
                        m.handles[i] = None;
                    }
                }
            }
        }
    }
    Ok(m)
}
/// Lets the cleanup run.
fn settle(f: &mut F) -> Result<(), Bad> {
    for _ in 0..3 {
        advance_clock(Duration::from_millis(3));
        match f.fx.rig.ask(Request::Heartbeat) {
            Some(Reply::Heartbeat) => (),
            x => return Err(("silent", format!("heartbeat answered {:?}", x))),
        }
    }
    Ok(())
}

/// Requests by path that touch `target` (the file's current place) or a
/// directory around it.
fn probes(target: &str, m: &Model) -> Vec<Op> {
    let mut v = vec![
        Op::RemoveU(target.into()),
        Op::RenameU(target.into(), "new".into()),
        Op::RenameU(target.into(), "empty/new".into()),
        Op::RenameU(target.into(), target.into()),
        Op::RenameU("o".into(), target.into()),
    ];
    let mut d = target;
    while let Some(i) = d.rfind('/') {
        d = &d[..i];
        v.push(Op::Rmdir(d.into(), true));
        v.push(Op::RenameDir(d.into(), "newdir".into()));
        v.push(Op::RenameDir(d.into(), "empty".into()));
        v.push(Op::RenameDir(d.into(), d.into()));
    }
    for (k, n) in &m.tree {
        if *n == Node::Dir && k.starts_with("pp") {
            v.push(Op::RenameDir(k.clone(), "newdir".into()));
            v.push(Op::Rmdir(k.clone(), true));
        }
    }
    v.push(Op::RemoveU("pp/f".into()));
    v.push(Op::Rmdir("empty".into(), false));
    v
}

fn check(ctx: &Ctx, depth: usize, hist: &[Step]) {
    last_case(|| format!("{} {:?}", depth, hist));
    let mut at: Option<(Op, Sp)> = None;
    let r = with(|f| -> Result<(), Bad> {
        let m = play(f, depth, hist)?;
        ctx.states.fetch_add(1, Ordering::Relaxed);
        ctx.traces.fetch_add(1, Ordering::Relaxed);
        f.fx.compare_tree(&m)?;
        let place = m.handles.iter().flatten().next().map(|h| h.path.clone()).unwrap_or_else(|| m.tree.keys().find(|k| m.tree[*k] == Node::File(0)).cloned().unwrap_or_else(|| join(&dir(depth), "f")));
        let key = m.key();
        let mut later = vec![];
        for op in probes(&place, &m) {
            let mut n = m.clone();
            let w = n.apply(&op);
            for sp in ALL {
                ctx.transitions.fetch_add(1, Ordering::Relaxed);
                if w == Want::Error || n.key() == key {
                    // refused: all of them one after the other
                    at = Some((op.clone(), sp));
                    one(f, &mut m.clone(), &op, sp)?;
                    f.fx.compare_tree(&m)?;
                    ctx.outcome("refused");
                } else {
                    later.push((op.clone(), sp));
                }
            }
        }
        f.fx.compare_handles(&m)?;
        for (op, sp) in later {
            if sp == Sp::Slash && !is_dir_op(&op) {
                continue;
            }
            at = Some((op.clone(), sp));
            let mut m = play(f, depth, hist)?;
            one(f, &mut m, &op, sp)?;
            ctx.traces.fetch_add(1, Ordering::Relaxed);
            ctx.outcome("carried out");
            f.fx.compare_tree(&m)?;
            f.fx.compare_handles(&m)?;
        }
        Ok(())
    });
    if let Err(b) = r {
        ctx.violation(b.0, &b.1, json!({"depth": depth, "history": format!("{:?}", hist), "request": format!("{:?}", at)}));
    }
}

fn open(p: &str, w: bool, r: bool, create: bool) -> Op {
    Op::Open { path: p.into(), create, w, r }
}
fn histories(ctx: &Ctx, depth: usize) -> Vec<Vec<Step>> {
    let f = join(&dir(depth), "f");
    let g = join(&dir(depth), "g");
    let sps: Vec<Sp> = ALL.iter().copied().filter(|s| *s != Sp::Slash).collect();
    // ways to get a file open
    let mut starts: Vec<Vec<Step>> = vec![];
    for sp in &sps {
        starts.push(vec![Step::Do(open(&f, false, true, false), *sp)]);
        starts.push(vec![Step::Do(open(&f, true, true, true), *sp)]);
        // created by opening
        starts.push(vec![Step::Do(open(&g, true, true, true), *sp)]);
        for sp2 in &sps {
            // reopened with other permissions under another spelling
            starts.push(vec![Step::Do(open(&f, false, true, false), *sp), Step::Do(open(&f, true, false, false), *sp2)]);
            // renamed into place
            starts.push(vec![Step::Do(open("o", true, true, false), *sp2), Step::Do(Op::RenameH(0, g.clone()), *sp)]);
            if !ctx.quick() {
                starts.push(vec![Step::Do(open(&f, true, false, false), *sp), Step::Do(open(&f, true, true, true), *sp2)]);
                starts.push(vec![Step::Do(open("o", true, true, false), Sp::Abs), Step::Do(Op::RenameH(0, "n".into()), *sp2), Step::Do(Op::RenameH(0, g.clone()), *sp)]);
            }
        }
        // replaced an unopened file, moved away and back, moved elsewhere
        starts.push(vec![Step::Do(open("o", true, true, false), Sp::Abs), Step::Do(Op::RenameH(0, f.clone()), *sp)]);
        starts.push(vec![Step::Do(open(&f, true, true, false), Sp::Abs), Step::Do(Op::RenameH(0, "empty/m".into()), *sp), Step::Do(Op::RenameH(0, f.clone()), *sp)]);
        starts.push(vec![Step::Do(open(&f, true, true, false), *sp), Step::Do(Op::RenameH(0, "empty/m".into()), *sp)]);
        // closed and opened again, another file open elsewhere
        starts.push(vec![Step::Do(open(&f, false, true, false), Sp::Abs), Step::Do(Op::Close(0), Sp::Abs), Step::Do(open(&f, false, true, false), *sp)]);
        starts.push(vec![Step::Do(open("o", false, true, false), *sp), Step::Do(open(&f, false, true, false), *sp), Step::Do(Op::Close(0), Sp::Abs)]);
        // removed through its handle and created again
        starts.push(vec![Step::Do(open(&f, true, true, false), Sp::Abs), Step::Do(Op::RemoveH(0), Sp::Abs), Step::Do(open(&f, true, true, true), *sp)]);
        // a rename that is refused, a write
        starts.push(vec![Step::Do(open(&f, true, true, false), *sp), Step::Do(Op::RenameH(0, "empty".into()), *sp), Step::Do(Op::Write(0, 1), Sp::Abs)]);
        if depth > 0 {
            // a directory opened like a file
            starts.push(vec![Step::Do(open(&dir(depth), false, true, false), *sp)]);
            // moved to a lower and to a higher directory
            starts.push(vec![Step::Do(open(&f, true, true, false), *sp), Step::Do(Op::RenameH(0, "f".into()), *sp)]);
            starts.push(vec![Step::Do(open("o", true, true, false), *sp), Step::Do(Op::RenameH(0, join(&dir(depth - 1), "h")), *sp)]);
        }
    }
    let mut out = vec![];
    for s in starts {
        // which slot is open at the end?
        let mut m = initial(depth);
        for x in &s {
            if let Step::Do(op, _) = x {
                m.apply(op);
            }
        }
        let slot = match m.handles.iter().position(|h| h.is_some()) {
            Some(s) => s,
            None => continue,
        };
        for end in 0..7 {
            let mut h = s.clone();
            match end {
                0 => (),
                1 => h.push(Step::Do(Op::Close(slot), Sp::Abs)),
                2 => h.push(Step::Expire),
                3 => h.push(Step::AlmostExpire(slot)),
                4 => h.push(Step::WrongClose(slot)),
                5 => h.push(Step::WrongRemove(slot)),
                _ => {
                    if m.handles[slot].as_ref().unwrap().inode.is_none() {
                        continue;
                    }
                    h.push(Step::Do(Op::RemoveH(slot), Sp::Abs))
                }
            }
            out.push(h);
        }
    }
    out
}

pub fn run(ctx: &Ctx) -> i32 {
    // relative spellings: everything lies below the working directory
    std::env::set_current_dir(Scratch::new("cwd").0.parent().unwrap()).unwrap();
    let mut items = vec![];
    for depth in 0..=ctx.pick(2, 3) {
        for h in histories(ctx, depth) {
            items.push((depth, h));
        }
    }
    ctx.note("histories", items.len() as u64);
    par_items(ctx, &items, |ctx, i, (d, h)| {
        freeze_once();
        check(ctx, *d, h);
        if i % 401 == 7 && ctx.wants_sample() {
            ctx.sample(json!({"depth": d, "history": format!("{:?}", h)}));
        }
    });
    ctx.finish(
        "model_checking",
        "all histories (openings, reopenings, renames, closings, expiry, refused requests) x all spellings of each path x all path-based requests on the file and every directory around it, on a real server; replies and tree compared with the model",
        true,
        &["symbolic links lie outside the tree and are only used to reach into it"],
    )
}
fn freeze_once() {
    thread_local! { static DONE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
    DONE.with(|d| {
        if !d.replace(true) {
            freeze_clock();
        }
    })
}
