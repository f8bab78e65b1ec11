//! C13: signatures.  From every history of operations on open files, every
//! operation with every kind of outdated or foreign signature is refused and
//! changes nothing; of several modifications under one signature one wins;
//! the signature changes whenever the contents may have.
use crate::c12::{replay, with_fx};
use crate::core::*;
use crate::fsx::*;
use crate::interpose::*;
use crate::rig::Cfg;
use over_there::core::{request::*, Reply, ReplyError, Request};
use serde_json::json;
use std::collections::BTreeSet;
use std::sync::atomic::Ordering;

/// The five operations that carry a signature.
fn signed(kind: usize, id: u32, sig: u32, to: String) -> Request {
    match kind {
        0 => Request::ReadFile(ReadFileArgs { id, sig }),
        1 => Request::WriteFile(WriteFileArgs { id, sig, contents: b"stale".to_vec() }),
        2 => Request::RenameFile(RenameFileArgs { id, sig, to }),
        3 => Request::RemoveFile(RemoveFileArgs { id, sig }),
        _ => Request::CloseFile(CloseFileArgs { id, sig }),
    }
}
fn wrong_sigs(fx: &Fx, s: usize) -> Vec<u32> {
    let cur = fx.slots[s].1;
    let mut v = BTreeSet::new();
    v.extend([0, 1, u32::MAX, !cur, cur.wrapping_add(1), cur.wrapping_sub(1), cur.swap_bytes(), cur ^ 0x8000_0000, cur & 0xffff, cur & 0xff, cur << 1]);
    v.extend(fx.slots[s].2.iter().copied());
    for (i, x) in fx.slots.iter().enumerate() {
        v.insert(x.0);
        if i != s {
            v.insert(x.1);
            v.extend(x.2.iter().copied());
        }
    }
    v.remove(&cur);
    v.into_iter().collect()
}
fn probe(ctx: &Ctx, fx: &mut Fx, m: &Model) -> Result<(), Bad> {
    for s in 0..fx.slots.len() {
        let (id, cur, _) = fx.slots[s].clone();
        let open = m.handles[s].is_some();
        for sig in wrong_sigs(fx, s) {
            for kind in 0..5 {
                for to in ["n", "a", "e", "x/n"].iter().take(if kind == 2 { 4 } else { 1 }) {
                    let req = signed(kind, id, sig, fx.abs(to));
                    ctx.transitions.fetch_add(1, Ordering::Relaxed);
                    let reply = fx.rig.ask(req.clone()).ok_or_else(|| ("silent", format!("{:?} got no reply", req)))?;
                    let ok = match &reply {
                        Reply::Error(ReplyError::FileSigChanged(x)) if open && kind < 4 => x.id == id && x.sig == cur,
                        Reply::Error(_) => !open || kind == 4,
                        _ => false,
                    };
                    if !ok {
                        return Err((["stale-read", "stale-write", "stale-rename", "stale-remove", "stale-close"][kind], format!("{:?} with the current signature {} was answered {:?}", req, cur, reply)));
                    }
                    ctx.outcome(if open { "refused" } else { "refused, file not open" });
                }
                if kind == 1 || kind > 2 {
                    // the file itself is what matters; the tree is cheap
                    fx.compare_tree(m)?;
                }
            }
        }
        fx.compare_tree(m)?;
        if let Some(h) = &m.handles[s] {
            // still open under the same id and signature, whichever way asked
            fx.step(&Op::Open { path: h.path.clone(), create: false, w: h.w, r: h.r }, &Want::Opened(s))?;
        }
    }
    fx.compare_handles(m)
}

fn histories(ops: &[Op], depth: usize, slots: usize) -> Vec<Vec<Op>> {
    let mut out = vec![];
    let mut level: Vec<(Model, Vec<Op>)> = vec![(Model::initial(), vec![])];
    for _ in 0..depth {
        let mut next = vec![];
        for (m, seq) in &level {
            for op in ops {
                if op.slot().map(|s| m.handles.get(s).map(|h| h.is_none()).unwrap_or(true)).unwrap_or(false) {
                    continue;
                }
                let mut n = m.clone();
                n.apply(op);
                if n.handles.len() > slots {
                    continue;
                }
                let mut s: Vec<Op> = seq.clone();
                s.push(op.clone());
                next.push((n, s));
            }
        }
        out.extend(next.iter().filter(|x| !x.0.handles.is_empty()).map(|x| x.1.clone()));
        level = next;
    }
    out
}

const EMPTY: usize = 5;
/// Several modifications carrying the same signature.
fn race(ctx: &Ctx, set: &[usize], batch: bool) {
    with_fx(20_000, |fx| {
        let mut m = Model::initial();
        let run = |fx: &mut Fx, m: &mut Model| -> Result<(), Bad> {
            fx.reset(m)?;
            let open = Op::Open { path: "a".into(), create: false, w: true, r: true };
            let w = m.apply(&open);
            fx.step(&open, &w)?;
            let (id, sig, _) = fx.slots[0].clone();
            let reqs: Vec<Request> = set
                .iter()
                .enumerate()
                .map(|(i, k)| match *k {
                    1 => Request::WriteFile(WriteFileArgs { id, sig, contents: vec![b'0' + i as u8] }),
                    2 => Request::RenameFile(RenameFileArgs { id, sig, to: fx.abs(["n0", "n1", "n2", "n3"][i]) }),
                    EMPTY => Request::WriteFile(WriteFileArgs { id, sig, contents: vec![] }),
                    k => signed(k, id, sig, String::new()),
                })
                .collect();
            ctx.transitions.fetch_add(set.len() as u64, Ordering::Relaxed);
            ctx.traces.fetch_add(1, Ordering::Relaxed);
            let replies = if batch {
                match fx.rig.ask(Request::Batch(reqs.clone().into())) {
                    Some(Reply::Batch(b)) => b.results,
                    x => return Err(("batch", format!("batch {:?} answered {:?}", reqs, x))),
                }
            } else {
                // one after the other, each from its own client
                while fx.rig.peers.len() < reqs.len() {
                    fx.rig.add_peer();
                }
                let ids: Vec<u32> = reqs.iter().enumerate().map(|(i, r)| fx.rig.send(i, r.clone())).collect();
                let mut v = vec![];
                for (i, id) in ids.iter().enumerate() {
                    let limit = fx.rig.limit;
                    match fx.rig.recv(i, limit) {
                        Some(g) if g.parent == Some(*id) => v.push(g.reply),
                        x => return Err(("silent", format!("request {:?} got {:?}", reqs[i], x.map(|g| g.reply)))),
                    }
                }
                v
            };
            let won: Vec<usize> = (0..set.len()).filter(|i| !matches!(replies[*i], Reply::Error(_)) && set[*i] > 0).collect();
            let modified: Vec<usize> = won.iter().copied().filter(|i| set[*i] != 4).collect();
            if modified.len() > 1 {
                return Err(("race", format!("{} modifications succeeded under one signature: {:?} answered {:?}", modified.len(), reqs, replies)));
            }
            if won.is_empty() {
                return Err(("race", format!("no operation succeeded: {:?} answered {:?}", reqs, replies)));
            }
            let last_sig = match modified.first().map(|i| &replies[*i]) {
                Some(Reply::FileWritten(x)) => x.sig,
                Some(Reply::FileRenamed(x)) => x.sig,
                Some(Reply::FileRemoved(x)) => x.sig,
                _ => sig,
            };
            if !modified.is_empty() && last_sig == sig {
                return Err(("signature", format!("a modification kept the signature: {:?} answered {:?}", reqs, replies)));
            }
            for (i, r) in replies.iter().enumerate() {
                if let Reply::Error(ReplyError::FileSigChanged(x)) = r {
                    if x.id != id || x.sig != last_sig {
                        return Err(("race", format!("the refusal of {:?} names signature {}, the current one is {}", reqs[i], x.sig, last_sig)));
                    }
                }
            }
            // the tree shows the winner's effect and nothing else
            let mut want = m.snapshot();
            for i in &modified {
                match set[*i] {
                    1 => {
                        want.insert("a".into(), Some(vec![b'0' + *i as u8]));
                    }
                    EMPTY => {
                        want.insert("a".into(), Some(vec![]));
                    }
                    2 => {
                        let c = want.remove("a").unwrap();
                        want.insert(["n0", "n1", "n2", "n3"][*i].into(), c);
                    }
                    _ => {
                        want.remove("a");
                    }
                }
            }
            let real = walk(&fx.root);
            if real != want {
                return Err(("tree", format!("{:?} answered {:?} left [{}], expected [{}]", reqs, replies, show(&real), show(&want))));
            }
            fx.slots[0].1 = last_sig;
            ctx.outcome(if modified.is_empty() { "race won by a close" } else { "race won by one modification" });
            Ok(())
        };
        if let Err(b) = run(fx, &mut m) {
            ctx.violation(b.0, &b.1, json!({"operations": set, "batch": batch}));
        }
    });
}

fn fd_of(path: &std::path::Path) -> Option<i32> {
    for e in std::fs::read_dir("/proc/self/fd").ok()? {
        let e = e.ok()?;
        if std::fs::read_link(e.path()).map(|p| p == path).unwrap_or(false) {
            return e.file_name().to_string_lossy().parse().ok();
        }
    }
    None
}
/// The operating system fails in the middle of a write or read.
fn faults(ctx: &Ctx) {
    let sizes = [0usize, 1, 3, 16_384, 18_000];
    let mut plans: Vec<(Vec<IoStep>, Vec<IoStep>, Vec<IoStep>, &str)> = vec![];
    use IoStep::*;
    for e in [libc::ENOSPC, libc::EIO, libc::EFBIG, libc::EINTR] {
        plans.push((vec![], vec![], vec![Errno(e)], "truncate"));
        for before in [vec![], vec![Max(1)], vec![Max(1), Max(1)], vec![Max(16384)], vec![Max(16384), Max(16384)], vec![Max(0)]] {
            let mut w = before.clone();
            w.push(Errno(e));
            plans.push((vec![], w, vec![], "write"));
        }
        plans.push((vec![Errno(e)], vec![], vec![], "read"));
        plans.push((vec![Max(1), Errno(e)], vec![], vec![], "read"));
    }
    plans.push((vec![], vec![Max(1), Max(1), Max(2)], vec![], "short writes"));
    for size in sizes {
        for (reads, writes, truncs, name) in &plans {
            let mut fx = Fx::new(Cfg::default());
            let mut go = || -> Result<(), Bad> {
                let mut m = Model::initial();
                fx.reset(&m)?;
                let open = Op::Open { path: "a".into(), create: false, w: true, r: true };
                let w = m.apply(&open);
                fx.step(&open, &w)?;
                let (id, sig, _) = fx.slots[0].clone();
                let fd = fd_of(&fx.root.join("a")).ok_or(("fd", "the server holds no open file".to_string()))?;
                let data: Vec<u8> = (0..size).map(|i| (i % 251) as u8).collect();
                script_file(FileScript { fd, io: IoScript { reads: reads.iter().copied().collect(), writes: writes.iter().copied().collect(), ..Default::default() }, truncations: truncs.iter().copied().collect(), truncate_calls: 0 });
                let is_read = !reads.is_empty();
                let req = if is_read { Request::ReadFile(ReadFileArgs { id, sig }) } else { Request::WriteFile(WriteFileArgs { id, sig, contents: data.clone() }) };
                let reply = fx.rig.ask(req);
                let s = unscript_file().unwrap();
                let reply = reply.ok_or(("silent", "no reply to a write that fails".to_string()))?;
                ctx.traces.fetch_add(1, Ordering::Relaxed);
                ctx.transitions.fetch_add((s.io.read_calls + s.io.write_calls + s.truncate_calls) as u64, Ordering::Relaxed);
                let now = std::fs::read(fx.root.join("a")).unwrap();
                let changed = now != b"A";
                let cur = match &reply {
                    Reply::FileWritten(x) => {
                        if now != data {
                            return Err(("fault-lost", format!("a write reported as successful left {} of {} bytes", now.len(), data.len())));
                        }
                        if x.sig == sig {
                            return Err(("signature", "a successful write kept the signature".into()));
                        }
                        ctx.outcome("write survived");
                        x.sig
                    }
                    Reply::FileContents(_) => {
                        ctx.outcome("read survived");
                        sig
                    }
                    Reply::Error(ReplyError::Io(_)) => {
                        ctx.outcome(if changed { "failed in the middle" } else { "failed before any change" });
                        // which signature is current now?
                        match fx.rig.ask(Request::ReadFile(ReadFileArgs { id, sig })) {
                            Some(Reply::Error(ReplyError::FileSigChanged(x))) => x.sig,
                            Some(_) if changed => {
                                return Err(("fault-signature", format!("a write failed after changing the file ({} bytes now), but the old signature is still accepted", now.len())));
                            }
                            _ => sig,
                        }
                    }
                    x => return Err(("fault-reply", format!("unexpected answer {:?}", x))),
                };
                // the file is usable afterwards
                match fx.rig.ask(Request::ReadFile(ReadFileArgs { id, sig: cur })) {
                    Some(Reply::FileContents(x)) if x.contents == now => (),
                    x => return Err(("fault-after", format!("after the failure reading gives {:?}", x))),
                }
                match fx.rig.ask(Request::WriteFile(WriteFileArgs { id, sig: cur, contents: b"again".to_vec() })) {
                    Some(Reply::FileWritten(x)) if x.sig != cur && std::fs::read(fx.root.join("a")).unwrap() == b"again" => Ok(()),
                    x => Err(("fault-after", format!("after the failure writing gives {:?} and {:?}", x, std::fs::read(fx.root.join("a"))))),
                }
            };
            let r = go();
            unscript_file();
            if let Err(b) = r {
                ctx.violation(b.0, &b.1, json!({"fault": name, "size": size, "reads": format!("{:?}", reads), "writes": format!("{:?}", writes), "truncations": format!("{:?}", truncs)}));
            }
        }
    }
}

pub fn run(ctx: &Ctx) -> i32 {
    guarded(ctx, || faults(ctx));
    let mut alphabet = vec![];
    for (w, r) in [(false, true), (true, false), (true, true)] {
        alphabet.push(Op::Open { path: "a".into(), create: w, w, r });
    }
    alphabet.push(Op::Open { path: "d/b".into(), create: false, w: true, r: true });
    alphabet.push(Op::Open { path: "d".into(), create: false, w: false, r: true });
    alphabet.push(Op::Open { path: "n".into(), create: true, w: true, r: true });
    for s in 0..2 {
        alphabet.push(Op::Read(s));
        alphabet.push(Op::Write(s, 1));
        // nothing at all is a write as well
        alphabet.push(Op::Write(s, 0));
        alphabet.push(Op::RenameH(s, "n".into()));
        alphabet.push(Op::RenameH(s, "a".into()));
        alphabet.push(Op::RenameH(s, "e".into()));
        alphabet.push(Op::RemoveH(s));
        alphabet.push(Op::Close(s));
    }
    let depth = ctx.pick(4, 5);
    let hs = histories(&alphabet, depth, 2);
    ctx.states.fetch_add(hs.len() as u64, Ordering::Relaxed);
    ctx.note("histories", hs.len() as u64);
    par_items(ctx, &hs, |ctx, i, h| {
        last_case(|| format!("{:?}", h));
        ctx.traces.fetch_add(1, Ordering::Relaxed);
        let r = with_fx(20_000, |fx| replay(fx, h).and_then(|m| probe(ctx, fx, &m)));
        if let Err(b) = r {
            ctx.violation(b.0, &b.1, json!({"history": describe(h)}));
        } else if i % 1009 == 3 && ctx.wants_sample() {
            ctx.sample(json!({"history": describe(h), "then": "every operation with every wrong signature: refused"}));
        }
    });
    // races
    let mut sets: Vec<Vec<usize>> = vec![];
    for n in 2..=ctx.pick(3, 4) {
        let mut v = vec![vec![]];
        for _ in 0..n {
            v = v.into_iter().flat_map(|p: Vec<usize>| (0..6).map(move |k| { let mut q = p.clone(); q.push(k); q })).collect();
        }
        sets.extend(v.into_iter().filter(|v| v.iter().any(|k| *k > 0)));
    }
    par_items(ctx, &sets, |ctx, _, s| {
        race(ctx, s, true);
        race(ctx, s, false);
    });
    ctx.finish(
        "model_checking",
        "all operation histories up to the depth on two open files, then every signed operation with every outdated, neighbouring and foreign signature; all tuples of operations sharing one signature, from one batch and from several clients; a failure of the operating system at every read, write and truncation",
        true,
        &["batch parts interleave as the single-threaded runtime schedules them (C21 explores the schedules)"],
    )
}
