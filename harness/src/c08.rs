//! C08: exactly one reply per request, of the right kind, correlated, at the
//! origin.
use crate::core::*;
use crate::msgs;
use crate::rig::*;
use over_there::core::{reply, request, Content, Header, Msg, Reply, Request};
use serde_json::json;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;
use std::time::Duration;

pub fn expected_kind(r: &Request) -> Option<&'static str> {
    Some(match r {
        Request::Heartbeat => "Heartbeat",
        Request::Version => "Version",
        Request::Capabilities => "Capabilities",
        Request::CreateDir(_) => "DirCreated",
        Request::RenameDir(_) => "DirRenamed",
        Request::RemoveDir(_) => "DirRemoved",
        Request::ListDirContents(_) => "DirContentsList",
        Request::OpenFile(_) => "FileOpened",
        Request::CloseFile(_) => "FileClosed",
        Request::RenameUnopenedFile(_) => "UnopenedFileRenamed",
        Request::RenameFile(_) => "FileRenamed",
        Request::RemoveUnopenedFile(_) => "UnopenedFileRemoved",
        Request::RemoveFile(_) => "FileRemoved",
        Request::ReadFile(_) => "FileContents",
        Request::WriteFile(_) => "FileWritten",
        Request::ExecProc(_) => "ProcStarted",
        Request::WriteProcStdin(_) => "ProcStdinWritten",
        Request::ReadProcStdout(_) => "ProcStdoutContents",
        Request::ReadProcStderr(_) => "ProcStderrContents",
        Request::KillProc(_) => "ProcKilled",
        Request::ReadProcStatus(_) => "ProcStatus",
        Request::InternalDebug(_) => "InternalDebug",
        Request::Custom(_) => "Custom",
        Request::Sequence(_) => "Sequence",
        Request::Batch(_) => "Batch",
        Request::Forward(_) => return None,
    })
}

/// A scratch directory with a file, an open file, a directory and a process.
pub struct World {
    pub dir: Scratch,
    pub id: u32,
    pub sig: u32,
    pub proc: u32,
}
pub fn world(rig: &mut Rig) -> World {
    let dir = Scratch::new("w");
    std::fs::write(dir.0.join("f"), b"contents").unwrap();
    std::fs::write(dir.0.join("open"), b"open contents").unwrap();
    std::fs::create_dir(dir.0.join("d")).unwrap();
    std::fs::write(dir.0.join("d/x"), b"x").unwrap();
    let (id, sig) = match rig.ask(Request::OpenFile(request::OpenFileArgs { path: dir.0.join("open").to_string_lossy().into(), create_if_missing: false, write_access: true, read_access: true })) {
        Some(Reply::FileOpened(a)) => (a.id, a.sig),
        x => panic!("cannot set the scene: {:?}", x),
    };
    World { dir, id, sig, proc: 0 }
}
pub fn start_proc(rig: &mut Rig, w: &mut World) {
    w.proc = match rig.ask(Request::ExecProc(request::ExecProcArgs { command: "cat".into(), args: vec![], stdin: true, stdout: true, stderr: true, current_dir: None })) {
        Some(Reply::ProcStarted(a)) => a.id,
        x => panic!("cannot set the scene: {:?}", x),
    };
}

/// Requests of every kind against the world, succeeding and failing.
fn requests(w: &World) -> Vec<Request> {
    let p = |s: &str| w.dir.0.join(s).to_string_lossy().to_string();
    let (id, sig, pr) = (w.id, w.sig, w.proc);
    let mut v = vec![
        Request::Heartbeat,
        Request::Version,
        Request::Capabilities,
        Request::CreateDir(request::CreateDirArgs { path: p("new"), include_components: false }),
        Request::CreateDir(request::CreateDirArgs { path: p("no/such/parent"), include_components: false }),
        Request::RenameDir(request::RenameDirArgs { from: p("d"), to: p("d2") }),
        Request::RenameDir(request::RenameDirArgs { from: p("f"), to: p("d2") }),
        Request::RemoveDir(request::RemoveDirArgs { path: p("d"), non_empty: true }),
        Request::RemoveDir(request::RemoveDirArgs { path: p("d"), non_empty: false }),
        Request::ListDirContents(request::ListDirContentsArgs { path: p("") }),
        Request::ListDirContents(request::ListDirContentsArgs { path: p("f") }),
        Request::OpenFile(request::OpenFileArgs { path: p("f"), create_if_missing: false, write_access: true, read_access: true }),
        Request::OpenFile(request::OpenFileArgs { path: p("absent"), create_if_missing: false, write_access: true, read_access: true }),
        Request::CloseFile(request::CloseFileArgs { id, sig }),
        Request::CloseFile(request::CloseFileArgs { id: id ^ 1, sig }),
        Request::RenameUnopenedFile(request::RenameUnopenedFileArgs { from: p("f"), to: p("f2") }),
        Request::RenameUnopenedFile(request::RenameUnopenedFileArgs { from: p("open"), to: p("f2") }),
        Request::RenameFile(request::RenameFileArgs { id, sig, to: p("open2") }),
        Request::RenameFile(request::RenameFileArgs { id, sig: sig ^ 1, to: p("open2") }),
        Request::RemoveUnopenedFile(request::RemoveUnopenedFileArgs { path: p("f") }),
        Request::RemoveUnopenedFile(request::RemoveUnopenedFileArgs { path: p("open") }),
        Request::RemoveFile(request::RemoveFileArgs { id, sig }),
        Request::RemoveFile(request::RemoveFileArgs { id, sig: sig ^ 1 }),
        Request::ReadFile(request::ReadFileArgs { id, sig }),
        Request::ReadFile(request::ReadFileArgs { id, sig: sig ^ 1 }),
        Request::ReadFile(request::ReadFileArgs { id: id ^ 1, sig }),
        Request::WriteFile(request::WriteFileArgs { id, sig, contents: b"written".to_vec() }),
        Request::WriteFile(request::WriteFileArgs { id, sig: sig ^ 1, contents: b"written".to_vec() }),
        Request::ExecProc(request::ExecProcArgs { command: "/no/such/program".into(), args: vec![], stdin: true, stdout: true, stderr: true, current_dir: None }),
        Request::ExecProc(request::ExecProcArgs { command: "true".into(), args: vec![], stdin: false, stdout: false, stderr: false, current_dir: Some(p("absent")) }),
        Request::WriteProcStdin(request::WriteProcStdinArgs { id: pr, input: b"in".to_vec() }),
        Request::ReadProcStdout(request::ReadProcStdoutArgs { id: pr }),
        Request::ReadProcStderr(request::ReadProcStderrArgs { id: pr }),
        Request::ReadProcStatus(request::ReadProcStatusArgs { id: pr }),
        Request::InternalDebug(request::InternalDebugArgs { input: vec![] }),
        Request::Forward(request::ForwardArgs { address: "127.0.0.1:1".parse().unwrap(), request: Box::new(Request::Heartbeat) }),
    ];
    if pr != 0 {
        v.push(Request::KillProc(request::KillProcArgs { id: pr }));
        v.push(Request::ExecProc(request::ExecProcArgs { command: "true".into(), args: vec![], stdin: false, stdout: false, stderr: false, current_dir: None }));
    } else {
        v.push(Request::KillProc(request::KillProcArgs { id: 0 }));
    }
    for k in 0..4u8 {
        v.push(Request::Custom(request::CustomArgs { data: vec![k, 1, 2] }));
    }
    let e = Request::ReadFile(request::ReadFileArgs { id: id ^ 1, sig });
    v.push(Request::Batch(vec![Request::Heartbeat, e.clone(), Request::Version].into()));
    v.push(Request::Sequence(vec![msgs::plain_op(Request::Heartbeat), msgs::plain_op(e.clone()), msgs::plain_op(Request::Version)].into()));
    v.push(Request::Batch(vec![].into()));
    v.push(Request::Sequence(vec![].into()));
    v
}

/// A custom handler whose behaviour the request's first byte selects.
pub fn custom(log: Option<std::sync::Arc<std::sync::Mutex<Vec<Vec<u8>>>>>) -> CustomFn {
    Box::new(move |a: request::CustomArgs| {
        if let Some(l) = &log {
            l.lock().unwrap().push(a.data.clone());
        }
        Box::pin(async move {
            match a.data.first() {
                Some(1) => Err("custom failure".into()),
                Some(2) => panic!("{}", QUIET),
                Some(3) => {
                    for _ in 0..3 {
                        tokio::task::yield_now().await;
                    }
                    Ok(reply::CustomArgs { data: a.data })
                }
                _ => Ok(reply::CustomArgs { data: a.data }),
            }
        })
    })
}

thread_local! {
    static RIG: RefCell<Option<Rig>> = const { RefCell::new(None) };
}
/// The worker's server; a server that went silent is replaced.
fn with_rig<T>(handler: bool, f: impl FnOnce(&mut Rig) -> T) -> T {
    RIG.with(|r| {
        let mut r = r.borrow_mut();
        if r.as_ref().map(|x| x.dead || x.asked > 16).unwrap_or(true) {
            *r = None;
            *r = Some(Rig::new(Cfg { custom: if handler { Some(custom(None)) } else { None }, clients: 3, ..Default::default() }));
        }
        f(r.as_mut().unwrap())
    })
}

/// All messages that arrive at every peer until each has had its own
/// heartbeat answered.
fn collect(rig: &mut Rig, ctx: &Ctx, case: &serde_json::Value) -> Option<BTreeMap<usize, Vec<Got>>> {
    let mut out = BTreeMap::new();
    for p in 0..rig.peers.len() {
        let hb = rig.send(p, Request::Heartbeat);
        let mut got = vec![];
        let mut barrier = 0;
        loop {
            match rig.recv(p, if barrier > 0 { Duration::from_millis(0) } else { rig.limit }) {
                Some(g) if g.parent == Some(hb) => barrier += 1,
                Some(g) => got.push(g),
                None => break,
            }
        }
        if barrier == 0 {
            rig.dead = true;
            ctx.violation("silent", "the server stopped answering", case.clone());
            return None;
        }
        if barrier > 1 {
            ctx.violation("duplicate", "a heartbeat was answered more than once", case.clone());
        }
        out.insert(p, got);
    }
    Some(out)
}

fn check_replies(rig: &mut Rig, ctx: &Ctx, handler: bool, sent: &[(usize, u32, Request)], case: serde_json::Value) {
    let got = match collect(rig, ctx, &case) {
        Some(g) => g,
        None => return,
    };
    ctx.transitions.fetch_add(sent.len() as u64, Ordering::Relaxed);
    ctx.states.fetch_add(1, Ordering::Relaxed);
    ctx.traces.fetch_add(1, Ordering::Relaxed);
    let mut used: BTreeMap<usize, Vec<bool>> = got.iter().map(|(p, v)| (*p, vec![false; v.len()])).collect();
    for (p, id, r) in sent {
        let kind = match r {
            Request::Custom(_) if !handler => None,
            r => expected_kind(r),
        };
        let mine: Vec<usize> = got[p].iter().enumerate().filter(|(_, g)| g.parent == Some(*id)).map(|x| x.0).collect();
        for i in &mine {
            used.get_mut(p).unwrap()[*i] = true;
        }
        let name = msgs::kind(r);
        match kind {
            None => {
                if !mine.is_empty() {
                    ctx.violation(&format!("answered:{}", name), &format!("{} was answered with {:?}", name, got[p][mine[0]].reply), case.clone());
                }
                ctx.outcome("no answer due");
            }
            Some(k) => {
                if mine.len() != 1 {
                    ctx.violation(&format!("count:{}", name), &format!("{} got {} replies", name, mine.len()), case.clone());
                    continue;
                }
                let rk = msgs::kind(&got[p][mine[0]].reply);
                if rk == "Error" {
                    ctx.outcome("error");
                } else if rk == k {
                    ctx.outcome("reply");
                } else {
                    ctx.violation(&format!("kind:{}", name), &format!("{} was answered with a {} reply", name, rk), case.clone());
                }
            }
        }
    }
    for (p, u) in used {
        for (i, x) in u.iter().enumerate() {
            if !x {
                ctx.violation("stray", &format!("peer {} received a message that answers none of its requests: {:?}", p, got[&p][i]), case.clone());
            }
        }
    }
}

fn needs_proc(i: usize, n: usize) -> bool {
    // the process requests and the ones after them refer to a real process
    (30..34).contains(&i) || i == 36 || i == 37 || i >= n
}

pub fn run(ctx: &Ctx) -> i32 {
    let s = Scratch::new("cwd");
    std::env::set_current_dir(&s.0).unwrap();
    let n = with_rig(true, |r| {
        let w = world(r);
        requests(&w).len()
    });
    // A: every ordered pair of requests, from every pair of origins, pipelined
    let mut items = vec![];
    for i in 0..n {
        for j in 0..n {
            for o in 0..if ctx.quick() && needs_proc(i, n) && needs_proc(j, n) { 2 } else { 4 } {
                items.push((i, j, o));
            }
        }
    }
    // (thorough: also every ordered triple)
    let mut items: Vec<(Vec<usize>, Vec<usize>)> = items.iter().map(|(i, j, o)| (vec![*i, *j], vec![o & 1, o >> 1])).collect();
    if !ctx.quick() {
        for i in 0..n {
            for j in 0..n {
                for k in 0..n {
                    items.push((vec![i, j, k], vec![i & 1, j & 1, k & 1]));
                }
            }
        }
    }
    par_items(ctx, &items, |ctx, ix, (ks, os)| {
        with_rig(true, |rig| {
            let mut w = world(rig);
            if ks.iter().any(|k| needs_proc(*k, n)) {
                start_proc(rig, &mut w);
            }
            let rs = requests(&w);
            let ks: Vec<usize> = ks.iter().map(|k| (*k).min(rs.len() - 1)).collect();
            let case = json!({"requests": ks.iter().map(|k| format!("{:?}", rs[*k])).collect::<Vec<_>>(), "origins": os});
            last_case(|| case.to_string());
            let mut sent = vec![];
            for (k, p) in ks.iter().zip(os) {
                let id = rig.send(*p, rs[*k].clone());
                sent.push((*p, id, rs[*k].clone()));
            }
            if ctx.wants_sample() && ix % 1009 == 1 {
                ctx.sample(case.clone());
            }
            check_replies(rig, ctx, true, &sent, case);
            let _ = rig.ask(Request::CloseFile(request::CloseFileArgs { id: w.id, sig: w.sig }));
            if w.proc != 0 {
                let _ = rig.ask(Request::KillProc(request::KillProcArgs { id: w.proc }));
            }
        });
    });
    // B: triples and quadruples over a reduced set without a handler for
    // custom requests, from all origins
    let depth = ctx.pick(3, 4);
    let small = |k: usize| -> Request {
        match k {
            0 => Request::Heartbeat,
            1 => Request::Custom(request::CustomArgs { data: vec![0] }),
            2 => Request::Forward(request::ForwardArgs { address: "127.0.0.1:1".parse().unwrap(), request: Box::new(Request::Version) }),
            3 => Request::ReadFile(request::ReadFileArgs { id: 1, sig: 1 }),
            4 => Request::Batch(vec![Request::Custom(request::CustomArgs { data: vec![0] }), Request::Forward(request::ForwardArgs { address: "127.0.0.1:1".parse().unwrap(), request: Box::new(Request::Version) })].into()),
            5 => Request::Sequence(vec![msgs::plain_op(Request::Custom(request::CustomArgs { data: vec![0] })), msgs::plain_op(Request::Version)].into()),
            _ => Request::Capabilities,
        }
    };
    let total = 14usize.pow(depth);
    let items: Vec<usize> = (0..total).collect();
    RIG.with(|r| *r.borrow_mut() = None);
    par_items(ctx, &items, |ctx, _, code| {
        with_rig(false, |rig| {
            let mut c = *code;
            let mut sent = vec![];
            for _ in 0..depth {
                let (k, p) = (c % 7, c / 7 % 2);
                c /= 14;
                let r = small(k);
                let id = rig.send(p, r.clone());
                sent.push((p, id, r));
            }
            let case = json!({"requests": sent.iter().map(|s| format!("{:?}", s.2)).collect::<Vec<_>>(), "origins": sent.iter().map(|s| s.0).collect::<Vec<_>>(), "handler": "none"});
            check_replies(rig, ctx, false, &sent, case);
        });
    });
    // C: two clients' multi-packet requests, packets interleaved in every way
    RIG.with(|r| *r.borrow_mut() = None);
    let sizes: Vec<(usize, usize)> = vec![(2, 2), (3, 2), (3, 3)];
    let mut items = vec![];
    for (a, b) in &sizes {
        for mask in 0u32..1 << (a + b) {
            if mask.count_ones() as usize == *a {
                items.push((*a, *b, mask));
            }
        }
    }
    par_items(ctx, &items, |ctx, _, (a, b, mask)| {
        with_rig(true, |rig| {
            let mk = |rig: &mut Rig, p: usize, k: usize, same: Option<Header>| {
                let mut m = Msg::from(Content::Request(Request::Custom(request::CustomArgs { data: vec![0; 300 * k - 150] })));
                if let Some(h) = same {
                    m.header = h;
                }
                let bytes = m.to_vec().unwrap();
                let _ = rig;
                // small packets, so that the message takes k of them
                let mut size = 100;
                let (_, mut o) = over_there::core::transport::Wire::new(size, Duration::from_secs(9), over_there::core::transport::auth::NoopAuthenticator, over_there::core::transport::crypto::NoopBicrypter).clone_split();
                let mut ps = o.process(&bytes).unwrap();
                while ps.len() > k {
                    size += 8;
                    let (_, mut o) = over_there::core::transport::Wire::new(size, Duration::from_secs(9), over_there::core::transport::auth::NoopAuthenticator, over_there::core::transport::crypto::NoopBicrypter).clone_split();
                    ps = o.process(&bytes).unwrap();
                }
                (p, m, ps)
            };
            for same_id in [false, true] {
                let x = mk(rig, 0, *a, None);
                let y = mk(rig, 1, *b, if same_id { Some(x.1.header.clone()) } else { None });
                let (mut i, mut j) = (0, 0);
                for k in 0..a + b {
                    if mask >> k & 1 == 1 {
                        if let Some(p) = x.2.get(i) {
                            rig.send_bytes(0, p);
                        }
                        i += 1;
                    } else {
                        if let Some(p) = y.2.get(j) {
                            rig.send_bytes(1, p);
                        }
                        j += 1;
                    }
                }
                let sent: Vec<(usize, u32, Request)> = [&x, &y].iter().map(|m| (m.0, m.1.header.id, m.1.content.clone().into_request().unwrap())).collect();
                check_replies(rig, ctx, true, &sent, json!({"packets": [x.2.len(), y.2.len()], "interleaving": mask, "same message id": same_id}));
                ctx.outcome("interleaved packets");
            }
        });
    });
    // D: replies, parent headers and message ids
    let replies: Vec<Reply> = {
        let mut v = msgs::plain_replies().into_iter().step_by(ctx.pick(9, 1)).collect::<Vec<_>>();
        v.extend(msgs::one_of_each(&msgs::plain_replies()));
        v.push(Reply::Batch(vec![Reply::Heartbeat].into()));
        v.push(Reply::Sequence(vec![Reply::Heartbeat].into()));
        v
    };
    par_items(ctx, &replies, |ctx, i, r| {
        with_rig(true, |rig| {
            for parent in [None, Some(Header::with_id(5))] {
                let m = Msg { header: Header::with_id(i as u32), parent_header: parent.clone(), content: Content::Reply(r.clone()) };
                if m.to_vec().map(|v| v.len()).unwrap_or(usize::MAX) > 50_000 {
                    continue;
                }
                rig.send_msg(0, &m);
                let hb = rig.send(1, Request::Version);
                check_replies(rig, ctx, true, &[(1, hb, Request::Version)], json!({"a reply sent to the server": format!("{:?}", r)}));
                ctx.outcome("replies refused");
            }
        });
    });
    let ids: Vec<u32> = msgs::U.to_vec();
    par_items(ctx, &ids, |ctx, _, id| {
        with_rig(true, |rig| {
            for other in &ids {
                for parent in [None, Some(Header::with_id(*other)), Some(Header::with_id(*id))] {
                    let mut sent = vec![];
                    for (p, k) in [(0usize, id), (1, other)] {
                        let m = Msg { header: Header::with_id(*k), parent_header: parent.clone(), content: Content::Request(Request::Version) };
                        rig.send_msg(p, &m);
                        sent.push((p, *k, Request::Version));
                    }
                    check_replies(rig, ctx, true, &sent, json!({"message ids": [id, other], "parent": parent.is_some()}));
                }
            }
        });
    });
    ctx.finish(
        "model_checking",
        "every ordered pair of concrete requests of every kind (succeeding and failing) x all pairs of origins, pipelined (thorough: also every ordered triple); all triples (quadruples) of a reduced set without a custom handler; every interleaving of the packets of two clients' requests, also under one message id; every kind of reply sent to the server; extreme message ids and parent headers. After each history every peer is drained up to a barrier and its messages matched with its requests. states = histories, transitions = requests.",
        true,
        &["UDP over loopback delivers in order and without loss"],
    )
}
