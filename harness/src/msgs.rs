//! Every message kind with field values drawn from pools.
use over_there::core::{reply, request, Content, LazilyTransformedRequest, Reply, ReplyError, Request, TransformRule};
use std::net::SocketAddr;

pub const U: [u32; 9] = [1, 0, 23, 24, 255, 256, 65535, 65536, u32::MAX];
pub const I: [Option<i32>; 7] = [None, Some(0), Some(-1), Some(1), Some(255), Some(i32::MIN), Some(i32::MAX)];
pub fn strings() -> Vec<String> {
    let mut v: Vec<String> = ["a", "", "some/path with space", "quote\" back\\ slash", "nl\n tab\t cr\r", "ünï ☃ 😀", "nul\0mid", "$.payload.id", "null", "12", "heartbeat_request", "{\"type\":\"heartbeat_reply\"}", "\u{7f}\u{80}\u{2028}\u{fffd}"].iter().map(|s| s.to_string()).collect();
    v.push("x".repeat(23));
    v.push("y".repeat(24));
    v.push("z".repeat(256));
    v
}
pub fn blobs() -> Vec<Vec<u8>> {
    vec![vec![1, 2], vec![], vec![0], vec![255; 23], vec![7; 24], (0..=255).collect(), vec![128; 257], b"text".to_vec(), vec![b'"', b'\\', 0, 10]]
}
pub fn string_lists() -> Vec<Vec<String>> {
    vec![vec![], vec!["a".into()], vec!["".into(), "-x".into()], vec!["b".into(); 25]]
}
pub fn opt_strings() -> Vec<Option<String>> {
    vec![None, Some("".into()), Some("/d".into()), Some("null".into())]
}
pub const B: [bool; 2] = [true, false];

/// All combinations of up to two fields away from their first pool value,
/// all combinations if there are few.
fn combos(lens: &[usize]) -> Vec<Vec<usize>> {
    let total: usize = lens.iter().product();
    let mut out = vec![];
    let mut cur = vec![0; lens.len()];
    loop {
        if total <= 3000 || cur.iter().filter(|x| **x > 0).count() <= 2 {
            out.push(cur.clone());
        }
        let mut i = 0;
        while i < lens.len() {
            cur[i] += 1;
            if cur[i] < lens[i] {
                break;
            }
            cur[i] = 0;
            i += 1;
        }
        if i == lens.len() {
            return out;
        }
    }
}
macro_rules! make {
    ($out:ident, $var:expr, $t:ty { $($f:ident : $pool:expr),* $(,)? }) => {{
        let lens = [$($pool.len()),*];
        for c in combos(&lens) {
            let mut _i = 0;
            type T = $t;
            $out.push($var(T { $($f: { let v = $pool[c[_i]].clone(); _i += 1; v }),* }));
        }
    }};
}

pub fn plain_requests() -> Vec<Request> {
    let (s, bl, sl, os) = (strings(), blobs(), string_lists(), opt_strings());
    let mut o = vec![Request::Heartbeat, Request::Version, Request::Capabilities];
    make!(o, Request::CreateDir, request::CreateDirArgs { path: s, include_components: B });
    make!(o, Request::RenameDir, request::RenameDirArgs { from: s, to: s });
    make!(o, Request::RemoveDir, request::RemoveDirArgs { path: s, non_empty: B });
    make!(o, Request::ListDirContents, request::ListDirContentsArgs { path: s });
    make!(o, Request::OpenFile, request::OpenFileArgs { path: s, create_if_missing: B, write_access: B, read_access: B });
    make!(o, Request::CloseFile, request::CloseFileArgs { id: U, sig: U });
    make!(o, Request::RenameUnopenedFile, request::RenameUnopenedFileArgs { from: s, to: s });
    make!(o, Request::RenameFile, request::RenameFileArgs { id: U, sig: U, to: s });
    make!(o, Request::RemoveUnopenedFile, request::RemoveUnopenedFileArgs { path: s });
    make!(o, Request::RemoveFile, request::RemoveFileArgs { id: U, sig: U });
    make!(o, Request::ReadFile, request::ReadFileArgs { id: U, sig: U });
    make!(o, Request::WriteFile, request::WriteFileArgs { id: U, sig: U, contents: bl });
    make!(o, Request::ExecProc, request::ExecProcArgs { command: s, args: sl, stdin: B, stdout: B, stderr: B, current_dir: os });
    make!(o, Request::WriteProcStdin, request::WriteProcStdinArgs { id: U, input: bl });
    make!(o, Request::ReadProcStdout, request::ReadProcStdoutArgs { id: U });
    make!(o, Request::ReadProcStderr, request::ReadProcStderrArgs { id: U });
    make!(o, Request::KillProc, request::KillProcArgs { id: U });
    make!(o, Request::ReadProcStatus, request::ReadProcStatusArgs { id: U });
    make!(o, Request::Custom, request::CustomArgs { data: bl });
    make!(o, Request::InternalDebug, request::InternalDebugArgs { input: bl });
    o
}
pub fn entries() -> Vec<Vec<reply::DirEntry>> {
    let s = strings();
    let mut all = vec![];
    make!(all, |x| x, reply::DirEntry { path: s, is_file: B, is_dir: B, is_symlink: B });
    let mut v: Vec<Vec<reply::DirEntry>> = vec![vec![]];
    for e in &all {
        v.push(vec![e.clone()]);
    }
    v.push(all.clone());
    v.push(all[..2].to_vec());
    v
}
pub fn kinds() -> Vec<reply::SerErrorKind> {
    use reply::SerErrorKind::*;
    vec![NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock, InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, Other, UnexpectedEof, NonExhaustive]
}
pub fn capability_lists() -> Vec<Vec<reply::Capability>> {
    use reply::Capability::*;
    let all = [Custom, FileSystem, Exec, Forward];
    let mut v = vec![];
    for m in 0..16 {
        v.push((0..4).filter(|i| m >> i & 1 == 1).map(|i| all[i].clone()).collect::<Vec<_>>());
    }
    v.push(vec![Exec, Custom, Exec]);
    v
}
pub fn reply_errors() -> Vec<ReplyError> {
    let (s, k) = (strings(), kinds());
    let mut o = vec![];
    make!(o, ReplyError::Generic, reply::GenericErrorArgs { msg: s });
    make!(o, ReplyError::Io, reply::IoErrorArgs { description: s, os_code: I, error_kind: k });
    make!(o, ReplyError::FileSigChanged, reply::FileSigChangedArgs { id: U, sig: U });
    o
}
pub fn plain_replies() -> Vec<Reply> {
    let (s, bl, e, c) = (strings(), blobs(), entries(), capability_lists());
    let mut o = vec![Reply::Heartbeat];
    make!(o, Reply::Version, reply::VersionArgs { version: s });
    make!(o, Reply::Capabilities, reply::CapabilitiesArgs { capabilities: c });
    make!(o, Reply::DirCreated, reply::DirCreatedArgs { path: s });
    make!(o, Reply::DirRenamed, reply::DirRenamedArgs { from: s, to: s });
    make!(o, Reply::DirRemoved, reply::DirRemovedArgs { path: s });
    make!(o, Reply::DirContentsList, reply::DirContentsListArgs { path: s, entries: e });
    make!(o, Reply::FileOpened, reply::FileOpenedArgs { id: U, sig: U, path: s, read: B, write: B });
    make!(o, Reply::FileClosed, reply::FileClosedArgs { id: U });
    make!(o, Reply::UnopenedFileRenamed, reply::UnopenedFileRenamedArgs { from: s, to: s });
    make!(o, Reply::FileRenamed, reply::FileRenamedArgs { id: U, sig: U });
    make!(o, Reply::UnopenedFileRemoved, reply::UnopenedFileRemovedArgs { path: s });
    make!(o, Reply::FileRemoved, reply::FileRemovedArgs { id: U, sig: U });
    make!(o, Reply::FileContents, reply::FileContentsArgs { id: U, contents: bl });
    make!(o, Reply::FileWritten, reply::FileWrittenArgs { id: U, sig: U });
    make!(o, Reply::ProcStarted, reply::ProcStartedArgs { id: U });
    make!(o, Reply::ProcStdinWritten, reply::ProcStdinWrittenArgs { id: U });
    make!(o, Reply::ProcStdoutContents, reply::ProcStdoutContentsArgs { id: U, output: bl });
    make!(o, Reply::ProcStderrContents, reply::ProcStderrContentsArgs { id: U, output: bl });
    make!(o, Reply::ProcKilled, reply::ProcKilledArgs { id: U, exit_code: I });
    make!(o, Reply::ProcStatus, reply::ProcStatusArgs { id: U, is_alive: B, exit_code: I });
    make!(o, Reply::Custom, reply::CustomArgs { data: bl });
    make!(o, Reply::InternalDebug, reply::InternalDebugArgs { output: bl });
    o.extend(reply_errors().into_iter().map(Reply::Error));
    o
}
pub fn addrs() -> Vec<SocketAddr> {
    ["127.0.0.1:0", "0.0.0.0:65535", "255.1.2.3:80", "[::1]:1", "[::]:65535", "[fe80::1:2:3:ff]:49152", "[::ffff:1.2.3.4]:9"].iter().map(|s| s.parse().unwrap()).collect()
}
pub fn rules() -> Vec<Vec<TransformRule>> {
    let r = |p: &str, v: &str| TransformRule { path: p.into(), value: v.into() };
    vec![vec![], vec![r("$.payload.id", "$.payload.id")], vec![r("", ""), r("$..\"x\"", "\u{1f600}")], vec![r("a", "b"); 30]]
}
/// Discriminant name of a value's Debug form
pub fn kind<T: std::fmt::Debug>(t: &T) -> String {
    let s = format!("{:?}", t);
    s.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}
/// One request of every kind (first of its kind in the list)
pub fn one_of_each<T: Clone + std::fmt::Debug>(v: &[T]) -> Vec<T> {
    let mut seen = std::collections::HashSet::new();
    v.iter().filter(|x| seen.insert(kind(x))).cloned().collect()
}
pub fn wrap_request(inner: &Request) -> Vec<Request> {
    let lz = |r: &Request, ru: Vec<TransformRule>| LazilyTransformedRequest::new(r.clone(), ru);
    let mut o = vec![
        Request::Batch(vec![inner.clone()].into()),
        Request::Batch(vec![inner.clone(), Request::Heartbeat, inner.clone()].into()),
        Request::Sequence(vec![lz(inner, vec![]), lz(inner, rules()[1].clone())].into()),
        Request::Forward(request::ForwardArgs { address: addrs()[0], request: Box::new(inner.clone()) }),
    ];
    for r in rules() {
        o.push(Request::Sequence(vec![lz(inner, r)].into()));
    }
    o
}
pub fn wrap_reply(inner: &Reply) -> Vec<Reply> {
    vec![
        Reply::Batch(vec![inner.clone()].into()),
        Reply::Batch(vec![inner.clone(), Reply::Heartbeat, inner.clone()].into()),
        Reply::Sequence(vec![inner.clone()].into()),
        Reply::Sequence(vec![Reply::Heartbeat, inner.clone()].into()),
        Reply::Forward(reply::ForwardArgs { address: addrs()[3], reply: Box::new(inner.clone()) }),
    ]
}
pub fn contents(depth: usize) -> Vec<Content> {
    let mut out: Vec<Content> = vec![];
    let rq = plain_requests();
    let rp = plain_replies();
    out.extend(rq.iter().cloned().map(Content::Request));
    out.extend(rp.iter().cloned().map(Content::Reply));
    out.push(Content::Request(Request::Batch(vec![].into())));
    out.push(Content::Request(Request::Sequence(vec![].into())));
    out.push(Content::Reply(Reply::Batch(vec![].into())));
    out.push(Content::Reply(Reply::Sequence(vec![].into())));
    for a in addrs() {
        out.push(Content::Request(Request::Forward(request::ForwardArgs { address: a, request: Box::new(Request::Heartbeat) })));
        out.push(Content::Reply(Reply::Forward(reply::ForwardArgs { address: a, reply: Box::new(Reply::Heartbeat) })));
    }
    out.push(Content::Request(Request::Batch(rq.clone().into_iter().take(2000).step_by(7).collect::<Vec<_>>().into())));
    out.push(Content::Reply(Reply::Batch(rp.clone().into_iter().take(2000).step_by(7).collect::<Vec<_>>().into())));
    // nesting: every container around every kind, to the given depth
    let mut lr = one_of_each(&rq);
    let mut lp = one_of_each(&rp);
    lp.extend(one_of_each(&reply_errors()).into_iter().map(Reply::Error));
    // an operation nobody answers travels as one of several results only
    lp.push(Reply::Ignore);
    for d in 0..depth {
        lr = lr.iter().flat_map(wrap_request).collect();
        lp = lp.iter().flat_map(wrap_reply).collect();
        out.extend(lr.iter().cloned().map(Content::Request));
        out.extend(lp.iter().cloned().map(Content::Reply));
        if d >= 1 {
            // beyond two levels vary the containers around two leaves only
            lr = lr.into_iter().step_by(11).take(400).collect();
            lp = lp.into_iter().step_by(11).take(400).collect();
        }
    }
    out
}
/// A sequence's operation without transformation rules
pub fn plain_op(r: Request) -> LazilyTransformedRequest {
    LazilyTransformedRequest::new(r, vec![])
}
