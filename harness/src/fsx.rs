//! A plain model of a file system with open handles, and the executor that
//! runs the same operations on a real server and compares.
use crate::core::*;
use crate::rig::*;
use over_there::core::{request::*, Reply, ReplyError, Request};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Node {
    Dir,
    /// number of the file's contents
    File(usize),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Handle {
    pub path: String,
    /// None for a directory
    pub inode: Option<usize>,
    pub r: bool,
    pub w: bool,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Open { path: String, create: bool, w: bool, r: bool },
    Read(usize),
    Write(usize, u8),
    Close(usize),
    RenameH(usize, String),
    RemoveH(usize),
    RenameU(String, String),
    RemoveU(String),
    Mkdir(String, bool),
    RenameDir(String, String),
    Rmdir(String, bool),
    List(String),
}
impl Op {
    pub fn slot(&self) -> Option<usize> {
        match self {
            Op::Read(s) | Op::Write(s, _) | Op::Close(s) | Op::RenameH(s, _) | Op::RemoveH(s) => Some(*s),
            _ => None,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Want {
    Error,
    Opened(usize),
    Contents(Vec<u8>),
    /// success with a new signature
    Changed,
    /// success, the handle does not exist afterwards
    Closed,
    Removed,
    Done,
    Listing(BTreeSet<(String, bool)>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Model {
    pub tree: BTreeMap<String, Node>,
    pub data: Vec<Vec<u8>>,
    /// by slot, in order of first opening; None once closed or removed
    pub handles: Vec<Option<Handle>>,
}
/// file contents behind a write of kind `k`
pub fn payload(k: u8) -> Vec<u8> {
    match k {
        0 => vec![],
        1 => b"Xx".to_vec(),
        2 => b"y".to_vec(),
        k => vec![k; 5],
    }
}
fn parent(p: &str) -> &str {
    p.rfind('/').map(|i| &p[..i]).unwrap_or("")
}
fn under(p: &str, dir: &str) -> bool {
    dir.is_empty() || p == dir || (p.starts_with(dir) && p.as_bytes()[dir.len()] == b'/')
}
impl Model {
    pub fn initial() -> Model {
        let mut m = Model { tree: BTreeMap::new(), data: vec![b"A".to_vec(), b"B".to_vec()], handles: vec![] };
        m.tree.insert("a".into(), Node::File(0));
        m.tree.insert("d".into(), Node::Dir);
        m.tree.insert("d/b".into(), Node::File(1));
        m.tree.insert("e".into(), Node::Dir);
        m
    }
    pub fn node(&self, p: &str) -> Option<&Node> {
        if p.is_empty() {
            return Some(&Node::Dir);
        }
        self.tree.get(p)
    }
    fn is_dir(&self, p: &str) -> bool {
        self.node(p) == Some(&Node::Dir)
    }
    fn open_under(&self, p: &str, except: Option<usize>) -> bool {
        self.handles.iter().enumerate().any(|(i, h)| Some(i) != except && h.as_ref().map(|h| under(&h.path, p)).unwrap_or(false))
    }
    fn children(&self, p: &str) -> BTreeSet<(String, bool)> {
        self.tree.iter().filter(|(k, _)| parent(k) == p).map(|(k, n)| (k.clone(), *n == Node::Dir)).collect()
    }
    fn open_new(&mut self, path: &str, create: bool, w: bool, r: bool) -> Result<Option<usize>, ()> {
        if (!r && !w) || (create && !w) {
            return Err(());
        }
        match self.node(path).cloned() {
            Some(Node::Dir) if w || create => Err(()),
            Some(Node::Dir) => Ok(None),
            Some(Node::File(i)) => Ok(Some(i)),
            None if create && self.is_dir(parent(path)) => {
                self.data.push(vec![]);
                let i = self.data.len() - 1;
                self.tree.insert(path.into(), Node::File(i));
                Ok(Some(i))
            }
            None => Err(()),
        }
    }
    fn move_tree(&mut self, from: &str, to: &str) {
        let moved: Vec<_> = self.tree.keys().filter(|k| under(k, from)).cloned().collect();
        for k in moved {
            let n = self.tree.remove(&k).unwrap();
            self.tree.insert(format!("{}{}", to, &k[from.len()..]), n);
        }
    }
    /// Applies the operation; an error leaves the model as it was.
    pub fn apply(&mut self, op: &Op) -> Want {
        self.try_apply(op).unwrap_or(Want::Error)
    }
    fn try_apply(&mut self, op: &Op) -> Result<Want, ()> {
        if let Some(s) = op.slot() {
            if self.handles.get(s).map(|h| h.is_none()).unwrap_or(true) {
                return Err(());
            }
        }
        match op {
            Op::Open { path, create, w, r } => {
                if let Some(s) = self.handles.iter().position(|h| h.as_ref().map(|h| h.path == *path).unwrap_or(false)) {
                    let h = self.handles[s].clone().unwrap();
                    if (*r && !h.r) || (*w && !h.w) {
                        let inode = self.open_new(path, *create, *w || h.w, *r || h.r)?;
                        self.handles[s] = Some(Handle { inode, r: *r || h.r, w: *w || h.w, ..h });
                    }
                    return Ok(Want::Opened(s));
                }
                let inode = self.open_new(path, *create, *w, *r)?;
                self.handles.push(Some(Handle { path: path.clone(), inode, r: *r, w: *w }));
                Ok(Want::Opened(self.handles.len() - 1))
            }
            Op::Read(s) => {
                let h = self.handles[*s].as_ref().unwrap();
                match h.inode {
                    Some(i) if h.r => Ok(Want::Contents(self.data[i].clone())),
                    _ => Err(()),
                }
            }
            Op::Write(s, k) => {
                let h = self.handles[*s].as_ref().unwrap();
                match h.inode {
                    Some(i) if h.w => {
                        self.data[i] = payload(*k);
                        Ok(Want::Changed)
                    }
                    _ => Err(()),
                }
            }
            Op::Close(s) => {
                self.handles[*s] = None;
                Ok(Want::Closed)
            }
            Op::RenameH(s, to) => {
                let h = self.handles[*s].clone().unwrap();
                if h.inode.is_none() || self.is_dir(to) || !self.is_dir(parent(to)) || self.open_under(to, Some(*s)) {
                    return Err(());
                }
                let n = self.tree.remove(&h.path).unwrap();
                self.tree.insert(to.clone(), n);
                self.handles[*s].as_mut().unwrap().path = to.clone();
                Ok(Want::Changed)
            }
            Op::RemoveH(s) => {
                let h = self.handles[*s].clone().unwrap();
                if h.inode.is_none() {
                    return Err(());
                }
                self.tree.remove(&h.path);
                self.handles[*s] = None;
                Ok(Want::Removed)
            }
            Op::RenameU(from, to) => {
                if self.open_under(from, None) || self.open_under(to, None) || !matches!(self.node(from), Some(Node::File(_))) || self.is_dir(to) || !self.is_dir(parent(to)) {
                    return Err(());
                }
                let n = self.tree.remove(from).unwrap();
                self.tree.insert(to.clone(), n);
                Ok(Want::Done)
            }
            Op::RemoveU(p) => {
                if self.open_under(p, None) || !matches!(self.node(p), Some(Node::File(_))) {
                    return Err(());
                }
                self.tree.remove(p);
                Ok(Want::Done)
            }
            Op::Mkdir(p, all) => {
                if *all {
                    let mut q = String::new();
                    let mut add = vec![];
                    for c in p.split('/') {
                        if !q.is_empty() {
                            q.push('/');
                        }
                        q.push_str(c);
                        match self.node(&q) {
                            Some(Node::Dir) => (),
                            Some(_) => return Err(()),
                            None => add.push(q.clone()),
                        }
                    }
                    for q in add {
                        self.tree.insert(q, Node::Dir);
                    }
                    return Ok(Want::Done);
                }
                if self.node(p).is_some() || !self.is_dir(parent(p)) {
                    return Err(());
                }
                self.tree.insert(p.clone(), Node::Dir);
                Ok(Want::Done)
            }
            Op::RenameDir(from, to) => {
                if self.open_under(from, None) || self.open_under(to, None) || !self.is_dir(from) || !self.is_dir(parent(to)) {
                    return Err(());
                }
                if from == to {
                    return Ok(Want::Done);
                }
                if under(to, from) {
                    return Err(());
                }
                match self.node(to) {
                    None => (),
                    Some(Node::Dir) if self.children(to).is_empty() => (),
                    Some(_) => return Err(()),
                }
                self.move_tree(from, to);
                Ok(Want::Done)
            }
            Op::Rmdir(p, non_empty) => {
                if self.open_under(p, None) || !self.is_dir(p) || (!*non_empty && !self.children(p).is_empty()) {
                    return Err(());
                }
                self.tree.retain(|k, _| !under(k, p));
                Ok(Want::Done)
            }
            Op::List(p) => {
                if !self.is_dir(p) {
                    return Err(());
                }
                Ok(Want::Listing(self.children(p)))
            }
        }
    }
    /// Contents by path, for comparisons and for merging equal states.
    pub fn snapshot(&self) -> BTreeMap<String, Option<Vec<u8>>> {
        self.tree
            .iter()
            .map(|(k, n)| {
                (
                    k.clone(),
                    match n {
                        Node::Dir => None,
                        Node::File(i) => Some(self.data[*i].clone()),
                    },
                )
            })
            .collect()
    }
    /// Equal states have equal keys (the numbering of contents is forgotten).
    pub fn key(&self) -> String {
        let hs: Vec<_> = self.handles.iter().map(|h| h.as_ref().map(|h| (h.path.clone(), h.r, h.w))).collect();
        format!("{:?}{:?}", self.snapshot(), hs)
    }
}
/// The tree really found below `root`.
pub fn walk(root: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn go(root: &Path, rel: String, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
        let here = if rel.is_empty() { root.to_path_buf() } else { root.join(&rel) };
        let mut es: Vec<_> = std::fs::read_dir(&here).map(|d| d.filter_map(|e| e.ok()).collect()).unwrap_or_default();
        es.sort_by_key(|e| e.file_name());
        for e in es {
            let name = e.file_name().to_string_lossy().to_string();
            let r = if rel.is_empty() { name } else { format!("{}/{}", rel, name) };
            match e.file_type() {
                Ok(t) if t.is_dir() => {
                    out.insert(r.clone(), None);
                    go(root, r, out);
                }
                Ok(t) if t.is_symlink() => {
                    let t = std::fs::read_link(e.path()).map(|p| p.to_string_lossy().to_string()).unwrap_or_default();
                    out.insert(r, Some(format!("link to {}", t).into_bytes()));
                }
                _ => {
                    out.insert(r, Some(std::fs::read(e.path()).unwrap_or_else(|x| format!("unreadable: {}", x).into_bytes())));
                }
            }
        }
    }
    let mut out = BTreeMap::new();
    go(root, String::new(), &mut out);
    out
}
pub fn show(t: &BTreeMap<String, Option<Vec<u8>>>) -> String {
    let v: Vec<String> = t
        .iter()
        .map(|(k, c)| match c {
            None => format!("{}/", k),
            Some(c) => format!("{}={:?}", k, String::from_utf8_lossy(c)),
        })
        .collect();
    v.join(" ")
}
/// Builds the model's tree in an empty directory.
pub fn lay_out(root: &Path, m: &Model) {
    for (k, c) in m.snapshot() {
        match c {
            None => std::fs::create_dir(root.join(k)).unwrap(),
            Some(c) => std::fs::write(root.join(k), c).unwrap(),
        }
    }
}

/// One server with a directory of its own.
pub struct Fx {
    pub rig: Rig,
    pub scratch: Scratch,
    /// the directory of the current sequence, fresh for each
    pub root: PathBuf,
    count: u64,
    /// what the server told about each slot: id, current signature, older
    /// signatures
    pub slots: Vec<(u32, u32, Vec<u32>)>,
}
/// A disagreement: class and description.
pub type Bad = (&'static str, String);
impl Fx {
    pub fn new(cfg: Cfg) -> Fx {
        let scratch = Scratch::new("fs");
        let root = scratch.0.join("0");
        std::fs::create_dir(&root).unwrap();
        Fx { rig: Rig::new(cfg), scratch, root, count: 0, slots: vec![] }
    }
    pub fn abs(&self, p: &str) -> String {
        if p.is_empty() {
            self.root.to_string_lossy().to_string()
        } else {
            self.root.join(p).to_string_lossy().to_string()
        }
    }
    /// Closes what is open and builds the model's initial tree.
    pub fn reset(&mut self, m: &Model) -> Result<(), Bad> {
        for (id, sig, _) in std::mem::take(&mut self.slots) {
            if self.rig.ask(Request::CloseFile(CloseFileArgs { id, sig })).is_none() {
                return Err(("silent", "the server stopped answering".into()));
            }
        }
        let _ = std::fs::remove_dir_all(&self.root);
        self.count += 1;
        self.root = self.scratch.0.join(self.count.to_string());
        std::fs::create_dir(&self.root).unwrap();
        lay_out(&self.root, m);
        Ok(())
    }
    pub fn request(&self, op: &Op, path: &dyn Fn(&str) -> String) -> Request {
        let slot = |s: &usize| self.slots.get(*s).map(|x| (x.0, x.1)).unwrap_or((1, 1));
        match op {
            Op::Open { path: p, create, w, r } => Request::OpenFile(OpenFileArgs { path: path(p), create_if_missing: *create, write_access: *w, read_access: *r }),
            Op::Read(s) => Request::ReadFile(ReadFileArgs { id: slot(s).0, sig: slot(s).1 }),
            Op::Write(s, k) => Request::WriteFile(WriteFileArgs { id: slot(s).0, sig: slot(s).1, contents: payload(*k) }),
            Op::Close(s) => Request::CloseFile(CloseFileArgs { id: slot(s).0, sig: slot(s).1 }),
            Op::RenameH(s, to) => Request::RenameFile(RenameFileArgs { id: slot(s).0, sig: slot(s).1, to: path(to) }),
            Op::RemoveH(s) => Request::RemoveFile(RemoveFileArgs { id: slot(s).0, sig: slot(s).1 }),
            Op::RenameU(a, b) => Request::RenameUnopenedFile(RenameUnopenedFileArgs { from: path(a), to: path(b) }),
            Op::RemoveU(p) => Request::RemoveUnopenedFile(RemoveUnopenedFileArgs { path: path(p) }),
            Op::Mkdir(p, all) => Request::CreateDir(CreateDirArgs { path: path(p), include_components: *all }),
            Op::RenameDir(a, b) => Request::RenameDir(RenameDirArgs { from: path(a), to: path(b) }),
            Op::Rmdir(p, ne) => Request::RemoveDir(RemoveDirArgs { path: path(p), non_empty: *ne }),
            Op::List(p) => Request::ListDirContents(ListDirContentsArgs { path: path(p) }),
        }
    }
    /// Run `op` on the server and compare the reply with `want`.
    pub fn step(&mut self, op: &Op, want: &Want) -> Result<(), Bad> {
        let root = self.root.clone();
        self.step_at(op, want, &move |p: &str| if p.is_empty() { root.to_string_lossy().to_string() } else { root.join(p).to_string_lossy().to_string() })
    }
    pub fn step_at(&mut self, op: &Op, want: &Want, path: &dyn Fn(&str) -> String) -> Result<(), Bad> {
        let req = self.request(op, path);
        let reply = match self.rig.ask(req.clone()) {
            Some(r) => r,
            None => return Err(("silent", format!("{:?} got no reply", req))),
        };
        self.compare(op, want, &req, reply)
    }
    pub fn compare(&mut self, op: &Op, want: &Want, req: &Request, reply: Reply) -> Result<(), Bad> {
        let bad = |k: &'static str, w: String| Err((k, format!("{} (request {:?}, reply {:?})", w, req, reply)));
        match want {
            Want::Error => match &reply {
                Reply::Error(ReplyError::FileSigChanged(_)) => bad("error-kind", "a request with the current signature was answered with a changed signature".into()),
                Reply::Error(_) => Ok(()),
                _ => bad("accepted", "a request that must fail succeeded".into()),
            },
            Want::Opened(s) => match (&reply, req) {
                (Reply::FileOpened(o), Request::OpenFile(a)) => {
                    if o.path != a.path || o.read != a.read_access || o.write != a.write_access {
                        return bad("echo", "the reply does not repeat the request".into());
                    }
                    if *s < self.slots.len() {
                        if (o.id, o.sig) != (self.slots[*s].0, self.slots[*s].1) {
                            let w = format!("opening an open file gave id {} signature {}, expected {} and {}", o.id, o.sig, self.slots[*s].0, self.slots[*s].1);
                            return bad("reopen", w);
                        }
                        return Ok(());
                    }
                    if self.slots.iter().any(|x| x.0 == o.id) {
                        return bad("id", "opening another file gave an id used before".into());
                    }
                    self.slots.push((o.id, o.sig, vec![]));
                    Ok(())
                }
                _ => bad("refused", "opening failed".into()),
            },
            Want::Contents(c) => match (&reply, op) {
                (Reply::FileContents(x), Op::Read(s)) => {
                    if x.id != self.slots[*s].0 {
                        return bad("echo", "the reply names another file".into());
                    }
                    if x.contents != *c {
                        return bad("contents", format!("read {:?}, expected {:?}", String::from_utf8_lossy(&x.contents), String::from_utf8_lossy(c)));
                    }
                    Ok(())
                }
                _ => bad("refused", "reading failed".into()),
            },
            Want::Changed | Want::Removed => {
                let (id, sig) = match (&reply, op) {
                    (Reply::FileWritten(x), Op::Write(..)) => (x.id, x.sig),
                    (Reply::FileRenamed(x), Op::RenameH(..)) => (x.id, x.sig),
                    (Reply::FileRemoved(x), Op::RemoveH(..)) => (x.id, x.sig),
                    _ => return bad("refused", "the operation failed".into()),
                };
                let s = op.slot().unwrap();
                if id != self.slots[s].0 {
                    return bad("echo", "the reply names another file".into());
                }
                if sig == self.slots[s].1 || self.slots[s].2.contains(&sig) {
                    return bad("signature", "a successful modification reported a signature that was used before".into());
                }
                let old = std::mem::replace(&mut self.slots[s].1, sig);
                self.slots[s].2.push(old);
                Ok(())
            }
            Want::Closed => match &reply {
                Reply::FileClosed(x) if x.id == self.slots[op.slot().unwrap()].0 => Ok(()),
                _ => bad("refused", "closing failed".into()),
            },
            Want::Done => {
                let ok = match (&reply, req) {
                    (Reply::UnopenedFileRenamed(x), Request::RenameUnopenedFile(a)) => x.from == a.from && x.to == a.to,
                    (Reply::UnopenedFileRemoved(x), Request::RemoveUnopenedFile(a)) => x.path == a.path,
                    (Reply::DirCreated(x), Request::CreateDir(a)) => x.path == a.path,
                    (Reply::DirRenamed(x), Request::RenameDir(a)) => x.from == a.from && x.to == a.to,
                    (Reply::DirRemoved(x), Request::RemoveDir(a)) => x.path == a.path,
                    _ => return bad("refused", "the operation failed".into()),
                };
                if !ok {
                    return bad("echo", "the reply does not repeat the request".into());
                }
                Ok(())
            }
            Want::Listing(set) => match (&reply, req) {
                (Reply::DirContentsList(x), Request::ListDirContents(a)) => {
                    if x.path != a.path {
                        return bad("echo", "the reply does not repeat the request".into());
                    }
                    let mut got: Vec<(String, bool, bool, bool)> = x.entries.iter().map(|e| (e.path.clone(), e.is_dir, e.is_file, e.is_symlink)).collect();
                    got.sort();
                    let mut exp: Vec<(String, bool, bool, bool)> = set.iter().map(|(p, d)| (self.abs(p), *d, !*d, false)).collect();
                    exp.sort();
                    if got != exp {
                        return bad("listing", format!("listed {:?}, expected {:?}", got, exp));
                    }
                    Ok(())
                }
                _ => bad("refused", "listing failed".into()),
            },
        }
    }
    /// The real tree and what every open handle reads.
    pub fn compare_tree(&self, m: &Model) -> Result<(), Bad> {
        let (real, want) = (walk(&self.root), m.snapshot());
        if real != want {
            return Err(("tree", format!("the tree is [{}], expected [{}]", show(&real), show(&want))));
        }
        Ok(())
    }
    pub fn compare_handles(&mut self, m: &Model) -> Result<(), Bad> {
        for (s, h) in m.handles.iter().enumerate() {
            let want = match h {
                Some(h) if h.r && h.inode.is_some() => Want::Contents(m.data[h.inode.unwrap()].clone()),
                _ => Want::Error,
            };
            self.step(&Op::Read(s), &want)?;
        }
        Ok(())
    }
}

pub fn ops(paths: &[&str], dirs: &[&str], slots: usize, payloads: &[u8]) -> Vec<Op> {
    let mut v = vec![];
    for p in paths {
        for (create, w, r) in [(false, false, true), (false, true, false), (false, true, true), (true, true, true), (true, true, false), (true, false, true), (false, false, false)] {
            v.push(Op::Open { path: p.to_string(), create, w, r });
        }
    }
    for s in 0..slots {
        v.push(Op::Read(s));
        for k in payloads {
            v.push(Op::Write(s, *k));
        }
        v.push(Op::Close(s));
        v.push(Op::RemoveH(s));
        for p in paths {
            v.push(Op::RenameH(s, p.to_string()));
        }
    }
    for p in paths {
        v.push(Op::RemoveU(p.to_string()));
        for q in paths {
            v.push(Op::RenameU(p.to_string(), q.to_string()));
        }
    }
    for p in dirs {
        v.push(Op::List(p.to_string()));
        v.push(Op::Mkdir(p.to_string(), false));
        v.push(Op::Mkdir(p.to_string(), true));
        v.push(Op::Rmdir(p.to_string(), false));
        v.push(Op::Rmdir(p.to_string(), true));
        for q in dirs {
            v.push(Op::RenameDir(p.to_string(), q.to_string()));
        }
    }
    v.push(Op::List(String::new()));
    v
}
pub fn describe(seq: &[Op]) -> serde_json::Value {
    json!(seq.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>())
}
