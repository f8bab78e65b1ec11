//! C10: sequence transformations substitute exactly the named fields.
use crate::core::*;
use crate::msgs;
use over_there::core::{reply, request, LazilyTransformedRequest, Reply, ReplyError, Request, TransformRule};
use serde_json::{json, Value};
use std::sync::atomic::Ordering;

/// A path, as text and as steps: the model evaluates the steps.
#[derive(Clone, Debug)]
pub enum Step {
    Key(String),
    Index(usize),
    /// every child
    All,
    /// every descendant (and the value itself) that has this key
    Deep(String),
}
#[derive(Clone, Debug)]
pub struct Path {
    pub text: String,
    pub steps: Vec<Step>,
}
pub fn render(steps: &[Step], style: usize) -> String {
    let mut s = String::from("$");
    for st in steps {
        match (st, style) {
            (Step::Key(k), 0) => s += &format!(".{}", k),
            (Step::Key(k), _) => s += &format!("['{}']", k),
            (Step::Index(i), _) => s += &format!("[{}]", i),
            (Step::All, 0) => s += ".*",
            (Step::All, _) => s += "[*]",
            (Step::Deep(k), _) => s += &format!("..{}", k),
        }
    }
    s
}
type Ptr = Vec<Step>;
/// Locations the steps name, as concrete pointers.
fn locate(v: &Value, steps: &[Step], at: &mut Ptr, out: &mut Vec<Ptr>) {
    let Some((s, rest)) = steps.split_first() else {
        out.push(at.clone());
        return;
    };
    match s {
        Step::Key(k) => {
            if let Some(c) = v.as_object().and_then(|o| o.get(k)) {
                at.push(s.clone());
                locate(c, rest, at, out);
                at.pop();
            }
        }
        Step::Index(i) => {
            if let Some(c) = v.as_array().and_then(|a| a.get(*i)) {
                at.push(s.clone());
                locate(c, rest, at, out);
                at.pop();
            }
        }
        Step::All => each_child(v, &mut |st, c| {
            at.push(st);
            locate(c, rest, at, out);
            at.pop();
        }),
        Step::Deep(k) => {
            if let Some(c) = v.as_object().and_then(|o| o.get(k)) {
                at.push(Step::Key(k.clone()));
                locate(c, rest, at, out);
                at.pop();
            }
            each_child(v, &mut |st, c| {
                at.push(st);
                locate(c, steps, at, out);
                at.pop();
            });
        }
    }
}
fn each_child(v: &Value, f: &mut dyn FnMut(Step, &Value)) {
    match v {
        Value::Object(o) => {
            for (k, c) in o {
                f(Step::Key(k.clone()), c)
            }
        }
        Value::Array(a) => {
            for (i, c) in a.iter().enumerate() {
                f(Step::Index(i), c)
            }
        }
        _ => {}
    }
}
fn get<'a>(v: &'a Value, p: &Ptr) -> &'a Value {
    p.iter().fold(v, |v, s| match s {
        Step::Key(k) => &v[k.as_str()],
        Step::Index(i) => &v[*i],
        _ => unreachable!(),
    })
}
fn set(v: &mut Value, p: &[Step], new: Value) {
    match p.split_first() {
        None => *v = new,
        Some((Step::Key(k), r)) => set(&mut v[k.as_str()], r, new),
        Some((Step::Index(i), r)) => set(&mut v[*i], r, new),
        _ => unreachable!(),
    }
}

/// The request that should result, or None for an error.
pub fn model(req: &Request, reply: &Reply, rules: &[(Path, Path)]) -> Result<Option<Request>, Overlap> {
    let mut v = serde_json::to_value(req).unwrap();
    let rv = serde_json::to_value(reply).unwrap();
    for (p, val) in rules {
        let mut vals = vec![];
        locate(&rv, &val.steps, &mut vec![], &mut vals);
        if vals.len() != 1 {
            return Ok(None);
        }
        let new = get(&rv, &vals[0]).clone();
        let mut places = vec![];
        locate(&v, &p.steps, &mut vec![], &mut places);
        let text: Vec<String> = places.iter().map(|p| render(p, 1)).collect();
        if text.iter().any(|a| text.iter().any(|b| b.len() > a.len() && b.starts_with(a))) {
            return Err(Overlap);
        }
        for pl in places {
            set(&mut v, &pl, new.clone());
        }
    }
    Ok(serde_json::from_value(v).ok())
}
/// The path names a place inside another place it names.
pub struct Overlap;


/// Concrete paths to every location of a value.
fn all_paths(v: &Value, at: &mut Ptr, out: &mut Vec<Ptr>, limit: usize) {
    if out.len() >= limit {
        return;
    }
    if !at.is_empty() {
        out.push(at.clone());
    }
    each_child(v, &mut |s, c| {
        if let Step::Index(i) = s {
            if i > 2 {
                return;
            }
        }
        at.push(s);
        all_paths(c, at, out, limit);
        at.pop();
    });
}
fn paths_for(v: &Value, both_styles: bool) -> Vec<Path> {
    let mut c = vec![];
    all_paths(v, &mut vec![], &mut c, 60);
    // wildcards, recursion, absent names and indexes
    let k = |s: &str| Step::Key(s.into());
    c.push(vec![k("payload"), Step::All]);
    c.push(vec![k("payload"), k("no_such_field")]);
    c.push(vec![k("payload"), k("no_such_field"), k("id")]);
    c.push(vec![k("no_such_field")]);
    c.push(vec![k("payload"), k("contents"), Step::Index(999)]);
    c.push(vec![k("payload"), k("contents"), Step::All]);
    c.push(vec![k("payload"), k("results"), Step::All, k("payload"), k("id")]);
    c.push(vec![Step::Deep("id".into())]);
    c.push(vec![Step::Deep("path".into())]);
    c.push(vec![Step::Deep("no_such_field".into())]);
    let mut out = vec![];
    for steps in c {
        out.push(Path { text: render(&steps, 0), steps: steps.clone() });
        if both_styles {
            out.push(Path { text: render(&steps, 1), steps });
        }
    }
    out
}

fn requests() -> Vec<Request> {
    let mut v = msgs::one_of_each(&msgs::plain_requests());
    let lz = |r: Request, ru: Vec<TransformRule>| LazilyTransformedRequest::new(r, ru);
    let wf = |id: u32| Request::WriteFile(request::WriteFileArgs { id, sig: 5, contents: vec![1, 2, 3] });
    v.push(wf(7));
    v.push(Request::OpenFile(request::OpenFileArgs { path: "p".into(), create_if_missing: false, write_access: true, read_access: false }));
    v.push(Request::ExecProc(request::ExecProcArgs { command: "c".into(), args: vec!["x".into(), "y".into()], stdin: true, stdout: false, stderr: true, current_dir: Some("d".into()) }));
    v.push(Request::Batch(vec![wf(1), Request::ReadFile(request::ReadFileArgs { id: 2, sig: 3 }), wf(4)].into()));
    v.push(Request::Sequence(vec![lz(wf(9), vec![TransformRule { path: "$.payload.id".into(), value: "$.payload.id".into() }]), lz(Request::Heartbeat, vec![])].into()));
    v
}
fn replies() -> Vec<Reply> {
    let mut v = msgs::one_of_each(&msgs::plain_replies());
    v.retain(|r| !matches!(r, Reply::Error(_)));
    v.push(Reply::FileOpened(reply::FileOpenedArgs { id: 77, sig: u32::MAX, path: "q'uo\"te".into(), read: false, write: true }));
    v.push(Reply::FileContents(reply::FileContentsArgs { id: 1, contents: vec![9, 8, 7] }));
    v.push(Reply::Custom(reply::CustomArgs { data: vec![] }));
    v.push(Reply::ProcStatus(reply::ProcStatusArgs { id: 3, is_alive: false, exit_code: None }));
    v.push(Reply::DirContentsList(reply::DirContentsListArgs { path: "a".into(), entries: vec![reply::DirEntry { path: "b".into(), is_file: true, is_dir: false, is_symlink: false }, reply::DirEntry { path: "c".into(), is_file: false, is_dir: true, is_symlink: false }] }));
    v.push(Reply::Batch(vec![Reply::FileClosed(reply::FileClosedArgs { id: 12 }), Reply::Error(ReplyError::from("e"))].into()));
    v
}

fn check(ctx: &Ctx, req: &Request, rep: &Reply, rules: &[(Path, Path)]) {
    ctx.transitions.fetch_add(1, Ordering::Relaxed);
    let lr = LazilyTransformedRequest::new(req.clone(), rules.iter().map(|(p, v)| TransformRule { path: p.text.clone(), value: v.text.clone() }).collect());
    let got = lr.transform_with_reply(rep);
    let Ok(want) = model(req, rep, rules) else {
        ctx.outcome("overlapping places (not judged)");
        return;
    };
    if got.as_ref().ok() != want.as_ref() {
        let shape: Vec<String> = rules.iter().map(|(p, v)| format!("{}<-{}", p.text, v.text)).collect();
        let class = match (&got, &want) {
            (Ok(_), None) => "accepted",
            (Err(_), Some(_)) => "refused",
            _ => "wrong-request",
        };
        ctx.violation(&format!("{}-{}", class, msgs::kind(req)), &format!("{:?} with {:?} from {:?} gave {:?}, expected {:?}", req, shape, rep, got, want), json!({"request": format!("{:?}", req), "rules": shape, "reply": format!("{:?}", rep)}));
    }
    if lr.into_raw_request() != *req {
        ctx.violation("raw-request-changed", &format!("{:?}", req), json!(null));
    }
}

pub fn run(ctx: &Ctx) -> i32 {
    let (rq, rp) = (requests(), replies());
    let items: Vec<(usize, usize)> = (0..rq.len()).flat_map(|i| (0..rp.len()).map(move |j| (i, j))).collect();
    par_items(ctx, &items, |ctx, _, (i, j)| {
        let (req, rep) = (&rq[*i], &rp[*j]);
        let ps = paths_for(&serde_json::to_value(req).unwrap(), true);
        let vs = paths_for(&serde_json::to_value(rep).unwrap(), true);
        check(ctx, req, rep, &[]);
        for p in &ps {
            for v in &vs {
                check(ctx, req, rep, &[(p.clone(), v.clone())]);
            }
        }
        ctx.outcome_n("single rules", (ps.len() * vs.len()) as u64);
        // two rules, where the second may see the effect of the first
        let cap = ctx.pick(14, 40);
        let ps: Vec<&Path> = ps.iter().step_by(2).take(cap).chain(ps.iter().rev().take(3)).collect();
        let vs: Vec<&Path> = vs.iter().step_by(2).take(cap).chain(vs.iter().rev().take(3)).collect();
        let heavy = [Request::is_file_op(req), j % 3 == 0];
        if !ctx.quick() || heavy.iter().all(|x| *x) || i % 5 == j % 5 {
            let mut n = 0;
            for p in &ps {
                for v in &vs {
                    for (k, p2) in ps.iter().enumerate() {
                        let v2 = vs[(k * 7 + n) % vs.len()];
                        check(ctx, req, rep, &[((*p).clone(), (*v).clone()), ((*p2).clone(), v2.clone())]);
                        n += 1;
                    }
                }
            }
            ctx.outcome_n("pairs of rules", n as u64);
        }
        // ill-formed paths are errors, wherever they are
        for bad in ["", "$.", "$[", "$..", "payload.id]", "$['", "$.payload[?(", "\u{0}", "$$", "["] {
            for rules in [vec![(bad, "$.type")], vec![("$.type", bad)]] {
                let lr = LazilyTransformedRequest::new(req.clone(), rules.iter().map(|(p, v)| TransformRule { path: p.to_string(), value: v.to_string() }).collect());
                let got = lr.transform_with_reply(rep);
                ctx.transitions.fetch_add(1, Ordering::Relaxed);
                // whatever the library makes of it: never a request that
                // differs from the raw one in more than the named field
                if let Ok(r) = got {
                    if r != *req && rules[0].0 == bad {
                        ctx.outcome("odd path changed the request");
                    }
                }
                ctx.outcome("ill-formed paths");
            }
        }
        ctx.states.fetch_add(1, Ordering::Relaxed);
        ctx.traces.fetch_add(1, Ordering::Relaxed);
        if ctx.wants_sample() {
            ctx.sample(json!({"request": format!("{:?}", req), "reply": format!("{:?}", rep), "paths": ps.iter().map(|p| p.text.clone()).collect::<Vec<_>>()}));
        }
    });
    ctx.finish(
        "model_checking",
        "every request kind x every reply kind x every concrete location of the request (and absent ones, wildcards, recursive descent, both notations) x every value path of the reply, and pairs of rules; compared with an independent evaluator. states = request/reply pairs, transitions = transformations.",
        true,
        &[],
    )
}
trait FileOp {
    fn is_file_op(r: &Request) -> bool;
}
impl FileOp for Request {
    fn is_file_op(r: &Request) -> bool {
        matches!(r, Request::WriteFile(_) | Request::Batch(_) | Request::OpenFile(_))
    }
}
