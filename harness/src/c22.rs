//! C22: server-side errors keep their identity across the wire.
use crate::core::*;
use crate::msgs;
use over_there::core::FileAskError;
use over_there::core::{reply, Content, Msg, Reply, ReplyError};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::io::{self, ErrorKind};
use std::sync::atomic::Ordering;

const KINDS: [ErrorKind; 18] = [
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::Interrupted,
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
];
/// kinds the wire format has no name for
const NEWER: [ErrorKind; 3] = [ErrorKind::Unsupported, ErrorKind::OutOfMemory, ErrorKind::NotADirectory];

#[derive(Serialize, Deserialize)]
struct KindBox(#[serde(with = "over_there::utils::serializers::error_kind")] ErrorKind);
#[derive(Serialize, Deserialize)]
struct ErrBox(#[serde(with = "over_there::utils::serializers::io_error")] io::Error);

#[derive(Clone, PartialEq, Debug)]
struct Seen {
    kind: ErrorKind,
    code: Option<i32>,
    text: String,
}
fn see(e: &io::Error) -> Seen {
    Seen { kind: e.kind(), code: e.raw_os_error(), text: e.to_string() }
}
/// Every way a server-side error becomes an error at the client.
fn routes(e: &dyn Fn() -> io::Error) -> Vec<(&'static str, Result<Seen, String>)> {
    let through_msg = |r: Reply| -> Result<Reply, String> {
        let m = Msg::from(Content::Reply(r));
        let b = m.to_vec().map_err(|e| e.to_string())?;
        Msg::from_slice(&b).map_err(|e| e.to_string())?.content.into_reply().ok_or_else(|| "not a reply".to_string())
    };
    let io = |r: Result<Reply, String>| -> Result<Seen, String> {
        match r? {
            Reply::Error(ReplyError::Io(a)) => Ok(see(&a.into())),
            x => Err(format!("{:?}", x)),
        }
    };
    let nested = |r: Reply| -> Result<Seen, String> {
        match through_msg(Reply::Batch(vec![Reply::Heartbeat, Reply::Sequence(vec![r].into())].into()))? {
            Reply::Batch(b) => match &b.results[1] {
                Reply::Sequence(s) => io(Ok(s.results[0].clone())),
                x => Err(format!("{:?}", x)),
            },
            x => Err(format!("{:?}", x)),
        }
    };
    let boxed = |b: Result<ErrBox, String>| b.map(|b| see(&b.0));
    let js = serde_json::to_string(&Content::Reply(Reply::from(e()))).map_err(|e| e.to_string());
    let js = js.and_then(|s| serde_json::from_str::<Content>(&s).map_err(|e| e.to_string())).and_then(|c| c.into_reply().ok_or_else(|| "not a reply".into()));
    let fa = serde_json::to_string(&FileAskError::from(e())).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str::<FileAskError>(&s).map_err(|e| e.to_string())).and_then(|f| match f {
        FileAskError::IoError(e) => Ok(see(&e)),
        x => Err(format!("{:?}", x)),
    });
    vec![
        ("reply over CBOR", io(through_msg(Reply::from(e())))),
        ("reply error over CBOR", io(through_msg(Reply::Error(ReplyError::from(e()))))),
        ("nested reply over CBOR", nested(Reply::from(e()))),
        ("reply over JSON", io(js)),
        ("io_error serializer CBOR", boxed(serde_cbor::to_vec(&ErrBox(e())).map_err(|e| e.to_string()).and_then(|b| serde_cbor::from_slice(&b).map_err(|e| e.to_string())))),
        ("io_error serializer packed CBOR", boxed(serde_cbor::ser::to_vec_packed(&ErrBox(e())).map_err(|e| e.to_string()).and_then(|b| serde_cbor::from_slice(&b).map_err(|e| e.to_string())))),
        ("io_error serializer JSON", boxed(serde_json::to_string(&ErrBox(e())).map_err(|e| e.to_string()).and_then(|b| serde_json::from_str(&b).map_err(|e| e.to_string())))),
        ("FileAskError over JSON", fa),
    ]
}

fn check(ctx: &Ctx, e: &dyn Fn() -> io::Error, want: &Seen, what: &str) {
    for (route, got) in routes(e) {
        ctx.transitions.fetch_add(1, Ordering::Relaxed);
        if got.as_ref() != Ok(want) {
            ctx.violation(&format!("{}:{:?}", route.replace(' ', "-"), want.kind), &format!("{}: {} became {:?}, expected {:?}", route, what, got, want), json!({"error": what, "route": route}));
        }
    }
    ctx.states.fetch_add(1, Ordering::Relaxed);
    ctx.traces.fetch_add(1, Ordering::Relaxed);
    ctx.outcome(&format!("{:?}", want.kind));
}

pub fn run(ctx: &Ctx) -> i32 {
    // every operating system code
    let mut codes: Vec<i32> = (0..=ctx.pick(5000, 70000)).collect();
    codes.extend((1..200).map(|x| -x));
    codes.extend([i32::MIN, i32::MAX, i32::MIN + 1, 65535, 65536]);
    par_items(ctx, &codes, |ctx, _, c| {
        let e = || io::Error::from_raw_os_error(*c);
        check(ctx, &e, &see(&e()), &format!("OS error {}", c));
    });
    // every kind, with every description, with or without custom payload
    let texts = msgs::strings();
    let kinds: Vec<ErrorKind> = KINDS.iter().chain(&NEWER).cloned().collect();
    par_items(ctx, &kinds, |ctx, _, k| {
        for t in &texts {
            let e = || io::Error::new(*k, t.clone());
            let mut want = see(&e());
            if NEWER.contains(k) {
                want.kind = ErrorKind::Other;
            }
            check(ctx, &e, &want, &format!("{:?} {:?}", k, t));
        }
        let e = || io::Error::from(*k);
        let mut want = see(&e());
        if NEWER.contains(k) {
            want.kind = ErrorKind::Other;
        }
        check(ctx, &e, &want, &format!("{:?} without text", k));
    });
    // the kind on its own, in every form
    for k in KINDS {
        let forms: Vec<(&str, Result<KindBox, String>)> = vec![
            ("CBOR", serde_cbor::to_vec(&KindBox(k)).map_err(|e| e.to_string()).and_then(|b| serde_cbor::from_slice(&b).map_err(|e| e.to_string()))),
            ("packed CBOR", serde_cbor::ser::to_vec_packed(&KindBox(k)).map_err(|e| e.to_string()).and_then(|b| serde_cbor::from_slice(&b).map_err(|e| e.to_string()))),
            ("JSON", serde_json::to_string(&KindBox(k)).map_err(|e| e.to_string()).and_then(|b| serde_json::from_str(&b).map_err(|e| e.to_string()))),
        ];
        for (f, r) in forms {
            ctx.transitions.fetch_add(1, Ordering::Relaxed);
            if !matches!(&r, Ok(b) if b.0 == k) {
                ctx.violation(&format!("kind-{}-{:?}", f, k), &format!("{:?} over {} became {:?}", k, f, r.map(|b| b.0)), json!({"kind": format!("{:?}", k), "form": f}));
            }
        }
        // SerErrorKind there and back
        let s = reply::SerErrorKind::from(k);
        if ErrorKind::from(s.clone()) != k {
            ctx.violation(&format!("sererrorkind-{:?}", k), &format!("{:?} became {:?} became {:?}", k, s, ErrorKind::from(s.clone())), json!({"kind": format!("{:?}", k)}));
        }
    }
    // prefixes keep kind and code; generic errors keep their text
    for t in &texts {
        for p in &texts {
            for k in KINDS {
                let a = reply::IoErrorArgs::from_error_with_prefix(io::Error::new(k, t.clone()), p);
                let e: io::Error = a.into();
                if e.kind() != k || e.to_string() != format!("{}{}", p, t) {
                    ctx.violation("prefix", &format!("{:?} prefix {:?} text {:?} became {:?}", k, p, t, e), json!({"prefix": p, "text": t}));
                }
                ctx.transitions.fetch_add(1, Ordering::Relaxed);
            }
        }
        for r in [Reply::Error(ReplyError::from(t.clone())), Reply::Error(ReplyError::from(t.as_str())), Reply::from(Box::<dyn std::error::Error>::from(t.clone()))] {
            let m = Msg::from(Content::Reply(r));
            let got = m.to_vec().ok().and_then(|b| Msg::from_slice(&b).ok()).and_then(|m| m.content.into_reply_error());
            ctx.transitions.fetch_add(1, Ordering::Relaxed);
            if !matches!(&got, Some(ReplyError::Generic(g)) if g.msg == *t && g.to_string() == *t) {
                ctx.violation("generic-text", &format!("generic error {:?} became {:?}", t, got), json!({"text": t}));
            }
        }
    }
    ctx.sample(json!("OS error 2 over: reply CBOR, nested reply, JSON, io_error serializer (CBOR, packed, JSON), FileAskError"));
    ctx.finish(
        "model_checking",
        "every operating system code 0..=5000 (70000), -199..0 and the extremes, every error kind with every description of the pool and without one, through every route from a server-side error to the client's error (reply, nested reply, CBOR, JSON, serializer modules); the result must have the same kind, code and text. states = errors, transitions = routes.",
        true,
        &["client and server run on the same platform (codes keep their meaning)", "error kinds the wire format does not name arrive as Other"],
    )
}
