//! C07: every message survives the wire encoding unchanged.
use crate::core::*;
use crate::msgs;
use chrono::{TimeZone, Utc};
use over_there::core::{Content, Header, Msg};
use serde_json::json;
use std::sync::atomic::Ordering;

fn headers() -> Vec<Header> {
    let mut v = vec![];
    for id in msgs::U {
        for (s, n) in [(0i64, 0u32), (1_600_000_000, 1), (1_600_000_000, 999_999_999), (1_600_000_000, 120_000_000), (253_402_300_799, 999_000), (-1, 500_000_000)] {
            v.push(Header { id, creation_date: Utc.timestamp(s, n) });
        }
    }
    v
}
fn key(c: &Content) -> String {
    match c {
        Content::Request(r) => format!("request-{}", msgs::kind(r)),
        Content::Reply(r) => format!("reply-{}", msgs::kind(r)),
    }
}

fn check(ctx: &Ctx, m: &Msg) {
    ctx.transitions.fetch_add(2, Ordering::Relaxed);
    ctx.states.fetch_add(1, Ordering::Relaxed);
    let rep = |what: &str, got: String| {
        ctx.violation(&format!("{}-{}", what, key(&m.content)), &format!("{}: {} became {}", what, short(&format!("{:?}", m)), short(&got)), json!({"message": format!("{:?}", m), "got": got}));
    };
    match m.to_vec() {
        Err(e) => rep("cbor-encode", format!("{:?}", e)),
        Ok(b) => {
            match Msg::from_slice(&b) {
                Err(e) => rep("cbor-decode", format!("{:?}", e)),
                Ok(m2) if m2 != *m => rep("cbor-changed", format!("{:?}", m2)),
                Ok(_) => {}
            }
        }
    }
    match serde_json::to_string(&m.content) {
        Err(e) => rep("json-encode", format!("{:?}", e)),
        Ok(t) => match serde_json::from_str::<Content>(&t) {
            Err(e) => rep("json-decode", format!("{:?}", e)),
            Ok(c) if c != m.content => rep("json-changed", format!("{:?}", c)),
            Ok(_) => {}
        },
    }
    use over_there::cli::format::{convert_text, format_content, FormatOption};
    match format_content(FormatOption::Sexpression, m.content.clone(), |_| Err("human".into())) {
        Err(e) => rep("sexpression-encode", format!("{}", e)),
        Ok(t) => match convert_text::<Content>(FormatOption::Sexpression, &t) {
            // one cause for every kind: enum tags are written as symbols, which the reader refuses
            Err(e) if e.to_string().contains("invalid type: symbol") => {
                ctx.violation("sexpression-decode", &format!("{} cannot be read back: {}", short(&t), e), json!({"message": format!("{:?}", m), "text": t}))
            }
            Err(e) => rep("sexpression-decode", format!("{} from {}", e, t)),
            Ok(c) if c != m.content => rep("sexpression-changed", format!("{:?} from {}", c, t)),
            Ok(_) => {}
        },
    }
    ctx.traces.fetch_add(1, Ordering::Relaxed);
}
pub fn short(s: &str) -> String {
    if s.len() > 400 {
        format!("{}...", s.chars().take(400).collect::<String>())
    } else {
        s.to_string()
    }
}

pub fn run(ctx: &Ctx) -> i32 {
    let contents = msgs::contents(ctx.pick(5, 7));
    let hs = headers();
    ctx.note("contents", contents.len());
    // every content, with and without parent header
    par_items(ctx, &contents, |ctx, i, c| {
        let h = hs[i % hs.len()].clone();
        let p = hs[(i / hs.len()) % hs.len()].clone();
        check(ctx, &Msg { header: h.clone(), parent_header: None, content: c.clone() });
        check(ctx, &Msg { header: h, parent_header: Some(p), content: c.clone() });
        ctx.outcome(&key(c));
    });
    // every pair of headers on a few contents
    let some: Vec<Content> = msgs::one_of_each(&contents).into_iter().chain([contents[7].clone()]).collect();
    par_items(ctx, &hs, |ctx, _, h| {
        for p in &hs {
            for c in &some {
                check(ctx, &Msg { header: h.clone(), parent_header: Some(p.clone()), content: c.clone() });
            }
        }
    });
    ctx.sample(json!(format!("{:?}", contents[5])));
    ctx.sample(json!(short(&format!("{:?}", contents[contents.len() - 1]))));
    ctx.finish(
        "model_checking",
        "every request and reply kind, each field over a pool of boundary values (full product or all pairs of fields), every container kind around every kind to the given nesting depth, every pair of header values; encode then decode (CBOR for the message, JSON and S-expression for the content) must give an equal value. states = messages, transitions = encode/decode round trips.",
        true,
        &["nesting up to 5 (7) levels; the decoder's own recursion limit (128 CBOR levels, about 40 nested containers) is not exceeded"],
    )
}
