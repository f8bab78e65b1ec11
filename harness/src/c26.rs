//! C26: the published JSON schemas describe exactly the messages the programs
//! write, and accept nothing that is not read.
use crate::c24::*;
use crate::core::*;
use crate::interpose::*;
use crate::msgs;
use over_there::core::{Content, Reply, Request};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::Ordering;

/// What the program prints, as a whole.
fn printed(args: &[&str]) -> Result<String, String> {
    let mut f = program(strings(args));
    capture_output();
    let w = futures::task::noop_waker();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(&mut std::task::Context::from_waker(&w))));
    let [o, e] = captured();
    take_panic();
    match r {
        Ok(std::task::Poll::Ready(Ok(()))) if e.is_empty() => Ok(String::from_utf8_lossy(&o).into()),
        Ok(std::task::Poll::Ready(Ok(()))) => Err(format!("writes to stderr: {}", String::from_utf8_lossy(&e))),
        Ok(std::task::Poll::Ready(Err(m))) => Err(m),
        Ok(std::task::Poll::Pending) => Err("does not come to an end".into()),
        Err(_) => Err("panics".into()),
    }
}
/// JSON schema, draft 7, as far as it is used; anything else is refused.
struct Schema {
    root: Value,
}
const KNOWN: [&str; 18] = ["$schema", "title", "description", "definitions", "type", "properties", "required", "items", "enum", "const", "anyOf", "oneOf", "allOf", "$ref", "format", "minimum", "maximum", "default"];
impl Schema {
    fn new(text: &str) -> Result<Schema, String> {
        let root: Value = serde_json::from_str(text).map_err(|e| format!("not JSON: {}", e))?;
        let s = Schema { root };
        s.check(&s.root)?;
        if let Some(d) = s.root.get("definitions").and_then(|d| d.as_object()) {
            for v in d.values() {
                s.check(v)?;
            }
        }
        Ok(s)
    }
    /// Is it well-formed?
    fn check(&self, v: &Value) -> Result<(), String> {
        let o = match v {
            Value::Bool(_) => return Ok(()),
            Value::Object(o) => o,
            _ => return Err(format!("not a schema: {}", v)),
        };
        for (k, v) in o {
            if !KNOWN.contains(&&k[..]) && k != "additionalProperties" && k != "minItems" && k != "maxItems" && k != "uniqueItems" {
                return Err(format!("unknown keyword {:?}", k));
            }
            match &k[..] {
                "properties" => {
                    for x in v.as_object().ok_or("properties is not an object")?.values() {
                        self.check(x)?;
                    }
                }
                "anyOf" | "oneOf" | "allOf" => {
                    for x in v.as_array().ok_or("not a list of schemas")? {
                        self.check(x)?;
                    }
                }
                "items" => match v {
                    Value::Array(l) => {
                        for x in l {
                            self.check(x)?;
                        }
                    }
                    x => self.check(x)?,
                },
                "additionalProperties" => self.check(v)?,
                "$ref" => {
                    self.target(v)?;
                }
                _ => (),
            }
        }
        Ok(())
    }
    fn target(&self, r: &Value) -> Result<&Value, String> {
        let r = r.as_str().ok_or("$ref is not a string")?;
        let p = r.strip_prefix('#').ok_or_else(|| format!("reference {:?} leads elsewhere", r))?;
        self.root.pointer(p).ok_or_else(|| format!("reference {:?} leads nowhere", r))
    }
    fn accepts(&self, v: &Value) -> bool {
        self.ok(&self.root, v)
    }
    fn ok(&self, s: &Value, v: &Value) -> bool {
        let o = match s {
            Value::Bool(b) => return *b,
            Value::Object(o) => o,
            _ => return false,
        };
        let list = |k: &str| o.get(k).and_then(|x| x.as_array());
        let is = |t: &str| match t {
            "null" => v.is_null(),
            "boolean" => v.is_boolean(),
            "integer" => v.is_i64() || v.is_u64() || v.as_f64().map(|f| f.fract() == 0.0).unwrap_or(false),
            "number" => v.is_number(),
            "string" => v.is_string(),
            "array" => v.is_array(),
            "object" => v.is_object(),
            _ => false,
        };
        match o.get("type") {
            None => (),
            Some(Value::String(t)) if is(t) => (),
            Some(Value::Array(l)) if l.iter().any(|t| t.as_str().map(is).unwrap_or(false)) => (),
            _ => return false,
        }
        if let Some(n) = v.as_f64() {
            if o.get("minimum").and_then(|m| m.as_f64()).map(|m| n < m).unwrap_or(false) || o.get("maximum").and_then(|m| m.as_f64()).map(|m| n > m).unwrap_or(false) {
                return false;
            }
            let within = match o.get("format").and_then(|f| f.as_str()) {
                Some("uint8") => n >= 0.0 && n <= u8::MAX as f64,
                Some("uint16") => n >= 0.0 && n <= u16::MAX as f64,
                Some("uint32") => n >= 0.0 && n <= u32::MAX as f64,
                Some("int8") => n >= i8::MIN as f64 && n <= i8::MAX as f64,
                Some("int16") => n >= i16::MIN as f64 && n <= i16::MAX as f64,
                Some("int32") => n >= i32::MIN as f64 && n <= i32::MAX as f64,
                Some("uint64") | Some("uint") => v.is_u64(),
                Some("int64") | Some("int") => v.is_i64(),
                _ => true,
            };
            if !within {
                return false;
            }
        }
        if let Some(l) = list("enum") {
            if !l.contains(v) {
                return false;
            }
        }
        if o.get("const").map(|c| c != v).unwrap_or(false) {
            return false;
        }
        if let Some(m) = v.as_object() {
            if list("required").map(|l| l.iter().any(|k| !m.contains_key(k.as_str().unwrap_or("\u{0}")))).unwrap_or(false) {
                return false;
            }
            let props = o.get("properties").and_then(|p| p.as_object());
            for (k, x) in m {
                match (props.and_then(|p| p.get(k)), o.get("additionalProperties")) {
                    (Some(s), _) | (None, Some(s)) if !self.ok(s, x) => return false,
                    _ => (),
                }
            }
        }
        if let Some(a) = v.as_array() {
            let n = |k: &str| o.get(k).and_then(|x| x.as_u64());
            if n("minItems").map(|m| (a.len() as u64) < m).unwrap_or(false) || n("maxItems").map(|m| a.len() as u64 > m).unwrap_or(false) {
                return false;
            }
            if o.get("uniqueItems") == Some(&Value::Bool(true)) && a.iter().enumerate().any(|(i, x)| a[..i].contains(x)) {
                return false;
            }
            match o.get("items") {
                Some(Value::Array(l)) => {
                    if a.iter().zip(l).any(|(x, s)| !self.ok(s, x)) {
                        return false;
                    }
                }
                Some(s) => {
                    if a.iter().any(|x| !self.ok(s, x)) {
                        return false;
                    }
                }
                None => (),
            }
        }
        if let Some(l) = list("anyOf") {
            if !l.iter().any(|s| self.ok(s, v)) {
                return false;
            }
        }
        if let Some(l) = list("oneOf") {
            if l.iter().filter(|s| self.ok(s, v)).count() != 1 {
                return false;
            }
        }
        if let Some(l) = list("allOf") {
            if !l.iter().all(|s| self.ok(s, v)) {
                return false;
            }
        }
        match o.get("$ref") {
            Some(r) => self.target(r).map(|s| self.ok(s, v)).unwrap_or(false),
            None => true,
        }
    }
}
/// Every place in a value, with its path.
fn places(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(at.clone());
    let mut go = |k: String, x: &Value| {
        at.push(k);
        places(x, at, out);
        at.pop();
    };
    match v {
        Value::Object(m) => m.iter().for_each(|(k, x)| go(k.clone(), x)),
        Value::Array(l) => l.iter().enumerate().take(3).for_each(|(i, x)| go(i.to_string(), x)),
        _ => (),
    }
}
fn get<'a>(v: &'a mut Value, at: &[String]) -> &'a mut Value {
    at.iter().fold(v, |v, k| match v {
        Value::Object(m) => m.get_mut(k).unwrap(),
        Value::Array(l) => &mut l[k.parse::<usize>().unwrap()],
        _ => unreachable!(),
    })
}
/// What a value looks like apart from the data in it.
fn shape(v: &Value) -> String {
    match v {
        Value::Object(m) => {
            let x: Vec<_> = m.iter().map(|(k, x)| if k == "type" || k == "error_kind" { format!("{}={}", k, x) } else { format!("{}:{}", k, shape(x)) }).collect();
            format!("{{{}}}", x.join(","))
        }
        Value::Array(l) => format!("[{}]", l.iter().take(2).map(shape).collect::<Vec<_>>().join(",")),
        Value::Null => "n".into(),
        Value::Bool(_) => "b".into(),
        Value::Number(x) => if x.is_f64() { "f" } else { "i" }.into(),
        Value::String(_) => "s".into(),
    }
}
struct World {
    items: BTreeMap<String, Schema>,
}
impl World {
    /// Does the item's schema accept it?
    fn accepts(&self, item: &str, v: &Value) -> bool {
        self.items.get(item).map(|s| s.accepts(v)).unwrap_or(false)
    }
}
fn reads(request: bool, v: &Value) -> bool {
    if request {
        serde_json::from_value::<Request>(v.clone()).is_ok()
    } else {
        serde_json::from_value::<Reply>(v.clone()).is_ok()
    }
}
fn case(ctx: &Ctx, w: &World, seen: &std::sync::Mutex<HashSet<String>>, c: &Content) {
    let v = serde_json::to_value(c).unwrap();
    let rep = |k: &str, what: String| ctx.violation(k, &what, json!({"content": v}));
    let request = matches!(c, Content::Request(_));
    let kind = if request { "request" } else { "reply" };
    let tag = v["type"].as_str().unwrap_or("").to_string();
    for item in ["content", kind] {
        ctx.transitions.fetch_add(1, Ordering::Relaxed);
        if !w.accepts(item, &v) {
            rep(&format!("refused-{}-{}", item, tag), format!("the schema of {} refuses a {}: {}", item, tag, crate::c07::short(&v.to_string())));
        }
    }
    let payload = v.get("payload").cloned();
    // the items that describe its payload
    let mut items: Vec<String> = vec![];
    if tag != "ignore_reply" {
        items.push(tag.clone());
    }
    if tag == "error_reply" {
        match payload.as_ref().and_then(|p| p["type"].as_str()) {
            Some("generic_error") => items.push("generic_error".into()),
            Some("io_error") => items.push("io_error".into()),
            Some("file_sig_changed_error") => items.push("file_sig_changed".into()),
            t => rep("error-type", format!("an error of an unknown type {:?}", t)),
        }
    }
    if let Some(p) = &payload {
        for item in &items {
            ctx.transitions.fetch_add(1, Ordering::Relaxed);
            if !w.accepts(item, p) {
                rep(&format!("refused-{}", item), format!("the schema of {} refuses its payload: {}", item, crate::c07::short(&p.to_string())));
            }
        }
    }
    ctx.traces.fetch_add(1, Ordering::Relaxed);
    if !seen.lock().unwrap().insert(shape(&v)) {
        return;
    }
    // near misses: what a schema accepts is understood (the reader is more
    // lenient, taking lists for structures and numbers for names)
    let mut at = vec![];
    places(&v, &mut vec![], &mut at);
    let values = [Value::Null, json!(true), json!(0), json!(-1), json!(255), json!(256), json!(4294967295u64), json!(4294967296u64), json!(-2147483649i64), json!(1.5), json!("x"), json!([]), json!([[]]), json!({}), json!({"type": "x"})];
    for p in &at {
        let mut near: Vec<Value> = vec![];
        for x in &values {
            // an address is a string with a further structure
            if x.is_string() && p.last().map(|k| k == "address").unwrap_or(false) {
                continue;
            }
            let mut n = v.clone();
            *get(&mut n, p) = x.clone();
            near.push(n);
        }
        if let Some((last, up)) = p.split_last() {
            let mut n = v.clone();
            if let Value::Object(m) = get(&mut n, up) {
                let x = m.remove(last).unwrap();
                near.push(n.clone());
                if let Value::Object(m) = get(&mut n, up) {
                    m.insert(format!("{}_", last), x);
                }
                near.push(n);
            }
        }
        for n in near {
            if n == v {
                continue;
            }
            ctx.states.fetch_add(1, Ordering::Relaxed);
            ctx.transitions.fetch_add(2, Ordering::Relaxed);
            let understood = reads(request, &n);
            ctx.outcome(if understood { "near miss understood" } else { "near miss not understood" });
            if w.accepts(kind, &n) && !understood {
                rep(&format!("differs-{}-{}", kind, tag), format!("the schema of {} accepts what is not understood: {}", kind, crate::c07::short(&n.to_string())));
            }
            let both = serde_json::from_value::<Content>(n.clone()).is_ok();
            if w.accepts("content", &n) && !both {
                rep(&format!("differs-content-{}", tag), format!("the schema of content accepts what is not understood: {}", crate::c07::short(&n.to_string())));
            }
            // the payload alone, where only that differs
            if let Some(x) = n.get("payload") {
                if n["type"] == v["type"] && n.as_object().unwrap().len() == 2 && items.len() == 1 && w.accepts(&items[0], x) && !understood {
                    rep(&format!("differs-{}", items[0]), format!("the schema of {} accepts what is not understood: {}", items[0], crate::c07::short(&n.to_string())));
                }
                if items.len() == 2 && n["type"] == v["type"] && n.as_object().unwrap().len() == 2 && x["type"] == v["payload"]["type"] && w.accepts(&items[1], x) && !understood {
                    rep(&format!("differs-{}", items[1]), format!("the schema of {} accepts what is not understood: {}", items[1], crate::c07::short(&x.to_string())));
                }
            }
        }
    }
}
pub fn run(ctx: &Ctx) -> i32 {
    let listed = match printed(&["schema", "list"]) {
        Ok(s) => s,
        Err(e) => {
            ctx.violation("list", &format!("schema list: {}", e), json!(null));
            String::new()
        }
    };
    let names: Vec<&str> = listed.lines().collect();
    let mut w = World { items: BTreeMap::new() };
    for n in &names {
        ctx.states.fetch_add(1, Ordering::Relaxed);
        match printed(&["schema", "info", n]).and_then(|t| Schema::new(&t)) {
            Ok(s) => {
                if w.items.insert(n.to_string(), s).is_some() {
                    ctx.violation("list-twice", &format!("{} is listed twice", n), json!(n));
                }
            }
            Err(e) => ctx.violation(&format!("info-{}", n), &format!("schema info {}: {}", n, e), json!(n)),
        }
    }
    for n in ["nothing", "", "Content", "content "] {
        if printed(&["schema", "info", n]).is_ok() {
            ctx.violation("info-unknown", &format!("schema info {:?} prints something", n), json!(n));
        }
    }
    let cs = msgs::contents(ctx.pick(2, 4));
    // every item there is has its place in the list
    let tags: HashSet<String> = cs.iter().map(|c| serde_json::to_value(c).unwrap()["type"].as_str().unwrap_or("").to_string()).collect();
    for t in tags.iter().map(|t| &t[..]).chain(["content", "request", "reply", "generic_error", "io_error", "file_sig_changed"]) {
        if t != "ignore_reply" && !w.items.contains_key(t) {
            ctx.violation(&format!("unlisted-{}", t), &format!("{} is not listed", t), json!(t));
        }
    }
    for n in &names {
        if !tags.contains(*n) && !["content", "request", "reply", "generic_error", "io_error", "file_sig_changed"].contains(n) {
            ctx.violation(&format!("strange-{}", n), &format!("{} is listed, but there is no such message", n), json!(n));
        }
    }
    ctx.note("items", names.len() as u64);
    ctx.note("messages", cs.len() as u64);
    let seen = std::sync::Mutex::new(HashSet::new());
    par_items(ctx, &cs, |ctx, i, c| {
        last_case(|| format!("{:?}", c).chars().take(300).collect());
        case(ctx, &w, &seen, c);
        if i % 9001 == 3 && ctx.wants_sample() {
            ctx.sample(json!(crate::c07::short(&serde_json::to_string(c).unwrap())));
        }
    });
    ctx.note("shapes", seen.lock().unwrap().len() as u64);
    ctx.finish(
        "model_checking",
        "every item listed has a well-formed schema; every message (every kind with pools of field values, every container around every kind) is accepted by the schemas of content, of requests or replies, and of its own item; for every distinct shape of message, every single change at every place (other types, numbers around the limits of the integer types, a field missing or renamed) is understood by the reader if the schemas accept it. states = near misses, transitions = decisions of schemas compared.",
        true,
        &["addresses are strings to the schema; other strings in their place are not tried", "the parts of an array beyond the third are not changed"],
    )
}
