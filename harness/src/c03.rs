//! C03: altered, forged or spliced packets never become part of a payload.
use crate::core::*;
use crate::wires::*;
use over_there::core::transport::verif::{RawEncryption, RawPacket};
use over_there::core::transport::Signer;
use serde_json::json;
use std::collections::HashSet;
use std::sync::atomic::Ordering;
use std::time::Duration;

const TTL: Duration = Duration::from_secs(60);

fn byte_mutations(b: &[u8], full: bool) -> Vec<(String, Vec<u8>)> {
    let mut out = vec![];
    for i in 0..b.len() {
        for bit in 0..8 {
            let mut m = b.to_vec();
            m[i] ^= 1 << bit;
            out.push((format!("flip byte {} bit {}", i, bit), m));
        }
        if full {
            for v in [0u8, 0x17, 0x18, 0x7f, 0x80, 0xff] {
                let mut m = b.to_vec();
                m[i] = v;
                out.push((format!("set byte {} to {:#x}", i, v), m));
            }
        }
        let mut m = b.to_vec();
        m.remove(i);
        out.push((format!("drop byte {}", i), m));
        let mut m = b.to_vec();
        m.insert(i, m[i]);
        out.push((format!("repeat byte {}", i), m));
        if i + 1 < b.len() {
            let mut m = b.to_vec();
            m.swap(i, i + 1);
            out.push((format!("swap bytes {} {}", i, i + 1), m));
        }
    }
    for n in 0..b.len() {
        out.push((format!("truncate to {}", n), b[..n].to_vec()));
    }
    for v in [0u8, 0xff] {
        let mut m = b.to_vec();
        m.push(v);
        out.push((format!("append {:#x}", v), m));
    }
    out
}

fn mix(a: &RawPacket, b: &RawPacket, mask: u32) -> RawPacket {
    let mut r = a.clone();
    if mask & 1 != 0 {
        r.id = b.id;
    }
    if mask & 2 != 0 {
        r.index = b.index;
    }
    if mask & 4 != 0 {
        r.last = b.last.clone();
    }
    if mask & 8 != 0 {
        r.signature = b.signature.clone();
    }
    if mask & 16 != 0 {
        r.data = b.data.clone();
    }
    r
}

fn field_changes(p: &RawPacket) -> Vec<(String, RawPacket)> {
    let mut out = vec![];
    for i in [0u32, 1, 2, 3, 23, 24, 255, 256, u32::MAX - 1, u32::MAX, p.index.wrapping_add(1), p.index.wrapping_sub(1)] {
        out.push((format!("index {} -> {}", p.index, i), RawPacket { index: i, ..p.clone() }));
    }
    for i in [0u32, 1, p.id.wrapping_add(1), !p.id] {
        out.push((format!("id -> {}", i), RawPacket { id: i, ..p.clone() }));
    }
    for l in [
        None,
        Some(RawEncryption::None),
        Some(RawEncryption::Encrypted),
        Some(RawEncryption::WithNonce(vec![0; 12])),
        Some(RawEncryption::WithNonce(vec![9; 12])),
        Some(RawEncryption::WithNonce(vec![0; 16])),
    ] {
        out.push((format!("finality -> {:?}", l), RawPacket { last: l, ..p.clone() }));
    }
    for s in [vec![0u8; 32], vec![0u8; 64], vec![0xff; 32], vec![0xff; 64]] {
        out.push((format!("signature -> constant {}", s.len()), RawPacket { signature: s, ..p.clone() }));
    }
    let mut s = p.signature.clone();
    s.reverse();
    out.push(("signature reversed".into(), RawPacket { signature: s, ..p.clone() }));
    if p.signature.len() == 64 {
        out.push(("signature first half".into(), RawPacket { signature: p.signature[..32].to_vec(), ..p.clone() }));
    } else {
        let s = [p.signature.clone(), p.signature.clone()].concat();
        out.push(("signature doubled".into(), RawPacket { signature: s, ..p.clone() }));
    }
    let mut d = p.data.clone();
    d.reverse();
    out.push(("data reversed".into(), RawPacket { data: d, ..p.clone() }));
    out.push(("data empty".into(), RawPacket { data: vec![], ..p.clone() }));
    let mut d = p.data.clone();
    d.push(0);
    out.push(("data + 0".into(), RawPacket { data: d, ..p.clone() }));
    let mut d = p.data.clone();
    d.pop();
    out.push(("data - last".into(), RawPacket { data: d, ..p.clone() }));
    // move a byte between data and metadata-ish prefix
    if p.data.len() > 1 {
        out.push(("data - first".into(), RawPacket { data: p.data[1..].to_vec(), ..p.clone() }));
    }
    out
}

pub fn run(ctx: &Ctx) -> i32 {
    let mut items: Vec<(AuthKind, CryptKind)> = vec![];
    for a in AUTHS {
        for c in CRYPTS {
            if a == AuthKind::Noop && c == CryptKind::Noop {
                continue;
            }
            if ctx.quick() && a != AuthKind::Noop && !matches!(c, CryptKind::Noop | CryptKind::Gcm256 | CryptKind::Siv128) {
                continue;
            }
            items.push((a, c));
        }
    }
    let orders = permutations(3);
    par_items(ctx, &items, |ctx, _, (a, c)| {
        crate::interpose::set_clock(Duration::from_secs(0));
        let name = format!("{:?}/{:?}", a, c);
        let size = 20 + (60..600)
            .find(|s| pair(*s, TTL, auth(*a, 1), crypt(*c, 1)).1.process(&[1, 2, 3]).is_ok())
            .unwrap();
        let (rx, mut tx) = pair(size, TTL, auth(*a, 1), crypt(*c, 1));
        let (pa, ka) = payload_with_packets(&mut tx, 1, 3);
        let (pb, kb) = payload_with_packets(&mut tx, 2, 3);
        let raw = |b: &Vec<u8>| RawPacket::parse(b).expect("genuine packet does not parse");
        let ra: Vec<RawPacket> = ka.iter().map(raw).collect();
        let rb: Vec<RawPacket> = kb.iter().map(raw).collect();
        let genuine: HashSet<RawPacket> = ra.iter().chain(rb.iter()).cloned().collect();
        // the same payload and ids from a sender with another authentication key
        let other = auth(*a, 2);
        let resign = |p: &RawPacket, s: &DynAuth| {
            let d = s.sign(&p.signed_content().unwrap());
            RawPacket { signature: d.digest().to_vec(), ..p.clone() }
        };
        let mut forged: Vec<(String, Vec<u8>)> = vec![];
        let mut raws: Vec<(String, RawPacket)> = vec![];
        for (n, b) in ka.iter().enumerate() {
            for (w, m) in byte_mutations(b, true) {
                forged.push((format!("A{}: {}", n, w), m));
            }
        }
        for (n, p) in ra.iter().enumerate() {
            for (w, r) in field_changes(p) {
                raws.push((format!("A{}: {}", n, w), r));
            }
        }
        let all: Vec<(String, RawPacket)> = ra
            .iter()
            .enumerate()
            .map(|(i, p)| (format!("A{}", i), p.clone()))
            .chain(rb.iter().enumerate().map(|(i, p)| (format!("B{}", i), p.clone())))
            .collect();
        for (n1, p1) in &all {
            for (n2, p2) in &all {
                if n1 != n2 {
                    for mask in 1..31 {
                        raws.push((format!("splice {} with fields {:05b} of {}", n1, mask, n2), mix(p1, p2, mask)));
                    }
                }
            }
        }
        if *a != AuthKind::Noop {
            // signed under another key, with or without changed fields
            let base = raws.clone();
            for (w, r) in base.iter().filter(|(w, _)| !w.contains("splice")) {
                raws.push((format!("{} signed under another key", w), resign(r, &other)));
            }
            for (n, p) in &all {
                raws.push((format!("{} signed under another key", n), resign(p, &other)));
                let wrong = if *a == AuthKind::Sha256 { AuthKind::Sha512 } else { AuthKind::Sha256 };
                raws.push((format!("{} signed under another key and digest", n), resign(p, &auth(wrong, 2))));
                raws.push((format!("{} signed with an empty key", n), resign(p, &DynAuth(std::sync::Arc::new(over_there::core::transport::auth::Sha256Authenticator::new(b""))))));
            }
        }
        for (w, r) in raws {
            if let Some(b) = r.to_vec() {
                forged.push((w, b));
            }
        }
        let signing = *a != AuthKind::Noop;
        let mut evals = 0u64;
        let mut rejected = 0u64;
        let mut equal = 0u64;
        // receivers after every prefix of every order of A, precomputed
        let mut prefixes: Vec<(Vec<usize>, In)> = vec![];
        for o in &orders {
            for j in 0..=2 {
                let key = o[..j].to_vec();
                if prefixes.iter().any(|(k, _)| *k == key) {
                    continue;
                }
                let mut w = rx.clone();
                for k in &key {
                    let _ = w.process(&ka[*k]);
                }
                prefixes.push((key, w));
            }
        }
        let after = |w: &In, key: &Vec<usize>, what: &str, show: &dyn Fn() -> serde_json::Value| {
                // the rest of A (both orders), then B: exactly the payloads sent
                let rest: Vec<usize> = (0..3).filter(|k| !key.contains(k)).collect();
                let rests: Vec<Vec<usize>> = if rest.len() == 2 { vec![rest.clone(), vec![rest[1], rest[0]]] } else { vec![rest.clone()] };
                for rest in rests {
                    let mut w = w.clone();
                    ctx.traces.fetch_add(1, Ordering::Relaxed);
                    ctx.transitions.fetch_add((rest.len() + kb.len()) as u64, Ordering::Relaxed);
                    for (n, k) in rest.iter().enumerate() {
                        let r = w.process(&ka[*k]);
                        let lastp = n + 1 == rest.len();
                        let ok = match &r {
                            Ok(Some(d)) => *d == pa && (lastp || !signing),
                            Ok(None) => !signing || !lastp,
                            Err(_) => !signing,
                        };
                        if !ok {
                            ctx.violation(
                                if signing { "genuine-disturbed" } else { "tampered-delivered-later" },
                                &format!("after {} [{}] at {:?} the genuine packets gave {:?}", what, name, key, r.as_ref().map(|o| o.as_ref().map(|v| v.len())).map_err(|e| e.to_string())),
                                show(),
                            );
                            break;
                        }
                    }
                    // another payload of the same sender still gets through;
                    // without signatures a splice may have destroyed it
                    for (n, k) in kb.iter().enumerate() {
                        let r = w.process(k);
                        let ok = match &r {
                            Ok(Some(d)) => *d == pb && (n == 2 || !signing),
                            Ok(None) => n < 2 || !signing,
                            Err(_) => !signing,
                        };
                        if !ok {
                            ctx.violation(
                                "other-payload-disturbed",
                                &format!("after {} [{}] at {:?} payload B packet {} gave {:?}", what, name, key, n, r.as_ref().map(|o| o.as_ref().map(|v| v.len())).map_err(|e| e.to_string())),
                                show(),
                            );
                            break;
                        }
                    }
                }
        };
        for (what, f) in &forged {
            if ctx.stopped() {
                break;
            }
            let parsed = RawPacket::parse(f);
            let same = parsed.as_ref().map(|p| genuine.contains(p)).unwrap_or(false);
            for (key, w0) in &prefixes {
                let mut w = w0.clone();
                evals += 1;
                ctx.transitions.fetch_add(1, Ordering::Relaxed);
                ctx.states.fetch_add(1, Ordering::Relaxed);
                let r = w.process(f);
                let show = || json!({"config": name, "delivered_before": key, "forgery": what, "bytes": hex(f)});
                if signing {
                    if same {
                        // re-encoding of a genuine packet: nothing to reject
                        equal += 1;
                        continue;
                    }
                    if f.is_empty() {
                        if !matches!(r, Ok(None) | Err(_)) {
                            ctx.violation("empty-accepted", "empty datagram delivered something", show());
                        }
                        continue;
                    }
                    if r.is_ok() {
                        ctx.violation(
                            &format!("forged-packet-accepted:{}", what.split(' ').skip(1).take(2).collect::<Vec<_>>().join("-")),
                            &format!("forged packet accepted [{}] after {:?}: {} -> {:?}", name, key, what, r.map(|o| o.map(|v| v.len()))),
                            show(),
                        );
                        continue;
                    }
                    rejected += 1;
                }
                if !signing && !matches!(r, Ok(None) | Err(_)) {
                    if let Ok(Some(d)) = &r {
                        if *d != pa && *d != pb {
                            ctx.violation("tampered-delivered", &format!("tampering delivered other bytes [{}] after {:?}: {}", name, key, what), show());
                        }
                    }
                    continue;
                }
                after(&w, key, what, &show);
            }
        }
        // two forgeries in a row
        let few: Vec<(String, Vec<u8>)> = ra
            .iter()
            .enumerate()
            .flat_map(|(n, p)| field_changes(p).into_iter().map(move |(w, r)| (format!("A{}: {}", n, w), r)))
            .filter(|(_, r)| !genuine.contains(r))
            .filter_map(|(w, r)| r.to_vec().map(|b| (w, b)))
            .filter(|(_, b)| RawPacket::parse(b).map(|p| !genuine.contains(&p)).unwrap_or(true))
            .collect();
        for (w1, f1) in &few {
            for (w2, f2) in &few {
                if ctx.stopped() {
                    break;
                }
                for (key, w0) in prefixes.iter().filter(|(k, _)| k.len() <= ctx.pick(1, 2)) {
                    let mut w = w0.clone();
                    let what = format!("{} and then {}", w1, w2);
                    let show = || json!({"config": name, "delivered_before": key, "forgeries": [w1, w2], "bytes": [hex(f1), hex(f2)]});
                    ctx.transitions.fetch_add(2, Ordering::Relaxed);
                    ctx.states.fetch_add(1, Ordering::Relaxed);
                    evals += 1;
                    let mut delivered = false;
                    for f in [f1, f2] {
                        match w.process(f) {
                            Err(_) => rejected += signing as u64,
                            Ok(None) if !signing => (),
                            Ok(Some(d)) if !signing && (d == pa || d == pb) => delivered = true,
                            r => ctx.violation("second-forgery", &format!("[{}] after {:?}: {} -> {:?}", name, key, what, r.map(|o| o.map(|v| v.len()))), show()),
                        }
                    }
                    if !delivered {
                        after(&w, key, &what, &show);
                    }
                }
            }
        }
        ctx.evaluations.fetch_add(evals, Ordering::Relaxed);
        ctx.nontrivial.fetch_add(if signing { rejected } else { evals }, Ordering::Relaxed);
        ctx.outcome_n("forgeries rejected (signing)", rejected);
        ctx.outcome_n("re-encodings of a genuine packet (not forgeries)", equal);
        ctx.outcome_n(&format!("forgeries tried {}", name), forged.len() as u64);
        ctx.sample(json!({"config": name, "forgery": forged[forged.len() / 2].0, "bytes": hex(&forged[forged.len() / 2].1)}));
    });
    ctx.finish(
        "model_checking",
        "state = (configuration, real receiver after a prefix of an order of a genuine 3-packet payload, one or two forged packets); transition = a packet processed; trace = the genuine packets delivered to the end after the forgery. Forgeries are every bit flip, byte change/drop/repeat/swap, truncation, every field change, every mixture of fields of two packets and signatures under other keys. Non-trivial: content differs from every genuine packet. Afterwards the genuine packets are delivered in both orders and a second payload follows.",
        true,
        &["HMAC and AEAD forgeries by guessing are out of scope", "a different encoding of identical packet content is not an alteration"],
    )
}
