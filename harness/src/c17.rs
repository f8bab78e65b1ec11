//! C17: no inbound bytes can crash, corrupt or silence the receiver.
use crate::core::*;
use crate::wires::*;
use over_there::core::transport::crypto::{AssociatedData, Decrypter, Nonce};
use over_there::core::transport::verif::{RawEncryption, RawPacket};
use over_there::core::transport::Signer;
use over_there::core::Msg;
use serde_json::json;
use std::convert::TryInto;
use std::sync::atomic::Ordering;
use std::time::Duration;

const TTL: Duration = Duration::from_secs(60);

/// What a receiver may hand over, given the packets it has been given: the
/// decryption of the data of packets 0..=f of one id, where f is final and
/// the ones before are not.
struct Seen {
    packets: Vec<RawPacket>,
}
impl Seen {
    fn explains(&self, last: &RawPacket, out: &[u8], c: &DynCrypt) -> bool {
        let same: Vec<&RawPacket> = self.packets.iter().chain(Some(last)).filter(|p| p.id == last.id).collect();
        for f in same.iter().filter(|p| p.last.is_some()) {
            if f.index as usize >= same.len() {
                continue;
            }
            // every choice of one non-final packet per index
            let mut sets: Vec<Vec<u8>> = vec![vec![]];
            for i in 0..f.index {
                let mut next = vec![];
                for p in same.iter().filter(|p| p.index == i && p.last.is_none()) {
                    for s in &sets {
                        let mut s = s.clone();
                        s.extend_from_slice(&p.data);
                        next.push(s);
                    }
                }
                sets = next;
            }
            for mut s in sets {
                s.extend_from_slice(&f.data);
                let ad = match f.last.as_ref().unwrap() {
                    RawEncryption::WithNonce(n) if n.len() == 12 => AssociatedData::Nonce(Nonce::Nonce96Bits(n[..].try_into().unwrap())),
                    RawEncryption::WithNonce(n) => AssociatedData::Nonce(Nonce::Nonce128Bits(n[..].try_into().unwrap())),
                    _ => AssociatedData::None,
                };
                if c.decrypt(&s, &ad).ok().as_deref() == Some(out) {
                    return true;
                }
            }
        }
        false
    }
}

struct Rx {
    a: AuthKind,
    c: CryptKind,
    rx: In,
    seen: Seen,
    bare: DynCrypt,
}
impl Rx {
    fn new(a: AuthKind, c: CryptKind) -> Self {
        let bare = crypt(c, 1);
        let (rx, _) = pair(508, TTL, auth(a, 1), bare.clone());
        Rx { a, c, rx, seen: Seen { packets: vec![] }, bare }
    }
    /// Returns false if a violation was reported
    fn feed(&mut self, ctx: &Ctx, b: &[u8], how: &dyn Fn() -> serde_json::Value) -> bool {
        ctx.transitions.fetch_add(1, Ordering::Relaxed);
        let raw = RawPacket::parse(b);
        let r = self.rx.process(b);
        let ok = match (&r, &raw) {
            (Ok(Some(d)), Some(p)) => self.seen.explains(p, d, &self.bare),
            (Ok(Some(_)), None) => false,
            _ => true,
        };
        if !ok {
            ctx.violation("delivered-unexplained", &format!("{:?}/{:?}: bytes {} made the receiver hand over {:?}, which no complete set of received packets gives", self.a, self.c, hex(b), r), json!({"auth": format!("{:?}", self.a), "cipher": format!("{:?}", self.c), "bytes": hex(b), "how": how()}));
            return false;
        }
        if let Some(p) = raw {
            self.seen.packets.push(p);
        }
        true
    }
    /// A genuine message is still received, exactly when its last packet comes
    fn probe(&mut self, ctx: &Ctx, genuine: &(Vec<u8>, Vec<Vec<u8>>), how: &dyn Fn() -> serde_json::Value) {
        ctx.states.fetch_add(1, Ordering::Relaxed);
        for (i, p) in genuine.1.iter().enumerate() {
            let r = self.rx.process(p);
            let want = if i + 1 == genuine.1.len() { Some(&genuine.0) } else { None };
            let good = match &r {
                Ok(d) => d.as_ref() == want,
                Err(_) => false,
            };
            if !good {
                ctx.violation("genuine-lost", &format!("{:?}/{:?}: after hostile input {}, packet {} of a genuine message gave {:?}", self.a, self.c, how(), i, r), json!({"auth": format!("{:?}", self.a), "cipher": format!("{:?}", self.c), "how": how()}));
                return;
            }
        }
    }
}

fn genuine(a: AuthKind, c: CryptKind, tag: u8, n: usize) -> (Vec<u8>, Vec<Vec<u8>>) {
    let mut s = 100;
    loop {
        let (_, mut o) = pair(s, TTL, auth(a, 1), crypt(c, 1));
        if matches!(o.process(b"abcd"), Ok(p) if p.len() == 1) {
            return payload_with_packets(&mut o, tag, n);
        }
        s += 4;
    }
}

const KINDS: [(AuthKind, CryptKind); 4] = [(AuthKind::Noop, CryptKind::Noop), (AuthKind::Sha256, CryptKind::Noop), (AuthKind::Noop, CryptKind::Gcm256), (AuthKind::Sha512, CryptKind::Siv128)];

/// Every short byte string, alone and in one receiver one after the other.
fn short_strings(ctx: &Ctx) {
    let three = !ctx.quick();
    let heads: Vec<u16> = (0..256).collect();
    par_items(ctx, &heads, |ctx, _, h| {
        for (a, c) in KINDS {
            let g = genuine(a, c, 5, 2);
            let mut rx = Rx::new(a, c);
            let mut n = 0u64;
            let mut one = |b: &[u8]| {
                last_case(|| format!("bytes {}", hex(b)));
                rx.feed(ctx, b, &|| json!({"short string": hex(b)}));
                let _ = Msg::from_slice(b);
                n += 1;
            };
            if *h == 0 {
                one(&[]);
            }
            one(&[*h as u8]);
            for x in 0..=255u8 {
                one(&[*h as u8, x]);
                for y in 0..=255u8 {
                    if three || y % 16 == 1 {
                        one(&[*h as u8, x, y]);
                    }
                }
            }
            rx.probe(ctx, &g, &|| json!({"short strings with first byte": h}));
            ctx.traces.fetch_add(n, Ordering::Relaxed);
            ctx.outcome_n("short byte strings", n);
        }
    });
    // strings over the bytes that structure CBOR
    const S: [u8; 24] = [0x00, 0x01, 0x18, 0x1a, 0x1b, 0x3b, 0x40, 0x41, 0x5b, 0x5f, 0x60, 0x61, 0x7f, 0x80, 0x82, 0x85, 0x9b, 0x9f, 0xa1, 0xbb, 0xbf, 0xd9, 0xf6, 0xff];
    let depth = ctx.pick(4, 5);
    let heads: Vec<(u8, u8)> = S.iter().flat_map(|a| S.iter().map(move |b| (*a, *b))).collect();
    par_items(ctx, &heads, |ctx, _, (h0, h1)| {
        let (a, c) = KINDS[0];
        let mut rx = Rx::new(a, c);
        let mut idx = vec![0usize; depth - 2];
        let mut n = 0u64;
        loop {
            let mut b = vec![*h0, *h1];
            b.extend(idx.iter().map(|i| S[*i]));
            last_case(|| format!("bytes {}", hex(&b)));
            rx.feed(ctx, &b, &|| json!({"structure string": hex(&b)}));
            let _ = Msg::from_slice(&b);
            n += 1;
            let mut k = 0;
            while k < idx.len() {
                idx[k] += 1;
                if idx[k] < S.len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
            if k == idx.len() {
                break;
            }
        }
        let g = genuine(a, c, 6, 3);
        rx.probe(ctx, &g, &|| json!({"structure strings": format!("{:x}{:x}", h0, h1)}));
        ctx.traces.fetch_add(n, Ordering::Relaxed);
        ctx.outcome_n("CBOR structure strings", n);
    });
    // nesting and huge lengths
    let mut items: Vec<Vec<u8>> = vec![];
    for unit in [&[0x81u8][..], &[0x9f], &[0xa1], &[0xbf], &[0xa1, 0x00], &[0xa1, 0x61, 0x61], &[0xc1], &[0xd9, 0xd9, 0xf7], &[0x82, 0x00], &[0x5f], &[0x7f]] {
        for reps in [1usize, 2, 16, 64, 126, 127, 128, 129, 130, 256, 508, 1500, 20000, 66000] {
            for tail in [&[][..], &[0x00], &[0xff]] {
                let mut v: Vec<u8> = unit.iter().cycle().take(unit.len() * reps).cloned().collect();
                v.extend_from_slice(tail);
                items.push(v);
            }
        }
    }
    for major in [0x1bu8, 0x3b, 0x5b, 0x7b, 0x9b, 0xbb, 0xdb] {
        for len in [0u64, 1, 4, 64, 1 << 16, 1 << 31, 1 << 32, 1 << 40, 1 << 62, i64::MAX as u64, u64::MAX] {
            for tail in [&[][..], &[0x00], &[0x61, 0x61, 0x00]] {
                let mut v = vec![major];
                v.extend_from_slice(&len.to_be_bytes());
                v.extend_from_slice(tail);
                for pre in [&[][..], &[0x84], &[0x85, 0x00], &[0xa1, 0x62, b'i', b'd'], &[0x84, 0x83, 0x00, 0x00, 0x00], &[0xa3, 0x68, b'm', b'e', b't', b'a', b'd', b'a', b't', b'a']] {
                    items.push([pre, &v[..]].concat());
                }
            }
        }
    }
    par_items(ctx, &items, |ctx, _, b| {
        last_case(|| format!("bytes {}...", hex(&b[..b.len().min(64)])));
        for (a, c) in KINDS {
            let mut rx = Rx::new(a, c);
            rx.feed(ctx, b, &|| json!({"nested/huge": hex(&b[..b.len().min(40)])}));
            let _ = Msg::from_slice(b);
            let g = genuine(a, c, 5, 2);
            rx.probe(ctx, &g, &|| json!({"nested/huge": hex(&b[..b.len().min(40)])}));
            ctx.traces.fetch_add(1, Ordering::Relaxed);
        }
        ctx.outcome("nesting and length bombs");
    });
}

/// Every alteration of one byte of a genuine packet, at every point of a
/// genuine delivery, which must not be the only thing that is received.
fn mutations(ctx: &Ctx) {
    let mut items = vec![];
    for (a, c) in KINDS {
        for n in 1..=3usize {
            for k in 0..n {
                for at in 0..=n {
                    items.push((a, c, n, k, at));
                }
            }
        }
    }
    par_items(ctx, &items, |ctx, _, (a, c, n, k, at)| {
        let g = genuine(*a, *c, 9, *n);
        let fresh = genuine(*a, *c, 11, 2);
        let base = &g.1[*k];
        let mut cases = 0u64;
        for pos in 0..=base.len() {
            // replace, insert, remove
            for v in 0..258usize {
                let mut m = base.clone();
                if v < 256 {
                    if pos == base.len() {
                        m.push(v as u8)
                    } else if m[pos] == v as u8 {
                        continue;
                    } else {
                        m[pos] = v as u8;
                    }
                } else if pos == base.len() {
                    continue;
                } else if v == 256 {
                    m.truncate(pos);
                } else {
                    m.remove(pos);
                }
                if ctx.quick() && v < 256 && *n == 3 && !(v < 2 || v > 253 || v == (base[pos.min(base.len() - 1)] ^ 1) as usize || v == 0x1a || v == 0x9f || v == 0x5b) {
                    continue;
                }
                last_case(|| format!("mutated packet {}", hex(&m)));
                let mut rx = Rx::new(*a, *c);
                let how = || json!({"genuine_packets": g.1.iter().map(|p| hex(p)).collect::<Vec<_>>(), "mutant_of": k, "fed_before_packet": at, "mutant": hex(&m)});
                for i in 0..*n {
                    if i == *at {
                        rx.feed(ctx, &m, &how);
                    }
                    rx.feed(ctx, &g.1[i], &how);
                }
                if at == n {
                    rx.feed(ctx, &m, &how);
                }
                rx.probe(ctx, &fresh, &how);
                cases += 1;
            }
        }
        ctx.traces.fetch_add(cases, Ordering::Relaxed);
        ctx.outcome_n("mutated packets", cases);
        if ctx.wants_sample() {
            ctx.sample(json!({"auth": format!("{:?}", a), "cipher": format!("{:?}", c), "packets": n, "mutated": k, "fed_before": at, "mutants": cases}));
        }
    });
}

/// Every sequence of well-formed but arbitrary packets.
fn sequences(ctx: &Ctx) {
    let mut alphabet = vec![];
    for id in [7u32, 8] {
        for index in [0u32, 1, 2, 3, u32::MAX - 1, u32::MAX] {
            for last in [false, true] {
                for data in [&b"x"[..], b"yz", b""] {
                    if id == 8 && (data == b"x" || index == 3) {
                        continue;
                    }
                    alphabet.push((id, index, last, data.to_vec()));
                }
            }
        }
    }
    let mk = |a: AuthKind, c: CryptKind| -> Vec<Vec<u8>> {
        alphabet
            .iter()
            .map(|(id, index, last, data)| {
                let enc = if c == CryptKind::Noop { RawEncryption::None } else { RawEncryption::WithNonce(vec![3; 12]) };
                let mut r = RawPacket { id: *id, index: *index, last: if *last { Some(enc) } else { None }, signature: vec![], data: data.clone() };
                if a == AuthKind::Noop {
                    r.signature = auth(a, 1).sign(b"").digest().to_vec();
                } else {
                    // an insider who holds the signing key
                    r.signature = vec![0; 32];
                    let content = r.signed_content().unwrap();
                    r.signature = auth(a, 1).sign(&content).digest().to_vec();
                }
                r.to_vec().unwrap()
            })
            .collect()
    };
    let n = alphabet.len();
    let depth = ctx.pick(3, 4);
    for (a, c) in [(AuthKind::Noop, CryptKind::Noop), (AuthKind::Sha256, CryptKind::Noop), (AuthKind::Noop, CryptKind::Gcm128)] {
        let pk = mk(a, c);
        let items: Vec<(usize, usize)> = (0..n).flat_map(|i| (0..n).map(move |j| (i, j))).collect();
        let fresh = genuine(a, c, 11, 3);
        par_items(ctx, &items, |ctx, _, (i, j)| {
            if a != AuthKind::Noop && depth > 3 && i % 4 != 0 {
                return;
            }
            let mut cases = 0;
            let mut base = Rx::new(a, c);
            base.feed(ctx, &pk[*i], &|| json!([i]));
            base.feed(ctx, &pk[*j], &|| json!([i, j]));
            fn go(ctx: &Ctx, cur: &Rx, path: &mut Vec<usize>, depth: usize, pk: &[Vec<u8>], fresh: &(Vec<u8>, Vec<Vec<u8>>), cases: &mut u64) {
                for k in 0..pk.len() {
                    path.push(k);
                    let mut rx = Rx { a: cur.a, c: cur.c, rx: cur.rx.clone(), seen: Seen { packets: cur.seen.packets.clone() }, bare: cur.bare.clone() };
                    let how = || json!(path.iter().map(|i| hex(&pk[*i])).collect::<Vec<_>>());
                    last_case(|| format!("packets {}", how()));
                    rx.feed(ctx, &pk[k], &how);
                    if path.len() < depth {
                        go(ctx, &rx, path, depth, pk, fresh, cases);
                    } else {
                        rx.probe(ctx, fresh, &how);
                        *cases += 1;
                    }
                    path.pop();
                    if ctx.stopped() {
                        return;
                    }
                }
            }
            go(ctx, &base, &mut vec![*i, *j], depth, &pk, &fresh, &mut cases);
            ctx.traces.fetch_add(cases, Ordering::Relaxed);
            ctx.outcome_n(&format!("packet sequences {:?}/{:?}", a, c), cases);
        });
    }
}

pub fn run(ctx: &Ctx) -> i32 {
    short_strings(ctx);
    mutations(ctx);
    sequences(ctx);
    ctx.finish(
        "model_checking",
        "every byte string up to 2 (3) bytes and every string over 24 CBOR structure bytes up to 4 (5); nesting and length bombs; every single-byte replacement/insertion/removal/truncation of each genuine packet at every point of its delivery; every sequence of up to 3 (4) well-formed packets over an alphabet of ids, indexes (0-3, maxima), finality and data; each followed by a genuine message that must arrive. Deliveries are checked against the set of packets received. states = receivers probed, transitions = inputs fed.",
        true,
        &["server part: see the server scenarios in the same evidence"],
    )
}
