//! C01: every delivery order, interleaving and in-flight duplication.
use crate::core::*;
use crate::wires::*;
use serde_json::json;
use std::sync::atomic::Ordering;
use std::time::Duration;

struct Scen {
    payloads: Vec<Vec<u8>>,
    packets: Vec<Vec<Vec<u8>>>,
}

struct Walk<'a> {
    ctx: &'a Ctx,
    sc: &'a Scen,
    name: String,
    masks: Vec<u32>,
    path: Vec<(usize, usize)>,
    dups: usize,
    states: u64,
    transitions: u64,
    traces: u64,
    nodup_after: bool,
}

impl<'a> Walk<'a> {
    fn full(&self, i: usize) -> bool {
        self.masks[i].count_ones() as usize == self.sc.packets[i].len()
    }
    fn step(&mut self, w: &mut In, p: usize, k: usize) -> bool {
        self.transitions += 1;
        let dup = self.masks[p] & (1 << k) != 0;
        let completes = !dup && self.masks[p].count_ones() as usize + 1 == self.sc.packets[p].len();
        let r = w.process(&self.sc.packets[p][k]);
        let bad = match (&r, completes, dup) {
            (Ok(Some(d)), true, _) if *d == self.sc.payloads[p] => None,
            (Ok(Some(_)), true, _) => Some("completed payload delivered with different bytes"),
            (_, true, _) => Some("last missing packet arrived but the payload was not handed over"),
            (Ok(Some(_)), false, _) => Some("something was handed over although no payload completed"),
            (Ok(None), false, _) => None,
            (Err(_), false, true) => None,
            (Err(_), false, false) => Some("a genuine, new packet was refused"),
        };
        self.path.push((p, k));
        if let Some(m) = bad {
            let enc = if self.name.contains("/Noop") { "plain" } else { "encrypted" };
            self.ctx.violation(
                &format!("{}:{}", enc, m.replace(' ', "-")),
                &format!("{} [{}] order {:?} -> {:?}", m, self.name, self.path, r.as_ref().map(|o| o.as_ref().map(|v| v.len())).map_err(|e| e.to_string())),
                json!({"config": self.name, "order": self.path, "packets": self.sc.packets.iter().map(|v| v.iter().map(|b| hex(b)).collect::<Vec<_>>()).collect::<Vec<_>>()}),
            );
            return false;
        }
        true
    }
    fn dfs(&mut self, w: &In) {
        if self.ctx.stopped() {
            return;
        }
        self.states += 1;
        let n = self.sc.packets.len();
        if (0..n).all(|i| self.full(i)) {
            self.traces += 1;
            if self.traces % 4999 == 1 && self.ctx.wants_sample() {
                self.ctx.sample(json!({"config": self.name, "delivery_order": self.path}));
            }
            return;
        }
        for p in 0..n {
            if self.full(p) {
                continue;
            }
            for k in 0..self.sc.packets[p].len() {
                let dup = self.masks[p] & (1 << k) != 0;
                if dup && (self.dups == 0 || self.nodup_after) {
                    continue;
                }
                let mut w2 = w.clone();
                let ok = self.step(&mut w2, p, k);
                if ok {
                    let old = self.masks[p];
                    self.masks[p] |= 1 << k;
                    if dup {
                        self.dups -= 1;
                    }
                    self.dfs(&w2);
                    if dup {
                        self.dups += 1;
                    }
                    self.masks[p] = old;
                }
                self.path.pop();
            }
        }
    }
}

/// Orders of all packets of the scenario (used where the wire's state cannot
/// be cloned because the nonce cache is shared).
fn orders(counts: &[usize]) -> Vec<Vec<(usize, usize)>> {
    let all: Vec<(usize, usize)> =
        counts.iter().enumerate().flat_map(|(p, n)| (0..*n).map(move |k| (p, k))).collect();
    permutations(all.len()).into_iter().map(|o| o.into_iter().map(|i| all[i]).collect()).collect()
}

pub fn run(ctx: &Ctx) -> i32 {

    // (packet counts per payload, duplicates allowed)
    let shapes: Vec<(Vec<usize>, usize)> = ctx.pick(
        vec![(vec![1, 1, 2], 1), (vec![3], 3), (vec![2, 3], 2), (vec![4, 1], 1), (vec![2, 2, 2], 0), (vec![3, 3], 1), (vec![5], 2), (vec![6], 1), (vec![3, 2, 2], 0), (vec![7], 0)],
        vec![(vec![1, 1, 2], 3), (vec![3], 4), (vec![2, 3], 4), (vec![2, 2, 2], 1), (vec![3, 3], 2), (vec![4, 4], 0), (vec![6], 1), (vec![3, 2, 2], 0), (vec![7, 1], 0), (vec![3, 3, 2], 0)],
    );
    let mut items = vec![];
    for a in AUTHS {
        for c in CRYPTS {
            for s in &shapes {
                // the largest shapes only on two representative configurations
                let total: usize = s.0.iter().sum::<usize>() + s.1;
                let rep = (a, c) == (AuthKind::Noop, CryptKind::Noop) || (a, c) == (AuthKind::Sha256, CryptKind::Gcm256);
                if total > ctx.pick(5, 7) && !rep {
                    continue;
                }
                items.push((a, c, s.clone()));
            }
        }
    }
    items.sort_by_key(|(_, _, s)| std::cmp::Reverse(s.0.iter().sum::<usize>() + s.1));
    par_items(ctx, &items, |ctx, _, (a, c, (shape, dups))| {
        crate::interpose::freeze_clock();
        let size = match (60..400).find(|s| {
            let (_, mut o) = pair(*s, Duration::from_secs(60), auth(*a, 1), crypt(*c, 1));
            o.process(&[1, 2, 3]).is_ok()
        }) {
            Some(s) => s + 40,
            None => return,
        };
        let (i, mut o) = pair(size, Duration::from_secs(60), auth(*a, 1), crypt(*c, 1));
        let mut sc = Scen { payloads: vec![], packets: vec![] };
        for (t, n) in shape.iter().enumerate() {
            if *n == 1 {
                // a single-packet payload must be short enough for any overhead
                let p = payload(t as u8, 3);
                let pk = o.process(&p).unwrap();
                assert!(!pk.is_empty());
                if pk.len() != 1 {
                    let (p, pk) = payload_with_packets(&mut o, t as u8, pk.len());
                    sc.payloads.push(p);
                    sc.packets.push(pk);
                    continue;
                }
                sc.payloads.push(p);
                sc.packets.push(pk);
            } else {
                let (p, pk) = payload_with_packets(&mut o, t as u8, *n);
                sc.payloads.push(p);
                sc.packets.push(pk);
            }
        }
        let name = format!("{:?}/{:?} packets {:?} dups<={}", a, c, shape, dups);
        let mut w = Walk {
            ctx, sc: &sc, name: name.clone(), masks: vec![0; sc.packets.len()], path: vec![], dups: *dups,
            states: 0, transitions: 0, traces: 0, nodup_after: false,
        };
        w.dfs(&i);
        ctx.states.fetch_add(w.states, Ordering::Relaxed);
        ctx.transitions.fetch_add(w.transitions, Ordering::Relaxed);
        ctx.traces.fetch_add(w.traces, Ordering::Relaxed);
        ctx.outcome_n(&format!("{:?} orders complete", shape), w.traces);
    });
    // replay-protected ciphers: whole histories, no cloning
    let mut items = vec![];
    for c in CRYPTS {
        for shape in [vec![3usize], vec![2, 2], vec![1, 3], vec![2, 1, 1]] {
            items.push((c, shape));
        }
    }
    par_items(ctx, &items, |ctx, _, (c, shape)| {
        crate::interpose::freeze_clock();
        let a = AuthKind::Sha256;
        let mut tx = pair(300, Duration::from_secs(60), auth(a, 1), cached(crypt(*c, 1), 100)).1;
        let mut sc = Scen { payloads: vec![], packets: vec![] };
        for (t, n) in shape.iter().enumerate() {
            let (p, pk) = payload_with_packets(&mut tx, t as u8, *n);
            sc.payloads.push(p);
            sc.packets.push(pk);
        }
        for o in orders(shape) {
            let mut rx = pair(300, Duration::from_secs(60), auth(a, 1), cached(crypt(*c, 1), 100)).0;
            let mut w = Walk {
                ctx, sc: &sc, name: format!("{:?}/{:?}+nonce-cache packets {:?}", a, c, shape), masks: vec![0; shape.len()],
                path: vec![], dups: 0, states: 0, transitions: 0, traces: 0, nodup_after: true,
            };
            for (p, k) in o {
                if !w.step(&mut rx, p, k) {
                    break;
                }
                w.masks[p] |= 1 << k;
            }
            ctx.states.fetch_add(w.transitions + 1, Ordering::Relaxed);
            ctx.transitions.fetch_add(w.transitions, Ordering::Relaxed);
            ctx.traces.fetch_add(1, Ordering::Relaxed);
        }
    });
    long(ctx);
    ctx.finish(
        "model_checking",
        "state = receiver after a delivery history (real InboundWire, cloned at every branch); transition = one packet delivered (new, or duplicate of an incomplete payload). Model: per payload the set of packets received; the payload must come out exactly at the transition that completes its set. Every order of all packets and every placement of the stated number of duplicates is run on the real receiver. Long payloads (several hundred packets): every rotation, every reversed rotation, every packet delayed to the end or brought to the front, every stride, alone and interleaved with a second long payload, each packet once or twice.",
        true,
        &["packet ids of concurrent payloads differ (they are random 32-bit numbers)", "payload and packet counts bounded as listed in outcomes"],
    )
}

/// Payloads of several hundred packets: families of orders, each complete.
fn long(ctx: &Ctx) {
    let configs = [(AuthKind::Noop, CryptKind::Noop), (AuthKind::Sha256, CryptKind::Gcm256), (AuthKind::Noop, CryptKind::Siv128)];
    let counts = ctx.pick(vec![258usize], vec![258, 300, 520]);
    let mut items = vec![];
    for (a, c) in configs {
        for n in &counts {
            for family in 0..6 {
                items.push((a, c, *n, family));
            }
        }
    }
    // long tasks, many of them: cut each family into parts
    let parts = 8;
    let items: Vec<_> = items.into_iter().flat_map(|i| (0..parts).map(move |p| (i, p))).collect();
    par_items(ctx, &items, |ctx, _, ((a, c, n, family), part)| {
        crate::interpose::freeze_clock();
        let least = (60..400).find(|s| pair(*s, Duration::from_secs(60), auth(*a, 1), crypt(*c, 1)).1.process(&[1, 2, 3]).is_ok()).unwrap();
        let (rx, mut o) = pair(least + 8, Duration::from_secs(60), auth(*a, 1), crypt(*c, 1));
        let mut make = |tag: u8| {
            let mut len = *n;
            loop {
                let p: Vec<u8> = (0..len).map(|i| (i as u8) ^ ((i >> 8) as u8).wrapping_mul(31) ^ tag).collect();
                let k = o.process(&p).unwrap();
                if k.len() >= *n {
                    return (p, k);
                }
                len += (*n - k.len()).max(1);
            }
        };
        let sc: Vec<(Vec<u8>, Vec<Vec<u8>>)> = vec![make(1), make(77)];
        let n0 = sc[0].1.len();
        let one = |v: Vec<usize>| v.into_iter().map(|k| (0usize, k)).collect::<Vec<_>>();
        let rot = |r: usize| (0..n0).map(|i| (i + r) % n0).collect::<Vec<_>>();
        for r in 0..n0 {
            if r % parts != *part || ctx.stopped() {
                continue;
            }
            let order: Vec<(usize, usize)> = match family {
                0 => one(rot(r)),
                1 => one(rot(r).into_iter().rev().collect()),
                2 => one((0..n0).filter(|i| *i != r).chain(Some(r)).collect()),
                3 => one(Some(r).into_iter().chain((0..n0).rev().filter(|i| *i != r)).collect()),
                4 => {
                    // every stride without a common divisor reaches all
                    let gcd = |mut a: usize, mut b: usize| {
                        while b > 0 {
                            let t = a % b;
                            a = b;
                            b = t;
                        }
                        a
                    };
                    if gcd(r, n0) != 1 {
                        continue;
                    }
                    one((0..n0).map(|i| i * r % n0).flat_map(|i| vec![i, i]).collect())
                }
                _ => {
                    // two at a time, one of them r packets ahead
                    let n1 = sc[1].1.len();
                    let mut v = vec![];
                    for i in 0..n0.max(n1) + r {
                        if i < n0 {
                            v.push((0, i));
                        }
                        if i >= r && i - r < n1 {
                            v.push((1, n1 - 1 - (i - r)));
                        }
                    }
                    v
                }
            };
            last_case(|| format!("{:?}/{:?} {} packets, family {} number {}", a, c, n0, family, r));
            let mut w = rx.clone();
            let mut seen = [vec![false; sc[0].1.len()], vec![false; sc[1].1.len()]];
            let mut left = [sc[0].1.len(), sc[1].1.len()];
            for (p, k) in order {
                if left[p] == 0 {
                    continue;
                }
                let dup = std::mem::replace(&mut seen[p][k], true);
                left[p] -= !dup as usize;
                let last = !dup && left[p] == 0;
                ctx.transitions.fetch_add(1, Ordering::Relaxed);
                let r2 = w.process(&sc[p].1[k]);
                let ok = match &r2 {
                    Ok(Some(d)) => last && *d == sc[p].0,
                    Ok(None) => !last,
                    Err(_) => dup,
                };
                if !ok {
                    ctx.violation(
                        &format!("long-payload:family{}", family),
                        &format!("{:?}/{:?}: payload of {} packets, order family {} number {}: packet {} gave {:?}", a, c, n0, family, r, k, r2.map(|o| o.map(|v| v.len())).map_err(|e| e.to_string())),
                        json!({"config": format!("{:?}/{:?}", a, c), "packets": n0, "family": family, "number": r, "at": k}),
                    );
                    return;
                }
            }
            ctx.states.fetch_add(1, Ordering::Relaxed);
            ctx.traces.fetch_add(1, Ordering::Relaxed);
            ctx.outcome("orders of long payloads complete");
        }
    });
}
