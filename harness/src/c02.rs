//! C02: incomplete payloads never leak, never block others, and expire.
use crate::core::*;
use crate::wires::*;
use serde_json::json;
use std::sync::atomic::Ordering;
use std::time::Duration;

const TTL: Duration = Duration::from_secs(10);
const NS: Duration = Duration::from_nanos(1);

#[derive(Clone)]
struct Group {
    first: Duration,
    mask: u32,
}
#[derive(Clone)]
struct Model {
    groups: Vec<Option<Group>>,
    done: Vec<bool>,
    now: Duration,
}

struct Walk<'a> {
    ctx: &'a Ctx,
    name: String,
    payloads: &'a [Vec<u8>],
    packets: &'a [Vec<Vec<u8>>],
    path: Vec<String>,
    depth: usize,
    states: u64,
    transitions: u64,
    traces: u64,
    expired: u64,
    delivered: u64,
    recombined: u64,
}

impl<'a> Walk<'a> {
    fn dfs(&mut self, w: &In, m: &Model, left: usize) {
        self.states += 1;
        if left == 0 || self.ctx.stopped() {
            self.traces += 1;
            return;
        }
        for (n, d) in [("+ttl/2", TTL / 2), ("+ttl/2-1ns", TTL / 2 - NS), ("+1ns", NS)] {
            // two time steps of the same kind in a row beyond the lifetime add nothing
            if m.groups.iter().all(|g| g.is_none()) || self.path.last().map(|s| s == "+1ns").unwrap_or(false) {
                continue;
            }
            let mut m2 = m.clone();
            m2.now += d;
            self.path.push(n.to_string());
            self.transitions += 1;
            self.dfs(w, &m2, left - 1);
            self.path.pop();
        }
        for p in 0..self.packets.len() {
            if m.done[p] {
                continue;
            }
            for k in 0..self.packets[p].len() {
                self.transitions += 1;
                let mut m2 = m.clone();
                let mut w2 = w.clone();
                crate::interpose::set_clock(m2.now);
                self.path.push(format!("p{}.{}", p, k));
                let r = w2.process(&self.packets[p][k]);
                let mut dropped = false;
                for g in m2.groups.iter_mut() {
                    if g.as_ref().map(|g| m.now - g.first >= TTL).unwrap_or(false) {
                        *g = None;
                        dropped = true;
                    }
                }
                if dropped {
                    self.expired += 1;
                }
                let now = m2.now;
                let g = m2.groups[p].get_or_insert(Group { first: now, mask: 0 });
                let dup = g.mask & (1 << k) != 0;
                g.mask |= 1 << k;
                let complete = g.mask.count_ones() as usize == self.packets[p].len();
                let bad = match (&r, complete && !dup) {
                    (Ok(Some(d)), true) if *d == self.payloads[p] => None,
                    (Ok(Some(_)), true) => Some("delivered different bytes"),
                    (_, true) => Some("a payload completed within its lifetime was not handed over"),
                    (Ok(Some(_)), false) => Some("a payload with a missing or expired packet was handed over"),
                    (Ok(None), false) => None,
                    (Err(_), false) if dup => None,
                    (Err(_), false) => Some("a packet not held was refused"),
                };
                if let Some(b) = bad {
                    self.ctx.violation(
                        &b.replace(' ', "-"),
                        &format!("{} [{}] events {:?}: {:?}", b, self.name, self.path, r.map(|o| o.map(|v| v.len())).map_err(|e| e.to_string())),
                        json!({"config": self.name, "ttl_s": TTL.as_secs(), "events": self.path, "packets": self.packets.iter().map(|v| v.iter().map(|b| hex(b)).collect::<Vec<_>>()).collect::<Vec<_>>()}),
                    );
                    self.path.pop();
                    continue;
                }
                if complete {
                    self.delivered += 1;
                    m2.groups[p] = None;
                    m2.done[p] = true;
                    if self.delivered % 50021 == 1 {
                        self.ctx.sample(json!({"config": self.name, "events": self.path}));
                    }
                }
                self.dfs(&w2, &m2, left - 1);
                self.path.pop();
            }
        }
    }
}

pub fn run(ctx: &Ctx) -> i32 {
    let depth = ctx.pick(7, 8);
    let mut items: Vec<(AuthKind, CryptKind, Vec<usize>, usize)> = vec![];
    for (a, c) in [(AuthKind::Noop, CryptKind::Noop), (AuthKind::Sha256, CryptKind::Gcm256), (AuthKind::Sha512, CryptKind::Siv128)] {
        items.push((a, c, vec![3, 2], depth));
        items.push((a, c, vec![2, 2, 1], depth));
        items.push((a, c, vec![4], depth + 1));
        items.push((a, c, vec![2], depth + 2));
    }
    for a in AUTHS {
        for c in CRYPTS {
            items.push((a, c, vec![2, 1], 5));
        }
    }
    par_items(ctx, &items, |ctx, _, (a, c, shape, depth)| {
        crate::interpose::set_clock(Duration::from_secs(0));
        let size = 80 + (60..600)
            .find(|s| pair(*s, TTL, auth(*a, 1), crypt(*c, 1)).1.process(&[1, 2, 3]).is_ok())
            .unwrap();
        let (i, mut o) = pair(size, TTL, auth(*a, 1), crypt(*c, 1));
        let mut payloads = vec![];
        let mut packets = vec![];
        for (t, n) in shape.iter().enumerate() {
            let (p, k) = payload_with_packets(&mut o, t as u8, *n);
            payloads.push(p);
            packets.push(k);
        }
        let mut w = Walk {
            ctx, name: format!("{:?}/{:?} packets {:?} depth {}", a, c, shape, depth), payloads: &payloads, packets: &packets,
            path: vec![], depth: *depth, states: 0, transitions: 0, traces: 0, expired: 0, delivered: 0, recombined: 0,
        };
        let m = Model { groups: vec![None; shape.len()], done: vec![false; shape.len()], now: Duration::from_secs(5) };
        w.dfs(&i, &m, *depth);
        ctx.states.fetch_add(w.states, Ordering::Relaxed);
        ctx.transitions.fetch_add(w.transitions, Ordering::Relaxed);
        ctx.traces.fetch_add(w.traces, Ordering::Relaxed);
        ctx.outcome_n("steps on which a group expired", w.expired);
        ctx.outcome_n("payloads delivered", w.delivered);
    });
    ctx.finish(
        "model_checking",
        "state = (real receiver, virtual time); transitions = any packet of an undelivered payload (new or repeated) arrives, or time advances by ttl/2, ttl/2-1ns or 1ns. Model: per payload, arrival time of the first packet held and the set held; a group counts as gone once now-first >= ttl. All event sequences up to the depth are run on the real receiver, whose clock the harness owns.",
        true,
        &["time-to-live is measured from the first packet held", "expiry is observed when a packet arrives (the receiver has no timer)"],
    )
}
