//! C05: a nonce is accepted at most once while it is remembered.
use crate::core::*;
use crate::preempt;
use crate::wires::*;
use over_there::core::transport::crypto::nonce::cache::NonceCacheBicrypter;
use over_there::core::transport::crypto::*;
use serde_json::json;
use std::sync::atomic::Ordering;
use std::sync::Arc;

#[derive(Clone)]
struct Pass;
impl Bicrypter for Pass {}
impl Encrypter for Pass {
    fn encrypt(&self, b: &[u8], _: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        Ok(b.to_vec())
    }
    fn new_encrypt_associated_data(&self) -> AssociatedData {
        AssociatedData::None
    }
}
impl Decrypter for Pass {
    fn decrypt(&self, b: &[u8], _: &AssociatedData) -> Result<Vec<u8>, CryptError> {
        Ok(b.to_vec())
    }
}
fn nonce(i: usize) -> AssociatedData {
    // nonces differ in single bytes only, and two differ in length only
    let mut a = [0u8; 12];
    let mut b = [0u8; 16];
    match i {
        0 => AssociatedData::Nonce(Nonce::Nonce96Bits(a)),
        1 => {
            a[11] = 1;
            AssociatedData::Nonce(Nonce::Nonce96Bits(a))
        }
        2 => {
            a[0] = 1;
            AssociatedData::Nonce(Nonce::Nonce96Bits(a))
        }
        3 => AssociatedData::Nonce(Nonce::Nonce128Bits(b)),
        _ => {
            b[15] = i as u8;
            AssociatedData::Nonce(Nonce::Nonce128Bits(b))
        }
    }
}

struct Model {
    cap: usize,
    recent: Vec<usize>,
    used: Vec<bool>,
}

fn sequential(ctx: &Ctx) {
    let depth = ctx.pick(6, 8);
    let mut items = vec![];
    for cap in [0usize, 1, 2, 3, 4] {
        for first in 0..8usize {
            items.push((cap, first));
        }
    }
    // alphabet: encrypt/decrypt x 4 nonces
    par_items(ctx, &items, |ctx, _, (cap, first)| {
        let mut seq = vec![*first];
        let mut n = 0u64;
        let mut t = 0u64;
        fn go(ctx: &Ctx, cap: usize, seq: &mut Vec<usize>, depth: usize, n: &mut u64, t: &mut u64) {
            if ctx.stopped() {
                return;
            }
            if seq.len() == depth {
                *n += 1;
                let c = NonceCacheBicrypter::new(Pass, cap);
                let c2 = c.clone();
                let mut m = Model { cap, recent: vec![], used: vec![false; 4] };
                for (i, op) in seq.iter().enumerate() {
                    *t += 1;
                    let (k, e) = (op % 4, op / 4 == 0);
                    // odd positions go through a clone, which shares the memory
                    let c = if i % 2 == 0 { &c } else { &c2 };
                    let r = if e { c.encrypt(b"x", &nonce(k)) } else { c.decrypt(b"x", &nonce(k)) };
                    let must_refuse = m.cap > 0 && m.recent.iter().rev().take(m.cap).any(|x| *x == k);
                    let must_accept = !m.used[k] || m.cap == 0;
                    let refused = matches!(r, Err(CryptError::NonceAlreadyUsed { .. }));
                    let bad = if must_refuse && !refused {
                        Some("a remembered nonce was accepted again")
                    } else if must_accept && r.is_err() {
                        Some("a fresh nonce was refused")
                    } else if r.is_err() && !refused {
                        Some("unexpected error")
                    } else {
                        None
                    };
                    if let Some(b) = bad {
                        ctx.violation(&b.replace(' ', "-"), &format!("{}: capacity {} uses {:?} at step {}", b, cap, &seq[..=i], i), json!({"capacity": cap, "uses(0-3 encrypt, 4-7 decrypt)": seq[..=i]}));
                        return;
                    }
                    if r.is_ok() {
                        m.used[k] = true;
                        m.recent.retain(|x| *x != k);
                        m.recent.push(k);
                    }
                }
                return;
            }
            for o in 0..8 {
                seq.push(o);
                go(ctx, cap, seq, depth, n, t);
                seq.pop();
            }
        }
        go(ctx, *cap, &mut seq, depth, &mut n, &mut t);
        ctx.traces.fetch_add(n, Ordering::Relaxed);
        ctx.transitions.fetch_add(t, Ordering::Relaxed);
        ctx.states.fetch_add(n, Ordering::Relaxed);
        ctx.outcome_n(&format!("sequential histories, capacity {}", cap), n);
    });
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Enc(usize),
    Dec(usize),
}
impl Op {
    fn n(&self) -> usize {
        match self {
            Op::Enc(n) | Op::Dec(n) => *n,
        }
    }
}
fn apply(c: &dyn AnyCrypt, op: Op, text: &[u8]) -> bool {
    match op {
        Op::Enc(n) => c.encrypt(text, &nonce(n)).is_ok(),
        Op::Dec(n) => c.decrypt(text, &nonce(n)).is_ok(),
    }
}

fn threads(ctx: &Ctx) {
    preempt::install();
    let mut items = vec![];
    // (capacity, used before, A's uses, B's uses)
    let e = Op::Enc;
    let d = Op::Dec;
    for cap in [1usize, 2, 8] {
        items.push((cap, vec![], vec![e(0)], vec![e(0)]));
        items.push((cap, vec![], vec![d(0)], vec![d(0)]));
        items.push((cap, vec![], vec![e(0)], vec![d(0)]));
        items.push((cap, vec![], vec![d(0)], vec![e(0)]));
        items.push((cap, vec![], vec![e(0)], vec![e(1)]));
        items.push((cap, vec![e(0)], vec![d(0)], vec![d(1)]));
        items.push((cap, vec![e(2)], vec![d(0)], vec![d(0), d(0)]));
    }
    items.push((2, vec![e(1), e(2)], vec![d(0)], vec![d(0)]));
    items.push((3, vec![e(1)], vec![d(0), d(2)], vec![d(2), d(0)]));
    if !ctx.quick() {
        items.push((2, vec![], vec![d(0), d(0)], vec![d(0)]));
        items.push((4, vec![e(3)], vec![d(0), d(1)], vec![d(1), d(0), d(1)]));
        items.push((1, vec![e(3)], vec![d(0)], vec![d(0)]));
    }
    let mut jobs = vec![];
    for it in &items {
        for real in [false] {
            jobs.push((it.clone(), real));
        }
    }
    par_items(ctx, &jobs, |ctx, _, ((cap, before, a, b), real)| {
        let base = if *real { crypt(CryptKind::Gcm256, 3) } else { DynCrypt(Arc::new(Pass)) };
        // decryption needs a genuine ciphertext per nonce
        let texts: Vec<Vec<u8>> = (0..4).map(|n| if *real && n < 3 { base.encrypt(b"text", &nonce(n)).unwrap() } else { b"text".to_vec() }).collect();
        let one = |k: usize| {
            let c: Arc<dyn AnyCrypt> = Arc::new(NonceCacheBicrypter::new(base.clone(), *cap));
            for o in before {
                apply(&*c, *o, &texts[o.n()]);
            }
            let (ca, cb) = (Arc::clone(&c), Arc::clone(&c));
            let r = preempt::run(
                k,
                || a.iter().map(|o| apply(&*ca, *o, &texts[o.n()])).collect::<Vec<_>>(),
                || b.iter().map(|o| apply(&*cb, *o, &texts[o.n()])).collect::<Vec<_>>(),
            );
            let mut acc = [0usize; 4];
            for (o, ok) in a.iter().zip(&r.a).chain(b.iter().zip(&r.b)) {
                if *ok {
                    acc[o.n()] += 1;
                }
            }
            let show = || json!({"capacity": cap, "used_before": format!("{:?}", before), "A": format!("{:?}", a), "B": format!("{:?}", b), "B_runs_after_instruction": k, "A_accepted": r.a, "B_accepted": r.b});
            let distinct: std::collections::HashSet<usize> = a.iter().chain(b.iter()).map(|o| o.n()).collect();
            for n in distinct.iter() {
                let pre = before.iter().any(|o| o.n() == *n);
                // fewer distinct nonces in play than the capacity: all of them stay remembered
                let remembered = distinct.len() + before.iter().filter(|o| !distinct.contains(&o.n())).count() <= *cap || distinct.len() == 1;
                if remembered && acc[*n] > 1 - (pre && acc[*n] > 0 && before.len() <= *cap) as usize {
                    ctx.violation("concurrent-uses-accepted", &format!("nonce {} accepted {} times by concurrent uses: capacity {} A {:?} B {:?} preempted at instruction {}", n, acc[*n], cap, a, b, k), show());
                }
                if !pre && acc[*n] == 0 {
                    ctx.violation("concurrent-fresh-refused", &format!("fresh nonce {} refused to all: capacity {} A {:?} B {:?} at {}", n, cap, a, b, k), show());
                }
            }
            // afterwards every nonce that must be remembered is refused
            if distinct.len() == 1 {
                let n = *distinct.iter().next().unwrap();
                if apply(&*c, Op::Enc(n), &texts[n]) {
                    ctx.violation("forgotten-after-concurrent-use", &format!("nonce {} accepted after concurrent uses: capacity {} at {}", n, cap, k), show());
                }
            }
            ctx.outcome(&format!("A {:?} B {:?}{}", r.a, r.b, if r.b_blocked { " (B blocked)" } else { "" }));
            r
        };
        let total = one(usize::MAX).steps;
        ctx.traces.fetch_add(1, Ordering::Relaxed);
        let mut n = 0u64;
        for k in 1..=total {
            if ctx.stopped() {
                break;
            }
            one(k);
            n += 1;
        }
        ctx.traces.fetch_add(n, Ordering::Relaxed);
        ctx.transitions.fetch_add(n, Ordering::Relaxed);
        ctx.states.fetch_add(n, Ordering::Relaxed);
        ctx.outcome_n("preemption points explored", n);
        if ctx.wants_sample() {
            ctx.sample(json!({"capacity": cap, "A": format!("{:?}", a), "B": format!("{:?}", b), "instructions_of_A": total}));
        }
    });
}

pub fn run(ctx: &Ctx) -> i32 {
    sequential(ctx);
    threads(ctx);
    ctx.finish(
        "model_checking",
        "sequential: every sequence of encrypt/decrypt uses of 4 nonces up to the depth, capacities 0-4, against the set of the N most recently used nonces. Concurrent: two threads share one protected cipher; thread A is single-stepped and preempted after every single instruction (outside the allocator), there B runs until it is done or blocks; every such execution is checked. states/transitions count executions and operations run.",
        true,
        &["concurrent part: one preemption of A per execution (both roles are enumerated by the scenarios)", "x86-64 total store order; memory reorderings are not explored"],
    )
}
