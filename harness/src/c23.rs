//! C23: Delay, CallbackManager, TtlValue.
use crate::core::*;
use crate::gate;
use over_there::utils::{CallbackManager, Delay, TtlValue};
use serde_json::json;
use std::sync::atomic::{AtomicI64, AtomicU32, Ordering, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// One execution: what happened, for the report.
fn delay_run(ctx: &Ctx, timeout: Duration, c: &mut Chooser, depth: usize, spurious_max: usize) -> Option<&'static str> {
    let t = timeout.as_nanos() as i64;
    let ran = Arc::new(AtomicU32::new(0));
    let ran_at = Arc::new(AtomicI64::new(-1));
    let mut log: Vec<String> = vec![];
    gate::begin();
    let (r2, a2) = (Arc::clone(&ran), Arc::clone(&ran_at));
    let mut delay = Some(Delay::spawn(timeout, move || {
        r2.fetch_add(1, SeqCst);
        a2.store(gate::NOW.load(SeqCst), SeqCst);
        gate::in_function();
    }));
    let mut cancelled_at: Option<i64> = None;
    let mut cancels = 0;
    let mut spurious = 0;
    let mut steps = 0u64;
    let mut verdict: Option<(&str, String)> = None;
    // the times worth stopping at
    let stops: Vec<i64> = {
        let mut v = vec![t / 2, t - 1, t, t + 1, t.saturating_add(t).saturating_add(1000)];
        v.retain(|x| *x > 0);
        v.sort();
        v.dedup();
        v
    };
    loop {
        let st = match gate::settle() {
            Some(s) => s,
            None => {
                verdict = Some(("stuck", "the delay's thread neither waits nor finishes".into()));
                break;
            }
        };
        if st == gate::S_EXITED {
            break;
        }
        steps += 1;
        if steps > 400 {
            verdict = Some(("livelock", "the delay's thread never comes to an end".into()));
            break;
        }
        let now = gate::NOW.load(SeqCst);
        #[derive(Clone, Debug)]
        enum A {
            Resume,
            Spurious,
            Advance(i64),
            Cancel,
            DropIt,
        }
        let mut acts = vec![];
        // beyond the depth everything simply runs to its end
        let free = c.points.len() < depth;
        let runnable = st != gate::S_WAIT || gate::wait_over();
        if runnable {
            acts.push(A::Resume);
        } else if let Some(x) = stops.iter().find(|x| **x >= gate::deadline() && **x > now) {
            // the wait's own end first
            acts.push(A::Advance(*x));
        } else if gate::deadline() < i64::MAX && gate::deadline() > now {
            acts.push(A::Advance(gate::deadline()));
        }
        if free {
            for x in &stops {
                if *x > now && !acts.iter().any(|a| matches!(a, A::Advance(y) if y == x)) {
                    acts.push(A::Advance(*x));
                }
            }
            if !runnable && gate::may_wake_spuriously() && spurious < spurious_max {
                acts.push(A::Spurious);
            }
            if delay.is_some() {
                if cancels < 2 {
                    acts.push(A::Cancel);
                }
                acts.push(A::DropIt);
            }
        }
        if acts.is_empty() {
            verdict = Some(("forever", "the delay's thread waits for something that never happens".into()));
            break;
        }
        let i = if acts.len() == 1 { 0 } else { c.any(acts.len()) };
        log.push(format!("{:?}@{}", acts[i], now));
        match acts[i] {
            A::Resume => gate::resume(),
            A::Spurious => {
                spurious += 1;
                gate::resume()
            }
            A::Advance(x) => gate::NOW.store(x, SeqCst),
            A::Cancel => {
                cancels += 1;
                delay.as_ref().unwrap().cancel();
                if cancelled_at.is_none() {
                    cancelled_at = Some(now);
                }
            }
            A::DropIt => delay = None,
        }
    }
    let stuck = verdict.is_some();
    if stuck {
        // let whatever is left of it run off uncontrolled
        gate::end();
        gate::resume();
    }
    let n = ran.load(SeqCst);
    let at = ran_at.load(SeqCst);
    let mut out = None;
    if verdict.is_none() {
        let early_cancel = cancelled_at.map(|x| x < t).unwrap_or(false);
        if n > 1 {
            verdict = Some(("twice", format!("the function ran {} times", n)));
        } else if n == 1 && at < t {
            verdict = Some(("early", format!("the function ran after {} ns instead of {}", at, t)));
        } else if n == 1 && early_cancel {
            verdict = Some(("after-cancel", format!("the function ran at {} although the delay of {} was cancelled at {:?}", at, t, cancelled_at)));
        } else if n == 0 && cancelled_at.is_none() {
            verdict = Some(("never", "the function never ran although nothing cancelled it".into()));
        }
        out = Some(match (n, cancelled_at.is_some()) {
            (1, false) => "ran",
            (1, true) => "ran, cancelled too late",
            (_, _) => "cancelled",
        });
    }
    gate::end();
    drop(delay);
    if let Some((k, w)) = verdict {
        ctx.violation(&format!("delay:{}", k), &w, json!({"timeout_ns": t, "schedule": log, "choices": c.choices()}));
    }
    ctx.transitions.fetch_add(steps, Ordering::Relaxed);
    out
}

fn delays(ctx: &Ctx) {
    crate::gate::exempt();
    let depth = ctx.pick(7, 9);
    for t in [Duration::from_nanos(0), Duration::from_nanos(1), Duration::from_millis(10), Duration::from_secs(3600)] {
        let n = explore_from(vec![], 0, &|| ctx.violated(), &mut |c| {
            if let Some(o) = delay_run(ctx, t, c, depth, 2) {
                ctx.outcome(o);
            }
            if ctx.wants_sample() && c.points.len() > 5 {
                ctx.sample(json!({"timeout_ns": t.as_nanos() as u64, "choices": c.choices()}));
            }
        });
        ctx.states.fetch_add(n, Ordering::Relaxed);
        ctx.traces.fetch_add(n, Ordering::Relaxed);
    }
}

fn callbacks(ctx: &Ctx) {
    // ops: add(id), invoke(id), take(id) and run, take(id) and drop
    let ids = [0u32, 7, u32::MAX];
    let ops = ids.len() * 4;
    let depth = ctx.pick(5, 6);
    let items: Vec<(usize, usize)> = (0..ops).flat_map(|a| (0..ops).map(move |b| (a, b))).collect();
    par_items(ctx, &items, |ctx, _, (a, b)| {
        let total = ops.pow(depth - 2);
        for code in 0..total {
            let mut seq = vec![*a, *b];
            let mut c = code;
            for _ in 0..depth - 2 {
                seq.push(c % ops);
                c /= ops;
            }
            let mut m: CallbackManager<u32> = CallbackManager::default();
            let calls: Arc<Mutex<Vec<(usize, u32)>>> = Arc::default();
            let mut model: std::collections::HashMap<u32, usize> = Default::default();
            let mut want: Vec<(usize, u32)> = vec![];
            for (i, op) in seq.iter().enumerate() {
                let id = ids[op % 3];
                let input = 100 + i as u32;
                match op / 3 {
                    0 => {
                        let calls = Arc::clone(&calls);
                        m.add_callback(id, move |x| calls.lock().unwrap().push((i, *x)));
                        model.insert(id, i);
                    }
                    1 => {
                        m.invoke_callback(id, &input);
                        if let Some(k) = model.remove(&id) {
                            want.push((k, input));
                        }
                    }
                    2 => {
                        if let Some(f) = m.take_callback(id) {
                            f(&input);
                        }
                        if let Some(k) = model.remove(&id) {
                            want.push((k, input));
                        }
                    }
                    _ => {
                        let got = m.take_callback(id).is_some();
                        if got != model.remove(&id).is_some() {
                            ctx.violation("callback:take", "take_callback disagrees with what is registered", json!({"ops": seq, "at": i}));
                        }
                    }
                }
                let got = calls.lock().unwrap().clone();
                if got != want {
                    ctx.violation("callback:calls", &format!("callbacks invoked (registered by operation, input): {:?}, expected {:?}", got, want), json!({"operations (kind = n/3: add, invoke, take+call, take; id = n%3)": seq, "at": i}));
                    return;
                }
            }
            ctx.transitions.fetch_add(seq.len() as u64, Ordering::Relaxed);
            ctx.states.fetch_add(1, Ordering::Relaxed);
        }
        ctx.outcome_n("callback sequences", total as u64);
    });
}

fn ttls(ctx: &Ctx) {
    let steps: Vec<u64> = vec![0, 1, 499, 500, 999, 1000, 1001, u64::MAX >> 4];
    // ops: advance by steps[i], touch, clone over it
    let n_ops = steps.len() + 2;
    let depth = ctx.pick(5, 6);
    let items: Vec<(u64, usize)> = [0u64, 1, 1000, u64::MAX >> 4].iter().flat_map(|t| (0..n_ops).map(move |o| (*t, o))).collect();
    par_items(ctx, &items, |ctx, _, (ttl, first)| {
        let total = n_ops.pow(depth - 1);
        for code in 0..total {
            let mut seq = vec![*first];
            let mut c = code;
            for _ in 0..depth - 1 {
                seq.push(c % n_ops);
                c /= n_ops;
            }
            let mut now: u64 = 0;
            crate::interpose::freeze_clock();
            let set = |n: u64| crate::interpose::set_clock(Duration::from_nanos(n));
            set(0);
            let mut v = TtlValue::new(5u32, Duration::from_nanos(*ttl));
            let mut touched = 0u64;
            for op in seq.iter() {
                if *op < steps.len() {
                    let n = now.saturating_add(steps[*op]);
                    if n > i64::MAX as u64 / 2 {
                        continue;
                    }
                    now = n;
                    set(now);
                } else if *op == steps.len() {
                    v.touch();
                    touched = now;
                } else {
                    v = v.clone();
                }
                let want = now - touched >= *ttl;
                if v.has_expired() != want || v.value != 5 || v.ttl().as_nanos() as u64 != *ttl {
                    ctx.violation("ttl:expired", &format!("a value with a time-to-live of {} ns last touched {} ns ago reports expired = {}", ttl, now - touched, v.has_expired()), json!({"ttl_ns": ttl, "operations": seq}));
                    crate::interpose::unfreeze_clock();
                    return;
                }
            }
            ctx.transitions.fetch_add(seq.len() as u64, Ordering::Relaxed);
            ctx.states.fetch_add(1, Ordering::Relaxed);
        }
        crate::interpose::unfreeze_clock();
        ctx.outcome_n("ttl sequences", total as u64);
    });
}

pub fn run(ctx: &Ctx) -> i32 {
    callbacks(ctx);
    ttls(ctx);
    delays(ctx);
    ctx.finish(
        "model_checking",
        "Delay: every schedule of the delay's own thread against advancing time, spurious wake-ups (<= 2), cancellations (<= 2) and dropping, decided at each clock read, wait and function entry, to the depth bound; CallbackManager and TtlValue: every operation sequence to the depth bound against a map / a timed model. states = executions, transitions = steps.",
        true,
        &["the delay's thread is interleaved at its clock reads, waits and the function's entry"],
    )
}
