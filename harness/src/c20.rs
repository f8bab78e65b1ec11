//! C20: delimiter framing, for all splits of reads and writes.
use crate::core::*;
use over_there::utils::{DelimiterReader, DelimiterWriter};
use serde_json::json;
use std::future::Future;
use std::io;
use std::sync::atomic::Ordering;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

fn noop_waker() -> Waker {
    fn c(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &VT)
    }
    fn n(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(c, n, n, n);
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}
pub fn block_now<F: Future>(f: F) -> F::Output {
    let w = noop_waker();
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Plain,
    /// every underlying read is preceded by a failing one
    Errors(io::ErrorKind),
    Async,
}

/// The delimiter's first occurrence in message+delimiter is at the end.
fn framable(m: &[u8], d: &[u8]) -> bool {
    let mut s = m.to_vec();
    s.extend_from_slice(d);
    (0..m.len()).all(|i| &s[i..i + d.len()] != d)
}
fn words(alpha: &[u8], lo: usize, hi: usize) -> Vec<Vec<u8>> {
    let mut all: Vec<Vec<u8>> = vec![];
    let mut cur: Vec<Vec<u8>> = vec![vec![]];
    for l in 0..=hi {
        if l >= lo {
            all.extend(cur.iter().cloned());
        }
        cur = cur.iter().flat_map(|w| alpha.iter().map(move |a| { let mut w = w.clone(); w.push(*a); w })).collect();
    }
    all
}

struct Exec<'a> {
    ctx: &'a Ctx,
    msgs: &'a [&'a [u8]],
    delim: &'a [u8],
    max: usize,
    stream: Vec<u8>,
    expect: Vec<Vec<u8>>,
}
impl<'a> Exec<'a> {
    /// `cuts` bit i set: an underlying read ends after stream byte i.
    fn run(&self, cuts: u64, mode: Mode, exact_dest: bool) -> u64 {
        let n = self.stream.len();
        let mut r = DelimiterReader::new_with_delimiter(self.max, self.delim);
        let mut off = 0;
        let mut got = 0usize;
        let mut reads = 0u64;
        let mut idle = 0;
        let mut err_next = true;
        let mut dest = [0u8; 64];
        while got < self.expect.len() {
            let dl = if exact_dest { self.expect[got].len() } else { self.max.max(1) };
            let fail = match mode {
                Mode::Errors(k) if err_next => Some(k),
                _ => None,
            };
            err_next = !err_next;
            let mut f = |b: &mut [u8]| -> io::Result<usize> {
                if let Some(k) = fail {
                    return Err(k.into());
                }
                let mut l = 0;
                while l < b.len() && off < n {
                    b[l] = self.stream[off];
                    l += 1;
                    off += 1;
                    if cuts >> (off - 1) & 1 == 1 {
                        break;
                    }
                }
                Ok(l)
            };
            let res = match mode {
                Mode::Async => block_now(r.async_read(&mut dest[..dl], |b| std::future::ready(f(b)))),
                _ => r.read(&mut dest[..dl], f),
            };
            reads += 1;
            match res {
                Ok(0) => {
                    if off == n {
                        idle += 1;
                    }
                }
                Ok(s) => {
                    idle = 0;
                    if s > dl || dest[..s] != self.expect[got][..] {
                        self.bad("content", cuts, mode, &format!("message {} read back as {:?}", got, &dest[..s.min(dl)]));
                        return reads;
                    }
                    got += 1;
                }
                Err(e) => match fail {
                    Some(k) if e.kind() == k => {
                        if off == n {
                            idle += 1;
                        }
                    }
                    _ => {
                        self.bad("error", cuts, mode, &format!("reading message {} failed: {}", got, e));
                        return reads;
                    }
                },
            }
            if idle > 4 {
                self.bad("lost", cuts, mode, &format!("message {} was never read back", got));
                return reads;
            }
        }
        // nothing more comes out
        for _ in 0..2 {
            let mut o = [0u8; 64];
            match r.read(&mut o[..self.max.max(1)], |_| Ok(0)) {
                Ok(0) => (),
                x => {
                    self.bad("extra", cuts, mode, &format!("after all messages the reader produced {:?}", x));
                    return reads;
                }
            }
        }
        reads
    }
    fn bad(&self, key: &str, cuts: u64, mode: Mode, what: &str) {
        self.ctx.violation(
            &format!("read:{}", key),
            what,
            json!({"messages": self.msgs.iter().map(|m| String::from_utf8_lossy(m).to_string()).collect::<Vec<_>>(), "delimiter": String::from_utf8_lossy(self.delim), "max_data_size": self.max, "reads_end_after_bytes": (0..self.stream.len()).filter(|i| cuts >> i & 1 == 1).collect::<Vec<_>>(), "mode": format!("{:?}", mode)}),
        );
    }
}

fn explore(ctx: &Ctx, msgs: &[&[u8]], delim: &[u8], max: usize, full_modes: bool) {
    let mut stream = vec![];
    for m in msgs {
        stream.extend_from_slice(m);
        stream.extend_from_slice(delim);
    }
    // a longer message arrives as its last `max` bytes
    let expect: Vec<Vec<u8>> = msgs.iter().map(|m| m[m.len().saturating_sub(max)..].to_vec()).collect();
    let n = stream.len();
    let e = Exec { ctx, msgs, delim, max, stream, expect };
    last_case(|| json!({"messages": msgs.iter().map(|m| String::from_utf8_lossy(m).to_string()).collect::<Vec<_>>(), "delimiter": String::from_utf8_lossy(delim), "max": max}).to_string());
    let mut reads = 0;
    let mut execs = 0;
    for cuts in 0..1u64 << (n - 1) {
        reads += e.run(cuts, Mode::Plain, false);
        execs += 1;
        if full_modes {
            reads += e.run(cuts, Mode::Plain, true);
            reads += e.run(cuts, Mode::Async, false);
            reads += e.run(cuts, Mode::Errors(io::ErrorKind::WouldBlock), true);
            execs += 3;
        } else {
            // the other modes in turn
            match cuts % 3 {
                0 => reads += e.run(cuts, Mode::Async, true),
                1 => reads += e.run(cuts, Mode::Errors(io::ErrorKind::Interrupted), false),
                _ => reads += e.run(cuts, Mode::Errors(io::ErrorKind::WouldBlock), true),
            }
            execs += 1;
        }
        if ctx.violated() {
            break;
        }
    }
    ctx.states.fetch_add(execs, Ordering::Relaxed);
    ctx.traces.fetch_add(execs, Ordering::Relaxed);
    ctx.transitions.fetch_add(reads, Ordering::Relaxed);
}

/// Every way a destination can accept the bytes of a write piecemeal.
fn explore_writes(ctx: &Ctx, m: &[u8], delim: &[u8]) {
    let total = m.len() + delim.len();
    for cuts in 0..1u64 << (total - 1) {
        for interrupts in [false, true] {
            let mut out: Vec<u8> = vec![];
            let mut w = DelimiterWriter::new_with_delimiter(delim);
            let mut flip = false;
            let mut calls = 0;
            let r = w.write(m, |b| {
                calls += 1;
                if calls > 200 {
                    return Err(io::ErrorKind::Other.into());
                }
                flip = !flip;
                if interrupts && flip {
                    return Err(io::ErrorKind::Interrupted.into());
                }
                let mut l = 0;
                while l < b.len() {
                    out.push(b[l]);
                    l += 1;
                    if cuts >> (out.len() - 1) & 1 == 1 {
                        break;
                    }
                }
                Ok(l)
            });
            ctx.transitions.fetch_add(calls, Ordering::Relaxed);
            ctx.states.fetch_add(1, Ordering::Relaxed);
            let mut want = m.to_vec();
            want.extend_from_slice(delim);
            let case = || json!({"message": String::from_utf8_lossy(m), "delimiter": String::from_utf8_lossy(delim), "writes_accept_up_to": (0..total).filter(|i| cuts >> i & 1 == 1).collect::<Vec<_>>(), "interrupted": interrupts});
            match r {
                Ok(n) if n == m.len() && out == want => (),
                // passing an interruption on is allowed
                Err(e) if interrupts && e.kind() == io::ErrorKind::Interrupted => (),
                Ok(n) => ctx.violation("write:content", &format!("the writer reported {} and wrote {:?}", n, String::from_utf8_lossy(&out)), case()),
                Err(e) => ctx.violation("write:error", &format!("the writer failed ({}) though every write was accepted in part", e), case()),
            }
        }
    }
    // a destination that accepts nothing or fails is reported
    for at in 0..total {
        for zero in [false, true] {
            let mut out = 0;
            let mut calls = 0;
            let mut w = DelimiterWriter::new_with_delimiter(delim);
            let r = w.write(m, |b| {
                calls += 1;
                if b.is_empty() {
                    return Ok(0);
                }
                if out >= at {
                    if zero && calls < 1000 {
                        return Ok(0);
                    }
                    return Err(io::ErrorKind::BrokenPipe.into());
                }
                let l = b.len().min(at - out);
                out += l;
                Ok(l)
            });
            ctx.states.fetch_add(1, Ordering::Relaxed);
            if let Ok(n) = r {
                ctx.violation("write:false-success", &format!("the writer reported {} bytes written although only {} of {} were accepted", n, out, total), json!({"message": String::from_utf8_lossy(m), "delimiter": String::from_utf8_lossy(delim), "accepted": at, "then": if zero { "accepts nothing" } else { "fails" }}));
            }
        }
    }
}

pub fn run(ctx: &Ctx) -> i32 {
    let delims: &[&[u8]] = &[b"a", b"ab", b"aa", b"aab", b"aba", b"abc", b"</>", b"aabaa"];
    #[derive(Clone)]
    struct Item {
        delim: &'static [u8],
        first: Vec<u8>,
    }
    let mut items = vec![];
    for d in delims {
        let alpha: &[u8] = if *d == b"</>" { b"<x>" } else { b"abc" };
        for m in words(alpha, 1, ctx.pick(4, 6)) {
            if framable(&m, d) {
                items.push(Item { delim: d, first: m });
            }
        }
    }
    par_items(ctx, &items, |ctx, _, it| {
        let d = it.delim;
        let alpha: &[u8] = if d == b"</>" { b"<x>" } else { b"abc" };
        explore_writes(ctx, &it.first, d);
        let budget = ctx.pick(11, 14);
        // alone, with every buffer size down to truncation
        for max in 1..=it.first.len() + 3 {
            explore(ctx, &[&it.first], d, max, true);
            ctx.outcome("single messages");
        }
        // followed by others
        for m2 in words(alpha, 1, ctx.pick(3, 4)) {
            if !framable(&m2, d) || it.first.len() + m2.len() + 2 * d.len() > budget {
                continue;
            }
            let l = it.first.len().max(m2.len());
            for max in [1, l - 1, l, l + 1, l + d.len(), 2 * (l + d.len())] {
                if max == 0 || (ctx.quick() && max < l && m2.len() > 2) {
                    continue;
                }
                explore(ctx, &[&it.first, &m2], d, max, false);
                ctx.outcome("pairs of messages");
            }
            for m3 in words(&alpha[..2], 1, 2) {
                if !framable(&m3, d) || it.first.len() + m2.len() + m3.len() + 3 * d.len() > budget {
                    continue;
                }
                let l = l.max(m3.len());
                for max in [l, l + 1, 3 * (l + d.len())] {
                    explore(ctx, &[&it.first, &m2, &m3], d, max, false);
                    ctx.outcome("triples of messages");
                }
            }
            if ctx.stopped() {
                return;
            }
        }
        if ctx.wants_sample() {
            ctx.sample(json!({"message": String::from_utf8_lossy(&it.first), "delimiter": String::from_utf8_lossy(d)}));
        }
    });
    ctx.finish(
        "model_checking",
        "for each delimiter (incl. self-overlapping ones) every message sequence within bounds x reader sizes x every way of cutting the stream into reads (all 2^(n-1)), with and without failing reads in between, blocking and async; every way of accepting a write piecemeal or failing at any byte. states = executions, transitions = underlying reads and writes.",
        true,
        &["messages in which the delimiter does not occur, not even together with the beginning of the following delimiter"],
    )
}
