//! C18: payloads over TCP arrive exactly once, in order and unchanged however
//! the byte stream is cut up on its way.
use crate::core::*;
use crate::interpose::*;
use crate::rig::real_now;
use crate::wires::*;
use over_there::core::transport::Wire;
use serde_json::json;
use std::cell::RefCell;
use std::future::Future;
use std::io::Write;
use std::os::unix::io::AsRawFd;
use std::sync::atomic::Ordering;
use std::task::Poll;
use std::time::Duration;
use tokio::net::TcpStream;

type Bad = (&'static str, String);
const TTL: Duration = Duration::from_secs(100_000);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Mode {
    /// everything is there; the reads get what the plan says
    Reads,
    /// segments arrive one by one, the reader waits in between
    Arrivals,
    /// the same, and the reader stops waiting and starts again
    Restarts,
    /// the sender's writes are accepted in the planned pieces
    Writes,
}
use Mode::*;
#[derive(Clone, Copy, Debug, PartialEq)]
struct Setup {
    auth: AuthKind,
    crypt: CryptKind,
    size: usize,
    lens: &'static [usize],
}
struct Made {
    payloads: Vec<Vec<u8>>,
    /// bytes on the stream and where each packet ends
    bytes: Vec<u8>,
    ends: Vec<usize>,
}
fn make(s: &Setup) -> Made {
    let (_, mut o) = pair(s.size, TTL, auth(s.auth, 3), crypt(s.crypt, 5));
    let payloads: Vec<Vec<u8>> = s.lens.iter().enumerate().map(|(i, l)| payload(i as u8 + 1, *l)).collect();
    let (mut bytes, mut ends) = (vec![], vec![]);
    for p in &payloads {
        for b in o.process(p).expect("packets") {
            bytes.extend_from_slice(&b);
            ends.push(bytes.len());
        }
    }
    Made { payloads, bytes, ends }
}
thread_local! {
    static RT: RefCell<Option<(tokio::runtime::Runtime, std::net::TcpListener)>> = const { RefCell::new(None) };
}
fn with<R>(f: impl FnOnce(&mut tokio::runtime::Runtime, &std::net::TcpListener) -> R) -> R {
    RT.with(|x| {
        let mut x = x.borrow_mut();
        if x.is_none() {
            let rt = tokio::runtime::Builder::new().basic_scheduler().enable_all().max_threads(2).build().unwrap();
            *x = Some((rt, std::net::TcpListener::bind("127.0.0.1:0").unwrap()));
        }
        let (rt, l) = x.as_mut().unwrap();
        f(rt, l)
    })
}
fn connected(l: &std::net::TcpListener) -> (std::net::TcpStream, std::net::TcpStream) {
    let a = std::net::TcpStream::connect(l.local_addr().unwrap()).unwrap();
    let (b, _) = l.accept().unwrap();
    for s in [&a, &b] {
        s.set_nodelay(true).unwrap();
        // do not leave the port behind
        let g = libc::linger { l_onoff: 1, l_linger: 0 };
        unsafe { libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &g as *const _ as *const _, std::mem::size_of::<libc::linger>() as u32) };
    }
    (a, b)
}
fn unread(fd: i32) -> usize {
    let mut k: libc::c_int = 0;
    unsafe { libc::ioctl(fd, libc::FIONREAD, &mut k) };
    k as usize
}
struct Got {
    all: Vec<Vec<u8>>,
    error: Option<String>,
}
fn judge(want: &[Vec<u8>], got: &Got, finished: bool) -> Result<(), Bad> {
    if let Some(e) = &got.error {
        return Err(("error", format!("after {} of {} payloads the receiver reports {}", got.all.len(), want.len(), e)));
    }
    for (i, p) in got.all.iter().enumerate() {
        if want.get(i) != Some(p) {
            let which = want.iter().position(|w| w == p);
            return Err(("payload", format!("payload {} of {} is not what was sent ({} bytes, equal to payload {:?})", i, want.len(), p.len(), which)));
        }
    }
    if finished && got.all.len() < want.len() {
        return Err(("lost", format!("only {} of {} payloads were received", got.all.len(), want.len())));
    }
    Ok(())
}
fn run_case(s: &Setup, m: &Made, mode: Mode, pieces: &[usize], deep: bool) -> Result<(), Bad> {
    with(|rt, l| {
        let (a, b) = connected(l);
        let (afd, bfd) = (a.as_raw_fd(), b.as_raw_fd());
        let r = rt.block_on(async {
            let addr = a.local_addr().unwrap();
            let w = || Wire::new(s.size, TTL, auth(s.auth, 3), crypt(s.crypt, 5));
            let (mut reader, _bw) = w().with_tcp_stream(TcpStream::from_std(b).unwrap(), addr).arc_split();
            let mut got = Got { all: vec![], error: None };
            // receive until nothing more is there
            macro_rules! drain {
                ($restart:expr) => {{
                    let mut fut = Box::pin(reader.read());
                    let mut idle = 0;
                    loop {
                        match futures::poll!(fut.as_mut()) {
                            Poll::Ready(x) => {
                                idle = 0;
                                match x {
                                    Ok((Some(p), _)) => got.all.push(p),
                                    Ok((None, _)) => (),
                                    Err(e) => {
                                        got.error = Some(format!("{:?}", e));
                                        break;
                                    }
                                }
                                fut = { drop(fut); Box::pin(reader.read()) };
                            }
                            Poll::Pending => {
                                if $restart {
                                    fut = { drop(fut); Box::pin(reader.read()) };
                                }
                                tokio::task::yield_now().await;
                                if unread(bfd) == 0 {
                                    idle += 1;
                                    if idle > 4 {
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }};
            }
            match mode {
                Reads => {
                    let mut a = a;
                    a.write_all(&m.bytes).unwrap();
                    script_fd(bfd, IoScript { reads: pieces.iter().map(|n| IoStep::Max(*n)).collect(), ..Default::default() });
                    drain!(false);
                    unscript_fd(bfd);
                    judge(&m.payloads, &got, true)?;
                }
                Arrivals | Restarts => {
                    let mut a = a;
                    let mut at = 0usize;
                    for n in pieces.iter().copied().chain(std::iter::once(usize::MAX)) {
                        let end = m.bytes.len().min(at.saturating_add(n));
                        a.write_all(&m.bytes[at..end]).unwrap();
                        at = end;
                        drain!(mode == Restarts);
                        judge(&m.payloads, &got, at == m.bytes.len())?;
                        if at == m.bytes.len() {
                            break;
                        }
                    }
                }
                Writes => {
                    if deep {
                        let n: libc::c_int = 4096;
                        unsafe { libc::setsockopt(afd, libc::SOL_SOCKET, libc::SO_SNDBUF, &n as *const _ as *const _, 4) };
                    }
                    let (_ar, mut writer) = w().with_tcp_stream(TcpStream::from_std(a).unwrap(), addr).arc_split();
                    script_fd(afd, IoScript { writes: pieces.iter().map(|n| IoStep::Max(*n)).collect(), ..Default::default() });
                    for p in &m.payloads {
                        let mut fut = Box::pin(writer.write(p));
                        let t = real_now();
                        loop {
                            match futures::poll!(fut.as_mut()) {
                                Poll::Ready(Ok(())) => break,
                                Poll::Ready(Err(e)) => {
                                    unscript_fd(afd);
                                    return Err(("send", format!("sending reports {:?}", e)));
                                }
                                Poll::Pending => {
                                    tokio::task::yield_now().await;
                                    drain!(false);
                                    if got.error.is_some() || real_now() - t > Duration::from_secs(5) {
                                        break;
                                    }
                                }
                            }
                        }
                    }
                    unscript_fd(afd);
                    drain!(false);
                    judge(&m.payloads, &got, true)?;
                }
            }
            Ok(())
        });
        unscript_fd(afd);
        unscript_fd(bfd);
        r
    })
}
/// Both ends send and receive at once over one connection, in pieces.
fn duplex(s: &Setup, reads: &[usize], writes: &[usize]) -> Result<(), Bad> {
    with(|rt, l| {
        let (a, b) = connected(l);
        let fds = [a.as_raw_fd(), b.as_raw_fd()];
        let r = rt.block_on(async {
            let addr = a.local_addr().unwrap();
            let w = || Wire::new(s.size, TTL, auth(s.auth, 3), crypt(s.crypt, 5));
            let (mut ar, mut aw) = w().with_tcp_stream(TcpStream::from_std(a).unwrap(), addr).arc_split();
            let (mut br, mut bw) = w().with_tcp_stream(TcpStream::from_std(b).unwrap(), addr).arc_split();
            for fd in fds {
                script_fd(fd, IoScript { reads: reads.iter().map(|n| IoStep::Max(*n)).collect(), writes: writes.iter().map(|n| IoStep::Max(*n)).collect(), ..Default::default() });
            }
            let to_b: Vec<Vec<u8>> = s.lens.iter().enumerate().map(|(i, l)| payload(i as u8 + 1, *l)).collect();
            let to_a: Vec<Vec<u8>> = s.lens.iter().enumerate().map(|(i, l)| payload(i as u8 + 101, *l + 1)).collect();
            let send = async {
                for (x, y) in to_b.iter().zip(&to_a) {
                    let (p, q) = futures::future::join(aw.write(x), bw.write(y)).await;
                    if p.is_err() || q.is_err() {
                        return Err(("send", format!("sending reports {:?} {:?}", p, q)));
                    }
                }
                Ok(())
            };
            async fn take<V: over_there::core::transport::Verifier, D: over_there::core::transport::Decrypter>(r: &mut over_there::core::transport::TcpStreamInboundWire<V, D>, n: usize) -> Got {
                let mut got = Got { all: vec![], error: None };
                while got.all.len() < n {
                    match r.read().await {
                        Ok((Some(p), _)) => got.all.push(p),
                        Ok((None, _)) => (),
                        Err(e) => {
                            got.error = Some(format!("{:?}", e));
                            break;
                        }
                    }
                }
                got
            }
            let all = futures::future::join3(send, take(&mut ar, to_a.len()), take(&mut br, to_b.len()));
            match crate::rig::real_timeout(Duration::from_secs(4), all).await {
                None => Err(("lost", "not all payloads arrive".to_string())),
                Some((s, x, y)) => s.and_then(|_| judge(&to_a, &x, true)).and_then(|_| judge(&to_b, &y, true)),
            }
        });
        for fd in fds {
            unscript_fd(fd);
        }
        r
    })
}
fn one(ctx: &Ctx, s: &Setup, m: &Made, mode: Mode, pieces: &[usize], deep: bool) {
    last_case(|| format!("{:?} {:?} {:?}", s, mode, pieces));
    ctx.traces.fetch_add(1, Ordering::Relaxed);
    ctx.states.fetch_add(1, Ordering::Relaxed);
    ctx.transitions.fetch_add(pieces.len() as u64 + 1, Ordering::Relaxed);
    if let Err(b) = run_case(s, m, mode, pieces, deep) {
        ctx.violation(b.0, &b.1, json!({"setup": format!("{:?}", s), "mode": format!("{:?}", mode), "pieces": pieces, "packet_ends": m.ends}));
    }
}
/// All ways to cut `n` bytes at up to `k` places, as sizes of the pieces.
fn cuts(n: usize, k: usize, first: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    if k == 0 {
        return out;
    }
    for c in first..n {
        for mut rest in cuts(n, k - 1, c + 1) {
            let mut v = vec![c];
            v.append(&mut rest);
            out.push(v);
        }
    }
    out
}
fn sizes(positions: &[usize]) -> Vec<usize> {
    let mut at = 0;
    positions
        .iter()
        .map(|p| {
            let n = p - at;
            at = *p;
            n
        })
        .collect()
}
pub fn run(ctx: &Ctx) -> i32 {
    use AuthKind as A;
    use CryptKind as C;
    let tiny = Setup { auth: A::Noop, crypt: C::Noop, size: 90, lens: &[3, 1] };
    let small = Setup { auth: A::Noop, crypt: C::Noop, size: 90, lens: &[2, 70, 0, 4] };
    let full = Setup { auth: A::Sha256, crypt: C::Gcm256, size: 300, lens: &[5, 60] };
    let real = Setup { auth: A::Sha512, crypt: C::GcmSiv128, size: 1500, lens: &[10, 3000, 1] };
    let sha = Setup { auth: A::Sha256, crypt: C::Noop, size: 1500, lens: &[1400, 1400] };
    // every set of up to k cuts
    for (s, k, modes) in [
        (tiny, 3, ctx.pick(vec![Reads, Arrivals], vec![Reads, Arrivals, Restarts])),
        (small, 2, vec![Reads, Arrivals, Restarts]),
        (if ctx.quick() { tiny } else { small }, ctx.pick(1, 3), vec![Reads]),
        (full, ctx.pick(1, 2), vec![Reads, Arrivals, Restarts]),
        (real, 1, vec![Reads, Arrivals]),
        (sha, 1, vec![Reads, Arrivals]),
    ] {
        let m = make(&s);
        let all = cuts(m.bytes.len(), k, 1);
        ctx.note(&format!("segmentations_{}_{}", s.size, s.lens.len()), (all.len() * modes.len()) as u64);
        ctx.note(&format!("stream_{}_{}", s.size, s.lens.len()), json!({"bytes": m.bytes.len(), "packets": m.ends.len()}));
        for mode in modes {
            par_items(ctx, &all, |ctx, i, c| {
                one(ctx, &s, &m, mode, &sizes(c), false);
                if i % 4001 == 3 && ctx.wants_sample() {
                    ctx.sample(json!({"setup": format!("{:?}", s), "mode": format!("{:?}", mode), "cuts": c}));
                }
            });
        }
    }
    // every subset of the boundaries between packets, each off by -1, 0, 1
    let m = make(&small);
    let inner = &m.ends[..m.ends.len() - 1];
    let mut near: Vec<Vec<usize>> = vec![vec![]];
    for e in inner.iter().take(6) {
        near = near.into_iter().flat_map(|p| {
            let mut v = vec![p.clone()];
            for d in [e - 1, *e, e + 1] {
                let mut q = p.clone();
                q.push(d);
                v.push(q);
            }
            v
        }).collect();
    }
    ctx.note("segmentations_at_packet_boundaries", near.len() as u64 * 2);
    for mode in [Reads, Arrivals] {
        par_items(ctx, &near, |ctx, _, c| one(ctx, &small, &m, mode, &sizes(c), false));
    }
    // pieces of one size, and alternating ones
    for s in [tiny, small, full, real, sha] {
        let m = make(&s);
        let n = m.bytes.len();
        let mut even: Vec<Vec<usize>> = (1..=n.min(1600)).map(|k| vec![k; n / k + 1]).collect();
        for a in [1, 2, s.size / 2, s.size - 1, s.size] {
            for b in [1, 3, s.size, s.size + 1, 2 * s.size] {
                even.push((0..n).scan(0, |at, i| { *at += if i % 2 == 0 { a } else { b }; if *at < n + a + b { Some(if i % 2 == 0 { a } else { b }) } else { None } }).collect());
            }
        }
        for mode in [Reads, Arrivals, Restarts] {
            par_items(ctx, &even, |ctx, _, p| one(ctx, &s, &m, mode, p, false));
        }
    }
    // the sender's writes accepted in pieces
    for (s, k, top) in [(tiny, 3, 24), (small, ctx.pick(3, 4), 12), (full, 2, 200), (real, 1, 1500)] {
        let m = make(&s);
        let choices: Vec<usize> = (1..=top).collect();
        let mut all: Vec<Vec<usize>> = choices.iter().map(|c| vec![*c; 4000 / c]).collect();
        let mut level: Vec<Vec<usize>> = vec![vec![]];
        for _ in 0..k {
            level = level.into_iter().flat_map(|p| choices.iter().map(move |c| { let mut q = p.clone(); q.push(*c); q })).collect();
            all.extend(level.iter().cloned());
        }
        ctx.note(&format!("partial_writes_{}_{}", s.size, s.lens.len()), all.len() as u64);
        par_items(ctx, &all, |ctx, _, p| one(ctx, &s, &m, Writes, p, false));
    }
    // more than the kernel takes at once
    let big = Setup { auth: A::Noop, crypt: C::Noop, size: 1500, lens: &[30_000, 5, 60_000] };
    let m = make(&big);
    let firsts: Vec<Vec<usize>> = (0..ctx.pick(60, 700)).map(|i| if i == 0 { vec![] } else { vec![i * 2 + 1; 3] }).collect();
    par_items(ctx, &firsts, |ctx, _, p| one(ctx, &big, &m, Writes, p, true));
    // both directions at once
    let plans: Vec<(usize, usize)> = (1..=ctx.pick(40, 130)).flat_map(|r| (1..=ctx.pick(40, 130)).map(move |w| (r, w))).collect();
    for s in [small, full] {
        par_items(ctx, &plans, |ctx, _, (r, w)| {
            last_case(|| format!("duplex {:?} {} {}", s, r, w));
            ctx.traces.fetch_add(1, Ordering::Relaxed);
            ctx.states.fetch_add(1, Ordering::Relaxed);
            if let Err(b) = duplex(&s, &vec![*r; 3000 / r], &vec![*w; 3000 / w]) {
                ctx.violation(b.0, &b.1, json!({"setup": format!("{:?}", s), "reads_of": r, "writes_of": w}));
            }
        });
    }
    // every combination of authentication and encryption
    for a in AUTHS {
        for c in CRYPTS {
            let s = Setup { auth: a, crypt: c, size: 300, lens: &[7, 200, 1] };
            let m = make(&s);
            let all = cuts(m.bytes.len(), 1, 1);
            par_items(ctx, &all, |ctx, _, c| {
                one(ctx, &s, &m, Reads, &sizes(c), false);
                one(ctx, &s, &m, Arrivals, &sizes(c), false);
            });
            one(ctx, &s, &m, Reads, &[], false);
            one(ctx, &s, &m, Writes, &vec![7; 1000], false);
        }
    }
    ctx.finish(
        "model_checking",
        "all segmentations with up to the bound of cuts, all even and boundary-aligned ones, all coalescings, and all short scripts of partially accepted writes, over real loopback connections through the TCP wires; received payloads compared with those sent",
        true,
        &["segment boundaries are set by scripting what each read and write of the socket transfers, or by letting the reader go idle between real segments"],
    )
}
