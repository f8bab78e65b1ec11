//! Symbol interposition: the harness binary defines the libc entry points the
//! code under test uses for time, randomness and socket I/O, so the explorer
//! decides what they answer.  Nothing in the code under test is changed.
//!
//! * `clock_gettime(CLOCK_MONOTONIC*)`: real time + a process-wide or
//!   thread-local virtual offset, or a fully frozen virtual clock.
//! * `getrandom` / `syscall(SYS_getrandom)`: deterministic bytes from a seed.
//! * `send`/`recv`/`write`/`read` family on registered fds: partial transfers
//!   chosen by a script.

use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};

// ---------------------------------------------------------------- raw syscalls
#[inline]
pub unsafe fn raw_syscall(
    n: i64,
    a1: i64,
    a2: i64,
    a3: i64,
    a4: i64,
    a5: i64,
    a6: i64,
) -> i64 {
    let ret: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a1,
        in("rsi") a2,
        in("rdx") a3,
        in("r10") a4,
        in("r8") a5,
        in("r9") a6,
        lateout("rcx") _,
        lateout("r11") _,
        options(nostack)
    );
    ret
}

unsafe fn ret_errno(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

// ----------------------------------------------------------------------- clock
/// Nanoseconds added to the monotonic clock for every thread.
static GLOBAL_OFFSET: AtomicI64 = AtomicI64::new(0);

thread_local! {
    /// Some(ns): this thread's monotonic clock is frozen at that value.
    static FROZEN: Cell<Option<i64>> = const { Cell::new(None) };
    static OFFSET: Cell<i64> = const { Cell::new(0) };
}

/// Freeze the calling thread's monotonic clock at an arbitrary base.
pub fn freeze_clock() {
    FROZEN.with(|f| f.set(Some(1_000_000_000_000_000)));
}
/// Set the calling thread's frozen clock to `d` after the base.
pub fn set_clock(d: std::time::Duration) {
    FROZEN.with(|f| f.set(Some(1_000_000_000_000_000 + d.as_nanos() as i64)));
}
pub fn unfreeze_clock() {
    FROZEN.with(|f| f.set(None));
}
/// Advance the calling thread's clock.
pub fn advance_clock(d: std::time::Duration) {
    let ns = d.as_nanos() as i64;
    FROZEN.with(|f| match f.get() {
        Some(v) => f.set(Some(v + ns)),
        None => OFFSET.with(|o| o.set(o.get() + ns)),
    });
}
pub fn advance_global_clock(d: std::time::Duration) {
    GLOBAL_OFFSET.fetch_add(d.as_nanos() as i64, Ordering::SeqCst);
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(
    clk: libc::clockid_t,
    ts: *mut libc::timespec,
) -> libc::c_int {
    if clk == libc::CLOCK_MONOTONIC {
        if let Some(ns) = crate::gate::clock() {
            (*ts).tv_sec = ns / 1_000_000_000;
            (*ts).tv_nsec = ns % 1_000_000_000;
            return 0;
        }
        if let Ok(Some(ns)) = FROZEN.try_with(|f| f.get()) {
            (*ts).tv_sec = ns / 1_000_000_000;
            (*ts).tv_nsec = ns % 1_000_000_000;
            return 0;
        }
    }
    let r = raw_syscall(
        libc::SYS_clock_gettime,
        clk as i64,
        ts as i64,
        0,
        0,
        0,
        0,
    );
    if r == 0 && clk == libc::CLOCK_MONOTONIC {
        let off = GLOBAL_OFFSET.load(Ordering::SeqCst)
            + OFFSET.try_with(|o| o.get()).unwrap_or(0);
        if off != 0 {
            let t = (*ts).tv_sec * 1_000_000_000 + (*ts).tv_nsec + off;
            (*ts).tv_sec = t / 1_000_000_000;
            (*ts).tv_nsec = t % 1_000_000_000;
        }
    }
    ret_errno(r) as libc::c_int
}

// ------------------------------------------------------------------ randomness
static SEED: AtomicU64 = AtomicU64::new(1);
static STREAM: AtomicU64 = AtomicU64::new(1);
thread_local! {
    static RNG: Cell<u64> = const { Cell::new(0) };
}
pub fn seed_random(seed: u64) {
    SEED.store(seed, Ordering::SeqCst);
}
/// Fix the calling thread's random stream (call before the thread first uses
/// randomness to make it independent of thread start order).
pub fn seed_thread(stream: u64) {
    let s = SEED.load(Ordering::SeqCst);
    let v = s
        .wrapping_mul(0x9E37_79B9_7F4A_7C15)
        .wrapping_add(stream.wrapping_mul(0xD134_2543_DE82_EF95))
        | 1;
    let _ = RNG.try_with(|r| r.set(v));
}
fn next_random() -> u64 {
    RNG.try_with(|r| {
        if r.get() == 0 {
            let st = STREAM.fetch_add(1, Ordering::SeqCst) + (1 << 32);
            seed_thread(st);
        }
        let z0 = r.get().wrapping_add(0x9E37_79B9_7F4A_7C15);
        r.set(if z0 == 0 { 1 } else { z0 });
        let mut z = z0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    })
    .unwrap_or(0x1234_5678_9ABC_DEF1)
}
unsafe fn fill_random(buf: *mut u8, len: usize) {
    let mut i = 0;
    while i < len {
        let b = next_random().to_le_bytes();
        for k in 0..8 {
            if i < len {
                *buf.add(i) = b[k];
                i += 1;
            }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(
    buf: *mut libc::c_void,
    len: libc::size_t,
    _flags: libc::c_uint,
) -> libc::ssize_t {
    fill_random(buf as *mut u8, len);
    len as libc::ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: libc::c_long,
    a1: libc::c_long,
    a2: libc::c_long,
    a3: libc::c_long,
    a4: libc::c_long,
    a5: libc::c_long,
    a6: libc::c_long,
) -> libc::c_long {
    if n == libc::SYS_getrandom {
        fill_random(a1 as *mut u8, a2 as usize);
        return a2;
    }
    if n == libc::SYS_futex {
        if let Some(r) = crate::gate::futex(a1, a2 as i32, a3 as u32, a4) {
            return ret_errno(r);
        }
        let op = a2 as i32 & 0x7f;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            crate::preempt::on_futex_wait();
        }
    }
    ret_errno(raw_syscall(n, a1, a2, a3, a4, a5, a6))
}

// ------------------------------------------------------------------ socket I/O
/// Script for one fd: how many bytes each successive read / write may move.
/// `None` entries mean "would block".
#[derive(Default, Clone, Debug)]
pub struct IoScript {
    pub reads: std::collections::VecDeque<IoStep>,
    pub writes: std::collections::VecDeque<IoStep>,
    pub read_calls: usize,
    pub write_calls: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum IoStep {
    /// transfer at most this many bytes
    Max(usize),
    /// fail once with this errno
    Errno(i32),
}

thread_local! {
    static RECEIVED: Cell<u64> = const { Cell::new(0) };
}
/// How often this thread took something (or an error other than "try again")
/// from a socket with recv/recvfrom.
pub fn received() -> u64 {
    RECEIVED.with(|r| r.get())
}
static IO_ON: AtomicBool = AtomicBool::new(false);
thread_local! {
    static IO: RefCell<Vec<(i32, IoScript)>> = const { RefCell::new(Vec::new()) };
}
/// Install a script for `fd` on this thread (the I/O must happen here too).
pub fn script_fd(fd: i32, s: IoScript) {
    IO_ON.store(true, Ordering::SeqCst);
    IO.with(|m| {
        let mut m = m.borrow_mut();
        m.retain(|(f, _)| *f != fd);
        m.push((fd, s));
    });
}
pub fn unscript_fd(fd: i32) -> Option<IoScript> {
    IO.with(|m| {
        let mut m = m.borrow_mut();
        let p = m.iter().position(|(f, _)| *f == fd)?;
        Some(m.remove(p).1)
    })
}
static FILE_IO_ON: AtomicBool = AtomicBool::new(false);
/// One script for a file used by any thread: reads, writes and truncations.
pub struct FileScript {
    pub fd: i32,
    pub io: IoScript,
    pub truncations: std::collections::VecDeque<IoStep>,
    pub truncate_calls: usize,
}
static FILE_IO: std::sync::Mutex<Option<FileScript>> = std::sync::Mutex::new(None);
pub fn script_file(s: FileScript) {
    *FILE_IO.lock().unwrap() = Some(s);
    FILE_IO_ON.store(true, Ordering::SeqCst);
}
pub fn unscript_file() -> Option<FileScript> {
    FILE_IO_ON.store(false, Ordering::SeqCst);
    FILE_IO.lock().unwrap().take()
}
fn next_file_io(fd: i32, kind: u8) -> Option<IoStep> {
    if !FILE_IO_ON.load(Ordering::Relaxed) {
        return None;
    }
    let mut g = FILE_IO.lock().unwrap();
    let s = g.as_mut().filter(|s| s.fd == fd)?;
    match kind {
        0 => {
            s.io.read_calls += 1;
            s.io.reads.pop_front()
        }
        1 => {
            s.io.write_calls += 1;
            s.io.writes.pop_front()
        }
        _ => {
            s.truncate_calls += 1;
            s.truncations.pop_front()
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: libc::c_int, len: libc::off64_t) -> libc::c_int {
    if let Some(IoStep::Errno(e)) = next_file_io(fd, 2) {
        *libc::__errno_location() = e;
        return -1;
    }
    ret_errno(raw_syscall(libc::SYS_ftruncate, fd as i64, len, 0, 0, 0, 0)) as libc::c_int
}
fn next_io(fd: i32, write: bool) -> Option<IoStep> {
    if let Some(s) = next_file_io(fd, write as u8) {
        return Some(s);
    }
    if !IO_ON.load(Ordering::Relaxed) {
        return None;
    }
    IO.try_with(|m| {
        let mut m = m.try_borrow_mut().ok()?;
        let s = &mut m.iter_mut().find(|(f, _)| *f == fd)?.1;
        if write {
            s.write_calls += 1;
            s.writes.pop_front()
        } else {
            s.read_calls += 1;
            s.reads.pop_front()
        }
    })
    .ok()
    .flatten()
}

macro_rules! io_fn {
    ($name:ident, $sys:expr, $write:expr, ($fd:ident, $buf:ident, $len:ident $(, $x:ident : $t:ty)*), [$($pad:expr),*]) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name($fd: libc::c_int, $buf: *mut libc::c_void, $len: libc::size_t $(, $x: $t)*) -> libc::ssize_t {
            let mut n = $len;
            match next_io($fd, $write) {
                Some(IoStep::Max(m)) => n = n.min(m),
                Some(IoStep::Errno(e)) => {
                    if $sys == libc::SYS_recvfrom && e != libc::EAGAIN {
                        let _ = RECEIVED.try_with(|c| c.set(c.get() + 1));
                    }
                    *libc::__errno_location() = e;
                    return -1;
                }
                None => {}
            }
            if $write && ($fd == 1 || $fd == 2) && capture($fd, $buf as *const u8, n as usize) {
                return n as libc::ssize_t;
            }
            let args: [i64; 6] = [$fd as i64, $buf as i64, n as i64, $($pad),*];
            let r = raw_syscall($sys, args[0], args[1], args[2], args[3], args[4], args[5]);
            if $sys == libc::SYS_recvfrom && r != -(libc::EAGAIN as i64) {
                let _ = RECEIVED.try_with(|c| c.set(c.get() + 1));
            }
            ret_errno(r) as libc::ssize_t
        }
    };
}
io_fn!(read, libc::SYS_read, false, (fd, buf, len), [0, 0, 0]);
io_fn!(write, libc::SYS_write, true, (fd, buf, len), [0, 0, 0]);
io_fn!(recv, libc::SYS_recvfrom, false, (fd, buf, len, flags: libc::c_int), [flags as i64, 0, 0]);
io_fn!(send, libc::SYS_sendto, true, (fd, buf, len, flags: libc::c_int), [flags as i64, 0, 0]);
io_fn!(recvfrom, libc::SYS_recvfrom, false, (fd, buf, len, flags: libc::c_int, a: *mut libc::c_void, al: *mut libc::c_void), [flags as i64, a as i64, al as i64]);
io_fn!(sendto, libc::SYS_sendto, true, (fd, buf, len, flags: libc::c_int, a: *const libc::c_void, al: libc::c_uint), [flags as i64, a as i64, al as i64]);

unsafe fn clamp_iov(
    iov: *const libc::iovec,
    cnt: libc::c_int,
    max: usize,
) -> Vec<libc::iovec> {
    let mut left = max;
    let mut out = vec![];
    for i in 0..cnt as usize {
        let v = *iov.add(i);
        let n = v.iov_len.min(left);
        if n > 0 || max == usize::MAX {
            out.push(libc::iovec { iov_base: v.iov_base, iov_len: n });
        }
        left -= n;
    }
    out
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: libc::c_int, iov: *const libc::iovec, cnt: libc::c_int) -> libc::ssize_t {
    match next_io(fd, false) {
        Some(IoStep::Max(m)) => {
            let v = clamp_iov(iov, cnt, m);
            ret_errno(raw_syscall(libc::SYS_readv, fd as i64, v.as_ptr() as i64, v.len() as i64, 0, 0, 0)) as libc::ssize_t
        }
        Some(IoStep::Errno(e)) => {
            *libc::__errno_location() = e;
            -1
        }
        None => ret_errno(raw_syscall(libc::SYS_readv, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as libc::ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: libc::c_int, iov: *const libc::iovec, cnt: libc::c_int) -> libc::ssize_t {
    match next_io(fd, true) {
        Some(IoStep::Max(m)) => {
            let v = clamp_iov(iov, cnt, m);
            ret_errno(raw_syscall(libc::SYS_writev, fd as i64, v.as_ptr() as i64, v.len() as i64, 0, 0, 0)) as libc::ssize_t
        }
        Some(IoStep::Errno(e)) => {
            *libc::__errno_location() = e;
            -1
        }
        None => ret_errno(raw_syscall(libc::SYS_writev, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as libc::ssize_t,
    }
}

thread_local! {
    static OUTPUT: RefCell<Option<[Vec<u8>; 2]>> = const { RefCell::new(None) };
}
fn capture(fd: i32, buf: *const u8, n: usize) -> bool {
    OUTPUT
        .try_with(|o| match o.try_borrow_mut() {
            Ok(mut o) => match o.as_mut() {
                Some(v) => {
                    v[fd as usize - 1].extend_from_slice(unsafe { std::slice::from_raw_parts(buf, n) });
                    true
                }
                None => false,
            },
            Err(_) => false,
        })
        .unwrap_or(false)
}
/// Keep what this thread writes to stdout and stderr from now on.
pub fn capture_output() {
    OUTPUT.with(|o| *o.borrow_mut() = Some(Default::default()));
}
/// What was kept since `capture_output` (stdout, stderr).
pub fn captured() -> [Vec<u8>; 2] {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    OUTPUT.with(|o| o.borrow_mut().take()).unwrap_or_default()
}

/// Startup self-test: the interposed symbols really are the ones in use.
pub fn self_test() {
    let t0 = std::time::Instant::now();
    freeze_clock();
    let a = std::time::Instant::now();
    let b = std::time::Instant::now();
    assert_eq!(a, b, "clock interposition is not effective");
    advance_clock(std::time::Duration::from_secs(5));
    assert_eq!(a.elapsed(), std::time::Duration::from_secs(5));
    unfreeze_clock();
    assert!(t0.elapsed() < std::time::Duration::from_secs(5));
}

// ----------------------------------------------------------------------- sleep
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if crate::gate::sleep((*req).tv_sec * 1_000_000_000 + (*req).tv_nsec, false).is_some() {
        return 0;
    }
    ret_errno(raw_syscall(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, flags: libc::c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> libc::c_int {
    if crate::gate::sleep((*req).tv_sec * 1_000_000_000 + (*req).tv_nsec, flags & libc::TIMER_ABSTIME != 0).is_some() {
        return 0;
    }
    let r = raw_syscall(libc::SYS_clock_nanosleep, clk as i64, flags as i64, req as i64, rem as i64, 0, 0);
    (-r) as libc::c_int
}

// ----------------------------------------------------------- TCP connections
// The networking library hands std's socket addresses to the system as they
// are, which current compilers lay out differently from what it expects.
unsafe fn fixed(addr: *const libc::c_void, len: libc::socklen_t) -> Option<libc::sockaddr_in> {
    if len as usize != std::mem::size_of::<std::net::SocketAddrV4>() {
        return None;
    }
    let a = *(addr as *const std::net::SocketAddrV4);
    let mut s: libc::sockaddr_in = std::mem::zeroed();
    s.sin_family = libc::AF_INET as u16;
    s.sin_port = a.port().to_be();
    s.sin_addr.s_addr = u32::from_ne_bytes(a.ip().octets());
    Some(s)
}
unsafe fn with_addr(nr: i64, fd: i32, addr: *const libc::c_void, len: libc::socklen_t) -> libc::c_int {
    let r = match fixed(addr, len) {
        Some(s) => raw_syscall(nr, fd as i64, &s as *const _ as i64, std::mem::size_of_val(&s) as i64, 0, 0, 0),
        None => raw_syscall(nr, fd as i64, addr as i64, len as i64, 0, 0, 0),
    };
    ret_errno(r) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: libc::c_int, addr: *const libc::c_void, len: libc::socklen_t) -> libc::c_int {
    let r = with_addr(libc::SYS_bind, fd, addr, len);
    if r == 0 {
        let _ = BOUND.try_with(|b| b.borrow_mut().push(fd));
    }
    r
}
/// Addresses of the sockets bound on this thread since the last call.
pub fn take_bound() -> Vec<std::net::SocketAddr> {
    use std::os::unix::io::FromRawFd;
    BOUND.with(|b| std::mem::take(&mut *b.borrow_mut()))
        .into_iter()
        .filter_map(|fd| std::mem::ManuallyDrop::new(unsafe { std::net::UdpSocket::from_raw_fd(fd) }).local_addr().ok())
        .collect()
}
#[no_mangle]
pub unsafe extern "C" fn connect(fd: libc::c_int, addr: *const libc::c_void, len: libc::socklen_t) -> libc::c_int {
    with_addr(libc::SYS_connect, fd, addr, len)
}
/// A connection accepted on this thread.
#[derive(Clone, Copy, Debug)]
pub struct Accepted {
    pub fd: i32,
    pub ino: u64,
    pub port: u16,
}
impl Accepted {
    pub fn open(&self) -> bool {
        inode(self.fd) == Some(self.ino)
    }
}
fn inode(fd: i32) -> Option<u64> {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut st) == 0 {
            Some(st.st_ino)
        } else {
            None
        }
    }
}
thread_local! {
    static BOUND: RefCell<Vec<i32>> = const { RefCell::new(Vec::new()) };
    static ACCEPT_ERRORS: RefCell<Vec<i32>> = const { RefCell::new(Vec::new()) };
    static ACCEPTED: RefCell<Vec<Accepted>> = const { RefCell::new(Vec::new()) };
}
/// Make the next accept on this thread fail.
pub fn fail_accept(e: i32) {
    ACCEPT_ERRORS.with(|a| a.borrow_mut().push(e));
}
pub fn clear_accept_errors() {
    ACCEPT_ERRORS.with(|a| a.borrow_mut().clear());
}
pub fn peek_script(fd: i32) -> Option<IoScript> {
    IO.with(|m| m.borrow().iter().find(|(f, _)| *f == fd).map(|x| x.1.clone()))
}
pub fn accept_errors_left() -> usize {
    ACCEPT_ERRORS.with(|a| a.borrow().len())
}
pub fn take_accepted() -> Vec<Accepted> {
    ACCEPTED.with(|a| std::mem::take(&mut *a.borrow_mut()))
}
#[no_mangle]
pub unsafe extern "C" fn accept4(fd: libc::c_int, addr: *mut libc::c_void, len: *mut libc::socklen_t, flags: libc::c_int) -> libc::c_int {
    if let Some(e) = ACCEPT_ERRORS.try_with(|a| a.borrow_mut().pop()).ok().flatten() {
        *libc::__errno_location() = e;
        return -1;
    }
    let r = raw_syscall(libc::SYS_accept4, fd as i64, addr as i64, len as i64, flags as i64, 0, 0);
    if r >= 0 {
        let mut a: libc::sockaddr_in = std::mem::zeroed();
        let mut l = std::mem::size_of::<libc::sockaddr_in>() as libc::socklen_t;
        libc::getpeername(r as i32, &mut a as *mut _ as *mut _, &mut l);
        let x = Accepted { fd: r as i32, ino: inode(r as i32).unwrap_or(0), port: u16::from_be(a.sin_port) };
        let _ = ACCEPTED.try_with(|v| v.borrow_mut().push(x));
    }
    ret_errno(r) as libc::c_int
}

/// A process killed by a task under a controller is gone when `kill` returns,
/// so that schedules do not depend on how long that takes.
#[no_mangle]
pub unsafe extern "C" fn kill(pid: libc::pid_t, sig: libc::c_int) -> libc::c_int {
    let r = ret_errno(raw_syscall(libc::SYS_kill, pid as i64, sig as i64, 0, 0, 0, 0)) as libc::c_int;
    if r == 0 && sig == libc::SIGKILL && pid > 0 && tokio::control::on() {
        let mut info: libc::siginfo_t = std::mem::zeroed();
        raw_syscall(libc::SYS_waitid, libc::P_PID as i64, pid as i64, &mut info as *mut _ as i64, (libc::WEXITED | libc::WNOWAIT) as i64, 0, 0);
    }
    r
}
