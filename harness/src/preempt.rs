//! Exhaustive thread preemption of unmodified code, one instruction at a time.
//!
//! Thread A runs with the processor's trap flag set, so the kernel delivers
//! SIGTRAP after every instruction; at the k-th instruction outside the
//! allocator the handler parks A and lets thread B run until it finishes or
//! blocks on a futex, then A runs on.  Running this for every k covers every
//! execution of A and B with one preemption of A (and, with the roles
//! exchanged, of B), whatever synchronisation the code uses.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::Arc;

pub struct CountingAlloc;
thread_local! {
    static IN_ALLOC: Cell<u32> = const { Cell::new(0) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
    static AT: Cell<usize> = const { Cell::new(usize::MAX) };
    static SHARED: Cell<*const Shared> = const { Cell::new(std::ptr::null()) };
    static ROLE_B: Cell<*const Shared> = const { Cell::new(std::ptr::null()) };
}
unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = IN_ALLOC.try_with(|c| c.set(c.get() + 1));
        let p = System.alloc(l);
        let _ = IN_ALLOC.try_with(|c| c.set(c.get() - 1));
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = IN_ALLOC.try_with(|c| c.set(c.get() + 1));
        System.dealloc(p, l);
        let _ = IN_ALLOC.try_with(|c| c.set(c.get() - 1));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = IN_ALLOC.try_with(|c| c.set(c.get() + 1));
        let r = System.realloc(p, l, n);
        let _ = IN_ALLOC.try_with(|c| c.set(c.get() - 1));
        r
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = IN_ALLOC.try_with(|c| c.set(c.get() + 1));
        let p = System.alloc_zeroed(l);
        let _ = IN_ALLOC.try_with(|c| c.set(c.get() - 1));
        p
    }
}

#[derive(Default)]
pub struct Shared {
    /// 0 B waits, 1 B may run
    go: AtomicU32,
    /// 0 running, 1 finished, 2 blocked
    b: AtomicU32,
    preempted: AtomicU32,
}

unsafe fn raw_wait(a: &AtomicU32, v: u32, timeout_ms: i64) {
    let ts = libc::timespec { tv_sec: timeout_ms / 1000, tv_nsec: (timeout_ms % 1000) * 1_000_000 };
    let tp = if timeout_ms > 0 { &ts as *const _ as i64 } else { 0 };
    crate::interpose::raw_syscall(libc::SYS_futex, a.as_ptr() as i64, libc::FUTEX_WAIT as i64, v as i64, tp, 0, 0);
}
unsafe fn raw_wake(a: &AtomicU32) {
    crate::interpose::raw_syscall(libc::SYS_futex, a.as_ptr() as i64, libc::FUTEX_WAKE as i64, i32::MAX as i64, 0, 0, 0);
}

/// Called by the futex interposer before a thread really waits.
pub fn on_futex_wait() {
    let p = ROLE_B.try_with(|r| r.get()).unwrap_or(std::ptr::null());
    if !p.is_null() {
        unsafe {
            let s = &*p;
            if s.b.load(SeqCst) == 0 {
                s.b.store(2, SeqCst);
                raw_wake(&s.b);
            }
        }
    }
}

unsafe extern "C" fn on_trap(_: libc::c_int, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    let uc = &mut *(uc as *mut libc::ucontext_t);
    let p = SHARED.with(|s| s.get());
    if p.is_null() {
        uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
        return;
    }
    if IN_ALLOC.with(|c| c.get()) > 0 {
        return;
    }
    let n = COUNT.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n == AT.with(|a| a.get()) {
        let s = &*p;
        s.preempted.store(1, SeqCst);
        let errno = *libc::__errno_location();
        let_b_run(s);
        *libc::__errno_location() = errno;
        uc.uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100;
    }
}
unsafe fn let_b_run(s: &Shared) {
    s.go.store(1, SeqCst);
    raw_wake(&s.go);
    let mut waited = 0;
    while s.b.load(SeqCst) == 0 {
        raw_wait(&s.b, 0, 100);
        waited += 1;
        if waited > 20 {
            break; // blocked in a way we cannot see: let A continue
        }
    }
}

pub fn install() {
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO;
        libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut());
    }
}

#[inline(never)]
unsafe fn set_tf() {
    std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
}
#[inline(never)]
unsafe fn clear_tf() {
    std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
}

pub struct Run<T, U> {
    pub a: T,
    pub b: U,
    /// instructions of A that were stepped
    pub steps: usize,
    pub preempted: bool,
    pub b_blocked: bool,
}

/// Run `a` on this thread and `b` on another one; B starts when A has executed
/// `k` instructions (or when A is done).
pub fn run<T: Send, U: Send>(k: usize, a: impl FnOnce() -> T, b: impl FnOnce() -> U + Send) -> Run<T, U> {
    let sh = Arc::new(Shared::default());
    std::thread::scope(|sc| {
        let s2 = Arc::clone(&sh);
        let h = sc.spawn(move || {
            crate::interpose::seed_thread(99);
            while s2.go.load(SeqCst) == 0 {
                unsafe { raw_wait(&s2.go, 0, 0) };
            }
            ROLE_B.with(|r| r.set(Arc::as_ptr(&s2)));
            let r = b();
            ROLE_B.with(|r| r.set(std::ptr::null()));
            s2.b.store(1, SeqCst);
            unsafe { raw_wake(&s2.b) };
            r
        });
        COUNT.with(|c| c.set(0));
        AT.with(|c| c.set(k));
        SHARED.with(|c| c.set(Arc::as_ptr(&sh)));
        unsafe { set_tf() };
        let ra = a();
        unsafe { clear_tf() };
        SHARED.with(|c| c.set(std::ptr::null()));
        let steps = COUNT.with(|c| c.get());
        let preempted = sh.preempted.load(SeqCst) == 1;
        let b_blocked = sh.b.load(SeqCst) == 2;
        sh.go.store(1, SeqCst);
        unsafe { raw_wake(&sh.go) };
        let rb = match h.join() {
            Ok(r) => r,
            Err(e) => std::panic::resume_unwind(e),
        };
        Run { a: ra, b: rb, steps, preempted, b_blocked }
    })
}
