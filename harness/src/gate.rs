//! Controlled execution of one thread the code under test spawns itself:
//! its clock reads and waits stop at gates, and the explorer decides when
//! they go on, what time it is then, and why a wait ended.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicU32, AtomicU64, Ordering::SeqCst};

static ON: AtomicBool = AtomicBool::new(false);
/// virtual monotonic clock of the controlled threads and of the controller
pub static NOW: AtomicI64 = AtomicI64::new(0);
const BASE: i64 = 2_000_000_000_000_000;

thread_local! {
    static EXEMPT: Cell<bool> = const { Cell::new(false) };
    static CONTROLLER: Cell<bool> = const { Cell::new(false) };
    static MANAGED: Exit = const { Exit(Cell::new(false)) };
}
struct Exit(Cell<bool>);
impl Drop for Exit {
    fn drop(&mut self) {
        if self.0.get() {
            EXEMPT.with(|e| e.set(true));
            set_state(S_EXITED);
        }
    }
}

pub const S_RUNNING: u32 = 0;
pub const S_CLOCK: u32 = 1;
pub const S_WAIT: u32 = 2;
pub const S_FUNC: u32 = 3;
pub const S_EXITED: u32 = 4;
pub const S_FREE: u32 = 5;
static STATE: AtomicU32 = AtomicU32::new(S_FREE);
static GO: AtomicU32 = AtomicU32::new(0);
static DEADLINE: AtomicI64 = AtomicI64::new(0);
static ADDR: AtomicU64 = AtomicU64::new(0);
static EXPECT: AtomicU32 = AtomicU32::new(0);
static RESULT: AtomicI32 = AtomicI32::new(0);
static WOKEN: AtomicBool = AtomicBool::new(false);

unsafe fn fwait(a: &AtomicU32, v: u32, ms: i64) {
    let ts = libc::timespec { tv_sec: ms / 1000, tv_nsec: (ms % 1000) * 1_000_000 };
    crate::interpose::raw_syscall(libc::SYS_futex, a.as_ptr() as i64, libc::FUTEX_WAIT as i64, v as i64, &ts as *const _ as i64, 0, 0);
}
unsafe fn fwake(a: &AtomicU32) {
    crate::interpose::raw_syscall(libc::SYS_futex, a.as_ptr() as i64, libc::FUTEX_WAKE as i64, i32::MAX as i64, 0, 0, 0);
}
fn set_state(s: u32) {
    STATE.store(s, SeqCst);
    unsafe { fwake(&STATE) };
}
fn stop_at(s: u32) {
    GO.store(0, SeqCst);
    set_state(s);
    while GO.load(SeqCst) == 0 {
        unsafe { fwait(&GO, 0, 1000) };
    }
}

/// Is the calling thread one the code under test spawned while control is on?
fn managed() -> bool {
    if !ON.load(SeqCst) {
        return false;
    }
    if EXEMPT.try_with(|e| e.get()).unwrap_or(true) || CONTROLLER.try_with(|c| c.get()).unwrap_or(true) {
        return false;
    }
    MANAGED.try_with(|m| m.0.set(true)).is_ok()
}
/// Threads of the harness that are alive while control is on.
pub fn exempt() {
    EXEMPT.with(|e| e.set(true));
}

// ----------------------------------------------------------- interposer hooks
pub fn clock() -> Option<i64> {
    if !ON.load(SeqCst) {
        return None;
    }
    if CONTROLLER.try_with(|c| c.get()).unwrap_or(false) {
        return Some(BASE + NOW.load(SeqCst));
    }
    if managed() {
        stop_at(S_CLOCK);
        return Some(BASE + NOW.load(SeqCst));
    }
    None
}
/// Some(result of the system call) if it was emulated
pub unsafe fn futex(addr: i64, op: i32, val: u32, ts: i64) -> Option<i64> {
    if !ON.load(SeqCst) {
        return None;
    }
    let cmd = op & 0x7f;
    if cmd == libc::FUTEX_WAIT || cmd == libc::FUTEX_WAIT_BITSET {
        if !managed() {
            return None;
        }
        let dl = if ts == 0 {
            i64::MAX
        } else {
            let t = &*(ts as *const libc::timespec);
            let ns = t.tv_sec.saturating_mul(1_000_000_000).saturating_add(t.tv_nsec);
            if cmd == libc::FUTEX_WAIT {
                NOW.load(SeqCst).saturating_add(ns)
            } else if op & libc::FUTEX_CLOCK_REALTIME != 0 {
                NOW.load(SeqCst)
            } else {
                ns.saturating_sub(BASE)
            }
        };
        DEADLINE.store(dl, SeqCst);
        ADDR.store(addr as u64, SeqCst);
        EXPECT.store(val, SeqCst);
        WOKEN.store(false, SeqCst);
        RESULT.store(0, SeqCst);
        stop_at(S_WAIT);
        ADDR.store(0, SeqCst);
        return Some(RESULT.load(SeqCst) as i64);
    }
    if cmd == libc::FUTEX_WAKE && ADDR.load(SeqCst) == addr as u64 {
        WOKEN.store(true, SeqCst);
        return Some(1);
    }
    None
}
/// Some(()) if the sleep was emulated
pub fn sleep(ns: i64, absolute: bool) -> Option<()> {
    if !managed() {
        return None;
    }
    let dl = if absolute { ns - BASE } else { NOW.load(SeqCst).saturating_add(ns) };
    DEADLINE.store(dl, SeqCst);
    ADDR.store(1, SeqCst); // no spurious wake-ups
    EXPECT.store(0, SeqCst);
    WOKEN.store(false, SeqCst);
    stop_at(S_WAIT);
    ADDR.store(0, SeqCst);
    Some(())
}
/// The delayed function calls this.
pub fn in_function() {
    if managed() {
        stop_at(S_FUNC);
    }
}

// ------------------------------------------------------------- controller side
pub fn begin() {
    NOW.store(0, SeqCst);
    STATE.store(S_RUNNING, SeqCst);
    ADDR.store(0, SeqCst);
    CONTROLLER.with(|c| c.set(true));
    ON.store(true, SeqCst);
}
pub fn end() {
    ON.store(false, SeqCst);
    CONTROLLER.with(|c| c.set(false));
}
/// Wait until the controlled thread is at a gate or gone; None if it is stuck.
pub fn settle() -> Option<u32> {
    for _ in 0..50 {
        let s = STATE.load(SeqCst);
        if s != S_RUNNING {
            return Some(s);
        }
        unsafe { fwait(&STATE, S_RUNNING, 100) };
    }
    None
}
/// Could the wait end of its own accord (not counting spurious wake-ups)?
pub fn wait_over() -> bool {
    if ADDR.load(SeqCst) != 1 {
        let v = unsafe { (*(ADDR.load(SeqCst) as *const AtomicU32)).load(SeqCst) };
        if v != EXPECT.load(SeqCst) {
            return true;
        }
    }
    WOKEN.load(SeqCst) || NOW.load(SeqCst) >= DEADLINE.load(SeqCst)
}
pub fn may_wake_spuriously() -> bool {
    ADDR.load(SeqCst) != 1
}
pub fn deadline() -> i64 {
    DEADLINE.load(SeqCst)
}
pub fn resume() {
    if STATE.load(SeqCst) == S_WAIT && ADDR.load(SeqCst) != 1 {
        let v = unsafe { (*(ADDR.load(SeqCst) as *const AtomicU32)).load(SeqCst) };
        RESULT.store(
            if v != EXPECT.load(SeqCst) {
                -libc::EAGAIN
            } else if !WOKEN.load(SeqCst) && NOW.load(SeqCst) >= DEADLINE.load(SeqCst) {
                -libc::ETIMEDOUT
            } else {
                0
            },
            SeqCst,
        );
    }
    STATE.store(S_RUNNING, SeqCst);
    GO.store(1, SeqCst);
    unsafe { fwake(&GO) };
}
