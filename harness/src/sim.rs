//! Deterministic execution substrate: a virtual clock and quiescence detection for the
//! unmodified engine.
//!
//! The executable defines `clock_gettime` and `epoll_wait` itself, so std, chrono, tokio and mio
//! (all linked statically) use these instead of libc's. Nothing in /repo is hooked.
//!  * time only moves when the driver calls `advance`;
//!  * a runtime thread that would block in epoll is "idle"; when every runtime thread is idle,
//!    has no pending event and no timer due, the whole engine is quiescent.
use std::cell::RefCell;
use std::os::raw::{c_int, c_long};
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// 2030-01-01T00:00:00Z, aligned to every cron field we use.
pub const BASE_S: i64 = 1_893_456_000;
const MONO_BASE_S: i64 = 1_000_000;

static VNOW_NS: AtomicI64 = AtomicI64::new(0);
/// The clock reads a whole number of milliseconds and this many microseconds.
static SUB_US: AtomicI64 = AtomicI64::new(0);
pub fn set_sub_us(us: i64) {
    let d = us - SUB_US.swap(us, SeqCst);
    VNOW_NS.fetch_add(d * 1000, SeqCst);
}
pub fn sub_us() -> i64 {
    SUB_US.load(SeqCst)
}

pub fn vnow_ms() -> i64 {
    VNOW_NS.load(SeqCst) / 1_000_000
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    let base = match clk {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => BASE_S,
        libc::CLOCK_MONOTONIC
        | libc::CLOCK_MONOTONIC_COARSE
        | libc::CLOCK_MONOTONIC_RAW
        | libc::CLOCK_BOOTTIME => MONO_BASE_S,
        _ => return libc::syscall(libc::SYS_clock_gettime, clk as c_long, ts) as c_int,
    };
    let v = VNOW_NS.load(SeqCst);
    (*ts).tv_sec = base + v / 1_000_000_000;
    (*ts).tv_nsec = v % 1_000_000_000;
    0
}

pub fn real_ms() -> i64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as c_long, &mut ts) };
    ts.tv_sec * 1000 + ts.tv_nsec / 1_000_000
}

pub fn cpu_ms() -> i64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_PROCESS_CPUTIME_ID as c_long, &mut ts)
    };
    ts.tv_sec * 1000 + ts.tv_nsec / 1_000_000
}

pub struct Thr {
    epfd: AtomicI32,
    evfd: c_int,
    idle: AtomicBool,
    /// virtual deadline in ns, i64::MAX = none
    deadline: AtomicI64,
    entries: AtomicU64,
    dead: AtomicBool,
    frozen: AtomicBool,
    /// blocked in a job body that does not yield
    blocked: AtomicBool,
}

static THREADS: Mutex<Vec<Arc<Thr>>> = Mutex::new(Vec::new());
/// Threads the harness itself owns (driver, fake servers): never in epoll.
pub static FOREIGN: AtomicUsize = AtomicUsize::new(1);

struct Reg(Arc<Thr>);
impl Drop for Reg {
    fn drop(&mut self) {
        self.0.dead.store(true, SeqCst);
    }
}
thread_local! { static ME: RefCell<Option<Reg>> = const { RefCell::new(None) }; }

unsafe fn raw_epoll_wait(epfd: c_int, ev: *mut libc::epoll_event, max: c_int, to: c_int) -> c_int {
    let r = libc::syscall(
        libc::SYS_epoll_pwait,
        epfd as c_long,
        ev,
        max as c_long,
        to as c_long,
        std::ptr::null::<libc::sigset_t>(),
        8 as c_long,
    );
    r as c_int
}

fn me(epfd: c_int) -> Option<Arc<Thr>> {
    ME.try_with(|m| {
        let mut m = m.borrow_mut();
        if m.is_none() {
            let t = Arc::new(Thr {
                epfd: AtomicI32::new(epfd),
                evfd: unsafe { libc::eventfd(0, libc::EFD_NONBLOCK | libc::EFD_CLOEXEC) },
                idle: AtomicBool::new(false),
                deadline: AtomicI64::new(i64::MAX),
                entries: AtomicU64::new(0),
                dead: AtomicBool::new(false),
                frozen: AtomicBool::new(false),
                blocked: AtomicBool::new(false),
            });
            THREADS.lock().unwrap().push(t.clone());
            *m = Some(Reg(t));
        }
        let t = m.as_ref().unwrap().0.clone();
        t.epfd.store(epfd, SeqCst);
        t
    })
    .ok()
}

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(
    epfd: c_int,
    ev: *mut libc::epoll_event,
    max: c_int,
    to: c_int,
) -> c_int {
    let Some(t) = me(epfd) else {
        return raw_epoll_wait(epfd, ev, max, to);
    };
    let deadline = if to < 0 {
        i64::MAX
    } else {
        VNOW_NS.load(SeqCst) + to as i64 * 1_000_000
    };
    loop {
        if !t.frozen.load(SeqCst) {
            let r = raw_epoll_wait(epfd, ev, max, 0);
            if r != 0 || VNOW_NS.load(SeqCst) >= deadline {
                return r;
            }
        }
        t.deadline.store(deadline, SeqCst);
        t.entries.fetch_add(1, SeqCst);
        t.idle.store(true, SeqCst);
        let frozen = t.frozen.load(SeqCst);
        let mut fds = [
            libc::pollfd { fd: t.evfd, events: libc::POLLIN, revents: 0 },
            libc::pollfd { fd: epfd, events: libc::POLLIN, revents: 0 },
        ];
        let n = if frozen { 1 } else { 2 };
        libc::poll(fds.as_mut_ptr(), n, -1);
        t.idle.store(false, SeqCst);
        let mut buf = [0u8; 8];
        libc::read(t.evfd, buf.as_mut_ptr() as *mut _, 8);
    }
}

fn kick(t: &Thr) {
    let one: u64 = 1;
    unsafe { libc::write(t.evfd, &one as *const u64 as *const _, 8) };
}

fn live() -> Vec<Arc<Thr>> {
    THREADS.lock().unwrap().iter().filter(|t| !t.dead.load(SeqCst)).cloned().collect()
}

pub fn thread_count() -> usize {
    live().len()
}

/// Freeze/unfreeze the n-th registered runtime thread (None = all).
pub fn freeze(which: Option<usize>, on: bool) {
    for (i, t) in live().iter().enumerate() {
        if which.is_none() || which == Some(i) {
            t.frozen.store(on, SeqCst);
            kick(t);
        }
    }
}

static BLOCK: (Mutex<()>, std::sync::Condvar) = (Mutex::new(()), std::sync::Condvar::new());
/// Block the calling runtime thread, as a job body that does not yield would.
pub fn block_here() {
    let Ok(Some(t)) = ME.try_with(|m| m.borrow().as_ref().map(|r| r.0.clone())) else { return };
    let mut g = BLOCK.0.lock().unwrap();
    t.entries.fetch_add(1, SeqCst);
    t.blocked.store(true, SeqCst);
    t.idle.store(true, SeqCst);
    while t.blocked.load(SeqCst) {
        g = BLOCK.1.wait(g).unwrap();
    }
}
pub fn unblock() {
    let _g = BLOCK.0.lock().unwrap();
    for t in live() {
        if t.blocked.load(SeqCst) {
            t.idle.store(false, SeqCst);
            t.blocked.store(false, SeqCst);
        }
    }
    BLOCK.1.notify_all();
}

fn os_threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}

fn pass(threads: &[Arc<Thr>]) -> Option<Vec<u64>> {
    let now = VNOW_NS.load(SeqCst);
    let mut v = Vec::with_capacity(threads.len());
    for t in threads {
        let e = t.entries.load(SeqCst);
        if !t.idle.load(SeqCst) {
            return None;
        }
        if !t.frozen.load(SeqCst) && !t.blocked.load(SeqCst) {
            if t.deadline.load(SeqCst) <= now {
                return None;
            }
            let mut fds = [
                libc::pollfd { fd: t.epfd.load(SeqCst), events: libc::POLLIN, revents: 0 },
                libc::pollfd { fd: t.evfd, events: libc::POLLIN, revents: 0 },
            ];
            if unsafe { libc::poll(fds.as_mut_ptr(), 2, 0) } != 0 {
                return None;
            }
        }
        v.push(e);
    }
    Some(v)
}

pub fn is_quiescent() -> bool {
    let ts = live();
    if os_threads() != ts.len() + FOREIGN.load(SeqCst) {
        return false;
    }
    match (pass(&ts), pass(&ts)) {
        (Some(a), Some(b)) => a == b && live().len() == ts.len(),
        _ => false,
    }
}

/// Bounds on one step's settling: a busy loop burns CPU, a deadlock burns wall time.
const CPU_LIMIT_MS: i64 = 6_000;
const WALL_LIMIT_MS: i64 = 45_000;

pub fn settle() -> Result<(), String> {
    let (c0, r0) = (cpu_ms(), real_ms());
    let mut n = 0u32;
    loop {
        if is_quiescent() {
            return Ok(());
        }
        n += 1;
        if n < 50 {
            unsafe { libc::sched_yield() };
        } else {
            unsafe { libc::usleep(30) };
        }
        if n % 256 == 0 {
            if cpu_ms() - c0 > CPU_LIMIT_MS {
                return Err("livelock".into());
            }
            if real_ms() - r0 > WALL_LIMIT_MS {
                return Err("deadlock".into());
            }
        }
    }
}

/// Move the virtual clock and wake every thread so that it re-evaluates its timers.
pub fn advance_ms(ms: i64) {
    VNOW_NS.fetch_add(ms * 1_000_000, SeqCst);
    for t in live() {
        kick(&t);
    }
}
pub fn set_now_ms(ms: i64) {
    VNOW_NS.store(ms * 1_000_000 + sub_us() * 1000, SeqCst);
    for t in live() {
        kick(&t);
    }
}
