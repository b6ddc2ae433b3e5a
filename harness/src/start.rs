//! ajv start SCRIPTS OUT: threads that start the engine, in a given interleaving.
//!
//! Starting the engine creates threads, so `pthread_create` (interposed) is where a start call can be
//! held: a schedule says which caller goes on next. A caller that does not get to its next point (it
//! waits for a lock somebody held back owns) is left alone after a while, so every schedule is played
//! as far as it is possible. What is judged does not depend on the schedule.
use crate::backend::Inner;
use crate::jobs::{world, J0, TJob};
use aj::backend::types::{Backend, QueueDirection};
use aj::mem::InMemory;
use aj::{Error, AJ};
use serde_json::{json, Value};
use std::cell::Cell;
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

thread_local! { static LID: Cell<i64> = const { Cell::new(-1) }; }
static HOLDING: AtomicBool = AtomicBool::new(false);
const MAX: usize = 8;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicI64 = AtomicI64::new(0);
/// points reached and points passed by each caller
static REACHED: [AtomicI64; MAX] = [Z; MAX];
static ALLOWED: [AtomicI64; MAX] = [Z; MAX];
static FINISHED: [AtomicI64; MAX] = [Z; MAX];

fn nap(us: u32) {
    unsafe { libc::usleep(us) };
}
/// A point at which a caller can be held.
fn point() {
    if !HOLDING.load(SeqCst) {
        return;
    }
    let Ok(l) = LID.try_with(|l| l.get()) else { return };
    if l < 0 {
        return;
    }
    let l = l as usize;
    let k = REACHED[l].fetch_add(1, SeqCst) + 1;
    while ALLOWED[l].load(SeqCst) < k && HOLDING.load(SeqCst) {
        nap(50);
    }
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Arg {
    f: Start,
    a: *mut c_void,
    lid: i64,
}
extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    let b = unsafe { Box::from_raw(p as *mut Arg) };
    let _ = LID.try_with(|l| l.set(b.lid));
    (b.f)(b.a)
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    at: *const libc::pthread_attr_t,
    f: Start,
    a: *mut c_void,
) -> c_int {
    static REAL: AtomicUsize = AtomicUsize::new(0);
    let mut r = REAL.load(SeqCst);
    if r == 0 {
        r = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr()) as usize;
        REAL.store(r, SeqCst);
    }
    let real: unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int =
        std::mem::transmute(r);
    point();
    let lid = LID.try_with(|l| l.get()).unwrap_or(-1);
    if lid < 0 {
        return real(t, at, f, a);
    }
    let b = Box::into_raw(Box::new(Arg { f, a, lid }));
    real(t, at, tramp, b as *mut c_void)
}

/// Each start call brings its own backend; only the one of the engine in use may ever be touched.
struct Mine(Inner, usize);
static USED: [AtomicI64; MAX] = [Z; MAX];
impl Mine {
    fn hit(&self) -> &Inner {
        USED[self.1].fetch_add(1, SeqCst);
        &self.0
    }
}
impl Backend for Mine {
    fn queue_push(&self, q: &str, item: &str) -> Result<(), Error> {
        self.hit().queue_push(q, item)
    }
    fn queue_move(&self, a: &str, b: &str, c: usize, d: QueueDirection, e: QueueDirection) -> Result<Vec<String>, Error> {
        self.hit().queue_move(a, b, c, d, e)
    }
    fn queue_remove(&self, q: &str, item: &str) -> Result<(), Error> {
        self.hit().queue_remove(q, item)
    }
    fn queue_get(&self, q: &str, c: usize, d: QueueDirection) -> Result<Vec<String>, Error> {
        self.hit().queue_get(q, c, d)
    }
    fn queue_count(&self, q: &str) -> Result<usize, Error> {
        self.hit().queue_count(q)
    }
    fn storage_upsert(&self, h: &str, k: &str, v: String) -> Result<(), Error> {
        self.hit().storage_upsert(h, k, v)
    }
    fn storage_get(&self, h: &str, k: &str) -> Result<Option<String>, Error> {
        self.hit().storage_get(h, k)
    }
}

type Addr = actix::Addr<AJ>;
struct Log {
    addrs: Vec<Addr>,
    ev: Vec<Value>,
}
fn index(log: &mut Log, a: &Addr) -> i64 {
    if let Some(i) = log.addrs.iter().position(|x| x == a) {
        return i as i64;
    }
    log.addrs.push(a.clone());
    log.addrs.len() as i64 - 1
}

fn one_start(log: &Arc<Mutex<Log>>, me: usize, how: &str) {
    let r = std::panic::catch_unwind(|| {
        if how == "quick" {
            AJ::quick_start()
        } else {
            AJ::start(Mine(Arc::new(InMemory::default()), me))
        }
    });
    let l = std::panic::catch_unwind(aj_core::get_aj_address).unwrap_or(None);
    let mut g = log.lock().unwrap();
    let (res, a) = match r {
        Ok(a) => ("ok", index(&mut g, &a)),
        Err(_) => ("panic", -1),
    };
    let look = l.map_or(-1, |x| index(&mut g, &x));
    g.ev.push(json!({"e":"start","who":me,"res":res,"addr":a,"look":look}));
}

fn caller(log: Arc<Mutex<Log>>, me: usize, ctx: String, calls: usize) {
    LID.with(|l| l.set(me as i64));
    let body = {
        let (log, ctx) = (log.clone(), ctx.clone());
        move || {
            for _ in 0..calls {
                one_start(&log, me, if ctx.starts_with("quick") { "quick" } else { "own" });
            }
            LID.with(|l| l.set(-1));
            FINISHED[me].store(1, SeqCst);
        }
    };
    match ctx.as_str() {
        "sys" | "quicksys" => {
            // the runtime itself is not what is being scheduled
            LID.with(|l| l.set(-1));
            let sys = aj::export::core::actix_rt::System::new();
            LID.with(|l| l.set(me as i64));
            point();
            sys.block_on(async move {
                body();
                std::future::pending::<()>().await;
            });
        }
        "tokio" => {
            let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
            point();
            rt.block_on(async move { body() });
        }
        _ => {
            point();
            body();
        }
    }
}

fn child(s: &Value, out: &str) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let log = Arc::new(Mutex::new(Log { addrs: vec![], ev: vec![] }));
    let who: Vec<Value> = s["who"].as_array().unwrap().clone();
    let sched: Vec<usize> =
        s["sched"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    HOLDING.store(true, SeqCst);
    let n = who.len();
    for (i, w) in who.iter().enumerate() {
        let log = log.clone();
        let (ctx, calls) = (w["ctx"].as_str().unwrap().to_string(), w["calls"].as_u64().unwrap_or(1) as usize);
        std::thread::spawn(move || {
            caller(log, i, ctx, calls);
        });
    }
    // all have arrived at their first point
    for r in REACHED.iter().take(n) {
        let mut k = 0;
        while r.load(SeqCst) < 1 && k < 20000 {
            nap(100);
            k += 1;
        }
    }
    for c in sched {
        let before = REACHED[c].load(SeqCst);
        if FINISHED[c].load(SeqCst) == 1 {
            continue;
        }
        ALLOWED[c].store(before, SeqCst);
        let mut k = 0;
        while REACHED[c].load(SeqCst) == before && FINISHED[c].load(SeqCst) == 0 && k < 150 {
            nap(100);
            k += 1;
        }
    }
    HOLDING.store(false, SeqCst);
    let mut k = 0;
    while (0..n).any(|i| FINISHED[i].load(SeqCst) == 0) && k < 100_000 {
        nap(100);
        k += 1;
    }
    for i in 0..n {
        if FINISHED[i].load(SeqCst) == 0 {
            log.lock().unwrap().ev.push(json!({"e":"start","who":i,"res":"hangs","addr":-1,"look":-1}));
        }
    }
    // later calls and lookups see the same engine
    for ctx in ["bare", "quick"] {
        let log = log.clone();
        let _ = std::thread::spawn(move || {
            one_start(&log, 7, ctx);
        })
        .join();
    }
    // it works, on one backend
    world(|w| w.auto = Some("ok".into()));
    let res = std::thread::spawn(|| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async {
            let j = J0::mk(1, "s").new_job().set_id("s1".to_string());
            match j.run().await {
                Ok(_) => "ok",
                Err(_) => "err",
            }
        })
    })
    .join()
    .unwrap_or("panic");
    let mut ran = 0;
    for _ in 0..60 {
        crate::sim::advance_ms(100);
        nap(1000);
        ran = world(|w| w.ev.iter().filter(|e| e["e"] == "end").count());
        if ran > 0 {
            break;
        }
    }
    let used: Vec<i64> = (0..MAX as i64).filter(|i| USED[*i as usize].load(SeqCst) > 0).collect();
    let mut g = log.lock().unwrap();
    g.ev.push(json!({"e":"work","who":-1,"res":res,"addr":ran as i64,"look":used.len() as i64}));
    let o = json!({"name":s["name"],"end":"ok","steps":g.ev});
    std::fs::write(out, o.to_string()).unwrap();
    unsafe { libc::_exit(0) };
}

pub fn run(scripts: &str, out: &str, par: usize) {
    let src = std::fs::read_to_string(scripts).unwrap();
    let scripts: Vec<Value> = src.lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    let dir = format!("{out}.d");
    std::fs::create_dir_all(&dir).unwrap();
    let mut running: Vec<(i32, usize, i64)> = vec![];
    let mut next = 0;
    while next < scripts.len() || !running.is_empty() {
        while running.len() < par && next < scripts.len() {
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                child(&scripts[next], &format!("{dir}/{next}.json"));
            }
            running.push((pid, next, crate::sim::real_ms()));
            next += 1;
        }
        let mut st = 0;
        let pid = unsafe { libc::waitpid(-1, &mut st, libc::WNOHANG) };
        if pid <= 0 {
            for (p, _, t0) in &running {
                if crate::sim::real_ms() - t0 > 60_000 {
                    unsafe { libc::kill(*p, libc::SIGKILL) };
                }
            }
            nap(200);
            continue;
        }
        running.retain(|r| r.0 != pid);
    }
    let mut o = String::new();
    for (i, s) in scripts.iter().enumerate() {
        match std::fs::read_to_string(format!("{dir}/{i}.json")) {
            Ok(s) => o.push_str(&s),
            Err(_) => o.push_str(
                &json!({"name":s["name"],"end":"died","steps":[{"e":"start","who":0,"res":"died","addr":-1,"look":-1}]}).to_string(),
            ),
        }
        o.push('\n');
    }
    std::fs::write(out, o).unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
}
