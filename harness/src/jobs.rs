//! Job types used by the driver. A job body announces itself, then waits at a gate that only the
//! driver opens; so the driver decides when and how each execution ends.
use aj::{async_trait, job, BackgroundJob, Executable, Job, JobContext};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Default)]
pub struct GateState {
    out: Option<String>,
    waker: Option<Waker>,
}
#[derive(Clone, Default)]
pub struct Gate(Arc<Mutex<GateState>>);
impl Gate {
    pub fn open(&self, out: &str) {
        let w = {
            let mut s = self.0.lock().unwrap();
            s.out = Some(out.to_string());
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}
impl Future for Gate {
    type Output = String;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<String> {
        let mut s = self.0.lock().unwrap();
        match s.out.take() {
            Some(o) => Poll::Ready(o),
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

pub struct Live {
    pub id: String,
    pub ph: &'static str, // bf (in a before hook) | body | af (in an after hook)
    pub plugin: usize,
    pub gate: Gate,
    pub serial: u64,
    pub v: i64,
    pub ty: &'static str,
}

#[derive(Default)]
pub struct World {
    /// global event log, in real order
    pub ev: Vec<Value>,
    pub live: Vec<Live>,
    pub serial: u64,
    /// bodies return at once with this outcome
    pub auto: Option<String>,
    pub hold_before: bool,
    pub hold_after: bool,
    /// function jobs do not know their id: it is told by their first argument
    pub vid: HashMap<i64, String>,
    /// a request the body of a job is to make, and its answer
    pub inner: Option<Fut>,
    pub inner_res: Option<Value>,
    /// the next execution of this job panics before its body
    pub prepanic: Option<String>,
    /// calls of hooks that panic: plugin, hook, which call; and the calls so far
    pub hook_panics: Vec<Value>,
    pub hook_calls: HashMap<(usize, String), u64>,
}
pub static WORLD: Mutex<Option<World>> = Mutex::new(None);
pub fn world<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let mut w = match WORLD.lock() {
        Ok(w) => w,
        Err(p) => p.into_inner(),
    };
    f(w.get_or_insert_with(World::default))
}

/// Whether the hook before the body is to panic.
fn prepanic(ty: &str, id: &str) {
    let hit = world(|w| w.prepanic.as_deref() == Some(id) && w.prepanic.take().is_some());
    if hit {
        log_event(json!({"e":"end","ty":ty,"id":id,"out":"panicpre"}));
        panic!("hook panics");
    }
}
fn outcome(v: i64, out: &str) -> Result<i64, String> {
    match out {
        "ok" => Ok(v),
        "panic" => panic!("job body panics"),
        "panicpost" | "panicjudge" => Err(out.into()),
        _ => Err("failed".into()),
    }
}
fn postpanic(o: &Result<i64, String>, at: &str) {
    if o.as_ref().err().map(|e| e.as_str()) == Some(at) {
        panic!("hook panics");
    }
}
pub fn log_event(v: Value) {
    world(|w| w.ev.push(v));
}

/// Wait at a gate registered under (id, phase); returns what the driver said.
pub async fn wait_gate(
    ty: &'static str,
    id: &str,
    ph: &'static str,
    plugin: usize,
    v: i64,
) -> String {
    let (gate, serial) = world(|w| {
        w.serial += 1;
        let gate = Gate::default();
        w.live.push(Live {
            id: id.to_string(),
            ph,
            plugin,
            gate: gate.clone(),
            serial: w.serial,
            v,
            ty,
        });
        (gate, w.serial)
    });
    // If the future is dropped (actor died) the execution is gone.
    struct Guard(u64);
    impl Drop for Guard {
        fn drop(&mut self) {
            world(|w| w.live.retain(|l| l.serial != self.0));
        }
    }
    let _g = Guard(serial);
    loop {
        let out = gate.clone().await;
        if out == BLOCK {
            crate::sim::block_here();
            continue;
        }
        // the body makes a request of its own
        let f = if out == INNER { world(|w| w.inner.take()) } else { return out };
        if let Some(f) = f {
            let r = f.await;
            world(|w| w.inner_res = Some(r));
        }
    }
}
pub const INNER: &str = "\u{1}";
pub const BLOCK: &str = "\u{2}";
pub type Fut = Pin<Box<dyn Future<Output = Value> + Send>>;
pub type SubmitFut = Pin<Box<dyn Future<Output = Result<String, aj::Error>> + Send>>;

pub fn digest<T: Debug>(t: &T) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in format!("{t:?}").bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    format!("{:08x}", (h ^ (h >> 32)) as u32)
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
pub enum Shape {
    #[default]
    Unit,
    Tup(i64, String),
    Rec {
        a: Option<Box<Blob>>,
        b: Vec<u8>,
    },
}
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
pub struct Blob {
    pub n: Vec<i64>,
    pub u: u64,
    pub f: f64,
    pub o: Option<String>,
    pub m: BTreeMap<String, i32>,
    pub sh: Shape,
    pub c: char,
    pub bad: Bad,
}
/// Parts that cannot be stored, or not be read back.
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq, Default)]
pub enum Bad {
    #[default]
    No,
    Keys(BTreeMap<(i32, i32), i32>),
    Float(f64),
    Deep(Nest),
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Default)]
pub struct Nest {
    pub n: Option<Box<Nest>>,
}
pub fn nest() -> Nest {
    (0..200).fold(Nest::default(), |n, _| Nest { n: Some(Box::new(n)) })
}
pub const POISON: i64 = 900_000_000;

pub fn blob(seed: u64, depth: u32) -> Blob {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut r = move || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x
    };
    let strs = [
        "", " ", "\"quoted\"", "a:queue:Queued", "\\", "\n\r\t\0", "ünï-çødé ✓ 💥", "{}", "null",
        "\u{feff}", "'; DROP", "0", "true",
    ];
    let chars = ['a', '"', '\\', '\n', '✓', '💥', '\0'];
    Blob {
        n: (0..r() % 4).map(|_| [i64::MIN, i64::MAX, 0, -1, 42][(r() % 5) as usize]).collect(),
        u: [0, u64::MAX, 1 << 53, r()][(r() % 4) as usize],
        f: [0.0, -0.0, 1.5e300, 0.1, -123.456, f64::MIN_POSITIVE][(r() % 6) as usize],
        o: if r() % 2 == 0 { None } else { Some(strs[(r() % 13) as usize].into()) },
        m: (0..r() % 3).map(|i| (strs[(r() % 13) as usize].to_string(), i as i32)).collect(),
        sh: match r() % 3 {
            0 => Shape::Unit,
            1 => Shape::Tup(r() as i64, strs[(r() % 13) as usize].into()),
            _ => Shape::Rec {
                a: if depth > 0 { Some(Box::new(blob(r(), depth - 1))) } else { None },
                b: (0..r() % 5).map(|_| r() as u8).collect(),
            },
        },
        c: chars[(r() % 7) as usize],
        bad: Bad::No,
    }
}
pub fn blob_of(v: i64) -> Blob {
    Blob {
        bad: match v - POISON {
            1 => Bad::Keys(BTreeMap::from([((1, 2), 3)])),
            2 => Bad::Float(f64::NAN),
            3 => Bad::Deep(nest()),
            10 => Bad::Float(0.9073038322028689),
            _ => Bad::No,
        },
        ..blob((v as u64).wrapping_add(7), 2)
    }
}

/// What the driver needs of a job type.
pub trait TJob:
    BackgroundJob
    + Executable
    + Unpin
    + Send
    + Sync
    + Clone
    + Serialize
    + DeserializeOwned
    + Debug
    + 'static
{
    fn mk(v: i64, s: &str) -> Self;
    fn v(&self) -> i64;
    fn mu(&self) -> i64;
    fn dg(&self) -> String;
    fn new_job(self) -> Job<Self> {
        self.job()
    }
    /// For jobs declared with the function attribute: submission through the functions it makes.
    fn by_function(self, _ctx: JobContext, _wait: bool) -> Option<SubmitFut> {
        None
    }
}

macro_rules! gated {
    ($name:ident) => {
        #[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone)]
        pub struct $name {
            pub v: i64,
            pub s: String,
            pub blob: Blob,
            pub mu: i64,
        }
        #[async_trait]
        impl Executable for $name {
            type Output = Result<i64, String>;
            async fn pre_execute(&mut self, c: &JobContext) {
                log_event(json!({"e":"pre","ty":stringify!($name),"id":c.job_id,"rc":c.run_count}));
                prepanic(stringify!($name), &c.job_id);
            }
            async fn execute(&mut self, c: &JobContext) -> Self::Output {
                let id = c.job_id.clone();
                log_event(json!({"e":"start","ty":stringify!($name),"id":id,"rc":c.run_count,"v":self.v,"mu":self.mu,"d":self.dg(),
                    "t":crate::sim::vnow_ms()}));
                let auto = world(|w| w.auto.clone());
                let out = match auto {
                    Some(o) => o,
                    None => wait_gate(stringify!($name), &id, "body", 0, self.v).await,
                };
                self.mu += 1;
                log_event(json!({"e":"end","ty":stringify!($name),"id":id,"v":self.v,"out":out}));
                outcome(self.v, &out)
            }
            async fn post_execute(&mut self, output: Self::Output, c: &JobContext) -> Self::Output {
                log_event(json!({"e":"post","ty":stringify!($name),"id":c.job_id}));
                postpanic(&output, "panicpost");
                output
            }
            async fn is_failed_output(&self, o: &Self::Output) -> bool {
                postpanic(o, "panicjudge");
                o.is_err()
            }
        }
        impl TJob for $name {
            fn mk(v: i64, s: &str) -> Self {
                Self { v, s: s.into(), blob: blob_of(v), mu: 0 }
            }
            fn v(&self) -> i64 {
                self.v
            }
            fn mu(&self) -> i64 {
                self.mu
            }
            fn dg(&self) -> String {
                digest(&(self.v, &self.s, &self.blob))
            }
        }
    };
}
gated!(J0);
// names that are easily confused
#[allow(non_camel_case_types)]
mod small {
    use super::*;
    gated!(j0);
}
pub use small::j0 as J1;
gated!(OrderConfirmationEmailForCustomer);
gated!(OrderConfirmationEmailForCustomers);
pub use OrderConfirmationEmailForCustomer as J2;
pub use OrderConfirmationEmailForCustomers as J3;
/// Another type with the name of the first one.
pub mod other {
    use super::*;
    gated!(J0);
}

/// A type that uses all of what Executable offers: it changes its data before, in and after the
/// execution, the outcome is turned around afterwards, and it decides itself when to retry.
#[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone)]
pub struct JH {
    pub v: i64,
    pub s: String,
    pub blob: Blob,
    pub mu: i64,
}
pub const JH_LATER_MS: i64 = 70;
#[async_trait]
impl Executable for JH {
    type Output = Result<i64, String>;
    async fn pre_execute(&mut self, c: &JobContext) {
        self.mu += 1;
        log_event(json!({"e":"pre","ty":"JH","id":c.job_id,"rc":c.run_count}));
        prepanic("JH", &c.job_id);
    }
    async fn execute(&mut self, c: &JobContext) -> Self::Output {
        let id = c.job_id.clone();
        log_event(json!({"e":"start","ty":"JH","id":id,"rc":c.run_count,"v":self.v,"mu":self.mu,"d":self.dg(),
            "t":crate::sim::vnow_ms()}));
        let auto = world(|w| w.auto.clone());
        let out = match auto {
            Some(o) => o,
            None => wait_gate("JH", &id, "body", 0, self.v).await,
        };
        self.mu += 1;
        log_event(json!({"e":"end","ty":"JH","id":id,"v":self.v,"out":out}));
        outcome(self.v, &out)
    }
    async fn post_execute(&mut self, output: Self::Output, c: &JobContext) -> Self::Output {
        self.mu += 1;
        log_event(json!({"e":"post","ty":"JH","id":c.job_id}));
        postpanic(&output, "panicpost");
        match output {
            Err(e) if e == "panicjudge" => Err(e),
            Ok(_) => Err("turned".into()),
            Err(_) => Ok(self.v),
        }
    }
    async fn is_failed_output(&self, o: &Self::Output) -> bool {
        postpanic(o, "panicjudge");
        o.is_err()
    }
    async fn retry_at(
        &self,
        retry: &mut aj::job::Retry,
        output: Self::Output,
    ) -> Option<chrono::DateTime<chrono::Utc>> {
        (output.is_err() && retry.should_retry()).then(|| {
            retry.retry_at(Some(chrono::Utc::now() + chrono::Duration::milliseconds(JH_LATER_MS)))
        })
    }
}
impl TJob for JH {
    fn mk(v: i64, s: &str) -> Self {
        Self { v, s: s.into(), blob: blob_of(v), mu: 0 }
    }
    fn v(&self) -> i64 {
        self.v
    }
    fn mu(&self) -> i64 {
        self.mu
    }
    fn dg(&self) -> String {
        digest(&(self.v, &self.s, &self.blob))
    }
}

/// Data that cannot be stored, or not be read back: a submission must be rejected.
#[derive(BackgroundJob, Serialize, Deserialize, Debug, Clone)]
pub struct JU {
    pub m: HashMap<(i32, i32), i32>,
    pub f: f64,
    pub deep: Nest,
    pub v: i64,
}
#[async_trait]
impl Executable for JU {
    type Output = ();
    async fn execute(&mut self, c: &JobContext) {
        log_event(json!({"e":"start","ty":"JU","id":c.job_id,"rc":c.run_count,"v":self.v,"mu":0,"d":"","t":0}));
    }
}
impl TJob for JU {
    fn mk(v: i64, _: &str) -> Self {
        let mut j = Self { m: HashMap::new(), f: 0.5, deep: Nest::default(), v };
        match v.rem_euclid(4) {
            0 => j.f = f64::NEG_INFINITY,
            1 => j.m = HashMap::from([((1, 2), 3)]),
            2 => j.f = f64::NAN,
            _ => j.deep = nest(),
        }
        j
    }
    fn v(&self) -> i64 {
        self.v
    }
    fn mu(&self) -> i64 {
        0
    }
    fn dg(&self) -> String {
        "unstorable".into()
    }
}

// Jobs declared with the function attribute.
#[job]
fn attr_sync(v: i64, s: String, blob: Blob) -> i64 {
    log_event(json!({"e":"start","ty":"AS","id":"","rc":0,"v":v,"mu":0,"d":digest(&(v, &s, &blob)),"t":crate::sim::vnow_ms()}));
    v
}
/// A name that differs from another one in an underscore only.
#[job]
fn attrsync(v: i64, s: String, blob: Blob) {
    log_event(json!({"e":"start","ty":"AP","id":"","rc":0,"v":v,"mu":0,"d":digest(&(&s, v, &blob)),"t":crate::sim::vnow_ms()}));
}
#[job]
async fn attr_async(v: i64, s: String, blob: Blob) -> Result<i64, String> {
    log_event(json!({"e":"start","ty":"AA","id":"","rc":0,"v":v,"mu":0,"d":digest(&(v, &s, &blob)),"t":crate::sim::vnow_ms()}));
    let out = match world(|w| w.auto.clone()) {
        Some(o) => o,
        None => wait_gate("AA", "", "body", 0, v).await,
    };
    log_event(json!({"e":"end","ty":"AA","id":"","v":v,"out":out}));
    if out == "panic" {
        panic!("job body panics");
    }
    if out == "ok" {
        Ok(v)
    } else {
        Err("failed".into())
    }
}
#[job]
async fn attr_order(a: i64, b: i64, c: String, d: (i64, String)) {
    log_event(json!({"e":"start","ty":"AO","id":"","rc":0,"v":a,"mu":0,"d":digest(&(a, b, &c, &d)),"t":crate::sim::vnow_ms()}));
}

/// A job declared with the function attribute that can be followed like any other.
#[job]
async fn attrfull(v: i64, s: String, blob: Blob) -> Result<i64, String> {
    let id = world(|w| w.vid.get(&v).cloned()).unwrap_or_default();
    log_event(json!({"e":"pre","ty":"JobAttrfull","id":id,"rc":-1}));
    log_event(json!({"e":"start","ty":"JobAttrfull","id":id,"rc":-1,"v":v,"mu":0,"d":digest(&(v, &s, &blob)),"t":crate::sim::vnow_ms()}));
    let out = match world(|w| w.auto.clone()) {
        Some(o) => o,
        None => wait_gate("JobAttrfull", &id, "body", 0, v).await,
    };
    let out = if out.starts_with("panic") { "panic".to_string() } else { out };
    log_event(json!({"e":"end","ty":"JobAttrfull","id":id,"v":v,"out":out}));
    if out == "panic" {
        panic!("job body panics");
    }
    log_event(json!({"e":"post","ty":"JobAttrfull","id":id}));
    if out == "ok" {
        Ok(v)
    } else {
        Err("failed".into())
    }
}
impl TJob for attrfull::JobAttrfull {
    fn mk(v: i64, s: &str) -> Self {
        Self { v, s: s.into(), blob: blob_of(v) }
    }
    fn v(&self) -> i64 {
        self.v
    }
    fn mu(&self) -> i64 {
        0
    }
    fn dg(&self) -> String {
        digest(&(self.v, &self.s, &self.blob))
    }
    fn by_function(self, ctx: JobContext, wait: bool) -> Option<SubmitFut> {
        Some(Box::pin(async move {
            if wait {
                attrfull::run_with_context(self.v, self.s, self.blob, ctx).await
            } else {
                let id = ctx.job_id.clone();
                attrfull::just_run_with_context(self.v, self.s, self.blob, ctx);
                Ok(id)
            }
        }))
    }
}
