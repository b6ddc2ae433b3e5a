//! The backend the engine under test uses: delegates to a bundled backend, counts operations and
//! can make chosen operations fail or stop the process.
use aj::backend::types::{Backend, QueueDirection};
use aj::Error;
use serde_json::{json, Value};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub struct Ctl {
    /// operations since the counter was last reset
    pub n: AtomicI64,
    /// operations with index in [from, to) fail without effect
    pub from: AtomicI64,
    pub to: AtomicI64,
    pub failed: AtomicI64,
    /// the process stops before the operation with this index
    pub crash: AtomicI64,
    pub names: Mutex<Vec<String>>,
    pub keys: Mutex<Vec<(String, String)>>,
    pub log: Mutex<Vec<Value>>,
    pub logging: AtomicBool,
}
pub static CTL: Ctl = Ctl {
    n: AtomicI64::new(0),
    from: AtomicI64::new(i64::MAX),
    to: AtomicI64::new(i64::MAX),
    failed: AtomicI64::new(0),
    crash: AtomicI64::new(i64::MAX),
    names: Mutex::new(Vec::new()),
    keys: Mutex::new(Vec::new()),
    log: Mutex::new(Vec::new()),
    logging: AtomicBool::new(false),
};

pub fn disarm() {
    CTL.from.store(i64::MAX, SeqCst);
    CTL.to.store(i64::MAX, SeqCst);
    CTL.crash.store(i64::MAX, SeqCst);
}
pub fn reset() {
    CTL.n.store(0, SeqCst);
    CTL.failed.store(0, SeqCst);
    CTL.log.lock().unwrap().clear();
}

pub type Inner = Arc<dyn Backend + Send + Sync>;
pub static ON_CRASH: Mutex<Option<Box<dyn Fn() + Send>>> = Mutex::new(None);

#[derive(Clone)]
pub struct Wrap(pub Inner);

fn name(n: &str) {
    let mut v = CTL.names.lock().unwrap();
    if !v.iter().any(|x| x == n) {
        v.push(n.to_string());
    }
}
fn key(h: &str, k: &str) {
    let mut v = CTL.keys.lock().unwrap();
    if !v.iter().any(|x| x.0 == h && x.1 == k) {
        v.push((h.to_string(), k.to_string()));
    }
}

fn gate(op: &str) -> Result<(), Error> {
    let i = CTL.n.fetch_add(1, SeqCst);
    let fail = i >= CTL.from.load(SeqCst) && i < CTL.to.load(SeqCst);
    if CTL.logging.load(SeqCst) {
        CTL.log.lock().unwrap().push(json!([op, fail]));
    }
    if i == CTL.crash.load(SeqCst) {
        let f = ON_CRASH.lock().unwrap();
        if let Some(f) = f.as_ref() {
            f();
        }
        unsafe { libc::_exit(77) };
    }
    if fail {
        CTL.failed.fetch_add(1, SeqCst);
        return Err(Error::NoQueueRegister);
    }
    Ok(())
}

impl Backend for Wrap {
    fn queue_push(&self, q: &str, item: &str) -> Result<(), Error> {
        name(q);
        gate("push")?;
        self.0.queue_push(q, item)
    }
    fn queue_move(
        &self,
        a: &str,
        b: &str,
        c: usize,
        d: QueueDirection,
        e: QueueDirection,
    ) -> Result<Vec<String>, Error> {
        name(a);
        name(b);
        gate("move")?;
        self.0.queue_move(a, b, c, d, e)
    }
    fn queue_remove(&self, q: &str, item: &str) -> Result<(), Error> {
        name(q);
        gate("remove")?;
        self.0.queue_remove(q, item)
    }
    fn queue_get(&self, q: &str, c: usize, d: QueueDirection) -> Result<Vec<String>, Error> {
        name(q);
        gate("get")?;
        self.0.queue_get(q, c, d)
    }
    fn queue_count(&self, q: &str) -> Result<usize, Error> {
        name(q);
        gate("count")?;
        self.0.queue_count(q)
    }
    fn storage_upsert(&self, h: &str, k: &str, v: String) -> Result<(), Error> {
        key(h, k);
        gate("upsert")?;
        self.0.storage_upsert(h, k, v)
    }
    fn storage_get(&self, h: &str, k: &str) -> Result<Option<String>, Error> {
        key(h, k);
        gate("read")?;
        self.0.storage_get(h, k)
    }
}

/// Front-to-back contents of every list and all stored values, through the inner backend.
pub fn dump(inner: &Inner) -> Value {
    let names = CTL.names.lock().unwrap().clone();
    let keys = CTL.keys.lock().unwrap().clone();
    let lists: Vec<Value> = names
        .iter()
        .map(|n| json!([n, inner.queue_get(n, 100_000, QueueDirection::Front).unwrap_or_default()]))
        .collect();
    let vals: Vec<Value> = keys
        .iter()
        .map(|(h, k)| json!([h, k, inner.storage_get(h, k).ok().flatten()]))
        .collect();
    json!({"lists": lists, "vals": vals})
}
pub fn load(inner: &Inner, d: &Value) {
    for l in d["lists"].as_array().unwrap() {
        let n = l[0].as_str().unwrap();
        name(n);
        for it in l[1].as_array().unwrap().iter().rev() {
            inner.queue_push(n, it.as_str().unwrap()).unwrap();
        }
    }
    for v in d["vals"].as_array().unwrap() {
        key(v[0].as_str().unwrap(), v[1].as_str().unwrap());
        if let Some(s) = v[2].as_str() {
            inner
                .storage_upsert(v[0].as_str().unwrap(), v[1].as_str().unwrap(), s.to_string())
                .unwrap();
        }
    }
}
