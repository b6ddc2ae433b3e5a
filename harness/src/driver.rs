//! Interprets one script against the real engine and records a trace: after every step the whole
//! observable state is projected.
use crate::backend::{self, Inner, Wrap, CTL};
use crate::jobs::*;
use crate::sim;
use aj::backend::types::get_from_storage;
use aj::job::{CronContext, JobStatus, JobType, Retry, RetryStrategy};
use aj::mem::InMemory;
use aj::queue::{EnqueueConfig, WorkQueueConfig};
use aj::redis::Redis;
use aj::{BackgroundJob, Job, JobContext, AJ};
use chrono::{DateTime, Duration, TimeZone, Utc};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}

pub struct Client {
    fut: Option<Fut>,
    flag: Arc<Flag>,
    res: Option<Value>,
}

const CLIP: i64 = 2_000_000_000;
fn clip(x: i64) -> i64 {
    x.clamp(-CLIP, CLIP)
}
/// The first instant of the clock (whole milliseconds and sub_us) that is not before t.
fn rel(t: &DateTime<Utc>) -> i64 {
    let us = t.timestamp_micros().saturating_sub(sim::BASE_S * 1_000_000 + sim::sub_us());
    clip(us.div_euclid(1000) + (us.rem_euclid(1000) != 0) as i64)
}
fn rel_ms(t: Option<i64>) -> i64 {
    t.map_or(-1, |t| clip(t - sim::BASE_S * 1000))
}
fn abs(ms: i64) -> DateTime<Utc> {
    Utc.timestamp_millis_opt(sim::BASE_S * 1000 + ms).unwrap()
}
fn abs_us(ms: i64, us: i64) -> DateTime<Utc> {
    abs(ms) + Duration::microseconds(us)
}
fn gi(v: &Value, k: &str, d: i64) -> i64 {
    v[k].as_i64().unwrap_or(d)
}
fn gs<'a>(v: &'a Value, k: &str) -> &'a str {
    v[k].as_str().unwrap_or("")
}
fn gb(v: &Value, k: &str, d: bool) -> bool {
    v[k].as_bool().unwrap_or(d)
}

pub fn cron_expr(per: i64, once: i64) -> String {
    if once >= 0 {
        return abs(once).format("%-S %-M %-H %-d %-m * %Y").to_string();
    }
    match per {
        1000 => "* * * * * * *".into(),
        60_000 => "0 * * * * * *".into(),
        3_600_000 => "0 0 * * * * *".into(),
        86_400_000 => "0 0 0 * * * *".into(),
        p if p < 60_000 => format!("*/{} * * * * * *", p / 1000),
        p => format!("0 */{} * * * * *", p / 60_000),
    }
}

fn expr_of(p: &Value) -> String {
    match gs(p, "ex") {
        "" => cron_expr(gi(p, "per", 1000), gi(p, "once", -1)),
        e => e.into(),
    }
}

fn mk_retry(p: &Value) -> Option<Retry> {
    let rmax = gi(p, "rmax", -2);
    if rmax == -2 {
        return None;
    }
    let max = if rmax < 0 { None } else { Some(rmax as i32) };
    let b = Duration::microseconds(gi(p, "rb", 100) * 1000 + gi(p, "rh", 0) * 500);
    let st = gs(p, "rst");
    Some(if gi(p, "ret0", 0) != 0 {
        let s = if st == "exp" { RetryStrategy::ExponentialBackoff(b) } else { RetryStrategy::Interval(b) };
        Retry::new(gi(p, "ret0", 0) as i32, max, s)
    } else if max == Some(3) && st != "exp" && b == Duration::milliseconds(100) && gi(p, "v", 0) % 2 == 0 {
        Retry::default()
    } else if st == "exp" {
        Retry::new_exponential_backoff(max, b)
    } else {
        Retry::new_interval_retry(max, b)
    })
}

/// An arbitrary value that has to stay what it is (jobs made by `cron` have the default).
const TICK_NUMBER: i32 = 3;
fn mk_type(p: &Value) -> JobType {
    match gs(p, "kind") {
        "sched" => JobType::new_schedule(abs_us(gi(p, "at", 0), gi(p, "sub", 0))),
        "cron" => {
            let c = CronContext {
                tick_number: TICK_NUMBER,
                max_repeat: match gi(p, "mr", -1) {
                    -1 => None,
                    n => Some(n as i32),
                },
                end_at: match gi(p, "ea", -1) {
                    -1 => None,
                    n => Some(abs_us(n, sim::sub_us())),
                },
            };
            JobType::new_cron(&expr_of(p), c).unwrap()
        }
        _ => JobType::Normal,
    }
}

fn mk_job<T: TJob>(p: &Value, rid: &str) -> Job<T> {
    let mut j = T::mk(gi(p, "v", 0), gs(p, "s")).new_job();
    if gi(p, "v", 0) % 3 == 0 && !p["delay"].is_i64() {
        return if gi(p, "v", 0) % 2 == 0 { j.context(mk_ctx(p, rid)) } else { j.set_context(mk_ctx(p, rid)) };
    }
    j = j.set_id(rid.to_string());
    if gs(p, "kind") == "sched" && p["delay"].is_i64() {
        j = j.delay(Duration::milliseconds(gi(p, "delay", 0)));
    } else if gs(p, "kind") == "cron" && gi(p, "mr", -1) == -1 && gi(p, "ea", -1) == -1 && gi(p, "v", 0) % 2 == 0 {
        j = j.cron(&expr_of(p));
    } else if gs(p, "kind") == "sched" && gi(p, "v", 0) % 2 == 0 {
        j = j.schedule_at(abs_us(gi(p, "at", 0), gi(p, "sub", 0)));
    } else if gs(p, "kind") != "normal" {
        j = j.job_type(mk_type(p));
    }
    if let Some(r) = mk_retry(p) {
        j = j.retry(r);
    }
    j
}

fn mk_ctx(p: &Value, rid: &str) -> JobContext {
    let mut c = JobContext::new(rid.to_string());
    c.job_type = mk_type(p);
    c.retry = mk_retry(p);
    c.job_status = match gs(p, "cst") {
        "Running" => JobStatus::Running,
        "Finished" => JobStatus::Finished,
        "Failed" => JobStatus::Failed,
        "Canceled" => JobStatus::Canceled,
        _ => JobStatus::Queued,
    };
    c
}

fn okerr<T, E>(r: Result<T, E>) -> Value {
    match r {
        Ok(_) => json!("ok"),
        Err(_) => json!("err"),
    }
}

macro_rules! dispatch {
    ($q:expr, $t:ident => $body:expr) => {
        match $q {
            0 => {
                type $t = J0;
                $body
            }
            1 => {
                type $t = J1;
                $body
            }
            2 => {
                type $t = J2;
                $body
            }
            3 => {
                type $t = J3;
                $body
            }
            5 => {
                type $t = attrfull::JobAttrfull;
                $body
            }
            6 => {
                type $t = JH;
                $body
            }
            7 => {
                type $t = other::J0;
                $body
            }
            _ => {
                type $t = JU;
                $body
            }
        }
    };
}
/// What the data of a request looks like to an observer.
fn digest_label(lab: &mut Value) {
    let (v, st) = (gi(lab, "v", 0), gs(lab, "s").to_string());
    let d = match gs(lab, "op") {
        "submit" | "update" => J0::mk(v, &st).dg(),
        "attr" if gs(lab, "fn") == "order" => digest(&(v, v + 1, &st, &(v + 2, st.clone()))),
        "attr" if gs(lab, "fn") == "plain" => digest(&(&st, v, &blob((v as u64).wrapping_add(7), 2))),
        "attr" => digest(&(v, &st, &blob((v as u64).wrapping_add(7), 2))),
        _ => return,
    };
    lab["d"] = json!(d);
}
const FILL: &str = "~fill~";
const TYPES: [&str; 8] = ["J0", "j0", "OrderConfirmationEmailForCustomer", "OrderConfirmationEmailForCustomers", "JU", "JobAttrfull", "JH", "J0!"];

pub struct Driver {
    inner: Inner,
    /// handle -> (queue, real id)
    h: BTreeMap<String, (usize, String)>,
    clients: HashMap<String, Client>,
    policies: Vec<Value>,
    retry_cache: HashMap<String, (usize, i64)>,
    exprs: HashMap<String, (i64, i64, Value)>,
    pub steps: Vec<Value>,
    registered: [bool; 8],
    /// types the script mentions
    used: [bool; 8],
    plug: Option<tokio::sync::mpsc::UnboundedSender<()>>,
    /// port of the Redis server
    server: Option<u16>,
    engine: String,
    want_lists: bool,
    frozen: bool,
    blocked: Option<usize>,
    filled: i64,
}

#[derive(Debug)]
pub struct Stop(pub String);

fn poll_once(c: &mut Client) -> bool {
    if c.res.is_some() {
        return true;
    }
    c.flag.0.store(false, SeqCst);
    let w = Waker::from(c.flag.clone());
    let mut cx = Context::from_waker(&w);
    let f = c.fut.as_mut().unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(&mut cx)));
    match r {
        Ok(Poll::Ready(v)) => {
            c.res = Some(v);
            c.fut = None;
            true
        }
        Ok(Poll::Pending) => false,
        Err(_) => {
            c.res = Some(json!("panic"));
            c.fut = None;
            true
        }
    }
}
fn client(f: Fut) -> Client {
    Client { fut: Some(f), flag: Arc::new(Flag(AtomicBool::new(false))), res: None }
}

fn settle() -> Result<(), Stop> {
    sim::settle().map_err(Stop)
}

/// Run a client call to its end; "stuck" if the engine comes to rest without answering.
fn finish(c: &mut Client) -> Result<Value, Stop> {
    loop {
        if poll_once(c) {
            settle()?;
            return Ok(c.res.clone().unwrap());
        }
        settle()?;
        if !c.flag.0.load(SeqCst) {
            return Ok(json!("stuck"));
        }
    }
}
pub fn call<F: Future<Output = Value> + Send + 'static>(f: F) -> Result<Value, Stop> {
    finish(&mut client(Box::pin(f)))
}

impl Driver {
    pub fn new(script: &Value, resume: Option<&Value>) -> Result<Driver, Stop> {
        let mut server = None;
        let inner: Inner = match gs(script, "backend") {
            "redis" => {
                let port = crate::redis_fake::start();
                server = Some(port);
                Arc::new(Redis::new(format!("redis://127.0.0.1:{port}/")))
            }
            _ => Arc::new(InMemory::default()),
        };
        sim::set_sub_us(gi(script, "us", 0));
        if let Some(r) = resume {
            backend::load(&inner, &r["dump"]);
            sim::set_now_ms(r["now"].as_i64().unwrap());
        }
        let nplug = gi(script, "plugins", 1) as usize;
        world(|w| w.hook_panics = script["pp"].as_array().cloned().unwrap_or_default());
        let engine = gs(script, "engine").to_string();
        let wrap = Wrap(inner.clone());
        let mut plug = None;
        match engine.as_str() {
            // no Actix runtime anywhere: the engine starts its own
            "bare" => {
                AJ::start(wrap);
            }
            _ => {
                let (tx, rx) = std::sync::mpsc::channel();
                let (ptx, mut prx) = tokio::sync::mpsc::unbounded_channel();
                plug = Some(ptx);
                std::thread::spawn(move || {
                    aj::export::core::actix_rt::System::new().block_on(async move {
                        AJ::start(wrap);
                        for i in 0..nplug {
                            let _ = AJ::register_plugin(crate::plugin::Rec(i)).await;
                        }
                        tx.send(()).unwrap();
                        let mut i = nplug;
                        while prx.recv().await.is_some() {
                            let _ = AJ::register_plugin(crate::plugin::Rec(i)).await;
                            i += 1;
                        }
                        std::future::pending::<()>().await;
                    });
                });
                rx.recv().map_err(|_| Stop("start".into()))?;
            }
        }
        settle()?;
        let mut policies: Vec<Value> = vec![];
        let mut exprs = HashMap::new();
        let mut used = [false; 8];
        used[0] = true;
        for s in script["steps"].as_array().unwrap() {
            for s in [s, &s["call"]] {
                let q = gi(s, "q", 0) as usize;
                used[q] = true;
                if q == 5 && s["v"].is_i64() {
                    let rid = if s["rid"].is_string() { gs(s, "rid") } else { gs(s, "id") };
                    world(|w| w.vid.insert(gi(s, "v", 0), rid.to_string()));
                }
                if gi(s, "rmax", -2) != -2 {
                    let p = json!({"rmax":gi(s,"rmax",0),"rst":gs(s,"rst"),"rb":gi(s,"rb",100),"rh":gi(s,"rh",0)});
                    if !policies.contains(&p) {
                        policies.push(p);
                    }
                }
                if gs(s, "kind") == "cron" {
                    let (per, once) = (gi(s, "per", 1000), gi(s, "once", -1));
                    let sl = if s["sl"].is_array() { s["sl"].clone() } else { json!([]) };
                    let per = if once >= 0 || gs(s, "ex") != "" { 0 } else { per };
                    exprs.insert(expr_of(s), (per, once, sl));
                }
            }
        }
        let mut d = Driver {
            inner,
            h: BTreeMap::new(),
            clients: HashMap::new(),
            policies,
            retry_cache: HashMap::new(),
            exprs,
            steps: vec![],
            registered: [false; 8],
            used,
            plug,
            server,
            engine,
            want_lists: gb(script, "lists", true),
            frozen: false,
            blocked: None,
            filled: 0,
        };
        if let Some(r) = resume {
            d.steps = r["steps"].as_array().unwrap().clone();
            for (k, v) in r["h"].as_object().unwrap() {
                d.h.insert(
                    k.clone(),
                    (v[0].as_u64().unwrap() as usize, v[1].as_str().unwrap().to_string()),
                );
            }
        }
        Ok(d)
    }

    fn retry_obs(&mut self, r: &Option<Retry>) -> Value {
        let Some(r) = r else {
            return json!({"rmax":-2,"rst":"none","rb":0,"rh":0,"ret":0});
        };
        let key = format!("{r:?}");
        if !self.retry_cache.contains_key(&key) {
            for (i, p) in self.policies.iter().enumerate() {
                let b = Duration::microseconds(gi(p, "rb", 100) * 1000 + gi(p, "rh", 0) * 500);
                let rmax = gi(p, "rmax", 0);
                let max = if rmax < 0 { None } else { Some(rmax as i32) };
                for k in 0..=80 {
                    let st = if gs(p, "rst") == "exp" {
                        RetryStrategy::ExponentialBackoff(b)
                    } else {
                        RetryStrategy::Interval(b)
                    };
                    let c = format!("{:?}", Retry::new(k, max, st));
                    self.retry_cache.entry(c).or_insert((i, k as i64));
                }
            }
        }
        match self.retry_cache.get(&key) {
            Some((i, k)) => {
                let p = &self.policies[*i];
                json!({"rmax":p["rmax"],"rst":p["rst"],"rb":p["rb"],"rh":p["rh"],"ret":k})
            }
            None => json!({"rmax":-9,"rst":"unknown","rb":0,"rh":0,"ret":0}),
        }
    }

    fn rec<T: TJob>(&mut self, q: usize, j: &Job<T>) -> Value {
        let c = &j.context;
        let mut o = Map::new();
        o.insert("q".into(), json!(q));
        // what the job says of itself has to agree with its status
        let said = (j.is_queued(), j.is_running(), j.is_cancelled());
        let is = |s| c.job_status == s;
        let odd = said != (is(JobStatus::Queued), is(JobStatus::Running), is(JobStatus::Canceled));
        o.insert("st".into(), json!(format!("{:?}{}", c.job_status, if odd { " by name only" } else { "" })));
        let mut sl = json!([]);
        let (kind, at, per, once, rep, mr, ea) = match &c.job_type {
            JobType::Normal => ("normal", 0, 0, -1, 0, -1, -1),
            JobType::ScheduledAt(t) => ("sched", rel(t), 0, -1, 0, -1, -1),
            JobType::Cron(e, t, n, cc) => {
                let (mut p, on, s) = self.exprs.get(e).cloned().unwrap_or((-9, -9, json!([])));
                let by_cron = cc.tick_number == 0 && cc.max_repeat.is_none() && cc.end_at.is_none();
                if cc.tick_number != TICK_NUMBER && !by_cron {
                    p = -8;
                }
                sl = s;
                (
                    "cron",
                    rel(t),
                    p,
                    on,
                    *n as i64,
                    cc.max_repeat.map_or(-1, |x| x as i64),
                    cc.end_at.as_ref().map_or(-1, rel),
                )
            }
        };
        for (k, v) in
            [("at", at), ("per", per), ("once", once), ("rep", rep), ("mr", mr), ("ea", ea)]
        {
            o.insert(k.into(), json!(v));
        }
        o.insert("kind".into(), json!(kind));
        o.insert("sl".into(), sl);
        if let Value::Object(r) = self.retry_obs(&c.retry) {
            o.extend(r);
        }
        o.insert("rc".into(), json!(c.run_count));
        o.insert("v".into(), json!(clip(j.data.v())));
        o.insert("mu".into(), json!(clip(j.data.mu())));
        o.insert("d".into(), json!(j.data.dg()));
        o.insert("cr".into(), json!(rel_ms(Some(c.created_at))));
        o.insert("eq".into(), json!(rel_ms(c.enqueue_at)));
        o.insert("ru".into(), json!(rel_ms(c.run_at)));
        o.insert("co".into(), json!(rel_ms(c.complete_at)));
        o.insert("ca".into(), json!(rel_ms(c.cancel_at)));
        o.insert("id".into(), json!(self.handle(q, &c.job_id)));
        Value::Object(o)
    }

    fn handle(&self, q: usize, rid: &str) -> String {
        for (h, (hq, r)) in &self.h {
            if *hq == q && r == rid {
                return h.clone();
            }
        }
        for (h, (_, r)) in &self.h {
            if r == rid {
                return h.clone();
            }
        }
        format!("?{rid}")
    }
    fn handle_any(&self, rid: &str) -> String {
        for (h, (_, r)) in &self.h {
            if r == rid {
                return h.clone();
            }
        }
        format!("?{rid}")
    }

    fn lookup(&mut self, q: usize, rid: &str) -> Result<Option<Value>, Stop> {
        let rid = rid.to_string();
        dispatch!(q, T => {
            let job: Option<Job<T>> = if self.registered[q] && !self.frozen && self.blocked != Some(q) {
                let cell: Arc<Mutex<Option<Job<T>>>> = Arc::new(Mutex::new(None));
                let c2 = cell.clone();
                call(async move {
                    let j = AJ::get_job::<T>(&rid).await;
                    *c2.lock().unwrap() = j;
                    json!("ok")
                })?;
                let j = cell.lock().unwrap().take();
                j
            } else {
                get_from_storage::<Job<T>>(&*self.inner, &rid).ok().flatten()
            };
            Ok(job.map(|j| self.rec(q, &j)))
        })
    }

    pub fn state(&mut self) -> Result<Value, Stop> {
        let hs: Vec<(String, (usize, String))> =
            self.h.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        let mut jobs = Map::new();
        for (h, (q, rid)) in hs {
            if let Some(r) = self.lookup(q, &rid)? {
                jobs.insert(h, r);
            }
        }
        let mut lists = Map::new();
        if self.want_lists {
            let d = backend::dump(&self.inner);
            for (q, ty) in TYPES.iter().enumerate().filter(|(q, _)| self.used[*q]) {
                let mut l = Map::new();
                for st in ["Queued", "Running", "Finished", "Failed", "Canceled"] {
                    let mut items: Vec<Value> = vec![];
                    for x in d["lists"].as_array().unwrap() {
                        let n = x[0].as_str().unwrap();
                        if n.starts_with(&format!("{ty}:")) && n.ends_with(&format!(":{st}")) {
                            for i in x[1].as_array().unwrap().iter().filter(|i| !i.as_str().unwrap().starts_with(FILL)) {
                                items.push(json!(self.handle(q, i.as_str().unwrap())));
                            }
                        }
                    }
                    l.insert(st.into(), json!(items));
                }
                lists.insert(ty.to_string(), Value::Object(l));
            }
        }
        let ex: Vec<Value> = world(|w| {
            w.live
                .iter()
                .map(|l| (l.ty, l.id.clone(), l.ph, l.plugin))
                .collect::<Vec<_>>()
        })
        .into_iter()
        .map(|(ty, id, ph, p)| {
            let q = TYPES.iter().position(|t| *t == ty);
            let h = match q {
                Some(q) => self.handle(q, &id),
                None => self.handle_any(&id),
            };
            json!({"id":h,"ph":ph,"p":p})
        })
        .collect();
        Ok(json!({"now":clip(sim::vnow_ms()),"jobs":jobs,"ls":lists,"ex":ex}))
    }

    fn events(&mut self) -> Vec<Value> {
        let evs = world(|w| std::mem::take(&mut w.ev));
        evs.into_iter()
            .filter(|e| gs(e, "e") != "st" || !gs(e, "id").starts_with(FILL))
            .map(|mut e| {
                let id = gs(&e, "id").to_string();
                let ty = gs(&e, "ty").to_string();
                let q = TYPES.iter().position(|t| *t == ty);
                let h = match q {
                    Some(q) => self.handle(q, &id),
                    None => self.handle_any(&id),
                };
                e["id"] = json!(h);
                // uniform records for TLA+
                for (k, dv) in [
                    ("p", json!(-1)),
                    ("s", json!("")),
                    ("rc", json!(-1)),
                    ("v", json!(-1)),
                    ("mu", json!(-1)),
                    ("d", json!("")),
                    ("out", json!("")),
                    ("t", json!(-1)),
                ] {
                    if e.get(k).is_none() {
                        e[k] = dv;
                    }
                }
                e["q"] = json!(q.map_or(-1, |x| x as i64));
                if let Some(o) = e.as_object_mut() {
                    o.remove("ty");
                }
                e
            })
            .collect()
    }

    fn resolve(&mut self, s: &Value) -> (usize, String) {
        let h = gs(s, "id").to_string();
        if let Some(x) = self.h.get(&h) {
            return x.clone();
        }
        let q = gi(s, "q", 0) as usize;
        let rid = if s["rid"].is_string() { gs(s, "rid").to_string() } else { h.clone() };
        self.h.insert(h, (q, rid.clone()));
        (q, rid)
    }

    /// The future of one client request.
    fn request(&mut self, s: &Value) -> Fut {
        let (q, rid) = if gs(s, "op") == "cap" {
            (gi(s, "q", 0) as usize, String::new())
        } else {
            self.resolve(s)
        };
        let s = s.clone();
                match gs(&s, "op") {
            "submit" => {
                self.registered[q] = true;
                dispatch!(q, T => {
                    let job = mk_job::<T>(&s, &rid);
                    let job = match gi(&s, "rc0", 0) { 0 => job, n => { let mut j = job; j.context.run_count = n as usize; j } };
                    let job = if gs(&s, "cst") != "" { let mut j = job; j.context.job_status = mk_ctx(&s, "").job_status; j } else { job };
                    let via = gs(&s, "via");
                    if via == "run" || via == "just" || via.is_empty() {
                        if let Some(f) = job.data.clone().by_function(job.context.clone(), via != "just") {
                            let want = job.id().to_string();
                            return Box::pin(async move {
                                match f.await {
                                    Ok(id) if id == want => json!("ok"),
                                    Ok(_) => json!("wrongid"),
                                    Err(_) => json!("err"),
                                }
                            });
                        }
                    }
                    match via {
                        "enq" => {
                            let cfg = EnqueueConfig::new(gb(&s, "re", true), gb(&s, "ov", true));
                            Box::pin(async move { okerr(AJ::enqueue_job(job, cfg, T::queue_name()).await) })
                        }
                        "skip" => Box::pin(async move {
                            okerr(AJ::enqueue_job(job, EnqueueConfig::new_skip_if_finished(), T::queue_name()).await)
                        }),
                        "rerun" => Box::pin(async move {
                            okerr(AJ::enqueue_job(job, EnqueueConfig::new_re_run(), T::queue_name()).await)
                        }),
                        "just" => Box::pin(async move { job.just_run(); json!("ok") }),
                        "add" => Box::pin(async move { okerr(AJ::add_job(job, T::queue_name()).await) }),
                        _ => Box::pin(async move {
                            let want = job.id().to_string();
                            match job.run().await {
                                Ok(id) if id == want => json!("ok"),
                                Ok(_) => json!("wrongid"),
                                Err(_) => json!("err"),
                            }
                        }),
                    }
                })
            }
            "cancel" => dispatch!(q, T => Box::pin(async move { okerr(AJ::cancel_job::<T>(rid).await) })),
            "retry" => dispatch!(q, T => Box::pin(async move {
                match AJ::retry_job::<T>(&rid).await {
                    Ok(b) => json!(b.to_string()),
                    Err(_) => json!("err"),
                }
            })),
            "update" => dispatch!(q, T => {
                let data = T::mk(gi(&s, "v", 0), gs(&s, "s"));
                let ctx = if gb(&s, "ctx", false) {
                    let cid = if s["cid"].is_string() { gs(&s, "cid").to_string() } else { rid.clone() };
                    Some(mk_ctx(&s, &cid))
                } else { None };
                Box::pin(async move { okerr(AJ::update_job::<T>(&rid, data, ctx).await) })
            }),
            "cap" => dispatch!(q, T => {
                let cfg = WorkQueueConfig {
                    process_tick_duration: std::time::Duration::from_millis(gi(&s, "tick", 100) as u64),
                    max_processing_jobs: match gi(&s, "n", 20) {
                        1_000_000_000 => usize::MAX,
                        n => n as usize,
                    },
                };
                Box::pin(async move { okerr(AJ::update_work_queue::<T>(cfg).await) })
            }),
            other => panic!("unknown request {other}"),
        }
    }

    /// The body of a job that is waiting.
    fn body_gate(&mut self, id: &str) -> Option<Gate> {
        let (q, rid) = self.h.get(id).cloned()?;
        world(|w| w.live.iter().find(|l| l.ph == "body" && l.id == rid && l.ty == TYPES[q]).map(|l| l.gate.clone()))
    }

    fn open(&mut self, id: &str, ph: &str, out: &str) -> Value {
        let (q, rid) = self.h.get(id).cloned().unwrap_or((0, id.to_string()));
        let ty = TYPES[q];
        let g = world(|w| {
            let i = w.live.iter().position(|l| {
                l.ph == ph && l.id == rid && (l.ty.is_empty() || l.ty == ty)
            })?;
            Some(w.live.remove(i).gate)
        });
        match g {
            Some(g) => {
                g.open(out);
                json!("ok")
            }
            None => json!("noexec"),
        }
    }

    /// One step; returns the result for the label.
    fn step(&mut self, s: &Value) -> Result<Value, Stop> {
        match gs(s, "op") {
            "submit" | "cancel" | "retry" | "update" | "cap" => {
                let f = self.request(s);
                if let Some(g) = s["in"].as_str().and_then(|h| self.body_gate(h)) {
                    world(|w| (w.inner, w.inner_res) = (Some(f), None));
                    g.open(INNER);
                    settle()?;
                    return Ok(world(|w| w.inner_res.take()).unwrap_or(json!("stuck")));
                }
                finish(&mut client(f))
            }
            "prepanic" => {
                let (_, rid) = self.h.get(gs(s, "id")).cloned().unwrap_or_default();
                world(|w| w.prepanic = Some(rid));
                Ok(json!("ok"))
            }
            "get" => {
                let (q, rid) = self.resolve(s);
                Ok(match self.lookup(q, &rid)? {
                    Some(_) => json!("some"),
                    None => json!("none"),
                })
            }
            // client futures polled by hand
            "begin" => {
                let f = self.request(&s["call"]);
                let mut c = client(f);
                let done = poll_once(&mut c);
                settle()?;
                self.clients.insert(gs(s, "c").to_string(), c);
                Ok(json!(if done { "done" } else { "pending" }))
            }
            "poll" => {
                let Some(mut c) = self.clients.remove(gs(s, "c")) else { return Ok(json!("none")) };
                let done = poll_once(&mut c);
                settle()?;
                let r = if done { c.res.clone().unwrap() } else { json!("pending") };
                if !done {
                    self.clients.insert(gs(s, "c").to_string(), c);
                }
                Ok(r)
            }
            // the caller gives up: the future is dropped
            "drop" => {
                let Some(c) = self.clients.remove(gs(s, "c")) else { return Ok(json!("none")) };
                let r = if c.res.is_some() { json!("done") } else { json!("dropped") };
                drop(c);
                settle()?;
                Ok(r)
            }
            "badcron" => Ok(match JobType::new_cron(gs(s, "ex"), CronContext::default()) {
                Ok(_) => json!("ok"),
                Err(aj::Error::CronError(_)) => json!("err"),
                Err(_) => json!("wrongerr"),
            }),
            "end" => {
                let Some(mut c) = self.clients.remove(gs(s, "c")) else { return Ok(json!("none")) };
                finish(&mut c)
            }
            "freeze" => {
                let t = s["t"].as_u64().map(|x| x as usize);
                sim::freeze(t, true);
                self.frozen = true;
                settle()?;
                Ok(json!("ok"))
            }
            "thaw" => {
                let t = s["t"].as_u64().map(|x| x as usize);
                sim::freeze(t, false);
                self.frozen = false;
                settle()?;
                Ok(json!("ok"))
            }
            "adv" => {
                sim::advance_ms(gi(s, "ms", 100));
                settle()?;
                Ok(json!("ok"))
            }
            "done" => {
                let r = self.open(gs(s, "id"), "body", gs(s, "out"));
                settle()?;
                Ok(r)
            }
            // the body of a job keeps its thread
            "block" => {
                let Some(g) = self.body_gate(gs(s, "id")) else { return Ok(json!("noexec")) };
                self.blocked = self.h.get(gs(s, "id")).map(|x| x.0);
                g.open(BLOCK);
                settle()?;
                Ok(json!("ok"))
            }
            "unblock" => {
                sim::unblock();
                self.blocked = None;
                settle()?;
                Ok(json!("ok"))
            }
            "relb" | "rela" => {
                let r = self.open(gs(s, "id"), if gs(s, "op") == "relb" { "bf" } else { "af" }, "");
                settle()?;
                Ok(r)
            }
            "hold" => {
                world(|w| {
                    w.hold_before = gb(s, "before", false);
                    w.hold_after = gb(s, "after", false);
                });
                Ok(json!("ok"))
            }
            "auto" => {
                world(|w| w.auto = s["out"].as_str().map(|x| x.to_string()));
                Ok(json!("ok"))
            }
            "attr" => self.attr(s),
            "plug" => {
                if let Some(p) = &self.plug {
                    p.send(()).unwrap();
                }
                settle()?;
                Ok(json!("ok"))
            }
            // jobs nobody asks about: not due for a long time, and left out of what is observed
            "fill" => {
                let (q, from) = (gi(s, "q", 0) as usize, self.filled);
                self.filled += gi(s, "n", 0);
                let (n, far) = (self.filled, sim::vnow_ms() + 100_000_000);
                dispatch!(q, T => call(async move {
                    for i in from..n {
                        let p = json!({"kind":"sched","at":far,"v":1});
                        if AJ::add_job(mk_job::<T>(&p, &format!("{FILL}{i}")), T::queue_name()).await.is_err() {
                            return json!("err");
                        }
                    }
                    json!("ok")
                }))
            }
            "fault" | "crash" | "nop" => Ok(json!("ok")),
            o => panic!("unknown op {o}"),
        }
    }

    /// Jobs declared with the function attribute.
    fn attr(&mut self, s: &Value) -> Result<Value, Stop> {
        let (v, st) = (gi(s, "v", 0), gs(s, "s").to_string());
        let b = blob((v as u64).wrapping_add(7), 2);
        let rid = gs(s, "id").to_string();
        let mut ctx = mk_ctx(s, &rid);
        ctx.job_id = rid.clone();
        let (f, via) = (gs(s, "fn").to_string(), gs(s, "via").to_string());
        call(async move {
            match (f.as_str(), via.as_str()) {
                ("sync", "run") => okerr(attr_sync::run(v, st, b).await),
                ("sync", "just") => {
                    attr_sync::just_run(v, st, b);
                    json!("ok")
                }
                ("sync", "ctx") => okerr(attr_sync::run_with_context(v, st, b, ctx).await),
                ("sync", _) => {
                    attr_sync::just_run_with_context(v, st, b, ctx);
                    json!("ok")
                }
                ("async", "run") => okerr(attr_async::run(v, st, b).await),
                ("async", "just") => {
                    attr_async::just_run(v, st, b);
                    json!("ok")
                }
                ("async", "ctx") => okerr(attr_async::run_with_context(v, st, b, ctx).await),
                ("async", _) => {
                    attr_async::just_run_with_context(v, st, b, ctx);
                    json!("ok")
                }
                ("plain", "run") => okerr(attrsync::run(v, st, b).await),
                ("plain", "just") => {
                    attrsync::just_run(v, st, b);
                    json!("ok")
                }
                ("plain", "ctx") => okerr(attrsync::run_with_context(v, st, b, ctx).await),
                ("plain", _) => {
                    attrsync::just_run_with_context(v, st, b, ctx);
                    json!("ok")
                }
                (_, "just") => {
                    attr_order::just_run(v, v + 1, st.clone(), (v + 2, st));
                    json!("ok")
                }
                _ => okerr(attr_order::run(v, v + 1, st.clone(), (v + 2, st)).await),
            }
        })
    }

    fn arm_crash(&self, idx: usize, path: &str, label: &Value) {
        let inner = self.inner.clone();
        let steps = self.steps.clone();
        let h: Map<String, Value> =
            self.h.iter().map(|(k, (q, r))| (k.clone(), json!([q, r]))).collect();
        let (path, label) = (path.to_string(), label.clone());
        *backend::ON_CRASH.lock().unwrap() = Some(Box::new(move || {
            let o = json!({"dump":backend::dump(&inner),"now":sim::vnow_ms(),"steps":steps,"h":h,
                "idx":idx,"label":label,"ops":CTL.n.load(SeqCst)});
            std::fs::write(&path, o.to_string()).unwrap();
        }));
    }

    fn push(&mut self, mut lab: Value, res: Value, nops: i64, nf: i64) -> Result<(), Stop> {
        // events first: observing must not add any
        let ev = self.events();
        let mut st = self.state()?;
        lab["res"] = res;
        lab["ops"] = json!(nops);
        lab["nf"] = json!(nf);
        // an idle advance right after an idle advance of the same size: keep one record
        if lab["op"] == "adv" && ev.is_empty() {
            if let Some(last) = self.steps.last() {
                if last["lab"]["op"] == "adv"
                    && last["lab"]["ms"] == lab["ms"]
                    && last["lab"]["idle"] == json!(true)
                    && last["jobs"] == st["jobs"]
                    && last["ls"] == st["ls"]
                    && last["ex"] == st["ex"]
                    && nf == 0
                    && last["lab"]["nf"] == json!(0)
                {
                    lab["n"] = json!(gi(&last["lab"], "n", 1) + 1);
                    self.steps.pop();
                }
            }
            let idle = match self.steps.last() {
                Some(p) => p["jobs"] == st["jobs"] && p["ls"] == st["ls"] && p["ex"] == st["ex"],
                None => true,
            };
            lab["idle"] = json!(idle);
        }
        st["lab"] = lab;
        st["ev"] = json!(ev);
        self.steps.push(st);
        Ok(())
    }

    /// Runs the whole script. `crash_path` is where state goes when a crash point is hit.
    pub fn run(&mut self, script: &Value, resume: Option<&Value>, crash_path: &str) -> String {
        let steps = script["steps"].as_array().unwrap().clone();
        let mut start = 0;
        if let Some(r) = resume {
            start = r["idx"].as_u64().unwrap() as usize + 1;
            let mut lab = json!({"op":"crash"});
            lab["call"] = r["label"].clone();
            digest_label(&mut lab["call"]);
            lab["ops_done"] = r["ops"].clone();
            if let Err(Stop(e)) = self.push(lab, json!("ok"), 0, 0) {
                return e;
            }
        } else if let Err(Stop(e)) = self.push(json!({"op":"init"}), json!("ok"), 0, 0) {
            return e;
        }
        let mut armed: Option<Value> = None;
        for (i, s) in steps.iter().enumerate().skip(start) {
            let op = gs(s, "op");
            if op == "fault" || op == "crash" {
                armed = Some(s.clone());
                continue;
            }
            let reps = if op == "adv" { gi(s, "n", 1) } else { 1 };
            for _ in 0..reps {
                // before resolve() so that a crash dump knows the handle
                if s["id"].is_string() && ["submit", "cancel", "retry", "update", "get"].contains(&op) {
                    self.resolve(s);
                }
                backend::reset();
                let mut denied = None;
                if let Some(a) = armed.take() {
                    if let (Some(p), Some(m)) = (self.server, a["mode"].as_str()) {
                        // the server fails instead of the backend
                        crate::redis_fake::deny(p, gi(&a, "from", 0), gi(&a, "len", 1), m);
                        denied = Some(p);
                    } else if gs(&a, "op") == "fault" {
                        let f = gi(&a, "from", 0);
                        CTL.from.store(f, SeqCst);
                        CTL.to.store(f.saturating_add(gi(&a, "len", 1)), SeqCst);
                    } else {
                        if op == "submit" {
                            self.registered[gi(s, "q", 0) as usize] = true;
                        }
                        self.arm_crash(i, crash_path, s);
                        CTL.crash.store(gi(&a, "at", 0), SeqCst);
                    }
                }
                let r = self.step(s);
                let nops = CTL.n.load(SeqCst);
                let nf = CTL.failed.load(SeqCst) + denied.map_or(0, crate::redis_fake::hits);
                backend::disarm();
                let mut lab = s.clone();
                digest_label(&mut lab);
                if lab["call"].is_object() {
                    digest_label(&mut lab["call"]);
                }
                if op == "adv" {
                    lab["n"] = json!(1);
                }
                let r = r.and_then(|res| self.push(lab, res, nops, nf));
                if let Err(Stop(e)) = r {
                    // the engine never came to rest: record and give up on this trace
                    let mut last = self.steps.last().cloned().unwrap_or(json!({}));
                    let mut lab = s.clone();
                    lab["res"] = json!(e);
                    lab["nf"] = json!(nf);
                    lab["ops"] = json!(nops);
                    lab["n"] = json!(1);
                    last["lab"] = lab;
                    last["ev"] = json!([]);
                    self.steps.push(last);
                    return e;
                }
            }
        }
        "ok".into()
    }
    pub fn engine(&self) -> &str {
        &self.engine
    }
}
