//! ajv backend SCRIPTS OUT: runs operation sequences on a bundled backend and records the results.
//! Names, items and values are handles in the scripts; "names" maps them to real strings.
use aj::backend::types::{Backend, QueueDirection};
use aj::mem::InMemory;
use aj::redis::Redis;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

/// An operation that takes longer than this hangs.
const HANG_MS: i64 = 8_000;
const MAX_HANGS: usize = 4;
/// Stands for the largest number there is.
pub const ALL: usize = 2_000_000_000;

fn dir(v: &Value) -> QueueDirection {
    if v == "F" {
        QueueDirection::Front
    } else {
        QueueDirection::Back
    }
}

/// The steps of one script, as far as it got, and a count of them that tells whether it goes on.
struct Part {
    steps: Mutex<Vec<Value>>,
    beat: AtomicU64,
}

pub fn run(scripts: &str, out: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let src = std::fs::read_to_string(scripts).unwrap();
    let all: Arc<Vec<Value>> = Arc::new(src.lines().map(|l| serde_json::from_str(l).unwrap()).collect());
    let mut done: Vec<Vec<Value>> = vec![];
    let mut hangs = 0;
    while done.len() < all.len() && hangs < MAX_HANGS {
        let parts: Arc<Vec<Part>> =
            Arc::new(all.iter().map(|_| Part { steps: Mutex::new(vec![]), beat: AtomicU64::new(0) }).collect());
        let (from, all2, parts2) = (done.len(), all.clone(), parts.clone());
        let finished = Arc::new(AtomicU64::new(from as u64));
        let f2 = finished.clone();
        std::thread::spawn(move || {
            for i in from..all2.len() {
                one(&all2[i], &parts2[i]);
                f2.fetch_add(1, SeqCst);
            }
        });
        let mut last = (0, 0, crate::sim::real_ms());
        loop {
            let i = finished.load(SeqCst) as usize;
            if i == all.len() {
                break;
            }
            let b = parts[i].beat.load(SeqCst);
            if (i, b) != (last.0, last.1) {
                last = (i, b, crate::sim::real_ms());
            } else if crate::sim::real_ms() - last.2 > HANG_MS {
                hangs += 1;
                break;
            }
            unsafe { libc::usleep(500) };
        }
        let n = finished.load(SeqCst) as usize;
        for p in &parts[from..n] {
            done.push(std::mem::take(&mut *p.steps.lock().unwrap()));
        }
        if n < all.len() {
            let mut st = std::mem::take(&mut *parts[n].steps.lock().unwrap());
            let o = &all[n]["ops"][st.len()];
            st.push(json!({"hits":0,"la":[],"lb":[],"lv":[],"op":o["op"],"a":o["a"],"b":o["b"],"x":o["x"],"n":o["n"],"d1":o["d1"],"d2":o["d2"],
                "res":"hang","items":[],"cnt":-1}));
            done.push(st);
        }
    }
    done.resize(all.len(), vec![]);
    let mut res = String::new();
    for (s, steps) in all.iter().zip(done) {
        res.push_str(&json!({"name":s["name"],"steps":steps}).to_string());
        res.push('\n');
    }
    std::fs::write(out, res).unwrap();
    unsafe { libc::_exit(0) };
}

fn one(s: &Value, part: &Part) {
        let mut server = None;
        let b: Box<dyn Backend> = match s["backend"].as_str().unwrap() {
            "redis" => {
                let port = crate::redis_fake::start();
                server = Some(port);
                Box::new(Redis::new(format!("redis://127.0.0.1:{port}/")))
            }
            _ => Box::<InMemory>::default(),
        };
        let names: HashMap<String, String> = s["names"]
            .as_object()
            .map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect())
            .unwrap_or_default();
        let back: HashMap<String, String> = names.iter().map(|(a, b)| (b.clone(), a.clone())).collect();
        let real = |h: &Value| {
            let h = h.as_str().unwrap();
            names.get(h).cloned().unwrap_or_else(|| h.to_string())
        };
        let handle = |r: &String| match back.get(r) {
            Some(h) => h.clone(),
            None if names.is_empty() => r.clone(),
            None => format!("?{r}"),
        };
        for o in s["ops"].as_array().unwrap() {
            let (a, t) = (real(&o["a"]), real(&o["b"]));
            let n = match o["n"].as_u64().unwrap_or(0) as usize {
                ALL => usize::MAX,
                n => n,
            };
            let deny = server.filter(|_| o["f"].is_array());
            if let Some(p) = deny {
                let f = &o["f"];
                crate::redis_fake::deny(p, f[0].as_i64().unwrap(), f[1].as_i64().unwrap(), f[2].as_str().unwrap());
            }
            let r = catch_unwind(AssertUnwindSafe(|| {
                let items = |x: Result<Vec<String>, aj::Error>| match x {
                    Ok(v) => ("ok", v.iter().map(&handle).collect::<Vec<_>>(), -1),
                    Err(_) => ("err", vec![], -1),
                };
                let unit = |x: Result<(), aj::Error>| (if x.is_ok() { "ok" } else { "err" }, vec![], -1);
                match o["op"].as_str().unwrap() {
                    "push" => unit(b.queue_push(&a, &real(&o["x"]))),
                    "remove" => unit(b.queue_remove(&a, &real(&o["x"]))),
                    "move" => items(b.queue_move(&a, &t, n, dir(&o["d1"]), dir(&o["d2"]))),
                    "get" => items(b.queue_get(&a, n, dir(&o["d1"]))),
                    "count" => match b.queue_count(&a) {
                        Ok(n) => ("ok", vec![], n as i64),
                        Err(_) => ("err", vec![], -1),
                    },
                    "put" => unit(b.storage_upsert(&a, &t, real(&o["x"]))),
                    "read" => match b.storage_get(&a, &t) {
                        Ok(v) => ("ok", v.iter().map(&handle).collect(), -1),
                        Err(_) => ("err", vec![], -1),
                    },
                    x => panic!("unknown {x}"),
                }
            }))
            .unwrap_or(("panic", vec![], -1));
            // after a failure: what is there now
            let hits = deny.map_or(0, crate::redis_fake::hits);
            let all = |l: &str| match hits {
                0 => vec![],
                _ => b.queue_get(l, 1000, QueueDirection::Front).unwrap_or_default().iter().map(&handle).collect::<Vec<_>>(),
            };
            let val: Vec<String> =
                if hits > 0 { b.storage_get(&a, &t).ok().flatten().iter().map(&handle).collect() } else { vec![] };
            part.steps.lock().unwrap().push(json!({"hits":hits,"la":all(&a),"lb":all(&t),"lv":val,"op":o["op"],"a":o["a"],"b":o["b"],"x":o["x"],"n":o["n"],"d1":o["d1"],"d2":o["d2"],
                "res":r.0,"items":r.1,"cnt":r.2}));
            part.beat.fetch_add(1, SeqCst);
        }
}
