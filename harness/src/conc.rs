//! ajv conc SCRIPTS OUT PAR: several threads use one backend at the same time; what they were answered,
//! and when, is recorded. Allocations are made to take their time, so that the threads get in each
//! other's way inside of operations, not only between them.
use aj::backend::types::{Backend, QueueDirection};
use aj::mem::InMemory;
use aj::redis::Redis;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier};

pub struct Jitter;
thread_local! { static RND: Cell<u64> = const { Cell::new(0) }; }
fn pause() {
    let _ = RND.try_with(|c| {
        let mut x = c.get();
        if x == 0 {
            return;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        c.set(x);
        match (x >> 20) % 16 {
            0..=2 => unsafe {
                libc::sched_yield();
            },
            3 | 4 => {
                for _ in 0..(x >> 30) % 4000 {
                    std::hint::spin_loop();
                }
            }
            5 => unsafe {
                libc::usleep(20 + ((x >> 30) % 60) as u32);
            },
            _ => {}
        }
    });
}
unsafe impl GlobalAlloc for Jitter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        pause();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        pause();
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        pause();
        System.realloc(p, l, n)
    }
}

fn dir(v: &Value) -> QueueDirection {
    if v == "F" {
        QueueDirection::Front
    } else {
        QueueDirection::Back
    }
}
fn apply(b: &dyn Backend, o: &Value) -> (&'static str, Vec<String>, i64) {
    let s = |k: &str| o[k].as_str().unwrap();
    let n = match o["n"].as_u64().unwrap_or(0) as usize {
        crate::bk::ALL => usize::MAX,
        n => n,
    };
    let items = |x: Result<Vec<String>, aj::Error>| x.map_or(("err", vec![], -1), |v| ("ok", v, -1));
    let unit = |x: Result<(), aj::Error>| (if x.is_ok() { "ok" } else { "err" }, vec![], -1);
    match s("op") {
        "push" => unit(b.queue_push(s("a"), s("x"))),
        "remove" => unit(b.queue_remove(s("a"), s("x"))),
        "move" => items(b.queue_move(s("a"), s("b"), n, dir(&o["d1"]), dir(&o["d2"]))),
        "get" => items(b.queue_get(s("a"), n, dir(&o["d1"]))),
        "count" => b.queue_count(s("a")).map_or(("err", vec![], -1), |n| ("ok", vec![], n as i64)),
        "put" => unit(b.storage_upsert(s("a"), s("b"), s("x").to_string())),
        _ => items(b.storage_get(s("a"), s("b")).map(|v| v.into_iter().collect())),
    }
}

type Shared = Arc<dyn Backend + Send + Sync>;
fn sequence(b: &Shared, ops: &Value, clock: &AtomicU64, seed: u64) -> Vec<Value> {
    let ops: Vec<Value> = ops.as_array().unwrap().clone();
    let mut raw = Vec::with_capacity(ops.len());
    RND.with(|c| c.set(seed));
    for o in &ops {
        let inv = clock.fetch_add(1, SeqCst);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| apply(b.as_ref(), o)));
        let ret = clock.fetch_add(1, SeqCst);
        raw.push((inv, ret, r.unwrap_or(("panic", vec![], -1))));
    }
    RND.with(|c| c.set(0));
    ops.iter()
        .zip(raw)
        .map(|(o, (inv, ret, r))| {
            let mut o = o.clone();
            (o["inv"], o["ret"], o["res"], o["items"], o["cnt"]) = (json!(inv), json!(ret), json!(r.0), json!(r.1), json!(r.2));
            o
        })
        .collect()
}

/// None: some thread does not come back.
fn one(s: &Value, port: Option<u16>, seed: u64) -> Option<Value> {
    let b: Shared = match port {
        Some(p) => Arc::new(Redis::new(format!("redis://127.0.0.1:{p}/"))),
        None => Arc::new(InMemory::default()),
    };
    let clock = Arc::new(AtomicU64::new(0));
    let mut th = vec![sequence(&b, &s["init"], &clock, 0)];
    let ts = s["threads"].as_array().unwrap();
    let bar = Arc::new(Barrier::new(ts.len()));
    let (tx, rx) = std::sync::mpsc::channel();
    for (i, ops) in ts.iter().enumerate() {
        let (b, bar, clock, ops, tx) = (b.clone(), bar.clone(), clock.clone(), ops.clone(), tx.clone());
        std::thread::spawn(move || {
            bar.wait();
            let r = sequence(&b, &ops, &clock, seed.wrapping_mul(31).wrapping_add(i as u64 * 7919 + 1) | 1);
            let _ = tx.send((i, r));
        });
    }
    let mut rs = vec![vec![]; ts.len()];
    let (mut left, mut waited) = (ts.len(), 0);
    while left > 0 {
        // by counting sleeps: the process's clock is not the real one
        match rx.try_recv() {
            Ok((i, r)) => (rs[i], left) = (r, left - 1),
            Err(_) if waited > 10_000_000 => return None,
            Err(_) => {
                let us = if waited < 5_000 { 20 } else { 1000 };
                unsafe { libc::usleep(us) };
                waited += us;
            }
        }
    }
    th.extend(rs);
    th.push(sequence(&b, &s["last"], &clock, 0));
    Some(json!(th))
}

pub fn run(scripts: &str, out: &str, par: usize) {
    std::panic::set_hook(Box::new(|_| {}));
    let src = std::fs::read_to_string(scripts).unwrap();
    let all: Vec<Value> = src.lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    let all = Arc::new(all);
    // processes, so that a Redis server of its own can be forked by each
    let mut pids = vec![];
    for k in 0..par {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            let mut res = String::new();
            for (i, s) in all.iter().enumerate().skip(k).step_by(par) {
                let mut seen = HashSet::new();
                let keep = s["keep"].as_u64().unwrap_or(4) as usize;
                for rep in 0..s["reps"].as_u64().unwrap_or(10) {
                    // a Redis server of its own for every run: they start empty
                    let srv = (s["backend"] == "redis").then(crate::redis_fake::start_pid);
                    let th = one(s, srv.map(|x| x.1), (s["seed"].as_u64().unwrap_or(1) << 16) + rep + 1);
                    if let Some((pid, _)) = srv {
                        unsafe {
                            libc::kill(pid, libc::SIGKILL);
                            libc::waitpid(pid, std::ptr::null_mut(), 0);
                        }
                    }
                    let Some(th) = th else {
                        // as an operation that can have no explanation
                        let o = json!([[{"op":"count","a":"-","b":"-","x":"-","n":0,"d1":"F","d2":"F","res":"hang","items":[],"cnt":-1,"inv":0,"ret":1}]]);
                        res.push_str(&json!({"name":s["name"],"i":i,"th":o}).to_string());
                        res.push('\n');
                        std::fs::write(format!("{out}.{k}"), res).unwrap();
                        unsafe { libc::_exit(0) };
                    };
                    if seen.insert(th.to_string()) {
                        res.push_str(&json!({"name":s["name"],"i":i,"th":th}).to_string());
                        res.push('\n');
                    }
                    if seen.len() >= keep {
                        break;
                    }
                }
            }
            std::fs::write(format!("{out}.{k}"), res).unwrap();
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    let mut ok = true;
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
        ok &= st == 0;
    }
    let mut res = String::new();
    for k in 0..par {
        let p = format!("{out}.{k}");
        res.push_str(&std::fs::read_to_string(&p).unwrap_or_default());
        let _ = std::fs::remove_file(&p);
    }
    std::fs::write(out, res).unwrap();
    std::process::exit(if ok { 0 } else { 3 });
}
