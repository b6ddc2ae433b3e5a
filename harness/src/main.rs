mod backend;
mod bk;
mod conc;
mod driver;
mod jobs;
mod plugin;
mod redis_fake;
mod retry;
mod sim;
mod start;

use serde_json::{json, Value};
use std::io::{BufWriter, Write};

#[global_allocator]
static ALLOC: conc::Jitter = conc::Jitter;

fn child(script: &Value, resume: Option<&Value>, out: &str, crash: &str) -> ! {
    std::panic::set_hook(Box::new(|_| {}));
    let mut exit = 0;
    let (steps, end) = match driver::Driver::new(script, resume) {
        Ok(mut d) => {
            let e = d.run(script, resume, crash);
            let _ = d.engine();
            if e != "ok" {
                exit = 5;
            }
            (std::mem::take(&mut d.steps), e)
        }
        Err(e) => {
            exit = 3;
            (vec![], e.0)
        }
    };
    let o = json!({"name": script["name"], "meta": script["meta"], "end": end, "steps": steps});
    std::fs::write(out, o.to_string()).unwrap();
    unsafe { libc::_exit(exit) };
}

fn spawn(script: &Value, resume: Option<&Value>, out: &str, crash: &str) -> i32 {
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        child(script, resume, out, crash);
    }
    pid
}

const MAX_HANGS: u32 = 12;

/// ajv run SCRIPTS.ndjson OUT.ndjson [PAR]
fn run(scripts: &str, out: &str, par: usize) {
    let src = std::fs::read_to_string(scripts).unwrap();
    let scripts: Vec<Value> = src.lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    let dir = format!("{out}.d");
    std::fs::create_dir_all(&dir).unwrap();
    let mut running: Vec<(i32, usize, u32, i64)> = vec![];
    let mut next = 0;
    let mut status: Vec<String> = vec!["skipped".into(); scripts.len()];
    // scripts in which the engine hangs are expensive: a few of them are enough
    let mut hangs = 0;
    let path = |i: usize| format!("{dir}/{i}.json");
    let cpath = |i: usize| format!("{dir}/{i}.crash");
    while next < scripts.len() || !running.is_empty() {
        if hangs >= MAX_HANGS {
            next = scripts.len();
        }
        while running.len() < par && next < scripts.len() {
            let pid = spawn(&scripts[next], None, &path(next), &cpath(next));
            running.push((pid, next, 0, sim::real_ms()));
            next += 1;
        }
        let mut st = 0;
        let pid = unsafe { libc::waitpid(-1, &mut st, libc::WNOHANG) };
        if pid <= 0 {
            let now = sim::real_ms();
            for (p, _, _, t0) in &running {
                if now - t0 > 150_000 {
                    unsafe { libc::kill(*p, libc::SIGKILL) };
                }
            }
            unsafe { libc::usleep(100) };
            continue;
        }
        let Some(k) = running.iter().position(|r| r.0 == pid) else { continue };
        let (_, i, gen, _) = running.remove(k);
        if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 77 {
            let r: Value =
                serde_json::from_str(&std::fs::read_to_string(cpath(i)).unwrap()).unwrap();
            let pid = spawn(&scripts[i], Some(&r), &path(i), &cpath(i));
            running.push((pid, i, gen + 1, sim::real_ms()));
            continue;
        }
        if !(libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0) {
            hangs += 1;
        }
        status[i] = if libc::WIFEXITED(st) {
            format!("exit{}", libc::WEXITSTATUS(st))
        } else {
            format!("signal{}", libc::WTERMSIG(st))
        };
    }
    let mut w = BufWriter::new(std::fs::File::create(out).unwrap());
    for i in 0..scripts.len() {
        match std::fs::read_to_string(path(i)) {
            Ok(s) => writeln!(w, "{s}").unwrap(),
            Err(_) => writeln!(
                w,
                "{}",
                json!({"name":scripts[i]["name"],"meta":scripts[i]["meta"],"end":status[i],"steps":[]})
            )
            .unwrap(),
        }
    }
    drop(w);
    std::fs::remove_dir_all(&dir).unwrap();
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => run(&a[2], &a[3], a.get(4).and_then(|x| x.parse().ok()).unwrap_or(8)),
        Some("start") => start::run(&a[2], &a[3], a.get(4).and_then(|x| x.parse().ok()).unwrap_or(8)),
        Some("backend") => bk::run(&a[2], &a[3]),
        Some("conc") => conc::run(&a[2], &a[3], a.get(4).and_then(|x| x.parse().ok()).unwrap_or(8)),
        Some("retry") => retry::run(&a[2], &a[3]),
        _ => {
            eprintln!("usage: ajv run SCRIPTS OUT [PAR]");
            std::process::exit(2);
        }
    }
}
