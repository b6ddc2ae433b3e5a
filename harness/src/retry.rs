//! ajv retry SCRIPTS OUT: asks a retry policy when it would retry after n retries.
//! Either the policy itself is asked, or (via "job") a job that does not override when it is retried.
//! Delays can exceed what TLC's integers hold: they are split into three digits of base 10^9.
use aj::job::{Retry, RetryStrategy};
use aj::{async_trait, Executable, JobContext};
use chrono::{DateTime, Duration, TimeZone, Utc};
use serde_json::{json, Value};

fn digits(ms: i128) -> Value {
    let b: i128 = 1_000_000_000;
    json!([(ms / b / b) as i64, (ms / b % b) as i64, (ms % b) as i64])
}

#[derive(Clone)]
struct Plain;

#[async_trait]
impl Executable for Plain {
    type Output = bool;
    async fn execute(&mut self, _: &JobContext) -> bool {
        true
    }
    async fn is_failed_output(&self, ok: &bool) -> bool {
        !*ok
    }
}

fn wait<T>(f: impl std::future::Future<Output = T>) -> T {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop {
        if let std::task::Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
}

/// None: the job is not retried.
fn ask(r: &mut Retry, now: DateTime<Utc>, job: bool, ok: bool) -> Option<i64> {
    let at = if job {
        wait(Plain.retry_at(r, ok))?
    } else {
        r.retry_at(Some(now))
    };
    Some(at.signed_duration_since(now).num_milliseconds())
}

pub fn run(scripts: &str, out: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let src = std::fs::read_to_string(scripts).unwrap();
    let mut res = String::new();
    for line in src.lines() {
        let s: Value = serde_json::from_str(line).unwrap();
        let base = s["base"].as_i64().unwrap();
        let job = s["via"] == "job";
        let now = if job { Utc::now() } else { Utc.timestamp_millis_opt(1_893_456_000_000).unwrap() };
        let room = (DateTime::<Utc>::MAX_UTC - now).num_milliseconds() as i128;
        let mut steps = vec![];
        let max = s["max"].as_i64().filter(|m| *m >= 0).map(|m| m as i32);
        for n in s["ns"].as_array().unwrap() {
            let n = n.as_i64().unwrap();
            let st = if s["rst"] == "exp" {
                RetryStrategy::ExponentialBackoff(Duration::milliseconds(base))
            } else {
                RetryStrategy::Interval(Duration::milliseconds(base))
            };
            let r = std::panic::catch_unwind(move || {
                let mut r = Retry::new(n as i32, max, st);
                let never = job && ask(&mut r, now, job, true).is_some();
                let should = r.should_retry();
                let d = ask(&mut r, now, job, false);
                if never || job && d.is_some() != should {
                    panic!("retried though it must not be, or the other way round");
                }
                (should, d.map(i128::from))
            });
            steps.push(match r {
                Ok((should, d)) => {
                    let x = d.unwrap_or(0);
                    json!({"n":n,"should":should,"res":"ok","asked":d.is_some(),"neg":x<0,"far":x>=room-1,"d":digits(x.max(0))})
                }
                Err(_) => json!({"n":n,"should":false,"res":"panic","asked":false,"neg":false,"far":false,"d":digits(0)}),
            });
        }
        let b: i128 = base as i128;
        res.push_str(
            &json!({"name":s["name"],"rst":s["rst"],"max":s["max"],"base":digits(b),"room":digits(room),"steps":steps}).to_string(),
        );
        res.push('\n');
    }
    std::fs::write(out, res).unwrap();
}
