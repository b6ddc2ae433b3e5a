use crate::jobs::{log_event, wait_gate, world};
use aj::{async_trait, job::JobStatus, JobPlugin};
use serde_json::json;

pub struct Rec(pub usize);

/// Some calls of hooks are to panic, after all they have to do.
fn boom(p: usize, hook: &str) {
    let hit = world(|w| {
        let n = w.hook_calls.entry((p, hook.to_string())).or_insert(0);
        *n += 1;
        let n = *n;
        w.hook_panics.iter().any(|x| x[0] == json!(p) && x[1] == hook && x[2] == json!(n))
    });
    if hit {
        panic!("plugin panics");
    }
}

#[async_trait]
impl JobPlugin for Rec {
    async fn change_status(&self, job_id: &str, status: JobStatus) {
        log_event(json!({"e":"st","p":self.0,"id":job_id,"s":format!("{status:?}")}));
        boom(self.0, "st");
    }
    async fn before_run(&self, job_id: &str) {
        log_event(json!({"e":"bf","p":self.0,"id":job_id}));
        if world(|w| w.hold_before) {
            wait_gate("",job_id, "bf", self.0, 0).await;
        }
        log_event(json!({"e":"bfx","p":self.0,"id":job_id}));
        boom(self.0, "bf");
    }
    async fn after_run(&self, job_id: &str) {
        log_event(json!({"e":"af","p":self.0,"id":job_id}));
        if world(|w| w.hold_after) {
            wait_gate("",job_id, "af", self.0, 0).await;
        }
        log_event(json!({"e":"afx","p":self.0,"id":job_id}));
        boom(self.0, "af");
    }
}
