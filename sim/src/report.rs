//! Result line of one run, printed on fd 1 by whoever holds the token when the run ends.
use crate::{sched, sys, term};
use std::collections::BTreeMap;

pub struct Rep {
    pub probes: BTreeMap<&'static str, u64>,
    pub digest: crate::rng::Fnv,
    /// what must not depend on the environment at all (compared across processes)
    pub result: crate::rng::Fnv,
    pub nontrivial: bool,
    pub runs: u64,
    pub sample: String,
}
static mut REP: *mut Rep = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn rep() -> &'static mut Rep {
    unsafe { &mut *REP }
}
pub fn init() {
    let r = Box::new(Rep {
        probes: BTreeMap::new(),
        digest: Default::default(),
        result: Default::default(),
        nontrivial: false,
        runs: 0,
        sample: String::new(),
    });
    unsafe { REP = Box::into_raw(r) };
}
static mut SETTINGS: *const std::cell::RefCell<BTreeMap<String, i64>> = std::ptr::null();
/// The settings in use; read when the run ends, however it ends.
pub fn settings(c: &std::cell::RefCell<BTreeMap<String, i64>>) {
    unsafe { SETTINGS = c }
}
pub fn probe(name: &'static str, n: u64) {
    sched::quiet(|| *rep().probes.entry(name).or_insert(0) += n);
}
/// Adds to the event log digest (determinism is judged on it).
pub fn log(v: u64) {
    rep().digest.u(v);
}
pub fn result(v: u64) {
    rep().result.u(v);
}
fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}
pub fn finish(verdict: &str, class: &str, msg: &str) -> ! {
    let line = sched::quiet(|| {
        let r = rep();
        let used = unsafe { SETTINGS.as_ref() };
        if let Some(used) = used.and_then(|u| u.try_borrow().ok()) {
            r.sample = used.iter().map(|(k, v)| format!("{k}={v} ")).collect();
        }
        let mut o = format!(
            "{{\"v\":\"{}\",\"class\":\"{}\",\"msg\":\"{}\",\"digest\":\"{:016x}\",\"result\":\"{:016x}\",\"nontrivial\":{},\"runs\":{},\"sample\":\"{}\"",
            verdict, esc(class), esc(msg), r.digest.0, r.result.0, r.nontrivial, r.runs, esc(&r.sample)
        );
        if sched::started() {
            let s = sched::sim();
            let st = s.stats;
            o.push_str(&format!(
                ",\"steps\":{},\"decisions\":{},\"switches\":{},\"sim_ns\":{},\"threads\":{},\"sched\":\"{:016x}\"",
                st.steps, st.decisions, st.switches, s.elapsed(), sched::thread_count(), s.hash.0
            ));
            for (k, v) in [
                ("sched_preemptions", st.preempts),
                ("spurious_wakeups", st.spurious),
                ("worker_stalls", st.stalls),
                ("clock_jumps", st.jumps),
                ("timer_expiries", st.timeouts),
            ] {
                if v > 0 {
                    *r.probes.entry(k).or_insert(0) += v;
                }
            }
            if verdict == "viol" {
                o.push_str(",\"rec\":\"");
                for (i, (k, c)) in s.recorded.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    o.push_str(&format!("{k}:{c}"));
                }
                o.push('"');
            }
        }
        if let Some(t) = term::term() {
            for (i, k) in ["stderr_short_write", "stderr_eintr", "stderr_eio", "stderr_epipe", "stderr_enospc", "stderr_eagain"].iter().enumerate() {
                if t.faults[i] > 0 {
                    *r.probes.entry(k).or_insert(0) += t.faults[i];
                }
            }
        }
        o.push_str(",\"probes\":{");
        for (i, (k, v)) in r.probes.iter().enumerate() {
            if i > 0 {
                o.push(',');
            }
            o.push_str(&format!("\"{k}\":{v}"));
        }
        o.push_str("}}\n");
        o
    });
    sys::write_raw(1, line.as_bytes());
    sys::exit_now(0);
}
pub fn violation(class: &str, msg: &str) -> ! {
    finish("viol", class, msg)
}
pub fn harness_error(msg: &str) -> ! {
    finish("error", "harness", msg)
}
