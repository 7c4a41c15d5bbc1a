//! The simulated terminal behind standard error.
use crate::rng::R;
use crate::sys::*;

#[derive(Clone)]
pub struct TermCfg {
    pub tty: bool,
    pub rows: u16,
    pub cols: u16,
    pub size_fails: bool,
    /// chance per mille of each write being faulted, and which faults are enabled (bit mask)
    pub fault_pm: u64,
    pub kinds: u64,
    /// from this write on, every write fails (a closed terminal); u64::MAX: never
    pub dead_from: u64,
}
impl Default for TermCfg {
    fn default() -> Self {
        TermCfg { tty: false, rows: 24, cols: 100, size_fails: false, fault_pm: 0, kinds: 0, dead_from: u64::MAX }
    }
}
pub struct Term {
    pub cfg: TermCfg,
    rng: R,
    pub out: Vec<u8>,
    pub writes: u64,
    pub bytes: u64,
    pub faults: [u64; 6], // short, eintr, eio, epipe, enospc, eagain
}
static mut TERM: *mut Term = std::ptr::null_mut();
#[allow(static_mut_refs)]
pub fn term() -> Option<&'static mut Term> {
    unsafe {
        if TERM.is_null() {
            None
        } else {
            Some(&mut *TERM)
        }
    }
}
pub fn install(cfg: TermCfg, seed: u64) {
    let faults = term().map(|t| t.faults).unwrap_or_default();
    let t = Box::new(Term { cfg, rng: R::new(seed, "term"), out: Vec::new(), writes: 0, bytes: 0, faults });
    unsafe { TERM = Box::into_raw(t) };
}
pub fn is_tty() -> bool {
    term().is_some_and(|t| t.cfg.tty)
}
pub fn size() -> Option<(u16, u16)> {
    let t = term()?;
    if t.cfg.size_fails {
        None
    } else {
        Some((t.cfg.rows, t.cfg.cols))
    }
}
pub fn write(b: &[u8]) -> Result<usize, i32> {
    crate::sched::quiet(|| {
        let Some(t) = term() else { return Ok(b.len()) };
        t.writes += 1;
        if t.writes > t.cfg.dead_from {
            t.faults[3] += 1;
            return Err(EPIPE);
        }
        let mut n = b.len();
        if t.cfg.fault_pm > 0 && t.rng.below(1000) < t.cfg.fault_pm {
            let k = t.rng.below(6);
            if t.cfg.kinds & (1 << k) != 0 {
                match k {
                    0 => {
                        if n > 1 {
                            n = 1 + t.rng.below(n as u64 - 1) as usize;
                            t.faults[0] += 1;
                        }
                    }
                    k => {
                        t.faults[k as usize] += 1;
                        return Err([0, EINTR, EIO, EPIPE, ENOSPC, EAGAIN][k as usize]);
                    }
                }
            }
        }
        t.bytes += n as u64;
        if t.out.len() < 4 << 20 {
            t.out.extend_from_slice(&b[..n]);
        }
        Ok(n)
    })
}
