//! The serialising scheduler: real threads, one token. Every hand-over is a seeded, recorded, replayable decision.
use crate::rng::{Fnv, R};
use crate::sys;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
    static IN_SIM: Cell<u32> = const { Cell::new(0) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Runnable,
    Futex,
    Sleep,
    Join(usize),
    Done,
}
struct Th {
    st: St,
    go: &'static AtomicU32,
    ret: i64,
    deadline: Option<u64>,
    addr: usize,
    bitset: u32,
    prio: u64,
    stall_until: u64,
    name: &'static str,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Strategy {
    Random,
    Pct,
    Starve,
    RoundRobin,
}

#[derive(Clone)]
pub struct SchedCfg {
    pub strategy: Strategy,
    /// 1 / preempt_inv chance of a switch at a preemptible point (0: never)
    pub preempt_inv: u64,
    pub alloc_inv: u64,
    pub spurious_inv: u64,
    pub pct_depth: u64,
    pub pct_horizon: u64,
    pub starve_len: u64,
    pub starve_inv: u64,
    pub tick_ns: u64,
    pub jump_inv: u64,
    pub jump_ns: u64,
    pub fair_after: u64,
    pub hang_after: u64,
    pub forced: Option<Vec<(u64, u32)>>,
    pub hash_seed: u64,
    pub clock0: u64,
}
impl Default for SchedCfg {
    fn default() -> Self {
        SchedCfg {
            strategy: Strategy::Random,
            preempt_inv: 16,
            alloc_inv: 0,
            spurious_inv: 0,
            pct_depth: 3,
            pct_horizon: 20_000,
            starve_len: 5_000,
            starve_inv: 2_000,
            tick_ns: 200,
            jump_inv: 0,
            jump_ns: 0,
            fair_after: 3_000_000,
            hang_after: 12_000_000,
            forced: None,
            hash_seed: 1,
            clock0: 1_000_000_000_000,
        }
    }
}

#[derive(Default, Clone, Copy)]
pub struct Stats {
    pub steps: u64,
    pub decisions: u64,
    pub switches: u64,
    pub preempts: u64,
    pub spurious: u64,
    pub stalls: u64,
    pub jumps: u64,
    pub timeouts: u64,
    pub yields: u64,
    pub blocks: u64,
    pub max_runnable: u64,
}

pub struct Sim {
    th: Vec<Th>,
    cur: usize,
    rng: R,
    hash_rng: R,
    cfg: SchedCfg,
    clock: u64,
    /// step and amount of work at the last look
    mark: (u64, u64),
    pub stats: Stats,
    pub hash: Fnv,
    pub recorded: Vec<(u64, u32)>,
    fpos: usize,
    timed: usize,
    next_prio_low: u64,
    pct_points: Vec<u64>,
    buf: Vec<usize>,
    concurrent: bool,
}

static mut SIM: *mut Sim = std::ptr::null_mut();

#[allow(static_mut_refs)]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}
pub fn started() -> bool {
    unsafe { !SIM.is_null() }
}
#[inline]
pub fn registered() -> bool {
    TID.with(|t| t.get()) >= 0
}
struct Guard;
impl Guard {
    fn new() -> Guard {
        IN_SIM.with(|g| g.set(g.get() + 1));
        Guard
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        IN_SIM.with(|g| g.set(g.get() - 1));
    }
}
pub fn in_sim() -> bool {
    IN_SIM.with(|g| g.get()) > 0
}
/// Runs harness code (oracles, recording) that must not be a scheduling point.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    let _g = Guard::new();
    f()
}

pub fn start(cfg: SchedCfg, seed: u64) {
    let mut rng = R::new(seed, "sched");
    let mut pct_points: Vec<u64> = (0..cfg.pct_depth).map(|_| rng.below(cfg.pct_horizon.max(1))).collect();
    pct_points.sort();
    let s = Sim {
        th: Vec::with_capacity(64),
        cur: 0,
        hash_rng: R::new(cfg.hash_seed, "hash"),
        rng,
        clock: cfg.clock0,
        cfg,
        stats: Stats::default(),
        hash: Fnv::default(),
        recorded: Vec::with_capacity(4096),
        fpos: 0,
        timed: 0,
        next_prio_low: 1 << 40,
        pct_points,
        buf: Vec::with_capacity(64),
        concurrent: false,
        mark: (0, 0),
    };
    unsafe { SIM = Box::into_raw(Box::new(s)) };
    sim().add("main");
    TID.with(|t| t.set(0));
}
/// Replace the parameters of the hash-seed stream (used to vary hash seeds between two runs in one process).
pub fn set_clock(ns: u64) {
    if started() {
        sim().clock = ns;
    }
}
pub fn set_clock_rate(tick: u64, jump_inv: u64, jump_ns: u64) {
    if started() {
        let c = &mut sim().cfg;
        c.tick_ns = tick;
        c.jump_inv = jump_inv;
        c.jump_ns = jump_ns;
    }
}

impl Sim {
    pub fn elapsed(&self) -> u64 {
        self.clock.saturating_sub(self.cfg.clock0)
    }
    fn add(&mut self, name: &'static str) -> usize {
        let i = self.th.len();
        let prio = (1 << 41) + self.rng.below(1 << 30);
        self.th.push(Th {
            st: St::Runnable,
            go: Box::leak(Box::new(AtomicU32::new(0))),
            ret: 0,
            deadline: None,
            addr: 0,
            bitset: !0,
            prio,
            stall_until: 0,
            name,
        });
        if i > 0 {
            self.concurrent = true;
        }
        i
    }

    fn tick(&mut self) {
        self.stats.steps += 1;
        self.clock = self.clock.saturating_add(self.cfg.tick_ns);
        if self.cfg.jump_inv > 0 && self.clock < 1 << 62 && self.rng.below(self.cfg.jump_inv) == 0 {
            self.clock = self.clock.saturating_add(self.rng.below(self.cfg.jump_ns.max(1)));
            self.stats.jumps += 1;
        }
        if self.timed > 0 {
            self.fire_timers();
        }
        if self.stats.steps - self.mark.0 > self.cfg.hang_after {
            let f = crate::ops::opf();
            let done = f.evals + f.diffs + f.grads + f.losses;
            if done != self.mark.1 {
                self.mark = (self.stats.steps, done);
                return;
            }
            crate::report::violation("livelock", "no completion and no further evaluation within the step bound although scheduling was fair and faults had stopped");
        }
    }

    fn fire_timers(&mut self) {
        for t in self.th.iter_mut() {
            if let Some(d) = t.deadline {
                if d <= self.clock && matches!(t.st, St::Futex | St::Sleep) {
                    t.ret = if t.st == St::Futex { -(sys::ETIMEDOUT as i64) } else { 0 };
                    t.st = St::Runnable;
                    t.deadline = None;
                    self.timed -= 1;
                    self.stats.timeouts += 1;
                }
            }
        }
    }

    /// One recorded decision among n alternatives. `pick` is used only when not replaying.
    fn decide(&mut self, n: usize, default: usize, pick: impl FnOnce(&mut Sim) -> usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let k = self.stats.decisions;
        self.stats.decisions += 1;
        let c = if let Some(f) = &self.cfg.forced {
            while self.fpos < f.len() && f[self.fpos].0 < k {
                self.fpos += 1;
            }
            if self.fpos < f.len() && f[self.fpos].0 == k {
                (f[self.fpos].1 as usize).min(n - 1)
            } else {
                default
            }
        } else {
            pick(self).min(n - 1)
        };
        if c != default && self.recorded.len() < 4_000_000 {
            self.recorded.push((k, c as u32));
        }
        self.hash.u(c as u64 + ((n as u64) << 8));
        c
    }

    fn strategy(&self) -> Strategy {
        if self.stats.steps > self.cfg.fair_after {
            Strategy::RoundRobin
        } else {
            self.cfg.strategy
        }
    }

    fn runnable(&mut self) -> usize {
        self.buf.clear();
        for (i, t) in self.th.iter().enumerate() {
            if t.st == St::Runnable {
                self.buf.push(i);
            }
        }
        let n = self.buf.len();
        if n as u64 > self.stats.max_runnable {
            self.stats.max_runnable = n as u64;
        }
        n
    }

    /// Chooses who runs next. kind: 0 preempt point, 1 yield, 2 current thread cannot continue
    fn next_thread(&mut self, kind: u8) -> usize {
        if kind == 0 && !self.concurrent {
            return self.cur;
        }
        loop {
            let n = self.runnable();
            if n > 0 {
                break;
            }
            // nothing can run: jump to the earliest deadline
            let mut best: Option<u64> = None;
            for t in &self.th {
                if let (Some(d), St::Futex | St::Sleep) = (t.deadline, t.st) {
                    best = Some(best.map_or(d, |b: u64| b.min(d)));
                }
            }
            match best {
                Some(d) => {
                    self.clock = self.clock.max(d);
                    self.fire_timers();
                }
                None => {
                    let mut m = String::from("every thread waits for another one:");
                    for (i, t) in self.th.iter().enumerate() {
                        m.push_str(&format!(" {}:{}={:?}", i, t.name, t.st));
                    }
                    crate::report::violation("deadlock", &m);
                }
            }
        }
        let n = self.buf.len();
        if n == 1 {
            return self.buf[0];
        }
        let cur = self.cur;
        let curpos = self.buf.iter().position(|&t| t == cur);
        // default: keep running; on a yield or block the next one in cyclic order
        let cyc = self.buf.iter().position(|&t| t > cur).unwrap_or(0);
        let default = match (kind, curpos) {
            (0, Some(p)) => p,
            _ => cyc,
        };
        let strat = self.strategy();
        let c = self.decide(n, default, |s| s.pick_by(strat, kind, curpos, cyc));
        let t = self.buf[c];
        if kind == 0 && t != cur {
            self.stats.preempts += 1;
        }
        t
    }

    fn pick_by(&mut self, strat: Strategy, kind: u8, curpos: Option<usize>, cyc: usize) -> usize {
        let n = self.buf.len() as u64;
        match strat {
            Strategy::RoundRobin => match (kind, curpos) {
                (0, Some(p)) => {
                    if self.rng.below(64) == 0 {
                        cyc
                    } else {
                        p
                    }
                }
                _ => cyc,
            },
            Strategy::Random => match (kind, curpos) {
                (0, Some(p)) => {
                    if self.cfg.preempt_inv > 0 && self.rng.below(self.cfg.preempt_inv) == 0 {
                        self.rng.below(n) as usize
                    } else {
                        p
                    }
                }
                (1, Some(p)) => {
                    // after a voluntary yield somebody else runs
                    let c = self.rng.below(n - 1) as usize;
                    if c >= p {
                        c + 1
                    } else {
                        c
                    }
                }
                _ => self.rng.below(n) as usize,
            },
            Strategy::Pct => {
                if kind == 1 || self.pct_points.first().is_some_and(|&p| self.stats.steps >= p) {
                    if kind != 1 {
                        self.pct_points.remove(0);
                    }
                    self.next_prio_low -= 1;
                    let low = self.next_prio_low;
                    let cur = self.cur;
                    self.th[cur].prio = low;
                }
                let mut b = 0;
                for i in 0..self.buf.len() {
                    if self.th[self.buf[i]].prio > self.th[self.buf[b]].prio {
                        b = i;
                    }
                }
                b
            }
            Strategy::Starve => {
                let steps = self.stats.steps;
                if self.cfg.starve_inv > 0 && self.rng.below(self.cfg.starve_inv) == 0 {
                    let v = self.buf[self.rng.below(n) as usize];
                    let len = 1 + self.rng.below(self.cfg.starve_len.max(1));
                    self.th[v].stall_until = steps + len;
                    self.stats.stalls += 1;
                }
                let ok: Vec<usize> = (0..self.buf.len()).filter(|&i| self.th[self.buf[i]].stall_until <= steps).collect();
                if ok.is_empty() {
                    return self.rng.below(n) as usize;
                }
                if kind == 0 {
                    if let Some(p) = curpos {
                        if ok.contains(&p) && !(self.cfg.preempt_inv > 0 && self.rng.below(self.cfg.preempt_inv) == 0) {
                            return p;
                        }
                    }
                }
                ok[self.rng.below(ok.len() as u64) as usize]
            }
        }
    }

    fn switch(&mut self, next: usize) {
        let me = self.cur;
        if next == me {
            return;
        }
        self.stats.switches += 1;
        self.cur = next;
        let g = self.th[next].go;
        let mine = self.th[me].go;
        g.store(1, Ordering::SeqCst);
        sys::futex_raw(g as *const AtomicU32 as *const u32, 1 | 128, 1);
        wait_go(mine);
    }
}

fn wait_go(g: &AtomicU32) {
    while g.load(Ordering::SeqCst) == 0 {
        sys::futex_raw(g as *const AtomicU32 as *const u32, 128, 0);
    }
    g.store(0, Ordering::SeqCst);
}

/// A point where the simulator may run another thread.
pub fn preempt() {
    if !registered() || in_sim() {
        return;
    }
    let _g = Guard::new();
    let s = sim();
    s.tick();
    let t = s.next_thread(0);
    s.switch(t);
}
pub fn alloc_point() {
    if !registered() || in_sim() || !started() {
        return;
    }
    let s = sim();
    if s.cfg.alloc_inv == 0 || !s.concurrent {
        return;
    }
    let _g = Guard::new();
    if s.rng.below(s.cfg.alloc_inv) == 0 {
        s.tick();
        let t = s.next_thread(0);
        s.switch(t);
    }
}
pub fn yield_now() {
    let _g = Guard::new();
    let s = sim();
    s.tick();
    s.stats.yields += 1;
    let t = s.next_thread(1);
    s.switch(t);
}
pub fn now() -> u64 {
    sim().clock
}
pub fn clock_read(clk: i32) -> (i64, i64) {
    if !started() {
        return (1000, 0);
    }
    let s = sim();
    if registered() && !in_sim() {
        let _g = Guard::new();
        s.tick();
    }
    let mut t = s.clock;
    if clk == 0 {
        t += 1_700_000_000_000_000_000;
    }
    ((t / 1_000_000_000) as i64, (t % 1_000_000_000) as i64)
}
pub fn sim_random(buf: &mut [u8]) {
    if !started() {
        buf.fill(7);
        return;
    }
    let s = sim();
    for b in buf.iter_mut() {
        *b = s.hash_rng.next() as u8;
    }
}
fn block(st: St, addr: usize, bitset: u32, deadline: Option<u64>) -> i64 {
    let s = sim();
    let me = s.cur;
    s.stats.blocks += 1;
    {
        let t = &mut s.th[me];
        t.st = st;
        t.addr = addr;
        t.bitset = bitset;
        t.deadline = deadline;
        t.ret = 0;
    }
    if deadline.is_some() {
        s.timed += 1;
    }
    let n = s.next_thread(2);
    s.switch(n);
    sim().th[me].ret
}
pub fn sleep(ns: u64) {
    let _g = Guard::new();
    let s = sim();
    s.tick();
    let d = s.clock.saturating_add(ns);
    block(St::Sleep, 0, 0, Some(d));
}

pub unsafe fn futex(addr: *const u32, op: i64, val: u32, ts: *const sys::Timespec, _a2: i64, val3: u32) -> i64 {
    let _g = Guard::new();
    let s = sim();
    s.tick();
    let cmd = op & 0x7f;
    match cmd {
        0 | 9 => {
            let n = s.next_thread(0);
            s.switch(n);
            let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
            if cur != val {
                return -(sys::EAGAIN as i64);
            }
            let s = sim();
            if s.cfg.spurious_inv > 0 && s.stats.steps < s.cfg.fair_after && s.concurrent {
                let inv = s.cfg.spurious_inv;
                let d = s.decide(2, 0, |s| (s.rng.below(inv) == 0) as usize);
                if d == 1 {
                    s.stats.spurious += 1;
                    let n = s.next_thread(1);
                    s.switch(n);
                    return 0;
                }
            }
            let deadline = if ts.is_null() {
                None
            } else {
                let t = unsafe { (*ts).sec as u64 * 1_000_000_000 + (*ts).nsec as u64 };
                Some(if cmd == 0 { s.clock.saturating_add(t) } else { t })
            };
            let bitset = if cmd == 9 { val3 } else { !0 };
            block(St::Futex, addr as usize, bitset, deadline)
        }
        1 | 10 => {
            let bitset = if cmd == 10 { val3 } else { !0 };
            let mut woken = 0;
            while woken < val as i64 {
                let s = sim();
                s.buf.clear();
                for (i, t) in s.th.iter().enumerate() {
                    if t.st == St::Futex && t.addr == addr as usize && t.bitset & bitset != 0 {
                        s.buf.push(i);
                    }
                }
                let n = s.buf.len();
                if n == 0 {
                    break;
                }
                let k = s.decide(n, 0, |s| s.rng.below(n as u64) as usize);
                let w = s.buf[k];
                if s.th[w].deadline.take().is_some() {
                    s.timed -= 1;
                }
                s.th[w].st = St::Runnable;
                s.th[w].ret = 0;
                woken += 1;
            }
            let s = sim();
            let n = s.next_thread(0);
            s.switch(n);
            woken
        }
        _ => unsafe { sys::raw6(sys::SYS_FUTEX, addr as i64, op, val as i64, ts as i64, _a2, val3 as i64) },
    }
}

/// Starts a simulated thread; it runs only when the scheduler hands it the token.
pub fn spawn(name: &'static str, f: impl FnOnce() + Send + 'static) -> usize {
    let _g = Guard::new();
    let idx = sim().add(name);
    let g = sim().th[idx].go;
    std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            wait_go(g);
            TID.with(|t| t.set(idx as i32));
            f();
            leave();
        })
        .expect("thread");
    idx
}
/// The thread is over for the simulation; the OS thread stays parked so that no teardown code runs unscheduled.
fn leave() -> ! {
    IN_SIM.with(|g| g.set(g.get() + 1));
    let s = sim();
    let me = s.cur;
    s.th[me].st = St::Done;
    for i in 0..s.th.len() {
        if s.th[i].st == St::Join(me) {
            s.th[i].st = St::Runnable;
        }
    }
    let n = s.next_thread(2);
    s.stats.switches += 1;
    s.cur = n;
    let g = s.th[n].go;
    g.store(1, Ordering::SeqCst);
    sys::futex_raw(g as *const AtomicU32 as *const u32, 1 | 128, 1);
    let never = AtomicU32::new(0);
    loop {
        sys::futex_raw(&never as *const AtomicU32 as *const u32, 128, 0);
    }
}
pub fn join(idx: usize) {
    let _g = Guard::new();
    let s = sim();
    s.tick();
    if s.th[idx].st != St::Done {
        block(St::Join(idx), 0, 0, None);
    }
}
pub fn thread_count() -> usize {
    sim().th.len()
}
