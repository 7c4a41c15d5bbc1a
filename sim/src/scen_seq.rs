//! Stepped searches: determinism, accounting, progress display, identifiers, mini-batches.
use crate::cfg::Cfg;
use crate::ops::Flt;
use crate::oracle::{self, Hall, Member};
use crate::report::{self, probe};
use crate::rng::Fnv;
use crate::scen::*;
use crate::scen_par::{same_shape, shape_of, Slot};
use crate::sched;
use crate::setup::{dataset, session, Sess};
use crate::term::{self, TermCfg};
use std::collections::BTreeMap;
use ndarray::{Array1, Array2};
use symbolic_regression::{Dataset, SearchEngine};

fn state<T: Flt, const D: usize>(e: &Eng<T, D>) -> (u64, u64, usize, u64) {
    let mut h = Fnv::default();
    e.populations().for_each(|p| p.members.iter().for_each(|m| oracle::digest_member(&mut h, m)));
    (oracle::digest(e.hall_of_fame(), e.best()), e.total_evals(), e.cycles_completed(), h.0)
}

// ---------------------------------------------------------------- C07

pub fn c07<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let s: &'static Sess<T, D> = Box::leak(Box::new(session::<T, D>(c, "")));
    // reference history, one cycle at a time
    let mut e = engine(&s.fresh());
    let mut hist = vec![state(&e)];
    while e.step(1) > 0 {
        hist.push(state(&e));
    }
    let end = e.run_to_completion();
    let last = oracle::digest(&end.hall_of_fame, &end.best);
    if last != hist.last().unwrap().0 {
        return bad("end", "run_to_completion of a finished search reports something else");
    }
    note_search(s, &end.hall_of_fame);
    for h in &hist {
        report::log(h.0);
        report::result(h.0);
        report::result(h.1);
    }
    let hist: &'static Vec<(u64, u64, usize, u64)> = Box::leak(Box::new(hist));
    // disturbances before the repetition
    let mut noise = c.rng("noise");
    if c.flag("clock", 70) {
        sched::set_clock(sched::now() + noise.below(1 << 50));
        sched::set_clock_rate(1 + noise.below(1 << 20), 30, 3_000_000_000);
    }
    if c.flag("heap", 70) {
        for _ in 0..noise.below(200) {
            let v: Vec<u8> = vec![1; 1 + noise.below(5000) as usize];
            if noise.below(2) == 0 {
                std::mem::forget(v);
            }
        }
    }
    if c.flag("earlier", 40) {
        let o = session::<T, D>(c, "b");
        let mut e = engine(&o);
        e.step(1 + noise.below(3) as usize);
        if noise.below(2) == 0 {
            std::mem::forget(e);
        }
    }
    // the repetition: other chunks, other thread, other searches running meanwhile
    let out: &'static Slot<Out> = Slot::new();
    let mut q = c.rng("chunks");
    let whole = c.flag("whole", 25);
    let mut rep = move || {
        let f = s.fresh();
        let mut e = engine(&f);
        let mut r: Out = Ok(());
        let check = |e: &Eng<T, D>| -> Out {
            let got = state(e);
            let want = hist[got.2.min(hist.len() - 1)];
            if got != want {
                return bad(
                    "differs",
                    format!("after {} cycles the repeated search is in another state (evaluations {} versus {})", got.2, got.1, want.1),
                );
            }
            Ok(())
        };
        if whole {
            r = check(&e);
            let done = e.run_to_completion();
            if r.is_ok() && oracle::digest(&done.hall_of_fame, &done.best) != last {
                r = bad("differs", "run to completion in one go ends in another state".to_string());
            }
        } else {
            loop {
                if r.is_ok() {
                    r = check(&e);
                }
                if r.is_err() || e.is_finished() {
                    break;
                }
                e.step(q.below(5) as usize);
            }
        }
        out.put(r);
    };
    let others = c.range("others", 0, 2);
    let mut ids = Vec::new();
    for i in 0..others {
        let o: &'static Sess<T, D> = Box::leak(Box::new(session::<T, D>(c, ["b", "x"][i as usize])));
        ids.push(sched::spawn("other", move || {
            let mut e = engine(o);
            while e.step(2) > 0 {}
            std::mem::forget(e);
        }));
    }
    if others > 0 || c.flag("thread", 50) {
        ids.push(sched::spawn("driver", rep));
    } else {
        rep();
    }
    ids.into_iter().for_each(sched::join);
    probe("repeated_searches", 1);
    report::rep().runs += 1;
    out.take().unwrap_or_else(|| bad("lost", "no result"))
}

// ---------------------------------------------------------------- C10

pub fn c10<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let mut s = session::<T, D>(c, "");
    if c.flag("zeroiters", 5) {
        s.opt.niterations = 0;
    }
    let total = s.opt.niterations * s.opt.populations;
    // the user's loss is NaN or infinite for some candidates
    let l = s.cell.log();
    l.nan_seed = c.seed;
    l.nan_pm = c.get("lossnan", |r| *r.pick(&[0, 0, 0, 0, 10, 100, 300])) as u64;
    let mut e = engine(&s);
    let mut r = c.rng("steps");
    let mut done = 0usize;
    let mut evals = e.total_evals();
    let ps = s.opt.population_size as u64;
    if evals < ps * s.opt.populations as u64 {
        return bad("evals", format!("{evals} evaluations after construction of {} members", ps * s.opt.populations as u64));
    }
    let (made, odd) = (s.cell.log().calls - s.cell.log().skip, crate::ops::opf().fails);
    if evals < made || evals > made + odd {
        return bad("evals", format!("{evals} evaluations are counted after construction, {made} were made (and at most {odd} given up)"));
    }
    let mut extra = 0;
    loop {
        if e.total_cycles() != total {
            return bad("total", format!("total cycles {} instead of {total}", e.total_cycles()));
        }
        if e.cycles_completed() != done {
            return bad("completed", format!("{} cycles completed, {done} expected", e.cycles_completed()));
        }
        if e.is_finished() != (done == total) {
            return bad("finished", format!("finished={} after {done} of {total} cycles", e.is_finished()));
        }
        let before = state(&e);
        let n = match r.below(8) {
            0 => 0,
            1 => total + r.below(5) as usize,
            2 => usize::MAX,
            _ => 1 + r.below(4) as usize,
        };
        let (calls, odd) = (s.cell.log().calls, crate::ops::opf().fails);
        let got = e.step(n);
        let want = n.min(total - done);
        if got != want {
            return bad("returned", format!("step({n}) after {done} of {total} cycles returned {got}"));
        }
        done += got;
        let after = state(&e);
        if after.1 < evals + got as u64 * ps {
            return bad("evals", format!("evaluation counter went from {evals} to {} in {got} cycles of {ps} members", after.1));
        }
        // every evaluation asks for the loss once, unless an operator had no finite result
        let (calls_by, odd_by) = (s.cell.log().calls - calls, crate::ops::opf().fails - odd);
        if !s.opt.should_optimize_constants && (after.1 - evals < calls_by || after.1 - evals > calls_by + odd_by) {
            return bad("evals", format!("evaluation counter went from {evals} to {} in {got} cycles with {calls_by} evaluations (and at most {odd_by} given up)", after.1));
        }
        evals = after.1;
        if got == 0 {
            if after != before {
                return bad("changed", format!("a step of no cycles ({n} requested) changed the observable state"));
            }
            if s.cell.log().calls != calls {
                return bad("changed", "a step of no cycles evaluated candidates");
            }
        }
        report::log(after.0);
        if done == total {
            extra += 1;
            if extra > 3 {
                break;
            }
        }
    }
    note_search(&s, e.hall_of_fame());
    let h = oracle::digest(e.hall_of_fame(), e.best());
    let out = e.run_to_completion();
    if oracle::digest(&out.hall_of_fame, &out.best) != h {
        return bad("changed", "run_to_completion of a finished search changed its result");
    }
    Ok(())
}

// ---------------------------------------------------------------- C11

fn term_cfg(c: &Cfg) -> (TermCfg, bool) {
    let clean = c.flag("cleanterm", 40);
    let mut t = TermCfg {
        tty: c.flag("tty", 85),
        rows: c.get("trows", |r| *r.pick(&[0, 1, 2, 5, 24, 60, 500])) as u16,
        cols: c.get("tcols", |r| *r.pick(&[0, 1, 3, 20, 79, 80, 81, 120, 400, 65535])) as u16,
        size_fails: c.flag("nosize", 15),
        ..Default::default()
    };
    if clean {
        t.tty = true;
        t.rows = 500;
        t.cols = c.pick("ccols", &[80, 100, 132, 200]) as u16;
        t.size_fails = false;
    } else {
        t.fault_pm = c.get("tfault", |r| *r.pick(&[0, 20, 200, 700, 1000])) as u64;
        t.kinds = c.range("tkinds", 0, 63) as u64;
        if c.flag("dead", 30) {
            t.dead_from = c.range("deadfrom", 0, 60) as u64;
        }
    }
    (t, clean)
}

pub fn c11<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let s = session::<T, D>(c, "");
    let parallel = c.flag("parallel", 50);
    let mut q = s.fresh();
    q.opt.progress = false;
    let mut e = engine(&q);
    while e.step(2) > 0 {}
    let want = oracle::digest(e.hall_of_fame(), e.best());
    let want_shape = shape_of(e.hall_of_fame(), e.best());
    let (tc, clean) = term_cfg(c);
    let (tty, tcols) = (tc.tty, tc.cols as usize);
    term::install(tc, c.seed);
    if c.flag("clockjumps", 60) {
        let mut n = c.rng("clock");
        sched::set_clock(sched::now() + n.below(1 << 55));
        sched::set_clock_rate(1 + n.below(1 << 24), 1 + n.below(40), [1_000_000, 10_000_000_000, 1 << 50][n.below(3) as usize]);
    }
    let mut f = s.fresh();
    f.opt.progress = true;
    let mut evals = None;
    let (hall, best): (Hall<T, D>, Member<T, D>) = if parallel {
        let (call, n) = place(c);
        let p = make_place(&call, n);
        let r = psearch(&f, &p);
        (r.hall_of_fame, r.best)
    } else {
        let mut e = engine(&f);
        let mut r = c.rng("steps");
        while !e.is_finished() {
            e.step(1 + r.below(3) as usize);
        }
        if c.flag("after", 30) {
            e.step(2);
        }
        evals = Some(e.total_evals());
        let r = e.run_to_completion();
        (r.hall_of_fame, r.best)
    };
    note_search(&f, &hall);
    let t = term::term().unwrap();
    probe("terminal_writes", t.writes);
    if tty {
        probe("runs_on_a_terminal", 1);
    }
    report::log(t.bytes);
    if parallel {
        if let Err(m) = same_shape(&s, &want_shape, &shape_of(&hall, &best)) {
            return bad("differs", format!("with the progress display the search gives another result: {m}"));
        }
    } else if oracle::digest(&hall, &best) != want {
        return bad("differs", "with the progress display the search gives another result");
    }
    if f.cell.log().calls != q.cell.log().calls {
        return bad("count", "with the progress display the search evaluates another number of candidates");
    }
    if clean {
        let total = f.opt.niterations * f.opt.populations;
        if std::env::var_os("SR_DUMP").is_some() { let _ = sched::quiet(|| std::fs::write("/tmp/frame.out", &t.out)); }
        frame(&t.out, tcols, total, evals, &hall).or_else(|m| bad("frame", m))?;
        probe("last_frames_read", 1);
    }
    Ok(())
}
/// What a terminal of this width shows after the given output (rows unlimited, deferred wrapping).
fn screen(b: &[u8], cols: usize) -> Vec<String> {
    let s = String::from_utf8_lossy(b);
    let mut g: Vec<Vec<char>> = vec![Vec::new()];
    let (mut x, mut y) = (0usize, 0usize);
    let mut it = s.chars().peekable();
    while let Some(ch) = it.next() {
        match ch {
            '\r' => x = 0,
            '\n' => {
                x = 0;
                y += 1;
            }
            '\u{1b}' => {
                if it.peek() == Some(&'[') {
                    it.next();
                    let mut arg = String::new();
                    let mut end = ' ';
                    for c in it.by_ref() {
                        if ('@'..='~').contains(&c) {
                            end = c;
                            break;
                        }
                        arg.push(c);
                    }
                    let n: usize = arg.split(';').next().and_then(|a| a.parse().ok()).unwrap_or(0);
                    match end {
                        'A' => y = y.saturating_sub(n.max(1)),
                        'B' => y += n.max(1),
                        'C' => x += n.max(1),
                        'D' => x = x.min(cols - 1).saturating_sub(n.max(1)),
                        'G' => x = n.max(1) - 1,
                        'J' if n == 0 => {
                            if y < g.len() {
                                g[y].truncate(x);
                                g.truncate(y + 1);
                            }
                        }
                        'K' if y < g.len() => match n {
                            0 => g[y].truncate(x),
                            1 => g[y].iter_mut().take(x + 1).for_each(|c| *c = ' '),
                            _ => g[y].clear(),
                        },
                        _ => {}
                    }
                }
            }
            c if c.is_control() => {}
            c => {
                if x >= cols {
                    x = 0;
                    y += 1;
                }
                while g.len() <= y {
                    g.push(Vec::new());
                }
                while g[y].len() <= x {
                    g[y].push(' ');
                }
                g[y][x] = c;
                x += 1;
            }
        }
    }
    g.iter().map(|l| l.iter().collect::<String>().trim_end().to_string()).collect()
}
/// The last frame on a working terminal: all cycles done, one line per front member.
fn frame<T: Flt, const D: usize>(
    out: &[u8],
    cols: usize,
    total: usize,
    evals: Option<u64>,
    hall: &Hall<T, D>,
) -> Result<(), String> {
    // a line of the display is drawn for 80 columns at least; a narrower terminal breaks it
    let wide = cols >= 80;
    let g = screen(out, cols);
    let Some(at) = g.iter().rposition(|l| l.contains("Evolving for")) else { return Err("nothing was drawn".into()) };
    let head = &g[at];
    if !head.split_whitespace().any(|w| w == format!("{total}/{total}")) {
        return Err(format!("last frame does not show {total}/{total} cycles: {head}"));
    }
    let lines = g[at + 1..].iter();
    if let (true, Some(n)) = (wide, evals) {
        let text = format!("evals={n}");
        if !g[at + 1..].iter().any(|l| l.split_whitespace().any(|w| w == text)) {
            return Err(format!("last frame does not show {text}: {:?}", g.get(at + 1)));
        }
    }
    let mut got = Vec::new();
    let mut texts: Vec<String> = Vec::new();
    let mut inside = false;
    for l in lines {
        if l.starts_with("Complexity") {
            inside = true;
            continue;
        }
        if inside {
            if l.starts_with('─') {
                break;
            }
            if l.starts_with(|c: char| c.is_ascii_digit()) {
                let w: Vec<&str> = l.split_whitespace().collect();
                got.push(format!("{} {}", w[0], w.get(1).unwrap_or(&"")));
                texts.push(w[w.len().min(2)..].concat());
            } else if let Some(t) = texts.last_mut() {
                // the rest of an equation that takes several lines
                t.truncate(t.len() - if t.ends_with("...") { 3 } else { 0 });
                t.extend(l.split_whitespace());
            }
        }
    }
    let want: Vec<String> =
        hall.pareto_front().iter().map(|m| format!("{} {:.3e}", m.complexity, m.loss.to64())).collect();
    if got != want {
        return Err(format!("last frame lists {got:?}, the front is {want:?}"));
    }
    probe("front_lines_read", want.len() as u64);
    if want.len() > 10 {
        probe("long_fronts_read", 1);
    }
    if wide {
        let front = hall.pareto_front();
        let bare = |s: String| s.split_whitespace().collect::<String>();
        if let Some((got, want)) =
            texts.into_iter().zip(front.iter().map(|m| bare(m.expr.to_string()))).find(|(g, w)| g != w)
        {
            return Err(format!("last frame shows the equation {got}, the front has {want}"));
        }
        probe("front_equations_read", want.len() as u64);
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

struct Ids(BTreeMap<u64, (u64, String)>);
impl Ids {
    fn see<T: Flt, const D: usize>(&mut self, m: &Member<T, D>, at: &str) -> Out {
        let mut h = Fnv::default();
        oracle::digest_expr(&mut h, m);
        let txt = oracle::show_expr(m);
        match self.0.get(&m.id.0) {
            None => {
                self.0.insert(m.id.0, (h.0, txt));
                Ok(())
            }
            Some((d, t)) => {
                if *d != h.0 {
                    return bad("id", format!("identifier {} denotes [{txt}] {at}, earlier it denoted [{t}]", m.id.0));
                }
                Ok(())
            }
        }
    }
    fn all<T: Flt, const D: usize>(&mut self, h: &Hall<T, D>, b: &Member<T, D>, at: &str) -> Out {
        sched::quiet(|| {
            for m in h.members() {
                self.see(m, at)?;
            }
            for m in &h.pareto_front() {
                self.see(m, at)?;
            }
            self.see(b, at)
        })
    }
}
pub fn c17<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let s = session::<T, D>(c, "");
    let mut ids = Ids(BTreeMap::new());
    if c.flag("stepped", 75) {
        let mut e = engine(&s);
        loop {
            let at = format!("after cycle {}", e.cycles_completed());
            ids.all(e.hall_of_fame(), e.best(), &at)?;
            sched::quiet(|| e.populations().flat_map(|p| &p.members).try_for_each(|m| ids.see(m, &at)))?;
            if e.step(1) == 0 {
                break;
            }
            report::log(oracle::digest(e.hall_of_fame(), e.best()));
        }
        note_search(&s, e.hall_of_fame());
    } else {
        let (call, n) = place(c);
        let p = make_place(&call, n);
        let r = psearch(&s, &p);
        ids.all(&r.hall_of_fame, &r.best, "in the result")?;
        report::log(oracle::digest(&r.hall_of_fame, &r.best));
        note_search(&s, &r.hall_of_fame);
    }
    probe("identifiers_tracked", ids.0.len() as u64);
    Ok(())
}

// ---------------------------------------------------------------- C18

fn same_data<T: Flt>(a: &Dataset<T>, b: &Dataset<T>) -> bool {
    let v = |x: &[T], y: &[T]| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| p.bits() == q.bits());
    a.n_rows == b.n_rows
        && a.n_features == b.n_features
        && v(a.x.as_slice().unwrap(), b.x.as_slice().unwrap())
        && v(a.y_slice(), b.y_slice())
        && match (a.weights_slice(), b.weights_slice()) {
            (None, None) => true,
            (Some(p), Some(q)) => v(p, q),
            _ => false,
        }
        && a.variable_names == b.variable_names
        && a.avg_y.bits() == b.avg_y.bits()
}
/// Batches of a dataset with more rows than fit into sixteen bits: a row tells its own number.
fn large_batches<T: Flt>(c: &Cfg) -> Out {
    let n = c.pick("large_rows", &[300, 1500, 5000, 70_000]) as usize;
    let bs = c.range("large_batch", 1, 3000) as usize;
    let x = Array2::from_shape_fn((2, n), |(f, j)| T::from64((j + f) as f64));
    let y = Array1::from_shape_fn(n, |j| T::from64(j as f64));
    let w = c.flag("large_weights", 50).then(|| Array1::from_shape_fn(n, |j| T::from64((j + 1) as f64)));
    let data = Dataset::with_weights_and_names(x, y, w, Vec::new());
    let mut buf = Dataset::make_batch_buffer(&data, bs);
    let mut rng = fastrand::Rng::with_seed(c.rng("large_draws").next());
    let mut part = [0u64; 32];
    for i in 0..20_000usize.div_ceil(bs) {
        buf.resample_from(&data, &mut rng);
        for j in 0..bs {
            let k = buf.y[j].to64();
            let own = buf.x[(0, j)].to64() == k && buf.x[(1, j)].to64() == k + 1.0 && buf.weights.as_ref().is_none_or(|w| w[j].to64() == k + 1.0);
            if !own || k < 0.0 || k >= n as f64 {
                return bad("foreign", format!("row {j} of batch {i} is no row of the {n} rows of the dataset"));
            }
            part[k as usize * 32 / n] += 1;
        }
    }
    if let Some(k) = part.iter().position(|&n| n == 0) {
        return bad("never", format!("no row of part {k} of 32 of a dataset of {n} rows was drawn in 20000 draws"));
    }
    probe("large_datasets", 1);
    Ok(())
}

pub fn c18<T: Flt, const D: usize>(c: &Cfg) -> Out {
    // the buffer on its own
    let data = dataset::<T>(c, "");
    let keep = data.clone();
    let mut r = c.rng("batch");
    let bs = c.range("batchsize", 1, 50) as usize;
    let mut buf = Dataset::make_batch_buffer(&data, bs);
    let mut rng = fastrand::Rng::with_seed(r.next());
    let mut seen = vec![0u64; data.n_rows];
    let draws = (40 * data.n_rows).div_ceil(bs).max(4);
    for i in 0..draws {
        buf.resample_from(&data, &mut rng);
        if buf.n_rows != bs || buf.y.len() != bs || buf.x.dim() != (data.n_features, bs) {
            return bad("rows", format!("batch of {} rows, {bs} requested", buf.y.len()));
        }
        for j in 0..bs {
            let hit = (0..data.n_rows).find(|&k| {
                buf.y[j].bits() == data.y[k].bits()
                    && (0..data.n_features).all(|f| buf.x[(f, j)].bits() == data.x[(f, k)].bits())
                    && match (&buf.weights, &data.weights) {
                        (None, None) => true,
                        (Some(a), Some(b)) => a[j].bits() == b[k].bits(),
                        _ => false,
                    }
            });
            match hit {
                None => return bad("foreign", format!("row {j} of batch {i} is no row of the dataset")),
                Some(k) => seen[k] += 1,
            }
        }
    }
    if let Some(k) = seen.iter().position(|&n| n == 0) {
        return bad("never", format!("row {k} of {} was not drawn in {} draws", data.n_rows, draws * bs));
    }
    if !same_data(&data, &keep) {
        return bad("changed", "drawing batches changed the dataset");
    }
    probe("batches_drawn", draws as u64);
    if c.flag("large", 4) {
        large_batches::<T>(c)?;
    }
    // a whole search on batches
    let s = session::<T, D>(c, "");
    let (bad_rows, odd);
    if c.flag("stepped", 70) {
        let mut e: Eng<T, D> = SearchEngine::new(s.data.clone(), s.opt.clone());
        // cycles in which something was evaluated on a batch
        let (mut on_batch, mut before) = (0, 0);
        while e.step(1) > 0 {
            report::log(oracle::digest(e.hall_of_fame(), e.best()));
            let now = s.cell.log().row_seen.iter().sum::<u64>();
            on_batch += (now > before) as usize;
            before = now;
        }
        // each row is missed by one draw with probability 1 - 1/n
        if on_batch * s.opt.batch_size.max(1) >= 60 * keep.n_rows && keep.n_rows > 1 {
            probe("searches_with_every_row_due", 1);
            if let Some(k) = s.cell.log().row_seen.iter().position(|&n| n == 0) {
                return bad("never", format!("row {k} of {} was in no batch of {} rows of {on_batch} cycles", keep.n_rows, s.opt.batch_size));
            }
        }
        if !same_data(e.dataset(), &keep) {
            return bad("changed", "the search changed the dataset");
        }
        note_search(&s, e.hall_of_fame());
    } else {
        let (call, n) = place(c);
        let p = make_place(&call, n);
        let r = psearch(&s, &p);
        report::log(oracle::digest(&r.hall_of_fame, &r.best));
        note_search(&s, &r.hall_of_fame);
    }
    let l = s.cell.log();
    (bad_rows, odd) = (l.bad_rows, l.odd_len);
    if !same_data(&s.data, &keep) {
        return bad("changed", "the search changed the dataset");
    }
    if odd > 0 {
        return bad("rows", format!("{odd} evaluations on a number of rows that is neither the batch size nor the dataset's"));
    }
    if bad_rows > 0 {
        return bad("foreign", format!("{bad_rows} evaluated rows are no rows of the dataset"));
    }
    probe("batch_rows_checked", l.row_seen.iter().sum());
    Ok(())
}
