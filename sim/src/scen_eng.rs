//! C30, C31: the inside of a stepped search - its populations and size statistics - after every cycle.
use crate::cfg::Cfg;
use crate::ops::Flt;
use crate::oracle::{self, digest_member, same_expr, Member};
use crate::report::{self, probe};
use crate::rng::Fnv;
use crate::scen::{bad, engine, exact, note_search, own, Eng, Out};
use crate::scen_mut::impossible;
use crate::scen_unit::RARE;
use crate::sched;
use crate::setup::{op_by_name, session, Sess};
use std::collections::{BTreeMap, BTreeSet};

type Pops<T, const D: usize> = Vec<Vec<Member<T, D>>>;

fn pops<T: Flt, const D: usize>(e: &Eng<T, D>) -> Pops<T, D> {
    sched::quiet(|| e.populations().map(|p| p.members.clone()).collect())
}
fn dig<T: Flt, const D: usize>(m: &Member<T, D>) -> u64 {
    let mut h = Fnv::default();
    digest_member(&mut h, m);
    h.0
}
fn digs<T: Flt, const D: usize>(p: &[Member<T, D>]) -> Vec<u64> {
    p.iter().map(dig).collect()
}
fn same_numbers<T: Flt, const D: usize>(a: &Member<T, D>, b: &Member<T, D>) -> bool {
    same_expr(a, b) && a.loss.bits() == b.loss.bits() && a.cost.bits() == b.cost.bits() && a.complexity == b.complexity
}

// ---------------------------------------------------------------- C30

/// What is known of the list of best members a population shares.
struct Shared<T: Flt, const D: usize> {
    /// members it certainly had when the list was made
    had: Vec<Member<T, D>>,
    /// and no others
    all: bool,
}

pub fn c30<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let mut s = session::<T, D>(c, "");
    let mut r = c.rng("eng");
    let k = c.get("pops2", |r| *r.pick(&[1, 2, 2, 3, 3, 4, 6]));
    s.opt.populations = k as usize;
    s.opt.niterations = c.range("iters2", 1, 8) as usize;
    // only children that differ from their parents: a copy is a migrant
    let pure = c.flag("pure", 25);
    if pure {
        let m = &mut s.opt.mutation_weights;
        [m.mutate_constant, m.mutate_operator, m.mutate_feature, m.swap_operands, m.rotate_tree, m.add_node] = [0.0, 0.0, 0.0, 0.0, 0.0, 1.0];
        [m.insert_node, m.delete_node, m.simplify, m.randomize, m.do_nothing, m.optimize] = [0.0; 6];
        s.opt.skip_mutation_failures = true;
        s.opt.crossover_probability = 0.0;
        s.opt.should_simplify = false;
        s.opt.should_optimize_constants = false;
        s.opt.hof_migration = false;
        (s.opt.maxsize, s.opt.maxdepth, s.opt.warmup_maxsize_by) = (60, 60, 0.0);
    }
    if c.flag("alone", 20) {
        return alone(s, &mut r);
    }
    let o = s.opt.clone();
    let (n, size) = (o.populations, o.population_size);
    let sharing = o.migration && o.fraction_replaced > 0.0 && o.topn > 0;
    let from_hall = o.hof_migration && o.fraction_replaced_hof > 0.0;
    let mut e = engine(&s);
    let mut now = pops(&e);
    let mut ids: BTreeMap<u64, Member<T, D>> = BTreeMap::new();
    // identifiers tell where a member was made
    let home: Vec<u64> = now.iter().map(|p| p.first().map_or(0, |m| m.id.0 >> 32)).collect();
    let homes = home.iter().collect::<BTreeSet<_>>().len() == n && now.iter().zip(&home).all(|(p, h)| p.iter().all(|m| m.id.0 >> 32 == *h));
    let mut shared: Vec<Shared<T, D>> = now.iter().map(|p| Shared { had: p.clone(), all: true }).collect();
    check_ids(&mut ids, &now, "after construction")?;
    let mut turned: BTreeSet<usize> = BTreeSet::new();
    let (mut due, mut arrived, mut most, mut turns) = (0.0, 0u64, 0.0, 0u64);
    while !e.is_finished() {
        let before = std::mem::take(&mut now);
        let was: Vec<Vec<u64>> = before.iter().map(|p| digs(p)).collect();
        e.step(1);
        let at = format!("cycle {}", e.cycles_completed());
        now = pops(&e);
        if now.len() != n || now.iter().any(|p| p.len() != size) {
            return bad("size", format!("{at}: populations of {:?} members, {n} of {size} were asked for", now.iter().map(|p| p.len()).collect::<Vec<_>>()));
        }
        let is: Vec<Vec<u64>> = now.iter().map(|p| digs(p)).collect();
        let changed: Vec<usize> = (0..n).filter(|&i| was[i] != is[i]).collect();
        if changed.len() > 1 {
            return bad("turn", format!("{at}: the populations {changed:?} changed in one cycle"));
        }
        check_ids(&mut ids, &now, &at)?;
        if let Some(&p) = changed.first() {
            if !turned.insert(p) {
                return bad("turn", format!("{at}: population {p} evolved again before every population had its turn"));
            }
            turns += 1;
            let hall = e.hall_of_fame().pareto_front();
            let spec = s.spec();
            // every member has its own numbers, and the hall of fame is no worse
            for (i, m) in now[p].iter().enumerate() {
                sched::quiet(|| spec.numbers(m, !exact(&s))).map_err(own).map_err(|(k, w)| (k, format!("{at}: population {p}, member {i} [{}]: {w}", oracle::show_expr(m))))?;
                let held = e.hall_of_fame().best_by_complexity.get(m.complexity).and_then(|x| x.as_ref());
                if o.warmup_maxsize_by == 0.0 && m.loss.is_finite() && m.complexity > 0 && held.is_none_or(|h| h.cost > m.cost) {
                    let t = spec.tree(m).map_err(|w| ("malformed".to_string(), w))?;
                    if spec.full_constraints(&t, o.maxsize).is_ok() {
                        return bad("unseen", format!("{at}: population {p} holds [{}] of cost {:?}, the hall of fame has {:?} at complexity {}", oracle::show_expr(m), m.cost, held.map(|h| h.cost), m.complexity));
                    }
                }
            }
            // what moved in
            let old: BTreeSet<u64> = before[p].iter().map(|m| m.id.0).collect();
            let mut pool = Vec::new();
            let mut came = 0;
            for m in &now[p] {
                let fresh = !old.contains(&m.id.0);
                let src = m.parent.map(|x| x.0);
                let hall_copy = from_hall && hall.iter().any(|h| Some(h.id.0) == src && same_numbers(h, m));
                let foreign = homes && fresh && src.is_some_and(|x| x >> 32 != home[p]);
                if foreign {
                    came += 1;
                    arrived += 1;
                    probe("migrants_seen", 1);
                    if hall_copy {
                        probe("migrants_from_the_front", 1);
                        continue;
                    }
                    let src = src.unwrap_or(0);
                    let Some(q) = home.iter().position(|h| *h == src >> 32) else { continue };
                    let what = format!("{at}: [{}] (#{}, cost {:?}) moved from population {q} to {p}", oracle::show_expr(m), m.id.0, m.cost);
                    if !sharing {
                        return bad("migrant", format!("{what}, with migration {} of {}, topn {}, from the front {} of {}", o.migration, o.fraction_replaced, o.topn, o.hof_migration, o.fraction_replaced_hof));
                    }
                    let list = &shared[q];
                    let better = list.had.iter().filter(|x| x.cost < m.cost).count();
                    if better >= o.topn {
                        return bad("migrant", format!("{what}, where {better} members had lower costs and the {} best are shared", o.topn));
                    }
                    match list.had.iter().find(|x| x.id.0 == src) {
                        Some(x) if !same_numbers(x, m) => return bad("migrant", format!("{what} as a copy of #{src} [{}] of cost {:?}", oracle::show_expr(x), x.cost)),
                        None if list.all => return bad("migrant", format!("{what} as a copy of #{src}, which was not there after its last turn")),
                        x => probe("migrants_traced", x.is_some() as u64),
                    }
                } else {
                    if pure && fresh && homes {
                        if let Some(x) = src.and_then(|x| ids.get(&x)) {
                            // (where nothing can be added a member is kept)
                            if same_expr(x, m) && m.complexity < 50 {
                                return bad("migrant", format!("{at}: population {p} holds #{} [{}], a copy of its own #{}", m.id.0, oracle::show_expr(m), x.id.0));
                            }
                        }
                    }
                    if !(from_hall && fresh && hall.iter().any(|h| same_expr(h, m))) {
                        pool.push(m.clone());
                    }
                }
            }
            // how many
            if homes && sharing && !from_hall && n > 1 {
                due += size as f64 * o.fraction_replaced;
                most += size as f64 * o.fraction_replaced;
            }
            shared[p] = Shared { all: came == 0 && pool.len() == size, had: pool };
        } else {
            probe("turns_without_change", 1);
            // some population that had no turn yet was run, to no effect; its list may have been renewed
        }
        if e.cycles_completed() % n == 0 {
            turned.clear();
        }
        for p in &is {
            p.iter().for_each(|d| report::log(*d));
        }
    }
    if sharing && !from_hall && homes && n > 1 {
        // each member to move in replaces one at random; at least one stays when any came
        if due > RARE + 14.0 && arrived == 0 {
            return bad("migrants", format!("no member moved in over {turns} turns of populations of {size} with fraction {}", o.fraction_replaced));
        }
        // the number that comes is Poisson distributed
        let a = arrived as f64;
        if a > most && a * (a / most).ln() - (a - most) > RARE {
            return bad("migrants", format!("{arrived} members moved in over {turns} turns of populations of {size} with fraction {}", o.fraction_replaced));
        }
    }
    note_search(&s, e.hall_of_fame());
    probe("population_turns", turns);
    report::rep().nontrivial |= turns > 0;
    Ok(())
}

/// An identifier denotes one equation in all populations at all times.
fn check_ids<T: Flt, const D: usize>(ids: &mut BTreeMap<u64, Member<T, D>>, all: &Pops<T, D>, at: &str) -> Out {
    for (i, m) in all.iter().enumerate().flat_map(|(i, p)| p.iter().map(move |m| (i, m))) {
        match ids.get(&m.id.0) {
            None => {
                ids.insert(m.id.0, m.clone());
            }
            Some(x) if !same_expr(x, m) => {
                return bad("id", format!("{at}: #{} denotes [{}] in population {i}, before it denoted [{}]", m.id.0, oracle::show_expr(m), oracle::show_expr(x)))
            }
            _ => {}
        }
    }
    Ok(())
}

/// A single population has nobody to exchange members with.
fn alone<T: Flt, const D: usize>(mut s: Sess<T, D>, r: &mut crate::rng::R) -> Out {
    s.opt.populations = 1;
    s.opt.migration = true;
    if s.opt.fraction_replaced == 0.0 || r.below(2) == 0 {
        s.opt.fraction_replaced = 0.5;
    }
    let mut a = engine(&s);
    s.opt.migration = false;
    let mut b = engine(&s);
    while !a.is_finished() || !b.is_finished() {
        a.step(1);
        b.step(1);
        let (x, y) = (pops(&a), pops(&b));
        if digs(&x[0]) != digs(&y[0]) {
            return bad("alone", format!("cycle {}: the only population of a search differs with migration from others, although there are no others", a.cycles_completed()));
        }
        report::log(oracle::digest(a.hall_of_fame(), a.best()));
    }
    probe("single_populations", 1);
    report::rep().nontrivial = true;
    report::rep().runs += 1;
    Ok(())
}

// ---------------------------------------------------------------- C31

/// The counts of sizes, as documented: one each to begin with, never more than the window in all.
struct Counts {
    n: Vec<f64>,
    window: f64,
}
impl Counts {
    fn add(&mut self, sizes: &[usize]) {
        for &x in sizes {
            if x > 0 && x <= self.n.len() {
                self.n[x - 1] += 1.0;
            }
        }
        if self.n.iter().sum::<f64>() <= self.window {
            return;
        }
        // the same is taken off every count until it is down to one
        let left = |a: f64| self.n.iter().map(|v| (v - a).max(v.min(1.0))).sum::<f64>();
        let (mut lo, mut hi) = (0.0, self.n.iter().fold(0.0f64, |a, b| a.max(*b)));
        for _ in 0..200 {
            let mid = (lo + hi) / 2.0;
            if left(mid) > self.window {
                lo = mid;
            } else {
                hi = mid;
            }
        }
        self.n.iter_mut().for_each(|v| *v = (*v - hi).max(v.min(1.0)));
    }
    fn near(&self, f: &[f64]) -> bool {
        f.len() == self.n.len() && f.iter().zip(&self.n).all(|(a, b)| (a - b).abs() <= 1e-4 + 1e-6 * b)
    }
    fn freq(&self, x: usize) -> f64 {
        if x == 0 || x > self.n.len() {
            1e-6
        } else {
            (self.n[x - 1] / self.n.iter().sum::<f64>()).max(1e-6)
        }
    }
}

pub fn c31<T: Flt, const D: usize>(c: &Cfg) -> Out {
    let mut s = session::<T, D>(c, "");
    s.opt.migration = false;
    s.opt.hof_migration = false;
    s.opt.populations = c.get("pops2", |r| *r.pick(&[1, 1, 2, 3])) as usize;
    s.opt.niterations = c.range("iters2", 1, 8) as usize;
    let mode = c.get("mode", |r| *r.pick(&[0, 0, 0, 0, 1, 1, 1, 1, 1, 2, 3]));
    if mode == 3 {
        return before_migration(s);
    }
    match mode {
        0 => {}
        1 => walk(&mut s, c),
        _ if c.flag("window", 5) => {
            // more members than the window holds
            s.opt.populations = 1;
            s.opt.population_size = 9_000;
            s.opt.niterations = 13;
            s.opt.ncycles_per_iteration = 1;
            s.opt.tournament_selection_n = 1_000;
            s.opt.should_optimize_constants = false;
            s.opt.batching = false;
        }
        _ => {}
    }
    let o = s.opt.clone();
    let mut e = engine(&s);
    let mut m = Counts { n: vec![1.0; o.maxsize], window: 100_000.0 };
    if !m.near(&e.statistics().frequencies) {
        return bad("counts", format!("before the first cycle: {:?}", e.statistics().frequencies));
    }
    let mut now = pops(&e);
    let (mut adds, mut dels, mut all, mut p_add, mut p_del) = (0u64, 0u64, 0u64, 0.0, 0.0);
    while !e.is_finished() {
        let before = std::mem::take(&mut now);
        e.step(1);
        now = pops(&e);
        let turn = (0..now.len()).find(|&i| digs(&before[i]) != digs(&now[i]));
        if let (1, Some(p)) = (mode, turn) {
            let known: BTreeMap<u64, &Member<T, D>> = before[p].iter().chain(&now[p]).map(|m| (m.id.0, m)).collect();
            let old: BTreeSet<u64> = before[p].iter().map(|m| m.id.0).collect();
            for x in now[p].iter().filter(|x| !old.contains(&x.id.0)) {
                let Some(y) = x.parent.and_then(|y| known.get(&y.0)) else { continue };
                let a = y.complexity;
                if a < 3 || a + 3 > o.maxsize {
                    continue;
                }
                all += 1;
                p_add += 0.5 * (m.freq(a) / m.freq(a + 1)).min(1.0);
                p_del += 0.5 * (m.freq(a) / m.freq(a - 1)).min(1.0);
                adds += (x.complexity == a + 1) as u64;
                dels += (x.complexity + 1 == a) as u64;
            }
        }
        // which population had its turn is not seen when nothing in it changed
        let got = &e.statistics().frequencies;
        let fits = |p: usize| {
            let mut m = Counts { n: m.n.clone(), window: m.window };
            m.add(&now[p].iter().map(|m| m.complexity).collect::<Vec<_>>());
            m.near(got).then_some(m)
        };
        let next = match turn {
            Some(p) => fits(p),
            None => (0..now.len()).find_map(fits),
        };
        match next {
            Some(x) => m = x,
            None => {
                let p = turn.unwrap_or(0);
                let mut want = Counts { n: m.n.clone(), window: m.window };
                want.add(&now[p].iter().map(|m| m.complexity).collect::<Vec<_>>());
                return bad("counts", format!("cycle {}: the sizes are counted {got:?}, expected {:?}", e.cycles_completed(), want.n));
            }
        }
        got.iter().for_each(|f| report::log(f.to_bits()));
    }
    if m.n.iter().sum::<f64>() > 99_000.0 {
        probe("full_windows", 1);
    }
    for (what, got, p) in [("grew", adds, p_add), ("shrank", dels, p_del)] {
        if all > 0 && impossible(got as f64, got as f64, all as f64, p / all as f64) {
            return bad("use", format!("{got} of {all} children {what} by one, expected {p:.1} by the sizes counted before their turn"));
        }
    }
    probe("children_counted", all);
    note_search(&s, e.hall_of_fame());
    report::rep().nontrivial = true;
    Ok(())
}

/// Members that move in after a turn are not counted in it: the first turn is that of a search without migration.
fn before_migration<T: Flt, const D: usize>(mut s: Sess<T, D>) -> Out {
    s.opt.populations = s.opt.populations.max(2);
    let mut a = engine(&s);
    (s.opt.migration, s.opt.hof_migration) = (true, true);
    (s.opt.fraction_replaced, s.opt.fraction_replaced_hof, s.opt.topn) = (2.0, 2.0, 12);
    let mut b = engine(&s);
    a.step(1);
    b.step(1);
    if a.statistics().frequencies != b.statistics().frequencies {
        return bad("counts", format!("the first turn counts {:?}, without migration {:?}", b.statistics().frequencies, a.statistics().frequencies));
    }
    let moved = pops(&a).iter().zip(&pops(&b)).any(|(x, y)| digs(x) != digs(y));
    probe("turns_with_migration", moved as u64);
    report::rep().nontrivial = moved;
    report::rep().runs += 1;
    Ok(())
}

/// Equations that only grow or shrink by one unary operator; nothing but the size decides what is kept.
fn walk<T: Flt, const D: usize>(s: &mut Sess<T, D>, c: &Cfg) {
    let o = &mut s.opt;
    for v in o.operators.ops_by_arity.iter_mut() {
        v.clear();
    }
    for n in ["cos", "sin", "tanh"] {
        o.operators.push(op_by_name::<T>(n));
    }
    o.op_constraints = Default::default();
    o.nested_constraints = Default::default();
    o.operator_complexity_overrides = Default::default();
    o.variable_complexities = None;
    (o.complexity_of_constants, o.complexity_of_variables) = (1, 1);
    (o.maxsize, o.maxdepth, o.warmup_maxsize_by) = (30, 30, 0.0);
    (o.use_frequency, o.annealing, o.batching) = (true, false, false);
    (o.skip_mutation_failures, o.crossover_probability) = (false, 0.0);
    (o.should_simplify, o.should_optimize_constants) = (false, false);
    // every child is still there after the turn
    o.population_size = c.range("popsize4", 20, 120) as usize;
    o.populations = c.get("pops4", |r| *r.pick(&[1, 2, 3, 6, 8])) as usize;
    o.tournament_selection_n = c.range("tourn3", 1, 3) as usize;
    o.ncycles_per_iteration = 1;
    o.niterations = c.get("iters4", |r| *r.pick(&[1, 1, 2, 4, 8, 16])) as usize;
    let m = &mut o.mutation_weights;
    [m.mutate_constant, m.mutate_operator, m.mutate_feature, m.swap_operands, m.rotate_tree, m.add_node] = [0.0, 0.0, 0.0, 0.0, 0.0, 1.0];
    [m.insert_node, m.delete_node, m.simplify, m.randomize, m.do_nothing, m.optimize] = [0.0, 1.0, 0.0, 0.0, 0.0, 0.0];
}
