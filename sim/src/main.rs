mod cfg;
mod ops;
mod oracle;
mod report;
mod rng;
mod sched;
mod scen;
mod scen_par;
mod scen_seq;
#[cfg(feature = "unit")]
mod scen_unit;
#[cfg(feature = "unit")]
mod scen_mut;
#[cfg(feature = "unit")]
mod scen_eng;
#[cfg(feature = "phases")]
mod scen_iter;
#[cfg(feature = "wasm")]
mod scen_wasm;
mod setup;
mod sys;
mod term;

use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::io::{Read, Write};

/// Every allocation is a possible scheduling point.
struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        sched::alloc_point();
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static A: SimAlloc = SimAlloc;

fn parse_kv(args: &[String]) -> (BTreeMap<String, i64>, Option<String>) {
    let mut m = BTreeMap::new();
    let mut sched = None;
    for a in args {
        if let Some((k, v)) = a.split_once('=') {
            if k == "sched" {
                sched = Some(v.to_string());
            } else if let Ok(v) = v.parse() {
                m.insert(k.to_string(), v);
            }
        }
    }
    (m, sched)
}

fn main() {
    sys::fixed_addresses();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("one") => one(&args[2], args[3].parse().expect("seed"), &args[4..]),
        Some("batch") => batch(&args[2..]),
        _ => {
            eprintln!("usage: sr_sim one PROP SEED [k=v ...] [sched=FILE] | batch PROP FIRST STRIDE SECONDS CPU MAXRUNS [k=v ...]");
            std::process::exit(2);
        }
    }
}

fn one(prop: &str, seed: u64, rest: &[String]) -> ! {
    let (over, sched_file) = parse_kv(rest);
    let forced = sched_file.map(|f| {
        let s = std::fs::read_to_string(f).expect("schedule file");
        let mut v: Vec<(u64, u32)> = Vec::new();
        for p in s.trim().split(',').filter(|p| !p.is_empty()) {
            let (a, b) = p.split_once(':').expect("k:c");
            v.push((a.parse().unwrap(), b.parse().unwrap()));
        }
        v
    });
    if let Some(c) = over.get("cpu") {
        sys::pin_cpu(*c as usize);
    }
    sys::limit_cpu(over.get("cpulimit").copied().unwrap_or(40) as u64);
    report::init();
    install_panic_hook();
    scen::run(prop, seed, over, forced);
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        sched::quiet(|| {
            if info.payload().downcast_ref::<ops::SimFault>().is_some() {
                report::rep().runs += 0;
                return;
            }
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            let (file, line) = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
            if file.starts_with("src/") {
                report::harness_error(&format!("panic in the harness at {file}:{line}: {msg}"));
            }
            scen::on_panic(&msg, &file, line);
        })
    }));
}

/// Runs seeds FIRST, FIRST+STRIDE, ... one process each until SECONDS are over or MAXRUNS are done.
fn batch(a: &[String]) {
    let prop = &a[0];
    let first: u64 = a[1].parse().unwrap();
    let stride: u64 = a[2].parse().unwrap();
    let secs: f64 = a[3].parse().unwrap();
    let cpu: &str = &a[4];
    let max: u64 = a[5].parse().unwrap();
    let exe = std::env::current_exe().unwrap();
    let t0 = std::time::Instant::now();
    let out = std::io::stdout();
    let mut seed = first;
    let mut n = 0;
    while n < max && t0.elapsed().as_secs_f64() < secs {
        let mut child = std::process::Command::new(&exe)
            .arg("one")
            .arg(prop)
            .arg(seed.to_string())
            .args(&a[6..])
            .arg(format!("cpu={cpu}"))
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::piped())
            .spawn()
            .expect("child");
        let mut text = String::new();
        let mut err = String::new();
        child.stdout.take().unwrap().read_to_string(&mut text).ok();
        child.stderr.take().unwrap().read_to_string(&mut err).ok();
        let st = child.wait().expect("wait");
        let line = text.lines().last().unwrap_or("").to_string();
        use std::os::unix::process::ExitStatusExt;
        let line = if st.success() && line.starts_with('{') {
            line
        } else {
            let sig = st.signal().unwrap_or(0);
            let class = match sig {
                24 => "hang",
                11 | 6 | 7 | 4 | 8 => "crash",
                _ => "harness",
            };
            let v = if class == "harness" { "error" } else { "viol" };
            let e: String = err.chars().rev().take(300).collect::<String>().chars().rev().collect();
            format!(
                "{{\"v\":\"{v}\",\"class\":\"{class}\",\"msg\":{:?},\"digest\":\"\",\"nontrivial\":false,\"runs\":1,\"sample\":\"\",\"probes\":{{}}}}",
                format!("process ended by signal {sig}, status {:?}: {}", st.code(), e.replace(|c: char| (c as u32) < 32 || (c as u32) > 126, " "))
            )
        };
        let mut o = out.lock();
        let _ = writeln!(o, "{seed} {line}");
        let _ = o.flush();
        seed = seed.wrapping_add(stride);
        n += 1;
    }
}
