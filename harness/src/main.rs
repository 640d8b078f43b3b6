//! Executable oracles for C01..C16 over topogeo's public API: the bounded stand-in, the counterexample search and the
//! replay of the deductive check. `harness run ID SEED SECONDS` / `harness case ID GEN CASE`.
mod alloc;
mod rng;
mod shapes;
mod c_geo;
mod c_topo;
mod c_simp;
mod c_read;

use std::collections::HashSet;
use std::panic;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Moving = alloc::Moving;

/// Ok(true): the case exercised the property; Ok(false): outside its domain.
pub type Outcome = Result<bool, String>;
pub struct Gen {
    pub name: &'static str,
    /// Some(n): cases 0..n are all there is
    pub count: Option<u64>,
    pub weight: u32,
    pub f: fn(u64) -> Outcome,
}

fn gens(id: &str) -> Vec<Gen> {
    match id {
        "C01" => c_geo::c01(), "C02" => c_geo::c02(), "C03" => c_geo::c03(), "C04" => c_geo::c04(),
        "C05" => c_topo::c05(), "C06" => c_topo::c06(), "C07" => c_topo::c07(),
        "C08" => c_simp::c08(), "C09" => c_simp::c09(),
        "C10" => c_topo::c10(), "C11" => c_topo::c11(), "C17" => c_topo::c17(),
        "C12" => c_read::c12(), "C13" => c_read::c13(), "C14" => c_read::c14(), "C15" => c_read::c15(), "C16" => c_read::c16(),
        _ => { eprintln!("unknown property {}", id); std::process::exit(2) }
    }
}

fn run_case(f: fn(u64) -> Outcome, case: u64) -> Outcome {
    match panic::catch_unwind(|| f(case)) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("panic: {}", m))
        }
    }
}

thread_local! { pub static NOTE: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
/// Remember the input, so that a panic can be reported with it.
pub fn note(s: impl FnOnce() -> String) {
    if DESCRIBE.load(SeqCst) { NOTE.with(|n| *n.borrow_mut() = s()); }
}
pub static DESCRIBE: AtomicBool = AtomicBool::new(false);

fn esc(s: &str) -> String { let s: String = s.chars().take(20_000).collect(); s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', " ") }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    panic::set_hook(Box::new(|_| {}));
    match args.get(1).map(|s| &s[..]) {
        Some("case") => {
            let (id, gen, case) = (&args[2], &args[3], args[4].parse::<u64>().unwrap());
            let g = gens(id).into_iter().find(|g| g.name == *gen).expect("no such generator");
            DESCRIBE.store(true, SeqCst);
            let r = run_case(g.f, case);
            NOTE.with(|n| println!("input: {}", n.borrow().chars().take(100_000).collect::<String>()));
            match r {
                Ok(x) => println!("ok {}", x),
                Err(m) => { println!("FAILS {} {} {}: {}", id, gen, case, m.chars().take(20_000).collect::<String>()); std::process::exit(1) }
            }
        }
        Some("run") => run(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), args.get(5).map(|s| &s[..]) == Some("trace")),
        _ => { eprintln!("usage: harness run ID SEED SECONDS [trace] | case ID GEN CASE"); std::process::exit(2) }
    }
}

struct Slot { gen: AtomicUsize, case: AtomicU64, since: AtomicU64 }

fn run(id: &str, seed: u64, secs: f64, trace: bool) {
    let gens = Arc::new(gens(id));
    let threads = if trace { 1 } else { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) };
    let start = Instant::now();
    let deadline = start + Duration::from_millis((secs * 1000.) as u64);
    let fails: Arc<Mutex<Vec<(usize, u64, String)>>> = Arc::new(Mutex::new(vec![]));
    let stop = Arc::new(AtomicBool::new(false));
    let total = Arc::new((0..gens.len()).map(|_| (AtomicU64::new(0), AtomicU64::new(0))).collect::<Vec<_>>());
    let slots = Arc::new((0..threads).map(|_| Slot { gen: AtomicUsize::new(usize::MAX), case: AtomicU64::new(0), since: AtomicU64::new(0) }).collect::<Vec<_>>());
    let next_ex = Arc::new(gens.iter().map(|_| AtomicU64::new(0)).collect::<Vec<_>>());
    let done_ex = Arc::new(gens.iter().map(|_| AtomicU64::new(0)).collect::<Vec<_>>());
    let mut hs = vec![];
    for t in 0..threads {
        let (gens, fails, stop, total, slots, next_ex, done_ex) = (gens.clone(), fails.clone(), stop.clone(), total.clone(), slots.clone(), next_ex.clone(), done_ex.clone());
        let body = move || {
            let one = |gi: usize, case: u64| {
                let g = &gens[gi];
                if trace { use std::io::Write; let so = std::io::stdout(); let mut l = so.lock(); writeln!(l, "TRY\t{}\t{}", g.name, case).unwrap(); l.flush().unwrap(); }
                let sl = &slots[t];
                sl.case.store(case, SeqCst); sl.gen.store(gi, SeqCst);
                sl.since.store(start.elapsed().as_millis() as u64 + 1, SeqCst);
                let r = run_case(g.f, case);
                sl.since.store(0, SeqCst);
                match r {
                    Ok(x) => { total[gi].0.fetch_add(1, SeqCst); if x { total[gi].1.fetch_add(1, SeqCst); } }
                    Err(m) => {
                        total[gi].0.fetch_add(1, SeqCst); total[gi].1.fetch_add(1, SeqCst);
                        let mut f = fails.lock().unwrap();
                        f.push((gi, case, m));
                        if f.len() >= 3 { stop.store(true, SeqCst); }
                    }
                }
            };
            // exhaustive scopes first, then random cases of growing size until the time is up
            for gi in 0..gens.len() {
                if let Some(n) = gens[gi].count {
                    loop {
                        if stop.load(SeqCst) || Instant::now() > deadline { break; }
                        let a = next_ex[gi].fetch_add(64, SeqCst);
                        if a >= n { break; }
                        for c in a..(a + 64).min(n) { one(gi, c); done_ex[gi].fetch_add(1, SeqCst); }
                    }
                }
            }
            let rnd: Vec<usize> = (0..gens.len()).filter(|&i| gens[i].count.is_none()).flat_map(|i| std::iter::repeat(i).take(gens[i].weight as usize)).collect();
            let mut k: u64 = t as u64;
            // at least 200 random cases per thread, even when the exhaustive part used the time up
            let mut least = 200;
            while !rnd.is_empty() && !stop.load(SeqCst) && (least > 0 || Instant::now() < deadline) {
                let gi = rnd[(k / threads as u64) as usize % rnd.len()];
                // size grows with the low byte; the rest is the seed
                let case = (seed.wrapping_mul(0x1_0000_0001) ^ k.wrapping_mul(0x9e37_79b9_7f4a_7c15)) << 8 | ((k / 16) & 0xff);
                one(gi, case);
                k += threads as u64;
                if least > 0 { least -= 1; }
            }
        };
        hs.push(std::thread::Builder::new().stack_size(32 << 20).spawn(body).unwrap());
    }
    // watchdog
    loop {
        std::thread::sleep(Duration::from_millis(20));
        if hs.iter().all(|h| h.is_finished()) { break; }
        let now = start.elapsed().as_millis() as u64;
        for s in slots.iter() {
            let since = s.since.load(SeqCst);
            if since != 0 && now > since + 20_000 {
                println!("VIOL\t{}\t{}\t{}", gens[s.gen.load(SeqCst)].name, s.case.load(SeqCst), "does not end within 20 s");
                std::process::exit(1);
            }
        }
    }
    let fails = fails.lock().unwrap();
    let mut seen = HashSet::new();
    let mut fs: Vec<_> = fails.iter().collect();
    fs.sort_by_key(|f| (f.0, f.1 & 0xff));
    for (gi, case, m) in fs {
        if seen.insert((*gi, *case)) { println!("VIOL\t{}\t{}\t{}", gens[*gi].name, case, esc(m)); }
    }
    for (gi, g) in gens.iter().enumerate() {
        let all = match g.count { Some(n) => if done_ex[gi].load(SeqCst) >= n { "exhausted" } else { "partial" }, None => "random" };
        println!("GEN\t{}\t{}\t{}\t{}\t{}", g.name, total[gi].0.load(SeqCst), total[gi].1.load(SeqCst), all, g.count.unwrap_or(0));
    }
    std::process::exit(if fails.is_empty() { 0 } else { 1 });
}
