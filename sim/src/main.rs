//! Deterministic simulation of the Phoenix contracts: seeded search over schedules and faults.
//!   phoenix-sim check <property> <quick|thorough> <evidence file>
//!   phoenix-sim replay <file>
//!   phoenix-sim run <world> <seed> [property]      one verbose run
//!   phoenix-sim bench <property> <seconds>
mod chain;
mod events;
mod refm;
mod rng;
mod sim;
mod val;
mod worlds;
use chain::*;
use rng::Rng;
use serde_json::{json, Value};
use sha2::Digest;
use sim::*;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

extern "C" {
    fn mallopt(a: i32, b: i32) -> i32;
}

const NAMES: [&str; 9] = [
    "soroban_token_contract",
    "phoenix_stake",
    "phoenix_pool",
    "phoenix_pool_stable",
    "phoenix_factory",
    "phoenix_multihop",
    "phoenix_trader",
    "phoenix_vesting",
    "phoenix_stake_rewards",
];

fn load() -> Vec<Vec<u8>> {
    let d = std::env::var("SIM_WASM").unwrap_or("/repo/target/wasm32-unknown-unknown/release".into());
    let mut v: Vec<Vec<u8>> = NAMES
        .iter()
        .map(|n| std::fs::read(format!("{d}/{n}.wasm")).unwrap_or_else(|e| die(&format!("{n}.wasm: {e}"))))
        .collect();
    let h = std::env::var("SIM_HELPER").unwrap_or("/verif/evil/sim_helper.wasm".into());
    v.push(std::fs::read(&h).unwrap_or_else(|e| die(&format!("{h}: {e}"))));
    // the same code as another module: what an upgrade installs
    for k in 0..9 {
        let mut w = v[k].clone();
        w.extend_from_slice(&[0, 8, 3, b's', b'i', b'm', 1, 2, 3, 4]);
        v.push(w);
    }
    v
}
fn die(m: &str) -> ! {
    eprintln!("error: {m}");
    std::process::exit(2)
}

#[derive(Clone)]
struct Trace {
    world: String,
    cfg: Vec<i128>,
    steps: Vec<Step>,
}
impl Trace {
    fn to_json(&self) -> Value {
        json!({"world": self.world, "cfg": self.cfg.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
               "steps": self.steps.iter().map(|s| s.to_json()).collect::<Vec<_>>()})
    }
    fn from_json(v: &Value) -> Option<Trace> {
        Some(Trace {
            world: v["world"].as_str()?.to_string(),
            cfg: v["cfg"].as_array()?.iter().map(|x| x.as_str()?.parse().ok()).collect::<Option<Vec<i128>>>()?,
            steps: v["steps"].as_array()?.iter().map(Step::from_json).collect::<Option<Vec<Step>>>()?,
        })
    }
}

struct RunOut {
    trace: Trace,
    viols: Vec<Viol>,
    cnt: BTreeMap<String, u64>,
    hits: BTreeMap<&'static str, u64>,
    hash: [u8; 32],
    shape: [u8; 32],
    states: BTreeSet<u64>,
    ctr: Ctr,
    secs: u64,
    ledgers: u64,
    panic: Option<String>,
}

struct Worker {
    wasms: Arc<Vec<Vec<u8>>>,
    base: Option<(Chain, Vec<[u8; 32]>)>,
    used: u32,
}
impl Worker {
    fn new(wasms: Arc<Vec<Vec<u8>>>) -> Worker {
        Worker { wasms, base: None, used: 0 }
    }
    fn lab(&mut self, focus: Option<&'static str>) -> Lab {
        if self.used >= 12 || self.base.is_none() {
            self.base = Some(Chain::genesis(&self.wasms));
            self.used = 0;
        }
        self.used += 1;
        let (c, h) = self.base.as_ref().unwrap();
        let mut c = c.fresh();
        if matches!(focus, None | Some("C24")) {
            c.listen();
        }
        Lab::new(c, h.clone(), focus)
    }

    /// one run: generated from the generator state, or the given steps
    fn run(&mut self, focus: Option<&'static str>, mut src: Source, verbose: bool) -> RunOut {
        let mut lab = self.lab(focus);
        lab.verbose = verbose;
        let (world, cfg) = match &mut src {
            Source::Seed(seed, ws) => {
                let mut r = Rng::new(*seed);
                let wn: Vec<u32> = ws.iter().map(|x| x.1).collect();
                let name = ws[r.weighted(&wn)].0;
                let cfg = worlds::gen_cfg(name, focus, &mut r);
                *seed = r.u();
                (name.to_string(), cfg)
            }
            Source::Steps(t) => (t.world.clone(), t.cfg.clone()),
        };
        let mut done: Vec<Step> = vec![];
        if verbose {
            println!("world {world} cfg {cfg:?}");
        }
        let res = catch_unwind(AssertUnwindSafe(|| {
            let Some(mut wd) = worlds::make(&world, &mut lab, &cfg) else { return };
            if lab.stop() {
                return;
            }
            let exec = |wd: &mut Box<dyn World>, lab: &mut Lab, s: Step, done: &mut Vec<Step>| {
                lab.step = done.len();
                lab.fault = s.f.clone();
                if lab.verbose {
                    println!("{} t={} {} {} {:?} {:?}", done.len(), lab.ch.ts - lab.ch.t0, s.op, s.who, s.n, s.f);
                }
                done.push(s.clone());
                if !common(wd.as_mut(), lab, &s) {
                    wd.apply(lab, &s);
                }
                lab.fault = Fault::None;
            };
            match src {
                Source::Seed(seed, _) => {
                    let mut r = Rng::new(seed);
                    let len = wd.len(&mut r);
                    // swarm: what this run does and how badly it is treated
                    let mut p_common = *r.pick(&[30u64, 150, wd.tick_rate(), wd.tick_rate()]);
                    if matches!(lab.focus, Some("C09" | "C10" | "C23")) {
                        p_common = p_common.max(250);
                    }
                    let p_delay = *r.pick(&[0u64, 0, 60, 250]);
                    let p_dup = *r.pick(&[0u64, 100, 300]);
                    let p_fault = *r.pick(&[0u64, 200, 1000, 1000]);
                    let mut pool: Vec<(Step, u32)> = vec![];
                    while done.len() < len && !lab.stop() {
                        if !pool.is_empty() && r.p(180) {
                            // a transaction built earlier is delivered now, in any order, perhaps again
                            let k = r.idx(pool.len());
                            let dup = r.p(p_dup);
                            let (s, n) = pool[k].clone();
                            lab.c(if n > 0 { "fault:duplicate_delivery" } else { "fault:delayed_delivery" });
                            if k + 1 < pool.len() && n == 0 {
                                lab.c("fault:reordered_delivery");
                            }
                            if dup {
                                pool[k].1 += 1;
                            } else {
                                pool.remove(k);
                            }
                            exec(&mut wd, &mut lab, s, &mut done);
                            continue;
                        }
                        let mut s = if r.p(p_common) { gen_common(wd.as_mut(), &mut lab, &mut r) } else { wd.gen(&mut lab, &mut r) };
                        if s.op != "tick" && s.op != "idle" && r.p(p_fault) {
                            s.f = gen_fault(&lab, &mut r);
                        }
                        if s.op != "tick" && s.op != "idle" && r.p(p_delay) && pool.len() < 5 {
                            pool.push((s, 0));
                            continue;
                        }
                        exec(&mut wd, &mut lab, s, &mut done);
                    }
                    if pool.len() > 0 {
                        lab.c("fault:lost_transactions");
                    }
                }
                Source::Steps(t) => {
                    for s in t.steps {
                        if lab.stop() {
                            break;
                        }
                        exec(&mut wd, &mut lab, s, &mut done);
                    }
                }
            }
            if !lab.stop() {
                lab.step = done.len();
                wd.finish(&mut lab);
            }
        }));
        let panic = res.err().map(|e| {
            e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
        });
        if panic.is_some() {
            // the host may have been left in any state
            self.base = None;
        }
        lab.trail.update(lab.ch.full_hash());
        for v in &lab.viols {
            lab.trail.update(v.class.as_bytes());
        }
        let ctr = lab.ch.ctr.borrow().clone();
        RunOut {
            trace: Trace { world, cfg, steps: done },
            viols: lab.viols,
            cnt: lab.cnt,
            hits: lab.hits,
            hash: lab.trail.finalize().into(),
            shape: lab.shape.finalize().into(),
            states: lab.states,
            ctr,
            secs: lab.ch.ts - lab.ch.t0,
            ledgers: (lab.ch.seq - 1000) as u64,
            panic,
        }
    }
}

enum Source {
    Seed(u64, Vec<(&'static str, u32)>),
    Steps(Trace),
}

fn prop_static(p: &str) -> &'static str {
    const P: [&str; 24] = [
        "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
        "C19", "C20", "C21", "C22", "C23", "C24",
    ];
    P.iter().find(|x| **x == p).copied().unwrap_or_else(|| die(&format!("unknown property {p}")))
}

fn run_seed(base: u64, idx: u64) -> u64 {
    let mut r = Rng::new(base.wrapping_mul(0x1000_0000_01B3) ^ idx.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    r.u()
}

#[derive(Default)]
struct Total {
    runs: u64,
    nontrivial: u64,
    shapes: HashSet<[u8; 32]>,
    states: HashSet<u64>,
    cnt: BTreeMap<String, u64>,
    hits: BTreeMap<&'static str, u64>,
    ctr: Ctr,
    secs: u64,
    ledgers: u64,
    steps: u64,
    samples: Vec<Value>,
    hashes: BTreeMap<u64, [u8; 32]>,
    mismatch: Vec<u64>,
    panics: Vec<(u64, String)>,
    found: BTreeMap<u64, (Trace, Viol)>,
    worlds: BTreeMap<String, u64>,
}
impl Total {
    fn add(&mut self, idx: u64, p: Option<&'static str>, o: RunOut) {
        self.runs += 1;
        *self.worlds.entry(o.trace.world.clone()).or_insert(0) += 1;
        let hit = match p {
            Some(p) => o.hits.get(p).copied().unwrap_or(0) > 0,
            None => true,
        };
        if self.shapes.insert(o.shape) && hit {
            self.nontrivial += 1;
        }
        for (k, v) in &o.cnt {
            *self.cnt.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.hits {
            *self.hits.entry(k).or_insert(0) += v;
        }
        if self.states.len() < 5_000_000 {
            self.states.extend(o.states.iter());
        }
        self.steps += o.trace.steps.len() as u64;
        self.secs += o.secs;
        self.ledgers += o.ledgers;
        let c = &mut self.ctr;
        c.tx += o.ctr.tx;
        c.tx_ok += o.ctr.tx_ok;
        c.tx_fail += o.ctr.tx_fail;
        c.queries += o.ctr.queries;
        c.qhits += o.ctr.qhits;
        c.restored += o.ctr.restored;
        c.slow += o.ctr.slow;
        if let Some(m) = &o.panic {
            self.panics.push((idx, m.clone()));
        }
        if idx < 24 {
            match self.hashes.get(&idx) {
                Some(h) if *h != o.hash => self.mismatch.push(idx),
                Some(_) => {}
                None => {
                    self.hashes.insert(idx, o.hash);
                }
            }
        }
        if self.samples.len() < 2 && hit && idx < 200 && o.viols.is_empty() {
            let mut t = o.trace.clone();
            t.steps.truncate(40);
            self.samples.push(json!({"run": idx, "first steps": t.to_json()}));
        }
        if let Some(v) = o.viols.iter().find(|v| p.map_or(true, |p| v.prop == p)) {
            self.found.insert(idx, (o.trace, v.clone()));
        }
    }
}

fn search(p: Option<&'static str>, ws: Vec<(&'static str, u32)>, wasms: Arc<Vec<Vec<u8>>>, base: u64, secs: f64, max: u64, stop_at_first: bool) -> Total {
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let tot = Mutex::new(Total::default());
    let t0 = Instant::now();
    let n = std::env::var("SIM_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize);
    std::thread::scope(|sc| {
        for _ in 0..n {
            sc.spawn(|| {
                let mut wk = Worker::new(wasms.clone());
                loop {
                    if stop.load(Ordering::Relaxed) || t0.elapsed().as_secs_f64() > secs {
                        break;
                    }
                    let k = next.fetch_add(1, Ordering::Relaxed);
                    // the first runs are done twice, on whichever threads, to prove determinism
                    let idx = if k < 48 { k / 2 } else { k - 24 };
                    if idx >= max {
                        break;
                    }
                    let o = wk.run(p, Source::Seed(run_seed(base, idx), ws.clone()), false);
                    let bad = o.viols.iter().any(|v| p.map_or(true, |p| v.prop == p));
                    tot.lock().unwrap().add(idx, p, o);
                    if bad && stop_at_first {
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            });
        }
    });
    tot.into_inner().unwrap()
}

fn fails_same(wk: &mut Worker, t: &Trace, v: &Viol) -> Option<(Trace, Viol)> {
    let o = wk.run(Some(v.prop), Source::Steps(t.clone()), false);
    let x = o.viols.iter().find(|x| x.prop == v.prop && x.class == v.class)?.clone();
    // what was executed is enough
    let mut t2 = t.clone();
    t2.steps.truncate(o.trace.steps.len());
    Some((t2, x))
}

/// drops steps, removes faults, shrinks numbers while the same violation stays
fn minimise(wk: &mut Worker, t: &Trace, v: &Viol, limit: Duration) -> (Trace, Viol) {
    let t0 = Instant::now();
    let (mut t, mut v) = match fails_same(wk, t, v) {
        Some(x) => x,
        None => return (t.clone(), v.clone()),
    };
    let mut changed = true;
    while changed && t0.elapsed() < limit {
        changed = false;
        let mut size = (t.steps.len() / 2).max(1);
        loop {
            let mut k = 0;
            while k < t.steps.len() && t0.elapsed() < limit {
                let mut c = t.clone();
                let e = (k + size).min(c.steps.len());
                c.steps.drain(k..e);
                if let Some(x) = fails_same(wk, &c, &v) {
                    t = x.0;
                    v = x.1;
                    changed = true;
                } else {
                    k += size;
                }
            }
            if size == 1 {
                break;
            }
            size = (size / 2).max(1);
        }
        for k in 0..t.steps.len() {
            if k >= t.steps.len() || t0.elapsed() > limit {
                break;
            }
            if t.steps[k].f != Fault::None {
                let mut c = t.clone();
                c.steps[k].f = Fault::None;
                if let Some(x) = fails_same(wk, &c, &v) {
                    t = x.0;
                    v = x.1;
                    changed = true;
                }
            }
            for a in 0..t.steps.get(k).map_or(0, |s| s.n.len()) {
                for _ in 0..60 {
                    if k >= t.steps.len() || t0.elapsed() > limit {
                        break;
                    }
                    let x = t.steps[k].n[a];
                    let mut ok = false;
                    for y in [0, 1, x / 1000, x / 10, x / 2, x - x.signum()] {
                        if y == x || y.abs() > x.abs() {
                            continue;
                        }
                        let mut c = t.clone();
                        c.steps[k].n[a] = y;
                        if let Some(r) = fails_same(wk, &c, &v) {
                            t = r.0;
                            v = r.1;
                            ok = true;
                            break;
                        }
                    }
                    if !ok {
                        break;
                    }
                    changed = true;
                    if k < t.steps.len() && t.steps[k].n[a].abs() > 1000 {
                        continue;
                    }
                }
            }
        }
    }
    (t, v)
}

/// findings that are known and not repaired: {property, class}
fn known() -> Vec<Value> {
    let f = std::env::var("SIM_KNOWN").unwrap_or("/verif/known-findings.json".into());
    match std::fs::read_to_string(&f) {
        Ok(s) => serde_json::from_str::<Value>(&s).ok().and_then(|v| v["findings"].as_array().cloned()).unwrap_or_default(),
        Err(_) => vec![],
    }
}

fn main() {
    unsafe {
        mallopt(-3, 131072);
    }
    let a: Vec<String> = std::env::args().collect();
    let verbose_panics = std::env::var("SIM_PANIC").is_ok();
    if !verbose_panics {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match a.get(1).map(|x| x.as_str()) {
        Some("check") => check(&a[2], &a[3], &a[4]),
        Some("replay") => {
            let f = &a[2];
            let v: Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap_or_else(|e| die(&format!("{f}: {e}"))))
                .unwrap_or_else(|e| die(&format!("{f}: {e}")));
            let t = Trace::from_json(&v["trace"]).unwrap_or_else(|| die("not a replay file"));
            let p = prop_static(v["property"].as_str().unwrap_or(""));
            let class = v["class"].as_str().unwrap_or("");
            let mut wk = Worker::new(Arc::new(load()));
            let o = wk.run(Some(p), Source::Steps(t), true);
            match o.viols.iter().find(|x| x.prop == p && x.class == class) {
                Some(x) => {
                    println!("reproduced at step {}: {}", x.step, x.msg);
                    println!("trail {}", hex(&o.hash));
                    if v["trail"].as_str().map_or(false, |h| h != hex(&o.hash)) {
                        println!("(the recorded trail differs: the code is not the one the file was made with)");
                    }
                    println!("VIOLATION property={p} replay={f}");
                    std::process::exit(1);
                }
                None => {
                    println!("not reproduced: {:?}", o.viols.iter().map(|x| &x.class).collect::<Vec<_>>());
                }
            }
        }
        Some("run") => {
            let mut wk = Worker::new(Arc::new(load()));
            let p = a.get(4).map(|x| prop_static(x));
            let seed: u64 = a[3].parse().unwrap();
            let name: &'static str = Box::leak(a[2].clone().into_boxed_str());
            let ws = if name == "-" { worlds::worlds_of(p.unwrap()) } else { vec![(name, 1)] };
            let o = wk.run(p, Source::Seed(run_seed(a.get(5).and_then(|x| x.parse().ok()).unwrap_or(1), seed), ws), true);
            println!("{:?} panic {:?}", o.viols, o.panic);
        }
        Some("bench") => {
            let p = if a[2] == "-" { None } else { Some(prop_static(&a[2])) };
            let secs: f64 = a[3].parse().unwrap();
            let ws: Vec<(&'static str, u32)> = match a.get(4) {
                Some(n) if n != "-" => vec![(Box::leak(n.clone().into_boxed_str()), 1)],
                _ => worlds::worlds_of(p.unwrap()),
            };
            let base: u64 = a.get(5).and_then(|x| x.parse().ok()).unwrap_or(1);
            let t = search(p, ws, Arc::new(load()), base, secs, u64::MAX, false);
            println!("runs {} steps {} tx {} ok {} fail {} queries {} cached {} slow {} restored {} states {} nontrivial {}", t.runs, t.steps, t.ctr.tx, t.ctr.tx_ok, t.ctr.tx_fail, t.ctr.queries, t.ctr.qhits, t.ctr.slow, t.ctr.restored, t.states.len(), t.nontrivial);
            for (k, v) in &t.cnt {
                println!("  {k} {v}");
            }
            println!("{:?} mismatch {:?} panics {:?}", t.hits, t.mismatch, t.panics.iter().take(5).collect::<Vec<_>>());
            let mut by: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
            for (i, (_, v)) in &t.found {
                let e = by.entry(format!("{} {}", v.prop, v.class)).or_insert((0, *i, v.msg.clone()));
                e.0 += 1;
            }
            for (k, v) in by {
                println!("FOUND {k}: {} runs, first {} : {}", v.0, v.1, v.2);
            }
        }
        // scan <secs> <property>...: a short search per property, up to the first violation of any
        Some("scan") => {
            let secs: f64 = a[2].parse().unwrap();
            let wasms = Arc::new(load());
            for p in &a[3..] {
                let p = prop_static(p);
                let t = search(Some(p), worlds::worlds_of(p), wasms.clone(), 1, secs, u64::MAX, true);
                if let Some((_, (_, v))) = t.found.iter().next() {
                    println!("FOUND {} {}: {}", v.prop, v.class, v.msg);
                    std::process::exit(1);
                }
                if !t.mismatch.is_empty() || !t.panics.is_empty() {
                    println!("TROUBLE {p} mismatch {:?} panics {:?}", t.mismatch, t.panics.iter().take(2).collect::<Vec<_>>());
                    std::process::exit(2);
                }
            }
        }
        _ => die("usage: phoenix-sim check|replay|run|bench|scan"),
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn check(p: &str, tier: &str, ev: &str) {
    let t0 = Instant::now();
    let p = prop_static(p);
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let secs: f64 = std::env::var("SIM_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { 420.0 } else { 45.0 });
    println!("property {p} tier {tier} seed {base}");
    let wasms = Arc::new(load());
    let mut tot = search(p.into(), worlds::worlds_of(p), wasms.clone(), base, secs, u64::MAX, true);
    let searched = t0.elapsed().as_secs_f64();
    let mut wk = Worker::new(wasms);
    let kn: Vec<Value> = known().into_iter().filter(|k| k["property"] == p).collect();
    // every known finding is one recorded history: it is replayed, and nothing else is excused
    let mut known_lines = vec![];
    for k in &kn {
        if let Some(t) = Trace::from_json(&k["trace"]) {
            let o = wk.run(None, Source::Steps(t), false);
            let hit = o.viols.iter().find(|v| Some(v.class.as_str()) == k["class"].as_str());
            if hit.is_some() {
                known_lines.push(format!("KNOWN-FINDING: property={p} {}", k["what"].as_str().unwrap_or("")));
            }
        }
    }
    for l in &known_lines {
        println!("{l}");
    }
    let mut code = 0;
    let mut viol = 0;
    if let Some((idx, (t, v))) = tot.found.iter().next() {
        let (idx, t, v) = (*idx, t.clone(), v.clone());
        viol = 1;
        println!("run {idx}: step {}: [{}] {}", v.step, v.class, v.msg);
        let (mt, mv) = minimise(&mut wk, &t, &v, Duration::from_secs(45));
        let dir = std::env::var("SIM_REPLAYS").unwrap_or("/verif/replays".into());
        let _ = std::fs::create_dir_all(&dir);
        let file = format!("{dir}/{p}-{base}-{idx}.json");
        let o = wk.run(Some(p), Source::Steps(mt.clone()), false);
        let j = json!({"property": p, "class": mv.class, "message": mv.msg, "step": mv.step, "seed": base, "run": idx,
            "original steps": t.steps.len(), "trail": hex(&o.hash), "trace": mt.to_json()});
        std::fs::write(&file, serde_json::to_string_pretty(&j).unwrap()).unwrap_or_else(|e| die(&format!("{file}: {e}")));
        println!("minimised from {} to {} steps: {}", t.steps.len(), mt.steps.len(), mv.msg);
        for s in &mt.steps {
            println!("  {}", s.to_json());
        }
        println!("VIOLATION property={p} replay={file}");
        code = 1;
    } else if !tot.mismatch.is_empty() {
        eprintln!("error: runs {:?} were not repeatable", tot.mismatch);
        code = 2;
    } else if !tot.panics.is_empty() {
        eprintln!("error: the harness failed in runs {:?}", tot.panics.iter().take(3).collect::<Vec<_>>());
        code = 2;
    }
    let per_h = |n: u64| (n as f64 / searched * 3600.0) as u64;
    let pick = |pre: &str| -> BTreeMap<String, u64> {
        tot.cnt.iter().filter(|x| x.0.starts_with(pre)).map(|x| (x.0[pre.len()..].to_string(), *x.1)).collect()
    };
    let evj = json!({
        "property": p, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": tot.runs,
            "distinct_nontrivial": tot.nontrivial,
            "rule": "one evaluation is one simulated run: a world, its configuration, its operations with arguments, their delivery order, clock moves and faults all drawn from one seed (VERIF_SEED and the run's number). A run counts as distinct and non-trivial when its sequence of executed calls with their outcomes was not seen before in this batch and the oracle of this property was evaluated in it at least once.",
            "samples": std::mem::take(&mut tot.samples),
            "oracle_evaluations": tot.hits.get(p).copied().unwrap_or(0),
            "runs_per_hour": per_h(tot.runs), "seeds_per_hour": per_h(tot.runs),
            "simulated_seconds": tot.secs, "simulated_ledgers": tot.ledgers,
            "operations": tot.steps, "transactions": tot.ctr.tx, "transactions_ok": tot.ctr.tx_ok, "transactions_rejected": tot.ctr.tx_fail,
            "queries_executed": tot.ctr.queries, "queries_answered_from_unchanged_entries": tot.ctr.qhits,
            "faults_injected": pick("fault:"), "probes_hit": pick("probe:"),
            "accepted_calls": pick("ok:"), "rejected_calls": pick("rejected:"),
            "distinct_interleavings": {"measure": "distinct sequences of (call, outcome) over whole runs", "count": tot.shapes.len()},
            "distinct_states": {"measure": "distinct abstract states (world-specific digest after each operation)", "count": tot.states.len()},
            "worlds": tot.worlds, "determinism": {"runs_repeated_on_other_threads": tot.hashes.len(), "mismatches": tot.mismatch.len()},
            "components": {"real code": NAMES.iter().map(|n| format!("{n}.wasm built from /repo")).collect::<Vec<_>>(),
                "real host": "soroban-env-host 22.0.0-rc.3 (the network's contract host: storage, authorisation, budget)",
                "stub": ["ledger, clock, transaction delivery and expiry of entries (simulator)", "sim_helper.wasm: a token that charges a fee, refuses or calls back; the caller that stands where the staking contract stands in front of the stand-alone rewards contract", "signatures (host in recording-authorisation mode, the simulator decides who signed)"]},
            "known_findings_seen": known_lines
        },
        "assumptions": ["transactions of one ledger execute one after another, as on the network", "the host executes wasm as the network does"],
        "wall_s": t0.elapsed().as_secs_f64(), "violations": viol
    });
    if let Err(e) = std::fs::write(ev, serde_json::to_string_pretty(&evj).unwrap()) {
        die(&format!("{ev}: {e}"));
    }
    println!("{} runs, {} operations, {} transactions, {} oracle evaluations in {:.1} s", tot.runs, tot.steps, tot.ctr.tx, tot.hits.get(p).copied().unwrap_or(0), searched);
    std::process::exit(code);
}
