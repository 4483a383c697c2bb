//! Steps, faults, traces, the laboratory a world works in, and the operations every world shares.
use crate::chain::*;
use crate::rng::Rng;
use crate::val::*;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use soroban_env_host::xdr::*;
use std::collections::{BTreeMap, BTreeSet};

pub const ADMIN: u8 = 1;
pub const MANAGER: u8 = 6;
/// a stranger who signs for nobody but itself
pub const ATT: u8 = 7;
pub const FEE: u8 = 8;
pub const OWNER: u8 = 9;
pub const USERS: [u8; 4] = [2, 3, 4, 5];

pub fn acct(n: u8) -> Addr {
    Addr::account(n)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// the transaction runs out of resources after that many thousandths of its instructions
    Abort(i128),
    /// a stranger submits it in the sender's name
    Forge,
    /// a call made by a callee fails, at that many thousandths of the way
    Inject(i128),
    /// submitted without restoring expired entries first
    NoRestore,
}
impl Fault {
    pub fn code(&self) -> (i128, i128) {
        match self {
            Fault::None => (0, 0),
            Fault::Abort(p) => (1, *p),
            Fault::Forge => (2, 0),
            Fault::Inject(p) => (3, *p),
            Fault::NoRestore => (4, 0),
        }
    }
    pub fn from(a: i128, b: i128) -> Fault {
        match a {
            1 => Fault::Abort(b),
            2 => Fault::Forge,
            3 => Fault::Inject(b),
            4 => Fault::NoRestore,
            _ => Fault::None,
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Fault::None => "none",
            Fault::Abort(_) => "abort",
            Fault::Forge => "forge",
            Fault::Inject(_) => "callee_failure",
            Fault::NoRestore => "no_restore",
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub op: String,
    pub who: u8,
    pub n: Vec<i128>,
    pub f: Fault,
}
impl Step {
    pub fn new(op: &str, who: u8, n: Vec<i128>) -> Step {
        Step { op: op.to_string(), who, n, f: Fault::None }
    }
    pub fn to_json(&self) -> Value {
        let (a, b) = self.f.code();
        json!({"op": self.op, "who": self.who, "n": self.n.iter().map(|x| x.to_string()).collect::<Vec<_>>(),
               "fault": if a == 0 { Value::Null } else { json!([self.f.name(), a as i64, b as i64]) }})
    }
    pub fn from_json(v: &Value) -> Option<Step> {
        let n = v["n"].as_array()?.iter().map(|x| x.as_str()?.parse().ok()).collect::<Option<Vec<i128>>>()?;
        let f = match v["fault"].as_array() {
            Some(a) => Fault::from(a.get(1)?.as_i64()? as i128, a.get(2)?.as_i64()? as i128),
            None => Fault::None,
        };
        Some(Step { op: v["op"].as_str()?.to_string(), who: v["who"].as_u64()? as u8, n, f })
    }
    pub fn arg(&self, k: usize) -> i128 {
        self.n.get(k).copied().unwrap_or(0)
    }
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: &'static str,
    pub class: String,
    pub msg: String,
    pub step: usize,
}

pub struct Target {
    pub name: &'static str,
    pub c: Addr,
    /// arguments of a hostile re-initialisation
    pub inits: Vec<(&'static str, Vec<ScVal>)>,
    /// upgrade entry point: function, arguments, who may call it
    pub upg: Option<(&'static str, Vec<ScVal>, Addr)>,
}

pub type Probe = (Addr, &'static str, Vec<ScVal>);

/// a call somebody may make at any time
pub struct Work {
    pub who: Addr,
    pub c: Addr,
    pub f: &'static str,
    pub args: Vec<ScVal>,
    /// balances to look at afterwards: token, holder
    pub see: Vec<(Addr, Addr)>,
    /// time may add to what it does, but not take away the right to do it
    pub grows: bool,
}
impl Work {
    pub fn new(who: &Addr, c: &Addr, f: &'static str, args: Vec<ScVal>) -> Work {
        Work { who: who.clone(), c: c.clone(), f, args, see: vec![], grows: false }
    }
    pub fn see(mut self, t: &Addr, h: &Addr) -> Work {
        self.see.push((t.clone(), h.clone()));
        self
    }
    pub fn grows(mut self) -> Work {
        self.grows = true;
        self
    }
}

pub trait World {
    fn gen(&mut self, l: &mut Lab, r: &mut Rng) -> Step;
    fn apply(&mut self, l: &mut Lab, s: &Step);
    /// after the last step, with all faults off: bounded liveness and final accounts
    fn finish(&mut self, l: &mut Lab);
    /// queries whose answers neither time nor an upgrade may change
    fn probes(&mut self, l: &mut Lab) -> Vec<Probe>;
    fn targets(&self, l: &mut Lab) -> Vec<Target>;
    /// calls a stranger must never get through: (property, contract, function, arguments)
    fn hostiles(&mut self, l: &mut Lab, who: &Addr, v: i128) -> Vec<(Addr, &'static str, Vec<ScVal>)>;
    /// calls whose outcome neither time nor an upgrade may change; tried on copies of the ledger
    fn works(&mut self, _l: &mut Lab) -> Vec<Work> {
        vec![]
    }
    /// (ledgers, seconds) between two operations
    fn tick(&self, r: &mut Rng) -> (i128, i128);
    fn len(&self, r: &mut Rng) -> usize;
    /// how often this world shares its steps with clock moves, per mille
    fn tick_rate(&self) -> u64 {
        350
    }
}

pub struct Env {
    pub wasms: Vec<Vec<u8>>,
}
/// index into the list of uploaded wasms
pub mod w {
    pub const TOKEN: usize = 0;
    pub const STAKE: usize = 1;
    pub const POOL: usize = 2;
    pub const STABLE: usize = 3;
    pub const FACTORY: usize = 4;
    pub const MULTIHOP: usize = 5;
    pub const TRADER: usize = 6;
    pub const VESTING: usize = 7;
    pub const REWARDS: usize = 8;
    pub const HELPER: usize = 9;
    /// the same code under another hash starts here
    pub const ALT: usize = 10;
}

pub struct Lab {
    pub ch: Chain,
    pub hash: Vec<[u8; 32]>,
    pub focus: Option<&'static str>,
    pub viols: Vec<Viol>,
    pub step: usize,
    pub fault: Fault,
    pub cnt: BTreeMap<String, u64>,
    pub hits: BTreeMap<&'static str, u64>,
    pub trail: Sha256,
    pub shape: Sha256,
    pub states: BTreeSet<u64>,
    pub verbose: bool,
    /// which variant of each target's code runs now
    pub alt: BTreeMap<&'static str, bool>,
    /// what the events told so far (C24)
    pub ear: crate::events::Ear,
}

impl Lab {
    pub fn new(ch: Chain, hash: Vec<[u8; 32]>, focus: Option<&'static str>) -> Lab {
        Lab {
            ch,
            hash,
            focus,
            viols: vec![],
            step: 0,
            fault: Fault::None,
            cnt: BTreeMap::new(),
            hits: BTreeMap::new(),
            trail: Sha256::new(),
            shape: Sha256::new(),
            states: BTreeSet::new(),
            verbose: false,
            alt: BTreeMap::new(),
            ear: Default::default(),
        }
    }
    pub fn c(&mut self, k: &str) {
        *self.cnt.entry(k.to_string()).or_insert(0) += 1;
    }
    /// an oracle of that property was evaluated on something it could have failed on
    pub fn hit(&mut self, p: &'static str) {
        *self.hits.entry(p).or_insert(0) += 1;
    }
    pub fn viol(&mut self, prop: &'static str, class: &str, msg: String) {
        if self.verbose {
            println!("  !! {prop} {class}: {msg}");
        }
        self.viols.push(Viol { prop, class: class.to_string(), msg, step: self.step });
    }
    pub fn want(&mut self, prop: &'static str, class: &str, ok: bool, msg: impl FnOnce() -> String) -> bool {
        self.hit(prop);
        if !ok {
            let m = msg();
            self.viol(prop, class, m);
        }
        ok
    }
    pub fn stop(&self) -> bool {
        match self.focus {
            Some(p) => self.viols.iter().any(|v| v.prop == p),
            None => !self.viols.is_empty(),
        }
    }
    pub fn state(&mut self, x: &[i128]) {
        let mut h = Sha256::new();
        for v in x {
            h.update(v.to_be_bytes());
        }
        let d = h.finalize();
        self.states.insert(u64::from_be_bytes(d[..8].try_into().unwrap()));
    }

    /// time-dependent read
    pub fn qt(&mut self, c: &Addr, f: &str, args: Vec<ScVal>) -> Result<ScVal, String> {
        self.ch.query(c, f, args, false)
    }
    /// read whose answer depends on the ledger's entries only
    pub fn q(&mut self, c: &Addr, f: &str, args: Vec<ScVal>) -> Result<ScVal, String> {
        self.ch.query(c, f, args, true)
    }
    pub fn bal(&mut self, tok: &Addr, who: &Addr) -> i128 {
        match self.q(tok, "balance", vec![who.val()]) {
            Ok(v) => ri(&v).unwrap_or(i128::MIN),
            Err(e) => {
                self.viol("C21", "balance-query", format!("balance query failed: {e}"));
                0
            }
        }
    }

    fn log(&mut self, f: &str, o: &Outcome) {
        let tag = match &o.res {
            Ok(v) => format!("{f} ok {v:?}"),
            Err(e) => format!("{f} err {e}"),
        };
        self.trail.update(tag.as_bytes());
        let st = match &o.res {
            Ok(_) => "ok".to_string(),
            Err(e) => e.clone(),
        };
        self.shape.update(format!("{f}:{st};").as_bytes());
        *self.cnt.entry(format!("{}:{}", if o.ok() { "ok" } else { "rejected" }, f)).or_insert(0) += 1;
        if self.verbose {
            println!("    {f} -> {}", tag.chars().take(300).collect::<String>());
        }
    }

    /// One operation by `src`, which signs for itself; `need`: everybody whose authorisation it must consume.
    pub fn act(&mut self, src: &Addr, c: &Addr, f: &str, args: Vec<ScVal>, need: &[Addr]) -> Outcome {
        let fault = std::mem::replace(&mut self.fault, Fault::None);
        let call_args = if self.ch.listen { args.clone() } else { vec![] };
        let hf = Chain::call_fn(c, f, args);
        let opts = Opts { signers: &[], cpu_limit: None, commit: true, restore: true };
        let mut expect: Option<Result<ScVal, String>> = None;
        match &fault {
            Fault::None => {}
            Fault::Abort(p) => {
                let mut k = self.ch.fork();
                let dry = k.submit(src, hf.clone(), &Opts { signers: &[], cpu_limit: None, commit: false, restore: true });
                if dry.ok() {
                    let lim = (dry.cpu as i128 * (*p).clamp(1, 960) / 1000) as u64;
                    let h0 = self.ch.full_hash();
                    let o = self.ch.submit(src, hf.clone(), &Opts { signers: &[], cpu_limit: Some(lim), commit: true, restore: false });
                    self.c("fault:abort");
                    self.hit("C22");
                    if o.ok() {
                        self.viol("C22", "abort-survived", format!("{f} cut off after {lim} of {} instructions succeeded", dry.cpu));
                    } else if self.ch.full_hash() != h0 {
                        self.viol("C22", "abort-trace", format!("{f} cut off after {lim} instructions left a trace"));
                    }
                    expect = Some(dry.res.clone());
                }
            }
            Fault::Forge => {
                // a stranger, and with C09 in view everybody else
                let who: Vec<u8> = if self.focus == Some("C09") { (ADMIN..=OWNER).collect() } else { vec![ATT] };
                for n in who {
                    let x = acct(n);
                    if need.is_empty() || need.contains(&x) {
                        continue;
                    }
                    let mut k = self.ch.fork();
                    let o = k.submit(&x, hf.clone(), &opts);
                    self.c("fault:forge");
                    self.hit("C09");
                    if o.ok() {
                        self.viol("C09", &format!("forged-{f}"), format!("{} got {f} through in another's name", name_of(&x)));
                    }
                }
            }
            Fault::Inject(p) => {
                if self.ch.n_archived() == 0 {
                    if let Some((r0, n)) = self.ch.injected(src, &hf, None) {
                        if r0.is_ok() && n > 0 {
                            let k = 1 + (n as i128 - 1) * (*p).clamp(0, 1000) / 1000;
                            if let Some((r, _)) = self.ch.injected(src, &hf, Some(k as u64)) {
                                self.c("fault:callee_failure");
                                self.hit("C22");
                                if r.is_ok() {
                                    self.viol(
                                        "C22",
                                        &format!("swallowed-{f}"),
                                        format!("{f} succeeded although host call {k} of {n} inside the contracts it calls failed"),
                                    );
                                }
                            }
                        }
                        expect = Some(r0);
                    }
                }
            }
            Fault::NoRestore => {
                let mut k = self.ch.fork();
                let o = k.submit(src, hf.clone(), &Opts { signers: &[], cpu_limit: None, commit: true, restore: false });
                if o.archived {
                    self.c("fault:no_restore");
                    self.hit("C23");
                    if o.ok() {
                        self.viol("C23", "expired-ignored", format!("{f} succeeded although an entry it reads had expired"));
                    }
                }
            }
        }
        let mut pre = if self.ch.listen { Some((self.ch.fork(), call_args)) } else { None };
        let o = self.ch.submit(src, hf.clone(), &opts);
        self.log(f, &o);
        if let Some((pre, args)) = &mut pre {
            if o.ok() {
                let args = std::mem::take(args);
                self.judge_events(pre, src, c, f, &args, &o);
            }
            self.index_events();
        }
        if o.archived {
            self.c("fault:expired_entry");
        }
        if let Some(e) = expect {
            self.hit("C22");
            let same = match (&e, &o.res) {
                (Ok(a), Ok(b)) => a == b,
                (Err(_), Err(_)) => true,
                _ => false,
            };
            if !same {
                self.viol("C22", &format!("retry-{f}"), format!("{f} would have given {e:?}, after the failed attempt it gave {:?}", o.res));
            }
        }
        if o.ok() {
            let got = o.auth_addrs();
            for a in need {
                self.hit("C09");
                if !got.contains(a) {
                    self.viol("C09", &format!("no-auth-{f}"), format!("{f} succeeded without the authorisation of {}", name_of(a)));
                }
            }
            for a in &got {
                if a != src && !a.is_contract() {
                    self.viol("C09", &format!("odd-auth-{f}"), format!("{f} consumed the authorisation of {}", name_of(a)));
                }
            }
        }
        o
    }

    /// set-up transaction: must work, otherwise the system cannot even be started
    pub fn must(&mut self, prop: &'static str, src: &Addr, c: &Addr, f: &str, args: Vec<ScVal>) -> Option<ScVal> {
        let o = self.ch.submit(src, Chain::call_fn(c, f, args), &Opts { signers: &[], cpu_limit: None, commit: true, restore: true });
        self.log(f, &o);
        match o.res {
            Ok(v) => Some(v),
            Err(e) => {
                self.viol(prop, &format!("setup-{f}"), format!("{f} failed in a fresh system: {e}"));
                None
            }
        }
    }
    pub fn other(&self, t: &'static str, idx: usize) -> [u8; 32] {
        let on = self.alt.get(t).copied().unwrap_or(false);
        if on { self.hash[idx] } else { self.hash[w::ALT + idx] }
    }
}

pub fn name_of(a: &Addr) -> String {
    for n in 0..=250u8 {
        if *a == acct(n) {
            return match n {
                ADMIN => "the admin".into(),
                MANAGER => "the manager".into(),
                ATT => "the stranger".into(),
                FEE => "the fee recipient".into(),
                OWNER => "the owner".into(),
                n => format!("user {n}"),
            };
        }
    }
    match &a.0 {
        ScAddress::Contract(h) => format!("contract {:02x}{:02x}..", h.0[0], h.0[1]),
        _ => "someone".into(),
    }
}

fn run_probes(w: &mut dyn World, l: &mut Lab) -> Vec<(Probe, Result<ScVal, String>)> {
    let ps = w.probes(l);
    ps.into_iter()
        .map(|p| {
            let r = l.qt(&p.0, p.1, p.2.clone());
            (p, r)
        })
        .collect()
}
fn compare_probes(l: &mut Lab, prop: &'static str, class: &str, before: Vec<(Probe, Result<ScVal, String>)>, what: &str) {
    for (p, r) in before {
        let now = l.qt(&p.0, p.1, p.2.clone());
        l.hit(prop);
        let over = |x: &Result<ScVal, String>| matches!(x, Err(e) if e.starts_with("Budget"));
        if over(&now) || over(&r) {
            continue;
        }
        if now != r {
            let s = |x: &Result<ScVal, String>| format!("{x:?}").chars().take(200).collect::<String>();
            l.viol(prop, &format!("{class}-{}", p.1), format!("{} {what}: was {}, is {}", p.1, s(&r), s(&now)));
            return;
        }
    }
}

type Done = (Result<ScVal, ()>, Vec<Result<ScVal, String>>);
/// None: the network's limits were in the way
fn try_work(l: &mut Lab, x: &Work) -> Option<Done> {
    let mut k = l.ch.fork();
    k.restore_all();
    let o = k.tx(&x.who, &x.c, x.f, x.args.clone());
    if o.resource() {
        return None;
    }
    let b = x.see.iter().map(|(t, h)| k.query(t, "balance", vec![h.val()], true)).collect();
    Some((o.res.map_err(|_| ()), b))
}
fn run_works(w: &mut dyn World, l: &mut Lab) -> Vec<(Work, Option<Done>)> {
    if l.focus != Some("C23") {
        return vec![];
    }
    let ws = w.works(l);
    ws.into_iter().map(|x| { let d = try_work(l, &x); (x, d) }).collect()
}
fn compare_works(l: &mut Lab, prop: &'static str, class: &str, before: Vec<(Work, Option<Done>)>, what: &str) {
    for (x, d) in before {
        let Some(d) = d else { continue };
        if x.grows && d.0.is_err() {
            continue;
        }
        let Some(now) = try_work(l, &x) else { continue };
        l.c("probe:work_repeated");
        let same = if x.grows { now.0.is_ok() } else { now == d };
        l.want(prop, &format!("{class}-works-{}", x.f), same, || {
            let s = |x: &Done| format!("{x:?}").chars().take(300).collect::<String>();
            format!("{} by {} {what}: did {}, does {}", x.f, name_of(&x.who), s(&d), s(&now))
        });
        if l.stop() {
            return;
        }
    }
}

/// Operations every world has.  Returns false when the step is the world's own.
pub fn common(wd: &mut dyn World, l: &mut Lab, s: &Step) -> bool {
    match s.op.as_str() {
        "tick" => {
            let (a, b) = (s.arg(0).clamp(0, 3_000_000), s.arg(1).clamp(0, 20_000_000));
            l.ch.advance(a as u32, b as u64);
        }
        "idle" => {
            // long inactivity: entries expire, temporary ones for good
            let before = run_probes(wd, l);
            let works = run_works(wd, l);
            let (a, b) = (s.arg(0).clamp(0, 20_000_000), s.arg(1).clamp(0, 200_000_000));
            l.ch.advance(a as u32, b as u64);
            l.c("fault:idle");
            let n = l.ch.n_archived();
            if n > 0 {
                l.c("probe:entries_expired");
            }
            if s.arg(2) != 0 {
                // somebody restores everything that expired
                l.ch.restore_all();
            }
            compare_probes(l, "C23", "idle", before, "changed while nobody did anything");
            if !l.stop() {
                compare_works(l, "C23", "idle", works, "changed while nobody did anything");
            }
        }
        "reinit" => {
            let ts = wd.targets(l);
            if ts.is_empty() {
                return true;
            }
            let who = acct(s.who);
            // one contract, or (-1) all of them one after another
            let all = s.arg(0) < 0;
            let mut todo = vec![];
            for (k, t) in ts.iter().enumerate() {
                if !all && k != s.arg(0).unsigned_abs() as usize % ts.len() {
                    continue;
                }
                for (j, (f, args)) in t.inits.iter().enumerate() {
                    if all || j == s.arg(1).unsigned_abs() as usize % t.inits.len() {
                        todo.push((t.name, t.c.clone(), *f, args.clone()));
                    }
                }
            }
            for (name, c, f, args) in todo {
                let before = l.ch.state_hash();
                let o = l.ch.submit(&who, Chain::call_fn(&c, f, args), &Opts { signers: &[], cpu_limit: None, commit: true, restore: true });
                l.log(f, &o);
                l.c("fault:hostile_init");
                l.hit("C10");
                if o.ok() {
                    l.viol("C10", &format!("reinit-{name}"), format!("{f} of the running {name} contract was accepted a second time"));
                    return true;
                } else if l.ch.state_hash() != before {
                    l.viol("C10", "reinit-trace", format!("a refused {f} left a trace"));
                    return true;
                }
            }
        }
        "upgrade" => {
            let ts: Vec<Target> = wd.targets(l).into_iter().filter(|t| t.upg.is_some()).collect();
            if ts.is_empty() {
                return true;
            }
            let t = &ts[s.arg(0).unsigned_abs() as usize % ts.len()];
            let (f, args, admin) = t.upg.clone().unwrap();
            let who = acct(s.who);
            let before = run_probes(wd, l);
            let may = who == admin;
            let works = if may { run_works(wd, l) } else { vec![] };
            let h0 = l.ch.state_hash();
            let need = if may { vec![admin.clone()] } else { vec![] };
            let new = args[0].clone();
            let o = l.act(&who, &t.c, f, args, &need);
            if may {
                l.c("fault:upgrade");
                l.hit("C23");
                if !o.ok() {
                    l.viol("C23", &format!("upgrade-{}", t.name), format!("the admin cannot upgrade {}: {:?}", t.name, o.res));
                    return true;
                }
                let code = l.code_of(&t.c);
                l.want("C23", &format!("upgrade-code-{}", t.name), code.map(|h| bytes(&h)) == Some(new.clone()), || {
                    format!("after its upgrade to {new:?} the {} contract runs {code:?}", t.name)
                });
                let e = l.alt.entry(t.name).or_insert(false);
                *e = !*e;
                compare_probes(l, "C23", "upgrade", before, &format!("changed with an upgrade of {}", t.name));
                if !l.stop() {
                    compare_works(l, "C23", "upgrade", works, &format!("changed with an upgrade of {}", t.name));
                }
            } else {
                l.c("fault:hostile_upgrade");
                l.hit("C09");
                if o.ok() {
                    l.viol("C09", &format!("upgrade-{}", t.name), format!("{} upgraded {} which only {} may", name_of(&who), t.name, name_of(&admin)));
                } else if l.ch.state_hash() != h0 {
                    l.viol("C09", "upgrade-trace", "a refused upgrade left a trace".into());
                }
            }
        }
        "hostile" => {
            let who = acct(s.who);
            let hs = wd.hostiles(l, &who, s.arg(1));
            if hs.is_empty() {
                return true;
            }
            // one of the calls, or (-1) all of them
            let n = hs.len();
            let one = s.arg(0).unsigned_abs() as usize % n;
            for (k, (c, f, args)) in hs.into_iter().enumerate() {
                if s.arg(0) >= 0 && k != one {
                    continue;
                }
                let h0 = l.ch.state_hash();
                let mut fk = l.ch.fork();
                let o = fk.submit(&who, Chain::call_fn(&c, f, args), &Opts { signers: &[], cpu_limit: None, commit: true, restore: true });
                l.log(f, &o);
                l.c("fault:hostile_call");
                l.hit("C09");
                if o.ok() {
                    l.viol("C09", &format!("hostile-{f}"), format!("{} got {f} through, which is not theirs to call", name_of(&who)));
                    return true;
                } else if fk.state_hash() != h0 {
                    l.viol("C09", "hostile-trace", format!("a refused {f} left a trace"));
                    return true;
                }
            }
        }
        _ => return false,
    }
    true
}

pub fn gen_common(wd: &mut dyn World, l: &mut Lab, r: &mut Rng) -> Step {
    let heavy = matches!(l.focus, Some("C23"));
    let n09 = if matches!(l.focus, Some("C09")) { 40 } else { 6 };
    let n10 = if matches!(l.focus, Some("C10")) { 60 } else { 3 };
    let long = if heavy { 40 } else if matches!(l.focus, Some("C10")) { 20 } else { 6 };
    let k = r.weighted(&[60, long, n10, if heavy { 30 } else { 6 }, n09]);
    match k {
        0 => {
            let (a, b) = wd.tick(r);
            Step::new("tick", 0, vec![a, b])
        }
        1 => {
            let ledgers = match r.weighted(&[3, 4, 2]) {
                0 => r.range(17, 5000),
                1 => r.range(100_000, 700_000),
                _ => r.range(700_000, 9_000_000),
            };
            let secs = if r.p(700) { ledgers * 5 } else { r.range(0, ledgers * 5) };
            Step::new("idle", 0, vec![ledgers, secs, if r.p(850) { 1 } else { 0 }])
        }
        2 => Step::new("reinit", *r.pick(&[ADMIN, ATT, ATT, 2]), vec![if l.focus == Some("C10") && r.p(600) { -1 } else { r.range(0, 60) }, r.range(0, 10)]),
        3 => Step::new("upgrade", *r.pick(&[ADMIN, ADMIN, ATT, 2, FEE]), vec![r.range(0, 60)]),
        _ => Step::new("hostile", *r.pick(&[ATT, ATT, ATT, 2, 2, FEE, OWNER, MANAGER, ADMIN]), vec![if l.focus == Some("C09") && r.p(200) { -1 } else { r.range(0, 500) }, r.log(1, 1_000_000_000)]),
    }
}

pub fn gen_fault(l: &Lab, r: &mut Rng) -> Fault {
    let (a, b, c, d) = match l.focus {
        Some("C22") => (60, 20, 250, 20),
        Some("C09") => (10, 300, 10, 10),
        Some("C23") => (10, 10, 10, 150),
        Some("C07") => (60, 20, 40, 10),
        _ => (25, 25, 8, 20),
    };
    let x = r.below(1000);
    if x < a {
        Fault::Abort(r.range(1, 960))
    } else if x < a + b {
        Fault::Forge
    } else if x < a + b + c {
        Fault::Inject(r.range(0, 1000))
    } else if x < a + b + c + d {
        Fault::NoRestore
    } else {
        Fault::None
    }
}
