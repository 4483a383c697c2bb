//! The simulated ledger: one process, one thread per run, every source of nondeterminism owned by
//! the simulator (ledger sequence, clock, host PRNG seed, order of transactions, resource limits,
//! entry expiry).  Contract code is the release wasm built from /repo, executed by the same
//! soroban host that runs on the network.
use sha2::{Digest, Sha256};
use soroban_env_host::{
    budget::{AsBudget, Budget},
    storage::{AccessType, EntryWithLiveUntil, Footprint, FootprintMap, SnapshotSource, Storage, StorageMap},
    xdr::*,
    Error, Host, HostError, LedgerInfo,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type Key = Rc<LedgerKey>;
pub type Entry = (Rc<LedgerEntry>, Option<u32>);

pub const MIN_TEMP_TTL: u32 = 16;
pub const MIN_PERS_TTL: u32 = 4096;
pub const MAX_TTL: u32 = 3_110_400;
/// CPU limit of a network transaction.
pub const CPU_LIMIT: u64 = 100_000_000;

/// The host instance and its parsed-module cache; holds no ledger state between transactions.
pub struct VmHost {
    host: Host,
    budget: Budget,
    uses: RefCell<u32>,
}

struct Snap {
    map: Rc<BTreeMap<Key, Entry>>,
    seq: u32,
    /// reads see expired entries as if they had been restored first
    lift: bool,
    touched_archived: RefCell<Vec<Key>>,
}
impl SnapshotSource for Snap {
    fn get(&self, k: &Key) -> Result<Option<EntryWithLiveUntil>, HostError> {
        match self.map.get(k) {
            None => Ok(None),
            Some((e, t)) => {
                if !is_temp(k) && t.map_or(false, |t| t < self.seq) {
                    if self.lift {
                        return Ok(Some((e.clone(), Some(self.seq + MIN_PERS_TTL - 1))));
                    }
                    self.touched_archived.borrow_mut().push(k.clone());
                    return Err(HostError::from((ScErrorType::Storage, ScErrorCode::InternalError)));
                }
                Ok(Some((e.clone(), *t)))
            }
        }
    }
}

thread_local! {
    /// footprints learned by recording runs: pure knowledge about which keys a call touches, never values
    static QFOOT: RefCell<HashMap<Vec<u8>, Rc<Vec<Key>>>> = RefCell::new(HashMap::new());
    /// keys that turned out to be needed but absent, and in how many runs
    static SEEN: RefCell<BTreeMap<Key, u32>> = RefCell::new(BTreeMap::new());
}

impl VmHost {
    pub fn new(codes: &[(Key, Entry)]) -> VmHost {
        let budget = Budget::default();
        let mut v: Vec<(Key, Option<EntryWithLiveUntil>)> =
            codes.iter().map(|(k, e)| (k.clone(), Some((e.0.clone(), e.1)))).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        let fp: Vec<(Key, AccessType)> = v.iter().map(|(k, _)| (k.clone(), AccessType::ReadOnly)).collect();
        let st = Storage::with_enforcing_footprint_and_map(
            Footprint(FootprintMap::from_map(fp, &budget).unwrap()),
            StorageMap::from_map(v, &budget).unwrap(),
        );
        let host = Host::with_storage_and_budget(st, budget.clone());
        host.set_ledger_info(ledger_info(1, 1)).unwrap();
        budget.reset_default().unwrap();
        host.rebuild_module_cache().unwrap();
        VmHost { host, budget, uses: RefCell::new(0) }
    }
}

fn ledger_info(seq: u32, ts: u64) -> LedgerInfo {
    LedgerInfo {
        protocol_version: 22,
        sequence_number: seq,
        timestamp: ts,
        network_id: [7; 32],
        base_reserve: 5_000_000,
        min_persistent_entry_ttl: MIN_PERS_TTL,
        min_temp_entry_ttl: MIN_TEMP_TTL,
        max_entry_ttl: MAX_TTL,
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Addr(pub ScAddress);
impl Addr {
    pub fn account(n: u8) -> Addr {
        let mut k = [0u8; 32];
        k[0] = n;
        k[31] = 0xA5;
        Addr(ScAddress::Account(AccountId(PublicKey::PublicKeyTypeEd25519(Uint256(k)))))
    }
    pub fn acct_id(&self) -> AccountId {
        match &self.0 {
            ScAddress::Account(a) => a.clone(),
            _ => AccountId(PublicKey::PublicKeyTypeEd25519(Uint256([0xEE; 32]))),
        }
    }
    pub fn val(&self) -> ScVal {
        ScVal::Address(self.0.clone())
    }
    pub fn is_contract(&self) -> bool {
        matches!(self.0, ScAddress::Contract(_))
    }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub res: Result<ScVal, String>,
    /// every address whose authorization the transaction consumed (source included)
    pub auth: Vec<(Addr, SorobanAuthorizedInvocation)>,
    pub cpu: u64,
    pub archived: bool,
    pub missing_auth: Option<Addr>,
    pub writes: usize,
    /// what the transaction's contracts published, in order (only on a chain that listens)
    pub events: Vec<Event>,
}
/// contract, topics, data
pub type Event = (Addr, Vec<ScVal>, ScVal);
impl Outcome {
    pub fn ok(&self) -> bool {
        self.res.is_ok()
    }
    pub fn auth_addrs(&self) -> BTreeSet<Addr> {
        self.auth.iter().map(|x| x.0.clone()).collect()
    }
    pub fn err(&self) -> String {
        self.res.clone().err().unwrap_or_default()
    }
    /// numeric contract error code, if the failure is a contract error
    pub fn code(&self) -> Option<u32> {
        let e = self.res.as_ref().err()?;
        e.strip_prefix("Contract#")?.parse().ok()
    }
    pub fn trapped(&self) -> bool {
        matches!(&self.res, Err(e) if e.starts_with("WasmVm"))
    }
    pub fn resource(&self) -> bool {
        matches!(&self.res, Err(e) if e.starts_with("Budget"))
    }
}

pub struct Opts<'a> {
    /// who signs besides the source account
    pub signers: &'a [Addr],
    /// abort the transaction when it has used that many CPU instructions
    pub cpu_limit: Option<u64>,
    pub commit: bool,
    /// the source restores archived entries in the footprint first
    pub restore: bool,
}

#[derive(Clone, Default)]
pub struct Ctr {
    pub tx: u64,
    pub tx_ok: u64,
    pub tx_fail: u64,
    pub queries: u64,
    pub aborted: u64,
    pub unauth: u64,
    pub restored: u64,
    pub archived_hits: u64,
    pub slow: u64,
    pub qhits: u64,
}

/// result, consumed authorisations, ledger changes, instructions, expired entries met, events
type Run =
    (Result<ScVal, HostError>, Vec<(Addr, SorobanAuthorizedInvocation)>, Vec<(Key, Option<Entry>)>, u64, Vec<Key>, Vec<Event>);

struct QHit {
    seq: u32,
    ts: u64,
    deps: Vec<(Key, Option<Rc<LedgerEntry>>)>,
    res: Result<ScVal, String>,
}

pub struct Chain {
    pub entries: Rc<BTreeMap<Key, Entry>>,
    qcache: HashMap<Vec<u8>, QHit>,
    absent: BTreeSet<Key>,
    pub seq: u32,
    pub ts: u64,
    pub vm: Rc<VmHost>,
    pub ctr: Rc<RefCell<Ctr>>,
    pub touched_archived: RefCell<Vec<Key>>,
    pub t0: u64,
    mute: bool,
    /// collect the events of committed transactions
    pub listen: bool,
    /// published by committed transactions and not yet looked at
    pub heard: Vec<Event>,
    codes: Rc<Vec<(Key, Entry)>>,
}

fn events_of(h: &Host, budget: &Budget, from: usize) -> (usize, Vec<Event>) {
    budget.reset_default().unwrap();
    let ev = h.get_events().expect("events").0;
    let n = ev.len();
    let mut out = vec![];
    for e in ev.into_iter().skip(from) {
        if e.failed_call || e.event.type_ != ContractEventType::Contract {
            continue;
        }
        let ContractEventBody::V0(b) = e.event.body;
        if let Some(id) = e.event.contract_id {
            out.push((Addr(ScAddress::Contract(id)), b.topics.to_vec(), b.data));
        }
    }
    budget.reset_default().unwrap();
    (n, out)
}

fn is_code(k: &LedgerKey) -> bool {
    matches!(k, LedgerKey::ContractCode(_))
}
fn is_nonce(k: &LedgerKey) -> bool {
    matches!(k, LedgerKey::ContractData(d) if matches!(d.key, ScVal::LedgerKeyNonce(_)))
}
fn is_temp(k: &LedgerKey) -> bool {
    matches!(k, LedgerKey::ContractData(d) if d.durability == ContractDataDurability::Temporary)
}

fn err_string(e: &HostError) -> String {
    let err = &e.error;
    if err.is_type(ScErrorType::Contract) {
        return format!("Contract#{}", err.get_code());
    }
    let tname = ScErrorType::VARIANTS.iter().find(|t| err.is_type(**t)).map(|t| t.name()).unwrap_or("Unknown");
    let cname = ScErrorCode::VARIANTS.iter().find(|c| err.is_code(**c)).map(|c| c.name()).unwrap_or("Other");
    format!("{tname}:{cname}")
}

impl Chain {
    pub fn genesis(wasms: &[Vec<u8>]) -> (Chain, Vec<[u8; 32]>) {
        let mut codes: Vec<(Key, Entry)> = vec![];
        let mut hashes = vec![];
        let mut entries = BTreeMap::new();
        for w in wasms {
            // upload through a throw-away recording host: validates the module exactly as the network does
            let budget = Budget::default();
            let snap = Rc::new(Snap { map: Rc::new(BTreeMap::new()), seq: 1, lift: false, touched_archived: RefCell::new(vec![]) });
            let host = Host::with_storage_and_budget(Storage::with_recording_footprint(snap), budget);
            host.set_ledger_info(ledger_info(1, 1)).unwrap();
            host.set_source_account(Addr::account(1).acct_id()).unwrap();
            host.set_base_prng_seed([3; 32]).unwrap();
            host.switch_to_recording_auth(true).unwrap();
            host.invoke_function(HostFunction::UploadContractWasm(w.clone().try_into().unwrap())).expect("wasm upload");
            let (st, _) = host.try_finish().map_err(|_| ()).unwrap();
            for (k, v) in &st.map {
                if let Some((e, _)) = v {
                    let ent = (e.clone(), Some(u32::MAX / 2));
                    if !codes.iter().any(|(kk, _)| kk == k) {
                        codes.push((k.clone(), ent.clone()));
                    }
                    entries.insert(k.clone(), ent);
                }
            }
            hashes.push(Sha256::digest(w).into());
        }
        let vm = Rc::new(VmHost::new(&codes));
        (
            Chain {
                entries: Rc::new(entries),
                qcache: HashMap::new(),
                absent: SEEN.with(|s| s.borrow().iter().filter(|x| *x.1 >= 2).map(|x| x.0.clone()).collect()),
                seq: 1000, ts: 1_700_000_000, vm, ctr: Default::default(), touched_archived: RefCell::new(vec![]), t0: 1_700_000_000, mute: false, listen: false, heard: vec![], codes: Rc::new(codes) },
            hashes,
        )
    }

    pub fn vm_uses(&self) -> u32 {
        *self.vm.uses.borrow()
    }

    /// the same ledger for a new run, with its own counters
    pub fn fresh(&self) -> Chain {
        let mut c = self.fork();
        c.ctr = Default::default();
        c.mute = false;
        c.absent = SEEN.with(|s| s.borrow().iter().filter(|x| *x.1 >= 2).map(|x| x.0.clone()).collect());
        c
    }

    pub fn fork(&self) -> Chain {
        Chain {
            entries: self.entries.clone(),
            qcache: HashMap::new(),
            absent: self.absent.clone(),
            seq: self.seq,
            ts: self.ts,
            vm: self.vm.clone(),
            ctr: self.ctr.clone(),
            touched_archived: RefCell::new(vec![]),
            t0: self.t0,
            mute: true,
            listen: false,
            heard: vec![],
            codes: self.codes.clone(),
        }
    }

    /// from now on outcomes carry events; on a host of its own, whose event buffer starts empty
    pub fn listen(&mut self) {
        self.vm = Rc::new(VmHost::new(&self.codes));
        self.listen = true;
    }

    fn dead(&self, k: &Key, e: &Entry) -> bool {
        !is_temp(k) && e.1.map_or(false, |t| t < self.seq)
    }
    pub fn n_archived(&self) -> usize {
        self.entries.iter().filter(|(k, e)| self.dead(k, e)).count()
    }

    /// Moves the clock; temporary entries whose life ended disappear for good.
    pub fn advance(&mut self, ledgers: u32, secs: u64) {
        self.seq = self.seq.saturating_add(ledgers);
        self.ts = self.ts.saturating_add(secs);
        let seq = self.seq;
        let dead: Vec<Key> = self
            .entries
            .iter()
            .filter(|(k, e)| is_temp(k) && e.1.map_or(false, |t| t < seq))
            .map(|(k, _)| k.clone())
            .collect();
        for k in dead {
            Rc::make_mut(&mut self.entries).remove(&k);
            self.absent.insert(k);
        }
    }

    pub fn restore_keys(&mut self, keys: &[Key]) {
        let until = self.seq + MIN_PERS_TTL - 1;
        let seq = self.seq;
        let m = Rc::make_mut(&mut self.entries);
        for k in keys {
            if let Some(e) = m.get_mut(k) {
                if e.1.map_or(false, |t| t < seq) {
                    e.1 = Some(until);
                }
            }
        }
    }

    pub fn restore_all(&mut self) {
        let ks: Vec<Key> = self.entries.iter().filter(|(k, e)| self.dead(k, e)).map(|x| x.0.clone()).collect();
        self.restore_keys(&ks);
    }

    fn prepare(&self, h: &Host, budget: &Budget, src: &Addr, cpu_limit: Option<u64>) -> Result<(), HostError> {
        budget.reset_default()?;
        h.set_source_account(src.acct_id())?;
        h.set_ledger_info(ledger_info(self.seq, self.ts))?;
        h.set_base_prng_seed([9; 32])?;
        h.switch_to_recording_auth(false)?;
        budget.reset_default()?;
        if let Some(l) = cpu_limit {
            // burn the allowance up front, so that exactly `l` instructions are left
            let burn = CPU_LIMIT.saturating_sub(l);
            let _ = budget.bulk_charge(ContractCostType::WasmInsnExec, burn / 4, None);
        }
        Ok(())
    }

    #[allow(clippy::type_complexity)]
    fn run_once(
        &self,
        src: &Addr,
        hf: &HostFunction,
        cpu_limit: Option<u64>,
        recording: bool,
        only: Option<&[Key]>,
        lift: bool,
    ) -> Run {
        let mut snap_rc: Option<Rc<Snap>> = None;
        let fresh: Option<(Host, Budget)>;
        let (h, budget): (&Host, &Budget);
        if recording {
            // a throw-away host: recording runs must not disturb the module cache of the main one
            let snap = Rc::new(Snap { map: self.entries.clone(), seq: self.seq, lift, touched_archived: RefCell::new(vec![]) });
            snap_rc = Some(snap.clone());
            let b = Budget::default();
            let hh = Host::with_storage_and_budget(Storage::with_recording_footprint(snap), b.clone());
            fresh = Some((hh, b));
            h = &fresh.as_ref().unwrap().0;
            budget = &fresh.as_ref().unwrap().1;
        } else {
            *self.vm.uses.borrow_mut() += 1;
            h = &self.vm.host;
            budget = &self.vm.budget;
            budget.reset_default().unwrap();
            let mut v: Vec<(Key, Option<EntryWithLiveUntil>)>;
            if let Some(keys) = only {
                v = Vec::with_capacity(keys.len());
                for k in keys {
                    match self.entries.get(k) {
                        Some(e) => {
                            if !self.dead(k, e) {
                                v.push((k.clone(), Some((e.0.clone(), e.1))));
                            } else if lift {
                                v.push((k.clone(), Some((e.0.clone(), Some(self.seq + MIN_PERS_TTL - 1)))));
                            }
                        }
                        None => v.push((k.clone(), None)),
                    }
                }
            } else {
                v = Vec::with_capacity(self.entries.len() + self.absent.len());
                let mut a = self.absent.iter().peekable();
                for (k, e) in self.entries.iter() {
                    while let Some(x) = a.peek() {
                        if **x < *k {
                            v.push(((*x).clone(), None));
                            a.next();
                        } else {
                            break;
                        }
                    }
                    if let Some(x) = a.peek() {
                        if **x == *k {
                            a.next();
                        }
                    }
                    if self.dead(k, e) {
                        continue;
                    }
                    v.push((k.clone(), Some((e.0.clone(), e.1))));
                }
                for x in a {
                    v.push((x.clone(), None));
                }
            }
            let fp: Vec<(Key, AccessType)> = v.iter().map(|(k, _)| (k.clone(), AccessType::ReadWrite)).collect();
            let st = Storage::with_enforcing_footprint_and_map(
                Footprint(FootprintMap::from_map(fp, budget).unwrap()),
                StorageMap::from_map(v, budget).unwrap(),
            );
            h.with_mut_storage(|s| {
                *s = st;
                Ok(())
            })
            .unwrap();
        }
        let hear = self.listen && only.is_none();
        let seen = if hear && !recording { events_of(h, budget, usize::MAX).0 } else { 0 };
        if let Err(e) = self.prepare(h, budget, src, cpu_limit) {
            return (Err(e), vec![], vec![], 0, vec![], vec![]);
        }
        let r = h.invoke_function(hf.clone());
        let cpu = budget.get_cpu_insns_consumed().unwrap_or(0);
        budget.reset_default().unwrap();
        let events = if hear && r.is_ok() { events_of(h, budget, seen).1 } else { vec![] };
        let mut auth = vec![];
        let mut changes = vec![];
        if r.is_ok() {
            if let Ok(ps) = h.get_recorded_auth_payloads() {
                for p in ps {
                    let a = p.address.map(Addr).unwrap_or_else(|| src.clone());
                    auth.push((a, p.invocation));
                }
            }
        }
        let st = h.with_mut_storage(|s| Ok(std::mem::take(s))).unwrap();
        if r.is_ok() {
            for (k, v) in &st.map {
                let old = self.entries.get(k);
                let same = match (old, v) {
                    (Some(o), Some(n)) => Rc::ptr_eq(&o.0, &n.0) && o.1 == n.1,
                    (None, None) => true,
                    _ => false,
                };
                if recording || !same {
                    changes.push((k.clone(), v.clone()));
                }
            }
        } else if recording {
            // what a failed call wrote is gone, what it looked at is still in the footprint
            for (k, _) in &st.footprint.0 {
                changes.push((k.clone(), self.entries.get(k).map(|e| (e.0.clone(), e.1))));
            }
        }
        let ta = snap_rc.map(|s| s.touched_archived.borrow().clone()).unwrap_or_default();
        (r, auth, changes, cpu, ta, events)
    }

    fn learn_absent(&mut self, k: Key) {
        if is_nonce(&k) || self.entries.contains_key(&k) {
            // nonces are part of the footprint too, but only their absence matters
            if !is_nonce(&k) {
                return;
            }
        }
        if self.absent.insert(k.clone()) {
            SEEN.with(|s| {
                let mut s = s.borrow_mut();
                if s.len() < 4000 {
                    *s.entry(k).or_insert(0) += 1;
                }
            });
        }
    }

    /// One transaction: executes `hf`, then commits atomically or not at all.
    pub fn submit(&mut self, src: &Addr, hf: HostFunction, o: &Opts) -> Outcome {
        let mut slow = !matches!(hf, HostFunction::InvokeContract(_));
        if self.listen && *self.vm.uses.borrow() > 600 {
            // the host's event buffer only grows
            self.vm = Rc::new(VmHost::new(&self.codes));
        }
        // a missing footprint entry noticed while checking an authorization surfaces as an auth error
        let footprint_miss = |e: &HostError| {
            e.error.is_type(ScErrorType::Storage) && e.error.is_code(ScErrorCode::ExceededLimit)
                || e.error.is_type(ScErrorType::Auth) && e.error.is_code(ScErrorCode::InternalError)
        };
        let mut restored = 0;
        let (r, auth, changes, cpu, touched, events) = loop {
            let out = self.run_once(src, &hf, o.cpu_limit, slow, None, false);
            if !slow {
                if let Err(e) = &out.0 {
                    let exhausted = o.cpu_limit.is_none() && e.error.is_type(ScErrorType::Budget);
                    if footprint_miss(e) || exhausted {
                        slow = true;
                        self.ctr.borrow_mut().slow += 1;
                        continue;
                    }
                }
            } else {
                for (k, v) in &out.2 {
                    if v.is_none() || !self.entries.contains_key(k) {
                        self.learn_absent(k.clone());
                    }
                }
                if !out.4.is_empty() && o.restore && restored < 60 {
                    restored += 1;
                    self.ctr.borrow_mut().restored += 1;
                    self.restore_keys(&out.4);
                    continue;
                }
            }
            break out;
        };
        let mut missing = None;
        if r.is_ok() {
            for (a, _) in &auth {
                if a != src && !o.signers.contains(a) {
                    missing = Some(a.clone());
                }
            }
        }
        let mut c = self.ctr.borrow_mut();
        if o.commit && !self.mute {
            c.tx += 1;
        } else {
            c.queries += 1;
        }
        if !touched.is_empty() {
            c.archived_hits += 1;
        }
        let res = match (&r, &missing) {
            (Ok(_), Some(_)) => {
                c.unauth += 1;
                Err("Auth:missing".to_string())
            }
            (Ok(v), None) => Ok(v.clone()),
            (Err(e), _) => Err(err_string(e)),
        };
        if o.commit && !self.mute {
            if res.is_ok() {
                c.tx_ok += 1;
            } else {
                c.tx_fail += 1;
                if o.cpu_limit.is_some() {
                    c.aborted += 1;
                }
            }
        }
        drop(c);
        let mut writes = 0;
        if res.is_ok() && o.commit {
            self.heard.extend(events.iter().cloned());
            let absent = &mut self.absent;
            let m = Rc::make_mut(&mut self.entries);
            for (k, v) in changes {
                if is_nonce(&k) {
                    absent.insert(k);
                    continue;
                }
                match v {
                    Some(mut e) => {
                        if is_code(&k) {
                            if let Some(o) = m.get(&k) {
                                e.1 = o.1;
                            }
                        }
                        let same = m.get(&k).map_or(false, |o| o.0.data == e.0.data);
                        if !same {
                            writes += 1;
                            absent.remove(&k);
                            m.insert(k, (e.0, e.1));
                        } else if let Some(o) = m.get_mut(&k) {
                            // only its lifetime changed
                            o.1 = e.1;
                        }
                    }
                    None => {
                        if m.remove(&k).is_some() {
                            writes += 1;
                        }
                        absent.insert(k);
                    }
                }
            }
        }
        *self.touched_archived.borrow_mut() = touched.clone();
        Outcome { res, auth, cpu, archived: !touched.is_empty(), missing_auth: missing, writes, events }
    }

    /// The n-th host function call made in a nested contract frame fails (recoverably, as any failing
    /// callee does).  Returns the outcome, the number of nested calls seen and the ledger changes (not kept).
    pub fn injected(
        &self,
        src: &Addr,
        hf: &HostFunction,
        fail_at: Option<u64>,
    ) -> Option<(Result<ScVal, String>, u64)> {
        use soroban_env_host::{e2e_invoke::*, TraceEvent};
        let dry = self.run_once(src, hf, None, true, None, false);
        dry.0.as_ref().ok()?;
        if dry.1.iter().any(|a| a.0 != *src) {
            return None;
        }
        let mut keys: Vec<Key> = dry.2.iter().map(|x| x.0.clone()).filter(|k| !is_nonce(k)).collect();
        keys.sort();
        let mut ents: Vec<Vec<u8>> = vec![];
        let mut ttls: Vec<Vec<u8>> = vec![];
        for k in &keys {
            if let Some((e, t)) = self.entries.get(k) {
                ents.push(e.to_xdr(Limits::none()).ok()?);
                ttls.push(match t {
                    Some(t) => TtlEntry {
                        key_hash: Hash(Sha256::digest(k.to_xdr(Limits::none()).ok()?).into()),
                        live_until_ledger_seq: *t,
                    }
                    .to_xdr(Limits::none())
                    .ok()?,
                    None => vec![],
                });
            }
        }
        let (code, data): (Vec<LedgerKey>, Vec<LedgerKey>) = keys.iter().map(|k| (**k).clone()).partition(|k| is_code(k));
        let res = SorobanResources {
            footprint: LedgerFootprint { read_only: code.try_into().ok()?, read_write: data.try_into().ok()? },
            instructions: 0,
            read_bytes: 0,
            write_bytes: 0,
        };
        let auth: Vec<Vec<u8>> = dry
            .1
            .iter()
            .map(|(_, inv)| {
                SorobanAuthorizationEntry { credentials: SorobanCredentials::SourceAccount, root_invocation: inv.clone() }
                    .to_xdr(Limits::none())
                    .unwrap()
            })
            .collect();
        let depth = Rc::new(RefCell::new((0u32, 0u64)));
        let d2 = depth.clone();
        let hook = Rc::new(move |_: &Host, ev: TraceEvent<'_>| -> Result<(), HostError> {
            let mut d = d2.borrow_mut();
            match ev {
                TraceEvent::PushCtx(..) => d.0 += 1,
                TraceEvent::PopCtx(..) => d.0 = d.0.saturating_sub(1),
                TraceEvent::EnvCall(_, _) => {
                    // depth 1 is the host function, 2 the contract called, 3 and more its callees
                    if d.0 >= 3 {
                        d.1 += 1;
                        if Some(d.1) == fail_at {
                            return Err(HostError::from(Error::from_contract_error(7777)));
                        }
                    }
                }
                _ => (),
            }
            Ok(())
        });
        let budget = Budget::default();
        let mut diag = vec![];
        let out = invoke_host_function_with_trace_hook(
            &budget,
            false,
            hf.to_xdr(Limits::none()).ok()?,
            res.to_xdr(Limits::none()).ok()?,
            src.acct_id().to_xdr(Limits::none()).ok()?,
            auth.into_iter(),
            ledger_info(self.seq, self.ts),
            ents.into_iter(),
            ttls.into_iter(),
            vec![9u8; 32],
            &mut diag,
            Some(hook),
        );
        let n = depth.borrow().1;
        match out {
            Ok(r) => match r.encoded_invoke_result {
                Ok(b) => Some((ScVal::from_xdr(b, Limits::none()).map_err(|_| "xdr".to_string()), n)),
                Err(e) => Some((Err(err_string(&e)), n)),
            },
            Err(e) => Some((Err(format!("host {}", err_string(&e))), n)),
        }
    }

    pub fn call_fn(c: &Addr, f: &str, args: Vec<ScVal>) -> HostFunction {
        HostFunction::InvokeContract(InvokeContractArgs {
            contract_address: c.0.clone(),
            function_name: ScSymbol(f.try_into().unwrap()),
            args: args.try_into().unwrap(),
        })
    }

    /// a transaction signed by `src` alone
    pub fn tx(&mut self, src: &Addr, c: &Addr, f: &str, args: Vec<ScVal>) -> Outcome {
        self.submit(src, Self::call_fn(c, f, args), &Opts { signers: &[], cpu_limit: None, commit: true, restore: true })
    }

    /// read-only simulation: nothing it does is kept.  Answers are reused while every ledger entry the
    /// call reads is the very same object (and the clock too, unless `timeless`).
    pub fn query(&mut self, c: &Addr, f: &str, args: Vec<ScVal>, timeless: bool) -> Result<ScVal, String> {
        let hf = Self::call_fn(c, f, args);
        let id = hf.to_xdr(Limits::none()).unwrap();
        if let Some(q) = self.qcache.get(&id) {
            if (timeless || (q.seq == self.seq && q.ts == self.ts))
                && q.deps.iter().all(|(k, v)| match (v, self.entries.get(k)) {
                    (None, None) => true,
                    (Some(a), Some((b, _))) => Rc::ptr_eq(a, b),
                    _ => false,
                })
            {
                self.ctr.borrow_mut().qhits += 1;
                return q.res.clone();
            }
        }
        self.ctr.borrow_mut().queries += 1;
        let src = Addr::account(250);
        let miss = |e: &HostError| {
            e.error.is_type(ScErrorType::Storage) && e.error.is_code(ScErrorCode::ExceededLimit)
                || e.error.is_type(ScErrorType::Auth) && e.error.is_code(ScErrorCode::InternalError)
        };
        let mut keys = QFOOT.with(|q| q.borrow().get(&id).cloned());
        let mut res = None;
        if let Some(ks) = &keys {
            let out = self.run_once(&src, &hf, None, false, Some(ks), true);
            match out.0 {
                Err(e) if miss(&e) || e.error.is_type(ScErrorType::Budget) => {}
                Err(e) => res = Some(Err(err_string(&e))),
                Ok(v) => res = Some(Ok(v)),
            }
        }
        if res.is_none() {
            let out = self.run_once(&src, &hf, None, true, None, true);
            self.ctr.borrow_mut().slow += 1;
            let mut set: BTreeSet<Key> = keys.as_ref().map(|k| k.iter().cloned().collect()).unwrap_or_default();
            if set.len() > 60 {
                set.clear();
            }
            set.extend(out.2.iter().map(|x| x.0.clone()).filter(|k| !is_nonce(k)));
            let v: Rc<Vec<Key>> = Rc::new(set.into_iter().collect());
            QFOOT.with(|q| {
                let mut q = q.borrow_mut();
                if q.len() > 20_000 {
                    q.clear();
                }
                q.insert(id.clone(), v.clone())
            });
            keys = Some(v);
            res = Some(out.0.map_err(|e| err_string(&e)));
        }
        let res = res.unwrap();
        let deps = keys
            .unwrap()
            .iter()
            .map(|k| match self.entries.get(k) {
                Some((e, _)) => (k.clone(), Some(e.clone())),
                None => (k.clone(), None),
            })
            .collect();
        self.qcache.insert(id, QHit { seq: self.seq, ts: self.ts, deps, res: res.clone() });
        res
    }

    /// dry run as `src` with everybody's signature
    pub fn dry(&mut self, src: &Addr, c: &Addr, f: &str, args: Vec<ScVal>, signers: &[Addr]) -> Outcome {
        let mut k = self.fork();
        k.submit(src, Self::call_fn(c, f, args), &Opts { signers, cpu_limit: None, commit: false, restore: true })
    }

    pub fn deploy(&mut self, src: &Addr, hash: &[u8; 32], salt: u8, args: Vec<ScVal>) -> Addr {
        let o = self.submit(
            src,
            HostFunction::CreateContractV2(CreateContractArgsV2 {
                contract_id_preimage: ContractIdPreimage::Address(ContractIdPreimageFromAddress {
                    address: src.0.clone(),
                    salt: Uint256([salt; 32]),
                }),
                executable: ContractExecutable::Wasm(Hash(*hash)),
                constructor_args: args.try_into().unwrap(),
            }),
            &Opts { signers: &[], cpu_limit: None, commit: true, restore: true },
        );
        match o.res {
            Ok(ScVal::Address(a)) => Addr(a),
            x => panic!("deploy failed: {x:?}"),
        }
    }

    /// Hash of the whole ledger (values, not lifetimes).
    pub fn state_hash(&self) -> [u8; 32] {
        let mut h = Sha256::new();
        for (k, e) in self.entries.iter() {
            if is_code(k) {
                continue;
            }
            h.update(k.to_xdr(Limits::none()).unwrap());
            h.update(e.0.data.to_xdr(Limits::none()).unwrap());
        }
        h.finalize().into()
    }
    pub fn full_hash(&self) -> [u8; 32] {
        let mut h = Sha256::new();
        h.update(self.seq.to_be_bytes());
        h.update(self.ts.to_be_bytes());
        h.update(self.state_hash());
        for (_, e) in self.entries.iter() {
            h.update(e.1.unwrap_or(0).to_be_bytes());
        }
        h.finalize().into()
    }

    pub fn as_budget(&self) -> &Budget {
        self.vm.host.as_budget()
    }
}
