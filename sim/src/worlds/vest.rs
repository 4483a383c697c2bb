//! The vesting contract: an admin who grants schedules, beneficiaries who claim at any time and in
//! any order, a minter with a capacity, burning holders, a token that refuses transfers, strangers.
use crate::chain::*;
use crate::refm::muldiv;
use crate::rng::Rng;
use crate::sim::*;
use crate::val::*;
use soroban_env_host::xdr::ScVal;
use std::collections::BTreeMap;

/// points of a schedule: (seconds since the start of the run, amount still locked)
#[derive(Clone, PartialEq, Debug)]
struct Curve {
    kind: i128,
    pts: Vec<(i128, i128)>,
}
impl Curve {
    /// locked amount; between two points the paid part is rounded down
    fn locked(&self, x: i128) -> i128 {
        let (f, l) = (self.pts[0], self.pts[self.pts.len() - 1]);
        if x <= f.0 {
            return f.1;
        }
        if x >= l.0 {
            return l.1;
        }
        for p in self.pts.windows(2) {
            if x < p[1].0 {
                return p[0].1 - muldiv(p[0].1 - p[1].1, x - p[0].0, p[1].0 - p[0].0);
            }
        }
        l.1
    }
    fn valid(&self, t0: i128) -> bool {
        self.kind < 2
            && !self.pts.is_empty()
            && self.pts.windows(2).all(|p| p[0].0 < p[1].0 && p[0].1 >= p[1].1)
            && self.pts[self.pts.len() - 1].1 == 0
            && self.pts.iter().all(|p| p.1 >= 0 && t0 + p.0 >= 0)
            && (self.kind == 0 || t0 + self.pts[0].0 > 0)
    }
    fn val(&self, t0: i128) -> ScVal {
        let t = |x: i128| u64v((t0 + x).max(0) as u64);
        let a = |x: i128| u128v(x.max(0) as u128);
        let g = |k: usize| self.pts.get(k).copied().unwrap_or((0, 0));
        match self.kind {
            0 => vecv(vec![sym("SaturatingLinear"), st(&[("min_x", t(g(0).0)), ("min_y", a(g(0).1)), ("max_x", t(g(1).0)), ("max_y", a(g(1).1))])]),
            1 => {
                let v = self.pts.iter().map(|p| st(&[("time", t(p.0)), ("value", a(p.1))])).collect();
                vecv(vec![sym("PiecewiseLinear"), st(&[("steps", vecv(v))])])
            }
            _ => vecv(vec![sym("Constant"), a(g(0).1)]),
        }
    }
    fn size(&self) -> usize {
        match self.kind {
            0 => 2,
            1 => self.pts.len(),
            _ => 1,
        }
    }
}
struct Grant {
    curve: Curve,
    left: i128,
    paid: i128,
}

pub struct Vest {
    tok: Addr,
    vc: Addr,
    helper: bool,
    fail: bool,
    users: Vec<u8>,
    max: usize,
    scale: i128,
    grants: BTreeMap<u8, Vec<Grant>>,
    /// (who, capacity)
    minter: Option<(u8, u128)>,
    /// given to the contract beside grants: donations and what was minted
    extra: i128,
    hold: Vec<Addr>,
    snap: Vec<i128>,
    slow: bool,
    /// the token's admin is the contract, which is so only where a minter was set up
    owns: bool,
}

pub fn cfg(focus: Option<&str>, r: &mut Rng) -> Vec<i128> {
    let f = focus.unwrap_or("");
    vec![
        r.range(2, 4),
        if f == "C19" || r.p(500) { 1 } else { 0 },
        if r.p(200) { r.range(10, 40) } else { r.range(3, 9) },
        *r.pick(&[1, 1_000, 1_000_000_000, 1_000_000_000_000_000, 1_000_000_000_000_000_000_000_000]),
        *r.pick(&[0, 7, 18]),
        if f != "C19" && r.p(350) { 1 } else { 0 },
        r.log(1, 1_000_000),
        r.range(0, 1),
        if r.p(700) { 0 } else { r.range(1, 3) },
    ]
}

impl Vest {
    pub fn new(l: &mut Lab, c: &[i128]) -> Option<Vest> {
        let g = |k: usize| c.get(k).copied().unwrap_or(0);
        let adm = acct(ADMIN);
        let minter = g(1) == 1;
        let helper = g(5) == 1 && !minter;
        let dec = g(4).clamp(0, 18) as u32;
        let tok = if helper {
            l.ch.deploy(&adm, &l.hash[w::HELPER].clone(), 1, vec![adm.val(), u32v(dec)])
        } else {
            l.ch.deploy(&adm, &l.hash[w::TOKEN].clone(), 1, vec![adm.val(), u32v(dec), s("Vested"), s("VST")])
        };
        let vc = l.ch.deploy(&adm, &l.hash[w::VESTING].clone(), 2, vec![]);
        let info = st(&[("name", s("Vested")), ("symbol", s("VST")), ("decimals", u32v(dec)), ("address", tok.val())]);
        let max = g(2).clamp(2, 40);
        let mut args = vec![adm.val(), info, u32v(max as u32)];
        let scale = g(3).clamp(1, 1_000_000_000_000_000_000_000_000);
        if minter {
            args.push(st(&[("address", acct(MANAGER).val()), ("mint_capacity", u128v((g(6).max(0) * scale / 10) as u128))]));
            l.must("C19", &adm, &vc, "initialize_with_minter", args)?;
        } else {
            l.must("C18", &adm, &vc, "initialize", args)?;
        }
        let mut users: Vec<u8> = USERS[..g(0).clamp(1, 4) as usize].to_vec();
        // grants to those who run the contract
        if g(8) & 1 == 1 {
            users.push(ADMIN);
        }
        if g(8) & 2 == 2 {
            users.push(MANAGER);
        }
        for u in users.iter().chain(&[ATT, ADMIN]) {
            let amt = if *u == ADMIN { scale * 10_000 } else { scale * 10 };
            l.must("C21", &adm, &tok, "mint", vec![acct(*u).val(), i(amt)])?;
        }
        if minter {
            l.must("C21", &adm, &tok, "set_admin", vec![vc.val()])?;
        }
        let mut hold: Vec<Addr> = users.iter().map(|u| acct(*u)).collect();
        for n in [ADMIN, ATT, MANAGER, OWNER] {
            if !users.contains(&n) {
                hold.push(acct(n));
            }
        }
        hold.push(vc.clone());
        let mut me = Vest {
            tok,
            vc,
            helper,
            fail: false,
            users,
            max: max as usize,
            scale,
            grants: BTreeMap::new(),
            minter: if minter { Some((MANAGER, (g(6).max(0) * scale / 10) as u128)) } else { None },
            extra: 0,
            hold,
            snap: vec![],
            slow: g(7) == 1,
            owns: minter,
        };
        me.snap = me.take(l);
        Some(me)
    }
    fn take(&self, l: &mut Lab) -> Vec<i128> {
        self.hold.iter().map(|h| l.bal(&self.tok.clone(), h)).collect()
    }
    fn h(&self, n: u8) -> usize {
        self.hold.iter().position(|a| *a == acct(n)).unwrap_or(0)
    }
    fn bal(&self, n: u8) -> i128 {
        self.snap[self.h(n)]
    }
    fn now(&self, l: &Lab) -> i128 {
        (l.ch.ts - l.ch.t0) as i128
    }
    fn owed(&self) -> i128 {
        self.grants.values().flatten().map(|g| g.left).sum()
    }
    /// balances moved by exactly these amounts, and what is owed is there
    fn after(&mut self, l: &mut Lab, prop: &'static str, op: &str, src: u8, d: &[(usize, i128)]) {
        let now = self.take(l);
        let old = std::mem::replace(&mut self.snap, now.clone());
        let mut exp = old.clone();
        for (k, x) in d {
            exp[*k] += x;
        }
        let bad = (0..exp.len()).find(|k| exp[*k] != now[*k]);
        l.want(prop, &format!("moved-{op}"), bad.is_none(), || {
            let k = bad.unwrap();
            format!("{op}: {} went from {} to {}, expected {}", name_of(&self.hold[k]), old[k], now[k], exp[k])
        });
        for k in 0..exp.len() {
            if now[k] < old[k] && !self.hold[k].is_contract() {
                let mine = self.hold[k] == acct(src);
                l.want("C09", &format!("taken-{op}"), mine, || format!("{op} by {} took {} from {}", name_of(&acct(src)), old[k] - now[k], name_of(&self.hold[k])));
            }
        }
        self.check(l);
    }

    fn check(&mut self, l: &mut Lab) {
        let v = self.hold.len() - 1;
        let (owed, have) = (self.owed(), self.snap[v]);
        l.want("C17", "unfunded", have >= owed, || format!("{owed} are granted and unclaimed, the contract holds {have}"));
        l.want("C17", "surplus", have == owed + self.extra, || format!("{owed} are granted, {} were added, the contract holds {have}", self.extra));
        let q = l.q(&self.vc.clone(), "query_vesting_contract_balance", vec![]).ok().as_ref().and_then(ri);
        l.want("C17", "reported", q == Some(have), || format!("query_vesting_contract_balance says {q:?}, the token {have}"));
        let now = self.now(l);
        let t0 = l.ch.t0 as i128;
        for u in self.users.clone() {
            let list = match l.q(&self.vc.clone(), "query_all_vesting_info", vec![acct(u).val()]) {
                Ok(v) => rv(&v).unwrap_or_default(),
                Err(e) => {
                    if !e.starts_with("Budget") {
                        l.viol("C18", "grants-query", e);
                    }
                    continue;
                }
            };
            let n = self.grants.get(&u).map_or(0, |g| g.len());
            l.want("C18", "grants", list.len() == n, || format!("user {u} was granted {n} schedules, {} are listed", list.len()));
            for k in 0..n.min(list.len()) {
                let g = &self.grants[&u][k];
                let left = g.left;
                let avail = left - g.curve.locked(now);
                let same = fi(&list[k], &["balance"]) == Some(left) && fa(&list[k], &["recipient"]) == Some(acct(u)) && fld(&list[k], "schedule") == Some(&g.curve.val(t0));
                l.want("C18", "grant", same, || format!("schedule {k} of user {u} should have {left} left: {:?}", list[k]));
                let one = l.q(&self.vc.clone(), "query_vesting_info", vec![acct(u).val(), u64v(k as u64)]);
                l.want("C18", "one-grant", one.as_ref().ok() == Some(&list[k]), || format!("query_vesting_info({u}, {k}) differs from the list"));
                let q = l.qt(&self.vc.clone(), "query_available_to_claim", vec![acct(u).val(), u64v(k as u64)]);
                let a = q.as_ref().ok().and_then(ri);
                l.want("C18", "claimable", a == Some(avail), || format!("user {u}, schedule {k}: {avail} can be claimed, reported are {q:?}"));
            }
        }
        match (l.q(&self.vc.clone(), "query_minter", vec![]), self.minter) {
            (Ok(v), Some((a, c))) => {
                let ok = fa(&v, &["address"]) == Some(acct(a)) && fld(&v, "mint_capacity") == Some(&u128v(c));
                l.want("C19", "minter", ok, || format!("the minter should be {} with {c}: {v:?}", name_of(&acct(a))));
            }
            (Err(_), None) => (),
            (x, y) => l.viol("C19", "minter-query", format!("{x:?} although the minter is {y:?}")),
        }
        let lg = |x: i128| if x <= 0 { -1 } else { 127 - (x as u128).leading_zeros() as i128 };
        let mut d = vec![lg(owed), lg(have), self.minter.map_or(-2, |m| lg(i128::try_from(m.1).unwrap_or(i128::MAX)))];
        for g in self.grants.values().flatten() {
            d.extend([lg(g.left), lg(g.paid)]);
        }
        l.state(&d);
    }

    /// n: for each schedule: recipient, kind, number of points, (time, value)...
    fn parse(&self, s: &Step) -> Vec<(u8, Curve)> {
        let mut out = vec![];
        let mut k = 0;
        while k + 2 < s.n.len() && out.len() < 8 {
            let np = s.n[k + 2].clamp(0, 12) as usize;
            let pts = (0..np).map(|j| (s.arg(k + 3 + 2 * j), s.arg(k + 4 + 2 * j))).collect();
            out.push((s.n[k].clamp(1, 9) as u8, Curve { kind: s.n[k + 1], pts }));
            k += 3 + 2 * np;
        }
        out
    }

    fn create(&mut self, l: &mut Lab, s: &Step) {
        let list = self.parse(s);
        let t0 = l.ch.t0 as i128;
        if list.iter().any(|(u, c)| !self.users.contains(u) || (c.kind == 0 && c.pts.len() != 2) || (c.kind == 2 && c.pts.len() != 1)) {
            return;
        }
        let who = acct(s.who);
        let v = list.iter().map(|(u, c)| st(&[("recipient", acct(*u).val()), ("curve", c.val(t0))])).collect();
        let mut ids: Vec<u8> = list.iter().map(|x| x.0).collect();
        ids.sort();
        ids.dedup();
        let sound = !list.is_empty() && ids.len() == list.len() && list.iter().all(|(_, c)| c.valid(t0) && c.size() < self.max);
        let total: i128 = list.iter().map(|(_, c)| c.pts.first().map_or(0, |p| p.1.max(0))).sum();
        let have = self.bal(ADMIN);
        let vc = self.vc.clone();
        let o = l.act(&who, &vc, "create_vesting_schedules", vec![vecv(v)], &[acct(ADMIN)]);
        if !o.ok() {
            self.after(l, "C22", "create", s.who, &[]);
            if sound && s.who == ADMIN && total <= have && !self.fail && !o.resource() {
                l.want("C17", "create-refused", false, || format!("the admin has {have} and cannot grant {list:?}: {:?}", o.res));
            }
            return;
        }
        l.want("C09", "create-stranger", s.who == ADMIN, || format!("{} created vesting schedules", name_of(&who)));
        if !l.want("C18", "create-invalid", sound, || format!("schedules were accepted: {list:?}")) {
            return;
        }
        for (u, c) in list {
            let a = c.pts[0].1;
            self.grants.entry(u).or_default().push(Grant { curve: c, left: a, paid: 0 });
        }
        let v = self.hold.len() - 1;
        let a = self.h(ADMIN);
        self.after(l, "C17", "create", s.who, &[(a, -total), (v, total)]);
    }

    fn claim(&mut self, l: &mut Lab, u: u8, k: i128) {
        let who = acct(u);
        let now = self.now(l);
        let vc = self.vc.clone();
        let avail = usize::try_from(k).ok().and_then(|k| self.grants.get(&u)?.get(k)).map(|g| g.left - g.curve.locked(now));
        let o = l.act(&who, &vc, "claim", vec![who.val(), u64v(k.max(0) as u64)], &[who.clone()]);
        if !o.ok() {
            self.after(l, "C22", "claim", u, &[]);
            if let Some(a) = avail {
                if a > 0 && !self.fail && !o.resource() {
                    l.want("C18", "claim-refused", false, || format!("user {u} cannot claim {a} of schedule {k}: {:?}", o.res));
                }
            }
            return;
        }
        let Some(a) = avail else {
            l.viol("C18", "claim-nothing", format!("user {u} claimed schedule {k}, which does not exist"));
            return;
        };
        l.want("C18", "claim-empty", a > 0, || format!("user {u} claimed schedule {k} with {a} available"));
        let g = &mut self.grants.get_mut(&u).unwrap()[k as usize];
        g.left -= a;
        g.paid += a;
        let (first, paid, unlocked) = (g.curve.pts[0].1, g.paid, g.curve.pts[0].1 - g.curve.locked(now));
        l.want("C18", "paid", paid == unlocked && paid <= first, || format!("schedule {k} of user {u} paid {paid} of {first} so far, {unlocked} are vested"));
        l.c("probe:claimed");
        let (h, v) = (self.h(u), self.hold.len() - 1);
        self.after(l, "C18", "claim", u, &[(h, a), (v, -a)]);
    }

    fn gen_curve(&self, l: &Lab, r: &mut Rng, max: i128) -> Curve {
        let now = self.now(l);
        let total = r.log(1, max.max(1));
        let base = if self.slow { 40 * 86_400 } else { 5_000 };
        let t = now + r.range(-base / 4, base);
        match r.weighted(&[5, 5, 1]) {
            0 => {
                let d = r.log(1, base * 2);
                Curve { kind: 0, pts: vec![(t, total), (t + d, 0)] }
            }
            1 => {
                let top = self.max as i128 - if r.p(900) { 1 } else { 0 };
                let n = r.range(1, top) as usize;
                let mut v = total;
                let mut x = t;
                let mut pts = vec![];
                for k in 0..n {
                    let y = if k + 1 == n { 0 } else { v };
                    pts.push((x, y));
                    v = match r.weighted(&[3, 1, 1]) {
                        0 => r.range(0, v),
                        1 => v,
                        _ => v - v / 10,
                    };
                    x += r.log(1, base);
                }
                Curve { kind: 1, pts }
            }
            _ => Curve { kind: 2, pts: vec![(0, total)] },
        }
    }
}

impl World for Vest {
    fn gen(&mut self, l: &mut Lab, r: &mut Rng) -> Step {
        let f = l.focus.unwrap_or("");
        let u = *r.pick(&self.users);
        let w: [u32; 9] = match f {
            "C19" => [10, 12, 25, 10, 10, 15, 3, 0, 3],
            "C17" => [25, 35, 4, 4, 2, 2, 10, 6, 4],
            _ => [15, 45, 4, 4, 2, 2, 4, 4, 4],
        };
        if r.p(if f == "C17" || f == "C18" { 8 } else { 2 }) {
            let n = r.range(8, 40);
            return Step::new("flood", ADMIN, vec![u as i128, n, r.log(1, (self.bal(ADMIN) / 20 / n).max(1)), r.log(1, 100_000)]);
        }
        let pick_k = if self.owed() == 0 && r.p(600) { 0 } else { r.weighted(&w) };
        match pick_k {
            0 => {
                let who = if r.p(930) { ADMIN } else { *r.pick(&[ATT, u, MANAGER]) };
                let n = r.range(1, self.users.len() as i128) as usize;
                let mut us = self.users.clone();
                for k in (1..us.len()).rev() {
                    us.swap(k, r.idx(k + 1));
                }
                if r.p(40) {
                    us[0] = us[n - 1];
                }
                if r.p(50) {
                    // a list with somebody twice
                    us = us[..n].to_vec();
                    for _ in 0..r.range(1, 3) {
                        us.push(*r.pick(&us));
                    }
                }
                let n = if us.len() == self.users.len() { n } else { us.len() };
                let mut a = vec![];
                let max = if r.p(940) { self.bal(ADMIN) / 20 / n as i128 } else { self.bal(ADMIN) };
                for x in us.iter().take(n) {
                    let mut c = self.gen_curve(l, r, max);
                    if r.p(70) && !c.pts.is_empty() {
                        // something that is no vesting schedule
                        let k = r.idx(c.pts.len());
                        match r.idx(4) {
                            0 => c.pts[k].1 += r.range(1, 5),
                            1 => {
                                if c.kind == 1 {
                                    c.pts.reverse()
                                } else {
                                    c.pts[k].0 += r.range(-50_000, 50_000)
                                }
                            }
                            2 => c.pts[k].0 = c.pts[0].0,
                            _ => c.pts[k].1 = r.range(0, c.pts[0].1),
                        }
                    }
                    a.extend([*x as i128, c.kind, c.pts.len() as i128]);
                    for p in &c.pts {
                        a.extend([p.0, p.1]);
                    }
                }
                Step::new("create", who, a)
            }
            1 => {
                let n = self.grants.get(&u).map_or(0, |g| g.len()) as i128;
                let k = if r.p(950) { r.range(0, (n - 1).max(0)) } else { r.range(0, n + 2) };
                Step::new("claim", u, vec![k])
            }
            2 => {
                let (who, cap) = self.minter.unwrap_or((MANAGER, 0));
                let cap = i128::try_from(cap).unwrap_or(i128::MAX).min(self.scale * 1_000_000);
                let who = if r.p(850) { who } else { *r.pick(&[ATT, ADMIN, u, MANAGER, OWNER]) };
                let a = match r.weighted(&[6, 2, 1, 1]) {
                    0 => r.log(1, cap.max(1)),
                    1 => cap,
                    2 => cap + 1,
                    _ => r.range(-2, 2),
                };
                Step::new("mint", who, vec![a])
            }
            3 => {
                let b = self.bal(u);
                Step::new("burn", u, vec![match r.weighted(&[6, 1, 1, 1]) { 0 => r.log(1, b.max(1) / 4 + 1), 1 => b, 2 => b + 1, _ => 0 }])
            }
            4 => {
                let who = match self.minter {
                    Some((a, _)) if r.p(750) => a,
                    _ => *r.pick(&[ADMIN, ATT, u, MANAGER, OWNER]),
                };
                Step::new("set_minter", who, vec![*r.pick(&[MANAGER, OWNER, u]) as i128])
            }
            5 => {
                let who = if r.p(800) { ADMIN } else { *r.pick(&[ATT, u, MANAGER, OWNER]) };
                Step::new("capacity", who, vec![match r.weighted(&[10, 2, 2, 1]) { 0 => r.log(1, self.scale * 1000), 1 => 0, 2 => r.range(0, 10), _ => *r.pick(&[-1, -2, i128::MIN, i128::MAX]) }])
            }
            6 => Step::new("donate", u, vec![r.log(1, self.bal(u).max(2) / 4)]),
            7 => Step::new("tokfail", u, vec![r.range(-1, 2)]),
            _ => Step::new("send", u, vec![*r.pick(&self.users) as i128, r.log(1, self.bal(u).max(2) / 2)]),
        }
    }

    fn apply(&mut self, l: &mut Lab, s: &Step) {
        let who = acct(s.who);
        if !self.hold.contains(&who) {
            return;
        }
        let vc = self.vc.clone();
        let v = self.hold.len() - 1;
        let h = self.h(s.who);
        match s.op.as_str() {
            "create" => self.create(l, s),
            // n: user, how many, amount, duration: many schedules of one user
            "flood" => {
                for k in 0..s.arg(1).clamp(0, 40) {
                    let t = self.now(l) + 50 * k;
                    self.create(l, &Step::new("create", ADMIN, vec![s.arg(0), 0, 2, t, s.arg(2) + k, t + s.arg(3).max(1), 0]));
                    if l.stop() {
                        return;
                    }
                }
            }
            "claim" => self.claim(l, s.who, s.arg(0)),
            "mint" => {
                let a = s.arg(0);
                let o = l.act(&who, &vc, "mint", vec![who.val(), i(a)], &[who.clone()]);
                if o.ok() {
                    let ok = matches!(self.minter, Some((m, c)) if m == s.who && a > 0 && a as u128 <= c);
                    l.want("C19", "overmint", ok, || format!("{} minted {a}, the minter and capacity are {:?}", name_of(&who), self.minter));
                    if let Some(m) = &mut self.minter {
                        m.1 = m.1.saturating_sub(a.unsigned_abs());
                    }
                    self.extra += a;
                    l.c("probe:minted");
                    self.after(l, "C19", "mint", s.who, &[(v, a)]);
                } else {
                    if let Some((m, c)) = self.minter {
                        if m == s.who && a > 0 && a as u128 <= c && self.owns && a < i128::MAX / 2 - self.snap[v] && !o.resource() {
                            l.want("C19", "mint-refused", false, || format!("the minter cannot mint {a} of {c}: {:?}", o.res));
                        }
                    }
                    self.after(l, "C22", "mint", s.who, &[]);
                }
            }
            "burn" => {
                let a = s.arg(0).max(0);
                let have = self.bal(s.who);
                let o = l.act(&who, &vc, "burn", vec![who.val(), u128v(a as u128)], &[who.clone()]);
                if o.ok() {
                    l.want("C19", "overburn", a > 0 && a <= have, || format!("{a} of {have} were burnt"));
                    self.after(l, "C19", "burn", s.who, &[(h, -a)]);
                } else {
                    if a > 0 && a <= have && !self.helper && !o.resource() {
                        l.want("C19", "burn-refused", false, || format!("{a} of {have} cannot be burnt: {:?}", o.res));
                    }
                    self.after(l, "C22", "burn", s.who, &[]);
                }
            }
            "set_minter" => {
                let n = s.arg(0).clamp(1, 9) as u8;
                let may = match self.minter {
                    Some((m, _)) => m == s.who,
                    None => s.who == ADMIN,
                };
                let o = l.act(&who, &vc, "update_minter", vec![who.val(), acct(n).val()], &[who.clone()]);
                l.want("C19", "set-minter", o.ok() == may || o.resource(), || format!("update_minter by {} gave {:?}, the minter is {:?}", name_of(&who), o.res, self.minter));
                if o.ok() {
                    l.want("C09", "minter-stranger", may, || format!("{} replaced the minter", name_of(&who)));
                    self.minter = Some((n, self.minter.map_or(0, |m| m.1)));
                }
                self.after(l, "C19", "set_minter", s.who, &[]);
            }
            "capacity" => {
                // a negative number stands for one beyond 127 bits
                let c = s.arg(0) as u128;
                let may = s.who == ADMIN && self.minter.is_some();
                let o = l.act(&who, &vc, "update_minter_capacity", vec![who.val(), u128v(c)], &[acct(ADMIN)]);
                l.want("C19", "set-capacity", o.ok() == may || o.resource(), || format!("update_minter_capacity by {} gave {:?}, the minter is {:?}", name_of(&who), o.res, self.minter));
                if o.ok() {
                    if let Some(m) = &mut self.minter {
                        m.1 = c;
                    }
                }
                self.after(l, "C19", "capacity", s.who, &[]);
            }
            "donate" => {
                let a = s.arg(0);
                let o = l.act(&who, &self.tok.clone(), "transfer", vec![who.val(), vc.val(), i(a)], &[who.clone()]);
                if o.ok() {
                    self.extra += a;
                    self.after(l, "C21", "donate", s.who, &[(h, -a), (v, a)]);
                } else {
                    self.after(l, "C21", "donate", s.who, &[]);
                }
            }
            "send" => {
                let (to, a) = (s.arg(0).clamp(1, 9) as u8, s.arg(1));
                if !self.hold.contains(&acct(to)) {
                    return;
                }
                let t = self.h(to);
                let o = l.act(&who, &self.tok.clone(), "transfer", vec![who.val(), acct(to).val(), i(a)], &[who.clone()]);
                let d = if o.ok() { vec![(h, -a), (t, a)] } else { vec![] };
                self.after(l, "C21", "send", s.who, &d);
            }
            "tokfail" => {
                if self.helper {
                    let x = if s.arg(0) < 0 { ScVal::Void } else { u32v(s.arg(0).min(50) as u32) };
                    if l.ch.tx(&who, &self.tok.clone(), "set_fail", vec![x]).ok() {
                        self.fail = s.arg(0) >= 0;
                        l.c("fault:token_refuses");
                    }
                }
            }
            _ => (),
        }
    }

    fn finish(&mut self, l: &mut Lab) {
        if self.helper {
            let a = self.tok.clone();
            l.ch.tx(&acct(ADMIN), &a, "set_fail", vec![ScVal::Void]);
            self.fail = false;
        }
        let now = self.now(l);
        let end = self.grants.values().flatten().flat_map(|g| g.curve.pts.iter().map(|p| p.0)).max().unwrap_or(0);
        if end > now {
            l.ch.advance(((end - now) / 5 + 1) as u32, (end - now) as u64);
        }
        for u in self.users.clone() {
            for k in 0..self.grants.get(&u).map_or(0, |g| g.len()) {
                if l.stop() {
                    return;
                }
                if self.grants[&u][k].left > 0 {
                    self.claim(l, u, k as i128);
                }
                let g = &self.grants[&u][k];
                let (left, paid, all) = (g.left, g.paid, g.curve.pts[0].1);
                l.want("C18", "all-paid", left == 0 && paid == all, || format!("schedule {k} of user {u} ended with {paid} of {all} paid"));
            }
        }
    }

    fn probes(&mut self, _l: &mut Lab) -> Vec<Probe> {
        let vc = &self.vc;
        let mut v: Vec<Probe> = vec![];
        for f in ["query_token_info", "query_vesting_contract_balance", "query_minter"] {
            v.push((vc.clone(), f, vec![]));
        }
        for u in &self.users {
            v.push((vc.clone(), "query_all_vesting_info", vec![acct(*u).val()]));
            v.push((vc.clone(), "query_balance", vec![acct(*u).val()]));
            for k in 0..self.grants.get(u).map_or(0, |g| g.len()) {
                v.push((vc.clone(), "query_vesting_info", vec![acct(*u).val(), u64v(k as u64)]));
            }
        }
        v
    }

    fn works(&mut self, l: &mut Lab) -> Vec<Work> {
        let vc = &self.vc;
        let mut v = vec![];
        for n in &self.users {
            let u = acct(*n);
            for k in 0..self.grants.get(n).map_or(0, |g| g.len()) {
                v.push(Work::new(&u, vc, "claim", vec![u.val(), u64v(k as u64)]).grows());
            }
            v.push(Work::new(&u, vc, "burn", vec![u.val(), u128v(1)]).see(&self.tok, &u));
        }
        let t0 = l.ch.t0 as i128;
        let c = Curve { kind: 0, pts: vec![(self.now(l), 5), (self.now(l) + 100, 0)] };
        for who in [ADMIN, MANAGER, OWNER, ATT] {
            let u = acct(who);
            let g = vecv(vec![st(&[("recipient", acct(self.users[0]).val()), ("curve", c.val(t0))])]);
            v.push(Work::new(&u, vc, "create_vesting_schedules", vec![g]).see(&self.tok, vc));
            v.push(Work::new(&u, vc, "mint", vec![u.val(), i(1)]).see(&self.tok, vc));
            v.push(Work::new(&u, vc, "update_minter", vec![u.val(), acct(OWNER).val()]));
            v.push(Work::new(&u, vc, "update_minter_capacity", vec![u.val(), u128v(77)]));
        }
        v
    }

    fn targets(&self, l: &mut Lab) -> Vec<Target> {
        let x = acct(ATT);
        let info = st(&[("name", s("x")), ("symbol", s("x")), ("decimals", u32v(7)), ("address", self.tok.val())]);
        let m = st(&[("address", x.val()), ("mint_capacity", u128v(1 << 90))]);
        vec![Target {
            name: "vesting",
            c: self.vc.clone(),
            inits: vec![
                ("initialize", vec![x.val(), info.clone(), u32v(10)]),
                ("initialize_with_minter", vec![x.val(), info.clone(), u32v(10), m.clone()]),
                ("initialize_with_minter", vec![acct(ADMIN).val(), info, u32v(10), m]),
            ],
            upg: Some(("update", vec![bytes(&l.other("vesting", w::VESTING))], acct(ADMIN))),
        }]
    }

    fn hostiles(&mut self, l: &mut Lab, who: &Addr, v: i128) -> Vec<(Addr, &'static str, Vec<ScVal>)> {
        let vc = self.vc.clone();
        let mut out = vec![];
        let t0 = l.ch.t0 as i128;
        let adm = acct(ADMIN);
        if *who != adm {
            let c = Curve { kind: 0, pts: vec![(-5, v.clamp(1, self.scale)), (-1, 0)] };
            out.push((vc.clone(), "create_vesting_schedules", vec![vecv(vec![st(&[("recipient", who.val()), ("curve", c.val(t0))])])]));
            out.push((vc.clone(), "update", vec![bytes(&l.other("vesting", w::VESTING))]));
            for sender in [who, &adm] {
                out.push((vc.clone(), "update_minter_capacity", vec![sender.val(), u128v(1 << 80)]));
                if self.minter.is_none() {
                    out.push((vc.clone(), "update_minter", vec![sender.val(), who.val()]));
                }
            }
            out.push((self.tok.clone(), "mint", vec![who.val(), i(v)]));
        }
        if let Some((m, c)) = self.minter {
            if acct(m) != *who {
                for sender in [acct(m), who.clone(), adm.clone()] {
                    out.push((vc.clone(), "mint", vec![sender.val(), i(v.min(i128::try_from(c).unwrap_or(v)).max(1))]));
                    out.push((vc.clone(), "update_minter", vec![sender.val(), who.val()]));
                }
            }
        }
        for u in &self.users {
            if acct(*u) != *who {
                for k in 0..self.grants.get(u).map_or(0, |g| g.len()) {
                    out.push((vc.clone(), "claim", vec![acct(*u).val(), u64v(k as u64)]));
                }
                out.push((vc.clone(), "burn", vec![acct(*u).val(), u128v(v.clamp(1, self.scale) as u128)]));
                out.push((self.tok.clone(), "transfer", vec![acct(*u).val(), who.val(), i(1)]));
            }
        }
        out.push((self.tok.clone(), "transfer", vec![vc.val(), who.val(), i(1)]));
        out
    }

    fn tick(&self, r: &mut Rng) -> (i128, i128) {
        let secs = match r.weighted(&[3, 5, 2]) {
            0 => r.range(0, 10),
            1 => r.log(1, if self.slow { 20 * 86_400 } else { 4_000 }),
            _ => r.log(1, if self.slow { 80 * 86_400 } else { 20_000 }),
        };
        (secs / 5, secs)
    }
    fn len(&self, r: &mut Rng) -> usize {
        r.range(15, 60) as usize
    }
}
