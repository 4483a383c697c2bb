//! The stand-alone rewards contract, driven by a staking contract (here a stand-in that passes on
//! what it is told): stakers who come and go, an admin who funds streams that overlap, strangers.
use crate::chain::*;
use crate::refm::b;
use crate::rng::Rng;
use crate::sim::*;
use crate::val::*;
use num_bigint::BigInt;
use soroban_env_host::xdr::ScVal;
use std::collections::{BTreeMap, BTreeSet};

const DAY: i128 = 86_400;
/// fraction bits of the model's accounts
const FRAC: u32 = 64;

#[derive(Clone, Default)]
struct User {
    /// (amount, when)
    stakes: Vec<(i128, u64)>,
    /// accrued so far, with FRAC fraction bits
    acc: BigInt,
    /// how far the contract's rounding may be from it
    tol: i128,
    /// its power and the total at the last distribution
    last: (i128, i128),
    withdrawn: i128,
}

pub struct Rewards {
    tok: Addr,
    rc: Addr,
    staking: Addr,
    helper: bool,
    fail: bool,
    users: Vec<u8>,
    scale: i128,
    min_bond: i128,
    min_reward: i128,
    max: usize,
    u: BTreeMap<u8, User>,
    /// (start, end, amount)
    funds: Vec<(i128, i128, i128)>,
    times: BTreeSet<i128>,
    given: i128,
    dist: i128,
    paid: i128,
    hold: Vec<Addr>,
    snap: Vec<i128>,
    /// power of the largest total so far
    top: i128,
    /// about what one unit of power has earned so far
    ppw: BigInt,
}

pub fn cfg(r: &mut Rng) -> Vec<i128> {
    vec![
        r.range(2, 4),
        *r.pick(&[1, 1000, 5000]),
        *r.pick(&[1, 1000]),
        *r.pick(&[2, 4, 10, 30]),
        *r.pick(&[1_000, 1_000_000, 10_000_000_000, 1_000_000_000_000_000, 1_000_000_000_000_000_000]),
        if r.p(250) { 1 } else { 0 },
        // the admin has a stake too
        if r.p(80) { 1 } else { 0 },
    ]
}

impl Rewards {
    pub fn new(l: &mut Lab, c: &[i128]) -> Option<Rewards> {
        let g = |k: usize| c.get(k).copied().unwrap_or(0);
        let adm = acct(ADMIN);
        let helper = g(5) == 1;
        let tok = if helper {
            l.ch.deploy(&adm, &l.hash[w::HELPER].clone(), 1, vec![adm.val(), u32v(7)])
        } else {
            l.ch.deploy(&adm, &l.hash[w::TOKEN].clone(), 1, vec![adm.val(), u32v(7), s("Reward"), s("RWD")])
        };
        let staking = l.ch.deploy(&adm, &l.hash[w::HELPER].clone(), 2, vec![adm.val(), u32v(7)]);
        let rc = l.ch.deploy(&adm, &l.hash[w::REWARDS].clone(), 3, vec![]);
        let (min_bond, min_reward, max) = (g(1).max(1), g(2).max(1), g(3).clamp(2, 40));
        let args = vec![adm.val(), staking.val(), tok.val(), u32v(max as u32), i(min_reward), i(min_bond)];
        l.must("C16", &adm, &rc, "initialize", args)?;
        let mut users: Vec<u8> = USERS[..g(0).clamp(1, 4) as usize].to_vec();
        if g(6) == 1 {
            users.push(ADMIN);
        }
        let scale = g(4).clamp(1, 1_000_000_000_000_000_000);
        for u in users.iter().filter(|u| **u != ADMIN).chain(&[ADMIN, ATT]) {
            let amt = if *u == ADMIN { scale * 10_000 } else { scale };
            l.must("C21", &adm, &tok, "mint", vec![acct(*u).val(), i(amt)])?;
        }
        let mut hold: Vec<Addr> = users.iter().map(|u| acct(*u)).collect();
        hold.extend([acct(ADMIN), acct(ATT), staking.clone(), rc.clone()].into_iter().filter(|x| !users.iter().any(|u| acct(*u) == *x)).collect::<Vec<_>>());
        let u = users.iter().map(|u| (*u, User::default())).collect();
        let mut me = Rewards {
            tok,
            rc,
            staking,
            helper,
            fail: false,
            users,
            scale,
            min_bond,
            min_reward,
            max: max as usize,
            u,
            funds: vec![],
            times: BTreeSet::new(),
            given: 0,
            dist: 0,
            paid: 0,
            hold,
            snap: vec![],
            top: 0,
            ppw: b(1),
        };
        me.snap = me.take(l);
        Some(me)
    }
    fn take(&self, l: &mut Lab) -> Vec<i128> {
        self.hold.iter().map(|h| l.bal(&self.tok.clone(), h)).collect()
    }
    fn h(&self, n: u8) -> usize {
        self.hold.iter().position(|a| *a == acct(n)).unwrap_or(0)
    }
    fn me(&self) -> usize {
        self.hold.len() - 1
    }
    fn now(&self, l: &Lab) -> i128 {
        (l.ch.ts - l.ch.t0) as i128
    }
    fn power(&self, stake: i128) -> i128 {
        if stake < self.min_bond {
            0
        } else {
            stake / 1000
        }
    }
    fn stake(&self, u: u8) -> i128 {
        self.u.get(&u).map_or(0, |x| x.stakes.iter().map(|s| s.0).sum())
    }
    fn total(&self) -> i128 {
        self.users.iter().map(|u| self.stake(*u)).sum()
    }
    fn locked(&self, t: i128) -> i128 {
        self.funds
            .iter()
            .map(|(s, e, a)| {
                if t <= *s {
                    *a
                } else if t >= *e {
                    0
                } else {
                    *a - crate::refm::muldiv(*a, t - s, e - s)
                }
            })
            .sum()
    }
    fn slack(&self) -> i128 {
        self.funds.len() as i128 + 2
    }
    fn info(&self, stakes: &[(i128, u64)], total: i128) -> ScVal {
        let v = stakes.iter().map(|(a, t)| st(&[("stake", i(*a)), ("stake_timestamp", u64v(*t))])).collect();
        st(&[("stakes", vecv(v)), ("reward_debt", u128v(0)), ("last_reward_time", u64v(0)), ("total_stake", i(total))])
    }
    fn via(&self, l: &mut Lab, src: &Addr, f: &str, args: Vec<ScVal>, need: &[Addr]) -> Outcome {
        let o = l.act(src, &self.staking.clone(), "call", vec![self.rc.val(), sym(f), vecv(args)], need);
        l.c(&format!("{}:{f}", if o.ok() { "ok" } else { "rejected" }));
        o
    }
    /// (weighted days, sixty times the weight) of somebody's stakes
    fn age(&self, l: &Lab, u: u8) -> (i128, i128) {
        let mut ws = 0;
        let mut tw = 0;
        for (a, t) in &self.u[&u].stakes {
            let d = (l.ch.ts.saturating_sub(*t) as i128 / DAY).min(60);
            ws += d * a;
            tw += 60 * a;
        }
        (ws, tw)
    }
    /// everything accrued and not yet withdrawn, as if the stakes were old
    fn full(&self, l: &mut Lab, u: u8) -> Option<i128> {
        let mine = self.info(&[(1, 0)], self.stake(u));
        match l.q(&self.rc.clone(), "query_withdrawable_reward", vec![acct(u).val(), mine]) {
            Ok(v) => fi(&v, &["reward_amount"]),
            Err(e) => {
                if !e.starts_with("Budget") {
                    l.viol("C16", "accrued-query", format!("query_withdrawable_reward of user {u}: {e}"));
                }
                None
            }
        }
    }

    fn after(&mut self, l: &mut Lab, prop: &'static str, op: &str, src: u8, d: &[(usize, i128)]) {
        let now = self.take(l);
        let old = std::mem::replace(&mut self.snap, now.clone());
        let mut exp = old.clone();
        for (k, x) in d {
            exp[*k] += x;
        }
        let bad = (0..exp.len()).find(|k| exp[*k] != now[*k]);
        l.want(prop, &format!("moved-{op}"), bad.is_none(), || {
            let k = bad.unwrap();
            format!("{op}: {} went from {} to {}, expected {}", name_of(&self.hold[k]), old[k], now[k], exp[k])
        });
        for k in 0..exp.len() {
            if now[k] < old[k] && !self.hold[k].is_contract() {
                let mine = self.hold[k] == acct(src);
                l.want("C09", &format!("taken-{op}"), mine, || format!("{op} by {} took {} from {}", name_of(&acct(src)), old[k] - now[k], name_of(&self.hold[k])));
            }
        }
        self.check(l);
    }

    fn read(&self, l: &mut Lab, f: &str) -> Option<i128> {
        match l.q(&self.rc.clone(), f, vec![self.tok.val()]) {
            Ok(v) => ri(&v),
            Err(e) => {
                if !e.starts_with("Budget") {
                    l.viol("C16", "query", format!("{f}: {e}"));
                }
                None
            }
        }
    }

    fn check(&mut self, l: &mut Lab) {
        let have = self.snap[self.me()];
        let (given, paid, dist) = (self.given, self.paid, self.dist);
        l.want("C16", "balance", have == given - paid, || format!("{given} were funded, {paid} paid out, the contract holds {have}"));
        if let Some(d) = self.read(l, "query_distributed_reward") {
            l.want("C16", "distributed", d == dist, || format!("{dist} were distributed, {d} are reported"));
            if let Some(r) = self.read(l, "query_undistributed_reward") {
                l.want("C16", "conserved", d + r == given, || format!("{given} were funded, {d} are reported distributed and {r} not"));
            }
        }
        let mut sum = 0;
        let mut shape = vec![self.funds.len() as i128];
        for u in self.users.clone() {
            let Some(f) = self.full(l, u) else { continue };
            sum += f;
            let x = &self.u[&u];
            let due: BigInt = (x.acc.clone() >> FRAC) - b(x.withdrawn);
            let due: i128 = crate::refm::i(due);
            let tol = x.tol;
            l.want("C16", "accrued", (f - due).abs() <= tol, || format!("user {u} has accrued {due} beyond what was paid, reported are {f}"));
            let stakes = x.stakes.clone();
            let (ws, tw) = self.age(l, u);
            let mine = self.info(&stakes, self.stake(u));
            let q = l.qt(&self.rc.clone(), "query_withdrawable_reward", vec![acct(u).val(), mine]);
            match q {
                Ok(v) => {
                    let r = fi(&v, &["reward_amount"]).unwrap_or(-1);
                    let e = if tw == 0 { 0 } else { crate::refm::muldiv(f, ws, tw) };
                    l.want("C16", "aged", (r - e).abs() <= 1 + f / 100_000_000_000_000_000, || {
                        format!("user {u} has accrued {f}, its stakes count {ws}/{tw}, withdrawable are {r}")
                    });
                }
                Err(e) if e.starts_with("Budget") => (),
                Err(e) => l.viol("C16", "withdrawable-query", format!("query_withdrawable_reward of user {u}: {e}")),
            }
            let lg = |x: i128| if x <= 0 { -1 } else { 127 - (x as u128).leading_zeros() as i128 };
            shape.extend([lg(f), lg(self.stake(u))]);
        }
        l.want("C16", "overdrawn", sum <= dist - paid, || format!("{} are left of what was distributed, users are promised {sum}", dist - paid));
        l.state(&shape);
    }

    fn bond(&mut self, l: &mut Lab, u: u8, a: i128) {
        if !(1..=self.scale * 1_000_000).contains(&a) || self.u[&u].stakes.len() >= 24 {
            return;
        }
        let old = self.stake(u);
        // the contract counts in 128 bits, which huge stakes can exceed after tiny ones earned much
        if &self.ppw * b(self.power(old + a)) > crate::refm::pow10(37) {
            return;
        }
        // and stakes, times sixty days, as 18-digit decimals, which end at about 1.7e20
        if old + a > 2_800_000_000_000_000_000 {
            return;
        }
        let mut st = self.u[&u].stakes.clone();
        st.push((a, l.ch.ts));
        let who = acct(u);
        let o = if old == 0 {
            let info = self.info(&st, a);
            self.via(l, &who, "add_user", vec![who.val(), info], &[])
        } else {
            let info = self.info(&st, old);
            self.via(l, &who, "calculate_bond", vec![who.val(), info], &[])
        };
        if o.ok() {
            self.u.get_mut(&u).unwrap().stakes = st;
        } else if !o.resource() {
            l.viol("C16", "bond-refused", format!("user {u} cannot bond {a} on top of {old}: {:?}", o.res));
        }
        let p = self.power(self.total());
        self.top = self.top.max(p);
        self.after(l, "C16", "bond", u, &[]);
    }

    /// the amount reported as withdrawable
    fn told(&self, l: &mut Lab, u: u8, info: &ScVal) -> Option<i128> {
        let q = l.qt(&self.rc.clone(), "query_withdrawable_reward", vec![acct(u).val(), info.clone()]);
        q.ok().and_then(|v| fi(&v, &["reward_amount"]))
    }

    fn paid_out(&mut self, l: &mut Lab, u: u8, op: &str, f: Option<i128>, told: Option<i128>) {
        let k = self.h(u);
        let now = l.bal(&self.tok.clone(), &acct(u));
        let got = now - self.snap[k];
        let (ws, tw) = self.age(l, u);
        if let Some(f) = f {
            let e = if tw == 0 { 0 } else { crate::refm::muldiv(f, ws, tw) };
            l.want("C16", &format!("paid-{op}"), (got - e).abs() <= 1 + f / 100_000_000_000_000_000 && got <= f, || {
                format!("{op}: user {u} had accrued {f}, its stakes count {ws}/{tw}, it was paid {got}")
            });
        }
        if let Some(t) = told {
            l.want("C16", &format!("told-{op}"), got == t, || format!("{op}: {t} were reported as withdrawable by user {u}, who was paid {got}"));
        }
        if got > 0 {
            l.c("probe:paid");
        }
        self.paid += got;
        self.u.get_mut(&u).unwrap().withdrawn += got;
        let m = self.me();
        // what is left of the stakes is settled by the caller before the accounts are compared
        self.snap[k] += got;
        self.snap[m] -= got;
    }

    fn distribute(&mut self, l: &mut Lab, u: u8) {
        let p = self.power(self.total());
        let now = self.now(l);
        let avail = self.snap[self.me()] - (self.dist - self.paid) - self.locked(now);
        let o = self.via(l, &acct(u), "distribute_rewards", vec![i(self.total())], &[]);
        if !o.ok() {
            if !o.resource() {
                l.viol("C16", "distribute-refused", format!("distribute_rewards with {avail} available for a total stake of {}: {:?}", self.total(), o.res));
            }
            self.after(l, "C22", "distribute", u, &[]);
            return;
        }
        let d = match l.q(&self.rc.clone(), "query_distributed_reward", vec![self.tok.val()]).ok().as_ref().and_then(ri) {
            Some(x) => x - self.dist,
            None => return,
        };
        let sl = self.slack();
        if p == 0 {
            l.want("C16", "distributed-to-nobody", d == 0, || format!("{d} were distributed although nobody has a counting stake"));
        } else {
            l.want("C16", "streamed", (d - avail).abs() <= sl && d >= 0, || format!("{avail} were due for distribution, {d} were distributed"));
            self.ppw += (b(d) << 32) / b(p) + 1;
            for u in &self.users {
                let up = self.power(self.stake(*u));
                let x = self.u.get_mut(u).unwrap();
                x.acc += (b(d) * b(up) << FRAC) / b(p);
                // what one distribution could not divide goes to the next one; it is not lost, but shifts
                // to others when the stakes have changed in between
                if x.last != (up, p) || p >> 63 > 0 {
                    x.tol += 1 + (self.top >> 32) + (up >> 32);
                }
                x.last = (up, p);
            }
            if d > 0 {
                l.c("probe:distributed");
            }
        }
        self.dist += d;
        self.after(l, "C16", "distribute", u, &[]);
    }

    fn fund(&mut self, l: &mut Lab, s: &Step) {
        let (start, dur, amt) = (self.now(l) + s.arg(0), s.arg(1), s.arg(2));
        if l.ch.t0 as i128 + start < 0 || dur < 0 {
            return;
        }
        // rewards are paid as 18-digit decimals, which end at about 1.7e20
        if amt <= self.snap[self.h(ADMIN)] && self.given.saturating_add(amt) > 100_000_000_000_000_000_000 {
            return;
        }
        let now = self.now(l);
        let end = start + dur;
        let over = self.times.iter().next_back().is_some_and(|e| *e < now);
        let mut t2 = if over { BTreeSet::new() } else { self.times.clone() };
        t2.extend([start, end]);
        let have = self.snap[self.h(ADMIN)];
        let sound = start >= now && dur > 0 && amt >= self.min_reward && amt <= have && (over || t2.len() <= self.max);
        let args = vec![u64v((l.ch.t0 as i128 + start) as u64), u64v(dur as u64), i(amt)];
        let o = self.via(l, &acct(s.who), "fund_distribution", args, &[acct(ADMIN)]);
        if !o.ok() {
            if sound && s.who == ADMIN && !self.fail && !o.resource() {
                l.viol("C16", "fund-refused", format!("{amt} from {start} for {dur} s cannot be funded: {:?}", o.res));
            }
            self.after(l, "C22", "fund", s.who, &[]);
            return;
        }
        if !l.want("C16", "fund-unsound", sound, || format!("funding {amt} of {have} from {start} (now {now}) for {dur} s was accepted")) {
            return;
        }
        self.times = t2;
        self.funds.push((start, end, amt));
        self.given += amt;
        let (a, m) = (self.h(ADMIN), self.me());
        self.after(l, "C16", "fund", s.who, &[(a, -amt), (m, amt)]);
    }

    fn withdraw(&mut self, l: &mut Lab, u: u8) -> bool {
        let f = self.full(l, u);
        let info = self.info(&self.u[&u].stakes.clone(), self.stake(u));
        let told = self.told(l, u, &info);
        let who = acct(u);
        let o = self.via(l, &who, "withdraw_rewards", vec![who.val(), info], &[]);
        if o.ok() {
            self.paid_out(l, u, "withdraw", f, told);
            self.after(l, "C16", "withdraw", u, &[]);
        } else {
            if !self.fail && !o.resource() {
                l.viol("C16", "withdraw-refused", format!("user {u} cannot withdraw, accrued are {f:?}: {:?}", o.res));
            }
            self.after(l, "C22", "withdraw", u, &[]);
        }
        o.ok()
    }
}

impl World for Rewards {
    fn gen(&mut self, l: &mut Lab, r: &mut Rng) -> Step {
        let u = *r.pick(&self.users);
        let _ = l;
        if r.p(20) {
            let gap = match r.weighted(&[3, 2, 1]) { 0 => DAY + r.range(-1, 1), 1 => r.log(1, 1_000_000), _ => 0 };
            return if r.p(500) {
                Step::new("hoard", u, vec![r.log(1, self.scale.max(2)), r.range(2, 12), gap])
            } else {
                Step::new("season", u, vec![r.range(3, 25), gap])
            };
        }
        let k = if self.given == 0 && r.p(400) {
            4
        } else if self.total() == 0 && r.p(500) {
            0
        } else { r.weighted(&[16, 8, 25, 20, 8, 3, 2])
        };
        match k {
            0 => {
                let hi = self.scale * *r.pick(&[1, 10, 100]);
                let a = match r.weighted(&[8, 1, 1]) {
                    0 => r.log(1, hi.max(2)),
                    1 => self.min_bond,
                    _ => (self.min_bond - 1).max(1),
                };
                Step::new("bond", u, vec![a])
            }
            1 => Step::new("unbond", u, vec![r.range(0, 7), if r.p(150) { 1 } else { 0 }]),
            2 => Step::new("distribute", if r.p(900) { u } else { ATT }, vec![]),
            3 => Step::new("withdraw", u, vec![]),
            4 => {
                let who = if r.p(930) { ADMIN } else { *r.pick(&[ATT, u]) };
                let have = self.snap[self.h(ADMIN)];
                let dur = match r.weighted(&[12, 6, 2, 1]) {
                    0 => r.log(1, 200 * DAY),
                    1 => r.range(1, 30) * DAY,
                    2 => r.range(0, 20),
                    _ => 0,
                };
                let start = match r.weighted(&[12, 6, 2, 1]) {
                    0 => 0,
                    1 => r.log(1, 60 * DAY),
                    2 => r.range(1, 1 + 2 * dur),
                    _ => -r.range(1, 1000),
                };
                let a = match r.weighted(&[16, 1, 2]) {
                    0 => r.log(1, (have / 10).max(1)),
                    1 => self.min_reward - r.range(0, 1),
                    _ => r.range(1, 2000),
                };
                Step::new("fund", who, vec![start, dur, a])
            }
            5 => Step::new("donate", u, vec![r.log(1, (self.snap[self.h(u)] / 4).max(2))]),
            _ => Step::new("tokfail", u, vec![r.range(-1, 1)]),
        }
    }

    fn apply(&mut self, l: &mut Lab, s: &Step) {
        let known = self.u.contains_key(&s.who);
        match s.op.as_str() {
            "bond" if known => self.bond(l, s.who, s.arg(0)),
            // n: amount, how many, seconds between
            "hoard" if known => {
                for k in 0..s.arg(1).clamp(0, 20) {
                    let gap = s.arg(2).clamp(0, 5_000_000) as u64;
                    l.ch.advance((gap / 5) as u32, gap);
                    self.bond(l, s.who, s.arg(0) + k / 2);
                    if l.stop() {
                        return;
                    }
                }
            }
            // n: how many, seconds between
            "season" if known => {
                for _ in 0..s.arg(0).clamp(0, 40) {
                    let gap = s.arg(1).clamp(0, 5_000_000) as u64;
                    l.ch.advance((gap / 5) as u32, gap);
                    self.distribute(l, s.who);
                    if l.stop() {
                        return;
                    }
                }
            }
            "unbond" if known => {
                let u = s.who;
                let st = self.u[&u].stakes.clone();
                if st.is_empty() {
                    return;
                }
                let k = s.arg(0).unsigned_abs() as usize % st.len();
                let all = s.arg(1) == 1;
                let removed = if all { self.stake(u) } else { st[k].0 };
                let f = self.full(l, u);
                let info = self.info(&st, self.stake(u));
                let told = self.told(l, u, &info);
                let who = acct(u);
                let o = self.via(l, &who, "calculate_unbond", vec![who.val(), info, i(removed)], &[who.clone()]);
                if o.ok() {
                    self.paid_out(l, u, "unbond", f, told);
                    let x = self.u.get_mut(&u).unwrap();
                    if all {
                        x.stakes.clear();
                    } else {
                        x.stakes.remove(k);
                    }
                    self.after(l, "C16", "unbond", u, &[]);
                } else {
                    if !self.fail && !o.resource() {
                        l.viol("C16", "unbond-refused", format!("user {u} cannot unbond {removed}: {:?}", o.res));
                    }
                    self.after(l, "C22", "unbond", u, &[]);
                }
            }
            "distribute" => self.distribute(l, s.who),
            "withdraw" if known => {
                self.withdraw(l, s.who);
            }
            "fund" => self.fund(l, s),
            "donate" if known => {
                let a = s.arg(0);
                let (h, m) = (self.h(s.who), self.me());
                let o = l.act(&acct(s.who), &self.tok.clone(), "transfer", vec![acct(s.who).val(), self.rc.val(), i(a)], &[acct(s.who)]);
                if o.ok() {
                    self.given += a;
                    self.after(l, "C21", "donate", s.who, &[(h, -a), (m, a)]);
                } else {
                    self.after(l, "C21", "donate", s.who, &[]);
                }
            }
            "tokfail" => {
                if self.helper {
                    let x = if s.arg(0) < 0 { ScVal::Void } else { u32v(s.arg(0).min(50) as u32) };
                    if l.ch.tx(&acct(s.who), &self.tok.clone(), "set_fail", vec![x]).ok() {
                        self.fail = s.arg(0) >= 0;
                        l.c("fault:token_refuses");
                    }
                }
            }
            _ => (),
        }
    }

    fn finish(&mut self, l: &mut Lab) {
        if self.helper {
            let a = self.tok.clone();
            l.ch.tx(&acct(ADMIN), &a, "set_fail", vec![ScVal::Void]);
            self.fail = false;
        }
        let now = self.now(l);
        let end = self.funds.iter().map(|f| f.1).max().unwrap_or(0).max(now) + 61 * DAY;
        l.ch.advance(((end - now) / 5) as u32, (end - now) as u64);
        self.distribute(l, self.users[0]);
        let p = self.power(self.total());
        let undistributed = self.given - self.dist;
        if p > 0 {
            l.want("C16", "all-streamed", undistributed == 0, || format!("{undistributed} were never distributed although every stream has ended"));
        }
        for u in self.users.clone() {
            if l.stop() {
                return;
            }
            if self.withdraw(l, u) && self.stake(u) > 0 {
                let f = self.full(l, u).unwrap_or(0);
                l.want("C16", "all-paid", f == 0, || format!("user {u} withdrew with full age, {f} stay behind"));
            }
        }
    }

    fn probes(&mut self, _l: &mut Lab) -> Vec<Probe> {
        let rc = &self.rc;
        let mut v: Vec<Probe> = vec![(rc.clone(), "query_config", vec![]), (rc.clone(), "query_admin", vec![])];
        for f in ["query_distributed_reward", "query_undistributed_reward"] {
            v.push((rc.clone(), f, vec![self.tok.val()]));
        }
        for u in &self.users {
            let mine = self.info(&[(1, 0)], self.stake(*u));
            v.push((rc.clone(), "query_withdrawable_reward", vec![acct(*u).val(), mine]));
            v.push((self.tok.clone(), "balance", vec![acct(*u).val()]));
        }
        v
    }

    fn works(&mut self, l: &mut Lab) -> Vec<Work> {
        let mut v = vec![];
        let via = |u: &Addr, f: &str, args: Vec<ScVal>| Work::new(u, &self.staking, "call", vec![self.rc.val(), sym(f), vecv(args)]).see(&self.tok, &self.rc);
        for n in &self.users {
            let u = acct(*n);
            let x = &self.u[n];
            if x.stakes.is_empty() {
                continue;
            }
            // as if the stakes were of age for long
            let all = self.stake(*n);
            let mine = self.info(&[(all, 0)], all);
            v.push(via(&u, "withdraw_rewards", vec![u.val(), mine.clone()]).see(&self.tok, &u));
            v.push(via(&u, "calculate_unbond", vec![u.val(), mine.clone(), i(x.stakes[0].0)]).see(&self.tok, &u));
            v.push(via(&u, "calculate_bond", vec![u.val(), mine]));
        }
        let now = l.ch.ts;
        for who in [ADMIN, ATT] {
            let args = vec![u64v(now + 200_000_000), u64v(100), i(self.min_reward.max(1_000))];
            v.push(Work::new(&acct(who), &self.rc, "fund_distribution", args).grows());
        }
        v
    }

    fn targets(&self, l: &mut Lab) -> Vec<Target> {
        let x = acct(ATT);
        let init = |a: &Addr, s: &Addr| vec![a.val(), s.val(), self.tok.val(), u32v(10), i(1), i(1)];
        vec![Target {
            name: "rewards",
            c: self.rc.clone(),
            inits: vec![("initialize", init(&x, &x)), ("initialize", init(&acct(ADMIN), &self.staking))],
            upg: Some(("update", vec![bytes(&l.other("rewards", w::REWARDS))], acct(ADMIN))),
        }]
    }

    fn hostiles(&mut self, l: &mut Lab, who: &Addr, v: i128) -> Vec<(Addr, &'static str, Vec<ScVal>)> {
        let rc = self.rc.clone();
        let mut out = vec![];
        let big = self.info(&[(v, 0)], v);
        let now = l.ch.ts;
        for u in self.users.iter().map(|u| acct(*u)).chain([who.clone()]) {
            out.push((rc.clone(), "add_user", vec![u.val(), big.clone()]));
            out.push((rc.clone(), "calculate_bond", vec![u.val(), big.clone()]));
            out.push((rc.clone(), "calculate_unbond", vec![u.val(), big.clone(), i(1)]));
            out.push((rc.clone(), "withdraw_rewards", vec![u.val(), big.clone()]));
        }
        out.push((rc.clone(), "distribute_rewards", vec![i(v.max(self.min_bond))]));
        out.push((rc.clone(), "fund_distribution", vec![u64v(now), u64v(100), i(v.max(self.min_reward))]));
        if *who != acct(ADMIN) {
            out.push((rc.clone(), "update", vec![bytes(&l.other("rewards", w::REWARDS))]));
            // through the staking contract, but without the admin or the staker
            let call = |f: &str, a: Vec<ScVal>| vec![rc.val(), sym(f), vecv(a)];
            out.push((self.staking.clone(), "call", call("fund_distribution", vec![u64v(now), u64v(100), i(self.min_reward)])));
            for u in &self.users {
                let st = self.u[u].stakes.clone();
                if acct(*u) != *who && !st.is_empty() {
                    let info = self.info(&st, self.stake(*u));
                    out.push((self.staking.clone(), "call", call("calculate_unbond", vec![acct(*u).val(), info, i(st[0].0)])));
                }
            }
        }
        out
    }

    fn tick(&self, r: &mut Rng) -> (i128, i128) {
        let secs = match r.weighted(&[2, 4, 4]) {
            0 => r.range(0, 20),
            1 => r.log(1, 5 * DAY),
            _ => r.log(1, 60 * DAY),
        };
        (secs / 5, secs)
    }
    fn len(&self, r: &mut Rng) -> usize {
        r.range(15, 60) as usize
    }
}
