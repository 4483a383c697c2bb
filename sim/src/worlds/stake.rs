//! The stake contract: several stakers, a manager and an owner who distribute rewards, strangers.
use crate::chain::*;
use crate::rng::Rng;
use crate::sim::*;
use crate::val::*;
use soroban_env_host::xdr::ScVal;
use std::collections::BTreeMap;

const DAY: u64 = 86_400;

#[derive(Clone, Default)]
struct Pend {
    lo: i128,
    hi: i128,
}

pub struct Stake {
    lp: Addr,
    st: Addr,
    /// reward tokens: ordinary, ordinary, the LP token itself, sometimes more ordinary ones
    rt: Vec<Addr>,
    flows: Vec<bool>,
    flow_order: Vec<usize>,
    min_bond: i128,
    scale: i128,
    rich: bool,
    users: Vec<u8>,
    stakes: BTreeMap<u8, Vec<(i128, u64)>>,
    pend: BTreeMap<(u8, usize), Pend>,
    distributed: Vec<i128>,
    paid: Vec<i128>,
    donated: Vec<i128>,
    /// (token, time) of past distributions, for merged ones
    past: Vec<(usize, u64)>,
    day_rate: u64,
}

/// stakes whose sum goes beyond 64 bits; the rewards stay smaller, their product has to fit 128 bits
const VAST: i128 = 1_000_000_000_000_000_000;

pub fn cfg(r: &mut Rng) -> Vec<i128> {
    // reward tokens besides the usual three
    let more = if r.p(200) { r.range(1, 2) } else { 0 };
    vec![
        r.range(2, 4),
        *r.pick(&[1, 1, 10, 1000]),
        *r.pick(&[1_000, 1_000_000, 10_000_000_000, 1_000_000_000_000_000, 100_000_000_000_000_000, VAST]),
        *r.pick(&[100, 500, 900]),
        if more > 0 && r.p(700) { 31 } else { r.range(0, 31) },
        more,
        // those who run the contract stake too
        if r.p(150) { r.range(1, 7) } else { 0 },
        // rewards beyond 64 bits (of tokens with many decimals)
        r.p(150) as i128,
    ]
}

impl Stake {
    pub fn new(l: &mut Lab, c: &[i128]) -> Option<Stake> {
        let a = acct(ADMIN);
        let lp = l.ch.deploy(&a, &l.hash[w::TOKEN].clone(), 1, vec![a.val(), u32v(7), s("LP share"), s("LPS")]);
        let r1 = l.ch.deploy(&a, &l.hash[w::TOKEN].clone(), 2, vec![a.val(), u32v(7), s("Reward"), s("RWD")]);
        let r2 = l.ch.deploy(&a, &l.hash[w::TOKEN].clone(), 3, vec![a.val(), u32v(6), s("Second"), s("SND")]);
        let st = l.ch.deploy(&a, &l.hash[w::STAKE].clone(), 4, vec![]);
        let min_bond = c[1].max(1);
        l.must("C14", &a, &st, "initialize", vec![a.val(), lp.val(), i(min_bond), i(1), acct(MANAGER).val(), acct(OWNER).val(), u32v(7)])?;
        let mut users: Vec<u8> = USERS[..c[0].clamp(1, 4) as usize].to_vec();
        let more = c.get(6).copied().unwrap_or(0);
        for (k, x) in [OWNER, MANAGER, ADMIN].into_iter().enumerate() {
            if more >> k & 1 == 1 {
                users.push(x);
            }
        }
        let scale = c[2].max(1);
        let mut rt = vec![r1, r2, lp.clone()];
        for k in 0..c.get(5).copied().unwrap_or(0).clamp(0, 2) as u8 {
            rt.push(l.ch.deploy(&a, &l.hash[w::TOKEN].clone(), 5 + k, vec![a.val(), u32v(7), s("More"), s("MOR")]));
        }
        let nr = rt.len();
        let rich = c.get(7) == Some(&1) && scale <= 1_000_000_000_000_000;
        for t in rt.clone().iter() {
            for u in users.iter().filter(|u| USERS.contains(u)).chain(&[MANAGER, OWNER, ATT, ADMIN, FEE]) {
                let amt = if *t == lp { scale * 1000 } else if rich && (*u == MANAGER || *u == OWNER) { 150 * VAST } else { scale * 2000 };
                l.must("C21", &a, t, "mint", vec![acct(*u).val(), i(amt)])?;
            }
        }
        let mut me = Stake {
            lp: lp.clone(),
            st,
            rt,
            flows: vec![false; nr],
            flow_order: vec![],
            min_bond,
            scale,
            rich,
            users,
            stakes: BTreeMap::new(),
            pend: BTreeMap::new(),
            distributed: vec![0; nr],
            paid: vec![0; nr],
            donated: vec![0; nr],
            past: vec![],
            day_rate: c[3] as u64,
        };
        for t in 0..nr {
            if c[4] >> t & 1 == 1 {
                me.flow(l, MANAGER, t as i128);
            }
        }
        Some(me)
    }

    fn rewards(&self) -> i128 {
        self.scale.min(VAST / 1000)
    }

    fn flow(&mut self, l: &mut Lab, who: u8, t: i128) {
        let t = t.unsigned_abs() as usize % self.rt.len();
        let may = who == MANAGER || who == OWNER;
        let o = l.act(&acct(who), &self.st.clone(), "create_distribution_flow", vec![acct(who).val(), self.rt[t].val()], &[acct(who)]);
        if o.ok() {
            l.want("C09", "stranger-flow", may, || format!("{who} created a distribution flow without being manager or owner"));
            l.want("C12", "flow-twice", !self.flows[t], || "a second flow for the same token was accepted, which resets its history".into());
            if !self.flows[t] {
                self.flow_order.push(t);
            }
            self.flows[t] = true;
        } else if may && !self.flows[t] && !o.resource() {
            l.viol("C14", "flow-refused", format!("manager or owner cannot create a distribution flow: {:?}", o.res));
        }
    }

    fn withdrawable(&mut self, l: &mut Lab, u: u8) -> Option<Vec<i128>> {
        let v = match l.qt(&self.st.clone(), "query_withdrawable_rewards", vec![acct(u).val()]) {
            Ok(v) => v,
            Err(e) => {
                l.viol("C14", "withdrawable-query", format!("query_withdrawable_rewards of user {u} fails: {e}"));
                return None;
            }
        };
        let mut out = vec![0i128; self.rt.len()];
        for e in rv(fld(&v, "rewards")?)? {
            let a = fa(&e, &["reward_address"])?;
            let x = fi(&e, &["reward_amount"])?;
            if let Some(t) = self.rt.iter().position(|r| *r == a) {
                out[t] += x;
            }
        }
        Some(out)
    }

    fn total(&self) -> i128 {
        self.stakes.values().flatten().map(|x| x.0).sum()
    }

    fn check(&mut self, l: &mut Lab) {
        let st = self.st.clone();
        // principal
        let total = self.total();
        match l.q(&st, "query_total_staked", vec![]) {
            Ok(v) => {
                let t = ri(&v).unwrap_or(-1);
                l.want("C11", "total", t == total, || format!("query_total_staked is {t}, the stakes sum up to {total}"));
            }
            Err(e) => l.viol("C11", "total-query", e),
        }
        for u in self.users.clone() {
            let v = match l.q(&st, "query_staked", vec![acct(u).val()]) {
                Ok(v) => v,
                Err(e) => {
                    l.viol("C11", "staked-query", e);
                    continue;
                }
            };
            let mut got: Vec<(i128, u64)> = fld(&v, "stakes")
                .and_then(rv)
                .unwrap_or_default()
                .iter()
                .map(|x| (fi(x, &["stake"]).unwrap_or(-1), fi(x, &["stake_timestamp"]).unwrap_or(-1) as u64))
                .collect();
            got.sort();
            let mut exp = self.stakes.get(&u).cloned().unwrap_or_default();
            exp.sort();
            l.want("C11", "stakes", got == exp, || format!("user {u} staked {exp:?}, the contract reports {got:?}"));
            let tt = fi(&v, &["total_stake"]).unwrap_or(-1);
            let es: i128 = exp.iter().map(|x| x.0).sum();
            l.want("C11", "user-total", tt == es, || format!("user {u}: total_stake {tt}, stakes sum up to {es}"));
        }
        let lpb = l.bal(&self.lp.clone(), &st);
        l.want("C11", "backed", lpb >= total, || format!("{total} LP tokens are staked, the contract holds {lpb}"));
        // rewards
        let mut sums = vec![0i128; self.rt.len()];
        for u in self.users.clone() {
            let Some(wv) = self.withdrawable(l, u) else { continue };
            for t in 0..self.rt.len() {
                sums[t] += wv[t];
                let p = self.pend.get(&(u, t)).cloned().unwrap_or_default();
                l.want("C13", "pending", wv[t] >= p.lo && wv[t] <= p.hi, || {
                    format!("user {u} has {} of reward token {t} withdrawable, its stakes earned between {} and {}", wv[t], p.lo, p.hi)
                });
            }
        }
        for t in 0..self.rt.len() {
            let owed = self.paid[t] + sums[t];
            l.want("C12", "overpaid", owed <= self.distributed[t], || {
                format!("reward token {t}: {} paid and {} withdrawable, but only {} distributed", self.paid[t], sums[t], self.distributed[t])
            });
            let b = l.bal(&self.rt[t].clone(), &st);
            let free = b - if t == 2 { total } else { 0 };
            l.want("C12", "funded", free >= sums[t], || format!("reward token {t}: {} withdrawable, {free} there beside the principal", sums[t]));
        }
        l.state(&[total, self.past.len() as i128, self.stakes.values().map(|v| v.len() as i128).sum(), sums[0].signum(), sums[2].signum()]);
    }

    fn earn(&mut self, now: u64, t: usize, amount: i128) {
        let total = self.total();
        let merged = self.past.iter().any(|p| p.0 == t && p.1 + 60 >= now);
        if total > 0 {
            for (u, v) in &self.stakes {
                let mut lo = 0;
                let mut hi = 0;
                for (st, at) in v {
                    let share = big(*st, amount, total);
                    let age = |n: u64| (n.saturating_sub(*at) / DAY).min(60) as i128;
                    // fixed-point multipliers (18 digits) may lose one unit
                    lo += if age(now) == 60 { share - share / 100_000_000_000_000_000 } else { (share * age(now) / 60 - 1 - share / VAST).max(0) };
                    hi += share * age(now + 60) / 60 + if merged { 2 } else { 0 };
                }
                let p = self.pend.entry((*u, t)).or_default();
                p.lo += lo;
                p.hi += hi;
            }
        }
        self.past.push((t, now));
    }

    fn claim(&mut self, l: &mut Lab, u: u8, by: u8) {
        let st = self.st.clone();
        let Some(before) = self.withdrawable(l, u) else { return };
        let b0: Vec<i128> = (0..self.rt.len()).map(|t| l.bal(&self.rt[t].clone(), &acct(u))).collect();
        let o = l.act(&acct(by), &st, "withdraw_rewards", vec![acct(u).val()], &[]);
        if !l.want("C14", "claim", o.ok(), || format!("user {u} cannot claim: {:?}", o.res)) {
            return;
        }
        self.settle(l, u, &before, &b0, 0);
    }

    /// rewards were paid to `u`, plus `lp` principal
    fn settle(&mut self, l: &mut Lab, u: u8, before: &[i128], b0: &[i128], lp: i128) {
        for t in 0..self.rt.len() {
            let got = l.bal(&self.rt[t].clone(), &acct(u)) - b0[t] - if t == 2 { lp } else { 0 };
            l.want("C13", "claim-amount", got == before[t], || {
                format!("user {u} had {} of reward token {t} withdrawable and was paid {got}", before[t])
            });
            self.paid[t] += got;
            self.pend.insert((u, t), Pend::default());
        }
    }
}

impl Stake {
    fn one(&mut self, l: &mut Lab, s: &Step) {
        let st = self.st.clone();
        let who = acct(s.who);
        match s.op.as_str() {
            "bond" => {
                let b0 = l.bal(&self.lp.clone(), &who);
                let o = l.act(&who, &st, "bond", vec![who.val(), i(s.arg(0))], &[who.clone()]);
                let b1 = l.bal(&self.lp.clone(), &who);
                if o.ok() {
                    l.want("C11", "bond-moved", b0 - b1 == s.arg(0), || format!("bond of {} took {}", s.arg(0), b0 - b1));
                    l.want("C11", "bond-minimum", s.arg(0) >= self.min_bond, || format!("a bond of {} was accepted, the minimum is {}", s.arg(0), self.min_bond));
                    let now = l.ch.ts;
                    self.stakes.entry(s.who).or_default().push((s.arg(0), now));
                } else if s.arg(0) >= self.min_bond && s.arg(0) <= b0 {
                    l.want("C14", "bond-refused", false, || format!("bond of {} by a user who has {b0}: {:?}", s.arg(0), o.res));
                }
            }
            "unbond" | "unbond_at" => {
                let mine = self.stakes.get(&s.who).cloned().unwrap_or_default();
                let (amt, at) = if s.op == "unbond" {
                    if mine.is_empty() {
                        return;
                    }
                    mine[s.arg(0).unsigned_abs() as usize % mine.len()]
                } else {
                    (s.arg(0), s.arg(1).max(0) as u64)
                };
                let has = mine.iter().position(|x| *x == (amt, at));
                let Some(before) = self.withdrawable(l, s.who) else { return };
                let b0: Vec<i128> = (0..self.rt.len()).map(|t| l.bal(&self.rt[t].clone(), &who)).collect();
                let o = l.act(&who, &st, "unbond", vec![who.val(), i(amt), u64v(at)], &[who.clone()]);
                if o.ok() {
                    if !l.want("C11", "unbond-foreign", has.is_some(), || format!("user {} unbonded {amt} of {at}, which is not a stake of theirs: {mine:?}", s.who)) {
                        return;
                    }
                    if before.len() == 3 {
                        let got = l.bal(&self.lp.clone(), &who) - b0[2];
                        l.want("C11", "unbond-amount", got >= amt && got <= amt + before[2], || format!("unbonding {amt} with {} LP rewards due paid {got}", before[2]));
                    }
                    self.stakes.get_mut(&s.who).unwrap().remove(has.unwrap());
                    self.settle(l, s.who, &before, &b0, amt);
                } else if has.is_some() {
                    l.want("C14", "unbond-refused", false, || format!("user {} cannot unbond {amt} of {at}: {:?}", s.who, o.res));
                }
            }
            "claim" => {
                let by = s.arg(0).clamp(0, 250) as u8;
                self.claim(l, s.who, by)
            }
            "distribute" => {
                let t = s.arg(0).unsigned_abs() as usize % self.rt.len();
                let amt = s.arg(1);
                let may = s.who == MANAGER || s.who == OWNER;
                let b0 = l.bal(&self.rt[t].clone(), &who);
                let c0 = l.bal(&self.rt[t].clone(), &st);
                let o = l.act(&who, &st, "distribute_rewards", vec![who.val(), i(amt), self.rt[t].val()], &[who.clone()]);
                if o.ok() {
                    l.want("C09", "stranger-distributes", may, || format!("{} distributed rewards", s.who));
                    let c1 = l.bal(&self.rt[t].clone(), &st);
                    l.want("C12", "distribute-moved", c1 - c0 == amt, || format!("distributing {amt} moved {}", c1 - c0));
                    self.distributed[t] += c1 - c0;
                    let now = l.ch.ts;
                    self.earn(now, t, amt);
                } else if may && self.flows[t] && amt > 0 && amt <= b0 {
                    l.want("C14", "distribute-refused", false, || format!("distribution of {amt} refused: {:?}", o.res));
                }
            }
            "flow" => self.flow(l, s.who, s.arg(0)),
            "donate" => {
                let t = s.arg(0).unsigned_abs() as usize % self.rt.len();
                let o = l.act(&who, &self.rt[t].clone(), "transfer", vec![who.val(), st.val(), i(s.arg(1))], &[who.clone()]);
                if o.ok() {
                    self.donated[t] += s.arg(1);
                }
            }
            _ => (),
        }
    }
}

fn big(a: i128, b: i128, c: i128) -> i128 {
    use num_bigint::BigInt;
    let x: BigInt = BigInt::from(a) * BigInt::from(b) / BigInt::from(c);
    x.try_into().unwrap_or(i128::MAX)
}

impl World for Stake {
    fn gen(&mut self, l: &mut Lab, r: &mut Rng) -> Step {
        let u = *r.pick(&self.users);
        let nr = self.rt.len() as i128;
        if r.p(25) {
            let who = *r.pick(&[MANAGER, OWNER]);
            let gap = match r.weighted(&[3, 2, 1]) { 0 => DAY as i128 + r.range(-1, 1), 1 => r.log(1, 1_000_000), _ => 0 };
            // one claim can settle some five thousand pairs of distribution and stake (known finding of C14)
            let most = self.stakes.values().map(|v| v.len()).max().unwrap_or(0) as i128;
            let room = |d: i128, m: i128| (self.past.len() as i128 + d) * (most + m) <= 1500;
            let (d, m) = (if r.p(700) { r.range(5, 60) } else { r.range(60, 150) }, if r.p(750) { r.range(3, 12) } else { r.range(12, 40) });
            if r.p(600) && room(d, 1) {
                return Step::new("season", who, vec![r.range(0, nr - 1), r.log(1, self.rewards()), d, gap, r.range(0, 1)]);
            } else if room(1, m) {
                return Step::new("hoard", u, vec![r.log(self.min_bond, self.scale), m, gap]);
            }
        }
        match r.weighted(&[28, 22, 20, 26, 5, 4]) {
            // the whole stake is as small as it can be
            0 if self.total() == 0 && r.p(150) => Step::new("bond", u, vec![self.min_bond]),
            0 if self.scale == VAST && r.p(300) => Step::new("bond", u, vec![self.scale * r.range(1, 200)]),
            0 => {
                let big = if r.p(900) { 10 } else { 300 };
                let a = if r.p(50) { r.range(-5, self.min_bond - 1) } else { r.log(self.min_bond, self.scale * big) };
                Step::new("bond", u, vec![a])
            }
            1 => {
                if r.p(80) {
                    // a stake that is not there, or another user's
                    let v = *r.pick(&self.users);
                    let (a, t) = self.stakes.get(&v).and_then(|x| x.first().copied()).unwrap_or((self.min_bond, l.ch.ts));
                    let a = if r.p(150) { -a } else if r.p(500) { a + r.range(-1, 1) } else { a };
                    // the right amount of a time at which nothing was staked
                    let t = match r.weighted(&[4, 4, 1, 1]) {
                        0 => t as i128,
                        1 => t as i128 + if r.p(500) { 1 } else { -1 } * r.log(1, 100_000),
                        2 => 0,
                        _ => l.ch.ts as i128,
                    };
                    return Step::new("unbond_at", u, vec![a, t]);
                }
                Step::new("unbond", u, vec![r.range(0, 9)])
            }
            2 => Step::new("claim", u, vec![if r.p(150) { ATT as i128 } else { u as i128 }]),
            3 => {
                let who = if r.p(40) { *r.pick(&[ATT, u, ADMIN, FEE]) } else { *r.pick(&[MANAGER, OWNER]) };
                let amt = if r.p(60) { r.range(-3, 61) } else { r.log(1, self.rewards() * 20) };
                let t = r.range(0, nr - 1);
                let amt = if self.rich && t != 2 && r.p(400) && self.distributed[t as usize] < 100 * VAST { r.range(9 * VAST, 20 * VAST) } else { amt };
                Step::new("distribute", who, vec![t, amt])
            }
            4 => Step::new("flow", *r.pick(&[MANAGER, OWNER, ATT, u]), vec![r.range(0, nr - 1)]),
            _ => Step::new("donate", u, vec![r.range(0, nr - 1), r.log(1, self.scale)]),
        }
    }

    fn apply(&mut self, l: &mut Lab, s: &Step) {
        match s.op.as_str() {
            // n: token, amount, how many, seconds between, one token only
            "season" => {
                for k in 0..s.arg(2).clamp(0, 150) {
                    let gap = s.arg(3).clamp(0, 5_000_000) as u64;
                    l.ch.advance((gap / 5) as u32, gap);
                    // amounts and tokens differ a little
                    self.one(l, &Step::new("distribute", s.who, vec![s.arg(0) + if s.arg(4) == 1 { 0 } else { k / 7 }, s.arg(1) + k]));
                    if l.stop() {
                        return;
                    }
                }
            }
            // n: amount, how many, seconds between
            "hoard" => {
                for k in 0..s.arg(1).clamp(0, 40) {
                    let gap = s.arg(2).clamp(0, 5_000_000) as u64;
                    l.ch.advance((gap / 5) as u32, gap);
                    self.one(l, &Step::new("bond", s.who, vec![s.arg(0) + k / 2]));
                    if l.stop() {
                        return;
                    }
                }
            }
            _ => self.one(l, s),
        }
        if !l.stop() {
            self.check(l);
        }
    }

    fn finish(&mut self, l: &mut Lab) {
        self.check(l);
        // bounded liveness: everybody gets rewards and principal out, in a single transaction per stake
        for u in self.users.clone() {
            if l.stop() {
                return;
            }
            self.claim(l, u, u);
            for _ in 0..self.stakes.get(&u).map_or(0, |v| v.len()) {
                self.apply(l, &Step::new("unbond", u, vec![0]));
                if l.stop() {
                    return;
                }
            }
            let left = self.stakes.get(&u).map_or(0, |v| v.len());
            l.want("C14", "stuck", left == 0, || format!("user {u} still has {left} stakes after unbonding each"));
        }
    }

    fn probes(&mut self, _l: &mut Lab) -> Vec<Probe> {
        let mut v: Vec<Probe> = vec![
            (self.st.clone(), "query_config", vec![]),
            (self.st.clone(), "query_admin", vec![]),
            (self.st.clone(), "query_total_staked", vec![]),
        ];
        for u in &self.users {
            v.push((self.st.clone(), "query_staked", vec![acct(*u).val()]));
            v.push((self.st.clone(), "query_withdrawable_rewards", vec![acct(*u).val()]));
            v.push((self.lp.clone(), "balance", vec![acct(*u).val()]));
            v.push((self.rt[0].clone(), "balance", vec![acct(*u).val()]));
        }
        v.push((self.lp.clone(), "balance", vec![self.st.val()]));
        v
    }

    fn works(&mut self, l: &mut Lab) -> Vec<Work> {
        let mut v = vec![];
        for n in self.users.clone() {
            let u = acct(n);
            let have = l.bal(&self.lp.clone(), &u);
            if have > self.min_bond {
                v.push(Work::new(&u, &self.st, "bond", vec![u.val(), i(self.min_bond)]).see(&self.lp, &u));
                v.push(Work::new(&u, &self.st, "bond", vec![u.val(), i(self.min_bond - 1)]));
            }
            if let Some((a, at)) = self.stakes.get(&n).and_then(|x| x.last()) {
                v.push(Work::new(&u, &self.st, "unbond", vec![u.val(), i(*a), u64v(*at)]).see(&self.lp, &u).see(&self.rt[0], &u));
            }
            v.push(Work::new(&u, &self.st, "withdraw_rewards", vec![u.val()]).see(&self.rt[0], &u).see(&self.rt[1], &u));
        }
        for who in [MANAGER, OWNER, ATT] {
            for t in 0..self.rt.len() {
                v.push(Work::new(&acct(who), &self.st, "distribute_rewards", vec![acct(who).val(), i(7), self.rt[t].val()]).see(&self.rt[t], &self.st));
                v.push(Work::new(&acct(who), &self.st, "create_distribution_flow", vec![acct(who).val(), self.rt[t].val()]));
            }
        }
        v
    }

    fn targets(&self, l: &mut Lab) -> Vec<Target> {
        let x = acct(ATT);
        vec![Target {
            name: "stake",
            c: self.st.clone(),
            inits: vec![("initialize", vec![x.val(), self.rt[0].val(), i(1), i(1), x.val(), x.val(), u32v(7)])],
            upg: Some(("update", vec![bytes(&l.other("stake", w::STAKE))], acct(ADMIN))),
        }]
    }

    fn hostiles(&mut self, l: &mut Lab, who: &Addr, v: i128) -> Vec<(Addr, &'static str, Vec<ScVal>)> {
        let st = self.st.clone();
        let mut out = vec![
            (st.clone(), "create_distribution_flow", vec![who.val(), acct(250).val()]),
            (st.clone(), "create_distribution_flow", vec![acct(MANAGER).val(), acct(250).val()]),
            (st.clone(), "create_distribution_flow", vec![acct(OWNER).val(), acct(250).val()]),
            (st.clone(), "update", vec![bytes(&l.other("stake", w::STAKE))]),
            (st.clone(), "distribute_rewards", vec![acct(MANAGER).val(), i(v), self.rt[0].val()]),
            (st.clone(), "bond", vec![acct(3).val(), i(self.min_bond)]),
        ];
        for k in self.flow_order.iter().rev() {
            out.push((st.clone(), "distribute_rewards", vec![who.val(), i(v), self.rt[*k].val()]));
        }
        if self.flow_order.is_empty() {
            out.push((st.clone(), "distribute_rewards", vec![who.val(), i(v), self.rt[0].val()]));
        }
        for (u, ss) in &self.stakes {
            if acct(*u) != *who {
                for (a, t) in ss {
                    out.push((st.clone(), "unbond", vec![acct(*u).val(), i(*a), u64v(*t)]));
                    if !self.stakes.iter().any(|(k, vv)| acct(*k) == *who && vv.contains(&(*a, *t))) {
                        out.push((st.clone(), "unbond", vec![who.val(), i(*a), u64v(*t)]));
                    }
                }
            }
        }
        if *who == acct(3) {
            out.retain(|x| x.1 != "bond");
        }
        if *who == acct(ADMIN) {
            out.retain(|x| x.1 != "update");
        }
        if [acct(MANAGER), acct(OWNER)].contains(who) {
            out.retain(|x| x.2[0] != who.val());
        }
        out
    }

    fn tick(&self, r: &mut Rng) -> (i128, i128) {
        if r.p(self.day_rate) {
            let secs = match r.weighted(&[4, 3, 1]) {
                0 => DAY as i128 * r.range(1, 20) + r.range(-2, 2),
                1 => r.range(3600, 400_000),
                _ => DAY as i128 * r.range(20, 70),
            };
            (secs / 5, secs)
        } else {
            let k = r.range(1, 30);
            (k, k * 5 + r.range(0, 3))
        }
    }
    fn len(&self, r: &mut Rng) -> usize {
        r.range(15, 60) as usize
    }
}
