//! What an observer learns who reads nothing but the contracts' events: C24.
//!
//! Two judges. The *indexer* keeps every balance of every token from `mint`, `transfer` and `burn` events
//! alone and compares with the ledger after each transaction. The *reporter check* matches what pools,
//! stake, rewards, vesting, factory and trader report with the token movements of the same transaction:
//! each operation is reported once, with its party, its assets and its amounts, and nothing moves
//! that is not part of a report. The order of events within a transaction is not judged.
use crate::chain::{Addr, Chain, Event, Outcome};
use crate::sim::{name_of, w, Lab};
use crate::val::*;
use soroban_env_host::xdr::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

#[derive(Default)]
pub struct Ear {
    pub bal: BTreeMap<(Addr, Addr), i128>,
    pub toks: BTreeSet<Addr>,
    pub who: BTreeSet<Addr>,
    /// (stake contract, user): bonded minus unbonded
    pub bonded: BTreeMap<(Addr, Addr), i128>,
}

/// a movement reported by a token
struct Mv {
    tok: Addr,
    from: Option<Addr>,
    to: Option<Addr>,
    amt: i128,
    used: bool,
}

const P: &str = "C24";

impl Lab {
    /// which contract that is, by the code it runs
    pub fn kind(&self, a: &Addr) -> Option<usize> {
        self.code_of(a).and_then(|h| self.hash.iter().position(|x| *x == h)).map(|k| if k >= w::ALT { k - w::ALT } else { k })
    }
    pub fn code_of(&self, a: &Addr) -> Option<[u8; 32]> {
        let k = Rc::new(LedgerKey::ContractData(LedgerKeyContractData {
            contract: a.0.clone(),
            key: ScVal::LedgerKeyContractInstance,
            durability: ContractDataDurability::Persistent,
        }));
        let e = self.ch.entries.get(&k)?;
        if let LedgerEntryData::ContractData(d) = &e.0.data {
            if let ScVal::ContractInstance(ins) = &d.val {
                if let ContractExecutable::Wasm(h) = &ins.executable {
                    return Some(h.0);
                }
            }
        }
        None
    }

    /// the indexer: takes in everything published since it last looked, then compares
    pub fn index_events(&mut self) {
        let heard = std::mem::take(&mut self.ch.heard);
        let mut ear = std::mem::take(&mut self.ear);
        for (c, t, d) in &heard {
            match self.kind(c) {
                Some(w::TOKEN) => {
                    ear.toks.insert(c.clone());
                    let mut add = |a: Option<Addr>, x: i128| {
                        if let Some(a) = a {
                            ear.who.insert(a.clone());
                            *ear.bal.entry((c.clone(), a)).or_insert(0) += x;
                        }
                    };
                    let n = t.first().and_then(rs).unwrap_or_default();
                    let x = ri(d).unwrap_or(0);
                    match n.as_str() {
                        "transfer" => {
                            add(t.get(1).and_then(ra), -x);
                            add(t.get(2).and_then(ra), x);
                        }
                        "mint" => add(t.get(2).and_then(ra), x),
                        "burn" => add(t.get(1).and_then(ra), -x),
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        let pairs: Vec<(Addr, Addr)> = ear.toks.iter().flat_map(|t| ear.who.iter().map(move |h| (t.clone(), h.clone()))).collect();
        for (t, h) in pairs {
            if let Ok(v) = self.q(&t, "balance", vec![h.val()]) {
                let have = ri(&v).unwrap_or(i128::MIN);
                let told = ear.bal.get(&(t.clone(), h.clone())).copied().unwrap_or(0);
                if !self.want(P, "balance", told == have, || {
                    format!("the events of {} add up to {told} for {}, who has {have}", name_of(&t), name_of(&h))
                }) {
                    // said once: go on from what is there
                    ear.bal.insert((t, h), have);
                }
            }
        }
        self.ear = ear;
    }

    /// by how much a balance grew in the operation
    fn gained(&mut self, pre: &mut Chain, tok: &Addr, who: &Addr) -> i128 {
        let old = pre.query(tok, "balance", vec![who.val()], true).ok().as_ref().and_then(ri).unwrap_or(-1);
        self.bal(tok, who) - old
    }

    /// checks the report of one successful operation; `pre`: the ledger before it
    pub fn judge_events(&mut self, pre: &mut Chain, src: &Addr, c: &Addr, f: &str, args: &[ScVal], o: &Outcome) {
        let (mut c, mut f, mut args, mut src) = (c.clone(), f.to_string(), args.to_vec(), src.clone());
        if self.kind(&c) == Some(w::HELPER) && f == "call" && args.len() == 3 {
            let (Some(c2), Some(f2), Some(a2)) = (ra(&args[0]), rs(&args[1]), rv(&args[2])) else { return };
            src = c;
            (c, f, args) = (c2, f2, a2);
        }
        let ev = &o.events;
        let Some(kind) = self.kind(&c) else { return };
        if kind == w::TOKEN {
            return self.judge_token(&src, &c, &f, &args, ev);
        }
        let mut mv: Vec<Mv> = vec![];
        let mut rep: BTreeMap<Addr, BTreeMap<(String, String), Vec<ScVal>>> = BTreeMap::new();
        for (a, t, d) in ev {
            if self.kind(a) == Some(w::TOKEN) {
                let n = t.first().and_then(rs).unwrap_or_default();
                let x = ri(d).unwrap_or(-1);
                let g = |i: usize| t.get(i).and_then(ra);
                let (from, to) = match n.as_str() {
                    "transfer" => (g(1), g(2)),
                    "mint" => (None, g(2)),
                    "burn" => (g(1), None),
                    _ => continue,
                };
                mv.push(Mv { tok: a.clone(), from, to, amt: x, used: x == 0 });
            } else {
                let n = (t.first().and_then(rs).unwrap_or_default(), t.get(1).and_then(rs).unwrap_or_default());
                rep.entry(a.clone()).or_default().entry(n).or_default().push(d.clone());
            }
        }
        let mut helped = false;
        // one fee for each swap may leave its pool; it is not part of the report
        let mut fees: Vec<(Addr, Addr, Addr)> = vec![];
        let addrs: Vec<Addr> = rep.keys().cloned().collect();
        // how many operations of each kind were reported
        let mut count: BTreeMap<(Addr, &'static str), usize> = BTreeMap::new();
        for p in &addrs {
            let k = self.kind(p);
            let r = &rep[p];
            let get = |a: &str, b: &str| r.get(&(a.to_string(), b.to_string())).cloned().unwrap_or_default();
            match k {
                Some(w::POOL) | Some(w::STABLE) => {
                    let cfg = self.q(p, "query_config", vec![]).unwrap_or(ScVal::Void);
                    let (ta, tb, sh) = (fa(&cfg, &["token_a"]), fa(&cfg, &["token_b"]), fa(&cfg, &["share_token"]));
                    let (Some(ta), Some(tb), Some(sh)) = (ta, tb, sh) else { continue };
                    let evil = [&ta, &tb].iter().any(|t| self.kind(t) != Some(w::TOKEN));
                    helped |= evil;
                    let xyk = k == Some(w::POOL);
                    // swaps
                    let mut cols = vec!["sender", "sell_token", "offer_amount", "buy_token", "return_amount", "spread_amount"];
                    if xyk {
                        cols.extend(["actual received amount", "referral_fee_amount"]);
                    }
                    let rows = self.rows(p, "swap", &cols, r);
                    count.insert((p.clone(), "swap"), rows.len());
                    for x in &rows {
                        let (who, sell, buy) = (ra(&x[0]), ra(&x[1]), ra(&x[3]));
                        let (off, ret, spr) = (ri(&x[2]), ri(&x[4]), ri(&x[5]));
                        let sides = (sell.as_ref() == Some(&ta) && buy.as_ref() == Some(&tb)) || (sell.as_ref() == Some(&tb) && buy.as_ref() == Some(&ta));
                        self.want(P, "swap-tokens", sides, || format!("a swap is reported to sell {:?} for {:?}", sell.as_ref().map(name_of), buy.as_ref().map(name_of)));
                        let (Some(who), Some(sell), Some(buy), Some(off), Some(ret), Some(spr)) = (who, sell, buy, off, ret, spr) else {
                            self.viol(P, "swap-types", format!("a swap report holds values of other types: {x:?}"));
                            continue;
                        };
                        if *p == c && f == "swap" {
                            self.want(P, "swap-party", Some(&who) == args[0].addr().as_ref() && Some(&sell) == args[1].addr().as_ref() && Some(off) == ri(&args[2]), || {
                                format!("a swap of {:?} of {:?} is reported as {off} of {} by {}", args[2], args[1], name_of(&sell), name_of(&who))
                            });
                            let got = o.res.as_ref().ok().and_then(ri);
                            self.want(P, "swap-result", got == Some(ret), || format!("a swap returns {got:?} and reports {ret}"));
                            if let Ok(v) = pre.query(p, "simulate_swap", vec![sell.val(), i(off)], true) {
                                let q = fi(&v, &["spread_amount"]);
                                self.want(P, "swap-spread", q == Some(spr), || format!("a swap reports a spread of {spr}, the quote just before said {q:?}"));
                            }
                        }
                        self.want(P, "swap-spread-sign", spr >= 0, || format!("a swap reports a spread of {spr}"));
                        if !evil {
                            self.moved(&mut mv, "swap-offer", &sell, Some(&who), Some(p), off);
                            self.moved(&mut mv, "swap-return", &buy, Some(p), Some(&who), ret);
                            if xyk {
                                self.want(P, "swap-received", ri(&x[6]) == Some(off), || format!("a swap of {off} reports {:?} received", ri(&x[6])));
                            }
                            fees.extend(fa(&cfg, &["fee_recipient"]).map(|x| (p.clone(), buy.clone(), x)));
                        } else if xyk && *p == c && f == "swap" {
                            // tokens that keep a part of what is transferred: what the pool really got
                            let got = self.gained(pre, &sell, p);
                            self.want(P, "swap-received", ri(&x[6]) == Some(got), || format!("a swap of {off} reports {:?} received, it was {got}", ri(&x[6])));
                        }
                        if xyk {
                            self.want(P, "swap-referral", ri(&x[7]) == Some(0), || format!("a swap without referral reports a referral fee of {:?}", ri(&x[7])));
                        }
                    }
                    // deposits
                    let rows = self.rows(p, "provide_liquidity", &["sender", "token_a", "token_a-amount", "token_b", "token_b-amount"], r);
                    count.insert((p.clone(), "provide_liquidity"), rows.len());
                    for x in &rows {
                        let (Some(who), Some(xa), Some(a), Some(xb), Some(b)) = (ra(&x[0]), ra(&x[1]), ri(&x[2]), ra(&x[3]), ri(&x[4])) else {
                            self.viol(P, "deposit-types", format!("a deposit report holds values of other types: {x:?}"));
                            continue;
                        };
                        self.want(P, "deposit-tokens", xa == ta && xb == tb, || format!("a deposit is reported in {} and {}", name_of(&xa), name_of(&xb)));
                        if *p == c {
                            self.want(P, "deposit-party", Some(&who) == args[0].addr().as_ref(), || format!("a deposit of {:?} is reported as one of {}", args[0], name_of(&who)));
                        }
                        if !evil {
                            self.moved(&mut mv, "deposit-a", &xa, Some(&who), Some(p), a);
                            self.moved(&mut mv, "deposit-b", &xb, Some(&who), Some(p), b);
                            // shares are minted to the sender, and once to the pool itself
                            let mine = mv.iter().filter(|m| m.tok == sh && m.from.is_none() && m.to.as_ref() == Some(&who)).count();
                            self.want(P, "deposit-shares", mine == 1, || format!("a deposit minted shares to its sender {mine} times"));
                            for m in mv.iter_mut() {
                                if m.tok == sh && m.from.is_none() && (m.to.as_ref() == Some(&who) || m.to.as_ref() == Some(p)) {
                                    m.used = true;
                                }
                            }
                        } else if *p == c && f == "provide_liquidity" {
                            let got = (self.gained(pre, &xa, p), self.gained(pre, &xb, p));
                            let nominal = [args.get(1), args.get(if xyk { 3 } else { 2 })];
                            if nominal.iter().zip([a, b]).any(|(n, x)| n.and_then(ri).is_some_and(|n| n > x)) {
                                self.c("probe:deposit_of_less_than_sent");
                            }
                            let lost = (-self.gained(pre, &xa, &who), -self.gained(pre, &xb, &who));
                            if lost != got {
                                self.c("probe:deposit_of_less_than_paid");
                                if lost.1 != got.1 {
                                    self.c("probe:deposit_of_less_than_paid_b");
                                }
                            }
                            self.want(P, "deposit-received", got == (a, b), || format!("a deposit reports {a} and {b}, the pool received {got:?}"));
                        }
                    }
                    // withdrawals
                    let rows = self.rows(p, "withdraw_liquidity", &["sender", "shares_amount", "return_amount_a", "return_amount_b"], r);
                    count.insert((p.clone(), "withdraw_liquidity"), rows.len());
                    for x in &rows {
                        let (Some(who), Some(n), Some(a), Some(b)) = (ra(&x[0]), ri(&x[1]), ri(&x[2]), ri(&x[3])) else {
                            self.viol(P, "withdraw-types", format!("a withdrawal report holds values of other types: {x:?}"));
                            continue;
                        };
                        if *p == c {
                            self.want(P, "withdraw-party", Some(&who) == args[0].addr().as_ref() && Some(n) == ri(&args[1]), || {
                                format!("a withdrawal of {:?} shares by {:?} is reported as {n} by {}", args[1], args[0], name_of(&who))
                            });
                            let got = o.res.as_ref().ok().map(|v| (at(v, 0).and_then(|v| ri(&v)), at(v, 1).and_then(|v| ri(&v))));
                            self.want(P, "withdraw-result", got == Some((Some(a), Some(b))), || format!("a withdrawal returns {got:?} and reports {a} and {b}"));
                        }
                        if !evil {
                            self.moved(&mut mv, "withdraw-shares", &sh, Some(&who), Some(p), n);
                            self.moved(&mut mv, "withdraw-burn", &sh, Some(p), None, n);
                            self.moved(&mut mv, "withdraw-a", &ta, Some(p), Some(&who), a);
                            self.moved(&mut mv, "withdraw-b", &tb, Some(p), Some(&who), b);
                        }
                    }
                    for (x, t) in [("XYK LP token_a", &ta), ("XYK LP token_b", &tb)] {
                        for d in get("initialize", x) {
                            self.want(P, "pool-tokens", ra(&d).as_ref() == Some(t), || format!("a new pool reports {x} as {d:?}"));
                        }
                    }
                }
                Some(w::STAKE) => {
                    let lp = self.q(p, "query_config", vec![]).ok().and_then(|v| fa(&v, &["config", "lp_token"]));
                    let Some(lp) = lp else { continue };
                    for bond in [true, false] {
                        let op = if bond { "bond" } else { "unbond" };
                        let rows = self.rows(p, op, &["user", "token", "amount"], r);
                        count.insert((p.clone(), op), rows.len());
                        for x in &rows {
                            let (Some(who), Some(t), Some(n)) = (ra(&x[0]), ra(&x[1]), ri(&x[2])) else {
                                self.viol(P, "bond-types", format!("a {op} report holds values of other types: {x:?}"));
                                continue;
                            };
                            self.want(P, &format!("{op}-token"), t == lp, || format!("a {op} is reported in {}", name_of(&t)));
                            if *p == c {
                                self.want(P, &format!("{op}-party"), Some(&who) == args[0].addr().as_ref() && ri(&args[1]) == Some(n), || {
                                    format!("a {op} of {:?} by {:?} is reported as {n} by {}", args[1], args[0], name_of(&who))
                                });
                            }
                            let (a, b) = if bond { (&who, p) } else { (p, &who) };
                            self.moved(&mut mv, op, &lp, Some(a), Some(b), n);
                            *self.ear.bonded.entry((p.clone(), who.clone())).or_insert(0) += if bond { n } else { -n };
                            let told = self.ear.bonded[&(p.clone(), who.clone())];
                            if let Ok(v) = self.q(p, "query_staked", vec![who.val()]) {
                                let have = fi(&v, &["total_stake"]);
                                self.want(P, "bonded", have == Some(told), || {
                                    format!("the stake contract's events add up to {told} for {}, who has {have:?} staked", name_of(&who))
                                });
                            }
                        }
                    }
                    let users = get("withdraw_rewards", "user");
                    let toks = get("withdraw_rewards", "reward_token");
                    count.insert((p.clone(), "withdraw_rewards"), users.len());
                    for u in &users {
                        let Some(u) = ra(u) else { continue };
                        if *p == c {
                            self.want(P, "claim-party", Some(&u) == args[0].addr().as_ref(), || format!("a claim of {:?} is reported as one of {}", args[0], name_of(&u)));
                        }
                        for t in &toks {
                            let Some(t) = ra(t) else { continue };
                            if self.kind(&t) != Some(w::TOKEN) {
                                helped = true;
                            }
                            // the amount is not part of the report
                            if let Some(m) = mv.iter_mut().find(|m| !m.used && m.tok == t && m.from.as_ref() == Some(p) && m.to.as_ref() == Some(&u)) {
                                m.used = true;
                            }
                        }
                    }
                    for d in get("create_distribution_flow", "asset") {
                        self.want(P, "flow-asset", *p == c && f == "create_distribution_flow" && Some(&d) == args.get(1), || format!("{f} reports the creation of a flow of {d:?}"));
                    }
                    count.insert((p.clone(), "create_distribution_flow"), get("create_distribution_flow", "asset").len());
                    let ds = get("distribute_rewards", "asset");
                    count.insert((p.clone(), "distribute_rewards"), ds.len());
                    for d in ds {
                        self.want(P, "distribute-asset", *p == c && f == "distribute_rewards" && Some(&d) == args.get(2), || format!("{f} reports a distribution of {d:?}"));
                        if let (Some(t), Some(who), Some(n)) = (ra(&d), args.first().and_then(ra), args.get(1).and_then(ri)) {
                            if self.kind(&t) == Some(w::TOKEN) {
                                self.moved(&mut mv, "distribute", &t, Some(&who), Some(p), n);
                            } else {
                                helped = true;
                            }
                        }
                    }
                }
                Some(w::REWARDS) => {
                    for (a, b, op) in [
                        ("stake_rewards", "add_user", "add_user"),
                        ("calculate_bond", "user", "calculate_bond"),
                        ("calculate_unbond", "user", "calculate_unbond"),
                    ] {
                        let us = get(a, b);
                        count.insert((p.clone(), op), us.len());
                        for u in us {
                            self.want(P, &format!("{op}-party"), *p == c && f == op && Some(&u) == args.first(), || format!("{f} reports {a} {b} {u:?}"));
                        }
                    }
                    let us = get("withdraw_rewards", "user");
                    count.insert((p.clone(), "withdraw_rewards"), us.len());
                    let who = args.first().and_then(ra);
                    for u in &us {
                        self.want(P, "claim-party", *p == c && Some(u) == args.first(), || format!("{f} reports a claim by {u:?}"));
                    }
                    let rows = self.rows(p, "withdraw_rewards", &["reward_token", "reward_amount"], r);
                    self.want(P, "claim-count", rows.len() <= us.len(), || format!("{} payouts are reported for {} claims", rows.len(), us.len()));
                    for x in &rows {
                        let (Some(t), Some(n)) = (ra(&x[0]), ri(&x[1])) else { continue };
                        if self.kind(&t) == Some(w::TOKEN) {
                            self.moved(&mut mv, "claim", &t, Some(p), who.as_ref(), n);
                        } else {
                            helped = true;
                        }
                    }
                    let rows = self.rows(p, "distribute_rewards", &["asset", "amount"], r);
                    for x in &rows {
                        if let Some(t) = ra(&x[0]) {
                            let was = pre.query(p, "query_distributed_reward", vec![t.val()], true).ok().and_then(|v| ri(&v));
                            let is = self.q(p, "query_distributed_reward", vec![t.val()]).ok().and_then(|v| ri(&v));
                            if let (Some(was), Some(is), Some(n)) = (was, is, ri(&x[1])) {
                                self.want(P, "distribute-amount", is - was == n, || format!("a distribution reports {n}, the total went from {was} to {is}"));
                            }
                        }
                    }
                    let rows = self.rows(p, "fund_reward_distribution", &["asset", "amount", "start_time", "end_time"], r);
                    count.insert((p.clone(), "fund_distribution"), rows.len());
                    for x in &rows {
                        let want = match (args.first().and_then(ri), args.get(1).and_then(ri), args.get(2).and_then(ri)) {
                            (Some(s), Some(d), Some(n)) => (Some(n), Some(s), Some(s + d)),
                            _ => (None, None, None),
                        };
                        let got = (ri(&x[1]), ri(&x[2]), ri(&x[3]));
                        self.want(P, "fund", *p == c && f == "fund_distribution" && got == want, || format!("{f} of (amount, start, end) {want:?} is reported as {got:?}"));
                        if let Some(t) = ra(&x[0]) {
                            if self.kind(&t) == Some(w::TOKEN) {
                                // whoever pays
                                let n = ri(&x[1]).unwrap_or(-1);
                                let hit = mv.iter_mut().find(|m| !m.used && m.tok == t && m.to.as_ref() == Some(p) && m.amt == n);
                                let ok = hit.is_some() || n == 0;
                                if let Some(m) = hit {
                                    m.used = true;
                                }
                                self.want(P, "fund-moved", ok, || format!("a funding of {n} is reported which did not move"));
                            } else {
                                helped = true;
                            }
                        }
                    }
                }
                Some(w::VESTING) => {
                    let tok = self.q(p, "query_token_info", vec![]).ok().and_then(|v| fa(&v, &["address"]));
                    let Some(tok) = tok else { continue };
                    let evil = self.kind(&tok) != Some(w::TOKEN);
                    helped |= evil;
                    let who = args.first().and_then(ra);
                    let cl = get("Claim", "Claimed tokens: ");
                    count.insert((p.clone(), "claim"), cl.len());
                    for d in cl {
                        if !evil {
                            self.moved(&mut mv, "vesting-claim", &tok, Some(p), who.as_ref(), ri(&d).unwrap_or(-1));
                        }
                    }
                    for (a, b, d, op) in [("Burn", "Burned from: ", "Burned tokens: ", "burn"), ("Mint", "sender: ", "Minted tokens: ", "mint")] {
                        let rows = self.rows(p, a, &[b, d], r);
                        count.insert((p.clone(), op), rows.len());
                        for x in &rows {
                            let n = ri(&x[1]).unwrap_or(-1);
                            self.want(P, &format!("vesting-{op}"), *p == c && f == op && Some(&x[0]) == args.first() && args.get(1).and_then(ri) == Some(n), || {
                                format!("{f} {args:?} is reported as {a} of {n} by {:?}", x[0])
                            });
                            if !evil {
                                if op == "burn" {
                                    self.moved(&mut mv, "vesting-burn", &tok, who.as_ref(), None, n);
                                } else {
                                    self.moved(&mut mv, "vesting-mint", &tok, None, Some(p), n);
                                }
                            }
                        }
                    }
                    for (a, b, op) in [
                        ("Update minter", "Updated minter to: ", "update_minter"),
                        ("Update minter capacity", "Updated minter capacity to: ", "update_minter_capacity"),
                    ] {
                        let ds = get(a, b);
                        count.insert((p.clone(), op), ds.len());
                        for d in ds {
                            self.want(P, &format!("vesting-{op}"), *p == c && f == op && Some(&d) == args.get(1), || format!("{f} {args:?} is reported as {a} {d:?}"));
                        }
                    }
                }
                Some(w::FACTORY) => {
                    let ds = get("create", "liquidity_pool");
                    count.insert((p.clone(), "create_liquidity_pool"), ds.len());
                    for d in ds {
                        self.want(P, "create", *p == c && f == "create_liquidity_pool" && o.res.as_ref().ok() == Some(&d), || format!("{f} reports the creation of {d:?}, it gave {:?}", o.res));
                    }
                }
                Some(w::TRADER) => {
                    let rows = self.rows(p, "Trader: Trade Token", &["user: ", "offer asset: ", "amount received: "], r);
                    count.insert((p.clone(), "trade_token"), rows.len());
                    for x in &rows {
                        self.want(P, "trade-party", *p == c && f == "trade_token" && Some(&x[0]) == args.first() && Some(&x[1]) == args.get(1), || {
                            format!("{f} {:?} of {:?} is reported as one of {:?} by {:?}", args.first(), args.get(1), x[1], x[0])
                        });
                        // what the pool says it paid to the trader
                        let paid: Vec<i128> = rep
                            .values()
                            .flat_map(|r| r.get(&("swap".to_string(), "return_amount".to_string())).cloned().unwrap_or_default())
                            .filter_map(|v| ri(&v))
                            .collect();
                        self.want(P, "trade-received", paid == vec![ri(&x[2]).unwrap_or(-1)], || format!("a trade reports {:?} received, the pools report {paid:?} paid", ri(&x[2])));
                    }
                }
                _ => {}
            }
        }
        // the operation itself was reported, once
        let n = |op: &'static str| count.get(&(c.clone(), op)).copied().unwrap_or(0);
        let once: &[&'static str] = match (kind, f.as_str()) {
            (w::POOL | w::STABLE, "swap") => &["swap"],
            (w::POOL | w::STABLE, "provide_liquidity") => &["provide_liquidity"],
            (w::POOL | w::STABLE, "withdraw_liquidity") => &["withdraw_liquidity"],
            (w::STAKE, "bond") => &["bond"],
            (w::STAKE, "unbond") => &["unbond", "withdraw_rewards"],
            (w::STAKE, "withdraw_rewards") => &["withdraw_rewards"],
            (w::STAKE, "create_distribution_flow") => &["create_distribution_flow"],
            (w::STAKE, "distribute_rewards") => &["distribute_rewards"],
            (w::REWARDS, "add_user") => &["add_user"],
            (w::REWARDS, "calculate_bond") => &["calculate_bond"],
            (w::REWARDS, "calculate_unbond") => &["calculate_unbond"],
            (w::REWARDS, "withdraw_rewards") => &["withdraw_rewards"],
            (w::REWARDS, "fund_distribution") => &["fund_distribution"],
            (w::VESTING, "claim") => &["claim"],
            (w::VESTING, "burn") => &["burn"],
            (w::VESTING, "mint") => &["mint"],
            (w::VESTING, "update_minter") => &["update_minter"],
            (w::VESTING, "update_minter_capacity") => &["update_minter_capacity"],
            (w::FACTORY, "create_liquidity_pool") => &["create_liquidity_pool"],
            (w::TRADER, "trade_token") => &["trade_token"],
            _ => &[],
        };
        for op in once {
            let k = n(op);
            self.want(P, &format!("once-{f}-{op}"), k == 1, || format!("{f} reports {k} times {op}"));
        }
        let swaps: usize = count.iter().filter(|x| x.0 .1 == "swap").map(|x| x.1).sum();
        let others: usize = count
            .iter()
            .filter(|x| !(x.0 .0 == c && once.contains(&x.0 .1)) && x.0 .1 != "swap")
            .map(|x| x.1)
            .sum();
        let expect = match (kind, f.as_str()) {
            (w::POOL | w::STABLE, "swap") => 1,
            (w::TRADER, "trade_token") => 1,
            (w::MULTIHOP, "swap") => args.get(1).and_then(rv).map(|v| v.len()).unwrap_or(0),
            _ => 0,
        };
        self.want(P, &format!("swaps-{f}"), swaps == expect, || format!("{f} is {expect} swaps and reports {swaps}"));
        let inner = kind == w::REWARDS && f == "calculate_unbond" && others == 1 && n("withdraw_rewards") == 1;
        self.want(P, &format!("others-{f}"), others == 0 || inner, || format!("{f} reports something else as well: {count:?}"));
        for (p, t, to) in &fees {
            if let Some(m) = mv.iter_mut().find(|m| !m.used && m.tok == *t && m.from.as_ref() == Some(p) && m.to.as_ref() == Some(to)) {
                m.used = true;
            }
        }
        // movements that no event reports by design
        match (kind, f.as_str()) {
            (w::TRADER, "transfer") | (w::VESTING, "create_vesting_schedules") => {
                for m in mv.iter_mut() {
                    m.used = true;
                }
            }
            _ => {}
        }
        if !helped && kind != w::HELPER {
            if let Some(m) = mv.iter().find(|m| !m.used) {
                let (t, a, b, x) = (name_of(&m.tok), m.from.as_ref().map(name_of), m.to.as_ref().map(name_of), m.amt);
                self.viol(P, &format!("unreported-{f}"), format!("{f} moved {x} of {t} from {a:?} to {b:?}, which it does not report"));
            }
        }
    }

    /// the reports of one kind: one row per report; every column must come equally often
    fn rows(&mut self, p: &Addr, op: &str, cols: &[&str], r: &BTreeMap<(String, String), Vec<ScVal>>) -> Vec<Vec<ScVal>> {
        let v: Vec<Vec<ScVal>> = cols.iter().map(|x| r.get(&(op.to_string(), x.to_string())).cloned().unwrap_or_default()).collect();
        let n = v.iter().map(|x| x.len()).max().unwrap_or(0);
        if n == 0 {
            return vec![];
        }
        let ls: Vec<(&str, usize)> = cols.iter().copied().zip(v.iter().map(|x| x.len())).collect();
        if !self.want(P, &format!("incomplete-{op}"), ls.iter().all(|x| x.1 == n), || format!("{} reports {op} with {ls:?}", name_of(p))) {
            return vec![];
        }
        (0..n).map(|k| v.iter().map(|x| x[k].clone()).collect()).collect()
    }

    fn moved(&mut self, mv: &mut [Mv], what: &str, tok: &Addr, from: Option<&Addr>, to: Option<&Addr>, amt: i128) {
        if amt == 0 {
            return;
        }
        let hit = mv.iter_mut().find(|m| !m.used && m.tok == *tok && m.from.as_ref() == from && m.to.as_ref() == to && m.amt == amt);
        let ok = hit.is_some();
        if let Some(m) = hit {
            m.used = true;
        }
        self.want(P, &format!("reported-{what}"), ok, || {
            format!("{what}: {amt} of {} from {:?} to {:?} is reported, which did not move", name_of(tok), from.map(name_of), to.map(name_of))
        });
    }

    fn judge_token(&mut self, _src: &Addr, c: &Addr, f: &str, args: &[ScVal], ev: &[Event]) {
        let a = |k: usize| args.get(k).cloned().unwrap_or(ScVal::Void);
        // (topics, data); None: an address the call does not name
        let want: Option<(Vec<Option<ScVal>>, ScVal)> = match f {
            "transfer" => Some((vec![Some(sym("transfer")), Some(a(0)), Some(a(1))], a(2))),
            "transfer_from" => Some((vec![Some(sym("transfer")), Some(a(1)), Some(a(2))], a(3))),
            "burn" => Some((vec![Some(sym("burn")), Some(a(0))], a(1))),
            "burn_from" => Some((vec![Some(sym("burn")), Some(a(1))], a(2))),
            "mint" => Some((vec![Some(sym("mint")), None, Some(a(0))], a(1))),
            "approve" => Some((vec![Some(sym("approve")), Some(a(0)), Some(a(1))], vecv(vec![a(2), a(3)]))),
            "set_admin" => Some((vec![Some(sym("set_admin")), None], a(0))),
            _ => None,
        };
        let n = ev.len();
        match want {
            None => {
                self.want(P, &format!("token-{f}"), n == 0, || format!("{f} reports {ev:?}"));
            }
            Some((t, d)) => {
                let ok = n == 1
                    && ev[0].0 == *c
                    && ev[0].1.len() == t.len()
                    && ev[0].1.iter().zip(&t).all(|(x, y)| y.as_ref().map_or(ra(x).is_some(), |y| x == y))
                    && ev[0].2 == d;
                self.want(P, &format!("token-{f}"), ok, || format!("{f} {args:?} is reported as {ev:?}"));
            }
        }
    }
}

trait AsAddr {
    fn addr(&self) -> Option<Addr>;
}
impl AsAddr for ScVal {
    fn addr(&self) -> Option<Addr> {
        ra(self)
    }
}
