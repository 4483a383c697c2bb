//! Two tokens of the project's own kind: holders (accounts and a contract) that transfer, burn,
//! approve and spend on each other's behalf while ledgers close up to, at and past an expiry.
use crate::chain::*;
use crate::refm::b;
use crate::rng::Rng;
use crate::sim::*;
use crate::val::*;
use soroban_env_host::xdr::ScVal;
use std::collections::BTreeMap;

/// holders 0.. are accounts, the last one is a contract
const ACCTS: [u8; 6] = [2, 3, 4, 5, ADMIN, ATT];

struct Tok {
    c: Addr,
    admin: usize,
    bal: Vec<i128>,
    minted: num_bigint::BigInt,
    burnt: num_bigint::BigInt,
    /// (owner, spender) -> (amount, last ledger)
    allow: BTreeMap<(usize, usize), (i128, i128)>,
}

pub struct Token {
    hold: Vec<Addr>,
    toks: Vec<Tok>,
    near: i128,
}

pub fn cfg(r: &mut Rng) -> Vec<i128> {
    vec![*r.pick(&[0, 7, 18]), *r.pick(&[20, 300, 20_000, 1_000_000]), *r.pick(&[1_000, 1_000_000_000, i128::MAX / 4])]
}

impl Token {
    pub fn new(l: &mut Lab, c: &[i128]) -> Option<Token> {
        let g = |k: usize| c.get(k).copied().unwrap_or(1);
        let adm = acct(ADMIN);
        let proxy = l.ch.deploy(&adm, &l.hash[w::HELPER].clone(), 9, vec![adm.val(), u32v(7)]);
        let mut hold: Vec<Addr> = ACCTS.iter().map(|n| acct(*n)).collect();
        hold.push(proxy);
        let mut toks = vec![];
        for k in 0..2 {
            let dec = if k == 0 { g(0).clamp(0, 18) as u32 } else { 7 };
            let a = l.ch.deploy(&adm, &l.hash[w::TOKEN].clone(), 1 + k as u8, vec![adm.val(), u32v(dec), s("Coin"), s("CN")]);
            let mut t = Tok { c: a, admin: 4, bal: vec![0; hold.len()], minted: b(0), burnt: b(0), allow: BTreeMap::new() };
            for h in 0..hold.len() {
                let x = g(2).max(1);
                l.must("C21", &adm, &t.c, "mint", vec![hold[h].val(), i(x)])?;
                t.bal[h] = x;
                t.minted += x;
            }
            toks.push(t);
        }
        Some(Token { hold, toks, near: g(1).max(2) })
    }

    /// holder `h` calls the token; a contract does so when somebody calls it
    fn by(&self, l: &mut Lab, h: usize, k: usize, f: &str, args: Vec<ScVal>, need: &[usize]) -> Outcome {
        let c = self.toks[k].c.clone();
        let need: Vec<Addr> = need.iter().map(|h| self.hold[*h].clone()).filter(|a| !a.is_contract()).collect();
        if self.hold[h].is_contract() {
            let p = self.hold[h].clone();
            let o = l.act(&acct(FEE), &p, "call", vec![c.val(), sym(f), vecv(args)], &need);
            l.c(&format!("{}:{f}", if o.ok() { "ok" } else { "rejected" }));
            return o;
        }
        l.act(&self.hold[h].clone(), &c, f, args, &need)
    }
    fn live(&self, l: &Lab, k: usize, o: usize, s: usize) -> i128 {
        match self.toks[k].allow.get(&(o, s)) {
            Some((a, e)) if l.ch.seq as i128 <= *e => *a,
            _ => 0,
        }
    }

    fn check(&mut self, l: &mut Lab, op: &str) {
        let mut shape = vec![];
        for k in 0..self.toks.len() {
            let c = self.toks[k].c.clone();
            let mut sum = b(0);
            for h in 0..self.hold.len() {
                let who = self.hold[h].clone();
                let x = l.bal(&c, &who);
                let e = self.toks[k].bal[h];
                l.want("C21", "balance", x == e, || format!("after {op}: {} should hold {e} of token {k}, holds {x}", name_of(&who)));
                sum += x;
            }
            let t = &self.toks[k];
            let exp = &t.minted - &t.burnt;
            l.want("C21", "supply", sum == exp, || format!("after {op}: {exp} were minted and not burnt, balances sum up to {sum}"));
            let keys: Vec<(usize, usize)> = t.allow.keys().copied().collect();
            for (o, s) in keys {
                let e = self.live(l, k, o, s);
                let q = l.qt(&c, "allowance", vec![self.hold[o].val(), self.hold[s].val()]);
                let x = q.as_ref().ok().and_then(ri);
                l.want("C21", "allowance", x == Some(e), || {
                    format!("after {op}: {} may spend {e} of {}, reported {q:?}", name_of(&self.hold[s]), name_of(&self.hold[o]))
                });
                let lg = |x: i128| if x <= 0 { 0 } else { 127 - (x as u128).leading_zeros() as i128 };
                shape.extend([o as i128, s as i128, lg(e)]);
            }
        }
        l.state(&shape);
    }

    fn settle(&mut self, l: &mut Lab, op: &str, o: &Outcome, sound: bool, moves: &[(usize, usize, i128)], why: String) {
        if o.ok() {
            if l.want("C21", &format!("unsound-{op}"), sound, || format!("{op} was accepted: {why}")) {
                for (k, h, d) in moves {
                    self.toks[*k].bal[*h] += d;
                }
            }
        } else if sound && !o.resource() {
            l.viol("C21", &format!("refused-{op}"), format!("{op} was refused: {why}: {:?}", o.res));
        }
        self.check(l, op);
    }
}

impl World for Token {
    fn gen(&mut self, l: &mut Lab, r: &mut Rng) -> Step {
        let n = self.hold.len();
        let k = r.idx(self.toks.len());
        let (mut a, mut c, d) = (r.idx(n), r.idx(n), r.idx(n));
        let op = r.weighted(&[10, 3, 3, 30, 20, 22, 10, 12, 12]);
        if matches!(op, 5 | 7) && r.p(850) {
            let keys: Vec<(usize, usize)> = self.toks[k].allow.keys().copied().collect();
            if !keys.is_empty() {
                (a, c) = *r.pick(&keys);
            }
        }
        let cap = match op {
            5 | 7 => self.live(l, k, a, c).max(1),
            0 => *r.pick(&[1000, self.toks[k].bal[a].max(1)]),
            _ => self.toks[k].bal[a].max(1),
        };
        let x = match r.weighted(&[20, 4, 3, 1, 1, 1]) {
            0 => r.log(1, cap),
            1 => cap,
            2 => cap.saturating_add(1),
            3 => 0,
            4 => -r.range(1, 5),
            _ => i128::MAX - r.range(0, 3),
        };
        let (a, c, d, k) = (a as i128, c as i128, d as i128, k as i128);
        match op {
            0 => {
                let who = if r.p(850) { self.toks[k as usize].admin as i128 } else { c };
                Step::new("mint", 0, vec![k, who, a, x])
            }
            1 => Step::new("set_admin", 0, vec![k, if r.p(800) { self.toks[k as usize].admin as i128 } else { c }, a]),
            2 => Step::new("burn", 0, vec![k, a, x]),
            3 => Step::new("transfer", 0, vec![k, a, if r.p(60) { a } else { c }, x]),
            4 => {
                // an allowance taken back, often of one that is there and with the expiry of the very first ledger
                if r.p(120) {
                    let keys: Vec<(usize, usize)> = self.toks[k as usize].allow.keys().copied().collect();
                    let (a, c) = if keys.is_empty() { (a as usize, c as usize) } else { *r.pick(&keys) };
                    let x = if r.p(800) { 0 } else { r.range(1, 5) };
                    return Step::new("approve", 0, vec![k, a as i128, c as i128, x, -(l.ch.seq as i128) + if r.p(800) { 0 } else { 1 }]);
                }
                // an allowance that is still open is given anew: less, more or nothing, for less or more time
                let open: Vec<(usize, usize)> = self.toks[k as usize].allow.keys().filter(|(o, s)| self.live(l, k as usize, *o, *s) > 0).copied().collect();
                if !open.is_empty() && r.p(250) {
                    let (a, c) = *r.pick(&open);
                    let (y, e) = self.toks[k as usize].allow[&(a, c)];
                    let x = match r.weighted(&[4, 2, 2, 2]) {
                        0 => 0,
                        1 => y,
                        2 => r.log(1, y),
                        _ => y.saturating_add(r.log(1, y)),
                    };
                    let e = e - l.ch.seq as i128 + if r.p(300) { 0 } else { r.log(1, 3000) * if r.p(500) { 1 } else { -1 } };
                    return Step::new("approve", 0, vec![k, a as i128, c as i128, x, e]);
                }
                let e = match r.weighted(&[6, 3, 1, 1, 2]) {
                    0 => r.log(1, self.near),
                    1 => r.range(0, 20),
                    2 => -r.range(1, 5),
                    3 => 0,
                    _ => r.log(1, 3_000_000),
                };
                Step::new("approve", 0, vec![k, a, c, x, e])
            }
            5 => Step::new("transfer_from", 0, vec![k, a, c, d, x]),
            6 => Step::new("until", 0, vec![k, r.range(0, 20), r.range(-1, 1)]),
            7 => Step::new("burn_from", 0, vec![k, a, c, x]),
            _ => Step::new("tick", 0, vec![r.log(1, self.near), r.range(0, 100)]),
        }
    }

    fn apply(&mut self, l: &mut Lab, s: &Step) {
        let n = self.hold.len();
        let k = s.arg(0).unsigned_abs() as usize % self.toks.len();
        let h = |j: usize| s.arg(j).unsigned_abs() as usize % n;
        let seq = l.ch.seq as i128;
        match s.op.as_str() {
            "mint" => {
                let (who, to, x) = (h(1), h(2), s.arg(3));
                let adm = self.toks[k].admin;
                let sound = who == adm && x >= 0 && self.toks[k].bal[to].checked_add(x).is_some();
                let o = self.by(l, who, k, "mint", vec![self.hold[to].val(), i(x)], &[adm]);
                if o.ok() {
                    self.toks[k].minted += x;
                }
                self.settle(l, "mint", &o, sound, &[(k, to, x)], format!("{x} by {}", name_of(&self.hold[who])));
            }
            "set_admin" => {
                let (who, to) = (h(1), h(2));
                let adm = self.toks[k].admin;
                let o = self.by(l, who, k, "set_admin", vec![self.hold[to].val()], &[adm]);
                if o.ok() {
                    self.toks[k].admin = to;
                }
                self.settle(l, "set_admin", &o, who == adm, &[], format!("by {}", name_of(&self.hold[who])));
            }
            "burn" => {
                let (a, x) = (h(1), s.arg(2));
                let have = self.toks[k].bal[a];
                let o = self.by(l, a, k, "burn", vec![self.hold[a].val(), i(x)], &[a]);
                if o.ok() {
                    self.toks[k].burnt += x;
                }
                self.settle(l, "burn", &o, x >= 0 && x <= have, &[(k, a, -x)], format!("{x} of {have}"));
            }
            "transfer" => {
                let (a, c, x) = (h(1), h(2), s.arg(3));
                let have = self.toks[k].bal[a];
                let sound = x >= 0 && x <= have && (a == c || self.toks[k].bal[c].checked_add(x).is_some());
                let o = self.by(l, a, k, "transfer", vec![self.hold[a].val(), self.hold[c].val(), i(x)], &[a]);
                self.settle(l, "transfer", &o, sound, &[(k, a, -x), (k, c, x)], format!("{x} of {have}"));
            }
            "approve" => {
                let (a, c, x, e) = (h(1), h(2), s.arg(3), seq + s.arg(4).min(3_000_000));
                if e < 0 {
                    return;
                }
                let sound = x >= 0 && (x == 0 || e >= seq);
                let args = vec![self.hold[a].val(), self.hold[c].val(), i(x), u32v(e as u32)];
                let o = self.by(l, a, k, "approve", args, &[a]);
                if o.ok() && sound {
                    self.toks[k].allow.insert((a, c), (x, e));
                }
                self.settle(l, "approve", &o, sound, &[], format!("{x} until {e}, now {seq}"));
            }
            "transfer_from" | "burn_from" => {
                let burn = s.op == "burn_from";
                let (a, c) = (h(1), h(2));
                let d = h(3);
                let x = if burn { s.arg(3) } else { s.arg(4) };
                let may = self.live(l, k, a, c);
                let have = self.toks[k].bal[a];
                let room = burn || a == d || (x >= 0 && self.toks[k].bal[d].checked_add(x).is_some());
                let sound = x >= 0 && x <= may && x <= have && room;
                let mut args = vec![self.hold[c].val(), self.hold[a].val()];
                if !burn {
                    args.push(self.hold[d].val());
                }
                args.push(i(x));
                let o = self.by(l, c, k, &s.op, args, &[c]);
                let mut mv = vec![(k, a, -x)];
                if o.ok() && sound {
                    if x > 0 {
                        if let Some(e) = self.toks[k].allow.get_mut(&(a, c)) {
                            e.0 -= x;
                        }
                        l.c("probe:spent");
                    }
                    if burn {
                        self.toks[k].burnt += x;
                    }
                }
                if !burn {
                    mv.push((k, d, x));
                }
                self.settle(l, &s.op, &o, sound, &mv, format!("{x} of an allowance of {may} and a balance of {have}"));
            }
            "until" => {
                let v: Vec<i128> = self.toks[k].allow.values().map(|x| x.1).collect();
                if v.is_empty() {
                    return;
                }
                let e = v[s.arg(1).unsigned_abs() as usize % v.len()] + s.arg(2).clamp(-1, 1);
                if e > seq && e - seq < 200_000 {
                    l.ch.advance((e - seq) as u32, 5 * (e - seq) as u64);
                    l.c("probe:at_expiry");
                }
                self.check(l, "passing ledgers");
            }
            _ => (),
        }
    }

    fn finish(&mut self, l: &mut Lab) {
        // every allowance ends
        let seq = l.ch.seq as i128;
        let e = self.toks.iter().flat_map(|t| t.allow.values().map(|x| x.1)).max().unwrap_or(0);
        if e >= seq {
            l.ch.advance((e + 1 - seq) as u32, 5 * (e + 1 - seq) as u64);
        }
        self.check(l, "the last expiry");
        for k in 0..self.toks.len() {
            let keys: Vec<(usize, usize)> = self.toks[k].allow.keys().copied().collect();
            for (a, c) in keys.into_iter().take(4) {
                let s = Step::new("transfer_from", 0, vec![k as i128, a as i128, c as i128, c as i128, 1]);
                self.apply(l, &s);
            }
            for a in 0..self.hold.len() {
                let x = self.toks[k].bal[a];
                let s = Step::new("burn", 0, vec![k as i128, a as i128, x]);
                self.apply(l, &s);
            }
        }
    }

    fn probes(&mut self, _l: &mut Lab) -> Vec<Probe> {
        let mut v: Vec<Probe> = vec![];
        for t in &self.toks {
            for f in ["decimals", "name", "symbol"] {
                v.push((t.c.clone(), f, vec![]));
            }
            for h in &self.hold {
                v.push((t.c.clone(), "balance", vec![h.val()]));
            }
        }
        v
    }
    fn works(&mut self, _l: &mut Lab) -> Vec<Work> {
        let mut v = vec![];
        for t in &self.toks {
            for (k, h) in self.hold.iter().enumerate() {
                if h.is_contract() {
                    continue;
                }
                let to = &self.hold[(k + 1) % self.hold.len()];
                v.push(Work::new(h, &t.c, "transfer", vec![h.val(), to.val(), i(1)]).see(&t.c, h));
                v.push(Work::new(h, &t.c, "burn", vec![h.val(), i(1)]).see(&t.c, h));
                v.push(Work::new(h, &t.c, "mint", vec![h.val(), i(1)]).see(&t.c, h));
                v.push(Work::new(h, &t.c, "set_admin", vec![h.val()]));
            }
        }
        v
    }

    fn targets(&self, _l: &mut Lab) -> Vec<Target> {
        let args = vec![acct(ATT).val(), u32v(7), s("x"), s("x")];
        self.toks
            .iter()
            .map(|t| Target { name: "token", c: t.c.clone(), inits: vec![("__constructor", args.clone()), ("initialize", args.clone())], upg: None })
            .collect()
    }
    fn hostiles(&mut self, l: &mut Lab, who: &Addr, v: i128) -> Vec<(Addr, &'static str, Vec<ScVal>)> {
        let mut out = vec![];
        let Some(me) = self.hold.iter().position(|a| a == who) else { return out };
        for k in 0..self.toks.len() {
            let t = &self.toks[k];
            let c = &t.c;
            for h in 0..self.hold.len() - 1 {
                if h == me || t.bal[h] == 0 {
                    continue;
                }
                let x = v.clamp(1, t.bal[h]);
                let o = self.hold[h].val();
                out.push((c.clone(), "transfer", vec![o.clone(), who.val(), i(x)]));
                out.push((c.clone(), "burn", vec![o.clone(), i(x)]));
                out.push((c.clone(), "approve", vec![o.clone(), who.val(), i(x), u32v(l.ch.seq + 100)]));
                if self.live(l, k, h, me) < x {
                    out.push((c.clone(), "transfer_from", vec![who.val(), o.clone(), who.val(), i(x)]));
                    out.push((c.clone(), "burn_from", vec![who.val(), o.clone(), i(x)]));
                }
                for s in 0..self.hold.len() - 1 {
                    if s != me && self.live(l, k, h, s) > 0 {
                        out.push((c.clone(), "transfer_from", vec![self.hold[s].val(), o.clone(), who.val(), i(1)]));
                    }
                }
            }
            if t.admin != me {
                out.push((c.clone(), "mint", vec![who.val(), i(v)]));
                out.push((c.clone(), "set_admin", vec![who.val()]));
            }
        }
        out
    }
    fn tick(&self, r: &mut Rng) -> (i128, i128) {
        let n = r.log(1, self.near);
        (n, n * 5)
    }
    fn tick_rate(&self) -> u64 {
        200
    }
    fn len(&self, r: &mut Rng) -> usize {
        r.range(20, 80) as usize
    }
}
