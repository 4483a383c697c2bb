//! Factory, constant-product and stable pools, multihop and trader: traders, liquidity providers,
//! an admin who changes configurations, tokens that charge fees or refuse transfers, strangers.
use crate::chain::*;
use crate::refm::{self, b, muldiv, pow10};
use crate::rng::Rng;
use crate::sim::*;
use crate::val::*;
use num_bigint::BigInt;
use soroban_env_host::xdr::ScVal;
use std::collections::BTreeSet;

const ONE18: i128 = 1_000_000_000_000_000_000;
/// relative imprecision granted to the stable curve's fixed-point solver
const FUZZ: i128 = 1_000_000_000;

struct Tok {
    a: Addr,
    dec: u32,
    helper: bool,
    fee: i128,
    /// transfers until one is refused
    fail: bool,
}
#[derive(Clone)]
struct Pool {
    a: usize,
    b: usize,
    stable: bool,
    amp: i128,
    addr: Addr,
    lp: Addr,
    stake: Addr,
    admin: u8,
    fee: i128,
    rec: u8,
    slip: i128,
    dslip: i128,
    spread: i128,
    referral: i128,
    /// a reserve fell to nothing: no statement about value holds any more
    drained: bool,
}
impl Pool {
    fn tok(&self, dir: i128) -> (usize, usize) {
        if dir & 1 == 0 { (self.a, self.b) } else { (self.b, self.a) }
    }
}
#[derive(Clone, PartialEq, Debug)]
struct Snap {
    /// asset (tokens, then LP tokens) x holder
    bal: Vec<Vec<i128>>,
    /// reserve a, reserve b, LP supply
    res: Vec<[i128; 3]>,
}
struct Move {
    asset: usize,
    from: Option<usize>,
    to: Option<usize>,
    amt: i128,
}

pub struct Dex {
    tok: Vec<Tok>,
    pool: Vec<Pool>,
    hold: Vec<Addr>,
    fac: Addr,
    mh: Addr,
    trader: Option<(Addr, usize, usize, usize)>,
    users: Vec<u8>,
    white: BTreeSet<u8>,
    /// hashes the factory deploys: pool, stake, token, stable
    hashes: [usize; 4],
    recoded: bool,
    scale: i128,
    /// the decimals of share tokens, as the factory was told
    lpdec: u32,
    amp: i128,
    lim: [i128; 4],
    /// evaluate LP value by the swap curve too (recorded known finding only)
    strict_lp: bool,
    tokfail: u64,
    snap: Snap,
}

const NAMES: [(&str, &str); 10] = [
    ("pool0", "stake0"),
    ("pool1", "stake1"),
    ("pool2", "stake2"),
    ("pool3", "stake3"),
    ("pool4", "stake4"),
    ("pool5", "stake5"),
    ("pool6", "stake6"),
    ("pool7", "stake7"),
    ("pool8", "stake8"),
    ("pool9", "stake9"),
];

pub fn cfg(focus: Option<&str>, r: &mut Rng) -> Vec<i128> {
    let f = focus.unwrap_or("");
    let nt = match f {
        "C05" | "C07" => r.range(3, 4),
        "C08" => r.range(2, 4),
        "C02" | "C03" | "C06" | "C15" => r.range(2, 3),
        _ => r.range(2, 4),
    };
    let helper = match f {
        "C01" | "C07" | "C22" => r.range(0, 15),
        "C24" => if r.p(500) { r.range(0, 15) } else { 0 },
        _ => if r.p(300) { r.range(0, 15) } else { 0 },
    };
    let mut types = 0;
    let one = match f {
        "C03" => Some(1),
        "C06" => Some(2),
        _ => if r.p(500) { Some(r.range(1, 2)) } else { None },
    };
    for k in 0..6 {
        let t = match one {
            Some(t) => if r.p(if f == "C08" { 300 } else { 850 }) { t } else { 0 },
            None => r.range(0, 2),
        };
        types += t * 3i128.pow(k);
    }
    // a crowd of pools
    let nt = if f == "C08" && r.p(120) || f == "C07" && r.p(60) {
        for k in 6..10 {
            types += r.range(0, 2).max(r.range(0, 2)) * 3i128.pow(k);
        }
        5
    } else {
        nt
    };
    if types % 3 == 0 && f != "C08" {
        types += one.unwrap_or(1);
    }
    let mut v = vec![
        nt,
        helper,
        types,
        *r.pick(&[0, 0, 1, 30, 30, 100, 1000, 5000]),
        *r.pick(&[100, 500, 5000, 10000]),
        *r.pick(&[1, 50, 100, 500]),
        *r.pick(&[100, 500, 2000, 9000, 10000]),
        *r.pick(&[1, 2, 10, 85, 100, 500, 2000, 1_000_000]),
        0,
        if f == "C20" || r.p(if f == "C10" { 600 } else { 250 }) { 1 } else { 0 },
        r.range(2, 3),
        0,
    ];
    // sums beyond 64 bits; the stable pools' solver ends at two billion tokens at the highest amplification
    v[8] = if r.p(if f == "C02" { 200 } else { 120 }) { if v[7] > 10_000 { 50_000_000 } else { 1_000_000_000 } } else { *r.pick(&[1, 100, 10_000, 1_000_000, 5_000_000]) };
    if f == "C04" && r.p(60) {
        // nothing is left of what a swap gives
        v[3] = 10_000 - r.range(0, 1);
    }
    // trades whose amounts need the last bit of 64
    let wide = f == "C20" && r.p(100);
    if wide {
        v[3] = v[3].min(100);
        v[6] = 10_000;
        v[7] = v[7].min(2000);
        v[8] = 5_000_000_000;
    }
    let same = r.p(if v[8] == 1_000_000_000 { 700 } else { 300 });
    for k in 0..nt.max(4) {
        let d = if wide { r.range(10, 12) } else if same && k > 0 { v[12] } else if r.p(700) { r.range(5, 9) } else { r.range(0, 12) };
        v.push(d);
    }
    v.resize(18, 0);
    v.push(*r.pick(&[7, 7, 7, 0, 6, 9, 12, 18]));
    v
}

/// a deadline of zero, which is always over
const LONG_AGO: i128 = -7;
/// the latest deadline there is
const FOREVER: i128 = -8;
/// -1: none; NEG - n: the value -n - 1
const NEG: i128 = -1000;
fn o(x: i128) -> Option<i128> {
    if x <= NEG {
        Some(x - NEG - 1)
    } else if x < 0 {
        None
    } else {
        Some(x)
    }
}
fn oi64(x: i128) -> ScVal {
    ou(o(x), |v| i64v(v as i64))
}
fn ou64(x: i128) -> ScVal {
    ou(o(x), |v| u64v(v.min(u64::MAX as i128) as u64))
}

impl Dex {
    pub fn new(l: &mut Lab, c: &[i128]) -> Option<Dex> {
        let g = |k: usize| c.get(k).copied().unwrap_or(0);
        let adm = acct(ADMIN);
        let nt = g(0).clamp(2, 5) as usize;
        // no more of a token than 128 bits leave room for beside 18 decimals
        let most = (0..nt).map(|k| g(12 + k).clamp(0, 12)).max().unwrap() as u32;
        let wide = g(8) > 1_000_000_000;
        let lpdec = c.get(18).map_or(7, |x| (*x).clamp(0, 18) as u32);
        let scale = g(8).clamp(1, 26_000_000_000_000_000_000 / 40 / 10i128.pow(most));
        let mut tok = vec![];
        for k in 0..nt {
            let dec = g(12 + k).clamp(0, 12) as u32;
            let helper = g(1) >> k & 1 == 1;
            let a = if helper {
                l.ch.deploy(&adm, &l.hash[w::HELPER].clone(), 10 + k as u8, vec![adm.val(), u32v(dec)])
            } else {
                l.ch.deploy(&adm, &l.hash[w::TOKEN].clone(), 10 + k as u8, vec![adm.val(), u32v(dec), s("Token"), s(&format!("TK{k}"))])
            };
            tok.push(Tok { a, dec, helper, fee: 0, fail: false });
        }
        tok.sort_by(|x, y| x.a.cmp(&y.a));
        let users: Vec<u8> = USERS[..g(10).clamp(1, 4) as usize].to_vec();
        for t in &tok {
            let amt = scale * 40 * 10i128.pow(t.dec);
            for u in users.iter().chain(&[ATT]) {
                l.must("C21", &adm, &t.a, "mint", vec![acct(*u).val(), i(amt)])?;
            }
        }
        let fac = l.ch.deploy(&adm, &l.hash[w::FACTORY].clone(), 20, vec![]);
        let h = |l: &Lab, k: usize| bytes(&l.hash[k]);
        let args = vec![
            adm.val(),
            h(l, w::MULTIHOP),
            h(l, w::POOL),
            h(l, w::STABLE),
            h(l, w::STAKE),
            h(l, w::TOKEN),
            vecv(vec![adm.val(), acct(OWNER).val()]),
            u32v(lpdec),
        ];
        l.must("C08", &adm, &fac, "initialize", args)?;
        let fc = match l.q(&fac, "get_config", vec![]) {
            Ok(v) => v,
            Err(e) => {
                l.viol("C08", "config", e);
                return None;
            }
        };
        let mh = fa(&fc, &["multihop_address"])?;
        let mut hold: Vec<Addr> = users.iter().map(|u| acct(*u)).collect();
        for x in [ADMIN, MANAGER, ATT, FEE, OWNER] {
            hold.push(acct(x));
        }
        hold.push(mh.clone());
        hold.push(fac.clone());
        let mut me = Dex {
            tok,
            pool: vec![],
            hold,
            fac,
            mh,
            trader: None,
            users,
            white: [ADMIN, OWNER].into(),
            hashes: [w::POOL, w::STAKE, w::TOKEN, w::STABLE],
            recoded: false,
            scale: if wide { scale * 10 } else { scale },
            amp: g(7).clamp(1, 1_000_000),
            lim: [g(3), g(4), g(5), g(6)],
            strict_lp: g(11) == 1,
            lpdec,
            tokfail: if g(1) > 0 { 40 } else { 0 },
            snap: Snap { bal: vec![], res: vec![] },
        };
        if g(9) == 1 {
            let t = l.ch.deploy(&adm, &l.hash[w::TRADER].clone(), 21, vec![]);
            let out = if nt > 2 { 2 } else { 1 };
            let args = vec![adm.val(), s("trader"), vecv(vec![me.tok[0].a.val(), me.tok[1].a.val()]), me.tok[out].a.val()];
            l.must("C20", &adm, &t, "initialize", args)?;
            for k in 0..nt.min(2) {
                let amt = if wide { 25_000_000_000_000_000_000 } else { scale * 5 * 10i128.pow(me.tok[k].dec) };
                l.must("C21", &adm, &me.tok[k].a.clone(), "mint", vec![t.val(), i(amt)])?;
            }
            me.hold.push(t.clone());
            me.trader = Some((t, 0, 1, out));
        }
        me.snap = me.take(l);
        let mut k = 0;
        for x in 0..nt {
            for y in x + 1..nt {
                let t = g(2) / 3i128.pow(k) % 3;
                k += 1;
                if t > 0 {
                    let st = me.create_step(ADMIN, x as i128, y as i128, t - 1);
                    me.create(l, &st);
                    if l.stop() {
                        return None;
                    }
                }
            }
        }
        Some(me)
    }

    fn create_step(&self, who: u8, x: i128, y: i128, t: i128) -> Step {
        let [fee, slip, dslip, spread] = self.lim;
        Step::new(
            "create",
            who,
            vec![x, y, t, fee, 10_000, slip, spread, 500, dslip, if t == 1 { self.amp } else { -1 }, 1, 1, ADMIN as i128, FEE as i128],
        )
    }

    fn hidx(&self, a: &Addr) -> Option<usize> {
        self.hold.iter().position(|x| x == a)
    }
    fn uidx(&self, n: u8) -> usize {
        self.hidx(&acct(n)).unwrap_or(0)
    }

    fn take(&mut self, l: &mut Lab) -> Snap {
        let mut bal = vec![];
        for k in 0..self.tok.len() + self.pool.len() {
            let a = if k < self.tok.len() { self.tok[k].a.clone() } else { self.pool[k - self.tok.len()].lp.clone() };
            let mut row = vec![];
            for h in &self.hold {
                row.push(l.bal(&a, h));
            }
            bal.push(row);
        }
        let mut res = vec![];
        for p in self.pool.clone() {
            res.push(self.reserves(l, &p));
        }
        Snap { bal, res }
    }
    fn reserves(&self, l: &mut Lab, p: &Pool) -> [i128; 3] {
        match l.q(&p.addr, "query_pool_info", vec![]) {
            Ok(v) => [
                fi(&v, &["asset_a", "amount"]).unwrap_or(-1),
                fi(&v, &["asset_b", "amount"]).unwrap_or(-1),
                fi(&v, &["asset_lp_share", "amount"]).unwrap_or(-1),
            ],
            Err(e) => {
                l.viol("C01", "pool-info", format!("query_pool_info fails: {e}"));
                [-1, -1, -1]
            }
        }
    }

    /// what holds after every operation; `dep`: a deposit into that pool may have credited donations
    fn after(&mut self, l: &mut Lab, src: u8, ok: bool, op: &str, dep: Option<usize>, donated: bool) -> Snap {
        let now = self.take(l);
        let old = std::mem::replace(&mut self.snap, now.clone());
        let nt = self.tok.len();
        if !ok {
            l.want("C22", "failed-trace", now == old, || format!("a failed {op} changed balances or reserves"));
        }
        for (k, p) in self.pool.clone().iter().enumerate() {
            let (Some(ph), r) = (self.hidx(&p.addr), now.res[k]) else { continue };
            for (s, t) in [(0, p.a), (1, p.b)] {
                let have = now.bal[t][ph];
                l.want("C01", "unbacked", r[s] >= 0 && have >= r[s], || format!("pool {k} reports {} of token {t} and holds {have}", r[s]));
                if k < old.res.len() {
                    let dr = r[s] - old.res[k][s];
                    let db = have - old.bal[t][ph];
                    let good = if dep == Some(k) && ok { r[s] == have } else if donated { dr == 0 } else { dr == db };
                    l.want("C01", "reserve-change", good, || {
                        format!("{op}: pool {k} received {db} of token {t} and changed its reserve by {dr} (reserve {}, balance {have})", r[s])
                    });
                }
            }
            let sup: i128 = now.bal[nt + k].iter().sum();
            l.want("C01", "lp-supply", sup == r[2], || format!("pool {k} reports {} LP tokens, {sup} exist", r[2]));
        }
        let src = acct(src);
        for t in 0..old.bal.len().min(now.bal.len()) {
            for h in 0..old.bal[t].len().min(now.bal[t].len()) {
                if now.bal[t][h] < old.bal[t][h] && !self.hold[h].is_contract() {
                    l.want("C09", &format!("taken-{op}"), self.hold[h] == src, || {
                        format!("{op} by {} took {} from {}", name_of(&src), old.bal[t][h] - now.bal[t][h], name_of(&self.hold[h]))
                    });
                }
            }
        }
        if let Some(h) = self.hidx(&self.mh.clone()) {
            for t in 0..nt {
                let (x, y) = (old.bal[t][h], now.bal[t][h]);
                l.want("C07", "multihop-keeps", x == y || donated, || format!("{op}: the multihop contract's balance of token {t} went from {x} to {y}"));
            }
        }
        if let Some((a, ..)) = &self.trader {
            if let Some(h) = self.hidx(a) {
                let admin_op = src == acct(ADMIN) && (op == "trade" || op == "ttransfer");
                for t in 0..nt {
                    let (x, y) = (old.bal[t][h], now.bal[t][h]);
                    l.want("C20", "trader-loses", y >= x || admin_op, || format!("{op}: the trader's balance of token {t} fell from {x} to {y}"));
                }
            }
        }
        for k in 0..self.pool.len() {
            if now.res[k][2] > 0 && (now.res[k][0] <= 0 || now.res[k][1] <= 0) {
                self.pool[k].drained = true;
                l.c("probe:drained_pool");
            }
        }
        let mut d: Vec<i128> = vec![];
        for (k, r) in now.res.iter().enumerate() {
            let lg = |x: i128| if x <= 0 { -1 } else { 127 - (x as u128).leading_zeros() as i128 };
            d.extend([lg(r[0]), lg(r[1]), lg(r[2]), self.pool[k].fee]);
        }
        l.state(&d);
        old
    }

    /// balances changed by exactly these transfers
    fn moved(&self, l: &mut Lab, prop: &'static str, op: &str, old: &Snap, moves: &[Move]) {
        let now = &self.snap;
        let mut d: Vec<Vec<i128>> = old.bal.iter().map(|r| vec![0; r.len()]).collect();
        for m in moves {
            let fee = match self.tok.get(m.asset) {
                Some(t) if t.helper => m.amt * t.fee / 10_000,
                _ => 0,
            };
            if let Some(f) = m.from {
                d[m.asset][f] -= m.amt;
            }
            if let Some(t) = m.to {
                d[m.asset][t] += m.amt - fee;
            }
        }
        let mut bad = None;
        for t in 0..d.len() {
            for h in 0..d[t].len() {
                let got = now.bal[t][h] - old.bal[t][h];
                if got != d[t][h] && bad.is_none() {
                    bad = Some((t, h, got, d[t][h]));
                }
            }
        }
        l.want(prop, &format!("moved-{op}"), bad.is_none(), || {
            let (t, h, got, want) = bad.unwrap();
            format!("{op}: asset {t} of {} changed by {got}, expected {want}", name_of(&self.hold[h]))
        });
    }

    fn pi(&self, x: i128) -> Option<usize> {
        if self.pool.is_empty() { None } else { Some(x.unsigned_abs() as usize % self.pool.len()) }
    }
    fn bal(&self, t: usize, who: u8) -> i128 {
        self.snap.bal[t][self.uidx(who)]
    }
    fn now(&self, l: &Lab) -> i128 {
        (l.ch.ts - l.ch.t0) as i128
    }
    fn deadline(&self, l: &Lab, x: i128) -> ScVal {
        if x == LONG_AGO {
            return u64v(0);
        }
        if x == FOREVER {
            return u64v(u64::MAX);
        }
        ou(o(x), |v| u64v((l.ch.t0 as i128 + v).max(0) as u64))
    }
    fn oddtok(&self, p: &Pool) -> bool {
        self.tok[p.a].fail || self.tok[p.b].fail || self.tok[p.a].fee > 0 || self.tok[p.b].fee > 0
    }

    /// output before the fee, the spread as the pool defines it, and how exact both are
    fn quote(&self, p: &Pool, r: &[i128; 3], dir: i128, offer: i128) -> Option<(BigInt, i128, i128, i128)> {
        let (x, y) = if dir & 1 == 0 { (r[0], r[1]) } else { (r[1], r[0]) };
        let (to, ta) = p.tok(dir);
        if p.stable {
            let out = refm::stable_out(x, self.tok[to].dec, y, self.tok[ta].dec, offer, p.amp)?;
            // an amount that is whole up to the last of the contract's 18 digits counts as whole
            let gross = refm::coarse(&(&out + pow10(refm::FINE - self.tok[ta].dec) / 1000), self.tok[ta].dec);
            let (d0, d1) = (self.tok[to].dec, self.tok[ta].dec);
            let worth = if d0 <= d1 { offer.checked_mul(10i128.pow(d1 - d0))? } else { offer / 10i128.pow(d0 - d1) };
            let tol = 1 + gross / FUZZ;
            Some((out, gross, (worth - gross).max(0), tol))
        } else {
            let (gross, _, spread) = refm::xyk(x, y, offer, 0)?;
            Some((b(gross) * pow10(refm::FINE - self.tok[ta].dec), gross, spread, 1))
        }
    }

    /// judges an executed swap from the reserves before and after; returns (gross, fee)
    #[allow(clippy::too_many_arguments)]
    fn judge(&self, l: &mut Lab, k: usize, dir: i128, offer: i128, r0: &[i128; 3], r1: &[i128; 3], min: i128, spread: i128, maxfee: i128, deadline: i128) -> (i128, i128) {
        let p = &self.pool[k];
        let prop = if p.stable { "C06" } else { "C03" };
        let (x0, y0, x1, y1) = if dir & 1 == 0 { (r0[0], r0[1], r1[0], r1[1]) } else { (r0[1], r0[0], r1[1], r1[0]) };
        let (_, ta) = p.tok(dir);
        let gross = y0 - y1;
        let fee = muldiv(gross.max(0), p.fee, 10_000);
        let plain = !self.oddtok(p);
        match self.quote(p, r0, dir, offer) {
            Some((out, g, sp, tol)) => {
                l.want(prop, "output", (gross - g).abs() <= tol, || {
                    format!("pool {k} ({x0}, {y0}) paid {gross} before fees for {offer}, its curve says {g} (+-{tol})")
                });
                if p.stable {
                    let unit = pow10(refm::FINE - self.tok[ta].dec);
                    let over = b(gross) * &unit - &out;
                    l.want(prop, "curve", over <= unit * 2 + &out / FUZZ, || format!("pool {k} paid {gross} for {offer}, more than the curve allows"));
                } else if plain {
                    l.want(prop, "product", b(x1) * b(y1 + 1) >= b(x0) * b(y0), || format!("the product fell: ({x0}, {y0}) to ({x1}, {y1})"));
                }
                // limits
                let cap = if spread >= 0 { spread } else { p.spread };
                let lhs = b((sp - tol).max(0)) * 10_000;
                l.want("C04", "spread", lhs <= b(cap) * b(gross + tol), || {
                    format!("a swap with at most {cap} bps spread went through with {sp} on {gross}")
                });
                l.want("C04", "spread-cap", spread <= p.spread, || format!("a spread limit of {spread} was accepted, the pool allows {}", p.spread));
            }
            None => {
                l.want(prop, "impossible", false, || format!("pool {k} ({x0}, {y0}) swapped {offer}"));
            }
        }
        if min >= 0 {
            l.want("C04", "min-received", gross - fee >= min, || format!("{} paid, at least {min} was asked for", gross - fee));
        }
        if maxfee >= 0 {
            l.want("C04", "max-fee", p.fee <= maxfee, || format!("fee {} bps, the user allowed {maxfee}", p.fee));
        }
        if deadline >= 0 {
            let now = self.now(l);
            l.want("C04", "deadline", now <= deadline, || format!("executed at {now}, the deadline was {deadline}"));
        }
        (gross, fee)
    }

    /// realistic sizes: one to ten million tokens a side (any, if the pool has no curve to solve)
    fn sized(&self, p: &Pool, r: &[i128; 3]) -> bool {
        let (wx, wy) = (r[0] / 10i128.pow(self.tok[p.a].dec), r[1] / 10i128.pow(self.tok[p.b].dec));
        !p.stable || (wx >= 1 && wy >= 1 && wx <= 10_000_000 && wy <= 10_000_000)
    }

    /// would a swap with these limits have to go through?
    #[allow(clippy::too_many_arguments)]
    fn due(&self, l: &Lab, k: usize, dir: i128, offer: i128, r: &[i128; 3], have: i128, min: i128, spread: i128, maxfee: i128, deadline: i128) -> bool {
        let p = &self.pool[k];
        if self.oddtok(p) || have < offer || offer <= 0 || p.drained {
            return false;
        }
        let x = if dir & 1 == 0 { r[0] } else { r[1] };
        if !self.sized(p, r) || (p.stable && offer > x / 20) {
            return false;
        }
        let Some((_, gross, sp, tol)) = self.quote(p, r, dir, offer) else { return false };
        if gross <= 100 * tol {
            return false;
        }
        let fee = muldiv(gross, p.fee, 10_000);
        let cap = if spread >= 0 { spread } else { p.spread };
        let exact = !p.stable;
        let (g, s2) = if exact { (gross, sp) } else { (gross - tol, sp + tol) };
        s2.checked_mul(ONE18).is_some()
            && muldiv(s2, ONE18, g) <= cap * 100_000_000_000_000
            && spread <= p.spread
            && (min < 0 || min <= g - fee - if exact { 0 } else { 1 })
            && (maxfee < 0 || maxfee >= p.fee)
            && (deadline < 0 || self.now(l) <= deadline)
    }

    fn swap_args(&self, l: &Lab, who: &Addr, t: usize, s: &Step) -> Vec<ScVal> {
        // n: pool, dir, amount, min, spread, deadline, max fee
        vec![who.val(), self.tok[t].a.val(), i(s.arg(2)), oi(o(s.arg(3))), oi64(s.arg(4)), self.deadline(l, s.arg(5)), oi64(s.arg(6))]
    }

    fn swap(&mut self, l: &mut Lab, s: &Step) {
        let Some(k) = self.pi(s.arg(0)) else { return };
        let p = self.pool[k].clone();
        let dir = s.arg(1);
        let (to, ta) = p.tok(dir);
        // a token that is not in the pool
        let wrong = dir & 2 == 2 && (0..self.tok.len()).any(|t| t != p.a && t != p.b);
        let t = if wrong { (0..self.tok.len()).find(|t| *t != p.a && *t != p.b).unwrap() } else { to };
        let who = acct(s.who);
        let r0 = self.snap.res[k];
        let due = !wrong && self.due(l, k, dir, s.arg(2), &r0, self.bal(to, s.who), s.arg(3), s.arg(4), s.arg(6), s.arg(5));
        let args = self.swap_args(l, &who, t, s);
        let out = l.act(&who, &p.addr, "swap", args, &[who.clone()]);
        let old = self.after(l, s.who, out.ok(), "swap", None, false);
        let prop = if p.stable { "C06" } else { "C03" };
        if !out.ok() {
            if due && !out.resource() {
                l.want(prop, "refused", false, || format!("pool {k} {r0:?} fee {} refused {:?} within all limits: {:?}", p.fee, s.n, out.res));
            }
            if due {
                l.hit(prop);
            }
            return;
        }
        l.want("C04", "foreign-token", !wrong, || "a token that is not in the pool was accepted".into());
        if wrong {
            return;
        }
        let r1 = self.snap.res[k];
        let (gross, fee) = self.judge(l, k, dir, s.arg(2), &r0, &r1, s.arg(3), s.arg(4), s.arg(6), s.arg(5));
        let ret = out.res.as_ref().ok().and_then(ri).unwrap_or(-1);
        l.want(prop, "fee", ret == gross - fee, || format!("{gross} left the pool at {} bps: the trader was told {ret}, expected {}", p.fee, gross - fee));
        let (u, ph, f) = (self.uidx(s.who), self.hidx(&p.addr).unwrap(), self.uidx(p.rec));
        self.moved(
            l,
            prop,
            "swap",
            &old,
            &[
                Move { asset: to, from: Some(u), to: Some(ph), amt: s.arg(2) },
                Move { asset: ta, from: Some(ph), to: Some(u), amt: gross - fee },
                Move { asset: ta, from: Some(ph), to: Some(f), amt: fee },
            ],
        );
    }

    fn deposit(&mut self, l: &mut Lab, s: &Step) {
        // n: pool, a, b, min a / min shares, min b, slippage, deadline
        let Some(k) = self.pi(s.arg(0)) else { return };
        let p = self.pool[k].clone();
        let who = acct(s.who);
        let (da, db) = (s.arg(1), s.arg(2));
        let r0 = self.snap.res[k];
        let u = self.uidx(s.who);
        let ph = self.hidx(&p.addr).unwrap();
        let nt = self.tok.len();
        let dl = self.deadline(l, s.arg(6));
        let args = if p.stable {
            vec![who.val(), i(da), i(db), oi64(s.arg(5)), dl, ou(o(s.arg(3)), |v| ScVal::U128(soroban_env_host::xdr::UInt128Parts { hi: (v >> 64) as u64, lo: v as u64 }))]
        } else {
            vec![who.val(), oi(Some(da)), oi(o(s.arg(3))), oi(Some(db)), oi(o(s.arg(4))), oi64(s.arg(5)), dl]
        };
        let out = l.act(&who, &p.addr, "provide_liquidity", args, &[who.clone()]);
        let old = self.after(l, s.who, out.ok(), "deposit", Some(k), false);
        let r1 = self.snap.res[k];
        let slip = if s.arg(5) >= 0 { s.arg(5) } else { p.dslip };
        let odd = self.oddtok(&p);
        // what the deposit would be
        let fresh = r0[0] == 0 && r0[1] == 0;
        let mut sane = da > 0 && db > 0 && self.tok.len() > 0 && old.bal[p.a][u] >= da && old.bal[p.b][u] >= db && !odd && !p.drained;
        sane &= s.arg(6) < 0 || self.now(l) <= s.arg(6);
        sane &= s.arg(5) <= p.slip && slip <= 10_000;
        if p.stable {
            sane &= slip <= p.slip;
        }
        let (mut ea, mut eb) = (da, db);
        if !p.stable && !fresh && r0[0] > 0 && r0[1] > 0 {
            // the larger side is cut down to the pool's ratio, the smaller one may fall short by the slippage
            let (ia, ib) = (muldiv(db, r0[0], r0[1]), muldiv(da, r0[1], r0[0]));
            let ok1 = |ideal: i128, want: i128| ideal <= want || (want > 0 && b(ideal - want) * 10_000 <= b(slip) * b(want));
            if out.ok() {
                let far = |ideal: i128, want: i128| b(ideal - want - 1) * 10_000 > b(slip + 1) * b(want.max(1));
                l.want("C04", "slippage", !(far(ia, da) || far(ib, db)), || {
                    format!("deposit {da}, {db} at reserves {}, {} accepted with {slip} bps slippage", r0[0], r0[1])
                });
            }
            sane &= ok1(ia, da) && ok1(ib, db) && da < i128::MAX / ONE18 && db < i128::MAX / ONE18 && ia < i128::MAX / ONE18 && ib < i128::MAX / ONE18;
            ea = ia.min(da);
            eb = ib.min(db);
            sane &= s.arg(3) < 0 || (s.arg(3) > 0 && s.arg(3) <= ea);
            sane &= s.arg(4) < 0 || (s.arg(4) > 0 && s.arg(4) <= eb);
            sane &= ea > 0 && eb > 0;
        } else if !p.stable {
            sane &= s.arg(3) != 0 && s.arg(4) != 0;
        }
        let total = r0[2];
        if !out.ok() {
            // worth at least two shares?
            let worth = if fresh || total == 0 {
                if p.stable {
                    let (x, y) = (b(da) * pow10(18 - self.tok[p.a].dec), b(db) * pow10(18 - self.tok[p.b].dec));
                    let g = self.tok[p.a].dec.max(self.tok[p.b].dec);
                    (x + y) / pow10(18 - g) > b(2_000) && da <= db.saturating_mul(1_000_000) && db <= da.saturating_mul(1_000_000)
                } else {
                    sane && refm::isqrt(&(b(da) * b(db))) > b(1_001)
                }
            } else if p.stable {
                let (sx, sy) = (self.tok[p.a].dec, self.tok[p.b].dec);
                let sum = |x: i128, y: i128| b(x) * pow10(18 - sx) + b(y) * pow10(18 - sy);
                let inc = sum(da, db) * b(total) / sum(r0[0].max(1), r0[1].max(1));
                let min = b(s.arg(3).max(0));
                let (wx, wy) = (r0[0] / 10i128.pow(sx), r0[1] / 10i128.pow(sy));
                inc > b(10) && inc > &min + &min / FUZZ + 5 && wx >= 1 && wy >= 1 && wx < 10_000_000 && wy < 10_000_000 && da <= r0[0].saturating_mul(10) && db <= r0[1].saturating_mul(10)
            } else {
                // (reserves times shares have to fit 128 bits)
                let fits = |r: i128, e: i128| r.checked_add(e).and_then(|x| x.checked_mul(total)).is_some();
                muldiv(ea, total, r0[0].max(1)) > 1 && muldiv(eb, total, r0[1].max(1)) > 1 && fits(r0[0], ea) && fits(r0[1], eb)
            };
            if fresh && p.stable && s.arg(3) >= 0 {
                return;
            }
            if sane && worth && !out.resource() {
                l.want("C02", "deposit-refused", false, || format!("pool {k} {r0:?} refused {:?} of a user who can afford it: {:?}", s.n, out.res));
            }
            return;
        }
        // limits
        let took = (old.bal[p.a][u] - self.snap.bal[p.a][u], old.bal[p.b][u] - self.snap.bal[p.b][u]);
        l.want("C04", "deposit-desired", took.0 <= da && took.1 <= db, || format!("deposit of at most {da}, {db} took {took:?}"));
        l.want("C04", "slippage-cap", s.arg(5) <= p.slip, || format!("slippage {} accepted, the pool allows {}", s.arg(5), p.slip));
        if s.arg(6) >= 0 {
            let now = self.now(l);
            l.want("C04", "deposit-deadline", now <= s.arg(6), || format!("executed at {now}, the deadline was {}", s.arg(6)));
        }
        let minted = r1[2] - r0[2];
        let got = self.snap.bal[nt + k][u] - old.bal[nt + k][u];
        if p.stable {
            l.want("C04", "min-shares", s.arg(3) < 0 || got >= s.arg(3), || format!("{got} shares, at least {} were asked for", s.arg(3)));
        } else if !fresh {
            l.want("C04", "deposit-min", (s.arg(3) < 0 || took.0 >= s.arg(3)) && (s.arg(4) < 0 || took.1 >= s.arg(4)), || {
                format!("deposit with minima {}, {} took {took:?}", s.arg(3), s.arg(4))
            });
        }
        // shares
        let lock = if !p.stable && r0[2] == 0 { 1000 } else { 0 };
        l.want("C02", "minted", got >= 1 && minted == got + lock, || format!("{minted} shares were minted, the depositor got {got}"));
        let ph2 = Some(ph);
        let mut mv = vec![
            Move { asset: p.a, from: Some(u), to: ph2, amt: took.0 },
            Move { asset: p.b, from: Some(u), to: ph2, amt: took.1 },
            Move { asset: nt + k, from: None, to: Some(u), amt: got },
        ];
        if lock > 0 {
            mv.push(Move { asset: nt + k, from: None, to: ph2, amt: lock });
        }
        self.moved(l, "C02", "deposit", &old, &mv);
        if p.drained {
            return;
        }
        if p.stable {
            let (sx, sy) = (self.tok[p.a].dec, self.tok[p.b].dec);
            let sum = |x: i128, y: i128| b(x) * pow10(18 - sx) + b(y) * pow10(18 - sy);
            let rec = (self.snap.bal[p.a][ph] - old.bal[p.a][ph], self.snap.bal[p.b][ph] - old.bal[p.b][ph]);
            let far = |x: i128, y: i128, f: i128| {
                let (x, y) = (b(x.max(0)) * pow10(18 - sx) + 1, b(y.max(0)) * pow10(18 - sy) + 1);
                x > &y * f || y > x * f
            };
            let any = |f: i128| far(rec.0, rec.1, f) || far(r0[0], r0[1], f) || far(r1[0], r1[1], f);
            if any(1_000_000) {
                // one side is next to nothing: shares follow the curve, not the sum
                return;
            }
            let fuzz = if any(10_000) { 1_000 } else { FUZZ };
            if total > 0 {
                let s0 = sum(r0[0], r0[1]);
                let inc = sum(rec.0, rec.1) * b(total);
                let e = refm::i(inc / s0);
                // the solver loses digits where one side is next to nothing
                let tol = 2 + e / fuzz + refm::i(b(total) / pow10(13));
                l.want("C02", "stable-shares", got <= e + tol && (odd || got >= e - tol), || {
                    format!("{rec:?} added to {}, {} with {total} shares gave {got} shares, proportional are {e}", r0[0], r0[1])
                });
                if self.strict_lp {
                    // value measured by the curve swaps use
                    let fine = |x: i128, d: u32| b(x) * pow10(refm::FINE - d);
                    let d0 = refm::stable_d(&fine(r0[0], sx), &fine(r0[1], sy), p.amp);
                    let d1 = refm::stable_d(&fine(r0[0] + rec.0, sx), &fine(r0[1] + rec.1, sy), p.amp);
                    let lim = b(total) * (&d1 - &d0) / &d0;
                    l.want("C02", "stable-dilution", b(got) <= &lim + 2 + &lim / 1_000_000, || {
                        format!("{rec:?} added to {}, {} with {total} shares gave {got} shares; by the curve swaps use they are worth {lim}", r0[0], r0[1])
                    });
                }
            } else {
                let g = sx.max(sy);
                let e = refm::i(sum(r1[0], r1[1]) / pow10(18 - g)) - 1000;
                // what is left of an emptied pool counts, donations do not
                let e0 = refm::i(sum(rec.0, rec.1) / pow10(18 - g)) - 1000;
                let tol = 2 + e / fuzz;
                l.want("C02", "stable-first", got <= e + tol && got >= e0 - tol, || format!("the first deposit of {rec:?} gave {got} shares, expected {e0}"));
            }
        } else if total == 0 {
            let e = refm::i(refm::isqrt(&(b(took.0.max(0)) * b(took.1.max(0))))) - 1000;
            l.want("C02", "first-shares", (got - e).abs() <= 1, || format!("the first deposit of {took:?} gave {got} shares, expected {e}"));
        } else {
            if total > i64::MAX as i128 {
                l.c("probe:deposit_into_shares_of_64_bits");
            }
            // nobody's part of the pool shrinks
            for s2 in 0..2 {
                l.want("C02", "dilution", b(r1[s2]) * b(r0[2]) >= b(r0[s2]) * b(r1[2]), || {
                    format!("deposit {took:?} into {r0:?} gave {got} shares: {r1:?}, each older share is worth less")
                });
            }
            let fair = muldiv(r1[0], total, r0[0]).min(muldiv(r1[1], total, r0[1])) - total;
            l.want("C02", "unfair-deposit", got >= fair - 1, || format!("deposit {took:?} into {r0:?} gave {got} shares, its part is {fair}"));
        }
    }

    fn withdraw(&mut self, l: &mut Lab, s: &Step) {
        // n: pool, shares, min a, min b, deadline
        let Some(k) = self.pi(s.arg(0)) else { return };
        let p = self.pool[k].clone();
        let who = acct(s.who);
        let sh = s.arg(1);
        let nt = self.tok.len();
        let (u, ph) = (self.uidx(s.who), self.hidx(&p.addr).unwrap());
        let r0 = self.snap.res[k];
        let quoted = l.q(&p.addr, "query_share", vec![i(sh)]);
        let args = vec![who.val(), i(sh), i(s.arg(2)), i(s.arg(3)), self.deadline(l, s.arg(4))];
        let out = l.act(&who, &p.addr, "withdraw_liquidity", args, &[who.clone()]);
        let old = self.after(l, s.who, out.ok(), "withdraw", None, false);
        let r1 = self.snap.res[k];
        let (fa_, fb) = if r0[2] > 0 && sh > 0 { (muldiv(r0[0], sh, r0[2]), muldiv(r0[1], sh, r0[2])) } else { (0, 0) };
        let tol = |r: i128| 1 + r / ONE18;
        if !out.ok() {
            let due = sh > 0
                && old.bal[nt + k][u] >= sh
                && s.arg(2) >= 1
                && s.arg(3) >= 1
                && s.arg(2) <= fa_ - tol(r0[0])
                && s.arg(3) <= fb - tol(r0[1])
                && (s.arg(4) < 0 || self.now(l) <= s.arg(4))
                && !self.tok[p.a].fail
                && !self.tok[p.b].fail
                && sh.max(fa_).max(fb) < i128::MAX / ONE18;
            if due && !out.resource() {
                l.want("C02", "withdraw-refused", false, || format!("pool {k} {r0:?} refused the withdrawal {:?}: {:?}", s.n, out.res));
            }
            return;
        }
        let (pa, pb) = (r0[0] - r1[0], r0[1] - r1[1]);
        l.want("C02", "payout", pa <= fa_ && pb <= fb && pa >= fa_ - tol(r0[0]) && pb >= fb - tol(r0[1]), || {
            format!("{sh} of {} shares paid {pa}, {pb}; their part of {}, {} is {fa_}, {fb}", r0[2], r0[0], r0[1])
        });
        let told = out.res.as_ref().ok().map(|v| (at(v, 0).as_ref().and_then(ri), at(v, 1).as_ref().and_then(ri)));
        l.want("C02", "payout-told", told == Some((Some(pa), Some(pb))), || format!("paid {pa}, {pb}, returned {told:?}"));
        l.want("C04", "withdraw-min", pa >= s.arg(2) && pb >= s.arg(3), || format!("paid {pa}, {pb}, at least {}, {} were asked for", s.arg(2), s.arg(3)));
        if s.arg(4) >= 0 {
            let now = self.now(l);
            l.want("C04", "withdraw-deadline", now <= s.arg(4), || format!("executed at {now}, the deadline was {}", s.arg(4)));
        }
        let q = quoted.as_ref().ok().map(|v| (at(v, 0).as_ref().and_then(|x| fi(x, &["amount"])), at(v, 1).as_ref().and_then(|x| fi(x, &["amount"]))));
        l.want("C05", "share-quote", q == Some((Some(pa), Some(pb))), || format!("{sh} shares paid {pa}, {pb}; quoted {q:?}"));
        let mv = [
            Move { asset: p.a, from: Some(ph), to: Some(u), amt: pa },
            Move { asset: p.b, from: Some(ph), to: Some(u), amt: pb },
            Move { asset: nt + k, from: Some(u), to: None, amt: sh },
        ];
        self.moved(l, "C02", "withdraw", &old, &mv);
    }

    fn path(&self, s: &Step) -> Vec<usize> {
        s.n.iter().skip(7).map(|x| x.unsigned_abs() as usize % self.tok.len()).collect()
    }
    fn pool_of(&self, x: usize, y: usize) -> Option<usize> {
        self.pool.iter().position(|p| (p.a, p.b) == (x.min(y), x.max(y)))
    }
    fn ops(&self, s: &Step, path: &[usize]) -> Vec<ScVal> {
        let n = path.len() - 1;
        (0..n)
            .map(|h| {
                let min = if h + 1 == n { o(s.arg(5)) } else if h == 0 { o(s.arg(6)) } else { None };
                st(&[("ask_asset", self.tok[path[h + 1]].a.val()), ("offer_asset", self.tok[path[h]].a.val()), ("ask_asset_min_amount", oi(min))])
            })
            .collect()
    }

    /// n: amount, type, spread, deadline, max fee, min last, min first, path...
    fn hop(&mut self, l: &mut Lab, s: &Step) {
        let path = self.path(s);
        if path.len() < 2 {
            return;
        }
        let who = acct(s.who);
        let u = self.uidx(s.who);
        let n = path.len() - 1;
        // the same swaps one by one, on a copy of the ledger
        let run = |me: &Dex, l: &Lab, limits: bool| -> (Chain, Option<Vec<i128>>, bool) {
            let mut k = l.ch.fork();
            let mut amt = s.arg(0);
            let mut outs = vec![];
            for h in 0..n {
                let Some(pi) = me.pool_of(path[h], path[h + 1]) else { return (k, None, false) };
                let min = if h + 1 == n { o(s.arg(5)) } else if h == 0 { o(s.arg(6)) } else { None };
                let lim = |v: ScVal| if limits { v } else { ScVal::Void };
                let args = vec![
                    who.val(),
                    me.tok[path[h]].a.val(),
                    i(amt),
                    lim(oi(min)),
                    lim(oi64(s.arg(2))),
                    lim(me.deadline(l, s.arg(3))),
                    lim(oi64(s.arg(4))),
                ];
                let r = k.tx(&who, &me.pool[pi].addr, "swap", args);
                match r.res.as_ref().ok().and_then(ri) {
                    Some(v) => amt = v,
                    None => return (k, None, r.resource()),
                }
                outs.push(amt);
            }
            (k, Some(outs), false)
        };
        let (mut kc, seq, res) = run(self, l, true);
        let quoted = {
            let args = vec![vecv(self.ops(s, &path)), i(s.arg(0)), u32v((s.arg(1) & 1) as u32)];
            l.q(&self.mh.clone(), "simulate_swap", args)
        };
        let args = vec![
            who.val(),
            vecv(self.ops(s, &path)),
            oi64(s.arg(2)),
            i(s.arg(0)),
            u32v((s.arg(1) & 1) as u32),
            self.deadline(l, s.arg(3)),
            oi64(s.arg(4)),
        ];
        let out = l.act(&who, &self.mh.clone(), "swap", args, &[who.clone()]);
        let old = self.after(l, s.who, out.ok(), "multihop", None, false);
        match (&seq, out.ok()) {
            (Some(outs), true) => {
                // same balances and reserves as one by one
                let mut bad = None;
                for t in 0..self.tok.len() {
                    for (h, a) in self.hold.iter().enumerate() {
                        let v = kc.query(&self.tok[t].a, "balance", vec![a.val()], true).ok().as_ref().and_then(ri).unwrap_or(-1);
                        if v != self.snap.bal[t][h] && bad.is_none() {
                            bad = Some((t, h, v, self.snap.bal[t][h]));
                        }
                    }
                }
                l.want("C07", "not-the-hops", bad.is_none(), || {
                    let (t, h, v, x) = bad.unwrap();
                    format!("multihop {path:?} left {} with {x} of token {t}, hop by hop it would be {v}", name_of(&self.hold[h]))
                });
                for k in 0..self.pool.len() {
                    let v = kc.query(&self.pool[k].addr, "query_pool_info", vec![], true);
                    let r = v.as_ref().ok().map(|v| [fi(v, &["asset_a", "amount"]), fi(v, &["asset_b", "amount"]), fi(v, &["asset_lp_share", "amount"])]);
                    let mine = self.snap.res[k];
                    l.want("C07", "pools-differ", r == Some([Some(mine[0]), Some(mine[1]), Some(mine[2])]), || format!("multihop left pool {k} at {mine:?}, hop by hop {r:?}"));
                }
                if path[0] != path[n] && self.tok[path[0]].fee == 0 {
                    let paid = old.bal[path[0]][u] - self.snap.bal[path[0]][u];
                    l.want("C07", "overpaid", paid <= s.arg(0), || format!("a multihop swap of {} took {paid}", s.arg(0)));
                }
                // quotes
                let distinct = {
                    let mut v: Vec<_> = (0..n).map(|h| (path[h].min(path[h + 1]), path[h].max(path[h + 1]))).collect();
                    v.sort();
                    v.dedup();
                    v.len() == n
                };
                if distinct && path.iter().all(|t| self.tok[*t].fee == 0) {
                    match &quoted {
                        Ok(v) => {
                            let q = fi(v, &["ask_amount"]).unwrap_or(-1);
                            l.want("C05", "multihop-quote", Some(&q) == outs.last(), || format!("multihop {path:?} of {} paid {:?}, quoted {q}", s.arg(0), outs.last()));
                        }
                        Err(e) => l.viol("C05", "multihop-quote-fails", format!("the swap goes through, its quote fails: {e}")),
                    }
                }
                l.c("probe:multihop_ok");
                if n > 1 {
                    l.c("probe:multihop_long_ok");
                }
            }
            (None, true) => {
                l.want("C07", "hop-fails", false, || format!("multihop {path:?} went through although its swaps one by one fail"));
                let (_, free, _) = run(self, l, false);
                if free.is_some() || s.arg(3) >= 0 && self.now(l) > s.arg(3) {
                    l.viol("C04", "multihop-limits", format!("multihop {path:?} went through although a limit forbids it: {:?}", s.n));
                }
            }
            (Some(_), false) => {
                l.want("C07", "refused", out.resource() || res, || format!("multihop {path:?} of {} fails although its swaps one by one go through: {:?}", s.arg(0), out.res));
            }
            (None, false) => {
                l.hit("C07");
                if n > 1 {
                    l.c("probe:multihop_failed");
                }
            }
        }
        if out.ok() && s.arg(3) >= 0 {
            let now = self.now(l);
            l.want("C04", "multihop-deadline", now <= s.arg(3), || format!("executed at {now}, the deadline was {}", s.arg(3)));
        }
        if out.ok() && s.arg(5) >= 0 && path[n] != path[0] && self.tok[path[n]].fee == 0 && acct(FEE) != who {
            let got = self.snap.bal[path[n]][u] - old.bal[path[n]][u];
            let mid = path[..n].contains(&path[n]);
            l.want("C04", "multihop-min", mid || got >= s.arg(5), || format!("got {got}, at least {} was asked for", s.arg(5)));
        }
    }

    /// n: pool, amount (-1: all), spread, deadline, min, max fee, token index in pair
    fn trade(&mut self, l: &mut Lab, s: &Step) {
        let (Some((tr, ta, tb, _)), Some(k)) = (self.trader.clone(), self.pi(s.arg(0))) else { return };
        let p = self.pool[k].clone();
        let who = acct(s.who);
        let t = match s.arg(6).rem_euclid(8) {
            7 => self.tok.len() - 1,
            x if x & 1 == 0 => ta,
            _ => tb,
        };
        let h = self.hidx(&tr).unwrap();
        let amt = if s.arg(1) < 0 { self.snap.bal[t][h] } else { s.arg(1).min(u64::MAX as i128) };
        let r0 = self.snap.res[k];
        let dir = if t == p.b { 1 } else { 0 };
        let inpool = t == p.a || t == p.b;
        let due = s.who == ADMIN && inpool && (t == ta || t == tb) && s.arg(2) <= 10_000
            && self.due(l, k, dir, amt, &r0, self.snap.bal[t][h], s.arg(4), s.arg(2), s.arg(5), s.arg(3));
        let args = vec![
            who.val(),
            self.tok[t].a.val(),
            p.addr.val(),
            ou64(s.arg(1)),
            oi64(s.arg(2)),
            self.deadline(l, s.arg(3)),
            oi(o(s.arg(4))),
            oi64(s.arg(5)),
        ];
        let out = l.act(&who, &tr, "trade_token", args, &[acct(ADMIN)]);
        let old = self.after(l, s.who, out.ok(), "trade", None, false);
        if !out.ok() {
            if due && !out.resource() {
                l.want("C20", "trade-refused", false, || format!("the admin's trade {:?} was refused: {:?}", s.n, out.res));
            }
            return;
        }
        l.want("C20", "trade-stranger", s.who == ADMIN, || format!("{} traded with the trader's funds", name_of(&who)));
        if !inpool {
            l.want("C20", "trade-foreign", false, || "traded a token the pool does not have".into());
            return;
        }
        let r1 = self.snap.res[k];
        let (gross, fee) = self.judge(l, k, dir, amt, &r0, &r1, s.arg(4), s.arg(2), s.arg(5), s.arg(3));
        let (ph, f) = (self.hidx(&p.addr).unwrap(), self.uidx(p.rec));
        let (_, ask) = p.tok(dir);
        l.c("probe:trade_ok");
        self.moved(
            l,
            "C20",
            "trade",
            &old,
            &[
                Move { asset: t, from: Some(h), to: Some(ph), amt },
                Move { asset: ask, from: Some(ph), to: Some(h), amt: gross - fee },
                Move { asset: ask, from: Some(ph), to: Some(f), amt: fee },
            ],
        );
    }

    /// n: recipient account, token (-1: output token), amount
    fn ttransfer(&mut self, l: &mut Lab, s: &Step) {
        let Some((tr, .., out_t)) = self.trader.clone() else { return };
        let who = acct(s.who);
        let rec = s.arg(0).clamp(1, 9) as u8;
        let Some(rh) = self.hidx(&acct(rec)) else { return };
        let t = if s.arg(1) < 0 { out_t } else { s.arg(1) as usize % self.tok.len() };
        let h = self.hidx(&tr).unwrap();
        let have = self.snap.bal[t][h];
        let args = vec![who.val(), acct(rec).val(), i(s.arg(2)), if s.arg(1) < 0 { ScVal::Void } else { self.tok[t].a.val() }];
        let out = l.act(&who, &tr, "transfer", args, &[acct(ADMIN)]);
        let old = self.after(l, s.who, out.ok(), "ttransfer", None, false);
        if out.ok() {
            l.want("C20", "transfer-stranger", s.who == ADMIN, || format!("{} transferred the trader's funds", name_of(&who)));
            self.moved(l, "C20", "ttransfer", &old, &[Move { asset: t, from: Some(h), to: Some(rh), amt: s.arg(2) }]);
        } else if s.who == ADMIN && s.arg(2) > 0 && s.arg(2) <= have && !self.tok[t].fail {
            l.want("C20", "transfer-refused", false, || format!("the admin cannot transfer {} of {have}: {:?}", s.arg(2), out.res));
        }
        // the reported balances are the balances
        if let Ok(v) = l.q(&tr, "query_balances", vec![]) {
            let (_, a, bb, o2) = self.trader.clone().unwrap();
            for (n, t) in [("token_a", a), ("token_b", bb), ("output_token", o2)] {
                let x = fi(&v, &[n, "amount"]);
                l.want("C20", "balances", x == Some(self.snap.bal[t][h]), || format!("query_balances says {x:?} for {n}, the token {}", self.snap.bal[t][h]));
            }
        } else {
            l.viol("C20", "balances-query", "query_balances fails".into());
        }
    }

    /// n: pool, fee, recipient, slippage, spread, referral, new admin (-1: absent; other negative: that value itself)
    fn config(&mut self, l: &mut Lab, s: &Step) {
        let Some(k) = self.pi(s.arg(0)) else { return };
        let p = self.pool[k].clone();
        let who = acct(s.who);
        let val = |x: i128| if x == -1 { None } else { Some(x) };
        let bps = |x: i128| ou(val(x), |v| i64v(v as i64));
        let addr = |x: i128| ou(val(x), |v| acct(v.clamp(1, 9) as u8).val());
        let vals: Vec<i128> = [1, 3, 4, 5].iter().map(|k| s.arg(*k)).collect();
        let mut args = vec![];
        if p.stable {
            args.push(who.val());
        }
        args.extend([addr(s.arg(6)), bps(s.arg(1)), addr(s.arg(2)), bps(s.arg(3)), bps(s.arg(4))]);
        if !p.stable {
            args.push(bps(s.arg(5)));
        }
        let n = if p.stable { 3 } else { 4 };
        let bad = vals[..n].iter().any(|x| *x != -1 && !(0..=10_000).contains(x));
        let before = l.q(&p.addr, "query_config", vec![]);
        let out = l.act(&who, &p.addr, "update_config", args, &[acct(p.admin)]);
        self.after(l, s.who, out.ok(), "config", None, false);
        let after = l.q(&p.addr, "query_config", vec![]);
        if !out.ok() {
            l.want("C15", "config-trace", before == after, || "a refused update_config changed the configuration".into());
            if s.who == p.admin && !bad && !out.resource() {
                l.want("C15", "config-refused", false, || format!("the admin cannot set {:?}: {:?}", s.n, out.res));
            }
            return;
        }
        l.want("C09", "config-stranger", s.who == p.admin, || format!("{} changed the configuration of a pool whose admin is {}", name_of(&who), name_of(&acct(p.admin))));
        l.want("C15", "config-range", !bad, || format!("values out of range were accepted: {:?}", s.n));
        let q = &mut self.pool[k];
        if let Some(v) = val(s.arg(1)) {
            q.fee = v;
        }
        if let Some(v) = val(s.arg(2)) {
            q.rec = v.clamp(1, 9) as u8;
        }
        if let Some(v) = val(s.arg(3)) {
            q.slip = v;
        }
        if let Some(v) = val(s.arg(4)) {
            q.spread = v;
        }
        if !p.stable {
            if let Some(v) = val(s.arg(5)) {
                q.referral = v;
            }
        }
        if let Some(v) = val(s.arg(6)) {
            q.admin = v.clamp(1, 9) as u8;
        }
        self.check_config(l, k, "C15");
    }

    fn check_config(&mut self, l: &mut Lab, k: usize, prop: &'static str) {
        let p = self.pool[k].clone();
        let v = match l.q(&p.addr, "query_config", vec![]) {
            Ok(v) => v,
            Err(e) => {
                l.viol(prop, "config-query", e);
                return;
            }
        };
        let mut want: Vec<(&str, Option<i128>)> = vec![
            ("total_fee_bps", Some(p.fee)),
            ("max_allowed_slippage_bps", Some(p.slip)),
            ("max_allowed_spread_bps", Some(p.spread)),
            ("pool_type", Some(p.stable as i128)),
        ];
        if p.stable {
            want.push(("default_slippage_bps", Some(p.dslip)));
        } else {
            want.push(("max_referral_bps", Some(p.referral)));
        }
        for (n, x) in want {
            let got = fi(&v, &[n]);
            l.want(prop, &format!("config-{n}"), got == x, || format!("pool {k}: {n} is {got:?}, should be {x:?}"));
        }
        for (n, x) in [
            ("token_a", &self.tok[p.a].a),
            ("token_b", &self.tok[p.b].a),
            ("share_token", &p.lp),
            ("stake_contract", &p.stake),
            ("fee_recipient", &acct(p.rec)),
        ] {
            let got = fa(&v, &[n]);
            l.want(prop, &format!("config-{n}"), got.as_ref() == Some(x), || format!("pool {k}: {n} is not what it should be"));
        }
    }

    fn create_args(&self, s: &Step) -> Vec<ScVal> {
        let nt = self.tok.len();
        let (x, y) = (s.arg(0).unsigned_abs() as usize % nt, s.arg(1).unsigned_abs() as usize % nt);
        let stable = s.arg(2) & 1 == 1;
        let who = acct(s.who);
        let (adm, rec) = (s.arg(12).clamp(1, 9) as u8, s.arg(13).clamp(1, 9) as u8);
        let bps = |k: usize| i64v(s.arg(k) as i64);
        let info = st(&[
            ("admin", acct(adm).val()),
            ("swap_fee_bps", bps(3)),
            ("fee_recipient", acct(rec).val()),
            ("max_allowed_slippage_bps", bps(5)),
            ("default_slippage_bps", bps(8)),
            ("max_allowed_spread_bps", bps(6)),
            ("max_referral_bps", bps(7)),
            ("token_init_info", st(&[("token_a", self.tok[x].a.val()), ("token_b", self.tok[y].a.val())])),
            (
                "stake_init_info",
                st(&[("min_bond", i(s.arg(10))), ("min_reward", i(s.arg(11))), ("manager", acct(MANAGER).val()), ("max_complexity", u32v(1 + s.arg(11).rem_euclid(60) as u32))]),
            ),
        ]);
        let k = self.pool.len();
        let (name, symb) = (format!("Pool {k} share"), format!("LP{k}"));
        vec![
            who.val(),
            info,
            crate::val::s(&name),
            crate::val::s(&symb),
            u32v(stable as u32),
            ou64(s.arg(9)),
            bps(8),
            bps(4),
        ]
    }

    /// n: x, y, type, fee, max fee, slippage, spread, referral, default slippage, amp, min bond, min reward, admin, recipient
    fn create(&mut self, l: &mut Lab, s: &Step) {
        let nt = self.tok.len();
        let (x, y) = (s.arg(0).unsigned_abs() as usize % nt, s.arg(1).unsigned_abs() as usize % nt);
        let stable = s.arg(2) & 1 == 1;
        let who = acct(s.who);
        let (adm, rec) = (s.arg(12).clamp(1, 9) as u8, s.arg(13).clamp(1, 9) as u8);
        if self.hidx(&acct(rec)).is_none() || self.hidx(&acct(adm)).is_none() {
            return;
        }
        let args = self.create_args(s);
        let k = self.pool.len();
        let (name, symb) = (format!("Pool {k} share"), format!("LP{k}"));
        let inr = |v: i128| (0..=10_000).contains(&v);
        let valid = x < y
            && self.pool_of(x, y).is_none()
            && [3, 4, 5, 6, 7, 8].iter().all(|q| inr(s.arg(*q)))
            && s.arg(3) <= s.arg(4)
            && s.arg(10) > 0
            && s.arg(11) > 0
            && (!stable || (1..=1_000_000).contains(&s.arg(9)));
        let may = self.white.contains(&s.who);
        let fac = self.fac.clone();
        let out = l.act(&who, &fac, "create_liquidity_pool", args, &[who.clone()]);
        if out.ok() {
            l.want("C08", "create-stranger", may, || format!("{} is not whitelisted and created a pool", name_of(&who)));
            l.want("C08", "create-invalid", valid, || format!("a pool was created from {:?}", s.n));
            if !(x < y) || self.pool_of(x, y).is_some() {
                return;
            }
            let Some(addr) = out.res.as_ref().ok().and_then(ra) else { return };
            let v = match l.q(&addr, "query_config", vec![]) {
                Ok(v) => v,
                Err(e) => {
                    l.viol("C08", "new-pool-config", e);
                    return;
                }
            };
            let (Some(lp), Some(stake)) = (fa(&v, &["share_token"]), fa(&v, &["stake_contract"])) else { return };
            let fresh = ![&self.fac, &self.mh].contains(&&lp)
                && self.pool.iter().all(|p| p.addr != addr && p.lp != lp && p.stake != stake)
                && self.tok.iter().all(|t| t.a != lp)
                && lp != stake
                && addr != lp;
            l.want("C08", "shared-parts", fresh, || "the new pool shares an address with something else".into());
            self.pool.push(Pool {
                a: x,
                b: y,
                stable,
                amp: s.arg(9),
                addr: addr.clone(),
                lp: lp.clone(),
                stake: stake.clone(),
                admin: adm,
                fee: s.arg(3),
                rec,
                slip: s.arg(5),
                dslip: s.arg(8),
                spread: s.arg(6),
                referral: s.arg(7),
                drained: false,
            });
            self.hold.push(addr.clone());
            self.hold.push(stake.clone());
            self.check_config(l, k, "C08");
            // the code the admin chose for new contracts
            for (what, a, h) in [("pool", &addr, self.hashes[if stable { 3 } else { 0 }]), ("stake contract", &stake, self.hashes[1]), ("share token", &lp, self.hashes[2])] {
                let got = l.code_of(a);
                l.want("C15", "code-of-new-pool", got == Some(l.hash[h]), || format!("the new {what} does not run the code the admin set for it"));
                if h >= w::ALT {
                    l.c("probe:created_with_changed_code");
                }
            }
            // its share token and stake contract
            let dec = if stable { self.tok[x].dec.max(self.tok[y].dec) } else { self.lpdec };
            let meta = (l.q(&lp, "name", vec![]).ok(), l.q(&lp, "symbol", vec![]).ok(), l.q(&lp, "decimals", vec![]).ok());
            let want = (Some(crate::val::s(&name)), Some(crate::val::s(&symb)), Some(u32v(dec)));
            l.want("C08", "share-token", meta == want, || format!("share token {meta:?}, expected {want:?}"));
            for f in ["query_share_token_address", "query_stake_contract_address"] {
                let a = l.q(&addr, f, vec![]).ok().as_ref().and_then(ra);
                let e = if f == "query_share_token_address" { &lp } else { &stake };
                l.want("C08", "addresses", a.as_ref() == Some(e), || format!("{f} differs from query_config"));
            }
            match (l.q(&stake, "query_config", vec![]), l.q(&stake, "query_admin", vec![])) {
                (Ok(v), Ok(a)) => {
                    let c = fld(&v, "config").cloned().unwrap_or(v);
                    let ok = fa(&c, &["lp_token"]).as_ref() == Some(&lp)
                        && fi(&c, &["min_bond"]) == Some(s.arg(10))
                        && fi(&c, &["min_reward"]) == Some(s.arg(11))
                        && fi(&c, &["max_complexity"]) == Some(1 + s.arg(11).rem_euclid(60))
                        && fa(&c, &["manager"]) == Some(acct(MANAGER))
                        && fa(&c, &["owner"]).as_ref() == Some(&fac)
                        && ra(&a) == Some(acct(adm));
                    l.want("C08", "stake-config", ok, || format!("the new stake contract is set up with {c:?}, admin {a:?}"));
                }
                x => l.viol("C08", "stake-query", format!("{x:?}")),
            }
            let hx = out.ok();
            self.snap = self.take(l);
            l.want("C08", "not-empty", hx && self.snap.res[k] == [0, 0, 0], || "a new pool is not empty".into());
        } else {
            self.after(l, s.who, false, "create", None, false);
            if may && valid {
                l.want("C08", "create-refused", out.resource(), || format!("a valid creation {:?} was refused: {:?}", s.n, out.res));
            }
        }
        self.registry(l);
    }

    fn registry(&mut self, l: &mut Lab) {
        let fac = self.fac.clone();
        let want: Vec<ScVal> = self.pool.iter().map(|p| p.addr.val()).collect();
        match l.q(&fac, "query_pools", vec![]) {
            Ok(v) => {
                l.want("C08", "pools", rv(&v) == Some(want.clone()), || format!("query_pools lists {v:?}, {} pools were created", self.pool.len()));
            }
            Err(e) => l.viol("C08", "pools-query", e),
        }
        match l.q(&fac, "query_all_pools_details", vec![]) {
            Ok(v) => {
                let got = rv(&v).unwrap_or_default();
                l.want("C08", "details-count", got.len() == self.pool.len(), || format!("{} of {} pools in query_all_pools_details", got.len(), self.pool.len()));
                for (k, d) in got.iter().enumerate().take(self.pool.len()) {
                    let p = self.pool[k].clone();
                    let r = self.reserves(l, &p);
                    let pr = fld(d, "pool_response").cloned().unwrap_or(ScVal::Void);
                    let ok = fa(d, &["pool_address"]) == Some(p.addr.clone())
                        && fi(d, &["total_fee_bps"]) == Some(p.fee)
                        && fa(&pr, &["asset_a", "address"]).as_ref() == Some(&self.tok[p.a].a)
                        && fa(&pr, &["asset_b", "address"]).as_ref() == Some(&self.tok[p.b].a)
                        && fa(&pr, &["asset_lp_share", "address"]).as_ref() == Some(&p.lp)
                        && fa(&pr, &["stake_address"]).as_ref() == Some(&p.stake)
                        && [fi(&pr, &["asset_a", "amount"]), fi(&pr, &["asset_b", "amount"]), fi(&pr, &["asset_lp_share", "amount"])] == [Some(r[0]), Some(r[1]), Some(r[2])];
                    l.want("C08", "details", ok, || format!("details of pool {k}: {d:?}"));
                    let one = l.q(&fac, "query_pool_details", vec![p.addr.val()]);
                    l.want("C08", "one-detail", one.as_ref() == Ok(d), || format!("query_pool_details of pool {k} differs"));
                }
            }
            Err(e) => l.viol("C08", "details-query", e),
        }
        for x in 0..self.tok.len() {
            for y in 0..self.tok.len() {
                let v = l.q(&fac, "query_for_pool_by_token_pair", vec![self.tok[x].a.val(), self.tok[y].a.val()]);
                let want = if x == y { None } else { self.pool_of(x, y).map(|k| self.pool[k].addr.val()) };
                l.want("C08", "pair", v.as_ref().ok() == want.as_ref(), || format!("the pool of tokens {x}, {y}: {v:?}"));
            }
        }
    }

    fn portfolio(&mut self, l: &mut Lab, u: u8) {
        let who = acct(u);
        let nt = self.tok.len();
        let v = match l.q(&self.fac.clone(), "query_user_portfolio", vec![who.val(), ScVal::Bool(true)]) {
            Ok(v) => v,
            Err(e) => {
                let resource = e.contains("Budget") || e.contains("budget");
                l.want("C08", "portfolio-query", resource, || e.clone());
                return;
            }
        };
        // the same without the stakes, when they are not asked for
        if let Ok(n) = l.q(&self.fac.clone(), "query_user_portfolio", vec![who.val(), ScVal::Bool(false)]) {
            let same = fld(&n, "lp_portfolio") == fld(&v, "lp_portfolio") && fld(&n, "stake_portfolio").and_then(rv).is_some_and(|x| x.is_empty());
            l.want("C08", "portfolio-without-stakes", same, || format!("the portfolio of user {u} without stakes is {n:?}, with them {v:?}"));
        }
        let (mut lps, mut sts) = (vec![], vec![]);
        for (k, p) in self.pool.clone().iter().enumerate() {
            let staked = match l.q(&p.stake, "query_staked", vec![who.val()]) {
                Ok(v) => v,
                Err(e) => {
                    l.viol("C08", "portfolio-staked", e);
                    return;
                }
            };
            let list = fld(&staked, "stakes").and_then(rv).unwrap_or_default();
            let sum: i128 = list.iter().map(|x| fi(x, &["stake"]).unwrap_or(0)).sum();
            let total = self.bal(nt + k, u) + sum;
            if total > 0 {
                if let Ok(q) = l.q(&p.addr, "query_share", vec![i(total)]) {
                    lps.push(q);
                }
            }
            if !list.is_empty() {
                sts.push((p.stake.clone(), list));
            }
        }
        let got: Vec<ScVal> = fld(&v, "lp_portfolio").and_then(rv).unwrap_or_default().iter().filter_map(|x| fld(x, "assets").cloned()).collect();
        l.want("C08", "portfolio", got == lps, || format!("the portfolio of user {u} is {got:?}, their shares are worth {lps:?}"));
        let gs: Vec<(Addr, Vec<ScVal>)> = fld(&v, "stake_portfolio")
            .and_then(rv)
            .unwrap_or_default()
            .iter()
            .filter_map(|x| Some((fa(x, &["staking_contract"])?, fld(x, "stakes").and_then(rv)?)))
            .collect();
        let same = gs.len() == sts.len()
            && gs.iter().zip(&sts).all(|(a, c)| {
                a.0 == c.0 && a.1.len() == c.1.len() && a.1.iter().zip(&c.1).all(|(x, y)| fi(x, &["stake"]) == fi(y, &["stake"]) && fi(x, &["stake_timestamp"]) == fi(y, &["stake_timestamp"]))
            });
        l.want("C08", "stake-portfolio", same, || format!("the stake portfolio of user {u} is {gs:?}, they staked {sts:?}"));
        if !sts.is_empty() {
            l.c("probe:portfolio_with_stake");
        }
    }

    fn factory_config(&mut self, l: &mut Lab) {
        let v = match l.q(&self.fac.clone(), "get_config", vec![]) {
            Ok(v) => v,
            Err(e) => {
                l.viol("C15", "factory-config", e);
                return;
            }
        };
        let wl: BTreeSet<Addr> = fld(&v, "whitelisted_accounts").and_then(rv).unwrap_or_default().iter().filter_map(ra).collect();
        let want: BTreeSet<Addr> = self.white.iter().map(|x| acct(*x)).collect();
        l.want("C15", "whitelist", wl == want, || format!("whitelist {:?}, should be {:?}", wl.iter().map(name_of).collect::<Vec<_>>(), want.iter().map(name_of).collect::<Vec<_>>()));
        let h = |n: &str| match fld(&v, n) {
            Some(ScVal::Bytes(x)) => x.0.to_vec(),
            _ => vec![],
        };
        for (n, k) in [("lp_wasm_hash", 0), ("stake_wasm_hash", 1), ("token_wasm_hash", 2)] {
            let good = h(n) == l.hash[self.hashes[k]].to_vec();
            l.want("C15", "hashes", good, || format!("{n} is not what the admin set"));
        }
        l.want("C15", "factory-rest", fa(&v, &["admin"]) == Some(acct(ADMIN)) && fa(&v, &["multihop_address"]).as_ref() == Some(&self.mh) && fi(&v, &["lp_token_decimals"]) == Some(self.lpdec as i128), || {
            format!("the factory's other settings changed: {v:?}")
        });
        let adm = l.q(&self.fac.clone(), "get_admin", vec![]);
        l.want("C15", "factory-admin", adm.as_ref().ok().and_then(ra) == Some(acct(ADMIN)), || format!("the factory names {adm:?} as its admin"));
    }

    /// compares quotes with what execution on a copy of the ledger pays.  n: pool, dir, amount
    fn quotes(&mut self, l: &mut Lab, s: &Step) {
        let Some(k) = self.pi(s.arg(0)) else { return };
        let p = self.pool[k].clone();
        if self.oddtok(&p) || p.drained {
            return;
        }
        let dir = s.arg(1);
        let (to, ta) = p.tok(dir);
        let amt = s.arg(2);
        let who = acct(s.who);
        let r0 = self.snap.res[k];
        let h0 = l.ch.state_hash();
        // asking changes nothing
        {
            let mut kc = l.ch.fork();
            for (f, a) in [
                ("simulate_swap", vec![self.tok[to].a.val(), i(amt)]),
                ("simulate_reverse_swap", vec![self.tok[to].a.val(), i(amt)]),
                ("query_share", vec![i(amt)]),
            ] {
                kc.tx(&who, &p.addr, f, a);
            }
            l.want("C05", "quote-writes", kc.state_hash() == h0, || "asking for a quote changed the ledger".into());
        }
        let q = l.q(&p.addr, "simulate_swap", vec![self.tok[to].a.val(), i(amt)]);
        let mut kc = l.ch.fork();
        let rec = acct(p.rec);
        let b0 = l.bal(&self.tok[ta].a.clone(), &rec);
        let out = kc.tx(&who, &p.addr, "swap", vec![who.val(), self.tok[to].a.val(), i(amt), ScVal::Void, ScVal::Void, ScVal::Void, ScVal::Void]);
        l.hit("C05");
        if let Ok(v) = &q {
            // also where the pool's maximum spread would stop the swap
            let ask = fi(v, &["ask_amount"]).unwrap_or(-1);
            let com = fi(v, &["commission_amount"]).unwrap_or(-1);
            let sp = fi(v, &["spread_amount"]).unwrap_or(-1);
            let tot = fi(v, &["total_return"]).unwrap_or(-1);
            l.want("C05", "quote-total", tot == ask + com + sp, || format!("total_return {tot} of {ask} + {com} + {sp}"));
            if let Some((_, gross, spread, tol)) = self.quote(&p, &r0, dir, amt) {
                let g = ask + com;
                l.want("C05", "quote-spread", (g - gross).abs() <= tol && (sp - spread).abs() <= tol, || format!("quoted {g} with spread {sp}, the curve says {gross} and {spread}"));
            }
        }
        match (&q, out.res.as_ref().ok().and_then(ri)) {
            (Ok(v), Some(ret)) => {
                let ask = fi(v, &["ask_amount"]).unwrap_or(-1);
                let com = fi(v, &["commission_amount"]).unwrap_or(-1);
                l.want("C05", "quote", ask == ret, || format!("pool {k} {r0:?} quotes {ask} for {amt} and pays {ret}"));
                if p.rec != s.who {
                    let b1 = kc.query(&self.tok[ta].a, "balance", vec![rec.val()], true).ok().as_ref().and_then(ri).unwrap_or(-1);
                    l.want("C05", "quote-fee", com == b1 - b0, || format!("pool {k} quotes a fee of {com} and charges {}", b1 - b0));
                }
            }
            (Err(e), None) if p.stable && amt > 0 && self.sized(&p, &r0) && amt <= (if dir & 1 == 0 { r0[0] } else { r0[1] }) / 20 => {
                // too wide a spread may forbid the swap, nothing forbids to price it
                if self.quote(&p, &r0, dir, amt).map_or(false, |(_, g, _, tol)| g > 100 * tol) {
                    l.want("C06", "unpriceable", false, || format!("pool {k} {r0:?} cannot price {amt}: {e}"));
                }
            }
            (Err(e), Some(ret)) => l.viol("C05", "quote-fails", format!("pool {k} pays {ret} for {amt}, its quote fails: {e}")),
            _ => (),
        }
        // other assets are refused by both
        if let Some(t) = (0..self.tok.len()).find(|t| *t != p.a && *t != p.b) {
            let x = l.q(&p.addr, "simulate_swap", vec![self.tok[t].a.val(), i(amt)]);
            let y = l.q(&p.addr, "simulate_reverse_swap", vec![self.tok[t].a.val(), i(amt)]);
            l.want("C05", "quote-foreign", x.is_err() && y.is_err(), || "a token that is not in the pool was quoted".into());
        }
        // reverse: the named offer buys the amount
        let y0 = if dir & 1 == 0 { r0[1] } else { r0[0] };
        let most = muldiv(y0, (10_000 - p.fee).max(0), 10_000);
        let want = match amt.rem_euclid(5) {
            // nearly all there is
            0 if !p.stable => most / 1000 * (900 + amt.rem_euclid(97)),
            _ => amt.min(most * 3 / 4),
        };
        if want > 0 && p.fee < 9_000 && r0[0] > 0 && r0[1] > 0 {
            let arg = if p.stable { &self.tok[to].a } else { &self.tok[ta].a };
            let rq = l.q(&p.addr, "simulate_reverse_swap", vec![arg.val(), i(want)]);
            match rq {
                Ok(v) => {
                    let offer = fi(&v, &["offer_amount"]).unwrap_or(-1);
                    let com = fi(&v, &["commission_amount"]).unwrap_or(-1);
                    let slack = 3 + offer.max(0) / FUZZ;
                    let k2 = 3 + want / FUZZ;
                    let net = |off: i128| -> i128 {
                        match self.quote(&p, &r0, dir, off) {
                            Some((_, g, ..)) => g - muldiv(g, p.fee, 10_000),
                            None => 0,
                        }
                    };
                    l.want("C05", "reverse", offer >= 0 && net(offer - slack) <= want + k2 && net(offer + slack) >= want - k2, || {
                        format!("pool {k} {r0:?} fee {}: {offer} is said to buy {want}, it buys {}", p.fee, net(offer))
                    });
                    let fee = muldiv(want, p.fee, 10_000 - p.fee);
                    l.want("C05", "reverse-fee", (com - fee).abs() <= 2 + fee / FUZZ, || format!("the reverse quote names a fee of {com}, it is {fee}"));
                }
                Err(e) => {
                    // the same realistic sizes in which swaps must work
                    let q0 = self.quote(&p, &r0, dir, 1 + y0 / 1000).is_some();
                    let sized = self.sized(&p, &r0) && (!p.stable || want > 1000);
                    if q0 && sized && want < y0 / 20 && r0[0] < ONE18 && r0[1] < ONE18 {
                        l.want("C05", "reverse-fails", false, || format!("pool {k} {r0:?} cannot quote an offer for {want}: {e}"));
                    }
                }
            }
        }
    }

    /// Limits an operation just meets do not stop it, the next narrower ones do.  All on copies of the ledger.
    /// n: kind, then swap (4: a trade of the trader's, by its side):  pool, dir, amount / deposit: pool, a, b / withdrawal: pool, shares / multihop: amount, type, path...
    fn edges(&mut self, l: &mut Lab, s: &Step) {
        let who = acct(s.who);
        let u = self.uidx(s.who);
        let nt = self.tok.len();
        let kind = s.arg(0).rem_euclid(5);
        let prop = if kind == 4 { "C20" } else { "C04" };
        let now = self.now(l);
        let path: Vec<usize> = if kind == 3 { s.n.iter().skip(3).map(|x| x.unsigned_abs() as usize % nt).collect() } else { vec![] };
        let pools: Vec<usize> = if kind == 3 {
            if path.len() < 2 {
                return;
            }
            match (0..path.len() - 1).map(|h| self.pool_of(path[h], path[h + 1])).collect::<Option<Vec<_>>>() {
                Some(v) => v,
                None => return,
            }
        } else {
            match self.pi(s.arg(1)) {
                Some(k) => vec![k],
                None => return,
            }
        };
        if pools.iter().any(|k| self.oddtok(&self.pool[*k]) || self.pool[*k].drained || self.snap.res[*k][2] == 0) {
            return;
        }
        let k = pools[0];
        let p = self.pool[k].clone();
        let me = &*self;
        // swaps: the direction, what is offered and whose balance it is
        let (mut dir, mut amt, mut h, mut tr) = (s.arg(2), s.arg(3), u, None);
        if kind == 4 {
            let Some((t, ta, tb, _)) = self.trader.clone() else { return };
            let x = if s.arg(2) & 1 == 0 { ta } else { tb };
            if s.who != ADMIN || (x != p.a && x != p.b) {
                return;
            }
            dir = (x == p.b) as i128;
            h = self.hidx(&t).unwrap();
            if amt < 0 {
                amt = self.snap.bal[x][h];
            }
            tr = Some(t);
        }
        let owner = self.hold[h].clone();
        // the call with limits [1, 2, 3, deadline, spread of a path], -1 being none
        let call = |l: &Lab, v: [i128; 5]| -> (Addr, &'static str, Vec<ScVal>) {
            let dl = me.deadline(l, v[3]);
            match kind {
                0 => {
                    let (to, _) = p.tok(s.arg(2));
                    (p.addr.clone(), "swap", vec![who.val(), me.tok[to].a.val(), i(s.arg(3)), oi(o(v[0])), oi64(v[1]), dl, oi64(v[2])])
                }
                1 if p.stable => {
                    let m = ou(o(v[0]), |v| ScVal::U128(soroban_env_host::xdr::UInt128Parts { hi: (v >> 64) as u64, lo: v as u64 }));
                    (p.addr.clone(), "provide_liquidity", vec![who.val(), i(s.arg(2)), i(s.arg(3)), ScVal::Void, dl, m])
                }
                1 => (p.addr.clone(), "provide_liquidity", vec![who.val(), i(s.arg(2)), oi(o(v[0])), i(s.arg(3)), oi(o(v[1])), oi64(v[2]), dl]),
                4 => {
                    let (to, _) = p.tok(dir);
                    (owner.clone(), "trade_token", vec![who.val(), me.tok[to].a.val(), p.addr.val(), ou64(s.arg(3)), oi64(v[1]), dl, oi(o(v[0])), oi64(v[2])])
                }
                2 => (p.addr.clone(), "withdraw_liquidity", vec![who.val(), i(s.arg(2)), i(v[0].max(1)), i(v[1].max(1)), dl]),
                _ => {
                    let n = path.len() - 1;
                    let ops = (0..n)
                        .map(|h| {
                            let min = if h + 1 == n { o(v[0]) } else if h == 0 { o(v[1]) } else { None };
                            st(&[("ask_asset", me.tok[path[h + 1]].a.val()), ("offer_asset", me.tok[path[h]].a.val()), ("ask_asset_min_amount", oi(min))])
                        })
                        .collect();
                    (me.mh.clone(), "swap", vec![who.val(), vecv(ops), oi64(v[4]), i(s.arg(1)), u32v((s.arg(2) & 1) as u32), dl, oi64(v[2])])
                }
            }
        };
        let mut kc = l.ch.fork();
        let (c, f, args) = call(l, [-1; 5]);
        let out = kc.tx(&who, &c, f, args);
        if !out.ok() {
            return;
        }
        let mut diff = |t: usize| -> i128 {
            let a = if t < nt { &me.tok[t].a } else { &me.pool[t - nt].lp };
            let b1 = kc.query(a, "balance", vec![owner.val()], true).ok().as_ref().and_then(ri).unwrap_or(0);
            b1 - me.snap.bal[t][h]
        };
        // (limits, does it still go through)
        let mut tries: Vec<([i128; 5], bool)> = vec![([-1, -1, -1, now, -1], true)];
        tries.push(([-1, -1, -1, LONG_AGO, -1], false));
        tries.push(([-1, -1, -1, FOREVER, -1], true));
        if now > 0 {
            tries.push(([-1, -1, -1, now - 1, -1], false));
        }
        match kind {
            0 | 4 => {
                let (to, ta) = p.tok(dir);
                if tr.is_some() || p.rec != s.who {
                    let got = diff(ta);
                    tries.push(([got, -1, -1, -1, -1], true));
                    tries.push(([got + 1, -1, -1, -1, -1], false));
                }
                tries.push(([i128::MAX, -1, -1, -1, -1], false));
                tries.push(([-1, -1, i64::MAX as i128, -1, -1], true));
                // no fee, no spread is below nothing, and no spread limit above the pool's own
                for v in [NEG, NEG - 10_000, NEG + 1 + i64::MIN as i128] {
                    tries.push(([-1, -1, v, -1, -1], false));
                    tries.push(([-1, v, -1, -1, -1], false));
                }
                tries.push(([-1, p.spread + 1, -1, -1, -1], false));
                tries.push(([-1, i64::MAX as i128, -1, -1, -1], false));
                tries.push(([-1, -1, p.fee, -1, -1], true));
                if p.fee > 0 {
                    tries.push(([-1, -1, p.fee - 1, -1, -1], false));
                }
                if let Ok(v) = l.q(&p.addr, "simulate_swap", vec![me.tok[to].a.val(), i(amt)]) {
                    let n = |x: &str| fi(&v, &[x]).unwrap_or(-1);
                    let (sp, g) = (n("spread_amount"), n("ask_amount") + n("commission_amount"));
                    if g > 0 && (0..10i128.pow(19)).contains(&sp) {
                        let c = i64::try_from((sp * 10_000 + g - 1) / g).unwrap_or(i64::MAX) as i128;
                        if c <= p.spread {
                            tries.push(([-1, c, -1, -1, -1], true));
                            if c > 0 && muldiv(sp, ONE18, g) > (c - 1) * 100_000_000_000_000 {
                                tries.push(([-1, c - 1, -1, -1, -1], false));
                            }
                        }
                    }
                }
            }
            1 if p.stable => {
                let got = diff(nt + k);
                tries.push(([got, -1, -1, -1, -1], true));
                tries.push(([got + 1, -1, -1, -1, -1], false));
            }
            1 => {
                let (x, y) = (-diff(p.a), -diff(p.b));
                if x > 0 && y > 0 {
                    tries.push(([x, y, -1, -1, -1], true));
                    tries.push(([x + 1, -1, -1, -1, -1], false));
                    tries.push(([-1, y + 1, -1, -1, -1], false));
                }
                // by how much the wanted ratio misses the pool's
                let r0 = me.snap.res[k];
                let miss = |wish: i128, other: i128, x: i128, y: i128| {
                    let fit = muldiv(other, x, y);
                    if fit > wish && wish > 0 && fit < 2 * wish { refm::i(b(fit) * b(ONE18) / b(wish)) - ONE18 } else { 0 }
                };
                if r0[0] > 0 && r0[1] > 0 {
                    let m = miss(s.arg(2), s.arg(3), r0[0], r0[1]).max(miss(s.arg(3), s.arg(2), r0[1], r0[0]));
                    let c = (m + 100_000_000_000_000 - 1) / 100_000_000_000_000;
                    if c <= p.slip {
                        tries.push(([-1, -1, c, -1, -1], true));
                    }
                    if c > 0 {
                        tries.push(([-1, -1, c - 1, -1, -1], false));
                    }
                    tries.push(([-1, -1, p.slip + 1, -1, -1], false));
                    tries.push(([-1, -1, i64::MAX as i128, -1, -1], false));
                }
            }
            2 => {
                let (x, y) = (diff(p.a), diff(p.b));
                if x > 0 && y > 0 {
                    tries.push(([x, y, -1, -1, -1], true));
                    tries.push(([x + 1, -1, -1, -1, -1], false));
                    tries.push(([-1, y + 1, -1, -1, -1], false));
                }
            }
            _ => {
                let last = path[path.len() - 1];
                let fees: Vec<i128> = pools.iter().map(|k| me.pool[*k].fee).collect();
                if pools.iter().all(|k| me.pool[*k].rec != s.who) && last != path[0] {
                    let got = diff(last);
                    tries.push(([got, -1, -1, -1, -1], true));
                    tries.push(([got + 1, -1, -1, -1, -1], false));
                }
                // what the hops give and how far each leaves the price, as long as no pool comes twice
                let mut once = pools.clone();
                once.sort_unstable();
                once.dedup();
                if once.len() == pools.len() {
                    let (mut x, mut top, mut lo, mut known) = (s.arg(1), 0i128, false, true);
                    let mut first = -1;
                    for (h, k) in pools.iter().enumerate() {
                        let q = &me.pool[*k];
                        let Ok(v) = l.q(&q.addr, "simulate_swap", vec![me.tok[path[h]].a.val(), i(x)]) else { known = false; break };
                        let n = |x: &str| fi(&v, &[x]).unwrap_or(-1);
                        let (sp, g) = (n("spread_amount"), n("ask_amount") + n("commission_amount"));
                        if g <= 0 || !(0..10i128.pow(19)).contains(&sp) {
                            known = false;
                            break;
                        }
                        let c = i64::try_from((sp * 10_000 + g - 1) / g).unwrap_or(i64::MAX) as i128;
                        if c > top {
                            top = c;
                            lo = muldiv(sp, ONE18, g) > (c - 1) * 100_000_000_000_000;
                        }
                        x = n("ask_amount");
                        if h == 0 {
                            first = x;
                        }
                    }
                    if known {
                        let most = pools.iter().map(|k| me.pool[*k].spread).min().unwrap();
                        if top <= most {
                            tries.push(([-1, -1, -1, -1, top], true));
                            if lo {
                                tries.push(([-1, -1, -1, -1, top - 1], false));
                            }
                        }
                        if pools.len() > 1 {
                            tries.push(([-1, first, -1, -1, -1], true));
                            tries.push(([-1, first + 1, -1, -1, -1], false));
                        }
                    }
                }
                let most = pools.iter().map(|k| me.pool[*k].spread).min().unwrap();
                tries.push(([-1, -1, -1, -1, most + 1], false));
                for v in [NEG, NEG + 1 + i64::MIN as i128] {
                    tries.push(([-1, -1, v, -1, -1], false));
                    tries.push(([-1, -1, -1, -1, v], false));
                }
                tries.push(([i128::MAX, -1, -1, -1, -1], false));
                tries.push(([-1, -1, i64::MAX as i128, -1, -1], true));
                let top = *fees.iter().max().unwrap();
                tries.push(([-1, -1, top, -1, -1], true));
                if top > 0 {
                    tries.push(([-1, -1, top - 1, -1, -1], false));
                }
            }
        }
        // together with others that are met, a limit counts as it does alone
        let met: Vec<[i128; 5]> = tries.iter().filter(|x| x.1).map(|x| x.0).collect();
        let mut mix = s.n.iter().fold(now, |h, x| h.wrapping_mul(31).wrapping_add(*x)).unsigned_abs();
        for n in 0..tries.len() {
            let (mut v, pass) = tries[n];
            for m in &met {
                mix = mix.wrapping_mul(0x5851_f42d_4c95_7f2d_1405_7b7e_f767_814f).wrapping_add(1);
                if mix >> 126 != 0 && m.iter().zip(&v).all(|(m, v)| *m == -1 || *v == -1) {
                    v.iter_mut().zip(m).filter(|x| *x.1 != -1).for_each(|x| *x.0 = *x.1);
                }
            }
            if v != tries[n].0 {
                tries.push((v, pass));
            }
        }
        for (v, pass) in tries {
            let mut kc = l.ch.fork();
            let (c, f, args) = call(l, v);
            let out = kc.tx(&who, &c, f, args);
            if out.resource() {
                continue;
            }
            let what = || format!("{f} {:?} with limits {v:?} (the swap's fee, time and amounts being {} bps, {now}) at {:?}: {:?}", s.n, p.fee, me.snap.res[k], out.res.as_ref().err());
            if pass {
                l.want(prop, "met-limit-refused", out.ok(), what);
            } else {
                l.want(prop, "limit-broken", !out.ok(), what);
            }
        }
    }

    /// an upgrade of a constant-product pool sets its default slippage (n: pool, basis points)
    fn upslip(&mut self, l: &mut Lab, s: &Step) {
        let Some(k) = self.pi(s.arg(0)) else { return };
        let p = self.pool[k].clone();
        if p.stable {
            return;
        }
        let who = acct(s.who);
        let code = l.other(NAMES[k].0, w::POOL);
        if s.arg(2) == 1 {
            // the other entry point leaves it alone
            let out = l.act(&who, &p.addr, "update", vec![bytes(&code)], &[acct(p.admin)]);
            self.after(l, s.who, out.ok(), "upslip", None, false);
            if out.ok() {
                let e = l.alt.entry(NAMES[k].0).or_insert(false);
                *e = !*e;
                self.same_slip(l, "C23", k);
            } else if s.who == p.admin && !out.resource() {
                l.viol("C23", "update-refused", format!("the admin cannot update pool {k}: {:?}", out.res));
            }
            self.check_config(l, k, "C23");
            return;
        }
        let out = l.act(&who, &p.addr, "upgrade", vec![bytes(&code), i64v(s.arg(1) as i64)], &[acct(p.admin)]);
        self.after(l, s.who, out.ok(), "upslip", None, false);
        let good = (0..=10_000).contains(&s.arg(1));
        if out.ok() {
            let e = l.alt.entry(NAMES[k].0).or_insert(false);
            *e = !*e;
            l.want("C15", "default-slippage-range", good, || format!("an upgrade set the default slippage of pool {k} to {} bps", s.arg(1)));
            self.pool[k].dslip = s.arg(1);
            self.same_slip(l, "C15", k);
        } else if s.who == p.admin && good && !out.resource() {
            l.viol("C15", "default-slippage-refused", format!("the admin cannot set the default slippage of pool {k} to {} bps: {:?}", s.arg(1), out.res));
        }
        self.check_config(l, k, "C15");
    }

    /// a deposit without a tolerance goes through exactly when one naming the default does
    fn same_slip(&mut self, l: &mut Lab, prop: &'static str, k: usize) {
        let p = self.pool[k].clone();
        let r = self.snap.res[k];
        if r[0] < 1_000_000 || r[1] < 1_000_000 || r[0].max(r[1]) > i128::MAX / 1_000_000 {
            return;
        }
        let d = p.dslip.clamp(0, 9_000);
        let who = acct(2);
        // where every tolerance may be named
        let mut free = l.ch.fork();
        let none = || ScVal::Void;
        let args = vec![none(), none(), none(), i64v(10_000), none(), none()];
        if !free.tx(&acct(p.admin), &p.addr, "update_config", args).ok() {
            return;
        }
        for off in [0, d / 2, d - 1, d, d + 1, p.slip.min(d), p.slip + 1, d + 400] {
            // how far the deposit is from the pool's ratio, in either direction
            let b = crate::refm::muldiv(r[1] / 50, 10_000, (10_000 - off).max(1));
            for (x, y) in [(r[0] / 50, b), (crate::refm::muldiv(r[0] / 50, 10_000, (10_000 - off).max(1)), r[1] / 50)] {
                let call = |v: i128| vec![who.val(), oi(Some(x)), oi(None), oi(Some(y)), oi(None), oi64(v), ScVal::Void];
                let mut ok = [false; 2];
                for (z, v) in [-1, p.dslip].into_iter().enumerate() {
                    let mut kc = if z == 0 { l.ch.fork() } else { free.fork() };
                    let o = kc.tx(&who, &p.addr, "provide_liquidity", call(v));
                    if o.resource() {
                        return;
                    }
                    ok[z] = o.ok();
                }
                l.c("probe:same_slip");
                l.want(prop, "default-slippage", ok[0] == ok[1], || {
                    format!("pool {k} {r:?}: a deposit of {x} and {y} at the default slippage of {} bps: {}, naming the same tolerance: {}", p.dslip, ok[0], ok[1])
                });
            }
        }
    }

    /// a multihop swap along a path that does not connect (n: amount, type, shape, pool, pool, dir, dir)
    fn crooked(&mut self, l: &mut Lab, s: &Step) {
        let who = acct(s.who);
        let leg = |me: &Dex, k: i128, d: i128| me.pi(k).map(|k| (if d & 1 == 0 { (me.pool[k].a, me.pool[k].b) } else { (me.pool[k].b, me.pool[k].a) }));
        let (Some(x), Some(y)) = (leg(self, s.arg(3), s.arg(5)), leg(self, s.arg(4), s.arg(6))) else { return };
        let legs = match s.arg(2) {
            0 => vec![],
            // connected at one end, broken at the other
            1 => vec![x, (x.1, x.0), y],
            _ => vec![x, y],
        };
        let open = |v: &[(usize, usize)]| v.windows(2).any(|w| w[0].1 != w[1].0);
        let back: Vec<(usize, usize)> = legs.iter().rev().copied().collect();
        let ops = |me: &Dex, v: &[(usize, usize)]| {
            vecv(v.iter().map(|(a, b)| st(&[("ask_asset", me.tok[*b].a.val()), ("offer_asset", me.tok[*a].a.val()), ("ask_asset_min_amount", ScVal::Void)])).collect())
        };
        let mh = self.mh.clone();
        let ty = u32v((s.arg(1) & 1) as u32);
        if legs.is_empty() || open(&legs) {
            let fw = l.q(&mh, "simulate_swap", vec![ops(self, &legs), i(s.arg(0)), ty.clone()]);
            l.want("C05", "crooked-quote", fw.is_err(), || format!("swaps {legs:?} that do not connect are quoted: {fw:?}"));
            let rv = l.q(&mh, "simulate_reverse_swap", vec![ops(self, &back), i(s.arg(0)), ty.clone()]);
            l.want("C05", "crooked-reverse", rv.is_err(), || format!("swaps {back:?} that do not connect are quoted: {rv:?}"));
            let args = vec![who.val(), ops(self, &legs), ScVal::Void, i(s.arg(0)), ty, ScVal::Void, ScVal::Void];
            let out = l.act(&who, &mh, "swap", args, &[who.clone()]);
            l.want("C07", "crooked-swap", !out.ok(), || format!("swaps {legs:?} that do not connect were executed"));
            self.after(l, s.who, out.ok(), "crooked", None, false);
        }
    }

    /// reverse and forward multihop quotes against the pools' own.  n as in hop
    fn hopquotes(&mut self, l: &mut Lab, s: &Step) {
        let path = self.path(s);
        if path.len() < 2 {
            return;
        }
        let n = path.len() - 1;
        let ty = u32v((s.arg(1) & 1) as u32);
        let pools: Option<Vec<usize>> = (0..n).map(|h| self.pool_of(path[h], path[h + 1])).collect();
        let stable = s.arg(1) & 1 == 1;
        let fits = pools.as_ref().map_or(false, |v| v.iter().all(|k| self.pool[*k].stable == stable));
        let mh = self.mh.clone();
        // forward
        let fwd = l.q(&mh, "simulate_swap", vec![vecv(self.ops(s, &path)), i(s.arg(0)), ty.clone()]);
        let mut amt = s.arg(0);
        let mut coms = vec![];
        let mut sps = vec![];
        let mut good = pools.is_some();
        if let Some(ps) = &pools {
            for h in 0..n {
                match l.q(&self.pool[ps[h]].addr.clone(), "simulate_swap", vec![self.tok[path[h]].a.val(), i(amt)]) {
                    Ok(v) => {
                        amt = fi(&v, &["ask_amount"]).unwrap_or(-1);
                        coms.push(fi(&v, &["commission_amount"]));
                        sps.push(fi(&v, &["spread_amount"]));
                    }
                    Err(_) => {
                        good = false;
                        break;
                    }
                }
            }
        }
        let lists = |v: &ScVal| -> (Vec<Option<i128>>, Vec<Option<i128>>) {
            (
                fld(v, "commission_amounts").and_then(rv).unwrap_or_default().iter().map(|x| at(x, 1).as_ref().and_then(ri)).collect(),
                fld(v, "spread_amount").and_then(rv).unwrap_or_default().iter().map(ri).collect(),
            )
        };
        match &fwd {
            Ok(v) => {
                let (c, sp) = lists(v);
                let a = fi(v, &["ask_amount"]).unwrap_or(-1);
                l.want("C05", "hop-quote", good && a == amt && c == coms && sp == sps, || {
                    format!("multihop {path:?} of {} is quoted {a} (fees {c:?}, spreads {sp:?}), pool by pool {amt} ({coms:?}, {sps:?})", s.arg(0))
                });
            }
            Err(e) => {
                let res = e.contains("udget");
                l.want("C05", "hop-quote-fails", !good || res, || format!("multihop {path:?} cannot be quoted although its pools can: {e}"));
            }
        }
        // reverse: operations in reverse order, amount wanted in the last token
        if !fits {
            return;
        }
        let ps = pools.unwrap();
        let y = &self.pool[ps[n - 1]];
        let rl = self.snap.res[ps[n - 1]];
        let have = if path[n] == y.a { rl[0] } else { rl[1] };
        let want = s.arg(0).min(have / 20);
        if want <= 0 {
            return;
        }
        let mut ops = self.ops(s, &path);
        ops.reverse();
        let rev = l.q(&mh, "simulate_reverse_swap", vec![vecv(ops), i(want), ty]);
        let mut amt = want;
        let mut coms = vec![];
        let mut sps = vec![];
        let mut good = true;
        for h in (0..n).rev() {
            let arg = if stable { self.tok[path[h]].a.val() } else { self.tok[path[h + 1]].a.val() };
            match l.q(&self.pool[ps[h]].addr.clone(), "simulate_reverse_swap", vec![arg, i(amt)]) {
                Ok(v) => {
                    amt = fi(&v, &["offer_amount"]).unwrap_or(-1);
                    coms.push(fi(&v, &["commission_amount"]));
                    sps.push(fi(&v, &["spread_amount"]));
                }
                Err(_) => {
                    good = false;
                    break;
                }
            }
        }
        match &rev {
            Ok(v) => {
                let (c, sp) = lists(v);
                let a = fi(v, &["offer_amount"]).unwrap_or(-1);
                l.want("C05", "hop-reverse", good && a == amt && c == coms && sp == sps, || {
                    format!("buying {want} along {path:?} is quoted {a} (fees {c:?}, spreads {sp:?}), pool by pool {amt} ({coms:?}, {sps:?})")
                });
                l.c("probe:hop_reverse_quote");
            }
            Err(e) => {
                let res = e.contains("udget");
                l.want("C05", "hop-reverse-fails", !good || res, || format!("the reverse quote along {path:?} fails although its pools answer: {e}"));
            }
        }
    }

    fn some_amount(&self, r: &mut Rng, have: i128, typical: i128) -> i128 {
        match r.weighted(&[8, 3, 1, 1]) {
            0 => r.log(1, typical.max(1)).min(have.max(1)),
            1 => r.log(1, have.max(1)),
            2 => have.max(0) + r.range(-1, 1),
            _ => r.range(-2, 20),
        }
    }
    fn gen_limits(&self, l: &Lab, r: &mut Rng, p: &Pool, net: i128) -> (i128, i128, i128, i128) {
        let min = match r.weighted(&[5, 3, 1, 1]) {
            0 => -1,
            1 => net - net / r.range(2, 1000),
            2 => net,
            _ => net + r.range(0, 2),
        };
        let spread = match r.weighted(&[6, 3, 1]) {
            0 => -1,
            1 => r.range(0, p.spread.max(1)),
            _ => *r.pick(&[p.spread, p.spread + 1, 10_000, 0]),
        };
        let deadline = match r.weighted(&[5, 3, 1]) {
            0 => -1,
            1 => self.now(l) + r.log(1, 100_000),
            _ => self.now(l) + r.range(-2, 6),
        };
        let fee = match r.weighted(&[6, 2, 1]) {
            0 => -1,
            1 => r.range(p.fee, 10_000),
            _ => (p.fee + r.range(-1, 1)).max(-1),
        };
        (min, spread, deadline, fee)
    }
    fn walk(&self, r: &mut Rng) -> Vec<usize> {
        let len = if r.p(60) { r.range(5, 7) } else { r.range(1, 4) } as usize;
        let mut v = vec![r.idx(self.tok.len())];
        for _ in 0..len {
            let cur = *v.last().unwrap();
            let next: Vec<usize> = (0..self.tok.len()).filter(|t| self.pool_of(cur, *t).is_some() && *t != cur).collect();
            if next.is_empty() || r.p(30) {
                v.push(r.idx(self.tok.len()));
            } else {
                // mostly onwards, sometimes back
                let fresh: Vec<usize> = next.iter().copied().filter(|t| !v.contains(t)).collect();
                v.push(if fresh.is_empty() || r.p(100) { *r.pick(&next) } else { *r.pick(&fresh) });
            }
        }
        v
    }
}

impl World for Dex {
    fn gen(&mut self, l: &mut Lab, r: &mut Rng) -> Step {
        let f = l.focus.unwrap_or("");
        let u = *r.pick(&self.users);
        let np = self.pool.len();
        if std::mem::take(&mut self.recoded) && r.p(600) {
            // right after the code of new contracts changed
            let nt = self.tok.len();
            let free: Vec<_> = (0..nt).flat_map(|x| (x + 1..nt).map(move |y| (x, y))).filter(|(x, y)| self.pool_of(*x, *y).is_none()).collect();
            if !free.is_empty() && !self.white.is_empty() {
                let (x, y) = *r.pick(&free);
                let who = *r.pick(&self.white.iter().copied().collect::<Vec<_>>());
                return self.create_step(who, x as i128, y as i128, r.range(0, 1));
            }
        }
        if np == 0 || (f == "C08" && r.p(200)) || r.p(8) {
            // create
            let nt = self.tok.len() as i128;
            let (mut x, mut y) = (r.range(0, nt - 1), r.range(0, nt - 1));
            if x > y && r.p(800) {
                std::mem::swap(&mut x, &mut y);
            }
            let who = if r.p(700) { *r.pick(&self.white.iter().copied().collect::<Vec<_>>()) } else { *r.pick(&[ATT, u, OWNER, ADMIN]) };
            let mut st = self.create_step(who, x, y, r.range(0, 1));
            if r.p(400) {
                for k in [3usize, 5, 6, 7, 8] {
                    st.n[k] = r.range(0, 10_000);
                }
            }
            if r.p(300) {
                let k = *r.pick(&[3usize, 4, 5, 6, 7, 8, 9, 9, 10, 11]);
                st.n[k] = if k == 9 { *r.pick(&[-1, 0, 1, 1_000_000, 1_000_001]) } else { *r.pick(&[-1, 0, 1, 10_000, 10_001]) };
            }
            if r.p(300) {
                st.n[4] = r.range(0, 10_000);
                st.n[3] = st.n[3].min(st.n[4] + r.range(0, 1));
            }
            st.n[10] = if r.p(900) { r.log(1, 1000) } else { st.n[10] };
            st.n[11] = if r.p(900) { r.log(1, 1000) } else { st.n[11] };
            if r.p(300) {
                st.n[12] = *r.pick(&[ADMIN, OWNER, 2]) as i128;
                st.n[13] = *r.pick(&[FEE, OWNER, 2]) as i128;
            }
            return st;
        }
        // pools without liquidity come first
        if let Some(k) = (0..np).find(|k| self.snap.res[*k][2] == 0) {
            if r.p(700) {
                let p = &self.pool[k];
                let vast = self.scale > 500_000 * 10i128.pow(12 - self.tok[p.a].dec.max(self.tok[p.b].dec)) && r.p(500);
                let lo = *r.pick(&[2, 10, 19]);
                let base = if vast && !p.stable { r.range(self.scale * lo, self.scale * 20) } else if vast { r.range(self.scale, self.scale * 2) } else { r.log(1, self.scale * 2) };
                let (x, y) = if p.stable && r.p(if f == "C06" { 400 } else { 600 }) { (base, base * r.range(50, 200) / 100) } else { (base, if vast { base * r.range(50, 200) / 100 } else { r.log(1, self.scale * 2) }) };
                let amt = |r: &mut Rng, t: usize, w: i128| (w.max(1) * 10i128.pow(self.tok[t].dec) + r.range(0, 9999)).min(self.bal(t, u) / 2);
                let (a, c) = (amt(r, p.a, x), amt(r, p.b, y));
                let (a, c) = if r.p(60) { (r.log(1, 3000), r.log(1, 3000)) } else { (a, c) };
                return Step::new("deposit", u, vec![k as i128, a, c, -1, -1, -1, -1]);
            }
        }
        let k = r.idx(np);
        let p = self.pool[k].clone();
        let r0 = self.snap.res[k];
        let nt = self.tok.len();
        let w: [u32; 16] = match f {
            "C01" => [25, 18, 14, 10, 5, 2, 10, 4, 1, 1, 1, 2, 2, 0, 6, 3],
            "C02" => [15, 35, 30, 2, 0, 0, 5, 1, 0, 0, 0, 4, 2, 0, 1, 1],
            "C06" => [55, 12, 8, 4, 2, 1, 2, 4, 0, 0, 10, 0, 0, 0, 1, 1],
            "C03" => [60, 12, 8, 4, 2, 1, 2, 4, 0, 0, 1, 0, 0, 0, 1, 1],
            "C04" => [33, 18, 14, 20, 4, 0, 2, 6, 0, 0, 16, 0, 0, 0, 1, 1],
            "C05" => [14, 10, 12, 10, 0, 0, 2, 3, 0, 0, 40, 0, 0, 25, 0, 1],
            "C07" => [10, 10, 5, 50, 0, 0, 2, 2, 0, 0, 0, 0, 0, 4, 8, 6],
            "C08" => [6, 10, 5, 2, 0, 0, 2, 6, 8, 5, 0, 8, 16, 0, 1, 1],
            "C15" => [20, 10, 4, 8, 2, 0, 1, 35, 8, 8, 0, 0, 0, 0, 1, 1],
            "C20" => [12, 8, 3, 3, 40, 20, 3, 3, 0, 0, 12, 0, 0, 0, 4, 3],
            "C24" => [22, 18, 12, 20, 18, 8, 4, 4, 1, 1, 2, 2, 2, 0, 8, 2],
            _ => [25, 15, 12, 14, 6, 3, 4, 5, 2, 2, 2, 3, 2, 1, 3, 2],
        };
        let dirs = r.range(0, 1);
        let (to, ta) = p.tok(dirs);
        let x0 = if dirs == 0 { r0[0] } else { r0[1] };
        match r.weighted(&w) {
            0 => {
                let dv = *r.pick(&[1, 10, 100, 1000]);
                let amt = self.some_amount(r, self.bal(to, u), x0 / dv);
                let net = self.quote(&p, &r0, dirs, amt).map_or(0, |q| q.1 - muldiv(q.1, p.fee, 10_000));
                let (a, b2, c, d) = self.gen_limits(l, r, &p, net);
                let dir = if r.p(15) { dirs | 2 } else { dirs };
                Step::new("swap", u, vec![k as i128, dir, amt, a, b2, c, d])
            }
            1 => {
                let (ba, bb) = (self.bal(p.a, u), self.bal(p.b, u));
                let frac = *r.pick(&[1, 3, 10, 100, 10_000, 1_000_000]);
                let mut a = r.log(1, (r0[0] / frac).max(2)).min(ba.max(1));
                let mut c = if r0[0] > 0 { muldiv(a, r0[1], r0[0]).max(1) } else { r.log(1, bb.max(1)) };
                match r.weighted(&[5, 3, 2, 1]) {
                    0 => (),
                    1 => c += muldiv(c, r.range(-300, 300), 10_000) + r.range(-2, 2),
                    2 => c = r.log(1, bb.max(1)),
                    _ => {
                        a = r.range(-1, 30);
                        c = r.range(-1, 30)
                    }
                }
                let c = c.min(bb.max(1));
                let (m1, m2) = if p.stable {
                    let sum = |x: i128, y: i128| b(x) * pow10(18 - self.tok[p.a].dec) + b(y) * pow10(18 - self.tok[p.b].dec);
                    let e = if r0[2] > 0 { refm::i(sum(a.max(0), c.max(0)) * b(r0[2]) / sum(r0[0].max(1), r0[1].max(1))) } else { 0 };
                    (match r.weighted(&[5, 3, 1]) { 0 => -1, 1 => e - e / r.range(2, 10_000), _ => e + r.range(-1, 2) }, -1)
                } else {
                    let m = |r: &mut Rng, v: i128| match r.weighted(&[5, 3, 1]) { 0 => -1, 1 => (v - v / r.range(2, 1000)).max(1), _ => v + r.range(-1, 1) };
                    (m(r, a), m(r, c))
                };
                let slip = match r.weighted(&[6, 3, 1]) { 0 => -1, 1 => r.range(0, p.slip.max(1)), _ => *r.pick(&[p.slip, p.slip + 1, 10_000]) };
                let dl = match r.weighted(&[5, 3, 1]) { 0 => -1, 1 => self.now(l) + r.log(1, 100_000), _ => self.now(l) + r.range(-2, 6) };
                Step::new("deposit", u, vec![k as i128, a, c, m1, m2, slip, dl])
            }
            2 => {
                let have = self.bal(nt + k, u);
                let sh = match r.weighted(&[6, 3, 1, 1]) { 0 => r.log(1, have.max(1)), 1 => have, 2 => have + 1, _ => r.range(-1, 5) };
                let part = |x: i128| if r0[2] > 0 && sh > 0 { muldiv(x, sh, r0[2]) } else { 0 };
                let m = |r: &mut Rng, v: i128| match r.weighted(&[6, 3, 1]) { 0 => 1, 1 => (v - v / r.range(2, 1000)).max(1), _ => v + r.range(-1, 1) };
                let (m1, m2) = (m(r, part(r0[0])), m(r, part(r0[1])));
                let dl = match r.weighted(&[5, 3, 1]) { 0 => -1, 1 => self.now(l) + r.log(1, 100_000), _ => self.now(l) + r.range(-2, 6) };
                Step::new("withdraw", u, vec![k as i128, sh, m1, m2, dl])
            }
            3 | 13 if r.p(25) => {
                // swaps that do not connect, or none at all
                let (a, c) = (r.idx(np) as i128, r.idx(np) as i128);
                Step::new("crooked", u, vec![r.log(1, 1_000_000), r.range(0, 1), r.range(0, 3), a, c, r.range(0, 1), r.range(0, 1)])
            }
            3 | 13 => {
                let quote = f == "C05" && r.p(600);
                let path = self.walk(r);
                let first = self.pool_of(path[0], path[1]).map(|k| self.snap.res[k][if self.pool[k].a == path[0] { 0 } else { 1 }]).unwrap_or(1000);
                let dv = *r.pick(&[2, 10, 100, 1000]);
                let amt = self.some_amount(r, self.bal(path[0], u), first / dv);
                let ty = match self.pool_of(path[0], path[1]) {
                    Some(k) if r.p(950) => self.pool[k].stable as i128,
                    _ => r.range(0, 1),
                };
                // what the path would pay, by the pools' own curves
                let mut a = amt;
                let mut firstnet = -1;
                let mut maxsp = 10_000;
                for h in 0..path.len() - 1 {
                    if let Some(k) = self.pool_of(path[h], path[h + 1]) {
                        let q = &self.pool[k];
                        let d = if q.a == path[h] { 0 } else { 1 };
                        a = self.quote(q, &self.snap.res[k], d, a).map_or(0, |x| x.1 - muldiv(x.1, q.fee, 10_000));
                        maxsp = maxsp.min(q.spread);
                        if h == 0 {
                            firstnet = a;
                        }
                    }
                }
                let (mut mn, mut sp, dl, fee) = self.gen_limits(l, r, &p, a);
                if sp > maxsp && r.p(800) {
                    sp = -1;
                }
                if mn > a && r.p(500) {
                    mn = -1;
                }
                let mf = if path.len() > 2 && r.p(150) { firstnet + r.range(-2, 1) } else { -1 };
                let mut n = vec![amt, ty, sp, dl, fee, mn, mf];
                n.extend(path.iter().map(|x| *x as i128));
                Step::new(if quote { "hopquotes" } else { "hop" }, u, n)
            }
            4 => {
                let Some((tr, ta2, tb2, _)) = &self.trader else { return Step::new("portfolio", u, vec![]) };
                let ks: Vec<usize> = (0..np).filter(|k| self.pool[*k].a == *ta2 || self.pool[*k].b == *tb2 || self.pool[*k].a == *tb2 || self.pool[*k].b == *ta2).collect();
                let k = if ks.is_empty() { k } else { *r.pick(&ks) };
                let p = self.pool[k].clone();
                let h = self.hidx(tr).unwrap();
                let side = r.range(0, 1);
                let t = if side == 0 { *ta2 } else { *tb2 };
                let have = self.snap.bal[t][h];
                let x = if p.a == t { self.snap.res[k][0] } else { self.snap.res[k][1] };
                let dv = *r.pick(&[2, 10, 100, 1000]);
                let amt = if r.p(200) { -1 } else if r.p(40) { 0 } else { self.some_amount(r, have, x / dv).clamp(0, u64::MAX as i128) };
                let amt = if amt >= 0 && have >> 63 > 0 && r.p(300) { r.range(1 << 63, have.min(u64::MAX as i128)) } else { amt };
                let dir = if p.a == t { 0 } else { 1 };
                let net = self.quote(&p, &self.snap.res[k], dir, if amt < 0 { have } else { amt }).map_or(0, |q| q.1 - muldiv(q.1, p.fee, 10_000));
                let (mn, sp, dl, fee) = self.gen_limits(l, r, &p, net);
                let who = if r.p(850) { ADMIN } else { *r.pick(&[ATT, u, FEE]) };
                Step::new("trade", who, vec![k as i128, amt, sp, dl, mn, fee, if r.p(950) { side } else { 7 }])
            }
            5 => {
                let who = if r.p(800) { ADMIN } else { *r.pick(&[ATT, u]) };
                let t = r.range(-1, nt as i128 - 1);
                let have = match &self.trader {
                    Some((tr, .., o2)) => self.snap.bal[if t < 0 { *o2 } else { t as usize }][self.hidx(tr).unwrap()],
                    None => 0,
                };
                Step::new("ttransfer", who, vec![*r.pick(&[ADMIN, u, ATT, OWNER]) as i128, t, self.some_amount(r, have, have / 4)])
            }
            6 => {
                // to a pool, the multihop contract, the trader
                let t = if r.p(800) { *r.pick(&[p.a, p.b]) } else { r.idx(nt) };
                Step::new("donate", u, vec![r.range(0, 9), k as i128, t as i128, r.log(1, self.bal(t, u).max(2) / 20)])
            }
            7 if !p.stable && r.p(if f == "C23" { 400 } else { 120 }) => {
                let who = if r.p(850) { p.admin } else { *r.pick(&[ATT, u, ADMIN, FEE]) };
                Step::new("upslip", who, vec![k as i128, match r.weighted(&[4, 3]) { 0 => *r.pick(&[0, 1, 100, 500, 2000, 10_000]), _ => *r.pick(&[-1, 10_001, 20_000, i64::MAX as i128, self.pool[k].slip, self.pool[k].slip + 1, self.pool[k].slip * 2]) }, if r.p(if f == "C23" { 700 } else { 250 }) { 1 } else { 0 }])
            }
            7 => {
                let who = if r.p(if f == "C09" { 600 } else { 800 }) { p.admin } else { *r.pick(&[ATT, u, ADMIN, FEE, p.rec, OWNER]) };
                let m = if r.p(300) { 1 << r.range(0, 5) } else { r.range(0, 63) };
                let bp = |r: &mut Rng, on: bool| {
                    if !on {
                        -1
                    } else {
                        match r.weighted(&[8, 1, 1]) { 0 => *r.pick(&[0, 1, 30, 100, 500, 1000, 5000, 10_000]), 1 => r.range(0, 10_000), _ => *r.pick(&[-2, 10_001, 20_000]) }
                    }
                };
                let mut fee = bp(r, m & 1 == 1);
                if fee > 1000 && fee <= 10_000 && r.p(800) {
                    fee = 100;
                }
                let rec = if m & 2 == 2 { *r.pick(&[FEE, OWNER, ADMIN, u]) as i128 } else { -1 };
                let (a, c, d) = (bp(r, m & 4 == 4), bp(r, m & 8 == 8), bp(r, m & 16 == 16));
                let adm = if m & 32 == 32 && r.p(400) { *r.pick(&[ADMIN, OWNER, u]) as i128 } else { -1 };
                Step::new("config", who, vec![k as i128, fee, rec, a, c, d, adm])
            }
            8 => {
                let who = if r.p(800) { ADMIN } else { *r.pick(&[ATT, u, OWNER]) };
                // everybody off the list, one on it, anything
                let (add, rem) = (r.range(0, 31), r.range(0, 31));
                Step::new("whitelist", who, if r.p(150) { vec![0, 31] } else if r.p(300) { vec![1 << r.range(0, 4), 0] } else { vec![add, rem] })
            }
            9 => {
                let who = if r.p(800) { ADMIN } else { *r.pick(&[ATT, u, OWNER]) };
                self.recoded = true;
                Step::new("hashes", who, vec![r.range(0, 15)])
            }
            10 => {
                let dv = *r.pick(&[1, 10, 100, 10_000]);
                let amt = r.log(1, (x0 / dv).max(2)).min(self.bal(to, u).max(1));
                let _ = ta;
                if f == "C20" {
                    if let Some((tr, ta2, tb2, _)) = &self.trader {
                        let h = self.hidx(tr).unwrap();
                        let side = r.range(0, 1);
                        let t = if side == 0 { *ta2 } else { *tb2 };
                        let x = if p.a == t { r0[0] } else { r0[1] };
                        let amt = if r.p(200) { -1 } else { r.log(1, (x / dv).max(2)).min(self.snap.bal[t][h].max(1)) };
                        return Step::new("edges", ADMIN, vec![4, k as i128, side, amt]);
                    }
                }
                if f == "C04" {
                    let (kind, mut n) = match r.weighted(&[4, 2, 2, 3]) {
                        0 => (0, vec![k as i128, dirs, amt]),
                        1 => {
                            let a = r.log(1, (r0[0] / 10).max(2)).min(self.bal(p.a, u).max(1));
                            let c = if r0[0] > 0 { muldiv(a, r0[1], r0[0]).max(1) } else { 1 };
                            if r.p(200) {
                                // misses the ratio by whole basis points
                                let (a, q) = (10_000 * r.log(1, 1000), r.range(1, 300));
                                (1, vec![k as i128, a, muldiv(muldiv(a, 10_000 + if r.p(500) { q } else { -q }, 10_000), r0[1], r0[0].max(1)).max(1)])
                            } else {
                                (1, vec![k as i128, a, if r.p(500) { c } else { c + muldiv(c, r.range(-200, 200), 10_000) }])
                            }
                        }
                        2 => (2, vec![k as i128, r.log(1, self.bal(nt + k, u).max(1))]),
                        _ => {
                            let path = self.walk(r);
                            let k0 = self.pool_of(path[0], path[1]);
                            let x = k0.map_or(1000, |k| self.snap.res[k][if self.pool[k].a == path[0] { 0 } else { 1 }]);
                            let ty = k0.map_or(0, |k| self.pool[k].stable as i128);
                            let x = if r.p(100) { 3 } else { (x / 10).max(2) };
                            let mut v = vec![r.log(1, x).min(self.bal(path[0], u).max(1)), ty];
                            v.extend(path.iter().map(|x| *x as i128));
                            (3, v)
                        }
                    };
                    n.insert(0, kind);
                    return Step::new("edges", u, n);
                }
                // quotes of trades larger than the pool
                let amt = if r.p(120) { r.range(x0 / 2, x0.saturating_mul(3)).max(1) } else { amt };
                Step::new("quotes", u, vec![k as i128, dirs, amt])
            }
            11 => {
                let have = self.bal(nt + k, u);
                Step::new("bond", u, vec![k as i128, r.log(1, have.max(1))])
            }
            12 => Step::new("portfolio", u, vec![]),
            14 if self.tokfail > 0 => {
                let t = r.idx(nt) as i128;
                if r.p(if f == "C24" { 850 } else { 500 }) { Step::new("tokfee", u, vec![t, *r.pick(if f == "C24" { &[0, 1, 5, 30, 100, 1000] } else { &[0, 0, 1, 100, 1000, 1000] })]) } else { Step::new("tokfail", u, vec![t, r.range(-1, 5)]) }
            }
            _ => {
                let have = self.bal(nt + k, u);
                let to = if r.p(250) { r.range(20, 21) } else { *r.pick(&self.users) as i128 };
                Step::new("lpmove", u, vec![k as i128, to, r.log(1, have.max(1))])
            }
        }
    }

    fn apply(&mut self, l: &mut Lab, s: &Step) {
        let who = acct(s.who);
        if self.hidx(&who).is_none() {
            return;
        }
        let nt = self.tok.len();
        match s.op.as_str() {
            "swap" => self.swap(l, s),
            "deposit" => self.deposit(l, s),
            "withdraw" => self.withdraw(l, s),
            "hop" => self.hop(l, s),
            "edges" => self.edges(l, s),
            "hopquotes" => self.hopquotes(l, s),
            "trade" => self.trade(l, s),
            "ttransfer" => self.ttransfer(l, s),
            "config" => self.config(l, s),
            "create" => self.create(l, s),
            "quotes" => self.quotes(l, s),
            "crooked" => self.crooked(l, s),
            "upslip" => self.upslip(l, s),
            "portfolio" => self.portfolio(l, s.who),
            "donate" => {
                let t = s.arg(2).unsigned_abs() as usize % nt;
                let to = match s.arg(0).rem_euclid(10) {
                    0..=6 => match self.pi(s.arg(1)) {
                        Some(k) => self.pool[k].addr.clone(),
                        None => return,
                    },
                    7 => self.mh.clone(),
                    _ => self.trader.as_ref().map_or(self.mh.clone(), |x| x.0.clone()),
                };
                let o2 = l.act(&who, &self.tok[t].a.clone(), "transfer", vec![who.val(), to.val(), i(s.arg(3))], &[who.clone()]);
                self.after(l, s.who, o2.ok(), "donation", None, true);
            }
            "lpmove" => {
                let Some(k) = self.pi(s.arg(0)) else { return };
                // shares also end up where they do not belong: the pool itself, its stake contract
                let to = match s.arg(1) {
                    20 => self.pool[k].addr.clone(),
                    21 => self.pool[k].stake.clone(),
                    x => acct(x.clamp(1, 9) as u8),
                };
                let Some(h) = self.hidx(&to) else { return };
                let o2 = l.act(&who, &self.pool[k].lp.clone(), "transfer", vec![who.val(), to.val(), i(s.arg(2))], &[who.clone()]);
                let old = self.after(l, s.who, o2.ok(), "lp transfer", None, false);
                if o2.ok() {
                    let u = self.uidx(s.who);
                    self.moved(l, "C21", "lp transfer", &old, &[Move { asset: nt + k, from: Some(u), to: Some(h), amt: s.arg(2) }]);
                }
            }
            "bond" => {
                let Some(k) = self.pi(s.arg(0)) else { return };
                let o2 = l.act(&who, &self.pool[k].stake.clone(), "bond", vec![who.val(), i(s.arg(1))], &[who.clone()]);
                let old = self.after(l, s.who, o2.ok(), "bond", None, false);
                if o2.ok() {
                    let (u, h) = (self.uidx(s.who), self.hidx(&self.pool[k].stake.clone()).unwrap());
                    self.moved(l, "C11", "bond", &old, &[Move { asset: nt + k, from: Some(u), to: Some(h), amt: s.arg(1) }]);
                    self.portfolio(l, s.who);
                }
            }
            "whitelist" => {
                let list = |m: i128| -> Vec<u8> { [2u8, 3, OWNER, ADMIN, MANAGER].iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|x| *x.1).collect() };
                let (add, rem) = (list(s.arg(0)), list(s.arg(1)));
                let v = |x: &[u8]| vecv(x.iter().map(|a| acct(*a).val()).collect());
                let o2 = l.act(&who, &self.fac.clone(), "update_whitelisted_accounts", vec![who.val(), v(&add), v(&rem)], &[acct(ADMIN)]);
                if o2.ok() {
                    l.want("C09", "whitelist-stranger", s.who == ADMIN, || "a stranger changed the whitelist".into());
                    self.white.extend(add);
                    for x in rem {
                        self.white.remove(&x);
                    }
                } else if s.who == ADMIN {
                    l.want("C15", "whitelist-refused", o2.resource(), || format!("the admin cannot change the whitelist: {:?}", o2.res));
                }
                self.after(l, s.who, o2.ok(), "whitelist", None, false);
                self.factory_config(l);
                // who can create a pool now
                let free = (0..nt).flat_map(|x| (0..nt).map(move |y| (x, y))).find(|(x, y)| self.tok[*x].a < self.tok[*y].a && self.pool_of(*x, *y).is_none());
                if let Some((x, y)) = free {
                    for u in [2u8, 3, OWNER, ADMIN, MANAGER, ATT] {
                        let args = self.create_args(&self.create_step(u, x as i128, y as i128, s.arg(1) & 1));
                        let o3 = l.ch.fork().tx(&acct(u), &self.fac.clone(), "create_liquidity_pool", args);
                        let may = self.white.contains(&u);
                        l.want("C08", "create-as-listed", o3.ok() == may || o3.resource(), || {
                            format!("with the whitelist {:?} a pool created by {} gives {:?}", self.white, name_of(&acct(u)), o3.res.as_ref().err())
                        });
                    }
                }
                if self.white.is_empty() {
                    // keep the run going
                    let o3 = l.act(&acct(ADMIN), &self.fac.clone(), "update_whitelisted_accounts", vec![acct(ADMIN).val(), v(&[ADMIN]), v(&[])], &[acct(ADMIN)]);
                    if o3.ok() {
                        self.white.insert(ADMIN);
                    } else {
                        l.viol("C15", "whitelist-refused", format!("the admin cannot refill the whitelist: {:?}", o3.res));
                        self.white.insert(ADMIN);
                    }
                }
            }
            "hashes" if s.arg(0) >> 3 & 1 == 1 => {
                // an upgrade of the factory sets the code of new stable pools
                let next = if self.hashes[3] == w::STABLE { w::STABLE + w::ALT } else { w::STABLE };
                let code = l.other("factory", w::FACTORY);
                let o2 = l.act(&who, &self.fac.clone(), "update", vec![bytes(&code), bytes(&l.hash[next])], &[acct(ADMIN)]);
                if o2.ok() {
                    l.want("C09", "hashes-stranger", s.who == ADMIN, || "a stranger upgraded the factory".into());
                    self.hashes[3] = next;
                    let e = l.alt.entry("factory").or_insert(false);
                    *e = !*e;
                    l.want("C23", "upgrade-code-factory", l.code_of(&self.fac) == Some(code), || "the factory does not run the code it was upgraded to".into());
                    l.c("fault:factory_upgrade_with_new_stable_code");
                } else if s.who == ADMIN {
                    l.want("C15", "hashes-refused", o2.resource(), || format!("the admin cannot upgrade the factory: {:?}", o2.res));
                }
                self.factory_config(l);
            }
            "hashes" => {
                let m = s.arg(0);
                let base = [w::POOL, w::STAKE, w::TOKEN];
                let mut next = self.hashes;
                let mut args = vec![];
                for k in 0..3 {
                    if m >> k & 1 == 1 {
                        next[k] = if self.hashes[k] == base[k] { base[k] + w::ALT } else { base[k] };
                        args.push(bytes(&l.hash[next[k]]));
                    } else {
                        args.push(ScVal::Void);
                    }
                }
                let o2 = l.act(&who, &self.fac.clone(), "update_wasm_hashes", args, &[acct(ADMIN)]);
                if o2.ok() {
                    l.want("C09", "hashes-stranger", s.who == ADMIN, || "a stranger changed the code new pools get".into());
                    self.hashes = next;
                } else if s.who == ADMIN {
                    l.want("C15", "hashes-refused", o2.resource(), || format!("the admin cannot change the code new pools get: {:?}", o2.res));
                }
                self.factory_config(l);
            }
            "tokfee" | "tokfail" => {
                let t = s.arg(0).unsigned_abs() as usize % nt;
                if !self.tok[t].helper {
                    return;
                }
                if s.op == "tokfee" {
                    let fee = s.arg(1).clamp(0, 5000);
                    if l.ch.tx(&who, &self.tok[t].a.clone(), "set_fee", vec![i(fee)]).ok() {
                        self.tok[t].fee = fee;
                        l.c("fault:token_charges_fee");
                    }
                } else {
                    let v = if s.arg(1) < 0 { ScVal::Void } else { u32v(s.arg(1).min(100) as u32) };
                    if l.ch.tx(&who, &self.tok[t].a.clone(), "set_fail", vec![v]).ok() {
                        self.tok[t].fail = s.arg(1) >= 0;
                        l.c("fault:token_refuses");
                    }
                }
            }
            _ => (),
        }
    }

    fn finish(&mut self, l: &mut Lab) {
        // tokens behave again
        for t in 0..self.tok.len() {
            if self.tok[t].helper {
                let a = self.tok[t].a.clone();
                l.ch.tx(&acct(ADMIN), &a, "set_fail", vec![ScVal::Void]);
                l.ch.tx(&acct(ADMIN), &a, "set_fee", vec![i(0)]);
                self.tok[t].fail = false;
                self.tok[t].fee = 0;
            }
        }
        self.registry(l);
        self.factory_config(l);
        for k in 0..self.pool.len() {
            self.check_config(l, k, "C15");
        }
        let nt = self.tok.len();
        for u in self.users.clone() {
            for k in 0..self.pool.len() {
                if l.stop() {
                    return;
                }
                let have = self.bal(nt + k, u);
                if have > 0 {
                    self.withdraw(l, &Step::new("withdraw", u, vec![k as i128, have, 1, 1, -1]));
                }
            }
        }
    }

    fn probes(&mut self, _l: &mut Lab) -> Vec<Probe> {
        let mut v: Vec<Probe> = vec![
            (self.fac.clone(), "get_config", vec![]),
            (self.fac.clone(), "get_admin", vec![]),
            (self.fac.clone(), "query_pools", vec![]),
            (self.fac.clone(), "query_all_pools_details", vec![]),
        ];
        for p in &self.pool {
            v.push((p.addr.clone(), "query_config", vec![]));
            v.push((p.addr.clone(), "query_pool_info", vec![]));
            v.push((p.addr.clone(), "query_total_issued_lp", vec![]));
            v.push((p.addr.clone(), "simulate_swap", vec![self.tok[p.a].a.val(), i(10i128.pow(self.tok[p.a].dec))]));
            v.push((p.stake.clone(), "query_total_staked", vec![]));
            v.push((self.fac.clone(), "query_for_pool_by_token_pair", vec![self.tok[p.b].a.val(), self.tok[p.a].a.val()]));
            for u in &self.users {
                v.push((p.lp.clone(), "balance", vec![acct(*u).val()]));
                v.push((p.stake.clone(), "query_staked", vec![acct(*u).val()]));
            }
        }
        for u in &self.users {
            v.push((self.fac.clone(), "query_user_portfolio", vec![acct(*u).val(), ScVal::Bool(true)]));
            for t in &self.tok {
                v.push((t.a.clone(), "balance", vec![acct(*u).val()]));
            }
        }
        if let Some((t, ..)) = &self.trader {
            for f in ["query_balances", "query_trading_pairs", "query_admin_address", "query_contract_name", "query_output_token_info"] {
                v.push((t.clone(), f, vec![]));
            }
        }
        v
    }

    fn works(&mut self, l: &mut Lab) -> Vec<Work> {
        let mut v = vec![];
        let nt = self.tok.len();
        let adm = acct(ADMIN);
        let rich = |me: &Dex, t: usize| *me.users.iter().max_by_key(|u| me.bal(t, **u)).unwrap();
        for (k, p) in self.pool.iter().enumerate() {
            let [x, y, sup] = self.snap.res[k];
            let (a, b) = (&self.tok[p.a].a, &self.tok[p.b].a);
            for (dir, r) in [(0, x), (1, y)] {
                let (f, t) = p.tok(dir);
                let u = acct(rich(self, f));
                let amt = (r / 50).min(self.bal(f, rich(self, f)));
                let args = vec![u.val(), self.tok[f].a.val(), i(amt), ScVal::Void, ScVal::Void, ScVal::Void, ScVal::Void];
                v.push(Work::new(&u, &p.addr, "swap", args).see(&self.tok[t].a, &u).see(&self.tok[t].a, &acct(p.rec)));
            }
            // deposits without a limit of their own, at what the pool's default allows
            let n = rich(self, p.b);
            let u = acct(n);
            for miss in if p.stable { vec![0] } else { vec![0, p.dslip - 1, p.dslip + 1] } {
                let da = (x / 100).min(self.bal(p.a, n));
                let db = if x > 0 { muldiv(muldiv(da, y, x), 10_000, (10_000 + miss).max(1)) } else { da };
                let args = if p.stable {
                    vec![u.val(), i(da), i(db), ScVal::Void, ScVal::Void, ScVal::Void]
                } else {
                    vec![u.val(), i(da), ScVal::Void, i(db), ScVal::Void, ScVal::Void, ScVal::Void]
                };
                v.push(Work::new(&u, &p.addr, "provide_liquidity", args).see(&p.lp, &u).see(a, &u).see(b, &u));
            }
            let n = rich(self, nt + k);
            let (u, have) = (acct(n), self.bal(nt + k, n));
            if have > 1 && sup > 0 {
                v.push(Work::new(&u, &p.addr, "withdraw_liquidity", vec![u.val(), i(have / 2), i(1), i(1), ScVal::Void]).see(a, &u).see(b, &u));
                v.push(Work::new(&u, &p.stake, "bond", vec![u.val(), i(have / 2)]).see(&p.lp, &u));
                v.push(Work::new(&u, &p.lp, "transfer", vec![u.val(), adm.val(), i(1)]).see(&p.lp, &adm));
            }
            for n in &self.users {
                let q = l.q(&p.stake, "query_staked", vec![acct(*n).val()]).ok();
                let first = q.as_ref().and_then(|v| fld(v, "stakes").and_then(rv)).and_then(|x| x.first().cloned());
                if let Some(s) = first {
                    let (a, at) = (fi(&s, &["stake"]).unwrap_or(0), fi(&s, &["stake_timestamp"]).unwrap_or(0));
                    v.push(Work::new(&acct(*n), &p.stake, "unbond", vec![acct(*n).val(), i(a), u64v(at as u64)]).see(&p.lp, &acct(*n)));
                }
            }
        }
        if let Some((p, (x, y))) = self.pool.iter().enumerate().find_map(|(k, p)| {
            let q = self.pool.iter().find(|q| (q.a == p.b || q.b == p.b) && q.addr != p.addr)?;
            Some(((p.a, p.b, k), (q.a, q.b)))
        }) {
            let end = if x == p.1 { y } else { x };
            let path = [p.0, p.1, end];
            let n = rich(self, p.0);
            let u = acct(n);
            let amt = (self.snap.res[p.2][0] / 50).min(self.bal(p.0, n));
            let ops = (0..2)
                .map(|h| st(&[("ask_asset", self.tok[path[h + 1]].a.val()), ("offer_asset", self.tok[path[h]].a.val()), ("ask_asset_min_amount", ScVal::Void)]))
                .collect();
            let ty = self.pool[p.2].stable as u32;
            v.push(Work::new(&u, &self.mh, "swap", vec![u.val(), vecv(ops), ScVal::Void, i(amt), u32v(ty), ScVal::Void, ScVal::Void]).see(&self.tok[end].a, &u));
        }
        // another pool
        'new: for x in 0..nt {
            for y in 0..nt {
                if self.tok[x].a < self.tok[y].a && self.pool_of(x, y).is_none() {
                    for t in [0, 1] {
                        for u in self.white.iter().next().into_iter().chain(&[ATT]) {
                            v.push(Work::new(&acct(*u), &self.fac, "create_liquidity_pool", self.create_args(&self.create_step(*u, x as i128, y as i128, t))));
                        }
                    }
                    break 'new;
                }
            }
        }
        if let Some((tr, ta, ..)) = &self.trader {
            if let Some(p) = self.pool.iter().find(|p| p.a == *ta || p.b == *ta) {
                for u in [ADMIN, ATT] {
                    let args = vec![acct(u).val(), self.tok[*ta].a.val(), p.addr.val(), ScVal::Void, ScVal::Void, ScVal::Void, ScVal::Void, ScVal::Void];
                    v.push(Work::new(&acct(u), tr, "trade_token", args).see(&self.tok[p.a].a, tr).see(&self.tok[p.b].a, tr));
                }
            }
        }
        v
    }

    fn targets(&self, l: &mut Lab) -> Vec<Target> {
        let x = acct(ATT);
        let adm = acct(ADMIN);
        let names = NAMES;
        let mut v = vec![
            Target {
                name: "factory",
                c: self.fac.clone(),
                inits: vec![(
                    "initialize",
                    vec![
                        x.val(),
                        bytes(&l.hash[w::MULTIHOP]),
                        bytes(&l.hash[w::POOL]),
                        bytes(&l.hash[w::STABLE]),
                        bytes(&l.hash[w::STAKE]),
                        bytes(&l.hash[w::TOKEN]),
                        vecv(vec![x.val()]),
                        u32v(7),
                    ],
                )],
                upg: Some(("update", vec![bytes(&l.other("factory", w::FACTORY)), bytes(&l.hash[self.hashes[3]])], adm.clone())),
            },
            Target {
                name: "multihop",
                c: self.mh.clone(),
                inits: vec![("initialize", vec![x.val(), x.val()]), ("initialize", vec![adm.val(), self.fac.val()])],
                upg: Some(("update", vec![bytes(&l.other("multihop", w::MULTIHOP))], adm.clone())),
            },
        ];
        if let Some((t, ..)) = &self.trader {
            v.push(Target {
                name: "trader",
                c: t.clone(),
                inits: [ATT, ADMIN, 2]
                    .iter()
                    .map(|a| ("initialize", vec![acct(*a).val(), s("x"), vecv(vec![self.tok[0].a.val(), self.tok[1].a.val()]), self.tok[0].a.val()]))
                    .collect(),
                upg: None,
            });
        }
        for (k, p) in self.pool.iter().enumerate().take(10) {
            let info = st(&[
                ("admin", x.val()),
                ("swap_fee_bps", i64v(0)),
                ("fee_recipient", x.val()),
                ("max_allowed_slippage_bps", i64v(100)),
                ("default_slippage_bps", i64v(100)),
                ("max_allowed_spread_bps", i64v(100)),
                ("max_referral_bps", i64v(100)),
                ("token_init_info", st(&[("token_a", self.tok[0].a.val()), ("token_b", self.tok[1].a.val())])),
                ("stake_init_info", st(&[("min_bond", i(1)), ("min_reward", i(1)), ("manager", x.val()), ("max_complexity", u32v(7))])),
            ]);
            let last = if p.stable { u64v(10) } else { i64v(100) };
            let idx = if p.stable { w::STABLE } else { w::POOL };
            let up = if (l.ch.seq >> k) & 1 == 1 {
                ("update", vec![bytes(&l.other(names[k].0, idx))], acct(p.admin))
            } else if p.stable {
                ("upgrade", vec![bytes(&l.other(names[k].0, idx))], acct(p.admin))
            } else {
                ("upgrade", vec![bytes(&l.other(names[k].0, idx)), i64v(p.dslip as i64)], acct(p.admin))
            };
            v.push(Target {
                name: names[k].0,
                c: p.addr.clone(),
                inits: vec![("initialize", vec![bytes(&l.hash[w::STAKE]), bytes(&l.hash[w::TOKEN]), info, x.val(), u32v(7), s("x"), s("x"), last, i64v(10_000)])],
                upg: Some(up),
            });
            v.push(Target {
                name: names[k].1,
                c: p.stake.clone(),
                inits: vec![("initialize", vec![x.val(), p.lp.val(), i(1), i(1), x.val(), x.val(), u32v(7)])],
                upg: None,
            });
        }
        v
    }

    fn hostiles(&mut self, l: &mut Lab, who: &Addr, v: i128) -> Vec<(Addr, &'static str, Vec<ScVal>)> {
        let adm = acct(ADMIN);
        let fac = self.fac.clone();
        let mut out = vec![];
        let others: Vec<Addr> = self.users.iter().map(|u| acct(*u)).filter(|a| a != who).collect();
        if *who != adm {
            for sender in [who, &adm] {
                out.push((fac.clone(), "update_whitelisted_accounts", vec![sender.val(), vecv(vec![who.val()]), vecv(vec![])]));
            }
            out.push((fac.clone(), "update_wasm_hashes", vec![bytes(&l.hash[w::POOL + w::ALT]), ScVal::Void, ScVal::Void]));
            out.push((fac.clone(), "update", vec![bytes(&l.hash[w::FACTORY + w::ALT]), bytes(&l.hash[w::STABLE + w::ALT])]));
            out.push((self.mh.clone(), "update", vec![bytes(&l.hash[w::MULTIHOP + w::ALT])]));
            if let Some((t, a, ..)) = self.trader.clone() {
                for sender in [who, &adm] {
                    out.push((t.clone(), "transfer", vec![sender.val(), who.val(), i(v.min(1000)), self.tok[a].a.val()]));
                    for p in &self.pool {
                        let tk = if p.a == 0 || p.a == 1 { p.a } else { 0 };
                        out.push((t.clone(), "trade_token", vec![sender.val(), self.tok[tk].a.val(), p.addr.val(), ou64(v), ScVal::Void, ScVal::Void, ScVal::Void, ScVal::Void]));
                    }
                }
            }
            for t in &self.tok {
                out.push((t.a.clone(), "mint", vec![who.val(), i(v)]));
            }
        }
        for (k, p) in self.pool.iter().enumerate() {
            let pa = acct(p.admin);
            if *who != pa {
                let bps = |x: i64| i64v(x);
                // every field alone (0..6), then several together
                for k in 0..9 {
                    let f: Vec<ScVal> = (0..6)
                        .map(|j| if j == k || (k >= 6 && (j == 2 || (k & 1 == 1 && j == 0) || (k == 8 && j == 1))) {
                            match j {
                                0 | 2 => who.val(),
                                1 => bps(0),
                                _ => bps(4000),
                            }
                        } else {
                            ScVal::Void
                        })
                        .collect();
                    if p.stable {
                        for sender in [who, &pa] {
                            let mut a = vec![sender.val()];
                            a.extend(f[..5].iter().cloned());
                            out.push((p.addr.clone(), "update_config", a));
                        }
                    } else {
                        out.push((p.addr.clone(), "update_config", f));
                    }
                }
                let idx = if p.stable { w::STABLE } else { w::POOL };
                let h = bytes(&l.hash[idx + w::ALT]);
                out.push((p.addr.clone(), "upgrade", if p.stable { vec![h.clone()] } else { vec![h.clone(), bps(5000)] }));
                out.push((p.addr.clone(), "update", vec![h]));
                // (the staking contract keeps the admin its pool was created with)
                if ![acct(ADMIN), acct(OWNER)].contains(who) {
                    out.push((p.stake.clone(), "update", vec![bytes(&l.hash[w::STAKE + w::ALT])]));
                }
            }
            out.push((p.lp.clone(), "mint", vec![who.val(), i(v)]));
            out.push((p.lp.clone(), "set_admin", vec![who.val()]));
            for u in &others {
                let x = v.min(1 + self.snap.res[k][0] / 50);
                out.push((p.addr.clone(), "swap", vec![u.val(), self.tok[p.a].a.val(), i(x), ScVal::Void, ScVal::Void, ScVal::Void, ScVal::Void]));
                let have = self.hidx(u).map_or(0, |h| self.snap.bal[self.tok.len() + k][h]);
                if have > 0 {
                    out.push((p.addr.clone(), "withdraw_liquidity", vec![u.val(), i(have), i(1), i(1), ScVal::Void]));
                    out.push((p.lp.clone(), "transfer", vec![u.val(), who.val(), i(have)]));
                    out.push((p.lp.clone(), "burn", vec![u.val(), i(have)]));
                    out.push((p.stake.clone(), "bond", vec![u.val(), i(have)]));
                }
                let (a, c) = (self.snap.res[k][0] / 10, self.snap.res[k][1] / 10);
                if a > 0 && c > 0 {
                    let args = if p.stable {
                        vec![u.val(), i(a), i(c), ScVal::Void, ScVal::Void, ScVal::Void]
                    } else {
                        vec![u.val(), i(a), ScVal::Void, i(c), ScVal::Void, ScVal::Void, ScVal::Void]
                    };
                    out.push((p.addr.clone(), "provide_liquidity", args));
                }
                let ops = vecv(vec![st(&[("ask_asset", self.tok[p.b].a.val()), ("offer_asset", self.tok[p.a].a.val()), ("ask_asset_min_amount", ScVal::Void)])]);
                out.push((self.mh.clone(), "swap", vec![u.val(), ops, ScVal::Void, i(x), u32v(p.stable as u32), ScVal::Void, ScVal::Void]));
            }
            // the pool's own funds and shares
            out.push((self.tok[p.a].a.clone(), "transfer", vec![p.addr.val(), who.val(), i(1)]));
            out.push((p.lp.clone(), "transfer", vec![p.addr.val(), who.val(), i(1)]));
        }
        // creating pools without being whitelisted
        let white: BTreeSet<Addr> = self.white.iter().map(|x| acct(*x)).collect();
        let nt = self.tok.len();
        for x in 0..nt {
            for y in x + 1..nt {
                if self.pool_of(x, y).is_none() {
                    for sender in white.iter().chain([who]) {
                        if sender == who && white.contains(who) {
                            continue;
                        }
                        let info = st(&[
                            ("admin", who.val()),
                            ("swap_fee_bps", i64v(0)),
                            ("fee_recipient", who.val()),
                            ("max_allowed_slippage_bps", i64v(100)),
                            ("default_slippage_bps", i64v(100)),
                            ("max_allowed_spread_bps", i64v(100)),
                            ("max_referral_bps", i64v(100)),
                            ("token_init_info", st(&[("token_a", self.tok[x].a.val()), ("token_b", self.tok[y].a.val())])),
                            ("stake_init_info", st(&[("min_bond", i(1)), ("min_reward", i(1)), ("manager", who.val()), ("max_complexity", u32v(7))])),
                        ]);
                        out.push((fac.clone(), "create_liquidity_pool", vec![sender.val(), info, s("x"), s("x"), u32v(0), ScVal::Void, i64v(100), i64v(100)]));
                    }
                }
            }
        }
        out
    }

    fn tick(&self, r: &mut Rng) -> (i128, i128) {
        let k = match r.weighted(&[6, 3, 1]) {
            0 => r.range(0, 3),
            1 => r.range(1, 100),
            _ => r.range(100, 20_000),
        };
        (k, k * 5 + r.range(0, 4))
    }
    fn len(&self, r: &mut Rng) -> usize {
        r.range(12, 45) as usize
    }
    fn tick_rate(&self) -> u64 {
        150
    }
}
