//! Helper contract of the simulator (the only contract code that is not /repo's):
//! `multi` answers many read-only calls in one invocation, and the rest is a token that can be told
//! to misbehave: refuse the n-th transfer, keep a fee of it, or call back into another contract.
#![no_std]
use soroban_sdk::{
    contract, contractimpl, contracttype, panic_with_error, contracterror, vec, Address, Env, Error, IntoVal, InvokeError, String, Symbol, Val, Vec,
};

#[contracterror]
#[derive(Copy, Clone)]
#[repr(u32)]
pub enum HelperError {
    Refused = 9001,
    Balance = 9002,
    Allowance = 9003,
}

#[contracttype]
#[derive(Clone)]
pub enum K {
    Admin,
    Dec,
    Bal(Address),
    Allow(Address, Address),
    /// transfers left until the next one is refused; absent: never
    FailIn,
    /// fee in bps kept (burnt) on each transfer
    Fee,
    /// call made on each transfer: (contract, function, args)
    Hook,
    /// whether the last hook call succeeded
    HookOk,
}

#[contract]
pub struct Helper;

fn bump(e: &Env) {
    e.storage().instance().extend_ttl(100_000, 200_000);
}
fn bal(e: &Env, a: &Address) -> i128 {
    e.storage().persistent().get(&K::Bal(a.clone())).unwrap_or(0)
}
fn set(e: &Env, a: &Address, v: i128) {
    let k = K::Bal(a.clone());
    e.storage().persistent().set(&k, &v);
    e.storage().persistent().extend_ttl(&k, 100_000, 200_000);
}
fn mv(e: &Env, from: &Address, to: &Address, amount: i128) {
    bump(e);
    if amount < 0 {
        panic_with_error!(e, HelperError::Balance);
    }
    let i = e.storage().instance();
    if let Some(n) = i.get::<K, u32>(&K::FailIn) {
        if n == 0 {
            panic_with_error!(e, HelperError::Refused);
        }
        i.set(&K::FailIn, &(n - 1));
    }
    let b = bal(e, from);
    if b < amount {
        panic_with_error!(e, HelperError::Balance);
    }
    let fee = amount * i.get::<K, i128>(&K::Fee).unwrap_or(0) / 10_000;
    set(e, from, b - amount);
    let t = bal(e, to);
    set(e, to, t + amount - fee);
    if let Some((c, f, args)) = i.get::<K, (Address, Symbol, Vec<Val>)>(&K::Hook) {
        i.remove(&K::Hook);
        let r = e.try_invoke_contract::<Val, Error>(&c, &f, args);
        i.set(&K::HookOk, &matches!(r, Ok(Ok(_))));
    }
}

#[contractimpl]
impl Helper {
    pub fn __constructor(e: Env, admin: Address, dec: u32) {
        e.storage().instance().set(&K::Admin, &admin);
        e.storage().instance().set(&K::Dec, &dec);
    }

    pub fn multi(e: Env, calls: Vec<(Address, Symbol, Vec<Val>)>) -> Vec<Val> {
        let mut out: Vec<Val> = vec![&e];
        for (c, f, a) in calls.iter() {
            let r: Result<Result<Val, _>, Result<Error, InvokeError>> = e.try_invoke_contract::<Val, Error>(&c, &f, a);
            match r {
                Ok(Ok(v)) => out.push_back(vec![&e, v].into_val(&e)),
                _ => out.push_back(Vec::<Val>::new(&e).into_val(&e)),
            }
        }
        out
    }

    /// stands in for a contract others trust: whatever it is asked to call, it calls in its own name
    pub fn call(e: Env, c: Address, f: Symbol, args: Vec<Val>) -> Val {
        bump(&e);
        e.invoke_contract(&c, &f, args)
    }

    pub fn mint(e: Env, to: Address, amount: i128) {
        bump(&e);
        e.storage().instance().get::<K, Address>(&K::Admin).unwrap().require_auth();
        let b = bal(&e, &to);
        set(&e, &to, b + amount);
    }
    pub fn set_fail(e: Env, n: Option<u32>) {
        match n {
            Some(n) => e.storage().instance().set(&K::FailIn, &n),
            None => e.storage().instance().remove(&K::FailIn),
        }
    }
    pub fn set_fee(e: Env, bps: i128) {
        e.storage().instance().set(&K::Fee, &bps);
    }
    pub fn set_hook(e: Env, h: Option<(Address, Symbol, Vec<Val>)>) {
        e.storage().instance().remove(&K::HookOk);
        match h {
            Some(h) => e.storage().instance().set(&K::Hook, &h),
            None => e.storage().instance().remove(&K::Hook),
        }
    }
    pub fn hook_ok(e: Env) -> Option<bool> {
        e.storage().instance().get(&K::HookOk)
    }

    pub fn allowance(e: Env, from: Address, spender: Address) -> i128 {
        e.storage().temporary().get(&K::Allow(from, spender)).unwrap_or(0)
    }
    pub fn approve(e: Env, from: Address, spender: Address, amount: i128, expiration_ledger: u32) {
        from.require_auth();
        let k = K::Allow(from, spender);
        e.storage().temporary().set(&k, &amount);
        let live = expiration_ledger.saturating_sub(e.ledger().sequence());
        if amount > 0 {
            e.storage().temporary().extend_ttl(&k, live, live);
        }
    }
    pub fn balance(e: Env, id: Address) -> i128 {
        bal(&e, &id)
    }
    pub fn transfer(e: Env, from: Address, to: Address, amount: i128) {
        from.require_auth();
        mv(&e, &from, &to, amount);
    }
    pub fn transfer_from(e: Env, spender: Address, from: Address, to: Address, amount: i128) {
        spender.require_auth();
        let k = K::Allow(from.clone(), spender);
        let a: i128 = e.storage().temporary().get(&k).unwrap_or(0);
        if a < amount {
            panic_with_error!(&e, HelperError::Allowance);
        }
        e.storage().temporary().set(&k, &(a - amount));
        mv(&e, &from, &to, amount);
    }
    pub fn burn(e: Env, from: Address, amount: i128) {
        from.require_auth();
        let b = bal(&e, &from);
        if b < amount || amount < 0 {
            panic_with_error!(&e, HelperError::Balance);
        }
        set(&e, &from, b - amount);
    }
    pub fn decimals(e: Env) -> u32 {
        e.storage().instance().get(&K::Dec).unwrap_or(7)
    }
    pub fn name(e: Env) -> String {
        String::from_str(&e, "helper")
    }
    pub fn symbol(e: Env) -> String {
        String::from_str(&e, "HLP")
    }
}
