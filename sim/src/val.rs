//! Building and reading host values.
use crate::chain::Addr;
use soroban_env_host::xdr::*;

pub fn i(v: i128) -> ScVal {
    ScVal::I128(Int128Parts { hi: (v >> 64) as i64, lo: v as u64 })
}
pub fn u128v(v: u128) -> ScVal {
    ScVal::U128(UInt128Parts { hi: (v >> 64) as u64, lo: v as u64 })
}
pub fn ou<T>(o: Option<T>, f: impl Fn(T) -> ScVal) -> ScVal {
    match o {
        Some(v) => f(v),
        None => ScVal::Void,
    }
}
pub fn oi(v: Option<i128>) -> ScVal {
    ou(v, i)
}
pub fn i64v(v: i64) -> ScVal {
    ScVal::I64(v)
}
pub fn u64v(v: u64) -> ScVal {
    ScVal::U64(v)
}
pub fn u32v(v: u32) -> ScVal {
    ScVal::U32(v)
}
pub fn s(v: &str) -> ScVal {
    ScVal::String(ScString(v.try_into().unwrap()))
}
pub fn sym(v: &str) -> ScVal {
    ScVal::Symbol(ScSymbol(v.try_into().unwrap()))
}
pub fn bytes(v: &[u8]) -> ScVal {
    ScVal::Bytes(ScBytes(v.to_vec().try_into().unwrap()))
}
pub fn vecv(v: Vec<ScVal>) -> ScVal {
    ScVal::Vec(Some(ScVec(v.try_into().unwrap())))
}
/// a contract struct: map with sorted symbol keys
pub fn st(fields: &[(&str, ScVal)]) -> ScVal {
    let mut v: Vec<ScMapEntry> = fields.iter().map(|(k, v)| ScMapEntry { key: sym(k), val: v.clone() }).collect();
    v.sort_by(|a, b| a.key.cmp(&b.key));
    ScVal::Map(Some(ScMap(v.try_into().unwrap())))
}
pub fn ri(v: &ScVal) -> Option<i128> {
    match v {
        ScVal::I128(p) => Some(((p.hi as i128) << 64) | p.lo as i128),
        ScVal::U128(p) => Some(((p.hi as i128) << 64) | p.lo as i128),
        ScVal::U64(x) => Some(*x as i128),
        ScVal::I64(x) => Some(*x as i128),
        ScVal::U32(x) => Some(*x as i128),
        ScVal::I32(x) => Some(*x as i128),
        ScVal::Bool(b) => Some(*b as i128),
        _ => None,
    }
}
pub fn ra(v: &ScVal) -> Option<Addr> {
    match v {
        ScVal::Address(a) => Some(Addr(a.clone())),
        _ => None,
    }
}
pub fn rs(v: &ScVal) -> Option<String> {
    match v {
        ScVal::Symbol(x) => Some(x.0.to_utf8_string_lossy()),
        ScVal::String(x) => Some(x.0.to_utf8_string_lossy()),
        _ => None,
    }
}
pub fn rv(v: &ScVal) -> Option<Vec<ScVal>> {
    match v {
        ScVal::Vec(Some(x)) => Some(x.0.to_vec()),
        _ => None,
    }
}
pub fn rm(v: &ScVal) -> Option<Vec<(ScVal, ScVal)>> {
    match v {
        ScVal::Map(Some(m)) => Some(m.0.iter().map(|e| (e.key.clone(), e.val.clone())).collect()),
        _ => None,
    }
}
pub fn fld<'a>(v: &'a ScVal, name: &str) -> Option<&'a ScVal> {
    match v {
        ScVal::Map(Some(m)) => m.0.iter().find(|e| rs(&e.key).as_deref() == Some(name)).map(|e| &e.val),
        _ => None,
    }
}
/// path lookup in nested structs
pub fn fi(v: &ScVal, path: &[&str]) -> Option<i128> {
    let mut x = v;
    for p in path {
        x = fld(x, p)?;
    }
    ri(x)
}
pub fn fa(v: &ScVal, path: &[&str]) -> Option<Addr> {
    let mut x = v;
    for p in path {
        x = fld(x, p)?;
    }
    ra(x)
}
/// the i-th element of a returned tuple/vec
pub fn at(v: &ScVal, n: usize) -> Option<ScVal> {
    rv(v)?.get(n).cloned()
}
