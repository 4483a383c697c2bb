pub mod dex;
pub mod rewards;
pub mod stake;
pub mod token;
pub mod vest;
use crate::rng::Rng;
use crate::sim::*;

/// the worlds that bear on a property, with weights
pub fn worlds_of(p: &str) -> Vec<(&'static str, u32)> {
    match p {
        "C11" | "C12" | "C13" | "C14" => vec![("stake", 1)],
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C15" | "C20" => vec![("dex", 1)],
        "C16" => vec![("rewards", 1)],
        "C17" | "C18" | "C19" => vec![("vest", 1)],
        "C21" => vec![("token", 4), ("dex", 1), ("vest", 1)],
        _ => vec![("stake", 2), ("dex", 3), ("vest", 2), ("rewards", 2), ("token", 1)],
    }
}

pub fn gen_cfg(name: &str, focus: Option<&str>, r: &mut Rng) -> Vec<i128> {
    match name {
        "dex" => dex::cfg(focus, r),
        "vest" => vest::cfg(focus, r),
        "rewards" => rewards::cfg(r),
        "token" => token::cfg(r),
        _ => stake::cfg(r),
    }
}

pub fn make(name: &str, l: &mut Lab, c: &[i128]) -> Option<Box<dyn World>> {
    match name {
        "dex" => dex::Dex::new(l, c).map(|x| Box::new(x) as Box<dyn World>),
        "vest" => vest::Vest::new(l, c).map(|x| Box::new(x) as Box<dyn World>),
        "rewards" => rewards::Rewards::new(l, c).map(|x| Box::new(x) as Box<dyn World>),
        "token" => token::Token::new(l, c).map(|x| Box::new(x) as Box<dyn World>),
        _ => stake::Stake::new(l, c).map(|x| Box::new(x) as Box<dyn World>),
    }
}
