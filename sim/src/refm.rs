//! Reference arithmetic of the oracles, in unlimited integers.
use num_bigint::BigInt;

pub fn b(x: i128) -> BigInt {
    BigInt::from(x)
}
pub fn i(x: BigInt) -> i128 {
    x.try_into().unwrap_or(i128::MAX)
}
/// floor(a*b/c) for non-negative numbers
pub fn muldiv(x: i128, y: i128, c: i128) -> i128 {
    if c == 0 {
        return i128::MAX;
    }
    i(b(x) * b(y) / b(c))
}
pub fn pow10(n: u32) -> BigInt {
    BigInt::from(10).pow(n)
}
pub fn isqrt(x: &BigInt) -> BigInt {
    x.sqrt()
}

/// constant product: (output before the fee, fee, spread)
pub fn xyk(x: i128, y: i128, offer: i128, fee_bps: i128) -> Option<(i128, i128, i128)> {
    if x <= 0 || y <= 0 || offer <= 0 {
        return None;
    }
    let left = i(b(x) * b(y) / (b(x) + b(offer)));
    let gross = y - left;
    let ideal = muldiv(offer, y, x);
    Some((gross, muldiv(gross, fee_bps, 10_000), ideal - gross))
}

/// digits the stable curve is evaluated with
pub const FINE: u32 = 30;

/// stable-swap invariant for n = 2: 4A(x+y) + D... in the form Ann*S + D = Ann*D + D^3/(4xy), Ann = 2*amp
pub fn stable_d(x: &BigInt, y: &BigInt, amp: i128) -> BigInt {
    let ann = b(2 * amp);
    let s = x + y;
    let mut d = s.clone();
    for _ in 0..400 {
        let dp = &d * &d * &d / (x * y * 4);
        let n = (&ann * &s + &dp * 2) * &d / ((&ann - 1) * &d + &dp * 3);
        let diff = if n > d { &n - &d } else { &d - &n };
        d = n;
        if diff <= BigInt::from(1) {
            break;
        }
    }
    d
}
/// y on the curve (x0, y0) at x1
pub fn stable_y(x1: &BigInt, x0: &BigInt, y0: &BigInt, amp: i128) -> BigInt {
    let ann = b(2 * amp);
    let d = stable_d(x0, y0, amp);
    let c = &d * &d * &d / (x1 * 4 * &ann);
    let bb = x1 + &d / &ann;
    let mut y = d.clone();
    for _ in 0..400 {
        let n = (&y * &y + &c) / (&y * 2 + &bb - &d);
        let diff = if n > y { &n - &y } else { &y - &n };
        y = n;
        if diff <= BigInt::from(1) {
            break;
        }
    }
    y
}
/// output before the fee for `offer`, in `FINE` digits
pub fn stable_out(x: i128, dx: u32, y: i128, dy: u32, offer: i128, amp: i128) -> Option<BigInt> {
    if x <= 0 || y <= 0 || offer <= 0 || amp <= 0 {
        return None;
    }
    let fx = b(x) * pow10(FINE - dx);
    let fy = b(y) * pow10(FINE - dy);
    let f1 = b(x + offer) * pow10(FINE - dx);
    let y1 = stable_y(&f1, &fx, &fy, amp);
    Some(fy - y1)
}
/// whole units of a token with `d` decimals, rounded down
pub fn coarse(x: &BigInt, d: u32) -> i128 {
    i(x / pow10(FINE - d))
}
