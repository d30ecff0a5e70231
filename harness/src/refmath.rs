//! Independent arithmetic of the documented formulas, on arbitrary-precision integers.
use dbc::state::{PoolConfig, VirtualPool};
use ::dynamic_bonding_curve as dbc;
use num_bigint::BigUint;
use num_traits::{ToPrimitive, Zero};

pub type B = BigUint;
pub fn b<T: Into<B>>(x: T) -> B {
    x.into()
}
pub fn floor(n: &B, d: &B) -> B {
    n / d
}
pub fn ceil(n: &B, d: &B) -> B {
    (n + d - 1u32) / d
}
pub fn mul_floor(x: u128, y: u128, d: u128) -> B {
    b(x) * y / d
}
pub fn mul_ceil(x: u128, y: u128, d: u128) -> B {
    ceil(&(b(x) * y), &b(d))
}
pub fn u64_of(x: &B) -> Option<u64> {
    x.to_u64()
}
pub fn pct(x: u64, p: u64) -> u64 {
    (x as u128 * p as u128 / 100) as u64
}

pub const DENOM: u64 = 1_000_000_000;
pub const MAX_FEE: u64 = 990_000_000;
pub const MIN_FEE: u64 = 2_500_000;
pub const MIN_SQRT: u128 = 4295048016;
pub const MAX_SQRT: u128 = 79226673521066979257578248091;

// ------------------------------------------------------------------ curve segments
/// base tokens between two prices at liquidity l
pub fn d_base(lo: u128, hi: u128, l: u128, up: bool) -> B {
    let n = b(l) * (hi - lo);
    let d = b(lo) * hi;
    if up {
        ceil(&n, &d)
    } else {
        n / d
    }
}
/// quote tokens between two prices at liquidity l
pub fn d_quote(lo: u128, hi: u128, l: u128, up: bool) -> B {
    let n = b(l) * (hi - lo);
    let d = b(1u8) << 128usize;
    if up {
        ceil(&n, &d)
    } else {
        n >> 128usize
    }
}
fn next_base_in(p: u128, l: u128, x: u64) -> Option<u128> {
    ceil(&(b(l) * p), &(b(l) + b(x) * p)).to_u128()
}
fn next_quote_in(p: u128, l: u128, y: u64) -> Option<u128> {
    (b(p) + (b(y) << 128usize) / l).to_u128()
}
fn next_quote_out(p: u128, l: u128, y: u64) -> Option<u128> {
    let q = ceil(&(b(y) << 128usize), &b(l));
    if q > b(p) {
        return None;
    }
    (b(p) - q).to_u128()
}
fn next_base_out(p: u128, l: u128, x: u64) -> Option<u128> {
    let s = b(x) * p;
    if s >= b(l) {
        return None;
    }
    ceil(&(b(l) * p), &(b(l) - s)).to_u128()
}

/// the curve as a list of (lower price, upper price, liquidity), ascending
pub fn segments(c: &PoolConfig) -> Vec<(u128, u128, u128)> {
    let mut v = vec![];
    let mut lo = c.sqrt_start_price;
    for p in c.curve.iter() {
        if p.sqrt_price == 0 || p.liquidity == 0 {
            break;
        }
        v.push((lo, p.sqrt_price, p.liquidity));
        lo = p.sqrt_price;
    }
    v
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Walk {
    pub amount: u64, // output for exact in, input for exact out
    pub price: u128,
    pub left: u64,
}
/// quote in, base out, stopping at the migration price
pub fn walk_buy_in(c: &PoolConfig, p0: u128, amount: u64) -> Option<Walk> {
    let (mut p, mut left, mut out) = (p0, amount, B::zero());
    for (_, top, l) in segments(c) {
        let hi = top.min(c.migration_sqrt_price);
        if hi <= p {
            continue;
        }
        let need = d_quote(p, hi, l, true);
        if b(left) < need {
            let q = next_quote_in(p, l, left)?;
            out += u64_ok(d_base(p, q, l, false))?;
            p = q;
            left = 0;
            break;
        }
        out += u64_ok(d_base(p, hi, l, false))?;
        left -= need.to_u64()?;
        p = hi;
        if hi == c.migration_sqrt_price {
            break;
        }
    }
    Some(Walk { amount: out.to_u64()?, price: p, left })
}
fn u64_ok(x: B) -> Option<B> {
    x.to_u64().map(|_| x)
}
/// base in, quote out, stopping at the start price
pub fn walk_sell_in(c: &PoolConfig, p0: u128, amount: u64) -> Option<Walk> {
    let (mut p, mut left, mut out) = (p0, amount, B::zero());
    let segs = segments(c);
    for (i, (lo, _, l)) in segs.iter().enumerate().rev() {
        if i == 0 {
            break;
        }
        if *lo >= p {
            continue;
        }
        let need = d_base(*lo, p, *l, true);
        if b(left) < need {
            let q = next_base_in(p, *l, left)?;
            out += u64_ok(d_quote(q, p, *l, false))?;
            p = q;
            left = 0;
            break;
        }
        out += u64_ok(d_quote(*lo, p, *l, false))?;
        left -= need.to_u64()?;
        p = *lo;
    }
    if left != 0 {
        let (start, _, l) = segs[0];
        let mut q = next_base_in(p, l, left)?;
        if q < start {
            q = start;
            left = left.checked_sub(d_base(q, p, l, true).to_u64()?)?;
        } else {
            left = 0;
        }
        out += u64_ok(d_quote(q, p, l, false))?;
        p = q;
    }
    Some(Walk { amount: out.to_u64()?, price: p, left })
}
pub fn walk_sell_out(c: &PoolConfig, p0: u128, amount: u64) -> Option<Walk> {
    let (mut p, mut left, mut inp) = (p0, amount, B::zero());
    let segs = segments(c);
    for (i, (lo, _, l)) in segs.iter().enumerate().rev() {
        if i == 0 {
            break;
        }
        if *lo >= p {
            continue;
        }
        let have = d_quote(*lo, p, *l, false);
        if b(left) < have {
            let q = next_quote_out(p, *l, left)?;
            inp += u64_ok(d_base(q, p, *l, true))?;
            p = q;
            left = 0;
            break;
        }
        inp += u64_ok(d_base(*lo, p, *l, true))?;
        left -= have.to_u64()?;
        p = *lo;
    }
    if left != 0 {
        let (start, _, l) = segs[0];
        if b(left) > d_quote(start, p, l, false) {
            return None;
        }
        let q = next_quote_out(p, l, left)?;
        if q < start {
            return None;
        }
        inp += u64_ok(d_base(q, p, l, true))?;
        p = q;
    }
    Some(Walk { amount: inp.to_u64()?, price: p, left: 0 })
}
pub fn walk_buy_out(c: &PoolConfig, p0: u128, amount: u64) -> Option<Walk> {
    let (mut p, mut left, mut inp) = (p0, amount, B::zero());
    for (_, hi, l) in segments(c) {
        if hi <= p {
            continue;
        }
        let have = d_base(p, hi, l, false);
        if b(left) < have {
            let q = next_base_out(p, l, left)?;
            inp += u64_ok(d_quote(p, q, l, true))?;
            p = q;
            left = 0;
            break;
        }
        inp += u64_ok(d_quote(p, hi, l, true))?;
        left -= have.to_u64()?;
        p = hi;
    }
    if left != 0 {
        return None;
    }
    Some(Walk { amount: inp.to_u64()?, price: p, left: 0 })
}

// ------------------------------------------------------------------ base fee
/// time-scheduled fee at the end of `period` elapsed periods
pub fn sched_at(c: &PoolConfig, period: u64) -> Option<u64> {
    let f = &c.pool_fees.base_fee;
    let n = period.min(f.first_factor as u64);
    match f.base_fee_mode {
        0 => f.cliff_fee_numerator.checked_sub(f.third_factor.checked_mul(n)?),
        1 => {
            let k = exp_factor(f.third_factor, n)?;
            let fee: B = (b(k) * f.cliff_fee_numerator) >> 64;
            fee.to_u64()
        }
        _ => None,
    }
}
/// (1 - r/10000)^n in 64.64 fixed point, square-and-multiply with truncation
pub fn exp_factor(reduction: u64, n: u64) -> Option<u128> {
    let one = 1u128 << 64;
    if n == 0 {
        return Some(one);
    }
    let base = one.checked_sub(((reduction as u128) << 64) / 10_000)?;
    if base == one {
        return Some(one); // no reduction: handled by the caller's configurations as constant fee
    }
    let (mut r, mut s) = (one, base);
    let mut e = n;
    while e > 0 {
        if e & 1 == 1 {
            r = ((b(r) * s) >> 64usize).to_u128()?;
        }
        s = ((b(s) * s) >> 64usize).to_u128()?;
        e >>= 1;
    }
    if r == 0 {
        return None;
    }
    Some(r)
}
pub fn sched_now(c: &PoolConfig, now: u64, act: u64) -> Option<u64> {
    let f = &c.pool_fees.base_fee;
    if f.second_factor == 0 {
        return Some(f.cliff_fee_numerator);
    }
    sched_at(c, now.checked_sub(act)? / f.second_factor)
}
pub fn limiter_applies(c: &PoolConfig, now: u64, act: u64, buy: bool) -> bool {
    let f = &c.pool_fees.base_fee;
    f.base_fee_mode == 2
        && !(f.first_factor == 0 && f.second_factor == 0 && f.third_factor == 0)
        && buy
        && now as u128 <= act as u128 + f.second_factor as u128
}
/// fee (in 1e-9 units of quote) charged by the limiter on an included amount
pub fn limiter_numerator(c: &PoolConfig, amount: u64) -> Option<u64> {
    let f = &c.pool_fees.base_fee;
    let (c0, x0) = (f.cliff_fee_numerator, f.third_factor);
    if amount <= x0 {
        return Some(c0);
    }
    let inc = f.first_factor as u64 * 100_000;
    let m = (MAX_FEE.checked_sub(c0)?).checked_div(inc)?;
    let (a, r) = ((amount - x0) / x0, (amount - x0) % x0);
    let (cb, ib, x) = (b(c0), b(inc), b(x0));
    let fee: B = if a < m {
        &x * (&cb + &cb * a + &ib * a * (a + 1) / 2u8) + b(r) * (&cb + &ib * (a + 1))
    } else {
        &x * (&cb + &cb * m + &ib * m * (b(m) + 1u8) / 2u8) + ((b(a) - m) * &x + r) * MAX_FEE
    };
    let fee = ceil(&fee, &b(DENOM));
    let num = ceil(&(fee * DENOM), &b(amount));
    num.to_u64()
}
fn limiter_excl(c: &PoolConfig, amount: u64) -> Option<u64> {
    let n = limiter_numerator(c, amount)?;
    amount.checked_sub(mul_ceil(amount as u128, n as u128, DENOM as u128).to_u64()?)
}
fn limiter_from_excl(c: &PoolConfig, ex: u64) -> Option<u64> {
    let f = &c.pool_fees.base_fee;
    let (c0, x0) = (f.cliff_fee_numerator, f.third_factor);
    if ex <= limiter_excl(c, x0)? {
        return Some(c0);
    }
    let inc = f.first_factor as u64 * 100_000;
    let m = (MAX_FEE.checked_sub(c0)?).checked_div(inc)?;
    let top = (b(m) + 1u8) * x0;
    let (top, over) = match top.to_u64() {
        Some(t) => (t, false),
        None => (u64::MAX, true),
    };
    let ex_top = limiter_excl(c, top)?;
    if ex == ex_top {
        return limiter_numerator(c, top);
    }
    let incl: B = if ex < ex_top {
        let (i, d, x) = (b(inc), b(DENOM), b(x0));
        let y = &d * 2u8 * &x + &i * &x;
        let y2 = b(c0) * 2u8 * &x;
        if y < y2 {
            return None;
        }
        let y = y - y2;
        let z = b(ex) * 2u8 * &d * &x;
        let disc = &y * &y;
        let four = &i * &z * 4u8;
        if disc < four {
            return None;
        }
        let root = (disc - four).sqrt();
        let incl0 = (y - root) / (i * 2u8);
        let incl0 = incl0.to_u64()?;
        let a1 = incl0 / x0;
        let rem = ex.checked_sub(limiter_excl(c, incl0)?)?;
        let den = DENOM.checked_sub(c0.checked_add(inc.checked_mul(a1)?)?)?;
        b(incl0) + mul_ceil(rem as u128, DENOM as u128, den as u128)
    } else {
        if over {
            return None;
        }
        b(top) + mul_ceil((ex - ex_top) as u128, DENOM as u128, (DENOM - MAX_FEE) as u128)
    };
    let incl = incl.to_u64()?;
    let num = mul_ceil(incl.checked_sub(ex)? as u128, DENOM as u128, incl as u128).to_u64()?;
    (num >= c0).then_some(num)
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Amt {
    Included(u64),
    Excluded(u64),
}
pub fn base_fee(c: &PoolConfig, now: u64, act: u64, buy: bool, amt: Amt) -> Option<u64> {
    if c.pool_fees.base_fee.base_fee_mode < 2 {
        return sched_now(c, now, act);
    }
    if !limiter_applies(c, now, act, buy) {
        return Some(c.pool_fees.base_fee.cliff_fee_numerator);
    }
    match amt {
        Amt::Included(a) => limiter_numerator(c, a),
        Amt::Excluded(a) => limiter_from_excl(c, a),
    }
}
pub fn min_base_fee(c: &PoolConfig) -> Option<u64> {
    let f = &c.pool_fees.base_fee;
    if f.base_fee_mode == 2 {
        Some(f.cliff_fee_numerator)
    } else {
        sched_at(c, f.first_factor as u64)
    }
}
// ------------------------------------------------------------------ dynamic fee
pub fn variable_fee(c: &PoolConfig, accumulator: u128) -> B {
    let d = &c.pool_fees.dynamic_fee;
    if d.initialized == 0 {
        return B::zero();
    }
    let v = b(accumulator) * d.bin_step;
    ceil(&(&v * &v * d.variable_fee_control), &b(100_000_000_000u64))
}
pub fn total_fee(c: &PoolConfig, s: &VirtualPool, now: u64, buy: bool, amt: Amt) -> Option<u64> {
    let base = base_fee(c, now, s.activation_point, buy, amt)?;
    let t = variable_fee(c, s.volatility_tracker.volatility_accumulator) + base;
    Some(t.min(b(MAX_FEE)).to_u64().unwrap())
}
pub fn bin_distance(c: &PoolConfig, x: u128, y: u128) -> Option<u128> {
    let (hi, lo) = (x.max(y), x.min(y));
    let ratio = (b(hi) << 64usize) / lo;
    let d = (ratio - (1u128 << 64)) / c.pool_fees.dynamic_fee.bin_step_u128 * 2u8;
    d.to_u128()
}
pub fn vol_pre(c: &PoolConfig, s: &mut VirtualPool, ts: u64) {
    let d = &c.pool_fees.dynamic_fee;
    if d.initialized == 0 {
        return;
    }
    let v = &mut s.volatility_tracker;
    let elapsed = ts.saturating_sub(v.last_update_timestamp);
    if elapsed >= d.filter_period as u64 {
        v.sqrt_price_reference = s.sqrt_price;
        v.volatility_reference =
            if elapsed < d.decay_period as u64 { v.volatility_accumulator * d.reduction_factor as u128 / 10_000 } else { 0 };
    }
}
pub fn vol_post(c: &PoolConfig, s: &mut VirtualPool, old: u128, ts: u64) -> Option<()> {
    let d = &c.pool_fees.dynamic_fee;
    if d.initialized == 0 {
        return Some(());
    }
    let dist = bin_distance(c, s.sqrt_price, s.volatility_tracker.sqrt_price_reference)?;
    let acc = b(s.volatility_tracker.volatility_reference) + b(dist) * 10_000u32;
    s.volatility_tracker.volatility_accumulator = acc.min(b(d.max_volatility_accumulator)).to_u128()?;
    if bin_distance(c, old, s.sqrt_price)? > 0 {
        s.volatility_tracker.last_update_timestamp = ts;
    }
    Some(())
}
// ------------------------------------------------------------------ fee split
#[derive(Clone, Copy, Debug, PartialEq, Default)]
pub struct Fees {
    pub trading: u64,
    pub protocol: u64,
    pub referral: u64,
}
impl Fees {
    pub fn total(&self) -> u64 {
        self.trading + self.protocol + self.referral
    }
}
pub fn split(fee: u64, referral: bool) -> Fees {
    let protocol = pct(fee, 20);
    let referral = if referral { pct(protocol, 20) } else { 0 };
    Fees { trading: fee - protocol, protocol: protocol - referral, referral }
}
pub fn take(amount: u64, num: u64) -> (u64, u64) {
    let fee = mul_ceil(amount as u128, num as u128, DENOM as u128).to_u64().unwrap();
    (amount - fee, fee)
}
pub fn gross(net: u64, num: u64) -> Option<(u64, u64)> {
    let g = mul_ceil(net as u128, DENOM as u128, (DENOM - num) as u128).to_u64()?;
    Some((g, g - net))
}
pub fn creator_share(c: &PoolConfig, x: u64) -> (u64, u64) {
    let cr = pct(x, c.creator_trading_fee_percentage as u64);
    (x - cr, cr)
}

// ------------------------------------------------------------------ one swap
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Trade {
    pub paid: u64,     // what the trader pays, fee included
    pub net_in: u64,   // what the curve receives
    pub received: u64, // what the trader receives
    pub curve_out: u64,
    pub price: u128,
    pub left: u64,
    pub fees: Fees,
    pub fee_on_base: bool,
    pub fee_on_input: bool,
}
pub fn trade(c: &PoolConfig, s: &VirtualPool, now: u64, buy: bool, mode: u8, amount: u64, referral: bool, first_min: bool) -> Option<Trade> {
    let fee_on_input = buy && c.collect_fee_mode == 0;
    let fee_on_base = buy && c.collect_fee_mode == 1;
    let num = |a: Amt| if first_min { min_base_fee(c) } else { total_fee(c, s, now, buy, a) };
    let walk_in = |a| if buy { walk_buy_in(c, s.sqrt_price, a) } else { walk_sell_in(c, s.sqrt_price, a) };
    let t = match mode {
        0 | 1 => {
            let n = num(Amt::Included(amount))?;
            let (mut net, mut fee) = if fee_on_input { take(amount, n) } else { (amount, 0) };
            let w = walk_in(net)?;
            let mut paid = amount;
            if w.left != 0 {
                if mode == 0 {
                    return None;
                }
                net -= w.left;
                paid = net;
                if fee_on_input {
                    let n = num(Amt::Excluded(net))?;
                    (paid, fee) = gross(net, n)?;
                }
            }
            let mut received = w.amount;
            if !fee_on_input {
                (received, fee) = take(w.amount, n);
            }
            Trade { paid, net_in: net, received, curve_out: w.amount, price: w.price, left: w.left, fees: split(fee, referral), fee_on_base, fee_on_input }
        }
        2 => {
            let mut fee = 0;
            let mut out = amount;
            if !fee_on_input {
                (out, fee) = gross(amount, num(Amt::Excluded(amount))?)?;
            }
            let w = if buy { walk_buy_out(c, s.sqrt_price, out) } else { walk_sell_out(c, s.sqrt_price, out) }?;
            if w.price > c.migration_sqrt_price {
                return None;
            }
            let mut paid = w.amount;
            if fee_on_input {
                (paid, fee) = gross(w.amount, num(Amt::Excluded(w.amount))?)?;
            }
            Trade { paid, net_in: w.amount, received: amount, curve_out: out, price: w.price, left: 0, fees: split(fee, referral), fee_on_base, fee_on_input }
        }
        _ => return None,
    };
    Some(t)
}
