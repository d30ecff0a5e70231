//! P18, P20: which configurations are accepted, and how a pool starts
use super::auth::accept;
use super::common::*;
use super::life::*;
use crate::refcfg::{self, Quote};
use anchor_lang::solana_program::instruction::Instruction;
use anchor_lang::InstructionData;

type Edit = (String, Box<dyn Fn(&mut ConfigParameters) + Send + Sync>);
struct Edits(Vec<Edit>);
impl Edits {
    fn add(&mut self, n: impl Into<String>, f: impl Fn(&mut ConfigParameters) + Send + Sync + 'static) {
        self.0.push((n.into(), Box::new(f)));
    }
}
fn each<T: Copy + std::fmt::Display + Send + Sync + 'static>(e: &mut Edits, n: &str, vals: &[T], f: fn(&mut ConfigParameters, T)) {
    for v in vals {
        let v = *v;
        e.add(format!("{n}={v}"), move |p| f(p, v));
    }
}
/// every field at and beyond its limits
fn edits() -> Vec<Edit> {
    let mut e = Edits(vec![]);
    each(&mut e, "cliff fee", &[0u64, 1, MIN_FEE - 1, MIN_FEE, MIN_FEE + 1, MAX_FEE - 1, MAX_FEE, MAX_FEE + 1, 1_000_000_000, u64::MAX], |p, v| p.pool_fees.base_fee.cliff_fee_numerator = v);
    each(&mut e, "base fee mode", &[0u8, 1, 2, 3, 255], |p, v| p.pool_fees.base_fee.base_fee_mode = v);
    each(&mut e, "first factor", &[0u16, 1, 9_999, 10_000, u16::MAX], |p, v| p.pool_fees.base_fee.first_factor = v);
    each(&mut e, "second factor", &[0u64, 1, 43_200, 43_201, 108_000, 108_001, u64::MAX], |p, v| p.pool_fees.base_fee.second_factor = v);
    each(&mut e, "third factor", &[0u64, 1, 9_999, 10_000, 10_001, u64::MAX], |p, v| p.pool_fees.base_fee.third_factor = v);
    for (n, mode, cliff, periods, freq, red) in [
        ("linear at minimum", 0u8, 10_000_000u64, 10u16, 5u64, 750_000u64),
        ("linear below minimum", 0, 10_000_000, 10, 5, 750_001),
        ("linear to zero", 0, 10_000_000, 10, 5, 1_000_000),
        ("linear underflow", 0, 10_000_000, 10, 5, 1_000_001),
        ("linear top", 0, MAX_FEE, 1, 1, MAX_FEE - MIN_FEE),
        ("linear over top", 0, MAX_FEE + 1, 1, 1, MAX_FEE - MIN_FEE),
        ("linear overflow", 0, MAX_FEE, u16::MAX, 1, u64::MAX / 2),
        ("linear without frequency", 0, 10_000_000, 10, 0, 1),
        ("linear without reduction", 0, 10_000_000, 10, 5, 0),
        ("linear without periods", 0, 10_000_000, 0, 5, 1),
        ("exponential mild", 1, 10_000_000, 100, 5, 100),
        ("exponential near minimum", 1, 2_750_000, 95, 5, 10),
        ("exponential below minimum", 1, 2_750_000, 96, 5, 10),
        ("exponential all", 1, 10_000_000, 10, 5, 10_000),
        ("exponential over all", 1, 10_000_000, 10, 5, 10_001),
        ("exponential long", 1, MAX_FEE, u16::MAX, 5, 1),
    ] {
        e.add(n, move |p| scheduler(p, mode, cliff, periods, freq, red));
    }
    for (n, cliff, inc, dur, rf) in [
        ("limiter plain", 10_000_000u64, 100u16, 60u64, 50_000u64),
        ("limiter fast", MIN_FEE, 9_999, 60, 1),
        ("limiter too fast", MIN_FEE, 10_000, 60, 1),
        ("limiter longest by time", 10_000_000, 1, 43_200, 50_000),
        ("limiter too long by time", 10_000_000, 1, 43_201, 50_000),
        ("limiter longest by slot", 10_000_000, 1, 108_000, 50_000),
        ("limiter too long by slot", 10_000_000, 1, 108_001, 50_000),
        ("limiter cheap", MIN_FEE - 1, 1, 60, 50_000),
        ("limiter dear", MAX_FEE, 1, 60, u64::MAX),
        ("limiter too dear", MAX_FEE + 1, 1, 60, u64::MAX),
        ("limiter without reference", 10_000_000, 1, 60, 0),
        ("limiter without duration", 10_000_000, 1, 0, 50_000),
        ("limiter without increment", 10_000_000, 0, 60, 50_000),
        ("limiter empty", 10_000_000, 0, 0, 0),
    ] {
        e.add(n, move |p| limiter(p, cliff, inc, dur, rf));
        let n = format!("{n}, both tokens");
        e.add(n, move |p| {
            limiter(p, cliff, inc, dur, rf);
            p.collect_fee_mode = 1;
        });
    }
    e.add("no dynamic fee", |p| p.pool_fees.dynamic_fee = None);
    e.add("dynamic fee", |p| p.pool_fees.dynamic_fee = Some(dyn_fee()));
    macro_rules! dynf {
        ($n:expr, [$($v:expr),*], $f:ident) => { $( { let v = $v; e.add(format!("dynamic {}={}", $n, v), move |p| { let mut d = dyn_fee(); d.$f = v as _; p.pool_fees.dynamic_fee = Some(d); }); } )* };
    }
    dynf!("bin step", [0u16, 1, 2], bin_step);
    dynf!("bin step x64", [0u128, 1844674407370954u128, 1844674407370955u128, 1844674407370956u128, u128::MAX], bin_step_u128);
    dynf!("filter", [0u16, 1, 119, 120, 121, u16::MAX], filter_period);
    dynf!("decay", [0u16, 9, 10, 11, u16::MAX], decay_period);
    dynf!("reduction", [0u16, 9_999, 10_000, 10_001, u16::MAX], reduction_factor);
    dynf!("max volatility", [0u32, 1, (1u32 << 24) - 1, 1u32 << 24, u32::MAX], max_volatility_accumulator);
    dynf!("control", [0u32, 1, (1u32 << 24) - 1, 1u32 << 24, u32::MAX], variable_fee_control);
    each(&mut e, "collect fee mode", &[0u8, 1, 2, 255], |p, v| p.collect_fee_mode = v);
    each(&mut e, "migration option", &[0u8, 1, 2, 255], |p, v| p.migration_option = v);
    each(&mut e, "activation type", &[0u8, 1, 2, 255], |p, v| p.activation_type = v);
    each(&mut e, "token type", &[0u8, 1, 2, 255], |p, v| p.token_type = v);
    each(&mut e, "decimals", &[0u8, 5, 6, 7, 8, 9, 10, 255], |p, v| p.token_decimal = v);
    each(&mut e, "migration fee option", &[0u8, 1, 2, 3, 4, 5, 6, 7, 255], |p, v| p.migration_fee_option = v);
    each(&mut e, "partner share", &[0u8, 1, 19, 21, 100, 255], |p, v| p.partner_liquidity_percentage = v);
    each(&mut e, "partner locked share", &[0u8, 1, 29, 31, 100, 255], |p, v| p.partner_permanent_locked_liquidity_percentage = v);
    each(&mut e, "creator share", &[0u8, 9, 11, 100, 255], |p, v| p.creator_liquidity_percentage = v);
    each(&mut e, "creator locked share", &[0u8, 39, 41, 100, 255], |p, v| p.creator_permanent_locked_liquidity_percentage = v);
    for (a, b, c, d) in [(100u8, 0u8, 0u8, 0u8), (0, 100, 0, 0), (0, 0, 100, 0), (0, 0, 0, 100), (90, 10, 0, 0), (91, 9, 0, 0), (45, 5, 45, 5), (46, 4, 45, 5), (0, 0, 90, 10), (0, 5, 91, 4), (128, 128, 100, 0), (200, 56, 50, 50), (1, 97, 1, 1), (99, 0, 0, 1)] {
        e.add(format!("shares {a}/{b}/{c}/{d}"), move |p| {
            (p.partner_liquidity_percentage, p.partner_permanent_locked_liquidity_percentage, p.creator_liquidity_percentage, p.creator_permanent_locked_liquidity_percentage) = (a, b, c, d);
        });
    }
    for delta in [-1i64, 0, 1] {
        e.add(format!("threshold = capacity{delta:+}"), move |p| {
            let mut lo = p.sqrt_start_price;
            let mut t = 0u128;
            for x in &p.curve {
                if x.sqrt_price > lo {
                    t += d_quote(lo, x.sqrt_price, x.liquidity, true).to_u128().unwrap_or(0).min(1 << 80);
                }
                lo = x.sqrt_price;
            }
            p.migration_quote_threshold = (t as i128 + delta as i128).clamp(0, u64::MAX as i128) as u64;
        });
        e.add(format!("threshold = first segment{delta:+}"), move |p| {
            if let Some(x) = p.curve.first() {
                if x.sqrt_price > p.sqrt_start_price {
                    let t = d_quote(p.sqrt_start_price, x.sqrt_price, x.liquidity, true).to_u128().unwrap_or(0).min(u64::MAX as u128);
                    p.migration_quote_threshold = (t as i128 + delta as i128).clamp(0, u64::MAX as i128) as u64;
                }
            }
        });
    }
    each(&mut e, "threshold", &[0u64, 1, 2, 100, 10_000, u64::MAX], |p, v| p.migration_quote_threshold = v);
    each(&mut e, "start price", &[0u128, MIN_SQRT - 1, MIN_SQRT, MIN_SQRT + 1, MAX_SQRT - 1, MAX_SQRT, u128::MAX], |p, v| p.sqrt_start_price = v);
    for d in [-1i128, 0, 1] {
        e.add(format!("start price = first point{d:+}"), move |p| {
            if let Some(x) = p.curve.first() {
                p.sqrt_start_price = (x.sqrt_price as i128 + d) as u128;
            }
        });
    }
    let lv = |per: u64, cliff: u64, freq: u64, n: u64, cu: u64| LockedVestingParams { amount_per_period: per, cliff_duration_from_migration_time: cliff, frequency: freq, number_of_period: n, cliff_unlock_amount: cu };
    for (n, v) in [
        ("none", lv(0, 0, 0, 0, 0)),
        ("plain", lv(1_003, 50, 7, 11, 17)),
        ("cliff only", lv(0, 0, 1, 0, 5)),
        ("no frequency", lv(10, 50, 0, 11, 17)),
        ("nothing vested", lv(0, 50, 7, 11, 0)),
        ("frequency only", lv(0, 0, 1, 0, 0)),
        ("cliff time only", lv(0, 1, 0, 0, 0)),
        ("no periods", lv(10, 0, 7, 0, 0)),
        ("overflow", lv(u64::MAX, 0, 7, 2, 0)),
        ("overflow with cliff", lv(u64::MAX / 2, 0, 7, 2, 2)),
        ("at the top", lv(u64::MAX / 2, 0, 7, 2, 1)),
        ("one token", lv(1, 0, 1, 1, 0)),
        ("huge cliff time", lv(5, u64::MAX, 7, 2, 1)),
        ("huge frequency", lv(5, 0, u64::MAX, 2, 1)),
        ("many periods", lv(1, 0, 1, 1 << 40, 1)),
    ] {
        e.add(format!("vesting: {n}"), move |p| p.locked_vesting = v);
    }
    for (n, kind, a, b) in [
        ("least", 1usize, 0i64, 0i64),
        ("one too few after", 1, -1, 0),
        ("one too few before", 1, 0, -1),
        ("plenty", 2, 0, 0),
        ("equal before and after", 3, 0, 0),
        ("after above before", 3, 1, 0),
        ("one spare", 1, 1, 1),
    ] {
        // sizes as the rest of the configuration requires
        e.add(format!("supply: {n}"), move |p| {
            p.token_supply = None;
            set_supply(p, if kind == 3 { 2 } else { kind }, false);
            if let Some(s) = &mut p.token_supply {
                if kind == 3 {
                    s.post_migration_token_supply = s.pre_migration_token_supply;
                }
                s.post_migration_token_supply = s.post_migration_token_supply.wrapping_add_signed(a);
                s.pre_migration_token_supply = s.pre_migration_token_supply.wrapping_add_signed(b);
            }
        });
    }
    for (a, b) in [(0u64, 0u64), (1, 1), (u64::MAX, 1), (u64::MAX, u64::MAX), (1, u64::MAX)] {
        e.add(format!("supply {a}/{b}"), move |p| p.token_supply = Some(TokenSupplyParams { pre_migration_token_supply: a, post_migration_token_supply: b }));
    }
    e.add("supply: dynamic", |p| p.token_supply = None);
    each(&mut e, "creator's fee share", &[0u8, 1, 99, 100, 101, 255], |p, v| p.creator_trading_fee_percentage = v);
    each(&mut e, "token authority", &[0u8, 1, 2, 3, 4, 5, 255], |p, v| p.token_update_authority = v);
    for (a, b) in [(0u8, 0u8), (0, 1), (1, 0), (1, 100), (1, 101), (50, 50), (99, 0), (99, 100), (99, 255), (100, 0), (100, 100), (255, 0)] {
        e.add(format!("migration fee {a}/{b}"), move |p| p.migration_fee = MigrationFee { fee_percentage: a, creator_fee_percentage: b });
    }
    for (m, d, f, c) in [
        (0u8, 0u8, 0u16, 0u16), (0, 0, 9, 0), (0, 0, 10, 0), (0, 0, 11, 0), (0, 0, 999, 0), (0, 0, 1000, 0), (0, 0, 1001, 0), (0, 0, u16::MAX, 0),
        (1, 0, 100, 0), (1, 1, 100, 0), (0, 2, 100, 0), (0, 255, 100, 0), (0, 0, 100, 1), (1, 0, 100, 10_000),
        (2, 0, 100, 0), (2, 0, 100, 1), (2, 0, 100, 9_999), (2, 0, 100, 10_000), (2, 0, 100, 10_001), (2, 1, 10, u16::MAX), (3, 0, 100, 0), (3, 0, 100, 5), (255, 0, 100, 0),
    ] {
        for custom in [false, true] {
            e.add(format!("migrated pool {m}/{d}/{f}/{c}{}", if custom { " customizable" } else { "" }), move |p| {
                p.migrated_pool_fee = MigratedPoolFee { collect_fee_mode: m, dynamic_fee: d, pool_fee_bps: f };
                p.compounding_fee_bps = c;
                if custom {
                    p.migration_option = 1;
                    p.migration_fee_option = 6;
                }
            });
        }
    }
    each(&mut e, "compounding bps", &[0u16, 1, 10_000, 10_001], |p, v| p.compounding_fee_bps = v);
    each(&mut e, "creation fee", &[0u64, 1, 999_999, 1_000_000, 1_000_001, 99_999_999_999, 100_000_000_000, 100_000_000_001, u64::MAX], |p, v| p.pool_creation_fee = v);
    let li = |pct: u8, bps: u16, n: u16, cliff: u32, freq: u32| LiquidityVestingInfoParams { vesting_percentage: pct, bps_per_period: bps, number_of_periods: n, cliff_duration_from_migration_time: cliff, frequency: freq };
    for (n, v) in [
        ("none", li(0, 0, 0, 0, 0)),
        ("plain", li(20, 500, 10, 1_000, 3_600)),
        ("cliff only", li(20, 0, 0, 86_401, 0)),
        ("cliff at a day", li(20, 0, 0, 86_400, 0)),
        ("cliff now", li(20, 0, 0, 0, 0)),
        ("only a frequency", li(20, 0, 0, 0, 5)),
        ("only periods", li(20, 0, 5, 0, 5)),
        ("no frequency", li(20, 500, 10, 1_000, 0)),
        ("all released", li(20, 1_000, 10, 0, 9_000)),
        ("too much released", li(20, 1_001, 10, 0, 9_000)),
        ("bps overflow", li(20, 60_000, 60_000, 0, 10)),
        ("longest", li(20, 1, 10_000, 0, 6_307)),
        ("longest exactly", li(20, 1_000, 10, 72_000, 6_300_000)),
        ("one second too long", li(20, 1_000, 10, 72_001, 6_300_000)),
        ("cliff longest", li(20, 0, 0, 63_072_000, 0)),
        ("cliff too long", li(20, 0, 0, 63_072_001, 0)),
        ("no share", li(0, 500, 10, 1_000, 3_600)),
        ("no share, cliff", li(0, 0, 0, 86_401, 0)),
        ("whole", li(100, 500, 10, 90_000, 3_600)),
        ("over whole", li(101, 500, 10, 90_000, 3_600)),
        ("top", li(255, u16::MAX, u16::MAX, u32::MAX, u32::MAX)),
    ] {
        for who in ["partner", "creator"] {
            e.add(format!("{who}'s liquidity vesting: {n}"), move |p| {
                if who == "partner" {
                    p.partner_liquidity_vesting_info = v;
                    // make room
                    p.partner_permanent_locked_liquidity_percentage = p.partner_permanent_locked_liquidity_percentage.saturating_sub(v.vesting_percentage);
                } else {
                    p.creator_liquidity_vesting_info = v;
                    p.creator_permanent_locked_liquidity_percentage = p.creator_permanent_locked_liquidity_percentage.saturating_sub(v.vesting_percentage);
                }
            });
        }
    }
    for (n, a, b) in [("tight", 9u8, 1u8), ("too tight", 0, 0)] {
        // everything vested over time with hardly anything locked for good
        e.add(format!("vesting instead of locks: {n}"), move |p| {
            p.partner_liquidity_vesting_info = li(50, 500, 20, 0, 8_640);
            p.creator_liquidity_vesting_info = li(30, 5_000, 2, 0, 43_200);
            (p.partner_liquidity_percentage, p.partner_permanent_locked_liquidity_percentage, p.creator_liquidity_percentage, p.creator_permanent_locked_liquidity_percentage) = (20 - a - b, a, 0, b);
        });
    }
    each(&mut e, "migrated base fee mode", &[0u8, 1, 2, 3, 4, 5, 255], |p, v| p.migrated_pool_base_fee_mode = v);
    let mc = |n: u16, step: u16, exp: u32, red: u64| MigratedPoolMarketCapFeeSchedulerParams { number_of_period: n, sqrt_price_step_bps: step, scheduler_expiration_duration: exp, reduction_factor: red };
    for (n, mode, s, bps) in [
        ("plain", 3u8, mc(10, 20, 86_400, 500_000), 100u16),
        ("at minimum", 3, mc(10, 20, 86_400, 990_000), 100),
        ("below minimum", 3, mc(10, 20, 86_400, 990_001), 100),
        ("underflow", 3, mc(10, 20, 86_400, 1_000_001), 100),
        ("overflow", 3, mc(10, 20, 86_400, u64::MAX), 100),
        ("exponential", 4, mc(10, 20, 86_400, 500), 100),
        ("exponential all", 4, mc(10, 20, 86_400, 10_000), 100),
        ("exponential over", 4, mc(10, 20, 86_400, 10_001), 100),
        ("exponential near minimum", 4, mc(1, 20, 86_400, 9_900), 100),
        ("exponential below minimum", 4, mc(1, 20, 86_400, 9_901), 100),
        ("no periods", 3, mc(0, 20, 86_400, 500_000), 100),
        ("no step", 3, mc(10, 0, 86_400, 500_000), 100),
        ("no expiry", 4, mc(10, 20, 0, 500), 100),
        ("no reduction", 4, mc(10, 20, 86_400, 0), 100),
        ("time mode", 0, mc(10, 20, 86_400, 500), 100),
        ("time mode, empty", 1, mc(0, 0, 0, 0), 100),
        ("time mode, only periods", 0, mc(1, 0, 0, 0), 100),
        ("time mode, only a step", 0, mc(0, 1, 0, 0), 100),
        ("time mode, only an expiry", 0, mc(0, 0, 1, 0), 100),
        ("time mode, only a reduction", 0, mc(0, 0, 0, 1), 100),
        ("exponential time mode, only a reduction", 1, mc(0, 0, 0, u64::MAX), 100),
        ("exponential time mode, only an expiry", 1, mc(0, 0, u32::MAX, 0), 100),
        ("limiter mode", 2, mc(0, 0, 0, 0), 100),
        ("extreme", 3, mc(u16::MAX, u16::MAX, u32::MAX, 1), 1000),
    ] {
        for custom in [false, true] {
            e.add(format!("market cap fee {n}{}", if custom { " customizable" } else { "" }), move |p| {
                p.migrated_pool_base_fee_mode = mode;
                p.migrated_pool_market_cap_fee_scheduler_params = s;
                if custom {
                    p.migration_option = 1;
                    p.migration_fee_option = 6;
                    p.migrated_pool_fee.pool_fee_bps = bps;
                }
            });
        }
    }
    for on in [false, true] {
        e.add(format!("first swap at minimum {on}"), move |p| p.enable_first_swap_with_min_fee = on);
    }
    e.add("padding", |p| p.padding = [7, 255]);
    // curves
    e.add("curve: empty", |p| p.curve.clear());
    for n in [15usize, 16, 17, 30] {
        e.add(format!("curve: {n} points"), move |p| {
            let (s, l) = (p.sqrt_start_price.clamp(MIN_SQRT, MAX_SQRT >> 8), p.curve.first().map_or(1 << 80, |x| x.liquidity.max(1)));
            p.curve = (1..=n as u128).map(|i| pt(s + s / 8 * i, l)).collect();
        });
    }
    for i in [0usize, 1, 15] {
        e.add(format!("curve: no liquidity in {i}"), move |p| {
            if let Some(x) = p.curve.get_mut(i) {
                x.liquidity = 0
            }
        });
        e.add(format!("curve: least liquidity in {i}"), move |p| {
            if let Some(x) = p.curve.get_mut(i) {
                x.liquidity = 1
            }
        });
        e.add(format!("curve: most liquidity in {i}"), move |p| {
            if let Some(x) = p.curve.get_mut(i) {
                x.liquidity = u128::MAX
            }
        });
        e.add(format!("curve: flat at {i}"), move |p| {
            let lo = if i == 0 { p.sqrt_start_price } else { p.curve.get(i - 1).map_or(0, |x| x.sqrt_price) };
            if let Some(x) = p.curve.get_mut(i) {
                x.sqrt_price = lo
            }
        });
        e.add(format!("curve: falling at {i}"), move |p| {
            let lo = if i == 0 { p.sqrt_start_price } else { p.curve.get(i - 1).map_or(1, |x| x.sqrt_price) };
            if let Some(x) = p.curve.get_mut(i) {
                x.sqrt_price = lo.saturating_sub(1)
            }
        });
    }
    for (n, v) in [("maximum", MAX_SQRT), ("beyond maximum", MAX_SQRT + 1), ("below maximum", MAX_SQRT - 1), ("top", u128::MAX)] {
        e.add(format!("curve: last price {n}"), move |p| {
            if let Some(x) = p.curve.last_mut() {
                x.sqrt_price = v
            }
        });
    }
    for (n, d) in [("exactly at the maximum", 0u128), ("one below the maximum", 1), ("a step below the maximum", 1 << 32)] {
        // liquidity 2^96 moves the price by 2^32 per quote unit, and the threshold buys the whole curve
        e.add(format!("migration price {n}"), move |p| {
            let last = MAX_SQRT - d;
            p.sqrt_start_price = (1 << 40) + last % (1 << 32);
            p.curve = vec![pt(MAX_SQRT, 1 << 96)];
            p.migration_quote_threshold = ((last - p.sqrt_start_price) >> 32) as u64;
            p.token_supply = None;
        });
    }
    e.add("curve: cut short", |p| p.curve.truncate(1));
    e.add("curve: last point twice", |p| {
        if let Some(x) = p.curve.last().cloned() {
            p.curve.push(x)
        }
    });
    for k in 0..curves().len() {
        e.add(format!("curve {}", curves()[k].0), move |p| with_curve(p, &curves()[k]));
    }
    e.0
}
/// base configurations the edits are applied to
fn bases(cx: &Cx) -> Vec<(String, ConfigParameters, bool)> {
    let mut v = vec![("plain".to_string(), params(), false)];
    for (n, opt, fo, mode, t22, sup, q) in [("v1", 0u8, 1u8, 0u8, false, 0usize, false), ("v1fixed", 0, 4, 0, false, 2, false), ("v2", 1, 5, 0, true, 1, true), ("custom", 1, 6, 1, false, 2, false), ("compound", 1, 6, 2, true, 0, false)] {
        let mut p = target(opt, fo, mode);
        p.token_type = t22 as u8;
        p.pool_creation_fee = 1_000_000;
        vesting_on(&mut p);
        set_supply(&mut p, sup, t22);
        v.push((n.into(), p, q));
    }
    for (i, z) in zoo(2).into_iter().enumerate() {
        if cx.thorough || i % 4 == 0 {
            v.push(z);
        }
    }
    v
}
fn bank_for(q22: bool) -> Bank {
    let mut b = base_bank();
    put_mint(&mut b, key("quote"), 6, u64::MAX / 2, Some(key("faucet")), None, qp(q22));
    b
}
/// create and compare with the model; Some(bank) if accepted
fn try_config(p: &ConfigParameters, q: Quote, pool: &Pool, bank: &Bank, t: &mut Tally) -> Result<Option<Bank>, String> {
    let mut b = bank.clone();
    let want = refcfg::config(p, q, pool, b.now.ts as u64);
    let o = b.exec1(pool.ix_create_config(p));
    t.transitions += 1;
    match (&want, o.ok()) {
        (None, true) => return Err(format!("an unsound configuration was accepted: {p:?}")),
        (Some(_), false) => return Err(format!("a sound configuration was refused with {:?}: {p:?}", o.err)),
        (None, false) => {
            t.hit("refused");
            ensure(b.digest() == bank.digest(), || "a refused configuration left a trace".into())?;
            return Ok(None);
        }
        _ => {}
    }
    t.hit("accepted");
    let want = want.unwrap();
    let got: PoolConfig = b.zc(&pool.config);
    if bytemuck::bytes_of(&got) != bytemuck::bytes_of(&want) {
        let i = bytemuck::bytes_of(&got).iter().zip(bytemuck::bytes_of(&want)).position(|(a, b)| a != b).unwrap();
        return Err(format!("stored configuration differs from the one asked for at byte {i}: {:?} instead of {:?}", &bytemuck::bytes_of(&got)[i..(i + 16).min(std::mem::size_of::<PoolConfig>())], &bytemuck::bytes_of(&want)[i..(i + 16).min(std::mem::size_of::<PoolConfig>())]));
    }
    let mut ev = o.events();
    let mut wev = refcfg::config_events(p, &want, pool);
    ev.sort();
    wev.sort();
    ensure(ev == wev, || format!("events {ev:?} expected {wev:?}"))?;
    // nothing else happened
    let a = b.get(&pool.config).unwrap();
    let rent = anchor_lang::prelude::Rent::default().minimum_balance(a.data.len());
    let had = bank.lamports(&pool.config);
    ensure(a.owner == dbc::ID && a.lamports == rent.max(had), || "the configuration account holds more or less than its rent".into())?;
    let (mut x, mut y) = (b.clone(), bank.clone());
    x.accs.remove(&pool.config);
    y.accs.remove(&pool.config);
    let mut f = x.get(&key("payer")).unwrap().clone();
    f.lamports += rent.max(had) - had;
    x.put(key("payer"), f);
    ensure(x.digest() == y.digest(), || "creating a configuration changed something else".into())?;
    Ok(Some(b))
}
/// an accepted configuration must work from beginning to end
fn whole_life(bank: &Bank, pool: &Pool, t: &mut Tally) -> Result<(), String> {
    let c = pool.cfg(bank);
    let r = run_tx(bank, std::slice::from_ref(pool), &ix1(Act::Init)).map_err(|m| format!("pool creation: {m}"))?;
    t.transitions += 1;
    let supply = refcfg::initial_supply(&c);
    if supply.is_none() {
        // the tokens needed do not fit a token account; no pool can exist
        t.hit("supply does not fit");
        return ensure(!r.ok, || "a pool was created with more tokens than fit".into());
    }
    ensure(r.ok, || format!("no pool can be created: {:?} {:?}", r.out.err, r.out.logs))?;
    let supply = supply.unwrap();
    let needs = c.swap_base_amount as u128 + c.migration_base_threshold as u128 + vest_total(&c).unwrap() as u128;
    ensure(supply as u128 >= needs, || format!("{supply} tokens do not cover {needs}"))?;
    let mut b = r.bank;
    // enough quote tokens for the price and the fee
    let need = c.migration_quote_threshold as u128 * 101 + 1_000;
    if need > u64::MAX as u128 / 2 {
        t.hit("threshold beyond any quote supply");
        return Ok(());
    }
    put_user_atas(&mut b, pool, 1 << 60);
    put_external(&mut b, pool);
    put_operator(&mut b, &key("operator"), 3);
    set_tokens(&mut b, &pool.quote_ata(&key("trader")), u64::MAX / 2);
    let mut acts = vec![Act::swap(true, 1, need as u64)];
    if has_vest(&c) {
        acts.push(Act::Locker { creator: "creator" });
    }
    if c.migration_option == 0 {
        acts.extend([Act::V1Meta, Act::MigrateV1]);
    } else {
        acts.push(Act::MigrateV2 { second: true });
    }
    for a in acts {
        let r = run_tx(&b, std::slice::from_ref(pool), &ix1(a)).map_err(|m| format!("{a:?}: {m}"))?;
        t.transitions += 1;
        ensure(r.ok, || format!("{a:?} was refused {:?} {:?}", r.out.err, r.out.logs))?;
        b = r.bank;
    }
    t.hit("migrated");
    ensure(pool.state(&b).migration_progress == 3, || "not migrated".into())
}
fn quote_of(q22: bool) -> Quote {
    if q22 {
        Quote::T22
    } else {
        Quote::Spl
    }
}
/// mint extensions of Token-2022 with the size of their data
const EXT: [(u16, usize); 20] = [
    (1, 108), (3, 32), (4, 65), (6, 1), (9, 0), (10, 52), (12, 32), (14, 64), (16, 129), (18, 64), (19, 80),
    (20, 64), (21, 72), (22, 64), (23, 72), (24, 196), (25, 56), (26, 33), (2, 8), (7, 0),
];
fn put_t22_mint(b: &mut Bank, k: Pubkey, ext: &[usize]) {
    put_mint(b, k, 6, u64::MAX / 2, Some(key("faucet")), None, T22);
    let mut a = b.get(&k).unwrap().clone();
    if !ext.is_empty() {
        a.data.resize(165, 0);
        a.data.push(1);
        for i in ext {
            let (t, n) = EXT[*i];
            a.data.extend(t.to_le_bytes());
            a.data.extend((n as u16).to_le_bytes());
            a.data.extend(std::iter::repeat(0u8).take(n));
        }
    }
    a.lamports = anchor_lang::prelude::Rent::default().minimum_balance(a.data.len());
    b.put(k, a);
}
pub fn p18(cx: &Cx) {
    let ed = edits();
    let bs = bases(cx);
    for (n, p, q) in &bs {
        if refcfg::config(p, quote_of(*q), &Pool::named("A", key("quote"), qp(*q), p.token_type == 1), 1_700_000_000).is_none() {
            cx.fail(Bad { scn: n.clone(), path: vec![], msg: "base configuration is not sound".into(), acts: vec![] });
        }
    }
    let pool_of = |p: &ConfigParameters, q: bool| Pool::named("A", key("quote"), qp(q), p.token_type == 1);
    let run = |name: String, base: usize, es: &[usize], t: &mut Tally| {
        let (_, p, q) = &bs[base];
        let mut p = p.clone();
        for e in es {
            ed[*e].1(&mut p);
        }
        let pool = pool_of(&p, *q);
        match try_config(&p, quote_of(*q), &pool, &bank_for(*q), t).map_err(|m| format!("{name}: {m}"))? {
            Some(b) => whole_life(&b, &pool, t).map_err(|m| format!("{name}: {m}")),
            None => Ok(()),
        }
    };
    // one edit
    let mut cases = vec![];
    for i in 0..bs.len() {
        for j in 0..ed.len() {
            cases.push((i, j));
        }
    }
    cx.cases("one edit", &cases, |x, t| run(format!("{} with {}", bs[x.0].0, ed[x.1].0), x.0, &[x.1], t));
    // two edits, in either order
    let mut cases = vec![];
    for i in 0..if cx.thorough { bs.len() } else { 3 } {
        for j in 0..ed.len() {
            for k in 0..ed.len() {
                if j != k && (cx.thorough || j < k) {
                    cases.push((i, j, k));
                }
            }
        }
    }
    cx.cases("two edits", &cases, |x, t| run(format!("{} with {} and {}", bs[x.0].0, ed[x.1].0, ed[x.2].0), x.0, &[x.1, x.2], t));
    // the later market's fee settings, every combination
    let mut cases = vec![];
    for i in 0..bs.len() {
        for custom in [None, Some(5u8), Some(6), Some(7)] {
            for m in [0u8, 1, 2, 3] {
                for d in [0u8, 1, 2] {
                    for f in [0u16, 9, 10, 1000, 1001] {
                        for c in [0u16, 1, 10_000, 10_001] {
                            for mode in 0..6u8 {
                                for s in 0..6 {
                                    if cx.thorough || i < 3 || (f == 10 && c % 10_000 == 0) {
                                        cases.push((i, custom, m, d, f, c, mode, s));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    cx.cases("fees of the later market", &cases, |(i, custom, m, d, f, c, mode, s), t| {
        let (n, p, q) = &bs[*i];
        let mut p = p.clone();
        if let Some(o) = custom {
            p.migration_option = 1;
            p.migration_fee_option = *o;
        }
        p.migrated_pool_fee = MigratedPoolFee { collect_fee_mode: *m, dynamic_fee: *d, pool_fee_bps: *f };
        p.compounding_fee_bps = *c;
        p.migrated_pool_base_fee_mode = *mode;
        let (a, b, e, r) = [(0u16, 0u16, 0u32, 0u64), (10, 20, 86_400, 500), (0, 20, 86_400, 500), (10, 0, 86_400, 500), (10, 20, 0, 500), (10, 20, 86_400, 0)][*s];
        p.migrated_pool_market_cap_fee_scheduler_params = MigratedPoolMarketCapFeeSchedulerParams { number_of_period: a, sqrt_price_step_bps: b, scheduler_expiration_duration: e, reduction_factor: r };
        let pool = pool_of(&p, *q);
        let name = format!("{n}, option {custom:?}, market fee {m}/{d}/{f}/{c} mode {mode} schedule {a}/{b}/{e}/{r}");
        match try_config(&p, quote_of(*q), &pool, &bank_for(*q), t).map_err(|m| format!("{name}: {m}"))? {
            Some(b) => whole_life(&b, &pool, t).map_err(|m| format!("{name}: {m}")),
            None => Ok(()),
        }
    });
    // thresholds so small that rounding decides whether a market can be opened at all
    let mut cases = vec![];
    for kind in 0..4usize {
        for k in [1u128, 2, 10, 100, 1_000] {
            for down in [false, true] {
                for pct in [0u8, 7, 99] {
                    let near = if down { 1 } else { (k * k) as u64 };
                    for x in 0..cx.pick(140u64, 600) {
                        // at, next to and between whole base units
                        for off in if near == 1 { vec![0] } else { vec![0, 1, near / 2, near - 1, near * 99 / 100] } {
                            cases.push((kind, k, down, pct, (x * near + off).max(1)));
                        }
                    }
                }
            }
        }
    }
    cx.cases("small thresholds", &cases, |(kind, k, down, pct, q), t| {
        let mut p = [target(0, 1, 0), target(1, 2, 0), target(1, 6, 1), target(1, 6, 2)][*kind].clone();
        p.token_supply = None;
        p.sqrt_start_price = if *down { (1u128 << 64) / k } else { (1u128 << 64) * k };
        p.curve = vec![pt(MAX_SQRT / 2, p.sqrt_start_price << 44)];
        p.migration_quote_threshold = *q;
        p.migration_fee = MigrationFee { fee_percentage: *pct, creator_fee_percentage: *pct / 2 };
        let pool = pool_of(&p, false);
        let name = format!("kind {kind}, price {}{k}, migration fee {pct}, threshold {q}", if *down { "1/" } else { "" });
        match try_config(&p, quote_of(false), &pool, &bank_for(false), t).map_err(|m| format!("{name}: {m}"))? {
            Some(b) => whole_life(&b, &pool, t).map_err(|m| format!("{name}: {m}")),
            None => Ok(()),
        }
    });
    // parties and quote mints
    let mut cases = vec![];
    for i in 0..bs.len() {
        for lf in [false, true] {
            for fixed in [false, true] {
                for other in [false, true] {
                    cases.push((i, lf, fixed, other));
                }
            }
        }
    }
    cx.cases("leftover receiver and fee claimer", &cases, |(i, lf, fixed, other), t| {
        let (n, p, q) = &bs[*i];
        let mut p = p.clone();
        if *fixed {
            set_supply(&mut p, 2, false);
            if let (true, Some(s)) = (*other, &mut p.token_supply) {
                // nothing to burn at migration
                s.post_migration_token_supply = s.pre_migration_token_supply;
            }
        } else {
            p.token_supply = None;
        }
        let mut pool = pool_of(&p, *q);
        if *lf {
            pool.leftover = Pubkey::default();
        }
        if *other {
            pool.partner = key("stranger");
        }
        let name = format!("{n}: default leftover {lf}, fixed supply {fixed}, other partner {other}");
        match try_config(&p, quote_of(*q), &pool, &bank_for(*q), t).map_err(|m| format!("{name}: {m}"))? {
            Some(b) => whole_life(&b, &pool, t).map_err(|m| format!("{name}: {m}")),
            None => Ok(()),
        }
    });
    let mut sets: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..EXT.len() {
        sets.push(vec![i]);
        for j in 0..EXT.len() {
            if i != j {
                sets.push(vec![i, j]);
                for k in 0..EXT.len() {
                    if k != i && k != j && (cx.thorough || i < j && j < k) {
                        sets.push(vec![i, j, k]);
                    }
                }
            }
        }
    }
    let names: Vec<usize> = (0..bs.len()).filter(|i| cx.thorough || *i < 6).collect();
    let cases: Vec<(usize, &Vec<usize>)> = names.iter().flat_map(|i| sets.iter().map(move |s| (*i, s))).collect();
    cx.cases("Token-2022 quote mint with extensions", &cases, |(i, s), t| {
        let (n, p, _) = &bs[*i];
        let pool = pool_of(p, true);
        let mut b = base_bank();
        put_t22_mint(&mut b, key("quote"), s);
        let good = s.iter().all(|x| EXT[*x].0 == 18 || EXT[*x].0 == 19);
        let name = format!("{n} with extensions {:?}", s.iter().map(|x| EXT[*x].0).collect::<Vec<_>>());
        match try_config(p, if good { Quote::T22 } else { Quote::Unsupported }, &pool, &b, t).map_err(|m| format!("{name}: {m}"))? {
            // token metadata is variable in length and not filled in here
            Some(b) => whole_life(&b, &pool, t).map_err(|m| format!("{name}: {m}")),
            None => Ok(()),
        }
    });
    let cases: Vec<(usize, usize)> = (0..bs.len()).flat_map(|i| (0..10).map(move |j| (i, j))).collect();
    cx.cases("accounts", &cases, |(i, j), t| {
        let (n, p, q) = &bs[*i];
        let mut pool = pool_of(p, *q);
        let mut b = bank_for(*q);
        let ctx = |m: String| format!("{n}, account case {j}: {m}");
        let done = |b: &Bank, pool: &Pool, t: &mut Tally| whole_life(b, pool, t).map_err(ctx);
        match j {
            // the address holds some lamports already
            0 | 1 => {
                fund(&mut b, pool.config, if *j == 0 { 1 } else { 1_000_000_000 });
                let x = try_config(p, quote_of(*q), &pool, &b, t).map_err(ctx)?.ok_or("refused")?;
                done(&x, &pool, t)
            }
            // wrapped SOL of either program
            2 | 3 => {
                let (m, prog) = if *j == 2 { (anchor_spl::token::spl_token::native_mint::ID, SPL) } else { (anchor_spl::token_2022::spl_token_2022::native_mint::ID, T22) };
                put_mint(&mut b, m, 9, u64::MAX / 2, None, None, prog);
                pool = Pool::named("A", m, prog, p.token_type == 1);
                try_config(p, if *j == 2 { Quote::Spl } else { Quote::Unsupported }, &pool, &b, t).map_err(ctx).map(|_| ())
            }
            // not a mint
            4 | 5 => {
                let k = key("not a mint");
                if *j == 4 {
                    put_token(&mut b, k, key("quote"), key("trader"), 5, qp(*q));
                } else {
                    fund(&mut b, k, 1_000_000_000);
                }
                pool.quote_mint = k;
                try_config(p, Quote::Unsupported, &pool, &b, t).map_err(ctx).map(|_| ())
            }
            // without one of the signatures
            6 | 7 => {
                let mut x = pool.ix_create_config(p);
                let k = if *j == 6 { pool.config } else { key("payer") };
                x.accounts.iter_mut().filter(|m| m.pubkey == k).for_each(|m| m.is_signer = false);
                let d = b.digest();
                t.transitions += 1;
                ensure(!b.exec1(x).ok() && b.digest() == d, || ctx("created without a signature".into()))
            }
            // an existing configuration stays as it is
            8 | 9 => {
                accept(&mut b, pool.ix_create_config(p), "the first configuration").map_err(ctx)?;
                let d = b.digest();
                let (o, mut p2) = (if *j == 8 { *i } else { (*i + 1) % bs.len() }, bs[*i].1.clone());
                if *j == 9 {
                    p2 = bs[o].1.clone();
                    pool.partner = key("stranger");
                }
                t.transitions += 1;
                ensure(!b.exec1(pool.ix_create_config(&p2)).ok() && b.digest() == d, || ctx("a configuration was overwritten".into()))
            }
            _ => unreachable!(),
        }
    });
}

// ------------------------------------------------------------------ P20
fn named(pool: &Pool, n: &str, s: &str, u: &str) -> Instruction {
    let mut x = pool.ix_init_pool();
    let params = InitializePoolParameters { name: n.into(), symbol: s.into(), uri: u.into() };
    x.data = if pool.base_prog == T22 {
        dbc::instruction::InitializeVirtualPoolWithToken2022 { params }.data()
    } else {
        dbc::instruction::InitializeVirtualPoolWithSplToken { params }.data()
    };
    x
}
/// (configuration, quote mint is Token-2022)
fn start_params(cx: &Cx) -> Vec<(String, ConfigParameters, bool)> {
    let mut v = vec![];
    for t22 in [false, true] {
        for q22 in [false, true] {
            for auth in 0..5u8 {
                for sup in 0..3usize {
                    for dec in 6..=9u8 {
                        for act in 0..2u8 {
                            for fee in [0u64, 1_000_000, 100_000_000_000] {
                                for vest in [false, true] {
                                    for mig in 0..3u8 {
                                        if mig == 0 && (q22 || t22) || !cx.thorough && (fee == 1_000_000) != (dec % 2 == 0) && fee != 0 {
                                            continue;
                                        }
                                        let mut p = match mig {
                                            0 => target(0, 3, 0),
                                            1 => target(1, 2, 0),
                                            _ => target(1, 6, 2),
                                        };
                                        p.token_type = t22 as u8;
                                        p.token_update_authority = auth;
                                        p.token_decimal = dec;
                                        p.activation_type = act;
                                        p.pool_creation_fee = fee;
                                        if vest {
                                            vesting_on(&mut p);
                                        }
                                        set_supply(&mut p, sup, t22);
                                        v.push((format!("base22 {t22} quote22 {q22} authority {auth} supply {sup} decimals {dec} activation {act} fee {fee} vesting {vest} migration {mig}"), p, q22));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    v
}
fn configured(p: &ConfigParameters, q22: bool) -> Result<(Bank, Pool), String> {
    let pool = Pool::named("A", key("quote"), qp(q22), p.token_type == 1);
    let mut b = bank_for(q22);
    accept(&mut b, pool.ix_create_config(p), "the configuration")?;
    Ok((b, pool))
}
/// a pool takes its quote token from its configuration, however consistent the other addresses are
pub fn foreign_quotes(cx: &Cx) {
    let mut cases = vec![];
    for t22 in [false, true] {
        for q22 in [false, true] {
            for opt in 0..2u8 {
                if opt == 0 && (t22 || q22) {
                    continue;
                }
                for q in 0..5usize {
                    for fee in [0, 10_000_000] {
                        cases.push((t22, q22, opt, q, fee));
                    }
                }
            }
        }
    }
    cx.cases("quote token of another configuration", &cases, |(t22, q22, opt, q, fee), t| {
        let mut p = params();
        p.token_type = *t22 as u8;
        p.migration_option = *opt;
        p.pool_creation_fee = *fee;
        let (mut b, pool) = configured(&p, *q22)?;
        put_mint(&mut b, key("quote2"), 6, u64::MAX / 2, Some(key("faucet")), None, SPL);
        put_mint(&mut b, key("quote3"), 9, u64::MAX / 2, Some(key("faucet")), None, T22);
        // one that another configuration uses
        put_mint(&mut b, key("quote4"), 6, u64::MAX / 2, Some(key("faucet")), None, qp(*q22));
        let other = Pool::named("B", key("quote4"), qp(*q22), *t22);
        accept(&mut b, other.ix_create_config(&p), "other configuration")?;
        accept(&mut b, other.ix_init_pool(), "other pool")?;
        let (mint, prog) = [(key("quote2"), SPL), (key("quote3"), T22), (key("quote4"), qp(*q22)), (other.base_mint, other.base_prog), (pool.base_mint, pool.base_prog)][*q];
        let bad = Pool::with(pool.config, pool.base_mint, mint, prog, *t22);
        let mut x = b.clone();
        let o = x.exec1(bad.ix_init_pool());
        t.transitions += 2;
        t.hit("foreign quote refused");
        ensure(!o.ok(), || format!("a pool was created with quote token {mint} under a configuration for {}", pool.quote_mint))?;
        ensure(x.digest() == b.digest(), || "a refused creation left a trace".into())?;
        accept(&mut b, pool.ix_init_pool(), "the pool with the agreed quote token")
    });
}
pub fn p20(cx: &Cx) {
    let grid = start_params(cx);
    let idx: Vec<usize> = (0..grid.len()).collect();
    cx.cases("creation", &idx, |i, t| {
        let (n, p, q22) = &grid[*i];
        let ctx = |m: String| format!("{n}: {m}");
        let (b, pool) = configured(p, *q22).map_err(ctx)?;
        let mut wrong = pool.clone();
        wrong.base_prog = if pool.base_prog == T22 { SPL } else { T22 };
        let r = run_tx(&b, &[wrong], &ix1(Act::Init)).map_err(|m| ctx(format!("as the other kind of token: {m}")))?;
        ensure(!r.ok, || ctx("created with the wrong token program".into()))?;
        let mut b0 = b.clone();
        b0.advance(1234, 777);
        let r = run_tx(&b0, std::slice::from_ref(&pool), &ix1(Act::Init)).map_err(ctx)?;
        ensure(r.ok, || ctx(format!("a pool cannot be created {:?} {:?}", r.out.err, r.out.logs)))?;
        // what it says in words
        let (s, c) = (pool.state(&r.bank), pool.cfg(&r.bank));
        ensure(s.sqrt_price == p.sqrt_start_price && s.quote_reserve == 0 && s.has_swap == 0 && s.migration_progress == 0, || ctx("does not start at the beginning".into()))?;
        ensure(s.base_reserve == r.bank.tokens(&pool.base_vault) && s.base_reserve == r.bank.supply(&pool.base_mint), || ctx("the vault does not hold the whole supply".into()))?;
        ensure(s.base_reserve as u128 >= c.swap_base_amount as u128 + c.migration_base_threshold as u128, || ctx("too few tokens".into()))?;
        // the payer paid the rent and the fee, no more
        let paid = b0.lamports(&key("payer")) - r.bank.lamports(&key("payer"));
        let rent: u64 = r.bank.accs.iter().filter(|(k, _)| b0.get(k).is_none()).map(|(_, a)| anchor_lang::prelude::Rent::default().minimum_balance(a.data.len())).sum();
        ensure(paid == rent + p.pool_creation_fee, || ctx(format!("the payer paid {paid}, rent is {rent}")))?;
        // only once
        for who in ["creator", "trader2"] {
            let mut again = pool.clone();
            again.creator = key(who);
            let x = run_tx(&r.bank, &[again], &ix1(Act::Init)).map_err(|m| ctx(format!("again by {who}: {m}")))?;
            ensure(!x.ok, || ctx("created twice".into()))?;
        }
        t.transitions += 4;
        t.hit(if p.token_type == 1 { "Token-2022 pool created" } else { "SPL pool created" });
        Ok(())
    });
    // every account, every other account in its place
    let few: Vec<usize> = (0..grid.len()).filter(|i| grid[*i].0.contains("supply 2 decimals 7 activation 1") && grid[*i].0.contains("vesting true") && grid[*i].0.contains("authority 3") && grid[*i].1.pool_creation_fee != 0).collect();
    let mut cases = vec![];
    for i in &few {
        let (n, p, q22) = &grid[*i];
        match configured(p, *q22) {
            // the last one, the program itself, is only mentioned
            Ok((_, pool)) => (0..pool.ix_init_pool().accounts.len() - 1).for_each(|a| cases.push((*i, a))),
            Err(m) => cx.fail(Bad { scn: n.clone(), path: vec![], msg: m, acts: vec![] }),
        }
    }
    cx.cases("substituted accounts", &cases, |(i, a), t| {
        let (n, p, q22) = &grid[*i];
        let (mut b, pool) = configured(p, *q22)?;
        let orig = pool.ix_init_pool();
        // other configurations, mints and pools to choose from
        let t22 = p.token_type == 1;
        put_mint(&mut b, key("quote2"), 6, u64::MAX / 2, Some(key("faucet")), None, qp(!*q22 && p.migration_option == 1));
        put_mint(&mut b, key("quote3"), 6, u64::MAX / 2, Some(key("faucet")), None, qp(*q22));
        let other = Pool::named("B", key("quote"), qp(*q22), t22);
        accept(&mut b, other.ix_create_config(p), "other configuration")?;
        accept(&mut b, other.ix_init_pool(), "other pool")?;
        let third = Pool::named("C", key("quote3"), qp(*q22), t22);
        accept(&mut b, third.ix_create_config(p), "third configuration")?;
        let mut cands: Vec<Pubkey> = b.accs.keys().copied().collect();
        cands.extend(orig.accounts.iter().map(|m| m.pubkey));
        cands.extend([key("fresh"), third.pool, third.base_vault, third.quote_vault, third.base_mint]);
        cands.sort();
        cands.dedup();
        let was = orig.accounts[*a].pubkey;
        // the transaction as it should be works
        ensure(b.clone().exec1(orig.clone()).ok(), || format!("{n}: creation was refused"))?;
        let creator_slot = was == pool.creator;
        let payer_slot = was == key("payer");
        for k in cands {
            if k == was {
                continue;
            }
            let mut x = orig.clone();
            x.accounts[*a].pubkey = k;
            let mut c = b.clone();
            let o = c.exec1(x);
            t.transitions += 1;
            if o.ok() {
                if creator_slot {
                    // whoever signs as creator is the creator
                    ensure(pool.state(&c).creator == k, || format!("{n}: {k} signed as creator and did not become creator"))?;
                } else if payer_slot && b.get(&k).map_or(false, |a| a.owner == anchor_lang::solana_program::system_program::ID && a.data.is_empty()) {
                    ensure(pool.state(&c).creator == pool.creator, || format!("{n}: the payer became creator"))?;
                } else {
                    return Err(format!("{n}: created with {} in place of {}", label(&k, &[pool.clone(), other.clone(), third.clone()]), label(&was, std::slice::from_ref(&pool))));
                }
                t.hit("other creator or payer");
            } else {
                t.hit("refused");
            }
        }
        // without the signature
        if orig.accounts[*a].is_signer {
            let mut x = orig.clone();
            x.accounts[*a].is_signer = false;
            ensure(!b.clone().exec1(x).ok(), || format!("{n}: created without the signature of account {a}"))?;
            t.hit("unsigned");
        }
        Ok(())
    });
    foreign_quotes(cx);
    // names, and addresses that already hold lamports
    let long = "x".repeat(300);
    let names: Vec<(&str, &str, &str)> = vec![("", "", ""), ("a", "b", "c"), ("Ünï ☂", "💧", "ipfs://é"), (&long[..32], &long[..10], &long[..200]), ("name\0", "sym\n", "\"quoted\"")];
    let cases: Vec<(usize, usize)> = few.iter().flat_map(|i| (0..names.len()).map(move |j| (*i, j))).collect();
    cx.cases("names", &cases, |(i, j), t| {
        let (n, p, q22) = &grid[*i];
        let (b, pool) = configured(p, *q22)?;
        let (nm, sy, ur) = names[*j];
        let mut c = b.clone();
        accept(&mut c, named(&pool, nm, sy, ur), "a pool with this name").map_err(|m| format!("{n} named {nm:?}: {m}"))?;
        let mut d = b.clone();
        accept(&mut d, pool.ix_init_pool(), "a pool")?;
        t.transitions += 2;
        let (name, symbol, uri) = if pool.base_prog == T22 {
            use anchor_spl::token_2022::spl_token_2022::{extension::{BaseStateWithExtensions, StateWithExtensions}, state::Mint};
            let a = c.get(&pool.base_mint).unwrap();
            let m = StateWithExtensions::<Mint>::unpack(&a.data).map_err(|_| "mint")?;
            let md = m.get_variable_len_extension::<spl_token_metadata_interface::state::TokenMetadata>().map_err(|_| "metadata")?;
            (md.name, md.symbol, md.uri)
        } else {
            use anchor_lang::AnchorDeserialize;
            let r = mocks::MetaRecord::try_from_slice(&c.get(&mocks::mpl_metadata_key(&pool.base_mint)).unwrap().data).map_err(|_| "metadata")?;
            (r.name, r.symbol, r.uri)
        };
        ensure((name.as_str(), symbol.as_str(), uri.as_str()) == (nm, sy, ur), || format!("{n}: named {name:?} {symbol:?} {uri:?} instead of {nm:?} {sy:?} {ur:?}"))?;
        for k in [pool.pool, pool.base_vault, pool.quote_vault] {
            ensure(c.get(&k) == d.get(&k), || format!("{n}: the name changed {}", label(&k, std::slice::from_ref(&pool))))?;
        }
        Ok(())
    });
    let cases: Vec<(usize, u8)> = few.iter().flat_map(|i| (1..32u8).map(move |j| (*i, j))).collect();
    cx.cases("addresses that already hold lamports", &cases, |(i, m), t| {
        let (n, p, q22) = &grid[*i];
        let (b, pool) = configured(p, *q22)?;
        let mut d = b.clone();
        accept(&mut d, pool.ix_init_pool(), "a pool")?;
        let at = [pool.pool, pool.base_mint, pool.base_vault, pool.quote_vault];
        let amount = if m & 16 != 0 { 1u64 } else { 3_000_000_000 };
        let mut c = b.clone();
        for (j, k) in at.iter().enumerate() {
            if m & (1 << j) != 0 {
                fund(&mut c, *k, amount);
            }
        }
        accept(&mut c, pool.ix_init_pool(), "a pool at an address holding lamports").map_err(|e| format!("{n} ({m:05b}): {e}"))?;
        t.transitions += 2;
        for (j, k) in at.iter().enumerate() {
            let (x, y) = (c.get(k).unwrap(), d.get(k).unwrap());
            ensure(x.data == y.data && x.owner == y.owner, || format!("{n} ({m:05b}): {} came out differently", label(k, std::slice::from_ref(&pool))))?;
            // the creation fee is on top of the rent whatever was there
            let fee = if j == 0 { p.pool_creation_fee } else { 0 };
            let had = if m & (1 << j) != 0 { amount } else { 0 };
            let rent = anchor_lang::prelude::Rent::default().minimum_balance(x.data.len());
            ensure(x.lamports == rent.max(had) + fee || x.lamports == y.lamports + had, || format!("{n} ({m:05b}): {} holds {} lamports", label(k, std::slice::from_ref(&pool)), x.lamports))?;
        }
        Ok(())
    });
    // configurations stored under earlier rules: too little locked, too low a fee
    let mut cases = vec![];
    for i in &few {
        for share in [(0u8, 0u8), (9, 0), (0, 9), (5, 4), (5, 5), (10, 0), (0, 10), (50, 50)] {
            for cliff in [1u64, MIN_FEE - 1, MIN_FEE, MIN_FEE + 1] {
                for mode in 0..2u8 {
                    for red in [0u64, 1, 100] {
                        cases.push((*i, share, cliff, mode, red));
                    }
                }
            }
        }
    }
    cx.cases("configurations from earlier versions", &cases, |(i, (a, c), cliff, mode, red), t| {
        let (_, p, q22) = &grid[*i];
        let (b, pool) = configured(p, *q22)?;
        let mut acc = b.get(&pool.config).unwrap().clone();
        let mut cfg: PoolConfig = bytemuck::pod_read_unaligned(&acc.data[8..]);
        (cfg.partner_permanent_locked_liquidity_percentage, cfg.creator_permanent_locked_liquidity_percentage) = (*a, *c);
        (cfg.partner_liquidity_percentage, cfg.creator_liquidity_percentage) = (100 - a - c, 0);
        let f = &mut cfg.pool_fees.base_fee;
        (f.cliff_fee_numerator, f.base_fee_mode, f.first_factor, f.second_factor, f.third_factor) = (*cliff, *mode, if *red == 0 { 0 } else { 1 }, *red, *red);
        acc.data[8..].copy_from_slice(bytemuck::bytes_of(&cfg));
        let mut b = b;
        b.put(pool.config, acc);
        let r = run_tx(&b, std::slice::from_ref(&pool), &ix1(Act::Init)).map_err(|m| format!("{} with {a}+{c} locked, cliff {cliff} mode {mode} reduction {red}: {m}", grid[*i].0))?;
        t.transitions += 1;
        t.hit(if r.ok { "created" } else { "refused" });
        Ok(())
    });
}
