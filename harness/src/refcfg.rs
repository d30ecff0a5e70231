//! Reference model of configuration creation and pool creation.
use crate::env::*;
use crate::refm::{vesting, DEAD};
use crate::refmath::*;
use ::dynamic_bonding_curve as dbc;
use anchor_lang::prelude::*;
use anchor_lang::Event;
use dbc::event::*;
use dbc::params::liquidity_distribution::LiquidityDistributionParameters;
use dbc::state::{LiquidityVestingInfo, PoolConfig};
use dbc::*;
use num_traits::ToPrimitive;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Quote {
    Spl,
    /// token-2022 with only extensions that are allowed
    T22,
    /// anything else
    Unsupported,
}

pub fn vest_info(v: &LiquidityVestingInfoParams) -> LiquidityVestingInfo {
    LiquidityVestingInfo {
        is_initialized: (*v != LiquidityVestingInfoParams::default()) as u8,
        vesting_percentage: v.vesting_percentage,
        _padding: [0; 2],
        bps_per_period: v.bps_per_period,
        number_of_periods: v.number_of_periods,
        frequency: v.frequency,
        cliff_duration_from_migration_time: v.cliff_duration_from_migration_time,
    }
}
fn share_of_max(pct: u8) -> Option<u128> {
    mul_floor(u128::MAX, pct as u128, 100).to_u128()
}
fn vesting_ok(v: &LiquidityVestingInfoParams, now: u64) -> Option<()> {
    if *v == LiquidityVestingInfoParams::default() {
        return Some(());
    }
    let x = vesting(&vest_info(v), share_of_max(v.vesting_percentage)?, now)?;
    if x.cliff_point == now && x.n == 0 || x.n > 0 && (x.freq == 0 || x.per == 0) {
        return None;
    }
    let dur = (x.cliff_point - now) as u128 + x.freq as u128 * x.n as u128;
    let total = b(x.cliff) + b(x.per) * x.n;
    (dur <= 2 * 365 * 86400 && total > b(0u8)).then_some(())
}
/// basis points of all liquidity still locked `secs` after migration
pub fn locked_bps(i: &LiquidityVestingInfo, secs: u64) -> Option<u64> {
    if i.is_initialized == 0 {
        return Some(0);
    }
    let total = share_of_max(i.vesting_percentage)?;
    let x = vesting(i, total, 0)?;
    let open: u128 = if secs < x.cliff_point {
        0
    } else if x.freq == 0 {
        x.cliff
    } else {
        let n = ((secs - x.cliff_point) / x.freq).min(x.n as u64);
        x.cliff.checked_add(x.per.checked_mul(n as u128)?)?
    };
    (b(total.checked_sub(open)?) * 10_000u32 / u128::MAX).to_u64()
}
pub fn total_locked_bps(c: &PoolConfig, secs: u64) -> Option<u64> {
    Some(
        locked_bps(&c.partner_liquidity_vesting_info, secs)?
            + locked_bps(&c.creator_liquidity_vesting_info, secs)?
            + 100 * c.partner_permanent_locked_liquidity_percentage as u64
            + 100 * c.creator_permanent_locked_liquidity_percentage as u64,
    )
}
fn fees_ok(p: &ConfigParameters, c: &PoolConfig) -> Option<()> {
    let f = &p.pool_fees.base_fee;
    let zero = f.first_factor == 0 && f.second_factor == 0 && f.third_factor == 0;
    let full = f.first_factor != 0 && f.second_factor != 0 && f.third_factor != 0;
    match f.base_fee_mode {
        0 | 1 => {
            if !zero && !full || f.cliff_fee_numerator > MAX_FEE || min_base_fee(c)? < MIN_FEE {
                return None;
            }
        }
        2 => {
            if p.collect_fee_mode != 0 || f.cliff_fee_numerator < MIN_FEE || f.cliff_fee_numerator > MAX_FEE {
                return None;
            }
            let lim = if p.activation_type == 0 { 108_000 } else { 43_200 };
            if !zero && (!full || f.second_factor > lim || f.first_factor as u64 * 100_000 >= DENOM || limiter_numerator(c, u64::MAX)? > MAX_FEE) {
                return None;
            }
        }
        _ => return None,
    }
    if let Some(d) = &p.pool_fees.dynamic_fee {
        let u24 = (1u32 << 24) - 1;
        if d.bin_step != 1
            || d.bin_step_u128 != 1844674407370955
            || d.filter_period >= d.decay_period
            || d.reduction_factor > 10_000
            || d.variable_fee_control > u24
            || d.max_volatility_accumulator > u24
        {
            return None;
        }
    }
    Some(())
}
fn migrated_fee_ok(p: &ConfigParameters) -> Option<()> {
    let (m, s) = (&p.migrated_pool_fee, &p.migrated_pool_market_cap_fee_scheduler_params);
    let none = m.collect_fee_mode == 0
        && m.dynamic_fee == 0
        && m.pool_fee_bps == 0
        && p.compounding_fee_bps == 0
        && p.migrated_pool_base_fee_mode == 0
        && *s == MigratedPoolMarketCapFeeSchedulerParams::default();
    if p.migration_option == 0 {
        return (p.migration_fee_option != 6 && none).then_some(());
    }
    if p.migration_fee_option != 6 {
        return none.then_some(());
    }
    let comp = if m.collect_fee_mode == 2 {
        (1..=10_000).contains(&p.compounding_fee_bps)
    } else {
        p.compounding_fee_bps == 0
    };
    if !(10..=1000).contains(&m.pool_fee_bps) || m.collect_fee_mode > 2 || !comp || m.dynamic_fee > 1 {
        return None;
    }
    match p.migrated_pool_base_fee_mode {
        0 | 1 => (*s == MigratedPoolMarketCapFeeSchedulerParams::default()).then_some(()),
        3 | 4 => {
            if s.number_of_period == 0 || s.sqrt_price_step_bps == 0 || s.scheduler_expiration_duration == 0 || s.reduction_factor == 0 {
                return None;
            }
            let min = market_cap_min_fee(m.pool_fee_bps, p.migrated_pool_base_fee_mode, s)?;
            (min >= 100_000).then_some(())
        }
        _ => None,
    }
}
/// lowest fee (1e-9) of the migrated pool's own fee schedule
pub fn market_cap_min_fee(bps: u16, mode: u8, s: &MigratedPoolMarketCapFeeSchedulerParams) -> Option<u64> {
    let cliff = bps as u64 * 100_000;
    match mode {
        3 => cliff.checked_sub(s.reduction_factor.checked_mul(s.number_of_period as u64)?),
        4 => ((b(exp_factor(s.reduction_factor, s.number_of_period as u64)?) * cliff) >> 64usize).to_u64(),
        _ => Some(cliff),
    }
}
pub fn swap_base(start: u128, stop: u128, curve: &[LiquidityDistributionParameters]) -> B {
    let (mut lo, mut t) = (start, b(0u8));
    for x in curve {
        let hi = x.sqrt_price.min(stop);
        if hi > lo {
            t += d_base(lo, hi, x.liquidity, true);
        }
        lo = x.sqrt_price;
    }
    t
}
pub fn migration_price(start: u128, threshold: u64, curve: &[LiquidityDistributionParameters]) -> Option<u128> {
    let (mut lo, mut left) = (start, threshold);
    for x in curve {
        let need = d_quote(lo, x.sqrt_price, x.liquidity, true);
        if need > b(left) {
            return (b(lo) + (b(left) << 128usize) / x.liquidity).to_u128();
        }
        left -= need.to_u64()?;
        lo = x.sqrt_price;
    }
    (left == 0).then_some(lo)
}
pub fn with_buffer(swap: u64, start: u128, curve: &[LiquidityDistributionParameters]) -> Option<u64> {
    let x = b(swap) + b(swap) * 25u8 / 100u8;
    x.min(swap_base(start, MAX_SQRT, curve)).to_u64()
}
fn curve_of(c: &PoolConfig) -> Vec<LiquidityDistributionParameters> {
    c.curve.iter().take_while(|x| x.liquidity != 0).map(|x| LiquidityDistributionParameters { sqrt_price: x.sqrt_price, liquidity: x.liquidity }).collect()
}
pub fn initial_supply(c: &PoolConfig) -> Option<u64> {
    if c.fixed_token_supply_flag == 1 {
        return Some(c.pre_migration_token_supply);
    }
    let sw = with_buffer(c.swap_base_amount, c.sqrt_start_price, &curve_of(c))?;
    sw.checked_add(c.migration_base_threshold)?.checked_add(crate::refm::vest_total(c)?)
}
/// quote that seeds the new pool, and the base that goes with it
fn migration_base(p: &ConfigParameters, price: u128) -> Option<(u64, u64)> {
    let q = mul_ceil(p.migration_quote_threshold as u128, 100 - p.migration_fee.fee_percentage as u128, 100).to_u64()?;
    let q128: B = b(q) << 128usize;
    let base = if p.migration_option == 0 || p.migrated_pool_fee.collect_fee_mode == 2 {
        ceil(&q128, &(b(price) * price))
    } else {
        let l: B = q128 / price.checked_sub(MIN_SQRT).filter(|x| *x > 0)?;
        d_base(price, MAX_SQRT, l.to_u128()?, true)
    };
    Some((base.to_u64()?, q))
}

pub fn zeroed_cfg() -> PoolConfig {
    bytemuck::Zeroable::zeroed()
}
/// the configuration account these parameters must produce; None = must be refused
pub fn config(p: &ConfigParameters, quote: Quote, keys: &Pool, ts: u64) -> Option<PoolConfig> {
    let mut c = zeroed_cfg();
    let f = &p.pool_fees.base_fee;
    let t = &mut c.pool_fees.base_fee;
    (t.cliff_fee_numerator, t.first_factor, t.second_factor, t.third_factor, t.base_fee_mode) =
        (f.cliff_fee_numerator, f.first_factor, f.second_factor, f.third_factor, f.base_fee_mode);
    if let Some(d) = &p.pool_fees.dynamic_fee {
        let t = &mut c.pool_fees.dynamic_fee;
        t.initialized = 1;
        t.bin_step = d.bin_step;
        t.bin_step_u128 = d.bin_step_u128;
        t.filter_period = d.filter_period;
        t.decay_period = d.decay_period;
        t.reduction_factor = d.reduction_factor;
        t.max_volatility_accumulator = d.max_volatility_accumulator;
        t.variable_fee_control = d.variable_fee_control;
    }
    if quote == Quote::Unsupported || p.activation_type > 1 || p.collect_fee_mode > 1 || p.migration_option > 1 || p.migration_fee_option > 6 || p.token_type > 1 {
        return None;
    }
    fees_ok(p, &c)?;
    if p.creator_trading_fee_percentage > 100 || p.token_update_authority > 4 || !(6..=9).contains(&p.token_decimal) {
        return None;
    }
    let mf = &p.migration_fee;
    if mf.fee_percentage > 99 || mf.creator_fee_percentage > if mf.fee_percentage == 0 { 0 } else { 100 } {
        return None;
    }
    migrated_fee_ok(p)?;
    if p.migration_option == 0 {
        if p.token_type != 0 || quote != Quote::Spl {
            return None;
        }
        for v in [&p.partner_liquidity_vesting_info, &p.creator_liquidity_vesting_info] {
            if *v != LiquidityVestingInfoParams::default() {
                return None;
            }
        }
    } else {
        vesting_ok(&p.partner_liquidity_vesting_info, ts)?;
        vesting_ok(&p.creator_liquidity_vesting_info, ts)?;
    }
    let sum = [
        p.partner_liquidity_percentage,
        p.partner_permanent_locked_liquidity_percentage,
        p.creator_liquidity_percentage,
        p.creator_permanent_locked_liquidity_percentage,
        p.partner_liquidity_vesting_info.vesting_percentage,
        p.creator_liquidity_vesting_info.vesting_percentage,
    ]
    .iter()
    .map(|x| *x as u32)
    .sum::<u32>();
    if sum != 100 || p.migration_quote_threshold == 0 {
        return None;
    }
    let lv = &p.locked_vesting;
    let total_vest = lv.cliff_unlock_amount.checked_add(lv.amount_per_period.checked_mul(lv.number_of_period)?)?;
    if *lv != LockedVestingParams::default() && (lv.frequency == 0 || total_vest == 0) {
        return None;
    }
    if p.pool_creation_fee != 0 && !(1_000_000..=100_000_000_000).contains(&p.pool_creation_fee) {
        return None;
    }
    // curve
    if p.sqrt_start_price < MIN_SQRT || p.sqrt_start_price >= MAX_SQRT || p.curve.is_empty() || p.curve.len() > 16 {
        return None;
    }
    let mut lo = p.sqrt_start_price;
    for x in &p.curve {
        if x.sqrt_price <= lo || x.liquidity == 0 || x.sqrt_price > MAX_SQRT {
            return None;
        }
        lo = x.sqrt_price;
    }
    let price = migration_price(p.sqrt_start_price, p.migration_quote_threshold, &p.curve)?;
    if price >= MAX_SQRT {
        return None;
    }
    let sw = swap_base(p.sqrt_start_price, price, &p.curve).to_u64()?;
    let (base, q) = migration_base(p, price)?;
    if base == 0 || sw == 0 {
        return None;
    }
    if p.migration_option == 1 && p.migrated_pool_fee.collect_fee_mode == 2 {
        let fee = |x: u64| mul_floor(x as u128, 20, 10_000).to_u64().unwrap();
        let (pr, l) = crate::refm::comp_liquidity(base - fee(base), q - fee(q))?;
        if l <= DEAD || b(pr.abs_diff(price)) * 100u8 > b(pr.max(price)) {
            return None;
        }
    }
    if let Some(s) = &p.token_supply {
        let t = |x: u64| x.checked_add(base)?.checked_add(total_vest);
        let (w, wo) = (t(with_buffer(sw, p.sqrt_start_price, &p.curve)?)?, t(sw)?);
        if keys.leftover == Pubkey::default()
            || wo > s.post_migration_token_supply
            || s.post_migration_token_supply > s.pre_migration_token_supply
            || w > s.pre_migration_token_supply
        {
            return None;
        }
        c.fixed_token_supply_flag = 1;
        c.pre_migration_token_supply = s.pre_migration_token_supply;
        c.post_migration_token_supply = s.post_migration_token_supply;
    }
    c.quote_mint = keys.quote_mint;
    c.fee_claimer = keys.partner;
    c.leftover_receiver = keys.leftover;
    c.partner_liquidity_vesting_info = vest_info(&p.partner_liquidity_vesting_info);
    c.creator_liquidity_vesting_info = vest_info(&p.creator_liquidity_vesting_info);
    c.collect_fee_mode = p.collect_fee_mode;
    c.migration_option = p.migration_option;
    c.activation_type = p.activation_type;
    c.token_decimal = p.token_decimal;
    c.token_type = p.token_type;
    c.quote_token_flag = (quote == Quote::T22) as u8;
    c.partner_permanent_locked_liquidity_percentage = p.partner_permanent_locked_liquidity_percentage;
    c.partner_liquidity_percentage = p.partner_liquidity_percentage;
    c.creator_permanent_locked_liquidity_percentage = p.creator_permanent_locked_liquidity_percentage;
    c.creator_liquidity_percentage = p.creator_liquidity_percentage;
    c.migration_fee_option = p.migration_fee_option;
    c.creator_trading_fee_percentage = p.creator_trading_fee_percentage;
    c.token_update_authority = p.token_update_authority;
    c.migration_fee_percentage = mf.fee_percentage;
    c.creator_migration_fee_percentage = mf.creator_fee_percentage;
    c.swap_base_amount = sw;
    c.migration_quote_threshold = p.migration_quote_threshold;
    c.migration_base_threshold = base;
    c.migration_sqrt_price = price;
    let v = &mut c.locked_vesting_config;
    (v.amount_per_period, v.cliff_duration_from_migration_time, v.frequency, v.number_of_period, v.cliff_unlock_amount) =
        (lv.amount_per_period, lv.cliff_duration_from_migration_time, lv.frequency, lv.number_of_period, lv.cliff_unlock_amount);
    c.migrated_collect_fee_mode = p.migrated_pool_fee.collect_fee_mode;
    c.migrated_dynamic_fee = p.migrated_pool_fee.dynamic_fee;
    c.migrated_pool_fee_bps = p.migrated_pool_fee.pool_fee_bps;
    c.migrated_pool_base_fee_mode = p.migrated_pool_base_fee_mode;
    c.enable_first_swap_with_min_fee = p.enable_first_swap_with_min_fee as u8;
    c.migrated_compounding_fee_bps = p.compounding_fee_bps;
    c.pool_creation_fee = p.pool_creation_fee;
    c.migrated_pool_base_fee_bytes = p.migrated_pool_market_cap_fee_scheduler_params.try_to_vec().unwrap().try_into().unwrap();
    c.sqrt_start_price = p.sqrt_start_price;
    for (i, x) in p.curve.iter().enumerate() {
        c.curve[i].sqrt_price = x.sqrt_price;
        c.curve[i].liquidity = x.liquidity;
    }
    if total_locked_bps(&c, 86400)? < 1000 {
        return None;
    }
    Some(c)
}
pub fn config_events(p: &ConfigParameters, c: &PoolConfig, k: &Pool) -> Vec<Vec<u8>> {
    vec![
        EvtCreateConfig {
            config: k.config,
            quote_mint: k.quote_mint,
            fee_claimer: k.partner,
            owner: k.leftover,
            pool_fees: p.pool_fees,
            collect_fee_mode: p.collect_fee_mode,
            migration_option: p.migration_option,
            activation_type: p.activation_type,
            token_decimal: p.token_decimal,
            token_type: p.token_type,
            partner_permanent_locked_liquidity_percentage: p.partner_permanent_locked_liquidity_percentage,
            partner_liquidity_percentage: p.partner_liquidity_percentage,
            creator_permanent_locked_liquidity_percentage: p.creator_permanent_locked_liquidity_percentage,
            creator_liquidity_percentage: p.creator_liquidity_percentage,
            swap_base_amount: c.swap_base_amount,
            migration_quote_threshold: c.migration_quote_threshold,
            migration_base_amount: c.migration_base_threshold,
            sqrt_start_price: p.sqrt_start_price,
            locked_vesting: p.locked_vesting,
            migration_fee_option: p.migration_fee_option,
            fixed_token_supply_flag: c.fixed_token_supply_flag,
            pre_migration_token_supply: c.pre_migration_token_supply,
            post_migration_token_supply: c.post_migration_token_supply,
            curve: p.curve.clone(),
        }
        .data(),
        EvtCreateConfigV2 { config: k.config, quote_mint: k.quote_mint, fee_claimer: k.partner, leftover_receiver: k.leftover, config_parameters: p.clone() }
            .data(),
    ]
}
// ------------------------------------------------------------------ fees handed to a migrated DAMM v2 pool
/// (base fee bytes, dynamic fee, compounding bps)
pub fn migrated_fees(c: &PoolConfig) -> Option<(Vec<u8>, Option<damm_v2::types::DynamicFeeParameters>, u16)> {
    let s = MigratedPoolMarketCapFeeSchedulerParams::try_from_slice(&c.migrated_pool_base_fee_bytes).ok()?;
    let (bps, mode) = (c.migrated_pool_fee_bps, c.migrated_pool_base_fee_mode);
    let cliff = bps as u64 * 100_000;
    let mut d = cliff.to_le_bytes().to_vec();
    if mode < 2 {
        d.extend([0u8; 2 + 8 + 8]);
    } else {
        d.extend(s.number_of_period.to_le_bytes());
        d.extend((s.sqrt_price_step_bps as u32).to_le_bytes());
        d.extend(s.scheduler_expiration_duration.to_le_bytes());
        d.extend(s.reduction_factor.to_le_bytes());
    }
    d.push(mode);
    let dynamic = if c.migrated_dynamic_fee == 1 {
        let top = market_cap_min_fee(bps, mode, &s)? as u128 * 20 / 100;
        (top * 100_000_000_000).checked_sub(99_999_999_999).map(|v| damm_v2::types::DynamicFeeParameters {
            bin_step: 1,
            bin_step_u128: 1844674407370955,
            filter_period: 10,
            decay_period: 120,
            reduction_factor: 5000,
            max_volatility_accumulator: 14_460_000,
            variable_fee_control: (v / 209_091_600_000_000) as u32,
        })
    } else {
        None
    };
    Some((d, dynamic, c.migrated_compounding_fee_bps))
}
