//! Configurations and pools that the explorations start from.
use crate::env::*;
use crate::refm::*;
use ::dynamic_bonding_curve as dbc;
use anchor_spl::token::spl_token;
use anchor_lang::prelude::*;
use dbc::params::fee_parameters::*;
use dbc::*;

#[derive(Clone)]
pub struct W {
    pub name: String,
    pub w: World,
    pub qprog: Pubkey,
}
pub fn qp(t22: bool) -> Pubkey {
    if t22 {
        T22
    } else {
        SPL
    }
}
/// world plus everything later stages need: external programs' configs, operators
pub fn build_world(name: &str, p: &ConfigParameters, q22: bool) -> std::result::Result<W, String> {
    // third value of the knob: quoted in wrapped lamports
    let quote = if name.contains("-q222-") { spl_token::native_mint::ID } else { key("quote") };
    build_world_p(name, p, quote, q22, |_| {})
}
/// with other identities for the pool's creator, partner or leftover receiver
pub fn build_world_p(name: &str, p: &ConfigParameters, quote: Pubkey, q22: bool, f: impl Fn(&mut Pool)) -> std::result::Result<W, String> {
    let mut w = world_p(p, quote, qp(q22), f).map_err(|(s, o)| format!("{name}: {s} was refused: {:?} {:?}", o.err, o.logs))?;
    put_external(&mut w.bank, &w.p.clone());
    put_operator(&mut w.bank, &key("operator"), 3);
    if p.migration_quote_threshold > 1 << 49 {
        set_tokens(&mut w.bank, &w.p.quote_ata(&key("trader")), 1 << 62);
    }
    Ok(W { name: name.into(), w, qprog: qp(q22) })
}
pub fn build_world_m(name: &str, p: &ConfigParameters, quote_mint: Pubkey) -> std::result::Result<W, String> {
    let mut w = world_m(p, quote_mint, SPL).map_err(|(s, o)| format!("{name}: {s} was refused: {:?} {:?}", o.err, o.logs))?;
    put_external(&mut w.bank, &w.p.clone());
    put_operator(&mut w.bank, &key("operator"), 3);
    Ok(W { name: name.into(), w, qprog: SPL })
}
pub fn vesting_on(p: &mut ConfigParameters) {
    p.locked_vesting = LockedVestingParams {
        amount_per_period: 1_003,
        cliff_duration_from_migration_time: 50,
        frequency: 7,
        number_of_period: 11,
        cliff_unlock_amount: 17,
    };
}
pub fn scheduler(p: &mut ConfigParameters, mode: u8, cliff: u64, periods: u16, freq: u64, reduction: u64) {
    p.pool_fees.base_fee = BaseFeeParameters {
        cliff_fee_numerator: cliff,
        first_factor: periods,
        second_factor: freq,
        third_factor: reduction,
        base_fee_mode: mode,
    };
}
pub fn limiter(p: &mut ConfigParameters, cliff: u64, increment_bps: u16, max_duration: u64, reference: u64) {
    p.pool_fees.base_fee = BaseFeeParameters {
        cliff_fee_numerator: cliff,
        first_factor: increment_bps,
        second_factor: max_duration,
        third_factor: reference,
        base_fee_mode: 2,
    };
    p.collect_fee_mode = 0;
}
/// fixed supply large enough for the configuration; `extra` is what may be left over
pub fn fixed_supply(p: &mut ConfigParameters, post: u64, burnable: u64) {
    p.token_supply = Some(TokenSupplyParams { pre_migration_token_supply: post + burnable, post_migration_token_supply: post });
}

// ------------------------------------------------------------------ a covering set of configurations
pub const KNOBS: [(&str, usize); 16] = [
    ("fee", 6), ("collect", 2), ("act", 2), ("dyn", 2), ("mig", 5), ("b22", 2), ("q22", 3), ("sup", 3),
    ("vest", 2), ("cr", 3), ("lp", 5), ("mf", 3), ("cf", 2), ("curve", 4), ("auth", 5), ("fsm", 2),
];
pub fn knob_name(k: &[usize]) -> String {
    k.iter().zip(KNOBS).map(|(v, (n, _))| format!("{n}{v}")).collect::<Vec<_>>().join("-")
}
/// the first configuration containing each combination of `strength` knob values (greedy, deterministic)
pub fn covering(strength: usize) -> Vec<Vec<usize>> {
    cover(&KNOBS, strength)
}
pub fn cover(knobs: &[(&str, usize)], strength: usize) -> Vec<Vec<usize>> {
    let n = knobs.len();
    let mut combos: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..strength {
        combos = combos.iter().flat_map(|c| (c.last().map_or(0, |l| l + 1)..n).map(move |i| [c.clone(), vec![i]].concat())).collect();
    }
    let mut todo: std::collections::BTreeSet<(usize, usize)> = Default::default();
    let size = |c: &[usize]| c.iter().map(|i| knobs[*i].1).product::<usize>();
    for (ci, c) in combos.iter().enumerate() {
        for v in 0..size(c) {
            todo.insert((ci, v));
        }
    }
    let code = |c: &[usize], row: &[usize]| c.iter().fold(0, |a, i| a * knobs[*i].1 + row[*i]);
    let mut rows = vec![];
    let mut seed = 12345u64;
    let mut rnd = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed
    };
    while !todo.is_empty() {
        let mut best: Option<(usize, Vec<usize>)> = None;
        let (ci0, v0) = *todo.iter().next().unwrap();
        for _ in 0..(if strength > 2 { 12 } else { 60 }) {
            let mut row: Vec<usize> = (0..n).map(|i| (rnd() as usize) % knobs[i].1).collect();
            let mut v = v0;
            for i in combos[ci0].iter().rev() {
                row[*i] = v % knobs[*i].1;
                v /= knobs[*i].1;
            }
            let gain = combos.iter().enumerate().filter(|(ci, c)| todo.contains(&(*ci, code(c, &row)))).count();
            if best.as_ref().map_or(true, |b| gain > b.0) {
                best = Some((gain, row));
            }
        }
        let row = best.unwrap().1;
        for (ci, c) in combos.iter().enumerate() {
            todo.remove(&(ci, code(c, &row)));
        }
        rows.push(row);
    }
    rows
}
pub fn curve(kind: usize) -> (u128, u64, Vec<dbc::params::liquidity_distribution::LiquidityDistributionParameters>) {
    match kind {
        0 => (P1 / 2, 1_000_003, vec![pt(P1 * 3 / 4, 2_000_000 << 64), pt(P1 * 2, 3_000_000 << 64)]),
        1 => (P1, 50_021, vec![pt(P1 * 4, 100_003 << 64)]),
        2 => {
            // sixteen segments whose liquidity goes up and down
            let v = (1..=16u128).map(|i| pt(P1 / 4 + P1 / 64 * i * 3, (1_000_000 + 700_001 * ((i * 7) % 5)) << 64)).collect();
            (P1 / 4, 1_200_007, v)
        }
        // tiny prices, large base amounts
        _ => (P1 >> 10, 3_001, vec![pt(P1 >> 9, 1_000_007 << 64), pt(P1 >> 8, 3_000_017 << 64), pt(P1 >> 2, 10 << 64)]),
    }
}
/// parameters for one row of knobs; settings that exclude each other are resolved in favour of the migration target
pub fn from_knobs(k: &[usize]) -> (ConfigParameters, bool) {
    let mut p = params();
    let v1 = k[4] == 0;
    (p.sqrt_start_price, p.migration_quote_threshold, p.curve) = curve(k[13]);
    p.collect_fee_mode = k[1] as u8;
    p.activation_type = k[2] as u8;
    match k[0] {
        0 => {}
        1 => scheduler(&mut p, 0, 500_000_000, 12, 10, 40_000_000),
        2 => scheduler(&mut p, 1, 400_000_000, 20, 5, 1_000),
        3 => limiter(&mut p, 10_000_000, 100, 60, 50_000),
        4 => scheduler(&mut p, 0, 990_000_000, 0, 0, 0),
        _ => scheduler(&mut p, 0, 2_500_000, 0, 0, 0),
    }
    if k[3] == 1 {
        p.pool_fees.dynamic_fee = Some(dyn_fee());
    }
    p.migration_option = !v1 as u8;
    p.migration_fee_option = match k[4] {
        0 => 3,
        1 => 0,
        _ => 6,
    };
    if k[4] >= 2 {
        p.migrated_pool_fee = MigratedPoolFee { collect_fee_mode: (k[4] - 2) as u8, dynamic_fee: k[3] as u8, pool_fee_bps: [100, 1000, 25][k[4] - 2] };
        if k[4] == 4 {
            p.compounding_fee_bps = 5000;
        }
        if k[4] == 3 {
            p.migrated_pool_base_fee_mode = 3;
            p.migrated_pool_market_cap_fee_scheduler_params = MigratedPoolMarketCapFeeSchedulerParams {
                number_of_period: 10,
                sqrt_price_step_bps: 20,
                scheduler_expiration_duration: 86400,
                reduction_factor: 5_000_000,
            };
        }
    }
    p.token_type = (k[5] == 1 && !v1) as u8;
    let q22 = k[6] == 1 && !v1;
    if k[8] == 1 {
        vesting_on(&mut p);
    }
    p.creator_trading_fee_percentage = [0, 40, 100][k[9]];
    let lp = |p: &mut ConfigParameters, a: u8, b: u8, c: u8, d: u8| {
        p.partner_liquidity_percentage = a;
        p.partner_permanent_locked_liquidity_percentage = b;
        p.creator_liquidity_percentage = c;
        p.creator_permanent_locked_liquidity_percentage = d;
    };
    match k[10] {
        0 => {}
        1 => lp(&mut p, 0, 100, 0, 0),
        2 => lp(&mut p, 0, 0, 0, 100),
        3 => {
            if v1 {
                lp(&mut p, 33, 17, 41, 9);
            } else {
                lp(&mut p, 10, 7, 11, 12);
                p.partner_liquidity_vesting_info = LiquidityVestingInfoParams {
                    vesting_percentage: 25,
                    bps_per_period: 700,
                    number_of_periods: 13,
                    cliff_duration_from_migration_time: 100_000,
                    frequency: 3600,
                };
                p.creator_liquidity_vesting_info = LiquidityVestingInfoParams {
                    vesting_percentage: 35,
                    bps_per_period: 0,
                    number_of_periods: 0,
                    cliff_duration_from_migration_time: 200_000,
                    frequency: 0,
                };
            }
        }
        _ => lp(&mut p, 90, 0, 0, 10),
    }
    p.migration_fee = MigrationFee { fee_percentage: [0, 50, 99][k[11]], creator_fee_percentage: [0, 30, 100][k[11]] };
    p.pool_creation_fee = [0, 1_000_000_007][k[12]];
    p.token_update_authority = k[14] as u8;
    p.enable_first_swap_with_min_fee = k[15] == 1;
    if k[7] > 0 {
        // sizes come from the same configuration with a dynamic supply
        let keys = Pool::named("A", key("quote"), qp(q22), p.token_type == 1);
        if let Some(c) = crate::refcfg::config(&p, if q22 { crate::refcfg::Quote::T22 } else { crate::refcfg::Quote::Spl }, &keys, 1_700_000_000) {
            let need = crate::refcfg::initial_supply(&c).unwrap();
            let least = c.swap_base_amount + c.migration_base_threshold + vest_total(&c).unwrap();
            if k[7] == 1 {
                fixed_supply(&mut p, least, need - least);
            } else {
                fixed_supply(&mut p, need + 1_001, 5_003);
            }
        }
    }
    (p, q22)
}
pub fn zoo(strength: usize) -> Vec<(String, ConfigParameters, bool)> {
    let mut v: Vec<(String, ConfigParameters, bool)> = vec![];
    for k in covering(strength) {
        let (p, q) = from_knobs(&k);
        v.push((knob_name(&k), p, q));
    }
    v
}
