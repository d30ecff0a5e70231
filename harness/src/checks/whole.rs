//! Whole lives of pools: a few canonical histories, from the first trade to the last claim, over a second
//! covering set of configurations with other values than the first one (see worlds::KNOBS), other identities
//! (creator, partner and leftover receiver being one person), other decimals, fees, terms of liquidity and vesting.
use super::common::*;

/// properties that these histories concern
pub const USED: [&str; 24] = [
    "P01", "P02", "P03", "P04", "P05", "P06", "P09", "P11", "P12", "P13", "P14", "P15", "P16", "P19", "P20", "P22", "P23", "P24", "P25", "P26", "P27", "P28", "P29",
    "P31",
];
const K: [(&str, usize); 18] = [
    ("target", 15), ("curve", 10), ("fee", 8), ("id", 5), ("cr", 6), ("mf", 6), ("lp", 7), ("vest", 5), ("dyn", 4), ("sup", 3), ("cf", 4), ("dec", 4), ("q", 3),
    ("b22", 2), ("collect", 2), ("act", 2), ("fsm", 2), ("old", 3),
];
struct Who3 {
    creator: &'static str,
    partner: &'static str,
    leftover: &'static str,
}
fn people(k: usize) -> Who3 {
    let (creator, partner, leftover) =
        [("creator", "partner", "leftover"), ("creator", "creator", "leftover"), ("creator", "partner", "partner"), ("creator", "partner", "creator"), ("creator", "creator", "creator")][k];
    Who3 { creator, partner, leftover }
}
fn params_of(k: &[usize]) -> ConfigParameters {
    let mut p = params();
    let v1 = k[0] < 6;
    p.migration_option = !v1 as u8;
    p.migration_fee_option = if k[0] < 6 { k[0] as u8 } else if k[0] < 12 { k[0] as u8 - 6 } else { 6 };
    if k[0] >= 12 {
        let m = k[0] - 12;
        p.migrated_pool_fee = MigratedPoolFee { collect_fee_mode: m as u8, dynamic_fee: (k[8] % 2) as u8, pool_fee_bps: [10, 999, 250][m] };
        if m == 2 {
            p.compounding_fee_bps = [1, 10_000, 3_333, 7][k[8]];
        }
        if k[2] % 2 == 1 && m != 0 {
            p.migrated_pool_base_fee_mode = 3 + (k[2] / 2 % 2) as u8;
            p.migrated_pool_market_cap_fee_scheduler_params =
                MigratedPoolMarketCapFeeSchedulerParams { number_of_period: 3, sqrt_price_step_bps: 100, scheduler_expiration_duration: 3600, reduction_factor: [700, 11][k[2] / 2 % 2] };
        }
    }
    with_curve(&mut p, &curves()[k[1]]);
    // the dearest curve needs more quote tokens than exist once high fees are added
    match if k[1] == 5 { k[2] % 2 * 7 } else { k[2] } {
        0 => scheduler(&mut p, 0, 2_500_000, 0, 0, 0),
        1 => scheduler(&mut p, 0, 300_000_001, 3, 1, 99_000_000),
        2 => scheduler(&mut p, 1, 990_000_000, 60, 2, 600),
        3 => limiter(&mut p, 7_500_000, 250, 10, 10_007),
        4 => scheduler(&mut p, 0, 990_000_000, 900, 1, 1_000_000),
        5 => limiter(&mut p, 20_000_000, 1, 86_400, 1_001),
        6 => scheduler(&mut p, 1, 70_000_007, 1, 20, 5_000),
        _ => scheduler(&mut p, 0, 33_333_333, 0, 0, 0),
    }
    if p.pool_fees.base_fee.base_fee_mode != 2 {
        p.collect_fee_mode = k[14] as u8;
    }
    p.activation_type = k[15] as u8;
    p.enable_first_swap_with_min_fee = k[16] == 1;
    p.creator_trading_fee_percentage = [1, 50, 99, 33, 67, 7][k[4]];
    let (f, c) = [(1, 1), (1, 99), (99, 1), (33, 67), (50, 100), (7, 0)][k[5]];
    p.migration_fee = MigrationFee { fee_percentage: f, creator_fee_percentage: c };
    let vest = |pct, bps, n, cliff, freq| LiquidityVestingInfoParams { vesting_percentage: pct, bps_per_period: bps, number_of_periods: n, cliff_duration_from_migration_time: cliff, frequency: freq };
    let none = LiquidityVestingInfoParams::default();
    // partner free and permanent, creator free and permanent, vesting of either
    let (a, b, c, d, pv, cv) = [
        (50, 50, 0, 0, none, none),
        (0, 50, 50, 0, none, none),
        (1, 98, 1, 0, none, none),
        (45, 5, 45, 5, none, none),
        // all of it vesting in one step, or step by step without one
        (0, 0, 0, 0, vest(100, 0, 0, 86_400, 0), none),
        (30, 0, 0, 0, vest(1, 100, 100, 0, 864), vest(69, 1, 3, 86_401, 1)),
        (0, 10, 0, 0, none, vest(90, 2_500, 4, 7 * 86_400, 86_400)),
    ][k[6]];
    if v1 && k[6] > 3 {
        (p.partner_liquidity_percentage, p.partner_permanent_locked_liquidity_percentage, p.creator_liquidity_percentage, p.creator_permanent_locked_liquidity_percentage) =
            [(0, 33, 33, 34), (9, 0, 1, 90), (0, 100, 0, 0)][k[6] - 4];
    } else {
        (p.partner_liquidity_percentage, p.partner_permanent_locked_liquidity_percentage, p.creator_liquidity_percentage, p.creator_permanent_locked_liquidity_percentage) = (a, b, c, d);
        p.partner_liquidity_vesting_info = pv;
        p.creator_liquidity_vesting_info = cv;
    }
    let lv = |a, cl, f, n, u| LockedVestingParams { amount_per_period: a, cliff_duration_from_migration_time: cl, frequency: f, number_of_period: n, cliff_unlock_amount: u };
    p.locked_vesting = [LockedVestingParams::default(), lv(0, 0, 1, 0, 1_000_003), lv(1, 0, 1, 1, 0), lv(3, 1_000_000, 86_400, 1_000, 10_000), lv(777, 1, 3_600, 24, 0)][k[7]];
    p.pool_fees.dynamic_fee = [
        None,
        Some(dyn_fee()),
        Some(DynamicFeeParameters { variable_fee_control: 90_000, ..dyn_fee() }),
        Some(DynamicFeeParameters { filter_period: 1, decay_period: 2, reduction_factor: 9_999, max_volatility_accumulator: 300_000, ..dyn_fee() }),
    ][k[8]];
    p.pool_creation_fee = [0, 1_000_000, 100_000_000_000, 33_333_333][k[10]];
    p.token_decimal = [6, 7, 8, 9][k[11]];
    p.token_type = (k[13] == 1 && !v1) as u8;
    p.token_update_authority = (k[1] % 5) as u8;
    super::life::set_supply(&mut p, k[9], false);
    p
}
/// the canonical histories; refusals are predicted and compared as well
fn story(kind: usize, w: &W, n: &Who3) -> Result<Vec<Act>, String> {
    let all = u64::MAX;
    let t = w.w.c().migration_quote_threshold;
    let fees = |a: u64| {
        vec![
            Act::ClaimPartner { who: n.partner, a, b: a },
            Act::ClaimCreator { who: n.creator, a, b: a },
            Act::ClaimProtocol { op: "operator", who: "operator", a, b: a },
            Act::PartnerCreationFee { who: n.partner, to: "stranger" },
            Act::ProtCreationFee { op: "operator", who: "operator" },
        ]
    };
    let ends = |owner: &'static str| {
        vec![Act::MigFee { who: n.partner, flag: 0 }, Act::PartnerSurplus { who: n.partner }, Act::MigFee { who: owner, flag: 1 }, Act::CreatorSurplus { who: owner }, Act::Leftover]
    };
    let zaps = [Act::Zap { op: "operator", who: "operator", base: false, max: all }, Act::Zap { op: "operator", who: "operator", base: true, max: all }];
    let lp = |owner: &'static str| {
        vec![
            Act::V1Lock { owner: n.partner },
            Act::V1Claim { owner, sender: "stranger" },
            Act::V1Lock { owner },
            Act::V1Claim { owner: n.partner, sender: n.partner },
            Act::V1Claim { owner, sender: owner },
            Act::V1Lock { owner: n.partner },
        ]
    };
    let big = if t > BIG / 2 { 1 << 62 } else { BIG };
    let migrate = [Act::V1Meta, Act::MigrateV1, Act::MigrateV2 { second: true }];
    let sw = |buy, mode, a0| Act::Swap { who: "trader", buy, mode, a0, a1: if mode == 2 { all } else { 0 }, referral: Some("referrer"), legacy: false };
    let mut v = vec![];
    if kind == 0 {
        // everything claimed along the way
        v.extend(mid_acts(w)?);
        v.extend(fees(t / 1_000 + 1));
        v.push(Act::Advance { secs: 7, slots: 17 });
        v.extend([sw(true, 2, 1_000), sw(false, 2, 100), sw(true, 0, t / 9 + 1), Act::sell(1_001)]);
        v.extend(fees(all));
        v.extend([sw(true, 0, t / 7 + 3), Act::Zap { op: "operator", who: "operator", base: false, max: 5 }]);
        v.extend(zaps);
        v.push(Act::Advance { secs: 90_000, slots: 250_000 });
        v.extend([Act::buy(t / 11 + 1), sw(false, 1, 2_002), sw(true, 1, big)]);
        v.extend(fees(all));
        v.extend(ends(n.creator));
        v.push(Act::Locker { creator: n.creator });
        v.extend(migrate);
        v.extend(ends(n.creator));
        v.extend(lp(n.creator));
    } else if kind == 3 {
        // gifts to both vaults all along, and every step tried too early and again
        let c = n.creator;
        let early = |k: usize| {
            let mut e = vec![Act::Donate { base: k % 2 == 0, amount: 997 + 10 * k as u64 }];
            e.extend(migrate);
            e.extend([Act::Leftover, Act::Locker { creator: if k % 2 == 0 { c } else { "stranger" } }]);
            e.extend([Act::V1Lock { owner: c }, Act::V1Claim { owner: n.partner, sender: "stranger" }]);
            e.extend(if k % 2 == 0 { [Act::PartnerSurplus { who: n.partner }, Act::MigFee { who: c, flag: 1 }] } else { [Act::CreatorSurplus { who: c }, Act::MigFee { who: n.partner, flag: 0 }] });
            e.push(Act::Donate { base: k % 2 == 1, amount: 1_003 + k as u64 });
            e
        };
        v.extend(early(0));
        v.extend(mid_acts(w)?);
        v.extend(early(1));
        v.extend([sw(true, 1, t / 2), sw(false, 1, 3_003), Act::Zap { op: "operator", who: "operator", base: true, max: 9 }]);
        v.push(Act::Advance { secs: 3, slots: 5 });
        v.extend([sw(true, 2, 2_000), sw(true, 1, big), sw(true, 1, 10), Act::sell(5)]);
        v.extend(early(2));
        v.push(Act::Advance { secs: 60, slots: 1 });
        v.extend(early(3));
        v.extend([Act::sell(5), sw(true, 1, 10)]);
        v.extend(early(4));
        v.extend(early(5));
        v.extend(lp(c));
        v.extend(fees(all));
        v.extend(zaps);
        v.extend(ends(c));
    } else {
        // one purchase completes the curve, the creator hands over, everything is claimed at the very end
        if kind == 2 {
            v.push(Act::Transfer { who: n.creator, new: "newcreator", meta: true });
        }
        v.push(sw(true, 1, big));
        let owner = if kind == 1 { n.creator } else { "newcreator" };
        v.push(Act::Locker { creator: owner });
        v.extend(&migrate[..1]);
        v.push(Act::Transfer { who: owner, new: "trader2", meta: true });
        v.extend(&migrate[1..]);
        v.extend(&migrate[1..]);
        v.extend(lp(owner));
        v.push(Act::Transfer { who: owner, new: "payer", meta: true });
        v.extend(ends(owner));
        v.extend(ends("trader2"));
        v.extend(ends("payer"));
        if kind == 2 {
            v.extend(zaps);
            v.extend(fees(1));
        }
        v.extend(fees(all));
        v.extend(fees(all));
        v.extend(zaps);
        v.push(Act::ClaimCreator { who: "payer", a: all, b: all });
        v.push(Act::ClaimCreator { who: "trader2", a: all, b: all });
    }
    Ok(v)
}
fn step(p: &Pool, b: &Bank, a: &Act, t: &mut Tally) -> Result<Bank, String> {
    let r = run_tx(b, std::slice::from_ref(p), &ix1(*a))?;
    t.transitions += 1;
    t.states += 1;
    t.hit(format!("{} {}", act_kind(a), if r.ok { "accepted" } else { "refused" }));
    Ok(r.bank)
}
fn live(w: &W, n: &Who3, kind: usize, t: &mut Tally) -> Result<(), String> {
    let p = &w.w.p;
    let mut b = w.w.bank.clone();
    for (i, a) in story(kind, w, n)?.into_iter().enumerate() {
        b = step(p, &b, &a, t).map_err(|m| format!("step {i}, {a:?}: {m}"))?;
    }
    let s = p.state(&b);
    ensure(s.migration_progress == 3, || format!("the pool ended in stage {} of its life", s.migration_progress))
}
/// the same history with one further operation at any point of it; the history goes on if `on`
fn deviate(w: &W, n: &Who3, kind: usize, on: bool, t: &mut Tally) -> Result<(), String> {
    let p = &w.w.p;
    let acts = story(kind, w, n)?;
    let c = w.w.c();
    let q = c.migration_quote_threshold;
    let mut more: Vec<Act> = super::claims::op_list();
    more.extend([Act::buy(q / 13 + 1), Act::swap(true, 1, q / 2 + 1), Act::swap(false, 1, q / 7), Act::swap(false, 2, q / 40 + 1), Act::swap(true, 2, 1_000)]);
    for x in ["creator", "partner", "newcreator", "trader2"] {
        more.extend([Act::ClaimCreator { who: x, a: 1, b: 1 }, Act::ClaimPartner { who: x, a: 1, b: 1 }, Act::CreatorSurplus { who: x }, Act::PartnerSurplus { who: x }]);
        more.extend([Act::MigFee { who: x, flag: 0 }, Act::MigFee { who: x, flag: 1 }, Act::Transfer { who: x, new: "stranger", meta: true }, Act::Locker { creator: x }]);
    }
    more.extend([Act::Donate { base: true, amount: 999 }, Act::Donate { base: false, amount: 777 }]);
    let mut b = w.w.bank.clone();
    for (i, a) in acts.iter().enumerate() {
        for x in &more {
            let mut d = step(p, &b, x, t).map_err(|m| format!("{x:?} before step {i}: {m}"))?;
            if on && d.digest() != b.digest() {
                for (j, y) in acts.iter().enumerate().skip(i) {
                    d = step(p, &d, y, t).map_err(|m| format!("{x:?} before step {i}, then step {j}, {y:?}: {m}"))?;
                }
            }
        }
        b = step(p, &b, a, t).map_err(|m| format!("step {i}, {a:?}: {m}"))?;
    }
    Ok(())
}
/// None: the reference model refuses the configuration, and so did the program
fn row(k: &[usize], t: &mut Tally) -> Result<Option<(W, Who3)>, String> {
    let p = params_of(k);
    let v1 = k[0] < 6;
    let (quote, q22) = match k[12] {
        1 if !v1 => (key("quote"), true),
        2 => (spl_native(), false),
        _ => (key("quote"), false),
    };
    let n = people(k[3]);
    let named = |x: &mut Pool| {
        x.creator = key(n.creator);
        x.partner = key(n.partner);
        x.leftover = key(n.leftover);
    };
    let mut keys = Pool::named("A", quote, qp(q22), p.token_type == 1);
    named(&mut keys);
    let q = if q22 { crate::refcfg::Quote::T22 } else { crate::refcfg::Quote::Spl };
    let model = crate::refcfg::config(&p, q, &keys, 1_700_000_000);
    match (&model, build_world_p("row", &p, quote, q22, named)) {
        (None, Err(_)) => {
            t.hit("configuration refused");
            Ok(None)
        }
        (None, Ok(_)) => Err("an unsound configuration was accepted".into()),
        (Some(c), Err(_)) if crate::refcfg::initial_supply(c).is_none() => {
            t.hit("supply does not fit");
            Ok(None)
        }
        (Some(_), w) => {
            let mut w = w?;
            // pools made by earlier versions of the program pay no fee on migrated liquidity
            let pool = w.w.p.pool;
            let mut s = w.w.s();
            s.protocol_liquidity_migration_fee_bps = [s.protocol_liquidity_migration_fee_bps, 0, 333][k[17]];
            w.w.bank.set_zc(&pool, &s);
            Ok(Some((w, n)))
        }
    }
}
pub fn lives(cx: &Cx) {
    let zoo: Vec<_> = zoo(3).into_iter().flat_map(|z| (0..4).map(move |k| (z.clone(), k))).collect();
    cx.cases("whole lives", &zoo, |((name, p, q), kind), t| live(&build_world(name, p, *q)?, &people(0), *kind, t));
    let rows = |n| -> Vec<_> { cover(&K, n).into_iter().flat_map(|k| (0..4).map(move |s| (k.clone(), s))).collect() };
    cx.cases("whole lives, other values", &rows(3), |(k, kind), t| match row(k, t)? {
        Some((w, n)) => live(&w, &n, *kind, t),
        None => Ok(()),
    });
    if cx.full || ["P11", "P15", "P16", "P19"].contains(&cx.id) {
        cx.cases("whole lives with one more operation", &rows(2), |(k, kind), t| match row(k, t)? {
            Some((w, n)) => deviate(&w, &n, *kind, cx.full, t),
            None => Ok(()),
        });
    }
}
fn spl_native() -> Pubkey {
    anchor_spl::token::spl_token::native_mint::ID
}
