//! P15, P19, P22-P27, P32: the life of a pool, migration and what follows it
use super::claims::op_list;
use super::common::*;
use std::collections::BTreeMap;

pub fn swaps(t: u64) -> Vec<Act> {
    vec![Act::buy(t / 3), Act::swap(true, 1, BIG), Act::swap(true, 2, t / 50), Act::swap(false, 0, t / 40), Act::swap(false, 1, u64::MAX / 4)]
}
/// representative worlds: every migration target with and without vesting, token kinds, supply kinds
pub fn life_worlds(cx: &Cx) -> Vec<W> {
    let mut v = vec![];
    for vest in [false, true] {
        for (n, opt, fee_opt, mode, t22) in [("v1", 0u8, 3u8, 0u8, false), ("v2", 1, 0, 0, false), ("v2t22", 1, 2, 0, true), ("v2custom", 1, 6, 1, false), ("v2comp", 1, 6, 2, true)] {
            for sup in 0..3 {
                let mut p = params();
                p.migration_option = opt;
                p.migration_fee_option = fee_opt;
                p.token_type = t22 as u8;
                p.creator_trading_fee_percentage = 40;
                p.migration_fee = MigrationFee { fee_percentage: 7, creator_fee_percentage: 30 };
                if fee_opt == 6 {
                    p.migrated_pool_fee = MigratedPoolFee { collect_fee_mode: mode, dynamic_fee: 0, pool_fee_bps: 100 };
                    if mode == 2 {
                        p.compounding_fee_bps = 5000;
                    }
                }
                if vest {
                    vesting_on(&mut p);
                }
                set_supply(&mut p, sup, t22);
                v.push((format!("{n}{}-supply{sup}", if vest { "-vest" } else { "" }), p, false));
            }
        }
    }
    build_all(cx, v)
}
/// 0 dynamic, 1 fixed with nothing to spare, 2 fixed with leftover
pub fn set_supply(p: &mut ConfigParameters, kind: usize, _t22: bool) {
    p.token_supply = None;
    if kind == 0 {
        return;
    }
    let keys = Pool::named("A", key("quote"), SPL, p.token_type == 1);
    if let Some(c) = crate::refcfg::config(p, crate::refcfg::Quote::Spl, &keys, 1_700_000_000) {
        // without a supply that fits there is nothing to fix
        let Some(need) = crate::refcfg::initial_supply(&c) else { return };
        let least = c.swap_base_amount + c.migration_base_threshold + vest_total(&c).unwrap();
        if kind == 1 {
            fixed_supply(p, least, need - least);
        } else {
            fixed_supply(p, need + 1_001, 5_003);
        }
    }
}

/// P15: order of the life stages
pub fn p15(cx: &Cx) {
    let mut scns = vec![];
    for w in life_worlds(cx) {
        let t = w.w.c().migration_quote_threshold;
        scns.push(scn(w.name.clone(), &w.w.bank, &w.w.p, cx.pick(5, 6), move |_| life_alphabet(t)).inv(vec![0, 0, 0, 0], order));
    }
    // schedules with only one of their two parts
    let mut v = vec![];
    for (n, per, count, cliff) in [("cliff only", 0u64, 0u64, 9_000u64), ("cliff and idle periods", 0, 7, 9_000), ("periods only", 1_003, 11, 0), ("amount without periods", 1_003, 0, 5), ("one unit", 0, 0, 1)] {
        for (m, opt, fee_opt) in [("v1", 0u8, 3u8), ("v2", 1, 0)] {
            let mut p = params();
            p.migration_option = opt;
            p.migration_fee_option = fee_opt;
            p.locked_vesting = LockedVestingParams { amount_per_period: per, cliff_duration_from_migration_time: 50, frequency: 7, number_of_period: count, cliff_unlock_amount: cliff };
            v.push((format!("{m}-{n}"), p, false));
        }
    }
    for w in build_all(cx, v) {
        let t = w.w.c().migration_quote_threshold;
        scns.push(scn(w.name.clone(), &w.w.bank, &w.w.p, 4, move |_| life_alphabet(t)).inv(vec![0, 0, 0, 0], order));
    }
    for w in zoo_worlds(cx) {
        let t = w.w.c().migration_quote_threshold;
        for (n, b) in stages(cx, &w) {
            // ghost as the history so far would have left it
            let s = w.w.p.state(&b);
            let g = vec![s.migration_progress as i128, s.finish_curve_timestamp as i128, 0, 0];
            scns.push(scn(n, &b, &w.w.p, cx.pick(2, 3), move |_| life_alphabet(t)).inv(g, order));
        }
    }
    cx.bfs(scns);
    // a pool whose vaults could pay for every step a second time, and other places to migrate to
    let mut cases = vec![];
    for w in zoo_worlds(cx).into_iter().chain(life_worlds(cx)) {
        for (n, b) in stages(cx, &w) {
            cases.push((n, w.w.p.clone(), b));
        }
    }
    let idx: Vec<usize> = (0..cases.len()).collect();
    cx.cases("once more", &idx, |i, t| {
        let (n, p, b) = &cases[*i];
        let mut b = b.clone();
        for (v, mint) in [(p.base_vault, p.base_mint), (p.quote_vault, p.quote_mint)] {
            let have = b.tokens(&v);
            let more = (have + 1) * 2 + (1 << 50);
            set_tokens(&mut b, &v, have + more);
            b = bits(&b, &mint, |d| {
                let n = u64::from_le_bytes(d[36..44].try_into().unwrap()).saturating_add(more);
                d[36..44].copy_from_slice(&n.to_le_bytes());
            });
        }
        let (c, s) = (p.cfg(&b), p.state(&b));
        for k in ["alt", "alt2"] {
            let k = key(k);
            for opt in [0u8, 1] {
                let mut x = b.clone();
                let i = if opt == 1 {
                    put_v2_config(&mut x, k, c.migration_fee_option, |_| {});
                    let mut m = p.v2_names(&k);
                    for j in 0..2 {
                        m.nft[j] = key(&format!("another nft {j}"));
                        m.nft_acc[j] = mocks::v2_nft_account_key(&m.nft[j]).0;
                        m.position[j] = mocks::v2_position_key(&m.nft[j]).0;
                    }
                    p.ix_migrate_v2(&m, true)
                } else {
                    if c.migration_fee_option < 6 {
                        put_v1_config(&mut x, k, c.migration_fee_option, |_| {});
                    }
                    p.ix_migrate_v1(&p.v1_names(&k))
                };
                let o = x.exec1(i);
                t.transitions += 1;
                t.hit(format!("migration to another place {}", if o.ok() { "ok" } else { "refused" }));
                ensure(!o.ok() || s.migration_progress == 2 && c.migration_option == opt, || format!("{n}: migration accepted at stage {}", s.migration_progress))?;
                // where the step is due it is possible
                let due = s.migration_progress == 2 && c.migration_option == opt && (opt == 1 || x.get(&p.v1_meta()).is_some());
                ensure(!due || o.ok(), || format!("{n}: migration refused: {:?}", o.err))?;
            }
        }
        Ok(())
    });
}
fn life_alphabet(t: u64) -> Vec<Tx> {
    let mut v = swaps(t);
    // cheap operations that must not matter come last
    v.extend([
        Act::Locker { creator: "creator" },
        Act::MigrateV2 { second: true },
        Act::MigrateV2 { second: false },
        Act::V1Meta,
        Act::MigrateV1,
        Act::V1Lock { owner: "partner" },
        Act::V1Claim { owner: "creator", sender: "stranger" },
        Act::Advance { secs: 13, slots: 31 },
        Act::Donate { base: false, amount: BIG },
        Act::PartnerSurplus { who: "partner" },
        Act::CreatorSurplus { who: "creator" },
        Act::MigFee { who: "partner", flag: 0 },
        Act::MigFee { who: "creator", flag: 1 },
        Act::Leftover,
        Act::Transfer { who: "creator", new: "newcreator", meta: true },
        Act::Locker { creator: "newcreator" },
        Act::ClaimPartner { who: "partner", a: u64::MAX, b: u64::MAX },
        Act::ClaimProtocol { op: "operator", who: "operator", a: u64::MAX, b: u64::MAX },
    ]);
    v.into_iter().map(ix1).collect()
}
/// ghost: stage, completion time, price, quote reserve at completion
fn order(v: &View, g: &mut Vec<i128>) -> Result<(), String> {
    let p = v.p();
    let b = v.after();
    let (c, s, o) = (p.cfg(b), p.state(b), p.state(v.before));
    let full = |s: &VirtualPool| s.quote_reserve >= c.migration_quote_threshold;
    if !v.ran.ok {
        return ensure(b.digest() == v.before.digest(), || "a refused operation left a trace".into());
    }
    let act = v.act().ok_or("one action")?;
    let (was, is) = (g[0], s.migration_progress as i128);
    let done = if has_vest(&c) { 1 } else { 2 };
    let want = match act {
        Act::Swap { .. } => {
            ensure(!full(&o), || "a trade was accepted after completion".into())?;
            if full(&s) {
                ensure(s.finish_curve_timestamp as i64 == v.before.now.ts, || format!("completion time {} recorded at {}", s.finish_curve_timestamp, v.before.now.ts))?;
                g[1] = s.finish_curve_timestamp as i128;
                done
            } else {
                was
            }
        }
        Act::Locker { .. } => {
            ensure(was == 1, || format!("tokens were locked in stage {was}"))?;
            2
        }
        Act::MigrateV1 | Act::MigrateV2 { .. } => {
            ensure(was == 2 && c.migration_option == matches!(act, Act::MigrateV2 { .. }) as u8, || format!("migrated from stage {was}"))?;
            3
        }
        _ => was,
    };
    ensure(is == want, || format!("stage {is} after {act:?} in stage {was}"))?;
    g[0] = is;
    ensure(full(&s) == (is > 0), || format!("stage {is} with a quote reserve of {}", s.quote_reserve))?;
    ensure((s.is_migrated != 0) == (is == 3), || format!("migrated flag {} in stage {is}", s.is_migrated))?;
    ensure(s.finish_curve_timestamp as i128 == g[1], || format!("completion time {} was {}", s.finish_curve_timestamp, g[1]))?;
    if full(&o) {
        ensure((s.sqrt_price, s.quote_reserve, s.base_reserve) == (o.sqrt_price, o.quote_reserve, o.base_reserve), || "price or reserves changed after completion".into())?;
    }
    Ok(())
}

/// P19: nothing gets stuck
pub fn p19(cx: &Cx) {
    let mut scns = vec![];
    let mut kinds = vec![];
    for k in curves() {
        for (n, fee) in [("flat", 0), ("dynamic", 1), ("limiter", 2)] {
            let mut p = params();
            with_curve(&mut p, &k);
            kinds.push((format!("{}-{n}", k.0), p, fee));
        }
    }
    // curves in powers of two that end at the migration price: the supply is needed to the last unit
    for (n, points) in [("one", vec![pt(1 << 65, 1 << 90)]), ("two", vec![pt(3 << 63, 1 << 90), pt(1 << 65, 1 << 90)])] {
        for opt in [0u8, 1] {
            for sup in 0..2 {
                for vest in [false, true] {
                    for collect in [0u8, 1] {
                        let mut p = target(opt, if opt == 0 { 2 } else { 6 }, 2 * opt);
                        p.migration_fee = Default::default();
                        (p.sqrt_start_price, p.curve, p.migration_quote_threshold) = (1 << 64, points.clone(), 1 << 26);
                        p.collect_fee_mode = collect;
                        if vest {
                            vesting_on(&mut p);
                        }
                        set_supply(&mut p, sup, false);
                        kinds.push((format!("exact-{n}-mig{opt}-supply{sup}-vest{}-collect{collect}", vest as u8), p, 0));
                    }
                }
            }
        }
    }
    {
        for (n, mut p, fee) in kinds {
            match fee {
                1 => p.pool_fees.dynamic_fee = Some(dyn_fee()),
                2 => {
                    let t = p.migration_quote_threshold;
                    limiter(&mut p, 10_000_000, 100, 43_200, (t / 10).max(1))
                },
                _ => {}
            }
            for w in build_all(cx, vec![(n, p, false)]) {
                let pool = w.w.p.clone();
                scns.push(
                    scn(w.name.clone(), &w.w.bank, &w.w.p, cx.pick(2, 3), move |b| {
                        let (c, mut s) = (pool.cfg(b), pool.state(b));
                        vol_pre(&c, &mut s, b.now.ts as u64);
                        let now = now_point(&c, b);
                        let mut v = vec![];
                        for buy in [true, false] {
                            let mut a = edge_amounts(&c, &s, now, buy, 1, 16);
                            if !buy {
                                a.push(b.tokens(&pool.base_ata(&key("trader"))));
                            } else {
                                a.push(c.migration_quote_threshold - s.quote_reserve);
                            }
                            a.sort();
                            a.dedup();
                            for x in a {
                                v.push(ix1(Act::swap(buy, 1, x)));
                            }
                        }
                        for m in [0, 2] {
                            for x in [1, 1000, c.migration_quote_threshold / 3] {
                                v.push(ix1(Act::swap(true, m, x)));
                            }
                        }
                        v
                    })
                    .inv(vec![], can_finish),
                );
            }
        }
    }
    for w in zoo_worlds(cx) {
        let t = w.w.c().migration_quote_threshold;
        for (n, b) in stages(cx, &w) {
            scns.push(
                scn(n, &b, &w.w.p, cx.pick(2, 3), move |_| {
                    let mut v: Vec<Tx> = op_list().into_iter().filter(|a| !matches!(a, Act::V1Lock { .. } | Act::MigrateV2 { second: false })).map(ix1).collect();
                    v.extend(swaps(t).into_iter().map(ix1));
                    v.push(ix1(Act::Donate { base: true, amount: 1_003 }));
                    v.push(ix1(Act::Donate { base: false, amount: 77 }));
                    v.push(ix1(Act::Swap { who: "trader", buy: true, mode: 1, a0: t / 7, a1: 0, referral: Some("referrer"), legacy: false }));
                    v
                })
                .inv(vec![], can_finish),
            );
        }
    }
    cx.bfs(scns);
}
/// from here: sell everything back; or complete, lock, migrate and withdraw everything
fn can_finish(v: &View, _g: &mut Vec<i128>) -> Result<(), String> {
    if !v.ran.ok {
        return Ok(());
    }
    let p = v.p();
    let c = p.cfg(v.after());
    if p.state(v.after()).migration_progress == 0 {
        // every token sold so far can be brought back, whoever holds it
        let mut b = v.after().clone();
        let s = p.state(&b);
        let sold = crate::refcfg::initial_supply(&c).unwrap() - s.base_reserve;
        let have = b.tokens(&p.base_ata(&key("trader")));
        if have > 0 {
            let r = run_tx(&b, &v.pools[..1], &ix1(Act::swap(false, 1, have)))?;
            if !r.ok {
                // the model agrees; only amounts too small to be worth one unit may be refused
                let out = model_out(&c, &b, p, have);
                return ensure(out == 0, || format!("{have} of {sold} sold tokens could not be sold back for {out}"));
            }
            b = r.bank;
            ensure(b.tokens(&p.base_ata(&key("trader"))) == 0, || "a full sale left tokens behind".into())?;
        }
    }
    let mut b = v.after().clone();
    set_tokens(&mut b, &p.quote_ata(&key("trader")), 1 << 62);
    let mut go = |a: Act, must: bool| -> Result<bool, String> {
        let r = run_tx(&b, &v.pools[..1], &ix1(a)).map_err(|m| format!("then {a:?}: {m}"))?;
        ensure(r.ok || !must, || format!("stuck: {a:?} is refused {:?}", r.out.err))?;
        if r.ok {
            b = r.bank;
        }
        Ok(r.ok)
    };
    let s = p.state(v.after());
    if s.migration_progress == 0 {
        go(Act::swap(true, 1, 1 << 62), true)?;
    }
    let cr: &'static str = if s.creator == key("newcreator") { "newcreator" } else { "creator" };
    if has_vest(&c) && s.migration_progress < 2 {
        go(Act::Locker { creator: cr }, true)?;
    }
    if s.migration_progress < 3 {
        if c.migration_option == 0 {
            go(Act::V1Meta, false)?;
            go(Act::MigrateV1, true)?;
        } else {
            go(Act::MigrateV2 { second: true }, true)?;
        }
    }
    let m = u64::MAX;
    if c.fixed_token_supply_flag == 1 {
        go(Act::Leftover, s.is_withdraw_leftover == 0)?;
    }
    go(Act::PartnerSurplus { who: "partner" }, s.is_partner_withdraw_surplus == 0)?;
    go(Act::CreatorSurplus { who: cr }, s.is_creator_withdraw_surplus == 0)?;
    go(Act::MigFee { who: "partner", flag: 0 }, s.migration_fee_withdraw_status & 4 == 0)?;
    go(Act::MigFee { who: cr, flag: 1 }, s.migration_fee_withdraw_status & 2 == 0)?;
    go(Act::ClaimPartner { who: "partner", a: m, b: m }, true)?;
    go(Act::ClaimCreator { who: cr, a: m, b: m }, true)?;
    go(Act::ClaimProtocol { op: "operator", who: "operator", a: m, b: m }, true)?;
    go(Act::ProtCreationFee { op: "operator", who: "operator" }, true)?;
    go(Act::PartnerCreationFee { who: "partner", to: "stranger" }, s.creation_fee_bits & 2 == 0 && c.pool_creation_fee > 0)?;
    Ok(())
}
fn model_out(c: &PoolConfig, b: &Bank, p: &Pool, a: u64) -> u64 {
    let mut s = p.state(b);
    vol_pre(c, &mut s, b.now.ts as u64);
    trade(c, &s, now_point(c, b), false, 1, a, false, false).map_or(0, |t| t.received)
}

// ------------------------------------------------------------------ migration targets
/// base configuration that migrates with this option and fee option
pub fn target(option: u8, fee_option: u8, mode: u8) -> ConfigParameters {
    let mut p = params();
    p.migration_option = option;
    p.migration_fee_option = fee_option;
    p.creator_trading_fee_percentage = 40;
    p.migration_fee = MigrationFee { fee_percentage: 7, creator_fee_percentage: 30 };
    if fee_option == 6 {
        p.migrated_pool_fee = MigratedPoolFee { collect_fee_mode: mode, dynamic_fee: 0, pool_fee_bps: 100 };
        if mode == 2 {
            p.compounding_fee_bps = 5000;
        }
    }
    p
}
/// a pool ready to be migrated
fn ready(name: &str, p: &ConfigParameters) -> Result<(W, Bank), String> {
    let w = build_world(name, p, false)?;
    let mut acts = mid_acts(&w)?;
    acts.extend(finish_acts(&w));
    let b = drive(&w.w.bank, &w.w.p, &acts)?;
    Ok((w, b))
}
pub fn bits<T: Clone>(b: &Bank, k: &Pubkey, f: impl FnOnce(&mut Vec<u8>) -> T) -> Bank {
    let mut b = b.clone();
    let mut a = b.get(k).unwrap().clone();
    f(&mut a.data);
    b.put(*k, a);
    b
}
type V1Edit = (&'static str, fn(&mut dynamic_amm::accounts::Config), bool);
type V2Edit = (&'static str, fn(&mut damm_v2::accounts::Config), bool, bool);

/// P22: DAMM v1
pub fn p22(cx: &Cx) {
    // expectation: does the target configuration still match the option?
    let edits: &[V1Edit] = &[
        ("as agreed", |_| {}, true),
        ("denominator scaled", |c| (c.pool_fees.trade_fee_numerator, c.pool_fees.trade_fee_denominator) = (c.pool_fees.trade_fee_numerator * 7, c.pool_fees.trade_fee_denominator * 7), true),
        ("fee one bp higher", |c| c.pool_fees.trade_fee_numerator += 10, false),
        ("fee one bp lower", |c| c.pool_fees.trade_fee_numerator -= 10, false),
        ("fee a tenth bp lower", |c| c.pool_fees.trade_fee_numerator -= 1, false),
        ("fee zero", |c| c.pool_fees.trade_fee_numerator = 0, false),
        ("fee doubled by denominator", |c| c.pool_fees.trade_fee_denominator /= 2, false),
        ("denominator zero", |c| c.pool_fees.trade_fee_denominator = 0, false),
        ("open to everyone", |c| c.pool_creator_authority = Pubkey::default(), false),
        ("somebody else's", |c| c.pool_creator_authority = key("stranger"), false),
        ("delayed activation", |c| c.activation_duration = 1, false),
        ("long activation", |c| c.activation_duration = u64::MAX, false),
        ("partner fee", |c| c.partner_fee_numerator = 1, false),
        ("vault config", |c| c.vault_config_key = key("stranger"), false),
        ("vault config is the authority", |c| c.vault_config_key = auth(), false),
        ("protocol fee differs", |c| c.pool_fees.protocol_trade_fee_numerator = 0, true),
        ("slot activation", |c| c.activation_type = 1, true),
    ];
    let mut cases = vec![];
    for opt in 0..6u8 {
        for e in 0..edits.len() {
            cases.push((opt, e));
        }
    }
    cx.cases("target configuration", &cases, |(opt, e), t| {
        let (w, b) = ready("v1", &target(0, *opt, 0))?;
        let b = drive(&b, &w.w.p, &[Act::V1Meta])?;
        let mut b = b;
        put_v1_config(&mut b, v1_config_key(&w.w.p), *opt, edits[*e].1);
        verdict(&mut b, w.w.p.ix_migrate_v1(&w.w.p.v1_names(&v1_config_key(&w.w.p))), edits[*e].2, edits[*e].0, t)
    });
    let pairs: Vec<(u8, u8)> = (0..6).flat_map(|a| (0..6).map(move |b| (a, b))).collect();
    cx.cases("fee option", &pairs, |(opt, given), t| {
        let (w, b) = ready("v1", &target(0, *opt, 0))?;
        let mut b = drive(&b, &w.w.p, &[Act::V1Meta])?;
        put_v1_config(&mut b, v1_config_key(&w.w.p), *given, |_| {});
        verdict(&mut b, w.w.p.ix_migrate_v1(&w.w.p.v1_names(&v1_config_key(&w.w.p))), opt == given, "fee of another option", t)
    });
    let counterfeits = ["owner", "discriminator", "short", "v2 config", "pool's own config"];
    cx.cases("counterfeit configuration", &counterfeits, |e, t| {
        let (w, b) = ready("v1", &target(0, 3, 0))?;
        let p = &w.w.p;
        let mut b = drive(&b, p, &[Act::V1Meta])?;
        let k = v1_config_key(p);
        let mut n = p.v1_names(&k);
        match *e {
            "owner" => {
                let mut a = b.get(&k).unwrap().clone();
                a.owner = key("stranger");
                b.put(k, a)
            }
            "discriminator" => b = bits(&b, &k, |d| d[0] ^= 1),
            "short" => b = bits(&b, &k, |d| d.truncate(60)),
            "v2 config" => put_v2_config(&mut b, k, 3, |_| {}),
            _ => n.config = p.config,
        }
        verdict(&mut b, p.ix_migrate_v1(&n), false, e, t)
    });
    // amounts
    let mut grid = vec![];
    for lp in 0..8 {
        for mf in [(0u8, 0u8), (1, 100), (50, 30), (99, 1)] {
            for sup in 0..3 {
                for cv in 0..curves().len() {
                    for vest in [false, true] {
                        if !cx.thorough && (lp + cv + sup + vest as usize) % 2 == 1 && lp > 0 {
                            continue;
                        }
                        grid.push((lp, mf, sup, cv, vest));
                    }
                }
            }
        }
    }
    cx.cases("amounts", &grid, |(lp, mf, sup, cv, vest), t| {
        let mut p = target(0, 2, 0);
        let s = [(0, 100, 0, 0), (0, 0, 0, 100), (50, 50, 0, 0), (0, 50, 50, 0), (90, 10, 0, 0), (33, 17, 41, 9), (1, 98, 1, 0), (0, 10, 90, 0)][*lp];
        (p.partner_liquidity_percentage, p.partner_permanent_locked_liquidity_percentage, p.creator_liquidity_percentage, p.creator_permanent_locked_liquidity_percentage) = s;
        p.migration_fee = MigrationFee { fee_percentage: mf.0, creator_fee_percentage: mf.1 };
        with_curve(&mut p, &curves()[*cv]);
        if *vest {
            vesting_on(&mut p);
        }
        set_supply(&mut p, *sup, false);
        let w = match build_world("v1 amounts", &p, false) {
            Ok(w) => w,
            Err(_) if refused_by_model(&p) => {
                t.hit("configuration refused");
                return Ok(());
            }
            Err(e) => return Err(e),
        };
        let mut acts = mid_acts(&w)?;
        acts.extend(finish_acts(&w));
        let b = drive(&w.w.bank, &w.w.p, &acts)?;
        let a = drive(&b, &w.w.p, &migrate_acts(&w))?;
        t.hit("migrated v1");
        let p = &w.w.p;
        let (c, s0, s1) = (p.cfg(&a), p.state(&b), p.state(&a));
        let n = p.v1_names(&v1_config_key(p));
        let (db, dq) = (a.tokens(&n.a_token_vault), a.tokens(&n.b_token_vault));
        moved(&c, &s0, &s1, p, &b, &a, db, dq)?;
        // the opening price is the migration price
        price_of(&c, db, dq, 10)?;
        // liquidity tokens
        let m: dbc::MeteoraDammMigrationMetadata = a.zc(&p.v1_meta());
        let all = a.tokens(&n.lp) as u128;
        let got = [m.partner_liquidity, m.partner_locked_liquidity, m.creator_liquidity, m.creator_locked_liquidity].map(|x| x as u128);
        let want = [s_of(c.partner_liquidity_percentage), s_of(c.partner_permanent_locked_liquidity_percentage), s_of(c.creator_liquidity_percentage), s_of(c.creator_permanent_locked_liquidity_percentage)];
        ensure(got.iter().sum::<u128>() == all, || format!("shares {got:?} of {all} liquidity tokens"))?;
        for i in 0..4 {
            let fair = all * want[i] / 100;
            ensure(got[i] >= fair && got[i] <= fair + 3, || format!("share {i} is {} of {all}, configured {} percent", got[i], want[i]))?;
        }
        ensure(m.partner == c.fee_claimer, || "liquidity recorded for someone else".into())
    });
    // only a pool configured for it, in the right stage, and with its own record
    let mut scns = vec![];
    for w in zoo_worlds(cx) {
        if w.w.c().migration_option != 0 {
            continue;
        }
        for (n, b) in stages(cx, &w) {
            scns.push(scn(n, &b, &w.w.p, cx.pick(3, 5), |_| {
                let mut v = op_list();
                v.push(Act::swap(true, 1, BIG));
                v.push(Act::V1Claim { owner: "stranger", sender: "stranger" });
                v.into_iter().map(ix1).collect()
            }));
        }
    }
    cx.bfs(scns);
}
fn s_of(x: u8) -> u128 {
    x as u128
}
pub fn refused_by_model(p: &ConfigParameters) -> bool {
    let keys = Pool::named("A", key("quote"), SPL, p.token_type == 1);
    crate::refcfg::config(p, crate::refcfg::Quote::Spl, &keys, 1_700_000_000).is_none()
}
fn verdict(b: &mut Bank, i: anchor_lang::solana_program::instruction::Instruction, want: bool, what: &str, t: &mut Tally) -> Result<(), String> {
    let before = b.digest();
    let o = b.exec1(i);
    t.hit(format!("target {}", if want { "accepted" } else { "refused" }));
    ensure(o.ok() == want, || format!("{what}: accepted={} {:?}", o.ok(), o.err))?;
    ensure(o.ok() || before == b.digest(), || "a refused migration left a trace".into())
}
/// what left the pool: the deposit, and what was burned
fn moved(c: &PoolConfig, s0: &VirtualPool, s1: &VirtualPool, p: &Pool, b: &Bank, a: &Bank, db: u64, dq: u64) -> Result<(), String> {
    let t = c.migration_quote_threshold as u128;
    let fee = t * c.migration_fee_percentage as u128 / 100;
    let net = (t - fee) as u128;
    let prot = s1.protocol_migration_quote_fee_amount as u128;
    ensure(prot == net * 20 / 10_000, || format!("protocol migration fee {prot} of {net}"))?;
    // the pool takes what it can at its price; at most rounding stays behind
    let out_q = (b.tokens(&p.quote_vault) - a.tokens(&p.quote_vault)) as u128;
    ensure(out_q == dq as u128, || format!("{out_q} quote left the pool, {dq} arrived"))?;
    ensure(out_q <= net - prot, || format!("{out_q} quote was deposited, only {} is due", net - prot))?;
    let burned = b.supply(&p.base_mint) - a.supply(&p.base_mint);
    let out_b = b.tokens(&p.base_vault) - a.tokens(&p.base_vault);
    ensure(out_b == db + burned, || format!("{out_b} base left the pool, {db} arrived and {burned} were burned"))?;
    let owed = base_fee_sum(s0) + s1.protocol_migration_base_fee_amount as u128;
    let left = a.tokens(&p.base_vault) as u128;
    if c.fixed_token_supply_flag == 1 {
        let max = c.pre_migration_token_supply - c.post_migration_token_supply;
        ensure(burned <= max && (burned == max || left == owed), || format!("burned {burned} of at most {max}, {left} left, {owed} owed"))?;
        ensure(a.supply(&p.base_mint) >= c.post_migration_token_supply, || format!("supply {} after migration, promised {}", a.supply(&p.base_mint), c.post_migration_token_supply))?;
    } else {
        ensure(left == owed, || format!("{left} base left, {owed} owed"))?;
    }
    ensure(left >= owed, || format!("{left} base left, {owed} owed"))?;
    ensure(base_fee_sum(s0) == base_fee_sum(s1) && quote_fees(s0) == quote_fees(s1), || "fees changed at migration".into())
}
/// dq/db must be the migration price squared, up to `ulps` units of either amount
fn price_of(c: &PoolConfig, db: u64, dq: u64, ulps: u64) -> Result<(), String> {
    let p2 = BigUint::from(c.migration_sqrt_price) * c.migration_sqrt_price;
    // quote = base * p^2 / 2^128
    let lo = (BigUint::from(db.saturating_sub(ulps)) * &p2) >> 128usize;
    let hi = ((BigUint::from(db + ulps) * &p2) >> 128usize) + ulps;
    let q = BigUint::from(dq);
    ensure(q.clone() + ulps >= lo && q <= hi, || format!("deposited {db} base and {dq} quote, migration price wants {lo}..{hi} quote"))
}

/// P24: DAMM v2
pub fn p24(cx: &Cx) {
    // (name, edit, accepted with a fixed fee, accepted with customised terms)
    let edits: &[V2Edit] = &[
        ("as agreed", |_| {}, true, true),
        ("exponential schedule without periods", |c| c.pool_fees.base_fee.data[8] = 1, true, true),
        ("rate limiter", |c| c.pool_fees.base_fee.data[8] = 2, false, true),
        ("market cap linear", |c| c.pool_fees.base_fee.data[8] = 3, false, true),
        ("market cap exponential", |c| c.pool_fees.base_fee.data[8] = 4, false, true),
        ("unknown schedule", |c| c.pool_fees.base_fee.data[8] = 5, false, true),
        ("one period", |c| c.pool_fees.base_fee.data[14] = 1, false, true),
        ("256 periods", |c| c.pool_fees.base_fee.data[15] = 1, false, true),
        ("frequency", |c| c.pool_fees.base_fee.data[16] = 1, false, true),
        ("frequency high", |c| c.pool_fees.base_fee.data[23] = 1, false, true),
        ("reduction", |c| c.pool_fees.base_fee.data[24] = 1, false, true),
        ("reduction high", |c| c.pool_fees.base_fee.data[31] = 1, false, true),
        ("one bp higher", |c| add_cliff(c, 100_000), false, true),
        ("one bp lower", |c| add_cliff(c, -100_000), false, true),
        ("just below", |c| add_cliff(c, -1), false, true),
        ("fee zero", |c| set_v2_cliff(c, 0), false, true),
        ("fee huge", |c| set_v2_cliff(c, u64::MAX), false, true),
        ("min price above", |c| c.sqrt_min_price = { c.sqrt_min_price }.wrapping_add(1), false, true),
        ("min price below", |c| c.sqrt_min_price = { c.sqrt_min_price }.wrapping_sub(1), false, true),
        ("max price below", |c| c.sqrt_max_price = { c.sqrt_max_price }.wrapping_sub(1), false, true),
        ("max price above", |c| c.sqrt_max_price = { c.sqrt_max_price }.wrapping_add(1), false, true),
        ("vault config", |c| c.vault_config_key = key("stranger"), false, true),
        ("slot activation", |c| c.activation_type = 0, false, true),
        ("unknown activation", |c| c.activation_type = 2, false, true),
        ("open to everyone", |c| c.pool_creator_authority = Pubkey::default(), false, false),
        ("somebody else's", |c| c.pool_creator_authority = key("stranger"), false, false),
        ("the payer's", |c| c.pool_creator_authority = key("payer"), false, false),
    ];
    let mut cases = vec![];
    for opt in 0..7u8 {
        for mode in 0..if opt == 6 { 3u8 } else { 1 } {
            for e in 0..edits.len() {
                cases.push((opt, mode, e));
            }
        }
    }
    cx.cases("target configuration", &cases, |(opt, mode, e), t| {
        let (w, mut b) = ready("v2", &target(1, *opt, *mode))?;
        let (p, x) = (&w.w.p, &edits[*e]);
        put_v2_config(&mut b, v2_config_key(p), *opt, x.1);
        verdict(&mut b, p.ix_migrate_v2(&p.v2_names(&v2_config_key(p)), true), if *opt < 6 { x.2 } else { x.3 }, x.0, t)
    });
    let pairs: Vec<(u8, u8)> = (0..7).flat_map(|a| (0..7).map(move |b| (a, b))).collect();
    cx.cases("fee option", &pairs, |(opt, given), t| {
        let (w, mut b) = ready("v2", &target(1, *opt, 0))?;
        let p = &w.w.p;
        put_v2_config(&mut b, v2_config_key(p), *given, |_| {});
        verdict(&mut b, p.ix_migrate_v2(&p.v2_names(&v2_config_key(p)), true), opt == given, "terms of another option", t)
    });
    let counterfeits: Vec<(&str, u8)> = ["owner", "discriminator", "short", "v1 config", "missing", "own config", "extra accounts"].into_iter().flat_map(|e| [(e, 2), (e, 6)]).collect();
    cx.cases("counterfeit configuration", &counterfeits, |(e, opt), t| {
        let (w, mut b) = ready("v2", &target(1, *opt, 0))?;
        let p = &w.w.p;
        let k = v2_config_key(p);
        let mut i = p.ix_migrate_v2(&p.v2_names(&k), true);
        let mut ok = false;
        match *e {
            "owner" => {
                let mut a = b.get(&k).unwrap().clone();
                a.owner = key("stranger");
                b.put(k, a)
            }
            "discriminator" => b = bits(&b, &k, |d| d[0] ^= 1),
            "short" => b = bits(&b, &k, |d| d.truncate(60)),
            "v1 config" => put_v1_config(&mut b, k, 2, |_| {}),
            "missing" => {
                i.accounts.pop();
            }
            "own config" => i.accounts.last_mut().unwrap().pubkey = p.config,
            _ => {
                let last = i.accounts.last().unwrap().clone();
                i.accounts.push(last);
                ok = true;
            }
        }
        verdict(&mut b, i, ok, e, t)
    });
    // amounts and terms
    let mut grid = vec![];
    for opt in [0u8, 5, 6] {
        for mode in 0..if opt == 6 { 3u8 } else { 1 } {
            for mf in [(0u8, 0u8), (1, 100), (50, 30), (99, 1)] {
                for sup in 0..3 {
                    for cv in 0..curves().len() {
                        for t22 in [false, true] {
                            for vest in [false, true] {
                                if !cx.thorough && (mode as usize + cv + sup + t22 as usize) % 2 == 1 {
                                    continue;
                                }
                                grid.push((opt, mode, mf, sup, cv, t22, vest));
                            }
                        }
                    }
                }
            }
        }
    }
    cx.cases("amounts", &grid, |(opt, mode, mf, sup, cv, t22, vest), t| {
        let mut p = target(1, *opt, *mode);
        p.migration_fee = MigrationFee { fee_percentage: mf.0, creator_fee_percentage: mf.1 };
        p.token_type = *t22 as u8;
        with_curve(&mut p, &curves()[*cv]);
        if *vest {
            vesting_on(&mut p);
        }
        set_supply(&mut p, *sup, *t22);
        deposit(&p, t)
    });
    // amounts in ratios with exact square roots, and very small ones
    let mut exact = vec![];
    for k in [62u32, 63, 64, 65] {
        for q in (1u64..=40).chain([100, 10_000, 1 << 30]) {
            for (opt, mode) in [(6u8, 2u8), (6, 1), (0, 0)] {
                for mf in [0u8, 50] {
                    exact.push((k, q, opt, mode, mf));
                }
            }
        }
    }
    cx.cases("exact ratios", &exact, |(k, q, opt, mode, mf), t| {
        let mut p = target(1, *opt, *mode);
        p.migration_fee = MigrationFee { fee_percentage: *mf, creator_fee_percentage: 0 };
        let lo = 1u128 << (k - 1);
        // from half the final root of the price up to it
        let l = (*q as u128) << (129 - k);
        p.sqrt_start_price = lo;
        p.curve = vec![::dynamic_bonding_curve::params::liquidity_distribution::LiquidityDistributionParameters { sqrt_price: 2 * lo, liquidity: l }];
        p.migration_quote_threshold = *q;
        if refused_by_model(&p) {
            t.hit("exact ratio refused");
            return build_world("exact", &p, false).map_or(Ok(()), |_| Err("accepted".into()));
        }
        deposit(&p, t)
    });
    // customised terms reach the new pool
    let mut terms = vec![];
    for mode in 0..3u8 {
        for bps in [10u16, 11, 100, 999, 1000] {
            for dynamic in 0..2u8 {
                for comp in if mode == 2 { vec![1u16, 5000, 10_000] } else { vec![0] } {
                    for sched in 0..4 {
                        terms.push((mode, bps, dynamic, comp, sched));
                    }
                }
            }
        }
    }
    cx.cases("terms", &terms, |(mode, bps, dynamic, comp, sched), t| {
        let mut p = target(1, 6, *mode);
        p.migrated_pool_fee = MigratedPoolFee { collect_fee_mode: *mode, dynamic_fee: *dynamic, pool_fee_bps: *bps };
        p.compounding_fee_bps = *comp;
        if *sched > 0 {
            p.migrated_pool_base_fee_mode = [0, 3, 4, 3][*sched];
            p.migrated_pool_market_cap_fee_scheduler_params = MigratedPoolMarketCapFeeSchedulerParams {
                number_of_period: [0, 10, 20, 1][*sched],
                sqrt_price_step_bps: [0, 20, 1, 65535][*sched],
                scheduler_expiration_duration: [0, 86400, 1, u32::MAX][*sched],
                reduction_factor: [0, 1, 5, 7][*sched],
            };
        }
        if refused_by_model(&p) {
            t.hit("terms refused");
            return build_world("terms", &p, false).map_or(Ok(()), |_| Err("accepted".into()));
        }
        deposit(&p, t)
    });
    let mut scns = vec![];
    for w in zoo_worlds(cx) {
        if w.w.c().migration_option != 1 {
            continue;
        }
        for (n, b) in stages(cx, &w) {
            scns.push(scn(n, &b, &w.w.p, cx.pick(3, 4), |_| {
                let mut v = op_list();
                v.push(Act::swap(true, 1, BIG));
                v.into_iter().map(ix1).collect()
            }));
        }
    }
    cx.bfs(scns);
}
fn add_cliff(c: &mut damm_v2::accounts::Config, d: i64) {
    let v = u64::from_le_bytes(c.pool_fees.base_fee.data[..8].try_into().unwrap());
    set_v2_cliff(c, v.wrapping_add(d as u64));
}
/// drive a configuration through migration and check where everything went
fn deposit(p: &ConfigParameters, t: &mut Tally) -> Result<(), String> {
    let w = match build_world("v2 amounts", p, false) {
        Ok(w) => w,
        Err(_) if refused_by_model(p) => {
            t.hit("configuration refused");
            return Ok(());
        }
        Err(e) => return Err(e),
    };
    // a goal of a few units leaves no room for anything but the last purchase
    let mut acts = if p.migration_quote_threshold < 40 { vec![] } else { mid_acts(&w)? };
    acts.extend(finish_acts(&w));
    let b = drive(&w.w.bank, &w.w.p, &acts)?;
    let a = drive(&b, &w.w.p, &migrate_acts(&w))?;
    t.hit("migrated v2");
    let p = &w.w.p;
    let (c, s0, s1) = (p.cfg(&a), p.state(&b), p.state(&a));
    let n = p.v2_names(&v2_config_key(p));
    let (db, dq) = (a.tokens(&n.vault_a), a.tokens(&n.vault_b));
    moved(&c, &s0, &s1, p, &b, &a, db, dq)?;
    let net = c.migration_quote_threshold as u128 * 100 - c.migration_quote_threshold as u128 * c.migration_fee_percentage as u128;
    // nearly all of the quote is put to use
    let due = net / 100 * 9_980 / 10_000;
    ensure((dq as u128) + due / 1_000 + 60 >= due, || format!("only {dq} of {due} quote was deposited"))?;
    let q: damm_v2::accounts::Pool = a.zc(&n.pool);
    let px = { q.sqrt_price };
    let apart = px.abs_diff(c.migration_sqrt_price);
    if c.migrated_collect_fee_mode == 2 {
        price_of(&c, db, dq, 60)?;
    } else {
        ensure(apart == 0, || format!("the new pool opens at {px}, migration price {}", c.migration_sqrt_price))?;
    }
    ensure(q.token_a_vault == n.vault_a && q.token_a_mint == p.base_mint && q.token_b_mint == p.quote_mint, || "pool of other tokens".into())
}

/// P23: DAMM v1 liquidity tokens
pub fn p23(cx: &Cx) {
    let splits = [(0, 100, 0, 0), (0, 0, 0, 100), (50, 50, 0, 0), (0, 50, 50, 0), (90, 10, 0, 0), (33, 17, 41, 9), (1, 98, 1, 0), (0, 10, 90, 0), (25, 25, 25, 25), (0, 50, 0, 50)];
    let mut scns = vec![];
    for s in splits {
        for same in [false, true] {
            let mut p = target(0, 2, 0);
            (p.partner_liquidity_percentage, p.partner_permanent_locked_liquidity_percentage, p.creator_liquidity_percentage, p.creator_permanent_locked_liquidity_percentage) = s;
            let name = format!("lp{}-{}-{}-{}{}", s.0, s.1, s.2, s.3, if same { "-same party" } else { "" });
            for mut w in build_all(cx, vec![(name.clone(), p, false)]) {
                if same {
                    // the creator hands the pool to the partner before anything is recorded
                    match drive(&w.w.bank, &w.w.p, &[Act::Transfer { who: "creator", new: "partner", meta: false }]) {
                        Ok(b) => w.w.bank = b,
                        Err(m) => {
                            cx.fail(Bad { scn: name.clone(), path: vec![], msg: m, acts: vec![] });
                            continue;
                        }
                    }
                }
                let mut acts = vec![Act::swap(true, 1, BIG)];
                acts.extend(migrate_acts(&w));
                let Some(b) = drive_or(cx, &name, &w.w.bank, &w.w.p, &acts) else { continue };
                scns.push(
                    scn(name.clone(), &b, &w.w.p, cx.pick(6, 9), |_| {
                        let mut v = vec![];
                        for o in ["partner", "creator", "stranger", "newcreator"] {
                            v.push(Act::V1Lock { owner: o });
                            v.push(Act::V1Claim { owner: o, sender: "stranger" });
                        }
                        v.extend([
                            Act::V1Claim { owner: "creator", sender: "creator" },
                            Act::V1Claim { owner: "partner", sender: "creator" },
                            Act::Transfer { who: "creator", new: "newcreator", meta: true },
                            Act::Transfer { who: "partner", new: "newcreator", meta: true },
                            Act::Transfer { who: "creator", new: "partner", meta: true },
                            Act::V1Meta,
                            Act::MigrateV1,
                            Act::Locker { creator: "creator" },
                            Act::Leftover,
                            Act::ClaimCreator { who: "creator", a: u64::MAX, b: u64::MAX },
                        ]);
                        v.into_iter().map(ix1).collect()
                    })
                    .inv(vec![0; 8], lp_once),
                );
            }
        }
    }
    cx.bfs(scns);
}
/// ghost: claimed and locked so far by partner, creator, stranger, new creator
fn lp_once(v: &View, g: &mut Vec<i128>) -> Result<(), String> {
    let p = v.p();
    let (a, b, r) = (v.after(), v.before, v.root);
    let n = p.v1_names(&v1_config_key(p));
    let c = p.cfg(a);
    for (i, o) in ["partner", "creator", "stranger", "newcreator"].into_iter().enumerate() {
        let free = ata(&key(o), &n.lp_mint, &SPL);
        let (_, vault) = p.v1_lock_escrow(&n, &key(o));
        g[i] += a.tokens(&free) as i128 - b.tokens(&free) as i128;
        g[4 + i] += a.tokens(&vault) as i128 - b.tokens(&vault) as i128;
        ensure(v1_locked(a, &p.v1_lock_escrow(&n, &key(o)).0) == a.tokens(&vault), || format!("locked liquidity of {o} is not what its escrow holds"))?;
    }
    let all = r.tokens(&n.lp) as i128;
    let part = |x: u8| all * x as i128 / 100;
    let mut free = [part(c.partner_liquidity_percentage), 0, 0, 0];
    let mut lock = [part(c.partner_permanent_locked_liquidity_percentage), 0, 0, 0];
    let cl = part(c.creator_permanent_locked_liquidity_percentage);
    let who0 = if p.state(r).creator == key("partner") { 0 } else { 1 };
    lock[who0] += cl;
    free[who0] += all - part(c.partner_liquidity_percentage) - part(c.partner_permanent_locked_liquidity_percentage) - cl;
    for i in 0..4 {
        ensure(g[i] == 0 || g[i] == free[i], || format!("party {i} received {} liquidity tokens, entitled to {}", g[i], free[i]))?;
        ensure(g[4 + i] == 0 || g[4 + i] == lock[i], || format!("{} liquidity tokens were locked for party {i}, promised {}", g[4 + i], lock[i]))?;
    }
    let out: i128 = g.iter().sum();
    ensure(a.tokens(&n.lp) as i128 + out == all, || "liquidity tokens vanished".into())?;
    if v.ran.ok {
        match v.act() {
            Some(Act::V1Lock { .. } | Act::V1Claim { .. }) => {}
            _ => ensure(a.tokens(&n.lp) == b.tokens(&n.lp), || "liquidity tokens moved on another operation".into())?,
        }
    }
    Ok(())
}

/// P25: vested tokens
pub fn p25(cx: &Cx) {
    let mut grid = vec![];
    for per in [0u64, 1, 1_003, 1 << 40] {
        for cliff_amt in [0u64, 1, 17, 1 << 41] {
            for cliff in [0u64, 1, 50, 1 << 33] {
                for freq in [0u64, 1, 7, 86_400] {
                    for n in [0u64, 1, 11, 65_537] {
                        grid.push((per, cliff_amt, cliff, freq, n));
                    }
                }
            }
        }
    }
    let targets: &[(u8, u8, bool)] = &[(0, 3, false), (1, 0, false), (1, 2, true)];
    let waits: &[(u64, u64)] = &[(0, 0), (1, 1), (49, 1), (50, 1), (51, 2), (1 << 34, 5)];
    let mut cases = vec![];
    for (i, g) in grid.iter().enumerate() {
        for (j, t) in targets.iter().enumerate() {
            for (k, w) in waits.iter().enumerate() {
                for act in 0..2u8 {
                    if cx.thorough || (i + j + k) % 3 == 0 {
                        cases.push((*g, *t, *w, act));
                    }
                }
            }
        }
    }
    cx.cases("schedule", &cases, |((per, amt, cliff, freq, n), (opt, fee, t22), wait, act), t| {
        let mut p = target(*opt, *fee, 0);
        p.activation_type = *act;
        p.token_type = *t22 as u8;
        p.locked_vesting = LockedVestingParams { amount_per_period: *per, cliff_duration_from_migration_time: *cliff, frequency: *freq, number_of_period: *n, cliff_unlock_amount: *amt };
        let ok = !refused_by_model(&p);
        let w = match build_world("vesting", &p, false) {
            Ok(_) if !ok => return Err("an unsound vesting schedule was accepted".into()),
            Ok(w) => w,
            Err(_) if !ok => {
                t.hit("schedule refused");
                return Ok(());
            }
            Err(e) => return Err(e),
        };
        let pool = &w.w.p;
        let promised = (*per as u128 * *n as u128 + *amt as u128) as u64;
        let b = drive(&w.w.bank, pool, &[Act::swap(true, 1, BIG)])?;
        let finish = b.now.ts as u64;
        let mut b = b;
        b.advance(wait.0, wait.1);
        if promised == 0 {
            t.hit("nothing promised");
            let r = run_tx(&b, std::slice::from_ref(pool), &ix1(Act::Locker { creator: "creator" }))?;
            ensure(!r.ok, || "a lock was created although nothing was promised".into())?;
            drive(&b, pool, &migrate_acts(&w))?;
            return Ok(());
        }
        // migration must wait for the lock
        let m = *migrate_acts(&w).last().unwrap();
        let pre = if *opt == 0 { drive(&b, pool, &[Act::V1Meta])? } else { b.clone() };
        let r = run_tx(&pre, std::slice::from_ref(pool), &ix1(m))?;
        ensure(!r.ok, || "migrated without the lock".into())?;
        let had = b.tokens(&pool.base_vault);
        let a = drive(&b, pool, &[Act::Locker { creator: "creator" }])?;
        t.hit("locked");
        ensure(a.tokens(&pool.escrow_token()) == promised && had - a.tokens(&pool.base_vault) == promised, || format!("locked {} of {promised} promised", a.tokens(&pool.escrow_token())))?;
        let e: locker::accounts::VestingEscrow = a.zc(&pool.escrow());
        ensure(e.recipient == key("creator") && e.token_mint == pool.base_mint, || "locked for someone else".into())?;
        ensure(e.vesting_start_time == finish && e.cliff_time == finish.saturating_add(*cliff), || format!("schedule starts at {} with a cliff at {}, completed at {finish}", e.vesting_start_time, e.cliff_time))?;
        ensure((e.frequency, e.cliff_unlock_amount, e.amount_per_period, e.number_of_period) == (*freq, *amt, *per, *n), || "other schedule".into())?;
        // the locker's "creator" is the pool authority, which signs nothing after the lock exists
        ensure(e.creator == auth() && e.cancel_mode < 2 && e.update_recipient_mode == 2, || format!("the lock can be altered: created by {}, modes {} and {}", e.creator, e.cancel_mode, e.update_recipient_mode))?;
        let r = run_tx(&a, std::slice::from_ref(pool), &ix1(Act::Locker { creator: "creator" }))?;
        ensure(!r.ok, || "locked twice".into())?;
        drive(&a, pool, &migrate_acts(&w))?;
        Ok(())
    });
    let mut scns = vec![];
    for w in life_worlds(cx) {
        let t = w.w.c().migration_quote_threshold;
        scns.push(
            scn(w.name.clone(), &w.w.bank, &w.w.p, cx.pick(5, 7), move |_| {
                [
                    Act::swap(true, 1, BIG),
                    Act::buy(t / 2),
                    Act::Locker { creator: "creator" },
                    Act::Locker { creator: "newcreator" },
                    Act::Locker { creator: "stranger" },
                    Act::Transfer { who: "creator", new: "newcreator", meta: true },
                    Act::V1Meta,
                    Act::MigrateV1,
                    Act::MigrateV2 { second: true },
                    Act::Advance { secs: 1_000, slots: 10 },
                    Act::Leftover,
                    Act::ClaimPartner { who: "partner", a: u64::MAX, b: u64::MAX },
                ]
                .into_iter()
                .map(ix1)
                .collect()
            })
            .inv(vec![0], |v, g| {
                let p = v.p();
                let c = p.cfg(v.after());
                g[0] += (v.after().tokens(&p.escrow_token()) - v.before.tokens(&p.escrow_token())) as i128;
                let due = vest_total(&c).unwrap() as i128;
                ensure(g[0] == 0 || g[0] == due, || format!("{} tokens locked, {due} promised", g[0]))?;
                ensure(p.state(v.after()).migration_progress < 2 || g[0] == due, || "past the lock without locking".into())
            }),
        );
    }
    cx.bfs(scns);
}
