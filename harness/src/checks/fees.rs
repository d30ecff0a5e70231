//! P05-P10: how much each trade pays and who it is paid to
use super::common::*;

/// a curve deep enough that one billionth of a trade is a visible amount
pub fn deep(p: &mut ConfigParameters) {
    p.sqrt_start_price = P1 / 2;
    p.migration_quote_threshold = 1_000_000_000_000_000;
    p.curve = vec![pt(P1 * 4, 4_000_000_000_000_000 << 64)];
}
pub const DEEP_TRADE: u64 = 2_000_000_000_000;

fn fee_kinds(p: &mut ConfigParameters, k: usize) {
    match k {
        0 => scheduler(p, 0, 10_000_000, 0, 0, 0),
        1 => scheduler(p, 0, 990_000_000, 0, 0, 0),
        2 => scheduler(p, 0, 2_500_000, 0, 0, 0),
        3 => scheduler(p, 0, 500_000_000, 12, 10, 40_000_000),
        4 => scheduler(p, 1, 400_000_000, 20, 5, 1_000),
        5 => limiter(p, 10_000_000, 100, 60, 700),
        _ => limiter(p, 900_000_000, 3000, 60, 700),
    }
}

/// P05: level and split of the fee
pub fn p05(cx: &Cx) {
    let mut scns = vec![];
    for kind in 0..7 {
        for collect in 0..2 {
            if kind >= 5 && collect == 1 {
                continue;
            }
            for creator in [0, 1, 37, 100] {
                for dynamic in [false, true] {
                    let mut p = params();
                    p.collect_fee_mode = collect;
                    p.creator_trading_fee_percentage = creator;
                    fee_kinds(&mut p, kind);
                    if dynamic {
                        p.pool_fees.dynamic_fee = Some(DynamicFeeParameters { variable_fee_control: 90_000, ..dyn_fee() });
                    }
                    let name = format!("fee{kind}-collect{collect}-creator{creator}-dyn{}", dynamic as u8);
                    let Some(w) = build_all(cx, vec![(name, p, false)]).pop() else { continue };
                    let top = cx.pick(160, 1200);
                    for (n, b) in stages(cx, &w).into_iter().take(2) {
                        scns.push(
                            scn(n, &b, &w.w.p, 1, move |_| {
                                let mut v = vec![];
                                let amounts: Vec<u64> = (1..=top).chain((0..24).map(|k| 211 << k)).chain([BIG]).collect();
                                for a0 in amounts {
                                    for buy in [true, false] {
                                        for mode in 0..3 {
                                            for referral in [None, Some("referrer")] {
                                                if a0 > 12 && a0 % 2 == 0 && referral.is_none() {
                                                    continue;
                                                }
                                                v.push(ix1(Act::Swap { who: "trader", buy, mode, a0, a1: if mode == 2 { u64::MAX } else { 0 }, referral, legacy: false }));
                                            }
                                        }
                                    }
                                }
                                v
                            })
                            .inv(vec![], fee_rules),
                        );
                    }
                }
            }
        }
    }
    cx.bfs(scns);
    let mut deep_scns = vec![];
    for w in zoo_worlds(cx) {
        let t = w.w.c().migration_quote_threshold;
        for (n, b) in stages(cx, &w).into_iter().take(2) {
            deep_scns.push(
                scn(format!("{n}/seq"), &b, &w.w.p, cx.pick(2, 4), move |_| {
                    let mut v = vec![ix1(Act::Advance { secs: 7, slots: 11 }), ix1(Act::Advance { secs: 61, slots: 61 })];
                    for (buy, mode, a0, referral) in [(true, 0, t / 9, None), (true, 2, t / 13, Some("referrer")), (true, 1, t, Some("referrer")), (false, 0, t / 17, Some("referrer")), (false, 2, t / 19, None), (false, 1, t, None), (true, 0, 3, Some("referrer"))] {
                        v.push(ix1(Act::Swap { who: "trader", buy, mode, a0, a1: if mode == 2 { u64::MAX } else { 0 }, referral, legacy: false }));
                    }
                    v
                })
                .inv(vec![], fee_rules),
            );
        }
    }
    cx.bfs(deep_scns);
}
fn fee_rules(v: &View, _g: &mut Vec<i128>) -> Result<(), String> {
    let Some(Act::Swap { who: w, buy, referral, .. }) = v.act() else { return Ok(()) };
    if !v.ran.ok {
        return Ok(());
    }
    let p = v.p();
    let (c, a, b) = (p.cfg(v.before), p.state(v.before), p.state(v.after()));
    let in_base = c.collect_fee_mode == 1 && *buy;
    let (pr, pa, cr) = if in_base {
        ensure(quote_fees(&a) == quote_fees(&b), || "quote fees moved on a trade whose fee is in base".into())?;
        (b.protocol_base_fee - a.protocol_base_fee, b.partner_base_fee - a.partner_base_fee, b.creator_base_fee - a.creator_base_fee)
    } else {
        ensure(base_fee_sum(&a) == base_fee_sum(&b), || "base fees moved on a trade whose fee is in quote".into())?;
        (b.protocol_quote_fee - a.protocol_quote_fee, b.partner_quote_fee - a.partner_quote_fee, b.creator_quote_fee - a.creator_quote_fee)
    };
    let d = |k: &Pubkey| v.after().tokens(k) as i128 - v.before.tokens(k) as i128;
    let rf = referral.map_or(0, |r| d(&if in_base { p.base_ata(&who(r)) } else { p.quote_ata(&who(r)) })) as u64;
    let k = who(w);
    let total = pr + pa + cr + rf;
    // the amount the fee is charged on, fee included
    let charged = if c.collect_fee_mode == 0 && *buy {
        -d(&p.quote_ata(&k))
    } else if *buy {
        d(&p.base_ata(&k)) + total as i128
    } else {
        d(&p.quote_ata(&k)) + total as i128
    } as u128;
    let n = 1_000_000_000u128;
    ensure(total as u128 * n >= charged * 2_500_000, || format!("fee {total} on {charged} is below 0.25 %"))?;
    ensure(total as u128 * n < charged * 990_000_000 + n, || format!("fee {total} on {charged} is above 99 %"))?;
    ensure(pr + rf == pct(total, 20), || format!("protocol share {} of {total}", pr + rf))?;
    ensure(rf == if referral.is_some() { pct(pr + rf, 20) } else { 0 }, || format!("referral share {rf} of {}", pr + rf))?;
    ensure(cr == pct(pa + cr, c.creator_trading_fee_percentage as u64), || format!("creator share {cr} of {}", pa + cr))?;
    // the whole difference between what was paid in and what the curve accounts for is fee
    ensure(v.ran.effs[0].trade.map_or(false, |t| t.fees.total() == total), || "fee".into())
}

/// P06: the scheduled fee falls exactly along its schedule
#[derive(Debug, Clone)]
struct Sched {
    mode: u8,
    cliff: u64,
    periods: u16,
    freq: u64,
    red: u64,
    act: u8,
    collect: u8,
}
pub fn p06(cx: &Cx) {
    let mut v = vec![];
    let cliffs: &[u64] = cx.pick(&[10_000_000, 500_000_000, 990_000_000], &[2_500_000, 2_500_001, 10_000_000, 123_456_789, 500_000_000, 800_000_000, 990_000_000]);
    let periods: &[u16] = cx.pick(&[1, 2, 7, 60, 28_671, 50_000, 65535], &[1, 2, 3, 7, 16, 31, 60, 144, 255, 256, 1000, 8191, 28_671, 32768, 50_000, 65535]);
    let freqs: &[u64] = cx.pick(&[1, 60], &[1, 7, 60, 3600, 1 << 32]);
    for mode in 0..2u8 {
        for cliff in cliffs {
            for periods in periods {
                let room = cliff - 2_500_000;
                let reds: Vec<u64> = if mode == 0 {
                    let m = room / *periods as u64;
                    [m, m / 2, 1].into_iter().filter(|r| *r > 0).collect()
                } else {
                    cx.pick(vec![1, 250, 5000], vec![1, 2, 100, 250, 1000, 5000, 9000, 9999])
                };
                for red in reds {
                    for freq in freqs {
                        for act in 0..2 {
                            for collect in 0..2 {
                                v.push(Sched { mode, cliff: *cliff, periods: *periods, freq: *freq, red, act, collect });
                            }
                        }
                    }
                }
            }
        }
    }
    // no schedule at all
    for act in 0..2 {
        for collect in 0..2 {
            v.push(Sched { mode: 0, cliff: 30_000_000, periods: 0, freq: 0, red: 0, act, collect });
        }
    }
    let span = cx.pick(4u64, 40);
    cx.cases("schedule", &v, |s, t| {
        let mut p = params();
        deep(&mut p);
        scheduler(&mut p, s.mode, s.cliff, s.periods, s.freq, s.red);
        p.collect_fee_mode = s.collect;
        p.activation_type = s.act;
        let keys = Pool::named("A", key("quote"), SPL, false);
        if crate::refcfg::config(&p, crate::refcfg::Quote::Spl, &keys, 1_700_000_000).is_none() {
            t.hit("invalid schedule");
            return Ok(());
        }
        let w = build_world("schedule", &p, false)?;
        let pool = &w.w.p;
        let c = w.w.c();
        let act = w.w.s().activation_point;
        let n = s.periods as u64;
        let mut ks: Vec<u64> = (0..=span.min(n + 1)).chain([n / 2, n.saturating_sub(1), n, n + 1, n + 2]).collect();
        // numbers of periods with one or two bits set, and all bits below one
        for i in 0..16 {
            ks.extend([1u64 << i, (1 << i) - 1].into_iter().chain((0..i).map(|j| 1 << i | 1 << j)).filter(|k| *k < n));
        }
        ks.sort();
        ks.dedup();
        let f = s.freq.max(1);
        let mut ts: Vec<u64> = ks.iter().flat_map(|k| [(k * f).saturating_sub(1), k * f, k * f + 1]).chain([u32::MAX as u64, 1 << 40]).collect();
        ts.sort();
        ts.dedup();
        let mut last = u64::MAX;
        // tokens to sell
        let mut stock = w.w.bank.clone();
        stock.advance(1 << 50, 1 << 50);
        stock = drive(&stock, pool, &[Act::buy(DEEP_TRADE * 300)])?;
        stock.now = w.w.bank.now.clone();
        for dt in ts {
            let mut bank = stock.clone();
            bank.advance(dt, dt);
            for act_ in [Act::buy(DEEP_TRADE), Act::sell(DEEP_TRADE), Act::swap(true, 2, DEEP_TRADE), Act::swap(false, 2, DEEP_TRADE / 400)] {
                let r = run_tx(&bank, std::slice::from_ref(pool), &ix1(act_)).map_err(|e| format!("{dt} after activation: {act_:?}: {e}"))?;
                t.transitions += 1;
                ensure(r.ok, || format!("{dt} after activation {act_:?} was refused: {:?}", r.out.err))?;
                let fee = r.effs[0].trade.unwrap();
                let on = if fee.fee_on_input { fee.paid } else { fee.curve_out };
                // what was charged, rounded to the nearest billionth
                let got = (fee.fees.total() as u128 * 1_000_000_000 + on as u128 / 2) / on as u128;
                let k = if s.freq == 0 { 0 } else { (dt / s.freq).min(n) };
                let want = if s.mode == 0 { (s.cliff - s.red * k) as f64 } else { s.cliff as f64 * (1.0 - s.red as f64 / 10_000.0).powi(k as i32) };
                ensure((got as f64 - want).abs() <= 1.0 + want * 1e-9, || format!("{dt} after activation the fee is {got}, the schedule says {want}"))?;
                ensure(got >= 2_500_000 - 1, || format!("fee {got} below the minimum"))?;
                if act_ == Act::buy(DEEP_TRADE) {
                    ensure(got as u64 <= last, || format!("fee rises from {last} to {got} at {dt}"))?;
                    last = got as u64;
                }
            }
        }
        let _ = (c, act);
        t.hit(["linear", "exponential"][s.mode as usize]);
        Ok(())
    });
}

/// P07: size-dependent fee of the rate limiter
#[derive(Debug, Clone)]
struct Lim {
    cliff: u64,
    inc: u16,
    dur: u64,
    unit: u64,
    act: u8,
    dynamic: bool,
}
pub fn p07(cx: &Cx) {
    let mut v = vec![];
    let cliffs: &[u64] = cx.pick(&[10_000_000, 600_000_000], &[2_500_000, 10_000_000, 99_999_999, 600_000_000, 989_000_000]);
    let incs: &[u16] = cx.pick(&[1, 100, 2500], &[1, 2, 10, 100, 777, 2500, 9000, 9799]);
    for cliff in cliffs {
        for inc in incs {
            for dur in [1, 60, 43_200] {
                for unit in [1u64, 1000, 50_001, 1_000_000_000] {
                    for act in 0..2 {
                        for dynamic in [false, true] {
                            if dynamic && dur != 60 {
                                continue;
                            }
                            v.push(Lim { cliff: *cliff, inc: *inc, dur, unit, act, dynamic });
                        }
                    }
                }
            }
        }
    }
    let steps = cx.pick(6u64, 24);
    cx.cases("limiter", &v, |s, t| {
        let mut p = params();
        deep(&mut p);
        limiter(&mut p, s.cliff, s.inc, s.dur, s.unit);
        p.activation_type = s.act;
        if s.dynamic {
            p.pool_fees.dynamic_fee = Some(dyn_fee());
        }
        let keys = Pool::named("A", key("quote"), SPL, false);
        if crate::refcfg::config(&p, crate::refcfg::Quote::Spl, &keys, 1_700_000_000).is_none() {
            t.hit("invalid limiter");
            return Ok(());
        }
        let w = build_world("limiter", &p, false)?;
        let pool = &w.w.p;
        let m = (990_000_000 - s.cliff) / (s.inc as u64 * 100_000);
        let mut ks: Vec<u64> = (1..=steps).chain([m.saturating_sub(1), m, m + 1, m + 2, m + 50]).filter(|k| *k > 0).collect();
        ks.sort();
        ks.dedup();
        let mut amounts: Vec<u64> = ks.iter().flat_map(|k| [k * s.unit - 1, k * s.unit, k * s.unit + 1, k * s.unit + s.unit / 2]).filter(|a| *a > 0 && *a < 1 << 58).collect();
        amounts.extend([1, 2, DEEP_TRADE / 100]);
        amounts.sort();
        amounts.dedup();
        let stock = {
            let mut b = w.w.bank.clone();
            b.advance(200_000, 200_000);
            let b = drive(&b, pool, &[Act::buy(DEEP_TRADE)])?;
            let mut b2 = b;
            b2.now = w.w.bank.now.clone();
            b2
        };
        let rate = |t: &Trade| {
            let on = if t.fee_on_input { t.paid } else { t.curve_out };
            (t.fees.total() as u128, on as u128)
        };
        for (dt, inside) in [(0, true), (s.dur.saturating_sub(1), true), (s.dur, true), (s.dur + 1, false), (s.dur + 100_000, false)] {
            let mut bank = stock.clone();
            bank.advance(dt, dt);
            let mut last: Option<(u128, u128)> = None;
            for a in &amounts {
                for act in [Act::buy(*a), Act::swap(true, 1, *a), Act::swap(true, 2, *a), Act::sell(*a), Act::swap(false, 2, *a)] {
                    let r = run_tx(&bank, std::slice::from_ref(pool), &ix1(act)).map_err(|e| format!("{dt} after activation: {act:?}: {e}"))?;
                    t.transitions += 1;
                    let Some(x) = r.effs.first().and_then(|e| e.trade) else { continue };
                    let (f, on) = rate(&x);
                    if s.dynamic {
                        continue;
                    }
                    let n = 1_000_000_000u128;
                    let buy = matches!(act, Act::Swap { buy: true, .. });
                    ensure(f * n >= on * s.cliff as u128, || format!("{act:?}: fee {f} on {on} is below the base rate"))?;
                    if !(inside && buy) {
                        ensure(f * n < on * s.cliff as u128 + n, || format!("{act:?} {dt} after activation pays {f} on {on}: only purchases inside the window pay more than the base rate"))?;
                        continue;
                    }
                    // exact sum of the tranches: cliff on the first unit, then rising by the increment, at most 99 %
                    let want = tranches(on, s);
                    let tol = 2 + on / 1_000_000_000 + 1;
                    let slack = if matches!(act, Act::Swap { mode: 2, .. }) { 6 + on * 4 / 1_000_000_000 } else { tol };
                    ensure(f + 1 >= want.saturating_sub(slack) && f <= want + slack, || format!("{act:?}: fee {f} on {on}, tranches give {want}"))?;
                    if matches!(act, Act::Swap { mode: 0, .. }) {
                        if let Some((lf, lon)) = last {
                            ensure(f + tol >= lf, || format!("fee falls from {lf} to {f} as the amount grows to {on}"))?;
                            // nor does the average rate, up to rounding
                            ensure((f + tol) * lon >= lf.saturating_sub(tol) * on, || format!("rate falls from {lf}/{lon} to {f}/{on}"))?;
                        }
                        last = Some((f, on));
                    }
                }
            }
        }
        t.hit("limiter");
        Ok(())
    });
}
fn tranches(amount: u128, s: &Lim) -> u128 {
    let (mut left, mut fee, u) = (amount, 0u128, s.unit as u128);
    let inc = s.inc as u128 * 100_000;
    let m = (990_000_000 - s.cliff as u128) / inc;
    // first unit plus m more at individual rates
    for k in 0..=m {
        let x = left.min(u);
        fee += x * (s.cliff as u128 + inc * k);
        left -= x;
        if left == 0 {
            break;
        }
    }
    (fee + left * 990_000_000) / 1_000_000_000
}

/// P08: inside the limiter's window a transaction holds one purchase
pub fn p08(cx: &Cx) {
    let mut scns = vec![];
    for act in 0..2u8 {
        for first in [false, true] {
            let mut p = params();
            limiter(&mut p, 10_000_000, 100, 60, 5_000);
            p.activation_type = act;
            p.enable_first_swap_with_min_fee = first;
            let Some(two) = two_pools(&p) else { continue };
            for (tn, dt) in [("start", 0), ("edge", 60), ("after", 61)] {
                let mut b = two.0.clone();
                b.advance(dt, dt);
                let len = cx.pick(3, 4);
                let mut s = scn(format!("act{act}-first{}-{tn}", first as u8), &b, &two.1, 1, move |_| shapes(len));
                s.pools.push(two.2.clone());
                scns.push(s.inv(vec![], one_purchase));
            }
        }
    }
    cx.bfs(scns);
    // the transaction record must be the genuine one
    let mut p = params();
    limiter(&mut p, 10_000_000, 100, 60, 5_000);
    let Ok(w) = build_world("sysvar", &p, false) else { return };
    let mut cases = vec![];
    for edit in 0..6 {
        for buy in [true, false] {
            for mode in 0..4u8 {
                for dt in [0u64, 60, 61] {
                    cases.push((edit, buy, mode, dt));
                }
            }
        }
    }
    cx.cases("transaction-record", &cases, |(edit, buy, mode, dt), t| {
        let pool = &w.w.p;
        let mut b = drive(&w.w.bank, pool, &[Act::buy(20_000)])?;
        let fake = key("fake instructions");
        let sys = anchor_lang::solana_program::sysvar::instructions::ID;
        b.put(fake, Acc { lamports: 1, data: vec![0; 64], owner: anchor_lang::solana_program::sysvar::ID, executable: false });
        b.advance(*dt, *dt);
        let mut i = if *mode == 3 { pool.ix_swap_v1(&key("trader"), *buy, 3000, 0, None) } else { pool.ix_swap(&key("trader"), *buy, *mode, 3000, if *mode == 2 { u64::MAX } else { 0 }, None) };
        let last = i.accounts.len() - 1;
        ensure(i.accounts[last].pubkey == sys, || "fixture".into())?;
        match edit {
            0 => {}
            1 => {
                i.accounts.pop();
            }
            2 => i.accounts[last].pubkey = fake,
            3 => i.accounts[last].pubkey = anchor_lang::solana_program::sysvar::clock::ID,
            4 => {
                i.accounts[last].pubkey = fake;
                i.accounts.push(anchor_lang::prelude::AccountMeta::new_readonly(sys, false));
            }
            _ => i.accounts.push(anchor_lang::prelude::AccountMeta::new_readonly(fake, false)),
        }
        let out = b.exec1(i);
        let needed = *buy && *dt <= 60;
        let genuine = matches!(edit, 0 | 5);
        t.hit(format!("{} {}", if genuine { "genuine" } else { "missing or forged" }, if out.ok() { "ok" } else { "refused" }));
        ensure(out.ok() == (genuine || !needed), || format!("window={needed} edit={edit}: {:?}", out.err))
    });
}
/// pool A and pool B under separate copies of the same configuration; the traders own base of both
fn two_pools(p: &ConfigParameters) -> Option<(Bank, Pool, Pool)> {
    let w = build_world("A", p, false).ok()?;
    let mut b = w.w.bank.clone();
    let q = Pool::named("B", key("quote"), SPL, false);
    for i in [q.ix_create_config(p), q.ix_init_pool()] {
        if !b.exec1(i).ok() {
            return None;
        }
    }
    put_user_atas(&mut b, &q, 1 << 60);
    put_external(&mut b, &q);
    for x in [&w.w.p, &q] {
        b = drive(&b, x, &[Act::buy(30_000)]).ok()?;
    }
    Some((b, w.w.p, q))
}
fn shapes(len: usize) -> Vec<Tx> {
    let s = |pool, act| Step { pool, act };
    let buy = |a| Act::buy(a);
    let legacy = Act::Swap { who: "trader", buy: true, mode: 0, a0: 900, a1: 0, referral: None, legacy: true };
    let idle = Act::ClaimPartner { who: "partner", a: 0, b: 0 };
    let v1 = |levels, steps: Vec<Step>, mention: Vec<usize>| Top::Via { levels, steps, mention };
    let tops = vec![
        Top::Ix(s(0, buy(1000))),
        Top::Ix(s(0, Act::swap(true, 2, 500))),
        Top::Ix(s(0, legacy)),
        Top::Ix(s(0, Act::swap(true, 1, 800))),
        Top::Ix(s(0, Act::sell(700))),
        Top::Ix(s(0, Act::swap(false, 1, 710))),
        Top::Ix(s(0, Act::swap(false, 2, 90))),
        Top::Ix(s(0, Act::ClaimPartner { who: "partner", a: 0, b: 0 })),
        Top::Ix(s(1, buy(1100))),
        v1(1, vec![s(0, buy(1200))], vec![]),
        v1(1, vec![s(0, Act::sell(300))], vec![]),
        v1(1, vec![s(0, Act::swap(true, 1, 430)), s(0, buy(530))], vec![]),
        v1(1, vec![s(0, Act::swap(true, 2, 220)), s(0, buy(530))], vec![]),
        v1(1, vec![s(0, legacy), s(0, legacy)], vec![]),
        v1(2, vec![s(0, buy(1300))], vec![]),
        v1(1, vec![s(0, buy(400)), s(0, buy(500))], vec![]),
        v1(1, vec![s(0, Act::sell(40)), s(0, buy(50))], vec![]),
        v1(1, vec![s(1, buy(60)), s(0, buy(70))], vec![]),
        // other instructions between two purchases by the same program
        v1(1, vec![s(0, buy(410)), s(0, idle), s(0, buy(510))], vec![]),
        v1(1, vec![s(0, idle), s(0, buy(420)), s(0, idle), s(0, idle), s(0, buy(520)), s(0, idle)], vec![]),
        v1(1, vec![], vec![0]),
        v1(1, vec![], vec![1]),
    ];
    let mut v: Vec<Tx> = vec![];
    let mut level: Vec<Tx> = vec![vec![]];
    for _ in 0..len {
        level = level.iter().flat_map(|t| tops.iter().map(move |x| [t.clone(), vec![x.clone()]].concat())).collect();
        v.extend(level.clone());
    }
    v
}
fn one_purchase(v: &View, _g: &mut Vec<i128>) -> Result<(), String> {
    if !v.ran.ok {
        return Ok(());
    }
    for (i, p) in v.pools.iter().enumerate() {
        let c = p.cfg(v.before);
        if !limiter_applies(&c, now_point(&c, v.before), p.state(v.before).activation_point, true) {
            continue;
        }
        let mut n = 0;
        let mut nested = false;
        for t in v.tx {
            let (l, steps) = match t {
                Top::Ix(s) => (0, std::slice::from_ref(s)),
                Top::Via { levels, steps, .. } => (*levels, steps.as_slice()),
            };
            for s in steps.iter().filter(|s| s.pool == i && matches!(s.act, Act::Swap { buy: true, .. })) {
                let _ = s;
                n += 1;
                nested |= l > 1;
            }
        }
        ensure(n <= 1, || format!("{n} purchases from pool {i} in one transaction inside the limiter's window"))?;
        ensure(!nested, || "a purchase nested below another program's call inside the limiter's window".into())?;
    }
    Ok(())
}

/// P09: the volatility surcharge
pub fn p09(cx: &Cx) {
    let mut scns = vec![];
    let kinds: Vec<(&str, DynamicFeeParameters)> = vec![
        ("usual", dyn_fee()),
        ("strong", DynamicFeeParameters { variable_fee_control: 90_000, ..dyn_fee() }),
        ("short", DynamicFeeParameters { filter_period: 1, decay_period: 2, reduction_factor: 9_999, max_volatility_accumulator: 300_000, ..dyn_fee() }),
        ("forgetful", DynamicFeeParameters { reduction_factor: 0, max_volatility_accumulator: 40_000, ..dyn_fee() }),
        ("saturated", DynamicFeeParameters { max_volatility_accumulator: 0xff_ffff, variable_fee_control: 0xff_ffff, ..dyn_fee() }),
        // the smallest surcharge there is: one part in ten to the eleventh, charged as one in a billion
        ("faint", DynamicFeeParameters { max_volatility_accumulator: 1, variable_fee_control: 1, ..dyn_fee() }),
    ];
    for (n, d) in kinds {
        for collect in 0..2 {
            for base in [10_000_000u64, 980_000_000] {
                let mut p = params();
                deep(&mut p);
                scheduler(&mut p, 0, base, 0, 0, 0);
                p.collect_fee_mode = collect;
                p.pool_fees.dynamic_fee = Some(d);
                let Some(w) = build_all(cx, vec![(format!("{n}-c{collect}-{base}"), p, false)]).pop() else { continue };
                let (f, y) = (d.filter_period as u64, d.decay_period as u64);
                scns.push(
                    scn(w.name.clone(), &w.w.bank, &w.w.p, cx.pick(5, 6), move |_| {
                        let t = DEEP_TRADE;
                        // the second amount crosses one price bin, the smallest step the tracker reacts to
                        let mut v = vec![ix1(Act::buy(t * 4)), ix1(Act::buy(t * 3 / 20)), ix1(Act::buy(t * 60)), ix1(Act::sell(t)), ix1(Act::sell(t * 40)), ix1(Act::buy(7))];
                        for s in [1, f - 1, f, f + 1, y - 1, y, y + 1] {
                            if s > 0 {
                                v.push(ix1(Act::Advance { secs: s, slots: 1 }));
                            }
                        }
                        v
                    })
                    .inv(vec![], surcharge),
                );
            }
        }
    }
    cx.bfs(scns);
}
fn surcharge(v: &View, _g: &mut Vec<i128>) -> Result<(), String> {
    let Some(Act::Swap { .. }) = v.act() else { return Ok(()) };
    let Some(t) = v.ran.effs.first().and_then(|e| e.trade) else { return Ok(()) };
    let p = v.p();
    let (c, a, b) = (p.cfg(v.before), p.state(v.before), p.state(v.after()));
    let d = &c.pool_fees.dynamic_fee;
    let cap = d.max_volatility_accumulator as u128;
    ensure(b.volatility_tracker.volatility_accumulator <= cap, || format!("volatility {} above its cap {cap}", { b.volatility_tracker.volatility_accumulator }))?;
    let base = c.pool_fees.base_fee.cliff_fee_numerator as u128;
    let most = {
        let x = cap * d.bin_step as u128;
        (base + (x * x * d.variable_fee_control as u128 + 99_999_999_999) / 100_000_000_000).min(990_000_000)
    };
    let on = if t.fee_on_input { t.paid } else { t.curve_out } as u128;
    let f = t.fees.total() as u128;
    let n = 1_000_000_000u128;
    ensure(f * n >= on * base, || format!("fee {f} on {on} is below the base fee"))?;
    ensure(f * n < on * most + n, || format!("fee {f} on {on} exceeds base fee plus the largest surcharge {most}"))?;
    // a pool that never moved pays no surcharge
    if a.volatility_tracker.volatility_accumulator == 0 {
        ensure(f * n < on * base + n, || "surcharge without volatility".into())?;
    }
    Ok(())
}

/// P10: the reduced first-purchase fee applies only to the swap bundled with the pool's creation
pub fn p10(cx: &Cx) {
    let mut scns = vec![];
    for (kind, dear) in [(3usize, false), (4, false), (5, false), (0, false), (3, true), (5, true)] {
        for on in [true, false] {
            for t22 in [false, true] {
                for dynamic in [false, true] {
                    let mut p = params();
                    if dear {
                        // one token costs 65536: small purchases deliver nothing
                        (p.sqrt_start_price, p.migration_quote_threshold, p.curve) = (P1 << 8, 90_000_000, vec![pt(P1 << 10, 400_000 << 64)]);
                    }
                    fee_kinds(&mut p, kind);
                    p.token_type = t22 as u8;
                    p.enable_first_swap_with_min_fee = on;
                    if dynamic {
                        p.pool_fees.dynamic_fee = Some(dyn_fee());
                    }
                    let Some((b, pa, pb)) = unborn(&p) else {
                        cx.fail(Bad { scn: format!("first-fee{kind}"), path: vec![], msg: "a valid configuration could not be created".into(), acts: vec![] });
                        continue;
                    };
                    let len = cx.pick(3, 4);
                    let mut s = scn(format!("first-fee{kind}-on{}-t22{}-dyn{}{}", on as u8, t22 as u8, dynamic as u8, if dear { "-dear" } else { "" }), &b, &pa, 1, move |_| first_shapes(len, if dear { 1000 } else { 1 }));
                    s.pools.push(pb);
                    scns.push(s.inv(vec![], first_discount));
                }
            }
        }
    }
    cx.bfs(scns);
}
/// two configurations, no pools yet
fn unborn(p: &ConfigParameters) -> Option<(Bank, Pool, Pool)> {
    let mut b = base_bank();
    put_mint(&mut b, key("quote"), 6, u64::MAX / 2, Some(key("faucet")), None, SPL);
    let mk = |t: &str| Pool::named(t, key("quote"), SPL, p.token_type == 1);
    let (x, y) = (mk("A"), mk("B"));
    for q in [&x, &y] {
        if !b.exec1(q.ix_create_config(p)).ok() {
            return None;
        }
        put_user_atas(&mut b, q, 1 << 60);
    }
    Some((b, x, y))
}
fn first_shapes(len: usize, scale: u64) -> Vec<Tx> {
    let s = |pool, act| Step { pool, act };
    let b = |a| Act::buy(a * scale);
    let referral = Act::Swap { who: "trader", buy: true, mode: 0, a0: 2000 * scale, a1: 0, referral: Some("referrer"), legacy: false };
    let legacy = Act::Swap { who: "trader", buy: true, mode: 0, a0: 2100 * scale, a1: 0, referral: None, legacy: true };
    let via = |levels, steps: Vec<Step>| Top::Via { levels, steps, mention: vec![] };
    let tops = vec![
        Top::Ix(s(0, Act::Init)),
        Top::Ix(s(1, Act::Init)),
        via(1, vec![s(0, Act::Init)]),
        Top::Ix(s(0, b(2200))),
        Top::Ix(s(0, Act::buy(3))),
        // all of it is fee
        Top::Ix(s(0, Act::buy(1))),
        Top::Ix(s(0, Act::swap(true, 2, 900 / scale.min(300)))),
        Top::Ix(s(0, Act::swap(true, 1, 2300 * scale))),
        Top::Ix(s(0, referral)),
        Top::Ix(s(0, legacy)),
        Top::Ix(s(1, b(2400))),
        via(1, vec![s(0, b(2500))]),
        via(1, vec![s(0, Act::Init), s(0, b(2600))]),
        Top::Ix(s(0, Act::sell(100))),
    ];
    let mut v: Vec<Tx> = vec![];
    let mut level: Vec<Tx> = vec![vec![]];
    for _ in 0..len {
        level = level.iter().flat_map(|t| tops.iter().map(move |x| [t.clone(), vec![x.clone()]].concat())).collect();
        v.extend(level.clone());
    }
    v
}
fn first_discount(v: &View, _g: &mut Vec<i128>) -> Result<(), String> {
    if !v.ran.ok {
        return Ok(());
    }
    // every swap: recompute which are entitled, from the shape of the transaction alone
    let mut seen = [false; 2];
    let mut swapped = [false; 2];
    let mut k = 0;
    for t in v.tx {
        let (direct, steps) = match t {
            Top::Ix(s) => (true, std::slice::from_ref(s)),
            Top::Via { steps, .. } => (false, steps.as_slice()),
        };
        for s in steps {
            let eff = &v.ran.effs[k];
            k += 1;
            if s.act == Act::Init && direct {
                seen[s.pool] = true;
            }
            if let (Act::Swap { referral, buy, .. }, Some(tr)) = (s.act, eff.trade) {
                let c = v.pools[s.pool].cfg(v.after());
                let entitled = direct && seen[s.pool] && !swapped[s.pool] && referral.is_none() && c.enable_first_swap_with_min_fee == 1;
                swapped[s.pool] = true;
                if !buy {
                    continue;
                }
                let base = &c.pool_fees.base_fee;
                let on = if tr.fee_on_input { tr.paid } else { tr.curve_out } as u128;
                let f = tr.fees.total() as u128 * 1_000_000_000;
                let least = match base.base_fee_mode {
                    0 => base.cliff_fee_numerator - base.first_factor as u64 * base.third_factor,
                    1 => (base.cliff_fee_numerator as f64 * (1.0 - base.third_factor as f64 / 1e4).powi(base.first_factor as i32)) as u64,
                    _ => base.cliff_fee_numerator,
                } as u128;
                let reduced = f < on * (least + 1) + 1_000_000_000;
                // one token is all fee either way
                let differs = on > 1 && (base.base_fee_mode == 2 && on > base.third_factor as u128 * 3 || base.base_fee_mode < 2 && base.first_factor > 0);
                if entitled {
                    ensure(reduced, || format!("the first bundled purchase paid {}", tr.fees.total()))?;
                } else if differs {
                    ensure(!reduced, || format!("a purchase not entitled to it paid the reduced fee {}", tr.fees.total()))?;
                }
            }
        }
    }
    Ok(())
}
