pub use crate::env::*;
pub use crate::explore::*;
pub use crate::lock::*;
pub(crate) use crate::mocks;
pub use crate::refm::*;
pub use crate::refmath::*;
pub use crate::svm::*;
pub use crate::worlds::*;
pub use ::dynamic_bonding_curve as dbc;
pub use anchor_lang::prelude::Pubkey;
pub use dbc::params::fee_parameters::*;
pub use dbc::state::{PoolConfig, VirtualPool};
pub use dbc::*;
pub use num_bigint::BigUint;
pub use num_traits::ToPrimitive;

pub const BIG: u64 = 1 << 50;

/// build worlds; a world that cannot be built is reported
pub fn build_all(cx: &Cx, list: Vec<(String, ConfigParameters, bool)>) -> Vec<W> {
    let mut v = vec![];
    for (n, p, q) in list {
        match build_world(&n, &p, q) {
            Ok(w) => v.push(w),
            Err(e) => {
                if !cx.skip(&n) {
                    cx.fail(Bad { scn: n.clone(), path: vec![], msg: format!("a valid configuration and pool could not be created: {e}"), acts: vec![] })
                }
            }
        }
    }
    v
}
pub fn zoo_worlds(cx: &Cx) -> Vec<W> {
    build_all(cx, zoo(cx.pick(2, 3)))
}
/// run actions that must all be accepted
pub fn drive(bank: &Bank, p: &Pool, acts: &[Act]) -> Result<Bank, String> {
    let mut b = bank.clone();
    for a in acts {
        let r = run_tx(&b, std::slice::from_ref(p), &ix1(*a)).map_err(|e| format!("{a:?}: {e}"))?;
        if !r.ok {
            return Err(format!("{a:?} was refused {:?}", r.out.err));
        }
        b = r.bank;
    }
    Ok(b)
}
/// `drive`, reporting problems under the scenario name
pub fn drive_or(cx: &Cx, name: &str, bank: &Bank, p: &Pool, acts: &[Act]) -> Option<Bank> {
    match drive(bank, p, acts) {
        Ok(b) => Some(b),
        Err(m) => {
            if !cx.skip(name) {
                cx.fail(Bad { scn: name.into(), path: vec![], msg: format!("set-up history failed: {m}"), acts: acts.iter().map(|a| format!("{a:?}")).collect() });
            }
            None
        }
    }
}
/// a few trades leaving every fee counter non-zero
pub fn mid_acts(w: &W) -> Result<Vec<Act>, String> {
    let (p, t) = (&w.w.p, w.w.c().migration_quote_threshold);
    let r = |buy, mode, a0| Act::Swap { who: "trader", buy, mode, a0, a1: if mode == 2 { u64::MAX } else { 0 }, referral: Some("referrer"), legacy: false };
    let mut v = vec![r(true, 1, t / 3), Act::buy(t / 20)];
    let b = drive(&w.w.bank, p, &v)?;
    let back = b.tokens(&p.base_ata(&key("trader"))) / 3;
    if back > 0 {
        v.push(r(false, 1, back));
    }
    Ok(v)
}
pub fn finish_acts(w: &W) -> Vec<Act> {
    let c = w.w.c();
    let mut v = vec![Act::swap(true, 1, if c.migration_quote_threshold > BIG / 2 { 1 << 62 } else { BIG })];
    if has_vest(&c) {
        v.push(Act::Locker { creator: "creator" });
    }
    v
}
pub fn migrate_acts(w: &W) -> Vec<Act> {
    if w.w.c().migration_option == 0 {
        vec![Act::V1Meta, Act::MigrateV1]
    } else {
        vec![Act::MigrateV2 { second: true }]
    }
}
/// fresh, traded, completed, ready to migrate, migrated
pub fn stages(cx: &Cx, w: &W) -> Vec<(String, Bank)> {
    let p = &w.w.p;
    let mut v = vec![(format!("{}/fresh", w.name), w.w.bank.clone())];
    let mut b = w.w.bank.clone();
    let f = finish_acts(w);
    let mid = match mid_acts(w) {
        Ok(m) => m,
        Err(m) => {
            let scn = format!("{}/traded", w.name);
            if !cx.skip(&scn) {
                cx.fail(Bad { scn, path: vec![], msg: format!("set-up history failed: {m}"), acts: vec![] });
            }
            return v;
        }
    };
    let parts: Vec<(&str, Vec<Act>)> = vec![("traded", mid), ("complete", f[..1].to_vec()), ("locked", f[1..].to_vec()), ("migrated", migrate_acts(w))];
    for (n, acts) in parts {
        if acts.is_empty() {
            continue;
        }
        let name = format!("{}/{n}", w.name);
        match drive_or(cx, &name, &b, p, &acts) {
            Some(x) => b = x,
            None => break,
        }
        v.push((name, b.clone()));
    }
    v
}
/// amounts that move the price exactly to each neighbouring segment boundary, with neighbours, plus small ones
pub fn edge_amounts(c: &PoolConfig, s: &VirtualPool, now: u64, buy: bool, mode: u8, near: usize) -> Vec<u64> {
    let mut v = vec![1, 2, 1000];
    let p = s.sqrt_price;
    let fee_in = buy && c.collect_fee_mode == 0;
    let mut acc_in = BigUint::from(0u8);
    let mut acc_out = BigUint::from(0u8);
    let mut seen = 0;
    let push = |v: &mut Vec<u64>, x: &BigUint| {
        if let Some(x) = x.to_u64() {
            for d in [x.wrapping_sub(1), x, x.saturating_add(1)] {
                v.push(d);
            }
        }
    };
    let rate = |a: Amt| total_fee(c, s, now, buy, a);
    let mut edge = |v: &mut Vec<u64>, i: &BigUint, o: &BigUint| {
        let x = if mode == 2 { o } else { i };
        let Some(x64) = x.to_u64() else { return };
        if mode == 2 && !fee_in {
            // net of the fee on the output
            if let Some((n, _)) = rate(Amt::Included(x64)).map(|n| take(x64, n)) {
                push(v, &BigUint::from(n));
            }
        } else if mode != 2 && fee_in {
            if let Some((g, _)) = rate(Amt::Excluded(x64)).and_then(|n| gross(x64, n)) {
                push(v, &BigUint::from(g));
            }
        } else {
            push(v, x);
        }
    };
    let segs = segments(c);
    if buy {
        for (_, top, l) in segs {
            let hi = top.min(c.migration_sqrt_price);
            if hi <= p || seen == near {
                continue;
            }
            let lo = if seen == 0 { p } else { segments(c).iter().map(|x| x.0).filter(|x| *x > p && *x < hi).max().unwrap_or(p) };
            acc_in += d_quote(lo, hi, l, true);
            acc_out += d_base(lo, hi, l, false);
            seen += 1;
            edge(&mut v, &acc_in, &acc_out);
        }
    } else {
        let mut at = p;
        for (lo, _, l) in segs.into_iter().rev() {
            if lo >= at || seen == near {
                continue;
            }
            acc_in += d_base(lo, at, l, true);
            acc_out += d_quote(lo, at, l, false);
            at = lo;
            seen += 1;
            edge(&mut v, &acc_in, &acc_out);
        }
    }
    v.sort();
    v.dedup();
    v.retain(|x| *x > 0);
    v
}
pub fn all_swaps(c: &PoolConfig, s: &VirtualPool, now: u64, near: usize) -> Vec<Tx> {
    let mut v = vec![];
    for buy in [true, false] {
        for m in 0..3 {
            for a in edge_amounts(c, s, now, buy, m, near) {
                v.push(ix1(Act::swap(buy, m, a)));
            }
        }
    }
    v
}
/// exact curve integrals from the start price: (quote << 128, base as numerator/denominator)
pub fn exact_quote(c: &PoolConfig, p: u128) -> BigUint {
    let mut t = BigUint::from(0u8);
    for (lo, hi, l) in segments(c) {
        let hi = hi.min(p);
        if hi > lo {
            t += BigUint::from(l) * (hi - lo);
        }
    }
    t
}
pub fn exact_base_floor(c: &PoolConfig, p: u128) -> BigUint {
    // floor of the sum of rationals
    let (mut n, mut d) = (BigUint::from(0u8), BigUint::from(1u8));
    for (lo, hi, l) in segments(c) {
        let hi = hi.min(p);
        if hi > lo {
            let (a, b) = (BigUint::from(l) * (hi - lo), BigUint::from(lo) * hi);
            n = n * &b + a * &d;
            d *= b;
        }
    }
    n / d
}
pub fn quote_fees(s: &VirtualPool) -> u128 {
    s.partner_quote_fee as u128 + s.creator_quote_fee as u128 + s.protocol_quote_fee as u128
}
pub fn base_fee_sum(s: &VirtualPool) -> u128 {
    s.partner_base_fee as u128 + s.creator_base_fee as u128 + s.protocol_base_fee as u128
}
pub fn flat_min(p: &mut ConfigParameters) {
    scheduler(p, 0, MIN_FEE, 0, 0, 0);
}
pub fn ensure(b: bool, m: impl Fn() -> String) -> Result<(), String> {
    if b {
        Ok(())
    } else {
        Err(m())
    }
}
/// curves chosen for their boundary behaviour
pub fn curves() -> Vec<(&'static str, u128, u64, Vec<dbc::params::liquidity_distribution::LiquidityDistributionParameters>)> {
    let mut v = vec![];
    for k in 0..4 {
        let (a, b, c) = curve(k);
        v.push((["two", "one", "sixteen", "cheap"][k], a, b, c));
    }
    // segments that hold less than a handful of tokens
    v.push(("thin", P1, 403, (1..=12u128).map(|i| pt(P1 + P1 / 100 * i, (if i % 3 == 0 { 200_000 } else { 301 * i }) << 64)).collect()));
    // amounts near the top of the 64-bit range
    v.push(("wide", P1 / 2, 3_000_000_000_000_000_007, vec![pt(P1 * 3 / 2, (1u128 << 61) << 64), pt(P1 * 8, (1u128 << 62) << 64)]));
    // extreme prices
    v.push(("floor", MIN_SQRT, 1_003, vec![pt(MIN_SQRT * 1000, 1 << 94), pt(MIN_SQRT * 100_000, 1 << 99), pt(P1, 1 << 75)]));
    v.push(("dear", P1 << 20, 90_000_000_019, vec![pt(P1 << 21, 40_000 << 64), pt(P1 << 25, 90_000 << 64)]));
    // segments across which the price moves for less than one token
    v.push(("void", P1 / 2, 50_021, vec![pt(P1 * 3 / 4, 100_003 << 64), pt(P1 * 7 / 8, 1), pt(P1, 40_001 << 64), pt(P1 * 9 / 8, 1 << 61), pt(P1 * 2, 3_000_000 << 64)]));
    // liquidity falling and rising steeply
    v.push(("steps", P1 / 8, 600_007, vec![pt(P1 / 4, 3_000_000 << 64), pt(P1 / 2, 11 << 64), pt(P1, 900_000 << 64), pt(P1 * 2, 1 << 64), pt(P1 * 3, 50_000_000 << 64)]));
    v
}
pub fn with_curve(p: &mut ConfigParameters, k: &(&'static str, u128, u64, Vec<dbc::params::liquidity_distribution::LiquidityDistributionParameters>)) {
    p.sqrt_start_price = k.1;
    p.migration_quote_threshold = k.2;
    p.curve = k.3.clone();
}
