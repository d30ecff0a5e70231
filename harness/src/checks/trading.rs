//! P01-P04, P21: the curve, settlement and quotes
use super::common::*;

fn curve_worlds(cx: &Cx) -> Vec<W> {
    let mut v = vec![];
    for k in curves() {
        for collect in 0..2 {
            let mut p = params();
            flat_min(&mut p);
            with_curve(&mut p, &k);
            p.collect_fee_mode = collect;
            v.push((format!("curve-{}-c{collect}", k.0), p.clone(), false));
            // high fees, shared with a referrer and the creator
            scheduler(&mut p, 0, 300_000_000, 0, 0, 0);
            p.creator_trading_fee_percentage = 35;
            v.push((format!("curve-{}-c{collect}-referred", k.0), p, false));
        }
    }
    build_all(cx, v)
}
fn swap_scns(ws: Vec<W>, depth: usize, near: usize) -> Vec<Scn> {
    ws.into_iter()
        .map(|w| {
            let p = w.w.p.clone();
            let q = p.clone();
            let referred = w.name.ends_with("referred");
            scn(w.name.clone(), &w.w.bank, &p, depth, move |b| {
                let (c, s) = (q.cfg(b), q.state(b));
                let v = all_swaps(&c, &s, now_point(&c, b), near);
                if referred {
                    v.into_iter().map(refer).collect()
                } else {
                    v
                }
            })
        })
        .collect()
}
fn refer(mut t: Tx) -> Tx {
    for x in &mut t {
        if let Top::Ix(Step { act: Act::Swap { referral, .. }, .. }) = x {
            *referral = Some("referrer");
        }
    }
    t
}
/// every swap equals the exact integer evaluation of the configured curve
pub fn p01(cx: &Cx) {
    let s = swap_scns(curve_worlds(cx), cx.pick(3, 4), cx.pick(2, 3));
    cx.bfs(s.into_iter().map(|s| s.inv(vec![], curve_exact)).collect());
}
/// independent statement of the same thing: received amounts never exceed the exact real-valued curve
/// amount and fall short by less than one unit per touched segment (output) / price unit
fn curve_exact(v: &View, _g: &mut Vec<i128>) -> Result<(), String> {
    let Some(t) = v.ran.effs.first().and_then(|e| e.trade) else { return Ok(()) };
    let p = v.p();
    let (c, s0, s1) = (p.cfg(v.before), p.state(v.before), p.state(v.after()));
    let (lo, hi) = (s0.sqrt_price.min(s1.sqrt_price), s0.sqrt_price.max(s1.sqrt_price));
    let touched = segments(&c).iter().filter(|(a, b, _)| *a < hi && *b > lo).count() as u64 + 1;
    let q128: BigUint = exact_quote(&c, hi) - exact_quote(&c, lo);
    let one: BigUint = BigUint::from(1u8) << 128usize;
    // quote side against the exact integral
    let (quote, into_curve) = if t_buy(v) { (t.net_in, true) } else { (t.curve_out, false) };
    let quote: BigUint = BigUint::from(quote) * &one;
    if into_curve {
        ensure(quote >= q128, || format!("quote paid {} is below the exact curve cost", t.net_in))?;
    } else {
        ensure(quote <= q128, || format!("quote received {} is above the exact curve value", t.curve_out))?;
        ensure(&quote + &one * touched > q128, || format!("quote received {} is short of the curve value", t.curve_out))?;
    }
    let (bh, bl) = (exact_base_floor(&c, hi), exact_base_floor(&c, lo));
    let between = bh - bl; // within one unit of the exact amount
    let base = if t_buy(v) { t.curve_out } else { t.net_in };
    if t_buy(v) {
        ensure(BigUint::from(base) <= &between + 1u8, || format!("base received {base} is above the exact curve amount"))?;
    } else {
        ensure(BigUint::from(base) + 1u8 >= between, || format!("base paid {base} is below the exact curve amount"))?;
    }
    Ok(())
}
fn t_buy(v: &View) -> bool {
    matches!(v.act(), Some(Act::Swap { buy: true, .. }))
}

/// no sequence of trades extracts value
pub fn p02(cx: &Cx) {
    let mut scns = swap_scns(curve_worlds(cx), cx.pick(2, 3), cx.pick(1, 2));
    // many tiny trades: deep chains of unit-sized amounts
    let tiny = curve_worlds(cx).into_iter().map(|w| {
        let p = w.w.p.clone();
        let referred = w.name.ends_with("referred");
        scn(format!("{}/tiny", w.name), &w.w.bank, &p, cx.pick(5, 7), move |_| {
            let mut v = vec![];
            for a in [1, 3, 401] {
                v.push(ix1(Act::buy(a)));
                v.push(ix1(Act::sell(a)));
            }
            v.push(ix1(Act::swap(true, 2, 1)));
            v.push(ix1(Act::swap(false, 2, 1)));
            if referred {
                v.into_iter().map(refer).collect()
            } else {
                v
            }
        })
    });
    scns.extend(tiny);
    cx.bfs(scns.into_iter().map(|s| s.inv(vec![], no_gain)).collect());
}
fn no_gain(v: &View, _g: &mut Vec<i128>) -> Result<(), String> {
    if !v.ran.ok {
        return Ok(());
    }
    let p = v.p();
    let b = v.after();
    let (c, s) = (p.cfg(b), p.state(b));
    let vault = b.tokens(&p.quote_vault) as u128;
    let net = vault.checked_sub(quote_fees(&s)).ok_or("quote vault holds less than the uncollected fees")?;
    ensure(net == s.quote_reserve as u128, || format!("recorded quote reserve {}, held {net}", s.quote_reserve))?;
    let exact = exact_quote(&c, s.sqrt_price);
    ensure((BigUint::from(net) << 128usize) >= exact, || format!("quote backing {net} is below the curve integral at the current price"))?;
    let supply = b.supply(&p.base_mint) as u128;
    let bvault = b.tokens(&p.base_vault) as u128;
    let out = (supply - bvault) + base_fee_sum(&s);
    ensure(BigUint::from(out) <= exact_base_floor(&c, s.sqrt_price), || format!("{out} base tokens left the curve, more than the curve sells up to this price"))?;
    // unwinding everything the traders hold never returns more than they paid
    let t = key("trader");
    let hold = b.tokens(&p.base_ata(&t));
    let start = v.root.tokens(&p.quote_ata(&t));
    let now = b.tokens(&p.quote_ata(&t));
    ensure(now <= start, || format!("trader has {} more quote than at the start while still holding {hold} base", now - start))?;
    if hold > 0 && s.quote_reserve < c.migration_quote_threshold {
        let mut x = b.clone();
        x.exec1(p.ix_swap(&t, false, 1, hold, 0, None));
        let end = x.tokens(&p.quote_ata(&t));
        ensure(end <= start, || format!("selling everything leaves the trader {} quote richer", end - start))?;
    }
    Ok(())
}

/// price moves only by trades, in the trade's direction, within [start, migration]
pub fn p03(cx: &Cx) {
    let mut scns = swap_scns(curve_worlds(cx), cx.pick(3, 4), 2);
    for w in zoo_worlds(cx) {
        let c = w.w.c();
        for (n, b) in stages(cx, &w) {
            let t = c.migration_quote_threshold;
            scns.push(scn(n, &b, &w.w.p, cx.pick(2, 3), move |_| {
                let mut v = other_ops();
                for m in 0..3 {
                    for a in [1, t / 7, BIG] {
                        v.push(ix1(Act::swap(true, m, a)));
                        v.push(ix1(Act::swap(false, m, a)));
                    }
                }
                v
            }));
        }
    }
    cx.bfs(
        scns.into_iter()
            .map(|s| {
                s.inv(vec![], |v, _| {
                    let p = v.p();
                    let (c, a, b) = (p.cfg(v.before), p.state(v.before).sqrt_price, p.state(v.after()).sqrt_price);
                    match v.act() {
                        Some(Act::Swap { buy, .. }) if v.ran.ok => {
                            ensure(if *buy { b >= a } else { b <= a }, || format!("price went from {a} to {b} on a {}", if *buy { "buy" } else { "sell" }))?
                        }
                        _ => ensure(a == b, || format!("price changed from {a} to {b} without a trade"))?,
                    }
                    ensure(b >= c.sqrt_start_price && b <= c.migration_sqrt_price, || format!("price {b} left [{}, {}]", c.sqrt_start_price, c.migration_sqrt_price))
                })
            })
            .collect(),
    );
}
/// everything except swaps, with the rightful actors
pub fn other_ops() -> Vec<Tx> {
    [
        Act::ClaimPartner { who: "partner", a: u64::MAX, b: u64::MAX },
        Act::ClaimCreator { who: "creator", a: u64::MAX, b: u64::MAX },
        Act::ClaimProtocol { op: "operator", who: "operator", a: u64::MAX, b: u64::MAX },
        Act::Zap { op: "operator", who: "operator", base: true, max: u64::MAX },
        Act::Zap { op: "operator", who: "operator", base: false, max: u64::MAX },
        Act::ProtCreationFee { op: "operator", who: "operator" },
        Act::PartnerCreationFee { who: "partner", to: "stranger" },
        Act::PartnerSurplus { who: "partner" },
        Act::CreatorSurplus { who: "creator" },
        Act::MigFee { who: "partner", flag: 0 },
        Act::MigFee { who: "creator", flag: 1 },
        Act::Leftover,
        Act::Transfer { who: "creator", new: "newcreator", meta: true },
        Act::Locker { creator: "creator" },
        Act::MigrateV2 { second: true },
        Act::MigrateV2 { second: false },
        Act::V1Meta,
        Act::MigrateV1,
        Act::V1Lock { owner: "partner" },
        Act::V1Lock { owner: "creator" },
        Act::V1Claim { owner: "partner", sender: "stranger" },
        Act::V1Claim { owner: "creator", sender: "stranger" },
        Act::Advance { secs: 13, slots: 31 },
    ]
    .into_iter()
    .map(ix1)
    .collect()
}

/// settlement, slippage, events
pub fn p04(cx: &Cx) {
    let mut scns = vec![];
    for w in zoo_worlds(cx) {
        for (n, b) in stages(cx, &w).into_iter().take(3) {
            let p = w.w.p.clone();
            scns.push(scn(n, &b, &w.w.p, cx.pick(1, 2), move |b| slippage_alphabet(b, &p)).inv(vec![], settled));
        }
    }
    cx.bfs(scns);
}
fn slippage_alphabet(b: &Bank, p: &Pool) -> Vec<Tx> {
    let (c, mut s) = (p.cfg(b), p.state(b));
    let now = now_point(&c, b);
    vol_pre(&c, &mut s, b.now.ts as u64);
    let t = c.migration_quote_threshold;
    let mut v = vec![];
    for buy in [true, false] {
        for mode in 0..3u8 {
            for a0 in [1, t / 11 + 1, BIG] {
                for referral in [None, Some("referrer")] {
                    let tr = trade(&c, &s, now, buy, mode, a0, referral.is_some(), false);
                    let bounds: Vec<u64> = match tr {
                        Some(t) => {
                            let x = if mode == 2 { t.paid } else { t.received };
                            vec![x.saturating_sub(1), x, x.saturating_add(1)]
                        }
                        None => vec![if mode == 2 { u64::MAX } else { 0 }],
                    };
                    for a1 in bounds {
                        for legacy in [false, true] {
                            if legacy && mode != 0 {
                                continue;
                            }
                            v.push(ix1(Act::Swap { who: "trader", buy, mode, a0, a1, referral, legacy }));
                        }
                    }
                }
            }
        }
    }
    v.push(ix1(Act::Swap { who: "trader", buy: true, mode: 3, a0: 5, a1: 0, referral: None, legacy: false }));
    v.push(ix1(Act::Swap { who: "trader", buy: true, mode: 0, a0: 0, a1: 0, referral: None, legacy: false }));
    v.push(ix1(Act::Swap { who: "trader", buy: false, mode: 2, a0: 0, a1: 0, referral: None, legacy: false }));
    v
}
fn settled(v: &View, _g: &mut Vec<i128>) -> Result<(), String> {
    let Some(Act::Swap { who: w, buy, mode, a0, a1, referral, .. }) = v.act() else { return Ok(()) };
    if !v.ran.ok {
        return ensure(v.before.accs == v.after().accs, || "a refused swap changed something".into());
    }
    let p = v.p();
    let d = |k: &Pubkey| v.after().tokens(k) as i128 - v.before.tokens(k) as i128;
    let k = who(w);
    let (inp, out, vin, vout) =
        if *buy { (p.quote_ata(&k), p.base_ata(&k), p.quote_vault, p.base_vault) } else { (p.base_ata(&k), p.quote_ata(&k), p.base_vault, p.quote_vault) };
    let (paid, got) = (-d(&inp), d(&out));
    ensure(paid >= 0 && got >= 0, || format!("trader paid {paid}, received {got}"))?;
    match mode {
        0 => ensure(paid == *a0 as i128 && got >= *a1 as i128, || format!("exact-in {a0} min {a1}: paid {paid} got {got}"))?,
        1 => ensure(paid <= *a0 as i128 && got >= *a1 as i128, || format!("partial fill {a0} min {a1}: paid {paid} got {got}"))?,
        _ => ensure(got == *a0 as i128 && paid <= *a1 as i128, || format!("exact-out {a0} max {a1}: paid {paid} got {got}"))?,
    }
    let mut refq = 0;
    if let Some(r) = referral {
        let c = p.cfg(v.before);
        let base = *buy && c.collect_fee_mode == 1;
        refq = d(&if base { p.base_ata(&who(r)) } else { p.quote_ata(&who(r)) });
        ensure(refq >= 0, || "referrer lost tokens".into())?;
        let (i, o) = if base == !*buy { (refq, 0) } else { (0, refq) };
        ensure(d(&vin) == paid - i && d(&vout) == -got - o, || format!("vaults moved {} and {} for paid {paid} got {got} referral {refq}", d(&vin), d(&vout)))?;
    } else {
        ensure(d(&vin) == paid && d(&vout) == -got, || format!("vaults moved {} and {} for paid {paid} got {got}", d(&vin), d(&vout)))?;
    }
    let _ = refq;
    ensure(v.ran.out.events().len() == 2 + (p.state(v.after()).migration_progress > 0) as usize, || "number of events".into())
}

/// off-chain quotes equal on-chain results
pub fn p21(cx: &Cx) {
    let mut scns = vec![];
    for w in zoo_worlds(cx) {
        let c = w.w.c();
        let t = c.migration_quote_threshold;
        for (n, b) in stages(cx, &w).into_iter().take(3) {
            let p = w.w.p.clone();
            scns.push(
                scn(n, &b, &w.w.p, 3, move |b| {
                    let (c, s) = (p.cfg(b), p.state(b));
                    let now = now_point(&c, b);
                    let mut v = vec![];
                    for buy in [true, false] {
                        for m in 0..3 {
                            for a in [1, t / 9, t, BIG] {
                                v.push(ix1(Act::swap(buy, m, a)));
                            }
                            let mut e = edge_amounts(&c, &s, now, buy, m, 1);
                            e.reverse();
                            v.extend(e.into_iter().take(2).map(|a| ix1(Act::swap(buy, m, a))));
                        }
                    }
                    for buy in [true, false] {
                        v.push(ix1(Act::Swap { who: "trader", buy, mode: 0, a0: t / 5, a1: 0, referral: Some("referrer"), legacy: false }));
                        v.push(ix1(Act::Swap { who: "trader", buy, mode: 1, a0: t, a1: 0, referral: Some("referrer"), legacy: false }));
                    }
                    v.push(ix1(Act::Advance { secs: 11, slots: 25 }));
                    v.push(ix1(Act::Advance { secs: 130, slots: 300 }));
                    v
                })
                .inv(vec![], parity),
            );
        }
    }
    // quotes for the bundled first purchase
    let ws: Vec<W> = zoo_worlds(cx);
    cx.bfs(scns);
    let cases: Vec<(usize, bool, u8, u64)> =
        (0..ws.len()).flat_map(|i| [true, false].into_iter().flat_map(move |b| (0..3u8).flat_map(move |m| [1, 999, 20_000].map(|a| (i, b, m, a))))).collect();
    cx.cases("first-swap-quote", &cases, |(i, buy, mode, a), t| {
        let w = &ws[*i];
        let (c, s) = (w.w.c(), w.w.s());
        let now = now_point(&c, &w.w.bank);
        for first in [false, true] {
            let q = sdk(&c, &s, &w.w.bank, *buy, *mode, *a, false, first);
            let m = trade(&c, &s, now, *buy, *mode, *a, false, first);
            t.hit(if m.is_some() { "quote" } else { "refused" });
            same_quote(&q, m)?;
        }
        Ok(())
    });
}
fn sdk(c: &PoolConfig, s: &VirtualPool, b: &Bank, buy: bool, mode: u8, a: u64, referral: bool, first: bool) -> Option<dbc::state::SwapResult2> {
    use dynamic_bonding_curve_sdk::*;
    let (ts, slot) = (b.now.ts as u64, b.now.slot);
    guarded(|| match mode {
        0 => quote_exact_in::quote_exact_in(s, c, !buy, ts, slot, a, referral, first),
        1 => quote_partial_fill::quote_partial_fill(s, c, !buy, ts, slot, a, referral, first),
        _ => quote_exact_out::quote_exact_out(s, c, !buy, ts, slot, a, first),
    })
    .ok()
    .and_then(|r| r.ok())
}
fn same_quote(q: &Option<dbc::state::SwapResult2>, m: Option<Trade>) -> Result<(), String> {
    match (q, m) {
        (None, None) => Ok(()),
        (Some(q), Some(m)) => {
            let a = (q.included_fee_input_amount, q.excluded_fee_input_amount, q.amount_left, q.output_amount, q.next_sqrt_price, q.trading_fee, q.protocol_fee, q.referral_fee);
            let b = (m.paid, m.net_in, m.left, m.received, m.price, m.fees.trading, m.fees.protocol, m.fees.referral);
            ensure(a == b, || format!("quoted {a:?}, the chain gives {b:?}"))
        }
        (q, m) => Err(format!("quote {} while the chain {}", if q.is_some() { "succeeds" } else { "fails" }, if m.is_some() { "accepts" } else { "refuses" })),
    }
}
fn parity(v: &View, _g: &mut Vec<i128>) -> Result<(), String> {
    let Some(Act::Swap { buy, mode, a0, referral, .. }) = v.act() else { return Ok(()) };
    let p = v.p();
    let (c, s) = (p.cfg(v.before), p.state(v.before));
    let q = sdk(&c, &s, v.before, *buy, *mode, *a0, referral.is_some(), false);
    // an exact-out quote knows no referrer; the total fee is the same
    let m = v.ran.effs.first().and_then(|e| e.trade);
    // the trader may simply not own enough tokens
    let r = same_quote(&q, m);
    if let (Err(_), Some(q), None) = (&r, &q, m) {
        let k = key("trader");
        let have = v.before.tokens(&if *buy { p.quote_ata(&k) } else { p.base_ata(&k) });
        if have < q.included_fee_input_amount {
            return Ok(());
        }
        let vault = v.before.tokens(&if *buy { p.base_vault } else { p.quote_vault });
        if vault < q.output_amount {
            return Ok(());
        }
    }
    r
}
