//! P11-P14, P28: what each party can take out, and that it is always there
use super::common::*;
use super::trading::other_ops;

pub fn op_list() -> Vec<Act> {
    other_ops()
        .into_iter()
        .filter_map(|t| match t.as_slice() {
            [Top::Ix(s)] => Some(s.act),
            _ => None,
        })
        .collect()
}
fn migrated(s: &VirtualPool) -> bool {
    s.migration_progress == 3
}
/// everything the pool owes in quote
pub fn owed_quote(c: &PoolConfig, s: &VirtualPool) -> Result<u128, String> {
    let mut o = quote_fees(s) + s.protocol_migration_quote_fee_amount as u128;
    let t = c.migration_quote_threshold;
    if s.quote_reserve >= t {
        let (pa, cr, pr) = surplus(c, s).ok_or("surplus")?;
        let (mp, mc) = migration_fee_split(c);
        for (done, x) in [
            (s.is_partner_withdraw_surplus != 0, pa),
            (s.is_creator_withdraw_surplus != 0, cr),
            (s.is_protocol_withdraw_surplus != 0, pr),
            (s.migration_fee_withdraw_status & 4 != 0, mp),
            (s.migration_fee_withdraw_status & 2 != 0, mc),
            (migrated(s), migration_quote(c).0),
        ] {
            if !done {
                o += x as u128;
            }
        }
    } else {
        o += s.quote_reserve as u128;
    }
    Ok(o)
}
/// everything the pool owes in base
pub fn owed_base(c: &PoolConfig, s: &VirtualPool) -> u128 {
    let mut o = base_fee_sum(s) + s.protocol_migration_base_fee_amount as u128;
    if s.quote_reserve >= c.migration_quote_threshold {
        if !migrated(s) {
            o += c.migration_base_threshold as u128;
        }
        if has_vest(c) && s.migration_progress < 2 {
            o += vest_total(c).unwrap() as u128;
        }
    } else {
        o += s.base_reserve as u128;
    }
    o
}
/// P11
pub fn p11(cx: &Cx) {
    let mut scns = vec![];
    for w in zoo_worlds(cx) {
        let c = w.w.c();
        let t = c.migration_quote_threshold;
        for (n, b) in stages(cx, &w) {
            let early = n.ends_with("/fresh") || n.ends_with("/traded");
            let depth = if early { cx.pick(2, 3) } else { cx.pick(3, 4) };
            scns.push(
                scn(n, &b, &w.w.p, depth, move |_| {
                    let mut v: Vec<Tx> = op_list().into_iter().map(ix1).collect();
                    for a in [Act::buy(t / 6), Act::swap(true, 1, BIG), Act::swap(false, 1, t / 7), Act::swap(false, 2, t / 40), Act::Donate { base: true, amount: 777 }, Act::Donate { base: false, amount: 999 }] {
                        v.push(ix1(a));
                    }
                    v.push(ix1(Act::Swap { who: "trader", buy: true, mode: 0, a0: t / 8, a1: 0, referral: Some("referrer"), legacy: false }));
                    v
                })
                .inv(vec![0, 0], solvent),
            );
        }
    }
    cx.bfs(scns);
}
fn solvent(v: &View, g: &mut Vec<i128>) -> Result<(), String> {
    if let (Some(Act::Donate { base, amount }), true) = (v.act(), v.ran.ok) {
        g[!*base as usize] += *amount as i128;
    }
    if !v.ran.ok {
        return Ok(());
    }
    let p = v.p();
    let b = v.after();
    let (c, s) = (p.cfg(b), p.state(b));
    let q = b.tokens(&p.quote_vault) as u128;
    let owed = owed_quote(&c, &s)?;
    ensure(q >= owed + g[1] as u128, || format!("quote vault holds {q}, owes {owed}, was given {}", g[1]))?;
    let base = b.tokens(&p.base_vault) as u128;
    let owed = owed_base(&c, &s);
    ensure(base >= owed, || format!("base vault holds {base}, owes {owed}"))?;
    // lamports of the pool
    let rent = anchor_lang::prelude::Rent::default().minimum_balance(b.get(&p.pool).unwrap().data.len());
    let protocol = pct(c.pool_creation_fee, 10);
    let mut due = 0;
    if s.creation_fee_bits & 1 == 0 {
        due += protocol;
    }
    if s.creation_fee_bits & 2 == 0 {
        due += c.pool_creation_fee - protocol;
    }
    ensure(b.lamports(&p.pool) == rent + due, || format!("pool holds {} lamports, rent {rent} and creation fee {due} are due", b.lamports(&p.pool)))?;
    // nothing is created or lost
    for (mint, given, base) in [(&p.quote_mint, g[1], false), (&p.base_mint, g[0], true)] {
        let sum = |b: &Bank| b.accs.values().filter(|a| (a.owner == SPL || a.owner == T22) && a.data.len() >= 165 && a.data[..32] == mint.to_bytes()).map(|a| u64::from_le_bytes(a.data[64..72].try_into().unwrap()) as u128).sum::<u128>();
        let (x, y) = (sum(v.root), sum(b));
        if base {
            let s = b.supply(mint) as u128;
            let _ = given;
            ensure(y == s, || format!("base balances add up to {y}, supply {s}"))?;
        } else {
            ensure(y == x + given as u128, || format!("quote balances add up to {y}, were {x}"))?;
        }
    }
    // the referral, leftover and external accounts aside, only the entitled parties gained
    Ok(())
}

/// P12: surplus, migration fee, creation fee and leftover can each be taken once, in full, by one party
pub fn p12(cx: &Cx) {
    let mut scns = vec![];
    for w in zoo_worlds(cx) {
        for (n, b) in stages(cx, &w) {
            if n.ends_with("/traded") || n.ends_with("/locked") || n.ends_with("/fresh") && !cx.thorough {
                continue;
            }
            let c = w.w.c();
            let t = c.migration_quote_threshold;
            let fresh = n.ends_with("/fresh");
            let thorough = cx.thorough;
            scns.push(
                scn(n, &b, &w.w.p, if fresh { 4 } else { cx.pick(8, 14) }, move |_| {
                    let mut v = vec![
                        Act::PartnerSurplus { who: "partner" },
                        Act::CreatorSurplus { who: "creator" },
                        Act::CreatorSurplus { who: "newcreator" },
                        Act::ClaimProtocol { op: "operator", who: "operator", a: u64::MAX, b: u64::MAX },
                        Act::MigFee { who: "partner", flag: 0 },
                        Act::MigFee { who: "creator", flag: 1 },
                        Act::MigFee { who: "newcreator", flag: 1 },
                        Act::PartnerSurplus { who: "creator" },
                        Act::CreatorSurplus { who: "partner" },
                        Act::MigFee { who: "creator", flag: 0 },
                        Act::MigFee { who: "partner", flag: 1 },
                        Act::MigFee { who: "partner", flag: 2 },
                        Act::ProtCreationFee { op: "operator", who: "operator" },
                        Act::PartnerCreationFee { who: "partner", to: "stranger" },
                        Act::Leftover,
                        Act::Transfer { who: "creator", new: "newcreator", meta: true },
                        Act::Locker { creator: "creator" },
                        Act::MigrateV2 { second: true },
                        Act::V1Meta,
                        Act::MigrateV1,
                    ];
                    if thorough {
                        v.push(Act::Zap { op: "operator", who: "operator", base: false, max: u64::MAX });
                        v.push(Act::V1Claim { owner: "creator", sender: "stranger" });
                        v.push(Act::V1Lock { owner: "creator" });
                        v.push(Act::V1Claim { owner: "partner", sender: "stranger" });
                        v.push(Act::V1Lock { owner: "partner" });
                    }
                    if fresh {
                        v.push(Act::swap(true, 1, BIG));
                        v.push(Act::buy(t / 2));
                    }
                    v.into_iter().map(ix1).collect()
                })
                .inv(vec![0; 8], once),
            );
        }
    }
    cx.bfs(scns);
}
const CLAIMS: [&str; 8] = ["partner surplus", "creator surplus", "protocol surplus", "partner migration fee", "creator migration fee", "protocol creation fee", "partner creation fee", "leftover"];
fn once(v: &View, g: &mut Vec<i128>) -> Result<(), String> {
    let Some(a) = v.act() else { return Ok(()) };
    if !v.ran.ok {
        return Ok(());
    }
    let p = v.p();
    let (x, y) = (v.before, v.after());
    let (c, s) = (p.cfg(x), p.state(x));
    let d = |k: &Pubkey| y.tokens(k) as i128 - x.tokens(k) as i128;
    let l = |k: &Pubkey| y.lamports(k) as i128 - x.lamports(k) as i128;
    let mut take = |i: usize, got: i128, full: i128| -> Result<(), String> {
        if full == 0 && got == 0 {
            return Ok(());
        }
        g[i] += got;
        ensure(g[i] == full, || format!("{}: paid {} in total, entitled to {full}", CLAIMS[i], g[i]))
    };
    let t = c.migration_quote_threshold as i128;
    let total = (s.quote_reserve as i128 - t).max(0);
    let shared = total * 80 / 100;
    let cr = shared * c.creator_trading_fee_percentage as i128 / 100;
    let fee = t - (t * (100 - c.migration_fee_percentage as i128) + 99) / 100;
    let cfee = fee * c.creator_migration_fee_percentage as i128 / 100;
    let prot = c.pool_creation_fee as i128 * 10 / 100;
    match a {
        Act::PartnerSurplus { who: w } | Act::MigFee { who: w, flag: 0 } => ensure(who(w) == c.fee_claimer, || format!("{a:?}: not the partner"))?,
        Act::CreatorSurplus { who: w } | Act::MigFee { who: w, .. } => ensure(who(w) == s.creator, || format!("{a:?}: not the creator"))?,
        _ => {}
    }
    match a {
        Act::PartnerSurplus { who: w } => take(0, d(&p.quote_ata(&who(w))), shared - cr),
        Act::CreatorSurplus { who: w } => take(1, d(&p.quote_ata(&who(w))), cr),
        Act::ClaimProtocol { .. } => {
            let extra = d(&p.quote_ata(&treasury())) - s.protocol_quote_fee as i128 - s.protocol_migration_quote_fee_amount as i128;
            ensure(extra >= 0, || "protocol fee".into())?;
            if s.quote_reserve as i128 >= t {
                if s.is_protocol_withdraw_surplus == 0 {
                    take(2, extra, total - shared)
                } else {
                    ensure(extra == 0, || format!("protocol surplus paid again: {extra}"))
                }
            } else {
                ensure(extra == 0, || "surplus before completion".into())
            }
        }
        Act::MigFee { who: w, flag: 0 } => take(3, d(&p.quote_ata(&who(w))), fee - cfee),
        Act::MigFee { who: w, .. } => take(4, d(&p.quote_ata(&who(w))), cfee),
        Act::ProtCreationFee { .. } => {
            let got = l(&treasury());
            if s.creation_fee_bits & 1 == 0 {
                take(5, got, prot)
            } else {
                ensure(got == 0, || format!("creation fee paid again: {got}"))
            }
        }
        Act::PartnerCreationFee { to, .. } => take(6, l(&who(to)), c.pool_creation_fee as i128 - prot),
        Act::Leftover => {
            let got = d(&p.base_ata(&key("leftover")));
            ensure(g[7] == 0, || "leftover paid again".into())?;
            g[7] = 1;
            let left = y.tokens(&p.base_vault) as u128;
            ensure(left == owed_base(&c, &p.state(y)), || format!("after the leftover ({got}) the base vault holds {left}, owes {}", owed_base(&c, &p.state(y))))
        }
        _ => Ok(()),
    }
}

/// P13: partner, creator and protocol are paid exactly what their trades accrued
pub fn p13(cx: &Cx) {
    let mut scns = vec![];
    for collect in 0..2 {
        for creator in [0, 33, 100] {
            for v1 in [false, true] {
                for dynamic in [false, true] {
                    let mut p = params();
                    p.collect_fee_mode = collect;
                    p.creator_trading_fee_percentage = creator;
                    scheduler(&mut p, 0, 50_000_000, 0, 0, 0);
                    p.migration_option = !v1 as u8;
                    if v1 {
                        p.migration_fee_option = 3;
                    }
                    if dynamic {
                        p.pool_fees.dynamic_fee = Some(dyn_fee());
                    }
                    let Some(w) = build_all(cx, vec![(format!("accrual-c{collect}-cr{creator}-v1{}-d{}", v1 as u8, dynamic as u8), p, false)]).pop() else { continue };
                    for (n, b) in stages(cx, &w) {
                        // what is owed at the start of the scenario
                        let s = w.w.p.state(&b);
                        let g = vec![
                            s.partner_base_fee as i128, s.partner_quote_fee as i128, s.creator_base_fee as i128, s.creator_quote_fee as i128, s.protocol_base_fee as i128, s.protocol_quote_fee as i128,
                        ];
                        let done = !(n.ends_with("fresh") || n.ends_with("traded"));
                        scns.push(
                            scn(n, &b, &w.w.p, if done { cx.pick(3, 5) } else { cx.pick(4, 5) }, move |_| {
                                let m = u64::MAX;
                                let mut v = vec![];
                                if !done {
                                    v.extend([
                                        Act::Swap { who: "trader", buy: true, mode: 0, a0: 100_003, a1: 0, referral: Some("referrer"), legacy: false },
                                        Act::swap(true, 2, 50_001),
                                        Act::Swap { who: "trader", buy: false, mode: 1, a0: 70_007, a1: 0, referral: None, legacy: false },
                                        Act::swap(true, 1, BIG),
                                    ]);
                                } else {
                                    v.extend([Act::MigrateV2 { second: true }, Act::V1Meta, Act::MigrateV1, Act::Leftover, Act::PartnerSurplus { who: "partner" }]);
                                }
                                for (a, b) in [(m, m), (0, 11), (7, 0), (0, 0), (5, m), (m, 3)] {
                                    v.push(Act::ClaimPartner { who: "partner", a, b });
                                    v.push(Act::ClaimCreator { who: "creator", a, b });
                                    v.push(Act::ClaimProtocol { op: "operator", who: "operator", a, b });
                                }
                                v.push(Act::ClaimPartner { who: "creator", a: m, b: m });
                                v.push(Act::ClaimCreator { who: "partner", a: m, b: m });
                                v.push(Act::ClaimProtocol { op: "operator", who: "stranger", a: m, b: m });
                                v.push(Act::Zap { op: "operator", who: "operator", base: false, max: 5 });
                                v.push(Act::Transfer { who: "creator", new: "newcreator", meta: true });
                                v.push(Act::ClaimCreator { who: "newcreator", a: m, b: m });
                                v.into_iter().map(ix1).collect()
                            })
                            .inv(g, accrued),
                        );
                    }
                }
            }
        }
    }
    cx.bfs(scns);
}
/// ghost: outstanding entitlement of each party, recomputed from the trades
fn accrued(v: &View, g: &mut Vec<i128>) -> Result<(), String> {
    if !v.ran.ok {
        return Ok(());
    }
    let p = v.p();
    let (x, y) = (v.before, v.after());
    let c = p.cfg(x);
    let d = |k: &Pubkey| y.tokens(k) as i128 - x.tokens(k) as i128;
    let mut paid = |party: usize, ob: Pubkey, oq: Pubkey, a: u64, b: u64| -> Result<(), String> {
        for (i, k, max) in [(party * 2, ob, a), (party * 2 + 1, oq, b)] {
            let got = d(&k);
            let want = g[i].min(max as i128);
            ensure(got == want, || format!("party {party} was paid {got}, entitled to {want}"))?;
            g[i] -= got;
        }
        Ok(())
    };
    match v.act() {
        Some(Act::Swap { buy, .. }) => {
            let t = v.ran.effs[0].trade.ok_or("trade")?;
            let i = !(*buy && c.collect_fee_mode == 1) as usize;
            let total = t.fees.total();
            let prot = (total as u128 * 20 / 100) as u64;
            let cr = ((total - prot) as u128 * c.creator_trading_fee_percentage as u128 / 100) as u64;
            g[i] += (total - prot - cr) as i128;
            g[2 + i] += cr as i128;
            g[4 + i] += (prot - t.fees.referral) as i128;
        }
        Some(Act::ClaimPartner { who: w, a, b }) => {
            ensure(*w == "partner", || "a stranger claimed the partner's fee".into())?;
            paid(0, p.base_ata(&who(w)), p.quote_ata(&who(w)), *a, *b)?;
        }
        Some(Act::ClaimCreator { who: w, a, b }) => {
            ensure(who(w) == p.state(x).creator, || "a stranger claimed the creator's fee".into())?;
            paid(1, p.base_ata(&who(w)), p.quote_ata(&who(w)), *a, *b)?;
        }
        Some(Act::ClaimProtocol { a, b, .. }) => {
            for (i, k, max) in [(4, p.base_ata(&treasury()), *a), (5, p.quote_ata(&treasury()), *b)] {
                let s = p.state(x);
                let extra = if i == 4 { s.protocol_migration_base_fee_amount } else { s.protocol_migration_quote_fee_amount } as i128;
                let sur = if i == 5 && s.is_protocol_withdraw_surplus == 0 && s.quote_reserve >= c.migration_quote_threshold { surplus(&c, &s).unwrap().2 as i128 } else { 0 };
                let fee = g[i].min(max as i128);
                let mig = extra.min(max as i128 - fee);
                ensure(d(&k) == fee + mig + sur, || format!("protocol was paid {}, entitled to {fee}+{mig}+{sur}", d(&k)))?;
                g[i] -= fee;
            }
        }
        Some(Act::Zap { max, .. }) => {
            g[5] -= g[5].min(*max as i128);
        }
        _ => {}
    }
    let s = p.state(y);
    let now = [s.partner_base_fee, s.partner_quote_fee, s.creator_base_fee, s.creator_quote_fee, s.protocol_base_fee, s.protocol_quote_fee];
    for i in 0..6 {
        ensure(now[i] as i128 == g[i], || format!("counter {i} is {}, the trades accrued {}", now[i], g[i]))?;
    }
    Ok(())
}

/// P14: the creation fee
pub fn p14(cx: &Cx) {
    let mut scns = vec![];
    for fee in [0u64, 1_000_000, 1_000_001, 1_000_009, 33_333_333_337, 100_000_000_000] {
        for t22 in [false, true] {
            for legacy in 0..4u8 {
                if legacy > 0 && fee > 0 && !cx.thorough {
                    continue;
                }
                let mut p = params();
                p.pool_creation_fee = fee;
                p.token_type = t22 as u8;
                let Some(w) = build_all(cx, vec![(format!("creation-{fee}-t22{}-legacy{legacy}", t22 as u8), p, false)]).pop() else { continue };
                let mut b = w.w.bank.clone();
                // pools created under the older rules carry a flag and 0.01 SOL
                let mut s = w.w.s();
                s.legacy_creation_fee_bits = legacy;
                b.set_zc(&w.w.p.pool, &s);
                if legacy == 1 {
                    let mut a = b.get(&w.w.p.pool).unwrap().clone();
                    a.lamports += 10_000_000;
                    b.put(w.w.p.pool, a);
                }
                put_operator(&mut b, &key("stranger"), 2);
                scns.push(
                    scn(w.name.clone(), &b, &w.w.p, cx.pick(5, 7), move |_| {
                        [
                            Act::ProtCreationFee { op: "operator", who: "operator" },
                            Act::ProtCreationFee { op: "operator", who: "stranger" },
                            Act::ProtCreationFee { op: "stranger", who: "stranger" },
                            Act::PartnerCreationFee { who: "partner", to: "stranger" },
                            Act::PartnerCreationFee { who: "partner", to: "partner" },
                            Act::PartnerCreationFee { who: "creator", to: "creator" },
                            Act::swap(true, 1, BIG),
                            Act::MigrateV2 { second: true },
                            Act::buy(1000),
                        ]
                        .into_iter()
                        .map(ix1)
                        .collect()
                    })
                    .inv(vec![0, 0], move |v, g| {
                        if !v.ran.ok {
                            return Ok(());
                        }
                        let p = v.p();
                        let l = |k: &Pubkey| v.after().lamports(k) as i128 - v.before.lamports(k) as i128;
                        match v.act() {
                            Some(Act::ProtCreationFee { .. }) => g[0] += l(&treasury()),
                            Some(Act::PartnerCreationFee { to, .. }) => g[1] += l(&who(to)),
                            _ => ensure(l(&treasury()) == 0 && l(&p.pool) == 0, || "the creation fee moved on another action".into())?,
                        }
                        let old = if legacy == 1 { 10_000_000 } else { 0 };
                        let prot = fee as i128 / 10;
                        ensure(g[0] <= prot + old && g[1] <= fee as i128 - prot, || format!("paid out {} and {} of a creation fee of {fee}", g[0], g[1]))?;
                        let rent = anchor_lang::prelude::Rent::default().minimum_balance(v.after().get(&p.pool).unwrap().data.len()) as i128;
                        let have = v.after().lamports(&p.pool) as i128;
                        ensure(have == rent + fee as i128 + old - g[0] - g[1], || format!("pool holds {have}"))
                    }),
                );
            }
        }
    }
    cx.bfs(scns);
    // the payer funds the fee on top of rent when the pool is created
    let fees: Vec<(u64, bool)> = [0u64, 1_000_000, 99_999_999_999, 100_000_000_000].into_iter().flat_map(|f| [(f, false), (f, true)]).collect();
    cx.cases("creation", &fees, |(fee, t22), t| {
        let mut p = params();
        p.pool_creation_fee = *fee;
        p.token_type = *t22 as u8;
        let w = build_world("creation", &p, false)?;
        let rent = anchor_lang::prelude::Rent::default().minimum_balance(w.w.bank.get(&w.w.p.pool).unwrap().data.len());
        t.hit("pool created");
        ensure(w.w.bank.lamports(&w.w.p.pool) == rent + fee, || "the new pool does not hold the creation fee".into())?;
        // a payer that cannot afford it creates nothing
        let mut b = base_bank();
        put_mint(&mut b, key("quote"), 6, u64::MAX / 2, Some(key("faucet")), None, SPL);
        let keys = Pool::named("A", key("quote"), SPL, *t22);
        if !b.exec1(keys.ix_create_config(&p)).ok() {
            return Err("config".into());
        }
        fund(&mut b, key("payer"), rent + fee / 2);
        let o = b.exec1(keys.ix_init_pool());
        ensure(!o.ok(), || "a pool was created without its fee".into())
    });
}

/// P28: the protocol's share only goes to the treasury
pub fn p28(cx: &Cx) {
    let mut scns = vec![];
    for w in zoo_worlds(cx) {
        for (n, b) in stages(cx, &w) {
            let mut b = b;
            put_operator(&mut b, &key("partner"), 1);
            put_operator(&mut b, &key("creator"), 2);
            put_operator(&mut b, &key("trader2"), 0);
            scns.push(
                scn(n, &b, &w.w.p, cx.pick(3, 4), move |_| {
                    let m = u64::MAX;
                    let mut v = vec![];
                    for (op, who) in [("operator", "operator"), ("partner", "partner"), ("creator", "creator"), ("trader2", "trader2"), ("operator", "stranger"), ("stranger", "stranger")] {
                        v.push(Act::ClaimProtocol { op, who, a: m, b: m });
                        v.push(Act::ProtCreationFee { op, who });
                        for base in [true, false] {
                            v.push(Act::Zap { op, who, base, max: m });
                        }
                    }
                    for (a, b) in [(0, m), (m, 0), (3, 5), (0, 0)] {
                        v.push(Act::ClaimProtocol { op: "operator", who: "operator", a, b });
                        v.push(Act::Zap { op: "operator", who: "operator", base: true, max: a });
                        v.push(Act::Zap { op: "operator", who: "operator", base: false, max: b });
                    }
                    v.extend([Act::MigrateV2 { second: true }, Act::V1Meta, Act::MigrateV1, Act::PartnerSurplus { who: "partner" }]);
                    v.into_iter().map(ix1).collect()
                })
                .inv(vec![], treasury_only),
            );
        }
    }
    cx.bfs(scns);
    zap_rules(cx);
}
fn treasury_only(v: &View, _g: &mut Vec<i128>) -> Result<(), String> {
    let Some(a) = v.act() else { return Ok(()) };
    let p = v.p();
    if !v.ran.ok {
        return Ok(());
    }
    let d = |k: &Pubkey| v.after().tokens(k) as i128 - v.before.tokens(k) as i128;
    let (vb, vq) = (-d(&p.base_vault), -d(&p.quote_vault));
    match a {
        Act::ClaimProtocol { .. } => {
            ensure(vb == d(&p.base_ata(&treasury())) && vq == d(&p.quote_ata(&treasury())), || "protocol fee did not go to the treasury".into())
        }
        Act::Zap { who: w, base, .. } => {
            let (out, other, dest) = if *base { (vb, vq, p.base_ata(&who(w))) } else { (vq, vb, p.quote_ata(&who(w))) };
            ensure(other == 0 && out > 0 && d(&dest) == out, || format!("zap moved {out} and {other}"))?;
            let calls = protocol_zap::record::CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()));
            let last = calls.last().ok_or("the zap was not tied to a purchase for the treasury")?;
            let paired = if *base { p.quote_ata(&treasury()) } else { p.base_ata(&treasury()) };
            ensure(last.amount as i128 == out, || format!("zap of {out} validated for {}", last.amount))?;
            ensure(last.receiver == dest.to_bytes() && last.treasury == treasury().to_bytes() && last.treasury_paired_destination == paired.to_bytes() && last.program == dbc::ID.to_bytes(), || "zap validated for other accounts".into())?;
            let had = v.before.tokens(&dest);
            let seen = u64::from_le_bytes(last.receiver_data[64..72].try_into().unwrap());
            ensure(seen == had, || format!("zap validated against a receiver balance of {seen}, it had {had}"))
        }
        _ => Ok(()),
    }
}
fn zap_rules(cx: &Cx) {
    use protocol_zap::error::ProtozolZapError as E;
    let errs = [None, Some(E::MathOverflow), Some(E::InvalidZapOutParameters), Some(E::TypeCastFailed), Some(E::MissingZapOutInstruction), Some(E::InvalidWithdrawProtocolFeeZapAccounts), Some(E::MintRestrictedFromZap), Some(E::CpiDisabled), Some(E::InvalidZapAccounts)];
    let mut cases = vec![];
    for mint in 0..3usize {
        for e in 0..errs.len() {
            for base in [true, false] {
                for collect in 0..2u8 {
                    for recv in 0..4 {
                        cases.push((mint, e, base, collect, recv));
                    }
                }
            }
        }
    }
    cx.cases("zap", &cases, |(mint, e, base, collect, recv), t| {
        let qm = [key("quote"), Pubkey::new_from_array(protocol_zap::constants::SOL), Pubkey::new_from_array(protocol_zap::constants::USDC)][*mint];
        let mut p = params();
        p.collect_fee_mode = *collect;
        let w = build_world_m("zap", &p, qm)?;
        let pool = &w.w.p;
        let mut b = w.w.bank.clone();
        let mut s = w.w.s();
        // fees as trades would have left them
        (s.protocol_base_fee, s.protocol_quote_fee) = if *collect == 1 { (500, 300) } else { (0, 700) };
        b.set_zc(&pool.pool, &s);
        set_tokens(&mut b, &pool.quote_vault, 10_000);
        protocol_zap::record::ANSWER.with(|a| *a.borrow_mut() = errs[*e]);
        let mut i = pool.ix_zap(&operator_key(&key("operator")), &key("operator"), *base, u64::MAX);
        let (m, prog) = if *base { (pool.base_mint, pool.base_prog) } else { (pool.quote_mint, pool.quote_prog) };
        let own = ata(&key("operator"), &m, &prog);
        let other = match recv {
            0 => own,
            1 => ata(&key("stranger"), &m, &prog),
            2 => {
                // right owner, wrong address
                put_token(&mut b, key("side account"), m, key("operator"), 0, prog);
                key("side account")
            }
            _ => ata(&treasury(), &m, &prog),
        };
        for a in i.accounts.iter_mut().filter(|a| a.pubkey == own) {
            a.pubkey = other;
        }
        let s = pool.state(&b);
        let have = if *base { s.protocol_base_fee } else { s.protocol_quote_fee };
        let o = b.exec1(i);
        protocol_zap::record::ANSWER.with(|a| *a.borrow_mut() = None);
        let want = errs[*e].is_none() && have > 0 && *recv == 0 && (*base || *mint == 0);
        t.hit(if want { "zap ok" } else { "zap refused" });
        ensure(o.ok() == want, || format!("accepted={} {:?}", o.ok(), o.err))
    });
}
