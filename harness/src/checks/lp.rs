//! P26, P27, P30: who owns what after a hand-over and after migration
use super::claims::op_list;
use super::common::*;
use super::life::*;
use damm_v2::accounts::{Pool as V2Pool, Position};
use dbc::MeteoraDammMigrationMetadata as V1Record;

// ------------------------------------------------------------------ P26
pub fn p26(cx: &Cx) {
    let mut scns = vec![];
    for w in zoo_worlds(cx) {
        let t = w.w.c().migration_quote_threshold;
        for (n, b) in stages(cx, &w) {
            scns.push(
                scn(n, &b, &w.w.p, cx.pick(3, 5), move |b| {
                    let _ = b;
                    let mut v = hand_overs();
                    v.extend(of_creator());
                    v.extend([Act::swap(true, 1, BIG), Act::buy(t / 9), Act::V1Meta, Act::MigrateV1, Act::MigrateV2 { second: true }, Act::Locker { creator: "creator" }, Act::Locker { creator: "newcreator" }]);
                    v.into_iter().map(ix1).collect()
                })
                .inv(vec![], hand_over),
            );
        }
    }
    // DAMM v1: every combination of shares, locked and claimed in any order
    for s in [(0, 100, 0, 0), (0, 0, 0, 100), (50, 50, 0, 0), (0, 50, 50, 0), (25, 25, 25, 25), (0, 50, 0, 50), (90, 10, 0, 0), (0, 10, 90, 0)] {
        let mut p = target(0, 2, 0);
        (p.partner_liquidity_percentage, p.partner_permanent_locked_liquidity_percentage, p.creator_liquidity_percentage, p.creator_permanent_locked_liquidity_percentage) = s;
        let name = format!("lp{}-{}-{}-{}", s.0, s.1, s.2, s.3);
        for w in build_all(cx, vec![(name.clone(), p, false)]) {
            let mut acts = vec![Act::swap(true, 1, BIG)];
            acts.extend(migrate_acts(&w));
            let Some(b) = drive_or(cx, &name, &w.w.bank, &w.w.p, &acts) else { continue };
            scns.push(
                scn(name.clone(), &b, &w.w.p, cx.pick(6, 8), |_| {
                    let mut v = hand_overs();
                    for o in ["partner", "creator", "newcreator"] {
                        v.push(Act::V1Lock { owner: o });
                        v.push(Act::V1Claim { owner: o, sender: "stranger" });
                    }
                    v.into_iter().map(ix1).collect()
                })
                .inv(vec![], hand_over),
            );
        }
    }
    cx.bfs(scns);
    // the migration record that is shown
    let mut cases = vec![];
    for rec in ["own", "none", "of another pool", "owner", "discriminator", "short", "the pool itself", "the configuration", "own second"] {
        for done in [false, true] {
            for opt in [0u8, 1] {
                cases.push((rec, done, opt));
            }
        }
    }
    cx.cases("record", &cases, |(rec, done, opt), t| {
        let w = build_world("own", &target(*opt, 2, 0), false)?;
        let p = &w.w.p;
        let mut acts = vec![Act::swap(true, 1, BIG)];
        acts.extend(migrate_acts(&w));
        let mut b = drive(&w.w.bank, p, &acts)?;
        // another pool's record where everything is settled
        let other = key("record");
        let settle = |b: &mut Bank, k: &Pubkey| {
            let mut m: V1Record = b.zc(k);
            (m.partner_locked_status, m.creator_locked_status, m.partner_claim_status, m.creator_claim_status) = (1, 1, 1, 1);
            b.set_zc(k, &m);
        };
        if *opt == 0 {
            let a = b.get(&p.v1_meta()).unwrap().clone();
            b.put(other, a);
            let mut m: V1Record = b.zc(&other);
            m.virtual_pool = key("otherpool");
            b.set_zc(&other, &m);
            settle(&mut b, &other);
            if *done {
                settle(&mut b, &p.v1_meta());
            }
        }
        let show = match *rec {
            "own" | "owner" | "discriminator" | "short" => Some(p.v1_meta()),
            "own second" | "of another pool" => Some(other),
            "none" => None,
            "the pool itself" => Some(p.pool),
            _ => Some(p.config),
        };
        if let Some(k) = show.filter(|k| b.get(k).is_some()) {
            match *rec {
                "owner" => {
                    let mut a = b.get(&k).unwrap().clone();
                    a.owner = key("stranger");
                    b.put(k, a);
                }
                "discriminator" => b = bits(&b, &k, |d| d[0] ^= 1),
                "short" => b = bits(&b, &k, |d| d.truncate(64)),
                _ => {}
            }
        }
        let mut i = p.ix_transfer_creator(&key("creator"), &key("newcreator"), show);
        if *rec == "own second" {
            i.accounts.push(anchor_lang::solana_program::instruction::AccountMeta::new_readonly(p.v1_meta(), false));
        }
        let want = *opt == 1 || *rec == "own" && *done;
        let d = b.digest();
        let o = b.exec1(i);
        t.hit(format!("hand-over {}", if o.ok() { "ok" } else { "refused" }));
        ensure(o.ok() == want, || format!("record {rec}: hand-over accepted={} {:?}", o.ok(), o.err))?;
        ensure(o.ok() || b.digest() == d, || "a refused hand-over left a trace".into())
    });
}
fn hand_overs() -> Vec<Act> {
    let mut v = vec![];
    for (who, new) in [
        ("creator", "newcreator"),
        ("newcreator", "creator"),
        ("newcreator", "partner"),
        ("creator", "creator"),
        ("newcreator", "newcreator"),
        ("stranger", "stranger"),
        ("stranger", "newcreator"),
        ("partner", "newcreator"),
        ("partner", "creator"),
        ("operator", "newcreator"),
        ("admin", "newcreator"),
    ] {
        v.push(Act::Transfer { who, new, meta: true });
    }
    v.push(Act::Transfer { who: "creator", new: "newcreator", meta: false });
    v
}
fn of_creator() -> Vec<Act> {
    let m = u64::MAX;
    ["creator", "newcreator", "partner"].into_iter().flat_map(|who| [Act::ClaimCreator { who, a: m, b: m }, Act::CreatorSurplus { who }, Act::MigFee { who, flag: 1 }]).collect()
}
/// a hand-over changes the creator and nothing else; creator's money only moves to the creator
fn hand_over(v: &View, _: &mut Vec<i128>) -> Result<(), String> {
    if !v.ran.ok {
        return Ok(());
    }
    let p = v.p();
    let (b, a) = (v.before, v.after());
    let (c, o, s) = (p.cfg(b), p.state(b), p.state(a));
    let act = v.act().ok_or("one action")?;
    match *act {
        Act::Transfer { who: w, new, .. } => {
            ensure(o.creator == who(w) && w != new, || format!("{w} handed over the pool of {}", o.creator))?;
            ensure(s.creator == who(new), || format!("handed over to {} instead of {new}", s.creator))?;
            ensure(o.migration_progress == 0 || o.migration_progress == 3, || "handed over between completion and migration".into())?;
            if o.migration_progress == 3 && c.migration_option == 0 {
                let m: V1Record = b.zc(&p.v1_meta());
                let open = [
                    m.partner_liquidity > 0 && m.partner_claim_status == 0,
                    m.creator_liquidity > 0 && m.creator_claim_status == 0,
                    m.partner_locked_liquidity > 0 && m.partner_locked_status == 0,
                    m.creator_locked_liquidity > 0 && m.creator_locked_status == 0,
                ];
                ensure(open == [false; 4], || format!("handed over while liquidity shares were still open {open:?}"))?;
                let n = p.v1_names(&v1_config_key(p));
                ensure(b.tokens(&n.lp) == 0, || "handed over while liquidity tokens were undistributed".into())?;
            }
            // nothing but the one field
            let mut x = b.clone();
            let mut y = o;
            y.creator = s.creator;
            x.set_zc(&p.pool, &y);
            ensure(x.digest() == a.digest(), || "a hand-over changed something else".into())
        }
        _ => {
            ensure(s.creator == o.creator, || format!("{act:?} changed the creator"))?;
            let n = match *act {
                Act::ClaimCreator { who: w, .. } | Act::CreatorSurplus { who: w } | Act::MigFee { who: w, flag: 1 } => w,
                _ => return Ok(()),
            };
            ensure(who(n) == o.creator, || format!("{n} took what belongs to {}", o.creator))
        }
    }
}

// ------------------------------------------------------------------ shares
#[derive(Clone, Copy, Debug)]
struct Shares {
    partner: [u8; 3],
    creator: [u8; 3],
}
/// all ways to write 100 as six parts from `vals`
fn partitions(vals: &[u8]) -> Vec<Shares> {
    let mut v = vec![];
    for a in vals {
        for b in vals {
            for c in vals {
                for d in vals {
                    for e in vals {
                        let s = *a as u32 + *b as u32 + *c as u32 + *d as u32 + *e as u32;
                        if s <= 100 && vals.contains(&((100 - s) as u8)) {
                            v.push(Shares { partner: [*a, *b, *c], creator: [*d, *e, (100 - s) as u8] });
                        }
                    }
                }
            }
        }
    }
    v
}
fn vinfo(pct: u8, k: usize) -> LiquidityVestingInfoParams {
    if pct == 0 {
        return LiquidityVestingInfoParams::default();
    }
    // bps per period, periods, cliff, frequency
    let (bps, n, cliff, freq) = [(100u16, 50u16, 0u32, 86_400u32), (1_000, 10, 3_600, 3_600), (1, 10_000, 1, 1), (0, 0, 86_400, 0), (0, 0, 86_401, 0), (5_000, 2, 86_399, 1), (3_333, 3, 172_800, 7), (0, 0, 1, 0)][k];
    LiquidityVestingInfoParams { vesting_percentage: pct, bps_per_period: bps, number_of_periods: n, cliff_duration_from_migration_time: cliff, frequency: freq }
}
fn shares(p: &mut ConfigParameters, s: &Shares, kp: usize, kc: usize) {
    [p.partner_liquidity_percentage, p.partner_permanent_locked_liquidity_percentage] = [s.partner[0], s.partner[1]];
    [p.creator_liquidity_percentage, p.creator_permanent_locked_liquidity_percentage] = [s.creator[0], s.creator[1]];
    p.partner_liquidity_vesting_info = vinfo(s.partner[2], kp);
    p.creator_liquidity_vesting_info = vinfo(s.creator[2], kc);
}
/// what one party really holds in the new pool: owner, [unlocked, permanent, vested], locked after `secs`
struct Holding {
    owner: Pubkey,
    parts: [u128; 3],
    pos: Position,
}
fn holdings(b: &Bank, p: &Pool) -> Result<Vec<Holding>, String> {
    let n = p.v2_names(&v2_config_key(p));
    let mut v = vec![];
    for i in 0..2 {
        if b.get(&n.position[i]).is_none() {
            continue;
        }
        let q: Position = b.zc(&n.position[i]);
        let nft = b.get(&n.nft_acc[i]).ok_or("position without its token")?;
        ensure(q.pool == n.pool && q.nft_mint == n.nft[i], || "position of another pool".into())?;
        ensure(b.tokens(&n.nft_acc[i]) == 1, || "position token missing".into())?;
        let owner = Pubkey::try_from(&nft.data[32..64]).unwrap();
        v.push(Holding { owner, parts: [{ q.unlocked_liquidity }, { q.permanent_locked_liquidity }, { q.vested_liquidity }], pos: q });
    }
    Ok(v)
}
/// the external pool's own unlocking rule
fn released(q: &Position, at: u64) -> u128 {
    let v = &q.inner_vesting;
    let (cliff, n, per) = ({ v.cliff_unlock_liquidity }, { v.number_of_period } as u64, { v.liquidity_per_period });
    if { q.vested_liquidity } == 0 || at < { v.cliff_point } {
        return 0;
    }
    let f = { v.period_frequency };
    let k = if f == 0 { if n == 0 { 0 } else { n } } else { ((at - { v.cliff_point }) / f).min(n) };
    cliff + per * k as u128
}
/// liquidity that the smallest units of both tokens stand for, at the opening price
fn grain(c: &PoolConfig, q: &V2Pool) -> u128 {
    let p = { q.sqrt_price };
    if c.migrated_collect_fee_mode == 2 && c.migration_fee_option == 6 {
        let l = { q.liquidity };
        let one = |x: u64| l / (x.max(1) as u128) + 1;
        one(q.token_a_amount) + one(q.token_b_amount) + p / 1_000_000_000
    } else {
        let up = (BigUint::from(1u8) << 128usize) / (p - MIN_SQRT) + BigUint::from(p) * MAX_SQRT / (MAX_SQRT - p);
        up.to_u128().unwrap_or(u128::MAX / 8) + 1
    }
}
struct Migrated {
    c: PoolConfig,
    s: VirtualPool,
    q: V2Pool,
    /// distributable liquidity
    all: u128,
    held: Vec<Holding>,
    now: u64,
}
fn migrated(p: &ConfigParameters, t: &mut Tally) -> Result<Option<Migrated>, String> {
    let w = match build_world("shares", p, false) {
        Ok(w) => {
            ensure(!refused_by_model(p), || "a configuration that must be refused was accepted".into())?;
            w
        }
        Err(_) if refused_by_model(p) => {
            t.hit("configuration refused");
            return Ok(None);
        }
        Err(e) => return Err(e),
    };
    let mut acts = finish_acts(&w);
    acts.extend(migrate_acts(&w));
    let b = drive(&w.w.bank, &w.w.p, &acts)?;
    t.hit("migrated");
    let p = &w.w.p;
    let n = p.v2_names(&v2_config_key(p));
    let q: V2Pool = b.zc(&n.pool);
    let (c, s, held) = (p.cfg(&b), p.state(&b), holdings(&b, p)?);
    let dead = if c.migrated_collect_fee_mode == 2 && c.migration_fee_option == 6 { DEAD } else { 0 };
    let all = { q.liquidity } - dead;
    Ok(Some(Migrated { c, s, q, all, held, now: b.now.ts as u64 }))
}
fn divided(m: &Migrated, sh: &Shares) -> Result<(), String> {
    let sum: u128 = m.held.iter().map(|h| h.parts.iter().sum::<u128>()).sum();
    ensure(sum == m.all, || format!("positions hold {sum} of {} liquidity", m.all))?;
    let tol = 3 * grain(&m.c, &m.q) + 200;
    let near = |x: u128, y: u128| x.abs_diff(y) <= tol;
    let same = m.c.fee_claimer == m.s.creator;
    for (who, owner, s) in [("partner", m.c.fee_claimer, sh.partner), ("creator", m.s.creator, sh.creator)] {
        let want = if same { [0, 1, 2].map(|i| sh.partner[i] as u128 + sh.creator[i] as u128) } else { s.map(|x| x as u128) };
        let mut got = [0u128; 3];
        for h in m.held.iter().filter(|h| h.owner == owner) {
            for i in 0..3 {
                got[i] += h.parts[i];
            }
        }
        for i in 0..3 {
            let fair = mul_floor(m.all, want[i], 100).to_u128().unwrap();
            ensure(near(got[i], fair), || format!("{who} holds {} {} liquidity, configured share {fair}", got[i], ["unlocked", "permanently locked", "vested"][i]))?;
        }
    }
    ensure(m.held.iter().all(|h| h.owner == m.c.fee_claimer || h.owner == m.s.creator), || "a position belongs to an outsider".into())
}
fn scheduled(m: &Migrated) -> Result<(), String> {
    for h in &m.held {
        let v = &h.pos.inner_vesting;
        let (cp, freq, n, per, cl) = ({ v.cliff_point }, { v.period_frequency }, { v.number_of_period }, { v.liquidity_per_period }, { v.cliff_unlock_liquidity });
        if h.parts[2] == 0 {
            ensure((cp, freq, n, per, cl) == (0, 0, 0, 0, 0), || "a schedule without vested liquidity".into())?;
            continue;
        }
        let i = if h.owner == m.c.fee_claimer { m.c.partner_liquidity_vesting_info } else { m.c.creator_liquidity_vesting_info };
        ensure(cl + per * n as u128 == h.parts[2], || format!("the schedule releases {} of {}", cl + per * n as u128, h.parts[2]))?;
        let late = i.cliff_duration_from_migration_time as u64;
        if per > 0 {
            ensure((cp, freq, n) == (m.now + late, i.frequency as u64, i.number_of_periods), || format!("schedule ({cp}, {freq}, {n}), configured {late} s after {}, every {} s, {} times", m.now, i.frequency, i.number_of_periods))?;
            let fair = mul_floor(h.parts[2], i.bps_per_period as u128, 10_000).to_u128().unwrap();
            ensure(per.abs_diff(fair) <= 1, || format!("{per} per period, configured {} bps of {}", i.bps_per_period, h.parts[2]))?;
        } else {
            ensure(cp == m.now + late.max(1) && n == 0 && freq == 0, || "single release at another time".into())?;
        }
    }
    Ok(())
}

/// P27: division of DAMM v2 liquidity
pub fn p27(cx: &Cx) {
    let kinds: &[(u8, u8)] = &[(0, 0), (6, 0), (6, 1), (6, 2)];
    let mut grid = vec![];
    for (i, s) in partitions(if cx.thorough { &[0, 1, 5, 10, 33, 34, 49, 50, 51, 80, 90, 99, 100] } else { &[0, 1, 10, 39, 50, 90, 100] }).into_iter().enumerate() {
        for (j, k) in kinds.iter().enumerate() {
            for vk in 0..3 {
                if cx.thorough || (i + j + vk) % 3 == 0 {
                    grid.push((s, *k, vk, (vk + i) % 8));
                }
            }
        }
    }
    cx.cases("shares", &grid, |(s, k, kp, kc), t| {
        let mut p = target(1, k.0, k.1);
        shares(&mut p, s, *kp, *kc);
        let Some(m) = migrated(&p, t)? else { return Ok(()) };
        divided(&m, s)?;
        scheduled(&m)
    });
    // curves and supplies
    let some = [
        Shares { partner: [0, 100, 0], creator: [0, 0, 0] },
        Shares { partner: [0, 0, 0], creator: [0, 100, 0] },
        Shares { partner: [0, 50, 0], creator: [50, 0, 0] },
        Shares { partner: [50, 0, 0], creator: [0, 50, 0] },
        Shares { partner: [30, 5, 15], creator: [20, 10, 20] },
        Shares { partner: [1, 9, 1], creator: [80, 4, 5] },
        Shares { partner: [85, 4, 5], creator: [1, 4, 1] },
        Shares { partner: [0, 0, 40], creator: [0, 0, 60] },
    ];
    let mut grid = vec![];
    for s in some {
        for cv in 0..curves().len() {
            for sup in 0..3 {
                for k in kinds {
                    for mf in [0u8, 99] {
                        for t22 in [false, true] {
                            grid.push((s, cv, sup, *k, mf, t22));
                        }
                    }
                }
            }
        }
    }
    cx.cases("curves", &grid, |(s, cv, sup, k, mf, t22), t| {
        let mut p = target(1, k.0, k.1);
        p.token_type = *t22 as u8;
        p.migration_fee = MigrationFee { fee_percentage: *mf, creator_fee_percentage: if *mf > 0 { 30 } else { 0 } };
        with_curve(&mut p, &curves()[*cv]);
        set_supply(&mut p, *sup, *t22);
        shares(&mut p, s, 0, 6);
        let Some(m) = migrated(&p, t)? else { return Ok(()) };
        divided(&m, s)?;
        scheduled(&m)
    });
    // any order of operations after migration leaves the positions alone, and they are made once
    let mut scns = vec![];
    for (i, s) in some.into_iter().enumerate() {
        for k in kinds {
            for hand in [false, true] {
                let mut p = target(1, k.0, k.1);
                shares(&mut p, &s, i % 3, 6);
                let name = format!("order-{i}-{k:?}{}", if hand { "-handed over" } else { "" });
                for mut w in build_all(cx, vec![(name.clone(), p, false)]) {
                    if hand {
                        match drive(&w.w.bank, &w.w.p, &[Act::Transfer { who: "creator", new: "partner", meta: false }]) {
                            Ok(b) => w.w.bank = b,
                            Err(_) => continue,
                        }
                    }
                    scns.push(
                        scn(name.clone(), &w.w.bank, &w.w.p, cx.pick(3, 5), move |_| {
                            let mut v = vec![Act::swap(true, 1, BIG), Act::buy(1000), Act::MigrateV2 { second: false }];
                            v.extend(op_list());
                            v.into_iter().map(ix1).collect()
                        })
                        .inv(vec![], move |v, _| {
                            let p = v.p();
                            if !v.ran.ok || p.state(v.after()).migration_progress != 3 {
                                return Ok(());
                            }
                            if p.state(v.before).migration_progress == 3 {
                                let n = p.v2_names(&v2_config_key(p));
                                let same = (0..2).all(|i| v.before.get(&n.position[i]) == v.after().get(&n.position[i]) && v.before.get(&n.nft_acc[i]) == v.after().get(&n.nft_acc[i]));
                                return ensure(same, || "a position changed after migration".into());
                            }
                            let b = v.after();
                            let n = p.v2_names(&v2_config_key(p));
                            let q: V2Pool = b.zc(&n.pool);
                            let c = p.cfg(b);
                            let dead = if c.migrated_collect_fee_mode == 2 && c.migration_fee_option == 6 { DEAD } else { 0 };
                            let m = Migrated { c, s: p.state(b), q, all: { q.liquidity } - dead, held: holdings(b, p)?, now: b.now.ts as u64 };
                            divided(&m, &s)
                        }),
                    );
                }
            }
        }
    }
    cx.bfs(scns);
}

/// P30: locked for the first day
pub fn p30(cx: &Cx) {
    const DAY: u64 = 86_400;
    // shares close to the limit, with schedules straddling one day
    let mut shapes = vec![];
    for perm in [(0u8, 0u8), (1, 0), (0, 9), (5, 4), (5, 5), (10, 0), (0, 10), (4, 0)] {
        for vest in [(0u8, 0u8), (1, 0), (0, 1), (5, 5), (6, 0), (10, 0), (9, 0), (0, 20), (30, 30), (40, 0)] {
            shapes.push((perm, vest));
        }
    }
    let mut scheds = vec![];
    for bps in [0u16, 1, 100, 999, 5_000, 10_000] {
        for n in [0u16, 1, 2, 10, 100, 10_000] {
            for cliff in [0u32, 1, 43_200, 86_399, 86_400, 86_401, 63_000_000] {
                for freq in [0u32, 1, 3_600, 43_200, 86_400, 86_401] {
                    if bps as u32 * n as u32 <= 10_000 || n == 2 {
                        scheds.push((bps, n, cliff, freq));
                    }
                }
            }
        }
    }
    let mut cases = vec![];
    for (i, (perm, vest)) in shapes.iter().enumerate() {
        for (j, s) in scheds.iter().enumerate() {
            if *vest == (0, 0) && j > 0 {
                continue;
            }
            if cx.thorough || (i + j) % 7 == 0 {
                cases.push((*perm, *vest, *s, scheds[(j * 31 + i) % scheds.len()], [(6u8, 0u8), (6, 2), (0, 0)][(i + j) % 3]));
            }
        }
    }
    cx.cases("schedules", &cases, |(perm, vest, sp, sc, k), t| {
        let mut p = target(1, k.0, k.1);
        let mk = |pct: u8, s: &(u16, u16, u32, u32)| {
            if pct == 0 {
                LiquidityVestingInfoParams::default()
            } else {
                LiquidityVestingInfoParams { vesting_percentage: pct, bps_per_period: s.0, number_of_periods: s.1, cliff_duration_from_migration_time: s.2, frequency: s.3 }
            }
        };
        p.partner_permanent_locked_liquidity_percentage = perm.0;
        p.creator_permanent_locked_liquidity_percentage = perm.1;
        p.partner_liquidity_vesting_info = mk(vest.0, sp);
        p.creator_liquidity_vesting_info = mk(vest.1, sc);
        let rest = 100 - perm.0 - perm.1 - vest.0 - vest.1;
        p.partner_liquidity_percentage = rest / 3;
        p.creator_liquidity_percentage = rest - rest / 3;
        // exact share locked after a day, in parts of 10^6
        let lk = |pct: u8, s: &(u16, u16, u32, u32)| -> u64 {
            let (bps, n, cliff, freq) = (s.0 as u64, s.1 as u64, s.2 as u64, s.3 as u64);
            let total = 10_000u64;
            let after = bps * n;
            let open = if after == 0 {
                if DAY < cliff.max(1) { 0 } else { total }
            } else if DAY < cliff {
                0
            } else {
                (total - after.min(total)) + bps * (DAY - cliff).checked_div(freq).unwrap_or(n).min(n)
            };
            pct as u64 * (total - open.min(total))
        };
        let ppm = (perm.0 as u64 + perm.1 as u64) * 10_000 + lk(vest.0, sp) + lk(vest.1, sc);
        match migrated(&p, t)? {
            None => Ok(()),
            Some(m) => {
                ensure(ppm + 200 >= 100_000, || format!("a configuration that keeps only {ppm} ppm locked for a day was accepted"))?;
                let locked: u128 = m.held.iter().map(|h| h.parts[1] + h.parts[2] - released(&h.pos, m.now + DAY)).sum();
                let tol = 3 * grain(&m.c, &m.q) + m.all / 5_000 + 1_000;
                ensure(locked + tol >= m.all / 10, || format!("only {locked} of {} liquidity is still locked after a day", m.all))?;
                let fair = mul_floor(m.all, ppm as u128, 1_000_000).to_u128().unwrap();
                ensure(locked + tol >= fair, || format!("{locked} liquidity is still locked after a day, configured {fair}"))
            }
        }
    });
    // permanent shares around ten percent
    let mut cases = vec![];
    for a in 0..=12u8 {
        for b in 0..=12u8 {
            for opt in 0..2u8 {
                for t22 in [false, true] {
                    cases.push((a, b, opt, t22));
                }
            }
        }
    }
    cx.cases("permanent", &cases, |(a, b, opt, t22), t| {
        let mut p = target(*opt, 2, 0);
        p.token_type = *t22 as u8;
        p.partner_permanent_locked_liquidity_percentage = *a;
        p.creator_permanent_locked_liquidity_percentage = *b;
        p.partner_liquidity_percentage = 30;
        p.creator_liquidity_percentage = 70 - a - b;
        let ok = a + b >= 10 && (*opt == 1 || !*t22);
        let w = build_world("permanent", &p, false);
        ensure(w.is_ok() == ok, || format!("{} percent locked: accepted={}", a + b, w.is_ok()))?;
        let Ok(w) = w else {
            t.hit("refused");
            return Ok(());
        };
        let mut acts = finish_acts(&w);
        acts.extend(migrate_acts(&w));
        let bk = drive(&w.w.bank, &w.w.p, &acts)?;
        t.hit("migrated");
        let pl = &w.w.p;
        if *opt == 1 {
            let (lk, all) = holdings(&bk, pl)?.iter().fold((0, 0), |x, h| (x.0 + h.parts[1], x.1 + h.parts.iter().sum::<u128>()));
            return ensure(lk + all / 1_000 >= all / 10, || format!("{lk} of {all} locked"));
        }
        // DAMM v1: lock what is to be locked, and nothing locked can be claimed
        let n = pl.v1_names(&v1_config_key(pl));
        let all = bk.tokens(&n.lp);
        let mut bk = bk;
        for o in ["partner", "creator"] {
            for a in [Act::V1Claim { owner: o, sender: "stranger" }, Act::V1Lock { owner: o }] {
                let r = run_tx(&bk, std::slice::from_ref(pl), &ix1(a))?;
                if r.ok {
                    bk = r.bank;
                }
            }
        }
        let lk: u64 = ["partner", "creator"].iter().map(|o| bk.tokens(&pl.v1_lock_escrow(&n, &key(o)).1)).sum();
        ensure((lk as u128 + 4) * 10 >= all as u128, || format!("{lk} of {all} liquidity tokens locked"))
    });
}

// ------------------------------------------------------------------ P32
pub fn p32(cx: &Cx) {
    const SOL: u64 = 1_000_000_000;
    let deeds = [Deed::Steal(1), Deed::Steal(5_000), Deed::Steal(SOL / 10), Deed::StealAll, Deed::Assign, Deed::Allocate(1), Deed::Allocate(10_000)];
    // every operation that calls out, at the stage where it is accepted
    let mut moments: Vec<(String, Bank, Pool, Act)> = vec![];
    for w in life_worlds(cx) {
        let mut b = w.w.bank.clone();
        let p = w.w.p.clone();
        let mut acts = vec![Act::swap(true, 1, BIG)];
        acts.extend(finish_acts(&w).into_iter().skip(1));
        acts.extend(migrate_acts(&w));
        if p.cfg(&b).migration_option == 0 {
            for owner in ["partner", "creator"] {
                acts.push(Act::V1Lock { owner });
                acts.push(Act::V1Claim { owner, sender: "stranger" });
            }
        }
        acts.extend(op_list());
        let mut seen: Vec<std::mem::Discriminant<Act>> = vec![];
        for a in acts {
            let Ok(r) = run_tx(&b, std::slice::from_ref(&p), &ix1(a)) else {
                cx.fail(Bad { scn: w.name.clone(), path: vec![], msg: format!("{a:?} differs from the model"), acts: vec![] });
                break;
            };
            if r.ok {
                let d = std::mem::discriminant(&a);
                let twice = matches!(a, Act::V1Lock { .. } | Act::V1Claim { .. });
                if !a.is_env() && (twice || !seen.contains(&d)) {
                    moments.push((w.name.clone(), b.clone(), p.clone(), a));
                    seen.push(d);
                }
                b = r.bank;
            }
        }
        // creation: the pool's accounts removed again
        let mut fresh = base_bank();
        put_mint(&mut fresh, key("quote"), 6, u64::MAX / 2, Some(key("faucet")), None, p.quote_prog);
        if fresh.exec1(p.ix_create_config(&w.w.params)).ok() {
            moments.push((w.name.clone(), fresh, p, Act::Init));
        }
    }
    // liquidity shares that need both positions to be locked
    for k in [(0u8, 0u8), (6, 1), (6, 2)] {
        let mut p = target(1, k.0, k.1);
        shares(&mut p, &Shares { partner: [20, 10, 10], creator: [30, 10, 20] }, 0, 1);
        for w in build_all(cx, vec![(format!("both locked {k:?}"), p, false)]) {
            if let Some(b) = drive_or(cx, &w.name, &w.w.bank, &w.w.p, &finish_acts(&w)) {
                moments.push((w.name.clone(), b, w.w.p.clone(), Act::MigrateV2 { second: true }));
            }
        }
    }
    let mut cases = vec![];
    for m in 0..moments.len() {
        // balances of the authority: as funded, large
        for rich in [false, true] {
            cases.push((m, 0, rich, None));
            for nth in 0..10 {
                for d in deeds {
                    cases.push((m, nth, rich, Some(d)));
                }
            }
        }
    }
    cx.cases("misdeeds", &cases, |(m, nth, rich, deed), t| {
        let (_, b, p, act) = &moments[*m];
        let mut b = b.clone();
        if *rich {
            let mut a = b.get(&auth()).unwrap().clone();
            a.lamports += 50 * SOL;
            b.put(auth(), a);
        }
        let before = b.get(&auth()).cloned().unwrap_or_default();
        let i = if *act == Act::Init { p.ix_init_pool() } else { build_for(p, &p.cfg(&b), act).ok_or("not an instruction")? };
        let d = b.digest();
        let o = b.exec(&[i], deed.map(|deed| Rogue { nth: *nth, victim: auth(), deed }));
        let after = b.get(&auth()).cloned().unwrap_or_default();
        if deed.is_none() {
            ensure(o.ok(), || format!("{act:?} was refused {:?}", o.err))?;
            return ensure(before == after, || format!("{act:?} left the authority with {} of {} lamports", after.lamports, before.lamports));
        }
        if !o.acted {
            return Ok(());
        }
        t.hit(format!("{} misdeed: {}", act_kind(act), if o.ok() { "accepted" } else { "refused" }));
        if o.ok() {
            ensure(after.lamports >= before.lamports && after.owner == before.owner && after.data == before.data, || {
                format!("{deed:?} during {act:?} succeeded: lamports {} -> {}, owner {}, {} bytes", before.lamports, after.lamports, after.owner, after.data.len())
            })
        } else {
            ensure(b.digest() == d, || "a refused operation left a trace".into())
        }
    });
}
