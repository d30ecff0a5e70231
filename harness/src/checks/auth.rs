//! P16, P17, P29, P31, P33, P34: who may do what, with which accounts
use super::claims::op_list;
use super::common::*;
use super::life::*;
use std::collections::BTreeMap;
use anchor_lang::solana_program::instruction::{AccountMeta, Instruction};

// ------------------------------------------------------------------ universes
/// three pools in step: A and B share configuration and parties, C shares nothing
#[derive(Clone)]
pub struct Uni {
    pub name: String,
    pub bank: Bank,
    pub pools: Vec<Pool>,
}
pub fn accept(b: &mut Bank, i: Instruction, what: &str) -> Result<(), String> {
    let o = b.exec1(i);
    ensure(o.ok(), || format!("{what} was refused {:?} {:?}", o.err, o.logs))
}
pub fn universe(name: &str, params: &ConfigParameters) -> Result<Uni, String> {
    let w = build_world(name, params, false)?;
    let (mut b, a) = (w.w.bank, w.w.p);
    let t22 = params.token_type == 1;
    let bb = Pool::with(a.config, key("mintB"), a.quote_mint, a.quote_prog, t22);
    accept(&mut b, bb.ix_init_pool(), "second pool")?;
    put_mint(&mut b, key("quote2"), 6, u64::MAX / 2, Some(key("faucet")), None, SPL);
    let mut c = Pool::named("C", key("quote2"), SPL, t22);
    (c.creator, c.partner, c.leftover) = (key("trader2"), key("stranger"), key("referrer"));
    accept(&mut b, c.ix_create_config(params), "second configuration")?;
    accept(&mut b, c.ix_init_pool(), "third pool")?;
    for p in [&bb, &c] {
        put_user_atas(&mut b, p, 1 << 60);
        put_external(&mut b, p);
    }
    // configurations without pools, differing in value: one of other people, one of the same partner
    for (n, theirs) in [("other1", false), ("other2", true)] {
        let mut f = Pool::named(n, key("quote"), SPL, t22);
        if theirs {
            (f.partner, f.leftover) = (a.partner, a.leftover);
        } else {
            (f.creator, f.partner, f.leftover) = (key("trader2"), key("stranger"), key("referrer"));
        }
        accept(&mut b, f.ix_create_config(&differing(params)), "another configuration")?;
    }
    put_operator(&mut b, &key("referrer"), 1);
    put_operator(&mut b, &key("trader"), 2);
    put_operator(&mut b, &key("newcreator"), 0);
    Ok(Uni { name: name.into(), bank: b, pools: vec![a, bb, c] })
}
/// a configuration in which everything that could matter is different
fn differing(p: &ConfigParameters) -> ConfigParameters {
    let mut d = p.clone();
    scheduler(&mut d, 0, 170_000_000, 0, 0, 0);
    d.pool_fees.dynamic_fee = None;
    d.collect_fee_mode = 1 - p.collect_fee_mode;
    d.creator_trading_fee_percentage = if p.creator_trading_fee_percentage == 61 { 62 } else { 61 };
    d.migration_fee = MigrationFee { fee_percentage: 23, creator_fee_percentage: 67 };
    d.pool_creation_fee = 71_000_000;
    d.migration_quote_threshold = p.migration_quote_threshold / 2;
    d.token_update_authority = 1 - p.token_update_authority.min(1);
    (d.partner_liquidity_percentage, d.partner_permanent_locked_liquidity_percentage, d.creator_liquidity_percentage, d.creator_permanent_locked_liquidity_percentage) = (5, 55, 15, 25);
    (d.partner_liquidity_vesting_info, d.creator_liquidity_vesting_info) = Default::default();
    d.token_supply = None;
    d.locked_vesting = LockedVestingParams { amount_per_period: 7, cliff_duration_from_migration_time: 3, frequency: 5, number_of_period: 9, cliff_unlock_amount: 2 };
    d
}
fn uni_params(cx: &Cx) -> Vec<(String, ConfigParameters)> {
    let mut v = vec![];
    for (n, opt, fee_opt, mode, t22, sup, vest, collect) in [
        ("v1", 0u8, 2u8, 0u8, false, 0, true, 0u8),
        ("v2", 1, 6, 1, false, 2, true, 1),
        ("v2t22", 1, 0, 0, true, 2, false, 0),
        ("v1fixed", 0, 5, 0, false, 2, false, 1),
        ("v2comp", 1, 6, 2, true, 1, true, 0),
    ] {
        if !cx.thorough && n == "v1fixed" {
            continue;
        }
        let mut p = target(opt, fee_opt, mode);
        p.token_type = t22 as u8;
        p.collect_fee_mode = collect;
        p.pool_creation_fee = 50_000_007;
        (p.partner_liquidity_percentage, p.partner_permanent_locked_liquidity_percentage, p.creator_liquidity_percentage, p.creator_permanent_locked_liquidity_percentage) = (30, 20, 35, 15);
        if vest {
            vesting_on(&mut p);
        }
        set_supply(&mut p, sup, t22);
        if n == "v2t22" {
            let t = p.migration_quote_threshold;
            limiter(&mut p, 10_000_000, 100, 43_200, t / 10);
        }
        v.push((n.to_string(), p));
    }
    v
}
pub fn universes(cx: &Cx) -> Vec<Uni> {
    let mut v = vec![];
    for (n, p) in uni_params(cx) {
        match universe(&n, &p) {
            Ok(u) => v.push(u),
            Err(msg) => {
                if !cx.skip(&n) {
                    cx.fail(Bad { scn: n, path: vec![], msg, acts: vec![] })
                }
            }
        }
    }
    v
}
pub fn party(k: &Pubkey) -> Who {
    ACTORS.iter().find(|a| key(a) == *k).copied().unwrap()
}
/// the same life for every pool: list of (stage, actions)
pub fn life_of(u: &Uni, i: usize, b: &Bank) -> Vec<(&'static str, Vec<Act>)> {
    let p = &u.pools[i];
    let c = p.cfg(b);
    let t = c.migration_quote_threshold;
    let r = |buy, mode, a0| Act::Swap { who: "trader", buy, mode, a0, a1: if mode == 2 { u64::MAX } else { 0 }, referral: Some("referrer"), legacy: false };
    let mut lock = vec![];
    if has_vest(&c) {
        lock.push(Act::Locker { creator: party(&p.creator) });
    }
    let mut mig = if c.migration_option == 0 { vec![Act::V1Meta, Act::MigrateV1] } else { vec![Act::MigrateV2 { second: true }] };
    let last = mig.pop().unwrap();
    lock.extend(mig);
    vec![
        ("traded", vec![r(true, 1, t / 3 + i as u64 * 7), Act::Swap { who: "trader2", buy: true, mode: 1, a0: t / 20, a1: 0, referral: None, legacy: false }]),
        ("complete", vec![r(true, 1, BIG)]),
        ("ready", lock),
        ("migrated", vec![last]),
    ]
}
pub fn uni_stages(u: &Uni) -> Result<Vec<(String, Uni)>, String> {
    let mut v = vec![("fresh".to_string(), u.clone())];
    let mut b = u.bank.clone();
    for s in 0..4 {
        let mut any = false;
        let mut n = "";
        for i in 0..u.pools.len() {
            let (nm, acts) = life_of(u, i, &u.bank).swap_remove(s);
            n = nm;
            for a in acts {
                any = true;
                let r = run_tx(&b, std::slice::from_ref(&u.pools[i]), &ix1(a)).map_err(|m| format!("{a:?}: {m}"))?;
                ensure(r.ok, || format!("{a:?} was refused {:?}", r.out.err))?;
                b = r.bank;
            }
        }
        if any {
            v.push((n.into(), Uni { bank: b.clone(), ..u.clone() }));
        }
    }
    Ok(v)
}
pub fn for_pool(p: &Pool, a: Act) -> Act {
    let (c, f) = (party(&p.creator), party(&p.partner));
    let w = |x: Who| if x == "creator" { c } else if x == "partner" { f } else { x };
    match a {
        Act::ClaimPartner { who, a, b } => Act::ClaimPartner { who: w(who), a, b },
        Act::ClaimCreator { who, a, b } => Act::ClaimCreator { who: w(who), a, b },
        Act::PartnerCreationFee { who, to } => Act::PartnerCreationFee { who: w(who), to },
        Act::PartnerSurplus { who } => Act::PartnerSurplus { who: w(who) },
        Act::CreatorSurplus { who } => Act::CreatorSurplus { who: w(who) },
        Act::MigFee { who, flag } => Act::MigFee { who: w(who), flag },
        Act::Transfer { who, new, meta } => Act::Transfer { who: w(who), new, meta },
        Act::Locker { creator } => Act::Locker { creator: w(creator) },
        Act::V1Lock { owner } => Act::V1Lock { owner: w(owner) },
        Act::V1Claim { owner, sender } => Act::V1Claim { owner: w(owner), sender },
        x => x,
    }
}
pub fn ops_of(p: &Pool, t: u64) -> Vec<Act> {
    let mut v: Vec<Act> = op_list().into_iter().filter(|a| !a.is_env()).map(|a| for_pool(p, a)).collect();
    for buy in [true, false] {
        for referral in [None, Some("referrer")] {
            v.push(Act::Swap { who: "trader", buy, mode: 1, a0: t / 30 + 3, a1: 0, referral, legacy: false });
        }
        v.push(Act::Swap { who: "trader", buy, mode: 0, a0: t / 40 + 3, a1: 0, referral: Some("referrer"), legacy: true });
    }
    v
}
/// an instruction that is accepted
#[derive(Clone)]
pub struct Moment {
    pub name: String,
    pub uni: Uni,
    pub ix: Instruction,
    /// the same operation on the other pools
    pub twins: Vec<Instruction>,
}
pub fn moments(cx: &Cx) -> Vec<Moment> {
    let mut v: Vec<Moment> = vec![];
    for u in universes(cx) {
        let st = match uni_stages(&u) {
            Ok(s) => s,
            Err(msg) => {
                cx.fail(Bad { scn: u.name.clone(), path: vec![], msg, acts: vec![] });
                continue;
            }
        };
        for (s, x) in st {
            let p = &x.pools[0];
            let t = p.cfg(&x.bank).migration_quote_threshold;
            for a in ops_of(p, t) {
                let Ok(r) = run_tx(&x.bank, &x.pools[..1], &ix1(a)) else {
                    cx.fail(Bad { scn: format!("{}/{s}", u.name), path: vec![], msg: format!("{a:?} differs from the model"), acts: vec![] });
                    continue;
                };
                if r.ok {
                    let mk = |q: &Pool| build_for(q, &q.cfg(&x.bank), &for_pool(q, a)).unwrap();
                    v.push(Moment { name: format!("{}/{s}/{}", u.name, act_kind(&a)), uni: x.clone(), ix: mk(p), twins: x.pools[1..].iter().map(mk).collect() });
                }
            }
            for (n, ix, tw) in [
                ("pool metadata", p.ix_pool_metadata(&p.creator), x.pools[1..].iter().map(|q| q.ix_pool_metadata(&q.creator)).collect::<Vec<_>>()),
                ("partner metadata", ix_partner_metadata(&p.partner, &key("payer")), vec![ix_partner_metadata(&x.pools[2].partner, &key("payer"))]),
                ("create operator", ix_create_operator(&key("stranger"), &admin(), 1), vec![ix_create_operator(&key("creator"), &admin(), 1)]),
                ("close operator", ix_close_operator(&key("operator"), &admin(), &key("stranger")), vec![ix_close_operator(&key("referrer"), &admin(), &key("creator"))]),
            ] {
                let mut b = x.bank.clone();
                if b.exec1(ix.clone()).ok() {
                    v.push(Moment { name: format!("{}/{s}/{n}", u.name), uni: x.clone(), ix, twins: tw });
                } else {
                    cx.fail(Bad { scn: format!("{}/{s}", u.name), path: vec![], msg: format!("{n} was refused"), acts: vec![] });
                }
            }
            if s == "fresh" {
                // creation of pool and configuration
                let mut b = x.bank.clone();
                let t22 = p.base_prog == T22;
                let q = Pool::with(p.config, key("mintD"), p.quote_mint, p.quote_prog, t22);
                let mut q2 = Pool::with(x.pools[2].config, key("mintE"), x.pools[2].quote_mint, SPL, t22);
                (q2.creator, q2.partner) = (x.pools[2].creator, x.pools[2].partner);
                if b.exec1(q.ix_init_pool()).ok() {
                    v.push(Moment { name: format!("{}/{s}/create pool", u.name), uni: x.clone(), ix: q.ix_init_pool(), twins: vec![q2.ix_init_pool()] });
                } else {
                    cx.fail(Bad { scn: format!("{}/{s}", u.name), path: vec![], msg: "pool creation was refused".into(), acts: vec![] });
                }
            }
        }
    }
    v
}
// ------------------------------------------------------------------ P17
pub fn tokens_of(b: &Bank, k: &Pubkey) -> Option<u64> {
    let a = b.get(k)?;
    (a.owner == SPL || a.owner == T22).then_some(())?;
    (a.data.len() == 165 || a.data.len() > 165 && a.data[165] == 2).then(|| u64::from_le_bytes(a.data[64..72].try_into().unwrap()))
}
pub fn p17(cx: &Cx) {
    super::config::foreign_quotes(cx);
    exchanges(cx, |_| true)
}
/// no account of these operations can be exchanged for another
pub fn exchanges(cx: &Cx, wanted: impl Fn(&str) -> bool + Sync) {
    let ms: Vec<Moment> = moments(cx).into_iter().filter(|m| wanted(m.name.rsplit('/').next().unwrap())).collect();
    refused_exchanges(cx, &wanted);
    let mut cases = vec![];
    for (i, m) in ms.iter().enumerate() {
        for s in 0..m.ix.accounts.len() {
            cases.push((i, s));
        }
    }
    cx.cases("substitution", &cases, |(i, s), t| {
        let m = &ms[*i];
        let b = &m.uni.bank;
        let mut base = b.clone();
        ensure(base.exec1(m.ix.clone()).ok(), || "not accepted".into())?;
        let orig = m.ix.accounts[*s].pubkey;
        let mut cand: Vec<(Pubkey, Option<Acc>, &str)> = b.accs.keys().map(|k| (*k, None, "other")).collect();
        for n in ["nothing", "nothing2"] {
            cand.push((key(n), None, "absent"));
        }
        for x in m.twins.iter() {
            if let Some(a) = x.accounts.get(*s) {
                cand.push((a.pubkey, None, "twin"));
            }
        }
        let fake = key("counterfeit");
        if let Some(a) = b.get(&orig) {
            let a = a.clone();
            for o in [key("evil program"), SPL, T22, system_id(), dbc::ID] {
                // a real account of the program itself cannot be forged
                if o == a.owner && o != SPL && o != T22 || o == dbc::ID {
                    continue;
                }
                cand.push((fake, Some(Acc { owner: o, ..a.clone() }), "counterfeit"));
            }
        }
        for (k, acc, what) in cand {
            if k == orig {
                continue;
            }
            let mut x = b.clone();
            if let Some(a) = acc {
                x.put(k, a);
            }
            let x0 = x.clone();
            let mut ix = m.ix.clone();
            ix.accounts[*s].pubkey = k;
            let o = x.exec1(ix.clone());
            t.transitions += 1;
            if !o.ok() {
                t.hit("refused");
                ensure(x.digest() == x0.digest(), || "a refused operation left a trace".into())?;
                continue;
            }
            let mut rest = x.clone();
            rest.accs.remove(&fake);
            // either administrator may act
            let admins = ADMINS.contains(&orig) && ADMINS.contains(&k);
            if rest.digest() == base.digest() && (admins || !m.ix.accounts[*s].is_signer || free_slots(&m.name).0.contains(s)) {
                t.hit("accepted, irrelevant");
                continue;
            }
            t.hit("accepted, free choice");
            ensure(free_slots(&m.name).0.contains(s), || format!("{}: account {s} ({orig}) was replaced by {k} ({what}), accepted with another effect", m.name))?;
            nobody_else_loses(m, &x0, &x, &ix, &[orig, k])?;
        }
        Ok(())
    });
    // a program of the caller's own that takes any instruction, together with one more exchange
    let mut cases = vec![];
    for (i, m) in ms.iter().enumerate() {
        for s in 0..m.ix.accounts.len() {
            if m.uni.bank.get(&m.ix.accounts[s].pubkey).map_or(false, |a| a.executable) && m.ix.accounts[s].pubkey != dbc::ID {
                cases.push((i, s));
            }
        }
    }
    // genuine pools, positions and locks of other origin
    let mut foreign: BTreeMap<(Pubkey, usize), Acc> = BTreeMap::new();
    for m in &ms {
        for a in m.uni.bank.accs.values() {
            if [damm_v2::ID, dynamic_amm::ID, locker::ID].contains(&a.owner) {
                foreign.entry((a.owner, a.data.len())).or_insert_with(|| (**a).clone());
            }
        }
    }
    cx.cases("impostors", &cases, |(i, s), t| {
        let m = &ms[*i];
        let mut b = m.uni.bank.clone();
        for (n, a) in foreign.values().enumerate() {
            b.put(key(&format!("foreign{n}")), a.clone());
        }
        // one that does what it is asked and helps itself with the signatures it was given
        if let Some(t2) = mocks::thief_of(&m.ix.accounts[*s].pubkey) {
            let mut ix = m.ix.clone();
            let real = ix.accounts[*s].pubkey;
            for a in ix.accounts.iter_mut().filter(|a| a.pubkey == real) {
                a.pubkey = t2;
            }
            let mut x = b.clone();
            let mut y = b.clone();
            let o = x.exec1(ix);
            t.transitions += 1;
            t.hit(if o.ok() { "thief accepted without effect".into() } else { "thief refused".to_string() });
            ensure(!o.ok() || y.exec1(m.ix.clone()).ok() && y.digest() == x.digest(), || format!("{}: a program in the place of {s} ({real}) used the signatures given to it", m.name))?;
        }
        let mut ix = m.ix.clone();
        ix.accounts[*s].pubkey = mocks::impostor_id();
        for k in 0..ix.accounts.len() {
            if k == *s {
                continue;
            }
            let orig = ix.accounts[k].pubkey;
            for c in b.accs.keys() {
                if *c == orig {
                    continue;
                }
                ix.accounts[k].pubkey = *c;
                let mut x = b.clone();
                let o = x.exec1(ix.clone());
                t.transitions += 1;
                t.hit(if o.ok() { "impostor accepted" } else { "impostor refused" });
                if !o.ok() {
                    continue;
                }
                // harmless only where the true program would have had the same outcome
                let mut y = b.clone();
                let mut real = ix.clone();
                real.accounts[*s].pubkey = m.ix.accounts[*s].pubkey;
                ensure(y.exec1(real).ok() && y.digest() == x.digest(), || format!("{}: program {s} ({}) was replaced by another, with account {k} ({orig}) as {c}, and accepted", m.name, m.ix.accounts[*s].pubkey))?;
            }
            ix.accounts[k].pubkey = orig;
        }
        Ok(())
    });
    // every mixture of the accounts of two pools
    let mut cases = vec![];
    for (i, m) in ms.iter().enumerate() {
        for j in 0..m.twins.len() {
            cases.push((i, j));
        }
    }
    cx.cases("mixtures", &cases, |(i, j), t| {
        let m = &ms[*i];
        let (a, o) = (&m.ix, &m.twins[*j]);
        ensure(a.accounts.len() == o.accounts.len(), || "operations of different shape".into())?;
        // the other side's own account for this side's token
        let mut start = m.uni.bank.clone();
        let mut cross: BTreeMap<usize, Pubkey> = BTreeMap::new();
        for s in 0..a.accounts.len() {
            if let (Some(x), Some(y)) = (as_ata(&start, &a.accounts[s].pubkey), as_ata(&start, &o.accounts[s].pubkey)) {
                if x.0 != y.0 && x.1 != y.1 {
                    let k = ata(&y.0, &x.1, &x.2);
                    if start.get(&k).is_none() {
                        put_ata(&mut start, y.0, x.1, 0, x.2);
                    }
                    cross.insert(s, k);
                }
            }
        }
        let mut res = vec![];
        for i in [a, o] {
            let mut b = start.clone();
            if b.exec1(i.clone()).ok() {
                res.push(b.digest());
            }
        }
        let (mut free, ext) = free_slots(&m.name);
        // one may choose among one's own pools only
        match m.name.rsplit('/').next().unwrap() {
            "partner claims creation fee" | "protocol claims creation fee" => free.retain(|s| *s != 1),
            "transfer creator" => free.retain(|s| *s != 0),
            _ => {}
        }
        let slots: Vec<usize> = (0..a.accounts.len()).filter(|s| a.accounts[*s].pubkey != o.accounts[*s].pubkey).collect();
        // accounts only the external program looks at travel with the first of them
        let (group, mut single): (Vec<usize>, Vec<usize>) = slots.iter().partition(|s| ext.contains(s));
        let mut units: Vec<Vec<usize>> = single.drain(..).map(|s| vec![s]).collect();
        if !group.is_empty() {
            units.push(group);
        }
        let n = units.len();
        for (mask, crossed) in (1u64..(1 << n) - 1).flat_map(|m| [(m, false), (m, true)]) {
            if crossed && cross.is_empty() {
                continue;
            }
            let k = mask.count_ones() as usize;
            if n > 11 && k > 2 && k < n - 2 {
                continue;
            }
            let mut ix = a.clone();
            let (mut bound, mut taken) = (0, 0);
            for (u, unit) in units.iter().enumerate() {
                let is_bound = unit.iter().any(|s| !free.contains(s) && !ext.contains(s));
                bound += is_bound as usize;
                if mask >> u & 1 == 1 {
                    taken += is_bound as usize;
                    for s in unit {
                        ix.accounts[*s] = o.accounts[*s].clone();
                        if let (Some(k), true) = (cross.get(s), crossed) {
                            ix.accounts[*s].pubkey = *k;
                        }
                    }
                }
            }
            let mut b = start.clone();
            let r = b.exec1(ix.clone());
            t.transitions += 1;
            if !r.ok() {
                t.hit("mixture refused");
                continue;
            }
            let signer = |s: &usize| a.accounts[*s].is_signer && !free.contains(s);
            let other_hand = units.iter().enumerate().any(|(u, unit)| mask >> u & 1 == 1 && unit.iter().any(signer));
            let own_hand = units.iter().enumerate().any(|(u, unit)| mask >> u & 1 == 0 && unit.iter().any(signer));
            if res[0] == b.digest() && !other_hand || res[1..].contains(&b.digest()) && !own_hand {
                t.hit("mixture without effect of its own");
                continue;
            }
            t.hit("mixture of free choices");
            let took = || units.iter().enumerate().filter(|(u, _)| mask >> u & 1 == 1).map(|x| x.1.clone()).collect::<Vec<_>>();
            ensure(taken == 0 || taken == bound, || format!("{}: accepted with accounts {:?} of another pool", m.name, took()))?;
            if taken == 0 {
                let swapped: Vec<Pubkey> = took().into_iter().flatten().flat_map(|s| [a.accounts[s].pubkey, o.accounts[s].pubkey]).collect();
                nobody_else_loses(m, &start, &b, &ix, &swapped)?;
            }
        }
        Ok(())
    });
}
/// (owner, mint, token program) of an associated token account
fn as_ata(b: &Bank, k: &Pubkey) -> Option<(Pubkey, Pubkey, Pubkey)> {
    tokens_of(b, k)?;
    let a = b.get(k)?;
    let (mint, owner) = (Pubkey::try_from(&a.data[..32]).unwrap(), Pubkey::try_from(&a.data[32..64]).unwrap());
    (ata(&owner, &mint, &a.owner) == *k).then_some((owner, mint, a.owner))
}
/// what is refused stays refused when one account is exchanged for another pool's, whatever stages the two pools are in
fn refused_exchanges(cx: &Cx, wanted: impl Fn(&str) -> bool + Sync) {
    let us = universes(cx);
    let mut cases = vec![];
    for i in 0..us.len() {
        for a in 0..6 {
            for o in 0..6 {
                cases.push((i, a, o));
            }
        }
    }
    cx.cases("refused with one account exchanged", &cases, |(i, sa, so), t| {
        let u = &us[*i];
        let mut b = u.bank.clone();
        for (k, p) in u.pools.iter().enumerate() {
            let to = if k == 0 { *sa } else { *so };
            for s in 0..to {
                let acts = if s < 4 { life_of(u, k, &u.bank).swap_remove(s).1 } else { finish(p, &p.cfg(&b)) };
                for a in acts {
                    let ix = build_for(p, &p.cfg(&b), &a).unwrap();
                    accept(&mut b, ix, act_kind(&a))?;
                }
            }
        }
        let p = &u.pools[0];
        for a in ops_of(p, p.cfg(&b).migration_quote_threshold) {
            if !wanted(act_kind(&a)) {
                continue;
            }
            let own = build_for(p, &p.cfg(&b), &a).unwrap();
            if b.clone().exec1(own.clone()).ok() {
                continue;
            }
            let (free, _) = free_slots(act_kind(&a));
            for q in &u.pools[1..] {
                let theirs = build_for(q, &q.cfg(&b), &for_pool(q, a)).unwrap();
                let mut pure = b.clone();
                let pure = pure.exec1(theirs.clone()).ok().then(|| pure.digest());
                let n = own.accounts.len().min(theirs.accounts.len());
                let slots: Vec<usize> = (0..n).filter(|s| own.accounts[*s].pubkey != theirs.accounts[*s].pubkey).collect();
                let mut sets: Vec<Vec<usize>> = slots.iter().map(|s| vec![*s]).collect();
                if cx.thorough {
                    for (k, x) in slots.iter().enumerate() {
                        sets.extend(slots[..k].iter().map(|y| vec![*y, *x]));
                    }
                }
                for set in sets {
                    let mut ix = own.clone();
                    for s in &set {
                        ix.accounts[*s] = theirs.accounts[*s].clone();
                    }
                    let mut x = b.clone();
                    let o = x.exec1(ix);
                    t.transitions += 1;
                    if !o.ok() {
                        continue;
                    }
                    t.hit("accepted as the other pool's operation");
                    ensure(Some(x.digest()) == pure || set.iter().all(|s| free.contains(s)), || {
                        format!("{}: refused at stage {sa}, but accepted with accounts {set:?} of a pool at stage {so}", act_kind(&a))
                    })?;
                }
            }
        }
        Ok(())
    });
}
/// everything that can still be done after migration
fn finish(p: &Pool, c: &PoolConfig) -> Vec<Act> {
    let mut v = vec![];
    if c.migration_option == 0 {
        for (who, locked, open) in [
            (p.creator, c.creator_permanent_locked_liquidity_percentage, c.creator_liquidity_percentage),
            (p.partner, c.partner_permanent_locked_liquidity_percentage, c.partner_liquidity_percentage),
        ] {
            if locked > 0 {
                v.push(Act::V1Lock { owner: party(&who) });
            }
            if open > 0 {
                v.push(Act::V1Claim { owner: party(&who), sender: "stranger" });
            }
        }
    }
    v
}
/// (accounts the caller may choose, accounts only an external program looks at)
fn free_slots(name: &str) -> (Vec<usize>, Vec<usize>) {
    let op = name.rsplit('/').next().unwrap();
    let f: &[usize] = match op {
        // one's own tokens in, tokens out to anybody, anybody's referral account
        "buy exact-in" | "buy partial-fill" | "sell exact-in" | "sell partial-fill" => &[3, 4, 12],
        // recipients of the claimant's choice
        "partner claims trading fee" => &[3, 4],
        "creator claims trading fee" => &[2, 3],
        "migration fee" | "partner surplus" | "creator surplus" => &[3],
        // which of one's pools, and the recipient
        "partner claims creation fee" => &[1, 3],
        "protocol claims creation fee" => &[1],
        "transfer creator" => &[0, 3],
        "close operator" => &[0, 2],
        // whoever pays; the creator of a new pool
        "create operator" => &[3],
        "create pool" => &[2, 8, 10],
        "locker" => &[9],
        "migrate v1" => &[22],
        "migrate v2" => &[19],
        "v1 metadata" | "pool metadata" => &[3],
        "partner metadata" => &[1],
        // anybody may deliver liquidity tokens
        "v1 claim" => &[7],
        _ => &[],
    };
    // checked by DAMM v1 and the locker, not by this program
    let e: &[usize] = match op {
        "migrate v1" => &[9, 10, 11, 12, 13, 14, 15, 16, 20, 21, 24, 25],
        "v1 lock" => &[8, 10, 11, 12, 13, 14, 15],
        "locker" => &[8],
        _ => &[],
    };
    ([f, e].concat(), e.to_vec())
}
/// whoever ends up with less must have signed, be a pool's own account that loses the same in the ordinary run, or be the record closed
fn nobody_else_loses(m: &Moment, b: &Bank, x: &Bank, ix: &Instruction, swapped: &[Pubkey]) -> Result<(), String> {
    let signed = |k: &Pubkey| ix.accounts.iter().any(|a| a.is_signer && a.pubkey == *k);
    let mut base = m.uni.bank.clone();
    base.exec1(m.ix.clone());
    for (k, before) in &b.accs {
        let (l0, l1) = (before.lamports, x.lamports(k));
        if l1 < l0 && !signed(k) {
            let usual = m.uni.bank.lamports(k) - base.lamports(k).min(m.uni.bank.lamports(k));
            let own = swapped.contains(k) && ix.accounts.iter().any(|a| a.pubkey == *k);
            ensure(l0 - l1 <= usual || own && before.owner == dbc::ID, || format!("{k} lost {} lamports", l0 - l1))?;
        }
        if let Some(t0) = tokens_of(b, k) {
            let t1 = tokens_of(x, k).unwrap_or(0);
            let owner = Pubkey::try_from(&before.data[32..64]).unwrap();
            if t1 < t0 && !signed(&owner) {
                let (u0, u1) = (tokens_of(&m.uni.bank, k).unwrap_or(0), tokens_of(&base, k).unwrap_or(0));
                // naming or omitting a referrer moves fees from the pool's own vault
                let vault = m.name.contains("/buy ") || m.name.contains("/sell ");
                let own = vault && [m.uni.pools[0].base_vault, m.uni.pools[0].quote_vault].contains(k);
                ensure(own || t0 - t1 <= u0.saturating_sub(u1), || format!("{k} lost {} tokens", t0 - t1))?;
            }
        }
    }
    Ok(())
}
fn system_id() -> Pubkey {
    anchor_lang::solana_program::system_program::ID
}
