//! P16, P29, P31, P33, P34: who may do what; what never changes; independence of pools
use super::auth::*;
use super::common::*;
use anchor_lang::solana_program::instruction::Instruction;
use anchor_lang::Discriminator;

/// every stage of every universe, problems reported
fn all_stages(cx: &Cx) -> Vec<(String, Uni)> {
    let mut v = vec![];
    for u in universes(cx) {
        match uni_stages(&u) {
            Ok(s) => v.extend(s.into_iter().map(|(n, x)| (format!("{}/{n}", u.name), x))),
            Err(msg) => {
                if !cx.skip(&u.name) {
                    cx.fail(Bad { scn: u.name.clone(), path: vec![], msg, acts: vec![] })
                }
            }
        }
    }
    v
}
fn uni_scn(n: &str, u: &Uni, pools: &[usize], depth: usize, alphabet: impl Fn(&Bank) -> Vec<Tx> + Send + Sync + 'static) -> Scn {
    let mut s = scn(n, &u.bank, &u.pools[pools[0]], depth, alphabet);
    s.pools = pools.iter().map(|i| u.pools[*i].clone()).collect();
    s
}

// ------------------------------------------------------------------ P16
/// those who must sign
fn must_sign(a: &Act) -> Vec<Pubkey> {
    match *a {
        Act::Swap { who: w, .. }
        | Act::ClaimPartner { who: w, .. }
        | Act::ClaimCreator { who: w, .. }
        | Act::ClaimProtocol { who: w, .. }
        | Act::Zap { who: w, .. }
        | Act::ProtCreationFee { who: w, .. }
        | Act::PartnerCreationFee { who: w, .. }
        | Act::PartnerSurplus { who: w }
        | Act::CreatorSurplus { who: w }
        | Act::MigFee { who: w, .. }
        | Act::Transfer { who: w, .. }
        | Act::V1Claim { sender: w, .. } => vec![who(w)],
        Act::CreateOp { by, .. } | Act::CloseOp { by, .. } => vec![who(by)],
        Act::Init => vec![key("creator"), key("payer")],
        Act::Locker { .. } | Act::MigrateV2 { .. } | Act::V1Meta | Act::MigrateV1 => vec![key("payer")],
        Act::Leftover | Act::V1Lock { .. } | Act::Advance { .. } | Act::Donate { .. } => vec![],
    }
}
fn permission_of(b: &Bank, op: Who) -> u128 {
    let k = operator_key(&who(op));
    if b.get(&k).is_none() {
        return 0;
    }
    b.zc::<dbc::state::Operator>(&k).permission
}
/// who is entitled, by the documentation: Some(list), None = everybody
fn entitled(b: &Bank, p: &Pool, a: &Act) -> Option<Vec<Pubkey>> {
    let (c, s) = (p.cfg(b), p.state(b));
    let op = |w: Who, bit: u32| if permission_of(b, w) >> bit & 1 == 1 { vec![who(w)] } else { vec![] };
    Some(match *a {
        Act::ClaimPartner { .. } | Act::PartnerCreationFee { .. } | Act::PartnerSurplus { .. } | Act::MigFee { flag: 0, .. } => vec![c.fee_claimer],
        Act::ClaimCreator { .. } | Act::CreatorSurplus { .. } | Act::MigFee { .. } | Act::Transfer { .. } => vec![s.creator],
        Act::ClaimProtocol { op: o, .. } | Act::ProtCreationFee { op: o, .. } => op(o, 0),
        Act::Zap { op: o, .. } => op(o, 1),
        Act::CreateOp { .. } | Act::CloseOp { .. } => ADMINS.to_vec(),
        _ => return None,
    })
}
/// the operation as others would attempt it
fn as_others(a: Act) -> Vec<Act> {
    let mut everyone: Vec<Who> = ACTORS.to_vec();
    everyone.push("admin");
    let ops = ["operator", "referrer", "trader", "newcreator", "stranger"];
    let hands = ["operator", "referrer", "trader", "newcreator", "stranger", "partner", "creator"];
    let by_op = |f: &dyn Fn(Who, Who) -> Act| ops.iter().flat_map(|o| hands.iter().map(move |w| (*o, *w))).map(|(o, w)| f(o, w)).collect::<Vec<_>>();
    let each = |f: &dyn Fn(Who) -> Act| everyone.iter().map(|w| f(w)).collect::<Vec<_>>();
    match a {
        Act::ClaimPartner { a, b, .. } => each(&|w| Act::ClaimPartner { who: w, a, b }),
        Act::ClaimCreator { a, b, .. } => each(&|w| Act::ClaimCreator { who: w, a, b }),
        Act::PartnerCreationFee { to, .. } => each(&|w| Act::PartnerCreationFee { who: w, to }),
        Act::PartnerSurplus { .. } => each(&|w| Act::PartnerSurplus { who: w }),
        Act::CreatorSurplus { .. } => each(&|w| Act::CreatorSurplus { who: w }),
        Act::MigFee { flag, .. } => each(&|w| Act::MigFee { who: w, flag }),
        Act::Transfer { new, meta, .. } => each(&|w| Act::Transfer { who: w, new, meta }),
        Act::ClaimProtocol { a, b, .. } => by_op(&|op, w| Act::ClaimProtocol { op, who: w, a, b }),
        Act::Zap { base, max, .. } => by_op(&|op, w| Act::Zap { op, who: w, base, max }),
        Act::ProtCreationFee { .. } => by_op(&|op, w| Act::ProtCreationFee { op, who: w }),
        Act::Locker { .. } => ["creator", "partner", "newcreator", "stranger"].iter().map(|w| Act::Locker { creator: w }).collect(),
        Act::V1Lock { .. } => ["creator", "partner", "newcreator", "stranger"].iter().map(|w| Act::V1Lock { owner: w }).collect(),
        Act::V1Claim { .. } => {
            let h: [Who; 4] = ["creator", "partner", "newcreator", "stranger"];
            h.iter().flat_map(|o| h.iter().map(move |s| Act::V1Claim { owner: o, sender: s })).collect()
        }
        x => vec![x],
    }
}
fn wallet(b: &Bank, k: &Pubkey) -> (u64, Vec<(Pubkey, u64)>) {
    (b.lamports(k), b.accs.keys().filter_map(|t| {
        let n = tokens_of(b, t)?;
        (b.get(t)?.data[32..64] == k.to_bytes()).then_some((*t, n))
    }).collect())
}
fn rights(v: &View, _: &mut Vec<i128>) -> Result<(), String> {
    let Some(a) = v.act() else { return Ok(()) };
    if !v.ran.ok || a.is_env() {
        return Ok(());
    }
    let p = &v.pools[0];
    match entitled(v.before, p, a) {
        Some(l) => {
            let s = must_sign(a);
            ensure(s.iter().any(|k| l.contains(k)), || format!("{a:?} was performed by somebody without the right"))
        }
        None => {
            // open to everyone: it must not pay whoever asked for it
            if let Act::Swap { .. } = a {
                return Ok(());
            }
            for k in must_sign(a) {
                let own = matches!(a, Act::V1Claim { owner, .. } if who(owner) == k);
                let (x, y) = (wallet(v.before, &k), wallet(v.after(), &k));
                ensure(y.0 <= x.0, || format!("{a:?} paid lamports to its caller"))?;
                for (t, n) in y.1 {
                    let was = x.1.iter().find(|z| z.0 == t).map_or(0, |z| z.1);
                    ensure(own || n <= was, || format!("{a:?} paid tokens to its caller"))?;
                }
            }
            Ok(())
        }
    }
}
pub fn p16(cx: &Cx) {
    let st = all_stages(cx);
    let mut scns = vec![];
    for (n, u) in &st {
        let p = u.pools[0].clone();
        scns.push(
            uni_scn(n, u, &[0], cx.pick(2, 3), move |b| {
                let t = p.cfg(b).migration_quote_threshold;
                let mut v: Vec<Act> = ops_of(&p, t).into_iter().flat_map(as_others).collect();
                v.sort_by_key(|a| format!("{a:?}"));
                v.dedup();
                v.into_iter().map(ix1).collect()
            })
            .inv(vec![], rights),
        );
    }
    // after the pool changed hands
    let mut handed = vec![];
    for (n, u) in &st {
        let p = u.pools[0].clone();
        let go = Act::Transfer { who: "creator", new: "newcreator", meta: true };
        if let Ok(r) = run_tx(&u.bank, &u.pools[..1], &ix1(go)) {
            if r.ok {
                let x = Uni { bank: r.bank, ..u.clone() };
                handed.push(uni_scn(&format!("{n}/handed"), &x, &[0], 1, move |b| {
                    let t = p.cfg(b).migration_quote_threshold;
                    let mut v: Vec<Act> = ops_of(&p, t).into_iter().flat_map(as_others).collect();
                    v.sort_by_key(|a| format!("{a:?}"));
                    v.dedup();
                    v.into_iter().map(ix1).collect()
                })
                .inv(vec![], rights));
            }
        }
    }
    scns.extend(handed);
    cx.bfs(scns);
    // one signature missing
    struct M {
        name: String,
        bank: Bank,
        ix: Instruction,
        keys: Vec<Pubkey>,
    }
    let mut ms = vec![];
    for (n, u) in &st {
        let p = &u.pools[0];
        for a in ops_of(p, p.cfg(&u.bank).migration_quote_threshold) {
            if let Ok(r) = run_tx(&u.bank, &u.pools[..1], &ix1(a)) {
                if r.ok {
                    ms.push(M { name: format!("{n}/{a:?}"), bank: u.bank.clone(), ix: build_for(p, &p.cfg(&u.bank), &a).unwrap(), keys: must_sign(&a) });
                }
            }
        }
    }
    for m in moments(cx) {
        let op = m.name.rsplit('/').next().unwrap().to_string();
        let p = &m.uni.pools[0];
        let keys = match op.as_str() {
            "pool metadata" => vec![p.creator, key("payer")],
            "partner metadata" => vec![p.partner, key("payer")],
            "create operator" | "close operator" => vec![admin()],
            "create pool" => vec![p.creator, key("payer"), key("mintD")],
            _ => vec![],
        };
        ms.push(M { name: m.name.clone(), bank: m.uni.bank, ix: m.ix, keys });
    }
    let cases: Vec<usize> = (0..ms.len()).collect();
    cx.cases("missing signature", &cases, |i, t| {
        let m = &ms[*i];
        let mut keys = m.keys.clone();
        keys.extend(m.ix.accounts.iter().filter(|a| a.is_signer).map(|a| a.pubkey));
        keys.sort();
        keys.dedup();
        for k in keys {
            let mut x = m.ix.clone();
            for a in x.accounts.iter_mut().filter(|a| a.pubkey == k) {
                a.is_signer = false;
            }
            let mut b = m.bank.clone();
            let r = b.exec1(x);
            t.transitions += 1;
            ensure(!r.ok(), || format!("{}: accepted without the signature of {k}", m.name))?;
            ensure(b.digest() == m.bank.digest(), || format!("{}: refused for want of a signature, but left a trace", m.name))?;
        }
        Ok(())
    });
    // a leftover goes to the configured receiver, whoever asks, and nowhere else; permissions one bit at a time
    let perms: Vec<u128> = {
        let mut v: Vec<u128> = vec![0, 3, u128::MAX, u128::MAX - 1, u128::MAX - 2, u128::MAX - 3];
        v.extend((0..cx.pick(8, 128)).map(|k| 1u128 << k));
        v.extend([1 << 63, 1 << 64, 1 << 127]);
        v
    };
    let mut cases = vec![];
    for i in 0..st.len() {
        for q in &perms {
            cases.push((i, *q));
        }
    }
    cx.cases("single permissions", &cases, |(i, q), t| {
        let (n, u) = &st[*i];
        let mut b = u.bank.clone();
        put_operator(&mut b, &key("stranger"), *q);
        for (bit, tmpl) in [
            (0, Act::ClaimProtocol { op: "stranger", who: "stranger", a: u64::MAX, b: u64::MAX }),
            (0, Act::ProtCreationFee { op: "stranger", who: "stranger" }),
            (1, Act::Zap { op: "stranger", who: "stranger", base: true, max: u64::MAX }),
            (1, Act::Zap { op: "stranger", who: "stranger", base: false, max: u64::MAX }),
        ] {
            let r = run_tx(&b, &u.pools[..1], &ix1(tmpl)).map_err(|m| format!("{n}, permission {q:#x}: {tmpl:?}: {m}"))?;
            t.transitions += 1;
            t.hit(format!("{} {}", act_kind(&tmpl), if r.ok { "ok" } else { "refused" }));
            ensure(!r.ok || q >> bit & 1 == 1, || format!("{n}: permission {q:#x} allowed {tmpl:?}"))?;
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ P29
fn fixed_parts(p: &VirtualPool) -> Vec<u8> {
    let mut v = vec![];
    for k in [p.config, p.base_mint, p.base_vault, p.quote_vault] {
        v.extend_from_slice(k.as_ref());
    }
    v.extend_from_slice(&p.activation_point.to_le_bytes());
    v.push(p.pool_type);
    v
}
/// what must be there for ever, and how much of it must not change
fn constants(v: &View, _: &mut Vec<i128>) -> Result<(), String> {
    let (b, x) = (v.before, v.after());
    for (k, a) in &b.accs {
        if a.owner != dbc::ID || a.data.len() < 8 {
            continue;
        }
        let d = &a.data[..8];
        let is = |t: &[u8]| d == t;
        if is(dbc::state::Operator::DISCRIMINATOR) {
            continue;
        }
        let y = x.get(k).ok_or_else(|| format!("record {k} vanished"))?;
        ensure(y.owner == dbc::ID && y.data.len() == a.data.len() && y.data[..8] == *d, || format!("record {k} changed its nature"))?;
        if is(PoolConfig::DISCRIMINATOR) {
            ensure(y == &**a, || "the configuration changed".into())?;
        } else if is(VirtualPool::DISCRIMINATOR) {
            let (s0, s1): (VirtualPool, VirtualPool) = (b.zc(k), x.zc(k));
            ensure(fixed_parts(&s0) == fixed_parts(&s1), || "the pool changed its configuration, mints, vaults, activation point or kind".into())?;
        } else if is(dbc::MeteoraDammMigrationMetadata::DISCRIMINATOR) {
            let (m0, m1): (dbc::MeteoraDammMigrationMetadata, dbc::MeteoraDammMigrationMetadata) = (b.zc(k), x.zc(k));
            ensure(m0.virtual_pool == m1.virtual_pool && m0.partner == m1.partner, || "the migration record changed its identity".into())?;
        } else {
            ensure(y == &**a, || format!("record {k} changed"))?;
        }
    }
    for p in v.pools {
        for k in [p.base_vault, p.quote_vault] {
            if let (Some(o), Some(n)) = (b.get(&k), x.get(&k)) {
                ensure(o.owner == n.owner && o.data[..64] == n.data[..64] && o.data.len() == n.data.len(), || "a vault changed hands".into())?;
                ensure(o.data[72..165] == n.data[72..165], || "a vault was delegated, frozen or given away".into())?;
            } else {
                ensure(b.get(&k).is_none(), || "a vault vanished".into())?;
            }
        }
    }
    Ok(())
}
fn life_alphabet(u: &Uni, i: usize) -> impl Fn(&Bank) -> Vec<Tx> + Send + Sync + 'static {
    let p = u.pools[i].clone();
    move |b: &Bank| {
        let t = p.cfg(b).migration_quote_threshold;
        let mut v = ops_of(&p, t);
        v.extend([
            for_pool(&p, Act::ClaimPartner { who: "partner", a: 5, b: 7 }),
            Act::Swap { who: "trader2", buy: true, mode: 1, a0: BIG, a1: 0, referral: None, legacy: false },
            Act::Transfer { who: "newcreator", new: "creator", meta: true },
            Act::Transfer { who: "creator", new: "partner", meta: true },
            Act::CreateOp { who: "stranger", by: "admin", perm: 3 },
            Act::CloseOp { who: "operator", by: "admin", to: "stranger" },
            Act::Init,
            Act::Advance { secs: 86_400, slots: 200_000 },
        ]);
        v.into_iter().map(ix1).collect()
    }
}
pub fn p29(cx: &Cx) {
    let st = all_stages(cx);
    let mut scns = vec![];
    for (n, u) in &st {
        let s = uni_scn(n, u, &[0], cx.pick(3, 5), life_alphabet(u, 0));
        scns.push(s.inv(vec![], constants));
    }
    cx.bfs(scns);
    // creating over something that exists
    let cases: Vec<usize> = (0..st.len()).collect();
    cx.cases("creation over what exists", &cases, |i, t| {
        let (n, u) = &st[*i];
        let mut b = u.bank.clone();
        // make sure every kind of record exists
        for p in &u.pools {
            accept(&mut b, p.ix_pool_metadata(&p.creator), "pool metadata")?;
            if p.cfg(&b).migration_option == 0 && b.get(&p.v1_meta()).is_none() {
                accept(&mut b, p.ix_v1_metadata(), "migration metadata")?;
            }
        }
        for w in ["partner", "stranger"] {
            accept(&mut b, ix_partner_metadata(&key(w), &key("payer")), "partner metadata")?;
        }
        let mut tries: Vec<(String, Instruction)> = vec![];
        let same = b.zc::<PoolConfig>(&u.pools[0].config);
        for (pn, prm) in [("same", None), ("other", Some(1u8))] {
            let mut prm2 = params();
            prm2.migration_option = 1;
            if prm.is_none() {
                prm2.migration_option = same.migration_option;
                prm2.migration_quote_threshold = same.migration_quote_threshold;
            }
            for p in &u.pools {
                // whoever holds the configuration's key signs
                for claimer in [p.partner, key("trader2")] {
                    let mut q = p.clone();
                    q.partner = claimer;
                    tries.push((format!("configuration again ({pn})"), q.ix_create_config(&prm2)));
                }
            }
        }
        for (j, p) in u.pools.iter().enumerate() {
            for cr in [p.creator, key("stranger")] {
                let mut q = p.clone();
                q.creator = cr;
                tries.push(("pool again".into(), q.ix_init_pool()));
                // the other creation operation
                let mut q2 = q.clone();
                q2.base_prog = if q.base_prog == SPL { T22 } else { SPL };
                tries.push(("pool again, other token program".into(), q2.ix_init_pool()));
                // a new pool squatting on this one's mint, vaults or address
                let o = &u.pools[(j + 1) % 3];
                for k in 0..4 {
                    let mut z = Pool::with(p.config, key("mintZ"), p.quote_mint, p.quote_prog, p.base_prog == T22);
                    z.creator = cr;
                    match k {
                        0 => z.pool = o.pool,
                        1 => z.base_vault = o.base_vault,
                        2 => z.quote_vault = o.quote_vault,
                        _ => z.base_mint = p.base_mint,
                    }
                    tries.push((format!("new pool over existing account {k}"), z.ix_init_pool()));
                }
            }
            tries.push(("pool metadata again".into(), p.ix_pool_metadata(&p.creator)));
            tries.push(("partner metadata again".into(), ix_partner_metadata(&p.partner, &key("stranger"))));
            if p.cfg(&b).migration_option == 0 {
                tries.push(("migration metadata again".into(), p.ix_v1_metadata()));
            }
        }
        for w in ["operator", "referrer", "trader"] {
            for q in [1u128, 2, 3] {
                tries.push(("operator again".into(), ix_create_operator(&key(w), &admin(), q)));
            }
        }
        // the same attempts with something new are accepted
        let mut z = Pool::with(u.pools[0].config, key("mintZ"), u.pools[0].quote_mint, u.pools[0].quote_prog, u.pools[0].base_prog == T22);
        accept(&mut b.clone(), z.ix_init_pool(), "a new pool")?;
        z.config = key("config Z");
        accept(&mut b.clone(), z.ix_create_config(&params()), "a new configuration")?;
        accept(&mut b.clone(), ix_create_operator(&key("payer"), &admin(), 1), "a new operator")?;
        for (what, ix) in tries {
            let mut x = b.clone();
            let o = x.exec1(ix);
            t.transitions += 1;
            t.hit(what.split(" (").next().unwrap().to_string() + if o.ok() { " accepted" } else { " refused" });
            ensure(!o.ok(), || format!("{n}: {what} was accepted"))?;
            ensure(x.digest() == b.digest(), || format!("{n}: {what} was refused but left a trace"))?;
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ P31
/// all accounts that belong to one pool only
fn own_accounts(b: &Bank, p: &Pool) -> Vec<Pubkey> {
    let mut v = vec![p.pool, p.base_mint, p.base_vault, p.quote_vault, p.v1_meta(), pda(&[b"virtual_pool_metadata", p.pool.as_ref()]), p.escrow(), p.escrow_token()];
    for a in ACTORS {
        v.push(p.base_ata(&key(a)));
    }
    v.push(p.base_ata(&treasury()));
    if b.get(&p.config).is_some() {
        if p.cfg(b).migration_option == 0 {
            let n = p.v1_names(&v1_config_key(p));
            v.extend([n.pool, n.lp_mint, n.a_token_vault, n.b_token_vault, n.lp]);
        } else {
            let n = p.v2_names(&v2_config_key(p));
            v.extend([n.pool, n.vault_a, n.vault_b, n.position[0], n.position[1]]);
        }
    }
    v
}
fn frame(v: &View, _: &mut Vec<i128>) -> Result<(), String> {
    if !v.ran.ok {
        return Ok(());
    }
    let [Top::Ix(s)] = v.tx else { return Ok(()) };
    for (i, p) in v.pools.iter().enumerate() {
        if i == s.pool {
            continue;
        }
        for k in own_accounts(v.before, p) {
            ensure(v.before.get(&k) == v.after().get(&k), || format!("{:?} on pool {} changed {} ", s.act, s.pool, label(&k, v.pools)))?;
        }
    }
    Ok(())
}
fn pair_ops(u: &Uni) -> Vec<(usize, Act)> {
    let mut v = vec![];
    for (i, p) in u.pools.iter().enumerate() {
        let t = p.cfg(&u.bank).migration_quote_threshold;
        let mut l = ops_of(p, t);
        l.extend([Act::Swap { who: "trader2", buy: true, mode: 1, a0: BIG, a1: 0, referral: None, legacy: false }, for_pool(p, Act::ClaimPartner { who: "partner", a: 5, b: 7 })]);
        l.retain(|a| !matches!(a, Act::CreateOp { .. } | Act::CloseOp { .. }));
        v.extend(l.into_iter().map(|a| (i, a)));
    }
    v
}
pub fn p31(cx: &Cx) {
    // pools at different stages of their lives, in all combinations
    let mut states: Vec<(String, Uni)> = vec![];
    for u in universes(cx) {
        let n = 5;
        let all: Vec<Vec<(&'static str, Vec<Act>)>> = (0..3).map(|i| life_of(&u, i, &u.bank)).collect();
        for a in 0..n {
            for b in 0..n {
                for c in 0..n {
                    // quick: the third pool follows the second
                    if !cx.thorough && c != b {
                        continue;
                    }
                    let mut bank = u.bank.clone();
                    let mut bad = None;
                    for (i, upto) in [(0, a), (1, b), (2, c)] {
                        for (_, acts) in all[i].iter().take(upto) {
                            for x in acts {
                                match run_tx(&bank, std::slice::from_ref(&u.pools[i]), &ix1(*x)) {
                                    Ok(r) if r.ok => bank = r.bank,
                                    Ok(r) => bad = Some(format!("pool {i}: {x:?} was refused {:?}", r.out.err)),
                                    Err(m) => bad = Some(format!("pool {i}: {x:?}: {m}")),
                                }
                            }
                        }
                    }
                    let name = format!("{}/{a}{b}{c}", u.name);
                    match bad {
                        None => states.push((name, Uni { bank, ..u.clone() })),
                        Some(msg) => {
                            if !cx.skip(&name) {
                                cx.fail(Bad { scn: name, path: vec![], msg, acts: vec![] })
                            }
                        }
                    }
                }
            }
        }
    }
    // frame: one pool's operation leaves the others alone
    let mut scns = vec![];
    for (n, u) in &states {
        let ops = pair_ops(u);
        let mut s = uni_scn(n, u, &[0, 1, 2], cx.pick(1, 2), move |_| ops.iter().map(|(i, a)| vec![Top::Ix(Step { pool: *i, act: *a })]).collect());
        s = s.inv(vec![], frame);
        scns.push(s);
    }
    cx.bfs(scns);
    // order: operations on two pools give the same result either way round
    let cases: Vec<usize> = (0..states.len()).collect();
    cx.cases("either order", &cases, |i, t| {
        let (n, u) = &states[*i];
        let ops = pair_ops(u);
        let run = |b: &Bank, p: usize, a: &Act| -> (bool, Bank, Vec<Vec<u8>>) {
            let mut x = b.clone();
            let ix = build_for(&u.pools[p], &u.pools[p].cfg(b), a).unwrap();
            let o = x.exec1(ix);
            (o.ok(), x, o.events())
        };
        let single: Vec<(bool, Bank, Vec<Vec<u8>>)> = ops.iter().map(|(p, a)| run(&u.bank, *p, a)).collect();
        t.transitions += ops.len() as u64;
        for (x, (p, a)) in ops.iter().enumerate() {
            for (y, (q, b)) in ops.iter().enumerate() {
                if p >= q || !single[x].0 && !single[y].0 {
                    continue;
                }
                let ab = run(&single[x].1, *q, b);
                let ba = run(&single[y].1, *p, a);
                t.transitions += 2;
                t.hit(format!("both accepted: {}", single[x].0 && single[y].0));
                ensure(ab.0 == single[y].0 && ba.0 == single[x].0, || format!("{n}: {a:?} on pool {p} and {b:?} on pool {q} influence each other's acceptance"))?;
                ensure(ab.2 == single[y].2 && ba.2 == single[x].2, || format!("{n}: {a:?} on pool {p} and {b:?} on pool {q} influence each other's events"))?;
                ensure(ab.1.digest() == ba.1.digest(), || format!("{n}: {a:?} on pool {p} and {b:?} on pool {q} depend on their order"))?;
                // in one transaction, either way round
                if ab.0 && ba.0 {
                    let ix = |p: usize, a: &Act| build_for(&u.pools[p], &u.pools[p].cfg(&u.bank), a).unwrap();
                    for (two, events) in [([ix(*p, a), ix(*q, b)], [&single[x].2[..], &ab.2].concat()), ([ix(*q, b), ix(*p, a)], [&single[y].2[..], &ba.2].concat())] {
                        let mut z = u.bank.clone();
                        let o = z.exec(&two, None);
                        t.transitions += 1;
                        t.hit("in one transaction");
                        ensure(o.ok(), || format!("{n}: {a:?} on pool {p} and {b:?} on pool {q} are refused together: {:?}", o.err))?;
                        ensure(z.digest() == ab.1.digest() && o.events() == events, || format!("{n}: {a:?} on pool {p} and {b:?} on pool {q} act differently in one transaction"))?;
                    }
                }
            }
        }
        Ok(())
    });
}

// ------------------------------------------------------------------ P33
fn text_record(disc: &[u8], who: &Pubkey, t: &[String; 3]) -> (Vec<u8>, Vec<u8>) {
    let head = [disc, who.as_ref()].concat();
    let mut tail = vec![];
    for s in t {
        tail.extend((s.len() as u32).to_le_bytes());
        tail.extend(s.as_bytes());
    }
    (head, tail)
}
fn ix_pool_text(p: &Pool, who: &Pubkey, payer: &Pubkey, t: &[String; 3], pad: u8) -> Instruction {
    ix(
        dbc::accounts::CreateVirtualPoolMetadataCtx {
            virtual_pool: p.pool,
            virtual_pool_metadata: pda(&[b"virtual_pool_metadata", p.pool.as_ref()]),
            creator: *who,
            payer: *payer,
            system_program: anchor_lang::solana_program::system_program::ID,
            event_authority: event_auth(),
            program: dbc::ID,
        },
        dbc::instruction::CreateVirtualPoolMetadata {
            metadata: dbc::CreateVirtualPoolMetadataParameters { padding: [pad; 96], name: t[0].clone(), website: t[1].clone(), logo: t[2].clone() },
        },
    )
}
fn ix_partner_text(claimer: &Pubkey, payer: &Pubkey, t: &[String; 3], pad: u8) -> Instruction {
    ix(
        dbc::accounts::CreatePartnerMetadataCtx {
            partner_metadata: pda(&[b"partner_metadata", claimer.as_ref()]),
            payer: *payer,
            fee_claimer: *claimer,
            system_program: anchor_lang::solana_program::system_program::ID,
            event_authority: event_auth(),
            program: dbc::ID,
        },
        dbc::instruction::CreatePartnerMetadata {
            metadata: dbc::CreatePartnerMetadataParameters { padding: [pad; 96], name: t[0].clone(), website: t[1].clone(), logo: t[2].clone() },
        },
    )
}
fn texts(cx: &Cx) -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "Name", " ", "\0", "日本語 🚀", "https://example.com/?a=b&c=\"d\"", "\u{10ffff}"].iter().map(|s| s.to_string()).collect();
    v.push("x".repeat(32));
    v.push("é".repeat(100));
    v.push("y".repeat(255));
    v.push("z".repeat(256));
    v.push("long ".repeat(600));
    if cx.thorough {
        for n in [2, 31, 33, 127, 128, 1000, 3100] {
            v.push("q".repeat(n));
        }
    }
    v
}
/// published as given, nothing else touched
fn published(b: &Bank, x: &Bank, rec: &Pubkey, disc: &[u8], subject: &Pubkey, t: &[String; 3], payer: &Pubkey) -> Result<(), String> {
    let a = x.get(rec).ok_or("no record was written")?;
    let (head, tail) = text_record(disc, subject, t);
    ensure(a.owner == dbc::ID, || "the record belongs to somebody else".into())?;
    ensure(a.data.len() == head.len() + 96 + tail.len(), || format!("the record has {} bytes instead of {}", a.data.len(), head.len() + 96 + tail.len()))?;
    ensure(a.data[..40] == head[..], || "the record is not about its publisher".into())?;
    ensure(a.data[136..] == tail[..], || "the text was not stored as given".into())?;
    let rent = anchor_lang::prelude::Rent::default().minimum_balance(a.data.len());
    let had = b.lamports(rec);
    ensure(a.lamports == rent.max(had), || "the record holds more or less than its rent".into())?;
    let mut y = x.clone();
    y.accs.remove(rec);
    let mut p = y.get(payer).ok_or("payer")?.clone();
    p.lamports += rent.max(had) - had;
    y.put(*payer, p);
    let mut z = b.clone();
    z.accs.remove(rec);
    ensure(y.digest() == z.digest(), || "publication changed something else".into())
}
pub fn p33(cx: &Cx) {
    use anchor_lang::Event;
    let st = all_stages(cx);
    let tx = texts(cx);
    // texts
    let mut cases = vec![];
    for i in 0..st.len() {
        for a in 0..tx.len() {
            for b in 0..tx.len() {
                // all combinations on the first stage, pairs elsewhere
                for c in 0..tx.len() {
                    if (i == 0 || c == a) && tx[a].len() + tx[b].len() + tx[c].len() <= 9_900 {
                        cases.push((i, [a, b, c]));
                    }
                }
            }
        }
    }
    cx.cases("texts", &cases, |(i, k), t| {
        let (_, u) = &st[*i];
        let p = &u.pools[0];
        let tt = [tx[k[0]].clone(), tx[k[1]].clone(), tx[k[2]].clone()];
        let pad = k[0] as u8;
        let pay = key("payer");
        let rec = pda(&[b"virtual_pool_metadata", p.pool.as_ref()]);
        let mut b = u.bank.clone();
        if k[1] == 1 {
            // somebody sent lamports to the address beforehand
            fund(&mut b, rec, 5_000_000_000 * (k[2] as u64 % 2) + 17);
        }
        let mut x = b.clone();
        let o = x.exec1(ix_pool_text(p, &p.creator, &pay, &tt, pad));
        ensure(o.ok(), || format!("pool metadata was refused {:?}", o.err))?;
        published(&b, &x, &rec, dbc::state::VirtualPoolMetadata::DISCRIMINATOR, &p.pool, &tt, &pay)?;
        ensure(o.events() == vec![dbc::EvtVirtualPoolMetadata { virtual_pool_metadata: rec, virtual_pool: p.pool }.data()], || "wrong event".into())?;
        let rec = pda(&[b"partner_metadata", p.partner.as_ref()]);
        let mut y = x.clone();
        let o = y.exec1(ix_partner_text(&p.partner, &pay, &tt, pad));
        t.transitions += 1;
        ensure(o.ok(), || format!("partner metadata was refused {:?}", o.err))?;
        published(&x, &y, &rec, dbc::state::PartnerMetadata::DISCRIMINATOR, &p.partner, &tt, &pay)?;
        ensure(o.events() == vec![dbc::EvtPartnerMetadata { partner_metadata: rec, fee_claimer: p.partner }.data()], || "wrong event".into())?;
        Ok(())
    });
    // who and how often
    let mut cases = vec![];
    for i in 0..st.len() {
        for handed in [false, true] {
            for w in ACTORS {
                for payer in ["payer", "creator", "stranger"] {
                    cases.push((i, handed, *w, payer));
                }
            }
        }
    }
    cx.cases("publishers", &cases, |(i, handed, w, payer), t| {
        let (n, u) = &st[*i];
        let p = &u.pools[0];
        let tt = ["One".to_string(), "two".into(), "three".into()];
        let t2 = ["Other".to_string(), "t".into(), "x".into()];
        let mut b = u.bank.clone();
        let mut creator = p.creator;
        if *handed {
            let r = run_tx(&b, &u.pools[..1], &ix1(Act::Transfer { who: "creator", new: "newcreator", meta: true })).map_err(|m| format!("{n}: {m}"))?;
            if !r.ok {
                return Ok(());
            }
            b = r.bank;
            creator = key("newcreator");
        }
        let (k, pay) = (key(w), key(payer));
        let rec = pda(&[b"virtual_pool_metadata", p.pool.as_ref()]);
        let i0 = ix_pool_text(p, &k, &pay, &tt, 0);
        let mut x = b.clone();
        let o = x.exec1(i0.clone());
        t.transitions += 1;
        t.hit(if o.ok() { "pool metadata published" } else { "pool metadata refused" });
        ensure(o.ok() == (k == creator), || format!("{n}: pool metadata by {w}: accepted = {}", o.ok()))?;
        if o.ok() {
            published(&b, &x, &rec, dbc::state::VirtualPoolMetadata::DISCRIMINATOR, &p.pool, &tt, &pay)?;
            // again, by anybody
            for again in ACTORS {
                for q in [&tt, &t2] {
                    let x0 = x.digest();
                    let o = x.exec1(ix_pool_text(p, &key(again), &pay, q, 0));
                    t.transitions += 1;
                    ensure(!o.ok() && x.digest() == x0, || format!("{n}: pool metadata was published again by {again}"))?;
                }
            }
        } else {
            ensure(x.digest() == b.digest(), || "a refused publication left a trace".into())?;
        }
        // not at another pool's address, not without signature
        for q in &u.pools[1..] {
            let mut i1 = i0.clone();
            i1.accounts[1].pubkey = pda(&[b"virtual_pool_metadata", q.pool.as_ref()]);
            ensure(!b.clone().exec1(i1).ok(), || format!("{n}: metadata of one pool published at another's address"))?;
        }
        if k == creator && k != pay {
            let mut i1 = i0;
            i1.accounts[2].is_signer = false;
            ensure(!b.clone().exec1(i1).ok(), || format!("{n}: pool metadata without the creator's signature"))?;
        }
        // partner metadata: everybody about themselves only
        let rec = pda(&[b"partner_metadata", k.as_ref()]);
        let i0 = ix_partner_text(&k, &pay, &tt, 0);
        let mut x = b.clone();
        let o = x.exec1(i0.clone());
        ensure(o.ok(), || format!("{n}: {w} could not publish about itself {:?}", o.err))?;
        published(&b, &x, &rec, dbc::state::PartnerMetadata::DISCRIMINATOR, &k, &tt, &pay)?;
        let x0 = x.digest();
        for q in [&tt, &t2] {
            for pay2 in ["payer", "stranger"] {
                let o = x.exec1(ix_partner_text(&k, &key(pay2), q, 0));
                t.transitions += 1;
                ensure(!o.ok() && x.digest() == x0, || format!("{n}: partner metadata was published again"))?;
            }
        }
        if k != pay {
            let mut i1 = i0.clone();
            i1.accounts[2].is_signer = false;
            ensure(!b.clone().exec1(i1).ok(), || format!("{n}: partner metadata without the claimer's signature"))?;
        }
        let mut i1 = i0;
        i1.accounts[0].pubkey = pda(&[b"partner_metadata", key("victim").as_ref()]);
        ensure(!b.clone().exec1(i1).ok(), || format!("{n}: partner metadata published at somebody else's address"))?;
        Ok(())
    });
}

// ------------------------------------------------------------------ P34
const HANDS: [Who; 3] = ["operator", "stranger", "admin2"];
const BOSSES: [Who; 5] = ["admin", "admin2", "operator", "stranger", "creator"];
fn operator_life(v: &View, g: &mut Vec<i128>) -> Result<(), String> {
    let Some(a) = v.act() else { return Ok(()) };
    let ix = |w: Who| HANDS.iter().position(|h| *h == w);
    let is_admin = |w: Who| ADMINS.contains(&who(w));
    if v.ran.ok {
        match *a {
            Act::CreateOp { who: w, by, perm } => {
                ensure(is_admin(by), || format!("{by} created an operator"))?;
                ensure((1..=3).contains(&perm), || format!("permission {perm:#x} was granted"))?;
                let i = ix(w).unwrap();
                ensure(g[i] == 0, || "an operator was created over an existing one".into())?;
                g[i] = perm as i128;
            }
            Act::CloseOp { who: w, by, to } => {
                ensure(is_admin(by), || format!("{by} closed an operator"))?;
                let i = ix(w).unwrap();
                let k = operator_key(&who(w));
                ensure(g[i] != 0 && v.after().get(&k).is_none(), || "closing left the record".into())?;
                let got = v.after().lamports(&who(to)) - v.before.lamports(&who(to));
                ensure(got == v.before.lamports(&k), || "the rent was not returned".into())?;
                g[i] = 0;
            }
            Act::ClaimProtocol { op, who: w, .. } | Act::ProtCreationFee { op, who: w } => {
                ensure(op == w && g[ix(op).unwrap()] & 1 == 1, || format!("{a:?} without the right"))?;
            }
            Act::Zap { op, who: w, .. } => {
                ensure(op == w && g[ix(op).unwrap()] & 2 == 2, || format!("{a:?} without the right"))?;
            }
            _ => {}
        }
    }
    for (i, h) in HANDS.iter().enumerate() {
        let k = operator_key(&who(h));
        match v.after().get(&k) {
            None => ensure(g[i] == 0, || format!("the record of {h} vanished"))?,
            Some(r) => {
                ensure(g[i] != 0, || format!("a record of {h} appeared"))?;
                let mut want = who(h).to_bytes().to_vec();
                want.extend((g[i] as u128).to_le_bytes());
                want.extend([0; 16]);
                // 16 bytes of padding follow
                ensure(r.owner == dbc::ID && r.data.len() == 72 && r.data[8..] == want[..], || format!("the record of {h} says something else"))?;
            }
        }
    }
    Ok(())
}
pub fn p34(cx: &Cx) {
    let st = all_stages(cx);
    let perms: Vec<u128> = vec![0, 1, 2, 3, 4, 5, 7, 1 << 64, 1 << 127, (1 << 127) | 1];
    let mut scns = vec![];
    for (n, u) in &st {
        let mut u = u.clone();
        for w in ["operator", "referrer", "trader", "newcreator"] {
            u.bank.accs.remove(&operator_key(&key(w)));
        }
        for (k, lam) in [(ADMINS[0], 1000 * SOL), (ADMINS[1], 1000 * SOL)] {
            if u.bank.lamports(&k) == 0 {
                fund(&mut u.bank, k, lam);
            }
        }
        // tokens of the new hands
        for p in &u.pools {
            put_ata(&mut u.bank, ADMINS[1], p.quote_mint, 0, p.quote_prog);
            put_ata(&mut u.bank, ADMINS[1], p.base_mint, 0, p.base_prog);
        }
        let perms = perms.clone();
        let deep = cx.pick(n.starts_with("v1/") || n.starts_with("v2/"), true);
        scns.push(
            uni_scn(n, &u, &[0], cx.pick(if deep { 3 } else { 2 }, 4), move |_| {
                let mut v = vec![];
                for w in HANDS {
                    for by in BOSSES {
                        for q in &perms {
                            // those who may not create are tried with one good and one bad set of rights
                            if by.starts_with("admin") && (by == "admin" || *q <= 4) || [1, 4].contains(q) {
                                v.push(Act::CreateOp { who: w, by, perm: *q });
                            }
                        }
                        v.push(Act::CloseOp { who: w, by, to: "payer" });
                    }
                    for w2 in HANDS {
                        v.push(Act::ClaimProtocol { op: w, who: w2, a: 3, b: 4 });
                        v.push(Act::Zap { op: w, who: w2, base: false, max: 5 });
                        v.push(Act::ProtCreationFee { op: w, who: w2 });
                    }
                    v.push(Act::Zap { op: w, who: w, base: true, max: 5 });
                }
                v.into_iter().map(ix1).collect()
            })
            .inv(vec![0; 3], operator_life),
        );
    }
    cx.bfs(scns);
    // only operator records can be closed as such, and the old kind of record only by its own operation
    let cases: Vec<usize> = (0..st.len()).collect();
    cx.cases("closing", &cases, |i, t| {
        let (n, u) = &st[*i];
        let mut b = u.bank.clone();
        accept(&mut b, u.pools[0].ix_pool_metadata(&u.pools[0].creator), "metadata")?;
        accept(&mut b, ix_partner_metadata(&u.pools[0].partner, &key("payer")), "metadata")?;
        let old = pda(&[b"cf_operator", key("stranger").as_ref()]);
        let mut data = dbc::state::ClaimFeeOperator::DISCRIMINATOR.to_vec();
        data.extend(key("stranger").to_bytes());
        data.resize(8 + std::mem::size_of::<dbc::state::ClaimFeeOperator>(), 0);
        b.put(old, Acc { lamports: 1_950_000, data, owner: dbc::ID, executable: false });
        let keys: Vec<Pubkey> = b.accs.keys().copied().collect();
        for k in &keys {
            let is_new = b.get(k).unwrap().owner == dbc::ID && b.get(k).unwrap().data.starts_with(dbc::state::Operator::DISCRIMINATOR);
            for by in ["admin", "admin2", "operator", "stranger", "partner"] {
                let mut c = ix_close_operator(&key("operator"), &who(by), &key("payer"));
                c.accounts[0].pubkey = *k;
                let d = ix(
                    dbc::accounts::CloseClaimProtocolFeeOperatorCtx { claim_fee_operator: *k, rent_receiver: key("payer"), signer: who(by), event_authority: event_auth(), program: dbc::ID },
                    dbc::instruction::CloseClaimProtocolFeeOperator {},
                );
                for (c, mine, what) in [(c, is_new, "close_operator"), (d, *k == old, "close_claim_protocol_fee_operator")] {
                    let should = mine && by.starts_with("admin");
                    for signed in [true, false] {
                        let mut c = c.clone();
                        for a in c.accounts.iter_mut().filter(|a| a.pubkey == who(by)) {
                            a.is_signer = signed;
                        }
                        let mut x = b.clone();
                        let o = x.exec1(c);
                        t.transitions += 1;
                        t.hit(format!("{what} {}", if o.ok() { "ok" } else { "refused" }));
                        ensure(o.ok() == (should && signed), || format!("{n}: {what} of {k} by {by}, signed {signed}: accepted = {} {:?}", o.ok(), o.err))?;
                        if o.ok() {
                            ensure(x.get(k).is_none() && x.lamports(&key("payer")) == b.lamports(&key("payer")) + b.lamports(k), || "closed incompletely".into())?;
                            x.put(*k, b.get(k).unwrap().clone());
                            x.put(key("payer"), b.get(&key("payer")).unwrap().clone());
                        }
                        ensure(x.digest() == b.digest(), || format!("{n}: {what} changed something else"))?;
                    }
                }
            }
        }
        Ok(())
    });
    // every permission number with few bits, and every signature
    let mut all: Vec<u128> = (0..=16).collect();
    for i in 0..128 {
        all.push(1 << i);
        all.push((1 << i) | 1);
        all.push((1 << i) | 2);
        all.push(u128::MAX >> i);
    }
    all.sort();
    all.dedup();
    cx.cases("granting", &all, |q, t| {
        let (_, u) = &st[0];
        for by in ["admin", "admin2", "stranger", "operator", "creator", "partner", "payer"] {
            for signed in [true, false] {
                let mut i = ix_create_operator(&key("leftover"), &who(by), *q);
                i.accounts[3].pubkey = key("payer");
                let s = by == "payer" || signed;
                i.accounts[2].is_signer = s;
                let mut x = u.bank.clone();
                let o = x.exec1(i);
                t.transitions += 1;
                let should = by.starts_with("admin") && s && (1..=3).contains(q);
                ensure(o.ok() == should, || format!("permission {q:#x} by {by}, signed {s}: accepted = {}", o.ok()))?;
                if o.ok() {
                    let r: dbc::state::Operator = x.zc(&operator_key(&key("leftover")));
                    ensure(r.permission == *q && r.whitelisted_address == key("leftover"), || "the record says something else".into())?;
                } else {
                    ensure(x.digest() == u.bank.digest(), || "a refused grant left a trace".into())?;
                }
            }
        }
        Ok(())
    });
}
