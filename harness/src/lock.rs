//! Lockstep: every transaction is predicted by the reference model and executed by the real program;
//! acceptance, events and every account of the universe are compared.
use crate::env::*;
use crate::mocks;
use crate::refm::*;
use crate::svm::{Acc, Bank, Call, TxOut};
use ::dynamic_bonding_curve as dbc;
use anchor_lang::prelude::*;
use anchor_lang::solana_program::instruction::Instruction;
use anchor_lang::Discriminator;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
    pub pool: usize,
    pub act: Act,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Top {
    Ix(Step),
    /// third-party instruction: `levels` nested programs performing `steps`, also mentioning the pools
    Via { levels: u8, steps: Vec<Step>, mention: Vec<usize> },
}
pub fn ix1(act: Act) -> Vec<Top> {
    vec![Top::Ix(Step { pool: 0, act })]
}
pub fn st(act: Act) -> Top {
    Top::Ix(Step { pool: 0, act })
}
pub fn via(levels: u8, acts: &[Act]) -> Top {
    Top::Via { levels, steps: acts.iter().map(|a| Step { pool: 0, act: *a }).collect(), mention: vec![] }
}

pub struct Ran {
    pub bank: Bank,
    pub ok: bool,
    pub effs: Vec<Eff>,
    pub out: TxOut,
}

fn swap_of(t: &Step, pool: usize) -> bool {
    t.pool == pool && matches!(t.act, Act::Swap { .. })
}

/// how the step `si` of top-level instruction `ti` sits in its transaction
pub fn tx_pos(tx: &[Top], ti: usize, si: usize) -> TxPos {
    let (pool, levels, earlier): (usize, u8, &[Step]) = match &tx[ti] {
        Top::Ix(s) => (s.pool, 0, &[]),
        Top::Via { levels, steps, .. } => (steps[si].pool, *levels, &steps[..si]),
    };
    let mut blocked = levels >= 2 || levels == 1 && earlier.iter().any(|s| swap_of(s, pool));
    for t in &tx[..ti] {
        blocked |= match t {
            Top::Ix(s) => swap_of(s, pool),
            Top::Via { steps, mention, .. } => {
                mention.contains(&pool) || steps.iter().any(|s| s.pool == pool && !matches!(s.act, Act::CreateOp { .. } | Act::CloseOp { .. }))
            }
        };
    }
    let after_init = levels == 0 && tx[..ti].iter().any(|t| matches!(t, Top::Ix(s) if s.pool == pool && s.act == Act::Init));
    TxPos { limiter_blocked: blocked, after_init }
}

pub fn build_tx(bank: &Bank, pools: &[Pool], tx: &[Top]) -> Option<Vec<Instruction>> {
    let mk = |s: &Step| {
        let p = &pools[s.pool];
        match bank.get(&p.config) {
            Some(_) => build_for(p, &p.cfg(bank), &s.act),
            None => build(p, &s.act),
        }
    };
    tx.iter()
        .map(|t| match t {
            Top::Ix(s) => mk(s),
            Top::Via { levels, steps, mention } => {
                let ixs: Option<Vec<Instruction>> = steps.iter().map(mk).collect();
                let extra: Vec<Pubkey> = mention.iter().map(|i| pools[*i].pool).collect();
                let mut i = mocks::through_puppet_many(&ixs?, &extra);
                for _ in 1..*levels {
                    i = mocks::through_puppet(&i);
                }
                Some(i)
            }
        })
        .collect()
}

/// Predict, execute, compare. Err = the program and the model disagree.
pub fn run_tx(bank: &Bank, pools: &[Pool], tx: &[Top]) -> std::result::Result<Ran, String> {
    if let [Top::Ix(s)] = tx {
        if s.act.is_env() {
            let mut b = bank.clone();
            let ok = apply(&mut b, &pools[s.pool], &s.act, TxPos::default(), &mut Eff::default()).is_some();
            return Ok(Ran { bank: if ok { b } else { bank.clone() }, ok, effs: vec![], out: TxOut::default() });
        }
    }
    let mut model = bank.clone();
    let mut effs = vec![];
    let mut accept = true;
    'o: for (ti, t) in tx.iter().enumerate() {
        let steps: &[Step] = match t {
            Top::Ix(s) => std::slice::from_ref(s),
            Top::Via { steps, .. } => steps,
        };
        for (si, s) in steps.iter().enumerate() {
            let mut e = Eff::default();
            if apply(&mut model, &pools[s.pool], &s.act, tx_pos(tx, ti, si), &mut e).is_none() {
                accept = false;
                break 'o;
            }
            effs.push(e);
        }
    }
    let ixs = build_tx(bank, pools, tx).ok_or("cannot build the transaction")?;
    let mut real = bank.clone();
    let out = real.exec(&ixs, None);
    if out.ok() != accept {
        return Err(if accept {
            format!("must be accepted, was refused: {:?} {:?}", out.err, out.logs)
        } else {
            "must be refused, was accepted".into()
        });
    }
    if !accept {
        return Ok(Ran { bank: real, ok: false, effs: vec![], out });
    }
    // the order in which one transaction emits its events is not part of any guarantee
    let mut want: Vec<Vec<u8>> = effs.iter().flat_map(|e| e.events.iter().cloned()).collect();
    let mut got = out.events();
    want.sort();
    got.sort();
    if want != got {
        return Err(format!("events differ: expected {want:?}, emitted {got:?}"));
    }
    let free: Vec<Pubkey> = effs.iter().flat_map(|e| e.free.iter().copied()).collect();
    if let Some(d) = diff(&model, &real, &free, pools) {
        return Err(d);
    }
    for e in &effs {
        post(&model, &real, e, &out.calls)?;
    }
    Ok(Ran { bank: real, ok: true, effs, out })
}

pub fn label(k: &Pubkey, pools: &[Pool]) -> String {
    for (i, p) in pools.iter().enumerate() {
        for (n, x) in [("config", p.config), ("pool", p.pool), ("base mint", p.base_mint), ("quote mint", p.quote_mint), ("base vault", p.base_vault), ("quote vault", p.quote_vault)] {
            if x == *k {
                return format!("{n} of pool {i}");
            }
        }
        for a in ACTORS {
            if p.base_ata(&key(a)) == *k {
                return format!("base tokens of {a}, pool {i}");
            }
            if p.quote_ata(&key(a)) == *k {
                return format!("quote tokens of {a}, pool {i}");
            }
        }
        if p.base_ata(&treasury()) == *k || p.quote_ata(&treasury()) == *k {
            return format!("treasury tokens, pool {i}");
        }
    }
    for a in ACTORS {
        if key(a) == *k {
            return format!("wallet of {a}");
        }
    }
    if *k == auth() {
        return "pool authority".into();
    }
    k.to_string()
}

/// first difference between predicted and real accounts
pub fn diff(model: &Bank, real: &Bank, free: &[Pubkey], pools: &[Pool]) -> Option<String> {
    let mut keys: Vec<&Pubkey> = model.accs.keys().chain(real.accs.keys()).collect();
    keys.sort();
    keys.dedup();
    for k in keys {
        if free.contains(k) {
            continue;
        }
        let (m, r) = (model.accs.get(k), real.accs.get(k));
        match (m, r) {
            (Some(a), Some(b)) if Arc::ptr_eq(a, b) || a == b => continue,
            _ => {}
        }
        return Some(format!("{}: {}", label(k, pools), explain(k, m.map(|a| &**a), r.map(|a| &**a), pools)));
    }
    None
}
fn explain(k: &Pubkey, m: Option<&Acc>, r: Option<&Acc>, pools: &[Pool]) -> String {
    let (Some(m), Some(r)) = (m, r) else {
        return format!("expected to {}exist, does {}exist", if m.is_some() { "" } else { "not " }, if r.is_some() { "" } else { "not " });
    };
    if m.owner != r.owner {
        return format!("owner {} expected {}", r.owner, m.owner);
    }
    if m.lamports != r.lamports {
        return format!("lamports {} expected {}", r.lamports, m.lamports);
    }
    if m.data.len() != r.data.len() {
        return format!("length {} expected {}", r.data.len(), m.data.len());
    }
    if pools.iter().any(|p| p.pool == *k) {
        let a: dbc::state::VirtualPool = bytemuck::pod_read_unaligned(&m.data[8..]);
        let b: dbc::state::VirtualPool = bytemuck::pod_read_unaligned(&r.data[8..]);
        let mut v = vec![];
        macro_rules! f { ($($n:ident),*) => { $( if a.$n != b.$n { v.push(format!("{} = {:?} expected {:?}", stringify!($n), b.$n, a.$n)); } )* } }
        f!(creator, base_reserve, quote_reserve, protocol_base_fee, protocol_quote_fee, partner_base_fee, partner_quote_fee, creator_base_fee, creator_quote_fee, sqrt_price, activation_point, is_migrated, is_partner_withdraw_surplus, is_protocol_withdraw_surplus, is_withdraw_leftover, is_creator_withdraw_surplus, migration_progress, migration_fee_withdraw_status, finish_curve_timestamp, creation_fee_bits, has_swap, protocol_migration_base_fee_amount, protocol_migration_quote_fee_amount);
        if !v.is_empty() {
            return v.join(", ");
        }
    }
    if m.data.len() >= 165 && (m.owner == SPL || m.owner == T22) && m.data[64..72] != r.data[64..72] {
        let g = |a: &Acc| u64::from_le_bytes(a.data[64..72].try_into().unwrap());
        return format!("balance {} expected {}", g(r), g(m));
    }
    let i = (0..m.data.len()).find(|i| m.data[*i] != r.data[*i]).unwrap_or(0);
    let e = (i + 32).min(m.data.len());
    format!("byte {i}: {:?} expected {:?}", &r.data[i..e], &m.data[i..e])
}

fn ensure(b: bool, m: impl Fn() -> String) -> std::result::Result<(), String> {
    if b {
        Ok(())
    } else {
        Err(m())
    }
}
macro_rules! same {
    ($what:expr, $got:expr, $want:expr) => {{
        let (g, w) = ($got, $want);
        ensure(g == w, || format!("{}: {:?} expected {:?}", $what, g, w))?
    }};
}
fn acc<'a>(b: &'a Bank, k: &Pubkey, what: &str) -> std::result::Result<&'a Acc, String> {
    b.get(k).ok_or_else(|| format!("{what} was not created"))
}
fn token(b: &Bank, k: &Pubkey, what: &str) -> std::result::Result<(Pubkey, Pubkey, u64), String> {
    let a = acc(b, k, what)?;
    ensure((a.owner == SPL || a.owner == T22) && a.data.len() >= 165, || format!("{what} is not a token account"))?;
    Ok((
        Pubkey::try_from(&a.data[..32]).unwrap(),
        Pubkey::try_from(&a.data[32..64]).unwrap(),
        u64::from_le_bytes(a.data[64..72].try_into().unwrap()),
    ))
}
/// predicates over the accounts that are not predicted byte for byte
fn post(model: &Bank, real: &Bank, e: &Eff, calls: &[Call]) -> std::result::Result<(), String> {
    if let Some(x) = &e.lock {
        let a = acc(real, &x.escrow, "vesting escrow")?;
        same!("escrow owner", a.owner, locker::ID);
        let v: locker::accounts::VestingEscrow = real.zc(&x.escrow);
        same!("escrow recipient", v.recipient, x.recipient);
        same!("escrow mint", v.token_mint, x.mint);
        same!("escrow start", v.vesting_start_time, x.start);
        same!("escrow cliff", v.cliff_time, x.cliff);
        same!("escrow frequency", v.frequency, x.v.frequency);
        same!("escrow cliff amount", v.cliff_unlock_amount, x.v.cliff_unlock_amount);
        same!("escrow per period", v.amount_per_period, x.v.amount_per_period);
        same!("escrow periods", v.number_of_period, x.v.number_of_period);
        same!("escrow recipient update mode", v.update_recipient_mode, 2);
        same!("escrow cancel mode", v.cancel_mode, 1);
    }
    if let Some(x) = &e.v1 {
        let a = acc(real, &x.names.pool, "DAMM v1 pool")?;
        same!("v1 owner", a.owner, dynamic_amm::ID);
        let r = mocks::V1Pool::try_from_slice(&a.data).map_err(|_| "v1 record")?;
        same!("v1 pool", r, mocks::V1Pool { config: x.names.config, lp_mint: x.names.lp_mint, a: x.a, b: x.b, lp: x.lp });
        same!("lp supply", real.supply(&x.names.lp_mint), x.lp);
    }
    if let Some(x) = &e.v2 {
        let a = acc(real, &x.names.pool, "DAMM v2 pool")?;
        same!("v2 owner", a.owner, damm_v2::ID);
        let q: damm_v2::accounts::Pool = real.zc(&x.names.pool);
        same!("v2 mints", (q.token_a_mint, q.token_b_mint), (x.mints.0, x.mints.1));
        same!("v2 vaults", (q.token_a_vault, q.token_b_vault), (x.names.vault_a, x.names.vault_b));
        same!("v2 price", { q.sqrt_price }, x.price);
        same!("v2 price range", ({ q.sqrt_min_price }, { q.sqrt_max_price }), (crate::refmath::MIN_SQRT, crate::refmath::MAX_SQRT));
        same!("v2 liquidity", { q.liquidity }, x.liquidity);
        same!("v2 amounts", (q.token_a_amount, q.token_b_amount), (x.a, x.b));
        same!("v2 permanent lock", { q.permanent_lock_liquidity }, x.perm);
        same!("v2 collect mode", q.collect_fee_mode, x.collect);
        for (i, w) in x.positions.iter().enumerate() {
            acc(real, &x.names.position[i], "v2 position")?;
            let g: damm_v2::accounts::Position = real.zc(&x.names.position[i]);
            same!("position pool", g.pool, x.names.pool);
            same!("position nft", g.nft_mint, x.names.nft[i]);
            same!("position liquidity (unlocked, permanent, vested)", ({ g.unlocked_liquidity }, { g.permanent_locked_liquidity }, { g.vested_liquidity }), (w.unlocked, w.permanent, w.vested));
            let iv = &g.inner_vesting;
            let gv = (iv.cliff_point, iv.period_frequency, iv.number_of_period, { iv.liquidity_per_period }, { iv.cliff_unlock_liquidity });
            let wv = w.vesting.map_or((0, 0, 0, 0, 0), |v| (v.cliff_point, v.freq, v.n, v.per, v.cliff));
            same!("position vesting (cliff point, frequency, periods, per period, cliff)", gv, wv);
            let (m, o, amt) = token(real, &x.names.nft_acc[i], "position NFT account")?;
            same!("position NFT (mint, owner, amount)", (m, o, amt), (x.names.nft[i], w.owner, 1));
        }
        if x.positions.len() < 2 {
            for k in [x.names.position[1], x.names.nft[1], x.names.nft_acc[1]] {
                ensure(real.get(&k).is_none(), || "unexpected second position".into())?;
            }
        }
        if let Some((base, dynamic, comp)) = &x.fees {
            use anchor_lang::AnchorDeserialize as _;
            type P = damm_v2::client::args::InitializePoolWithDynamicConfig;
            let c = calls
                .iter()
                .find(|c| c.ok && c.ix.program_id == damm_v2::ID && c.ix.data.starts_with(P::DISCRIMINATOR))
                .ok_or("customizable migration did not create a customizable pool")?;
            let p = P::deserialize(&mut &c.ix.data[8..]).map_err(|_| "pool parameters")?.params;
            same!("migrated base fee", p.pool_fees.base_fee.data.to_vec(), base.clone());
            same!("migrated compounding fee", p.pool_fees.compounding_fee_bps, *comp);
            let d = |d: &damm_v2::types::DynamicFeeParameters| {
                (d.bin_step, d.bin_step_u128, d.filter_period, d.decay_period, d.reduction_factor, d.max_volatility_accumulator, d.variable_fee_control)
            };
            same!("migrated dynamic fee", p.pool_fees.dynamic_fee.as_ref().map(d), dynamic.as_ref().map(d));
            same!("alpha vault", p.has_alpha_vault, false);
            same!("activation", (p.activation_type, p.activation_point), (1, None));
        }
    }
    if let Some(x) = &e.init {
        let p = &x.p;
        same!("supply", real.supply(&p.base_mint), x.supply);
        {
            use anchor_spl::token_2022::spl_token_2022::{extension::StateWithExtensions, state::Mint};
            let a = acc(real, &p.base_mint, "base mint")?;
            same!("mint owner", a.owner, p.base_prog);
            let m = StateWithExtensions::<Mint>::unpack(&a.data).map_err(|_| "base mint")?;
            let o = |c: anchor_lang::solana_program::program_option::COption<Pubkey>| -> Option<Pubkey> { c.into() };
            same!("mint (initialized, decimals)", (m.base.is_initialized, m.base.decimals), (true, x.decimals));
            same!("mint authority", o(m.base.mint_authority), x.mint_authority);
            same!("freeze authority", o(m.base.freeze_authority), None);
        }
        if p.base_prog == SPL {
            let k = mocks::mpl_metadata_key(&p.base_mint);
            let a = acc(real, &k, "token metadata")?;
            let r = mocks::MetaRecord::try_from_slice(&a.data).map_err(|_| "metadata record")?;
            same!("metadata (name, symbol, uri)", (r.name.as_str(), r.symbol.as_str(), r.uri.as_str()), ("Name", "SYM", "https://u.ri/x"));
            same!("metadata mint", r.mint, p.base_mint);
            same!("metadata royalties", (r.seller_fee_basis_points, r.has_creators), (0, false));
            same!("metadata mutable", r.is_mutable, x.update_authority.is_some());
            same!("metadata update authority", r.update_authority, x.update_authority.unwrap_or_default());
        } else {
            use anchor_spl::token_2022::spl_token_2022::extension::{metadata_pointer::MetadataPointer, BaseStateWithExtensions, StateWithExtensions};
            use anchor_spl::token_2022::spl_token_2022::state::{Account, Mint};
            let a = acc(real, &p.base_mint, "base mint")?;
            let m = StateWithExtensions::<Mint>::unpack(&a.data).map_err(|_| "base mint")?;
            let o = |c: anchor_lang::solana_program::program_option::COption<Pubkey>| -> Option<Pubkey> { c.into() };
            let mut ext: Vec<u16> = m.get_extension_types().map_err(|_| "extensions")?.iter().map(|e| *e as u16).collect();
            ext.sort();
            same!("mint extensions", ext, vec![18, 19]);
            let mp = m.get_extension::<MetadataPointer>().map_err(|_| "metadata pointer")?;
            same!("metadata address", Option::<Pubkey>::from(mp.metadata_address), Some(p.base_mint));
            let md = m.get_variable_len_extension::<spl_token_metadata_interface::state::TokenMetadata>().map_err(|_| "metadata")?;
            same!("metadata (name, symbol, uri)", (md.name.as_str(), md.symbol.as_str(), md.uri.as_str()), ("Name", "SYM", "https://u.ri/x"));
            same!("metadata mint", md.mint, p.base_mint);
            same!("metadata update authority", Option::<Pubkey>::from(md.update_authority), x.update_authority);
            for (k, mint) in [(p.base_vault, p.base_mint), (p.quote_vault, p.quote_mint)] {
                let a = acc(real, &k, "vault")?;
                if a.owner != T22 {
                    continue;
                }
                let v = StateWithExtensions::<Account>::unpack(&a.data).map_err(|_| "vault")?;
                same!("vault (mint, owner, amount)", (v.base.mint, v.base.owner, v.base.amount), (mint, auth(), model.tokens(&k)));
                same!("vault delegate", o(v.base.delegate), None);
                same!("vault close authority", o(v.base.close_authority), None);
            }
        }
        let (m, o, amt) = token(real, &p.quote_vault, "quote vault")?;
        same!("quote vault (mint, owner, amount)", (m, o, amt), (p.quote_mint, auth(), model.tokens(&p.quote_vault)));
    }
    Ok(())
}
