//! Reference model: predicts, for every action, whether the program accepts it and the complete
//! account state (pool fields, token balances, supplies, lamports) and events afterwards.
use crate::env::*;
use crate::mocks;
use crate::refmath::*;
use crate::svm::Bank;
use ::dynamic_bonding_curve as dbc;
use anchor_lang::prelude::*;
use anchor_lang::solana_program::instruction::Instruction;
use anchor_lang::Event;
use dbc::event::*;
use dbc::state::{PoolConfig, SwapResult, SwapResult2, VirtualPool};
use dbc::{SwapParameters, SwapParameters2};
use num_traits::ToPrimitive;

pub type Who = &'static str;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Act {
    Swap { who: Who, buy: bool, mode: u8, a0: u64, a1: u64, referral: Option<Who>, legacy: bool },
    ClaimPartner { who: Who, a: u64, b: u64 },
    ClaimCreator { who: Who, a: u64, b: u64 },
    /// operator account of `op`, signed by `who`
    ClaimProtocol { op: Who, who: Who, a: u64, b: u64 },
    Zap { op: Who, who: Who, base: bool, max: u64 },
    ProtCreationFee { op: Who, who: Who },
    PartnerCreationFee { who: Who, to: Who },
    PartnerSurplus { who: Who },
    CreatorSurplus { who: Who },
    MigFee { who: Who, flag: u8 },
    Leftover,
    Transfer { who: Who, new: Who, meta: bool },
    Locker { creator: Who },
    MigrateV2 { second: bool },
    V1Meta,
    MigrateV1,
    V1Lock { owner: Who },
    V1Claim { owner: Who, sender: Who },
    CreateOp { who: Who, by: Who, perm: u128 },
    CloseOp { who: Who, by: Who, to: Who },
    /// create the pool
    Init,
    // environment
    Advance { secs: u64, slots: u64 },
    Donate { base: bool, amount: u64 },
}
impl Act {
    pub fn buy(a0: u64) -> Act {
        Act::Swap { who: "trader", buy: true, mode: 0, a0, a1: 0, referral: None, legacy: false }
    }
    pub fn sell(a0: u64) -> Act {
        Act::Swap { who: "trader", buy: false, mode: 0, a0, a1: 0, referral: None, legacy: false }
    }
    pub fn swap(buy: bool, mode: u8, a0: u64) -> Act {
        Act::Swap { who: "trader", buy, mode, a0, a1: if mode == 2 { u64::MAX } else { 0 }, referral: None, legacy: false }
    }
    pub fn is_env(&self) -> bool {
        matches!(self, Act::Advance { .. } | Act::Donate { .. })
    }
}
/// "admin" and "admin2" are the hard-coded administrators, everything else is a plain actor
pub fn who(w: Who) -> Pubkey {
    match w {
        "admin" => ADMINS[0],
        "admin2" => ADMINS[1],
        "treasury" => TREASURY,
        x => keyc(x),
    }
}
fn keyc(x: &'static str) -> Pubkey {
    thread_local!(static C: std::cell::RefCell<std::collections::HashMap<&'static str, Pubkey>> = Default::default());
    C.with(|c| *c.borrow_mut().entry(x).or_insert_with(|| key(x)))
}

pub fn v2_config_key(p: &Pool) -> Pubkey {
    key(&format!("v2config{}", p.pool))
}
pub fn v1_config_key(p: &Pool) -> Pubkey {
    key(&format!("v1config{}", p.pool))
}
/// accounts of external programs that a migration needs
pub fn put_external(b: &mut Bank, p: &Pool) {
    let c = p.cfg(b);
    if c.migration_option == 1 {
        put_v2_config(b, v2_config_key(p), c.migration_fee_option, |_| {});
    } else {
        put_v1_config(b, v1_config_key(p), c.migration_fee_option, |_| {});
        let n = p.v1_names(&v1_config_key(p));
        put_v1_fixtures(b, p, &n);
        for w in ACTORS {
            put_v1_lock_fixtures(b, p, &n, &key(w));
        }
    }
    let e = p.escrow();
    put_token(b, p.escrow_token(), p.base_mint, e, 0, p.base_prog);
}

pub fn build(p: &Pool, a: &Act) -> Option<Instruction> {
    Some(match *a {
        Act::Swap { who: w, buy, mode, a0, a1, referral, legacy } => {
            let r = referral.map(|r| p.referral(&who(r), false));
            if legacy {
                p.ix_swap_v1(&who(w), buy, a0, a1, r)
            } else {
                p.ix_swap(&who(w), buy, mode, a0, a1, r)
            }
        }
        Act::ClaimPartner { who: w, a, b } => p.ix_claim_partner(&who(w), a, b),
        Act::ClaimCreator { who: w, a, b } => p.ix_claim_creator(&who(w), a, b),
        Act::ClaimProtocol { op, who: w, a, b } => p.ix_claim_protocol(&operator_key(&who(op)), &who(w), a, b),
        Act::Zap { op, who: w, base, max } => p.ix_zap(&operator_key(&who(op)), &who(w), base, max),
        Act::ProtCreationFee { op, who: w } => p.ix_claim_protocol_creation_fee(&operator_key(&who(op)), &who(w)),
        Act::PartnerCreationFee { who: w, to } => p.ix_claim_partner_creation_fee(&who(w), &who(to)),
        Act::PartnerSurplus { who: w } => p.ix_partner_surplus(&who(w)),
        Act::CreatorSurplus { who: w } => p.ix_creator_surplus(&who(w)),
        Act::MigFee { who: w, flag } => p.ix_migration_fee(&who(w), flag),
        Act::Leftover => p.ix_leftover(),
        Act::Transfer { who: w, new, meta } => p.ix_transfer_creator(&who(w), &who(new), meta.then(|| p.v1_meta())),
        Act::Locker { creator } => p.ix_locker(&who(creator)),
        Act::MigrateV2 { second } => p.ix_migrate_v2(&p.v2_names(&v2_config_key(p)), second),
        Act::V1Meta => p.ix_v1_metadata(),
        Act::MigrateV1 => p.ix_migrate_v1(&p.v1_names(&v1_config_key(p))),
        Act::V1Lock { owner } => p.ix_v1_lock(&p.v1_names(&v1_config_key(p)), &who(owner)),
        Act::V1Claim { owner, sender } => p.ix_v1_claim(&p.v1_names(&v1_config_key(p)), &who(owner), &who(sender)),
        Act::CreateOp { who: w, by, perm } => ix_create_operator(&who(w), &who(by), perm),
        Act::CloseOp { who: w, by, to } => ix_close_operator(&who(w), &who(by), &who(to)),
        Act::Init => p.ix_init_pool(),
        Act::Advance { .. } | Act::Donate { .. } => return None,
    })
}
/// referral accounts must be in the fee token: base when fees are collected in base on a buy
pub fn build_for(p: &Pool, c: &PoolConfig, a: &Act) -> Option<Instruction> {
    if let Act::Swap { who: w, buy, mode, a0, a1, referral: Some(r), legacy } = *a {
        let base = buy && c.collect_fee_mode == 1;
        let acc = Some(p.referral(&who(r), base));
        return Some(if legacy { p.ix_swap_v1(&who(w), buy, a0, a1, acc) } else { p.ix_swap(&who(w), buy, mode, a0, a1, acc) });
    }
    build(p, a)
}

/// how the swap sits inside its transaction
#[derive(Clone, Copy, Debug, Default)]
pub struct TxPos {
    /// the transaction already contains something that counts as another swap of this pool
    pub limiter_blocked: bool,
    /// top-level swap following the pool's creation in the same transaction
    pub after_init: bool,
}

#[derive(Default, Debug)]
pub struct Eff {
    pub events: Vec<Vec<u8>>,
    /// accounts whose contents are not predicted byte for byte
    pub free: Vec<Pubkey>,
    pub v2: Option<V2Exp>,
    pub trade: Option<Trade>,
    pub lock: Option<LockExp>,
    pub v1: Option<V1Exp>,
    pub init: Option<InitExp>,
}
#[derive(Debug, Clone)]
pub struct V1Exp {
    pub names: V1Names,
    pub a: u64,
    pub b: u64,
    pub lp: u64,
}
#[derive(Debug, Clone)]
pub struct InitExp {
    pub p: Pool,
    pub supply: u64,
    pub decimals: u8,
    pub mint_authority: Option<Pubkey>,
    pub update_authority: Option<Pubkey>,
}
#[derive(Debug, Clone)]
pub struct LockExp {
    pub escrow: Pubkey,
    pub recipient: Pubkey,
    pub amount: u64,
    pub start: u64,
    pub cliff: u64,
    pub mint: Pubkey,
    pub v: dbc::state::LockedVestingConfig,
}
#[derive(Debug, Clone)]
pub struct V2Exp {
    pub names: V2Names,
    pub price: u128,
    pub liquidity: u128,
    pub a: u64,
    pub b: u64,
    pub perm: u128,
    pub collect: u8,
    pub positions: Vec<PosExp>,
    pub mints: (Pubkey, Pubkey),
    /// fees demanded of a customizable pool: (base fee bytes, dynamic fee, compounding bps)
    pub fees: Option<(Vec<u8>, Option<damm_v2::types::DynamicFeeParameters>, u16)>,
}
#[derive(Debug, Clone)]
pub struct PosExp {
    pub owner: Pubkey,
    pub unlocked: u128,
    pub permanent: u128,
    pub vested: u128,
    pub vesting: Option<Vest>,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Vest {
    pub cliff_point: u64,
    pub freq: u64,
    pub n: u16,
    pub per: u128,
    pub cliff: u128,
}

pub fn now_point(c: &PoolConfig, b: &Bank) -> u64 {
    if c.activation_type == 0 {
        b.now.slot
    } else {
        (b.now.ts as u64)
    }
}
fn mv(b: &mut Bank, from: &Pubkey, to: &Pubkey, amount: u64) -> Option<()> {
    let (x, y) = (b.get(from)?, b.get(to)?);
    if x.data.len() < 165 || y.data.len() < 165 {
        return None;
    }
    let f = b.tokens(from).checked_sub(amount)?;
    if amount == 0 || from == to {
        return Some(());
    }
    set_tokens(b, from, f);
    let t = b.tokens(to).checked_add(amount)?;
    set_tokens(b, to, t);
    Some(())
}
pub fn burn(b: &mut Bank, mint: &Pubkey, from: &Pubkey, amount: u64) -> Option<()> {
    let f = b.tokens(from).checked_sub(amount)?;
    set_tokens(b, from, f);
    let s = b.supply(mint).checked_sub(amount)?;
    let mut m = b.get(mint)?.clone();
    m.data[36..44].copy_from_slice(&s.to_le_bytes());
    b.put(*mint, m);
    Some(())
}
fn lamports(b: &mut Bank, from: &Pubkey, to: &Pubkey, amount: u64) -> Option<()> {
    let mut f = b.get(from)?.clone();
    f.lamports = f.lamports.checked_sub(amount)?;
    b.put(*from, f);
    let mut t = b.get(to).cloned().unwrap_or_default();
    t.lamports = t.lamports.checked_add(amount)?;
    b.put(*to, t);
    Some(())
}
pub fn base_fees(s: &VirtualPool) -> Option<u64> {
    s.partner_base_fee.checked_add(s.protocol_base_fee)?.checked_add(s.creator_base_fee)
}
pub fn vest_total(c: &PoolConfig) -> Option<u64> {
    let v = &c.locked_vesting_config;
    v.cliff_unlock_amount.checked_add(v.amount_per_period.checked_mul(v.number_of_period)?)
}
pub fn has_vest(c: &PoolConfig) -> bool {
    let v = &c.locked_vesting_config;
    v.cliff_unlock_amount != 0
        || v.amount_per_period != 0
        || v.number_of_period != 0
        || v.frequency != 0
        || v.cliff_duration_from_migration_time != 0
}
/// (quote that goes to the new pool, migration fee)
pub fn migration_quote(c: &PoolConfig) -> (u64, u64) {
    let t = c.migration_quote_threshold;
    let q = mul_ceil(t as u128, 100 - c.migration_fee_percentage as u128, 100).to_u64().unwrap();
    (q, t - q)
}
/// (partner, creator) migration fee
pub fn migration_fee_split(c: &PoolConfig) -> (u64, u64) {
    let (_, f) = migration_quote(c);
    let cr = pct(f, c.creator_migration_fee_percentage as u64);
    (f - cr, cr)
}
/// (partner, creator, protocol) surplus
pub fn surplus(c: &PoolConfig, s: &VirtualPool) -> Option<(u64, u64, u64)> {
    let total = s.quote_reserve.checked_sub(c.migration_quote_threshold)?;
    let pc = pct(total, 80);
    let (p, cr) = creator_share(c, pc);
    Some((p, cr, total - pc))
}
fn op_ok(b: &Bank, op: Who, signer: Who, bit: u32) -> bool {
    let k = operator_key(&who(op));
    match b.get(&k) {
        Some(a) if a.owner == dbc::ID && a.data.len() >= 8 => {
            let o: dbc::state::operator::Operator = b.zc(&k);
            o.whitelisted_address == who(signer) && (o.permission >> bit) & 1 == 1
        }
        _ => false,
    }
}
pub const ZAP_BIT: u32 = 1;
pub const CLAIM_BIT: u32 = 0;

/// protocol's claimable quote, mutating the pool's books
fn protocol_quote(c: &PoolConfig, s: &mut VirtualPool, max: u64) -> Option<u64> {
    let x = s.protocol_quote_fee.min(max);
    s.protocol_quote_fee -= x;
    let y = s.protocol_migration_quote_fee_amount.min(max - x);
    s.protocol_migration_quote_fee_amount -= y;
    let mut t = x.checked_add(y)?;
    if s.is_protocol_withdraw_surplus == 0 && s.quote_reserve >= c.migration_quote_threshold {
        s.is_protocol_withdraw_surplus = 1;
        t = t.checked_add(surplus(c, s)?.2)?;
    }
    Some(t)
}
fn protocol_base(s: &mut VirtualPool, max: u64) -> Option<u64> {
    let x = s.protocol_base_fee.min(max);
    s.protocol_base_fee -= x;
    let y = s.protocol_migration_base_fee_amount.min(max - x);
    s.protocol_migration_base_fee_amount -= y;
    x.checked_add(y)
}

/// Apply `act` to `b` as the documentation says it must act. None = must be refused (b is then garbage).
pub fn apply(b: &mut Bank, p: &Pool, act: &Act, pos: TxPos, e: &mut Eff) -> Option<()> {
    if let Act::CreateOp { .. } | Act::CloseOp { .. } = act {
        return apply_op(b, act, e);
    }
    let c = p.cfg(b);
    if *act == Act::Init {
        return init_pool(b, p, &c, e);
    }
    if b.get(&p.pool).is_none() && !act.is_env() {
        return None;
    }
    if let Act::Advance { secs, slots } = *act {
        b.advance(secs, slots);
        return Some(());
    }
    let mut s = p.state(b);
    let completed = s.quote_reserve >= c.migration_quote_threshold;
    match *act {
        Act::Advance { .. } | Act::Init => unreachable!(),
        Act::Donate { base, amount } => {
            // base tokens can only come from someone who bought them
            if base {
                mv(b, &p.base_ata(&keyc("trader")), &p.base_vault, amount)?;
            } else {
                let t = b.tokens(&p.quote_vault).checked_add(amount)?;
                set_tokens(b, &p.quote_vault, t);
            }
        }
        Act::Swap { who: w, buy, mode, a0, a1, referral, legacy } => {
            let mode = if legacy { 0 } else { mode };
            if a0 == 0 || completed || mode > 2 {
                return None;
            }
            let now = now_point(&c, b);
            if limiter_applies(&c, now, s.activation_point, buy) && pos.limiter_blocked {
                return None;
            }
            let first_min = c.enable_first_swap_with_min_fee == 1 && s.has_swap == 0 && pos.after_init && referral.is_none();
            vol_pre(&c, &mut s, (b.now.ts as u64));
            let t = trade(&c, &s, now, buy, mode, a0, referral.is_some(), first_min)?;
            if mode == 2 && t.paid > a1 || mode != 2 && t.received < a1 {
                return None;
            }
            let old = s.sqrt_price;
            s.sqrt_price = t.price;
            let (pa, cr) = creator_share(&c, t.fees.trading);
            let m = &mut s.metrics;
            if t.fee_on_base {
                s.partner_base_fee = s.partner_base_fee.checked_add(pa)?;
                s.creator_base_fee = s.creator_base_fee.checked_add(cr)?;
                s.protocol_base_fee = s.protocol_base_fee.checked_add(t.fees.protocol)?;
                m.total_protocol_base_fee = m.total_protocol_base_fee.checked_add(t.fees.protocol)?;
                m.total_trading_base_fee = m.total_trading_base_fee.checked_add(t.fees.trading)?;
            } else {
                s.partner_quote_fee = s.partner_quote_fee.checked_add(pa)?;
                s.creator_quote_fee = s.creator_quote_fee.checked_add(cr)?;
                s.protocol_quote_fee = s.protocol_quote_fee.checked_add(t.fees.protocol)?;
                m.total_protocol_quote_fee = m.total_protocol_quote_fee.checked_add(t.fees.protocol)?;
                m.total_trading_quote_fee = m.total_trading_quote_fee.checked_add(t.fees.trading)?;
            }
            if buy {
                s.quote_reserve = s.quote_reserve.checked_add(t.net_in)?;
                s.base_reserve = s.base_reserve.checked_sub(t.curve_out)?;
            } else {
                s.base_reserve = s.base_reserve.checked_add(t.net_in)?;
                s.quote_reserve = s.quote_reserve.checked_sub(t.curve_out)?;
            }
            vol_post(&c, &mut s, old, (b.now.ts as u64))?;
            s.has_swap = 1;
            let k = who(w);
            let (inp, out, vi, vo) = if buy {
                (p.quote_ata(&k), p.base_ata(&k), p.quote_vault, p.base_vault)
            } else {
                (p.base_ata(&k), p.quote_ata(&k), p.base_vault, p.quote_vault)
            };
            mv(b, &inp, &vi, t.paid)?;
            mv(b, &vo, &out, t.received)?;
            if let Some(r) = referral {
                let (v, to) =
                    if t.fee_on_base { (p.base_vault, p.base_ata(&who(r))) } else { (p.quote_vault, p.quote_ata(&who(r))) };
                mv(b, &v, &to, t.fees.referral)?;
            }
            let res = SwapResult {
                actual_input_amount: t.net_in,
                output_amount: t.received,
                next_sqrt_price: t.price,
                trading_fee: t.fees.trading,
                protocol_fee: t.fees.protocol,
                referral_fee: t.fees.referral,
            };
            let (ai, mo) = match mode {
                0 => (a0, a1),
                1 => (t.paid, t.received),
                _ => (t.paid, a0),
            };
            e.events.push(
                EvtSwap {
                    pool: p.pool,
                    config: p.config,
                    trade_direction: buy as u8,
                    has_referral: referral.is_some(),
                    params: SwapParameters { amount_in: ai, minimum_amount_out: mo },
                    swap_result: res,
                    amount_in: t.paid,
                    current_timestamp: (b.now.ts as u64),
                }
                .data(),
            );
            e.events.push(
                EvtSwap2 {
                    pool: p.pool,
                    config: p.config,
                    trade_direction: buy as u8,
                    has_referral: referral.is_some(),
                    swap_parameters: SwapParameters2 { amount_0: a0, amount_1: a1, swap_mode: mode },
                    swap_result: SwapResult2 {
                        included_fee_input_amount: t.paid,
                        excluded_fee_input_amount: t.net_in,
                        amount_left: t.left,
                        output_amount: t.received,
                        next_sqrt_price: t.price,
                        trading_fee: t.fees.trading,
                        protocol_fee: t.fees.protocol,
                        referral_fee: t.fees.referral,
                    },
                    quote_reserve_amount: s.quote_reserve,
                    migration_threshold: c.migration_quote_threshold,
                    current_timestamp: (b.now.ts as u64),
                }
                .data(),
            );
            if s.quote_reserve >= c.migration_quote_threshold {
                let need = c.migration_base_threshold.checked_add(base_fees(&s)?)?.checked_add(vest_total(&c)?)?;
                if b.tokens(&p.base_vault) < need {
                    return None;
                }
                s.finish_curve_timestamp = (b.now.ts as u64);
                s.migration_progress = if has_vest(&c) { 1 } else { 2 };
                e.events.push(
                    EvtCurveComplete { pool: p.pool, config: p.config, base_reserve: s.base_reserve, quote_reserve: s.quote_reserve }.data(),
                );
            }
            e.trade = Some(t);
        }
        Act::ClaimPartner { who: w, a, b: q } => {
            if who(w) != c.fee_claimer {
                return None;
            }
            let (x, y) = (s.partner_base_fee.min(a), s.partner_quote_fee.min(q));
            s.partner_base_fee -= x;
            s.partner_quote_fee -= y;
            mv(b, &p.base_vault, &p.base_ata(&who(w)), x)?;
            mv(b, &p.quote_vault, &p.quote_ata(&who(w)), y)?;
            e.events.push(EvtClaimTradingFee { pool: p.pool, token_base_amount: x, token_quote_amount: y }.data());
        }
        Act::ClaimCreator { who: w, a, b: q } => {
            if who(w) != s.creator {
                return None;
            }
            let (x, y) = (s.creator_base_fee.min(a), s.creator_quote_fee.min(q));
            s.creator_base_fee -= x;
            s.creator_quote_fee -= y;
            mv(b, &p.base_vault, &p.base_ata(&who(w)), x)?;
            mv(b, &p.quote_vault, &p.quote_ata(&who(w)), y)?;
            e.events.push(EvtClaimCreatorTradingFee { pool: p.pool, token_base_amount: x, token_quote_amount: y }.data());
        }
        Act::ClaimProtocol { op, who: w, a, b: q } => {
            if !op_ok(b, op, w, CLAIM_BIT) {
                return None;
            }
            let x = protocol_base(&mut s, a)?;
            let y = protocol_quote(&c, &mut s, q)?;
            if x > 0 {
                mv(b, &p.base_vault, &p.base_ata(&treasury()), x)?;
            }
            if y > 0 {
                mv(b, &p.quote_vault, &p.quote_ata(&treasury()), y)?;
            }
            e.events.push(EvtClaimProtocolFee { pool: p.pool, token_base_amount: x, token_quote_amount: y }.data());
        }
        Act::Zap { op, who: w, base, max } => {
            if !op_ok(b, op, w, ZAP_BIT) {
                return None;
            }
            // SOL and USDC go to the treasury as they are
            let mint = if base { p.base_mint } else { p.quote_mint };
            if [protocol_zap::constants::SOL, protocol_zap::constants::USDC].contains(&mint.to_bytes()) {
                return None;
            }
            let x = if base { protocol_base(&mut s, max)? } else { protocol_quote(&c, &mut s, max)? };
            if x == 0 {
                return None;
            }
            if base {
                mv(b, &p.base_vault, &p.base_ata(&who(w)), x)?;
            } else {
                mv(b, &p.quote_vault, &p.quote_ata(&who(w)), x)?;
            }
        }
        Act::ProtCreationFee { op, who: w } => {
            if !op_ok(b, op, w, CLAIM_BIT) {
                return None;
            }
            let mut x = 0;
            if s.creation_fee_bits & 1 == 0 {
                s.creation_fee_bits |= 1;
                x = pct(c.pool_creation_fee, 10);
            }
            if s.legacy_creation_fee_bits & 1 != 0 && s.legacy_creation_fee_bits & 2 == 0 {
                s.legacy_creation_fee_bits |= 2;
                x += 10_000_000;
            }
            if x > 0 {
                lamports(b, &p.pool, &treasury(), x)?;
            }
            e.events.push(EvtClaimPoolCreationFee { pool: p.pool, receiver: treasury(), creation_fee: x }.data());
        }
        Act::PartnerCreationFee { who: w, to } => {
            let x = c.pool_creation_fee - pct(c.pool_creation_fee, 10);
            if who(w) != c.fee_claimer || x == 0 || s.creation_fee_bits & 2 != 0 {
                return None;
            }
            s.creation_fee_bits |= 2;
            lamports(b, &p.pool, &who(to), x)?;
            e.events.push(
                EvtPartnerClaimPoolCreationFee { pool: p.pool, partner: who(w), creation_fee: x, fee_receiver: who(to) }.data(),
            );
        }
        Act::PartnerSurplus { who: w } => {
            if who(w) != c.fee_claimer || !completed || s.is_partner_withdraw_surplus != 0 {
                return None;
            }
            let x = surplus(&c, &s)?.0;
            s.is_partner_withdraw_surplus = 1;
            mv(b, &p.quote_vault, &p.quote_ata(&who(w)), x)?;
            e.events.push(EvtPartnerWithdrawSurplus { pool: p.pool, surplus_amount: x }.data());
        }
        Act::CreatorSurplus { who: w } => {
            if who(w) != s.creator || !completed || s.is_creator_withdraw_surplus != 0 {
                return None;
            }
            let x = surplus(&c, &s)?.1;
            s.is_creator_withdraw_surplus = 1;
            mv(b, &p.quote_vault, &p.quote_ata(&who(w)), x)?;
            e.events.push(EvtCreatorWithdrawSurplus { pool: p.pool, surplus_amount: x }.data());
        }
        Act::MigFee { who: w, flag } => {
            if !completed || flag > 1 {
                return None;
            }
            let (pa, cr) = migration_fee_split(&c);
            let (mask, x, ok) = if flag == 0 { (4, pa, c.fee_claimer) } else { (2, cr, s.creator) };
            if who(w) != ok || s.migration_fee_withdraw_status & mask != 0 {
                return None;
            }
            s.migration_fee_withdraw_status |= mask;
            mv(b, &p.quote_vault, &p.quote_ata(&who(w)), x)?;
            e.events.push(EvtWithdrawMigrationFee { pool: p.pool, fee: x, flag }.data());
        }
        Act::Leftover => {
            if s.migration_progress != 3 || c.fixed_token_supply_flag != 1 || s.is_withdraw_leftover != 0 {
                return None;
            }
            let x = b.tokens(&p.base_vault).checked_sub(base_fees(&s)?)?.checked_sub(s.protocol_migration_base_fee_amount)?;
            s.is_withdraw_leftover = 1;
            mv(b, &p.base_vault, &p.base_ata(&c.leftover_receiver), x)?;
            e.events.push(EvtWithdrawLeftover { pool: p.pool, leftover_receiver: c.leftover_receiver, leftover_amount: x }.data());
        }
        Act::Transfer { who: w, new, meta } => {
            if who(w) != s.creator || who(new) == who(w) {
                return None;
            }
            match s.migration_progress {
                0 => {}
                3 => {
                    if c.migration_option == 0 {
                        if !meta {
                            return None;
                        }
                        let m: dbc::MeteoraDammMigrationMetadata = b.zc(&p.v1_meta());
                        let done = (m.partner_locked_liquidity == 0 || m.partner_locked_status == 1)
                            && (m.creator_locked_liquidity == 0 || m.creator_locked_status == 1)
                            && (m.partner_liquidity == 0 || m.partner_claim_status == 1)
                            && (m.creator_liquidity == 0 || m.creator_claim_status == 1);
                        if !done {
                            return None;
                        }
                    }
                }
                _ => return None,
            }
            e.events.push(EvtUpdatePoolCreator { pool: p.pool, creator: s.creator, new_creator: who(new) }.data());
            s.creator = who(new);
        }
        Act::Locker { creator } => {
            if s.migration_progress != 1 || who(creator) != s.creator {
                return None;
            }
            let v = &c.locked_vesting_config;
            let total = vest_total(&c)?;
            s.migration_progress = 2;
            mv(b, &p.base_vault, &p.escrow_token(), total)?;
            e.free.extend([p.escrow(), keyc("payer")]);
            e.lock = Some(LockExp {
                escrow: p.escrow(),
                recipient: s.creator,
                amount: total,
                start: s.finish_curve_timestamp,
                cliff: s.finish_curve_timestamp.saturating_add(v.cliff_duration_from_migration_time),
                mint: p.base_mint,
                v: *v,
            });
        }
        Act::V1Meta => {
            if c.migration_option != 0 || b.get(&p.v1_meta()).is_some() {
                return None;
            }
            let mut m: dbc::MeteoraDammMigrationMetadata = bytemuck::Zeroable::zeroed();
            m.virtual_pool = p.pool;
            m.partner = c.fee_claimer;
            use anchor_lang::Discriminator;
            let mut data = dbc::MeteoraDammMigrationMetadata::DISCRIMINATOR.to_vec();
            data.extend_from_slice(bytemuck::bytes_of(&m));
            b.put(p.v1_meta(), crate::svm::Acc { lamports: Rent::default().minimum_balance(data.len()), data, owner: dbc::ID, executable: false });
            e.free.push(keyc("payer"));
            e.events.push(EvtCreateMeteoraMigrationMetadata { virtual_pool: p.pool }.data());
        }
        Act::MigrateV1 => {
            if c.migration_option != 0 || s.migration_progress != 2 || !completed || b.get(&p.v1_meta()).is_none() {
                return None;
            }
            let fees = base_fees(&s)?;
            let vault = b.tokens(&p.base_vault);
            let (base, quote) = (c.migration_base_threshold, migration_quote(&c).0);
            if vault.checked_sub(fees)? < base {
                return None;
            }
            let bps = s.protocol_liquidity_migration_fee_bps as u128;
            let pb = mul_floor(base as u128, bps, 10_000).to_u64()?;
            let pq = mul_floor(quote as u128, bps, 10_000).to_u64()?;
            s.protocol_migration_base_fee_amount = pb;
            s.protocol_migration_quote_fee_amount = pq;
            let (db, dq) = (base - pb, quote - pq);
            let n = p.v1_names(&v1_config_key(p));
            let lp = mocks::isqrt(db, dq);
            if lp == 0 {
                return None;
            }
            mv(b, &p.base_vault, &n.a_token_vault, db)?;
            mv(b, &p.quote_vault, &n.b_token_vault, dq)?;
            let had = b.tokens(&n.lp);
            let have = had.checked_add(lp)?;
            set_tokens(b, &n.lp, have);
            let left = b.tokens(&p.base_vault).checked_sub(fees.checked_add(pb)?)?;
            burn_rest(b, p, &c, left)?;
            let mut m: dbc::MeteoraDammMigrationMetadata = b.zc(&p.v1_meta());
            let part = |q: u8| mul_floor(have as u128, q as u128, 100).to_u64().unwrap();
            m.lp_mint = n.lp_mint;
            m.partner_locked_liquidity = part(c.partner_permanent_locked_liquidity_percentage);
            m.partner_liquidity = part(c.partner_liquidity_percentage);
            m.creator_locked_liquidity = part(c.creator_permanent_locked_liquidity_percentage);
            m.creator_liquidity = have - m.partner_locked_liquidity - m.partner_liquidity - m.creator_locked_liquidity;
            b.set_zc(&p.v1_meta(), &m);
            s.is_migrated = 1;
            s.migration_progress = 3;
            e.v1 = Some(V1Exp { names: n.clone(), a: db, b: dq, lp });
            e.free.extend([n.pool, n.lp_mint, keyc("payer")]);
        }
        Act::V1Lock { owner } | Act::V1Claim { owner, .. } => {
            let lock = matches!(act, Act::V1Lock { .. });
            if s.migration_progress != 3 || c.migration_option != 0 {
                return None;
            }
            let mut m: dbc::MeteoraDammMigrationMetadata = b.zc(&p.v1_meta());
            let (isp, isc) = (who(owner) == m.partner, who(owner) == s.creator);
            let (mut amt, mut again) = (0u64, false);
            if !isp && !isc {
                return None;
            }
            if isp {
                let (x, f) = if lock {
                    (m.partner_locked_liquidity, &mut m.partner_locked_status)
                } else {
                    (m.partner_liquidity, &mut m.partner_claim_status)
                };
                again |= *f == 1;
                *f = 1;
                amt += x;
            }
            if isc {
                let (x, f) = if lock {
                    (m.creator_locked_liquidity, &mut m.creator_locked_status)
                } else {
                    (m.creator_liquidity, &mut m.creator_claim_status)
                };
                again |= *f == 1;
                *f = 1;
                amt += x;
            }
            if again || amt == 0 {
                return None;
            }
            b.set_zc(&p.v1_meta(), &m);
            let n = p.v1_names(&v1_config_key(p));
            let to = if lock {
                let (esc, vault) = p.v1_lock_escrow(&n, &who(owner));
                let mut a = b.get(&esc)?.clone();
                let mut le: dynamic_amm::accounts::LockEscrow = AnchorDeserialize::deserialize(&mut &a.data[8..]).ok()?;
                le.total_locked_amount += amt;
                let mut out = vec![];
                le.serialize(&mut out).ok()?;
                a.data[8..8 + out.len()].copy_from_slice(&out);
                b.put(esc, a);
                vault
            } else {
                ata(&who(owner), &n.lp_mint, &SPL)
            };
            mv(b, &n.lp, &to, amt)?;
            return Some(());
        }
        Act::MigrateV2 { second } => {
            if c.migration_option != 1 || s.migration_progress != 2 || !completed {
                return None;
            }
            let n = p.v2_names(&v2_config_key(p));
            let mut x = migrate_v2(b, p, &c, &mut s, n, second)?;
            e.free.append(&mut x.1);
            e.v2 = Some(x.0);
        }
        Act::CreateOp { .. } | Act::CloseOp { .. } => unreachable!(),
    }
    if !act.is_env() {
        b.set_zc(&p.pool, &s);
    }
    Some(())
}
fn apply_op(b: &mut Bank, act: &Act, e: &mut Eff) -> Option<()> {
    match *act {
        Act::CreateOp { who: w, by, perm } => {
            let k = operator_key(&who(w));
            if by != "admin" && by != "admin2" || b.get(&k).is_some() || perm == 0 || perm >= 4 {
                return None;
            }
            put_operator(b, &who(w), perm);
            let rent = b.lamports(&k);
            let mut f = b.get(&who(by))?.clone();
            f.lamports = f.lamports.checked_sub(rent)?;
            b.put(who(by), f);
            return Some(());
        }
        Act::CloseOp { who: w, by, to } => {
            let k = operator_key(&who(w));
            if by != "admin" && by != "admin2" || b.get(&k).is_none() {
                return None;
            }
            let l = b.lamports(&k);
            lamports(b, &k, &who(to), l)?;
            b.accs.remove(&k);
            return Some(());
        }
        _ => None,
    }
}
fn init_pool(b: &mut Bank, p: &Pool, c: &PoolConfig, e: &mut Eff) -> Option<()> {
    if [p.pool, p.base_mint, p.base_vault, p.quote_vault].iter().any(|k| b.get(k).is_some()) {
        return None;
    }
    if crate::refcfg::total_locked_bps(c, 86400)? < 1000 || min_base_fee(c)? < MIN_FEE || c.token_type != (p.base_prog == T22) as u8 {
        return None;
    }
    let supply = crate::refcfg::initial_supply(c)?;
    let (cr, pa) = (Some(p.creator), Some(c.fee_claimer));
    let (update_authority, mint_authority) = match c.token_update_authority {
        0 => (cr, None),
        1 => (None, None),
        2 => (pa, None),
        3 => (cr, cr),
        _ => (pa, pa),
    };
    use anchor_lang::Discriminator;
    let mut s: VirtualPool = bytemuck::Zeroable::zeroed();
    s.config = p.config;
    s.creator = p.creator;
    s.base_mint = p.base_mint;
    s.base_vault = p.base_vault;
    s.quote_vault = p.quote_vault;
    s.base_reserve = supply;
    s.sqrt_price = c.sqrt_start_price;
    s.activation_point = now_point(c, b);
    s.pool_type = (p.base_prog == T22) as u8;
    s.protocol_liquidity_migration_fee_bps = 20;
    let mut data = VirtualPool::DISCRIMINATOR.to_vec();
    data.extend_from_slice(bytemuck::bytes_of(&s));
    let lamports = Rent::default().minimum_balance(data.len()) + c.pool_creation_fee;
    b.put(p.pool, crate::svm::Acc { lamports, data, owner: dbc::ID, executable: false });
    put_mint(b, p.base_mint, c.token_decimal, supply, mint_authority, None, p.base_prog);
    put_token(b, p.base_vault, p.base_mint, auth(), supply, p.base_prog);
    put_token(b, p.quote_vault, p.quote_mint, auth(), 0, p.quote_prog);
    e.free.push(keyc("payer"));
    if p.base_prog == T22 {
        e.free.extend([p.base_mint, p.base_vault]);
    } else {
        // a removed mint authority leaves its bytes behind: the mint is compared field by field
        e.free.extend([p.base_mint, mocks::mpl_metadata_key(&p.base_mint)]);
    }
    if p.quote_prog == T22 {
        e.free.push(p.quote_vault);
    }
    e.events.push(
        EvtInitializePool {
            pool: p.pool,
            config: p.config,
            creator: p.creator,
            base_mint: p.base_mint,
            pool_type: s.pool_type,
            activation_point: s.activation_point,
        }
        .data(),
    );
    e.init = Some(InitExp { p: p.clone(), supply, decimals: c.token_decimal, mint_authority, update_authority });
    Some(())
}
fn burn_rest(b: &mut Bank, p: &Pool, c: &PoolConfig, left: u64) -> Option<()> {
    let max = if c.fixed_token_supply_flag == 1 {
        c.pre_migration_token_supply.checked_sub(c.post_migration_token_supply)?
    } else {
        u64::MAX
    };
    let x = left.min(max);
    if x > 0 {
        burn(b, &p.base_mint, &p.base_vault, x)?;
    }
    Some(())
}

// ------------------------------------------------------------------ DAMM v2 migration
pub fn conc_liquidity(base: u64, quote: u64, p: u128) -> Option<u128> {
    let lb = b(base) * p * MAX_SQRT / (MAX_SQRT.checked_sub(p)?);
    let lq = ((b(quote) << 128usize) / (p.checked_sub(MIN_SQRT)?)).to_u128()?;
    Some(lb.min(b(lq)).to_u128()?)
}
/// (pool price, total liquidity)
pub fn comp_liquidity(base: u64, quote: u64) -> Option<(u128, u128)> {
    let q: B = b(quote) << 128usize;
    let s1 = ceil(&q, &b(base)).sqrt().to_u128()?;
    if s1 < MIN_SQRT || s1 > MAX_SQRT {
        return None;
    }
    let s2 = (q / base).sqrt().to_u128()?;
    Some((s1, s2.checked_mul(base as u128)?))
}
pub const DEAD: u128 = 100 << 64;
#[derive(Clone, Copy, Debug)]
pub struct Lp {
    pub unlocked: u128,
    pub perm: u128,
    pub vested: u128,
}
impl Lp {
    pub fn total(&self) -> u128 {
        self.unlocked + self.perm + self.vested
    }
}
/// (partner, creator)
pub fn lp_split(c: &PoolConfig, l: u128) -> (Lp, Lp) {
    let f = |q: u8| mul_floor(l, q as u128, 100).to_u128().unwrap();
    let pa = Lp {
        unlocked: f(c.partner_liquidity_percentage),
        perm: f(c.partner_permanent_locked_liquidity_percentage),
        vested: f(c.partner_liquidity_vesting_info.vesting_percentage),
    };
    let (cp, cv) = (f(c.creator_permanent_locked_liquidity_percentage), f(c.creator_liquidity_vesting_info.vesting_percentage));
    (pa, Lp { unlocked: l - pa.total() - cp - cv, perm: cp, vested: cv })
}
pub fn vesting(v: &dbc::state::LiquidityVestingInfo, total: u128, now: u64) -> Option<Vest> {
    let bps = v.bps_per_period.checked_mul(v.number_of_periods)?;
    let after = mul_floor(total, bps as u128, 10_000).to_u128()?;
    let (mut n, mut freq, mut cl) = (v.number_of_periods, v.frequency as u64, v.cliff_duration_from_migration_time as u64);
    let per = if n > 0 { after / n as u128 } else { 0 };
    if per == 0 {
        n = 0;
        freq = 0;
        cl = cl.max(1);
    }
    Some(Vest { cliff_point: now.checked_add(cl)?, freq, n, per, cliff: total.checked_sub(per.checked_mul(n as u128)?)? })
}
fn migrate_v2(bk: &mut Bank, p: &Pool, c: &PoolConfig, s: &mut VirtualPool, n: V2Names, second: bool) -> Option<(V2Exp, Vec<Pubkey>)> {
    let comp = c.migrated_collect_fee_mode == 2;
    let fees = base_fees(s)?;
    let avail = bk.tokens(&p.base_vault).checked_sub(fees)?;
    let quote = migration_quote(c).0;
    let bps = s.protocol_liquidity_migration_fee_bps as u128;
    let pq = mul_floor(quote as u128, bps, 10_000).to_u64()?;
    let mp = c.migration_sqrt_price;
    let (base, pb) = if comp {
        if avail < c.migration_base_threshold {
            return None;
        }
        (c.migration_base_threshold, mul_floor(c.migration_base_threshold as u128, bps, 10_000).to_u64()?)
    } else {
        let fl = ((b(pq) << 128usize) / (mp - MIN_SQRT)).to_u128()?;
        (avail, d_base(mp, MAX_SQRT, fl, false).to_u64()?)
    };
    s.protocol_migration_base_fee_amount = pb;
    s.protocol_migration_quote_fee_amount = pq;
    let (db, dq) = (base.checked_sub(pb)?, quote - pq);
    let (price, dist, dead) = if comp {
        let (pr, l) = comp_liquidity(db, dq)?;
        (pr, l.checked_sub(DEAD)?, DEAD)
    } else {
        (mp, conc_liquidity(db, dq, mp)?, 0)
    };
    let (pa, cr) = lp_split(c, dist);
    let (pi, ci) = (
        (pa, &c.partner_liquidity_vesting_info, c.fee_claimer, c.partner_permanent_locked_liquidity_percentage),
        (cr, &c.creator_liquidity_vesting_info, s.creator, c.creator_permanent_locked_liquidity_percentage),
    );
    let (first, mut sec) = if pa.total() > cr.total() { (pi, ci) } else { (ci, pi) };
    // what the external pool really takes for this liquidity
    let l1 = first.0.total() + dead;
    // the external pool's own rules: positive liquidity; compounding pools keep DEAD forever
    if l1 == 0 || comp && l1 <= DEAD {
        return None;
    }
    // fixed-fee migrations use a static config whose collect mode is zero (concentrated)
    let collect = if c.migration_fee_option == 6 { [1u8, 0, 2][c.migrated_collect_fee_mode as usize] } else { 0 };
    let (a1, b1) = mocks::v2_amounts(l1, price, comp).ok()?;
    let (va, vb) = (n_vault(bk, p, &n, true), n_vault(bk, p, &n, false));
    mv(bk, &p.base_vault, &va, a1)?;
    mv(bk, &p.quote_vault, &vb, b1)?;
    let (lb, lq) = (db.checked_sub(a1)?, dq.checked_sub(b1)?);
    let l2 = if comp {
        mul_floor(lb as u128, l1, a1 as u128).min(mul_floor(lq as u128, l1, b1 as u128)).to_u128()?
    } else {
        conc_liquidity(lb, lq, mp)?
    };
    let mk = |x: &(Lp, &dbc::state::LiquidityVestingInfo, Pubkey, u8)| -> Option<PosExp> {
        let v = if x.0.vested > 0 { Some(vesting(x.1, x.0.vested, (bk.now.ts as u64))?) } else { None };
        Some(PosExp { owner: x.2, unlocked: x.0.unlocked, permanent: x.0.perm, vested: x.0.vested, vesting: v })
    };
    let mut positions = vec![mk(&first)?];
    let (mut a, mut bb, mut l) = (a1, b1, l1);
    if l2 > 0 {
        if !second {
            return None;
        }
        let (v, q) = (sec.1.vesting_percentage as u128, sec.3 as u128);
        sec.0 = if v + q == 0 {
            Lp { unlocked: l2, perm: 0, vested: 0 }
        } else {
            let u = l2.min(sec.0.unlocked);
            let ve = mul_floor(l2 - u, v, v + q).to_u128()?;
            Lp { unlocked: u, vested: ve, perm: l2 - u - ve }
        };
        let (a2, b2) = if comp {
            (mul_ceil(a1 as u128, l2, l1).to_u64()?, mul_ceil(b1 as u128, l2, l1).to_u64()?)
        } else {
            mocks::v2_amounts(l2, mp, false).ok()?
        };
        let mk2 = {
            let v = if sec.0.vested > 0 { Some(vesting(sec.1, sec.0.vested, (bk.now.ts as u64))?) } else { None };
            PosExp { owner: sec.2, unlocked: sec.0.unlocked, permanent: sec.0.perm, vested: sec.0.vested, vesting: v }
        };
        positions.push(mk2);
        mv(bk, &p.base_vault, &va, a2)?;
        mv(bk, &p.quote_vault, &vb, b2)?;
        a += a2;
        bb += b2;
        l += l2;
    }
    let left = bk.tokens(&p.base_vault).checked_sub(fees.checked_add(pb)?)?;
    burn_rest(bk, p, c, left)?;
    s.is_migrated = 1;
    s.migration_progress = 3;
    let mut free = vec![n.pool, keyc("payer")];
    for i in 0..positions.len() {
        free.extend([n.nft[i], n.nft_acc[i], n.position[i]]);
    }
    let perm = positions.iter().map(|x| x.permanent).sum();
    let fees = if c.migration_fee_option == 6 { Some(crate::refcfg::migrated_fees(c)?) } else { None };
    Some((V2Exp { names: n, price, liquidity: l, a, b: bb, perm, collect, positions, mints: (p.base_mint, p.quote_mint), fees }, free))
}
/// predicted token vault of the new pool (created on first use)
fn n_vault(bk: &mut Bank, p: &Pool, n: &V2Names, base: bool) -> Pubkey {
    let (k, m, t) = if base { (n.vault_a, p.base_mint, p.base_prog) } else { (n.vault_b, p.quote_mint, p.quote_prog) };
    if bk.get(&k).is_none() {
        put_token(bk, k, m, mocks::v2_authority().0, 0, t);
    }
    k
}
