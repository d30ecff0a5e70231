//! Stand-ins for the programs the bonding curve calls: Metaplex metadata, DAMM v1, DAMM v2, the locker,
//! and a "puppet" program that forwards an arbitrary instruction (to issue CPIs *into* the bonding curve).
//! Token movements inside the stand-ins use the real token processors.
use crate::svm;
use anchor_lang::prelude::*;
use anchor_lang::solana_program::{
    entrypoint::ProgramResult, instruction::AccountMeta, instruction::Instruction, program_error::ProgramError,
    system_instruction, system_program,
};
use anchor_lang::{AnchorDeserialize, Discriminator};
use anchor_spl::token::spl_token;
use anchor_spl::token_2022::spl_token_2022;
use num_bigint::BigUint;
use num_traits::ToPrimitive;

type Infos = [AccountInfo<'static>];

pub fn init() {
    svm::register(mpl_token_metadata::ID, metaplex);
    svm::register(damm_v2::ID, damm2);
    svm::register(dynamic_amm::ID, damm1);
    svm::register(locker::ID, lock);
    svm::register(puppet_id(), puppet);
    svm::register(impostor_id(), |_, _, _| Ok(()));
    for (i, _) in FAKED.iter().enumerate() {
        svm::register(thief_id(i), thief);
    }
}

pub fn puppet_id() -> Pubkey {
    Pubkey::new_from_array([77; 32])
}

fn bad() -> ProgramError {
    ProgramError::InvalidArgument
}
fn custom(n: u32) -> ProgramError {
    ProgramError::Custom(900_000 + n)
}
fn check(b: bool, n: u32) -> ProgramResult {
    if b {
        Ok(())
    } else {
        Err(custom(n))
    }
}

// ---------------------------------------------------------------- puppet
/// data = bincode of (program, metas, data); accounts = everything needed
/// a program anybody may deploy: it takes every instruction and does nothing
pub fn impostor_id() -> Pubkey {
    Pubkey::new_from_array([78; 32])
}
/// programs a thief can stand in for
const FAKED: [(Pubkey, fn(&Pubkey, &Infos, &[u8]) -> ProgramResult); 4] = [(mpl_token_metadata::ID, metaplex), (damm_v2::ID, damm2), (dynamic_amm::ID, damm1), (locker::ID, lock)];
fn thief_id(i: usize) -> Pubkey {
    Pubkey::new_from_array([79 + i as u8; 32])
}
pub fn thief_of(real: &Pubkey) -> Option<Pubkey> {
    FAKED.iter().position(|f| f.0 == *real).map(thief_id)
}
/// the program a thief acts as; what it does to accounts is judged as that program's doing
pub fn alias(id: &Pubkey) -> Pubkey {
    (0..FAKED.len()).find(|i| thief_id(*i) == *id).map_or(*id, |i| FAKED[i].0)
}
pub fn thieves() -> Vec<Pubkey> {
    (0..FAKED.len()).map(thief_id).collect()
}
/// does what the real program would do, then moves a token of every signer it was given
fn thief(id: &Pubkey, a: &Infos, data: &[u8]) -> ProgramResult {
    let i = (0..FAKED.len()).find(|i| thief_id(*i) == *id).ok_or_else(bad)?;
    FAKED[i].1(&FAKED[i].0, a, data)?;
    for prog in [spl_token::ID, spl_token_2022::ID] {
        if !a.iter().any(|x| *x.key == prog) {
            continue;
        }
        let field = |x: &AccountInfo<'static>, at: usize| -> Option<Pubkey> {
            let d = x.try_borrow_data().ok()?;
            (*x.owner == prog && d.len() >= 165 && (d.len() == 165 || d[165] == 2)).then(|| Pubkey::new_from_array(d[at..at + 32].try_into().unwrap()))
        };
        for from in a.iter().filter(|x| x.is_writable) {
            let (Some(mint), Some(owner)) = (field(from, 0), field(from, 32)) else { continue };
            let rich = u64::from_le_bytes(from.try_borrow_data()?[64..72].try_into().unwrap()) > 0;
            let to = a.iter().find(|x| x.is_writable && x.key != from.key && field(x, 0) == Some(mint) && field(x, 32) != Some(owner));
            let (Some(to), true) = (to, rich && a.iter().any(|x| *x.key == owner && x.is_signer)) else { continue };
            #[allow(deprecated)]
            let ix = spl_token_2022::instruction::transfer(&prog, from.key, to.key, &owner, &[], 1)?;
            svm::cpi(&ix, a, &[])?;
        }
    }
    Ok(())
}
pub fn puppet(_id: &Pubkey, a: &Infos, data: &[u8]) -> ProgramResult {
    let ixs: Vec<Instruction> = bincode::deserialize(data).map_err(|_| bad())?;
    for ix in &ixs {
        svm::cpi(ix, a, &[])?;
    }
    Ok(())
}

pub fn through_puppet(ix: &Instruction) -> Instruction {
    through_puppet_many(std::slice::from_ref(ix), &[])
}
/// one third-party instruction that performs `ixs` in order and mentions `extra`
pub fn through_puppet_many(ixs: &[Instruction], extra: &[Pubkey]) -> Instruction {
    let mut accounts: Vec<AccountMeta> = ixs.iter().flat_map(|i| i.accounts.clone()).collect();
    for i in ixs {
        accounts.push(AccountMeta::new_readonly(i.program_id, false));
    }
    for k in extra {
        accounts.push(AccountMeta::new_readonly(*k, false));
    }
    Instruction { program_id: puppet_id(), accounts, data: bincode::serialize(&ixs.to_vec()).unwrap() }
}

thread_local!(static FPA: std::cell::RefCell<std::collections::HashMap<Vec<u8>, (Pubkey, u8)>> = Default::default());
pub fn fpa(seeds: &[&[u8]], id: &Pubkey) -> (Pubkey, u8) {
    let mut k = id.to_bytes().to_vec();
    for s in seeds {
        k.push(s.len() as u8);
        k.extend_from_slice(s);
    }
    FPA.with(|c| *c.borrow_mut().entry(k).or_insert_with(|| Pubkey::find_program_address(seeds, id)))
}

// ---------------------------------------------------------------- helpers
fn create(
    payer: &AccountInfo<'static>,
    new: &AccountInfo<'static>,
    space: usize,
    owner: &Pubkey,
    seeds: &[&[u8]],
    infos: &Infos,
) -> ProgramResult {
    let rent = Rent::get()?.minimum_balance(space);
    let s: Vec<&[&[u8]]> = if seeds.is_empty() { vec![] } else { vec![seeds] };
    // like anchor: the address may already hold lamports
    if new.lamports() == 0 {
        let ix = system_instruction::create_account(payer.key, new.key, rent, space as u64, owner);
        return svm::cpi(&ix, infos, &s);
    }
    let need = rent.saturating_sub(new.lamports());
    if need > 0 {
        svm::cpi(&system_instruction::transfer(payer.key, new.key, need), infos, &[])?;
    }
    svm::cpi(&system_instruction::allocate(new.key, space as u64), infos, &s)?;
    svm::cpi(&system_instruction::assign(new.key, owner), infos, &s)
}

fn amount(i: &AccountInfo) -> u64 {
    let d = i.data.borrow();
    if d.len() < 72 {
        return 0;
    }
    u64::from_le_bytes(d[64..72].try_into().unwrap())
}
fn owner_of(i: &AccountInfo) -> Pubkey {
    Pubkey::new_from_array(i.data.borrow()[32..64].try_into().unwrap())
}
fn mint_decimals(i: &AccountInfo) -> u8 {
    i.data.borrow()[44]
}

fn move_tokens(
    prog: &AccountInfo<'static>,
    from: &AccountInfo<'static>,
    mint: &AccountInfo<'static>,
    to: &AccountInfo<'static>,
    auth: &AccountInfo<'static>,
    amt: u64,
    seeds: &[&[&[u8]]],
) -> ProgramResult {
    let ix = spl_token_2022::instruction::transfer_checked(
        prog.key, from.key, mint.key, to.key, auth.key, &[], amt, mint_decimals(mint),
    )?;
    svm::cpi(&ix, &[from.clone(), mint.clone(), to.clone(), auth.clone(), prog.clone()], seeds)
}

/// creates a token account (plain layout) at `acc` owned by `owner`
fn make_token_account(
    payer: &AccountInfo<'static>,
    acc: &AccountInfo<'static>,
    mint: &AccountInfo<'static>,
    owner: &Pubkey,
    prog: &AccountInfo<'static>,
    seeds: &[&[u8]],
    infos: &Infos,
) -> ProgramResult {
    create(payer, acc, 165, prog.key, seeds, infos)?;
    let ix = spl_token_2022::instruction::initialize_account3(prog.key, acc.key, mint.key, owner)?;
    svm::cpi(&ix, infos, &[])
}

fn ceil_div(a: BigUint, b: BigUint) -> BigUint {
    use num_integer::Integer;
    Integer::div_ceil(&a, &b)
}
fn big(x: u128) -> BigUint {
    BigUint::from(x)
}
fn to_u64(x: BigUint) -> std::result::Result<u64, ProgramError> {
    x.to_u64().ok_or(custom(1))
}

// ---------------------------------------------------------------- metaplex
#[derive(AnchorSerialize, AnchorDeserialize, Clone, Debug, PartialEq)]
pub struct MetaRecord {
    pub update_authority: Pubkey,
    pub mint: Pubkey,
    pub name: String,
    pub symbol: String,
    pub uri: String,
    pub is_mutable: bool,
    pub seller_fee_basis_points: u16,
    pub has_creators: bool,
}

pub fn mpl_metadata_key(mint: &Pubkey) -> Pubkey {
    fpa(&[b"metadata", mpl_token_metadata::ID.as_ref(), mint.as_ref()], &mpl_token_metadata::ID).0
}

fn metaplex(id: &Pubkey, a: &Infos, data: &[u8]) -> ProgramResult {
    use mpl_token_metadata::instructions::*;
    let disc = *data.first().ok_or(bad())?;
    match disc {
        33 => {
            // metadata, mint, mint_authority, payer, update_authority, system
            let args = CreateMetadataAccountV3InstructionArgs::try_from_slice(&data[1..]).map_err(|_| bad())?;
            let (k, bump) = fpa(&[b"metadata", id.as_ref(), a[1].key.as_ref()], id);
            check(k == *a[0].key, 10)?;
            check(a[2].is_signer && a[3].is_signer, 11)?;
            {
                let m = a[1].data.borrow();
                check(m.len() == 82 && m[0] == 1 && m[4..36] == a[2].key.to_bytes(), 12)?;
            }
            let rec = MetaRecord {
                update_authority: *a[4].key,
                mint: *a[1].key,
                name: args.data.name,
                symbol: args.data.symbol,
                uri: args.data.uri,
                is_mutable: args.is_mutable,
                seller_fee_basis_points: args.data.seller_fee_basis_points,
                has_creators: args.data.creators.is_some(),
            };
            let bytes = rec.try_to_vec().map_err(|_| bad())?;
            let seeds: &[&[u8]] = &[b"metadata", id.as_ref(), a[1].key.as_ref(), &[bump]];
            create(&a[3], &a[0], bytes.len(), id, seeds, a)?;
            a[0].data.borrow_mut().copy_from_slice(&bytes);
            Ok(())
        }
        15 => {
            // metadata, update_authority
            let args = UpdateMetadataAccountV2InstructionArgs::try_from_slice(&data[1..]).map_err(|_| bad())?;
            check(a[0].owner == id, 13)?;
            let mut rec = MetaRecord::try_from_slice(&a[0].data.borrow()).map_err(|_| bad())?;
            check(a[1].is_signer && rec.update_authority == *a[1].key, 14)?;
            if let Some(k) = args.new_update_authority {
                rec.update_authority = k;
            }
            if args.data.is_some() {
                check(rec.is_mutable, 15)?;
            }
            if let Some(m) = args.is_mutable {
                rec.is_mutable = m;
            }
            let bytes = rec.try_to_vec().map_err(|_| bad())?;
            a[0].data.borrow_mut()[..bytes.len()].copy_from_slice(&bytes);
            Ok(())
        }
        _ => Err(bad()),
    }
}

// ---------------------------------------------------------------- DAMM v2
pub const V2_AUTH_SEED: &[u8] = b"pool_authority";
pub fn v2_authority() -> (Pubkey, u8) {
    fpa(&[V2_AUTH_SEED], &damm_v2::ID)
}
pub fn v2_event_authority() -> Pubkey {
    fpa(&[b"__event_authority"], &damm_v2::ID).0
}
pub fn v2_pool_key(config: &Pubkey, a: &Pubkey, b: &Pubkey) -> (Pubkey, u8) {
    fpa(
        &[b"pool", config.as_ref(), a.max(b).as_ref(), a.min(b).as_ref()],
        &damm_v2::ID,
    )
}
pub fn v2_vault_key(mint: &Pubkey, pool: &Pubkey) -> (Pubkey, u8) {
    fpa(&[b"token_vault", mint.as_ref(), pool.as_ref()], &damm_v2::ID)
}
pub fn v2_position_key(nft: &Pubkey) -> (Pubkey, u8) {
    fpa(&[b"position", nft.as_ref()], &damm_v2::ID)
}
pub fn v2_nft_account_key(nft: &Pubkey) -> (Pubkey, u8) {
    fpa(&[b"position_nft_account", nft.as_ref()], &damm_v2::ID)
}

const MIN_P: u128 = 4295048016;
const MAX_P: u128 = 79226673521066979257578248091;
const DEAD: u128 = 100 << 64;

fn zc<T: bytemuck::Pod>(i: &AccountInfo) -> T {
    bytemuck::pod_read_unaligned(&i.data.borrow()[8..8 + std::mem::size_of::<T>()])
}
fn set_zc<T: bytemuck::Pod>(i: &AccountInfo, v: &T) {
    let b = bytemuck::bytes_of(v);
    i.data.borrow_mut()[8..8 + b.len()].copy_from_slice(b);
}

fn make_position(
    id: &Pubkey,
    owner: &AccountInfo<'static>,
    mint: &AccountInfo<'static>,
    nft: &AccountInfo<'static>,
    pool: &AccountInfo<'static>,
    position: &AccountInfo<'static>,
    auth: &AccountInfo<'static>,
    payer: &AccountInfo<'static>,
    t22: &AccountInfo<'static>,
    infos: &Infos,
) -> ProgramResult {
    check(*t22.key == anchor_spl::token_2022::ID, 20)?;
    check(mint.is_signer && payer.is_signer, 21)?;
    let (ak, ab) = v2_authority();
    check(*auth.key == ak, 22)?;
    let aseeds: &[&[u8]] = &[V2_AUTH_SEED, &[ab]];
    create(payer, mint, 82, t22.key, &[], infos)?;
    svm::cpi(&spl_token_2022::instruction::initialize_mint2(t22.key, mint.key, &ak, None, 0)?, infos, &[])?;
    let (nk, nb) = v2_nft_account_key(mint.key);
    check(nk == *nft.key, 23)?;
    make_token_account(payer, nft, mint, owner.key, t22, &[b"position_nft_account", mint.key.as_ref(), &[nb]], infos)?;
    svm::cpi(
        &spl_token_2022::instruction::mint_to(t22.key, mint.key, nft.key, &ak, &[], 1)?,
        infos,
        &[aseeds],
    )?;
    let (pk, pb) = v2_position_key(mint.key);
    check(pk == *position.key, 24)?;
    let space = 8 + std::mem::size_of::<damm_v2::accounts::Position>();
    create(payer, position, space, id, &[b"position", mint.key.as_ref(), &[pb]], infos)?;
    position.data.borrow_mut()[..8].copy_from_slice(damm_v2::accounts::Position::DISCRIMINATOR);
    let mut p: damm_v2::accounts::Position = zc(position);
    p.pool = *pool.key;
    p.nft_mint = *mint.key;
    set_zc(position, &p);
    Ok(())
}

/// the signer must hold the position NFT
fn position_owner(owner: &AccountInfo, nft: &AccountInfo, position: &AccountInfo, pool: &AccountInfo, id: &Pubkey) -> ProgramResult {
    check(owner.is_signer, 30)?;
    check(position.owner == id && pool.owner == id, 31)?;
    let p: damm_v2::accounts::Position = zc(position);
    check(p.pool == *pool.key, 32)?;
    check(*nft.owner == anchor_spl::token_2022::ID, 33)?;
    check(nft.data.borrow()[..32] == p.nft_mint.to_bytes(), 34)?;
    check(owner_of(nft) == *owner.key && amount(nft) == 1, 35)
}

pub fn v2_amounts(liquidity: u128, p: u128, compounding: bool) -> std::result::Result<(u64, u64), ProgramError> {
    if compounding {
        Ok((
            to_u64(ceil_div(big(liquidity), big(p)))?,
            to_u64(ceil_div(big(liquidity) * big(p), BigUint::from(1u8) << 128))?,
        ))
    } else {
        Ok((
            to_u64(ceil_div(big(liquidity) * big(MAX_P - p), big(p) * big(MAX_P)))?,
            to_u64(ceil_div(big(liquidity) * big(p - MIN_P), BigUint::from(1u8) << 128))?,
        ))
    }
}

fn v2_init(id: &Pubkey, a: &Infos, liquidity: u128, sqrt_price: u128, collect: u8, dynamic: bool) -> ProgramResult {
    // creator, nft mint, nft acc, payer, [pool_creator_authority], config, authority, pool, position,
    // mint a, mint b, vault a, vault b, payer a, payer b, prog a, prog b, t22, system, ev, program
    let o = if dynamic { 1 } else { 0 };
    let payer = &a[3];
    check(payer.is_signer, 40)?;
    if dynamic {
        check(a[4].is_signer, 41)?;
    }
    let (config, auth, pool, position) = (&a[4 + o], &a[5 + o], &a[6 + o], &a[7 + o]);
    let (ma, mb, va, vb) = (&a[8 + o], &a[9 + o], &a[10 + o], &a[11 + o]);
    let (pa, pb, ta, tb, t22) = (&a[12 + o], &a[13 + o], &a[14 + o], &a[15 + o], &a[16 + o]);
    check(config.owner == id, 42)?;
    let cfg: damm_v2::accounts::Config = zc(config);
    check(cfg.pool_creator_authority == Pubkey::default() || cfg.pool_creator_authority == if dynamic { *a[4].key } else { *payer.key }, 43)?;
    check(cfg.config_type == dynamic as u8, 44)?;
    check(sqrt_price >= MIN_P && sqrt_price <= MAX_P && liquidity > 0, 45)?;
    let collect = if dynamic { collect } else { cfg.collect_fee_mode };
    let (pk, bump) = v2_pool_key(config.key, ma.key, mb.key);
    check(pk == *pool.key, 46)?;
    let space = 8 + std::mem::size_of::<damm_v2::accounts::Pool>();
    create(payer, pool, space, id, &[b"pool", config.key.as_ref(), ma.key.max(mb.key).as_ref(), ma.key.min(mb.key).as_ref(), &[bump]], a)?;
    pool.data.borrow_mut()[..8].copy_from_slice(damm_v2::accounts::Pool::DISCRIMINATOR);
    for (v, m, t) in [(va, ma, ta), (vb, mb, tb)] {
        let (vk, vbump) = v2_vault_key(m.key, pool.key);
        check(vk == *v.key, 47)?;
        make_token_account(payer, v, m, auth.key, t, &[b"token_vault", m.key.as_ref(), pool.key.as_ref(), &[vbump]], a)?;
    }
    make_position(id, &a[0], &a[1], &a[2], pool, position, auth, payer, t22, a)?;
    let (amt_a, amt_b) = v2_amounts(liquidity, sqrt_price, collect == 2)?;
    check(amt_a > 0 || amt_b > 0, 48)?;
    if collect == 2 {
        check(liquidity > DEAD, 49)?;
    }
    move_tokens(ta, pa, ma, va, payer, amt_a, &[])?;
    move_tokens(tb, pb, mb, vb, payer, amt_b, &[])?;
    let mut p: damm_v2::accounts::Pool = zc(pool);
    p.token_a_mint = *ma.key;
    p.token_b_mint = *mb.key;
    p.token_a_vault = *va.key;
    p.token_b_vault = *vb.key;
    p.liquidity = liquidity;
    p.sqrt_price = sqrt_price;
    p.sqrt_min_price = MIN_P;
    p.sqrt_max_price = MAX_P;
    p.collect_fee_mode = collect;
    p.creator = *a[0].key;
    p.token_a_amount = amt_a;
    p.token_b_amount = amt_b;
    p.layout_version = 1;
    set_zc(pool, &p);
    let mut q: damm_v2::accounts::Position = zc(position);
    q.unlocked_liquidity = if collect == 2 { liquidity - DEAD } else { liquidity };
    set_zc(position, &q);
    Ok(())
}

fn damm2(id: &Pubkey, a: &Infos, data: &[u8]) -> ProgramResult {
    use damm_v2::client::args as ar;
    if data.len() < 8 {
        return Err(bad());
    }
    let (d, mut rest) = data.split_at(8);
    if d == ar::InitializePool::DISCRIMINATOR {
        let x = ar::InitializePool::deserialize(&mut rest).map_err(|_| bad())?;
        v2_init(id, a, x.params.liquidity, x.params.sqrt_price, 0, false)
    } else if d == ar::InitializePoolWithDynamicConfig::DISCRIMINATOR {
        let x = ar::InitializePoolWithDynamicConfig::deserialize(&mut rest).map_err(|_| bad())?.params;
        check(x.sqrt_min_price == MIN_P && x.sqrt_max_price == MAX_P, 50)?;
        v2_init(id, a, x.liquidity, x.sqrt_price, x.collect_fee_mode, true)
    } else if d == ar::CreatePosition::DISCRIMINATOR {
        // owner, nft mint, nft acc, pool, position, authority, payer, token program, system, ev, program
        check(a[3].owner == id, 51)?;
        make_position(id, &a[0], &a[1], &a[2], &a[3], &a[4], &a[5], &a[6], &a[7], a)
    } else if d == ar::AddLiquidity::DISCRIMINATOR {
        let x = ar::AddLiquidity::deserialize(&mut rest).map_err(|_| bad())?.params;
        // pool, position, acc a, acc b, vault a, vault b, mint a, mint b, nft acc, owner, prog a, prog b
        position_owner(&a[9], &a[8], &a[1], &a[0], id)?;
        let mut p: damm_v2::accounts::Pool = zc(&a[0]);
        check(p.token_a_vault == *a[4].key && p.token_b_vault == *a[5].key, 52)?;
        check(x.liquidity_delta > 0, 53)?;
        let (amt_a, amt_b) = if p.collect_fee_mode == 2 {
            (
                to_u64(ceil_div(big(p.token_a_amount.into()) * big(x.liquidity_delta), big(p.liquidity)))?,
                to_u64(ceil_div(big(p.token_b_amount.into()) * big(x.liquidity_delta), big(p.liquidity)))?,
            )
        } else {
            v2_amounts(x.liquidity_delta, p.sqrt_price, false)?
        };
        check(amt_a <= x.token_a_amount_threshold && amt_b <= x.token_b_amount_threshold, 54)?;
        if amt_a > 0 {
            move_tokens(&a[10], &a[2], &a[6], &a[4], &a[9], amt_a, &[])?;
        }
        if amt_b > 0 {
            move_tokens(&a[11], &a[3], &a[7], &a[5], &a[9], amt_b, &[])?;
        }
        p.token_a_amount += amt_a;
        p.token_b_amount += amt_b;
        p.liquidity = p.liquidity.checked_add(x.liquidity_delta).ok_or(custom(2))?;
        set_zc(&a[0], &p);
        let mut q: damm_v2::accounts::Position = zc(&a[1]);
        q.unlocked_liquidity += x.liquidity_delta;
        set_zc(&a[1], &q);
        Ok(())
    } else if d == ar::PermanentLockPosition::DISCRIMINATOR {
        let x = ar::PermanentLockPosition::deserialize(&mut rest).map_err(|_| bad())?;
        // pool, position, nft acc, owner
        position_owner(&a[3], &a[2], &a[1], &a[0], id)?;
        let mut q: damm_v2::accounts::Position = zc(&a[1]);
        check(x.permanent_lock_liquidity > 0 && q.unlocked_liquidity >= x.permanent_lock_liquidity, 55)?;
        q.unlocked_liquidity -= x.permanent_lock_liquidity;
        q.permanent_locked_liquidity += x.permanent_lock_liquidity;
        set_zc(&a[1], &q);
        let mut p: damm_v2::accounts::Pool = zc(&a[0]);
        p.permanent_lock_liquidity += x.permanent_lock_liquidity;
        set_zc(&a[0], &p);
        Ok(())
    } else if d == ar::LockInnerPosition::DISCRIMINATOR {
        let v = ar::LockInnerPosition::deserialize(&mut rest).map_err(|_| bad())?.params;
        position_owner(&a[3], &a[2], &a[1], &a[0], id)?;
        let now = Clock::get()?.unix_timestamp as u64;
        let cliff = v.cliff_point.unwrap_or(now);
        check(cliff >= now, 56)?;
        if cliff == now {
            check(v.number_of_period > 0, 57)?;
        }
        if v.number_of_period > 0 {
            check(v.period_frequency > 0 && v.liquidity_per_period > 0, 58)?;
        }
        let total = v.cliff_unlock_liquidity + v.liquidity_per_period * v.number_of_period as u128;
        check(total > 0, 59)?;
        let dur = (cliff - now) as u128 + v.period_frequency as u128 * v.number_of_period as u128;
        check(dur <= 63_072_000 * 5, 60)?; // ten years in DAMM v2; five times the curve's own limit
        let mut q: damm_v2::accounts::Position = zc(&a[1]);
        check(q.vested_liquidity == 0 && q.inner_vesting.cliff_point == 0, 61)?;
        check(q.unlocked_liquidity >= total, 62)?;
        q.unlocked_liquidity -= total;
        q.vested_liquidity += total;
        q.inner_vesting.cliff_point = cliff;
        q.inner_vesting.period_frequency = v.period_frequency;
        q.inner_vesting.cliff_unlock_liquidity = v.cliff_unlock_liquidity;
        q.inner_vesting.liquidity_per_period = v.liquidity_per_period;
        q.inner_vesting.number_of_period = v.number_of_period;
        set_zc(&a[1], &q);
        Ok(())
    } else {
        Err(custom(99))
    }
}

// ---------------------------------------------------------------- DAMM v1
pub fn v1_key(seed: &[u8], k: &Pubkey) -> (Pubkey, u8) {
    fpa(&[seed, k.as_ref()], &dynamic_amm::ID)
}
pub fn v1_pool_key(config: &Pubkey, a: &Pubkey, b: &Pubkey) -> (Pubkey, u8) {
    fpa(&[b"p", config.as_ref(), a.max(b).as_ref(), a.min(b).as_ref()], &dynamic_amm::ID)
}
/// stand-in record of a created DAMM v1 pool
#[derive(AnchorSerialize, AnchorDeserialize, Clone, Debug, PartialEq)]
pub struct V1Pool {
    pub config: Pubkey,
    pub lp_mint: Pubkey,
    pub a: u64,
    pub b: u64,
    pub lp: u64,
}

pub fn isqrt(a: u64, b: u64) -> u64 {
    (big(a.into()) * big(b.into())).sqrt().to_u64().unwrap()
}

fn damm1(id: &Pubkey, a: &Infos, data: &[u8]) -> ProgramResult {
    use dynamic_amm::client::args as ar;
    let (d, mut rest) = data.split_at(8.min(data.len()));
    if d == ar::InitializePermissionlessConstantProductPoolWithConfig2::DISCRIMINATOR {
        let x = ar::InitializePermissionlessConstantProductPoolWithConfig2::deserialize(&mut rest).map_err(|_| bad())?;
        // 0 pool 1 config 2 lp_mint 3 ma 4 mb 5 av 6 bv 7 atv 8 btv .. 13 payer_a 14 payer_b 15 payer_lp
        // 16 pfa 17 pfb 18 payer 19 rent 20 meta 21 metaprog 22 vault 23 token 24 ata 25 system
        let payer = &a[18];
        check(payer.is_signer, 70)?;
        check(a[1].owner == id, 71)?;
        let (pk, bump) = v1_pool_key(a[1].key, a[3].key, a[4].key);
        check(pk == *a[0].key, 72)?;
        let lp = isqrt(x.token_a_amount, x.token_b_amount);
        check(lp > 0, 73)?;
        let (lk, lb) = v1_key(b"lp_mint", a[0].key);
        check(lk == *a[2].key, 74)?;
        let rec = V1Pool { config: *a[1].key, lp_mint: lk, a: x.token_a_amount, b: x.token_b_amount, lp };
        let bytes = rec.try_to_vec().map_err(|_| bad())?;
        create(payer, &a[0], bytes.len(), id, &[b"p", a[1].key.as_ref(), a[3].key.max(a[4].key).as_ref(), a[3].key.min(a[4].key).as_ref(), &[bump]], a)?;
        a[0].data.borrow_mut().copy_from_slice(&bytes);
        let tok = &a[23];
        create(payer, &a[2], 82, tok.key, &[b"lp_mint", a[0].key.as_ref(), &[lb]], a)?;
        svm::cpi(&spl_token::instruction::initialize_mint2(tok.key, &lk, &lk, None, mint_decimals(&a[4]))?, a, &[])?;
        // payer_pool_lp: the ATA of the payer, created here (the real program does it through the ATA program)
        check(*a[15].key == anchor_spl::associated_token::get_associated_token_address(payer.key, &lk), 75)?;
        if a[15].data_is_empty() {
            // modelled: the ATA address cannot sign here, so the fixture pre-creates the empty account
            return Err(custom(76));
        }
        svm::cpi(&spl_token::instruction::mint_to(tok.key, &lk, a[15].key, &lk, &[], lp)?, a, &[&[b"lp_mint", a[0].key.as_ref(), &[lb]]])?;
        for (from, mint, to, amt) in [(&a[13], &a[3], &a[7], x.token_a_amount), (&a[14], &a[4], &a[8], x.token_b_amount)] {
            move_tokens(tok, from, mint, to, payer, amt, &[])?;
        }
        Ok(())
    } else if d == ar::Lock::DISCRIMINATOR {
        let x = ar::Lock::deserialize(&mut rest).map_err(|_| bad())?;
        // pool, lp_mint, lock_escrow, owner, source_tokens, escrow_vault, token
        check(a[3].is_signer, 80)?;
        check(a[2].owner == id, 81)?;
        let mut e = {
            let d = a[2].data.borrow();
            dynamic_amm::accounts::LockEscrow::deserialize(&mut &d[8..]).map_err(|_| bad())?
        };
        check(e.pool == *a[0].key, 82)?;
        check(v1_key(b"lp_mint", a[0].key).0 == *a[1].key, 84)?;
        check(owner_of(&a[5]) == *a[2].key, 83)?;
        let amt = amount(&a[4]).min(x.max_amount);
        let ix = spl_token::instruction::transfer(a[6].key, a[4].key, a[5].key, a[3].key, &[], amt)?;
        svm::cpi(&ix, a, &[])?;
        e.total_locked_amount += amt;
        let mut out = vec![];
        e.serialize(&mut out)?;
        a[2].data.borrow_mut()[8..8 + out.len()].copy_from_slice(&out);
        Ok(())
    } else {
        Err(custom(99))
    }
}

// ---------------------------------------------------------------- locker
pub fn escrow_key(base: &Pubkey) -> (Pubkey, u8) {
    fpa(&[b"escrow", base.as_ref()], &locker::ID)
}

fn lock(id: &Pubkey, a: &Infos, data: &[u8]) -> ProgramResult {
    use locker::client::args as ar;
    let (d, mut rest) = data.split_at(8.min(data.len()));
    check(d == ar::CreateVestingEscrowV2::DISCRIMINATOR, 99)?;
    let p = ar::CreateVestingEscrowV2::deserialize(&mut rest).map_err(|_| bad())?.params;
    // base, escrow, token_mint, escrow_token, sender, sender_token, recipient, token_program, system
    check(a[0].is_signer && a[4].is_signer, 90)?;
    check(p.cliff_time >= p.vesting_start_time, 91)?;
    check(p.frequency != 0, 92)?;
    check(p.update_recipient_mode <= 3 && p.cancel_mode <= 3, 93)?;
    let (ek, bump) = escrow_key(a[0].key);
    check(ek == *a[1].key, 94)?;
    let total = p
        .amount_per_period
        .checked_mul(p.number_of_period)
        .and_then(|x| x.checked_add(p.cliff_unlock_amount))
        .ok_or(custom(95))?;
    check(total > 0, 98)?;
    create(&a[4], &a[1], 8 + std::mem::size_of::<locker::accounts::VestingEscrow>(), id, &[b"escrow", a[0].key.as_ref(), &[bump]], a)?;
    a[1].data.borrow_mut()[..8].copy_from_slice(locker::accounts::VestingEscrow::DISCRIMINATOR);
    let mut e: locker::accounts::VestingEscrow = zc(&a[1]);
    e.recipient = *a[6].key;
    e.token_mint = *a[2].key;
    e.creator = *a[4].key;
    e.base = *a[0].key;
    e.update_recipient_mode = p.update_recipient_mode;
    e.cancel_mode = p.cancel_mode;
    e.cliff_time = p.cliff_time;
    e.frequency = p.frequency;
    e.cliff_unlock_amount = p.cliff_unlock_amount;
    e.amount_per_period = p.amount_per_period;
    e.number_of_period = p.number_of_period;
    e.vesting_start_time = p.vesting_start_time;
    set_zc(&a[1], &e);
    check(owner_of(&a[3]) == ek, 96)?;
    check(*a[8].key == system_program::ID, 97)?;
    move_tokens(&a[7], &a[5], &a[2], &a[3], &a[4], total, &[])
}
