//! World construction: actors, mints, token accounts, external fixtures, and one builder per instruction.
use crate::mocks;
use crate::svm::{Acc, Bank, TxOut};
use anchor_lang::prelude::*;
use anchor_lang::solana_program::{instruction::Instruction, program_pack::Pack, system_program, sysvar};
use anchor_lang::{AccountSerialize, Discriminator, InstructionData, ToAccountMetas};
use anchor_spl::associated_token::get_associated_token_address_with_program_id as ata_of;
use ::dynamic_bonding_curve as dbc;
use anchor_spl::token::spl_token;
use dbc::params::fee_parameters::{BaseFeeParameters, DynamicFeeParameters, PoolFeeParameters};
use dbc::params::liquidity_distribution::LiquidityDistributionParameters;
use dbc::state::{PoolConfig, VirtualPool};
use dbc::*;
use sha2::{Digest, Sha256};
use std::cell::RefCell;
use std::collections::HashMap;

pub const SPL: Pubkey = anchor_spl::token::ID;
pub const T22: Pubkey = anchor_spl::token_2022::ID;
pub const SOL: u64 = 1_000_000_000;

pub fn key(label: &str) -> Pubkey {
    Pubkey::new_from_array(Sha256::digest(label.as_bytes()).into())
}
pub fn auth() -> Pubkey {
    pda(&[b"pool_authority"])
}
pub const ADMINS: [Pubkey; 2] = [
    pubkey!("5unTfT2kssBuNvHPY6LbJfJpLqEcdMxGYLWHwShaeTLi"),
    pubkey!("DHLXnJdACTY83yKwnUkeoDjqi4QBbsYGa1v8tJL76ViX"),
];
pub const TREASURY: Pubkey = pubkey!("6aYhxiNGmG8AyU25rh2R7iFu4pBrqnQHpNUGhmsEXRcm");
pub fn event_auth() -> Pubkey {
    pda(&[b"__event_authority"])
}
thread_local!(static PDA: RefCell<HashMap<Vec<u8>, Pubkey>> = RefCell::new(HashMap::new()));
pub fn pda(seeds: &[&[u8]]) -> Pubkey {
    let mut k = vec![];
    for s in seeds {
        k.push(s.len() as u8);
        k.extend_from_slice(s);
    }
    if let Some(p) = PDA.with(|c| c.borrow().get(&k).copied()) {
        return p;
    }
    let p = Pubkey::find_program_address(seeds, &dbc::ID).0;
    PDA.with(|c| c.borrow_mut().insert(k, p));
    p
}
pub fn admin() -> Pubkey {
    ADMINS[0]
}
pub fn treasury() -> Pubkey {
    TREASURY
}

// ------------------------------------------------------------------ raw accounts
pub fn fund(b: &mut Bank, k: Pubkey, lamports: u64) {
    b.put(k, Acc { lamports, data: vec![], owner: system_program::ID, executable: false });
}
pub fn put_mint(b: &mut Bank, k: Pubkey, decimals: u8, supply: u64, authority: Option<Pubkey>, freeze: Option<Pubkey>, prog: Pubkey) {
    let mut d = vec![0u8; 82];
    spl_token::state::Mint {
        mint_authority: authority.into(),
        supply,
        decimals,
        is_initialized: true,
        freeze_authority: freeze.into(),
    }
    .pack_into_slice(&mut d);
    b.put(k, Acc { lamports: Rent::default().minimum_balance(82), data: d, owner: prog, executable: false });
}
pub fn is_native(mint: &Pubkey) -> bool {
    *mint == spl_token::native_mint::ID || *mint == anchor_spl::token_2022::spl_token_2022::native_mint::ID
}
pub fn put_token(b: &mut Bank, k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64, prog: Pubkey) {
    let mut d = vec![0u8; 165];
    let rent = Rent::default().minimum_balance(165);
    // wrapped lamports are backed by the account's own lamports
    let native = is_native(&mint);
    spl_token::state::Account {
        mint,
        owner,
        amount,
        state: spl_token::state::AccountState::Initialized,
        is_native: if native { Some(rent).into() } else { None.into() },
        ..Default::default()
    }
    .pack_into_slice(&mut d);
    b.put(k, Acc { lamports: rent + if native { amount } else { 0 }, data: d, owner: prog, executable: false });
}
pub fn put_ata(b: &mut Bank, owner: Pubkey, mint: Pubkey, amount: u64, prog: Pubkey) -> Pubkey {
    let k = ata(&owner, &mint, &prog);
    put_token(b, k, mint, owner, amount, prog);
    k
}
pub fn ata(owner: &Pubkey, mint: &Pubkey, prog: &Pubkey) -> Pubkey {
    let mut k = owner.to_bytes().to_vec();
    k.extend_from_slice(mint.as_ref());
    k.extend_from_slice(prog.as_ref());
    if let Some(p) = PDA.with(|c| c.borrow().get(&k).copied()) {
        return p;
    }
    let p = ata_of(owner, mint, prog);
    PDA.with(|c| c.borrow_mut().insert(k, p));
    p
}
/// Set a token account's balance (creating tokens out of thin air; fixture only).
pub fn set_tokens(b: &mut Bank, k: &Pubkey, amount: u64) {
    let mut a = b.get(k).unwrap().clone();
    if is_native(&Pubkey::new_from_array(a.data[..32].try_into().unwrap())) {
        a.lamports = a.lamports - u64::from_le_bytes(a.data[64..72].try_into().unwrap()) + amount;
    }
    a.data[64..72].copy_from_slice(&amount.to_le_bytes());
    b.put(*k, a);
}

// ------------------------------------------------------------------ parameters
pub const P1: u128 = 1 << 64; // price 1.0

/// A plain configuration: price 0.25 -> 1.0, SPL tokens, DAMM v2, fee 1 %, everything optional off.
pub fn params() -> ConfigParameters {
    ConfigParameters {
        pool_fees: PoolFeeParameters {
            base_fee: BaseFeeParameters {
                cliff_fee_numerator: 10_000_000,
                first_factor: 0,
                second_factor: 0,
                third_factor: 0,
                base_fee_mode: 0,
            },
            dynamic_fee: None,
        },
        collect_fee_mode: 0,
        migration_option: 1,
        activation_type: 1,
        token_type: 0,
        token_decimal: 6,
        partner_liquidity_percentage: 20,
        partner_permanent_locked_liquidity_percentage: 30,
        creator_liquidity_percentage: 10,
        creator_permanent_locked_liquidity_percentage: 40,
        migration_quote_threshold: 1_000_003,
        sqrt_start_price: P1 / 2,
        locked_vesting: LockedVestingParams::default(),
        migration_fee_option: 2,
        token_supply: None,
        creator_trading_fee_percentage: 40,
        token_update_authority: 1,
        migration_fee: MigrationFee::default(),
        migrated_pool_fee: MigratedPoolFee::default(),
        pool_creation_fee: 0,
        partner_liquidity_vesting_info: LiquidityVestingInfoParams::default(),
        creator_liquidity_vesting_info: LiquidityVestingInfoParams::default(),
        migrated_pool_base_fee_mode: 0,
        migrated_pool_market_cap_fee_scheduler_params: MigratedPoolMarketCapFeeSchedulerParams::default(),
        enable_first_swap_with_min_fee: false,
        compounding_fee_bps: 0,
        padding: [0; 2],
        curve: vec![
            LiquidityDistributionParameters { sqrt_price: P1 * 3 / 4, liquidity: 2_000_000 << 64 },
            LiquidityDistributionParameters { sqrt_price: P1 * 2, liquidity: 3_000_000 << 64 },
        ],
    }
}
pub fn dyn_fee() -> DynamicFeeParameters {
    DynamicFeeParameters {
        bin_step: 1,
        bin_step_u128: 1844674407370955,
        filter_period: 10,
        decay_period: 120,
        reduction_factor: 5000,
        max_volatility_accumulator: 14_460_000,
        variable_fee_control: 956,
    }
}
pub fn pt(sqrt_price: u128, liquidity: u128) -> LiquidityDistributionParameters {
    LiquidityDistributionParameters { sqrt_price, liquidity }
}

// ------------------------------------------------------------------ actors
pub const ACTORS: &[&str] = &["creator", "partner", "trader", "trader2", "referrer", "leftover", "operator", "stranger", "payer", "newcreator"];

/// Names of the accounts of one virtual pool.
#[derive(Clone, Debug)]
pub struct Pool {
    pub config: Pubkey,
    pub pool: Pubkey,
    pub base_mint: Pubkey,
    pub quote_mint: Pubkey,
    pub base_vault: Pubkey,
    pub quote_vault: Pubkey,
    pub base_prog: Pubkey,
    pub quote_prog: Pubkey,
    pub creator: Pubkey,
    pub partner: Pubkey,
    pub leftover: Pubkey,
}

pub fn base_bank() -> Bank {
    let mut b = Bank::new();
    let progs = [dbc::ID, SPL, T22, system_program::ID, anchor_spl::associated_token::ID, mpl_token_metadata::ID, dynamic_amm::ID, damm_v2::ID, locker::ID, mocks::puppet_id(), mocks::impostor_id()];
    for p in progs.into_iter().chain(mocks::thieves()) {
        b.put(p, Acc { lamports: 1, data: vec![], owner: anchor_lang::solana_program::bpf_loader::ID, executable: true });
    }
    for a in ACTORS {
        fund(&mut b, key(a), 10_000 * SOL);
    }
    for a in ADMINS {
        fund(&mut b, a, 10_000 * SOL);
    }
    fund(&mut b, treasury(), SOL);
    // pool authority holds one SOL used as a flash loan for account rent during migration
    fund(&mut b, auth(), 2 * SOL);
    b
}

impl Pool {
    pub fn named(tag: &str, quote_mint: Pubkey, quote_prog: Pubkey, t22: bool) -> Pool {
        Pool::with(key(&format!("config{tag}")), key(&format!("mint{tag}")), quote_mint, quote_prog, t22)
    }
    pub fn with(config: Pubkey, base_mint: Pubkey, quote_mint: Pubkey, quote_prog: Pubkey, t22: bool) -> Pool {
        let pool = pool_key(&config, &base_mint, &quote_mint);
        Pool {
            config,
            pool,
            base_mint,
            quote_mint,
            base_vault: vault_key(&base_mint, &pool),
            quote_vault: vault_key(&quote_mint, &pool),
            base_prog: if t22 { T22 } else { SPL },
            quote_prog,
            creator: key("creator"),
            partner: key("partner"),
            leftover: key("leftover"),
        }
    }
    pub fn base_ata(&self, owner: &Pubkey) -> Pubkey {
        ata(owner, &self.base_mint, &self.base_prog)
    }
    pub fn quote_ata(&self, owner: &Pubkey) -> Pubkey {
        ata(owner, &self.quote_mint, &self.quote_prog)
    }
    pub fn state(&self, b: &Bank) -> VirtualPool {
        b.zc(&self.pool)
    }
    pub fn cfg(&self, b: &Bank) -> PoolConfig {
        b.zc(&self.config)
    }
}
pub fn pool_key(config: &Pubkey, base: &Pubkey, quote: &Pubkey) -> Pubkey {
    pda(&[b"pool", config.as_ref(), base.max(quote).as_ref(), base.min(quote).as_ref()])
}
pub fn vault_key(mint: &Pubkey, pool: &Pubkey) -> Pubkey {
    pda(&[b"token_vault", mint.as_ref(), pool.as_ref()])
}
pub fn operator_key(who: &Pubkey) -> Pubkey {
    pda(&[b"operator", who.as_ref()])
}

pub fn ix(accs: impl ToAccountMetas, data: impl InstructionData) -> Instruction {
    Instruction { program_id: dbc::ID, accounts: accs.to_account_metas(None), data: data.data() }
}

// ------------------------------------------------------------------ instruction builders
impl Pool {
    pub fn ix_create_config(&self, p: &ConfigParameters) -> Instruction {
        ix(
            dbc::accounts::CreateConfigCtx {
                config: self.config,
                fee_claimer: self.partner,
                leftover_receiver: self.leftover,
                quote_mint: self.quote_mint,
                payer: key("payer"),
                system_program: system_program::ID,
                event_authority: event_auth(),
                program: dbc::ID,
            },
            dbc::instruction::CreateConfig { config_parameters: p.clone() },
        )
    }
    pub fn ix_init_pool(&self) -> Instruction {
        let params = InitializePoolParameters { name: "Name".into(), symbol: "SYM".into(), uri: "https://u.ri/x".into() };
        if self.base_prog == T22 {
            ix(
                dbc::accounts::InitializeVirtualPoolWithToken2022Ctx {
                    config: self.config,
                    pool_authority: auth(),
                    creator: self.creator,
                    base_mint: self.base_mint,
                    quote_mint: self.quote_mint,
                    pool: self.pool,
                    base_vault: self.base_vault,
                    quote_vault: self.quote_vault,
                    payer: key("payer"),
                    token_quote_program: self.quote_prog,
                    token_program: T22,
                    system_program: system_program::ID,
                    event_authority: event_auth(),
                    program: dbc::ID,
                },
                dbc::instruction::InitializeVirtualPoolWithToken2022 { params },
            )
        } else {
            ix(
                dbc::accounts::InitializeVirtualPoolWithSplTokenCtx {
                    config: self.config,
                    pool_authority: auth(),
                    creator: self.creator,
                    base_mint: self.base_mint,
                    quote_mint: self.quote_mint,
                    pool: self.pool,
                    base_vault: self.base_vault,
                    quote_vault: self.quote_vault,
                    mint_metadata: mocks::mpl_metadata_key(&self.base_mint),
                    metadata_program: mpl_token_metadata::ID,
                    payer: key("payer"),
                    token_quote_program: self.quote_prog,
                    token_program: SPL,
                    system_program: system_program::ID,
                    event_authority: event_auth(),
                    program: dbc::ID,
                },
                dbc::instruction::InitializeVirtualPoolWithSplToken { params },
            )
        }
    }
    pub fn swap_accounts(&self, who: &Pubkey, buy: bool, referral: Option<Pubkey>) -> Vec<AccountMeta> {
        let (i, o) = (self.quote_ata(who), self.base_ata(who));
        let (i, o) = if buy { (i, o) } else { (o, i) };
        let mut m = dbc::accounts::SwapCtx {
            pool_authority: auth(),
            config: self.config,
            pool: self.pool,
            input_token_account: i,
            output_token_account: o,
            base_vault: self.base_vault,
            quote_vault: self.quote_vault,
            base_mint: self.base_mint,
            quote_mint: self.quote_mint,
            payer: *who,
            token_base_program: self.base_prog,
            token_quote_program: self.quote_prog,
            referral_token_account: referral,
            event_authority: event_auth(),
            program: dbc::ID,
        }
        .to_account_metas(None);
        m.push(AccountMeta::new_readonly(sysvar::instructions::ID, false));
        m
    }
    /// swap2; the instructions sysvar is always supplied as remaining account 0
    pub fn ix_swap(&self, who: &Pubkey, buy: bool, mode: u8, a0: u64, a1: u64, referral: Option<Pubkey>) -> Instruction {
        Instruction {
            program_id: dbc::ID,
            accounts: self.swap_accounts(who, buy, referral),
            data: dbc::instruction::Swap2 { params: SwapParameters2 { amount_0: a0, amount_1: a1, swap_mode: mode } }.data(),
        }
    }
    pub fn ix_swap_v1(&self, who: &Pubkey, buy: bool, amount_in: u64, min_out: u64, referral: Option<Pubkey>) -> Instruction {
        Instruction {
            program_id: dbc::ID,
            accounts: self.swap_accounts(who, buy, referral),
            data: dbc::instruction::Swap { params: SwapParameters { amount_in, minimum_amount_out: min_out } }.data(),
        }
    }
    /// fee token account used as referral for a swap in the given direction
    pub fn referral(&self, who: &Pubkey, base: bool) -> Pubkey {
        if base {
            self.base_ata(who)
        } else {
            self.quote_ata(who)
        }
    }
    pub fn ix_claim_partner(&self, who: &Pubkey, max_a: u64, max_b: u64) -> Instruction {
        ix(
            dbc::accounts::ClaimTradingFeesCtx {
                pool_authority: auth(),
                config: self.config,
                pool: self.pool,
                token_a_account: self.base_ata(who),
                token_b_account: self.quote_ata(who),
                base_vault: self.base_vault,
                quote_vault: self.quote_vault,
                base_mint: self.base_mint,
                quote_mint: self.quote_mint,
                fee_claimer: *who,
                token_base_program: self.base_prog,
                token_quote_program: self.quote_prog,
                event_authority: event_auth(),
                program: dbc::ID,
            },
            dbc::instruction::ClaimTradingFee { max_amount_a: max_a, max_amount_b: max_b },
        )
    }
    pub fn ix_claim_creator(&self, who: &Pubkey, max_a: u64, max_b: u64) -> Instruction {
        ix(
            dbc::accounts::ClaimCreatorTradingFeesCtx {
                pool_authority: auth(),
                pool: self.pool,
                token_a_account: self.base_ata(who),
                token_b_account: self.quote_ata(who),
                base_vault: self.base_vault,
                quote_vault: self.quote_vault,
                base_mint: self.base_mint,
                quote_mint: self.quote_mint,
                creator: *who,
                token_base_program: self.base_prog,
                token_quote_program: self.quote_prog,
                event_authority: event_auth(),
                program: dbc::ID,
            },
            dbc::instruction::ClaimCreatorTradingFee { max_base_amount: max_a, max_quote_amount: max_b },
        )
    }
    pub fn ix_claim_protocol(&self, operator: &Pubkey, signer: &Pubkey, max_a: u64, max_b: u64) -> Instruction {
        ix(
            dbc::accounts::ClaimProtocolFeesCtx {
                pool_authority: auth(),
                config: self.config,
                pool: self.pool,
                base_vault: self.base_vault,
                quote_vault: self.quote_vault,
                base_mint: self.base_mint,
                quote_mint: self.quote_mint,
                token_base_account: self.base_ata(&treasury()),
                token_quote_account: self.quote_ata(&treasury()),
                operator: *operator,
                signer: *signer,
                token_base_program: self.base_prog,
                token_quote_program: self.quote_prog,
                event_authority: event_auth(),
                program: dbc::ID,
            },
            dbc::instruction::ClaimProtocolFee { max_base_amount: max_a, max_quote_amount: max_b },
        )
    }
    pub fn ix_claim_protocol_creation_fee(&self, operator: &Pubkey, signer: &Pubkey) -> Instruction {
        ix(
            dbc::accounts::ClaimProtocolPoolCreationFeeCtx {
                config: self.config,
                pool: self.pool,
                operator: *operator,
                signer: *signer,
                treasury: treasury(),
                event_authority: event_auth(),
                program: dbc::ID,
            },
            dbc::instruction::ClaimProtocolPoolCreationFee {},
        )
    }
    pub fn ix_claim_partner_creation_fee(&self, who: &Pubkey, receiver: &Pubkey) -> Instruction {
        ix(
            dbc::accounts::ClaimPartnerPoolCreationFeeCtx {
                config: self.config,
                pool: self.pool,
                fee_claimer: *who,
                fee_receiver: *receiver,
                event_authority: event_auth(),
                program: dbc::ID,
            },
            dbc::instruction::ClaimPartnerPoolCreationFee {},
        )
    }
    pub fn ix_zap(&self, operator: &Pubkey, signer: &Pubkey, base: bool, max: u64) -> Instruction {
        let (vault, mint, prog) =
            if base { (self.base_vault, self.base_mint, self.base_prog) } else { (self.quote_vault, self.quote_mint, self.quote_prog) };
        ix(
            dbc::accounts::ZapProtocolFee {
                pool_authority: auth(),
                config: self.config,
                pool: self.pool,
                token_vault: vault,
                token_mint: mint,
                receiver_token: ata(signer, &mint, &prog),
                operator: *operator,
                signer: *signer,
                token_program: prog,
                sysvar_instructions: sysvar::instructions::ID,
            },
            dbc::instruction::ZapProtocolFee { max_amount: max },
        )
    }
    pub fn ix_partner_surplus(&self, who: &Pubkey) -> Instruction {
        ix(
            dbc::accounts::PartnerWithdrawSurplusCtx {
                pool_authority: auth(),
                config: self.config,
                virtual_pool: self.pool,
                token_quote_account: self.quote_ata(who),
                quote_vault: self.quote_vault,
                quote_mint: self.quote_mint,
                fee_claimer: *who,
                token_quote_program: self.quote_prog,
                event_authority: event_auth(),
                program: dbc::ID,
            },
            dbc::instruction::PartnerWithdrawSurplus {},
        )
    }
    pub fn ix_creator_surplus(&self, who: &Pubkey) -> Instruction {
        ix(
            dbc::accounts::CreatorWithdrawSurplusCtx {
                pool_authority: auth(),
                config: self.config,
                virtual_pool: self.pool,
                token_quote_account: self.quote_ata(who),
                quote_vault: self.quote_vault,
                quote_mint: self.quote_mint,
                creator: *who,
                token_quote_program: self.quote_prog,
                event_authority: event_auth(),
                program: dbc::ID,
            },
            dbc::instruction::CreatorWithdrawSurplus {},
        )
    }
    pub fn ix_migration_fee(&self, who: &Pubkey, flag: u8) -> Instruction {
        ix(
            dbc::accounts::WithdrawMigrationFeeCtx {
                pool_authority: auth(),
                config: self.config,
                virtual_pool: self.pool,
                token_quote_account: self.quote_ata(who),
                quote_vault: self.quote_vault,
                quote_mint: self.quote_mint,
                sender: *who,
                token_quote_program: self.quote_prog,
                event_authority: event_auth(),
                program: dbc::ID,
            },
            dbc::instruction::WithdrawMigrationFee { flag },
        )
    }
    pub fn ix_leftover(&self) -> Instruction {
        ix(
            dbc::accounts::WithdrawLeftoverCtx {
                pool_authority: auth(),
                config: self.config,
                virtual_pool: self.pool,
                token_base_account: self.base_ata(&self.leftover),
                base_vault: self.base_vault,
                base_mint: self.base_mint,
                leftover_receiver: self.leftover,
                token_base_program: self.base_prog,
                event_authority: event_auth(),
                program: dbc::ID,
            },
            dbc::instruction::WithdrawLeftover {},
        )
    }
    pub fn ix_transfer_creator(&self, who: &Pubkey, new: &Pubkey, metadata: Option<Pubkey>) -> Instruction {
        let mut i = ix(
            dbc::accounts::TransferPoolCreatorCtx {
                virtual_pool: self.pool,
                config: self.config,
                creator: *who,
                new_creator: *new,
                event_authority: event_auth(),
                program: dbc::ID,
            },
            dbc::instruction::TransferPoolCreator {},
        );
        if let Some(m) = metadata {
            i.accounts.push(AccountMeta::new_readonly(m, false));
        }
        i
    }
    pub fn ix_pool_metadata(&self, who: &Pubkey) -> Instruction {
        ix(
            dbc::accounts::CreateVirtualPoolMetadataCtx {
                virtual_pool: self.pool,
                virtual_pool_metadata: pda(&[b"virtual_pool_metadata", self.pool.as_ref()]),
                creator: *who,
                payer: key("payer"),
                system_program: system_program::ID,
                event_authority: event_auth(),
                program: dbc::ID,
            },
            dbc::instruction::CreateVirtualPoolMetadata {
                metadata: CreateVirtualPoolMetadataParameters {
                    padding: [0; 96],
                    name: "pool".into(),
                    website: "w".into(),
                    logo: "l".into(),
                },
            },
        )
    }
    pub fn locker_base(&self) -> Pubkey {
        pda(&[b"base_locker", self.pool.as_ref()])
    }
    pub fn escrow(&self) -> Pubkey {
        mocks::escrow_key(&self.locker_base()).0
    }
    pub fn escrow_token(&self) -> Pubkey {
        ata(&self.escrow(), &self.base_mint, &self.base_prog)
    }
    pub fn ix_locker(&self, creator: &Pubkey) -> Instruction {
        ix(
            dbc::accounts::CreateLockerCtx {
                virtual_pool: self.pool,
                config: self.config,
                pool_authority: auth(),
                base_vault: self.base_vault,
                base_mint: self.base_mint,
                base: self.locker_base(),
                creator: *creator,
                escrow: self.escrow(),
                escrow_token: self.escrow_token(),
                payer: key("payer"),
                token_program: self.base_prog,
                locker_program: locker::ID,
                locker_event_authority: mocks::fpa(&[b"__event_authority"], &locker::ID).0,
                system_program: system_program::ID,
            },
            dbc::instruction::CreateLocker {},
        )
    }
    // ---- DAMM v2
    pub fn v2_names(&self, v2cfg: &Pubkey) -> V2Names {
        let pool = mocks::v2_pool_key(v2cfg, &self.base_mint, &self.quote_mint).0;
        let (n1, n2) = (key(&format!("nft1{}", self.pool)), key(&format!("nft2{}", self.pool)));
        V2Names {
            config: *v2cfg,
            pool,
            vault_a: mocks::v2_vault_key(&self.base_mint, &pool).0,
            vault_b: mocks::v2_vault_key(&self.quote_mint, &pool).0,
            nft: [n1, n2],
            nft_acc: [mocks::v2_nft_account_key(&n1).0, mocks::v2_nft_account_key(&n2).0],
            position: [mocks::v2_position_key(&n1).0, mocks::v2_position_key(&n2).0],
        }
    }
    pub fn ix_migrate_v2(&self, n: &V2Names, second: bool) -> Instruction {
        let mut i = ix(
            dbc::accounts::MigrateDammV2Ctx {
                virtual_pool: self.pool,
                migration_metadata: key("unused"),
                config: self.config,
                pool_authority: auth(),
                pool: n.pool,
                first_position_nft_mint: n.nft[0],
                first_position_nft_account: n.nft_acc[0],
                first_position: n.position[0],
                second_position_nft_mint: second.then_some(n.nft[1]),
                second_position_nft_account: second.then_some(n.nft_acc[1]),
                second_position: second.then_some(n.position[1]),
                damm_pool_authority: mocks::v2_authority().0,
                amm_program: damm_v2::ID,
                base_mint: self.base_mint,
                quote_mint: self.quote_mint,
                token_a_vault: n.vault_a,
                token_b_vault: n.vault_b,
                base_vault: self.base_vault,
                quote_vault: self.quote_vault,
                payer: key("payer"),
                token_base_program: self.base_prog,
                token_quote_program: self.quote_prog,
                token_2022_program: T22,
                damm_event_authority: mocks::v2_event_authority(),
                system_program: system_program::ID,
            },
            dbc::instruction::MigrationDammV2 {},
        );
        i.accounts.push(AccountMeta::new_readonly(n.config, false));
        i
    }
    // ---- DAMM v1
    pub fn v1_meta(&self) -> Pubkey {
        pda(&[b"meteora", self.pool.as_ref()])
    }
    pub fn ix_v1_metadata(&self) -> Instruction {
        ix(
            dbc::accounts::MigrationMeteoraDammCreateMetadataCtx {
                virtual_pool: self.pool,
                config: self.config,
                migration_metadata: self.v1_meta(),
                payer: key("payer"),
                system_program: system_program::ID,
                event_authority: event_auth(),
                program: dbc::ID,
            },
            dbc::instruction::MigrationMeteoraDammCreateMetadata {},
        )
    }
    pub fn v1_names(&self, cfg: &Pubkey) -> V1Names {
        let pool = mocks::v1_pool_key(cfg, &self.base_mint, &self.quote_mint).0;
        let lp_mint = mocks::v1_key(b"lp_mint", &pool).0;
        let t = |s: &str| key(&format!("v1{s}{pool}"));
        V1Names {
            config: *cfg,
            pool,
            lp_mint,
            a_token_vault: t("atv"),
            b_token_vault: t("btv"),
            lp: ata(&auth(), &lp_mint, &SPL),
            any: [t("av"), t("bv"), t("avlpm"), t("bvlpm"), t("avlp"), t("bvlp"), t("pfa"), t("pfb"), t("meta"), t("vp")],
        }
    }
    pub fn ix_migrate_v1(&self, n: &V1Names) -> Instruction {
        ix(
            dbc::accounts::MigrateMeteoraDammCtx {
                virtual_pool: self.pool,
                migration_metadata: self.v1_meta(),
                config: self.config,
                pool_authority: auth(),
                pool: n.pool,
                damm_config: n.config,
                lp_mint: n.lp_mint,
                token_a_mint: self.base_mint,
                token_b_mint: self.quote_mint,
                a_vault: n.any[0],
                b_vault: n.any[1],
                a_token_vault: n.a_token_vault,
                b_token_vault: n.b_token_vault,
                a_vault_lp_mint: n.any[2],
                b_vault_lp_mint: n.any[3],
                a_vault_lp: n.any[4],
                b_vault_lp: n.any[5],
                base_vault: self.base_vault,
                quote_vault: self.quote_vault,
                virtual_pool_lp: n.lp,
                protocol_token_a_fee: n.any[6],
                protocol_token_b_fee: n.any[7],
                payer: key("payer"),
                rent: sysvar::rent::ID,
                mint_metadata: n.any[8],
                metadata_program: mpl_token_metadata::ID,
                amm_program: dynamic_amm::ID,
                vault_program: n.any[9],
                token_program: SPL,
                associated_token_program: anchor_spl::associated_token::ID,
                system_program: system_program::ID,
            },
            dbc::instruction::MigrateMeteoraDamm {},
        )
    }
    pub fn v1_lock_escrow(&self, n: &V1Names, owner: &Pubkey) -> (Pubkey, Pubkey) {
        let e = key(&format!("escrow{}{}", n.pool, owner));
        (e, ata(&e, &n.lp_mint, &SPL))
    }
    pub fn ix_v1_lock(&self, n: &V1Names, owner: &Pubkey) -> Instruction {
        let (e, ev) = self.v1_lock_escrow(n, owner);
        ix(
            dbc::accounts::MigrateMeteoraDammLockLpTokenCtx {
                virtual_pool: self.pool,
                migration_metadata: self.v1_meta(),
                pool_authority: auth(),
                pool: n.pool,
                lp_mint: n.lp_mint,
                lock_escrow: e,
                owner: *owner,
                source_tokens: n.lp,
                escrow_vault: ev,
                amm_program: dynamic_amm::ID,
                a_vault: n.any[0],
                b_vault: n.any[1],
                a_vault_lp: n.any[4],
                b_vault_lp: n.any[5],
                a_vault_lp_mint: n.any[2],
                b_vault_lp_mint: n.any[3],
                token_program: SPL,
            },
            dbc::instruction::MigrateMeteoraDammLockLpToken {},
        )
    }
    pub fn ix_v1_claim(&self, n: &V1Names, owner: &Pubkey, sender: &Pubkey) -> Instruction {
        ix(
            dbc::accounts::MigrateMeteoraDammClaimLpTokenCtx {
                virtual_pool: self.pool,
                migration_metadata: self.v1_meta(),
                pool_authority: auth(),
                lp_mint: n.lp_mint,
                source_token: n.lp,
                destination_token: ata(owner, &n.lp_mint, &SPL),
                owner: *owner,
                sender: *sender,
                token_program: SPL,
            },
            dbc::instruction::MigrateMeteoraDammClaimLpToken {},
        )
    }
}

pub fn ix_create_operator(whitelisted: &Pubkey, signer: &Pubkey, permission: u128) -> Instruction {
    ix(
        dbc::accounts::CreateOperatorAccountCtx {
            operator: operator_key(whitelisted),
            whitelisted_address: *whitelisted,
            signer: *signer,
            payer: *signer,
            system_program: system_program::ID,
            event_authority: event_auth(),
            program: dbc::ID,
        },
        dbc::instruction::CreateOperatorAccount { permission },
    )
}
pub fn ix_close_operator(whitelisted: &Pubkey, signer: &Pubkey, receiver: &Pubkey) -> Instruction {
    ix(
        dbc::accounts::CloseOperatorAccountCtx {
            operator: operator_key(whitelisted),
            signer: *signer,
            rent_receiver: *receiver,
        },
        dbc::instruction::CloseOperatorAccount {},
    )
}
pub fn ix_partner_metadata(claimer: &Pubkey, payer: &Pubkey) -> Instruction {
    ix(
        dbc::accounts::CreatePartnerMetadataCtx {
            partner_metadata: pda(&[b"partner_metadata", claimer.as_ref()]),
            payer: *payer,
            fee_claimer: *claimer,
            system_program: system_program::ID,
            event_authority: event_auth(),
            program: dbc::ID,
        },
        dbc::instruction::CreatePartnerMetadata {
            metadata: CreatePartnerMetadataParameters { padding: [0; 96], name: "p".into(), website: "w".into(), logo: "l".into() },
        },
    )
}

#[derive(Clone, Debug)]
pub struct V2Names {
    pub config: Pubkey,
    pub pool: Pubkey,
    pub vault_a: Pubkey,
    pub vault_b: Pubkey,
    pub nft: [Pubkey; 2],
    pub nft_acc: [Pubkey; 2],
    pub position: [Pubkey; 2],
}
#[derive(Clone, Debug)]
pub struct V1Names {
    pub config: Pubkey,
    pub pool: Pubkey,
    pub lp_mint: Pubkey,
    pub a_token_vault: Pubkey,
    pub b_token_vault: Pubkey,
    pub lp: Pubkey,
    pub any: [Pubkey; 10],
}

// ------------------------------------------------------------------ fixtures
pub const FEE_BPS: [u64; 6] = [25, 30, 100, 200, 400, 600];

/// static DAMM v2 config matching migration fee option `opt`, or a dynamic one for option 6
pub fn put_v2_config(b: &mut Bank, k: Pubkey, opt: u8, edit: impl FnOnce(&mut damm_v2::accounts::Config)) {
    let mut c: damm_v2::accounts::Config = bytemuck::Zeroable::zeroed();
    c.pool_creator_authority = auth();
    if opt < 6 {
        c.sqrt_min_price = 4295048016;
        c.sqrt_max_price = 79226673521066979257578248091;
        c.activation_type = 1;
        c.config_type = 0;
        set_v2_cliff(&mut c, FEE_BPS[opt as usize] * 100_000);
    } else {
        c.config_type = 1;
    }
    edit(&mut c);
    let mut d = damm_v2::accounts::Config::DISCRIMINATOR.to_vec();
    d.extend_from_slice(bytemuck::bytes_of(&c));
    b.put(k, Acc { lamports: Rent::default().minimum_balance(d.len()), data: d, owner: damm_v2::ID, executable: false });
}
pub fn set_v2_cliff(c: &mut damm_v2::accounts::Config, numerator: u64) {
    c.pool_fees.base_fee.data[..8].copy_from_slice(&numerator.to_le_bytes());
}
pub fn put_v1_config(b: &mut Bank, k: Pubkey, opt: u8, edit: impl FnOnce(&mut dynamic_amm::accounts::Config)) {
    let bps = FEE_BPS[opt as usize];
    let mut c = dynamic_amm::accounts::Config {
        pool_fees: dynamic_amm::types::PoolFees {
            trade_fee_numerator: bps * 10,
            trade_fee_denominator: 100_000,
            protocol_trade_fee_numerator: 20_000,
            protocol_trade_fee_denominator: 100_000,
        },
        activation_duration: 0,
        vault_config_key: Pubkey::default(),
        pool_creator_authority: auth(),
        activation_type: 0,
        partner_fee_numerator: 0,
        padding: [0; 219],
    };
    edit(&mut c);
    let mut d = vec![];
    c.try_serialize(&mut d).unwrap();
    b.put(k, Acc { lamports: Rent::default().minimum_balance(d.len()), data: d, owner: dynamic_amm::ID, executable: false });
}
pub fn put_v1_fixtures(b: &mut Bank, p: &Pool, n: &V1Names) {
    put_token(b, n.a_token_vault, p.base_mint, n.any[0], 0, SPL);
    put_token(b, n.b_token_vault, p.quote_mint, n.any[1], 0, SPL);
    put_token(b, n.lp, n.lp_mint, auth(), 0, SPL);
}
pub fn put_v1_lock_fixtures(b: &mut Bank, p: &Pool, n: &V1Names, owner: &Pubkey) {
    let (e, ev) = p.v1_lock_escrow(n, owner);
    let mut d = vec![];
    dynamic_amm::accounts::LockEscrow {
        pool: n.pool,
        owner: *owner,
        escrow_vault: ev,
        bump: 0,
        total_locked_amount: 0,
        lp_per_token: 0,
        unclaimed_fee_pending: 0,
        a_fee: 0,
        b_fee: 0,
    }
    .try_serialize(&mut d)
    .unwrap();
    b.put(e, Acc { lamports: Rent::default().minimum_balance(d.len()), data: d, owner: dynamic_amm::ID, executable: false });
    put_token(b, ev, n.lp_mint, e, 0, SPL);
    put_ata(b, *owner, n.lp_mint, 0, SPL);
}
pub fn v1_locked(b: &Bank, e: &Pubkey) -> u64 {
    let a = b.get(e).unwrap();
    dynamic_amm::accounts::LockEscrow::deserialize(&mut &a.data[8..]).unwrap().total_locked_amount
}
pub fn put_operator(b: &mut Bank, who: &Pubkey, permission: u128) -> Pubkey {
    let mut o: dbc::state::operator::Operator = bytemuck::Zeroable::zeroed();
    o.whitelisted_address = *who;
    o.permission = permission;
    let mut d = dbc::state::operator::Operator::DISCRIMINATOR.to_vec();
    d.extend_from_slice(bytemuck::bytes_of(&o));
    let k = operator_key(who);
    b.put(k, Acc { lamports: Rent::default().minimum_balance(d.len()), data: d, owner: dbc::ID, executable: false });
    k
}

/// Which accounts every actor gets for this pool's two tokens.
pub fn put_user_atas(b: &mut Bank, p: &Pool, quote_each: u64) {
    for a in ACTORS {
        put_ata(b, key(a), p.base_mint, 0, p.base_prog);
        if b.get(&p.quote_ata(&key(a))).is_none() {
            put_ata(b, key(a), p.quote_mint, quote_each, p.quote_prog);
        }
    }
    put_ata(b, treasury(), p.base_mint, 0, p.base_prog);
    if b.get(&p.quote_ata(&treasury())).is_none() {
        put_ata(b, treasury(), p.quote_mint, 0, p.quote_prog);
    }
}

#[derive(Clone)]
pub struct World {
    pub bank: Bank,
    pub p: Pool,
    pub params: ConfigParameters,
}
/// standard world: quote mint, config, pool, token accounts. Err carries the failing step.
pub fn world(params: &ConfigParameters) -> std::result::Result<World, (&'static str, TxOut)> {
    world_q(params, SPL)
}
pub fn world_q(params: &ConfigParameters, quote_prog: Pubkey) -> std::result::Result<World, (&'static str, TxOut)> {
    world_m(params, key("quote"), quote_prog)
}
pub fn world_m(params: &ConfigParameters, qm: Pubkey, quote_prog: Pubkey) -> std::result::Result<World, (&'static str, TxOut)> {
    world_p(params, qm, quote_prog, |_| {})
}
pub fn world_p(params: &ConfigParameters, qm: Pubkey, quote_prog: Pubkey, f: impl Fn(&mut Pool)) -> std::result::Result<World, (&'static str, TxOut)> {
    let mut b = base_bank();
    put_mint(&mut b, qm, 6, u64::MAX / 2, Some(key("faucet")), None, quote_prog);
    let mut p = Pool::named("A", qm, quote_prog, params.token_type == 1);
    f(&mut p);
    let o = b.exec1(p.ix_create_config(params));
    if !o.ok() {
        return Err(("create_config", o));
    }
    let o = b.exec1(p.ix_init_pool());
    if !o.ok() {
        return Err(("init_pool", o));
    }
    put_user_atas(&mut b, &p, 1 << 60);
    Ok(World { bank: b, p, params: params.clone() })
}

impl World {
    pub fn s(&self) -> VirtualPool {
        self.p.state(&self.bank)
    }
    pub fn c(&self) -> PoolConfig {
        self.p.cfg(&self.bank)
    }
    pub fn run(&mut self, i: Instruction) -> TxOut {
        self.bank.exec1(i)
    }
    pub fn must(&mut self, i: Instruction) -> TxOut {
        let o = self.bank.exec1(i);
        assert!(o.ok(), "{:?} {:?}", o.err, o.logs);
        o
    }
    pub fn buy(&mut self, amount: u64) -> TxOut {
        let i = self.p.ix_swap(&key("trader"), true, 0, amount, 0, None);
        self.bank.exec1(i)
    }
    pub fn buy_partial(&mut self, amount: u64) -> TxOut {
        let i = self.p.ix_swap(&key("trader"), true, 1, amount, 0, None);
        self.bank.exec1(i)
    }
    pub fn sell(&mut self, amount: u64) -> TxOut {
        let i = self.p.ix_swap(&key("trader"), false, 0, amount, 0, None);
        self.bank.exec1(i)
    }
    /// run the curve to completion with one partial-fill purchase
    pub fn complete(&mut self) -> TxOut {
        self.buy_partial(1 << 50)
    }
    pub fn setup_v2(&mut self) -> V2Names {
        let k = key("v2config");
        put_v2_config(&mut self.bank, k, self.params.migration_fee_option, |_| {});
        self.p.v2_names(&k)
    }
    pub fn setup_v1(&mut self) -> V1Names {
        let k = key("v1config");
        put_v1_config(&mut self.bank, k, self.params.migration_fee_option, |_| {});
        let n = self.p.v1_names(&k);
        put_v1_fixtures(&mut self.bank, &self.p, &n);
        n
    }
    pub fn setup_locker(&mut self) {
        put_token(&mut self.bank, self.p.escrow_token(), self.p.base_mint, self.p.escrow(), 0, self.p.base_prog);
    }
}
