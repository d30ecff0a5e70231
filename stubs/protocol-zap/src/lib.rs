//! Stand-in for `protocol-zap` (the real crate lives in a git repository that cannot be fetched here).
//! `validate_zap_out_to_treasury` records its arguments and gives the answer the harness selected.

pub mod error {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum ProtozolZapError {
        MathOverflow,
        InvalidZapOutParameters,
        TypeCastFailed,
        MissingZapOutInstruction,
        InvalidWithdrawProtocolFeeZapAccounts,
        MintRestrictedFromZap,
        CpiDisabled,
        InvalidZapAccounts,
    }
}

pub mod constants {
    /// So11111111111111111111111111111111111111112
    pub const SOL: [u8; 32] = [
        6, 155, 136, 87, 254, 171, 129, 132, 251, 104, 127, 99, 70, 24, 192, 53, 218, 196, 57, 220,
        26, 235, 59, 85, 152, 160, 240, 0, 0, 0, 0, 1,
    ];
    /// EPjFWdd5AufqSSqeM2qN1xzybapC8G4wEGGkZwyTDt1v
    pub const USDC: [u8; 32] = [
        198, 250, 122, 243, 190, 219, 173, 58, 61, 101, 243, 106, 171, 201, 116, 49, 177, 187, 228,
        194, 210, 246, 224, 228, 124, 166, 2, 3, 69, 47, 93, 97,
    ];
    pub const MINTS_DISALLOWED_TO_ZAP_OUT: [[u8; 32]; 2] = [SOL, USDC];
}

pub mod record {
    use super::error::ProtozolZapError;
    use std::cell::RefCell;

    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Call {
        pub amount: u64,
        pub program: [u8; 32],
        pub receiver: [u8; 32],
        pub treasury: [u8; 32],
        pub treasury_paired_destination: [u8; 32],
        pub receiver_data: Vec<u8>,
    }

    thread_local! {
        pub static CALLS: RefCell<Vec<Call>> = const { RefCell::new(Vec::new()) };
        pub static ANSWER: RefCell<Option<ProtozolZapError>> = const { RefCell::new(None) };
    }
}

pub mod utils {
    use super::{error::ProtozolZapError, record};

    #[allow(clippy::too_many_arguments)]
    pub fn validate_zap_out_to_treasury(
        amount: u64,
        program: &[u8; 32],
        receiver: &[u8; 32],
        receiver_data: &[u8],
        _sysvar_instructions_data: &[u8],
        treasury: &[u8; 32],
        treasury_paired_destination: &[u8; 32],
    ) -> Result<(), ProtozolZapError> {
        record::CALLS.with(|c| {
            c.borrow_mut().push(record::Call {
                amount,
                program: *program,
                receiver: *receiver,
                treasury: *treasury,
                treasury_paired_destination: *treasury_paired_destination,
                receiver_data: receiver_data.to_vec(),
            })
        });
        match record::ANSWER.with(|a| *a.borrow()) {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
}
