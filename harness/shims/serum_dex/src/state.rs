use bytemuck::{Pod, Zeroable};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;

pub const ACCOUNT_HEAD_PADDING: &[u8; 5] = b"serum";
pub const ACCOUNT_TAIL_PADDING: &[u8; 7] = b"padding";

pub trait ToAlignedBytes {
    fn to_aligned_bytes(&self) -> [u64; 4];
}
impl ToAlignedBytes for Pubkey {
    #[inline]
    fn to_aligned_bytes(&self) -> [u64; 4] {
        bytemuck::cast(self.to_bytes())
    }
}

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
#[repr(u64)]
pub enum AccountFlag {
    Initialized = 1u64 << 0,
    Market = 1u64 << 1,
    OpenOrders = 1u64 << 2,
    RequestQueue = 1u64 << 3,
    EventQueue = 1u64 << 4,
    Bids = 1u64 << 5,
    Asks = 1u64 << 6,
    Disabled = 1u64 << 7,
    Closed = 1u64 << 8,
    Permissioned = 1u64 << 9,
    CrankAuthorityRequired = 1u64 << 10,
}

#[derive(Copy, Clone, Pod, Zeroable)]
#[repr(C, packed)]
pub struct MarketState {
    pub account_flags: u64,
    pub own_address: [u64; 4],
    pub vault_signer_nonce: u64,
    pub coin_mint: [u64; 4],
    pub pc_mint: [u64; 4],
    pub coin_vault: [u64; 4],
    pub coin_deposits_total: u64,
    pub coin_fees_accrued: u64,
    pub pc_vault: [u64; 4],
    pub pc_deposits_total: u64,
    pub pc_fees_accrued: u64,
    pub pc_dust_threshold: u64,
    pub req_q: [u64; 4],
    pub event_q: [u64; 4],
    pub bids: [u64; 4],
    pub asks: [u64; 4],
    pub coin_lot_size: u64,
    pub pc_lot_size: u64,
    pub fee_rate_bps: u64,
    pub referrer_rebates_accrued: u64,
}
const _: () = assert!(std::mem::size_of::<MarketState>() == 376);

impl MarketState {
    pub fn check_flags(&self, _allow_disabled: bool) -> Result<(), crate::error::DexError> {
        let f = self.account_flags;
        if f != (AccountFlag::Initialized as u64 | AccountFlag::Market as u64) {
            return Err(crate::error::DexError);
        }
        Ok(())
    }
}

#[derive(Copy, Clone, Pod, Zeroable)]
#[repr(C, packed)]
pub struct OpenOrders {
    pub account_flags: u64,
    pub market: [u64; 4],
    pub owner: [u64; 4],
    pub native_coin_free: u64,
    pub native_coin_total: u64,
    pub native_pc_free: u64,
    pub native_pc_total: u64,
    pub free_slot_bits: u128,
    pub is_bid_bits: u128,
    pub orders: [u128; 128],
    pub client_order_ids: [u64; 128],
    pub referrer_rebates_accrued: u64,
}
const _: () = assert!(std::mem::size_of::<OpenOrders>() == 3216);

pub fn gen_vault_signer_key(
    nonce: u64,
    market: &Pubkey,
    program_id: &Pubkey,
) -> Result<Pubkey, ProgramError> {
    Pubkey::create_program_address(&[market.as_ref(), &nonce.to_le_bytes()], program_id)
        .map_err(|_| ProgramError::InvalidArgument)
}
