//! Offline stand-in for `openbook-v2`: just the items mango-v4's account structs mention.
use anchor_lang::prelude::*;
declare_id!("opnb2LAfJYbRMAHHvqjCwQxanZn7ReEHp1k81EohpZb");

pub mod program {
    #[derive(Clone)]
    pub struct OpenbookV2;
    impl anchor_lang::Id for OpenbookV2 {
        fn id() -> anchor_lang::prelude::Pubkey {
            crate::ID
        }
    }
}
pub mod state {
    use super::*;
    #[account(zero_copy)]
    pub struct Market {
        pub bump: u8,
        pub base_decimals: u8,
        pub quote_decimals: u8,
        pub padding1: [u8; 5],
        pub bids: Pubkey,
        pub asks: Pubkey,
        pub event_heap: Pubkey,
        pub base_mint: Pubkey,
        pub quote_mint: Pubkey,
    }
}
