//! Offline stand-in for `serum_dex`: account layouts, instruction encoding and a small but
//! functional central limit order book so mango's serum3 instructions have a counterparty to CPI
//! into. Settlement semantics (immediate taker settlement, maker settlement via the event queue,
//! free_slot_bits released by events) follow the real program.
pub mod critbit;
pub mod dex;
pub mod instruction;
pub mod matching {
    use num_enum::{IntoPrimitive, TryFromPrimitive};
    #[derive(Eq, PartialEq, Copy, Clone, TryFromPrimitive, IntoPrimitive, Debug)]
    #[repr(u8)]
    pub enum Side {
        Bid = 0,
        Ask = 1,
    }
    #[derive(Eq, PartialEq, Copy, Clone, TryFromPrimitive, IntoPrimitive, Debug)]
    #[repr(u8)]
    pub enum OrderType {
        Limit = 0,
        ImmediateOrCancel = 1,
        PostOnly = 2,
    }
}
pub mod state;
pub mod error {
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub struct DexError;
    impl std::fmt::Display for DexError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("DexError")
        }
    }
}
