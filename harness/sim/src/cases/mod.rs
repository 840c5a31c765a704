pub use anchor_lang::prelude::Pubkey;
pub use fixed::types::I80F48;
pub use itertools::Itertools;
pub use solana_sdk::transport::TransportError;

pub use crate::pt::mango_setup::*;
pub use mango_v4::{error::MangoError, state::*};
pub use crate::pt::*;

pub use crate::pt as program_test;

pub use crate::assert_eq_f64;
pub use crate::assert_eq_fixed_f64;

pub mod test_alt;
pub mod test_bankrupt_tokens;
pub mod test_basic;
pub mod test_borrow_limits;
pub mod test_collateral_fees;
pub mod test_delegate;
pub mod test_fees_buyback_with_mngo;
pub mod test_force_close;
pub mod test_health_check;
pub mod test_health_compute;
pub mod test_health_region;
pub mod test_ix_gate_set;
pub mod test_liq_perps_bankruptcy;
pub mod test_liq_perps_base_and_bankruptcy;
pub mod test_liq_perps_force_cancel;
pub mod test_liq_perps_positive_pnl;
pub mod test_liq_tokens;
pub mod test_margin_trade;
pub mod test_perp;
pub mod test_perp_settle;
pub mod test_perp_settle_fees;
pub mod test_position_lifetime;
pub mod test_reduce_only;
pub mod test_serum;
pub mod test_stale_oracles;
pub mod test_token_conditional_swap;
pub mod test_token_update_index_and_rate;
pub mod registry;
