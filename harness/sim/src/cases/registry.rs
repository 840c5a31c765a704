//! Registry of the directed scenarios in this module (generated from the function list).
pub type CaseFn = fn() -> Result<(), String>;
pub fn all() -> Vec<(&'static str, CaseFn)> {
    vec![
        ("alt::alt", || super::test_alt::test_alt().map_err(|e| format!("{e:?}"))),
        ("bankrupt_tokens::bankrupt_tokens_socialize_loss", || super::test_bankrupt_tokens::test_bankrupt_tokens_socialize_loss().map_err(|e| format!("{e:?}"))),
        ("bankrupt_tokens::bankrupt_tokens_insurance_fund", || super::test_bankrupt_tokens::test_bankrupt_tokens_insurance_fund().map_err(|e| format!("{e:?}"))),
        ("bankrupt_tokens::bankrupt_tokens_other_insurance_fund", || super::test_bankrupt_tokens::test_bankrupt_tokens_other_insurance_fund().map_err(|e| format!("{e:?}"))),
        ("basic::basic", || super::test_basic::test_basic().map_err(|e| format!("{e:?}"))),
        ("basic::account_size_migration", || super::test_basic::test_account_size_migration().map_err(|e| format!("{e:?}"))),
        ("basic::bank_maint_weight_shift", || super::test_basic::test_bank_maint_weight_shift().map_err(|e| format!("{e:?}"))),
        ("basic::bank_deposit_limit", || super::test_basic::test_bank_deposit_limit().map_err(|e| format!("{e:?}"))),
        ("basic::withdraw_skip_bank", || super::test_basic::test_withdraw_skip_bank().map_err(|e| format!("{e:?}"))),
        ("basic::sequence_check", || super::test_basic::test_sequence_check().map_err(|e| format!("{e:?}"))),
        ("borrow_limits::bank_utilization_based_borrow_limit", || super::test_borrow_limits::test_bank_utilization_based_borrow_limit().map_err(|e| format!("{e:?}"))),
        ("borrow_limits::bank_net_borrows_based_borrow_limit", || super::test_borrow_limits::test_bank_net_borrows_based_borrow_limit().map_err(|e| format!("{e:?}"))),
        ("collateral_fees::collateral_fees", || super::test_collateral_fees::test_collateral_fees().map_err(|e| format!("{e:?}"))),
        ("collateral_fees::collateral_fees_multi", || super::test_collateral_fees::test_collateral_fees_multi().map_err(|e| format!("{e:?}"))),
        ("collateral_fees::basics", || super::test_collateral_fees::test_basics().map_err(|e| format!("{e:?}"))),
        ("collateral_fees::creating_borrow_from_oo", || super::test_collateral_fees::test_creating_borrow_from_oo().map_err(|e| format!("{e:?}"))),
        ("collateral_fees::hiding_collateral_using_oo", || super::test_collateral_fees::test_hiding_collateral_using_oo().map_err(|e| format!("{e:?}"))),
        ("delegate::delegate", || super::test_delegate::test_delegate().map_err(|e| format!("{e:?}"))),
        ("fees_buyback_with_mngo::fees_buyback_with_mngo", || super::test_fees_buyback_with_mngo::test_fees_buyback_with_mngo().map_err(|e| format!("{e:?}"))),
        ("force_close::force_close_token", || super::test_force_close::test_force_close_token().map_err(|e| format!("{e:?}"))),
        ("force_close::force_close_perp", || super::test_force_close::test_force_close_perp().map_err(|e| format!("{e:?}"))),
        ("force_close::force_withdraw_token", || super::test_force_close::test_force_withdraw_token().map_err(|e| format!("{e:?}"))),
        ("health_check::health_check", || super::test_health_check::test_health_check().map_err(|e| format!("{e:?}"))),
        ("health_compute::health_compute_tokens", || super::test_health_compute::test_health_compute_tokens().map_err(|e| format!("{e:?}"))),
        ("health_compute::health_compute_tokens_during_maint_weight_shift", || super::test_health_compute::test_health_compute_tokens_during_maint_weight_shift().map_err(|e| format!("{e:?}"))),
        ("health_compute::health_compute_tokens_fallback_oracles", || super::test_health_compute::test_health_compute_tokens_fallback_oracles().map_err(|e| format!("{e:?}"))),
        ("health_compute::health_compute_serum", || super::test_health_compute::test_health_compute_serum().map_err(|e| format!("{e:?}"))),
        ("health_compute::health_compute_perp", || super::test_health_compute::test_health_compute_perp().map_err(|e| format!("{e:?}"))),
        ("health_region::health_wrap", || super::test_health_region::test_health_wrap().map_err(|e| format!("{e:?}"))),
        ("ix_gate_set::ix_gate_set", || super::test_ix_gate_set::test_ix_gate_set().map_err(|e| format!("{e:?}"))),
        ("liq_perps_bankruptcy::liq_perps_bankruptcy", || super::test_liq_perps_bankruptcy::test_liq_perps_bankruptcy().map_err(|e| format!("{e:?}"))),
        ("liq_perps_bankruptcy::liq_perps_bankruptcy_other_insurance_fund", || super::test_liq_perps_bankruptcy::test_liq_perps_bankruptcy_other_insurance_fund().map_err(|e| format!("{e:?}"))),
        ("liq_perps_base_and_bankruptcy::liq_perps_base_and_bankruptcy", || super::test_liq_perps_base_and_bankruptcy::test_liq_perps_base_and_bankruptcy().map_err(|e| format!("{e:?}"))),
        ("liq_perps_force_cancel::liq_perps_force_cancel", || super::test_liq_perps_force_cancel::test_liq_perps_force_cancel().map_err(|e| format!("{e:?}"))),
        ("liq_perps_positive_pnl::liq_perps_positive_pnl", || super::test_liq_perps_positive_pnl::test_liq_perps_positive_pnl().map_err(|e| format!("{e:?}"))),
        ("liq_tokens::liq_tokens_force_cancel", || super::test_liq_tokens::test_liq_tokens_force_cancel().map_err(|e| format!("{e:?}"))),
        ("liq_tokens::liq_tokens_with_token", || super::test_liq_tokens::test_liq_tokens_with_token().map_err(|e| format!("{e:?}"))),
        ("margin_trade::margin_trade", || super::test_margin_trade::test_margin_trade().map_err(|e| format!("{e:?}"))),
        ("margin_trade::flash_loan_swap_fee", || super::test_margin_trade::test_flash_loan_swap_fee().map_err(|e| format!("{e:?}"))),
        ("margin_trade::flash_loan_creates_ata_accounts", || super::test_margin_trade::test_flash_loan_creates_ata_accounts().map_err(|e| format!("{e:?}"))),
        ("margin_trade::margin_trade_deposit_limit", || super::test_margin_trade::test_margin_trade_deposit_limit().map_err(|e| format!("{e:?}"))),
        ("margin_trade::margin_trade_skip_bank", || super::test_margin_trade::test_margin_trade_skip_bank().map_err(|e| format!("{e:?}"))),
        ("perp::perp_fixed", || super::test_perp::test_perp_fixed().map_err(|e| format!("{e:?}"))),
        ("perp::perp_oracle_peg", || super::test_perp::test_perp_oracle_peg().map_err(|e| format!("{e:?}"))),
        ("perp::perp_realize_partially", || super::test_perp::test_perp_realize_partially().map_err(|e| format!("{e:?}"))),
        ("perp::perp_reducing_when_liquidatable", || super::test_perp::test_perp_reducing_when_liquidatable().map_err(|e| format!("{e:?}"))),
        ("perp::perp_compute", || super::test_perp::test_perp_compute().map_err(|e| format!("{e:?}"))),
        ("perp::perp_cancel_with_in_flight_events", || super::test_perp::test_perp_cancel_with_in_flight_events().map_err(|e| format!("{e:?}"))),
        ("perp::perp_skip_bank", || super::test_perp::test_perp_skip_bank().map_err(|e| format!("{e:?}"))),
        ("perp_settle::perp_settle_pnl_basic", || super::test_perp_settle::test_perp_settle_pnl_basic().map_err(|e| format!("{e:?}"))),
        ("perp_settle::perp_settle_pnl_fees", || super::test_perp_settle::test_perp_settle_pnl_fees().map_err(|e| format!("{e:?}"))),
        ("perp_settle::perp_pnl_settle_limit", || super::test_perp_settle::test_perp_pnl_settle_limit().map_err(|e| format!("{e:?}"))),
        ("perp_settle_fees::perp_settle_fees", || super::test_perp_settle_fees::test_perp_settle_fees().map_err(|e| format!("{e:?}"))),
        ("position_lifetime::position_lifetime", || super::test_position_lifetime::test_position_lifetime().map_err(|e| format!("{e:?}"))),
        ("reduce_only::reduce_only_token", || super::test_reduce_only::test_reduce_only_token().map_err(|e| format!("{e:?}"))),
        ("reduce_only::perp_reduce_only", || super::test_reduce_only::test_perp_reduce_only().map_err(|e| format!("{e:?}"))),
        ("serum::serum_basics", || super::test_serum::test_serum_basics().map_err(|e| format!("{e:?}"))),
        ("serum::serum_loan_origination_fees", || super::test_serum::test_serum_loan_origination_fees().map_err(|e| format!("{e:?}"))),
        ("serum::serum_settle_v1", || super::test_serum::test_serum_settle_v1().map_err(|e| format!("{e:?}"))),
        ("serum::serum_settle_v2_to_dao", || super::test_serum::test_serum_settle_v2_to_dao().map_err(|e| format!("{e:?}"))),
        ("serum::serum_settle_v2_to_account", || super::test_serum::test_serum_settle_v2_to_account().map_err(|e| format!("{e:?}"))),
        ("serum::serum_reduce_only_borrows", || super::test_serum::test_serum_reduce_only_borrows().map_err(|e| format!("{e:?}"))),
        ("serum::serum_reduce_only_deposits1", || super::test_serum::test_serum_reduce_only_deposits1().map_err(|e| format!("{e:?}"))),
        ("serum::serum_reduce_only_deposits2", || super::test_serum::test_serum_reduce_only_deposits2().map_err(|e| format!("{e:?}"))),
        ("serum::serum_place_reducing_when_liquidatable", || super::test_serum::test_serum_place_reducing_when_liquidatable().map_err(|e| format!("{e:?}"))),
        ("serum::serum_track_bid_ask", || super::test_serum::test_serum_track_bid_ask().map_err(|e| format!("{e:?}"))),
        ("serum::serum_track_reserved_deposits", || super::test_serum::test_serum_track_reserved_deposits().map_err(|e| format!("{e:?}"))),
        ("serum::serum_compute", || super::test_serum::test_serum_compute().map_err(|e| format!("{e:?}"))),
        ("serum::fallback_oracle_serum", || super::test_serum::test_fallback_oracle_serum().map_err(|e| format!("{e:?}"))),
        ("serum::serum_bands", || super::test_serum::test_serum_bands().map_err(|e| format!("{e:?}"))),
        ("serum::serum_deposit_limits", || super::test_serum::test_serum_deposit_limits().map_err(|e| format!("{e:?}"))),
        ("serum::serum_skip_bank", || super::test_serum::test_serum_skip_bank().map_err(|e| format!("{e:?}"))),
        ("stale_oracles::stale_oracle_deposit_withdraw", || super::test_stale_oracles::test_stale_oracle_deposit_withdraw().map_err(|e| format!("{e:?}"))),
        ("stale_oracles::fallback_oracle_withdraw", || super::test_stale_oracles::test_fallback_oracle_withdraw().map_err(|e| format!("{e:?}"))),
        ("stale_oracles::orca_fallback_oracle", || super::test_stale_oracles::test_orca_fallback_oracle().map_err(|e| format!("{e:?}"))),
        ("stale_oracles::raydium_fallback_oracle", || super::test_stale_oracles::test_raydium_fallback_oracle().map_err(|e| format!("{e:?}"))),
        ("token_conditional_swap::token_conditional_swap_basic", || super::test_token_conditional_swap::test_token_conditional_swap_basic().map_err(|e| format!("{e:?}"))),
        ("token_conditional_swap::token_conditional_swap_linear_auction", || super::test_token_conditional_swap::test_token_conditional_swap_linear_auction().map_err(|e| format!("{e:?}"))),
        ("token_conditional_swap::token_conditional_swap_premium_auction", || super::test_token_conditional_swap::test_token_conditional_swap_premium_auction().map_err(|e| format!("{e:?}"))),
        ("token_conditional_swap::token_conditional_swap_deposit_limit", || super::test_token_conditional_swap::test_token_conditional_swap_deposit_limit().map_err(|e| format!("{e:?}"))),
        ("token_update_index_and_rate::token_update_index_and_rate", || super::test_token_update_index_and_rate::test_token_update_index_and_rate().map_err(|e| format!("{e:?}"))),
        ("token_update_index_and_rate::token_update_index_and_rate_resilient_ix", || super::test_token_update_index_and_rate::test_token_update_index_and_rate_resilient_ix().map_err(|e| format!("{e:?}"))),
        ("token_update_index_and_rate::token_rates_migrate", || super::test_token_update_index_and_rate::test_token_rates_migrate().map_err(|e| format!("{e:?}"))),
    ]
}
