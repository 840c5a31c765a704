// Generated once from the program interface: instruction name followed by its named accounts.
pub const ABI: &str = "\
admin_token_withdraw_fees group bank vault token_account token_program admin\n\
admin_perp_withdraw_fees group perp_market bank vault token_account token_program admin\n\
group_create group creator insurance_mint insurance_vault payer token_program system_program rent\n\
group_edit group admin\n\
group_withdraw_insurance_fund group admin insurance_vault destination token_program\n\
group_change_insurance_fund group admin insurance_vault withdraw_destination new_insurance_mint new_insurance_vault payer token_program system_program rent\n\
ix_gate_set group admin\n\
group_close group admin insurance_vault sol_destination token_program\n\
token_register group admin mint bank vault mint_info oracle fallback_oracle payer token_program system_program rent\n\
token_register_trustless group admin mint bank vault mint_info oracle fallback_oracle payer token_program system_program rent\n\
token_edit group admin mint_info oracle fallback_oracle\n\
token_add_bank group admin mint existing_bank bank vault mint_info payer token_program system_program rent\n\
token_deregister group admin mint_info dust_vault sol_destination token_program\n\
token_update_index_and_rate group mint_info oracle instructions\n\
token_update_index_and_rate_resilient group mint_info oracle instructions\n\
account_create group account owner payer system_program\n\
account_create_v2 group account owner payer system_program\n\
account_expand group account owner payer system_program\n\
account_expand_v2 group account owner payer system_program\n\
account_size_migration group account payer system_program\n\
account_edit group account owner\n\
account_toggle_freeze group account admin\n\
account_close group account owner sol_destination token_program\n\
account_buyback_fees_with_mngo group account owner dao_account mngo_bank mngo_oracle fees_bank fees_oracle\n\
sequence_check group account owner\n\
health_check group account\n\
stub_oracle_create group oracle admin mint payer system_program\n\
stub_oracle_close group admin oracle sol_destination token_program\n\
stub_oracle_set group admin oracle\n\
stub_oracle_set_test group admin oracle\n\
token_deposit group account owner bank vault oracle token_account token_authority token_program\n\
token_deposit_into_existing group account bank vault oracle token_account token_authority token_program\n\
token_withdraw group account owner bank vault oracle token_account token_program\n\
flash_loan_begin account owner token_program instructions\n\
flash_loan_swap_begin account owner input_mint output_mint system_program token_program associated_token_program instructions\n\
flash_loan_end account owner token_program\n\
flash_loan_end_v2 account owner token_program\n\
health_region_begin instructions group account\n\
health_region_end account\n\
serum3_register_market group admin serum_program serum_market_external serum_market index_reservation quote_bank base_bank payer system_program\n\
serum3_edit_market group admin market\n\
serum3_deregister_market group admin serum_market index_reservation sol_destination token_program\n\
serum3_create_open_orders group account owner serum_market serum_program serum_market_external open_orders payer system_program rent\n\
serum3_close_open_orders group account owner serum_market serum_program serum_market_external open_orders sol_destination\n\
serum3_place_order group account owner open_orders serum_market serum_program serum_market_external market_bids market_asks market_event_queue market_request_queue market_base_vault market_quote_vault market_vault_signer payer_bank payer_vault payer_oracle token_program\n\
serum3_place_order_v2 group account owner open_orders serum_market serum_program serum_market_external market_bids market_asks market_event_queue market_request_queue market_base_vault market_quote_vault market_vault_signer payer_bank payer_vault payer_oracle token_program\n\
serum3_cancel_order group account owner open_orders serum_market serum_program serum_market_external market_bids market_asks market_event_queue\n\
serum3_cancel_order_by_client_order_id group account owner open_orders serum_market serum_program serum_market_external market_bids market_asks market_event_queue\n\
serum3_cancel_all_orders group account owner open_orders serum_market serum_program serum_market_external market_bids market_asks market_event_queue\n\
serum3_settle_funds group account owner open_orders serum_market serum_program serum_market_external market_base_vault market_quote_vault market_vault_signer quote_bank quote_vault base_bank base_vault token_program\n\
serum3_settle_funds_v2 group account owner open_orders serum_market serum_program serum_market_external market_base_vault market_quote_vault market_vault_signer quote_bank quote_vault base_bank base_vault token_program quote_oracle base_oracle\n\
serum3_liq_force_cancel_orders group account open_orders serum_market serum_program serum_market_external market_bids market_asks market_event_queue market_base_vault market_quote_vault market_vault_signer quote_bank quote_vault base_bank base_vault token_program\n\
liq_token_with_token group liqor liqor_owner liqee\n\
liq_token_bankruptcy group liqor liqor_owner liqee liab_mint_info quote_vault insurance_vault token_program\n\
token_liq_with_token group liqor liqor_owner liqee\n\
token_force_close_borrows_with_token group liqor liqor_owner liqee\n\
token_liq_bankruptcy group liqor liqor_owner liqee liab_mint_info quote_vault insurance_vault token_program\n\
token_force_withdraw group account bank vault oracle owner_ata_token_account alternate_owner_token_account token_program\n\
perp_create_market group admin oracle perp_market bids asks event_queue payer system_program\n\
perp_edit_market group admin perp_market oracle\n\
perp_close_market group admin perp_market bids asks event_queue sol_destination token_program\n\
perp_deactivate_position group account owner perp_market\n\
perp_place_order group account owner perp_market bids asks event_queue oracle\n\
perp_place_order_v2 group account owner perp_market bids asks event_queue oracle\n\
perp_place_order_pegged group account owner perp_market bids asks event_queue oracle\n\
perp_place_order_pegged_v2 group account owner perp_market bids asks event_queue oracle\n\
perp_cancel_order group account owner perp_market bids asks\n\
perp_cancel_order_by_client_order_id group account owner perp_market bids asks\n\
perp_cancel_all_orders group account owner perp_market bids asks\n\
perp_cancel_all_orders_by_side group account owner perp_market bids asks\n\
perp_consume_events group perp_market event_queue\n\
perp_update_funding group perp_market bids asks oracle\n\
perp_settle_pnl group settler settler_owner perp_market account_a account_b oracle settle_bank settle_oracle\n\
perp_force_close_position group perp_market account_a account_b oracle\n\
perp_settle_fees group perp_market account oracle settle_bank settle_oracle\n\
perp_liq_base_or_positive_pnl group perp_market oracle liqor liqor_owner liqee settle_bank settle_vault settle_oracle\n\
perp_liq_force_cancel_orders group account perp_market bids asks\n\
perp_liq_negative_pnl_or_bankruptcy group liqor liqor_owner liqee perp_market oracle settle_bank settle_vault settle_oracle insurance_vault token_program\n\
perp_liq_negative_pnl_or_bankruptcy_v2 group liqor liqor_owner liqee perp_market oracle settle_bank settle_vault settle_oracle insurance_vault insurance_bank insurance_bank_vault insurance_oracle token_program\n\
token_conditional_swap_create group account authority buy_bank sell_bank\n\
token_conditional_swap_create_v2 group account authority buy_bank sell_bank\n\
token_conditional_swap_create_premium_auction group account authority buy_bank sell_bank\n\
token_conditional_swap_create_linear_auction group account authority buy_bank sell_bank\n\
token_conditional_swap_cancel group account authority buy_bank sell_bank\n\
token_conditional_swap_trigger group liqee liqor liqor_authority\n\
token_conditional_swap_trigger_v2 group liqee liqor liqor_authority\n\
token_conditional_swap_start group liqee liqor liqor_authority\n\
token_charge_collateral_fees group account\n\
alt_set group admin address_lookup_table\n\
alt_extend group admin payer address_lookup_table\n\
compute_account_data group account\n\
benchmark dummy\n\
";
