//! What an instruction changed, field by field.
use super::*;
use crate::st::MAcc;
use mango_v4::state::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum What {
    Created,
    Closed,
    /// parts of a user account
    /// a token balance
    Tok(u16),
    /// a token position's other fields only: usage count, interest statistics, activation
    TokUse(u16),
    Perp(u16),
    Serum(u16),
    /// an open order slot for a market
    Oo(u16),
    Tcs,
    Fx(&'static str),
    /// section lengths and header
    Shape,
    Bank(&'static str),
    PerpF(&'static str),
    Group(&'static str),
    Mint,
    SerumF,
    Stub,
    Book,
    Queue,
    Amount,
    TokenMeta,
    OpenOrders,
    /// only lamports
    Lamports,
    Other,
}
#[derive(Clone, Debug)]
pub struct Change {
    pub key: Pubkey,
    pub what: What,
}
fn ne<T: bytemuck::NoUninit>(a: &T, b: &T) -> bool {
    bytemuck::bytes_of(a) != bytemuck::bytes_of(b)
}
macro_rules! fd {
    ($v:expr, $a:expr, $b:expr, $k:expr, $w:path; $($f:ident),*) => { $( if ne(&$a.$f, &$b.$f) { $v.push(Change { key: $k, what: $w(stringify!($f)) }); } )* };
}
pub fn bank_diff(a: &Bank, b: &Bank, k: Pubkey, v: &mut Vec<Change>) {
    let n = v.len();
    fd!(v, a, b, k, What::Bank; group, name, mint, vault, oracle, oracle_config, stable_price_model, deposit_index, borrow_index, indexed_deposits, indexed_borrows, index_last_updated, bank_rate_last_updated, avg_utilization, adjustment_factor, util0, rate0, util1, rate1, max_rate, collected_fees_native, loan_origination_fee_rate, loan_fee_rate, maint_asset_weight, init_asset_weight, maint_liab_weight, init_liab_weight, liquidation_fee, dust, flash_loan_token_account_initial, flash_loan_approved_amount, token_index, bump, mint_decimals, bank_num, min_vault_to_deposits_ratio, net_borrow_limit_window_size_ts, last_net_borrows_window_start_ts, net_borrow_limit_per_window_quote, net_borrows_in_window, borrow_weight_scale_start_quote, deposit_weight_scale_start_quote, reduce_only, force_close, disable_asset_liquidation, force_withdraw, tier, fees_withdrawn, token_conditional_swap_taker_fee_rate, token_conditional_swap_maker_fee_rate, flash_loan_swap_fee_rate, interest_target_utilization, interest_curve_scaling, potential_serum_tokens, maint_weight_shift_start, maint_weight_shift_end, maint_weight_shift_duration_inv, maint_weight_shift_asset_target, maint_weight_shift_liab_target, fallback_oracle, deposit_limit, zero_util_rate, platform_liquidation_fee, collected_liquidation_fees, collected_collateral_fees, collateral_fee_per_day);
    if v.len() == n && bytemuck::bytes_of(a) != bytemuck::bytes_of(b) {
        v.push(Change { key: k, what: What::Bank("reserved") });
    }
}
pub fn perp_diff(a: &PerpMarket, b: &PerpMarket, k: Pubkey, v: &mut Vec<Change>) {
    let n = v.len();
    fd!(v, a, b, k, What::PerpF; group, settle_token_index, perp_market_index, group_insurance_fund, bump, base_decimals, name, bids, asks, event_queue, oracle, oracle_config, stable_price_model, quote_lot_size, base_lot_size, maint_base_asset_weight, init_base_asset_weight, maint_base_liab_weight, init_base_liab_weight, open_interest, seq_num, registration_time, min_funding, max_funding, impact_quantity, long_funding, short_funding, funding_last_updated, base_liquidation_fee, maker_fee, taker_fee, fees_accrued, fees_settled, fee_penalty, settle_fee_flat, settle_fee_amount_threshold, settle_fee_fraction_low_health, settle_pnl_limit_factor, settle_pnl_limit_window_size_ts, reduce_only, force_close, maint_overall_asset_weight, init_overall_asset_weight, positive_pnl_liquidation_fee, fees_withdrawn, platform_liquidation_fee, accrued_liquidation_fees);
    if v.len() == n && bytemuck::bytes_of(a) != bytemuck::bytes_of(b) {
        v.push(Change { key: k, what: What::PerpF("reserved") });
    }
}
pub fn group_diff(a: &Group, b: &Group, k: Pubkey, v: &mut Vec<Change>) {
    let n = v.len();
    fd!(v, a, b, k, What::Group; creator, group_num, admin, fast_listing_admin, mngo_token_index, insurance_vault, insurance_mint, bump, testing, version, buyback_fees, buyback_fees_mngo_bonus_factor, address_lookup_tables, security_admin, deposit_limit_quote, ix_gate, buyback_fees_swap_mango_account, buyback_fees_expiry_interval, fast_listing_interval_start, fast_listings_in_interval, allowed_fast_listings_per_interval, collateral_fee_interval);
    if v.len() == n && bytemuck::bytes_of(a) != bytemuck::bytes_of(b) {
        v.push(Change { key: k, what: What::Group("reserved") });
    }
}
pub fn acc_diff(a: &MAcc, b: &MAcc, v: &mut Vec<Change>) {
    let k = b.key;
    let mut p = |w| v.push(Change { key: k, what: w });
    if a.header_version != b.header_version
        || a.tokens.len() != b.tokens.len()
        || a.serum3.len() != b.serum3.len()
        || a.perps.len() != b.perps.len()
        || a.oos.len() != b.oos.len()
        || a.tcs.len() != b.tcs.len()
    {
        p(What::Shape);
    }
    let mut idx: Vec<u16> = a.active_tokens().chain(b.active_tokens()).map(|t| t.token_index).collect();
    idx.sort();
    idx.dedup();
    for i in idx {
        if a.tok(i).map(|t| bytemuck::bytes_of(t)) != b.tok(i).map(|t| bytemuck::bytes_of(t)) {
            let bal = |m: &MAcc| m.tok(i).map_or(0, |t| t.indexed_position.to_bits());
            p(if bal(a) != bal(b) { What::Tok(i) } else { What::TokUse(i) });
        }
    }
    let mut idx: Vec<u16> = a.active_perps().chain(b.active_perps()).map(|t| t.market_index).collect();
    idx.sort();
    idx.dedup();
    for i in idx {
        if a.perp(i).map(|t| bytemuck::bytes_of(t)) != b.perp(i).map(|t| bytemuck::bytes_of(t)) {
            p(What::Perp(i));
        }
    }
    let mut idx: Vec<u16> = a.active_serum().chain(b.active_serum()).map(|t| t.market_index).collect();
    idx.sort();
    idx.dedup();
    for i in idx {
        let s = |m: &MAcc| m.active_serum().find(|s| s.market_index == i).map(|t| bytemuck::bytes_of(t).to_vec());
        if s(a) != s(b) {
            p(What::Serum(i));
        }
    }
    for i in 0..a.oos.len().max(b.oos.len()) {
        let (x, y) = (a.oos.get(i), b.oos.get(i));
        if x.map(|t| bytemuck::bytes_of(t)) != y.map(|t| bytemuck::bytes_of(t)) {
            for z in [x, y].into_iter().flatten() {
                if z.market != crate::st::FREE16 {
                    p(What::Oo(z.market));
                }
            }
        }
    }
    // resizing may move them
    let z = |m: &MAcc| {
        let mut v: Vec<Vec<u8>> = m.active_tcs().map(|t| bytemuck::bytes_of(t).to_vec()).collect();
        v.sort();
        v
    };
    if z(a) != z(b) {
        p(What::Tcs);
    }
    if a.being_liquidated != b.being_liquidated {
        p(What::Fx("being_liquidated"));
    }
    if a.in_health_region != b.in_health_region {
        p(What::Fx("in_health_region"));
    }
    fd!(v, a.fx, b.fx, k, What::Fx; group, owner, name, delegate, account_num, bump, sequence_number, net_deposits, perp_spot_transfers, health_region_begin_init_health, frozen_until, buyback_fees_accrued_current, buyback_fees_accrued_previous, buyback_fees_expiry_timestamp, next_token_conditional_swap_id, temporary_delegate, temporary_delegate_expiry, last_collateral_fee_charge);
}

/// everything that differs between the accounts handed to an instruction before and after it
pub fn changes(ix: &Ix) -> Vec<Change> {
    let mut v = vec![];
    for k in ix.changed() {
        let (a, b) = (ix.pre, ix.post);
        let n = v.len();
        macro_rules! both {
            ($m:ident, $f:expr) => {
                match (a.$m.get(&k), b.$m.get(&k)) {
                    (Some(x), Some(y)) => {
                        $f(x, y, &mut v);
                        true
                    }
                    (None, Some(_)) => {
                        v.push(Change { key: k, what: What::Created });
                        true
                    }
                    (Some(_), None) => {
                        v.push(Change { key: k, what: What::Closed });
                        true
                    }
                    _ => false,
                }
            };
        }
        let known = both!(accounts, |x: &std::rc::Rc<MAcc>, y: &std::rc::Rc<MAcc>, v: &mut Vec<Change>| acc_diff(x, y, v))
            || both!(banks, |x: &std::rc::Rc<Bank>, y: &std::rc::Rc<Bank>, v: &mut Vec<Change>| bank_diff(x, y, k, v))
            || both!(perps, |x: &std::rc::Rc<PerpMarket>, y: &std::rc::Rc<PerpMarket>, v: &mut Vec<Change>| perp_diff(x, y, k, v))
            || both!(groups, |x: &std::rc::Rc<Group>, y: &std::rc::Rc<Group>, v: &mut Vec<Change>| group_diff(x, y, k, v))
            || both!(mints, |x: &std::rc::Rc<MintInfo>, y: &std::rc::Rc<MintInfo>, v: &mut Vec<Change>| if ne(&**x, &**y) {
                v.push(Change { key: k, what: What::Mint })
            })
            || both!(serum, |x: &std::rc::Rc<Serum3Market>, y: &std::rc::Rc<Serum3Market>, v: &mut Vec<Change>| if ne(&**x, &**y) {
                v.push(Change { key: k, what: What::SerumF })
            })
            || both!(stubs, |x: &std::rc::Rc<StubOracle>, y: &std::rc::Rc<StubOracle>, v: &mut Vec<Change>| if ne(&**x, &**y) {
                v.push(Change { key: k, what: What::Stub })
            })
            || both!(tokens, |x: &crate::st::Tok, y: &crate::st::Tok, v: &mut Vec<Change>| {
                if x.amount != y.amount {
                    v.push(Change { key: k, what: What::Amount })
                }
                if x.mint != y.mint || x.owner != y.owner {
                    v.push(Change { key: k, what: What::TokenMeta })
                }
            })
            || both!(oos, |_x, _y, v: &mut Vec<Change>| v.push(Change { key: k, what: What::OpenOrders }));
        let (ra, rb) = (ix.rec.pre(&k), ix.rec.post(&k));
        let same_data = match (ra, rb) {
            (Some(x), Some(y)) => x.data == y.data && x.owner == y.owner,
            _ => false,
        };
        if same_data {
            if ra.map(|x| x.lamports) != rb.map(|x| x.lamports) {
                v.push(Change { key: k, what: What::Lamports });
            }
            continue;
        }
        if !known {
            let what = if a.books.contains_key(&k) || b.books.contains_key(&k) {
                What::Book
            } else if a.queues.contains_key(&k) || b.queues.contains_key(&k) {
                What::Queue
            } else {
                What::Other
            };
            v.push(Change { key: k, what });
        } else if v.len() == n {
            v.push(Change { key: k, what: What::Other });
        }
    }
    v
}
