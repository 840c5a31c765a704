//! What each instruction may touch.
use super::diff::*;
use super::*;

/// prints every kind of change seen per instruction (for reviewing the table below)
#[derive(Default)]
pub struct Learn {
    seen: std::collections::BTreeSet<String>,
}
impl Monitor for Learn {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        for c in changes(ix) {
            let role = (0..ix.n_named())
                .find(|i| ix.rec.metas.get(*i).map_or(false, |m| m.pubkey == c.key))
                .map_or("rest", |i| ix.abi.unwrap().accounts[i]);
            let w = match c.what {
                What::Tok(_) => "Tok".to_string(),
                What::Perp(_) => "Perp".to_string(),
                What::Serum(_) => "Serum".to_string(),
                What::Oo(_) => "Oo".to_string(),
                w => format!("{w:?}"),
            };
            let s = format!("{} {role} {w}", ix.name);
            if self.seen.insert(s.clone()) {
                out.count(&format!("LEARN {s}"));
            }
        }
    }
}

/// the tokens an instruction may move on the accounts it names
pub fn involved_tokens(ix: &Ix) -> Vec<u16> {
    let bank = |role: &str| ix.acc(role).and_then(|k| ix.pre.banks.get(&k)).map(|b| b.token_index);
    let mut a = ix.args();
    let settle = || ix.acc("perp_market").and_then(|k| ix.pre.perps.get(&k)).map(|p| p.settle_token_index);
    let insurance = || {
        let v = ix.acc("insurance_vault")?;
        let mint = ix.pre.tokens.get(&v)?.mint;
        ix.pre.banks.values().find(|b| b.mint == mint).map(|b| b.token_index)
    };
    let serum = || {
        let m = ix.acc("serum_market").and_then(|k| ix.pre.serum.get(&k))?;
        Some((m.base_token_index, m.quote_token_index))
    };
    let v: Vec<Option<u16>> = match ix.name {
        "token_deposit" | "token_deposit_into_existing" | "token_withdraw" | "token_force_withdraw" | "admin_token_withdraw_fees" => vec![bank("bank")],
        "account_buyback_fees_with_mngo" => vec![bank("mngo_bank"), bank("fees_bank")],
        "token_liq_with_token" | "liq_token_with_token" | "token_force_close_borrows_with_token" => {
            vec![Some(a.u16()), Some(a.u16())]
        }
        "token_liq_bankruptcy" | "liq_token_bankruptcy" => vec![
            ix.acc("liab_mint_info").and_then(|k| ix.pre.mints.get(&k)).map(|m| m.token_index),
            insurance(),
        ],
        n if n.starts_with("perp_liq_negative") => vec![settle(), insurance()],
        n if n.starts_with("perp_") => vec![settle()],
        n if n.starts_with("serum3_") => serum().map_or(vec![], |(b, q)| vec![Some(b), Some(q)]),
        n if n.starts_with("flash_loan_end") => ix
            .rec
            .metas
            .iter()
            .filter_map(|m| ix.pre.banks.get(&m.pubkey))
            .filter(|b| b.flash_loan_token_account_initial != u64::MAX)
            .map(|b| Some(b.token_index))
            .collect(),
        n if n.starts_with("flash_loan") => ix
            .rec
            .metas
            .iter()
            .filter_map(|m| ix.pre.banks.get(&m.pubkey))
            .map(|b| Some(b.token_index))
            .collect(),
        n if n.starts_with("token_conditional_swap_c") => vec![bank("buy_bank"), bank("sell_bank")],
        n if n.starts_with("token_conditional_swap_") => {
            let i = if ix.name == "token_conditional_swap_start" { a.u8() } else { a.u8() };
            ix.acc("liqee")
                .and_then(|k| ix.pre.accounts.get(&k))
                .and_then(|m| m.tcs.get(i as usize))
                .map_or(vec![], |t| vec![Some(t.buy_token_index), Some(t.sell_token_index)])
        }
        "token_charge_collateral_fees" => {
            let mut v: Vec<Option<u16>> = vec![];
            if let Some(m) = ix.acc("account").and_then(|k| ix.pre.accounts.get(&k)) {
                v.extend(m.active_tokens().map(|t| Some(t.token_index)));
            }
            v
        }
        n if n.starts_with("token_update_index") || ix.name == "token_edit" || ix.name == "token_add_bank" => vec![ix
            .acc("mint_info")
            .and_then(|k| ix.pre.mints.get(&k))
            .map(|m| m.token_index)],
        _ => vec![],
    };
    v.into_iter().flatten().collect()
}

/// instruction: role:allowed,... ; `rest` are accounts beyond the named ones.
/// T and U are balances and usage of the involved tokens, M the market's perp position, S its spot
/// orders, B the fields a balance change touches on a bank, F those plus collected fees.
const TABLE: &str = "
account_buyback_fees_with_mngo account:T,U,buyback dao_account:T,U mngo_bank:B fees_bank:F
account_close account:Closed
account_create_v2 account:Created
account_create account:Created
account_edit account:delegate,name,temporary_delegate,temporary_delegate_expiry
account_expand_v2 account:Shape
account_expand account:Shape
account_size_migration account:Shape
account_toggle_freeze account:frozen_until
admin_perp_withdraw_fees perp_market:fees_withdrawn token_account:Amount vault:Amount
admin_token_withdraw_fees bank:fees_withdrawn token_account:Amount vault:Amount
flash_loan_begin rest:Amount,flash_loan_approved_amount,flash_loan_token_account_initial
flash_loan_swap_begin rest:Amount,Created,flash_loan_approved_amount,flash_loan_token_account_initial
flash_loan_end account:being_liquidated,T,U rest:Amount,F,flash_loan_approved_amount,flash_loan_token_account_initial
flash_loan_end_v2 account:being_liquidated,T,U rest:Amount,F,flash_loan_approved_amount,flash_loan_token_account_initial
group_create group:Created insurance_vault:Created
group_edit group:*
group_close group:Closed insurance_vault:Closed
group_change_insurance_fund group:insurance_vault,insurance_mint insurance_vault:Closed,Amount withdraw_destination:Amount new_insurance_vault:Created
group_withdraw_insurance_fund destination:Amount insurance_vault:Amount
health_region_begin account:being_liquidated,health_region_begin_init_health,in_health_region
health_region_end account:being_liquidated,health_region_begin_init_health,in_health_region
ix_gate_set group:ix_gate
alt_set group:address_lookup_tables
alt_extend address_lookup_table:Other
perp_cancel_all_orders account:O,M asks:Book bids:Book
perp_cancel_all_orders_by_side account:O,M asks:Book bids:Book
perp_cancel_order account:O,M asks:Book bids:Book
perp_cancel_order_by_client_order_id account:O,M asks:Book bids:Book
perp_consume_events event_queue:Queue perp_market:open_interest rest:buyback,O,M
perp_create_market asks:Book bids:Book event_queue:Queue perp_market:Created
perp_close_market asks:Other,Closed,Book bids:Other,Closed,Book event_queue:Other,Closed,Queue perp_market:Closed
perp_deactivate_position account:M,U
perp_edit_market perp_market:*
perp_force_close_position account_a:M account_b:M perp_market:open_interest
perp_liq_base_or_positive_pnl liqee:being_liquidated,perp_spot_transfers,M,T,U liqor:perp_spot_transfers,being_liquidated,M,T,U perp_market:accrued_liquidation_fees,fees_accrued,open_interest settle_bank:B
perp_liq_force_cancel_orders account:being_liquidated,O,M asks:Book bids:Book
perp_liq_negative_pnl_or_bankruptcy_v2 insurance_bank:B insurance_bank_vault:Amount insurance_vault:Amount liqee:being_liquidated,perp_spot_transfers,M,T,U liqor:being_liquidated,perp_spot_transfers,M,T,U perp_market:long_funding,short_funding settle_bank:B settle_vault:Amount
perp_liq_negative_pnl_or_bankruptcy insurance_vault:Amount liqee:being_liquidated,perp_spot_transfers,M,T,U liqor:being_liquidated,perp_spot_transfers,M,T,U perp_market:long_funding,short_funding settle_bank:B settle_vault:Amount
perp_place_order account:being_liquidated,buyback,O,M,U asks:Book bids:Book event_queue:Queue perp_market:fees_accrued,funding_last_updated,long_funding,seq_num,short_funding,stable_price_model
perp_place_order_v2 =perp_place_order
perp_place_order_pegged =perp_place_order
perp_place_order_pegged_v2 =perp_place_order
perp_settle_fees account:being_liquidated,perp_spot_transfers,M,T,U perp_market:fees_accrued,fees_settled settle_bank:B
perp_settle_pnl account_a:perp_spot_transfers,M,T,U account_b:perp_spot_transfers,M,T,U settler:perp_spot_transfers,T,U settle_bank:B
perp_update_funding perp_market:funding_last_updated,long_funding,short_funding,stable_price_model
sequence_check account:sequence_number
health_check account:
compute_account_data account:
serum3_cancel_all_orders market_asks:Other market_bids:Other market_event_queue:Other open_orders:OpenOrders account:S
serum3_cancel_order =serum3_cancel_all_orders
serum3_cancel_order_by_client_order_id =serum3_cancel_all_orders
serum3_close_open_orders account:S,U open_orders:OpenOrders,Closed,Other
serum3_create_open_orders account:S,U open_orders:Created
serum3_edit_market market:SerumF
serum3_deregister_market serum_market:Closed index_reservation:Closed,Other
serum3_liq_force_cancel_orders account:being_liquidated,S,T,U base_bank:F,potential_serum_tokens quote_bank:F,potential_serum_tokens base_vault:Amount quote_vault:Amount market_base_vault:Amount market_quote_vault:Amount market_asks:Other market_bids:Other market_event_queue:Other serum_market_external:Other open_orders:OpenOrders
serum3_place_order account:being_liquidated,S,T,U market_asks:Other market_bids:Other market_event_queue:Other market_request_queue:Other market_base_vault:Amount market_quote_vault:Amount open_orders:OpenOrders payer_bank:F,potential_serum_tokens payer_vault:Amount rest:potential_serum_tokens serum_market_external:Other
serum3_place_order_v2 =serum3_place_order
serum3_settle_funds account:buyback,S,T,U base_bank:F,potential_serum_tokens base_vault:Amount market_base_vault:Amount market_quote_vault:Amount open_orders:OpenOrders quote_bank:F,potential_serum_tokens quote_vault:Amount serum_market_external:Other
serum3_settle_funds_v2 =serum3_settle_funds
serum3_register_market index_reservation:Other serum_market:Created
stub_oracle_create oracle:Created
stub_oracle_close oracle:Closed
stub_oracle_set oracle:Stub
stub_oracle_set_test oracle:Stub
token_add_bank bank:Created mint_info:Mint vault:Created
token_charge_collateral_fees account:last_collateral_fee_charge,T,U rest:F,collected_collateral_fees
token_conditional_swap_cancel account:Tcs,U,T buy_bank:B sell_bank:B
token_conditional_swap_create account:next_token_conditional_swap_id,Tcs,U
token_conditional_swap_create_v2 =token_conditional_swap_create
token_conditional_swap_create_premium_auction =token_conditional_swap_create
token_conditional_swap_create_linear_auction =token_conditional_swap_create
token_conditional_swap_start liqee:Tcs,T,U liqor:T,U rest:F
token_conditional_swap_trigger liqee:Tcs,T,U,being_liquidated liqor:T,U rest:F
token_conditional_swap_trigger_v2 =token_conditional_swap_trigger
token_deposit account:being_liquidated,net_deposits,T,U bank:B token_account:Amount vault:Amount
token_deposit_into_existing =token_deposit
token_withdraw account:being_liquidated,net_deposits,T,U bank:F token_account:Amount vault:Amount
token_edit mint_info:Mint rest:bank*
token_force_close_borrows_with_token liqee:T,U,being_liquidated liqor:T,U rest:F,collected_liquidation_fees
token_liq_with_token liqee:T,U,being_liquidated liqor:T,U rest:F,collected_liquidation_fees
liq_token_with_token =token_liq_with_token
token_force_withdraw account:net_deposits,T,U bank:B owner_ata_token_account:Amount alternate_owner_token_account:Amount vault:Amount
token_liq_bankruptcy insurance_vault:Amount quote_vault:Amount liqee:being_liquidated,T,U liqor:T,U rest:F,deposit_index
liq_token_bankruptcy =token_liq_bankruptcy
token_register bank:Created mint_info:Created vault:Created
token_register_trustless bank:Created mint_info:Created vault:Created group:fast_listing_interval_start,fast_listings_in_interval
token_deregister mint_info:Closed dust_vault:Amount rest:Closed
token_update_index_and_rate rest:avg_utilization,bank_rate_last_updated,borrow_index,collected_fees_native,deposit_index,index_last_updated,interest_curve_scaling,maint_asset_weight,maint_liab_weight,maint_weight_shift_asset_target,maint_weight_shift_duration_inv,maint_weight_shift_end,maint_weight_shift_liab_target,maint_weight_shift_start,stable_price_model
token_update_index_and_rate_resilient =token_update_index_and_rate
";
type Rules = HashMap<&'static str, Vec<(&'static str, Vec<&'static str>)>>;
fn table() -> &'static Rules {
    static T: OnceLock<Rules> = OnceLock::new();
    T.get_or_init(|| {
        let mut m: Rules = HashMap::new();
        for l in TABLE.lines().filter(|l| !l.is_empty()) {
            let mut p = l.split(' ');
            let name = p.next().unwrap();
            let mut v = vec![];
            for e in p {
                if let Some(o) = e.strip_prefix('=') {
                    v = m[o].clone();
                    continue;
                }
                let (role, what) = e.split_once(':').unwrap();
                v.push((role, what.split(',').filter(|x| !x.is_empty()).collect()));
            }
            m.insert(name, v);
        }
        m
    })
}
const BAL: [&str; 5] = ["dust", "indexed_borrows", "indexed_deposits", "last_net_borrows_window_start_ts", "net_borrows_in_window"];

fn permits(rule: &[&str], ix: &Ix, c: &Change, toks: &[u16]) -> bool {
    let has = |s: &str| rule.contains(&s);
    let market = || ix.acc("perp_market").and_then(|k| ix.pre.perps.get(&k)).map(|p| p.perp_market_index);
    let smarket = || ix.acc("serum_market").and_then(|k| ix.pre.serum.get(&k)).map(|p| p.market_index);
    match c.what {
        What::Tok(i) => has("T") && toks.contains(&i),
        What::TokUse(i) => has("U") && toks.contains(&i),
        What::Perp(i) => has("M") && market() == Some(i),
        What::Oo(i) => has("O") && market() == Some(i),
        What::Serum(i) => has("S") && smarket() == Some(i),
        What::Fx(f) => has(f) || (f.starts_with("buyback") && has("buyback")),
        What::Bank(f) => {
            let idx = ix.pre.banks.get(&c.key).map_or(u16::MAX, |b| b.token_index);
            toks.contains(&idx)
                && (has("bank*")
                    || has(f)
                    // the first adjustment of a bank from before curve scaling splits its curve
                    || (ix.name.starts_with("token_update_index")
                        && ["rate0", "rate1", "max_rate", "interest_target_utilization"].contains(&f)
                        && ix.pre.banks.values().any(|b| b.token_index == idx && b.interest_curve_scaling == 0.0))
                    || ((has("B") || has("F")) && BAL.contains(&f))
                    || (has("F") && f == "collected_fees_native"))
        }
        What::PerpF(f) | What::Group(f) => has("*") || has(f),
        What::Created => has("Created"),
        What::Closed => has("Closed"),
        What::Tcs => has("Tcs"),
        What::Shape => has("Shape"),
        What::Mint => has("Mint"),
        What::SerumF => has("SerumF"),
        What::Stub => has("Stub"),
        What::Book => has("Book"),
        What::Queue => has("Queue"),
        What::Amount => has("Amount"),
        What::OpenOrders => has("OpenOrders"),
        What::Other => has("Other") || ix.pre.accounts.contains_key(&c.key),
        What::TokenMeta => false,
        What::Lamports => true,
    }
}

/// No instruction changes anything but what its description names.
pub struct Frame {
    pub only: &'static [&'static str],
}
impl Monitor for Frame {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        if !self.only.is_empty() && !self.only.iter().any(|o| ix.name.contains(o)) {
            return;
        }
        let ch = changes(ix);
        if ch.is_empty() {
            return;
        }
        let Some(rules) = table().get(ix.name) else {
            out.fail("C04", &format!("unknown-instruction:{}", ix.name), format!("{} changed {ch:?}", ix.name));
            return;
        };
        let toks = involved_tokens(ix);
        let mut kinds: Vec<(u8, What)> = vec![];
        for c in &ch {
            let mut ok = false;
            let mut named = false;
            for i in 0..ix.n_named() {
                if ix.rec.metas.get(i).map_or(true, |m| m.pubkey != c.key) {
                    continue;
                }
                named = true;
                let role = ix.abi.unwrap().accounts[i];
                if let Some((_, r)) = rules.iter().find(|r| r.0 == role) {
                    kinds.push((i as u8, c.what));
                    ok |= permits(r, ix, c, &toks);
                }
            }
            if let Some((_, r)) = rules.iter().find(|r| r.0 == "rest") {
                if !named || ix.remaining().any(|k| k == c.key) {
                    ok |= permits(r, ix, c, &toks);
                }
            }
            ok |= c.what == What::Lamports;
            if !ok {
                let w = format!("{:?}", c.what).replace(|x: char| x.is_ascii_digit(), "");
                out.fail(
                    "C04",
                    &format!("frame:{}:{w}", ix.name),
                    format!("{} changed {:?} of {} (all changes: {ch:?}; tokens involved {toks:?})", ix.name, c.what, c.key),
                );
            }
        }
        out.eval("only-named-changes", (ix.name, kinds), || {
            format!("{}: {:?}", ix.name, ch.iter().map(|c| c.what).collect::<Vec<_>>())
        });
    }
}
