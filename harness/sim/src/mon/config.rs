//! Configuration: edits change what they name and nothing else, results keep the documented
//! relations, the limited roles can only do what is theirs.
use super::diff::{bank_diff, group_diff, perp_diff, Change};
use super::{Ix, Monitor, Out, Tx};
use crate::spec::{oracle_price, Price};
use anchor_lang::AnchorDeserialize;
use fixed::types::I80F48;
use mango_v4::instruction as I;
use mango_v4::state::*;
use solana_program::pubkey::Pubkey;
use std::collections::HashMap;

/// names of the relations a bank's parameters violate
pub fn violated(b: &Bank) -> Vec<&'static str> {
    let z = I80F48::ZERO;
    let one = I80F48::ONE;
    let mut v = vec![];
    let mut c = |ok: bool, n: &'static str| {
        if !ok {
            v.push(n)
        }
    };
    c(b.oracle_config.conf_filter >= z, "conf_filter");
    c(b.util0 >= z && b.util0 <= b.util1 && b.util1 <= one, "utilization points");
    c(b.rate0 >= z && b.rate1 >= z && b.max_rate >= z && b.zero_util_rate >= z && b.adjustment_factor >= z, "rates");
    c(b.loan_fee_rate >= z && b.loan_origination_fee_rate >= z, "loan fees");
    c(b.stable_price_model.delay_growth_limit >= 0.0 && b.stable_price_model.stable_growth_limit >= 0.0, "growth limits");
    c(b.init_asset_weight >= z && b.init_asset_weight <= b.maint_asset_weight, "asset weights");
    c(b.maint_liab_weight >= z && b.maint_liab_weight <= b.init_liab_weight, "liab weights");
    c(b.liquidation_fee >= z && b.platform_liquidation_fee >= z, "liquidation fees");
    c((0.0..=1.0).contains(&b.min_vault_to_deposits_ratio), "vault ratio");
    c(b.net_borrow_limit_per_window_quote >= -1, "net borrow limit");
    c(b.borrow_weight_scale_start_quote > 0.0 && b.deposit_weight_scale_start_quote > 0.0, "weight scaling");
    c(b.reduce_only <= 2, "reduce only");
    c(
        b.token_conditional_swap_taker_fee_rate >= 0.0 && b.token_conditional_swap_maker_fee_rate >= 0.0 && b.flash_loan_swap_fee_rate >= 0.0,
        "swap fees",
    );
    c(b.interest_curve_scaling >= 1.0, "curve scaling");
    c((0.0..=1.0).contains(&b.interest_target_utilization), "target utilization");
    c(
        b.maint_weight_shift_duration_inv >= z && b.maint_weight_shift_asset_target >= z && b.maint_weight_shift_liab_target >= z,
        "weight shift",
    );
    c(b.collateral_fee_per_day >= 0.0, "collateral fee");
    c(
        b.disable_asset_liquidation == 0 || (b.maint_asset_weight == z && (b.reduce_only == 1 || b.reduce_only == 2)),
        "asset liquidation disabled for collateral",
    );
    c(
        b.force_withdraw == 0 || (b.reduce_only == 1 && b.disable_asset_liquidation != 0 && b.maint_asset_weight == z),
        "force withdraw of collateral",
    );
    v
}

fn text<const N: usize>(s: &str) -> Option<[u8; N]> {
    let mut a = [0u8; N];
    a.get_mut(..s.len())?.copy_from_slice(s.as_bytes());
    Some(a)
}
fn oc(p: &OracleConfigParams) -> OracleConfig {
    OracleConfig {
        conf_filter: I80F48::from_num(p.conf_filter),
        max_staleness_slots: p.max_staleness_slots.map_or(-1, |v| v as i64),
        reserved: [0; 72],
    }
}
fn reset(m: &mut StablePriceModel, p: f64, now: u64) {
    m.stable_price = p;
    m.delay_prices = [p; 24];
    m.delay_accumulator_price = 0.0;
    m.delay_accumulator_time = 0;
    m.last_update_timestamp = now;
    m.reset_on_nonzero_price = u8::from(!(p > 0.0));
}
/// as far along the configured shift as the time is
pub fn shifted(b: &Bank, now: u64) -> (f64, f64) {
    let (a, l) = (b.maint_asset_weight.to_num::<f64>(), b.maint_liab_weight.to_num::<f64>());
    if b.maint_weight_shift_duration_inv <= 0 || now <= b.maint_weight_shift_start {
        return (a, l);
    }
    let (ta, tl) = (b.maint_weight_shift_asset_target.to_num::<f64>(), b.maint_weight_shift_liab_target.to_num::<f64>());
    if now >= b.maint_weight_shift_end {
        return (ta, tl);
    }
    let x = (now - b.maint_weight_shift_start) as f64 / (b.maint_weight_shift_end - b.maint_weight_shift_start) as f64;
    (a + (ta - a) * x, l + (tl - l) * x)
}
fn args<T: AnchorDeserialize>(ix: &Ix) -> Option<T> {
    T::deserialize(&mut ix.rec.data.get(8..)?).ok()
}
macro_rules! opt {
    ($b:expr, $o:expr; $($f:ident = $p:ident),* $(,)?) => { $( if let Some(v) = $o.$p { $b.$f = v; } )* };
}
macro_rules! fix {
    ($b:expr, $o:expr; $($f:ident = $p:ident),* $(,)?) => { $( if let Some(v) = $o.$p { $b.$f = I80F48::from_num(v); } )* };
}

/// what the bank should be after the edit; None: the edit cannot succeed
fn edited(b: &Bank, o: &I::TokenEdit, now: u64, reset_to: Option<f64>, fallback: Pubkey) -> Option<Bank> {
    let mut b = *b;
    opt!(b, o; oracle = oracle_opt, min_vault_to_deposits_ratio = min_vault_to_deposits_ratio_opt,
        net_borrow_limit_per_window_quote = net_borrow_limit_per_window_quote_opt,
        net_borrow_limit_window_size_ts = net_borrow_limit_window_size_ts_opt,
        borrow_weight_scale_start_quote = borrow_weight_scale_start_quote_opt,
        deposit_weight_scale_start_quote = deposit_weight_scale_start_quote_opt,
        reduce_only = reduce_only_opt,
        token_conditional_swap_taker_fee_rate = token_conditional_swap_taker_fee_rate_opt,
        token_conditional_swap_maker_fee_rate = token_conditional_swap_maker_fee_rate_opt,
        flash_loan_swap_fee_rate = flash_loan_swap_fee_rate_opt,
        interest_target_utilization = interest_target_utilization_opt,
        deposit_limit = deposit_limit_opt, collateral_fee_per_day = collateral_fee_per_day_opt);
    fix!(b, o; loan_fee_rate = loan_fee_rate_opt, loan_origination_fee_rate = loan_origination_fee_rate_opt,
        maint_asset_weight = maint_asset_weight_opt, init_asset_weight = init_asset_weight_opt,
        maint_liab_weight = maint_liab_weight_opt, init_liab_weight = init_liab_weight_opt,
        liquidation_fee = liquidation_fee_opt, zero_util_rate = zero_util_rate_opt,
        platform_liquidation_fee = platform_liquidation_fee_opt);
    if let Some(c) = &o.oracle_config_opt {
        b.oracle_config = oc(c);
    }
    if o.set_fallback_oracle {
        b.fallback_oracle = fallback;
    }
    if let Some(r) = &o.interest_rate_params_opt {
        b.util0 = I80F48::from_num(r.util0);
        b.rate0 = I80F48::from_num(r.rate0);
        b.util1 = I80F48::from_num(r.util1);
        b.rate1 = I80F48::from_num(r.rate1);
        b.max_rate = I80F48::from_num(r.max_rate);
        b.adjustment_factor = I80F48::from_num(r.adjustment_factor);
    }
    let m = &mut b.stable_price_model;
    if o.reset_stable_price {
        reset(m, reset_to?, now);
    }
    opt!(m, o; delay_interval_seconds = stable_price_delay_interval_seconds_opt,
        delay_growth_limit = stable_price_delay_growth_limit_opt, stable_growth_limit = stable_price_growth_limit_opt);
    if o.reset_net_borrow_limit {
        b.net_borrows_in_window = 0;
        b.last_net_borrows_window_start_ts = 0;
    }
    if let Some(n) = &o.name_opt {
        b.name = text(n)?;
    }
    if let Some(n) = &o.tier_opt {
        b.tier = text(n)?;
    }
    if let Some(x) = o.force_close_opt {
        if x && b.reduce_only == 0 {
            return None;
        }
        b.force_close = u8::from(x);
    }
    if let Some(x) = o.disable_asset_liquidation_opt {
        b.disable_asset_liquidation = u8::from(x);
    }
    if let Some(x) = o.force_withdraw_opt {
        b.force_withdraw = u8::from(x);
    }
    if let Some(x) = o.interest_curve_scaling_opt {
        b.interest_curve_scaling = x.into();
    }
    if o.maint_weight_shift_abort {
        let (a, l) = shifted(&b, now);
        b.maint_asset_weight = I80F48::from_num(a);
        b.maint_liab_weight = I80F48::from_num(l);
        b.maint_weight_shift_start = 0;
        b.maint_weight_shift_end = 0;
        b.maint_weight_shift_duration_inv = I80F48::ZERO;
        b.maint_weight_shift_asset_target = I80F48::ZERO;
        b.maint_weight_shift_liab_target = I80F48::ZERO;
    }
    opt!(b, o; maint_weight_shift_start = maint_weight_shift_start_opt, maint_weight_shift_end = maint_weight_shift_end_opt);
    fix!(b, o; maint_weight_shift_asset_target = maint_weight_shift_asset_target_opt, maint_weight_shift_liab_target = maint_weight_shift_liab_target_opt);
    if o.maint_weight_shift_start_opt.is_some() || o.maint_weight_shift_end_opt.is_some() {
        let d = b.maint_weight_shift_end.saturating_sub(b.maint_weight_shift_start);
        b.maint_weight_shift_duration_inv = if d == 0 { I80F48::ZERO } else { I80F48::ONE / I80F48::from_num(d) };
    }
    Some(b)
}
/// only makes the token safer: what the security admin may do too
fn safer(o: &I::TokenEdit, b: &Bank) -> bool {
    let ro = o.reduce_only_opt.map_or(true, |r| r != 0 && !(r == 2 && b.reduce_only == 1));
    let zero = |x: Option<f32>| x.map_or(true, |x| x == 0.0);
    ro && zero(o.init_asset_weight_opt)
        && zero(o.platform_liquidation_fee_opt)
        && zero(o.collateral_fee_per_day_opt)
        && o.oracle_opt.is_none()
        && o.oracle_config_opt.is_none()
        && o.group_insurance_fund_opt.is_none()
        && o.interest_rate_params_opt.is_none()
        && o.loan_fee_rate_opt.is_none()
        && o.loan_origination_fee_rate_opt.is_none()
        && o.maint_asset_weight_opt.is_none()
        && o.maint_liab_weight_opt.is_none()
        && o.init_liab_weight_opt.is_none()
        && o.liquidation_fee_opt.is_none()
        && o.stable_price_delay_interval_seconds_opt.is_none()
        && o.stable_price_delay_growth_limit_opt.is_none()
        && o.stable_price_growth_limit_opt.is_none()
        && o.min_vault_to_deposits_ratio_opt.is_none()
        && o.net_borrow_limit_per_window_quote_opt.is_none()
        && o.net_borrow_limit_window_size_ts_opt.is_none()
        && o.borrow_weight_scale_start_quote_opt.is_none()
        && o.deposit_weight_scale_start_quote_opt.is_none()
        && !o.reset_stable_price
        && !o.reset_net_borrow_limit
        && o.name_opt.is_none()
        && o.tier_opt.is_none()
        && o.force_close_opt.is_none()
        && o.token_conditional_swap_taker_fee_rate_opt.is_none()
        && o.token_conditional_swap_maker_fee_rate_opt.is_none()
        && o.flash_loan_swap_fee_rate_opt.is_none()
        && o.interest_curve_scaling_opt.is_none()
        && o.interest_target_utilization_opt.is_none()
        && o.maint_weight_shift_start_opt.is_none()
        && o.maint_weight_shift_end_opt.is_none()
        && o.maint_weight_shift_asset_target_opt.is_none()
        && o.maint_weight_shift_liab_target_opt.is_none()
        && !o.set_fallback_oracle
        && o.deposit_limit_opt.is_none()
        && o.zero_util_rate_opt.is_none()
        && o.disable_asset_liquidation_opt.is_none()
        && o.force_withdraw_opt.is_none()
}
fn edited_perp(p: &PerpMarket, o: &I::PerpEditMarket, now: u64, reset_to: Option<f64>) -> Option<PerpMarket> {
    let mut p = *p;
    opt!(p, o; oracle = oracle_opt, base_decimals = base_decimals_opt, impact_quantity = impact_quantity_opt,
        fee_penalty = fee_penalty_opt, settle_fee_flat = settle_fee_flat_opt,
        settle_fee_amount_threshold = settle_fee_amount_threshold_opt,
        settle_fee_fraction_low_health = settle_fee_fraction_low_health_opt,
        settle_pnl_limit_factor = settle_pnl_limit_factor_opt,
        settle_pnl_limit_window_size_ts = settle_pnl_limit_window_size_ts_opt);
    fix!(p, o; maint_base_asset_weight = maint_base_asset_weight_opt, init_base_asset_weight = init_base_asset_weight_opt,
        maint_base_liab_weight = maint_base_liab_weight_opt, init_base_liab_weight = init_base_liab_weight_opt,
        maint_overall_asset_weight = maint_overall_asset_weight_opt, init_overall_asset_weight = init_overall_asset_weight_opt,
        base_liquidation_fee = base_liquidation_fee_opt, maker_fee = maker_fee_opt, taker_fee = taker_fee_opt,
        min_funding = min_funding_opt, max_funding = max_funding_opt,
        positive_pnl_liquidation_fee = positive_pnl_liquidation_fee_opt, platform_liquidation_fee = platform_liquidation_fee_opt);
    if let Some(c) = &o.oracle_config_opt {
        p.oracle_config = oc(c);
    }
    if let Some(x) = o.group_insurance_fund_opt {
        p.group_insurance_fund = u8::from(x);
    }
    if let Some(x) = o.reduce_only_opt {
        p.reduce_only = u8::from(x);
    }
    if let Some(n) = &o.name_opt {
        p.name = text(n)?;
    }
    if let Some(x) = o.force_close_opt {
        if x && p.reduce_only == 0 {
            return None;
        }
        p.force_close = u8::from(x);
    }
    let m = &mut p.stable_price_model;
    if o.reset_stable_price {
        reset(m, reset_to?, now);
    }
    opt!(m, o; delay_interval_seconds = stable_price_delay_interval_seconds_opt,
        delay_growth_limit = stable_price_delay_growth_limit_opt, stable_growth_limit = stable_price_growth_limit_opt);
    Some(p)
}
fn safer_perp(o: &I::PerpEditMarket) -> bool {
    o.reduce_only_opt != Some(false)
        && o.init_overall_asset_weight_opt.map_or(true, |x| x == 0.0)
        && o.oracle_opt.is_none()
        && o.oracle_config_opt.is_none()
        && o.base_decimals_opt.is_none()
        && o.maint_base_asset_weight_opt.is_none()
        && o.init_base_asset_weight_opt.is_none()
        && o.maint_base_liab_weight_opt.is_none()
        && o.init_base_liab_weight_opt.is_none()
        && o.maint_overall_asset_weight_opt.is_none()
        && o.base_liquidation_fee_opt.is_none()
        && o.maker_fee_opt.is_none()
        && o.taker_fee_opt.is_none()
        && o.min_funding_opt.is_none()
        && o.max_funding_opt.is_none()
        && o.impact_quantity_opt.is_none()
        && o.group_insurance_fund_opt.is_none()
        && o.fee_penalty_opt.is_none()
        && o.settle_fee_flat_opt.is_none()
        && o.settle_fee_amount_threshold_opt.is_none()
        && o.settle_fee_fraction_low_health_opt.is_none()
        && o.stable_price_delay_interval_seconds_opt.is_none()
        && o.stable_price_delay_growth_limit_opt.is_none()
        && o.stable_price_growth_limit_opt.is_none()
        && o.settle_pnl_limit_factor_opt.is_none()
        && o.settle_pnl_limit_window_size_ts_opt.is_none()
        && !o.reset_stable_price
        && o.positive_pnl_liquidation_fee_opt.is_none()
        && o.name_opt.is_none()
        && o.force_close_opt.is_none()
        && o.platform_liquidation_fee_opt.is_none()
}

#[derive(Default)]
pub struct Config {
    /// listings by a week of a group
    listed: HashMap<(Pubkey, u64), u64>,
}
const WEEK: u64 = 7 * 24 * 3600;

fn same_bank(e: &Bank, b: &Bank, shifted_for: u64) -> Vec<Change> {
    // the weights of an aborted shift are only as exact as its arithmetic: a 48 bit fraction per second
    let tol = 1e-9 + shifted_for as f64 * 8e-15;
    let mut e = *e;
    for (x, y) in [(&mut e.maint_asset_weight, b.maint_asset_weight), (&mut e.maint_liab_weight, b.maint_liab_weight)] {
        if (*x - y).abs() < I80F48::from_num(tol) {
            *x = y;
        }
    }
    let mut v = vec![];
    bank_diff(&e, b, Pubkey::default(), &mut v);
    v
}

impl Config {
    fn oracle(&self, ix: &Ix, k: &Pubkey, cfg: &OracleConfig, dec: u8) -> Option<f64> {
        match oracle_price(ix.pre, k, cfg, dec, ix.now, ix.slot, false) {
            Price::Ok(p) => Some(p),
            _ => None,
        }
    }
    fn role(&self, ix: &Ix, out: &mut Out, limited: bool) {
        let (Some(g), Some(a)) = (ix.acc("group"), ix.acc("admin")) else { return };
        let Some(gr) = ix.pre.groups.get(&g) else { return };
        let listing = ["token_register_trustless", "serum3_register_market"].contains(&ix.name);
        let (who, may) = [
            ("admin", a == gr.admin, true),
            ("security", a == gr.security_admin, limited),
            ("listing", a == gr.fast_listing_admin, listing),
            ("stranger", true, false),
        ]
        .iter()
        .filter(|x| x.1)
        .max_by_key(|x| x.2)
        .map(|x| (x.0, x.2))
        .unwrap();
        let fine = ix.signed(&a) && may;
        out.count(&format!("{}-by-{who}", ix.name));
        if !fine {
            out.fail("C33", &format!("role:{}:{who}", ix.name), format!("{} by {who} {a} (signed: {}, only making it safer: {limited})", ix.name, ix.signed(&a)));
        }
    }
    fn token_edit(&mut self, ix: &Ix, out: &mut Out) {
        let Some(o) = args::<I::TokenEdit>(ix) else { return };
        let Some(mk) = ix.acc("mint_info") else { return };
        let (Some(m), Some(m1)) = (ix.pre.mints.get(&mk), ix.post.mints.get(&mk)) else { return };
        let g = ix.acc("group").unwrap();
        if m.group != g {
            out.fail("C33", "edit-other-group", format!("{mk} of {} edited for {g}", m.group));
        }
        let fb = ix.acc("fallback_oracle").unwrap_or_default();
        let mut strict = true;
        for (n, k) in m.banks().iter().enumerate() {
            let (b, b1) = (&ix.pre.banks[k], &ix.post.banks[k]);
            let or = o.oracle_opt.unwrap_or(b.oracle);
            let cfg = o.oracle_config_opt.as_ref().map_or(b.oracle_config, oc);
            let price = if o.reset_stable_price { self.oracle(ix, &or, &cfg, b.mint_decimals) } else { None };
            if o.reset_stable_price && ix.acc("oracle") != Some(or) {
                out.fail("C33", "reset-by-other-oracle", format!("{k}: {:?} instead of {or}", ix.acc("oracle")));
            }
            strict &= safer(&o, b);
            let Some(e) = edited(b, &o, ix.now, price, fb) else {
                if o.reset_stable_price && price.is_none() && !ix.pre.stubs.contains_key(&or) {
                    out.count("unknown-oracle");
                    continue;
                }
                out.fail("C33", "impossible-edit", format!("bank {n} of token {}: accepted", m.token_index));
                continue;
            };
            let d = same_bank(&e, b1, if o.maint_weight_shift_abort { ix.now.saturating_sub(b.maint_weight_shift_start) } else { 0 });
            let mut named = vec![];
            bank_diff(b, b1, *k, &mut named);
            out.eval("bank-edited", (n, named.iter().map(|c| c.what).collect::<Vec<_>>()), || {
                format!("token {} bank {n}: {:?}", m.token_index, named.iter().map(|c| c.what).collect::<Vec<_>>())
            });
            for c in d {
                out.fail("C33", &format!("token-edit:{:?}", c.what), format!("token {} bank {n} {k}: {:?} is not what the edit asked for", m.token_index, c.what));
            }
            for r in violated(b1) {
                out.fail("C33", &format!("relation:{r}"), format!("token {} bank {n} {k} after an edit: {r}", m.token_index));
            }
        }
        let mut e = **m;
        if let Some(x) = o.oracle_opt {
            e.oracle = x;
        }
        if o.set_fallback_oracle {
            e.fallback_oracle = fb;
        }
        if let Some(x) = o.group_insurance_fund_opt {
            e.group_insurance_fund = u8::from(x);
        }
        if bytemuck::bytes_of(&e) != bytemuck::bytes_of(&**m1) {
            out.fail("C33", "token-edit:mint-info", format!("token {}: mint info is not what the edit asked for", m.token_index));
        }
        self.role(ix, out, strict);
    }
    fn perp_edit(&mut self, ix: &Ix, out: &mut Out) {
        let Some(o) = args::<I::PerpEditMarket>(ix) else { return };
        let Some(k) = ix.acc("perp_market") else { return };
        let (Some(p), Some(p1)) = (ix.pre.perps.get(&k), ix.post.perps.get(&k)) else { return };
        if Some(p.group) != ix.acc("group") {
            out.fail("C33", "edit-other-group", format!("{k} of {} edited", p.group));
        }
        let or = o.oracle_opt.unwrap_or(p.oracle);
        let cfg = o.oracle_config_opt.as_ref().map_or(p.oracle_config, oc);
        let dec = p.base_decimals;
        let price = if o.reset_stable_price { self.oracle(ix, &or, &cfg, dec) } else { None };
        if o.reset_stable_price && ix.acc("oracle") != Some(or) {
            out.fail("C33", "reset-by-other-oracle", format!("{k}: {:?} instead of {or}", ix.acc("oracle")));
        }
        let mut named = vec![];
        perp_diff(p, p1, k, &mut named);
        out.eval("market-edited", named.iter().map(|c| c.what).collect::<Vec<_>>(), || format!("{:?}", named.iter().map(|c| c.what).collect::<Vec<_>>()));
        match edited_perp(p, &o, ix.now, price) {
            Some(e) => {
                let mut d = vec![];
                perp_diff(&e, p1, k, &mut d);
                for c in d {
                    out.fail("C33", &format!("perp-edit:{:?}", c.what), format!("market {}: {:?} is not what the edit asked for", p.perp_market_index, c.what));
                }
            }
            None if o.reset_stable_price && price.is_none() && !ix.pre.stubs.contains_key(&or) => out.count("unknown-oracle"),
            None => out.fail("C33", "impossible-edit", format!("market {}: accepted", p.perp_market_index)),
        }
        if p1.init_base_asset_weight < 0 && o.init_base_asset_weight_opt.is_some() {
            out.fail("C33", "relation:negative-weight", format!("market {}", p.perp_market_index));
        }
        self.role(ix, out, safer_perp(&o));
    }
    fn group_edit(&mut self, ix: &Ix, out: &mut Out) {
        let Some(o) = args::<I::GroupEdit>(ix) else { return };
        let Some(k) = ix.acc("group") else { return };
        let (Some(g), Some(g1)) = (ix.pre.groups.get(&k), ix.post.groups.get(&k)) else { return };
        let mut e = **g;
        opt!(e, o; admin = admin_opt, fast_listing_admin = fast_listing_admin_opt, security_admin = security_admin_opt,
            testing = testing_opt, version = version_opt, deposit_limit_quote = deposit_limit_quote_opt,
            buyback_fees_mngo_bonus_factor = buyback_fees_bonus_factor_opt,
            buyback_fees_swap_mango_account = buyback_fees_swap_mango_account_opt, mngo_token_index = mngo_token_index_opt,
            buyback_fees_expiry_interval = buyback_fees_expiry_interval_opt,
            allowed_fast_listings_per_interval = allowed_fast_listings_per_interval_opt,
            collateral_fee_interval = collateral_fee_interval_opt);
        if let Some(x) = o.buyback_fees_opt {
            e.buyback_fees = u8::from(x);
        }
        let mut d = vec![];
        group_diff(&e, g1, k, &mut d);
        let mut named = vec![];
        group_diff(g, g1, k, &mut named);
        out.eval("group-edited", named.iter().map(|c| c.what).collect::<Vec<_>>(), || format!("{:?}", named.iter().map(|c| c.what).collect::<Vec<_>>()));
        for c in d {
            out.fail("C33", &format!("group-edit:{:?}", c.what), format!("{:?} is not what the edit asked for", c.what));
        }
        if g1.admin == Pubkey::default() {
            out.fail("C33", "relation:no-admin", format!("group {k} has no admin left"));
        }
        self.role(ix, out, false);
    }
    fn gate(&mut self, ix: &Ix, out: &mut Out) {
        let Some(k) = ix.acc("group") else { return };
        let (Some(g), Some(g1)) = (ix.pre.groups.get(&k), ix.post.groups.get(&k)) else { return };
        let n = ix.args().u128();
        out.eval("gate", (g.ix_gate, n), || format!("{:#x} -> {n:#x}", g.ix_gate));
        if g1.ix_gate != n {
            out.fail("C33", "gate", format!("{:#x} asked for, {:#x} set", n, g1.ix_gate));
        }
        self.role(ix, out, g.ix_gate & !n == 0);
    }
    fn fresh(&self, b: &Bank, like: Option<&Bank>, out: &mut Out, name: &str) {
        let z = I80F48::ZERO;
        if b.indexed_deposits != z
            || b.indexed_borrows != z
            || b.dust != z
            || b.collected_fees_native != z
            || b.collected_liquidation_fees != z
            || b.collected_collateral_fees != z
            || b.fees_withdrawn != 0
            || b.net_borrows_in_window != 0
            || b.potential_serum_tokens != 0
            || b.flash_loan_token_account_initial != u64::MAX
            || b.flash_loan_approved_amount != 0
        {
            out.fail("C33", &format!("not-fresh:{name}"), format!("a new bank of token {} starts with amounts", b.token_index));
        }
        // a finished weight shift may leave the weights out of order, which a copy inherits
        let old = like.map_or(vec![], violated);
        for r in violated(b).into_iter().filter(|r| !old.contains(r)) {
            out.fail("C33", &format!("relation:{r}"), format!("new bank of token {}: {r}", b.token_index));
        }
    }
    fn register(&mut self, ix: &Ix, out: &mut Out) {
        let (Some(k), Some(mk)) = (ix.acc("bank"), ix.acc("mint_info")) else { return };
        let (Some(b), Some(m)) = (ix.post.banks.get(&k), ix.post.mints.get(&mk)) else { return };
        let key = |n: &str| ix.acc(n).unwrap_or_default();
        let trustless = ix.name == "token_register_trustless";
        let (index, name) = if trustless {
            let Some(a) = args::<I::TokenRegisterTrustless>(ix) else { return };
            (a.token_index, a.name)
        } else {
            let Some(a) = args::<I::TokenRegister>(ix) else { return };
            (a.token_index, a.name)
        };
        let ids = b.group == key("group")
            && b.mint == key("mint")
            && b.vault == key("vault")
            && b.oracle == key("oracle")
            && b.fallback_oracle == key("fallback_oracle")
            && b.token_index == index
            && b.bank_num == 0
            && text(&name) == Some(b.name)
            && m.group == b.group
            && m.token_index == index
            && m.mint == b.mint
            && m.oracle == b.oracle
            && m.fallback_oracle == b.fallback_oracle
            && m.banks[0] == k
            && m.vaults[0] == b.vault
            && m.banks[1..].iter().chain(&m.vaults[1..]).all(|x| *x == Pubkey::default());
        let idx = b.deposit_index == b.borrow_index && b.deposit_index == 1_000_000;
        if !ids || !idx || index == u16::MAX {
            out.fail("C33", &format!("register:{}", ix.name), format!("token {index}: identity wrong or indexes {} {}", b.deposit_index, b.borrow_index));
        }
        if let Some(t) = ix.post.tokens.get(&b.vault) {
            if t.mint != b.mint || t.owner != b.group {
                out.fail("C33", "register:vault", format!("token {index}: the vault holds {} for {}", t.mint, t.owner));
            }
        }
        self.fresh(b, None, out, ix.name);
        let price = self.oracle(ix, &b.oracle, &b.oracle_config, b.mint_decimals);
        self.stable(ix, out, &b.stable_price_model, price, ix.pre.stubs.contains_key(&b.oracle));
        out.eval(ix.name, (index, b.maint_asset_weight.to_bits()), || format!("token {index} {name}"));
        if trustless {
            let z = I80F48::ZERO;
            if b.maint_asset_weight != z
                || b.init_asset_weight != z
                || b.maint_weight_shift_asset_target != z
                || b.maint_weight_shift_duration_inv != z
                || b.disable_asset_liquidation == 0
                || !(b.reduce_only == 1 || b.reduce_only == 2)
                || index == 0
                || m.group_insurance_fund != 0
            {
                out.fail("C33", "listing-with-value", format!("token {index} listed without trust counts as collateral or may be borrowed"));
            }
            let gk = key("group");
            let (g, g1) = (&ix.pre.groups[&gk], &ix.post.groups[&gk]);
            let n = self.listed.entry((gk, ix.now / WEEK)).or_default();
            *n += 1;
            out.eval("listing", (*n, g.allowed_fast_listings_per_interval), || format!("listing {n} this week of at most {}", g.allowed_fast_listings_per_interval));
            if *n > g.allowed_fast_listings_per_interval as u64 {
                out.fail("C33", "too-many-listings", format!("listing {n} in week {} where {} are allowed", ix.now / WEEK, g.allowed_fast_listings_per_interval));
            }
            if g1.fast_listings_in_interval as u64 != *n || g1.fast_listing_interval_start != ix.now / WEEK * WEEK {
                out.fail("C33", "listing-count", format!("{n} this week, recorded {} since {}", g1.fast_listings_in_interval, g1.fast_listing_interval_start));
            }
            self.role(ix, out, false);
        } else if let Some(a) = args::<I::TokenRegister>(ix) {
            let n = |x: f32| I80F48::from_num(x);
            let r = &a.interest_rate_params;
            let mut e = **b;
            e.oracle_config = oc(&a.oracle_config);
            e.util0 = n(r.util0);
            e.rate0 = n(r.rate0);
            e.util1 = n(r.util1);
            e.rate1 = n(r.rate1);
            e.max_rate = n(r.max_rate);
            e.adjustment_factor = n(r.adjustment_factor);
            e.loan_fee_rate = n(a.loan_fee_rate);
            e.loan_origination_fee_rate = n(a.loan_origination_fee_rate);
            e.maint_asset_weight = n(a.maint_asset_weight);
            e.init_asset_weight = n(a.init_asset_weight);
            e.maint_liab_weight = n(a.maint_liab_weight);
            e.init_liab_weight = n(a.init_liab_weight);
            e.liquidation_fee = n(a.liquidation_fee);
            e.platform_liquidation_fee = n(a.platform_liquidation_fee);
            e.zero_util_rate = n(a.zero_util_rate);
            e.stable_price_model.delay_interval_seconds = a.stable_price_delay_interval_seconds;
            e.stable_price_model.delay_growth_limit = a.stable_price_delay_growth_limit;
            e.stable_price_model.stable_growth_limit = a.stable_price_growth_limit;
            e.min_vault_to_deposits_ratio = a.min_vault_to_deposits_ratio;
            e.net_borrow_limit_window_size_ts = a.net_borrow_limit_window_size_ts;
            e.net_borrow_limit_per_window_quote = a.net_borrow_limit_per_window_quote;
            e.borrow_weight_scale_start_quote = a.borrow_weight_scale_start_quote;
            e.deposit_weight_scale_start_quote = a.deposit_weight_scale_start_quote;
            e.reduce_only = a.reduce_only;
            e.token_conditional_swap_taker_fee_rate = a.token_conditional_swap_taker_fee_rate;
            e.token_conditional_swap_maker_fee_rate = a.token_conditional_swap_maker_fee_rate;
            e.flash_loan_swap_fee_rate = a.flash_loan_swap_fee_rate;
            e.interest_curve_scaling = a.interest_curve_scaling as f64;
            e.interest_target_utilization = a.interest_target_utilization;
            e.deposit_limit = a.deposit_limit;
            e.disable_asset_liquidation = u8::from(a.disable_asset_liquidation);
            e.collateral_fee_per_day = a.collateral_fee_per_day;
            e.tier = text(&a.tier).unwrap_or([255; 4]);
            e.force_close = 0;
            e.force_withdraw = 0;
            e.avg_utilization = I80F48::ZERO;
            e.index_last_updated = ix.now;
            e.bank_rate_last_updated = ix.now;
            e.maint_weight_shift_start = 0;
            e.maint_weight_shift_end = 0;
            e.maint_weight_shift_duration_inv = I80F48::ZERO;
            let mut d = vec![];
            bank_diff(&e, b, k, &mut d);
            for c in d {
                out.fail("C33", &format!("register:{:?}", c.what), format!("token {index}: {:?} is not what was asked for", c.what));
            }
            if (m.group_insurance_fund != 0) != a.group_insurance_fund {
                out.fail("C33", "register:insurance", format!("token {index}: insured {} asked {}", m.group_insurance_fund, a.group_insurance_fund));
            }
            self.role(ix, out, false);
        }
    }
    fn stable(&self, ix: &Ix, out: &mut Out, m: &StablePriceModel, price: Option<f64>, known: bool) {
        if !known {
            return;
        }
        let mut e = *m;
        match price {
            Some(p) => reset(&mut e, p, ix.now),
            None => e.reset_on_nonzero_price = 1,
        }
        if bytemuck::bytes_of(&e) != bytemuck::bytes_of(m) {
            out.fail("C33", &format!("stable-price:{}", ix.name), format!("starts at {} where the oracle says {price:?}", m.stable_price));
        }
    }
    fn add_bank(&mut self, ix: &Ix, out: &mut Out) {
        let (Some(k), Some(mk), Some(x)) = (ix.acc("bank"), ix.acc("mint_info"), ix.acc("existing_bank")) else { return };
        let (Some(b), Some(m), Some(old), Some(m1)) = (ix.post.banks.get(&k), ix.pre.mints.get(&mk), ix.pre.banks.get(&x), ix.post.mints.get(&mk)) else {
            return;
        };
        self.fresh(b, Some(old), out, ix.name);
        let n = m.banks().len();
        let z = I80F48::ZERO;
        let mut e = **old;
        e.vault = ix.acc("vault").unwrap_or_default();
        e.bank_num = n as u32;
        e.bump = b.bump;
        e.indexed_deposits = z;
        e.indexed_borrows = z;
        e.collected_fees_native = z;
        e.collected_liquidation_fees = z;
        e.collected_collateral_fees = z;
        e.fees_withdrawn = 0;
        e.dust = z;
        e.flash_loan_approved_amount = 0;
        e.flash_loan_token_account_initial = u64::MAX;
        e.net_borrows_in_window = 0;
        e.potential_serum_tokens = 0;
        let mut d = vec![];
        bank_diff(&e, b, k, &mut d);
        out.eval("bank-added", (n, old.bank_num, old.reduce_only), || format!("bank {n} of token {} like bank {}", old.token_index, old.bank_num));
        for c in d {
            out.fail("C33", &format!("add-bank:{:?}", c.what), format!("bank {n} of token {}: {:?} differs from the other banks", old.token_index, c.what));
        }
        let mut em = **m;
        em.banks[n] = k;
        em.vaults[n] = e.vault;
        if bytemuck::bytes_of(&em) != bytemuck::bytes_of(&**m1) || old.token_index != m.token_index || old.group != m.group {
            out.fail("C33", "add-bank:mint-info", format!("bank {n} of token {}", old.token_index));
        }
        self.role(ix, out, false);
    }
    fn serum_edit(&mut self, ix: &Ix, out: &mut Out) {
        let Some(o) = args::<I::Serum3EditMarket>(ix) else { return };
        let Some(k) = ix.acc("market") else { return };
        let (Some(p), Some(p1)) = (ix.pre.serum.get(&k), ix.post.serum.get(&k)) else { return };
        let mut e = **p;
        opt!(e, o; oracle_price_band = oracle_price_band_opt);
        let mut fits = true;
        if let Some(x) = o.reduce_only_opt {
            e.reduce_only = u8::from(x);
        }
        if let Some(x) = o.force_close_opt {
            fits &= !x || e.reduce_only != 0;
            e.force_close = u8::from(x);
        }
        if let Some(n) = &o.name_opt {
            match text(n) {
                Some(n) => e.name = n,
                None => fits = false,
            }
        }
        let what = (o.reduce_only_opt, o.force_close_opt, o.name_opt.is_some(), o.oracle_price_band_opt.map(|x| x.to_bits()));
        out.eval("spot-market-edited", what, || format!("market {}: {what:?}", p.market_index));
        if !fits {
            out.fail("C33", "impossible-edit", format!("spot market {}: {what:?}", p.market_index));
        } else if bytemuck::bytes_of(&e) != bytemuck::bytes_of(&**p1) {
            out.fail("C33", "serum-edit", format!("spot market {}: not what the edit asked for: {what:?}", p.market_index));
        }
        if Some(p.group) != ix.acc("group") {
            out.fail("C33", "edit-other-group", format!("{k} of {} edited", p.group));
        }
        self.role(
            ix,
            out,
            o.reduce_only_opt != Some(false) && o.force_close_opt.is_none() && o.name_opt.is_none() && o.oracle_price_band_opt.is_none(),
        );
    }
    fn serum_register(&mut self, ix: &Ix, out: &mut Out) {
        let Some(a) = args::<I::Serum3RegisterMarket>(ix) else { return };
        let Some(k) = ix.acc("serum_market") else { return };
        let Some(p) = ix.post.serum.get(&k) else { return };
        let key = |n: &str| ix.acc(n).unwrap_or_default();
        let (Some(b), Some(q)) = (ix.pre.banks.get(&key("base_bank")), ix.pre.banks.get(&key("quote_bank"))) else { return };
        let fine = p.group == key("group")
            && b.group == p.group
            && q.group == p.group
            && p.market_index == a.market_index
            && p.base_token_index == b.token_index
            && p.quote_token_index == q.token_index
            && p.serum_program == key("serum_program")
            && p.serum_market_external == key("serum_market_external")
            && p.reduce_only == 0
            && p.force_close == 0
            && p.registration_time == ix.now
            && p.oracle_price_band == a.oracle_price_band
            && text(&a.name) == Some(p.name);
        out.eval("spot-market-listed", (p.market_index, p.oracle_price_band.to_bits()), || format!("market {} band {}", p.market_index, p.oracle_price_band));
        if !fine {
            out.fail("C33", "serum-register", format!("spot market {} is not what was asked for", p.market_index));
        }
        // a market lists the mints of its banks
        if let Some(m) = ix.rec.pre(&p.serum_market_external) {
            let mint = |o: usize| m.data.get(o..o + 32).map(|x| Pubkey::new_from_array(x.try_into().unwrap()));
            // 5 bytes of padding, then flags, own address, signer nonce, the two mints
            if mint(5 + 48) != Some(b.mint) || mint(5 + 80) != Some(q.mint) {
                out.fail("C33", "serum-register-mints", format!("spot market {}: {:?} and {:?} listed as {} and {}", p.market_index, mint(53), mint(85), b.mint, q.mint));
            }
        }
        let g = ix.pre.groups.get(&p.group);
        if g.map_or(false, |g| key("admin") == g.fast_listing_admin && g.fast_listing_admin != g.admin) {
            let worthless = (b.reduce_only == 1 || b.reduce_only == 2) && b.maint_asset_weight == 0;
            let unlimited = q.deposit_weight_scale_start_quote == f64::MAX && q.deposit_limit == 0;
            let band = if worthless && unlimited { 19.0 } else { 1.0 };
            out.eval("fast-band", (worthless, unlimited), || format!("base worthless {worthless}, quote unlimited {unlimited}: {}", p.oracle_price_band));
            if p.oracle_price_band != band {
                out.fail("C33", "fast-band", format!("spot market {} with band {} where {band} is fixed", p.market_index, p.oracle_price_band));
            }
        }
        self.role(ix, out, false);
    }
    fn create_perp(&mut self, ix: &Ix, out: &mut Out) {
        let Some(a) = args::<I::PerpCreateMarket>(ix) else { return };
        let Some(k) = ix.acc("perp_market") else { return };
        let Some(p) = ix.post.perps.get(&k) else { return };
        let n = |x: f32| I80F48::from_num(x);
        let key = |n: &str| ix.acc(n).unwrap_or_default();
        let mut e = **p;
        e.group = key("group");
        e.settle_token_index = a.settle_token_index;
        e.perp_market_index = a.perp_market_index;
        e.group_insurance_fund = u8::from(a.group_insurance_fund);
        e.base_decimals = a.base_decimals;
        e.name = text(&a.name).unwrap_or([255; 16]);
        e.bids = key("bids");
        e.asks = key("asks");
        e.event_queue = key("event_queue");
        e.oracle = key("oracle");
        e.oracle_config = oc(&a.oracle_config);
        e.quote_lot_size = a.quote_lot_size;
        e.base_lot_size = a.base_lot_size;
        e.maint_base_asset_weight = n(a.maint_base_asset_weight);
        e.init_base_asset_weight = n(a.init_base_asset_weight);
        e.maint_base_liab_weight = n(a.maint_base_liab_weight);
        e.init_base_liab_weight = n(a.init_base_liab_weight);
        e.maint_overall_asset_weight = n(a.maint_overall_asset_weight);
        e.init_overall_asset_weight = n(a.init_overall_asset_weight);
        e.open_interest = 0;
        e.seq_num = 0;
        e.registration_time = ix.now;
        e.min_funding = n(a.min_funding);
        e.max_funding = n(a.max_funding);
        e.impact_quantity = a.impact_quantity;
        e.long_funding = I80F48::ZERO;
        e.short_funding = I80F48::ZERO;
        e.funding_last_updated = ix.now;
        e.base_liquidation_fee = n(a.base_liquidation_fee);
        e.maker_fee = n(a.maker_fee);
        e.taker_fee = n(a.taker_fee);
        e.fees_accrued = I80F48::ZERO;
        e.fees_settled = I80F48::ZERO;
        e.fee_penalty = a.fee_penalty;
        e.settle_fee_flat = a.settle_fee_flat;
        e.settle_fee_amount_threshold = a.settle_fee_amount_threshold;
        e.settle_fee_fraction_low_health = a.settle_fee_fraction_low_health;
        e.settle_pnl_limit_factor = a.settle_pnl_limit_factor;
        e.settle_pnl_limit_window_size_ts = a.settle_pnl_limit_window_size_ts;
        e.reduce_only = 0;
        e.force_close = 0;
        e.positive_pnl_liquidation_fee = n(a.positive_pnl_liquidation_fee);
        e.fees_withdrawn = 0;
        e.platform_liquidation_fee = n(a.platform_liquidation_fee);
        e.accrued_liquidation_fees = I80F48::ZERO;
        let mut d = vec![];
        perp_diff(&e, p, k, &mut d);
        out.eval("market-created", (a.perp_market_index, a.base_lot_size), || format!("market {} {}", a.perp_market_index, a.name));
        for c in d {
            out.fail("C33", &format!("perp-create:{:?}", c.what), format!("market {}: {:?} is not what was asked for", a.perp_market_index, c.what));
        }
        let price = self.oracle(ix, &p.oracle, &p.oracle_config, p.base_decimals);
        self.stable(ix, out, &p.stable_price_model, price, ix.pre.stubs.contains_key(&p.oracle));
        self.role(ix, out, false);
    }
}

impl Monitor for Config {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        match ix.name {
            "token_edit" => self.token_edit(ix, out),
            "perp_edit_market" => self.perp_edit(ix, out),
            "group_edit" => self.group_edit(ix, out),
            "ix_gate_set" => self.gate(ix, out),
            "token_register" | "token_register_trustless" => self.register(ix, out),
            "token_add_bank" => self.add_bank(ix, out),
            "perp_create_market" => self.create_perp(ix, out),
            "serum3_edit_market" => self.serum_edit(ix, out),
            "serum3_register_market" => self.serum_register(ix, out),
            _ => {
                // nothing else changes a token's or market's settings; C04 covers the rest
            }
        }
    }
    /// the security admin can make things safer
    fn failed(&mut self, t: &Tx, out: &mut Out) {
        if t.rec.ixs.len() != 1 {
            return;
        }
        let i = &t.rec.ixs[0];
        if i.program_id != mango_v4::id() {
            return;
        }
        let Some(abi) = super::ix_abi(&i.data) else { return };
        if !["token_edit", "perp_edit_market"].contains(&abi.name) {
            return;
        }
        let at = |n: &str| abi.accounts.iter().position(|a| *a == n).and_then(|p| i.accounts.get(p));
        let (Some(g), Some(a)) = (at("group"), at("admin")) else { return };
        let Some(gr) = t.pre.groups.get(&g.pubkey) else { return };
        // refused for what it asks rather than for how it is put
        if a.pubkey != gr.security_admin || !a.is_signer || t.rec.custom_error().map_or(true, |c| c < 6000) {
            return;
        }
        let d = match abi.name {
            "token_edit" => {
                let Ok(o) = I::TokenEdit::deserialize(&mut &i.data[8..]) else { return };
                let Some(mk) = at("mint_info").filter(|m| m.is_writable) else { return };
                let Some(m) = t.pre.mints.get(&mk.pubkey) else { return };
                let rest: Vec<Pubkey> = i.accounts[abi.accounts.len()..].iter().map(|m| m.pubkey).collect();
                if rest != m.banks() || i.accounts[abi.accounts.len()..].iter().any(|m| !m.is_writable) || m.group != g.pubkey {
                    return;
                }
                let banks: Vec<&Bank> = m.banks().iter().map(|k| &*t.pre.banks[k]).collect();
                if banks.iter().any(|b| !safer(&o, b)) {
                    return;
                }
                // the result has to be valid, and the weights fixed by an abort are an edge of their own
                if o.maint_weight_shift_abort || !edited(banks[0], &o, t.now, None, Pubkey::default()).map_or(false, |e| violated(&e).is_empty()) {
                    return;
                }
                format!("token {} {:?} {:?} {:?}", m.token_index, o.reduce_only_opt, o.init_asset_weight_opt, o.collateral_fee_per_day_opt)
            }
            _ => {
                let Ok(o) = I::PerpEditMarket::deserialize(&mut &i.data[8..]) else { return };
                let Some(p) = at("perp_market").filter(|m| m.is_writable).and_then(|m| t.pre.perps.get(&m.pubkey)) else { return };
                if p.group != g.pubkey || !safer_perp(&o) {
                    return;
                }
                format!("market {} {:?} {:?}", p.perp_market_index, o.reduce_only_opt, o.init_overall_asset_weight_opt)
            }
        };
        out.fail("C33", &format!("refused-safer:{}", abi.name), format!("{} by the security admin refused: {d}: {:?}", abi.name, t.rec.result.as_ref().err()));
    }
}
