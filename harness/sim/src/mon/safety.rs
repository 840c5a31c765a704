//! No action makes an account unsafe.
use super::*;
use crate::spec::*;
use crate::st::{MAcc, State};
use std::collections::BTreeMap;

/// instructions after which the program vouches for the health of the named account
const CHECKED: &[(&str, &str)] = &[
    ("token_withdraw", "account"),
    ("perp_place_order", "account"),
    ("perp_place_order_v2", "account"),
    ("perp_place_order_pegged", "account"),
    ("perp_place_order_pegged_v2", "account"),
    ("serum3_place_order", "account"),
    ("serum3_place_order_v2", "account"),
    ("flash_loan_end", "account"),
    ("flash_loan_end_v2", "account"),
    ("token_conditional_swap_start", "liqee"),
    ("token_conditional_swap_trigger", "liqee"),
    ("token_conditional_swap_trigger_v2", "liqee"),
];
/// instructions that only an owner uses and that add no risk
const HARMLESS: &[&str] = &[
    "account_edit", "account_expand", "account_expand_v2", "account_expand_v3",
    "account_size_migration", "account_toggle_freeze", "perp_cancel_order", "perp_cancel_order_by_client_order_id", "perp_cancel_all_orders",
    "perp_cancel_all_orders_by_side", "perp_deactivate_position", "serum3_create_open_orders", "serum3_close_open_orders",
    "serum3_cancel_order", "serum3_cancel_order_by_client_order_id", "serum3_cancel_all_orders", "token_conditional_swap_create",
    "token_conditional_swap_create_v2", "token_conditional_swap_create_v3", "token_conditional_swap_create_premium_auction",
    "token_conditional_swap_create_linear_auction", "token_conditional_swap_cancel", "sequence_check", "health_check",
    "compute_account_data", "health_region_begin",
];
/// instructions whose acting account must end with non-negative initial health
const STRICT: &[(&str, &str)] = &[
    ("token_liq_with_token", "liqor"),
    ("token_liq_bankruptcy", "liqor"),
    ("perp_liq_base_or_positive_pnl", "liqor"),
    ("perp_liq_negative_pnl_or_bankruptcy", "liqor"),
    ("perp_liq_negative_pnl_or_bankruptcy_v2", "liqor"),
    ("token_conditional_swap_trigger", "liqor"),
    ("token_conditional_swap_trigger_v2", "liqor"),
    ("token_force_close_borrows_with_token", "liqor"),
    ("perp_settle_fees", "account"),
];

pub fn banks_in(s: &State, keys: &[Pubkey]) -> BTreeMap<u16, Pubkey> {
    keys.iter().filter_map(|k| s.banks.get(k).map(|b| (b.token_index, *k))).collect()
}
fn first_banks(s: &State, keys: &[Pubkey]) -> BTreeMap<u16, Pubkey> {
    keys.iter().rev().filter_map(|k| s.banks.get(k).map(|b| (b.token_index, *k))).collect()
}
/// the health of all of an account's positions, through the given banks where there is a choice
pub fn full_health(s: &State, a: &MAcc, chosen: &BTreeMap<u16, Pubkey>, rem: &[Pubkey], now: u64, slot: u64) -> Option<Hc> {
    let mut m = BTreeMap::new();
    for t in a.active_tokens() {
        let k = match chosen.get(&t.token_index) {
            Some(k) => *k,
            None => *s.bank0(&a.fx.group, t.token_index)?.0,
        };
        m.insert(t.token_index, k);
    }
    let prov = |k: &Pubkey| rem.contains(k);
    health(s, a, &HcOpts { now, slot, bank_for: Some(&m), provided: Some(&prov), skipping: false })
}
/// what the instruction itself could see
fn seen_health(s: &State, a: &MAcc, chosen: &BTreeMap<u16, Pubkey>, rem: &[Pubkey], now: u64, slot: u64) -> Option<Hc> {
    let prov = |k: &Pubkey| rem.contains(k);
    health(s, a, &HcOpts { now, slot, bank_for: Some(chosen), provided: Some(&prov), skipping: true })
}
/// `pre`, but valued with the perp markets of `post`: their funding and stable prices move first
fn before(ix: &Ix) -> State {
    let mut s = ix.pre.clone();
    if ix.changed().iter().any(|k| ix.post.perps.contains_key(k)) {
        s.perps = ix.post.perps.clone();
    }
    s
}

/// the value of balances below one token that were dropped
fn dropped(a0: &MAcc, a1: &MAcc, h: &Hc) -> f64 {
    let gone = |i: u16| a1.tok(i).map_or(true, |t| t.indexed_position == 0);
    a0.active_tokens().filter(|t| t.indexed_position != 0 && gone(t.token_index)).filter_map(|t| h.tok(t.token_index)).map(|t| t.awp(HT::Init)).sum()
}

#[derive(Default)]
pub struct Safety {
    pub prop: &'static str,
}
impl Safety {
    /// is `post` acceptable after `pre`?
    fn judge(&self, ix: &Ix, what: &str, key: &Pubkey, pre: f64, post: f64, err: f64, strict: bool, out: &mut Out) {
        let kind = format!("{}-{what}", if post < 0.0 { "negative" } else { "positive" });
        out.eval(&kind, (ix.name, pre.to_bits(), post.to_bits()), || format!("{}: {pre:.3} -> {post:.3}", ix.name));
        let ok = if strict {
            post >= -err
        } else if post < -1000.0 {
            post >= -err || (post + err).ceil() >= (pre - err).ceil()
        } else {
            post >= -err || post >= pre - err
        };
        if post.abs() < 2.0 {
            out.count(&format!("edge:{what}"));
        }
        if !ok {
            if std::env::var_os("SIM_TRACE").is_some() {
                let m: Vec<_> = ix.rec.metas.iter().map(|m| m.pubkey).filter(|k| ix.pre.banks.contains_key(k)).map(|k| (k, ix.pre.banks[&k].token_index, ix.pre.banks[&k].bank_num)).collect();
                eprintln!("{what} {m:?} {:?}", &ix.rec.data[8..]);
            }
            out.fail(self.prop, &format!("{what}:{}", ix.name), format!("{} took {what} of {key} from {pre:.9} to {post:.9} (err {err:.3e})", ix.name));
        }
    }
}
impl Monitor for Safety {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        let rem: Vec<Pubkey> = ix.remaining().collect();
        if let Some((_, who)) = CHECKED.iter().find(|(n, _)| *n == ix.name) {
            let Some(k) = ix.acc(who) else { return };
            let Some(a0) = ix.pre.accounts.get(&k).cloned() else { return };
            let Some(a1) = ix.post.accounts.get(&k).cloned() else { return };
            if a0.fx.is_in_health_region() {
                out.count("in-region");
                return;
            }
            // the named banks are the ones whose totals moved
            let chosen = banks_in(ix.pre, &rem);
            let (mut best, mut any) = (None::<(f64, f64, f64)>, false);
            let s0 = before(ix);
            // an account marked as being liquidated must have recovered first
            if a0.fx.being_liquidated() {
                if let Some(h) = seen_health(&s0, &a0, &chosen, &rem, ix.now, ix.slot) {
                    let l = h.health(HT::LiqEnd);
                    out.eval("liquidated-acts", (ix.name, l.to_bits()), || format!("{} at liquidation end health {l:.4}", ix.name));
                    if l < -1.0 - h.err(HT::LiqEnd) {
                        // an order that is already expired, a swap that is cleaned up
                        let gone = |x: &MAcc, y: &MAcc| x.active_tcs().any(|t| t.expiry_timestamp <= ix.now && !y.active_tcs().any(|u| u.id == t.id));
                        let noop = same_positions(&a0, &a1) || ix.name.starts_with("token_conditional_swap_trigger") && gone(&a0, &a1);
                        if !noop {

                            out.fail(self.prop, &format!("liquidated:{}", ix.name), format!("{} for {k} while it is being liquidated at {l:.6} (init {:.6}, maint {:.6}, err {:.3e}, {} perps, bad {:?})", ix.name, h.health(HT::Init), h.health(HT::Maint), h.err(HT::LiqEnd), h.perps.len(), h.bad));
                        }
                    }
                }
            }
            // a token with several banks may be read through one and changed through another
            let named = named_over(ix, &chosen);
            let first = first_banks(ix.pre, &rem);
            for full in [true, false] {
                let val = |s: &State, a: &MAcc, m: &BTreeMap<u16, Pubkey>| {
                    if full { full_health(s, a, m, &rem, ix.now, ix.slot) } else { seen_health(s, a, m, &rem, ix.now, ix.slot) }
                };
                let pres: Vec<Hc> = [&chosen, &named, &first].into_iter().filter_map(|m| val(&s0, &a0, m)).collect();
                let posts: Vec<Hc> = [&chosen, &named, &first].into_iter().filter_map(|m| val(ix.post, &a1, m)).collect();
                for h0 in &pres {
                    for h1 in &posts {
                        any = true;
                        let v = (h0.health(HT::Init), h1.health(HT::Init), h0.err(HT::Init) + h1.err(HT::Init) + dropped(&a0, &a1, h0));
                        let gain = |v: &(f64, f64, f64)| (v.1 + v.2).max((v.1 - v.0 + v.2).min(0.0));
                        if best.map_or(true, |b| gain(&v) > gain(&b)) {
                            best = Some(v);
                        }
                        out.count(if full { "full" } else { "seen" });
                    }
                }
            }
            match best {
                Some((p, q, e)) => self.judge(ix, "initial health", &k, p, q, e, false, out),
                None if !any => out.count("not-computable"),
                None => {}
            }
        } else if ix.is(HARMLESS) {
            for k in ix.changed() {
                let (Some(a0), Some(a1)) = (ix.pre.accounts.get(&k), ix.post.accounts.get(&k)) else { continue };
                let chosen = BTreeMap::new();
                let s0 = before(ix);
                let (Some(h0), Some(h1)) =
                    (full_health(&s0, a0, &chosen, &rem, ix.now, ix.slot), full_health(ix.post, a1, &chosen, &rem, ix.now, ix.slot))
                else {
                    continue;
                };
                let (p, q) = (h0.health(HT::Init), h1.health(HT::Init));
                self.judge(ix, "harmless", &k, p, q, h0.err(HT::Init) + h1.err(HT::Init) + 1e-6 * p.abs().max(1.0) + dropped(a0, a1, &h0), false, out);
            }
        } else if ix.is(&["health_region_end"]) {
            let Some(k) = ix.acc("account") else { return };
            let (Some(a0), Some(a1)) = (ix.pre.accounts.get(&k), ix.post.accounts.get(&k)) else { return };
            let chosen = banks_in(ix.pre, &rem);
            if let Some(h) = full_health(ix.post, a1, &chosen, &rem, ix.now, ix.slot) {
                self.judge(ix, "region health", &k, a0.fx.health_region_begin_init_health as f64, h.health(HT::Init), h.err(HT::Init), false, out);
            }
        }
        if let Some((_, who)) = STRICT.iter().find(|(n, _)| *n == ix.name) {
            let Some(k) = ix.acc(who) else { return };
            let (Some(a0), Some(a1)) = (ix.pre.accounts.get(&k), ix.post.accounts.get(&k)) else { return };
            if a0.fx.is_in_health_region() {
                return;
            }
            let same = same_positions(a0, a1);
            let toks = |a: &MAcc| a.active_tokens().map(|p| (p.token_index, p.indexed_position)).collect::<Vec<_>>();
            // sharing out a loss is not the liquidator's doing
            let shared = ix.changed().iter().any(|k| match (ix.pre.banks.get(k), ix.post.banks.get(k)) {
                (Some(b), Some(c)) => b.deposit_index != c.deposit_index,
                _ => false,
            }) || ix.changed().iter().any(|k| match (ix.pre.perps.get(k), ix.post.perps.get(k)) {
                (Some(b), Some(c)) => b.long_funding != c.long_funding,
                _ => false,
            });
            if same || shared || ix.is(&["perp_settle_fees"]) && toks(a0) == toks(a1) {
                return;
            }
            let chosen = banks_in(ix.pre, &rem);
            let mut best = None;
            for o in [&chosen, &named_over(ix, &chosen), &first_banks(ix.pre, &rem)] {
                if let Some(h) = full_health(ix.post, a1, o, &rem, ix.now, ix.slot) {
                    let d = full_health(ix.pre, a0, o, &rem, ix.now, ix.slot).map_or(0.0, |h| dropped(a0, a1, &h));
                    let v = (h.health(HT::Init), h.err(HT::Init) + d);
                    if best.map_or(true, |b: (f64, f64)| v.0 + v.1 > b.0 + b.1) {
                        best = Some(v);
                    }
                }
            }
            if let Some((q, e)) = best {
                let p = full_health(&before(ix), a0, &chosen, &rem, ix.now, ix.slot).map_or(f64::NAN, |h| h.health(HT::Init));
                self.judge(ix, "liquidator health", &k, p, q, e, true, out);
            }
        }
    }
}
/// as `chosen`, but through the banks the instruction named where it changed them
fn named_over(ix: &Ix, chosen: &BTreeMap<u16, Pubkey>) -> BTreeMap<u16, Pubkey> {
    let mut m = chosen.clone();
    for k in ix.changed() {
        if let Some(b) = ix.post.banks.get(&k) {
            if m.contains_key(&b.token_index) {
                m.insert(b.token_index, k);
            }
        }
    }
    m
}
pub fn same_positions(a: &MAcc, b: &MAcc) -> bool {
    let t = |a: &MAcc| a.active_tokens().map(|p| (p.token_index, p.indexed_position)).collect::<Vec<_>>();
    let p = |a: &MAcc| a.active_perps().map(|p| (p.market_index, p.quote_position_native, crate::st::base_lots(p))).collect::<Vec<_>>();
    let o = |a: &MAcc| a.active_oos().map(|(_, o)| o.id).collect::<Vec<_>>();
    let s = |a: &MAcc| a.active_serum().map(|o| (o.market_index, o.base_borrows_without_fee, o.potential_base_tokens, o.potential_quote_tokens)).collect::<Vec<_>>();
    t(a) == t(b) && p(a) == p(b) && o(a) == o(b) && s(a) == s(b)
}
