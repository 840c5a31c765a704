//! Deposit, borrow, reserve and reduce-only limits.
use super::ledger::*;
use super::*;
use crate::st::{base_lots, bits, f, State};
use mango_v4::state::Bank;
use num_bigint::BigInt;
use num_traits::{Signed, Zero};

fn oracle(s: &State, b: &Bank) -> Option<f64> {
    s.stubs.get(&b.oracle).map(|o| f(o.price))
}
/// total value deposited plus what could arrive from spot orders
fn held(b: &Bank) -> BigInt {
    bits(b.indexed_deposits) * bits(b.deposit_index) + nat(b.potential_serum_tokens)
}
fn owed(b: &Bank) -> BigInt {
    bits(b.indexed_borrows) * bits(b.borrow_index)
}

/// instructions by which a user chooses to change what a token's bank holds
const USER: &[&str] = &[
    "token_deposit", "token_deposit_into_existing", "token_withdraw", "flash_loan_end_v2", "flash_loan_end",
    "token_conditional_swap_start", "token_conditional_swap_trigger", "token_conditional_swap_trigger_v2",
    "serum3_place_order", "serum3_place_order_v2",
];

#[derive(Default)]
pub struct Limits {}
impl Monitor for Limits {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        self.net_borrow_bookkeeping(ix, out);
        if ix.is(&["perp_place_order", "perp_place_order_v2", "perp_place_order_pegged", "perp_place_order_pegged_v2"]) {
            self.perp_reduce_only(ix, out);
        }
        if !ix.is(USER) {
            return;
        }
        let serum = ix.name.starts_with("serum3_place");
        let user = ix.acc("account");
        self.group_deposit_limit(ix, out);
        for k in ix.changed() {
            let (Some(b0), Some(b1)) = (ix.pre.banks.get(&k), ix.post.banks.get(&k)) else { continue };
            let tol: BigInt = ulp(b0) * 8;
            let n = b1.token_index;
            let (h0, h1) = (held(b0), held(b1));
            let (o0, o1) = (owed(b0), owed(b1));
            let (v0, v1) = (ix.pre.tok_amount(&b0.vault), ix.post.tok_amount(&b1.vault));
            let borrowed = o1 > &o0 + &tol;
            // deposit limit
            let payer = serum && ix.acc("payer_bank") == Some(k);
            if b1.deposit_limit > 0 && h1 > &h0 + &tol && (!payer || borrowed) {
                let lim = nat(b1.deposit_limit);
                out.eval("deposit-limit", h1.clone(), || format!("{} token {n}: {:.3} of {}", ix.name, fl(&h1), b1.deposit_limit));
                if h1 > &lim + &tol {
                    out.fail("C05", &format!("deposit-limit:{}", ix.name), format!("{} raised token {n} from {:.6} to {:.6} over its deposit limit {}", ix.name, fl(&h0), fl(&h1), b1.deposit_limit));
                }
            }
            // borrow limits
            if borrowed {
                if let Some(p) = oracle(ix.pre, b1) {
                    let p = p.max(b1.stable_price_model.stable_price);
                    let (nb, lim) = (b1.net_borrows_in_window, b1.net_borrow_limit_per_window_quote);
                    if nb >= 0 && lim >= 0 {
                        let q = nb as f64 * p;
                        out.eval("net-borrow-limit", (nb, lim), || format!("{} token {n}: {q:.3} of {lim} quote", ix.name));
                        if q > lim as f64 * (1.0 + 1e-9) + 1e-3 {
                            out.fail("C05", &format!("net-borrow-limit:{}", ix.name), format!("{}: token {n} net borrows {nb} at price {p} = {q} over {lim}", ix.name));
                        }
                    }
                }
            }
            if v1 < v0 && !ix.name.starts_with("token_conditional") {
                let ratio = if borrowed { 1.0 - b1.min_vault_to_deposits_ratio } else { 1.0 };
                let dep = bits(b1.indexed_deposits) * bits(b1.deposit_index);
                let cap = mul(&dep, ratio);
                let tol: BigInt = &tol + (dep.abs() >> 46usize);
                out.eval("vault-reserve", (dep.clone(), o1.clone()), || format!("{} token {n}: {:.3} borrowed of {:.3}, at most {:.4}", ix.name, fl(&o1), fl(&dep), ratio));
                if o1 > &cap + &tol {
                    out.fail("C05", &format!("reserve:{}", ix.name), format!("{}: token {n} has {:.6} borrowed of {:.6} deposits, allowed {:.6} (borrowing: {borrowed})", ix.name, fl(&o1), fl(&dep), fl(&cap)));
                }
            }
            // wind-down modes
            if b0.reduce_only == 0 {
                continue;
            }
            for a in ix.changed() {
                let (Some(_), Some(_)) = (ix.pre.accounts.get(&a), ix.post.accounts.get(&a)) else { continue };
                let (p0, p1) = (pos(ix.pre, &a, b0), pos(ix.post, &a, b1));
                if p0 == p1 {
                    continue;
                }
                out.eval("token-reduce-only", (p0.clone(), p1.clone(), b0.reduce_only), || format!("{} mode {} token {n}: {:.3} -> {:.3}", ix.name, b0.reduce_only, fl(&p0), fl(&p1)));
                if b0.reduce_only == 1 && p1 > &p0 + &tol && p1 >= one() + &tol {
                    out.fail("C05", &format!("reduce-only-deposit:{}", ix.name), format!("{}: deposits in reduce-only token {n} grew {:.6} -> {:.6}", ix.name, fl(&p0), fl(&p1)));
                }
                if p1 < &p0 - &tol && p1 < -&tol {
                    out.fail("C05", &format!("reduce-only-borrow:{}", ix.name), format!("{}: borrows in reduce-only token {n} grew {:.6} -> {:.6}", ix.name, fl(&p0), fl(&p1)));
                }
            }
        }
        if serum {
            if let (Some(mk), Some(a)) = (ix.acc("serum_market"), user) {
                let m = &ix.pre.serum[&mk];
                out.eval("spot-reduce-only", (m.reduce_only, a, ix.args().u64(), ix.now), || format!("market {} mode {}", m.market_index, m.reduce_only));
                if m.reduce_only != 0 {
                    out.fail("C05", "spot-reduce-only", format!("order placed in reduce-only spot market {}", m.market_index));
                }
                // an order may not buy a token that takes no deposits
                let bid = ix.args().u8() == 0;
                let recv = if bid { m.base_token_index } else { m.quote_token_index };
                if let Some((_, b)) = ix.pre.bank0(&a_group(ix.pre, &a), recv) {
                    if b.reduce_only == 1 {
                        if let Some(h) = crate::spec::health(ix.post, &ix.post.accounts[&a], &crate::spec::HcOpts { now: ix.now, slot: ix.slot, bank_for: None, provided: None, skipping: true }) {
                            if let Some(i) = h.toks.iter().position(|t| t.idx == recv) {
                                let pot = h.potential(crate::spec::HT::Maint)[i];
                                let bal = h.toks[i].spot;
                                out.eval("spot-buys-reduce-only", (a, pot.to_bits()), || format!("token {recv}: balance {bal:.3} potential {pot:.3}"));
                                if bal + pot > 1.0 + 1e-3 + (bal.abs() + pot) * 1e-9 {
                                    out.fail("C05", "spot-buys-reduce-only", format!("order may bring reduce-only token {recv} to {}", bal + pot));
                                }
                            }
                        }
                    }
                }
            }
        }
        if ix.name.starts_with("token_conditional_swap_") {
            // judged above per account
        }
    }
}
fn a_group(s: &State, a: &Pubkey) -> Pubkey {
    s.accounts[a].fx.group
}
impl Limits {
    /// the group's limit on the assets of one account
    fn group_deposit_limit(&self, ix: &Ix, out: &mut Out) {
        if !ix.is(&["token_deposit", "token_deposit_into_existing"]) {
            return;
        }
        let Some(a) = ix.acc("account").and_then(|k| ix.post.accounts.get(&k)) else { return };
        let Some(g) = ix.post.groups.get(&a.fx.group) else { return };
        if g.deposit_limit_quote == 0 {
            return;
        }
        let Some(h) = super::liq::liq_health(ix.post, a, ix) else {
            out.count("group-limit-unpriced");
            return;
        };
        let (v, e) = (h.stable_assets(crate::spec::HT::Init), h.err(crate::spec::HT::Init));
        let lim = g.deposit_limit_quote as f64;
        out.eval("group-deposit-limit", v.to_bits(), || format!("{}: assets {v:.3} of {lim}", ix.name));
        if (v - lim).abs() < 0.02 * lim {
            out.count("group-deposit-limit-close");
        }
        if v > lim + 1.0 + e {
            out.fail("C05", &format!("group-deposit-limit:{}", ix.name), format!("{} left an account with assets worth {v:.6}, over the group's limit {lim}", ix.name));
        }
    }
    /// the net borrows recorded for the window follow what was borrowed and repaid
    fn net_borrow_bookkeeping(&self, ix: &Ix, out: &mut Out) {
        for k in ix.changed() {
            let (Some(b0), Some(b1)) = (ix.pre.banks.get(&k), ix.post.banks.get(&k)) else { continue };
            if b0.borrow_index != b1.borrow_index || b0.net_borrow_limit_window_size_ts == 0 {
                continue;
            }
            if ix.is(&["token_edit", "token_liq_bankruptcy", "liq_token_bankruptcy"]) {
                continue;
            }
            let d = owed(b1) - owed(b0);
            let (n0, n1) = (b0.net_borrows_in_window, b1.net_borrows_in_window);
            if d.is_zero() && n0 == n1 && b0.last_net_borrows_window_start_ts == b1.last_net_borrows_window_start_ts {
                continue;
            }
            let w = b0.net_borrow_limit_window_size_ts;
            let fresh = ix.now >= b0.last_net_borrows_window_start_ts + w;
            let reset = b1.last_net_borrows_window_start_ts != b0.last_net_borrows_window_start_ts;
            out.eval("net-borrows-recorded", (d.clone(), n0, n1), || format!("{} token {}: borrows {:+.3}, window {n0} -> {n1}", ix.name, b0.token_index, fl(&d)));
            let single = ix.is(&["token_deposit", "token_deposit_into_existing", "token_withdraw"]);
            let slack = if single { 1.01 } else { 12.0 };
            let base = if reset { 0 } else { n0 };
            let e = base as f64 + fl(&d);
            let tol = slack + e.abs() * 1e-9;
            let mut ok = (n1 as f64 - e).abs() <= tol && !(single && n1 as f64 > e + tol);
            if single && fl(&d) > 0.0 && (n1 as f64) < e - 0.01 {
                ok = false;
            }
            if reset && (!fresh || b1.last_net_borrows_window_start_ts != ix.now / w * w) {
                ok = false;
            }
            if fresh && !reset && d.abs() > (one() << 4usize) && ix.now / w * w != b0.last_net_borrows_window_start_ts {
                ok = false;
            }
            if !ok {
                out.fail(
                    "C05",
                    &format!("net-borrows-recorded:{}", ix.name),
                    format!("{}: token {} borrows changed by {:.6} but the window's net borrows went {n0} -> {n1} (window {} -> {}, size {w}, now {})", ix.name, b0.token_index, fl(&d), b0.last_net_borrows_window_start_ts, b1.last_net_borrows_window_start_ts, ix.now),
                );
            }
        }
    }
    fn perp_reduce_only(&self, ix: &Ix, out: &mut Out) {
        let (Some(mk), Some(ak)) = (ix.acc("perp_market"), ix.acc("account")) else { return };
        let m = &ix.pre.perps[&mk];
        let mut a = ix.args();
        let side = a.u8();
        // reduce-only flag position depends on the instruction
        let pegged = ix.name.contains("pegged");
        a.i64();
        if pegged {
            a.i64();
        }
        let max_base = a.i64();
        a.i64();
        a.u64();
        a.u8(); // order type
        if ix.name.ends_with("_v2") && !pegged {
            a.u8();
        } else if ix.name.ends_with("_v2") {
            a.u8();
        }
        let order_ro = a.bool();
        if m.reduce_only == 0 && !order_ro {
            return;
        }
        let eff = |s: &State| {
            let p = s.accounts[&ak].perp(m.perp_market_index);
            p.map_or((0, 0, 0), |p| (base_lots(p) + p.taker_base_lots, p.bids_base_lots, p.asks_base_lots))
        };
        let (e0, b0, a0) = eff(ix.pre);
        let (e1, b1, a1) = eff(ix.post);
        // what this order added: traded plus resting lots
        let bid = side == 0;
        let traded = if bid { e1 - e0 } else { e0 - e1 };
        let rested = if bid { b1 - b0 } else { a1 - a0 };
        let total = traded + rested.max(0);
        let room = if m.reduce_only != 0 {
            if bid { (-(e0 + b0)).max(0) } else { (e0 - a0).max(0) }
        } else if bid {
            (-e0).max(0)
        } else {
            e0.max(0)
        };
        out.eval("perp-reduce-only", (e0, b0, a0, e1, b1, a1, m.reduce_only), || format!("market mode {} order flag {order_ro} side {side}: position {e0} -> {e1}, room {room}, used {total} of {max_base}", m.reduce_only));
        if total > room {
            out.fail(
                "C05",
                if m.reduce_only != 0 { "perp-market-reduce-only" } else { "perp-order-reduce-only" },
                format!("{}: side {side} order used {total} lots, only {room} reduce the position ({e0},{b0},{a0}) -> ({e1},{b1},{a1})", ix.name),
            );
        }
        if e1.signum() * e0.signum() < 0 || e1.abs() > e0.abs() {
            out.fail("C05", "perp-reduce-only-grew", format!("reduce-only order moved the position {e0} -> {e1}"));
        }


    }
}
