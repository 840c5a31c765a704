//! Conservation of every token and agreement of the banks' totals with the positions.
use super::*;
use crate::st::{bits, native_pos_exact, State};
use mango_v4::state::Bank;
use num_bigint::BigInt;
use num_traits::{Signed, ToPrimitive, Zero};
use std::collections::BTreeSet;

pub type TokKey = (Pubkey, u16);

/// exact sums for one token of one group, in units of 2^-96 native tokens
#[derive(Clone, Debug, Default)]
pub struct Sums {
    pub vault: BigInt,
    pub deposits: BigInt,
    pub borrows: BigInt,
    pub fees: BigInt,
    pub dust: BigInt,
    pub perp_fees: BigInt,
}
impl Sums {
    pub fn surplus(&self) -> BigInt {
        &self.vault + &self.borrows - &self.deposits - &self.fees - &self.dust - &self.perp_fees
    }
}
pub fn sums(s: &State, k: &TokKey) -> Sums {
    let mut r = Sums::default();
    for b in s.banks.values().filter(|b| b.group == k.0 && b.token_index == k.1) {
        r.vault += BigInt::from(s.tok_amount(&b.vault)) << 96;
        r.deposits += bits(b.indexed_deposits) * bits(b.deposit_index);
        r.borrows += bits(b.indexed_borrows) * bits(b.borrow_index);
        r.fees += (bits(b.collected_fees_native) << 48) - (BigInt::from(b.fees_withdrawn) << 96);
        r.dust += bits(b.dust) << 48;
    }
    for p in s.perps.values().filter(|p| p.group == k.0 && p.settle_token_index == k.1) {
        r.perp_fees += (bits(p.fees_settled) << 48) - (BigInt::from(p.fees_withdrawn) << 96);
    }
    r
}
pub fn native(x: &BigInt) -> f64 {
    x.to_f64().unwrap_or(f64::NAN) / 2f64.powi(96)
}

/// the tokens whose banks, vaults or settling perp markets a transaction touched
pub fn touched(t: &Tx) -> BTreeSet<TokKey> {
    let mut r = BTreeSet::new();
    let mut keys = BTreeSet::new();
    for ix in &t.ixs {
        keys.extend(ix.changed());
    }
    for s in [t.pre, t.post] {
        for (k, b) in &s.banks {
            if keys.contains(k) || keys.contains(&b.vault) {
                r.insert((b.group, b.token_index));
            }
        }
        for k in &keys {
            if let Some(p) = s.perps.get(k) {
                r.insert((p.group, p.settle_token_index));
            }
        }
    }
    r
}

#[derive(Default)]
pub struct Conservation {
    /// judge only transactions with an instruction whose name contains one of these
    pub only: &'static [&'static str],
    /// accumulated rounding allowance per token
    pub total_tol: std::collections::BTreeMap<TokKey, BigInt>,
}
impl Monitor for Conservation {
    fn tx(&mut self, t: &Tx, out: &mut Out) {
        if !self.only.is_empty() && !t.ixs.iter().any(|i| self.only.iter().any(|o| i.name.contains(o))) {
            return;
        }
        for k in touched(t) {
            let banks0: Vec<&Bank> =
                t.pre.banks.values().filter(|b| b.group == k.0 && b.token_index == k.1).map(|b| &**b).collect();
            let banks: Vec<&Bank> =
                t.post.banks.values().filter(|b| b.group == k.0 && b.token_index == k.1).map(|b| &**b).collect();
            if banks.is_empty() || banks0.is_empty() {
                continue;
            }
            let (a, b) = (sums(t.pre, &k), sums(t.post, &k));
            // tokens that people moved into a vault themselves
            let mut donated = BigInt::zero();
            for ix in t.ixs.iter().filter(|i| !i.mango) {
                for bk in &banks {
                    let d = ix.post.tok_amount(&bk.vault) as i128 - ix.pre.tok_amount(&bk.vault) as i128;
                    donated += BigInt::from(d) << 96;
                }
            }
            let delta: BigInt = b.surplus() - a.surplus() - donated;
            // one unit in the last place of an indexed amount is worth index * 2^-48
            let max_index = banks
                .iter()
                .map(|b| bits(b.deposit_index).max(bits(b.borrow_index)))
                .max()
                .unwrap();
            let index_update = t.ixs.iter().any(|i| i.name.starts_with("token_update_index_and_rate"));
            let ops = BigInt::from(16 * t.ixs.len() as u64 + 16);
            let mut tol: BigInt = ops * (&max_index << 1);
            let socializing = t.ixs.iter().any(|i| i.name.ends_with("liq_bankruptcy"));
            if index_update || socializing {
                let idx: BigInt = banks0
                    .iter()
                    .map(|b| bits(b.indexed_deposits).abs() + bits(b.indexed_borrows).abs())
                    .sum();
                tol += idx * BigInt::from(8u32);
                // the same for rates, which are applied to an index for up to an hour
                let native: BigInt = &a.deposits + &a.borrows;
                tol += (native.abs() >> 48) * BigInt::from(8u32);
            }
            let e = self.total_tol.entry(k).or_insert_with(|| BigInt::zero());
            *e += &tol;
            let names = || t.ixs.iter().map(|i| i.name).collect::<Vec<_>>().join("+");
            if a.vault == b.vault && a.deposits == b.deposits && a.borrows == b.borrows && a.fees == b.fees && a.perp_fees == b.perp_fees {
                continue;
            }
            let case = (t.ixs.iter().map(|i| i.name).collect::<Vec<_>>(), k.1, b.deposits.clone());
            out.eval("token-conserved", case, || {
                format!(
                    "{} token {} vault {:+} deposits {:+.6} borrows {:+.6} fees {:+.6}: surplus change {:e}",
                    names(),
                    k.1,
                    native(&(&b.vault - &a.vault)),
                    native(&(&b.deposits - &a.deposits)),
                    native(&(&b.borrows - &a.borrows)),
                    native(&(&b.fees - &a.fees)),
                    native(&delta)
                )
            });
            if delta < -tol.clone() {
                out.fail(
                    "C01",
                    &format!("value-created:{}", names()),
                    format!(
                        "token {} of group {}: claims grew by {} native more than the tokens backing them ({}): {a:?} -> {b:?}",
                        k.1, k.0, -native(&delta), names()
                    ),
                );
            }
            // Nor may users' tokens silently become nobody's. Above full utilization (or without
            // lenders) borrowers pay interest nobody is owed.
            // And paying out into a vault is a gift to it.
            let gift = t.ixs.iter().any(|i| {
                i.acc("token_account").map_or(false, |k| t.pre.banks.values().any(|b| b.vault == k))
                    || (i.name.starts_with("flash_loan")
                        && i.remaining().any(|k| i.rec.metas.iter().filter(|m| m.pubkey == k).count() > 1 && i.pre.tokens.contains_key(&k)))
            });
            let excess_ok = gift || (index_update && (a.borrows > a.deposits || a.deposits.is_zero()));
            if delta > tol && !excess_ok {
                out.fail(
                    "C01",
                    &format!("value-lost:{}", names()),
                    format!(
                        "token {} of group {}: {} native left without an owner ({}): {a:?} -> {b:?}",
                        k.1, k.0, native(&delta), names()
                    ),
                );
            }
            if self.only.is_empty() && b.surplus() < -e.clone() {
                out.fail(
                    "C01",
                    "insolvent",
                    format!("token {}: backing short by {}", k.1, -native(&b.surplus())),
                );
            }
        }
    }
}

#[derive(Default)]
pub struct Totals {}
impl Monitor for Totals {
    fn tx(&mut self, t: &Tx, out: &mut Out) {
        let mut toks = touched(t);
        for ix in &t.ixs {
            for k in ix.changed() {
                for s in [ix.pre, ix.post] {
                    if let Some(a) = s.accounts.get(&k) {
                        toks.extend(a.active_tokens().map(|p| (a.fx.group, p.token_index)));
                        toks.extend(a.active_serum().flat_map(|o| {
                            [(a.fx.group, o.base_token_index), (a.fx.group, o.quote_token_index)]
                        }));
                    }
                }
            }
        }
        for k in toks {
            let mut dep = BigInt::zero();
            let mut bor = BigInt::zero();
            let mut pot: u64 = 0;
            let (mut holders, mut debtors) = (0u32, 0u32);
            let mut banks = 0;
            for b in t.post.banks.values().filter(|b| b.group == k.0 && b.token_index == k.1) {
                dep += bits(b.indexed_deposits);
                bor += bits(b.indexed_borrows);
                pot += b.potential_serum_tokens;
                banks += 1;
            }
            if banks == 0 {
                continue;
            }
            let (mut udep, mut ubor, mut upot) = (BigInt::zero(), BigInt::zero(), 0u64);
            let mut value = BigInt::zero();
            for a in t.post.accounts.values().filter(|a| a.fx.group == k.0) {
                for p in a.active_tokens().filter(|p| p.token_index == k.1) {
                    let v = bits(p.indexed_position);
                    if v.is_positive() {
                        udep += v;
                        holders += 1;
                    } else if v.is_negative() {
                        ubor -= v;
                        debtors += 1;
                    }
                    if let Some((_, b)) = t.post.bank0(&k.0, k.1) {
                        value += native_pos_exact(p, b);
                    }
                }
                for o in a.active_serum() {
                    if o.base_token_index == k.1 {
                        upot += o.potential_base_tokens;
                    }
                    if o.quote_token_index == k.1 {
                        upot += o.potential_quote_tokens;
                    }
                }
            }
            if holders + debtors == 0 && dep.is_zero() && bor.is_zero() {
                continue;
            }
            out.eval("totals-match", (k.1, dep.clone(), bor.clone(), pot), || {
                format!("token {}: {holders} lenders, {debtors} borrowers, {banks} banks, net {:.3} native, {pot} in spot orders", k.1, native(&value))
            });
            let names = || t.ixs.iter().map(|i| i.name).collect::<Vec<_>>().join("+");
            if dep != udep {
                out.fail("C02", &format!("deposits:{}", names()), format!("token {}: banks record {dep} deposits, positions sum to {udep} (2^-48 indexed)", k.1));
            }
            if bor != ubor {
                out.fail("C02", &format!("borrows:{}", names()), format!("token {}: banks record {bor} borrows, positions sum to {ubor} (2^-48 indexed)", k.1));
            }
            // compared as a change, so that one divergence is reported once
            let banked = |s: &State| -> i128 { s.banks.values().filter(|b| b.group == k.0 && b.token_index == k.1).map(|b| b.potential_serum_tokens as i128).sum() };
            let recorded = |s: &State| -> i128 {
                s.accounts
                    .values()
                    .filter(|a| a.fx.group == k.0)
                    .map(|a| {
                        a.active_serum()
                            .map(|o| {
                                (if o.base_token_index == k.1 { o.potential_base_tokens as i128 } else { 0 })
                                    + (if o.quote_token_index == k.1 { o.potential_quote_tokens as i128 } else { 0 })
                            })
                            .sum::<i128>()
                    })
                    .sum()
            };
            let (ppot, pupot) = (banked(t.pre), recorded(t.pre));
            let drift = (pot as i128 - upot as i128) - (ppot - pupot);
            if drift != 0 {
                // An order placed by way of one of a token's banks and settled by way of another:
                // the second bank has nothing to subtract from, and stops at zero.
                let split = banks > 1
                    && t.ixs.iter().all(|ix| {
                        let d = recorded(ix.post) - recorded(ix.pre);
                        let db = banked(ix.post) - banked(ix.pre);
                        d == db
                            || ix.name.starts_with("serum3_")
                                && d < 0
                                && db > d
                                && ix.rec.metas.iter().any(|m| match (ix.pre.banks.get(&m.pubkey), ix.post.banks.get(&m.pubkey)) {
                                    (Some(x), Some(y)) => x.group == k.0 && x.token_index == k.1 && y.potential_serum_tokens == 0 && db == -(x.potential_serum_tokens as i128) && (x.potential_serum_tokens as i128) < -d,
                                    _ => false,
                                })
                                && ix.pre.banks.values().filter(|b| b.group == k.0 && b.token_index == k.1 && b.potential_serum_tokens > 0).count() > (db < 0) as usize
                    });
                let key = if split { "spot-orders-split-over-banks".to_string() } else { format!("spot-orders:{}", names()) };
                out.fail("C02", &key, format!("token {}: banks record {ppot} -> {pot} tokens in spot orders, accounts {pupot} -> {upot}", k.1));
            }
        }
    }
}
