//! Exact expected balance changes.
use super::*;
use crate::st::{bits, State};
use mango_v4::state::Bank;
use num_bigint::BigInt;
use num_traits::{One, Signed, ToPrimitive, Zero};

/// amounts are in units of 2^-96 native tokens
pub fn nat(n: impl Into<BigInt>) -> BigInt {
    n.into() << 96
}
pub fn fx(x: fixed::types::I80F48) -> BigInt {
    bits(x) << 48
}
pub fn fl(x: &BigInt) -> f64 {
    x.to_f64().unwrap_or(f64::NAN) / 2f64.powi(96)
}
pub fn floor(x: &BigInt) -> BigInt {
    x >> 96usize
}
pub fn ceil(x: &BigInt) -> BigInt {
    -((-x) >> 96usize)
}
pub fn one() -> BigInt {
    BigInt::one() << 96
}
/// an account's balance of a token, valued with the given bank's indexes
pub fn pos(s: &State, acc: &Pubkey, b: &Bank) -> BigInt {
    s.accounts
        .get(acc)
        .and_then(|a| a.tok(b.token_index))
        .map_or(BigInt::zero(), |p| crate::st::native_pos_exact(p, b))
}
pub fn in_use(s: &State, acc: &Pubkey, tok: u16) -> bool {
    s.accounts.get(acc).and_then(|a| a.tok(tok)).map_or(false, |p| p.in_use_count > 0)
}
/// one unit in the last place of an indexed amount
pub fn ulp(b: &Bank) -> BigInt {
    bits(b.deposit_index).max(bits(b.borrow_index))
}
/// balance after it was rounded away below one token
pub fn may_dust(e: &BigInt, tol: &BigInt) -> bool {
    *e >= -tol && *e < one() + tol
}
/// does an account's balance end at `e`? Balances below one token that nothing else uses may be dusted.
pub fn ends_at(post: &State, acc: &Pubkey, b: &Bank, e: &BigInt, tol: &BigInt, dustable: bool) -> bool {
    let a = pos(post, acc, b);
    if (&a - e).abs() <= *tol {
        return true;
    }
    a.is_zero() && dustable && may_dust(e, tol)
}
/// product of two fixed point numbers as the program would round it, in 2^-96
pub fn mul(a: &BigInt, rate: f64) -> BigInt {
    // rates are exact multiples of 2^-48 in all that is configured
    let r = BigInt::from((rate * 2f64.powi(48)).round() as i128);
    (a >> 48usize) * r
}
pub fn mul_fx(a: &BigInt, rate: fixed::types::I80F48) -> BigInt {
    (a >> 48usize) * bits(rate)
}

/// Deposits and withdrawals.
#[derive(Default)]
pub struct DepositWithdraw {}
impl DepositWithdraw {
    fn common(&self, ix: &Ix, out: &mut Out, moved: &BigInt, credit: &BigInt, fee: &BigInt, dust_ok: bool) {
        // moved: tokens into the vault (negative: out); credit: change of the account's balance
        let acc = ix.acc("account").unwrap();
        let bk = ix.acc("bank").unwrap();
        let (b0, b1) = (&ix.pre.banks[&bk], &ix.post.banks[&bk]);
        let p0 = pos(ix.pre, &acc, b0);
        let e = &p0 + credit;
        let tol: BigInt = ulp(b0) * 4 + (BigInt::one() << 50usize);
        let a = pos(ix.post, &acc, b1);
        if !ends_at(ix.post, &acc, b1, &e, &tol, dust_ok) {
            out.fail(
                "C04",
                &format!("balance:{}", ix.name),
                format!(
                    "{}: balance of token {} went {:.9} -> {:.9} native, should have become {:.9} (vault {:+}, fee {:.9})",
                    ix.name, b0.token_index, fl(&p0), fl(&a), fl(&e), fl(moved), fl(fee)
                ),
            );
        }
        let vault = BigInt::from(ix.post.tok_amount(&b0.vault)) - BigInt::from(ix.pre.tok_amount(&b0.vault));
        let ta = ix
            .acc("token_account")
            .or_else(|| {
                let (x, y) = (ix.acc("owner_ata_token_account")?, ix.acc("alternate_owner_token_account")?);
                Some(if ix.pre.tok_amount(&x) != ix.post.tok_amount(&x) { x } else { y })
            })
            .unwrap();
        if ta != b0.vault {
            if nat(vault.clone()) != *moved {
                out.fail("C04", &format!("vault:{}", ix.name), format!("{}: the vault changed by {vault}, should be {}", ix.name, fl(moved)));
            }
            let user = BigInt::from(ix.post.tok_amount(&ta)) - BigInt::from(ix.pre.tok_amount(&ta));
            if nat(user.clone()) != -moved {
                out.fail("C04", &format!("wallet:{}", ix.name), format!("{}: the outside account changed by {user}, should be {}", ix.name, -fl(moved)));
            }
        }
        let df = fx(b1.collected_fees_native) - fx(b0.collected_fees_native);
        if (&df - fee).abs() > BigInt::one() << 49usize {
            out.fail("C04", &format!("fee:{}", ix.name), format!("{}: fees grew by {:.9}, should be {:.9}", ix.name, fl(&df), fl(fee)));
        }
        // bank totals move with the position
        let (i0, i1) = (
            ix.pre.accounts[&acc].tok(b0.token_index).map_or(BigInt::zero(), |p| bits(p.indexed_position)),
            ix.post.accounts[&acc].tok(b0.token_index).map_or(BigInt::zero(), |p| bits(p.indexed_position)),
        );
        let z = BigInt::zero;
        let dd = bits(b1.indexed_deposits) - bits(b0.indexed_deposits);
        let db = bits(b1.indexed_borrows) - bits(b0.indexed_borrows);
        if dd != i1.clone().max(z()) - i0.clone().max(z()) || db != (-&i1).max(z()) - (-&i0).max(z()) {
            out.fail("C04", &format!("bank-totals:{}", ix.name), format!("{}: position {i0} -> {i1} but bank deposits {dd:+} borrows {db:+}", ix.name));
        }
        let borrow = e.is_negative();
        out.eval(&format!("{}{}", ix.name, if borrow { "-debt" } else { "" }), (p0.clone(), credit.clone()), || {
            format!("token {} {:.6} {:+.6} -> {:.6} native, vault {:+}, fee {:.6}", b0.token_index, fl(&p0), fl(credit), fl(&a), fl(moved), fl(fee))
        });
        // the account's net deposits follow the value at the oracle's price
        if let Some(st) = ix.pre.stubs.get(&b0.oracle) {
            let v = (moved >> 96usize) * bits(st.price);
            let usd = if v.is_negative() { -((-v) >> 48usize) } else { v >> 48usize };
            let nd = ix.post.accounts[&acc].fx.net_deposits as i128 - ix.pre.accounts[&acc].fx.net_deposits as i128;
            if BigInt::from(nd) != usd {
                out.fail("C04", &format!("net-deposits:{}", ix.name), format!("{}: net deposits changed by {nd}, value moved {usd}", ix.name));
            }
        }
    }
}
impl Monitor for DepositWithdraw {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        let Some(acc) = ix.acc("account") else { return };
        let Some(bk) = ix.acc("bank") else { return };
        let Some(b) = ix.pre.banks.get(&bk).cloned() else { return };
        let mut a = ix.args();
        let used = in_use(ix.pre, &acc, b.token_index);
        match ix.name {
            "token_deposit" | "token_deposit_into_existing" => {
                let amount = BigInt::from(a.u64());
                let reduce_only = a.bool();
                let p0 = pos(ix.pre, &acc, &b);
                let debt = ceil(&(-&p0).max(BigInt::zero()));
                let clip = reduce_only || matches!(b.reduce_only, 1 | 2) && b.reduce_only == 1;
                let want = if clip { amount.clone().min(debt) } else { amount.clone() };
                if b.reduce_only == 1 && !reduce_only && want != amount {
                    out.fail("C04", "deposit-reduce-only", format!("deposit of {amount} accepted into a reduce-only token for a debt of {:.6}", -fl(&p0)));
                }
                self.common(ix, out, &nat(want.clone()), &nat(want), &BigInt::zero(), !used);
            }
            "token_withdraw" => {
                let raw = a.u64();
                let allow = a.bool();
                let p0 = pos(ix.pre, &acc, &b);
                let amount = if raw == u64::MAX && !allow {
                    if p0.is_negative() {
                        // nothing to withdraw: nothing may happen
                        let c = super::diff::changes(ix);
                        let moved = c.iter().any(|c| !matches!(c.what, super::diff::What::TokUse(_) | super::diff::What::Lamports | super::diff::What::Fx("being_liquidated")));
                        if moved {
                            out.fail("C04", "withdraw-all-of-debt", format!("withdrawing all of a debt changed {c:?}"));
                        }
                        return;
                    }
                    floor(&p0)
                } else {
                    BigInt::from(raw)
                };
                let e = &p0 - nat(amount.clone());
                // the newly borrowed part
                let loan = (-&e).max(BigInt::zero()).min(nat(amount.clone()));
                let tol: BigInt = ulp(&b) * 2;
                if !allow && loan > tol {
                    out.fail("C04", "withdraw-borrows", format!("a withdrawal that must not borrow borrowed {:.6} of {amount}", fl(&loan)));
                }
                let fee = mul_fx(&loan, b.loan_origination_fee_rate);
                self.common(ix, out, &-nat(amount.clone()), &(-nat(amount) - &fee), &fee, !used);
            }
            _ => {}
        }
    }
}

/// A balance is only ever zeroed away below one token.
#[derive(Default)]
pub struct Dust {}
impl Monitor for Dust {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        let keys = ix.changed();
        for k in &keys {
            let (Some(b0), Some(b1)) = (ix.pre.banks.get(k), ix.post.banks.get(k)) else { continue };
            if b0.dust == b1.dust {
                continue;
            }
            // positions that reached zero in this instruction
            let mut n = 0;
            for a in &keys {
                let (Some(x), Some(y)) = (ix.pre.accounts.get(a), ix.post.accounts.get(a)) else { continue };
                let ip = |m: &crate::st::MAcc| m.tok(b0.token_index).map_or(0, |t| t.indexed_position.to_bits());
                if ip(y) == 0 && (ip(x) != 0 || !ix.is(&["token_deposit"])) {
                    n += 1;
                }
            }
            let d = fx(b1.dust) - fx(b0.dust);
            let tol: BigInt = ulp(b0) * 4 * (n + 1) + (BigInt::one() << 50usize);
            out.eval("dusted", d.clone(), || format!("{}: {:.9} native of token {} by {n} positions", ix.name, fl(&d), b0.token_index));
            if d < -&tol || d > one() * n + &tol || n == 0 {
                out.fail("C04", &format!("dust:{}", ix.name), format!("{}: {:.9} native dusted from {n} positions", ix.name, fl(&d)));
            }
        }
    }
}
