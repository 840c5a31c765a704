//! Flash loans.
use super::ledger::*;
use super::*;
use num_bigint::BigInt;
use num_traits::{One, Signed, Zero};

#[derive(Default)]
pub struct Flash {}
const BEGIN: &[&str] = &["flash_loan_begin", "flash_loan_swap_begin"];
fn is_end(n: &str) -> bool {
    n.starts_with("flash_loan_end")
}
fn fl_type(ix: &Ix) -> (u8, u8) {
    let mut a = ix.args();
    if ix.name == "flash_loan_end_v2" {
        (a.u8(), a.u8())
    } else {
        (0, a.u8())
    }
}
impl Monitor for Flash {
    fn tx(&mut self, t: &Tx, out: &mut Out) {
        let has = t.ixs.iter().any(|i| i.name.starts_with("flash_loan"));
        if has {
            let mut open: Option<(usize, Pubkey, BTreeMap<Pubkey, (u64, u64)>)> = None;
            for (i, ix) in t.ixs.iter().enumerate() {
                if ix.is(BEGIN) {
                    if ix.cpi {
                        out.fail("C14", "begin-by-cpi", "another program began a flash loan".into());
                    }
                    if open.is_some() {
                        out.fail("C14", "begin-inside-loan", "a flash loan began inside another".into());
                    }
                    let acc = ix.acc("account").unwrap_or_default();
                    let mut loans = BTreeMap::new();
                    for k in ix.changed() {
                        if let (Some(a), Some(b)) = (ix.pre.banks.get(&k), ix.post.banks.get(&k)) {
                            let v0 = ix.pre.tok_amount(&a.vault);
                            let v1 = ix.post.tok_amount(&a.vault);
                            if b.flash_loan_token_account_initial != u64::MAX {
                                loans.insert(k, (b.flash_loan_approved_amount, b.flash_loan_token_account_initial));
                                if v0.wrapping_sub(v1) != b.flash_loan_approved_amount {
                                    out.fail("C14", "begin-amount", format!("vault gave {} for an approved loan of {}", v0 as i128 - v1 as i128, b.flash_loan_approved_amount));
                                }
                            }
                        }
                    }
                    open = Some((i, acc, loans));
                } else if is_end(ix.name) {
                    let Some((_, acc, loans)) = open.take() else {
                        out.fail("C14", "end-without-begin", format!("{} with no loan open", ix.name));
                        continue;
                    };
                    if ix.acc("account") != Some(acc) {
                        out.fail("C14", "other-account", "loan begun and ended for different accounts".into());
                    }
                    self.end(t, ix, &loans, out);
                } else if let Some((_, acc, _)) = &open {
                    let cpi = ix.rec.cpis.iter().any(|c| c.program_id == mango_v4::id());
                    if ix.mango || cpi {
                        out.fail("C14", &format!("inside-loan:{}", ix.name), format!("{} ran while a flash loan of {acc} was open", ix.name));
                    }
                    out.eval("instruction-inside-loan", (ix.rec.program_id, ix.rec.data.len()), || format!("program {}", ix.rec.program_id));
                }
            }
            if let Some((_, acc, _)) = open {
                out.fail("C14", "never-ended", format!("flash loan of {acc} not ended by its transaction"));
            }
        }
        // nothing is ever left open
        for ix in &t.ixs {
            for k in ix.changed() {
                if let Some(b) = t.post.banks.get(&k) {
                    if b.flash_loan_approved_amount != 0 || b.flash_loan_token_account_initial != u64::MAX {
                        out.fail("C14", "loan-left-open", format!("token {} ends the transaction with a loan of {}", b.token_index, b.flash_loan_approved_amount));
                    }
                }
            }
        }
    }
}
impl Flash {
    fn end(&self, t: &Tx, ix: &Ix, loans: &BTreeMap<Pubkey, (u64, u64)>, out: &mut Out) {
        let acc = ix.acc("account").unwrap();
        let (n, ty) = fl_type(ix);
        let rem: Vec<Pubkey> = ix.remaining().collect();
        let n = if ix.name == "flash_loan_end_v2" { n as usize } else { loans.len() };
        if rem.len() < 2 * n + 1 {
            return;
        }
        let vaults = &rem[rem.len() - 2 * n - 1..rem.len() - n - 1];
        let tas = &rem[rem.len() - n - 1..rem.len() - 1];
        let max_rate = loans.keys().filter_map(|k| ix.pre.banks.get(k)).map(|b| b.flash_loan_swap_fee_rate).fold(0f32, f32::max);
        // Token accounts given twice would have the second transfer see the first's effect
        let mut uniq = tas.to_vec();
        uniq.sort();
        uniq.dedup();
        let distinct = uniq.len() == tas.len() && !tas.iter().any(|t| vaults.contains(t));
        for (bk, (approved, initial)) in loans {
            let Some(b0) = ix.pre.banks.get(bk) else { continue };
            let b1 = &ix.post.banks[bk];
            let Some(i) = vaults.iter().position(|v| *v == b0.vault) else {
                out.fail("C14", "bank-not-settled", format!("the loan of token {} was not part of the end", b0.token_index));
                continue;
            };
            if !distinct {
                continue;
            }
            let ta = tas[i];
            let have = ix.pre.tok_amount(&ta);
            let repay = have.saturating_sub(*initial);
            let p0 = pos(ix.pre, &acc, b0);
            let a = nat(*approved);
            let change = nat(repay) - &a;
            let loan = if p0.is_positive() { (&a - &p0).max(BigInt::zero()) } else { a.clone() };
            let fee = mul_fx(&loan, b0.loan_origination_fee_rate);
            let swap_fee = if change.is_negative() && ty == 1 { mul(&-&change, max_rate as f64) } else { BigInt::zero() };
            let e = &p0 + &change - &fee - &swap_fee;
            let tol: BigInt = ulp(b0) * 6 + (BigInt::one() << 50usize) + (change.abs() >> 46usize);
            let got = pos(ix.post, &acc, b1);
            out.eval("loan-settled", (p0.clone(), approved, repay, ty), || {
                format!("token {}: lent {approved}, back {repay}, balance {:.3} -> {:.3}, origination fee {:.6}, swap fee {:.6}", b0.token_index, fl(&p0), fl(&got), fl(&fee), fl(&swap_fee))
            });
            if !ends_at(ix.post, &acc, b1, &e, &tol, !in_use(ix.pre, &acc, b0.token_index)) {
                out.fail("C14", "end-balance", format!("token {}: lent {approved}, {repay} back, balance {:.9} -> {:.9}, should be {:.9} (fees {:.9} + {:.9})", b0.token_index, fl(&p0), fl(&got), fl(&e), fl(&fee), fl(&swap_fee)));
            }
            let df = fx(b1.collected_fees_native) - fx(b0.collected_fees_native);
            if (&df - &fee - &swap_fee).abs() > tol {
                out.fail("C14", "end-fees", format!("token {}: protocol collected {:.9}, should be {:.9} + {:.9}", b0.token_index, fl(&df), fl(&fee), fl(&swap_fee)));
            }
            let dv = ix.post.tok_amount(&b0.vault) as i128 - ix.pre.tok_amount(&b0.vault) as i128;
            let dt = ix.post.tok_amount(&ta) as i128 - have as i128;
            if dv != repay as i128 || dt != -(repay as i128) {
                out.fail("C14", "end-transfer", format!("token {}: {dv:+} to the vault, {dt:+} on the token account, {repay} above the initial balance", b0.token_index));
            }
        }
        // who asked for it
        let Some(owner) = ix.acc("owner") else { return };
        let m = &ix.pre.accounts[&acc];
        let temp = m.fx.temporary_delegate == owner && m.fx.temporary_delegate_expiry >= t.now;
        if !ix.signed(&owner) || (owner != m.fx.owner && owner != m.fx.delegate && !temp) {
            out.fail("C14", "stranger", format!("flash loan ended by {owner} (owner {}, delegate {}, temporary {} until {}, now {}, signed {})", m.fx.owner, m.fx.delegate, m.fx.temporary_delegate, m.fx.temporary_delegate_expiry, t.now, ix.signed(&owner)));
        }
        if owner != m.fx.owner {
            let begin = t.ixs.iter().position(|x| x.is(BEGIN)).unwrap_or(0);
            let end = t.ixs.iter().position(|x| is_end(x.name)).unwrap_or(0);
            for x in &t.ixs[begin..=end] {
                let p = x.rec.program_id.to_string();
                out.eval("delegate-target", p.clone(), || p.clone());
                let ok = [
                    "ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL",
                    "JUP3c2Uh3WA4Ng34tw6kPd2G4C5BB21Xo36Je1s32Ph",
                    "JUP4Fb2cqiRUcaTHdrPC8h2gNsA2ETXiPDD33WcGuJB",
                    "JUP6LkbZbjS1jKKwapdHNy74zcZ3tLUZoi5QNyVTaV4",
                    "ComputeBudget111111111111111111111111111111",
                ];
                if !x.mango && !ok.contains(&p.as_str()) {
                    out.fail("C14", "delegate-target", format!("a delegate's flash loan called {p}"));
                }
            }
        }
    }
}
