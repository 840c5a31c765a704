//! Winding down tokens: closing debts by force, sending deposits home.
use super::ledger::*;
use super::liq::{bank_at, being_liquidated, big, frozen};
use super::{Ix, Monitor, Out, Tx};
use crate::spec::{bank_price, Price};
use crate::st::{bits, f};
use num_bigint::BigInt;
use num_traits::{Signed, Zero};
use solana_program::pubkey::Pubkey;

#[derive(Default)]
pub struct Delist {}
/// what else an account has: everything outside the tokens named
fn rest(a: &crate::st::MAcc, toks: &[u16]) -> String {
    let t: Vec<_> = a
        .active_tokens()
        .filter(|t| !toks.contains(&t.token_index))
        .map(|t| (t.token_index, t.indexed_position.to_bits(), t.in_use_count))
        .collect();
    let s: Vec<_> = a.active_serum().map(|s| (s.market_index, s.base_borrows_without_fee, s.quote_borrows_without_fee)).collect();
    let p: Vec<_> = a
        .active_perps()
        .map(|p| (p.market_index, p.base_position_lots, p.quote_position_native.to_bits(), p.bids_base_lots, p.asks_base_lots))
        .collect();
    format!("{t:?} {s:?} {p:?}")
}
impl Delist {
    fn borrows(&self, ix: &Ix, out: &mut Out) {
        let (Some(qk), Some(rk)) = (ix.acc("liqee"), ix.acc("liqor")) else { return };
        let mut a = ix.args();
        let (at, lt) = (a.u16(), a.u16());
        let max = a.u64();
        let (Some((ak, ab)), Some((lk, lb))) = (bank_at(ix.pre, ix, at), bank_at(ix.pre, ix, lt)) else { return };
        let (ab1, lb1) = (&ix.post.banks[&ak], &ix.post.banks[&lk]);
        let (q0, r0) = (&ix.pre.accounts[&qk], &ix.pre.accounts[&rk]);
        let (q1, r1) = (&ix.post.accounts[&qk], &ix.post.accounts[&rk]);
        let has = |k: Pubkey| ix.rec.metas.iter().any(|m| m.pubkey == k);
        let price = |b| bank_price(ix.pre, b, ix.now, ix.slot, Some(&|k: &Pubkey| has(*k)));
        let (Price::Ok(ap), Price::Ok(lp)) = (price(&ab), price(&lb)) else {
            if price(&ab) == Price::Bad || price(&lb) == Price::Bad {
                out.fail("C32", "borrows:price", "a debt was closed by force at an unusable price".into());
            }
            return;
        };
        let (ff, ft) = (
            (1.0 + f(lb.liquidation_fee)) * (1.0 + f(ab.liquidation_fee)),
            (1.0 + f(lb.liquidation_fee) + f(lb.platform_liquidation_fee)) * (1.0 + f(ab.liquidation_fee) + f(ab.platform_liquidation_fee)),
        );
        let (p0, rl0) = (pos(ix.pre, &qk, &lb), pos(ix.pre, &rk, &lb));
        let want = nat(max).min(-&p0).min(rl0.clone()).max(BigInt::zero());
        let (wf, debt) = (fl(&want), -fl(&p0));
        let d = format!("token {lt}@{lp} for token {at}@{ap}: debt {debt:.6}, the closer has {:.6}, asked {max}", fl(&rl0));
        out.eval("force-close-borrows", (p0.clone(), rl0.clone(), max), || format!("{d}: {wf:.6}"));
        let u: BigInt = (ulp(&lb) + ulp(&ab)) * 8;
        out.count(if want == nat(max) { "bound:asked" } else if want == -&p0 { "bound:debt" } else { "bound:closer" });
        let signer_ok = ix.acc("liqor_owner").map_or(false, |o| {
            ix.signed(&o) && (o == r0.fx.owner || o == r0.fx.delegate || o == r0.fx.temporary_delegate && ix.now <= r0.fx.temporary_delegate_expiry)
        });
        // only in that mode, and only in good order
        for (bad, key, t) in [
            (lb.force_close == 0, "borrows:mode", "the debt's token is not in force close mode"),
            (!p0.is_negative(), "borrows:no-debt", "there is no debt"),
            (qk == rk, "borrows:self", "the closer is the borrower"),
            (matches!(ab.reduce_only, 1 | 2), "borrows:reduce-only", "the other token must not be borrowed"),
            (at == lt, "borrows:same", "both tokens are the same"),
            (frozen(q0, ix.now) || frozen(r0, ix.now), "borrows:frozen", "an account is frozen"),
            (being_liquidated(ix.pre, &rk), "borrows:closer-liquidated", "the closer is being liquidated"),
            (!signer_ok, "borrows:unsigned", "the closer's owner did not sign"),
            (f(lb.init_liab_weight) < f(ab.init_asset_weight) * ft * (1.0 - 1e-9), "borrows:weights", "the exchange lowers health"),
        ] {
            if bad {
                out.fail("C32", key, format!("{d}: {t}"));
            }
        }
        // the debt is repaid one for one
        let tol: BigInt = &u + big(1e-9);
        let e = &p0 + &want;
        if !ends_at(ix.post, &qk, lb1, &e, &tol, true) {
            out.fail("C32", "borrows:debt", format!("{d}: the debt ended at {:.9}, should be {:.9}", fl(&pos(ix.post, &qk, lb1)), fl(&e)));
        }
        let e = &rl0 - &want;
        if !ends_at(ix.post, &rk, lb1, &e, &tol, true) || pos(ix.post, &rk, lb1).is_negative() {
            out.fail("C32", "borrows:closer-debt", format!("{d}: the closer's balance ended at {:.9}, should be {:.9}", fl(&pos(ix.post, &rk, lb1)), fl(&e)));
        }
        // at the oracle's price plus the set fees
        let base = wf * lp / ap;
        let (from, to) = (base * ft, base * ff);
        let tol: BigInt = &u + big(from * 1e-10 + 1e-6 + 1e-13 / ap + 2e-14 * from * (1.0 + lp / ap));
        let e = pos(ix.pre, &qk, &ab) - big(from);
        if !ends_at(ix.post, &qk, ab1, &e, &tol, true) {
            out.fail("C32", "borrows:borrower-pays", format!("{d}: the borrower's balance ended at {:.9}, should be {:.9}", fl(&pos(ix.post, &qk, ab1)), fl(&e)));
        }
        let e = pos(ix.pre, &rk, &ab) + big(to);
        if !ends_at(ix.post, &rk, ab1, &e, &tol, true) {
            out.fail("C32", "borrows:closer-gets", format!("{d}: the closer's balance ended at {:.9}, should be {:.9}", fl(&pos(ix.post, &rk, ab1)), fl(&e)));
        }
        for (n, x, want) in [
            ("fees", fx(ab1.collected_fees_native) - fx(ab.collected_fees_native), big(from - to)),
            ("liquidation fees", fx(ab1.collected_liquidation_fees) - fx(ab.collected_liquidation_fees), big(from - to)),
            ("fees on the debt's token", fx(lb1.collected_fees_native) - fx(lb.collected_fees_native), BigInt::zero()),
        ] {
            if (&x - &want).abs() > tol {
                out.fail("C32", &format!("borrows:{n}"), format!("{d}: {n} {:.9}, should be {:.9}", fl(&x), fl(&want)));
            }
        }
        // nothing else of either
        for (k, x, y) in [(qk, q0, q1), (rk, r0, r1)] {
            if rest(x, &[at, lt]) != rest(y, &[at, lt]) {
                out.fail("C32", "borrows:others", format!("{d}: other positions of {k} changed"));
            }
        }
    }
    fn home(&self, ix: &Ix, out: &mut Out) {
        let (Some(k), Some(bk), Some(vk)) = (ix.acc("account"), ix.acc("bank"), ix.acc("vault")) else { return };
        let (b, b1) = (ix.pre.banks[&bk].clone(), &ix.post.banks[&bk]);
        let (a0, a1) = (&ix.pre.accounts[&k], &ix.post.accounts[&k]);
        let p0 = pos(ix.pre, &k, &b);
        let n = floor(&p0).max(BigInt::zero());
        let d = format!("{:.6} of token {} of {k}", fl(&p0), b.token_index);
        out.eval("force-withdraw", (k, p0.clone()), || d.clone());
        for (bad, key, t) in [
            (b.force_withdraw == 0, "withdraw:mode", "the token is not in force withdraw mode"),
            (p0.is_negative(), "withdraw:debt", "the balance is a debt"),
            (frozen(a0, ix.now), "withdraw:frozen", "the account is frozen"),
            (vk != b.vault, "withdraw:vault", "another vault paid"),
        ] {
            if bad {
                out.fail("C32", key, format!("{d}: {t}"));
            }
        }
        // everything, to the owner
        let e = &p0 - nat(n.clone());
        let tol: BigInt = ulp(&b) * 4;
        let p1 = pos(ix.post, &k, b1);
        if !ends_at(ix.post, &k, b1, &e, &tol, true) || p1 > e.clone() + &tol {
            out.fail("C32", "withdraw:left", format!("{d}: {:.9} left, should be {:.9}", fl(&p1), fl(&e)));
        }
        let ata = spl_associated_token_account::get_associated_token_address(&a0.fx.owner, &b.mint);
        let home = match ix.pre.tokens.get(&ata) {
            Some(t) if t.owner == a0.fx.owner => ata,
            _ => ix.acc("alternate_owner_token_account").unwrap_or_default(),
        };
        out.count(if home == ata { "to-ata" } else { "to-other" });
        if ix.pre.tokens.get(&home).map(|t| t.owner) != Some(a0.fx.owner) {
            out.fail("C32", "withdraw:not-owner", format!("{d}: sent to an account of someone else"));
        }
        for t in ix.pre.tokens.keys() {
            let got = BigInt::from(ix.post.tok_amount(t)) - BigInt::from(ix.pre.tok_amount(t));
            let want = if *t == home && home != b.vault { n.clone() } else if *t == b.vault && home != b.vault { -&n } else { BigInt::zero() };
            if got != want {
                out.fail("C32", "withdraw:moved", format!("{d}: token account {t} changed by {got}, should be {want} (home {home})"));
            }
        }
        if let Some(st) = ix.pre.stubs.get(&b.oracle) {
            let usd = (&n * bits(st.price)) >> 48usize;
            let nd = a1.fx.net_deposits as i128 - a0.fx.net_deposits as i128;
            if BigInt::from(nd) != -&usd {
                out.fail("C32", "withdraw:net-deposits", format!("{d}: net deposits changed by {nd}, value moved {usd}"));
            }
        }
        if rest(a0, &[b.token_index]) != rest(a1, &[b.token_index]) {
            out.fail("C32", "withdraw:others", format!("{d}: other positions changed"));
        }
        if fx(b1.collected_fees_native) != fx(b.collected_fees_native) {
            out.fail("C32", "withdraw:fee", format!("{d}: fees were charged"));
        }
    }
}
impl Monitor for Delist {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        match ix.name {
            "token_force_close_borrows_with_token" => self.borrows(ix, out),
            "token_force_withdraw" => self.home(ix, out),
            _ => {}
        }
    }
    fn failed(&mut self, t: &Tx, out: &mut Out) {
        use crate::svm::IxErr;
        let Err((i, IxErr::Program(_))) = &t.rec.result else { return };
        let Some(a) = super::ix_abi(&t.rec.ixs[*i].data) else { return };
        if a.name.starts_with("token_force") || a.name == "perp_force_close_position" {
            out.count(&format!("refused:{}:{}", a.name, t.rec.custom_error().map_or("other".into(), |c| c.to_string())));
        }
    }
}
