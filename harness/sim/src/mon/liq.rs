//! Who can be liquidated, in which order, and what token liquidation and bankruptcy exchange.
use super::ledger::*;
use super::safety::{banks_in, full_health, same_positions};
use super::*;
use crate::spec::*;
use crate::st::{bits, f, MAcc, State};
use num_bigint::BigInt;
use num_traits::{One, Signed, Zero};

pub const LIQ: &[(&str, &str)] = &[
    ("token_liq_with_token", "liqee"),
    ("token_liq_bankruptcy", "liqee"),
    ("perp_liq_base_or_positive_pnl", "liqee"),
    ("perp_liq_negative_pnl_or_bankruptcy", "liqee"),
    ("perp_liq_negative_pnl_or_bankruptcy_v2", "liqee"),
    ("perp_liq_force_cancel_orders", "account"),
    ("serum3_liq_force_cancel_orders", "account"),
];
pub fn being_liquidated(s: &State, k: &Pubkey) -> bool {
    s.accounts.get(k).map_or(false, |a| a.fx.being_liquidated())
}
pub fn frozen(a: &MAcc, now: u64) -> bool {
    a.fx.frozen_until >= now
}
/// the health a liquidation instruction sees
pub fn liq_health(s: &State, a: &MAcc, ix: &Ix) -> Option<Hc> {
    let rem: Vec<Pubkey> = ix.rec.metas.iter().map(|m| m.pubkey).collect();
    full_health(s, a, &banks_in(s, &rem), &rem, ix.now, ix.slot)
}

#[derive(Default)]
pub struct Phases {}
impl Phases {
    fn liq(&self, ix: &Ix, k: Pubkey, out: &mut Out) {
        let (Some(a0), Some(a1)) = (ix.pre.accounts.get(&k), ix.post.accounts.get(&k)) else { return };
        let Some(h) = liq_health(ix.pre, a0, ix) else {
            out.count("liq-not-computable");
            return;
        };
        let (m, me) = (h.health(HT::Maint), h.err(HT::Maint));
        let (l, le) = (h.health(HT::LiqEnd), h.err(HT::LiqEnd));
        let flag0 = a0.fx.being_liquidated();
        let flag1 = a1.fx.being_liquidated();
        let bankruptcy = ix.is(&["token_liq_bankruptcy"]);
        // less than one of a token cannot be liquidated and does not stand in the way
        let crumbs = |ht: HT| h.toks.iter().zip(h.effective(ht, false)).filter(|(_, e)| *e > 0.0 && *e < 1.0 + 1e-6).map(|(t, e)| e * t.awp(ht)).sum::<f64>();
        let never = if bankruptcy { m - crumbs(HT::Maint) > me && l - crumbs(HT::LiqEnd) > le } else if flag0 { l > -1.0 + le } else { m > me };
        let surely = if flag0 { l < -1.0 - le } else { m < -me };
        let force_cancel = ix.name.contains("force_cancel");
        let wind_down = force_cancel
            && (frozen(a0, ix.now)
                || ix.acc("perp_market").and_then(|p| ix.pre.perps.get(&p)).map_or(false, |p| p.force_close != 0)
                || ix.acc("serum_market").and_then(|p| ix.pre.serum.get(&p)).map_or(false, |p| p.force_close != 0));
        let acted = !same_positions(a0, a1);
        let kind = format!("{}{}", if acted { "acts" } else { "declines" }, if flag0 { "-marked" } else { "" });
        out.eval(&kind, (ix.name, m.to_bits(), l.to_bits()), || format!("{}: maint {m:.3} end {l:.3}", ix.name));
        if l.abs() < 3.0 || m.abs() < 3.0 {
            out.count(&format!("edge-{kind}"));
        }
        if acted && never && !wind_down {
            out.fail("C09", &format!("healthy:{}", ix.name), format!("{} acted on {k} with maintenance health {m:.6} and end health {l:.6} (marked: {flag0})", ix.name));
        }
        if surely && !acted && ix.is(&["token_liq_with_token"]) && l < -1.0 - le && must_act(&h, ix) {
            out.fail("C09", "no-liquidation", format!("{} did nothing for {k} with maintenance health {m:.6} and end health {l:.6} (marked: {flag0})", ix.name));
        }
        if acted {
            if !force_cancel && h.phase1() {
                out.fail("C09", &format!("before-cancel:{}", ix.name), format!("{} acted on {k} with open orders", ix.name));
            }
            if (bankruptcy || ix.name.starts_with("perp_liq_negative")) && phase2_surely(&h) {
                out.fail("C09", &format!("before-assets:{}", ix.name), format!("{} acted on {k} with assets left to liquidate", ix.name));
            }
        }
        if let Some(liqor) = ix.acc("liqor") {
            if liqor == k {
                out.fail("C09", "self", format!("{} by {k} on itself", ix.name));
            }
            if being_liquidated(ix.pre, &liqor) {
                out.fail("C09", &format!("liquidated-liqor:{}", ix.name), format!("{} by {liqor}, which is being liquidated", ix.name));
            }
        }
        // the mark
        if let Some(h1) = liq_health(ix.post, a1, ix) {
            let (l1, e1) = (h1.health(HT::LiqEnd), h1.err(HT::LiqEnd) + le + 1e-6);
            out.eval("mark", (ix.name, flag0, flag1, l1.to_bits()), || format!("{}: {flag0} -> {flag1} at end health {l1:.3}", ix.name));
            if flag1 && l1 > -1.0 + e1 {
                out.fail("C09", &format!("still-marked:{}", ix.name), format!("{} left {k} marked with end health {l1:.6}", ix.name));
            }
            if !flag1 && surely && l1 < -1.0 - e1 {
                out.fail("C09", &format!("unmarked:{}", ix.name), format!("{} left {k} unmarked with end health {l1:.6}", ix.name));
            }
            if acted && !wind_down && l1 < l - e1 - 1e-9 * l.abs() && l1 < -1.0 {
                out.count("lowered");
            }
        }
    }
}
/// would exchanging any debt for collateral help?
fn must_act(h: &Hc, ix: &Ix) -> bool {
    let mut a = ix.args();
    let (at, lt) = (a.u16(), a.u16());
    let max = a.i80();
    let (Some((_, ab)), Some((_, lb))) = (bank_at(ix.pre, ix, at), bank_at(ix.pre, ix, lt)) else { return false };
    let (Some(ta), Some(tl)) = (h.tok(at), h.tok(lt)) else { return false };
    let ft = (1.0 + f(lb.liquidation_fee) + f(lb.platform_liquidation_fee)) * (1.0 + f(ab.liquidation_fee) + f(ab.platform_liquidation_fee));
    let gain = tl.oracle * (f(lb.init_liab_weight) - ft * f(ab.init_asset_weight));
    let e = h.effective(HT::LiqEnd, false);
    let eff = |i: u16| h.toks.iter().zip(&e).find(|(t, _)| t.idx == i).map_or(0.0, |x| *x.1);
    let debt = (-tl.spot).min(-eff(lt));
    let have = ta.spot.min(eff(at));
    gain > 1e-9 * tl.oracle && debt > 1e-3 && max > 1e-3 && have * ta.oracle > 1e-3 * tl.oracle * ft && -h.health(HT::LiqEnd) / gain > 1e-3
}
/// is there certainly something left to liquidate?
fn phase2_surely(h: &Hc) -> bool {
    let e = h.effective(HT::LiqEnd, false);
    let tol = h.tol + 1e-9;
    let spot = h.toks.iter().zip(&e).any(|(t, e)| t.spot < -tol && *e < -tol * 1e3)
        && h.toks.iter().zip(&e).any(|(t, e)| t.spot >= 1.0 + tol && *e >= 1.0 + tol * 1e3 && t.liquidatable_asset);
    spot || h.perps.iter().any(|p| p.lots != 0 || p.has_fills || p.quote > tol)
}
impl Monitor for Phases {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        let liq = LIQ.iter().find(|(n, _)| *n == ix.name);
        if let Some((_, who)) = liq {
            if let Some(k) = ix.acc(who) {
                self.liq(ix, k, out);
            }
        }
        for k in ix.changed() {
            let (Some(a0), Some(a1)) = (ix.pre.accounts.get(&k), ix.post.accounts.get(&k)) else { continue };
            let (f0, f1) = (a0.fx.being_liquidated(), a1.fx.being_liquidated());
            let target = liq.map_or(false, |(_, who)| ix.acc(who) == Some(k));
            if f1 && !f0 && !target {
                out.fail("C09", &format!("marks:{}", ix.name), format!("{} marked {k} as being liquidated", ix.name));
            }
            if f0 && !f1 {
                let a = [liq_health(ix.pre, a0, ix), liq_health(ix.post, a1, ix), {
                    // prices that moved with the instruction
                    let mut s = ix.pre.clone();
                    s.perps = ix.post.perps.clone();
                    liq_health(&s, a0, ix)
                }];
                let best = a.iter().flatten().map(|h| h.health(HT::LiqEnd) + h.err(HT::LiqEnd)).fold(f64::NEG_INFINITY, f64::max);
                out.eval("recovers", (ix.name, best.to_bits()), || format!("{}: end health {best:.3}", ix.name));
                if a.iter().any(|x| x.is_some()) && best < -1.0 - 1e-6 {
                    out.fail("C09", &format!("recovers:{}", ix.name), format!("{} cleared the mark of {k} at end health {best:.6}", ix.name));
                }
            }
            // a deposit that brings the account back clears the mark
            if f1 && ix.is(&["token_deposit", "token_deposit_into_existing"]) && !a1.fx.is_in_health_region() {
                if let Some(h) = liq_health(ix.post, a1, ix) {
                    let (l, e) = (h.health(HT::LiqEnd), h.err(HT::LiqEnd));
                    out.eval("deposit-while-marked", l.to_bits(), || format!("end health {l:.3}"));
                    if l > -1.0 + e && h.bad.is_empty() {
                        out.fail("C09", "still-marked:token_deposit", format!("a deposit left {k} marked with end health {l:.6}"));
                    } else if l < -1.0 - e {
                        out.fail("C09", "sunk-deposit", format!("a deposit into {k} was accepted although it stays under liquidation with end health {l:.6}"));
                    }
                }
            }
        }
    }
    fn failed(&mut self, t: &Tx, out: &mut Out) {
        use crate::svm::IxErr;
        let Err((i, IxErr::Program(solana_program::program_error::ProgramError::Custom(c)))) = &t.rec.result else { return };
        let Some(a) = ix_abi(&t.rec.ixs[*i].data) else { return };
        let being = mango_v4::error::MangoError::BeingLiquidated as u32 + 6000;
        if *c == being {
            out.eval("refused-while-marked", (a.name, t.rec.ixs[*i].accounts.get(1).map(|m| m.pubkey)), || a.name.to_string());
            if a.name.starts_with("token_deposit") || a.name.contains("cancel") {
                out.fail("C09", &format!("refused:{}", a.name), format!("{} was refused because the account is being liquidated", a.name));
            }
        }
    }
}

/// Where a withdrawal of `l` leaves a balance, and the origination fee
pub fn withdrawn(p0: &BigInt, l: &BigInt, rate: fixed::types::I80F48) -> (BigInt, BigInt) {
    let loan = (l - p0.clone().max(BigInt::zero())).max(BigInt::zero()).min(l.clone());
    let fee = mul_fx(&loan, rate);
    (p0 - l - &fee, fee)
}
/// the inverse: how much was withdrawn, given both ends
pub fn withdrawal(p0: &BigInt, p1: &BigInt, rate: fixed::types::I80F48) -> BigInt {
    let total = p0 - p1;
    if !p1.is_negative() {
        return total;
    }
    let own = p0.clone().max(BigInt::zero());
    // total = own + loan * (1 + rate)
    let r = (BigInt::one() << 48usize) + bits(rate);
    &own + (((&total - &own) << 48usize) / r)
}
pub fn big(x: f64) -> BigInt {
    // 2^-96 units of a float
    let (m, e) = {
        let b = x.to_bits();
        let e = ((b >> 52) & 0x7ff) as i64;
        let m = b & ((1 << 52) - 1);
        (if e == 0 { m << 1 } else { m | 1 << 52 }, e - 1075)
    };
    let v = BigInt::from(m);
    let s = e + 96;
    let v = if s >= 0 { v << s as usize } else { v >> (-s) as usize };
    if x < 0.0 { -v } else { v }
}
pub fn bank_at<'a>(s: &'a State, ix: &Ix, tok: u16) -> Option<(Pubkey, std::rc::Rc<mango_v4::state::Bank>)> {
    // the bank the instruction moved, or else the named one
    let all: Vec<Pubkey> = ix.rec.metas.iter().map(|m| m.pubkey).filter(|k| s.banks.get(k).map_or(false, |b| b.token_index == tok)).collect();
    let ch = ix.changed();
    let k = all.iter().find(|k| ch.contains(k)).or(all.last())?;
    Some((*k, s.banks[k].clone()))
}

/// Exchange of tokens in liquidation
#[derive(Default)]
pub struct TokenLiq {}
impl Monitor for TokenLiq {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        if !ix.is(&["token_liq_with_token"]) {
            return;
        }
        let (Some(lq), Some(lr)) = (ix.acc("liqee"), ix.acc("liqor")) else { return };
        let (Some(q0), Some(r0)) = (ix.pre.accounts.get(&lq).cloned(), ix.pre.accounts.get(&lr).cloned()) else { return };
        let (q1, r1) = (&ix.post.accounts[&lq], &ix.post.accounts[&lr]);
        if same_positions(&q0, q1) && same_positions(&r0, r1) {
            return;
        }
        let mut a = ix.args();
        let (at, lt) = (a.u16(), a.u16());
        let max = a.i80();
        let (Some((ak, ab)), Some((lk, lb))) = (bank_at(ix.pre, ix, at), bank_at(ix.pre, ix, lt)) else { return };
        let (ab1, lb1) = (&ix.post.banks[&ak], &ix.post.banks[&lk]);
        let Some(h) = liq_health(ix.pre, &q0, ix) else { return };
        if !h.ordered() {
            out.count("weights-not-ordered");
            return;
        }
        let (Some(ai), Some(li)) = (h.toks.iter().position(|t| t.idx == at), h.toks.iter().position(|t| t.idx == lt)) else {
            out.fail("C10", "no-position", "liquidated tokens the account does not have".into());
            return;
        };
        let (ta, tl) = (&h.toks[ai], &h.toks[li]);
        let (ap, lp) = (ta.oracle, tl.oracle);
        let ff = (1.0 + f(lb.liquidation_fee)) * (1.0 + f(ab.liquidation_fee));
        let ft = (1.0 + f(lb.liquidation_fee) + f(lb.platform_liquidation_fee)) * (1.0 + f(ab.liquidation_fee) + f(ab.platform_liquidation_fee));
        let l0 = h.health(HT::LiqEnd);
        let eff = h.effective(HT::LiqEnd, false);
        let lopa = lp * ft;
        let gain = tl.liab_price(HT::LiqEnd) * f(lb.init_liab_weight) - lopa * f(ab.init_asset_weight);
        let needed = if gain > 0.0 { -l0 / gain } else { 0.0 };
        let (pa, pl) = (fl(&pos(ix.pre, &lq, &ab)), fl(&pos(ix.pre, &lq, &lb)));
        let debt = (-pl).min(-eff[li]).max(0.0);
        let have = pa.min(eff[ai]).max(0.0);
        let want = needed.min(have * ap / lopa).min(debt).min(max).max(0.0);
        // how much debt did move?
        let (rl0, rl1) = (pos(ix.pre, &lr, &lb), pos(ix.post, &lr, lb1));
        let l = withdrawal(&rl0, &rl1, lb.loan_origination_fee_rate);
        let lf = fl(&l);
        let slack = if rl1.is_zero() { 1.0 } else { 0.0 };
        // the fixed point value of the health gained per token has limited resolution
        let prec = if gain > 0.0 { 1e-10 + 1e-13 * (1.0 + lopa) / gain } else { 1.0 };
        let tol = want * prec + fl(&ulp(&lb)) * 8.0 + h.err(HT::LiqEnd) / gain.abs().max(1e-12) + 1e-6 + 1e-13 / lopa + slack;
        out.eval("exchange", (l.clone(), want.to_bits()), || {
            format!("{lf:.6} of token {lt} at {lp} for token {at} at {ap} (needed {needed:.6}, collateral allows {:.6}, debt {debt:.6}, asked {max:.6})", have * ap / lopa)
        });
        let bound = [("needed", needed), ("collateral", have * ap / lopa), ("debt", debt), ("asked", max)];
        out.count(&format!("bound:{}", bound.iter().min_by(|x, y| x.1.partial_cmp(&y.1).unwrap()).unwrap().0));
        let d = format!(
            "token {lt}@{lp} debt {pl:.6} ({:.6}) for token {at}@{ap} {pa:.6} ({:.6}), end health {l0:.6}, asked {max:.6}: moved {lf:.9}, should be {want:.9} (+-{tol:.2e})",
            eff[li], eff[ai]
        );
        if (lf - want).abs() > tol {
            out.fail("C10", if lf > want { "too-much" } else { "too-little" }, d.clone());
        }
        if !ta.liquidatable_asset {
            out.fail("C10", "disabled-asset", format!("{d}: collateral that must not be liquidated"));
        }
        // everything else follows from that amount
        let lu = fl(&ulp(&lb)) * 8.0;
        let small = |x: f64| -> BigInt { big(x.abs() * 1e-10 + 1e-6 + 1e-13 / ap + (slack + lu) * lp / ap * ft) };
        let base = lf * lp / ap;
        let ulps: BigInt = (ulp(&ab) + ulp(&lb)) * 8;
        let rt: BigInt = &ulps + big(slack + 1e-9);
        let e = pos(ix.pre, &lq, &lb) + &l;
        if !ends_at(ix.post, &lq, lb1, &e, &rt, true) {
            out.fail("C10", "liqee-debt", format!("{d}; the debt ended at {:.9}, should be {:.9}", fl(&pos(ix.post, &lq, lb1)), fl(&e)));
        }
        let (e, fee) = withdrawn(&rl0, &l, lb.loan_origination_fee_rate);
        if !ends_at(ix.post, &lr, lb1, &e, &rt, true) {
            out.fail("C10", "liqor-debt", format!("{d}; the liquidator's balance ended at {:.9}, should be {:.9}", fl(&rl1), fl(&e)));
        }
        let from = base * ft;
        let to = base * ff;
        let e = pos(ix.pre, &lq, &ab) - big(from);
        if !ends_at(ix.post, &lq, ab1, &e, &(small(from) + &ulps), true) {
            out.fail("C10", "liqee-collateral", format!("{d}; collateral ended at {:.9}, should be {:.9}", fl(&pos(ix.post, &lq, ab1)), fl(&e)));
        }
        let e = pos(ix.pre, &lr, &ab) + big(to);
        if !ends_at(ix.post, &lr, ab1, &e, &(small(from) + &ulps), true) {
            out.fail("C10", "liqor-collateral", format!("{d}; the liquidator's collateral ended at {:.9}, should be {:.9}", fl(&pos(ix.post, &lr, ab1)), fl(&e)));
        }
        for (n, x, want) in [
            ("platform fee", fx(ab1.collected_fees_native) - fx(ab.collected_fees_native), big(from - to)),
            ("liquidation fee", fx(ab1.collected_liquidation_fees) - fx(ab.collected_liquidation_fees), big(from - to)),
            ("origination fee", fx(lb1.collected_fees_native) - fx(lb.collected_fees_native), fee),
        ] {
            if (&x - &want).abs() > small(from) + big(slack) {
                out.fail("C10", n, format!("{d}; {n} {:.9}, should be {:.9}", fl(&x), fl(&want)));
            }
        }
        // never harmful, never more than needed
        if let Some(h1) = liq_health(ix.post, q1, ix) {
            let l1 = h1.health(HT::LiqEnd);
            // a dusted token is less than one
            let dust = lp.max(ap) * 2.0;
            let e = h.err(HT::LiqEnd) + h1.err(HT::LiqEnd) + 1e-6 + dust;
            if l1 < l0 - e {
                out.fail("C10", "harmful", format!("{d}; end health fell to {l1:.6}"));
            }
            if l1 > l0.max(0.0) + e + 1e-9 * l0.abs() {
                out.fail("C10", "overshoot", format!("{d}; end health rose to {l1:.6}"));
            }
        }
    }
}

/// Bankrupt debt
#[derive(Default)]
pub struct TokenBankruptcy {}
impl Monitor for TokenBankruptcy {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        if !ix.is(&["token_liq_bankruptcy"]) {
            return;
        }
        let (Some(lq), Some(lr)) = (ix.acc("liqee"), ix.acc("liqor")) else { return };
        let Some(q0) = ix.pre.accounts.get(&lq).cloned() else { return };
        let Some(mi) = ix.acc("liab_mint_info").and_then(|k| ix.pre.mints.get(&k)).cloned() else { return };
        let lt = mi.token_index;
        let banks0 = ix.pre.banks_of(mi.group, lt);
        let banks1 = ix.post.banks_of(mi.group, lt);
        let (Some(iv), Some(g)) = (ix.acc("insurance_vault"), ix.pre.groups.get(&mi.group)) else { return };
        let max = ix.args().i80();
        let Some(h) = liq_health(ix.pre, &q0, ix) else { return };
        let Some(li) = h.toks.iter().position(|t| t.idx == lt) else {
            out.fail("C11", "no-position", "bankruptcy of a token the account does not have".into());
            return;
        };
        // indexes agree on all banks; which one carries the balance does not matter for values
        let lb = banks0[0].1.clone();
        let lb1 = banks1[0].1.clone();
        let eff = h.effective(HT::LiqEnd, false);
        let p0 = pos(ix.pre, &lq, &lb);
        let pf = fl(&p0);
        let rem = (-pf).min(-eff[li]);
        if rem < -1e-6 {
            out.fail("C11", "no-debt", format!("bankruptcy with balance {pf:.6} ({:.6})", eff[li]));
            return;
        }
        let ins_mint = ix.pre.tokens.get(&iv).map(|t| t.mint);
        if iv != g.insurance_vault || ins_mint != Some(g.insurance_mint) {
            out.fail("C11", "wrong-vault", format!("insurance taken from {iv}"));
        }
        let rem_keys: Vec<Pubkey> = ix.remaining().collect();
        let Some(ib) = rem_keys.iter().rev().filter_map(|k| ix.pre.banks.get(k)).find(|b| b.mint == g.insurance_mint).cloned() else { return };
        let same = ib.token_index == lt;
        let Some(ip) = bank_price(ix.pre, &ib, ix.now, ix.slot, None).ok() else { return };
        let lp = h.toks[li].oracle;
        let factor = if same { 1.0 } else { lp * (1.0 + f(lb.liquidation_fee)) / ip };
        let eligible = mi.group_insurance_fund != 0;
        let v0 = ix.pre.tok_amount(&iv);
        let paid = v0 as f64 - ix.post.tok_amount(&iv) as f64;
        let avail = if eligible { v0 } else { 0 } as f64;
        let unr = rem.min(max) * factor;
        let slack = 1e-6 + unr.abs() * 1e-9;
        let (lo, hi) = ((unr - slack).ceil().max(0.0).min(avail), (unr + slack).ceil().max(0.0).min(avail));
        let d = format!("debt {pf:.6} ({:.6}) of token {lt} at {lp}, asked {max:.6}, insurance {v0} (eligible {eligible}) at {ip}: paid {paid}", eff[li]);
        if paid < lo || paid > hi {
            out.fail("C11", "insurance", format!("{d}, should be {lo}..{hi}"));
        }
        let exhausted = paid == avail;
        let t = paid / factor;
        let tt = 1e-6 + t.abs() * (1e-10 + 1e-13 / factor);
        let tol: BigInt = big(tt) + ulp(&lb) * 16;
        let mut rest = &p0 + big(t);
        // small remainders above zero are dusted
        if !rest.is_negative() && rest < one() {
            rest = BigInt::zero();
        }
        let left = -fl(&rest).min(0.0);
        let left = left.min(rem - t + 1.0);
        let kind = match (paid > 0.0, exhausted && left > tt) {
            (true, true) => "insured-and-shared",
            (true, false) => "insured",
            (false, true) => "shared",
            _ => "nothing",
        };
        out.eval(kind, (p0.clone(), v0, banks0.len()), || d.clone());
        if banks0.len() > 1 {
            out.count(&format!("{kind}-multi-bank"));
        }
        // the liquidator's side
        if lr != lq {
            let l = big(t);
            let before = pos(ix.pre, &lr, &lb);
            let (want, fee) = if same || paid == 0.0 { (before, BigInt::zero()) } else { withdrawn(&before, &l, lb.loan_origination_fee_rate) };
            // the liquidator's own deposit may share the loss: value it with the old index
            if !ends_at(ix.post, &lr, &lb, &want, &tol, paid > 0.0) {
                out.fail("C11", "liqor-debt", format!("{d}; the liquidator's balance ended at {:.9}, should be {:.9}", fl(&pos(ix.post, &lr, &lb)), fl(&want)));
            }
            let df: BigInt = banks0.iter().zip(&banks1).map(|(x, y)| fx(y.1.collected_fees_native) - fx(x.1.collected_fees_native)).sum();
            if (&df - &fee).abs() > tol {
                out.fail("C11", "origination-fee", format!("{d}; fee {:.9}, should be {:.9}", fl(&df), fl(&fee)));
            }
            if !same {
                let e = pos(ix.pre, &lr, &ib) + nat(BigInt::from(paid as u64));
                if !ends_at(ix.post, &lr, &ib, &e, &(ulp(&ib) * 8), true) {
                    out.fail("C11", "liqor-insurance", format!("{d}; the liquidator's insurance tokens ended at {:.9}, should be {:.9}", fl(&pos(ix.post, &lr, &ib)), fl(&e)));
                }
            }
        }
        // the shared part
        let idx0 = lb.deposit_index;
        if exhausted && left > 2.0 * tt {
            let total: f64 = banks1.iter().map(|(_, b)| f(b.indexed_deposits)).sum();
            let want = f(idx0) - left / total;
            if want <= 0.0 && banks1.iter().any(|(_, b)| b.deposit_index <= 0) {
                out.fail("C11", "loss-exceeds-deposits", format!("{d}; a loss of {left:.6} is shared by {:.6} of deposits: lenders end up owing (index {})", total * f(idx0), f(banks1[0].1.deposit_index)));
            }
            let itol = 4e-15 * 4.0 + (tt + 1e-9 * left) / total;
            for (k, b) in &banks1 {
                if (f(b.deposit_index) - want).abs() > itol + want.abs() * 1e-15 {
                    out.fail("C11", "loss", format!("{d}; left {left:.9} over {total:.6} indexed deposits: index of bank {k} {} -> {}, should be {want}", f(idx0), f(b.deposit_index)));
                }
                if b.borrow_index != lb.borrow_index {
                    out.fail("C11", "borrow-index", format!("{d}: borrow index changed"));
                }
            }
            let p1 = pos(ix.post, &lq, &lb1);
            if !p1.is_zero() {
                out.fail("C11", "debt-left", format!("{d}; {:.9} left", fl(&p1)));
            }
        } else if !exhausted || left < tt / 2.0 && rest > -tol.clone() && rest >= one() {
            for (k, b) in &banks1 {
                if b.deposit_index != idx0 || b.borrow_index != lb.borrow_index {
                    out.fail("C11", "needless-loss", format!("{d}: index of bank {k} changed {} -> {}", f(idx0), f(b.deposit_index)));
                }
            }
            if !ends_at(ix.post, &lq, &lb1, &rest, &tol, true) {
                out.fail("C11", "liqee-debt", format!("{d}; the debt ended at {:.9}, should be {:.9}", fl(&pos(ix.post, &lq, &lb1)), fl(&rest)));
            }
        } else {
            out.count("at-the-edge");
        }
    }
}
