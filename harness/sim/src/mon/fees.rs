//! Protocol fees: collateral fees, fee rebates, payouts to the admin.
use super::ledger::*;
use super::liq::{big, liq_health};
use super::{Ix, Monitor, Out, Tx};
use crate::spec::{bank_price, Price, HT};
use crate::st::f;
use mango_v4::state::Bank;
use num_bigint::BigInt;
use num_traits::{Signed, Zero};
use solana_program::pubkey::Pubkey;
use std::collections::HashMap;

#[derive(Default)]
pub struct Protocol {
    /// fees seen coming in and paid out per bank or market since it was first seen
    paid: HashMap<Pubkey, (BigInt, BigInt)>,
    /// when an account was last charged collateral fees, and for how long in total
    charged: HashMap<Pubkey, (u64, u64)>,
    first: HashMap<Pubkey, u64>,
}

impl Monitor for Protocol {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        self.payouts(ix, out);
        match ix.name {
            "token_charge_collateral_fees" => self.collateral(ix, out),
            "account_buyback_fees_with_mngo" => self.buyback(ix, out),
            "admin_token_withdraw_fees" | "admin_perp_withdraw_fees" | "group_withdraw_insurance_fund" => self.withdraw(ix, out),
            _ => {}
        }
    }
}
/// Fees that the discount token can buy back are counted as they are paid.
#[derive(Default)]
pub struct Accrual {}
/// (current, previous, expiry) once what is too old is forgotten
fn aged(x: &mango_v4::state::MangoAccountFixed, now: u64, int: u64) -> (u64, u64, u64) {
    let t = x.buyback_fees_expiry_timestamp;
    let (cur, prev) = (x.buyback_fees_accrued_current, x.buyback_fees_accrued_previous);
    if int == 0 || now < t {
        (cur, prev, t)
    } else {
        (0, if now < t + int { cur } else { 0 }, (now / int + 1) * int)
    }
}
fn counted(x: &mango_v4::state::MangoAccountFixed) -> (u64, u64, u64) {
    (x.buyback_fees_accrued_current, x.buyback_fees_accrued_previous, x.buyback_fees_expiry_timestamp)
}
impl Monitor for Accrual {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        for k in ix.changed() {
            let (Some(a), Some(b)) = (ix.pre.accounts.get(&k), ix.post.accounts.get(&k)) else { continue };
            let (c0, c1) = (counted(&a.fx), counted(&b.fx));
            let Some(g) = ix.pre.groups.get(&a.fx.group) else { continue };
            let old = aged(&a.fx, ix.now, g.buyback_fees_expiry_interval);
            match ix.name {
                // judged with the trade
                n if n.starts_with("perp_place_order") || n == "account_buyback_fees_with_mngo" => {}
                "perp_consume_events" => {
                    let Some(m) = ix.acc("perp_market").and_then(|k| ix.pre.perps.get(&k)) else { continue };
                    let (Some(q0), Some(q1)) = (ix.pre.queue(&m.event_queue), ix.post.queue(&m.event_queue)) else { continue };
                    let n = q0.events.len() - q1.events.len().min(q0.events.len());
                    let (mut lo, mut hi, mut paid) = (0u64, 0u64, false);
                    for e in &q0.events[..n] {
                        let crate::st::Ev::Fill(e) = e else { continue };
                        if e.maker != k || e.maker_fee <= 0.0 {
                            continue;
                        }
                        let fee = e.price as f64 * e.quantity as f64 * m.quote_lot_size as f64 * e.maker_fee as f64;
                        paid = true;
                        lo += (fee * (1.0 - 1e-6) - 1e-6).max(0.0).floor() as u64;
                        hi += (fee * (1.0 + 1e-6) + 1e-6).floor() as u64;
                    }
                    let w = if paid { old } else { c0 };
                    out.eval("maker-fees-accrue", (k, c1, lo, hi), || format!("{c0:?} -> {c1:?}, {lo} to {hi} paid"));
                    if c1.0 < w.0 + lo || c1.0 > w.0 + hi || c1.1 != w.1 || c1.2 != w.2 {
                        out.fail("C26", "maker-fees-accrue", format!("fees for buyback of {k} went from {c0:?} to {c1:?}, should be {w:?} plus {lo} to {hi} at {}", ix.now));
                    }
                }
                "serum3_settle_funds_v2" => {
                    if !ix.args().bool() {
                        if c0 != c1 {
                            out.fail("C26", "rebates-accrue", format!("fees for buyback of {k} went from {c0:?} to {c1:?} with the rebates left to the user"));
                        }
                        continue;
                    }
                    if c1.1 != old.1 || c1.2 != old.2 || c1.0 < old.0 {
                        out.fail("C26", "rebates-accrue", format!("fees for buyback of {k} went from {c0:?} to {c1:?}, should be {old:?} and what is new at {}", ix.now));
                    }
                    out.eval("rebates-accrue", (k, c1), || format!("{c0:?} -> {c1:?}"));
                }
                _ if c0 != c1 => out.fail("C26", &format!("accrued-by:{}", ix.name), format!("{} changed the fees for buyback of {k} from {c0:?} to {c1:?}", ix.name)),
                _ => {}
            }
        }
    }
}
impl Protocol {
    /// never more is paid out than came in
    fn payouts(&mut self, ix: &Ix, out: &mut Out) {
        for k in ix.changed() {
            let (in0, in1, o0, o1, what) = if let (Some(a), Some(b)) = (ix.pre.banks.get(&k), ix.post.banks.get(&k)) {
                (fx(a.collected_fees_native), fx(b.collected_fees_native), a.fees_withdrawn, b.fees_withdrawn, "token")
            } else if let (Some(a), Some(b)) = (ix.pre.perps.get(&k), ix.post.perps.get(&k)) {
                (fx(a.fees_settled), fx(b.fees_settled), a.fees_withdrawn, b.fees_withdrawn, "perp")
            } else {
                continue;
            };
            let w = format!("{what} {k}: collected {:.6} -> {:.6}, paid out {o0} -> {o1}", fl(&in0), fl(&in1));
            if in1 < in0 {
                out.fail("C26", &format!("fees-shrink:{}", ix.name), format!("{}: {w}", ix.name));
            }
            if o1 != o0 && !ix.is(&["admin_token_withdraw_fees", "admin_perp_withdraw_fees"]) {
                out.fail("C26", &format!("payout-by:{}", ix.name), format!("{}: {w}", ix.name));
            }
            let e = self.paid.entry(k).or_insert_with(|| (in0.clone(), nat(o0)));
            e.0 += &in1 - &in0;
            e.1 += nat(o1) - nat(o0);
            if e.1 > e.0 {
                out.fail("C26", "paid-twice", format!("{}: {w}; in total {:.6} in, {:.6} out", ix.name, fl(&e.0), fl(&e.1)));
            }
        }
    }
    fn withdraw(&mut self, ix: &Ix, out: &mut Out) {
        let insurance = ix.name == "group_withdraw_insurance_fund";
        let (Some(v), Some(d)) = (
            ix.acc(if insurance { "insurance_vault" } else { "vault" }),
            ix.acc(if insurance { "destination" } else { "token_account" }),
        ) else {
            return;
        };
        let g = ix.acc("group").and_then(|k| ix.pre.groups.get(&k)).cloned();
        let (v0, v1) = (ix.pre.tok_amount(&v), ix.post.tok_amount(&v));
        let (d0, d1) = (ix.pre.tok_amount(&d), ix.post.tok_amount(&d));
        let (due, done) = match ix.name {
            "admin_token_withdraw_fees" => {
                let Some(k) = ix.acc("bank") else { return };
                let (a, b) = (&ix.pre.banks[&k], &ix.post.banks[&k]);
                if a.vault != v {
                    out.fail("C26", "wrong-vault", format!("fees of {k} paid from {v}"));
                }
                ((a.collected_fees_native.to_bits() >> 48) as u64 - a.fees_withdrawn, b.fees_withdrawn - a.fees_withdrawn)
            }
            "admin_perp_withdraw_fees" => {
                let Some(k) = ix.acc("perp_market") else { return };
                let (a, b) = (&ix.pre.perps[&k], &ix.post.perps[&k]);
                let bk = ix.acc("bank").unwrap_or_default();
                if ix.pre.banks.get(&bk).map_or(true, |b| b.vault != v || b.token_index != a.settle_token_index) {
                    out.fail("C26", "wrong-vault", format!("fees of {k} paid from {v}"));
                }
                ((a.fees_settled.to_bits() >> 48) as u64 - a.fees_withdrawn, b.fees_withdrawn - a.fees_withdrawn)
            }
            _ => {
                if g.as_ref().map_or(true, |g| g.insurance_vault != v) {
                    out.fail("C26", "wrong-vault", format!("insurance paid from {v}"));
                }
                let n = ix.args().u64();
                (n, n.min(v0))
            }
        };
        let pay = due.min(v0);
        if pay > 0 {
            out.eval(if insurance { "insurance-paid" } else { "fees-paid" }, (v, v0, pay), || format!("{}: {pay} of {due}, vault {v0}", ix.name));
        }
        if v == d {
            out.count("paid-to-itself");
            return;
        }
        if v0 - v1 != pay || d1.wrapping_sub(d0) != pay || done != pay {
            out.fail("C26", &format!("payout:{}", ix.name), format!("{}: vault {v0} -> {v1}, receiver {d0} -> {d1}, recorded {done}; due {due}", ix.name));
        }
        let admin = ix.acc("admin").unwrap_or_default();
        if g.map_or(true, |g| g.admin != admin) || !ix.signed(&admin) {
            out.fail("C26", "payout-signer", format!("{} by {admin}", ix.name));
        }
    }

    fn collateral(&mut self, ix: &Ix, out: &mut Out) {
        let Some(k) = ix.acc("account") else { return };
        let Some(g) = ix.acc("group").and_then(|k| ix.pre.groups.get(&k)) else { return };
        let (a, b) = (&ix.pre.accounts[&k], &ix.post.accounts[&k]);
        let (last, int) = (a.fx.last_collateral_fee_charge, g.collateral_fee_interval);
        let moved = |bk: &Pubkey| {
            let (x, y) = (&ix.pre.banks[bk], &ix.post.banks[bk]);
            (pos(ix.pre, &k, x) - pos(ix.post, &k, y), fx(y.collected_fees_native) - fx(x.collected_fees_native), fx(y.collected_collateral_fees) - fx(x.collected_collateral_fees))
        };
        let banks: Vec<Pubkey> = ix.remaining().filter(|k| ix.pre.banks.contains_key(k)).collect();
        let nothing = banks.iter().all(|b| {
            let m = moved(b);
            m.0.is_zero() && m.1.is_zero() && m.2.is_zero()
        });
        let due = int > 0 && last > 0 && ix.now >= last + int;
        let stamp = if int == 0 { 0 } else if last == 0 || due { ix.now } else { last };
        let d = format!("{k}: charged last at {last}, now {}, every {int}", ix.now);
        if b.fx.last_collateral_fee_charge != stamp {
            out.fail("C26", "collateral-stamp", format!("{d}: now recorded {}", b.fx.last_collateral_fee_charge));
        }
        if !due {
            out.eval("collateral-not-due", (k, last, ix.now), || d.clone());
            if !nothing {
                out.fail("C26", "collateral-early", format!("{d}: charged"));
            }
            return;
        }
        let secs = (ix.now - last).min(2 * int);
        // over an account's life
        let first = *self.first.entry(k).or_insert(last);
        let Some(h) = liq_health(ix.pre, a, ix) else {
            out.count("collateral-not-computable");
            return;
        };
        let (_, liabs) = h.assets_liabs();
        let e = 1.0 + liabs * 1e-9 + h.tol;
        if liabs < 100e6 + e {
            out.eval("collateral-small", (k, liabs.to_bits()), || format!("{d}: debts of {liabs}"));
            if !nothing && liabs < 100e6 - e {
                out.fail("C26", "collateral-small", format!("{d}: charged with debts of {liabs} only"));
            }
            return;
        }
        let mut bal = h.effective(HT::Maint, false);
        // what went into each balance, for rounding
        let mut mag: Vec<f64> = h.toks.iter().map(|t| t.spot.abs() + h.perps.iter().filter(|p| p.settle == t.idx).map(|p| p.hupnl(HT::Maint).abs() + p.quote.abs()).sum::<f64>()).collect();
        for s in &h.sers {
            mag[s.base] += s.res_base;
            mag[s.quote] += s.res_quote;
            bal[s.base] += s.res_base;
            bal[s.quote] += s.res_quote;
        }
        let con: Vec<f64> = h.toks.iter().zip(&bal).map(|(t, x)| x * if *x < 0.0 { t.lwp(HT::Maint) } else { t.awp(HT::Maint) }).collect();
        let assets: f64 = con.iter().filter(|x| **x > 0.0).sum();
        let debts: f64 = -con.iter().filter(|x| **x < 0.0).sum::<f64>();
        // balances around zero of valuable tokens would be amplified
        if assets < 1.0 + h.tol * 1e3 || debts < 1.0 + h.tol * 1e3 {
            out.count("collateral-too-small-to-judge");
            if !nothing && (assets <= 0.0 || debts <= 0.0) && assets.abs().min(debts.abs()) == 0.0 && h.tol < 1.0 {
                let v: f64 = banks.iter().map(|b| fl(&moved(b).2)).sum();
                if v > h.tol + 1.0 {
                    out.fail("C26", "collateral-nothing-used", format!("{d}: charged with assets {assets} and debts {debts}"));
                }
            }
            return;
        }
        let usage = (debts / assets).min(1.0);
        let time = secs as f64 / 86400.0;
        let rel = 1e-8 + h.tol / assets + h.tol / debts;
        let mut usd = 0.0;
        let mut used = 0;
        let d = format!("{d}: {secs} s, assets {assets}, debts {debts}");
        let n = a.active_tokens().count();
        for bk in banks.iter().take(n) {
            let bank = &ix.pre.banks[bk];
            let Some(i) = h.toks.iter().position(|t| t.idx == bank.token_index) else { continue };
            let rate = bank.collateral_fee_per_day as f64;
            let fee = if rate > 0.0 && !bank.maint_asset_weight.is_zero() && bal[i] > 0.0 { bal[i] * usage * time * rate } else { 0.0 };
            usd += fee * h.toks[i].oracle;
            used += (fee > 0.0) as usize;
            let got = fl(&moved(bk).2);
            let tol = 1e-12 + fee * rel + mag[i] * (1e-14 + 2e-15 * time) + 1e-9;
            if (got - fee).abs() > tol {
                out.fail("C26", "collateral-fee", format!("{d}: token {} with {} at {rate} a day: {got}, should be {fee}", bank.token_index, bal[i]));
            }
        }
        out.eval(if used > 0 { "collateral-charged" } else { "collateral-free" }, (k, ix.now, debts.to_bits()), || format!("{d}: {usd:.3} USD"));
        let coarse = h.toks.iter().map(|t| t.oracle).sum::<f64>() * 1e-14;
        let max_rate = banks.iter().map(|b| ix.pre.banks[b].collateral_fee_per_day as f64).fold(0.0, f64::max);
        for bk in banks.iter().take(n) {
            let bank = &ix.pre.banks[bk];
            let Some(i) = h.toks.iter().position(|t| t.idx == bank.token_index) else { continue };
            let (paid, fees, _) = moved(bk);
            let fee = if con[i] < 0.0 { -con[i] / debts * usd / h.toks[i].oracle } else { 0.0 };
            // a balance of less than one token may vanish with what is charged
            let tol: BigInt = ulp(bank) * 2 + big(fee * rel + 1e-9 + (usd * (1e-9 + h.tol / debts) + coarse) / h.toks[i].oracle + mag[i] * (1e-14 + 2e-15 * time * max_rate));
            let p = pos(ix.pre, &k, bank);
            let e = &p - big(fee);
            if !ends_at(ix.post, &k, &ix.post.banks[bk], &e, &tol, !in_use(ix.post, &k, bank.token_index)) {
                out.fail("C26", "collateral-paid", format!("{d}: token {} paid {}, should be {fee}; {usd} USD due", bank.token_index, fl(&paid)));
            }
            if (&fees - big(fee)).abs() > tol {
                out.fail("C26", "collateral-collected", format!("{d}: token {} collected {}, should be {fee}", bank.token_index, fl(&fees)));
            }
        }
        let c = self.charged.entry(k).or_insert((0, 0));
        c.0 = ix.now;
        c.1 += secs;
        if c.1 > ix.now - first {
            out.fail("C26", "collateral-overlap", format!("{d}: {} s charged since {first}", c.1));
        }
    }

    fn price(&self, ix: &Ix, b: &Bank, out: &mut Out) -> Option<f64> {
        match bank_price(ix.pre, b, ix.now, ix.slot, Some(&|k: &Pubkey| ix.rec.metas.iter().any(|m| m.pubkey == *k) && *k == b.oracle)) {
            Price::Ok(p) => Some(p),
            Price::Bad => {
                out.fail("C26", "buyback-bad-price", format!("rebate at an unreliable price of token {}", b.token_index));
                None
            }
            Price::Unknown => None,
        }
    }
    fn buyback(&mut self, ix: &Ix, out: &mut Out) {
        let (Some(k), Some(dao), Some(gk)) = (ix.acc("account"), ix.acc("dao_account"), ix.acc("group")) else { return };
        let (Some(mk), Some(fk)) = (ix.acc("mngo_bank"), ix.acc("fees_bank")) else { return };
        let g = &ix.pre.groups[&gk];
        let (a, b) = (&ix.pre.accounts[&k], &ix.post.accounts[&k]);
        let (m0, m1) = (&ix.pre.banks[&mk], &ix.post.banks[&mk]);
        let (f0, f1) = (&ix.pre.banks[&fk], &ix.post.banks[&fk]);
        if g.buyback_fees != 1 || dao != g.buyback_fees_swap_mango_account || k == dao || m0.token_index != g.mngo_token_index || f0.token_index != 0 {
            out.fail("C26", "buyback-not-allowed", format!("{k} with {dao}, tokens {} for {}, enabled {}", m0.token_index, f0.token_index, g.buyback_fees));
            return;
        }
        // what is left of the accrued fees
        let int = g.buyback_fees_expiry_interval;
        let t = a.fx.buyback_fees_expiry_timestamp;
        let (mut cur, mut prev, mut exp) = (a.fx.buyback_fees_accrued_current, a.fx.buyback_fees_accrued_previous, t);
        if int > 0 && ix.now >= t {
            prev = if ix.now < t + int { cur } else { 0 };
            cur = 0;
            exp = (ix.now / int + 1) * int;
        }
        let max = ix.args().u64();
        let (Some(om), Some(of)) = (self.price(ix, m0, out), self.price(ix, f0, out)) else { return };
        let pm = om.min(m0.stable_price_model.stable_price) * g.buyback_fees_mngo_bonus_factor as f64;
        let pf = of.max(f0.stable_price_model.stable_price);
        let (um, uf) = (pos(ix.pre, &k, m0), pos(ix.pre, &k, f0));
        let (dm, df) = (pos(ix.pre, &dao, m0), pos(ix.pre, &dao, f0));
        let avail = cur.saturating_add(prev);
        let mut usd = (max.min(avail) as f64).min(fl(&df) * pf);
        let none = usd <= 0.0 || !um.is_positive();
        let mut mngo = 0.0;
        let mut fees = 0.0;
        if !none {
            mngo = (usd / pm).min(fl(&um));
            usd = usd.min(mngo * pm);
            fees = usd / pf;
        }
        let d = format!("{k}: {cur}+{prev} fees accrued, {max} asked, MNGO {:.6} at {pm}, DAO has {:.6} at {pf}: {usd} USD, {mngo:.6} MNGO for {fees:.6}", fl(&um), fl(&df));
        out.eval(if none { "buyback-nothing" } else { "buyback" }, (k, max, cur, prev, usd.to_bits()), || d.clone());
        // fixed point prices of tokens worth little per unit are rounded noticeably
        let rel = 1e-9 + 1e-14 / pm + 1e-14 / pf + pm * 1e-14 / usd.max(1e-9);
        let tol = |b: &Bank, x: f64| -> BigInt { ulp(b) * 4 + big(x * rel + 1e-9) };
        let (tm, tf) = (tol(m0, mngo), tol(f0, fees));
        let (bm, bf) = (big(mngo), big(fees));
        if none {
            if pos(ix.post, &k, m1) != um || pos(ix.post, &k, f1) != uf || pos(ix.post, &dao, m1) != dm || pos(ix.post, &dao, f1) != df {
                out.fail("C26", "buyback-nothing", format!("{d}; balances changed"));
            }
        } else {
            for (who, key, bank, e, tol) in [("user", &k, m1, &um - &bm, &tm), ("user", &k, f1, &uf + &bf, &tf), ("dao", &dao, m1, &dm + &bm, &tm), ("dao", &dao, f1, &df - &bf, &tf)] {
                if !ends_at(ix.post, key, bank, &e, tol, !in_use(ix.post, key, bank.token_index)) {
                    out.fail("C26", "buyback-moved", format!("{d}; {who} has {:.6} of token {}, should be {:.6}", fl(&pos(ix.post, key, bank)), bank.token_index, fl(&e)));
                }
            }
            let dp = &ix.post.accounts[&dao];
            if dp.tokens.iter().any(|t| t.is_active() && t.indexed_position.is_negative()) || dp.perps.iter().any(|p| p.is_active()) || dp.serum3.iter().any(|p| p.is_active()) {
                out.fail("C26", "buyback-dao", format!("{d}; the DAO account owes or holds positions"));
            }
        }
        // the accrued amount shrinks by what was used, older fees first
        let used = usd.max(0.0);
        let (lo, hi) = if none { (0.0, 0.0) } else { ((used * (1.0 - rel) - 1e-9).ceil(), (used * (1.0 + rel) + 1e-9).ceil()) };
        let ok = |u: u64| {
            let (p, c) = if u > prev { (0, cur.saturating_sub(u - prev)) } else { (prev - u, cur) };
            b.fx.buyback_fees_accrued_previous == p && b.fx.buyback_fees_accrued_current == c
        };
        let (lo, hi) = (lo as u64, hi as u64);
        if hi - lo < 1000 && !(lo..=hi).any(ok) || hi - lo >= 1000 && !ok(lo) && {
            let left = b.fx.buyback_fees_accrued_previous as u128 + b.fx.buyback_fees_accrued_current as u128;
            let gone = avail as u128 - left.min(avail as u128);
            gone < lo as u128 || gone > hi as u128
        } {
            out.fail("C26", "buyback-accrued", format!("{d}; left {}+{}", b.fx.buyback_fees_accrued_current, b.fx.buyback_fees_accrued_previous));
        }
        if b.fx.buyback_fees_expiry_timestamp != exp {
            out.fail("C26", "buyback-expiry", format!("{d}; expiry {t} -> {}, should be {exp}", b.fx.buyback_fees_expiry_timestamp));
        }
    }
}
