//! Perp liquidation and bankruptcy.
use super::ledger::{fl, pos, ulp};
use super::liq::liq_health;
use super::perp::{market_of, oracle_of, pp_tol, Pp};
use super::safety::same_positions;
use super::*;
use crate::spec::*;
use crate::st::{f, State};
use mango_v4::state::Bank;

fn bal(s: &State, k: &Pubkey, b: &Bank) -> f64 {
    fl(&pos(s, k, b))
}
/// did a balance end where it should, give or take dusting?
fn lands(s0: &State, s1: &State, k: &Pubkey, b: &Bank, moved: f64, tol: f64) -> Result<(), String> {
    let (x, y) = (bal(s0, k, b), bal(s1, k, b));
    let t = tol + x.abs() * 1e-12 + fl(&ulp(b)) * 4.0;
    let e = x + moved;
    if (y - e).abs() <= t || y == 0.0 && e > -t && e < 1.0 + t {
        Ok(())
    } else {
        Err(format!("balance {x:.9} became {y:.9}, should be {e:.9}"))
    }
}

#[derive(Default)]
pub struct BaseLiq {}
impl Monitor for BaseLiq {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        if !ix.is(&["perp_liq_base_or_positive_pnl"]) {
            return;
        }
        let (Some((mk, m)), Some(lq), Some(lr)) = (market_of(ix), ix.acc("liqee"), ix.acc("liqor")) else { return };
        let (Some(q0), Some(r0)) = (ix.pre.accounts.get(&lq).cloned(), ix.pre.accounts.get(&lr).cloned()) else { return };
        let (q1, r1) = (ix.post.accounts[&lq].clone(), ix.post.accounts[&lr].clone());
        let mut a = ix.args();
        let max_base = a.i64();
        let max_pnl = a.u64() as f64;
        if same_positions(&q0, &q1) && same_positions(&r0, &r1) {
            return;
        }
        let m1 = ix.post.perps[&mk].clone();
        let Some(op) = oracle_of(ix, &m) else { return };
        let Some(bank) = ix.acc("settle_bank").and_then(|k| ix.pre.banks.get(&k)).cloned() else { return };
        let (mut q, mut r) = (Pp::at(ix.pre, &lq, &m), Pp::at(ix.pre, &lr, &m));
        let (qq, rr) = (Pp::at(ix.post, &lq, &m), Pp::at(ix.post, &lr, &m));
        let (db, dr) = (qq.base - q.base, rr.base - r.base);
        let lot = m.base_lot_size as f64 * op;
        let (fl_, fp) = (f(m.base_liquidation_fee), f(m.platform_liquidation_fee));
        let long = q.base > 0;
        let (f_lr, f_all) = if long { (1.0 - fl_, 1.0 - fl_ - fp) } else { (1.0 + fl_, 1.0 + fl_ + fp) };
        let paid = -db as f64 * lot * f_all;
        let cost = db as f64 * lot * f_lr;
        let tol = pp_tol(&q, &m, op) + pp_tol(&r, &m, op) + 1e-6;
        let pnl = q.quote + paid - qq.quote;
        let pf = f(m.positive_pnl_liquidation_fee);
        let tokens = bal(ix.post, &lq, &bank) - bal(ix.pre, &lq, &bank);
        let h0 = liq_health(ix.pre, &q0, ix);
        let h1 = liq_health(ix.post, &q1, ix);
        let l = |h: &Option<Hc>| h.as_ref().map_or(f64::NAN, |h| h.health(HT::LiqEnd));
        let d = format!(
            "base {} lots moved by {db} (asked {max_base}), pnl {pnl:.6} taken over (asked {max_pnl}) for {tokens:.6} tokens, at {op}, end health {:.4} -> {:.4}",
            q.base, l(&h0), l(&h1)
        );
        let kind = match (db != 0, pnl > tol) {
            (true, true) => "base-and-pnl",
            (true, false) => "base",
            (false, true) => "pnl",
            _ => "nothing",
        };
        out.eval(&format!("perp-liq-{kind}{}", if long { "-long" } else { "" }), (q.base, db, pnl.to_bits()), || d.clone());
        if m.platform_liquidation_fee > 0 && db != 0 {
            out.count("platform-fee");
        }
        if dr != -db {
            out.fail("C12", "base-lost", format!("{d}; the liquidator's base moved by {dr}"));
        }
        if db != 0 && (db.signum() == q.base.signum() || db.abs() > q.base.abs()) {
            out.fail("C12", "not-reduced", d.clone());
        }
        if db.abs() as u64 > max_base.unsigned_abs() {
            out.fail("C12", "base-limit", d.clone());
        }
        if pnl < -tol || pnl > max_pnl + tol {
            out.fail("C12", "pnl-limit", d.clone());
        }
        let want_r = r.quote + cost + pnl;
        if (rr.quote - want_r).abs() > tol {
            out.fail("C12", "liqor-quote", format!("{d}; the liquidator's quote ended at {} and should at {want_r} (fees {fl_} and {fp})", rr.quote));
        }
        let fee = -(cost + paid);
        for (n, x) in [("accrued fees", f(m1.fees_accrued) - f(m.fees_accrued)), ("accrued liquidation fees", f(m1.accrued_liquidation_fees) - f(m.accrued_liquidation_fees))] {
            if (x - fee).abs() > 1e-6 + fee.abs() * 1e-9 + f(m.fees_accrued).abs() * 1e-12 {
                out.fail("C12", "platform-fee", format!("{d}; {n} grew by {x}, should by {fee}"));
            }
        }
        let t = pnl.max(0.0) * (1.0 - pf);
        for (who, k, x) in [("liquidatee", lq, t), ("liquidator", lr, -t)] {
            if pnl > tol {
                if let Err(e) = lands(ix.pre, ix.post, &k, &bank, x, tol) {
                    out.fail("C12", &format!("tokens:{who}"), format!("{d}; {who}'s {e}"));
                }
            } else if (bal(ix.post, &k, &bank) - bal(ix.pre, &k, &bank)).abs() > tol {
                out.fail("C12", &format!("tokens:{who}"), format!("{d}; {who}'s tokens moved without pnl"));
            }
        }
        // settle limits
        q.roll(&m, ix.now);
        let limit = q.limit(&m).1;
        if db != 0 {
            q.trade(db, paid, &m);
            r.trade(-db, cost, &m);
        }
        if pnl > tol {
            // the share of the allowances that goes along with the pnl
            let once = q.oneshot.ceil().max(0.0);
            let whole = q.pnl(&m, op).ceil().max(1.0).max(pnl.floor());
            let most = pnl.ceil();
            let slack = 3.0 + tol + 2.0 * pnl.abs() * 1e-9;
            let share = |x: f64| if x.is_finite() { x * pnl.floor() / whole } else { most };
            let want_rec = share((limit - once).max(0.0)).min(most).max(1.0);
            let want_once = share(once).min(most - want_rec).max(0.0);
            let slack = slack + (limit - once).max(0.0).min(1e18) * 1e-9 + once * (1.0 + tol) / whole;
            let (rec, one) = ((rr.recurring - r.recurring) as f64, rr.oneshot - r.oneshot);
            out.eval("allowance-share", (rec.to_bits(), one.to_bits()), || format!("{d}; the liquidator may settle {rec} more per window (of {limit}) and {one} more once (of {once})"));
            if (rec - want_rec).abs() > slack || (one - want_once).abs() > slack {
                out.fail("C12", "allowance-share", format!("{d}; the liquidator may settle {rec} more per window and {one} more once, should be {want_rec} and {want_once} (limit {limit}, once {once}, pnl {whole}; slack {slack})"));
            }
            r.quote += pnl;
            let (rec, one) = (rr.recurring - r.recurring, rr.oneshot - r.oneshot);
            let up = pnl.ceil() + 1.0 + tol;
            // trading caps the allowance at whole numbers of a rounded value
            let sl = if db != 0 { 2.0 } else { 0.0 };
            if (rec as f64) < 1.0 - sl || one < -tol || rec as f64 + one > up + sl {
                out.fail("C12", "allowance", format!("{d}; the liquidator may settle {rec} more per window and {one} more once"));
            }
            r.recurring = rr.recurring;
            r.oneshot = rr.oneshot;
            q.settle(pnl, &m);
        } else if q.differs(&qq, tol + 1e-6).is_some() {
            // too small to tell whether some was settled: that would cap the allowances
            q.settle(pnl, &m);
            r.recurring = rr.recurring;
        }
        for (who, want, got) in [("liquidatee", &q, &qq), ("liquidator", &r, &rr)] {
            if let Some(x) = want.differs(got, tol + 1e-6 + 1e-9 * pnl.abs()) {
                out.fail("C12", &format!("position:{who}"), format!("{d}; {who}: {x}"));
            }
        }
        if q0.perp(m.perp_market_index).map_or(false, |p| p.has_open_taker_fills()) {
            out.fail("C12", "open-fills", format!("{d}; with unprocessed fills"));
        }
        // effect on health
        let (Some(h0), Some(h1)) = (h0, h1) else { return };
        let (l0, l1) = (h0.health(HT::LiqEnd), h1.health(HT::LiqEnd));
        let e = h0.err(HT::LiqEnd) + h1.err(HT::LiqEnd) + 1e-6;
        let Some(st) = h0.tok(m.settle_token_index) else { return };
        let lw = st.lwp(HT::LiqEnd).max(st.awp(HT::LiqEnd));
        let dust = lw;
        if l1 < l0 - e - dust {
            out.fail("C12", "harmful", d.clone());
        }
        let per_lot = if long { f_all - f(m.init_base_asset_weight) } else { f(m.init_base_liab_weight) - f_all } * lot;
        let one_lot = if db != 0 { per_lot.max(0.0) * lw * f(m.init_overall_asset_weight).max(1.0) } else { 0.0 };
        if l1 > l0.max(0.0) + one_lot * (1.0 + 1e-9) + e + dust * 1e-3 {
            out.fail("C12", "overshoot", format!("{d}; one lot improves it by {one_lot:.6}"));
        }
        // why did it stop?
        let w = f(m.init_overall_asset_weight);
        let left = (max_base.unsigned_abs().min(i64::MAX as u64) as i64).min(q0.perp(m.perp_market_index).map_or(0, |p| p.base_position_lots.abs())) - db.abs();
        let u1 = h1.perp(m.perp_market_index).map_or(0.0, |p| p.uhupnl(HT::LiqEnd));
        let worthwhile = 1.0 - pf > w + 1e-9;
        // the tokens paid for pnl can lower the asset weight of all of them
        let scaled = h1.tok(m.settle_token_index).map_or(0.0, |t| t.position.abs().max(t.spot.abs()).max(st.position.abs()) * (t.awp(HT::LiqEnd) - st.awp(HT::LiqEnd)).abs()) * 2.0;
        // the last lot taken to turn the pnl positive counts fully towards health until settled
        let last = if db != 0 { per_lot.max(0.0) * lw } else { 0.0 };
        if l1 < -1.0 - e - scaled - last && per_lot > 1e-9 * lot {
            let pnl_left = max_pnl - pnl;
            let why = if left > 0 && (u1 < -1.0 || w > 1e-9) && per_lot * w.max(1e-9) * lw > 1e-6 {
                Some("base")
            } else if left > 0 && pnl_left > 1.0 + tol && worthwhile {
                Some("base")
            } else if pnl_left > 1.0 + tol && u1 > 1.0 + e && worthwhile && (1.0 - pf - w) * st.awp(HT::LiqEnd).max(1e-9) * u1 > 1e-3 {
                Some("pnl")
            } else {
                None
            };
            out.count("left-unhealthy");
            if let Some(x) = why {
                out.fail("C12", &format!("stopped:{x}"), format!("{d}; it could have gone on: {left} more lots worth {per_lot:.6} each, pnl {u1:.6} could be taken over"));
            }
        }
    }
}

#[derive(Default)]
pub struct NegativePnl {}
impl Monitor for NegativePnl {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        if !ix.name.starts_with("perp_liq_negative_pnl_or_bankruptcy") {
            return;
        }
        let (Some((mk, m)), Some(lq), Some(lr)) = (market_of(ix), ix.acc("liqee"), ix.acc("liqor")) else { return };
        let Some(q0) = ix.pre.accounts.get(&lq).cloned() else { return };
        let r0 = ix.pre.accounts[&lr].clone();
        let (q1, r1) = (ix.post.accounts[&lq].clone(), ix.post.accounts[&lr].clone());
        if same_positions(&q0, &q1) && same_positions(&r0, &r1) {
            return;
        }
        let max = ix.args().u64() as f64;
        let m1 = ix.post.perps[&mk].clone();
        let Some(op) = oracle_of(ix, &m) else { return };
        let Some(bank) = ix.acc("settle_bank").and_then(|k| ix.pre.banks.get(&k)).cloned() else { return };
        let Some(g) = ix.pre.groups.get(&m.group).cloned() else { return };
        let Some(iv) = ix.acc("insurance_vault") else { return };
        let Some(h) = liq_health(ix.pre, &q0, ix) else { return };
        let (mut q, mut r) = (Pp::at(ix.pre, &lq, &m), Pp::at(ix.pre, &lr, &m));
        let (qq, rr) = (Pp::at(ix.post, &lq, &m), Pp::at(ix.post, &lr, &m));
        let tol = pp_tol(&q, &m, op) + pp_tol(&r, &m, op) + 1e-6;
        let pnl0 = q.pnl(&m, op);
        let moved = bal(ix.post, &lr, &bank) - bal(ix.pre, &lr, &bank);
        let sp = h.tok(m.settle_token_index).map_or(f64::NAN, |t| t.oracle);
        if !(pnl0 < tol) {
            out.fail("C13", "not-negative", format!("pnl {pnl0} is not negative"));
            return;
        }
        if q.base != 0 {
            out.fail("C13", "base", format!("bankruptcy of a position of {} lots", q.base));
        }
        // 1. settling
        q.roll(&m, ix.now);
        let lim = -q.avail(&m).0;
        let smax = h.perp_settle_max(m.settle_token_index).unwrap_or(0.0);
        let st = h.tok(m.settle_token_index).unwrap().clone();
        let serr = {
            let (wa, wl) = (st.awp(HT::Maint), st.lwp(HT::Maint));
            h.err(HT::Maint) / (if wa > 0.0 { wa.min(wl) } else { wl }).max(1e-12) * 2.0
        };
        let max_settle = smax.min(-pnl0).min(lim).max(0.0);
        let slack = tol + if lim < max_settle + 3.0 { 1.0 + 1e-9 * lim } else { 0.0 } + if smax < max_settle + 1.0 + serr { serr } else { 0.0 };
        // insurance
        let ins_mint = ix.pre.tokens.get(&iv).map(|t| t.mint);
        if iv != g.insurance_vault || ins_mint != Some(g.insurance_mint) {
            out.fail("C13", "wrong-vault", format!("insurance taken from {iv}"));
        }
        let v0 = ix.pre.tok_amount(&iv) as f64;
        let paid = v0 - ix.post.tok_amount(&iv) as f64;
        let eligible = m.group_insurance_fund != 0;
        let avail = if eligible { v0 } else { 0.0 };
        let Some(ib) = ix.acc("insurance_bank").and_then(|k| ix.pre.banks.get(&k)).cloned() else { return };
        if ib.mint != g.insurance_mint && paid > 0.0 {
            out.fail("C13", "insurance-bank", format!("insurance paid into the bank of {}", ib.mint));
        }
        let same = ib.token_index == bank.token_index;
        // the same token: the insurance arrives in the same balance
        let s = if same { moved - paid } else { moved };
        let s = if bal(ix.post, &lr, &bank) == 0.0 && moved <= 0.0 { f64::NAN } else { s };
        // perp quote tells the settlement and the insured part apart from the tokens
        let taken = r.quote - rr.quote;
        let loss_per_lot = f(m1.long_funding) - f(m.long_funding);
        let oi = ix.pre.accounts.values().filter(|a| a.fx.group == m.group).filter_map(|a| a.perp(m.perp_market_index)).map(|p| p.base_position_lots.abs()).sum::<i64>() as f64;
        let given = qq.quote - q.quote;
        let s = if s.is_nan() { (max_settle.min(max)).min(taken) } else { s };
        let x = taken - s;
        let z = given - taken;
        let l0 = h.health(HT::LiqEnd);
        let d = format!(
            "pnl {pnl0:.6} of {lq}: settled {s:.6} (assets allow {smax:.6}, limit {lim}, asked {max}), {x:.6} taken for {paid} insurance tokens (of {v0}, entitled {eligible}), {z:.6} shared over {oi} lots at {loss_per_lot} each; end health {l0:.6}, settle token at {sp}"
        );
        let stol = slack + tol + moved.abs() * 1e-11;
        let want_s = max_settle.min(max);
        let kind = match (s > tol, x > tol, z > tol) {
            (true, false, false) => "settled",
            (false, true, false) => "insured",
            (false, false, true) => "shared",
            (false, true, true) => "insured-and-shared",
            (true, true, false) => "settled-insured",
            (true, false, true) => "settled-shared",
            (true, true, true) => "settled-insured-shared",
            _ => "nothing",
        };
        out.eval(kind, (pnl0.to_bits(), s.to_bits(), paid.to_bits()), || d.clone());
        if serr < 1e3 {
            if s > want_s + stol {
                out.fail("C13", "settled-too-much", format!("{d}; should be {want_s:.6}"));
            }
            if s < want_s - stol {
                out.fail("C13", "settled-too-little", format!("{d}; should be {want_s:.6}"));
            }
        } else {
            out.count("imprecise");
        }
        if taken > max + tol {
            out.fail("C13", "asked", format!("{d}; the liquidator asked for at most {max}"));
        }
        // tokens of the liquidatee
        if let Err(e) = lands(ix.pre, ix.post, &lq, &bank, -s, stol) {
            out.fail("C13", "liqee-tokens", format!("{d}; {e}"));
        }
        let lb = if same { s + paid } else { s };
        if let Err(e) = lands(ix.pre, ix.post, &lr, &bank, lb, stol) {
            out.fail("C13", "liqor-tokens", format!("{d}; {e}"));
        }
        if !same {
            if let Err(e) = lands(ix.pre, ix.post, &lr, &ib, paid, tol) {
                out.fail("C13", "liqor-insurance", format!("{d}; {e}"));
            }
        }
        // 2. insurance and sharing, only for what cannot be settled
        let rest = -(pnl0 + s);
        let fully = (s - max_settle).abs() <= stol;
        if !fully && (x > stol || z > stol || paid > 0.0) {
            out.fail("C13", "before-settled", format!("{d}; {max_settle:.6} could be settled first"));
        }
        let eff = {
            let e = h.effective(HT::LiqEnd, false);
            let i = h.toks.iter().position(|t| t.idx == m.settle_token_index).unwrap();
            e[i]
        };
        // how much pnl brings the end health to zero?
        let (aw, lw) = (sp * f(bank.init_asset_weight), sp * f(bank.init_liab_weight));
        let need = if l0 >= 0.0 {
            0.0
        } else {
            let mut left = -l0;
            let mut n = 0.0;
            if eff < 0.0 {
                let can = -eff * lw;
                if can >= left {
                    n = left / lw;
                    left = 0.0;
                } else {
                    n = -eff;
                    left -= can;
                }
            }
            if left > 0.0 {
                n += if aw > 0.0 { left / aw } else { f64::INFINITY };
            }
            n
        };
        let ntol = h.err(HT::LiqEnd) / (if aw > 0.0 { aw.min(lw) } else { lw }).max(1e-12) * 2.0 + need.min(1e18) * 1e-10;
        if ntol > 1e3 || serr > 1e3 {
            out.count("imprecise");
            return;
        }
        let from = rest.min(need).max(0.0);
        if !fully {
            return;
        }
        let to = from.min((max - s).max(0.0));
        let fee = 1.0 + f(m.base_liquidation_fee);
        let Some(ip) = bank_price(ix.pre, &ib, ix.now, ix.slot, None).ok() else {
            out.count("insurance-price-unknown");
            return;
        };
        let t2 = stol + ntol + 1e-6;
        let conv = sp * fee / ip;
        // at the very edge between settling and bankruptcy nothing more need happen
        let edge = slack > tol * 2.0 && rest < 3.0;
        let (lo, hi) = (((to - t2).max(0.0) * conv * (1.0 - 1e-9) - 1e-9).ceil().max(0.0).min(avail), ((to + t2) * conv * (1.0 + 1e-9) + 1e-9).ceil().max(0.0).min(avail));
        if (paid < lo || paid > hi) && !edge {
            out.fail("C13", "insurance", format!("{d}; {from:.6} is needed, paid {paid}, should be {lo}..{hi} at {ip} with fee {fee}"));
        }
        let want_x = (paid / conv).min(to);
        let xt = t2 + want_x * 1e-9 + 1e-13 / (sp * fee);
        if (x - want_x).abs() > xt {
            out.fail("C13", "insured", format!("{d}; {paid} insurance tokens pay for {want_x:.6}"));
        }
        let exhausted = paid == avail;
        let want_z = if exhausted { (from - want_x).max(0.0) } else { 0.0 };
        if (z - want_z).abs() > t2 * 2.0 + xt && !edge {
            out.fail("C13", "shared", format!("{d}; should share {want_z:.6} (needed {from:.6})"));
        }
        // equally per lot
        let (dl, ds) = (loss_per_lot, f(m1.short_funding) - f(m.short_funding));
        if oi > 0.0 {
            let each = z / oi;
            if (dl - each).abs() > 1e-13 + (tol + 1e-9 * z) / oi || (ds + each).abs() > 1e-13 + (tol + 1e-9 * z) / oi {
                out.fail("C13", "per-lot", format!("{d}; longs pay {dl} and shorts {} per lot, should pay {each}", -ds));
            }
        } else if dl != 0.0 || ds != 0.0 {
            out.fail("C13", "per-lot", format!("{d}; funding moved without open interest"));
        }
        // bookkeeping of the positions
        for (v, zz) in [(s, false), (x, false), (z, true)] {
            if v > tol {
                q.settle(-v, &m);
                if !zz {
                    r.quote -= v;
                    r.oneshot -= v;
                }
            }
        }
        for (who, want, got) in [("liquidatee", &q, &qq), ("liquidator", &r, &rr)] {
            if let Some(e) = want.differs(got, tol * 4.0 + 2.0 * stol.min(1.0)) {
                out.fail("C13", &format!("position:{who}"), format!("{d}; {who}: {e}"));
            }
        }
        if let Some(h1) = liq_health(ix.post, &q1, ix) {
            let l1 = h1.health(HT::LiqEnd);
            if l1 < l0 - h.err(HT::LiqEnd) - h1.err(HT::LiqEnd) - st.lwp(HT::LiqEnd) {
                out.fail("C13", "harmful", format!("{d}; end health fell to {l1}"));
            }
        }
    }
}
