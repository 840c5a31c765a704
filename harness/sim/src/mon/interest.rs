//! Interest indexes, rates and the utilization average.
use super::ledger::*;
use super::*;
use crate::spec::{oracle_price, Price};
use crate::st::{bits, f};
use num_bigint::BigInt;
use num_traits::ToPrimitive;

const YEAR: f64 = 31_536_000.0;

#[derive(Default)]
pub struct Interest {}

fn disc(name: &str) -> [u8; 8] {
    solana_program::hash::hash(format!("global:{name}").as_bytes()).to_bytes()[..8].try_into().unwrap()
}
const UPDATES: [&str; 2] = ["token_update_index_and_rate", "token_update_index_and_rate_resilient"];

/// the configured curve
pub fn curve(b: &mango_v4::state::Bank, util: f64) -> Option<f64> {
    let u = util.clamp(0.0, 1.0);
    let (u0, u1) = (f(b.util0), f(b.util1));
    let line = |x0: f64, y0: f64, x1: f64, y1: f64| y0 + (y1 - y0) * (u - x0) / (x1 - x0);
    let v = if u <= u0 {
        if u0 == 0.0 {
            return None;
        }
        line(0.0, f(b.zero_util_rate), u0, f(b.rate0))
    } else if u <= u1 {
        line(u0, f(b.rate0), u1, f(b.rate1))
    } else {
        line(u1, f(b.rate1), 1.0, f(b.max_rate))
    };
    Some(if b.interest_curve_scaling == 0.0 { v } else { v * b.interest_curve_scaling })
}

impl Monitor for Interest {
    fn tx(&mut self, t: &Tx, out: &mut Out) {
        let has = t.ixs.iter().any(|i| i.is(&UPDATES));
        if has {
            let ok = t.ixs.iter().all(|i| i.is(&UPDATES) || i.rec.program_id == mango_v4::instructions::compute_budget::id());
            out.eval("update-alone", (t.ixs.len(), t.ixs.iter().map(|i| i.name).collect::<Vec<_>>()), || format!("{} instructions", t.ixs.len()));
            if t.ixs.iter().any(|i| i.is(&UPDATES) && i.cpi) {
                out.fail("C03", "update-by-cpi", "an index update reached the program through another program".into());
            }
            if !ok {
                out.fail("C03", "update-not-alone", format!("index update in a transaction with {:?}", t.ixs.iter().map(|i| (i.name, i.rec.program_id)).collect::<Vec<_>>()));
            }
        }
        for i in &t.ixs {
            for c in &i.rec.cpis {
                if c.program_id == mango_v4::id() && UPDATES.iter().any(|n| c.data.starts_with(&disc(n))) {
                    out.fail("C03", "update-by-cpi", format!("index update called from {}", c.caller));
                }
            }
        }
        // all banks of a token agree
        let mut seen = HashSet::new();
        for (_, b) in t.ixs.iter().flat_map(|i| i.changed()).filter_map(|k| t.post.banks.get(&k).map(|b| (k, b.clone()))) {
            if !seen.insert((b.group, b.token_index)) {
                continue;
            }
            let bs = t.post.banks_of(b.group, b.token_index);
            if bs.len() > 1 {
                out.count("banks-agree");
            }
            for (k, x) in &bs {
                if x.deposit_index != b.deposit_index
                    || x.borrow_index != b.borrow_index
                    || x.index_last_updated != b.index_last_updated
                    || x.avg_utilization != b.avg_utilization
                    || x.bank_rate_last_updated != b.bank_rate_last_updated
                    || x.interest_curve_scaling != b.interest_curve_scaling
                    || x.rate0 != b.rate0
                    || x.max_rate != b.max_rate
                    || x.maint_asset_weight != b.maint_asset_weight
                    || x.maint_weight_shift_end != b.maint_weight_shift_end
                {
                    out.fail("C03", "banks-disagree", format!("banks of token {} disagree after {:?} ({k})", b.token_index, t.ixs.iter().map(|i| i.name).collect::<Vec<_>>()));
                }
            }
        }
    }
    fn ix(&mut self, t: &Tx, ix: &Ix, out: &mut Out) {
        if ix.is(&UPDATES) {
            return self.update(t, ix, out);
        }
        for k in ix.changed() {
            let (Some(b0), Some(b1)) = (ix.pre.banks.get(&k), ix.post.banks.get(&k)) else { continue };
            let loss = ix.name.contains("bankruptcy");
            let bad = (b1.deposit_index != b0.deposit_index && !(loss && b1.deposit_index < b0.deposit_index))
                || b1.borrow_index != b0.borrow_index
                || b1.index_last_updated != b0.index_last_updated
                || b1.bank_rate_last_updated != b0.bank_rate_last_updated
                || b1.avg_utilization != b0.avg_utilization;
            if b1.deposit_index != b0.deposit_index {
                out.eval("loss-lowers-index", (k, b1.deposit_index.to_bits()), || format!("{}: {} -> {}", ix.name, b0.deposit_index, b1.deposit_index));
            }
            if bad {
                out.fail("C03", &format!("index-changed:{}", ix.name), format!("{} moved token {}'s indexes ({}, {}) -> ({}, {})", ix.name, b0.token_index, b0.deposit_index, b0.borrow_index, b1.deposit_index, b1.borrow_index));
            }
        }
    }
}

impl Interest {
    fn update(&self, t: &Tx, ix: &Ix, out: &mut Out) {
        let Some(mi) = ix.acc("mint_info").and_then(|k| ix.pre.mints.get(&k)) else { return };
        let pre = ix.pre.banks_of(mi.group, mi.token_index);
        if pre.is_empty() {
            return;
        }
        let Some(b) = ix.pre.banks.get(&mi.banks[0]).cloned() else { return };
        let post: Vec<_> = pre.iter().map(|(k, _)| ix.post.banks[k].clone()).collect();
        match oracle_price(ix.pre, &b.oracle, &b.oracle_config, b.mint_decimals, ix.now, ix.slot, true) {
            Price::Ok(_) => {}
            Price::Unknown => return,
            Price::Bad => {
                out.eval("update-bad-oracle", (mi.token_index, t.now), || format!("{} with an unusable price", ix.name));
                if pre.iter().zip(&post).any(|(p, q)| bytemuck::bytes_of(&*p.1) != bytemuck::bytes_of(&**q)) {
                    out.fail("C03", "update-bad-oracle", format!("{} changed token {} on an unusable price", ix.name, mi.token_index));
                }
                return;
            }
        }
        let dep: BigInt = pre.iter().map(|(_, b)| bits(b.indexed_deposits)).sum();
        let bor: BigInt = pre.iter().map(|(_, b)| bits(b.indexed_borrows)).sum();
        let nd = dep.to_f64().unwrap() * f(b.deposit_index) / 2f64.powi(48);
        let nb = bor.to_f64().unwrap() * f(b.borrow_index) / 2f64.powi(48);
        let util = if nd == 0.0 { 0.0 } else { (nb / nd).clamp(0.0, 1.0) };
        let dt = (t.now - b.index_last_updated).min(3600) as f64;
        let Some(rate) = curve(&b, util) else { return };
        let e = 2f64.powi(-48);
        // utilization and slope are rounded to 2^-48, which matters when deposits are tiny
        let rtol = 64.0 * e * (1.0 + b.interest_curve_scaling.max(1.0)) * (1.0 + f(b.max_rate) / f(b.util0).max(1e-3));
        let di_b = f(b.borrow_index) * (rate + f(b.loan_fee_rate)) * dt / YEAR;
        let di_d = f(b.deposit_index) * rate * util * dt / YEAR;
        let fee = nb * f(b.loan_fee_rate) * dt / YEAR;
        out.eval("interest", (b.deposit_index.to_bits(), dt as u64, util.to_bits()), || format!("token {} over {dt} s at utilization {util:.4}: rate {rate:.5}, borrow index +{di_b:.6}, deposit index +{di_d:.6}, fee {fee:.6}", mi.token_index));
        if t.now - b.index_last_updated > 3600 {
            out.count("interest-capped");
        }
        let near = |got: f64, want: f64, abs: f64| (got - want).abs() <= want.abs() * 1e-8 + abs;
        for q in &post {
            let gb = (bits(q.borrow_index) - bits(b.borrow_index)).to_f64().unwrap() * e;
            let gd = (bits(q.deposit_index) - bits(b.deposit_index)).to_f64().unwrap() * e;
            let tb = f(b.borrow_index) * dt / YEAR * rtol + f(b.borrow_index) * dt * 4.0 * e / YEAR + 8.0 * e;
            if !near(gb, di_b, tb) || gb < 0.0 {
                out.fail("C03", "borrow-index", format!("token {}: borrow index +{gb:.12} over {dt} s at {util}, should be +{di_b:.12}", mi.token_index));
            }
            if !near(gd, di_d, tb * (f(b.deposit_index) / f(b.borrow_index)).max(1.0)) || gd < 0.0 {
                out.fail("C03", "deposit-index", format!("token {}: deposit index +{gd:.12} over {dt} s at {util}, should be +{di_d:.12}", mi.token_index));
            }
            if q.index_last_updated != t.now {
                out.fail("C03", "update-time", format!("token {}: last updated {} at {}", mi.token_index, q.index_last_updated, t.now));
            }
        }
        let gf: BigInt = pre.iter().zip(&post).map(|(p, q)| bits(q.collected_fees_native) - bits(p.1.collected_fees_native)).sum();
        let gf = gf.to_f64().unwrap() * e;
        if !near(gf, fee, nb * dt / YEAR * 4.0 * e + 8.0 * e) {
            out.fail("C03", "interest-fee", format!("token {}: {gf:.9} collected on {nb:.3} borrowed, should be {fee:.9}", mi.token_index));
        }
        // who pays and who gets it
        let idx = |b: &mango_v4::state::Bank| (bits(b.deposit_index), bits(b.borrow_index));
        let ((d0, b0), (d1, b1)) = (idx(&b), idx(&post[0]));
        let paid = fl(&((b1 - b0) * &bor));
        let got = fl(&((d1 - d0) * &dep));
        let slack = e * 300.0 * (nd + nb) + (paid.abs() + gf) * 1e-8 + 1e-6;
        let short = if nb >= nd { f64::INFINITY } else { slack };
        if got + gf > paid + slack || got + gf < paid - short {
            out.fail("C03", "interest-balance", format!("token {}: borrowers pay {paid:.9}, lenders get {got:.9} and the protocol {gf:.9}", mi.token_index));
        }
        // average
        let t0 = (b.index_last_updated - b.bank_rate_last_updated) as f64;
        let t1 = (t.now - b.bank_rate_last_updated) as f64;
        let avg = if t1 <= 0.0 { util } else { (f(b.avg_utilization) * t0 + util * (t.now - b.index_last_updated) as f64) / t1 };
        for q in &post {
            if (f(q.avg_utilization) - avg).abs() > 1e-9 {
                out.fail("C03", "average", format!("token {}: average utilization {} -> {}, should be {avg}", mi.token_index, b.avg_utilization, q.avg_utilization));
            }
        }
        // hourly adjustment
        let due = t.now - b.bank_rate_last_updated > 3600;
        if b.interest_curve_scaling != 0.0 {
            let target = b.interest_target_utilization as f64;
            let mut want = b.interest_curve_scaling;
            if due {
                let a = f(post[0].avg_utilization).clamp(0.0, 1.0);
                let fac = if a > target { (a - target) / (1.0 - target) } else { (a - target) / target };
                want = (want * (1.0 + f(b.adjustment_factor) * fac)).max(1.0);
                out.eval("rate-adjusted", (want.to_bits(), a.to_bits()), || format!("token {}: average {a:.4}, target {target:.4}, scaling {:.5} -> {want:.5}", mi.token_index, b.interest_curve_scaling));
            }
            for q in &post {
                let last = if due { t.now } else { b.bank_rate_last_updated };
                if q.bank_rate_last_updated != last || ((q.interest_curve_scaling - want).abs() > want * 1e-9 && !want.is_nan()) {
                    out.fail("C03", "rate-adjustment", format!("token {}: scaling {} -> {} (last {} -> {}), should be {want} (due: {due})", mi.token_index, b.interest_curve_scaling, q.interest_curve_scaling, b.bank_rate_last_updated, q.bank_rate_last_updated));
                }
                if q.rate0 != b.rate0 || q.rate1 != b.rate1 || q.max_rate != b.max_rate || q.util0 != b.util0 || q.util1 != b.util1 || q.zero_util_rate != b.zero_util_rate || q.interest_target_utilization != b.interest_target_utilization {
                    out.fail("C03", "curve-changed", format!("token {}: the update changed the curve", mi.token_index));
                }
            }
        }
        if b.interest_curve_scaling == 0.0 {
            for q in &post {
                if !due {
                    if q.interest_curve_scaling != 0.0 || q.max_rate != b.max_rate || q.rate0 != b.rate0 || q.rate1 != b.rate1 || q.bank_rate_last_updated != b.bank_rate_last_updated {
                        out.fail("C03", "curve-split-early", format!("token {}: curve split before its time", mi.token_index));
                    }
                    continue;
                }
                // the same curve, expressed as one with a maximum of 50% times a scaling
                let s = f(b.max_rate) / 0.5;
                let target = f(b.util0);
                let a = f(q.avg_utilization).clamp(0.0, 1.0);
                let fac = if a > target { (a - target) / (1.0 - target) } else { (a - target) / target };
                let want = (s * (1.0 + f(b.adjustment_factor) * fac)).max(1.0);
                out.eval("curve-split", (want.to_bits(), s.to_bits()), || format!("token {}: max rate {} -> {} times {}", mi.token_index, b.max_rate, q.max_rate, q.interest_curve_scaling));
                let near = |got: fixed::types::I80F48, old: fixed::types::I80F48| (f(got) - f(old) / s).abs() < 1e-9 * (1.0 + f(old));
                if q.bank_rate_last_updated != t.now
                    || (q.interest_curve_scaling - want).abs() > want * 1e-9
                    || (q.interest_target_utilization as f64 - target).abs() > 1e-6
                    || !near(q.rate0, b.rate0)
                    || !near(q.rate1, b.rate1)
                    || !near(q.max_rate, b.max_rate)
                {
                    out.fail("C03", "curve-split", format!("token {}: curve ({}, {}, {}) became ({}, {}, {}) times {} (should be {want}) around {}", mi.token_index, b.rate0, b.rate1, b.max_rate, q.rate0, q.rate1, q.max_rate, q.interest_curve_scaling, q.interest_target_utilization));
                }
            }
        }
        // weight transitions end
        let done = f(b.maint_weight_shift_duration_inv) > 0.0 && t.now >= b.maint_weight_shift_end;
        if done {
            out.eval("shift-done", (t.now, mi.token_index), || format!("token {}: weights now {} {}", mi.token_index, post[0].maint_asset_weight, post[0].maint_liab_weight));
        }
        for (p, q) in pre.iter().zip(&post) {
            let p = &p.1;
            let ok = if done {
                q.maint_asset_weight == p.maint_weight_shift_asset_target && q.maint_liab_weight == p.maint_weight_shift_liab_target && q.maint_weight_shift_duration_inv == 0
            } else {
                q.maint_asset_weight == p.maint_asset_weight
                    && q.maint_liab_weight == p.maint_liab_weight
                    && q.maint_weight_shift_asset_target == p.maint_weight_shift_asset_target
                    && q.maint_weight_shift_liab_target == p.maint_weight_shift_liab_target
                    && q.maint_weight_shift_start == p.maint_weight_shift_start
                    && q.maint_weight_shift_end == p.maint_weight_shift_end
                    && q.maint_weight_shift_duration_inv == p.maint_weight_shift_duration_inv
            };
            if !ok {
                out.fail("C03", "weight-shift", format!("token {}: weights ({}, {}) -> ({}, {}), transition over: {done}", mi.token_index, p.maint_asset_weight, p.maint_liab_weight, q.maint_asset_weight, q.maint_liab_weight));
            }
        }
    }
}
