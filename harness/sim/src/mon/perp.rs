//! Perp markets: zero sum, funding, pnl settlement.
use super::liq::liq_health;
use super::*;
use crate::spec::*;
use crate::st::{f, Book, Ev, MAcc, State};
use mango_v4::state::{PerpMarket, PerpPosition};

/// What a perp position is worth and how much of it may be settled, funding included.
#[derive(Clone, Debug)]
pub struct Pp {
    pub base: i64,
    pub quote: f64,
    pub oneshot: f64,
    pub recurring: i64,
    pub used: i64,
    pub window: u32,
    pub transfers: i64,
    /// average entry price per lot, what the position cost so far, and what it realized
    pub entry: f64,
    pub running: i64,
    pub realized: f64,
}
fn clamp_i64(x: f64) -> i64 {
    x as i64
}
impl Pp {
    /// funding is settled against the given market state
    pub fn of(p: &PerpPosition, m: &PerpMarket) -> Pp {
        let q0 = f(crate::st::quote_position(p));
        let quote = perp_quote_with_funding(p, m);
        Pp {
            base: p.base_position_lots,
            quote,
            oneshot: f(p.oneshot_settle_pnl_allowance) + (quote - q0),
            recurring: p.recurring_settle_pnl_allowance,
            used: p.settle_pnl_limit_settled_in_current_window_native,
            window: p.settle_pnl_limit_window,
            transfers: p.perp_spot_transfers,
            entry: p.avg_entry_price_per_base_lot,
            running: p.quote_running_native,
            realized: f(p.realized_pnl_for_position_native) + (quote - q0),
        }
    }
    pub fn none() -> Pp {
        Pp { base: 0, quote: 0.0, oneshot: 0.0, recurring: 0, used: 0, window: 0, transfers: 0, entry: 0.0, running: 0, realized: 0.0 }
    }
    pub fn at(s: &State, k: &Pubkey, m: &PerpMarket) -> Pp {
        s.accounts.get(k).and_then(|a| a.perp(m.perp_market_index)).map_or(Pp::none(), |p| Pp::of(p, m))
    }
    pub fn roll(&mut self, m: &PerpMarket, now: u64) {
        let size = m.settle_pnl_limit_window_size_ts;
        if size == 0 {
            return;
        }
        let start = self.window as u64 * size;
        if now >= start + size || now < start {
            self.window = (now / size) as u32;
            self.used = 0;
        }
    }
    pub fn pnl(&self, m: &PerpMarket, price: f64) -> f64 {
        self.quote + self.base as f64 * m.base_lot_size as f64 * price
    }
    pub fn limit(&self, m: &PerpMarket) -> (f64, f64) {
        let fac = m.settle_pnl_limit_factor as f64;
        if fac < 0.0 {
            return (f64::NEG_INFINITY, f64::INFINITY);
        }
        let v = self.base as f64 * m.base_lot_size as f64 * m.stable_price_model.stable_price;
        let un = (fac * v.abs()).trunc();
        let upnl = (self.quote + v).abs().ceil();
        let both = un + (self.recurring.abs() as f64).min(upnl);
        let (mut lo, mut hi) = (-both, both);
        if self.oneshot >= 0.0 {
            hi += self.oneshot.ceil();
        } else {
            lo += self.oneshot.floor();
        }
        (lo.min(0.0), hi.max(0.0))
    }
    pub fn avail(&self, m: &PerpMarket) -> (f64, f64) {
        let (lo, hi) = self.limit(m);
        ((lo - self.used as f64).min(0.0), (hi - self.used as f64).max(0.0))
    }
    fn cap_recurring(&mut self, m: &PerpMarket) -> i64 {
        let before = self.recurring.abs();
        let v = self.base as f64 * m.base_lot_size as f64 * m.stable_price_model.stable_price;
        let upnl = (self.quote + v).abs().ceil();
        self.recurring = before.min(clamp_i64(upnl));
        self.recurring - before
    }
    /// the pnl `s` (signed) is paid out of the position
    pub fn settle(&mut self, s: f64, m: &PerpMarket) {
        self.quote -= s;
        let red = if s > 0.0 { s.min(self.oneshot).max(0.0) } else { s.max(self.oneshot).min(0.0) };
        self.oneshot -= red;
        let mut used = clamp_i64(s - red);
        let c = self.cap_recurring(m);
        if c < 0 {
            used = if used > 0 { (used + c).max(0) } else { (used - c).min(0) };
        }
        self.used += used;
    }
    pub fn trade(&mut self, db: i64, dq: f64, m: &PerpMarket) {
        if db != 0 {
            let (old, new) = (self.base, self.base + db);
            let grow = new.abs() - old.abs();
            let x = grow as f64 * m.base_lot_size as f64 * m.stable_price_model.stable_price * m.settle_pnl_limit_factor as f64;
            self.recurring = self.recurring.abs().saturating_sub(clamp_i64(x)).max(0);
            if new == 0 {
                (self.entry, self.running, self.realized) = (0.0, 0, 0.0);
            } else if old.signum() != new.signum() {
                // a new position, bought at the price of this trade
                self.entry = (dq / db as f64).abs();
                self.running = clamp_i64(-new as f64 * self.entry);
                self.realized = 0.0;
            } else {
                self.running += clamp_i64(dq);
                if grow > 0 {
                    self.entry = (old.abs() as f64 * self.entry + dq.abs()) / new.abs() as f64;
                } else {
                    self.realized += dq + db as f64 * self.entry;
                }
            }
        }
        self.base += db;
        self.quote += dq;
        self.cap_recurring(m);
    }
    pub fn fee(&mut self, x: f64) {
        self.quote -= x;
        self.oneshot -= x;
        self.realized -= x;
    }
    /// the record of what the position was bought for and has earned
    pub fn history_differs(&self, o: &Pp, tol: f64) -> Option<String> {
        let mut v = vec![];
        let size = self.base.abs() as f64 * self.entry;
        if (self.entry - o.entry).abs() > tol + 1e-7 * self.entry {
            v.push(format!("entry price {} should be {}", o.entry, self.entry));
        }
        if (self.running - o.running).abs() as f64 > 2.0 + tol + 1e-9 * size {
            v.push(format!("quote spent {} should be {}", o.running, self.running));
        }
        if (self.realized - o.realized).abs() > tol + 1e-7 * (size + self.realized.abs() + self.quote.abs()) {
            v.push(format!("realized {} should be {}", o.realized, self.realized));
        }
        if v.is_empty() { None } else { Some(v.join(", ")) }
    }
    /// how does the other differ?
    pub fn differs(&self, o: &Pp, tol: f64) -> Option<String> {
        // integers are rounded from amounts
        let it = 2 + (tol * 2.0) as i64;
        let mut v = vec![];
        if self.base != o.base {
            v.push(format!("base lots {} should be {}", o.base, self.base));
        }
        if (self.quote - o.quote).abs() > tol {
            v.push(format!("quote {} should be {}", o.quote, self.quote));
        }
        if (self.oneshot - o.oneshot).abs() > tol {
            v.push(format!("once-only settle allowance {} should be {}", o.oneshot, self.oneshot));
        }
        if (self.recurring - o.recurring).abs() > it {
            v.push(format!("recurring settle allowance {} should be {}", o.recurring, self.recurring));
        }
        if (self.used - o.used).abs() > it {
            v.push(format!("settled in this window {} should be {}", o.used, self.used));
        }
        if self.window != o.window {
            v.push(format!("settle window {} should be {}", o.window, self.window));
        }
        if v.is_empty() { None } else { Some(v.join(", ")) }
    }
    pub fn size(&self, m: &PerpMarket, price: f64) -> f64 {
        self.quote.abs() + (self.base as f64 * m.base_lot_size as f64).abs() * price.max(m.stable_price_model.stable_price)
    }
}
/// error of amounts computed from a position
pub fn pp_tol(p: &Pp, m: &PerpMarket, price: f64) -> f64 {
    1e-6 + p.size(m, price) * 1e-11 + (p.base as f64 * m.base_lot_size as f64).abs() * 1e-13
}
pub fn market_of(ix: &Ix) -> Option<(Pubkey, std::rc::Rc<PerpMarket>)> {
    let k = ix.acc("perp_market")?;
    Some((k, ix.pre.perps.get(&k)?.clone()))
}
/// Some(price) if the monitors can know it
pub fn oracle_of(ix: &Ix, m: &PerpMarket) -> Option<f64> {
    let mut never = m.clone();
    never.oracle_config.max_staleness_slots = -1;
    perp_price(ix.pre, &never, ix.now, ix.slot).ok()
}

/// Base, quote and fees over all accounts
#[derive(Default)]
pub struct ZeroSum {}
/// exact sum in 2^-48: quote of all positions, accrued fees, fees fills still owe
fn total(s: &State, k: &Pubkey, m: &PerpMarket) -> (i128, i64, i64, usize) {
    let (mut sum, mut base, mut oi, mut n) = (0i128, 0i64, 0i64, 0);
    for a in s.accounts.values().filter(|a| a.fx.group == m.group) {
        for p in a.active_perps().filter(|p| p.market_index == m.perp_market_index) {
            n += 1;
            sum = sum.wrapping_add(crate::st::quote_position(p).to_bits());
            let b = p.base_position_lots;
            let fund = if b > 0 { m.long_funding - p.long_settled_funding } else { m.short_funding - p.short_settled_funding };
            sum = sum.wrapping_sub(fund.to_bits().wrapping_mul(b as i128));
            base += b;
            oi += b.abs();
        }
    }
    sum = sum.wrapping_add(m.fees_accrued.to_bits());
    for e in fills(s, m) {
        let q = (e.price as i128) * (e.quantity as i128) * (m.quote_lot_size as i128);
        let fee = fixed::types::I80F48::from_num(e.maker_fee).to_bits();
        sum = sum.wrapping_sub(q.wrapping_mul(fee));
    }
    let _ = k;
    (sum, base, oi, n)
}
pub fn fills<'a>(s: &'a State, m: &PerpMarket) -> Vec<&'a crate::st::FillEv> {
    s.queue(&m.event_queue)
        .map(|q| q.events.iter().filter_map(|e| if let Ev::Fill(f) = e { Some(f) } else { None }).collect())
        .unwrap_or_default()
}
fn one48(x: i128) -> f64 {
    x as f64 / 2f64.powi(48)
}
impl Monitor for ZeroSum {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        if ix.is(&["account_close"]) {
            return;
        }
        let ch = ix.changed();
        for (k, m1) in &ix.post.perps {
            let touched = ch.contains(k)
                || ch.contains(&m1.event_queue)
                || ch.iter().any(|a| {
                    let has = |s: &State| s.accounts.get(a).map_or(false, |a| a.perp(m1.perp_market_index).is_some() && a.fx.group == m1.group);
                    has(ix.pre) || has(ix.post)
                });
            if !touched {
                continue;
            }
            let Some(m0) = ix.pre.perps.get(k) else { continue };
            let (s0, _, oi0, _) = total(ix.pre, k, m0);
            let (s1, b1, oi1, n) = total(ix.post, k, m1);
            let d = one48(s1.wrapping_sub(s0));
            out.eval("balance", (ix.name, s1, b1), || format!("{} on market {}: {n} positions, quote and fees {:.6} -> {:.6}, open interest {oi1}", ix.name, m1.perp_market_index, one48(s0), one48(s1)));
            if oi1 > 0 {
                out.count(&format!("open:{}", ix.name));
            }
            if b1 != 0 {
                out.fail("C18", &format!("base:{}", ix.name), format!("{}: the base positions of market {} sum to {b1} lots", ix.name, m1.perp_market_index));
            }
            if m1.open_interest != oi1 {
                out.fail("C18", &format!("open-interest:{}", ix.name), format!("{}: market {} records {} lots of open interest, accounts hold {oi1}", ix.name, m1.perp_market_index, m1.open_interest));
            }
            // fills not processed yet
            for a in ix.post.accounts.values() {
                let Some(p) = a.perp(m1.perp_market_index).filter(|_| a.fx.group == m1.group && ch.contains(&a.key)) else { continue };
                let (mut tb, mut tq) = (0i64, 0i64);
                for e in fills(ix.post, m1).iter().filter(|e| e.taker == a.key) {
                    let s = if e.taker_side == 0 { 1 } else { -1 };
                    tb += s * e.quantity;
                    tq -= s * e.quantity * e.price;
                }
                if tb != 0 {
                    out.count("pending-taker");
                }
                if (tb, tq) != (p.taker_base_lots, p.taker_quote_lots) {
                    out.fail("C18", &format!("pending:{}", ix.name), format!("{}: {} has {} base and {} quote lots pending on market {}, unprocessed fills say {tb} and {tq}", ix.name, a.key, p.taker_base_lots, p.taker_quote_lots, m1.perp_market_index));
                }
            }
            // rounding
            let mut tol = 1e-9;
            if ix.name.starts_with("perp_place") {
                // fills store the fee with less precision
                let q0: f64 = fills(ix.pre, m0).iter().map(|e| e.price as f64 * e.quantity as f64).sum();
                let q1: f64 = fills(ix.post, m1).iter().map(|e| e.price as f64 * e.quantity as f64).sum();
                tol += (q1 - q0).abs() * m1.quote_lot_size as f64 * (f(m1.maker_fee).abs() * 1.3e-7 + 1e-14);
            }
            if ix.is(&["perp_consume_events"]) {
                tol += 8.0 * 1e-14;
            }
            let socialized = ix.name.starts_with("perp_liq_negative") && m0.long_funding != m1.long_funding;
            if socialized || ix.name.starts_with("perp_liq_negative") {
                tol += oi0 as f64 * 8e-15;
            }
            if ix.name.starts_with("perp_liq_negative") && oi0 == 0 && d > 0.0 {
                // nobody is left to share the loss
                out.count("lost-without-open-interest");
                continue;
            }
            if d.abs() > tol {
                out.fail("C18", &format!("quote:{}", ix.name), format!("{}: quote, pending fees and accrued fees of market {} sum to {} before and {} after ({d:+})", ix.name, m1.perp_market_index, one48(s0), one48(s1)));
            }
        }
    }
}

/// price at which `qty` lots are reached
fn impact(b: &Book, bid: bool, qty: i64, now: u64, oracle_lots: i64) -> Option<i64> {
    let mut v: Vec<(i64, u64, i64)> = b
        .leaves
        .iter()
        .filter(|l| !l.expired(now))
        .filter_map(|l| l.price(bid, oracle_lots).map(|p| (if bid { -p } else { p }, l.seq(), l.quantity)))
        .collect();
    v.sort();
    let mut sum = 0i64;
    for (p, _, q) in v {
        sum += q;
        if sum >= qty {
            return Some(p.abs());
        }
    }
    None
}
#[derive(Default)]
pub struct Funding {}
impl Monitor for Funding {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        let ch = ix.changed();
        for k in &ch {
            let (Some(m0), Some(m1)) = (ix.pre.perps.get(k), ix.post.perps.get(k)) else { continue };
            let (dl, ds) = (f(m1.long_funding - m0.long_funding), f(m1.short_funding - m0.short_funding));
            let moved = m1.long_funding != m0.long_funding || m1.short_funding != m0.short_funding;
            if ix.is(&["perp_update_funding"]) || ix.name.starts_with("perp_place_order") {
                self.update(ix, m0, m1, dl, ds, out);
            } else if ix.name.starts_with("perp_liq_negative") {
                if m1.long_funding - m0.long_funding != -(m1.short_funding - m0.short_funding) || dl < 0.0 {
                    out.fail("C19", "shared-loss", format!("a shared loss moved long funding by {dl} and short funding by {ds}"));
                }
                if moved {
                    out.eval("shared-loss", dl.to_bits(), || format!("{dl} per lot"));
                }
            } else if moved {
                out.fail("C19", &format!("moves:{}", ix.name), format!("{} changed the funding of market {} by {dl} for longs and {ds} for shorts", ix.name, m1.perp_market_index));
            }
            if !ix.name.starts_with("perp_place_order") && !ix.is(&["perp_update_funding", "perp_edit_market"]) && m0.funding_last_updated != m1.funding_last_updated {
                out.fail("C19", &format!("time:{}", ix.name), format!("{} changed the funding time of market {}", ix.name, m1.perp_market_index));
            }
        }
        // what positions pay
        for k in &ch {
            let (Some(a0), Some(a1)) = (ix.pre.accounts.get(k), ix.post.accounts.get(k)) else { continue };
            for p1 in a1.active_perps() {
                let Some((_, m1)) = ix.post.perp_by_index(&a1.fx.group, p1.market_index) else { continue };
                let Some((_, m0)) = ix.pre.perp_by_index(&a1.fx.group, p1.market_index) else { continue };
                let none = PerpPosition::default();
                let p0 = a0.perp(p1.market_index).unwrap_or(&none);
                let same = p0.long_settled_funding == p1.long_settled_funding && p0.short_settled_funding == p1.short_settled_funding;
                if p0.base_position_lots != p1.base_position_lots {
                    let owed = perp_quote_with_funding(p0, m0) - f(crate::st::quote_position(p0));
                    out.eval(if owed != 0.0 { "traded-with-funding-due" } else { "traded" }, (ix.name, p1.base_position_lots, owed.to_bits()), || {
                        format!("{}: {} -> {} lots, funding {owed:.9}", ix.name, p0.base_position_lots, p1.base_position_lots)
                    });
                    // from now on the new size accrues, from the present funding on
                    if p1.base_position_lots != 0 && (p1.long_settled_funding, p1.short_settled_funding) != (m1.long_funding, m1.short_funding) {
                        out.fail("C19", &format!("unsettled:{}", ix.name), format!(
                            "{} changed a position of {k} from {} to {} lots without settling its funding first ({} / {} of {} / {})",
                            ix.name, p0.base_position_lots, p1.base_position_lots, p1.long_settled_funding, p1.short_settled_funding, m1.long_funding, m1.short_funding
                        ));
                    }
                    if p1.base_position_lots == 0 && !same && p0.base_position_lots != 0 {
                        out.count("closed");
                    }
                } else if p0.base_position_lots != 0 {
                    // size unchanged: funding either fully settled or untouched
                    let full = (p1.long_settled_funding, p1.short_settled_funding) == (m1.long_funding, m1.short_funding)
                        || (p1.long_settled_funding, p1.short_settled_funding) == (m0.long_funding, m0.short_funding);
                    if !same && !full {
                        out.fail("C19", &format!("partly:{}", ix.name), format!("{} settled the funding of {k} to {} / {}", ix.name, p1.long_settled_funding, p1.short_settled_funding));
                    }
                    if !same {
                        let due = f(p1.long_settled_funding - p0.long_settled_funding) * if p0.base_position_lots > 0 { p0.base_position_lots as f64 } else { 0.0 }
                            + f(p1.short_settled_funding - p0.short_settled_funding) * if p0.base_position_lots < 0 { p0.base_position_lots as f64 } else { 0.0 };
                        let c = p1.cumulative_long_funding - p0.cumulative_long_funding - (p1.cumulative_short_funding - p0.cumulative_short_funding);
                        out.eval("pays", (ix.name, due.to_bits()), || format!("{}: {} lots pay {due:.9}", ix.name, p0.base_position_lots));
                        if (c - due).abs() > 1e-6 + due.abs() * 1e-9 + (p1.cumulative_long_funding.abs() + p1.cumulative_short_funding.abs()) * 1e-12 {
                            out.fail("C19", &format!("recorded:{}", ix.name), format!("{}: {} lots owed {due} of funding, recorded {c}", ix.name, p0.base_position_lots));
                        }
                    }
                }
            }
        }
    }
}
impl Funding {
    fn update(&self, ix: &Ix, m0: &PerpMarket, m1: &PerpMarket, dl: f64, ds: f64, out: &mut Out) {
        let d = |s: &str| format!("market {} at {}: {s}; funding moved {dl} / {ds}", m0.perp_market_index, ix.now);
        if ix.now <= m0.funding_last_updated {
            if dl != 0.0 || ds != 0.0 {
                out.fail("C19", "again", d("no time has passed"));
            }
            return;
        }
        if m1.funding_last_updated != ix.now {
            out.fail("C19", "stamp", d(&format!("last update recorded as {}", m1.funding_last_updated)));
        }
        if m1.long_funding - m0.long_funding != m1.short_funding - m0.short_funding {
            out.fail("C19", "asymmetric", d("longs and shorts differ"));
        }
        let dt = (ix.now - m0.funding_last_updated).min(3600) as f64;
        let (Some(bids), Some(asks)) = (ix.pre.book(&m0.bids), ix.pre.book(&m0.asks)) else { return };
        let Price::Ok(op) = perp_price(ix.pre, m0, ix.now, ix.slot) else {
            out.count("price-unknown");
            return;
        };
        let x = op * m0.base_lot_size as f64 / m0.quote_lot_size as f64;
        let cands: Vec<i64> = vec![(x * (1.0 - 1e-12) - 1e-9).floor() as i64, (x * (1.0 + 1e-12) + 1e-9).floor() as i64];
        let (lo, hi) = (f(m0.min_funding), f(m0.max_funding));
        let mut wants = vec![];
        let mut kinds = vec![];
        for c in cands {
            let (b, a) = (impact(bids, true, m0.impact_quantity, ix.now, c), impact(asks, false, m0.impact_quantity, ix.now, c));
            let (rate, kind) = match (b, a) {
                (Some(b), Some(a)) => {
                    let mid = ((b as i128 + a as i128) / 2) as f64 * m0.quote_lot_size as f64 / m0.base_lot_size as f64;
                    let r = mid / op - 1.0;
                    if r <= lo { (lo, "at-min") } else if r >= hi { (hi, "at-max") } else { (r, "book") }
                }
                (Some(_), None) => (hi, "bid-only"),
                (None, Some(_)) => (lo, "ask-only"),
                _ => (0.0, "empty"),
            };
            wants.push(op * m0.base_lot_size as f64 * rate * dt / 86_400.0);
            kinds.push(kind);
        }
        let kind = kinds[0];
        if wants[0] != wants[1] && wants[0].is_finite() {
            out.count("oracle-at-lot-edge");
        }
        out.eval(&format!("update-{kind}"), (wants[0].to_bits(), dt as u64), || d(&format!("{kind}, {dt} s at oracle {op}, should move {}", wants[0])));
        if ix.now - m0.funding_last_updated > 3600 {
            out.count("long-gap");
        }
        if m0.open_interest > 0 {
            out.count("with-open-interest");
        }
        let scale = op * m0.base_lot_size as f64;
        // the rate, the price and the elapsed time are fixed point with 2^-48 resolution
        let tol = 1e-13 + scale * 4e-14 * (1.0 + lo.abs() + hi.abs()) + scale * 4e-14 / op.max(1e-9) * dt / 86_400.0 + wants[0].abs() * 1e-9;
        if wants.iter().all(|w| (dl - w).abs() > tol) {
            if std::env::var_os("SIM_TRACE").is_some() {
                eprintln!("oracle lots {x} impact {} bids {:#?} asks {:#?}", m0.impact_quantity, bids.leaves, asks.leaves);
            }
            out.fail("C19", "amount", d(&format!("{kind}, {dt} s at oracle {op} in [{lo}, {hi}], should move {}", wants[0])));
        }
        let bound = lo.abs().max(hi.abs()) * scale * dt / 86_400.0;
        if dl.abs() > bound * (1.0 + 1e-9) + tol {
            out.fail("C19", "bound", d(&format!("more than {bound}")));
        }
    }
}

/// Settling of pnl and fees
#[derive(Default)]
pub struct Settle {
    /// only these instructions, all if empty
    pub only: &'static [&'static str],
}
impl Settle {
    fn named(&self, s: &State, k: &Pubkey) -> Option<std::rc::Rc<MAcc>> {
        s.accounts.get(k).cloned()
    }
    fn pnl(&self, ix: &Ix, out: &mut Out) {
        let (Some((_, m)), Some(ak), Some(bk)) = (market_of(ix), ix.acc("account_a"), ix.acc("account_b")) else { return };
        let (Some(a0), Some(b0)) = (self.named(ix.pre, &ak), self.named(ix.pre, &bk)) else { return };
        let settler = ix.acc("settler").unwrap_or(ak);
        if ak == bk {
            out.fail("C20", "self", format!("{ak} settled with itself"));
            return;
        }
        let Some(op) = oracle_of(ix, &m) else { return };
        let (mut a, mut b) = (Pp::at(ix.pre, &ak, &m), Pp::at(ix.pre, &bk, &m));
        let (a1, b1) = (Pp::at(ix.post, &ak, &m), Pp::at(ix.post, &bk, &m));
        let s = b1.quote - b.quote;
        let (ta, tb) = (pp_tol(&a, &m, op), pp_tol(&b, &m, op));
        let tol = ta + tb;
        let (pa, pb) = (a.pnl(&m, op), b.pnl(&m, op));
        a.roll(&m, ix.now);
        b.roll(&m, ix.now);
        let (la, lb) = (a.avail(&m).1, -b.avail(&m).0);
        let hb = liq_health(ix.pre, &b0, ix);
        let max = hb.as_ref().and_then(|h| h.perp_settle_max(m.settle_token_index));
        let d = format!(
            "settled {s:.6}: winner {ak} has pnl {pa:.6} of which {la} may be settled, loser {bk} has {pb:.6} of which {lb} may be settled and {:?} afforded (funding and windows included)",
            max
        );
        let bound = [("winner-pnl", pa), ("winner-limit", la), ("loser-pnl", -pb), ("loser-limit", lb), ("loser-health", max.unwrap_or(f64::INFINITY))];
        let (bn, bv) = bound.iter().min_by(|x, y| x.1.partial_cmp(&y.1).unwrap()).unwrap();
        out.eval(&format!("settle-{bn}"), (pa.to_bits(), pb.to_bits(), s.to_bits()), || d.clone());
        let mut slack = tol;
        if bn.ends_with("limit") || la < bv + 3.0 || lb < bv + 3.0 {
            // allowances are whole numbers
            slack += 1.0 + 1e-9 * bv.abs() + if (la - la.round()).abs() > 0.0 { 1.0 } else { 0.0 };
        }
        if let (Some(h), true) = (&hb, *bn == "loser-health" || max.map_or(false, |x| x < bv * (1.0 + 1e-6) + 1.0)) {
            let t = h.tok(m.settle_token_index).unwrap();
            let (wa, wl) = (t.awp(HT::Maint), t.lwp(HT::Maint));
            let w = if wa > 0.0 { wa.min(wl) } else { wl };
            slack += h.err(HT::Maint) / w.max(1e-12) * 2.0 + 1e-9 * bv.abs();
            if h.err(HT::Maint) / w.max(1e-12) > 1e3 {
                out.count("settle-health-imprecise");
                slack = f64::INFINITY;
            }
        }
        if max.is_none() {
            out.count("settle-health-unknown");
        }
        if s < -tol || s > bv + slack {
            out.fail("C20", &format!("too-much:{bn}"), d.clone());
        }
        if max.is_some() && s < bv - slack {
            out.fail("C20", &format!("too-little:{bn}"), d.clone());
        }
        a.settle(s, &m);
        b.settle(-s, &m);
        for (who, want, got, t) in [("winner", &a, &a1, tol), ("loser", &b, &b1, tol)] {
            if let Some(x) = want.differs(got, t + 1e-6) {
                out.fail("C20", &format!("position:{who}"), format!("{d}; {who}: {x}"));
            }
        }
        // tokens
        let bank = ix.acc("settle_bank").and_then(|k| ix.pre.banks.get(&k)).cloned();
        let Some(bank) = bank else { return };
        let bal = |st: &State, k: &Pubkey| super::ledger::fl(&super::ledger::pos(st, k, &bank));
        let ulp = super::ledger::fl(&super::ledger::ulp(&bank)) * 4.0;
        let sz = |k: &Pubkey| bal(ix.pre, k).abs() * 1e-12 + tol + ulp + 1e-6;
        // the fee is what the winner did not get
        let mut got_a = bal(ix.post, &ak) - bal(ix.pre, &ak);
        let mut got_b = bal(ix.post, &bk) - bal(ix.pre, &bk);
        let mut got_s = bal(ix.post, &settler) - bal(ix.pre, &settler);
        let fee = if settler == ak {
            f64::NAN
        } else if settler == bk {
            got_b + s
        } else {
            got_s
        };
        // what it should be
        let ph = liq_health(ix.pre, &a0, ix);
        let rem: Vec<Pubkey> = ix.remaining().collect();
        let prov = |k: &Pubkey| rem.contains(k);
        let sp = bank_price(ix.pre, &bank, ix.now, ix.slot, Some(&prov)).ok();
        if let (Some(h), Some(sp)) = (&ph, sp) {
            let (le, ma) = (h.health(HT::LiqEnd), h.health(HT::Maint));
            let (ee, em) = (h.err(HT::LiqEnd), h.err(HT::Maint));
            let value = (a.base as f64 * m.base_lot_size as f64).abs() * op;
            let worth = 100.0 * pa * sp;
            let flat = m.settle_fee_flat as f64;
            let thr = m.settle_fee_amount_threshold as f64;
            let frac = m.settle_fee_fraction_low_health as f64;
            let low = |le: f64, ma: f64| -> f64 {
                if le >= 0.0 {
                    0.0
                } else if ma < 0.0 {
                    s * frac
                } else {
                    s * frac * (-le / (ma - le))
                }
            };
            let full = |l: f64, big: bool| -> f64 { (if big { flat } else { l.min(2.0 * flat) }).min(s) };
            let mut fs = vec![];
            let near = (worth - value).abs() <= 1e-9 * (worth.abs() + value) + 1e-6;
            if near || worth <= value {
                fs.push(0.0);
            }
            if near || worth > value {
                let edge = (s - thr).abs() < tol + 1e-6;
                for big in [false, true] {
                    if edge || (s >= thr) == big {
                        for (dl, dm) in [(0.0, 0.0), (ee, em), (-ee, -em), (ee, -em), (-ee, em)] {
                            fs.push(full(low(le + dl, ma + dm), big));
                        }
                    }
                }
            }
            let (fl, fh) = (fs.iter().cloned().fold(f64::INFINITY, f64::min), fs.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
            let kind = if fh <= 0.0 { "free" } else if s >= thr { "flat-fee" } else { "low-health-fee" };
            out.eval(kind, (s.to_bits(), fl.to_bits()), || format!("{d}; fee {fee:.6}, should be {fl:.6}..{fh:.6}"));
            let t = sz(&settler) + sz(&ak) + 1e-7 * fh.abs() + s * 1e-11;
            if settler != ak && (fee < fl - t || fee > fh + t) {
                // dust
                if !(fee.abs() < t && fh < 1.0) {
                    out.fail("C20", "fee", format!("{d}; fee {fee:.9}, should be {fl:.9}..{fh:.9} (end health {le:.4}, maintenance {ma:.4}, position value {value:.4})"));
                }
            }
        }
        let fee = if fee.is_nan() { 0.0 } else { fee };
        if settler == bk {
            got_b -= fee;
            got_s = fee;
        }
        if settler == ak {
            got_s = 0.0;
            got_a += 0.0;
        }
        let _ = got_s;
        // balances below one token may be rounded away
        let dusty = |st: &State, k: &Pubkey| bal(st, k) == 0.0;
        for (who, k, got, want) in [("winner", ak, got_a, s - fee), ("loser", bk, got_b, -s)] {
            let t = sz(&k) + sz(&settler);
            let dust = dusty(ix.post, &k) && (bal(ix.pre, &k) + want) > -t && bal(ix.pre, &k) + want < 1.0 + t;
            if (got - want).abs() > t && !dust {
                out.fail("C20", &format!("tokens:{who}"), format!("{d}; the {who}'s balance moved by {got:.9}, should be {want:.9} (fee {fee:.6})"));
            }
        }
    }
    fn fees(&self, ix: &Ix, out: &mut Out) {
        let (Some((mk, m)), Some(k)) = (market_of(ix), ix.acc("account")) else { return };
        let Some(m1) = ix.post.perps.get(&mk) else { return };
        let Some(op) = oracle_of(ix, &m) else { return };
        let mut p = Pp::at(ix.pre, &k, &m);
        let p1 = Pp::at(ix.post, &k, &m);
        let s = p1.quote - p.quote;
        let max = ix.args().u64() as f64;
        let tol = pp_tol(&p, &m, op);
        let pnl = p.pnl(&m, op);
        p.roll(&m, ix.now);
        let lim = -p.avail(&m).0;
        let fees = f(m.fees_accrued);
        let bound = [("pnl", -pnl), ("limit", lim), ("fees", fees), ("asked", max)];
        let (bn, bv) = bound.iter().min_by(|x, y| x.1.partial_cmp(&y.1).unwrap()).unwrap();
        let bv = bv.max(0.0);
        let d = format!("settled {s:.6} of fees: pnl {pnl:.6}, {lim} may be settled, {fees:.6} accrued, asked {max}");
        out.eval(&format!("fees-{bn}"), (pnl.to_bits(), s.to_bits()), || d.clone());
        let slack = tol + if lim < bv + 3.0 { 1.0 + 1e-9 * bv } else { 0.0 };
        if s > bv + slack || s < -tol {
            out.fail("C20", &format!("fees-too-much:{bn}"), d.clone());
        }
        if s < bv - slack {
            out.fail("C20", &format!("fees-too-little:{bn}"), d.clone());
        }
        if s.abs() > tol {
            p.settle(-s, &m);
            if let Some(x) = p.differs(&p1, tol + 1e-6) {
                out.fail("C20", "fees-position", format!("{d}; {x}"));
            }
        }
        let (da, dsd) = (f(m1.fees_accrued - m.fees_accrued), f(m1.fees_settled - m.fees_settled));
        if (da + s).abs() > tol || (dsd - s).abs() > tol {
            out.fail("C20", "fees-accounts", format!("{d}; accrued fees moved by {da}, settled fees by {dsd}"));
        }
        let Some(bank) = ix.acc("settle_bank").and_then(|k| ix.pre.banks.get(&k)).cloned() else { return };
        let bal = |st: &State| super::ledger::fl(&super::ledger::pos(st, &k, &bank));
        let got = bal(ix.post) - bal(ix.pre);
        let t = bal(ix.pre).abs() * 1e-12 + tol + super::ledger::fl(&super::ledger::ulp(&bank)) * 4.0;
        let rest = bal(ix.pre) - s;
        if (got + s).abs() > t && !(bal(ix.post) == 0.0 && rest > -t && rest < 1.0 + t) {
            out.fail("C20", "fees-tokens", format!("{d}; the balance moved by {got}"));
        }
    }
    fn force_close(&self, ix: &Ix, out: &mut Out) {
        let (Some((_, m)), Some(ak), Some(bk)) = (market_of(ix), ix.acc("account_a"), ix.acc("account_b")) else { return };
        let Some(op) = oracle_of(ix, &m) else { return };
        let (mut a, mut b) = (Pp::at(ix.pre, &ak, &m), Pp::at(ix.pre, &bk, &m));
        let (a1, b1) = (Pp::at(ix.post, &ak, &m), Pp::at(ix.post, &bk, &m));
        let n = a.base.min(-b.base);
        let q = n as f64 * m.base_lot_size as f64 * op;
        let d = format!("{} and {} lots at {op}", a.base, b.base);
        out.eval("force-close", (a.base, b.base, op.to_bits()), || d.clone());
        if m.force_close == 0 || a.base <= 0 || b.base >= 0 {
            out.fail("C32", "perp-force-close", format!("{d}: market force close mode is {}", m.force_close));
            return;
        }
        let (ta, tb) = (pp_tol(&a, &m, op), pp_tol(&b, &m, op));
        a.trade(-n, q, &m);
        b.trade(n, -q, &m);
        for (who, want, got, t) in [("long", &a, &a1, ta), ("short", &b, &b1, tb)] {
            if let Some(x) = want.differs(got, t + 1e-6) {
                out.fail("C32", &format!("perp-force-close:{who}"), format!("{d}; {who}: {x}"));
            }
        }
    }
    /// fills are applied to both sides
    fn consume(&self, ix: &Ix, out: &mut Out) {
        let Some((_, m)) = market_of(ix) else { return };
        let (Some(q0), Some(q1)) = (ix.pre.queue(&m.event_queue), ix.post.queue(&m.event_queue)) else { return };
        let n = q0.events.len() - q1.events.len().min(q0.events.len());
        let mut v: BTreeMap<Pubkey, (Pp, f64)> = BTreeMap::new();
        for e in &q0.events[..n] {
            let Ev::Fill(e) = e else { continue };
            let quote = e.price as f64 * e.quantity as f64 * m.quote_lot_size as f64;
            let s = if e.taker_side == 0 { 1i64 } else { -1 };
            let p = v.entry(e.maker).or_insert_with(|| (Pp::at(ix.pre, &e.maker, &m), 0.0));
            p.1 += pp_tol(&p.0, &m, 0.0) + quote * 1e-10;
            p.0.fee(quote * e.maker_fee as f64);
            p.0.trade(-s * e.quantity, s as f64 * quote, &m);
            let p = v.entry(e.taker).or_insert_with(|| (Pp::at(ix.pre, &e.taker, &m), 0.0));
            p.1 += pp_tol(&p.0, &m, 0.0) + quote * 1e-10;
            p.0.trade(s * e.quantity, -s as f64 * quote, &m);
        }
        // traded volume adds up
        let mut vol: BTreeMap<Pubkey, (u64, u64)> = BTreeMap::new();
        for e in &q0.events[..n] {
            if let Ev::Fill(e) = e {
                let q = (e.price as i128 * e.quantity as i128 * m.quote_lot_size as i128) as u64;
                vol.entry(e.maker).or_default().0 += q;
                vol.entry(e.taker).or_default().1 += q;
            }
        }
        for (k, (mk, tk)) in vol {
            let at = |s: &State| s.accounts.get(&k).and_then(|a| a.perp(m.perp_market_index)).map(|p| (p.maker_volume, p.taker_volume));
            if let (Some(a), Some(b)) = (at(ix.pre), at(ix.post)) {
                if b.0.wrapping_sub(a.0) != mk || b.1.wrapping_sub(a.1) != tk {
                    out.fail("C18", "volume", format!("{k}: volumes {a:?} -> {b:?}, the fills add {mk} made and {tk} taken"));
                }
            }
        }
        for (k, (want, tol)) in &v {
            let got = Pp::at(ix.post, k, &m);
            out.eval("fills", (want.base, want.quote.to_bits()), || format!("{k} ends with {want:?}"));
            if let Some(x) = want.differs(&got, tol + n as f64) {
                // several fills round several times
                if n > 1 && want.base == got.base && (want.quote - got.quote).abs() < *tol && (want.oneshot - got.oneshot).abs() < *tol && (want.recurring - got.recurring).abs() < 4 + 2 * n as i64 {
                    continue;
                }
                out.fail("C18", "fill", format!("{n} events processed: {k}: {x}"));
            }
            if let Some(x) = want.history_differs(&got, tol + 2.0 * n as f64) {
                out.fail("C18", "fill-history", format!("{n} events processed: {k}: {x}"));
            }
            if (want.quote - got.quote).abs() > *tol {
                out.fail("C18", "fill", format!("{n} events processed: {k}: quote {} should be {}", got.quote, want.quote));
            }
        }
    }
}
impl Monitor for Settle {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        if !self.only.is_empty() && !self.only.contains(&ix.name) {
            return;
        }
        match ix.name {
            "perp_settle_pnl" => self.pnl(ix, out),
            "perp_settle_fees" => self.fees(ix, out),
            "perp_force_close_position" => self.force_close(ix, out),
            "perp_consume_events" => self.consume(ix, out),
            _ => {}
        }
    }
}
