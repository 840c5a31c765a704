//! Unreliable prices are never relied on; the stable price moves slowly and only on good prices.
use super::*;
use crate::oracles::kind_of;
use crate::spec::{self, Price};
use crate::st::{MAcc, State};
use mango_v4::state::{Bank, PerpMarket, StablePriceModel};

/// where the model would be after seeing `price`
pub fn stable_step(m: &StablePriceModel, now: u64, price: f64) -> StablePriceModel {
    let mut n = *m;
    if m.reset_on_nonzero_price == 1 && price > 0.0 {
        n.stable_price = price;
        n.delay_prices = [price; 24];
        n.delay_accumulator_price = 0.0;
        n.delay_accumulator_time = 0;
        n.last_update_timestamp = now;
        n.reset_on_nonzero_price = 0;
        return n;
    }
    if now < m.last_update_timestamp + 10 {
        return n;
    }
    let dt = now - m.last_update_timestamp;
    // one observation counts for ten minutes at most
    let w = if dt > 600 { 600 } else { dt };
    n.last_update_timestamp = now;
    n.delay_accumulator_price = m.delay_accumulator_price + price * w as f64;
    n.delay_accumulator_time = (m.delay_accumulator_time as u64 + w) as u32;
    let len = m.delay_interval_seconds as u64;
    let slot = (now / len % 24) as usize;
    let last = m.last_delay_interval_index as usize;
    if slot != last {
        let before = m.delay_prices[(last + 23) % 24];
        let avg = n.delay_accumulator_price / n.delay_accumulator_time as f64;
        let g = m.delay_growth_limit as f64;
        let p = limited(avg, before, g);
        if dt > 24 * len {
            n.delay_prices = [p; 24];
        } else {
            let mut i = last;
            while i != slot {
                n.delay_prices[i] = p;
                i = (i + 1) % 24;
            }
        }
        n.delay_accumulator_price = 0.0;
        n.delay_accumulator_time = 0;
        n.last_delay_interval_index = slot as u8;
    }
    let (d, s) = (n.delay_prices[slot], m.stable_price);
    let closeness = d.min(s) / d.max(s);
    n.stable_price = limited(price, s, m.stable_growth_limit as f64 * closeness * closeness * w as f64);
    n
}
fn limited(target: f64, from: f64, g: f64) -> f64 {
    if target > from * (1.0 + g) {
        from * (1.0 + g)
    } else if target < from * (1.0 - g) {
        from * (1.0 - g)
    } else {
        target
    }
}
fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}
pub fn same_model(a: &StablePriceModel, b: &StablePriceModel) -> Result<(), String> {
    let ints = |m: &StablePriceModel| {
        (
            m.last_update_timestamp,
            m.delay_accumulator_time,
            m.delay_interval_seconds,
            m.delay_growth_limit.to_bits(),
            m.stable_growth_limit.to_bits(),
            m.last_delay_interval_index,
            m.reset_on_nonzero_price,
        )
    };
    if ints(a) != ints(b) {
        return Err(format!("{:?} instead of {:?}", ints(a), ints(b)));
    }
    if !near(a.stable_price, b.stable_price) {
        return Err(format!("stable price {} instead of {}", a.stable_price, b.stable_price));
    }
    if !near(a.delay_accumulator_price, b.delay_accumulator_price) {
        return Err(format!("accumulated price {} instead of {}", a.delay_accumulator_price, b.delay_accumulator_price));
    }
    for i in 0..24 {
        if !near(a.delay_prices[i], b.delay_prices[i]) {
            return Err(format!("delay price {i} {} instead of {}", a.delay_prices[i], b.delay_prices[i]));
        }
    }
    Ok(())
}
/// the limits the statement promises, whatever the model does inside: None if all is well
pub fn stable_limits(m: &StablePriceModel, n: &StablePriceModel, now: u64, price: f64) -> Option<String> {
    let (s, t) = (m.stable_price, n.stable_price);
    if m.reset_on_nonzero_price == 1 && price > 0.0 {
        return (t != price).then(|| format!("reset to {t} instead of {price}"));
    }
    let w = now.saturating_sub(m.last_update_timestamp).min(600) as f64;
    let max = m.stable_growth_limit as f64 * w;
    if (t - s).abs() > s * max * (1.0 + 1e-9) {
        return Some(format!("stable price moved from {s} to {t} within {w} s at {} per second", m.stable_growth_limit));
    }
    // towards the price, and not past it
    let (lo, hi) = (s.min(price), s.max(price));
    (t < lo * (1.0 - 1e-9) || t > hi * (1.0 + 1e-9)).then(|| format!("stable price moved from {s} to {t} at price {price}"))
}

/// what a health computation asks for
#[derive(Clone, Copy, PartialEq)]
enum Cover {
    /// of everything the account holds
    Full,
    /// assets without a good price are ignored
    Skip,
}

struct Judge<'a, 'b> {
    ix: &'a Ix<'a>,
    rem: Vec<Pubkey>,
    out: &'b mut Out,
}
impl<'a, 'b> Judge<'a, 'b> {
    fn s(&self) -> &'a State {
        self.ix.pre
    }
    fn kind(&self, k: &Pubkey) -> String {
        self.s().raw.get(k).map_or("none".into(), |a| format!("{:?}", kind_of(&a.owner, &a.data)))
    }
    fn verdict(&mut self, what: &str, who: &str, oracle: &Pubkey, p: Price) {
        let kind = self.kind(oracle);
        let name = self.ix.name;
        self.out.eval(&format!("relied:{what}"), (name, who.to_string(), &kind, p.ok().is_some()), || format!("{name}: {who} priced by a {kind} oracle: {p:?}"));
        self.out.count(&format!("kind:{kind}"));
        if p == Price::Bad {
            self.out.fail(
                "C22",
                &format!("relied:{name}"),
                format!("{name} went through relying on the {what} of {who}, whose {kind} oracle {oracle} is too old, too uncertain or unusable"),
            );
        }
    }
    fn primary(&mut self, what: &str, b: &Bank) {
        let p = spec::bank_price(self.s(), b, self.ix.now, self.ix.slot, None);
        self.verdict(what, &format!("token {}", b.token_index), &b.oracle, p);
    }
    fn bank_with_fallback(&mut self, what: &str, b: &Bank) {
        let rem = self.rem.clone();
        let prov = |k: &Pubkey| rem.contains(k);
        let p = spec::bank_price(self.s(), b, self.ix.now, self.ix.slot, Some(&prov));
        let own = spec::bank_price(self.s(), b, self.ix.now, self.ix.slot, None);
        if own == Price::Bad && p.ok().is_some() {
            self.out.count("fallback-used");
            let k = b.fallback_oracle;
            return self.verdict("fallback", &format!("token {}", b.token_index), &k, p);
        }
        self.verdict(what, &format!("token {}", b.token_index), &b.oracle, p);
    }
    fn perp(&mut self, what: &str, p: &PerpMarket) {
        let v = spec::perp_price(self.s(), p, self.ix.now, self.ix.slot);
        self.verdict(what, &format!("perp {}", p.perp_market_index), &p.oracle, v);
    }
    fn named(&mut self, what: &str, acc: &str) {
        if let Some(b) = self.bank(acc) {
            self.primary(what, &b);
        }
    }
    fn bank(&self, acc: &str) -> Option<Bank> {
        self.ix.acc(acc).and_then(|k| self.s().banks.get(&k).map(|b| **b))
    }
    fn market(&mut self, what: &str) -> Option<PerpMarket> {
        let m = self.ix.acc("perp_market").and_then(|k| self.s().perps.get(&k).map(|b| **b))?;
        self.perp(what, &m);
        Some(m)
    }
    fn token(&self, group: &Pubkey, i: u16) -> Option<Bank> {
        self.s().bank0(group, i).map(|(_, b)| **b)
    }
    fn health(&mut self, what: &str, a: &MAcc, c: Cover) {
        let g = a.fx.group;
        for t in a.active_tokens() {
            let Some(b) = self.token(&g, t.token_index) else { continue };
            if c == Cover::Skip && t.indexed_position >= 0 {
                let rem = self.rem.clone();
                let prov = |k: &Pubkey| rem.contains(k);
                if spec::bank_price(self.s(), &b, self.ix.now, self.ix.slot, Some(&prov)) == Price::Bad {
                    self.out.count("ignored-asset");
                }
                continue;
            }
            self.bank_with_fallback(what, &b);
        }
        for p in a.active_perps() {
            let Some(m) = self.s().perps.values().find(|m| m.group == g && m.perp_market_index == p.market_index).map(|m| **m) else { continue };
            self.perp(what, &m);
        }
    }
    fn pre(&self, acc: &str) -> Option<MAcc> {
        self.ix.acc(acc).and_then(|k| self.ix.pre.accounts.get(&k)).map(|a| (**a).clone())
    }
    fn post(&self, acc: &str) -> Option<MAcc> {
        self.ix.acc(acc).and_then(|k| self.ix.post.accounts.get(&k)).map(|a| (**a).clone())
    }
    fn touched(&self, acc: &str) -> bool {
        self.ix.acc(acc).map_or(false, |k| self.ix.changed().contains(&k))
    }
    /// a health check at the end, unless it is left to the region's end
    fn liqor(&mut self, acc: &str) {
        if !self.touched(acc) {
            return;
        }
        if let Some(a) = self.post(acc) {
            if !a.fx.is_in_health_region() {
                self.health("health", &a, Cover::Full);
            }
        }
    }
    fn liqee(&mut self, acc: &str) {
        if let Some(a) = self.pre(acc) {
            self.health("health", &a, Cover::Full);
        }
    }
    fn moved(&self, acc: &str) -> Vec<u16> {
        let (Some(a), Some(b)) = (self.pre(acc), self.post(acc)) else { return vec![] };
        let v = |m: &MAcc, i: u16| m.tok(i).map_or(0, |t| t.indexed_position.to_bits());
        let mut ix: Vec<u16> = a.active_tokens().chain(b.active_tokens()).map(|t| t.token_index).collect();
        ix.sort();
        ix.dedup();
        ix.into_iter().filter(|i| v(&a, *i) != v(&b, *i)).collect()
    }
    fn tokens_moved(&mut self, acc: &str) {
        let Some(g) = self.pre(acc).map(|a| a.fx.group) else { return };
        for i in self.moved(acc) {
            if let Some(b) = self.token(&g, i) {
                self.bank_with_fallback("balance", &b);
            }
        }
    }

    fn rely(&mut self) {
        let ix = self.ix;
        match ix.name {
            "token_withdraw" => {
                let (Some(a), Some(p)) = (self.pre("account"), self.post("account")) else { return };
                if !a.fx.is_in_health_region() {
                    self.health("health", &a, Cover::Skip);
                }
                let Some(b) = self.bank("bank") else { return };
                let v = |m: &MAcc| m.tok(b.token_index).map_or(0.0, |t| t.indexed_position.to_num::<f64>());
                if v(&p) < 0.0 && v(&p) < v(&a) {
                    self.primary("borrow", &b);
                }
            }
            "token_deposit" | "token_deposit_into_existing" => {
                let (Some(a), Some(p)) = (self.pre("account"), self.post("account")) else { return };
                if !a.fx.is_in_health_region() {
                    self.health("health", &p, Cover::Skip);
                }
                let Some(b) = self.bank("bank") else { return };
                if a.tok(b.token_index).is_none() {
                    self.primary("new position", &b);
                }
            }
            "flash_loan_end" | "flash_loan_end_v2" => {
                if let Some(a) = self.pre("account") {
                    self.health("health", &a, Cover::Skip);
                }
                self.tokens_moved("account");
            }
            "perp_place_order" | "perp_place_order_v2" | "perp_place_order_pegged" | "perp_place_order_pegged_v2" => {
                let Some(a) = self.pre("account") else { return };
                if !a.fx.is_in_health_region() {
                    let Some(m) = self.market("order") else { return };
                    if let Some(b) = self.token(&m.group, m.settle_token_index) {
                        self.bank_with_fallback("order's settle token", &b);
                    }
                    self.health("health", &a, Cover::Skip);
                } else if let Some(m) = self.ix.acc("perp_market").and_then(|k| self.s().perps.get(&k).map(|b| **b)) {
                    // its age is up to the region's end
                    let p = spec::oracle_price(self.s(), &m.oracle, &m.oracle_config, m.base_decimals, ix.now, ix.slot, false);
                    self.verdict("order in a region", &format!("perp {}", m.perp_market_index), &m.oracle, p);
                }
            }
            "serum3_place_order" | "serum3_place_order_v2" => {
                let (Some(a), Some(p)) = (self.pre("account"), self.post("account")) else { return };
                if !a.fx.is_in_health_region() {
                    self.health("health", &a, Cover::Skip);
                    self.health("health", &p, Cover::Skip);
                }
                // both sides must be priced
                let Some(m) = self.ix.acc("serum_market").and_then(|k| self.s().serum.get(&k).cloned()) else { return };
                for i in [m.base_token_index, m.quote_token_index] {
                    if let Some(b) = self.token(&m.group, i) {
                        self.bank_with_fallback("order", &b);
                    }
                }
            }
            "perp_update_funding" => drop(self.market("funding")),
            "token_update_index_and_rate" | "token_update_index_and_rate_resilient" => {
                if let Some(k) = self.rem.first().cloned() {
                    if let Some(b) = self.s().banks.get(&k).map(|b| **b) {
                        self.primary("index update", &b);
                    }
                }
            }
            "perp_settle_pnl" => {
                self.market("settlement");
                self.liqee("account_a");
                self.liqee("account_b");
            }
            // without anything to settle no price matters
            "perp_settle_fees" if !self.moved("account").is_empty() => {
                self.market("settlement");
                self.liqor("account");
            }
            "perp_liq_base_or_positive_pnl" => {
                // otherwise the account has merely recovered
                if self.touched("liqor") {
                    self.market("liquidation");
                }
                self.liqee("liqee");
                self.liqor("liqor");
            }
            "perp_liq_negative_pnl_or_bankruptcy" | "perp_liq_negative_pnl_or_bankruptcy_v2" => {
                if self.touched("liqor") {
                    self.market("liquidation");
                    self.named("liquidation", "settle_bank");
                    self.named("insurance", "insurance_bank");
                }
                self.liqee("liqee");
                self.liqor("liqor");
            }
            "perp_force_close_position" => drop(self.market("forced close")),
            "token_liq_with_token" | "token_liq_bankruptcy" => {
                self.liqee("liqee");
                self.tokens_moved("liqee");
                self.tokens_moved("liqor");
                self.liqor("liqor");
            }
            "token_force_close_borrows_with_token" => {
                self.tokens_moved("liqee");
                self.liqor("liqor");
            }
            "token_conditional_swap_start" | "token_conditional_swap_trigger" | "token_conditional_swap_trigger_v2" => {
                let (Some(a), Some(p)) = (self.pre("liqee"), self.post("liqee")) else { return };
                let cleaned = self.moved("liqor").is_empty()
                    && a.active_tcs().any(|t| t.expiry_timestamp <= ix.now && !p.active_tcs().any(|u| u.id == t.id));
                if cleaned {
                    return;
                }
                self.liqee("liqee");
                self.tokens_moved("liqee");
                if ix.name != "token_conditional_swap_start" {
                    self.liqor("liqor");
                }
            }
            "token_charge_collateral_fees" => {
                if !self.moved("account").is_empty() {
                    self.liqee("account");
                }
            }
            "perp_liq_force_cancel_orders" | "serum3_liq_force_cancel_orders" => self.liqee("account"),
            "health_region_begin" => self.liqee("account"),
            "health_region_end" => {
                if let Some(a) = self.post("account") {
                    self.health("health", &a, Cover::Full);
                }
            }
            "health_check" => {
                if let Some(a) = self.pre("account") {
                    self.health("health", &a, Cover::Skip);
                }
            }
            "compute_account_data" => self.liqee("account"),
            "account_buyback_fees_with_mngo" => {
                if !self.moved("account").is_empty() {
                    self.named("buyback", "mngo_bank");
                    self.named("buyback", "fees_bank");
                }
            }
            "serum3_settle_funds_v2" => {
                // fees credited at the value of the quote token
                let (Some(a), Some(p)) = (self.pre("account"), self.post("account")) else { return };
                if p.fx.buyback_fees_accrued_current > a.fx.buyback_fees_accrued_current {
                    self.named("rebates", "quote_bank");
                }
            }
            _ => {}
        }
    }

    fn stable(&mut self) {
        let ix = self.ix;
        for k in ix.changed() {
            let (what, m, n, price) = if let (Some(b), Some(c)) = (ix.pre.banks.get(&k), ix.post.banks.get(&k)) {
                let p = spec::bank_price(ix.pre, b, ix.now, ix.slot, None);
                ("bank", b.stable_price_model, c.stable_price_model, p)
            } else if let (Some(b), Some(c)) = (ix.pre.perps.get(&k), ix.post.perps.get(&k)) {
                // in a health region the age is judged at its end
                let p = spec::oracle_price(ix.pre, &b.oracle, &b.oracle_config, b.base_decimals, ix.now, ix.slot, false);
                ("perp", b.stable_price_model, c.stable_price_model, p)
            } else {
                continue;
            };
            if ix.is(&["token_edit", "perp_edit_market", "token_add_bank", "token_register", "token_register_trustless", "perp_create_market"]) {
                continue;
            }
            let moved = bytemuck::bytes_of(&m) != bytemuck::bytes_of(&n);
            let updates = match what {
                "bank" => ix.is(&["token_update_index_and_rate", "token_update_index_and_rate_resilient"]),
                _ => {
                    ix.is(&["perp_update_funding", "perp_place_order", "perp_place_order_v2", "perp_place_order_pegged", "perp_place_order_pegged_v2"])
                        && ix.now > ix.pre.perps[&k].funding_last_updated
                }
            };
            if !updates {
                if moved {
                    self.out.fail("C22", &format!("stable-moved:{}", ix.name), format!("{} moved the stable price of {what} {k}: {} to {}", ix.name, m.stable_price, n.stable_price));
                }
                continue;
            }
            let Some(price) = price.ok() else {
                if moved {
                    self.out.fail("C22", &format!("stable-bad-price:{}", ix.name), format!("{} moved the stable price of {what} {k} on a bad price: {} to {}", ix.name, m.stable_price, n.stable_price));
                }
                continue;
            };
            // all banks of a token share what the first of them arrives at
            let m = match what {
                "bank" => match self.rem.first().and_then(|k| ix.pre.banks.get(k)) {
                    Some(b) => b.stable_price_model,
                    None => m,
                },
                _ => m,
            };
            let want = stable_step(&m, ix.now, price);
            let dt = ix.now.saturating_sub(m.last_update_timestamp);
            self.out.eval(
                &format!("stable:{what}"),
                (n.stable_price.to_bits(), dt, n.last_delay_interval_index),
                || format!("{}: price {price}, stable {} -> {} after {dt} s", ix.name, m.stable_price, n.stable_price),
            );
            self.out.count(match dt {
                0..=9 => "stable:too-soon",
                10..=600 => "stable:regular",
                601..=86_400 => "stable:late",
                _ => "stable:very-late",
            });
            if n.last_delay_interval_index != m.last_delay_interval_index {
                self.out.count("stable:new-interval");
            }
            if let Err(e) = same_model(&n, &want) {
                self.out.fail("C22", &format!("stable-model:{}", ix.name), format!("{} left {what} {k} with {e} (price {price}, after {dt} s)", ix.name));
            }
            if dt >= 10 {
                if let Some(e) = stable_limits(&m, &n, ix.now, price) {
                    self.out.fail("C22", &format!("stable-limit:{}", ix.name), format!("{} on {what} {k}: {e}", ix.name));
                }
            }
        }
    }
}

#[derive(Default)]
pub struct Prices;
impl Monitor for Prices {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        let changes = ix.changed().iter().any(|k| ix.pre.raw.get(k).map_or(false, |a| a.owner == mango_v4::id()));
        let mut j = Judge { ix, rem: ix.remaining().collect(), out };
        if changes || ix.is(&["health_check", "compute_account_data"]) {
            j.rely();
        }
        j.stable();
    }
    fn failed(&mut self, t: &Tx, out: &mut Out) {
        if let Some(c @ (6023 | 6024)) = t.rec.custom_error() {
            if let Err((i, _)) = &t.rec.result {
                let name = ix_abi(&t.rec.ixs[*i].data).map_or("other", |a| a.name);
                out.eval("refused", (name, c), || format!("{name} refused: {}", if c == 6023 { "not confident" } else { "stale" }));
                out.count(&format!("refused:{name}"));
            }
        }
    }
}
