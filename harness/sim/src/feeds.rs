//! Workload side of oracles: accounts of every kind, faults in them.
use crate::oracles::{self, Feed, Kind};
use crate::pt::*;
use crate::world::*;
use mango_v4::state::OracleConfig;
use rand::prelude::*;
use solana_program::instruction::AccountMeta;
use solana_program::pubkey::Pubkey;

pub struct Source {
    pub key: Pubkey,
    pub dec: u8,
    pub mint: Pubkey,
    pub price: f64,
    pub fallback: bool,
    pub cfg: OracleConfig,
}
impl World {
    pub fn sources(&self) -> Vec<Source> {
        let mut v: Vec<Source> = vec![];
        self.hub.with_state(|s| {
            let mut add = |key: Pubkey, dec: u8, mint: Pubkey, price: f64, fallback: bool, cfg: Option<OracleConfig>| {
                if let (Some(cfg), false) = (cfg, v.iter().any(|x| x.key == key)) {
                    v.push(Source { key, dec, mint, price, fallback, cfg });
                }
            };
            for t in &self.grp().toks {
                let cfg = s.banks.get(&t.banks[0]).map(|b| b.oracle_config);
                add(t.t.oracle, t.dec, t.t.mint.pubkey, t.price, false, cfg);
                if let Some(f) = t.fallback {
                    add(f, t.dec, t.t.mint.pubkey, t.price, true, cfg);
                }
            }
            for p in &self.grp().perps {
                let t = &self.grp().toks[p.base_tok];
                let m = s.perps.get(&p.market);
                add(p.oracle, m.map_or(t.dec, |m| m.base_decimals), t.t.mint.pubkey, p.price, false, m.map(|m| m.oracle_config));
            }
        });
        v
    }
    pub fn source_kind(&self, k: &Pubkey) -> Option<Kind> {
        let s = self.solana.context.borrow();
        let a = s.get(k)?;
        oracles::kind_of(&a.owner, &a.data)
    }
    /// as a well-behaved feed would look right now
    pub fn fresh(&self, price: f64) -> Feed {
        let c = self.solana.clock();
        Feed { price, dev: 0.0, slot: c.slot, time: c.unix_timestamp, odd: 0 }
    }
    /// keeps the kind of the account
    pub fn write_feed(&mut self, k: &Pubkey, dec: u8, mint: &Pubkey, x: &Feed) {
        let kind = self.source_kind(k).unwrap_or(Kind::Stub);
        self.write_kind(k, kind, dec, mint, x)
    }
    pub fn write_kind(&mut self, k: &Pubkey, kind: Kind, dec: u8, mint: &Pubkey, x: &Feed) {
        let mut x = *x;
        let clmm = matches!(kind, Kind::Orca | Kind::Raydium);
        if clmm && x.odd != 0 && self.rng.gen_bool(0.7) {
            x.odd = 0;
        }
        if clmm {
            // which way round and quoted in what, fixed per account
            x.odd = (x.odd & 7).min(3) | (k.as_ref()[0] & 1) << 3 | (k.as_ref()[1] & 1) << 4;
        }
        let mut a = oracles::account(kind, dec, &x, mint, &mut self.rng);
        if kind == Kind::Stub {
            // the group it belongs to stays
            let s = self.solana.context.borrow();
            if let Some(old) = s.get(k).filter(|o| o.data.len() >= 40 && o.owner == mango_v4::id()) {
                a.data[8..40].copy_from_slice(&old.data[8..40]);
            } else {
                let g = self.grp().group;
                a.data[8..40].copy_from_slice(g.as_ref());
            }
        }
        self.solana.set_raw_account(*k, a);
        self.sync();
    }
    pub fn quote_feeds(&mut self) {
        let x = Feed { price: 1.0, ..self.fresh(1.0) };
        self.solana.set_raw_account(oracles::usdc_feed(), oracles::quote_feed(false, &x));
        self.solana.set_raw_account(oracles::sol_feed(), oracles::quote_feed(true, &x));
        self.sync();
    }
    /// feeds that publish regularly have done so
    pub fn republish(&mut self) {
        self.quote_feeds();
        for s in self.sources() {
            if self.source_kind(&s.key) != Some(Kind::Stub) && self.rng.gen_bool(0.95) {
                let dev = if self.rng.gen_bool(0.9) { self.rng.gen_range(0.0..0.5) * s.cfg.conf_filter.to_num::<f64>().min(1.0) } else { 0.0 };
                let mut x = Feed { dev, ..self.fresh(s.price) };
                if s.fallback {
                    x.price *= self.rng.gen_range(0.98..1.02);
                }
                x.slot -= self.rng.gen_range(0..3);
                self.write_feed(&s.key, s.dec, &s.mint, &x);
            }
        }
    }
    /// a feed that is not quite, or not at all, as the configuration asks
    pub fn faulty(&mut self, s: &Source) -> Feed {
        let mut x = self.fresh(s.price);
        let max = s.cfg.max_staleness_slots;
        let cf: f64 = s.cfg.conf_filter.to_num();
        let r = &mut self.rng;
        if r.gen_bool(0.65) && max >= 0 {
            x.slot -= (max as u64).min(x.slot - 1);
            let d = *[0i64, 0, 1, 1, 2, 3, 100, 5000].choose(r).unwrap();
            x.slot = x.slot.saturating_sub(d as u64);
            if r.gen_bool(0.1) {
                x.slot += 1;
            }
            // published as long ago, or the clock tells otherwise
            let ago = (max as f64 * 0.45) as i64 + *[-1i64, 0, 0, 1, 2, 60].choose(r).unwrap();
            if r.gen_bool(0.6) {
                x.time -= ago.max(0);
            }
            if r.gen_bool(0.3) {
                x.slot = self.solana.clock().slot;
            }
        } else if r.gen_bool(0.8) {
            x.dev = cf * *[0.5, 0.99, 0.9999, 1.0001, 1.01, 2.0, 30.0].choose(r).unwrap();
        } else {
            x.odd = r.gen_range(1..6);
        }
        let r = &mut self.rng;
        if r.gen_bool(0.15) {
            x.dev = cf * r.gen_range(0.9..1.2);
        }
        if r.gen_bool(0.1) {
            x.price *= r.gen_range(0.5..2.0);
        }
        x
    }
    /// the same transaction, had one or two of the oracles it looks at been in a bad state
    pub fn oracle_fault(&mut self, tx: &Tx) {
        let keys: Vec<Pubkey> = tx.ixs.iter().flat_map(|i| i.accounts.iter().map(|m| m.pubkey)).collect();
        let mut v: Vec<Source> = self.sources().into_iter().filter(|s| keys.contains(&s.key)).collect();
        if v.is_empty() {
            return;
        }
        v.shuffle(&mut self.rng);
        let n = if self.rng.gen_bool(0.25) { 2 } else { 1 };
        let t = tx.clone();
        self.detour(|w| {
            for s in v.iter().take(n) {
                let x = w.faulty(s);
                w.write_feed(&s.key, s.dec, &s.mint, &x);
            }
            if w.rng.gen_bool(0.1) {
                let f = Feed { price: w.rng.gen_range(0.9..1.1), dev: w.rng.gen_range(0.0..0.3), ..w.fresh(1.0) };
                let sol = w.rng.gen_bool(0.5);
                let k = if sol { oracles::sol_feed() } else { oracles::usdc_feed() };
                w.solana.set_raw_account(k, oracles::quote_feed(sol, &f));
            }
            w.hub.with_out(|o| o.count("fault-injected"));
            if w.run(t).ok() {
                w.hub.with_out(|o| o.count("fault-tolerated"));
            }
        });
    }
    pub fn quote_feed_metas(&self) -> Vec<AccountMeta> {
        vec![AccountMeta::new_readonly(oracles::usdc_feed(), false), AccountMeta::new_readonly(oracles::sol_feed(), false)]
    }
}
/// an oracle account of another kind in the place of one of the group's
pub fn oracle_kind(w: &mut World) -> Option<Tx> {
    if !w.cfg.oracle_kinds {
        return None;
    }
    let v = w.sources();
    let s = v.choose(&mut w.rng)?;
    let kind = if s.fallback && w.rng.gen_bool(0.5) {
        *[Kind::Orca, Kind::Raydium].choose(&mut w.rng).unwrap()
    } else if w.rng.gen_bool(0.1) {
        Kind::Stub
    } else {
        *oracles::FEEDS.choose(&mut w.rng).unwrap()
    };
    if kind != Kind::Stub || w.source_kind(&s.key) != Some(Kind::Stub) {
        let x = w.fresh(s.price);
        w.write_kind(&s.key, kind, s.dec, &s.mint, &x);
        // not something every decimals and price allow
        let a = (**w.solana.context.borrow().get(&s.key)?).clone();
        let st = w.hub.state();
        let feed = |k: &Pubkey| st.raw.get(k).map(|a| a.data.clone());
        let back = oracles::read(&a.owner, &a.data, s.dec, &feed).map_or(0.0, |r| r.price.to_num::<f64>());
        if (back / s.price - 1.0).abs() > 0.02 {
            w.hub.with_out(|o| o.count("kind-impossible"));
            w.write_kind(&s.key, Kind::Stub, s.dec, &s.mint, &x);
        }
    }
    None
}
