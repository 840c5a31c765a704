//! Independent restatement of prices, weights and account health, in f64.
use crate::oracles::Reading;
use crate::st::*;
use mango_v4::state::{Bank, OracleConfig, PerpMarket, PerpPosition};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Price {
    Ok(f64),
    /// stale or not confident
    Bad,
    /// an oracle kind the monitors do not read
    Unknown,
}
impl Price {
    pub fn ok(&self) -> Option<f64> {
        match self {
            Price::Ok(p) => Some(*p),
            _ => None,
        }
    }
}

pub fn oracle_price(
    s: &State,
    oracle: &Pubkey,
    cfg: &OracleConfig,
    decimals: u8,
    now: u64,
    slot: u64,
    check_stale: bool,
) -> Price {
    match reading(s, oracle, decimals, None) {
        None => Price::Unknown,
        Some(None) => Price::Bad,
        Some(Some(r)) => judge(&r, cfg, now, slot, check_stale),
    }
}
/// what an oracle account says: None if there is no such account, Some(None) if it cannot be used at all
pub fn reading(s: &State, oracle: &Pubkey, decimals: u8, provided: Option<&dyn Fn(&Pubkey) -> bool>) -> Option<Option<Reading>> {
    let a = s.raw.get(oracle)?;
    let feed = |k: &Pubkey| if provided.map_or(false, |g| g(k)) { s.raw.get(k).map(|a| a.data.clone()) } else { None };
    Some(crate::oracles::read(&a.owner, &a.data, decimals, &feed))
}
/// as certain and as recent as the configuration asks?
pub fn judge(r: &Reading, cfg: &OracleConfig, now: u64, slot: u64, check_stale: bool) -> Price {
    // exact, the confidence test is a sharp boundary
    let conf_bad = r.deviation.map_or(false, |d| d > cfg.conf_filter * r.price);
    let max = cfg.max_staleness_slots;
    let stale = check_stale
        && max >= 0
        && (r.slot.map_or(false, |l| l.saturating_add(max as u64) < slot)
            || r.time.map_or(false, |t| t.saturating_mul(1000) < (now * 1000).saturating_sub(max as u64 * 450)));
    if conf_bad || stale { Price::Bad } else { Price::Ok(f(r.price)) }
}
/// the price health computations use for a bank: primary, else the fallback if it was provided
pub fn bank_price(
    s: &State,
    b: &Bank,
    now: u64,
    slot: u64,
    provided: Option<&dyn Fn(&Pubkey) -> bool>,
) -> Price {
    let p = match reading(s, &b.oracle, b.mint_decimals, provided) {
        None => Price::Unknown,
        Some(None) => return Price::Bad,
        Some(Some(r)) => judge(&r, &b.oracle_config, now, slot, true),
    };
    let have = b.fallback_oracle != Pubkey::default() && provided.map_or(false, |g| g(&b.fallback_oracle));
    if p == Price::Bad && have {
        return match reading(s, &b.fallback_oracle, b.mint_decimals, provided) {
            None => Price::Unknown,
            Some(None) => Price::Bad,
            Some(Some(r)) => judge(&r, &b.oracle_config, now, slot, true),
        };
    }
    p
}
pub fn perp_price(s: &State, p: &PerpMarket, now: u64, slot: u64) -> Price {
    oracle_price(s, &p.oracle, &p.oracle_config, p.base_decimals, now, slot, true)
}

#[derive(Clone, Copy, PartialEq, Debug, Hash, Eq)]
pub enum HT {
    Init,
    Maint,
    LiqEnd,
}
pub const HTS: [HT; 3] = [HT::Init, HT::Maint, HT::LiqEnd];

pub fn deposits(b: &Bank) -> f64 {
    f(b.deposit_index) * f(b.indexed_deposits)
}
pub fn borrows(b: &Bank) -> f64 {
    f(b.borrow_index) * f(b.indexed_borrows)
}
pub fn maint_weights(b: &Bank, now: u64) -> (f64, f64) {
    let (a, l) = (f(b.maint_asset_weight), f(b.maint_liab_weight));
    if b.maint_weight_shift_duration_inv == 0 || now <= b.maint_weight_shift_start {
        (a, l)
    } else {
        let (ta, tl) = (f(b.maint_weight_shift_asset_target), f(b.maint_weight_shift_liab_target));
        if now >= b.maint_weight_shift_end {
            return (ta, tl);
        }
        let frac = (now - b.maint_weight_shift_start) as f64
            / (b.maint_weight_shift_end - b.maint_weight_shift_start) as f64;
        (a + frac * (ta - a), l + frac * (tl - l))
    }
}

#[derive(Clone, Debug)]
pub struct TokH {
    pub idx: u16,
    pub oracle: f64,
    pub stable: f64,
    pub maint_a: f64,
    pub maint_l: f64,
    pub init_a: f64,
    pub init_l: f64,
    pub sinit_a: f64,
    pub sinit_l: f64,
    pub spot: f64,
    pub position: f64,
    pub liquidatable_asset: bool,
}
impl TokH {
    pub fn asset_price(&self, h: HT) -> f64 {
        if h == HT::Init {
            self.oracle.min(self.stable)
        } else {
            self.oracle
        }
    }
    pub fn liab_price(&self, h: HT) -> f64 {
        if h == HT::Init {
            self.oracle.max(self.stable)
        } else {
            self.oracle
        }
    }
    pub fn aw(&self, h: HT) -> f64 {
        match h {
            HT::Init => self.sinit_a,
            HT::LiqEnd => self.init_a,
            HT::Maint => self.maint_a,
        }
    }
    pub fn lw(&self, h: HT) -> f64 {
        match h {
            HT::Init => self.sinit_l,
            HT::LiqEnd => self.init_l,
            HT::Maint => self.maint_l,
        }
    }
    pub fn awp(&self, h: HT) -> f64 {
        self.aw(h) * self.asset_price(h)
    }
    pub fn lwp(&self, h: HT) -> f64 {
        self.lw(h) * self.liab_price(h)
    }
}
#[derive(Clone, Debug)]
pub struct SerH {
    pub market: u16,
    pub base: usize,
    pub quote: usize,
    pub res_base: f64,
    pub res_quote: f64,
    pub low_ask: f64,
    pub high_bid_inv: f64,
    pub zero_funds: bool,
}
#[derive(Clone, Debug)]
pub struct PerpH {
    pub market: u16,
    pub settle: u16,
    pub oracle: f64,
    pub stable: f64,
    pub base_lot: f64,
    pub lots: i64,
    pub bids: i64,
    pub asks: i64,
    pub quote: f64,
    pub m_ba: f64,
    pub i_ba: f64,
    pub m_bl: f64,
    pub i_bl: f64,
    pub m_oa: f64,
    pub i_oa: f64,
    pub has_orders: bool,
    pub has_fills: bool,
}
impl PerpH {
    pub fn uhupnl(&self, h: HT) -> f64 {
        let (lo, hi) = if h == HT::Init {
            (self.oracle.min(self.stable), self.oracle.max(self.stable))
        } else {
            (self.oracle, self.oracle)
        };
        let case = |orders: i64, price: f64| {
            let net = (self.lots + orders) as f64 * self.base_lot;
            let v = if net < 0.0 {
                net * hi * if h == HT::Maint { self.m_bl } else { self.i_bl }
            } else {
                net * lo * if h == HT::Maint { self.m_ba } else { self.i_ba }
            };
            v - orders as f64 * self.base_lot * price
        };
        self.quote + case(self.bids, hi).min(case(-self.asks, lo))
    }
    pub fn hupnl(&self, h: HT) -> f64 {
        let u = self.uhupnl(h);
        if u > 0.0 {
            u * if h == HT::Maint { self.m_oa } else { self.i_oa }
        } else {
            u
        }
    }
    pub fn upnl(&self) -> f64 {
        self.quote + self.lots as f64 * self.base_lot * self.oracle
    }
}

#[derive(Clone, Debug)]
pub struct Hc {
    pub toks: Vec<TokH>,
    pub sers: Vec<SerH>,
    pub perps: Vec<PerpH>,
    /// bound on the fixed point error of any health value
    pub tol: f64,
    /// a token or perp oracle that is stale/unconfident (its position is still listed, price 0)
    pub bad: Vec<u16>,
}

pub fn perp_quote_with_funding(p: &PerpPosition, m: &PerpMarket) -> f64 {
    let fund = if p.base_position_lots > 0 {
        f(m.long_funding - p.long_settled_funding) * p.base_position_lots as f64
    } else if p.base_position_lots < 0 {
        f(m.short_funding - p.short_settled_funding) * p.base_position_lots as f64
    } else {
        0.0
    };
    f(p.quote_position_native) - fund
}

pub struct HcOpts<'a> {
    pub now: u64,
    pub slot: u64,
    /// which of a token's banks the computation was given
    pub bank_for: Option<&'a BTreeMap<u16, Pubkey>>,
    pub provided: Option<&'a dyn Fn(&Pubkey) -> bool>,
    /// leave out nonnegative positions whose bank is missing or whose oracle is bad
    pub skipping: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum NoHealth {
    /// the program must refuse to compute it
    Refused,
    /// the monitors cannot tell
    Unknown,
}
/// Returns None when health is not computable from stub oracles.
pub fn health(s: &State, a: &MAcc, o: &HcOpts) -> Option<Hc> {
    health_or(s, a, o).ok()
}
pub fn health_or(s: &State, a: &MAcc, o: &HcOpts) -> Result<Hc, NoHealth> {
    use NoHealth::*;
    let g = &a.fx.group;
    let mut h = Hc { toks: vec![], sers: vec![], perps: vec![], tol: 1e-6, bad: vec![] };
    for t in a.active_tokens() {
        let bk: Rc<Bank> = match o.bank_for {
            Some(m) => match m.get(&t.token_index) {
                Some(k) => s.banks.get(k).ok_or(Unknown)?.clone(),
                None if o.skipping && t.indexed_position >= 0 => continue,
                None => return Err(Refused),
            },
            None => s.bank0(g, t.token_index).ok_or(Unknown)?.1.clone(),
        };
        let b = &*bk;
        let oracle = match bank_price(s, b, o.now, o.slot, o.provided) {
            Price::Ok(p) => p,
            Price::Bad => {
                h.bad.push(t.token_index);
                if o.skipping && t.indexed_position >= 0 {
                    continue;
                }
                return Err(Refused);
            }
            Price::Unknown => return Err(Unknown),
        };
        let stable = b.stable_price_model.stable_price;
        let lp = oracle.max(stable);
        let (ma, ml) = maint_weights(b, o.now);
        let dq = (deposits(b) + b.potential_serum_tokens as f64) * lp;
        let bq = borrows(b) * lp;
        let sinit_a = if b.deposit_weight_scale_start_quote == f64::MAX
            || dq <= b.deposit_weight_scale_start_quote
        {
            f(b.init_asset_weight)
        } else {
            f(b.init_asset_weight) * b.deposit_weight_scale_start_quote / dq
        };
        let sinit_l = if b.borrow_weight_scale_start_quote == f64::MAX
            || bq <= b.borrow_weight_scale_start_quote
        {
            f(b.init_liab_weight)
        } else if b.borrow_weight_scale_start_quote == 0.0 {
            return Err(Unknown);
        } else {
            f(b.init_liab_weight) * bq / b.borrow_weight_scale_start_quote
        };
        let pos = native_pos(t, b);
        // 2^-48 granularity of price and weight products
        let w = sinit_l.max(ml).max(f(b.init_liab_weight)).max(1.0);
        h.tol += w * lp * 4e-14;
        if b.maint_weight_shift_duration_inv != 0 && o.now > b.maint_weight_shift_start && o.now < b.maint_weight_shift_end {
            // the inverse of the duration has limited resolution
            h.tol += (o.now - b.maint_weight_shift_start) as f64 * 4e-15 * pos.abs() * lp;
        }
        h.toks.push(TokH {
            idx: t.token_index,
            oracle,
            stable,
            maint_a: ma,
            maint_l: ml,
            init_a: f(b.init_asset_weight),
            init_l: f(b.init_liab_weight),
            sinit_a,
            sinit_l,
            spot: pos,
            position: pos,
            liquidatable_asset: b.disable_asset_liquidation == 0,
        });
    }
    for so in a.active_serum() {
        let oo = s.oos.get(&so.open_orders).ok_or(Unknown)?;
        let bi = h.toks.iter().position(|t| t.idx == so.base_token_index);
        let qi = h.toks.iter().position(|t| t.idx == so.quote_token_index);
        let (bi, qi) = match (bi, qi) {
            (Some(b), Some(q)) => (b, q),
            _ if o.skipping => continue,
            _ => return Err(Refused),
        };
        h.toks[bi].spot += oo.coin_free as f64;
        h.toks[qi].spot += oo.pc_free as f64;
        let (rb, rq) = ((oo.coin_total - oo.coin_free) as f64, (oo.pc_total - oo.pc_free) as f64);
        // reserved amounts are converted with prices and ratios of limited resolution
        let (bt, qt) = (&h.toks[bi], &h.toks[qi]);
        let bw = bt.lwp(HT::Init).max(bt.lwp(HT::Maint)).max(bt.lwp(HT::LiqEnd));
        let qw = qt.lwp(HT::Init).max(qt.lwp(HT::Maint)).max(qt.lwp(HT::LiqEnd));
        let as_base = rb + rq * qt.liab_price(HT::Init) / bt.asset_price(HT::Init);
        let as_quote = rq + rb * bt.liab_price(HT::Init) / qt.asset_price(HT::Init);
        h.tol += (rq * 8e-15 + 4e-14) * bw + (rb * 8e-15 + 4e-14) * qw + (as_base + as_quote) * 2e-14 + (as_base * bw + as_quote * qw) * 2e-13;
        h.sers.push(SerH {
            market: so.market_index,
            base: bi,
            quote: qi,
            res_base: rb,
            res_quote: rq,
            low_ask: so.lowest_placed_ask,
            high_bid_inv: so.highest_placed_bid_inv,
            zero_funds: oo.coin_total == 0 && oo.pc_total == 0 && oo.rebates == 0,
        });
    }
    for t in &h.toks {
        let lp = t.liab_price(HT::Init);
        let w = t.sinit_l.max(t.maint_l).max(t.init_l).max(1.0);
        let n = t.spot.abs().max(t.position.abs());
        h.tol += n * 2e-14 * (1.0 + lp) + n * lp * w * 2e-13;
    }
    for p in a.active_perps() {
        let (_, m) = s.perp_by_index(g, p.market_index).ok_or(Unknown)?;
        let oracle = match perp_price(s, m, o.now, o.slot) {
            Price::Ok(p) => p,
            Price::Bad => return Err(Refused),
            Price::Unknown => return Err(Unknown),
        };
        if !h.toks.iter().any(|t| t.idx == m.settle_token_index) {
            return Err(Refused);
        }
        let lots = p.base_position_lots + p.taker_base_lots;
        let quote = perp_quote_with_funding(p, m)
            + p.taker_quote_lots as f64 * m.quote_lot_size as f64;
        let bl = m.base_lot_size as f64;
        let native =
            (lots.abs() + p.bids_base_lots.abs() + p.asks_base_lots.abs()) as f64 * bl;
        let st = h.toks.iter().find(|t| t.idx == m.settle_token_index).unwrap();
        let sw = st.lwp(HT::Init).max(st.lwp(HT::Maint)).max(st.lwp(HT::LiqEnd)).max(1e-9);
        let lp = oracle.max(m.stable_price_model.stable_price);
        h.tol += sw * (native * (4e-14 + lp * 2e-13) + quote.abs() * 2e-13 + p.base_position_lots.abs() as f64 * 1e-14 + 1e-13)
            + (native * lp + quote.abs()) * 2e-14;
        h.perps.push(PerpH {
            market: p.market_index,
            settle: m.settle_token_index,
            oracle,
            stable: m.stable_price_model.stable_price,
            base_lot: bl,
            lots,
            bids: p.bids_base_lots,
            asks: p.asks_base_lots,
            quote,
            m_ba: f(m.maint_base_asset_weight),
            i_ba: f(m.init_base_asset_weight),
            m_bl: f(m.maint_base_liab_weight),
            i_bl: f(m.init_base_liab_weight),
            m_oa: f(m.maint_overall_asset_weight),
            i_oa: f(m.init_overall_asset_weight),
            has_orders: p.bids_base_lots != 0
                || p.asks_base_lots != 0,
            has_fills: p.taker_base_lots != 0 || p.taker_quote_lots != 0,
        });
    }
    h.tol *= 8.0;
    Ok(h)
}

impl Hc {
    pub fn tok(&self, idx: u16) -> Option<&TokH> {
        self.toks.iter().find(|t| t.idx == idx)
    }
    pub fn perp(&self, idx: u16) -> Option<&PerpH> {
        self.perps.iter().find(|t| t.market == idx)
    }
    /// token balances with the perp contributions of the markets settling in the token
    pub fn effective(&self, ht: HT, ignore_neg_perp: bool) -> Vec<f64> {
        self.toks
            .iter()
            .map(|t| {
                t.spot
                    + self
                        .perps
                        .iter()
                        .filter(|p| p.settle == t.idx)
                        .map(|p| p.hupnl(ht))
                        .filter(|x| !ignore_neg_perp || *x > 0.0)
                        .sum::<f64>()
            })
            .collect()
    }
    fn reserved(&self, ht: HT) -> Vec<(f64, f64)> {
        self.sers
            .iter()
            .map(|x| {
                let (b, q) = (&self.toks[x.base], &self.toks[x.quote]);
                let mut q_as_b = x.res_quote * q.asset_price(ht) / b.liab_price(ht);
                if x.res_quote * x.high_bid_inv >= 3.5527136788005e-15 {
                    q_as_b = q_as_b.min(x.res_quote * x.high_bid_inv);
                }
                let mut b_as_q = x.res_base * b.asset_price(ht) / q.liab_price(ht);
                if x.res_base * x.low_ask >= 3.5527136788005e-15 {
                    b_as_q = b_as_q.min(x.res_base * x.low_ask);
                }
                (x.res_base + q_as_b, x.res_quote + b_as_q)
            })
            .collect()
    }
    /// per token, what could arrive from spot orders
    pub fn potential(&self, ht: HT) -> Vec<f64> {
        let mut m = vec![0.0; self.toks.len()];
        for (x, r) in self.sers.iter().zip(self.reserved(ht)) {
            m[x.base] += r.0;
            m[x.quote] += r.1;
        }
        m
    }
    /// (token contributions, serum contributions)
    pub fn parts(&self, ht: HT, ignore_neg_perp: bool) -> (Vec<f64>, Vec<f64>) {
        let eff = self.effective(ht, ignore_neg_perp);
        let toks: Vec<f64> = self
            .toks
            .iter()
            .zip(&eff)
            .map(|(t, e)| if *e < 0.0 { e * t.lwp(ht) } else { e * t.awp(ht) })
            .collect();
        let res = self.reserved(ht);
        let mut maxres = vec![0.0; self.toks.len()];
        for (x, r) in self.sers.iter().zip(&res) {
            maxres[x.base] += r.0;
            maxres[x.quote] += r.1;
        }
        let sers = self
            .sers
            .iter()
            .zip(&res)
            .map(|(x, r)| {
                if r.0 == 0.0 || r.1 == 0.0 {
                    return 0.0;
                }
                let eff1 = |i: usize, amount: f64| {
                    let max_balance = eff[i] + maxres[i];
                    let (a, l) = if max_balance >= amount {
                        (amount, 0.0)
                    } else if max_balance < 0.0 {
                        (0.0, amount)
                    } else {
                        (max_balance, amount - max_balance)
                    };
                    a * self.toks[i].awp(ht) + l * self.toks[i].lwp(ht)
                };
                eff1(x.base, r.0).min(eff1(x.quote, r.1))
            })
            .collect();
        (toks, sers)
    }
    pub fn health(&self, ht: HT) -> f64 {
        let (t, s) = self.parts(ht, false);
        t.iter().sum::<f64>() + s.iter().sum::<f64>()
    }
    /// bound on the error of the program's fixed point value
    pub fn err(&self, ht: HT) -> f64 {
        let (t, s) = self.parts(ht, false);
        // prices are rounded to multiples of 2^-48 before they are weighted
        let rounding = self.toks.iter().map(|t| t.spot.abs() * (1.0 + if ht == HT::Init { t.sinit_l.min(1e12) } else { t.maint_l }) * 4e-15).sum::<f64>();
        self.tol + rounding + (t.iter().map(|x| x.abs()).sum::<f64>() + s.iter().map(|x| x.abs()).sum::<f64>()) * 2e-11
    }
    /// are initial weights at least as strict as maintenance weights?
    pub fn ordered(&self) -> bool {
        self.toks.iter().all(|t| t.init_a <= t.maint_a && t.init_l >= t.maint_l)
            && self.perps.iter().all(|p| p.i_ba <= p.m_ba && p.i_bl >= p.m_bl && p.i_oa <= p.m_oa)
    }
    pub fn liabs(&self, ht: HT) -> f64 {
        let mut liabs = 0.0;
        for t in &self.toks {
            let mut l = (-t.spot).max(0.0);
            for p in self.perps.iter().filter(|p| p.settle == t.idx) {
                l += (-p.hupnl(ht)).max(0.0);
            }
            liabs += l * t.lwp(ht);
        }
        for x in self.parts(ht, false).1 {
            liabs += (-x).max(0.0);
        }
        liabs
    }
    /// (assets, liabs) where liabilities keep their full weight
    pub fn ratio(&self, ht: HT) -> f64 {
        let mut assets = 0.0;
        let mut liabs = 0.0;
        for t in &self.toks {
            let (mut a, mut l) = (t.spot.max(0.0), (-t.spot).max(0.0));
            for p in self.perps.iter().filter(|p| p.settle == t.idx) {
                let u = p.hupnl(ht);
                a += u.max(0.0);
                l += (-u).max(0.0);
            }
            let lw = t.lwp(ht);
            liabs += l * lw;
            if a >= l {
                assets += l * lw + (a - l) * t.awp(ht);
            } else {
                assets += a * lw;
            }
        }
        for x in self.parts(ht, false).1 {
            assets += x.max(0.0);
            liabs += (-x).max(0.0);
        }
        if liabs > 0.0 {
            100.0 * (assets - liabs) / liabs
        } else {
            f64::INFINITY
        }
    }
    /// what everything that is not owed is worth
    pub fn stable_assets(&self, ht: HT) -> f64 {
        let mut sum = 0.0;
        for t in &self.toks {
            let p: f64 = self.perps.iter().filter(|p| p.settle == t.idx).map(|p| p.hupnl(ht).max(0.0)).sum();
            sum += (t.spot.max(0.0) + p) * t.awp(ht);
        }
        sum + self.parts(ht, false).1.iter().map(|x| x.max(0.0)).sum::<f64>()
    }
    pub fn assets_liabs(&self) -> (f64, f64) {
        let (mut a, mut l) = (0.0, 0.0);
        let mut add = |v: f64| if v > 0.0 { a += v } else { l -= v };
        for t in &self.toks {
            add(t.spot * t.oracle);
        }
        for x in &self.sers {
            add(x.res_base * self.toks[x.base].oracle);
            add(x.res_quote * self.toks[x.quote].oracle);
        }
        for p in &self.perps {
            let q = self.tok(p.settle).map_or(0.0, |t| t.oracle);
            add(p.quote * q);
            add(p.lots as f64 * p.base_lot * p.oracle * q);
        }
        (a, l)
    }
    pub fn perp_settle_max(&self, settle: u16) -> Option<f64> {
        let (t, s) = self.parts(HT::Maint, true);
        let health = t.iter().sum::<f64>() + s.iter().sum::<f64>();
        let i = self.toks.iter().position(|t| t.idx == settle)?;
        let bal = self.effective(HT::Maint, true)[i];
        let (a, l) = (self.toks[i].awp(HT::Maint), self.toks[i].lwp(HT::Maint));
        if health <= 0.0 {
            return Some(0.0);
        }
        let mut left = health;
        let mut taken = 0.0;
        if bal > 0.0 {
            if a > 0.0 && left / a <= bal {
                return Some(left / a);
            }
            taken = bal;
            left -= bal * a;
        }
        if left > 0.0 {
            taken += left / l;
        }
        Some(taken)
    }
    // --- liquidation phases
    pub fn phase1(&self) -> bool {
        self.sers.iter().any(|s| !s.zero_funds) || self.perps.iter().any(|p| p.has_orders)
    }
    /// values this close to a boundary are not judged
    pub fn phase2(&self) -> bool {
        let e = self.effective(HT::LiqEnd, false);
        let spot = self.toks.iter().zip(&e).any(|(t, e)| t.spot < 0.0 && *e < 0.0)
            && self
                .toks
                .iter()
                .zip(&e)
                .any(|(t, e)| t.spot >= 1.0 && *e >= 1.0 && t.liquidatable_asset);
        spot || self
            .perps
            .iter()
            .any(|p| p.lots != 0 || p.has_fills || (p.lots == 0 && p.quote > 0.0))
    }
}
