//! Conditional swaps: terms, execution, lifetime.
use super::ledger::*;
use super::liq::{bank_at, liq_health};
use super::{Ix, Monitor, Out, Tx};
use crate::spec::{bank_price, Price, HT};
use crate::st::{bits, f, MAcc};
use fixed::types::I80F48;
use mango_v4::state::{Bank, TokenConditionalSwap as Tcs};
use num_bigint::BigInt;
use num_traits::{One, Signed, ToPrimitive, Zero};
use solana_program::pubkey::Pubkey;
use std::collections::HashMap;

#[derive(Default)]
pub struct Swaps {
    /// what each swap was seen to move in total: bought, sold (2^-96)
    moved: HashMap<(Pubkey, u64), (BigInt, BigInt)>,
}
const CREATE: &[&str] = &[
    "token_conditional_swap_create",
    "token_conditional_swap_create_v2",
    "token_conditional_swap_create_premium_auction",
    "token_conditional_swap_create_linear_auction",
];
fn live(t: &Tcs) -> bool {
    t.is_configured == 1
}
fn same(a: &Tcs, b: &Tcs) -> bool {
    bytemuck::bytes_of(a) == bytemuck::bytes_of(b)
}
fn swaps(a: &MAcc) -> Vec<Vec<u8>> {
    let mut v: Vec<_> = a.tcs.iter().filter(|t| live(t)).map(|t| bytemuck::bytes_of(t).to_vec()).collect();
    v.sort();
    v
}
fn q48(x: f64) -> BigInt {
    bits(I80F48::from_num(x))
}
/// the price in sell tokens per buy token offered to takers
fn premium(t: &Tcs, price: f64, now: u64) -> f64 {
    match t.tcs_type {
        0 => price * (1.0 + t.price_premium_rate),
        1 => {
            let start = if t.start_timestamp > 0 { t.start_timestamp } else { now };
            price * (1.0 + ((now - start) as f64 / t.duration_seconds as f64).min(1.0) * t.price_premium_rate)
        }
        _ => {
            let c = now - t.start_timestamp;
            if c < t.duration_seconds {
                t.price_lower_limit + c as f64 / t.duration_seconds as f64 * (t.price_upper_limit - t.price_lower_limit)
            } else {
                t.price_upper_limit
            }
        }
    }
}
/// whole tokens exchanged: as many as limits allow, at most `p` (2^-48) sold per bought
fn amounts(max_buy: &BigInt, max_sell: &BigInt, p: &BigInt) -> (BigInt, BigInt) {
    if !p.is_positive() {
        return (BigInt::zero(), BigInt::zero());
    }
    let o: BigInt = BigInt::one() << 48usize;
    let by_sell = if *p > o {
        (((max_sell + 1) * &o) - 1) / p
    } else {
        let s = ((max_buy * p) >> 48usize).min(max_sell.clone());
        let q: BigInt = (s << 96usize) / p;
        -((-q) >> 48usize)
    };
    let buy = max_buy.min(&by_sell).clone();
    let sell: BigInt = (&buy * p) >> 48usize;
    (buy, sell.min(max_sell.clone()))
}
struct Room {
    buy: BigInt,
    sell: BigInt,
}
/// what the owner's terms leave open
fn room(t: &Tcs, bought: u64, sold: u64, bb: &Bank, sb: &Bank, pb: &BigInt, ps: &BigInt) -> Room {
    let z = BigInt::zero;
    let mut buy = BigInt::from(t.max_buy - bought.min(t.max_buy));
    if t.allow_creating_deposits != 1 || bb.reduce_only == 1 {
        buy = buy.min(ceil(&(-pb)).max(z()));
    }
    let mut sell = BigInt::from(t.max_sell - sold.min(t.max_sell));
    if t.allow_creating_borrows != 1 || sb.reduce_only != 0 {
        sell = sell.min(floor(ps).max(z()));
    }
    Room { buy, sell }
}

impl Monitor for Swaps {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        let trigger = ix.is(&["token_conditional_swap_trigger", "token_conditional_swap_trigger_v2"]);
        let start = ix.is(&["token_conditional_swap_start"]);
        let cancel = ix.is(&["token_conditional_swap_cancel"]);
        let create = ix.is(CREATE);
        // everyone else's swaps stay as they are
        let target = if trigger || start { ix.acc("liqee") } else if cancel || create { ix.acc("account") } else { None };
        for k in ix.changed() {
            let (Some(a), Some(b)) = (ix.pre.accounts.get(&k), ix.post.accounts.get(&k)) else { continue };
            if target == Some(k) {
                let i = if create { None } else { Some(ix.args().u8() as usize) };
                let mut created = 0;
                for (j, (x, y)) in a.tcs.iter().zip(&b.tcs).enumerate() {
                    if same(x, y) {
                        continue;
                    }
                    created += (!live(x) && live(y)) as usize;
                    if i.map_or(live(x) || created > 1, |i| i != j) {
                        out.fail("C21", "another-swap", format!("{} changed swap slot {j}: {x:?} -> {y:?}", ix.name));
                    }
                }
            } else {
                let (x, y) = (swaps(a), swaps(b));
                if !x.is_empty() {
                    out.count("left-alone");
                }
                if x != y {
                    out.fail("C21", &format!("swaps-changed:{}", ix.name), format!("{} changed the swaps of {k}", ix.name));
                }
            }
        }
        if trigger {
            self.trigger(ix, out);
        } else if start {
            self.start(ix, out);
        } else if cancel {
            self.cancel(ix, out);
        } else if create {
            self.create(ix, out);
        }
    }
}

impl Swaps {
    fn create(&self, ix: &Ix, out: &mut Out) {
        let Some(k) = ix.acc("account") else { return };
        let (a, b) = (&ix.pre.accounts[&k], &ix.post.accounts[&k]);
        let (Some(bb), Some(sb)) = (ix.acc("buy_bank").and_then(|k| ix.pre.banks.get(&k)), ix.acc("sell_bank").and_then(|k| ix.pre.banks.get(&k))) else { return };
        let mut r = ix.args();
        let mut w = Tcs::default();
        w.max_buy = r.u64();
        w.max_sell = r.u64();
        w.expiry_timestamp = r.u64();
        w.price_lower_limit = r.f64();
        w.price_upper_limit = r.f64();
        let linear = ix.name.ends_with("linear_auction");
        if !linear {
            w.price_premium_rate = r.f64();
        }
        w.allow_creating_deposits = r.u8();
        w.allow_creating_borrows = r.u8();
        if ix.name != "token_conditional_swap_create" {
            w.display_price_style = r.u8();
        }
        if linear {
            w.tcs_type = 2;
            w.start_timestamp = r.u64();
            w.duration_seconds = r.u64();
        } else {
            if ix.name != "token_conditional_swap_create" {
                w.intention = r.u8();
            }
            if ix.name.ends_with("premium_auction") {
                w.tcs_type = 1;
                w.duration_seconds = r.u64();
            }
        }
        let new: Vec<&Tcs> = a.tcs.iter().zip(&b.tcs).filter(|(x, y)| !same(x, y)).map(|x| x.1).collect();
        if ix.now >= w.expiry_timestamp {
            out.eval("create-expired", w.expiry_timestamp, || format!("expired at {} of {}", w.expiry_timestamp, ix.now));
            if !new.is_empty() {
                out.fail("C21", "create-expired", format!("an expired swap was stored: {new:?}"));
            }
            return;
        }
        w.id = a.fx.next_token_conditional_swap_id;
        w.buy_token_index = bb.token_index;
        w.sell_token_index = sb.token_index;
        w.is_configured = 1;
        w.taker_fee_rate = bb.token_conditional_swap_taker_fee_rate.max(sb.token_conditional_swap_taker_fee_rate);
        w.maker_fee_rate = bb.token_conditional_swap_maker_fee_rate.max(sb.token_conditional_swap_maker_fee_rate);
        out.eval(&format!("create-{}", ["fixed", "premium", "linear"][w.tcs_type as usize]), (w.id, w.max_buy, w.max_sell, k), || format!("{w:?}"));
        if new.len() != 1 || !same(new[0], &w) {
            out.fail("C21", "create-terms", format!("{}: stored {new:?}, the owner asked for {w:?}", ix.name));
        }
        let sane = w.buy_token_index != w.sell_token_index && w.price_premium_rate >= 0.0 && w.price_lower_limit >= 0.0 && w.price_upper_limit >= 0.0 && (w.tcs_type == 0 || w.duration_seconds > 0);
        if !sane {
            out.fail("C21", "create-nonsense", format!("{} accepted {w:?}", ix.name));
        }
        if b.fx.next_token_conditional_swap_id != w.id.wrapping_add(1) {
            out.fail("C21", "create-id", format!("the next swap's id is {} after {}", b.fx.next_token_conditional_swap_id, w.id));
        }
        self.usage(ix, a, b, &w, 1, out);
    }
    /// the tokens of a swap are held in use by it
    fn usage(&self, ix: &Ix, a: &MAcc, b: &MAcc, t: &Tcs, d: i32, out: &mut Out) {
        for tok in [t.buy_token_index, t.sell_token_index] {
            let u = |m: &MAcc| m.tok(tok).map_or(0, |p| p.in_use_count as i32);
            if u(b) - u(a) != d {
                out.fail("C21", "usage", format!("{}: token {tok} used {} times, before {}", ix.name, u(b), u(a)));
            }
        }
    }
    fn cancel(&self, ix: &Ix, out: &mut Out) {
        let Some(k) = ix.acc("account") else { return };
        let (a, b) = (&ix.pre.accounts[&k], &ix.post.accounts[&k]);
        let mut r = ix.args();
        let (i, id) = (r.u8() as usize, r.u64());
        let (Some(x), Some(y)) = (a.tcs.get(i), b.tcs.get(i)) else { return };
        if !live(x) {
            return;
        }
        out.eval("cancel", (k, id), || format!("{x:?}"));
        if x.id != id {
            out.fail("C21", "cancel-wrong-id", format!("cancelling {id} removed {x:?}"));
        }
        if live(y) {
            out.fail("C21", "cancel-left", format!("cancelling {id} left {y:?}"));
        }
        self.usage(ix, a, b, x, -1, out);
        self.nothing_moved(ix, &[k], x, out);
    }
    /// balances stay, apart from less than a token that nobody uses
    fn nothing_moved(&self, ix: &Ix, accs: &[Pubkey], t: &Tcs, out: &mut Out) {
        for k in accs {
            for tok in [t.buy_token_index, t.sell_token_index] {
                let Some((bk, b0)) = bank_at(ix.pre, ix, tok) else { continue };
                let b1 = &ix.post.banks[&bk];
                let e = pos(ix.pre, k, &b0);
                let free = !in_use(ix.post, k, tok);
                if !ends_at(ix.post, k, b1, &e, &(ulp(b1) * 2), free) {
                    out.fail("C21", &format!("moved-by:{}", ix.name), format!("{} moved token {tok}: {:.6} -> {:.6}", ix.name, fl(&e), fl(&pos(ix.post, k, b1))));
                }
            }
        }
    }
    fn price(&self, ix: &Ix, b: &Bank, out: &mut Out) -> Option<f64> {
        let metas = &ix.rec.metas;
        let has = |k: &Pubkey| metas.iter().any(|m| m.pubkey == *k);
        match bank_price(ix.pre, b, ix.now, ix.slot, Some(&has)) {
            Price::Ok(p) => Some(p),
            Price::Bad => {
                out.fail("C21", "bad-price", format!("{} used an unreliable price of token {}", ix.name, b.token_index));
                None
            }
            Price::Unknown => None,
        }
    }
    fn start(&mut self, ix: &Ix, out: &mut Out) {
        let (Some(q), Some(l)) = (ix.acc("liqee"), ix.acc("liqor")) else { return };
        let (a, b) = (ix.pre.accounts[&q].clone(), ix.post.accounts[&q].clone());
        let mut r = ix.args();
        let (i, id) = (r.u8() as usize, r.u64());
        let (Some(t), Some(t1)) = (a.tcs.get(i).cloned(), b.tcs.get(i).cloned()) else { return };
        let (Some((_, bb)), Some((sk, sb))) = (bank_at(ix.pre, ix, t.buy_token_index), bank_at(ix.pre, ix, t.sell_token_index)) else { return };
        let sb1 = &ix.post.banks[&sk];
        let d = format!("{t:?} started at {}", ix.now);
        out.eval("start", (q, t.id), || d.clone());
        if !live(&t) || t.id != id || t.tcs_type != 1 || t.start_timestamp != 0 || ix.now >= t.expiry_timestamp {
            out.fail("C21", "start-not-allowed", d.clone());
            return;
        }
        if a.being_liquidated != 0 {
            out.fail("C21", "start-in-liquidation", d.clone());
        }
        let (Some(pb), Some(ps)) = (self.price(ix, &bb, out), self.price(ix, &sb, out)) else { return };
        let price = pb / ps;
        if !(price >= t.price_lower_limit && price <= t.price_upper_limit) {
            out.fail("C21", "start-price", format!("{d} at price {price}"));
        }
        let left = BigInt::from(t.max_sell - t.sold);
        let mut inc = (nat(1000) << 48usize) / q48(ps);
        inc = inc.min(nat(left));
        if sb.deposit_limit > 0 {
            let dep = (bits(sb.indexed_deposits) + 1) * bits(sb.deposit_index);
            let space = nat(sb.deposit_limit) - nat(sb.potential_serum_tokens) - dep;
            inc = inc.min(space);
        }
        inc = inc.max(BigInt::zero());
        let (p0, p1) = (pos(ix.pre, &q, &sb), pos(ix.post, &q, sb1));
        let tol: BigInt = ulp(&sb) * 8 + (BigInt::one() << 52usize);
        if q != l {
            let (e, fee) = super::liq::withdrawn(&p0, &inc, sb.loan_origination_fee_rate);
            let r0 = pos(ix.pre, &l, &sb);
            let er = &r0 + &inc;
            let r1 = pos(ix.post, &l, sb1);
            if (&p1 - &e).abs() > tol || !ends_at(ix.post, &l, sb1, &er, &tol, true) {
                out.fail("C21", "start-incentive", format!("{d}: owner {:.9} -> {:.9}, starter {:.9} -> {:.9}, incentive should be {:.9} and fee {:.9}", fl(&p0), fl(&p1), fl(&r0), fl(&r1), fl(&inc), fl(&fee)));
            }
        }
        // the part below a whole token is not accounted for
        if p1 < -&tol && t.allow_creating_borrows != 1 {
            out.fail("C21", "start-borrows", format!("{d}: balance {:.9} -> {:.9}", fl(&p0), fl(&p1)));
        }
        let mut w = t;
        w.start_timestamp = ix.now;
        w.sold = t1.sold;
        let want = t.sold + floor(&inc).to_u64().unwrap_or(u64::MAX);
        if !same(&w, &t1) || t1.sold > want.saturating_add(1) || t1.sold + 1 < want || t1.sold > t.max_sell {
            out.fail("C21", "start-record", format!("{d}: became {t1:?} (sold should be {want})"));
        }
        let m = self.moved.entry((q, t.id)).or_default();
        m.1 += inc;
    }
    fn trigger(&mut self, ix: &Ix, out: &mut Out) {
        let (Some(q), Some(l)) = (ix.acc("liqee"), ix.acc("liqor")) else { return };
        let (a, b) = (ix.pre.accounts[&q].clone(), ix.post.accounts[&q].clone());
        let mut r = ix.args();
        let (i, id) = (r.u8() as usize, r.u64());
        let (max_buy, max_sell) = (r.u64(), r.u64());
        let v2 = ix.name.ends_with("v2");
        let (min_buy, min_price) = if v2 { (r.u64(), r.f32() as f64) } else { (0, 0.0) };
        let (Some(t), Some(t1)) = (a.tcs.get(i).cloned(), b.tcs.get(i).cloned()) else { return };
        let (Some((bk, bb)), Some((sk, sb))) = (bank_at(ix.pre, ix, t.buy_token_index), bank_at(ix.pre, ix, t.sell_token_index)) else { return };
        let (bb1, sb1) = (&ix.post.banks[&bk], &ix.post.banks[&sk]);
        let mut d = format!("{t:?} triggered at {}", ix.now);
        if !live(&t) || t.id != id {
            out.fail("C21", "trigger-wrong-id", format!("{d} as {id}"));
            return;
        }
        let closed = !live(&t1);
        if q == l {
            out.fail("C21", "trigger-self", d.clone());
        }
        if ix.now >= t.expiry_timestamp {
            out.eval("trigger-expired", (q, t.id), || d.clone());
            if !closed || min_buy > 0 {
                out.fail("C21", "trigger-expired", format!("{d}: became {t1:?}, asked for at least {min_buy}"));
            }
            self.nothing_moved(ix, &[q, l], &t, out);
            self.usage(ix, &a, &b, &t, -1, out);
            return;
        }
        let (Some(pb), Some(ps)) = (self.price(ix, &bb, out), self.price(ix, &sb, out)) else { return };
        let price = pb / ps;
        let ok = match t.tcs_type {
            0 => price >= t.price_lower_limit && price <= t.price_upper_limit,
            _ => t.start_timestamp > 0 && ix.now >= t.start_timestamp,
        };
        if !ok {
            out.fail("C21", "trigger-condition", format!("{d} at price {price}"));
            return;
        }
        let prem = premium(&t, price, ix.now);
        let maker = prem * (1.0 + t.maker_fee_rate as f64);
        let taker = prem * (1.0 - t.taker_fee_rate as f64);
        if taker < min_price * (1.0 - 1e-12) {
            out.fail("C21", "taker-price", format!("{d}: taker gets {taker}, wanted {min_price}"));
        }
        // what should be exchanged
        let (qb, qs) = (pos(ix.pre, &q, &bb), pos(ix.pre, &q, &sb));
        let (rb, rs) = (pos(ix.pre, &l, &bb), pos(ix.pre, &l, &sb));
        let z = BigInt::zero;
        let mut m = room(&t, t.bought, t.sold, &bb, &sb, &qb, &qs);
        m.buy = m.buy.min(max_buy.into());
        m.sell = m.sell.min(max_sell.into());
        let free = m.buy.is_positive() && m.sell.is_positive();
        if bb.reduce_only != 0 {
            m.buy = m.buy.min(floor(&rb).max(z()));
            out.count(&format!("buying-in-mode-{}{}", bb.reduce_only, if free && m.buy == floor(&rb).max(z()) { "-bound" } else { "" }));
        }
        if sb.reduce_only == 1 {
            m.sell = m.sell.min(ceil(&(-&rs)).max(z()));
        }
        if sb.reduce_only != 0 {
            let full = ceil(&(-&rs)).max(z());
            out.count(&format!("selling-in-mode-{}{}", sb.reduce_only, if free && full <= m.sell { "-bound" } else { "" }));
        }
        let mp = q48(maker);
        let (wb, ws) = amounts(&m.buy, &m.sell, &mp);
        // what was
        let tolb: BigInt = ulp(&bb) * 8 + (BigInt::one() << 52usize);
        let tols: BigInt = ulp(&sb) * 8 + (BigInt::one() << 52usize);
        let (qb1, qs1) = (pos(ix.post, &q, bb1), pos(ix.post, &q, sb1));
        let (gb, gs) = if closed {
            // balances below one token may have vanished with the swap
            let near = |a: &BigInt| floor(&(a + (one() >> 1usize)));
            let b = near(&(&qb1 - &qb));
            let s = near(&super::liq::withdrawal(&qs, &qs1, sb.loan_origination_fee_rate));
            (if (&b - &wb).abs() <= BigInt::one() { wb.clone() } else { b }, if (&s - &ws).abs() <= BigInt::one() { ws.clone() } else { s })
        } else {
            (BigInt::from(t1.bought) - t.bought, BigInt::from(t1.sold) - t.sold)
        };
        d = format!("{d} with {max_buy}/{max_sell} at price {price}, maker {maker}: bought {gb}, sold {gs}, should be {wb}, {ws}; owner {:.6}, {:.6} -> {:.6}, {:.6}; taker had {:.6}, {:.6}; closed {closed}", fl(&qb), fl(&qs), fl(&qb1), fl(&qs1), fl(&rb), fl(&rs));
        let kind = ["fixed", "premium", "linear"][t.tcs_type as usize];
        out.eval(&format!("trigger-{kind}{}", if gb.is_zero() { "-nothing" } else if closed { "-closes" } else { "" }), (q, t.id, gb.clone(), gs.clone()), || d.clone());
        let o = BigInt::one();
        let per: BigInt = ((&mp) >> 48usize) + 1;
        if (&gb - &wb).abs() > o || (&gs - &ws).abs() > per {
            out.fail("C21", "amounts", d.clone());
        }
        if gb.is_positive() != gs.is_positive() || gb.is_negative() || gs.is_negative() {
            out.fail("C21", "for-nothing", d.clone());
        }
        if gs > ((&gb * (&mp + 1)) >> 48usize) {
            out.fail("C21", "worse-than-terms", d.clone());
        }
        if gb < BigInt::from(min_buy) {
            out.fail("C21", "min-buy", format!("{d}; wanted at least {min_buy}"));
        }
        if gb > BigInt::from(max_buy) || gs > BigInt::from(max_sell) {
            out.fail("C21", "more-than-asked", d.clone());
        }
        // restrictions
        let dep_ok = t.allow_creating_deposits == 1 && bb.reduce_only != 1;
        if !dep_ok && gb.is_positive() && qb1 >= one() + &tolb {
            out.fail("C21", "creates-deposit", d.clone());
        }
        let bor_ok = t.allow_creating_borrows == 1 && sb.reduce_only == 0;
        if !bor_ok && gs.is_positive() && qs1 < -&tols {
            out.fail("C21", "creates-borrow", d.clone());
        }
        // the four balances and the fees
        let base: BigInt = (&gb * q48(prem)) >> 48usize;
        let tfee: BigInt = (&base * bits(I80F48::from_num(t.taker_fee_rate))) >> 48usize;
        let mfee = &gs - &base;
        let w = |p0: &BigInt, amount: &BigInt, rate| super::liq::withdrawn(p0, &nat(amount.clone()), rate);
        let e = &qb + nat(gb.clone());
        if !ends_at(ix.post, &q, bb1, &e, &tolb, closed) {
            out.fail("C21", "owner-bought", format!("{d}; should end at {:.9}", fl(&e)));
        }
        let (e, of1) = w(&qs, &gs, sb.loan_origination_fee_rate);
        if !ends_at(ix.post, &q, sb1, &e, &tols, closed) {
            out.fail("C21", "owner-sold", format!("{d}; should end at {:.9}", fl(&e)));
        }
        let (e, of2) = w(&rb, &gb, bb.loan_origination_fee_rate);
        if !ends_at(ix.post, &l, bb1, &e, &tolb, true) {
            out.fail("C21", "taker-sold", format!("{d}; the taker should end at {:.9} of the bought token", fl(&e)));
        }
        let e = &rs + nat(&base - &tfee);
        if !ends_at(ix.post, &l, sb1, &e, &tols, true) {
            out.fail("C21", "taker-bought", format!("{d}; the taker should end at {:.9} of the sold token, is {:.9}", fl(&e), fl(&pos(ix.post, &l, sb1))));
        }
        for (n, x, want, tol) in [
            ("sell-fees", fx(sb1.collected_fees_native) - fx(sb.collected_fees_native), nat(&mfee + &tfee) + of1, &tols),
            ("buy-fees", fx(bb1.collected_fees_native) - fx(bb.collected_fees_native), of2, &tolb),
        ] {
            if (&x - &want).abs() > *tol {
                out.fail("C21", n, format!("{d}; fees {:.9}, should be {:.9}", fl(&x), fl(&want)));
            }
        }
        if mfee.is_positive() || tfee.is_positive() {
            out.count("fees-charged");
        }
        // the record
        let (bought, sold) = (BigInt::from(t.bought) + &gb, BigInt::from(t.sold) + &gs);
        let mv = self.moved.entry((q, t.id)).or_default();
        mv.0 += nat(gb.clone());
        mv.1 += nat(gs.clone());
        if mv.0 > nat(t.max_buy) || mv.1 > nat(t.max_sell) + one() || bought > t.max_buy.into() || sold > t.max_sell.into() {
            out.fail("C21", "more-than-maximum", format!("{d}; in total {:.3} bought and {:.3} sold", fl(&mv.0), fl(&mv.1)));
        }
        if !closed {
            let mut w = t;
            w.bought = t1.bought;
            w.sold = t1.sold;
            if !(t.start_timestamp > 0 && ix.now >= t.start_timestamp) {
                w.start_timestamp = ix.now;
            }
            if !same(&w, &t1) {
                out.fail("C21", "record", format!("{d}; became {t1:?}"));
            }
        } else {
            self.usage(ix, &a, &b, &t, -1, out);
        }
        // done when nothing more can be exchanged, or health ran out; otherwise it stays
        let e1 = |p0: &BigInt, x: &BigInt| p0 + x;
        let (pb1, ps1) = (e1(&qb, &nat(gb.clone())), w(&qs, &gs, sb.loan_origination_fee_rate).0);
        let (cb, cs) = (bought.to_u64().unwrap_or(u64::MAX), sold.to_u64().unwrap_or(u64::MAX));
        let left = room(&t, cb, cs, bb1, sb1, &pb1, &ps1);
        let (fb, fs) = amounts(&left.buy, &left.sell, &mp);
        let small = if maker > 1.0 { fs < BigInt::from(2.0f64.max(2.0 * maker.floor()) as u128) } else { fb < BigInt::from(2.0f64.max(2.0 * (1.0 / maker).floor()) as u128) };
        let rich = if maker > 1.0 { fs.to_f64().unwrap() > 3.0 * maker + 3.0 } else { fb.to_f64().unwrap() > 3.0 / maker + 3.0 };
        let low = match (liq_health(ix.pre, &a, ix), liq_health(ix.post, &b, ix)) {
            (Some(h0), Some(h1)) => {
                let (x, y) = (h0.health(HT::Init), h1.health(HT::Init));
                let e = h0.err(HT::Init) + h1.err(HT::Init) + 1e-3 * (pb + ps) + 1e-6;
                if y < x - e && y < 1e6 - e {
                    Some(true)
                } else if y > x + e || y > 1e6 + e {
                    Some(false)
                } else {
                    None
                }
            }
            _ => None,
        };
        if !closed && (small && !rich && (fb.is_zero() || fs.is_zero()) || low == Some(true)) {
            out.fail("C21", "stays", format!("{d}; {fb}/{fs} left, low health {low:?}"));
        }
        if closed && rich && !small && low == Some(false) {
            out.fail("C21", "closed-early", format!("{d}; {fb}/{fs} left"));
        }
        if closed {
            out.count(if low == Some(true) { "closed-low-health" } else { "closed-done" });
        }
        let _ = f(bb.deposit_index);
    }
}
