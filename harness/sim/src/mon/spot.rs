//! Spot orders against the exchange's own records.
use super::ledger::*;
use super::*;
use crate::st::{bits, f, State, OO};
use mango_v4::state::{Bank, Serum3Orders};
use num_bigint::BigInt;
use num_traits::{Signed, ToPrimitive, Zero};

#[derive(Default)]
pub struct Spot {}

fn side_has(o: &OO, bid: bool) -> bool {
    o.orders.iter().any(|(s, ..)| ((o.bid_bits >> s) & 1 == 1) == bid)
}
fn so<'a>(s: &'a State, acc: &Pubkey, market: u16) -> Option<&'a Serum3Orders> {
    s.accounts.get(acc)?.active_serum().find(|x| x.market_index == market)
}
/// does `got` equal floor(x) for some x near `x`?
fn floor_is(x: &BigInt, tol: &BigInt, got: &BigInt) -> bool {
    *got >= floor(&(x - tol)) && *got <= floor(&(x + tol))
}
fn about(a: u64, b: f64) -> bool {
    (a as f64 - b).abs() <= 1.0 + b.abs() * 1e-12
}
fn potential(x: &Serum3Orders, o: &OO) -> (f64, f64) {
    (
        o.coin_total as f64 + ((o.pc_total - o.pc_free) as f64 * x.lowest_placed_bid_inv).floor(),
        o.pc_total as f64 + ((o.coin_total - o.coin_free) as f64 * x.highest_placed_ask).floor(),
    )
}
fn same(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-12 * a.abs().max(b.abs())
}

impl Monitor for Spot {
    fn ix(&mut self, t: &Tx, ix: &Ix, out: &mut Out) {
        if !ix.name.starts_with("serum3_") || ix.is(&["serum3_register_market", "serum3_edit_market", "serum3_deregister_market"]) {
            return;
        }
        let (Some(acc), Some(mk), Some(ook)) = (ix.acc("account"), ix.acc("serum_market"), ix.acc("open_orders")) else { return };
        let Some(m) = ix.pre.serum.get(&mk).cloned() else { return };
        let mi = m.market_index;
        if ix.is(&["serum3_create_open_orders", "serum3_close_open_orders"]) {
            let (x0, x1) = (so(ix.pre, &acc, mi), so(ix.post, &acc, mi));
            let create = ix.name == "serum3_create_open_orders";
            out.eval("open-orders-lifecycle", (create, acc, mi, t.now), || format!("{} market {mi}", ix.name));
            let ok = if create {
                x0.is_none()
                    && x1.map_or(false, |x| x.open_orders == ook && x.base_token_index == m.base_token_index && x.quote_token_index == m.quote_token_index && x.base_borrows_without_fee == 0 && x.quote_borrows_without_fee == 0 && x.potential_base_tokens == 0 && x.potential_quote_tokens == 0)
            } else {
                x1.is_none() && x0.map_or(false, |x| x.open_orders == ook) && ix.pre.oos.get(&ook).map_or(true, |o| o.coin_total == 0 && o.pc_total == 0 && o.orders.is_empty())
            };
            if !ok {
                out.fail("C25", ix.name, format!("{}: {x0:?} -> {x1:?}", ix.name));
            }
            return;
        }
        let (Some(o0), Some(o1)) = (ix.pre.oos.get(&ook).cloned(), ix.post.oos.get(&ook).cloned()) else { return };
        let (Some(x0), Some(x1)) = (so(ix.pre, &acc, mi), so(ix.post, &acc, mi)) else {
            out.fail("C25", "no-open-orders", format!("{} on market {mi} without open orders", ix.name));
            return;
        };
        if x0.open_orders != ook || x1.open_orders != ook {
            out.fail("C25", "wrong-open-orders", format!("{} used {ook}, the account's are {}", ix.name, x0.open_orders));
            return;
        }
        match ix.name {
            "serum3_place_order" | "serum3_place_order_v2" => self.place(ix, acc, &m, x0, x1, &o0, &o1, out),
            "serum3_settle_funds_v2" | "serum3_settle_funds" | "serum3_liq_force_cancel_orders" => self.settle(t, ix, acc, &m, x0, x1, &o0, &o1, out),
            _ => {
                // cancelling
                let (live0, live1) = (resting(ix.pre, ix, &ook), resting(ix.post, ix, &ook));
                let gone: Vec<_> = live0.iter().filter(|o| !live1.contains(o)).copied().collect();
                let new: Vec<_> = live1.iter().filter(|o| !live0.contains(o)).copied().collect();
                let mut a = ix.args();
                let ok = match ix.name {
                    "serum3_cancel_order" => {
                        let bid = a.u8() == 0;
                        let id = a.u128();
                        gone.len() == 1 && gone[0].0 == bid && gone[0].1 == id
                    }
                    "serum3_cancel_order_by_client_order_id" => {
                        let c = a.u64();
                        gone.len() == 1 && gone[0].2 == c
                    }
                    "serum3_cancel_all_orders" => gone.len() == live0.len().min(a.u8() as usize),
                    _ => return,
                };
                out.eval("spot-cancel", (acc, gone.len(), live0.len(), ix.name, ix.now), || format!("{}: {} of {} orders gone", ix.name, gone.len(), live0.len()));
                if !new.is_empty() || !ok || o0.coin_total != o1.coin_total || o0.pc_total != o1.pc_total {
                    out.fail("C25", &format!("cancel:{}", ix.name), format!("{}: removed {gone:?}, added {new:?} of {live0:?}", ix.name));
                }
                let c: Vec<_> = super::diff::changes(ix).into_iter().filter(|c| !matches!(c.what, super::diff::What::Lamports | super::diff::What::OpenOrders | super::diff::What::Other)).collect();
                if !c.is_empty() {
                    out.fail("C25", &format!("cancel-state:{}", ix.name), format!("{} changed {c:?}", ix.name));
                }
            }
        }
    }
}

impl Spot {
    #[allow(clippy::too_many_arguments)]
    fn place(&self, ix: &Ix, acc: Pubkey, m: &mango_v4::state::Serum3Market, x0: &Serum3Orders, x1: &Serum3Orders, o0: &OO, o1: &OO, out: &mut Out) {
        let mut a = ix.args();
        let bid = a.u8() == 0;
        let price_lots = a.u64();
        let Some(pbk) = ix.acc("payer_bank") else { return };
        let (b0, b1) = (&ix.pre.banks[&pbk], &ix.post.banks[&pbk]);
        let want = if bid { m.quote_token_index } else { m.base_token_index };
        if b0.token_index != want {
            out.fail("C25", "payer-bank", format!("order paid from token {}, should be {want}", b0.token_index));
        }
        let dv = ix.post.tok_amount(&b0.vault) as i128 - ix.pre.tok_amount(&b0.vault) as i128;
        let tol: BigInt = ulp(b0) * 4 + (BigInt::from(1) << 50usize);
        let (p0, p1) = (pos(ix.pre, &acc, b0), pos(ix.post, &acc, b1));
        let e = &p0 + nat(dv);
        out.eval("spot-placed", (p0.clone(), dv, bid), || format!("{} bid {bid}: vault {dv:+}, position {:.3} -> {:.3}", ix.name, fl(&p0), fl(&p1)));
        if dv > 0 || (&p1 - &e).abs() > tol {
            out.fail("C25", "place-balance", format!("{}: vault {dv:+} but the payer's balance went {:.9} -> {:.9}", ix.name, fl(&p0), fl(&p1)));
        }
        if b1.collected_fees_native != b0.collected_fees_native {
            out.fail("C25", "place-fee", format!("{} charged a fee when placing", ix.name));
        }
        // what was borrowed to place the order, so far without a fee
        let nb = (-&e).min(nat(-dv)).max(BigInt::zero());
        let (w0, w1, other0, other1) = if bid {
            (x0.quote_borrows_without_fee, x1.quote_borrows_without_fee, x0.base_borrows_without_fee, x1.base_borrows_without_fee)
        } else {
            (x0.base_borrows_without_fee, x1.base_borrows_without_fee, x0.quote_borrows_without_fee, x1.quote_borrows_without_fee)
        };
        if w1 < w0 || !floor_is(&nb, &tol, &BigInt::from(w1 - w0)) || other0 != other1 {
            out.fail("C25", "place-loan", format!("{}: newly borrowed {:.6}, borrows without fee {w0} -> {w1} (other side {other0} -> {other1})", ix.name, fl(&nb)));
        }
        // price extremes of resting orders
        let Some(ext) = ix.acc("serum_market_external") else { return };
        let Some((bl, ql)) = lots(ix.pre, &ext) else { return };
        let price = price_lots as f64 * ql as f64 / bl as f64;
        let rests = o1.orders.iter().any(|o| !o0.orders.iter().any(|p| p.1 == o.1));
        let (mut hbi, mut lbi, mut la, mut ha) = (x0.highest_placed_bid_inv, x0.lowest_placed_bid_inv, x0.lowest_placed_ask, x0.highest_placed_ask);
        if !side_has(o0, true) {
            (hbi, lbi) = (0.0, 0.0);
        }
        if !side_has(o0, false) {
            (la, ha) = (0.0, 0.0);
        }
        if rests {
            if bid {
                let i = 1.0 / price;
                hbi = if hbi == 0.0 { i } else { hbi.min(i) };
                lbi = lbi.max(i);
            } else {
                la = if la == 0.0 { price } else { la.min(price) };
                ha = ha.max(price);
            }
        }
        if !same(hbi, x1.highest_placed_bid_inv) || !same(lbi, x1.lowest_placed_bid_inv) || !same(la, x1.lowest_placed_ask) || !same(ha, x1.highest_placed_ask) {
            out.fail(
                "C25",
                "price-extremes",
                format!("{}: at {price} (bid {bid}, rests {rests}), tracked {:?}, should be {:?}", ix.name, (x1.highest_placed_bid_inv, x1.lowest_placed_bid_inv, x1.lowest_placed_ask, x1.highest_placed_ask), (hbi, lbi, la, ha)),
            );
        }
        // what may come back
        let (eb, eq) = potential(x1, o1);
        let rk = if bid { m.base_token_index } else { m.quote_token_index };
        let recv_touched = ix.changed().iter().any(|k| ix.pre.banks.get(k).map_or(false, |b| b.token_index == rk));
        let v1 = ix.name == "serum3_place_order";
        let (pay_ok, recv_ok) = {
            let base_ok = about(x1.potential_base_tokens, eb) || (x1.potential_base_tokens == x0.potential_base_tokens && v1 && bid && !recv_touched);
            let quote_ok = about(x1.potential_quote_tokens, eq) || (x1.potential_quote_tokens == x0.potential_quote_tokens && v1 && !bid && !recv_touched);
            (base_ok, quote_ok)
        };
        if !pay_ok || !recv_ok {
            out.fail("C25", "potential", format!("{}: recorded ({}, {}) could come back, the exchange says ({eb}, {eq})", ix.name, x1.potential_base_tokens, x1.potential_quote_tokens));
        }
        // price band
        let band = m.oracle_price_band;
        if rests && band != 0.0 && band != f32::MAX {
            let g = ix.pre.accounts[&acc].fx.group;
            let px = |tok: u16| ix.pre.bank0(&g, tok).and_then(|(_, b)| ix.pre.stubs.get(&b.oracle)).map(|o| f(o.price));
            if let (Some(bp), Some(qp)) = (px(m.base_token_index), px(m.quote_token_index)) {
                let fac = 1.0 + band as f64;
                let usd = price * qp;
                out.eval("price-band", (price.to_bits(), bid, bp.to_bits()), || format!("bid {bid}: {usd} against {bp}, factor {fac}"));
                let bad = if bid { usd * fac < bp * (1.0 - 1e-9) } else { usd > bp * fac * (1.0 + 1e-9) };
                if bad {
                    out.fail("C25", "price-band", format!("order at {usd} outside the band {fac} of {bp} (bid {bid})"));
                }
            }
        }
        let _ = bits;
    }

    #[allow(clippy::too_many_arguments)]
    fn settle(&self, t: &Tx, ix: &Ix, acc: Pubkey, m: &mango_v4::state::Serum3Market, x0: &Serum3Orders, x1: &Serum3Orders, o0: &OO, o1: &OO, out: &mut Out) {
        let (Some(bb), Some(qb)) = (ix.acc("base_bank"), ix.acc("quote_bank")) else { return };
        let liq = ix.name == "serum3_liq_force_cancel_orders";
        if ix.pre.banks[&bb].token_index != m.base_token_index || ix.pre.banks[&qb].token_index != m.quote_token_index {
            out.fail("C25", "settle-bank", format!("{} used tokens {} and {}", ix.name, ix.pre.banks[&bb].token_index, ix.pre.banks[&qb].token_index));
            return;
        }
        let ch = ix.changed();
        let untouched = !ch.contains(&bb) && !ch.contains(&qb) && o0 == o1;
        if liq && untouched {
            return;
        }
        let to_dao = liq || ix.args().bool();
        let rebates = if to_dao { o0.rebates.saturating_sub(o1.rebates) } else { 0 };
        if liq {
            let lim = ix.args().u8() as usize;
            let (n0, n1) = (resting(ix.pre, ix, &x0.open_orders).len(), resting(ix.post, ix, &x0.open_orders).len());
            out.eval("spot-force-cancel", (acc, n0, lim, ix.now), || format!("{n0} orders, limit {lim}, {n1} left"));
            if n1 != n0 - n0.min(lim) {
                out.fail("C25", "force-cancel-orders", format!("{n0} orders -> {n1}, limit {lim}"));
            }
        }
        for (k, base) in [(bb, true), (qb, false)] {
            let (b0, b1) = (&ix.pre.banks[&k], &ix.post.banks[&k]);
            let (w0, w1, total) = if base {
                (x0.base_borrows_without_fee, x1.base_borrows_without_fee, o0.coin_total)
            } else {
                (x0.quote_borrows_without_fee, x1.quote_borrows_without_fee, o0.pc_total)
            };
            let loan = w0.saturating_sub(total);
            let fee = mul_fx(&nat(loan), b0.loan_origination_fee_rate);
            let dv = ix.post.tok_amount(&b0.vault) as i128 - ix.pre.tok_amount(&b0.vault) as i128;
            let reb = if base { 0 } else { rebates };
            let (p0, p1) = (pos(ix.pre, &acc, b0), pos(ix.post, &acc, b1));
            let credit = dv - reb as i128;
            let e = &p0 + nat(credit) - &fee;
            let tol: BigInt = ulp(b0) * 6 + (BigInt::from(1) << 50usize);
            out.eval("spot-settled", (p0.clone(), credit, loan), || {
                format!("{} token {}: vault {dv:+}, rebates {reb}, materialized loan {loan}, fee {:.6}, position {:.3} -> {:.3}", ix.name, b0.token_index, fl(&fee), fl(&p0), fl(&p1))
            });
            if credit < 0 || (&p1 - &e).abs() > tol {
                out.fail("C25", &format!("settle-balance:{}", ix.name), format!("{} token {}: vault {dv:+}, rebates {reb}, fee {:.9}: balance {:.9} -> {:.9}, should be {:.9}", ix.name, b0.token_index, fl(&fee), fl(&p0), fl(&p1), fl(&e)));
            }
            let df = fx(b1.collected_fees_native) - fx(b0.collected_fees_native);
            if (&df - &fee - nat(reb)).abs() > tol {
                out.fail("C25", &format!("settle-fees:{}", ix.name), format!("{} token {}: collected {:.9}, should be {:.9} + {reb}", ix.name, b0.token_index, fl(&df), fl(&fee)));
            }
            // the loan a fee was paid for is not charged again; what came back is no loan any more
            let open = if loan > 0 { total } else { w0 };
            let ew = open.saturating_sub(credit.max(0) as u64);
            if w1 != ew {
                // a rounding in the recorded new borrow is not possible on deposits
                out.fail("C25", &format!("settle-loan:{}", ix.name), format!("{} token {}: borrows without fee {w0} -> {w1}, should be {ew} (exchange held {total}, {credit} came back)", ix.name, b0.token_index));
            }
        }
        let (eb, eq) = potential(x1, o1);
        if !about(x1.potential_base_tokens, eb) || !about(x1.potential_quote_tokens, eq) {
            out.fail("C25", "potential", format!("{}: recorded ({}, {}) could come back, the exchange says ({eb}, {eq})", ix.name, x1.potential_base_tokens, x1.potential_quote_tokens));
        }
        if x1.lowest_placed_ask != x0.lowest_placed_ask || x1.highest_placed_ask != x0.highest_placed_ask || x1.highest_placed_bid_inv != x0.highest_placed_bid_inv || x1.lowest_placed_bid_inv != x0.lowest_placed_bid_inv {
            out.fail("C25", "price-extremes", format!("{} changed the tracked prices", ix.name));
        }
        // the discount token can later buy back the fees this user generated
        let (f0, f1) = (&ix.pre.accounts[&acc].fx, &ix.post.accounts[&acc].fx);
        let accr0 = f0.buyback_fees_accrued_current + f0.buyback_fees_accrued_previous;
        let accr1 = f1.buyback_fees_accrued_current + f1.buyback_fees_accrued_previous;
        let b = &ix.pre.banks[&qb];
        let oracle = ix.acc("quote_oracle").and_then(|k| ix.pre.stubs.get(&k)).map(|o| f(o.price));
        let gain = match (liq, to_dao, oracle) {
            (true, ..) | (_, false, _) => 0.0,
            (_, _, Some(p)) => rebates as f64 * p.min(b.stable_price_model.stable_price),
            _ => return,
        };
        if rebates > 0 && !liq {
            out.eval("rebates-accrue", (accr0, accr1, rebates), || format!("{rebates} rebates, accrued {accr0} -> {accr1}"));
        }
        if accr1 as f64 > accr0 as f64 + gain + 1e-6 + gain * 1e-9 || (accr1 as f64) < accr0.min(f0.buyback_fees_accrued_current) as f64 * 0.0 {
            out.fail("C25", "rebates-accrue", format!("{}: {rebates} rebates worth {gain}, accrued fees {accr0} -> {accr1}", ix.name));
        }
        if gain >= 1.0 && (f1.buyback_fees_accrued_current as f64) < gain.floor() - 1e-6 - gain * 1e-9 {
            out.fail("C25", "rebates-accrue", format!("{}: {rebates} rebates worth {gain}, accrued now {}", ix.name, f1.buyback_fees_accrued_current));
        }
        let _ = (t, ToPrimitive::to_u64(&0u64));
    }
}
/// lot sizes of an exchange market
pub fn lots(s: &State, market: &Pubkey) -> Option<(u64, u64)> {
    let a = s.raw.get(market)?;
    if a.data.len() < 12 + std::mem::size_of::<serum_dex::state::MarketState>() {
        return None;
    }
    let n = std::mem::size_of::<serum_dex::state::MarketState>();
    let ms: serum_dex::state::MarketState = bytemuck::pod_read_unaligned(&a.data[5..5 + n]);
    let (c, p) = (ms.coin_lot_size, ms.pc_lot_size);
    Some((c, p))
}

/// orders an open orders account has on the exchange's books: is it a bid, id, client id, quantity
fn resting(s: &State, ix: &Ix, oo: &Pubkey) -> Vec<(bool, u128, u64, u64)> {
    let mut v = vec![];
    for (n, bid) in [("market_bids", true), ("market_asks", false)] {
        let Some(a) = ix.acc(n).and_then(|k| s.raw.get(&k)) else { continue };
        let mut d = a.data.clone();
        if d.len() < 40 {
            continue;
        }
        for e in serum_dex::dex::slab_mut(&mut d).entries() {
            if e.owner == oo.to_bytes() {
                v.push((bid, e.key, e.client_order_id, e.qty));
            }
        }
    }
    v
}
