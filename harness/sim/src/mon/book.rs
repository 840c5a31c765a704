//! Order books: matching against a reference engine (C15), agreement of books, accounts and
//! queues (C16), the event queue itself (C17).
use super::perp::{market_of, oracle_of};
use super::{Ix, Monitor, Out, Tx};
use crate::st::{Book, Ev, FillEv, Leaf, MAcc, OutEv, Queue, State};
use mango_v4::state::PerpMarket;
use solana_program::pubkey::Pubkey;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

fn f(x: fixed::types::I80F48) -> f64 {
    x.to_num::<f64>()
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Limit,
    Ioc,
    PostOnly,
    Market,
    Slide,
}
#[derive(Clone, Debug)]
struct Order {
    bid: bool,
    price: i64,
    peg: Option<i64>, // peg limit
    base: i64,
    quote: i64,
    client: u64,
    kind: Kind,
    self_trade: u8,
    reduce: bool,
    expiry: u64,
    limit: u8,
}
fn order(ix: &Ix) -> Option<Order> {
    let mut a = ix.args();
    let pegged = ix.name.contains("pegged");
    let v2 = ix.name.ends_with("v2");
    let side = a.u8();
    let price = a.i64();
    let peg = if pegged { Some(a.i64()) } else { None };
    let base = a.i64();
    let quote = a.i64();
    let client = a.u64();
    let kind = match a.u8() {
        0 => Kind::Limit,
        1 => Kind::Ioc,
        2 => Kind::PostOnly,
        3 => Kind::Market,
        4 => Kind::Slide,
        _ => return None,
    };
    let self_trade = if v2 { a.u8() } else { 0 };
    let reduce = a.bool();
    let expiry = a.u64();
    let limit = a.u8();
    Some(Order { bid: side == 0, price, peg, base, quote, client, kind, self_trade, reduce, expiry, limit })
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Good,
    Bad,
    Off,
}
/// price and state of a resting order
fn at(l: &Leaf, bid: bool, oracle: i64, now: u64) -> (St, i64) {
    if l.tree == 0 {
        return (if l.expired(now) { St::Bad } else { St::Good }, l.price_data() as i64);
    }
    let p = oracle.saturating_add(l.peg_offset());
    if p < 1 || p == i64::MAX {
        return (St::Off, p.max(1));
    }
    let beyond = l.peg_limit != -1 && (if bid { p > l.peg_limit } else { p < l.peg_limit });
    (if l.expired(now) || beyond { St::Bad } else { St::Good }, p)
}
/// best first: price, then age
fn rank(b: &Book, bid: bool, oracle: i64, now: u64) -> Vec<(Leaf, St, i64)> {
    let mut v: Vec<_> = b.leaves.iter().map(|l| (l.clone(), at(l, bid, oracle, now))).filter(|x| x.1 .0 != St::Off).map(|(l, (s, p))| (l, s, p)).collect();
    let age = |l: &Leaf| if bid { !(l.key as u64) } else { l.key as u64 };
    v.sort_by_key(|(l, _, p)| (if bid { -(*p as i128) } else { *p as i128 }, age(l)));
    v
}
#[derive(Debug, Default, Clone)]
struct Want {
    fail: Option<&'static str>,
    own: Vec<Leaf>,
    other: Vec<Leaf>,
    events: Vec<Ev>,
    taken: (i64, i64),
    fee_quote: i64,
    penalty: bool,
    /// the order that rests afterwards, its slot unknown
    rests: Option<Leaf>,
    /// posting was dropped due to the price band
    banned: bool,
    self_trades: usize,
    dropped: usize,
    evicted: bool,
    expired_own: bool,
    why: &'static str,
}
fn norm(v: &[Leaf]) -> BTreeMap<(u8, u128), Leaf> {
    v.iter()
        .map(|l| {
            let mut l = l.clone();
            l.node = 0;
            ((l.tree, l.key), l)
        })
        .collect()
}
fn out_of(l: &Leaf, bid: bool, now: u64) -> Ev {
    Ev::Out(OutEv { side: !bid as u8, owner_slot: l.owner_slot, timestamp: now, seq: 0, owner: l.owner, quantity: l.quantity, order_id: l.key })
}
#[allow(clippy::too_many_arguments)]
fn predict(o: &Order, m: &PerpMarket, acc: &MAcc, own: &Book, other: &Book, oracle: i64, now: u64, band: bool, gone: &BTreeSet<(u8, u128)>) -> Want {
    let mut w = Want::default();
    let opp = rank(other, !o.bid, oracle, now);
    let best = opp.iter().find(|x| x.1 == St::Good).map(|x| x.2);
    let slide = |p: i64| match (o.kind, best) {
        (Kind::Slide, Some(b)) => if o.bid { p.min(b - 1) } else { p.max(b + 1) },
        _ => p,
    };
    let price = match o.kind {
        Kind::Market => if o.bid { i64::MAX } else { 1 },
        Kind::Ioc => o.price,
        _ => slide(if o.peg.is_some() { oracle.saturating_add(o.price) } else { o.price }),
    };
    if price < 1 {
        w.fail = Some("price");
        return w;
    }
    if o.peg.is_some() && matches!(o.kind, Kind::Ioc | Kind::Market) {
        w.fail = Some("type");
        return w;
    }
    w.penalty = o.kind == Kind::Ioc;
    let reduce_only_market = m.reduce_only != 0;
    let p = acc.perp(m.perp_market_index);
    let (eff, bids, asks) = p.map_or((0, 0, 0), |p| (p.base_position_lots + p.taker_base_lots, p.bids_base_lots, p.asks_base_lots));
    let mut base = o.base;
    if o.reduce || reduce_only_market {
        // how far the position may move
        let room = match (reduce_only_market, o.bid) {
            (false, true) => (-eff).max(0),
            (false, false) => eff.max(0),
            (true, true) => if eff >= 0 { 0 } else { (-(eff + bids)).max(0) },
            (true, false) => if eff <= 0 { 0 } else { (eff - asks).max(0) },
        };
        base = base.min(room);
    }
    if reduce_only_market && !o.reduce && base != o.base {
        w.fail = Some("reduce-only");
        return w;
    }
    let post_only = matches!(o.kind, Kind::PostOnly | Kind::Slide);
    let mut post = !matches!(o.kind, Kind::Ioc | Kind::Market);
    let (mut rb, mut rq) = (base, o.quote);
    let mut left = o.limit;
    let mut others = norm(&other.leaves);
    for (l, st, p) in &opp {
        if rb == 0 || rq == 0 {
            w.why = "filled";
            break;
        }
        let k = (l.tree, l.key);
        if *st == St::Bad {
            if w.dropped < 5 {
                w.dropped += 1;
                w.events.push(out_of(l, !o.bid, now));
                others.remove(&k);
            }
            continue;
        }
        if (if o.bid { *p > price } else { *p < price }) {
            w.why = "price";
            break;
        }
        if post_only {
            post = false;
            w.why = "would-take";
            break;
        }
        if left == 0 {
            post = false;
            w.why = "match-limit";
            break;
        }
        let n = rb.min(l.quantity).min(rq / p);
        if rq / p == 0 {
            w.why = "quote";
            break;
        }
        let own_order = l.owner == acc.key;
        if own_order {
            w.self_trades += 1;
            match o.self_trade {
                0 => {}
                1 => {
                    w.events.push(out_of(l, !o.bid, now));
                    others.remove(&k);
                    continue;
                }
                _ => {
                    w.fail = Some("self-trade");
                    return w;
                }
            }
        }
        rb -= n;
        rq -= n * p;
        if !own_order {
            w.fee_quote += n * p;
        }
        if n == l.quantity {
            others.remove(&k);
        } else {
            others.get_mut(&k).unwrap().quantity -= n;
        }
        w.events.push(Ev::Fill(FillEv {
            taker_side: !o.bid as u8,
            maker_out: n == l.quantity,
            maker_slot: l.owner_slot,
            timestamp: now,
            seq: 0,
            maker: l.owner,
            maker_timestamp: l.timestamp,
            taker: acc.key,
            taker_client_id: o.client,
            maker_order_id: l.key,
            price: *p,
            quantity: n,
            maker_client_id: l.client_order_id,
            maker_fee: if own_order { 0.0 } else { m.maker_fee.to_num() },
            taker_fee: if own_order { 0.0 } else { m.taker_fee.to_num() },
        }));
        left -= 1;
    }
    w.taken = (base - rb, o.quote - rq);
    w.other = others.into_values().collect();
    let rest = rb.min(rq / price);
    if rest <= 0 {
        post = false;
        if w.why.is_empty() {
            w.why = "nothing-left";
        }
    }
    if post && !band {
        post = false;
        w.banned = true;
        w.why = "price-band";
    }
    let mut mine = norm(&own.leaves);
    if post {
        let tree = o.peg.is_some() as u8;
        // one expired order makes room: the one that expired first, in the same tree if there is any
        let count = |t: u8| own.leaves.iter().filter(|l| l.tree == t).count();
        let mut free = own.free;
        for t in [tree, 1 - tree] {
            let Some(first) = own.leaves.iter().filter(|l| l.tree == t).map(|l| l.expiry()).min() else { continue };
            // at the very second of expiry either is fine
            let hit = || own.leaves.iter().any(|l| l.tree == t && l.expiry() == first && gone.contains(&(l.tree, l.key)));
            if first == u64::MAX || first > now || first == now && !hit() {
                continue;
            }
            let c: Vec<&Leaf> = own.leaves.iter().filter(|l| l.tree == t && l.expiry() == first).collect();
            let l = c.iter().find(|l| gone.contains(&(l.tree, l.key))).unwrap_or(&c[0]);
            w.events.push(out_of(l, o.bid, now));
            mine.remove(&(l.tree, l.key));
            free += if count(t) > 1 { 2 } else { 1 };
            w.expired_own = true;
            break;
        }
        if free <= 1 && own.bump >= own.cap - 1 {
            // the overall worst goes
            let pr = |l: &Leaf| at(l, o.bid, oracle, now).1;
            let age = |l: &Leaf| if o.bid { !(l.key as u64) } else { l.key as u64 };
            let worst = |t: u8| mine.values().filter(|l| l.tree == t).max_by_key(|l| (if o.bid { -(l.price_data() as i128) } else { l.price_data() as i128 }, age(l)));
            let wl = [worst(0), worst(1)].into_iter().flatten().max_by_key(|l| (if o.bid { -(pr(l) as i128) } else { pr(l) as i128 }, age(l))).cloned();
            if let Some(l) = wl {
                let p = pr(&l);
                if !(if o.bid { price > p } else { price < p }) {
                    w.fail = Some("full");
                    return w;
                }
                w.events.push(out_of(&l, o.bid, now));
                mine.remove(&(l.tree, l.key));
                w.evicted = true;
            }
        }
        let pd: u64 = if o.peg.is_some() { ((price - oracle) as u64).wrapping_add(1u64 << 63) } else { price as u64 };
        let seq = m.seq_num + 1;
        let key = (pd as u128) << 64 | (if o.bid { !seq } else { seq }) as u128;
        let tif = if o.expiry == 0 { 0 } else { (o.expiry - now).min(65535) as u16 };
        w.rests = Some(Leaf {
            node: 0,
            tree,
            owner_slot: 0,
            order_type: 0,
            time_in_force: tif,
            key,
            owner: acc.key,
            quantity: rest,
            timestamp: now,
            peg_limit: o.peg.unwrap_or(-1),
            client_order_id: o.client,
        });
        if w.why.is_empty() || w.why == "price" {
            w.why = "rests";
        }
    } else if w.why.is_empty() {
        w.why = "done";
    }
    w.own = mine.into_values().collect();
    w
}
fn noseq(e: &Ev) -> Ev {
    let mut e = e.clone();
    match &mut e {
        Ev::Fill(f) => f.seq = 0,
        Ev::Out(o) => o.seq = 0,
        _ => {}
    }
    e
}

#[derive(Default)]
pub struct Matching {
    /// judge the fees alone
    pub fees_only: bool,
}
const FEE_KINDS: &[&str] = &["taker-fee", "accrued", "rebate"];
impl Monitor for Matching {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        if !ix.name.starts_with("perp_place_order") {
            return;
        }
        let (Some((mk, m)), Some(ak), Some(o)) = (market_of(ix), ix.acc("account"), order(ix)) else { return };
        let (Some(b0), Some(a0), Some(q0)) = (ix.pre.book(&m.bids), ix.pre.book(&m.asks), ix.pre.queue(&m.event_queue)) else { return };
        let (Some(b1), Some(a1), Some(q1)) = (ix.post.book(&m.bids), ix.post.book(&m.asks), ix.post.queue(&m.event_queue)) else { return };
        let (Some(acc), Some(acc1)) = (ix.pre.accounts.get(&ak), ix.post.accounts.get(&ak)) else { return };
        let m1 = &ix.post.perps[&mk];
        let ((own0, oth0), (own1, oth1)) = if o.bid { ((b0, a0), (b1, a1)) } else { ((a0, b0), (a1, b1)) };
        if o.expiry != 0 && o.expiry <= ix.now {
            out.eval("expired-order", o.expiry, || format!("{o:?} at {}", ix.now));
            if !ix.changed().is_empty() && !self.fees_only {
                out.fail("C15", "expired-order", format!("{o:?} had expired and still had an effect"));
            }
            return;
        }
        let Some(op) = oracle_of(ix, &m) else {
            out.count("price-unknown");
            return;
        };
        let x = op * m.base_lot_size as f64 / m.quote_lot_size as f64;
        let mut lots = vec![(x * (1.0 - 1e-12) - 1e-9).floor() as i64, (x * (1.0 + 1e-12) + 1e-9).floor() as i64];
        lots.dedup();
        let gone: BTreeSet<(u8, u128)> = {
            let k1: BTreeSet<_> = own1.leaves.iter().map(|l| (l.tree, l.key)).collect();
            own0.leaves.iter().map(|l| (l.tree, l.key)).filter(|k| !k1.contains(k)).collect()
        };
        let mut errs: Vec<Vec<(&'static str, String)>> = vec![];
        for lot in lots {
            // the price band of resting orders, at the price they would rest
            for band in [true, false] {
                let w = predict(&o, &m, acc, own0, oth0, lot, ix.now, band, &gone);
                let price = match (&w.rests, band) {
                    (Some(l), _) => Some(if l.tree == 0 { l.price_data() as i64 } else { lot + l.peg_offset() }),
                    _ => None,
                };
                if !band && !w.banned {
                    continue;
                }
                let native = |p: i64| p as f64 * m.quote_lot_size as f64 / m.base_lot_size as f64;
                let band_at = |p: i64| {
                    let (n, lim) = (native(p), op * f(if o.bid { m.maint_base_liab_weight } else { m.maint_base_asset_weight }));
                    let e = 1e-9 * lim.abs() + 1e-13;
                    if (n - lim).abs() < e { None } else { Some(if o.bid { n < lim } else { n > lim }) }
                };
                if band {
                    if let Some(p) = price {
                        if band_at(p) == Some(false) {
                            continue;
                        }
                    }
                } else {
                    let with = predict(&o, &m, acc, own0, oth0, lot, ix.now, true, &gone);
                    if let Some(l) = with.rests {
                        let p = if l.tree == 0 { l.price_data() as i64 } else { lot + l.peg_offset() };
                        if band_at(p) == Some(true) {
                            continue;
                        }
                    } else if with.fail.is_none() {
                        continue;
                    }
                }
                let e = self.judge(ix, &o, &w, &m, m1, acc, acc1, own1, oth1, q0, q1);
                if e.is_empty() {
                    let what = if w.taken.0 > 0 { "takes" } else { "no-match" };
                    out.eval(&format!("{what}-{:?}-{}{}", o.kind, if o.peg.is_some() { "pegged-" } else { "" }, w.why).to_lowercase(), (w.taken, w.events.len(), m.seq_num, mk), || {
                        format!("{o:?} at oracle {lot} lots: took {:?}, {} events, rests {:?}", w.taken, w.events.len(), w.rests.as_ref().map(|l| (l.key >> 64, l.quantity)))
                    });
                    if w.self_trades > 0 {
                        out.count(["self-trade-decrement", "self-trade-cancel"][(o.self_trade as usize).min(1)]);
                    }
                    for (c, n) in [(w.dropped > 0, "dropped-invalid"), (w.dropped >= 5, "dropped-the-most"), (w.evicted, "evicted-worst"), (w.expired_own, "replaced-expired"), (w.events.len() > 2, "several-events"), (o.reduce || m.reduce_only != 0, "reduce-only")] {
                        if c {
                            out.count(n);
                        }
                    }
                    if w.events.iter().any(|e| matches!(e, Ev::Fill(x) if oth0.leaves.iter().any(|l| l.key == x.maker_order_id && l.tree == 1))) {
                        out.count("filled-pegged");
                    }
                    return;
                }
                errs.push(e);
            }
        }
        let e = errs.into_iter().min_by_key(|e| e.len()).unwrap_or_else(|| vec![("band", "the price band decided neither way".into())]);
        if self.fees_only && !e.iter().all(|(k, _)| FEE_KINDS.contains(k)) {
            return;
        }
        for (k, t) in e {
            out.fail(if self.fees_only { "C26" } else { "C15" }, k, format!("{} {o:?} of {ak} on market {} at oracle {x} lots: {t}", ix.name, m.perp_market_index));
        }
    }
}
impl Matching {
    #[allow(clippy::too_many_arguments)]
    fn judge(&self, ix: &Ix, o: &Order, w: &Want, m: &PerpMarket, m1: &PerpMarket, acc: &MAcc, acc1: &MAcc, own1: &Book, oth1: &Book, q0: &Queue, q1: &Queue) -> Vec<(&'static str, String)> {
        let mut v: Vec<(&'static str, String)> = vec![];
        if let Some(x) = w.fail {
            v.push(("accepted", format!("should have been refused ({x})")));
            return v;
        }
        // events
        let n0 = q0.events.len();
        let new: Vec<Ev> = q1.events[n0.min(q1.events.len())..].iter().map(noseq).collect();
        if new != w.events {
            let i = new.iter().zip(&w.events).position(|(a, b)| a != b).unwrap_or(new.len().min(w.events.len()));
            v.push(("events", format!("{} new events, expected {}; the first to differ is number {i}: {:?}, should be {:?}", new.len(), w.events.len(), new.get(i), w.events.get(i))));
        }
        // the other side
        let (want, got) = (norm(&w.other), norm(&oth1.leaves));
        if want != got {
            let d: Vec<String> = want.iter().filter(|(k, l)| got.get(k) != Some(l)).take(2).map(|(k, l)| format!("expected {l:?}, is {:?}", got.get(k))).chain(got.iter().filter(|(k, _)| !want.contains_key(k)).take(2).map(|(_, l)| format!("still there: {l:?}"))).collect();
            v.push(("opposing-book", d.join("; ")));
        }
        // the own side
        let mut want = norm(&w.own);
        let mut got = norm(&own1.leaves);
        if let Some(r) = &w.rests {
            let mut r = r.clone();
            let k = (r.tree, r.key);
            match got.get(&k) {
                Some(l) => {
                    r.owner_slot = l.owner_slot;
                    // two orders cannot have the same id; what the account's slot says is compared elsewhere
                    if acc.oos.get(l.owner_slot as usize).map_or(true, |s| s.market != u16::MAX) {
                        v.push(("slot", format!("the new order went to slot {} which was in use", l.owner_slot)));
                    }
                }
                None => {
                    let near = got.values().find(|l| !want.contains_key(&(l.tree, l.key)));
                    v.push(("resting", format!("should rest as {r:?}; instead {near:?}")));
                    if let Some(l) = near {
                        let k = (l.tree, l.key);
                        got.remove(&k);
                    }
                }
            }
            if got.contains_key(&k) {
                want.insert(k, r);
            }
        }
        if want != got {
            let d: Vec<String> = want.iter().filter(|(k, l)| got.get(k) != Some(l)).take(2).map(|(k, l)| format!("expected {l:?}, is {:?}", got.get(k))).chain(got.iter().filter(|(k, _)| !want.contains_key(k)).take(2).map(|(_, l)| format!("unexpected: {l:?}"))).collect();
            v.push(("own-book", d.join("; ")));
        }
        // the account
        let z = |a: &MAcc| a.perp(m.perp_market_index).map_or((0, 0, 0.0, 0.0, 0, 0, 0), |p| {
            (p.taker_base_lots, p.taker_quote_lots, f(crate::st::quote_position(p)), f(p.oneshot_settle_pnl_allowance), p.bids_base_lots, p.asks_base_lots, p.base_position_lots)
        });
        let (p, p1) = (z(acc), z(acc1));
        let s = if o.bid { 1 } else { -1 };
        if (p1.0 - p.0, p1.1 - p.1) != (s * w.taken.0, -s * w.taken.1) {
            v.push(("taken", format!("the taker's pending lots moved by {} base and {} quote, should by {:?}", p1.0 - p.0, p1.1 - p.1, w.taken)));
        }
        if p1.6 != p.6 {
            v.push(("position", format!("base position {} -> {} before the fills are processed", p.6, p1.6)));
        }
        let volume = (w.fee_quote as f64) * m.quote_lot_size as f64;
        let pen = if w.penalty { m.fee_penalty as f64 } else { 0.0 };
        let fee = volume * f(m.taker_fee) + pen;
        let tol = 1e-9 + fee.abs() * 1e-12 + (p.2.abs() + p.3.abs()) * 1e-14;
        if (p.2 - p1.2 - fee).abs() > tol || (p.3 - p1.3 - fee).abs() > tol {
            v.push(("taker-fee", format!("the taker paid {} and {}, the fee is {fee}", p.2 - p1.2, p.3 - p1.3)));
        }
        let acc_fee = f(m1.fees_accrued - m.fees_accrued);
        let due = fee + volume * f(m.maker_fee);
        if (acc_fee - due).abs() > 1e-9 + (volume * (f(m.maker_fee).abs() + f(m.taker_fee))) * 1e-12 {
            v.push(("accrued", format!("the market accrued {acc_fee}, should {due}")));
        }
        let r = w.rests.as_ref().map_or(0, |l| l.quantity);
        // own orders that dropped out stay counted until their event is processed
        if (p1.4 - p.4, p1.5 - p.5) != if o.bid { (r, 0) } else { (0, r) } {
            v.push(("resting-lots", format!("resting lots moved by {} bid and {} ask, {r} should rest", p1.4 - p.4, p1.5 - p.5)));
        }
        if m1.seq_num != m.seq_num + 1 {
            v.push(("sequence", format!("order sequence {} -> {}", m.seq_num, m1.seq_num)));
        }
        // rebates
        if let Some(g) = ix.pre.groups.get(&m.group) {
            let (c0, p0) = (acc.fx.buyback_fees_accrued_current, acc.fx.buyback_fees_accrued_previous);
            let exp = acc.fx.buyback_fees_expiry_timestamp;
            let int = g.buyback_fees_expiry_interval;
            let (mut c, mut pr) = (c0, p0);
            if int == 0 || ix.now < exp {
            } else if ix.now < exp + int {
                pr = c;
                c = 0;
            } else {
                pr = 0;
                c = 0;
            }
            let dao = (volume * f(m.taker_fee) + (volume * f(m.maker_fee)).min(0.0)).max(0.0);
            let add = dao + pen.floor();
            let e = 1e-6 + add * 1e-12;
            let got = acc1.fx.buyback_fees_accrued_current as f64 - c as f64;
            let fl = dao.floor() + pen.floor();
            if acc1.fx.buyback_fees_accrued_previous != pr || (got - fl).abs() > if (dao - dao.round()).abs() < e { 1.0 } else { 0.0 } {
                v.push(("rebate", format!("fees for buyback went from {c0}/{p0} to {}/{}, {fl} should be added (expiry {exp} + {int})", acc1.fx.buyback_fees_accrued_current, acc1.fx.buyback_fees_accrued_previous)));
            }
        }
        v
    }
}

/// Books, order slots and pending events tell the same story.
#[derive(Default)]
pub struct Agreement {}
impl Agreement {
    fn market(&self, ix: &Ix, m: &PerpMarket, out: &mut Out) {
        let s = ix.post;
        let (Some(bids), Some(asks), Some(q)) = (s.book(&m.bids), s.book(&m.asks), s.queue(&m.event_queue)) else { return };
        let mi = m.perp_market_index;
        let n = bids.leaves.len() + asks.leaves.len();
        out.eval("agreement", (ix.name, n, q.events.len(), q.seq), || format!("{}: market {mi} has {} bids, {} asks, {} events", ix.name, bids.leaves.len(), asks.leaves.len(), q.events.len()));
        for (side, b) in [(0u8, bids), (1, asks)] {
            for e in &b.errors {
                out.fail("C16", &format!("tree:{}", ix.name), format!("{}: the {} tree of market {mi}: {e}", ix.name, ["bid", "ask"][side as usize]));
            }
            if b.side != side {
                out.fail("C16", "side", format!("{}: the book of side {side} of market {mi} says side {}", ix.name, b.side));
            }
            for l in &b.leaves {
                if l.quantity <= 0 {
                    out.fail("C16", &format!("empty-order:{}", ix.name), format!("{}: {l:?} rests on market {mi}", ix.name));
                }
            }
        }
        // orders and events by (owner, order id)
        #[derive(Default, Debug)]
        struct Seen {
            leaf: Vec<(u8, u8, u8, u64, i64)>, // side, tree, slot, client id, quantity
            fills: i64,
            outs: i64,
            end: usize,
        }
        let mut by: BTreeMap<(Pubkey, u8, u128), Seen> = BTreeMap::new();
        let mut rest: BTreeMap<(Pubkey, u8), i64> = BTreeMap::new();
        for (side, b) in [(0u8, bids), (1, asks)] {
            for l in &b.leaves {
                by.entry((l.owner, side, l.key)).or_default().leaf.push((side, l.tree, l.owner_slot, l.client_order_id, l.quantity));
                *rest.entry((l.owner, side)).or_default() += l.quantity;
            }
        }
        for e in &q.events {
            match e {
                Ev::Fill(x) => {
                    let k = (x.maker, 1 - x.taker_side, x.maker_order_id);
                    let y = by.entry(k).or_default();
                    y.fills += x.quantity;
                    y.end += x.maker_out as usize;
                    *rest.entry((k.0, k.1)).or_default() += x.quantity;
                }
                Ev::Out(x) => {
                    let y = by.entry((x.owner, x.side, x.order_id)).or_default();
                    y.outs += x.quantity;
                    y.end += 1;
                    *rest.entry((x.owner, x.side)).or_default() += x.quantity;
                }
                _ => {}
            }
        }
        for ((owner, side, id), y) in &by {
            if y.leaf.len() + y.end > 1 {
                out.fail("C16", &format!("twice:{}", ix.name), format!("{}: order {id} of {owner} on market {mi}: {} times on the book, {} final events", ix.name, y.leaf.len(), y.end));
            }
            let Some((_, tree, slot, client, _)) = y.leaf.first() else { continue };
            let Some(a) = s.accounts.get(owner) else {
                // only testing groups let accounts with orders close
                if s.groups.get(&m.group).map_or(false, |g| g.testing != 0) {
                    out.count("orphan");
                } else {
                    out.fail("C16", &format!("orphan:{}", ix.name), format!("{}: order {id} on market {mi} belongs to missing account {owner}", ix.name));
                }
                continue;
            };
            let o = a.oos.get(*slot as usize);
            if !o.map_or(false, |o| o.market == mi && o.id == *id && o.client_id == *client && (o.side_and_tree & 1) == *side && (o.side_and_tree >> 1) == *tree) {
                out.fail("C16", &format!("no-slot:{}", ix.name), format!("{}: order {id} (side {side}, tree {tree}, client id {client}) of {owner} on market {mi} is not what slot {slot} says: {o:?}", ix.name));
            }
        }
        for a in s.accounts.values().filter(|a| a.fx.group == m.group) {
            for (i, o) in a.active_oos().filter(|(_, o)| o.market == mi) {
                let side = o.side_and_tree & 1;
                let y = by.get(&(a.key, side, o.id));
                let there = y.map_or(false, |y| y.leaf.iter().any(|l| l.2 as usize == i) || (y.leaf.is_empty() && y.end == 1));
                if !there {
                    out.fail("C16", &format!("lost:{}", ix.name), format!("{}: slot {i} of {} holds order {} of market {mi} that is neither on the book nor pending: {y:?}", ix.name, a.key, o.id));
                    continue;
                }
                let y = y.unwrap();
                let q: i64 = y.leaf.iter().map(|l| l.4).sum::<i64>() + y.fills + y.outs;
                if q != o.quantity {
                    out.fail("C16", &format!("quantity:{}", ix.name), format!("{}: slot {i} of {} says {} lots, the book and pending events {q}: {y:?}", ix.name, a.key, o.quantity));
                }
                if y.fills > 0 || y.outs > 0 {
                    out.count("slot-with-pending-events");
                }
            }
            let p = a.perp(mi);
            let (b, k) = p.map_or((0, 0), |p| (p.bids_base_lots, p.asks_base_lots));
            let r = |s: u8| rest.get(&(a.key, s)).copied().unwrap_or(0);
            if (b, k) != (r(0), r(1)) {
                out.fail("C16", &format!("totals:{}", ix.name), format!("{}: {} records {b} bid and {k} ask lots on market {mi}; the book and pending events hold {} and {}", ix.name, a.key, r(0), r(1)));
            }
        }
    }
    fn cancel(&self, ix: &Ix, out: &mut Out) {
        let (Some((_, m)), Some(ak)) = (market_of(ix), ix.acc("account")) else { return };
        let (Some(a0), Some(a1)) = (ix.pre.accounts.get(&ak), ix.post.accounts.get(&ak)) else { return };
        let slots: Vec<(usize, mango_v4::state::PerpOpenOrder)> = a0.active_oos().filter(|(_, o)| o.market == m.perp_market_index).map(|(i, o)| (i, *o)).collect();
        let mut a = ix.args();
        let mut any_of = false;
        let gone: Vec<usize> = match ix.name {
            "perp_cancel_order" => {
                let id = a.u128();
                slots.iter().filter(|s| s.1.id == id).map(|s| s.0).take(1).collect()
            }
            "perp_cancel_order_by_client_order_id" => {
                let id = a.u64();
                any_of = true;
                slots.iter().filter(|s| s.1.client_id == id).map(|s| s.0).collect()
            }
            _ => {
                let side = if ix.name == "perp_cancel_all_orders_by_side" && a.bool() { Some(a.u8()) } else { None };
                let limit = a.u8() as usize;
                let v: Vec<usize> = slots.iter().filter(|s| side.map_or(true, |x| s.1.side_and_tree & 1 == x)).map(|s| s.0).collect();
                let free: Vec<usize> = v.iter().copied().filter(|i| a1.oos[*i].market == u16::MAX).collect();
                if ix.name == "perp_liq_force_cancel_orders" && free.is_empty() {
                    // not liquidatable after all
                    return;
                }
                if free.len() != limit.min(v.len()) {
                    out.fail("C16", &format!("cancel-count:{}", ix.name), format!("{} with limit {limit} freed {} of {} slots (side {side:?})", ix.name, free.len(), v.len()));
                }
                free
            }
        };
        let freed: Vec<usize> = (0..a0.oos.len()).filter(|i| a0.oos[*i].market != u16::MAX && a1.oos[*i].market == u16::MAX).collect();
        let d = format!("{} by {ak}: slots {freed:?} freed, should be {gone:?}", ix.name);
        if !(freed == gone || any_of && freed.len() == 1 && gone.contains(&freed[0])) {
            out.fail("C16", &format!("cancel-slots:{}", ix.name), d.clone());
        }
        let mut pending = false;
        for (side, bk) in [(0u8, &m.bids), (1, &m.asks)] {
            let (Some(x0), Some(x1)) = (ix.pre.book(bk), ix.post.book(bk)) else { return };
            let mut want = norm(&x0.leaves);
            for i in &freed {
                let o = &a0.oos[*i];
                if o.side_and_tree & 1 == side {
                    let hit = want.get(&(o.side_and_tree >> 1, o.id)).map_or(false, |l| l.owner == ak);
                    pending |= !hit;
                    if hit {
                        want.remove(&(o.side_and_tree >> 1, o.id));
                    }
                }
            }
            if want != norm(&x1.leaves) {
                out.fail("C16", &format!("cancel-book:{}", ix.name), format!("{d}; the book lost {} orders", x0.leaves.len() as i64 - x1.leaves.len() as i64));
            }
        }
        out.eval(&format!("{}{}", ix.name, if pending { "-pending" } else { "" }), (freed.len(), m.seq_num, ak), || d.clone());
        if ix.changed().contains(&m.event_queue) {
            out.fail("C16", "cancel-queue", d);
        }
    }
}
impl Monitor for Agreement {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        let ch = ix.changed();
        for (k, m) in &ix.post.perps {
            let touched = ch.contains(k)
                || [m.bids, m.asks, m.event_queue].iter().any(|x| ch.contains(x))
                || ch.iter().any(|a| {
                    let has = |s: &State| s.accounts.get(a).map_or(false, |a| a.fx.group == m.group && (a.perp(m.perp_market_index).is_some() || a.active_oos().any(|(_, o)| o.market == m.perp_market_index)));
                    has(ix.pre) || has(ix.post)
                });
            if touched {
                self.market(ix, m, out);
            }
            let books = [m.bids, m.asks].iter().any(|x| ch.contains(x) && ix.pre.book(x).is_some());
            if books && !(ix.name.starts_with("perp_place") || ix.name.contains("cancel") || ix.is(&["perp_close_market"])) {
                out.fail("C16", &format!("book:{}", ix.name), format!("{} changed a book of market {}", ix.name, m.perp_market_index));
            }
        }
        if ix.name.starts_with("perp_cancel") || ix.is(&["perp_liq_force_cancel_orders"]) {
            self.cancel(ix, out);
        }
    }
}

/// The event queue: consecutive numbers, first in first out, each event processed once.
#[derive(Default)]
pub struct Events {
    /// per queue: number of events ever pushed and processed, as seen from outside
    seen: BTreeMap<Pubkey, (u64, u64)>,
}
impl Monitor for Events {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        let ch = ix.changed();
        let markets: Vec<Rc<PerpMarket>> = ix.post.perps.values().cloned().collect();
        for m in markets {
            if !ch.contains(&m.event_queue) {
                continue;
            }
            let (Some(q0), Some(q1)) = (ix.pre.queue(&m.event_queue), ix.post.queue(&m.event_queue)) else { continue };
            let mi = m.perp_market_index;
            for e in &q1.errors {
                out.fail("C17", "corrupt", format!("{}: queue of market {mi}: {e}", ix.name));
            }
            let first = |q: &Queue| q.seq.wrapping_sub(q.events.len() as u64);
            for q in [q0, q1] {
                for (i, e) in q.events.iter().enumerate() {
                    if e.seq() != first(q).wrapping_add(i as u64) {
                        out.fail("C17", &format!("numbers:{}", ix.name), format!("{}: event {i} of market {mi} has number {}, the queue has {} events and the next number is {}", ix.name, e.seq(), q.events.len(), q.seq));
                        break;
                    }
                }
            }
            let popped = first(q1).wrapping_sub(first(q0)) as i64;
            let pushed = q1.seq.wrapping_sub(q0.seq) as i64;
            let d = format!("{}: market {mi}: {popped} events removed, {pushed} added, {} -> {}", ix.name, q0.events.len(), q1.events.len());
            if popped < 0 || pushed < 0 || popped as usize > q0.events.len() {
                out.fail("C17", &format!("order:{}", ix.name), d);
                continue;
            }
            let kept = &q0.events[popped as usize..];
            if q1.events.len() < kept.len() || &q1.events[..kept.len()] != kept {
                out.fail("C17", &format!("altered:{}", ix.name), format!("{d}; events in between changed"));
            }
            let s = self.seen.entry(m.event_queue).or_insert((first(q0), first(q0)));
            s.0 += pushed as u64;
            s.1 += popped as u64;
            if ix.is(&["perp_consume_events"]) {
                let asked = ix.args().u64().min(8) as usize;
                let have: BTreeSet<Pubkey> = ix.remaining().collect();
                let mut n = 0;
                for e in q0.events.iter().take(asked) {
                    let ok = match e {
                        Ev::Fill(x) => have.contains(&x.maker) && have.contains(&x.taker),
                        Ev::Out(x) => have.contains(&x.owner),
                        _ => true,
                    };
                    if !ok {
                        break;
                    }
                    n += 1;
                }
                let case = match () {
                    _ if n < asked && n < q0.events.len() => "stops-at-missing-account",
                    _ if n == q0.events.len() => "empties",
                    _ => "some",
                };
                out.eval(&format!("consume-{case}"), (q0.seq, popped, mi), || format!("{d}; asked {asked}"));
                if popped as usize != n || pushed != 0 {
                    out.fail("C17", "consumed", format!("{d}; {asked} asked and accounts for {n} given"));
                }
                // removals free exactly what they name
                for e in &q0.events[..popped as usize] {
                    let Ev::Out(x) = e else { continue };
                    out.count("out-processed");
                    if let Some(a) = ix.post.accounts.get(&x.owner) {
                        if a.active_oos().any(|(_, o)| o.market == mi && o.id == x.order_id) {
                            out.fail("C17", "out", format!("{d}; order {} of {} still has a slot after its removal was processed", x.order_id, x.owner));
                        }
                    }
                }
            } else {
                out.eval("push", (q1.seq, pushed, mi), || d.clone());
                if q1.events.len() * 10 > q1.cap * 9 {
                    out.count("nearly-full");
                }
                if q1.head as usize + q1.events.len() > q1.cap {
                    out.count("wrapped-around");
                }
                if popped != 0 {
                    out.fail("C17", &format!("removed:{}", ix.name), d.clone());
                }
                if !ix.name.starts_with("perp_place") && pushed > 0 {
                    out.fail("C17", &format!("added:{}", ix.name), d.clone());
                }
            }
        }
    }
    fn failed(&mut self, _t: &Tx, _out: &mut Out) {}
}
