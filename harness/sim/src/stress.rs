//! Workloads of their own for what random histories rarely reach: full books, many expired
//! orders in the way, a full event queue, settlement of events with accounts left out.
use crate::act::*;
use crate::mon::{h64, Hub, Monitor, Out};
use crate::pt::*;
use crate::world::*;
use mango_v4::state::*;
use rand::prelude::*;
use rand_chacha::ChaCha8Rng;
use std::rc::Rc;

#[derive(Clone)]
pub struct Order {
    pub side: Side,
    pub price: i64,
    pub base: i64,
    pub quote: i64,
    pub kind: PlaceOrderType,
    pub self_trade: SelfTradeBehavior,
    pub reduce: bool,
    pub expiry: u64,
    pub limit: u8,
    pub peg_limit: Option<i64>,
}
pub fn order(side: Side, price: i64, base: i64) -> Order {
    Order { side, price, base, quote: i64::MAX, kind: PlaceOrderType::Limit, self_trade: SelfTradeBehavior::DecrementTake, reduce: false, expiry: 0, limit: 255, peg_limit: None }
}
pub fn place(w: &mut World, p: &PerpW, a: &AccW, o: &Order) -> bool {
    let owner = w.owner_of(a);
    let client = w.next_client_id;
    w.next_client_id += 1;
    let x = match o.peg_limit {
        None => w.build(PerpPlaceOrderInstruction {
            account: a.key,
            perp_market: p.market,
            owner,
            side: o.side,
            price_lots: o.price,
            max_base_lots: o.base,
            max_quote_lots: o.quote,
            reduce_only: o.reduce,
            client_order_id: client,
            self_trade_behavior: o.self_trade,
            limit: o.limit,
        }),
        Some(_) => w.build(PerpPlaceOrderPeggedInstruction {
            account: a.key,
            perp_market: p.market,
            owner,
            side: o.side,
            price_offset: o.price,
            max_base_lots: o.base,
            max_quote_lots: o.quote,
            client_order_id: client,
            peg_limit: -1,
        }),
    };
    let Some((mut ix, s)) = x else { return false };
    ix.data = match o.peg_limit {
        None => data(&mango_v4::instruction::PerpPlaceOrderV2 {
            side: o.side,
            price_lots: o.price,
            max_base_lots: o.base,
            max_quote_lots: o.quote,
            client_order_id: client,
            order_type: o.kind,
            self_trade_behavior: o.self_trade,
            reduce_only: o.reduce,
            expiry_timestamp: o.expiry,
            limit: o.limit,
        }),
        Some(peg_limit) => data(&mango_v4::instruction::PerpPlaceOrderPeggedV2 {
            side: o.side,
            price_offset_lots: o.price,
            peg_limit,
            max_base_lots: o.base,
            max_quote_lots: o.quote,
            client_order_id: client,
            order_type: o.kind,
            self_trade_behavior: o.self_trade,
            reduce_only: o.reduce,
            expiry_timestamp: o.expiry,
            limit: o.limit,
            max_oracle_staleness_slots: -1,
        }),
    };
    w.run(Tx::one((ix, s))).ok()
}

fn world(seed: u64, monitors: Vec<Box<dyn Monitor>>, accounts: usize, oos: u8) -> (World, Rc<Hub>) {
    let mut rng = ChaCha8Rng::seed_from_u64(seed);
    let mut cfg = Cfg::random(&mut rng);
    cfg.tokens = 2;
    cfg.perps = 1;
    cfg.sers = 0;
    cfg.users = 3;
    cfg.exotic = false;
    cfg.limits = false;
    cfg.second_group = false;
    cfg.hostile = 0.0;
    cfg.initial_usd = 50_000.0;
    let hub = Rc::new(Hub::new(monitors));
    let mut w = World::new(seed, cfg, hub.clone());
    for i in 0..accounts {
        let u = i % 3;
        let Some(key) = w.new_account(u, (4, 0, 2, oos, 0)) else { continue };
        let t = w.grp().toks[0].clone();
        let owner = w.users[u].key;
        w.send(TokenDepositInstruction {
            amount: 50_000_000_000,
            reduce_only: false,
            account: key,
            owner,
            token_account: w.users[u].atas[t.mint_i],
            token_authority: owner,
            bank_index: 0,
        });
    }
    (w, hub)
}
fn sides(r: &mut ChaCha8Rng) -> Side {
    if r.gen_bool(0.5) {
        Side::Bid
    } else {
        Side::Ask
    }
}
fn count_queue(w: &World, p: &PerpW) -> usize {
    let q = w.solana.get_account::<PerpMarket>(p.market).event_queue;
    w.with_state(|s| s.queue(&q).map_or(0, |q| q.count as usize))
}

/// A side filled to its last slot, orders competing for it, most of them expiring some time.
fn full_book(w: &mut World) {
    let p = w.grp().perps[0].clone();
    let accs: Vec<AccW> = w.grp().accs.iter().rev().take(18).copied().collect();
    let side = sides(&mut w.rng);
    let away = if matches!(side, Side::Bid) { -1 } else { 1 };
    let mid = perp_price_lots(&p);
    let with_expiry = *[0.0, 0.2, 0.8].choose(&mut w.rng).unwrap();
    let pegs = *[0.0, 0.3, 1.0].choose(&mut w.rng).unwrap();
    let far = w.rng.gen_bool(0.5);
    let span = ((mid as f64 * if far { 0.6 } else { 0.05 }) as i64).max(20);
    let resting = |w: &mut World| {
        let now = w.now();
        let r = &mut w.rng;
        let off = away * r.gen_range(1..span);
        let peg = r.gen_bool(pegs);
        let mut o = order(side, if peg { off } else { (mid + off).max(1) }, r.gen_range(1..4));
        if peg {
            o.peg_limit = Some(if r.gen_bool(0.3) { (mid + off + away * -r.gen_range(0..20)).max(1) } else { -1 });
        }
        if r.gen_bool(with_expiry) {
            o.expiry = now + r.gen_range(2..250);
        }
        o.kind = *[PlaceOrderType::Limit, PlaceOrderType::PostOnly, PlaceOrderType::PostOnlySlide].choose(r).unwrap();
        o
    };
    let mut misses = 0;
    for k in 0..620 {
        let a = accs[k % accs.len()];
        let o = resting(w);
        misses = if place(w, &p, &a, &o) { 0 } else { misses + 1 };
        if misses > 30 {
            break;
        }
        if k % 97 == 96 {
            w.advance(1);
        }
    }
    // compete for room
    for _ in 0..60 {
        let a = *accs.choose(&mut w.rng).unwrap();
        match w.rng.gen_range(0..12) {
            0 => {
                let d = *[1u64, 30, 100, 300].choose(&mut w.rng).unwrap();
                w.advance(d)
            }
            1 => {
                let f = w.rng.gen_range(0.97..1.03);
                let x = w.grp().perps[0].price * f;
                set_perp_price(w, 0, x);
            }
            2 => {
                // through the top of the book
                let s = if away < 0 { Side::Ask } else { Side::Bid };
                let mut o = order(s, mid + away * span / 2, w.rng.gen_range(1..40));
                o.kind = *[PlaceOrderType::Limit, PlaceOrderType::ImmediateOrCancel, PlaceOrderType::Market].choose(&mut w.rng).unwrap();
                o.limit = *[3u8, 8, 255].choose(&mut w.rng).unwrap();
                place(w, &p, &a, &o);
            }
            3 => {
                if let Some(x) = perp_cancel_all_for(w, a) {
                    w.run(Tx::one(x));
                }
            }
            4 => consume_all(w, &p),
            5 => {
                // worse than everything
                let mut o = resting(w);
                o.price = if away < 0 { 1 } else { mid * 3 };
                o.peg_limit = None;
                place(w, &p, &a, &o);
            }
            _ => {
                let mut o = resting(w);
                if w.rng.gen_bool(0.5) && o.peg_limit.is_none() {
                    o.price = mid + away * w.rng.gen_range(0..3);
                }
                place(w, &p, &a, &o);
            }
        }
    }
    consume_all(w, &p);
}

/// Few price levels, crowded by orders that expire or leave their peg band, then takers.
fn expired_in_the_way(w: &mut World) {
    let p = w.grp().perps[0].clone();
    let accs: Vec<AccW> = w.grp().accs.iter().rev().take(8).copied().collect();
    for _ in 0..6 {
        let side = sides(&mut w.rng);
        let away = if matches!(side, Side::Bid) { -1 } else { 1 };
        let mid = perp_price_lots(&w.grp().perps[0].clone());
        let n = w.rng.gen_range(4..40);
        let bad = *[0.3, 0.6, 1.0].choose(&mut w.rng).unwrap();
        for _ in 0..n {
            let a = *accs.choose(&mut w.rng).unwrap();
            let now = w.now();
            let r = &mut w.rng;
            let off = away * r.gen_range(1..4);
            let mut o = order(side, mid + off, r.gen_range(1..10));
            if r.gen_bool(0.4) {
                o.price = off;
                o.peg_limit = Some(if r.gen_bool(bad) { mid + off + r.gen_range(-2..3) } else { -1 });
            }
            if r.gen_bool(bad) {
                o.expiry = now + r.gen_range(1..40);
            }
            place(w, &p, &a, &o);
        }
        let d = *[1u64, 10, 20, 39, 40, 41, 60].choose(&mut w.rng).unwrap();
        w.advance(d);
        if w.rng.gen_bool(0.5) {
            let f = 1.0 + w.rng.gen_range(-4..=4) as f64 / mid as f64;
            let x = w.grp().perps[0].price * f;
            set_perp_price(w, 0, x);
        }
        for _ in 0..w.rng.gen_range(1..6) {
            let a = *accs.choose(&mut w.rng).unwrap();
            let s = if w.rng.gen_bool(0.8) { if away < 0 { Side::Ask } else { Side::Bid } } else { side };
            let r = &mut w.rng;
            let mut o = order(s, mid + away * r.gen_range(-1..5), r.gen_range(1..60));
            o.kind = *[PlaceOrderType::Limit, PlaceOrderType::ImmediateOrCancel, PlaceOrderType::Market, PlaceOrderType::PostOnly, PlaceOrderType::PostOnlySlide].choose(r).unwrap();
            o.limit = *[1u8, 2, 6, 10, 255].choose(r).unwrap();
            o.self_trade = *[SelfTradeBehavior::DecrementTake, SelfTradeBehavior::CancelProvide, SelfTradeBehavior::AbortTransaction].choose(r).unwrap();
            o.reduce = r.gen_bool(0.1);
            if r.gen_bool(0.2) {
                o.quote = r.gen_range(1..50) * mid + r.gen_range(0..mid);
            }
            place(w, &p, &a, &o);
        }
        if w.rng.gen_bool(0.6) {
            consume_all(w, &p);
        }
    }
}

/// Sweeps fill the event queue to the brim; it drains in an order only the accounts passed limit.
fn full_queue(w: &mut World) {
    let p = w.grp().perps[0].clone();
    let accs: Vec<AccW> = w.grp().accs.iter().rev().take(12).copied().collect();
    // start somewhere in the ring
    let rounds = w.rng.gen_range(1..3);
    for round in 0..rounds {
        let goal = if round + 1 == rounds { 600 } else { w.rng.gen_range(50..480) };
        let mut stuck = 0;
        while count_queue(w, &p) < goal && stuck < 4 {
            let before = count_queue(w, &p);
            let side = sides(&mut w.rng);
            let away = if matches!(side, Side::Bid) { -1 } else { 1 };
            let mid = perp_price_lots(&p);
            for _ in 0..w.rng.gen_range(20..90) {
                let a = *accs.choose(&mut w.rng).unwrap();
                let now = w.now();
                let mut o = order(side, mid + away * w.rng.gen_range(1..6), 1);
                if w.rng.gen_bool(0.1) {
                    o.expiry = now + 1;
                }
                place(w, &p, &a, &o);
            }
            if w.rng.gen_bool(0.2) {
                w.advance(2);
            }
            for _ in 0..3 {
                let a = *accs.choose(&mut w.rng).unwrap();
                let mut o = order(if away < 0 { Side::Ask } else { Side::Bid }, mid + away * 6, w.rng.gen_range(5..90));
                o.kind = PlaceOrderType::ImmediateOrCancel;
                o.limit = *[8u8, 40, 255].choose(&mut w.rng).unwrap();
                place(w, &p, &a, &o);
            }
            stuck = if count_queue(w, &p) == before { stuck + 1 } else { 0 };
        }
        let leave = if w.rng.gen_bool(0.5) { 0 } else { w.rng.gen_range(0..60) };
        for _ in 0..400 {
            if count_queue(w, &p) <= leave {
                break;
            }
            let limit = *[1usize, 2, 5, 8, 8, 8, 8, 20].choose(&mut w.rng).unwrap();
            let drop = w.rng.gen_bool(0.3);
            if let Some(x) = consume_ix(w, &p, limit, drop) {
                w.run(Tx::one(x));
            }
        }
    }
    consume_all(w, &p);
}

pub fn books(seed: u64, item: u64, monitors: Vec<Box<dyn Monitor>>, out: &mut Out) {
    let s = h64((seed, "books", item)) & 0xffff_ffff_ffff;
    let f = [full_book, expired_in_the_way, full_queue, expired_in_the_way][item as usize % 4];
    let (mut w, hub) = world(s, monitors, [18, 8, 12, 8][item as usize % 4], [40, 30, 64, 30][item as usize % 4]);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut w)));
    out.merge(hub.take());
    if r.is_err() {
        out.count("generator-panics");
    }
}
