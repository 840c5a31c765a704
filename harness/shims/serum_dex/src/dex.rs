//! The order book program itself.
use crate::critbit::*;
use crate::instruction::*;
use crate::matching::*;
use crate::state::*;
use bytemuck::{Pod, Zeroable};
use solana_program::account_info::AccountInfo;
use solana_program::entrypoint::ProgramResult;
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use std::cell::RefMut;

pub const TAKER_FEE_BPS: u64 = 4;
pub const MAKER_REBATE_BPS: u64 = 2;

#[derive(Clone, Copy, Pod, Zeroable, Debug, PartialEq, Eq)]
#[repr(C, packed)]
pub struct Event {
    /// 0: maker fill, 1: out
    pub kind: u8,
    pub side: u8,
    /// for fills: order is fully done
    pub done: u8,
    pub slot: u8,
    pub pad: [u8; 4],
    pub owner: [u8; 32],
    pub order_id: u128,
    /// fills: what the maker pays, outs: what gets unlocked
    pub native_a: u64,
    /// fills: what the maker receives
    pub native_b: u64,
    /// fills: part of native_a (bid) or native_b (ask) that is a maker rebate
    pub rebate: u64,
}
const EVS: usize = std::mem::size_of::<Event>();

fn err(code: u32) -> ProgramError {
    ProgramError::Custom(0x0D00_0000 + code)
}

pub const MARKET_LEN: usize = 388;
pub const OO_LEN: usize = 3228;

fn pk(d: [u64; 4]) -> Pubkey {
    let b: [u8; 32] = bytemuck::cast(d);
    Pubkey::from(b)
}

pub fn market_mut(d: &mut [u8]) -> &mut MarketState {
    bytemuck::from_bytes_mut(&mut d[5..381])
}
pub fn oo_mut(d: &mut [u8]) -> &mut OpenOrders {
    bytemuck::from_bytes_mut(&mut d[5..3221])
}
pub fn slab_mut(d: &mut [u8]) -> &mut Slab {
    let l = d.len();
    Slab::new(&mut d[13..l - 7])
}
/// header: head padding, flags u64, seq u64, count u64
pub fn events(d: &[u8]) -> Vec<Event> {
    let n = u64::from_le_bytes(d[21..29].try_into().unwrap()) as usize;
    bytemuck::cast_slice(&d[29..29 + n * EVS]).to_vec()
}
fn push_event(d: &mut [u8], e: Event) -> ProgramResult {
    let n = u64::from_le_bytes(d[21..29].try_into().unwrap()) as usize;
    if 29 + (n + 1) * EVS > d.len() {
        return Err(err(9));
    }
    d[29 + n * EVS..29 + (n + 1) * EVS].copy_from_slice(bytemuck::bytes_of(&e));
    d[21..29].copy_from_slice(&(n as u64 + 1).to_le_bytes());
    Ok(())
}
fn next_seq(d: &mut [u8]) -> u64 {
    let s = u64::from_le_bytes(d[13..21].try_into().unwrap());
    d[13..21].copy_from_slice(&(s + 1).to_le_bytes());
    s
}

pub fn init_account(d: &mut [u8], flag: AccountFlag) {
    d[..5].copy_from_slice(ACCOUNT_HEAD_PADDING);
    let l = d.len();
    d[l - 7..].copy_from_slice(ACCOUNT_TAIL_PADDING);
    let f = AccountFlag::Initialized as u64 | flag as u64;
    d[5..13].copy_from_slice(&f.to_le_bytes());
}

fn check_market<'a>(
    program_id: &Pubkey,
    ai: &'a AccountInfo,
) -> Result<RefMut<'a, MarketState>, ProgramError> {
    if ai.owner != program_id || ai.data_len() != MARKET_LEN {
        return Err(err(1));
    }
    let m = RefMut::map(ai.try_borrow_mut_data()?, |d| market_mut(d));
    if m.check_flags(false).is_err() || pk(m.own_address) != *ai.key {
        return Err(err(2));
    }
    Ok(m)
}
fn check_oo<'a>(
    program_id: &Pubkey,
    market: &Pubkey,
    owner: &AccountInfo,
    ai: &'a AccountInfo,
) -> Result<RefMut<'a, OpenOrders>, ProgramError> {
    if ai.owner != program_id || ai.data_len() != OO_LEN {
        return Err(err(3));
    }
    if !owner.is_signer {
        return Err(ProgramError::MissingRequiredSignature);
    }
    let oo = RefMut::map(ai.try_borrow_mut_data()?, |d| oo_mut(d));
    if { oo.account_flags } != AccountFlag::Initialized as u64 | AccountFlag::OpenOrders as u64 {
        return Err(err(4));
    }
    if pk(oo.market) != *market || pk(oo.owner) != *owner.key {
        return Err(err(5));
    }
    Ok(oo)
}
fn check_key(k: [u64; 4], ai: &AccountInfo) -> ProgramResult {
    if pk(k) != *ai.key {
        return Err(err(6));
    }
    Ok(())
}

pub fn process<'info>(
    program_id: &Pubkey,
    accounts: &[AccountInfo<'info>],
    data: &[u8],
) -> ProgramResult {
    let ix = MarketInstruction::unpack(data).ok_or(ProgramError::InvalidInstructionData)?;
    match ix {
        MarketInstruction::InitOpenOrders => {
            let [oo_ai, owner, market, ..] = accounts else { return Err(ProgramError::NotEnoughAccountKeys) };
            if !owner.is_signer {
                return Err(ProgramError::MissingRequiredSignature);
            }
            check_market(program_id, market)?;
            if oo_ai.owner != program_id || oo_ai.data_len() != OO_LEN {
                return Err(err(3));
            }
            let mut d = oo_ai.try_borrow_mut_data()?;
            if d.iter().any(|b| *b != 0) {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            init_account(&mut d, AccountFlag::OpenOrders);
            let oo = oo_mut(&mut d);
            oo.market = market.key.to_aligned_bytes();
            oo.owner = owner.key.to_aligned_bytes();
            oo.free_slot_bits = u128::MAX;
            Ok(())
        }
        MarketInstruction::CloseOpenOrders => {
            let [oo_ai, owner, dest, market, ..] = accounts else { return Err(ProgramError::NotEnoughAccountKeys) };
            check_market(program_id, market)?;
            {
                let mut oo = check_oo(program_id, market.key, owner, oo_ai)?;
                if { oo.free_slot_bits } != u128::MAX
                    || oo.native_coin_total != 0
                    || oo.native_pc_total != 0
                {
                    return Err(err(7));
                }
                oo.account_flags =
                    AccountFlag::Initialized as u64 | AccountFlag::Closed as u64;
            }
            let l = oo_ai.lamports();
            **oo_ai.try_borrow_mut_lamports()? -= l;
            **dest.try_borrow_mut_lamports()? += l;
            Ok(())
        }
        MarketInstruction::SettleFunds => {
            let [market, oo_ai, owner, coin_vault, pc_vault, coin_wallet, pc_wallet, vault_signer, token, rest @ ..] =
                accounts
            else {
                return Err(ProgramError::NotEnoughAccountKeys);
            };
            let (coin, pc, reb, nonce) = {
                let mut m = check_market(program_id, market)?;
                check_key(m.coin_vault, coin_vault)?;
                check_key(m.pc_vault, pc_vault)?;
                let mut oo = check_oo(program_id, market.key, owner, oo_ai)?;
                let coin = oo.native_coin_free;
                let pc = oo.native_pc_free;
                let reb = if rest.is_empty() { 0 } else { oo.referrer_rebates_accrued };
                oo.native_coin_free = 0;
                oo.native_coin_total -= coin;
                oo.native_pc_free = 0;
                oo.native_pc_total -= pc;
                oo.referrer_rebates_accrued = 0;
                m.coin_deposits_total -= coin;
                m.pc_deposits_total -= pc;
                m.referrer_rebates_accrued -= reb;
                (coin, pc, reb, m.vault_signer_nonce)
            };
            let nonce_b = nonce.to_le_bytes();
            let seeds: &[&[u8]] = &[market.key.as_ref(), &nonce_b];
            let xfer = |from: &AccountInfo<'info>, to: &AccountInfo<'info>, amt: u64| -> ProgramResult {
                if amt == 0 {
                    return Ok(());
                }
                let ix = spl_token::instruction::transfer(
                    token.key, from.key, to.key, vault_signer.key, &[], amt,
                )?;
                solana_program::program::invoke_signed_unchecked(
                    &ix,
                    &infos(&[from, to, vault_signer, token]),
                    &[seeds],
                )
            };
            xfer(coin_vault, coin_wallet, coin)?;
            xfer(pc_vault, pc_wallet, pc)?;
            if reb > 0 {
                xfer(pc_vault, &rest[0], reb)?;
            }
            Ok(())
        }
        MarketInstruction::NewOrderV3(o) => {
            let [market, oo_ai, _reqq, eventq, bids, asks, payer, owner, coin_vault, pc_vault, token, ..] =
                accounts
            else {
                return Err(ProgramError::NotEnoughAccountKeys);
            };
            new_order(
                program_id, market, oo_ai, eventq, bids, asks, payer, owner, coin_vault, pc_vault,
                token, o,
            )
        }
        MarketInstruction::CancelOrderV2(c) => {
            let [market, bids, asks, oo_ai, owner, eventq, ..] = accounts else { return Err(ProgramError::NotEnoughAccountKeys) };
            cancel(program_id, market, bids, asks, oo_ai, owner, eventq, |e, s, _| {
                s == c.side && { e.key } == c.order_id
            })
        }
        MarketInstruction::CancelOrderByClientIdV2(id) => {
            let [market, bids, asks, oo_ai, owner, eventq, ..] = accounts else { return Err(ProgramError::NotEnoughAccountKeys) };
            cancel(program_id, market, bids, asks, oo_ai, owner, eventq, |e, _, oo| {
                e.client_order_id == id && oo.client_order_ids[e.owner_slot as usize] == id
            })
        }
    }
}

fn infos<'info>(a: &[&AccountInfo<'info>]) -> Vec<AccountInfo<'info>> {
    a.iter().map(|x| (*x).clone()).collect()
}

fn out_event(side: Side, e: &Entry, unlock: u64) -> Event {
    Event {
        kind: 1,
        side: side as u8,
        done: 1,
        slot: e.owner_slot as u8,
        pad: [0; 4],
        owner: e.owner,
        order_id: e.key,
        native_a: unlock,
        native_b: 0,
        rebate: 0,
    }
}
fn locked_native(m: &MarketState, side: Side, e: &Entry) -> u64 {
    match side {
        Side::Bid => e.qty * e.price() * m.pc_lot_size,
        Side::Ask => e.qty * m.coin_lot_size,
    }
}

#[allow(clippy::too_many_arguments)]
fn cancel<'info>(
    program_id: &Pubkey,
    market: &AccountInfo<'info>,
    bids: &AccountInfo<'info>,
    asks: &AccountInfo<'info>,
    oo_ai: &AccountInfo<'info>,
    owner: &AccountInfo<'info>,
    eventq: &AccountInfo<'info>,
    pred: impl Fn(&Entry, Side, &OpenOrders) -> bool,
) -> ProgramResult {
    let m = check_market(program_id, market)?;
    check_key(m.bids, bids)?;
    check_key(m.asks, asks)?;
    check_key(m.event_q, eventq)?;
    let mut oo = check_oo(program_id, market.key, owner, oo_ai)?;
    for (side, ai) in [(Side::Bid, bids), (Side::Ask, asks)] {
        let mut d = ai.try_borrow_mut_data()?;
        let slab = slab_mut(&mut d);
        let pos = slab
            .entries()
            .iter()
            .position(|e| e.owner == oo_ai.key.to_bytes() && pred(e, side, &oo));
        if let Some(i) = pos {
            let e = slab.remove_at(i);
            let unlock = locked_native(&m, side, &e);
            let mut q = eventq.try_borrow_mut_data()?;
            // funds are released at once, the slot once the event is consumed
            match side {
                Side::Bid => oo.native_pc_free += unlock,
                Side::Ask => oo.native_coin_free += unlock,
            }
            return push_event(&mut q, out_event(side, &e, 0));
        }
    }
    Err(err(8))
}

#[allow(clippy::too_many_arguments)]
fn new_order<'info>(
    program_id: &Pubkey,
    market: &AccountInfo<'info>,
    oo_ai: &AccountInfo<'info>,
    eventq: &AccountInfo<'info>,
    bids: &AccountInfo<'info>,
    asks: &AccountInfo<'info>,
    payer: &AccountInfo<'info>,
    owner: &AccountInfo<'info>,
    coin_vault: &AccountInfo<'info>,
    pc_vault: &AccountInfo<'info>,
    token: &AccountInfo<'info>,
    o: NewOrderInstructionV3,
) -> ProgramResult {
    let deposit;
    let lock;
    {
        let mut m = check_market(program_id, market)?;
        check_key(m.bids, bids)?;
        check_key(m.asks, asks)?;
        check_key(m.event_q, eventq)?;
        check_key(m.coin_vault, coin_vault)?;
        check_key(m.pc_vault, pc_vault)?;
        let mut oo = check_oo(program_id, market.key, owner, oo_ai)?;
        match o.side {
            Side::Bid => {
                lock = o.max_native_pc_qty_including_fees.get();
                let use_free = lock.min(oo.native_pc_free);
                deposit = lock - use_free;
                oo.native_pc_free -= use_free;
                oo.native_pc_total += deposit;
                m.pc_deposits_total += deposit;
            }
            Side::Ask => {
                lock = o
                    .max_coin_qty
                    .get()
                    .checked_mul(m.coin_lot_size)
                    .ok_or(err(10))?;
                let use_free = lock.min(oo.native_coin_free);
                deposit = lock - use_free;
                oo.native_coin_free -= use_free;
                oo.native_coin_total += deposit;
                m.coin_deposits_total += deposit;
            }
        }
    }
    if deposit > 0 {
        let vault = if o.side == Side::Bid { pc_vault } else { coin_vault };
        let ix = spl_token::instruction::transfer(
            token.key, payer.key, vault.key, owner.key, &[], deposit,
        )?;
        solana_program::program::invoke_unchecked(&ix, &infos(&[payer, vault, owner, token]))?;
    }

    let mut m = check_market(program_id, market)?;
    let mut oo = check_oo(program_id, market.key, owner, oo_ai)?;
    let mut q = eventq.try_borrow_mut_data()?;
    let mut bd = bids.try_borrow_mut_data()?;
    let mut ad = asks.try_borrow_mut_data()?;
    let seq = next_seq(&mut q);
    let (own, opp) = match o.side {
        Side::Bid => (slab_mut(&mut bd), slab_mut(&mut ad)),
        Side::Ask => (slab_mut(&mut ad), slab_mut(&mut bd)),
    };
    let opp_side = if o.side == Side::Bid { Side::Ask } else { Side::Bid };
    let limit_price = o.limit_price.get();
    let mut remaining = o.max_coin_qty.get();
    // native units still available to pay with
    let mut pay_left = lock;
    let mut paid = 0u64; // pc (incl. fees) or coin
    let mut recv = 0u64;
    let mut rebate_total = 0u64;
    let mut iters = o.limit;
    let mut crossed_post_only = false;
    while remaining > 0 && iters > 0 {
        let n = opp.len();
        if n == 0 {
            break;
        }
        let best = if opp_side == Side::Ask { 0 } else { n - 1 };
        let e = opp.entries()[best];
        let crosses = if o.side == Side::Bid { e.price() <= limit_price } else { e.price() >= limit_price };
        if !crosses {
            break;
        }
        if o.order_type == OrderType::PostOnly {
            crossed_post_only = true;
            break;
        }
        iters -= 1;
        if e.owner == oo_ai.key.to_bytes() {
            if o.self_trade_behavior == SelfTradeBehavior::AbortTransaction {
                return Err(err(11));
            }
            let e = opp.remove_at(best);
            push_event(&mut q, out_event(opp_side, &e, locked_native(&m, opp_side, &e)))?;
            continue;
        }
        let mut qty = remaining.min(e.qty);
        let unit_pc = e.price() * m.pc_lot_size;
        let fee_of = |pc: u64| (pc as u128 * TAKER_FEE_BPS as u128 + 9999) / 10000;
        if o.side == Side::Bid {
            // largest quantity that is affordable with fees
            while qty > 0 && (qty * unit_pc) as u128 + fee_of(qty * unit_pc) > pay_left as u128 {
                let cap = (pay_left as u128 * 10000 / (10000 + TAKER_FEE_BPS as u128)) as u64 / unit_pc;
                qty = if cap < qty { cap } else { qty - 1 };
            }
            if qty == 0 {
                break;
            }
        }
        let pc = qty * unit_pc;
        let coin = qty * m.coin_lot_size;
        let fee = fee_of(pc) as u64;
        // a binary fraction just below 2 bps
        let maker_rebate =
            ((pc as u128 * MAKER_REBATE_BPS as u128).saturating_sub(1) / 10000) as u64;
        let referrer = fee / 2;
        rebate_total += referrer;
        m.pc_fees_accrued += fee - maker_rebate - referrer;
        match o.side {
            Side::Bid => {
                paid += pc + fee;
                pay_left -= pc + fee;
                recv += coin;
            }
            Side::Ask => {
                paid += coin;
                pay_left -= coin;
                recv += pc - fee;
            }
        }
        let done = qty == e.qty;
        let (ma, mb) = if opp_side == Side::Bid { (pc - maker_rebate, coin) } else { (coin, pc + maker_rebate) };
        push_event(
            &mut q,
            Event {
                kind: 0,
                side: opp_side as u8,
                done: done as u8,
                slot: e.owner_slot as u8,
                pad: [0; 4],
                owner: e.owner,
                order_id: e.key,
                native_a: ma,
                native_b: mb,
                rebate: maker_rebate,
            },
        )?;
        if done {
            opp.remove_at(best);
        } else {
            opp.entry_mut(best).qty -= qty;
        }
        remaining -= qty;
    }
    // taker settlement
    match o.side {
        Side::Bid => {
            oo.native_pc_total -= paid;
            oo.native_coin_free += recv;
            oo.native_coin_total += recv;
            m.pc_deposits_total -= paid;
            m.coin_deposits_total += recv;
        }
        Side::Ask => {
            oo.native_coin_total -= paid;
            oo.native_pc_free += recv;
            oo.native_pc_total += recv;
            m.coin_deposits_total -= paid;
            m.pc_deposits_total += recv;
        }
    }
    if rebate_total > 0 {
        // credited once the taker's event is consumed
        push_event(
            &mut q,
            Event {
                kind: 2,
                side: o.side as u8,
                done: 0,
                slot: 0,
                pad: [0; 4],
                owner: oo_ai.key.to_bytes(),
                order_id: 0,
                native_a: 0,
                native_b: 0,
                rebate: rebate_total,
            },
        )?;
    }

    // posting; every order gets a slot, which an out event frees if nothing was posted
    let slot = { oo.free_slot_bits }.trailing_zeros();
    if slot >= 128 {
        return Err(err(12));
    }
    let key =
        (limit_price as u128) << 64 | (if o.side == Side::Bid { !seq } else { seq }) as u128;
    oo.free_slot_bits &= !(1u128 << slot);
    if o.side == Side::Bid {
        oo.is_bid_bits |= 1u128 << slot;
    } else {
        oo.is_bid_bits &= !(1u128 << slot);
    }
    oo.orders[slot as usize] = key;
    oo.client_order_ids[slot as usize] = o.client_order_id;
    let mut e = Entry {
        key,
        owner: oo_ai.key.to_bytes(),
        owner_slot: slot as u64,
        qty: 0,
        client_order_id: o.client_order_id,
    };
    let mut still_locked = 0u64;
    if o.order_type != OrderType::ImmediateOrCancel
        && remaining > 0
        && iters > 0
        && !crossed_post_only
    {
        e.qty = match o.side {
            Side::Bid => remaining.min(pay_left / limit_price.saturating_mul(m.pc_lot_size).max(1)),
            Side::Ask => remaining,
        };
    }
    if e.qty > 0 {
        still_locked = locked_native(&m, o.side, &e);
        if !own.insert(e) {
            return Err(err(13));
        }
    } else {
        push_event(&mut q, out_event(o.side, &e, 0))?;
    }
    let unlock = pay_left - still_locked;
    match o.side {
        Side::Bid => oo.native_pc_free += unlock,
        Side::Ask => oo.native_coin_free += unlock,
    }
    Ok(())
}

/// Crank: apply up to `limit` queued events to the open orders accounts. `with_oo` gives mutable
/// access to the data of the account with the given key.
pub fn consume_events(
    eventq: &mut [u8],
    market: &mut [u8],
    limit: usize,
    mut with_oo: impl FnMut(&Pubkey, &mut dyn FnMut(&mut [u8])),
) -> usize {
    let evs = events(eventq);
    let n = evs.len().min(limit);
    let m = market_mut(market);
    for e in &evs[..n] {
        let owner = Pubkey::from(e.owner);
        with_oo(&owner, &mut |d: &mut [u8]| {
            let oo = oo_mut(d);
            match (e.kind, e.side) {
                (2, _) => oo.referrer_rebates_accrued += e.rebate,
                (0, 0) => {
                    oo.native_pc_total -= e.native_a;
                    oo.native_pc_free += e.rebate;
                    oo.native_coin_free += e.native_b;
                    oo.native_coin_total += e.native_b;
                }
                (0, _) => {
                    oo.native_coin_total -= e.native_a;
                    oo.native_pc_free += e.native_b;
                    oo.native_pc_total += e.native_b;
                }
                (_, 0) => oo.native_pc_free += e.native_a,
                (_, _) => oo.native_coin_free += e.native_a,
            }
            if e.done != 0 {
                let mask = 1u128 << e.slot;
                oo.free_slot_bits |= mask;
                oo.is_bid_bits &= !mask;
                oo.orders[e.slot as usize] = 0;
                oo.client_order_ids[e.slot as usize] = 0;
            }
        });
        if e.kind == 2 {
            m.referrer_rebates_accrued += e.rebate;
        }
        if e.kind == 0 {
            if e.side == 0 {
                m.pc_deposits_total -= e.native_a;
                m.coin_deposits_total += e.native_b;
            } else {
                m.coin_deposits_total -= e.native_a;
                m.pc_deposits_total += e.native_b;
            }
        }
    }
    let rest: Vec<Event> = evs[n..].to_vec();
    let raw: &[u8] = bytemuck::cast_slice(&rest);
    eventq[29..29 + raw.len()].copy_from_slice(raw);
    eventq[21..29].copy_from_slice(&(rest.len() as u64).to_le_bytes());
    n
}
