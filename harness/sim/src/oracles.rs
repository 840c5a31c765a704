//! Oracle accounts of every kind the program reads: writing them, and reading them independently of the program.
use crate::svm::Account;
use fixed::types::I80F48;
use mango_v4::state::StubOracle;
use pyth_sdk_solana::state::PriceAccount;
use rand::prelude::*;
use rand_chacha::ChaCha8Rng;
use solana_program::pubkey::Pubkey;
use std::str::FromStr;
use switchboard_on_demand::PullFeedAccountData;
use switchboard_v2::{AggregatorAccountData, SwitchboardDecimal};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Stub,
    Pyth,
    PythV2,
    SbV1,
    SbV2,
    SbOnDemand,
    Orca,
    Raydium,
}
pub const KINDS: [Kind; 8] = [Kind::Stub, Kind::Pyth, Kind::PythV2, Kind::SbV1, Kind::SbV2, Kind::SbOnDemand, Kind::Orca, Kind::Raydium];
pub const FEEDS: [Kind; 5] = [Kind::Pyth, Kind::PythV2, Kind::SbV1, Kind::SbV2, Kind::SbOnDemand];

fn k(s: &str) -> Pubkey {
    Pubkey::from_str(s).unwrap()
}
thread_local! {
    static KEYS: [Pubkey; 10] = [
        k("7azgmy1pFXHikv36q1zZASvFq5vFa39TT9NweVugKKTU"),
        k("DtmE9D2CSB4L5D6A15mraeEjrGMm6auWVzgaD8hK2tZM"),
        k("SBondMDrcV3K4kxZR1HNVT7osZxAHVHgYXL5Ze1oMUv"),
        k("whirLbMiicVdio4qvUfM5KAg6Ct8VwpYzGff3uctyCc"),
        k("CAMMCzo5YL8w4VFF8KVHrK22GGUsp5VTaW7grrKgrWqK"),
        k("rec5EKMGg6MxZYaMdyBfgwp4d5rB9T1VQH5pJv5LtFJ"),
        k("Gnt27xtC473ZT2Mw5u8wZ68Z3gULkSTb5DuxJy7eJotD"),
        k("H6ARHf6YXhGYeQfUzQNGk6rDNnLBQKrenN712K4AQJEG"),
        k("EPjFWdd5AufqSSqeM2qN1xzybapC8G4wEGGkZwyTDt1v"),
        k("So11111111111111111111111111111111111111112"),
    ];
}
fn key(i: usize) -> Pubkey {
    KEYS.with(|k| k[i])
}
pub fn usdc_feed() -> Pubkey {
    key(6)
}
pub fn sol_feed() -> Pubkey {
    key(7)
}
pub fn usdc_mint() -> Pubkey {
    key(8)
}
pub fn sol_mint() -> Pubkey {
    key(9)
}
const STUB: [u8; 8] = [224, 251, 254, 99, 177, 174, 137, 4];
const SB_V2: [u8; 8] = [217, 230, 65, 101, 201, 162, 27, 125];
const ORCA: [u8; 8] = [63, 149, 209, 12, 225, 128, 99, 9];
const RAYDIUM: [u8; 8] = [247, 237, 227, 245, 215, 195, 222, 70];

pub fn kind_of(owner: &Pubkey, d: &[u8]) -> Option<Kind> {
    if d.len() < 8 {
        return None;
    }
    Some(if d[..4] == 0xa1b2c3d4u32.to_le_bytes() {
        Kind::Pyth
    } else if d[..8] == STUB {
        Kind::Stub
    } else if d[..8] == SB_V2 {
        Kind::SbV2
    } else if *owner == key(0) || *owner == key(1) {
        Kind::SbV1
    } else if *owner == key(2) {
        Kind::SbOnDemand
    } else if *owner == key(3) {
        Kind::Orca
    } else if *owner == key(4) {
        Kind::Raydium
    } else if *owner == key(5) {
        Kind::PythV2
    } else {
        return None;
    })
}

// ---------------------------------------------------------------- reading

/// a price of one native token in native USD
#[derive(Clone, Copy, Debug)]
pub struct Reading {
    pub price: I80F48,
    /// None: certain, whatever the price
    pub deviation: Option<I80F48>,
    /// None: always current
    pub slot: Option<u64>,
    pub time: Option<u64>,
}
/// the nearest fixed point value
pub fn ten(d: i32) -> Option<I80F48> {
    if d.abs() > 12 {
        return None;
    }
    let p = 10i128.pow(d.unsigned_abs());
    Some(I80F48::from_bits(if d >= 0 { p << 48 } else { ((1i128 << 48) + p / 2) / p }))
}
fn float(x: f64) -> Option<I80F48> {
    I80F48::checked_from_num(x)
}
fn decimal(d: SwitchboardDecimal) -> Option<f64> {
    let (m, s) = (d.mantissa, d.scale);
    if s > 28 {
        return None;
    }
    format!("{m}e-{s}").parse().ok()
}
fn pyth(d: &[u8], dec: i32) -> Option<Reading> {
    let p: PriceAccount = bytemuck::pod_read_unaligned(d.get(..std::mem::size_of::<PriceAccount>())?);
    if (p.magic, p.ver, p.atype) != (0xa1b2c3d4, 2, 3) {
        return None;
    }
    let (v, c, s) = if p.agg.status.0 == 1 { (p.agg.price, p.agg.conf, p.agg.pub_slot) } else { (p.prev_price, p.prev_conf, p.prev_slot) };
    let e = ten(p.expo.checked_add(6 - dec)?)?;
    let price = I80F48::from_num(v).checked_mul(e)?;
    let deviation = I80F48::from_num(c).checked_mul(e)?;
    (price >= 0).then_some(Reading { price, deviation: Some(deviation), slot: Some(s), time: None })
}
/// None: nothing usable in there (the instruction must fail, whatever the fallbacks). `feed` returns the account of one of
/// the feeds that pools are quoted in, if it was provided.
pub fn read(owner: &Pubkey, d: &[u8], dec: u8, feed: &dyn Fn(&Pubkey) -> Option<Vec<u8>>) -> Option<Reading> {
    let dec = dec as i32;
    let ui = |p: f64, c: f64, slot: u64| {
        let e = ten(6 - dec)?;
        let price = float(p)?.checked_mul(e)?;
        let deviation = float(c)?.checked_mul(e)?;
        (price >= 0).then_some(Reading { price, deviation: Some(deviation), slot: Some(slot), time: None })
    };
    match kind_of(owner, d)? {
        Kind::Stub => {
            if *owner != mango_v4::id() || d.len() < 8 + std::mem::size_of::<StubOracle>() {
                return None;
            }
            let s: StubOracle = bytemuck::pod_read_unaligned(&d[8..8 + std::mem::size_of::<StubOracle>()]);
            Some(Reading {
                price: s.price,
                deviation: (s.deviation != 0).then_some(s.deviation),
                slot: (s.last_update_slot != 0).then_some(s.last_update_slot),
                time: None,
            })
        }
        Kind::Pyth => pyth(d, dec),
        Kind::PythV2 => {
            // only fully verified updates count
            if *d.get(40)? != 1 {
                return None;
            }
            let m = d.get(41..)?;
            fn le<const N: usize>(m: &[u8], o: usize) -> Option<[u8; N]> {
                m.get(o..o + N)?.try_into().ok()
            }
            let price = i64::from_le_bytes(le(m, 32)?);
            let conf = u64::from_le_bytes(le(m, 40)?);
            let expo = i32::from_le_bytes(le(m, 48)?);
            let time = i64::from_le_bytes(le(m, 52)?);
            let slot = u64::from_le_bytes(le(m, 84)?);
            let e = ten(expo.checked_add(6 - dec)?)?;
            let price = I80F48::from_num(price).checked_mul(e)?;
            let deviation = I80F48::from_num(conf).checked_mul(e)?;
            (price >= 0).then_some(Reading { price, deviation: Some(deviation), slot: Some(slot), time: Some(time as u64) })
        }
        Kind::SbV1 => {
            if d.len() < 81 || d[0] != 5 {
                return None;
            }
            let at = |o: usize| f64::from_le_bytes(d[o..o + 8].try_into().unwrap());
            ui(at(41), at(73) - at(65), u64::from_le_bytes(d[49..57].try_into().unwrap()))
        }
        Kind::SbV2 => {
            let n = std::mem::size_of::<AggregatorAccountData>();
            if d.len() != 8 + n {
                return None;
            }
            let a: AggregatorAccountData = bytemuck::pod_read_unaligned(&d[8..]);
            if a.resolution_mode != 1 && { a.latest_confirmed_round.num_success } < { a.min_oracle_results } {
                return None;
            }
            let r = a.latest_confirmed_round;
            ui(decimal(r.result)?, decimal(r.std_deviation)?, r.round_open_slot)
        }
        Kind::SbOnDemand => {
            let n = std::mem::size_of::<PullFeedAccountData>();
            if d.len() != 8 + n {
                return None;
            }
            let a: PullFeedAccountData = bytemuck::pod_read_unaligned(&d[8..]);
            if a.result.slot == 0 {
                return None;
            }
            let f = |x: i128| format!("{x}e-18").parse::<f64>().ok();
            ui(f(a.result.value)?, f(a.result.std_dev)?, a.result.min_slot)
        }
        x @ (Kind::Orca | Kind::Raydium) => {
            let (disc, len, own, at, ma, mb) =
                if x == Kind::Orca { (ORCA, 653, key(3), 65, 101, 181) } else { (RAYDIUM, 1544, key(4), 253, 73, 105) };
            if d[..8] != disc || d.len() != len || *owner != own {
                return None;
            }
            let sqrt = u128::from_le_bytes(d[at..at + 16].try_into().unwrap());
            let mint = |o: usize| Pubkey::new_from_array(d[o..o + 32].try_into().unwrap());
            let (a, b) = (mint(ma), mint(mb));
            // quoted in USDC, else in SOL, whichever side that is
            let inverted = a == usdc_mint() || a == sol_mint() && b != usdc_mint();
            let quote = if inverted { a } else { b };
            let (fk, fd) = if quote == usdc_mint() {
                (usdc_feed(), 6)
            } else if quote == sol_mint() {
                (sol_feed(), 9)
            } else {
                return None;
            };
            let q = pyth(&feed(&fk)?, fd)?;
            let s = sqrt as f64 / 2f64.powi(64);
            let p = if inverted {
                float(1.0 / (s * s))?
            } else {
                let x = fixed::types::U64F64::from_bits(sqrt);
                I80F48::checked_from_num(x.checked_mul(x)?)?
            };
            Some(Reading { price: p.checked_mul(q.price)?, deviation: Some(p.checked_mul(q.deviation?)?), slot: q.slot, time: None })
        }
    }
}

// ---------------------------------------------------------------- writing

#[derive(Clone, Copy, Debug)]
pub struct Feed {
    /// native USD for one native token
    pub price: f64,
    /// as a fraction of the price
    pub dev: f64,
    pub slot: u64,
    pub time: i64,
    /// something about it makes it not count (or count differently): 0 = nothing
    pub odd: u8,
}
fn pyth_account(mantissa: i64, conf: u64, expo: i32, slot: u64, time: i64, odd: u8) -> Account {
    let mut p: PriceAccount = bytemuck::Zeroable::zeroed();
    (p.magic, p.ver, p.atype, p.expo) = (0xa1b2c3d4, 2, 3, expo);
    p.last_slot = slot;
    p.valid_slot = slot.saturating_sub(1);
    (p.agg.price, p.agg.conf, p.agg.status.0, p.agg.pub_slot) = (mantissa, conf, 1, slot);
    p.timestamp = time;
    // an earlier price, of little worth
    (p.prev_price, p.prev_conf, p.prev_slot) = (mantissa / 2, conf.saturating_mul(2), slot.saturating_sub(200));
    match odd {
        1 => {
            // not trading: the earlier one counts
            p.agg.status.0 = 3;
            (p.prev_price, p.prev_conf, p.prev_slot) = (mantissa, conf, slot);
            (p.agg.price, p.agg.conf, p.agg.pub_slot) = (mantissa.saturating_mul(3), conf / 2, slot.saturating_add(50));
        }
        2 => p.agg.status.0 = 2,
        3 => p.agg.price = -mantissa.abs().max(1),
        4 => p.ver = 1,
        5 => p.atype = 2,
        _ => {}
    }
    Account { lamports: 1 << 40, data: bytemuck::bytes_of(&p).to_vec(), owner: k("FsJ3A3u2vn5cTVofAjvy6y5kwABJAqYWpe4975bi2epH"), executable: false }
}
fn mantissa(ui: f64, expo: i32) -> i64 {
    (ui * 10f64.powi(-expo)).round() as i64
}
/// an exponent that keeps about ten digits and stays within what the program can scale
fn expo(ui: f64, dec: i32) -> i32 {
    let e = (ui.max(1e-30).log10().floor() as i32 - 10).clamp(-12 + dec - 6, 12 + dec - 6);
    e.min(0)
}
pub fn account(kind: Kind, dec: u8, x: &Feed, mint: &Pubkey, r: &mut ChaCha8Rng) -> Account {
    let dec = dec as i32;
    let ui = x.price * 10f64.powi(dec - 6);
    let mk = |owner: Pubkey, data: Vec<u8>| Account { lamports: 1 << 40, data, owner, executable: false };
    match kind {
        Kind::Stub => {
            let mut s: StubOracle = bytemuck::Zeroable::zeroed();
            s.price = I80F48::saturating_from_num(x.price);
            s.deviation = I80F48::saturating_from_num(x.price * x.dev);
            s.last_update_slot = x.slot;
            s.mint = *mint;
            let mut d = STUB.to_vec();
            d.extend_from_slice(bytemuck::bytes_of(&s));
            mk(if x.odd == 4 { key(5) } else { mango_v4::id() }, d)
        }
        Kind::Pyth => {
            let e = expo(ui, dec);
            pyth_account(mantissa(ui, e), mantissa(ui * x.dev, e) as u64, e, x.slot, x.time, x.odd)
        }
        Kind::PythV2 => {
            let e = expo(ui, dec);
            let mut d: Vec<u8> = r.gen::<[u8; 8]>().to_vec();
            d[0] |= 1;
            d.extend([7u8; 32]);
            if x.odd == 1 {
                d.extend([0u8, 5]);
            } else {
                d.push(1);
            }
            d.extend([9u8; 32]);
            let m = mantissa(ui, e);
            d.extend((if x.odd == 3 { -m.max(1) } else { m }).to_le_bytes());
            d.extend((mantissa(ui * x.dev, e) as u64).to_le_bytes());
            d.extend(e.to_le_bytes());
            d.extend(x.time.to_le_bytes());
            d.extend((x.time - 1).to_le_bytes());
            d.extend((m / 2).to_le_bytes());
            d.extend(1u64.to_le_bytes());
            d.extend(x.slot.to_le_bytes());
            d.resize(134, 0);
            mk(key(5), d)
        }
        Kind::SbV1 => {
            let mut d = vec![0u8; 89];
            d[0] = if x.odd == 1 { 6 } else { 5 };
            d[33..37].copy_from_slice(&5i32.to_le_bytes());
            d[41..49].copy_from_slice(&(if x.odd == 3 { -ui } else { ui }).to_le_bytes());
            d[49..57].copy_from_slice(&x.slot.to_le_bytes());
            d[57..65].copy_from_slice(&x.time.to_le_bytes());
            let lo = r.gen_range(0.0..1.0);
            d[65..73].copy_from_slice(&(ui * (1.0 - x.dev * lo)).to_le_bytes());
            d[73..81].copy_from_slice(&(ui * (1.0 + x.dev * (1.0 - lo))).to_le_bytes());
            mk(key(r.gen_range(0..2)), d)
        }
        Kind::SbV2 => {
            let mut a: AggregatorAccountData = bytemuck::Zeroable::zeroed();
            let sc: u32 = if ui < 1e-3 { 18 } else { 9 };
            let m = |v: f64| SwitchboardDecimal::new((v * 10f64.powi(sc as i32)).round() as i128, sc);
            let mut rd = a.latest_confirmed_round;
            rd.num_success = 5;
            rd.result = m(if x.odd == 3 { -ui } else { ui });
            rd.std_deviation = m(ui * x.dev);
            rd.min_response = m(ui * 0.5);
            rd.max_response = m(ui * 2.0);
            rd.round_open_slot = x.slot;
            rd.round_open_timestamp = x.time;
            a.min_oracle_results = if x.odd == 1 || x.odd == 2 { 6 } else { r.gen_range(0..6) };
            a.resolution_mode = (x.odd == 2) as u8;
            a.latest_confirmed_round = rd;
            rd.result = m(ui * 3.0);
            rd.round_open_slot = x.slot.saturating_add(40);
            a.current_round = rd;
            a.previous_confirmed_round_result = m(ui / 3.0);
            let mut d = SB_V2.to_vec();
            d.extend_from_slice(bytemuck::bytes_of(&a));
            mk(k("SW1TCH7qEPTdLsDHRgPuMQjbQxKdH2aBStViMFnt64f"), d)
        }
        Kind::SbOnDemand => {
            let mut a: PullFeedAccountData = bytemuck::Zeroable::zeroed();
            let m = |v: f64| (v * 1e18).round() as i128;
            a.result.value = m(if x.odd == 3 { -ui } else { ui });
            a.result.std_dev = m(ui * x.dev);
            a.result.mean = m(ui * 1.5);
            a.result.range = m(ui * 0.7);
            a.result.min_slot = x.slot;
            a.result.slot = if x.odd == 1 { 0 } else { x.slot.saturating_add(30) };
            a.result.max_slot = x.slot.saturating_add(60);
            a.last_update_timestamp = x.time;
            let mut d = vec![196, 27, 108, 196, 10, 215, 219, 40];
            d.extend_from_slice(bytemuck::bytes_of(&a));
            mk(key(2), d)
        }
        Kind::Orca | Kind::Raydium => {
            // the slot and deviation are the quote feed's: see `quote_feed`; the price is in units of that quote
            let (disc, len, own, at, ma, mb) =
                if kind == Kind::Orca { (ORCA, 653, key(3), 65, 101, 181) } else { (RAYDIUM, 1544, key(4), 253, 73, 105) };
            let mut d = vec![0u8; len];
            d[..8].copy_from_slice(&disc);
            let in_sol = x.odd & 8 != 0;
            let quote = if in_sol { sol_mint() } else { usdc_mint() };
            let unit = if in_sol { 0.15 } else { 1.0 };
            let inverted = x.odd & 16 != 0;
            let p = (x.price / unit).max(1e-30);
            let s = if inverted { 1.0 / p } else { p }.sqrt();
            d[at..at + 16].copy_from_slice(&((s * 2f64.powi(64)) as u128).to_le_bytes());
            let (a, b) = if inverted { (quote, *mint) } else { (*mint, quote) };
            d[ma..ma + 32].copy_from_slice(a.as_ref());
            d[mb..mb + 32].copy_from_slice(b.as_ref());
            match x.odd & 7 {
                1 => d[0] ^= 1,
                2 => drop(d.pop()),
                3 => d[mb..mb + 32].copy_from_slice(&[3; 32]),
                _ => {}
            }
            mk(own, d)
        }
    }
}
/// the feed pools are quoted in; `price` is relative to the usual one
pub fn quote_feed(sol: bool, x: &Feed) -> Account {
    let ui = if sol { 150.0 } else { 1.0 } * x.price;
    pyth_account(mantissa(ui, -8), mantissa(ui * x.dev, -8) as u64, -8, x.slot, x.time, x.odd)
}
