//! The monitors' own reading of on-chain state.
//!
//! Only struct layouts (the account ABI) are taken from the program; none of its methods are used,
//! so that a wrong method does not make the monitor wrong in the same way.
use crate::svm::{Acc, Accounts};
use fixed::types::I80F48;
use mango_v4::state::{
    Bank, Group, MangoAccountFixed, MintInfo, PerpMarket, PerpOpenOrder, PerpPosition, Serum3Market,
    Serum3Orders, StubOracle, TokenConditionalSwap, TokenPosition,
};
use num_bigint::BigInt;
use solana_program::pubkey::Pubkey;
use std::cell::{OnceCell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type BT = BTreeMap<Pubkey, ()>;

/// exact value of a fixed point number, in units of 2^-48
pub fn bits(x: I80F48) -> BigInt {
    BigInt::from(x.to_bits())
}
pub fn f(x: I80F48) -> f64 {
    x.to_bits() as f64 / (1u64 << 48) as f64
}

#[derive(Clone)]
pub struct MAcc {
    pub key: Pubkey,
    pub fx: MangoAccountFixed,
    pub being_liquidated: u8,
    pub in_health_region: u8,
    pub header_version: u8,
    pub tokens: Vec<TokenPosition>,
    pub serum3: Vec<Serum3Orders>,
    pub perps: Vec<PerpPosition>,
    pub oos: Vec<PerpOpenOrder>,
    pub tcs: Vec<TokenConditionalSwap>,
}
pub const FREE16: u16 = u16::MAX;

pub fn quote_position(p: &PerpPosition) -> I80F48 {
    // private field: read through its layout
    let b: &[u8] = bytemuck::bytes_of(p);
    I80F48::from_bits(i128::from_le_bytes(b[PP_QUOTE..PP_QUOTE + 16].try_into().unwrap()))
}
pub fn base_lots(p: &PerpPosition) -> i64 {
    let b: &[u8] = bytemuck::bytes_of(p);
    i64::from_le_bytes(b[PP_BASE..PP_BASE + 8].try_into().unwrap())
}
const PP_BASE: usize = 16;
const PP_QUOTE: usize = 24;

impl MAcc {
    pub fn decode(key: Pubkey, data: &[u8]) -> Option<MAcc> {
        let fixed_len = std::mem::size_of::<MangoAccountFixed>();
        if data.len() < 8 + fixed_len + 8 {
            return None;
        }
        let fx: MangoAccountFixed = bytemuck::pod_read_unaligned(&data[8..8 + fixed_len]);
        let mut o = 8 + fixed_len;
        let header_version = data[o];
        o += 8;
        fn vecs<T: bytemuck::Pod>(d: &[u8], o: &mut usize) -> Option<Vec<T>> {
            if *o + 8 > d.len() {
                return None;
            }
            let n = u32::from_le_bytes(d[*o + 4..*o + 8].try_into().unwrap()) as usize;
            *o += 8;
            let sz = std::mem::size_of::<T>();
            let mut v = vec![];
            for _ in 0..n {
                if *o + sz > d.len() {
                    return None;
                }
                v.push(bytemuck::pod_read_unaligned(&d[*o..*o + sz]));
                *o += sz;
            }
            Some(v)
        }
        let tokens = vecs(data, &mut o)?;
        let serum3 = vecs(data, &mut o)?;
        let perps = vecs(data, &mut o)?;
        let oos = vecs(data, &mut o)?;
        // accounts that were not migrated have no conditional swap section
        let tcs = vecs(data, &mut o).unwrap_or_default();
        Some(MAcc {
            key,
            fx,
            being_liquidated: data[8 + 132],
            in_health_region: data[8 + 133],
            header_version,
            tokens,
            serum3,
            perps,
            oos,
            tcs,
        })
    }
    pub fn tok(&self, idx: u16) -> Option<&TokenPosition> {
        self.tokens.iter().find(|t| t.token_index == idx)
    }
    pub fn active_tokens(&self) -> impl Iterator<Item = &TokenPosition> {
        self.tokens.iter().filter(|t| t.token_index != FREE16)
    }
    pub fn active_serum(&self) -> impl Iterator<Item = &Serum3Orders> {
        self.serum3.iter().filter(|t| t.market_index != FREE16)
    }
    pub fn active_perps(&self) -> impl Iterator<Item = &PerpPosition> {
        self.perps.iter().filter(|t| t.market_index != FREE16)
    }
    pub fn perp(&self, idx: u16) -> Option<&PerpPosition> {
        self.active_perps().find(|p| p.market_index == idx)
    }
    pub fn active_oos(&self) -> impl Iterator<Item = (usize, &PerpOpenOrder)> {
        self.oos.iter().enumerate().filter(|(_, o)| o.market != FREE16)
    }
    pub fn active_tcs(&self) -> impl Iterator<Item = &TokenConditionalSwap> {
        self.tcs.iter().filter(|t| t.is_configured == 1)
    }
}

#[derive(Clone)]
pub struct Lazy<T> {
    pub acc: Acc,
    cell: Rc<OnceCell<T>>,
}
impl<T> Lazy<T> {
    fn new(acc: Acc) -> Self {
        Lazy { acc, cell: Rc::new(OnceCell::new()) }
    }
    pub fn get(&self, f: impl FnOnce(&[u8]) -> T) -> &T {
        self.cell.get_or_init(|| f(&self.acc.data))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Leaf {
    pub node: u32,
    pub tree: u8, // 0 fixed, 1 pegged
    pub owner_slot: u8,
    pub order_type: u8,
    pub time_in_force: u16,
    pub key: u128,
    pub owner: Pubkey,
    pub quantity: i64,
    pub timestamp: u64,
    pub peg_limit: i64,
    pub client_order_id: u64,
}
impl Leaf {
    pub fn price_data(&self) -> u64 {
        (self.key >> 64) as u64
    }
    pub fn expiry(&self) -> u64 {
        if self.time_in_force == 0 {
            u64::MAX
        } else {
            self.timestamp + self.time_in_force as u64
        }
    }
    pub fn expired(&self, now: u64) -> bool {
        self.time_in_force > 0 && now >= self.timestamp + self.time_in_force as u64
    }
    pub fn peg_offset(&self) -> i64 {
        self.price_data().wrapping_sub(1u64 << 63) as i64
    }
    /// None: peg not tradable at the moment
    pub fn price(&self, bid: bool, oracle: i64) -> Option<i64> {
        if self.tree == 0 {
            return Some(self.price_data() as i64);
        }
        let p = oracle as i128 + self.peg_offset() as i128;
        if p < 1 || p > i64::MAX as i128 {
            return None;
        }
        let p = p as i64;
        if self.peg_limit != -1 && (if bid { p > self.peg_limit } else { p < self.peg_limit }) {
            return None;
        }
        Some(p)
    }
    pub fn seq(&self) -> u64 {
        self.key as u64
    }
}

/// One side of a book, read by walking the raw nodes.
#[derive(Clone, Default)]
pub struct Book {
    pub side: u8,
    pub leaves: Vec<Leaf>,
    pub errors: Vec<String>,
    pub nodes_used: usize,
    pub free: usize,
    pub bump: usize,
    pub cap: usize,
}
pub const NODE: usize = 120;
pub const BOOK_NODES_OFF: usize = 8 + 8 * 6 + 256 + 16 + 512;
pub fn parse_book(d: &[u8]) -> Book {
    let mut b = Book::default();
    let u32at = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap());
    let u64at = |o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap());
    let i64at = |o: usize| i64::from_le_bytes(d[o..o + 8].try_into().unwrap());
    let u128at = |o: usize| u128::from_le_bytes(d[o..o + 16].try_into().unwrap());
    let hdr = 8 + 8 * 6 + 256;
    b.side = d[hdr];
    let bump = u32at(hdr + 4) as usize;
    let free_len = u32at(hdr + 8) as usize;
    let free_head = u32at(hdr + 12);
    let cap = (d.len() - BOOK_NODES_OFF) / NODE;
    b.free = free_len;
    b.bump = bump;
    b.cap = cap;
    let mut state = vec![0u8; bump.min(cap)]; // 0 unseen 1 tree 2 free
    if bump > cap {
        b.errors.push(format!("bump index {bump} beyond capacity {cap}"));
        return b;
    }
    for tree in 0..2u8 {
        let root = u32at(8 + 8 * tree as usize);
        let count = u32at(8 + 8 * tree as usize + 4);
        let mut leaves = 0u32;
        if count == 0 {
            continue;
        }
        // (node, prefix constraint: (key, len), expected earliest expiry reported by parent)
        let mut stack: Vec<(u32, u128, u32, Option<u64>)> = vec![(root, 0, 0, None)];
        fn earliest(d: &[u8], n: u32, depth: u32) -> u64 {
            let o = BOOK_NODES_OFF + n as usize * NODE;
            if depth > 200 || o + NODE > d.len() {
                return u64::MAX;
            }
            match d[o] {
                2 => {
                    let tif = u16::from_le_bytes(d[o + 4..o + 6].try_into().unwrap());
                    let ts = u64::from_le_bytes(d[o + 64..o + 72].try_into().unwrap());
                    if tif == 0 {
                        u64::MAX
                    } else {
                        ts + tif as u64
                    }
                }
                1 => {
                    let l = u32::from_le_bytes(d[o + 24..o + 28].try_into().unwrap());
                    let r = u32::from_le_bytes(d[o + 28..o + 32].try_into().unwrap());
                    earliest(d, l, depth + 1).min(earliest(d, r, depth + 1))
                }
                _ => u64::MAX,
            }
        }
        while let Some((n, pkey, plen, exp)) = stack.pop() {
            if n as usize >= state.len() {
                b.errors.push(format!("node {n} out of range"));
                continue;
            }
            if state[n as usize] != 0 {
                b.errors.push(format!("node {n} reached twice"));
                continue;
            }
            state[n as usize] = 1;
            b.nodes_used += 1;
            let o = BOOK_NODES_OFF + n as usize * NODE;
            let tag = d[o];
            let key = u128at(o + 8);
            let prefix_ok = plen == 0 || (key ^ pkey) >> (128 - plen) == 0;
            if !prefix_ok {
                b.errors.push(format!("node {n} does not share its parent's {plen} bit prefix"));
            }
            if let Some(e) = exp {
                let real = earliest(d, n, 0);
                if e != real {
                    b.errors.push(format!("node {n}: parent says earliest expiry {e}, is {real}"));
                }
            }
            match tag {
                1 => {
                    let plen2 = u32at(o + 4);
                    if plen2 < plen || plen2 >= 128 {
                        b.errors.push(format!("inner node {n} prefix len {plen2} under {plen}"));
                        continue;
                    }
                    let crit = 127 - plen2;
                    // right first so that the left is visited first
                    for side in [1u128, 0] {
                        let child = u32at(o + 24 + 4 * side as usize);
                        let base = if plen2 == 0 { 0 } else { key >> (128 - plen2) << (128 - plen2) };
                        let want = base | (side << crit);
                        stack.push((child, want, plen2 + 1, Some(u64at(o + 32 + 8 * side as usize))));
                    }
                }
                2 => {
                    leaves += 1;
                    b.leaves.push(Leaf {
                        node: n,
                        tree,
                        owner_slot: d[o + 1],
                        order_type: d[o + 2],
                        time_in_force: u16::from_le_bytes(d[o + 4..o + 6].try_into().unwrap()),
                        key,
                        owner: Pubkey::new_from_array(d[o + 24..o + 56].try_into().unwrap()),
                        quantity: i64at(o + 56),
                        timestamp: u64at(o + 64),
                        peg_limit: i64at(o + 72),
                        client_order_id: u64at(o + 80),
                    });
                }
                t => b.errors.push(format!("node {n} has tag {t} inside the tree")),
            }
        }
        if leaves != count {
            b.errors.push(format!("tree {tree} leaf count {count}, found {leaves}"));
        }
    }
    let mut n = free_head;
    let mut seen = 0;
    for _ in 0..free_len {
        if n as usize >= state.len() {
            b.errors.push(format!("free node {n} out of range"));
            break;
        }
        if state[n as usize] != 0 {
            b.errors.push(format!("free node {n} is in use or listed twice"));
            break;
        }
        state[n as usize] = 2;
        seen += 1;
        let o = BOOK_NODES_OFF + n as usize * NODE;
        if d[o] != 3 && d[o] != 4 {
            b.errors.push(format!("free node {n} has tag {}", d[o]));
        }
        n = u32at(o + 4);
    }
    if b.nodes_used + seen != bump {
        b.errors.push(format!("{} nodes in trees + {seen} free != {bump} allocated", b.nodes_used));
    }
    b
}

#[derive(Clone, Debug, PartialEq)]
pub struct FillEv {
    pub taker_side: u8,
    pub maker_out: bool,
    pub maker_slot: u8,
    pub timestamp: u64,
    pub seq: u64,
    pub maker: Pubkey,
    pub maker_timestamp: u64,
    pub taker: Pubkey,
    pub taker_client_id: u64,
    pub maker_order_id: u128,
    pub price: i64,
    pub quantity: i64,
    pub maker_client_id: u64,
    pub maker_fee: f32,
    pub taker_fee: f32,
}
#[derive(Clone, Debug, PartialEq)]
pub struct OutEv {
    pub side: u8,
    pub owner_slot: u8,
    pub timestamp: u64,
    pub seq: u64,
    pub owner: Pubkey,
    pub quantity: i64,
    pub order_id: u128,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Fill(FillEv),
    Out(OutEv),
    Other(u8),
}
impl Ev {
    pub fn seq(&self) -> u64 {
        match self {
            Ev::Fill(f) => f.seq,
            Ev::Out(o) => o.seq,
            _ => u64::MAX,
        }
    }
}
#[derive(Clone, Default)]
pub struct Queue {
    pub head: u32,
    pub count: u32,
    pub seq: u64,
    pub events: Vec<Ev>,
    pub cap: usize,
    pub errors: Vec<String>,
}
pub const EV: usize = 208;
pub fn parse_event(e: &[u8]) -> Ev {
    use mango_v4::state::{FillEvent, OutEvent};
    match e[0] {
        0 => {
            let x: FillEvent = bytemuck::pod_read_unaligned(e);
            Ev::Fill(FillEv {
                taker_side: x.taker_side,
                maker_out: x.maker_out != 0,
                maker_slot: x.maker_slot,
                timestamp: x.timestamp,
                seq: x.seq_num,
                maker: x.maker,
                maker_timestamp: x.maker_timestamp,
                taker: x.taker,
                taker_client_id: x.taker_client_order_id,
                maker_order_id: x.maker_order_id,
                price: x.price,
                quantity: x.quantity,
                maker_client_id: x.maker_client_order_id,
                maker_fee: x.maker_fee,
                taker_fee: x.taker_fee,
            })
        }
        1 => {
            let x: OutEvent = bytemuck::pod_read_unaligned(e);
            Ev::Out(OutEv {
                side: x.side,
                owner_slot: x.owner_slot,
                timestamp: x.timestamp,
                seq: x.seq_num,
                owner: x.owner,
                quantity: x.quantity,
                order_id: x.order_id,
            })
        }
        t => Ev::Other(t),
    }
}
pub fn parse_queue(d: &[u8]) -> Queue {
    let u32at = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap());
    let mut q = Queue {
        head: u32at(8),
        count: u32at(12),
        seq: u64::from_le_bytes(d[16..24].try_into().unwrap()),
        cap: (d.len() - 24 - 64) / EV,
        ..Default::default()
    };
    if q.count as usize > q.cap || q.head as usize >= q.cap {
        q.errors.push(format!("head {} count {} capacity {}", q.head, q.count, q.cap));
        return q;
    }
    for i in 0..q.count as usize {
        let k = (q.head as usize + i) % q.cap;
        q.events.push(parse_event(&d[24 + k * EV..24 + (k + 1) * EV]));
    }
    q
}

/// Serum open orders as the monitors read it
#[derive(Clone, Debug, PartialEq)]
pub struct OO {
    pub market: Pubkey,
    pub owner: Pubkey,
    pub coin_free: u64,
    pub coin_total: u64,
    pub pc_free: u64,
    pub pc_total: u64,
    pub rebates: u64,
    pub orders: Vec<(u8, u128, u64)>, // slot, id, client id
    pub bid_bits: u128,
}
pub fn parse_oo(d: &[u8]) -> Option<OO> {
    if d.len() != 12 + std::mem::size_of::<serum_dex::state::OpenOrders>() || &d[..5] != b"serum" {
        return None;
    }
    let o: serum_dex::state::OpenOrders = bytemuck::pod_read_unaligned(&d[5..d.len() - 7]);
    let (fs, bb, ids, cids) = (o.free_slot_bits, o.is_bid_bits, o.orders, o.client_order_ids);
    let m: [u64; 4] = o.market;
    let ow: [u64; 4] = o.owner;
    let mut orders = vec![];
    for i in 0..128usize {
        if fs & (1u128 << i) == 0 && ids[i] != 0 {
            orders.push((i as u8, ids[i], cids[i]));
        }
    }
    Some(OO {
        market: Pubkey::new_from_array(bytemuck::cast(m)),
        owner: Pubkey::new_from_array(bytemuck::cast(ow)),
        coin_free: o.native_coin_free,
        coin_total: o.native_coin_total,
        pc_free: o.native_pc_free,
        pc_total: o.native_pc_total,
        rebates: o.referrer_rebates_accrued,
        orders,
        bid_bits: bb,
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Tok {
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
}
pub fn parse_token(a: &Acc) -> Option<Tok> {
    if a.owner != spl_token::id() || a.data.len() != 165 || a.data[108] == 0 {
        return None;
    }
    Some(Tok {
        mint: Pubkey::new_from_array(a.data[0..32].try_into().unwrap()),
        owner: Pubkey::new_from_array(a.data[32..64].try_into().unwrap()),
        amount: u64::from_le_bytes(a.data[64..72].try_into().unwrap()),
    })
}

/// A decoded account
#[derive(Clone)]
pub enum Dec {
    Group(Rc<Group>),
    Bank(Rc<Bank>),
    MintInfo(Rc<MintInfo>),
    Account(Rc<MAcc>),
    Perp(Rc<PerpMarket>),
    Serum(Rc<Serum3Market>),
    Stub(Rc<StubOracle>),
    Book(Lazy<Book>),
    Queue(Lazy<Queue>),
    Token(Tok),
    OO(Rc<OO>),
    Other(Acc),
}

pub fn discriminators() -> &'static HashMap<[u8; 8], &'static str> {
    use std::sync::OnceLock;
    static D: OnceLock<HashMap<[u8; 8], &'static str>> = OnceLock::new();
    D.get_or_init(|| {
        let mut m = HashMap::new();
        for n in [
            "Group", "Bank", "MintInfo", "MangoAccount", "PerpMarket", "Serum3Market", "StubOracle",
            "BookSide", "EventQueue", "Serum3MarketIndexReservation", "OpenbookV2Market",
        ] {
            let h = solana_program::hash::hash(format!("account:{n}").as_bytes()).to_bytes();
            m.insert(h[..8].try_into().unwrap(), n);
        }
        m
    })
}

fn pod<T: bytemuck::Pod>(d: &[u8]) -> Option<Rc<T>> {
    let n = std::mem::size_of::<T>();
    if d.len() < 8 + n {
        return None;
    }
    Some(Rc::new(bytemuck::pod_read_unaligned(&d[8..8 + n])))
}

pub fn decode(key: Pubkey, a: &Acc) -> Dec {
    if a.owner == mango_v4::id() && a.data.len() >= 8 {
        let disc: [u8; 8] = a.data[..8].try_into().unwrap();
        let d = &a.data;
        let r = match discriminators().get(&disc).copied() {
            Some("Group") => pod(d).map(Dec::Group),
            Some("Bank") => pod(d).map(Dec::Bank),
            Some("MintInfo") => pod(d).map(Dec::MintInfo),
            Some("MangoAccount") => MAcc::decode(key, d).map(|m| Dec::Account(Rc::new(m))),
            Some("PerpMarket") => pod(d).map(Dec::Perp),
            Some("Serum3Market") => pod(d).map(Dec::Serum),
            Some("StubOracle") => pod(d).map(Dec::Stub),
            Some("BookSide") => Some(Dec::Book(Lazy::new(a.clone()))),
            Some("EventQueue") => Some(Dec::Queue(Lazy::new(a.clone()))),
            _ => None,
        };
        return r.unwrap_or_else(|| Dec::Other(a.clone()));
    }
    if let Some(t) = parse_token(a) {
        return Dec::Token(t);
    }
    if let Some(o) = parse_oo(&a.data) {
        return Dec::OO(Rc::new(o));
    }
    Dec::Other(a.clone())
}

/// All decoded accounts at one point of the history
#[derive(Clone, Default)]
pub struct State {
    pub raw: Accounts,
    pub groups: BTreeMap<Pubkey, Rc<Group>>,
    pub banks: BTreeMap<Pubkey, Rc<Bank>>,
    pub mints: BTreeMap<Pubkey, Rc<MintInfo>>,
    pub accounts: BTreeMap<Pubkey, Rc<MAcc>>,
    pub perps: BTreeMap<Pubkey, Rc<PerpMarket>>,
    pub serum: BTreeMap<Pubkey, Rc<Serum3Market>>,
    pub stubs: BTreeMap<Pubkey, Rc<StubOracle>>,
    pub books: BTreeMap<Pubkey, Lazy<Book>>,
    pub queues: BTreeMap<Pubkey, Lazy<Queue>>,
    pub tokens: BTreeMap<Pubkey, Tok>,
    pub oos: BTreeMap<Pubkey, Rc<OO>>,
}

impl State {
    fn drop_key(&mut self, k: &Pubkey) {
        self.groups.remove(k);
        self.banks.remove(k);
        self.mints.remove(k);
        self.accounts.remove(k);
        self.perps.remove(k);
        self.serum.remove(k);
        self.stubs.remove(k);
        self.books.remove(k);
        self.queues.remove(k);
        self.tokens.remove(k);
        self.oos.remove(k);
    }
    pub fn put(&mut self, k: Pubkey, a: &Acc) {
        self.raw.insert(k, a.clone());
        match decode(k, a) {
            Dec::Group(x) => drop(self.groups.insert(k, x)),
            Dec::Bank(x) => drop(self.banks.insert(k, x)),
            Dec::MintInfo(x) => drop(self.mints.insert(k, x)),
            Dec::Account(x) => drop(self.accounts.insert(k, x)),
            Dec::Perp(x) => drop(self.perps.insert(k, x)),
            Dec::Serum(x) => drop(self.serum.insert(k, x)),
            Dec::Stub(x) => drop(self.stubs.insert(k, x)),
            Dec::Book(x) => drop(self.books.insert(k, x)),
            Dec::Queue(x) => drop(self.queues.insert(k, x)),
            Dec::Token(x) => drop(self.tokens.insert(k, x)),
            Dec::OO(x) => drop(self.oos.insert(k, x)),
            Dec::Other(_) => self.drop_key(&k),
        }
    }
    /// bring up to date with `accounts`
    pub fn sync(&mut self, accounts: &Accounts) {
        let gone: Vec<Pubkey> =
            self.raw.keys().filter(|k| !accounts.contains_key(*k)).cloned().collect();
        for k in gone {
            self.raw.remove(&k);
            self.drop_key(&k);
        }
        let changed: Vec<(Pubkey, Acc)> = accounts
            .iter()
            .filter(|(k, a)| self.raw.get(*k).map_or(true, |b| !Rc::ptr_eq(a, b)))
            .map(|(k, a)| (*k, a.clone()))
            .collect();
        for (k, a) in changed {
            if let Some(b) = self.raw.get(&k) {
                if **b == *a {
                    self.raw.insert(k, a);
                    continue;
                }
            }
            self.put(k, &a);
        }
    }
    /// the state after one instruction that was handed `post`
    pub fn after(&self, pre: &[(Pubkey, Acc)], post: &[(Pubkey, Acc)]) -> State {
        let mut s = self.clone();
        for ((k, a), (_, b)) in pre.iter().zip(post) {
            if Rc::ptr_eq(a, b) || **a == **b {
                continue;
            }
            if b.lamports == 0 && b.data.is_empty() {
                s.raw.remove(k);
                s.drop_key(k);
            } else {
                s.put(*k, b);
            }
        }
        s
    }

    pub fn bank0(&self, group: &Pubkey, token_index: u16) -> Option<(&Pubkey, &Rc<Bank>)> {
        self.banks
            .iter()
            .filter(|(_, b)| b.group == *group && b.token_index == token_index)
            .min_by_key(|(_, b)| b.bank_num)
    }
    pub fn banks_of(&self, group: Pubkey, token_index: u16) -> Vec<(Pubkey, Rc<Bank>)> {
        self.banks
            .iter()
            .filter(|(_, b)| b.group == group && b.token_index == token_index)
            .map(|(k, b)| (*k, b.clone()))
            .collect()
    }
    pub fn perp_by_index(&self, group: &Pubkey, idx: u16) -> Option<(&Pubkey, &Rc<PerpMarket>)> {
        self.perps.iter().find(|(_, p)| p.group == *group && p.perp_market_index == idx)
    }
    pub fn book(&self, k: &Pubkey) -> Option<&Book> {
        self.books.get(k).map(|l| l.get(parse_book))
    }
    pub fn queue(&self, k: &Pubkey) -> Option<&Queue> {
        self.queues.get(k).map(|l| l.get(parse_queue))
    }
    pub fn tok_amount(&self, k: &Pubkey) -> u64 {
        self.tokens.get(k).map_or(0, |t| t.amount)
    }
}

/// exact native value of a position, in units of 2^-96
pub fn native_pos_exact(p: &TokenPosition, b: &Bank) -> BigInt {
    if p.indexed_position >= I80F48::ZERO {
        bits(p.indexed_position) * bits(b.deposit_index)
    } else {
        bits(p.indexed_position) * bits(b.borrow_index)
    }
}
pub fn native_pos(p: &TokenPosition, b: &Bank) -> f64 {
    if p.indexed_position >= I80F48::ZERO {
        f(p.indexed_position) * f(b.deposit_index)
    } else {
        f(p.indexed_position) * f(b.borrow_index)
    }
}

thread_local! {
    pub static IXNAMES: RefCell<HashMap<[u8; 8], &'static str>> = RefCell::new(HashMap::new());
}

impl State {
    /// other accounts of the same kind as `k`
    pub fn same_kind(&self, k: &Pubkey) -> Vec<Pubkey> {
        fn keys<T>(m: &BTreeMap<Pubkey, T>, k: &Pubkey) -> Option<Vec<Pubkey>> {
            m.contains_key(k).then(|| m.keys().filter(|x| *x != k).cloned().collect())
        }
        keys(&self.groups, k)
            .or_else(|| keys(&self.banks, k))
            .or_else(|| keys(&self.mints, k))
            .or_else(|| keys(&self.accounts, k))
            .or_else(|| keys(&self.perps, k))
            .or_else(|| keys(&self.serum, k))
            .or_else(|| keys(&self.stubs, k))
            .or_else(|| keys(&self.books, k))
            .or_else(|| keys(&self.queues, k))
            .or_else(|| keys(&self.tokens, k))
            .or_else(|| keys(&self.oos, k))
            .unwrap_or_default()
    }
}
