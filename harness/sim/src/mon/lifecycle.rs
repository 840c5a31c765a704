//! Accounts through their life: sizes, slots, usage counts.
use super::{Ix, Monitor, Out, Tx};
use crate::st::{base_lots, quote_position, MAcc, FREE16};
use fixed::types::I80F48;
use mango_v4::state::{MangoAccount, MangoAccountFixed};
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Lifecycle {}

fn set<T: bytemuck::Pod>(v: &[T], on: impl Fn(&T) -> bool) -> Vec<Vec<u8>> {
    let mut v: Vec<_> = v.iter().filter(|t| on(t)).map(|t| bytemuck::bytes_of(t).to_vec()).collect();
    v.sort();
    v
}
fn shape(m: &MAcc) -> [usize; 5] {
    [m.tokens.len(), m.serum3.len(), m.perps.len(), m.oos.len(), m.tcs.len()]
}
/// what differs between two accounts besides the number of free slots
fn content(a: &MAcc, b: &MAcc) -> Option<&'static str> {
    if set(&a.tokens, |t| t.is_active()) != set(&b.tokens, |t| t.is_active()) {
        return Some("tokens");
    }
    if set(&a.perps, |t| t.is_active()) != set(&b.perps, |t| t.is_active()) {
        return Some("perps");
    }
    if set(&a.serum3, |t| t.is_active()) != set(&b.serum3, |t| t.is_active()) {
        return Some("spot");
    }
    if set(&a.tcs, |t| t.is_configured == 1) != set(&b.tcs, |t| t.is_configured == 1) {
        return Some("swaps");
    }
    // orders are referred to by slot
    for i in 0..a.oos.len().max(b.oos.len()) {
        let x = a.oos.get(i).filter(|o| o.market != FREE16).map(|o| bytemuck::bytes_of(o));
        let y = b.oos.get(i).filter(|o| o.market != FREE16).map(|o| bytemuck::bytes_of(o));
        if x != y {
            return Some("orders");
        }
    }
    if a.being_liquidated != b.being_liquidated || a.in_health_region != b.in_health_region || bytemuck::bytes_of(&a.fx) != bytemuck::bytes_of(&b.fx) {
        return Some("fields");
    }
    None
}
fn space(s: [usize; 5]) -> usize {
    MangoAccount::space(s[0] as u8, s[1] as u8, s[2] as u8, s[3] as u8, s[4] as u8)
}
fn rent(len: usize) -> u64 {
    solana_program::rent::Rent::default().minimum_balance(len)
}
fn empty(m: &MAcc) -> bool {
    m.active_tokens().count() == 0 && m.active_perps().count() == 0 && m.active_serum().count() == 0 && m.active_tcs().count() == 0 && m.active_oos().count() == 0
}

impl Monitor for Lifecycle {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        for k in ix.changed() {
            match (ix.pre.accounts.get(&k), ix.post.accounts.get(&k)) {
                (Some(a), Some(b)) => {
                    self.slots(ix, a, b, out);
                    self.consistent(ix, b, out);
                }
                (None, Some(b)) => self.created(ix, b, out),
                (Some(a), None) => self.closed(ix, a, out),
                _ => {}
            }
        }
        match ix.name {
            "account_expand" | "account_expand_v2" | "account_size_migration" => self.resized(ix, out),
            "account_edit" => self.edited(ix, out),
            "account_toggle_freeze" => self.frozen(ix, out),
            _ => {}
        }
    }
}
impl Lifecycle {
    /// which positions appear and vanish
    fn slots(&self, ix: &Ix, a: &MAcc, b: &MAcc, out: &mut Out) {
        let k = b.key;
        if a.fx.owner != b.fx.owner || a.fx.group != b.fx.group || a.fx.account_num != b.fx.account_num || a.fx.bump != b.fx.bump {
            out.fail("C24", &format!("identity:{}", ix.name), format!("{} changed the owner, group or number of {k}", ix.name));
        }
        for t in a.active_tokens() {
            if b.tok(t.token_index).is_none() {
                out.eval("token-freed", (k, t.token_index, t.indexed_position.to_bits()), || format!("{} freed token {}", ix.name, t.token_index));
                // the usage of the markets that settle in it ends in the same instruction
                if t.in_use_count > 0 && !ix.name.contains("tcs") && !ix.name.contains("conditional_swap") && !ix.is(&["perp_deactivate_position", "serum3_close_open_orders"]) {
                    out.fail("C24", &format!("freed-in-use:{}", ix.name), format!("{} freed token {} of {k}, used {} times", ix.name, t.token_index, t.in_use_count));
                }
            }
        }
        for p in a.active_perps() {
            if b.perp(p.market_index).is_none() {
                out.eval("perp-freed", (k, p.market_index, ix.now), || format!("{} freed market {}", ix.name, p.market_index));
                if base_lots(p) != 0 || quote_position(p) != I80F48::ZERO || p.bids_base_lots != 0 || p.asks_base_lots != 0 || p.taker_base_lots != 0 || p.taker_quote_lots != 0 {
                    out.fail("C24", &format!("freed-perp:{}", ix.name), format!("{} freed a position of market {} of {k}: {} lots, {} quote, orders {} {}, fills {}", ix.name, p.market_index, base_lots(p), quote_position(p), p.bids_base_lots, p.asks_base_lots, p.taker_base_lots));
                }
                if a.active_oos().any(|(_, o)| o.market == p.market_index) {
                    out.fail("C24", &format!("freed-perp-orders:{}", ix.name), format!("{} freed market {} of {k} with orders", ix.name, p.market_index));
                }
            }
        }
        for s in a.active_serum() {
            if !b.active_serum().any(|x| x.market_index == s.market_index) {
                out.eval("spot-freed", (k, s.market_index, s.open_orders), || format!("{} freed spot market {}", ix.name, s.market_index));
                if let Some(o) = ix.pre.oos.get(&s.open_orders) {
                    if o.coin_total > 0 || o.pc_total > 0 || !o.orders.is_empty() {
                        out.fail("C24", &format!("freed-spot:{}", ix.name), format!("{} freed spot market {} of {k} holding {} {}", ix.name, s.market_index, o.coin_total, o.pc_total));
                    }
                }
                if ix.acc("sol_destination") != Some(s.open_orders) && ix.rec.post(&s.open_orders).map_or(0, |a| a.lamports) > 0 {
                    out.fail("C24", &format!("freed-spot-open:{}", ix.name), format!("{} freed spot market {} of {k} but its open orders account remains", ix.name, s.market_index));
                }
            }
        }
    }
    /// usage counts match the users; slots are distinct; free slots are empty
    fn consistent(&self, ix: &Ix, b: &MAcc, out: &mut Out) {
        let k = b.key;
        let mut uses: BTreeMap<u16, u32> = BTreeMap::new();
        for s in b.active_serum() {
            *uses.entry(s.base_token_index).or_default() += 1;
            *uses.entry(s.quote_token_index).or_default() += 1;
        }
        for p in b.active_perps() {
            // the market may be gone in testing groups
            let settle = ix.post.perps.values().find(|m| m.group == b.fx.group && m.perp_market_index == p.market_index).map(|m| m.settle_token_index);
            match settle {
                Some(t) => *uses.entry(t).or_default() += 1,
                None => return,
            }
        }
        for t in b.active_tcs() {
            *uses.entry(t.buy_token_index).or_default() += 1;
            *uses.entry(t.sell_token_index).or_default() += 1;
        }
        if !uses.is_empty() {
            out.eval("usage", (k, uses.clone()), || format!("{k}: {uses:?}"));
        }
        for t in b.active_tokens() {
            let u = uses.remove(&t.token_index).unwrap_or(0);
            if u != t.in_use_count as u32 {
                out.fail("C24", &format!("usage:{}", ix.name), format!("{}: token {} of {k} counts {} uses, has {u}", ix.name, t.token_index, t.in_use_count));
            }
        }
        if let Some((t, n)) = uses.into_iter().next() {
            out.fail("C24", &format!("used-but-freed:{}", ix.name), format!("{}: {k} has no position of token {t}, used {n} times", ix.name));
        }
        let twice = |mut v: Vec<u16>| {
            v.sort();
            v.windows(2).any(|w| w[0] == w[1])
        };
        if twice(b.active_tokens().map(|t| t.token_index).collect()) || twice(b.active_perps().map(|t| t.market_index).collect()) || twice(b.active_serum().map(|t| t.market_index).collect()) {
            out.fail("C24", &format!("twice:{}", ix.name), format!("{}: {k} has two positions of the same market", ix.name));
        }
        if b.tokens.iter().any(|t| !t.is_active() && (t.indexed_position != I80F48::ZERO || t.in_use_count != 0)) {
            out.fail("C24", &format!("free-slot:{}", ix.name), format!("{}: {k} has a balance in a free slot", ix.name));
        }
        if b.perps.iter().any(|p| !p.is_active() && (base_lots(p) != 0 || quote_position(p) != I80F48::ZERO || p.bids_base_lots != 0 || p.asks_base_lots != 0 || p.taker_base_lots != 0)) {
            out.fail("C24", &format!("free-slot:{}", ix.name), format!("{}: {k} has a perp position in a free slot", ix.name));
        }
        if b.active_oos().any(|(_, o)| b.perp(o.market).is_none()) {
            out.fail("C24", &format!("stray-order:{}", ix.name), format!("{}: {k} has an order of a market it has no position in", ix.name));
        }
    }
    fn created(&self, ix: &Ix, b: &MAcc, out: &mut Out) {
        let k = b.key;
        if !ix.is(&["account_create", "account_create_v2"]) || ix.acc("account") != Some(k) {
            out.fail("C24", &format!("created-by:{}", ix.name), format!("{} created account {k}", ix.name));
            return;
        }
        let mut r = ix.args();
        let num = r.u32();
        let v2 = ix.name.ends_with("v2");
        let c: [usize; 5] = [r.u8() as usize, r.u8() as usize, r.u8() as usize, r.u8() as usize, if v2 { r.u8() as usize } else { 0 }];
        let owner = ix.acc("owner").unwrap_or_default();
        let group = ix.acc("group").unwrap_or_default();
        out.eval("created", (c, owner), || format!("{k}: {c:?}"));
        let n = r.u32() as usize;
        let mut name = [0u8; 32];
        for i in 0..n.min(32) {
            name[i] = r.u8();
        }
        let f = &b.fx;
        let mut w: MangoAccountFixed = *f;
        w.group = group;
        w.owner = owner;
        w.name = name;
        w.account_num = num;
        w.delegate = Pubkey::default();
        w.sequence_number = 0;
        w.net_deposits = 0;
        w.perp_spot_transfers = 0;
        w.health_region_begin_init_health = 0;
        w.frozen_until = 0;
        w.buyback_fees_accrued_current = 0;
        w.buyback_fees_accrued_previous = 0;
        w.buyback_fees_expiry_timestamp = 0;
        w.next_token_conditional_swap_id = 0;
        w.temporary_delegate = Pubkey::default();
        w.temporary_delegate_expiry = 0;
        w.last_collateral_fee_charge = 0;
        if bytemuck::bytes_of(&w) != bytemuck::bytes_of(f) || b.being_liquidated != 0 || b.in_health_region != 0 || !empty(b) || !ix.signed(&owner) {
            out.fail("C24", "created-state", format!("{k} was created for {owner} with unexpected contents"));
        }
        if shape(b) != c || ix.rec.post(&k).map_or(0, |a| a.data.len()) != space(c) || 2 * c[0] + c[1] + 2 * c[2] > 28 || c[3] > 64 || c[4] > 64 {
            out.fail("C24", "created-shape", format!("{k} was created with {:?} slots in {} bytes instead of {c:?}", shape(b), ix.rec.post(&k).map_or(0, |a| a.data.len())));
        }
        let pda = Pubkey::find_program_address(&[b"MangoAccount", group.as_ref(), owner.as_ref(), &num.to_le_bytes()], &mango_v4::id());
        if pda != (k, f.bump) {
            out.fail("C24", "created-address", format!("account {num} of {owner} was created at {k}"));
        }
        self.consistent(ix, b, out);
    }
    fn closed(&self, ix: &Ix, a: &MAcc, out: &mut Out) {
        let k = a.key;
        let d = ix.acc("sol_destination").unwrap_or_default();
        if ix.name != "account_close" || ix.acc("account") != Some(k) {
            out.fail("C24", &format!("closed-by:{}", ix.name), format!("{} closed account {k}", ix.name));
            return;
        }
        let force = ix.args().bool();
        let testing = ix.pre.groups.get(&a.fx.group).map_or(false, |g| g.testing == 1);
        let full = a.active_tokens().count() + a.active_perps().count() + a.active_serum().count() > 0 || a.being_liquidated != 0;
        out.eval("closed", (k, force), || format!("{k}: force {force} testing {testing}"));
        if ix.acc("owner") != Some(a.fx.owner) || !ix.signed(&a.fx.owner) {
            out.fail("C24", "closed-by-other", format!("{k} was closed without its owner {}", a.fx.owner));
        }
        if full && !(force && testing) || force && !testing {
            out.fail("C24", "closed-full", format!("{k} was closed holding positions or with force ({force})"));
        }
        let l = |s: Option<&crate::svm::Acc>| s.map_or(0, |x| x.lamports);
        if d != k && l(ix.rec.post(&d)) != l(ix.rec.pre(&d)) + l(ix.rec.pre(&k)) {
            out.fail("C24", "closed-rent", format!("{k} was closed, its rent did not reach {d}"));
        }
    }
    fn resized(&self, ix: &Ix, out: &mut Out) {
        let Some(k) = ix.acc("account") else { return };
        let (Some(a), Some(b)) = (ix.pre.accounts.get(&k), ix.post.accounts.get(&k)) else {
            out.fail("C24", "resized-away", format!("{} left {k} unreadable", ix.name));
            return;
        };
        let (Some(ra), Some(rb)) = (ix.rec.pre(&k), ix.rec.post(&k)) else { return };
        let (s0, s1) = (shape(a), shape(b));
        if let Some(w) = content(a, b) {
            out.fail("C24", &format!("resize-changed:{w}"), format!("{} changed the {w} of {k}, from {s0:?} slots to {s1:?}", ix.name));
        }
        let held = [a.active_tokens().count(), a.active_serum().count(), a.active_perps().count(), a.active_oos().map(|x| x.0 + 1).max().unwrap_or(0), a.active_tcs().count()];
        let want = if ix.name == "account_size_migration" {
            let mut w = s0;
            if ra.data.len() != space(s0) {
                w[0] = w[0].min(held[0].max(8));
                w[1] = w[1].min(held[1].max(4));
                w[2] = w[2].min(held[2].max(4));
            }
            w
        } else {
            let mut r = ix.args();
            let mut w = [r.u8() as usize, r.u8() as usize, r.u8() as usize, r.u8() as usize, 0];
            w[4] = if ix.name.ends_with("v2") { r.u8() as usize } else { 0 };
            w
        };
        let kind = if ix.name == "account_size_migration" { if ra.data.len() != space(s0) { "migrated" } else { "migrated-already" } } else if s0 == s1 { "resized-same" } else if rb.data.len() < ra.data.len() { "shrunk" } else { "expanded" };
        let (ld, rd) = (ra.data.len(), rb.data.len());
        out.eval(kind, (s0, s1, held, ld), || format!("{s0:?} -> {s1:?} holding {held:?}, {ld} -> {rd} bytes"));
        if s1 != want || rd != space(s1) {
            out.fail("C24", "resize-shape", format!("{} of {k}: {s0:?} -> {s1:?} ({ld} -> {rd} bytes), should be {want:?}", ix.name));
        }
        let health = |s: [usize; 5]| 2 * s[0] + s[1] + 2 * s[2];
        if health(s1) > health(s0).max(28) || s1[3] > s0[3].max(64) || s1[4] > s0[4].max(64) {
            out.fail("C24", "resize-limits", format!("{} of {k}: {s0:?} -> {s1:?}", ix.name));
        }
        // rent
        let min = rent(rd);
        if rb.lamports < min.min(ra.lamports) && rd != ld || rd != ld && rb.lamports < min {
            out.fail("C24", "resize-rent", format!("{} of {k} left {} lamports for {rd} bytes", ix.name, rb.lamports));
        }
        if ix.name.starts_with("account_expand") {
            if ix.acc("owner") != Some(a.fx.owner) || !ix.signed(&a.fx.owner) {
                out.fail("C24", "resize-signer", format!("{} of {k} without its owner", ix.name));
            }
            let p = ix.acc("payer").unwrap_or_default();
            let l = |s: Option<&crate::svm::Acc>| s.map_or(0, |x| x.lamports as i128);
            if l(ix.rec.post(&p)) - l(ix.rec.pre(&p)) + rb.lamports as i128 - ra.lamports as i128 != 0 || rb.lamports != min {
                out.fail("C24", "resize-rent", format!("{} of {k}: lamports {} -> {} (should be {min}), payer {} -> {}", ix.name, ra.lamports, rb.lamports, l(ix.rec.pre(&p)), l(ix.rec.post(&p))));
            }
        } else if rb.lamports < ra.lamports {
            out.fail("C24", "resize-rent", format!("{} of {k} took lamports: {} -> {}", ix.name, ra.lamports, rb.lamports));
        }
    }
    fn edited(&self, ix: &Ix, out: &mut Out) {
        let Some(k) = ix.acc("account") else { return };
        let (a, b) = (&ix.pre.accounts[&k], &ix.post.accounts[&k]);
        let mut r = ix.args();
        let mut w = a.fx;
        if r.bool() {
            let n = r.u32() as usize;
            w.name = [0; 32];
            for i in 0..n.min(32) {
                w.name[i] = r.u8();
            }
        }
        let key = |r: &mut super::Args| {
            let mut x = [0u8; 32];
            x.iter_mut().for_each(|b| *b = r.u8());
            Pubkey::new_from_array(x)
        };
        if r.bool() {
            w.delegate = key(&mut r);
        }
        let td = r.bool().then(|| key(&mut r));
        let te = r.bool().then(|| r.u64());
        if let (Some(d), Some(e)) = (td, te) {
            w.temporary_delegate = d;
            w.temporary_delegate_expiry = e;
            if e >= ix.now + 7 * 86400 {
                out.fail("C24", "edit-delegate-expiry", format!("{k}: temporary delegate until {e}, now {}", ix.now));
            }
        }
        out.eval("edited", (k, w.delegate, w.temporary_delegate, w.temporary_delegate_expiry), || format!("{k}: delegate {} temporary {} until {}", w.delegate, w.temporary_delegate, w.temporary_delegate_expiry));
        let mut m = (**a).clone();
        m.fx = w;
        if let Some(x) = content(&m, b) {
            out.fail("C24", &format!("edit:{x}"), format!("editing {k} gave delegates {}, {} until {}, should be {}, {} until {}", b.fx.delegate, b.fx.temporary_delegate, b.fx.temporary_delegate_expiry, w.delegate, w.temporary_delegate, w.temporary_delegate_expiry));
        }
        if ix.acc("owner") != Some(a.fx.owner) || !ix.signed(&a.fx.owner) {
            out.fail("C24", "edit-signer", format!("{k} edited without its owner"));
        }
    }
    fn frozen(&self, ix: &Ix, out: &mut Out) {
        let Some(k) = ix.acc("account") else { return };
        let (a, b) = (&ix.pre.accounts[&k], &ix.post.accounts[&k]);
        let on = ix.args().bool();
        let mut m = (**a).clone();
        m.fx.frozen_until = if on { ix.now + 7 * 86400 } else { 0 };
        out.eval("frozen", (k, m.fx.frozen_until), || format!("{k}: frozen until {}", m.fx.frozen_until));
        if let Some(x) = content(&m, b) {
            out.fail("C24", &format!("freeze:{x}"), format!("freezing {k} ({on}) until {}, now {}", b.fx.frozen_until, ix.now));
        }
    }
}
