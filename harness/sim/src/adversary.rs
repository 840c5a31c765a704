//! Tries variations of every transaction before it runs: other signers, other accounts, counterfeits, a parallel group
//! of the attacker's own, switches turned off, accounts frozen. Each variation is observed and then undone.
use crate::pt::solana::SolanaCookie;
use crate::pt::utils::TestKeypair;
use crate::st::State;
use crate::svm::Account;
use mango_v4::state::{Group, MangoAccountFixed, StubOracle};
use rand::seq::SliceRandom;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha8Rng;
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};

thread_local! {
    pub static ADVERSARY: RefCell<Option<Adversary>> = RefCell::new(None);
}
pub struct Adversary {
    pub rng: ChaCha8Rng,
    /// variations tried per transaction
    pub tries: u32,
    /// how often each account of a transaction is replaced in turn
    pub thorough: f64,
    state: State,
    seen: HashMap<String, u32>,
}
fn attacker() -> Pubkey {
    Pubkey::from([66u8; 32])
}
impl Adversary {
    pub fn new(seed: u64, tries: u32, thorough: f64) -> Adversary {
        Adversary { rng: ChaCha8Rng::seed_from_u64(seed ^ 0xad7e), tries, thorough, state: State::default(), seen: HashMap::new() }
    }
}
/// before a transaction runs
pub fn before(s: &SolanaCookie, ixs: &[Instruction], signers: &[TestKeypair]) {
    let Some(mut adv) = ADVERSARY.with(|a| a.borrow_mut().take()) else { return };
    adv.around(s, ixs, signers);
    ADVERSARY.with(|a| *a.borrow_mut() = Some(adv));
}
fn real(ix: &Instruction) -> Option<(usize, &'static str)> {
    let off = (ix.program_id == crate::svm::forward_id()) as usize;
    if off == 0 && ix.program_id != mango_v4::id() {
        return None;
    }
    crate::mon::ix_abi(&ix.data).map(|a| (off, a.name))
}
fn poke<T: bytemuck::Pod>(s: &SolanaCookie, k: &Pubkey, f: impl FnOnce(&mut T)) {
    let Some(mut a) = s.context.borrow().get(k).map(|a| (**a).clone()) else { return };
    let n = std::mem::size_of::<T>();
    let mut v: T = bytemuck::pod_read_unaligned(&a.data[8..8 + n]);
    f(&mut v);
    a.data[8..8 + n].copy_from_slice(bytemuck::bytes_of(&v));
    s.set_raw_account(*k, a);
}

impl Adversary {
    fn around(&mut self, s: &SolanaCookie, ixs: &[Instruction], signers: &[TestKeypair]) {
        let names: Vec<&str> = ixs.iter().filter_map(|i| real(i).map(|r| r.1)).collect();
        if names.is_empty() {
            return;
        }
        let snap = s.context.borrow().snapshot();
        // rare instructions get more attention
        let key = names.join(" ");
        let n = self.seen.entry(key).or_default();
        *n += 1;
        let tries = if *n <= 3 { self.tries * 8 } else if *n <= 20 { self.tries * 2 } else { self.tries };
        // only what would have succeeded is worth varying
        let mut keys: Vec<Pubkey> = signers.iter().map(|k| k.pubkey()).collect();
        keys.push(s.payer.pubkey());
        let ok = s.context.borrow_mut().process(ixs, &keys).ok();
        s.context.borrow_mut().restore(&snap);
        if !ok {
            return;
        }
        if *n == 1 && self.rng.gen_bool(self.thorough) {
            self.every_place(s, ixs, signers, &snap);
        }
        for _ in 0..tries {
            if self.attack(s, ixs, signers) {
                s.context.borrow_mut().restore(&snap);
            }
        }
    }

    fn attack(&mut self, s: &SolanaCookie, ixs: &[Instruction], signers: &[TestKeypair]) -> bool {
        let mut st = std::mem::take(&mut self.state);
        st.sync(&s.context.borrow().accounts);
        let r = self.vary(s, &st, ixs, signers);
        self.state = st;
        let Some((ixs, signers)) = r else { return false };
        s.run_plain(&ixs, &signers);
        true
    }

    /// each account in turn: its counterpart in the attacker's group (in its owner's hands, or the attacker's), and others
    /// of its kind
    fn every_place(&mut self, s: &SolanaCookie, ixs: &[Instruction], signers: &[TestKeypair], snap: &(crate::svm::Accounts, solana_program::clock::Clock)) {
        let mut st = std::mem::take(&mut self.state);
        st.sync(&s.context.borrow().accounts);
        let mango: Vec<usize> = (0..ixs.len()).filter(|i| real(&ixs[*i]).is_some()).collect();
        for i in mango {
            let off = real(&ixs[i]).unwrap().0;
            for j in off..ixs[i].accounts.len() {
                let old = ixs[i].accounts[j].pubkey;
                if !st.raw.get(&old).map_or(false, |a| a.owner == mango_v4::id()) {
                    continue;
                }
                for grab in [false, true] {
                    let Some(m) = self.parallel(s, &st, grab) else { continue };
                    if let Some(new) = m.get(&old) {
                        let mut ixs = ixs.to_vec();
                        let mut signers = signers.to_vec();
                        ixs[i].accounts[j].pubkey = *new;
                        let a = st.accounts.get(&old);
                        if let (true, Some(a)) = (grab, a) {
                            // the attacker signs for his own account
                            for l in off..ixs[i].accounts.len() {
                                let m = &mut ixs[i].accounts[l];
                                if m.is_signer && [a.fx.owner, a.fx.delegate].contains(&m.pubkey) {
                                    m.pubkey = attacker();
                                    signers.push(TestKeypair(attacker()));
                                }
                            }
                            s.set_raw_account(attacker(), Account::new(1 << 50, 0, &solana_program::system_program::id()));
                        }
                        if !grab || a.is_some() {
                            s.run_plain(&ixs, &signers);
                        }
                    }
                    s.context.borrow_mut().restore(snap);
                }
                let mut kin = st.same_kind(&old);
                kin.shuffle(&mut self.rng);
                for k in kin.into_iter().filter(|k| *k != old).take(3) {
                    let mut ixs = ixs.to_vec();
                    ixs[i].accounts[j].pubkey = k;
                    s.run_plain(&ixs, signers);
                    s.context.borrow_mut().restore(snap);
                }
            }
        }
        self.state = st;
    }

    /// the state may have been changed on return
    fn vary(&mut self, s: &SolanaCookie, st: &State, ixs: &[Instruction], signers: &[TestKeypair]) -> Option<(Vec<Instruction>, Vec<TestKeypair>)> {
        let mut ixs = ixs.to_vec();
        let mut signers = signers.to_vec();
        let r = &mut self.rng;
        let mango: Vec<usize> = (0..ixs.len()).filter(|i| real(&ixs[*i]).is_some()).collect();
        let i = *mango.choose(r)?;
        let (off, name) = real(&ixs[i])?;
        let n = ixs[i].accounts.len();
        if n <= off {
            return None;
        }
        let who: Vec<Pubkey> = {
            let mut v: Vec<Pubkey> = vec![attacker(), s.payer.pubkey()];
            for g in st.groups.values() {
                v.extend([g.admin, g.security_admin, g.fast_listing_admin]);
            }
            for a in st.accounts.values() {
                v.extend([a.fx.owner, a.fx.delegate, a.fx.temporary_delegate]);
            }
            v.retain(|k| *k != Pubkey::default());
            v.sort();
            v.dedup();
            v
        };
        s.set_raw_account(attacker(), Account::new(1 << 50, 0, &solana_program::system_program::id()));
        let mine: Vec<usize> = (off..n).filter(|j| ixs[i].accounts[*j].is_signer).collect();
        let mut swap_signer = |r: &mut ChaCha8Rng, ixs: &mut Vec<Instruction>, signers: &mut Vec<TestKeypair>| {
            if let (Some(j), Some(k)) = (mine.choose(r), who.choose(r)) {
                let old = ixs[i].accounts[*j].pubkey;
                let all = r.gen_bool(0.5);
                for (q, ix) in ixs.iter_mut().enumerate() {
                    for (l, m) in ix.accounts.iter_mut().enumerate() {
                        if m.pubkey == old && m.is_signer && (all || q == i && l == *j) {
                            m.pubkey = *k;
                        }
                    }
                }
                signers.push(TestKeypair(*k));
            }
        };
        match r.gen_range(0..20) {
            0 => {
                let j = *mine.choose(r)?;
                ixs[i].accounts[j].is_signer = false;
            }
            1..=3 => {
                if mine.is_empty() {
                    return None;
                }
                swap_signer(r, &mut ixs, &mut signers);
            }
            4 | 5 => {
                // switched off
                let g = ixs[i].accounts.iter().map(|m| m.pubkey).find(|k| st.groups.contains_key(k))?;
                let bit = if r.gen_bool(0.8) { crate::mon::access::gate(name)? } else { r.gen_range(0..77) };
                poke::<Group>(s, &g, |g| g.ix_gate |= 1u128 << bit);
            }
            6 => {
                // frozen, at or around the last moment
                let ks: Vec<Pubkey> = ixs[i].accounts.iter().map(|m| m.pubkey).filter(|k| st.accounts.contains_key(k)).collect();
                let k = ks.choose(r)?;
                let now = s.clock().unix_timestamp as u64;
                let until = now + *[1, 1, 5, 604800, 0].choose(r).unwrap();
                poke::<MangoAccountFixed>(s, k, |a| a.frozen_until = until);
            }
            7 | 8 => {
                // the signer is no longer, or only in some way, entitled
                let ks: Vec<Pubkey> = ixs[i].accounts.iter().map(|m| m.pubkey).filter(|k| st.accounts.contains_key(k)).collect();
                let k = ks.choose(r)?;
                let a = &st.accounts[k];
                let now = s.clock().unix_timestamp as u64;
                let x = r.gen_range(0..6);
                let d = if a.fx.delegate == a.fx.owner { attacker() } else { a.fx.owner };
                let other = |r: &mut ChaCha8Rng| match r.gen_range(0..5) {
                    0 | 1 => Pubkey::default(),
                    2 => attacker(),
                    3 => *who.choose(r).unwrap(),
                    _ => Pubkey::new_from_array(r.gen()),
                };
                let (o0, o1, o2) = (other(r), other(r), *[0, now - 1, now, now + 1000].choose(r).unwrap());
                poke::<MangoAccountFixed>(s, k, |a| {
                    a.owner = attacker();
                    a.delegate = o0;
                    a.temporary_delegate = o1;
                    a.temporary_delegate_expiry = o2;
                    match x {
                        0 => {}
                        1 => a.delegate = d,
                        2 => (a.temporary_delegate, a.temporary_delegate_expiry) = (d, now + 1000),
                        3 => (a.temporary_delegate, a.temporary_delegate_expiry) = (d, now),
                        4 => (a.temporary_delegate, a.temporary_delegate_expiry) = (d, now - 1),
                        _ => (a.temporary_delegate, a.temporary_delegate_expiry) = (d, 0),
                    }
                });
            }
            9 => {
                // the group's roles go elsewhere
                let g = ixs[i].accounts.iter().map(|m| m.pubkey).find(|k| st.groups.contains_key(k))?;
                let old = st.groups[&g].admin;
                let x = r.gen_range(0..5);
                poke::<Group>(s, &g, |g| match x {
                    0 => (g.admin, g.security_admin) = (attacker(), old),
                    1 => (g.admin, g.fast_listing_admin) = (attacker(), old),
                    2 => g.admin = attacker(),
                    3 => g.testing = 0,
                    _ => (g.admin, g.creator) = (attacker(), old),
                });
            }
            10..=12 => {
                // another account of the same kind, everywhere or in one place
                let j = r.gen_range(off..n);
                let old = ixs[i].accounts[j].pubkey;
                let x = *st.same_kind(&old).choose(r)?;
                let all = r.gen_bool(0.4);
                for (q, ix) in ixs.iter_mut().enumerate() {
                    for (l, m) in ix.accounts.iter_mut().enumerate() {
                        if m.pubkey == old && (all || q == i && l == j) {
                            m.pubkey = x;
                        }
                    }
                }
                if r.gen_bool(0.3) {
                    swap_signer(r, &mut ixs, &mut signers);
                }
            }
            13 | 14 => {
                // another bank or market with all that belongs to it
                let mut m: BTreeMap<Pubkey, Pubkey> = BTreeMap::new();
                let keys: Vec<Pubkey> = ixs[i].accounts.iter().map(|m| m.pubkey).collect();
                let b: Vec<Pubkey> = keys.iter().filter(|k| st.banks.contains_key(k) || st.perps.contains_key(k) || st.serum.contains_key(k)).cloned().collect();
                let old = *b.choose(r)?;
                let new = *st.same_kind(&old).choose(r)?;
                m.insert(old, new);
                if let (Some(x), Some(y)) = (st.banks.get(&old), st.banks.get(&new)) {
                    m.insert(x.vault, y.vault);
                    m.insert(x.oracle, y.oracle);
                    // the user's tokens accordingly
                    for k in &keys {
                        if let Some(t) = st.tokens.get(k) {
                            if t.mint == x.mint && *k != x.vault {
                                if let Some((n, _)) = st.tokens.iter().find(|(_, u)| u.owner == t.owner && u.mint == y.mint) {
                                    m.insert(*k, *n);
                                }
                            }
                        }
                    }
                } else if let (Some(x), Some(y)) = (st.perps.get(&old), st.perps.get(&new)) {
                    for (p, q) in [(x.bids, y.bids), (x.asks, y.asks), (x.event_queue, y.event_queue), (x.oracle, y.oracle)] {
                        m.insert(p, q);
                    }
                } else if let (Some(x), Some(y)) = (st.serum.get(&old), st.serum.get(&new)) {
                    m.insert(x.serum_market_external, y.serum_market_external);
                }
                let keep = if r.gen_bool(0.5) { 0.0 } else { 0.3 };
                replace(r, &mut ixs, i, off, &m, keep);
            }
            15..=18 => {
                // the attacker's own group, where everything looks the same
                let grab = r.gen_bool(0.5);
                let m = self.parallel(s, st, grab)?;
                let r = &mut self.rng;
                let here: Vec<Pubkey> = ixs[i].accounts[off..].iter().map(|x| x.pubkey).filter(|k| m.contains_key(k)).collect();
                let one = *here.choose(r)?;
                match r.gen_range(0..4) {
                    0 => replace(r, &mut ixs, i, off, &BTreeMap::from([(one, m[&one])]), 0.0),
                    1 => {
                        let mut m = m.clone();
                        m.remove(&one);
                        replace(r, &mut ixs, i, off, &m, 0.0);
                    }
                    2 => {
                        // one object with what belongs to it
                        let mut part = BTreeMap::from([(one, m[&one])]);
                        let mut also: Vec<Pubkey> = vec![];
                        if let Some(b) = st.banks.get(&one) {
                            also.extend([b.vault, b.oracle]);
                        }
                        if let Some(p) = st.perps.get(&one) {
                            also.extend([p.bids, p.asks, p.event_queue, p.oracle]);
                        }
                        if let Some(a) = st.accounts.get(&one) {
                            also.extend(a.active_serum().map(|o| o.open_orders));
                        }
                        for k in also {
                            if let Some(x) = m.get(&k) {
                                part.insert(k, *x);
                            }
                        }
                        replace(r, &mut ixs, i, off, &part, 0.0);
                    }
                    _ => {
                        let keep = *[0.2, 0.5, 0.8].choose(r).unwrap();
                        replace(r, &mut ixs, i, off, &m, keep);
                    }
                }
                if r.gen_bool(0.7) {
                    // and the attacker signs
                    let olds: Vec<Pubkey> = ixs[i].accounts.iter().filter(|m| m.is_signer).map(|m| m.pubkey).collect();
                    if let Some(old) = olds.choose(r) {
                        for x in ixs[i].accounts.iter_mut().filter(|m| m.is_signer && m.pubkey == *old) {
                            x.pubkey = attacker();
                        }
                    }
                    signers.push(TestKeypair(attacker()));
                }
            }
            _ => {
                // a counterfeit under another program
                let j = r.gen_range(off..n);
                let old = ixs[i].accounts[j].pubkey;
                let mut a = s.context.borrow().get(&old).map(|a| (**a).clone())?;
                if a.data.is_empty() || a.executable {
                    return None;
                }
                a.owner = *[crate::svm::forward_id(), solana_program::system_program::id(), mango_v4::id()].choose(r).unwrap();
                if a.owner == mango_v4::id() {
                    // the program's own accounts, but of another kind
                    let k = *st.same_kind(&old).choose(r)?;
                    let other: Vec<Pubkey> = ixs[i].accounts.iter().map(|m| m.pubkey).filter(|x| *x != k && st.raw.get(x).map_or(false, |a| a.owner == mango_v4::id())).collect();
                    ixs[i].accounts[j].pubkey = *other.choose(r)?;
                } else {
                    let k = Pubkey::new_from_array(solana_program::hash::hashv(&[b"fake", old.as_ref()]).to_bytes());
                    s.set_raw_account(k, a);
                    ixs[i].accounts[j].pubkey = k;
                }
            }
        }
        Some((ixs, signers))
    }

    /// copies everything of a group under new addresses, in the attacker's hands
    fn parallel(&mut self, s: &SolanaCookie, st: &State, grab: bool) -> Option<BTreeMap<Pubkey, Pubkey>> {
        let r = &mut self.rng;
        let gs: Vec<Pubkey> = st.groups.keys().cloned().collect();
        let g = *gs.choose(r)?;
        let num: u32 = 7;
        let (g2, bump) = Pubkey::find_program_address(&[b"Group", attacker().as_ref(), &num.to_le_bytes()], &mango_v4::id());
        if st.groups.contains_key(&g2) {
            return None;
        }
        let mut m: BTreeMap<Pubkey, Pubkey> = BTreeMap::new();
        let new = |k: &Pubkey| Pubkey::new_from_array(solana_program::hash::hashv(&[b"parallel", k.as_ref()]).to_bytes());
        m.insert(g, g2);
        let mut add = |k: &Pubkey| {
            if *k != Pubkey::default() {
                m.insert(*k, new(k));
            }
        };
        add(&st.groups[&g].insurance_vault);
        for (k, b) in st.banks.iter().filter(|x| x.1.group == g) {
            add(k);
            add(&b.vault);
        }
        st.mints.iter().filter(|x| x.1.group == g).for_each(|(k, _)| add(k));
        st.stubs.iter().filter(|x| x.1.group == g).for_each(|(k, _)| add(k));
        st.serum.iter().filter(|x| x.1.group == g).for_each(|(k, _)| add(k));
        for (k, p) in st.perps.iter().filter(|x| x.1.group == g) {
            for x in [k, &p.bids, &p.asks, &p.event_queue] {
                add(x);
            }
        }
        for (k, a) in st.accounts.iter().filter(|x| x.1.fx.group == g) {
            add(k);
            a.active_serum().for_each(|o| add(&o.open_orders));
        }
        let by_prefix: HashMap<[u8; 8], Pubkey> = m.keys().map(|k| (k.to_bytes()[..8].try_into().unwrap(), *k)).collect();
        let factor = *[1.0, 1.0, 0.01, 100.0].choose(r).unwrap();
        for (old, new) in &m {
            let Some(mut a) = s.context.borrow().get(old).map(|a| (**a).clone()) else { continue };
            {
                let step = if a.data.len() > 60_000 { 8 } else { 1 };
                let mut o = 0;
                while o + 32 <= a.data.len() {
                    let p: [u8; 8] = a.data[o..o + 8].try_into().unwrap();
                    if p == [0; 8] {
                        o += step;
                        continue;
                    }
                    if let Some(k) = by_prefix.get(&p) {
                        if a.data[o..o + 32] == k.to_bytes() {
                            a.data[o..o + 32].copy_from_slice(m[k].as_ref());
                            o += 32 - step;
                        }
                    }
                    o += step;
                }
            }
            s.set_raw_account(*new, a);
            if st.groups.contains_key(old) {
                poke::<Group>(s, new, |g| {
                    g.creator = attacker();
                    g.admin = attacker();
                    g.group_num = num;
                    g.bump = bump;
                    g.ix_gate = 0;
                });
            } else if st.accounts.contains_key(old) && grab {
                poke::<MangoAccountFixed>(s, new, |a| a.owner = attacker());
            } else if st.stubs.contains_key(old) {
                poke::<StubOracle>(s, new, |o| o.price *= fixed::types::I80F48::from_num(factor));
            }
        }
        Some(m)
    }
}
fn replace(r: &mut ChaCha8Rng, ixs: &mut [Instruction], i: usize, off: usize, m: &BTreeMap<Pubkey, Pubkey>, keep: f64) {
    let all = r.gen_bool(0.7);
    for (q, ix) in ixs.iter_mut().enumerate() {
        if q != i && !all {
            continue;
        }
        for (l, x) in ix.accounts.iter_mut().enumerate() {
            if q == i && l < off {
                continue;
            }
            if let Some(n) = m.get(&x.pubkey) {
                if keep == 0.0 || !r.gen_bool(keep) {
                    x.pubkey = *n;
                }
            }
        }
    }
}
