//! What the random workload does, one transaction at a time, and the multi-step stories that lead
//! into liquidation, bankruptcy and delisting.
use crate::pt::*;
use crate::spec::{self, HT};
use crate::st::*;
use crate::world::*;
use fixed::types::I80F48;
use mango_v4::accounts_ix::{
    FlashLoanType, HealthCheckKind, Serum3OrderType, Serum3SelfTradeBehavior, Serum3Side,
};
use mango_v4::state::*;
use rand::prelude::*;
use rand_chacha::ChaCha8Rng;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::pubkey::Pubkey;
use std::rc::Rc;

pub type Built = (Instruction, Vec<TestKeypair>);
pub type Act = fn(&mut World) -> Option<Tx>;

pub fn loguni(r: &mut ChaCha8Rng, lo: f64, hi: f64) -> f64 {
    r.gen_range(lo.ln()..hi.ln()).exp()
}
pub fn data<D: anchor_lang::InstructionData>(d: &D) -> Vec<u8> {
    anchor_lang::InstructionData::data(d)
}
fn mix<A: anchor_lang::ToAccountMetas, D: anchor_lang::InstructionData>(a: &A, d: &D) -> Instruction {
    make_instruction(mango_v4::id(), a, d)
}

impl World {
    pub fn pick_acc(&mut self) -> AccW {
        if let Some((a, _)) = self.focus {
            if self.g == 0 && self.rng.gen_bool(0.7) {
                if let Some(x) = self.grp().accs.iter().find(|x| Some(x.key) == a) {
                    return *x;
                }
            }
        }
        let n = self.grp().accs.len();
        let i = self.rng.gen_range(0..n);
        self.grp().accs[i]
    }
    /// another account, of the same owner if there is one
    pub fn same_owner(&mut self, a: &AccW) -> AccW {
        let mine: Vec<AccW> = self.grp().accs.iter().filter(|x| x.owner == a.owner && x.key != a.key).copied().collect();
        if mine.is_empty() || self.rng.gen_bool(0.3) {
            return self.pick_acc();
        }
        mine[self.rng.gen_range(0..mine.len())]
    }
    pub fn owner_of(&self, a: &AccW) -> TestKeypair {
        self.users[a.owner].key
    }
    /// usually the owner, sometimes the delegate
    pub fn signer_for(&mut self, a: &AccW) -> TestKeypair {
        if self.rng.gen_bool(0.15) {
            if let Some(m) = self.macc(&a.key) {
                let now = self.now();
                if m.fx.temporary_delegate != Pubkey::default() && (now < m.fx.temporary_delegate_expiry + 5 || self.rng.gen_bool(0.3)) && self.rng.gen_bool(0.5) {
                    return TestKeypair(m.fx.temporary_delegate);
                }
                if m.fx.delegate != Pubkey::default() {
                    return TestKeypair(m.fx.delegate);
                }
            }
        }
        self.users[a.owner].key
    }
    pub fn pick_tok(&mut self) -> TokW {
        let n = self.grp().toks.len();
        let i = self.rng.gen_range(0..n);
        self.grp().toks[i].clone()
    }
    pub fn pick_perp(&mut self) -> Option<PerpW> {
        let n = self.grp().perps.len();
        if n == 0 {
            return None;
        }
        if let Some((_, Some(p))) = self.focus {
            if self.g == 0 && self.rng.gen_bool(0.8) {
                if let Some(x) = self.grp().perps.iter().find(|x| x.index == p) {
                    return Some(x.clone());
                }
            }
        }
        let i = self.rng.gen_range(0..n);
        Some(self.grp().perps[i].clone())
    }
    pub fn pick_ser(&mut self) -> Option<SerW> {
        let n = self.grp().sers.len();
        if n == 0 {
            return None;
        }
        let i = self.rng.gen_range(0..n);
        Some(self.grp().sers[i].clone())
    }
    pub fn usd(&mut self) -> f64 {
        let hi = self.cfg.initial_usd;
        match self.rng.gen_range(0..10) {
            0 => loguni(&mut self.rng, 1e-6, 1.0),
            1..=3 => loguni(&mut self.rng, 1.0, hi),
            _ => loguni(&mut self.rng, hi * 0.01, hi * 2.0),
        }
    }
    /// a native amount worth about `usd`, with edge cases
    pub fn native(&mut self, t: &TokW, usd: f64) -> u64 {
        match self.rng.gen_range(0..60) {
            0 => 0,
            1 | 2 => 1,
            3 => u64::MAX,
            4 => self.rng.gen_range(2..20),
            _ => (usd * 1e6 / self.tok_price(t)).min(1e15).max(1.0) as u64,
        }
    }
    pub fn tok_price(&self, t: &TokW) -> f64 {
        self.groups[self.g].toks[t.idx as usize].price.max(1e-12)
    }
    pub fn health_of(&self, k: &Pubkey) -> Option<spec::Hc> {
        let (now, slot) = (self.now(), self.solana.clock().slot);
        self.with_state(|s| {
            let a = s.accounts.get(k)?;
            spec::health(
                s,
                a,
                &spec::HcOpts { now, slot, bank_for: None, provided: Some(&|_| true), skipping: false },
            )
        })
    }
    /// accounts that can or are being liquidated
    pub fn liquidatable(&self) -> Vec<AccW> {
        self.grp()
            .accs
            .iter()
            .filter(|a| {
                let liq = self.macc(&a.key).map_or(false, |m| m.being_liquidated == 1);
                liq || self.health_of(&a.key).map_or(false, |h| h.health(HT::Maint) < 0.0)
            })
            .cloned()
            .collect()
    }
    fn pick_liqee(&mut self) -> AccW {
        let l = self.liquidatable();
        if !l.is_empty() && self.rng.gen_bool(0.95) {
            *l.choose(&mut self.rng).unwrap()
        } else {
            self.pick_acc()
        }
    }
    fn pick_other(&mut self, not: &AccW) -> Option<AccW> {
        let v: Vec<AccW> = self.grp().accs.iter().filter(|a| a.key != not.key).cloned().collect();
        v.choose(&mut self.rng).cloned()
    }
    fn pick_liqor(&mut self, not: &AccW) -> Option<AccW> {
        // prefer the well funded accounts of user 0
        let v: Vec<AccW> =
            self.grp().accs.iter().filter(|a| a.key != not.key && a.owner == 0).cloned().collect();
        if self.rng.gen_bool(0.7) && !v.is_empty() {
            v.choose(&mut self.rng).cloned()
        } else if self.rng.gen_bool(0.03) {
            Some(*not)
        } else {
            self.pick_other(not)
        }
    }
    fn with_fallbacks(&mut self, mut x: Built) -> Built {
        let fb: Vec<Pubkey> = self.grp().toks.iter().filter_map(|t| t.fallback).collect();
        if !fb.is_empty() && self.rng.gen_bool(0.6) {
            x.0.accounts.extend(fb.iter().map(|k| AccountMeta::new_readonly(*k, false)));
            if self.cfg.oracle_kinds && self.rng.gen_bool(0.9) {
                let m = self.quote_feed_metas();
                x.0.accounts.extend(m);
            }
        }
        x
    }
    fn one(&mut self, x: Option<Built>) -> Option<Tx> {
        Some(Tx::one(x?))
    }
    fn onef(&mut self, x: Option<Built>) -> Option<Tx> {
        let x = self.with_fallbacks(x?);
        Some(Tx::one(x))
    }
}

// ---------------------------------------------------------------- tokens

pub fn deposit(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let t = w.pick_tok();
    let usd = w.usd();
    let amount = w.native(&t, usd);
    let owner = w.signer_for(&a);
    let auth = w.owner_of(&a);
    let ta = w.users[a.owner].atas[t.mint_i];
    let x = w.build(TokenDepositInstruction {
        amount,
        reduce_only: w.rng.clone().gen_bool(0.15),
        account: a.key,
        owner,
        token_account: ta,
        token_authority: auth,
        bank_index: w.rng.clone().gen_range(0..2),
    });
    w.rng.gen::<u32>();
    w.onef(x)
}
pub fn deposit_into_existing(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let t = w.pick_tok();
    let usd = w.usd();
    let amount = w.native(&t, usd);
    let u = w.rng.gen_range(0..w.users.len());
    let reduce_only = w.rng.gen_bool(0.3);
    let bank_index = w.rng.gen_range(0..2);
    let x = w.build(TokenDepositIntoExistingInstruction {
        amount,
        reduce_only,
        account: a.key,
        token_account: w.users[u].atas[t.mint_i],
        token_authority: w.users[u].key,
        bank_index,
    });
    w.onef(x)
}
pub fn withdraw(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let t = w.pick_tok();
    let owner = w.signer_for(&a);
    let usd = w.usd();
    let mut amount = w.native(&t, usd);
    if w.rng.gen_bool(0.2) {
        // around what is there
        let m = w.macc(&a.key)?;
        let have = w.with_state(|s| {
            let tp = m.tok(t.idx)?;
            let b = s.bank0(&m.fx.group, t.idx)?;
            Some(native_pos(tp, b.1))
        });
        if let Some(h) = have {
            if h > 0.0 {
                amount = (h as u64).saturating_add(w.rng.gen_range(0..3)).saturating_sub(w.rng.gen_range(0..3));
            }
        }
    }
    let allow_borrow = w.rng.gen_bool(0.7);
    let bank_index = w.rng.gen_range(0..2);
    let token_account = match w.rng.gen_range(0..12) {
        0 => w.users[a.owner].others[t.mint_i],
        1 => w.attacker.atas[t.mint_i],
        _ => w.users[a.owner].atas[t.mint_i],
    };
    let x = w.build(TokenWithdrawInstruction {
        amount,
        allow_borrow,
        account: a.key,
        owner,
        token_account,
        bank_index,
    });
    w.onef(x)
}
pub fn borrow(w: &mut World) -> Option<Tx> {
    // an amount related to what health allows
    let a = w.pick_acc();
    let t = w.pick_tok();
    let h = w.health_of(&a.key)?;
    let init = h.health(HT::Init);
    if init <= 0.0 {
        return None;
    }
    let frac = *[0.1, 0.5, 0.9, 0.97, 1.0, 1.02].choose(&mut w.rng).unwrap();
    let lw = h.tok(t.idx).map_or(1.3 * t.price, |x| x.lwp(HT::Init));
    let mut have = 0.0;
    if let Some(x) = h.tok(t.idx) {
        have = x.position.max(0.0) * w.rng.gen_range(0.0..1.0);
    }
    let amount = (init * frac / lw.max(1e-12) + have).min(1e15) as u64;
    let owner = w.owner_of(&a);
    let bank_index = w.rng.gen_range(0..2);
    let token_account = w.users[a.owner].atas[t.mint_i];
    let x = w.build(TokenWithdrawInstruction {
        amount,
        allow_borrow: true,
        account: a.key,
        owner,
        token_account,
        bank_index,
    });
    w.onef(x)
}
pub fn flash_loan(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let owner = w.signer_for(&a);
    let auth = w.owner_of(&a);
    let n = w.rng.gen_range(1..=2.min(w.grp().toks.len()));
    let mut idxs: Vec<usize> = (0..w.grp().toks.len()).collect();
    idxs.shuffle(&mut w.rng);
    let bi = w.rng.gen_range(0..2);
    let mut loans = vec![];
    for i in &idxs[..n] {
        let t = w.grp().toks[*i].clone();
        let usd = w.usd();
        let mut amount = if w.rng.gen_bool(0.25) { 0 } else { w.native(&t, usd) };
        if amount == u64::MAX {
            amount = 1000;
        }
        loans.push((t.clone(), FlashLoanPart {
            bank: if n == 1 && bi == 1 { t.t.bank1 } else { t.t.bank },
            token_account: w.users[a.owner].atas[t.mint_i],
            withdraw_amount: amount,
        }));
    }
    let parts: Vec<FlashLoanPart> = loans
        .iter()
        .map(|(_, l)| FlashLoanPart { bank: l.bank, token_account: l.token_account, withdraw_amount: l.withdraw_amount })
        .collect();
    let parts2: Vec<FlashLoanPart> = parts
        .iter()
        .map(|l| FlashLoanPart { bank: l.bank, token_account: l.token_account, withdraw_amount: l.withdraw_amount })
        .collect();
    let mut tx = Tx::one(w.build(FlashLoanBeginInstruction { account: a.key, owner, loans: parts })?);
    // what happens in between
    for (t, l) in &loans {
        let style = w.rng.gen_range(0..5);
        let other = match w.rng.gen_range(0..3) {
            0 => w.users[a.owner].others[t.mint_i],
            _ => w.users[(a.owner + 1) % w.users.len()].atas[t.mint_i],
        };
        let frac = w.rng.gen_range(0.0..1.2);
        let amt = (l.withdraw_amount as f64 * frac) as u64;
        match style {
            0 => {}
            1 | 2 => {
                // spend some of it
                tx.ixs.push(
                    spl_token::instruction::transfer(&spl_token::id(), &l.token_account, &other, &auth.pubkey(), &[], amt)
                        .unwrap(),
                );
                tx.signers.push(auth);
            }
            3 => {
                // receive from elsewhere
                let u = w.rng.gen_range(0..w.users.len());
                let from = w.users[u].others[t.mint_i];
                let usd = w.usd();
                let n = w.native(t, usd).min(1_000_000_000);
                tx.ixs.push(
                    spl_token::instruction::transfer(&spl_token::id(), &from, &l.token_account, &w.users[u].key.pubkey(), &[], n)
                        .unwrap(),
                );
                tx.signers.push(w.users[u].key);
            }
            _ => {
                // partly straight back into the vault
                let vault = w.solana.get_account::<Bank>(l.bank).vault;
                tx.ixs.push(
                    spl_token::instruction::transfer(&spl_token::id(), &l.token_account, &vault, &auth.pubkey(), &[], amt / 2)
                        .unwrap(),
                );
                tx.signers.push(auth);
            }
        }
    }
    if w.rng.gen_bool(0.03) {
        if let Some(x) = deposit(w) {
            tx = tx.join(x);
        }
    }
    let flash_loan_type = match w.rng.gen_range(0..4) {
        0 => FlashLoanType::Unknown,
        1 => FlashLoanType::SwapWithoutFee,
        _ => FlashLoanType::Swap,
    };
    let mut parts2 = parts2;
    let mut ender = a.key;
    let mut end_owner = owner;
    let trick = if w.rng.gen_bool(0.12) { w.rng.gen_range(1..8) } else { 0 };
    match trick {
        // settled for an account that did not take the loan
        1 => {
            let b = w.same_owner(&a);
            ender = b.key;
            tx.ixs[0].accounts[0].is_writable = true;
            end_owner = w.owner_of(&b);
        }
        // measured on another token account
        2 => {
            let (t, _) = &loans[0];
            parts2[0].token_account = if w.rng.gen() { w.users[a.owner].others[t.mint_i] } else { w.users[(a.owner + 1) % w.users.len()].atas[t.mint_i] };
        }
        // through the token's other bank
        3 => {
            let (t, l) = &loans[0];
            parts2[0].bank = if l.bank == t.t.bank { t.t.bank1 } else { t.t.bank };
        }
        // a loan that was not begun
        4 => {
            let t = w.grp().toks[idxs[n % idxs.len()]].clone();
            parts2.push(FlashLoanPart { bank: t.t.bank, token_account: w.users[a.owner].atas[t.mint_i], withdraw_amount: 0 });
        }
        _ => {}
    }
    let (mut end, s) = w.build(FlashLoanEndInstruction { account: ender, owner: end_owner, loans: parts2, flash_loan_type })?;
    if trick == 4 && w.rng.gen() {
        end.data[8] = n as u8;
    }
    if w.rng.gen_bool(0.02) {
        end.accounts.truncate(end.accounts.len() - 1);
    }
    match trick {
        // the end alone
        5 => {
            tx.ixs.clear();
            tx.signers.clear();
        }
        // one loan settled twice
        6 => {
            tx.ixs.push(end.clone());
            tx.signers.extend(s.iter().copied());
        }
        // with the bank's other loans forgotten
        7 if n > 1 => {
            let k = end.accounts.len();
            end.data[8] = (n - 1) as u8;
            if w.rng.gen() {
                end.accounts.remove(k - 2);
                end.accounts.remove(k - 2 - n);
            }
        }
        _ => {}
    }
    if !w.rng.gen_bool(0.02) {
        tx.ixs.push(end);
        tx.signers.extend(s);
    }
    Some(tx)
}
pub fn flash_loan_swap(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let owner = w.owner_of(&a);
    let (i, o) = (w.pick_tok(), w.pick_tok());
    let usd = w.usd();
    let amount = w.native(&i, usd).min(1 << 60);
    let mut tx = Tx::one(w.build(FlashLoanSwapBeginInstruction {
        account: a.key,
        owner,
        in_bank: i.t.bank,
        out_bank: o.t.bank,
        in_loan: amount,
    })?);
    let (ai, ao) = (w.users[a.owner].atas[i.mint_i], w.users[a.owner].atas[o.mint_i]);
    let u = (a.owner + 1) % w.users.len();
    let (bi, bo) = (w.users[u].atas[i.mint_i], w.users[u].atas[o.mint_i]);
    let out = (amount as f64 * w.tok_price(&i) / w.tok_price(&o) * w.rng.gen_range(0.9..1.05)).min(1e15) as u64;
    tx.ixs.push(spl_token::instruction::transfer(&spl_token::id(), &ai, &bi, &owner.pubkey(), &[], amount).unwrap());
    tx.ixs.push(spl_token::instruction::transfer(&spl_token::id(), &bo, &ao, &w.users[u].key.pubkey(), &[], out).unwrap());
    tx.signers.push(owner);
    tx.signers.push(w.users[u].key);
    let end = w.build(FlashLoanEndInstruction {
        account: a.key,
        owner,
        loans: vec![
            FlashLoanPart { bank: i.t.bank, token_account: ai, withdraw_amount: amount },
            FlashLoanPart { bank: o.t.bank, token_account: ao, withdraw_amount: 0 },
        ],
        flash_loan_type: FlashLoanType::Swap,
    })?;
    tx.push(end);
    Some(tx)
}
pub fn update_index(w: &mut World) -> Option<Tx> {
    let t = w.pick_tok();
    let x = if w.rng.gen_bool(0.7) {
        w.build(TokenUpdateIndexAndRateInstruction { mint_info: t.t.mint_info })
    } else {
        w.build(TokenUpdateIndexAndRateResilientInstruction { mint_info: t.t.mint_info })
    };
    w.one(x)
}
/// the crank on every token, as the keeper runs it
pub fn crank_all(w: &mut World) -> Option<Tx> {
    let toks = w.grp().toks.clone();
    for t in toks {
        w.send(TokenUpdateIndexAndRateInstruction { mint_info: t.t.mint_info });
    }
    let perps = w.grp().perps.clone();
    for p in perps {
        update_funding_of(w, &p);
        consume_all(w, &p);
    }
    None
}
pub fn charge_collateral(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let x = w.build(TokenChargeCollateralFeesInstruction { account: a.key });
    w.onef(x)
}
/// the same account over time
pub fn collateral_story(w: &mut World) -> Option<Tx> {
    let accs = w.grp().accs.clone();
    for _ in 0..w.rng.gen_range(1..4) {
        for a in &accs {
            w.send(TokenChargeCollateralFeesInstruction { account: a.key });
        }
        let d = *[43_000, 86_400, 86_401, 200_000].choose(&mut w.rng).unwrap();
        w.advance(d);
        refresh_oracles(w);
    }
    None
}
pub fn buyback(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let owner = w.owner_of(&a);
    let m = w.grp().mngo;
    let (mngo_bank, fees_bank) = (w.grp().toks[m].t.bank, w.grp().toks[0].t.bank);
    let max = *[1u64, 1000, 1_000_000, u64::MAX].choose(&mut w.rng).unwrap();
    let (mut ix, s) = w.build(AccountBuybackFeesWithMngo { owner, account: a.key, mngo_bank, fees_bank })?;
    ix.data = data(&mango_v4::instruction::AccountBuybackFeesWithMngo { max_buyback_usd: max });
    Some(Tx { ixs: vec![ix], signers: s })
}
/// gives the dao account something to sell
pub fn fund_dao(w: &mut World) -> Option<Tx> {
    let d = w.grp().dao?;
    let t = w.grp().toks[0].clone();
    let u = w.users[0].clone();
    let amount = loguni(&mut w.rng, 1e3, 1e9) as u64;
    w.build(TokenDepositInstruction {
        amount,
        reduce_only: false,
        account: d,
        owner: u.key,
        token_account: u.atas[t.mint_i],
        token_authority: u.key,
        bank_index: 0,
    })
    .map(Tx::one)
}

// ---------------------------------------------------------------- accounts

pub fn account_create(w: &mut World) -> Option<Tx> {
    if w.grp().accs.len() > 12 {
        return None;
    }
    let o = w.rng.gen_range(0..w.users.len());
    let c = (
        w.rng.gen_range(0..10),
        w.rng.gen_range(0..5),
        w.rng.gen_range(0..5),
        *[0u8, 2, 8, 16, 32].choose(&mut w.rng).unwrap(),
        w.rng.gen_range(0..5),
    );
    w.new_account(o, c);
    None
}
pub fn account_expand(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let owner = w.owner_of(&a);
    let m = w.macc(&a.key)?;
    let r = &mut w.rng;
    let mut up = |n: usize| ((n as i64 + r.gen_range(-1..4)).max(0)) as u8;
    let (tc, sc, pc, oc, cc) = (up(m.tokens.len()), up(m.serum3.len()), up(m.perps.len()), up(m.oos.len()), up(m.tcs.len()));
    let group = w.grp().group;
    let x = w.build(AccountExpandInstruction {
        account_num: a.num,
        group,
        owner,
        payer: owner,
        token_count: tc,
        serum3_count: sc,
        perp_count: pc,
        perp_oo_count: oc,
        token_conditional_swap_count: cc,
    });
    w.one(x)
}
pub fn account_migrate(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let payer = w.users[0].key;
    let x = w.build(AccountSizeMigrationInstruction { account: a.key, payer });
    w.one(x)
}
/// an account with positions in the middle of its slots is resized, migrated, used and emptied
pub fn account_story(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let owner = w.owner_of(&a);
    for _ in 0..w.rng.gen_range(1..6) {
        let m = w.macc(&a.key)?;
        match w.rng.gen_range(0..9) {
            0 => {
                // free a slot somewhere
                let v: Vec<u16> = m.active_tokens().map(|t| t.token_index).collect();
                if let Some(t) = v.choose(&mut w.rng) {
                    let tw = w.grp().toks.get(*t as usize)?.clone();
                    let token_account = w.users[a.owner].atas[tw.mint_i];
                    w.send(TokenWithdrawInstruction { amount: u64::MAX, allow_borrow: false, account: a.key, owner, token_account, bank_index: 0 });
                }
            }
            1 => {
                let t = w.pick_tok();
                let u = w.users[a.owner].clone();
                let amount = w.rng.gen_range(1..1000);
                w.send(TokenDepositInstruction { amount, reduce_only: false, account: a.key, owner: u.key, token_account: u.atas[t.mint_i], token_authority: u.key, bank_index: 0 });
            }
            2 => {
                // as it was before conditional swaps existed
                if m.active_tcs().count() > 0 {
                    continue;
                }
                let acc = w.solana.get_raw(a.key)?;
                let mut acc2 = (*acc).clone();
                let off = 8 + std::mem::size_of::<MangoAccountFixed>()
                    + MangoAccount::dynamic_token_conditional_swap_vec_offset(m.tokens.len() as u8, m.serum3.len() as u8, m.perps.len() as u8, m.oos.len() as u8);
                acc2.data.truncate(off - 4);
                if w.rng.gen_bool(0.3) {
                    // or with room to spare
                    acc2.data.resize(off + 4 + 64 + w.rng.gen_range(1..200), 0);
                }
                acc2.lamports = solana_program::rent::Rent::default().minimum_balance(acc2.data.len()) + if w.rng.gen_bool(0.3) { 12345 } else { 0 };
                w.solana.set_raw_account(a.key, acc2);
                if w.rng.gen_bool(0.5) {
                    let all: &[Act] = &[deposit, withdraw, perp_place, settle_pnl, serum_place, tcs_create, account_edit, consume, account_expand];
                    let f = *all.choose(&mut w.rng).unwrap();
                    w.step_with(f);
                }
                let payer = w.users[0].key;
                w.send(AccountSizeMigrationInstruction { account: a.key, payer });
            }
            3 => {
                // orders in slots, then some of them gone
                for _ in 0..3 {
                    w.step_with(perp_place);
                }
                w.step_with(perp_cancel);
            }
            _ => {
                let r = &mut w.rng;
                let (mut x, hold) = (
                    [m.tokens.len(), m.serum3.len(), m.perps.len(), m.oos.len(), m.tcs.len()],
                    [m.active_tokens().count(), m.active_serum().count(), m.active_perps().count(), m.active_oos().map(|x| x.0 + 1).max().unwrap_or(0), m.active_tcs().count()],
                );
                for i in 0..5 {
                    match r.gen_range(0..5) {
                        0 => x[i] = hold[i],
                        1 => x[i] = (x[i] + r.gen_range(1..4)).min(64),
                        2 => x[i] = (hold[i] as i64 + r.gen_range(-1..3)).max(0) as usize,
                        _ => {}
                    }
                }
                while 2 * x[0] + x[1] + 2 * x[2] > 28 && r.gen_bool(0.9) {
                    let i = r.gen_range(0..3);
                    x[i] = x[i].saturating_sub(1).max(hold[i]);
                }
                let group = w.grp().group;
                w.send(AccountExpandInstruction {
                    account_num: a.num,
                    group,
                    owner,
                    payer: owner,
                    token_count: x[0] as u8,
                    serum3_count: x[1] as u8,
                    perp_count: x[2] as u8,
                    perp_oo_count: x[3] as u8,
                    token_conditional_swap_count: x[4] as u8,
                });
            }
        }
    }
    None
}
pub fn account_edit(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let owner = w.signer_for(&a);
    let group = w.grp().group;
    let now = w.now();
    let d = w.rng.gen_range(0..w.users.len());
    let dk = w.users[d].key.pubkey();
    let d = w.rng.gen_range(0..w.users.len());
    let tk = w.users[d].key.pubkey();
    let r = &mut w.rng;
    let i = mango_v4::instruction::AccountEdit {
        name_opt: r.gen_bool(0.3).then(|| "name".to_string()),
        delegate_opt: r.gen_bool(0.5).then(|| if r.gen_bool(0.5) { Pubkey::default() } else { dk }),
        temporary_delegate_opt: r.gen_bool(0.5).then_some(tk),
        temporary_delegate_expiry_opt: r
            .gen_bool(0.6)
            .then(|| now + *[0u64, 10, 100, 1000, 86_400, 7 * 86_400, 7 * 86_400 + 1, 30 * 86_400].choose(r).unwrap()),
    };
    let accounts =
        mango_v4::accounts::AccountEdit { group, account: a.key, owner: owner.pubkey() };
    Some(Tx { ixs: vec![mix(&accounts, &i)], signers: vec![owner] })
}
/// what people the owner lent the account to can get out of it
pub fn delegate_story(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let o = w.owner_of(&a);
    let group = w.grp().group;
    let n = w.users.len();
    let (d, t) = (w.rng.gen_range(0..n), w.rng.gen_range(0..n));
    let (d, t) = (w.users[d].key, w.users[t].key);
    let now = w.now();
    let short = *[1u64, 5, 60, 86_400].choose(&mut w.rng).unwrap();
    let i = mango_v4::instruction::AccountEdit {
        name_opt: None,
        delegate_opt: w.rng.gen_bool(0.6).then_some(d.pubkey()),
        temporary_delegate_opt: w.rng.gen_bool(0.6).then_some(t.pubkey()),
        temporary_delegate_expiry_opt: Some(now + short),
    };
    w.run(Tx { ixs: vec![mix(&mango_v4::accounts::AccountEdit { group, account: a.key, owner: o.pubkey() }, &i)], signers: vec![o] });
    if w.rng.gen_bool(0.3) {
        let x = w.rng.gen_range(0..=short + 1);
        w.advance(x);
    }
    for _ in 0..w.rng.gen_range(3..8) {
        let who = match w.rng.gen_range(0..5) {
            0 | 1 => d,
            2 | 3 => t,
            _ => w.attacker.key,
        };
        let m = w.macc(&a.key)?;
        let held: Vec<u16> = m.active_tokens().map(|t| t.token_index).collect();
        let Some(ti) = held.choose(&mut w.rng).copied() else { break };
        let Some(tok) = w.grp().toks.iter().find(|x| x.idx == ti).cloned() else { continue };
        let ata = w.users[a.owner].atas[tok.mint_i];
        let whose = w.users.iter().position(|u| u.key.pubkey() == who.pubkey());
        let to = match w.rng.gen_range(0..6) {
            0 => w.users[a.owner].others[tok.mint_i],
            1 => whose.map_or(w.attacker.atas[tok.mint_i], |i| w.users[i].atas[tok.mint_i]),
            _ => ata,
        };
        let have = w.with_state(|s| {
            let tp = m.tok(ti)?;
            Some(native_pos(tp, s.bank0(&m.fx.group, ti)?.1))
        });
        let have = have.unwrap_or(0.0).max(0.0) as u64;
        let amount = match w.rng.gen_range(0..6) {
            0 => have / 2,
            1 => have.saturating_sub(1),
            2 => have + 1000,
            3 => have,
            _ => u64::MAX,
        };
        let allow_borrow = w.rng.gen_bool(0.3);
        let bank_index = w.rng.gen_range(0..2);
        let (ix, mut s) = w.build(TokenWithdrawInstruction { amount, allow_borrow, account: a.key, owner: who, token_account: to, bank_index })?;
        let tx = if w.rng.gen_bool(0.3) && who.pubkey() != o.pubkey() {
            // the owner's token account, in other hands for a moment
            let k = w.attacker.key;
            let give = |from: &TestKeypair, to: &TestKeypair| {
                let a = spl_token::instruction::AuthorityType::AccountOwner;
                spl_token::instruction::set_authority(&spl_token::id(), &ata, Some(&to.pubkey()), a, &from.pubkey(), &[]).unwrap()
            };
            s.push(o);
            s.push(k);
            Tx { ixs: vec![give(&o, &k), ix, give(&k, &o)], signers: s }
        } else {
            Tx { ixs: vec![ix], signers: s }
        };
        w.steps += 1;
        w.run(tx);
    }
    // what is left is the owner's again
    if w.rng.gen_bool(0.7) {
        let i = mango_v4::instruction::AccountEdit { name_opt: None, delegate_opt: Some(Pubkey::default()), temporary_delegate_opt: None, temporary_delegate_expiry_opt: None };
        w.run(Tx { ixs: vec![mix(&mango_v4::accounts::AccountEdit { group, account: a.key, owner: o.pubkey() }, &i)], signers: vec![o] });
    }
    None
}
pub fn account_close(w: &mut World) -> Option<Tx> {
    if w.grp().accs.len() < 4 {
        return None;
    }
    let a = w.pick_acc();
    let owner = w.owner_of(&a);
    let (mut ix, s) = w.build(AccountCloseInstruction {
        group: w.grp().group,
        account: a.key,
        owner,
        sol_destination: owner.pubkey(),
    })?;
    // force closing throws positions away: only tried on empty accounts
    let m = w.macc(&a.key)?;
    let empty = m.active_tokens().count() == 0 && m.active_perps().count() == 0 && m.active_serum().count() == 0;
    ix.data = data(&mango_v4::instruction::AccountClose { force_close: empty && w.rng.gen_bool(0.3) });
    let ok = w.run(Tx { ixs: vec![ix], signers: s }).ok();
    if ok {
        let g = w.g;
        w.groups[g].accs.retain(|x| x.key != a.key);
    }
    None
}
/// withdraw everything, then close
pub fn account_wind_down(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let owner = w.owner_of(&a);
    let m = w.macc(&a.key)?;
    for t in m.active_tokens() {
        let tw = w.grp().toks.get(t.token_index as usize)?.clone();
        let token_account = w.users[a.owner].atas[tw.mint_i];
        w.send(TokenWithdrawInstruction {
            amount: u64::MAX,
            allow_borrow: false,
            account: a.key,
            owner,
            token_account,
            bank_index: 0,
        });
    }
    None
}
pub fn freeze(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let (group, admin) = (w.grp().group, w.grp().admin);
    let accounts =
        mango_v4::accounts::AccountToggleFreeze { group, account: a.key, admin: admin.pubkey() };
    let freeze = w.rng.gen_bool(0.5);
    let ix = mix(&accounts, &mango_v4::instruction::AccountToggleFreeze { freeze });
    let ok = w.run(Tx { ixs: vec![ix], signers: vec![admin] }).ok();
    if ok && freeze {
        // try things on it, then thaw
        for _ in 0..6 {
            let all: &[Act] = &[deposit, withdraw, perp_place, liq_token, settle_pnl, serum_place, tcs_create, flash_loan, account_edit, consume];
            let f = *all.choose(&mut w.rng).unwrap();
            w.step_with(f);
        }
        if w.rng.gen_bool(0.8) {
            let ix = mix(&accounts, &mango_v4::instruction::AccountToggleFreeze { freeze: false });
            w.run(Tx { ixs: vec![ix], signers: vec![admin] });
        }
    }
    None
}
pub fn health_check(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let owner = w.owner_of(&a);
    let kinds = [
        (HealthCheckKind::Maint, HT::Maint),
        (HealthCheckKind::Init, HT::Init),
        (HealthCheckKind::LiquidationEnd, HT::LiqEnd),
        (HealthCheckKind::MaintRatio, HT::Maint),
        (HealthCheckKind::InitRatio, HT::Init),
        (HealthCheckKind::LiquidationEndRatio, HT::LiqEnd),
    ];
    let i = w.rng.gen_range(0..6);
    let h = w.health_of(&a.key);
    let v = h.map_or(0.0, |h| if i < 3 { h.health(kinds[i].1) } else { h.ratio(kinds[i].1) });
    let off = *[-1.0, 1.0, 0.0].choose(&mut w.rng).unwrap() * loguni(&mut w.rng, 1e-6, 1e3);
    let min_health_value = if v.is_finite() { v + v.abs() * 1e-3 * off + off } else { 100.0 };
    let x = w.build(HealthCheckInstruction {
        account: a.key,
        owner,
        min_health_value: min_health_value.clamp(-1e20, 1e20),
        check_kind: match i {
            0 => HealthCheckKind::Maint,
            1 => HealthCheckKind::Init,
            2 => HealthCheckKind::LiquidationEnd,
            3 => HealthCheckKind::MaintRatio,
            4 => HealthCheckKind::InitRatio,
            _ => HealthCheckKind::LiquidationEndRatio,
        },
    });
    w.onef(x)
}
pub fn sequence_check(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let owner = w.signer_for(&a);
    let m = w.macc(&a.key)?;
    let n = m.fx.sequence_number.wrapping_add(w.rng.gen_range(0..3)).wrapping_sub(1);
    let x = w.build(SequenceCheckInstruction { account: a.key, owner, expected_sequence_number: n });
    let mut tx = w.one(x)?;
    if w.rng.gen_bool(0.4) {
        if let Some(o) = if w.rng.gen_bool(0.5) { withdraw(w) } else { perp_place(w) } {
            tx = tx.join(o);
        }
    }
    Some(tx)
}
/// a transaction guarded by a later health check
pub fn guarded(w: &mut World) -> Option<Tx> {
    let acts: &[Act] = &[withdraw, borrow, perp_place, flash_loan, serum_place];
    let f = *acts.choose(&mut w.rng).unwrap();
    let tx = f(w)?;
    let hc = health_check(w)?;
    Some(tx.join(hc))
}
/// only the opening, or only the closing, of somebody's region
pub fn health_region_of_other(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    if w.rng.gen_bool(0.5) {
        let x = w.build(HealthRegionBeginInstruction { account: a.key });
        w.one(x)
    } else {
        let x = w.build(HealthRegionEndInstruction { account: a.key, affected_bank: None });
        w.one(x)
    }
}
/// regions opened by way of another program, closed for somebody else or not at all
pub fn region_tricks(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let b = if w.rng.gen_bool(0.6) { a } else { w.pick_acc() };
    let x = w.build(HealthRegionBeginInstruction { account: a.key })?;
    let mut tx = Tx::one(x);
    if w.rng.gen_bool(0.5) {
        tx = w.forwarded(tx);
    }
    let acts: &[Act] = &[withdraw, borrow, perp_place, serum_place, flash_loan, perp_cancel, settle_pnl];
    for _ in 0..w.rng.gen_range(0..3) {
        let f = *acts.choose(&mut w.rng).unwrap();
        if let Some(t) = f(w) {
            let t = if w.rng.gen_bool(0.4) { w.forwarded(t) } else { t };
            tx = tx.join(t);
        }
    }
    if w.rng.gen_bool(0.85) {
        let e = w.build(HealthRegionEndInstruction { account: b.key, affected_bank: None })?;
        let e = if w.rng.gen_bool(0.15) { w.forwarded(Tx::one(e)) } else { Tx::one(e) };
        tx = tx.join(e);
    }
    Some(tx)
}
pub fn health_region(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let mut begin = w.build(HealthRegionBeginInstruction { account: a.key })?;
    let mut mid: Vec<Built> = vec![];
    let acts: &[fn(&mut World, AccW) -> Option<Built>] = &[
        |w, a| perp_place_for(w, a),
        |w, a| perp_cancel_all_for(w, a),
        |w, a| serum_place_for(w, a),
        |w, a| serum_settle_for(w, a),
        |w, a| serum_cancel_for(w, a),
    ];
    for _ in 0..w.rng.gen_range(0..4) {
        let f = *acts.choose(&mut w.rng).unwrap();
        if let Some(x) = f(w, a) {
            mid.push(x);
        }
    }
    if w.rng.gen_bool(0.25) {
        // not on the list of what a region may contain
        let acts: &[Act] = &[
            withdraw, deposit, flash_loan, borrow, settle_pnl, liq_token, tcs_create, tcs_trigger, tcs_start, account_edit, perp_deactivate, consume, update_index,
            settle_fees, health_check, sequence_check, deposit_into_existing, serum_create, serum_close, charge_collateral, liq_perp_base, update_funding, health_region_of_other,
        ];
        let f = *acts.choose(&mut w.rng).unwrap();
        if let Some(t) = f(w) {
            for ix in t.ixs {
                mid.push((ix, t.signers.clone()));
            }
        }
    }
    if w.rng.gen_bool(0.06) {
        // another program in between
        let ix = match w.rng.gen_range(0..2) {
            0 => Instruction { program_id: crate::svm::memo_like_id(), accounts: vec![], data: vec![] },
            _ => {
                let t = w.pick_tok();
                let (x, y) = (w.users[a.owner].atas[t.mint_i], w.users[a.owner].others[t.mint_i]);
                spl_token::instruction::transfer(&spl_token::id(), &x, &y, &w.owner_of(&a).pubkey(), &[], 1).unwrap()
            }
        };
        let o = w.owner_of(&a);
        mid.push((ix, vec![o]));
    }
    let end = w.build(HealthRegionEndInstruction { account: a.key, affected_bank: None })?;
    // positions opened inside need their accounts at the end
    let end = match (mid.is_empty(), w.macc(&a.key)) {
        (false, Some(m)) => {
            let mut acc = get_mango_account(&w.solana, m.key);
            let mut touched: Vec<u16> = vec![];
            for (ix, _) in &mid {
                for p in w.grp().perps.iter() {
                    if ix.accounts.iter().any(|x| x.pubkey == p.market) {
                        touched.push(p.index);
                    }
                }
            }
            let perps = w.grp().perps.clone();
            for i in touched {
                if let Some(p) = perps.iter().find(|p| p.index == i) {
                    let _ = acc.ensure_perp_position(i, p.settle);
                }
            }
            let metas = quiet(|| derive_health_check_remaining_account_metas(&*w.solana, &acc, None, false, None));
            match metas {
                Some(mm) => {
                    let mut e = end;
                    e.0.accounts.truncate(1);
                    e.0.accounts.extend(mm);
                    e
                }
                None => end,
            }
        }
        _ => end,
    };
    if w.rng.gen_bool(0.05) {
        begin.0.accounts.truncate(4);
    }
    let mut tx = Tx::one(begin);
    for m in mid {
        tx.push(m);
    }
    if !w.rng.gen_bool(0.04) {
        tx.push(end);
    }
    Some(tx)
}

// ---------------------------------------------------------------- perps

pub fn perp_place_for(w: &mut World, a: AccW) -> Option<Built> {
    let p = w.pick_perp()?;
    perp_place_in(w, a, &p)
}
pub fn perp_price_lots(p: &PerpW) -> i64 {
    ((p.price * p.base_lot as f64 / p.quote_lot as f64).round() as i64).max(1)
}
pub fn perp_place_in(w: &mut World, a: AccW, p: &PerpW) -> Option<Built> {
    let owner = w.signer_for(&a);
    let mid = perp_price_lots(p) as f64;
    let side = if w.rng.gen_bool(0.5) { Side::Bid } else { Side::Ask };
    let usd = w.usd().min(w.cfg.initial_usd * 2.0);
    let lot_usd = (p.price * p.base_lot as f64 / 1e6).max(1e-12);
    let r = &mut w.rng;
    // few price levels near the oracle, so that orders meet
    let tick = (mid / 200.0).max(1.0);
    let mut price = (mid + tick * r.gen_range(-6..=6) as f64).round() as i64;
    match r.gen_range(0..40) {
        0 => price = 1,
        1 => price = i64::MAX,
        2 => price = r.gen_range(1..1_000_000),
        3 => price = 0,
        4 => price = -5,
        _ => {}
    }
    let mut base = ((usd / lot_usd) as i64).max(1);
    match r.gen_range(0..30) {
        0 => base = 1,
        1 => base = 0,
        2 => base = i64::MAX,
        3 => base = -1,
        _ => {}
    }
    let quote = match r.gen_range(0..6) {
        0 => (base as f64 * mid * r.gen_range(0.1..1.5)) as i64,
        1 => r.gen_range(0..1000),
        _ => i64::MAX,
    };
    let order_type = match r.gen_range(0..10) {
        0..=4 => PlaceOrderType::Limit,
        5 => PlaceOrderType::ImmediateOrCancel,
        6 => PlaceOrderType::PostOnly,
        7 => PlaceOrderType::Market,
        _ => PlaceOrderType::PostOnlySlide,
    };
    let self_trade_behavior = match r.gen_range(0..4) {
        0 => SelfTradeBehavior::CancelProvide,
        1 => SelfTradeBehavior::AbortTransaction,
        _ => SelfTradeBehavior::DecrementTake,
    };
    let reduce_only = r.gen_bool(0.1);
    let now = w.solana.clock().unix_timestamp as u64;
    let expiry_timestamp = match r.gen_range(0..8) {
        0 => now + r.gen_range(1..30),
        1 => now + r.gen_range(1..400),
        2 => now - r.gen_range(0..2),
        3 if r.gen_bool(0.3) => now + *[65_534u64, 65_535, 65_536, 65_537, 65_600, 100_000, 1 << 40].choose(r).unwrap(),
        _ => 0,
    };
    let limit = *[1u8, 3, 10, 10, 20, 255, 0].choose(r).unwrap();
    let client_order_id = if r.gen_bool(0.2) { 7 } else { w.next_client_id };
    w.next_client_id += 1;
    let pegged = w.rng.gen_bool(0.25);
    if pegged {
        let (mut ix, s) = w.build(PerpPlaceOrderPeggedInstruction {
            account: a.key,
            perp_market: p.market,
            owner,
            side,
            price_offset: 0,
            max_base_lots: base,
            max_quote_lots: quote,
            client_order_id,
            peg_limit: -1,
        })?;
        let r = &mut w.rng;
        let off = (tick * r.gen_range(-6..=6) as f64) as i64;
        let peg_limit = match r.gen_range(0..4) {
            0 => (mid + tick * r.gen_range(-8..=8) as f64) as i64,
            _ => -1,
        };
        let max_oracle_staleness_slots = *[-1i32, -1, 0, 10, 1000].choose(r).unwrap();
        ix.data = if r.gen_bool(0.8) {
            data(&mango_v4::instruction::PerpPlaceOrderPeggedV2 {
                side,
                price_offset_lots: off,
                peg_limit,
                max_base_lots: base,
                max_quote_lots: quote,
                client_order_id,
                order_type,
                self_trade_behavior,
                reduce_only,
                expiry_timestamp,
                limit,
                max_oracle_staleness_slots,
            })
        } else {
            data(&mango_v4::instruction::PerpPlaceOrderPegged {
                side,
                price_offset_lots: off,
                peg_limit,
                max_base_lots: base,
                max_quote_lots: quote,
                client_order_id,
                order_type,
                reduce_only,
                expiry_timestamp,
                limit,
                max_oracle_staleness_slots,
            })
        };
        return Some((ix, s));
    }
    let (mut ix, s) = w.build(PerpPlaceOrderInstruction {
        account: a.key,
        perp_market: p.market,
        owner,
        side,
        price_lots: price,
        max_base_lots: base,
        max_quote_lots: quote,
        reduce_only,
        client_order_id,
        self_trade_behavior,
        limit,
    })?;
    ix.data = if w.rng.gen_bool(0.8) {
        data(&mango_v4::instruction::PerpPlaceOrderV2 {
            side,
            price_lots: price,
            max_base_lots: base,
            max_quote_lots: quote,
            client_order_id,
            order_type,
            self_trade_behavior,
            reduce_only,
            expiry_timestamp,
            limit,
        })
    } else {
        data(&mango_v4::instruction::PerpPlaceOrder {
            side,
            price_lots: price,
            max_base_lots: base,
            max_quote_lots: quote,
            client_order_id,
            order_type,
            reduce_only,
            expiry_timestamp,
            limit,
        })
    };
    Some(w.with_fallbacks((ix, s)))
}
pub fn perp_place(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let x = perp_place_for(w, a);
    w.one(x)
}
/// maker and taker at a common price, then the event queue
pub fn perp_trade(w: &mut World) -> Option<Tx> {
    let p = w.pick_perp()?;
    let a = w.pick_acc();
    let b = w.pick_other(&a)?;
    let mid = perp_price_lots(&p) as f64;
    let price = (mid * w.rng.gen_range(0.97..1.03)).round().max(1.0) as i64;
    let lot_usd = (p.price * p.base_lot as f64 / 1e6).max(1e-12);
    let usd = loguni(&mut w.rng, w.cfg.initial_usd * 0.05, w.cfg.initial_usd * 4.0);
    let base = ((usd / lot_usd) as i64).max(1);
    let sides = if w.rng.gen_bool(0.5) { [Side::Bid, Side::Ask] } else { [Side::Ask, Side::Bid] };
    for (acc, side) in [(a, sides[0]), (b, sides[1])] {
        let owner = w.owner_of(&acc);
        w.send(PerpPlaceOrderInstruction {
            account: acc.key,
            perp_market: p.market,
            owner,
            side,
            price_lots: price,
            max_base_lots: base,
            max_quote_lots: i64::MAX,
            reduce_only: false,
            client_order_id: 0,
            self_trade_behavior: SelfTradeBehavior::DecrementTake,
            limit: 10,
        });
    }
    if w.rng.gen_bool(0.7) {
        consume_all(w, &p);
    }
    None
}
pub fn perp_cancel_all_for(w: &mut World, a: AccW) -> Option<Built> {
    let p = w.pick_perp()?;
    let owner = w.signer_for(&a);
    let limit = *[0u8, 1, 2, 10, 255].choose(&mut w.rng).unwrap();
    let (ix, s) = w.build(PerpCancelAllOrdersInstruction { account: a.key, perp_market: p.market, owner, limit })?;
    if w.rng.gen_bool(0.4) {
        let side_option = *[None, Some(Side::Bid), Some(Side::Ask)].choose(&mut w.rng).unwrap();
        let mut ix = ix;
        ix.data = data(&mango_v4::instruction::PerpCancelAllOrdersBySide { side_option, limit });
        return Some((ix, s));
    }
    Some((ix, s))
}
pub fn perp_cancel(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let p = w.pick_perp()?;
    let owner = w.signer_for(&a);
    let m = w.macc(&a.key)?;
    match w.rng.gen_range(0..4) {
        0 | 1 => {
            // one of its orders, mostly
            let mut ids: Vec<u128> = m.active_oos().filter(|(_, o)| o.market == p.index).map(|(_, o)| o.id).collect();
            if w.rng.gen_bool(0.1) {
                ids = w.with_state(|s| {
                    s.accounts.values().flat_map(|m| m.active_oos().map(|(_, o)| o.id).collect::<Vec<_>>()).collect()
                });
            }
            let order_id = ids.choose(&mut w.rng).copied().unwrap_or(12345);
            let x = w.build(PerpCancelOrderInstruction { account: a.key, perp_market: p.market, owner, order_id });
            w.one(x)
        }
        2 => {
            let ids: Vec<u64> = m.active_oos().map(|(_, o)| o.client_id).collect();
            let client_order_id = ids.choose(&mut w.rng).copied().unwrap_or(7);
            let x = w.build(PerpCancelOrderByClientOrderIdInstruction {
                account: a.key,
                perp_market: p.market,
                owner,
                client_order_id,
            });
            w.one(x)
        }
        _ => {
            let x = perp_cancel_all_for(w, a);
            w.one(x)
        }
    }
}
pub fn consume_ix(w: &mut World, p: &PerpW, limit: usize, drop_some: bool) -> Option<Built> {
    let q = w.solana.get_account::<PerpMarket>(p.market).event_queue;
    let mut accs: Vec<Pubkey> = w.with_state(|s| {
        let Some(q) = s.queue(&q) else { return vec![] };
        let mut v = vec![];
        for e in q.events.iter().take(limit) {
            match e {
                Ev::Fill(f) => v.extend([f.maker, f.taker]),
                Ev::Out(o) => v.push(o.owner),
                _ => {}
            }
        }
        v
    });
    accs.sort();
    accs.dedup();
    accs.shuffle(&mut w.rng);
    if drop_some && !accs.is_empty() && w.rng.gen_bool(0.5) {
        accs.pop();
    }
    let (mut ix, s) = w.build(PerpConsumeEventsInstruction { perp_market: p.market, mango_accounts: accs })?;
    ix.data = data(&mango_v4::instruction::PerpConsumeEvents { limit });
    Some((ix, s))
}
pub fn consume(w: &mut World) -> Option<Tx> {
    let p = w.pick_perp()?;
    let limit = *[1usize, 2, 5, 8, 20].choose(&mut w.rng).unwrap();
    let x = consume_ix(w, &p, limit, w.rng.clone().gen_bool(0.15));
    w.one(x)
}
pub fn consume_all(w: &mut World, p: &PerpW) {
    let q = w.solana.get_account::<PerpMarket>(p.market).event_queue;
    for _ in 0..80 {
        let n = w.with_state(|s| s.queue(&q).map_or(0, |q| q.count));
        if n == 0 {
            break;
        }
        match consume_ix(w, p, 8, false) {
            Some(x) => {
                if !w.run(Tx::one(x)).ok() {
                    break;
                }
            }
            None => break,
        }
    }
}
pub fn update_funding_of(w: &mut World, p: &PerpW) {
    let m: PerpMarket = w.solana.get_account(p.market);
    let t = w.grp().toks[p.base_tok].clone();
    w.send(PerpUpdateFundingInstruction { perp_market: p.market, bank: t.t.bank, oracle: m.oracle });
}
pub fn update_funding(w: &mut World) -> Option<Tx> {
    let p = w.pick_perp()?;
    let m: PerpMarket = w.solana.get_account(p.market);
    let t = w.grp().toks[p.base_tok].clone();
    let x = w.build(PerpUpdateFundingInstruction { perp_market: p.market, bank: t.t.bank, oracle: m.oracle });
    w.one(x)
}
pub fn settle_pnl(w: &mut World) -> Option<Tx> {
    let p = w.pick_perp()?;
    // someone in profit against someone at a loss, mostly
    let mut up = vec![];
    let mut down = vec![];
    for a in w.grp().accs.clone() {
        if let Some(h) = w.health_of(&a.key) {
            if let Some(x) = h.perp(p.index) {
                let u = x.upnl();
                if u > 0.0 {
                    up.push(a)
                }
                if u < 0.0 {
                    down.push(a)
                }
            }
        }
    }
    let (a, b) = if !up.is_empty() && !down.is_empty() && w.rng.gen_bool(0.93) {
        let want = w.focus.and_then(|x| x.0);
        let mut one = |v: &Vec<AccW>| match v.iter().find(|x| Some(x.key) == want) {
            Some(x) => *x,
            None => *v.choose(&mut w.rng).unwrap(),
        };
        (one(&up), one(&down))
    } else {
        let a = w.pick_acc();
        (a, w.pick_acc())
    };
    let s = w.pick_acc();
    let settler_owner = w.signer_for(&s);
    let x = w.build(PerpSettlePnlInstruction {
        settler: s.key,
        settler_owner,
        account_a: a.key,
        account_b: b.key,
        perp_market: p.market,
    });
    w.onef(x)
}
pub fn settle_fees(w: &mut World) -> Option<Tx> {
    let p = w.pick_perp()?;
    let a = w.pick_acc();
    let max_settle_amount = *[1u64, 100, 1_000_000, u64::MAX].choose(&mut w.rng).unwrap();
    let x = w.build(PerpSettleFeesInstruction { account: a.key, perp_market: p.market, max_settle_amount });
    w.onef(x)
}
pub fn perp_deactivate(w: &mut World) -> Option<Tx> {
    let p = w.pick_perp()?;
    let a = w.pick_acc();
    let owner = w.signer_for(&a);
    let x = w.build(PerpDeactivatePositionInstruction { account: a.key, perp_market: p.market, owner });
    w.one(x)
}
pub fn perp_force_cancel(w: &mut World) -> Option<Tx> {
    let p = w.pick_perp()?;
    let a = w.pick_liqee();
    let limit = *[1u8, 2, 10].choose(&mut w.rng).unwrap();
    let (mut ix, s) = w.build(PerpLiqForceCancelOrdersInstruction { account: a.key, perp_market: p.market })?;
    ix.data = data(&mango_v4::instruction::PerpLiqForceCancelOrders { limit });
    let x = w.with_fallbacks((ix, s));
    Some(Tx::one(x))
}
pub fn liq_perp_base_for(w: &mut World, a: AccW, p: PerpW) -> Option<Tx> {
    let liqor = w.pick_liqor(&a)?;
    let liqor_owner = w.signer_for(&liqor);
    let lots = w.macc(&a.key)?.perp(p.index).map_or(0, |x| x.base_position_lots);
    let r = &mut w.rng;
    let mut max_base_transfer = match r.gen_range(0..8) {
        0 => 0,
        1 => -lots,
        2 => lots.signum(),
        3 => lots / 2,
        4 => i64::MAX * lots.signum(),
        _ => lots,
    };
    if r.gen_bool(0.02) {
        max_base_transfer = i64::MIN;
    }
    let max_pnl_transfer = *[0u64, 1, 1000, 1_000_000, u64::MAX, u64::MAX].choose(r).unwrap();
    let x = w.build(PerpLiqBaseOrPositivePnlInstruction {
        liqor: liqor.key,
        liqor_owner,
        liqee: a.key,
        perp_market: p.market,
        max_base_transfer,
        max_pnl_transfer,
    });
    w.onef(x)
}
fn perp_of(w: &mut World, a: &AccW) -> Option<PerpW> {
    let m = w.macc(&a.key)?;
    let have: Vec<u16> = m.active_perps().map(|p| p.market_index).collect();
    let v: Vec<PerpW> = w.grp().perps.iter().filter(|p| have.contains(&p.index)).cloned().collect();
    if v.is_empty() || w.rng.gen_bool(0.05) {
        return w.pick_perp();
    }
    v.choose(&mut w.rng).cloned()
}
pub fn liq_perp_base(w: &mut World) -> Option<Tx> {
    let a = w.pick_liqee();
    let p = perp_of(w, &a)?;
    liq_perp_base_for(w, a, p)
}
pub fn liq_perp_negative_for(w: &mut World, a: AccW, p: PerpW) -> Option<Tx> {
    let liqor = w.pick_liqor(&a)?;
    let liqor_owner = w.signer_for(&liqor);
    let max_liab_transfer = *[0u64, 1, 1000, 1_000_000, u64::MAX, u64::MAX, u64::MAX].choose(&mut w.rng).unwrap();
    let x = w.build(PerpLiqNegativePnlOrBankruptcyInstruction {
        liqor: liqor.key,
        liqor_owner,
        liqee: a.key,
        perp_market: p.market,
        max_liab_transfer,
    });
    w.onef(x)
}
pub fn liq_perp_negative(w: &mut World) -> Option<Tx> {
    let a = w.pick_liqee();
    let p = perp_of(w, &a)?;
    liq_perp_negative_for(w, a, p)
}
pub fn perp_force_close(w: &mut World) -> Option<Tx> {
    let p = w.pick_perp()?;
    let mut l = vec![];
    let mut s = vec![];
    for a in w.grp().accs.clone() {
        if let Some(m) = w.macc(&a.key) {
            match m.perp(p.index).map(|x| x.base_position_lots) {
                Some(x) if x > 0 => l.push(a),
                Some(x) if x < 0 => s.push(a),
                _ => {}
            }
        }
    }
    let a = l.choose(&mut w.rng).cloned().unwrap_or_else(|| w.pick_acc());
    let b = s.choose(&mut w.rng).cloned().unwrap_or_else(|| w.pick_acc());
    let (a, b) = if w.rng.gen_bool(0.05) { (b, a) } else { (a, b) };
    let x = w.build(PerpForceClosePositionInstruction { account_a: a.key, account_b: b.key, perp_market: p.market });
    w.onef(x)
}
/// shut a perp market down
pub fn perp_delist(w: &mut World) -> Option<Tx> {
    if !w.rng.gen_bool(0.3) {
        return None;
    }
    let p = w.pick_perp()?;
    let (group, admin) = (w.grp().group, w.grp().admin);
    consume_all(w, &p);
    w.send(PerpMakeReduceOnly { group, admin, perp_market: p.market, reduce_only: true, force_close: false });
    for _ in 0..w.rng.gen_range(0..12) {
        w.step_with(perp_place);
        w.step_with(consume);
        w.step_with(perp_cancel);
    }
    w.send(PerpMakeReduceOnly { group, admin, perp_market: p.market, reduce_only: true, force_close: true });
    for _ in 0..w.rng.gen_range(1..20) {
        w.step_with(perp_force_close);
        if w.rng.gen_bool(0.3) {
            w.step_with(settle_pnl);
        }
        if w.rng.gen_bool(0.2) {
            w.step_with(perp_deactivate);
        }
    }
    w.send(PerpMakeReduceOnly { group, admin, perp_market: p.market, reduce_only: false, force_close: false });
    None
}

// ---------------------------------------------------------------- liquidation of tokens

pub fn liq_token_for(w: &mut World, a: AccW) -> Option<Tx> {
    let liqor = w.pick_liqor(&a)?;
    let liqor_owner = w.signer_for(&liqor);
    let h = w.health_of(&a.key);
    let (mut assets, mut liabs) = (vec![], vec![]);
    if let Some(h) = &h {
        for t in &h.toks {
            if t.spot > 0.0 {
                assets.push(t.idx)
            }
            if t.spot < 0.0 {
                liabs.push(t.idx)
            }
        }
    }
    let asset = assets.choose(&mut w.rng).copied().unwrap_or(0);
    let liab = liabs.choose(&mut w.rng).copied().unwrap_or(1);
    let lt = w.grp().toks.get(liab as usize)?.clone();
    let usd = w.usd();
    let amt = w.native(&lt, usd);
    let mut max_liab_transfer = match w.rng.gen_range(0..3) {
        0 => I80F48::from_num((amt.min(1 << 60)) as u64),
        1 => I80F48::from_num(loguni(&mut w.rng, 0.01, 1e9)),
        _ => I80F48::from_num(1u64 << 55),
    };
    if w.rng.gen_bool(0.02) {
        max_liab_transfer = I80F48::from_num(-1);
    }
    let (ab, lb) = (w.rng.gen_range(0..2), w.rng.gen_range(0..2));
    let x = w.build(TokenLiqWithTokenInstruction {
        liqee: a.key,
        liqor: liqor.key,
        liqor_owner,
        asset_token_index: asset,
        asset_bank_index: ab,
        liab_token_index: liab,
        liab_bank_index: lb,
        max_liab_transfer,
    });
    w.onef(x)
}
pub fn liq_token(w: &mut World) -> Option<Tx> {
    let a = w.pick_liqee();
    liq_token_for(w, a)
}
pub fn liq_bankrupt_for(w: &mut World, a: AccW) -> Option<Tx> {
    let liqor = w.pick_liqor(&a)?;
    let liqor_owner = w.signer_for(&liqor);
    let m = w.macc(&a.key)?;
    let liabs: Vec<u16> = m.active_tokens().filter(|t| t.indexed_position < 0).map(|t| t.token_index).collect();
    let li = liabs.choose(&mut w.rng).copied().unwrap_or(1);
    let lt = w.grp().toks.get(li as usize)?.clone();
    let max_liab_transfer = match w.rng.gen_range(0..3) {
        0 => I80F48::from_num(loguni(&mut w.rng, 0.5, 1e8)),
        _ => I80F48::from_num(1u64 << 55),
    };
    let x = w.build(TokenLiqBankruptcyInstruction {
        liqee: a.key,
        liqor: liqor.key,
        liqor_owner,
        max_liab_transfer,
        liab_mint_info: lt.t.mint_info,
    });
    w.onef(x)
}
pub fn liq_bankrupt(w: &mut World) -> Option<Tx> {
    let a = w.pick_liqee();
    liq_bankrupt_for(w, a)
}
pub fn force_close_borrows(w: &mut World) -> Option<Tx> {
    // any borrower of a token under force close
    let a = w.pick_acc();
    force_close_borrows_for(w, a)
}
fn force_close_borrows_for(w: &mut World, a: AccW) -> Option<Tx> {
    let liqor = w.pick_liqor(&a)?;
    let liqor_owner = w.signer_for(&liqor);
    let m = w.macc(&a.key)?;
    let (mut assets, mut liabs) = (vec![], vec![]);
    for t in m.active_tokens() {
        if t.indexed_position < 0 {
            liabs.push(t.token_index)
        } else {
            assets.push(t.token_index)
        }
    }
    let asset = assets.choose(&mut w.rng).copied().unwrap_or(0);
    let liab = liabs.choose(&mut w.rng).copied().unwrap_or(1);
    let max_liab_transfer = *[1u64, 1000, u64::MAX, u64::MAX].choose(&mut w.rng).unwrap();
    let (ab, lb) = (w.rng.gen_range(0..2), w.rng.gen_range(0..2));
    let x = w.build(TokenForceCloseBorrowsWithTokenInstruction {
        liqee: a.key,
        liqor: liqor.key,
        liqor_owner,
        asset_token_index: asset,
        asset_bank_index: ab,
        liab_token_index: liab,
        liab_bank_index: lb,
        max_liab_transfer,
    });
    w.onef(x)
}
pub fn force_withdraw(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let t = w.pick_tok();
    let target = match w.rng.gen_range(0..4) {
        0 => w.users[a.owner].others[t.mint_i],
        1 => w.attacker.atas[t.mint_i],
        _ => w.users[a.owner].atas[t.mint_i],
    };
    let bank = *t.banks.choose(&mut w.rng)?;
    force_withdraw_to(w, a, t.mint_i, bank, target)
}
/// usually names the owner's associated account and `target` besides
fn force_withdraw_to(w: &mut World, a: AccW, mint_i: usize, bank: Pubkey, target: Pubkey) -> Option<Tx> {
    let mut x = w.build(TokenForceWithdrawInstruction { account: a.key, bank, target })?;
    if w.rng.gen_bool(0.9) {
        let i = x.0.accounts.iter().position(|m| m.pubkey == target)?;
        x.0.accounts[i].pubkey = w.users[a.owner].atas[mint_i];
    }
    w.one(Some(x))
}
/// take a token through reduce only, force close of borrows and force withdrawal, then restore it
pub fn token_delist(w: &mut World) -> Option<Tx> {
    if !w.rng.gen_bool(0.3) {
        return None;
    }
    let nt = w.grp().toks.len();
    if nt < 2 {
        return None;
    }
    let i = w.rng.gen_range(1..nt);
    let t = w.grp().toks[i].clone();
    let (group, admin, security) = (w.grp().group, w.grp().admin, w.grp().security);
    let who = if w.rng.gen_bool(0.3) { security } else { admin };
    let mint = t.t.mint.pubkey;
    let before: Bank = w.solana.get_account(t.t.bank);
    let mode = *[1u8, 2].choose(&mut w.rng).unwrap();
    let force = w.rng.gen_bool(0.6);
    w.send(TokenMakeReduceOnly { group, admin: who, mint, reduce_only: mode, force_close: false });
    for _ in 0..w.rng.gen_range(0..12) {
        let acts: &[Act] = &[deposit, withdraw, borrow, serum_place, flash_loan, tcs_trigger, deposit_into_existing];
        let f = *acts.choose(&mut w.rng).unwrap();
        w.step_with(f);
    }
    if force {
        let mut o = token_edit_instruction_default();
        o.reduce_only_opt = Some(1);
        o.force_close_opt = Some(true);
        w.send(TokenEdit { group, admin, mint, fallback_oracle: t.fallback.unwrap_or_default(), options: o });
        for a in w.grp().accs.clone() {
            let borrows = w.macc(&a.key).and_then(|m| m.tok(t.idx).map(|x| x.indexed_position < 0)).unwrap_or(false);
            if !borrows {
                continue;
            }
            for _ in 0..3 {
                w.step_with2(|w| force_close_borrows_for(w, a));
            }
        }
    }
    if w.rng.gen_bool(0.6) {
        let mut o = token_edit_instruction_default();
        o.reduce_only_opt = Some(1);
        o.maint_asset_weight_opt = Some(0.0);
        o.init_asset_weight_opt = Some(0.0);
        o.disable_asset_liquidation_opt = Some(true);
        o.force_withdraw_opt = Some(true);
        w.send(TokenEdit { group, admin, mint, fallback_oracle: t.fallback.unwrap_or_default(), options: o });
        for a in w.grp().accs.clone() {
            let target = match w.rng.gen_range(0..4) {
                0 => w.users[a.owner].others[t.mint_i],
                1 => w.attacker.atas[t.mint_i],
                _ => w.users[a.owner].atas[t.mint_i],
            };
            let bank = *t.banks.choose(&mut w.rng).unwrap();
            if w.rng.gen_bool(0.3) {
                // the owner's usual account was given away
                w.detour(|w| {
                    let u = &w.users[a.owner];
                    let to = w.attacker.key.pubkey();
                    let ata = u.atas[t.mint_i];
                    let ix = spl_token::instruction::set_authority(&spl_token::id(), &ata, Some(&to), spl_token::instruction::AuthorityType::AccountOwner, &u.key.pubkey(), &[]).unwrap();
                    let tx = Tx::one((ix, vec![u.key.clone()]));
                    w.step_tx(tx);
                    w.step_with2(|w| force_withdraw_to(w, a, t.mint_i, bank, target));
                });
            }
            w.step_with2(|w| force_withdraw_to(w, a, t.mint_i, bank, target));
        }
    }
    let mut o = token_edit_instruction_default();
    o.force_withdraw_opt = Some(false);
    o.disable_asset_liquidation_opt = Some(false);
    o.force_close_opt = Some(false);
    o.reduce_only_opt = Some(0);
    o.maint_asset_weight_opt = Some(before.maint_asset_weight.to_num());
    o.init_asset_weight_opt = Some(before.init_asset_weight.to_num());
    w.send(TokenEdit { group, admin, mint, fallback_oracle: t.fallback.unwrap_or_default(), options: o });
    None
}

// ---------------------------------------------------------------- prices

pub fn set_price(w: &mut World, ti: usize, price: f64) {
    let price = price.clamp(1e-9, 1e12);
    let g = w.g;
    w.groups[g].toks[ti].price = price;
    let t = w.grp().toks[ti].clone();
    stub_or_feed(w, t.t.oracle, t.dec, &t.t.mint.pubkey, price);
    for p in w.groups[g].perps.iter_mut() {
        if !p.own_oracle && p.oracle == t.t.oracle {
            p.price = price;
        }
    }
    if w.rng.gen_bool(0.5) {
        if let Some(f) = t.fallback {
            let q = price * w.rng.gen_range(0.98..1.02);
            stub_or_feed(w, f, t.dec, &t.t.mint.pubkey, q);
        }
    }
}
pub fn set_perp_price(w: &mut World, pi: usize, price: f64) {
    let g = w.g;
    let p = w.grp().perps[pi].clone();
    if !p.own_oracle {
        return set_price(w, p.base_tok, price);
    }
    let price = price.clamp(1e-9, 1e12);
    w.groups[g].perps[pi].price = price;
    let (mint, dec) = (w.grp().toks[p.base_tok].t.mint.pubkey, w.grp().toks[p.base_tok].dec);
    stub_or_feed(w, p.oracle, dec, &mint, price);
}
fn stub_or_feed(w: &mut World, oracle: Pubkey, dec: u8, mint: &Pubkey, price: f64) {
    if w.cfg.oracle_kinds && w.source_kind(&oracle) != Some(crate::oracles::Kind::Stub) {
        let x = w.fresh(price);
        w.write_feed(&oracle, dec, mint, &x);
    } else {
        let (group, admin) = (w.grp().group, w.grp().admin);
        w.send(StubOracleSetInstruction { group, admin, mint: *mint, price, oracle });
    }
}
pub fn price_walk(w: &mut World) -> Option<Tx> {
    let big = w.rng.gen_bool(0.15);
    let f = if big { w.rng.gen_range(0.5..1.8) } else { w.rng.gen_range(0.97..1.03) };
    if w.rng.gen_bool(0.5) || w.grp().perps.is_empty() {
        let i = w.rng.gen_range(0..w.grp().toks.len());
        let f = if i == 0 && w.rng.gen_bool(0.8) { 1.0 } else { f };
        let p = w.grp().toks[i].price * f;
        set_price(w, i, p);
    } else {
        let i = w.rng.gen_range(0..w.grp().perps.len());
        let p = w.grp().perps[i].price * f;
        set_perp_price(w, i, p);
    }
    None
}
/// oracles become stale or unconfident, then usually recover a few actions later
pub fn oracle_trouble(w: &mut World) -> Option<Tx> {
    if w.cfg.oracle_kinds {
        return feed_trouble(w);
    }
    let i = w.rng.gen_range(0..w.grp().toks.len());
    let t = w.grp().toks[i].clone();
    let (group, admin) = (w.grp().group, w.grp().admin);
    let slot = w.solana.clock().slot;
    let mint = t.t.mint.pubkey;
    let (oracle, price) = match (t.fallback, w.rng.gen_range(0..4)) {
        (Some(f), 0) => (f, t.price),
        (_, 1) if !w.grp().perps.is_empty() => {
            let p = w.pick_perp()?;
            (p.oracle, p.price)
        }
        _ => (t.t.oracle, t.price),
    };
    let dev = *[0.0, 0.005, 0.05, 0.099, 0.101, 0.5, 2.0].choose(&mut w.rng).unwrap();
    let lus = match w.rng.gen_range(0..4) {
        0 => 0,
        1 => slot,
        2 => slot.saturating_sub(99 + w.rng.gen_range(0..4)),
        _ => slot - w.rng.gen_range(0..5000),
    };
    w.send(StubOracleSetTestInstruction { oracle, mint, group, admin, price, last_update_slot: lus, deviation: price * dev });
    for _ in 0..w.rng.gen_range(1..8) {
        let acts: &[Act] = &[
            deposit, withdraw, borrow, perp_place, liq_token, update_index, settle_pnl, health_check, serum_place,
            flash_loan, update_funding, tcs_trigger, consume, perp_cancel, liq_perp_base, liq_bankrupt, charge_collateral,
        ];
        let f = *acts.choose(&mut w.rng).unwrap();
        w.step_with(f);
    }
    if w.rng.gen_bool(0.85) {
        w.send(StubOracleSetTestInstruction { oracle, mint, group, admin, price, last_update_slot: 0, deviation: 0.0 });
    }
    None
}
fn feed_trouble(w: &mut World) -> Option<Tx> {
    let v = w.sources();
    let s = v.choose(&mut w.rng)?;
    let x = w.faulty(s);
    w.write_feed(&s.key, s.dec, &s.mint, &x);
    let faults = std::mem::replace(&mut w.cfg.oracle_faults, 0.02);
    for _ in 0..w.rng.gen_range(2..12) {
        let (n, f) = *ACTIONS.choose(&mut w.rng).unwrap();
        let quiet = ["time", "price_walk"].contains(&n);
        if !STORIES.contains(&n) && (!quiet || w.rng.gen_bool(0.2)) && !n.starts_with("account_c") {
            w.step_with(f);
        }
    }
    w.cfg.oracle_faults = faults;
    if w.rng.gen_bool(0.9) {
        let x = w.fresh(s.price);
        w.write_feed(&s.key, s.dec, &s.mint, &x);
    }
    None
}
pub fn refresh_oracles(w: &mut World) {
    if w.cfg.oracle_kinds {
        return w.republish();
    }
    for g in 0..w.groups.len() {
        let old = w.g;
        w.g = g;
        for i in 0..w.grp().toks.len() {
            let t = w.grp().toks[i].clone();
            let (group, admin) = (w.grp().group, w.grp().admin);
            let mint = t.t.mint.pubkey;
            w.send(StubOracleSetTestInstruction {
                oracle: t.t.oracle, mint, group, admin, price: t.price, last_update_slot: 0, deviation: 0.0,
            });
        }
        w.g = old;
    }
}
pub fn time(w: &mut World) -> Option<Tx> {
    let d = match w.rng.gen_range(0..10) {
        0..=4 => w.rng.gen_range(1..30),
        5..=6 => w.rng.gen_range(30..700),
        7 => w.rng.gen_range(700..4000),
        8 => 3600,
        _ => w.rng.gen_range(4000..200_000),
    };
    w.advance(d);
    None
}

/// The moments at which something the chain remembers starts, ends or expires, with what is worth
/// doing then and on whose account.
fn deadlines(w: &World) -> Vec<(&'static str, u64, Option<Pubkey>, Option<u16>)> {
    let now = w.now();
    let accs = w.grp().accs.clone();
    let perps = w.grp().perps.clone();
    let gkey = w.grp().group;
    w.with_state(|s| {
        let mut v = vec![];
        let g = s.groups.get(&gkey).cloned();
        for a in &accs {
            let Some(m) = s.accounts.get(&a.key) else { continue };
            let k = Some(a.key);
            if m.fx.temporary_delegate != Pubkey::default() {
                v.push(("delegate", m.fx.temporary_delegate_expiry, k, None));
            }
            v.push(("frozen", m.fx.frozen_until, k, None));
            if let Some(g) = &g {
                if m.fx.buyback_fees_accrued_current + m.fx.buyback_fees_accrued_previous > 0 {
                    v.push(("buyback", m.fx.buyback_fees_expiry_timestamp, k, None));
                    v.push(("buyback", m.fx.buyback_fees_expiry_timestamp.saturating_add(g.buyback_fees_expiry_interval), k, None));
                }
                v.push(("collateral", m.fx.last_collateral_fee_charge.saturating_add(g.collateral_fee_interval), k, None));
            }
            for p in m.active_perps() {
                if let Some(x) = perps.iter().find(|x| x.index == p.market_index).and_then(|x| s.perps.get(&x.market)) {
                    if p.settle_pnl_limit_settled_in_current_window_native != 0 {
                        let end = (p.settle_pnl_limit_window as u64 + 1).saturating_mul(x.settle_pnl_limit_window_size_ts);
                        v.push(("settle", end, k, Some(p.market_index)));
                        v.push(("settle", end, k, Some(p.market_index)));
                    }
                }
            }
            for t in m.active_tcs() {
                v.push(("tcs", t.expiry_timestamp, k, None));
                if t.duration_seconds > 0 {
                    v.push(("tcs", t.start_timestamp.saturating_add(t.duration_seconds), k, None));
                }
            }
        }
        for b in s.banks.values() {
            v.push(("borrow", b.last_net_borrows_window_start_ts.saturating_add(b.net_borrow_limit_window_size_ts), None, None));
            v.push(("index", b.index_last_updated + 3600, None, None));
            v.push(("index", b.bank_rate_last_updated + 3600, None, None));
            v.push(("shift", b.maint_weight_shift_start, None, None));
            v.push(("shift", b.maint_weight_shift_end, None, None));
        }
        for p in &perps {
            if let Some(x) = s.perps.get(&p.market) {
                v.push(("funding", x.funding_last_updated + 3600, None, Some(p.index)));
                for side in [&x.bids, &x.asks] {
                    if let Some(b) = s.book(side) {
                        for l in &b.leaves {
                            if l.time_in_force > 0 {
                                v.push(("order", l.expiry(), Some(l.owner), Some(p.index)));
                            }
                        }
                    }
                }
            }
        }
        v.retain(|x| x.1 > now && x.1 < now + 15 * 86400);
        v
    })
}
/// Go to the very second something changes by itself, and act on it there.
pub fn deadline_story(w: &mut World) -> Option<Tx> {
    if w.g != 0 {
        return None;
    }
    let all = deadlines(w);
    let mut kinds: Vec<&'static str> = all.iter().map(|x| x.0).collect();
    kinds.sort();
    kinds.dedup();
    let kind = *kinds.choose(&mut w.rng)?;
    let of: Vec<_> = all.iter().filter(|x| x.0 == kind).collect();
    let (kind, at, acc, perp) = **of.choose(&mut w.rng)?;
    let at = match w.rng.gen_range(0..5) {
        0 => at - 1,
        1 => at + 1,
        _ => at,
    };
    let now = w.now();
    if at > now {
        w.advance(at - now);
    }
    if w.rng.gen_bool(0.9) {
        refresh_oracles(w);
    }
    w.hub.with_out(|o| o.count(&format!("deadline-{kind}")));
    let acts: &[Act] = match kind {
        "delegate" => &[deposit, withdraw, perp_place, perp_cancel, account_edit, serum_place],
        "frozen" => &[deposit, withdraw, perp_place, freeze, account_edit, serum_force_cancel, perp_force_cancel],
        "buyback" => &[buyback, perp_place, perp_trade],
        "collateral" => &[charge_collateral],
        "settle" => &[settle_pnl, settle_pnl, settle_fees],
        "tcs" => &[tcs_trigger, tcs_trigger, tcs_start, tcs_cancel],
        "borrow" => &[borrow, borrow, withdraw, flash_loan_swap],
        "index" => &[update_index, crank_all],
        "shift" => &[update_index, health_check, borrow, liq_token, withdraw],
        "funding" => &[update_funding, perp_place],
        _ => &[perp_place, perp_trade, perp_place, perp_cancel, update_funding, consume],
    };
    w.focus = Some((acc, perp));
    for _ in 0..w.rng.gen_range(1..4) {
        let f = *acts.choose(&mut w.rng).unwrap();
        w.step_with(f);
    }
    w.focus = None;
    None
}

// ---------------------------------------------------------------- stories

/// Make somebody liquidatable by borrowing to the limit and moving the price.
pub fn leverage_story(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    leverage(w, &a)
}
pub fn leverage(w: &mut World, a: &AccW) -> Option<Tx> {
    let a = *a;
    let nt = w.grp().toks.len();
    for _ in 0..w.rng.gen_range(1..3) {
        let li = w.rng.gen_range(0..nt);
        let t = w.grp().toks[li].clone();
        let Some(h) = w.health_of(&a.key) else { continue };
        let init = h.health(HT::Init);
        if init <= 0.0 {
            break;
        }
        let lw = h.tok(t.idx).map_or(1.4 * t.price, |x| x.lwp(HT::Init));
        let have = h.tok(t.idx).map_or(0.0, |x| x.position.max(0.0));
        let frac = w.rng.gen_range(0.3..0.98);
        let amount = (have + init * frac / lw.max(1e-12)).min(1e15) as u64;
        let owner = w.owner_of(&a);
        let token_account = w.users[a.owner].atas[t.mint_i];
        w.send(TokenWithdrawInstruction { amount, allow_borrow: true, account: a.key, owner, token_account, bank_index: 0 });
    }
    None
}
/// Prices move against somebody, and liquidators work the account through all phases.
pub fn crash_story(w: &mut World) -> Option<Tx> {
    if w.rng.gen_bool(0.7) {
        leverage_story(w);
    }
    if w.rng.gen_bool(0.7) {
        perp_trade(w);
        perp_trade(w);
    }
    // pick a direction that hurts a chosen account
    let a = w.pick_acc();
    let h = w.health_of(&a.key)?;
    let severity = *[1.1, 1.3, 2.0, 10.0].choose(&mut w.rng).unwrap();
    let mut saved: Vec<(usize, f64)> = vec![];
    let mut saved_perp: Vec<(usize, f64)> = vec![];
    for t in &h.toks {
        if t.idx == 0 || !w.rng.gen_bool(0.8) {
            continue;
        }
        let i = t.idx as usize;
        if i >= w.grp().toks.len() {
            continue;
        }
        let p = w.grp().toks[i].price;
        saved.push((i, p));
        let f = if t.spot > 0.0 { 1.0 / severity } else { severity };
        set_price(w, i, p * f);
    }
    for x in &h.perps {
        if !w.rng.gen_bool(0.8) {
            continue;
        }
        let Some(i) = w.grp().perps.iter().position(|p| p.index == x.market) else { continue };
        let p = w.grp().perps[i].price;
        saved_perp.push((i, p));
        let f = if x.lots > 0 { 1.0 / severity } else { severity };
        set_perp_price(w, i, p * f);
    }
    liquidate_all(w, 30);
    for (i, p) in saved {
        let f = w.rng.gen_range(0.9..1.1);
        set_price(w, i, p * f);
    }
    for (i, p) in saved_perp {
        let f = w.rng.gen_range(0.9..1.1);
        set_perp_price(w, i, p * f);
    }
    None
}
pub fn liquidate_all(w: &mut World, n: usize) {
    if w.rng.gen_bool(0.6) {
        for p in w.grp().perps.clone() {
            consume_all(w, &p);
        }
    }
    for _ in 0..n {
        let l = w.liquidatable();
        if l.is_empty() {
            break;
        }
        let a = *l.choose(&mut w.rng).unwrap();
        // by phase, mostly; sometimes out of turn
        let Some(h) = w.health_of(&a.key) else { break };
        let phase = if w.rng.gen_bool(0.12) {
            w.rng.gen_range(1..4)
        } else if h.phase1() {
            1
        } else if h.phase2() {
            2
        } else {
            3
        };
        match phase {
            1 => {
                if let Some(p) = perp_of(w, &a) {
                    let x = w.build(PerpLiqForceCancelOrdersInstruction { account: a.key, perp_market: p.market });
                    if let Some(x) = x {
                        w.step_tx(Tx::one(x));
                    }
                    consume_all(w, &p);
                }
                for s in w.grp().sers.clone() {
                    let x = w.build(Serum3LiqForceCancelOrdersInstruction {
                        account: a.key,
                        serum_market: s.market,
                        limit: 10,
                    });
                    if let Some(x) = x {
                        w.step_tx(Tx::one(x));
                    }
                    w.serum.consume_spot_events_n(&s.cookie, 20);
                    let x = w.build(Serum3LiqForceCancelOrdersInstruction {
                        account: a.key,
                        serum_market: s.market,
                        limit: 10,
                    });
                    if let Some(x) = x {
                        w.step_tx(Tx::one(x));
                    }
                }
            }
            2 => {
                if w.rng.gen_bool(0.5) {
                    w.step_with2(|w| liq_token_for(w, a));
                } else {
                    w.step_with2(|w| {
                        let p = perp_of(w, &a)?;
                        liq_perp_base_for(w, a, p)
                    });
                }
            }
            _ => {
                if w.rng.gen_bool(0.5) {
                    w.step_with2(|w| liq_bankrupt_for(w, a));
                } else {
                    w.step_with2(|w| {
                        let p = perp_of(w, &a)?;
                        liq_perp_negative_for(w, a, p)
                    });
                }
            }
        }
    }
}

// ---------------------------------------------------------------- serum

fn serum_ready(w: &mut World, a: &AccW, s: &SerW) -> bool {
    let idx: Serum3Market = w.solana.get_account(s.market);
    let has = w.macc(&a.key).map_or(false, |m| m.active_serum().any(|x| x.market_index == idx.market_index));
    if !has {
        let owner = w.owner_of(a);
        return w.send(Serum3CreateOpenOrdersInstruction { account: a.key, serum_market: s.market, owner, payer: owner });
    }
    true
}
pub fn serum_create(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let s = w.pick_ser()?;
    let owner = w.owner_of(&a);
    let x = w.build(Serum3CreateOpenOrdersInstruction { account: a.key, serum_market: s.market, owner, payer: owner });
    w.one(x)
}
pub fn serum_close(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let s = w.pick_ser()?;
    let owner = w.owner_of(&a);
    let x = w.build(Serum3CloseOpenOrdersInstruction {
        account: a.key,
        serum_market: s.market,
        owner,
        sol_destination: owner.pubkey(),
    });
    w.one(x)
}
pub fn serum_place_for(w: &mut World, a: AccW) -> Option<Built> {
    let s = w.pick_ser()?;
    if !serum_ready(w, &a, &s) {
        return None;
    }
    let owner = w.signer_for(&a);
    let bt = w.grp().toks[s.base].clone();
    let usd = w.usd().min(w.cfg.initial_usd);
    let (bp, qp) = (bt.price, w.grp().toks[s.quote].price);
    let m = w.solana.get_account_data(s.cookie.market)?;
    let ms: &serum_dex::state::MarketState =
        bytemuck::from_bytes(&m[5..5 + std::mem::size_of::<serum_dex::state::MarketState>()]);
    let (cl, pl) = ({ ms.coin_lot_size }, { ms.pc_lot_size });
    // price in pc lots per coin lot
    let mid = bp / qp * cl as f64 / pl as f64;
    let r = &mut w.rng;
    let tick = (mid / 100.0).max(1.0);
    let mut limit_price = (mid + tick * r.gen_range(-5..=5) as f64).max(1.0) as u64;
    match r.gen_range(0..40) {
        0 => limit_price = 1,
        1 => limit_price = (mid * 10.0) as u64 + 1,
        2 => limit_price = (mid / 3.0) as u64 + 1,
        _ => {}
    }
    let lot_usd = (bp * cl as f64 / 1e6).max(1e-12);
    let max_base_qty = ((usd / lot_usd) as u64).max(1);
    let max_quote = if r.gen_bool(0.7) {
        (limit_price as f64 * max_base_qty as f64 * pl as f64 * 1.01).min(1e18) as u64 + 1
    } else {
        (limit_price as f64 * max_base_qty as f64 * pl as f64 * r.gen_range(0.1..1.0)).min(1e18) as u64 + 1
    };
    let order_type = match r.gen_range(0..6) {
        0 => Serum3OrderType::ImmediateOrCancel,
        1 => Serum3OrderType::PostOnly,
        _ => Serum3OrderType::Limit,
    };
    let stb = match r.gen_range(0..4) {
        0 => Serum3SelfTradeBehavior::CancelProvide,
        1 => Serum3SelfTradeBehavior::AbortTransaction,
        _ => Serum3SelfTradeBehavior::DecrementTake,
    };
    let side = if r.gen_bool(0.5) { Serum3Side::Bid } else { Serum3Side::Ask };
    let cid = if r.gen_bool(0.2) { 9 } else { w.next_client_id };
    w.next_client_id += 1;
    // the v2 instruction needs its token positions to exist
    let limit = *[1u16, 5, 20].choose(&mut w.rng).unwrap();
    let (mut ix, sg) = w.build(Serum3PlaceOrderInstruction {
        side,
        limit_price,
        max_base_qty,
        max_native_quote_qty_including_fees: max_quote,
        self_trade_behavior: stb,
        order_type,
        client_order_id: cid,
        limit,
        account: a.key,
        owner,
        serum_market: s.market,
    })?;
    if w.rng.gen_bool(0.3) {
        ix.data = data(&mango_v4::instruction::Serum3PlaceOrder {
            side,
            limit_price,
            max_base_qty,
            max_native_quote_qty_including_fees: max_quote,
            self_trade_behavior: stb,
            order_type,
            client_order_id: cid,
            limit,
        });
        // only without write access to the receiving bank is it really the first version
        if w.rng.gen_bool(0.7) {
            for m in ix.accounts.iter_mut().skip(18) {
                m.is_writable = false;
            }
        }
    }
    Some(w.with_fallbacks((ix, sg)))
}
pub fn serum_place(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let x = serum_place_for(w, a);
    w.one(x)
}
pub fn serum_cancel_for(w: &mut World, a: AccW) -> Option<Built> {
    let s = w.pick_ser()?;
    let owner = w.signer_for(&a);
    let m: Serum3Market = w.solana.get_account(s.market);
    let ma = w.macc(&a.key)?;
    let so = ma.active_serum().find(|x| x.market_index == m.market_index)?.open_orders;
    let oo = w.with_state(|st| st.oos.get(&so).cloned())?;
    match w.rng.gen_range(0..3) {
        0 => {
            let limit = *[1u8, 5, 20].choose(&mut w.rng).unwrap();
            w.build(Serum3CancelAllOrdersInstruction { limit, account: a.key, owner, serum_market: s.market })
        }
        1 => {
            let o = oo.orders.choose(&mut w.rng)?;
            let bid = oo.bid_bits & (1u128 << o.0) != 0;
            w.build(Serum3CancelOrderInstruction {
                side: if bid { Serum3Side::Bid } else { Serum3Side::Ask },
                order_id: o.1,
                account: a.key,
                owner,
                serum_market: s.market,
            })
        }
        _ => {
            let o = oo.orders.choose(&mut w.rng)?;
            w.build(Serum3CancelOrderByClientOrderIdInstruction {
                client_order_id: o.2,
                account: a.key,
                owner,
                serum_market: s.market,
            })
        }
    }
}
pub fn serum_cancel(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let x = serum_cancel_for(w, a);
    w.one(x)
}
pub fn serum_settle_for(w: &mut World, a: AccW) -> Option<Built> {
    let s = w.pick_ser()?;
    let owner = w.signer_for(&a);
    let fees_to_dao = w.rng.gen_bool(0.5);
    let v2 = w.build(Serum3SettleFundsV2Instruction { account: a.key, owner, serum_market: s.market, fees_to_dao })?;
    if w.rng.gen_bool(0.25) {
        // v1: same accounts without the oracles
        let (mut ix, sg) = v2;
        ix.accounts.truncate(ix.accounts.len() - 2);
        ix.data = data(&mango_v4::instruction::Serum3SettleFunds {});
        return Some((ix, sg));
    }
    Some(v2)
}
pub fn serum_settle(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let x = serum_settle_for(w, a);
    w.one(x)
}
pub fn serum_crank(w: &mut World) -> Option<Tx> {
    let s = w.pick_ser()?;
    let n = *[1usize, 3, 20].choose(&mut w.rng).unwrap();
    w.serum.consume_spot_events_n(&s.cookie, n);
    None
}
pub fn serum_force_cancel(w: &mut World) -> Option<Tx> {
    let a = w.pick_liqee();
    let s = w.pick_ser()?;
    let limit = *[1u8, 5, 20].choose(&mut w.rng).unwrap();
    let x = w.build(Serum3LiqForceCancelOrdersInstruction { account: a.key, serum_market: s.market, limit });
    w.onef(x)
}
pub fn serum_delist(w: &mut World) -> Option<Tx> {
    if !w.rng.gen_bool(0.3) {
        return None;
    }
    let s = w.pick_ser()?;
    let (group, admin) = (w.grp().group, w.grp().admin);
    let mk = |r: bool, f: bool| mango_v4::instruction::Serum3EditMarket {
        reduce_only_opt: Some(r),
        force_close_opt: Some(f),
        ..serum3_edit_market_instruction_default()
    };
    w.send(Serum3EditMarketInstruction { group, admin, market: s.market, options: mk(true, false) });
    for _ in 0..3 {
        w.step_with(serum_place);
        w.step_with(serum_settle);
    }
    w.send(Serum3EditMarketInstruction { group, admin, market: s.market, options: mk(true, true) });
    for a in w.grp().accs.clone() {
        if let Some(x) =
            w.build(Serum3LiqForceCancelOrdersInstruction { account: a.key, serum_market: s.market, limit: 20 })
        {
            w.step_tx(Tx::one(x));
        }
    }
    w.send(Serum3EditMarketInstruction { group, admin, market: s.market, options: mk(false, false) });
    None
}

// ---------------------------------------------------------------- conditional swaps

pub fn tcs_create(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let owner = w.signer_for(&a);
    let (b, s) = (w.pick_tok(), w.pick_tok());
    let usd = w.usd();
    let max_buy = w.native(&b, usd);
    let max_sell = w.native(&s, usd);
    // sell tokens per buy token
    let price = w.tok_price(&b) / w.tok_price(&s);
    let r = &mut w.rng;
    let (lo, hi) = match r.gen_range(0..4) {
        0 => (0.0, price * 0.9),
        1 => (price * 1.1, f64::MAX / 2.0),
        2 => (price * r.gen_range(0.2..1.0), price * r.gen_range(1.0..3.0)),
        _ => (0.0, price * 100.0),
    };
    let (acd, acb) = (r.gen_bool(0.7), r.gen_bool(0.6));
    let now = w.solana.clock().unix_timestamp as u64;
    let r = &mut w.rng;
    let x = match r.gen_range(0..3) {
        0 => {
            let rate = *[0.0, 0.01, 0.05, 0.5].choose(r).unwrap();
            w.build(TokenConditionalSwapCreateInstruction {
                account: a.key,
                owner,
                buy_mint: b.t.mint.pubkey,
                sell_mint: s.t.mint.pubkey,
                max_buy,
                max_sell,
                price_lower_limit: lo,
                price_upper_limit: hi,
                price_premium_rate: rate,
                allow_creating_deposits: acd,
                allow_creating_borrows: acb,
            })
        }
        1 => {
            let (ps, pe) = (price * r.gen_range(0.5..1.5), price * r.gen_range(0.5..1.5));
            let start = now + r.gen_range(0..50) - 20;
            let dur = r.gen_range(1..500);
            let exp = if r.gen_bool(0.3) { now + r.gen_range(1..1000) } else { u64::MAX };
            w.build(TokenConditionalSwapCreateLinearAuctionInstruction {
                account: a.key,
                owner,
                buy_mint: b.t.mint.pubkey,
                sell_mint: s.t.mint.pubkey,
                max_buy,
                max_sell,
                price_start: ps,
                price_end: pe,
                allow_creating_deposits: acd,
                allow_creating_borrows: acb,
                start_timestamp: start,
                duration_seconds: dur,
                expiry_timestamp: exp,
            })
        }
        _ => {
            let rate = r.gen_range(0.0..0.2);
            let duration_seconds = r.gen_range(1..500);
            w.build(TokenConditionalSwapCreatePremiumAuctionInstruction {
                account: a.key,
                owner,
                buy_mint: b.t.mint.pubkey,
                sell_mint: s.t.mint.pubkey,
                max_buy,
                max_sell,
                price_lower_limit: lo,
                price_upper_limit: hi,
                max_price_premium_rate: rate,
                allow_creating_deposits: acd,
                allow_creating_borrows: acb,
                duration_seconds,
            })
        }
    };
    w.one(x)
}
fn pick_tcs(w: &mut World) -> Option<(AccW, u8, u64)> {
    let mut v = vec![];
    for a in w.grp().accs.clone() {
        if let Some(m) = w.macc(&a.key) {
            for (i, t) in m.tcs.iter().enumerate() {
                if t.is_configured == 1 {
                    v.push((a, i as u8, t.id));
                }
            }
        }
    }
    if let Some((Some(k), _)) = w.focus {
        if let Some(x) = v.iter().find(|x| x.0.key == k) {
            return Some(*x);
        }
    }
    v.choose(&mut w.rng).cloned()
}
pub fn tcs_trigger(w: &mut World) -> Option<Tx> {
    let (a, index, id) = pick_tcs(w)?;
    let liqor = w.pick_liqor(&a)?;
    let liqor_owner = w.signer_for(&liqor);
    let m = w.macc(&a.key)?;
    let t = m.tcs.get(index as usize)?;
    let bt = w.grp().toks.get(t.buy_token_index as usize)?.clone();
    let st = w.grp().toks.get(t.sell_token_index as usize)?.clone();
    let (u1, u2) = (w.usd(), w.usd());
    let max_buy = if w.rng.gen_bool(0.5) { u64::MAX } else { w.native(&bt, u1) };
    let max_sell = if w.rng.gen_bool(0.5) { u64::MAX } else { w.native(&st, u2) };
    let (min_buy, min_price) = if w.rng.gen_bool(0.3) {
        let p = (w.tok_price(&bt) / w.tok_price(&st)) as f32 * w.rng.gen_range(0.5..1.5f32);
        (w.rng.gen_range(0..1000), p)
    } else {
        (0, 0.0)
    };
    let (mut ix, s) = w.build(TokenConditionalSwapTriggerInstruction {
        liqee: a.key,
        liqor: liqor.key,
        liqor_owner,
        index,
        max_buy_token_to_liqee: max_buy,
        max_sell_token_to_liqor: max_sell,
        min_buy_token: min_buy,
        min_taker_price: min_price,
    })?;
    if w.rng.gen_bool(0.05) {
        ix.data = data(&mango_v4::instruction::TokenConditionalSwapTriggerV2 {
            token_conditional_swap_index: index,
            token_conditional_swap_id: id + 1,
            max_buy_token_to_liqee: max_buy,
            max_sell_token_to_liqor: max_sell,
            min_buy_token: min_buy,
            min_taker_price: min_price,
        });
    } else if w.rng.gen_bool(0.2) {
        ix.data = data(&mango_v4::instruction::TokenConditionalSwapTrigger {
            token_conditional_swap_index: index,
            token_conditional_swap_id: id,
            max_buy_token_to_liqee: max_buy,
            max_sell_token_to_liqor: max_sell,
        });
    }
    let x = w.with_fallbacks((ix, s));
    Some(Tx::one(x))
}
pub fn tcs_start(w: &mut World) -> Option<Tx> {
    let (a, index, _) = pick_tcs(w)?;
    let liqor = w.pick_liqor(&a)?;
    let liqor_owner = w.signer_for(&liqor);
    let x = w.build(TokenConditionalSwapStartInstruction { liqee: a.key, liqor: liqor.key, liqor_owner, index });
    w.onef(x)
}
pub fn tcs_cancel(w: &mut World) -> Option<Tx> {
    let (a, index, id) = pick_tcs(w)?;
    let owner = w.signer_for(&a);
    let id = if w.rng.gen_bool(0.1) { id + 1 } else { id };
    let x = w.build(TokenConditionalSwapCancelInstruction { account: a.key, owner, index, id });
    w.one(x)
}

/// A swap with unusual terms, worked by several takers over time.
pub fn tcs_story(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let owner = w.owner_of(&a);
    if w.macc(&a.key)?.tcs.is_empty() {
        return None;
    }
    if w.rng.gen_bool(0.25) {
        leverage(w, &a);
    }
    let nt = w.grp().toks.len();
    let (bi, si) = (w.rng.gen_range(0..nt), w.rng.gen_range(0..nt));
    let (b, s) = (w.grp().toks[bi].clone(), w.grp().toks[si].clone());
    let price = w.tok_price(&b) / w.tok_price(&s);
    let usd = w.usd();
    let now = w.solana.clock().unix_timestamp as u64;
    let (mut max_buy, mut max_sell) = (w.native(&b, usd), w.native(&s, usd));
    // what the owner has, roughly
    if let Some(h) = w.health_of(&a.key) {
        if let Some(x) = h.tok(s.idx) {
            if w.rng.gen_bool(0.3) {
                max_sell = x.position.max(0.0) as u64 + w.rng.gen_range(0..3);
            }
        }
        if let Some(x) = h.tok(b.idx) {
            if w.rng.gen_bool(0.3) {
                max_buy = (-x.position).max(0.0) as u64 + w.rng.gen_range(0..3);
            }
        }
    }
    let r = &mut w.rng;
    match r.gen_range(0..8) {
        0 => max_buy = u64::MAX,
        1 => max_sell = u64::MAX,
        2 => max_buy = r.gen_range(0..30),
        3 => max_sell = r.gen_range(0..30),
        4 => {
            max_buy = r.gen_range(0..100);
            max_sell = r.gen_range(0..100);
        }
        _ => {}
    }
    let (acd, acb) = (r.gen_bool(0.6), r.gen_bool(0.5));
    let (lo, hi) = match r.gen_range(0..6) {
        0 => (price * 0.999, price * 1.001),
        1 => (price * 1.0001, price * 2.0),
        2 => (0.0, price * 0.9999),
        _ => (0.0, price * 100.0),
    };
    let duration_seconds = *[0u64, 1, 30, 300, 100_000].choose(r).unwrap();
    let rate = *[0.0, 0.001, 0.03, 0.5, 4.0].choose(r).unwrap();
    let expiry = match r.gen_range(0..5) {
        0 => now + r.gen_range(0..40),
        1 => now.saturating_sub(r.gen_range(0..5)),
        _ => u64::MAX,
    };
    let before: Vec<u64> = w.macc(&a.key)?.tcs.iter().filter(|t| t.is_configured == 1).map(|t| t.id).collect();
    let x = match w.rng.gen_range(0..3) {
        0 => w.build(TokenConditionalSwapCreateInstruction {
            account: a.key,
            owner,
            buy_mint: b.t.mint.pubkey,
            sell_mint: s.t.mint.pubkey,
            max_buy,
            max_sell,
            price_lower_limit: lo,
            price_upper_limit: hi,
            price_premium_rate: rate,
            allow_creating_deposits: acd,
            allow_creating_borrows: acb,
        }),
        1 => {
            let (ps, pe) = (price * w.rng.gen_range(0.5..1.5), price * w.rng.gen_range(0.5..1.5));
            let start = now + w.rng.gen_range(0..30) - 10;
            w.build(TokenConditionalSwapCreateLinearAuctionInstruction {
                account: a.key,
                owner,
                buy_mint: b.t.mint.pubkey,
                sell_mint: s.t.mint.pubkey,
                max_buy,
                max_sell,
                price_start: ps,
                price_end: pe,
                allow_creating_deposits: acd,
                allow_creating_borrows: acb,
                start_timestamp: start,
                duration_seconds,
                expiry_timestamp: expiry,
            })
        }
        _ => w.build(TokenConditionalSwapCreatePremiumAuctionInstruction {
            account: a.key,
            owner,
            buy_mint: b.t.mint.pubkey,
            sell_mint: s.t.mint.pubkey,
            max_buy,
            max_sell,
            price_lower_limit: lo,
            price_upper_limit: hi,
            max_price_premium_rate: rate,
            allow_creating_deposits: acd,
            allow_creating_borrows: acb,
            duration_seconds,
        }),
    };
    let (mut ix, k) = x?;
    ix.data[24..32].copy_from_slice(&expiry.to_le_bytes());
    w.run(Tx::one((ix, k)));
    let reduce_only = |w: &mut World, t: &TokW, mode: u8| {
        let (group, admin) = (w.grp().group, w.grp().admin);
        w.send(TokenMakeReduceOnly { group, admin, mint: t.t.mint.pubkey, reduce_only: mode, force_close: false });
    };
    if w.rng.gen_bool(0.15) {
        let mode = *[1u8, 2].choose(&mut w.rng).unwrap();
        let t = if w.rng.gen_bool(0.4) { &b } else { &s };
        if w.rng.gen_bool(0.5) {
            tcs_rounds(w, a.clone(), bi, si, &before, max_buy, max_sell);
        }
        reduce_only(w, t, mode);
    }
    tcs_rounds(w, a, bi, si, &before, max_buy, max_sell);
    for t in [&b, &s] {
        let on = w.with_state(|x| x.banks.get(&t.t.bank).map_or(false, |b| b.reduce_only != 0));
        if on && w.rng.gen_bool(0.8) {
            reduce_only(w, t, 0);
        }
    }
    None
}
fn tcs_rounds(w: &mut World, a: AccW, bi: usize, si: usize, before: &[u64], max_buy: u64, max_sell: u64) -> Option<Tx> {
    let (b, s) = (w.grp().toks[bi].clone(), w.grp().toks[si].clone());
    for _ in 0..w.rng.gen_range(2..7) {
        let m = w.macc(&a.key)?;
        let Some((index, t)) = m.tcs.iter().enumerate().find(|(_, t)| t.is_configured == 1 && !before.contains(&t.id)) else { break };
        let (index, id) = (index as u8, t.id);
        let liqor = w.pick_liqor(&a)?;
        let liqor_owner = w.owner_of(&liqor);
        // a taker that runs into the tokens' trading modes
        if w.rng.gen_bool(0.3) {
            let of = |w: &mut World, t: &TokW| w.health_of(&liqor.key).and_then(|h| h.tok(t.idx).map(|x| x.position)).unwrap_or(0.0);
            // with little to give, or owing what is being sold
            let owing = w.rng.gen_bool(0.4);
            let (b, amount) = if owing {
                let have = of(w, &s);
                (&s, if have < 0.0 { 0.0 } else { have + max_sell.min(1 << 50) as f64 * w.rng.gen_range(0.0..1.2) })
            } else {
                let have = of(w, &b);
                let keep = (max_buy.min(1 << 50) as f64 * w.rng.gen_range(0.0..1.2)).min(have);
                (&b, have - keep)
            };
            if amount >= 1.0 {
                let x = w.build(TokenWithdrawInstruction {
                    amount: amount as u64,
                    allow_borrow: true,
                    account: liqor.key,
                    owner: liqor_owner,
                    token_account: w.users[liqor.owner].atas[b.mint_i],
                    bank_index: 0,
                });
                if let Some(x) = x {
                    let x = w.with_fallbacks(x);
                    w.run(Tx::one(x));
                }
            }
        }
        match w.rng.gen_range(0..10) {
            0 => {
                let n = w.rng.gen_range(1..40);
                w.advance(n);
            }
            1 => {
                let i = if w.rng.gen_bool(0.5) { bi } else { si };
                let p = w.grp().toks[i].price * w.rng.gen_range(0.97..1.03);
                set_price(w, i, p);
            }
            2 => {
                let mut o = token_edit_instruction_default();
                let r = &mut w.rng;
                match r.gen_range(0..3) {
                    0 => o.token_conditional_swap_taker_fee_rate_opt = Some(r.gen_range(0.0..0.1)),
                    1 => o.token_conditional_swap_maker_fee_rate_opt = Some(r.gen_range(0.0..0.1)),
                    _ => o.reduce_only_opt = Some(*[0u8, 0, 0, 1, 2].choose(r).unwrap()),
                }
                let (group, admin) = (w.grp().group, w.grp().admin);
                let t = if w.rng.gen_bool(0.5) { &b } else { &s };
                let x = w.build(TokenEdit { group, admin, mint: t.t.mint.pubkey, fallback_oracle: t.fallback.unwrap_or_default(), options: o });
                if let Some(x) = x {
                    w.run(Tx::one(x));
                }
            }
            3 | 4 if t.tcs_type == 1 && t.start_timestamp == 0 || w.rng.gen_bool(0.1) => {
                let x = w.build(TokenConditionalSwapStartInstruction { liqee: a.key, liqor: liqor.key, liqor_owner, index });
                let x = w.onef(x)?;
                w.run(x);
            }
            _ => {
                let r = &mut w.rng;
                let lim = |r: &mut ChaCha8Rng, m: u64| match r.gen_range(0..5) {
                    0 => r.gen_range(0..20),
                    1 => (m as f64 * r.gen_range(0.0..1.0)) as u64,
                    2 => m,
                    _ => u64::MAX,
                };
                let (mb, ms) = (lim(r, max_buy), lim(r, max_sell));
                let x = w.build(TokenConditionalSwapTriggerInstruction {
                    liqee: a.key,
                    liqor: liqor.key,
                    liqor_owner,
                    index,
                    max_buy_token_to_liqee: mb,
                    max_sell_token_to_liqor: ms,
                    min_buy_token: 0,
                    min_taker_price: 0.0,
                })?;
                let _ = id;
                let x = w.with_fallbacks(x);
                w.run(Tx::one(x));
            }
        }
    }
    None
}

// ---------------------------------------------------------------- admin

pub fn admin_withdraw_fees(w: &mut World) -> Option<Tx> {
    let t = w.pick_tok();
    let (group, admin) = (w.grp().group, w.grp().admin);
    let token_account = w.users[0].atas[t.mint_i];
    let bi = w.rng.gen_range(0..t.banks.len());
    let accounts = mango_v4::accounts::AdminTokenWithdrawFees {
        group,
        bank: t.banks[bi],
        vault: t.vaults[bi],
        token_account,
        token_program: spl_token::id(),
        admin: admin.pubkey(),
    };
    Some(Tx { ixs: vec![mix(&accounts, &mango_v4::instruction::AdminTokenWithdrawFees {})], signers: vec![admin] })
}
pub fn admin_perp_fees(w: &mut World) -> Option<Tx> {
    let p = w.pick_perp()?;
    let (group, admin) = (w.grp().group, w.grp().admin);
    let t = w.grp().toks.get(p.settle as usize)?.clone();
    let token_account = w.users[0].atas[t.mint_i];
    let accounts = mango_v4::accounts::AdminPerpWithdrawFees {
        group,
        perp_market: p.market,
        bank: t.t.bank,
        vault: t.t.vault,
        token_account,
        token_program: spl_token::id(),
        admin: admin.pubkey(),
    };
    Some(Tx { ixs: vec![mix(&accounts, &mango_v4::instruction::AdminPerpWithdrawFees {})], signers: vec![admin] })
}
pub fn insurance_withdraw(w: &mut World) -> Option<Tx> {
    let (group, admin) = (w.grp().group, w.grp().admin);
    let iv = w.grp().insurance_vault;
    let amount = *[0u64, 1, 1000, 1_000_000].choose(&mut w.rng).unwrap();
    let accounts = mango_v4::accounts::GroupWithdrawInsuranceFund {
        group,
        admin: admin.pubkey(),
        insurance_vault: iv,
        destination: w.users[0].atas[0],
        token_program: spl_token::id(),
    };
    Some(Tx {
        ixs: vec![mix(&accounts, &mango_v4::instruction::GroupWithdrawInsuranceFund { amount })],
        signers: vec![admin],
    })
}
/// one or two random parameters of a token
pub fn token_edit(w: &mut World) -> Option<Tx> {
    let t = w.pick_tok();
    let (group, admin, security) = (w.grp().group, w.grp().admin, w.grp().security);
    let mint = t.t.mint.pubkey;
    let now = w.now();
    let mut o = token_edit_instruction_default();
    let r = &mut w.rng;
    for _ in 0..r.gen_range(1..3) {
        match r.gen_range(0..22) {
            0 => o.loan_fee_rate_opt = Some(r.gen_range(0.0..0.3)),
            1 => o.loan_origination_fee_rate_opt = Some(r.gen_range(0.0..0.01)),
            2 => o.liquidation_fee_opt = Some(r.gen_range(0.0..0.1)),
            3 => o.net_borrow_limit_per_window_quote_opt = Some(*[-1i64, 1_000_000_000, 1_000_000_000_000].choose(r).unwrap()),
            4 => o.reset_net_borrow_limit = true,
            5 => o.deposit_limit_opt = Some(if r.gen_bool(0.7) { 0 } else { (loguni(r, 1e3, 1e6) * 1e6 / t.price) as u64 }),
            6 => o.min_vault_to_deposits_ratio_opt = Some(r.gen_range(0.0..0.5)),
            7 => o.reset_stable_price = true,
            8 => o.deposit_weight_scale_start_quote_opt = Some(if r.gen_bool(0.5) { f64::MAX } else { loguni(r, 1e8, 1e12) }),
            9 => o.borrow_weight_scale_start_quote_opt = Some(if r.gen_bool(0.5) { f64::MAX } else { loguni(r, 1e8, 1e12) }),
            10 => {
                o.maint_weight_shift_start_opt = Some(now + r.gen_range(0..100));
                o.maint_weight_shift_end_opt = Some(now + r.gen_range(100..5000));
                o.maint_weight_shift_asset_target_opt = Some(r.gen_range(0.3..0.9));
                o.maint_weight_shift_liab_target_opt = Some(r.gen_range(1.0..1.5));
            }
            11 => o.maint_weight_shift_abort = true,
            12 => o.platform_liquidation_fee_opt = Some(r.gen_range(0.0..0.05)),
            13 => o.collateral_fee_per_day_opt = Some(r.gen_range(0.0..0.02)),
            14 => o.group_insurance_fund_opt = Some(r.gen_bool(0.7)),
            15 => o.interest_curve_scaling_opt = Some(r.gen_range(1.0..5.0)),
            16 => o.zero_util_rate_opt = Some(r.gen_range(0.0..0.05)),
            17 => o.flash_loan_swap_fee_rate_opt = Some(r.gen_range(0.0..0.02)),
            18 => o.token_conditional_swap_maker_fee_rate_opt = Some(r.gen_range(0.0..0.02)),
            19 => o.oracle_config_opt = Some(OracleConfigParams {
                conf_filter: r.gen_range(0.05..1.0),
                max_staleness_slots: if r.gen_bool(0.5) { None } else { Some(r.gen_range(50..2000)) },
            }),
            20 => o.name_opt = Some("renamed".into()),
            _ => o.interest_target_utilization_opt = Some(r.gen_range(0.0..1.0)),
        }
    }
    let who = if r.gen_bool(0.15) { security } else { admin };
    let x = w.build(TokenEdit {
        group,
        admin: who,
        mint,
        fallback_oracle: t.fallback.unwrap_or_default(),
        options: o,
    });
    w.one(x)
}
/// the largest `x` up to `hi` with which the built transaction is accepted
pub fn largest(w: &mut World, hi: f64, f: &dyn Fn(&mut World, u64) -> Option<Tx>) -> Option<u64> {
    let mut ok = |w: &mut World, x: u64| -> bool {
        w.what_if(|w| match f(w, x) {
            Some(t) => w.run(t).ok(),
            None => false,
        })
    };
    if !ok(w, 1) {
        return None;
    }
    let (mut lo, mut bad) = (1u64, None::<u64>);
    let mut step = 64.0;
    while bad.is_none() {
        let x = (lo as f64 * step).min(hi) as u64;
        if x <= lo {
            return Some(lo);
        }
        if ok(w, x) {
            lo = x;
        } else if step > 2.0 {
            bad = Some(x);
        } else {
            bad = Some(x);
        }
        step = 64.0;
    }
    let mut bad = bad.unwrap();
    for _ in 0..60 {
        if bad - lo <= 1 {
            break;
        }
        // geometric first, then arithmetic
        let mid = if bad as f64 / lo as f64 > 4.0 { ((bad as f64) * (lo as f64)).sqrt() as u64 } else { lo + (bad - lo) / 2 };
        let mid = mid.clamp(lo + 1, bad - 1);
        if ok(w, mid) {
            lo = mid;
        } else {
            bad = mid;
        }
    }
    Some(lo)
}
/// accounts driven to exactly what their health allows
pub fn edge_story(w: &mut World) -> Option<Tx> {
    let a = w.pick_acc();
    let owner = w.owner_of(&a);
    let h = w.health_of(&a.key)?;
    let worth = (h.assets_liabs().0 + 1e6).min(1e16);
    let ti = w.rng.gen_range(0..w.grp().toks.len());
    let t = w.grp().toks[ti].clone();
    let mut undo = None;
    if w.rng.gen_bool(0.4) {
        // the weights depend on the totals
        let (group, admin) = (w.grp().group, w.grp().admin);
        let ei = w.rng.gen_range(0..w.grp().toks.len());
        let e = w.grp().toks[ei].clone();
        let b: Bank = w.solana.get_account(e.t.bank);
        let mut o = token_edit_instruction_default();
        let mut u = token_edit_instruction_default();
        let r = &mut w.rng;
        if r.gen_bool(0.5) {
            let d = f(b.indexed_deposits) * f(b.deposit_index) * e.price;
            o.deposit_weight_scale_start_quote_opt = Some((d * r.gen_range(0.2..1.5)).max(1.0));
            u.deposit_weight_scale_start_quote_opt = Some(b.deposit_weight_scale_start_quote);
        } else {
            let d = f(b.indexed_borrows) * f(b.borrow_index) * e.price;
            o.borrow_weight_scale_start_quote_opt = Some((d * r.gen_range(0.2..1.5)).max(1e6));
            u.borrow_weight_scale_start_quote_opt = Some(b.borrow_weight_scale_start_quote);
        }
        let fallback_oracle = e.fallback.unwrap_or_default();
        let mint = e.t.mint.pubkey;
        w.send(TokenEdit { group, admin, mint, fallback_oracle, options: o });
        undo = Some(TokenEdit { group, admin, mint, fallback_oracle, options: u });
    }
    if w.rng.gen_bool(0.5) {
        // oracle and stable price apart
        for _ in 0..2 {
            let i = w.rng.gen_range(0..w.grp().toks.len());
            if i > 0 {
                let q = w.grp().toks[i].price * *[0.8, 0.93, 1.07, 1.25].choose(&mut w.rng).unwrap();
                set_price(w, i, q);
            }
        }
    }
    let ta = w.users[a.owner].atas[t.mint_i];
    let other = w.users[a.owner].others[t.mint_i];
    let bank_index = w.rng.gen_range(0..2);
    let price = t.price.max(1e-12);
    let perp = w.pick_perp();
    let side = if w.rng.gen_bool(0.5) { Side::Bid } else { Side::Ask };
    let off = *[0.5, 0.9, 1.0, 1.1, 2.0].choose(&mut w.rng).unwrap();
    let serum = serum_place_for(w, a);
    let bank = t.t.bank;
    let in_region = w.rng.gen_bool(0.25);
    let kind = w.rng.gen_range(0..8);
    // build() picks fresh randomness for nothing here, so the search is monotone in x only
    let build: Box<dyn Fn(&mut World, u64) -> Option<Tx>> = match kind {
        0..=2 => Box::new(move |w, x| {
            w.build(TokenWithdrawInstruction { amount: x, allow_borrow: true, account: a.key, owner, token_account: ta, bank_index }).map(Tx::one)
        }),
        3 | 4 => {
            let p = perp?;
            let price_lots = ((perp_price_lots(&p) as f64) * off).round().max(1.0) as i64;
            Box::new(move |w, x| {
                let (begin, end) = (
                    w.build(HealthRegionBeginInstruction { account: a.key })?,
                    w.build(HealthRegionEndInstruction { account: a.key, affected_bank: None })?,
                );
                let has = w.macc(&a.key)?.perp(p.index).is_some();
                let o = w.build(PerpPlaceOrderInstruction {
                    account: a.key,
                    perp_market: p.market,
                    owner,
                    side,
                    price_lots,
                    max_base_lots: x.min(1 << 60) as i64,
                    max_quote_lots: i64::MAX,
                    reduce_only: false,
                    client_order_id: 0,
                    self_trade_behavior: SelfTradeBehavior::DecrementTake,
                    limit: 10,
                })?;
                if in_region && has {
                    let mut t = Tx::one(begin);
                    t.push(o);
                    t.push(end);
                    return Some(t);
                }
                Some(Tx::one(o))
            })
        }
        5 | 6 => {
            let (ix, s) = serum?;
            if ix.data.len() < 34 {
                return None;
            }
            Box::new(move |_, x| {
                let mut ix = ix.clone();
                // side u8, limit price u64, base u64, quote u64
                let at = 8 + 1 + 8;
                ix.data[at..at + 8].copy_from_slice(&x.to_le_bytes());
                ix.data[at + 8..at + 16].copy_from_slice(&(1u64 << 60).to_le_bytes());
                Some(Tx::one((ix, s.clone())))
            })
        }
        _ => Box::new(move |w, x| {
            let l = || vec![FlashLoanPart { bank, token_account: ta, withdraw_amount: x }];
            let mut tx = Tx::one(w.build(FlashLoanBeginInstruction { account: a.key, owner, loans: l() })?);
            tx.ixs.push(spl_token::instruction::transfer(&spl_token::id(), &ta, &other, &owner.pubkey(), &[], x).unwrap());
            tx.push(w.build(FlashLoanEndInstruction { account: a.key, owner, loans: l(), flash_loan_type: FlashLoanType::Unknown })?);
            Some(tx)
        }),
    };
    let hi = match kind {
        0..=2 | 7 => (worth * 50.0 / price).min(1e17),
        _ => 1e15,
    };
    if let Some(x) = largest(w, hi, &*build) {
        let y = match w.rng.gen_range(0..4) {
            0 => x.saturating_sub(1).max(1),
            1 => x + 1,
            _ => x,
        };
        for y in [y, 1] {
            if let Some(tx) = build(w, y) {
                w.steps += 1;
                w.run(tx);
            }
        }
    }
    // what else can be squeezed out
    for _ in 0..w.rng.gen_range(0..4) {
        let acts: &[Act] = &[perp_place, withdraw, borrow, serum_place, serum_cancel, perp_cancel, flash_loan_swap, tcs_start, tcs_trigger, deposit, health_region];
        let f = *acts.choose(&mut w.rng).unwrap();
        w.step_with(f);
    }
    if let Some(u) = undo {
        w.send(u);
    }
    None
}
/// where in an instruction's data an amount stands, and how it is written
fn amount_at(name: &str) -> Option<(usize, bool)> {
    Some(match name {
        "token_conditional_swap_trigger" | "token_conditional_swap_trigger_v2" => (8 + 1 + 8 + 8, false),
        "token_liq_with_token" => (8 + 4, true),
        "token_liq_bankruptcy" => (8, true),
        "perp_liq_base_or_positive_pnl" | "perp_liq_negative_pnl_or_bankruptcy_v2" => (8, false),
        "token_deposit" | "token_withdraw" => (8, false),
        _ => return None,
    })
}
/// the largest amount that other instructions accept
pub fn edge_any(w: &mut World) -> Option<Tx> {
    let acts: &[Act] = &[tcs_trigger, tcs_trigger, liq_token, liq_perp_base, liq_perp_negative, liq_bankrupt, deposit];
    let act = *acts.choose(&mut w.rng).unwrap();
    let mut found = None;
    for _ in 0..6 {
        let Some(tx) = act(w) else { continue };
        let Some(i) = tx.ixs.iter().position(|i| crate::mon::ix_abi(&i.data).map_or(false, |a| amount_at(a.name).is_some())) else { continue };
        if w.what_if(|w| w.run(tx.clone()).ok()) {
            found = Some((tx, i));
            break;
        }
    }
    let (mut tx, i) = found?;
    let (at, wide) = amount_at(crate::mon::ix_abi(&tx.ixs[i].data)?.name)?;
    if at == 25 {
        tx.ixs[i].data[17..25].copy_from_slice(&u64::MAX.to_le_bytes());
    }
    let neg = at == 8 && tx.ixs[i].data.len() == 24 && tx.ixs[i].data[15] & 0x80 != 0;
    let build = move |_: &mut World, x: u64| {
        let mut tx = tx.clone();
        let d = &mut tx.ixs[i].data;
        if wide {
            d[at..at + 16].copy_from_slice(&((x as i128) << 44).to_le_bytes());
        } else {
            let x = if neg { -(x as i64) } else { x as i64 };
            d[at..at + 8].copy_from_slice(&x.to_le_bytes());
        }
        Some(tx)
    };
    let hi = if wide { 1e17 } else { 1e16 };
    let x = largest(w, hi, &build)?;
    w.hub.with_out(|o| o.count("largest-amount-found"));
    let y = match w.rng.gen_range(0..4) {
        0 => x.saturating_sub(1).max(1),
        1 => x + 1,
        _ => x,
    };
    for y in [y, 1] {
        if let Some(tx) = build(w, y) {
            w.steps += 1;
            w.run(tx);
        }
    }
    None
}
/// a token near one of its limits, and users who try to cross it
pub fn limit_story(w: &mut World) -> Option<Tx> {
    let t = w.pick_tok();
    let (group, admin) = (w.grp().group, w.grp().admin);
    let mint = t.t.mint.pubkey;
    let b: Bank = w.solana.get_account(t.t.bank);
    let mut o = token_edit_instruction_default();
    let mut undo = token_edit_instruction_default();
    let dep = f(b.indexed_deposits) * f(b.deposit_index);
    let bor = f(b.indexed_borrows) * f(b.borrow_index);
    let price = w.tok_price(&t);
    // how much more the limit leaves room for, in native tokens
    let usd = w.usd();
    let room = (usd * 1e6 / price).min(1e14).max(1.0);
    let kind = w.rng.gen_range(0..5);
    match kind {
        0 => {
            o.deposit_limit_opt = Some((dep + b.potential_serum_tokens as f64 + room) as u64);
            undo.deposit_limit_opt = Some(b.deposit_limit);
        }
        1 => {
            o.reset_net_borrow_limit = true;
            let size = *[60u64, 3600, 86_400].choose(&mut w.rng).unwrap();
            o.net_borrow_limit_window_size_ts_opt = Some(size);
            o.net_borrow_limit_per_window_quote_opt = Some((room * price) as i64 + 1);
            undo.net_borrow_limit_per_window_quote_opt = Some(-1);
            undo.net_borrow_limit_window_size_ts_opt = Some(b.net_borrow_limit_window_size_ts);
        }
        2 => {
            let util = ((bor + room) / dep.max(1.0)).min(1.0);
            o.min_vault_to_deposits_ratio_opt = Some((1.0 - util).clamp(0.0, 1.0));
            undo.min_vault_to_deposits_ratio_opt = Some(b.min_vault_to_deposits_ratio);
        }
        3 => {
            o.reduce_only_opt = Some(1);
            undo.reduce_only_opt = Some(b.reduce_only);
        }
        _ => {
            o.reduce_only_opt = Some(2);
            undo.reduce_only_opt = Some(b.reduce_only);
        }
    }
    w.send(TokenEdit { group, admin, mint, fallback_oracle: t.fallback.unwrap_or_default(), options: o });
    let mut cap = None;
    if w.rng.gen_bool(0.25) {
        // what one account may hold
        let a = w.pick_acc();
        let worth = w.health_of(&a.key).map_or(0.0, |h| h.stable_assets(HT::Init));
        let lim = (worth + room * price).clamp(1.0, 1e17) as u64;
        cap = Some((a, lim));
        w.send(GroupEdit { group, admin, options: mango_v4::instruction::GroupEdit { deposit_limit_quote_opt: Some(lim), ..group_edit_instruction_default() } });
    }
    if w.rng.gen_bool(0.4) {
        // oracle and stable price apart
        let f = *[0.7, 0.9, 1.1, 1.4].choose(&mut w.rng).unwrap();
        set_price(w, t.idx as usize, price * f);
    }
    for _ in 0..w.rng.gen_range(4..12) {
        let a = match cap {
            Some((a, _)) if w.rng.gen_bool(0.6) => a,
            _ => w.pick_acc(),
        };
        let owner = w.owner_of(&a);
        let ata = w.users[a.owner].atas[t.mint_i];
        let bank_index = w.rng.gen_range(0..2);
        let m = w.macc(&a.key)?;
        if let Some((c, lim)) = cap {
            if c.key == a.key && w.rng.gen_bool(0.5) {
                let h = w.health_of(&a.key);
                let v = h.as_ref().map_or(0.0, |h| h.stable_assets(HT::Init));
                let per = h.and_then(|h| h.tok(t.idx).map(|x| x.awp(HT::Init))).unwrap_or(price);
                let left = ((lim as f64 - v) / per.max(1e-9)).clamp(1.0, 1e15);
                let amount = (left * *[0.5, 0.9, 1.0, 1.0, 1.001, 1.05].choose(&mut w.rng).unwrap()) as u64 + 1;
                let x = w.build(TokenDepositInstruction { amount, reduce_only: false, account: a.key, owner, token_account: ata, token_authority: owner, bank_index });
                let tx = w.onef(x);
                w.step_with2(|_| tx);
                continue;
            }
        }
        let have = w.with_state(|s| {
            let tp = m.tok(t.idx)?;
            let b = s.bank0(&m.fx.group, t.idx)?;
            Some(native_pos(tp, b.1))
        });
        let have = have.unwrap_or(0.0);
        let f = *[0.3, 0.7, 0.98, 1.0, 1.02, 1.5].choose(&mut w.rng).unwrap();
        let d = w.rng.gen_range(-2.0..3.0f64);
        match w.rng.gen_range(0..8) {
            0 => {
                let amount = (have.max(0.0) + room * f + d).max(1.0) as u64;
                let x = w.build(TokenWithdrawInstruction { amount, allow_borrow: true, account: a.key, owner, token_account: ata, bank_index });
                let tx = w.onef(x);
                w.step_with2(|_| tx);
            }
            1 => {
                let amount = ((-have).max(0.0) + room * f + d).max(1.0) as u64;
                let reduce_only = w.rng.gen_bool(0.3);
                let x = w.build(TokenDepositInstruction { amount, reduce_only, account: a.key, owner, token_account: ata, token_authority: owner, bank_index });
                let tx = w.onef(x);
                w.step_with2(|_| tx);
            }
            2 => {
                // borrow or repay with a flash loan
                let x = w.rng.gen_range(0..3);
                let amount = if x == 0 { 0 } else { (have.max(0.0) + room * f + d).max(1.0) as u64 };
                let bank = t.t.bank;
                let l = || vec![FlashLoanPart { bank, token_account: ata, withdraw_amount: amount }];
                let mut tx = Tx::one(w.build(FlashLoanBeginInstruction { account: a.key, owner, loans: l() })?);
                let (from, to, n) = if x == 0 {
                    (w.users[a.owner].others[t.mint_i], ata, ((-have).max(0.0) + room * f + d).max(1.0) as u64)
                } else {
                    (ata, w.users[a.owner].others[t.mint_i], amount)
                };
                tx.ixs.push(spl_token::instruction::transfer(&spl_token::id(), &from, &to, &owner.pubkey(), &[], n).unwrap());
                tx.push(w.build(FlashLoanEndInstruction { account: a.key, owner, loans: l(), flash_loan_type: FlashLoanType::Unknown })?);
                w.step_with2(|_| Some(tx));
            }
            3 | 4 => {
                w.step_with(serum_place);
            }
            5 => {
                w.step_with(tcs_create);
                w.step_with(tcs_trigger);
            }
            6 => {
                w.step_with(tcs_trigger);
                w.step_with(tcs_start);
            }
            _ => {
                let acts: &[Act] = &[deposit, withdraw, borrow, serum_settle, serum_cancel, flash_loan, deposit_into_existing, time];
                let f = *acts.choose(&mut w.rng).unwrap();
                w.step_with(f);
            }
        }
    }
    if cap.is_some() {
        w.send(GroupEdit { group, admin, options: mango_v4::instruction::GroupEdit { deposit_limit_quote_opt: Some(0), ..group_edit_instruction_default() } });
    }
    w.send(TokenEdit { group, admin, mint, fallback_oracle: t.fallback.unwrap_or_default(), options: undo });
    None
}
/// a token with a certain rate curve, over time and at different utilizations
pub fn interest_story(w: &mut World) -> Option<Tx> {
    let t = w.pick_tok();
    let (group, admin) = (w.grp().group, w.grp().admin);
    let mint = t.t.mint.pubkey;
    let mut o = token_edit_instruction_default();
    let now = w.now();
    let r = &mut w.rng;
    if r.gen_bool(0.7) {
        let u0: f32 = r.gen_range(0.05..0.9);
        o.interest_rate_params_opt = Some(mango_v4::accounts_ix::InterestRateParams {
            adjustment_factor: *[0.0f32, 0.004, 0.05, 0.5].choose(r).unwrap(),
            util0: u0,
            rate0: r.gen_range(0.0..0.3),
            util1: if r.gen_bool(0.1) { u0 } else { r.gen_range(u0..1.0) },
            rate1: r.gen_range(0.0..0.9),
            max_rate: r.gen_range(0.2..3.0),
        });
    }
    if r.gen_bool(0.5) {
        o.interest_curve_scaling_opt = Some(r.gen_range(1.0..5.0));
        o.interest_target_utilization_opt = Some(r.gen_range(0.05..0.95));
    }
    if r.gen_bool(0.4) {
        o.zero_util_rate_opt = Some(r.gen_range(0.0..0.05));
        o.loan_fee_rate_opt = Some(r.gen_range(0.0..0.2));
    }
    if r.gen_bool(0.4) {
        o.maint_weight_shift_start_opt = Some(now + r.gen_range(0..100));
        o.maint_weight_shift_end_opt = Some(now + r.gen_range(101..4000));
        o.maint_weight_shift_asset_target_opt = Some(r.gen_range(0.6..0.9));
        o.maint_weight_shift_liab_target_opt = Some(r.gen_range(1.1..1.3));
    }
    w.send(TokenEdit { group, admin, mint, fallback_oracle: t.fallback.unwrap_or_default(), options: o });
    if w.rng.gen_bool(0.08) {
        // banks the way they were before curve scaling existed
        let mi: MintInfo = w.solana.get_account(t.t.mint_info);
        for k in mi.banks() {
            let mut b: Bank = w.solana.get_account(*k);
            b.interest_curve_scaling = 0.0;
            b.interest_target_utilization = 0.0;
            w.solana.set_account(*k, &b);
        }
    }
    for _ in 0..w.rng.gen_range(3..9) {
        if w.rng.gen_bool(0.5) {
            let b: Bank = w.solana.get_account(t.t.bank);
            let dep = f(b.indexed_deposits) * f(b.deposit_index);
            let bor = f(b.indexed_borrows) * f(b.borrow_index);
            let a = w.pick_acc();
            let owner = w.owner_of(&a);
            let ata = w.users[a.owner].atas[t.mint_i];
            if w.rng.gen_bool(0.7) {
                let goal = w.rng.gen_range(0.05..1.0f64) * dep - bor;
                let x = w.build(TokenWithdrawInstruction { amount: goal.max(1.0) as u64, allow_borrow: true, account: a.key, owner, token_account: ata, bank_index: 0 });
                let tx = w.onef(x);
                w.step_with2(|_| tx);
            } else {
                w.step_with(deposit);
            }
        }
        let d = *[1u64, 9, 60, 599, 1800, 3599, 3600, 3601, 7300, 90_000].choose(&mut w.rng).unwrap();
        w.advance(d);
        if w.rng.gen_bool(0.9) {
            refresh_oracles(w);
        }
        let mut tx = Tx { ixs: vec![], signers: vec![] };
        let mi = t.t.mint_info;
        let n = w.rng.gen_range(0..5);
        if n == 0 {
            tx.ixs.push(solana_program::instruction::Instruction { program_id: mango_v4::instructions::compute_budget::id(), accounts: vec![], data: vec![2, 0, 0, 16, 0] });
        }
        if n == 1 {
            // together with something else
            if let Some(o) = w.rng.gen_bool(0.5).then(|| deposit(w)).flatten() {
                tx = tx.join(o);
            }
        }
        if w.rng.gen_bool(0.7) {
            tx.push(w.build(TokenUpdateIndexAndRateInstruction { mint_info: mi })?);
        } else {
            tx.push(w.build(TokenUpdateIndexAndRateResilientInstruction { mint_info: mi })?);
        }
        if n == 2 {
            let x = w.pick_tok();
            tx.push(w.build(TokenUpdateIndexAndRateInstruction { mint_info: x.t.mint_info })?);
        }
        if n == 3 {
            if let Some(o) = w.rng.gen_bool(0.5).then(|| borrow(w)).flatten() {
                tx = tx.join(o);
            }
        }
        w.step_with2(|_| Some(tx));
    }
    None
}
/// a perp market in wind-down, and users who trade on
pub fn perp_reduce_story(w: &mut World) -> Option<Tx> {
    let p = w.pick_perp()?;
    let admin = w.grp().admin;
    for (on, n) in [(true, 8), (false, 0)] {
        let mut o = perp_edit_instruction_default();
        o.reduce_only_opt = Some(on);
        let x = w.perp_edit_ix(p.market, o, admin);
        w.run(Tx::one(x));
        for _ in 0..n {
            let acts: &[Act] = &[perp_place, perp_place, perp_trade, consume, perp_cancel];
            let f = *acts.choose(&mut w.rng).unwrap();
            w.step_with(f);
        }
    }
    None
}
/// what the security admin alone may and may not do
pub fn security_edit(w: &mut World) -> Option<Tx> {
    let t = w.pick_tok();
    let (group, admin, security) = (w.grp().group, w.grp().admin, w.grp().security);
    let mint = t.t.mint.pubkey;
    let b: Bank = w.solana.get_account(t.t.bank);
    let mut o = token_edit_instruction_default();
    let mut undo = token_edit_instruction_default();
    match w.rng.gen_range(0..6) {
        0 => {
            o.reduce_only_opt = Some(*[1u8, 2].choose(&mut w.rng).unwrap());
            undo.reduce_only_opt = Some(b.reduce_only);
        }
        1 => {
            o.init_asset_weight_opt = Some(0.0);
            undo.init_asset_weight_opt = Some(b.init_asset_weight.to_num());
        }
        2 => o.reduce_only_opt = Some(0),
        3 => o.init_asset_weight_opt = Some(b.init_asset_weight.to_num()),
        4 => {
            o.net_borrow_limit_per_window_quote_opt = Some(b.net_borrow_limit_per_window_quote);
        }
        _ => o.force_close_opt = Some(true),
    }
    if t.idx == 0 {
        return None;
    }
    w.send(TokenEdit { group, admin: security, mint, fallback_oracle: t.fallback.unwrap_or_default(), options: o });
    for _ in 0..3 {
        let acts: &[Act] = &[deposit, withdraw, borrow, serum_place, flash_loan];
        let f = *acts.choose(&mut w.rng).unwrap();
        w.step_with(f);
    }
    w.send(TokenEdit { group, admin, mint, fallback_oracle: t.fallback.unwrap_or_default(), options: undo });
    None
}
pub fn perp_edit(w: &mut World) -> Option<Tx> {
    let p = w.pick_perp()?;
    let (admin, security) = (w.grp().admin, w.grp().security);
    let mut o = perp_edit_instruction_default();
    let r = &mut w.rng;
    match r.gen_range(0..12) {
        0 => o.base_liquidation_fee_opt = Some(r.gen_range(0.0..0.05)),
        1 => o.taker_fee_opt = Some(r.gen_range(0.006..0.01)),
        2 => o.impact_quantity_opt = Some(r.gen_range(1..500)),
        3 => o.settle_pnl_limit_factor_opt = Some(*[-1.0f32, 0.0, 0.2, 1.0].choose(r).unwrap()),
        4 => o.settle_pnl_limit_window_size_ts_opt = Some(*[600u64, 3600, 86_400].choose(r).unwrap()),
        5 => o.settle_fee_flat_opt = Some(r.gen_range(0.0..2000.0)),
        6 => o.settle_fee_fraction_low_health_opt = Some(r.gen_range(0.0..0.05)),
        7 => o.reset_stable_price = true,
        8 => o.init_overall_asset_weight_opt = Some(0.0),
        9 => o.positive_pnl_liquidation_fee_opt = Some(r.gen_range(0.0..0.05)),
        10 => o.platform_liquidation_fee_opt = Some(r.gen_range(0.0..0.03)),
        _ => o.max_funding_opt = Some(r.gen_range(-0.03..0.2)),
    }
    let who = if r.gen_bool(0.15) { security } else { admin };
    let x = w.perp_edit_ix(p.market, o, who);
    Some(Tx::one(x))
}
pub fn group_edit(w: &mut World) -> Option<Tx> {
    let (group, admin) = (w.grp().group, w.grp().admin);
    let mut o = group_edit_instruction_default();
    let r = &mut w.rng;
    match r.gen_range(0..6) {
        0 => o.deposit_limit_quote_opt = Some(if r.gen_bool(0.6) { 0 } else { loguni(r, 1e9, 1e12) as u64 }),
        1 => o.buyback_fees_bonus_factor_opt = Some(r.gen_range(1.0..1.5)),
        2 => o.collateral_fee_interval_opt = Some(*[3600u64, 86_400, 0].choose(r).unwrap()),
        3 => o.buyback_fees_opt = Some(r.gen_bool(0.8)),
        4 => o.allowed_fast_listings_per_interval_opt = Some(r.gen_range(0..4)),
        _ => o.buyback_fees_expiry_interval_opt = Some(*[86_400u64, 432_000].choose(r).unwrap()),
    }
    let x = w.build(GroupEdit { group, admin, options: o });
    w.one(x)
}
/// disable something, see that it is, enable it again
pub fn gate(w: &mut World) -> Option<Tx> {
    let (group, admin, security) = (w.grp().group, w.grp().admin, w.grp().security);
    let bits = w.rng.gen_range(1..25);
    let mut gate = 0u128;
    for _ in 0..bits {
        gate |= 1u128 << w.rng.gen_range(0..80);
    }
    let who = if w.rng.gen_bool(0.5) { security } else { admin };
    w.send(IxGateSetInstruction { group, admin: who, ix_gate: gate });
    for _ in 0..8 {
        let i = w.rng.gen_range(0..ACTIONS.len());
        let (n, f) = ACTIONS[i];
        if !STORIES.contains(&n) {
            w.step_with(f);
        }
    }
    if w.rng.gen_bool(0.3) {
        // the security admin cannot re-enable
        w.send(IxGateSetInstruction { group, admin: security, ix_gate: 0 });
    }
    w.send(IxGateSetInstruction { group, admin, ix_gate: 0 });
    None
}
pub fn trustless_register(w: &mut World) -> Option<Tx> {
    // a mint no group has listed through its regular tokens
    let nt = w.mints.len();
    let mi = w.rng.gen_range(w.cfg.tokens..nt);
    let m = if w.rng.gen_bool(0.3) { w.mints[mi].pubkey } else { w.fresh_mint() };
    let (group, fast, admin) = (w.grp().group, w.grp().fast, w.grp().admin);
    let who = if w.rng.gen_bool(0.7) { fast } else { admin };
    let token_index = 100 + w.rng.gen_range(0..40) as u16;
    let pda = |seeds: &[&[u8]]| Pubkey::find_program_address(seeds, &mango_v4::id()).0;
    let bank = pda(&[b"Bank", group.as_ref(), &token_index.to_le_bytes(), &0u32.to_le_bytes()]);
    let vault = pda(&[b"Vault", group.as_ref(), &token_index.to_le_bytes(), &0u32.to_le_bytes()]);
    let mint_info = pda(&[b"MintInfo", group.as_ref(), m.as_ref()]);
    let oracle = w.grp().toks[0].t.oracle;
    let payer = w.users[0].key;
    let accounts = mango_v4::accounts::TokenRegisterTrustless {
        group,
        admin: who.pubkey(),
        mint: m,
        bank,
        vault,
        mint_info,
        oracle,
        fallback_oracle: Pubkey::default(),
        payer: payer.pubkey(),
        token_program: spl_token::id(),
        system_program: solana_program::system_program::id(),
        rent: solana_program::sysvar::rent::id(),
    };
    Some(Tx {
        ixs: vec![mix(
            &accounts,
            &mango_v4::instruction::TokenRegisterTrustless { token_index, name: "T".into() },
        )],
        signers: vec![who, payer],
    })
}
pub fn add_bank(w: &mut World) -> Option<Tx> {
    let t = w.pick_tok();
    let (group, admin) = (w.grp().group, w.grp().admin);
    let payer = w.users[0].key;
    let bank_num = w.rng.gen_range(1..5);
    let x = w.build(TokenAddBankInstruction { token_index: t.idx, bank_num, group, admin, payer })?;
    let ok = w.run(Tx::one(x)).ok();
    if ok {
        let mi: MintInfo = w.solana.get_account(t.t.mint_info);
        let g = w.g;
        let tw = &mut w.groups[g].toks[t.idx as usize];
        tw.banks = mi.banks().to_vec();
        tw.vaults = mi.vaults.iter().copied().filter(|v| *v != Pubkey::default()).collect();
    }
    None
}

/// a number that is usually fine, sometimes at an edge, sometimes impossible
fn par(r: &mut ChaCha8Rng, lo: f64, hi: f64) -> f64 {
    match r.gen_range(0..12) {
        0 => 0.0,
        1 => 1.0,
        2 => -0.01,
        3 => hi * 3.0 + 0.1,
        4 => lo,
        _ => r.gen_range(lo..hi),
    }
}
fn par32(r: &mut ChaCha8Rng, lo: f64, hi: f64) -> f32 {
    par(r, lo, hi) as f32
}
fn some_text(r: &mut ChaCha8Rng, max: usize) -> String {
    let n = r.gen_range(0..max + 3);
    (0..n).map(|_| (b'a' + r.gen_range(0..26)) as char).collect()
}
fn oracle_params(r: &mut ChaCha8Rng) -> OracleConfigParams {
    OracleConfigParams {
        conf_filter: par32(r, 0.01, 1.0),
        max_staleness_slots: if r.gen_bool(0.3) { None } else { Some(r.gen_range(0..2000)) },
    }
}
fn any_admin(w: &mut World) -> TestKeypair {
    let (a, s, f) = (w.grp().admin, w.grp().security, w.grp().fast);
    let x = w.attacker.key;
    *[a, a, a, a, s, s, s, f, x].choose(&mut w.rng).unwrap()
}
pub fn any_token_edit(w: &mut World) -> Option<Tx> {
    let t = w.pick_tok();
    let group = w.grp().group;
    let who = any_admin(w);
    let limited = who.pubkey() == w.grp().security.pubkey() && w.rng.gen_bool(0.7);
    let now = w.now();
    let other = {
        let t = w.pick_tok();
        t.t.oracle
    };
    let b: Bank = w.solana.get_account(t.t.bank);
    let mut o = token_edit_instruction_default();
    let r = &mut w.rng;
    let n = *[0usize, 1, 1, 1, 2, 2, 3, 5, 12].choose(r).unwrap();
    let safe = [16usize, 7, 37, 39, 30];
    for _ in 0..n {
        let k = if limited { *safe.choose(r).unwrap() } else { r.gen_range(0..42) };
        match k {
            0 => o.oracle_opt = Some(if r.gen_bool(0.5) { other } else { t.t.oracle }),
            1 => o.oracle_config_opt = Some(oracle_params(r)),
            2 => o.group_insurance_fund_opt = Some(r.gen_bool(0.5)),
            3 => {
                let mut u = [par32(r, 0.0, 1.0), par32(r, 0.0, 1.0)];
                if r.gen_bool(0.7) {
                    u.sort_by(|a, b| a.partial_cmp(b).unwrap());
                }
                o.interest_rate_params_opt = Some(mango_v4::accounts_ix::InterestRateParams {
                    util0: u[0],
                    rate0: par32(r, 0.0, 0.5),
                    util1: u[1],
                    rate1: par32(r, 0.0, 0.9),
                    max_rate: par32(r, 0.0, 2.0),
                    adjustment_factor: par32(r, 0.0, 0.1),
                })
            }
            4 => o.loan_fee_rate_opt = Some(par32(r, 0.0, 0.3)),
            5 => o.loan_origination_fee_rate_opt = Some(par32(r, 0.0, 0.01)),
            6 => o.maint_asset_weight_opt = Some(par32(r, 0.0, 1.2)),
            7 => o.init_asset_weight_opt = Some(if r.gen_bool(0.4) { 0.0 } else { par32(r, 0.0, 1.2) }),
            8 => o.maint_liab_weight_opt = Some(par32(r, 0.8, 2.0)),
            9 => o.init_liab_weight_opt = Some(par32(r, 0.8, 2.0)),
            10 => o.liquidation_fee_opt = Some(par32(r, 0.0, 0.2)),
            11 => o.stable_price_delay_interval_seconds_opt = Some(r.gen_range(1..7200)),
            12 => o.stable_price_delay_growth_limit_opt = Some(par32(r, 0.0, 0.2)),
            13 => o.stable_price_growth_limit_opt = Some(par32(r, 0.0, 0.01)),
            14 => o.min_vault_to_deposits_ratio_opt = Some(par(r, 0.0, 1.0)),
            15 => o.net_borrow_limit_per_window_quote_opt = Some(*[-2i64, -1, 0, 1, 1 << 40].choose(r).unwrap()),
            16 => o.reduce_only_opt = Some(*[0u8, 1, 2, 2, 1, 3].choose(r).unwrap()),
            17 => o.net_borrow_limit_window_size_ts_opt = Some(r.gen_range(1..200_000)),
            18 => o.borrow_weight_scale_start_quote_opt = Some(if r.gen_bool(0.5) { f64::MAX } else { par(r, 1.0, 1e12) }),
            19 => o.deposit_weight_scale_start_quote_opt = Some(if r.gen_bool(0.5) { f64::MAX } else { par(r, 1.0, 1e12) }),
            20 => o.reset_stable_price = true,
            21 => o.reset_net_borrow_limit = true,
            22 => o.name_opt = Some(some_text(r, 16)),
            23 => o.force_close_opt = Some(r.gen_bool(0.6)),
            24 => o.token_conditional_swap_taker_fee_rate_opt = Some(par32(r, 0.0, 0.05)),
            25 => o.token_conditional_swap_maker_fee_rate_opt = Some(par32(r, 0.0, 0.05)),
            26 => o.flash_loan_swap_fee_rate_opt = Some(par32(r, 0.0, 0.05)),
            27 => o.interest_curve_scaling_opt = Some(par32(r, 1.0, 8.0)),
            28 => o.interest_target_utilization_opt = Some(par32(r, 0.0, 1.0)),
            29 => o.tier_opt = Some(some_text(r, 4)),
            30 => o.maint_weight_shift_abort = true,
            31 => o.maint_weight_shift_start_opt = Some(now - 500 + r.gen_range(0..1000)),
            32 => o.maint_weight_shift_end_opt = Some(now - 500 + r.gen_range(0..2000)),
            33 => o.maint_weight_shift_asset_target_opt = Some(par32(r, 0.0, 1.0)),
            34 => o.maint_weight_shift_liab_target_opt = Some(par32(r, 1.0, 2.0)),
            35 => o.set_fallback_oracle = true,
            36 => o.deposit_limit_opt = Some(r.gen_range(0..u64::MAX / 2)),
            37 => o.platform_liquidation_fee_opt = Some(if r.gen_bool(0.4) { 0.0 } else { par32(r, 0.0, 0.2) }),
            38 => o.zero_util_rate_opt = Some(par32(r, 0.0, 0.3)),
            39 => o.collateral_fee_per_day_opt = Some(if r.gen_bool(0.4) { 0.0 } else { par32(r, 0.0, 0.1) }),
            40 => o.disable_asset_liquidation_opt = Some(r.gen_bool(0.6)),
            _ => o.force_withdraw_opt = Some(r.gen_bool(0.6)),
        }
    }
    // the winding down modes in their proper order
    if !limited && r.gen_bool(0.1) {
        o.reduce_only_opt = Some(if r.gen_bool(0.8) { 1 } else { 2 });
        o.init_asset_weight_opt = Some(0.0);
        o.maint_asset_weight_opt = Some(if r.gen_bool(0.8) { 0.0 } else { 0.5 });
        o.disable_asset_liquidation_opt = Some(r.gen_bool(0.8));
        o.force_withdraw_opt = Some(true);
        o.force_close_opt = Some(r.gen_bool(0.5));
    }
    // weights that stay in order
    if !limited && r.gen_bool(0.2) {
        let (a, l) = (r.gen_range(0.0..1.0f32), r.gen_range(1.0..2.0f32));
        o.maint_asset_weight_opt = Some(a);
        o.init_asset_weight_opt = Some(if r.gen_bool(0.2) { a } else { a * 0.9 });
        o.maint_liab_weight_opt = Some(l);
        o.init_liab_weight_opt = Some(if r.gen_bool(0.2) { l } else { l * 1.1 });
    }
    let fallback = if o.set_fallback_oracle {
        *[Pubkey::default(), other, t.t.oracle].choose(r).unwrap()
    } else {
        t.fallback.unwrap_or_default()
    };
    let or = o.oracle_opt.unwrap_or(b.oracle);
    let (mut ix, s) = w.build(TokenEdit { group, admin: who, mint: t.t.mint.pubkey, fallback_oracle: fallback, options: o })?;
    if w.rng.gen_bool(0.9) {
        ix.accounts[3].pubkey = or;
    }
    Some(Tx { ixs: vec![ix], signers: s })
}
pub fn any_perp_edit(w: &mut World) -> Option<Tx> {
    let p = w.pick_perp()?;
    let who = any_admin(w);
    let limited = who.pubkey() == w.grp().security.pubkey() && w.rng.gen_bool(0.7);
    let other = {
        let t = w.pick_tok();
        t.t.oracle
    };
    let m: PerpMarket = w.solana.get_account(p.market);
    let mut o = perp_edit_instruction_default();
    let r = &mut w.rng;
    for _ in 0..*[0usize, 1, 1, 1, 2, 3, 5, 10].choose(r).unwrap() {
        match if limited { *[25usize, 8].choose(r).unwrap() } else { r.gen_range(0..31) } {
            0 => o.oracle_opt = Some(if r.gen_bool(0.5) { other } else { m.oracle }),
            1 => o.oracle_config_opt = Some(oracle_params(r)),
            2 => o.base_decimals_opt = Some(r.gen_range(0..10)),
            3 => o.maint_base_asset_weight_opt = Some(par32(r, 0.0, 1.0)),
            4 => o.init_base_asset_weight_opt = Some(par32(r, 0.0, 1.0)),
            5 => o.maint_base_liab_weight_opt = Some(par32(r, 1.0, 2.0)),
            6 => o.init_base_liab_weight_opt = Some(par32(r, 1.0, 2.0)),
            7 => o.maint_overall_asset_weight_opt = Some(par32(r, 0.0, 1.0)),
            8 => o.init_overall_asset_weight_opt = Some(if r.gen_bool(0.5) { 0.0 } else { par32(r, 0.0, 1.0) }),
            9 => o.base_liquidation_fee_opt = Some(par32(r, 0.0, 0.1)),
            10 => o.maker_fee_opt = Some(par32(r, -0.001, 0.01)),
            11 => o.taker_fee_opt = Some(par32(r, 0.0, 0.01)),
            12 => o.min_funding_opt = Some(par32(r, -0.1, 0.0)),
            13 => o.max_funding_opt = Some(par32(r, 0.0, 0.1)),
            14 => o.impact_quantity_opt = Some(r.gen_range(1..10_000)),
            15 => o.group_insurance_fund_opt = Some(r.gen_bool(0.5)),
            16 => o.fee_penalty_opt = Some(par32(r, 0.0, 1000.0)),
            17 => o.settle_fee_flat_opt = Some(par32(r, 0.0, 1000.0)),
            18 => o.settle_fee_amount_threshold_opt = Some(par32(r, 0.0, 1000.0)),
            19 => o.settle_fee_fraction_low_health_opt = Some(par32(r, 0.0, 0.1)),
            20 => o.stable_price_delay_interval_seconds_opt = Some(r.gen_range(1..7200)),
            21 => o.stable_price_delay_growth_limit_opt = Some(par32(r, 0.0, 0.2)),
            22 => o.stable_price_growth_limit_opt = Some(par32(r, 0.0, 0.01)),
            23 => o.settle_pnl_limit_factor_opt = Some(par32(r, -1.0, 1.0)),
            24 => o.settle_pnl_limit_window_size_ts_opt = Some(r.gen_range(1..200_000)),
            25 => o.reduce_only_opt = Some(r.gen_bool(0.7)),
            26 => o.reset_stable_price = true,
            27 => o.positive_pnl_liquidation_fee_opt = Some(par32(r, 0.0, 0.1)),
            28 => o.name_opt = Some(some_text(r, 16)),
            29 => o.force_close_opt = Some(r.gen_bool(0.6)),
            _ => o.platform_liquidation_fee_opt = Some(par32(r, 0.0, 0.1)),
        }
    }
    let or = o.oracle_opt.unwrap_or(m.oracle);
    let (mut ix, s) = w.perp_edit_ix(p.market, o, who);
    if w.rng.gen_bool(0.9) {
        ix.accounts[3].pubkey = or;
    }
    Some(Tx { ixs: vec![ix], signers: s })
}
pub fn any_group_edit(w: &mut World) -> Option<Tx> {
    let group = w.grp().group;
    let who = any_admin(w);
    let mut o = group_edit_instruction_default();
    let keys = [w.users[0].key.pubkey(), w.attacker.key.pubkey(), w.grp().security.pubkey(), Pubkey::default()];
    let r = &mut w.rng;
    for _ in 0..r.gen_range(0..5) {
        match r.gen_range(0..13) {
            0 => o.admin_opt = Some(*keys.choose(r).unwrap()),
            1 => o.fast_listing_admin_opt = Some(*keys.choose(r).unwrap()),
            2 => o.security_admin_opt = Some(*keys.choose(r).unwrap()),
            3 => o.testing_opt = Some(r.gen_range(0..2)),
            4 => o.version_opt = Some(r.gen_range(0..4)),
            5 => o.deposit_limit_quote_opt = Some(r.gen_range(0..1 << 50)),
            6 => o.buyback_fees_opt = Some(r.gen_bool(0.5)),
            7 => o.buyback_fees_bonus_factor_opt = Some(par32(r, 1.0, 2.0)),
            8 => o.buyback_fees_swap_mango_account_opt = Some(*keys.choose(r).unwrap()),
            9 => o.mngo_token_index_opt = Some(r.gen_range(0..10)),
            10 => o.buyback_fees_expiry_interval_opt = Some(r.gen_range(0..1_000_000)),
            11 => o.allowed_fast_listings_per_interval_opt = Some(r.gen_range(0..20)),
            _ => o.collateral_fee_interval_opt = Some(r.gen_range(0..100_000)),
        }
    }
    let x = w.build(GroupEdit { group, admin: who, options: o });
    w.one(x)
}
pub fn any_register(w: &mut World) -> Option<Tx> {
    let mint = w.fresh_mint();
    let (group, payer) = (w.grp().group, w.users[0].key);
    let who = any_admin(w);
    let token_index = *[200u16, 201, 300, u16::MAX, 0, 1].choose(&mut w.rng).unwrap();
    let pda = |seeds: &[&[u8]]| Pubkey::find_program_address(seeds, &mango_v4::id()).0;
    let t = w.pick_tok();
    let r = &mut w.rng;
    let bad = r.gen_bool(0.5);
    let mut v = |lo: f64, hi: f64| if bad && r.gen_bool(0.1) { par32(r, lo, hi) } else { r.gen_range(lo..hi) as f32 };
    let (util0, util1) = (v(0.01, 0.5), v(0.5, 1.0));
    let (iaw, maw, mlw, ilw) = (v(0.0, 0.5), v(0.5, 1.0), v(1.0, 1.3), v(1.3, 2.0));
    let irp = mango_v4::accounts_ix::InterestRateParams { util0, rate0: v(0.0, 0.1), util1, rate1: v(0.1, 0.5), max_rate: v(0.5, 2.0), adjustment_factor: v(0.0, 0.1) };
    let a = mango_v4::instruction::TokenRegister {
        token_index,
        name: "new".into(),
        oracle_config: OracleConfigParams { conf_filter: v(0.01, 1.0), max_staleness_slots: Some(77) },
        interest_rate_params: irp,
        loan_fee_rate: v(0.0, 0.1),
        loan_origination_fee_rate: v(0.0, 0.1),
        maint_asset_weight: maw,
        init_asset_weight: iaw,
        maint_liab_weight: mlw,
        init_liab_weight: ilw,
        liquidation_fee: v(0.0, 0.1),
        stable_price_delay_interval_seconds: 1234,
        stable_price_delay_growth_limit: v(0.0, 0.1),
        stable_price_growth_limit: v(0.0, 0.1),
        min_vault_to_deposits_ratio: v(0.0, 1.0) as f64,
        net_borrow_limit_window_size_ts: 3456,
        net_borrow_limit_per_window_quote: 789_000,
        borrow_weight_scale_start_quote: v(1.0, 1e9) as f64,
        deposit_weight_scale_start_quote: v(1.0, 1e9) as f64,
        reduce_only: v(0.0, 3.0) as u8,
        token_conditional_swap_taker_fee_rate: v(0.0, 0.1),
        token_conditional_swap_maker_fee_rate: v(0.0, 0.1),
        flash_loan_swap_fee_rate: v(0.0, 0.1),
        interest_curve_scaling: v(1.0, 4.0),
        interest_target_utilization: v(0.0, 1.0),
        group_insurance_fund: v(0.0, 1.0) < 0.5,
        deposit_limit: 4567,
        zero_util_rate: v(0.0, 0.1),
        platform_liquidation_fee: v(0.0, 0.1),
        disable_asset_liquidation: v(0.0, 1.0) < 0.2,
        collateral_fee_per_day: v(0.0, 0.1),
        tier: "B".into(),
    };
    let accounts = mango_v4::accounts::TokenRegister {
        group,
        admin: who.pubkey(),
        mint,
        bank: pda(&[b"Bank", group.as_ref(), &token_index.to_le_bytes(), &0u32.to_le_bytes()]),
        vault: pda(&[b"Vault", group.as_ref(), &token_index.to_le_bytes(), &0u32.to_le_bytes()]),
        mint_info: pda(&[b"MintInfo", group.as_ref(), mint.as_ref()]),
        oracle: t.t.oracle,
        fallback_oracle: t.fallback.unwrap_or_default(),
        payer: payer.pubkey(),
        token_program: spl_token::id(),
        system_program: solana_program::system_program::id(),
        rent: solana_program::sysvar::rent::id(),
    };
    Some(Tx { ixs: vec![mix(&accounts, &a)], signers: vec![who, payer] })
}
pub fn any_serum_edit(w: &mut World) -> Option<Tx> {
    let s = w.pick_ser()?;
    let group = w.grp().group;
    let admin = any_admin(w);
    let mut o = serum3_edit_market_instruction_default();
    let r = &mut w.rng;
    for _ in 0..r.gen_range(0..3) {
        match r.gen_range(0..5) {
            0 | 1 => o.reduce_only_opt = Some(r.gen_bool(0.7)),
            2 => o.force_close_opt = Some(r.gen_bool(0.6)),
            3 => o.name_opt = Some(some_text(r, 16)),
            _ => o.oracle_price_band_opt = Some(par32(r, 0.0, 20.0)),
        }
    }
    let x = w.build(Serum3EditMarketInstruction { group, admin, market: s.market, options: o });
    w.one(x)
}
pub fn any_serum_register(w: &mut World) -> Option<Tx> {
    let group = w.grp().group;
    let (admin, fast, sec) = (w.grp().admin, w.grp().fast, w.grp().security);
    let who = *[admin, fast, fast, fast, sec].choose(&mut w.rng).unwrap();
    let (b, q, x) = (w.pick_tok(), w.pick_tok(), w.pick_tok());
    if b.idx == q.idx {
        return None;
    }
    // listings usually come with tokens of no value
    if w.rng.gen_bool(0.5) {
        let mut o = token_edit_instruction_default();
        o.reduce_only_opt = Some(w.rng.gen_range(0..3));
        if w.rng.gen_bool(0.7) {
            o.init_asset_weight_opt = Some(0.0);
            o.maint_asset_weight_opt = Some(0.0);
        }
        w.send(TokenEdit { group, admin, mint: b.t.mint.pubkey, fallback_oracle: b.fallback.unwrap_or_default(), options: o });
    }
    if w.rng.gen_bool(0.5) {
        let mut o = token_edit_instruction_default();
        o.deposit_limit_opt = Some(if w.rng.gen_bool(0.7) { 0 } else { 1 << 40 });
        o.deposit_weight_scale_start_quote_opt = Some(if w.rng.gen_bool(0.7) { f64::MAX } else { 1e9 });
        w.send(TokenEdit { group, admin, mint: q.t.mint.pubkey, fallback_oracle: q.fallback.unwrap_or_default(), options: o });
    }
    let cookie = w.serum.list_spot_market_lots(&b.t.mint, &q.t.mint, 100, 10);
    let payer = w.users[0].key;
    let quote_bank = if w.rng.gen_bool(0.9) { q.t.bank } else { x.t.bank };
    let index = w.rng.gen_range(10..60);
    let (mut ix, s) = w.build(Serum3RegisterMarketInstruction {
        group,
        admin: who,
        payer,
        serum_program: w.serum.program_id,
        serum_market_external: cookie.market,
        market_index: index,
        base_bank: b.t.bank,
        quote_bank,
    })?;
    let oracle_price_band = *[1.0f32, 19.0, 1.0, 19.0, 2.0, 0.0].choose(&mut w.rng).unwrap();
    ix.data = data(&mango_v4::instruction::Serum3RegisterMarket { market_index: index, name: "A/B".into(), oracle_price_band });
    Some(Tx { ixs: vec![ix], signers: s })
}
/// all sorts of settings by all sorts of people, none of which last
pub fn config_story(w: &mut World) -> Option<Tx> {
    w.detour(|w| {
        for _ in 0..w.rng.gen_range(3..12) {
            let f: Act = *[any_token_edit as Act, any_token_edit, any_token_edit, any_perp_edit, any_perp_edit, any_group_edit, any_register, any_serum_edit, any_serum_register, add_bank, ix_gate]
                .choose(&mut w.rng)
                .unwrap();
            w.step_with(f);
            if w.rng.gen_bool(0.2) {
                let d = w.rng.gen_range(1..800);
                w.advance(d);
            }
        }
    });
    None
}
fn ix_gate(w: &mut World) -> Option<Tx> {
    let group = w.grp().group;
    let who = any_admin(w);
    let g: Group = w.solana.get_account(group);
    let bit = 1u128 << w.rng.gen_range(0..128);
    let n = match w.rng.gen_range(0..4) {
        0 => 0,
        1 => g.ix_gate | bit,
        2 => g.ix_gate & !bit,
        _ => w.rng.gen::<u128>() | g.ix_gate,
    };
    let x = w.build(IxGateSetInstruction { group, admin: who, ix_gate: n });
    w.one(x)
}
/// many permissionless-style listings around the turn of a week
pub fn listing_story(w: &mut World) -> Option<Tx> {
    let (group, admin) = (w.grp().group, w.grp().admin);
    let mut o = group_edit_instruction_default();
    o.allowed_fast_listings_per_interval_opt = Some(w.rng.gen_range(0..4));
    w.send(GroupEdit { group, admin, options: o });
    let week = 7 * 24 * 3600;
    if w.rng.gen_bool(0.7) {
        let d = week - w.now() % week;
        let back = w.rng.gen_range(0..3);
        w.advance(d - back.min(d - 1));
    }
    for _ in 0..w.rng.gen_range(2..8) {
        w.step_with(trustless_register);
        if w.rng.gen_bool(0.4) {
            let d = *[1u64, 1, 2, 86_400, week - 1].choose(&mut w.rng).unwrap();
            w.advance(d);
        }
    }
    refresh_oracles(w);
    None
}

pub const STORIES: &[&str] = &[
    "config_story", "listing_story",
    "crash_story", "deadline_story", "edge_story", "edge_any", "limit_story", "interest_story", "perp_reduce_story", "collateral_story", "leverage_story", "gate", "freeze", "oracle_trouble", "token_delist",
    "perp_delist", "serum_delist", "crank_all", "security_edit", "account_wind_down",
];
pub const ACTIONS: &[(&str, Act)] = &[
    ("deposit", deposit),
    ("deposit_into_existing", deposit_into_existing),
    ("withdraw", withdraw),
    ("borrow", borrow),
    ("flash_loan", flash_loan),
    ("flash_loan_swap", flash_loan_swap),
    ("update_index", update_index),
    ("crank_all", crank_all),
    ("charge_collateral", charge_collateral),
    ("collateral_story", collateral_story),
    ("buyback", buyback),
    ("fund_dao", fund_dao),
    ("account_create", account_create),
    ("account_expand", account_expand),
    ("account_migrate", account_migrate),
    ("account_edit", account_edit),
    ("account_close", account_close),
    ("account_wind_down", account_wind_down),
    ("freeze", freeze),
    ("health_check", health_check),
    ("sequence_check", sequence_check),
    ("guarded", guarded),
    ("health_region", health_region),
    ("region_tricks", region_tricks),
    ("perp_place", perp_place),
    ("perp_trade", perp_trade),
    ("perp_cancel", perp_cancel),
    ("consume", consume),
    ("update_funding", update_funding),
    ("settle_pnl", settle_pnl),
    ("settle_fees", settle_fees),
    ("perp_deactivate", perp_deactivate),
    ("perp_force_cancel", perp_force_cancel),
    ("liq_perp_base", liq_perp_base),
    ("liq_perp_negative", liq_perp_negative),
    ("perp_force_close", perp_force_close),
    ("perp_delist", perp_delist),
    ("liq_token", liq_token),
    ("liq_bankrupt", liq_bankrupt),
    ("force_close_borrows", force_close_borrows),
    ("force_withdraw", force_withdraw),
    ("token_delist", token_delist),
    ("price_walk", price_walk),
    ("oracle_trouble", oracle_trouble),
    ("time", time),
    ("leverage_story", leverage_story),
    ("crash_story", crash_story),
    ("serum_create", serum_create),
    ("serum_close", serum_close),
    ("serum_place", serum_place),
    ("serum_cancel", serum_cancel),
    ("serum_settle", serum_settle),
    ("serum_crank", serum_crank),
    ("serum_force_cancel", serum_force_cancel),
    ("serum_delist", serum_delist),
    ("tcs_create", tcs_create),
    ("tcs_trigger", tcs_trigger),
    ("tcs_start", tcs_start),
    ("tcs_cancel", tcs_cancel),
    ("tcs_story", tcs_story),
    ("account_story", account_story),
    ("admin_withdraw_fees", admin_withdraw_fees),
    ("admin_perp_fees", admin_perp_fees),
    ("insurance_withdraw", insurance_withdraw),
    ("token_edit", token_edit),
    ("security_edit", security_edit),
    ("edge_story", edge_story),
    ("edge_any", edge_any),
    ("delegate_story", delegate_story),
    ("deadline_story", deadline_story),
    ("limit_story", limit_story),
    ("interest_story", interest_story),
    ("perp_reduce_story", perp_reduce_story),
    ("perp_edit", perp_edit),
    ("group_edit", group_edit),
    ("gate", gate),
    ("trustless_register", trustless_register),
    ("add_bank", add_bank),
    ("config_story", config_story),
    ("listing_story", listing_story),
];

/// base weights; a profile multiplies some of them
pub fn base_weight(n: &str) -> f64 {
    match n {
        "deposit" | "withdraw" | "borrow" => 4.0,
        "perp_place" => 6.0,
        "perp_trade" | "perp_cancel" | "consume" | "settle_pnl" => 3.0,
        "serum_place" => 4.0,
        "serum_cancel" | "serum_settle" | "serum_crank" => 2.0,
        "price_walk" | "time" => 5.0,
        "update_index" | "update_funding" => 3.0,
        "crash_story" => 0.6,
        "leverage_story" => 1.0,
        "deadline_story" => 0.5,
        "collateral_story" | "gate" | "freeze" | "oracle_trouble" | "token_delist" | "perp_delist"
        | "serum_delist" | "security_edit" | "crank_all" | "edge_story" | "edge_any" | "delegate_story" | "limit_story" | "interest_story" | "perp_reduce_story" => 0.25,
        "account_create" | "account_close" | "account_wind_down" | "account_expand" | "account_migrate" => 0.3,
        "trustless_register" | "add_bank" | "insurance_withdraw" | "group_edit" => 0.1,
        "token_edit" | "perp_edit" => 0.3,
        "force_close_borrows" | "force_withdraw" | "perp_force_close" | "perp_force_cancel" | "serum_force_cancel" => 0.3,
        "liq_token" | "liq_bankrupt" | "liq_perp_base" | "liq_perp_negative" => 1.0,
        "config_story" | "listing_story" => 0.001,
        "fund_dao" | "region_tricks" => 0.3,
        _ => 1.0,
    }
}

impl World {
    pub fn step_tx(&mut self, tx: Tx) -> bool {
        let hostile = self.cfg.hostile;
        let tx = if self.rng.gen_bool(hostile) { self.tamper(tx) } else { tx };
        let tx = if self.rng.gen_bool(0.1) { self.other_banks(tx) } else { tx };
        let tx = if self.rng.gen_bool(0.03) { self.forwarded(tx) } else { tx };
        self.steps += 1;
        let faults = self.cfg.oracle_faults;
        if faults > 0.0 && self.rng.gen_bool(faults) {
            self.oracle_fault(&tx);
        }
        self.run(tx).ok()
    }
    pub fn step_with(&mut self, f: Act) -> bool {
        match f(self) {
            Some(tx) => self.step_tx(tx),
            None => false,
        }
    }
    pub fn step_with2(&mut self, f: impl FnOnce(&mut World) -> Option<Tx>) -> bool {
        match f(self) {
            Some(tx) => self.step_tx(tx),
            None => false,
        }
    }
    pub fn step(&mut self, weights: &[f64]) {
        self.focus = None;
        let total: f64 = weights.iter().sum();
        let mut x = self.rng.gen_range(0.0..total);
        let mut i = 0;
        while i + 1 < weights.len() && x >= weights[i] {
            x -= weights[i];
            i += 1;
        }
        if self.groups.len() > 1 && self.rng.gen_bool(0.03) {
            self.g = 1;
        }
        if self.cfg.oracle_kinds && self.rng.gen_bool(0.02) {
            crate::feeds::oracle_kind(self);
        }
        let f = ACTIONS[i].1;
        let mut tx = f(self);
        // several actions in one transaction
        if tx.is_some() && self.rng.gen_bool(0.06) {
            let j = self.rng.gen_range(0..ACTIONS.len());
            if !STORIES.contains(&ACTIONS[j].0) {
                if let Some(o) = (ACTIONS[j].1)(self) {
                    tx = tx.map(|t| t.join(o));
                }
            }
        }
        if let Some(tx) = tx {
            self.step_tx(tx);
        }
        self.g = 0;
    }

    /// one or all of the instructions called through another program
    pub fn forwarded(&mut self, mut tx: Tx) -> Tx {
        let all = self.rng.gen_bool(0.4);
        let n = tx.ixs.len();
        if n == 0 {
            return tx;
        }
        let i = self.rng.gen_range(0..n);
        for (j, ix) in tx.ixs.iter_mut().enumerate() {
            if ix.program_id == mango_v4::id() && (all || i == j) {
                ix.accounts.insert(0, AccountMeta::new_readonly(ix.program_id, false));
                ix.program_id = crate::svm::forward_id();
            }
        }
        tx
    }
    /// the same transaction by way of another bank of a token
    pub fn other_banks(&mut self, mut tx: Tx) -> Tx {
        let ti = self.rng.gen_range(0..self.grp().toks.len());
        let t = self.grp().toks[ti].clone();
        if t.banks.len() < 2 {
            return tx;
        }
        let (i, j) = (self.rng.gen_range(0..t.banks.len()), self.rng.gen_range(0..t.banks.len()));
        for ix in &mut tx.ixs {
            for m in &mut ix.accounts {
                if m.pubkey == t.banks[i] {
                    m.pubkey = t.banks[j];
                } else if m.pubkey == t.vaults[i] {
                    m.pubkey = t.vaults[j];
                }
            }
        }
        tx
    }

    /// what an attacker could try: other accounts in place of the expected ones, signatures left out
    pub fn tamper(&mut self, mut tx: Tx) -> Tx {
        if tx.ixs.is_empty() {
            return tx;
        }
        let i = self.rng.gen_range(0..tx.ixs.len());
        let n = tx.ixs[i].accounts.len();
        if n == 0 {
            return tx;
        }
        match self.rng.gen_range(0..10) {
            0 => {
                // no signature where one is expected
                let s: Vec<usize> = (0..n).filter(|j| tx.ixs[i].accounts[*j].is_signer).collect();
                if let Some(j) = s.choose(&mut self.rng) {
                    tx.ixs[i].accounts[*j].is_signer = false;
                }
            }
            1 | 2 => {
                // somebody else signs
                let s: Vec<usize> = (0..n).filter(|j| tx.ixs[i].accounts[*j].is_signer).collect();
                if let Some(j) = s.choose(&mut self.rng) {
                    let k = match self.rng.gen_range(0..3) {
                        0 => self.attacker.key,
                        1 => self.grp().security,
                        _ => {
                            let u = self.rng.gen_range(0..self.users.len());
                            self.users[u].key
                        }
                    };
                    tx.ixs[i].accounts[*j].pubkey = k.pubkey();
                    tx.signers.push(k);
                }
            }
            3 => {
                // an account missing or doubled
                let j = self.rng.gen_range(0..n);
                if self.rng.gen_bool(0.5) {
                    tx.ixs[i].accounts.remove(j);
                } else {
                    let m = tx.ixs[i].accounts[j].clone();
                    tx.ixs[i].accounts.insert(j, m);
                }
            }
            4 => {
                let j = self.rng.gen_range(0..n);
                let k = self.rng.gen_range(0..n);
                tx.ixs[i].accounts.swap(j, k);
            }
            5 => {
                let j = self.rng.gen_range(0..n);
                tx.ixs[i].accounts[j].is_writable = !tx.ixs[i].accounts[j].is_writable;
            }
            _ => {
                // another account of the same kind
                let j = self.rng.gen_range(0..n);
                let k = tx.ixs[i].accounts[j].pubkey;
                let alts: Vec<Pubkey> = self.with_state(|s| s.same_kind(&k));
                if let Some(x) = alts.choose(&mut self.rng) {
                    tx.ixs[i].accounts[j].pubkey = *x;
                    if let Some(u) = self.users.iter().find(|u| u.key.pubkey() == *x) {
                        tx.signers.push(u.key);
                    }
                }
            }
        }
        tx
    }
}

/// unused, keeps the import list honest
pub fn _types(_: Rc<MAcc>, _: BT) {}
