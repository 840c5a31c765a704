//! What-if executions: the program is run on a copy of the current state and the effects are
//! rolled back, so a monitor can ask it for values it does not store.
use crate::pt::*;
use crate::spec::*;
use crate::st::*;
use crate::svm::{IxErr, TxRecord};
use crate::world::*;
use mango_v4::accounts_ix::HealthCheckKind;
use mango_v4::events::MangoAccountData;
use mango_v4::state::*;
use rand::prelude::*;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_error::ProgramError;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

pub fn code(rec: &TxRecord) -> Option<u32> {
    match &rec.result {
        Err((_, IxErr::Program(ProgramError::Custom(c)))) => Some(*c),
        _ => None,
    }
}
pub fn panicked(rec: &TxRecord) -> bool {
    matches!(&rec.result, Err((_, IxErr::Panic(_))))
}
pub fn invalid_health() -> u32 {
    u32::from(mango_v4::error::MangoError::InvalidHealth)
}

impl World {
    /// runs `f` and takes back everything it did
    pub fn what_if<R>(&mut self, f: impl FnOnce(&mut World) -> R) -> R {
        let snap = self.solana.context.borrow().snapshot();
        let groups = self.groups.clone();
        self.hub.set_probing(true);
        let r = f(self);
        self.solana.context.borrow_mut().restore(&snap);
        self.groups = groups;
        self.hub.set_probing(false);
        self.sync();
        r
    }
    /// observed, but undone afterwards
    pub fn detour<R>(&mut self, f: impl FnOnce(&mut World) -> R) -> R {
        let snap = self.solana.context.borrow().snapshot();
        let groups = self.groups.clone();
        let r = f(self);
        self.solana.context.borrow_mut().restore(&snap);
        self.groups = groups;
        self.sync();
        r
    }
    /// overwrites a zero copy account
    pub fn poke<T: bytemuck::Pod>(&mut self, k: &Pubkey, f: impl FnOnce(&mut T, &mut rand_chacha::ChaCha8Rng)) {
        let mut a = {
            let s = self.solana.context.borrow();
            (**s.get(k).unwrap()).clone()
        };
        let n = std::mem::size_of::<T>();
        let mut v: T = bytemuck::pod_read_unaligned(&a.data[8..8 + n]);
        f(&mut v, &mut self.rng);
        a.data[8..8 + n].copy_from_slice(bytemuck::bytes_of(&v));
        self.solana.set_raw_account(*k, a);
    }
    pub fn poke_account(&mut self, k: &Pubkey, f: impl FnOnce(&mut MangoAccountValue, &mut rand_chacha::ChaCha8Rng)) {
        let mut a = {
            let s = self.solana.context.borrow();
            (**s.get(k).unwrap()).clone()
        };
        let n = std::mem::size_of::<MangoAccountFixed>();
        // aligned copy
        let fixed: MangoAccountFixed = bytemuck::pod_read_unaligned(&a.data[8..8 + n]);
        let mut bytes = vec![0u128; a.data.len() / 16 + 2];
        let b: &mut [u8] = bytemuck::cast_slice_mut(&mut bytes);
        b[..a.data.len() - 8].copy_from_slice(&a.data[8..]);
        let Ok(mut v) = MangoAccountValue::from_bytes(&b[..a.data.len() - 8]) else { return };
        v.fixed = fixed;
        f(&mut v, &mut self.rng);
        a.data[8..8 + n].copy_from_slice(bytemuck::bytes_of(&v.fixed));
        a.data[8 + n..].copy_from_slice(&v.dynamic);
        self.solana.set_raw_account(*k, a);
    }
    pub fn poke_oo(&mut self, k: &Pubkey, f: impl FnOnce(&mut serum_dex::state::OpenOrders, &mut rand_chacha::ChaCha8Rng)) {
        let mut a = {
            let s = self.solana.context.borrow();
            (**s.get(k).unwrap()).clone()
        };
        let e = a.data.len() - 7;
        let mut o: serum_dex::state::OpenOrders = bytemuck::pod_read_unaligned(&a.data[5..e]);
        f(&mut o, &mut self.rng);
        a.data[5..e].copy_from_slice(bytemuck::bytes_of(&o));
        self.solana.set_raw_account(*k, a);
    }

    /// the accounts a health computation needs, through random banks of each token and possibly
    /// with fallback oracles; with `drop`, some banks are left out
    pub fn health_metas(&mut self, a: &MAcc, drop: bool) -> (Vec<AccountMeta>, BTreeMap<u16, Pubkey>, Vec<Pubkey>) {
        let s = self.hub.state();
        let g = a.fx.group;
        let mut banks = vec![];
        let mut oracles = vec![];
        let mut m = BTreeMap::new();
        let mut fb = vec![];
        for t in a.active_tokens() {
            if drop && self.rng.gen_bool(0.2) {
                continue;
            }
            let bs: Vec<_> = s.banks.iter().filter(|(_, b)| b.group == g && b.token_index == t.token_index).collect();
            let Some((k, b)) = bs.choose(&mut self.rng) else { continue };
            banks.push(AccountMeta::new_readonly(**k, false));
            oracles.push(AccountMeta::new_readonly(b.oracle, false));
            m.insert(t.token_index, **k);
            if b.fallback_oracle != Pubkey::default() && self.rng.gen_bool(0.7) {
                fb.push(b.fallback_oracle);
            }
        }
        let mut metas = banks;
        metas.extend(oracles);
        let perps: Vec<_> = a.active_perps().filter_map(|p| s.perp_by_index(&g, p.market_index)).collect();
        metas.extend(perps.iter().map(|p| AccountMeta::new_readonly(*p.0, false)));
        metas.extend(perps.iter().map(|p| AccountMeta::new_readonly(p.1.oracle, false)));
        metas.extend(a.active_serum().map(|o| AccountMeta::new_readonly(o.open_orders, false)));
        metas.extend(fb.iter().map(|k| AccountMeta::new_readonly(*k, false)));
        (metas, m, fb)
    }
    pub fn pick_account(&mut self) -> Option<Pubkey> {
        let accs = self.grp().accs.clone();
        let a = accs.choose(&mut self.rng)?;
        Some(a.key)
    }

    /// random but plausible positions, prices and weights for one account
    pub fn forge(&mut self, key: &Pubkey) {
        let gi = self.g;
        let grp = self.groups[gi].clone();
        let arbitrary = self.rng.gen_bool(0.2);
        let calm = self.rng.gen_bool(0.3);
        fn lu(r: &mut rand_chacha::ChaCha8Rng, lo: f64, hi: f64) -> f64 {
            r.gen_range(lo.ln()..hi.ln()).exp()
        }
        let now = self.now();
        if self.rng.gen_bool(0.1) {
            let d = self.rng.gen_range(0..2000);
            self.advance(d);
        }
        let mut stubs: Vec<(Pubkey, f64)> = vec![];
        for t in &grp.toks {
            stubs.push((t.t.oracle, t.price));
            if let Some(f) = t.fallback {
                stubs.push((f, t.price));
            }
        }
        stubs.extend(grp.perps.iter().filter(|p| p.own_oracle).map(|p| (p.oracle, p.price)));
        for (k, p) in stubs {
            if calm || self.rng.gen_bool(0.4) {
                continue;
            }
            self.poke::<StubOracle>(&k, |o, r| {
                o.price = i80(p * lu(r, 0.2, 5.0));
                if r.gen_bool(0.05) {
                    o.deviation = o.price * i80(r.gen_range(0.0..0.3));
                }
                if r.gen_bool(0.05) {
                    o.last_update_slot = o.last_update_slot.saturating_sub(r.gen_range(0..500));
                }
            });
        }
        for t in &grp.toks {
            let p = self.with_state(|s| s.stubs.get(&t.t.oracle).map_or(1.0, |o| f(o.price)));
            let mut w = [0f64; 4];
            w[0] = self.rng.gen_range(0.0..1.0);
            w[1] = w[0] + self.rng.gen_range(0.0..1.0 - w[0] + 1e-9);
            w[2] = 1.0 + self.rng.gen_range(0.0..0.5);
            w[3] = w[2] + self.rng.gen_range(0.0..0.7);
            if arbitrary {
                w.shuffle(&mut self.rng);
            }
            let (chw, chs, chp) = (self.rng.gen_bool(0.6), self.rng.gen_bool(0.2), self.rng.gen_bool(0.6));
            let mul = if self.rng.gen_bool(0.2) { 1.0 } else { lu(&mut self.rng, 0.3, 3.0) };
            for b in &t.banks {
                self.poke::<Bank>(b, |b, r| {
                    if chw && t.idx != 0 {
                        b.init_asset_weight = i80(w[0]);
                        b.maint_asset_weight = i80(w[1]);
                        b.maint_liab_weight = i80(w[2]);
                        b.init_liab_weight = i80(w[3]);
                    }
                    if chw && arbitrary && r.gen_bool(0.2) {
                        b.maint_weight_shift_start = now - r.gen_range(0..1000);
                        b.maint_weight_shift_end = now + r.gen_range(1..1000);
                        b.maint_weight_shift_duration_inv =
                            fixed::types::I80F48::ONE / fixed::types::I80F48::from_num(b.maint_weight_shift_end - b.maint_weight_shift_start);
                        b.maint_weight_shift_asset_target = i80(r.gen_range(0.0..1.0));
                        b.maint_weight_shift_liab_target = i80(r.gen_range(1.0..1.5));
                    }
                    if chs && deposits(b) > 10.0 && borrows(b) > 10.0 {
                        b.deposit_weight_scale_start_quote = (deposits(b) * p * lu(r, 0.2, 3.0)).max(1.0);
                        b.borrow_weight_scale_start_quote = (borrows(b) * p * lu(r, 0.2, 3.0)).max(1.0);
                        if r.gen_bool(0.3) {
                            b.potential_serum_tokens = (deposits(b) * r.gen_range(0.0..2.0)) as u64;
                        }
                    }
                    if chp {
                        b.stable_price_model.stable_price = p * mul;
                    }
                });
            }
        }
        for pm in &grp.perps {
            let p = self.with_state(|s| s.perps.get(&pm.market).and_then(|m| s.stubs.get(&m.oracle)).map_or(1.0, |o| f(o.price)));
            if self.rng.gen_bool(0.5) {
                self.poke::<PerpMarket>(&pm.market, |m, r| {
                    let (ia, il) = (r.gen_range(0.0..1.0), r.gen_range(1.0..2.0));
                    m.init_base_asset_weight = i80(ia);
                    m.maint_base_asset_weight = i80(ia + r.gen_range(0.0..1.0 - ia + 1e-9));
                    m.init_base_liab_weight = i80(il);
                    m.maint_base_liab_weight = i80(1.0 + (il - 1.0) * r.gen_range(0.0..1.0));
                    let mo = *[0.0, 0.5, 1.0].choose(r).unwrap();
                    m.maint_overall_asset_weight = i80(mo);
                    m.init_overall_asset_weight = i80(mo * *[0.0, 0.5, 1.0].choose(r).unwrap());
                    m.stable_price_model.stable_price = if r.gen_bool(0.2) { p } else { p * lu(r, 0.3, 3.0) };
                    m.long_funding += i80(r.gen_range(-1.0..1.0) * lu(r, 1.0, 1e5));
                    m.short_funding += i80(r.gen_range(-1.0..1.0) * lu(r, 1.0, 1e5));
                });
            }
        }
        self.sync();
        let s = self.hub.state();
        let Some(a) = s.accounts.get(key).cloned() else { return };
        let g = a.fx.group;
        for so in a.active_serum() {
            let (bp, qp) = (tok_price(&s, &g, so.base_token_index), tok_price(&s, &g, so.quote_token_index));
            if self.rng.gen_bool(0.5) {
                self.poke_oo(&so.open_orders, |o, r| {
                    let mut amt = |p: f64| if r.gen_bool(0.3) { 0 } else { (lu(r, 1e3, 1e11) / p).min(1e15) as u64 };
                    o.native_coin_free = amt(bp);
                    o.native_coin_total = o.native_coin_free + amt(bp);
                    o.native_pc_free = amt(qp);
                    o.native_pc_total = o.native_pc_free + amt(qp);
                });
            }
        }
        let scale = lu(&mut self.rng, 1e-3, 10.0);
        self.poke_account(key, |v, r| {
            for i in 0..a.tokens.len() {
                if !a.tokens[i].is_active() || r.gen_bool(0.3) {
                    continue;
                }
                let Some((_, b)) = s.bank0(&g, a.tokens[i].token_index) else { continue };
                let usd = lu(r, 1e3, 1e11) * scale;
                let native = usd / tok_price(&s, &g, a.tokens[i].token_index);
                let t = v.token_position_mut_by_raw_index(i);
                t.indexed_position = if r.gen_bool(0.5) {
                    i80(native / f(b.deposit_index))
                } else {
                    i80(-native / f(b.borrow_index))
                };
            }
            for i in 0..a.serum3.len() {
                if !a.serum3[i].is_active() || r.gen_bool(0.4) {
                    continue;
                }
                let so = v.serum3_orders_mut_by_raw_index(i);
                let (bp, qp) = (tok_price(&s, &g, so.base_token_index), tok_price(&s, &g, so.quote_token_index));
                so.lowest_placed_ask = if r.gen_bool(0.3) { 0.0 } else { bp / qp * lu(r, 0.3, 3.0) };
                so.highest_placed_bid_inv = if r.gen_bool(0.3) { 0.0 } else { qp / bp * lu(r, 0.3, 3.0) };
            }
            for i in 0..a.perps.len() {
                if !a.perps[i].is_active() || r.gen_bool(0.3) {
                    continue;
                }
                let Some((_, m)) = s.perp_by_index(&g, a.perps[i].market_index) else { continue };
                let lotv = s.stubs.get(&m.oracle).map_or(1.0, |o| f(o.price)) * m.base_lot_size as f64;
                let mut lots = |r: &mut rand_chacha::ChaCha8Rng| (lu(r, 1e3, 1e11) * scale / lotv).min(1e9) as i64;
                let p = v.perp_position_mut_by_raw_index(i);
                let mut q = *p;
                q.base_position_lots = if r.gen_bool(0.2) { 0 } else { lots(r) * if r.gen_bool(0.5) { 1 } else { -1 } };
                q.bids_base_lots = if r.gen_bool(0.4) { 0 } else { lots(r) };
                q.asks_base_lots = if r.gen_bool(0.4) { 0 } else { lots(r) };
                q.taker_base_lots = if r.gen_bool(0.7) { 0 } else { lots(r) / 10 * if r.gen_bool(0.5) { 1 } else { -1 } };
                q.taker_quote_lots = -(q.taker_base_lots as f64 * lotv / m.quote_lot_size as f64) as i64;
                q.quote_position_native = i80(r.gen_range(-1.0..1.0) * lu(r, 1e3, 1e11) * scale);
                q.long_settled_funding = m.long_funding + i80(r.gen_range(-1.0..1.0));
                q.short_settled_funding = m.short_funding + i80(r.gen_range(-1.0..1.0));
                *p = q;
            }
        });
        self.sync();
    }
}
pub fn i80(x: f64) -> fixed::types::I80F48 {
    fixed::types::I80F48::saturating_from_num(if x.is_nan() { 0.0 } else { x })
}
pub fn tok_price(s: &State, g: &Pubkey, i: u16) -> f64 {
    s.bank0(g, i).and_then(|(_, b)| s.stubs.get(&b.oracle)).map_or(1.0, |o| f(o.price)).max(1e-12)
}

pub const KINDS: [(HealthCheckKind, HT, bool); 6] = [
    (HealthCheckKind::Maint, HT::Maint, false),
    (HealthCheckKind::MaintRatio, HT::Maint, true),
    (HealthCheckKind::Init, HT::Init, false),
    (HealthCheckKind::InitRatio, HT::Init, true),
    (HealthCheckKind::LiquidationEnd, HT::LiqEnd, false),
    (HealthCheckKind::LiquidationEndRatio, HT::LiqEnd, true),
];

/// does the program's idea of an account's health agree with the documented sum?
pub fn health_agrees(w: &mut World) {
    w.sync();
    let Some(k) = w.pick_account() else { return };
    let forge = w.rng.gen_bool(0.7);
    w.what_if(|w| {
        if forge {
            w.forge(&k);
        }
        one(w, &k, forge);
    });
}
fn ht_name(h: HT) -> &'static str {
    match h {
        HT::Init => "init",
        HT::Maint => "maint",
        HT::LiqEnd => "liquidation-end",
    }
}
fn one(w: &mut World, k: &Pubkey, forged: bool) {
    let s = w.hub.state();
    let Some(a) = s.accounts.get(k).cloned() else { return };
    let (now, slot) = (w.now(), w.solana.clock().slot);
    let testing = s.groups.get(&a.fx.group).map_or(false, |g| g.testing == 1);
    let hub = w.hub.clone();
    let what = || if forged { "constructed" } else { "reached" };
    let desc = |h: &Hc| format!("{} account with {} tokens, {} spot markets, {} perps", what(), h.toks.len(), h.sers.len(), h.perps.len());
    // the full computation
    if testing {
        let (metas, banks, fb) = w.health_metas(&a, false);
        let prov = |x: &Pubkey| fb.contains(x);
        let h = health_or(&s, &a, &HcOpts { now, slot, bank_for: Some(&banks), provided: Some(&prov), skipping: false });
        let accounts = mango_v4::accounts::ComputeAccountData { group: a.fx.group, account: *k };
        let mut ix = make_instruction(mango_v4::id(), &accounts, &mango_v4::instruction::ComputeAccountData {});
        ix.accounts.extend(metas);
        let rec = w.run(Tx { ixs: vec![ix], signers: vec![] });
        match h {
            Ok(h) if rec.ok() => {
                let ev = w.solana.program_log_events::<MangoAccountData>();
                let Some(e) = ev.first() else { return };
                for (ht, got) in [(HT::Init, f(e.init_health)), (HT::Maint, f(e.maint_health))] {
                    let want = h.health(ht);
                    let tol = h.err(ht);
                    hub.with_out(|o| {
                        o.eval("health-value", (want.to_bits(), ht), || format!("{}: {} health {got:.6}, documented sum {want:.6}", desc(&h), ht_name(ht)));
                        if (got - want).abs() > tol {
                            o.fail("C06", &format!("health-value:{}", ht_name(ht)), format!("{}: program computes {} health {got}, documented sum is {want} (tolerance {tol:e}) {:?} {h:?}", desc(&h), ht_name(ht), h.parts(ht, false)));
                        }
                    });
                }
                // equity
                let mut want: BTreeMap<u16, f64> = BTreeMap::new();
                for t in &h.toks {
                    *want.entry(t.idx).or_default() += t.position * t.oracle;
                }
                for so in a.active_serum() {
                    if let Some(oo) = s.oos.get(&so.open_orders) {
                        *want.entry(so.base_token_index).or_default() += oo.coin_total as f64 * h.tok(so.base_token_index).map_or(0.0, |t| t.oracle);
                        *want.entry(so.quote_token_index).or_default() += oo.pc_total as f64 * h.tok(so.quote_token_index).map_or(0.0, |t| t.oracle);
                    }
                }
                let got: BTreeMap<u16, f64> = e.equity.tokens.iter().map(|t| (t.token_index, f(t.value))).collect();
                hub.with_out(|o| {
                    o.eval("equity", want.values().map(|v| v.to_bits()).collect::<Vec<_>>(), || format!("{want:?}"));
                    let same = want.len() == got.len() && want.iter().all(|(i, v)| got.get(i).map_or(false, |g| (g - v).abs() <= h.err(HT::Init) + v.abs() * 1e-8));
                    if !same {
                        o.fail("C06", "equity", format!("{}: program reports equity {got:?}, expected {want:?}", desc(&h)));
                    }
                });
            }
            Ok(h) => {
                let p = panicked(&rec);
                hub.with_out(|o| {
                    o.count(if p { "health computation aborted" } else { "health computation failed" });
                    if !p || !forged {
                        o.fail("C06", "health-refused", format!("{}: health is defined ({:?}) but the program refuses: {:?}", desc(&h), HTS.map(|x| h.health(x)), rec.result));
                    }
                });
            }
            Err(NoHealth::Refused) => hub.with_out(|o| {
                o.eval("health-undefined", (k, now), || format!("{} account with a bad oracle", what()));
                if rec.ok() {
                    o.fail("C06", "health-defined", "health was computed although a needed price is unreliable".into());
                }
            }),
            Err(NoHealth::Unknown) => {}
        }
    }
    // assertions, possibly with some banks left out
    let drop = w.rng.gen_bool(0.4);
    let (metas, banks, fb) = w.health_metas(&a, drop);
    let prov = |x: &Pubkey| fb.contains(x);
    let h = health_or(&s, &a, &HcOpts { now, slot, bank_for: Some(&banks), provided: Some(&prov), skipping: true });
    let h = match h {
        Ok(h) => Some(h),
        Err(NoHealth::Refused) => None,
        Err(NoHealth::Unknown) => return,
    };
    for (kind, ht, ratio) in KINDS {
        let ask = |w: &mut World, min: f64| {
            let accounts = mango_v4::accounts::HealthCheck { group: a.fx.group, account: *k };
            let data = mango_v4::instruction::HealthCheck { min_health_value: min, check_kind: kind };
            let mut ix: Instruction = make_instruction(mango_v4::id(), &accounts, &data);
            ix.accounts.extend(metas.clone());
            w.run(Tx { ixs: vec![ix], signers: vec![] })
        };
        let Some(h) = &h else {
            let rec = ask(w, -1e15);
            hub.with_out(|o| {
                o.eval("check-undefined", (k, now, ht), || format!("{} account whose health may not be judged", what()));
                if rec.ok() {
                    o.fail("C06", "check-defined", "a health check passed although a liability's bank or price was missing".into());
                }
            });
            continue;
        };
        let (want, tol) = if ratio {
            let liabs = h.liabs(ht);
            if liabs < 1.0 || h.err(ht) > liabs * 1e-3 {
                continue;
            }
            let r = h.ratio(ht);
            (r, (h.err(ht) / liabs * 100.0) * (2.0 + r.abs() / 100.0) + 1e-9)
        } else {
            (h.health(ht), h.err(ht))
        };
        if want.abs() > 1e15 {
            continue;
        }
        let tol = tol + want.abs() * 1e-12;
        let (lo, hi) = (ask(w, want - tol), ask(w, want + tol));
        let name = format!("{}{}", ht_name(ht), if ratio { "-ratio" } else { "" });
        let zero = ask(w, 0.0);
        let refused = [u32::from(mango_v4::error::MangoError::AccountIsFrozen), u32::from(mango_v4::error::MangoError::IxIsDisabled)];
        hub.with_out(|o| {
            if code(&lo).map_or(false, |c| refused.contains(&c)) {
                o.count("account frozen or instruction disabled");
                return;
            }
            if panicked(&lo) || panicked(&hi) {
                o.count("health computation aborted");
                if !forged {
                    o.fail("C06", "check-aborts", format!("{}: the health check aborts: {:?}", desc(h), lo.result));
                }
                return;
            }
            o.eval("health-check", (want.to_bits(), ht, ratio), || format!("{}: {name} {want:.6}, {} banks left out", desc(h), a.active_tokens().count() - h.toks.len()));
            if !lo.ok() {
                o.fail("C06", &format!("check-rejects:{name}"), format!("{}: {name} is {want} but the program rejects {} ({:?}) {h:?}", desc(h), want - tol, lo.result));
            }
            if hi.ok() || code(&hi) != Some(invalid_health()) {
                o.fail("C06", &format!("check-accepts:{name}"), format!("{}: {name} is {want} but the program accepts {} ({:?}) {h:?}", desc(h), want + tol, hi.result));
            }
            if want.abs() > tol && zero.ok() != (want > 0.0) {
                o.fail("C06", &format!("check-sign:{name}"), format!("{name} is {want} but the check against 0 says {}", zero.ok()));
            }
        });
    }
    if let Some(h) = &h {
        if h.ordered() {
            let (i, l, m) = (h.health(HT::Init), h.health(HT::LiqEnd), h.health(HT::Maint));
            let tol = h.err(HT::Init) + h.err(HT::Maint);
            hub.with_out(|o| {
                o.eval("ordering", (i.to_bits(), m.to_bits()), || format!("init {i:.4} <= liquidation-end {l:.4} <= maint {m:.4}"));
                if i > l + tol || l > m + tol {
                    o.fail("C06", "ordering", format!("{}: init {i} liquidation-end {l} maint {m} {h:?}", desc(h)));
                }
            });
        }
    }
}
