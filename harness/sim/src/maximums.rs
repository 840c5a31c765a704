//! What the client-side helpers say an account could still do, against the documented health of
//! the account after doing it, and against the program's own verdict.
use crate::probe::{code, i80, invalid_health, panicked, tok_price};
use crate::pt::*;
use crate::spec::*;
use crate::st::*;
use crate::world::*;
use fixed::types::I80F48;
use mango_v4::accounts_ix::HealthCheckKind;
use mango_v4::accounts_zerocopy::KeyedAccountSharedData;
use mango_v4::health::{new_health_cache, FixedOrderAccountRetriever, HealthCache, HealthType};
use mango_v4::state::*;
use rand::prelude::*;
use solana_program::instruction::AccountMeta;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

const HS: [(HT, HealthType); 3] = [(HT::Init, HealthType::Init), (HT::Maint, HealthType::Maint), (HT::LiqEnd, HealthType::LiquidationEnd)];

fn account_value(s: &State, k: &Pubkey) -> Option<MangoAccountValue> {
    let raw = s.raw.get(k)?;
    let n = std::mem::size_of::<MangoAccountFixed>();
    let mut bytes = vec![0u128; raw.data.len() / 16 + 2];
    let b: &mut [u8] = bytemuck::cast_slice_mut(&mut bytes);
    b[..raw.data.len() - 8].copy_from_slice(&raw.data[8..]);
    let mut v = MangoAccountValue::from_bytes(&b[..raw.data.len() - 8]).ok()?;
    v.fixed = bytemuck::pod_read_unaligned(&raw.data[8..8 + n]);
    Some(v)
}
/// the way clients build it
fn client_cache(s: &State, v: &MangoAccountValue, metas: &[AccountMeta], now: u64) -> Option<HealthCache> {
    let ais = metas
        .iter()
        .map(|m| {
            let a = s.raw.get(&m.pubkey)?;
            let d = solana_sdk::account::Account { lamports: a.lamports, data: a.data.clone(), owner: a.owner, executable: a.executable, rent_epoch: 0 };
            Some(KeyedAccountSharedData::new(m.pubkey, d.into()))
        })
        .collect::<Option<Vec<_>>>()?;
    let (n, p) = (v.active_token_positions().count(), v.active_perp_positions().count());
    let r = FixedOrderAccountRetriever {
        n_banks: n,
        n_perps: p,
        begin_perp: n * 2,
        begin_serum3: n * 2 + p * 2,
        now: None,
        begin_fallback_oracles: ais.len(),
        usdc_oracle_index: None,
        sol_oracle_index: None,
        ais,
    };
    new_health_cache(&v.borrow(), &r, now).ok()
}

/// token movements as the program documents them, applied to a copy of the state
#[derive(Clone)]
struct After {
    s: State,
    a: MAcc,
}
struct Moved {
    loan: f64,
}
impl After {
    fn bank(&self, k: &Pubkey) -> &Bank {
        &self.s.banks[k]
    }
    fn set(&mut self, k: &Pubkey, native: f64) {
        let mut b: Bank = *self.s.banks[k];
        let t = self.a.tokens.iter_mut().find(|t| t.token_index == b.token_index).unwrap();
        let old = t.indexed_position;
        let new = if native >= 0.0 { i80(native / f(b.deposit_index)) } else { i80(native / f(b.borrow_index)) };
        t.indexed_position = new;
        let z = I80F48::ZERO;
        b.indexed_deposits = b.indexed_deposits - old.max(z) + new.max(z);
        b.indexed_borrows = b.indexed_borrows + old.min(z) - new.min(z);
        self.s.banks.insert(*k, Rc::new(b));
    }
    fn native(&self, k: &Pubkey) -> f64 {
        let b = self.bank(k);
        self.a.tok(b.token_index).map_or(0.0, |t| native_pos(t, b))
    }
    fn withdraw(&mut self, k: &Pubkey, amount: f64) -> Moved {
        let (b, have) = (*self.bank(k), self.native(k));
        let left = have - amount;
        if have >= 0.0 && left >= 0.0 {
            // whether less than one native unit is left over as dust is not planned for
            self.set(k, left);
            return Moved { loan: 0.0 };
        }
        let borrowed = amount - have.max(0.0);
        let fee = borrowed * f(b.loan_origination_fee_rate);
        self.set(k, left - fee);
        Moved { loan: borrowed + fee }
    }
    fn deposit(&mut self, k: &Pubkey, amount: f64) {
        let (b, have) = (*self.bank(k), self.native(k));
        self.set(k, have + amount);
    }
}

struct Case<'a> {
    s: &'a State,
    a: MAcc,
    banks: BTreeMap<u16, Pubkey>,
    now: u64,
    slot: u64,
    forged: bool,
}
impl<'a> Case<'a> {
    fn opts(&self) -> HcOpts {
        HcOpts { now: self.now, slot: self.slot, bank_for: Some(&self.banks), provided: None, skipping: false }
    }
    fn start(&self) -> After {
        After { s: self.s.clone(), a: self.a.clone() }
    }
    fn health(&self, x: &After) -> Option<Hc> {
        let mut h = health(&x.s, &x.a, &self.opts())?;
        // moving tokens rounds the indexed positions
        for (i, k) in &self.banks {
            let (b, t) = (&x.s.banks[k], h.tok(*i)?);
            h.tol += f(b.deposit_index).max(f(b.borrow_index)) * 2f64.powi(-48) * t.oracle.max(t.stable) * (2.0 + t.sinit_l.min(1e3));
        }
        Some(h)
    }
}
/// (init health ratio, uncertainty)
fn ratio(h: &Hc) -> Option<(f64, f64)> {
    let liabs = h.liabs(HT::Init);
    if liabs == 0.0 {
        return Some((f64::INFINITY, 0.0));
    }
    if liabs < 1.0 || h.err(HT::Init) > liabs * 1e-3 {
        return None;
    }
    let r = h.ratio(HT::Init);
    let tol = (h.err(HT::Init) / liabs * 100.0) * (2.0 + r.abs() / 100.0) + 1e-9 + r.abs() * 1e-11;
    (r < 1e9).then_some((r, tol))
}
fn value(h: &Hc, kind: Kind) -> Option<(f64, f64)> {
    match kind {
        Kind::Ratio => ratio(h),
        Kind::Health => Some((h.health(HT::Init), h.err(HT::Init) + 1e-6)),
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Ratio,
    Health,
}

/// every place the net borrow window could end by the machine's own clock
fn in_step(b: &Bank, now: u64) -> Bank {
    let sys = std::time::SystemTime::now().duration_since(std::time::SystemTime::UNIX_EPOCH).unwrap().as_secs();
    let mut b = *b;
    // well inside a window
    let _ = now;
    b.last_net_borrows_window_start_ts = sys + 1_000_000;
    b
}
fn over_net_limit(b: &Bank, loan: f64, price: f64, slack: f64) -> bool {
    let n = b.net_borrows_in_window as f64 + loan;
    if loan <= slack.max(0.0) || n < 0.0 || b.net_borrow_limit_per_window_quote < 0 {
        return false;
    }
    let p = price.max(b.stable_price_model.stable_price);
    // the price has a resolution of 2^-48
    let slack = slack * p + slack.signum() * n * 4e-15;
    n * p > b.net_borrow_limit_per_window_quote as f64 + slack
}

/// a limit a client's plan has to respect
fn over_deposit_limit(b: &Bank, slack: f64) -> bool {
    b.deposit_limit != 0 && deposits(b) + b.potential_serum_tokens as f64 > b.deposit_limit as f64 + slack
}

pub fn maximums(w: &mut World) {
    w.sync();
    let Some(k) = w.pick_account() else { return };
    let forge = w.rng.gen_bool(0.8);
    w.what_if(|w| {
        if forge {
            w.forge(&k);
        }
        prepare(w, &k, forge);
        let trace = std::env::var("C27_TRACE").is_ok();
        install_quiet_hook();
        let old = QUIET.with(|q| q.replace(!trace));
        let r = catch_unwind(AssertUnwindSafe(|| one(w, &k, forge)));
        QUIET.with(|q| q.set(old));
        if r.is_err() {
            // amounts beyond the number format
            w.hub.with_out(|o| o.count("probe given up"));
        }
    });
}
/// positions for the tokens to be moved, and bank totals that include the account's positions
fn prepare(w: &mut World, k: &Pubkey, forged: bool) {
    let toks: Vec<u16> = w.grp().toks.iter().map(|t| t.idx).collect();
    let some: Vec<u16> = toks.choose_multiple(&mut w.rng, 2).cloned().collect();
    w.poke_account(k, |v, _| {
        for i in some {
            let _ = v.ensure_token_position(i);
        }
    });
    w.sync();
    let s = w.hub.state();
    let Some(a) = s.accounts.get(k).cloned() else { return };
    let fees = w.rng.gen_bool(0.5);
    let limited = w.rng.gen_bool(0.3);
    for t in a.active_tokens() {
        for (bk, _) in s.banks_of(a.fx.group, t.token_index) {
            let p = tok_price(&s, &a.fx.group, t.token_index);
            let pos = t.indexed_position;
            w.poke::<Bank>(&bk, |b, r| {
                if forged {
                    b.indexed_deposits += pos.max(I80F48::ZERO);
                    b.indexed_borrows -= pos.min(I80F48::ZERO);
                }
                if fees {
                    b.loan_origination_fee_rate = i80(*[0.0, 0.0005, 0.005, 0.05].choose(r).unwrap());
                }
                if limited && forged {
                    let x: f64 = r.gen_range(10.0..30.0f64);
                    b.net_borrow_limit_per_window_quote = if r.gen_bool(0.5) { -1 } else { x.exp() as i64 };
                    b.net_borrows_in_window = (r.gen_range(-0.2..1.0) * b.net_borrow_limit_per_window_quote.max(0) as f64 / p.max(1e-9)) as i64;
                    if r.gen_bool(0.5) {
                        b.deposit_limit = (deposits(b) * r.gen_range(0.9..1.5)) as u64 + 1;
                    }
                } else if r.gen_bool(0.9) {
                    b.net_borrow_limit_per_window_quote = -1;
                }
            });
        }
    }
    w.sync();
}

fn target(r: &mut rand_chacha::ChaCha8Rng, now: f64, kind: Kind) -> f64 {
    let base: f64 = match kind {
        Kind::Ratio => *[0.0, 0.0, 1.0, 2.0, 5.0, 10.0, 50.0, 100.0, 1000.0].choose(r).unwrap(),
        Kind::Health => *[0.0, 0.0, 1.0, 1e6, 1e9].choose(r).unwrap(),
    };
    if now.is_finite() && now > 0.0 && now < 1e12 && r.gen_bool(0.6) {
        now * r.gen_range(0.0..1.2)
    } else {
        base
    }
}

fn one(w: &mut World, k: &Pubkey, forged: bool) {
    let s = w.hub.state();
    let Some(a) = s.accounts.get(k).cloned() else { return };
    let (metas, banks, _) = {
        // no fallbacks: the plain client path
        let (m, b, fb) = w.health_metas(&a, false);
        let n = m.len() - fb.len();
        (m[..n].to_vec(), b, fb)
    };
    let Some(v) = account_value(&s, k) else { return };
    let hub = w.hub.clone();
    let (now, slot) = (w.now(), w.solana.clock().slot);
    let c = Case { s: &s, a: (*a).clone(), banks, now, slot, forged };
    let start = c.start();
    let Some(h0) = c.health(&start) else { return };
    let Some(cache) = client_cache(&s, &v, &metas, now) else {
        hub.with_out(|o| o.count("client cannot build the health cache"));
        return;
    };
    agrees(w, &c, "health", &cache, &h0);
    {
        let (m, l) = (h0.health(HT::Maint), h0.health(HT::LiqEnd));
        let (want, sure) = if a.being_liquidated != 0 { (l < 0.0, l.abs() > h0.err(HT::LiqEnd)) } else { (m < 0.0, m.abs() > h0.err(HT::Maint)) };
        let got = cache.is_liquidatable();
        hub.with_out(|o| {
            o.eval("is-liquidatable", (m.to_bits(), l.to_bits(), a.being_liquidated), || format!("maint {m:.3} liquidation-end {l:.3} flag {}: {got}", a.being_liquidated));
            if sure && got != want {
                o.fail("C27", "is-liquidatable", format!("client says {got}, maint {m}, liquidation-end {l}, being liquidated {}", a.being_liquidated));
            }
        });
    }
    // weights that make debts cheaper than assets leave nothing to search for
    let sane = h0.ordered()
        && h0.toks.iter().all(|t| t.sinit_a <= t.sinit_l && t.init_a <= 1.0)
        && h0.perps.iter().all(|p| p.i_ba <= p.i_bl && p.i_oa <= 1.0);
    if h0.tol > 1e9 || !sane {
        return;
    }
    let toks: Vec<u16> = c.banks.keys().cloned().collect();
    for _ in 0..2 {
        let Some(t) = toks.choose(&mut w.rng).cloned() else { return };
        borrow(w, &c, &cache, &v, &h0, t, &metas);
        let Some(u) = toks.choose(&mut w.rng).cloned() else { return };
        if t != u {
            swap(w, &c, &cache, &v, &h0, t, u);
        }
        token_change(w, &c, &cache, &v, t);
    }
    let perps: Vec<u16> = a.active_perps().map(|p| p.market_index).collect();
    if let Some(p) = perps.choose(&mut w.rng).cloned() {
        perp(w, &c, &cache, &h0, p);
        perp_change(w, &c, &cache, &v, p);
    }
    let sers: Vec<Serum3Orders> = a.active_serum().cloned().collect();
    if let Some(so) = sers.choose(&mut w.rng).cloned() {
        serum_change(w, &c, &cache, &so);
    }
}

fn agrees(w: &World, c: &Case, what: &str, cache: &HealthCache, h: &Hc) {
    for (ht, k) in HS {
        let want = h.health(ht);
        let tol = h.err(ht) * 4.0 + 1e-6;
        if want.abs() > 1e20 {
            continue;
        }
        let Ok(got) = catch_unwind(AssertUnwindSafe(|| f(cache.health(k)))) else {
            w.hub.with_out(|o| o.count("client health computation aborted"));
            continue;
        };
        w.hub.with_out(|o| {
            o.eval(&format!("client-{what}"), (want.to_bits(), ht), || format!("{} account, {ht:?}: client {got:.6}, documented {want:.6}", if c.forged { "constructed" } else { "reached" }));
            if (got - want).abs() > tol {
                o.fail("C27", &format!("client-{what}:{ht:?}"), format!("after {what} the client's {ht:?} health is {got}, documented {want} (tolerance {tol:e}) {h:?}"));
            }
        });
    }
    if let Some((want, tol)) = ratio(h) {
        let Ok(got) = catch_unwind(AssertUnwindSafe(|| f(cache.health_ratio(HealthType::Init)))) else { return };
        w.hub.with_out(|o| {
            o.eval(&format!("client-{what}-ratio"), want.to_bits(), || format!("client {got:.6}, documented {want:.6}"));
            if want.is_finite() && (got - want).abs() > tol * 2.0 {
                o.fail("C27", &format!("client-{what}:ratio"), format!("after {what} the client's init health ratio is {got}, documented {want} (tolerance {tol:e}) {h:?}"));
            }
        });
    }
}

/// amounts and prices of a size that leaves room in the number format
fn moderate(h: &Hc) -> bool {
    // searches give up when reserved spot amounts or pnl are millions of times the balance
    let room = h.health(HT::Init).abs() * 1e4;
    h.perps.iter().all(|p| p.lots.abs() as f64 * p.base_lot * p.oracle < room && p.quote.abs() < room) && h.sers.iter().all(|s| s.res_base == 0.0 && s.res_quote == 0.0)
        && h.toks.iter().all(|t| [t.oracle, t.stable].iter().all(|p| (1e-7..1e7).contains(p) && (t.spot * p).abs() < 1e14) && t.spot.abs() < 1e16 && t.sinit_l < 1e3)
        && h.perps.iter().all(|p| [p.oracle, p.stable].iter().all(|x| (1e-7..1e7).contains(x) && (p.lots.abs() + p.bids + p.asks) as f64 * p.base_lot * x < 1e14) && p.quote.abs() < 1e14)
}
fn aborted(e: &Box<dyn std::any::Any + Send>) -> &'static str {
    let m = e.downcast_ref::<&str>().map(|s| s.to_string()).or(e.downcast_ref::<String>().cloned()).unwrap_or_default();
    if m.contains("overflow") {
        "arithmetic overflow"
    } else {
        "assertion failed"
    }
}
fn missing(o: &mut crate::mon::Out, what: &str, how: &str, h: &Hc) {
    o.count(&format!("{how}: max {what}"));
    if how == "assertion failed" || (how == "no answer" && moderate(h) && h.health(HT::Init).abs() > h.liabs(HT::Init) * 1e-4) {
        o.fail("C27", &format!("{what}:{how}"), format!("max {what}: {how} {h:?}"));
    }
}

fn borrow(w: &mut World, c: &Case, cache: &HealthCache, v: &MangoAccountValue, h0: &Hc, t: u16, metas: &[AccountMeta]) {
    let k = c.banks[&t];
    let Some((r0, tol0)) = ratio(h0) else { return };
    let min = f(i80(target(&mut w.rng, r0, Kind::Ratio)));
    let bank = in_step(&c.s.banks[&k], c.now);
    let hub = w.hub.clone();
    let res = catch_unwind(AssertUnwindSafe(|| cache.max_borrow_for_health_ratio(v, &bank, i80(min))));
    let m = match res {
        Ok(Ok(m)) => f(m),
        Ok(Err(e)) => {
            hub.with_out(|o| {
                missing(o, "borrow", "no answer", h0);
                if std::env::var("C27_TRACE").is_ok() {
                    eprintln!("borrow: no answer: {e:?} r0 {r0} min {min} {h0:?}");
                }
            });
            return;
        }
        Err(e) => {
            hub.with_out(|o| missing(o, "borrow", aborted(&e), h0));
            return;
        }
    };
    let at = |x: f64| {
        let mut y = c.start();
        let mv = y.withdraw(&k, x);
        if x > 0.0 && (1e-9..1.001).contains(&y.native(&k)) {
            return None;
        }
        c.health(&y).and_then(|h| ratio(&h)).map(|r| (r, mv.loan))
    };
    let price = h0.tok(t).unwrap().oracle;
    let (Some(((r, tol), loan)), Some(((rp, tolp), loanp))) = (at(m), at(m + 1.0 + m * 1e-12)) else { return };
    hub.with_out(|o| {
        o.eval("max-borrow", (m.to_bits(), min.to_bits()), || format!("{m:.3} native of token {t} for a ratio of {min:.4} (from {r0:.4}): reaches {r:.4}, one more {rp:.4}"));
        let d = || format!("max borrow of token {t} for ratio {min}: {m}; ratio {r0} -> {r}, with one more {rp} (tolerance {tol:e}), fee {} net {} limit {}, loan {loan} after {:?} scales {:e} {:e} {h0:?}", f(bank.loan_origination_fee_rate), bank.net_borrows_in_window, bank.net_borrow_limit_per_window_quote, { let mut y = c.start(); y.withdraw(&k, m); c.health(&y).map(|h| h.tok(t).cloned()) }, bank.deposit_weight_scale_start_quote, bank.borrow_weight_scale_start_quote);
        if r0 < min - tol0 {
            if m != 0.0 {
                o.fail("C27", "borrow:below", d());
            }
            return;
        }
        if m > 0.0 && r < min - tol {
            o.fail("C27", "borrow:unsafe", d());
        }
        if m > 0.0 && over_net_limit(&bank, loan, price, 2.0) {
            o.fail("C27", "borrow:net-limit", d());
        }
        // at exactly the target nothing more is planned
        if r0 > min + tol0 && rp > min + 0.1 + tolp && !over_net_limit(&bank, loanp, price, -2.0) {
            o.fail("C27", "borrow:loose", d());
        }
    });
    // and for real
    if r0 < min + tol0 || m < 1.0 || m > 1e18 || !w.rng.gen_bool(0.5) {
        return;
    }
    let amount = m as u64;
    for (x, ok) in [(amount, true), (amount + 2, false)] {
        let Some(((rx, tolx), loanx)) = at(x as f64) else { continue };
        let left = h0.tok(t).unwrap().position - x as f64;
        if (left > -1.0 && left < 2.0) || over_net_limit(&bank, loanx, price, -2.0) {
            continue;
        }
        let limit = if ok { min - tolx } else { min + 0.1 + tolx };
        if !limit.is_finite() || limit.abs() > 1e9 {
            continue;
        }
        w.what_if(|w| {
            if !really_withdraw(w, c, t, &k, x, metas) {
                w.hub.with_out(|o| o.count("borrow not executable"));
                return;
            }
            let accounts = mango_v4::accounts::HealthCheck { group: c.a.fx.group, account: c.a.key };
            let data = mango_v4::instruction::HealthCheck { min_health_value: limit, check_kind: HealthCheckKind::InitRatio };
            let mut ix = make_instruction(mango_v4::id(), &accounts, &data);
            ix.accounts.extend(metas.to_vec());
            let rec = w.run(Tx { ixs: vec![ix], signers: vec![] });
            if panicked(&rec) || (!rec.ok() && code(&rec) != Some(invalid_health())) {
                w.hub.with_out(|o| o.count("borrow not judged"));
                return;
            }
            w.hub.with_out(|o| {
                o.eval("borrow-executed", (x, min.to_bits()), || format!("withdrew {x} of token {t}: program says ratio >= {limit:.4} is {}", rec.ok()));
                if rec.ok() != ok {
                    o.fail("C27", if ok { "borrow:executed-unsafe" } else { "borrow:executed-loose" }, format!("withdrawing {x} of token {t} (maximum for ratio {min}: {m}) the program finds ratio >= {limit}: {} (expected ratio {rx})", rec.ok()));
                }
            });
        });
    }
}
fn really_withdraw(w: &mut World, c: &Case, t: u16, bank: &Pubkey, amount: u64, metas: &[AccountMeta]) -> bool {
    let b = c.s.banks[bank].clone();
    let grp = w.grp().clone();
    let Some(acc) = grp.accs.iter().find(|x| x.key == c.a.key) else { return false };
    let user = w.users[acc.owner].clone();
    let (owner, dest) = (user.key, grp.toks.iter().position(|x| x.idx == t).and_then(|i| user.atas.get(i).cloned()));
    let Some(dest) = dest else { return false };
    // enough in the vault, nothing else in the way
    let tokens = c.s.raw.get(&b.vault).cloned();
    if let Some(v) = tokens {
        let mut v = (*v).clone();
        v.data[64..72].copy_from_slice(&u64::MAX.checked_div(2).unwrap().to_le_bytes());
        w.solana.set_raw_account(b.vault, v);
    }
    w.poke::<Bank>(bank, |b, _| {
        b.reduce_only = 0;
        b.min_vault_to_deposits_ratio = 0.0;
    });
    w.sync();
    let accounts = mango_v4::accounts::TokenWithdraw {
        group: c.a.fx.group,
        account: c.a.key,
        owner: owner.pubkey(),
        bank: *bank,
        vault: b.vault,
        oracle: b.oracle,
        token_account: dest,
        token_program: spl_token::id(),
    };
    let data = mango_v4::instruction::TokenWithdraw { amount, allow_borrow: true };
    let mut ix = make_instruction(mango_v4::id(), &accounts, &data);
    ix.accounts.extend(metas.to_vec());
    let rec = w.run(Tx { ixs: vec![ix], signers: vec![owner] });
    rec.ok()
}

fn swap(w: &mut World, c: &Case, cache: &HealthCache, v: &MangoAccountValue, h0: &Hc, src: u16, dst: u16) {
    let (sk, tk) = (c.banks[&src], c.banks[&dst]);
    let kind = if w.rng.gen_bool(0.6) { Kind::Ratio } else { Kind::Health };
    let Some((v0, _)) = value(h0, kind) else { return };
    let min = f(i80(target(&mut w.rng, v0, kind)));
    let (sh, th) = (h0.tok(src).unwrap().clone(), h0.tok(dst).unwrap().clone());
    let rel = *[0.5, 0.9, 0.97, 0.99, 1.0, 1.0, 1.1, 1.5].choose(&mut w.rng).unwrap();
    let price = i80(rel * sh.oracle / th.oracle.max(1e-12));
    if f(price) < 1e-9 || f(price) > 1e9 {
        return;
    }
    let (sb, tb) = (in_step(&c.s.banks[&sk], c.now), in_step(&c.s.banks[&tk], c.now));
    let limits = kind == Kind::Ratio && w.rng.gen_bool(0.5);
    let hub = w.hub.clone();
    let sp = i80(sh.oracle);
    let res = catch_unwind(AssertUnwindSafe(|| match (kind, limits) {
        (Kind::Ratio, true) => cache.max_swap_source_for_health_ratio_with_limits(v, &sb, sp, &tb, price, i80(min)),
        (Kind::Ratio, false) => cache.max_swap_source_for_health_ratio_ignoring_limits(v, &sb, sp, &tb, price, i80(min)),
        (Kind::Health, _) => cache.max_swap_source_for_health_fn(v, &sb, sp, &tb, price, i80(min), |c| c.health(HealthType::Init)),
    }));
    let trace = std::env::var("C27_TRACE").is_ok();
    let m = match res {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => {
            if trace {
                eprintln!("swap: no answer: {e:?} v0 {v0} min {min} {kind:?} price {price} {h0:?}");
            }
            hub.with_out(|o| missing(o, "swap", "no answer", h0));
            return;
        }
        Err(e) => {
            if trace {
                eprintln!("swap: aborted: v0 {v0} min {min} {kind:?} price {price} {src}->{dst} {h0:?}");
            }
            hub.with_out(|o| missing(o, "swap", aborted(&e), h0));
            return;
        }
    };
    if trace && m < 1e20 {
        let (mut sp, mut tp) = (v.token_position(src).unwrap().clone(), v.token_position(dst).unwrap().clone());
        let (mut s2, mut t2) = (sb, tb);
        let _ = catch_unwind(AssertUnwindSafe(|| {
            let r = s2.withdraw_with_fee(&mut sp, m, c.now).unwrap();
            t2.deposit(&mut tp, m * price, c.now).unwrap();
            let mut x = cache.clone();
            x.adjust_token_balance(&s2, -(m + r.loan_origination_fee)).unwrap();
            x.adjust_token_balance(&t2, m * price).unwrap();
            let mut y = c.start();
            y.withdraw(&sk, f(m));
            y.deposit(&tk, f(m) * f(price));
            let b = y.bank(&tk);
            eprintln!("at {m}: {} {}; {} {} {} / {} {} {} ", x.health(HealthType::Init), x.token_info(dst).unwrap().init_scaled_asset_weight, b.deposit_index, b.indexed_deposits, b.potential_serum_tokens, t2.deposit_index, t2.indexed_deposits, t2.potential_serum_tokens);
        }));
    }
    let price = f(price);
    let mm = f(m);
    let at = |x: f64| {
        let mut y = c.start();
        let mv = y.withdraw(&sk, x);
        if x > 0.0 && (1e-9..1.001).contains(&y.native(&sk)) {
            return None;
        }
        let debt = y.native(&tk) < 0.0;
        y.deposit(&tk, x * price);
        if debt && (-1e-3..1.001).contains(&y.native(&tk)) {
            // dusting isn't planned for
            return None;
        }
        let over = over_deposit_limit(y.bank(&tk), 2.0 + y.native(&tk).abs() * 1e-9);
        let near = over_deposit_limit(y.bank(&tk), -2.0 - price * 2.0);
        c.health(&y).and_then(|h| value(&h, kind)).map(|r| (r, mv.loan, over, near))
    };
    let slope = -sh.sinit_l * sh.liab_price(HT::Init) + th.init_a * th.asset_price(HT::Init) * price;
    let slope_tol = (sh.sinit_l * sh.liab_price(HT::Init)).abs() * 1e-6 + 1e-9;
    let unlimited = m == I80F48::MAX;
    if slope.abs() < slope_tol {
        return;
    }
    if slope > 0.0 {
        hub.with_out(|o| {
            o.eval("max-swap-unlimited", (src, dst, price.to_bits()), || format!("health grows with every swap: {mm:e}"));
            if !limits && !unlimited {
                o.fail("C27", "swap:unlimited", format!("every swap improves health (slope {slope}) but the maximum is {mm}"));
            }
        });
        if !limits || unlimited {
            return;
        }
    } else if unlimited {
        hub.with_out(|o| o.fail("C27", "swap:endless", format!("swaps cost health (slope {slope}) but the maximum is unlimited")));
        return;
    }
    if mm > 1e22 || mm * price > 1e22 {
        return;
    }
    let (Some(((r, tol), loan, over, _)), Some(((rp, tolp), loanp, _, nearp))) = (at(mm), at(mm + 1.0 + mm * 1e-12)) else { return };
    // the best that swapping can do, as far as samples tell
    let reach = (h0.effective(HT::Init, false).iter().map(|x| x.abs()).fold(0.0, f64::max)).max(1.0) * 2.0;
    let (pot, eff) = (h0.potential(HT::Init), h0.effective(HT::Init, false));
    let ix = |t: u16| h0.toks.iter().position(|x| x.idx == t).unwrap();
    let right = (eff[ix(src)].abs() + pot[ix(src)]).max((eff[ix(dst)].abs() + pot[ix(dst)]) / price).min(reach * 1e6);
    let over_net = |b: &Bank, loan: f64, slack: f64| over_net_limit(b, loan, sh.oracle, slack);
    let mut best = (v0, 0.0);
    if v0 < min && slope < 0.0 {
        let u: f64 = w.rng.gen_range(0.0..1.0);
        for x in [0.1, 0.25, 0.5, 0.75, 0.9, 1.0, 0.01, u, eff[ix(src)].abs() / right, eff[ix(dst)].abs() / price / right].map(|q| q * right) {
            if let Some(((rx, _), loan, _, _)) = at(x) {
                if rx > best.0 && !over_net(&sb, loan, -2.0 - loan * f(sb.loan_origination_fee_rate)) {
                    best = (rx, x);
                }
            }
        }
    }
    // the search for the best amount stops at a tenth of a native unit
    let step = [at(mm + 0.2), at((mm - 0.2).max(0.0))].iter().flatten().map(|x| (x.0 .0 - r).abs()).sum::<f64>() * 2.0;
    hub.with_out(|o| {
        o.eval(&format!("max-swap-{kind:?}"), (mm.to_bits(), min.to_bits()), || format!("{mm:.3} native of token {src} to {dst} at {rel} for {min:.4} (from {v0:.4}): reaches {r:.4}, one more {rp:.4}"));
        let d = || {
            format!("max swap of token {src} to {dst} at {rel} of the price for {kind:?} {min} (limits {limits}): {mm}; {v0} -> {r}, with one more {rp}, best sample {best:?} (tolerance {tol:e}), fee {}, loan {loan} net {} limit {}, scales {:e} {:e} / {:e} {:e} {h0:?}", f(sb.loan_origination_fee_rate), sb.net_borrows_in_window, sb.net_borrow_limit_per_window_quote, sb.deposit_weight_scale_start_quote, sb.borrow_weight_scale_start_quote, tb.deposit_weight_scale_start_quote, tb.borrow_weight_scale_start_quote)
        };
        let fee_slack = loan * f(sb.loan_origination_fee_rate) * 1.01 + 2.0;
        if limits {
            if over_net(&sb, loan, fee_slack) {
                o.fail("C27", "swap:net-limit", d());
            }
            if over && mm > 0.0 && mm * price > 1.0 && c.start().native(&tk) + mm * price > 1.0 {
                o.fail("C27", "swap:deposit-limit", d());
            }
        }
        if slope > 0.0 {
            return;
        }
        let free = over_net(&sb, loanp, -fee_slack - 2.0) || (limits && nearp);
        if v0 >= min + tol {
            if r < min - tol {
                o.fail("C27", "swap:unsafe", d());
            }
        } else if best.0 > v0 && !limits {
            // health ratios below zero can have several peaks; health can't, unless weights change with the totals
            // or reserved spot amounts change sides
            let scaled = [&sb, &tb].iter().any(|b| b.deposit_weight_scale_start_quote != f64::MAX || b.borrow_weight_scale_start_quote != f64::MAX);
            let reserved = h0.sers.iter().any(|s| [ix(src), ix(dst)].iter().any(|i| *i == s.base || *i == s.quote));
            let goal = if (kind == Kind::Ratio && best.0 < 0.0) || scaled || reserved || (best.1 - mm).abs() < 0.3 { v0 } else { best.0.min(min) };
            if r < goal - tol * 4.0 - step {
                o.fail("C27", "swap:best", d());
            }
        }
        let slack = match kind {
            Kind::Ratio => 0.1,
            Kind::Health => 0.1,
        };
        if r > min && rp > min + slack + tolp && !free {
            o.fail("C27", "swap:loose", d());
        }
    });
}

fn perp(w: &mut World, c: &Case, cache: &HealthCache, h0: &Hc, p: u16) {
    let Some((r0, tol0)) = ratio(h0) else { return };
    let i = h0.perps.iter().position(|x| x.market == p).unwrap();
    let ph = h0.perps[i].clone();
    let min = f(i80(target(&mut w.rng, r0, Kind::Ratio)));
    let rel = *[0.5, 0.8, 0.9, 0.97, 0.99, 1.0, 1.0, 1.01, 1.05, 1.1, 1.2].choose(&mut w.rng).unwrap();
    let price = i80(rel * ph.oracle);
    let (side, dir) = if w.rng.gen_bool(0.5) { (Side::Bid, 1.0) } else { (Side::Ask, -1.0) };
    let hub = w.hub.clone();
    let trace = std::env::var("C27_TRACE").is_ok();
    let m = match catch_unwind(AssertUnwindSafe(|| cache.max_perp_for_health_ratio(p, price, side, i80(min)))) {
        Ok(Ok(m)) => m,
        Ok(Err(e)) => {
            if trace {
                eprintln!("perp: no answer: {e:?} r0 {r0} min {min} dir {dir} price {price} {h0:?}");
            }
            hub.with_out(|o| missing(o, "perp", "no answer", h0));
            return;
        }
        Err(e) => {
            if trace {
                eprintln!("perp: aborted r0 {r0} min {min} dir {dir} price {price} {h0:?}");
            }
            hub.with_out(|o| missing(o, "perp", aborted(&e), h0));
            return;
        }
    };
    let price = f(price);
    let at = |lots: f64| {
        let mut h = h0.clone();
        h.perps[i].lots += (dir * lots) as i64;
        h.perps[i].quote -= dir * lots * ph.base_lot * price;
        h.tol += lots * ph.base_lot * price * 1e-12;
        ratio(&h)
    };
    let settle = h0.tok(ph.settle).unwrap();
    let (lo, hi) = (ph.oracle.min(ph.stable), ph.oracle.max(ph.stable));
    let slope = if dir > 0.0 { ph.i_ba * lo - price } else { price - ph.i_bl * hi };
    let _ = settle;
    if slope.abs() < price * 1e-9 + 1e-12 {
        return;
    }
    let closing = if (ph.lots as f64) * dir < 0.0 { ph.lots.abs() as f64 } else { 0.0 };
    let has_orders = ph.bids != 0 || ph.asks != 0;
    hub.with_out(|o| {
        let d = |extra: String| format!("max perp for ratio {min}, direction {dir} at {rel} of the price: {m} lots of market {p}; ratio {r0}; {extra} {h0:?}");
        if m < 0 {
            o.fail("C27", "perp:negative", d(String::new()));
            return;
        }
        if m == i64::MAX {
            o.eval("max-perp-unlimited", (p, price.to_bits(), dir.to_bits()), || format!("health grows with every lot (slope {slope:.4})"));
            if slope < 0.0 {
                o.fail("C27", "perp:endless", d(format!("slope {slope}")));
            }
            return;
        }
        if slope > 0.0 {
            if r0 > tol0 {
                o.fail("C27", "perp:unlimited", d(format!("slope {slope}")));
            }
            return;
        }
        let (Some((r, tol)), Some((rp, tolp))) = (at(m as f64), at(m as f64 + 1.0)) else { return };
        o.eval("max-perp", (m, min.to_bits(), dir.to_bits()), || format!("{m} lots for a ratio of {min:.4} (from {r0:.4}): reaches {r:.4}, one more {rp:.4}"));
        let e = format!("-> {r}, one more {rp} (tolerance {tol:e})");
        if r0 < -tol0 {
            if m != 0 {
                o.fail("C27", "perp:below", d(e));
            }
            return;
        }
        let rc = at(closing);
        if r0 > min + tol0 || rc.map_or(false, |x| x.0 > min + x.1) {
            if m > 0 && r < min - tol {
                o.fail("C27", "perp:unsafe", d(e.clone()));
            }
            // resting orders and ratios beyond the position's closing point are not searched
            if rp > min + 0.1 + tolp && r > min + tol && !(has_orders && false) {
                o.fail("C27", "perp:loose", d(e));
            }
        } else if m > 0 && r0 > tol0 && r < r0 - tol {
            o.fail("C27", "perp:worse", d(e));
        }
    });
}

/// cached health after a token change
fn token_change(w: &mut World, c: &Case, cache: &HealthCache, v: &MangoAccountValue, t: u16) {
    let k = c.banks[&t];
    let mut b = *c.s.banks[&k];
    let Some(pos) = v.token_position(t).ok() else { return };
    let mut pos = *pos;
    let have = native_pos(&pos, &b);
    let usd: f64 = w.rng.gen_range(0.0..25.0f64);
    let mut amount = (usd.exp() / tok_price(c.s, &c.a.fx.group, t)).floor();
    if w.rng.gen_bool(0.2) {
        amount = have.abs().floor();
    }
    if amount > 1e18 {
        return;
    }
    let mut y = c.start();
    let up = w.rng.gen_bool(0.5);
    let before = pos.native(&b);
    b.net_borrow_limit_per_window_quote = -1;
    let ok = catch_unwind(AssertUnwindSafe(|| {
        if up {
            b.deposit(&mut pos, i80(amount), c.now).is_ok()
        } else {
            b.withdraw_with_fee(&mut pos, i80(amount), c.now).is_ok()
        }
    }));
    if !matches!(ok, Ok(true)) {
        return;
    }
    *y.a.tokens.iter_mut().find(|x| x.token_index == t).unwrap() = pos;
    y.s.banks.insert(k, Rc::new(b));
    let mut cache = cache.clone();
    if cache.adjust_token_balance(&b, pos.native(&b) - before).is_err() {
        return;
    }
    let Some(mut h) = c.health(&y) else { return };
    h.tol += (have.abs() + amount) * 1e-11 * tok_price(c.s, &c.a.fx.group, t) + tok_price(c.s, &c.a.fx.group, t) * 1e-6;
    agrees(w, c, "token-change", &cache, &h);
}
fn perp_change(w: &mut World, c: &Case, cache: &HealthCache, v: &MangoAccountValue, p: u16) {
    let Some((_, m)) = c.s.perp_by_index(&c.a.fx.group, p) else { return };
    let Ok(pos) = v.perp_position(p) else { return };
    let mut pos = *pos;
    let r = &mut w.rng;
    match r.gen_range(0..3) {
        0 => {
            let mut mk = **m;
            let lots = r.gen_range(-1000..1000i64);
            let q = -(lots as f64) * m.base_lot_size as f64 * r.gen_range(0.5..1.5) * c.s.stubs.get(&m.oracle).map_or(1.0, |o| f(o.price));
            if catch_unwind(AssertUnwindSafe(|| pos.record_trade(&mut mk, lots, i80(q)))).is_err() {
                return;
            }
        }
        1 => {
            pos.bids_base_lots = r.gen_range(0..10_000);
            pos.asks_base_lots = r.gen_range(0..10_000);
        }
        _ => {
            pos.taker_base_lots = r.gen_range(-1000..1000);
            pos.taker_quote_lots = r.gen_range(-100_000..100_000);
        }
    }
    let mut cache = cache.clone();
    if !matches!(catch_unwind(AssertUnwindSafe(|| cache.recompute_perp_info(&pos, m).is_ok())), Ok(true)) {
        return;
    }
    let mut y = c.start();
    *y.a.perps.iter_mut().find(|x| x.market_index == p).unwrap() = pos;
    let Some(h) = c.health(&y) else { return };
    agrees(w, c, "perp-change", &cache, &h);
}
fn serum_change(w: &mut World, c: &Case, cache: &HealthCache, so: &Serum3Orders) {
    let Some(oo) = c.s.oos.get(&so.open_orders).cloned() else { return };
    let mut n = (*oo).clone();
    let mut so = *so;
    let r = &mut w.rng;
    let mut change = |x: &mut u64, r: &mut rand_chacha::ChaCha8Rng| {
        if r.gen_bool(0.5) {
            *x = (*x as f64 * r.gen_range(0.0..2.0)) as u64 + r.gen_range(0..100_000);
        }
    };
    let (mut rb, mut rq) = (n.coin_total - n.coin_free, n.pc_total - n.pc_free);
    change(&mut n.coin_free, r);
    change(&mut n.pc_free, r);
    change(&mut rb, r);
    change(&mut rq, r);
    n.coin_total = n.coin_free + rb;
    n.pc_total = n.pc_free + rq;
    if r.gen_bool(0.5) {
        so.lowest_placed_ask *= r.gen_range(0.5..1.5);
        so.highest_placed_bid_inv *= r.gen_range(0.5..1.5);
    }
    let mut real: serum_dex::state::OpenOrders = bytemuck::Zeroable::zeroed();
    real.native_coin_free = n.coin_free;
    real.native_coin_total = n.coin_total;
    real.native_pc_free = n.pc_free;
    real.native_pc_total = n.pc_total;
    real.referrer_rebates_accrued = n.rebates;
    let mut cache = cache.clone();
    let slim = mango_v4::serum3_cpi::OpenOrdersSlim::from_oo(&real);
    let (db, dq) = (n.coin_free as f64 - oo.coin_free as f64, n.pc_free as f64 - oo.pc_free as f64);
    if cache.recompute_serum3_info(&so, &slim, i80(db), i80(dq)).is_err() {
        return;
    }
    let mut y = c.start();
    y.s.oos.insert(so.open_orders, Rc::new(n));
    *y.a.serum3.iter_mut().find(|x| x.market_index == so.market_index && x.open_orders == so.open_orders).unwrap() = so;
    let Some(h) = c.health(&y) else { return };
    agrees(w, c, "spot-change", &cache, &h);
}
