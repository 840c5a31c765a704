//! Price sources and the stable price model by themselves: far more states than a history reaches.
use crate::mon::prices::{same_model, stable_limits, stable_step};
use crate::mon::{h64, Out};
use crate::oracles::{self, Feed, Kind, KINDS};
use crate::spec::{judge, Price};
use crate::svm::Account;
use crate::world::quiet;
use fixed::types::I80F48;
use mango_v4::accounts_zerocopy::AccountInfoRef;
use mango_v4::state::{Bank, OracleAccountInfos, OracleConfig, PerpMarket, StablePriceModel};
use rand::prelude::*;
use rand_chacha::ChaCha8Rng;
use solana_program::pubkey::Pubkey;
use std::cell::RefCell;

struct Held {
    key: Pubkey,
    owner: Pubkey,
    data: RefCell<Vec<u8>>,
}
fn held(key: Pubkey, a: &Account) -> Held {
    Held { key, owner: a.owner, data: RefCell::new(a.data.clone()) }
}
/// account data in the program's hands starts at a multiple of eight
fn with<R>(h: &[&Held], f: impl FnOnce(&[AccountInfoRef]) -> R) -> R {
    let mut bufs: Vec<Vec<u64>> = h
        .iter()
        .map(|x| {
            let d = x.data.borrow();
            let mut v = vec![0u64; d.len() / 8 + 1];
            bytemuck::cast_slice_mut::<u64, u8>(&mut v)[..d.len()].copy_from_slice(&d);
            v
        })
        .collect();
    let cells: Vec<RefCell<&mut [u8]>> = bufs
        .iter_mut()
        .zip(h)
        .map(|(b, x)| {
            let n = x.data.borrow().len();
            RefCell::new(&mut bytemuck::cast_slice_mut::<u64, u8>(b)[..n])
        })
        .collect();
    let infos: Vec<AccountInfoRef> =
        h.iter().zip(&cells).map(|(x, c)| AccountInfoRef { key: &x.key, owner: &x.owner, data: c.borrow() }).collect();
    f(&infos)
}
fn some_feed(r: &mut ChaCha8Rng, now: u64, slot: u64, cfg: &OracleConfig) -> Feed {
    let max = cfg.max_staleness_slots.max(0) as u64;
    let ago = |r: &mut ChaCha8Rng| match r.gen_range(0..8) {
        0 | 1 => max,
        2 => max + 1,
        3 => max.saturating_sub(1),
        4 => 0,
        5 => max + 1000,
        6 => r.gen_range(0..=max),
        _ => r.gen_range(0..20_000),
    };
    let cf: f64 = cfg.conf_filter.to_num();
    let mut s = slot.saturating_sub(ago(r));
    if r.gen_bool(0.05) {
        s = [0, slot + 5, u64::MAX][r.gen_range(0..3)];
    }
    let secs = ago(r) as f64 * 0.45 + *[0.0, -1.0, 1.0].choose(r).unwrap();
    let mut t = now as i64 - secs as i64;
    if r.gen_bool(0.5) {
        t = now as i64;
    }
    Feed {
        price: match r.gen_range(0..12) {
            0 => 0.0,
            1 => 1e-9,
            2 => 1e9,
            _ => (r.gen_range(-14.0..14.0f64)).exp(),
        },
        dev: cf * *[0.0, 0.3, 0.99, 0.999999, 1.0, 1.000001, 1.01, 3.0].choose(r).unwrap(),
        slot: s,
        time: t,
        odd: if r.gen_bool(0.75) { 0 } else { r.gen_range(1..6) },
    }
}
fn config(r: &mut ChaCha8Rng) -> OracleConfig {
    OracleConfig {
        conf_filter: I80F48::from_num(*[0.0, 0.001, 0.02, 0.1, 1.0, 1000.0].choose(r).unwrap()),
        max_staleness_slots: *[-1i64, 0, 1, 10, 100, 600, 10_000].choose(r).unwrap(),
        reserved: [0; 72],
    }
}
/// the program's verdict against the reading of the same accounts
fn prices(r: &mut ChaCha8Rng, out: &mut Out) {
    let mut bank: Bank = bytemuck::Zeroable::zeroed();
    let keys: Vec<Pubkey> = (0..3).map(|_| Pubkey::new_from_array(r.gen())).collect();
    bank.oracle = keys[0];
    bank.fallback_oracle = keys[1];
    bank.mint_decimals = r.gen_range(0..12);
    bank.oracle_config = config(r);
    let cfg = bank.oracle_config;
    let (now, slot) = (1_700_000_000 + r.gen_range(0..1000u64), 200_000_000 + r.gen_range(0..1000u64));
    let mut make = |r: &mut ChaCha8Rng| {
        let kind = *KINDS.choose(r).unwrap();
        let mut x = some_feed(r, now, slot, &cfg);
        if matches!(kind, Kind::Orca | Kind::Raydium) {
            x.odd = (if x.odd > 3 { 0 } else { x.odd }) | (r.gen_range(0..4) << 3);
        }
        let mut a = oracles::account(kind, bank.mint_decimals, &x, &keys[2], r);
        if r.gen_bool(0.1) {
            for _ in 0..r.gen_range(1..4) {
                // what says what it is
                let i = r.gen_range(0..8);
                a.data[i] = r.gen();
            }
        }
        if r.gen_bool(0.03) {
            a.owner = oracles::account(*KINDS.choose(r).unwrap(), 6, &x, &keys[2], r).owner;
        }
        if r.gen_bool(0.02) {
            let n = r.gen_range(0..=a.data.len());
            a.data.truncate(n);
        }
        (kind, a)
    };
    let (k0, a0) = make(r);
    let (k1, a1) = make(r);
    let qf = |r: &mut ChaCha8Rng, sol| {
        let mut x = some_feed(r, now, slot, &cfg);
        x.price = r.gen_range(0.9..1.1);
        oracles::quote_feed(sol, &x)
    };
    let (u, s) = (qf(r, false), qf(r, true));
    let (have_fb, have_u, have_s) = (r.gen_bool(0.6), r.gen_bool(0.85), r.gen_bool(0.85));
    let aged = r.gen_bool(0.85);
    let decide = |fallback_too: bool, feeds: bool, dec: u8| -> Price {
        let feed = |k: &Pubkey| {
            if feeds && have_u && *k == oracles::usdc_feed() {
                Some(u.data.clone())
            } else if feeds && have_s && *k == oracles::sol_feed() {
                Some(s.data.clone())
            } else {
                None
            }
        };
        let one = |a: &Account| oracles::read(&a.owner, &a.data, dec, &feed).map(|x| judge(&x, &cfg, now, slot, aged));
        match one(&a0) {
            None => Price::Bad,
            Some(Price::Bad) if fallback_too => one(&a1).unwrap_or(Price::Bad),
            Some(p) => p,
        }
    };
    let h = [held(keys[0], &a0), held(keys[1], &a1), held(oracles::usdc_feed(), &u), held(oracles::sol_feed(), &s)];
    let time = aged.then_some((now, slot));
    let got = quiet(|| {
        with(&[&h[0], &h[1], &h[2], &h[3]], |i| {
            bank.oracle_price(
                &OracleAccountInfos {
                    oracle: &i[0],
                    fallback_opt: have_fb.then_some(&i[1]),
                    usdc_opt: have_u.then_some(&i[2]),
                    sol_opt: have_s.then_some(&i[3]),
                },
                time,
            )
            .ok()
        })
    });
    let mut compare = |what: &str, got: Option<Option<I80F48>>, want: Price, out: &mut Out| {
        if got.is_none() {
            out.count("source-panics");
        }
        let got = got.flatten();
        out.eval(&format!("{what}:{}", if got.is_some() { "used" } else { "refused" }), (h64(&a0.data), h64(&a1.data), have_fb), || {
            format!("{k0:?}, fallback {k1:?} ({have_fb}): {got:?}")
        });
        match (got, want) {
            (Some(p), Price::Ok(q)) => {
                let p: f64 = p.to_num();
                if (p - q).abs() > 1e-12 + q.abs() * 1e-9 {
                    out.fail("C22", &format!("{what}-value:{k0:?}"), format!("{k0:?} (fallback {k1:?}): price {p} instead of {q}"));
                }
                out.count(&format!("{what}:{k0:?}"));
            }
            (Some(p), _) => out.fail(
                "C22",
                &format!("{what}-accepted:{k0:?}"),
                format!("{k0:?} (fallback {k1:?} given: {have_fb}) accepted at {p} although it is too old, too uncertain or unusable"),
            ),
            (None, Price::Ok(q)) => {
                out.fail("C22", &format!("{what}-refused:{k0:?}"), format!("{k0:?} (fallback {k1:?} given: {have_fb}) at {q} is within the configured limits but refused"))
            }
            _ => {}
        }
    };
    compare("bank", got, decide(have_fb, true, bank.mint_decimals), out);

    let mut perp: PerpMarket = bytemuck::Zeroable::zeroed();
    perp.oracle = keys[0];
    perp.oracle_config = cfg;
    perp.base_decimals = bank.mint_decimals;
    let got = quiet(|| with(&[&h[0]], |i| perp.oracle_state(&OracleAccountInfos::from_reader(&i[0]), time).ok().map(|s| s.price)));
    compare("perp", got, decide(false, false, perp.base_decimals), out);
    // an account that is not the configured one is never read
    let got = quiet(|| {
        with(&[&h[1], &h[0]], |i| {
            let a = perp.oracle_state(&OracleAccountInfos::from_reader(&i[0]), None).is_ok();
            let b = bank.oracle_price(&OracleAccountInfos::from_reader(&i[0]), None).is_ok();
            let mut o = OracleAccountInfos::from_reader(&i[1]);
            o.fallback_opt = Some(&i[1]);
            let c = bank.oracle_price(&o, time).is_ok() && decide(false, false, bank.mint_decimals) == Price::Bad;
            a || b || c
        })
    });
    if got == Some(true) {
        out.fail("C22", "other-account", format!("a price was taken from an account that is not the configured oracle ({k0:?}, {k1:?})"));
    }
    out.count("other-account");
}
fn histories(r: &mut ChaCha8Rng, out: &mut Out) {
    let mut m = StablePriceModel::default();
    m.delay_interval_seconds = *[3600u32, 3600, 60, 600, 10, 7, 86_400].choose(r).unwrap();
    m.delay_growth_limit = *[0.06f32, 0.0, 0.5, 0.001].choose(r).unwrap();
    m.stable_growth_limit = *[0.0003f32, 0.0, 0.01, 0.00001].choose(r).unwrap();
    let mut now = 1_600_000_000 + r.gen_range(0..10_000_000u64);
    let mut p = r.gen_range(-5.0..5.0f64).exp();
    m.reset_to_price(if r.gen_bool(0.1) { 0.0 } else { p }, now);
    m.last_delay_interval_index = if r.gen_bool(0.5) { m.delay_interval_index(now) } else { 0 };
    let style = r.gen_range(0..4);
    for _ in 0..150 {
        now += match (style, r.gen_range(0..10)) {
            (0, _) => r.gen_range(0..30),
            (1, _) => r.gen_range(200..4000),
            (_, 0) => r.gen_range(0..11),
            (_, 1) => m.delay_interval_seconds as u64 * r.gen_range(1..30),
            (_, 2) => r.gen_range(0..200_000),
            (_, 3) => *[9u64, 10, 599, 600, 601].choose(r).unwrap(),
            _ => r.gen_range(1..1200),
        };
        match r.gen_range(0..12) {
            0 => p *= r.gen_range(0.02..50.0),
            1..=5 => p *= r.gen_range(0.9..1.1),
            _ => {}
        }
        let seen = if r.gen_bool(0.01) { 0.0 } else { p };
        let old = m;
        let want = stable_step(&old, now, seen);
        if quiet(|| m.update(now, seen)).is_none() {
            out.count("model-panics");
            m = old;
            if old.stable_price > 0.0 {
                out.fail("C22", "model-panics", format!("update({now}, {seen}) panics on {old:?}"));
            }
            continue;
        }
        let dt = now.saturating_sub(old.last_update_timestamp);
        out.eval("model", (m.stable_price.to_bits(), dt), || format!("price {seen}: stable {} -> {} after {dt} s", old.stable_price, m.stable_price));
        if m.last_delay_interval_index != old.last_delay_interval_index {
            out.count("model:new-interval");
        }
        if let Err(e) = same_model(&m, &want) {
            out.fail("C22", "model", format!("{e} (price {seen}, {dt} s after the last update of {old:?})"));
            return;
        }
        if dt >= 10 {
            if let Some(e) = stable_limits(&old, &m, now, seen) {
                out.fail("C22", "model-limit", e);
                return;
            }
        }
    }
}
/// recorded accounts, as the feeds publish them
fn recorded(out: &mut Out) {
    let dir = concat!(env!("CARGO_MANIFEST_DIR"), "/../../../repo/programs/mango-v4/resources/test");
    let dir = if std::path::Path::new(dir).exists() { dir } else { "/repo/programs/mango-v4/resources/test" };
    let owner = |k: Kind| {
        let mut r = ChaCha8Rng::seed_from_u64(0);
        let x = Feed { price: 1.0, dev: 0.0, slot: 1, time: 1, odd: 0 };
        oracles::account(k, 6, &x, &Pubkey::default(), &mut r).owner
    };
    for (name, kind) in [
        ("J83w4HKfqxwcq3BEMMkPFSppX3gqekLyLJBexebFVkix", Kind::Pyth),
        ("Gnt27xtC473ZT2Mw5u8wZ68Z3gULkSTb5DuxJy7eJotD", Kind::Pyth),
        ("8k7F9Xb36oFJsjpCKpsXvg4cgBRoZtwNTc3EzG5Ttd2o", Kind::SbV1),
        ("GvDMxPzN1sCj7L26YDK2HnMRXEQmQ2aemov8YBtPS7vR", Kind::SbV2),
        ("83v8iPyZihDEjDdY8RdZddyZNyUtXngz69Lgo9Kt5d6d", Kind::Orca),
        ("Ds33rQ1d4AXwxqyeXX6Pc3G4pFNr6iWb3dd8YfBBQMPr", Kind::Raydium),
        ("EtbG8PSDCyCSmDH8RE4Nf2qTV9d6P6zShzHY2XWvjFJf", Kind::SbOnDemand),
        ("7UVimffxr9ow1uXYxsr4LHAcV58mLzhmwaeKvJ1pjLiE", Kind::PythV2),
    ] {
        let read = |n: &str| std::fs::read(format!("{dir}/{n}.bin")).ok();
        let (Some(data), Some(usdc)) = (read(name), read("Gnt27xtC473ZT2Mw5u8wZ68Z3gULkSTb5DuxJy7eJotD")) else {
            out.count("recorded-missing");
            continue;
        };
        let own = owner(kind);
        if oracles::kind_of(&own, &data) != Some(kind) {
            out.fail("C22", "recorded-kind", format!("{name} is not read as {kind:?}"));
            continue;
        }
        let mk = |data: &Vec<u8>, owner| Account { lamports: 1, data: data.clone(), owner, executable: false };
        let (a, u) = (mk(&data, own), mk(&usdc, owner(Kind::Pyth)));
        for dec in 0..12u8 {
            let feed = |k: &Pubkey| (*k == oracles::usdc_feed()).then(|| usdc.clone());
            let want = oracles::read(&a.owner, &a.data, dec, &feed);
            let h = [held(Pubkey::default(), &a), held(oracles::usdc_feed(), &u)];
            let got = quiet(|| {
                with(&[&h[0], &h[1]], |i| {
                    let mut o = OracleAccountInfos::from_reader(&i[0]);
                    o.usdc_opt = Some(&i[1]);
                    mango_v4::state::oracle_state_unchecked(&o, dec).ok().map(|s| (s.price, s.last_update_slot, s.deviation))
                })
            })
            .flatten();
            out.eval("recorded", (name, dec), || format!("{kind:?} {name}: {got:?}"));
            let near = |a: f64, b: f64| (a - b).abs() <= 1e-12 + b.abs() * 1e-9;
            let same = match (&got, &want) {
                (None, None) => true,
                (Some((p, s, d)), Some(w)) => {
                    near(p.to_num(), w.price.to_num()) && w.slot.map_or(true, |x| x == *s) && w.deviation.map_or(true, |x| near(d.to_num(), x.to_num()))
                }
                _ => false,
            };
            if !same {
                out.fail("C22", "recorded", format!("{kind:?} account {name} at {dec} decimals: {got:?} instead of {want:?}"));
            }
        }
    }
}
pub fn run(seed: u64, item: u64, out: &mut Out) {
    let mut r = ChaCha8Rng::seed_from_u64(h64((seed, "prices", item)));
    if item == 0 {
        recorded(out);
    }
    for _ in 0..400 {
        prices(&mut r, out);
    }
    for _ in 0..8 {
        histories(&mut r, out);
    }
}
