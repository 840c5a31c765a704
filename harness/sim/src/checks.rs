//! Which monitors, workloads and scenarios decide which property.
use crate::mon::*;
use crate::world::Cfg;
use rand_chacha::ChaCha8Rng;

pub struct Prop {
    pub id: &'static str,
    pub monitors: fn() -> Vec<Box<dyn Monitor>>,
    /// multipliers for the base weights of actions whose name contains the key
    pub weights: &'static [(&'static str, f64)],
    pub cfg: fn(&mut Cfg, &mut ChaCha8Rng),
    /// scenarios of the repository's own integration suite that state this property's expectations
    pub cases: &'static [&'static str],
    /// random episodes: quick, thorough
    pub episodes: (u64, u64),
    pub steps: u64,
    /// a generator of its own, run once per work item
    pub extra: Option<Extra>,
    /// what-if questions asked between steps, and how often
    pub probes: &'static [(f64, fn(&mut crate::world::World))],
}
pub struct Extra {
    pub items: (u64, u64),
    pub run: fn(seed: u64, item: u64, out: &mut Out),
}
pub fn nocfg(_: &mut Cfg, _: &mut ChaCha8Rng) {}

fn perp_world(c: &mut Cfg, r: &mut ChaCha8Rng) {
    use rand::Rng;
    c.perps = c.perps.max(r.gen_range(1..3));
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            monitors: || vec![Box::new(vault::Conservation::default())],
            weights: &[("crash_story", 3.0), ("update_index", 2.0), ("flash", 2.0)],
            cfg: nocfg,
            cases: &["test_bankrupt_tokens", "test_basic"],
            episodes: (800, 40_000),
            steps: 500,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C02",
            monitors: || vec![Box::new(vault::Totals::default())],
            weights: &[("serum", 2.0), ("crash_story", 2.0), ("token_delist", 3.0)],
            cfg: |c, r| {
                use rand::Rng;
                c.sers = c.sers.max(r.gen_range(0..3));
            },
            cases: &["test_serum", "test_position_lifetime"],
            episodes: (500, 30_000),
            steps: 500,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C03",
            monitors: || vec![Box::new(interest::Interest::default()), Box::new(frame::Frame { only: &["token_update_index"] })],
            weights: &[("deadline", 6.0), ("interest_story", 16.0), ("update_index", 3.0), ("add_bank", 8.0), ("token_edit", 0.3)],
            cfg: nocfg,
            cases: &["test_token_update_index_and_rate"],
            episodes: (400, 30_000),
            steps: 500,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C04",
            monitors: || {
                vec![
                    Box::new(ledger::DepositWithdraw::default()),
                    Box::new(ledger::Dust::default()),
                    Box::new(frame::Frame { only: &["token_deposit", "token_withdraw"] }),
                    Box::new(vault::Conservation { only: &["token_deposit", "token_withdraw"], ..Default::default() }),
                ]
            },
            weights: &[("deposit", 3.0), ("withdraw", 4.0), ("update_index", 1.5)],
            cfg: nocfg,
            cases: &["test_basic", "test_position_lifetime"],
            episodes: (500, 30_000),
            steps: 500,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C05",
            monitors: || vec![Box::new(limits::Limits::default())],
            weights: &[("deadline", 16.0), ("limit_story", 16.0), ("perp_reduce_story", 6.0), ("tcs", 2.0), ("crash", 0.3)],
            cfg: nocfg,
            cases: &["test_borrow_limits", "test_reduce_only"],
            episodes: (500, 30_000),
            steps: 500,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C06",
            monitors: || vec![Box::new(health::HealthChecks::default())],
            weights: &[("deadline", 4.0), ("health_check", 2.0), ("serum", 2.0), ("perp_place", 2.0)],
            cfg: |c, r| {
                use rand::Rng;
                c.sers = c.sers.max(r.gen_range(0..3));
            },
            cases: &["test_health_compute", "test_health_check"],
            episodes: (250, 15_000),
            steps: 400,
            extra: None,
            probes: &[(0.35, crate::probe::health_agrees)],
        },
        Prop {
            id: "C07",
            monitors: || vec![Box::new(safety::Safety { prop: "C07" })],
            weights: &[("edge_story", 12.0), ("edge_any", 12.0), ("tcs", 2.0), ("serum", 1.5), ("health_region", 2.0)],
            cfg: |c, r| {
                use rand::Rng;
                c.sers = c.sers.max(r.gen_range(0..3));
            },
            cases: &["test_health_region", "test_token_conditional_swap", "test_margin_trade"],
            episodes: (600, 30_000),
            steps: 400,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C08",
            monitors: || {
                vec![
                    Box::new(region::Regions::default()),
                    Box::new(safety::Safety { prop: "C08" }),
                    Box::new(health::HealthChecks::default()),
                    Box::new(frame::Frame { only: &["health_region", "sequence_check", "health_check"] }),
                ]
            },
            weights: &[("health_region", 20.0), ("region_tricks", 30.0), ("sequence", 5.0), ("health_check", 4.0), ("guarded", 3.0), ("edge_story", 4.0), ("edge_any", 4.0)],
            cfg: |c, r| {
                use rand::Rng;
                c.sers = c.sers.max(r.gen_range(0..3));
            },
            cases: &["test_health_region", "test_health_check"],
            episodes: (400, 20_000),
            steps: 400,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C09",
            monitors: || vec![Box::new(liq::Phases::default()), Box::new(safety::Safety { prop: "C09" })],
            weights: &[("crash", 3.0), ("liq", 4.0), ("edge_story", 4.0), ("edge_any", 4.0), ("force_cancel", 6.0), ("deposit", 1.5)],
            cfg: |c, r| {
                use rand::Rng;
                c.sers = c.sers.max(r.gen_range(0..3));
            },
            cases: &["test_liq_tokens", "test_bankrupt_tokens", "test_liq_perps_force_cancel"],
            episodes: (500, 30_000),
            steps: 400,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C10",
            monitors: || {
                vec![
                    Box::new(liq::TokenLiq::default()),
                    Box::new(safety::Safety { prop: "C10" }),
                    Box::new(frame::Frame { only: &["token_liq_with_token"] }),
                    Box::new(vault::Conservation { only: &["token_liq_with_token"], ..Default::default() }),
                ]
            },
            weights: &[("crash", 4.0), ("liq_token", 8.0), ("edge_any", 4.0)],
            cfg: nocfg,
            cases: &["test_liq_tokens"],
            episodes: (500, 30_000),
            steps: 400,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C11",
            monitors: || {
                vec![
                    Box::new(liq::TokenBankruptcy::default()),
                    Box::new(liq::Phases::default()),
                    Box::new(frame::Frame { only: &["token_liq_bankruptcy"] }),
                    Box::new(vault::Conservation { only: &["token_liq_bankruptcy"], ..Default::default() }),
                ]
            },
            weights: &[("crash_story", 6.0), ("liq", 6.0), ("edge_any", 4.0), ("add_bank", 4.0)],
            cfg: nocfg,
            cases: &["test_bankrupt_tokens"],
            episodes: (500, 30_000),
            steps: 400,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C12",
            monitors: || {
                vec![
                    Box::new(perpliq::BaseLiq::default()),
                    Box::new(liq::Phases::default()),
                    Box::new(frame::Frame { only: &["perp_liq_base_or_positive_pnl"] }),
                    Box::new(vault::Conservation { only: &["perp_liq_base_or_positive_pnl"], ..Default::default() }),
                ]
            },
            weights: &[("perp", 2.0), ("leverage", 2.0), ("crash", 3.0), ("liq_perp_base", 10.0), ("edge_any", 4.0)],
            cfg: perp_world,
            cases: &["test_liq_perps_base_and_bankruptcy", "test_liq_perps_positive_pnl"],
            episodes: (500, 30_000),
            steps: 400,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C13",
            monitors: || {
                vec![
                    Box::new(perpliq::NegativePnl::default()),
                    Box::new(liq::Phases::default()),
                    Box::new(perp::ZeroSum::default()),
                    Box::new(frame::Frame { only: &["perp_liq_negative_pnl_or_bankruptcy"] }),
                    Box::new(vault::Conservation { only: &["perp_liq_negative_pnl_or_bankruptcy", "perp_liq_negative_pnl_or_bankruptcy_v2"], ..Default::default() }),
                ]
            },
            weights: &[("perp", 2.0), ("leverage", 2.0), ("crash", 3.0), ("liq_perp", 10.0), ("edge_any", 4.0)],
            cfg: perp_world,
            cases: &["test_liq_perps_base_and_bankruptcy", "test_liq_perps_bankruptcy"],
            episodes: (500, 30_000),
            steps: 400,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C14",
            monitors: || {
                vec![
                    Box::new(flash::Flash::default()),
                    Box::new(limits::Limits::default()),
                    Box::new(frame::Frame { only: &["flash_loan"] }),
                    Box::new(vault::Conservation { only: &["flash_loan"], ..Default::default() }),
                ]
            },
            weights: &[("flash", 12.0), ("withdraw", 1.5), ("limit_story", 4.0)],
            cfg: nocfg,
            cases: &["test_margin_trade"],
            episodes: (500, 30_000),
            steps: 500,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C15",
            monitors: || vec![Box::new(book::Matching::default()), Box::new(frame::Frame { only: &["perp_place"] })],
            weights: &[("deadline", 10.0), ("perp_place", 8.0), ("perp_trade", 3.0), ("consume", 2.0), ("perp_edit", 2.0), ("time", 2.0), ("price_walk", 2.0)],
            cfg: perp_world,
            cases: &["test_perp", "test_reduce_only"],
            episodes: (500, 30_000),
            steps: 400,
            extra: Some(Extra { items: (24, 2000), run: |s, i, o| crate::stress::books(s, i, monitors_of("C15"), o) }),
            probes: &[],
        },
        Prop {
            id: "C16",
            monitors: || vec![Box::new(book::Agreement::default()), Box::new(frame::Frame { only: &["perp_cancel", "perp_liq_force_cancel"] })],
            weights: &[("deadline", 6.0), ("perp_place", 4.0), ("perp_trade", 3.0), ("perp_cancel", 6.0), ("consume", 2.0), ("perp_force_cancel", 3.0), ("account_", 2.0), ("perp_deactivate", 2.0)],
            cfg: perp_world,
            cases: &["test_perp", "test_liq_perps_force_cancel"],
            episodes: (500, 30_000),
            steps: 400,
            extra: Some(Extra { items: (24, 2000), run: |s, i, o| crate::stress::books(s, i, monitors_of("C16"), o) }),
            probes: &[],
        },
        Prop {
            id: "C17",
            monitors: || vec![Box::new(book::Events::default()), Box::new(book::Agreement::default()), Box::new(perp::Settle::default())],
            weights: &[("perp_place", 4.0), ("perp_trade", 3.0), ("perp_cancel", 2.0), ("consume", 4.0)],
            cfg: perp_world,
            cases: &["test_perp"],
            episodes: (500, 30_000),
            steps: 400,
            extra: Some(Extra { items: (24, 2000), run: |s, i, o| crate::stress::books(s, i, monitors_of("C17"), o) }),
            probes: &[],
        },
        Prop {
            id: "C18",
            monitors: || vec![Box::new(perp::ZeroSum::default()), Box::new(perp::Settle::default()), Box::new(frame::Frame { only: &["perp_consume_events", "perp_place"] })],
            weights: &[("deadline", 6.0), ("perp", 3.0), ("consume", 2.0), ("settle", 2.0), ("funding", 2.0), ("liq_perp", 3.0)],
            cfg: perp_world,
            cases: &["test_perp", "test_perp_settle", "test_liq_perps_base_and_bankruptcy"],
            episodes: (500, 30_000),
            steps: 400,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C19",
            monitors: || vec![Box::new(perp::Funding::default()), Box::new(perp::ZeroSum::default()), Box::new(frame::Frame { only: &["perp_update_funding"] })],
            weights: &[("deadline", 8.0), ("perp", 2.0), ("consume", 2.0), ("settle", 2.0), ("funding", 8.0), ("liq_perp", 3.0), ("force_close", 3.0)],
            cfg: perp_world,
            cases: &["test_perp", "test_perp_settle"],
            episodes: (500, 30_000),
            steps: 400,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C20",
            monitors: || {
                vec![
                    Box::new(perp::Settle::default()),
                    Box::new(frame::Frame { only: &["perp_settle"] }),
                    Box::new(vault::Conservation { only: &["perp_settle_pnl", "perp_settle_fees"], ..Default::default() }),
                ]
            },
            weights: &[("deadline", 20.0), ("perp", 2.0), ("settle", 10.0), ("leverage", 2.0), ("funding", 2.0), ("price_walk", 2.0), ("time", 2.0)],
            cfg: perp_world,
            cases: &["test_perp_settle", "test_perp_settle_fees"],
            episodes: (500, 30_000),
            steps: 400,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C21",
            monitors: || {
                vec![
                    Box::new(tcs::Swaps::default()),
                    Box::new(safety::Safety { prop: "C21" }),
                    Box::new(limits::Limits::default()),
                    Box::new(frame::Frame { only: &["token_conditional_swap"] }),
                    Box::new(vault::Conservation { only: &["token_conditional_swap"], ..Default::default() }),
                ]
            },
            weights: &[("deadline", 14.0), ("tcs", 6.0), ("tcs_story", 8.0), ("edge_any", 10.0), ("price_walk", 2.0), ("time", 2.0)],
            cfg: nocfg,
            cases: &["test_token_conditional_swap", "test_reduce_only"],
            episodes: (500, 30_000),
            steps: 400,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C22",
            monitors: || vec![Box::new(prices::Prices)],
            weights: &[
                ("oracle_trouble", 20.0), ("update_index", 3.0), ("update_funding", 3.0), ("settle", 2.0), ("liq_", 2.0), ("buyback", 2.0), ("tcs_", 2.0),
                ("health_", 2.0), ("force", 2.0), ("collateral", 2.0), ("flash", 1.5), ("leverage", 1.5), ("crash", 1.5), ("serum_", 1.5), ("account_", 0.5),
            ],
            cfg: |c, r| {
                use rand::Rng;
                c.fallbacks = r.gen_bool(0.7);
                c.oracle_kinds = r.gen_bool(0.75);
                c.oracle_faults = 0.25;
                c.sers = c.sers.max(r.gen_range(0..2));
            },
            cases: &["test_stale_oracles", "test_health_check", "test_perp_settle", "test_margin_trade", "test_basic"],
            episodes: (400, 25_000),
            steps: 250,
            extra: Some(Extra { items: (3000, 200_000), run: crate::pricegen::run }),
            probes: &[],
        },
        Prop {
            id: "C23",
            monitors: || vec![Box::new(access::Access::default()), Box::new(frame::Frame { only: &[] })],
            weights: &[("deadline", 6.0), ("config_story", 20.0), ("freeze", 4.0), ("gate", 4.0), ("account_", 3.0), ("tcs_", 2.0), ("buyback", 2.0), ("fund_dao", 2.0), ("token_delist", 3.0), ("perp_delist", 3.0), ("serum_", 1.5), ("admin_", 3.0), ("insurance", 3.0), ("_edit", 3.0), ("trustless", 10.0), ("add_bank", 5.0), ("delegate_story", 40.0)],
            cfg: |c, _| {
                c.second_group = true;
                c.hostile = 0.1;
                c.initial_usd = 50_000.0;
            },
            cases: &[
                "test_alt", "test_basic", "test_delegate", "test_ix_gate_set", "test_serum", "test_perp", "test_perp_settle", "test_perp_settle_fees", "test_force_close",
                "test_token_conditional_swap", "test_liq_tokens", "test_bankrupt_tokens", "test_liq_perps_base_and_bankruptcy", "test_liq_perps_force_cancel", "test_liq_perps_bankruptcy",
                "test_margin_trade", "test_fees_buyback_with_mngo", "test_collateral_fees", "test_health_region", "test_stale_oracles", "test_position_lifetime",
            ],
            episodes: (300, 20_000),
            steps: 150,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C24",
            monitors: || {
                vec![
                    Box::new(lifecycle::Lifecycle::default()),
                    Box::new(ledger::Dust::default()),
                    Box::new(book::Agreement::default()),
                    Box::new(frame::Frame { only: &["account_c", "account_e", "account_s", "account_t", "deactivate", "open_orders"] }),
                ]
            },
            weights: &[("deadline", 6.0), ("account_", 8.0), ("account_story", 4.0), ("perp_deactivate", 6.0), ("wind_down", 4.0), ("serum_c", 3.0), ("tcs", 2.0), ("freeze", 0.3), ("crash", 1.5)],
            cfg: |c, r| {
                use rand::Rng;
                c.sers = c.sers.max(r.gen_range(0..3));
            },
            cases: &["test_position_lifetime", "test_basic"],
            episodes: (500, 30_000),
            steps: 400,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C25",
            monitors: || {
                vec![
                    Box::new(spot::Spot::default()),
                    Box::new(limits::Limits::default()),
                    Box::new(frame::Frame { only: &["serum3"] }),
                    Box::new(vault::Conservation { only: &["serum3"], ..Default::default() }),
                ]
            },
            weights: &[("serum", 6.0)],
            cfg: |c, r| {
                use rand::Rng;
                c.sers = c.sers.max(r.gen_range(1..3));
            },
            cases: &["test_serum"],
            episodes: (500, 30_000),
            steps: 500,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C26",
            monitors: || {
                vec![
                    Box::new(fees::Protocol::default()),
                    Box::new(fees::Accrual::default()),
                    Box::new(book::Matching { fees_only: true }),
                    Box::new(frame::Frame { only: &["token_charge_collateral", "account_buyback", "admin_", "group_withdraw"] }),
                    Box::new(vault::Conservation { only: &["token_charge_collateral_fees", "account_buyback_fees_with_mngo", "admin_token_withdraw_fees", "admin_perp_withdraw_fees"], ..Default::default() }),
                ]
            },
            weights: &[("deadline", 14.0), ("collateral", 8.0), ("buyback", 14.0), ("fund_dao", 6.0), ("admin_withdraw", 3.0), ("admin_perp", 3.0), ("insurance", 3.0), ("perp_trade", 2.0), ("leverage", 2.0), ("group_edit", 2.0), ("settle_fees", 3.0)],
            cfg: perp_world,
            cases: &["test_collateral_fees", "test_fees_buyback_with_mngo"],
            episodes: (500, 30_000),
            steps: 400,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C27",
            monitors: || vec![],
            weights: &[("serum", 2.0), ("perp_place", 2.0), ("perp_trade", 2.0)],
            cfg: |c, r| {
                use rand::Rng;
                c.sers = c.sers.max(r.gen_range(0..3));
                c.perps = c.perps.max(1);
            },
            cases: &[],
            episodes: (250, 15_000),
            steps: 400,
            extra: None,
            probes: &[(0.4, crate::maximums::maximums)],
        },
        Prop {
            id: "C32",
            monitors: || {
                vec![
                    Box::new(delist::Delist::default()),
                    Box::new(perp::Settle { only: &["perp_force_close_position"] }),
                    Box::new(frame::Frame { only: &["token_force", "perp_force_close"] }),
                    Box::new(vault::Conservation { only: &["token_force_close_borrows_with_token", "token_force_withdraw", "perp_force_close_position"], ..Default::default() }),
                ]
            },
            weights: &[("token_delist", 60.0), ("perp_delist", 30.0), ("force_close", 6.0), ("force_withdraw", 4.0), ("borrow", 3.0), ("leverage", 2.0), ("perp_trade", 2.0), ("add_bank", 2.0)],
            cfg: perp_world,
            cases: &["test_force_close", "test_reduce_only"],
            episodes: (400, 20_000),
            steps: 300,
            extra: None,
            probes: &[],
        },
        Prop {
            id: "C33",
            monitors: || {
                vec![
                    Box::new(config::Config::default()),
                    Box::new(frame::Frame { only: &["token_edit", "perp_edit", "group_edit", "token_register", "token_add_bank", "ix_gate", "perp_create", "serum3_edit", "serum3_register"] }),
                ]
            },
            weights: &[("config_story", 6000.0), ("listing_story", 800.0), ("token_edit", 8.0), ("security_edit", 8.0), ("perp_edit", 8.0), ("group_edit", 10.0), ("gate", 3.0), ("trustless", 20.0), ("add_bank", 10.0), ("leverage", 2.0)],
            cfg: nocfg,
            cases: &["test_basic", "test_ix_gate_set", "test_reduce_only"],
            episodes: (300, 20_000),
            steps: 150,
            extra: None,
            probes: &[],
        },
    ]
}

fn monitors_of(id: &str) -> Vec<Box<dyn Monitor>> {
    (props().into_iter().find(|p| p.id == id).unwrap().monitors)()
}
pub fn all_monitors() -> Vec<Box<dyn Monitor>> {
    let only = std::env::var("PROP").unwrap_or_default();
    if only == "LEARN" {
        return vec![Box::new(frame::Learn::default())];
    }
    if only == "FRAME" {
        return vec![Box::new(frame::Frame { only: &[] })];
    }
    props().into_iter().filter(|p| only.is_empty() || p.id == only).flat_map(|p| (p.monitors)()).collect()
}
