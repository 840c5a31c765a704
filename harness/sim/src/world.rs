//! Random worlds: groups with varied tokens, markets, users and accounts.
use crate::mon::Hub;
use crate::pt::mango_setup::Token;
use crate::pt::*;
use crate::st::{MAcc, State};
use crate::svm::{Account, TxRecord};
use mango_v4::accounts_ix::InterestRateParams;
use mango_v4::state::*;
use rand::prelude::*;
use rand_chacha::ChaCha8Rng;
use solana_program::instruction::Instruction;
use solana_program::program_option::COption;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone)]
pub struct TokW {
    pub t: Token,
    pub idx: u16,
    pub mint_i: usize,
    pub dec: u8,
    pub price: f64,
    pub fallback: Option<Pubkey>,
    pub banks: Vec<Pubkey>,
    pub vaults: Vec<Pubkey>,
}
#[derive(Clone)]
pub struct PerpW {
    pub market: Pubkey,
    pub index: u16,
    pub oracle: Pubkey,
    pub own_oracle: bool,
    pub price: f64,
    pub base_tok: usize,
    pub settle: u16,
    pub base_lot: i64,
    pub quote_lot: i64,
}
#[derive(Clone)]
pub struct SerW {
    pub market: Pubkey,
    pub cookie: SpotMarketCookie,
    pub base: usize,
    pub quote: usize,
}
#[derive(Clone)]
pub struct UserW {
    pub key: TestKeypair,
    pub atas: Vec<Pubkey>,
    pub others: Vec<Pubkey>,
}
#[derive(Clone, Copy)]
pub struct AccW {
    pub key: Pubkey,
    pub owner: usize,
    pub num: u32,
}
#[derive(Clone)]
pub struct Grp {
    pub group: Pubkey,
    pub admin: TestKeypair,
    pub security: TestKeypair,
    pub fast: TestKeypair,
    pub insurance_vault: Pubkey,
    pub toks: Vec<TokW>,
    pub perps: Vec<PerpW>,
    pub sers: Vec<SerW>,
    pub accs: Vec<AccW>,
    pub dao: Option<Pubkey>,
    pub mngo: usize,
}
#[derive(Clone)]
pub struct Tx {
    pub ixs: Vec<Instruction>,
    pub signers: Vec<TestKeypair>,
}
impl Tx {
    pub fn one(x: (Instruction, Vec<TestKeypair>)) -> Tx {
        Tx { ixs: vec![x.0], signers: x.1 }
    }
    pub fn push(&mut self, x: (Instruction, Vec<TestKeypair>)) {
        self.ixs.push(x.0);
        self.signers.extend(x.1);
    }
    pub fn join(mut self, o: Tx) -> Tx {
        self.ixs.extend(o.ixs);
        self.signers.extend(o.signers);
        self
    }
}

/// what a world should look like
#[derive(Clone, Debug)]
pub struct Cfg {
    pub tokens: usize,
    pub perps: usize,
    pub sers: usize,
    pub users: usize,
    /// random fees, weights, limits instead of moderate ones
    pub exotic: bool,
    pub limits: bool,
    pub fees: bool,
    pub fallbacks: bool,
    /// oracle accounts of every kind, not only stubs
    pub oracle_kinds: bool,
    /// chance that a transaction is first tried with a bad oracle
    pub oracle_faults: f64,
    /// oracle of the same magnitude everywhere
    pub flat_prices: bool,
    pub second_group: bool,
    /// chance that a transaction gets tampered with
    pub hostile: f64,
    pub initial_usd: f64,
    pub insurance_usd: f64,
}
impl Cfg {
    pub fn random(r: &mut ChaCha8Rng) -> Cfg {
        Cfg {
            tokens: r.gen_range(2..6),
            perps: r.gen_range(1..3),
            sers: r.gen_range(0..3),
            users: r.gen_range(3..5),
            exotic: r.gen_bool(0.4),
            limits: r.gen_bool(0.4),
            fees: r.gen_bool(0.7),
            fallbacks: r.gen_bool(0.3),
            oracle_kinds: false,
            oracle_faults: 0.0,
            flat_prices: r.gen_bool(0.2),
            second_group: r.gen_bool(0.25),
            hostile: 0.05,
            initial_usd: *[1000.0, 50_000.0].choose(r).unwrap(),
            insurance_usd: *[0.0, 50.0, 100_000.0].choose(r).unwrap(),
        }
    }
}

pub struct World {
    pub solana: Arc<SolanaCookie>,
    pub serum: Arc<SerumCookie>,
    pub rng: ChaCha8Rng,
    pub cfg: Cfg,
    pub hub: Rc<Hub>,
    pub mints: Vec<MintCookie>,
    pub users: Vec<UserW>,
    pub attacker: UserW,
    pub groups: Vec<Grp>,
    /// the group actions currently aim at
    pub g: usize,
    pub log: Vec<String>,
    pub steps: u64,
    pub next_client_id: u64,
    pub next_acc_num: u32,
    /// the account and perp market most actions go for at the moment
    pub focus: Option<(Option<Pubkey>, Option<u16>)>,
}

fn lu(r: &mut ChaCha8Rng, lo: f64, hi: f64) -> f64 {
    (r.gen_range(lo.ln()..hi.ln())).exp()
}

impl World {
    pub fn new(seed: u64, cfg: Cfg, hub: Rc<Hub>) -> World {
        crate::svm::reset_keys(seed & 0xff_ffff);
        let mut rng = ChaCha8Rng::seed_from_u64(seed);
        let mut svm = crate::svm::Svm::new();
        svm.clock.unix_timestamp = 1_700_000_000 + rng.gen_range(0..1_000_000);
        svm.clock.slot = 1_000_000;
        let serum_program = crate::svm::new_key();
        svm.add_serum_program(serum_program);
        let mut mints = vec![];
        for i in 0..cfg.tokens + 2 {
            let decimals = if i == 0 { 6 } else { *[6u8, 6, 9, 8, 5, 2, 0].choose(&mut rng).unwrap() };
            let m = MintCookie {
                index: i,
                decimals,
                unit: 10f64.powi(decimals as i32),
                base_lot: 100.0,
                quote_lot: 10.0,
                pubkey: crate::svm::new_key(),
                authority: TestKeypair::new(),
            };
            let mut a = Account::new(1 << 40, spl_token::state::Mint::LEN, &spl_token::id());
            spl_token::state::Mint {
                is_initialized: true,
                mint_authority: COption::Some(m.authority.pubkey()),
                decimals,
                ..Default::default()
            }
            .pack_into_slice(&mut a.data);
            svm.set(m.pubkey, a);
            mints.push(m);
        }
        let solana = Arc::new(SolanaCookie::new(svm));
        *solana.observers.borrow_mut() = vec![hub.clone()];
        hub.reset_state();
        let serum = Arc::new(SerumCookie { solana: solana.clone(), program_id: serum_program });
        let attacker = UserW { key: TestKeypair::new(), atas: vec![], others: vec![] };
        let mut w = World {
            solana,
            serum,
            rng,
            cfg,
            hub,
            mints,
            users: vec![],
            attacker,
            groups: vec![],
            g: 0,
            log: vec![],
            steps: 0,
            next_client_id: 1,
            next_acc_num: 0,
            focus: None,
        };
        w.users = (0..w.cfg.users).map(|_| w.make_user(1_000_000_000_000_000)).collect();
        w.attacker = w.make_user(1_000_000_000_000);
        w.make_group(w.cfg.tokens, w.cfg.perps, w.cfg.sers);
        if w.cfg.second_group {
            w.make_group(2, 1, 0);
        }
        for g in 0..w.groups.len() {
            w.g = g;
            w.fund_accounts();
        }
        w.g = 0;
        if w.cfg.oracle_kinds {
            w.quote_feeds();
            for _ in 0..w.sources().len() {
                crate::feeds::oracle_kind(&mut w);
            }
        }
        w
    }

    /// a mint nobody has listed
    pub fn fresh_mint(&mut self) -> Pubkey {
        let key = crate::svm::new_key();
        let decimals = self.rng.gen_range(0..10);
        let mut a = Account::new(1 << 40, spl_token::state::Mint::LEN, &spl_token::id());
        spl_token::state::Mint { is_initialized: true, decimals, ..Default::default() }.pack_into_slice(&mut a.data);
        self.solana.set_raw_account(key, a);
        key
    }
    pub fn raw_token_account(&mut self, mint: Pubkey, owner: Pubkey, amount: u64, key: Pubkey) {
        let mut a = Account::new(1 << 40, spl_token::state::Account::LEN, &spl_token::id());
        spl_token::state::Account {
            mint,
            owner,
            amount,
            state: spl_token::state::AccountState::Initialized,
            ..Default::default()
        }
        .pack_into_slice(&mut a.data);
        self.solana.set_raw_account(key, a);
    }
    pub fn make_user(&mut self, amount: u64) -> UserW {
        let key = TestKeypair::new();
        self.solana.set_raw_account(
            key.pubkey(),
            Account::new(1 << 50, 0, &solana_program::system_program::id()),
        );
        let mut atas = vec![];
        let mut others = vec![];
        for m in self.mints.clone() {
            let ata = anchor_spl::associated_token::get_associated_token_address(&key.pubkey(), &m.pubkey);
            self.raw_token_account(m.pubkey, key.pubkey(), amount, ata);
            atas.push(ata);
            let o = crate::svm::new_key();
            self.raw_token_account(m.pubkey, key.pubkey(), amount / 1000, o);
            others.push(o);
        }
        UserW { key, atas, others }
    }

    fn make_group(&mut self, n_tok: usize, n_perp: usize, n_ser: usize) {
        let admin = TestKeypair::new();
        let payer = self.users[0].key;
        for k in [admin.pubkey()] {
            self.solana
                .set_raw_account(k, Account::new(1 << 50, 0, &solana_program::system_program::id()));
        }
        let mints = self.mints[..n_tok].to_vec();
        let mut prices = std::collections::HashMap::new();
        for (i, m) in mints.iter().enumerate() {
            let ui = if i == 0 || self.cfg.flat_prices {
                *[1.0, 1.0, 1.0, 0.98, 1.03].choose(&mut self.rng).unwrap()
            } else {
                lu(&mut self.rng, 1e-2, 3e4)
            };
            prices.insert(m.pubkey, ui * 10f64.powi(6 - m.decimals as i32));
        }
        let setup = crate::pt::mango_setup::GroupWithTokensConfig {
            admin,
            payer,
            mints: mints.clone(),
            prices: prices.clone(),
            zero_token_is_quote: true,
        };
        let s = self.solana.clone();
        let gt = setup.create(&s);
        let mut toks = vec![];
        for (i, t) in gt.tokens.iter().enumerate() {
            let mi: MintInfo = s.get_account(t.mint_info);
            let banks: Vec<Pubkey> = mi.banks().to_vec();
            let vaults: Vec<Pubkey> =
                mi.vaults.iter().copied().filter(|v| *v != Pubkey::default()).collect();
            toks.push(TokW {
                t: t.clone(),
                idx: t.index,
                mint_i: i,
                dec: mints[i].decimals,
                price: prices[&mints[i].pubkey],
                fallback: None,
                banks,
                vaults,
            });
        }
        let security = TestKeypair::new();
        let fast = TestKeypair::new();
        for k in [security.pubkey(), fast.pubkey()] {
            self.solana
                .set_raw_account(k, Account::new(1 << 50, 0, &solana_program::system_program::id()));
        }
        let mngo = n_tok - 1;
        self.groups.push(Grp {
            group: gt.group,
            admin,
            security,
            fast,
            insurance_vault: gt.insurance_vault,
            toks,
            perps: vec![],
            sers: vec![],
            accs: vec![],
            dao: None,
            mngo,
        });
        self.g = self.groups.len() - 1;
        let iv = self.groups[self.g].insurance_vault;
        let im = mints[0].pubkey;
        let grp = self.groups[self.g].group;
        let amt = (self.cfg.insurance_usd * 1e6) as u64;
        self.raw_token_account(im, grp, amt, iv);
        send_tx(
            &s,
            GroupEdit {
                group: grp,
                admin,
                options: mango_v4::instruction::GroupEdit {
                    security_admin_opt: Some(security.pubkey()),
                    fast_listing_admin_opt: Some(fast.pubkey()),
                    allowed_fast_listings_per_interval_opt: Some(2),
                    deposit_limit_quote_opt: None,
                    buyback_fees_opt: Some(true),
                    mngo_token_index_opt: Some(mngo as u16),
                    collateral_fee_interval_opt: Some(86_400),
                    buyback_fees_expiry_interval_opt: Some(5 * 86_400),
                    ..group_edit_instruction_default()
                },
            },
        )
        .unwrap();
        for i in 0..n_tok {
            self.configure_token(i);
        }
        for i in 0..n_perp {
            self.make_perp(i);
        }
        for i in 0..n_ser.min(n_tok - 1) {
            self.make_serum(i);
        }
    }

    pub fn grp(&self) -> &Grp {
        &self.groups[self.g]
    }

    fn configure_token(&mut self, i: usize) {
        let t = self.grp().toks[i].clone();
        let (group, admin) = (self.grp().group, self.grp().admin);
        let c = self.cfg.clone();
        let r = &mut self.rng;
        let mut o = token_edit_instruction_default();
        if i > 0 {
            let ia: f32 = r.gen_range(0.3..0.9);
            let ma: f32 = ia + r.gen_range(0.0..(0.98f32 - ia));
            let ml: f32 = r.gen_range(1.01..1.3);
            let il: f32 = ml + r.gen_range(0.0..0.4);
            o.init_asset_weight_opt = Some(if r.gen_bool(0.1) { 0.0 } else { ia });
            o.maint_asset_weight_opt = Some(ma);
            o.maint_liab_weight_opt = Some(ml);
            o.init_liab_weight_opt = Some(il);
        }
        let mut zero_fees = false;
        if c.fees {
            o.liquidation_fee_opt = Some(r.gen_range(0.0..0.1));
            o.platform_liquidation_fee_opt = Some(r.gen_range(0.0..0.05));
            o.loan_origination_fee_rate_opt = Some(r.gen_range(0.0..0.01));
            o.loan_fee_rate_opt = Some(r.gen_range(0.0..0.3));
            o.token_conditional_swap_maker_fee_rate_opt = Some(r.gen_range(0.0..0.02));
            o.token_conditional_swap_taker_fee_rate_opt = Some(r.gen_range(0.0..0.02));
            o.flash_loan_swap_fee_rate_opt = Some(r.gen_range(0.0..0.02));
            o.collateral_fee_per_day_opt = Some(if r.gen_bool(0.5) { r.gen_range(0.0..0.01) } else { 0.0 });
        } else {
            zero_fees = r.gen_bool(0.5);
        }
        if zero_fees {
            o.loan_origination_fee_rate_opt = Some(0.0);
        }
        // by default the tests' vault ratio keeps a fifth in the vault; free it most of the time
        o.min_vault_to_deposits_ratio_opt =
            Some(if c.limits { r.gen_range(0.0..0.5) } else { 0.0 });
        if c.limits {
            o.net_borrow_limit_per_window_quote_opt = Some(*[-1, 1_000_000_000, 50_000_000_000].choose(r).unwrap());
            o.net_borrow_limit_window_size_ts_opt = Some(*[3600u64, 86_400].choose(r).unwrap());
            o.reset_net_borrow_limit = true;
            if r.gen_bool(0.5) {
                let usd = lu(r, 1e4, 1e6);
                o.deposit_limit_opt = Some((usd * 1e6 / t.price).max(1.0) as u64);
            }
        }
        if c.exotic {
            if r.gen_bool(0.5) {
                o.deposit_weight_scale_start_quote_opt = Some(lu(r, 1e9, 1e12));
            }
            if r.gen_bool(0.5) {
                o.borrow_weight_scale_start_quote_opt = Some(lu(r, 1e9, 1e12));
            }
            o.interest_rate_params_opt = Some(InterestRateParams {
                adjustment_factor: r.gen_range(0.0..0.1),
                util0: r.gen_range(0.05..0.5),
                rate0: r.gen_range(0.0..0.2),
                util1: r.gen_range(0.5..0.95),
                rate1: r.gen_range(0.0..1.0),
                max_rate: r.gen_range(0.0..5.0),
            });
            o.interest_curve_scaling_opt = Some(r.gen_range(1.0..5.0));
            o.interest_target_utilization_opt = Some(r.gen_range(0.0..1.0));
            o.zero_util_rate_opt = Some(r.gen_range(0.0..0.05));
            o.stable_price_delay_interval_seconds_opt = Some(*[60u32, 600, 3600].choose(r).unwrap());
            o.stable_price_growth_limit_opt = Some(*[0.0003f32, 0.01, 0.0].choose(r).unwrap());
            o.stable_price_delay_growth_limit_opt = Some(*[0.06f32, 0.5].choose(r).unwrap());
            o.oracle_config_opt = Some(OracleConfigParams {
                conf_filter: *[0.1f32, 0.01, 1.0].choose(r).unwrap(),
                max_staleness_slots: *[None, Some(100u32), Some(1000)].choose(r).unwrap(),
            });
        }
        let fb = if c.fallbacks && i > 0 {
            Some(self.make_oracle(i, t.price * 1.01))
        } else {
            None
        };
        o.set_fallback_oracle = fb.is_some();
        let s = self.solana.clone();
        send_tx(
            &s,
            TokenEdit {
                group,
                admin,
                mint: t.t.mint.pubkey,
                fallback_oracle: fb.unwrap_or_default(),
                options: o,
            },
        )
        .unwrap();
        let g = self.g;
        self.groups[g].toks[i].fallback = fb;
    }

    pub fn make_oracle(&mut self, tok: usize, price: f64) -> Pubkey {
        let (group, admin) = (self.grp().group, self.grp().admin);
        let mint = self.grp().toks[tok].t.mint.pubkey;
        let k = TestKeypair::new();
        let payer = self.users[0].key;
        send_tx(&self.solana, StubOracleCreate { oracle: k, group, mint, admin, payer }).unwrap();
        send_tx(
            &self.solana,
            StubOracleSetInstruction { group, admin, mint, price, oracle: k.pubkey() },
        )
        .unwrap();
        k.pubkey()
    }

    fn make_perp(&mut self, i: usize) {
        let nt = self.grp().toks.len();
        let bt = if nt > 1 { 1 + i % (nt - 1) } else { 0 };
        let t = self.grp().toks[bt].clone();
        let (group, admin) = (self.grp().group, self.grp().admin);
        let own_oracle = self.rng.gen_bool(0.6);
        let price = t.price;
        let oracle = if own_oracle { self.make_oracle(bt, price) } else { t.t.oracle };
        let payer = self.users[0].key;
        let s = self.solana.clone();
        let r = &mut self.rng;
        let quote_lot = *[1i64, 10, 100].choose(r).unwrap();
        let target = lu(r, 100.0, 5000.0);
        let base_lot = ((target * quote_lot as f64 / price).round() as i64).max(1);
        let settle = if nt > 1 && r.gen_bool(0.12) { 1u16 } else { 0 };
        let c = self.cfg.clone();
        let mut ins = PerpCreateMarketInstruction::with_new_book_and_queue(&s, &t.t);
        let ia: f32 = r.gen_range(0.5..0.95);
        let ma: f32 = ia + r.gen_range(0.0..(0.99 - ia));
        let ml: f32 = r.gen_range(1.01..1.2);
        let il: f32 = ml + r.gen_range(0.0..0.3);
        ins.group = group;
        ins.admin = admin;
        ins.payer = payer;
        ins.oracle = oracle;
        ins.perp_market_index = i as u16;
        ins.settle_token_index = settle;
        ins.quote_lot_size = quote_lot;
        ins.base_lot_size = base_lot;
        ins.maint_base_asset_weight = ma;
        ins.init_base_asset_weight = ia;
        ins.maint_base_liab_weight = ml;
        ins.init_base_liab_weight = il;
        let mo: f32 = *[0.0f32, 0.5, 0.9, 1.0].choose(r).unwrap();
        ins.maint_overall_asset_weight = mo;
        ins.init_overall_asset_weight = if r.gen_bool(0.5) { 0.0 } else { mo * 0.8 };
        ins.base_liquidation_fee = if c.fees { r.gen_range(0.0..0.05) } else { 0.02 };
        ins.platform_liquidation_fee = if c.fees { r.gen_range(0.0..0.03) } else { 0.0 };
        ins.positive_pnl_liquidation_fee = if r.gen_bool(0.5) { r.gen_range(0.0..0.05) } else { 0.0 };
        let taker: f32 = if c.fees { r.gen_range(0.0..0.01) } else { 0.0 };
        ins.taker_fee = taker;
        ins.maker_fee = if c.fees { r.gen_range(-taker..0.005) } else { 0.0 };
        ins.fee_penalty = if c.fees { r.gen_range(0.0..20.0) } else { 0.0 };
        ins.group_insurance_fund = r.gen_bool(0.7);
        ins.settle_fee_flat = if c.fees { r.gen_range(0.0..2000.0) } else { 0.0 };
        ins.settle_fee_amount_threshold = r.gen_range(0.0..1_000_000.0);
        ins.settle_fee_fraction_low_health = if c.fees { r.gen_range(0.0..0.05) } else { 0.0 };
        ins.settle_pnl_limit_factor = *[-1.0f32, 0.2, 1.0, 2.0].choose(r).unwrap();
        ins.settle_pnl_limit_window_size_ts = *[3600u64, 86_400].choose(r).unwrap();
        let accounts = send_tx(&s, ins).unwrap();
        let market = accounts.perp_market;
        let mut e = perp_edit_instruction_default();
        let r = &mut self.rng;
        e.min_funding_opt = Some(-r.gen_range(0.0..0.2f32));
        e.max_funding_opt = Some(r.gen_range(0.0..0.2f32));
        e.impact_quantity_opt = Some(r.gen_range(1..200));
        if c.exotic {
            e.stable_price_growth_limit_opt = Some(*[0.0003f32, 0.01, 0.0].choose(r).unwrap());
        }
        let ix = self.perp_edit_ix(market, e, admin);
        self.run(Tx::one(ix));
        let g = self.g;
        self.groups[g].perps.push(PerpW {
            market,
            index: i as u16,
            oracle,
            own_oracle,
            price,
            base_tok: bt,
            settle,
            base_lot,
            quote_lot,
        });
    }
    pub fn perp_edit_ix(
        &self,
        market: Pubkey,
        e: mango_v4::instruction::PerpEditMarket,
        admin: TestKeypair,
    ) -> (Instruction, Vec<TestKeypair>) {
        let m: PerpMarket = self.solana.get_account(market);
        let accounts = mango_v4::accounts::PerpEditMarket {
            group: m.group,
            admin: admin.pubkey(),
            perp_market: market,
            oracle: m.oracle,
        };
        (make_instruction(mango_v4::id(), &accounts, &e), vec![admin])
    }

    fn make_serum(&mut self, i: usize) {
        let (base, quote) = (1 + i, 0usize);
        let (b, q) = (self.grp().toks[base].clone(), self.grp().toks[quote].clone());
        let (group, admin) = (self.grp().group, self.grp().admin);
        let payer = self.users[0].key;
        let pc_lot = *[1u64, 10].choose(&mut self.rng).unwrap();
        // price in lots about 1000
        let coin_lot = ((1000.0 * pc_lot as f64 / b.price).round() as u64).max(1);
        let cookie =
            self.serum.list_spot_market_lots(&b.t.mint, &q.t.mint, coin_lot, pc_lot);
        let accounts = send_tx(
            &self.solana,
            Serum3RegisterMarketInstruction {
                group,
                admin,
                payer,
                serum_program: self.serum.program_id,
                serum_market_external: cookie.market,
                market_index: i as u16,
                base_bank: b.t.bank,
                quote_bank: q.t.bank,
            },
        )
        .unwrap();
        let band = *[1000.0f32, 2.0, 5.0].choose(&mut self.rng).unwrap();
        send_tx(
            &self.solana,
            Serum3EditMarketInstruction {
                group,
                admin,
                market: accounts.serum_market,
                options: mango_v4::instruction::Serum3EditMarket {
                    oracle_price_band_opt: Some(band),
                    ..serum3_edit_market_instruction_default()
                },
            },
        )
        .unwrap();
        let g = self.g;
        self.groups[g].sers.push(SerW { market: accounts.serum_market, cookie, base, quote });
    }

    pub fn new_account(&mut self, owner: usize, counts: (u8, u8, u8, u8, u8)) -> Option<Pubkey> {
        let num = self.next_acc_num;
        self.next_acc_num += 1;
        let group = self.grp().group;
        let key = self.users[owner].key;
        let a = send_tx(
            &self.solana,
            AccountCreateInstruction {
                account_num: num,
                token_count: counts.0,
                serum3_count: counts.1,
                perp_count: counts.2,
                perp_oo_count: counts.3,
                token_conditional_swap_count: counts.4,
                group,
                owner: key,
                payer: key,
            },
        )
        .ok()?;
        let g = self.g;
        self.groups[g].accs.push(AccW { key: a.account, owner, num });
        Some(a.account)
    }

    fn fund_accounts(&mut self) {
        let nu = self.users.len();
        for u in 0..nu {
            let n = if self.g == 0 { self.rng.gen_range(1..3) } else { 1 };
            for _ in 0..n {
                let oo = self.cfg_oo();
                let Some(a) = self.new_account(u, (8, 4, 4, oo, 4)) else { continue };
                let nt = self.grp().toks.len();
                for ti in 0..nt {
                    if u > 0 && self.rng.gen_bool(0.4) {
                        continue;
                    }
                    let t = self.grp().toks[ti].clone();
                    let scale = if u == 0 { 4.0 } else { 1.0 };
                    let usd = self.cfg.initial_usd * scale * self.rng.gen_range(0.2..1.5);
                    let amount = (usd * 1e6 / t.price).min(2e14).max(1.0) as u64;
                    let (ta, tk) = (self.users[u].atas[t.mint_i], self.users[u].key);
                    let _ = send_tx(
                        &self.solana,
                        TokenDepositInstruction {
                            amount,
                            reduce_only: false,
                            account: a,
                            owner: tk,
                            token_account: ta,
                            token_authority: tk,
                            bank_index: self.rng.gen_range(0..2),
                        },
                    );
                }
            }
        }
        // the dao account for fee buybacks
        if let Some(d) = self.new_account(0, (8, 0, 0, 0, 0)) {
            let g = self.g;
            self.groups[g].accs.pop();
            self.groups[g].dao = Some(d);
            let (group, admin, mngo) = (self.grp().group, self.grp().admin, self.grp().mngo);
            let bonus = self.rng.gen_range(1.0..1.3f32);
            let _ = send_tx(
                &self.solana,
                GroupEditFeeParameters {
                    group,
                    admin,
                    fees_mngo_bonus_factor: bonus,
                    fees_mngo_token_index: mngo as u16,
                    fees_swap_mango_account: d,
                },
            );
        }
    }
    fn cfg_oo(&mut self) -> u8 {
        *[4u8, 8, 16].choose(&mut self.rng).unwrap()
    }

    // ------------------------------------------------------------------ running

    pub fn build<CI: ClientInstruction>(&self, ci: CI) -> Option<(Instruction, Vec<TestKeypair>)> {
        quiet(|| {
            let (_, ix) = ci.to_instruction(&*self.solana);
            (ix, ci.signers())
        })
    }
    pub fn run(&mut self, tx: Tx) -> TxRecord {
        self.solana.run(&tx.ixs, &tx.signers)
    }
    pub fn send<CI: ClientInstruction>(&mut self, ci: CI) -> bool {
        match self.build(ci) {
            Some(x) => self.run(Tx::one(x)).ok(),
            None => false,
        }
    }
    pub fn sync(&self) {
        self.hub.sync(&self.solana.context.borrow().accounts);
    }
    pub fn with_state<R>(&self, f: impl FnOnce(&State) -> R) -> R {
        self.sync();
        self.hub.with_state(f)
    }
    pub fn macc(&self, k: &Pubkey) -> Option<Rc<MAcc>> {
        self.with_state(|s| s.accounts.get(k).cloned())
    }

    pub fn now(&self) -> u64 {
        self.solana.clock().unix_timestamp as u64
    }
    pub fn advance(&mut self, secs: u64) {
        let mut s = self.solana.context.borrow_mut();
        s.clock.unix_timestamp += secs as i64;
        s.clock.slot += (secs as f64 / 0.45) as u64 + 1;
        drop(s);
        if self.cfg.oracle_kinds {
            self.republish();
        }
    }
}

thread_local! {
    pub static QUIET: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
/// builders of instructions panic when what they look up does not exist
pub fn quiet<R>(f: impl FnOnce() -> R) -> Option<R> {
    install_quiet_hook();
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    QUIET.with(|q| q.set(old));
    r
}
pub fn install_quiet_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        crate::svm::init_process();
        let prev = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if !QUIET.with(|q| q.get()) {
                prev(i)
            }
        }));
    });
}
