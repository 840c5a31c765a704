//! Short cuts for demonstration scenarios.
use crate::prelude::*;
use crate::st::{f, State};
use std::sync::Arc;

pub struct Env {
    pub ctx: TestContext,
    pub solana: Arc<SolanaCookie>,
    pub admin: TestKeypair,
    pub owner: TestKeypair,
    pub payer: TestKeypair,
    pub group: Pubkey,
    pub insurance_vault: Pubkey,
    pub tokens: Vec<crate::pt::mango_setup::Token>,
    /// an account holding a lot of every token, to lend from
    pub vault: Pubkey,
    pub payer_atas: Vec<Pubkey>,
    pub perps: Vec<Pubkey>,
}
pub const BIG: u64 = 10_000_000_000;
impl Env {
    /// every price 1
    pub fn new(n: usize) -> Env {
        let mut b = TestContextBuilder::new();
        b.test().set_compute_max_units(1_400_000);
        let ctx = b.start_default();
        let solana = ctx.solana.clone();
        let admin = TestKeypair::new();
        let owner = ctx.users[0].key;
        let payer = ctx.users[1].key;
        let mints = &ctx.mints[0..n];
        let GroupWithTokens { group, tokens, insurance_vault, .. } =
            GroupWithTokensConfig { admin, payer, mints: mints.to_vec(), ..GroupWithTokensConfig::default() }
                .create(&solana);
        let vault = create_funded_account(&solana, group, owner, 99, &ctx.users[1], mints, BIG, 0);
        let payer_atas = ctx.users[1].token_accounts.clone();
        Env { solana, admin, owner, payer, group, insurance_vault, tokens, vault, payer_atas, perps: vec![], ctx }
    }
    pub fn account(&self, num: u32) -> Pubkey {
        self.send(AccountCreateInstruction {
            account_num: num,
            group: self.group,
            owner: self.owner,
            payer: self.payer,
            ..Default::default()
        });
        Pubkey::find_program_address(
            &[
                b"MangoAccount".as_ref(),
                self.group.as_ref(),
                self.owner.pubkey().as_ref(),
                &num.to_le_bytes(),
            ],
            &mango_v4::id(),
        )
        .0
    }
    pub fn send<I: ClientInstruction>(&self, i: I) {
        send_tx(&self.solana, i).unwrap();
    }
    pub fn try_send<I: ClientInstruction>(&self, i: I) -> bool {
        send_tx(&self.solana, i).is_ok()
    }
    pub fn deposit_to(&self, account: Pubkey, tok: usize, amount: u64, bank_index: usize) {
        self.send(TokenDepositInstruction {
            amount,
            reduce_only: false,
            account,
            owner: self.owner,
            token_account: self.payer_atas[tok],
            token_authority: self.payer,
            bank_index,
        });
    }
    pub fn deposit(&self, account: Pubkey, tok: usize, amount: u64) {
        self.deposit_to(account, tok, amount, 0)
    }
    pub fn withdraw_from(&self, account: Pubkey, tok: usize, amount: u64, bank_index: usize) -> bool {
        self.try_send(TokenWithdrawInstruction {
            amount,
            allow_borrow: true,
            account,
            owner: self.owner,
            token_account: self.payer_atas[tok],
            bank_index,
        })
    }
    pub fn withdraw(&self, account: Pubkey, tok: usize, amount: u64) -> bool {
        self.withdraw_from(account, tok, amount, 0)
    }
    pub fn price(&self, tok: usize, p: f64) {
        set_bank_stub_oracle_price(&self.solana, self.group, &self.tokens[tok], self.admin, p);
    }
    pub fn edit_token(&self, tok: usize, g: impl FnOnce(&mut mango_v4::instruction::TokenEdit)) {
        let mut options = token_edit_instruction_default();
        g(&mut options);
        self.send(TokenEdit {
            group: self.group,
            admin: self.admin,
            mint: self.tokens[tok].mint.pubkey,
            fallback_oracle: Pubkey::default(),
            options,
        });
    }
    pub fn bank(&self, tok: usize) -> Bank {
        self.solana.get_account(self.tokens[tok].bank)
    }
    pub fn bank1(&self, tok: usize) -> Bank {
        self.solana.get_account(self.tokens[tok].bank1)
    }
    pub fn pos(&self, account: Pubkey, tok: usize) -> f64 {
        let a = get_mango_account(&self.solana, account);
        let b = self.bank(tok);
        a.token_position(self.tokens[tok].index).map_or(0.0, |p| {
            f(p.indexed_position) * f(if p.indexed_position.is_positive() { b.deposit_index } else { b.borrow_index })
        })
    }
    pub fn state(&self) -> State {
        let mut s = State::default();
        s.sync(&self.solana.context.borrow().accounts);
        s
    }
    /// what backs a token minus what can be claimed of it
    pub fn surplus(&self, tok: usize) -> f64 {
        let s = self.state();
        let idx = self.tokens[tok].index;
        let mut v = 0.0;
        for b in s.banks.values().filter(|b| b.group == self.group && b.token_index == idx) {
            v += s.tok_amount(&b.vault) as f64 + f(b.indexed_borrows) * f(b.borrow_index)
                - f(b.indexed_deposits) * f(b.deposit_index)
                - f(b.collected_fees_native)
                + b.fees_withdrawn as f64
                - f(b.dust);
        }
        for p in s.perps.values().filter(|p| p.settle_token_index == idx) {
            v -= f(p.fees_settled) - p.fees_withdrawn as f64;
        }
        v
    }
    /// market `perps.len()`, base lot 100, quote lot 10, oracle = the token's
    pub fn perp(&mut self, tok: usize, g: impl FnOnce(&mut PerpCreateMarketInstruction)) -> Pubkey {
        let mut i = PerpCreateMarketInstruction {
            group: self.group,
            admin: self.admin,
            payer: self.payer,
            perp_market_index: self.perps.len() as u16,
            quote_lot_size: 10,
            base_lot_size: 100,
            maint_base_asset_weight: 0.975,
            init_base_asset_weight: 0.95,
            maint_base_liab_weight: 1.025,
            init_base_liab_weight: 1.05,
            base_liquidation_fee: 0.012,
            maker_fee: 0.0002,
            taker_fee: 0.000,
            settle_pnl_limit_factor: -1.0,
            settle_pnl_limit_window_size_ts: 24 * 60 * 60,
            ..PerpCreateMarketInstruction::with_new_book_and_queue(&self.solana, &self.tokens[tok])
        };
        g(&mut i);
        let m = send_tx(&self.solana, i).unwrap().perp_market;
        self.perps.push(m);
        m
    }
    pub fn market(&self, i: usize) -> PerpMarket {
        self.solana.get_account(self.perps[i])
    }
    pub fn perp_order(&self, i: usize, account: Pubkey, side: mango_v4::state::Side, price_lots: i64, lots: i64) -> bool {
        self.try_send(PerpPlaceOrderInstruction {
            account,
            perp_market: self.perps[i],
            owner: self.owner,
            side,
            price_lots,
            max_base_lots: lots,
            ..PerpPlaceOrderInstruction::default()
        })
    }
    pub fn consume(&self, i: usize, accounts: Vec<Pubkey>) {
        self.send(PerpConsumeEventsInstruction { perp_market: self.perps[i], mango_accounts: accounts });
    }
    pub fn fund_insurance(&self, amount: u64) {
        let mut tx = ClientTransaction::new(&self.solana);
        tx.add_instruction_direct(
            spl_token::instruction::transfer(
                &spl_token::ID,
                &self.payer_atas[0],
                &self.insurance_vault,
                &self.payer.pubkey(),
                &[&self.payer.pubkey()],
                amount,
            )
            .unwrap(),
        );
        tx.add_signer(self.payer);
        tx.send().unwrap();
    }
    pub fn advance(&self, secs: i64) {
        let mut c = self.solana.clock();
        c.unix_timestamp += secs;
        c.slot += 1 + secs as u64 * 2;
        self.solana.set_clock(&c);
    }
    pub fn acc(&self, k: Pubkey) -> MangoAccountValue {
        get_mango_account(&self.solana, k)
    }
}
