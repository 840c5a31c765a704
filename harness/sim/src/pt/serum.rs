#![allow(dead_code)]

use std::{mem, sync::Arc};

use bytemuck::from_bytes;
use solana_sdk::pubkey::Pubkey;

use super::*;

#[derive(Clone, Debug)]
pub struct SpotMarketCookie {
    pub market: Pubkey,
    pub req_q: Pubkey,
    pub event_q: Pubkey,
    pub bids: Pubkey,
    pub asks: Pubkey,
    pub coin_vault: Pubkey,
    pub pc_vault: Pubkey,
    pub vault_signer_key: Pubkey,
    pub coin_mint: MintCookie,
    pub pc_mint: MintCookie,
    pub coin_fee_account: Pubkey,
    pub pc_fee_account: Pubkey,
}

pub struct SerumCookie {
    pub solana: Arc<solana::SolanaCookie>,
    pub program_id: Pubkey,
}

impl SerumCookie {
    pub fn list_spot_market(
        &self,
        coin_mint: &MintCookie,
        pc_mint: &MintCookie,
    ) -> SpotMarketCookie {
        self.list_spot_market_lots(coin_mint, pc_mint, coin_mint.base_lot as u64, coin_mint.quote_lot as u64)
    }

    pub fn list_spot_market_lots(
        &self,
        coin_mint: &MintCookie,
        pc_mint: &MintCookie,
        coin_lot: u64,
        pc_lot: u64,
    ) -> SpotMarketCookie {
        use serum_dex::state::{AccountFlag, ToAlignedBytes};
        let market = crate::svm::new_key();
        let (vault_signer_pk, nonce) = create_signer_key_and_nonce(&self.program_id, &market);
        let coin_vault = self.solana.create_token_account(&vault_signer_pk, coin_mint.pubkey);
        let pc_vault = self.solana.create_token_account(&vault_signer_pk, pc_mint.pubkey);
        let mk = |len: usize, flag| {
            let k = crate::svm::new_key();
            let mut a = crate::svm::Account::new(1 << 40, len, &self.program_id);
            serum_dex::dex::init_account(&mut a.data, flag);
            self.solana.set_raw_account(k, a);
            k
        };
        let req_q = mk(128, AccountFlag::RequestQueue);
        let event_q = mk(1 << 14, AccountFlag::EventQueue);
        let bids = mk(1 << 14, AccountFlag::Bids);
        let asks = mk(1 << 14, AccountFlag::Asks);
        let mut a = crate::svm::Account::new(1 << 40, serum_dex::dex::MARKET_LEN, &self.program_id);
        serum_dex::dex::init_account(&mut a.data, AccountFlag::Market);
        {
            let m = serum_dex::dex::market_mut(&mut a.data);
            m.own_address = market.to_aligned_bytes();
            m.vault_signer_nonce = nonce;
            m.coin_mint = coin_mint.pubkey.to_aligned_bytes();
            m.pc_mint = pc_mint.pubkey.to_aligned_bytes();
            m.coin_vault = coin_vault.to_aligned_bytes();
            m.pc_vault = pc_vault.to_aligned_bytes();
            m.req_q = req_q.to_aligned_bytes();
            m.event_q = event_q.to_aligned_bytes();
            m.bids = bids.to_aligned_bytes();
            m.asks = asks.to_aligned_bytes();
            m.coin_lot_size = coin_lot;
            m.pc_lot_size = pc_lot;
            m.pc_dust_threshold = 100;
        }
        self.solana.set_raw_account(market, a);

        let fee_account_owner = crate::svm::new_key();
        let coin_fee_account = self.solana.create_token_account(&fee_account_owner, coin_mint.pubkey);
        let pc_fee_account = self.solana.create_token_account(&fee_account_owner, coin_mint.pubkey);

        SpotMarketCookie {
            market,
            req_q,
            event_q,
            bids,
            asks,
            coin_vault,
            pc_vault,
            vault_signer_key: vault_signer_pk,
            coin_mint: coin_mint.clone(),
            pc_mint: pc_mint.clone(),
            coin_fee_account,
            pc_fee_account,
        }
    }

    /// The crank, run from the host side.
    pub fn consume_spot_events(&self, m: &SpotMarketCookie, _open_orders: &[Pubkey]) {
        self.consume_spot_events_n(m, 10);
    }
    pub fn consume_spot_events_n(&self, m: &SpotMarketCookie, n: usize) -> usize {
        let mut svm = self.solana.context.borrow_mut();
        let mut eventq = (**svm.get(&m.event_q).unwrap()).clone();
        let mut market = (**svm.get(&m.market).unwrap()).clone();
        let n = serum_dex::dex::consume_events(&mut eventq.data, &mut market.data, n, |k, f| {
            // a closed open orders account cannot have queued events
            if let Some(a) = svm.get(k) {
                let mut a = (**a).clone();
                f(&mut a.data);
                svm.set(*k, a);
            }
        });
        svm.set(m.event_q, eventq);
        svm.set(m.market, market);
        n
    }

    fn strip_dex_padding(data: &[u8]) -> &[u8] {
        assert!(data.len() >= 12);
        &data[5..data.len() - 7]
    }

    pub fn load_open_orders(&self, open_orders: Pubkey) -> serum_dex::state::OpenOrders {
        let data = self.solana.get_account_data(open_orders).unwrap();
        let slice = Self::strip_dex_padding(&data);
        assert_eq!(slice.len(), mem::size_of::<serum_dex::state::OpenOrders>());
        from_bytes::<serum_dex::state::OpenOrders>(slice).clone()
    }
}
