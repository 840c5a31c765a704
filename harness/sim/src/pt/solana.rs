#![allow(dead_code)]
//! `SolanaCookie` over the mini runtime in crate::svm.
use super::utils::TestKeypair;
use crate::svm::{self, Account, IxErr, Svm, TxRecord};
use anchor_lang::AccountDeserialize;
use anchor_spl::token::TokenAccount;
use solana_program::clock::Clock;
use solana_program::instruction::{Instruction, InstructionError};
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::system_instruction;
use solana_sdk::transaction::TransactionError;
use solana_sdk::transport::TransportError;
use std::cell::RefCell;
use std::rc::Rc;

pub type BanksClientError = TransportError;

pub struct Metadata {
    pub log_messages: Vec<String>,
    pub compute_units_consumed: u64,
}
pub struct BanksTransactionResultWithMetadata {
    pub result: Result<(), TransactionError>,
    pub metadata: Option<Metadata>,
}

/// Sees every transaction that runs on the cookie.
pub trait Observer {
    fn on_tx(&self, pre: &svm::Accounts, rec: &TxRecord, post: &svm::Accounts);
}

pub struct SolanaCookie {
    pub context: RefCell<Svm>,
    pub payer: TestKeypair,
    pub rent: Rent,
    pub last_transaction_log: RefCell<Vec<String>>,
    pub last: RefCell<Option<TxRecord>>,
    pub observers: RefCell<Vec<Rc<dyn Observer>>>,
}

thread_local! {
    /// observers given to every cookie made on this thread
    pub static DEFAULT_OBSERVERS: RefCell<Vec<Rc<dyn Observer>>> = RefCell::new(vec![]);
}

pub fn to_transaction_error(e: &(usize, IxErr)) -> TransactionError {
    let ie = match &e.1 {
        IxErr::Program(p) => InstructionError::from(u64::from(p.clone())),
        IxErr::Panic(_) => InstructionError::ProgramFailedToComplete,
        IxErr::Runtime(m) if m.contains("missing signature") => {
            return TransactionError::SignatureFailure
        }
        IxErr::Runtime(_) => InstructionError::GenericError,
    };
    TransactionError::InstructionError(e.0 as u8, ie)
}

impl SolanaCookie {
    pub fn new(svm: Svm) -> Self {
        let payer = TestKeypair::new();
        let mut svm = svm;
        svm.set(payer.pubkey(), Account::new(1 << 60, 0, &solana_program::system_program::id()));
        SolanaCookie {
            rent: svm.rent,
            context: RefCell::new(svm),
            payer,
            last_transaction_log: RefCell::new(vec![]),
            last: RefCell::new(None),
            observers: RefCell::new(DEFAULT_OBSERVERS.with(|d| d.borrow().clone())),
        }
    }

    /// Runs and reports to the observers.
    pub fn run(&self, instructions: &[Instruction], signers: &[TestKeypair]) -> TxRecord {
        crate::adversary::before(self, instructions, signers);
        self.run_plain(instructions, signers)
    }
    pub fn run_plain(&self, instructions: &[Instruction], signers: &[TestKeypair]) -> TxRecord {
        let mut keys: Vec<Pubkey> = signers.iter().map(|k| k.pubkey()).collect();
        keys.push(self.payer.pubkey());
        let observers = self.observers.borrow().clone();
        let pre = if observers.is_empty() {
            None
        } else {
            Some(self.context.borrow().accounts.clone())
        };
        let rec = self.context.borrow_mut().process(instructions, &keys);
        if let Some(pre) = pre {
            let post = self.context.borrow().accounts.clone();
            for o in &observers {
                o.on_tx(&pre, &rec, &post);
            }
        }
        if std::env::var_os("SIM_TRACE").is_some() && !rec.ok() {
            eprintln!("tx failed: {:?} {:#?}", rec.result, rec.logs);
        }
        *self.last_transaction_log.borrow_mut() = rec.logs.clone();
        *self.last.borrow_mut() = Some(rec.clone());
        rec
    }

    pub fn process_transaction(
        &self,
        instructions: &[Instruction],
        signers: Option<&[TestKeypair]>,
    ) -> Result<BanksTransactionResultWithMetadata, BanksClientError> {
        let rec = self.run(instructions, signers.unwrap_or(&[]));
        Ok(BanksTransactionResultWithMetadata {
            result: rec.result.as_ref().map(|_| ()).map_err(to_transaction_error),
            metadata: Some(Metadata { log_messages: rec.logs.clone(), compute_units_consumed: 0 }),
        })
    }

    pub fn clock(&self) -> Clock {
        self.context.borrow().clock.clone()
    }
    pub fn set_clock(&self, clock: &Clock) {
        self.context.borrow_mut().clock = clock.clone();
    }
    pub fn clock_timestamp(&self) -> u64 {
        self.clock().unix_timestamp.try_into().unwrap()
    }
    pub fn set_clock_timestamp(&self, timestamp: u64) {
        self.context.borrow_mut().clock.unix_timestamp = timestamp as i64;
    }
    pub fn advance_by_slots(&self, slots: u64) {
        let mut s = self.context.borrow_mut();
        s.clock.slot += slots + 1;
    }
    pub fn advance_clock_to(&self, target: i64) {
        let mut s = self.context.borrow_mut();
        while s.clock.unix_timestamp <= target {
            s.clock.slot += 50;
            s.clock.unix_timestamp += 20;
        }
    }
    pub fn advance_clock_to_next_multiple(&self, window: i64) {
        let ts = self.clock().unix_timestamp;
        self.advance_clock_to(ts / window * window + window)
    }
    pub fn advance_clock(&self) {
        let t = self.clock().unix_timestamp;
        self.advance_clock_to(t + 1)
    }
    pub fn get_newest_slot_from_history(&self) -> u64 {
        self.clock().slot - 1
    }

    pub fn create_account_from_len(&self, owner: &Pubkey, len: usize) -> Pubkey {
        let key = TestKeypair::new();
        let l = self.rent.minimum_balance(len);
        let ix = system_instruction::create_account(
            &self.payer.pubkey(),
            &key.pubkey(),
            l,
            len as u64,
            owner,
        );
        self.process_transaction(&[ix], Some(&[key])).unwrap().result.unwrap();
        key.pubkey()
    }
    pub fn create_account_for_type<T>(&self, owner: &Pubkey) -> Pubkey {
        self.create_account_from_len(owner, 8 + std::mem::size_of::<T>())
    }
    pub fn create_token_account(&self, owner: &Pubkey, mint: Pubkey) -> Pubkey {
        let keypair = TestKeypair::new();
        let rent = self.rent.minimum_balance(spl_token::state::Account::LEN);
        let instructions = [
            system_instruction::create_account(
                &self.payer.pubkey(),
                &keypair.pubkey(),
                rent,
                spl_token::state::Account::LEN as u64,
                &spl_token::id(),
            ),
            spl_token::instruction::initialize_account(
                &spl_token::id(),
                &keypair.pubkey(),
                &mint,
                owner,
            )
            .unwrap(),
        ];
        self.process_transaction(&instructions, Some(&[keypair])).unwrap().result.unwrap();
        keypair.pubkey()
    }
    pub fn create_address_lookup_table(
        &self,
        authority: TestKeypair,
        _payer: TestKeypair,
    ) -> Pubkey {
        let k = svm::new_key();
        let mut a = Account::new(u32::MAX as u64, 56, &svm::alt_id());
        a.data[0] = 1;
        a.data[22..54].copy_from_slice(authority.pubkey().as_ref());
        self.context.borrow_mut().set(k, a);
        k
    }

    pub fn get_account_data(&self, address: Pubkey) -> Option<Vec<u8>> {
        self.context.borrow().get(&address).map(|a| a.data.clone())
    }
    pub fn get_account_opt<T: AccountDeserialize>(&self, address: Pubkey) -> Option<T> {
        let data = self.get_account_data(address)?;
        T::try_deserialize(&mut &data[..]).ok()
    }
    pub fn get_account_boxed<T: AccountDeserialize>(&self, address: Pubkey) -> Box<T> {
        Box::new(self.get_account_opt(address).unwrap())
    }
    pub fn get_account<T: AccountDeserialize>(&self, address: Pubkey) -> T {
        self.get_account_opt(address).unwrap()
    }
    pub fn set_account<T: anchor_lang::Discriminator + anchor_lang::ZeroCopy>(
        &self,
        address: Pubkey,
        data: &T,
    ) {
        let mut s = self.context.borrow_mut();
        let mut a = (**s.get(&address).unwrap()).clone();
        a.data = [&T::DISCRIMINATOR[..], bytemuck::bytes_of(data)].concat();
        s.set(address, a);
    }
    pub fn get_raw(&self, address: Pubkey) -> Option<crate::svm::Acc> {
        self.context.borrow().get(&address).cloned()
    }
    pub fn set_raw_account(&self, address: Pubkey, a: Account) {
        self.context.borrow_mut().set(address, a);
    }
    pub fn token_account_balance(&self, address: Pubkey) -> u64 {
        self.get_account::<TokenAccount>(address).amount
    }
    pub fn program_log(&self) -> Vec<String> {
        self.last_transaction_log.borrow().clone()
    }
    pub fn program_log_events<T: anchor_lang::Event + anchor_lang::AnchorDeserialize>(
        &self,
    ) -> Vec<T> {
        let last = self.last.borrow();
        let rec = match &*last {
            Some(r) => r,
            None => return vec![],
        };
        rec.done
            .iter()
            .flat_map(|d| d.events.iter())
            .filter(|b| b.len() >= 8 && b[0..8] == T::discriminator())
            .filter_map(|b| T::try_from_slice(&b[8..]).ok())
            .collect()
    }
}
