#![allow(dead_code)]

use bytemuck::{bytes_of, Contiguous};
use solana_program::instruction::InstructionError;
use solana_program::program_error::ProgramError;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::transaction::TransactionError;
use solana_sdk::transport::TransportError;

pub fn gen_signer_seeds<'a>(nonce: &'a u64, acc_pk: &'a Pubkey) -> [&'a [u8]; 2] {
    [acc_pk.as_ref(), bytes_of(nonce)]
}

pub fn gen_signer_key(
    nonce: u64,
    acc_pk: &Pubkey,
    program_id: &Pubkey,
) -> Result<Pubkey, ProgramError> {
    let seeds = gen_signer_seeds(&nonce, acc_pk);
    Ok(Pubkey::create_program_address(&seeds, program_id)?)
}

pub fn create_signer_key_and_nonce(program_id: &Pubkey, acc_pk: &Pubkey) -> (Pubkey, u64) {
    for i in 0..=u64::MAX_VALUE {
        if let Ok(pk) = gen_signer_key(i, acc_pk, program_id) {
            return (pk, i);
        }
    }
    panic!("Could not generate signer key");
}

/// Signing is not modelled: a key is its public half.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct TestKeypair(pub Pubkey);
impl TestKeypair {
    pub fn new() -> Self {
        TestKeypair(crate::svm::new_key())
    }
    pub fn pubkey(&self) -> Pubkey {
        self.0
    }
}
impl Default for TestKeypair {
    fn default() -> Self {
        TestKeypair(Pubkey::default())
    }
}

pub fn assert_mango_error<T>(
    result: &Result<T, TransportError>,
    expected_error: u32,
    comment: String,
) {
    match result {
        Ok(_) => assert!(false, "No error returned"),
        Err(TransportError::TransactionError(TransactionError::InstructionError(
            _,
            InstructionError::Custom(err_num),
        ))) => {
            assert_eq!(*err_num, expected_error, "{}", comment);
        }
        _ => assert!(false, "Not a mango error"),
    }
}

#[macro_export]
macro_rules! assert_eq_f64 {
    ($value:expr, $expected:expr, $max_error:expr $(,)?) => {
        let value = $value;
        let expected = $expected;
        let ok = (value - expected).abs() < $max_error;
        if !ok {
            println!("comparison failed: value: {value}, expected: {expected}");
        }
        assert!(ok);
    };
}

#[macro_export]
macro_rules! assert_eq_fixed_f64 {
    ($value:expr, $expected:expr, $max_error:expr $(,)?) => {
        assert_eq_f64!($value.to_num::<f64>(), $expected, $max_error);
    };
}
