//! Offline stand-in for `switchboard-on-demand` pull feeds.
use bytemuck::{Pod, Zeroable};

/// plays the role of rust_decimal::Decimal (18 decimal places)
#[derive(Clone, Copy, Debug)]
pub struct Decimal(pub i128);
#[derive(Debug)]
pub struct DecimalError;
impl std::fmt::Display for DecimalError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("decimal")
    }
}
impl TryInto<f64> for Decimal {
    type Error = DecimalError;
    fn try_into(self) -> Result<f64, DecimalError> {
        format!("{}e-18", self.0).parse().map_err(|_| DecimalError)
    }
}
#[derive(Clone, Copy, Pod, Zeroable)]
#[repr(C)]
pub struct OracleSubmission {
    pub oracle: [u8; 32],
    pub slot: u64,
    pub padding1: [u8; 8],
    pub value: i128,
}
#[derive(Clone, Copy, Pod, Zeroable)]
#[repr(C)]
pub struct CurrentResult {
    pub value: i128,
    pub std_dev: i128,
    pub mean: i128,
    pub range: i128,
    pub min_value: i128,
    pub max_value: i128,
    pub num_samples: u8,
    pub padding1: [u8; 7],
    pub slot: u64,
    pub min_slot: u64,
    pub max_slot: u64,
}
#[derive(Clone, Copy, Pod, Zeroable)]
#[repr(C)]
pub struct PullFeedAccountData {
    pub submissions: [OracleSubmission; 32],
    pub authority: [u8; 32],
    pub queue: [u8; 32],
    pub feed_hash: [u8; 32],
    pub initialized_at: i64,
    pub permissions: u64,
    pub max_variance: u64,
    pub min_responses: u32,
    pub name: [u8; 32],
    pub padding1: [u8; 2],
    pub historical_result_idx: u8,
    pub min_sample_size: u8,
    pub last_update_timestamp: i64,
    pub lut_slot: u64,
    pub reserved1: [u8; 32],
    pub result: CurrentResult,
    pub max_staleness: u32,
    pub padding2: [u8; 12],
    pub historical_results: [[u64; 2]; 32],
    pub ebuf: [u64; 36],
}
impl PullFeedAccountData {
    pub fn value(&self) -> Option<Decimal> {
        if self.result.slot == 0 {
            return None;
        }
        Some(Decimal(self.result.value))
    }
    pub fn std_dev(&self) -> Option<Decimal> {
        if self.result.slot == 0 {
            return None;
        }
        Some(Decimal(self.result.std_dev))
    }
}
const _: () = assert!(std::mem::size_of::<PullFeedAccountData>() == 3200);
