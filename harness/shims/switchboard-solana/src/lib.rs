//! Offline stand-in for `switchboard-solana` (v2 aggregators).
use bytemuck::{Pod, Zeroable};

#[derive(Debug)]
pub struct SwitchboardError(pub &'static str);
impl std::fmt::Display for SwitchboardError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.0)
    }
}

#[derive(Clone, Copy, Pod, Zeroable)]
#[repr(C, packed)]
pub struct SwitchboardDecimal {
    pub mantissa: i128,
    pub scale: u32,
}
/// decimal string -> nearest f64
fn to_f64(mantissa: i128, scale: u32) -> Option<f64> {
    format!("{}e-{}", mantissa, scale).parse().ok()
}
impl TryInto<f64> for SwitchboardDecimal {
    type Error = SwitchboardError;
    fn try_into(self) -> Result<f64, SwitchboardError> {
        if { self.scale } > 28 {
            return Err(SwitchboardError("SwitchboardDecimalConversionError"));
        }
        to_f64(self.mantissa, self.scale).ok_or(SwitchboardError("conversion"))
    }
}
impl SwitchboardDecimal {
    pub fn new(mantissa: i128, scale: u32) -> Self {
        Self { mantissa, scale }
    }
}

#[derive(Clone, Copy, Pod, Zeroable)]
#[repr(C, packed)]
pub struct AggregatorRound {
    pub num_success: u32,
    pub num_error: u32,
    pub is_closed: u8,
    pub round_open_slot: u64,
    pub round_open_timestamp: i64,
    pub result: SwitchboardDecimal,
    pub std_deviation: SwitchboardDecimal,
    pub min_response: SwitchboardDecimal,
    pub max_response: SwitchboardDecimal,
    pub oracle_pubkeys_data: [[u8; 32]; 16],
    pub medians_data: [SwitchboardDecimal; 16],
    pub current_payout: [i64; 16],
    pub medians_fulfilled: [u8; 16],
    pub errors_fulfilled: [u8; 16],
}
#[derive(Clone, Copy, Pod, Zeroable)]
#[repr(C, packed)]
pub struct AggregatorAccountData {
    pub name: [u8; 32],
    pub metadata: [u8; 128],
    pub reserved1: [u8; 32],
    pub queue_pubkey: [u8; 32],
    pub oracle_request_batch_size: u32,
    pub min_oracle_results: u32,
    pub min_job_results: u32,
    pub min_update_delay_seconds: u32,
    pub start_after: i64,
    pub variance_threshold: SwitchboardDecimal,
    pub force_report_period: i64,
    pub expiration: i64,
    pub consecutive_failure_count: u64,
    pub next_allowed_update_time: i64,
    pub is_locked: u8,
    pub crank_pubkey: [u8; 32],
    pub latest_confirmed_round: AggregatorRound,
    pub current_round: AggregatorRound,
    pub job_pubkeys_data: [[u8; 32]; 16],
    pub job_hashes: [[u8; 32]; 16],
    pub job_pubkeys_size: u32,
    pub jobs_checksum: [u8; 32],
    pub authority: [u8; 32],
    pub history_buffer: [u8; 32],
    pub previous_confirmed_round_result: SwitchboardDecimal,
    pub previous_confirmed_round_slot: u64,
    pub disable_crank: u8,
    pub job_weights: [u8; 16],
    pub creation_timestamp: i64,
    pub resolution_mode: u8,
    pub base_priority_fee: u32,
    pub priority_fee_bump: u32,
    pub priority_fee_bump_period: u32,
    pub max_priority_fee_multiplier: u32,
    pub parent_function: [u8; 32],
    pub ebuf: [u8; 90],
}
impl AggregatorAccountData {
    pub fn get_result(&self) -> Result<SwitchboardDecimal, SwitchboardError> {
        if self.resolution_mode == 1 {
            return Ok(self.latest_confirmed_round.result);
        }
        if { self.min_oracle_results } > { self.latest_confirmed_round.num_success } {
            return Err(SwitchboardError("InvalidAggregatorRound"));
        }
        Ok(self.latest_confirmed_round.result)
    }
}
const _: () = assert!(std::mem::size_of::<AggregatorAccountData>() == 3843);
