//! Offline stand-in for `switchboard-program` (v1 fast round results).
#[derive(Clone, Copy, Debug, Default)]
pub struct FastRoundResult {
    pub num_success: i32,
    pub num_error: i32,
    pub result: f64,
    pub round_open_slot: u64,
    pub round_open_timestamp: i64,
    pub min_response: f64,
    pub max_response: f64,
}
#[derive(Clone, Copy, Debug, Default)]
pub struct FastRoundResultAccountData {
    pub parent: [u8; 32],
    pub result: FastRoundResult,
}
#[derive(Debug)]
pub struct SwitchboardError;
impl FastRoundResultAccountData {
    pub fn deserialize(d: &[u8]) -> Result<Self, SwitchboardError> {
        if d.len() < 81 || d[0] != 5 {
            return Err(SwitchboardError);
        }
        fn b<const N: usize>(d: &[u8], o: usize) -> [u8; N] {
            d[o..o + N].try_into().unwrap()
        }
        Ok(Self {
            parent: b(d, 1),
            result: FastRoundResult {
                num_success: i32::from_le_bytes(b(d, 33)),
                num_error: i32::from_le_bytes(b(d, 37)),
                result: f64::from_le_bytes(b(d, 41)),
                round_open_slot: u64::from_le_bytes(b(d, 49)),
                round_open_timestamp: i64::from_le_bytes(b(d, 57)),
                min_response: f64::from_le_bytes(b(d, 65)),
                max_response: f64::from_le_bytes(b(d, 73)),
            },
        })
    }
}
