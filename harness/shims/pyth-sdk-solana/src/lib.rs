//! Offline stand-in for `pyth-sdk-solana`: the price account layout and loader.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Price {
    pub price: i64,
    pub conf: u64,
    pub expo: i32,
    pub publish_time: i64,
}

#[derive(Debug)]
pub struct PythError(pub &'static str);

pub mod state {
    use super::*;
    use bytemuck::{Pod, Zeroable};

    pub const MAGIC: u32 = 0xa1b2c3d4;
    pub const VERSION_2: u32 = 2;

    /// an enum in the original; a wrapper here so any byte pattern is valid
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Pod, Zeroable)]
    #[repr(transparent)]
    pub struct PriceStatus(pub u8);
    #[allow(non_upper_case_globals)]
    impl PriceStatus {
        pub const Unknown: PriceStatus = PriceStatus(0);
        pub const Trading: PriceStatus = PriceStatus(1);
        pub const Halted: PriceStatus = PriceStatus(2);
        pub const Auction: PriceStatus = PriceStatus(3);
        pub const Ignored: PriceStatus = PriceStatus(4);
    }

    #[derive(Clone, Copy, Debug, Pod, Zeroable)]
    #[repr(C)]
    pub struct Rational {
        pub val: i64,
        pub numer: i64,
        pub denom: i64,
    }
    #[derive(Clone, Copy, Debug, Pod, Zeroable)]
    #[repr(C)]
    pub struct PriceInfo {
        pub price: i64,
        pub conf: u64,
        pub status: PriceStatus,
        pub corp_act: u8,
        pub pad: [u8; 6],
        pub pub_slot: u64,
    }
    #[derive(Clone, Copy, Debug, Pod, Zeroable)]
    #[repr(C)]
    pub struct PriceComp {
        pub publisher: [u8; 32],
        pub agg: PriceInfo,
        pub latest: PriceInfo,
    }
    #[derive(Clone, Copy, Debug, Pod, Zeroable)]
    #[repr(C)]
    pub struct PriceAccount {
        pub magic: u32,
        pub ver: u32,
        pub atype: u32,
        pub size: u32,
        pub ptype: u32,
        pub expo: i32,
        pub num: u32,
        pub num_qt: u32,
        pub last_slot: u64,
        pub valid_slot: u64,
        pub ema_price: Rational,
        pub ema_conf: Rational,
        pub timestamp: i64,
        pub min_pub: u8,
        pub drv2: u8,
        pub drv3: u16,
        pub drv4: u32,
        pub prod: [u8; 32],
        pub next: [u8; 32],
        pub prev_slot: u64,
        pub prev_price: i64,
        pub prev_conf: u64,
        pub prev_timestamp: i64,
        pub agg: PriceInfo,
        pub comp: [PriceComp; 32],
    }

    pub fn load_price_account(data: &[u8]) -> Result<&PriceAccount, PythError> {
        let n = std::mem::size_of::<PriceAccount>();
        let d = data.get(..n).ok_or(PythError("InvalidAccountData"))?;
        let pa: &PriceAccount =
            bytemuck::try_from_bytes(d).map_err(|_| PythError("InvalidAccountData"))?;
        if pa.magic != MAGIC {
            return Err(PythError("InvalidAccountData"));
        }
        if pa.ver != VERSION_2 {
            return Err(PythError("BadVersionNumber"));
        }
        if pa.atype != 3 {
            return Err(PythError("WrongAccountType"));
        }
        Ok(pa)
    }
}
