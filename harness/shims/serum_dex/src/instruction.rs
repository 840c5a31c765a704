use crate::matching::{OrderType, Side};
use num_enum::{IntoPrimitive, TryFromPrimitive};
use std::num::NonZeroU64;

#[derive(Eq, PartialEq, Copy, Clone, TryFromPrimitive, IntoPrimitive, Debug)]
#[repr(u8)]
pub enum SelfTradeBehavior {
    DecrementTake = 0,
    CancelProvide = 1,
    AbortTransaction = 2,
}

#[derive(PartialEq, Eq, Debug, Clone)]
pub struct NewOrderInstructionV3 {
    pub side: Side,
    pub limit_price: NonZeroU64,
    pub max_coin_qty: NonZeroU64,
    pub max_native_pc_qty_including_fees: NonZeroU64,
    pub self_trade_behavior: SelfTradeBehavior,
    pub order_type: OrderType,
    pub client_order_id: u64,
    pub limit: u16,
    pub max_ts: i64,
}
#[derive(PartialEq, Eq, Debug, Clone)]
pub struct CancelOrderInstructionV2 {
    pub side: Side,
    pub order_id: u128,
}
#[derive(PartialEq, Eq, Debug, Clone)]
pub enum MarketInstruction {
    SettleFunds,
    NewOrderV3(NewOrderInstructionV3),
    CancelOrderV2(CancelOrderInstructionV2),
    CancelOrderByClientIdV2(u64),
    CloseOpenOrders,
    InitOpenOrders,
}
impl MarketInstruction {
    pub fn pack(&self) -> Vec<u8> {
        let mut v = vec![0u8];
        let tag = |t: u32, v: &mut Vec<u8>| v.extend(t.to_le_bytes());
        match self {
            Self::SettleFunds => tag(5, &mut v),
            Self::NewOrderV3(o) => {
                tag(10, &mut v);
                v.extend((o.side as u8 as u32).to_le_bytes());
                v.extend(o.limit_price.get().to_le_bytes());
                v.extend(o.max_coin_qty.get().to_le_bytes());
                v.extend(o.max_native_pc_qty_including_fees.get().to_le_bytes());
                v.extend((o.self_trade_behavior as u8 as u32).to_le_bytes());
                v.extend((o.order_type as u8 as u32).to_le_bytes());
                v.extend(o.client_order_id.to_le_bytes());
                v.extend(o.limit.to_le_bytes());
                v.extend(o.max_ts.to_le_bytes());
            }
            Self::CancelOrderV2(c) => {
                tag(11, &mut v);
                v.extend((c.side as u8 as u32).to_le_bytes());
                v.extend(c.order_id.to_le_bytes());
            }
            Self::CancelOrderByClientIdV2(id) => {
                tag(12, &mut v);
                v.extend(id.to_le_bytes());
            }
            Self::CloseOpenOrders => tag(14, &mut v),
            Self::InitOpenOrders => tag(15, &mut v),
        }
        v
    }
    pub fn unpack(d: &[u8]) -> Option<Self> {
        fn u32_(d: &[u8], o: usize) -> Option<u32> {
            Some(u32::from_le_bytes(d.get(o..o + 4)?.try_into().ok()?))
        }
        fn u64_(d: &[u8], o: usize) -> Option<u64> {
            Some(u64::from_le_bytes(d.get(o..o + 8)?.try_into().ok()?))
        }
        let t = u32_(d, 1)?;
        let d = &d[5..];
        Some(match t {
            5 => Self::SettleFunds,
            10 => Self::NewOrderV3(NewOrderInstructionV3 {
                side: (u32_(d, 0)? as u8).try_into().ok()?,
                limit_price: NonZeroU64::new(u64_(d, 4)?)?,
                max_coin_qty: NonZeroU64::new(u64_(d, 12)?)?,
                max_native_pc_qty_including_fees: NonZeroU64::new(u64_(d, 20)?)?,
                self_trade_behavior: (u32_(d, 28)? as u8).try_into().ok()?,
                order_type: (u32_(d, 32)? as u8).try_into().ok()?,
                client_order_id: u64_(d, 36)?,
                limit: u16::from_le_bytes(d.get(44..46)?.try_into().ok()?),
                max_ts: u64_(d, 46)? as i64,
            }),
            11 => Self::CancelOrderV2(CancelOrderInstructionV2 {
                side: (u32_(d, 0)? as u8).try_into().ok()?,
                order_id: u128::from_le_bytes(d.get(4..20)?.try_into().ok()?),
            }),
            12 => Self::CancelOrderByClientIdV2(u64_(d, 0)?),
            14 => Self::CloseOpenOrders,
            15 => Self::InitOpenOrders,
            _ => return None,
        })
    }
}
