//! Health regions, sequence and health assertions.
use super::safety::{banks_in, full_health};
use super::*;
use crate::spec::HT;

const INSIDE: &[&str] = &[
    "perp_cancel_all_orders", "perp_cancel_all_orders_by_side", "perp_cancel_order", "perp_cancel_order_by_client_order_id",
    "perp_place_order", "perp_place_order_v2", "perp_place_order_pegged", "perp_place_order_pegged_v2", "serum3_cancel_all_orders",
    "serum3_cancel_order", "serum3_place_order", "serum3_place_order_v2", "serum3_settle_funds", "serum3_settle_funds_v2",
];

#[derive(Default)]
pub struct Regions {}
impl Monitor for Regions {
    fn tx(&mut self, t: &Tx, out: &mut Out) {
        // nobody is left inside
        for (k, a) in &t.post.accounts {
            if t.pre.accounts.get(k).map_or(false, |b| std::rc::Rc::ptr_eq(a, b)) {
                continue;
            }
            if a.fx.is_in_health_region() {
                out.fail("C08", "left-inside", format!("{k} is inside a health region after its transaction"));
            }
            if a.fx.health_region_begin_init_health != 0 {
                out.fail("C08", "begin-health-left", format!("{k} keeps a region's health {}", a.fx.health_region_begin_init_health));
            }
        }
        // what happens between begin and end
        let mut open: Option<(Pubkey, usize)> = None;
        for (i, ix) in t.ixs.iter().enumerate() {
            if let Some((k, at)) = open {
                let end = ix.is(&["health_region_end"]);
                out.eval(if end { "region-end" } else { "inside" }, (ix.name, at, i), || format!("{} {} after begin", ix.name, i - at));
                if !ix.mango || ix.cpi {
                    out.fail("C08", "foreign-inside", format!("another program's instruction inside a health region of {k}"));
                } else if end {
                    if ix.acc("account") != Some(k) {
                        out.fail("C08", "other-account", format!("region of {k} closed for {:?}", ix.acc("account")));
                    }
                    open = None;
                } else if !ix.is(INSIDE) {
                    out.fail("C08", &format!("inside:{}", ix.name), format!("{} inside a health region", ix.name));
                }
            } else if ix.is(&["health_region_end"]) {
                out.fail("C08", "end-alone", format!("a region was closed that this transaction did not open"));
            }
            if ix.is(&["health_region_begin"]) {
                if ix.cpi {
                    out.fail("C08", "begin-by-cpi", format!("another program opened a region"));
                }
                let k = ix.acc("account").unwrap_or_default();
                if let Some((o, _)) = open {
                    out.fail("C08", "nested", format!("region of {k} opened inside a region of {o}"));
                }
                open = Some((k, i));
            }
        }
        if let Some((k, _)) = open {
            out.fail("C08", "no-end", format!("no end for the region of {k}"));
        }
    }
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        let Some(k) = ix.acc("account") else { return };
        let (Some(a0), Some(a1)) = (ix.pre.accounts.get(&k), ix.post.accounts.get(&k)) else { return };
        match ix.name {
            "health_region_begin" => {
                if a0.fx.is_in_health_region() || !a1.fx.is_in_health_region() {
                    out.fail("C08", "begin-flag", format!("region flag of {k}: {} -> {}", a0.fx.is_in_health_region(), a1.fx.is_in_health_region()));
                }
                let rem: Vec<Pubkey> = ix.remaining().collect();
                let chosen = banks_in(ix.pre, &rem);
                if let Some(h) = full_health(ix.pre, a0, &chosen, &rem, ix.now, ix.slot) {
                    let (v, e) = (h.health(HT::Init), h.err(HT::Init));
                    let got = a1.fx.health_region_begin_init_health as f64;
                    out.eval("begin-health", v.to_bits(), || format!("{v:.4} noted as {got}"));
                    if got < (v - e).ceil() || got > (v + e).ceil() {
                        out.fail("C08", "begin-health", format!("region of {k} begins at {v:.6}, noted {got}"));
                    }
                    if a0.fx.being_liquidated() && h.health(HT::LiqEnd) < -1.0 - h.err(HT::LiqEnd) {
                        out.fail("C08", "begin-liquidated", format!("region opened for {k} while it is being liquidated at {:.4}", h.health(HT::LiqEnd)));
                    }
                }
            }
            "health_region_end" => {
                if !a0.fx.is_in_health_region() {
                    out.fail("C08", "end-flag", format!("region of {k} closed but never open"));
                }
            }
            "sequence_check" => {
                let want = ix.args().u8();
                out.eval("sequence", (want, a0.fx.sequence_number), || format!("{want} with {}", a0.fx.sequence_number));
                if want != a0.fx.sequence_number || a1.fx.sequence_number != want.wrapping_add(1) {
                    out.fail("C08", "sequence", format!("{k}: expected {want}, was {}, is {}", a0.fx.sequence_number, a1.fx.sequence_number));
                }
            }
            _ => {
                if a0.fx.sequence_number != a1.fx.sequence_number && a0.fx.account_num == a1.fx.account_num {
                    out.count("sequence-moved");
                    if !ix.is(SEQUENCED) {
                        out.fail("C08", &format!("sequence-moved:{}", ix.name), format!("{} moved the sequence of {k}: {} -> {}", ix.name, a0.fx.sequence_number, a1.fx.sequence_number));
                    }
                }
            }
        }
    }
    fn failed(&mut self, t: &Tx, out: &mut Out) {
        // a right sequence number is never refused
        let Err((i, e)) = &t.rec.result else { return };
        if *i != 0 {
            return;
        }
        let ix = &t.rec.ixs[0];
        if ix_abi(&ix.data).map_or(true, |a| a.name != "sequence_check") || ix.program_id != mango_v4::id() {
            return;
        }
        let code: u32 = mango_v4::error::MangoError::InvalidSequenceNumber.into();
        let Some(a) = ix.accounts.get(1).and_then(|m| t.pre.accounts.get(&m.pubkey)) else { return };
        if let crate::svm::IxErr::Program(solana_program::program_error::ProgramError::Custom(c)) = e {
            let want = ix.data.get(8).copied().unwrap_or(0);
            if *c == code {
                out.eval("sequence-refused", (want, a.fx.sequence_number), || format!("{want} with {}", a.fx.sequence_number));
                if want == a.fx.sequence_number {
                    out.fail("C08", "sequence-refused", format!("right sequence {want} refused"));
                }
            }
        }
    }
}
/// instructions that count as a step of the account's sequence
const SEQUENCED: &[&str] = &[];
