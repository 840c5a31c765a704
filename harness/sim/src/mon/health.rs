//! Health assertions that ran as part of the history.
use super::*;
use crate::spec::*;

/// committed health checks must have been true, refused ones false
#[derive(Default)]
pub struct HealthChecks {}
impl Monitor for HealthChecks {
    fn ix(&mut self, _t: &Tx, ix: &Ix, out: &mut Out) {
        if !ix.is(&["health_check"]) {
            return;
        }
        let Some(a) = ix.acc("account").and_then(|k| ix.pre.accounts.get(&k).cloned()) else { return };
        let rem: Vec<Pubkey> = ix.remaining().collect();
        let banks = rem
            .iter()
            .map_while(|k| ix.pre.banks.get(k).map(|b| (b.token_index, *k)))
            .collect();
        let prov = |k: &Pubkey| rem.contains(k);
        let o = HcOpts { now: ix.now, slot: ix.slot, bank_for: Some(&banks), provided: Some(&prov), skipping: true };
        let Ok(h) = health_or(ix.pre, &a, &o) else { return };
        let mut args = ix.args();
        let (min, kind) = (args.f64(), args.u8());
        let ht = [HT::Maint, HT::Init, HT::LiqEnd][kind as usize % 3];
        if kind < 3 {
            let v = h.health(ht);
            out.eval("health-check-passed", (v.to_bits(), min.to_bits()), || format!("{v:.4} >= {min}"));
            if v < min - h.err(ht) - min.abs() * 1e-9 {
                out.fail("C06", "check-passed", format!("a health check for {min} passed at {v}"));
            }
        }
    }
}
