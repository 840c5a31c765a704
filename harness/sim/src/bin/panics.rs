use rand::prelude::*;
use sim::act::*;
use sim::mon::{Hub,Monitor,Out,Tx,ix_abi};
use sim::world::{Cfg,World};
use std::rc::Rc;
use std::collections::BTreeMap;
struct P(Rc<std::cell::RefCell<BTreeMap<String,u64>>>, String);
impl Monitor for P {
    fn failed(&mut self, t: &Tx, _o: &mut Out) {
        if let Err((i, e)) = &t.rec.result {
            let name = ix_abi(&t.rec.ixs[*i].data).map_or("other", |a| a.name);
            let k = match e { sim::svm::IxErr::Panic(p) => format!("{name} PANIC {p}"), sim::svm::IxErr::Runtime(p) => format!("{name} RT {p}"),
              sim::svm::IxErr::Program(p) => { if self.1.is_empty() || !name.contains(&self.1) {return;} 
                let last: Vec<String> = t.rec.logs.iter().filter(|l| l.contains("rror")).cloned().collect(); format!("{name} {p:?} {}", last.last().cloned().unwrap_or_default()) } };
            *self.0.borrow_mut().entry(k).or_default() += 1;
        }
    }
}
fn main() {
    sim::world::install_quiet_hook();
    let n: u64 = std::env::args().nth(1).and_then(|x| x.parse().ok()).unwrap_or(8);
    let steps: u64 = std::env::args().nth(2).and_then(|x| x.parse().ok()).unwrap_or(400);
    let filt = std::env::args().nth(3).unwrap_or_default();
    let hs: Vec<_> = (0..8u64).map(|th| { let filt = filt.clone();
        std::thread::Builder::new().stack_size(64<<20).spawn(move || {
            let m = Rc::new(std::cell::RefCell::new(BTreeMap::new()));
            for e in (0..n).filter(|e| e % 8 == th) {
                let mut rng = rand_chacha::ChaCha8Rng::seed_from_u64(e);
                let cfg = Cfg::random(&mut rng);
                let hub = Rc::new(Hub::new(vec![Box::new(P(m.clone(), filt.clone()))]));
                let mut w = World::new(e, cfg.clone(), hub.clone());
                w.solana.context.borrow_mut().keep_logs = true;
                let weights: Vec<f64> = ACTIONS.iter().map(|(n, _)| base_weight(n)).collect();
                for _ in 0..steps { w.step(&weights); }
            }
            let r = m.borrow().clone(); r
        }).unwrap()
    }).collect();
    let mut out: BTreeMap<String,u64> = BTreeMap::new();
    for h in hs { for (k,v) in h.join().unwrap() { *out.entry(k).or_default() += v; } }
    let mut v: Vec<_> = out.into_iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(x.1));
    for (k,c) in v.iter().take(60) { println!("{c:6} {}", k.chars().take(330).collect::<String>()); }
}
