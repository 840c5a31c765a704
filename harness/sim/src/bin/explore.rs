//! Development aid: what does the random workload reach?
use rand::prelude::*;
use sim::act::*;
use sim::mon::*;
use sim::world::*;
use std::rc::Rc;
fn main() {
    sim::world::install_quiet_hook();
    let n: u64 = std::env::args().nth(1).and_then(|x| x.parse().ok()).unwrap_or(8);
    let steps: u64 = std::env::args().nth(2).and_then(|x| x.parse().ok()).unwrap_or(400);
    let t0 = std::time::Instant::now();
    let hs: Vec<_> = (0..8u64).map(|th| {
        std::thread::Builder::new().stack_size(64<<20).spawn(move || {
            let mut out = Out::default();
            for e in (0..n).filter(|e| e % 8 == th) {
                let mut rng = rand_chacha::ChaCha8Rng::seed_from_u64(e);
                let cfg = Cfg::random(&mut rng);
                let hub = Rc::new(Hub::new(sim::checks::all_monitors()));
                let t = std::time::Instant::now();
                let mut w = World::new(e, cfg.clone(), hub.clone());
                let t1 = t.elapsed();
                let weights: Vec<f64> = ACTIONS.iter().map(|(n, _)| base_weight(n)).collect();
                for _ in 0..steps { w.step(&weights); }
                if e < 3 { eprintln!("setup {t1:?} total {:?} {cfg:?}", t.elapsed()); }
                out.merge(hub.take());
            }
            out
        }).unwrap()
    }).collect();
    let mut out = Out::default();
    for h in hs { out.merge(h.join().unwrap()); }
    let mut vs: std::collections::BTreeMap<String,(u64,String)> = Default::default();
    for v in &out.violations { let e = vs.entry(format!("{} {}", v.prop, v.key)).or_insert((0, v.msg.clone())); e.0 += 1; }
    for (k,(n,m)) in &vs { println!("VIOL {n} {k}: {}", m.chars().take(700).collect::<String>()); }
    for (k,n) in &out.counters { println!("COUNT {k} {n}"); }
    for s in &out.samples { println!("SAMPLE {s}"); }
    if std::env::var_os("IXS").is_none() { println!("txs {} ok {} wall {:?}", out.txs, out.txs_ok, t0.elapsed()); return; }
    println!("txs {} ok {} wall {:?}", out.txs, out.txs_ok, t0.elapsed());
    let mut errs: std::collections::BTreeMap<String, Vec<(String,u64)>> = Default::default();
    for (k, v) in &out.ix_err { let (a,b)=k.split_once('/').unwrap(); errs.entry(a.into()).or_default().push((b.into(),*v)); }
    let mut names: std::collections::BTreeSet<String> = out.ix_ok.keys().map(|x| x.to_string()).collect();
    names.extend(errs.keys().cloned());
    for a in abi().values() { names.insert(a.name.to_string()); }
    for n in names {
        let mut e = errs.get(&n).cloned().unwrap_or_default();
        e.sort_by_key(|x| std::cmp::Reverse(x.1)); e.truncate(8);
        println!("{n:45} ok {:6}  {}", out.ix_ok.get(n.as_str()).unwrap_or(&0), e.iter().map(|(a,b)| format!("{a}:{b}")).collect::<Vec<_>>().join(" "));
    }
}
