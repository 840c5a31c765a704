//! check <property> [--tier quick|thorough] [--seed n] [--replay file]
//! Runs the property's scenarios, random histories and generators under its monitors.
use rand::SeedableRng;
use serde_json::json;
use sim::act::*;
use sim::checks::*;
use sim::mon::{h64, Hub, Out};
use sim::world::{Cfg, World};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
enum Work {
    Case(&'static str),
    Episode(u64),
    Extra(u64),
}

fn adversary(p: &Prop, seed: u64, thorough: f64) {
    if p.id == "C23" {
        sim::adversary::ADVERSARY.with(|a| *a.borrow_mut() = Some(sim::adversary::Adversary::new(seed, 3, thorough)));
    }
}
fn no_adversary() {
    sim::adversary::ADVERSARY.with(|a| *a.borrow_mut() = None);
}

fn episode(p: &Prop, seed: u64, kk: &[String]) -> Out {
    let mut rng = rand_chacha::ChaCha8Rng::seed_from_u64(seed);
    let mut cfg = Cfg::random(&mut rng);
    (p.cfg)(&mut cfg, &mut rng);
    let hub = Rc::new(Hub::new((p.monitors)()));
    let weights: Vec<f64> = ACTIONS
        .iter()
        .map(|(n, _)| {
            base_weight(n)
                * p.weights.iter().filter(|(k, _)| n.contains(k)).map(|(_, m)| *m).product::<f64>()
        })
        .collect();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut w = World::new(seed, cfg, hub.clone());
        adversary(p, seed, 0.1);
        for _ in 0..p.steps {
            w.step(&weights);
            for (chance, f) in p.probes {
                if rand::Rng::gen_bool(&mut w.rng, *chance) {
                    f(&mut w);
                }
            }
            if hub.fresh_violations(kk) || hub.spoiled() {
                break;
            }
        }
    }));
    no_adversary();
    let mut out = hub.take();
    if r.is_err() {
        // the harness gave up in this episode: what was observed up to here counts
        out.count("episodes-cut-short");
    }
    out
}

fn case(p: &Prop, name: &str) -> Out {
    let hub = Rc::new(Hub::new((p.monitors)()));
    sim::pt::solana::DEFAULT_OBSERVERS.with(|d| *d.borrow_mut() = vec![hub.clone()]);
    let f = sim::cases::registry::all().into_iter().find(|(n, _)| *n == name).unwrap().1;
    adversary(p, h64(name), 1.0);
    let r = std::panic::catch_unwind(|| f());
    no_adversary();
    sim::pt::solana::DEFAULT_OBSERVERS.with(|d| d.borrow_mut().clear());
    let mut out = hub.take();
    out.eval("scenario", name, || name.to_string());
    let why = match r {
        Ok(Ok(())) => return out,
        Ok(Err(e)) => e.to_string(),
        Err(p) => p
            .downcast_ref::<String>()
            .cloned()
            .or(p.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panicked".into()),
    };
    out.fail(p.id, &format!("scenario:{name}"), format!("scenario {name} does not end as documented: {why}"));
    out
}

fn run(p: &Prop, w: &Work, seed: u64, kk: &[String]) -> Out {
    match w {
        Work::Case(n) => case(p, n),
        Work::Episode(i) => episode(p, h64((seed, p.id, *i)) & 0xffff_ffff_ffff, kk),
        Work::Extra(i) => {
            let mut o = Out::default();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                (p.extra.as_ref().unwrap().run)(seed, *i, &mut o)
            }));
            if let Err(e) = r {
                let m = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or(e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                o.count("generator-panics");
                o.samples.push(format!("generator-panics: {m}"));
            }
            o
        }
    }
}

struct Known {
    key: String,
    text: String,
}
fn known(root: &str, prop: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(format!("{root}/known-findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let l = l.strip_prefix(&format!("property={prop} "))?;
            let (k, t) = l.strip_prefix("key=")?.split_once(' ')?;
            Some(Known { key: k.into(), text: t.into() })
        })
        .collect()
}

fn main() {
    let t0 = Instant::now();
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let id = args.get(1).cloned().unwrap_or_default();
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let tier = opt("--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let thorough = tier == "thorough";
    let mut seed: u64 = opt("--seed")
        .or(std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let Some(p) = props().into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    sim::world::install_quiet_hook();
    let cap = Duration::from_secs(
        opt("--cap").and_then(|c| c.parse().ok()).unwrap_or(if thorough { 800 } else { 120 }),
    );

    let mut work: Vec<Work> = vec![];
    if let Some(f) = opt("--replay") {
        let j: serde_json::Value =
            serde_json::from_str(&std::fs::read_to_string(f).expect("replay file")).expect("json");
        seed = j["seed"].as_u64().unwrap();
        let i = j["work"]["index"].as_u64().unwrap_or(0);
        work.push(match j["work"]["kind"].as_str().unwrap() {
            "scenario" => {
                let n = j["work"]["name"].as_str().unwrap().to_string();
                Work::Case(sim::cases::registry::all().into_iter().find(|c| c.0 == n).unwrap().0)
            }
            "episode" => Work::Episode(i),
            _ => Work::Extra(i),
        });
    } else {
        for (n, _) in sim::cases::registry::all() {
            if p.cases.iter().any(|c| n.split("::").next() == c.strip_prefix("test_")) {
                work.push(Work::Case(n));
            }
        }
        if let Some(e) = &p.extra {
            let n = if thorough { e.items.1 } else { e.items.0 };
            work.extend((0..n).map(Work::Extra));
        }
        let n = opt("--episodes")
            .and_then(|c| c.parse().ok())
            .unwrap_or(if thorough { p.episodes.1 } else { p.episodes.0 });
        work.extend((0..n).map(Work::Episode));
    }
    let knowns = known(&root, &id);
    let is_known = |k: &str| knowns.iter().any(|x| x.key == k);
    let work = Arc::new(work);
    let next = Arc::new(AtomicU64::new(0));
    let all: Arc<Mutex<(Out, Vec<(Work, sim::mon::Violation)>, u64)>> = Default::default();
    let known_keys: Arc<Vec<String>> = Arc::new(knowns.iter().map(|k| k.key.clone()).collect());
    let threads: usize = opt("--threads").and_then(|t| t.parse().ok()).unwrap_or(8);
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let (work, next, all, id, kk) = (work.clone(), next.clone(), all.clone(), id.clone(), known_keys.clone());
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let p = props().into_iter().find(|p| p.id == id).unwrap();
                    let mut mine = Out::default();
                    let mut viol = vec![];
                    let mut done = 0;
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst) as usize;
                        if i >= work.len() {
                            break;
                        }
                        if t0.elapsed() > cap && !matches!(work[i], Work::Case(_)) {
                            continue;
                        }
                        let mut o = run(&p, &work[i], seed, &kk);
                        done += 1;
                        let vs: Vec<_> =
                            std::mem::take(&mut o.violations).into_iter().map(|mut v| { v.prop = p.id.into(); v }).collect();
                        mine.merge(o);
                        let fresh = vs.iter().any(|v| !kk.contains(&v.key));
                        viol.extend(vs.into_iter().map(|v| (work[i].clone(), v)));
                        if fresh && viol.len() > 20 {
                            // enough to report
                            next.store(u32::MAX as u64, Ordering::SeqCst);
                        }
                    }
                    let mut a = all.lock().unwrap();
                    a.0.merge(mine);
                    a.1.extend(viol);
                    a.2 += done;
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            eprintln!("a worker died");
            std::process::exit(3);
        }
    }
    let (out, viol, done) = std::mem::take(&mut *all.lock().unwrap());
    // one representative per kind
    let mut by_key: BTreeMap<String, (u64, Work, sim::mon::Violation)> = BTreeMap::new();
    for (w, v) in viol {
        let e = by_key.entry(v.key.clone()).or_insert((0, w.clone(), v.clone()));
        e.0 += 1;
        if v.tx < e.2.tx {
            e.1 = w;
            e.2 = v;
        }
    }
    let ev_dir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(format!("{ev_dir}/replays"));
    for k in &knowns {
        println!("KNOWN-FINDING: property={id} {}", k.text);
    }
    let mut n_fresh = 0;
    for (i, (k, (n, w, v))) in by_key.iter().enumerate() {
        if is_known(k) {
            continue;
        }
        n_fresh += 1;
        let wj = match w {
            Work::Case(n) => json!({"kind":"scenario","name":n}),
            Work::Episode(i) => json!({"kind":"episode","index":i}),
            Work::Extra(i) => json!({"kind":"generator","index":i}),
        };
        let path = format!("{ev_dir}/replays/{id}-{i}.json");
        let j = json!({
            "property": id, "seed": seed, "work": wj, "key": k, "count": n, "transaction": v.tx,
            "message": v.msg,
            "how": format!("/verif/check.sh {id} --replay {path}"),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
        if i < 5 {
            println!("  {k} (x{n}): {}", v.msg.chars().take(600).collect::<String>());
        }
        println!("VIOLATION property={id} replay={path}");
    }
    let planned = work.len() as u64;
    let wall = t0.elapsed().as_secs_f64();
    let reached: BTreeMap<_, _> = out.ix_ok.iter().map(|(k, v)| (k.to_string(), *v)).collect();
    let mut samples = out.samples.clone();
    samples.truncate(30);
    let ev = json!({
        "property": id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": out.evals,
            "distinct_nontrivial": out.distinct.len(),
            "rule": "an evaluation is one application of the oracle to an observed event for which it could have failed; two are the same if the oracle's inputs (kind of event plus the quantities it judged) are equal",
            "samples": samples,
            "observed": out.counters,
            "transactions": out.txs,
            "transactions_committed": out.txs_ok,
            "instructions_committed": reached,
            "work_items_planned": planned,
            "work_items_done": done,
        },
        "wall_s": wall,
        "violations": n_fresh,
        "assumptions": [
            "the program runs natively on a small runtime that reproduces account loading, CPI, token and system program effects, transaction atomicity and clock",
            "accounts given to the program are laid out as the cluster would lay them out; the serum-dex, pyth, switchboard and raydium crates are stand-ins with the same layouts",
        ],
    });
    let _ = std::fs::write(format!("{ev_dir}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap());
    println!(
        "{id}: {} evaluations, {} distinct, {} of {} transactions committed, {done}/{planned} work items, {wall:.1} s, {n_fresh} violations",
        out.evals,
        out.distinct.len(),
        out.txs_ok,
        out.txs
    );
    std::process::exit(if n_fresh > 0 { 1 } else { 0 });
}
