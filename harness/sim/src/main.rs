fn main() {
    let f = std::env::args().nth(1).unwrap_or_default();
    for (n, c) in sim::cases::registry::all() {
        if !n.contains(&f) { continue; }
        let t = std::time::Instant::now();
        let r = std::panic::catch_unwind(|| c());
        let r = match r { Ok(Ok(())) => "ok".to_string(), Ok(Err(e)) => format!("ERR {e}"), Err(_) => "PANIC".into() };
        println!("CASE {n} {r} {:?}", t.elapsed());
    }
}
