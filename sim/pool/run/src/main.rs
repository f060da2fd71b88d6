//! S02 runner: links the decoders that `simgen` has just generated from the tree under test.
use doodle_sim::*;
fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(run).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}
fn run() -> i32 {
    engine::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let robust = a.get(1).map(|s| s.as_str()) == Some("S03");
    let o = if robust { runner::Opts::from_env(16_000, 1_000_000) } else { runner::Opts::from_env(200_000, 4_000_000) };
    let mut fmts = vec![];
    let mut table: Vec<(u64, equiv::GenFn)> = vec![];
    let mut ships: Vec<(&str, &str, equiv::GenFn)> = vec![];
    macro_rules! shards {
        ($($k:ident)*) => { $( table.extend($k::table()); ships.extend($k::shipped()); )* };
    }
    shards!(pool_shard0 pool_shard1 pool_shard2 pool_shard3 pool_shard4 pool_shard5 pool_shard6 pool_shard7);
    // (which shard a decoder is compiled in depends on its size; the order of the formats must not)
    table.sort_by_key(|t| t.0);
    ships.sort_by_key(|t| (t.0, t.1));
    let ship_list: Vec<_> = shipped::SELECTORS.iter().copied().chain([("main", equiv::MAIN_FILES, 8)]).chain(robust.then_some(shipped::FONT)).collect();
    let names: Vec<String> = table.iter().map(|t| format!("g{}", t.0)).chain(ship_list.iter().map(|s| s.0.to_string())).collect();
    let broken = equiv::survey(&names);
    for (ix, g) in table {
        let name = format!("g{ix}");
        if broken.contains(&name) {
            continue;
        }
        fmts.push(equiv::Fmt {
            program: equiv::pool_program(POOL_SEED, ix).expect("compiled once already"),
            gens: vec![("generated code".to_string(), g as equiv::GenFn)],
            files: vec![],
            weight: 2,
            model: Some(equiv::pool_source(&name)),
            name,
        });
    }
    let n = fmts.len();
    for (sel, files, weight) in ship_list {
        if broken.iter().any(|b| b == sel) {
            continue;
        }
        let program = engine::caught(|| shipped::program(sel)).expect("compiled once already");
        fmts.push(equiv::Fmt {
            name: sel.to_string(),
            program,
            gens: ships.iter().filter(|x| x.0 == sel).map(|(_, n, g)| (n.to_string(), *g)).collect(),
            files: equiv::corpus(files),
            weight: if robust { weight } else { weight * n.max(1) / 20 },
            model: None,
        });
    }
    let mut sim = equiv::Equiv::new(if robust { "S03" } else { "S02" }, o.seed, fmts);
    sim.extra = serde_json::json!({"pool_formats": n});
    sim.broken = broken;
    match a.get(2).map(|s| s.as_str()) {
        Some("replay") => runner::replay(&mut sim, &a[3]),
        _ => runner::campaign(&mut sim, &o),
    }
}
