//! Checks that need no generated pool: `simcore PROP [replay FILE]`.
use doodle_sim::*;
use runner::Sim;
fn main() {
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(run).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}
fn run() -> i32 {
    engine::quiet_panics();
    let a: Vec<String> = std::env::args().collect();
    let (mut sim, o): (Box<dyn Sim>, runner::Opts) = match a[1].as_str() {
        "S01" => {
            let o = runner::Opts::from_env(90_000, 4_000_000);
            let mut s = equiv::Equiv::new("S01", o.seed, equiv::interp_formats().0);
            s.extra = serde_json::json!({"formats": s.fmts.len()});
            (Box::new(s), o)
        }
        n @ ("S10" | "S12" | "S14") => {
            let n = ["S10", "S12", "S14"].into_iter().find(|x| *x == n).unwrap();
            let o = runner::Opts::from_env(if n == "S14" { 120_000 } else { 40_000 }, 4_000_000);
            let (fmts, broken) = equiv::interp_formats();
            let mut s = equiv::Equiv::new(n, o.seed, fmts);
            if n == "S14" {
                s.broken = broken;
            }
            s.extra = serde_json::json!({"formats": s.fmts.len()});
            (Box::new(s), o)
        }
        "S04" => {
            let o = runner::Opts::from_env(400_000, 20_000_000);
            (Box::new(cursor::Cursor { seed: o.seed }), o)
        }
        "S13" => {
            let o = runner::Opts::from_env(400_000, 20_000_000);
            (Box::new(readers::Readers { seed: o.seed }), o)
        }
        "S05" => {
            let o = runner::Opts::from_env(30_000, 1_000_000);
            (Box::new(repro::Repro::new("S05", o.seed)), o)
        }
        "S06" => {
            let o = runner::Opts::from_env(16_000, 1_000_000);
            (Box::new(repro::Repro::new("S06", o.seed)), o)
        }
        _ => return 2,
    };
    match a.get(2).map(|s| s.as_str()) {
        Some("replay") => runner::replay(&mut *sim, &a[3]),
        _ => runner::campaign(&mut *sim, &o),
    }
}
