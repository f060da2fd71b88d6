//! `simcli PROP [replay FILE]`: checks that run whole built programs under the I/O shim.
#[path = "../../src/alloc.rs"]
#[allow(dead_code)]
mod alloc;
#[path = "../../src/cli.rs"]
mod cli;
#[path = "../../src/disk.rs"]
mod disk;
#[path = "../../src/rng.rs"]
mod rng;
#[path = "../../src/runner.rs"]
mod runner;
#[path = "../../src/sys.rs"]
#[allow(dead_code)]
mod sys;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (p, quick, thorough) = match a[1].as_str() {
        "S07" => ("S07", 16_000, 1_000_000),
        "S08" => ("S08", 12_000, 1_000_000),
        "S09" => ("S09", 16_000, 1_000_000),
        "S11" => ("S11", 10_000, 400_000),
        _ => std::process::exit(2),
    };
    let o = runner::Opts::from_env(quick, thorough);
    let mut sim = cli::Cli::new(p, o.seed);
    let rc = match a.get(2).map(|s| s.as_str()) {
        Some("replay") => runner::replay(&mut sim, &a[3]),
        _ => runner::campaign(&mut sim, &o),
    };
    sim.clean();
    std::process::exit(rc);
}
