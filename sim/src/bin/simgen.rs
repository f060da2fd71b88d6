//! Generates the random-format pool.
//!   simgen vet SEED IX            exit 0 if module IX compiles and generates code (run under a timeout when vetting)
//!   simgen emit OUT SEED IX...    writes gIX.rs and pool.rs for the listed (already vetted) modules
use doodle_sim::*;
use std::collections::BTreeMap;
fn main() {
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(run).unwrap();
    std::process::exit(h.join().unwrap_or(2));
}
fn gen_code(b: &fmtgen::Built) -> Option<String> {
    gen_code_of(&b.module, &b.top)
}
fn gen_code_of(m: &doodle::FormatModule, f: &doodle::Format) -> Option<String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        use doodle::codegen::ToFragment;
        doodle::codegen::generate_code(m, f).to_fragment().to_string()
    }))
    .ok()
}
fn run() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("SIM_V").is_ok() {
            eprintln!("{}", i.to_string().chars().take(400).collect::<String>());
        }
    }));
    match a[1].as_str() {
        "vet" => {
            let (seed, ix): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            let Ok(b) = std::panic::catch_unwind(|| fmtgen::module(seed, ix)) else {
                println!("{ix} ill");
                return 1;
            };
            let c = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                doodle::decoder::Compiler::compile_program(&b.module, &b.top).map(|_| ()).map_err(|e| e.to_string())
            }));
            match c {
                Err(_) => {
                    println!("{ix} compile-panic");
                    return 1;
                }
                Ok(Err(e)) => {
                    println!("{ix} compile-error {}", e.chars().take(160).collect::<String>().replace('\n', " "));
                    return 1;
                }
                Ok(Ok(())) => {}
            }
            if gen_code(&b).is_none() {
                println!("{ix} codegen-panic");
                return 1;
            }
            println!("{ix} ok {:?}", b.used.keys().collect::<Vec<_>>());
            0
        }
        "show" => {
            let b = fmtgen::module(a[2].parse().unwrap(), a[3].parse().unwrap());
            for (l, f) in b.module.iter_formats() {
                let _ = f; println!("def {l} {}: {:?}", b.module.get_name(l), b.module.get_format(l));
            }
            println!("top: {:?}", b.top);
            0
        }
        "model" => {
            // simgen model SEED IX 1,2,3: what the reference decoder and the interpreter make of an image
            let (seed, ix) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            let b = fmtgen::module(seed, ix);
            let img: Vec<u8> = a[4].split(',').filter_map(|x| x.trim().parse().ok()).collect();
            let s = equiv::Source::new(b.module, b.top);
            match model::Model::new(&s.module, &s.params).run(&s.top, &img) {
                Ok(v) => println!("model: soft={} ({}) {:?}", v.soft, v.why_soft, v.successes),
                Err(u) => println!("model: no verdict: {}", u.0),
            }
            println!("interpreter: {}", engine::run_interp(&equiv::pool_program(seed, ix).unwrap(), &img).brief());
            0
        }
        "emit" => {
            let out = std::path::PathBuf::from(&a[2]);
            let seed: u64 = a[3].parse().unwrap();
            std::fs::create_dir_all(&out).unwrap();
            let mut used: BTreeMap<&str, usize> = BTreeMap::new();
            // (module name, table row, shipped row, size)
            let mut parts: Vec<(String, String, String, usize)> = vec![];
            for ix in &a[4..] {
                let k = ix.parse().unwrap();
                let Some((b, code)) = engine::caught(|| fmtgen::module(seed, k)).ok().and_then(|b| gen_code(&b).map(|c| (b, c))) else {
                    println!("nogen {ix}");
                    continue;
                };
                for (k, v) in &b.used {
                    *used.entry(k).or_default() += v;
                }
                std::fs::write(out.join(format!("g{ix}.rs")), post(&code, "Decoder_main")).unwrap();
                parts.push((format!("g{ix}"), format!("({ix}, g{ix}::__sim_run),\n"), String::new(), code.len()));
            }
            // the shipped formats: regenerated from the current tree, and for `main` also the committed generated crate
            let ship_sel = std::env::var("SIM_SHIPPED").unwrap_or("all".into());
            let row = |sel: &str, label: &str, m: &str| format!("({sel:?}, {label:?}, {m}::__sim_run),\n");
            if ship_sel != "none" {
                for (sel, _, _) in shipped::SELECTORS {
                    let Some(code) = engine::caught(|| shipped::build(sel)).ok().and_then(|b| gen_code_of(&b.0, &b.1)) else {
                        println!("nogen {sel}");
                        continue;
                    };
                    std::fs::write(out.join(format!("s_{sel}.rs")), post(&code, "Decoder_main")).unwrap();
                    parts.push((format!("s_{sel}"), String::new(), row(sel, "regenerated code", &format!("s_{sel}")), code.len()));
                }
                let Some(code) = engine::caught(|| shipped::build("main")).ok().and_then(|b| gen_code_of(&b.0, &b.1)) else {
                    println!("nogen main");
                    return 0;
                };
                let regen = post(&code, "Decoder_main");
                let ship = post(&std::fs::read_to_string("/repo/generated/gencode.rs").unwrap(), "Decoder_main");
                let squash = |s: &str| s.chars().filter(|c| !c.is_whitespace() && *c != ',').collect::<String>();
                let same = squash(&regen) == squash(&ship);
                std::fs::write(out.join("s_main.rs"), &regen).unwrap();
                parts.push(("s_main".into(), String::new(), row("main", "regenerated code", "s_main"), regen.len()));
                if !same {
                    std::fs::write(out.join("s_shipped.rs"), &ship).unwrap();
                    parts.push(("s_shipped".into(), String::new(), row("main", "shipped generated code", "s_shipped"), ship.len()));
                }
                println!("shipped text equals regenerated text: {same}");
            }
            // eight shards of about equal size, compiled in parallel
            parts.sort_by_key(|p| (std::cmp::Reverse(p.3), p.0.clone()));
            let mut shards: Vec<(usize, String, String, String)> = vec![Default::default(); 8];
            for (m, t, s, n) in parts {
                let k = (0..8).min_by_key(|k| shards[*k].0).unwrap();
                shards[k].0 += n + 2000;
                shards[k].1 += &format!("#[allow(warnings)] #[path = \"{}/{m}.rs\"] pub mod {m};\n", out.display());
                shards[k].2 += &t;
                shards[k].3 += &s;
            }
            for (k, (_, m, t, s)) in shards.into_iter().enumerate() {
                let f = "fn(&[u8]) -> crate::Outcome";
                let text = format!("{m}pub fn table() -> Vec<(u64, {f})> {{ vec![\n{t}] }}\npub fn shipped() -> Vec<(&'static str, &'static str, {f})> {{ vec![\n{s}] }}\n");
                std::fs::write(out.join(format!("shard{k}.rs")), text).unwrap();
            }
            println!("used {used:?}");
            0
        }
        _ => 2,
    }
}
fn post(code: &str, entry: &str) -> String {
    let mut s = String::new();
    for l in code.lines() {
        if l.starts_with("#![") || l.starts_with("mod codegen_tests") || l.starts_with("pub mod api_helper") {
            continue;
        }
        s += l;
        s += "\n";
    }
    let entry = if s.contains(&format!("fn {entry}<")) { entry.to_string() } else { first_decoder(&s) };
    s += &format!("\npub fn __sim_run(data: &[u8]) -> crate::Outcome {{ crate::run_gen(data, |p| {entry}(p).map(|v| format!(\"{{v:?}}\"))) }}\n");
    s
}

/// The decoder of the top-level format is emitted first.
fn first_decoder(s: &str) -> String {
    let i = s.find("fn Decoder").expect("a decoder function");
    s[i + 3..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect()
}
