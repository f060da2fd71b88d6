//! Campaign driver: seeded runs in forked simulated processes, violation reporting, minimisation, replay, evidence.

use crate::sys;
use serde::{Deserialize, Serialize};
use serde_json::{Value as Json, json};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    /// stable identity of what went wrong; minimisation and replay preserve it
    pub class: String,
    pub detail: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Report {
    /// digest of everything observed in the run
    pub digest: u64,
    /// simulated time covered
    pub vtime: u64,
    /// counters, e.g. `fault:truncate`
    pub stats: BTreeMap<String, u64>,
    /// hashes of the distinct states the run reached
    pub states: Vec<u64>,
    pub viol: Option<Viol>,
}

impl Report {
    pub fn count(&mut self, k: impl Into<String>) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: impl Into<String>, n: u64) {
        *self.stats.entry(k.into()).or_default() += n;
    }
    pub fn observe(&mut self, s: &str) {
        let h = crate::rng::fnv(s.as_bytes());
        self.digest = (self.digest ^ h).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(17);
    }
    pub fn state(&mut self, s: &str) {
        self.states.push(crate::rng::fnv(s.as_bytes()));
    }
    pub fn fail(&mut self, class: impl Into<String>, detail: impl Into<String>) {
        if self.viol.is_none() {
            self.viol = Some(Viol { class: class.into(), detail: detail.into() });
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Death {
    AllocCalls,
    AllocBytes,
    Signal(i32),
    Exit(i32),
    Hang,
}

impl Death {
    pub fn text(&self) -> String {
        match self {
            Death::AllocCalls => "ran past its allocation-call budget".into(),
            Death::AllocBytes => "ran past its memory budget".into(),
            Death::Signal(6) => "aborted".into(),
            Death::Signal(11) | Death::Signal(7) => "memory fault".into(),
            Death::Signal(n) => format!("killed by signal {n}"),
            Death::Exit(n) => format!("exited with status {n}"),
            Death::Hang => "made no progress".into(),
        }
    }
}

pub trait Sim {
    fn property(&self) -> &str;
    /// Draws run `ix`: explicit, self-contained, replayable.
    fn plan(&mut self, ix: u64) -> Json;
    fn exec(&mut self, sc: &Json) -> Report;
    /// Simpler scenarios to try while minimising.
    fn shrink(&mut self, sc: &Json) -> Vec<Json>;
    /// The simulated process died during `exec`. `None`: not this property's business.
    fn death(&mut self, sc: &Json, how: &Death) -> Option<Viol>;
    fn rule(&self) -> String;
    fn real_and_stub(&self) -> Json;
    fn assumptions(&self) -> Vec<String>;
    fn level(&self) -> &'static str {
        "exploration"
    }
    /// Coverage probes (stat keys) that must be non-zero for the batch to mean anything.
    fn probes(&self) -> Vec<&'static str> {
        vec![]
    }
    fn hang_secs(&self) -> u64 {
        60
    }
    /// Text for a known finding's KNOWN-FINDING line is taken from the file; this only lets a sim add evidence.
    fn extra(&self) -> Json {
        json!({})
    }
}

#[derive(Deserialize, Clone, Debug)]
pub struct Finding {
    pub property: String,
    pub status: String,
    #[serde(default)]
    pub class: String,
    pub what: String,
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub runs: u64,
    pub workers: usize,
    pub wall: Duration,
    pub out: std::path::PathBuf,
    pub replays: std::path::PathBuf,
    pub findings: Vec<Finding>,
    pub digest_only: bool,
}

impl Opts {
    pub fn from_env(quick: u64, thorough: u64) -> Opts {
        let env = |k: &str| std::env::var(k).ok();
        let tier = match env("VERIF_TIER").as_deref() {
            Some("thorough") => "thorough".to_string(),
            _ => "quick".to_string(),
        };
        let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
        let t = tier == "thorough";
        let runs = env("SIM_RUNS").and_then(|s| s.parse().ok()).unwrap_or(if t { thorough } else { quick });
        let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
        let workers = env("SIM_WORKERS").and_then(|s| s.parse().ok()).unwrap_or(ncpu.clamp(1, 8));
        let wall =
            env("SIM_WALL").and_then(|s| s.parse().ok()).unwrap_or(if t { 3600 } else { 240 });
        let root = std::path::PathBuf::from(env("VERIF_ROOT").unwrap_or("/verif".into()));
        let findings = std::fs::read_to_string(root.join("known-findings.json"))
            .ok()
            .and_then(|s| serde_json::from_str::<Vec<Finding>>(&s).ok())
            .unwrap_or_default();
        Opts {
            tier,
            seed,
            runs,
            workers,
            wall: Duration::from_secs(wall),
            out: root.join("evidence"),
            replays: root.join("evidence").join("replays"),
            findings,
            digest_only: env("SIM_DIGEST").is_some(),
        }
    }
}

struct Child {
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    queue: VecDeque<u64>,
    cur: Option<u64>,
    plan: Option<Json>,
    last: Instant,
}

fn spawn(sim: &mut dyn Sim, queue: VecDeque<u64>) -> Child {
    let mut fds = [0i32; 2];
    unsafe {
        if sys::pipe(fds.as_mut_ptr()) != 0 {
            panic!("pipe");
        }
        let pid = sys::fork();
        if pid < 0 {
            panic!("fork");
        }
        if pid == 0 {
            sys::close(fds[0]);
            sys::prctl(1, 9i64); // die with the parent
            mute();
            for ix in queue {
                sys::write_all(fds[1], format!("S {ix}\n").as_bytes());
                let p = sim.plan(ix);
                sys::write_all(fds[1], format!("P {ix} {p}\n").as_bytes());
                let r = sim.exec(&p);
                sys::write_all(fds[1], format!("R {ix} {}\n", serde_json::to_string(&r).unwrap()).as_bytes());
            }
            sys::_exit(0);
        }
        sys::close(fds[1]);
        Child { pid, fd: fds[0], buf: vec![], queue, cur: None, plan: None, last: Instant::now() }
    }
}

pub fn mute() {
    if std::env::var_os("SIM_V").is_none() {
        unsafe {
            let n = sys::open(c"/dev/null".as_ptr(), 1);
            sys::dup2(n, 1);
            sys::dup2(n, 2);
        }
    }
}

fn reap(pid: i32, hung: bool) -> Option<Death> {
    let mut st = 0;
    unsafe {
        if hung {
            sys::kill(pid, 9);
        }
        sys::waitpid(pid, &mut st, 0);
    }
    if hung {
        return Some(Death::Hang);
    }
    let sig = st & 0x7f;
    let code = (st >> 8) & 0xff;
    if sig != 0 {
        Some(Death::Signal(sig))
    } else {
        match code {
            0 => None,
            crate::alloc::EXIT_CALLS => Some(Death::AllocCalls),
            crate::alloc::EXIT_BYTES => Some(Death::AllocBytes),
            n => Some(Death::Exit(n)),
        }
    }
}

/// Executes one scenario in a forked process, so that its death is an observation.
pub fn exec_forked(sim: &mut dyn Sim, sc: &Json) -> Report {
    let hang = Duration::from_secs(sim.hang_secs());
    let mut fds = [0i32; 2];
    unsafe {
        if sys::pipe(fds.as_mut_ptr()) != 0 {
            panic!("pipe");
        }
        let pid = sys::fork();
        if pid < 0 {
            panic!("fork");
        }
        if pid == 0 {
            sys::close(fds[0]);
            sys::prctl(1, 9i64);
            mute();
            let r = sim.exec(sc);
            sys::write_all(fds[1], serde_json::to_string(&r).unwrap().as_bytes());
            sys::_exit(0);
        }
        sys::close(fds[1]);
        let start = Instant::now();
        let mut buf = vec![];
        let mut hung = false;
        loop {
            let mut p = sys::pollfd { fd: fds[0], events: 1, revents: 0 };
            sys::poll(&mut p, 1, 200);
            if p.revents != 0 {
                let mut b = [0u8; 65536];
                let n = sys::read(fds[0], b.as_mut_ptr() as *mut _, b.len());
                if n <= 0 {
                    break;
                }
                buf.extend_from_slice(&b[..n as usize]);
            } else if start.elapsed() > hang {
                hung = true;
                break;
            }
        }
        sys::close(fds[0]);
        match reap(pid, hung) {
            None => serde_json::from_slice(&buf).unwrap_or_default(),
            Some(d) => {
                let mut r = Report::default();
                r.count(format!("death:{}", d.text()));
                r.viol = sim.death(sc, &d);
                r
            }
        }
    }
}

pub fn minimise(sim: &mut dyn Sim, sc: Json, class: &str, limit: Duration) -> (Json, Report, u64) {
    let t0 = Instant::now();
    let mut best = sc;
    let mut rep = exec_forked(sim, &best);
    let mut tries = 1;
    'outer: loop {
        for cand in sim.shrink(&best) {
            if t0.elapsed() > limit || tries > 3000 {
                break 'outer;
            }
            tries += 1;
            let r = exec_forked(sim, &cand);
            if r.viol.as_ref().is_some_and(|v| v.class == class) {
                best = cand;
                rep = r;
                continue 'outer;
            }
        }
        break;
    }
    (best, rep, tries)
}

#[derive(Default)]
struct Tally {
    digests: BTreeMap<u64, u64>,
    stats: BTreeMap<String, u64>,
    states: BTreeSet<u64>,
    vtime: u128,
    samples: Vec<Json>,
    known: BTreeMap<String, u64>,
    viols: BTreeMap<u64, (Json, Viol)>,
    done: u64,
}

impl Tally {
    fn take(&mut self, ix: u64, plan: Option<Json>, r: Report, prop: &str, findings: &[Finding]) {
        self.digests.insert(ix, r.digest);
        for (k, v) in r.stats {
            *self.stats.entry(k).or_default() += v;
        }
        self.states.extend(r.states);
        self.vtime += r.vtime as u128;
        self.done += 1;
        if let Some(p) = &plan {
            if self.samples.len() < 3 && p.to_string().len() < 1500 {
                self.samples.push(p.clone());
            }
        }
        if let Some(v) = r.viol {
            if findings.iter().any(|f| f.property == prop && f.status == "known" && f.class == v.class) {
                *self.known.entry(v.class).or_default() += 1;
            } else {
                self.viols.insert(ix, (plan.unwrap_or(Json::Null), v));
            }
        }
    }
}

/// Runs the campaign; returns the process exit code.
pub fn campaign(sim: &mut dyn Sim, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let prop = sim.property().to_string();
    let hang = Duration::from_secs(sim.hang_secs());
    let mut tally = Tally::default();
    let mut kids: Vec<Child> = (0..o.workers)
        .map(|w| {
            let q: VecDeque<u64> = (0..o.runs).filter(|i| (*i as usize) % o.workers == w).collect();
            spawn(sim, q)
        })
        .collect();
    let mut stopped = false;
    let triage = std::env::var_os("SIM_TRIAGE").is_some();
    let mut harness_err: Option<String> = None;
    while !kids.is_empty() {
        let mut pf: Vec<sys::pollfd> =
            kids.iter().map(|k| sys::pollfd { fd: k.fd, events: 1, revents: 0 }).collect();
        unsafe { sys::poll(pf.as_mut_ptr(), pf.len() as u64, 500) };
        let limit = if triage { u64::MAX } else { tally.viols.keys().next().copied().unwrap_or(u64::MAX) };
        if t0.elapsed() > o.wall {
            stopped = true;
        }
        let mut i = 0;
        let mut next = vec![];
        for mut k in kids {
            let ready = pf[i].revents != 0;
            i += 1;
            let mut eof = false;
            if ready {
                let mut b = vec![0u8; 1 << 16];
                let n = unsafe { sys::read(k.fd, b.as_mut_ptr() as *mut _, b.len()) };
                if n <= 0 {
                    eof = true;
                } else {
                    k.last = Instant::now();
                    k.buf.extend_from_slice(&b[..n as usize]);
                    let mut start = 0;
                    while let Some(e) = k.buf[start..].iter().position(|c| *c == b'\n') {
                        let line = String::from_utf8_lossy(&k.buf[start..start + e]).to_string();
                        start += e + 1;
                        let mut it = line.splitn(3, ' ');
                        let tag = it.next().unwrap_or("");
                        let ix: u64 = it.next().and_then(|s| s.parse().ok()).unwrap_or(0);
                        let rest = it.next().unwrap_or("");
                        match tag {
                            "S" => {
                                k.cur = Some(ix);
                                k.plan = None;
                            }
                            "P" => k.plan = serde_json::from_str(rest).ok(),
                            "R" => {
                                k.queue.retain(|q| *q != ix);
                                k.cur = None;
                                match serde_json::from_str::<Report>(rest) {
                                    Ok(r) => tally.take(ix, k.plan.take(), r, &prop, &o.findings),
                                    Err(e) => harness_err = Some(format!("bad report: {e}")),
                                }
                            }
                            _ => harness_err = Some(format!("bad line {line}")),
                        }
                    }
                    k.buf.drain(..start);
                }
            }
            let hung = !eof && k.last.elapsed() > hang;
            if eof || hung {
                unsafe { sys::close(k.fd) };
                let d = reap(k.pid, hung);
                if let Some(d) = d {
                    if let Some(ix) = k.cur {
                        let mut r = Report::default();
                        r.observe(&d.text());
                        r.count(format!("death:{}", d.text()));
                        match &k.plan {
                            Some(p) => r.viol = sim.death(p, &d),
                            None => r.count("death-while-planning"),
                        }
                        k.queue.retain(|q| *q != ix);
                        tally.take(ix, k.plan.take(), r, &prop, &o.findings);
                    } else {
                        harness_err = Some(format!("worker died outside a run: {}", d.text()));
                    }
                    if !k.queue.is_empty() && !stopped && harness_err.is_none() {
                        next.push(spawn(sim, k.queue));
                    }
                }
                continue;
            }
            let past = k.cur.is_some_and(|c| c > limit);
            if stopped || past || harness_err.is_some() {
                unsafe { sys::close(k.fd) };
                reap(k.pid, true);
                continue;
            }
            next.push(k);
        }
        kids = next;
    }
    let secs = t0.elapsed().as_secs_f64();
    if let Some(e) = harness_err {
        eprintln!("HARNESS ERROR: {e}");
        return 3;
    }
    let mut hist: u64 = 0;
    for (ix, d) in &tally.digests {
        hist = (hist ^ ix ^ d.rotate_left(7)).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23);
    }
    if o.digest_only {
        println!("digest {prop} seed={} runs={} {hist:016x} states={}", o.seed, tally.done, tally.states.len());
        return 0;
    }
    if triage {
        let mut seen: BTreeMap<String, (u64, Json)> = BTreeMap::new();
        for (_, (plan, v)) in &tally.viols {
            let e = seen.entry(format!("{} {}", plan["fmt"], v.class)).or_insert((0, plan.clone()));
            e.0 += 1;
        }
        println!("{} violations, {} kinds, of {} runs", tally.viols.len(), seen.len(), tally.done);
        for (k, (n, plan)) in seen {
            let class = exec_forked(sim, &plan).viol.map(|v| v.class).unwrap_or_default();
            let (min, rep, _) = minimise(sim, plan, &class, Duration::from_secs(20));
            println!("== {n} x {k}\n   {}\n   {}", rep.viol.map(|v| v.detail).unwrap_or_default(), min);
        }
        println!("{:#?}", tally.stats);
        return 0;
    }
    let mut code = 0;
    let mut reported = Json::Null;
    if let Some((ix, (plan, v))) = tally.viols.iter().next().map(|(a, b)| (*a, b.clone())) {
        let (min, rep, tries) = minimise(sim, plan.clone(), &v.class, Duration::from_secs(90));
        let again = exec_forked(sim, &min);
        let (min, v2) = match rep.viol.clone() {
            Some(x) if again.viol.as_ref() == Some(&x) => (min, x),
            _ => (plan.clone(), v.clone()),
        };
        std::fs::create_dir_all(&o.replays).ok();
        let path = o.replays.join(format!("{prop}-seed{}-run{ix}.json", o.seed));
        let file = json!({
            "property": prop, "seed": o.seed, "run": ix, "class": v2.class, "detail": v2.detail,
            "scenario": min, "original_scenario": plan, "minimisation_steps": tries,
        });
        std::fs::write(&path, serde_json::to_string_pretty(&file).unwrap()).unwrap();
        println!("seed={} run={ix}: {} -- {}", o.seed, v2.class, v2.detail);
        println!("VIOLATION property={prop} replay={}", path.display());
        reported = json!({"class": v2.class, "detail": v2.detail, "replay": path.display().to_string()});
        code = 1;
    }
    let missing: Vec<&str> = sim
        .probes()
        .into_iter()
        .filter(|p| !tally.stats.iter().any(|(k, v)| *v > 0 && (k == p || k.starts_with(&format!("{p}:")))))
        .collect();
    for f in &o.findings {
        if f.property == prop && f.status == "known" {
            println!("KNOWN-FINDING: property={prop} {}", f.what);
        }
    }
    let faults: BTreeMap<&String, &u64> = tally.stats.iter().filter(|(k, _)| k.starts_with("fault:")).collect();
    let fault_total: u64 = faults.values().map(|v| **v).sum();
    let ev = json!({
        "property": prop, "tier": o.tier, "seed": o.seed, "level": sim.level(),
        "coverage": {
            "evaluations": tally.done,
            "distinct_nontrivial": tally.states.len(),
            "rule": sim.rule(),
            "samples": tally.samples,
            "simulated_runs_per_hour": (tally.done as f64 / secs.max(0.001) * 3600.0) as u64,
            "seeds": tally.done,
            "simulated_time_ticks": tally.vtime as u64,
            "faults_injected": faults,
            "faults_injected_total": fault_total,
            "counters": tally.stats,
            "history_digest": format!("{hist:016x}"),
            "stopped_by_wall_clock": stopped,
            "probes_missing": missing,
            "components": sim.real_and_stub(),
            "known_findings_seen": tally.known,
            "workers": o.workers,
            "extra": sim.extra(),
            "reported": reported,
        },
        "assumptions": sim.assumptions(),
        "wall_s": secs,
        "violations": tally.viols.len(),
    });
    std::fs::create_dir_all(&o.out).unwrap();
    std::fs::write(o.out.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{prop}: {} runs, {} distinct states, {} faults, {:.1}s, digest {hist:016x}{}",
        tally.done,
        tally.states.len(),
        fault_total,
        secs,
        if missing.is_empty() { String::new() } else { format!(", probes never hit: {missing:?}") }
    );
    code
}

/// Re-executes a replay file; exit 1 and the violation line if it reproduces exactly, 0 if it does not fail.
pub fn replay(sim: &mut dyn Sim, path: &str) -> i32 {
    let f: Json = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let r = exec_forked(sim, &f["scenario"]);
    match r.viol {
        Some(v) => {
            let same = f["class"] == v.class.as_str() && f["detail"] == v.detail.as_str();
            println!("{} -- {}", v.class, v.detail);
            println!("{}", if same { "reproduced exactly" } else { "fails, but differently from the recording" });
            println!("VIOLATION property={} replay={path}", sim.property());
            1
        }
        None => {
            println!("no violation on this tree");
            0
        }
    }
}
