//! S05 and S06: what the library computes is a function of its arguments alone.
//!
//! Simulated caller threads perform operations (type check, compile, generate code, serialise, decode). One
//! token decides who runs; it changes hands at allocations, where the plan says. Each thread's hash seeds come
//! from the plan too. Every result is compared with that of a fresh thread that did nothing else.

use crate::engine::caught;
use crate::fmtgen;
use crate::rng::{Rng, fnv};
use crate::runner::{Death, Report, Sim, Viol};
use doodle::codegen::ToFragment;
use doodle::decoder::{Compiler, Program};
use doodle::read::ReadCtxt;
use doodle::{Format, FormatModule};
use serde::{Deserialize, Serialize};
use serde_json::{Value as Json, json};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};

// ---- randomness seam: std's HashMap keys come from getrandom ----

thread_local! {
    static HASH: Cell<u64> = const { Cell::new(0) };
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = HASH.try_with(|h| h.get()).unwrap_or(0);
    for i in 0..len {
        s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        unsafe { *buf.add(i) = (z ^ (z >> 31)) as u8 };
    }
    let _ = HASH.try_with(|h| h.set(s));
    len as isize
}

// ---- scheduling seam ----

#[derive(Default)]
struct Token {
    holder: usize,
    live: Vec<bool>,
    plan: Vec<(usize, u64)>,
    at: usize,
    trace: Vec<(usize, u64)>,
    tids: Vec<i32>,
    /// the holder met a lock that a waiting thread holds: the schedule is given up and everybody runs
    free: bool,
}
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static TOKEN: Mutex<Option<Token>> = Mutex::new(None);
static TURN: Condvar = Condvar::new();
thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static LEFT: Cell<u64> = const { Cell::new(u64::MAX) };
    static SEEN: Cell<u64> = const { Cell::new(0) };
}

fn lock() -> std::sync::MutexGuard<'static, Option<Token>> {
    TOKEN.lock().unwrap_or_else(|e| e.into_inner())
}

/// Hands the token on as the plan says and returns when this thread holds it again.
fn hand_over(done: bool) {
    let me = ME.get();
    let mut g = lock();
    {
        let Some(t) = g.as_mut() else { return };
        t.trace.push((me, SEEN.get()));
        if done {
            t.live[me] = false;
        }
        let mut next = None;
        while t.at < t.plan.len() && next.is_none() {
            let (w, _) = t.plan[t.at];
            if t.live.get(w) == Some(&true) {
                next = Some(w);
            } else {
                t.at += 1;
            }
        }
        // past the plan: whoever is left runs to the end, in order
        t.holder = next.or_else(|| t.live.iter().position(|x| *x)).unwrap_or(usize::MAX);
    }
    TURN.notify_all();
    if !done {
        wait_turn(g);
    }
}
fn wait_turn(mut g: std::sync::MutexGuard<'static, Option<Token>>) {
    let me = ME.get();
    while g.as_ref().is_some_and(|t| t.holder != me && !t.free) {
        g = TURN.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    let Some(t) = g.as_mut() else { return };
    let q = match t.plan.get(t.at) {
        Some((w, q)) if *w == me && !t.free => {
            t.at += 1;
            *q
        }
        _ => u64::MAX,
    };
    LEFT.set(q);
}
fn at_allocation() {
    SEEN.set(SEEN.get() + 1);
    PROGRESS.fetch_add(1, Ordering::Relaxed);
    let l = LEFT.get();
    if l == u64::MAX || std::thread::panicking() {
        return;
    }
    if l <= 1 {
        LEFT.set(u64::MAX);
        hand_over(false);
    } else {
        LEFT.set(l - 1);
    }
}

// ---- operations ----

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Op {
    /// type | code | json | debug | decode | trace | gencode
    op: String,
    /// g<index> of the generator, or the selector of a shipped format
    module: String,
    image: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Sc {
    fmt: String,
    threads: Vec<Vec<Op>>,
    hash: Vec<u64>,
    sched: Vec<(usize, u64)>,
    /// every thread keeps the modules and programs it made and uses them again
    keep: bool,
}

fn source(m: &str) -> Result<(FormatModule, Format), String> {
    match m.strip_prefix('g').and_then(|s| s.parse::<u64>().ok()) {
        Some(ix) => caught(|| fmtgen::module(crate::POOL_SEED, ix)).map(|b| (b.module, b.top)),
        None => caught(|| crate::shipped::build(m)),
    }
}

#[derive(Default)]
struct Kept {
    src: BTreeMap<String, Result<(FormatModule, Format), String>>,
    prog: BTreeMap<String, Result<Program, String>>,
}

fn perform(op: &Op, k: &mut Kept) -> String {
    let src = k.src.entry(op.module.clone()).or_insert_with(|| source(&op.module));
    let (m, f) = match src {
        Ok(x) => x,
        Err(e) => return format!("no module: {e}"),
    };
    let r = match op.op.as_str() {
        "type" => caught(|| {
            let mut s = String::new();
            for (level, f) in m.iter_formats() {
                s += &match doodle::typecheck(m, &f) {
                    Ok(t) => format!("{level}: {t:?} / {:?}\n", m.get_format_type(level)),
                    Err(e) => format!("{level}: error {e}\n"),
                };
            }
            s += &format!("{:?}", doodle::typecheck(m, f).map_err(|e| e.to_string()));
            s
        }),
        "code" => caught(|| format!("{}", doodle::codegen::generate_code(m, f).to_fragment())),
        "json" => caught(|| serde_json::to_string(&*m).unwrap()),
        "debug" => caught(|| format!("{m:?}")),
        "gencode" => caught(|| {
            let mut p = doodle::prelude::Parser::new(&op.image);
            use doodle::prelude::CommonObject;
            match op.module.as_str() {
                "png" => format!("{:?}", doodle_gencode::png_main::parse(&mut p, ())),
                "elf" => format!("{:?}", doodle_gencode::elf_main::parse(&mut p, ())),
                _ => format!("{:?}", doodle_gencode::opentype_main::parse(&mut p, ())),
            }
        }),
        o => {
            let p = k.prog.entry(op.module.clone()).or_insert_with(|| {
                caught(|| Compiler::compile_program(m, f).map_err(|e| e.to_string())).and_then(|x| x)
            });
            match p {
                Err(e) => Ok(format!("no program: {e}")),
                Ok(p) if o == "decode" => caught(|| match p.run(ReadCtxt::new(&op.image)) {
                    Ok((v, r)) => format!("{} {v:?}", r.offset),
                    Err(e) => format!("error {e}"),
                }),
                Ok(p) => caught(|| match p.run_with_loc(ReadCtxt::new(&op.image)) {
                    Ok((v, r)) => format!("{} {v:?}", r.offset),
                    Err(e) => format!("error {e}"),
                }),
            }
        }
    };
    r.unwrap_or_else(|e| format!("panic {e}"))
}

fn fresh<T: Send + 'static>(hash: u64, f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            HASH.set(hash);
            f()
        })
        .expect("thread")
        .join()
        .expect("simulated thread")
}

/// Waits for the threads. A token holder that sleeps met a lock whose owner waits for its turn: then all may run.
fn supervise<T>(hs: &[std::thread::JoinHandle<T>], rep: &mut Report) -> Result<(), String> {
    let (mut last, mut since) = (0, std::time::Instant::now());
    let mut nap = 20;
    while !hs.iter().all(|h| h.is_finished()) {
        std::thread::sleep(std::time::Duration::from_micros(nap));
        nap = (nap * 2).min(5000);
        let now = PROGRESS.load(Ordering::Relaxed);
        if now != last {
            (last, since) = (now, std::time::Instant::now());
            continue;
        }
        let idle = since.elapsed().as_secs();
        if idle < 2 {
            continue;
        }
        let mut g = lock();
        let t = g.as_mut().expect("token");
        let asleep = |i: usize| {
            let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", t.tids[i])).unwrap_or_default();
            s.rsplit(')').next().is_some_and(|x| x.trim_start().starts_with('S'))
        };
        if !t.free {
            if t.holder < t.tids.len() && asleep(t.holder) {
                t.free = true;
                since = std::time::Instant::now();
                rep.count("schedules given up at a lock");
                TURN.notify_all();
            }
        } else if idle >= 20 && (0..t.tids.len()).all(|i| !t.live[i] || asleep(i)) {
            return Err("every unfinished thread sleeps".into());
        }
    }
    Ok(())
}

pub struct Repro {
    pub prop: &'static str,
    pub seed: u64,
    refs: BTreeMap<Op, String>,
    good: Vec<u64>,
    images: BTreeMap<String, Vec<Vec<u8>>>,
}

impl Repro {
    pub fn new(prop: &'static str, seed: u64) -> Repro {
        let mut good: Vec<u64> = crate::POOL.split_whitespace().filter_map(|s| s.parse().ok()).collect();
        good.sort();
        let mut images: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
        for (sel, files, _) in crate::shipped::SELECTORS {
            let v = crate::equiv::corpus(files).into_iter().map(|x| x.1).filter(|d| d.len() < 20_000).collect();
            images.insert(sel.to_string(), v);
        }
        let font = crate::equiv::corpus(&["test-fonts/Zycon.ttf", "test-fonts/gzipped.ttf"]);
        images.insert("opentype".into(), font.into_iter().map(|x| x.1).collect());
        let main = crate::equiv::corpus(crate::equiv::MAIN_FILES).into_iter().map(|x| x.1);
        images.insert("main".into(), main.filter(|d| d.len() < 5_000).collect());
        Repro { prop, seed, refs: BTreeMap::new(), good, images }
    }

    fn reference(&mut self, op: &Op) -> String {
        if let Some(x) = self.refs.get(op) {
            return x.clone();
        }
        let o = op.clone();
        crate::alloc::arm(60_000_000, 2 << 30);
        let x = fresh(0, move || perform(&o, &mut Kept::default()));
        crate::alloc::disarm();
        if self.refs.len() > 4000 {
            self.refs.clear();
        }
        self.refs.insert(op.clone(), x.clone());
        x
    }

    fn draw_op(&mut self, r: &mut Rng, near: Option<&str>) -> Op {
        let module = match near {
            Some(m) => m.to_string(),
            None => match r.below(24) {
                0..=15 => format!("g{}", r.pick(&self.good)),
                16..=20 => format!("g{}", r.below(6000)),
                _ => crate::shipped::SELECTORS[r.below(crate::shipped::SELECTORS.len())].0.to_string(),
            },
        };
        // draws that were not vetted may be ill-typed or diverge when run: only look at how they are refused
        let vetted = module.strip_prefix('g').and_then(|s| s.parse::<u64>().ok()).is_none_or(|ix| self.good.binary_search(&ix).is_ok());
        if !vetted {
            let op = r.pick(&["type", "json", "debug"]).to_string();
            return Op { op, module, image: vec![] };
        }
        let kind = *r.pick(&["type", "code", "code", "json", "debug", "decode", "decode", "decode", "trace", "trace"]);
        if near.is_none() && r.chance(1, 30) {
            let m = *r.pick(&["png", "elf", "opentype"]);
            let image = self.image(r, m);
            return Op { op: "gencode".into(), module: m.into(), image };
        }
        if near.is_none() && r.chance(1, if self.prop == "S05" { 150 } else { 400 }) {
            return Op { op: if kind == "debug" { "type" } else { kind }.into(), module: "main".into(), image: self.image(r, "main") };
        }
        let image = if matches!(kind, "decode" | "trace") { self.image(r, &module) } else { vec![] };
        Op { op: kind.into(), module, image }
    }
    fn image(&mut self, r: &mut Rng, m: &str) -> Vec<u8> {
        if let Some(v) = self.images.get(m) {
            if !v.is_empty() && r.chance(7, 8) {
                let mut d = r.pick(v).clone();
                if r.chance(1, 2) {
                    for _ in 0..r.range(1, 3) {
                        let f = crate::disk::draw(r, d.len(), &[], &[]);
                        f.apply(&mut d);
                    }
                }
                return d;
            }
        } else if r.chance(2, 3) {
            if let Some(ix) = m.strip_prefix('g').and_then(|s| s.parse().ok()) {
                if let Some(p) = crate::equiv::pool_program(crate::POOL_SEED, ix) {
                    return crate::equiv::synth(&p, r).0;
                }
            }
        }
        let n = r.range(0, 24);
        (0..n).map(|_| if r.chance(1, 2) { r.below(8) as u8 } else { r.byte() }).collect()
    }
}

impl Sim for Repro {
    fn property(&self) -> &str {
        self.prop
    }
    fn plan(&mut self, ix: u64) -> Json {
        let mut r = Rng::stream(self.seed, self.prop, ix);
        let r = &mut r;
        let sc = if self.prop == "S05" {
            // one thread, one operation, some hash seeds
            let op = self.draw_op(r, None);
            let n = if op.module == "main" { 1 } else { r.range(2, 5) };
            Sc {
                fmt: op.op.clone(),
                threads: vec![vec![op]; n],
                hash: (0..n).map(|_| r.next()).collect(),
                sched: vec![],
                keep: false,
            }
        } else {
            let n = r.range(1, 4);
            let mut threads = vec![];
            let shared = self.draw_op(r, None).module;
            for _ in 0..n {
                let mut ops: Vec<Op> = vec![];
                for _ in 0..r.range(2, 7) {
                    let m = match r.below(4) {
                        0 => None,
                        1 => Some(shared.clone()),
                        _ => ops.last().map(|o| o.module.clone()),
                    };
                    let m = m.filter(|m| m != "main");
                    let mut op = self.draw_op(r, m.as_deref());
                    // the same thing again, after whatever happened in between
                    if r.chance(1, 5) && !ops.is_empty() {
                        op = r.pick(&ops).clone();
                    }
                    ops.push(op);
                }
                threads.push(ops);
            }
            let sched = if n == 1 {
                vec![]
            } else {
                (0..r.range(2, 60))
                    .map(|_| {
                        let q = match r.below(5) {
                            0 => r.range(1, 10),
                            1 | 2 => r.range(10, 300),
                            3 => r.range(300, 5000),
                            _ => r.range(5000, 60_000),
                        };
                        (r.below(n), q as u64)
                    })
                    .collect()
            };
            Sc { fmt: "history".into(), threads, hash: vec![0; n], sched, keep: r.chance(2, 3) }
        };
        serde_json::to_value(sc).unwrap()
    }

    fn exec(&mut self, sc: &Json) -> Report {
        let sc: Sc = serde_json::from_value(sc.clone()).expect("scenario");
        let mut rep = Report::default();
        let mut want: BTreeMap<Op, String> = BTreeMap::new();
        for op in sc.threads.iter().flatten().cloned().collect::<BTreeSet<_>>() {
            let w = self.reference(&op);
            rep.count(format!("probe:{}", if w.starts_with("panic") || w.starts_with("no ") || w.starts_with("error") || w.contains(": error") { "operation refused" } else { "operation succeeded" }));
            want.insert(op, w);
        }
        let want = Arc::new(want);
        let n = sc.threads.len();
        *lock() = Some(Token { holder: usize::MAX, live: vec![true; n], tids: vec![0; n], plan: sc.sched.clone(), ..Token::default() });
        crate::alloc::arm(2_000_000_000, 6 << 30);
        let mut hs = vec![];
        for (i, ops) in sc.threads.iter().cloned().enumerate() {
            let (h, keep, want) = (sc.hash.get(i).copied().unwrap_or(0), sc.keep, want.clone());
            let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
                HASH.set(h);
                ME.set(i);
                lock().as_mut().expect("token").tids[i] = crate::sys::tid();
                wait_turn(lock());
                crate::alloc::YIELD.with(|y| y.set(Some(at_allocation)));
                let mut kept = Kept::default();
                let mut bad: Option<(usize, String)> = None;
                for (j, op) in ops.iter().enumerate() {
                    if !keep {
                        kept = Kept::default();
                    }
                    let got = perform(op, &mut kept);
                    if got != want[op] && bad.is_none() {
                        bad = Some((j, got));
                    }
                }
                crate::alloc::YIELD.with(|y| y.set(None));
                hand_over(true);
                bad
            });
            hs.push(t.expect("thread"));
        }
        // the seam is live: another seed is another iteration order
        for h in sc.hash.iter().filter(|h| **h != 0) {
            let order = |h| fresh(h, || (0..40u32).collect::<std::collections::HashSet<_>>().into_iter().collect::<Vec<_>>());
            if order(*h) != order(0) {
                rep.count("probe:iteration order changed");
            }
        }
        {
            // everybody waits; the first in the plan starts
            let mut g = lock();
            let t = g.as_mut().expect("token");
            t.holder = t.plan.first().map(|p| p.0).filter(|w| *w < n).unwrap_or(0);
        }
        TURN.notify_all();
        if n > 1 {
            if let Err(why) = supervise(&hs, &mut rep) {
                crate::alloc::disarm();
                lock().take();
                rep.fail("callers on several threads stop making progress", why);
                return rep;
            }
        }
        let res: Vec<Option<(usize, String)>> = hs.into_iter().map(|h| h.join().expect("simulated thread")).collect();
        let (calls, _) = crate::alloc::disarm();
        let t = lock().take().expect("token");
        rep.vtime += calls;
        rep.add("fault:preemption", t.trace.len().saturating_sub(n) as u64);
        rep.add("fault:hash-seed", sc.hash.iter().filter(|h| **h != 0).count() as u64);
        rep.add("operations", sc.threads.iter().map(|t| t.len() as u64).sum());
        let ops: Vec<String> = sc.threads.iter().flatten().map(|o| format!("{}:{}:{:x}", o.op, o.module, fnv(&o.image))).collect();
        rep.state(&format!("{} {:?} {:?}", ops.join(" "), sc.hash, t.trace.iter().map(|x| x.0).collect::<Vec<_>>()));
        rep.observe(&format!("{ops:?} {:?} {:x}", t.trace, want.values().fold(0, |a, s| a ^ fnv(s.as_bytes()))));
        for (i, r) in res.iter().enumerate() {
            if let Some((j, got)) = r {
                let op = &sc.threads[i][*j];
                let w = &want[op];
                let d = got.bytes().zip(w.bytes()).position(|(a, b)| a != b).unwrap_or(got.len().min(w.len()));
                let cut = |s: &str| {
                    let b = s.as_bytes();
                    String::from_utf8_lossy(&b[d.saturating_sub(40).min(b.len())..(d + 80).min(b.len())]).to_string()
                };
                let what = match op.op.as_str() {
                    "type" => "inferred types",
                    "code" => "generated code",
                    "json" | "debug" => "the module's serialised form",
                    "decode" => "a decoded value",
                    "trace" => "a traced decode",
                    _ => "the shipped decoder's result",
                };
                let on = if self.prop == "S05" { "the hash seed" } else { "history or schedule" };
                rep.fail(
                    format!("{what} depends on {on}"),
                    format!("{} {} (thread {i}, operation {j}): at byte {d}: {:?} instead of {:?}", op.op, op.module, cut(got), cut(w)),
                );
                break;
            }
        }
        rep
    }

    fn shrink(&mut self, sc: &Json) -> Vec<Json> {
        let sc: Sc = serde_json::from_value(sc.clone()).expect("scenario");
        let mut c = vec![];
        if sc.threads.len() > 1 {
            for i in 0..sc.threads.len() {
                let mut s = sc.clone();
                s.threads.remove(i);
                s.hash.remove(i);
                s.sched.retain(|x| x.0 != i);
                for x in &mut s.sched {
                    if x.0 > i {
                        x.0 -= 1
                    }
                }
                c.push(s);
            }
        }
        for i in 0..sc.threads.len() {
            for j in 0..sc.threads[i].len() {
                if sc.threads[i].len() > 1 {
                    let mut s = sc.clone();
                    s.threads[i].remove(j);
                    c.push(s);
                }
                if !sc.threads[i][j].image.is_empty() {
                    let mut s = sc.clone();
                    let n = s.threads[i][j].image.len();
                    s.threads[i][j].image.truncate(n / 2);
                    c.push(s);
                }
            }
        }
        if !sc.sched.is_empty() {
            let mut s = sc.clone();
            s.sched.clear();
            c.push(s);
            for k in [sc.sched.len() / 2, sc.sched.len() - 1] {
                if k > 0 {
                    let mut s = sc.clone();
                    s.sched.truncate(k);
                    c.push(s);
                }
            }
            for k in 0..sc.sched.len().min(40) {
                let mut s = sc.clone();
                s.sched.remove(k);
                c.push(s);
            }
        }
        c.into_iter().map(|s| serde_json::to_value(s).unwrap()).collect()
    }
    fn death(&mut self, sc: &Json, how: &Death) -> Option<Viol> {
        // runaway recursion or computation is a matter for the crash property
        let _ = (sc, how);
        None
    }
    fn rule(&self) -> String {
        "distinct (operations and their inputs, hash seeds, order in which the token changed hands)".into()
    }
    fn real_and_stub(&self) -> Json {
        json!({
            "real": ["format construction, type checking, compilation, code generation, serialisation, both interpreters, the shipped generated decoder, all in process"],
            "stub": ["getrandom (hash seeds come from the plan)", "thread scheduling (a token passed at allocations)", "the allocator's scheduling points"],
        })
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["threads are switched at allocation calls only: code between two allocations runs undisturbed".into()]
    }
    fn probes(&self) -> Vec<&'static str> {
        match self.prop {
            "S05" => vec!["probe:iteration order changed", "probe:operation refused", "probe:operation succeeded", "fault:hash-seed"],
            _ => vec!["probe:operation refused", "probe:operation succeeded", "fault:preemption"],
        }
    }
    fn hang_secs(&self) -> u64 {
        120
    }
}
