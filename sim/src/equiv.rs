//! S01 / S02: the decoders of one format agree on every stored image, however the storage has failed.

use crate::disk::{self, Fault};
use crate::engine::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::{alloc, fmtgen, sys};
use doodle::decoder::{Compiler, Program};
use doodle::error::DecodeErrorKind;
use doodle::read::ReadCtxt;
use serde_json::{Value as Json, json};

pub type GenFn = fn(&[u8]) -> Outcome;

pub struct Fmt {
    pub name: String,
    pub program: Program,
    pub gens: Vec<(String, GenFn)>,
    /// corpus files this format is exercised with; empty: images are synthesised
    pub files: Vec<(String, Vec<u8>)>,
    pub weight: usize,
    /// what the reference decoder reads (S14)
    pub model: Option<Box<Source>>,
}

pub struct Source {
    pub module: doodle::FormatModule,
    pub top: doodle::Format,
    pub params: (Vec<Vec<crate::model::L>>, Vec<Vec<crate::model::L>>),
    /// S10: the types that the library gives to the format
    pub types: Vec<(&'static str, doodle::ValueType)>,
}

impl Source {
    pub fn new(module: doodle::FormatModule, top: doodle::Format) -> Box<Source> {
        let params = crate::model::params(&module);
        Box::new(Source { module, top, params, types: vec![] })
    }
}

pub struct Equiv {
    pub prop: &'static str,
    pub seed: u64,
    pub fmts: Vec<Fmt>,
    pub lottery: Vec<usize>,
    pub extra: Json,
    /// formats of the lists that do not compile on this tree (S02, S14)
    pub broken: Vec<String>,
}

pub const MAX_CALLS: u64 = 6_000_000;
pub const MAX_LIVE: u64 = 1 << 30;

pub fn pool_program(seed: u64, ix: u64) -> Option<Program> {
    caught(|| {
        let b = fmtgen::module(seed, ix);
        Compiler::compile_program(&b.module, &b.top).ok()
    })
    .ok()
    .flatten()
}

/// The program of a pool format (`g<ix>`) or a shipped one.
fn compile_named(name: &str) -> Option<Program> {
    match name.strip_prefix('g').and_then(|n| n.parse::<u64>().ok()) {
        Some(ix) => pool_program(crate::POOL_SEED, ix),
        None => caught(|| crate::shipped::program(name)).ok(),
    }
}

/// Compiles every named format in a process of its own and returns those that do not compile any more (all of
/// them did when the lists were drawn up): an error, a panic, an exhausted stack or no answer within a minute.
pub fn survey(names: &[String]) -> Vec<String> {
    let mut bad = vec![];
    let mut next = 0;
    while next < names.len() {
        let mut fds = [0i32; 2];
        unsafe {
            assert!(sys::pipe(fds.as_mut_ptr()) == 0);
            let pid = sys::fork();
            assert!(pid >= 0);
            if pid == 0 {
                sys::close(fds[0]);
                sys::prctl(1, 9i64);
                crate::runner::mute();
                for n in &names[next..] {
                    let ok = compile_named(n).is_some();
                    sys::write_all(fds[1], &[ok as u8]);
                }
                sys::_exit(0);
            }
            sys::close(fds[1]);
            let start = next;
            loop {
                let mut p = sys::pollfd { fd: fds[0], events: 1, revents: 0 };
                sys::poll(&mut p, 1, 60_000);
                let mut b = [0u8; 4096];
                let n = if p.revents != 0 { sys::read(fds[0], b.as_mut_ptr() as *mut _, b.len()) } else { 0 };
                if n <= 0 {
                    break;
                }
                for ok in &b[..n as usize] {
                    if *ok == 0 {
                        bad.push(names[next].clone());
                    }
                    next += 1;
                }
            }
            sys::close(fds[0]);
            sys::kill(pid, 9);
            let mut st = 0;
            sys::waitpid(pid, &mut st, 0);
            if next < names.len() {
                bad.push(names[next].clone());
                next += 1;
                if start + 1 == next && bad.len() > 20 {
                    break;
                }
            }
        }
    }
    bad.extend(names[next..].iter().cloned());
    bad
}

pub fn corpus(names: &[&str]) -> Vec<(String, Vec<u8>)> {
    names
        .iter()
        .filter_map(|n| std::fs::read(format!("/repo/{n}")).ok().map(|d| (n.to_string(), d)))
        .filter(|(_, d)| !d.is_empty())
        .collect()
}

pub const MAIN_FILES: &[&str] = &[
    "test.gif",
    "test.png",
    "test.jpg",
    "test1.gz",
    "test2.gz",
    "test3.gz",
    "test.tgz",
    "test.tar",
    "test.elf",
    "test.webp",
    "test.peano",
    "test.utf8",
    "test.txt",
    "test.waldo",
    "test1.rle",
    "test0.rle",
    "test1.numbers",
    "test-images/bw.gif",
    "test-images/swatch-white.png",
    "test-images/webp-orientation-3.webp",
    "test-images/scmyk.tif",
    "test-fonts/Zycon.ttf",
    "test-fonts/DroidSansArabic.ttf",
    "test-fonts/samanata.ttf",
    "test-fonts/SourceCodePro-Regular.otf",
];

/// A valid or nearly valid image for `p`: random bytes repaired by following the decoder's complaints.
pub fn synth(p: &Program, rng: &mut Rng) -> (Vec<u8>, Vec<usize>, bool) {
    let n = rng.range(0, 40);
    let small = rng.chance(2, 3);
    let any = |rng: &mut Rng| if small || rng.chance(1, 2) { rng.below(12) as u8 } else { rng.byte() };
    let mut d: Vec<u8> = (0..n).map(|_| any(rng)).collect();
    let mut hot = vec![];
    for _ in 0..48 {
        let e = match caught(|| p.run(ReadCtxt::new(&d))) {
            Ok(Ok(_)) => return (d, hot, true),
            Ok(Err(e)) => *e.err,
            Err(_) => {
                if !d.is_empty() {
                    let i = rng.below(d.len());
                    d[i] = any(rng);
                } else {
                    d.push(any(rng));
                }
                continue;
            }
        };
        let mut at = None;
        match e {
            DecodeErrorKind::Unexpected { expected, offset, .. } => {
                let c: Vec<u8> = (0..=255u8).filter(|b| expected.contains(*b)).collect();
                if !c.is_empty() && offset < d.len() {
                    d[offset] = *rng.pick(&c);
                } else {
                    d.push(any(rng));
                }
                at = Some(offset);
            }
            DecodeErrorKind::Overbyte { offset } => {
                for _ in 0..rng.range(1, 6) {
                    d.push(any(rng));
                }
                at = Some(offset);
            }
            DecodeErrorKind::Overrun { nbytes, offset } => {
                if nbytes < 300 && rng.chance(2, 3) {
                    for _ in 0..nbytes.max(1) {
                        d.push(any(rng));
                    }
                } else if !d.is_empty() {
                    let i = rng.below(d.len());
                    d[i] = rng.below(4) as u8;
                }
                at = Some(offset);
            }
            DecodeErrorKind::Trailing { offset, .. } => {
                if rng.chance(2, 3) && offset <= d.len() {
                    d.truncate(offset);
                }
                at = Some(offset);
            }
            DecodeErrorKind::NoValidBranch { offset } => {
                while d.len() <= offset && d.len() < 4096 {
                    d.push(any(rng));
                }
                let i = (offset + if rng.chance(1, 4) { 1 } else { 0 }).min(d.len() - 1);
                d[i] = any(rng);
                at = Some(offset);
            }
            DecodeErrorKind::SeekPastEnd { seek_offset, .. } => {
                if seek_offset < 200 {
                    while d.len() < seek_offset {
                        d.push(any(rng));
                    }
                } else if !d.is_empty() {
                    let i = rng.below(d.len());
                    d[i] = rng.below(4) as u8;
                }
            }
            DecodeErrorKind::BadWhere { .. } | DecodeErrorKind::Fail { .. } => {
                if d.is_empty() {
                    d.push(any(rng));
                }
                let i = rng.below(d.len());
                d[i] = any(rng);
            }
        }
        if let Some(a) = at {
            if a < 4096 {
                hot.push(a);
            }
        }
        if d.len() > 4096 {
            d.truncate(64);
        }
    }
    (d, hot, false)
}

impl Equiv {
    pub fn new(prop: &'static str, seed: u64, mut fmts: Vec<Fmt>) -> Equiv {
        let mut lottery = vec![];
        for (i, f) in fmts.iter().enumerate() {
            for _ in 0..f.weight {
                lottery.push(i);
            }
        }
        if prop == "S10" {
            for f in &mut fmts {
                let Some(src) = &mut f.model else { continue };
                src.types = given_types(&f.program, src);
            }
        }
        Equiv { prop, seed, fmts, lottery, extra: json!({}), broken: vec![] }
    }

    fn image(&self, sc: &Json) -> (Vec<u8>, Vec<(Fault, bool)>) {
        let mut img = match sc["base"]["file"].as_str() {
            Some(f) => self
                .fmts
                .iter()
                .flat_map(|x| &x.files)
                .find(|(n, _)| n == f)
                .map(|x| x.1.clone())
                .or_else(|| std::fs::read(format!("/repo/{f}")).ok())
                .unwrap_or_default(),
            None => serde_json::from_value(sc["base"]["bytes"].clone()).unwrap_or_default(),
        };
        let faults: Vec<Fault> = serde_json::from_value(sc["faults"].clone()).unwrap_or_default();
        let mut applied = vec![];
        for f in faults {
            let hit = f.apply(&mut img);
            applied.push((f, hit));
        }
        (img, applied)
    }
}

fn agree(a: &Outcome, b: &Outcome) -> Option<&'static str> {
    match (a, b) {
        (Outcome::Accept(v, n), Outcome::Accept(w, m)) => {
            if v != w {
                Some("different values")
            } else if n != m {
                Some("different extent consumed")
            } else {
                None
            }
        }
        (Outcome::Accept(..), _) | (_, Outcome::Accept(..)) => Some("one accepts, the other does not"),
        _ => None,
    }
}

/// The interpreter refines the reference decoder's verdict.
fn refine(r: &mut Report, f: &Fmt, img: &[u8], a: &Outcome, v: Result<crate::model::Verdict, crate::model::Undef>) {
    let v = match v {
        Err(u) => {
            r.count("model:no-verdict");
            r.count(format!("no-verdict:{}", u.0));
            return;
        }
        Ok(v) => v,
    };
    r.vtime += v.steps;
    r.count(match (v.soft, v.successes.len()) {
        (false, 0) => "model:must-reject",
        (false, _) => "model:must-accept",
        (true, 0) => "model:must-reject",
        (true, _) => "model:may-accept",
    });
    if v.soft && !v.successes.is_empty() {
        r.count(format!("guess:{}", v.why_soft));
    }
    r.observe(&format!("{:?}", v.successes));
    let kind = match f.name[1..].parse::<u64>() {
        // (directed expressions 100, 106 and 104 of directed.rs)
        Ok(1_030_000..1_030_200 | 1_031_200..1_031_400) => "searching an integer range by key",
        Ok(1_030_800..1_031_000) => "sequence pattern on an integer range",
        _ if f.files.is_empty() => "generated format",
        _ => &f.name,
    };
    let model = match v.successes.first() {
        None => "reject".to_string(),
        Some((t, n)) => format!("consumed {n}, value {}", t.chars().take(400).collect::<String>()),
    };
    let why = match a {
        Outcome::Accept(t, n) => {
            if v.successes.iter().any(|(u, m)| u == t && m == n) {
                return;
            } else if v.successes.is_empty() {
                "accepts what the format does not describe"
            } else {
                "accepts with another value or extent than the format describes"
            }
        }
        Outcome::Reject(_) if v.successes.is_empty() || v.soft => return,
        Outcome::Reject(_) => "rejects what the format describes",
        Outcome::Crash(_) if v.soft || v.successes.is_empty() => return,
        Outcome::Crash(m) if m.contains("Permit(Err(") => {
            "panics [arithmetic on a Permit fallback value] on what the format describes"
        }
        Outcome::Crash(_) => "panics on what the format describes",
    };
    r.fail(
        format!("interpreter {why} ({kind})"),
        format!("format {} image {} bytes: interpreter {}; reference {model}", f.name, img.len(), a.brief()),
    );
}

fn locations(r: &mut Report, f: &Fmt, src: &Source, img: &[u8], a: &Outcome) {
    if !a.accepted() {
        return;
    }
    alloc::arm(20 * MAX_CALLS, 4 * MAX_LIVE);
    let mut m = crate::model::Model::new(&src.module, &src.params);
    m.track = true;
    let v = m.run(&src.top, img);
    let p = caught(|| f.program.run_with_loc(ReadCtxt::new(img)));
    alloc::disarm();
    let v = match v {
        Ok(v) => v,
        Err(u) => return r.count(format!("no-verdict:{}", u.0)),
    };
    let Ok(Ok((p, rest))) = p else { return r.count("traced decode fails") };
    let Ok(text) = caught(|| crate::canon::canon_value(&p.clone_into_value())) else { return };
    r.vtime += v.steps;
    let mut found = None;
    for ((t, n), w) in v.successes.iter().zip(&v.values) {
        if *t == text && *n == rest.offset {
            let mut c = crate::model::LocCheck::default();
            crate::model::compare_locations(w, &p, "", &mut c);
            // the same value may be read in two ways when lookahead guesses: either will do
            if c.bad.is_none() || found.is_none() {
                found = Some(c);
            }
        }
    }
    let Some(c) = found else { return r.count("no reading gives the value") };
    r.count("traced value judged");
    r.add("locations exact", c.exact);
    r.add("computed parts", c.unjudged);
    r.observe(&format!("{} {} {}", c.exact, c.unjudged, rest.offset));
    if let Some((what, why)) = c.bad {
        r.fail(what, format!("format {} image {} bytes: {why}", f.name, img.len()));
    }
}

/// The types that the library gives to the format: the one declared with the module, the compiled program's, the type checker's.
fn given_types(program: &doodle::decoder::Program, src: &Source) -> Vec<(&'static str, doodle::ValueType)> {
    let mut out = vec![];
    if let doodle::Format::ItemVar(level, ..) = &src.top {
        out.push(("module", src.module.get_format_type(*level).clone()));
    }
    out.push(("program", program.decoders[0].1.clone()));
    if let Ok(Ok(Some(t))) = caught(|| doodle::typecheck(&src.module, &src.top)) {
        out.push(("type checker", t));
    }
    out
}

/// Both interpreters' values inhabit every type that the library gives to the format.
fn typed(r: &mut Report, f: &Fmt, src: &Source, img: &[u8], a: &Outcome) {
    if !a.accepted() {
        return;
    }
    let ts = &src.types;
    r.count(format!("types given: {}", ts.len()));
    alloc::arm(20 * MAX_CALLS, 4 * MAX_LIVE);
    let v = caught(|| f.program.run(ReadCtxt::new(img))).ok().and_then(|x| x.ok()).map(|x| x.0);
    let p = caught(|| f.program.run_with_loc(ReadCtxt::new(img)).map(|x| x.0.clone_into_value())).ok().and_then(|x| x.ok());
    alloc::disarm();
    for (engine, v) in [("plain interpreter", v), ("location-tracking interpreter", p)] {
        let Some(v) = v else { continue };
        let mut holes = Default::default();
        for (who, t) in ts {
            let mut c = crate::types::TypeCheck { holes, ..Default::default() };
            crate::types::inhabits(&v, t, "", &mut c);
            r.add("parts typed", c.judged);
            r.add("parts of open type", c.open);
            r.vtime += c.judged;
            r.observe(&format!("{} {}", c.judged, c.open));
            if let Some((what, why)) = c.bad {
                r.fail(what, format!("format {} image {} bytes, {engine}, {who}: {why}", f.name, img.len()));
                return;
            }
            holes = c.holes;
        }
    }
    r.count("value judged");
}

/// What a panic says, without the file it comes from.
fn says(m: &str) -> &str {
    m.split_once(": ").map_or(m, |x| x.1)
}

/// S03: what the size of an image explains, in allocation calls and live bytes. Formats that decompress may expand a
/// byte of input about a thousandfold.
pub fn budget(name: &str, len: usize) -> (u64, u64) {
    let expands = matches!(name, "main" | "png" | "gzip" | "deflate" | "rle");
    let (c, l) = if expands { (20_000, 512 << 10) } else { (4_000, 8 << 10) };
    let n = len as u64 + 64;
    (1_000_000 + c * n, ((16 << 20) + l * n).min(CAP))
}
/// no simulated process gets more memory than this
const CAP: u64 = 3 << 30;

pub fn engines(f: &Fmt) -> Vec<String> {
    let mut v = vec!["plain interpreter".to_string(), "location-tracking interpreter".to_string()];
    v.extend(f.gens.iter().map(|g| g.0.clone()));
    v
}
fn engine(f: &Fmt, k: usize, img: &[u8]) -> Outcome {
    match k {
        0 => run_interp(&f.program, img),
        1 => run_loc(&f.program, img),
        _ => (f.gens[k - 2].1)(img),
    }
}
fn robust(r: &mut Report, f: &Fmt, img: &[u8]) {
    let mut crashes: Vec<(String, String)> = vec![];
    for (k, n) in engines(f).into_iter().enumerate() {
        let (calls, live) = budget(&f.name, img.len());
        alloc::arm(calls, live);
        let a = engine(f, k, img);
        let (c, l) = alloc::disarm();
        r.vtime += c;
        r.count(format!("{n}:{}", a.class()));
        r.observe(&format!("{a:?}"));
        if k == 0 {
            r.state(&format!("{} {a:?}", f.name));
        }
        if let Outcome::Crash(m) = &a {
            let sig = match says(m) {
                s if s.contains("integer underflow") => "integer underflow".to_string(),
                s if s.contains("integer overflow") => "integer overflow".to_string(),
                s => s.to_string(),
            };
            crashes.push((n, sig));
        }
    }
    // the two interpreters share one way of evaluating expressions
    if crashes.len() >= 2 && crashes[0].0.starts_with("plain") && crashes[0].1 == crashes[1].1 {
        crashes.remove(1);
        crashes[0].0 = "both interpreters".into();
    }
    if !crashes.is_empty() {
        let mut all: Vec<String> = vec![];
        for (n, sig) in &crashes {
            let t = format!("{} [{sig}]", if n.contains("code") { "generated code" } else { n });
            if !all.contains(&t) {
                all.push(t);
            }
        }
        r.fail(format!("panic: {}", all.join(", ")), format!("format {} image {} bytes", f.name, img.len()));
    }
}

impl Sim for Equiv {
    fn property(&self) -> &str {
        self.prop
    }
    fn plan(&mut self, ix: u64) -> Json {
        let wrap = if self.lottery.is_empty() { self.broken.len().max(1) as u64 } else { u64::MAX };
        if let Some(n) = self.broken.get((ix % wrap) as usize) {
            return json!({"fmt": n, "compile": true});
        }
        let mut rng = Rng::stream(self.seed, "equiv", ix);
        let fi = *rng.pick(&self.lottery);
        let f = &self.fmts[fi];
        let (base, n, hot, stale);
        if f.files.is_empty() {
            alloc::arm(40 * MAX_CALLS, 4 * MAX_LIVE);
            // half of the images follow the interpreter, half the format itself
            let (d, h, ok) = match &f.model {
                Some(src) if rng.chance(1, 2) => {
                    let (d, ok) = crate::model::Model::new(&src.module, &src.params).draw(&src.top, &mut rng);
                    (d, vec![], ok)
                }
                _ => synth(&f.program, &mut rng),
            };
            alloc::disarm();
            n = d.len();
            hot = h;
            stale = vec![];
            base = json!({"bytes": d, "valid": ok});
        } else {
            let (name, d) = rng.pick(&f.files);
            n = d.len();
            hot = vec![];
            stale = rng.pick(&f.files).1.clone();
            base = json!({"file": name});
        }
        let k = match rng.below(10) {
            0 | 1 => 0,
            2..=6 => 1,
            7 | 8 => 2,
            _ => rng.range(3, 5),
        };
        let mut faults: Vec<Fault> = (0..k).map(|_| disk::draw(&mut rng, n, &hot, &stale)).collect();
        if self.prop == "S03" && rng.chance(1, 2) {
            // a stored number becomes extreme
            let w = *rng.pick(&[1usize, 2, 2, 4, 4, 8]);
            let near = if rng.chance(1, 2) { n.clamp(1, 200) } else { n.max(1) };
            let at = rng.below(near) / w.min(2) * w.min(2);
            let first = *rng.pick(&[0u8, 0, 0x7f, 0x80, 0xff]);
            let rest = *rng.pick(&[0u8, 0xff]);
            let flip = rng.chance(1, 2);
            for i in 0..w {
                let top = if flip { i + 1 == w } else { i == 0 };
                faults.push(Fault::Set { at: at + i, val: if top { first } else { rest } });
            }
        }
        json!({"fmt": f.name, "base": base, "faults": faults})
    }
    fn exec(&mut self, sc: &Json) -> Report {
        let mut r = Report::default();
        if sc["compile"] == true {
            let n = sc["fmt"].as_str().unwrap_or("");
            if compile_named(n).is_none() {
                r.fail("a supported format no longer compiles", format!("format {n}: error or panic"));
            }
            return r;
        }
        let (img, applied) = self.image(sc);
        for (f, hit) in &applied {
            if *hit {
                r.count(format!("fault:{}", f.kind()));
            }
        }
        let Some(f) = self.fmts.iter().find(|f| sc["fmt"] == f.name.as_str()) else {
            r.fail("unknown format", "the format named by the replay file is not in this build");
            return r;
        };
        if self.prop == "S03" {
            robust(&mut r, f, &img);
            return r;
        }
        alloc::arm(MAX_CALLS, MAX_LIVE);
        doodle::sim_hooks::take_lookahead_fallbacks();
        let a = run_interp(&f.program, &img);
        let (calls, _) = alloc::disarm();
        let (at_end, on_byte) = doodle::sim_hooks::take_lookahead_fallbacks();
        if at_end > 0 {
            r.count("lookahead-fallback-at-end");
        }
        if on_byte > 0 {
            r.count("lookahead-fallback-on-byte");
        }
        r.vtime = calls;
        r.count(format!("interp:{}", a.class()));
        if let Outcome::Crash(m) = &a {
            r.count(format!("interp-crash:{m}"));
        }
        if sc["base"]["valid"] == true || sc["base"]["file"].is_string() {
            r.count("base-image-valid");
        }
        r.observe(&format!("{a:?}"));
        r.state(&format!("{} {a:?}", f.name));
        if let ("S12", Some(src)) = (self.prop, &f.model) {
            locations(&mut r, f, src, &img, &a);
            return r;
        }
        if let ("S10", Some(src)) = (self.prop, &f.model) {
            typed(&mut r, f, src, &img, &a);
            return r;
        }
        if let ("S14", Some(src)) = (self.prop, &f.model) {
            alloc::arm(20 * MAX_CALLS, 4 * MAX_LIVE);
            let v = crate::model::Model::new(&src.module, &src.params).run(&src.top, &img);
            alloc::disarm();
            refine(&mut r, f, &img, &a, v);
            return r;
        }
        let mut others: Vec<(String, Outcome)> = vec![];
        if self.prop == "S01" {
            alloc::arm(2 * MAX_CALLS, 2 * MAX_LIVE);
            let b = run_loc(&f.program, &img);
            alloc::disarm();
            others.push(("location-tracking interpreter".into(), b));
        } else {
            for (n, g) in &f.gens {
                alloc::arm(2 * MAX_CALLS, 2 * MAX_LIVE);
                let b = g(&img);
                alloc::disarm();
                others.push((n.clone(), b));
            }
        }
        for (n, b) in &others {
            r.count(format!("other:{}", b.class()));
            if let Outcome::Crash(m) = b {
                r.count(format!("other-crash:{m}"));
            }
            r.observe(&format!("{b:?}"));
            if let Some(why) = agree(&a, b) {
                if let (Outcome::Crash(m), true) = (&a, b.accepted()) {
                    let sig = if m.contains("Permit(Err(") {
                        "arithmetic on a Permit fallback value"
                    } else if m.contains("cannot perform As") {
                        "narrowing cast out of range"
                    } else {
                        says(m)
                    };
                    let other = if self.prop == "S02" { "generated code" } else { n };
                    let what = format!("interpreter panics [{sig}] where {other} accepts");
                    r.fail(what, format!("format {} image {} bytes: {n} {}", f.name, img.len(), b.brief()));
                    continue;
                }
                if let Outcome::Accept(v, _) = &a {
                    if v.contains(crate::canon::OUT_OF_RANGE) {
                        r.fail(
                            "interpreter keeps an out-of-range numeric result",
                            format!("format {} image {} bytes: {n} {}", f.name, img.len(), b.brief()),
                        );
                        continue;
                    }
                }
                let kind = if f.files.is_empty() && sc["base"]["file"].is_null() { "generated format" } else { &f.name };
                r.fail(
                    format!("{n} vs interpreter on {kind}: {why}"),
                    format!("format {} image {} bytes: interpreter {}; {n} {}", f.name, img.len(), a.brief(), b.brief()),
                );
            }
        }
        r
    }
    fn shrink(&mut self, sc: &Json) -> Vec<Json> {
        let mut out = vec![];
        let faults: Vec<Fault> = serde_json::from_value(sc["faults"].clone()).unwrap_or_default();
        for i in 0..faults.len() {
            let mut f = faults.clone();
            f.remove(i);
            let mut s = sc.clone();
            s["faults"] = json!(f);
            out.push(s);
        }
        for i in 0..faults.len() {
            for simp in faults[i].simpler() {
                let mut f = faults.clone();
                f[i] = simp;
                let mut s = sc.clone();
                s["faults"] = json!(f);
                out.push(s);
            }
        }
        if let Some(b) = sc["base"]["bytes"].as_array() {
            let b: Vec<u8> = b.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect();
            let mut put = |v: Vec<u8>| {
                let mut s = sc.clone();
                s["base"]["bytes"] = json!(v);
                out.push(s);
            };
            for k in [b.len() / 2, b.len() * 3 / 4, b.len().saturating_sub(1)] {
                if k < b.len() {
                    put(b[..k].to_vec());
                }
            }
            for i in 0..b.len().min(64) {
                if b[i] != 0 {
                    let mut v = b.clone();
                    v[i] = 0;
                    put(v);
                }
            }
        }
        out
    }
    fn death(&mut self, sc: &Json, how: &Death) -> Option<Viol> {
        // A simulated process that died is a non-accepting decoder; it matters when the reference decoder accepts
        // (or when a decoder spins although the reference one finished).
        if sc["reference_only"] == true {
            return Some(Viol { class: "reference died".into(), detail: how.text() });
        }
        if sc["compile"] == true {
            return Some(Viol { class: "a supported format no longer compiles".into(), detail: format!("format {}: {}", sc["fmt"], how.text()) });
        }
        if self.prop == "S03" {
            let f = self.fmts.iter().position(|f| sc["fmt"] == f.name.as_str())?;
            let (img, _) = self.image(sc);
            let mut s = sc.clone();
            s["reference_only"] = json!(true);
            for (k, n) in engines(&self.fmts[f]).into_iter().enumerate() {
                let mut one = One { f: &self.fmts[f], k, img: img.clone() };
                if let Some(v) = exec_forked(&mut one, &s).viol {
                    if v.detail == Death::AllocBytes.text() && budget(&self.fmts[f].name, img.len()).1 == CAP {
                        return None;
                    }
                    return Some(Viol {
                        class: format!("{n} {} on {}", v.detail, self.fmts[f].name),
                        detail: format!("image {} bytes", img.len()),
                    });
                }
            }
            return None;
        }
        if let ("S14", true) = (self.prop, matches!(how, Death::Hang | Death::Signal(_))) {
            let f = self.fmts.iter().find(|f| sc["fmt"] == f.name.as_str())?;
            let (img, _) = self.image(sc);
            let src = f.model.as_ref()?;
            crate::model::Model::new(&src.module, &src.params).run(&src.top, &img).ok()?;
            return Some(Viol {
                class: format!("interpreter {} where the reference decoder finished", how.text()),
                detail: format!("format {} image {} bytes", f.name, img.len()),
            });
        }
        let mut s = sc.clone();
        s["reference_only"] = json!(true);
        let fi = self.fmts.iter().position(|f| sc["fmt"] == f.name.as_str())?;
        let (img, _) = self.image(sc);
        let mut solo = Solo { e: self, fi, img };
        let r = exec_forked(&mut solo, &s);
        if r.viol.is_some() {
            return None;
        }
        let acc = r.stats.contains_key("accept");
        if acc || matches!(how, Death::Hang) {
            Some(Viol {
                class: format!("other decoder {} where the interpreter finished", how.text()),
                detail: format!("format {}", sc["fmt"]),
            })
        } else {
            None
        }
    }
    fn rule(&self) -> String {
        "A run draws a format (a shipped one, or a module of the seeded format generator), a valid stored image of it \
         (corpus file, or bytes repaired until the interpreter accepts), a sequence of 0-5 storage faults, and executes \
         every decoder on the resulting image. Distinct = distinct (format, interpreter outcome incl. full value, \
         extent and error position)."
            .into()
    }
    fn real_and_stub(&self) -> Json {
        if self.prop == "S10" {
            return json!({"real": ["type inference of FormatModule", "type checker", "format compiler", "plain interpreter", "location-tracking interpreter"], "stub": ["storage (SimDisk)", "allocator (metered)"], "model": ["what it is for a value to have a type (sim/src/types.rs)"]});
        }
        if self.prop == "S12" {
            return json!({"real": ["format compiler", "lookahead trees", "plain interpreter", "location-tracking interpreter"], "stub": ["storage (SimDisk)", "allocator (metered)"], "model": ["reference decoder with positions"]});
        }
        if self.prop == "S14" {
            return json!({"real": ["format compiler", "lookahead trees", "plain interpreter", "expression evaluator"], "stub": ["storage (SimDisk)", "allocator (metered)"], "model": ["reference decoder"]});
        }
        json!({"real": ["format compiler", "plain interpreter", "location-tracking interpreter", "code generator (run by the check)", "generated decoders compiled by rustc", "Parser runtime"], "stub": ["storage (SimDisk)", "allocator (metered)"]})
    }
    fn assumptions(&self) -> Vec<String> {
        if self.prop == "S03" {
            return vec![
                "compiled with overflow checks, as the test profile is".into(),
                "a decoder that spins without allocating is noticed by the watchdog of the runner, all else by counts".into(),
                "the stack is 1 GB: the depth of recursion is not judged".into(),
                "an image that would need more than 3 GB of live memory within its allowance is not judged".into(),
            ];
        }
        if self.prop == "S10" {
            return vec![
                "a part whose type is left open (Any), and a permitted failure without a fallback value, may be anything".into(),
                "decodes that the library does not complete are not judged".into(),
            ];
        }
        if self.prop == "S12" {
            return vec![
                "a value that an expression computes (rather than names, projects or indexes) need not carry a location".into(),
                "the range of a container put together by an expression is not judged, its parts are".into(),
                "ranges inside decoded bytes (bits, DecodeBytes) count from the start of the inner buffer, as documented".into(),
            ];
        }
        if self.prop == "S14" {
            return vec![
                "the reference decoder (sim/src/model.rs) states the meaning of the format combinators".into(),
                "where lookahead must guess between viable alternatives a rejection is not judged, only what is accepted".into(),
                "no verdict on images that drive an expression outside its defined range".into(),
            ];
        }
        vec![
            "a decoder that unwinds, aborts or exceeds its allocation budget counts as not accepting".into(),
            "both engines are compiled with overflow checks, as the test profile is".into(),
        ]
    }
    fn probes(&self) -> Vec<&'static str> {
        if self.prop == "S03" {
            return vec!["plain interpreter:accept", "plain interpreter:reject", "location-tracking interpreter:reject", "regenerated code:accept", "regenerated code:reject", "fault:truncate", "fault:bit-flip"];
        }
        if self.prop == "S10" {
            return vec!["value judged", "parts typed", "types given: 3", "interp:accept", "interp:reject", "fault:truncate", "fault:bit-flip"];
        }
        if self.prop == "S12" {
            return vec!["traced value judged", "locations exact", "computed parts", "interp:accept", "interp:reject", "fault:truncate", "fault:bit-flip"];
        }
        if self.prop == "S14" {
            return vec!["model:must-accept", "model:must-reject", "model:may-accept", "interp:accept", "interp:reject", "fault:truncate", "fault:bit-flip"];
        }
        vec!["interp:accept", "interp:reject", "other:accept", "other:reject", "fault:truncate", "fault:bit-flip", "fault:stale-tail"]
    }
    fn extra(&self) -> Json {
        self.extra.clone()
    }
}

struct Solo<'a> {
    e: &'a Equiv,
    fi: usize,
    img: Vec<u8>,
}
impl Sim for Solo<'_> {
    fn property(&self) -> &str {
        self.e.prop
    }
    fn plan(&mut self, _: u64) -> Json {
        Json::Null
    }
    fn exec(&mut self, _: &Json) -> Report {
        let mut r = Report::default();
        alloc::arm(MAX_CALLS, MAX_LIVE);
        let a = run_interp(&self.e.fmts[self.fi].program, &self.img);
        alloc::disarm();
        r.count(a.class());
        r
    }
    fn shrink(&mut self, _: &Json) -> Vec<Json> {
        vec![]
    }
    fn death(&mut self, _: &Json, how: &Death) -> Option<Viol> {
        Some(Viol { class: "reference died".into(), detail: how.text() })
    }
    fn rule(&self) -> String {
        String::new()
    }
    fn real_and_stub(&self) -> Json {
        Json::Null
    }
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
}

/// One decoder on one image, in a process of its own.
struct One<'a> {
    f: &'a Fmt,
    k: usize,
    img: Vec<u8>,
}
impl Sim for One<'_> {
    fn property(&self) -> &str {
        "S03"
    }
    fn plan(&mut self, _: u64) -> Json {
        Json::Null
    }
    fn exec(&mut self, _: &Json) -> Report {
        let (calls, live) = budget(&self.f.name, self.img.len());
        alloc::arm(calls, live);
        engine(self.f, self.k, &self.img);
        alloc::disarm();
        Report::default()
    }
    fn shrink(&mut self, _: &Json) -> Vec<Json> {
        vec![]
    }
    fn death(&mut self, _: &Json, how: &Death) -> Option<Viol> {
        Some(Viol { class: String::new(), detail: how.text() })
    }
    fn rule(&self) -> String {
        String::new()
    }
    fn real_and_stub(&self) -> Json {
        Json::Null
    }
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
}

/// Formats for the interpreter-only checks: the vetted pool and every shipped format.
pub fn interp_formats() -> (Vec<Fmt>, Vec<String>) {
    let pool = crate::POOL.split_whitespace().chain(crate::POOL_INTERP.split_whitespace()).map(|w| format!("g{w}"));
    let ships: Vec<_> = crate::shipped::SELECTORS.iter().copied().chain([("main", MAIN_FILES, 8), crate::shipped::FONT]).collect();
    let names: Vec<String> = pool.clone().chain(ships.iter().map(|s| s.0.to_string())).collect();
    let broken = survey(&names);
    let mut fmts = vec![];
    for name in pool.filter(|n| !broken.contains(n)) {
        let Some(program) = compile_named(&name) else { continue };
        let model = Some(pool_source(&name));
        fmts.push(Fmt { name, program, gens: vec![], files: vec![], weight: 2, model });
    }
    let n = fmts.len();
    for (sel, files, w) in ships {
        if broken.iter().any(|b| b == sel) {
            continue;
        }
        let Some(program) = compile_named(sel) else { continue };
        fmts.push(Fmt {
            name: sel.to_string(),
            program,
            gens: vec![],
            files: corpus(files),
            weight: (w * n.max(1) / 20).max(1),
            model: Some({
                let (m, f) = crate::shipped::build(sel);
                Source::new(m, f)
            }),
        });
    }
    (fmts, broken)
}

pub fn pool_source(name: &str) -> Box<Source> {
    let b = fmtgen::module(crate::POOL_SEED, name[1..].parse().unwrap());
    Source::new(b.module, b.top)
}
