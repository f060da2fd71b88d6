//! Whole-program runs: the built command line tools of the tree under test run as simulated processes whose
//! file system calls and randomness go through shim/shim.c, which does exactly what the plan says.

use crate::disk::{self, Fault};
use crate::rng::{Rng, fnv};
use crate::runner::{Death, Report, Sim, Viol};
use serde::{Deserialize, Serialize};
use serde_json::{Value as Json, json};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::time::{Duration, Instant};

/// What happens to the n-th `op` on a file class (1 = stdout, 2 = stderr, 3.. = named files).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Io {
    pub c: usize,
    pub op: char,
    pub n: u64,
    pub act: char,
    pub k: i64,
}

const EINTR: i64 = 4;
fn errname(k: i64) -> String {
    match k {
        2 => "ENOENT",
        4 => "EINTR",
        5 => "EIO",
        11 => "EAGAIN",
        12 => "ENOMEM",
        13 => "EACCES",
        24 => "EMFILE",
        27 => "EFBIG",
        28 => "ENOSPC",
        30 => "EROFS",
        32 => "EPIPE",
        116 => "ESTALE",
        122 => "EDQUOT",
        n => return format!("errno {n}"),
    }
    .to_string()
}
impl Io {
    fn kind(&self) -> String {
        let op = match self.op {
            'o' => "open",
            's' => "stat",
            'r' => "read",
            _ => "write",
        };
        match self.act {
            'e' => format!("{op}-{}", errname(self.k)),
            'E' => format!("{op}-{}-from-here-on", errname(self.k)),
            't' => format!("short-{op}"),
            'x' => format!("killed-at-{op}"),
            'z' => "file-shrank-during-read".into(),
            'b' => "stat-size-stale".into(),
            'c' => "file-appears-before-open".into(),
            'm' => "file-overwritten-during-read".into(),
            a => format!("{op}-{a}"),
        }
    }
    /// Faults a program is expected to absorb: nothing is lost.
    fn soft(&self) -> bool {
        match self.act {
            't' => self.k > 0,
            'e' => self.k == EINTR,
            'b' => true,
            _ => self.op == 's',
        }
    }
    fn line(&self) -> String {
        format!("F {} {} {} {} {}\n", self.c, self.op, self.n, self.act, self.k)
    }
}

#[derive(Clone, Debug)]
pub struct Call {
    pub c: usize,
    pub op: char,
    pub n: u64,
    pub req: i64,
    pub ret: i64,
    pub err: i64,
    pub act: char,
}

pub struct Run {
    /// exit status; -1: did not end
    pub rc: i32,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub log: Vec<Call>,
    pub rd: BTreeMap<usize, Vec<u8>>,
}

impl Run {
    fn fired<'a>(&self, faults: &'a [Io]) -> Vec<&'a Io> {
        faults
            .iter()
            .filter(|f| {
                self.log.iter().any(|c| {
                    c.c == f.c && c.op == f.op && (c.n == f.n || (f.act == 'E' && c.n > f.n)) && c.act == f.act.to_ascii_lowercase()
                }) || (f.act == 'x' && self.rc == 97)
            })
            .collect()
    }
    fn calls(&self, c: usize, op: char) -> usize {
        self.log.iter().filter(|x| x.c == c && x.op == op).count()
    }
    fn dead(&self) -> Option<String> {
        match self.rc {
            -1 => Some("the program does not end".into()),
            99 => Some("the program makes calls without end".into()),
            n if n > 128 => Some(format!("the program is killed by signal {}", n - 128)),
            _ => None,
        }
    }
}

/// The first words of a panic message: what was being done, not where in the source or with which numbers.
fn panic_site(err: &[u8]) -> Option<String> {
    let s = String::from_utf8_lossy(err);
    let i = s.find("panicked at ")?;
    let msg = s[i + 12..].lines().nth(1).unwrap_or("");
    let w: Vec<&str> = msg.split([' ', ':']).filter(|x| !x.is_empty()).take(2).collect();
    Some(crate::rng::strip_digits(&w.join(" ")))
}

fn head(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(300)]).to_string()
}

pub struct Cli {
    prop: &'static str,
    seed: u64,
    bin: PathBuf,
    shim: PathBuf,
    scratch: PathBuf,
    pid: u32,
    base: BTreeMap<String, (i32, Vec<u8>, usize)>,
    corpus: BTreeMap<String, Vec<u8>>,
}

const FORMATS: &[(&str, &str)] = &[
    ("peano", "test.peano"),
    ("numbers", "test1.numbers"),
    ("rle", "test0.rle"),
    ("rle", "test1.rle"),
    ("gzip", "test1.gz"),
    ("gzip", "test2.gz"),
    ("gzip", "test3.gz"),
    ("waldo", "test.waldo"),
    ("gif", "test.gif"),
    ("tar", "test.tar"),
    ("tgz", "test.tgz"),
    ("elf", "test.elf"),
    ("txt", "test.txt"),
    ("utf8", "mixed.utf8"),
    ("utf8", "test.utf8"),
    ("jpeg", "test.jpg"),
    ("riff", "test.webp"),
    ("png", "test.png"),
    ("gzip", "test6.gz"),
];
const OUTPUTS: &[&[&str]] = &[
    &["--output", "debug"],
    &["--output", "json"],
    &["--output", "json", "--trace"],
    &["--output", "tree"],
    &["--output", "tree", "--trace"],
    &["--output", "flat"],
];
const PNGS: &[&str] = &["test.png", "test-images/biotech.png"];
const FONTS: &[&str] = &["test-fonts/Zycon.ttf", "test-fonts/DroidSansArabic.ttf", "test-fonts/gzipped.ttf"];

impl Cli {
    pub fn new(prop: &'static str, seed: u64) -> Cli {
        let env = |k: &str| PathBuf::from(std::env::var(k).unwrap_or_else(|_| panic!("{k} is not set")));
        let mut corpus = BTreeMap::new();
        for f in FORMATS.iter().map(|x| x.1).chain(PNGS.iter().copied()).chain(FONTS.iter().copied()) {
            corpus.insert(f.to_string(), std::fs::read(format!("/repo/{f}")).unwrap_or_default());
        }
        Cli {
            prop,
            seed,
            bin: env("SIM_BIN"),
            shim: env("SIM_SHIM"),
            scratch: env("SIM_SCRATCH"),
            pid: 0,
            base: BTreeMap::new(),
            corpus,
        }
    }

    pub fn clean(&mut self) {
        let _ = std::fs::remove_dir_all(&self.scratch);
    }

    /// This worker's empty directory.
    fn dir(&mut self) -> PathBuf {
        let pid = std::process::id();
        let d = self.scratch.join(format!("w{pid}"));
        if self.pid != pid {
            self.pid = pid;
            let _ = std::fs::remove_dir_all(&d);
        }
        d
    }

    fn fresh(&mut self) -> PathBuf {
        let d = self.dir();
        let w = d.join("cwd");
        let _ = std::fs::remove_dir_all(&w);
        std::fs::create_dir_all(&w).expect("scratch directory");
        w
    }

    /// Runs `tool args` in the scratch directory `cwd` under the plan.
    fn run(&mut self, tool: &str, args: &[String], classes: &[(usize, String)], faults: &[Io], hash: u64) -> Run {
        let d = self.dir();
        let cwd = d.join("cwd");
        let mut plan = format!("S {hash}\nL 400000\n");
        for (c, p) in classes {
            plan += &format!("C {c} {p}\n");
            let _ = std::fs::remove_file(d.join(format!("r.rd{c}")));
        }
        for f in faults {
            plan += &f.line();
        }
        std::fs::write(d.join("r.plan"), plan).expect("plan");
        let _ = std::fs::remove_file(d.join("r.log"));
        let out = std::fs::File::create(d.join("r.out")).expect("out");
        let err = std::fs::File::create(d.join("r.err")).expect("err");
        let mut kid = std::process::Command::new(self.bin.join(tool))
            .args(args)
            .current_dir(&cwd)
            .env_clear()
            .env("LD_PRELOAD", &self.shim)
            .env("SIMSHIM", d.join("r"))
            .stdin(std::process::Stdio::null())
            .stdout(out)
            .stderr(err)
            .spawn()
            .expect("tool starts");
        let t0 = Instant::now();
        let mut nap = 200;
        let rc = loop {
            match kid.try_wait().expect("wait") {
                Some(st) => {
                    use std::os::unix::process::ExitStatusExt;
                    break st.code().unwrap_or_else(|| 128 + st.signal().unwrap_or(0));
                }
                None if t0.elapsed() > Duration::from_secs(120) => {
                    let _ = kid.kill();
                    let _ = kid.wait();
                    break -1;
                }
                None => {
                    std::thread::sleep(Duration::from_micros(nap));
                    nap = (nap * 5 / 4).min(20_000);
                }
            }
        };
        // the panic message names the operating system's thread number
        let err = std::fs::read(d.join("r.err")).unwrap_or_default();
        let err = match String::from_utf8_lossy(&err) {
            s if s.contains("thread 'main' (") => s
                .split("thread 'main' (")
                .enumerate()
                .map(|(i, x)| if i == 0 { x.to_string() } else { format!("thread 'main' {}", x.trim_start_matches(|c: char| c.is_ascii_digit() || c == ')')) })
                .collect::<String>()
                .into_bytes(),
            _ => err,
        };
        if rc == 98 {
            panic!("the shim could not work");
        }
        let log = std::fs::read_to_string(d.join("r.log")).unwrap_or_default();
        let log = log
            .lines()
            .filter_map(|l| {
                let w: Vec<&str> = l.split(' ').collect();
                Some(Call {
                    c: w.first()?.parse().ok()?,
                    op: w.get(1)?.chars().next()?,
                    n: w.get(2)?.parse().ok()?,
                    req: w.get(3)?.parse().ok()?,
                    ret: w.get(4)?.parse().ok()?,
                    err: w.get(5)?.parse().ok()?,
                    act: w.get(6)?.chars().next()?,
                })
            })
            .collect();
        let mut rd = BTreeMap::new();
        for (c, _) in classes {
            if let Ok(b) = std::fs::read(d.join(format!("r.rd{c}"))) {
                rd.insert(*c, b);
            }
        }
        Run {
            rc,
            out: std::fs::read(d.join("r.out")).unwrap_or_default(),
            err,
            log,
            rd,
        }
    }

    /// Fault-free reference: (status, stdout, number of writes to stdout)
    fn reference(&mut self, sc: &Sc) -> (i32, Vec<u8>, usize) {
        let key = serde_json::to_string(&(&sc.tool, &sc.args, &sc.files)).unwrap();
        if let Some(x) = self.base.get(&key) {
            return x.clone();
        }
        let w = self.fresh();
        self.lay(&w, sc);
        let r = self.run(&sc.tool, &sc.args, &[], &[], 1);
        let v = (r.rc, r.out.clone(), r.calls(1, 'w'));
        if sc.files.iter().all(|f| f.faults.is_empty()) {
            self.base.insert(key, v.clone());
        }
        v
    }

    fn image(&self, f: &FileSc) -> Vec<u8> {
        let mut b = self.corpus.get(&f.base).cloned().unwrap_or_default();
        for x in &f.faults {
            x.apply(&mut b);
        }
        b
    }
    fn lay(&self, w: &std::path::Path, sc: &Sc) {
        for f in &sc.files {
            std::fs::write(w.join(&f.name), self.image(f)).expect("lay out");
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct FileSc {
    name: String,
    base: String,
    faults: Vec<Fault>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Sc {
    fmt: String,
    tool: String,
    args: Vec<String>,
    files: Vec<FileSc>,
    /// S09: what is at the destination beforehand: "" nothing, "file", "dir", "link"
    #[serde(default)]
    there: String,
    #[serde(default)]
    dest: String,
    io: Vec<Io>,
}

fn words(xs: &[&str]) -> Vec<String> {
    xs.iter().map(|s| s.to_string()).collect()
}

/// A fault on writes to class `c` that makes about `w` of them.
fn write_fault(r: &mut Rng, c: usize, w: usize) -> Vec<Io> {
    let n = r.below(w + 1) as u64;
    let hard = [28i64, 28, 5, 32, 11, 27, 122];
    match r.below(10) {
        0..=2 => vec![Io { c, op: 'w', n, act: 't', k: *r.pick(&[1, 1, 2, 7, 64, 511, 1023]) }],
        3 | 4 => vec![Io { c, op: 'w', n, act: 'e', k: EINTR }],
        // the disk fills up part-way through a write
        5 | 6 => vec![
            Io { c, op: 'w', n, act: 't', k: *r.pick(&[1, 3, 100, 1000, 4095]) },
            Io { c, op: 'w', n: n + 1, act: 'E', k: 28 },
        ],
        7 => vec![Io { c, op: 'w', n, act: 'E', k: *r.pick(&hard) }],
        8 => vec![Io { c, op: 'w', n, act: 'e', k: *r.pick(&hard) }],
        _ => (0..r.range(2, 6) as u64)
            .map(|i| match r.chance(1, 2) {
                true => Io { c, op: 'w', n: n + i, act: 't', k: r.range(1, 40) as i64 },
                false => Io { c, op: 'w', n: n + i, act: 'e', k: EINTR },
            })
            .collect(),
    }
}

fn read_fault(r: &mut Rng, c: usize, len: usize, deep: bool) -> Vec<Io> {
    let n = r.below(if deep { 12 } else { 4 }) as u64;
    match r.below(if deep { 14 } else { 10 }) {
        0..=3 => (0..r.range(1, 9) as u64)
            .map(|i| Io { c, op: 'r', n: n + i, act: 't', k: r.range(1, 1 + len.min(700)) as i64 })
            .collect(),
        4 | 5 => vec![Io { c, op: 'r', n, act: 'e', k: EINTR }],
        6 => vec![Io { c, op: 'r', n, act: 'e', k: *r.pick(&[5, 5, 116, 12]) }],
        7 => vec![
            Io { c, op: 'r', n: 0, act: 't', k: r.range(1, 1 + len.min(700)) as i64 },
            Io { c, op: 'r', n: 1, act: 'E', k: 5 },
        ],
        8 => vec![Io { c, op: 'o', n: 0, act: 'e', k: *r.pick(&[2, 13, 24, 5, EINTR]) }],
        9 => vec![Io { c, op: 's', n: r.below(2) as u64, act: 'e', k: *r.pick(&[5, 13, 12]) }],
        10 => vec![Io { c, op: 's', n: r.below(2) as u64, act: 'b', k: *r.pick(&[0, 1, 5, 100, 4096, 1 << 20]) }],
        // the file is truncated or rewritten in place while it is being read
        11 => vec![
            Io { c, op: 'r', n: 0, act: 't', k: r.range(1, 1 + len.min(700)) as i64 },
            Io { c, op: 'r', n: 1, act: 'z', k: 0 },
        ],
        _ => vec![
            Io { c, op: 'r', n: 0, act: 't', k: r.range(1, 1 + len.min(700)) as i64 },
            Io { c, op: 'r', n: 1, act: 'm', k: 0 },
        ],
    }
}

impl Cli {
    fn file_cmd(&mut self, r: &mut Rng, small: bool) -> Sc {
        let m = if small { FORMATS.len() - 3 } else { FORMATS.len() };
        let (f, p) = FORMATS[r.below(m)];
        let o = OUTPUTS[r.below(OUTPUTS.len())];
        let mut args = words(&["file", "--as-format", f]);
        args.extend(words(o));
        args.push("in.bin".into());
        Sc {
            fmt: format!("file {f} {}", o[1..].join(" ")),
            tool: "doodle".into(),
            args,
            files: vec![FileSc { name: "in.bin".into(), base: p.into(), faults: vec![] }],
            there: String::new(),
            dest: String::new(),
            io: vec![],
        }
    }
    fn mutate(&self, r: &mut Rng, f: &mut FileSc) {
        let b = self.image(f);
        for _ in 0..r.range(1, 4) {
            f.faults.push(disk::draw(r, b.len(), &[], &b));
        }
    }

    fn plan07(&mut self, r: &mut Rng) -> Sc {
        let mut sc = match r.below(20) {
            0 => {
                let o = *r.pick(&["debug", "json", "rust"]);
                Sc {
                    fmt: format!("format {o}"),
                    tool: "doodle".into(),
                    args: words(&["format", "--output", o, "--png-tag-only"]),
                    files: vec![],
                    there: String::new(),
                    dest: String::new(),
                    io: vec![],
                }
            }
            1 if r.chance(1, 12) => {
                let a = *r.pick(&[&["format", "--output", "debug"][..], &["format", "--output", "json"], &["census"]]);
                Sc {
                    fmt: a.join(" "),
                    tool: "doodle".into(),
                    args: words(a),
                    files: vec![],
                    there: String::new(),
                    dest: String::new(),
                    io: vec![],
                }
            }
            n => self.file_cmd(r, n > 3),
        };
        if r.chance(1, 8) && !sc.files.is_empty() {
            self.mutate(r, &mut sc.files[0]);
        }
        let (_, _, w) = self.reference(&sc);
        for _ in 0..r.range(1, 4) {
            sc.io.extend(write_fault(r, 1, w));
        }
        sc
    }
    fn exec07(&mut self, sc: &Sc, rep: &mut Report) {
        let (rc0, out0, _) = self.reference(sc);
        let w = self.fresh();
        self.lay(&w, sc);
        let r = self.run(&sc.tool, &sc.args, &[], &sc.io, 1);
        let fired = self.note(rep, sc, &r);
        if let Some(d) = r.dead() {
            return rep.fail(d.clone(), format!("{}: {d} when its output cannot be written", sc.fmt));
        }
        if !out0.starts_with(&r.out) {
            return rep.fail(
                "delivered output is not a prefix",
                format!("{}: status {}, {} bytes delivered that differ from the fault-free output", sc.fmt, r.rc, r.out.len()),
            );
        }
        if r.rc == 0 && (r.out.len() != out0.len() || rc0 != 0) {
            return rep.fail(
                "success reported for lost output",
                format!("{}: exit status 0 with {} of {} bytes delivered", sc.fmt, r.out.len(), out0.len()),
            );
        }
        if fired.iter().all(|f| f.soft()) && (r.rc != rc0 || r.out != out0) {
            rep.fail(
                "a transient fault is not absorbed",
                format!("{}: status {} (fault-free {rc0}), {} of {} bytes delivered", sc.fmt, r.rc, r.out.len(), out0.len()),
            );
        }
    }

    fn plan08(&mut self, r: &mut Rng) -> Sc {
        let small = r.chance(9, 10);
        let mut sc = self.file_cmd(r, small);
        if r.chance(1, 25) {
            sc.args.drain(1..3); // the default top-level format
            sc.fmt = format!("file main {}", sc.args[2]);
        }
        if r.chance(1, 3) {
            self.mutate(r, &mut sc.files[0]);
        }
        let n = self.image(&sc.files[0]).len();
        for _ in 0..r.range(1, 4) {
            sc.io.extend(read_fault(r, 3, n, true));
        }
        if sc.io.iter().any(|x| x.act == 'm') {
            // what the file is overwritten with
            let mut alt = FileSc { name: "in.bin.alt".into(), ..sc.files[0].clone() };
            self.mutate(r, &mut alt);
            sc.files.push(alt);
        }
        sc
    }
    fn exec08(&mut self, sc: &Sc, rep: &mut Report) {
        let w = self.fresh();
        self.lay(&w, sc);
        let r = self.run(&sc.tool, &sc.args, &[(3, "in.bin".into())], &sc.io, 1);
        self.note(rep, sc, &r);
        if let Some(d) = r.dead() {
            return rep.fail(d.clone(), format!("{}: {d} when its input cannot be read", sc.fmt));
        }
        // the last thing the program learnt about the file: end of file, or an error it could not absorb
        let reads: Vec<&Call> = r.log.iter().filter(|c| c.c == 3 && (c.op == 'r' || (c.op == 'o' && c.ret < 0))).collect();
        let complete = reads.last().is_some_and(|c| c.op == 'r' && c.ret == 0);
        let got = r.rd.get(&3).cloned().unwrap_or_default();
        if !complete {
            rep.count("probe:input not delivered");
            let last = reads.last().map(|c| errname(c.err)).unwrap_or("no read".into());
            if r.rc == 0 || !r.out.is_empty() {
                return rep.fail(
                    "a result without the whole input",
                    format!("{}: status {}, {} bytes of output although reading ended with {last} after {} bytes", sc.fmt, r.rc, r.out.len(), got.len()),
                );
            }
            if reads.last().is_some_and(|c| c.err == EINTR) {
                return rep.fail("a transient fault is not absorbed", format!("{}: gave up after EINTR", sc.fmt));
            }
            if r.err.is_empty() {
                rep.fail("failure without a message", format!("{}: status {} and nothing on stderr", sc.fmt, r.rc));
            }
            return;
        }
        rep.count("probe:input delivered");
        let w = self.fresh();
        std::fs::write(w.join("in.bin"), &got).expect("lay out");
        let q = self.run(&sc.tool, &sc.args, &[], &[], 1);
        rep.count(if q.rc == 0 { "probe:accepted" } else { "probe:rejected" });
        if (q.rc, &q.out, &q.err) != (r.rc, &r.out, &r.err) {
            rep.fail(
                "the result depends on how the input was delivered",
                format!(
                    "{}: status {} and {} bytes of output for {} bytes delivered piecemeal; status {} and {} bytes for the same file read at once; stderr {:?} / {:?}",
                    sc.fmt, r.rc, r.out.len(), got.len(), q.rc, q.out.len(), head(&r.err), head(&q.err)
                ),
            );
        }
    }

    fn plan09(&mut self, r: &mut Rng) -> Sc {
        let dest = *r.pick(&["out.rs", "gencode.rs", "my-gencode-2.rs", "sub/out.rs", "GENCODE.rs", "gen_code.rs", "sub/gencode.rs", "gencode.d/out.rs"]);
        let there = *r.pick(&["", "", "file", "file", "file", "dir", "link"]);
        let there = if there == "link" && dest.ends_with("rs") && is_gen(dest) { "file" } else { there };
        let o = if r.chance(1, 10) { *r.pick(&["debug", "json"]) } else { "rust" };
        let mut io = vec![];
        for _ in 0..r.range(0, 3) {
            match r.below(9) {
                0..=3 => {
                    let w = *r.pick(&[1usize, 3, 10, 60]);
                    io.extend(write_fault(r, 3, w))
                }
                4 => io.push(Io { c: 3, op: 'o', n: 0, act: 'e', k: *r.pick(&[13, 24, 28, 30, 5, EINTR]) }),
                5 | 6 => io.push(Io { c: 3, op: 's', n: r.below(3) as u64, act: *r.pick(&['e', 'E']), k: *r.pick(&[13, 5, 12]) }),
                7 => io.push(Io { c: 3, op: *r.pick(&['w', 'w', 'o', 's']), n: r.below(8) as u64, act: 'x', k: 0 }),
                _ => {
                    if there.is_empty() {
                        io.push(Io { c: 3, op: 'o', n: 0, act: 'c', k: *r.pick(&[0, 1, 5, 3000]) })
                    }
                }
            }
        }
        Sc {
            fmt: format!("format {o} --dest"),
            tool: "doodle".into(),
            args: words(&["format", "--output", o, "--png-tag-only", "--dest", dest]),
            files: vec![],
            there: there.into(),
            dest: dest.into(),
            io,
        }
    }
    fn exec09(&mut self, sc: &Sc, rep: &mut Report) {
        let plain = Sc { args: sc.args[..4].to_vec(), io: vec![], there: String::new(), dest: String::new(), ..sc.clone() };
        let (rc0, text, _) = self.reference(&plain);
        if rc0 != 0 {
            return rep.fail("fault-free generation fails", format!("status {rc0}"));
        }
        let w = self.fresh();
        std::fs::create_dir_all(w.join("sub")).unwrap();
        std::fs::create_dir_all(w.join("gencode.d")).unwrap();
        let old: Vec<u8> = (0..text.len() + 977).map(|i| b'a' + (i % 23) as u8).collect();
        let put = |p: &str, b: &[u8]| std::fs::write(w.join(p), b).unwrap();
        // bystanders: nothing else may change
        for p in ["keep.rs", "sub/keep.rs", "gencode.d/gencode_keep.rs"] {
            put(p, b"bystander");
        }
        let d = w.join(&sc.dest);
        match sc.there.as_str() {
            "file" => put(&sc.dest, &old),
            "dir" => {
                std::fs::create_dir_all(&d).unwrap();
                std::fs::write(d.join("inner"), &old).unwrap();
            }
            "link" => {
                put("target.rs", &old);
                std::os::unix::fs::symlink(w.join("target.rs"), &d).unwrap();
            }
            _ => (),
        }
        let before = listing(&w);
        let to_dest = sc.args[2] == "rust";
        let r = self.run(&sc.tool, &sc.args, &[(3, sc.dest.clone())], &sc.io, 1);
        let fired = self.note(rep, sc, &r);
        if let Some(x) = r.dead() {
            return rep.fail(x.clone(), format!("{x}: {:?}", sc.args));
        }
        let raced = fired.iter().find(|f| f.act == 'c').map(|f| vec![b'A'; f.k as usize]);
        let replaceable = is_gen(&sc.dest) && sc.there != "dir";
        let protected = (!sc.there.is_empty() || raced.is_some()) && !replaceable;
        rep.count(if protected { "probe:protected destination" } else { "probe:free destination" });
        let mut after = listing(&w);
        let now = after.get(&sc.dest).cloned();
        if protected || !to_dest {
            let mut want = before.clone();
            if let Some(b) = &raced {
                want.insert(sc.dest.clone(), b.clone());
            }
            if after != want {
                let what: Vec<&String> = want.iter().filter(|(k, v)| after.get(*k) != Some(v)).map(|x| x.0).collect();
                return rep.fail(
                    if to_dest { "an existing file is overwritten" } else { "files change without a request to write" },
                    format!("{:?} with {:?} at the destination: {what:?} changed (status {})", sc.args, sc.there, r.rc),
                );
            }
            if to_dest && r.rc == 0 {
                return rep.fail("success reported but nothing written", format!("{:?}: status 0 with a protected destination", sc.args));
            }
            if !to_dest && r.rc != 97 && (r.rc != 0 || r.out != text) {
                return rep.fail("the text on stdout is wrong", format!("{:?}: status {}", sc.args, r.rc));
            }
            return;
        }
        let mut was = before.clone();
        let old_dest = was.remove(&sc.dest);
        after.remove(&sc.dest);
        if was != after {
            return rep.fail("other files are changed", format!("{:?}: status {}", sc.args, r.rc));
        }
        let keep = old_dest.as_ref().or(raced.as_ref());
        match &now {
            None if old_dest.is_some() => {
                return rep.fail("the destination is gone", format!("{:?}: status {}", sc.args, r.rc));
            }
            Some(b) if Some(b) != keep && !text.starts_with(b) => {
                return rep.fail(
                    "the destination holds neither old nor new text",
                    format!("{:?}: status {}, {} bytes", sc.args, r.rc, b.len()),
                );
            }
            _ => (),
        }
        if r.rc == 0 && now.as_deref() != Some(&text[..]) {
            return rep.fail(
                "success reported for lost output",
                format!("{:?}: status 0 with {} of {} bytes at the destination", sc.args, now.map_or(0, |b| b.len()), text.len()),
            );
        }
        // stat failures may legitimately be taken for "something is there"
        if fired.iter().all(|f| f.soft() && f.op != 's') && r.rc != 0 {
            rep.fail("a transient fault is not absorbed", format!("{:?}: status {}, stderr {}", sc.args, r.rc, head(&r.err)));
        }
    }

    fn plan11(&mut self, r: &mut Rng) -> Sc {
        let (tool, flags, bases, ext): (&str, &[&str], &[&str], &str) = match r.below(8) {
            0 | 1 => ("pnginfo", &[], PNGS, "png"),
            2 => ("elfinfo", &[], &["test.elf"], "elf"),
            3 => ("rle_info", &[], &["test0.rle", "test1.rle"], "rle"),
            4 => ("fontinfo", &["--fast"], FONTS, "ttf"),
            5 => ("fontinfo", &["--extra-only"], FONTS, "ttf"),
            6 => ("fontinfo", &["-v"], FONTS, "ttf"),
            _ => ("fontinfo", &["-q"], FONTS, "ttf"),
        };
        let n = r.range(2, 6);
        let mut files = vec![];
        let mut io = vec![];
        for i in 0..n {
            let e = if r.chance(1, 15) { "dat" } else { ext };
            let mut f = FileSc { name: format!("f{i}.{e}"), base: r.pick(bases).to_string(), faults: vec![] };
            if r.chance(1, 2) {
                self.mutate(r, &mut f);
            }
            if r.chance(1, 3) {
                let len = self.image(&f).len();
                io.extend(read_fault(r, 3 + i, len, false));
            }
            files.push(f);
        }
        let mut args = words(flags);
        args.extend(files.iter().map(|f| f.name.clone()));
        Sc { fmt: format!("{tool} {}", flags.join(" ")), tool: tool.into(), args, files, there: String::new(), dest: String::new(), io }
    }
    fn exec11(&mut self, sc: &Sc, rep: &mut Report) {
        let flags: Vec<String> = sc.args[..sc.args.len() - sc.files.len()].to_vec();
        let (mut out, mut err) = (vec![], vec![]);
        for (i, f) in sc.files.iter().enumerate() {
            let w = self.fresh();
            self.lay(&w, sc);
            let mut args = flags.clone();
            args.push(f.name.clone());
            let io: Vec<Io> = sc.io.iter().filter(|x| x.c == 3 + i).cloned().collect();
            let r = self.run(&sc.tool, &args, &[(3 + i, f.name.clone())], &io, 1);
            if let Some(d) = r.dead() {
                return rep.fail(format!("{}: {d}", sc.tool), format!("{:?} on {f:?}", args));
            }
            if r.rc != 0 {
                let site = panic_site(&r.err).unwrap_or(format!("status {}", r.rc));
                let how = if matches!(sc.fmt.as_str(), "fontinfo -q" | "fontinfo -v") { " (table metrics)" } else { "" };
                return rep.fail(format!("{}{how} dies on one file: {site}", sc.tool), format!("{args:?}: {}", head(&r.err)));
            }
            // each tool prints a section or a row per file it could analyse; pnginfo's rows share one header line
            let o = match sc.tool.as_str() {
                "pnginfo" if i > 0 => r.out.iter().position(|c| *c == b'\n').map(|p| r.out[p + 1..].to_vec()).unwrap_or_default(),
                _ => r.out,
            };
            let e = String::from_utf8_lossy(&r.err);
            rep.count(if e.contains("Failed!") {
                "probe:file failed"
            } else if e.contains("kipping") {
                "probe:file skipped"
            } else {
                "probe:file analysed"
            });
            out.extend(o);
            err.extend(r.err);
        }
        let w = self.fresh();
        self.lay(&w, sc);
        let classes: Vec<(usize, String)> = sc.files.iter().enumerate().map(|(i, f)| (3 + i, f.name.clone())).collect();
        let r = self.run(&sc.tool, &sc.args, &classes, &sc.io, 1);
        self.note(rep, sc, &r);
        if let Some(d) = r.dead() {
            return rep.fail(format!("{}: {d}", sc.tool), format!("{:?}", sc.args));
        }
        if r.rc != 0 {
            return rep.fail(format!("{}: the batch stops", sc.tool), format!("{:?}: status {}: {}", sc.args, r.rc, head(&r.err)));
        }
        if r.err != err {
            return rep.fail(
                format!("{}: a file's verdict depends on the other files", sc.tool),
                format!("{:?}: together {:?}, one by one {:?}", sc.args, head(&r.err), head(&err)),
            );
        }
        if r.out != out {
            rep.fail(
                format!("{}: a file's report depends on the other files", sc.tool),
                format!("{:?}: {} bytes together, {} bytes one by one", sc.args, r.out.len(), out.len()),
            );
        }
    }

    fn note<'a>(&self, rep: &mut Report, sc: &'a Sc, r: &Run) -> Vec<&'a Io> {
        let fired = r.fired(&sc.io);
        for f in &fired {
            rep.count(format!("fault:{}", f.kind()));
        }
        for f in sc.files.iter().flat_map(|f| &f.faults) {
            rep.count(format!("fault:{}", f.kind()));
        }
        rep.vtime += r.log.len() as u64;
        rep.count(format!("status:{}", r.rc));
        // (the length of a panic message depends on the width of a thread number)
        let hist: Vec<String> = r.log.iter().map(|c| format!("{}{}{}{}{}", c.c, c.op, if c.c == 2 { 0 } else { c.ret }, c.err, c.act)).collect();
        rep.observe(&format!("{} {} {:x} {:x} {}", sc.fmt, r.rc, fnv(&r.out), fnv(&r.err), hist.join(" ")));
        let shape: Vec<String> = fired.iter().map(|f| format!("{}@{}", f.kind(), f.n.min(6))).collect();
        let files: Vec<String> = sc.files.iter().map(|f| format!("{}:{:?}", f.base, f.faults.iter().map(|x| x.kind()).collect::<Vec<_>>())).collect();
        rep.state(&format!("{} {} {} {} {} {}", sc.fmt, sc.there, sc.dest, r.rc, shape.join(" "), files.join(" ")));
        fired
    }
}

fn is_gen(dest: &str) -> bool {
    dest.rsplit('/').next().unwrap_or(dest).contains("gencode")
}

/// every file below `w` (through no links), with contents; directories and links by their kind
fn listing(w: &std::path::Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    let mut todo = vec![String::new()];
    while let Some(p) = todo.pop() {
        for e in std::fs::read_dir(w.join(&p)).into_iter().flatten().flatten() {
            let name = e.file_name().to_string_lossy().to_string();
            let q = if p.is_empty() { name } else { format!("{p}/{name}") };
            let t = e.file_type().unwrap();
            if t.is_dir() {
                m.insert(format!("{q}/"), vec![]);
                todo.push(q);
            } else if t.is_symlink() {
                m.insert(q, b"link".to_vec());
            } else {
                m.insert(q, std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    m
}

impl Sim for Cli {
    fn property(&self) -> &str {
        self.prop
    }
    fn plan(&mut self, ix: u64) -> Json {
        let mut r = Rng::stream(self.seed, self.prop, ix);
        let sc = match self.prop {
            "S07" => self.plan07(&mut r),
            "S08" => self.plan08(&mut r),
            "S09" => self.plan09(&mut r),
            _ => self.plan11(&mut r),
        };
        serde_json::to_value(sc).unwrap()
    }
    fn exec(&mut self, sc: &Json) -> Report {
        let sc: Sc = serde_json::from_value(sc.clone()).expect("scenario");
        let mut rep = Report::default();
        match self.prop {
            "S07" => self.exec07(&sc, &mut rep),
            "S08" => self.exec08(&sc, &mut rep),
            "S09" => self.exec09(&sc, &mut rep),
            _ => self.exec11(&sc, &mut rep),
        }
        rep
    }
    fn shrink(&mut self, sc: &Json) -> Vec<Json> {
        let sc: Sc = serde_json::from_value(sc.clone()).expect("scenario");
        let mut c = vec![];
        for i in 0..sc.io.len() {
            let mut s = sc.clone();
            s.io.remove(i);
            c.push(s);
        }
        for i in 0..sc.files.len() {
            if self.prop == "S11" && sc.files.len() > 1 {
                let mut s = sc.clone();
                let name = s.files.remove(i).name;
                s.args.retain(|a| *a != name);
                s.io.retain(|x| x.c != 3 + i);
                for x in &mut s.io {
                    if x.c > 3 + i {
                        x.c -= 1
                    }
                }
                c.push(s);
            }
            for j in 0..sc.files[i].faults.len() {
                let mut s = sc.clone();
                s.files[i].faults.remove(j);
                c.push(s);
                for f in sc.files[i].faults[j].simpler() {
                    let mut s = sc.clone();
                    s.files[i].faults[j] = f;
                    c.push(s);
                }
            }
        }
        for i in 0..sc.io.len() {
            for n in [0, sc.io[i].n / 2, sc.io[i].n.saturating_sub(1)] {
                if n < sc.io[i].n {
                    let mut s = sc.clone();
                    s.io[i].n = n;
                    c.push(s);
                }
            }
            if sc.io[i].act == 't' && sc.io[i].k > 1 {
                let mut s = sc.clone();
                s.io[i].k = 1;
                c.push(s);
            }
        }
        c.into_iter().map(|s| serde_json::to_value(s).unwrap()).collect()
    }
    fn death(&mut self, _sc: &Json, how: &Death) -> Option<Viol> {
        // the simulator itself died: not a verdict about the program under test
        panic!("the simulator died: {}", how.text())
    }
    fn rule(&self) -> String {
        "distinct (command, destination state, input files and kinds of damage to them, exit status, sequence of faults that fired and the call each hit)".into()
    }
    fn real_and_stub(&self) -> Json {
        json!({
            "real": ["the built command line tools of the tree under test (whole process: argument parsing, format compilation, decoding, output)", "Rust std buffering", "the kernel's file system, inside a scratch directory"],
            "stub": ["libc open/openat/statx/read/write/writev/getrandom: pass through the plan-driven shim"],
        })
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the tools reach files through the libc symbols named in shim/shim.c (as Rust std does on this platform)".into(),
            "a closed standard output (EBADF) is excluded: Rust std discards such output by design".into(),
        ]
    }
    fn probes(&self) -> Vec<&'static str> {
        match self.prop {
            "S07" => vec!["fault:short-write", "fault:write-EINTR", "fault:write-ENOSPC-from-here-on", "status:0", "status:101"],
            "S08" => vec!["probe:input delivered", "probe:input not delivered", "probe:accepted", "probe:rejected", "fault:file-overwritten-during-read"],
            "S09" => vec!["probe:protected destination", "probe:free destination", "fault:file-appears-before-open", "fault:killed-at-write", "status:0"],
            _ => vec!["probe:file failed", "probe:file skipped", "probe:file analysed"],
        }
    }
    fn hang_secs(&self) -> u64 {
        600
    }
}
