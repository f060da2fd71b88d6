//! S04: the Parser runtime that generated decoders run on, against an executable model of its contract,
//! over arbitrary histories of operations, failures and abandoned branches.

use crate::engine::caught;
use crate::guard::Guarded;
use crate::rng::Rng;
use crate::runner::*;
use doodle::parser::offset::ByteOffset;
use doodle::prelude::{ParseError, Parser};
use serde::{Deserialize, Serialize};
use serde_json::{Value as Json, json};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "op", content = "n")]
pub enum Op {
    Read,
    Advance(usize),
    Align(usize),
    Bits,
    Unbits,
    SkipRemainder,
    Slice(usize),
    EndSlice,
    Peek,
    ClosePeek,
    PeekNot,
    /// what the PeekNot guards has been decided, possibly by a failure somewhere inside it
    ClosePeekNot,
    Alt,
    /// the branch failed here
    NextAlt(bool),
    /// the branch succeeded
    EndAlt,
    Seek(usize),
    /// open a parser on a view, at this offset from the view
    View(usize),
    CloseView,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Bytes,
    /// bit cursor entered at this byte
    Bits(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Pos {
    bit: usize, // absolute, in bits
    mode: Mode,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ctx {
    Alt(Pos),
    Peek(Pos),
    PeekNot(Pos),
    Seek(Pos),
    Slice(Pos), // its end, in the modality it was opened in
}

/// The reference model. Everything is counted in bits of the buffer; contexts are a plain stack.
#[derive(Clone)]
struct Model {
    len: usize,
    base: usize,
    pos: Pos,
    stack: Vec<Ctx>,
    /// stack height when bits-mode was entered
    depth_at_bits: usize,
    /// an operation failed in a way that only permits unwinding to a recovery point
    failed: bool,
}

impl Model {
    fn new(len: usize, base: usize) -> Model {
        Model { len, base, pos: Pos { bit: 0, mode: Mode::Bytes }, stack: vec![], depth_at_bits: 0, failed: false }
    }
    fn limit(&self) -> usize {
        for c in self.stack.iter().rev() {
            if let Ctx::Slice(e) = c {
                return e.bit;
            }
        }
        self.len * 8
    }
    fn unit(&self) -> usize {
        if self.pos.mode == Mode::Bytes { 8 } else { 1 }
    }
    fn remaining(&self) -> usize {
        (self.limit() - self.pos.bit) / self.unit()
    }
    fn advance(&mut self, n: usize) -> bool {
        if n > self.remaining() {
            return false;
        }
        self.pos.bit += n * self.unit();
        true
    }
    /// index of the innermost context a failure unwinds to
    fn recovery(&self) -> Option<usize> {
        self.stack.iter().rposition(|c| matches!(c, Ctx::Alt(_) | Ctx::PeekNot(_)))
    }
    fn shape(&self) -> String {
        let mut s = String::new();
        for c in &self.stack {
            s.push(match c {
                Ctx::Alt(_) => 'A',
                Ctx::Peek(_) => 'P',
                Ctx::PeekNot(_) => 'N',
                Ctx::Seek(_) => 'K',
                Ctx::Slice(e) => {
                    if e.mode == Mode::Bytes {
                        'S'
                    } else {
                        's'
                    }
                }
            });
        }
        s
    }
}

pub struct Cursor {
    pub seed: u64,
}

fn huge(rng: &mut Rng) -> usize {
    *rng.pick(&[usize::MAX, usize::MAX - 1, usize::MAX / 8, usize::MAX / 8 + 1, u32::MAX as usize, 1 << 61, isize::MAX as usize])
}

impl Sim for Cursor {
    fn property(&self) -> &str {
        "S04"
    }
    fn plan(&mut self, ix: u64) -> Json {
        let mut rng = Rng::stream(self.seed, "cursor", ix);
        let n = if rng.chance(1, 2) { rng.range(0, 24) } else { rng.range(16, 80) };
        let buf: Vec<u8> = (0..n).map(|_| rng.byte()).collect();
        let cut = if rng.chance(1, 3) { Some(rng.below(n + 1)) } else { None };
        let len = |rng: &mut Rng| match rng.below(24) {
            0 => huge(rng),
            1..=3 => n,
            _ => rng.below(9),
        };
        // swarm: each run favours some operations, so that deep nests of one kind occur
        let mut w: Vec<usize> = (0..18).map(|_| rng.below(6)).collect();
        w[0] = w[0].max(3);
        if rng.chance(1, 2) {
            // balanced contexts
            w[7] = w[7].max(w[6]);
            w[9] = w[9].max(w[8]);
        }
        let total: usize = w.iter().sum();
        let k = rng.range(4, 60);
        let mut ops = vec![];
        for _ in 0..k {
            let mut t = rng.below(total.max(1));
            let mut i = 0;
            while i < w.len() - 1 && t >= w[i] {
                t -= w[i];
                i += 1;
            }
            ops.push(match i {
                0 => Op::Read,
                1 => Op::Advance(len(&mut rng)),
                2 => Op::Align(*rng.pick(&[1usize, 2, 3, 4, 8, 16, 7])),
                3 => Op::Bits,
                4 => Op::Unbits,
                5 => {
                    if rng.chance(1, 3) {
                        Op::SkipRemainder
                    } else {
                        Op::Read
                    }
                }
                6 => Op::Slice(len(&mut rng)),
                7 => Op::EndSlice,
                8 => Op::Peek,
                9 => Op::ClosePeek,
                10 => Op::PeekNot,
                11 => Op::ClosePeekNot,
                12 => Op::Alt,
                13 => Op::NextAlt(rng.chance(1, 2)),
                14 => Op::EndAlt,
                15 => Op::Seek(if rng.chance(1, 12) { huge(&mut rng) } else { rng.below(n + 3) }),
                16 => Op::View(if rng.chance(1, 12) { huge(&mut rng) } else { rng.below(n + 2) }),
                _ => Op::CloseView,
            });
        }
        json!({"buf": buf, "cut": cut, "ops": ops, "front": rng.chance(1, 4)})
    }
    fn exec(&mut self, sc: &Json) -> Report {
        let mut r = Report::default();
        let mut buf: Vec<u8> = serde_json::from_value(sc["buf"].clone()).unwrap_or_default();
        if let Some(c) = sc["cut"].as_u64() {
            buf.truncate(c as usize);
            r.count("fault:truncated-buffer");
        }
        let ops: Vec<Op> = serde_json::from_value(sc["ops"].clone()).unwrap_or_default();
        let g = Guarded::new(&buf, sc["front"] == true);
        let data = g.bytes();
        match caught(|| history(data, &ops, &mut r)) {
            Ok(()) => {}
            Err(m) => r.fail("the parser unwound", m),
        }
        r
    }
    fn shrink(&mut self, sc: &Json) -> Vec<Json> {
        let mut out = vec![];
        let ops: Vec<Op> = serde_json::from_value(sc["ops"].clone()).unwrap_or_default();
        for (a, b) in [(0, ops.len() / 2), (ops.len() / 2, ops.len())] {
            if b > a && ops.len() > 1 {
                let mut o = ops.clone();
                o.drain(a..b);
                let mut s = sc.clone();
                s["ops"] = json!(o);
                out.push(s);
            }
        }
        for i in 0..ops.len() {
            let mut o = ops.clone();
            o.remove(i);
            let mut s = sc.clone();
            s["ops"] = json!(o);
            out.push(s);
        }
        if sc["cut"].is_u64() {
            let mut s = sc.clone();
            s["cut"] = Json::Null;
            out.push(s);
        }
        let buf: Vec<u8> = serde_json::from_value(sc["buf"].clone()).unwrap_or_default();
        if !buf.is_empty() {
            let mut s = sc.clone();
            s["buf"] = json!(buf[..buf.len() - 1]);
            out.push(s);
        }
        out
    }
    fn death(&mut self, _: &Json, how: &Death) -> Option<Viol> {
        Some(Viol { class: format!("the parser {}", how.text()), detail: "simulated process ended".into() })
    }
    fn rule(&self) -> String {
        "A run draws a buffer (possibly cut short) and a history of 4-60 Parser operations; operations that break the \
         protocol at that point are skipped. After every operation the cursor, modality, remaining count, end test, \
         absolute position and view contents are compared with the reference model. Distinct = distinct (operation, \
         outcome, modality, open-context stack, parser nesting)."
            .into()
    }
    fn real_and_stub(&self) -> Json {
        json!({"real": ["doodle::parser::Parser, offset, view"], "stub": ["generated decoders (replaced by a random well-formed driver)", "input buffer (guard pages on both sides)"]})
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "contexts are closed in the order generated decoders close them: innermost first, except that a failure unwinds to the innermost alternation or PeekNot".into(),
            "not driven: opening a view or seeking backwards while in bits-mode, which are documented to panic".into(),
        ]
    }
    fn probes(&self) -> Vec<&'static str> {
        vec!["fault:abandoned-branch", "fault:overrun", "fault:oversized-length", "fault:truncated-buffer", "op:Seek back", "op:Unbits ok", "op:EndSlice ok", "op:View ok"]
    }
}

fn name(o: &Op) -> &'static str {
    match o {
        Op::Read => "Read",
        Op::Advance(_) => "Advance",
        Op::Align(_) => "Align",
        Op::Bits => "Bits",
        Op::Unbits => "Unbits",
        Op::SkipRemainder => "SkipRemainder",
        Op::Slice(_) => "Slice",
        Op::EndSlice => "EndSlice",
        Op::Peek => "Peek",
        Op::ClosePeek => "ClosePeek",
        Op::PeekNot => "PeekNot",
        Op::ClosePeekNot => "ClosePeekNot",
        Op::Alt => "Alt",
        Op::NextAlt(_) => "NextAlt",
        Op::EndAlt => "EndAlt",
        Op::Seek(_) => "Seek",
        Op::View(_) => "View",
        Op::CloseView => "CloseView",
    }
}

fn overrun(e: &ParseError) -> bool {
    matches!(e, ParseError::Overrun(_))
}

fn history(data: &[u8], ops: &[Op], r: &mut Report) {
    let mut ps: Vec<(Parser<'_>, Model)> = vec![(Parser::new(data), Model::new(data.len(), 0))];
    compare(data, &ps, "start", 0, r);
    for (i, op) in ops.iter().enumerate() {
        if r.viol.is_some() {
            return;
        }
        let depth = ps.len();
        let (p, m) = ps.last_mut().unwrap();
        let unwinding = matches!(op, Op::NextAlt(_) | Op::ClosePeekNot | Op::CloseView);
        if m.failed && !unwinding {
            continue;
        }
        if let Op::Advance(n) | Op::Slice(n) | Op::Seek(n) | Op::View(n) = op {
            if *n > 1 << 30 {
                r.count("fault:oversized-length");
            }
        }
        // expectation from the model, then the real operation
        let mut how = "ok";
        let mut bad: Option<String> = None;
        macro_rules! expect_ok {
            ($ok:expr, $res:expr) => {{
                let ok = $ok;
                let res = $res;
                if !ok {
                    how = "fails";
                    r.count("fault:overrun");
                }
                match (ok, res) {
                    (true, Ok(_)) | (false, Err(_)) => {}
                    (true, Err(e)) => bad = Some(format!("failed with {e:?}, the contract says it succeeds")),
                    (false, Ok(_)) => bad = Some("succeeded, the contract says it fails".to_string()),
                }
            }};
        }
        match op {
            Op::Read => {
                let at = m.pos;
                let ok = m.advance(1);
                match (ok, p.read_byte()) {
                    (true, Ok(b)) => {
                        let byte = data[m.base + at.bit / 8];
                        let want = if at.mode == Mode::Bytes { byte } else { (byte >> (at.bit % 8)) & 1 };
                        if b != want {
                            bad = Some(format!("read {b}, the buffer holds {want}"));
                        }
                    }
                    (false, Err(e)) => {
                        how = "fails";
                        r.count("fault:overrun");
                        if !overrun(&e) {
                            bad = Some(format!("reading at the end gave {e:?}, not an overrun"));
                        }
                    }
                    (true, Err(e)) => bad = Some(format!("failed with {e:?} although input remains")),
                    (false, Ok(b)) => bad = Some(format!("read {b} past the limit")),
                }
            }
            Op::Advance(n) => expect_ok!(m.advance(*n), p.advance_by(*n)),
            Op::Align(n) => {
                let at = match m.pos.mode {
                    Mode::Bytes => m.base + m.pos.bit / 8,
                    Mode::Bits(s) => m.pos.bit - s * 8,
                };
                let pad = (n - at % n) % n;
                expect_ok!(m.advance(pad), p.skip_align(*n))
            }
            Op::Bits => {
                let ok = m.pos.mode == Mode::Bytes;
                if ok {
                    m.pos.mode = Mode::Bits(m.pos.bit / 8);
                    m.depth_at_bits = m.stack.len();
                }
                expect_ok!(ok, p.enter_bits_mode())
            }
            Op::Unbits => match m.pos.mode {
                Mode::Bytes => expect_ok!(false, p.escape_bits_mode()),
                Mode::Bits(s) => {
                    if m.stack.len() != m.depth_at_bits {
                        continue;
                    }
                    let n = m.pos.bit - s * 8;
                    m.pos = Pos { bit: m.pos.bit.div_ceil(8) * 8, mode: Mode::Bytes };
                    match p.escape_bits_mode() {
                        Ok(k) if k == n => {}
                        Ok(k) => bad = Some(format!("reported {k} bits read, not {n}")),
                        Err(e) => bad = Some(format!("failed with {e:?}")),
                    }
                }
            },
            Op::SkipRemainder => {
                let n = m.remaining();
                m.advance(n);
                p.skip_remainder();
            }
            Op::Slice(n) => {
                let ok = *n <= m.remaining();
                if ok {
                    m.stack.push(Ctx::Slice(Pos { bit: m.pos.bit + n * m.unit(), mode: m.pos.mode }));
                }
                expect_ok!(ok, p.start_slice(*n))
            }
            Op::EndSlice => {
                let Some(Ctx::Slice(e)) = m.stack.last().copied() else { continue };
                m.stack.pop();
                m.pos = e;
                expect_ok!(true, p.end_slice())
            }
            Op::Peek => {
                m.stack.push(Ctx::Peek(m.pos));
                p.open_peek_context();
            }
            Op::ClosePeek => {
                let Some(Ctx::Peek(c) | Ctx::Seek(c)) = m.stack.last().copied() else { continue };
                m.stack.pop();
                m.pos = c;
                expect_ok!(true, p.close_peek_context())
            }
            Op::PeekNot => {
                m.stack.push(Ctx::PeekNot(m.pos));
                p.open_peek_not_context();
            }
            Op::ClosePeekNot => {
                let Some(k) = m.recovery() else { continue };
                let Ctx::PeekNot(c) = m.stack[k] else { continue };
                if m.stack.len() > k + 1 || m.failed {
                    r.count("fault:abandoned-branch");
                }
                m.stack.truncate(k);
                m.pos = c;
                m.failed = false;
                expect_ok!(true, p.close_peek_not_context())
            }
            Op::Alt => {
                m.stack.push(Ctx::Alt(m.pos));
                p.start_alt();
            }
            Op::NextAlt(last) => {
                let Some(k) = m.recovery() else { continue };
                let Ctx::Alt(c) = m.stack[k] else { continue };
                r.count("fault:abandoned-branch");
                m.stack.truncate(k);
                m.pos = c;
                m.failed = false;
                if !last {
                    m.stack.push(Ctx::Alt(c));
                }
                expect_ok!(true, p.next_alt(*last))
            }
            Op::EndAlt => {
                let Some(Ctx::Alt(_)) = m.stack.last() else { continue };
                if m.pos.mode != Mode::Bytes && m.depth_at_bits == m.stack.len() {
                    continue; // bits-mode entered in this branch has to be left in it
                }
                m.stack.pop();
                p.end_alt();
            }
            Op::Seek(d) => {
                let here = m.base * 8 + m.pos.bit;
                if *d < m.base {
                    m.failed = true;
                    expect_ok!(false, p.advance_or_seek(*d));
                } else if d.checked_mul(8).is_none_or(|b| b >= here) {
                    let ok = d.checked_mul(8).is_some_and(|b| b - m.base * 8 <= m.limit());
                    if d.checked_mul(8).is_none() && m.pos.mode != Mode::Bytes {
                        continue; // not representable as a bit offset
                    }
                    match p.advance_or_seek(*d) {
                        Ok(true) if ok => {
                            m.stack.push(Ctx::Peek(m.pos));
                            m.pos.bit = d * 8 - m.base * 8;
                        }
                        Err(_) if !ok => {
                            how = "fails";
                            r.count("fault:overrun");
                            m.failed = true;
                        }
                        other => bad = Some(format!("seek to {d} gave {other:?}")),
                    }
                } else {
                    if m.pos.mode != Mode::Bytes {
                        continue;
                    }
                    how = "back";
                    match p.advance_or_seek(*d) {
                        Ok(false) => {
                            m.stack.push(Ctx::Seek(m.pos));
                            m.pos.bit = (d - m.base) * 8;
                        }
                        other => bad = Some(format!("seek back to {d} gave {other:?}")),
                    }
                }
            }
            Op::View(n) => {
                if m.pos.mode != Mode::Bytes || depth > 6 {
                    continue;
                }
                let at = m.pos.bit / 8;
                let end = m.limit() / 8;
                let ok = *n <= end - at;
                match (ok, p.view().offset(*n)) {
                    (true, Ok(v)) => {
                        let inner = Model::new(end - at - n, m.base + at + n);
                        ps.push((Parser::from(v), inner));
                    }
                    (false, Err(_)) => {
                        how = "fails";
                        r.count("fault:overrun");
                    }
                    (true, Err(e)) => bad = Some(format!("failed with {e:?}")),
                    (false, Ok(_)) => bad = Some("view past the end of the slice or buffer".into()),
                }
            }
            Op::CloseView => {
                if depth == 1 {
                    continue;
                }
                ps.pop();
            }
        }
        r.vtime += 1;
        r.count(format!("op:{} {how}", name(op)));
        if let Some(b) = bad {
            r.fail(format!("{} breaks the cursor contract", name(op)), format!("operation {i}: {op:?} {b}"));
            return;
        }
        let m = &ps.last().unwrap().1;
        r.state(&format!("{} {how} {:?} {} {depth}", name(op), m.pos.mode != Mode::Bytes, m.shape()));
        if !m.failed {
            compare(data, &ps, name(op), i, r);
        }
        let m = &ps.last().unwrap().1;
        r.observe(&format!("{op:?} {how} {:?} {}", m.pos, m.shape()));
    }
}

/// Everything observable about every open parser.
fn compare(data: &[u8], ps: &[(Parser<'_>, Model)], op: &str, i: usize, r: &mut Report) {
    for (p, m) in ps {
        if m.failed {
            continue;
        }
        let mut bad = vec![];
        let off = p.get_current_offset();
        let want = match m.pos.mode {
            Mode::Bytes => (m.pos.bit / 8, None),
            Mode::Bits(_) => (m.pos.bit / 8, Some(m.pos.bit % 8)),
        };
        if off.as_bytes() != want {
            bad.push(format!("offset {:?}, expected {want:?}", off.as_bytes()));
        }
        match (off, m.pos.mode) {
            (ByteOffset::Bytes(_), Mode::Bytes) => {
                let abs = m.base + m.pos.bit / 8;
                if p.get_offset_u64() != abs as u64 {
                    bad.push(format!("absolute position {}, expected {abs}", p.get_offset_u64()));
                }
                let rest = &data[abs..m.base + m.limit() / 8];
                match p.view().read_len(rest.len()) {
                    Ok(b) if b == rest => {}
                    _ => bad.push("a view does not show the rest of the slice or buffer".into()),
                }
                if p.view().read_len(rest.len() + 1).is_ok() {
                    bad.push("a view reads past the slice or buffer".into());
                }
            }
            (ByteOffset::Bits { .. }, Mode::Bits(s)) => {
                if p.get_bits_read() != Some(m.pos.bit - s * 8) {
                    bad.push(format!("bits read {:?}, expected {}", p.get_bits_read(), m.pos.bit - s * 8));
                }
            }
            _ => bad.push("wrong modality".into()),
        }
        if m.pos.mode == Mode::Bytes && p.get_bits_read().is_some() {
            bad.push("bits read in byte mode".into());
        }
        let rem = p.remaining();
        if rem != m.remaining() {
            bad.push(format!("remaining {rem}, expected {}", m.remaining()));
        }
        if p.finish().is_ok() != (m.remaining() == 0) {
            bad.push("end-of-input test disagrees".into());
        }
        if !bad.is_empty() {
            r.fail(format!("cursor state wrong after {op}"), format!("operation {i}: {}", bad.join("; ")));
            return;
        }
    }
}
