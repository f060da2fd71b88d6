//! S13: the bounded readers (interpreter ReadCtxt, parser View, smallsorts scopes, contexts and arrays) against a
//! model that is a window of the buffer, over histories of reads, splits, sub-scopes and out-of-range requests.
//! The buffer sits between inaccessible pages, so a read outside it ends the simulated process.

use crate::engine::caught;
use crate::guard::Guarded;
use crate::rng::Rng;
use crate::runner::*;
use doodle::prelude::View;
use doodle::read::ReadCtxt as IntCtxt;
use serde::{Deserialize, Serialize};
use serde_json::{Value as Json, json};
use smallsorts::binary::read::{CheckIndex, ReadArray, ReadArrayCow, ReadBuf, ReadCtxt, ReadScope, ReadScopeOwned, ReadUnchecked};
use smallsorts::binary::*;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "op")]
pub enum Op {
    /// read one element of kind `k`
    Item { k: u8 },
    /// take an array of `n` elements of kind `k`; `stride`: 0 packed, 255 as many as fit, else that stride
    Array { k: u8, n: usize, stride: usize },
    Slice { n: usize },
    Nibble { n: u8 },
    /// continue in the next `n` bytes
    Scope { n: usize },
    /// continue at an offset of the current scope
    Offset { n: usize },
    OffsetLength { n: usize, len: usize },
    Rest,
    Pop,
    /// interpreter context: absolute seek
    Seek { n: usize },
}

const KINDS: u8 = 11;
const SIZES: [usize; 11] = [1, 1, 2, 2, 3, 4, 4, 8, 8, 3, 8];

fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}
fn want(k: u8, b: &[u8]) -> String {
    let u = be(&b[..SIZES[k as usize].min(8)]);
    match k {
        0 | 2 | 4 | 5 | 7 => format!("{u}"),
        1 => format!("{}", u as u8 as i8),
        3 => format!("{}", u as u16 as i16),
        6 => format!("{}", u as u32 as i32),
        8 => format!("{}", u as i64),
        9 => format!("({}, {})", b[0], be(&b[1..3])),
        _ => format!("({}, {}, {}, {})", b[0], be(&b[1..3]), be(&b[3..6]), be(&b[6..8])),
    }
}

macro_rules! with_kind {
    ($k:expr, $t:ident => $e:expr) => {
        match $k {
            0 => { type $t = U8; $e }
            1 => { type $t = I8; $e }
            2 => { type $t = U16Be; $e }
            3 => { type $t = I16Be; $e }
            4 => { type $t = U24Be; $e }
            5 => { type $t = U32Be; $e }
            6 => { type $t = I32Be; $e }
            7 => { type $t = U64Be; $e }
            8 => { type $t = I64Be; $e }
            9 => { type $t = (U8, U16Be); $e }
            _ => { type $t = (U8, U16Be, U24Be, U16Be); $e }
        }
    };
}

pub struct Readers {
    pub seed: u64,
}

#[derive(Clone, Copy)]
struct Win {
    lo: usize,
    hi: usize,
    at: usize,
}
impl Win {
    fn left(&self) -> usize {
        self.hi - self.at
    }
}

fn check_array<'a, T>(a: ReadArray<'a, T>, k: u8, data: &[u8], lo: usize, n: usize, stride: usize) -> Option<String>
where
    T: ReadUnchecked + Copy,
    T::HostType: std::fmt::Debug + Copy + Ord,
{
    let exp: Vec<String> = (0..n).map(|i| want(k, &data[lo + i * stride..])).collect();
    let show = |x: T::HostType| format!("{x:?}");
    if a.len() != n || a.is_empty() != (n == 0) {
        return Some(format!("length {} instead of {n}", a.len()));
    }
    for i in [0, 1, n / 2, n.wrapping_sub(1), n, n + 1, usize::MAX] {
        let g = a.get_item(i).map(show);
        let r = a.read_item(i).ok().map(show);
        let c = ReadArrayCow::Borrowed(a);
        let e = exp.get(i).cloned();
        if g != e || r != e || c.get_item(i).map(show) != e || a.check_index(i).is_ok() != e.is_some() {
            return Some(format!("element {i}: get_item {g:?}, read_item {r:?}, expected {e:?}"));
        }
    }
    if a.last().map(show) != exp.last().cloned() {
        return Some("last element".into());
    }
    let mut it = a.iter();
    for (i, e) in exp.iter().enumerate() {
        if it.size_hint() != (n - i, Some(n - i)) {
            return Some(format!("size hint {:?} with {} left", it.size_hint(), n - i));
        }
        match it.next().map(show) {
            Some(x) if x == *e => {}
            other => return Some(format!("iterator gave {other:?} for element {i}, expected {e}")),
        }
    }
    if it.next().is_some() || it.next().is_some() {
        return Some("iterator runs past the array".into());
    }
    let v: Vec<String> = a.to_vec().into_iter().map(show).collect();
    let w: Vec<String> = match a.read_to_vec() {
        Ok(w) => w.into_iter().map(show).collect(),
        Err(e) => return Some(format!("read_to_vec {e:?}")),
    };
    let c: Vec<String> = ReadArrayCow::Borrowed(a).iter().map(show).collect();
    let d = format!("{a:?}");
    if v != exp || w != exp || c != exp || d != format!("[{}]", exp.join(", ")) {
        return Some("to_vec, read_to_vec, cow iteration or debug text disagree".into());
    }
    if a.binary_search_by(|_| std::cmp::Ordering::Less) != Err(n) || a.binary_search_by(|_| std::cmp::Ordering::Greater) != Err(0) {
        return Some("binary search beyond the ends".into());
    }
    let vals = a.to_vec();
    if vals.windows(2).all(|w| w[0] <= w[1]) {
        for t in &vals {
            match a.binary_search_by(|x| x.cmp(t)) {
                Ok(i) if vals.get(i) == Some(t) => {}
                other => return Some(format!("binary search for a present element gave {other:?}")),
            }
            let lower = a.binary_search_by(|x| x.cmp(t).then(std::cmp::Ordering::Greater));
            if lower != Err(vals.partition_point(|x| x < t)) {
                return Some(format!("binary search for the first of equal elements gave {lower:?}"));
            }
        }
    }
    None
}

impl Sim for Readers {
    fn property(&self) -> &str {
        "S13"
    }
    fn plan(&mut self, ix: u64) -> Json {
        let mut rng = Rng::stream(self.seed, "readers", ix);
        let n = if rng.chance(1, 2) { rng.range(0, 20) } else { rng.range(10, 120) };
        let buf: Vec<u8> = (0..n).map(|_| if rng.chance(1, 4) { 0xff } else { rng.byte() }).collect();
        let mut buf = buf;
        if rng.chance(1, 3) {
            buf.sort();
        }
        let cut = if rng.chance(1, 3) { Some(rng.below(n + 1)) } else { None };
        let big = |rng: &mut Rng| *rng.pick(&[usize::MAX, usize::MAX / 2 + 1, usize::MAX / 4 + 1, usize::MAX / 8 + 1, 1 << 62, u32::MAX as usize]);
        let len = |rng: &mut Rng, lim: usize| match rng.below(16) {
            0 => big(rng),
            1 | 2 => lim,
            3 => lim + 1,
            _ => rng.below(8),
        };
        let k = rng.range(3, 40);
        let mut ops = vec![];
        for _ in 0..k {
            let kind = rng.below(KINDS as usize) as u8;
            ops.push(match rng.below(16) {
                0..=4 => Op::Item { k: kind },
                5..=7 => Op::Array {
                    k: kind,
                    n: len(&mut rng, n / SIZES[kind as usize]),
                    stride: *rng.pick(&[0, 0, 0, 255, 1, 2, 3, 4, 5, 8, 9]),
                },
                8 => Op::Slice { n: len(&mut rng, n) },
                9 => Op::Nibble { n: rng.below(16) as u8 },
                10 | 11 => Op::Scope { n: len(&mut rng, n) },
                12 => Op::Offset { n: rng.below(n + 4) },
                13 => Op::OffsetLength { n: rng.below(n + 4), len: len(&mut rng, n) },
                14 => {
                    if rng.chance(1, 2) {
                        Op::Rest
                    } else {
                        Op::Seek { n: len(&mut rng, n) }
                    }
                }
                _ => Op::Pop,
            });
        }
        json!({"buf": buf, "cut": cut, "reader": rng.pick(&["scope", "interp", "view"]), "front": rng.chance(1, 3), "ops": ops})
    }
    fn exec(&mut self, sc: &Json) -> Report {
        let mut r = Report::default();
        let mut buf: Vec<u8> = serde_json::from_value(sc["buf"].clone()).unwrap_or_default();
        if let Some(c) = sc["cut"].as_u64() {
            buf.truncate(c as usize);
            r.count("fault:truncated-buffer");
        }
        let ops: Vec<Op> = serde_json::from_value(sc["ops"].clone()).unwrap_or_default();
        let g = Guarded::new(&buf, sc["front"] == true);
        let which = sc["reader"].as_str().unwrap_or("").to_string();
        let out = caught(|| match which.as_str() {
            "scope" => scope_history(g.bytes(), &ops, &mut r),
            "interp" => interp_history(g.bytes(), &ops, &mut r),
            _ => view_history(g.bytes(), &ops, &mut r),
        });
        if let Err(m) = out {
            r.fail(format!("{which} reader unwound"), m);
        }
        r
    }
    fn shrink(&mut self, sc: &Json) -> Vec<Json> {
        let mut out = vec![];
        let ops: Vec<Op> = serde_json::from_value(sc["ops"].clone()).unwrap_or_default();
        for (a, b) in [(0, ops.len() / 2), (ops.len() / 2, ops.len())] {
            if ops.len() > 1 {
                let mut o = ops.clone();
                o.drain(a..b);
                let mut s = sc.clone();
                s["ops"] = json!(o);
                out.push(s);
            }
        }
        for i in 0..ops.len() {
            let mut o = ops.clone();
            o.remove(i);
            let mut s = sc.clone();
            s["ops"] = json!(o);
            out.push(s);
        }
        let buf: Vec<u8> = serde_json::from_value(sc["buf"].clone()).unwrap_or_default();
        for k in [buf.len() / 2, buf.len().saturating_sub(1)] {
            if k < buf.len() {
                let mut s = sc.clone();
                s["buf"] = json!(buf[..k]);
                out.push(s);
            }
        }
        out
    }
    fn death(&mut self, sc: &Json, how: &Death) -> Option<Viol> {
        Some(Viol { class: format!("{} reader: {}", sc["reader"].as_str().unwrap_or(""), how.text()), detail: "simulated process ended".into() })
    }
    fn rule(&self) -> String {
        "A run draws a buffer (possibly cut short, always between inaccessible pages), one of the three reader families and a \
         history of 3-40 operations; every value, extent, refusal and cursor position is compared with a window model. \
         Distinct = distinct (reader, operation, outcome, bytes left, nesting)."
            .into()
    }
    fn real_and_stub(&self) -> Json {
        json!({"real": ["doodle::read::ReadCtxt", "doodle::parser::View", "smallsorts::binary::read"], "stub": ["input buffer (guard pages on both sides)", "callers (random driver)"]})
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["offsets passed to ReadScope::offset stay below 2^40 (its base counter is informational and unchecked)".into()]
    }
    fn probes(&self) -> Vec<&'static str> {
        vec!["fault:truncated-buffer", "fault:out-of-range", "scope:Array ok", "view:Array ok", "interp:Item ok"]
    }
}

fn opname(o: &Op) -> &'static str {
    match o {
        Op::Item { .. } => "Item",
        Op::Array { .. } => "Array",
        Op::Slice { .. } => "Slice",
        Op::Nibble { .. } => "Nibble",
        Op::Scope { .. } => "Scope",
        Op::Offset { .. } => "Offset",
        Op::OffsetLength { .. } => "OffsetLength",
        Op::Rest => "Rest",
        Op::Pop => "Pop",
        Op::Seek { .. } => "Seek",
    }
}

struct Step<'r> {
    r: &'r mut Report,
    fam: &'static str,
    i: usize,
    name: &'static str,
    bad: Option<String>,
    ok: bool,
}
impl Step<'_> {
    fn same<T: PartialEq + std::fmt::Debug>(&mut self, got: Option<T>, exp: Option<T>) {
        self.ok = exp.is_some();
        if got != exp {
            self.bad = Some(format!("gave {got:?}, expected {exp:?}"));
        }
    }
    fn done(self, left: usize, depth: usize) -> bool {
        let how = if self.ok { "ok" } else { "refused" };
        self.r.vtime += 1;
        if !self.ok {
            self.r.count("fault:out-of-range");
        }
        self.r.count(format!("{}:{} {how}", self.fam, self.name));
        self.r.state(&format!("{} {} {how} {left} {depth}", self.fam, self.name));
        self.r.observe(&format!("{} {} {how} {left} {depth}", self.fam, self.name));
        if let Some(b) = self.bad {
            self.r.fail(format!("{} reader: {} breaks its contract", self.fam, self.name), format!("operation {}: {b}", self.i));
            return false;
        }
        true
    }
}

fn scope_history(data: &[u8], ops: &[Op], r: &mut Report) {
    let whole = ReadScope::new(data);
    if ReadScopeOwned::new(whole).scope().data() != data || ReadBuf::from(data).scope().data() != data {
        r.fail("scope reader: owned copies differ", "");
    }
    let mut st: Vec<(ReadScope<'_>, ReadCtxt<'_>, Win)> = vec![(whole, whole.ctxt(), Win { lo: 0, hi: data.len(), at: 0 })];
    for (i, op) in ops.iter().enumerate() {
        let depth = st.len();
        let (scope, ctxt, w) = st.last_mut().unwrap();
        let scope = *scope;
        let mut s = Step { r, fam: "scope", i, name: opname(op), bad: None, ok: true };
        let mut push: Option<(ReadScope<'_>, Win)> = None;
        let here = &data[w.at..w.hi];
        match op {
            Op::Item { k } => {
                let sz = SIZES[*k as usize];
                let exp = (sz <= here.len()).then(|| want(*k, here));
                // the dedicated method where there is one, the generic one otherwise
                let got = match k {
                    0 if i % 2 == 0 => ctxt.read_u8().ok().map(|x| x.to_string()),
                    1 if i % 2 == 0 => ctxt.read_i8().ok().map(|x| x.to_string()),
                    2 if i % 2 == 0 => ctxt.read_u16be().ok().map(|x| x.to_string()),
                    3 if i % 2 == 0 => ctxt.read_i16be().ok().map(|x| x.to_string()),
                    5 if i % 2 == 0 => ctxt.read_u32be().ok().map(|x| x.to_string()),
                    6 if i % 2 == 0 => ctxt.read_i32be().ok().map(|x| x.to_string()),
                    7 if i % 2 == 0 => ctxt.read_u64be().ok().map(|x| x.to_string()),
                    8 if i % 2 == 0 => ctxt.read_i64be().ok().map(|x| x.to_string()),
                    k => with_kind!(k, T => ctxt.read::<T>().ok().map(|x| format!("{x:?}"))),
                };
                if exp.is_some() {
                    w.at += sz;
                }
                s.same(got, exp);
            }
            Op::Array { k, n, stride } => {
                let sz = SIZES[*k as usize];
                let mut n = *n;
                let mut st = sz;
                let res: Option<Option<String>> = with_kind!(k, T => {
                    let a = match stride {
                        0 => ctxt.read_array::<T>(n),
                        255 => {
                            n = n.min(here.len() / sz);
                            ctxt.read_array_upto_hack::<T>(n)
                        }
                        x => {
                            st = *x;
                            ctxt.read_array_stride::<T>(n, st)
                        }
                    };
                    a.ok().map(|a| if st >= sz && n <= here.len() / st { check_array(a, *k, data, w.at, n, st) } else { None })
                });
                let exp = st >= sz && n.checked_mul(st).is_some_and(|t| t <= here.len());
                s.ok = exp;
                match res {
                    Some(Some(b)) => s.bad = Some(b),
                    Some(None) if !exp => s.bad = Some(format!("array of {n} at stride {st} granted with {} bytes left", here.len())),
                    None if exp => s.bad = Some(format!("array of {n} at stride {st} refused with {} bytes left", here.len())),
                    _ => {}
                }
                if exp {
                    w.at += n * st;
                }
            }
            Op::Slice { n } => {
                let exp = here.get(..*n);
                let got = ctxt.read_slice(*n).ok();
                s.same(got, exp);
                if exp.is_some() {
                    w.at += n;
                }
            }
            Op::Nibble { n } => {
                let exp = here.iter().position(|b| b >> 4 == *n || b & 15 == *n).map(|e| &here[..e + 1]);
                let got = ctxt.read_until_nibble(*n).ok();
                s.same(got, exp);
                w.at += exp.map_or(0, |e| e.len());
            }
            Op::Scope { n } => {
                let exp = here.get(..*n);
                let got = ctxt.read_scope(*n).ok();
                s.same(got.map(|g| g.data()), exp);
                if let Some(g) = got {
                    push = Some((g, Win { lo: w.at, hi: w.at + exp.map_or(0, |e| e.len()), at: w.at }));
                }
                w.at += exp.map_or(0, |e| e.len());
            }
            Op::Offset { n } => {
                let all = &data[w.lo..w.hi];
                let g = scope.offset(*n);
                let exp = all.get(*n..).unwrap_or(&[]);
                s.same(Some(g.data()), Some(exp));
                push = Some((g, Win { lo: w.hi - exp.len(), hi: w.hi, at: w.hi - exp.len() }));
            }
            Op::OffsetLength { n, len } => {
                let all = &data[w.lo..w.hi];
                let exp: Option<&[u8]> = if *len == 0 { Some(&[]) } else { all.get(*n..).and_then(|x| x.get(..*len)) };
                let g = scope.offset_length(*n, *len).ok();
                s.same(g.map(|g| g.data()), exp);
                if let (Some(g), Some(e)) = (g, exp) {
                    let lo = if e.is_empty() { w.lo } else { w.lo + n };
                    push = Some((g, Win { lo, hi: lo + e.len(), at: lo }));
                }
            }
            Op::Rest | Op::Seek { .. } => {
                let g = ctxt.scope();
                s.same(Some(g.data()), Some(here));
                push = Some((g, Win { lo: w.at, hi: w.hi, at: w.at }));
            }
            Op::Pop => {
                if depth > 1 {
                    st.pop();
                }
            }
        }
        if let Some((g, w)) = push {
            if st.len() < 8 {
                st.push((g, g.ctxt(), w));
            }
        }
        let (_, c, w) = st.last().unwrap();
        if c.bytes_available() != (w.left() > 0) || c.scope().data() != &data[w.at..w.hi] {
            s.bad.get_or_insert(format!("cursor not where it should be ({} bytes left)", w.left()));
        }
        let left = w.left();
        if !s.done(left, depth) {
            return;
        }
    }
}

fn interp_history(data: &[u8], ops: &[Op], r: &mut Report) {
    let mut st: Vec<(IntCtxt<'_>, Win)> = vec![(IntCtxt::new(data), Win { lo: 0, hi: data.len(), at: 0 })];
    for (i, op) in ops.iter().enumerate() {
        let depth = st.len();
        let (c, w) = st.last_mut().unwrap();
        let mut s = Step { r, fam: "interp", i, name: opname(op), bad: None, ok: true };
        let here = &data[w.at..w.hi];
        match op {
            Op::Item { k } | Op::Array { k, .. } => {
                let sz = [1, 2, 4, 8][*k as usize % 4];
                let got = match sz {
                    1 => c.read_byte().map(|(v, n)| (v as u64, n)),
                    2 => c.read_u16be().map(|(v, n)| (v as u64, n)),
                    4 => c.read_u32be().map(|(v, n)| (v as u64, n)),
                    _ => c.read_u64be(),
                };
                s.same(got.as_ref().map(|g| g.0), here.get(..sz).map(be));
                if let Some((_, n)) = got {
                    *c = n;
                    w.at += sz;
                }
            }
            Op::Slice { n } | Op::Scope { n } | Op::OffsetLength { len: n, .. } => {
                let got = c.split_at(*n);
                let exp = here.get(..*n).map(|a| (a, &here[*n..]));
                s.same(got.as_ref().map(|(a, b)| (a.remaining(), b.remaining())), exp);
                if let Some((a, b)) = got {
                    let at = w.at;
                    *c = b;
                    w.at += n.min(&here.len());
                    let inner = Win { lo: w.lo, hi: w.at, at };
                    if depth < 8 {
                        st.push((a, inner));
                    }
                }
            }
            Op::Seek { n } | Op::Offset { n } => {
                let got = c.seek_to(*n);
                let exp = (*n <= w.hi).then(|| &data[*n..w.hi]);
                s.same(got.as_ref().map(|g| g.remaining()), exp);
                if let Some(g) = got {
                    *c = g;
                    w.at = *n;
                }
            }
            _ => {
                if depth > 1 {
                    st.pop();
                }
            }
        }
        let (c, w) = st.last().unwrap();
        if c.remaining() != &data[w.at..w.hi] || c.offset != w.at {
            s.bad.get_or_insert("cursor not where it should be".into());
        }
        let left = w.left();
        if !s.done(left, depth) {
            return;
        }
    }
}

fn view_history(data: &[u8], ops: &[Op], r: &mut Report) {
    let mut st: Vec<(View<'_>, usize)> = vec![(View::new(data), 0)];
    for (i, op) in ops.iter().enumerate() {
        let depth = st.len();
        let (v, at) = *st.last().unwrap();
        let mut s = Step { r, fam: "view", i, name: opname(op), bad: None, ok: true };
        let here = &data[at..];
        match op {
            Op::Item { .. } => s.same(v.read_u16be().ok().map(|x| x as u64), here.get(..2).map(be)),
            Op::Array { k, n, .. } => {
                let k = [0u8, 2, 5, 7, 4, 9][*k as usize % 6];
                let sz = SIZES[k as usize];
                let exp = n.checked_mul(sz).is_some_and(|t| t <= here.len());
                s.ok = exp;
                macro_rules! arr {
                    ($a:expr) => {
                        match ($a.ok(), exp) {
                            (Some(a), true) => s.bad = check_array(a, k, data, at, *n, sz),
                            (Some(_), false) => s.bad = Some("granted past the end".into()),
                            (None, true) => s.bad = Some("refused within the buffer".into()),
                            _ => {}
                        }
                    };
                }
                match k {
                    0 => arr!(v.read_array_u8(*n)),
                    2 => arr!(v.read_array_u16be(*n)),
                    5 => arr!(v.read_array_u32be(*n)),
                    7 => arr!(v.read_array_u64be(*n)),
                    4 => arr!(v.as_read_array::<U24Be>(*n)),
                    _ => arr!(v.as_read_array::<(U8, U16Be)>(*n)),
                }
            }
            Op::Slice { n } | Op::Scope { n } => s.same(v.read_len(*n).ok(), here.get(..*n)),
            Op::Offset { n } | Op::Seek { n } | Op::OffsetLength { n, .. } => {
                let got = v.offset(*n).ok();
                let exp = here.get(*n..);
                s.same(got.and_then(|g| g.read_len(here.len().saturating_sub(*n)).ok()), exp);
                if let Some(g) = got {
                    if depth < 8 && exp.is_some() {
                        st.push((g, at + n));
                    }
                }
            }
            _ => {
                if depth > 1 {
                    st.pop();
                }
            }
        }
        let (v, at) = *st.last().unwrap();
        let left = data.len() - at;
        if v.read_len(left).ok() != Some(&data[at..]) || v.read_len(left + 1).is_ok() {
            s.bad.get_or_insert("view window moved".into());
        }
        if !s.done(left, depth) {
            return;
        }
    }
}
