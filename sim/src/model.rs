//! The reference decoder: a small list-of-successes reading of `Format`, written from the format language's
//! documentation, sharing no code with the format compiler, the lookahead trees, the interpreters or the code generator.
//!
//! A run of the model yields either *no verdict* (the format computes something the language leaves undefined, or the
//! search budget ran out) or a set of successes and a flag `soft`. When `soft` is clear there is at most one success and
//! every decoder must produce exactly it; when it is set (bounded lookahead had to guess between viable
//! alternatives) a decoder may reject, but what it accepts must be in the set.

use crate::rng::Rng;
use doodle::numeric::core as num;
use doodle::{Arith, BaseKind, DynFormat, Endian, Expr, Format, FormatModule, IntRel, Pattern, UnaryOp, ViewExpr, ViewFormat};
use std::collections::HashMap;
use std::rc::Rc;

pub type L = std::borrow::Cow<'static, str>;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Bool(bool),
    /// value, width in bits (0: unknown)
    Int(u64, u32),
    /// value, representation
    Num(i128, Option<(u32, bool)>),
    Char(char),
    Opt(Option<Rc<V>>),
    Tuple(Rc<Vec<V>>),
    Rec(Rc<Vec<(L, V)>>),
    Var(L, Rc<V>),
    Seq(Rc<Vec<V>>),
    View(usize),
    Phantom,
    /// read from these bytes: offset and length (only when locations are asked for)
    At(Rc<V>, usize, usize),
}

/// The value itself.
fn bare(v: &V) -> &V {
    match v {
        V::At(v, _, _) => bare(v),
        v => v,
    }
}
/// Where the value as a whole was read from.
fn place(v: &V) -> Option<(usize, usize)> {
    match v {
        V::At(_, o, n) => Some((*o, *n)),
        V::Var(_, v) | V::Opt(Some(v)) => place(v),
        _ => None,
    }
}
/// The value without any location in it.
fn forget(v: &V) -> V {
    let all = |vs: &Rc<Vec<V>>| Rc::new(vs.iter().map(forget).collect::<Vec<_>>());
    match v {
        V::At(v, _, _) => forget(v),
        V::Opt(Some(v)) => V::Opt(Some(Rc::new(forget(v)))),
        V::Tuple(vs) => V::Tuple(all(vs)),
        V::Seq(vs) => V::Seq(all(vs)),
        V::Rec(fs) => V::Rec(Rc::new(fs.iter().map(|(l, v)| (l.clone(), forget(v))).collect())),
        V::Var(l, v) => V::Var(l.clone(), Rc::new(forget(v))),
        v => v.clone(),
    }
}
fn put(v: V, o: usize, n: usize) -> V {
    match v {
        V::Var(l, v) => V::Var(l, Rc::new(put((*v).clone(), o, n))),
        V::Opt(Some(v)) => V::Opt(Some(Rc::new(put((*v).clone(), o, n)))),
        V::Opt(None) => V::Opt(None),
        V::At(v, _, _) => V::At(v, o, n),
        v => V::At(Rc::new(v), o, n),
    }
}

/// No verdict: the reason.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Undef(pub &'static str);
type R<T> = Result<T, Undef>;

fn undef<T>(why: &'static str) -> R<T> {
    Err(Undef(why))
}

#[derive(Clone)]
pub struct Input {
    buf: Rc<Vec<u8>>,
    pub off: usize,
    end: usize,
}

impl Input {
    pub fn new(b: &[u8]) -> Input {
        Input { buf: Rc::new(b.to_vec()), off: 0, end: b.len() }
    }
    fn peek(&self) -> Option<u8> {
        (self.off < self.end).then(|| self.buf[self.off])
    }
    fn skip(&self, n: usize) -> Option<Input> {
        (n <= self.end - self.off).then(|| Input { off: self.off + n, ..self.clone() })
    }
    fn left(&self) -> usize {
        self.end - self.off
    }
}

enum Entry {
    Val(V),
    View(Input),
    /// canonical prefix code: (length, code, symbol); `None`: no such code exists
    Code(Option<Vec<(usize, u64, u64)>>),
}

enum Scope {
    Nil,
    Cons(L, Entry, Env),
}
type Env = Rc<Scope>;

fn bind(env: &Env, n: &L, e: Entry) -> Env {
    Rc::new(Scope::Cons(n.clone(), e, env.clone()))
}
fn get_val(env: &Env, n: &str) -> R<V> {
    let mut e = env;
    while let Scope::Cons(k, v, up) = &**e {
        if let (true, Entry::Val(v)) = (k == n, v) {
            return Ok(v.clone());
        }
        e = up;
    }
    undef("unbound variable")
}
fn get_view(env: &Env, n: &str) -> R<Input> {
    let mut e = env;
    while let Scope::Cons(k, v, up) = &**e {
        if let (true, Entry::View(v)) = (k == n, v) {
            return Ok(v.clone());
        }
        e = up;
    }
    undef("unbound view")
}

#[derive(Clone, Copy, PartialEq, Debug)]
struct Set([u64; 4]);
impl Set {
    const NONE: Set = Set([0; 4]);
    const FULL: Set = Set([!0; 4]);
    fn has(&self, b: u8) -> bool {
        self.0[b as usize / 64] >> (b % 64) & 1 == 1
    }
    fn or(self, o: Set) -> Set {
        Set([self.0[0] | o.0[0], self.0[1] | o.0[1], self.0[2] | o.0[2], self.0[3] | o.0[3]])
    }
}

/// Over-approximation of what a format can start with.
#[derive(Clone, Copy, Debug)]
struct First {
    set: Set,
    null: bool,
}
const ANY: First = First { set: Set::FULL, null: true };
const NULL: First = First { set: Set::NONE, null: true };

/// What the bounded lookahead may see after the current format. `open`: it may also know nothing about it.
#[derive(Clone, Copy, Debug)]
struct Follow {
    set: Set,
    open: bool,
}
const OPEN: Follow = Follow { set: Set::NONE, open: true };

impl Follow {
    fn after(self, f: First) -> Follow {
        if f.null { Follow { set: f.set.or(self.set), open: self.open } } else { Follow { set: f.set, open: false } }
    }
}

pub struct Model<'m> {
    m: &'m FormatModule,
    args: Vec<Vec<L>>,
    views: Vec<Vec<L>>,
    firsts: HashMap<usize, First>,
    steps: u64,
    soft: bool,
    pub why_soft: &'static str,
    pub track: bool,
}

const MAX_STEPS: u64 = 60_000;
const MAX_SET: usize = 48;
const MAX_SEQ: usize = 20_000;

type Out = Vec<(V, Input)>;

pub struct Verdict {
    pub successes: Vec<(String, usize)>,
    /// the values of `successes`
    pub values: Vec<V>,
    pub soft: bool,
    pub why_soft: &'static str,
    pub steps: u64,
}

/// Names of the value and view parameters of each format of a module.
pub fn params(m: &FormatModule) -> (Vec<Vec<L>>, Vec<Vec<L>>) {
    let j = serde_json::to_value(m).expect("modules serialise");
    let name = |x: &serde_json::Value| L::Owned(x.as_str().expect("label").to_string());
    let args = j["args"].as_array().expect("args").iter().map(|a| a.as_array().expect("args").iter().map(|p| name(&p[0])).collect()).collect();
    let n = j["args"].as_array().map_or(0, |a| a.len());
    let mut views: Vec<Vec<L>> = vec![vec![]; n];
    match &j["views"] {
        serde_json::Value::Object(o) => {
            for (k, ls) in o {
                if let Some(slot) = k.parse::<usize>().ok().and_then(|k| views.get_mut(k)) {
                    *slot = ls.as_array().into_iter().flatten().map(name).collect();
                }
            }
        }
        serde_json::Value::Array(a) => {
            for (k, ls) in a.iter().enumerate().take(n) {
                views[k] = ls.as_array().into_iter().flatten().map(name).collect();
            }
        }
        _ => {}
    }
    (args, views)
}

impl<'m> Model<'m> {
    pub fn new(m: &'m FormatModule, p: &(Vec<Vec<L>>, Vec<Vec<L>>)) -> Model<'m> {
        Model { m, args: p.0.clone(), views: p.1.clone(), firsts: HashMap::new(), steps: 0, soft: false, why_soft: "", track: false }
    }

    pub fn run(&mut self, f: &Format, data: &[u8]) -> R<Verdict> {
        self.steps = 0;
        self.soft = false;
        self.why_soft = "";
        let out = self.p(f, &Rc::new(Scope::Nil), &Input::new(data), OPEN)?;
        let mut s: Vec<(String, usize)> = vec![];
        let mut values = vec![];
        let mut distinct = 0;
        for (v, i) in out {
            let mut t = String::new();
            show(&v, &mut t);
            // two readings of one value differ in where its parts lie, which matters when that is asked for
            let known = s.contains(&(t.clone(), i.off));
            if !known || self.track {
                distinct += !known as usize;
                s.push((t, i.off));
                values.push(v);
            }
        }
        if !self.soft && distinct > 1 {
            return undef("model: several successes without a choice");
        }
        Ok(Verdict { successes: s, values, soft: self.soft, why_soft: self.why_soft, steps: self.steps })
    }

    fn guess(&mut self, why: &'static str) {
        self.soft = true;
        self.why_soft = why;
    }

    fn first(&mut self, f: &Format) -> First {
        match f {
            Format::ItemVar(n, ..) => {
                if let Some(x) = self.firsts.get(n) {
                    return *x;
                }
                self.firsts.insert(*n, ANY);
                let m = self.m;
                let r = self.first(m.get_format(*n));
                self.firsts.insert(*n, r);
                r
            }
            Format::Fail => First { set: Set::NONE, null: false },
            Format::EndOfInput | Format::SkipRemainder | Format::Compute(_) | Format::Pos | Format::Phantom(_) | Format::WithView(..) | Format::LiftedOption(None) => {
                // SkipRemainder consumes anything
                if matches!(f, Format::SkipRemainder) { ANY } else { NULL }
            }
            Format::Byte(bs) => {
                let mut s = Set::NONE;
                for b in 0..=255u8 {
                    if bs.contains(b) {
                        s.0[b as usize / 64] |= 1 << (b % 64);
                    }
                }
                First { set: s, null: false }
            }
            Format::Variant(_, f) | Format::Map(f, _) | Format::Where(f, _) | Format::Let(_, _, f) | Format::Hint(_, f) | Format::LetView(_, f) | Format::Dynamic(_, _, f) | Format::LiftedOption(Some(f)) | Format::Repeat1(f) => self.first(f),
            Format::Union(fs) | Format::UnionNondet(fs) => {
                let mut r = First { set: Set::NONE, null: false };
                for f in fs {
                    let x = self.first(f);
                    r = First { set: r.set.or(x.set), null: r.null || x.null };
                }
                r
            }
            Format::Match(_, bs) => {
                let mut r = First { set: Set::NONE, null: false };
                for (_, f) in bs {
                    let x = self.first(f);
                    r = First { set: r.set.or(x.set), null: r.null || x.null };
                }
                r
            }
            Format::Tuple(fs) | Format::Sequence(fs) => {
                let mut r = NULL;
                for f in fs {
                    let x = self.first(f);
                    r = First { set: r.set.or(x.set), null: x.null };
                    if !x.null {
                        break;
                    }
                }
                r
            }
            Format::MonadSeq(a, b) | Format::LetFormat(a, _, b) => {
                let x = self.first(a);
                if !x.null {
                    return x;
                }
                let y = self.first(b);
                First { set: x.set.or(y.set), null: y.null }
            }
            Format::Repeat(f) | Format::RepeatCount(_, f) | Format::RepeatBetween(_, _, f) | Format::Maybe(_, f) | Format::ForEach(_, _, f) | Format::AccumUntil(_, _, _, _, f) => First { null: true, ..self.first(f) },
            Format::RepeatUntilLast(_, f) | Format::RepeatUntilSeq(_, f) => self.first(f),
            _ => ANY,
        }
    }

    /// Does decoding this consult lookahead that depends on what follows it?
    fn looks(&self, f: &Format) -> bool {
        match f {
            Format::ItemVar(n, ..) => self.looks(self.m.get_format(*n)),
            Format::Union(_) | Format::Repeat(_) | Format::Repeat1(_) | Format::RepeatBetween(..) => true,
            Format::UnionNondet(fs) | Format::Tuple(fs) | Format::Sequence(fs) => fs.iter().any(|f| self.looks(f)),
            Format::Match(_, bs) => bs.iter().any(|b| self.looks(&b.1)),
            Format::Variant(_, f)
            | Format::Map(f, _)
            | Format::Where(f, _)
            | Format::Let(_, _, f)
            | Format::Hint(_, f)
            | Format::LetView(_, f)
            | Format::Dynamic(_, _, f)
            | Format::LiftedOption(Some(f))
            | Format::RepeatCount(_, f)
            | Format::Maybe(_, f)
            | Format::ForEach(_, _, f)
            | Format::AccumUntil(_, _, _, _, f)
            | Format::RepeatUntilLast(_, f)
            | Format::RepeatUntilSeq(_, f)
            | Format::Permit(f, _) => self.looks(f),
            Format::MonadSeq(a, b) | Format::LetFormat(a, _, b) => self.looks(a) || self.looks(b),
            _ => false,
        }
    }

    /// Runs `f`, reporting separately whether it guessed.
    fn scoped(&mut self, f: &Format, env: &Env, i: &Input, fol: Follow) -> R<(Out, bool)> {
        let old = std::mem::replace(&mut self.soft, false);
        let r = self.p(f, env, i, fol);
        let here = self.soft;
        self.soft = old || here;
        Ok((r?, here))
    }

    fn p(&mut self, f: &Format, env: &Env, i: &Input, fol: Follow) -> R<Out> {
        let mut out = self.p0(f, env, i, fol)?;
        if self.track
            && matches!(
                f,
                Format::EndOfInput
                    | Format::Align(_)
                    | Format::Byte(_)
                    | Format::Tuple(_)
                    | Format::Sequence(_)
                    | Format::Repeat(_)
                    | Format::Repeat1(_)
                    | Format::RepeatBetween(..)
                    | Format::RepeatCount(..)
                    | Format::ForEach(..)
                    | Format::RepeatUntilLast(..)
                    | Format::RepeatUntilSeq(..)
                    | Format::AccumUntil(..)
                    | Format::PeekNot(_)
                    | Format::SkipRemainder
            )
        {
            for (v, j) in &mut out {
                *v = V::At(Rc::new(std::mem::replace(v, V::Phantom)), i.off, j.off - i.off);
            }
        }
        Ok(out)
    }

    fn p0(&mut self, f: &Format, env: &Env, i: &Input, fol: Follow) -> R<Out> {
        self.steps += 1;
        if self.steps > MAX_STEPS {
            return undef("model: step budget");
        }
        let one = |v: V, i: Input| Ok(vec![(v, i)]);
        match f {
            Format::ItemVar(n, es, vs) => {
                let mut new: Env = Rc::new(Scope::Nil);
                for (k, e) in self.args[*n].clone().iter().zip(es) {
                    new = bind(&new, k, Entry::Val(ev(e, env)?));
                }
                if !vs.is_empty() {
                    for (k, v) in self.views.get(*n).cloned().unwrap_or_default().iter().zip(vs) {
                        match self.view(v, env)? {
                            Some(w) => new = bind(&new, k, Entry::View(w)),
                            None => return Ok(vec![]),
                        }
                    }
                }
                let m = self.m;
                self.p(m.get_format(*n), &new, i, Follow { open: true, ..fol })
            }
            Format::Fail => Ok(vec![]),
            Format::EndOfInput => {
                if i.peek().is_none() {
                    one(unit(), i.clone())
                } else {
                    Ok(vec![])
                }
            }
            Format::Align(n) => match i.skip((n - i.off % n) % n) {
                Some(j) => one(unit(), j),
                None => Ok(vec![]),
            },
            Format::Byte(bs) => match i.peek() {
                Some(b) if bs.contains(b) => one(V::Int(b as u64, 8), i.skip(1).unwrap()),
                _ => Ok(vec![]),
            },
            Format::Variant(l, f) => Ok(self.p(f, env, i, fol)?.into_iter().map(|(v, i)| (V::Var(l.clone(), Rc::new(v)), i)).collect()),
            Format::Union(fs) => self.union(fs, env, i, fol),
            Format::UnionNondet(fs) => {
                let mut out: Out = vec![];
                for f in fs {
                    let (r, guessed) = self.scoped(f, env, i, fol)?;
                    if r.is_empty() {
                        continue;
                    }
                    out.extend(r);
                    // lookahead may refuse an alternative because of what follows it: later ones stay possible
                    if !guessed && !self.looks(f) {
                        break;
                    }
                }
                if out.len() > 1 {
                    self.guess("nondeterministic union");
                }
                self.cap(out)
            }
            Format::Tuple(fs) => {
                let r = self.row(fs, env, i, fol)?;
                Ok(r.into_iter().map(|(v, i)| (V::Tuple(Rc::new(v)), i)).collect())
            }
            Format::Sequence(fs) => {
                let r = self.row(fs, env, i, fol)?;
                Ok(r.into_iter().map(|(v, i)| (V::Seq(Rc::new(v)), i)).collect())
            }
            Format::Repeat(a) => self.many(a, 0, usize::MAX, env, i, fol),
            Format::Repeat1(a) => self.many(a, 1, usize::MAX, env, i, fol),
            Format::RepeatBetween(lo, hi, a) => {
                let (lo, hi) = (idx(&ev(lo, env)?)?, idx(&ev(hi, env)?)?);
                self.many(a, lo, hi, env, i, fol)
            }
            Format::RepeatCount(n, a) => {
                let n = idx(&ev(n, env)?)?;
                let fa = self.first(a);
                let inner = Follow { set: fa.set.or(fol.set), open: fol.open || fa.null };
                let mut cur: Vec<(Vec<V>, Input)> = vec![(vec![], i.clone())];
                for _ in 0..n {
                    let mut nx = vec![];
                    for (vs, i) in cur {
                        grow(vs, self.p(a, env, &i, inner)?, &mut nx);
                    }
                    cur = nx;
                    if cur.is_empty() {
                        break;
                    }
                    if cur.len() > MAX_SET || cur[0].0.len() > MAX_SEQ {
                        return undef("model: set budget");
                    }
                }
                Ok(seqs(cur))
            }
            Format::ForEach(e, l, a) => {
                let items = list(&ev(e, env)?)?;
                let fa = self.first(a);
                let inner = Follow { set: fa.set.or(fol.set), open: fol.open || fa.null };
                let mut cur: Vec<(Vec<V>, Input)> = vec![(vec![], i.clone())];
                for it in items.iter() {
                    let env = bind(env, l, Entry::Val(it.clone()));
                    let mut nx = vec![];
                    for (vs, i) in cur {
                        grow(vs, self.p(a, &env, &i, inner)?, &mut nx);
                    }
                    cur = nx;
                    if cur.len() > MAX_SET {
                        return undef("model: set budget");
                    }
                }
                Ok(seqs(cur))
            }
            Format::RepeatUntilLast(e, a) | Format::RepeatUntilSeq(e, a) => {
                let last = matches!(f, Format::RepeatUntilLast(..));
                let fa = self.first(a);
                let inner = Follow { set: fa.set.or(fol.set), open: fol.open || fa.null };
                let mut cur: Vec<(Vec<V>, Input)> = vec![(vec![], i.clone())];
                let mut out = vec![];
                while !cur.is_empty() {
                    let mut nx = vec![];
                    for (vs, i) in cur {
                        for (v, j) in self.p(a, env, &i, inner)? {
                            let mut w = vs.clone();
                            w.push(v.clone());
                            let arg = if last { v } else { V::Seq(Rc::new(w.clone())) };
                            if truth(&lam(e, &arg, env)?)? {
                                out.push((w, j));
                            } else {
                                nx.push((w, j));
                            }
                        }
                    }
                    cur = nx;
                    if cur.len() + out.len() > MAX_SET {
                        return undef("model: set budget");
                    }
                }
                Ok(seqs(out))
            }
            Format::AccumUntil(done, upd, init, _, a) => {
                let fa = self.first(a);
                let inner = Follow { set: fa.set.or(fol.set), open: fol.open || fa.null };
                let start = i.off;
                let mut cur: Vec<(V, Vec<V>, Input)> = vec![(ev(init, env)?, vec![], i.clone())];
                let mut out: Out = vec![];
                while !cur.is_empty() {
                    let mut nx = vec![];
                    for (acc, vs, i) in cur {
                        let pair = V::Tuple(Rc::new(vec![acc.clone(), V::Seq(Rc::new(vs.clone()))]));
                        if truth(&lam(done, &pair, env)?)? {
                            let pair = match self.track {
                                true => V::Tuple(Rc::new(vec![acc, V::At(Rc::new(V::Seq(Rc::new(vs))), start, i.off - start)])),
                                false => pair,
                            };
                            out.push((pair, i));
                            continue;
                        }
                        for (v, j) in self.p(a, env, &i, inner)? {
                            let acc2 = lam(upd, &V::Tuple(Rc::new(vec![acc.clone(), v.clone()])), env)?;
                            let mut w = vs.clone();
                            w.push(v);
                            nx.push((acc2, w, j));
                        }
                    }
                    cur = nx;
                    if cur.len() + out.len() > MAX_SET {
                        return undef("model: set budget");
                    }
                }
                Ok(out)
            }
            Format::Maybe(e, a) => {
                if truth(&ev(e, env)?)? {
                    Ok(self.p(a, env, i, fol)?.into_iter().map(|(v, i)| (V::Opt(Some(Rc::new(v))), i)).collect())
                } else {
                    one(V::Opt(None), i.clone())
                }
            }
            Format::LiftedOption(None) => one(V::Opt(None), i.clone()),
            Format::LiftedOption(Some(a)) => Ok(self.p(a, env, i, fol)?.into_iter().map(|(v, i)| (V::Opt(Some(Rc::new(v))), i)).collect()),
            Format::Peek(a) => Ok(self.p(a, env, i, OPEN)?.into_iter().map(|(v, _)| (v, i.clone())).collect()),
            Format::PeekNot(a) => {
                let (r, guessed) = self.scoped(a, env, i, OPEN)?;
                if r.is_empty() || guessed {
                    one(unit(), i.clone())
                } else {
                    Ok(vec![])
                }
            }
            Format::Slice(n, a) => {
                let n = idx(&ev(n, env)?)?;
                let Some(rest) = i.skip(n) else { return Ok(vec![]) };
                let inner = Input { end: i.off + n, ..i.clone() };
                Ok(self.p(a, env, &inner, OPEN)?.into_iter().map(|(v, _)| (v, rest.clone())).collect())
            }
            Format::Bits(a) => {
                let mut bits = vec![];
                for b in &i.buf[i.off..i.end] {
                    for k in 0..8 {
                        bits.push(b >> k & 1);
                    }
                }
                let n = bits.len();
                let r = self.p(a, env, &Input { buf: Rc::new(bits), off: 0, end: n }, OPEN)?;
                Ok(r.into_iter().map(|(v, j)| (v, i.skip(j.off.div_ceil(8)).unwrap())).collect())
            }
            Format::WithRelativeOffset(base, e, a) => {
                let Some(at) = idx(&ev(base, env)?)?.checked_add(idx(&ev(e, env)?)?) else { return undef("offset overflow") };
                if at > i.end {
                    return Ok(vec![]);
                }
                let r = self.p(a, env, &Input { off: at, ..i.clone() }, OPEN)?;
                Ok(r.into_iter().map(|(v, _)| (v, i.clone())).collect())
            }
            Format::Map(a, e) => {
                let mut out = vec![];
                for (v, j) in self.p(a, env, i, fol)? {
                    let w = lam(e, &v, env)?;
                    let w = match (self.track, place(&v)) {
                        (false, _) => w,
                        (true, Some((o, n))) => put(forget(&w), o, n),
                        (true, None) => forget(&w),
                    };
                    out.push((w, j));
                }
                Ok(out)
            }
            Format::Where(a, c) => {
                let mut out = vec![];
                for (v, j) in self.p(a, env, i, fol)? {
                    if truth(&lam(c.as_ref(), &v, env)?)? || !c.is_required() {
                        out.push((v, j));
                    }
                }
                Ok(out)
            }
            Format::Compute(e) => one(ev(e, env)?, i.clone()),
            Format::Let(l, e, a) => {
                let env = bind(env, l, Entry::Val(ev(e, env)?));
                self.p(a, &env, i, fol)
            }
            Format::Match(e, bs) => {
                let v = ev(e, env)?;
                for (pat, a) in bs {
                    if let Some(env) = pmatch(pat, &v, env)? {
                        return self.p(a, &env, i, fol);
                    }
                }
                Ok(vec![])
            }
            Format::Dynamic(l, DynFormat::Huffman(lens, vals), a) => {
                let lens = ints(&ev(lens, env)?)?;
                let lens = match vals {
                    None => lens,
                    Some(e) => {
                        let vals = ints(&ev(e, env)?)?;
                        let mut w = vec![0; vals.len()];
                        for (k, len) in lens.iter().enumerate() {
                            let Some(&at) = vals.get(k) else { return undef("Huffman symbol list too short") };
                            if at >= w.len() {
                                return undef("Huffman symbol out of range");
                            }
                            w[at] = *len;
                        }
                        w
                    }
                };
                if lens.is_empty() || lens.iter().any(|l| *l > 40) || lens.len() > 65535 {
                    return undef("Huffman lengths");
                }
                let env = bind(env, l, Entry::Code(prefix_code(&lens)));
                self.p(a, &env, i, fol)
            }
            Format::Apply(l) => {
                let mut e = env;
                while let Scope::Cons(k, v, up) = &**e {
                    if let (true, Entry::Code(c)) = (k == l, v) {
                        let Some(c) = c else { return Ok(vec![]) };
                        let (mut code, mut n) = (0u64, 0usize);
                        let mut j = i.clone();
                        loop {
                            if let Some((_, _, sym)) = c.iter().find(|(len, w, _)| *len == n && *w == code) {
                                return one(V::Int(*sym, 16), j);
                            }
                            let Some(b) = j.peek() else { return Ok(vec![]) };
                            if n > 40 || b > 1 {
                                return Ok(vec![]);
                            }
                            code = code << 1 | b as u64;
                            n += 1;
                            j = j.skip(1).unwrap();
                        }
                    }
                    e = up;
                }
                undef("unbound decoder")
            }
            Format::Pos => one(V::Int(i.off as u64, 64), i.clone()),
            Format::SkipRemainder => one(unit(), Input { off: i.end, ..i.clone() }),
            Format::DecodeBytes(e, a) => {
                let bytes: Vec<u8> = ints(&ev(e, env)?)?
                    .into_iter()
                    .map(|n| u8::try_from(n).or(undef("not a byte")))
                    .collect::<R<_>>()?;
                let r = self.p(a, env, &Input::new(&bytes), OPEN)?;
                Ok(r.into_iter().map(|(v, _)| (v, i.clone())).collect())
            }
            Format::LetFormat(a, l, b) => {
                let fb = self.first(b);
                let mut out = vec![];
                for (v, j) in self.p(a, env, i, fol.after(fb))? {
                    let env = bind(env, l, Entry::Val(v));
                    out.extend(self.p(b, &env, &j, fol)?);
                }
                self.cap(out)
            }
            Format::MonadSeq(a, b) => {
                let fb = self.first(b);
                let mut out = vec![];
                for (_, j) in self.p(a, env, i, fol.after(fb))? {
                    out.extend(self.p(b, env, &j, fol)?);
                }
                self.cap(out)
            }
            Format::Hint(_, a) => self.p(a, env, i, fol),
            Format::LetView(l, a) => {
                let env = bind(env, l, Entry::View(i.clone()));
                self.p(a, &env, i, fol)
            }
            Format::WithView(v, k) => {
                let n = match k {
                    ViewFormat::CaptureBytes(n) | ViewFormat::ReadArray(n, _) => idx(&ev(n, env)?)?,
                    ViewFormat::ReifyView => 0,
                };
                let Some(w) = self.view(v, env)? else { return Ok(vec![]) };
                let size = match k {
                    ViewFormat::ReifyView => return one(V::View(w.off), i.clone()),
                    ViewFormat::CaptureBytes(_) => 1,
                    ViewFormat::ReadArray(_, k) => match k {
                        BaseKind::U8 => 1,
                        BaseKind::U16Ext(Endian::Be) => 2,
                        BaseKind::U32Ext(Endian::Be) => 4,
                        BaseKind::U64Ext(Endian::Be) => 8,
                        _ => return undef("little-endian array"),
                    },
                };
                if n.checked_mul(size).is_none_or(|t| t > w.left()) {
                    return Ok(vec![]);
                }
                let vs = w.buf[w.off..w.off + n * size]
                    .chunks(size)
                    .enumerate()
                    .map(|(k, c)| {
                        let v = V::Int(c.iter().fold(0, |a, b| a << 8 | *b as u64), size as u32 * 8);
                        if self.track { V::At(Rc::new(v), w.off + k * size, size) } else { v }
                    })
                    .collect();
                let v = V::Seq(Rc::new(vs));
                one(if self.track { V::At(Rc::new(v), w.off, n * size) } else { v }, i.clone())
            }
            Format::ParseFromView(v, a) => {
                let Some(w) = self.view(v, env)? else { return Ok(vec![]) };
                Ok(self.p(a, env, &w, OPEN)?.into_iter().map(|(v, _)| (v, i.clone())).collect())
            }
            Format::Phantom(_) => one(V::Phantom, i.clone()),
            Format::Permit(a, e) => {
                let (mut r, guessed) = self.scoped(a, env, i, fol)?;
                if r.is_empty() {
                    return one(ev(e, env)?, i.clone());
                }
                if guessed || self.looks(a) {
                    self.guess("permit");
                    r.push((ev(e, env)?, i.clone()));
                }
                Ok(r)
            }
            #[allow(unreachable_patterns)]
            _ => undef("format not modelled"),
        }
    }

    fn cap(&self, o: Out) -> R<Out> {
        if o.len() > MAX_SET { undef("model: set budget") } else { Ok(o) }
    }

    fn row(&mut self, fs: &[Format], env: &Env, i: &Input, fol: Follow) -> R<Vec<(Vec<V>, Input)>> {
        let mut fols = vec![fol];
        for f in fs.iter().rev() {
            let x = self.first(f);
            fols.push(fols.last().unwrap().after(x));
        }
        // fols[k] is what follows the element k from the end
        let n = fs.len();
        let mut cur: Vec<(Vec<V>, Input)> = vec![(vec![], i.clone())];
        for (k, f) in fs.iter().enumerate() {
            let mut nx = vec![];
            for (vs, i) in cur {
                grow(vs, self.p(f, env, &i, fols[n - 1 - k])?, &mut nx);
            }
            cur = nx;
            if cur.len() > MAX_SET {
                return undef("model: set budget");
            }
        }
        Ok(cur)
    }

    fn union(&mut self, fs: &[Format], env: &Env, i: &Input, fol: Follow) -> R<Out> {
        let b = i.peek();
        let mut sure = vec![];
        let mut maybe = vec![];
        for (k, f) in fs.iter().enumerate() {
            let x = self.first(f);
            match b {
                Some(b) if x.set.has(b) || x.null && fol.set.has(b) => sure.push(k),
                _ if x.null && (fol.open || b.is_none()) => maybe.push(k),
                _ => {}
            }
        }
        if sure.len() == 1 {
            let r = self.p(&fs[sure[0]], env, i, fol)?;
            if !r.is_empty() || maybe.is_empty() {
                return Ok(r);
            }
            sure.clear();
            self.guess("union: only the fallback branch fits");
        } else if sure.is_empty() && maybe.len() == 1 {
            return self.p(&fs[maybe[0]], env, i, fol);
        }
        let open = !maybe.is_empty();
        let cand: Vec<usize> = sure.into_iter().chain(maybe).collect();
        let mut fits = vec![];
        let mut guessed = false;
        for k in &cand {
            let (r, g) = self.scoped(&fs[*k], env, i, fol)?;
            guessed |= g;
            if !r.is_empty() {
                fits.push((*k, r));
            }
        }
        // one alternative fits, and the bytes it reads tell every other apart: lookahead has no choice
        if let ([(k, r)], false, false) = (&fits[..], open, guessed) {
            let lim = r.iter().map(|x| x.1.off).min().unwrap();
            let mut fuel = 4000;
            let plain = self.plain(&fs[*k], 0);
            let told = plain && cand.iter().filter(|j| *j != k).all(|j| match self.reach(&fs[*j], vec![i.off], i, lim, &mut fuel) {
                None => false,
                Some(ends) => ends.iter().all(|e| *e < lim && !fol.open && !fol.set.has(i.buf[*e])),
            });
            if told {
                return Ok(fits.pop().unwrap().1);
            }
        }
        let mut out = vec![];
        for (_, r) in fits {
            self.guess("union: several branches could start here");
            out.extend(r);
        }
        self.cap(out)
    }

    /// Made of nothing but bytes, tuples, choices and repetitions.
    fn plain(&self, f: &Format, d: usize) -> bool {
        match f {
            _ if d > 12 => false,
            Format::Byte(_) | Format::Fail | Format::Compute(_) => true,
            Format::ItemVar(n, ..) => self.plain(self.m.get_format(*n), d + 1),
            Format::Variant(_, f) | Format::Map(f, _) | Format::Where(f, _) | Format::Hint(_, f) | Format::Let(_, _, f) | Format::Repeat(f) | Format::Repeat1(f) => self.plain(f, d + 1),
            Format::RepeatCount(n, f) => matches!(**n, Expr::U8(_) | Expr::U16(_) | Expr::U32(_)) && self.plain(f, d + 1),
            Format::Tuple(fs) | Format::Sequence(fs) | Format::Union(fs) | Format::UnionNondet(fs) => fs.iter().all(|f| self.plain(f, d + 1)),
            Format::Match(_, bs) => bs.iter().all(|b| self.plain(&b.1, d + 1)),
            Format::MonadSeq(a, b) | Format::LetFormat(a, _, b) => self.plain(a, d + 1) && self.plain(b, d + 1),
            _ => false,
        }
    }

    /// Where a format can end that starts at one of `at`, judging by bytes alone; `None`: it may reach `lim`, or is opaque.
    fn reach(&self, f: &Format, at: Vec<usize>, i: &Input, lim: usize, fuel: &mut u32) -> Option<Vec<usize>> {
        *fuel = fuel.checked_sub(1)?;
        if at.is_empty() {
            return Some(at);
        }
        if at.iter().any(|a| *a >= lim) {
            return None;
        }
        let tidy = |mut v: Vec<usize>| {
            v.sort();
            v.dedup();
            v
        };
        match f {
            Format::Byte(bs) => Some(at.into_iter().filter(|a| bs.contains(i.buf[*a])).map(|a| a + 1).collect()),
            Format::Fail => Some(vec![]),
            Format::Compute(_) => Some(at),
            Format::ItemVar(n, ..) => self.reach(self.m.get_format(*n), at, i, lim, fuel),
            Format::Variant(_, f) | Format::Map(f, _) | Format::Where(f, _) | Format::Hint(_, f) | Format::Let(_, _, f) => self.reach(f, at, i, lim, fuel),
            Format::Tuple(fs) | Format::Sequence(fs) => {
                let mut at = at;
                for f in fs {
                    at = self.reach(f, at, i, lim, fuel)?;
                }
                Some(at)
            }
            Format::MonadSeq(a, b) | Format::LetFormat(a, _, b) => {
                let at = self.reach(a, at, i, lim, fuel)?;
                self.reach(b, at, i, lim, fuel)
            }
            Format::Union(fs) | Format::UnionNondet(fs) => {
                let mut out = vec![];
                for f in fs {
                    out.extend(self.reach(f, at.clone(), i, lim, fuel)?);
                }
                Some(tidy(out))
            }
            Format::Match(_, bs) => {
                let mut out = vec![];
                for (_, f) in bs {
                    out.extend(self.reach(f, at.clone(), i, lim, fuel)?);
                }
                Some(tidy(out))
            }
            Format::RepeatCount(_, f) | Format::Repeat(f) | Format::Repeat1(f) => {
                let mut all = at.clone();
                let mut new = at;
                while !new.is_empty() {
                    new = self.reach(f, new, i, lim, fuel)?;
                    new.retain(|a| !all.contains(a));
                    all.extend(&new);
                }
                Some(tidy(all))
            }
            _ => None,
        }
    }

    /// Bytes that the format describes, drawn at random, as far as that can be followed; the rest is left to chance.
    pub fn draw(&mut self, f: &Format, rng: &mut Rng) -> (Vec<u8>, bool) {
        self.steps = 0;
        let mut out = vec![];
        let ok = self.draw_in(f, &Rc::new(Scope::Nil), rng, &mut out, 0, false).is_ok();
        if !ok || rng.chance(1, 3) {
            for _ in 0..rng.range(0, 6) {
                out.push(if rng.chance(2, 3) { rng.below(8) as u8 } else { rng.byte() });
            }
        }
        (out, ok)
    }

    fn draw_in(&mut self, f: &Format, env: &Env, rng: &mut Rng, out: &mut Vec<u8>, d: usize, bits: bool) -> R<()> {
        self.steps += 1;
        if self.steps > MAX_STEPS || out.len() > 2000 || d > 60 {
            return undef("draw: budget");
        }
        match f {
            Format::ItemVar(n, es, _) => {
                let mut new: Env = Rc::new(Scope::Nil);
                for (k, e) in self.args[*n].clone().iter().zip(es) {
                    new = bind(&new, k, Entry::Val(ev(e, env)?));
                }
                let m = self.m;
                self.draw_in(m.get_format(*n), &new, rng, out, d + 1, bits)
            }
            Format::Fail => undef("draw: fail"),
            Format::Align(n) => {
                while out.len() % n != 0 {
                    out.push(if bits { 0 } else { rng.byte() });
                }
                Ok(())
            }
            Format::Byte(bs) => {
                let c: Vec<u8> = (0..=255u8).filter(|b| bs.contains(*b) && (!bits || *b < 2)).collect();
                if c.is_empty() {
                    return undef("draw: empty set");
                }
                let small = c.iter().filter(|b| **b < 12).count();
                out.push(if small > 0 && rng.chance(2, 3) { c[rng.below(small)] } else { *rng.pick(&c) });
                Ok(())
            }
            Format::Variant(_, a) | Format::Hint(_, a) | Format::Map(a, _) | Format::Permit(a, _) | Format::LiftedOption(Some(a)) => self.draw_in(a, env, rng, out, d + 1, bits),
            Format::Where(a, c) => {
                let n = out.len();
                for _ in 0..40 {
                    out.truncate(n);
                    self.draw_in(a, env, rng, out, d + 1, bits)?;
                    let v = self.reread(a, env, out, n)?;
                    if truth(&lam(c.as_ref(), &v, env)?)? {
                        return Ok(());
                    }
                }
                undef("draw: condition")
            }
            Format::Union(fs) | Format::UnionNondet(fs) => self.draw_in(rng.pick(fs), env, rng, out, d + 1, bits),
            Format::Tuple(fs) | Format::Sequence(fs) => fs.iter().try_for_each(|f| self.draw_in(f, env, rng, out, d + 1, bits)),
            Format::Repeat(a) | Format::RepeatUntilLast(_, a) | Format::RepeatUntilSeq(_, a) | Format::AccumUntil(_, _, _, _, a) => (0..rng.range(0, 4)).try_for_each(|_| self.draw_in(a, env, rng, out, d + 1, bits)),
            Format::Repeat1(a) => (0..rng.range(1, 4)).try_for_each(|_| self.draw_in(a, env, rng, out, d + 1, bits)),
            Format::RepeatCount(n, a) => (0..idx(&ev(n, env)?)?).try_for_each(|_| self.draw_in(a, env, rng, out, d + 1, bits)),
            Format::RepeatBetween(lo, hi, a) => {
                let (lo, hi) = (idx(&ev(lo, env)?)?, idx(&ev(hi, env)?)?.min(64));
                (0..rng.range(lo.min(hi), hi)).try_for_each(|_| self.draw_in(a, env, rng, out, d + 1, bits))
            }
            Format::ForEach(e, l, a) => {
                for it in list(&ev(e, env)?)?.iter() {
                    let env = bind(env, l, Entry::Val(it.clone()));
                    self.draw_in(a, &env, rng, out, d + 1, bits)?;
                }
                Ok(())
            }
            Format::Maybe(e, a) => {
                if truth(&ev(e, env)?)? {
                    self.draw_in(a, env, rng, out, d + 1, bits)?;
                }
                Ok(())
            }
            Format::Slice(n, a) => {
                let n = idx(&ev(n, env)?)?;
                if n > 2000 {
                    return undef("draw: slice");
                }
                let mut inner = vec![];
                let r = self.draw_in(a, env, rng, &mut inner, d + 1, bits);
                inner.truncate(n);
                while inner.len() < n {
                    inner.push(if bits { 0 } else { rng.byte() });
                }
                out.extend(inner);
                r
            }
            Format::Bits(a) => {
                let mut inner = vec![];
                self.draw_in(a, env, rng, &mut inner, d + 1, true)?;
                for c in inner.chunks(8) {
                    out.push(c.iter().enumerate().fold(0, |x, (k, b)| x | (b & 1) << k));
                }
                Ok(())
            }
            Format::Let(l, e, a) => {
                let env = bind(env, l, Entry::Val(ev(e, env)?));
                self.draw_in(a, &env, rng, out, d + 1, bits)
            }
            Format::Match(e, bs) => {
                let v = ev(e, env)?;
                for (pat, a) in bs {
                    if let Some(env) = pmatch(pat, &v, env)? {
                        return self.draw_in(a, &env, rng, out, d + 1, bits);
                    }
                }
                undef("draw: no match")
            }
            Format::LetFormat(a, l, b) => {
                let n = out.len();
                self.draw_in(a, env, rng, out, d + 1, bits)?;
                let v = self.reread(a, env, out, n)?;
                let env = bind(env, l, Entry::Val(v));
                self.draw_in(b, &env, rng, out, d + 1, bits)
            }
            Format::MonadSeq(a, b) => {
                self.draw_in(a, env, rng, out, d + 1, bits)?;
                self.draw_in(b, env, rng, out, d + 1, bits)
            }
            Format::LetView(_, a) => self.draw_in(a, env, rng, out, d + 1, bits),
            Format::SkipRemainder => {
                for _ in 0..rng.below(3) {
                    out.push(if bits { 0 } else { rng.byte() });
                }
                Ok(())
            }
            Format::Compute(_) | Format::Pos | Format::Phantom(_) | Format::EndOfInput | Format::LiftedOption(None) | Format::Peek(_) | Format::PeekNot(_) | Format::DecodeBytes(..) => Ok(()),
            _ => undef("draw: opaque"),
        }
    }

    /// The value that `a` gives to what was drawn for it.
    fn reread(&mut self, a: &Format, env: &Env, out: &[u8], n: usize) -> R<V> {
        let i = Input { off: n, ..Input::new(out) };
        let r = self.p(a, env, &i, OPEN)?;
        r.into_iter().find(|(_, j)| j.off == out.len()).map(|x| x.0).ok_or(Undef("draw: not read back"))
    }

    fn many(&mut self, a: &Format, lo: usize, hi: usize, env: &Env, i: &Input, fol: Follow) -> R<Out> {
        let fa = self.first(a);
        let inner = Follow { set: fa.set.or(fol.set), open: fol.open };
        let mut cur: Vec<(Vec<V>, Input)> = vec![(vec![], i.clone())];
        let mut out: Vec<(Vec<V>, Input)> = vec![];
        while !cur.is_empty() {
            let mut nx = vec![];
            for (vs, i) in cur {
                let b = i.peek();
                let can_stop = vs.len() >= lo;
                if vs.len() >= hi {
                    if can_stop {
                        out.push((vs, i));
                        if hi != usize::MAX {
                            self.bounded_stop(b, fa, fol);
                        }
                    }
                    continue;
                }
                let may_go = b.is_some_and(|b| fa.set.has(b)) || fa.null;
                let go = if may_go { self.p(a, env, &i, inner)? } else { vec![] };
                if go.iter().any(|(_, j)| j.off <= i.off) {
                    return undef("repeated element consumed nothing");
                }
                let stop_sure = b.is_none() || b.is_some_and(|b| fol.set.has(b));
                if go.is_empty() {
                    if can_stop {
                        // (an element that starts here but fails may have been chosen by the lookahead)
                        if may_go {
                            self.guess("repeat: element starts but fails");
                        }
                        out.push((vs, i));
                    }
                    continue;
                }
                if can_stop && (stop_sure || vs.len() < lo) {
                    self.guess("repeat: could stop or go on");
                    out.push((vs.clone(), i.clone()));
                }
                if hi != usize::MAX {
                    // the bounded form counts what fits in its lookahead window
                    self.guess("bounded repeat");
                    if can_stop {
                        out.push((vs.clone(), i.clone()));
                    }
                }
                grow(vs, go, &mut nx);
            }
            cur = nx;
            if cur.len() + out.len() > MAX_SET {
                return undef("model: set budget");
            }
        }
        Ok(seqs(out))
    }

    fn bounded_stop(&mut self, b: Option<u8>, fa: First, fol: Follow) {
        if b.is_some_and(|b| fa.set.has(b) || fol.set.has(b)) || fa.null {
            self.guess("bounded repeat at its maximum");
        }
    }

    fn view(&mut self, v: &ViewExpr, env: &Env) -> R<Option<Input>> {
        match v {
            ViewExpr::Var(l) => get_view(env, l).map(Some),
            ViewExpr::Offset(b, e) => {
                let n = idx(&ev(e, env)?)?;
                Ok(self.view(b, env)?.and_then(|w| w.skip(n)))
            }
        }
    }
}

fn unit() -> V {
    V::Tuple(Rc::new(vec![]))
}
fn seqs(o: Vec<(Vec<V>, Input)>) -> Out {
    o.into_iter().map(|(v, i)| (V::Seq(Rc::new(v)), i)).collect()
}

/// One more element on each way the sequence can go on.
fn grow(vs: Vec<V>, go: Out, nx: &mut Vec<(Vec<V>, Input)>) {
    let n = go.len();
    let mut vs = vs;
    for (k, (v, j)) in go.into_iter().enumerate() {
        let mut w = if k + 1 == n { std::mem::take(&mut vs) } else { vs.clone() };
        w.push(v);
        nx.push((w, j));
    }
}

fn prefix_code(lens: &[usize]) -> Option<Vec<(usize, u64, u64)>> {
    // a prefix code with these lengths exists iff the Kraft sum is at most one
    let kraft: u128 = lens.iter().filter(|l| **l > 0).map(|l| 1u128 << (64 - l)).sum();
    if kraft > 1u128 << 64 {
        return None;
    }
    let mut out = vec![];
    let mut syms: Vec<(usize, usize)> = lens.iter().enumerate().filter(|x| *x.1 > 0).map(|(s, l)| (*l, s)).collect();
    syms.sort();
    let mut code = 0u64;
    let mut len = 0;
    for (l, s) in syms {
        code <<= l - len;
        len = l;
        out.push((l, code, s as u64));
        code += 1;
    }
    Some(out)
}

fn idx(v: &V) -> R<usize> {
    match bare(v) {
        V::Int(n, _) => Ok(*n as usize),
        V::Num(n, _) => usize::try_from(*n).or(undef("negative count")),
        _ => undef("not a number"),
    }
}
fn truth(v: &V) -> R<bool> {
    match bare(v) {
        V::Bool(b) => Ok(*b),
        _ => undef("not a bool"),
    }
}
fn list(v: &V) -> R<Rc<Vec<V>>> {
    match bare(v) {
        V::Seq(s) => Ok(s.clone()),
        _ => undef("not a sequence"),
    }
}
fn ints(v: &V) -> R<Vec<usize>> {
    list(v)?.iter().map(idx).collect()
}

fn mask(w: u32) -> u64 {
    if w == 0 || w >= 64 { !0 } else { (1 << w) - 1 }
}

fn lam(e: &Expr, v: &V, env: &Env) -> R<V> {
    match e {
        Expr::Lambda(l, b) => ev(b, &bind(env, l, Entry::Val(v.clone()))),
        _ => undef("not a lambda"),
    }
}

fn raw(v: &V) -> R<i128> {
    match bare(v) {
        V::Int(n, _) => Ok(*n as i128),
        V::Num(n, _) => Ok(*n),
        _ => undef("not a number"),
    }
}

fn bytes(v: &V, n: usize, le: bool) -> R<V> {
    let V::Tuple(t) = bare(v) else { return undef("not a tuple of bytes") };
    if t.len() != n {
        return undef("wrong number of bytes");
    }
    let mut bs: Vec<u64> = t
        .iter()
        .map(|v| match bare(v) {
            V::Int(b, 8) => Ok(*b),
            _ => undef("not a byte"),
        })
        .collect::<R<_>>()?;
    if le {
        bs.reverse();
    }
    Ok(V::Int(bs.iter().fold(0, |a, b| a << 8 | b), n as u32 * 8))
}

fn cast(v: &V, w: u32) -> R<V> {
    match bare(v) {
        V::Int(n, _) if *n <= mask(w) => Ok(V::Int(*n, w)),
        V::Int(..) => undef("narrowing cast"),
        _ => undef("cast of a non-integer"),
    }
}

fn ev(e: &Expr, env: &Env) -> R<V> {
    let v = ev0(e, env)?;
    // naming, projecting and indexing hand over the very part that was read, and a record keeps its
    // fields; any other expression computes a new value, which need not remember where from
    Ok(match e {
        Expr::Var(..) | Expr::TupleProj(..) | Expr::RecordProj(..) | Expr::SeqIx(..) | Expr::Record(..) => v,
        _ => forget(&v),
    })
}
fn ev0(e: &Expr, env: &Env) -> R<V> {
    Ok(match e {
        Expr::Var(l) => get_val(env, l)?,
        Expr::Bool(b) => V::Bool(*b),
        Expr::U8(n) => V::Int(*n as u64, 8),
        Expr::U16(n) => V::Int(*n as u64, 16),
        Expr::U32(n) => V::Int(*n as u64, 32),
        Expr::U64(n) => V::Int(*n, 64),
        Expr::Numeric(n) => {
            let (v, r) = numeric(n, env)?;
            V::Num(v, r)
        }
        Expr::Tuple(es) => V::Tuple(Rc::new(es.iter().map(|e| ev(e, env)).collect::<R<_>>()?)),
        Expr::TupleProj(e, k) => match bare(&ev(e, env)?) {
            V::Tuple(t) if *k < t.len() => t[*k].clone(),
            _ => return undef("tuple projection"),
        },
        Expr::Record(fs) => V::Rec(Rc::new(fs.iter().map(|(l, e)| Ok((l.clone(), ev(e, env)?))).collect::<R<_>>()?)),
        Expr::RecordProj(e, l) => match bare(&ev(e, env)?) {
            V::Rec(fs) => match fs.iter().find(|f| f.0 == *l) {
                Some(f) => f.1.clone(),
                None => return undef("no such field"),
            },
            _ => return undef("record projection"),
        },
        Expr::Variant(l, e) => V::Var(l.clone(), Rc::new(ev(e, env)?)),
        Expr::Seq(es) => V::Seq(Rc::new(es.iter().map(|e| ev(e, env)).collect::<R<_>>()?)),
        Expr::Match(h, bs) => {
            let v = ev(h, env)?;
            for (p, e) in bs {
                if let Some(env) = pmatch(p, &v, env)? {
                    return ev(e, &env);
                }
            }
            return undef("no pattern covers the value");
        }
        Expr::Destructure(h, p, e) => match pmatch(p, &ev(h, env)?, env)? {
            Some(env) => ev(e, &env)?,
            None => return undef("refuted destructuring"),
        },
        Expr::Lambda(..) => return undef("lambda as a value"),
        Expr::IntRel(r, x, y) => {
            let (x, y) = (raw(&ev(x, env)?)?, raw(&ev(y, env)?)?);
            V::Bool(match r {
                IntRel::Eq => x == y,
                IntRel::Ne => x != y,
                IntRel::Lt => x < y,
                IntRel::Gt => x > y,
                IntRel::Lte => x <= y,
                IntRel::Gte => x >= y,
            })
        }
        Expr::Arith(op, x, y) => match (forget(&ev(x, env)?), forget(&ev(y, env)?)) {
            (V::Bool(x), V::Bool(y)) => match op {
                Arith::BoolOr => V::Bool(x || y),
                Arith::BoolAnd => V::Bool(x && y),
                _ => return undef("arithmetic on bools"),
            },
            (V::Int(x, w), V::Int(y, w2)) if w == w2 => {
                let r = match op {
                    Arith::Add => x.checked_add(y),
                    Arith::Sub => x.checked_sub(y),
                    Arith::Mul => x.checked_mul(y),
                    Arith::Div => x.checked_div(y),
                    Arith::Rem => x.checked_rem(y),
                    Arith::BitAnd => Some(x & y),
                    Arith::BitOr => Some(x | y),
                    Arith::Shl if y < w.max(1) as u64 => Some(x << y & mask(w)),
                    Arith::Shr if y < w.max(1) as u64 => Some(x >> y),
                    _ => None,
                };
                match r {
                    Some(n) if n <= mask(w) => V::Int(n, w),
                    _ => return undef("integer overflow"),
                }
            }
            _ => return undef("arithmetic on unlike operands"),
        },
        Expr::Unary(op, x) => match (op, forget(&ev(x, env)?)) {
            (UnaryOp::BoolNot, V::Bool(b)) => V::Bool(!b),
            (UnaryOp::IntSucc, V::Int(n, w)) if n < mask(w) => V::Int(n + 1, w),
            (UnaryOp::IntPred, V::Int(n, w)) if n > 0 => V::Int(n - 1, w),
            _ => return undef("unary operator"),
        },
        Expr::AsU8(x) => cast(&ev(x, env)?, 8)?,
        Expr::AsU16(x) => cast(&ev(x, env)?, 16)?,
        Expr::AsU32(x) => cast(&ev(x, env)?, 32)?,
        Expr::AsU64(x) => cast(&ev(x, env)?, 64)?,
        Expr::AsChar(x) => match forget(&ev(x, env)?) {
            V::Int(n, _) => match u32::try_from(n) {
                Ok(n) => V::Char(char::from_u32(n).unwrap_or(char::REPLACEMENT_CHARACTER)),
                Err(_) => return undef("character code"),
            },
            _ => return undef("character code"),
        },
        Expr::U16Be(x) => bytes(&ev(x, env)?, 2, false)?,
        Expr::U16Le(x) => bytes(&ev(x, env)?, 2, true)?,
        Expr::U32Be(x) => bytes(&ev(x, env)?, 4, false)?,
        Expr::U32Le(x) => bytes(&ev(x, env)?, 4, true)?,
        Expr::U64Be(x) => bytes(&ev(x, env)?, 8, false)?,
        Expr::U64Le(x) => bytes(&ev(x, env)?, 8, true)?,
        Expr::SeqLength(s) => V::Int(list(&ev(s, env)?)?.len() as u64, 32),
        Expr::SeqIx(s, k) => {
            let (s, k) = (list(&ev(s, env)?)?, idx(&ev(k, env)?)?);
            match s.get(k) {
                Some(v) => v.clone(),
                None => return undef("index out of range"),
            }
        }
        Expr::SubSeq(s, a, n) => {
            let (s, a, n) = (list(&ev(s, env)?)?, idx(&ev(a, env)?)?, idx(&ev(n, env)?)?);
            match a.checked_add(n) {
                Some(z) if z <= s.len() => V::Seq(Rc::new(s[a..z].to_vec())),
                _ => return undef("sub-sequence out of range"),
            }
        }
        Expr::SubSeqInflate(s, a, n) => {
            let (s, a, n) = (list(&ev(s, env)?)?, idx(&ev(a, env)?)?, idx(&ev(n, env)?)?);
            if n > MAX_SEQ || (n > 0 && a >= s.len()) {
                return undef("sub-sequence out of range");
            }
            let mut all = (*s).clone();
            for k in 0..n {
                all.push(all[a + k].clone());
            }
            V::Seq(Rc::new(all[s.len()..].to_vec()))
        }
        Expr::Append(a, b) => {
            let (a, b) = (list(&ev(a, env)?)?, list(&ev(b, env)?)?);
            V::Seq(Rc::new(a.iter().chain(b.iter()).cloned().collect()))
        }
        Expr::FlatMap(f, s) => {
            let mut out = vec![];
            for v in list(&ev(s, env)?)?.iter() {
                out.extend(list(&lam(f, v, env)?)?.iter().cloned());
            }
            V::Seq(Rc::new(out))
        }
        Expr::FlatMapAccum(f, a, _, s) => {
            let mut out = vec![];
            let mut acc = ev(a, env)?;
            for v in list(&ev(s, env)?)?.iter() {
                match bare(&lam(f, &V::Tuple(Rc::new(vec![acc, v.clone()])), env)?) {
                    V::Tuple(t) if t.len() == 2 => {
                        acc = t[0].clone();
                        out.extend(list(&t[1])?.iter().cloned());
                    }
                    _ => return undef("accumulating map without a pair"),
                }
            }
            V::Seq(Rc::new(out))
        }
        Expr::FlatMapList(f, _, s) => {
            let mut out = vec![];
            for v in list(&ev(s, env)?)?.iter() {
                let r = lam(f, &V::Tuple(Rc::new(vec![V::Seq(Rc::new(out.clone())), v.clone()])), env)?;
                out.extend(list(&r)?.iter().cloned());
            }
            V::Seq(Rc::new(out))
        }
        Expr::LeftFold(f, a, _, s) => {
            let mut acc = ev(a, env)?;
            for v in list(&ev(s, env)?)?.iter() {
                acc = lam(f, &V::Tuple(Rc::new(vec![acc, v.clone()])), env)?;
            }
            acc
        }
        Expr::FindByKey(sorted, f, q, s) => {
            let q = raw(&ev(q, env)?)?;
            let s = list(&ev(s, env)?)?;
            let keys: Vec<i128> = s.iter().map(|v| raw(&lam(f, v, env)?)).collect::<R<_>>()?;
            if *sorted && !keys.windows(2).all(|w| w[0] < w[1]) {
                return undef("sorted search in an unsorted sequence");
            }
            V::Opt(keys.iter().position(|k| *k == q).map(|k| Rc::new(s[k].clone())))
        }
        Expr::EnumFromTo(a, b) => {
            let (a, b) = (idx(&ev(a, env)?)?, idx(&ev(b, env)?)?);
            if b.saturating_sub(a) > MAX_SEQ {
                return undef("model: long range");
            }
            V::Seq(Rc::new((a..b).map(|n| V::Int(n as u64, 0)).collect()))
        }
        Expr::Dup(n, e) => {
            let n = idx(&ev(n, env)?)?;
            let v = ev(e, env)?;
            if n > MAX_SEQ {
                return undef("model: long sequence");
            }
            V::Seq(Rc::new(vec![v; n]))
        }
        Expr::LiftOption(None) => V::Opt(None),
        Expr::LiftOption(Some(e)) => V::Opt(Some(Rc::new(ev(e, env)?))),
    })
}

fn rep_of(r: num::NumRep) -> R<Option<(u32, bool)>> {
    Ok(match r {
        num::NumRep::Auto => None,
        num::NumRep::Concrete(m) => Some(mrep(m)?),
    })
}
fn mrep(m: num::MachineRep) -> R<(u32, bool)> {
    let s = m.to_static_str();
    match (s.get(..1), s.get(1..).and_then(|x| x.parse().ok())) {
        (Some("u"), Some(n)) => Ok((n, false)),
        (Some("i"), Some(n)) => Ok((n, true)),
        _ => undef("numeric representation"),
    }
}
fn fits(n: i128, r: Option<(u32, bool)>) -> bool {
    match r {
        None => n.unsigned_abs() < 1 << 100,
        Some((w, false)) => n >= 0 && n < 1i128 << w,
        Some((w, true)) => n >= -(1i128 << (w - 1)) && n < 1i128 << (w - 1),
    }
}

type N = (i128, Option<(u32, bool)>);
fn numeric(e: &num::Expr, env: &Env) -> R<N> {
    let (n, r) = match e {
        num::Expr::Const(c) => match i128::try_from(&c.0) {
            Ok(n) => (n, rep_of(c.1)?),
            Err(_) => return undef("huge constant"),
        },
        num::Expr::NumVar(l) => match forget(&get_val(env, l)?) {
            V::Int(n, 0) => (n as i128, None),
            V::Int(n, w) => (n as i128, Some((w, false))),
            V::Num(n, r) => (n, r),
            _ => return undef("not a number"),
        },
        num::Expr::BinOp(op, x, y) => {
            let ((x, rx), (y, ry)) = (numeric(x, env)?, numeric(y, env)?);
            let r = match op.out_rep {
                Some(m) => Some(mrep(m)?),
                None => match (rx, ry) {
                    (None, r) | (r, None) => r,
                    (a, b) if a == b => a,
                    _ => return undef("ambiguous representation"),
                },
            };
            let n = match op.op {
                num::BasicBinOp::Add => x.checked_add(y),
                num::BasicBinOp::Sub => x.checked_sub(y),
                num::BasicBinOp::Mul => x.checked_mul(y),
                num::BasicBinOp::Div if x >= 0 && y > 0 => Some(x / y),
                num::BasicBinOp::Rem if x >= 0 && y > 0 => Some(x % y),
                _ => None,
            };
            match n {
                Some(n) => (n, r),
                None => return undef("numeric operation"),
            }
        }
        num::Expr::UnaryOp(op, x) => {
            let (x, rx) = numeric(x, env)?;
            let r = match op.out_rep {
                Some(m) => Some(mrep(m)?),
                None => rx,
            };
            let n = match op.op {
                num::BasicUnaryOp::Negate => -x,
                num::BasicUnaryOp::AbsVal => x.abs(),
                num::BasicUnaryOp::IntSucc => x + 1,
                num::BasicUnaryOp::IntPred => x - 1,
            };
            (n, r)
        }
        num::Expr::Cast(c, x) => {
            let (x, rx) = numeric(x, env)?;
            let r = mrep(c.out_rep)?;
            match (c.cast_semantics, rx) {
                (num::CastSemantics::Bitwise, Some(_)) => {
                    let low = x & ((1i128 << r.0) - 1);
                    (if r.1 && low >> (r.0 - 1) & 1 == 1 { low - (1i128 << r.0) } else { low }, Some(r))
                }
                _ => (x, Some(r)),
            }
        }
    };
    if fits(n, r) { Ok((n, r)) } else { undef("number out of the range of its representation") }
}

fn pmatch(p: &Pattern, whole: &V, env: &Env) -> R<Option<Env>> {
    let v = bare(whole);
    let ok = |b: bool| Ok(b.then(|| env.clone()));
    let int = |n: u64, w: u32| match v {
        V::Int(m, w2) if w == *w2 => Ok((n == *m).then(|| env.clone())),
        V::Num(m, r) if r.is_none() || *r == Some((w, false)) => Ok((n as i128 == *m).then(|| env.clone())),
        V::Int(..) | V::Num(..) => undef("pattern of another width"),
        _ => undef("ill-typed pattern"),
    };
    match p {
        Pattern::Binding(l) => Ok(Some(bind(env, l, Entry::Val(whole.clone())))),
        Pattern::Wildcard => ok(true),
        Pattern::Bool(b) => ok(*v == V::Bool(*b)),
        Pattern::U8(n) => int(*n as u64, 8),
        Pattern::U16(n) => int(*n as u64, 16),
        Pattern::U32(n) => int(*n as u64, 32),
        Pattern::U64(n) => int(*n, 64),
        Pattern::Int(b) => match v {
            V::Int(n, _) => ok(b.contains(*n as usize)),
            V::Num(n, _) if *n >= 0 => ok(b.contains(*n as usize)),
            _ => undef("range pattern"),
        },
        Pattern::ZConst(z) => match (i128::try_from(z), raw(v)) {
            (Ok(z), Ok(n)) => ok(z == n),
            _ => undef("constant pattern"),
        },
        Pattern::ZRange(r) => match serde_json::to_value(r) {
            Ok(j) => match (bound(&j["min"]), bound(&j["max"])) {
                (Some(a), Some(b)) => ok((a..=b).contains(&raw(v)?)),
                _ => undef("range pattern"),
            },
            Err(_) => undef("range pattern"),
        },
        Pattern::Char(c) => ok(*v == V::Char(*c)),
        Pattern::Tuple(ps) => match v {
            V::Tuple(vs) if vs.len() == ps.len() => all(ps, vs, env),
            _ => ok(false),
        },
        Pattern::Seq(ps) => match v {
            V::Seq(vs) if vs.len() == ps.len() => all(ps, vs, env),
            _ => ok(false),
        },
        Pattern::Variant(l, p) => match v {
            V::Var(k, v) if k == l => pmatch(p, v, env),
            _ => ok(false),
        },
        Pattern::Option(None) => ok(*v == V::Opt(None)),
        Pattern::Option(Some(p)) => match v {
            V::Opt(Some(v)) => pmatch(p, v, env),
            _ => ok(false),
        },
    }
}
fn bound(j: &serde_json::Value) -> Option<i128> {
    j.as_str().and_then(|s| s.parse().ok()).or(j.as_i64().map(|n| n as i128))
}
fn all(ps: &[Pattern], vs: &[V], env: &Env) -> R<Option<Env>> {
    let mut env = env.clone();
    for (p, v) in ps.iter().zip(vs) {
        match pmatch(p, v, &env)? {
            Some(e) => env = e,
            None => return Ok(None),
        }
    }
    Ok(Some(env))
}

/// The canonical text of `canon.rs`.
fn show(v: &V, out: &mut String) {
    use std::fmt::Write;
    let seq = |vs: &[V], o: char, c: char, out: &mut String| {
        out.push(o);
        for (k, v) in vs.iter().enumerate() {
            if k > 0 {
                out.push(',');
            }
            show(v, out);
        }
        out.push(c);
    };
    match v {
        V::Bool(b) => write!(out, "{b}").unwrap(),
        V::Int(n, _) => write!(out, "{n}").unwrap(),
        V::Num(n, _) => write!(out, "{n}").unwrap(),
        V::Char(c) => write!(out, "'{:x}'", *c as u32).unwrap(),
        V::Opt(None) => out.push_str("None"),
        V::Opt(Some(v)) => {
            out.push_str("Some(");
            show(v, out);
            out.push(')');
        }
        V::Tuple(vs) => seq(vs, '(', ')', out),
        V::Seq(vs) => seq(vs, '[', ']', out),
        V::Rec(fs) => {
            out.push('{');
            for (k, (l, v)) in fs.iter().enumerate() {
                if k > 0 {
                    out.push(',');
                }
                crate::canon::clean_ident(l, out);
                out.push(':');
                show(v, out);
            }
            out.push('}');
        }
        V::Var(l, v) => {
            out.push('@');
            crate::canon::clean_ident(l, out);
            match bare(v) {
                V::Tuple(t) if t.is_empty() => {}
                V::Tuple(_) => show(v, out),
                _ => {
                    out.push('(');
                    show(v, out);
                    out.push(')');
                }
            }
        }
        V::View(n) => write!(out, "View@{n}").unwrap(),
        V::Phantom => out.push_str("Phantom"),
        V::At(v, _, _) => show(v, out),
    }
}

// ---- locations ----

use doodle::loc_decoder::{ParseLoc, ParsedValue};

#[derive(Default)]
pub struct LocCheck {
    pub exact: u64,
    pub unjudged: u64,
    pub bad: Option<(&'static str, String)>,
}

/// Every part of the traced value that was read from the image is placed where the reference decoder read it.
pub fn compare_locations(v: &V, p: &ParsedValue, path: &str, c: &mut LocCheck) {
    if c.bad.is_some() {
        return;
    }
    match p {
        ParsedValue::Branch(_, q) => return compare_locations(v, q, path, c),
        ParsedValue::Mapped(_, q) => return compare_locations(v, q, path, c),
        ParsedValue::Permit(Ok(q)) | ParsedValue::Permit(Err(Some(q))) => return compare_locations(v, q, path, c),
        ParsedValue::Permit(Err(None)) => return,
        _ => {}
    }
    match (bare(v), p) {
        (V::Var(_, w), ParsedValue::Variant(l, q)) => return compare_locations(w, q, &format!("{path}/{l}"), c),
        (V::Opt(Some(w)), ParsedValue::Option(Some(q))) => return compare_locations(w, q, path, c),
        (_, ParsedValue::Variant(..) | ParsedValue::Option(_)) => return,
        _ => {}
    }
    match (v, p.get_loc()) {
        (V::At(_, o, n), ParseLoc::InBuffer { offset, length }) => {
            if (*o, *n) != (offset, length) {
                c.bad = Some(("a part of the value is placed at the wrong bytes", format!("{path}: traced to {offset}+{length}, read from {o}+{n}")));
                return;
            }
            c.exact += 1;
        }
        (V::At(_, o, n), ParseLoc::Synthesized) => {
            c.bad = Some(("a part of the value read from the image has no location", format!("{path}: read from {o}+{n}")));
            return;
        }
        _ => c.unjudged += 1,
    }
    match (bare(v), p) {
        (V::Tuple(ws), ParsedValue::Tuple(qs)) => {
            for (k, (w, q)) in ws.iter().zip(qs.as_ref()).enumerate() {
                compare_locations(w, q, &format!("{path}.{k}"), c);
            }
        }
        (V::Seq(ws), ParsedValue::Seq(qs)) => {
            for (k, (w, q)) in ws.iter().zip(qs.as_ref().iter()).enumerate() {
                compare_locations(w, q, &format!("{path}[{k}]"), c);
            }
        }
        (V::Rec(ws), ParsedValue::Record(qs)) => {
            for ((l, w), (_, q)) in ws.iter().zip(qs.as_ref()) {
                compare_locations(w, q, &format!("{path}.{l}"), c);
            }
        }
        _ => {}
    }
}
