//! Seeded generator of well-typed format modules.
//!
//! Every constructor of `Format` and most of `Expr` can be drawn. Alphabets are kept small so that random and repaired
//! images get deep into a format. Arithmetic is widened before it is combined: overflow is undefined in the DSL.

use crate::rng::Rng;
use doodle::byte_set::ByteSet;
use doodle::helper::*;
use doodle::{Arith, BaseKind, BaseType, DynFormat, Expr, Format, FormatModule, FormatRef, Pattern, ValueType, ViewExpr};
use std::collections::BTreeMap;

pub type Label = std::borrow::Cow<'static, str>;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    U8,
    U16,
    U32,
    U64,
    Bool,
    Char,
    Tup(Vec<Ty>),
    Rec(Vec<(Label, Ty)>),
    Var(Vec<(Label, Ty)>),
    Seq(Box<Ty>),
    Opt(Box<Ty>),
    /// a value we generate but never look into (views, phantom data, signed numbers, borrowed arrays)
    Opaque,
}

impl Ty {
    fn unit() -> Ty {
        Ty::Tup(vec![])
    }
    fn is_num(&self) -> bool {
        matches!(self, Ty::U8 | Ty::U16 | Ty::U32 | Ty::U64)
    }
    fn vt(&self) -> Option<ValueType> {
        Some(match self {
            Ty::U8 => ValueType::Base(BaseType::U8),
            Ty::U16 => ValueType::Base(BaseType::U16),
            Ty::U32 => ValueType::Base(BaseType::U32),
            Ty::U64 => ValueType::Base(BaseType::U64),
            Ty::Bool => ValueType::Base(BaseType::Bool),
            Ty::Char => ValueType::Base(BaseType::Char),
            Ty::Tup(ts) => ValueType::Tuple(ts.iter().map(|t| t.vt()).collect::<Option<_>>()?),
            Ty::Rec(fs) => ValueType::Record(fs.iter().map(|(l, t)| Some((l.clone(), t.vt()?))).collect::<Option<_>>()?),
            Ty::Var(fs) => ValueType::Union(
                fs.iter().map(|(l, t)| Some((l.clone(), t.vt()?))).collect::<Option<BTreeMap<_, _>>>()?,
            ),
            Ty::Seq(t) => ValueType::Seq(Box::new(t.vt()?)),
            Ty::Opt(t) => ValueType::Option(Box::new(t.vt()?)),
            Ty::Opaque => return None,
        })
    }
    fn copy(&self) -> bool {
        match self {
            Ty::Tup(ts) => ts.iter().all(|t| t.copy()),
            Ty::Rec(fs) | Ty::Var(fs) => fs.iter().all(|t| t.1.copy()),
            Ty::Opt(t) => t.copy(),
            Ty::Seq(_) | Ty::Opaque => false,
            _ => true,
        }
    }
    fn clean(&self) -> bool {
        self.vt().is_some()
    }
}

#[derive(Clone)]
struct Def {
    r: FormatRef,
    ty: Ty,
    args: Vec<Ty>,
    views: usize,
    consumes: bool,
    size: usize,
    called: bool,
}

/// An expression scope entry.
#[derive(Clone)]
struct Bind {
    name: Label,
    ty: Ty,
}

#[derive(Clone, Default)]
struct Env {
    vars: Vec<Bind>,
    views: Vec<Label>,
    /// inside `Bits`: every unit of input is a bit
    bits: bool,
    in_slice: bool,
    dynf: Vec<Label>,
}

pub struct Gen {
    pub rng: Rng,
    pub module: FormatModule,
    defs: Vec<Def>,
    fresh: usize,
    pub used: BTreeMap<&'static str, usize>,
    /// per-module swarm mask: which constructors may be drawn
    mask: u64,
    budget: usize,
}

pub struct Built {
    pub module: FormatModule,
    pub top: Format,
    pub used: BTreeMap<&'static str, usize>,
}

struct F {
    f: Format,
    ty: Ty,
    /// always consumes at least one unit
    c: bool,
}

fn b<T>(x: T) -> Box<T> {
    Box::new(x)
}

const KINDS: usize = 44;

impl Gen {
    pub fn new(seed: u64, ix: u64) -> Gen {
        let mut rng = Rng::stream(seed, "fmtgen", ix);
        let mask = if rng.chance(1, 4) { !0 } else { rng.next() | rng.next() };
        Gen { rng, module: FormatModule::new(), defs: vec![], fresh: 0, used: BTreeMap::new(), mask, budget: 0 }
    }

    fn mark(&mut self, k: &'static str) {
        *self.used.entry(k).or_default() += 1;
    }

    fn name(&mut self, pfx: &str) -> Label {
        self.fresh += 1;
        let style = self.rng.below(12);
        match style {
            0 => format!("{pfx}-{}", self.fresh).into(),
            1 => format!("{pfx}.x{}", self.fresh).into(),
            _ => format!("{pfx}{}", self.fresh).into(),
        }
    }

    /// Labels used for record fields and variants: small pool, so that shapes recur across definitions.
    fn field(&mut self, i: usize) -> Label {
        const POOL: &[&str] = &["alpha", "beta", "type", "len", "x-pos", "flags", "data", "match"];
        if self.rng.chance(3, 4) { format!("f{i}").into() } else { format!("{}{}", POOL[self.rng.below(POOL.len())], i).into() }
    }

    fn byteset(&mut self, env: &Env) -> ByteSet {
        if env.bits {
            return match self.rng.below(4) {
                0 => ByteSet::singleton(0),
                1 => ByteSet::singleton(1),
                _ => ByteSet::full(),
            };
        }
        match self.rng.below(10) {
            0..=3 => ByteSet::full(),
            4 => ByteSet::from(0u8..=3),
            5 => ByteSet::from(0u8..=7),
            6 => ByteSet::from(b'a'..=b'd'),
            7 => {
                let n = self.rng.range(1, 5);
                (0..n).map(|_| self.rng.below(12) as u8).collect()
            }
            8 => ByteSet::singleton(self.rng.below(10) as u8).complement(),
            _ => {
                let lo = self.rng.below(200) as u8;
                ByteSet::from(lo..=lo.saturating_add(self.rng.range(1, 60) as u8))
            }
        }
    }

    // ---------------------------------------------------------------- expressions

    fn candidates(&self, env: &Env, want: &dyn Fn(&Ty) -> bool) -> Vec<(Expr, Ty)> {
        let mut out = vec![];
        // innermost binding of a name wins
        let mut seen = std::collections::BTreeSet::new();
        for bnd in env.vars.iter().rev() {
            if !seen.insert(bnd.name.clone()) {
                continue;
            }
            Self::paths(Expr::Var(bnd.name.clone()), &bnd.ty, 2, want, &mut out);
        }
        out
    }

    fn paths(e: Expr, t: &Ty, depth: usize, want: &dyn Fn(&Ty) -> bool, out: &mut Vec<(Expr, Ty)>) {
        if want(t) {
            out.push((e.clone(), t.clone()));
        }
        if depth == 0 {
            return;
        }
        match t {
            Ty::Tup(ts) => {
                for (i, t) in ts.iter().enumerate() {
                    Self::paths(Expr::TupleProj(b(e.clone()), i), t, depth - 1, want, out)
                }
            }
            Ty::Rec(fs) => {
                for (l, t) in fs {
                    Self::paths(Expr::RecordProj(b(e.clone()), l.clone()), t, depth - 1, want, out)
                }
            }
            _ => {}
        }
    }

    fn pick_var(&mut self, env: &Env, want: &dyn Fn(&Ty) -> bool) -> Option<(Expr, Ty)> {
        let c = self.candidates(env, want);
        if c.is_empty() { None } else { Some(c[self.rng.below(c.len())].clone()) }
    }

    fn lit(&mut self, t: &Ty) -> Expr {
        let n = self.rng.below(9);
        match t {
            Ty::U8 => Expr::U8(n as u8),
            Ty::U16 => Expr::U16(n as u16 * 3),
            Ty::U32 => Expr::U32(n as u32 * 5),
            Ty::U64 => Expr::U64(n as u64 * 7),
            Ty::Bool => Expr::Bool(n % 2 == 0),
            Ty::Char => Expr::AsChar(b(Expr::U32(b'a' as u32 + n as u32))),
            _ => unreachable!(),
        }
    }

    fn as_ty(&self, t: &Ty, e: Expr) -> Expr {
        match t {
            Ty::U8 => Expr::AsU8(b(e)),
            Ty::U16 => Expr::AsU16(b(e)),
            Ty::U32 => Expr::AsU32(b(e)),
            _ => Expr::AsU64(b(e)),
        }
    }

    fn numeric_var(&mut self, env: &Env) -> Option<(Expr, Ty)> {
        self.pick_var(env, &|t| t.is_num())
    }

    /// A u32/u64 expression whose value is at most `max`, never overflowing. (`max` + 1 must be > 0)
    fn small(&mut self, env: &Env, t: &Ty, max: u32) -> Expr {
        let lit = |t: &Ty, n: u32| match t {
            Ty::U8 => Expr::U8(n as u8),
            Ty::U16 => Expr::U16(n as u16),
            Ty::U32 => Expr::U32(n),
            _ => Expr::U64(n as u64),
        };
        if self.rng.chance(1, 5) {
            let n = self.rng.below(max as usize + 1) as u32;
            return lit(t, n);
        }
        if self.rng.chance(1, 6) {
            if let Some((s, _)) = self.pick_var(env, &|t| matches!(t, Ty::Seq(_))) {
                self.mark("SeqLength");
                let l = Expr::SeqLength(b(s));
                let r = Expr::Arith(Arith::Rem, b(l), b(Expr::U32(max + 1)));
                return if *t == Ty::U32 { r } else { self.as_ty(t, r) };
            }
        }
        match self.numeric_var(env) {
            Some((v, vt)) => {
                let m = match self.rng.below(3) {
                    0 if (max + 1).is_power_of_two() => Expr::Arith(Arith::BitAnd, b(v), b(lit(&vt, max))),
                    _ => Expr::Arith(Arith::Rem, b(v), b(lit(&vt, max + 1))),
                };
                if vt == *t { m } else { self.as_ty(t, m) }
            }
            None => {
                let n = self.rng.below(max as usize + 1) as u32;
                lit(t, n)
            }
        }
    }

    fn boolean(&mut self, env: &Env, d: usize) -> Expr {
        if d > 0 {
            match self.rng.below(8) {
                0 => {
                    self.mark("BoolAnd");
                    let (x, y) = (self.boolean(env, d - 1), self.boolean(env, d - 1));
                    return Expr::Arith(Arith::BoolAnd, b(x), b(y));
                }
                1 => {
                    self.mark("BoolOr");
                    let (x, y) = (self.boolean(env, d - 1), self.boolean(env, d - 1));
                    return Expr::Arith(Arith::BoolOr, b(x), b(y));
                }
                2 => {
                    self.mark("BoolNot");
                    let x = self.boolean(env, d - 1);
                    return Expr::Unary(doodle::UnaryOp::BoolNot, b(x));
                }
                _ => {}
            }
        }
        if self.rng.chance(1, 5) {
            if let Some((v, _)) = self.pick_var(env, &|t| *t == Ty::Bool) {
                return v;
            }
        }
        match self.numeric_var(env) {
            Some((v, t)) => {
                self.mark("IntRel");
                let rel = *self.rng.pick(&[
                    doodle::IntRel::Eq,
                    doodle::IntRel::Ne,
                    doodle::IntRel::Lt,
                    doodle::IntRel::Lte,
                    doodle::IntRel::Gt,
                    doodle::IntRel::Gte,
                ]);
                let rhs = match self.pick_var(env, &|u| *u == t) {
                    Some((y, _)) if self.rng.chance(1, 3) => y,
                    _ => self.lit(&t),
                };
                Expr::IntRel(rel, b(v), b(rhs))
            }
            None => Expr::Bool(self.rng.chance(3, 4)),
        }
    }

    /// A condition that is usually true.
    fn mostly_true(&mut self, env: &Env, v: Expr, t: &Ty) -> Expr {
        let mut e = env.clone();
        e.vars.clear();
        match t {
            Ty::U8 | Ty::U16 | Ty::U32 | Ty::U64 => {
                let l = self.lit(t);
                let rel = *self.rng.pick(&[doodle::IntRel::Ne, doodle::IntRel::Gte, doodle::IntRel::Ne, doodle::IntRel::Lt, doodle::IntRel::Lte]);
                let c = Expr::IntRel(rel, b(v.clone()), b(l));
                if self.rng.chance(1, 3) {
                    let l2 = self.lit(t);
                    Expr::Arith(Arith::BoolOr, b(c), b(Expr::IntRel(doodle::IntRel::Gt, b(v), b(l2))))
                } else {
                    c
                }
            }
            Ty::Seq(_) => {
                let n = self.rng.below(6) as u32;
                Expr::IntRel(doodle::IntRel::Lte, b(Expr::SeqLength(b(v))), b(Expr::U32(n + 2)))
            }
            Ty::Bool => v,
            Ty::Tup(ts) if !ts.is_empty() => {
                let i = self.rng.below(ts.len());
                let t = ts[i].clone();
                self.mostly_true(env, Expr::TupleProj(b(v), i), &t)
            }
            Ty::Rec(fs) if !fs.is_empty() => {
                let i = self.rng.below(fs.len());
                let (l, t) = fs[i].clone();
                self.mostly_true(env, Expr::RecordProj(b(v), l), &t)
            }
            Ty::Opt(_) => Expr::Match(
                b(v),
                vec![
                    (Pattern::Option(Some(b(Pattern::Wildcard))), Expr::Bool(true)),
                    (Pattern::Option(None), Expr::Bool(self.rng.chance(1, 2))),
                ],
            ),
            _ => self.boolean(env, 1),
        }
    }

    /// Total expression of the given (clean) type.
    fn expr(&mut self, env: &Env, t: &Ty, d: usize) -> Expr {
        if self.rng.chance(2, 5) || d == 0 {
            if let Some((e, _)) = self.pick_var(env, &|u| u == t) {
                return e;
            }
        }
        let dd = d.saturating_sub(1);
        if d > 0 && self.rng.chance(1, 7) && t.clean() {
            self.mark("Expr::Match(bool)");
            let c = self.boolean(env, 1);
            let (x, y) = (self.expr(env, t, dd), self.expr(env, t, dd));
            return expr_if_else(c, x, y);
        }
        if d > 0 && self.rng.chance(1, 9) && t.clean() {
            if let Some((v, vt)) = self.numeric_var(env) {
                self.mark("Expr::Match(num)");
                let lit_pat = |n: usize| match vt {
                    Ty::U8 => Pattern::U8(n as u8),
                    Ty::U16 => Pattern::U16(n as u16),
                    Ty::U32 => Pattern::U32(n as u32),
                    _ => Pattern::U64(n as u64),
                };
                let mut bs = vec![];
                let k = self.rng.range(1, 2);
                for i in 0..k {
                    bs.push((lit_pat(i), self.expr(env, t, dd)));
                }
                if self.rng.chance(1, 2) {
                    self.mark("Pattern::Int");
                    let hi = self.rng.range(3, 40);
                    bs.push((Pattern::Int(doodle::bounds::Bounds::new(2, hi)), self.expr(env, t, dd)));
                }
                if self.rng.chance(1, 2) {
                    let n = self.name("m");
                    let mut e2 = env.clone();
                    e2.vars.push(Bind { name: n.clone(), ty: vt.clone() });
                    bs.push((Pattern::Binding(n), self.expr(&e2, t, dd)));
                } else {
                    bs.push((Pattern::Wildcard, self.expr(env, t, dd)));
                }
                return Expr::Match(b(v), bs);
            }
        }
        if d > 0 && self.rng.chance(1, 9) && t.clean() {
            if let Some((v, Ty::Opt(inner))) = self.pick_var(env, &|t| matches!(t, Ty::Opt(x) if x.clean())) {
                self.mark("Expr::Match(option)");
                let n = self.name("o");
                let mut e2 = env.clone();
                e2.vars.push(Bind { name: n.clone(), ty: (*inner).clone() });
                let some = self.expr(&e2, t, dd);
                let none = self.expr(env, t, dd);
                return Expr::Match(
                    b(v),
                    vec![(Pattern::Option(Some(b(Pattern::Binding(n)))), some), (Pattern::Option(None), none)],
                );
            }
        }
        if d > 0 && self.rng.chance(1, 9) && t.clean() {
            if let Some((v, Ty::Var(vs))) = self.pick_var(env, &|t| matches!(t, Ty::Var(v) if v.iter().all(|x| x.1.clean()))) {
                self.mark("Expr::Match(variant)");
                let mut bs = vec![];
                for (l, vt) in vs.iter() {
                    let n = self.name("v");
                    let mut e2 = env.clone();
                    let pat = match vt {
                        Ty::Tup(ts) if ts.is_empty() => Pattern::UNIT,
                        Ty::Tup(ts) => {
                            let mut ps = vec![];
                            for t in ts {
                                let n = self.name("vt");
                                e2.vars.push(Bind { name: n.clone(), ty: t.clone() });
                                ps.push(Pattern::Binding(n));
                            }
                            Pattern::Tuple(ps)
                        }
                        _ => {
                            e2.vars.push(Bind { name: n.clone(), ty: vt.clone() });
                            Pattern::Binding(n)
                        }
                    };
                    bs.push((Pattern::Variant(l.clone(), b(pat)), self.expr(&e2, t, dd)));
                }
                return Expr::Match(b(v), bs);
            }
        }
        match t {
            Ty::U8 | Ty::U16 | Ty::U32 | Ty::U64 => self.num_expr(env, t, d),
            Ty::Bool => self.boolean(env, d.min(2)),
            Ty::Char => {
                self.mark("AsChar");
                match self.pick_var(env, &|t| *t == Ty::U8) {
                    Some((v, _)) => Expr::AsChar(b(v)),
                    None => self.lit(t),
                }
            }
            Ty::Tup(ts) => Expr::Tuple(ts.iter().map(|t| self.expr(env, t, dd)).collect()),
            Ty::Rec(fs) => Expr::Record(fs.iter().map(|(l, t)| (l.clone(), self.expr(env, t, dd))).collect()),
            Ty::Var(vs) => {
                let i = self.rng.below(vs.len());
                let (l, t) = vs[i].clone();
                Expr::Variant(l, b(self.expr(env, &t, dd)))
            }
            Ty::Opt(t) => {
                if self.rng.chance(1, 4) {
                    Expr::LiftOption(None)
                } else {
                    Expr::LiftOption(Some(b(self.expr(env, t, dd))))
                }
            }
            Ty::Seq(t) => self.seq_expr(env, t, d),
            Ty::Opaque => unreachable!(),
        }
    }

    fn num_expr(&mut self, env: &Env, t: &Ty, d: usize) -> Expr {
        if d == 0 || self.rng.chance(1, 4) {
            return match self.numeric_var(env) {
                Some((v, vt)) if vt == *t => v,
                Some((v, vt)) if width(&vt) < width(t) => self.as_ty(t, v),
                _ => self.lit(t),
            };
        }
        if self.rng.chance(1, 8) {
            if let Some((s, Ty::Seq(_))) = self.pick_var(env, &|x| matches!(x, Ty::Seq(e) if **e == *t)) {
                self.mark("LeftFold");
                let (a, x) = (self.name("ac"), self.name("el"));
                let arg = self.name("af");
                let mut e2 = env.clone();
                e2.vars.push(Bind { name: a.clone(), ty: t.clone() });
                e2.vars.push(Bind { name: x.clone(), ty: t.clone() });
                // bounded: the accumulator never exceeds the larger of its operands
                let body = match self.rng.below(3) {
                    0 => Expr::Arith(Arith::BitOr, b(Expr::Var(a.clone())), b(Expr::Var(x.clone()))),
                    1 => Expr::Arith(Arith::BitAnd, b(Expr::Var(a.clone())), b(Expr::Var(x.clone()))),
                    _ => expr_if_else(
                        Expr::IntRel(doodle::IntRel::Gt, b(Expr::Var(a.clone())), b(Expr::Var(x.clone()))),
                        Expr::Var(a.clone()),
                        Expr::Var(x.clone()),
                    ),
                };
                let lam = Expr::Lambda(
                    arg.clone(),
                    b(Expr::Match(
                        b(Expr::Var(arg)),
                        vec![(Pattern::Tuple(vec![Pattern::Binding(a), Pattern::Binding(x)]), body)],
                    )),
                );
                let init = self.lit(t);
                return Expr::LeftFold(b(lam), b(init), t.vt().unwrap().into(), b(s));
            }
        }
        let dd = d - 1;
        let k = match t {
            Ty::U8 => 100u32,
            _ => 200,
        };
        // x, y each bounded so that the combination fits
        let two = |g: &mut Self| (g.small(env, t, k), g.small(env, t, if *t == Ty::U8 { 50 } else { 150 }));
        match self.rng.below(10) {
            0 => {
                self.mark("Add");
                let (x, y) = two(self);
                Expr::Arith(Arith::Add, b(x), b(y))
            }
            1 => {
                self.mark("Sub");
                let y = self.small(env, t, 100);
                let x = self.lit100(t);
                Expr::Arith(Arith::Sub, b(x), b(y))
            }
            2 => {
                self.mark("Mul");
                let (x, y) = (self.small(env, t, 15), self.small(env, t, 15));
                Expr::Arith(Arith::Mul, b(x), b(y))
            }
            3 => {
                self.mark("Div");
                let x = self.num_expr(env, t, dd);
                let mut l = self.lit(t);
                if let Expr::U8(0) | Expr::U16(0) | Expr::U32(0) | Expr::U64(0) = l {
                    l = self.as_lit(t, 3);
                }
                Expr::Arith(Arith::Div, b(x), b(l))
            }
            4 => {
                self.mark("BitOr");
                let (x, y) = (self.num_expr(env, t, dd), self.num_expr(env, t, dd));
                Expr::Arith(Arith::BitOr, b(x), b(y))
            }
            5 => {
                self.mark("BitAnd");
                let (x, y) = (self.num_expr(env, t, dd), self.num_expr(env, t, dd));
                Expr::Arith(Arith::BitAnd, b(x), b(y))
            }
            6 => {
                self.mark("Shr");
                let x = self.num_expr(env, t, dd);
                let n = self.rng.below(7) as u32;
                Expr::Arith(Arith::Shr, b(x), b(self.as_lit(t, n)))
            }
            7 => {
                self.mark("Shl");
                let x = self.small(env, t, 15);
                let n = self.rng.below(4) as u32;
                Expr::Arith(Arith::Shl, b(x), b(self.as_lit(t, n)))
            }
            8 => {
                self.mark("Succ/Pred");
                let x = self.small(env, t, 60);
                let s = Expr::Unary(doodle::UnaryOp::IntSucc, b(x));
                if self.rng.chance(1, 3) { Expr::Unary(doodle::UnaryOp::IntPred, b(s)) } else { s }
            }
            _ => {
                if *t == Ty::U32 {
                    if let Some((s, _)) = self.pick_var(env, &|t| matches!(t, Ty::Seq(_))) {
                        self.mark("SeqLength");
                        return Expr::SeqLength(b(s));
                    }
                }
                if let Some((s, Ty::Seq(el))) = self.pick_var(env, &|x| matches!(x, Ty::Seq(e) if **e == *t)) {
                    // guarded indexing
                    self.mark("SeqIx");
                    let ix = self.rng.below(3) as u32;
                    let _ = el;
                    let alt = self.num_expr(env, t, dd);
                    return expr_if_else(
                        Expr::IntRel(doodle::IntRel::Gt, b(Expr::SeqLength(b(s.clone()))), b(Expr::U32(ix))),
                        Expr::SeqIx(b(s), b(Expr::U32(ix))),
                        alt,
                    );
                }
                self.small(env, t, 60)
            }
        }
    }

    fn as_lit(&self, t: &Ty, n: u32) -> Expr {
        match t {
            Ty::U8 => Expr::U8(n as u8),
            Ty::U16 => Expr::U16(n as u16),
            Ty::U32 => Expr::U32(n),
            _ => Expr::U64(n as u64),
        }
    }
    fn lit100(&mut self, t: &Ty) -> Expr {
        let n = 100 + self.rng.below(100) as u32;
        self.as_lit(t, n)
    }

    fn seq_expr(&mut self, env: &Env, t: &Ty, d: usize) -> Expr {
        let dd = d.saturating_sub(1);
        let have = self.pick_var(env, &|x| matches!(x, Ty::Seq(e) if **e == *t));
        match self.rng.below(9) {
            0 if d > 0 => {
                self.mark("Dup");
                let n = self.small(env, &Ty::U32, 4);
                let e = self.expr(env, t, dd);
                Expr::Dup(b(n), b(e))
            }
            1 if d > 0 => {
                self.mark("Append");
                let (x, y) = (self.seq_expr(env, t, dd), self.seq_expr(env, t, dd));
                Expr::Append(b(x), b(y))
            }
            2 if d > 0 && *t == Ty::U32 => {
                self.mark("EnumFromTo");
                let lo = self.rng.below(3) as u32;
                let n = self.small(env, &Ty::U32, 4);
                Expr::EnumFromTo(b(Expr::U32(lo)), b(Expr::Arith(Arith::Add, b(Expr::U32(lo)), b(n))))
            }
            3 if have.is_some() => {
                // guarded sub-sequence: [0, len/2)
                self.mark("SubSeq");
                let (s, _) = have.unwrap();
                let len = Expr::SeqLength(b(s.clone()));
                let half = Expr::Arith(Arith::Div, b(len), b(Expr::U32(2)));
                let start = if self.rng.chance(1, 2) { Expr::U32(0) } else { half.clone() };
                Expr::SubSeq(b(s), b(start), b(half))
            }
            4 if have.is_some() => {
                self.mark("SubSeqInflate");
                let (s, _) = have.unwrap();
                let n = self.small(env, &Ty::U32, 7);
                let alt = Expr::Seq(vec![self.expr(env, t, dd)]);
                expr_if_else(
                    Expr::IntRel(doodle::IntRel::Gt, b(Expr::SeqLength(b(s.clone()))), b(Expr::U32(0))),
                    Expr::SubSeqInflate(b(s), b(Expr::U32(0)), b(n)),
                    alt,
                )
            }
            5 if d > 0 => {
                if let Some((s, Ty::Seq(et))) = self.pick_var(env, &|x| matches!(x, Ty::Seq(e) if e.clean())) {
                    self.mark("FlatMap");
                    let x = self.name("fm");
                    let mut e2 = env.clone();
                    e2.vars.push(Bind { name: x.clone(), ty: (*et).clone() });
                    let n = self.rng.range(1, 2);
                    let body = Expr::Seq((0..n).map(|_| self.expr(&e2, t, dd)).collect());
                    return Expr::FlatMap(b(Expr::Lambda(x, b(body))), b(s));
                }
                Expr::Seq(vec![self.expr(env, t, dd)])
            }
            6 if d > 0 => {
                if let Some((s, Ty::Seq(et))) = self.pick_var(env, &|x| matches!(x, Ty::Seq(e) if e.is_num())) {
                    self.mark("FlatMapAccum");
                    let (arg, a, x) = (self.name("fa"), self.name("acc"), self.name("el"));
                    let mut e2 = env.clone();
                    e2.vars.push(Bind { name: a.clone(), ty: (*et).clone() });
                    e2.vars.push(Bind { name: x.clone(), ty: (*et).clone() });
                    let body = Expr::Tuple(vec![
                        Expr::Arith(Arith::BitOr, b(Expr::Var(a.clone())), b(Expr::Var(x.clone()))),
                        Expr::Seq(vec![self.expr(&e2, t, dd)]),
                    ]);
                    let lam = Expr::Lambda(
                        arg.clone(),
                        b(Expr::Match(
                            b(Expr::Var(arg)),
                            vec![(Pattern::Tuple(vec![Pattern::Binding(a), Pattern::Binding(x)]), body)],
                        )),
                    );
                    let init = self.lit(&et);
                    return Expr::FlatMapAccum(b(lam), b(init), et.vt().unwrap().into(), b(s));
                }
                Expr::Seq(vec![self.expr(env, t, dd)])
            }
            7 if d > 0 => {
                if let Some((s, Ty::Seq(et))) = self.pick_var(env, &|x| matches!(x, Ty::Seq(e) if e.clean())) {
                    self.mark("FlatMapList");
                    let (arg, l, x) = (self.name("fl"), self.name("lst"), self.name("el"));
                    let mut e2 = env.clone();
                    e2.vars.push(Bind { name: l.clone(), ty: Ty::Seq(b(t.clone())) });
                    e2.vars.push(Bind { name: x.clone(), ty: (*et).clone() });
                    let one = self.expr(&e2, t, dd);
                    let body = expr_if_else(
                        Expr::IntRel(doodle::IntRel::Lt, b(Expr::SeqLength(b(Expr::Var(l.clone())))), b(Expr::U32(6))),
                        Expr::Seq(vec![one]),
                        Expr::Seq(vec![]),
                    );
                    let lam = Expr::Lambda(
                        arg.clone(),
                        b(Expr::Match(
                            b(Expr::Var(arg)),
                            vec![(Pattern::Tuple(vec![Pattern::Binding(l), Pattern::Binding(x)]), body)],
                        )),
                    );
                    return Expr::FlatMapList(b(lam), t.vt().unwrap().into(), b(s));
                }
                Expr::Seq(vec![self.expr(env, t, dd)])
            }
            _ => {
                if let Some((s, _)) = have {
                    return s;
                }
                let n = self.rng.range(1, 3);
                Expr::Seq((0..n).map(|_| self.expr(env, t, dd)).collect())
            }
        }
    }

    fn small_ty(&mut self) -> Ty {
        match self.rng.below(8) {
            0 | 1 => Ty::U8,
            2 => Ty::U16,
            3 => Ty::U32,
            4 => Ty::Bool,
            5 => Ty::Tup(vec![Ty::U8, Ty::U16]),
            6 => Ty::Opt(b(Ty::U8)),
            _ => Ty::U64,
        }
    }

    // ---------------------------------------------------------------- formats

    fn leaf(&mut self, env: &Env) -> F {
        if env.bits {
            let bs = self.byteset(env);
            self.mark("Byte(bit)");
            return F { f: Format::Byte(bs), ty: Ty::U8, c: true };
        }
        match self.rng.below(16) {
            0..=5 => {
                self.mark("Byte");
                let bs = self.byteset(env);
                F { f: Format::Byte(bs), ty: Ty::U8, c: true }
            }
            6 => {
                self.mark("EndianParse");
                let (f, ty) = match self.rng.below(6) {
                    0 => (u16be(), Ty::U16),
                    1 => (u16le(), Ty::U16),
                    2 => (u32be(), Ty::U32),
                    3 => (u32le(), Ty::U32),
                    4 => (u64be(), Ty::U64),
                    _ => (u64le(), Ty::U64),
                };
                F { f, ty, c: true }
            }
            7 => F { f: u16be(), ty: Ty::U16, c: true },
            8 => {
                self.mark("Compute");
                let t = self.small_ty();
                let e = self.expr(env, &t, 2);
                F { f: compute(e), ty: t, c: false }
            }
            9 => {
                self.mark("Pos");
                F { f: Format::Pos, ty: Ty::U64, c: false }
            }
            10 => {
                self.mark("Align");
                let n = *self.rng.pick(&[2usize, 4, 3, 8]);
                F { f: Format::Align(n), ty: Ty::unit(), c: false }
            }
            11 => {
                self.mark("ascii");
                match self.rng.below(3) {
                    0 => F { f: ascii_char(), ty: Ty::U8, c: true },
                    1 => F { f: asciiz_string(), ty: Ty::Seq(b(Ty::U8)), c: true },
                    _ => F { f: ascii_alpha(), ty: Ty::U8, c: true },
                }
            }
            12 => {
                self.mark("signed");
                let f = match self.rng.below(3) {
                    0 => i8(),
                    1 => i16be(),
                    _ => i32be(),
                };
                F { f, ty: Ty::Opaque, c: true }
            }
            13 => {
                self.mark("is_bytes");
                let n = self.rng.range(1, 3);
                let bytes: Vec<u8> = (0..n).map(|_| self.rng.below(8) as u8).collect();
                F { f: is_bytes(&bytes), ty: Ty::Tup(vec![Ty::U8; n]), c: true }
            }
            14 => {
                self.mark("bitfields");
                F {
                    f: bit_fields_u8([
                        BitFieldKind::FlagBit("hi"),
                        BitFieldKind::BitsField { field_name: "mid", bit_width: 4 },
                        BitFieldKind::Reserved { bit_width: 1, check_zero: false },
                        BitFieldKind::BitsField { field_name: "lo", bit_width: 2 },
                    ]),
                    ty: Ty::Rec(vec![("hi".into(), Ty::Bool), ("mid".into(), Ty::U8), ("lo".into(), Ty::U8)]),
                    c: true,
                }
            }
            _ => F { f: u8(), ty: Ty::U8, c: true },
        }
    }

    /// A format that always consumes input and yields a plain byte-like value.
    fn consuming(&mut self, env: &Env, d: usize) -> F {
        for _ in 0..6 {
            let f = self.fmt(env, d);
            if f.c {
                return f;
            }
        }
        let bs = self.byteset(env);
        let f = self.fmt(env, 0);
        F { f: tuple([Format::Byte(bs), f.f]), ty: Ty::Tup(vec![Ty::U8, f.ty]), c: true }
    }

    /// The code generator wants a literal tuple format under a tuple-typed variant; a record stands in otherwise.
    fn variant_safe(&mut self, f: F) -> F {
        match (&f.ty, &f.f) {
            (Ty::Tup(_), Format::Tuple(_)) => f,
            (Ty::Tup(_), _) => F {
                f: record([("it", f.f)]),
                ty: Ty::Rec(vec![("it".into(), f.ty)]),
                c: f.c,
            },
            _ => f,
        }
    }

    fn branch_tagged(&mut self, env: &Env, tag: u8, d: usize) -> F {
        let inner = self.fmt(env, d);
        match self.rng.below(3) {
            0 => F { f: monad_seq(is_byte(tag), inner.f), ty: inner.ty, c: true },
            1 => {
                let n = self.name("t");
                let mut e2 = env.clone();
                e2.vars.push(Bind { name: n.clone(), ty: Ty::U8 });
                F { f: Format::LetFormat(b(is_byte(tag)), n, b(inner.f)), ty: inner.ty, c: true }
            }
            _ => F { f: tuple([is_byte(tag), inner.f]), ty: Ty::Tup(vec![Ty::U8, inner.ty]), c: true },
        }
    }

    fn record(&mut self, env: &Env, d: usize) -> F {
        self.mark("record");
        let n = self.rng.range(2, 4);
        let mut e = env.clone();
        let mut fields: Vec<(Option<(Label, bool)>, Format)> = vec![];
        let mut kept = vec![];
        let mut c = false;
        for i in 0..n {
            let sub = self.fmt(&e, d);
            c |= sub.c;
            match self.rng.below(8) {
                0 => fields.push((None, sub.f)),
                1 => {
                    let l = self.name("tmp");
                    e.vars.push(Bind { name: l.clone(), ty: sub.ty });
                    fields.push((Some((l, false)), sub.f));
                }
                _ => {
                    let l = self.field(i);
                    e.vars.push(Bind { name: l.clone(), ty: sub.ty.clone() });
                    kept.push((l.clone(), sub.ty));
                    fields.push((Some((l, true)), sub.f));
                }
            }
        }
        if kept.is_empty() {
            let sub = self.fmt(&e, 0);
            c |= sub.c;
            kept.push(("last".into(), sub.ty));
            fields.push((Some(("last".into(), true)), sub.f));
        }
        let all_kept = fields.iter().all(|(l, _)| matches!(l, Some((_, true))));
        let f = if all_kept && self.rng.chance(1, 2) {
            record(fields.into_iter().map(|(l, f)| (l.unwrap().0, f)))
        } else {
            record_ext(fields)
        };
        F { f, ty: Ty::Rec(kept), c }
    }

    fn fmt(&mut self, env: &Env, d: usize) -> F {
        if d == 0 || self.budget == 0 {
            return self.leaf(env);
        }
        self.budget -= 1;
        for _ in 0..4 {
            let k = self.rng.below(KINDS);
            if self.mask & (1 << (k % 64)) == 0 {
                continue;
            }
            if let Some(f) = self.composite(env, d - 1, k) {
                return f;
            }
        }
        self.leaf(env)
    }

    fn composite(&mut self, env: &Env, d: usize, k: usize) -> Option<F> {
        Some(match k {
            0 | 1 => {
                self.mark("Tuple");
                let n = self.rng.range(2, 3);
                let fs: Vec<F> = (0..n).map(|_| self.fmt(env, d)).collect();
                let c = fs.iter().any(|f| f.c);
                let ty = Ty::Tup(fs.iter().map(|f| f.ty.clone()).collect());
                F { f: tuple(fs.into_iter().map(|f| f.f)), ty, c }
            }
            2..=5 => self.record(env, d),
            6 => {
                self.mark("Sequence");
                let n = self.rng.range(2, 3);
                let fs: Vec<Format> = (0..n).map(|_| Format::Byte(self.byteset(env))).collect();
                F { f: seq(fs), ty: Ty::Seq(b(Ty::U8)), c: true }
            }
            7..=9 => {
                // tagged union
                if env.bits {
                    return None;
                }
                self.mark("Union(alts)");
                let n = self.rng.range(2, 4);
                let base = self.rng.below(3) as u8;
                let mut bs = vec![];
                let mut ty = vec![];
                for i in 0..n {
                    let br = self.branch_tagged(env, base + i as u8, d);
                    let br = self.variant_safe(br);
                    let l: Label = format!("{}{}", ["va", "vb", "Ok", "vd"][i], i).into();
                    ty.push((l.clone(), br.ty));
                    bs.push((l, br.f));
                }
                F { f: alts(bs), ty: Ty::Var(ty), c: true }
            }
            10 => {
                // union without variants: same type on all branches, first byte decides
                if env.bits {
                    return None;
                }
                self.mark("Union(plain)");
                let f1 = Format::Byte(ByteSet::from(0u8..=3));
                let f2 = monad_seq(is_byte(9), Format::Byte(ByteSet::full()));
                let f3 = monad_seq(is_bytes(&[7, 1]), Format::Byte(self.byteset(env)));
                let f4 = monad_seq(is_bytes(&[7, 2]), compute(Expr::U8(77)));
                F { f: union([f1, f2, f3, f4]), ty: Ty::U8, c: true }
            }
            11 => {
                // untagged deterministic union: lookahead has to tell branches apart
                self.mark("Union(lookahead)");
                let n = self.rng.range(2, 3);
                let mut bs = vec![];
                let mut ty = vec![];
                let mut c = true;
                for i in 0..n {
                    let br = self.fmt(env, d);
                    let br = self.variant_safe(br);
                    c &= br.c;
                    let l: Label = format!("u{i}").into();
                    ty.push((l.clone(), br.ty));
                    bs.push((l, br.f));
                }
                F { f: alts(bs), ty: Ty::Var(ty), c }
            }
            12 | 13 => {
                self.mark("UnionNondet");
                let n = self.rng.range(2, 3);
                let mut bs = vec![];
                let mut ty = vec![];
                let mut c = true;
                for i in 0..n {
                    let br = self.fmt(env, d);
                    let br = self.variant_safe(br);
                    c &= br.c;
                    let l: Label = format!("n{i}").into();
                    ty.push((l.clone(), br.ty));
                    bs.push((l, br.f));
                }
                F { f: alts_nondet(bs), ty: Ty::Var(ty), c }
            }
            14 => {
                self.mark("Repeat");
                let f = self.consuming(env, d.min(1));
                // usually terminated by something that tells the end apart
                if !env.bits && self.rng.chance(2, 3) {
                    let stop = self.rng.below(4) as u8;
                    let el = tuple([not_byte(stop), f.f]);
                    let t = Ty::Seq(b(Ty::Tup(vec![Ty::U8, f.ty])));
                    let l = self.name("rep");
                    let body = record_ext([(Some((l.clone(), true)), repeat(el)), (None, is_byte(stop))]);
                    F { f: body, ty: Ty::Rec(vec![(l, t)]), c: true }
                } else {
                    F { ty: Ty::Seq(b(f.ty)), f: repeat(f.f), c: false }
                }
            }
            15 => {
                self.mark("Repeat1");
                let f = self.consuming(env, d.min(1));
                F { ty: Ty::Seq(b(f.ty)), f: repeat1(f.f), c: true }
            }
            16..=18 => {
                self.mark("RepeatCount");
                let n = self.small(env, &Ty::U32, 5);
                let f = self.fmt(env, d);
                F { ty: Ty::Seq(b(f.ty)), f: repeat_count(n, f.f), c: false }
            }
            19 => {
                self.mark("RepeatBetween");
                let lo = self.rng.below(3) as u32;
                let hi = lo + self.rng.range(1, 3) as u32;
                let bs = self.byteset(env);
                let f = if self.rng.chance(2, 3) {
                    F { f: Format::Byte(bs), ty: Ty::U8, c: true }
                } else {
                    self.consuming(env, d.min(1))
                };
                F { ty: Ty::Seq(b(f.ty)), f: repeat_between(Expr::U32(lo), Expr::U32(hi), f.f), c: lo > 0 }
            }
            20 => {
                self.mark("RepeatUntilLast");
                let f = self.consuming(env, d.min(1));
                // generated predicates take the element by reference: project out of a record or tuple
                let f = if matches!(f.ty, Ty::Rec(_) | Ty::Tup(_) | Ty::Seq(_)) {
                    f
                } else {
                    F { f: record([("el", f.f)]), ty: Ty::Rec(vec![("el".into(), f.ty)]), c: f.c }
                };
                let x = self.name("rl");
                let mut e2 = env.clone();
                e2.vars.push(Bind { name: x.clone(), ty: f.ty.clone() });
                let cond = self.mostly_true(&e2, Expr::Var(x.clone()), &f.ty);
                F { ty: Ty::Seq(b(f.ty)), f: repeat_until_last(Expr::Lambda(x, b(cond)), f.f), c: true }
            }
            21 => {
                self.mark("RepeatUntilSeq");
                let f = self.consuming(env, d.min(1));
                let x = self.name("rs");
                let n = self.rng.range(1, 3) as u32;
                let cond = Expr::IntRel(doodle::IntRel::Gte, b(Expr::SeqLength(b(Expr::Var(x.clone())))), b(Expr::U32(n)));
                F { ty: Ty::Seq(b(f.ty)), f: repeat_until_seq(Expr::Lambda(x, b(cond)), f.f), c: true }
            }
            22 => {
                self.mark("AccumUntil");
                let bs = self.byteset(env);
                let (x, y) = (self.name("au"), self.name("av"));
                let (a, s) = (Expr::TupleProj(b(Expr::Var(x.clone())), 0), Expr::TupleProj(b(Expr::Var(x.clone())), 1));
                let n = self.rng.range(1, 4) as u32;
                let done = Expr::Arith(
                    Arith::BoolOr,
                    b(Expr::IntRel(doodle::IntRel::Gte, b(Expr::SeqLength(b(s))), b(Expr::U32(n)))),
                    b(Expr::IntRel(doodle::IntRel::Gt, b(a), b(Expr::U16(300)))),
                );
                let upd = Expr::Arith(
                    Arith::Add,
                    b(Expr::TupleProj(b(Expr::Var(y.clone())), 0)),
                    b(Expr::AsU16(b(Expr::TupleProj(b(Expr::Var(y.clone())), 1)))),
                );
                F {
                    f: accum_until(
                        Expr::Lambda(x, b(done)),
                        Expr::Lambda(y, b(upd)),
                        Expr::U16(0),
                        ValueType::Base(BaseType::U16),
                        Format::Byte(bs),
                    ),
                    ty: Ty::Tup(vec![Ty::U16, Ty::Seq(b(Ty::U8))]),
                    c: false,
                }
            }
            23 => {
                let (s, t) = self.pick_var(env, &|t| matches!(t, Ty::Seq(e) if e.clean()))?;
                self.mark("ForEach");
                let Ty::Seq(et) = t else { unreachable!() };
                let x = self.name("fe");
                let mut e2 = env.clone();
                e2.vars.push(Bind { name: x.clone(), ty: *et });
                let f = self.fmt(&e2, d);
                F { ty: Ty::Seq(b(f.ty)), f: for_each(s, x, f.f), c: false }
            }
            24 => {
                self.mark("Maybe");
                let c = self.boolean(env, 1);
                let f = self.fmt(env, d);
                F { ty: Ty::Opt(b(f.ty)), f: cond_maybe(c, f.f), c: false }
            }
            25 => {
                self.mark("Peek");
                let f = self.fmt(env, d);
                F { ty: f.ty, f: Format::Peek(b(f.f)), c: false }
            }
            26 => {
                self.mark("PeekNot");
                let f = self.fmt(env, d.min(1));
                let g = self.fmt(env, d);
                if f.c {
                    F { ty: g.ty, f: monad_seq(Format::PeekNot(b(f.f)), g.f), c: g.c }
                } else {
                    return None;
                }
            }
            27..=29 => {
                if env.bits {
                    return None;
                }
                self.mark("Slice");
                let n = self.small(env, &Ty::U32, 12);
                let mut e2 = env.clone();
                e2.in_slice = true;
                let f = self.fmt(&e2, d);
                match self.rng.below(4) {
                    0 => {
                        self.mark("EndOfInput(slice)");
                        let l = self.name("sl");
                        let body = Format::LetFormat(
                            b(f.f),
                            l.clone(),
                            b(monad_seq(Format::EndOfInput, compute(Expr::Var(l)))),
                        );
                        F { ty: f.ty, f: slice(n, body), c: false }
                    }
                    1 => {
                        self.mark("SkipRemainder");
                        F {
                            ty: Ty::Tup(vec![f.ty, Ty::unit()]),
                            f: slice(n, tuple([f.f, Format::SkipRemainder])),
                            c: false,
                        }
                    }
                    _ => F { ty: f.ty, f: slice(n, f.f), c: false },
                }
            }
            30 => {
                if env.bits {
                    return None;
                }
                self.mark("Bits");
                let mut e2 = env.clone();
                e2.bits = true;
                e2.views.clear();
                let f = self.consuming(&e2, d);
                F { ty: f.ty, f: Format::Bits(b(f.f)), c: true }
            }
            31 => {
                if env.bits {
                    return None;
                }
                self.mark("WithRelativeOffset");
                let off = self.small(env, &Ty::U32, 9);
                let f = self.fmt(env, d);
                let base = match self.pick_var(env, &|t| *t == Ty::U64) {
                    Some(_) if self.rng.chance(1, 3) => Some(Expr::U32(self.rng.below(4) as u32)),
                    _ => None,
                };
                F { ty: f.ty, f: with_relative_offset(base, off, f.f), c: false }
            }
            32 => {
                self.mark("Map");
                let f = self.fmt(env, d);
                if !f.ty.clean() {
                    return None;
                }
                let x = self.name("mp");
                let mut e2 = env.clone();
                e2.vars.push(Bind { name: x.clone(), ty: f.ty.clone() });
                let t = self.small_ty();
                let body = self.expr(&e2, &t, 2);
                F { ty: t, f: map(f.f, Expr::Lambda(x, b(body))), c: f.c }
            }
            33 | 34 => {
                let f = self.fmt(env, d);
                if !f.ty.clean() {
                    return None;
                }
                // generated code moves the checked value: it has to be Copy
                let f = if f.ty.copy() { f } else { self.leaf(env) };
                if !f.ty.clean() || !f.ty.copy() {
                    return None;
                }
                let x = self.name("wh");
                let cond = self.mostly_true(env, Expr::Var(x.clone()), &f.ty.clone());
                if self.rng.chance(2, 3) {
                    self.mark("Where(require)");
                    F { ty: f.ty, f: where_lambda(f.f, x, cond), c: f.c }
                } else {
                    self.mark("Where(expect)");
                    F { ty: f.ty, f: expect_lambda(f.f, x, cond), c: f.c }
                }
            }
            35 => {
                self.mark("Let");
                let t = if self.rng.chance(1, 2) { Ty::Seq(b(self.small_ty())) } else { self.small_ty() };
                let e = self.expr(env, &t, 2);
                let n = self.name("lt");
                let mut e2 = env.clone();
                e2.vars.push(Bind { name: n.clone(), ty: t });
                let f = self.fmt(&e2, d);
                F { ty: f.ty, f: Format::Let(n, b(e), b(f.f)), c: f.c }
            }
            36 => {
                let (v, t) = self.numeric_var(env)?;
                self.mark("Match");
                let pat = |n: usize| match t {
                    Ty::U8 => Pattern::U8(n as u8),
                    Ty::U16 => Pattern::U16(n as u16),
                    Ty::U32 => Pattern::U32(n as u32),
                    _ => Pattern::U64(n as u64),
                };
                let n = self.rng.range(1, 3);
                let mut bs = vec![];
                let mut ty = vec![];
                let mut c = true;
                for i in 0..n {
                    let f = self.fmt(env, d);
                    c &= f.c;
                    let l: Label = format!("c{i}").into();
                    ty.push((l.clone(), f.ty));
                    bs.push((pat(i), fmt_variant(l, f.f)));
                }
                let f = self.fmt(env, d);
                c &= f.c;
                ty.push(("other".into(), f.ty));
                bs.push((Pattern::Wildcard, fmt_variant("other", f.f)));
                F { f: fmt_match(v, bs), ty: Ty::Var(ty), c }
            }
            37 => {
                if !env.bits {
                    return None;
                }
                self.mark("Dynamic(huffman)");
                let n = self.name("huf");
                let table: &[u8] = *self.rng.pick(&[
                    &[1u8, 2, 3, 3][..],
                    &[2, 2, 2, 2][..],
                    &[1, 0, 2, 2][..],
                    &[3, 3, 3, 3, 3, 2, 4, 4][..],
                ]);
                let lens = Expr::Seq(table.iter().map(|n| Expr::U8(*n)).collect());
                let cnt = self.small(env, &Ty::U32, 4);
                F {
                    f: Format::Dynamic(n.clone(), DynFormat::Huffman(b(lens), None), b(repeat_count(cnt, Format::Apply(n)))),
                    ty: Ty::Seq(b(Ty::U16)),
                    c: false,
                }
            }
            38 => {
                if env.bits {
                    return None;
                }
                self.mark("DecodeBytes");
                let cnt = self.small(env, &Ty::U32, 9);
                let bs = self.byteset(env);
                let n = self.name("raw");
                let mut e2 = env.clone();
                e2.views.clear();
                let f = self.fmt(&e2, d);
                F {
                    ty: f.ty,
                    f: Format::LetFormat(
                        b(repeat_count(cnt, Format::Byte(bs))),
                        n.clone(),
                        b(Format::DecodeBytes(b(Expr::Var(n)), b(f.f))),
                    ),
                    c: false,
                }
            }
            39 => {
                self.mark("LiftedOption");
                let f = self.fmt(env, d);
                F { ty: Ty::Opt(b(f.ty)), f: Format::LiftedOption(Some(b(f.f))), c: f.c }
            }
            40 | 41 => {
                if env.bits {
                    return None;
                }
                let mut e2 = env.clone();
                let v = if !env.views.is_empty() && self.rng.chance(1, 2) {
                    self.rng.pick(&env.views).clone()
                } else {
                    let v = self.name("vw");
                    e2.views.push(v.clone());
                    v
                };
                let is_new = e2.views.len() > env.views.len();
                let ve = if self.rng.chance(1, 2) {
                    let off = self.small(env, &Ty::U32, 6);
                    ViewExpr::var(v.clone()).offset(off)
                } else {
                    ViewExpr::var(v.clone())
                };
                let (inner, ty) = match self.rng.below(5) {
                    0 => {
                        self.mark("CaptureBytes");
                        let n = self.small(env, &Ty::U32, 6);
                        (with_view(ve, capture_bytes(n)), Ty::Seq(b(Ty::U8)))
                    }
                    1 => {
                        self.mark("ReadArray");
                        let n = self.small(env, &Ty::U32, 4);
                        let k = *self.rng.pick(&[BaseKind::U8, BaseKind::U16BE, BaseKind::U32BE, BaseKind::U64BE]);
                        (with_view(ve, read_array(n, k)), Ty::Opaque)
                    }
                    2 => {
                        self.mark("ReifyView");
                        (reify_view(ve), Ty::Opaque)
                    }
                    _ => {
                        self.mark("ParseFromView");
                        let f = self.fmt(&e2, d);
                        (parse_from_view(ve, f.f), f.ty)
                    }
                };
                if is_new {
                    self.mark("LetView");
                    // something is also consumed under the view
                    let g = self.fmt(&e2, d.min(1));
                    F { ty: Ty::Tup(vec![ty, g.ty]), c: g.c, f: let_view(v, tuple([inner, g.f])) }
                } else {
                    F { ty, f: inner, c: false }
                }
            }
            42 => {
                self.mark("Permit");
                let f = self.fmt(env, d);
                if !f.ty.clean() {
                    return None;
                }
                let e = self.expr(env, &f.ty, 3);
                F { ty: f.ty, f: permit(f.f, e), c: false }
            }
            _ => {
                // reference to an earlier definition
                if self.defs.is_empty() {
                    return None;
                }
                let di = self.rng.below(self.defs.len());
                let df = self.defs[di].clone();
                if env.bits || df.size > self.budget + 4 || (df.views > 0 && env.views.is_empty()) {
                    return None;
                }
                self.mark("ItemVar");
                self.defs[di].called = true;
                let args: Vec<Expr> = df.args.iter().map(|t| self.expr(env, t, 1)).collect();
                let views: Vec<ViewExpr> =
                    (0..df.views).map(|_| ViewExpr::var(self.rng.pick(&env.views).clone())).collect();
                F { f: df.r.call_args_views(args, views), ty: df.ty, c: df.consumes }
            }
        })
    }

    pub fn build(mut self) -> Built {
        let ndefs = self.rng.range(0, 3);
        let dmax = self.rng.range(2, 4);
        for i in 0..ndefs {
            let mut env = Env::default();
            let mut args = vec![];
            for j in 0..self.rng.below(3) {
                let ty = self.rng.pick(&[Ty::U8, Ty::U16, Ty::U32, Ty::U64, Ty::Seq(b(Ty::U8)), Ty::Bool]).clone();
                let l: Label = format!("prm{i}x{j}").into();
                env.vars.push(Bind { name: l.clone(), ty: ty.clone() });
                args.push((l, ty));
            }
            let mut views = vec![];
            if self.rng.chance(1, 6) {
                let l: Label = "vparam".into();
                env.views.push(l.clone());
                views.push(l);
            }
            self.budget = self.rng.range(2, 7);
            let sz = self.budget;
            let f = self.fmt(&env, dmax);
            let nm: Label = format!("d{i}.{}", ["item", "header", "blk-x"][self.rng.below(3)]).into();
            let r = self.module.define_format_args_views(
                nm,
                args.iter().map(|(l, t)| (l.clone(), t.vt().unwrap())).collect(),
                views.clone(),
                f.f,
            );
            self.defs.push(Def {
                r,
                ty: f.ty,
                args: args.into_iter().map(|x| x.1).collect(),
                views: views.len(),
                consumes: f.c,
                size: sz,
                called: false,
            });
        }
        self.budget = self.rng.range(3, 14);
        let env = Env::default();
        let f = self.record(&env, dmax);
        // the type checker insists that a definition with parameters is called somewhere
        let mut extra = vec![("body0", f.f)];
        for di in 0..self.defs.len() {
            let df = self.defs[di].clone();
            if df.called {
                continue;
            }
            self.mark("ItemVar");
            let args: Vec<Expr> = df.args.iter().map(|t| self.expr(&env, t, 1)).collect();
            let f = if df.views > 0 {
                let views = (0..df.views).map(|_| ViewExpr::var("topview")).collect();
                let_view("topview", df.r.call_args_views(args, views))
            } else {
                df.r.call_args_views(args, vec![])
            };
            extra.push((["x0", "x1", "x2", "x3"][di], f));
        }
        let f = if extra.len() == 1 {
            F { f: extra.pop().unwrap().1, ty: f.ty, c: f.c }
        } else {
            F { f: record(extra), ty: Ty::Opaque, c: f.c }
        };
        let f = match self.rng.below(5) {
            0 => {
                self.mark("EndOfInput(top)");
                record([("body", f.f), ("end", Format::EndOfInput)])
            }
            1 => {
                self.mark("Phantom");
                let ph = self.leaf(&env);
                record([("body", f.f), ("ph", phantom(ph.f))])
            }
            _ => f.f,
        };
        let top = self.module.define_format("main", f);
        Built { module: self.module, top: top.call(), used: self.used }
    }
}

fn width(t: &Ty) -> usize {
    match t {
        Ty::U8 => 1,
        Ty::U16 => 2,
        Ty::U32 => 4,
        _ => 8,
    }
}

/// Ids from here on are directed modules.
pub const DIRECTED: u64 = 1_000_000;
/// Ids from here on are lookahead modules.
pub const LOOKAHEAD: u64 = 2_000_000;

/// The module with this pool id, without checking that it compiles.
pub fn module(seed: u64, ix: u64) -> Built {
    if ix >= LOOKAHEAD {
        crate::lookahead::build(seed, ix - LOOKAHEAD)
    } else if ix >= DIRECTED {
        crate::directed::build(ix - DIRECTED).expect("directed module exists")
    } else {
        Gen::new(seed, ix).build()
    }
}

/// Builds module `ix`; `None` if the draw was ill-typed or not deterministic enough to compile.
pub fn build(seed: u64, ix: u64) -> Option<Built> {
    let r = std::panic::catch_unwind(|| module(seed, ix));
    let bt = r.ok()?;
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        doodle::decoder::Compiler::compile_program(&bt.module, &bt.top).is_ok()
    }));
    match ok {
        Ok(true) => Some(bt),
        _ => None,
    }
}
