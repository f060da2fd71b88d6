//! Modules that make lookahead work: alternatives over a small alphabet that overlap in their first bytes, nested and
//! repeated, so that the byte that tells them apart lies somewhere inside.

use crate::rng::Rng;
use doodle::byte_set::ByteSet;
use doodle::{Format, FormatModule};

struct G {
    r: Rng,
    m: FormatModule,
    n: usize,
    /// bytes 0..top are in play
    top: u8,
    /// combinators beyond sequences, choices and repeats
    rich: bool,
}

fn b<T>(x: T) -> Box<T> {
    Box::new(x)
}

impl G {
    fn set(&mut self) -> ByteSet {
        let top = self.top as usize;
        match self.r.below(10) {
            0..=4 => {
                let lo = self.r.below(top);
                let hi = self.r.range(lo, (lo + 2).min(top - 1));
                ByteSet::from(lo as u8..=hi as u8)
            }
            5..=7 => ByteSet::from([self.r.below(top) as u8]),
            8 => {
                let x = self.r.below(top) as u8;
                let y = self.r.below(top) as u8;
                ByteSet::from([x, y])
            }
            _ => {
                let x = self.r.below(top) as u8;
                !ByteSet::from([x])
            }
        }
    }
    fn rich(&mut self, d: usize) -> Format {
        use doodle::helper::*;
        use doodle::{Expr, Pattern};
        self.n += 1;
        let id = self.n;
        let x: doodle::Label = format!("x{id}").into();
        let byte = Format::Byte(self.set());
        let d = d.saturating_sub(1);
        match self.r.below(13) {
            0..=2 => {
                let k = self.r.below(2) as u8;
                let (p, q) = (self.word(d), self.word(d));
                let (p, q) = (Format::Variant(format!("m{id}p").into(), b(p)), Format::Variant(format!("m{id}q").into(), b(q)));
                Format::Match(b(Expr::U8(k)), vec![(Pattern::U8(0), p), (Pattern::Wildcard, q)])
            }
            3 => map(self.word(d), lambda("v", var("v"))),
            4 => expect_lambda(byte, "v", expr_lt(var("v"), Expr::U8(self.top / 2))),
            5 => Format::Let(x, b(Expr::U8(1)), b(self.word(d))),
            6 => Format::LetFormat(b(byte), x, b(self.word(d))),
            7 => compute(Expr::U8(1)),
            8 => Format::Peek(b(byte)),
            9 => Format::PeekNot(b(byte)),
            10 => Format::LiftedOption(Some(b(byte))),
            11 => Format::Sequence(vec![byte.clone(), byte]),
            _ => cond_maybe(Expr::Bool(self.r.chance(1, 2)), byte),
        }
    }
    fn item(&mut self, d: usize) -> Format {
        if self.rich && self.r.chance(1, 3) {
            return self.rich(d);
        }
        match self.r.below(if d == 0 { 12 } else { 20 }) {
            0..=8 => Format::Byte(self.set()),
            9 => Format::Repeat(b(Format::Byte(self.set()))),
            10 => Format::Repeat1(b(Format::Byte(self.set()))),
            11 => {
                let k = self.r.range(1, 3) as u32;
                Format::RepeatCount(b(doodle::Expr::U32(k)), b(Format::Byte(self.set())))
            }
            12..=15 => self.choice(d - 1),
            16 => Format::Repeat(b(self.word(d - 1))),
            17 => {
                let f = self.word(d - 1);
                self.n += 1;
                let n = format!("sub{}", self.n);
                self.m.define_format(n, f).call()
            }
            18 => {
                let a = Format::Byte(self.set());
                let w = self.word(d - 1);
                Format::MonadSeq(b(a), b(w))
            }
            _ => {
                let k = self.r.range(1, 3) as u32;
                let w = self.word(d - 1);
                Format::Slice(b(doodle::Expr::U32(k)), b(w))
            }
        }
    }
    fn word(&mut self, d: usize) -> Format {
        let n = self.r.range(1, 4);
        let fs = (0..n).map(|_| self.item(d)).collect();
        Format::Tuple(fs)
    }
    fn choice(&mut self, d: usize) -> Format {
        let n = self.r.range(2, 4);
        self.n += 1;
        let id = self.n;
        let fs = (0..n).map(|k| Format::Variant(format!("c{id}v{k}").into(), b(self.word(d)))).collect();
        if self.r.chance(1, 12) { Format::UnionNondet(fs) } else { Format::Union(fs) }
    }
}

/// modules from this index on use all combinators
pub const RICH: u64 = 5000;

pub fn build(seed: u64, ix: u64) -> crate::fmtgen::Built {
    let mut r = Rng::stream(seed, "lookahead", ix);
    let top = r.range(3, 7) as u8;
    let mut g = G { r, m: FormatModule::new(), n: 0, top, rich: ix >= RICH };
    let d = g.r.range(1, 2);
    let c = g.choice(d);
    let f = match g.r.below(6) {
        0 | 1 => c,
        2 => Format::Tuple(vec![c, Format::Byte(g.set())]),
        3 => Format::Tuple(vec![c, Format::EndOfInput]),
        4 => Format::Tuple(vec![Format::Repeat(b(c)), Format::Byte(g.set())]),
        _ => {
            let e = g.choice(0);
            Format::Tuple(vec![Format::Repeat(b(c)), e])
        }
    };
    let top = g.m.define_format("main", f);
    crate::fmtgen::Built { module: g.m, top: top.call(), used: Default::default() }
}
