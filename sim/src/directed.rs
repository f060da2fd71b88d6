//! Directed formats: every combinator, with its parameters taken from the input, in every context.
//!
//! The random generator draws deep modules with mild parameters; this family is the complement: small modules whose
//! counts, lengths, offsets and conditions are bytes of the image, so that zero, exact-fit and one-too-many all occur,
//! and whose combinators sit directly inside contexts that save, limit, abandon or restore the cursor.

use doodle::byte_set::ByteSet;
use doodle::helper::*;
use doodle::numeric::core::{BasicBinOp, BasicUnaryOp, MachineRep};
use doodle::numeric::helper as num;
use doodle::{BaseKind, BaseType, DynFormat, Expr, Format, FormatModule, Pattern, ValueType, ViewExpr};

fn b<T>(x: T) -> Box<T> {
    Box::new(x)
}
fn any() -> Format {
    Format::Byte(ByteSet::full())
}
fn low() -> Format {
    Format::Byte(ByteSet::from(0u8..=3))
}
/// binds the next byte as `l`
fn with(l: &'static str, f: Format) -> Format {
    Format::LetFormat(b(any()), l.into(), b(f))
}
fn v32(l: &'static str) -> Expr {
    as_u32(var(l))
}
fn zero32() -> Expr {
    Expr::U32(0)
}

pub const LEAVES: usize = 70;
/// leaves EXPR0 + 2 * e (+ 1: operands wrapped in Map, Union and Match values) compute expression `e`
pub const EXPR0: usize = 100;
/// the contexts the expression leaves are emitted in
pub const EXPR_CTXS: &[usize] = &[0, 5, 9, 15];
pub const CTXS: usize = 24;

/// `None`: not meaningful in bits-mode.
fn leaf(k: usize, bits: bool, m: &mut FormatModule) -> Option<Format> {
    let byteish = |f: Format| if bits { None } else { Some(f) };
    Some(match k {
        0 => any(),
        1 => low(),
        2 => repeat(low()),
        3 => repeat1(low()),
        4 => with("n", repeat_count(v32("n"), any())),
        5 => repeat_between(Expr::U32(1), Expr::U32(3), low()),
        6 => repeat_between(Expr::U32(0), Expr::U32(2), low()),
        7 => with("n", repeat_until_last(lambda("x", expr_eq(record_proj(var("x"), "e"), var("n"))), record([("e", any())]))),
        8 => with("n", repeat_until_seq(lambda("xs", expr_gte(seq_length(var("xs")), v32("n"))), any())),
        9 => with(
            "n",
            accum_until(
                lambda_tuple(["acc", "_seq"], expr_gte(var("acc"), as_u16(var("n")))),
                lambda_tuple(["acc", "x"], add(var("acc"), as_u16(var("x")))),
                Expr::U16(0),
                ValueType::Base(BaseType::U16),
                any(),
            ),
        ),
        10 => with(
            "n",
            accum_until(
                lambda_tuple(["_acc", "seq"], expr_gte(seq_length(var("seq")), v32("n"))),
                lambda_tuple(["acc", "x"], add(var("acc"), as_u16(var("x")))),
                Expr::U16(0),
                ValueType::Base(BaseType::U16),
                any(),
            ),
        ),
        11 => with(
            "n",
            Format::LetFormat(b(repeat_count(rem(v32("n"), Expr::U32(4)), any())), "xs".into(), b(for_each(var("xs"), "x", cond_maybe(expr_lt(var("x"), Expr::U8(5)), any())))),
        ),
        12 => with("n", cond_maybe(expr_eq(bit_and(var("n"), Expr::U8(1)), Expr::U8(1)), any())),
        13 => tuple([Format::Peek(b(any())), any()]),
        14 => tuple([Format::Peek(b(tuple([any(), low()]))), any()]),
        15 => monad_seq(Format::PeekNot(b(is_byte(1))), any()),
        16 => monad_seq(Format::PeekNot(b(tuple([any(), is_byte(1)]))), any()),
        17 => return byteish(with("n", slice(v32("n"), repeat(any())))),
        18 => return byteish(with("n", slice(v32("n"), any()))),
        19 => return byteish(with("n", slice(v32("n"), with("m", slice(v32("m"), repeat(any())))))),
        20 => return byteish(with("n", slice(v32("n"), tuple([any(), Format::SkipRemainder])))),
        21 => return byteish(with("n", slice(v32("n"), tuple([low(), Format::EndOfInput])))),
        22 => return byteish(Format::Bits(b(tuple([any(), any(), any()])))),
        23 => return byteish(with("n", Format::Bits(b(repeat_count(v32("n"), any()))))),
        24 => return byteish(with("n", slice(v32("n"), Format::Bits(b(tuple([any(), repeat(is_byte(1))])))))),
        25 => return byteish(with_relative_offset(None, zero32(), any())),
        26 => return byteish(with("n", with_relative_offset(None, v32("n"), any()))),
        27 => return byteish(with("n", with_relative_offset(None, v32("n"), Format::EndOfInput))),
        28 => return byteish(record_ext([
            (Some(("p", false)), pos32()),
            (Some(("n", true)), any()),
            (Some(("r", true)), with_relative_offset(Some(var("p")), v32("n"), tuple([any(), any()]))),
        ])),
        29 => return byteish(let_view("w", with("n", parse_from_view(ViewExpr::var("w").offset(v32("n")), any())))),
        30 => return byteish(let_view("w", with("n", with("m", with_view(ViewExpr::var("w").offset(v32("n")), capture_bytes(v32("m"))))))),
        31 => return byteish(let_view("w", with("n", with_view(ViewExpr::var("w"), read_array(v32("n"), BaseKind::U16BE))))),
        32 => return byteish(let_view("w", with("n", with_view(ViewExpr::var("w").offset(v32("n")), read_array(Expr::U32(1), BaseKind::U32BE))))),
        33 => return byteish(let_view("w", with("n", parse_from_view(ViewExpr::var("w").offset(v32("n")), Format::EndOfInput)))),
        34 => return byteish(let_view("w", with("n", parse_from_view(ViewExpr::var("w").offset(v32("n")), tuple([Format::Align(4), Format::Pos, any()]))))),
        35 => map(any(), lambda("x", add(as_u16(var("x")), Expr::U16(1)))),
        36 => where_lambda(any(), "x", expr_lt(var("x"), Expr::U8(4))),
        37 => with("n", where_lambda(any(), "x", expr_gte(var("x"), var("n")))),
        38 => with("n", fmt_match(var("n"), [
            (Pattern::U8(0), fmt_variant("z", any())),
            (Pattern::U8(1), fmt_variant("o", tuple([any(), any()]))),
            (Pattern::Int(doodle::bounds::Bounds::new(2, 4)), fmt_variant("few", Format::EMPTY)),
            (Pattern::Wildcard, fmt_variant("many", Format::Fail)),
        ])),
        39 => with("n", fmt_match(var("n"), [(Pattern::U8(0), any()), (Pattern::U8(1), low())])),
        40 => alts([("a", tuple([is_byte(0), any()])), ("b", tuple([is_byte(1), low(), any()])), ("c", is_byte(2))]),
        41 => alts([("a", is_bytes(&[0, 0])), ("b", is_bytes(&[0, 1])), ("c", tuple([is_byte(1), low()]))]),
        42 => alts_nondet([("a", tuple([any(), is_byte(1)])), ("b", tuple([any(), any(), is_byte(2)])), ("c", any())]),
        43 => alts_nondet([("a", tuple([any(), repeat_count(Expr::U32(2), low())])), ("b", tuple([any(), Format::PeekNot(b(is_byte(0))), any()])), ("c", any())]),
        44 => permit(map(tuple([any(), is_byte(1)]), lambda("x", tuple_proj(var("x"), 1))), Expr::U8(9)),
        45 => return byteish(with("n", Format::LetFormat(b(repeat_count(rem(v32("n"), Expr::U32(4)), any())), "raw".into(), b(Format::DecodeBytes(b(var("raw")), b(tuple([any(), any()]))))))),
        46 => return byteish(with("n", Format::LetFormat(b(repeat_count(rem(v32("n"), Expr::U32(4)), any())), "raw".into(), b(Format::DecodeBytes(b(var("raw")), b(repeat(low()))))))),
        47 => {
            let h = Format::Dynamic("h".into(), DynFormat::Huffman(b(Expr::Seq([1u8, 2, 3, 3].map(Expr::U8).to_vec())), None), b(repeat_count(Expr::U32(3), Format::Apply("h".into()))));
            if bits { h } else { Format::Bits(b(h)) }
        }
        48 => {
            if bits {
                return None;
            }
            let r = m.define_format_args("dir.sub", vec![("a".into(), ValueType::Base(BaseType::U8))], repeat_count(rem(v32("a"), Expr::U32(4)), any()));
            with("n", r.call_args(vec![var("n")]))
        }
        49 => return byteish(tuple([Format::Pos, any()])),
        50 => return byteish(tuple([Format::Align(4), any()])),
        51 => return byteish(tuple([any(), Format::SkipRemainder])),
        52 => return byteish(tuple([any(), Format::EndOfInput])),
        53 => Format::LiftedOption(Some(b(low()))),
        54 => optional(low()),
        55 => with("n", Format::Let("k".into(), b(add(as_u16(var("n")), Expr::U16(2))), b(tuple([compute(var("k")), any()])))),
        56 => expect_lambda(any(), "x", expr_lt(var("x"), Expr::U8(4))),
        57 => with("n", if_then_else(expr_gt(var("n"), Expr::U8(3)), any(), low())),
        58 => with("n", for_each(enum_from_to(Expr::U32(1), add(Expr::U32(1), rem(v32("n"), Expr::U32(4)))), "x", repeat_count(var("x"), low()))),
        // repeats of elements that are not where they were read from: computed ones, and ones that leave part of their window
        59 => with(
            "n",
            accum_until(
                lambda_tuple(["_acc", "seq"], expr_gte(seq_length(var("seq")), rem(v32("n"), Expr::U32(4)))),
                lambda_tuple(["acc", "x"], add(var("acc"), as_u16(var("x")))),
                Expr::U16(0),
                ValueType::Base(BaseType::U16),
                with("y", compute(bit_or(var("y"), Expr::U8(1)))),
            ),
        ),
        60 => return byteish(with(
            "n",
            accum_until(
                lambda_tuple(["acc", "_seq"], expr_gte(var("acc"), as_u16(rem(var("n"), Expr::U8(4))))),
                lambda_tuple(["acc", "x"], add(var("acc"), add(Expr::U16(1), as_u16(bit_and(var("x"), Expr::U8(1)))))),
                Expr::U16(0),
                ValueType::Base(BaseType::U16),
                slice(Expr::U32(2), any()),
            ),
        )),
        61 => return byteish(with("n", repeat_count(rem(v32("n"), Expr::U32(4)), slice(Expr::U32(2), any())))),
        62 => with("n", repeat_count(rem(v32("n"), Expr::U32(4)), with("y", compute(as_u16(var("y")))))),
        63 => repeat(Format::LetFormat(b(low()), "y".into(), b(compute(as_u16(var("y")))))),
        64 => return byteish(with("n", repeat_until_last(lambda("x", expr_gte(var("x"), var("n"))), slice(Expr::U32(2), any())))),
        65 => return byteish(with("n", repeat_until_seq(lambda("xs", expr_gte(seq_length(var("xs")), rem(v32("n"), Expr::U32(4)))), slice(Expr::U32(3), any())))),
        66 => return byteish(with("n", for_each(enum_from_to(Expr::U32(0), rem(v32("n"), Expr::U32(4))), "x", slice(add(var("x"), Expr::U32(1)), any())))),
        67 => repeat_between(Expr::U32(1), Expr::U32(3), Format::LetFormat(b(low()), "y".into(), b(compute(as_u16(var("y")))))),
        68 => return byteish(record([("p", slice(Expr::U32(2), any())), ("q", any()), ("r", slice(Expr::U32(3), low()))])),
        69 => return byteish(tuple([with("y", compute(var("y"))), slice(Expr::U32(2), any()), Format::Peek(b(any()))])),
        _ => return expression(k.checked_sub(EXPR0)?, m),
    })
}

fn context(k: usize, l: &mut dyn FnMut(bool) -> Option<Format>) -> Option<Format> {
    let rest = || repeat(any());
    Some(match k {
        0 => l(false)?,
        1 => tuple([any(), l(false)?, any()]),
        2 => with("c", tuple([slice(v32("c"), l(false)?), any()])),
        3 => with("c", tuple([slice(v32("c"), tuple([l(false)?, Format::EndOfInput])), any()])),
        4 => alts_nondet([("x", tuple([any(), l(false)?, is_byte(9)])), ("y", rest())]),
        5 => tuple([alts_nondet([("x", tuple([any(), l(false)?, is_byte(9)])), ("y", any())]), any()]),
        6 => alts_nondet([("x", record([("it", with("c", tuple([slice(v32("c"), tuple([any(), l(false)?])), is_byte(9)])))])), ("y", rest())]),
        7 => alts_nondet([("x", tuple([any(), alts_nondet([("p", tuple([l(false)?, is_byte(8)])), ("q", is_byte(9))])])), ("y", rest())]),
        8 => tuple([repeat(monad_seq(is_byte(7), l(false)?)), any()]),
        9 => with("c", tuple([repeat_count(rem(v32("c"), Expr::U32(4)), l(false)?), any()])),
        10 => tuple([Format::Peek(b(tuple([any(), l(false)?]))), any()]),
        11 => tuple([monad_seq(Format::PeekNot(b(tuple([any(), l(false)?]))), any()), rest()]),
        12 => tuple([permit(map(tuple([any(), l(false)?]), lambda("pv", Expr::U8(5))), Expr::U8(6)), rest()]),
        13 => with("c", let_view("vv", tuple([parse_from_view(ViewExpr::var("vv").offset(v32("c")), l(false)?), any()]))),
        14 => with("c", tuple([with_relative_offset(None, v32("c"), l(false)?), any()])),
        15 => with("c", Format::LetFormat(b(repeat_count(rem(v32("c"), Expr::U32(6)), any())), "raw0".into(), b(tuple([Format::DecodeBytes(b(var("raw0")), b(l(false)?)), any()])))),
        16 => with("c", with("d", tuple([slice(v32("c"), tuple([any(), slice(v32("d"), l(false)?), rest()])), any()]))),
        17 => tuple([Format::Bits(b(tuple([any(), l(true)?]))), any()]),
        18 => with("c", tuple([cond_maybe(expr_eq(var("c"), Expr::U8(1)), l(false)?), any()])),
        19 => alts([("x", tuple([is_byte(0), l(false)?])), ("y", tuple([is_byte(1), any(), l(false)?])), ("z", is_byte(2))]),
        20 => with("c", tuple([slice(v32("c"), Format::Bits(b(tuple([any(), l(true)?])))), any()])),
        21 => alts_nondet([("x", tuple([any(), Format::PeekNot(b(l(false)?)), any(), is_byte(9)])), ("y", rest())]),
        22 => alts_nondet([("x", record([("it", Format::Bits(b(tuple([any(), l(true)?, is_byte(1), is_byte(1)]))))])), ("y", tuple([any(), Format::Fail])), ("z", rest())]),
        23 => with("c", let_view("vv", with("d", tuple([slice(v32("c"), parse_from_view(ViewExpr::var("vv").offset(v32("d")), tuple([any(), l(false)?]))), any()])))),
        _ => return None,
    })
}

/// Directed module `ix` = leaf * 100 + context.
pub fn build(ix: u64) -> Option<crate::fmtgen::Built> {
    let (lf, cx) = ((ix / 100) as usize, (ix % 100) as usize);
    let mut module = FormatModule::new();
    let f = {
        let mut first: Option<Format> = None;
        let mut first_b: Option<Format> = None;
        let mut mk = |bits: bool| {
            let slot = if bits { &mut first_b } else { &mut first };
            if slot.is_none() {
                *slot = leaf(lf, bits, &mut module);
            }
            slot.clone()
        };
        context(cx, &mut mk)?
    };
    let top = module.define_format("main", f);
    Some(crate::fmtgen::Built { module, top: top.call(), used: Default::default() })
}

fn u8t() -> ValueType {
    ValueType::Base(BaseType::U8)
}
fn u16t() -> ValueType {
    ValueType::Base(BaseType::U16)
}
fn sum(seq: Expr) -> Expr {
    left_fold(lambda_tuple(["acc", "y"], add(var("acc"), as_u32(var("y")))), Expr::U32(0), ValueType::Base(BaseType::U32), seq)
}
fn as32(x: Expr) -> Expr {
    as_u32(x)
}

/// Expression `k / 2` over a, c: u8, w: u16, xs: [u8], o: option u8, v: {p(u8) | q((u8, u8)) | r}.
fn expression(k: usize, m: &mut FormatModule) -> Option<Format> {
    let wrapped = k % 2 == 1;
    let e = expr(k / 2, m)?;
    let byte = || if wrapped { map(any(), lambda("i", bit_and(var("i"), Expr::U8(255)))) } else { any() };
    let w16 = if wrapped {
        union([map(tuple([is_byte(0), any()]), lambda("i", Expr::U16Be(b(var("i"))))), map(tuple([byte_in(1..=255), any()]), lambda("i", Expr::U16Le(b(var("i")))))])
    } else {
        u16be()
    };
    let vs = alts([("p", monad_seq(is_byte(0), byte())), ("q", tuple([is_byte(1), byte(), byte()])), ("r", byte_in(2..=255))]);
    Some(record_ext([
        (Some(("a", true)), byte()),
        (Some(("c", true)), byte()),
        (Some(("w", true)), w16),
        (Some(("xs", true)), repeat_count(rem(as_u32(var("c")), Expr::U32(5)), byte())),
        (Some(("o", true)), cond_maybe(expr_eq(bit_and(var("a"), Expr::U8(1)), Expr::U8(1)), byte())),
        (Some(("v", true)), vs),
        (Some(("res", true)), compute(e)),
    ]))
}

fn expr(k: usize, _m: &mut FormatModule) -> Option<Expr> {
    let a = || var("a");
    let c = || var("c");
    let w = || var("w");
    let xs = || var("xs");
    let range = || enum_from_to(Expr::U32(2), add(Expr::U32(2), as32(bit_and(c(), Expr::U8(7)))));
    let nv = |n: &'static str| num::num_var(n);
    let small = |x: Expr| bit_and(x, Expr::U8(7));
    let to_num = |e: doodle::numeric::core::Expr| numeric(e);
    Some(match k {
        0 => add(a(), c()),
        1 => sub(a(), c()),
        2 => mul(a(), c()),
        3 => div(a(), c()),
        4 => rem(a(), c()),
        5 => bit_and(a(), c()),
        6 => bit_or(a(), c()),
        7 => shl(a(), small(c())),
        8 => shr(a(), small(c())),
        9 => shl(a(), c()),
        10 => shr(w(), as_u16(c())),
        11 => add(w(), as_u16(a())),
        12 => sub(w(), as_u16(a())),
        13 => mul(w(), w()),
        14 => mul(as32(w()), as32(w())),
        15 => sub(as_u64(a()), as_u64(c())),
        16 => and(expr_lt(a(), c()), expr_gt(w(), as_u16(c()))),
        17 => or(expr_lte(a(), c()), expr_gte(w(), as_u16(c()))),
        18 => Expr::Tuple(vec![expr_eq(a(), c()), expr_ne(a(), c()), expr_lt(a(), c()), expr_lte(a(), c()), expr_gt(a(), c()), expr_gte(a(), c()), expr_not(expr_eq(a(), c()))]),
        19 => succ(a()),
        20 => pred(a()),
        21 => as_u8(w()),
        22 => Expr::Tuple(vec![as_u16(a()), as_u32(a()), as_u64(w()), as_u16(w())]),
        23 => as_char(a()),
        24 => as_char(as_u32(w())),
        25 => Expr::Tuple(vec![Expr::U16Be(b(pair(a(), c()))), Expr::U16Le(b(pair(a(), c())))]),
        26 => Expr::Tuple(vec![
            Expr::U32Be(b(Expr::Tuple(vec![a(), c(), Expr::U8(1), Expr::U8(200)]))),
            Expr::U32Le(b(Expr::Tuple(vec![a(), c(), Expr::U8(1), Expr::U8(200)]))),
        ]),
        27 => Expr::Tuple(vec![
            Expr::U64Be(b(Expr::Tuple(vec![a(), c(), Expr::U8(1), Expr::U8(2), Expr::U8(3), Expr::U8(4), a(), c()]))),
            Expr::U64Le(b(Expr::Tuple(vec![a(), c(), Expr::U8(1), Expr::U8(2), Expr::U8(3), Expr::U8(4), a(), c()]))),
        ]),
        28 => seq_length(xs()),
        29 => sub_seq(xs(), as32(small(a())), Expr::U32(2)),
        30 => sub_seq(xs(), Expr::U32(1), as32(small(a()))),
        31 => index_unchecked(xs(), as32(small(a()))),
        32 => index_checked(xs(), as32(small(a()))),
        33 => sub_seq_inflate(xs(), as32(small(a())), Expr::U32(5)),
        34 => sub_seq_inflate(xs(), Expr::U32(0), as32(small(a()))),
        35 => flat_map(lambda("y", Expr::Seq(vec![var("y"), bit_and(var("y"), a())])), xs()),
        36 => flat_map(lambda("y", expr_if_else(expr_lt(var("y"), Expr::U8(4)), Expr::Seq(vec![]), singleton(var("y")))), xs()),
        37 => flat_map_accum(lambda_tuple(["acc", "y"], pair(add(var("acc"), Expr::U16(1)), singleton(add(var("acc"), as_u16(var("y")))))), Expr::U16(7), u16t(), xs()),
        38 => flat_map_list(lambda_tuple(["ls", "y"], expr_if_else(expr_eq(rem(seq_length(var("ls")), Expr::U32(2)), Expr::U32(0)), Expr::Seq(vec![var("y")]), Expr::Seq(vec![var("y"), Expr::U8(0)]))), u8t(), xs()),
        39 => find_by_key(false, |x| bit_and(x, Expr::U8(3)), bit_and(a(), Expr::U8(3)), xs()),
        40 => find_by_key(true, |x| x, a(), Expr::Seq([0u8, 1, 3, 4, 7, 9, 200].map(Expr::U8).to_vec())),
        41 => find_by_key(true, |x| tuple_proj(x, 0), a(), Expr::Seq([(1u8, 5u8), (2, 6), (4, 7), (9, 8)].map(|(x, y)| pair(Expr::U8(x), Expr::U8(y))).to_vec())),
        42 => enum_from_to(as32(small(a())), as32(small(c()))),
        43 => sum(xs()),
        44 => left_fold(lambda_tuple(["acc", "y"], bit_or(shl(var("acc"), Expr::U16(1)), as_u16(bit_and(var("y"), Expr::U8(1))))), Expr::U16(1), u16t(), xs()),
        45 => dup(as32(small(a())), c()),
        46 => Expr::Append(b(xs()), b(Expr::Seq(vec![a(), c()]))),
        47 => Expr::Append(b(Expr::Seq(vec![a(), c()])), b(xs())),
        48 => Expr::Append(b(xs()), b(xs())),
        49 => Expr::LiftOption(Some(b(a()))),
        50 => expr_match(var("o"), [(pat_some(Pattern::U8(3)), Expr::U8(1)), (pat_some(bind("z")), var("z")), (pat_none(), Expr::U8(0))]),
        51 => expr_option_map_or(a(), |x| bit_or(x, Expr::U8(1)), var("o")),
        52 => expr_match(var("v"), [
            (Pattern::variant("p", Pattern::U8(3)), Expr::U8(90)),
            (Pattern::variant("p", bind("z")), var("z")),
            (Pattern::variant("q", Pattern::Tuple(vec![Pattern::Wildcard, bind("y"), bind("z")])), bit_or(var("y"), var("z"))),
            (Pattern::variant("r", Pattern::Wildcard), Expr::U8(91)),
        ]),
        53 => expr_match(var("v"), [
            (Pattern::variant("q", Pattern::Tuple(vec![Pattern::Wildcard, Pattern::U8(1), bind("z")])), var("z")),
            (Pattern::variant("q", Pattern::Tuple(vec![Pattern::Wildcard, bind("y"), Pattern::U8(2)])), var("y")),
            (Pattern::Wildcard, Expr::U8(91)),
        ]),
        54 => expr_match(a(), [(Pattern::U8(0), Expr::U16(1)), (Pattern::Int(doodle::bounds::Bounds::new(1, 4)), Expr::U16(2)), (Pattern::Int(doodle::bounds::Bounds::at_least(250)), Expr::U16(3)), (bind("z"), as_u16(var("z")))]),
        55 => expr_match(w(), [(Pattern::U16(3), Expr::U8(1)), (Pattern::U16(0x0300), Expr::U8(2)), (Pattern::Wildcard, Expr::U8(3))]),
        56 => expr_match(pair(a(), c()), [
            (Pattern::Tuple(vec![Pattern::U8(0), Pattern::Wildcard]), Expr::U8(1)),
            (Pattern::Tuple(vec![Pattern::Wildcard, Pattern::U8(0)]), Expr::U8(2)),
            (Pattern::Tuple(vec![bind("y"), bind("z")]), bit_and(var("y"), var("z"))),
        ]),
        57 => expr_match(xs(), [
            (Pattern::Seq(vec![]), Expr::U8(0)),
            (Pattern::Seq(vec![bind("z")]), var("z")),
            (Pattern::Seq(vec![Pattern::U8(1), bind("z")]), var("z")),
            (Pattern::Wildcard, Expr::U8(99)),
        ]),
        58 => expr_if_else(expr_eq(a(), c()), w(), as_u16(c())),
        59 => Expr::Destructure(b(Expr::Tuple(vec![a(), w(), c()])), Pattern::Tuple(vec![bind("x"), bind("y"), bind("z")]), b(Expr::Tuple(vec![var("z"), var("y"), var("x")]))),
        60 => record_proj(Expr::Record(vec![("m".into(), a()), ("n".into(), w())]), "n"),
        61 => tuple_proj(Expr::Tuple(vec![a(), w(), c()]), 1),
        62 => Expr::Record(vec![("m".into(), a()), ("n".into(), Expr::Seq(vec![w(), Expr::U16(3)]))]),
        63 => Expr::Seq(vec![a(), c(), a()]),
        64 => expr_opt_if(expr_lt(a(), c()), a()),
        65 => is_within(a(), doodle::bounds::Bounds::new(2, 5)),
        66 => expr_max(a(), c()),
        67 => seq_any(|x| expr_eq(x, Expr::U8(1)), xs()),
        68 => concat(flat_map(lambda("y", singleton(Expr::Seq(vec![var("y"), Expr::U8(8)]))), xs())),
        69 => to_num(num::binop_with_rep(BasicBinOp::Add, Some(MachineRep::U16), nv("a"), nv("c"))),
        70 => to_num(num::binop_with_rep(BasicBinOp::Sub, Some(MachineRep::I16), nv("a"), nv("c"))),
        71 => to_num(num::binop_with_rep(BasicBinOp::Mul, Some(MachineRep::U8), nv("a"), nv("c"))),
        72 => to_num(num::binop_with_rep(BasicBinOp::Div, Some(MachineRep::U8), nv("a"), nv("c"))),
        73 => to_num(num::binop_with_rep(BasicBinOp::Rem, Some(MachineRep::U8), nv("a"), nv("c"))),
        74 => to_num(num::unary_with_rep(BasicUnaryOp::Negate, Some(MachineRep::I16), nv("a"))),
        75 => to_num(num::unary_with_rep(BasicUnaryOp::IntSucc, Some(MachineRep::U8), nv("a"))),
        76 => to_num(num::unary_with_rep(BasicUnaryOp::IntPred, Some(MachineRep::U8), nv("a"))),
        77 => to_num(num::cast(MachineRep::I8, nv("a"))),
        78 => to_num(num::cast_bitwise(MachineRep::I8, nv("a"))),
        79 => to_num(num::cast_bitwise(MachineRep::I16, nv("w"))),
        80 => to_num(num::unary_with_rep(BasicUnaryOp::AbsVal, Some(MachineRep::I8), num::cast_bitwise(MachineRep::I8, nv("a")))),
        81 => to_num(num::binop_with_rep(BasicBinOp::Div, Some(MachineRep::I16), num::cast_bitwise(MachineRep::I16, nv("w")), num::cast(MachineRep::I16, nv("c")))),
        82 => to_num(num::binop_with_rep(BasicBinOp::Rem, Some(MachineRep::I16), num::cast_bitwise(MachineRep::I16, nv("w")), num::cast(MachineRep::I16, nv("c")))),
        83 => to_num(num::cast(MachineRep::U8, nv("w"))),
        84 => to_num(num::cast(MachineRep::U32, num::cast_bitwise(MachineRep::I8, nv("a")))),
        85 => to_num(num::binop_auto(BasicBinOp::Add, nv("a"), num::lift_const(3u8))),
        86 => expr_lt(to_num(num::cast_bitwise(MachineRep::I8, nv("a"))), to_num(num::cast_bitwise(MachineRep::I8, nv("c")))),
        87 => dup(as32(small(a())), xs()),
        88 => enum_from_to(small(a()), c()),
        89 => find_by_key(false, |x| x, c(), xs()),
        90 => sub_seq_inflate(range(), as32(small(a())), Expr::U32(5)),
        91 => sub_seq_inflate(range(), Expr::U32(0), as32(small(a()))),
        92 => sub_seq(range(), as32(small(a())), Expr::U32(2)),
        93 => Expr::Append(b(range()), b(Expr::Seq(vec![as32(a()), as32(c())]))),
        94 => Expr::Append(b(Expr::Seq(vec![as32(a()), as32(c())])), b(range())),
        95 => Expr::Append(b(range()), b(enum_from_to(Expr::U32(0), as32(small(a()))))),
        96 => flat_map(lambda("y", Expr::Seq(vec![var("y"), add(var("y"), as32(a()))])), range()),
        97 => left_fold(lambda_tuple(["acc", "y"], add(mul(var("acc"), Expr::U32(3)), var("y"))), Expr::U32(1), ValueType::Base(BaseType::U32), range()),
        98 => flat_map_accum(lambda_tuple(["acc", "y"], pair(add(var("acc"), Expr::U16(1)), singleton(add(as32(var("acc")), var("y"))))), Expr::U16(7), u16t(), range()),
        99 => flat_map_list(lambda_tuple(["ls", "y"], expr_if_else(expr_eq(rem(seq_length(var("ls")), Expr::U32(2)), Expr::U32(0)), Expr::Seq(vec![var("y")]), Expr::Seq(vec![var("y"), Expr::U32(0)]))), ValueType::Base(BaseType::U32), range()),
        100 => find_by_key(true, |x| x, as32(small(a())), range()),
        101 => seq_length(range()),
        102 => index_unchecked(range(), as32(small(a()))),
        103 => index_checked(range(), as32(small(a()))),
        104 => expr_match(range(), [
            (Pattern::Seq(vec![]), Expr::U32(77)),
            (Pattern::Seq(vec![bind("z")]), var("z")),
            (Pattern::Seq(vec![Pattern::U32(2), bind("z")]), add(var("z"), Expr::U32(40))),
            (Pattern::Wildcard, Expr::U32(99)),
        ]),
        105 => dup(as32(small(a())), range()),
        106 => find_by_key(false, |x| x, as32(small(a())), range()),
        107 => sub_seq_inflate(sub_seq(range(), Expr::U32(0), Expr::U32(2)), as32(bit_and(a(), Expr::U8(1))), Expr::U32(4)),
        108 => find_by_key(true, |x| bit_and(x, Expr::U8(254)), bit_and(a(), Expr::U8(15)), Expr::Seq((0u8..12).map(|i| Expr::U8(2 * i)).collect())),
        109 => find_by_key(true, |x| x, w(), Expr::Seq([0u16, 1, 2, 255, 256, 257, 0x7fff, 0x8000, 0xfffe, 0xffff].map(Expr::U16).to_vec())),
        _ => return None,
    })
}
pub const EXPRS: usize = 110;
