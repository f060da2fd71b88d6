//! The real decoders under test, behind one interface.

use crate::canon::canon_value;
use doodle::decoder::Program;
use doodle::error::DecodeErrorKind;
use doodle::prelude::Parser;
use doodle::read::ReadCtxt;
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind};

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    /// canonical value, units consumed
    Accept(String, usize),
    Reject(String),
    /// the decoder unwound: file and message (digits stripped)
    Crash(String),
}

impl Outcome {
    pub fn class(&self) -> &'static str {
        match self {
            Outcome::Accept(..) => "accept",
            Outcome::Reject(_) => "reject",
            Outcome::Crash(_) => "crash",
        }
    }
    pub fn accepted(&self) -> bool {
        matches!(self, Outcome::Accept(..))
    }
    pub fn brief(&self) -> String {
        match self {
            Outcome::Accept(v, n) => format!("accept, consumed {n}, value {}", v.chars().take(400).collect::<String>()),
            Outcome::Reject(e) => format!("reject: {}", e.chars().take(200).collect::<String>()),
            Outcome::Crash(e) => format!("crash: {}", e.chars().take(200).collect::<String>()),
        }
    }
}

thread_local! {
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Panics are observed, not printed.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or(i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let file = i.location().map(|l| l.file().rsplit('/').next().unwrap_or("").to_string()).unwrap_or_default();
        let text = format!("{file}: {}", msg.chars().take(160).collect::<String>());
        LAST.with(|l| *l.borrow_mut() = text);
        if std::env::var_os("SIM_V").is_some() {
            eprintln!("{i}");
        }
    }));
}

pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| strip_digits(&l.borrow())))
}

pub use crate::rng::strip_digits;

fn kind_name<V: Clone + std::fmt::Debug>(e: &DecodeErrorKind<V>) -> String {
    match e {
        DecodeErrorKind::Fail { offset, .. } => format!("Fail@{offset}"),
        DecodeErrorKind::BadWhere { .. } => "BadWhere".into(),
        DecodeErrorKind::Trailing { offset, .. } => format!("Trailing@{offset}"),
        DecodeErrorKind::Overrun { offset, .. } => format!("Overrun@{offset}"),
        DecodeErrorKind::Overbyte { offset } => format!("Overbyte@{offset}"),
        DecodeErrorKind::SeekPastEnd { .. } => "SeekPastEnd".into(),
        DecodeErrorKind::Unexpected { offset, .. } => format!("Unexpected@{offset}"),
        DecodeErrorKind::NoValidBranch { offset } => format!("NoValidBranch@{offset}"),
    }
}

pub fn run_interp(p: &Program, data: &[u8]) -> Outcome {
    match caught(|| p.run(ReadCtxt::new(data))) {
        Err(m) => Outcome::Crash(m),
        Ok(Err(e)) => Outcome::Reject(kind_name(&e.err)),
        Ok(Ok((v, rest))) => match caught(|| canon_value(&v)) {
            Ok(s) => Outcome::Accept(s, rest.offset),
            Err(m) => Outcome::Crash(m),
        },
    }
}

pub fn run_loc(p: &Program, data: &[u8]) -> Outcome {
    match caught(|| p.run_with_loc(ReadCtxt::new(data))) {
        Err(m) => Outcome::Crash(m),
        Ok(Err(e)) => Outcome::Reject(kind_name(&e)),
        Ok(Ok((v, rest))) => match caught(|| canon_value(&v.clone_into_value())) {
            Ok(s) => Outcome::Accept(s, rest.offset),
            Err(m) => Outcome::Crash(m),
        },
    }
}

/// Called by the emitted decoders (see `simgen`).
pub fn run_gen(
    data: &[u8],
    f: impl FnOnce(&mut Parser<'_>) -> Result<String, doodle::prelude::ParseError>,
) -> Outcome {
    let r = caught(|| {
        let mut p = Parser::new(data);
        let r = f(&mut p);
        r.map(|s| (s, p.get_current_offset()))
    });
    match r {
        Err(m) => Outcome::Crash(m),
        Ok(Err(e)) => {
            let s = format!("{e:?}");
            Outcome::Reject(s.split(['(', ' ']).next().unwrap_or("").to_string())
        }
        Ok(Ok((s, off))) => match crate::canon::canon_debug(&s) {
            Ok(c) => {
                let n = match off {
                    doodle::parser::offset::ByteOffset::Bytes(n) => n,
                    other => return Outcome::Crash(format!("decoder returned in bit mode: {other:?}")),
                };
                Outcome::Accept(c, n)
            }
            Err(m) => Outcome::Crash(format!("harness: uncanonical debug text: {m}")),
        },
    }
}
