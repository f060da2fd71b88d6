//! S10: a decoded value inhabits the type its format was given.
use doodle::decoder::Value;
use doodle::numeric::core::NumRep;
use doodle::{BaseType, ValueType};

#[derive(Default)]
pub struct TypeCheck {
    pub judged: u64,
    pub open: u64,
    /// parts that are numbers of a type left open
    pub holes: std::collections::HashSet<String>,
    pub bad: Option<(&'static str, String)>,
}

fn short(v: &Value) -> String {
    format!("{v:?}").chars().take(60).collect()
}

pub fn inhabits(v: &Value, t: &ValueType, path: &str, c: &mut TypeCheck) {
    if c.bad.is_some() {
        return;
    }
    match v {
        Value::Mapped(_, v) | Value::Branch(_, v) | Value::Permit(Ok(v)) | Value::Permit(Err(Some(v))) => return inhabits(v, t, path, c),
        Value::Permit(Err(None)) => return c.open += 1,
        _ => {}
    }
    if matches!(t, ValueType::Any) {
        return c.open += 1;
    }
    let wrong = |what| Some((what, format!("{path}: {} is not of type {}", short(v), format!("{t:?}").chars().take(120).collect::<String>())));
    c.judged += 1;
    match (v, t) {
        (Value::Bool(_), ValueType::Base(BaseType::Bool))
        | (Value::U8(_), ValueType::Base(BaseType::U8))
        | (Value::U16(_), ValueType::Base(BaseType::U16))
        | (Value::U32(_), ValueType::Base(BaseType::U32))
        | (Value::U64(_), ValueType::Base(BaseType::U64))
        | (Value::Char(_), ValueType::Base(BaseType::Char))
        | (Value::View { .. }, ValueType::ViewObj)
        | (Value::PhantomData, ValueType::PhantomData(_))
        | (Value::Numeric(_), ValueType::NumericHole)
        | (Value::Option(None), ValueType::Option(_)) => {}
        (Value::U8(_) | Value::U16(_) | Value::U32(_) | Value::U64(_), ValueType::NumericHole) => {
            c.holes.insert(path.into());
        }
        (Value::U64(_), ValueType::Base(BaseType::U8 | BaseType::U16 | BaseType::U32)) if c.holes.contains(path) => {
            c.bad = wrong("a stream position is 64 bits wide whatever type the format gives it")
        }
        (Value::Numeric(n), t) => {
            if !matches!(n.1, NumRep::Auto) && ValueType::from(n.1) != *t {
                c.bad = wrong("a number has another type than the format gives it");
            }
        }
        (Value::Usize(_), ValueType::Base(BaseType::U8 | BaseType::U16 | BaseType::U32 | BaseType::U64)) => c.bad = wrong("an element of an integer range has no type of its own"),
        (Value::EnumFromTo(_), ValueType::Seq(t)) => {
            if !matches!(**t, ValueType::Any | ValueType::Base(BaseType::U8 | BaseType::U16 | BaseType::U32 | BaseType::U64)) {
                c.bad = wrong("a range is not of the type that the format gives it");
            }
        }
        (Value::Option(Some(v)), ValueType::Option(t)) => inhabits(v, t, path, c),
        (Value::Tuple(vs), ValueType::Tuple(ts)) if vs.len() == ts.len() => {
            for (k, (v, t)) in vs.iter().zip(ts).enumerate() {
                inhabits(v, t, &format!("{path}.{k}"), c);
            }
        }
        (Value::Record(vs), ValueType::Record(ts)) if vs.len() == ts.len() && vs.iter().zip(ts).all(|(a, b)| a.0 == b.0) => {
            for ((l, v), (_, t)) in vs.iter().zip(ts) {
                inhabits(v, t, &format!("{path}.{l}"), c);
            }
        }
        (Value::Variant(l, v), ValueType::Union(ts)) => match ts.get(l) {
            Some(t) => inhabits(v, t, &format!("{path}/{l}"), c),
            None => c.bad = wrong("a variant is none of those of its type"),
        },
        (Value::Seq(vs), ValueType::Seq(t)) => {
            for (k, v) in vs.into_iter().enumerate() {
                if let (Value::U8(_), ValueType::Base(BaseType::U8)) = (v, &**t) {
                    c.judged += 1;
                    continue;
                }
                inhabits(v, t, &format!("{path}[{k}]"), c);
            }
        }
        (_, ValueType::Base(_)) => c.bad = wrong("a base value has another type than the format gives it"),
        _ => c.bad = wrong("a part of the value has another shape than its type"),
    }
}
