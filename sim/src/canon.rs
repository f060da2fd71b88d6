//! Engine-neutral rendering of decoded values.
//!
//! The interpreters yield `Value`s; the generated decoders yield Rust values that are only observable through
//! `Debug`. Both are reduced to one canonical text in which presentation artefacts (which union branch index was taken,
//! the pre-image of a map, type names, identifier sanitisation) are gone and everything observable is kept.

use doodle::decoder::Value;
use doodle::decoder::seq_kind::SeqKind;

/// marks a typed number outside the range of its own representation
pub const OUT_OF_RANGE: &str = "!range ";

pub fn clean_ident(s: &str, out: &mut String) {
    let s = s.strip_prefix("r#").unwrap_or(s);
    for c in s.chars() {
        if c.is_ascii_alphanumeric() || c == '_' {
            out.push(c)
        } else {
            out.push('_')
        }
    }
}

pub fn canon_value(v: &Value) -> String {
    let mut s = String::new();
    value(v, &mut s);
    s
}

fn value(v: &Value, out: &mut String) {
    use std::fmt::Write;
    match v {
        Value::Bool(b) => write!(out, "{b}").unwrap(),
        Value::U8(n) => write!(out, "{n}").unwrap(),
        Value::U16(n) => write!(out, "{n}").unwrap(),
        Value::U32(n) => write!(out, "{n}").unwrap(),
        Value::U64(n) => write!(out, "{n}").unwrap(),
        Value::Usize(n) => write!(out, "{n}").unwrap(),
        Value::Char(c) => write!(out, "'{:x}'", *c as u32).unwrap(),
        Value::Numeric(n) => {
            let s = n.to_string();
            // a typed constant may print its representation as a suffix
            let neg = s.starts_with('-');
            let digits: String = s.trim_start_matches('-').chars().take_while(|c| c.is_ascii_digit()).collect();
            if !n.is_representable() {
                out.push_str(OUT_OF_RANGE)
            }
            if neg {
                out.push('-')
            }
            out.push_str(&digits)
        }
        Value::View { offset } => write!(out, "View@{offset}").unwrap(),
        Value::PhantomData => out.push_str("Phantom"),
        Value::EnumFromTo(r) => {
            out.push('[');
            for (i, n) in r.clone().enumerate() {
                if i > 0 {
                    out.push(',')
                }
                write!(out, "{n}").unwrap();
            }
            out.push(']');
        }
        Value::Option(None) => out.push_str("None"),
        Value::Option(Some(v)) => {
            out.push_str("Some(");
            value(v, out);
            out.push(')');
        }
        Value::Tuple(vs) => {
            out.push('(');
            for (i, v) in vs.iter().enumerate() {
                if i > 0 {
                    out.push(',')
                }
                value(v, out);
            }
            out.push(')');
        }
        Value::Record(fs) => {
            out.push('{');
            for (i, (l, v)) in fs.iter().enumerate() {
                if i > 0 {
                    out.push(',')
                }
                clean_ident(l, out);
                out.push(':');
                value(v, out);
            }
            out.push('}');
        }
        Value::Variant(l, v) => {
            out.push('@');
            clean_ident(l, out);
            match strip(v) {
                Value::Tuple(vs) if vs.is_empty() => {}
                Value::Tuple(_) => value(v, out),
                _ => {
                    out.push('(');
                    value(v, out);
                    out.push(')');
                }
            }
        }
        Value::Seq(SeqKind::Strict(vs)) => {
            out.push('[');
            for (i, v) in vs.iter().enumerate() {
                if i > 0 {
                    out.push(',')
                }
                value(v, out);
            }
            out.push(']');
        }
        Value::Seq(SeqKind::Dup(n, v)) => {
            let mut one = String::new();
            value(v, &mut one);
            out.push('[');
            for i in 0..*n {
                if i > 0 {
                    out.push(',')
                }
                out.push_str(&one);
            }
            out.push(']');
        }
        Value::Mapped(_, v) => value(v, out),
        Value::Branch(_, v) => value(v, out),
        Value::Permit(Ok(v)) => value(v, out),
        Value::Permit(Err(Some(v))) => value(v, out),
        Value::Permit(Err(None)) => out.push_str("PermitNone"),
    }
}

fn strip(v: &Value) -> &Value {
    match v {
        Value::Mapped(_, v) | Value::Branch(_, v) | Value::Permit(Ok(v)) | Value::Permit(Err(Some(v))) => strip(v),
        _ => v,
    }
}

/// Canonicalises the `{:?}` text of a generated decoder's value.
pub fn canon_debug(s: &str) -> Result<String, String> {
    let mut p = P { s: s.as_bytes(), i: 0, out: String::with_capacity(s.len()) };
    p.value()?;
    p.ws();
    if p.i != p.s.len() {
        return Err(format!("trailing debug text at {}: {}", p.i, &s[p.i..(p.i + 40).min(s.len())]));
    }
    Ok(p.out)
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
    out: String,
}

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] as char).is_ascii_whitespace() {
            self.i += 1
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> Result<(), String> {
        if self.peek() == c {
            self.i += 1;
            Ok(())
        } else {
            Err(format!("expected {:?} at {} in debug text", c as char, self.i))
        }
    }
    fn list(&mut self, open: u8, close: u8) -> Result<(), String> {
        self.eat(open)?;
        self.out.push(open as char);
        let mut n = 0;
        while self.peek() != close {
            if n > 0 {
                self.eat(b',')?;
                if self.peek() == close {
                    break;
                }
                self.out.push(',');
            }
            self.value()?;
            n += 1;
        }
        self.eat(close)?;
        self.out.push(close as char);
        Ok(())
    }
    fn number(&mut self) -> Result<i128, String> {
        self.ws();
        let st = self.i;
        if self.s.get(self.i) == Some(&b'-') {
            self.i += 1
        }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().map_err(|e| format!("number at {st}: {e}"))
    }
    fn value(&mut self) -> Result<(), String> {
        use std::fmt::Write;
        match self.peek() {
            b'(' => self.list(b'(', b')'),
            b'[' => self.list(b'[', b']'),
            b'\'' => {
                let rest = std::str::from_utf8(&self.s[self.i..]).unwrap();
                let mut it = rest.char_indices().skip(1);
                let (_, c) = it.next().ok_or("bad char")?;
                let (c, end) = if c == '\\' {
                    let (k, e) = it.next().ok_or("bad char")?;
                    match e {
                        'n' => ('\n', k + 1),
                        'r' => ('\r', k + 1),
                        't' => ('\t', k + 1),
                        '0' => ('\0', k + 1),
                        '\\' => ('\\', k + 1),
                        '\'' => ('\'', k + 1),
                        '"' => ('"', k + 1),
                        'u' => {
                            let close = rest.find('}').ok_or("bad escape")?;
                            let n = u32::from_str_radix(&rest[k + 2..close], 16).map_err(|e| e.to_string())?;
                            (char::from_u32(n).ok_or("bad escape")?, close + 1)
                        }
                        other => return Err(format!("char escape {other}")),
                    }
                } else {
                    (c, 1 + c.len_utf8())
                };
                self.i += end;
                self.eat(b'\'')?;
                write!(self.out, "'{:x}'", c as u32).unwrap();
                Ok(())
            }
            b'-' | b'0'..=b'9' => {
                let n = self.number()?;
                if self.s[self.i..].starts_with(b"..") {
                    self.i += 2;
                    let m = self.number()?;
                    self.out.push('[');
                    let mut k = n;
                    while k < m {
                        if k > n {
                            self.out.push(',')
                        }
                        write!(self.out, "{k}").unwrap();
                        k += 1;
                    }
                    self.out.push(']');
                } else {
                    write!(self.out, "{n}").unwrap();
                }
                Ok(())
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let st = self.i;
                while self.i < self.s.len()
                    && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_' || self.s[self.i] == b'#')
                {
                    self.i += 1
                }
                let id = std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string();
                match id.as_str() {
                    "true" | "false" | "None" => {
                        self.out.push_str(&id);
                        return Ok(());
                    }
                    "Some" => {
                        self.out.push_str("Some");
                        return self.list(b'(', b')');
                    }
                    "PhantomData" => {
                        if self.peek() == b'<' {
                            let mut d = 0;
                            while self.i < self.s.len() {
                                match self.s[self.i] {
                                    b'<' => d += 1,
                                    b'>' => d -= 1,
                                    _ => {}
                                }
                                self.i += 1;
                                if d == 0 {
                                    break;
                                }
                            }
                        }
                        self.out.push_str("Phantom");
                        return Ok(());
                    }
                    _ => {}
                }
                match self.peek() {
                    b'(' => {
                        self.out.push('@');
                        clean_ident(&id, &mut self.out);
                        self.list(b'(', b')')
                    }
                    b'{' => {
                        if id == "View" {
                            return self.view();
                        }
                        self.eat(b'{')?;
                        self.out.push('{');
                        let mut n = 0;
                        while self.peek() != b'}' {
                            if n > 0 {
                                self.eat(b',')?;
                                if self.peek() == b'}' {
                                    break;
                                }
                                self.out.push(',');
                            }
                            self.ws();
                            let st = self.i;
                            while self.i < self.s.len() && self.s[self.i] != b':' {
                                self.i += 1
                            }
                            let f = std::str::from_utf8(&self.s[st..self.i]).unwrap().to_string();
                            clean_ident(&f, &mut self.out);
                            self.eat(b':')?;
                            self.out.push(':');
                            self.value()?;
                            n += 1;
                        }
                        self.eat(b'}')?;
                        self.out.push('}');
                        Ok(())
                    }
                    _ => {
                        self.out.push('@');
                        clean_ident(&id, &mut self.out);
                        Ok(())
                    }
                }
            }
            c => Err(format!("unexpected {:?} at {} in debug text", c as char, self.i)),
        }
    }
    fn view(&mut self) -> Result<(), String> {
        let rest = std::str::from_utf8(&self.s[self.i..]).unwrap();
        let k = rest.find("start_offset:").ok_or("view without start_offset")?;
        self.i += k + "start_offset:".len();
        let n = self.number()?;
        self.eat(b'}')?;
        self.out.push_str(&format!("View@{n}"));
        Ok(())
    }
}
