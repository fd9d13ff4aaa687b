//! An independent strict RFC 8259 parser and the reference JSON encoding of the data model.

use crate::ev::*;
use crate::model::*;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

pub fn parse(s: &str) -> Result<J, String> {
    let mut p = P { b: s.as_bytes(), s, i: 0 };
    let v = p.value()?;
    p.ws();
    if p.i != p.b.len() {
        return Err(format!("trailing bytes at {}", p.i));
    }
    Ok(v)
}

struct P<'a> {
    b: &'a [u8],
    s: &'a str,
    i: usize,
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while let Some(b' ' | b'\t' | b'\n' | b'\r') = self.b.get(self.i) {
            self.i += 1;
        }
    }
    fn err<T>(&self, w: &str) -> Result<T, String> {
        Err(format!("{} at byte {}", w, self.i))
    }
    fn lit(&mut self, l: &str, v: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(l.as_bytes()) {
            self.i += l.len();
            Ok(v)
        } else {
            self.err("bad literal")
        }
    }
    fn value(&mut self) -> Result<J, String> {
        self.ws();
        match self.b.get(self.i) {
            None => self.err("unexpected end"),
            Some(b'n') => self.lit("null", J::Null),
            Some(b't') => self.lit("true", J::Bool(true)),
            Some(b'f') => self.lit("false", J::Bool(false)),
            Some(b'"') => Ok(J::Str(self.string()?)),
            Some(b'[') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b']') {
                    self.i += 1;
                    return Ok(J::Arr(v));
                }
                loop {
                    v.push(self.value()?);
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.i += 1;
                            return Ok(J::Arr(v));
                        }
                        _ => return self.err("expected , or ]"),
                    }
                }
            }
            Some(b'{') => {
                self.i += 1;
                let mut v = vec![];
                self.ws();
                if self.b.get(self.i) == Some(&b'}') {
                    self.i += 1;
                    return Ok(J::Obj(v));
                }
                loop {
                    self.ws();
                    if self.b.get(self.i) != Some(&b'"') {
                        return self.err("expected key");
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.b.get(self.i) != Some(&b':') {
                        return self.err("expected :");
                    }
                    self.i += 1;
                    let x = self.value()?;
                    v.push((k, x));
                    self.ws();
                    match self.b.get(self.i) {
                        Some(b',') => self.i += 1,
                        Some(b'}') => {
                            self.i += 1;
                            return Ok(J::Obj(v));
                        }
                        _ => return self.err("expected , or }"),
                    }
                }
            }
            Some(b'-' | b'0'..=b'9') => {
                let a = self.i;
                if self.b[self.i] == b'-' {
                    self.i += 1;
                }
                match self.b.get(self.i) {
                    Some(b'0') => self.i += 1,
                    Some(b'1'..=b'9') => self.digits()?,
                    _ => return self.err("bad number"),
                }
                if self.b.get(self.i) == Some(&b'.') {
                    self.i += 1;
                    self.digits()?;
                }
                if let Some(b'e' | b'E') = self.b.get(self.i) {
                    self.i += 1;
                    if let Some(b'+' | b'-') = self.b.get(self.i) {
                        self.i += 1;
                    }
                    self.digits()?;
                }
                Ok(J::Num(self.s[a..self.i].to_owned()))
            }
            _ => self.err("unexpected byte"),
        }
    }
    fn digits(&mut self) -> Result<(), String> {
        let a = self.i;
        while let Some(b'0'..=b'9') = self.b.get(self.i) {
            self.i += 1;
        }
        if a == self.i { self.err("expected digits") } else { Ok(()) }
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let h = self.b.get(self.i..self.i + 4).ok_or("short \\u")?;
        let mut v = 0;
        for c in h {
            v = v * 16 + (*c as char).to_digit(16).ok_or("bad hex")?;
        }
        self.i += 4;
        Ok(v)
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut out = String::new();
        loop {
            let a = self.i;
            while let Some(b) = self.b.get(self.i) {
                if *b == b'"' || *b == b'\\' || *b < 0x20 {
                    break;
                }
                self.i += 1;
            }
            out.push_str(&self.s[a..self.i]);
            match self.b.get(self.i) {
                None => return self.err("unterminated string"),
                Some(b'"') => {
                    self.i += 1;
                    return Ok(out);
                }
                Some(b'\\') => {
                    self.i += 1;
                    let e = *self.b.get(self.i).ok_or("unterminated escape")?;
                    self.i += 1;
                    match e {
                        b'"' => out.push('"'),
                        b'\\' => out.push('\\'),
                        b'/' => out.push('/'),
                        b'b' => out.push('\u{8}'),
                        b'f' => out.push('\u{c}'),
                        b'n' => out.push('\n'),
                        b'r' => out.push('\r'),
                        b't' => out.push('\t'),
                        b'u' => {
                            let h = self.hex4()?;
                            let cp = if (0xd800..0xdc00).contains(&h) {
                                if self.b.get(self.i) != Some(&b'\\') || self.b.get(self.i + 1) != Some(&b'u') {
                                    return self.err("lone surrogate");
                                }
                                self.i += 2;
                                let lo = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&lo) {
                                    return self.err("bad surrogate pair");
                                }
                                0x10000 + ((h - 0xd800) << 10) + (lo - 0xdc00)
                            } else {
                                h
                            };
                            out.push(char::from_u32(cp).ok_or("lone surrogate")?);
                        }
                        _ => return self.err("bad escape"),
                    }
                }
                Some(_) => return self.err("control character in string"),
            }
        }
    }
}

/// Expected JSON.
#[derive(Clone, Debug, PartialEq)]
pub enum X {
    Null,
    Bool(bool),
    Int(String),
    F64(f64),
    F32(f32),
    Str(String),
    Arr(Vec<X>),
    Obj(Vec<(XK, X)>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum XK {
    Str(String),
    F64(f64),
    F32(f32),
}

pub fn matches(x: &X, j: &J) -> bool {
    match (x, j) {
        (X::Null, J::Null) => true,
        (X::Bool(a), J::Bool(b)) => a == b,
        (X::Int(a), J::Num(b)) => a == b,
        (X::F64(a), J::Num(b)) => b.parse::<f64>().map(|b| b.to_bits()) == Ok(a.to_bits()),
        (X::F32(a), J::Num(b)) => b.parse::<f32>().map(|b| b.to_bits()) == Ok(a.to_bits()),
        (X::Str(a), J::Str(b)) => a == b,
        (X::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| matches(a, b)),
        (X::Obj(a), J::Obj(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|((ka, a), (kb, b))| {
                    (match ka {
                        XK::Str(s) => s == kb,
                        XK::F64(a) => kb.parse::<f64>().map(|b| b.to_bits()) == Ok(a.to_bits()),
                        XK::F32(a) => kb.parse::<f32>().map(|b| b.to_bits()) == Ok(a.to_bits()),
                    }) && matches(a, b)
                })
        }
        _ => false,
    }
}

fn m_index(m: &M) -> Option<i64> {
    m.index.as_ref().and_then(|i| i64::try_from(i.val).ok())
}

/// Reference encoding of a value. `Err` when JSON cannot express it (non-text map keys).
pub fn value(n: &Node) -> Result<X, ()> {
    Ok(match &n.k {
        Kind::Null => X::Null,
        Kind::Bool(v) => X::Bool(*v),
        Kind::U8(v) => X::Int(v.to_string()),
        Kind::U16(v) => X::Int(v.to_string()),
        Kind::U32(v) => X::Int(v.to_string()),
        Kind::U64(v) => X::Int(v.to_string()),
        Kind::U128(v) => X::Int(v.to_string()),
        Kind::I8(v) => X::Int(v.to_string()),
        Kind::I16(v) => X::Int(v.to_string()),
        Kind::I32(v) => X::Int(v.to_string()),
        Kind::I64(v) => X::Int(v.to_string()),
        Kind::I128(v) => X::Int(v.to_string()),
        Kind::F32(v) if v.is_finite() => X::F32(*v),
        Kind::F64(v) if v.is_finite() => X::F64(*v),
        Kind::F32(_) | Kind::F64(_) => X::Null,
        Kind::Text(t, _) => X::Str(t.clone()),
        Kind::Bin(b, _) => X::Arr(b.iter().map(|b| X::Int(b.to_string())).collect()),
        Kind::Map(v) => {
            let mut o = vec![];
            for (k, x) in v {
                o.push((key(k)?, value(x)?));
            }
            X::Obj(o)
        }
        Kind::Seq(v) => X::Arr(v.iter().map(value).collect::<Result<_, _>>()?),
        Kind::Tag(m) => unit(m),
        // number text that already is JSON's is written as it is
        Kind::Tagged(m, x) if m.tag == T_NUMBER && matches!(&x.k, Kind::Text(t, _) if parse(t) == Ok(J::Num(t.clone()))) => match &x.k {
            Kind::Text(t, _) => X::Int(t.clone()),
            _ => unreachable!(),
        },
        Kind::Hole => unreachable!("nothing"),
        Kind::Tagged(m, x) | Kind::Enum(m, x) if x.k == Kind::Hole => unit(m),
        Kind::Tagged(_, x) => value(x)?,
        Kind::Enum(_, x) => variant(x)?,
        Kind::Record(_, v) => X::Obj(v.iter().map(|(_, l, x)| Ok((XK::Str(l.text.clone()), value(x)?))).collect::<Result<_, ()>>()?),
        Kind::Tuple(_, v) => X::Arr(v.iter().map(|(_, _, x)| value(x)).collect::<Result<_, _>>()?),
        Kind::RecordTuple(_, v) => X::Obj(v.iter().map(|(_, l, _, x)| Ok((XK::Str(l.text.clone()), value(x)?))).collect::<Result<_, ()>>()?),
    })
}

fn unit(m: &M) -> X {
    if m.tag == T_NONE {
        X::Null
    } else if let Some(l) = &m.label {
        X::Str(l.text.clone())
    } else if let Some(i) = m_index(m) {
        X::Int(i.to_string())
    } else {
        X::Null
    }
}

fn wrap(m: &M, x: X) -> X {
    if let Some(l) = &m.label {
        X::Obj(vec![(XK::Str(l.text.clone()), x)])
    } else if let Some(i) = m_index(m) {
        X::Obj(vec![(XK::Str(i.to_string()), x)])
    } else {
        x
    }
}

fn variant(n: &Node) -> Result<X, ()> {
    Ok(match &n.k {
        Kind::Tag(m) => unit(m),
        // an empty variant is its own name
        Kind::Tagged(m, x) | Kind::Enum(m, x) if x.k == Kind::Hole => wrap(m, unit(m)),
        Kind::Tagged(m, x) => wrap(m, value(x)?),
        Kind::Enum(m, x) => wrap(m, variant(x)?),
        Kind::Record(m, _) | Kind::Tuple(m, _) | Kind::RecordTuple(m, _) => wrap(m, value(n)?),
        _ => unreachable!("enum content"),
    })
}

pub fn key(n: &Node) -> Result<XK, ()> {
    to_key(match &n.k {
        Kind::Enum(_, x) if x.k != Kind::Hole => variant(x)?,
        _ => value(n)?,
    })
}

fn to_key(x: X) -> Result<XK, ()> {
    Ok(match x {
        X::Null => XK::Str("null".into()),
        X::Bool(v) => XK::Str(v.to_string()),
        X::Int(s) | X::Str(s) => XK::Str(s),
        X::F64(v) => XK::F64(v),
        X::F32(v) => XK::F32(v),
        X::Arr(_) | X::Obj(_) => return Err(()),
    })
}
