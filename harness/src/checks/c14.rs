//! C14: built-in values stream well-formed, correctly sized and faithful events.
use super::Check;
use crate::engine::*;
use crate::sizes;
use crate::ev::*;
use crate::model::*;
use crate::types::*;

pub fn exact(evs: &[Ev]) -> Vec<Ev> {
    canon(evs, Canon { hints: true, borrow: true, label_static: true, sizes: true }).into_iter().filter(|e| !matches!(e, Ev::TagHint(_))).collect()
}

/// Empty texts have no borrowedness worth comparing.
fn relax(mut v: Vec<Ev>) -> Vec<Ev> {
    for e in v.iter_mut() {
        match e {
            Ev::Text(t, b) if t.is_empty() => *b = false,
            Ev::Bin(t, b) if t.is_empty() => *b = false,
            _ => (),
        }
    }
    v
}

fn check_one<T: sval::Value + ?Sized>(c: &mut Ctx, name: &str, v: &T, want: &[Ev]) -> Res {
    let (got, r) = record(v);
    c.step(got.len());
    c.outcome(&got);
    c.describe(|| format!("{}: {:?}", name, got));
    if r.is_err() {
        fail!("{}: streaming {:?} failed", name, want);
    }
    if let Err(e) = well_formed(&got) {
        fail!("{}: malformed events ({}): {:?}", name, e, got);
    }
    if relax(exact(&got)) != relax(exact(want)) {
        fail!("{}: streamed {:?} instead of {:?}", name, got, want);
    }
    Ok(())
}

struct Go;
impl Visit for Go {
    type Out = Res;
    fn visit<T: Model>(&mut self, name: &'static str, c: &mut Ctx) -> Res {
        let v = T::dom(c);
        check_one(c, name, &v, &wants(&v))?;
        // again, through the stream function and by reference
        check_one(c, name, &&v, &wants(&v))
    }
}

/// Arrays: their length is part of the type.
fn arrays(c: &mut Ctx) -> Res {
    macro_rules! arrays { ($($n:literal)*) => {{
        let n: usize = *c.of(&[$($n),*]);
        match n {
            $($n => {
                let t = |mut v: Vec<Ev>| {
                    v.insert(0, Ev::TaggedBegin(m(T_CONST, None, None)));
                    v.push(Ev::TaggedEnd(m(T_CONST, None, None)));
                    v
                };
                let v: Vec<u16> = (0..n as u16).collect();
                let a: &[u16; $n] = v.as_slice().try_into().unwrap();
                check_one(c, concat!("[u16; ", $n, "]"), a, &t(wants(&v)))?;
                let v: Vec<String> = (0..n).map(|i| i.to_string()).collect();
                let a: &[String; $n] = v.as_slice().try_into().unwrap();
                check_one(c, concat!("[String; ", $n, "]"), a, &t(wants(&v)))?;
                let v: Vec<u8> = (0..n).map(|i| i as u8).collect();
                let a: &[u8; $n] = v.as_slice().try_into().unwrap();
                check_one(c, concat!("[u8; ", $n, "]"), a, &t(wants(&v)))?;
                let b = Bytes(v.clone());
                check_one(c, concat!("BinaryArray of ", $n), sval::BinaryArray::new(a), &t(wants(&b)))
            })*
            _ => unreachable!(),
        }
    }}; }
    arrays!(0 1 2 3 4 5 6 7 8 9 10 12 15 16 17 20 24 31 32 33 34 48 63 64 65 100 127 128 129 255 256 257 300)
}

/// A value displayed in n pieces.
struct Pieces(usize);
impl std::fmt::Display for Pieces {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        (0..self.0).try_for_each(|i| f.write_str(["a", "", "\"é", "b\n"][i % 4]))
    }
}
impl std::fmt::Debug for Pieces {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        (0..self.0).try_for_each(|i| f.write_str(["", "d", "\\", " "][i % 4]))
    }
}

/// The text of a value streamed in pieces.
fn pieced(c: &mut Ctx, name: &str, v: &dyn sval_dynamic::Value, want: &str) -> Res {
    let (got, r) = record(v);
    c.step(got.len());
    c.outcome(&got);
    let mut t = String::new();
    for (i, e) in got.iter().enumerate() {
        match e {
            Ev::TextBegin(None) if i == 0 => (),
            Ev::TextBegin(Some(n)) if i == 0 && *n == want.len() => (),
            Ev::Text(s, false) => t.push_str(s),
            Ev::TextEnd if i == got.len() - 1 => (),
            _ => fail!("{}: {:?} in {:?}", name, e, got),
        }
    }
    ensure!(r.is_ok() && t == want, "{}: streamed {:?} instead of {:?}", name, got, want);
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let len = if thorough { 5 } else { 4 };
    Check {
        suites: vec![
            suite("types", format!("{} built-in types and compositions, all instances of the enumerated domains", NAMES.len()), |c| {
                let i = c.pick(NAMES.len());
                visit(&mut Go, i, c)
            }),
            suite("chars", "every Unicode scalar value as a char and as a text", |c| {
                let hi = c.pick(0x1100) as u32;
                for lo in 0..256u32 {
                    if let Some(ch) = char::from_u32(hi << 8 | lo) {
                        check_one(c, "char", &ch, &wants(&ch))?;
                        let s = ch.to_string();
                        check_one(c, "String", &s, &wants(&s))?;
                    }
                }
                Ok(())
            }),
            suite("texts", format!("every text of at most {} characters over a 7-character alphabet", len), move |c| {
                let n = c.pick(len + 1);
                let s: String = (0..n).map(|_| *c.of(&['a', '"', '\0', 'é', '\u{800}', '\u{1F600}', '\n'])).collect();
                check_one(c, "str", s.as_str(), &wants(&s))?;
                check_one(c, "String", &s, &wants(&s))?;
                let b = Bytes(s.clone().into_bytes());
                check_one(c, "BinarySlice", sval::BinarySlice::new(s.as_bytes()), &wants(&b))
            }),
            suite("small-ints", "every u8, i8, u16, i16", |c| {
                let hi = c.pick(256) as u16;
                for lo in 0..256u16 {
                    let v = hi << 8 | lo;
                    check_one(c, "u16", &v, &[Ev::U16(v)])?;
                    check_one(c, "i16", &(v as i16), &[Ev::I16(v as i16)])?;
                }
                check_one(c, "u8", &(hi as u8), &[Ev::U8(hi as u8)])?;
                check_one(c, "i8", &(hi as u8 as i8), &[Ev::I8(hi as u8 as i8)])
            }),
            suite("sequences", "every sequence of at most 6 booleans as slice, vector and map", |c| {
                let n = c.pick(7);
                let v: Vec<bool> = (0..n).map(|_| c.flag()).collect();
                check_one(c, "Vec", &v, &wants(&v))?;
                check_one(c, "slice", v.as_slice(), &wants(&v))?;
                let p = Pairs(v.iter().enumerate().map(|(i, b)| (i as u8, *b)).collect());
                check_one(c, "MapSlice", sval::MapSlice::new(&p.0), &wants(&p))?;
                let b: std::collections::BTreeMap<u8, bool> = p.0.iter().rev().cloned().collect();
                check_one(c, "BTreeMap", &b, &wants(&p))
            }),
            suite("arrays", "arrays of numbers, texts and bytes and binary arrays of 33 lengths up to 300", arrays),
            suite("pieces", "displayed and debugged values of up to 300 pieces", |c| {
                let n = c.pick(301);
                c.describe(|| format!("{} pieces", n));
                match c.pick(5) {
                    0 => pieced(c, "sval::Display", &sval::Display::new(Pieces(n)), &Pieces(n).to_string()),
                    1 => pieced(c, "borrowed sval::Display", sval::Display::new_borrowed(&Pieces(n)), &Pieces(n).to_string()),
                    2 => pieced(c, "DisplayToValue", &sval_fmt::DisplayToValue::new(Pieces(n)), &Pieces(n).to_string()),
                    3 => pieced(c, "DebugToValue", &sval_fmt::DebugToValue::new(Pieces(n)), &format!("{:?}", Pieces(n))),
                    _ => pieced(c, "format_args", &sval::Display::new(format_args!("{}{:?}", Pieces(n), "x")), &format!("{}{:?}", Pieces(n), "x")),
                }
            }),
            suite("sizes", "texts, binaries, slices, vectors, boxed slices, maps and nested vectors of each size up to 1100 (thorough 66000)", move |c| {
                let n = *c.of(&sizes::sizes(c.thorough, if c.thorough { 66000 } else { 1100 }));
                c.describe(|| format!("size {}", n));
                match c.pick(8) {
                    0 => {
                        let s: String = "aé\"".chars().cycle().take(n).collect();
                        check_one(c, "String", &s, &wants(&s))?;
                        check_one(c, "str", s.as_str(), &wants(&s))
                    }
                    1 => {
                        let b = Bytes((0..n).map(|i| i as u8).collect());
                        check_one(c, "BinarySlice", sval::BinarySlice::new(&b.0), &wants(&b))
                    }
                    2 => {
                        let v: Vec<i64> = (0..n as i64).collect();
                        check_one(c, "Vec", &v, &wants(&v))?;
                        check_one(c, "slice", v.as_slice(), &wants(&v))
                    }
                    3 => {
                        let v: Vec<u8> = (0..n).map(|i| i as u8).collect();
                        check_one(c, "Vec<u8>", &v, &wants(&v))
                    }
                    4 => {
                        let v: Vec<String> = (0..n).map(|i| i.to_string()).collect();
                        check_one(c, "Vec<String>", &v, &wants(&v))
                    }
                    5 => {
                        let v: Vec<Option<bool>> = (0..n).map(|i| [None, Some(true), Some(false)][i % 3]).collect();
                        check_one(c, "Vec<Option>", &v, &wants(&v))
                    }
                    6 => {
                        let p = Pairs((0..n as u64).map(|i| (i, i % 2 == 0)).collect());
                        check_one(c, "MapSlice", sval::MapSlice::new(&p.0), &wants(&p))?;
                        let b: std::collections::BTreeMap<u64, bool> = p.0.iter().rev().cloned().collect();
                        check_one(c, "BTreeMap", &b, &wants(&p))?;
                        let h: std::collections::HashMap<u64, bool> = p.0.iter().cloned().collect();
                        check_one(c, "HashMap", &h, &wants(&h))
                    }
                    _ => {
                        let v: Vec<Vec<bool>> = (0..n).map(|i| vec![true; i % 4]).collect();
                        check_one(c, "Vec<Vec>", &v, &wants(&v))
                    }
                }
            }),
        ],
        assumptions: vec!["a HashMap is compared in its own iteration order"],
    }
}
