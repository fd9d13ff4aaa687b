//! C15: formatted text matches debug conventions and its token stream.
use super::c01::structure_gen;
use super::Check;
use crate::engine::*;
use crate::metas;
use crate::sizes;
use crate::ev::*;
use crate::model::*;
use std::cell::RefCell;
use std::fmt::{self, Write};
use sval_fmt::TokenWrite;

/// One notification of a token writer, in the vocabulary of [`TokenWrite`].
#[derive(Clone, Debug, PartialEq)]
enum T {
    Null,
    Bool(bool),
    Num(String),
    F32(f32),
    F64(f64),
    Type(String),
    Quote,
    Text(String),
    MapBegin,
    MapKey(bool),
    /// `None`: the position of the entry isn't compared
    MapValue(Option<bool>),
    MapEnd(bool),
    RecType(String),
    RecBegin,
    RecValue(String, bool),
    RecEnd(bool),
    SeqBegin,
    SeqValue(bool),
    SeqEnd(bool),
    TupType(String),
    TupBegin,
    TupValue(bool),
    TupEnd(bool),
}

fn label(m: &M) -> Option<String> {
    m.label.as_ref().map(|l| l.text.clone())
}

/// Reference token stream.
fn tokens(n: &Node, number: bool, o: &mut Vec<T>) {
    let num = |v: &dyn fmt::Display| T::Num(v.to_string());
    match &n.k {
        Kind::Null => o.push(T::Null),
        Kind::Bool(b) => o.push(T::Bool(*b)),
        Kind::U8(v) => o.push(num(v)),
        Kind::U16(v) => o.push(num(v)),
        Kind::U32(v) => o.push(num(v)),
        Kind::U64(v) => o.push(num(v)),
        Kind::U128(v) => o.push(num(v)),
        Kind::I8(v) => o.push(num(v)),
        Kind::I16(v) => o.push(num(v)),
        Kind::I32(v) => o.push(num(v)),
        Kind::I64(v) => o.push(num(v)),
        Kind::I128(v) => o.push(num(v)),
        Kind::F32(v) => o.push(T::F32(*v)),
        Kind::F64(v) => o.push(T::F64(*v)),
        Kind::Text(s, _) if number => o.push(T::Num(s.clone())),
        Kind::Text(s, _) => {
            o.push(T::Quote);
            o.push(T::Text(s.clone()));
            o.push(T::Quote);
        }
        Kind::Bin(b, _) => {
            o.push(T::SeqBegin);
            for (i, x) in b.iter().enumerate() {
                o.push(T::SeqValue(i == 0));
                o.push(num(x));
            }
            o.push(T::SeqEnd(b.is_empty()));
        }
        Kind::Seq(v) => {
            o.push(T::SeqBegin);
            for (i, x) in v.iter().enumerate() {
                o.push(T::SeqValue(i == 0));
                tokens(x, false, o);
            }
            o.push(T::SeqEnd(v.is_empty()));
        }
        Kind::Map(v) => {
            o.push(T::MapBegin);
            for (i, (k, x)) in v.iter().enumerate() {
                o.push(T::MapKey(i == 0));
                tokens(k, false, o);
                let plain = !matches!(k.k, Kind::Bin(..) | Kind::Seq(_) | Kind::Map(_) | Kind::Tag(_) | Kind::Tagged(..) | Kind::Enum(..) | Kind::Record(..) | Kind::Tuple(..) | Kind::RecordTuple(..));
                o.push(T::MapValue(plain.then_some(i == 0)));
                tokens(x, false, o);
            }
            o.push(T::MapEnd(v.is_empty()));
        }
        Kind::Tag(m) => o.push(label(m).map(T::Type).unwrap_or(T::Null)),
        Kind::Tagged(m, x) => {
            if let Some(l) = label(m) {
                o.push(T::TupType(l));
                o.push(T::TupBegin);
            }
            tokens(x, m.tag == T_NUMBER, o);
            if m.label.is_some() {
                o.push(T::TupEnd(false));
            }
        }
        Kind::Hole => unreachable!("nothing"),
        Kind::Enum(m, x) if x.k == Kind::Hole => o.push(label(m).map(T::Type).unwrap_or(T::Null)),
        Kind::Enum(_, x) => tokens(x, false, o),
        Kind::Record(m, v) => rec(m, v.iter().map(|f| (&f.1, &f.2)).collect(), o),
        Kind::RecordTuple(m, v) => rec(m, v.iter().map(|f| (&f.1, &f.3)).collect(), o),
        Kind::Tuple(m, v) => {
            if let Some(l) = label(m) {
                o.push(T::TupType(l));
            }
            o.push(T::TupBegin);
            for (i, f) in v.iter().enumerate() {
                o.push(T::TupValue(i == 0));
                tokens(&f.2, false, o);
            }
            o.push(T::TupEnd(v.is_empty()));
        }
    }
}

fn rec(m: &M, v: Vec<(&L, &Node)>, o: &mut Vec<T>) {
    if let Some(l) = label(m) {
        o.push(T::RecType(l));
    }
    o.push(T::RecBegin);
    for (i, (l, x)) in v.iter().enumerate() {
        o.push(T::RecValue(l.text.clone(), i == 0));
        tokens(x, false, o);
    }
    o.push(T::RecEnd(v.is_empty()));
}

enum P {
    Lit(String),
    F32(f32),
    F64(f64),
}

fn escaped(s: &str) -> String {
    s.chars().flat_map(|c| c.escape_debug()).collect()
}

/// The text of a token stream in the default format; floats are left open.
fn text(t: &[T]) -> Vec<P> {
    let mut o: Vec<P> = vec![];
    for x in t {
        let s = match x {
            T::Null => "()".into(),
            T::Bool(b) => b.to_string(),
            T::Num(n) => n.clone(),
            T::F32(v) => {
                o.push(P::F32(*v));
                continue;
            }
            T::F64(v) => {
                o.push(P::F64(*v));
                continue;
            }
            T::Type(l) | T::TupType(l) => l.clone(),
            T::Quote => "\"".into(),
            T::Text(s) => escaped(s),
            T::MapBegin | T::RecBegin => "{".into(),
            T::MapKey(first) => if *first { " " } else { ", " }.into(),
            T::MapValue(_) => ": ".into(),
            T::MapEnd(empty) | T::RecEnd(empty) => if *empty { "}" } else { " }" }.into(),
            T::RecType(l) => format!("{} ", l),
            T::RecValue(l, first) => format!("{}{}: ", if *first { " " } else { ", " }, l),
            T::SeqBegin => "[".into(),
            T::SeqValue(first) | T::TupValue(first) => if *first { "" } else { ", " }.into(),
            T::SeqEnd(_) => "]".into(),
            T::TupBegin => "(".into(),
            T::TupEnd(_) => ")".into(),
        };
        match o.last_mut() {
            Some(P::Lit(l)) => l.push_str(&s),
            _ => o.push(P::Lit(s)),
        }
    }
    o
}

fn is(want: &[P], got: &str) -> bool {
    let mut r = got;
    for p in want {
        match p {
            P::Lit(l) => match r.strip_prefix(l.as_str()) {
                Some(x) => r = x,
                None => return false,
            },
            P::F32(_) | P::F64(_) => {
                let end = r.find(|c: char| !(c.is_ascii_alphanumeric() || matches!(c, '+' | '-' | '.'))).unwrap_or(r.len());
                let (num, rest) = r.split_at(end);
                let same = match p {
                    P::F32(v) => num.parse::<f32>().is_ok_and(|n| n.to_bits() == v.to_bits() || n.is_nan() && v.is_nan()),
                    P::F64(v) => num.parse::<f64>().is_ok_and(|n| n.to_bits() == v.to_bits() || n.is_nan() && v.is_nan()),
                    _ => unreachable!(),
                };
                if !same {
                    return false;
                }
                r = rest;
            }
        }
    }
    r.is_empty()
}

fn show(want: &[P]) -> String {
    want.iter()
        .map(|p| match p {
            P::Lit(l) => l.clone(),
            P::F32(v) => format!("<{:?}>", v),
            P::F64(v) => format!("<{:?}>", v),
        })
        .collect()
}

/// A token writer that only looks at single tokens. Calls are counted and one of them may fail.
struct Single<'a>(&'a RefCell<(Vec<(u8, String)>, Fault)>);
#[derive(Default)]
struct Fault {
    at: Option<usize>,
    seen: usize,
    after: usize,
}
impl Fault {
    fn at(at: usize) -> Fault {
        Fault { at: Some(at), ..Fault::default() }
    }
    fn call(&mut self) -> fmt::Result {
        let i = self.seen;
        self.seen += 1;
        match self.at {
            Some(at) if i == at => Err(fmt::Error),
            Some(at) if i > at => {
                self.after += 1;
                Ok(())
            }
            _ => Ok(()),
        }
    }
}

const CLASS: [&str; 7] = ["untagged", "number", "atom", "punctuation", "identifier", "text", "whitespace"];
fn class(t: &sval::Tag) -> u8 {
    use sval_fmt::tags::*;
    for (i, x) in [NUMBER, ATOM, PUNCT, IDENT, TEXT, WS].iter().enumerate() {
        if x == t {
            return i as u8 + 1;
        }
    }
    0
}

impl Write for Single<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut b = self.0.borrow_mut();
        b.1.call()?;
        b.0.push((0, s.into()));
        Ok(())
    }
}
impl TokenWrite for Single<'_> {
    fn write_token<D: fmt::Display>(&mut self, tag: &sval::Tag, token: D) -> fmt::Result {
        let mut b = self.0.borrow_mut();
        b.1.call()?;
        b.0.push((class(tag), token.to_string()));
        Ok(())
    }
}

/// A token writer that is notified of everything.
struct Notified<'a>(&'a RefCell<(Vec<T>, Fault)>);
impl Notified<'_> {
    fn put(&self, t: T) -> fmt::Result {
        let mut b = self.0.borrow_mut();
        b.1.call()?;
        b.0.push(t);
        Ok(())
    }
}
impl Write for Notified<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.put(T::Num(format!("unexpected plain write {:?}", s)))
    }
}
macro_rules! num {
    ($($f:ident: $t:ty),*) => { $(fn $f(&mut self, v: $t) -> fmt::Result { self.put(T::Num(v.to_string())) })* };
}
impl TokenWrite for Notified<'_> {
    fn write_token<D: fmt::Display>(&mut self, tag: &sval::Tag, token: D) -> fmt::Result {
        self.put(T::Num(format!("unexpected token {:?} {:?}", tag, token.to_string())))
    }
    num!(write_u8: u8, write_u16: u16, write_u32: u32, write_u64: u64, write_u128: u128, write_i8: i8, write_i16: i16, write_i32: i32, write_i64: i64, write_i128: i128);
    fn write_f32(&mut self, v: f32) -> fmt::Result {
        self.put(T::F32(v))
    }
    fn write_f64(&mut self, v: f64) -> fmt::Result {
        self.put(T::F64(v))
    }
    fn write_number<N: fmt::Display>(&mut self, n: N) -> fmt::Result {
        self.put(T::Num(n.to_string()))
    }
    fn write_null(&mut self) -> fmt::Result {
        self.put(T::Null)
    }
    fn write_bool(&mut self, v: bool) -> fmt::Result {
        self.put(T::Bool(v))
    }
    fn write_type(&mut self, ty: &str) -> fmt::Result {
        self.put(T::Type(ty.into()))
    }
    fn write_text_quote(&mut self) -> fmt::Result {
        self.put(T::Quote)
    }
    fn write_text(&mut self, t: &str) -> fmt::Result {
        self.put(T::Text(t.into()))
    }
    fn write_map_begin(&mut self) -> fmt::Result {
        self.put(T::MapBegin)
    }
    fn write_map_key_begin(&mut self, f: bool) -> fmt::Result {
        self.put(T::MapKey(f))
    }
    fn write_map_value_begin(&mut self, f: bool) -> fmt::Result {
        self.put(T::MapValue(Some(f)))
    }
    fn write_map_end(&mut self, e: bool) -> fmt::Result {
        self.put(T::MapEnd(e))
    }
    fn write_record_type(&mut self, ty: &str) -> fmt::Result {
        self.put(T::RecType(ty.into()))
    }
    fn write_record_begin(&mut self) -> fmt::Result {
        self.put(T::RecBegin)
    }
    fn write_record_value_begin(&mut self, f: &str, first: bool) -> fmt::Result {
        self.put(T::RecValue(f.into(), first))
    }
    fn write_record_end(&mut self, e: bool) -> fmt::Result {
        self.put(T::RecEnd(e))
    }
    fn write_seq_begin(&mut self) -> fmt::Result {
        self.put(T::SeqBegin)
    }
    fn write_seq_value_begin(&mut self, f: bool) -> fmt::Result {
        self.put(T::SeqValue(f))
    }
    fn write_seq_end(&mut self, e: bool) -> fmt::Result {
        self.put(T::SeqEnd(e))
    }
    fn write_tuple_type(&mut self, ty: &str) -> fmt::Result {
        self.put(T::TupType(ty.into()))
    }
    fn write_tuple_begin(&mut self) -> fmt::Result {
        self.put(T::TupBegin)
    }
    fn write_tuple_value_begin(&mut self, f: bool) -> fmt::Result {
        self.put(T::TupValue(f))
    }
    fn write_tuple_end(&mut self, e: bool) -> fmt::Result {
        self.put(T::TupEnd(e))
    }
}

/// A token writer that implements every method, recording which was called.
struct Every<'a>(&'a RefCell<Vec<String>>);
impl Write for Every<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.borrow_mut().push(format!("write_str {:?}", s));
        Ok(())
    }
}
macro_rules! every {
    ($($f:ident($($a:ident: $t:ty = $vals:expr),*);)*) => {
        impl TokenWrite for Every<'_> {
            fn write_token<D: fmt::Display>(&mut self, tag: &sval::Tag, token: D) -> fmt::Result {
                self.0.borrow_mut().push(format!("write_token {:?} {}", tag, token));
                Ok(())
            }
            fn write_number<D: fmt::Display>(&mut self, v: D) -> fmt::Result {
                self.0.borrow_mut().push(format!("write_number {}", v));
                Ok(())
            }
            fn write_atom<D: fmt::Display>(&mut self, v: D) -> fmt::Result {
                self.0.borrow_mut().push(format!("write_atom {}", v));
                Ok(())
            }
            $(fn $f(&mut self, $($a: $t),*) -> fmt::Result {
                let args: Vec<String> = vec![$(format!("{:?}", $a)),*];
                self.0.borrow_mut().push(format!("{} {:?}", stringify!($f), args));
                Ok(())
            })*
        }
        const METHODS: &[&str] = &["write_token", "write_number", "write_atom", $(stringify!($f)),*];
        fn call_method<W: TokenWrite>(mut w: W, k: usize, p: [usize; 2]) -> fmt::Result {
            let mut at = 0;
            let mut pick = |n: usize| { at += 1; p[at - 1] % n };
            match METHODS[k] {
                "write_token" => return w.write_token(&[sval_fmt::tags::NUMBER, sval_fmt::tags::WS, sval::Tag::new("other")][pick(3)], ["", "a b"][pick(2)]),
                "write_number" => return w.write_number(["1", "-2.5e7"][pick(2)]),
                "write_atom" => return w.write_atom(["", "x"][pick(2)]),
                _ => (),
            }
            $(if METHODS[k] == stringify!($f) {
                $(let $a: $t = { let v = $vals; v[pick(v.len())] };)*
                return w.$f($($a),*);
            })*
            unreachable!()
        }
    };
}
every! {
    write_u8(v: u8 = [0, 255]); write_u16(v: u16 = [0, 256]); write_u32(v: u32 = [0, 70000]); write_u64(v: u64 = [0, u64::MAX]); write_u128(v: u128 = [0, u128::MAX]);
    write_i8(v: i8 = [0, -128]); write_i16(v: i16 = [0, -300]); write_i32(v: i32 = [0, -70000]); write_i64(v: i64 = [0, i64::MIN]); write_i128(v: i128 = [0, i128::MIN]);
    write_f32(v: f32 = [0.0, -1.5]); write_f64(v: f64 = [0.0, f64::MAX]);
    write_null(); write_bool(v: bool = [true, false]);
    write_type(v: &str = ["", "T"]); write_field(v: &str = ["", "f"]); write_ident(v: &str = ["", "i"]); write_punct(v: &str = ["", "["]); write_ws(v: &str = ["", " "]);
    write_text_quote(); write_text(v: &str = ["", "a\"\n"]);
    write_map_begin(); write_map_key_begin(v: bool = [true, false]); write_map_value_begin(v: bool = [true, false]); write_map_end(v: bool = [true, false]);
    write_record_type(v: &str = ["", "T"]); write_record_begin(); write_record_value_begin(f: &str = ["", "f"], v: bool = [true, false]); write_record_end(v: bool = [true, false]);
    write_seq_begin(); write_seq_value_begin(v: bool = [true, false]); write_seq_end(v: bool = [true, false]);
    write_tuple_type(v: &str = ["", "T"]); write_tuple_begin(); write_tuple_value_begin(v: bool = [true, false]); write_tuple_end(v: bool = [true, false]);
}
/// A call to a writer by reference is the same call to the writer.
fn check_forward(c: &mut Ctx) -> Res {
    let k = c.pick(METHODS.len());
    let p = [c.pick(3), c.pick(2)];
    let (a, b, d) = (RefCell::new(vec![]), RefCell::new(vec![]), RefCell::new(vec![]));
    let want = call_method(Every(&a), k, p);
    let got = call_method(&mut Every(&b), k, p);
    let twice = call_method(&mut &mut Every(&d), k, p);
    c.step(3);
    c.outcome(&*a.borrow());
    c.describe(|| format!("{:?}", a));
    if got != want || twice != want || a != b || a != d {
        fail!("{} by reference became {:?} and {:?} instead of {:?}", METHODS[k], b, d, a);
    }
    Ok(())
}

/// Fragment boundaries of text and numbers, and their presence when empty, are not part of the comparison.
fn merge(v: &[T]) -> Vec<T> {
    let mut o: Vec<T> = vec![];
    for t in v {
        match (o.last_mut(), t) {
            (Some(T::Text(a)), T::Text(b)) => a.push_str(b),
            (Some(T::Num(a)), T::Num(b)) => a.push_str(b),
            (_, T::Text(b)) if b.is_empty() => (),
            (_, t) => o.push(t.clone()),
        }
    }
    o
}

fn same_tokens(want: &[T], got: &[T]) -> bool {
    let (w, g) = (merge(want), merge(got));
    w.len() == g.len()
        && w.iter().zip(&g).all(|(a, b)| match (a, b) {
            (T::MapValue(None), T::MapValue(_)) => true,
            (T::F32(a), T::F32(b)) => a.to_bits() == b.to_bits(),
            (T::F64(a), T::F64(b)) => a.to_bits() == b.to_bits(),
            _ => a == b,
        })
}

/// What every single token may contain.
fn token_ok(k: u8, t: &str) -> bool {
    match k {
        2 => matches!(t, "()" | "true" | "false"),
        3 => t.chars().all(|c| "{}[](),:".contains(c)),
        6 => t.chars().all(|c| c == ' '),
        0 => false,
        _ => true,
    }
}

/// A writer whose n-th write fails.
struct Failing<'a>(&'a RefCell<(String, Fault, bool)>);
impl Write for Failing<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut b = self.0.borrow_mut();
        let r = b.1.call();
        if r.is_err() || b.2 && b.1.seen > b.1.at.unwrap_or(usize::MAX) {
            return Err(fmt::Error);
        }
        b.0.push_str(s);
        Ok(())
    }
}

struct Fmt<'a, V>(&'a V);
impl<V: sval::Value> fmt::Display for Fmt<'_, V> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        sval_fmt::stream_to_fmt(f, self.0)
    }
}

fn outputs(v: &impl sval::Value) -> Vec<(&'static str, Result<String, fmt::Error>)> {
    let mut w = String::new();
    let r = sval_fmt::stream_to_write(&mut w, v);
    let mut o = vec![
        ("stream_to_string", Ok(sval_fmt::stream_to_string(v))),
        ("stream_to_write", r.map(|_| w)),
        ("ToFmt debug", Ok(format!("{:?}", sval_fmt::ToFmt::new(v)))),
        ("ToFmt display", Ok(format!("{}", sval_fmt::ToFmt::new_borrowed(v)))),
    ];
    let mut w = String::new();
    o.push(("stream_to_fmt", write!(w, "{}", Fmt(v)).map(|_| w)));
    let rec = RefCell::new((vec![], Fault::default()));
    let r = sval_fmt::stream_to_token_write(Single(&rec), v);
    o.push(("concatenated tokens", r.map(|_| rec.into_inner().0.into_iter().map(|t| t.1).collect())));
    o
}

fn check_events(c: &mut Ctx, v: &impl sval::Value, evs: &dyn Fn() -> String, t: &[T]) -> Res {
    let want = text(t);
    for (how, r) in outputs(v) {
        match r {
            Ok(s) => {
                ensure!(is(&want, &s), "{} gave {:?} instead of {:?} for {}", how, s, show(&want), evs());
                c.outcome(&s);
            }
            Err(_) => fail!("{} failed for {}", how, evs()),
        }
    }
    let rec = RefCell::new((vec![], Fault::default()));
    sval_fmt::stream_to_token_write(&mut Single(&rec), v).map_err(|_| format!("a token writer by reference failed for {}", evs()))?;
    let got = rec.into_inner().0;
    if let Some((k, t)) = got.iter().find(|(k, t)| !token_ok(*k, t)) {
        fail!("{:?} was written as a token of kind {} for {}", t, CLASS[*k as usize], evs());
    }
    for by_ref in [false, true] {
        let rec = RefCell::new((vec![], Fault::default()));
        let r = if by_ref { sval_fmt::stream_to_token_write(&mut Notified(&rec), v) } else { sval_fmt::stream_to_token_write(Notified(&rec), v) };
        ensure!(r.is_ok(), "a notified token writer failed for {}", evs());
        let got = rec.into_inner().0;
        ensure!(same_tokens(t, &got), "notifications {:?} instead of {:?} for {}", merge(&got), merge(t), evs());
    }
    c.describe(|| format!("{} => {}", evs(), show(&want)));
    Ok(())
}

fn check_node(c: &mut Ctx, n: &Node) -> Res {
    c.step(n.evs().len() * 9);
    let mut t = vec![];
    tokens(n, false, &mut t);
    check_events(c, n, &|| format!("{:?}", n.evs()), &t)
}

/// Every write position failing: an error, only a prefix written, nothing attempted afterwards.
fn check_faults(c: &mut Ctx, n: &Node) -> Res {
    let way = c.pick(5);
    let mut t = vec![];
    tokens(n, false, &mut t);
    let run = |at: Option<usize>| -> (fmt::Result, String, usize, usize) {
        let f = || Fault { at, ..Fault::default() };
        match way {
            0 | 1 | 2 => {
                // ToFmt reports a failed value in its output, which a writer that has failed must not accept
                let out = RefCell::new((String::new(), f(), way == 2));
                let r = match way {
                    0 => sval_fmt::stream_to_write(Failing(&out), n),
                    1 => write!(Failing(&out), "{}", Fmt(n)),
                    _ => write!(Failing(&out), "{:?}", sval_fmt::ToFmt::new(n)),
                };
                let (s, f, sticky) = out.into_inner();
                (r, s, f.seen, if sticky { 0 } else { f.after })
            }
            3 => {
                let out = RefCell::new((vec![], f()));
                let r = sval_fmt::stream_to_token_write(Single(&out), n);
                let (s, f) = out.into_inner();
                (r, s.into_iter().map(|t| t.1).collect(), f.seen, f.after)
            }
            _ => {
                let out = RefCell::new((vec![], f()));
                let r = sval_fmt::stream_to_token_write(&mut Notified(&out), n);
                let (s, f) = out.into_inner();
                (r, s.iter().map(|t| format!("{:?};", t)).collect(), f.seen, f.after)
            }
        }
    };
    let (r, full, calls, _) = run(None);
    ensure!(r.is_ok(), "fault-free formatting failed for {:?}", n.evs());
    if calls == 0 {
        return Ok(());
    }
    let at = c.pick(calls);
    let (r, got, _, after) = run(Some(at));
    c.step(2 * calls);
    c.outcome(&got);
    let way = ["stream_to_write", "stream_to_fmt", "ToFmt", "a token writer", "a notified token writer"][way];
    ensure!(r.is_err(), "{}: a failure of write {} was not reported for {:?}", way, at, n.evs());
    ensure!(full.starts_with(&got), "{}: after a failure of write {} the output {:?} is not a prefix of {:?}", way, at, got, full);
    ensure!(after == 0, "{}: {} calls were made after write {} failed for {:?}", way, after, at, n.evs());
    Ok(())
}

fn cut(c: &mut Ctx, s: &str) -> Kind {
    let at: Vec<usize> = (1..s.len()).filter(|i| s.is_char_boundary(*i)).filter(|_| c.flag()).collect();
    Kind::Text(s.into(), at)
}

pub fn check(thorough: bool) -> Check {
    let b = 5;
    let mut g1 = structure_gen();
    if thorough {
        (g1.width, g1.depth) = (4, 5);
    } else {
        g1.leaves.truncate(3);
    }
    let mut g2 = structure_gen();
    g2.leaves = vec![Kind::U8(1), Kind::Text("".into(), vec![])];
    g2.tag_metas = metas8();
    g2.tagged_metas = metas8();
    g2.enum_metas = metas8();
    g2.rec_metas = metas8();
    let mut g3 = Gen::basic();
    g3.leaves = number_leaves();
    g3.leaves.extend([Kind::Bool(false), Kind::Text("a'\n".into(), vec![1]), Kind::Bin(vec![0, 255], vec![1])]);
    g3.depth = 2;
    let mut g4 = Gen::basic();
    g4.leaves = vec![Kind::I64(1), Kind::F64(2.5), Kind::Text("k\n".into(), vec![1])];
    let g5 = super::c01::chain_gen(if thorough { 6 } else { 5 });
    Check {
        suites: vec![
            suite("structure", format!("every value tree of at most {} nodes, width {}, 13 metadata choices, through 9 entry points", b, if thorough { 4 } else { 2 }), move |c| {
                let n = g1.node(c, b);
                check_node(c, &n)
            }),
            suite("metadata", format!("trees of at most {} nodes with all 8 presence combinations of tag, label and index", b - 1), move |c| {
                let n = g2.node(c, b - 1);
                check_node(c, &n)
            }),
            suite("leaves", "every boundary number, text and binary leaf in every container position", move |c| {
                let n = g3.node(c, 3);
                check_node(c, &n)
            }),
            suite("chains", format!("single-child chains of wrappers up to depth {}", if thorough { 6 } else { 5 }), move |c| {
                let n = g5.node(c, if c.thorough { 7 } else { 6 });
                check_node(c, &n)
            }),
            suite("numbers", "number text in every position, cut in every way", move |c| {
                let s = *c.of(&["0", "-12.5e+3", "NaN", "1234"]);
                let n = Node::new(Kind::Tagged(m(T_NUMBER, if c.flag() { lab("N") } else { None }, None), Box::new(Node::new(cut(c, s)))));
                let n = match c.pick(4) {
                    0 => n,
                    1 => Node::new(Kind::Seq(vec![n, Node::text("1")])),
                    2 => Node::new(Kind::Map(vec![(n, Node::text("1"))])),
                    _ => Node::new(Kind::Record(M::default(), vec![(0, ident("f"), n), (0, ident("g"), Node::text("1"))])),
                };
                check_node(c, &n)
            }),
            suite("empty-enums", "an enum without a variant, alone, in containers and in enums", move |c| {
                let mm = c.of(&metas8()).clone();
                let (pre, post, want): (Vec<Ev>, Vec<Ev>, (Vec<T>, Vec<T>)) = match c.pick(4) {
                    0 => (vec![], vec![], (vec![], vec![])),
                    1 => (
                        vec![Ev::SeqBegin(None), Ev::SeqValueBegin, Ev::I64(1), Ev::SeqValueEnd, Ev::SeqValueBegin],
                        vec![Ev::SeqValueEnd, Ev::SeqEnd],
                        (vec![T::SeqBegin, T::SeqValue(true), T::Num("1".into()), T::SeqValue(false)], vec![T::SeqEnd(false)]),
                    ),
                    2 => {
                        let o = c.of(&metas8()).clone();
                        (vec![Ev::EnumBegin(o.clone())], vec![Ev::EnumEnd(o)], (vec![], vec![]))
                    }
                    _ => {
                        let o = m(0, lab("Tg"), None);
                        (vec![Ev::TaggedBegin(o.clone())], vec![Ev::TaggedEnd(o)], (vec![T::TupType("Tg".into()), T::TupBegin], vec![T::TupEnd(false)]))
                    }
                };
                let mut evs = pre;
                evs.extend([Ev::EnumBegin(mm.clone()), Ev::EnumEnd(mm.clone())]);
                evs.extend(post);
                let mut t = want.0;
                t.push(label(&mm).map(T::Type).unwrap_or(T::Null));
                t.extend(want.1);
                let s = Script(evs.clone());
                c.step(evs.len());
                check_events(c, &s, &|| format!("{:?}", evs), &t)
            }),
            suite("characters", "every Unicode scalar value as text (alone, between others, as a key) and in a field name", move |c| {
                let hi = c.pick(0x1100);
                for lo in 0..0x100u32 {
                    let Some(ch) = char::from_u32(hi as u32 * 0x100 + lo) else { continue };
                    let s: String = ["a", &ch.to_string(), "\"b"].concat();
                    let n = Node::new(Kind::Record(
                        M::default(),
                        vec![
                            (0, L { text: ch.to_string(), is_static: false, tag: 0 }, Node::text(&ch.to_string())),
                            (0, ident("g"), Node::new(Kind::Map(vec![(Node::new(Kind::Text(s.clone(), vec![1])), Node::text(&s))]))),
                        ],
                    ));
                    let mut t = vec![];
                    tokens(&n, false, &mut t);
                    let got = sval_fmt::stream_to_string(&n);
                    ensure!(is(&text(&t), &got), "character {:?} was written as {:?} instead of {:?}", ch, got, show(&text(&t)));
                    c.step(20);
                }
                c.outcome(&hi);
                Ok(())
            }),
            suite("forwarding", "every method of a token writer x argument values, called on the writer, on a reference to it and on a reference to a reference", |c| check_forward(c)),
            suite("faults", format!("every write position failing, in 5 kinds of writer, for every value tree of at most {} nodes", b - 1), move |c| {
                let n = g4.node(c, b - 1);
                check_faults(c, &n)
            }),
            suite("names", metas::bounds(), move |c| {
                let n = match metas::pick(c) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                check_node(c, &n)
            }),
            suite("empty", "trees of at most 4 (thorough: 5) nodes in which enums may be empty, with and without labels and indexes", |c| {
                let n = Gen::hollow().node(c, if c.thorough { 5 } else { 4 }).hollow(false);
                check_node(c, &n)
            }),
            suite("sizes", sizes::bounds(thorough, if thorough { 70000 } else { 1100 }, 6), move |c| {
                let n = sizes::pick_in(c, if c.thorough { 70000 } else { 1100 }, 6);
                check_node(c, &n)
            }),
        ],
        assumptions: vec!["the content of an enum is a tag, a tagged value, a record, a tuple, a record-tuple, an enum or nothing", "floats are compared by the number they read back as, since the entry points choose different notations"],
    }
}
