//! serde's data model as trees: a value that serializes itself, and a serializer that records one.
use crate::ev::*;
use crate::model::{none, some};
use serde::ser::*;
use std::cell::Cell;
use std::fmt;
use std::rc::Rc;

pub type Name = &'static str;

#[derive(Clone, Debug)]
pub enum SN {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    /// text given to the serializer as something to display
    Shown(Vec<String>),
    Bytes(Vec<u8>),
    None,
    Some(Box<SN>),
    Unit,
    UnitStruct(Name),
    UnitVariant(Name, u32, Name),
    Newtype(Name, Box<SN>),
    NewtypeVariant(Name, u32, Name, Box<SN>),
    Seq(Option<usize>, Vec<SN>),
    Tuple(Vec<SN>),
    TupleStruct(Name, Vec<SN>),
    TupleVariant(Name, u32, Name, Vec<SN>),
    Map(Option<usize>, Vec<(SN, SN)>),
    Struct(Name, Vec<(Name, SN)>),
    StructVariant(Name, u32, Name, Vec<(Name, SN)>),
}

/// Equality of data: floats by their bits, characters and shown text as text.
impl PartialEq for SN {
    fn eq(&self, o: &SN) -> bool {
        use SN::*;
        let text = |s: &SN| match s {
            Char(c) => Option::Some(c.to_string()),
            Str(s) => Option::Some(s.clone()),
            Shown(v) => Option::Some(v.concat()),
            _ => Option::None,
        };
        match (self, o) {
            (Bool(a), Bool(b)) => a == b,
            (I8(a), I8(b)) => a == b,
            (I16(a), I16(b)) => a == b,
            (I32(a), I32(b)) => a == b,
            (I64(a), I64(b)) => a == b,
            (I128(a), I128(b)) => a == b,
            (U8(a), U8(b)) => a == b,
            (U16(a), U16(b)) => a == b,
            (U32(a), U32(b)) => a == b,
            (U64(a), U64(b)) => a == b,
            (U128(a), U128(b)) => a == b,
            (F32(a), F32(b)) => a.to_bits() == b.to_bits(),
            (F64(a), F64(b)) => a.to_bits() == b.to_bits(),
            (Bytes(a), Bytes(b)) => a == b,
            (None, None) | (Unit, Unit) => true,
            (Some(a), Some(b)) => a == b,
            (UnitStruct(a), UnitStruct(b)) => a == b,
            (UnitVariant(a, b, c), UnitVariant(d, e, f)) => (a, b, c) == (d, e, f),
            (Newtype(a, b), Newtype(c, d)) => (a, b) == (c, d),
            (NewtypeVariant(a, b, c, d), NewtypeVariant(e, f, g, h)) => (a, b, c, d) == (e, f, g, h),
            (Seq(a, b), Seq(c, d)) => (a, b) == (c, d),
            (Tuple(a), Tuple(b)) => a == b,
            (TupleStruct(a, b), TupleStruct(c, d)) => (a, b) == (c, d),
            (TupleVariant(a, b, c, d), TupleVariant(e, f, g, h)) => (a, b, c, d) == (e, f, g, h),
            (Map(a, b), Map(c, d)) => (a, b) == (c, d),
            (Struct(a, b), Struct(c, d)) => (a, b) == (c, d),
            (StructVariant(a, b, c, d), StructVariant(e, f, g, h)) => (a, b, c, d) == (e, f, g, h),
            _ => text(self).is_some() && text(self) == text(o),
        }
    }
}

struct Pieces<'a>(&'a [String]);
impl fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        plain(f)?;
        self.0.iter().try_for_each(|s| f.write_str(s))
    }
}

impl Serialize for SN {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            SN::Bool(v) => s.serialize_bool(*v),
            SN::I8(v) => s.serialize_i8(*v),
            SN::I16(v) => s.serialize_i16(*v),
            SN::I32(v) => s.serialize_i32(*v),
            SN::I64(v) => s.serialize_i64(*v),
            SN::I128(v) => s.serialize_i128(*v),
            SN::U8(v) => s.serialize_u8(*v),
            SN::U16(v) => s.serialize_u16(*v),
            SN::U32(v) => s.serialize_u32(*v),
            SN::U64(v) => s.serialize_u64(*v),
            SN::U128(v) => s.serialize_u128(*v),
            SN::F32(v) => s.serialize_f32(*v),
            SN::F64(v) => s.serialize_f64(*v),
            SN::Char(v) => s.serialize_char(*v),
            SN::Str(v) => s.serialize_str(v),
            SN::Shown(v) => s.collect_str(&Pieces(v)),
            SN::Bytes(v) => s.serialize_bytes(v),
            SN::None => s.serialize_none(),
            SN::Some(v) => s.serialize_some(&**v),
            SN::Unit => s.serialize_unit(),
            SN::UnitStruct(n) => s.serialize_unit_struct(n),
            SN::UnitVariant(n, i, v) => s.serialize_unit_variant(n, *i, v),
            SN::Newtype(n, x) => s.serialize_newtype_struct(n, &**x),
            SN::NewtypeVariant(n, i, v, x) => s.serialize_newtype_variant(n, *i, v, &**x),
            SN::Seq(l, v) => {
                let mut q = s.serialize_seq(*l)?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            SN::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            SN::TupleStruct(n, v) => {
                let mut q = s.serialize_tuple_struct(n, v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            SN::TupleVariant(n, i, l, v) => {
                let mut q = s.serialize_tuple_variant(n, *i, l, v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            SN::Map(l, v) => {
                let mut q = s.serialize_map(*l)?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i % 2 == 0 {
                        q.serialize_key(k)?;
                        q.serialize_value(x)?;
                    } else {
                        q.serialize_entry(k, x)?;
                    }
                }
                q.end()
            }
            SN::Struct(n, v) => {
                let mut q = s.serialize_struct(n, v.len())?;
                for (f, x) in v {
                    q.serialize_field(f, x)?;
                    q.skip_field("skipped")?;
                }
                q.end()
            }
            SN::StructVariant(n, i, l, v) => {
                let mut q = s.serialize_struct_variant(n, *i, l, v.len())?;
                for (f, x) in v {
                    q.serialize_field(f, x)?;
                    q.skip_field("skipped")?;
                }
                q.end()
            }
        }
    }
}

fn name(n: &str) -> Option<L> {
    Some(L { text: n.into(), is_static: true, tag: 0 })
}
fn num(i: u32) -> Option<I> {
    Some(I { val: i as i128, tag: 0 })
}

/// The events serde data is streamed as.
pub fn events(s: &SN, o: &mut Vec<Ev>) {
    let text = |t: &str, size: bool, o: &mut Vec<Ev>| o.extend([Ev::TextBegin(size.then_some(t.len())), Ev::Text(t.into(), false), Ev::TextEnd]);
    let tuple = |m: M, v: &[SN], o: &mut Vec<Ev>| {
        o.push(Ev::TupleBegin(m.clone(), Some(v.len())));
        for (i, x) in v.iter().enumerate() {
            let i = I { val: i as i128, tag: 0 };
            o.push(Ev::TupleValueBegin(0, i.clone()));
            events(x, o);
            o.push(Ev::TupleValueEnd(0, i));
        }
        o.push(Ev::TupleEnd(m));
    };
    let record = |m: M, v: &[(Name, SN)], o: &mut Vec<Ev>| {
        o.push(Ev::RecordBegin(m.clone(), Some(v.len())));
        for (f, x) in v {
            let l = name(f).unwrap();
            o.push(Ev::RecordValueBegin(0, l.clone()));
            events(x, o);
            o.push(Ev::RecordValueEnd(0, l));
        }
        o.push(Ev::RecordEnd(m));
    };
    let variant = |n: &str, o: &mut Vec<Ev>, f: &dyn Fn(&mut Vec<Ev>)| {
        let m = M { tag: 0, label: name(n), index: None };
        o.push(Ev::EnumBegin(m.clone()));
        f(o);
        o.push(Ev::EnumEnd(m));
    };
    match s {
        SN::Bool(v) => o.push(Ev::Bool(*v)),
        SN::I8(v) => o.push(Ev::I8(*v)),
        SN::I16(v) => o.push(Ev::I16(*v)),
        SN::I32(v) => o.push(Ev::I32(*v)),
        SN::I64(v) => o.push(Ev::I64(*v)),
        SN::I128(v) => o.push(Ev::I128(*v)),
        SN::U8(v) => o.push(Ev::U8(*v)),
        SN::U16(v) => o.push(Ev::U16(*v)),
        SN::U32(v) => o.push(Ev::U32(*v)),
        SN::U64(v) => o.push(Ev::U64(*v)),
        SN::U128(v) => o.push(Ev::U128(*v)),
        SN::F32(v) => o.push(Ev::F32(v.to_bits())),
        SN::F64(v) => o.push(Ev::F64(v.to_bits())),
        SN::Char(v) => text(&v.to_string(), true, o),
        SN::Str(v) => text(v, true, o),
        SN::Shown(v) => text(&v.concat(), false, o),
        SN::Bytes(v) => o.extend([Ev::BinBegin(Some(v.len())), Ev::Bin(v.clone(), false), Ev::BinEnd]),
        SN::None => o.push(Ev::Tag(none())),
        SN::Some(x) => {
            o.push(Ev::TaggedBegin(some()));
            events(x, o);
            o.push(Ev::TaggedEnd(some()));
        }
        SN::Unit => o.push(Ev::Tag(M { tag: T_UNIT, label: None, index: None })),
        SN::UnitStruct(n) => o.push(Ev::Tag(M { tag: 0, label: name(n), index: None })),
        SN::UnitVariant(n, i, v) => variant(n, o, &|o| o.push(Ev::Tag(M { tag: 0, label: name(v), index: num(*i) }))),
        SN::Newtype(n, x) => {
            let m = M { tag: 0, label: name(n), index: None };
            o.push(Ev::TaggedBegin(m.clone()));
            events(x, o);
            o.push(Ev::TaggedEnd(m));
        }
        SN::NewtypeVariant(n, i, v, x) => variant(n, o, &|o| {
            let m = M { tag: 0, label: name(v), index: num(*i) };
            o.push(Ev::TaggedBegin(m.clone()));
            events(x, o);
            o.push(Ev::TaggedEnd(m));
        }),
        SN::Seq(l, v) => {
            o.push(Ev::SeqBegin(*l));
            for x in v {
                o.push(Ev::SeqValueBegin);
                events(x, o);
                o.push(Ev::SeqValueEnd);
            }
            o.push(Ev::SeqEnd);
        }
        SN::Map(l, v) => {
            o.push(Ev::MapBegin(*l));
            for (k, x) in v {
                o.push(Ev::MapKeyBegin);
                events(k, o);
                o.extend([Ev::MapKeyEnd, Ev::MapValueBegin]);
                events(x, o);
                o.push(Ev::MapValueEnd);
            }
            o.push(Ev::MapEnd);
        }
        SN::Tuple(v) => tuple(M::default(), v, o),
        SN::TupleStruct(n, v) => tuple(M { tag: 0, label: name(n), index: None }, v, o),
        SN::TupleVariant(n, i, l, v) => variant(n, o, &|o| tuple(M { tag: 0, label: name(l), index: num(*i) }, v, o)),
        SN::Struct(n, v) => record(M { tag: 0, label: name(n), index: None }, v, o),
        SN::StructVariant(n, i, l, v) => variant(n, o, &|o| record(M { tag: 0, label: name(l), index: num(*i) }, v, o)),
    }
}

/// Counts serializer calls; one of them may fail.
#[derive(Default)]
pub struct SCtl {
    pub at: Cell<usize>,
    pub seen: Cell<usize>,
    pub after: Cell<usize>,
}
impl SCtl {
    pub fn failing(at: usize) -> Rc<SCtl> {
        Rc::new(SCtl { at: Cell::new(at), ..SCtl::default() })
    }
    fn call(&self) -> Result<(), SErr> {
        let i = self.seen.get();
        self.seen.set(i + 1);
        if i > self.at.get() {
            self.after.set(self.after.get() + 1);
        }
        if i == self.at.get() {
            Err(SErr("injected".into()))
        } else {
            Ok(())
        }
    }
}

#[derive(Debug)]
pub struct SErr(pub String);
impl fmt::Display for SErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for SErr {}
impl Error for SErr {
    fn custom<T: fmt::Display>(t: T) -> SErr {
        SErr(t.to_string())
    }
}

#[derive(Clone)]
pub struct SRec(pub Rc<SCtl>);
impl SRec {
    pub fn new() -> SRec {
        SRec(SCtl::failing(usize::MAX))
    }
}

pub enum Shape {
    Seq(Option<usize>),
    Tuple(usize),
    TupleStruct(Name, usize),
    TupleVariant(Name, u32, Name, usize),
    Map(Option<usize>),
    Struct(Name, usize),
    StructVariant(Name, u32, Name, usize),
}
pub struct SParts {
    rec: SRec,
    shape: Shape,
    items: Vec<SN>,
    names: Vec<Name>,
    key: Option<SN>,
    entries: Vec<(SN, SN)>,
}
impl SParts {
    fn item<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SErr> {
        self.rec.0.call()?;
        self.items.push(v.serialize(self.rec.clone())?);
        Ok(())
    }
    fn named<T: Serialize + ?Sized>(&mut self, n: Name, v: &T) -> Result<(), SErr> {
        self.names.push(n);
        self.item(v)
    }
    fn finish(self) -> Result<SN, SErr> {
        self.rec.0.call()?;
        let SParts { shape, items, names, entries, key, .. } = self;
        let len = |l: usize| {
            if l == items.len() {
                Ok(())
            } else {
                Err(SErr(format!("{} entries announced but {} given", l, items.len())))
            }
        };
        if key.is_some() {
            return Err(SErr("a map key without a value".into()));
        }
        Ok(match shape {
            Shape::Seq(l) => {
                len(l.unwrap_or(items.len()))?;
                SN::Seq(l, items)
            }
            Shape::Tuple(l) => {
                len(l)?;
                SN::Tuple(items)
            }
            Shape::TupleStruct(n, l) => {
                len(l)?;
                SN::TupleStruct(n, items)
            }
            Shape::TupleVariant(n, i, v, l) => {
                len(l)?;
                SN::TupleVariant(n, i, v, items)
            }
            Shape::Map(l) => {
                if l.is_some_and(|l| l != entries.len()) {
                    return Err(SErr(format!("{:?} entries announced but {} given", l, entries.len())));
                }
                SN::Map(l, entries)
            }
            Shape::Struct(n, l) => {
                len(l)?;
                SN::Struct(n, names.into_iter().zip(items).collect())
            }
            Shape::StructVariant(n, i, v, l) => {
                len(l)?;
                SN::StructVariant(n, i, v, names.into_iter().zip(items).collect())
            }
        })
    }
}

macro_rules! leaf {
    ($($f:ident: $t:ty => $v:ident),*) => { $(fn $f(self, v: $t) -> Result<SN, SErr> { self.0.call()?; Ok(SN::$v(v.into())) })* };
}
impl SRec {
    fn open(self, shape: Shape) -> Result<SParts, SErr> {
        self.0.call()?;
        Ok(SParts { rec: self, shape, items: vec![], names: vec![], key: None, entries: vec![] })
    }
}
impl Serializer for SRec {
    type Ok = SN;
    type Error = SErr;
    type SerializeSeq = SParts;
    type SerializeTuple = SParts;
    type SerializeTupleStruct = SParts;
    type SerializeTupleVariant = SParts;
    type SerializeMap = SParts;
    type SerializeStruct = SParts;
    type SerializeStructVariant = SParts;
    leaf!(serialize_bool: bool => Bool, serialize_i8: i8 => I8, serialize_i16: i16 => I16, serialize_i32: i32 => I32, serialize_i64: i64 => I64, serialize_i128: i128 => I128,
        serialize_u8: u8 => U8, serialize_u16: u16 => U16, serialize_u32: u32 => U32, serialize_u64: u64 => U64, serialize_u128: u128 => U128,
        serialize_f32: f32 => F32, serialize_f64: f64 => F64, serialize_char: char => Char, serialize_str: &str => Str, serialize_bytes: &[u8] => Bytes);
    fn serialize_none(self) -> Result<SN, SErr> {
        self.0.call()?;
        Ok(SN::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<SN, SErr> {
        self.0.call()?;
        Ok(SN::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<SN, SErr> {
        self.0.call()?;
        Ok(SN::Unit)
    }
    fn serialize_unit_struct(self, n: Name) -> Result<SN, SErr> {
        self.0.call()?;
        Ok(SN::UnitStruct(n))
    }
    fn serialize_unit_variant(self, n: Name, i: u32, v: Name) -> Result<SN, SErr> {
        self.0.call()?;
        Ok(SN::UnitVariant(n, i, v))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: Name, v: &T) -> Result<SN, SErr> {
        self.0.call()?;
        Ok(SN::Newtype(n, Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, n: Name, i: u32, l: Name, v: &T) -> Result<SN, SErr> {
        self.0.call()?;
        Ok(SN::NewtypeVariant(n, i, l, Box::new(v.serialize(self)?)))
    }
    fn serialize_seq(self, l: Option<usize>) -> Result<SParts, SErr> {
        self.open(Shape::Seq(l))
    }
    fn serialize_tuple(self, l: usize) -> Result<SParts, SErr> {
        self.open(Shape::Tuple(l))
    }
    fn serialize_tuple_struct(self, n: Name, l: usize) -> Result<SParts, SErr> {
        self.open(Shape::TupleStruct(n, l))
    }
    fn serialize_tuple_variant(self, n: Name, i: u32, v: Name, l: usize) -> Result<SParts, SErr> {
        self.open(Shape::TupleVariant(n, i, v, l))
    }
    fn serialize_map(self, l: Option<usize>) -> Result<SParts, SErr> {
        self.open(Shape::Map(l))
    }
    fn serialize_struct(self, n: Name, l: usize) -> Result<SParts, SErr> {
        self.open(Shape::Struct(n, l))
    }
    fn serialize_struct_variant(self, n: Name, i: u32, v: Name, l: usize) -> Result<SParts, SErr> {
        self.open(Shape::StructVariant(n, i, v, l))
    }
}
macro_rules! parts {
    ($($t:ident $f:ident),*) => { $(impl $t for SParts {
        type Ok = SN;
        type Error = SErr;
        fn $f<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SErr> { self.item(v) }
        fn end(self) -> Result<SN, SErr> { self.finish() }
    })* };
}
parts!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! named_parts {
    ($($t:ident),*) => { $(impl $t for SParts {
        type Ok = SN;
        type Error = SErr;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, n: Name, v: &T) -> Result<(), SErr> { self.named(n, v) }
        fn end(self) -> Result<SN, SErr> { self.finish() }
    })* };
}
named_parts!(SerializeStruct, SerializeStructVariant);
impl SerializeMap for SParts {
    type Ok = SN;
    type Error = SErr;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SErr> {
        self.rec.0.call()?;
        let k = v.serialize(self.rec.clone())?;
        if self.key.replace(k).is_some() {
            return Err(SErr("two keys in a row".into()));
        }
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), SErr> {
        self.rec.0.call()?;
        let v = v.serialize(self.rec.clone())?;
        match self.key.take() {
            Some(k) => self.entries.push((k, v)),
            None => return Err(SErr("a map value without a key".into())),
        }
        Ok(())
    }
    fn end(self) -> Result<SN, SErr> {
        self.finish()
    }
}

/// What is displayed is asked for plainly: any formatting option would show.
pub fn plain(f: &mut std::fmt::Formatter) -> std::fmt::Result {
    match (f.alternate(), f.width(), f.precision()) {
        (false, None, None) => Ok(()),
        o => write!(f, "<formatted with {:?}>", o),
    }
}
