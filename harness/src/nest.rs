//! Recording nested streams.

use crate::ev::*;
use std::cell::Cell;
use std::rc::Rc;
use sval::{Index, Label, Tag};
use sval_nested::{Error, Result, Stream, StreamEnum, StreamMap, StreamRecord, StreamSeq, StreamTuple, ValueRef};

/// Counts calls, and fails one of them.
#[derive(Default)]
pub struct Ctl {
    pub seen: Cell<usize>,
    pub at: Cell<Option<usize>>,
    pub failed: Cell<bool>,
    pub after: Cell<usize>,
}
impl Ctl {
    pub fn failing(at: usize) -> Rc<Ctl> {
        let c = Ctl::default();
        c.at.set(Some(at));
        Rc::new(c)
    }
    fn call(&self) -> Result {
        if self.failed.get() {
            self.after.set(self.after.get() + 1);
            return Err(Error::invalid_value("already failed"));
        }
        let k = self.seen.get();
        self.seen.set(k + 1);
        if self.at.get() == Some(k) {
            self.failed.set(true);
            return Err(Error::invalid_value("injected"));
        }
        Ok(())
    }
}

/// How a recorder looks at the values it is handed.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode {
    /// recurse through the nested interface
    Nested,
    /// recurse, taking everything as short-lived
    Short,
    /// stream into a flat recorder
    Flat,
}
pub const MODES: [Mode; 3] = [Mode::Nested, Mode::Short, Mode::Flat];

#[derive(Clone)]
pub struct NRec {
    pub mode: Mode,
    pub ctl: Rc<Ctl>,
}
impl NRec {
    pub fn new(mode: Mode) -> NRec {
        NRec { mode, ctl: Default::default() }
    }
    fn kid<'sval, V: ValueRef<'sval>>(&self, v: V) -> Result<Vec<Ev>> {
        match self.mode {
            Mode::Nested => Stream::value(self.clone(), v),
            Mode::Short => Stream::value_computed(self.clone(), v),
            Mode::Flat => {
                let mut f = Full(vec![]);
                v.stream_ref(&mut f).map_err(|_| Error::invalid_value("child failed"))?;
                Ok(f.0)
            }
        }
    }
    fn kid_computed<V: sval::Value>(&self, v: V) -> Result<Vec<Ev>> {
        match self.mode {
            Mode::Nested | Mode::Short => Stream::value_computed(self.clone(), v),
            Mode::Flat => {
                let mut f = Full(vec![]);
                f.value_computed(&v).map_err(|_| Error::invalid_value("child failed"))?;
                Ok(f.0)
            }
        }
    }
    fn one(&self, e: Ev) -> Result<Vec<Ev>> {
        self.ctl.call()?;
        Ok(vec![e])
    }
}
use sval::Stream as _;

fn meta(tag: &Option<Tag>, label: &Option<Label>, index: &Option<Index>) -> M {
    M::of(tag.as_ref(), label.as_ref(), index.as_ref())
}
fn tg(t: &Option<Tag>) -> u8 {
    t.as_ref().map(tag_id).unwrap_or(0)
}

pub struct Parts {
    r: NRec,
    out: Vec<Ev>,
    end: Ev,
    /// enclosing enums, innermost last
    open: Vec<M>,
}
impl Parts {
    fn new(r: NRec, begin: Ev, end: Ev) -> Result<Parts> {
        r.ctl.call()?;
        Ok(Parts { r, out: vec![begin], end, open: vec![] })
    }
    fn part(&mut self, b: Ev, v: Vec<Ev>, e: Ev) {
        self.out.push(b);
        self.out.extend(v);
        self.out.push(e);
    }
    fn done(mut self) -> Result<Vec<Ev>> {
        self.r.ctl.call()?;
        self.out.push(self.end);
        Ok(wrap(&self.open, self.out))
    }
}
pub fn wrap(open: &[M], mut out: Vec<Ev>) -> Vec<Ev> {
    for m in open.iter().rev() {
        out.insert(0, Ev::EnumBegin(m.clone()));
        out.push(Ev::EnumEnd(m.clone()));
    }
    out
}

macro_rules! nums {
    ($($f:ident $t:ident $e:ident),*) => { $( fn $f(self, v: $t) -> Result<Vec<Ev>> { self.one(Ev::$e(v)) } )* };
}

impl<'sval> Stream<'sval> for NRec {
    type Ok = Vec<Ev>;
    type Seq = Parts;
    type Map = Parts;
    type Tuple = Parts;
    type Record = Parts;
    type Enum = NEnum;

    fn null(self) -> Result<Vec<Ev>> {
        self.one(Ev::Null)
    }
    nums!(bool bool Bool, i8 i8 I8, i16 i16 I16, i32 i32 I32, i64 i64 I64, i128 i128 I128, u8 u8 U8, u16 u16 U16, u32 u32 U32, u64 u64 U64, u128 u128 U128);
    fn f32(self, v: f32) -> Result<Vec<Ev>> {
        self.one(Ev::F32(v.to_bits()))
    }
    fn f64(self, v: f64) -> Result<Vec<Ev>> {
        self.one(Ev::F64(v.to_bits()))
    }
    fn text(self, t: &'sval str) -> Result<Vec<Ev>> {
        self.ctl.call()?;
        Ok(vec![Ev::TextBegin(Some(t.len())), Ev::Text(t.into(), true), Ev::TextEnd])
    }
    fn text_computed(self, t: &str) -> Result<Vec<Ev>> {
        self.ctl.call()?;
        Ok(vec![Ev::TextBegin(Some(t.len())), Ev::Text(t.into(), false), Ev::TextEnd])
    }
    fn binary(self, t: &'sval [u8]) -> Result<Vec<Ev>> {
        self.ctl.call()?;
        Ok(vec![Ev::BinBegin(Some(t.len())), Ev::Bin(t.into(), true), Ev::BinEnd])
    }
    fn binary_computed(self, t: &[u8]) -> Result<Vec<Ev>> {
        self.ctl.call()?;
        Ok(vec![Ev::BinBegin(Some(t.len())), Ev::Bin(t.into(), false), Ev::BinEnd])
    }
    fn tag(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> Result<Vec<Ev>> {
        self.one(Ev::Tag(meta(&t, &l, &i)))
    }
    fn tagged<V: ValueRef<'sval>>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> Result<Vec<Ev>> {
        let m = meta(&t, &l, &i);
        let mut p = Parts::new(self, Ev::TaggedBegin(m.clone()), Ev::TaggedEnd(m))?;
        let k = p.r.kid(v)?;
        p.out.extend(k);
        p.out.push(p.end);
        Ok(p.out)
    }
    fn tagged_computed<V: sval::Value>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> Result<Vec<Ev>> {
        let m = meta(&t, &l, &i);
        let mut p = Parts::new(self, Ev::TaggedBegin(m.clone()), Ev::TaggedEnd(m))?;
        let k = p.r.kid_computed(v)?;
        p.out.extend(k);
        p.out.push(p.end);
        Ok(p.out)
    }
    fn seq_begin(self, n: Option<usize>) -> Result<Parts> {
        Parts::new(self, Ev::SeqBegin(n), Ev::SeqEnd)
    }
    fn map_begin(self, n: Option<usize>) -> Result<Parts> {
        Parts::new(self, Ev::MapBegin(n), Ev::MapEnd)
    }
    fn tuple_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<Parts> {
        let m = meta(&t, &l, &i);
        Parts::new(self, Ev::TupleBegin(m.clone(), n), Ev::TupleEnd(m))
    }
    fn record_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<Parts> {
        let m = meta(&t, &l, &i);
        Parts::new(self, Ev::RecordBegin(m.clone(), n), Ev::RecordEnd(m))
    }
    fn enum_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> Result<NEnum> {
        self.ctl.call()?;
        Ok(NEnum { r: self, open: vec![meta(&t, &l, &i)] })
    }
}

impl<'sval> StreamSeq<'sval> for Parts {
    type Ok = Vec<Ev>;
    fn value<V: ValueRef<'sval>>(&mut self, v: V) -> Result {
        self.r.ctl.call()?;
        let k = self.r.kid(v)?;
        self.part(Ev::SeqValueBegin, k, Ev::SeqValueEnd);
        Ok(())
    }
    fn value_computed<V: sval::Value>(&mut self, v: V) -> Result {
        self.r.ctl.call()?;
        let k = self.r.kid_computed(v)?;
        self.part(Ev::SeqValueBegin, k, Ev::SeqValueEnd);
        Ok(())
    }
    fn end(self) -> Result<Vec<Ev>> {
        self.done()
    }
}
impl<'sval> StreamMap<'sval> for Parts {
    type Ok = Vec<Ev>;
    fn key<V: ValueRef<'sval>>(&mut self, v: V) -> Result {
        self.r.ctl.call()?;
        let k = self.r.kid(v)?;
        self.part(Ev::MapKeyBegin, k, Ev::MapKeyEnd);
        Ok(())
    }
    fn key_computed<V: sval::Value>(&mut self, v: V) -> Result {
        self.r.ctl.call()?;
        let k = self.r.kid_computed(v)?;
        self.part(Ev::MapKeyBegin, k, Ev::MapKeyEnd);
        Ok(())
    }
    fn value<V: ValueRef<'sval>>(&mut self, v: V) -> Result {
        self.r.ctl.call()?;
        let k = self.r.kid(v)?;
        self.part(Ev::MapValueBegin, k, Ev::MapValueEnd);
        Ok(())
    }
    fn value_computed<V: sval::Value>(&mut self, v: V) -> Result {
        self.r.ctl.call()?;
        let k = self.r.kid_computed(v)?;
        self.part(Ev::MapValueBegin, k, Ev::MapValueEnd);
        Ok(())
    }
    fn end(self) -> Result<Vec<Ev>> {
        self.done()
    }
}
impl<'sval> StreamTuple<'sval> for Parts {
    type Ok = Vec<Ev>;
    fn value<V: ValueRef<'sval>>(&mut self, t: Option<Tag>, i: Index, v: V) -> Result {
        self.r.ctl.call()?;
        let k = self.r.kid(v)?;
        self.part(Ev::TupleValueBegin(tg(&t), I::of(&i)), k, Ev::TupleValueEnd(tg(&t), I::of(&i)));
        Ok(())
    }
    fn value_computed<V: sval::Value>(&mut self, t: Option<Tag>, i: Index, v: V) -> Result {
        self.r.ctl.call()?;
        let k = self.r.kid_computed(v)?;
        self.part(Ev::TupleValueBegin(tg(&t), I::of(&i)), k, Ev::TupleValueEnd(tg(&t), I::of(&i)));
        Ok(())
    }
    fn end(self) -> Result<Vec<Ev>> {
        self.done()
    }
}
impl<'sval> StreamRecord<'sval> for Parts {
    type Ok = Vec<Ev>;
    fn value<V: ValueRef<'sval>>(&mut self, t: Option<Tag>, l: Label, v: V) -> Result {
        self.r.ctl.call()?;
        let k = self.r.kid(v)?;
        self.part(Ev::RecordValueBegin(tg(&t), L::of(&l)), k, Ev::RecordValueEnd(tg(&t), L::of(&l)));
        Ok(())
    }
    fn value_computed<V: sval::Value>(&mut self, t: Option<Tag>, l: Label, v: V) -> Result {
        self.r.ctl.call()?;
        let k = self.r.kid_computed(v)?;
        self.part(Ev::RecordValueBegin(tg(&t), L::of(&l)), k, Ev::RecordValueEnd(tg(&t), L::of(&l)));
        Ok(())
    }
    fn end(self) -> Result<Vec<Ev>> {
        self.done()
    }
}

pub struct NEnum {
    r: NRec,
    open: Vec<M>,
}
impl<'sval> StreamEnum<'sval> for NEnum {
    type Ok = Vec<Ev>;
    type Tuple = Parts;
    type Record = Parts;
    type Nested = NEnum;

    fn tag(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> Result<Vec<Ev>> {
        Ok(wrap(&self.open, self.r.one(Ev::Tag(meta(&t, &l, &i)))?))
    }
    fn tagged<V: ValueRef<'sval>>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> Result<Vec<Ev>> {
        Ok(wrap(&self.open, Stream::tagged(self.r, t, l, i, v)?))
    }
    fn tagged_computed<V: sval::Value>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> Result<Vec<Ev>> {
        Ok(wrap(&self.open, Stream::tagged_computed(self.r, t, l, i, v)?))
    }
    fn tuple_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<Parts> {
        let mut p = Stream::tuple_begin(self.r, t, l, i, n)?;
        p.open = self.open;
        Ok(p)
    }
    fn record_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<Parts> {
        let mut p = Stream::record_begin(self.r, t, l, i, n)?;
        p.open = self.open;
        Ok(p)
    }
    fn nested<F: FnOnce(NEnum) -> Result<Vec<Ev>>>(mut self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, f: F) -> Result<Vec<Ev>> {
        self.r.ctl.call()?;
        self.open.push(meta(&t, &l, &i));
        f(self)
    }
    fn empty(self) -> Result<Vec<Ev>> {
        self.r.ctl.call()?;
        Ok(wrap(&self.open, vec![]))
    }
}

/// Implements the required methods only.
#[derive(Clone, Copy)]
pub struct NMin;
pub struct MinParts(Vec<Ev>, Ev);
fn kid<V: sval::Value>(v: V) -> Result<Vec<Ev>> {
    Stream::value_computed(NMin, v)
}
impl MinParts {
    fn part(&mut self, b: Ev, v: Vec<Ev>, e: Ev) -> Result {
        self.0.push(b);
        self.0.extend(v);
        self.0.push(e);
        Ok(())
    }
    fn done(mut self) -> Result<Vec<Ev>> {
        self.0.push(self.1);
        Ok(self.0)
    }
}
impl<'sval> Stream<'sval> for NMin {
    type Ok = Vec<Ev>;
    type Seq = MinParts;
    type Map = MinParts;
    type Tuple = MinParts;
    type Record = MinParts;
    type Enum = MinEnum;
    fn null(self) -> Result<Vec<Ev>> {
        Ok(vec![Ev::Null])
    }
    fn bool(self, v: bool) -> Result<Vec<Ev>> {
        Ok(vec![Ev::Bool(v)])
    }
    fn i64(self, v: i64) -> Result<Vec<Ev>> {
        Ok(vec![Ev::I64(v)])
    }
    fn f64(self, v: f64) -> Result<Vec<Ev>> {
        Ok(vec![Ev::F64(v.to_bits())])
    }
    fn text_computed(self, t: &str) -> Result<Vec<Ev>> {
        Ok(vec![Ev::TextBegin(Some(t.len())), Ev::Text(t.into(), false), Ev::TextEnd])
    }
    fn seq_begin(self, n: Option<usize>) -> Result<MinParts> {
        Ok(MinParts(vec![Ev::SeqBegin(n)], Ev::SeqEnd))
    }
    fn map_begin(self, n: Option<usize>) -> Result<MinParts> {
        Ok(MinParts(vec![Ev::MapBegin(n)], Ev::MapEnd))
    }
    fn tuple_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<MinParts> {
        let m = meta(&t, &l, &i);
        Ok(MinParts(vec![Ev::TupleBegin(m.clone(), n)], Ev::TupleEnd(m)))
    }
    fn record_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<MinParts> {
        let m = meta(&t, &l, &i);
        Ok(MinParts(vec![Ev::RecordBegin(m.clone(), n)], Ev::RecordEnd(m)))
    }
    fn enum_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> Result<MinEnum> {
        Ok(MinEnum(vec![meta(&t, &l, &i)]))
    }
}
impl<'sval> StreamSeq<'sval> for MinParts {
    type Ok = Vec<Ev>;
    fn value_computed<V: sval::Value>(&mut self, v: V) -> Result {
        let k = kid(v)?;
        self.part(Ev::SeqValueBegin, k, Ev::SeqValueEnd)
    }
    fn end(self) -> Result<Vec<Ev>> {
        self.done()
    }
}
impl<'sval> StreamMap<'sval> for MinParts {
    type Ok = Vec<Ev>;
    fn key_computed<V: sval::Value>(&mut self, v: V) -> Result {
        let k = kid(v)?;
        self.part(Ev::MapKeyBegin, k, Ev::MapKeyEnd)
    }
    fn value_computed<V: sval::Value>(&mut self, v: V) -> Result {
        let k = kid(v)?;
        self.part(Ev::MapValueBegin, k, Ev::MapValueEnd)
    }
    fn end(self) -> Result<Vec<Ev>> {
        self.done()
    }
}
impl<'sval> StreamTuple<'sval> for MinParts {
    type Ok = Vec<Ev>;
    fn value_computed<V: sval::Value>(&mut self, t: Option<Tag>, i: Index, v: V) -> Result {
        let k = kid(v)?;
        self.part(Ev::TupleValueBegin(tg(&t), I::of(&i)), k, Ev::TupleValueEnd(tg(&t), I::of(&i)))
    }
    fn end(self) -> Result<Vec<Ev>> {
        self.done()
    }
}
impl<'sval> StreamRecord<'sval> for MinParts {
    type Ok = Vec<Ev>;
    fn value_computed<V: sval::Value>(&mut self, t: Option<Tag>, l: Label, v: V) -> Result {
        let k = kid(v)?;
        self.part(Ev::RecordValueBegin(tg(&t), L::of(&l)), k, Ev::RecordValueEnd(tg(&t), L::of(&l)))
    }
    fn end(self) -> Result<Vec<Ev>> {
        self.done()
    }
}
pub struct MinEnum(Vec<M>);
pub struct MinVariant(Vec<M>, MinParts);
impl<'sval> StreamTuple<'sval> for MinVariant {
    type Ok = Vec<Ev>;
    fn value_computed<V: sval::Value>(&mut self, t: Option<Tag>, i: Index, v: V) -> Result {
        StreamTuple::value_computed(&mut self.1, t, i, v)
    }
    fn end(self) -> Result<Vec<Ev>> {
        Ok(wrap(&self.0, self.1.done()?))
    }
}
impl<'sval> StreamRecord<'sval> for MinVariant {
    type Ok = Vec<Ev>;
    fn value_computed<V: sval::Value>(&mut self, t: Option<Tag>, l: Label, v: V) -> Result {
        StreamRecord::value_computed(&mut self.1, t, l, v)
    }
    fn end(self) -> Result<Vec<Ev>> {
        Ok(wrap(&self.0, self.1.done()?))
    }
}
impl<'sval> StreamEnum<'sval> for MinEnum {
    type Ok = Vec<Ev>;
    type Tuple = MinVariant;
    type Record = MinVariant;
    type Nested = MinEnum;
    fn tag(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>) -> Result<Vec<Ev>> {
        Ok(wrap(&self.0, vec![Ev::Tag(meta(&t, &l, &i))]))
    }
    fn tagged_computed<V: sval::Value>(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, v: V) -> Result<Vec<Ev>> {
        let m = meta(&t, &l, &i);
        let mut o = vec![Ev::TaggedBegin(m.clone())];
        o.extend(kid(v)?);
        o.push(Ev::TaggedEnd(m));
        Ok(wrap(&self.0, o))
    }
    fn tuple_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<MinVariant> {
        Ok(MinVariant(self.0, Stream::tuple_begin(NMin, t, l, i, n)?))
    }
    fn record_begin(self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, n: Option<usize>) -> Result<MinVariant> {
        Ok(MinVariant(self.0, Stream::record_begin(NMin, t, l, i, n)?))
    }
    fn nested<F: FnOnce(MinEnum) -> Result<Vec<Ev>>>(mut self, t: Option<Tag>, l: Option<Label>, i: Option<Index>, f: F) -> Result<Vec<Ev>> {
        self.0.push(meta(&t, &l, &i));
        f(self)
    }
    fn empty(self) -> Result<Vec<Ev>> {
        Ok(wrap(&self.0, vec![]))
    }
}
