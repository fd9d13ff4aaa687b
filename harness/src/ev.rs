//! The event alphabet of the data model, recording streams, and event-list producers.

use sval::{Index, Label, Result, Stream, Tag, Value};

/// Tags by small id, so that events can be compared and hashed.
pub const T_SOME: u8 = 1;
pub const T_NONE: u8 = 2;
pub const T_UNIT: u8 = 3;
pub const T_NUMBER: u8 = 4;
pub const T_CONST: u8 = 5;
pub const T_IDENT: u8 = 6;
pub const T_OFFSET: u8 = 7;
pub const T_X: u8 = 8;
pub const T_Y: u8 = 9;
pub const T_JVALUE: u8 = 10;
pub const T_JTEXT: u8 = 11;
pub const T_JNUMBER: u8 = 12;

pub const TAG_X: Tag = Tag::new("X_CUSTOM");
pub const TAG_Y: Tag = Tag::new("Y_CUSTOM");

pub static TAGS: [Tag; 13] = [
    Tag::new("<unused>"),
    sval::tags::RUST_OPTION_SOME,
    sval::tags::RUST_OPTION_NONE,
    sval::tags::RUST_UNIT,
    sval::tags::NUMBER,
    sval::tags::CONSTANT_SIZE,
    sval::tags::VALUE_IDENT,
    sval::tags::VALUE_OFFSET,
    TAG_X,
    TAG_Y,
    sval_json::tags::JSON_VALUE,
    sval_json::tags::JSON_TEXT,
    sval_json::tags::JSON_NUMBER,
];

pub fn tag_id(t: &Tag) -> u8 {
    for (i, k) in TAGS.iter().enumerate() {
        if k == t {
            return i as u8;
        }
    }
    255
}

pub fn tag_of(id: u8) -> Option<&'static Tag> {
    if id == 0 { None } else { Some(&TAGS[id as usize]) }
}

pub fn oid(t: Option<&Tag>) -> u8 {
    t.map(tag_id).unwrap_or(0)
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct L {
    pub text: String,
    pub is_static: bool,
    pub tag: u8,
}

impl L {
    pub fn of(l: &Label) -> L {
        L { text: l.as_str().to_owned(), is_static: l.as_static_str().is_some(), tag: oid(l.tag()) }
    }
    pub fn with<R>(&self, f: impl FnOnce(&Label) -> R) -> R {
        let st;
        let l = if self.is_static {
            st = intern(&self.text);
            Label::new(st)
        } else {
            Label::new_computed(&self.text)
        };
        match tag_of(self.tag) {
            Some(t) => f(&l.with_tag(t)),
            None => f(&l),
        }
    }
}

/// Static copies of the (few) label texts in use.
pub fn intern(s: &str) -> &'static str {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local!(static T: RefCell<HashMap<String, &'static str>> = RefCell::new(HashMap::new()));
    T.with(|t| {
        if let Some(s) = t.borrow().get(s) {
            return *s;
        }
        crate::mem::quietly(|| {
            let l: &'static str = Box::leak(s.to_owned().into_boxed_str());
            t.borrow_mut().insert(s.to_owned(), l);
            l
        })
    })
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct I {
    pub val: i128,
    pub tag: u8,
}

impl I {
    pub fn of(i: &Index) -> I {
        let val = i.to_i64().map(|v| v as i128).or_else(|| i.to_u64().map(|v| v as i128)).unwrap_or_else(|| i.to_string().parse().unwrap());
        I { val, tag: oid(i.tag()) }
    }
    pub fn index(&self) -> Index {
        let ix = if self.val < 0 { Index::new_i64(self.val as i64) } else { Index::new_u64(self.val as u64) };
        match tag_of(self.tag) {
            Some(t) => ix.with_tag(t),
            None => ix,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct M {
    pub tag: u8,
    pub label: Option<L>,
    pub index: Option<I>,
}

impl M {
    pub fn of(tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> M {
        M { tag: oid(tag), label: label.map(L::of), index: index.map(I::of) }
    }
    pub fn with<R>(&self, f: impl FnOnce(Option<&Tag>, Option<&Label>, Option<&Index>) -> R) -> R {
        let ix = self.index.as_ref().map(|i| i.index());
        match &self.label {
            Some(l) => l.with(|l| f(tag_of(self.tag), Some(l), ix.as_ref())),
            None => f(tag_of(self.tag), None, ix.as_ref()),
        }
    }
}

pub type Sz = Option<usize>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ev {
    Null,
    Bool(bool),
    TextBegin(Sz),
    Text(String, bool), // bool: borrowed for 'sval
    TextEnd,
    BinBegin(Sz),
    Bin(Vec<u8>, bool),
    BinEnd,
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    F32(u32),
    F64(u64),
    MapBegin(Sz),
    MapKeyBegin,
    MapKeyEnd,
    MapValueBegin,
    MapValueEnd,
    MapEnd,
    SeqBegin(Sz),
    SeqValueBegin,
    SeqValueEnd,
    SeqEnd,
    EnumBegin(M),
    EnumEnd(M),
    TaggedBegin(M),
    TaggedEnd(M),
    Tag(M),
    TagHint(u8),
    RecordBegin(M, Sz),
    RecordValueBegin(u8, L),
    RecordValueEnd(u8, L),
    RecordEnd(M),
    TupleBegin(M, Sz),
    TupleValueBegin(u8, I),
    TupleValueEnd(u8, I),
    TupleEnd(M),
    RecordTupleBegin(M, Sz),
    RecordTupleValueBegin(u8, L, I),
    RecordTupleValueEnd(u8, L, I),
    RecordTupleEnd(M),
}

pub trait Sink {
    fn ev(&mut self, ev: Ev) -> Result;
    /// called with the address of borrowed data
    fn borrowed(&mut self, _ptr: *const u8, _len: usize) {}
}

impl Sink for Vec<Ev> {
    fn ev(&mut self, ev: Ev) -> Result {
        self.push(ev);
        Ok(())
    }
}

impl<S: Sink + ?Sized> Sink for &mut S {
    fn ev(&mut self, ev: Ev) -> Result {
        (**self).ev(ev)
    }
    fn borrowed(&mut self, p: *const u8, n: usize) {
        (**self).borrowed(p, n)
    }
}

/// Fails the k-th event (0-based), counting everything it is sent.
pub struct FailAt {
    pub at: usize,
    pub seen: usize,
    pub after: usize,
    pub failed: bool,
}
impl FailAt {
    pub fn new(at: usize) -> Self {
        FailAt { at, seen: 0, after: 0, failed: false }
    }
}
impl Sink for FailAt {
    fn ev(&mut self, _: Ev) -> Result {
        if self.failed {
            self.after += 1;
            return sval::error();
        }
        let k = self.seen;
        self.seen += 1;
        if k == self.at {
            self.failed = true;
            return sval::error();
        }
        Ok(())
    }
}

/// Counts events without keeping them.
#[derive(Default)]
pub struct Count(pub usize);
impl Sink for Count {
    fn ev(&mut self, _: Ev) -> Result {
        self.0 += 1;
        Ok(())
    }
}

/// Overrides every event method (but not `value`/`value_computed`).
pub struct Full<S>(pub S);

pub fn record<V: Value + ?Sized>(v: &V) -> (Vec<Ev>, Result) {
    let mut f = Full(Vec::new());
    let r = v.stream(&mut f);
    (f.0, r)
}

macro_rules! required_methods {
    ($self_:ident => $sink:expr) => {
        fn null(&mut $self_) -> Result { $sink.ev(Ev::Null) }
        fn bool(&mut $self_, v: bool) -> Result { $sink.ev(Ev::Bool(v)) }
        fn text_begin(&mut $self_, n: Option<usize>) -> Result { $sink.ev(Ev::TextBegin(n)) }
        fn text_fragment_computed(&mut $self_, f: &str) -> Result { $sink.ev(Ev::Text(f.to_owned(), false)) }
        fn text_end(&mut $self_) -> Result { $sink.ev(Ev::TextEnd) }
        fn i64(&mut $self_, v: i64) -> Result { $sink.ev(Ev::I64(v)) }
        fn f64(&mut $self_, v: f64) -> Result { $sink.ev(Ev::F64(v.to_bits())) }
        fn seq_begin(&mut $self_, n: Option<usize>) -> Result { $sink.ev(Ev::SeqBegin(n)) }
        fn seq_value_begin(&mut $self_) -> Result { $sink.ev(Ev::SeqValueBegin) }
        fn seq_value_end(&mut $self_) -> Result { $sink.ev(Ev::SeqValueEnd) }
        fn seq_end(&mut $self_) -> Result { $sink.ev(Ev::SeqEnd) }
    };
}

/// Only the required methods.
pub struct Min<S>(pub S);
impl<'sval, S: Sink> Stream<'sval> for Min<S> {
    required_methods!(self => self.0);
}

impl<'sval, S: Sink> Stream<'sval> for Full<S> {
    required_methods!(self => self.0);
    fn text_fragment(&mut self, f: &'sval str) -> Result {
        self.0.borrowed(f.as_ptr(), f.len());
        self.0.ev(Ev::Text(f.to_owned(), true))
    }
    fn binary_begin(&mut self, n: Option<usize>) -> Result { self.0.ev(Ev::BinBegin(n)) }
    fn binary_fragment(&mut self, f: &'sval [u8]) -> Result {
        self.0.borrowed(f.as_ptr(), f.len());
        self.0.ev(Ev::Bin(f.to_owned(), true))
    }
    fn binary_fragment_computed(&mut self, f: &[u8]) -> Result { self.0.ev(Ev::Bin(f.to_owned(), false)) }
    fn binary_end(&mut self) -> Result { self.0.ev(Ev::BinEnd) }
    fn u8(&mut self, v: u8) -> Result { self.0.ev(Ev::U8(v)) }
    fn u16(&mut self, v: u16) -> Result { self.0.ev(Ev::U16(v)) }
    fn u32(&mut self, v: u32) -> Result { self.0.ev(Ev::U32(v)) }
    fn u64(&mut self, v: u64) -> Result { self.0.ev(Ev::U64(v)) }
    fn u128(&mut self, v: u128) -> Result { self.0.ev(Ev::U128(v)) }
    fn i8(&mut self, v: i8) -> Result { self.0.ev(Ev::I8(v)) }
    fn i16(&mut self, v: i16) -> Result { self.0.ev(Ev::I16(v)) }
    fn i32(&mut self, v: i32) -> Result { self.0.ev(Ev::I32(v)) }
    fn i128(&mut self, v: i128) -> Result { self.0.ev(Ev::I128(v)) }
    fn f32(&mut self, v: f32) -> Result { self.0.ev(Ev::F32(v.to_bits())) }
    fn map_begin(&mut self, n: Option<usize>) -> Result { self.0.ev(Ev::MapBegin(n)) }
    fn map_key_begin(&mut self) -> Result { self.0.ev(Ev::MapKeyBegin) }
    fn map_key_end(&mut self) -> Result { self.0.ev(Ev::MapKeyEnd) }
    fn map_value_begin(&mut self) -> Result { self.0.ev(Ev::MapValueBegin) }
    fn map_value_end(&mut self) -> Result { self.0.ev(Ev::MapValueEnd) }
    fn map_end(&mut self) -> Result { self.0.ev(Ev::MapEnd) }
    fn enum_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.ev(Ev::EnumBegin(M::of(t, l, i))) }
    fn enum_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.ev(Ev::EnumEnd(M::of(t, l, i))) }
    fn tagged_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.ev(Ev::TaggedBegin(M::of(t, l, i))) }
    fn tagged_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.ev(Ev::TaggedEnd(M::of(t, l, i))) }
    fn tag(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.ev(Ev::Tag(M::of(t, l, i))) }
    fn tag_hint(&mut self, t: &Tag) -> Result { self.0.ev(Ev::TagHint(tag_id(t))) }
    fn record_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) -> Result { self.0.ev(Ev::RecordBegin(M::of(t, l, i), n)) }
    fn record_value_begin(&mut self, t: Option<&Tag>, l: &Label) -> Result { self.0.ev(Ev::RecordValueBegin(oid(t), L::of(l))) }
    fn record_value_end(&mut self, t: Option<&Tag>, l: &Label) -> Result { self.0.ev(Ev::RecordValueEnd(oid(t), L::of(l))) }
    fn record_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.ev(Ev::RecordEnd(M::of(t, l, i))) }
    fn tuple_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) -> Result { self.0.ev(Ev::TupleBegin(M::of(t, l, i), n)) }
    fn tuple_value_begin(&mut self, t: Option<&Tag>, i: &Index) -> Result { self.0.ev(Ev::TupleValueBegin(oid(t), I::of(i))) }
    fn tuple_value_end(&mut self, t: Option<&Tag>, i: &Index) -> Result { self.0.ev(Ev::TupleValueEnd(oid(t), I::of(i))) }
    fn tuple_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.ev(Ev::TupleEnd(M::of(t, l, i))) }
    fn record_tuple_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) -> Result { self.0.ev(Ev::RecordTupleBegin(M::of(t, l, i), n)) }
    fn record_tuple_value_begin(&mut self, t: Option<&Tag>, l: &Label, i: &Index) -> Result { self.0.ev(Ev::RecordTupleValueBegin(oid(t), L::of(l), I::of(i))) }
    fn record_tuple_value_end(&mut self, t: Option<&Tag>, l: &Label, i: &Index) -> Result { self.0.ev(Ev::RecordTupleValueEnd(oid(t), L::of(l), I::of(i))) }
    fn record_tuple_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.ev(Ev::RecordTupleEnd(M::of(t, l, i))) }
}

// Groups of optional methods for partially implemented streams.
pub const G_BORROW: u32 = 1 << 0;
pub const G_BINARY: u32 = 1 << 1;
pub const G_INT_SMALL: u32 = 1 << 2; // u8,u16,u32,i8,i16,i32,f32
pub const G_INT_BIG: u32 = 1 << 3; // u64,u128,i128
pub const G_MAP: u32 = 1 << 4;
pub const G_ENUM: u32 = 1 << 5;
pub const G_TAGGED: u32 = 1 << 6;
pub const G_TAG: u32 = 1 << 7;
pub const G_RECORD: u32 = 1 << 8;
pub const G_TUPLE: u32 = 1 << 9;
pub const G_RECTUP: u32 = 1 << 10;
pub const G_BINBORROW: u32 = G_BINARY | G_BORROW;
pub const G_ALL: u32 = (1 << 11) - 1;

/// A stream that implements the required methods and the optional groups in `mask`.
pub struct Part<S> {
    pub sink: S,
    pub mask: u32,
}

macro_rules! part {
    ($($g:ident: $name:ident($($a:ident: $t:ty),*) => $e:expr;)*) => {
        $(fn $name(&mut self, $($a: $t),*) -> Result {
            if self.mask & $g == $g { self.sink.ev($e) } else { sval::default_stream::$name(self $(, $a)*) }
        })*
    };
}

impl<'sval, S: Sink> Stream<'sval> for Part<S> {
    required_methods!(self => self.sink);
    part! {
        G_BORROW: text_fragment(f: &'sval str) => Ev::Text(f.to_owned(), true);
        G_BINBORROW: binary_fragment(f: &'sval [u8]) => Ev::Bin(f.to_owned(), true);
        G_BINARY: binary_begin(n: Option<usize>) => Ev::BinBegin(n);
        G_BINARY: binary_fragment_computed(f: &[u8]) => Ev::Bin(f.to_owned(), false);
        G_BINARY: binary_end() => Ev::BinEnd;
        G_INT_SMALL: u8(v: u8) => Ev::U8(v);
        G_INT_SMALL: u16(v: u16) => Ev::U16(v);
        G_INT_SMALL: u32(v: u32) => Ev::U32(v);
        G_INT_SMALL: i8(v: i8) => Ev::I8(v);
        G_INT_SMALL: i16(v: i16) => Ev::I16(v);
        G_INT_SMALL: i32(v: i32) => Ev::I32(v);
        G_INT_SMALL: f32(v: f32) => Ev::F32(v.to_bits());
        G_INT_BIG: u64(v: u64) => Ev::U64(v);
        G_INT_BIG: u128(v: u128) => Ev::U128(v);
        G_INT_BIG: i128(v: i128) => Ev::I128(v);
        G_MAP: map_begin(n: Option<usize>) => Ev::MapBegin(n);
        G_MAP: map_key_begin() => Ev::MapKeyBegin;
        G_MAP: map_key_end() => Ev::MapKeyEnd;
        G_MAP: map_value_begin() => Ev::MapValueBegin;
        G_MAP: map_value_end() => Ev::MapValueEnd;
        G_MAP: map_end() => Ev::MapEnd;
        G_ENUM: enum_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) => Ev::EnumBegin(M::of(t, l, i));
        G_ENUM: enum_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) => Ev::EnumEnd(M::of(t, l, i));
        G_TAGGED: tagged_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) => Ev::TaggedBegin(M::of(t, l, i));
        G_TAGGED: tagged_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) => Ev::TaggedEnd(M::of(t, l, i));
        G_TAG: tag(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) => Ev::Tag(M::of(t, l, i));
        G_RECORD: record_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) => Ev::RecordBegin(M::of(t, l, i), n);
        G_RECORD: record_value_begin(t: Option<&Tag>, l: &Label) => Ev::RecordValueBegin(oid(t), L::of(l));
        G_RECORD: record_value_end(t: Option<&Tag>, l: &Label) => Ev::RecordValueEnd(oid(t), L::of(l));
        G_RECORD: record_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) => Ev::RecordEnd(M::of(t, l, i));
        G_TUPLE: tuple_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) => Ev::TupleBegin(M::of(t, l, i), n);
        G_TUPLE: tuple_value_begin(t: Option<&Tag>, i: &Index) => Ev::TupleValueBegin(oid(t), I::of(i));
        G_TUPLE: tuple_value_end(t: Option<&Tag>, i: &Index) => Ev::TupleValueEnd(oid(t), I::of(i));
        G_TUPLE: tuple_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) => Ev::TupleEnd(M::of(t, l, i));
        G_RECTUP: record_tuple_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) => Ev::RecordTupleBegin(M::of(t, l, i), n);
        G_RECTUP: record_tuple_value_begin(t: Option<&Tag>, l: &Label, i: &Index) => Ev::RecordTupleValueBegin(oid(t), L::of(l), I::of(i));
        G_RECTUP: record_tuple_value_end(t: Option<&Tag>, l: &Label, i: &Index) => Ev::RecordTupleValueEnd(oid(t), L::of(l), I::of(i));
        G_RECTUP: record_tuple_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) => Ev::RecordTupleEnd(M::of(t, l, i));
    }
}

/// Send one event to a stream.
pub fn send<'sval, S: Stream<'sval> + ?Sized>(ev: &'sval Ev, s: &mut S) -> Result {
    match ev {
        Ev::Null => s.null(),
        Ev::Bool(v) => s.bool(*v),
        Ev::TextBegin(n) => s.text_begin(*n),
        Ev::Text(t, true) => s.text_fragment(t),
        Ev::Text(t, false) => s.text_fragment_computed(t),
        Ev::TextEnd => s.text_end(),
        Ev::BinBegin(n) => s.binary_begin(*n),
        Ev::Bin(t, true) => s.binary_fragment(t),
        Ev::Bin(t, false) => s.binary_fragment_computed(t),
        Ev::BinEnd => s.binary_end(),
        Ev::U8(v) => s.u8(*v),
        Ev::U16(v) => s.u16(*v),
        Ev::U32(v) => s.u32(*v),
        Ev::U64(v) => s.u64(*v),
        Ev::U128(v) => s.u128(*v),
        Ev::I8(v) => s.i8(*v),
        Ev::I16(v) => s.i16(*v),
        Ev::I32(v) => s.i32(*v),
        Ev::I64(v) => s.i64(*v),
        Ev::I128(v) => s.i128(*v),
        Ev::F32(v) => s.f32(f32::from_bits(*v)),
        Ev::F64(v) => s.f64(f64::from_bits(*v)),
        Ev::MapBegin(n) => s.map_begin(*n),
        Ev::MapKeyBegin => s.map_key_begin(),
        Ev::MapKeyEnd => s.map_key_end(),
        Ev::MapValueBegin => s.map_value_begin(),
        Ev::MapValueEnd => s.map_value_end(),
        Ev::MapEnd => s.map_end(),
        Ev::SeqBegin(n) => s.seq_begin(*n),
        Ev::SeqValueBegin => s.seq_value_begin(),
        Ev::SeqValueEnd => s.seq_value_end(),
        Ev::SeqEnd => s.seq_end(),
        Ev::EnumBegin(m) => m.with(|t, l, i| s.enum_begin(t, l, i)),
        Ev::EnumEnd(m) => m.with(|t, l, i| s.enum_end(t, l, i)),
        Ev::TaggedBegin(m) => m.with(|t, l, i| s.tagged_begin(t, l, i)),
        Ev::TaggedEnd(m) => m.with(|t, l, i| s.tagged_end(t, l, i)),
        Ev::Tag(m) => m.with(|t, l, i| s.tag(t, l, i)),
        Ev::TagHint(t) => s.tag_hint(tag_of(*t).unwrap()),
        Ev::RecordBegin(m, n) => m.with(|t, l, i| s.record_begin(t, l, i, *n)),
        Ev::RecordValueBegin(t, l) => l.with(|l| s.record_value_begin(tag_of(*t), l)),
        Ev::RecordValueEnd(t, l) => l.with(|l| s.record_value_end(tag_of(*t), l)),
        Ev::RecordEnd(m) => m.with(|t, l, i| s.record_end(t, l, i)),
        Ev::TupleBegin(m, n) => m.with(|t, l, i| s.tuple_begin(t, l, i, *n)),
        Ev::TupleValueBegin(t, i) => s.tuple_value_begin(tag_of(*t), &i.index()),
        Ev::TupleValueEnd(t, i) => s.tuple_value_end(tag_of(*t), &i.index()),
        Ev::TupleEnd(m) => m.with(|t, l, i| s.tuple_end(t, l, i)),
        Ev::RecordTupleBegin(m, n) => m.with(|t, l, i| s.record_tuple_begin(t, l, i, *n)),
        Ev::RecordTupleValueBegin(t, l, i) => l.with(|l| s.record_tuple_value_begin(tag_of(*t), l, &i.index())),
        Ev::RecordTupleValueEnd(t, l, i) => l.with(|l| s.record_tuple_value_end(tag_of(*t), l, &i.index())),
        Ev::RecordTupleEnd(m) => m.with(|t, l, i| s.record_tuple_end(t, l, i)),
    }
}

/// A value that streams a fixed list of events.
#[derive(Clone, Debug)]
pub struct Script(pub Vec<Ev>);
impl Value for Script {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> Result {
        for e in &self.0 {
            send(e, s)?;
        }
        Ok(())
    }
}

/// Canonical form: merge fragments, optionally drop hints/borrowedness/label staticness/sizes.
#[derive(Clone, Copy)]
pub struct Canon {
    pub hints: bool,
    pub borrow: bool,
    pub label_static: bool,
    pub sizes: bool,
}
impl Canon {
    pub const DATA: Canon = Canon { hints: false, borrow: false, label_static: false, sizes: true };
}

pub fn canon(evs: &[Ev], c: Canon) -> Vec<Ev> {
    let mut out: Vec<Ev> = Vec::with_capacity(evs.len());
    for e in evs {
        let mut e = e.clone();
        if !c.hints {
            if let Ev::TagHint(_) = e {
                continue;
            }
        }
        if !c.borrow {
            match &mut e {
                Ev::Text(_, b) | Ev::Bin(_, b) => *b = false,
                _ => (),
            }
        }
        if !c.label_static {
            match &mut e {
                Ev::EnumBegin(m) | Ev::EnumEnd(m) | Ev::TaggedBegin(m) | Ev::TaggedEnd(m) | Ev::Tag(m) | Ev::RecordBegin(m, _) | Ev::RecordEnd(m) | Ev::TupleBegin(m, _) | Ev::TupleEnd(m) | Ev::RecordTupleBegin(m, _) | Ev::RecordTupleEnd(m) => {
                    if let Some(l) = &mut m.label {
                        l.is_static = false
                    }
                }
                Ev::RecordValueBegin(_, l) | Ev::RecordValueEnd(_, l) | Ev::RecordTupleValueBegin(_, l, _) | Ev::RecordTupleValueEnd(_, l, _) => l.is_static = false,
                _ => (),
            }
        }
        if !c.sizes {
            match &mut e {
                Ev::TextBegin(n) | Ev::BinBegin(n) | Ev::MapBegin(n) | Ev::SeqBegin(n) | Ev::RecordBegin(_, n) | Ev::TupleBegin(_, n) | Ev::RecordTupleBegin(_, n) => *n = None,
                _ => (),
            }
        }
        match (out.last_mut(), &e) {
            (Some(Ev::Text(a, _)), Ev::Text(b, _)) => {
                a.push_str(b);
                continue;
            }
            (Some(Ev::Bin(a, _)), Ev::Bin(b, _)) => {
                a.extend_from_slice(b);
                continue;
            }
            // an empty text/binary may have no fragment at all
            (Some(l), Ev::TextEnd) if matches!(l, Ev::TextBegin(_)) => out.push(Ev::Text(String::new(), false)),
            (Some(l), Ev::BinEnd) if matches!(l, Ev::BinBegin(_)) => out.push(Ev::Bin(vec![], false)),
            _ => (),
        }
        out.push(e);
    }
    out
}

/// Is this one complete, well-formed value? Checks balance, matching metadata and sizes.
pub fn well_formed(evs: &[Ev]) -> std::result::Result<(), String> {
    let mut p = Parser { e: evs, i: 0 };
    p.value()?;
    if p.i != evs.len() {
        return Err(format!("trailing events from {}: {:?}", p.i, evs.get(p.i)));
    }
    Ok(())
}

struct Parser<'a> {
    e: &'a [Ev],
    i: usize,
}

type PR<T = ()> = std::result::Result<T, String>;

impl<'a> Parser<'a> {
    fn hints(&mut self) {
        while let Some(Ev::TagHint(_)) = self.e.get(self.i) {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> Option<&'a Ev> {
        self.hints();
        self.e.get(self.i)
    }
    fn next(&mut self) -> Option<&'a Ev> {
        let r = self.peek();
        self.i += 1;
        r
    }
    fn bad<T>(&self, w: &str, e: Option<&Ev>) -> PR<T> {
        Err(format!("event {}: expected {}, got {:?}", self.i.saturating_sub(1), w, e))
    }
    fn want(&mut self, want: &Ev) -> PR {
        let e = self.next();
        if e == Some(want) { Ok(()) } else { self.bad(&format!("{:?}", want), e) }
    }
    fn size(&self, n: &Sz, got: usize, what: &str) -> PR {
        match n {
            Some(n) if *n != got => Err(format!("{} announced {} but delivered {}", what, n, got)),
            _ => Ok(()),
        }
    }
    fn value(&mut self) -> PR {
        let e = self.next();
        match e {
            Some(Ev::Null | Ev::Bool(_) | Ev::U8(_) | Ev::U16(_) | Ev::U32(_) | Ev::U64(_) | Ev::U128(_) | Ev::I8(_) | Ev::I16(_) | Ev::I32(_) | Ev::I64(_) | Ev::I128(_) | Ev::F32(_) | Ev::F64(_) | Ev::Tag(_)) => Ok(()),
            Some(Ev::TextBegin(n)) => {
                let mut len = 0;
                loop {
                    match self.next() {
                        Some(Ev::Text(t, _)) => len += t.len(),
                        Some(Ev::TextEnd) => return self.size(n, len, "text"),
                        e => return self.bad("text fragment/end", e),
                    }
                }
            }
            Some(Ev::BinBegin(n)) => {
                let mut len = 0;
                loop {
                    match self.next() {
                        Some(Ev::Bin(t, _)) => len += t.len(),
                        Some(Ev::BinEnd) => return self.size(n, len, "binary"),
                        e => return self.bad("binary fragment/end", e),
                    }
                }
            }
            Some(Ev::MapBegin(n)) => {
                let mut c = 0;
                loop {
                    match self.next() {
                        Some(Ev::MapKeyBegin) => {
                            self.value()?;
                            self.want(&Ev::MapKeyEnd)?;
                            self.want(&Ev::MapValueBegin)?;
                            self.value()?;
                            self.want(&Ev::MapValueEnd)?;
                            c += 1;
                        }
                        Some(Ev::MapEnd) => return self.size(n, c, "map"),
                        e => return self.bad("map key/end", e),
                    }
                }
            }
            Some(Ev::SeqBegin(n)) => {
                let mut c = 0;
                loop {
                    match self.next() {
                        Some(Ev::SeqValueBegin) => {
                            self.value()?;
                            self.want(&Ev::SeqValueEnd)?;
                            c += 1;
                        }
                        Some(Ev::SeqEnd) => return self.size(n, c, "seq"),
                        e => return self.bad("seq value/end", e),
                    }
                }
            }
            Some(Ev::TaggedBegin(m)) => {
                self.value()?;
                self.want(&Ev::TaggedEnd(m.clone()))
            }
            Some(Ev::EnumBegin(m)) => {
                match self.peek() {
                    Some(Ev::Tag(_) | Ev::TaggedBegin(_) | Ev::RecordBegin(..) | Ev::TupleBegin(..) | Ev::RecordTupleBegin(..) | Ev::EnumBegin(_)) => (),
                    e => return self.bad("enum variant", e),
                }
                self.value()?;
                self.want(&Ev::EnumEnd(m.clone()))
            }
            Some(Ev::RecordBegin(m, n)) => {
                let mut c = 0;
                loop {
                    match self.next() {
                        Some(Ev::RecordValueBegin(t, l)) => {
                            self.value()?;
                            self.want(&Ev::RecordValueEnd(*t, l.clone()))?;
                            c += 1;
                        }
                        Some(Ev::RecordEnd(m2)) if m == m2 => return self.size(n, c, "record"),
                        e => return self.bad("record value/end", e),
                    }
                }
            }
            Some(Ev::TupleBegin(m, n)) => {
                let mut c = 0;
                loop {
                    match self.next() {
                        Some(Ev::TupleValueBegin(t, l)) => {
                            self.value()?;
                            self.want(&Ev::TupleValueEnd(*t, l.clone()))?;
                            c += 1;
                        }
                        Some(Ev::TupleEnd(m2)) if m == m2 => return self.size(n, c, "tuple"),
                        e => return self.bad("tuple value/end", e),
                    }
                }
            }
            Some(Ev::RecordTupleBegin(m, n)) => {
                let mut c = 0;
                loop {
                    match self.next() {
                        Some(Ev::RecordTupleValueBegin(t, l, i)) => {
                            self.value()?;
                            self.want(&Ev::RecordTupleValueEnd(*t, l.clone(), i.clone()))?;
                            c += 1;
                        }
                        Some(Ev::RecordTupleEnd(m2)) if m == m2 => return self.size(n, c, "record tuple"),
                        e => return self.bad("record tuple value/end", e),
                    }
                }
            }
            e => self.bad("a value", e),
        }
    }
}
