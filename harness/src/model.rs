//! The reference data model: value trees, their enumeration, and their reference event streams.

use crate::engine::Ctx;
use crate::ev::*;
use sval::{Result, Stream, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Child {
    Inline,
    Value,
    Computed,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Style {
    pub child: Child,
    pub borrowed: bool,
    pub sizes: bool,
}

impl Style {
    pub const DEFAULT: Style = Style { child: Child::Value, borrowed: true, sizes: true };
    pub const ALL: [Style; 12] = {
        let mut a = [Style::DEFAULT; 12];
        let mut i = 0;
        while i < 12 {
            a[i] = Style {
                child: match i % 3 {
                    0 => Child::Value,
                    1 => Child::Computed,
                    _ => Child::Inline,
                },
                borrowed: (i / 3) % 2 == 0,
                sizes: (i / 6) % 2 == 0,
            };
            i += 1;
        }
        a
    };
    /// Styles that differ in what the receiver can borrow.
    pub const SHORT: [Style; 4] = [
        Style::DEFAULT,
        Style { child: Child::Computed, borrowed: true, sizes: true },
        Style { child: Child::Inline, borrowed: true, sizes: false },
        Style { child: Child::Inline, borrowed: false, sizes: true },
    ];
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Null,
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    F32(f32),
    F64(f64),
    /// text and the byte offsets it is cut at
    Text(String, Vec<usize>),
    Bin(Vec<u8>, Vec<usize>),
    Map(Vec<(Node, Node)>),
    Seq(Vec<Node>),
    Tag(M),
    Tagged(M, Box<Node>),
    Enum(M, Box<Node>),
    Record(M, Vec<(u8, L, Node)>),
    Tuple(M, Vec<(u8, I, Node)>),
    RecordTuple(M, Vec<(u8, L, I, Node)>),
    /// nothing at all; only ever the content of an empty tagged value or enum
    Hole,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub k: Kind,
    pub st: Style,
}

impl Node {
    pub fn new(k: Kind) -> Node {
        Node { k, st: Style::DEFAULT }
    }
    pub fn text(s: &str) -> Node {
        Node::new(Kind::Text(s.into(), vec![]))
    }
    pub fn set_style(&mut self, st: Style) {
        self.st = st;
        match &mut self.k {
            Kind::Map(v) => v.iter_mut().for_each(|(a, b)| {
                a.set_style(st);
                b.set_style(st);
            }),
            Kind::Seq(v) => v.iter_mut().for_each(|a| a.set_style(st)),
            Kind::Tagged(_, x) | Kind::Enum(_, x) => x.set_style(st),
            Kind::Record(_, v) => v.iter_mut().for_each(|f| f.2.set_style(st)),
            Kind::Tuple(_, v) => v.iter_mut().for_each(|f| f.2.set_style(st)),
            Kind::RecordTuple(_, v) => v.iter_mut().for_each(|f| f.3.set_style(st)),
            _ => (),
        }
    }
    /// Empties the enums, and with `tagged` the tagged values, that hold a null.
    pub fn hollow(mut self, tagged: bool) -> Node {
        self.set_hollow(tagged);
        self
    }
    fn set_hollow(&mut self, tagged: bool) {
        match &mut self.k {
            Kind::Map(v) => v.iter_mut().for_each(|(a, b)| {
                a.set_hollow(tagged);
                b.set_hollow(tagged);
            }),
            Kind::Seq(v) => v.iter_mut().for_each(|a| a.set_hollow(tagged)),
            Kind::Tagged(_, x) if tagged && x.k == Kind::Null => x.k = Kind::Hole,
            // an enum's content is never a null, so a particular unit variant stands for none
            Kind::Enum(_, x) if matches!(&x.k, Kind::Tag(m) if m.tag == T_UNIT) => x.k = Kind::Hole,
            Kind::Tagged(_, x) | Kind::Enum(_, x) => x.set_hollow(tagged),
            Kind::Record(_, v) => v.iter_mut().for_each(|f| f.2.set_hollow(tagged)),
            Kind::Tuple(_, v) => v.iter_mut().for_each(|f| f.2.set_hollow(tagged)),
            Kind::RecordTuple(_, v) => v.iter_mut().for_each(|f| f.3.set_hollow(tagged)),
            _ => (),
        }
    }
    pub fn styled(mut self, st: Style) -> Node {
        self.set_style(st);
        self
    }

    fn child<'sval, S: Stream<'sval> + ?Sized>(&self, c: &'sval Node, s: &mut S) -> Result {
        match self.st.child {
            Child::Inline => c.stream(s),
            Child::Value => s.value(c),
            Child::Computed => s.value_computed(c),
        }
    }
    fn sz(&self, n: usize) -> Sz {
        if self.st.sizes { Some(n) } else { None }
    }

    /// Reference events, written down independently of the library.
    /// `computed`: whether an enclosing `value_computed` makes everything short-lived.
    pub fn events(&self, out: &mut Vec<Ev>, computed: bool) {
        let kid = computed || self.st.child == Child::Computed;
        let b = self.st.borrowed && !computed;
        match &self.k {
            Kind::Null => out.push(Ev::Null),
            Kind::Bool(v) => out.push(Ev::Bool(*v)),
            Kind::U8(v) => out.push(Ev::U8(*v)),
            Kind::U16(v) => out.push(Ev::U16(*v)),
            Kind::U32(v) => out.push(Ev::U32(*v)),
            Kind::U64(v) => out.push(Ev::U64(*v)),
            Kind::U128(v) => out.push(Ev::U128(*v)),
            Kind::I8(v) => out.push(Ev::I8(*v)),
            Kind::I16(v) => out.push(Ev::I16(*v)),
            Kind::I32(v) => out.push(Ev::I32(*v)),
            Kind::I64(v) => out.push(Ev::I64(*v)),
            Kind::I128(v) => out.push(Ev::I128(*v)),
            Kind::F32(v) => out.push(Ev::F32(v.to_bits())),
            Kind::F64(v) => out.push(Ev::F64(v.to_bits())),
            Kind::Text(t, cuts) => {
                out.push(Ev::TextBegin(self.sz(t.len())));
                for (a, z) in pieces(t.len(), cuts) {
                    out.push(Ev::Text(t[a..z].to_owned(), b));
                }
                out.push(Ev::TextEnd);
            }
            Kind::Bin(t, cuts) => {
                out.push(Ev::BinBegin(self.sz(t.len())));
                for (a, z) in pieces(t.len(), cuts) {
                    out.push(Ev::Bin(t[a..z].to_owned(), b));
                }
                out.push(Ev::BinEnd);
            }
            Kind::Map(v) => {
                out.push(Ev::MapBegin(self.sz(v.len())));
                for (k, x) in v {
                    out.push(Ev::MapKeyBegin);
                    k.events(out, kid);
                    out.push(Ev::MapKeyEnd);
                    out.push(Ev::MapValueBegin);
                    x.events(out, kid);
                    out.push(Ev::MapValueEnd);
                }
                out.push(Ev::MapEnd);
            }
            Kind::Seq(v) => {
                out.push(Ev::SeqBegin(self.sz(v.len())));
                for x in v {
                    out.push(Ev::SeqValueBegin);
                    x.events(out, kid);
                    out.push(Ev::SeqValueEnd);
                }
                out.push(Ev::SeqEnd);
            }
            Kind::Hole => (),
            Kind::Tag(m) => out.push(Ev::Tag(m.clone())),
            Kind::Tagged(m, x) => {
                out.push(Ev::TaggedBegin(m.clone()));
                x.events(out, kid);
                out.push(Ev::TaggedEnd(m.clone()));
            }
            Kind::Enum(m, x) => {
                out.push(Ev::EnumBegin(m.clone()));
                x.events(out, kid);
                out.push(Ev::EnumEnd(m.clone()));
            }
            Kind::Record(m, v) => {
                out.push(Ev::RecordBegin(m.clone(), self.sz(v.len())));
                for (t, l, x) in v {
                    out.push(Ev::RecordValueBegin(*t, l.clone()));
                    x.events(out, kid);
                    out.push(Ev::RecordValueEnd(*t, l.clone()));
                }
                out.push(Ev::RecordEnd(m.clone()));
            }
            Kind::Tuple(m, v) => {
                out.push(Ev::TupleBegin(m.clone(), self.sz(v.len())));
                for (t, i, x) in v {
                    out.push(Ev::TupleValueBegin(*t, i.clone()));
                    x.events(out, kid);
                    out.push(Ev::TupleValueEnd(*t, i.clone()));
                }
                out.push(Ev::TupleEnd(m.clone()));
            }
            Kind::RecordTuple(m, v) => {
                out.push(Ev::RecordTupleBegin(m.clone(), self.sz(v.len())));
                for (t, l, i, x) in v {
                    out.push(Ev::RecordTupleValueBegin(*t, l.clone(), i.clone()));
                    x.events(out, kid);
                    out.push(Ev::RecordTupleValueEnd(*t, l.clone(), i.clone()));
                }
                out.push(Ev::RecordTupleEnd(m.clone()));
            }
        }
    }

    pub fn evs(&self) -> Vec<Ev> {
        let mut v = Vec::new();
        self.events(&mut v, false);
        v
    }
}

pub fn pieces(len: usize, cuts: &[usize]) -> Vec<(usize, usize)> {
    let mut v = Vec::with_capacity(cuts.len() + 1);
    let mut a = 0;
    for &c in cuts {
        v.push((a, c));
        a = c;
    }
    v.push((a, len));
    v
}

impl Value for Node {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> Result {
        match &self.k {
            Kind::Null => s.null(),
            Kind::Bool(v) => s.bool(*v),
            Kind::U8(v) => s.u8(*v),
            Kind::U16(v) => s.u16(*v),
            Kind::U32(v) => s.u32(*v),
            Kind::U64(v) => s.u64(*v),
            Kind::U128(v) => s.u128(*v),
            Kind::I8(v) => s.i8(*v),
            Kind::I16(v) => s.i16(*v),
            Kind::I32(v) => s.i32(*v),
            Kind::I64(v) => s.i64(*v),
            Kind::I128(v) => s.i128(*v),
            Kind::F32(v) => s.f32(*v),
            Kind::F64(v) => s.f64(*v),
            Kind::Text(t, cuts) => {
                s.text_begin(self.sz(t.len()))?;
                for (a, z) in pieces(t.len(), cuts) {
                    if self.st.borrowed {
                        s.text_fragment(&t[a..z])?;
                    } else {
                        let tmp = t[a..z].to_owned();
                        s.text_fragment_computed(&tmp)?;
                    }
                }
                s.text_end()
            }
            Kind::Bin(t, cuts) => {
                s.binary_begin(self.sz(t.len()))?;
                for (a, z) in pieces(t.len(), cuts) {
                    if self.st.borrowed {
                        s.binary_fragment(&t[a..z])?;
                    } else {
                        let tmp = t[a..z].to_owned();
                        s.binary_fragment_computed(&tmp)?;
                    }
                }
                s.binary_end()
            }
            Kind::Map(v) => {
                s.map_begin(self.sz(v.len()))?;
                for (k, x) in v {
                    s.map_key_begin()?;
                    self.child(k, s)?;
                    s.map_key_end()?;
                    s.map_value_begin()?;
                    self.child(x, s)?;
                    s.map_value_end()?;
                }
                s.map_end()
            }
            Kind::Seq(v) => {
                s.seq_begin(self.sz(v.len()))?;
                for x in v {
                    s.seq_value_begin()?;
                    self.child(x, s)?;
                    s.seq_value_end()?;
                }
                s.seq_end()
            }
            Kind::Hole => Ok(()),
            Kind::Tag(m) => m.with(|t, l, i| s.tag(t, l, i)),
            Kind::Tagged(m, x) => {
                m.with(|t, l, i| s.tagged_begin(t, l, i))?;
                self.child(x, s)?;
                m.with(|t, l, i| s.tagged_end(t, l, i))
            }
            Kind::Enum(m, x) => {
                m.with(|t, l, i| s.enum_begin(t, l, i))?;
                self.child(x, s)?;
                m.with(|t, l, i| s.enum_end(t, l, i))
            }
            Kind::Record(m, v) => {
                m.with(|t, l, i| s.record_begin(t, l, i, self.sz(v.len())))?;
                for (t, l, x) in v {
                    l.with(|l| s.record_value_begin(tag_of(*t), l))?;
                    self.child(x, s)?;
                    l.with(|l| s.record_value_end(tag_of(*t), l))?;
                }
                m.with(|t, l, i| s.record_end(t, l, i))
            }
            Kind::Tuple(m, v) => {
                m.with(|t, l, i| s.tuple_begin(t, l, i, self.sz(v.len())))?;
                for (t, i, x) in v {
                    s.tuple_value_begin(tag_of(*t), &i.index())?;
                    self.child(x, s)?;
                    s.tuple_value_end(tag_of(*t), &i.index())?;
                }
                m.with(|t, l, i| s.tuple_end(t, l, i))
            }
            Kind::RecordTuple(m, v) => {
                m.with(|t, l, i| s.record_tuple_begin(t, l, i, self.sz(v.len())))?;
                for (t, l, i, x) in v {
                    l.with(|l| s.record_tuple_value_begin(tag_of(*t), l, &i.index()))?;
                    self.child(x, s)?;
                    l.with(|l| s.record_tuple_value_end(tag_of(*t), l, &i.index()))?;
                }
                m.with(|t, l, i| s.record_tuple_end(t, l, i))
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Enumeration

#[derive(Clone)]
pub struct Gen {
    pub leaves: Vec<Kind>,
    /// metadata for tags, tagged values, enums, records, tuples
    pub tag_metas: Vec<M>,
    pub tagged_metas: Vec<M>,
    pub enum_metas: Vec<M>,
    pub rec_metas: Vec<M>,
    pub fields: Vec<(u8, L)>,
    pub indexes: Vec<I>,
    pub kinds: u32,
    pub width: usize,
    pub depth: usize,
    /// allow enum directly inside enum
    pub nested_enum: bool,
}

pub const K_MAP: u32 = 1;
pub const K_SEQ: u32 = 2;
pub const K_TAG: u32 = 4;
pub const K_TAGGED: u32 = 8;
pub const K_ENUM: u32 = 16;
pub const K_RECORD: u32 = 32;
pub const K_TUPLE: u32 = 64;
pub const K_RECTUP: u32 = 128;
pub const K_ALL: u32 = 255;

pub fn lab(t: &str) -> Option<L> {
    Some(L { text: t.into(), is_static: true, tag: 0 })
}
pub fn ident(t: &str) -> L {
    L { text: t.into(), is_static: true, tag: T_IDENT }
}
pub fn ix(v: i128) -> Option<I> {
    Some(I { val: v, tag: 0 })
}
pub fn off(v: i128) -> I {
    I { val: v, tag: T_OFFSET }
}
pub fn m(tag: u8, label: Option<L>, index: Option<I>) -> M {
    M { tag, label, index }
}

/// The 8 presence combinations, with distinguishable contents.
pub fn metas8() -> Vec<M> {
    let mut v = vec![];
    for t in [0, T_X] {
        for l in [None, Some(ident("Lb"))] {
            for i in [None, Some(off(1))] {
                v.push(m(t, l.clone(), i));
            }
        }
    }
    v
}

/// none / label / index / label+index
pub fn metas4() -> Vec<M> {
    vec![M::default(), m(0, Some(ident("Lb")), None), m(0, None, Some(off(1))), m(T_X, Some(ident("Lb")), Some(off(1)))]
}

impl Gen {
    /// Trees in which `hollow` finds tagged values and enums to empty.
    pub fn hollow() -> Gen {
        let mut g = Gen::basic();
        g.leaves = vec![Kind::Null, Kind::U8(1)];
        g.tag_metas = vec![m(T_UNIT, None, None), m(0, Some(ident("T")), None)];
        let metas = vec![M::default(), m(0, Some(ident("L")), None), m(0, None, ix(1)), m(T_X, lab("M"), ix(2))];
        g.tagged_metas = metas.clone();
        g.enum_metas = metas;
        g
    }
    pub fn basic() -> Gen {
        Gen {
            leaves: vec![Kind::Null, Kind::I64(7), Kind::Text("a\"é".into(), vec![]), Kind::Bin(vec![1, 255], vec![])],
            tag_metas: metas4(),
            tagged_metas: metas4(),
            enum_metas: vec![M::default(), m(0, Some(ident("En")), None), m(T_X, Some(ident("En")), Some(off(3)))],
            rec_metas: vec![M::default(), m(0, Some(ident("Rc")), Some(off(2))), m(T_X, None, Some(off(4)))],
            fields: vec![(0, ident("fa")), (T_Y, L { text: "f\"b".into(), is_static: false, tag: 0 })],
            indexes: vec![off(0), I { val: 5, tag: 0 }],
            kinds: K_ALL,
            width: 2,
            depth: 4,
            nested_enum: true,
        }
    }

    pub fn node(&self, c: &mut Ctx, budget: usize) -> Node {
        let (n, _) = self.gen(c, budget, self.depth, false);
        n
    }

    /// Returns the node and the remaining budget.
    fn gen(&self, c: &mut Ctx, budget: usize, depth: usize, variant: bool) -> (Node, usize) {
        debug_assert!(budget >= 1);
        let mut kinds: [u8; 9] = [0; 9];
        let mut n = 0;
        let mut add = |k: u8| {
            kinds[n] = k;
            n += 1;
        };
        if !variant && !self.leaves.is_empty() {
            add(0);
        }
        let has = |k: u32| self.kinds & k != 0;
        if has(K_TAG) {
            add(1);
        }
        let deeper = depth > 1;
        if has(K_TAGGED) && budget >= 2 && deeper {
            add(2);
        }
        if has(K_ENUM) && budget >= 2 && deeper && (!variant || self.nested_enum) {
            add(3);
        }
        if has(K_SEQ) && !variant {
            add(4);
        }
        if has(K_MAP) && !variant {
            add(5);
        }
        if has(K_RECORD) {
            add(6);
        }
        if has(K_TUPLE) {
            add(7);
        }
        if has(K_RECTUP) {
            add(8);
        }
        let k = kinds[c.pick(n)];
        let rest = budget - 1;
        let w = |per: usize| if deeper { (rest / per).min(self.width) } else { 0 };
        match k {
            0 => (Node::new(c.of(&self.leaves).clone()), rest),
            1 => (Node::new(Kind::Tag(c.of(&self.tag_metas).clone())), rest),
            2 => {
                let m = c.of(&self.tagged_metas).clone();
                let (x, r) = self.gen(c, rest, depth - 1, false);
                (Node::new(Kind::Tagged(m, Box::new(x))), r)
            }
            3 => {
                let m = c.of(&self.enum_metas).clone();
                let (x, r) = self.gen(c, rest, depth - 1, true);
                (Node::new(Kind::Enum(m, Box::new(x))), r)
            }
            4 => {
                let n = c.pick(w(1) + 1);
                let (xs, r) = self.kids(c, rest, depth, n);
                (Node::new(Kind::Seq(xs)), r)
            }
            5 => {
                let n = c.pick(w(2) + 1);
                let (xs, r) = self.kids(c, rest, depth, n * 2);
                let mut it = xs.into_iter();
                let mut v = vec![];
                while let (Some(a), Some(b)) = (it.next(), it.next()) {
                    v.push((a, b));
                }
                (Node::new(Kind::Map(v)), r)
            }
            6 => {
                let m = c.of(&self.rec_metas).clone();
                let n = c.pick(w(1) + 1);
                let (xs, r) = self.kids(c, rest, depth, n);
                let v = xs.into_iter().enumerate().map(|(i, x)| {
                    let f = &self.fields[i % self.fields.len()];
                    (f.0, f.1.clone(), x)
                }).collect();
                (Node::new(Kind::Record(m, v)), r)
            }
            7 => {
                let m = c.of(&self.rec_metas).clone();
                let n = c.pick(w(1) + 1);
                let (xs, r) = self.kids(c, rest, depth, n);
                let v = xs.into_iter().enumerate().map(|(i, x)| (self.fields[i % self.fields.len()].0, self.indexes[i % self.indexes.len()].clone(), x)).collect();
                (Node::new(Kind::Tuple(m, v)), r)
            }
            _ => {
                let m = c.of(&self.rec_metas).clone();
                let n = c.pick(w(1) + 1);
                let (xs, r) = self.kids(c, rest, depth, n);
                let v = xs.into_iter().enumerate().map(|(i, x)| {
                    let f = &self.fields[i % self.fields.len()];
                    (f.0, f.1.clone(), self.indexes[i % self.indexes.len()].clone(), x)
                }).collect();
                (Node::new(Kind::RecordTuple(m, v)), r)
            }
        }
    }

    fn kids(&self, c: &mut Ctx, mut budget: usize, depth: usize, n: usize) -> (Vec<Node>, usize) {
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let reserve = n - i - 1;
            let (x, r) = self.gen(c, budget - reserve, depth - 1, false);
            budget = r + reserve;
            v.push(x);
        }
        (v, budget)
    }
}

/// Every number kind at its boundaries.
pub fn number_leaves() -> Vec<Kind> {
    let mut v = vec![];
    macro_rules! ints {
        ($($t:ident $k:ident),*) => { $(
            for x in [$t::MIN, $t::MIN + 1, 0, 1, $t::MAX / 2, $t::MAX - 1, $t::MAX] { v.push(Kind::$k(x)); }
        )* };
    }
    ints!(u8 U8, u16 U16, u32 U32, u64 U64, u128 U128, i8 I8, i16 I16, i32 I32, i64 I64, i128 I128);
    for x in [-1i128, i8::MIN as i128 - 1, i8::MAX as i128 + 1, i16::MIN as i128 - 1, i16::MAX as i128 + 1, i32::MIN as i128 - 1, i32::MAX as i128 + 1, i64::MIN as i128 - 1, i64::MAX as i128 + 1, u8::MAX as i128 + 1, u16::MAX as i128 + 1, u32::MAX as i128 + 1, u64::MAX as i128, u64::MAX as i128 + 1, 9007199254740993, 10000000000000000000000] {
        v.push(Kind::I128(x));
        if x >= 0 {
            v.push(Kind::U128(x as u128));
            if x <= u64::MAX as i128 {
                v.push(Kind::U64(x as u64));
            }
        }
        if x >= i64::MIN as i128 && x <= i64::MAX as i128 {
            v.push(Kind::I64(x as i64));
        }
    }
    for x in [0.0f64, -0.0, 1.0, -1.0, 0.1, 1e21, 1e22, 1e-7, 1.5e300, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, f64::EPSILON, 123456789.125, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 16777217.0, 9007199254740993.0] {
        v.push(Kind::F64(x));
    }
    for x in [0.0f32, -0.0, 1.0, -1.0, 0.1, 1e10, 1e-10, f32::MIN_POSITIVE, 1e-45, f32::MAX, f32::MIN, f32::EPSILON, 16777216.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY] {
        v.push(Kind::F32(x));
    }
    v
}

/// Metadata with every presence combination and every flavour of label and index.
pub fn rich_metas() -> Vec<M> {
    let mut v = metas8();
    v.push(m(T_NONE, Some(L { text: "dyn\"é".into(), is_static: false, tag: T_X }), Some(I { val: -1, tag: T_X })));
    v.push(m(0, Some(L { text: "".into(), is_static: false, tag: 0 }), Some(I { val: u64::MAX as i128, tag: 0 })));
    v.push(m(T_Y, lab("st"), Some(I { val: i64::MIN as i128, tag: T_OFFSET })));
    v
}

/// Every kind of event, with boundary data and all metadata flavours.
pub fn event_catalogue() -> Vec<Ev> {
    let mut v = vec![Ev::Null, Ev::Bool(true), Ev::Bool(false), Ev::TextEnd, Ev::BinEnd, Ev::MapKeyBegin, Ev::MapKeyEnd, Ev::MapValueBegin, Ev::MapValueEnd, Ev::MapEnd, Ev::SeqValueBegin, Ev::SeqValueEnd, Ev::SeqEnd];
    for n in number_leaves() {
        Node::new(n).events(&mut v, false);
    }
    for n in [None, Some(0), Some(3), Some(usize::MAX)] {
        v.extend([Ev::TextBegin(n), Ev::BinBegin(n), Ev::MapBegin(n), Ev::SeqBegin(n)]);
    }
    for b in [true, false] {
        v.extend([Ev::Text("".into(), b), Ev::Text("aé\"\u{1F600}".into(), b), Ev::Bin(vec![], b), Ev::Bin(vec![0, 255], b)]);
    }
    for t in 1..=12u8 {
        v.push(Ev::TagHint(t));
    }
    for m in rich_metas() {
        v.extend([Ev::EnumBegin(m.clone()), Ev::EnumEnd(m.clone()), Ev::TaggedBegin(m.clone()), Ev::TaggedEnd(m.clone()), Ev::Tag(m.clone()), Ev::RecordEnd(m.clone()), Ev::TupleEnd(m.clone()), Ev::RecordTupleEnd(m.clone())]);
        for n in [None, Some(2)] {
            v.extend([Ev::RecordBegin(m.clone(), n), Ev::TupleBegin(m.clone(), n), Ev::RecordTupleBegin(m.clone(), n)]);
        }
        if let Some(l) = &m.label {
            v.extend([Ev::RecordValueBegin(m.tag, l.clone()), Ev::RecordValueEnd(m.tag, l.clone())]);
            if let Some(i) = &m.index {
                v.extend([Ev::RecordTupleValueBegin(m.tag, l.clone(), i.clone()), Ev::RecordTupleValueEnd(m.tag, l.clone(), i.clone())]);
            }
        }
        if let Some(i) = &m.index {
            v.extend([Ev::TupleValueBegin(m.tag, i.clone()), Ev::TupleValueEnd(m.tag, i.clone())]);
        }
    }
    v
}

/// The metadata of options.
pub fn some() -> M {
    m(T_SOME, Some(ident("Some")), Some(off(1)))
}
pub fn none() -> M {
    m(T_NONE, Some(ident("None")), Some(off(0)))
}
