//! The built-in value types: how to enumerate their instances, and the events each must stream.

use crate::engine::Ctx;
use crate::ev::*;
use crate::model::*;
use std::collections::{BTreeMap, HashMap};

pub trait Model: sval::Value + Sized {
    /// Enumerate instances.
    fn dom(c: &mut Ctx) -> Self;
    /// The events an instance must stream (texts and binaries in one fragment).
    fn want(&self, out: &mut Vec<Ev>);
    /// Whether the order of entries is unspecified.
    fn unordered() -> bool {
        false
    }
}

pub fn wants<T: Model>(v: &T) -> Vec<Ev> {
    let mut o = vec![];
    v.want(&mut o);
    o
}

macro_rules! ints {
    ($($t:ident $e:ident),*) => { $(
        impl Model for $t {
            fn dom(c: &mut Ctx) -> Self { *c.of(&[0, 1, $t::MIN, $t::MAX, $t::MAX / 2 + 1]) }
            fn want(&self, o: &mut Vec<Ev>) { o.push(Ev::$e(*self)) }
        }
    )* };
}
ints!(u8 U8, u16 U16, u32 U32, u64 U64, u128 U128, i8 I8, i16 I16, i32 I32, i64 I64, i128 I128);

impl Model for f32 {
    fn dom(c: &mut Ctx) -> Self {
        *c.of(&[0.0, -0.0, 1.5, f32::MAX, f32::NAN, f32::NEG_INFINITY])
    }
    fn want(&self, o: &mut Vec<Ev>) {
        o.push(Ev::F32(self.to_bits()))
    }
}
impl Model for f64 {
    fn dom(c: &mut Ctx) -> Self {
        *c.of(&[0.0, -0.0, 1.5, f64::MAX, f64::NAN, f64::INFINITY])
    }
    fn want(&self, o: &mut Vec<Ev>) {
        o.push(Ev::F64(self.to_bits()))
    }
}
impl Model for bool {
    fn dom(c: &mut Ctx) -> Self {
        c.flag()
    }
    fn want(&self, o: &mut Vec<Ev>) {
        o.push(Ev::Bool(*self))
    }
}
impl Model for () {
    fn dom(_: &mut Ctx) -> Self {}
    fn want(&self, o: &mut Vec<Ev>) {
        o.push(Ev::Tag(m(T_UNIT, None, None)))
    }
}
impl Model for sval::Null {
    fn dom(_: &mut Ctx) -> Self {
        sval::Null
    }
    fn want(&self, o: &mut Vec<Ev>) {
        o.push(Ev::Null)
    }
}
impl Model for char {
    fn dom(c: &mut Ctx) -> Self {
        *c.of(&['\0', 'a', '"', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}'])
    }
    fn want(&self, o: &mut Vec<Ev>) {
        let s = self.to_string();
        o.extend([Ev::TextBegin(Some(s.len())), Ev::Text(s, false), Ev::TextEnd])
    }
}
pub fn text_dom(c: &mut Ctx) -> &'static str {
    *c.of(&["", "a", "é\"", "\u{1F600}\n", "a longer text, with more than sixteen bytes"])
}
pub fn text_want(s: &str, o: &mut Vec<Ev>) {
    o.extend([Ev::TextBegin(Some(s.len())), Ev::Text(s.into(), true), Ev::TextEnd])
}
impl Model for String {
    fn dom(c: &mut Ctx) -> Self {
        text_dom(c).into()
    }
    fn want(&self, o: &mut Vec<Ev>) {
        text_want(self, o)
    }
}
impl Model for &'static str {
    fn dom(c: &mut Ctx) -> Self {
        text_dom(c)
    }
    fn want(&self, o: &mut Vec<Ev>) {
        text_want(self, o)
    }
}
impl Model for Box<str> {
    fn dom(c: &mut Ctx) -> Self {
        text_dom(c).into()
    }
    fn want(&self, o: &mut Vec<Ev>) {
        text_want(self, o)
    }
}
fn json_want(s: &sval_json::JsonStr, o: &mut Vec<Ev>) {
    let m = M { tag: T_JVALUE, ..M::default() };
    o.push(Ev::TaggedBegin(m.clone()));
    text_want(s.as_str(), o);
    o.push(Ev::TaggedEnd(m));
}
const JSON_DOM: [&str; 4] = ["null", "{\"a\":[1,\"é\"]}", "-1.5e3", "\"x\""];
impl Model for &'static sval_json::JsonStr {
    fn dom(c: &mut Ctx) -> Self {
        sval_json::JsonStr::new(*c.of(&JSON_DOM))
    }
    fn want(&self, o: &mut Vec<Ev>) {
        json_want(self, o)
    }
}
impl Model for Box<sval_json::JsonStr> {
    fn dom(c: &mut Ctx) -> Self {
        let s = *c.of(&JSON_DOM);
        if c.flag() { sval_json::JsonStr::boxed(s) } else { Box::<str>::from(s).into() }
    }
    fn want(&self, o: &mut Vec<Ev>) {
        json_want(self, o)
    }
}
pub use crate::model::{none, some};
impl<T: Model> Model for Option<T> {
    fn dom(c: &mut Ctx) -> Self {
        if c.flag() { Some(T::dom(c)) } else { None }
    }
    fn want(&self, o: &mut Vec<Ev>) {
        match self {
            Some(v) => {
                o.push(Ev::TaggedBegin(some()));
                v.want(o);
                o.push(Ev::TaggedEnd(some()));
            }
            None => o.push(Ev::Tag(none())),
        }
    }
}
impl<T: Model> Model for Box<T> {
    fn dom(c: &mut Ctx) -> Self {
        Box::new(T::dom(c))
    }
    fn want(&self, o: &mut Vec<Ev>) {
        (**self).want(o)
    }
}
pub fn seq_want<T: Model>(v: &[T], o: &mut Vec<Ev>) {
    o.push(Ev::SeqBegin(Some(v.len())));
    for x in v {
        o.push(Ev::SeqValueBegin);
        x.want(o);
        o.push(Ev::SeqValueEnd);
    }
    o.push(Ev::SeqEnd);
}
impl<T: Model> Model for Vec<T> {
    fn dom(c: &mut Ctx) -> Self {
        let n = c.pick(3);
        (0..n).map(|_| T::dom(c)).collect()
    }
    fn want(&self, o: &mut Vec<Ev>) {
        seq_want(self, o)
    }
}
impl<T: Model> Model for Box<[T]> {
    fn dom(c: &mut Ctx) -> Self {
        <Vec<T>>::dom(c).into()
    }
    fn want(&self, o: &mut Vec<Ev>) {
        seq_want(self, o)
    }
}
impl<T: Model, const N: usize> Model for [T; N] {
    fn dom(c: &mut Ctx) -> Self {
        std::array::from_fn(|_| T::dom(c))
    }
    fn want(&self, o: &mut Vec<Ev>) {
        o.push(Ev::TaggedBegin(m(T_CONST, None, None)));
        seq_want(self, o);
        o.push(Ev::TaggedEnd(m(T_CONST, None, None)));
    }
}
macro_rules! tuples {
    ($(($($t:ident $i:tt),+))*) => { $(
        impl<$($t: Model),+> Model for ($($t,)+) {
            fn dom(c: &mut Ctx) -> Self { ($($t::dom(c),)+) }
            fn want(&self, o: &mut Vec<Ev>) {
                o.push(Ev::TupleBegin(M::default(), Some([$($i),+].len())));
                $(
                    o.push(Ev::TupleValueBegin(0, off($i)));
                    self.$i.want(o);
                    o.push(Ev::TupleValueEnd(0, off($i)));
                )+
                o.push(Ev::TupleEnd(M::default()));
            }
        }
    )* };
}
tuples! {
    (A 0)
    (A 0, B 1)
    (A 0, B 1, C 2)
    (A 0, B 1, C 2, D 3)
    (A 0, B 1, C 2, D 3, E 4)
    (A 0, B 1, C 2, D 3, E 4, F 5)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, MM 12)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, MM 12, N 13)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, MM 12, N 13, O 14)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, MM 12, N 13, O 14, P 15)
}

/// A distinct constant per position, for wide tuples.
#[derive(Clone, Copy)]
pub struct K<const N: u32>;
impl<const N: u32> sval::Value for K<N> {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        s.u32(N)
    }
}
impl<const N: u32> Model for K<N> {
    fn dom(_: &mut Ctx) -> Self {
        K
    }
    fn want(&self, o: &mut Vec<Ev>) {
        o.push(Ev::U32(N))
    }
}
pub type Wide = (K<0>, K<1>, K<2>, K<3>, K<4>, K<5>, K<6>, K<7>, K<8>, K<9>, K<10>, K<11>, K<12>, K<13>, K<14>, K<15>);

fn map_want<'a, A: Model + 'a, B: Model + 'a>(n: usize, it: impl Iterator<Item = (&'a A, &'a B)>, o: &mut Vec<Ev>) {
    o.push(Ev::MapBegin(Some(n)));
    for (k, v) in it {
        o.push(Ev::MapKeyBegin);
        k.want(o);
        o.extend([Ev::MapKeyEnd, Ev::MapValueBegin]);
        v.want(o);
        o.push(Ev::MapValueEnd);
    }
    o.push(Ev::MapEnd);
}
impl<A: Model + Ord, B: Model> Model for BTreeMap<A, B> {
    fn dom(c: &mut Ctx) -> Self {
        <Vec<(A, B)>>::dom(c).into_iter().collect()
    }
    fn want(&self, o: &mut Vec<Ev>) {
        map_want(self.len(), self.iter(), o)
    }
}
impl<A: Model + Eq + std::hash::Hash, B: Model> Model for HashMap<A, B> {
    fn dom(c: &mut Ctx) -> Self {
        <Vec<(A, B)>>::dom(c).into_iter().collect()
    }
    fn want(&self, o: &mut Vec<Ev>) {
        // iteration order is a property of the map, not of the library
        map_want(self.len(), self.iter(), o)
    }
}

/// A slice of pairs streamed as a map.
pub struct Pairs<A, B>(pub Vec<(A, B)>);
impl<A: sval::Value, B: sval::Value> sval::Value for Pairs<A, B> {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        s.value(sval::MapSlice::new(&self.0))
    }
}
impl<A: Model, B: Model> Model for Pairs<A, B> {
    fn dom(c: &mut Ctx) -> Self {
        Pairs(Model::dom(c))
    }
    fn want(&self, o: &mut Vec<Ev>) {
        map_want(self.0.len(), self.0.iter().map(|(a, b)| (a, b)), o)
    }
}

/// Bytes streamed as binary.
pub struct Bytes(pub Vec<u8>);
impl sval::Value for Bytes {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        s.value(sval::BinarySlice::new(&self.0))
    }
}
impl Model for Bytes {
    fn dom(c: &mut Ctx) -> Self {
        Bytes(c.of(&[&b""[..], b"\0", b"\xff\x80a", b"longer binary with over 16 bytes"]).to_vec())
    }
    fn want(&self, o: &mut Vec<Ev>) {
        o.extend([Ev::BinBegin(Some(self.0.len())), Ev::Bin(self.0.clone(), true), Ev::BinEnd])
    }
}
pub struct ByteArray<const N: usize>(pub [u8; N]);
impl<const N: usize> sval::Value for ByteArray<N> {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        s.value(sval::BinaryArray::new(&self.0))
    }
}
impl<const N: usize> Model for ByteArray<N> {
    fn dom(_: &mut Ctx) -> Self {
        ByteArray(std::array::from_fn(|i| (i * 77 + 200) as u8))
    }
    fn want(&self, o: &mut Vec<Ev>) {
        o.push(Ev::TaggedBegin(m(T_CONST, None, None)));
        o.extend([Ev::BinBegin(Some(N)), Ev::Bin(self.0.to_vec(), true), Ev::BinEnd]);
        o.push(Ev::TaggedEnd(m(T_CONST, None, None)));
    }
}

/// Something displayed in several writes.
#[derive(Clone)]
pub struct Shown(pub Vec<&'static str>);
impl std::fmt::Display for Shown {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        crate::serdes::plain(f)?;
        for s in &self.0 {
            f.write_str(s)?;
        }
        Ok(())
    }
}
impl std::fmt::Debug for Shown {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        std::fmt::Display::fmt(self, f)
    }
}
fn shown_dom(c: &mut Ctx) -> Shown {
    let n = c.pick(4);
    Shown((0..n).map(|_| *c.of(&["", "a", "é\"1"])).collect())
}
fn shown_want(s: &Shown, o: &mut Vec<Ev>) {
    o.extend([Ev::TextBegin(None), Ev::Text(s.to_string(), false), Ev::TextEnd])
}
macro_rules! shown {
    ($($name:ident => $f:expr;)*) => { $(
        pub struct $name(pub Shown);
        impl sval::Value for $name {
            fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
                let f: fn(&Shown, &mut dyn FnMut(&dyn sval_dynamic::Value) -> sval::Result) -> sval::Result = $f;
                f(&self.0, &mut |v| s.value_computed(v))
            }
        }
        impl Model for $name {
            fn dom(c: &mut Ctx) -> Self { $name(shown_dom(c)) }
            fn want(&self, o: &mut Vec<Ev>) { shown_want(&self.0, o) }
        }
    )* };
}
shown! {
    ShownCore => |v, f| f(&sval::Display::new(v));
    ShownCoreRef => |v, f| f(&sval::Display::new_borrowed(v));
    ShownFmt => |v, f| f(&sval_fmt::DisplayToValue::new(v));
    ShownFmtRef => |v, f| f(&sval_fmt::DisplayToValue::new_borrowed(v));
    DebugFmt => |v, f| f(&sval_fmt::DebugToValue::new(v));
    DebugFmtRef => |v, f| f(&sval_fmt::DebugToValue::new_borrowed(v));
}
macro_rules! streamed {
    ($($name:ident => $f:path;)*) => { $(
        pub struct $name(pub Shown);
        impl sval::Value for $name {
            fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
                $f(s, self.0.clone())
            }
        }
        impl Model for $name {
            fn dom(c: &mut Ctx) -> Self { $name(shown_dom(c)) }
            fn want(&self, o: &mut Vec<Ev>) { shown_want(&self.0, o) }
        }
    )* };
}
streamed! {
    StreamDisplay => sval::stream_display;
    StreamFmtDisplay => sval_fmt::stream_display;
    StreamFmtDebug => sval_fmt::stream_debug;
}
pub struct StreamNumber(pub Shown);
impl sval::Value for StreamNumber {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        sval::stream_number(s, self.0.clone())
    }
}
impl Model for StreamNumber {
    fn dom(c: &mut Ctx) -> Self {
        StreamNumber(shown_dom(c))
    }
    fn want(&self, o: &mut Vec<Ev>) {
        o.push(Ev::TaggedBegin(m(T_NUMBER, None, None)));
        shown_want(&self.0, o);
        o.push(Ev::TaggedEnd(m(T_NUMBER, None, None)));
    }
}

/// Visit one type of the catalogue.
pub trait Visit {
    type Out;
    fn visit<T: Model>(&mut self, name: &'static str, c: &mut Ctx) -> Self::Out;
}

macro_rules! catalogue {
    ($($t:ty,)*) => {
        pub const NAMES: &[&str] = &[$(stringify!($t)),*];
        pub fn visit<V: Visit>(v: &mut V, i: usize, c: &mut Ctx) -> V::Out {
            let fs: &[fn(&mut V, &mut Ctx) -> V::Out] = &[$(|v, c| v.visit::<$t>(stringify!($t), c)),*];
            fs[i](v, c)
        }
    };
}

type W1 = (K<1>,);
type W5 = (K<0>, K<1>, K<2>, K<3>, K<4>);
type W6 = (K<0>, K<1>, K<2>, K<3>, K<4>, K<5>);
type W7 = (K<0>, K<1>, K<2>, K<3>, K<4>, K<5>, K<6>);
type W8 = (K<0>, K<1>, K<2>, K<3>, K<4>, K<5>, K<6>, K<7>);
type W9 = (K<0>, K<1>, K<2>, K<3>, K<4>, K<5>, K<6>, K<7>, K<8>);
type W10 = (K<0>, K<1>, K<2>, K<3>, K<4>, K<5>, K<6>, K<7>, K<8>, K<9>);
type W11 = (K<0>, K<1>, K<2>, K<3>, K<4>, K<5>, K<6>, K<7>, K<8>, K<9>, K<10>);
type W12 = (K<0>, K<1>, K<2>, K<3>, K<4>, K<5>, K<6>, K<7>, K<8>, K<9>, K<10>, K<11>);
type W13 = (K<0>, K<1>, K<2>, K<3>, K<4>, K<5>, K<6>, K<7>, K<8>, K<9>, K<10>, K<11>, K<12>);
type W14 = (K<0>, K<1>, K<2>, K<3>, K<4>, K<5>, K<6>, K<7>, K<8>, K<9>, K<10>, K<11>, K<12>, K<13>);
type W15 = (K<0>, K<1>, K<2>, K<3>, K<4>, K<5>, K<6>, K<7>, K<8>, K<9>, K<10>, K<11>, K<12>, K<13>, K<14>);

catalogue! {
    (), bool, u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64, char, String, &'static str, Box<str>, sval::Null,
    Option<u8>, Option<Option<String>>, Option<()>, Option<Vec<bool>>, Box<i32>, Box<Option<Box<String>>>,
    Vec<u8>, Vec<String>, Vec<Vec<u8>>, Vec<Option<bool>>, Vec<()>, Box<[u16]>,
    [u8; 0], [u8; 1], [bool; 2], [String; 1], [[bool; 2]; 2], [Option<bool>; 3],
    (u8,), (u8, String), (bool, bool, bool), (bool, u8, String, ()), (Option<bool>, Vec<bool>), ((bool,), [bool; 1]),
    W1, W5, W6, W7, W8, W9, W10, W11, W12, W13, W14, W15, Wide,
    BTreeMap<String, u8>, BTreeMap<u8, Vec<bool>>, BTreeMap<(bool, bool), ()>, HashMap<String, u8>, HashMap<bool, Option<bool>>,
    Pairs<String, u8>, Pairs<u8, Pairs<bool, bool>>, Pairs<Vec<bool>, ()>,
    Bytes, ByteArray<0>, ByteArray<1>, ByteArray<5>, Vec<Bytes>, Option<ByteArray<2>>, Pairs<Bytes, String>,
    ShownCore, ShownCoreRef, ShownFmt, ShownFmtRef, DebugFmt, DebugFmtRef, StreamDisplay, StreamFmtDisplay, StreamFmtDebug, StreamNumber, Vec<StreamNumber>,
    &'static sval_json::JsonStr, Box<sval_json::JsonStr>, Vec<Box<sval_json::JsonStr>>,
}
