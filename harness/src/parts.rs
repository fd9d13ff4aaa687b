//! Streams that really leave out groups of optional methods, so that the methods the trait provides are used.
use crate::ev::*;
use sval::{Index, Label, Result, Stream, Tag};

macro_rules! g_borrow {
    () => {
        fn text_fragment(&mut self, f: &'sval str) -> Result { self.0.ev(Ev::Text(f.to_owned(), true)) }
    };
}
macro_rules! g_binary {
    () => {
        fn binary_begin(&mut self, n: Option<usize>) -> Result { self.0.ev(Ev::BinBegin(n)) }
        fn binary_fragment_computed(&mut self, f: &[u8]) -> Result { self.0.ev(Ev::Bin(f.to_owned(), false)) }
        fn binary_end(&mut self) -> Result { self.0.ev(Ev::BinEnd) }
    };
}
macro_rules! g_int_small {
    () => {
        fn u8(&mut self, v: u8) -> Result { self.0.ev(Ev::U8(v)) }
        fn u16(&mut self, v: u16) -> Result { self.0.ev(Ev::U16(v)) }
        fn u32(&mut self, v: u32) -> Result { self.0.ev(Ev::U32(v)) }
        fn i8(&mut self, v: i8) -> Result { self.0.ev(Ev::I8(v)) }
        fn i16(&mut self, v: i16) -> Result { self.0.ev(Ev::I16(v)) }
        fn i32(&mut self, v: i32) -> Result { self.0.ev(Ev::I32(v)) }
        fn f32(&mut self, v: f32) -> Result { self.0.ev(Ev::F32(v.to_bits())) }
    };
}
macro_rules! g_int_big {
    () => {
        fn u64(&mut self, v: u64) -> Result { self.0.ev(Ev::U64(v)) }
        fn u128(&mut self, v: u128) -> Result { self.0.ev(Ev::U128(v)) }
        fn i128(&mut self, v: i128) -> Result { self.0.ev(Ev::I128(v)) }
    };
}
macro_rules! g_map {
    () => {
        fn map_begin(&mut self, n: Option<usize>) -> Result { self.0.ev(Ev::MapBegin(n)) }
        fn map_key_begin(&mut self) -> Result { self.0.ev(Ev::MapKeyBegin) }
        fn map_key_end(&mut self) -> Result { self.0.ev(Ev::MapKeyEnd) }
        fn map_value_begin(&mut self) -> Result { self.0.ev(Ev::MapValueBegin) }
        fn map_value_end(&mut self) -> Result { self.0.ev(Ev::MapValueEnd) }
        fn map_end(&mut self) -> Result { self.0.ev(Ev::MapEnd) }
    };
}
macro_rules! g_enum {
    () => {
        fn enum_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.ev(Ev::EnumBegin(M::of(t, l, i))) }
        fn enum_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.ev(Ev::EnumEnd(M::of(t, l, i))) }
    };
}
macro_rules! g_tagged {
    () => {
        fn tagged_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.ev(Ev::TaggedBegin(M::of(t, l, i))) }
        fn tagged_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.ev(Ev::TaggedEnd(M::of(t, l, i))) }
    };
}
macro_rules! g_tag {
    () => {
        fn tag(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.ev(Ev::Tag(M::of(t, l, i))) }
    };
}
macro_rules! g_record {
    () => {
        fn record_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) -> Result { self.0.ev(Ev::RecordBegin(M::of(t, l, i), n)) }
        fn record_value_begin(&mut self, t: Option<&Tag>, l: &Label) -> Result { self.0.ev(Ev::RecordValueBegin(oid(t), L::of(l))) }
        fn record_value_end(&mut self, t: Option<&Tag>, l: &Label) -> Result { self.0.ev(Ev::RecordValueEnd(oid(t), L::of(l))) }
        fn record_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.ev(Ev::RecordEnd(M::of(t, l, i))) }
    };
}
macro_rules! g_tuple {
    () => {
        fn tuple_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) -> Result { self.0.ev(Ev::TupleBegin(M::of(t, l, i), n)) }
        fn tuple_value_begin(&mut self, t: Option<&Tag>, i: &Index) -> Result { self.0.ev(Ev::TupleValueBegin(oid(t), I::of(i))) }
        fn tuple_value_end(&mut self, t: Option<&Tag>, i: &Index) -> Result { self.0.ev(Ev::TupleValueEnd(oid(t), I::of(i))) }
        fn tuple_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.ev(Ev::TupleEnd(M::of(t, l, i))) }
    };
}
macro_rules! g_rectup {
    () => {
        fn record_tuple_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) -> Result { self.0.ev(Ev::RecordTupleBegin(M::of(t, l, i), n)) }
        fn record_tuple_value_begin(&mut self, t: Option<&Tag>, l: &Label, i: &Index) -> Result { self.0.ev(Ev::RecordTupleValueBegin(oid(t), L::of(l), I::of(i))) }
        fn record_tuple_value_end(&mut self, t: Option<&Tag>, l: &Label, i: &Index) -> Result { self.0.ev(Ev::RecordTupleValueEnd(oid(t), L::of(l), I::of(i))) }
        fn record_tuple_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> Result { self.0.ev(Ev::RecordTupleEnd(M::of(t, l, i))) }
    };
}
macro_rules! g_binborrow {
    () => {
        fn binary_fragment(&mut self, f: &'sval [u8]) -> Result { self.0.ev(Ev::Bin(f.to_owned(), true)) }
    };
}
struct R1(Vec<Ev>);
impl<'sval> Stream<'sval> for R1 {
    required_methods!(self => self.0);
    g_borrow!();
}
struct R2(Vec<Ev>);
impl<'sval> Stream<'sval> for R2 {
    required_methods!(self => self.0);
    g_binary!();
}
struct R4(Vec<Ev>);
impl<'sval> Stream<'sval> for R4 {
    required_methods!(self => self.0);
    g_int_small!();
}
struct R8(Vec<Ev>);
impl<'sval> Stream<'sval> for R8 {
    required_methods!(self => self.0);
    g_int_big!();
}
struct R16(Vec<Ev>);
impl<'sval> Stream<'sval> for R16 {
    required_methods!(self => self.0);
    g_map!();
}
struct R32(Vec<Ev>);
impl<'sval> Stream<'sval> for R32 {
    required_methods!(self => self.0);
    g_enum!();
}
struct R64(Vec<Ev>);
impl<'sval> Stream<'sval> for R64 {
    required_methods!(self => self.0);
    g_tagged!();
}
struct R128(Vec<Ev>);
impl<'sval> Stream<'sval> for R128 {
    required_methods!(self => self.0);
    g_tag!();
}
struct R256(Vec<Ev>);
impl<'sval> Stream<'sval> for R256 {
    required_methods!(self => self.0);
    g_record!();
}
struct R512(Vec<Ev>);
impl<'sval> Stream<'sval> for R512 {
    required_methods!(self => self.0);
    g_tuple!();
}
struct R1024(Vec<Ev>);
impl<'sval> Stream<'sval> for R1024 {
    required_methods!(self => self.0);
    g_rectup!();
}
struct R2046(Vec<Ev>);
impl<'sval> Stream<'sval> for R2046 {
    required_methods!(self => self.0);
    g_binary!(); g_int_small!(); g_int_big!(); g_map!(); g_enum!(); g_tagged!(); g_tag!(); g_record!(); g_tuple!(); g_rectup!();
}
struct R2045(Vec<Ev>);
impl<'sval> Stream<'sval> for R2045 {
    required_methods!(self => self.0);
    g_borrow!(); g_int_small!(); g_int_big!(); g_map!(); g_enum!(); g_tagged!(); g_tag!(); g_record!(); g_tuple!(); g_rectup!();
}
struct R2043(Vec<Ev>);
impl<'sval> Stream<'sval> for R2043 {
    required_methods!(self => self.0);
    g_borrow!(); g_binary!(); g_int_big!(); g_map!(); g_enum!(); g_tagged!(); g_tag!(); g_record!(); g_tuple!(); g_rectup!(); g_binborrow!();
}
struct R2039(Vec<Ev>);
impl<'sval> Stream<'sval> for R2039 {
    required_methods!(self => self.0);
    g_borrow!(); g_binary!(); g_int_small!(); g_map!(); g_enum!(); g_tagged!(); g_tag!(); g_record!(); g_tuple!(); g_rectup!(); g_binborrow!();
}
struct R2031(Vec<Ev>);
impl<'sval> Stream<'sval> for R2031 {
    required_methods!(self => self.0);
    g_borrow!(); g_binary!(); g_int_small!(); g_int_big!(); g_enum!(); g_tagged!(); g_tag!(); g_record!(); g_tuple!(); g_rectup!(); g_binborrow!();
}
struct R2015(Vec<Ev>);
impl<'sval> Stream<'sval> for R2015 {
    required_methods!(self => self.0);
    g_borrow!(); g_binary!(); g_int_small!(); g_int_big!(); g_map!(); g_tagged!(); g_tag!(); g_record!(); g_tuple!(); g_rectup!(); g_binborrow!();
}
struct R1983(Vec<Ev>);
impl<'sval> Stream<'sval> for R1983 {
    required_methods!(self => self.0);
    g_borrow!(); g_binary!(); g_int_small!(); g_int_big!(); g_map!(); g_enum!(); g_tag!(); g_record!(); g_tuple!(); g_rectup!(); g_binborrow!();
}
struct R1919(Vec<Ev>);
impl<'sval> Stream<'sval> for R1919 {
    required_methods!(self => self.0);
    g_borrow!(); g_binary!(); g_int_small!(); g_int_big!(); g_map!(); g_enum!(); g_tagged!(); g_record!(); g_tuple!(); g_rectup!(); g_binborrow!();
}
struct R1791(Vec<Ev>);
impl<'sval> Stream<'sval> for R1791 {
    required_methods!(self => self.0);
    g_borrow!(); g_binary!(); g_int_small!(); g_int_big!(); g_map!(); g_enum!(); g_tagged!(); g_tag!(); g_tuple!(); g_rectup!(); g_binborrow!();
}
struct R1535(Vec<Ev>);
impl<'sval> Stream<'sval> for R1535 {
    required_methods!(self => self.0);
    g_borrow!(); g_binary!(); g_int_small!(); g_int_big!(); g_map!(); g_enum!(); g_tagged!(); g_tag!(); g_record!(); g_rectup!(); g_binborrow!();
}
struct R1023(Vec<Ev>);
impl<'sval> Stream<'sval> for R1023 {
    required_methods!(self => self.0);
    g_borrow!(); g_binary!(); g_int_small!(); g_int_big!(); g_map!(); g_enum!(); g_tagged!(); g_tag!(); g_record!(); g_tuple!(); g_binborrow!();
}
struct R65(Vec<Ev>);
impl<'sval> Stream<'sval> for R65 {
    required_methods!(self => self.0);
    g_borrow!(); g_tagged!();
}
struct R66(Vec<Ev>);
impl<'sval> Stream<'sval> for R66 {
    required_methods!(self => self.0);
    g_binary!(); g_tagged!();
}
struct R68(Vec<Ev>);
impl<'sval> Stream<'sval> for R68 {
    required_methods!(self => self.0);
    g_int_small!(); g_tagged!();
}
struct R72(Vec<Ev>);
impl<'sval> Stream<'sval> for R72 {
    required_methods!(self => self.0);
    g_int_big!(); g_tagged!();
}
struct R80(Vec<Ev>);
impl<'sval> Stream<'sval> for R80 {
    required_methods!(self => self.0);
    g_map!(); g_tagged!();
}
struct R96(Vec<Ev>);
impl<'sval> Stream<'sval> for R96 {
    required_methods!(self => self.0);
    g_enum!(); g_tagged!();
}
struct R192(Vec<Ev>);
impl<'sval> Stream<'sval> for R192 {
    required_methods!(self => self.0);
    g_tagged!(); g_tag!();
}
struct R320(Vec<Ev>);
impl<'sval> Stream<'sval> for R320 {
    required_methods!(self => self.0);
    g_tagged!(); g_record!();
}
struct R576(Vec<Ev>);
impl<'sval> Stream<'sval> for R576 {
    required_methods!(self => self.0);
    g_tagged!(); g_tuple!();
}
struct R1088(Vec<Ev>);
impl<'sval> Stream<'sval> for R1088 {
    required_methods!(self => self.0);
    g_tagged!(); g_rectup!();
}
struct R81(Vec<Ev>);
impl<'sval> Stream<'sval> for R81 {
    required_methods!(self => self.0);
    g_borrow!(); g_map!(); g_tagged!();
}
struct R82(Vec<Ev>);
impl<'sval> Stream<'sval> for R82 {
    required_methods!(self => self.0);
    g_binary!(); g_map!(); g_tagged!();
}
struct R84(Vec<Ev>);
impl<'sval> Stream<'sval> for R84 {
    required_methods!(self => self.0);
    g_int_small!(); g_map!(); g_tagged!();
}
struct R88(Vec<Ev>);
impl<'sval> Stream<'sval> for R88 {
    required_methods!(self => self.0);
    g_int_big!(); g_map!(); g_tagged!();
}
struct R112(Vec<Ev>);
impl<'sval> Stream<'sval> for R112 {
    required_methods!(self => self.0);
    g_map!(); g_enum!(); g_tagged!();
}
struct R208(Vec<Ev>);
impl<'sval> Stream<'sval> for R208 {
    required_methods!(self => self.0);
    g_map!(); g_tagged!(); g_tag!();
}
struct R336(Vec<Ev>);
impl<'sval> Stream<'sval> for R336 {
    required_methods!(self => self.0);
    g_map!(); g_tagged!(); g_record!();
}
struct R592(Vec<Ev>);
impl<'sval> Stream<'sval> for R592 {
    required_methods!(self => self.0);
    g_map!(); g_tagged!(); g_tuple!();
}
struct R1104(Vec<Ev>);
impl<'sval> Stream<'sval> for R1104 {
    required_methods!(self => self.0);
    g_map!(); g_tagged!(); g_rectup!();
}

pub const MASKS: [u32; 41] = [1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2046, 2045, 2043, 2039, 2031, 2015, 1983, 1919, 1791, 1535, 1023, 65, 66, 68, 72, 80, 96, 192, 320, 576, 1088, 81, 82, 84, 88, 112, 208, 336, 592, 1104];

fn all<'a, S: Stream<'a>>(s: &mut S, evs: &'a [Ev]) -> Result {
    for e in evs {
        send(e, s)?;
    }
    Ok(())
}

/// Send events to a stream that implements exactly the groups in `mask`, if there is one.
pub fn send_to(mask: u32, evs: &[Ev]) -> Option<(Result, Vec<Ev>)> {
    macro_rules! run {
        ($t:ident) => {{
            let mut s = $t(vec![]);
            let r = all(&mut s, evs);
            Some((r, s.0))
        }};
    }
    match mask {
        1 => run!(R1),
        2 => run!(R2),
        4 => run!(R4),
        8 => run!(R8),
        16 => run!(R16),
        32 => run!(R32),
        64 => run!(R64),
        128 => run!(R128),
        256 => run!(R256),
        512 => run!(R512),
        1024 => run!(R1024),
        2046 => run!(R2046),
        2045 => run!(R2045),
        2043 => run!(R2043),
        2039 => run!(R2039),
        2031 => run!(R2031),
        2015 => run!(R2015),
        1983 => run!(R1983),
        1919 => run!(R1919),
        1791 => run!(R1791),
        1535 => run!(R1535),
        1023 => run!(R1023),
        65 => run!(R65),
        66 => run!(R66),
        68 => run!(R68),
        72 => run!(R72),
        80 => run!(R80),
        96 => run!(R96),
        192 => run!(R192),
        320 => run!(R320),
        576 => run!(R576),
        1088 => run!(R1088),
        81 => run!(R81),
        82 => run!(R82),
        84 => run!(R84),
        88 => run!(R88),
        112 => run!(R112),
        208 => run!(R208),
        336 => run!(R336),
        592 => run!(R592),
        1104 => run!(R1104),
        _ => None,
    }
}
