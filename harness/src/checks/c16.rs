//! C16: nested streams receive the same value as flat streams.
use super::c07::norm;
use super::c11::lower;
use super::Check;
use crate::engine::*;
use crate::metas;
use crate::sizes;
use crate::ev::*;
use crate::model::*;
use crate::nest::*;
use crate::types::*;
use sval_nested::{Stream, StreamEnum, StreamMap, StreamRecord, StreamSeq, StreamTuple};

const ENTRY: [&str; 7] = ["stream", "stream_ref", "stream_computed", "value", "value_ref", "value_computed", "value of a buffer"];

fn run<'a, S: Stream<'a, Ok = Vec<Ev>>, V: sval::Value>(how: usize, s: S, v: &'a V) -> Result<Vec<Ev>, String> {
    let r = match how {
        0 => sval_nested::stream(s, sval_ref::to_ref(v)),
        1 => sval_nested::stream_ref(s, v),
        2 => sval_nested::stream_computed(s, v),
        3 => s.value(sval_ref::to_ref(v)),
        4 => s.value_ref(v),
        5 => s.value_computed(v),
        _ => s.value(sval_buffer::ValueBuf::collect(v).map_err(|e| e.to_string())?),
    };
    r.map_err(|e| e.to_string())
}

/// Without the events the nested interface documents as discarded.
fn data(evs: &[Ev]) -> Vec<Ev> {
    norm(&canon(evs, Canon { hints: false, borrow: false, label_static: true, sizes: true }))
}

/// Whether a value has an enum with a nested enum whose variant has fields, or an enum without a tag-carrying variant.
pub fn supported(n: &Node) -> bool {
    match &n.k {
        Kind::Seq(v) => v.iter().all(supported),
        Kind::Map(v) => v.iter().all(|(a, b)| supported(a) && supported(b)),
        Kind::Tagged(_, x) => supported(x),
        Kind::Enum(_, x) => supported(x) && matches!(x.k, Kind::Tag(_) | Kind::Tagged(..) | Kind::Enum(..) | Kind::Record(..) | Kind::Tuple(..) | Kind::RecordTuple(..)),
        Kind::Record(_, v) => v.iter().all(|f| supported(&f.2)),
        Kind::Tuple(_, v) => v.iter().all(|f| supported(&f.2)),
        Kind::RecordTuple(_, v) => v.iter().all(|f| supported(&f.3)),
        _ => true,
    }
}

/// What a nested stream with only the required methods must be given.
fn minimal(n: &Node, out: &mut Vec<Ev>) {
    let size = |k: usize| if n.st.sizes { Some(k) } else { None };
    match &n.k {
        Kind::Bin(b, _) => {
            // nested streams see binary whole, so its length is always known
            out.push(Ev::SeqBegin(Some(b.len())));
            for x in b {
                out.extend([Ev::SeqValueBegin, Ev::I64(*x as i64), Ev::SeqValueEnd]);
            }
            out.push(Ev::SeqEnd);
        }
        Kind::Seq(v) => {
            out.push(Ev::SeqBegin(size(v.len())));
            for x in v {
                out.push(Ev::SeqValueBegin);
                minimal(x, out);
                out.push(Ev::SeqValueEnd);
            }
            out.push(Ev::SeqEnd);
        }
        Kind::Map(v) => {
            out.push(Ev::MapBegin(size(v.len())));
            for (k, x) in v {
                out.push(Ev::MapKeyBegin);
                minimal(k, out);
                out.extend([Ev::MapKeyEnd, Ev::MapValueBegin]);
                minimal(x, out);
                out.push(Ev::MapValueEnd);
            }
            out.push(Ev::MapEnd);
        }
        Kind::Tagged(_, x) => minimal(x, out),
        Kind::Enum(m, x) => {
            out.push(Ev::EnumBegin(m.clone()));
            match &x.k {
                Kind::Tag(m) => out.push(Ev::Tag(m.clone())),
                Kind::Tagged(m, y) => {
                    out.push(Ev::TaggedBegin(m.clone()));
                    minimal(y, out);
                    out.push(Ev::TaggedEnd(m.clone()));
                }
                _ => minimal(x, out),
            }
            out.push(Ev::EnumEnd(m.clone()));
        }
        Kind::Tuple(m, v) => {
            out.push(Ev::TupleBegin(m.clone(), size(v.len())));
            for (t, i, x) in v {
                out.push(Ev::TupleValueBegin(*t, i.clone()));
                minimal(x, out);
                out.push(Ev::TupleValueEnd(*t, i.clone()));
            }
            out.push(Ev::TupleEnd(m.clone()));
        }
        Kind::Record(m, v) => {
            let v: Vec<_> = v.iter().map(|(t, l, x)| (*t, l, x)).collect();
            record_of(m, size(v.len()), &v, out)
        }
        Kind::RecordTuple(m, v) => {
            let v: Vec<_> = v.iter().map(|(t, l, _, x)| (*t, l, x)).collect();
            record_of(m, size(v.len()), &v, out)
        }
        // everything else as a flat stream without optional methods
        _ => lower(n, 0, out),
    }
}
fn record_of(m: &M, sz: Sz, v: &[(u8, &L, &Node)], out: &mut Vec<Ev>) {
    out.push(Ev::RecordBegin(m.clone(), sz));
    for (t, l, x) in v {
        out.push(Ev::RecordValueBegin(*t, (*l).clone()));
        minimal(x, out);
        out.push(Ev::RecordValueEnd(*t, (*l).clone()));
    }
    out.push(Ev::RecordEnd(m.clone()));
}

fn compare(c: &mut Ctx, what: &str, got: Result<Vec<Ev>, String>, want: &[Ev], supported: bool) -> Res {
    c.step(want.len());
    c.outcome(&got);
    c.describe(|| format!("{}: {:?}", what, want));
    match got {
        Ok(got) => {
            if data(&got) != want {
                fail!("{}: nested calls gave {:?} instead of {:?}", what, data(&got), want);
            }
            Ok(())
        }
        Err(e) if supported => fail!("{}: failed with {:?} for {:?}", what, e, want),
        Err(_) => Ok(()),
    }
}

fn check_node(c: &mut Ctx, n: &Node) -> Res {
    let how = c.pick(ENTRY.len());
    let mode = c.pick(4);
    let ok = supported(n);
    if mode == 3 {
        let mut w = vec![];
        minimal(n, &mut w);
        let w = data(&w);
        let got = run(how, NMin, n);
        return compare(c, &format!("{} into a minimal stream", ENTRY[how]), got, &w, ok);
    }
    let mut w = vec![];
    // values handed over whole to a flat recorder keep what nested streams lower
    lower(n, G_ALL & !G_RECTUP, &mut w);
    let w = data(&w);
    let got = run(how, NRec::new(MODES[mode]), n);
    if MODES[mode] == Mode::Flat {
        let got = got.map(|g| unrectup(&g));
        return compare(c, &format!("{} recorded {:?}", ENTRY[how], MODES[mode]), got, &w, ok);
    }
    compare(c, &format!("{} recorded {:?}", ENTRY[how], MODES[mode]), got, &w, ok)
}

/// A record-tuple seen as a record.
fn unrectup(evs: &[Ev]) -> Vec<Ev> {
    evs.iter()
        .map(|e| match e {
            Ev::RecordTupleBegin(m, s) => Ev::RecordBegin(m.clone(), *s),
            Ev::RecordTupleEnd(m) => Ev::RecordEnd(m.clone()),
            Ev::RecordTupleValueBegin(t, l, _) => Ev::RecordValueBegin(*t, l.clone()),
            Ev::RecordTupleValueEnd(t, l, _) => Ev::RecordValueEnd(*t, l.clone()),
            e => e.clone(),
        })
        .collect()
}

type Kid<'a> = &'a Node;
macro_rules! by {
    ($how:expr, $o:ident.$a:ident/$b:ident/$d:ident($($x:expr,)* ; $v:expr)) => {
        match $how {
            0 => $o.$a($($x,)* sval_ref::to_ref($v)),
            1 => $o.$b($($x,)* $v),
            _ => $o.$d($($x,)* $v),
        }
    };
}
fn metas<R>(m: &M, f: impl FnOnce(Option<sval::Tag>, Option<sval::Label>, Option<sval::Index>) -> R) -> R {
    m.with(|t, l, i| f(t.cloned(), l.map(|l| l.to_owned()), i.cloned()))
}
fn tags(t: u8) -> Option<sval::Tag> {
    tag_of(t).cloned()
}
fn tuple_into<'a, T: StreamTuple<'a>>(how: usize, mut p: T, v: &'a [(u8, I, Node)]) -> sval_nested::Result<T::Ok> {
    for (t, i, x) in v {
        by!(how, p.value/value_ref/value_computed(tags(*t), i.index(),; x))?;
    }
    p.end()
}
fn record_into<'a, T: StreamRecord<'a>>(how: usize, mut p: T, v: &'a [(u8, L, Node)]) -> sval_nested::Result<T::Ok> {
    for (t, l, x) in v {
        l.with(|l| by!(how, p.value/value_ref/value_computed(tags(*t), l.to_owned(),; x)))?;
    }
    p.end()
}
fn enum_into<'a, T: StreamEnum<'a>>(how: usize, e: T, x: Kid<'a>) -> sval_nested::Result<T::Ok> {
    let size = |k: usize| if x.st.sizes { Some(k) } else { None };
    match &x.k {
        Kind::Tag(m) => metas(m, |t, l, i| e.tag(t, l, i)),
        Kind::Tagged(m, y) => metas(m, |t, l, i| by!(how, e.tagged/tagged_ref/tagged_computed(t, l, i,; &**y))),
        Kind::Tuple(m, v) => tuple_into(how, metas(m, |t, l, i| e.tuple_begin(t, l, i, size(v.len())))?, v),
        Kind::Record(m, v) => record_into(how, metas(m, |t, l, i| e.record_begin(t, l, i, size(v.len())))?, v),
        _ => e.empty(),
    }
}
/// The outermost calls made by hand; parts are handed over as values, references or short-lived.
fn drive<'a, S: Stream<'a>>(how: usize, s: S, n: Kid<'a>) -> Option<sval_nested::Result<S::Ok>> {
    let size = |k: usize| if n.st.sizes { Some(k) } else { None };
    let r = || {
        match &n.k {
            Kind::Null => s.null(),
            Kind::Bool(v) => s.bool(*v),
            Kind::I8(v) => s.i8(*v),
            Kind::I16(v) => s.i16(*v),
            Kind::I32(v) => s.i32(*v),
            Kind::I64(v) => s.i64(*v),
            Kind::I128(v) => s.i128(*v),
            Kind::U8(v) => s.u8(*v),
            Kind::U16(v) => s.u16(*v),
            Kind::U32(v) => s.u32(*v),
            Kind::U64(v) => s.u64(*v),
            Kind::U128(v) => s.u128(*v),
            Kind::F32(v) => s.f32(*v),
            Kind::F64(v) => s.f64(*v),
            Kind::Text(t, _) if how < 2 => s.text(t),
            Kind::Text(t, _) => s.text_computed(t),
            Kind::Bin(b, _) if how < 2 => s.binary(b),
            Kind::Bin(b, _) => s.binary_computed(b),
            Kind::Seq(v) => {
                let mut p = s.seq_begin(size(v.len()))?;
                for x in v {
                    by!(how, p.value/value_ref/value_computed(; x))?;
                }
                p.end()
            }
            Kind::Map(v) => {
                let mut p = s.map_begin(size(v.len()))?;
                for (k, x) in v {
                    by!(how, p.key/key_ref/key_computed(; k))?;
                    by!(how, p.value/value_ref/value_computed(; x))?;
                }
                p.end()
            }
            Kind::Tag(m) => metas(m, |t, l, i| s.tag(t, l, i)),
            Kind::Tagged(m, x) => metas(m, |t, l, i| by!(how, s.tagged/tagged_ref/tagged_computed(t, l, i,; &**x))),
            Kind::Tuple(m, v) => tuple_into(how, metas(m, |t, l, i| s.tuple_begin(t, l, i, size(v.len())))?, v),
            Kind::Record(m, v) => record_into(how, metas(m, |t, l, i| s.record_begin(t, l, i, size(v.len())))?, v),
            Kind::Enum(m, x) => {
                let e = metas(m, |t, l, i| s.enum_begin(t, l, i))?;
                match &x.k {
                    Kind::Enum(m, x) => metas(m, |t, l, i| e.nested(t, l, i, |e| enum_into(how, e, x))),
                    _ => enum_into(how, e, x),
                }
            }
            Kind::RecordTuple(..) | Kind::Hole => unreachable!(),
        }
    };
    let direct = |x: &Node| matches!(x.k, Kind::Tag(_) | Kind::Tagged(..) | Kind::Record(..) | Kind::Tuple(..));
    match &n.k {
        Kind::RecordTuple(..) => None,
        Kind::Enum(_, x) if !direct(x) && !matches!(&x.k, Kind::Enum(_, y) if direct(y)) => None,
        _ => Some(r()),
    }
}
fn check_calls(c: &mut Ctx, n: &Node) -> Res {
    let how = c.pick(3);
    let mode = c.pick(4);
    let what = format!("calls by {}, recorder {}", ["value", "reference", "short-lived value"][how], mode);
    let (got, borrowed) = if mode == 3 {
        (drive(how, NMin, n), None)
    } else {
        (drive(how, NRec::new(MODES[mode]), n), (how == 1).then(|| drive(0, NRec::new(MODES[mode]), n)))
    };
    let Some(got) = got else { return Ok(()) };
    if let (Some(Some(Ok(a))), Ok(b)) = (&borrowed, &got) {
        if a != b {
            fail!("{}: {:?} by value but {:?} by reference", what, a, b);
        }
    }
    if let (2, Ok(g)) = (how, &got) {
        // everything except labels is short-lived
        if let Some(e) = g.iter().find(|e| matches!(e, Ev::Text(t, true) if !t.is_empty() && !matches!(n.k, Kind::Tag(_))) && !has_tag(n)) {
            fail!("{}: {:?} borrowed from a short-lived value", what, e);
        }
    }
    let mut w = vec![];
    if mode == 3 { minimal(n, &mut w) } else { lower(n, G_ALL & !G_RECTUP, &mut w) }
    let got = got.map_err(|e| e.to_string());
    let got = if mode == 2 { got.map(|g| unrectup(&g)) } else { got };
    compare(c, &what, got, &data(&w), supported(n))
}
fn has_tag(n: &Node) -> bool {
    n.evs().iter().any(|e| matches!(e, Ev::Tag(_)))
}

struct Go;
impl Visit for Go {
    type Out = Res;
    fn visit<T: Model>(&mut self, name: &'static str, c: &mut Ctx) -> Res {
        let v = T::dom(c);
        let w = data(&wants(&v));
        let how = c.pick(ENTRY.len());
        let mode = *c.of(&MODES);
        let got = run(how, NRec::new(mode), &v);
        compare(c, &format!("{} {} recorded {:?}", name, ENTRY[how], mode), got, &w, true)
    }
}

pub fn check(thorough: bool) -> Check {
    let mut g = Gen::basic();
    g.leaves = vec![Kind::U8(1), Kind::Text("a\"é".into(), vec![]), Kind::Text("abcd".into(), vec![2]), Kind::Bin(vec![1, 255], vec![])];
    let mut deep = Gen::basic();
    deep.leaves = vec![Kind::U8(1), Kind::Text("a".into(), vec![])];
    deep.tag_metas = vec![m(T_X, Some(ident("Tg")), Some(off(1)))];
    deep.tagged_metas = vec![m(0, Some(L { text: "td".into(), is_static: false, tag: 0 }), Some(off(2)))];
    deep.enum_metas = vec![m(0, Some(ident("En")), None), M::default()];
    deep.rec_metas = vec![m(0, Some(ident("Rc")), Some(off(2)))];
    deep.depth = 6;
    let mut num = Gen::basic();
    num.leaves = number_leaves();
    num.leaves.extend([Kind::Null, Kind::Bool(true), Kind::Text("".into(), vec![]), Kind::Bin(vec![], vec![])]);
    num.depth = 2;
    num.width = 1;
    let mut raw = Gen::basic();
    raw.kinds = K_SEQ | K_MAP;
    let (b, d) = if thorough { (4, 5) } else { (3, 4) };
    let gc = g.clone();
    Check {
        suites: vec![
            suite("trees", format!("every tree of at most {} nodes in 12 styles, through 7 entry points, into 4 nested recorders", b), move |c| {
                let n = g.node(c, b).styled(*c.of(if c.thorough { &Style::SHORT[..] } else { &Style::ALL[..] }));
                check_node(c, &n)
            }),
            suite("deep", format!("every tree of at most {} nodes over a small alphabet in 4 styles", d), move |c| {
                let n = deep.node(c, d).styled(*c.of(&Style::SHORT));
                check_node(c, &n)
            }),
            suite("calls", format!("every tree of at most {} nodes, the outermost nested calls made directly, by value, by reference and short-lived, on 4 nested recorders", b), {
                let mut g = gc;
                g.tag_metas.push(m(0, Some(L { text: "dyn".into(), is_static: false, tag: 0 }), None));
                g.leaves.extend([Kind::Bool(true), Kind::I128(i128::MIN), Kind::U128(u128::MAX), Kind::U64(u64::MAX), Kind::I8(-1), Kind::F32(1.5), Kind::U16(7), Kind::U32(7), Kind::I16(-7), Kind::I32(-7)]);
                move |c| {
                    let n = g.node(c, b);
                    check_calls(c, &n)
                }
            }),
            suite("numbers", "every boundary number in every position", move |c| {
                let n = num.node(c, 2).styled(*c.of(&Style::SHORT));
                check_node(c, &n)
            }),
            suite("types", format!("{} built-in types, all enumerated instances", NAMES.len()), |c| {
                let i = c.pick(NAMES.len());
                visit(&mut Go, i, c)
            }),
            suite("empty-enums", "enums of at most 3 levels without a variant, in every position, through 7 entry points, into 4 nested recorders", |c| {
                let lv = 1 + c.pick(3);
                let ms: Vec<M> = (0..lv).map(|i| m(if i == 1 { T_X } else { 0 }, Some(ident(["A", "B", "C"][i])), ix(i as i128))).collect();
                let mut evs = wrap(&ms, vec![]);
                let f = ident("fa");
                let (b, e) = match c.pick(7) {
                    0 => (vec![], vec![]),
                    1 => (vec![Ev::SeqBegin(Some(2)), Ev::SeqValueBegin], vec![Ev::SeqValueEnd, Ev::SeqValueBegin, Ev::Null, Ev::SeqValueEnd, Ev::SeqEnd]),
                    2 => (vec![Ev::MapBegin(Some(1)), Ev::MapKeyBegin], vec![Ev::MapKeyEnd, Ev::MapValueBegin, Ev::Null, Ev::MapValueEnd, Ev::MapEnd]),
                    3 => (vec![Ev::MapBegin(Some(1)), Ev::MapKeyBegin, Ev::Null, Ev::MapKeyEnd, Ev::MapValueBegin], vec![Ev::MapValueEnd, Ev::MapEnd]),
                    4 => (vec![Ev::RecordBegin(ms[0].clone(), Some(1)), Ev::RecordValueBegin(T_Y, f.clone())], vec![Ev::RecordValueEnd(T_Y, f), Ev::RecordEnd(ms[0].clone())]),
                    5 => (vec![Ev::TupleBegin(ms[0].clone(), Some(1)), Ev::TupleValueBegin(T_Y, off(3))], vec![Ev::TupleValueEnd(T_Y, off(3)), Ev::TupleEnd(ms[0].clone())]),
                    _ => (vec![Ev::TaggedBegin(ms[0].clone())], vec![Ev::TaggedEnd(ms[0].clone())]),
                };
                evs.splice(0..0, b);
                evs.extend(e);
                let v = Script(evs);
                let how = c.pick(ENTRY.len());
                let mode = c.pick(4);
                let w = data(&v.0);
                if mode == 3 {
                    let w: Vec<Ev> = w.into_iter().filter(|e| !matches!(e, Ev::TaggedBegin(_) | Ev::TaggedEnd(_))).collect();
                    return compare(c, ENTRY[how], run(how, NMin, &v), &w, true);
                }
                compare(c, ENTRY[how], run(how, NRec::new(MODES[mode]), &v), &w, true)
            }),
            suite("unsupported", "enums (one or two levels) directly around every untagged value of at most 2 nodes: an error, no panic", move |c| {
                let x = raw.node(c, 2);
                let mut n = Node::new(Kind::Enum(m(0, Some(ident("En")), None), Box::new(x)));
                if c.flag() {
                    n = Node::new(Kind::Enum(m(0, Some(ident("Ot")), None), Box::new(n)));
                }
                let n = match c.pick(3) {
                    0 => n,
                    1 => Node::new(Kind::Seq(vec![n])),
                    _ => Node::new(Kind::Tagged(M::default(), Box::new(n))),
                };
                let n = n.styled(*c.of(&Style::ALL));
                check_node(c, &n)
            }),
            suite("names", metas::bounds(), move |c| {
                let n = match metas::pick(c) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let n = n.styled(*c.of(&[Style::DEFAULT, Style::SHORT[3]]));
                check_node(c, &n)
            }),
            suite("sizes", sizes::bounds(thorough, if thorough { 1100 } else { 260 }, 2), move |c| {
                let n = sizes::pick_in(c, if c.thorough { 1100 } else { 260 }, 2);
                let n = n.styled(*c.of(&[Style::DEFAULT, Style::SHORT[3]]));
                check_node(c, &n)
            }),
        ],
        assumptions: vec!["tag hints are documented as discarded by the nested interface", "a record-tuple arrives as a record"],
    }
}
