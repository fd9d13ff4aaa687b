//! C06: a failure at any point stops streaming and reaches the caller.
use super::c10::{wrapped, STREAMS, VALUES};
use super::c17::SGen;
use super::c18::{Around, TOS};
use super::Check;
use crate::consumers;
use crate::engine::*;
use crate::metas;
use crate::sizes;
use crate::ev::*;
use crate::model::*;
use crate::nest::{Ctl, NRec, MODES};
use crate::serdes::*;
use crate::types::*;
use serde::Serialize;
use std::cell::Cell;
use std::fmt;
use std::rc::Rc;
use sval::{Stream, Value};

/// Fail each call in turn: `run` gets the position to fail at and reports success, the calls seen and those after the failure.
fn each_call(c: &mut Ctx, what: impl Fn() -> String, run: impl Fn(usize) -> (bool, usize, usize)) -> Res {
    let (ok, total, _) = run(usize::MAX);
    if !ok {
        // values that cannot be expressed are refused by themselves
        return Ok(());
    }
    if total == 0 {
        return Ok(());
    }
    let k = c.pick(total);
    let (ok, seen, after) = run(k);
    c.step(seen);
    c.outcome(&(total, k));
    c.describe(|| format!("{}: call {} of {} fails", what(), k, total));
    if ok {
        fail!("{}: call {} of {} failed, and success was reported", what(), k, total);
    }
    if after != 0 {
        fail!("{}: {} more calls after call {} of {} failed", what(), after, k, total);
    }
    if seen != k + 1 {
        fail!("{}: {} calls were made instead of {} of {}", what(), seen, k + 1, total);
    }
    Ok(())
}

/// The receiving streams: all methods, the required ones, and some of the optional ones.
pub const MASKS: [u32; 8] = [
    u32::MAX,
    0,
    G_ALL & !G_MAP,
    G_ALL & !(G_RECORD | G_TUPLE),
    G_ALL & !(G_TAGGED | G_TAG),
    G_ALL & !(G_BINARY | G_INT_BIG),
    G_RECTUP | G_ENUM,
    G_MAP | G_RECORD,
];

pub fn into_stream<'s>(w: usize, at: usize, run: impl FnOnce(&mut dyn sval_dynamic::Stream<'s>) -> sval::Result) -> (bool, usize, usize) {
    let (r, s) = match MASKS[w] {
        u32::MAX => {
            let mut s = Full(FailAt::new(at));
            (run(&mut s), s.0)
        }
        0 => {
            let mut s = Min(FailAt::new(at));
            (run(&mut s), s.0)
        }
        mask => {
            let mut s = Part { sink: FailAt::new(at), mask };
            (run(&mut s), s.sink)
        }
    };
    (r.is_ok(), s.seen, s.after)
}

struct Types;
impl Visit for Types {
    type Out = Res;
    fn visit<T: Model>(&mut self, name: &'static str, c: &mut Ctx) -> Res {
        let v = T::dom(c);
        let w = c.pick(MASKS.len());
        let how = c.pick(3);
        each_call(c, || format!("{} (receiver {}, way {})", name, w, how), |at| match how {
            0 => match MASKS[w] {
                // without dynamic dispatch in between
                u32::MAX => {
                    let mut s = Full(FailAt::new(at));
                    (v.stream(&mut s).is_ok(), s.0.seen, s.0.after)
                }
                mask => {
                    let mut s = Part { sink: FailAt::new(at), mask };
                    (v.stream(&mut s).is_ok(), s.sink.seen, s.sink.after)
                }
            },
            1 => into_stream(w, at, |s| s.value(&v)),
            _ => into_stream(w, at, |s| s.value_computed(&v)),
        })
    }
}

/// A value that fails by itself after some of its events, in the way one of its parts is streamed.
#[derive(Clone)]
pub struct Faulty {
    evs: Vec<Ev>,
    from: usize,
    to: usize,
    inner: Broken,
    how: Child,
}
#[derive(Clone)]
pub struct Broken(Vec<Ev>);
impl Value for Broken {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, stream: &mut S) -> sval::Result {
        for e in &self.0 {
            send(e, stream)?;
        }
        sval::error()
    }
}
impl Value for Faulty {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, stream: &mut S) -> sval::Result {
        for e in &self.evs[..self.from] {
            send(e, stream)?;
        }
        match self.how {
            Child::Value => stream.value(&self.inner)?,
            Child::Computed => stream.value_computed(&self.inner)?,
            Child::Inline => self.inner.stream(stream)?,
        }
        // a stream may keep the failure for its own final result
        for e in &self.evs[self.to..] {
            send(e, stream)?;
        }
        Ok(())
    }
}

/// The end of the value that begins at `at`.
pub fn value_end(evs: &[Ev], at: usize) -> Option<usize> {
    let mut depth = 0i32;
    if at >= evs.len() {
        return None;
    }
    for (i, e) in evs[at..].iter().enumerate() {
        match e {
            Ev::TextBegin(_) | Ev::BinBegin(_) | Ev::MapBegin(_) | Ev::SeqBegin(_) | Ev::EnumBegin(_) | Ev::TaggedBegin(_) | Ev::RecordBegin(..) | Ev::TupleBegin(..) | Ev::RecordTupleBegin(..) => depth += 1,
            Ev::TextEnd | Ev::BinEnd | Ev::MapEnd | Ev::SeqEnd | Ev::EnumEnd(_) | Ev::TaggedEnd(_) | Ev::RecordEnd(_) | Ev::TupleEnd(_) | Ev::RecordTupleEnd(_) => depth -= 1,
            _ => (),
        }
        if depth < 0 {
            return None;
        }
        let starts = matches!(e, Ev::MapKeyBegin | Ev::MapKeyEnd | Ev::MapValueBegin | Ev::MapValueEnd | Ev::SeqValueBegin | Ev::SeqValueEnd | Ev::RecordValueBegin(..) | Ev::RecordValueEnd(..) | Ev::TupleValueBegin(..) | Ev::TupleValueEnd(..) | Ev::RecordTupleValueBegin(..) | Ev::RecordTupleValueEnd(..) | Ev::Text(..) | Ev::Bin(..));
        if i == 0 && starts {
            return None;
        }
        if depth == 0 && !matches!(e, Ev::TagHint(_)) {
            return Some(at + i + 1);
        }
    }
    None
}

fn faulty(c: &mut Ctx, evs: Vec<Ev>) -> Option<Faulty> {
    let starts: Vec<(usize, usize)> = (0..evs.len()).filter_map(|i| value_end(&evs, i).map(|e| (i, e))).collect();
    if starts.is_empty() {
        return None;
    }
    let (a, b) = *c.of(&starts);
    let k = a + c.pick(b - a + 1);
    let how = *c.of(&[Child::Value, Child::Computed, Child::Inline]);
    Some(Faulty { inner: Broken(evs[a..k].to_vec()), from: a, to: b, evs, how })
}

/// Consumers that report failures (the others are documented to panic or to show them in the text).
const REPORTING: [usize; 21] = [0, 1, 2, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23];

fn check_faulty(c: &mut Ctx, f: Faulty) -> Res {
    let show = |f: &Faulty| format!("{:?} | part {:?} ({:?})", &f.evs[..f.from], f.inner.0, f.how);
    c.describe(|| show(&f));
    for i in REPORTING {
        let got = match no_panic(|| consumers::result(i, &f)) {
            Ok(g) => g,
            Err(p) => fail!("{} panicked on a value that fails by itself: {} ({})", consumers::NAMES[i], p, show(&f)),
        };
        if got != "error" {
            fail!("{} gives {} for a value that fails by itself: {}", consumers::NAMES[i], got, show(&f));
        }
    }
    if sval_fmt::stream_to_write(String::new(), &f).is_ok() {
        fail!("formatted text succeeded for a value that fails by itself: {}", show(&f));
    }
    let mut out = Vec::new();
    // these have no result but that of the value
    if f.stream(&mut sval_buffer::ValueBuf::new()).is_ok() || sval::stream(&mut Full(&mut out), &f).is_ok() {
        fail!("streaming succeeded for a value that fails by itself: {}", show(&f));
    }
    c.step(f.evs.len() * REPORTING.len());
    c.outcome(&(f.from, f.inner.0.len(), f.how as u8));
    Ok(())
}

/// Text that fails to be displayed after some pieces.
struct Shy(Vec<&'static str>, bool);
impl fmt::Display for Shy {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for p in &self.0 {
            f.write_str(p)?;
        }
        if self.1 { Err(fmt::Error) } else { Ok(()) }
    }
}
impl fmt::Debug for Shy {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}

const DISPLAYS: [&str; 8] = ["Display", "&Display", "stream_display", "stream_display_fragments", "stream_number", "sval_fmt::stream_display", "sval_fmt::stream_debug", "format_args"];
fn display<'s>(how: usize, v: &'s Shy, s: &mut dyn sval_dynamic::Stream<'s>) -> sval::Result {
    match how {
        0 => sval::Display::new(v).stream_computed(s),
        1 => s.value(sval::Display::new_borrowed(v)),
        2 => sval::stream_display(s, v),
        3 => sval::stream_display_fragments(s, v),
        4 => sval::stream_number(s, v),
        5 => sval_fmt::stream_display(s, v),
        6 => sval_fmt::stream_debug(s, v),
        _ => s.value_computed(&sval::Display::new(format_args!("{}{}", v, v))),
    }
}
trait StreamComputed: Value {
    fn stream_computed(&self, s: &mut dyn sval_dynamic::Stream) -> sval::Result {
        s.value_computed(self)
    }
}
impl<V: Value> StreamComputed for V {}

/// A writer that fails its k-th write.
#[derive(Default)]
pub struct Writes {
    at: Cell<usize>,
    seen: Cell<usize>,
    after: Cell<usize>,
    failed: Cell<bool>,
}
impl Writes {
    pub fn failing(at: usize) -> Rc<Writes> {
        let w = Writes::default();
        w.at.set(at);
        Rc::new(w)
    }
    fn call(&self) -> Result<(), ()> {
        if self.failed.get() {
            self.after.set(self.after.get() + 1);
            return Err(());
        }
        let k = self.seen.get();
        self.seen.set(k + 1);
        if k == self.at.get() {
            self.failed.set(true);
            return Err(());
        }
        Ok(())
    }
}
pub struct Writer(pub Rc<Writes>);
impl fmt::Write for Writer {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        self.0.call().map_err(|_| fmt::Error)
    }
}
impl std::io::Write for Writer {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.0.call().map_err(|_| std::io::Error::new(std::io::ErrorKind::Other, "injected"))?;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Every token is one call; the default methods write plain text.
struct Tokens(Rc<Writes>);
impl fmt::Write for Tokens {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        self.0.call().map_err(|_| fmt::Error)
    }
}
impl sval_fmt::TokenWrite for Tokens {
    fn write_token<D: fmt::Display>(&mut self, _: &sval::Tag, _: D) -> fmt::Result {
        self.0.call().map_err(|_| fmt::Error)
    }
}

const WRITERS: [&str; 6] = ["JSON to fmt::Write", "JSON to io::Write", "text", "tokens", "serde_json", "raw JSON"];
fn write_to(how: usize, v: &Node, at: usize) -> (bool, usize, usize) {
    let w = Writes::failing(at);
    let ok = match how {
        0 => sval_json::stream_to_fmt_write(Writer(w.clone()), v).is_ok(),
        1 => sval_json::stream_to_io_write(Writer(w.clone()), v).is_ok(),
        2 => sval_fmt::stream_to_write(Writer(w.clone()), v).is_ok(),
        3 => sval_fmt::stream_to_token_write(Tokens(w.clone()), v).is_ok(),
        4 => serde_json::to_writer(Writer(w.clone()), &sval_serde::ToSerialize::new(v)).is_ok(),
        _ => match sval_json::stream_to_json_str(v) {
            Ok(j) => sval_json::stream_to_fmt_write(Writer(w.clone()), &vec![&*j, &*j]).is_ok(),
            Err(_) => return (false, 0, 0),
        },
    };
    (ok, w.seen.get(), w.after.get())
}

mod derived {
    use sval_derive::Value;
    #[derive(Value)]
    pub struct Unit;
    #[derive(Value)]
    pub struct New(pub i32);
    #[derive(Value)]
    pub struct Tuple<'a>(pub i32, pub &'a str);
    #[derive(Value)]
    pub struct Rec<'a, T> {
        pub a: T,
        #[sval(data_tag = "sval::tags::NUMBER", label = "x")]
        pub b: &'a str,
        #[sval(skip)]
        #[allow(dead_code)]
        pub c: i32,
        pub d: Vec<u8>,
    }
    #[derive(Value)]
    pub struct Flat<'a> {
        pub a: i32,
        #[sval(flatten)]
        pub b: Tuple<'a>,
        #[sval(flatten)]
        pub c: std::collections::BTreeMap<&'static str, Option<bool>>,
        pub d: i32,
    }
    #[derive(Value)]
    #[sval(unlabeled_fields)]
    pub struct FlatTuple {
        pub a: i32,
        #[sval(flatten)]
        pub b: Vec<i32>,
        pub c: i32,
    }
    #[derive(Value)]
    #[sval(unlabeled_fields, unindexed_fields)]
    pub struct Seq {
        pub a: i32,
        #[sval(flatten)]
        pub b: Vec<i32>,
        pub c: i32,
    }
    #[derive(Value)]
    #[sval(unindexed_fields)]
    pub struct Record {
        pub a: i32,
        #[sval(flatten)]
        pub b: Enum,
        pub c: i32,
    }
    #[derive(Value)]
    pub enum Enum {
        Unit,
        New(i32),
        Tuple(i32, String),
        Rec { a: i32, b: Option<i32> },
    }
    #[derive(Value)]
    #[sval(dynamic)]
    pub enum Dyn {
        Unit,
        New(i32),
        Tuple(i32, String),
        Rec { a: i32, b: Option<i32> },
    }
    #[derive(Value)]
    #[sval(transparent)]
    pub struct Through(pub Enum);

    pub fn all() -> Vec<Box<dyn sval_dynamic::Value>> {
        let e = |i| match i {
            0 => Enum::Unit,
            1 => Enum::New(1),
            2 => Enum::Tuple(1, "a".into()),
            _ => Enum::Rec { a: 1, b: Some(2) },
        };
        let mut v: Vec<Box<dyn sval_dynamic::Value>> = vec![
            Box::new(Unit),
            Box::new(New(1)),
            Box::new(Tuple(1, "a")),
            Box::new(Rec { a: Some(Tuple(1, "b")), b: "1", c: 0, d: vec![1, 2] }),
            Box::new(Flat { a: 1, b: Tuple(1, "b"), c: [("x", Some(true)), ("y", None)].into(), d: 2 }),
            Box::new(FlatTuple { a: 1, b: vec![1, 2], c: 3 }),
            Box::new(Seq { a: 1, b: vec![1, 2], c: 3 }),
            Box::new(Dyn::Unit),
            Box::new(Dyn::New(1)),
            Box::new(Dyn::Tuple(1, "a".into())),
            Box::new(Dyn::Rec { a: 1, b: Some(1) }),
        ];
        for i in 0..4 {
            v.push(Box::new(e(i)));
            v.push(Box::new(Through(e(i))));
            v.push(Box::new(Record { a: 1, b: e(i), c: 2 }));
        }
        v
    }
}

const BUFFERED: [&str; 7] = ["ValueBuf", "Value", "owned Value", "Value by reference", "buffer of a buffer", "TextBuf", "BinaryBuf"];
fn buffered(how: usize, n: &Node, w: usize, at: usize) -> Option<(bool, usize, usize)> {
    Some(match how {
        0 => {
            let b = sval_buffer::ValueBuf::collect(n).ok()?;
            into_stream(w, at, |s| s.value(&b))
        }
        1 => {
            let b = sval_buffer::Value::collect(n).ok()?;
            into_stream(w, at, |s| b.stream(s))
        }
        2 => {
            let b = sval_buffer::Value::collect_owned(n).ok()?;
            into_stream(w, at, |s| s.value(&b))
        }
        3 => {
            let b = sval_buffer::Value::collect(n).ok()?;
            into_stream(w, at, |s| sval_ref::stream_ref(s, &b))
        }
        4 => {
            let b = sval_buffer::ValueBuf::collect(n).ok()?;
            let b = sval_buffer::ValueBuf::collect(&b).ok()?;
            into_stream(w, at, |s| sval_ref::stream_ref(s, &b))
        }
        5 => {
            let b = sval_buffer::TextBuf::collect(n).ok()?;
            into_stream(w, at, |s| sval_ref::stream_ref(s, &b))
        }
        _ => {
            let b = sval_buffer::BinaryBuf::collect(n).ok()?;
            into_stream(w, at, |s| s.value(&b))
        }
    })
}

pub fn check(thorough: bool) -> Check {
    let b = if thorough { 4 } else { 3 };
    let mut g = Gen::basic();
    g.leaves = vec![Kind::I64(1), Kind::U128(u128::MAX), Kind::Text("a\"é".into(), vec![1]), Kind::Bin(vec![7, 200], vec![1])];
    let (g1, g2, g3, g5) = (g.clone(), g.clone(), g.clone(), g.clone());
    let mut g4 = super::c17::static_gen();
    g4.leaves = g.leaves.clone();
    let mut small = g.clone();
    small.leaves.truncate(3);
    small.tag_metas.truncate(2);
    small.tagged_metas.truncate(2);
    small.enum_metas.truncate(1);
    small.rec_metas.truncate(1);
    let s2 = small.clone();
    let s3 = if thorough { small.clone() } else { g.clone() };
    let sb = if thorough { 3 } else { 2 };
    Check {
        suites: vec![
            suite("types", format!("{} built-in types, all enumerated instances, {} kinds of receivers, 3 ways of streaming, every failing call", NAMES.len(), MASKS.len()), |c| {
                let i = c.pick(NAMES.len());
                visit(&mut Types, i, c)
            }),
            suite("trees", format!("every value tree of at most {} nodes in 4 styles, {} kinds of receivers, every failing call", b, MASKS.len()), move |c| {
                let n = g.node(c, b).styled(*c.of(&Style::SHORT));
                let w = c.pick(MASKS.len());
                each_call(c, || format!("{:?} (receiver {})", n.evs(), w), |at| match MASKS[w] {
                    u32::MAX => {
                        let mut s = Full(FailAt::new(at));
                        (n.stream(&mut s).is_ok(), s.0.seen, s.0.after)
                    }
                    mask => {
                        let mut s = Part { sink: FailAt::new(at), mask };
                        (n.stream(&mut s).is_ok(), s.sink.seen, s.sink.after)
                    }
                })
            }),
            suite("wrappers", format!("value trees of at most {} nodes, all {} value and {} stream wrappers", sb, VALUES.len(), STREAMS.len()), move |c| {
                let n = s2.node(c, if c.thorough { 3 } else { 2 }).styled(*c.of(&Style::SHORT));
                let vw = c.pick(VALUES.len());
                let sw = c.pick(STREAMS.len());
                each_call(c, || format!("{:?} as {} through {}", n.evs(), VALUES[vw], STREAMS[sw]), |at| {
                    let mut f = FailAt::new(at);
                    let r = wrapped(vw, &n, &mut |e| e.run(sw, None, &mut f));
                    (r.is_ok(), f.seen, f.after)
                })
            }),
            suite("buffers", format!("value trees of at most {} nodes, {} ways of buffering and replaying them", b, BUFFERED.len()), move |c| {
                let n = g1.node(c, b).styled(*c.of(&Style::SHORT));
                let how = c.pick(BUFFERED.len());
                let w = c.pick(if c.thorough { 3 } else { 2 });
                if buffered(how, &n, w, usize::MAX).is_none() {
                    return Ok(());
                }
                each_call(c, || format!("{:?} replayed from a {} (receiver {})", n.evs(), BUFFERED[how], w), |at| buffered(how, &n, w, at).unwrap())
            }),
            suite("flatten", format!("value trees of at most {} nodes flattened into 5 containers", b), move |c| {
                let n = g2.node(c, b).styled(*c.of(&Style::SHORT));
                let to = *c.of(&TOS);
                let w = c.pick(2);
                each_call(c, || format!("{:?} flattened to {:?} (receiver {})", n.evs(), to, w), |at| {
                    let v = Around { to, start: 0, inner: vec![&n] };
                    into_stream(w, at, |s| s.value(&v))
                })
            }),
            suite("nested", format!("value trees of at most {} nodes into nested streams, every failing call", b), move |c| {
                let n = g3.node(c, b).styled(*c.of(&Style::SHORT));
                let mode = *c.of(&MODES);
                let computed = c.flag();
                each_call(c, || format!("{:?} nested {:?} computed={}", n.evs(), mode, computed), |at| {
                    let ctl = Ctl::failing(at);
                    let rec = NRec { mode, ctl: ctl.clone() };
                    let r = if computed { sval_nested::Stream::value_computed(rec, &n) } else { sval_nested::Stream::value_ref(rec, &n) };
                    (r.is_ok(), ctl.seen.get(), ctl.after.get())
                })
            }),
            suite("serde", format!("value trees of at most {} nodes into a serializer, every failing call", b), move |c| {
                let n = g4.node(c, b).styled(*c.of(&Style::SHORT));
                let how = c.pick(2);
                each_call(c, || format!("{:?} serialized ({})", n.evs(), how), |at| {
                    let ctl = SCtl::failing(at);
                    let r = match how {
                        0 => sval_serde::ToSerialize::new(&n).serialize(SRec(ctl.clone())),
                        _ => sval_serde::serialize(SRec(ctl.clone()), &n),
                    };
                    (r.is_ok(), ctl.seen.get(), ctl.after.get())
                })
            }),
            suite("serde-values", format!("serde values of at most {} nodes streamed, every failing call", b), {
                let sg = SGen::basic();
                move |c| {
                    let n = sg.node(c, b);
                    let how = c.pick(3);
                    let w = c.pick(3);
                    each_call(c, || format!("{:?} streamed ({}, receiver {})", n, how, w), |at| match how {
                        0 => {
                            let v = sval_serde::ToValue::new(&n);
                            into_stream(w, at, |s| s.value(&v))
                        }
                        1 => into_stream(w, at, |s| sval_serde::stream(s, &n)),
                        _ => {
                            let v = sval_serde::ToValue::new(&n);
                            into_stream(w, at, |s| s.value_computed(&v))
                        }
                    })
                }
            }),
            suite("writers", format!("value trees of at most {} nodes written through {} text writers, every failing write", b, WRITERS.len()), move |c| {
                let n = g5.node(c, b).styled(*c.of(&Style::SHORT[..2]));
                let how = c.pick(WRITERS.len());
                each_call(c, || format!("{:?} as {}", n.evs(), WRITERS[how]), |at| write_to(how, &n, at))
            }),
            suite("derived", "23 derived values (all shapes, flattened, dynamic, transparent), 8 receivers, every failing call", |c| {
                let all = derived::all();
                let i = c.pick(all.len());
                let w = c.pick(MASKS.len());
                each_call(c, || format!("derived value {} (receiver {})", i, w), |at| into_stream(w, at, |s| s.value(&all[i])))
            }),
            suite("displays", format!("text displayed in at most 3 pieces through {} adapters, failing by itself or at every call", DISPLAYS.len()), |c| {
                let n = c.pick(4);
                let v: Vec<&'static str> = (0..n).map(|_| *c.of(&["", "a", "1é"])).collect();
                let how = c.pick(DISPLAYS.len());
                let w = c.pick(2);
                if c.flag() {
                    let v = Shy(v, true);
                    let (ok, ..) = into_stream(w, usize::MAX, |s| display(how, &v, s));
                    if ok {
                        fail!("{} succeeded although {:?} failed to be displayed", DISPLAYS[how], v.0);
                    }
                    return Ok(());
                }
                each_call(c, || format!("{} of {:?}", DISPLAYS[how], v), |at| into_stream(w, at, |s| {
                    let v: &'static Shy = crate::mem::quietly(|| Box::leak(Box::new(Shy(v.clone(), false))));
                    display(how, v, s)
                }))
            }),
            suite("failing-values", format!("value trees of at most {} nodes of which any part fails by itself after any number of events, streamed inline, as a value or short-lived, {} consumers", b, REPORTING.len() + 3), move |c| {
                let n = s3.node(c, b);
                match faulty(c, n.evs()) {
                    Some(f) => check_faulty(c, f),
                    None => Ok(()),
                }
            }),
            suite("names", metas::bounds(), move |c| {
                let n = match metas::pick(c) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let way = c.pick(3);
                each_call(c, || format!("{:?} way {}", n.evs(), way), |at| match way {
                    0 => {
                        let mut s = Part { sink: FailAt::new(at), mask: 0 };
                        (n.stream(&mut s).is_ok(), s.sink.seen, s.sink.after)
                    }
                    1 => buffered(0, &n, 0, at).unwrap_or((at > 0, 0, 0)),
                    _ => {
                        let v = Around { to: TOS[0], start: 0, inner: vec![&n] };
                        into_stream(0, at, |s| s.value(&v))
                    }
                })
            }),
            suite("sizes", sizes::bounds(thorough, if thorough { 300 } else { 70 }, 3), move |c| {
                let n = sizes::pick_in(c, if c.thorough { 300 } else { 70 }, 3);
                let way = c.pick(3);
                each_call(c, || format!("{:?} way {}", n.evs(), way), |at| match way {
                    0 => {
                        let mut s = Part { sink: FailAt::new(at), mask: 0 };
                        (n.stream(&mut s).is_ok(), s.sink.seen, s.sink.after)
                    }
                    1 => buffered(0, &n, 0, at).unwrap_or((at > 0, 0, 0)),
                    _ => {
                        let v = Around { to: TOS[0], start: 0, inner: vec![&n] };
                        into_stream(0, at, |s| s.value(&v))
                    }
                })
            }),
        ],
        assumptions: vec!["Display implementations pass on the errors of the writer they are given"],
    }
}
