//! C23: the token test utilities report exactly the streamed events.
use super::Check;
use crate::engine::*;
use crate::metas;
use crate::sizes;
use crate::ev::*;
use crate::model::*;
use crate::types::*;
use sval::Value;
use sval_test::{Token, TokenBuf};

/// The event a token stands for.
fn ev(t: &Token) -> Ev {
    let me = |t: &Option<sval::Tag>, l: &Option<sval::Label<'static>>, i: &Option<sval::Index>| M::of(t.as_ref(), l.as_ref(), i.as_ref());
    let o = |t: &Option<sval::Tag>| oid(t.as_ref());
    let number = |r: &dyn Fn(&mut Full<Vec<Ev>>) -> sval::Result| {
        let mut f = Full(Vec::new());
        r(&mut f).unwrap();
        f.0.pop().unwrap()
    };
    use sval::Stream;
    match t {
        Token::U8(v) => number(&|s| s.u8(*v)),
        Token::U16(v) => number(&|s| s.u16(*v)),
        Token::U32(v) => number(&|s| s.u32(*v)),
        Token::U64(v) => number(&|s| s.u64(*v)),
        Token::U128(v) => number(&|s| s.u128(*v)),
        Token::I8(v) => number(&|s| s.i8(*v)),
        Token::I16(v) => number(&|s| s.i16(*v)),
        Token::I32(v) => number(&|s| s.i32(*v)),
        Token::I64(v) => number(&|s| s.i64(*v)),
        Token::I128(v) => number(&|s| s.i128(*v)),
        Token::F32(v) => number(&|s| s.f32(*v)),
        Token::F64(v) => number(&|s| s.f64(*v)),
        Token::Bool(v) => Ev::Bool(*v),
        Token::Null => Ev::Null,
        Token::Tag(t, l, i) => Ev::Tag(me(t, l, i)),
        Token::TagHint(t) => Ev::TagHint(tag_id(t)),
        Token::TextBegin(n) => Ev::TextBegin(*n),
        Token::TextFragment(s) => Ev::Text((*s).into(), true),
        Token::TextFragmentComputed(s) => Ev::Text(s.clone(), false),
        Token::TextEnd => Ev::TextEnd,
        Token::BinaryBegin(n) => Ev::BinBegin(*n),
        Token::BinaryFragment(s) => Ev::Bin((*s).into(), true),
        Token::BinaryFragmentComputed(s) => Ev::Bin(s.clone(), false),
        Token::BinaryEnd => Ev::BinEnd,
        Token::MapBegin(n) => Ev::MapBegin(*n),
        Token::MapKeyBegin => Ev::MapKeyBegin,
        Token::MapKeyEnd => Ev::MapKeyEnd,
        Token::MapValueBegin => Ev::MapValueBegin,
        Token::MapValueEnd => Ev::MapValueEnd,
        Token::MapEnd => Ev::MapEnd,
        Token::SeqBegin(n) => Ev::SeqBegin(*n),
        Token::SeqValueBegin => Ev::SeqValueBegin,
        Token::SeqValueEnd => Ev::SeqValueEnd,
        Token::SeqEnd => Ev::SeqEnd,
        Token::EnumBegin(t, l, i) => Ev::EnumBegin(me(t, l, i)),
        Token::EnumEnd(t, l, i) => Ev::EnumEnd(me(t, l, i)),
        Token::TaggedBegin(t, l, i) => Ev::TaggedBegin(me(t, l, i)),
        Token::TaggedEnd(t, l, i) => Ev::TaggedEnd(me(t, l, i)),
        Token::RecordBegin(t, l, i, n) => Ev::RecordBegin(me(t, l, i), *n),
        Token::RecordValueBegin(t, l) => Ev::RecordValueBegin(o(t), L::of(l)),
        Token::RecordValueEnd(t, l) => Ev::RecordValueEnd(o(t), L::of(l)),
        Token::RecordEnd(t, l, i) => Ev::RecordEnd(me(t, l, i)),
        Token::TupleBegin(t, l, i, n) => Ev::TupleBegin(me(t, l, i), *n),
        Token::TupleValueBegin(t, i) => Ev::TupleValueBegin(o(t), I::of(i)),
        Token::TupleValueEnd(t, i) => Ev::TupleValueEnd(o(t), I::of(i)),
        Token::TupleEnd(t, l, i) => Ev::TupleEnd(me(t, l, i)),
        Token::RecordTupleBegin(t, l, i, n) => Ev::RecordTupleBegin(me(t, l, i), *n),
        Token::RecordTupleValueBegin(t, l, i) => Ev::RecordTupleValueBegin(o(t), L::of(l), I::of(i)),
        Token::RecordTupleValueEnd(t, l, i) => Ev::RecordTupleValueEnd(o(t), L::of(l), I::of(i)),
        Token::RecordTupleEnd(t, l, i) => Ev::RecordTupleEnd(me(t, l, i)),
        t => panic!("unknown token {:?}", t),
    }
}

/// What equality of tokens looks at: labels and indexes without their own tags.
fn shown(evs: &[Ev]) -> Vec<Ev> {
    let l = |l: &mut L| l.tag = 0;
    let i = |i: &mut I| i.tag = 0;
    let m = |m: &mut M| {
        m.label.as_mut().map(l);
        m.index.as_mut().map(i);
    };
    let mut v = raw(evs);
    for e in &mut v {
        match e {
            Ev::Tag(x) | Ev::EnumBegin(x) | Ev::EnumEnd(x) | Ev::TaggedBegin(x) | Ev::TaggedEnd(x) | Ev::RecordBegin(x, _) | Ev::RecordEnd(x) | Ev::TupleBegin(x, _) | Ev::TupleEnd(x) | Ev::RecordTupleBegin(x, _) | Ev::RecordTupleEnd(x) => m(x),
            Ev::RecordValueBegin(_, x) | Ev::RecordValueEnd(_, x) => l(x),
            Ev::TupleValueBegin(_, x) | Ev::TupleValueEnd(_, x) => i(x),
            Ev::RecordTupleValueBegin(_, x, y) | Ev::RecordTupleValueEnd(_, x, y) => {
                l(x);
                i(y);
            }
            _ => (),
        }
    }
    v
}
fn raw(evs: &[Ev]) -> Vec<Ev> {
    let mut v = evs.to_vec();
    for e in &mut v {
        match e {
            Ev::Tag(x) | Ev::EnumBegin(x) | Ev::EnumEnd(x) | Ev::TaggedBegin(x) | Ev::TaggedEnd(x) | Ev::RecordBegin(x, _) | Ev::RecordEnd(x) | Ev::TupleBegin(x, _) | Ev::TupleEnd(x) | Ev::RecordTupleBegin(x, _) | Ev::RecordTupleEnd(x) => {
                x.label.as_mut().map(|l| l.is_static = true);
            }
            Ev::RecordValueBegin(_, x) | Ev::RecordValueEnd(_, x) | Ev::RecordTupleValueBegin(_, x, _) | Ev::RecordTupleValueEnd(_, x, _) => x.is_static = true,
            _ => (),
        }
    }
    v
}

fn tokens<'a, V: Value + ?Sized>(v: &'a V) -> (TokenBuf<'a>, bool) {
    let mut b = TokenBuf::new();
    let ok = v.stream(&mut b).is_ok();
    (b, ok)
}

fn check_value<V: Value + ?Sized>(c: &mut Ctx, name: &str, v: &V) -> Res {
    let (evs, r) = record(v);
    let (b, ok) = tokens(v);
    let got: Vec<Ev> = b.as_tokens().iter().map(ev).collect();
    c.step(evs.len());
    c.outcome(&evs);
    c.describe(|| format!("{}: {:?}", name, got));
    ensure!(ok == r.is_ok(), "{}: collecting tokens of {:?} gives {}", name, evs, ok);
    ensure!(raw(&got) == raw(&evs), "{}: the tokens are {:?} but the value streams {:?}", name, b.as_tokens(), evs);
    // NaN is never equal to itself
    let nan = b.as_tokens().iter().any(|t| matches!(t, Token::F64(f) if f.is_nan()) || matches!(t, Token::F32(f) if f.is_nan()));
    let same = no_panic(|| sval_test::assert_tokens(v, b.as_tokens()));
    ensure!(same.is_ok() != nan, "{}: asserting its own tokens {:?} gives {:?}", name, b.as_tokens(), same);
    Ok(())
}

struct Types;
impl Visit for Types {
    type Out = Res;
    fn visit<T: Model>(&mut self, name: &'static str, c: &mut Ctx) -> Res {
        let v = T::dom(c);
        check_value(c, name, &v)
    }
}

/// Fails after its events.
struct Fails(Script);
impl Value for Fails {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, stream: &mut S) -> sval::Result {
        self.0.stream(stream)?;
        sval::error()
    }
}

fn check_pair(c: &mut Ctx, a: Vec<Ev>, b: Vec<Ev>) -> Res {
    let nan = |v: &[Ev]| v.iter().any(|e| format!("{:?}", e).contains("NaN") || matches!(e, Ev::F64(x) if f64::from_bits(*x).is_nan()) || matches!(e, Ev::F32(x) if f32::from_bits(*x).is_nan()));
    if nan(&a) || nan(&b) {
        return Ok(());
    }
    let equal = zeros(shown(&a)) == zeros(shown(&b));
    c.step(a.len() + b.len());
    c.outcome(&(a.len(), b.len(), equal));
    let (va, vb) = (Script(a), Script(b));
    let (ta, _) = tokens(&va);
    let got = no_panic(|| sval_test::assert_tokens(&vb, ta.as_tokens()));
    c.describe(|| format!("{:?} against {:?}: {:?}", va.0, vb.0, got));
    ensure!(got.is_ok() == equal, "asserting that {:?} streams the tokens of {:?} {}", vb.0, va.0, if equal { "fails" } else { "succeeds" });
    Ok(())
}
/// Zeros of either sign are equal numbers.
fn zeros(mut v: Vec<Ev>) -> Vec<Ev> {
    for e in &mut v {
        match e {
            Ev::F64(x) if f64::from_bits(*x) == 0.0 => *x = 0,
            Ev::F32(x) if f32::from_bits(*x) == 0.0 => *x = 0,
            _ => (),
        }
    }
    v
}

pub fn check(thorough: bool) -> Check {
    let g = Gen::basic();
    let b = if thorough { 4 } else { 3 };
    let mut small = Gen::basic();
    small.leaves = vec![Kind::Null, Kind::I64(1), Kind::U8(1), Kind::Text("a".into(), vec![])];
    small.tag_metas.truncate(2);
    small.tagged_metas.truncate(2);
    small.enum_metas.truncate(2);
    small.rec_metas.truncate(2);
    let (g2, s2) = (g.clone(), small.clone());
    let cat = event_catalogue();
    let n = cat.len();
    let (cat2, cat3) = (cat.clone(), cat.clone());
    Check {
        suites: vec![
            suite("types", format!("{} built-in types, all enumerated instances", NAMES.len()), |c| {
                let i = c.pick(NAMES.len());
                visit(&mut Types, i, c)
            }),
            suite("trees", format!("every value tree of at most {} nodes in 12 styles", b), move |c| {
                let n = g.node(c, b).styled(*c.of(&Style::ALL));
                check_value(c, "value", &n)
            }),
            suite("events", format!("each of {} events by itself and before another", n), move |c| {
                let mut v = vec![cat[c.pick(cat.len())].clone()];
                if c.flag() {
                    v.push(cat[c.pick(cat.len())].clone());
                }
                check_value(c, "events", &Script(v))
            }),
            suite("pairs", format!("each of {} events asserted against each other", n), move |c| {
                let a = vec![cat2[c.pick(cat2.len())].clone()];
                let b = vec![cat2[c.pick(cat2.len())].clone()];
                check_pair(c, a, b)
            }),
            suite("prefixes", "events and one event less, asserted against each other both ways", move |c| {
                let a = cat3[c.pick(cat3.len())].clone();
                let (one, two) = (vec![a.clone()], vec![a.clone(), a]);
                match c.pick(4) {
                    0 => check_pair(c, one, two),
                    1 => check_pair(c, two, one),
                    2 => check_pair(c, one, vec![]),
                    _ => check_pair(c, vec![], one),
                }
            }),
            suite("tree-pairs", "all pairs of value trees of at most 2 nodes asserted against each other", move |c| {
                let a = s2.node(c, 2).evs();
                let b = s2.node(c, 2).evs();
                check_pair(c, a, b)
            }),
            suite("validity", format!("value trees of at most {} nodes, complete or failing after any number of events, asserted valid and invalid; the replayed tokens in the report", b - 1), move |c| {
                let n = g2.node(c, b - 1).styled(*c.of(&Style::SHORT));
                let evs = n.evs();
                let text = sval_fmt::stream_to_string(Script(evs.clone()));
                let k = c.pick(evs.len() + 2);
                let whole = k == evs.len() + 1;
                c.step(evs.len());
                c.outcome(&(k, &evs));
                c.describe(|| format!("{:?} failing at {}", evs, k));
                let (valid, invalid) = if whole {
                    (no_panic(|| sval_test::assert_valid(Script(evs.clone()))), no_panic(|| sval_test::assert_invalid(Script(evs.clone()))))
                } else {
                    let f = || Fails(Script(evs[..k].to_vec()));
                    (no_panic(|| sval_test::assert_valid(f())), no_panic(|| sval_test::assert_invalid(f())))
                };
                ensure!(valid.is_ok() == whole, "assert_valid gives {:?} for {:?}, failing at {}", valid, evs, k);
                ensure!(invalid.is_err() == whole, "assert_invalid gives {:?} for {:?}, failing at {}", invalid, evs, k);
                if let Err(m) = invalid {
                    ensure!(m.contains(&text), "a valid value that shows as {} is reported as {}", text, m);
                }
                Ok(())
            }),
            suite("names", metas::bounds(), move |c| {
                let n = match metas::pick(c) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let n = n.styled(*c.of(&Style::SHORT));
                check_value(c, "sized", &n)
            }),
            suite("sizes", sizes::bounds(thorough, if thorough { 1100 } else { 260 }, 3), move |c| {
                let n = sizes::pick_in(c, if c.thorough { 1100 } else { 260 }, 3);
                let n = n.styled(*c.of(&Style::SHORT));
                check_value(c, "sized", &n)
            }),
        ],
        assumptions: vec!["labels and indexes are equal when their text or number is, as their Eq says"],
    }
}
