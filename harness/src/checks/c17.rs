//! C17: bridging to and from serde preserves data.
use super::c07::norm;
use super::Check;
use crate::engine::*;
use crate::metas;
use crate::sizes;
use crate::ev::*;
use crate::model::*;
use crate::serdes::*;
use crate::jsonref;
use serde::Serialize;

/// What a value must look like to a serializer. `Err`: serde has no such shape, it must be refused.
pub fn bridged(n: &Node) -> Result<SN, ()> {
    let st = |l: &L| if l.is_static { Ok(intern(&l.text)) } else { Err(()) };
    let label = |m: &M| m.label.as_ref().ok_or(()).and_then(st);
    let index = |m: &M| m.index.as_ref().and_then(|i| u32::try_from(i.val).ok()).ok_or(());
    let sized = || if n.st.sizes { Ok(()) } else { Err(()) };
    let size = |k: usize| n.st.sizes.then_some(k);
    Ok(match &n.k {
        Kind::Hole => return Err(()),
        Kind::Null => SN::None,
        Kind::Bool(v) => SN::Bool(*v),
        Kind::U8(v) => SN::U8(*v),
        Kind::U16(v) => SN::U16(*v),
        Kind::U32(v) => SN::U32(*v),
        Kind::U64(v) => SN::U64(*v),
        Kind::U128(v) => SN::U128(*v),
        Kind::I8(v) => SN::I8(*v),
        Kind::I16(v) => SN::I16(*v),
        Kind::I32(v) => SN::I32(*v),
        Kind::I64(v) => SN::I64(*v),
        Kind::I128(v) => SN::I128(*v),
        Kind::F32(v) => SN::F32(*v),
        Kind::F64(v) => SN::F64(*v),
        Kind::Text(s, _) => SN::Str(s.clone()),
        Kind::Bin(b, _) => SN::Bytes(b.clone()),
        Kind::Seq(v) => SN::Seq(size(v.len()), all(v.iter())?),
        Kind::Map(v) => SN::Map(size(v.len()), v.iter().map(|(k, x)| Ok((bridged(k)?, bridged(x)?))).collect::<Result<_, ()>>()?),
        Kind::Tag(m) => match m.tag {
            T_NONE => SN::None,
            T_UNIT => SN::Unit,
            _ => SN::UnitStruct(label(m)?),
        },
        Kind::Tagged(m, x) => match m.tag {
            T_SOME => SN::Some(Box::new(bridged(x)?)),
            _ => SN::Newtype(label(m)?, Box::new(bridged(x)?)),
        },
        Kind::Record(m, v) => record(m, v.iter().map(|f| (&f.1, &f.2)).collect(), sized())?,
        Kind::RecordTuple(m, v) => record(m, v.iter().map(|f| (&f.1, &f.3)).collect(), sized())?,
        Kind::Tuple(m, v) => {
            sized()?;
            let v = all(v.iter().map(|f| &f.2))?;
            if m.label.is_some() { SN::TupleStruct(label(m)?, v) } else { SN::Tuple(v) }
        }
        Kind::Enum(e, x) => {
            let name = label(e)?;
            let sized = || if x.st.sizes { Ok(()) } else { Err(()) };
            match &x.k {
                Kind::Hole => SN::UnitStruct(name),
                Kind::Tag(m) => SN::UnitVariant(name, index(m)?, label(m)?),
                Kind::Tagged(m, x) => SN::NewtypeVariant(name, index(m)?, label(m)?, Box::new(bridged(x)?)),
                Kind::Tuple(m, v) => {
                    sized()?;
                    SN::TupleVariant(name, index(m)?, label(m)?, all(v.iter().map(|f| &f.2))?)
                }
                Kind::Record(m, v) => {
                    sized()?;
                    SN::StructVariant(name, index(m)?, label(m)?, v.iter().map(|f| Ok((st(&f.1)?, bridged(&f.2)?))).collect::<Result<_, ()>>()?)
                }
                Kind::RecordTuple(m, v) => {
                    sized()?;
                    SN::StructVariant(name, index(m)?, label(m)?, v.iter().map(|f| Ok((st(&f.1)?, bridged(&f.3)?))).collect::<Result<_, ()>>()?)
                }
                _ => return Err(()),
            }
        }
    })
}
fn all<'a>(v: impl Iterator<Item = &'a Node>) -> Result<Vec<SN>, ()> {
    v.map(bridged).collect()
}
fn record(m: &M, v: Vec<(&L, &Node)>, sized: Result<(), ()>) -> Result<SN, ()> {
    sized?;
    let st = |l: &L| if l.is_static { Ok(intern(&l.text)) } else { Err(()) };
    Ok(match &m.label {
        Some(l) => SN::Struct(st(l)?, v.iter().map(|(l, x)| Ok((st(l)?, bridged(x)?))).collect::<Result<_, ()>>()?),
        // serde's structs have a name
        None => SN::Map(Some(v.len()), v.iter().map(|(l, x)| Ok((SN::Str(l.text.clone()), bridged(x)?))).collect::<Result<_, ()>>()?),
    })
}

/// Events as data: without hints, hint tags of labels and indexes, and fragment boundaries.
fn data(evs: &[Ev]) -> Vec<Ev> {
    let mut v = norm(&canon(evs, Canon { hints: false, borrow: false, label_static: true, sizes: true }));
    for e in &mut v {
        match e {
            Ev::EnumBegin(m) | Ev::EnumEnd(m) | Ev::TaggedBegin(m) | Ev::TaggedEnd(m) | Ev::Tag(m) | Ev::RecordBegin(m, _) | Ev::RecordEnd(m) | Ev::TupleBegin(m, _) | Ev::TupleEnd(m) => {
                m.label.iter_mut().for_each(|l| l.tag = 0);
                m.index.iter_mut().for_each(|i| i.tag = 0);
            }
            Ev::RecordValueBegin(_, l) | Ev::RecordValueEnd(_, l) => l.tag = 0,
            Ev::TupleValueBegin(_, i) | Ev::TupleValueEnd(_, i) => i.tag = 0,
            _ => (),
        }
    }
    v
}

fn streamed(s: &SN) -> Vec<Ev> {
    let mut o = vec![];
    events(s, &mut o);
    data(&o)
}

fn check_node(c: &mut Ctx, n: &Node) -> Res {
    let evs = n.evs();
    c.step(evs.len() * 4);
    let want = bridged(n);
    let ways: [(&str, Result<SN, SErr>); 4] = [
        ("ToSerialize", sval_serde::ToSerialize::new(n).serialize(SRec::new())),
        ("ToSerialize borrowed", sval_serde::ToSerialize::new_borrowed(n).serialize(SRec::new())),
        ("serialize", sval_serde::serialize(SRec::new(), n)),
        ("both bridges", sval_serde::ToSerialize::new(sval_serde::ToValue::new(sval_serde::ToSerialize::new(n))).serialize(SRec::new())),
    ];
    for (how, got) in ways {
        match (&want, got) {
            (Ok(w), Ok(g)) => {
                ensure!(*w == g, "{} gave {:?} instead of {:?} for {:?}", how, g, w, evs);
                c.outcome(&format!("{:?}", g));
            }
            (Err(()), Err(_)) => c.outcome(&0u8),
            (Ok(w), Err(e)) => fail!("{} was refused ({}) instead of giving {:?} for {:?}", how, e, w, evs),
            (Err(()), Ok(g)) => fail!("{} gave {:?} although serde has no such shape: {:?}", how, g, evs),
        }
    }
    let (got, r) = record_of(&sval_serde::ToValue::new(sval_serde::ToSerialize::new(n)));
    match &want {
        Ok(w) => {
            ensure!(r.is_ok(), "streaming through both bridges failed for {:?}", evs);
            ensure!(data(&got) == streamed(w), "streaming through both bridges gave {:?} instead of {:?} for {:?}", data(&got), streamed(w), evs);
        }
        Err(()) => ensure!(r.is_err(), "streaming through both bridges succeeded although serde has no such shape: {:?}", evs),
    }
    c.describe(|| format!("{:?} => {:?}", evs, want));
    Ok(())
}

fn record_of(v: &impl sval::Value) -> (Vec<Ev>, sval::Result) {
    crate::ev::record(v)
}

fn unit_struct(s: &SN) -> bool {
    match s {
        SN::UnitStruct(_) => true,
        SN::Some(x) | SN::Newtype(_, x) | SN::NewtypeVariant(_, _, _, x) => unit_struct(x),
        SN::Seq(_, v) | SN::Tuple(v) | SN::TupleStruct(_, v) | SN::TupleVariant(_, _, _, v) => v.iter().any(unit_struct),
        SN::Map(_, v) => v.iter().any(|(a, b)| unit_struct(a) || unit_struct(b)),
        SN::Struct(_, v) | SN::StructVariant(_, _, _, v) => v.iter().any(|x| unit_struct(&x.1)),
        _ => false,
    }
}

fn same_json(a: &jsonref::J, b: &jsonref::J) -> bool {
    use jsonref::J;
    let num = |a: &str, b: &str| a == b || (a.contains(['.', 'e', 'E']) && b.contains(['.', 'e', 'E']) && (a.parse::<f64>().ok().map(f64::to_bits) == b.parse::<f64>().ok().map(f64::to_bits)));
    match (a, b) {
        (J::Num(a), J::Num(b)) => num(a, b),
        (J::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_json(a, b)),
        (J::Obj(a), J::Obj(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| (a.0 == b.0 || num(&a.0, &b.0)) && same_json(&a.1, &b.1)),
        _ => a == b,
    }
}

fn check_serde(c: &mut Ctx, s: &SN) -> Res {
    let want = streamed(s);
    c.step(want.len() * 5);
    let mut sink = Full(Vec::new());
    let r = sval_serde::stream(&mut sink, s);
    let ways = [
        ("ToValue", record_of(&sval_serde::ToValue::new(s))),
        ("ToValue borrowed", record_of(sval_serde::ToValue::new_borrowed(s))),
        ("stream", (sink.0, r)),
    ];
    for (how, (got, r)) in ways {
        ensure!(r.is_ok(), "{} failed for {:?}", how, s);
        if let Err(e) = well_formed(&got) {
            fail!("{} gave ill-formed events ({}): {:?} for {:?}", how, e, got, s);
        }
        ensure!(data(&got) == want, "{} gave {:?} instead of {:?} for {:?}", how, data(&got), want, s);
        c.outcome(&format!("{:?}", want));
    }
    match sval_serde::ToSerialize::new(sval_serde::ToValue::new(s)).serialize(SRec::new()) {
        Ok(g) => ensure!(g == *s, "through both bridges {:?} became {:?}", s, g),
        Err(e) => fail!("through both bridges {:?} failed: {}", s, e),
    }
    if !unit_struct(s) {
        if let Ok(theirs) = serde_json::to_string(s) {
            let ours = match sval_json::stream_to_string(sval_serde::ToValue::new(s)) {
                Ok(o) => o,
                Err(_) => fail!("{:?} is {} in JSON but was refused", s, theirs),
            };
            let theirs_j = jsonref::parse(&theirs).map_err(|e| Fail::from(format!("serde_json gave {}: {}", theirs, e)))?;
            match jsonref::parse(&ours) {
                Ok(o) => ensure!(same_json(&o, &theirs_j), "JSON {} instead of {} for {:?}", ours, theirs, s),
                Err(e) => fail!("not JSON ({}): {} for {:?}", e, ours, s),
            }
        }
    }
    c.describe(|| format!("{:?}", s));
    Ok(())
}

pub struct SGen {
    pub leaves: Vec<SN>,
    pub width: usize,
    pub indexes: Vec<u32>,
}
impl SGen {
    pub fn basic() -> SGen {
        SGen { leaves: vec![SN::I64(-7), SN::Str("a\"é".into()), SN::None, SN::UnitVariant("E", 3, "Vu"), SN::Bytes(vec![1, 255])], width: 2, indexes: vec![1] }
    }
    pub fn node(&self, c: &mut Ctx, budget: usize) -> SN {
        self.gen(c, budget).0
    }
    fn list(&self, c: &mut Ctx, mut rest: usize) -> (Vec<SN>, usize) {
        let n = c.pick(rest.min(self.width) + 1);
        let mut v = vec![];
        for i in 0..n {
            // leave one node for each of the later ones
            let keep = n - i - 1;
            let (x, r) = self.gen(c, rest - keep);
            rest = r + keep;
            v.push(x);
        }
        (v, rest)
    }
    fn fields(&self, c: &mut Ctx, rest: usize) -> (Vec<(Name, SN)>, usize) {
        let (v, r) = self.list(c, rest);
        (v.into_iter().enumerate().map(|(i, x)| (["fa", "f\"b", "fc"][i], x)).collect(), r)
    }
    fn gen(&self, c: &mut Ctx, budget: usize) -> (SN, usize) {
        let rest = budget - 1;
        let k = c.pick(if rest > 0 { 11 } else { 8 });
        let sized = |c: &mut Ctx, n: usize| if c.flag() { None } else { Some(n) };
        match k {
            0 => (c.of(&self.leaves).clone(), rest),
            1 => {
                let (v, r) = self.list(c, rest);
                (SN::Seq(sized(c, v.len()), v), r)
            }
            2 => {
                let (v, r) = self.list(c, rest);
                (SN::Tuple(v), r)
            }
            3 => {
                let (v, r) = self.list(c, rest);
                (SN::TupleStruct("Ts", v), r)
            }
            4 => {
                let (v, r) = self.list(c, rest);
                (SN::TupleVariant("E", *c.of(&self.indexes), "Vt", v), r)
            }
            5 => {
                let n = c.pick((rest / 2).min(self.width) + 1);
                let mut v = vec![];
                let mut rest = rest;
                for i in 0..n {
                    let keep = 2 * (n - i) - 1;
                    let (k, r) = self.gen(c, rest - keep);
                    let (x, r) = self.gen(c, r + 1);
                    rest = r + keep - 1;
                    v.push((k, x));
                }
                (SN::Map(sized(c, v.len()), v), rest)
            }
            6 => {
                let (v, r) = self.fields(c, rest);
                (SN::Struct("St", v), r)
            }
            7 => {
                let (v, r) = self.fields(c, rest);
                (SN::StructVariant("E", *c.of(&self.indexes), "Vs", v), r)
            }
            8 => {
                let (x, r) = self.gen(c, rest);
                (SN::Some(Box::new(x)), r)
            }
            9 => {
                let (x, r) = self.gen(c, rest);
                (SN::Newtype("Nt", Box::new(x)), r)
            }
            _ => {
                let (x, r) = self.gen(c, rest);
                (SN::NewtypeVariant("E", *c.of(&self.indexes), "Vn", Box::new(x)), r)
            }
        }
    }
}

pub fn serde_leaves() -> Vec<SN> {
    let mut v = vec![SN::Bool(false), SN::Bool(true), SN::Unit, SN::None, SN::UnitStruct("Us"), SN::Shown(vec![]), SN::Shown(vec!["a\"".into(), "".into(), "é".into()]), SN::Bytes(vec![]), SN::Bytes(vec![0, 128, 255])];
    v.extend(["", "a", "\u{0}\"\\\u{7f}é\u{10ffff}"].map(|s| SN::Str(s.into())));
    v.extend(['a', '"', '\u{0}', 'é', '\u{10ffff}'].map(SN::Char));
    v.extend([0, 1, u32::MAX].map(|i| SN::UnitVariant("E", i, "V")));
    macro_rules! ints { ($($t:ident $k:ident),*) => { $(v.extend([$t::MIN, 0, 1, $t::MAX - 1, $t::MAX].map(SN::$k));)* } }
    ints!(u8 U8, u16 U16, u32 U32, u64 U64, u128 U128, i8 I8, i16 I16, i32 I32, i64 I64, i128 I128);
    v.extend([0.0, -0.0, 1.5, f32::MAX, f32::MIN_POSITIVE, 16777216.0].map(SN::F32));
    v.extend([0.0, -0.0, 1.5, f64::MAX, f64::MIN_POSITIVE, 9007199254740993.0, 1e16, 5e-324].map(SN::F64));
    v.extend([f64::INFINITY, f64::NAN].map(SN::F64));
    v
}

/// Give a tree labels that are all static, so that the bridge has to take it.
pub fn static_gen() -> Gen {
    let mut g = Gen::basic();
    g.leaves.push(Kind::Text("ab".into(), vec![1]));
    g.tag_metas = vec![m(0, Some(ident("Lb")), Some(off(1))), m(T_NONE, Some(ident("None")), Some(off(0))), m(T_UNIT, None, None), m(0, lab("Q"), ix(0))];
    g.tagged_metas = vec![m(0, Some(ident("Lb")), Some(off(1))), m(T_SOME, Some(ident("Some")), Some(off(1))), m(T_X, lab("Q"), ix(u32::MAX as i128))];
    g.enum_metas = vec![m(0, Some(ident("En")), None), m(T_X, lab("Q"), ix(3))];
    g.rec_metas = vec![M::default(), m(0, Some(ident("Rc")), Some(off(2)))];
    g.fields = vec![(0, ident("fa")), (T_Y, L { text: "f\"b".into(), is_static: true, tag: 0 })];
    g.nested_enum = false;
    g
}

pub fn check(thorough: bool) -> Check {
    let b = 5;
    let sb = if thorough { 5 } else { 4 };
    let mut g1 = static_gen();
    let mut g2 = Gen::basic();
    if thorough {
        (g1.width, g1.depth, g2.width, g2.depth) = (4, 5, 4, 5);
    } else {
        g1.leaves = vec![Kind::I64(7), Kind::Text("ab".into(), vec![1])];
        g2.leaves = vec![Kind::I64(7), Kind::Text("ab".into(), vec![1])];
    }
    let mut g3 = static_gen();
    g3.leaves = number_leaves();
    g3.leaves.extend([Kind::Bool(false), Kind::Text("".into(), vec![]), Kind::Text("a\u{0}\"".into(), vec![1, 2]), Kind::Bin(vec![0, 255], vec![1])]);
    g3.depth = 2;
    let mut g4 = static_gen();
    g4.leaves = vec![Kind::I64(1), Kind::Text("k\n".into(), vec![1]), Kind::Bin(vec![1, 2], vec![1])];
    let s1 = SGen::basic();
    let s2 = SGen { leaves: serde_leaves(), width: 2, indexes: vec![0, 2, u32::MAX] };
    let s3 = SGen { leaves: vec![SN::U8(1), SN::Str("k".into()), SN::UnitVariant("E", 3, "Vu")], width: 3, indexes: vec![1] };
    Check {
        suites: vec![
            suite("to-serde", format!("every value tree of at most {} nodes whose labels are all static", b), move |c| {
                let n = g1.node(c, b);
                check_node(c, &n)
            }),
            suite("to-serde-any", format!("every value tree of at most {} nodes with any metadata, including what serde cannot express", b), move |c| {
                let n = g2.node(c, b);
                check_node(c, &n)
            }),
            suite("to-serde-leaves", "every boundary number, text and binary leaf in every container position", move |c| {
                let n = g3.node(c, 3);
                check_node(c, &n)
            }),
            suite("to-serde-styles", format!("trees of at most {} nodes in 12 streaming styles", b - 1), move |c| {
                let st = *c.of(&Style::ALL);
                let n = g4.node(c, b - 1).styled(st);
                check_node(c, &n)
            }),
            suite("from-serde", format!("every serde value of at most {} nodes, width 2", sb), move |c| {
                let s = s1.node(c, sb);
                check_serde(c, &s)
            }),
            suite("from-serde-leaves", "every boundary serde leaf in every container position", move |c| {
                let s = s2.node(c, if c.thorough { 3 } else { 2 });
                check_serde(c, &s)
            }),
            suite("from-serde-wide", format!("every serde value of at most {} nodes, width 3", sb), move |c| {
                let s = s3.node(c, sb);
                check_serde(c, &s)
            }),
            suite("names", metas::bounds(), move |c| {
                let n = match metas::pick(c) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                check_node(c, &n)
            }),
            suite("empty", "trees of at most 4 (thorough: 5) nodes in which enums may be empty, with and without labels and indexes", |c| {
                let n = Gen::hollow().node(c, if c.thorough { 5 } else { 4 }).hollow(false);
                check_node(c, &n)
            }),
            suite("sizes", sizes::bounds(thorough, if thorough { 70000 } else { 1100 }, 6), move |c| {
                let n = sizes::pick_in(c, if c.thorough { 70000 } else { 1100 }, 6);
                check_node(c, &n)
            }),
            suite("from-serde-sizes", "serde sequences, tuples, maps, structs and variants of every size up to 70 (thorough 300) and around powers of two up to 1025, strings and bytes, and chains of each wrapper to depth 130", move |c| {
                let n = *c.of(&sizes::sizes(c.thorough, 1100));
                let deep = n.min(130);
                let k = c.pick(16);
                c.describe(|| format!("family {} at size {}", k, n));
                let ints = || (0..n).map(|i| SN::I64(i as i64)).collect::<Vec<_>>();
                let fields = || (0..n).map(|i| (intern(&format!("f{}", i)), SN::Str(format!("v{}", i)))).collect::<Vec<_>>();
                let chain = |f: &dyn Fn(SN) -> SN| (0..deep).fold(SN::Bool(true), |x, _| f(x));
                let s = match k {
                    0 => SN::Seq(Some(n), ints()),
                    1 => SN::Seq(None, ints()),
                    2 => SN::Tuple(ints()),
                    3 => SN::TupleStruct("Ts", ints()),
                    4 => SN::TupleVariant("E", 3, "Vt", ints()),
                    5 => SN::Map(Some(n), (0..n).map(|i| (SN::Str(i.to_string()), SN::I64(i as i64))).collect()),
                    6 => SN::Map(None, (0..n).map(|i| (SN::I64(i as i64), SN::Bool(true))).collect()),
                    7 => SN::Struct("St", fields()),
                    8 => SN::StructVariant("E", 2, "Vs", fields()),
                    9 => SN::Str("aé\"".chars().cycle().take(n).collect()),
                    10 => SN::Bytes((0..n).map(|i| i as u8).collect()),
                    11 => chain(&|x| SN::Seq(Some(1), vec![x])),
                    12 => chain(&|x| SN::Newtype("Nt", Box::new(x))),
                    13 => chain(&|x| SN::NewtypeVariant("E", 1, "Vn", Box::new(x))),
                    14 => chain(&|x| SN::Struct("St", vec![("a", SN::None), ("b", x)])),
                    _ => SN::UnitVariant("E", n as u32, intern(&"v".repeat(n + 1))),
                };
                let s = match c.pick(3) {
                    0 => s,
                    1 => SN::Seq(Some(2), vec![s, SN::Str("after".into())]),
                    _ => SN::Struct("St", vec![("a", s), ("b", SN::Unit)]),
                };
                check_serde(c, &s)
            }),
        ],
        assumptions: vec!["shapes serde's data model lacks (unnamed tags or tagged values, names that are not static, structs without a known length, enums without a static name, enums in enums) may only be refused", "serde_json writes unit structs as null, so they are left out of the JSON comparison"],
    }
}
