//! C11: streams implementing only some of the methods still receive all the data.
use super::c07::norm;
use super::Check;
use crate::engine::*;
use crate::metas;
use crate::sizes;
use crate::ev::*;
use crate::model::*;
use sval::Value;

/// Reference lowering of a value for a stream that implements the groups in `mask`.
pub fn lower(n: &Node, mask: u32, out: &mut Vec<Ev>) {
    let has = |g: u32| mask & g == g;
    match &n.k {
        Kind::Hole => (),
        Kind::Null => out.push(Ev::Null),
        Kind::Bool(v) => out.push(Ev::Bool(*v)),
        Kind::I64(v) => out.push(Ev::I64(*v)),
        Kind::F64(v) => out.push(Ev::F64(v.to_bits())),
        Kind::U8(v) if has(G_INT_SMALL) => out.push(Ev::U8(*v)),
        Kind::U16(v) if has(G_INT_SMALL) => out.push(Ev::U16(*v)),
        Kind::U32(v) if has(G_INT_SMALL) => out.push(Ev::U32(*v)),
        Kind::I8(v) if has(G_INT_SMALL) => out.push(Ev::I8(*v)),
        Kind::I16(v) if has(G_INT_SMALL) => out.push(Ev::I16(*v)),
        Kind::I32(v) if has(G_INT_SMALL) => out.push(Ev::I32(*v)),
        Kind::F32(v) if has(G_INT_SMALL) => out.push(Ev::F32(v.to_bits())),
        Kind::F32(v) => out.push(Ev::F64((*v as f64).to_bits())),
        Kind::I8(v) => out.push(Ev::I64(*v as i64)),
        Kind::I16(v) => out.push(Ev::I64(*v as i64)),
        Kind::I32(v) => out.push(Ev::I64(*v as i64)),
        Kind::U8(v) if has(G_INT_BIG) => out.push(Ev::U64(*v as u64)),
        Kind::U16(v) if has(G_INT_BIG) => out.push(Ev::U64(*v as u64)),
        Kind::U32(v) if has(G_INT_BIG) => out.push(Ev::U64(*v as u64)),
        Kind::U64(v) if has(G_INT_BIG) => out.push(Ev::U64(*v)),
        Kind::U128(v) if has(G_INT_BIG) => out.push(Ev::U128(*v)),
        Kind::I128(v) if has(G_INT_BIG) => out.push(Ev::I128(*v)),
        Kind::U8(v) => out.push(Ev::I64(*v as i64)),
        Kind::U16(v) => out.push(Ev::I64(*v as i64)),
        Kind::U32(v) => out.push(Ev::I64(*v as i64)),
        Kind::U64(v) => wide(*v as i128, v.to_string(), mask, out),
        Kind::U128(v) => wide(i128::try_from(*v).unwrap_or(i128::MAX), v.to_string(), mask, out),
        Kind::I128(v) => wide(*v, v.to_string(), mask, out),
        Kind::Text(t, _) => text(t, out),
        Kind::Bin(b, _) if has(G_BINARY) => out.extend([Ev::BinBegin(size(n, b.len())), Ev::Bin(b.clone(), false), Ev::BinEnd]),
        Kind::Bin(b, _) => {
            out.push(Ev::SeqBegin(size(n, b.len())));
            for b in b {
                out.push(Ev::SeqValueBegin);
                lower(&Node::new(Kind::U8(*b)), mask, out);
                out.push(Ev::SeqValueEnd);
            }
            out.push(Ev::SeqEnd);
        }
        Kind::Seq(v) => {
            out.push(Ev::SeqBegin(size(n, v.len())));
            for x in v {
                out.push(Ev::SeqValueBegin);
                lower(x, mask, out);
                out.push(Ev::SeqValueEnd);
            }
            out.push(Ev::SeqEnd);
        }
        Kind::Map(v) => map(size(n, v.len()), v.iter().map(|(k, x)| (Err(k), x)), mask, out),
        Kind::Tag(m) if has(G_TAG) => out.push(Ev::Tag(m.clone())),
        Kind::Tag(m) => tagged(m, mask, out, |out| {
            if m.tag == T_NONE {
                out.push(Ev::Null)
            } else if let Some(l) = &m.label {
                text(&l.text, out)
            } else {
                out.push(Ev::Null)
            }
        }),
        Kind::Tagged(m, x) => tagged(m, mask, out, |out| lower(x, mask, out)),
        Kind::Enum(m, x) if has(G_ENUM) => {
            out.push(Ev::EnumBegin(m.clone()));
            lower(x, mask, out);
            out.push(Ev::EnumEnd(m.clone()));
        }
        Kind::Enum(m, x) => tagged(m, mask, out, |out| lower(x, mask, out)),
        Kind::RecordTuple(m, v) if has(G_RECTUP) => {
            out.push(Ev::RecordTupleBegin(m.clone(), size(n, v.len())));
            for (t, l, i, x) in v {
                out.push(Ev::RecordTupleValueBegin(*t, l.clone(), i.clone()));
                lower(x, mask, out);
                out.push(Ev::RecordTupleValueEnd(*t, l.clone(), i.clone()));
            }
            out.push(Ev::RecordTupleEnd(m.clone()));
        }
        Kind::RecordTuple(m, v) => rec(m, size(n, v.len()), v.iter().map(|(t, l, _, x)| (*t, l, x)).collect(), mask, out),
        Kind::Record(m, v) => rec(m, size(n, v.len()), v.iter().map(|(t, l, x)| (*t, l, x)).collect(), mask, out),
        Kind::Tuple(m, v) => tuple(m, size(n, v.len()), v.iter().map(|(t, i, x)| (*t, i.clone(), Ok(x))).collect(), mask, out),
    }
}

fn size(n: &Node, len: usize) -> Sz {
    if n.st.sizes { Some(len) } else { None }
}
fn text(t: &str, out: &mut Vec<Ev>) {
    out.extend([Ev::TextBegin(Some(t.len())), Ev::Text(t.into(), false), Ev::TextEnd]);
}
fn wide(v: i128, s: String, mask: u32, out: &mut Vec<Ev>) {
    match i64::try_from(v) {
        Ok(v) => out.push(Ev::I64(v)),
        Err(_) => tagged(&M { tag: T_NUMBER, ..M::default() }, mask, out, |out| text(&s, out)),
    }
}
fn tagged(m: &M, mask: u32, out: &mut Vec<Ev>, f: impl FnOnce(&mut Vec<Ev>)) {
    if mask & G_TAGGED != 0 {
        out.push(Ev::TaggedBegin(m.clone()));
        f(out);
        out.push(Ev::TaggedEnd(m.clone()));
    } else {
        f(out)
    }
}
fn rec(m: &M, sz: Sz, v: Vec<(u8, &L, &Node)>, mask: u32, out: &mut Vec<Ev>) {
    if mask & G_RECORD != 0 {
        out.push(Ev::RecordBegin(m.clone(), sz));
        for (t, l, x) in v {
            out.push(Ev::RecordValueBegin(t, l.clone()));
            lower(x, mask, out);
            out.push(Ev::RecordValueEnd(t, l.clone()));
        }
        out.push(Ev::RecordEnd(m.clone()));
    } else {
        tagged(m, mask, out, |out| map(sz, v.into_iter().map(|(_, l, x)| (Ok(l.text.as_str()), x)), mask, out))
    }
}
type KeyOr<'a> = Result<&'a str, &'a Node>;
fn any(k: KeyOr, mask: u32, out: &mut Vec<Ev>) {
    match k {
        Ok(t) => text(t, out),
        Err(n) => lower(n, mask, out),
    }
}
fn map<'a>(sz: Sz, v: impl Iterator<Item = (KeyOr<'a>, &'a Node)>, mask: u32, out: &mut Vec<Ev>) {
    if mask & G_MAP != 0 {
        out.push(Ev::MapBegin(sz));
        for (k, x) in v {
            out.push(Ev::MapKeyBegin);
            any(k, mask, out);
            out.extend([Ev::MapKeyEnd, Ev::MapValueBegin]);
            lower(x, mask, out);
            out.push(Ev::MapValueEnd);
        }
        out.push(Ev::MapEnd);
    } else {
        out.push(Ev::SeqBegin(sz));
        for (k, x) in v {
            out.push(Ev::SeqValueBegin);
            tuple(&M::default(), Some(2), vec![(0, I { val: 0, tag: 0 }, Err(k)), (0, I { val: 1, tag: 0 }, Ok(x))], mask, out);
            out.push(Ev::SeqValueEnd);
        }
        out.push(Ev::SeqEnd);
    }
}
fn tuple(m: &M, sz: Sz, v: Vec<(u8, I, Result<&Node, KeyOr>)>, mask: u32, out: &mut Vec<Ev>) {
    let item = |x: Result<&Node, KeyOr>, out: &mut Vec<Ev>| match x {
        Ok(n) => lower(n, mask, out),
        Err(k) => any(k, mask, out),
    };
    if mask & G_TUPLE != 0 {
        out.push(Ev::TupleBegin(m.clone(), sz));
        for (t, i, x) in v {
            out.push(Ev::TupleValueBegin(t, i.clone()));
            item(x, out);
            out.push(Ev::TupleValueEnd(t, i));
        }
        out.push(Ev::TupleEnd(m.clone()));
    } else {
        tagged(m, mask, out, |out| {
            out.push(Ev::SeqBegin(sz));
            for (_, _, x) in v {
                out.push(Ev::SeqValueBegin);
                item(x, out);
                out.push(Ev::SeqValueEnd);
            }
            out.push(Ev::SeqEnd);
        })
    }
}

fn data(evs: &[Ev]) -> Vec<Ev> {
    norm(&canon(evs, Canon { hints: true, borrow: false, label_static: true, sizes: true }))
}

fn check_data(c: &mut Ctx, n: &Node, mask: u32) -> std::result::Result<Vec<Ev>, Fail> {
    let mut want = vec![];
    lower(n, mask, &mut want);
    let mut p = Part { sink: Vec::new(), mask };
    let r = n.stream(&mut p);
    let got = p.sink;
    c.step(got.len());
    c.outcome(&got);
    c.describe(|| format!("mask {:#x}: {:?} => {:?}", mask, n.evs(), got));
    if r.is_err() {
        fail!("mask {:#x}: failed for {:?}", mask, n.evs());
    }
    let want = data(&want);
    if data(&got) != want {
        fail!("mask {:#x}: {:?} arrived as {:?} instead of {:?}", mask, n.evs(), got, want);
    }
    if mask & G_ENUM == 0 || mask & G_TAGGED != 0 {
        if let Err(e) = well_formed(&got) {
            fail!("mask {:#x}: {:?} arrived malformed ({}): {:?}", mask, n.evs(), e, got);
        }
    }
    if let Some((r, real)) = crate::parts::send_to(mask, &n.evs()) {
        c.step(real.len());
        if r.is_err() || data(&real) != want {
            fail!("a stream with only the methods {:#x} got {:?} instead of {:?} for {:?}", mask, real, want, n.evs());
        }
    }
    if mask == 0 {
        let mut m = Min(Vec::new());
        let r = n.stream(&mut m);
        if r.is_err() || m.0 != got {
            fail!("a stream without optional methods got {:?} instead of {:?} for {:?}", m.0, got, n.evs());
        }
    }
    Ok(got)
}

fn check_mask(c: &mut Ctx, n: &Node, mask: u32) -> Res {
    let got = check_data(c, n, mask)?;
    // failures come back through the default methods, and nothing follows them
    if c.thorough || mask == 0 {
        let k = c.pick(got.len());
        let mut p = Part { sink: FailAt::new(k), mask };
        let r = n.stream(&mut p);
        if r.is_ok() || p.sink.after != 0 {
            fail!("mask {:#x}: call {} failed for {:?}, result ok={} calls after={}", mask, k, n.evs(), r.is_ok(), p.sink.after);
        }
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let mut g = Gen::basic();
    g.leaves = vec![Kind::I64(7), Kind::U8(9), Kind::U64(u64::MAX), Kind::Text("a\"é".into(), vec![1]), Kind::Bin(vec![1, 255], vec![1])];
    g.tag_metas.push(m(T_NONE, Some(L { text: "dyn".into(), is_static: false, tag: 0 }), None));
    g.tag_metas.push(m(0, Some(L { text: "dyn".into(), is_static: false, tag: 0 }), None));
    let mut g1 = g.clone();
    g1.leaves = vec![Kind::U8(9), Kind::Text("a".into(), vec![]), Kind::Bin(vec![1, 2], vec![])];
    let mut g3 = g.clone();
    g3.leaves = number_leaves();
    g3.leaves.extend([Kind::Bin(vec![], vec![]), Kind::Bin((0..=255).collect(), vec![7]), Kind::Text("".into(), vec![])]);
    g3.depth = 2;
    let b1 = if thorough { 5 } else { 4 };
    let masks: Vec<u32> = std::iter::once(0).chain(crate::parts::MASKS).collect();
    Check {
        suites: vec![
            suite("minimal", format!("every value tree of at most {} nodes on a stream with only the required methods", b1), move |c| {
                let n = g1.node(c, b1);
                check_mask(c, &n, 0)
            }),
            suite("subsets", "every value tree of at most 3 nodes (quick: 2) on streams with each of the 2048 subsets of the 11 optional method groups", move |c| {
                let st = if c.thorough { *c.of(&Style::SHORT) } else { Style::DEFAULT };
                let n = g.node(c, if c.thorough { 2 } else { 2 }).styled(st);
                let mask = c.pick(2048) as u32;
                check_mask(c, &n, mask)
            }),
            suite("leave-one", "trees of at most 3 nodes in 4 styles on streams with none, one, or all but one optional group, or tagging and one or two others", {
                let mut g = Gen::basic();
                g.leaves = vec![Kind::U8(9), Kind::I128(i128::MIN), Kind::Text("a".into(), vec![]), Kind::Bin(vec![1, 2], vec![])];
                move |c| {
                    let st = *c.of(&Style::SHORT);
                    let n = g.node(c, 3).styled(st);
                    let mask = *c.of(&masks);
                    check_mask(c, &n, mask)
                }
            }),
            suite("numbers", "every boundary number in every container position on streams with each subset of the numeric and tagging groups", move |c| {
                let n = g3.node(c, if c.thorough { 3 } else { 2 });
                let k = c.pick(16) as u32;
                let mask = [G_INT_SMALL, G_INT_BIG, G_TAGGED, G_BINARY].iter().enumerate().filter(|(i, _)| k >> i & 1 == 1).map(|(_, g)| *g).sum();
                check_mask(c, &n, mask)
            }),
            suite("names", metas::bounds(), move |c| {
                let n = match metas::pick(c) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let mask = *c.of(&[0, G_ALL, G_TAGGED, G_BINARY, G_ALL & !G_MAP, G_ALL & !G_BINARY]);
                check_data(c, &n, mask).map(|_| ())
            }),
            suite("sizes", sizes::bounds(thorough, if thorough { 70000 } else { 1100 }, 6), move |c| {
                let n = sizes::pick_in(c, if c.thorough { 70000 } else { 1100 }, 6);
                let mask = *c.of(&[0, G_ALL, G_TAGGED, G_BINARY, G_ALL & !G_MAP, G_ALL & !G_BINARY]);
                check_data(c, &n, mask).map(|_| ())
            }),
        ],
        assumptions: vec!["optional methods are overridden in whole groups (e.g. all map methods or none), as the documentation requires of streams"],
    }
}
