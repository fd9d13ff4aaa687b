//! C22: tag hints and unknown tags never change a result.
use super::c03::{same, within, CONTEXTS};
use super::c12::casts;
use super::Check;
use crate::consumers::*;
use crate::engine::*;
use crate::metas;
use crate::sizes;
use crate::ev::*;
use crate::model::*;

const HINTS: [u8; 6] = [T_X, T_NUMBER, T_NONE, T_JVALUE, T_SOME, T_UNIT];
/// Every tag the crates define.
const KNOWN: [u8; 11] = [T_X, T_NUMBER, T_NONE, T_JVALUE, T_SOME, T_UNIT, T_JTEXT, T_JNUMBER, T_IDENT, T_OFFSET, T_CONST];

fn unhinted(got: &Script) -> Script {
    Script(got.0.iter().filter(|e| !matches!(e, Ev::TagHint(_))).cloned().collect())
}

fn check_hints(c: &mut Ctx, got: Vec<Ev>) -> Res {
    let got = Script(got);
    let want = unhinted(&got);
    same(c, &got, &want)?;
    let (g, w) = (casts(&got), casts(&want));
    let mut g = g;
    // the tag of a value is what a hint is about
    g.tag = w.tag;
    if g != w {
        fail!("casts give {:?} for {:?} but {:?} for {:?}", g, got.0, w, want.0);
    }
    Ok(())
}

fn hint_somewhere(c: &mut Ctx, evs: &[Ev], hints: &[u8], count: usize) -> Vec<Ev> {
    let mut out = evs.to_vec();
    let mut from = 0;
    for _ in 0..count {
        let at = from + c.pick(out.len() + 1 - from);
        let h = *c.of(hints);
        out.insert(at, Ev::TagHint(h));
        from = at + 1;
    }
    out
}

fn each_tag(evs: &mut [Ev], mut f: impl FnMut(&mut u8)) {
    fn label(l: &mut L, f: &mut impl FnMut(&mut u8)) {
        f(&mut l.tag)
    }
    fn meta(m: &mut M, f: &mut impl FnMut(&mut u8)) {
        f(&mut m.tag);
        if let Some(l) = &mut m.label {
            label(l, f);
        }
        if let Some(i) = &mut m.index {
            f(&mut i.tag);
        }
    }
    for e in evs {
        match e {
            Ev::EnumBegin(m) | Ev::EnumEnd(m) | Ev::TaggedBegin(m) | Ev::TaggedEnd(m) | Ev::Tag(m) | Ev::RecordBegin(m, _) | Ev::RecordEnd(m) | Ev::TupleBegin(m, _) | Ev::TupleEnd(m) | Ev::RecordTupleBegin(m, _) | Ev::RecordTupleEnd(m) => meta(m, &mut f),
            Ev::RecordValueBegin(t, l) | Ev::RecordValueEnd(t, l) => {
                f(t);
                label(l, &mut f);
            }
            Ev::TupleValueBegin(t, i) | Ev::TupleValueEnd(t, i) => {
                f(t);
                f(&mut i.tag);
            }
            Ev::RecordTupleValueBegin(t, l, i) | Ev::RecordTupleValueEnd(t, l, i) => {
                f(t);
                label(l, &mut f);
                f(&mut i.tag);
            }
            _ => (),
        }
    }
}

/// The consumers whose results don't carry tags.
const TAGLESS: [usize; 11] = [0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 22];

fn check_unknown(c: &mut Ctx, evs: Vec<Ev>) -> Res {
    // a value's events name its tags twice, at the beginning and at the end: replace a tag value wherever it has one of two unknown values
    let mut with = evs.clone();
    let to = *c.of(&[T_Y, T_X]);
    each_tag(&mut with, |t| {
        if *t == 0 || *t == T_X || *t == T_Y {
            *t = to
        }
    });
    let mut without = evs;
    each_tag(&mut without, |t| {
        if *t == T_X || *t == T_Y {
            *t = 0
        }
    });
    let (got, want) = (Script(with), Script(without));
    for i in TAGLESS {
        let (g, w) = (result(i, &got), result(i, &want));
        if g != w {
            fail!("{} gives {} for {:?} but {} for {:?}", NAMES[i], g, got.0, w, want.0);
        }
        c.outcome(&w);
    }
    c.step(got.0.len() * TAGLESS.len());
    let (mut g, w) = (casts(&got), casts(&want));
    g.tag = w.tag;
    if g != w {
        fail!("casts give {:?} for {:?} but {:?} for {:?}", g, got.0, w, want.0);
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let b = if thorough { 4 } else { 3 };
    let mut g1 = Gen::basic();
    g1.leaves = vec![Kind::Null, Kind::Text("a\"é".into(), vec![1]), Kind::Bin(vec![7, 200], vec![1])];
    let mut g2 = g1.clone();
    g2.leaves.truncate(2);
    g2.tag_metas.truncate(2);
    g2.tagged_metas.truncate(2);
    g2.enum_metas.truncate(1);
    g2.rec_metas.truncate(1);
    let mut g3 = Gen::basic();
    g3.leaves = vec![Kind::Null, Kind::Text("a\"é".into(), vec![1]), Kind::Bin(vec![7, 200], vec![1]), Kind::U8(1), Kind::F64(1.5)];
    g3.tag_metas = metas8();
    g3.tagged_metas = metas8();
    g3.enum_metas = metas8();
    g3.rec_metas = metas8();
    g3.fields.push((0, lab("x\"").unwrap()));
    let b3 = if thorough { 4 } else { 3 };
    let texts: Vec<(u8, Kind)> = vec![
        (T_NUMBER, Kind::Text("-012.5e3".into(), vec![1, 3, 5])),
        (T_NUMBER, Kind::Text("".into(), vec![])),
        (T_NUMBER, Kind::Text("0".into(), vec![0, 1])),
        (T_JVALUE, Kind::Text("[1, \"a\"]".into(), vec![2])),
        (T_JTEXT, Kind::Text("a\\n".into(), vec![1])),
        (T_JNUMBER, Kind::Text("1.50".into(), vec![])),
        (0, Kind::Text("".into(), vec![])),
        (0, Kind::Text("a\n".into(), vec![1, 1])),
        (0, Kind::Bin(vec![], vec![])),
        (0, Kind::Bin(vec![1, 2], vec![0, 1])),
        (T_X, Kind::I64(1)),
        (T_X, Kind::U128(u128::MAX)),
        (T_X, Kind::F32(1.5)),
        (T_X, Kind::Bool(true)),
    ];
    let all = if thorough { &HINTS[..] } else { &HINTS[..4] };
    Check {
        suites: vec![
            suite("trees", format!("every value tree of at most 3 nodes with one of {} hints at every point of its events, {} consumers and all casts", all.len(), NAMES.len()), move |c| {
                let n = g1.node(c, 3);
                let evs = hint_somewhere(c, &n.evs(), all, 1);
                check_hints(c, evs)
            }),
            suite("larger", "value trees of at most 4 nodes of a smaller catalogue with one of two hints at every point (thorough only)", {
                let g = g2.clone();
                move |c| {
                    if !c.thorough {
                        return Ok(());
                    }
                    let n = g.node(c, 4);
                    let evs = hint_somewhere(c, &n.evs(), &[T_X, T_NUMBER], 1);
                    check_hints(c, evs)
                }
            }),
            suite("pairs", "value trees of at most 2 nodes (thorough: 3) with two hints at every pair of points", move |c| {
                let n = g2.node(c, if c.thorough { 3 } else { 2 });
                let evs = hint_somewhere(c, &n.evs(), &[T_X, T_NUMBER], 2);
                check_hints(c, evs)
            }),
            suite("scalars", format!("14 scalars and texts (numbers, raw JSON, cut, empty) in {} positions with up to {} hints anywhere", CONTEXTS, if thorough { 2 } else { 1 }), move |c| {
                let (t, k) = c.of(&texts).clone();
                let st = *c.of(&Style::SHORT);
                let x = Node::new(k).styled(st);
                let n = if t == 0 { x } else { Node::new(Kind::Tagged(m(t, None, None), Box::new(x))) };
                let ctx = c.pick(CONTEXTS);
                let k = if c.thorough { 2 } else { 1 };
                let evs = hint_somewhere(c, &within(ctx, n.evs()), &KNOWN, k);
                check_hints(c, evs)
            }),
            suite("everywhere", format!("value trees of at most {} nodes with a hint at all points at once", b), {
                let mut g = Gen::basic();
                g.leaves = vec![Kind::Null, Kind::Text("a\"é".into(), vec![1]), Kind::Bin(vec![7, 200], vec![1])];
                move |c| {
                    let n = g.node(c, b);
                    let h = *c.of(&KNOWN);
                    let mut out = vec![Ev::TagHint(h)];
                    for e in n.evs() {
                        out.push(e);
                        out.push(Ev::TagHint(h));
                    }
                    check_hints(c, out)
                }
            }),
            suite("unknown", format!("value trees of at most {} nodes with unknown tags on every value, field, label and index, {} consumers that don't show tags and all casts", b3, TAGLESS.len()), move |c| {
                let n = g3.node(c, b3);
                check_unknown(c, n.evs())
            }),
            suite("names", metas::bounds(), move |c| {
                let n = match metas::pick(c) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let mut evs = n.evs();
                let len = evs.len();
                // spread over the whole value, both ends included
                let at = c.pick(if c.thorough { 9 } else { 3 }) * len / if c.thorough { 8 } else { 2 };
                evs.insert(at, Ev::TagHint(if c.thorough { *c.of(&[T_X, T_NUMBER]) } else { T_NUMBER }));
                check_hints(c, evs)
            }),
            suite("empty", "trees of at most 3 nodes in which enums may be empty, with one of three hints at every point", |c| {
                let n = Gen::hollow().node(c, 3).hollow(false);
                let evs = hint_somewhere(c, &n.evs(), &[T_X, T_NUMBER, T_UNIT], 1);
                check_hints(c, evs)
            }),
            suite("sizes", sizes::bounds(thorough, if thorough { 1100 } else { 70 }, 2), move |c| {
                let n = sizes::pick_in(c, if c.thorough { 1100 } else { 70 }, 2);
                let mut evs = n.evs();
                let len = evs.len();
                // spread over the whole value, both ends included
                let at = c.pick(9) * len / 8;
                evs.insert(at, Ev::TagHint(*c.of(&[T_X, T_NUMBER])));
                check_hints(c, evs)
            }),
        ],
        assumptions: vec!["the tag of a value is not part of its data for consumers that don't document a meaning for it"],
    }
}
