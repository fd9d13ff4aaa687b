//! C07: buffering a value and replaying it is indistinguishable from the value.
use super::Check;
use crate::engine::*;
use crate::metas;
use crate::sizes;
use crate::ev::*;
use crate::model::*;
use sval_buffer::{Value, ValueBuf};
use sval_ref::ValueRef;

pub enum Form<'a> {
    Buf(ValueBuf<'a>),
    Val(Value<'a>),
}

impl<'a> Form<'a> {
    fn rec(&self) -> (Vec<Ev>, sval::Result) {
        match self {
            Form::Buf(b) => record(b),
            Form::Val(v) => record(v),
        }
    }
    fn rec_ref(&self) -> (Vec<Ev>, sval::Result) {
        let mut f = Full(Vec::new());
        let r = match self {
            Form::Buf(b) => b.stream_ref(&mut f),
            Form::Val(b) => b.stream_ref(&mut f),
        };
        (f.0, r)
    }
}

pub use crate::shared::norm;

fn err(what: &str, e: impl std::fmt::Display) -> Fail {
    Fail::from(format!("{} failed: {}", what, e))
}

fn start<'a, V: sval::Value>(c: &mut Ctx, v: &'a V, log: &mut String) -> Result<Form<'a>, Fail> {
    Ok(match c.pick(7) {
        0 => {
            log.push_str("ValueBuf::collect");
            Form::Buf(ValueBuf::collect(v).map_err(|e| err("collect", e))?)
        }
        1 => {
            log.push_str("Value::collect");
            Form::Val(Value::collect(v).map_err(|e| err("collect", e))?)
        }
        2 => {
            log.push_str("ValueBuf::collect_owned");
            Form::Buf(ValueBuf::collect_owned(v).map_err(|e| err("collect_owned", e))?)
        }
        3 => {
            log.push_str("Value::collect_owned");
            Form::Val(Value::collect_owned(v).map_err(|e| err("collect_owned", e))?)
        }
        4 => {
            log.push_str("stream into ValueBuf");
            let mut b = ValueBuf::new();
            v.stream(&mut b).map_err(|e| err("stream", e))?;
            Form::Buf(b)
        }
        5 => {
            log.push_str("stream_to_value");
            Form::Buf(sval_buffer::stream_to_value(v).map_err(|e| err("stream_to_value", e))?)
        }
        _ => {
            log.push_str("stream_to_value_owned");
            Form::Buf(sval_buffer::stream_to_value_owned(v).map_err(|e| err("stream_to_value_owned", e))?)
        }
    })
}

fn step<'a>(c: &mut Ctx, f: Form<'a>, log: &mut String) -> Result<Form<'a>, Fail> {
    Ok(match f {
        Form::Buf(b) => match c.pick(6) {
            0 => {
                log.push_str("; to_value");
                Form::Val(b.to_value())
            }
            1 => {
                log.push_str("; into_value");
                Form::Val(b.into_value())
            }
            2 => {
                log.push_str("; into_owned");
                Form::Buf(b.into_owned().map_err(|e| err("into_owned", e))?)
            }
            3 => {
                log.push_str("; collect_owned again");
                Form::Buf(ValueBuf::collect_owned(&b).map_err(|e| err("collect_owned", e))?)
            }
            4 => {
                log.push_str("; stream_ref into a new buffer");
                let mut n = ValueBuf::new();
                b.stream_ref(&mut n).map_err(|e| err("stream_ref", e))?;
                Form::Buf(n)
            }
            _ => {
                log.push_str("; collect, own, drop");
                let again = ValueBuf::collect(&b).map_err(|e| err("collect", e))?.into_owned().map_err(|e| err("into_owned", e))?;
                Form::Buf(again)
            }
        },
        Form::Val(b) => match c.pick(5) {
            0 => {
                log.push_str("; clone");
                let n = b.clone();
                drop(b);
                Form::Val(n)
            }
            1 => {
                log.push_str("; into_owned");
                Form::Val(b.into_owned().map_err(|e| err("into_owned", e))?)
            }
            2 => {
                log.push_str("; collect_owned again");
                Form::Val(Value::collect_owned(&b).map_err(|e| err("collect_owned", e))?)
            }
            3 => {
                log.push_str("; stream_ref into a new buffer");
                let mut n = ValueBuf::new();
                b.stream_ref(&mut n).map_err(|e| err("stream_ref", e))?;
                Form::Buf(n)
            }
            _ => {
                log.push_str("; collect, own, drop");
                let again = Value::collect(&b).map_err(|e| err("collect", e))?.into_owned().map_err(|e| err("into_owned", e))?;
                Form::Val(again)
            }
        },
    })
}

pub fn check_value<V: sval::Value>(c: &mut Ctx, v: &V, evs: &[Ev], steps: usize) -> Res {
    let want = norm(evs);
    let mut log = String::new();
    let mut f = start(c, v, &mut log)?;
    for _ in 0..steps {
        f = step(c, f, &mut log)?;
    }
    let (got, r) = f.rec();
    let (got2, r2) = f.rec_ref();
    c.step(evs.len() * (2 + steps));
    c.outcome(&got);
    c.describe(|| format!("{} of {:?}", log, evs));
    if r.is_err() || r2.is_err() {
        fail!("replay failed after {} of {:?}", log, evs);
    }
    if norm(&got) != want {
        fail!("after {}: replayed {:?} instead of {:?}", log, norm(&got), want);
    }
    if norm(&got2) != want {
        fail!("after {}: stream_ref gave {:?} instead of {:?}", log, norm(&got2), want);
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let mut g1 = Gen::basic();
    g1.leaves = vec![Kind::I64(-7), Kind::Text("aé".into(), vec![1]), Kind::Bin(vec![1, 2], vec![])];
    let mut g2 = Gen::basic();
    g2.leaves = vec![Kind::U8(1), Kind::Text("".into(), vec![])];
    g2.fields = vec![(T_X, L { text: "comp".into(), is_static: false, tag: T_IDENT }), (0, ident("st"))];
    g2.indexes = vec![I { val: -3, tag: T_OFFSET }, I { val: u64::MAX as i128, tag: 0 }];
    let meta: Vec<M> = metas8().into_iter().chain([m(T_NONE, Some(L { text: "dyn".into(), is_static: false, tag: T_X }), Some(I { val: -1, tag: T_X }))]).collect();
    g2.tag_metas = meta.clone();
    g2.tagged_metas = meta.clone();
    g2.enum_metas = meta.clone();
    g2.rec_metas = meta;
    let mut g4 = Gen::basic();
    g4.leaves = number_leaves();
    g4.leaves.extend([Kind::Bool(true), Kind::Null, Kind::Text("abc".into(), vec![0, 1, 3]), Kind::Bin(vec![9, 8, 7], vec![1, 2])]);
    g4.depth = 2;
    let g5 = g1.clone();
    let g6 = g1.clone();
    let b = if thorough { 5 } else { 4 };
    let bs = if thorough { 4 } else { 3 };
    Check {
        suites: vec![
            suite("structure", format!("every value tree of at most {} nodes x 7 ways to buffer", b), move |c| {
                let n = g1.node(c, b);
                check_value(c, &n, &n.evs(), 0)
            }),
            suite("metadata", format!("trees of at most {} nodes with static, computed and tagged labels, tagged indexes and all presence combinations x 7 ways x 1 further operation", bs), move |c| {
                let n = g2.node(c, bs);
                check_value(c, &n, &n.evs(), 1)
            }),
            suite("histories", "trees of at most 3 nodes in 4 streaming styles x every sequence of 3 conversions (clone, own, re-collect, replay by reference)", move |c| {
                let st = *c.of(&Style::SHORT);
                let n = g5.node(c, if c.thorough { 3 } else { 2 }).styled(st);
                check_value(c, &n, &n.evs(), 3)
            }),
            suite("leaves", "every boundary number and fragmented text/binary in every container position", move |c| {
                let st = *c.of(&Style::SHORT);
                let n = g4.node(c, 3).styled(st);
                check_value(c, &n, &n.evs(), 0)
            }),
            suite("hints", format!("a tag hint at every point outside text and binary of every tree of at most {} nodes", bs), move |c| {
                let n = g6.node(c, bs);
                let mut evs = n.evs();
                let p = c.pick(evs.len() + 1);
                if p > 0 && matches!(evs[p - 1], Ev::TextBegin(_) | Ev::Text(..) | Ev::BinBegin(_) | Ev::Bin(..)) {
                    return Ok(());
                }
                evs.insert(p, Ev::TagHint(T_X));
                let s = Script(evs.clone());
                check_value(c, &s, &evs, 1)
            }),
            suite("names", metas::bounds(), move |c| {
                let n = match metas::pick(c) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let st = *c.of(&[Style::DEFAULT, Style::SHORT[3]]);
                let n = n.styled(st);
                let evs = n.evs();
                check_value(c, &n, &evs, 0)
            }),
            suite("empty", "trees of at most 4 (thorough: 5) nodes in which tagged values and enums may be empty, with and without labels and indexes", |c| {
                let n = Gen::hollow().node(c, if c.thorough { 5 } else { 4 }).hollow(true);
                check_value(c, &n, &n.evs(), 0)
            }),
            suite("sizes", sizes::bounds(thorough, if thorough { 70000 } else { 1100 }, 6), move |c| {
                let n = sizes::pick_in(c, if c.thorough { 70000 } else { 1100 }, 6);
                let st = *c.of(&[Style::DEFAULT, Style::SHORT[3]]);
                let n = n.styled(st);
                let evs = n.evs();
                check_value(c, &n, &evs, 0)
            }),
        ],
        assumptions: vec!["text and binary are replayed whole with their exact length; fragment boundaries are not part of the data (C03)"],
    }
}
