//! C21: owned buffers never look at memory they do not own.
//!
//! Every execution runs under the watching allocator: freed memory is overwritten and kept aside, so that a
//! read of it shows up as different data, and what is not freed, or freed twice, is counted.
use super::Check;
use crate::engine::*;
use crate::metas;
use crate::sizes;
use crate::ev::*;
use crate::mem;
use crate::model::*;
use sval::Stream;
use sval_buffer::{BinaryBuf, TextBuf, Value, ValueBuf};
use sval_ref::ValueRef;

enum Form {
    Buf(ValueBuf<'static>),
    Val(Value<'static>),
}

type R<T> = std::result::Result<T, &'static str>;

fn own(how: usize, n: &Node) -> R<Form> {
    let e = "collecting failed";
    Ok(match how {
        0 => Form::Buf(ValueBuf::collect(n).map_err(|_| e)?.into_owned().map_err(|_| e)?),
        1 => Form::Val(Value::collect(n).map_err(|_| e)?.into_owned().map_err(|_| e)?),
        2 => Form::Buf(ValueBuf::collect_owned(n).map_err(|_| e)?),
        3 => Form::Val(Value::collect_owned(n).map_err(|_| e)?),
        4 => Form::Buf(sval_buffer::stream_to_value_owned(n).map_err(|_| e)?),
        5 => {
            let mut b = ValueBuf::new();
            b.value_computed(n).map_err(|_| e)?;
            Form::Buf(b)
        }
        6 => {
            let b = ValueBuf::collect(n).map_err(|_| e)?;
            let v = b.to_value();
            drop(b);
            Form::Val(v.into_owned().map_err(|_| e)?)
        }
        7 => {
            let v = ValueBuf::collect(n).map_err(|_| e)?.into_value();
            let w = v.clone();
            drop(v);
            Form::Val(w.into_owned().map_err(|_| e)?)
        }
        _ => {
            // a buffer of a buffer, by reference
            let b = ValueBuf::collect(n).map_err(|_| e)?;
            let mut d = ValueBuf::new();
            b.stream_ref(&mut d).map_err(|_| e)?;
            drop(b);
            Form::Buf(d.into_owned().map_err(|_| e)?)
        }
    })
}
const OWN: usize = 9;

fn next(how: usize, f: Form) -> R<Form> {
    let e = "operation on an owned buffer failed";
    Ok(match (f, how) {
        (Form::Buf(b), 0) => {
            let v = b.to_value();
            drop(b);
            Form::Val(v)
        }
        (Form::Buf(b), 1) => Form::Val(b.into_value()),
        (Form::Buf(b), 2) => Form::Buf(b.into_owned().map_err(|_| e)?),
        (Form::Buf(b), 3) => {
            let d = ValueBuf::collect_owned(&b).map_err(|_| e)?;
            drop(b);
            Form::Buf(d)
        }
        (Form::Buf(b), _) => {
            let mut d = ValueBuf::new();
            b.stream_ref(&mut d).map_err(|_| e)?;
            drop(b);
            Form::Buf(d)
        }
        (Form::Val(b), 0) => {
            let v = b.clone();
            drop(b);
            Form::Val(v)
        }
        (Form::Val(b), 1) => {
            let v = b.clone();
            drop(v);
            Form::Val(b)
        }
        (Form::Val(b), 2) => Form::Val(b.into_owned().map_err(|_| e)?),
        (Form::Val(b), 3) => {
            let d = Value::collect_owned(&b).map_err(|_| e)?;
            drop(b);
            Form::Val(d)
        }
        (Form::Val(b), _) => {
            let mut d = ValueBuf::new();
            b.stream_ref(&mut d).map_err(|_| e)?;
            drop(b);
            Form::Buf(d)
        }
    })
}
const NEXT: usize = 5;

/// Memory that is not valid text would make recording it undefined: look at raw bytes only.
fn replay(f: &Form) -> R<Vec<Ev>> {
    let (e, r) = match f {
        Form::Buf(b) => record(b),
        Form::Val(v) => record(v),
    };
    r.map_err(|_| "replaying an owned buffer failed")?;
    Ok(e)
}

fn same(a: &[Ev], b: &[Ev]) -> bool {
    super::c07::norm(a) == super::c07::norm(b)
}

fn value_history(c: &mut Ctx, n: Node, steps: usize) -> Res {
    let want = n.evs();
    let how = c.pick(OWN);
    let chain: Vec<usize> = (0..steps).map(|_| c.pick(NEXT)).collect();
    c.step(want.len() * (steps + 2));
    c.outcome(&(&want, how, &chain));
    c.describe(|| format!("own {} then {:?} of {:?}", how, chain, want));
    let (res, rep) = mem::watch(|| -> std::result::Result<Option<Vec<Ev>>, &'static str> {
        let src = Box::new(n.clone());
        let f = own(how, &src);
        drop(src); // poisons everything the value was made of
        let mut f = f?;
        for &op in &chain {
            let junk: Vec<u8> = vec![0xEE; 48]; // reuse memory
            f = next(op, f)?;
            drop(junk);
        }
        let got = replay(&f)?;
        let again = replay(&f)?;
        drop(f);
        Ok(mem::quietly(|| if !same(&got, &want) { Some(got.clone()) } else if again != got { Some(again.clone()) } else { None }))
    });
    match res {
        Err(e) => fail!("{}: own {} then {:?} of {:?}", e, how, chain, want),
        Ok(Some(got)) => fail!("own {} then {:?}, source freed: replayed {:?} instead of {:?}", how, chain, super::c07::norm(&got), super::c07::norm(&want)),
        Ok(None) => (),
    }
    if !rep.clean() {
        fail!("own {} then {:?} of {:?}: memory not balanced: {:?}", how, chain, want, rep);
    }
    Ok(())
}

/// Every prefix of a value, then dropped, cleared, reset or owned: nothing leaks, nothing is freed twice.
fn abandoned(c: &mut Ctx, n: Node) -> Res {
    let evs = n.evs();
    let k = c.pick(evs.len() + 1);
    let how = c.pick(7);
    c.step(k + 1);
    c.outcome(&(&evs[..k], how));
    c.describe(|| format!("abandon ({}) after {} of {:?}", how, k, evs));
    let (res, rep) = mem::watch(|| -> Option<&'static str> {
        let src = evs.clone();
        let mut b = ValueBuf::new();
        for e in &src[..k] {
            if send(e, &mut b).is_err() {
                return Some("streaming failed");
            }
        }
        match how {
            0 => drop(b),
            1 => {
                b.clear();
                drop(b);
            }
            2 => {
                b.clear();
                for e in &src {
                    if send(e, &mut b).is_err() {
                        return Some("streaming after clear failed");
                    }
                }
            }
            3 => drop(b.to_value()),
            4 => drop(b.into_value()),
            5 => drop(b.into_owned()),
            _ => {
                // a stray end is an error that the buffer keeps
                let _ = b.map_end();
                let _ = b.text_end();
                drop(b.into_err());
            }
        }
        None
    });
    if let Some(e) = res {
        fail!("{}: {} events of {:?}", e, k, evs);
    }
    if !rep.clean() {
        fail!("abandoned ({}) after {} of {:?}: memory not balanced: {:?}", how, k, evs, rep);
    }
    Ok(())
}

/// Histories of text and binary buffers over a source that is overwritten and freed.
fn fragments(c: &mut Ctx, depth: usize) -> Res {
    const PIECES: [&str; 3] = ["", "ab", "é\u{1F600}cdefghijklmnop"];
    let bin = c.flag();
    let ops: Vec<usize> = {
        let n = c.pick(depth + 1);
        (0..n).map(|_| c.pick(3 + 5)).collect()
    };
    let mut want = String::new();
    for &o in &ops {
        match o {
            0..=2 => want.push_str(PIECES[o]),
            3 => want.clear(),
            _ => (),
        }
    }
    c.step(ops.len() + 1);
    c.outcome(&(bin, &ops));
    c.describe(|| format!("binary={} operations {:?}", bin, ops));
    let (res, rep) = mem::watch(|| -> Option<&'static str> {
        macro_rules! go {
            ($B:ident, $conv:expr, $as:ident) => {{
                let mut b: $B<'static> = $B::new();
                let mut ok = true;
                for &o in &ops {
                    match o {
                        0..=2 => {
                            let mut tmp = PIECES[o].to_owned().into_bytes();
                            ok &= b.push_fragment_computed($conv(&tmp)).is_ok();
                            tmp.iter_mut().for_each(|x| *x = b'!');
                            drop(tmp);
                        }
                        3 => b.clear(),
                        4 => {
                            let d = b.clone();
                            drop(b);
                            b = d;
                        }
                        5 => {
                            let d = b.clone();
                            drop(d);
                        }
                        6 => {
                            let mut d = $B::new();
                            if b.stream_ref(&mut FragTo(&mut |t| ok_push(d.push_fragment_computed($conv(t))))).is_err() {
                                ok = false;
                            }
                            b = d;
                        }
                        _ => {
                            // through a borrowing buffer of this one
                            let t = $B::collect(&b).map(|x| x.$as().to_owned());
                            let mut d = $B::new();
                            match t {
                                Ok(t) => ok &= d.push_fragment_computed(&t).is_ok(),
                                Err(_) => ok = false,
                            }
                            b = d;
                        }
                    }
                }
                let bytes: &[u8] = b.$as().as_ref();
                if !ok {
                    Some("an operation failed")
                } else if bytes != want.as_bytes() {
                    Some("different contents")
                } else {
                    None
                }
            }};
        }
        fn text(b: &[u8]) -> &str {
            std::str::from_utf8(b).unwrap_or("?")
        }
        fn bytes(b: &[u8]) -> &[u8] {
            b
        }
        if bin { go!(BinaryBuf, bytes, as_slice) } else { go!(TextBuf, text, as_str) }
    });
    if let Some(e) = res {
        fail!("binary={} operations {:?}: {} (expected {:?})", bin, ops, e, want);
    }
    if !rep.clean() {
        fail!("binary={} operations {:?}: memory not balanced: {:?}", bin, ops, rep);
    }
    Ok(())
}

fn ok_push<E>(r: std::result::Result<(), E>) -> sval::Result {
    r.map_err(|_| sval::Error::new())
}

/// Hands fragments on.
struct FragTo<'a>(&'a mut dyn FnMut(&[u8]) -> sval::Result);
impl<'a, 'sval> Stream<'sval> for FragTo<'a> {
    fn null(&mut self) -> sval::Result { sval::error() }
    fn bool(&mut self, _: bool) -> sval::Result { sval::error() }
    fn text_begin(&mut self, _: Option<usize>) -> sval::Result { Ok(()) }
    fn text_fragment_computed(&mut self, t: &str) -> sval::Result { (self.0)(t.as_bytes()) }
    fn text_end(&mut self) -> sval::Result { Ok(()) }
    fn binary_begin(&mut self, _: Option<usize>) -> sval::Result { Ok(()) }
    fn binary_fragment_computed(&mut self, t: &[u8]) -> sval::Result { (self.0)(t) }
    fn binary_end(&mut self) -> sval::Result { Ok(()) }
    fn i64(&mut self, _: i64) -> sval::Result { sval::error() }
    fn f64(&mut self, _: f64) -> sval::Result { sval::error() }
    fn seq_begin(&mut self, _: Option<usize>) -> sval::Result { sval::error() }
    fn seq_value_begin(&mut self) -> sval::Result { sval::error() }
    fn seq_value_end(&mut self) -> sval::Result { sval::error() }
    fn seq_end(&mut self) -> sval::Result { sval::error() }
}

/// What is reported as borrowed is the caller's memory, and owning it copies it.
fn borrows(c: &mut Ctx, n: Node) -> Res {
    let how = c.pick(3);
    let mut a = Full(super::c20::Addr::default());
    let _ = sval::Value::stream(&n, &mut a);
    let src = a.0.ptrs;
    let e = |e: sval_buffer::Error| Fail::from(format!("collecting {:?} failed: {}", n, e));
    let inside = |p: &(usize, usize)| src.iter().any(|s| s.0 <= p.0 && p.0 + p.1 <= s.0 + s.1);
    let mut b = Full(super::c20::Addr::default());
    let r = match how {
        0 => ValueBuf::collect(&n).map_err(e)?.stream_ref(&mut b),
        1 => Value::collect(&n).map_err(e)?.stream_ref(&mut b),
        _ => {
            // owned: may say borrowed only of memory that is not the source's
            let v: Value<'static> = Value::collect(&n).map_err(e)?.into_owned().map_err(e)?;
            let r = v.stream_ref(&mut b);
            c.step(n.evs().len());
            c.outcome(&b.0.evs);
            c.describe(|| format!("owned: {:?}", b.0.evs));
            if r.is_err() || b.0.ptrs.iter().any(inside) {
                fail!("an owned buffer of {:?} borrows from its source", n);
            }
            return Ok(());
        }
    };
    c.step(n.evs().len());
    c.outcome(&b.0.evs);
    c.describe(|| format!("borrowed: {:?}", b.0.evs));
    if r.is_err() || !b.0.ptrs.iter().all(inside) {
        fail!("a buffer of {:?} reports as borrowed what is not the source's memory: {:?}", n, b.0.evs);
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let mut g = Gen::basic();
    g.leaves = vec![Kind::U8(1), Kind::Text("a\"é".into(), vec![]), Kind::Text("abcd".into(), vec![2]), Kind::Bin(vec![1, 255], vec![])];
    let rich = vec![M::default(), m(T_X, Some(L { text: "dy\u{e9}".into(), is_static: false, tag: T_X }), Some(off(3))), m(0, Some(L { text: "a longer computed label text".into(), is_static: false, tag: 0 }), None)];
    g.tag_metas = rich.clone();
    g.tagged_metas = rich.clone();
    g.enum_metas = rich.clone();
    g.rec_metas = rich;
    g.fields = vec![(T_Y, L { text: "f\"b".into(), is_static: false, tag: T_IDENT }), (0, ident("fa"))];
    let (g1, g2, g3) = (g.clone(), g.clone(), g.clone());
    let (tb, b, s) = if thorough { (5, 4, 4) } else { (4, 3, 3) };
    let depth = if thorough { 6 } else { 5 };
    Check {
        suites: vec![
            suite("trees", format!("every tree of at most {} nodes with short-lived labels, 4 styles, owned in {} ways, source poisoned and freed", tb, OWN), move |c| {
                let n = g.node(c, tb).styled(*c.of(&Style::SHORT));
                value_history(c, n, 0)
            }),
            suite("histories", format!("every tree of at most 2 nodes, 4 styles, owned in {} ways, then every chain of {} operations", OWN, s), move |c| {
                let n = g1.node(c, 2).styled(*c.of(&Style::SHORT));
                value_history(c, n, s)
            }),
            suite("abandoned", format!("every tree of at most {} nodes stopped after every event, then dropped, cleared, reused, extracted or failed", b), move |c| {
                let n = g2.node(c, b).styled(*c.of(&[Style::DEFAULT, Style { child: Child::Inline, borrowed: false, sizes: true }]));
                abandoned(c, n)
            }),
            suite("borrows", format!("every tree of at most {} nodes, 4 styles: addresses of what a buffer reports as borrowed", b), move |c| {
                let n = g3.node(c, b).styled(*c.of(&Style::SHORT));
                borrows(c, n)
            }),
            suite("fragments", format!("every history of at most {} operations on text and binary buffers, each source overwritten and freed", depth), move |c| fragments(c, depth)),
            suite("names", metas::bounds(), move |c| {
                let n = match metas::pick(c) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let n = n.styled(*c.of(&Style::SHORT));
                value_history(c, n, 0)
            }),
            suite("sizes", sizes::bounds(thorough, if thorough { 1100 } else { 260 }, 2), move |c| {
                let n = sizes::pick_in(c, if c.thorough { 1100 } else { 260 }, 2);
                let n = n.styled(*c.of(&Style::SHORT));
                value_history(c, n, 0)
            }),
        ],
        assumptions: vec!["a read of freed memory shows up as changed data: freed blocks are overwritten and not reused within an execution"],
    }
}
