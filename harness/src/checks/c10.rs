//! C10: wrappers and dynamic dispatch forward every stream event unchanged.
use super::Check;
use crate::engine::*;
use crate::metas;
use crate::sizes;
use crate::ev::*;
use crate::model::*;
use sval::{Result, Stream, Value};
use sval_ref::ValueRef;

pub const STREAMS: [&str; 8] = ["direct", "&mut", "Box", "dyn", "dyn+Send", "dyn+Send+Sync", "Box<dyn>", "computed"];
const COMPUTED: usize = 7;

/// Stream `v` through outer wrapper `w` of inner wrapper `inner` around `s`.
pub fn through<'s, V: Value + ?Sized, S: Stream<'s> + Send + Sync>(w: usize, v: &'s V, s: S, inner: Option<usize>) -> Result {
    let mut s = s;
    match inner {
        None | Some(0) => outer(w, v, s),
        Some(1) => outer(w, v, &mut s),
        Some(2) => outer(w, v, Box::new(s)),
        Some(3) => {
            let d: &mut (dyn sval_dynamic::Stream<'s> + Send + Sync) = &mut s;
            outer(w, v, d)
        }
        _ => {
            let d: Box<dyn sval_dynamic::Stream<'s> + Send + Sync + '_> = Box::new(&mut s);
            outer(w, v, d)
        }
    }
}

/// Stream `v` through stream wrapper `w` around `s`.
pub fn outer<'s, V: Value + ?Sized, S: Stream<'s> + Send + Sync>(w: usize, v: &'s V, s: S) -> Result {
    let mut s = s;
    match w {
        0 => v.stream(&mut s),
        1 => v.stream(&mut &mut s),
        2 => v.stream(&mut Box::new(&mut s)),
        3 => {
            let d: &mut dyn sval_dynamic::Stream<'s> = &mut s;
            v.stream(d)
        }
        4 => {
            let d: &mut (dyn sval_dynamic::Stream<'s> + Send) = &mut s;
            v.stream(d)
        }
        5 => {
            let d: &mut (dyn sval_dynamic::Stream<'s> + Send + Sync) = &mut s;
            v.stream(d)
        }
        6 => {
            let mut d: Box<dyn sval_dynamic::Stream<'s> + '_> = Box::new(&mut s);
            v.stream(&mut d)
        }
        _ => s.value_computed(v),
    }
}

pub const VALUES: [&str; 12] = ["direct", "&", "&&", "Box", "dyn", "dyn+Send", "dyn+Send+Sync", "Box<dyn>", "Ref", "Ref by reference", "to_ref", "&Ref by stream_ref"];

/// Stream value wrapper `w` of `v`.
pub fn wrapped<V: Value + Send + Sync + Clone>(w: usize, v: &V, f: &mut dyn FnMut(&dyn Erased) -> Result) -> Result {
    match w {
        0 => f(&E(v)),
        1 => f(&E(&&*v)),
        2 => f(&E(&&&*v)),
        3 => f(&E(&Box::new(v.clone()))),
        4 => f(&E::<dyn sval_dynamic::Value>(v)),
        5 => f(&E::<dyn sval_dynamic::Value + Send>(v)),
        6 => f(&E::<dyn sval_dynamic::Value + Send + Sync>(v)),
        7 => {
            let b: Box<dyn sval_dynamic::Value> = Box::new(v.clone());
            f(&E(&b))
        }
        8 => f(&E(&sval_ref::Ref::new(v.clone()))),
        9 => f(&E(sval_ref::Ref::new_borrowed(v))),
        10 => f(&R(sval_ref::to_ref(v))),
        _ => f(&R(&sval_ref::to_ref(v))),
    }
}

pub trait Erased {
    fn run(&self, w: usize, inner: Option<usize>, sink: &mut (dyn Sink + Send + Sync)) -> Result;
}
pub struct E<'a, V: ?Sized>(&'a V);
impl<'a, V: Value + ?Sized> Erased for E<'a, V> {
    fn run(&self, w: usize, inner: Option<usize>, sink: &mut (dyn Sink + Send + Sync)) -> Result {
        through(w, self.0, Full(sink), inner)
    }
}
pub struct R<V>(V);
struct AsRef<'a, 's, V>(&'a V, std::marker::PhantomData<&'s ()>);
impl<'s, V: ValueRef<'s>> Erased for R<V> {
    fn run(&self, w: usize, _: Option<usize>, sink: &mut (dyn Sink + Send + Sync)) -> Result {
        let mut s = Full(sink);
        let v = AsRef(&self.0, std::marker::PhantomData);
        match w {
            0 => v.0.stream_ref(&mut s),
            1 => v.0.stream_ref(&mut &mut s),
            2 => v.0.stream_ref(&mut Box::new(&mut s)),
            3 => sval_ref::stream_ref(&mut s as &mut dyn sval_dynamic::Stream<'s>, v.0),
            4 => sval_ref::stream_ref(&mut s as &mut (dyn sval_dynamic::Stream<'s> + Send), v.0),
            5 => sval_ref::stream_ref(&mut s as &mut (dyn sval_dynamic::Stream<'s> + Send + Sync), v.0),
            6 => sval_ref::stream_ref(&mut s, v.0),
            _ => s.value_computed(v.0),
        }
    }
}

fn expected(evs: &[Ev], computed: bool) -> Vec<Ev> {
    evs.iter()
        .map(|e| match e {
            Ev::Text(t, b) => Ev::Text(t.clone(), *b && !computed),
            Ev::Bin(t, b) => Ev::Bin(t.clone(), *b && !computed),
            e => e.clone(),
        })
        .collect()
}

fn check_value<V: Value + Send + Sync + Clone>(c: &mut Ctx, v: &V, evs: &[Ev], vw: usize, sw: usize, inner: Option<usize>) -> Res {
    let mut got: Vec<Ev> = vec![];
    let r = wrapped(vw, v, &mut |e| e.run(sw, inner, &mut got));
    c.step(evs.len());
    c.outcome(&got);
    let name = || format!("{} value through {}{}", VALUES[vw], STREAMS[sw], inner.map(|i| format!(" of {}", ["direct", "&mut", "Box", "dyn", "Box<dyn>"][i])).unwrap_or_default());
    c.describe(|| format!("{}: {:?}", name(), evs));
    if r.is_err() {
        fail!("{}: failed for {:?}", name(), evs);
    }
    let want = expected(evs, sw == COMPUTED);
    if got != want {
        fail!("{}: delivered {:?} instead of {:?}", name(), got, want);
    }
    // the k-th call fails: the failure comes back, and nothing follows
    let k = c.pick(evs.len());
    let mut fa = FailAt::new(k);
    let r = wrapped(vw, v, &mut |e| e.run(sw, inner, &mut fa));
    if r.is_ok() || fa.after != 0 || fa.seen != k + 1 {
        fail!("{}: call {} of {:?} failed, result ok={} after={} seen={}", name(), k, evs, r.is_ok(), fa.after, fa.seen);
    }
    Ok(())
}

/// A stream that takes over whole values, and records how it was handed them.
#[derive(Default)]
struct Whole(Vec<(&'static str, Vec<Ev>)>);
impl<'sval> Stream<'sval> for Whole {
    fn value<V: Value + ?Sized>(&mut self, v: &'sval V) -> Result {
        self.0.push(("value", record(v).0));
        Ok(())
    }
    fn value_computed<V: Value + ?Sized>(&mut self, v: &V) -> Result {
        self.0.push(("value_computed", record(v).0));
        Ok(())
    }
    fn null(&mut self) -> Result { sval::error() }
    fn bool(&mut self, _: bool) -> Result { sval::error() }
    fn text_begin(&mut self, _: Option<usize>) -> Result { sval::error() }
    fn text_fragment_computed(&mut self, _: &str) -> Result { sval::error() }
    fn text_end(&mut self) -> Result { sval::error() }
    fn i64(&mut self, _: i64) -> Result { sval::error() }
    fn f64(&mut self, _: f64) -> Result { sval::error() }
    fn seq_begin(&mut self, _: Option<usize>) -> Result { sval::error() }
    fn seq_value_begin(&mut self) -> Result { sval::error() }
    fn seq_value_end(&mut self) -> Result { sval::error() }
    fn seq_end(&mut self) -> Result { sval::error() }
}

fn check_whole(c: &mut Ctx, n: &Node) -> Res {
    let w = c.pick(5);
    let computed = c.flag();
    let mut s = Whole::default();
    let call = |s: &mut dyn FnMut(bool) -> Result| s(computed);
    let r = match w {
        0 => { let mut s = &mut s; call(&mut |k| if k { Stream::value_computed(&mut s, n) } else { Stream::value(&mut s, n) }) }
        1 => { let mut s = Box::new(&mut s); call(&mut |k| if k { s.value_computed(n) } else { s.value(n) }) }
        2 if computed => { let d: &mut dyn sval_dynamic::Stream = &mut s; d.value_computed(n) }
        3 if computed => { let d: &mut (dyn sval_dynamic::Stream + Send) = &mut s; d.value_computed(n) }
        4 if computed => { let d: &mut (dyn sval_dynamic::Stream + Send + Sync) = &mut s; d.value_computed(n) }
        _ => return Ok(()), // an object cannot take a generic borrowed value; it streams it (covered above)
    };
    let want = vec![(if computed { "value_computed" } else { "value" }, n.evs())];
    c.outcome(&s.0);
    c.describe(|| format!("whole value through wrapper {} {:?}", w, want));
    if r.is_err() || s.0 != want {
        fail!("whole value through wrapper {}: ok={} got {:?} instead of {:?}", w, r.is_ok(), s.0, want);
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let cat = event_catalogue();
    let cat1 = cat.clone();
    let mut g = Gen::basic();
    g.leaves.push(Kind::U128(u128::MAX));
    let g2 = g.clone();
    let g3 = g.clone();
    let b = 3;
    let styles: &'static [Style] = if thorough { &Style::ALL } else { &Style::SHORT };
    Check {
        suites: vec![
            suite("events", format!("each of {} event/metadata combinations x every wrapper pair ({} stream x 5 inner) x failing or not", cat.len(), STREAMS.len()), move |c| {
                let e = c.of(&cat).clone();
                let sw = c.pick(STREAMS.len());
                let inner = c.pick(5);
                check_value(c, &Script(vec![e.clone()]), &[e], 0, sw, Some(inner))
            }),
            suite("events-by-value", format!("each of {} event/metadata combinations x {} value wrappers x {} stream wrappers", cat1.len(), VALUES.len(), STREAMS.len()), move |c| {
                let e = c.of(&cat1).clone();
                let sw = c.pick(STREAMS.len());
                let vw = c.pick(VALUES.len());
                check_value(c, &Script(vec![e.clone()]), &[e], vw, sw, None)
            }),
            suite("values", format!("every value tree of at most {} nodes in {} styles x all value and stream wrappers x every failing call", b, styles.len()), move |c| {
                let st = *c.of(styles);
                let n = g.node(c, b).styled(st);
                let sw = c.pick(STREAMS.len());
                let vw = c.pick(VALUES.len());
                check_value(c, &n, &n.evs(), vw, sw, None)
            }),
            suite("compositions", "trees of at most 3 nodes x all stream wrapper pairs", move |c| {
                let st = *c.of(&Style::SHORT);
                let n = g2.node(c, if c.thorough { 3 } else { 2 }).styled(st);
                let sw = c.pick(STREAMS.len());
                let inner = c.pick(5);
                check_value(c, &n, &n.evs(), 0, sw, Some(inner))
            }),
            suite("whole-values", "streams that override value/value_computed behind every wrapper, trees of at most 3 nodes", move |c| {
                let n = g3.node(c, 3);
                check_whole(c, &n)
            }),
            suite("names", metas::bounds(), move |c| {
                let n = match metas::pick(c) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let (vw, sw) = (c.pick(VALUES.len()), c.pick(STREAMS.len()));
                let evs = n.evs();
                let mut got: Vec<Ev> = vec![];
                let r = wrapped(vw, &n, &mut |e| e.run(sw, None, &mut got));
                c.step(evs.len());
                c.outcome(&evs);
                ensure!(r.is_ok(), "{} through {}: failed for {:?}", VALUES[vw], STREAMS[sw], evs);
                ensure!(got == expected(&evs, sw == COMPUTED), "{} through {}: delivered {:?} instead of {:?}", VALUES[vw], STREAMS[sw], got, evs);
                Ok(())
            }),
            suite("sizes", sizes::bounds(thorough, if thorough { 5000 } else { 260 }, 2), move |c| {
                let n = sizes::pick_in(c, if c.thorough { 5000 } else { 260 }, 2);
                let (vw, sw) = (c.pick(VALUES.len()), c.pick(STREAMS.len()));
                let evs = n.evs();
                let mut got: Vec<Ev> = vec![];
                let r = wrapped(vw, &n, &mut |e| e.run(sw, None, &mut got));
                c.step(evs.len());
                c.outcome(&evs);
                ensure!(r.is_ok(), "{} through {}: failed for {:?}", VALUES[vw], STREAMS[sw], evs);
                ensure!(got == expected(&evs, sw == COMPUTED), "{} through {}: delivered {:?} instead of {:?}", VALUES[vw], STREAMS[sw], got, evs);
                Ok(())
            }),
        ],
        assumptions: vec!["a recording stream that overrides every event method is a faithful observer"],
    }
}
