//! C20: reference-streaming equals ordinary streaming and keeps borrows.
use super::Check;
use crate::engine::*;
use crate::metas;
use crate::sizes;
use crate::ev::*;
use crate::model::*;
use crate::types::*;
use sval::{Result, Value};
use sval_buffer::{BinaryBuf, TextBuf, ValueBuf};
use sval_ref::{Ref, ValueRef};

/// Records events, and the addresses of what is delivered as borrowed.
#[derive(Default, Clone, PartialEq, Debug)]
pub struct Addr {
    pub evs: Vec<Ev>,
    pub ptrs: Vec<(usize, usize)>,
}
impl Sink for Addr {
    fn ev(&mut self, e: Ev) -> Result {
        self.evs.push(e);
        Ok(())
    }
    fn borrowed(&mut self, p: *const u8, n: usize) {
        if n > 0 {
            self.ptrs.push((p as usize, n))
        }
    }
}

fn direct<V: Value + ?Sized>(v: &V) -> std::result::Result<Addr, Fail> {
    let mut s = Full(Addr::default());
    if v.stream(&mut s).is_err() {
        return Err(Fail::from("streaming failed".to_string()));
    }
    Ok(s.0)
}

fn by_ref<'s, V: ValueRef<'s> + ?Sized>(v: &V, how: usize) -> std::result::Result<Addr, Fail> {
    let mut s = Full(Addr::default());
    let r = match how {
        0 => v.stream_ref(&mut s),
        1 => sval_ref::stream_ref(&mut s, v),
        2 => (&&v).stream_ref(&mut s),
        _ => Box::new(v).stream_ref(&mut s),
    };
    if r.is_err() {
        return Err(Fail::from("streaming by reference failed".to_string()));
    }
    Ok(s.0)
}

/// `src` is how the elements stream from the original memory.
fn check_ref<'s, V: ValueRef<'s> + ?Sized>(c: &mut Ctx, name: &str, v: &V, want: &Addr) -> Res {
    for how in 0..4 {
        let got = by_ref(v, how)?;
        c.step(got.evs.len());
        if how == 0 {
            c.outcome(&got.evs);
            c.describe(|| format!("{}: {:?}", name, got.evs));
        }
        if got.evs != want.evs {
            fail!("{} (way {}): streamed by reference {:?} instead of {:?}", name, how, got.evs, want.evs);
        }
        if got.ptrs != want.ptrs {
            fail!("{} (way {}): streamed by reference, the borrowed data of {:?} is not the original memory", name, how, got.evs);
        }
    }
    let got = direct(v)?;
    if got.evs != want.evs {
        fail!("{}: streamed {:?} instead of {:?}", name, got.evs, want.evs);
    }
    if got.ptrs != want.ptrs {
        fail!("{}: the borrowed data of {:?} is not the original memory", name, got.evs);
    }
    Ok(())
}

fn seq_of(parts: &[Addr], constant: bool) -> Addr {
    let mut a = Addr::default();
    if constant {
        a.evs.push(Ev::TaggedBegin(m(T_CONST, None, None)));
    }
    a.evs.push(Ev::SeqBegin(Some(parts.len())));
    for p in parts {
        a.evs.push(Ev::SeqValueBegin);
        a.evs.extend(p.evs.iter().cloned());
        a.evs.push(Ev::SeqValueEnd);
        a.ptrs.extend(&p.ptrs);
    }
    a.evs.push(Ev::SeqEnd);
    if constant {
        a.evs.push(Ev::TaggedEnd(m(T_CONST, None, None)));
    }
    a
}
fn tuple_of(parts: &[Addr]) -> Addr {
    let mut a = Addr::default();
    a.evs.push(Ev::TupleBegin(M::default(), Some(parts.len())));
    for (i, p) in parts.iter().enumerate() {
        a.evs.push(Ev::TupleValueBegin(0, off(i as i128)));
        a.evs.extend(p.evs.iter().cloned());
        a.evs.push(Ev::TupleValueEnd(0, off(i as i128)));
        a.ptrs.extend(&p.ptrs);
    }
    a.evs.push(Ev::TupleEnd(M::default()));
    a
}

struct Go;
impl Visit for Go {
    type Out = Res;
    fn visit<T: Model>(&mut self, name: &'static str, c: &mut Ctx) -> Res {
        let v = T::dom(c);
        let want = direct(&v)?;
        check_ref(c, name, &Ref::new(&v), &want)?;
        check_ref(c, name, &sval_ref::to_ref(&v), &want)?;
        check_ref(c, name, Ref::new_borrowed(&&v), &want)?;
        let w = c.pick(3);
        match w {
            0 => check_ref(c, name, &[Ref::new(&v), Ref::new(&v)], &seq_of(&[want.clone(), want.clone()], true)),
            1 => check_ref(c, name, &vec![Ref::new(&v)], &seq_of(&[want.clone()], false)),
            _ => check_ref(c, name, &(Ref::new(&v), Box::new(Ref::new(&v))), &tuple_of(&[want.clone(), want.clone()])),
        }
    }
}

fn containers(c: &mut Ctx, nodes: &[Node], wants: &[Addr]) -> Res {
    let n = nodes.len();
    let r: Vec<Ref<&Node>> = nodes.iter().map(Ref::new).collect();
    match c.pick(9) {
        0 => check_ref(c, "slice", r.as_slice(), &seq_of(wants, false)),
        1 => check_ref(c, "Vec", &r, &seq_of(wants, false)),
        2 => {
            let w = seq_of(wants, true);
            match n {
                0 => check_ref(c, "array", &<[Ref<&Node>; 0]>::default(), &w),
                1 => check_ref(c, "array", &[r[0]], &w),
                2 => check_ref(c, "array", &[r[0], r[1]], &w),
                _ => check_ref(c, "array", &[r[0], r[1], r[2]], &seq_of(&wants[..3], true)),
            }
        }
        3 => {
            let b: Vec<Box<Ref<&Node>>> = r.iter().map(|x| Box::new(*x)).collect();
            check_ref(c, "Vec<Box>", &b, &seq_of(wants, false))
        }
        4 => {
            let b: Vec<&Ref<&Node>> = r.iter().collect();
            check_ref(c, "Vec<&>", &b, &seq_of(wants, false))
        }
        5 => {
            let b: Box<[Ref<&Node>]> = r.clone().into_boxed_slice();
            check_ref(c, "Box<[]>", &b, &seq_of(wants, false))
        }
        6 => {
            let b = vec![r.clone(), vec![], r.clone()];
            check_ref(c, "Vec<Vec>", &b, &seq_of(&[seq_of(wants, false), seq_of(&[], false), seq_of(wants, false)], false))
        }
        7 => {
            let t = (r.as_slice(), r.clone());
            check_ref(c, "(slice, Vec)", &t, &tuple_of(&[seq_of(wants, false), seq_of(wants, false)]))
        }
        _ => {
            if n == 0 {
                return Ok(());
            }
            let t = [(r[0], r[n - 1]), (r[n - 1], r[0])];
            let (a, z) = (wants[0].clone(), wants[n - 1].clone());
            check_ref(c, "[(_, _); 2]", &t, &seq_of(&[tuple_of(&[a.clone(), z.clone()]), tuple_of(&[z, a])], true))
        }
    }
}

/// Arrays: their length is part of the type.
fn arrays(c: &mut Ctx) -> Res {
    macro_rules! arrays { ($($n:literal)*) => {{
        let n: usize = *c.of(&[$($n),*]);
        let nodes: Vec<Node> = (0..n).map(|i| if i % 2 == 0 { Node::text(&format!("t{}", i)) } else { Node::new(Kind::U32(i as u32)) }).collect();
        let w: Vec<Addr> = nodes.iter().map(|n| direct(n)).collect::<std::result::Result<_, _>>()?;
        let r: Vec<Ref<&Node>> = nodes.iter().map(Ref::new).collect();
        let want = seq_of(&w, true);
        match n {
            $($n => {
                let a: &[Ref<&Node>; $n] = r.as_slice().try_into().unwrap();
                check_ref(c, concat!("array of ", $n), a, &want)
            })*
            _ => unreachable!(),
        }
    }}; }
    arrays!(0 1 2 3 4 5 6 7 8 9 10 12 15 16 17 20 24 31 32 33 34 48 63 64 65 100 127 128 129 255 256 257 300)
}

fn tuples(c: &mut Ctx) -> Res {
    let n = 1 + c.pick(16);
    let which = c.pick(2);
    // distinct values in every place, texts or numbers
    let nodes: Vec<Node> = (0..16).map(|i| if (i + which) % 2 == 0 { Node::text(&format!("t{}", i)) } else { Node::new(Kind::U32(i as u32)) }).collect();
    let w: Vec<Addr> = nodes.iter().map(|n| direct(n)).collect::<std::result::Result<_, _>>()?;
    let want = tuple_of(&w[..n]);
    let r: Vec<Ref<&Node>> = nodes.iter().map(Ref::new).collect();
    macro_rules! t { ($($len:literal: $($i:literal)*;)*) => { match n { $($len => check_ref(c, concat!("tuple of ", $len), &($(r[$i],)*), &want),)* _ => unreachable!() } }; }
    t! {
        1: 0;
        2: 0 1;
        3: 0 1 2;
        4: 0 1 2 3;
        5: 0 1 2 3 4;
        6: 0 1 2 3 4 5;
        7: 0 1 2 3 4 5 6;
        8: 0 1 2 3 4 5 6 7;
        9: 0 1 2 3 4 5 6 7 8;
        10: 0 1 2 3 4 5 6 7 8 9;
        11: 0 1 2 3 4 5 6 7 8 9 10;
        12: 0 1 2 3 4 5 6 7 8 9 10 11;
        13: 0 1 2 3 4 5 6 7 8 9 10 11 12;
        14: 0 1 2 3 4 5 6 7 8 9 10 11 12 13;
        15: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14;
        16: 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15;
    }
}

/// What a buffer of the value must stream: texts whole, and borrowed when they were one borrowed fragment.
fn buffered(a: &Addr) -> Addr {
    let mut o = Addr::default();
    let mut ptrs = a.ptrs.iter();
    let mut i = 0;
    while i < a.evs.len() {
        let e = &a.evs[i];
        i += 1;
        match e {
            Ev::TextBegin(_) => {
                let (mut t, mut all, mut n, mut got) = (String::new(), true, 0, vec![]);
                while let Ev::Text(s, b) = &a.evs[i] {
                    t.push_str(s);
                    if !s.is_empty() {
                        all &= *b;
                        n += 1;
                        if *b {
                            got.push(*ptrs.next().unwrap());
                        }
                    }
                    i += 1;
                }
                i += 1;
                let b = all && n <= 1;
                if b {
                    o.ptrs.extend(got);
                }
                o.evs.extend([Ev::TextBegin(Some(t.len())), Ev::Text(t, b), Ev::TextEnd]);
            }
            Ev::BinBegin(_) => {
                let (mut t, mut all, mut n, mut got) = (vec![], true, 0, vec![]);
                while let Ev::Bin(s, b) = &a.evs[i] {
                    t.extend(s);
                    if !s.is_empty() {
                        all &= *b;
                        n += 1;
                        if *b {
                            got.push(*ptrs.next().unwrap());
                        }
                    }
                    i += 1;
                }
                i += 1;
                let b = all && n <= 1;
                if b {
                    o.ptrs.extend(got);
                }
                o.evs.extend([Ev::BinBegin(Some(t.len())), Ev::Bin(t, b), Ev::BinEnd]);
            }
            e => o.evs.push(e.clone()),
        }
    }
    o
}

/// Borrowed is required where the original memory holds the text whole; elsewhere it is not possible.
fn check_buffer<'s, V: ValueRef<'s>>(c: &mut Ctx, name: &str, v: &V, want: &Addr) -> Res {
    let relax = |mut v: Vec<Ev>| {
        for e in v.iter_mut() {
            match e {
                Ev::Text(t, b) if t.is_empty() => *b = true,
                Ev::Bin(t, b) if t.is_empty() => *b = true,
                _ => (),
            }
        }
        v
    };
    let whole = relax(canon(&want.evs, Canon { hints: true, borrow: true, label_static: true, sizes: true }));
    for how in 0..4 {
        let got = by_ref(v, how)?;
        c.step(got.evs.len());
        if how == 0 {
            c.outcome(&got.evs);
            c.describe(|| format!("{}: {:?}", name, got.evs));
        }
        let g = relax(canon(&got.evs, Canon { hints: true, borrow: true, label_static: true, sizes: true }));
        if g != whole {
            fail!("{} (way {}): streamed by reference {:?} instead of {:?}", name, how, got.evs, want.evs);
        }
        if got.ptrs != want.ptrs {
            fail!("{} (way {}): streamed by reference, the borrowed data of {:?} is not the original memory", name, how, got.evs);
        }
    }
    // ordinary streaming: the same data
    let d = direct(v)?;
    let strip = |e: &[Ev]| canon(e, Canon { hints: true, borrow: false, label_static: true, sizes: true });
    if strip(&d.evs) != strip(&want.evs) {
        fail!("{}: streamed {:?} instead of {:?}", name, d.evs, want.evs);
    }
    Ok(())
}

fn value_buffers(c: &mut Ctx, n: &Node) -> Res {
    let a = direct(n)?;
    let want = buffered(&a);
    let e = |e: sval_buffer::Error| Fail::from(format!("collecting {:?} failed: {}", n, e));
    match c.pick(7) {
        0 => check_buffer(c, "ValueBuf::collect", &ValueBuf::collect(n).map_err(e)?, &want),
        1 => check_buffer(c, "Value::collect", &sval_buffer::Value::collect(n).map_err(e)?, &want),
        2 => {
            let b = ValueBuf::collect(n).map_err(e)?.to_value();
            check_buffer(c, "to_value", &b, &want)
        }
        3 => {
            let b = sval_buffer::Value::collect(n).map_err(e)?;
            let d = b.clone();
            drop(b);
            check_buffer(c, "Value::clone", &d, &want)
        }
        4 => {
            // buffer a buffer, by reference: borrows of the original are kept
            let b = ValueBuf::collect(n).map_err(e)?;
            let mut again = ValueBuf::new();
            if b.stream_ref(&mut again).is_err() {
                fail!("stream_ref into a buffer failed for {:?}", n);
            }
            drop(b);
            check_buffer(c, "buffer of a buffer", &again, &want)
        }
        5 => {
            let b = vec![ValueBuf::collect(n).map_err(e)?.into_value()];
            check_buffer(c, "Vec<Value>", &b, &seq_of(&[want], false))
        }
        _ => {
            let b = (ValueBuf::collect(n).map_err(e)?, Ref::new(n));
            // the second part is not buffered, so its fragments are as streamed
            check_buffer(c, "(ValueBuf, Ref)", &b, &tuple_of(&[want, a]))
        }
    }
}

fn fragment_buffers(c: &mut Ctx, depth: usize) -> Res {
    let src = String::from("abé\u{1F600}z");
    let pieces = [&src[0..0], &src[0..2], &src[2..4], &src[4..]];
    let bin = c.flag();
    let mut log = vec![];
    let mut t = TextBuf::new();
    let mut b = BinaryBuf::new();
    let mut text = String::new();
    // the one borrowed fragment the buffer consists of
    let mut whole: Option<(usize, usize)> = Some((0, 0));
    let n = c.pick(depth + 1);
    for _ in 0..n {
        let op = c.pick(9);
        log.push(op);
        if op == 8 {
            t.clear();
            b.clear();
            text.clear();
            whole = Some((0, 0));
            continue;
        }
        let p = pieces[op % 4];
        let r = if op < 4 {
            if p.is_empty() && !text.is_empty() {
                // joining may copy, even with nothing: then nothing is required
                whole = None;
            } else if !p.is_empty() {
                whole = if text.is_empty() && whole.is_some() { Some((p.as_ptr() as usize, p.len())) } else { None };
            }
            if bin { b.push_fragment(p.as_bytes()).is_ok() } else { t.push_fragment(p).is_ok() }
        } else {
            let tmp = p.to_owned();
            // a computed empty fragment may turn the buffer into an owned one: then nothing is required
            whole = None;
            if bin { b.push_fragment_computed(tmp.as_bytes()).is_ok() } else { t.push_fragment_computed(&tmp).is_ok() }
        };
        if !r {
            fail!("pushing fragments {:?} failed", log);
        }
        text.push_str(p);
    }
    let must = whole.is_some_and(|w| w.1 > 0 || n == 0 || text.is_empty());
    let run = |v: &dyn Fn(usize) -> std::result::Result<Addr, Fail>, c: &mut Ctx| -> Res {
        for how in 0..5 {
            let got = v(how)?;
            c.step(got.evs.len());
            c.outcome(&(&got.evs, &log));
            c.describe(|| format!("pushes {:?}: {:?}", log, got.evs));
            let g = canon(&got.evs, Canon::DATA);
            let w = if bin { vec![Ev::BinBegin(Some(text.len())), Ev::Bin(text.clone().into_bytes(), false), Ev::BinEnd] } else { vec![Ev::TextBegin(Some(text.len())), Ev::Text(text.clone(), false), Ev::TextEnd] };
            if g != w {
                fail!("after pushes {:?} (way {}): streamed {:?} instead of {:?}", log, how, got.evs, w);
            }
            // ordinary streaming (way 4) may borrow from the buffer itself
            let borrowed: Vec<_> = whole.iter().filter(|w| w.1 > 0).cloned().collect();
            if how < 4 && must && got.ptrs != borrowed {
                fail!("after pushes {:?} (way {}): the data {:?} is not borrowed from the original memory", log, how, got.evs);
            }
            if how < 4 {
                let (lo, hi) = (src.as_ptr() as usize, src.as_ptr() as usize + src.len());
                if got.ptrs.iter().any(|p| p.0 < lo || p.0 + p.1 > hi) {
                    fail!("after pushes {:?} (way {}): borrowed data {:?} outside the source", log, how, got.evs);
                }
            }
        }
        Ok(())
    };
    if bin {
        run(&|how| if how == 4 { direct(&b) } else { by_ref(&b, how) }, c)
    } else {
        run(&|how| if how == 4 { direct(&t) } else { by_ref(&t, how) }, c)
    }
}

pub fn check(thorough: bool) -> Check {
    let mut g = Gen::basic();
    g.leaves.push(Kind::Text("abcd".into(), vec![0, 2, 4]));
    g.leaves.push(Kind::Bin(vec![9, 8, 7], vec![1]));
    g.leaves.push(Kind::Text("".into(), vec![]));
    let (g2, g3) = (g.clone(), g.clone());
    let b = if thorough { 4 } else { 3 };
    let vb = b + 1;
    let kids = if thorough { 3 } else { 2 };
    let depth = if thorough { 6 } else { 4 };
    Check {
        suites: vec![
            suite("types", format!("{} built-in types, all enumerated instances, alone and in containers", NAMES.len()), |c| {
                let i = c.pick(NAMES.len());
                visit(&mut Go, i, c)
            }),
            suite("values", format!("every tree of at most {} nodes in 12 styles, streamed by reference", vb), move |c| {
                let n = g.node(c, vb).styled(*c.of(&Style::ALL));
                let want = direct(&n)?;
                if want.evs != n.evs() {
                    fail!("harness: {:?} streamed {:?}", n, want.evs);
                }
                check_ref(c, "Ref", &Ref::new(&n), &want)
            }),
            suite("containers", format!("9 container shapes of at most {} referenced trees of at most 2 nodes", kids), move |c| {
                let k = c.pick(kids + 1);
                let budget = if k > 1 { 1 } else { 2 };
                let nodes: Vec<Node> = (0..k).map(|_| g2.node(c, budget)).collect();
                let st = *c.of(&Style::SHORT);
                let nodes: Vec<Node> = nodes.into_iter().map(|n| n.styled(st)).collect();
                let w = nodes.iter().map(|n| direct(n)).collect::<std::result::Result<Vec<_>, _>>()?;
                containers(c, &nodes, &w)
            }),
            suite("tuples", "tuples of 1 to 16 references to distinct values", tuples),
            suite("arrays", "arrays of 33 lengths up to 300", arrays),
            suite("container-sizes", "9 container shapes of each size up to 300 (thorough: 1100)", move |c| {
                let n = *c.of(&sizes::sizes(c.thorough, if c.thorough { 1100 } else { 300 }));
                let nodes: Vec<Node> = (0..n).map(|i| if i % 2 == 0 { Node::text(&format!("t{}", i)) } else { Node::new(Kind::U32(i as u32)) }).collect();
                let w = nodes.iter().map(|n| direct(n)).collect::<std::result::Result<Vec<_>, _>>()?;
                containers(c, &nodes, &w)
            }),
            suite("value-buffers", format!("every tree of at most {} nodes in 4 styles, buffered and streamed by reference in 7 ways", b), move |c| {
                let n = g3.node(c, b).styled(*c.of(&Style::SHORT));
                value_buffers(c, &n)
            }),
            suite("fragment-buffers", format!("every history of at most {} pushes (borrowed, computed, empty) and clears of text and binary buffers", depth), move |c| fragment_buffers(c, depth)),
            suite("names", metas::bounds(), move |c| {
                let n = match metas::pick(c) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let n = n.styled(*c.of(&[Style::DEFAULT, Style::SHORT[3]]));
                let want = direct(&n)?;
                if c.flag() {
                    check_ref(c, "Ref", &Ref::new(&n), &want)
                } else {
                    value_buffers(c, &n)
                }
            }),
            suite("sizes", sizes::bounds(thorough, if thorough { 70000 } else { 1100 }, 2), move |c| {
                let n = sizes::pick_in(c, if c.thorough { 70000 } else { 1100 }, 2);
                let n = n.styled(*c.of(&[Style::DEFAULT, Style::SHORT[3]]));
                let want = direct(&n)?;
                if c.flag() {
                    check_ref(c, "Ref", &Ref::new(&n), &want)
                } else {
                    value_buffers(c, &n)
                }
            }),
        ],
        assumptions: vec!["empty texts and binaries are not compared for being borrowed"],
    }
}
