//! C03: results do not depend on how text and binary are split into fragments.
use super::c12::casts;
use super::Check;
use crate::consumers::*;
use crate::engine::*;
use crate::ev::*;
use crate::model::*;

pub const CONTEXTS: usize = 11;

fn field(l: &str, v: Vec<Ev>, o: &mut Vec<Ev>) {
    o.push(Ev::RecordValueBegin(0, ident(l)));
    o.extend(v);
    o.push(Ev::RecordValueEnd(0, ident(l)));
}
fn elem(v: Vec<Ev>, o: &mut Vec<Ev>) {
    o.push(Ev::SeqValueBegin);
    o.extend(v);
    o.push(Ev::SeqValueEnd);
}
fn pair(k: Vec<Ev>, v: Vec<Ev>, o: &mut Vec<Ev>) {
    o.push(Ev::MapKeyBegin);
    o.extend(k);
    o.push(Ev::MapKeyEnd);
    o.push(Ev::MapValueBegin);
    o.extend(v);
    o.push(Ev::MapValueEnd);
}

/// A value streamed in some position of another one.
pub fn within(ctx: usize, x: Vec<Ev>) -> Vec<Ev> {
    let one = || vec![Ev::I64(1)];
    let key = || vec![Ev::TextBegin(Some(1)), Ev::Text("k".into(), true), Ev::TextEnd];
    let mut o = vec![];
    match ctx {
        0 => return x,
        1 => {
            o.push(Ev::SeqBegin(Some(3)));
            elem(one(), &mut o);
            elem(x, &mut o);
            elem(key(), &mut o);
            o.push(Ev::SeqEnd);
        }
        2 => {
            o.push(Ev::MapBegin(None));
            pair(x, one(), &mut o);
            pair(key(), one(), &mut o);
            o.push(Ev::MapEnd);
        }
        3 => {
            o.push(Ev::MapBegin(Some(2)));
            pair(key(), x.clone(), &mut o);
            pair(x, key(), &mut o);
            o.push(Ev::MapEnd);
        }
        4 => {
            let mm = m(T_X, Some(ident("R")), None);
            o.push(Ev::RecordBegin(mm.clone(), Some(2)));
            field("a", x, &mut o);
            field("b", key(), &mut o);
            o.push(Ev::RecordEnd(mm));
        }
        5 => {
            let mm = m(0, None, None);
            o.push(Ev::TupleBegin(mm.clone(), Some(1)));
            o.push(Ev::TupleValueBegin(0, off(0)));
            o.extend(x);
            o.push(Ev::TupleValueEnd(0, off(0)));
            o.push(Ev::TupleEnd(mm));
        }
        6 => {
            let (e, v) = (m(0, Some(ident("E")), None), m(0, Some(ident("V")), Some(off(1))));
            o.extend([Ev::EnumBegin(e.clone()), Ev::TaggedBegin(v.clone())]);
            o.extend(x);
            o.extend([Ev::TaggedEnd(v), Ev::EnumEnd(e)]);
        }
        7 => {
            let (e, v) = (m(0, Some(ident("E")), None), m(0, Some(ident("V")), Some(off(1))));
            o.extend([Ev::EnumBegin(e.clone()), Ev::RecordBegin(v.clone(), Some(1))]);
            field("a", x, &mut o);
            o.extend([Ev::RecordEnd(v), Ev::EnumEnd(e)]);
        }
        8 => {
            let v = m(T_SOME, Some(ident("Some")), Some(off(1)));
            o.push(Ev::TaggedBegin(v.clone()));
            o.extend(x);
            o.push(Ev::TaggedEnd(v));
        }
        9 => {
            // a complex key
            let mut k = vec![Ev::SeqBegin(None)];
            elem(one(), &mut k);
            elem(x, &mut k);
            elem(one(), &mut k);
            k.push(Ev::SeqEnd);
            o.push(Ev::MapBegin(None));
            pair(k, one(), &mut o);
            o.push(Ev::MapEnd);
        }
        _ => {
            let mm = m(0, Some(ident("R")), None);
            o.push(Ev::RecordTupleBegin(mm.clone(), Some(1)));
            o.push(Ev::RecordTupleValueBegin(0, ident("a"), off(0)));
            o.push(Ev::MapBegin(Some(1)));
            pair(key(), x, &mut o);
            o.push(Ev::MapEnd);
            o.push(Ev::RecordTupleValueEnd(0, ident("a"), off(0)));
            o.push(Ev::RecordTupleEnd(mm));
        }
    }
    o
}

/// One way of streaming a text or binary value.
pub struct Split {
    cuts: Vec<usize>,
    borrowed: u32,
    sized: bool,
}

impl Split {
    const WHOLE: Split = Split { cuts: vec![], borrowed: 1, sized: true };

    /// Every way to cut at `at` (positions allowed) into at most `max` fragments.
    fn pick(c: &mut Ctx, at: &[usize], max: usize, mixed: bool) -> Split {
        let k = c.pick(max);
        let mut cuts = vec![];
        let mut from = 0;
        for _ in 0..k {
            let i = from + c.pick(at.len() - from);
            cuts.push(at[i]);
            from = i;
        }
        let all = (1u32 << (k + 1)) - 1;
        let borrowed = if mixed {
            c.pick(all as usize + 1) as u32
        } else {
            *c.of(&[all, 0, 1, 2, all - 1])
        };
        Split { cuts, borrowed, sized: c.flag() }
    }
    fn text(&self, t: &str) -> Vec<Ev> {
        let mut o = vec![Ev::TextBegin(if self.sized { Some(t.len()) } else { None })];
        for (i, (a, b)) in pieces(t.len(), &self.cuts).into_iter().enumerate() {
            o.push(Ev::Text(t[a..b].to_owned(), self.borrowed >> i & 1 == 1));
        }
        o.push(Ev::TextEnd);
        o
    }
    fn bin(&self, t: &[u8]) -> Vec<Ev> {
        let mut o = vec![Ev::BinBegin(if self.sized { Some(t.len()) } else { None })];
        for (i, (a, b)) in pieces(t.len(), &self.cuts).into_iter().enumerate() {
            o.push(Ev::Bin(t[a..b].to_owned(), self.borrowed >> i & 1 == 1));
        }
        o.push(Ev::BinEnd);
        o
    }
}

fn boundaries(t: &str) -> Vec<usize> {
    (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect()
}

/// Every consumer makes the same of both.
pub fn same(c: &mut Ctx, got: &Script, want: &Script) -> Res {
    for i in 0..CASTS {
        let (g, w) = (result(i, got), result(i, want));
        if g != w {
            fail!("{} gives {} for {:?} but {} for {:?}", NAMES[i], g, got.0, w, want.0);
        }
        if i == 0 || i == 9 {
            c.outcome(&w);
        }
    }
    c.step(got.0.len() * CASTS);
    c.describe(|| format!("{:?} => {}", got.0, result(0, got)));
    Ok(())
}

fn check_split(c: &mut Ctx, ctx: usize, wrap: Option<u8>, got: Vec<Ev>, whole: Vec<Ev>) -> Res {
    let w = |x: Vec<Ev>| match wrap {
        Some(t) => {
            let mut o = vec![Ev::TaggedBegin(m(t, None, None))];
            o.extend(x);
            o.push(Ev::TaggedEnd(m(t, None, None)));
            o
        }
        None => x,
    };
    let (got, want) = (Script(within(ctx, w(got))), Script(within(ctx, w(whole))));
    same(c, &got, &want)?;
    // a cast may be refused for a text in pieces, but never answer with something else
    let (mut g, w) = (casts(&got), casts(&want));
    if g.text.is_none() {
        g.text = w.text.clone();
    }
    if g.binary.is_none() {
        g.binary = w.binary.clone();
    }
    if g != w {
        fail!("casts give {:?} for {:?} but {:?} for {:?}", g, got.0, w, want.0);
    }
    Ok(())
}

const CHARS: [&str; 8] = ["a", "\"", "é", "1", "\n", "\u{1f}", "𝄞", "\\"];
const NUMBERS: [&str; 12] = ["0", "-0", "12", "-012.50", "1e5", "00.10E-3", "+1.5", "NaN", "-inf", "0e0", "-1.0e+10", "123456789012345678901234567890"];
const RAW: [(u8, &str); 6] = [(T_JVALUE, "{\"a\":[1,\"é\"]}"), (T_JVALUE, "null"), (T_JTEXT, "a\\n\\u00e9é"), (T_JNUMBER, "-1.5e10"), (T_JTEXT, ""), (T_JVALUE, "[ ]")];

pub fn check(thorough: bool) -> Check {
    let (len, alpha) = if thorough { (4, 6) } else { (3, 6) };
    let parts = if thorough { 4 } else { 3 };
    let lens: &'static [usize] = if thorough { &[3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025] } else { &[8, 17, 32, 65, 129, 257] };
    let spread = if thorough { 12 } else { 5 };
    Check {
        suites: vec![
            suite("text", format!("every text of at most {} of {} characters (quotes, escapes, controls, 1-4 byte), in every way of cutting it into at most {} fragments (empty ones included), borrowed and computed, announced or not, in {} positions, {} consumers and all casts", len, alpha, parts, CONTEXTS, NAMES.len()), move |c| {
                let n = c.pick(len + 1);
                let mut t = String::new();
                for _ in 0..n {
                    t.push_str(c.of(&CHARS[..alpha]));
                }
                let s = Split::pick(c, &boundaries(&t), parts, false);
                let ctx = c.pick(CONTEXTS);
                check_split(c, ctx, None, s.text(&t), Split::WHOLE.text(&t))
            }),
            suite("mixed", format!("texts of at most {} fragments with every choice of borrowed and computed fragments", parts + 1), move |c| {
                let t = *c.of(&["", "a", "\"é", "𝄞\n"]);
                let s = Split::pick(c, &boundaries(t), parts + 1, true);
                let ctx = c.pick(CONTEXTS);
                check_split(c, ctx, None, s.text(t), Split::WHOLE.text(t))
            }),
            suite("long", format!("texts and binaries of {} lengths up to {} units cut at every pair of positions out of {} spread ones", lens.len(), lens[lens.len() - 1], spread), move |c| {
                let n = *c.of(lens);
                let unit = *c.of(&["a", "\"", "é", "\n"]);
                let t = unit.repeat(n);
                let mut at: Vec<usize> = (0..=spread).map(|i| t.len() * i / spread).map(|i| i / unit.len() * unit.len()).collect();
                at.dedup();
                let s = Split::pick(c, &at, 3, false);
                let ctx = *c.of(&[0usize, 1, 2, 6]);
                if c.flag() {
                    check_split(c, ctx, None, s.text(&t), Split::WHOLE.text(&t))
                } else {
                    check_split(c, ctx, None, s.bin(t.as_bytes()), Split::WHOLE.bin(t.as_bytes()))
                }
            }),
            suite("binary", format!("every byte string of at most {} of 4 bytes in every way of cutting it into at most {} fragments", len, parts), move |c| {
                let n = c.pick(len + 1);
                let t: Vec<u8> = (0..n).map(|_| *c.of(&[0u8, 34, 128, 255])).collect();
                let at: Vec<usize> = (0..=n).collect();
                let s = Split::pick(c, &at, parts, true);
                let ctx = c.pick(CONTEXTS);
                check_split(c, ctx, None, s.bin(&t), Split::WHOLE.bin(&t))
            }),
            suite("numbers", format!("12 arbitrary-precision numbers in every way of cutting them into at most {} fragments", parts), move |c| {
                let t = *c.of(&NUMBERS);
                let s = Split::pick(c, &boundaries(t), parts, false);
                let ctx = c.pick(CONTEXTS);
                check_split(c, ctx, Some(T_NUMBER), s.text(t), Split::WHOLE.text(t))
            }),
            suite("raw", format!("6 raw JSON fragments in every way of cutting them into at most {} fragments", parts), move |c| {
                let (tag, t) = *c.of(&RAW);
                let s = Split::pick(c, &boundaries(t), parts, false);
                let ctx = c.pick(CONTEXTS);
                check_split(c, ctx, Some(tag), s.text(t), Split::WHOLE.text(t))
            }),
            suite("trees", "every value tree of at most 4 nodes with cut texts and binaries, against the same tree with whole ones", move |c| {
                let mut g = Gen::basic();
                g.leaves = vec![Kind::Text("a\"é".into(), vec![1, 1, 2]), Kind::Bin(vec![7, 200], vec![0, 1]), Kind::I64(1)];
                let b = if c.thorough { 4 } else { 3 };
                let st = *c.of(&Style::SHORT);
                let n = g.node(c, b).styled(st);
                let got = n.evs();
                let whole = canon(&got, Canon { hints: true, borrow: false, label_static: true, sizes: true });
                same(c, &Script(got), &Script(whole))
            }),
        ],
        assumptions: vec!["an announced length, when given, is right", "a cast may be refused for a value streamed in pieces, but never answers with other data"],
    }
}
