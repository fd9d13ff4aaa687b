//! C02: JSON output carries exactly the data of the value.
use super::c01;
use super::Check;
use crate::engine::*;
use crate::metas;
use crate::sizes;
use crate::ev::*;
use crate::model::*;
use crate::jsonref;

pub fn check_node(c: &mut Ctx, n: &Node) -> Res {
    let evs = n.evs();
    c.step(evs.len());
    let got = sval_json::stream_to_string(n);
    let expected = jsonref::value(n);
    match (got, expected) {
        (Ok(s), Ok(x)) => {
            c.outcome(&s);
            c.describe(|| format!("{:?} => {}", evs, s));
            match jsonref::parse(&s) {
                Ok(j) => {
                    if !jsonref::matches(&x, &j) {
                        fail!("wrong data: wrote {} but expected {:?} for events {:?}", s, x, evs);
                    }
                }
                Err(e) => fail!("not JSON ({}): {} for events {:?}", e, s, evs),
            }
        }
        (Err(_), Err(())) => c.outcome(&1u8),
        (Ok(s), Err(())) => fail!("wrote {} for an inexpressible value, events {:?}", s, evs),
        (Err(e), Ok(x)) => fail!("failed ({}) but expected {:?} for events {:?}", e, x, evs),
    }
    Ok(())
}

fn char_positions(ch: char, pos: usize) -> Node {
    let t = match pos % 3 {
        0 => ch.to_string(),
        1 => format!("a{}b", ch),
        _ => format!("{}{}\"", ch, ch),
    };
    let l = L { text: t.clone(), is_static: false, tag: 0 };
    match pos / 3 {
        0 => Node::text(&t),
        1 => Node::new(Kind::Map(vec![(Node::text(&t), Node::new(Kind::Null))])),
        2 => Node::new(Kind::Record(M::default(), vec![(0, l, Node::text(&t))])),
        3 => Node::new(Kind::Enum(M::default(), Box::new(Node::new(Kind::Tagged(m(0, Some(l), None), Box::new(Node::text(&t))))))),
        _ => Node::new(Kind::Tag(m(0, Some(l), None))),
    }
}

fn in_positions(k: Kind, pos: usize) -> Node {
    let n = Node::new(k);
    match pos {
        0 => n,
        1 => Node::new(Kind::Seq(vec![n.clone(), n])),
        2 => Node::new(Kind::Map(vec![(n.clone(), n)])),
        3 => Node::new(Kind::Record(M::default(), vec![(0, ident("f"), n)])),
        4 => Node::new(Kind::Tuple(M::default(), vec![(0, off(0), n)])),
        _ => Node::new(Kind::Enum(M::default(), Box::new(Node::new(Kind::Tagged(m(0, Some(ident("V")), None), Box::new(n)))))),
    }
}

/// A ready-made document, however it is wrapped, embedded as it is.
fn json_str(c: &mut Ctx, max: usize) -> Res {
    use sval_json::JsonStr;
    let n = *c.of(&sizes::sizes(c.thorough, max));
    let doc = match c.pick(6) {
        0 => format!("\"{}\"", "é\\n".chars().cycle().take(n / 3 * 3).collect::<String>()),
        1 => format!("[{}]", vec!["1"; n].join(",")),
        2 => format!("{}{{\"a\": null }}\n", " ".repeat(n)),
        3 => format!("{}0", "1".repeat(n)),
        4 => format!("{}{}", "[".repeat(n.min(60)), "]".repeat(n.min(60))),
        _ => format!("\"\\\"{}\\\\\"", "\u{7f}\u{2028}".repeat(n)),
    };
    if jsonref::parse(&doc).is_err() {
        return Ok(());
    }
    let boxed: Box<JsonStr>;
    let made = c.pick(4);
    let j: &JsonStr = match made {
        0 => JsonStr::new(&doc),
        1 => doc.as_str().into(),
        2 => {
            boxed = JsonStr::boxed(doc.as_str());
            &boxed
        }
        _ => {
            boxed = doc.clone().into_boxed_str().into();
            &boxed
        }
    };
    c.step(12);
    c.outcome(&doc);
    c.describe(|| format!("{:?}, made in way {}", doc, made));
    let r: &str = j.as_ref();
    let b: &str = std::borrow::Borrow::borrow(j);
    ensure!(j.as_str() == doc && j.as_bytes() == doc.as_bytes() && r == doc && b == doc, "the contents of {:?} are {:?}, {:?}, {:?}, {:?}", doc, j.as_str(), j.as_bytes(), r, b);
    ensure!(*j == *doc.as_str() && *j == *JsonStr::new(&doc), "{:?} is not equal to itself", doc);
    ensure!(*j != *"" && *j != *JsonStr::new(""), "{:?} is equal to nothing", doc);
    for other in [format!("{} ", doc), format!(" {}", doc), doc[1..].to_string(), doc[..doc.len() - 1].to_string()] {
        ensure!(*j != *other.as_str() && *j != *JsonStr::new(&other), "{:?} is equal to {:?}", doc, other);
    }
    ensure!(j.to_string() == doc && format!("{:?}", j) == format!("{:?}", doc), "{:?} displayed as {} and {:?}", doc, j, j);
    let (v, want) = match c.pick(3) {
        0 => (sval_json::stream_to_string(j), doc.clone()),
        1 => (sval_json::stream_to_string([j, j]), format!("[{},{}]", doc, doc)),
        _ => (sval_json::stream_to_string((Some(j), "\"")), format!("[{},\"\\\"\"]", doc)),
    };
    match v {
        Ok(v) if v == want => (),
        v => fail!("{:?} embedded as {:?}", doc, v.ok()),
    }
    // a document written from a value is one
    let w = sval_json::stream_to_json_str(j).map_err(|_| Fail::from(format!("refused {:?}", doc)))?;
    ensure!(*w == *j, "{:?} written again as {:?}", doc, w);
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let g1 = c01::structure_gen();
    let g3 = c01::chain_gen(if thorough { 8 } else { 6 });
    let d3 = g3.depth;
    let nums = number_leaves();
    let mut g2 = Gen::basic();
    g2.leaves = vec![Kind::U8(1)];
    g2.tag_metas = metas8();
    g2.tag_metas.push(m(T_NONE, Some(ident("None")), ix(0)));
    g2.tag_metas.push(m(T_UNIT, None, None));
    g2.tagged_metas = metas8();
    g2.tagged_metas.push(m(T_SOME, Some(ident("Some")), ix(1)));
    g2.tagged_metas.push(m(T_CONST, None, None));
    g2.enum_metas = metas8();
    g2.rec_metas = metas8();
    let b2 = if thorough { 5 } else { 4 };
    Check {
        suites: vec![
            suite("structure", "every value tree of at most 4 (quick) / 5 (thorough) nodes, compared with the reference encoding", move |c| {
                let n = g1.node(c, if c.thorough { 5 } else { 4 });
                check_node(c, &n)
            }),
            suite("metadata", format!("trees of at most {} nodes with all presence combinations of tag/label/index and the built-in tags", b2), move |c| {
                let n = g2.node(c, b2);
                check_node(c, &n)
            }),
            suite("chains", format!("wrapper chains up to depth {}", d3), move |c| {
                let n = g3.node(c, d3 + 1);
                check_node(c, &n)
            }),
            suite("numbers", "boundary numbers of every width in 6 positions", move |c| {
                let k = c.of(&nums).clone();
                let p = c.pick(6);
                let n = in_positions(k, p);
                check_node(c, &n)
            }),
            suite("small-ints", "every u8, i8, u16 and i16", move |c| {
                let w = c.pick(4);
                let hi = c.pick(256);
                for lo in 0..256usize {
                    let v = (hi * 256 + lo) as u16;
                    let k = match w {
                        0 => Kind::U16(v),
                        1 => Kind::I16(v as i16),
                        2 => Kind::U8(v as u8),
                        _ => Kind::I8(v as i8),
                    };
                    check_node(c, &Node::new(k))?;
                }
                Ok(())
            }),
            suite("chars", "every Unicode scalar value in 15 text, key and label positions", move |c| {
                let block = c.pick(0x1100);
                let pos = c.pick(15);
                for lo in 0..0x100u32 {
                    if let Some(ch) = char::from_u32(block as u32 * 0x100 + lo) {
                        let n = char_positions(ch, pos);
                        c.step(3);
                        let s = match sval_json::stream_to_string(&n) {
                            Ok(s) => s,
                            Err(_) => fail!("char {:?} refused", ch),
                        };
                        let ok = jsonref::parse(&s).map(|j| jsonref::matches(&jsonref::value(&n).unwrap(), &j)).unwrap_or(false);
                        if !ok {
                            fail!("char U+{:04X} position {} written as {:?}", ch as u32, pos, s);
                        }
                    }
                }
                c.outcome(&block);
                Ok(())
            }),
            suite("floats32", if thorough { "every f32" } else { "f32: every sign/exponent/high-mantissa combination with 4 low parts" }, move |c| {
                let a = c.pick(256);
                let b = c.pick(256);
                let lows: Vec<u32> = if c.thorough { (0..0x10000).collect() } else { vec![0, 1, 0x5a5a, 0xffff] };
                for lo in lows {
                    let bits = ((a as u32) << 24) | ((b as u32) << 16) | lo;
                    let v = f32::from_bits(bits);
                    let s = sval_json::stream_to_string(v).map_err(|_| Fail::from(format!("f32 {:x} refused", bits)))?;
                    c.step(1);
                    if v.is_finite() {
                        if s.parse::<f32>().map(|x| x.to_bits()) != Ok(bits) || jsonref::parse(&s).is_err() {
                            fail!("f32 bits {:08x} written as {}", bits, s);
                        }
                    } else if s != "null" {
                        fail!("f32 bits {:08x} written as {}", bits, s);
                    }
                }
                c.outcome(&(a, b));
                Ok(())
            }),
            suite("floats64", "f64: every sign/exponent with 64 mantissa patterns", move |c| {
                let se = c.pick(4096) as u64;
                for k in 0..64u64 {
                    let man = match k {
                        0 => 0,
                        1..=52 => 1u64 << (k - 1),
                        53 => (1 << 52) - 1,
                        54 => 0x5555555555555,
                        55 => 0xaaaaaaaaaaaaa,
                        k => (0x9e3779b97f4a7c15u64.wrapping_mul(k)) & ((1 << 52) - 1),
                    };
                    let bits = se << 52 | man;
                    let v = f64::from_bits(bits);
                    let s = sval_json::stream_to_string(v).map_err(|_| Fail::from(format!("f64 {:x} refused", bits)))?;
                    c.step(1);
                    if v.is_finite() {
                        if s.parse::<f64>().map(|x| x.to_bits()) != Ok(bits) || jsonref::parse(&s).is_err() {
                            fail!("f64 bits {:016x} written as {}", bits, s);
                        }
                    } else if s != "null" {
                        fail!("f64 bits {:016x} written as {}", bits, s);
                    }
                }
                c.outcome(&se);
                Ok(())
            }),
            suite("raw", "embedded JSON documents, text and numbers in every position, in every fragmentation with one cut", move |c| {
                const DOCS: &[(u8, &str)] = &[
                    (T_JVALUE, "{\"a\":[1,2.5e3,null],\"b\":\"\\n\"}"),
                    (T_JVALUE, "[]"),
                    (T_JVALUE, "true"),
                    (T_JNUMBER, "-12.5e+3"),
                    (T_JTEXT, "plain é text"),
                    (T_JTEXT, "\\n\\u0041\\\""),
                ];
                let (tag, doc) = *c.of(DOCS);
                let cut = c.pick(doc.len() + 1);
                if !doc.is_char_boundary(cut) {
                    return Ok(());
                }
                let raw = Node::new(Kind::Tagged(m(tag, None, None), Box::new(Node::new(Kind::Text(doc.into(), vec![cut])))));
                let after = Node::text("\"after\"");
                let p = c.pick(4);
                let (n, want) = {
                    let d = if tag == T_JTEXT { format!("\"{}\"", doc) } else { doc.to_string() };
                    let d = jsonref::parse(&d).unwrap();
                    let a = jsonref::J::Str("\"after\"".into());
                    match p {
                        0 => (raw, d),
                        1 => (Node::new(Kind::Seq(vec![raw, after])), jsonref::J::Arr(vec![d, a])),
                        2 => (Node::new(Kind::Record(M::default(), vec![(0, ident("x"), raw), (0, ident("y"), after)])), jsonref::J::Obj(vec![("x".into(), d), ("y".into(), a)])),
                        _ => (Node::new(Kind::Map(vec![(after, raw), (Node::text("z"), Node::text("\u{1}"))])), jsonref::J::Obj(vec![("\"after\"".into(), d), ("z".into(), jsonref::J::Str("\u{1}".into()))])),
                    }
                };
                let s = sval_json::stream_to_string(&n).map_err(|_| Fail::from(format!("refused {:?}", n.evs())))?;
                c.step(n.evs().len());
                c.outcome(&s);
                match jsonref::parse(&s) {
                    Ok(j) if j == want => Ok(()),
                    r => fail!("embedded {:?} written as {} ({:?})", doc, s, r),
                }
            }),
            suite("json-str", "ready-made documents of 6 forms and each size up to 1100 (thorough 5000), made in 4 ways, embedded in 3 places", move |c| json_str(c, if c.thorough { 5000 } else { 1100 })),
            suite("names", metas::bounds(), move |c| {
                let n = match metas::pick(c) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                check_node(c, &n)
            }),
            suite("empty", "trees of at most 4 (thorough: 5) nodes in which tagged values and enums may be empty, with and without labels and indexes", |c| {
                let n = Gen::hollow().node(c, if c.thorough { 5 } else { 4 }).hollow(true);
                check_node(c, &n)
            }),
            suite("sizes", sizes::bounds(thorough, if thorough { 70000 } else { 1100 }, 6), move |c| {
                let n = sizes::pick_in(c, if c.thorough { 70000 } else { 1100 }, 6);
                check_node(c, &n)
            }),
        ],
        assumptions: vec!["numbers are compared by Rust's own correctly rounded float parser", "labels tagged as identifiers are valid identifiers"],
    }
}
