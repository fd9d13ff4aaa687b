//! C13: labels, indexes and tags keep value semantics however they are built.
use super::Check;
use crate::engine::*;
use crate::sizes;
use crate::ev::*;
use crate::mem;
use sval::{Index, Label, Tag};
use std::borrow::Borrow;

const TEXTS: [&str; 4] = ["", "a", "b\u{e9}", "abcdefghijklmnopqrstuvwxyz"];

struct Slot {
    label: Label<'static>,
    text: &'static str,
    is_static: bool,
    owned: bool, // does not depend on the source string
    tag: u8,
}

fn check_slot(s: &Slot, what: &dyn Fn() -> String) -> Res {
    let l = &s.label;
    let stat = l.as_static_str();
    let want_static = if s.is_static { Some(s.text) } else { None };
    if l.as_str().as_bytes() != s.text.as_bytes() || stat != want_static || l.tag().map(tag_id).unwrap_or(0) != s.tag {
        let bytes = l.as_str().as_bytes().to_vec();
        return Err(Fail::from(format!("after {}: label has text {:?} static {:?} tag {:?}, expected {:?} {:?} {}", what(), String::from_utf8_lossy(&bytes), stat, l.tag(), s.text, want_static, s.tag)));
    }
    Ok(())
}

fn history(c: &mut Ctx, depth: usize) -> Res {
    let mut log: Vec<String> = vec![];
    let text = *mem::quietly(|| c.of(&TEXTS));
    let (res, rep) = mem::watch(|| -> Res {
        let mut src: Option<String> = Some(text.to_owned());
        let mut slots: [Option<Slot>; 2] = [None, None];
        for _ in 0..depth {
            let (op, msg): (usize, String) = {
                // which operations are possible now
                let mut ops: [usize; 24] = [0; 24];
                let mut n = 0;
                let mut add = |o: usize| {
                    ops[n] = o;
                    n += 1;
                };
                for i in 0..2 {
                    add(i); // new static
                    add(2 + i); // new owned
                    if src.is_some() {
                        add(4 + i); // new computed
                    }
                    if slots[i].is_some() {
                        add(6 + i); // clone into the other slot
                        add(8 + i); // to_owned into the other slot
                        add(10 + i); // try_to_owned in place
                        add(12 + i); // with_tag
                        add(14 + i); // drop
                    }
                }
                if slots[0].is_some() && slots[1].is_some() {
                    add(16); // swap
                }
                if src.is_some() {
                    add(17); // drop the source
                }
                let op = ops[mem::quietly(|| c.pick(n))];
                (op, String::new())
            };
            drop(msg);
            let i = op & 1;
            let o = 1 - i;
            mem::quietly(|| log.push(format!("{}({})", ["new", "new_owned", "new_computed", "clone", "to_owned", "try_to_owned", "with_tag", "drop", if op == 16 { "swap" } else { "drop source" }][op / 2], i)));
            match op {
                0 | 1 => slots[i] = Some(Slot { label: Label::new(text), text, is_static: true, owned: true, tag: 0 }),
                2 | 3 => slots[i] = Some(Slot { label: Label::new_owned(String::from(text)), text, is_static: false, owned: true, tag: 0 }),
                4 | 5 => {
                    // SAFETY: the harness drops the label before the source
                    let s: &'static str = unsafe { &*(src.as_deref().unwrap() as *const str) };
                    slots[i] = Some(Slot { label: Label::new_computed(s), text, is_static: false, owned: false, tag: 0 })
                }
                6 | 7 => {
                    let s = slots[i].as_ref().unwrap();
                    let n = Slot { label: s.label.clone(), ..*s };
                    slots[o] = Some(n);
                }
                8 | 9 => {
                    let s = slots[i].as_ref().unwrap();
                    let n = Slot { label: s.label.to_owned(), owned: true, ..*s };
                    slots[o] = Some(n);
                }
                10 | 11 => {
                    let s = slots[i].take().unwrap();
                    let l = match s.label.try_to_owned() {
                        Ok(l) => l,
                        Err(_) => return Err(Fail::from("try_to_owned failed with an allocator".to_string())),
                    };
                    slots[i] = Some(Slot { label: l, owned: true, ..s });
                }
                12 | 13 => {
                    let s = slots[i].take().unwrap();
                    let t = if s.tag == T_X { T_IDENT } else { T_X };
                    let Slot { label, text, is_static, owned, .. } = s;
                    slots[i] = Some(Slot { label: label.with_tag(&TAGS[t as usize]), text, is_static, owned, tag: t });
                }
                14 | 15 => slots[i] = None,
                16 => slots.swap(0, 1),
                _ => {
                    for s in slots.iter_mut() {
                        if s.as_ref().map(|s| !s.owned).unwrap_or(false) {
                            *s = None;
                        }
                    }
                    src = None;
                }
            }
            for s in slots.iter().flatten() {
                mem::quietly(|| check_slot(s, &|| format!("{:?}", log)))?;
            }
            if let [Some(a), Some(b)] = &slots {
                if a.label != b.label || hash_of(&a.label) != hash_of(&b.label) {
                    return mem::quietly(|| Err(Fail::from(format!("after {:?}: labels of the same text differ", log))));
                }
            }
        }
        drop(slots);
        drop(src);
        Ok(())
    });
    c.step(depth);
    c.outcome(&(rep.allocated, text));
    c.describe(|| format!("{:?} with text {:?}", log, text));
    res?;
    if !rep.clean() {
        fail!("after {:?} of {:?} and dropping everything: {:?}", log, text, rep);
    }
    Ok(())
}

fn label_of(how: usize, text: &'static str, store: &'static str) -> Label<'static> {
    match how {
        0 => Label::new(text),
        1 => Label::new_computed(store),
        2 => Label::new_owned(text.to_owned()),
        3 => Label::new_owned(text.to_owned()).with_tag(&TAGS[T_X as usize]),
        4 => Label::new(text).to_owned().with_tag(&TAGS[T_Y as usize]),
        5 => Label::new_computed(store).to_owned(),
        6 => Label::new_owned(text.to_owned()).clone(),
        _ => Label::new_computed(store).with_tag(&TAGS[T_IDENT as usize]).clone(),
    }
}

const INDEXES: [i128; 17] = [
    i64::MIN as i128, i64::MIN as i128 + 1, i32::MIN as i128 - 1, i32::MIN as i128, -1, 0, 1, 255, i32::MAX as i128, i32::MAX as i128 + 1,
    u32::MAX as i128, u32::MAX as i128 + 1, i64::MAX as i128 - 1, i64::MAX as i128, i64::MAX as i128 + 1, u64::MAX as i128 - 1, u64::MAX as i128,
];

fn index_of(how: usize, v: i128) -> Option<Index> {
    let ix = match how {
        0 => Index::new(usize::try_from(v).ok()?),
        1 => Index::new_u32(u32::try_from(v).ok()?),
        2 => Index::new_u64(u64::try_from(v).ok()?),
        3 => Index::new_i32(i32::try_from(v).ok()?),
        4 => Index::new_i64(i64::try_from(v).ok()?),
        5 => Index::new_isize(isize::try_from(v).ok()?),
        6 => Index::from(i32::try_from(v).ok()?),
        7 => Index::from(i64::try_from(v).ok()?),
        8 => Index::from(isize::try_from(v).ok()?),
        9 => Index::from(u32::try_from(v).ok()?),
        10 => Index::from(u64::try_from(v).ok()?),
        11 => Index::from(usize::try_from(v).ok()?),
        _ => Index::new_i64(i64::try_from(v).ok()?).with_tag(&TAGS[T_X as usize]).clone(),
    };
    Some(ix)
}

/// Names chosen so that a word-wise multiplicative hash gives the same id to several of them.
fn colliding() -> Vec<&'static str> {
    const K: u64 = 0x517cc1b727220a95;
    let mut v: Vec<String> = (0..=17).map(|n| "\0".repeat(n)).collect();
    v.extend(["\0a", "a\0", "\0\0a", "a\0\0\0", "\0\0\0\0a"].map(String::from));
    let word = |s: &[u8]| u64::from_ne_bytes(s.try_into().unwrap());
    let first = b"abcdefgh";
    let second = word(b"ijklmnop");
    v.push("abcdefghijklmnop".into());
    let base = word(first).wrapping_mul(K).rotate_left(5) ^ second;
    let mut n = 0u32;
    while v.len() < 60 {
        let mut w = *first;
        for (i, b) in w.iter_mut().enumerate().take(6) {
            *b = b' ' + ((n >> (4 * i)) & 15) as u8;
        }
        n += 1;
        let w2 = (base ^ word(&w).wrapping_mul(K).rotate_left(5)).to_ne_bytes();
        if w2.is_ascii() {
            v.push(String::from_utf8([w, w2].concat()).unwrap());
        }
    }
    v.iter().map(|s| &*Box::leak(s.clone().into_boxed_str())).collect()
}
/// The same text at another address.
fn intern2(s: &'static str) -> &'static str {
    static M: std::sync::Mutex<Option<std::collections::HashMap<&'static str, &'static str>>> = std::sync::Mutex::new(None);
    M.lock().unwrap().get_or_insert_with(Default::default).entry(s).or_insert_with(|| Box::leak(s.to_owned().into_boxed_str()))
}

pub fn check(thorough: bool) -> Check {
    let depth = if thorough { 7 } else { 6 };
    let taglen = if thorough { 12 } else { 10 };
    Check {
        suites: vec![
            suite("label-histories", format!("every sequence of {} label operations (build, clone, own, tag, move, drop, drop the source) over two labels, 4 texts, under a watching allocator", depth), move |c| history(c, depth)),
            suite("label-pairs", "every pair of texts x every pair of 8 constructions: equality, hashing, lookup", |c| {
                let texts = ["", "a", "b", "ab", "a\0", "\u{e9}", "A"];
                let (a, b) = (*c.of(&texts), *c.of(&texts));
                let (ha, hb) = (c.pick(8), c.pick(8));
                let (la, lb) = (label_of(ha, a, a), label_of(hb, b, intern(b)));
                c.step(6);
                let same = a == b;
                c.outcome(&same);
                c.describe(|| format!("{:?}/{} vs {:?}/{}", a, ha, b, hb));
                let la_s: &str = la.borrow();
                if (la == lb) != same || (lb == la) != same || la_s != a || (same && hash_of(&la) != hash_of(&lb)) || hash_of(&la) != hash_of(a) {
                    fail!("labels {:?} (construction {}) and {:?} (construction {}) compare or hash wrongly", a, ha, b, hb);
                }
                let mut map = std::collections::HashMap::new();
                map.insert(la, 1);
                if map.contains_key(b) != same || map.contains_key(&lb) != same {
                    fail!("a map keyed by label {:?} answers wrongly for {:?}", a, b);
                }
                Ok(())
            }),
            suite("indexes", "every pair of 17 boundary indexes x every pair of 13 constructions", |c| {
                let (a, b) = (*c.of(&INDEXES), *c.of(&INDEXES));
                let (ha, hb) = (c.pick(13), c.pick(13));
                let (ia, ib) = match (index_of(ha, a), index_of(hb, b)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => return Ok(()),
                };
                c.step(12);
                c.outcome(&(a, a.cmp(&b)));
                c.describe(|| format!("{} vs {}", a, b));
                if (ia == ib) != (a == b) || ia.cmp(&ib) != a.cmp(&b) || ia.partial_cmp(&ib) != Some(a.cmp(&b)) || (a == b && hash_of(&ia) != hash_of(&ib)) {
                    fail!("indexes {} (construction {}) and {} (construction {}) compare or hash wrongly", a, ha, b, hb);
                }
                if ia.to_string() != a.to_string() {
                    fail!("index {} displays as {}", a, ia);
                }
                for (i, ia) in [("", ia.clone()), (" tagged", ia.clone().with_tag(&TAGS[T_OFFSET as usize]))] {
                    if ia.to_i32() != i32::try_from(a).ok() || ia.to_i64() != i64::try_from(a).ok() || ia.to_u32() != u32::try_from(a).ok() || ia.to_u64() != u64::try_from(a).ok() || ia.to_usize() != usize::try_from(a).ok() || ia.to_isize() != isize::try_from(a).ok() {
                        fail!("index {} (construction {}{}) converts wrongly", a, ha, i);
                    }
                    let want = if !i.is_empty() { T_OFFSET } else if ha == 12 { T_X } else { 0 };
                    if ia.tag().map(tag_id).unwrap_or(0) != want {
                        fail!("index {} (construction {}{}) has tag {:?}", a, ha, i, ia.tag());
                    }
                }
                Ok(())
            }),
            suite("tags", format!("every pair of names over {{a,b}} up to length {} differing in at most one position, and all short pairs", taglen), move |c| {
                // a name is its length and a bit per position
                let n = c.pick(taglen + 1);
                let bits = if n == 0 { 0 } else { c.pick(1 << n.min(8)) << n.saturating_sub(8) };
                let name = |n: usize, bits: usize| -> &'static str { intern(&(0..n).map(|i| if bits >> i & 1 == 1 { 'b' } else { 'a' }).collect::<String>()) };
                let a = name(n, bits);
                let how = c.pick(n + 4);
                let b = match how {
                    0 => a.to_owned(),
                    1 => format!("{}a", a),
                    2 => format!("a{}", a),
                    3 => a.chars().rev().collect(),
                    k => {
                        let mut v: Vec<char> = a.chars().collect();
                        v[k - 4] = 'c';
                        v.into_iter().collect()
                    }
                };
                let copy: &'static str = intern(&b);
                let (ta, tb) = (Tag::new(a), Tag::new(copy));
                c.step(3);
                c.outcome(&(a == b));
                c.describe(|| format!("{} vs {}", a, b));
                if (ta == tb) != (a == b) || (tb == ta) != (a == b) || ta.clone() != ta {
                    fail!("tags {:?} and {:?} compare {}", a, b, ta == tb);
                }
                Ok(())
            }),
            suite("tag-pairs", "every pair of names over {a,b,c} up to length 5", |c| {
                let gen = |c: &mut Ctx| -> &'static str {
                    let n = c.pick(6);
                    let s: String = (0..n).map(|_| ['a', 'b', '\u{3}'][c.pick(3)]).collect();
                    intern(&s)
                };
                let (a, b) = (gen(c), gen(c));
                c.step(1);
                c.outcome(&(a == b));
                c.describe(|| format!("{} vs {}", a, b));
                if (Tag::new(a) == Tag::new(b)) != (a == b) {
                    fail!("tags {:?} and {:?} compare {}", a, b, a != b);
                }
                Ok(())
            }),
            suite("tag-collisions", "every pair of 60 distinct names most of which share a hash id with another (zero words, and 16-byte names built to collide): equal only if the same, also as tags of labels and indexes", {
                let names = colliding();
                move |c| {
                    let (a, b) = (*c.of(&names), *c.of(&names));
                    let copy = intern2(b);
                    let (ta, tb) = (Tag::new(a), Tag::new(copy));
                    c.step(3);
                    c.outcome(&(a == b));
                    c.describe(|| format!("{:?} vs {:?}", a, b));
                    if (ta == tb) != (a == b) || (tb == ta) != (a == b) || (ta.clone() == tb.clone()) != (a == b) {
                        fail!("tags {:?} and {:?} compare {}", a, b, ta == tb);
                    }
                    let (la, lb) = (Label::new("l").with_tag(&ta), Index::new(1).with_tag(&tb));
                    if (la.tag() == Some(&tb)) != (a == b) || (lb.tag() == Some(&ta)) != (a == b) {
                        fail!("the tags {:?} and {:?} of a label or index compare {}", a, b, a != b);
                    }
                    Ok(())
                }
            }),
            suite("known-tags", "all pairs of predefined tags are distinct", |c| {
                let (i, j) = (c.pick(TAGS.len()), c.pick(TAGS.len()));
                c.step(1);
                c.describe(|| format!("{:?} vs {:?}", TAGS[i], TAGS[j]));
                c.outcome(&(i == j));
                if (TAGS[i] == TAGS[j]) != (i == j) {
                    fail!("predefined tags {:?} and {:?} are confused", TAGS[i], TAGS[j]);
                }
                Ok(())
            }),
            suite("sizes", "labels and tags of every length up to 70 (thorough 300) and around powers of two, every construction, against the same text and texts differing in one place", move |c| {
                let n = *c.of(&sizes::sizes(c.thorough, if c.thorough { 5000 } else { 1100 }));
                let text: String = "abcdé".chars().cycle().take(n).collect();
                let other = match c.pick(6) {
                    0 => text.clone(),
                    1 => format!("{}x", text),
                    k => {
                        let mut v: Vec<char> = text.chars().collect();
                        if v.is_empty() {
                            return Ok(());
                        }
                        let at = (k - 2) * (v.len() - 1) / 3;
                        v[at] = 'Z';
                        v.into_iter().collect()
                    }
                };
                let (a, b) = (intern(&text), intern(&other));
                let (ha, hb) = (c.pick(8), c.pick(8));
                let (la, lb) = (label_of(ha, a, a), label_of(hb, b, b));
                let same = a == b;
                c.step(8);
                c.outcome(&(n, same));
                c.describe(|| format!("length {}, {} against {}", n, ha, hb));
                for l in [&la, &la.clone(), &la.to_owned(), &la.clone().to_owned()] {
                    ensure!(l.as_str() == a && hash_of(l) == hash_of(a), "a label of {:?} (construction {}) is {:?}", a, ha, l.as_str());
                    ensure!(l.tag().map(tag_id) == la.tag().map(tag_id), "a copy of label {:?} (construction {}) has tag {:?}", a, ha, l.tag());
                    ensure!((*l == lb) == same && (lb == *l) == same, "labels {:?} ({}) and {:?} ({}) compare wrongly", a, ha, b, hb);
                }
                ensure!((sval::Tag::new(a) == sval::Tag::new(b)) == same, "tags {:?} and {:?} compare wrongly", a, b);
                Ok(())
            }),
        ],
        assumptions: vec!["a computed label is dropped before the string it borrows (enforced by Rust lifetimes)"],
    }
}
