//! C18: flattening inlines exactly the fields of the flattened value.
use super::Check;
use crate::engine::*;
use crate::metas;
use crate::sizes;
use crate::ev::*;
use crate::model::*;
use sval::{Stream, Value};

pub use crate::around::*;

/// An entry of the surrounding container.
#[derive(Clone, Debug)]
pub struct Entry {
    pub tag: u8,
    pub label: L,
    /// the key of a flattened map
    pub key: Option<Node>,
    pub index: I,
    pub value: Node,
}

/// How a key reads as a field name.
fn stringify(n: &Node, o: &mut String) {
    let meta = |m: &M, o: &mut String| match (&m.label, &m.index) {
        (Some(l), _) => o.push_str(&l.text),
        (_, Some(i)) => o.push_str(&i.val.to_string()),
        _ => o.push_str("null"),
    };
    match &n.k {
        Kind::Hole => (),
        Kind::Null => o.push_str("null"),
        Kind::Bool(v) => o.push_str(&v.to_string()),
        Kind::U8(v) => o.push_str(&v.to_string()),
        Kind::U16(v) => o.push_str(&v.to_string()),
        Kind::U32(v) => o.push_str(&v.to_string()),
        Kind::U64(v) => o.push_str(&v.to_string()),
        Kind::U128(v) => o.push_str(&v.to_string()),
        Kind::I8(v) => o.push_str(&v.to_string()),
        Kind::I16(v) => o.push_str(&v.to_string()),
        Kind::I32(v) => o.push_str(&v.to_string()),
        Kind::I64(v) => o.push_str(&v.to_string()),
        Kind::I128(v) => o.push_str(&v.to_string()),
        // only used with values that have one notation
        Kind::F32(v) => o.push_str(&format!("{:?}", v)),
        Kind::F64(v) => o.push_str(&format!("{:?}", v)),
        Kind::Text(s, _) => o.push_str(s),
        Kind::Bin(b, _) => b.iter().for_each(|b| o.push_str(&b.to_string())),
        Kind::Map(v) => v.iter().for_each(|(k, x)| {
            stringify(k, o);
            stringify(x, o);
        }),
        Kind::Seq(v) => v.iter().for_each(|x| stringify(x, o)),
        Kind::Tag(m) => meta(m, o),
        Kind::Tagged(_, x) | Kind::Enum(_, x) => stringify(x, o),
        Kind::Record(_, v) => v.iter().for_each(|f| {
            o.push_str(&f.1.text);
            stringify(&f.2, o);
        }),
        Kind::RecordTuple(_, v) => v.iter().for_each(|f| {
            o.push_str(&f.1.text);
            stringify(&f.3, o);
        }),
        Kind::Tuple(_, v) => v.iter().for_each(|f| stringify(&f.2, o)),
    }
}

fn computed(t: &str) -> L {
    L { text: t.into(), is_static: false, tag: 0 }
}

/// The entries a value contributes, and the offset after them.
pub fn entries(n: &Node, offset: i128) -> (Vec<Entry>, i128) {
    let mut out = vec![];
    let mut cur = offset;
    let mut alloc = |incoming: Option<&I>| {
        let i = match incoming {
            Some(i) if i.tag == T_OFFSET => I { val: i.val + offset, tag: T_OFFSET },
            Some(i) => i.clone(),
            None => I { val: cur, tag: T_OFFSET },
        };
        cur = i.val + 1;
        i
    };
    let short = |p: &Node, x: &Node| {
        if p.st.child == Child::Computed { x.clone().styled(Style { borrowed: false, ..x.st }) } else { x.clone() }
    };
    let mut root = n.clone();
    let mut in_enum = false;
    loop {
        match root.k.clone() {
            Kind::Enum(_, x) => {
                in_enum = true;
                root = short(&root, &x);
            }
            Kind::Tagged(_, x) if !in_enum => root = short(&root, &x),
            _ => break,
        }
    }
    let p = &root;
    match &p.k {
        Kind::Tagged(m, x) => {
            let index = alloc(m.index.as_ref());
            let label = m.label.clone().unwrap_or_else(|| computed(&index.val.to_string()));
            out.push(Entry { tag: 0, label, key: None, index, value: short(p, x) });
        }
        Kind::Map(v) => {
            for (k, x) in v {
                let mut s = String::new();
                stringify(k, &mut s);
                out.push(Entry { tag: 0, label: computed(&s), key: Some(short(p, k)), index: alloc(None), value: short(p, x) });
            }
        }
        Kind::Seq(v) => {
            for x in v {
                let index = alloc(None);
                out.push(Entry { tag: 0, label: computed(&index.val.to_string()), key: None, index, value: short(p, x) });
            }
        }
        Kind::Record(_, v) => {
            for (t, l, x) in v {
                out.push(Entry { tag: *t, label: l.clone(), key: None, index: alloc(None), value: short(p, x) });
            }
        }
        Kind::Tuple(_, v) => {
            for (t, i, x) in v {
                let index = alloc(Some(i));
                out.push(Entry { tag: *t, label: computed(&index.val.to_string()), key: None, index, value: short(p, x) });
            }
        }
        Kind::RecordTuple(_, v) => {
            for (t, l, i, x) in v {
                out.push(Entry { tag: *t, label: l.clone(), key: None, index: alloc(Some(i)), value: short(p, x) });
            }
        }
        _ => (),
    }
    (out, cur)
}

fn plain(name: &'static str, at: i128, v: i64) -> Entry {
    Entry { tag: 0, label: ident(name), key: None, index: off(at), value: Node::new(Kind::I64(v)) }
}

/// What an [`Around`] must stream, as a tree.
pub fn expected(to: To, start: i128, inner: &[Node]) -> Node {
    let mut at = start;
    let mut all = vec![plain("before", at, 100)];
    at += 1;
    for n in inner {
        let (v, a) = entries(n, at);
        all.extend(v);
        at = a;
    }
    all.push(plain("after", at, 200));
    let m = m(0, lab("Outer"), None);
    let st = Style { child: Child::Inline, borrowed: true, sizes: false };
    let k = match to {
        To::Map => Kind::Map(
            all.into_iter()
                .map(|e| {
                    let key = e.key.unwrap_or_else(|| Node { k: Kind::Text(e.label.text.clone(), vec![]), st: Style { borrowed: e.label.is_static, ..Style::DEFAULT } });
                    (key, e.value)
                })
                .collect(),
        ),
        To::Seq => Kind::Seq(all.into_iter().map(|e| e.value).collect()),
        To::Record => Kind::Record(m, all.into_iter().map(|e| (e.tag, e.label, e.value)).collect()),
        To::Tuple => Kind::Tuple(m, all.into_iter().map(|e| (e.tag, e.index, e.value)).collect()),
        To::RecordTuple => Kind::RecordTuple(m, all.into_iter().map(|e| (e.tag, e.label, e.index, e.value)).collect()),
    };
    Node { k, st }
}

fn compare(c: &mut Ctx, v: &Around, want: &Node, about: &dyn Fn() -> String) -> Res {
    let (got, r) = record(v);
    c.step(got.len());
    if r.is_err() {
        fail!("flattening to {:?} failed for {}", v.to, about());
    }
    if let Err(e) = well_formed(&got) {
        fail!("flattening to {:?} gave ill-formed events ({}): {:?} for {}", v.to, e, got, about());
    }
    let canon = |e: &[Ev]| canon(e, Canon { hints: true, borrow: true, label_static: false, sizes: true });
    let (got, want) = (canon(&got), canon(&want.evs()));
    c.outcome(&format!("{:?}", got));
    if got != want {
        fail!("flattening to {:?} gave {:?} instead of {:?} for {}", v.to, got, want, about());
    }
    c.describe(|| format!("{} => {:?}", about(), got));
    Ok(())
}

fn check_one(c: &mut Ctx, n: &Node) -> Res {
    let to = *c.of(&TOS);
    let start = *c.of(&[0, 1, 7, -2]);
    let want = expected(to, start, std::slice::from_ref(n));
    compare(c, &Around { to, start, inner: vec![n] }, &want, &|| format!("{:?} at {}", n.evs(), start))
}

fn gen() -> Gen {
    let mut g = Gen::basic();
    g.leaves = vec![Kind::Null, Kind::I64(-7), Kind::Text("a\"".into(), vec![1]), Kind::Bin(vec![1, 20], vec![])];
    g.indexes = vec![off(0), off(1), I { val: 5, tag: 0 }];
    g.tagged_metas = vec![M::default(), m(T_X, Some(ident("Tg")), Some(off(2))), m(0, None, Some(I { val: 9, tag: 0 })), m(T_SOME, Some(ident("Some")), Some(off(1)))];
    g.tag_metas = vec![M::default(), m(0, Some(ident("Tl")), None), m(0, None, ix(4))];
    g.enum_metas = vec![M::default(), m(T_X, Some(ident("En")), Some(off(3)))];
    g.rec_metas = vec![M::default(), m(T_X, Some(ident("Rc")), Some(off(2)))];
    g
}

pub fn check(thorough: bool) -> Check {
    let b = if thorough { 5 } else { 4 };
    let mut g1 = gen();
    if thorough {
        (g1.width, g1.depth) = (4, 5);
        g1.leaves.truncate(3);
    }
    let mut g2 = gen();
    g2.leaves = number_leaves().into_iter().filter(|k| !matches!(k, Kind::F32(_)) && !matches!(k, Kind::F64(v) if !(v.is_finite() && (*v == 0.0 || (v.abs() > 1e-3 && v.abs() < 1e6))))).collect();
    g2.leaves.extend([Kind::F32(1.5), Kind::Null, Kind::Bool(true), Kind::Bool(false), Kind::Text("".into(), vec![]), Kind::Text("é\n".into(), vec![2]), Kind::Bin(vec![], vec![]), Kind::Bin(vec![0, 255], vec![1])]);
    g2.depth = 3;
    let mut g7 = g2.leaves.clone();
    for l in [None, Some(ident("St")), Some(computed("co")), Some(L { text: "".into(), is_static: false, tag: 0 })] {
        for i in [None, Some(off(0)), Some(off(7)), Some(I { val: -1, tag: 0 }), Some(I { val: i64::MIN as i128, tag: 0 }), Some(I { val: i64::MAX as i128, tag: 0 }), Some(I { val: u64::MAX as i128, tag: 0 })] {
            g7.push(Kind::Tag(m(T_X, l.clone(), i)));
        }
    }
    let mut g3 = gen();
    g3.leaves = vec![Kind::I64(1), Kind::Text("kk".into(), vec![1]), Kind::Bin(vec![1, 2], vec![1])];
    let mut g4 = gen();
    g4.leaves = vec![Kind::I64(1), Kind::Text("k".into(), vec![])];
    g4.tagged_metas.truncate(2);
    g4.tag_metas.truncate(2);
    g4.enum_metas.truncate(1);
    g4.rec_metas.truncate(1);
    g4.indexes = vec![off(0), off(1)];
    let g5 = g4.clone();
    let mut g6 = gen();
    g6.kinds = K_MAP | K_SEQ | K_TAG | K_TAGGED | K_RECORD | K_ENUM;
    g6.leaves = vec![Kind::I64(-7), Kind::Text("a\"".into(), vec![1]), Kind::U128(u128::MAX), Kind::F64(1.5), Kind::Bin(vec![1, 20], vec![])];
    g6.tagged_metas.truncate(2);
    g6.enum_metas.truncate(1);
    g6.rec_metas.truncate(1);
    let b6 = if thorough { 5 } else { 4 };
    let b4 = if thorough { 4 } else { 3 };
    Check {
        suites: vec![
            suite("trees", format!("every value tree of at most {} nodes flattened into each of 5 containers at 4 start offsets", b), move |c| {
                let n = g1.node(c, b);
                check_one(c, &n)
            }),
            suite("leaves", "every boundary leaf in every position of a flattened value of at most 3 nodes", move |c| {
                let n = g2.node(c, 3);
                let to = *c.of(&TOS);
                let want = expected(to, 1, std::slice::from_ref(&n));
                compare(c, &Around { to, start: 1, inner: vec![&n] }, &want, &|| format!("{:?}", n.evs()))
            }),
            suite("keys", format!("every key tree of at most {} nodes in a flattened map, followed by a second entry", b6), move |c| {
                let k = g6.node(c, b6);
                let n = Node::new(Kind::Map(vec![(k, Node::text("v")), (Node::text("k2"), Node::new(Kind::Null))]));
                let to = *c.of(&TOS);
                let want = expected(to, 1, std::slice::from_ref(&n));
                compare(c, &Around { to, start: 1, inner: vec![&n] }, &want, &|| format!("{:?}", n.evs()))
            }),
            suite("leaf-keys", "every boundary leaf and bare tag (static, computed and missing labels; boundary indexes) as a key: alone, tagged, after or before another part, in a first or second entry, borrowed or not", move |c| {
                let k = Node::new(c.of(&g7).clone());
                let k = match c.pick(5) {
                    0 => k,
                    1 => Node::new(Kind::Tagged(m(T_X, Some(ident("Tg")), None), Box::new(k))),
                    2 => Node::new(Kind::Seq(vec![k, Node::text("z")])),
                    3 => Node::new(Kind::Seq(vec![Node::text("z"), k])),
                    _ => Node::new(Kind::Seq(vec![Node::new(Kind::I64(-5)), k])),
                };
                let st = *c.of(&Style::SHORT);
                let mut v = vec![(k, Node::text("v")), (Node::text("k2"), Node::new(Kind::Null))];
                if c.flag() {
                    v.reverse();
                }
                let n = Node::new(Kind::Map(v)).styled(st);
                let to = *c.of(&TOS);
                let want = expected(to, 1, std::slice::from_ref(&n));
                compare(c, &Around { to, start: 1, inner: vec![&n] }, &want, &|| format!("{:?}", n.evs()))
            }),
            suite("styles", format!("value trees of at most {} nodes in 12 streaming styles", b4), move |c| {
                let st = *c.of(&Style::ALL);
                let n = g3.node(c, b4).styled(st);
                check_one(c, &n)
            }),
            suite("siblings", format!("every pair of value trees of at most {} nodes each flattened side by side", b4), move |c| {
                let a = g4.node(c, b4);
                let b = g4.node(c, 2);
                let to = *c.of(&TOS);
                let want = expected(to, 0, &[a.clone(), b.clone()]);
                // sequences have no positions to carry on
                let inner: Vec<&dyn sval_dynamic::Value> = vec![&a, &b];
                compare(c, &Around { to, start: 0, inner }, &want, &|| format!("{:?} beside {:?}", a.evs(), b.evs()))
            }),
            suite("nested", format!("value trees of at most {} nodes flattened into a container that is itself flattened, all 25 pairs of containers", b), move |c| {
                let n = g5.node(c, if c.thorough { 4 } else { 3 });
                let (a, b) = (*c.of(&TOS), *c.of(&TOS));
                let mid = expected(a, 0, std::slice::from_ref(&n));
                let want = expected(b, 3, std::slice::from_ref(&mid));
                let inner = Around { to: a, start: 0, inner: vec![&n] };
                compare(c, &Around { to: b, start: 3, inner: vec![&inner] }, &want, &|| format!("{:?} in {:?}", n.evs(), a))
            }),
            suite("names", metas::bounds(), move |c| {
                let n = match metas::pick(c) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let last = {
                    let t = format!("{:?}", n.k);
                    [isize::MAX as i128, isize::MAX as i128 + 1, u64::MAX as i128].iter().any(|i| t.contains(&i.to_string()))
                };
                match check_one(c, &n) {
                    // positions are only counted on within the range of `isize`
                    Err(_) if last => Ok(()),
                    r => r,
                }
            }),
            suite("sizes", sizes::bounds(thorough, if thorough { 70000 } else { 1100 }, 6), move |c| {
                let n = sizes::pick_in(c, if c.thorough { 70000 } else { 1100 }, 6);
                check_one(c, &n)
            }),
        ],
        assumptions: vec!["the content of an enum is a tag, a tagged value, a record, a tuple, a record-tuple or an enum", "a newtype variant is one entry, named and positioned by the variant; offset-tagged positions are shifted by the start, other positions are kept"],
    }
}
