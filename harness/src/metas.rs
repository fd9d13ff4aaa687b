//! Every label, index and tag in every place that takes one.
use crate::engine::Ctx;
use crate::ev::*;
use crate::model::*;

const TEXTS: [&str; 5] = ["Lb", "", "a\"\\\n\u{1}", "é😀", "00"];

fn labels() -> Vec<Option<L>> {
    let mut v = vec![None, Some(ident("Lb"))];
    for t in TEXTS {
        for is_static in [true, false] {
            for tag in [0, T_X] {
                v.push(Some(L { text: t.into(), is_static, tag }));
            }
        }
    }
    v.push(Some(L { text: "r_1".into(), is_static: false, tag: T_IDENT }));
    v
}

fn indexes() -> Vec<Option<I>> {
    let mut v = vec![None, Some(off(1)), Some(I { val: 7, tag: T_X })];
    for val in [0, 1, -1, i32::MAX as i128 + 1, i32::MIN as i128 - 1, u32::MAX as i128, u32::MAX as i128 + 1, i64::MAX as i128, i64::MIN as i128, i64::MAX as i128 + 1, u64::MAX as i128] {
        v.push(Some(I { val, tag: 0 }));
    }
    v.push(Some(off(u32::MAX as i128 + 1)));
    v
}

const PLACES: usize = 18;

pub fn bounds() -> String {
    format!("{} labels x {} indexes x 3 tags in {} places, alone and before a sibling", labels().len(), indexes().len(), PLACES)
}

/// Fails to pick anything where a place can't do without a label or an index.
pub fn pick(c: &mut Ctx) -> Option<Node> {
    let label = c.of(&labels()).clone();
    let index = c.of(&indexes()).clone();
    let tag = *c.of(&[0, T_X, T_Y]);
    let place = c.pick(PLACES);
    let mm = m(tag, label.clone(), index.clone());
    let b = |n| Box::new(n);
    let leaf = || Node::new(Kind::I64(-7));
    let e = |n| Node::new(Kind::Enum(m(0, Some(ident("En")), None), Box::new(n)));
    let v = || m(0, Some(ident("Va")), Some(off(2)));
    let fields = || vec![(0, ident("fa"), leaf()), (0, ident("fb"), Node::text("x"))];
    let elems = || vec![(0, off(0), leaf()), (0, off(1), Node::text("x"))];
    let both = || vec![(0, ident("fa"), off(0), leaf()), (0, ident("fb"), off(1), Node::text("x"))];
    let n = match place {
        0 => Node::new(Kind::Tag(mm)),
        1 => e(Node::new(Kind::Tag(mm))),
        2 => Node::new(Kind::Tagged(mm, b(leaf()))),
        3 => e(Node::new(Kind::Tagged(mm, b(leaf())))),
        4 => Node::new(Kind::Enum(mm, b(Node::new(Kind::Tag(v()))))),
        5 => Node::new(Kind::Enum(mm, b(Node::new(Kind::Tagged(v(), b(leaf())))))),
        6 => Node::new(Kind::Record(mm, fields())),
        7 => e(Node::new(Kind::Record(mm, fields()))),
        8 => Node::new(Kind::Tuple(mm, elems())),
        9 => e(Node::new(Kind::Tuple(mm, elems()))),
        10 => Node::new(Kind::RecordTuple(mm, both())),
        11 => e(Node::new(Kind::RecordTuple(mm, both()))),
        12 => e(Node::new(Kind::Enum(mm, b(Node::new(Kind::Tag(v())))))),
        13 => e(Node::new(Kind::Enum(mm, b(Node::new(Kind::Tagged(v(), b(leaf()))))))),
        14 if index.is_none() => Node::new(Kind::Record(v(), vec![(tag, label?, leaf()), (0, ident("fb"), leaf())])),
        15 if label.is_none() => Node::new(Kind::Tuple(v(), vec![(tag, index?, leaf()), (0, off(1), leaf())])),
        16 => Node::new(Kind::RecordTuple(v(), vec![(tag, label?, index?, leaf()), (0, ident("fb"), off(1), leaf())])),
        17 => Node::new(Kind::Map(vec![(Node::new(Kind::Tag(mm)), leaf()), (Node::text("k"), leaf())])),
        _ => return None,
    };
    Some(if c.flag() { Node::new(Kind::Seq(vec![n, Node::text("\"")])) } else { n })
}
