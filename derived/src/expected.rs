// What a declaration means.
use crate::decl::*;
use crate::checks::c18::entries;
use crate::ev::*;
use crate::model::*;
use crate::types::{none, some};

fn tag(t: Tg) -> u8 {
    if t == Tg::No { 0 } else { T_X }
}
fn label(l: Lb, name: &str) -> L {
    match l {
        Lb::No => ident(name.trim_start_matches("r#")),
        Lb::Lit(s) => lab(s).unwrap(),
        Lb::Const => lab("a const").unwrap(),
    }
}
fn index(i: Ix) -> Option<I> {
    match i {
        Ix::No => None,
        Ix::Lit(i) => ix(i as i128),
        Ix::Const => ix(70),
    }
}

/// Positions: offsets until one is given explicitly, then counting on from it.
#[derive(Default)]
struct Positions {
    next: i128,
    explicit: bool,
}
impl Positions {
    fn next(&mut self, given: Ix) -> I {
        let i = match given {
            Ix::No if self.explicit => ix(self.next).unwrap(),
            Ix::No => off(self.next),
            Ix::Lit(v) => {
                self.explicit = true;
                self.next = v as i128;
                ix(v as i128).unwrap()
            }
            Ix::Const => {
                self.explicit = true;
                ix(70).unwrap()
            }
        };
        self.next += 1;
        i
    }
}

fn leaf(k: Kind) -> Node {
    Node::new(k)
}
fn value(t: Ty, i: usize) -> Node {
    let one = || leaf(Kind::I32(1));
    let fy = || Node::text("fy");
    leaf(match t {
        Ty::I32 | Ty::Scalar => Kind::I32(i as i32 + 10),
        Ty::Str => Kind::Text(format!("s{}", i), vec![]),
        Ty::Opt if i % 2 == 0 => Kind::Tagged(some(), Box::new(leaf(Kind::Bool(true)))),
        Ty::Opt => Kind::Tag(none()),
        Ty::Generic => Kind::U8(i as u8),
        Ty::Bytes => {
            let v = Kind::Seq(vec![leaf(Kind::U8(i as u8)), leaf(Kind::U8(255))]);
            Kind::Tagged(m(T_CONST, None, None), Box::new(leaf(v)))
        }
        Ty::List => Kind::Seq(vec![leaf(Kind::U8(i as u8)), leaf(Kind::U8(7))]),
        Ty::Rec => Kind::RecordTuple(m(0, Some(ident("FRec")), None), vec![(0, ident("x"), off(0), one()), (0, ident("y"), off(1), fy())]),
        Ty::Tup => Kind::Tuple(m(0, Some(ident("FTup")), None), vec![(0, off(0), one()), (0, off(1), fy())]),
        Ty::Map => Kind::Map(vec![(Node::text("k"), one()), (Node::text("m"), leaf(Kind::I32(2)))]),
        Ty::Seq => Kind::Seq(vec![leaf(Kind::I32(5)), leaf(Kind::I32(6))]),
        Ty::En => Kind::Enum(m(0, Some(ident("FEn")), None), Box::new(leaf(Kind::RecordTuple(m(0, Some(ident("Var")), Some(off(1))), vec![(0, ident("a"), off(0), one())])))),
    })
}

struct Entry {
    tag: u8,
    label: Option<L>,
    index: Option<I>,
    value: Node,
}

fn fields(named: bool, fs: &[Field], unlabeled: bool, unindexed: bool, meta: M) -> Node {
    let live: Vec<(usize, &Field)> = fs.iter().enumerate().filter(|f| f.1.skip != Some(true)).collect();
    let labelled = !unlabeled && (named || live.iter().any(|f| f.1.meta.label != Lb::No));
    let (mut pos, mut at) = (Positions::default(), 0i128);
    let mut out = vec![];
    let mut sized = true;
    for (i, f) in live.iter().copied() {
        if f.flatten == Some(true) {
            sized = false;
            let (es, next) = entries(&value(f.ty, i), at);
            at = next;
            pos.next(Ix::No);
            for e in es {
                // keys in a record-like container are names; in a tuple-like one they have none
                out.push(Entry { tag: e.tag, label: Some(e.label), index: Some(e.index), value: e.value });
            }
            continue;
        }
        let mut v = value(f.ty, i);
        if f.data_tag {
            v = Node::new(Kind::Tagged(m(T_Y, None, None), Box::new(v)));
        }
        let mut p = None;
        if !unindexed {
            let given = pos.next(f.meta.index);
            p = Some(if given.tag == T_OFFSET { off(at) } else { given });
            at += 1;
        }
        out.push(Entry { tag: tag(f.meta.tag), label: labelled.then(|| label(f.meta.label, &field_name(i))), index: p, value: v });
    }
    // a container of nothing has the shape of its declaration
    let (labelled, indexed) = if live.is_empty() { (named, true) } else { (labelled, !unindexed) };
    let k = match (labelled, indexed) {
        (true, true) => Kind::RecordTuple(meta, out.into_iter().map(|e| (e.tag, e.label.unwrap(), e.index.unwrap(), e.value)).collect()),
        (true, false) => Kind::Record(meta, out.into_iter().map(|e| (e.tag, e.label.unwrap(), e.value)).collect()),
        (false, true) => Kind::Tuple(meta, out.into_iter().map(|e| (e.tag, e.index.unwrap(), e.value)).collect()),
        (false, false) => {
            let mut s = Node::new(Kind::Seq(out.into_iter().map(|e| e.value).collect()));
            s.st.sizes = sized;
            Kind::Tagged(meta, Box::new(s))
        }
    };
    let mut n = Node::new(k);
    n.st.sizes = sized;
    n
}

fn shape(i: &Item, meta: M, transparent: bool) -> Node {
    match &i.shape {
        Shape::Unit => Node::new(Kind::Tag(meta)),
        Shape::Tuple(v) if v.len() == 1 => {
            let x = value(v[0].ty, 0);
            if transparent { x } else { Node::new(Kind::Tagged(meta, Box::new(x))) }
        }
        Shape::Named(v) => fields(true, v, i.unlabeled, i.unindexed, meta),
        Shape::Tuple(v) => fields(false, v, i.unlabeled, i.unindexed, meta),
    }
}

/// The value instance `k` stands for.
pub fn want(d: &Decl, k: usize) -> Node {
    match d {
        Decl::Struct(i) => shape(i, m(tag(i.meta.tag), Some(label(i.meta.label, "D")), index(i.meta.index)), i.transparent),
        Decl::Enum { meta, unlabeled, unindexed, dynamic, variants } => {
            let mut pos = Positions::default();
            let mut p = None;
            for v in &variants[..=k] {
                let given = match (v.meta.index, v.disc) {
                    (Ix::No, Some(d)) => Ix::Lit(d),
                    (i, _) => i,
                };
                p = (!unindexed && !dynamic).then(|| pos.next(given));
            }
            let v = &variants[k];
            let l = (!unlabeled && (!dynamic || v.shape == Shape::Unit)).then(|| label(v.meta.label, &variant_name(k)));
            let x = shape(v, m(tag(v.meta.tag), l, p), *dynamic);
            if *dynamic {
                x
            } else {
                Node::new(Kind::Enum(m(tag(meta.tag), Some(label(meta.label, "D")), index(meta.index)), Box::new(x)))
            }
        }
    }
}
