//! Values of every size along one dimension: widths, lengths and depths far beyond what the tree enumeration reaches.
use crate::engine::Ctx;
use crate::ev::*;
use crate::model::*;

pub const SHAPES: usize = 32;
pub const PLACES: usize = 6;

/// The sizes swept: all small ones, then those around the usual capacities.
pub fn sizes(thorough: bool, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=if thorough { 300 } else { 40 }).collect();
    for p in [48, 63, 100, 127, 200, 255, 300, 511, 1000, 1023, 4095, 65535] {
        v.extend([p, p + 1, p + 2]);
    }
    v.retain(|n| *n <= max);
    v.sort();
    v.dedup();
    v
}

pub fn bounds(thorough: bool, max: usize, places: usize) -> String {
    let s = sizes(thorough, max);
    format!("{} families of values (texts, binaries, number texts, labels, every container, nesting chains) of {} sizes up to {} (chains up to 130), in {} places", SHAPES, s.len(), s[s.len() - 1], places)
}

fn name(i: usize) -> String {
    format!("f{}", i)
}
fn int(i: usize) -> Node {
    Node::new(Kind::I64(i as i64))
}
fn chain(n: usize, base: Node, f: impl Fn(usize, Node) -> Node) -> Node {
    (0..n).fold(base, |x, i| f(i, x))
}
fn label(t: &str) -> M {
    m(0, lab(t), None)
}

/// One value of a family at a size; sizes that a family leaves out give the nearest smaller one it has.
pub fn value(shape: usize, n: usize) -> Node {
    let deep = n.min(130);
    let texts = |s: &str| Node::text(&s.repeat(n));
    let every = |s: String, step: usize| {
        let cuts = (1..s.len()).filter(|i| i % step == 0 && s.is_char_boundary(*i)).collect();
        Node::new(Kind::Text(s, cuts))
    };
    match shape {
        0 => texts("a"),
        1 => Node::text(&format!("{}\"", "a".repeat(n))),
        2 => texts("\n"),
        3 => texts("é"),
        4 => Node::text(&format!("\\{}\u{1}", "x".repeat(n))),
        5 => every("ab\"cdé\n".chars().cycle().take(n).collect(), 1),
        6 => every("x".repeat(n), 7),
        7 => Node::new(Kind::Bin((0..n).map(|i| i as u8).collect(), vec![])),
        8 => Node::new(Kind::Bin((0..n).map(|i| (i * 7) as u8).collect(), (1..n).filter(|i| i % 3 == 0).collect())),
        9 => Node::new(Kind::Tagged(m(tag_id(&sval::tags::NUMBER), None, None), Box::new(Node::text(&format!("-1{}.5", "0".repeat(n)))))),
        10 => Node::new(Kind::Seq((0..n).map(int).collect())),
        11 => Node::new(Kind::Seq((0..n).map(|i| Node::text(&name(i))).collect())),
        12 => Node::new(Kind::Map((0..n).map(|i| (Node::text(&name(i)), int(i))).collect())),
        13 => Node::new(Kind::Map((0..n).map(|i| (int(i), Node::text(&name(i)))).collect())),
        14 => Node::new(Kind::Record(label("R"), (0..n).map(|i| (0, ident(&name(i)), int(i))).collect())),
        15 => Node::new(Kind::Tuple(label("T"), (0..n).map(|i| (0, off(i as i128), int(i))).collect())),
        16 => Node::new(Kind::RecordTuple(label("S"), (0..n).map(|i| (0, ident(&name(i)), off(i as i128), int(i))).collect())),
        17 => Node::new(Kind::Record(label(&"L".repeat(n + 1)), vec![(0, ident(&"k".repeat(n + 1)), int(n))])),
        18 => Node::new(Kind::Enum(label("E"), Box::new(Node::new(Kind::Tag(m(0, lab(&"v".repeat(n + 1)), ix(n as i128))))))),
        19 => Node::new(Kind::Enum(label("E"), Box::new(Node::new(Kind::Tuple(m(0, lab("V"), ix(1)), (0..n).map(|i| (0, off(i as i128), int(i))).collect()))))),
        20 => Node::new(Kind::Enum(label("E"), Box::new(Node::new(Kind::Record(m(0, lab("V"), ix(1)), (0..n).map(|i| (0, ident(&name(i)), Node::text(&name(i)))).collect()))))),
        21 => Node::new(Kind::Enum(label("E"), Box::new(Node::new(Kind::Tagged(m(0, lab("V"), ix(1)), Box::new(texts("b"))))))),
        22 => Node::new(Kind::Seq((0..n).map(|i| Node::new(Kind::Tuple(m(0, None, None), vec![(0, off(0), int(i)), (0, off(1), Node::new(Kind::Bool(i % 2 == 0)))]))).collect())),
        23 => Node::new(Kind::Seq((0..n).map(|i| Node::new(Kind::Seq((0..i % 3).map(int).collect()))).collect())),
        24 => chain(deep, int(1), |_, x| Node::new(Kind::Seq(vec![x]))),
        25 => chain(deep, int(1), |i, x| Node::new(Kind::Map(vec![(Node::text(&name(i)), x)]))),
        26 => chain(deep, int(1), |i, x| Node::new(Kind::Tagged(label(&name(i)), Box::new(x)))),
        27 => chain(deep, int(1), |i, x| Node::new(Kind::Record(label("R"), vec![(0, ident("a"), int(i)), (0, ident("b"), x)]))),
        28 => chain(deep, int(1), |i, x| {
            let v = Node::new(Kind::Tagged(m(0, lab(&name(i)), ix(i as i128)), Box::new(x)));
            Node::new(Kind::Enum(label("E"), Box::new(v)))
        }),
        29 => Node::new(Kind::Text("p".repeat(2 * n), vec![n])),
        30 => Node::new(Kind::Bin((0..3 * n).map(|i| (i * 5) as u8).collect(), vec![n, 2 * n])),
        _ => chain(deep, Node::text("end"), |i, x| {
            Node::new(match i % 4 {
                0 => Kind::Seq(vec![int(i), x, int(i)]),
                1 => Kind::Tuple(label("T"), vec![(0, off(0), x)]),
                2 => Kind::Map(vec![(int(i), x), (Node::text("k"), int(i))]),
                _ => Kind::Record(label("R"), vec![(0, ident("a"), x)]),
            })
        }),
    }
}

pub fn place(p: usize, x: Node) -> Node {
    let one = || Node::text("after");
    Node::new(match p {
        0 => return x,
        1 => Kind::Seq(vec![x, one()]),
        2 => Kind::Map(vec![(Node::text("k"), x), (Node::text("l"), one())]),
        3 => Kind::Record(label("P"), vec![(0, ident("p"), x), (0, ident("q"), one())]),
        4 => Kind::Tuple(m(0, None, None), vec![(0, off(0), one()), (0, off(1), x), (0, off(2), one())]),
        _ => Kind::Seq(vec![x.clone(), x]),
    })
}

pub fn pick(c: &mut Ctx, max: usize) -> Node {
    pick_in(c, max, PLACES)
}

pub fn pick_in(c: &mut Ctx, max: usize, places: usize) -> Node {
    let thorough = c.thorough;
    let shape = c.pick(SHAPES);
    let n = *c.of(&sizes(thorough, max));
    let p = c.pick(places);
    c.describe(|| format!("family {} at size {} in place {}", shape, n, p));
    place(p, value(shape, n))
}
