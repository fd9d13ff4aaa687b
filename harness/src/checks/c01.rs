//! C01: JSON output is always one well-formed document or an error.
use super::Check;
use crate::engine::*;
use crate::metas;
use crate::sizes;
use crate::model::*;
use crate::ev::*;
use crate::jsonref;

/// All JSON entry points must agree; returns the document or that it failed.
pub fn all_outputs(v: &impl sval::Value) -> Result<Result<String, ()>, Fail> {
    let s = sval_json::stream_to_string(v);
    let b = sval_json::stream_to_vec(v);
    let mut io = Vec::new();
    let i = sval_json::stream_to_io_write(&mut io, v);
    let mut f = String::new();
    let w = sval_json::stream_to_fmt_write(&mut f, v);
    let j = sval_json::stream_to_json_str(v);
    match (s, b, i, w, j) {
        (Ok(s), Ok(b), Ok(()), Ok(()), Ok(j)) => {
            if s.as_bytes() != b || s.as_bytes() != io || s != f || s != j.as_str() {
                fail!("entry points disagree: string={:?} vec={:?} io={:?} fmt={:?} json_str={:?}", s, String::from_utf8_lossy(&b), String::from_utf8_lossy(&io), f, j.as_str());
            }
            Ok(Ok(s))
        }
        (Err(_), Err(_), Err(_), Err(_), Err(_)) => Ok(Err(())),
        (s, b, i, w, j) => Err(Fail::from(format!("entry points disagree on success: string={} vec={} io={} fmt={} json_str={}", s.is_ok(), b.is_ok(), i.is_ok(), w.is_ok(), j.is_ok()))),
    }
}

pub fn check_node(c: &mut Ctx, n: &Node) -> Res {
    c.step(n.evs().len() * 5);
    let expected = jsonref::value(n);
    match all_outputs(n)? {
        Ok(s) => {
            c.outcome(&s);
            c.describe(|| format!("{:?} => {}", n.evs(), s));
            if let Err(e) = jsonref::parse(&s) {
                fail!("success reported but output is not JSON ({}): {} for events {:?}", e, s, n.evs());
            }
            ensure!(expected.is_ok(), "a value JSON cannot express was written as {} for events {:?}", s, n.evs());
        }
        Err(()) => {
            c.outcome(&0u8);
            c.describe(|| format!("{:?} => error", n.evs()));
            ensure!(expected.is_err(), "a value JSON can express was refused: events {:?}", n.evs());
        }
    }
    Ok(())
}

pub fn structure_gen() -> Gen {
    let mut g = Gen::basic();
    g.leaves = vec![Kind::Null, Kind::I64(-7), Kind::Text("a\"".into(), vec![]), Kind::Bin(vec![], vec![])];
    g
}

/// Deep chains of metadata-bearing wrappers.
pub fn chain_gen(depth: usize) -> Gen {
    let mut g = Gen::basic();
    g.leaves = vec![Kind::Bool(true)];
    g.kinds = K_TAG | K_TAGGED | K_ENUM | K_RECORD | K_TUPLE | K_MAP;
    g.tag_metas = vec![M::default(), m(0, Some(ident("T")), None), m(T_NONE, Some(ident("None")), ix(0))];
    g.tagged_metas = vec![M::default(), m(0, Some(ident("A")), None), m(0, None, ix(1))];
    g.enum_metas = vec![M::default(), m(0, Some(ident("E")), None), m(0, None, ix(2))];
    g.rec_metas = vec![M::default(), m(0, Some(ident("R")), None)];
    g.fields = vec![(0, ident("f"))];
    g.width = 1;
    g.depth = depth;
    g
}

pub fn check(thorough: bool) -> Check {
    let b1 = if thorough { 6 } else { 5 };
    let g1 = structure_gen();
    let mut g2 = Gen::basic();
    g2.leaves = vec![Kind::U8(1)];
    g2.tag_metas = metas8();
    g2.tagged_metas = metas8();
    g2.enum_metas = metas8();
    g2.rec_metas = metas8();
    g2.enum_metas.push(m(0, None, ix(u64::MAX as i128)));
    g2.tag_metas.push(m(0, None, ix(u64::MAX as i128)));
    g2.tagged_metas.push(m(0, None, ix(u64::MAX as i128)));
    let b2 = if thorough { 5 } else { 4 };
    let d3 = if thorough { 8 } else { 6 };
    let g3 = chain_gen(d3);
    let mut g4 = Gen::basic();
    g4.leaves = number_leaves();
    g4.leaves.extend([Kind::Bool(false), Kind::Text("".into(), vec![]), Kind::Text("\u{1}\n\\/".into(), vec![]), Kind::Bin(vec![0, 255], vec![])]);
    g4.depth = 2;
    let mut g1s = structure_gen();
    g1s.leaves = vec![Kind::I64(1), Kind::Text("k".into(), vec![])];
    Check {
        suites: vec![
            suite("structure", format!("every value tree of at most {} nodes, width 2, depth 4, 4 leaves, 13 metadata choices", if thorough { 5 } else { 4 }), move |c| {
                let n = g1.node(c, if c.thorough { 5 } else { 4 });
                check_node(c, &n)
            }),
            suite("metadata", format!("trees of at most {} nodes with all 8 presence combinations of tag/label/index everywhere", b2), move |c| {
                let n = g2.node(c, b2);
                check_node(c, &n)
            }),
            suite("chains", format!("single-child chains of tagged/enum/record/tuple/map up to depth {}", d3), move |c| {
                let n = g3.node(c, d3 + 1);
                check_node(c, &n)
            }),
            suite("leaves", "every boundary number, text and binary leaf in every container position", move |c| {
                let n = g4.node(c, 3);
                check_node(c, &n)
            }),
            suite("styles", format!("value trees of at most {} nodes in 12 streaming styles", b1 - 2), move |c| {
                let st = *c.of(&Style::ALL);
                let n = g1s.node(c, b1 - 2).styled(st);
                check_node(c, &n)
            }),
            suite("names", metas::bounds(), move |c| {
                let n = match metas::pick(c) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let st = *c.of(&Style::SHORT);
                check_node(c, &n.styled(st))
            }),
            suite("empty", "trees of at most 4 (thorough: 5) nodes in which tagged values and enums may be empty, with and without labels and indexes", |c| {
                let n = Gen::hollow().node(c, if c.thorough { 5 } else { 4 }).hollow(true);
                check_node(c, &n)
            }),
            suite("sizes", sizes::bounds(thorough, if thorough { 70000 } else { 1100 }, 6), move |c| {
                let n = sizes::pick_in(c, if c.thorough { 70000 } else { 1100 }, 6);
                let st = *c.of(&Style::SHORT);
                check_node(c, &n.styled(st))
            }),
        ],
        assumptions: vec!["labels tagged as identifiers are valid identifiers (documented contract of that tag)", "enum content is a tag, tagged value, record, tuple, record-tuple or enum"],
    }
}
