// C24: without an allocator results are the same or an error, never wrong.
//
// This program is built twice. The full build runs every case and writes down the results; the build
// without allocation runs the same cases and compares.
include!("../../harness/src/root.rs");

pub mod checks {
    pub struct Check {
        pub suites: Vec<crate::engine::Suite>,
        pub assumptions: Vec<&'static str>,
    }
    pub const ALL: &[&str] = &["C24"];
}

use around::{Around, TOS};
use checks::Check;
use ev::*;
use model::*;
use nest::*;
use serde::Serialize;
use serdes::SRec;
use shared::*;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::{Mutex, OnceLock};

const FULL: bool = cfg!(feature = "full");

fn hash(v: impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

static WRITTEN: Mutex<Vec<(u64, u64)>> = Mutex::new(Vec::new());
static TABLE: OnceLock<HashMap<u64, u64>> = OnceLock::new();
fn table() -> &'static HashMap<u64, u64> {
    TABLE.get_or_init(|| {
        let path = std::env::var("MC_TABLE").expect("MC_TABLE names the results of the full build");
        let b = std::fs::read(path).expect("results of the full build");
        b.chunks(16).map(|c| (u64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..].try_into().unwrap()))).collect()
    })
}

fn data(r: sval::Result, evs: &[Ev]) -> Option<String> {
    r.ok()?;
    Some(format!("{:?}", norm(&canon(evs, Canon { hints: false, borrow: false, label_static: false, sizes: true }))))
}
fn recorded(v: &impl sval::Value) -> Option<String> {
    let (e, r) = record(v);
    data(r, &e)
}
fn nested<'a, S: sval_nested::Stream<'a, Ok = Vec<Ev>>>(s: S, v: &'a impl sval::Value) -> Option<String> {
    data(Ok(()), &s.value_ref(v).ok()?)
}

const NAMES: [&str; 32] = [
    "JSON", "formatted text", "ToFmt display", "ToFmt debug", "ValueBuf", "Value", "owned ValueBuf", "owned Value", "buffer of a buffer", "ValueBuf made a Value", "ValueBuf streamed by reference", "TextBuf", "BinaryBuf", "displayed TextBuf", "serde", "serde_json", "serde and back", "nested", "nested short-lived", "nested with flat children", "minimal nested",
    "flattened to a map", "flattened to a sequence", "flattened to a record", "flattened to a tuple", "flattened to a record-tuple", "minimal stream", "partial stream", "dynamic", "casts", "casts of the buffered value", "BinaryBuf streamed",
];
/// What consumer `i` makes of a value; nothing if it refuses it.
fn result<V: sval::Value>(i: usize, v: &V) -> Option<String> {
    match i {
        0 => {
            let mut s = String::new();
            sval_json::stream_to_fmt_write(&mut s, v).ok()?;
            Some(s)
        }
        1 => {
            let mut s = String::new();
            sval_fmt::stream_to_write(&mut s, v).ok()?;
            Some(s)
        }
        2 => Some(format!("{}", sval_fmt::ToFmt::new(v))),
        3 => Some(format!("{:?}", sval_fmt::ToFmt::new(v))),
        4 => recorded(&sval_buffer::ValueBuf::collect(v).ok()?),
        5 => recorded(&sval_buffer::Value::collect(v).ok()?),
        6 => recorded(&sval_buffer::ValueBuf::collect_owned(v).ok()?),
        7 => recorded(&sval_buffer::Value::collect(v).ok()?.into_owned().ok()?),
        8 => recorded(&sval_buffer::ValueBuf::collect(&sval_buffer::ValueBuf::collect(v).ok()?).ok()?),
        9 => recorded(&sval_buffer::ValueBuf::collect(v).ok()?.into_value()),
        10 => {
            let b = sval_buffer::ValueBuf::collect(v).ok()?;
            let mut f = Full(Vec::new());
            let r = sval_ref::stream_ref(&mut f, &b);
            data(r, &f.0)
        }
        11 => Some(sval_buffer::TextBuf::collect(v).ok()?.as_str().to_owned()),
        12 => Some(format!("{:?}", sval_buffer::BinaryBuf::collect(v).ok()?.as_slice())),
        13 => Some(sval_buffer::TextBuf::collect_display(sval_fmt::ToFmt::new(v)).ok()?.as_str().to_owned()),
        14 => Some(format!("{:?}", sval_serde::ToSerialize::new(v).serialize(SRec::new()).ok()?)),
        15 => serde_json::to_string(&sval_serde::ToSerialize::new(v)).ok(),
        16 => recorded(&sval_serde::ToValue::new(sval_serde::ToSerialize::new(v))),
        17 => nested(NRec::new(Mode::Nested), v),
        18 => nested(NRec::new(Mode::Short), v),
        19 => nested(NRec::new(Mode::Flat), v),
        20 => nested(NMin, v),
        21..=25 => recorded(&Around { to: TOS[i - 21], start: 0, inner: vec![v] }),
        26 => {
            let mut s = Min(vec![]);
            let r = v.stream(&mut s);
            data(r, &canon(&s.0, Canon { hints: false, borrow: false, label_static: false, sizes: false }))
        }
        27 => {
            let mut s = Part { sink: vec![], mask: G_ALL & !(G_MAP | G_RECTUP) };
            let r = v.stream(&mut s);
            data(r, &canon(&s.sink, Canon { hints: false, borrow: false, label_static: false, sizes: false }))
        }
        28 => {
            let mut f = Full(Vec::new());
            let v: &dyn sval_dynamic::Value = v;
            let r = sval::Value::stream(v, &mut f as &mut dyn sval_dynamic::Stream);
            data(r, &f.0)
        }
        29 => Some(format!("{:?}", casts(v))),
        30 => Some(format!("{:?}", casts(&sval_buffer::Value::collect(v).ok()?))),
        _ => recorded(&sval_buffer::BinaryBuf::collect(v).ok()?),
    }
}

/// Write the result of a case down, or compare it.
fn judge(c: &mut Ctx, case: impl Fn() -> String, key: u64, run: impl FnOnce() -> Option<String>) -> Res {
    if FULL {
        let h = match no_panic(run) {
            Ok(Some(s)) => hash(s),
            Ok(None) => 0,
            // nothing to compare with
            Err(_) => 1,
        };
        WRITTEN.lock().unwrap().push((key, h));
        return Ok(());
    }
    let want = match table().get(&key) {
        Some(h) => *h,
        None => fail!("the full build did not run {}", case()),
    };
    if want == 1 {
        return Ok(());
    }
    let got = match no_panic(run) {
        Ok(g) => g,
        Err(p) => fail!("{} panics without an allocator: {}", case(), p),
    };
    c.outcome(&got);
    c.describe(|| format!("{}: {:?}", case(), got));
    if let Some(g) = got {
        if want == 0 {
            fail!("{} gives {} without an allocator, and is refused with one", case(), g);
        }
        if hash(&g) != want {
            fail!("{} gives {} without an allocator, and something else with one", case(), g);
        }
    }
    Ok(())
}

/// Values of types that need no allocator.
fn builtin(i: usize, f: &mut dyn FnMut(&'static str, &dyn sval_dynamic::Value)) -> usize {
    let mut n = 0;
    macro_rules! all {
        ($($t:literal: $($v:expr),+;)*) => { $($( if n == i { f($t, &$v); } n += 1; )+)* };
    }
    struct D(&'static [&'static str]);
    impl std::fmt::Display for D {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            self.0.iter().try_for_each(|s| f.write_str(s))
        }
    }
    all! {
        "u8": 0u8, 255u8; "u16": 0u16, u16::MAX; "u32": 1u32, u32::MAX; "u64": 1u64, u64::MAX; "u128": 1u128, u64::MAX as u128, u64::MAX as u128 + 1, u128::MAX;
        "i8": -1i8, i8::MIN; "i16": i16::MIN; "i32": i32::MIN, -1i32; "i64": i64::MIN, i64::MAX; "i128": i128::MIN, i128::MAX, i64::MIN as i128, i64::MIN as i128 - 1;
        "f32": 0f32, -0f32, 1.5f32, f32::MAX, f32::MIN_POSITIVE, f32::NAN, f32::INFINITY; "f64": 0f64, -0f64, 0.1f64, f64::MAX, f64::MIN_POSITIVE, 5e-324f64, f64::NAN, f64::NEG_INFINITY, 1e16f64;
        "bool": true, false; "char": 'a', '\u{1F600}', '"'; "str": "", "a\"é\u{1}"; "unit": ();
        "option": Some(1), None::<i32>, Some(Some("x")), Some(None::<u8>);
        "array": [0u8; 0], [1u8, 2], [Some("a"), None]; "slice": &[1, 2, 3][..], &["a"][..]; "reference": &&1;
        "tuple": (1,), (1, "a"), (1, (2, "b"), [3]), (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12);
        "binary": sval::BinarySlice::new(&[1, 200]), sval::BinaryArray::new(&[1, 2]), sval::BinarySlice::new(&[]);
        "display": sval::Display::new(D(&["a", "", "b"])), sval::Display::new(D(&["a"])), sval::Display::new(D(&[])), sval::Display::new(1.5);
        "map": sval::MapSlice::new(&[("a", 1), ("b", 2)]);
    }
    n
}

fn check(thorough: bool) -> Check {
    let b = if thorough { 4 } else { 3 };
    let mut g = Gen::basic();
    g.leaves.extend([Kind::Text("a\"é".into(), vec![1]), Kind::Text("".into(), vec![0]), Kind::Bin(vec![7, 200], vec![1]), Kind::U128(u128::MAX), Kind::I128(i128::MIN), Kind::F64(f64::NAN)]);
    let leaves: Vec<Kind> = number_leaves().into_iter().chain(g.leaves.clone()).collect();
    if thorough {
        g.leaves = Gen::basic().leaves;
        g.leaves.push(Kind::Text("ab".into(), vec![1]));
    }
    let builtins = builtin(usize::MAX, &mut |_, _| ());
    Check {
        suites: vec![
            suite("leaves", format!("all leaves in 12 styles, {} consumers", NAMES.len()), move |c| {
                let n = Node::new(leaves[c.pick(leaves.len())].clone());
                let st = c.pick(12);
                let n = n.styled(Style::ALL[st]);
                let i = c.pick(NAMES.len());
                c.step(1);
                let evs = n.evs();
                judge(c, || format!("{} of {:?} (style {})", NAMES[i], evs, st), hash((0, &evs, st, i)), || result(i, &n))
            }),
            suite("trees", format!("every value tree of at most {} nodes in 4 styles, {} consumers", b, NAMES.len()), move |c| {
                let n = g.node(c, b);
                let st = c.pick(4);
                let n = n.styled(Style::SHORT[st]);
                let i = c.pick(NAMES.len());
                let evs = n.evs();
                c.step(evs.len());
                judge(c, || format!("{} of {:?} (style {})", NAMES[i], evs, st), hash((1, &evs, st, i)), || result(i, &n))
            }),
            suite("builtin", format!("{} values of built-in types, {} consumers", builtins, NAMES.len()), move |c| {
                let k = c.pick(builtins);
                let i = c.pick(NAMES.len());
                c.step(1);
                let mut r = Ok(());
                builtin(k, &mut |name, v| r = judge(c, || format!("{} of {} (value {})", NAMES[i], name, k), hash((2, k, i)), || result(i, &v)));
                r
            }),
            suite("fragments", "every sequence of at most 4 operations on text and binary buffers", move |c| {
                let n = c.pick(5);
                let ops: Vec<usize> = (0..n).map(|_| c.pick(7)).collect();
                let end = c.pick(4);
                let text = c.flag();
                c.step(n);
                judge(c, || format!("{} after operations {:?}, end {}", if text { "TextBuf" } else { "BinaryBuf" }, ops, end), hash((3, &ops, end, text)), || if text { text_ops(&ops, end) } else { binary_ops(&ops, end) })
            }),
            suite("sizes", sizes::bounds(thorough, if thorough { 300 } else { 70 }, 2) + &format!(", {} consumers", NAMES.len()), move |c| {
                let n = sizes::pick_in(c, if c.thorough { 300 } else { 70 }, 2);
                let st = c.pick(2);
                let n = n.styled(Style::SHORT[st * 3]);
                let i = c.pick(NAMES.len());
                let evs = n.evs();
                c.step(evs.len());
                judge(c, || format!("{} of {:?} (style {})", NAMES[i], evs, st), hash((4, &evs, st, i)), || result(i, &n))
            }),
            suite("names", metas::bounds() + &format!(", in 2 styles, {} consumers", NAMES.len()), move |c| {
                let n = match metas::pick(c) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let st = c.pick(2);
                let n = n.styled(Style::SHORT[st * 3]);
                let i = c.pick(NAMES.len());
                let evs = n.evs();
                c.step(evs.len());
                judge(c, || format!("{} of {:?} (style {})", NAMES[i], evs, st), hash((5, &evs, st, i)), || result(i, &n))
            }),
        ],
        assumptions: vec!["debug assertions are off: with them on, the crates report a missing allocator by panicking"],
    }
}

macro_rules! fragment_ops {
    ($name:ident, $buf:ident, $from:expr, $get:ident, $a:expr, $e:expr, $b:expr) => {
        fn $name(ops: &[usize], end: usize) -> Option<String> {
            let mut b = sval_buffer::$buf::new();
            for o in ops {
                match o {
                    0 => b.push_fragment($a).ok()?,
                    1 => b.push_fragment($e).ok()?,
                    2 => b.push_fragment_computed($b).ok()?,
                    3 => b.push_fragment_computed($e).ok()?,
                    4 => b.clear(),
                    5 => b = b.clone(),
                    _ => b = $from,
                }
            }
            Some(match end {
                0 => format!("{:?}", b.$get()),
                1 => {
                    let mut f = Full(Vec::new());
                    let r = sval_ref::stream_ref(&mut f, &b);
                    data(r, &f.0)?
                }
                2 => recorded(&b)?,
                _ => format!("{:?}", sval_buffer::$buf::collect(&b).ok()?.$get()),
            })
        }
    };
}
fragment_ops!(text_ops, TextBuf, sval_buffer::TextBuf::from("xy"), as_str, "a", "", "b");
fragment_ops!(binary_ops, BinaryBuf, sval_buffer::BinaryBuf::from(&[8u8, 9][..]), as_slice, b"a", b"", b"b");

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if FULL {
        // mcn <tier> <file>
        install_panic_hook();
        let thorough = args[1] == "thorough";
        let slots = Slots::none(std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8));
        for (i, s) in check(thorough).suites.iter().enumerate() {
            explore(s, i, &slots, &[], None, thorough);
        }
        let mut o = Vec::new();
        for (k, h) in WRITTEN.lock().unwrap().iter() {
            o.extend(k.to_le_bytes());
            o.extend(h.to_le_bytes());
        }
        std::fs::write(&args[2], o).expect("write results");
        return;
    }
    main_with(|id, thorough| (id == "C24").then(|| check(thorough)))
}
