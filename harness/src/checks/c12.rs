//! C12: cast shortcuts never disagree with what the value streams.
use super::Check;
use crate::engine::*;
use crate::metas;
use crate::sizes;
use crate::ev::*;
use crate::model::*;
use sval::Value;

pub use crate::shared::{casts, Casts};

/// What a cast may answer: `must` a value, or at most a value.
enum Want<T> {
    Must(T),
    May(T),
    Never,
}

fn one<T: PartialEq + std::fmt::Debug>(what: impl Fn() -> String, got: &Option<T>, want: Want<T>) -> Res {
    let ok = match (&want, got) {
        (Want::Must(w), Some(g)) | (Want::May(w), Some(g)) => w == g,
        (Want::Must(_), None) => false,
        (_, None) => true,
        (Want::Never, Some(_)) => false,
    };
    if ok {
        Ok(())
    } else {
        let w = match want {
            Want::Must(w) => format!("{:?}", w),
            Want::May(w) => format!("{:?} or nothing", w),
            Want::Never => "nothing".into(),
        };
        Err(Fail::from(format!("{} gave {:?}, expected {}", what(), got, w)))
    }
}

fn int_of(k: &Kind) -> Option<(bool, Option<i128>, Option<u128>)> {
    // (signed, as i128, as u128)
    macro_rules! s { ($v:expr) => { Some((true, Some(*$v as i128), u128::try_from(*$v).ok())) }; }
    macro_rules! u { ($v:expr) => { Some((false, i128::try_from(*$v).ok(), Some(*$v as u128))) }; }
    match k {
        Kind::I8(v) => s!(v),
        Kind::I16(v) => s!(v),
        Kind::I32(v) => s!(v),
        Kind::I64(v) => s!(v),
        Kind::I128(v) => s!(v),
        Kind::U8(v) => u!(v),
        Kind::U16(v) => u!(v),
        Kind::U32(v) => u!(v),
        Kind::U64(v) => u!(v),
        Kind::U128(v) => u!(v),
        _ => None,
    }
}

/// The scalar a value streams once tags are looked through, and whether it is borrowed.
fn leaf(n: &Node, computed: bool) -> Option<(Kind, bool)> {
    let kid = computed || n.st.child == Child::Computed;
    match &n.k {
        Kind::Tagged(_, x) | Kind::Enum(_, x) => leaf(x, kid),
        Kind::Tag(m) if m.tag == T_NONE => Some((Kind::Null, true)),
        Kind::Tag(m) => Some(match &m.label {
            Some(l) => (Kind::Text(l.text.clone(), vec![0]), false),
            None => (Kind::Null, true),
        }),
        Kind::Map(_) | Kind::Seq(_) | Kind::Record(..) | Kind::Tuple(..) | Kind::RecordTuple(..) => None,
        k => Some((k.clone(), n.st.borrowed && !computed)),
    }
}

fn outer_tag(n: &Node) -> Option<u8> {
    let t = |t: u8| if t == 0 { None } else { Some(t) };
    match &n.k {
        Kind::Tag(m) | Kind::Tagged(m, _) | Kind::Enum(m, _) | Kind::Record(m, _) | Kind::Tuple(m, _) | Kind::RecordTuple(m, _) => t(m.tag),
        Kind::F32(_) | Kind::F64(_) => Some(T_NUMBER),
        k if int_of(k).is_some() => Some(T_NUMBER),
        _ => None,
    }
}

pub fn check_casts(what: &str, n: &Node, g: &Casts) -> Res {
    let l = leaf(n, false);
    let k = l.as_ref().map(|l| &l.0);
    let borrowed = l.as_ref().map(|l| l.1).unwrap_or(false);
    let w = |m: &str| format!("{} of {} {:?}", m, what, n.evs());
    one(|| w("to_bool"), &g.bool, match k {
        Some(Kind::Bool(b)) => Want::Must(*b),
        _ => Want::Never,
    })?;
    one(|| w("to_f64"), &g.f64, match k {
        Some(Kind::F64(v)) => Want::Must(v.to_bits()),
        Some(Kind::F32(v)) => Want::Must((*v as f64).to_bits()),
        _ => Want::Never,
    })?;
    one(|| w("to_f32"), &g.f32, match k {
        Some(Kind::F32(v)) => Want::Must(v.to_bits()),
        Some(Kind::F64(v)) if ((*v as f32) as f64).to_bits() == v.to_bits() => Want::May((*v as f32).to_bits()),
        _ => Want::Never,
    })?;
    let int = k.and_then(int_of);
    // a built-in signed integer must answer at its own width; other signed casts may be refused
    let own = if what.contains("built-in") {
        match k {
            Some(Kind::I8(_)) => Some((true, 8)),
            Some(Kind::I16(_)) => Some((true, 16)),
            Some(Kind::I32(_)) => Some((true, 32)),
            Some(Kind::I64(_)) => Some((true, 64)),
            Some(Kind::I128(_)) => Some((true, 128)),
            _ => None,
        }
    } else {
        None
    };
    for (i, bits) in [8u32, 16, 32, 64, 128].into_iter().enumerate() {
        let (lo, hi) = if bits == 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) };
        let uhi = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
        one(|| w(&format!("to_i{}", bits)), &g.i[i], match int {
            Some((_, Some(v), _)) if v >= lo && v <= hi => if own == Some((true, bits)) { Want::Must(v) } else { Want::May(v) },
            _ => Want::Never,
        })?;
        one(|| w(&format!("to_u{}", bits)), &g.u[i], match int {
            Some((signed, _, Some(v))) if v <= uhi => if signed { Want::May(v) } else { Want::Must(v) },
            _ => Want::Never,
        })?;
    }
    one(|| w("to_text"), &g.text, match k {
        Some(Kind::Text(t, c)) if borrowed && c.is_empty() => Want::Must(t.clone()),
        Some(Kind::Text(t, _)) => Want::May(t.clone()),
        _ => Want::Never,
    })?;
    one(|| w("to_binary"), &g.binary, match k {
        Some(Kind::Bin(t, c)) if borrowed && c.is_empty() => Want::Must(t.clone()),
        Some(Kind::Bin(t, _)) => Want::May(t.clone()),
        _ => Want::Never,
    })?;
    let t = outer_tag(n);
    if g.tag != t {
        fail!("{} gave {:?}, expected {:?}", w("tag"), g.tag, t);
    }
    Ok(())
}

/// A value whose casts are all overridden with recognisable answers.
#[derive(Clone, Copy)]
struct Odd(bool);
macro_rules! odd {
    ($($f:ident -> $t:ty = $e:expr;)*) => { $(fn $f(&self) -> Option<$t> { if self.0 { Some($e) } else { None } })* };
}
impl Value for Odd {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        s.null()
    }
    odd! {
        tag -> sval::Tag = TAGS[T_Y as usize].clone();
        to_bool -> bool = true;
        to_f32 -> f32 = 1.5;
        to_f64 -> f64 = 2.5;
        to_i8 -> i8 = 3; to_i16 -> i16 = 4; to_i32 -> i32 = 5; to_i64 -> i64 = 6; to_i128 -> i128 = 7;
        to_u8 -> u8 = 8; to_u16 -> u16 = 9; to_u32 -> u32 = 10; to_u64 -> u64 = 11; to_u128 -> u128 = 12;
    }
    fn to_text(&self) -> Option<&str> { if self.0 { Some("odd") } else { None } }
    fn to_binary(&self) -> Option<&[u8]> { if self.0 { Some(b"odd") } else { None } }
}

const WRAPS: [&str; 13] = ["direct", "&", "&&", "Box", "dyn", "dyn+Send", "dyn+Send+Sync", "Box<dyn>", "Ref", "Ref borrowed", "Option", "Option<&>", "&Option<Box>"];

/// Casts through a wrapper; for options the tag is that of the option.
fn wrapped<V: Value + Clone + Send + Sync>(w: usize, v: &V) -> Casts {
    match w {
        0 => casts(v),
        1 => casts(&v),
        2 => casts(&&v),
        3 => casts(&Box::new(v.clone())),
        4 => casts(v as &dyn sval_dynamic::Value),
        5 => casts(v as &(dyn sval_dynamic::Value + Send)),
        6 => casts(v as &(dyn sval_dynamic::Value + Send + Sync)),
        7 => casts(&(Box::new(v.clone()) as Box<dyn sval_dynamic::Value>)),
        8 => casts(&sval_ref::Ref::new(v.clone())),
        9 => casts(sval_ref::Ref::new_borrowed(v)),
        10 => casts(&Some(v.clone())),
        11 => casts(&Some(v)),
        _ => casts(&&Some(Box::new(v.clone()))),
    }
}

fn check_wrapped<V: Value + Clone + Send + Sync>(c: &mut Ctx, v: &V, what: &dyn Fn() -> String) -> Result<Casts, Fail> {
    let direct = casts(v);
    let w = c.pick(WRAPS.len());
    let mut want = direct.clone();
    if w >= 10 {
        want.tag = Some(T_SOME);
    }
    let got = wrapped(w, v);
    c.step(17);
    c.outcome(&got);
    if got != want {
        return Err(Fail::from(format!("{} of {} answers {:?} instead of {:?}", WRAPS[w], what(), got, want)));
    }
    Ok(direct)
}

fn check_node(c: &mut Ctx, n: &Node) -> Res {
    let direct = check_wrapped(c, n, &|| format!("{:?}", n.evs()))?;
    c.describe(|| format!("{:?} => {:?}", n.evs(), direct));
    check_casts("", n, &direct)?;
    // a buffered copy may answer more (its text is contiguous), never differently
    let b = sval_buffer::ValueBuf::collect(n).map_err(|e| Fail::from(format!("collect: {}", e)))?;
    let bc = casts(&b);
    check_casts("a buffer of", n, &bc)?;
    let v = b.to_value();
    if casts(&v) != bc {
        fail!("a buffered value of {:?} answers {:?}, its buffer {:?}", n.evs(), casts(&v), bc);
    }
    Ok(())
}

/// The built-in scalar types, which override some casts.
fn native(c: &mut Ctx, k: &Kind) -> Res {
    let n = Node::new(k.clone());
    let what = || format!("the built-in value {:?}", n.evs());
    macro_rules! go { ($($K:ident),*) => { match k { $(Kind::$K(v) => check_wrapped(c, v, &what)?,)*
        Kind::Text(t, _) => {
            let a = check_wrapped(c, t, &what)?;
            let b = casts(t.as_str());
            if a != b { fail!("str answers {:?}, String {:?}", b, a); }
            a
        }
        Kind::Bin(t, _) => casts(sval::BinarySlice::new(t)),
        _ => return Ok(()),
    } } }
    let got = go!(Bool, U8, U16, U32, U64, U128, I8, I16, I32, I64, I128, F32, F64);
    c.describe(|| format!("built-in {:?}", n.evs()));
    check_casts("the built-in value", &n, &got)
}

/// The pieces built-in texts and binaries are put together from.
const PIECES: [&str; 12] = ["", "a", "0", "true", "\0", " ", "\n", "\"", "\\", "\u{e9}", "\u{fffd}", "\u{1f600}"];

/// A built-in text or binary of every length, with a particular first and last piece.
fn native_bytes(c: &mut Ctx, max: usize) -> Res {
    let first = *c.of(&PIECES);
    let last = *c.of(&PIECES);
    let fill = if c.flag() { "x" } else { "" };
    let len = if fill.is_empty() { 0 } else { 1 + c.pick(max) };
    let t = format!("{}{}{}", first, fill.repeat(len), last);
    let form = c.pick(6);
    c.describe(|| format!("built-in form {} of {:?}", form, t));
    let text = Node::new(Kind::Text(t.clone(), vec![]));
    let bin = Node::new(Kind::Bin(t.clone().into_bytes(), vec![]));
    let (n, got) = match form {
        0 => (text, casts(t.as_str())),
        1 => (text, casts(&t)),
        2 => (text, casts(&t.clone().into_boxed_str())),
        3 => (text, casts(&sval_buffer::TextBuf::from(t.as_str()))),
        4 => (bin, casts(&sval_buffer::BinaryBuf::from(t.as_bytes()))),
        _ => (bin, casts(sval::BinarySlice::new(t.as_bytes()))),
    };
    c.step(17);
    c.outcome(&got);
    check_casts("the built-in value", &n, &got)
}

/// Binary arrays: their length is part of the type, so each length is its own code.
fn native_array(c: &mut Ctx) -> Res {
    let fill = [b"abcdefgh".as_slice(), b"\0\0\0\0", b"1234", b"\xff\xfe", "\u{e9}\u{e9}".as_bytes(), b"  \n "][c.pick(6)];
    macro_rules! arrays {
        ($($n:literal)*) => {{
            let sizes = [$($n),*];
            let len: usize = *c.of(&sizes);
            let data: Vec<u8> = fill.iter().copied().cycle().take(len).collect();
            let got = match len {
                $($n => {
                    let a: &[u8; $n] = data.as_slice().try_into().unwrap();
                    let direct = casts(sval::BinaryArray::new(a));
                    let by_ref = casts(&sval::BinaryArray::new(a));
                    if direct != by_ref { fail!("a binary array of {} answers {:?}, by reference {:?}", len, direct, by_ref); }
                    direct
                })*
                _ => return Ok(()),
            };
            (data, got)
        }};
    }
    let (data, got) = arrays!(0 1 2 3 4 5 6 7 8 9 12 15 16 17 20 24 31 32 33 48 63 64 65 100 127 128 129 255 256 257 512 1024);
    c.step(17);
    c.outcome(&got);
    c.describe(|| format!("an array of {:?}", data));
    let want = Casts { binary: Some(data), tag: Some(T_CONST), ..Casts::default() };
    if got != want {
        fail!("a binary array answers {:?} instead of {:?}", got, want);
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let mut g = Gen::basic();
    g.leaves = number_leaves();
    g.leaves.extend([Kind::Null, Kind::Bool(true), Kind::Bool(false)]);
    for t in ["", "a", "true", "12"] {
        g.leaves.extend([Kind::Text(t.into(), vec![]), Kind::Text(t.into(), vec![0]), Kind::Text(t.into(), vec![t.len()]), Kind::Text(t.into(), vec![0, t.len(), t.len()])]);
        g.leaves.extend([Kind::Bin(t.into(), vec![]), Kind::Bin(t.into(), vec![0]), Kind::Bin(t.into(), vec![t.len()]), Kind::Bin(t.into(), vec![0, t.len(), t.len()])]);
    }
    g.tag_metas = rich_metas();
    g.tagged_metas = vec![M::default(), m(T_X, lab("L"), ix(0)), m(T_NUMBER, None, None), m(T_SOME, None, None)];
    let native_leaves = g.leaves.clone();
    let g1 = g.clone();
    g.kinds = K_TAGGED | K_ENUM | K_TAG;
    let mut g2 = Gen::basic();
    g2.leaves = vec![Kind::Bool(true), Kind::U8(1), Kind::I64(-1), Kind::F64(0.5), Kind::Text("x".into(), vec![]), Kind::Bin(vec![1], vec![])];
    let b = if thorough { 5 } else { 4 };
    let b2 = if thorough { 5 } else { 4 };
    Check {
        suites: vec![
            suite("scalars", format!("every boundary scalar under every stack of tagged/enum layers of at most {} nodes x 13 wrappers x 4 styles", b), move |c| {
                let st = *c.of(&Style::SHORT);
                let n = g.node(c, b - 1).styled(st);
                check_node(c, &n)
            }),
            suite("containers", format!("every value tree of at most {} nodes x 13 wrappers", b2), move |c| {
                let n = g2.node(c, b2);
                check_node(c, &n)
            }),
            suite("positions", "every boundary scalar in every container position", move |c| {
                let n = g1.node(c, 2);
                check_node(c, &n)
            }),
            suite("native", "the built-in scalar types at every boundary value x 13 wrappers", move |c| {
                let k = c.of(&native_leaves).clone();
                native(c, &k)
            }),
            suite("native-small", "every u8, i8, u16 and i16", |c| {
                let t = c.pick(4);
                let hi = c.pick(256) as u16;
                let k = match t {
                    0 => Kind::U8(hi as u8),
                    1 => Kind::I8(hi as u8 as i8),
                    _ => {
                        let v = hi << 8 | c.pick(256) as u16;
                        if t == 2 { Kind::U16(v) } else { Kind::I16(v as i16) }
                    }
                };
                native(c, &k)
            }),
            suite("overrides", "values overriding every cast, present and absent, behind every wrapper", |c| {
                let on = c.flag();
                let got = check_wrapped(c, &Odd(on), &|| "a value with overridden casts".into())?;
                c.describe(|| format!("{:?}", got));
                if (got.bool == Some(true)) != on || (got.u[4] == Some(12)) != on {
                    fail!("overridden casts are not used");
                }
                Ok(())
            }),
            suite("arrays", "binary arrays, options without a value, units", |c| {
                let w = c.pick(4);
                let got = match w {
                    0 => casts(sval::BinaryArray::new(b"ab")),
                    1 => casts(&None::<&str>),
                    2 => casts(&()),
                    _ => casts(&'x'),
                };
                c.outcome(&got);
                c.describe(|| format!("{:?}", got));
                let mut want = Casts::default();
                match w {
                    0 => {
                        want.binary = Some(b"ab".to_vec());
                        want.tag = Some(T_CONST);
                    }
                    1 => want.tag = Some(T_NONE),
                    2 => want.tag = Some(T_UNIT),
                    _ => (),
                }
                if got != want {
                    fail!("case {} answers {:?} instead of {:?}", w, got, want);
                }
                Ok(())
            }),
            suite("native-bytes", "the built-in texts and binaries: every pair of 12 first and last pieces (NUL, blanks, quotes, multi-byte, ...) around every length up to 1100 (thorough: 4000) x 6 types", move |c| native_bytes(c, if c.thorough { 4000 } else { 1100 })),
            suite("native-arrays", "binary arrays of 32 lengths from 0 to 1024 bytes x 6 contents", native_array),
            suite("names", metas::bounds(), move |c| {
                let n = match metas::pick(c) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                check_node(c, &n)
            }),
            suite("sizes", sizes::bounds(thorough, if thorough { 5000 } else { 1100 }, 2), move |c| {
                let n = sizes::pick_in(c, if c.thorough { 5000 } else { 1100 }, 2);
                check_node(c, &n)
            }),
        ],
        assumptions: vec!["casts of signed integers to another width and casts across signedness may be refused; they may not be wrong"],
    }
}
