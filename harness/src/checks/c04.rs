//! C04: arbitrary-precision number text becomes an equal, valid JSON number.
use super::Check;
use crate::engine::*;
use crate::sizes;
use crate::ev::*;
use crate::model::*;
use crate::jsonref;

/// (negative, digits without leading zeros, exponent) with trailing zeros removed; zero is (false, "", 0).
fn normal(s: &str) -> Option<(bool, String, i128)> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut neg = false;
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        neg = b[i] == b'-';
        i += 1;
    }
    let mut digits = String::new();
    let a = i;
    while i < b.len() && b[i].is_ascii_digit() {
        digits.push(b[i] as char);
        i += 1;
    }
    if a == i {
        return None;
    }
    let mut exp: i128 = 0;
    if i < b.len() && b[i] == b'.' {
        i += 1;
        let a = i;
        while i < b.len() && b[i].is_ascii_digit() {
            digits.push(b[i] as char);
            exp -= 1;
            i += 1;
        }
        if a == i {
            return None;
        }
    }
    if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
        i += 1;
        let mut eneg = false;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            eneg = b[i] == b'-';
            i += 1;
        }
        let a = i;
        let mut e: i128 = 0;
        while i < b.len() && b[i].is_ascii_digit() {
            e = e * 10 + (b[i] - b'0') as i128;
            i += 1;
        }
        if a == i {
            return None;
        }
        exp += if eneg { -e } else { e };
    }
    if i != b.len() {
        return None;
    }
    let d = digits.trim_start_matches('0');
    let t = d.trim_end_matches('0');
    exp += (d.len() - t.len()) as i128;
    if t.is_empty() {
        return Some((false, String::new(), 0));
    }
    Some((neg, t.to_string(), exp))
}

/// Draw a string of the documented grammar, character class by character class.
fn number(c: &mut Ctx, max_int: usize, max_frac: usize, max_exp: usize, digits: &[char]) -> String {
    let mut s = String::new();
    s.push_str(["", "-", "+"][c.pick(3)]);
    let n = 1 + c.pick(max_int);
    for _ in 0..n {
        s.push(*c.of(digits));
    }
    let n = c.pick(max_frac + 1);
    if n > 0 {
        s.push('.');
        for _ in 0..n {
            s.push(*c.of(digits));
        }
    }
    let n = c.pick(max_exp + 1);
    if n > 0 {
        s.push(['e', 'E'][c.pick(2)]);
        s.push_str(["", "-", "+"][c.pick(3)]);
        for _ in 0..n {
            s.push(*c.of(digits));
        }
    }
    s
}

fn check_one(c: &mut Ctx, s: &str, cuts: Vec<usize>, pos: usize, borrowed: bool) -> Res {
    let num = Node::new(Kind::Tagged(m(T_NUMBER, None, None), Box::new(Node::new(Kind::Text(s.into(), cuts.clone())))));
    let tail = Node::text("x\"");
    let (n, pre, post) = match pos {
        0 => (num, "", ""),
        1 => (Node::new(Kind::Seq(vec![num.clone(), tail])), "[", ",\"x\\\"\"]"),
        2 => (Node::new(Kind::Map(vec![(num, tail)])), "{\"", "\":\"x\\\"\"}"),
        3 => (Node::new(Kind::Record(M::default(), vec![(0, ident("f"), num), (0, ident("g"), tail)])), "{\"f\":", ",\"g\":\"x\\\"\"}"),
        _ => (Node::new(Kind::Enum(M::default(), Box::new(Node::new(Kind::Tagged(m(0, Some(ident("V")), None), Box::new(num)))))), "{\"V\":", "}"),
    };
    let n = n.styled(Style { child: Child::Value, borrowed, sizes: borrowed });
    c.step(n.evs().len());
    let out = match sval_json::stream_to_string(&n) {
        Ok(o) => o,
        Err(_) => fail!("number {:?} cut at {:?} was refused", s, cuts),
    };
    c.outcome(&out);
    c.describe(|| format!("{:?} cut at {:?} in position {} => {}", s, cuts, pos, out));
    if let Err(e) = jsonref::parse(&out) {
        fail!("number {:?} cut at {:?} written as invalid JSON {} ({})", s, cuts, out, e);
    }
    let body = out.strip_prefix(pre).and_then(|o| o.strip_suffix(post));
    let body = match body {
        Some(b) => b,
        None => fail!("number {:?} in position {} written as {}", s, pos, out),
    };
    match normal(s) {
        Some(want) => {
            ensure!(normal(body).as_ref() == Some(&want), "number {:?} cut at {:?} written as the different number {}", s, cuts, body);
        }
        None => ensure!(body == "null", "{:?} cut at {:?} written as {}", s, cuts, body),
    }
    Ok(())
}

const SPECIAL: &[&str] = &["nan", "NaN", "NAN", "snan", "sNaN", "-nan", "+nan", "inf", "-inf", "+inf", "Inf", "infinity", "-Infinity", "INFINITY", "snan0", "nan123", "-snan(0x1)"];

pub fn check(thorough: bool) -> Check {
    let (mi, mf, me) = if thorough { (4, 3, 3) } else { (3, 2, 2) };
    Check {
        suites: vec![
            suite("grammar", format!("every number with up to {} integral, {} fractional and {} exponent digits over {{0,1,9}}, all signs", mi, mf, me), move |c| {
                let s = number(c, mi, mf, me, &['0', '1', '9']);
                let cut = c.pick(s.len() + 2);
                let cuts = if cut == 0 { vec![] } else { vec![cut - 1] };
                check_one(c, &s, cuts, 0, true)
            }),
            suite("all-cuts", "numbers with up to 3+2+1 digits over {0,7}: every set of cut positions", move |c| {
                let (a, b, e) = if c.thorough { (3, 2, 2) } else { (3, 1, 1) };
                let s = number(c, a, b, e, &['0', '7']);
                let borrowed = c.flag();
                let mut cuts = vec![];
                for i in 0..=s.len() {
                    if c.flag() {
                        cuts.push(i);
                    }
                }
                check_one(c, &s, cuts, 0, borrowed)
            }),
            suite("positions", "numbers with up to 2+1+1 digits in value, sequence, map key, field and variant position", move |c| {
                let s = number(c, 2, 1, 1, &['0', '5']);
                let pos = c.pick(5);
                let cut = c.pick(s.len() + 2);
                let cuts = if cut == 0 { vec![] } else { vec![cut - 1] };
                let b = c.flag();
                check_one(c, &s, cuts, pos, b)
            }),
            suite("non-finite", "every NaN/infinity spelling, every single cut, every position", move |c| {
                let s = *c.of(SPECIAL);
                let pos = c.pick(5);
                let cut = c.pick(s.len() + 2);
                let cuts = if cut == 0 { vec![] } else { vec![cut - 1] };
                check_one(c, s, cuts, pos, true)
            }),
            suite("displayed", "boundary integers and floats streamed through the library's own number helper", move |c| {
                let nums: Vec<String> = number_leaves()
                    .iter()
                    .filter_map(|k| match k {
                        Kind::U128(v) => Some(v.to_string()),
                        Kind::I128(v) => Some(v.to_string()),
                        Kind::F64(v) => Some(v.to_string()),
                        Kind::F32(v) => Some(format!("{:e}", v)),
                        _ => None,
                    })
                    .collect();
                let s = c.of(&nums).clone();
                struct N<'a>(&'a str);
                impl<'a> sval::Value for N<'a> {
                    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
                        sval::stream_number(s, self.0)
                    }
                }
                let out = sval_json::stream_to_string(N(&s)).map_err(|_| Fail::from(format!("{} refused", s)))?;
                c.step(5);
                c.outcome(&out);
                match normal(&s) {
                    Some(w) => ensure!(normal(&out).as_ref() == Some(&w) && jsonref::parse(&out).is_ok(), "{} written as {}", s, out),
                    None => ensure!(out == "null", "{} written as {}", s, out),
                }
                Ok(())
            }),
            suite("long", "numbers with a run of 0, 1 or 9 of up to 70 (thorough: 1100) digits in the integral part, after leading zeros, in the fraction or in the exponent, whole and cut at every position of a spread", move |c| {
                let n = *c.of(&sizes::sizes(c.thorough, if c.thorough { 1100 } else { 70 }));
                let d = *c.of(&["0", "1", "9"]);
                let run = d.repeat(n);
                let sign = *c.of(&["", "-", "+"]);
                let s = match c.pick(6) {
                    0 => format!("{}1{}", sign, run),
                    1 => format!("{}{}7", sign, run),
                    2 => format!("{}0.{}3", sign, run),
                    3 => format!("{}5.5{}", sign, run),
                    4 => format!("{}{}0.0{}e-00{}", sign, run, run, n),
                    _ => format!("{}2E+{}4", sign, &run[..run.len().min(15)]),
                };
                let cuts = match c.pick(6) {
                    0 => vec![],
                    5 => (1..s.len()).collect(),
                    k => vec![(k * s.len() / 5).max(1).min(s.len() - 1)],
                };
                let pos = c.pick(5);
                check_one(c, &s, cuts, pos, true)
            }),
        ],
        assumptions: vec!["text outside the documented grammar is out of contract"],
    }
}
