//! C25: the experimental JSON reader streams the data of the document it is given.
use super::Check;
use crate::engine::*;
use crate::sizes;
use crate::ev::*;
use crate::jsonref::{parse, J};
use crate::shared::norm;
use sval::Stream;
use sval_experiments::json::from_slice;

/// The events that carry the data of a document.
fn events(j: &J, o: &mut Vec<Ev>) {
    let tagged = |t: &sval::Tag| M { tag: tag_id(t), label: None, index: None };
    match j {
        J::Null => o.push(Ev::Null),
        J::Bool(b) => o.push(Ev::Bool(*b)),
        J::Num(n) => {
            o.push(Ev::TaggedBegin(tagged(&sval_json::tags::JSON_NUMBER)));
            o.push(Ev::TaggedBegin(tagged(&sval::tags::NUMBER)));
            o.push(Ev::TextBegin(None));
            o.push(Ev::Text(n.clone(), true));
            o.push(Ev::TextEnd);
            o.push(Ev::TaggedEnd(tagged(&sval::tags::NUMBER)));
            o.push(Ev::TaggedEnd(tagged(&sval_json::tags::JSON_NUMBER)));
        }
        J::Str(s) => {
            o.push(Ev::TextBegin(None));
            o.push(Ev::Text(s.clone(), true));
            o.push(Ev::TextEnd);
        }
        J::Arr(v) => {
            o.push(Ev::SeqBegin(None));
            for x in v {
                o.push(Ev::SeqValueBegin);
                events(x, o);
                o.push(Ev::SeqValueEnd);
            }
            o.push(Ev::SeqEnd);
        }
        J::Obj(v) => {
            o.push(Ev::MapBegin(None));
            for (k, x) in v {
                o.push(Ev::MapKeyBegin);
                events(&J::Str(k.clone()), o);
                o.push(Ev::MapKeyEnd);
                o.push(Ev::MapValueBegin);
                events(x, o);
                o.push(Ev::MapValueEnd);
            }
            o.push(Ev::MapEnd);
        }
    }
}

fn judge(c: &mut Ctx, src: &str) -> Res {
    let want = match parse(src) {
        Ok(j) => j,
        Err(e) => fail!("harness: the generator made a bad document {:?}: {}", src, e),
    };
    c.describe(|| format!("{:?}", src));
    let (evs, r) = match no_panic(|| record(from_slice(src))) {
        Ok(r) => r,
        Err(e) => fail!("panic: reading {:?} panics: {}", src, e),
    };
    ensure!(r.is_ok(), "refused: reading {:?} fails", src);
    c.step(evs.len());
    if let Err(e) = well_formed(&evs) {
        fail!("unbalanced: the events of {:?} are not one value: {}", src, e);
    }
    let mut expected = vec![];
    events(&want, &mut expected);
    // the tags around numbers are how the reader marks them, the text is the data
    let strip = |evs: &[Ev]| -> Vec<Ev> { norm(evs).into_iter().filter(|e| !matches!(e, Ev::TaggedBegin(_) | Ev::TaggedEnd(_))).collect() };
    ensure!(strip(&evs) == strip(&expected), "data: {:?} streams {:?}", src, evs);
    c.outcome(&format!("{:?}", strip(&evs)));
    let out = match no_panic(|| sval_json::stream_to_string(from_slice(src))) {
        Ok(Ok(s)) => s,
        Ok(Err(_)) => fail!("rewrite: writing {:?} again fails", src),
        Err(e) => fail!("rewrite: writing {:?} again panics: {}", src, e),
    };
    match parse(&out) {
        Ok(j) if j == want => {}
        _ => fail!("rewrite: {:?} is written as {:?}", src, out),
    }
    // and what the writer wrote, the reader reads
    let (again, r) = record(from_slice(&out));
    ensure!(r.is_ok() && strip(&again) == strip(&expected), "reread: {:?}, written as {:?}, streams {:?}", src, out, again);
    Ok(())
}

struct DocGen {
    leaves: Vec<&'static str>,
    keys: Vec<&'static str>,
    width: usize,
}

impl DocGen {
    /// `gap` is the whitespace put between all tokens
    fn doc(&self, c: &mut Ctx, budget: &mut usize, gap: &str, o: &mut String) {
        *budget -= 1;
        let containers = if *budget > 0 { 4 } else { 2 };
        let i = c.pick(self.leaves.len() + containers);
        if i < self.leaves.len() {
            o.push_str(self.leaves[i]);
            return;
        }
        match i - self.leaves.len() {
            0 => o.push_str(&format!("[{}]", gap)),
            1 => o.push_str(&format!("{{{}}}", gap)),
            k => {
                let n = 1 + c.pick(self.width.min(*budget));
                let obj = k == 3;
                // what the later children need at least
                let mut reserve = n;
                o.push(if obj { '{' } else { '[' });
                for j in 0..n {
                    if j > 0 {
                        o.push_str(gap);
                        o.push(',');
                    }
                    o.push_str(gap);
                    if obj {
                        o.push_str(c.of(&self.keys));
                        o.push_str(gap);
                        o.push(':');
                        o.push_str(gap);
                    }
                    reserve -= 1;
                    *budget -= reserve;
                    self.doc(c, budget, gap, o);
                    *budget += reserve;
                }
                o.push_str(gap);
                o.push(if obj { '}' } else { ']' });
            }
        }
    }
}

const GAPS: &[&str] = &["", " ", "\r\n\t "];
const STRS: &[&str] = &["a", "é", "𝄞", "\\n", "\\r", "\\\"", "\\\\", "{", "]", ",", ":", " ", "1", "true", "\u{7f}"];

pub fn check(thorough: bool) -> Check {
    let budget = if thorough { 5 } else { 4 };
    let mut suites = vec![];
    suites.push(suite("documents", format!("all documents of up to {} nodes over 7 leaves and 4 keys, arrays and objects of up to 3 entries (keys may repeat), 3 styles of whitespace", budget), move |c| {
        let g = DocGen {
            leaves: vec!["null", "true", "false", "-1.5e3", "\"\"", "\"x\"", "\"\\n]\""],
            keys: vec!["\"\"", "\"a\"", "\"b\"", "\"a\\\"b\""],
            width: 3,
        };
        let gap = c.of(GAPS).to_string();
        let mut s = gap.clone();
        let mut b = budget;
        g.doc(c, &mut b, &gap, &mut s);
        s.push_str(&gap);
        judge(c, &s)
    }));
    let deep = if thorough { 8 } else { 7 };
    suites.push(suite("shapes", format!("all documents of up to {} nodes over one leaf and one key", deep), move |c| {
        let g = DocGen { leaves: vec!["1"], keys: vec!["\"k\""], width: 4 };
        let mut s = String::new();
        let mut b = deep;
        g.doc(c, &mut b, "", &mut s);
        judge(c, &s)
    }));
    let places = ["@", "[@]", "[1,@]", "[@,1]", "{\"k\":@}", "{\"k\":1,\"l\":@}", "{\"k\":@,\"l\":1}", "[[@]]", "[{\"k\":@}]", "{\"k\":[@]}", " @ ", "[ @ , @ ]"];
    let pieces = if thorough { 4 } else { 3 };
    suites.push(suite("strings", format!("all strings of up to {} pieces out of 15 (escapes, structural characters, multi-byte characters), as a value in 12 places and as a key in 3", pieces), move |c| {
        let n = c.pick(pieces + 1);
        let mut s = String::from("\"");
        for _ in 0..n {
            s.push_str(c.of(STRS));
        }
        s.push('"');
        let p = c.pick(places.len() + 3);
        let doc = match p.checked_sub(places.len()) {
            None => places[p].replace('@', &s),
            Some(0) => format!("{{{}:1}}", s),
            Some(1) => format!("{{{}:{{{} : null}}}}", s, s),
            Some(_) => format!("[{{\"a\":1,{}:[]}}]", s),
        };
        judge(c, &doc)
    }));
    let digits = if thorough { 4 } else { 3 };
    suites.push(suite("numbers", format!("all numbers of an optional sign, an integer part of up to {} digits of 0, 1, 9, a fraction and an exponent (lower case) of up to 2, in 12 places; and 40-digit ones", digits), move |c| {
        let mut s = String::new();
        if c.flag() {
            s.push('-');
        }
        let part = |c: &mut Ctx, s: &mut String, max: usize, lead: bool| {
            let n = 1 + c.pick(max);
            for i in 0..n {
                let zero_ok = !(lead && i == 0 && n > 1);
                s.push_str(c.of(if zero_ok { &["0", "1", "9"][..] } else { &["1", "9"][..] }));
            }
        };
        if c.pick(8) == 0 {
            s.push_str("1234567890123456789012345678901234567890");
        } else {
            part(c, &mut s, digits, true);
        }
        if c.flag() {
            s.push('.');
            part(c, &mut s, 2, false);
        }
        match c.pick(4) {
            0 => {}
            k => {
                s.push_str(["", "e", "e-", "e+"][k]);
                part(c, &mut s, 2, false);
            }
        }
        let p = c.of(&places).to_string();
        judge(c, &p.replace('@', &s))
    }));
    suites.push(suite("depth", "every nesting of arrays and objects up to depth 10 (12), then each of them repeated to depth 20, 80 and 150 (where it may be refused, but not misread); and chains of one kind to depth 100", move |c| {
        let kinds: Vec<bool> = if c.flag() {
            let d = 1 + c.pick(100);
            let k = c.flag();
            vec![k; d]
        } else {
            let d = 1 + c.pick(if c.thorough { 12 } else { 10 });
            let base: Vec<bool> = (0..d).map(|_| c.flag()).collect();
            match c.pick(4) {
                0 => base,
                k => base.iter().cycle().take([20, 80, 150][k - 1]).copied().collect(),
            }
        };
        let tail = c.flag();
        let mut s = String::new();
        for k in &kinds {
            s.push_str(if *k { "{\"k\":" } else { "[" });
        }
        s.push_str("null");
        for k in kinds.iter().rev() {
            if tail {
                s.push_str(if *k { ",\"t\":1" } else { ",1" });
            }
            s.push(if *k { '}' } else { ']' });
        }
        if kinds.len() > 100 {
            match no_panic(|| record(from_slice(&s))) {
                Ok((_, Ok(()))) => {}
                Ok((_, Err(_))) => {
                    c.step(1);
                    c.outcome("refused");
                    return Ok(());
                }
                Err(e) => fail!("panic: reading {:?} panics: {}", s, e),
            }
        }
        judge(c, &s)
    }));
    suites.push(suite("sizes", "arrays, objects, strings and numbers of each size up to 1100 (thorough 66000), alone and inside an array", move |c| {
        let n = *c.of(&sizes::sizes(c.thorough, if c.thorough { 66000 } else { 1100 }));
        let join = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<Vec<_>>().join(",");
        let s = match c.pick(7) {
            0 => format!("[{}]", join(&|i| i.to_string())),
            1 => format!("[{}]", join(&|i| ["[]", "{}", "null", "\"]\"", "[1]"][i % 5].into())),
            2 => format!("{{{}}}", join(&|i| format!("\"k{}\":{}", i, i))),
            3 => format!("{{{}}}", join(&|i| format!("\"k\":{}", ["[]", "{\"a\":1}", "\"\\n\""][i % 3]))),
            4 => format!("\"{}\"", "x".repeat(n)),
            5 => format!("\"{}\"", (0..n).map(|i| ["a", "\\n", "é", "\\\""][i % 4]).collect::<String>()),
            _ => format!("1{}", "0".repeat(n)),
        };
        let s = match c.pick(3) {
            0 => s,
            1 => format!("[{},1]", s),
            _ => format!("{{\"a\":{},\"b\":1}}", s),
        };
        judge(c, &s)
    }));
    suites.push(suite("failing stream", "every document of up to 3 nodes into a stream that fails at every event: nothing is sent after the failure", move |c| {
        let g = DocGen { leaves: vec!["null", "true", "0", "\"x\"", "\"\\n]\""], keys: vec!["\"a\"", "\"a\\\"b\""], width: 2 };
        let mut s = String::new();
        let mut b = if c.thorough { 4 } else { 3 };
        g.doc(c, &mut b, "", &mut s);
        let (evs, _) = record(from_slice(&s));
        let at = c.pick(evs.len() + 1);
        c.describe(|| format!("{:?} failing at {}", s, at));
        let mut f = Full(FailAt::new(at));
        let r = match no_panic(|| Stream::value(&mut f, from_slice(&s))) {
            Ok(r) => r,
            Err(e) => fail!("panic: {:?} failing at {} panics: {}", s, at, e),
        };
        c.step(at);
        ensure!(r.is_err() == (at < evs.len()), "result: {:?} failing at event {} of {}: {:?}", s, at, evs.len(), r.is_err());
        ensure!(f.0.after == 0, "after: {:?} sends {} events after the failure", s, f.0.after);
        c.outcome(&(at, evs.len()));
        Ok(())
    }));
    Check {
        suites,
        assumptions: vec![
            "documents are well formed and use only what the reader supports: escapes \\n, \\r, \\\", \\\\ and lower-case exponents; anything else is documented as unfinished (todo!) and not judged",
            "the tags the reader puts around numbers are not judged, only the number's text and that the writer writes it as a number",
        ],
    }
}
