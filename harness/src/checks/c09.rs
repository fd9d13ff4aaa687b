//! C09: text and binary buffers hold the exact concatenation and borrow when possible.
use super::Check;
use crate::engine::*;
use crate::sizes;
use crate::ev::*;
use crate::model::*;
use std::fmt::Write as _;
use sval_buffer::{BinaryBuf, TextBuf};
use sval_ref::ValueRef;

static POOL: &[&str] = &["", "a", "bé\u{10ffff}", "0123456789abcdef0123456789abcdef"];

#[derive(Clone, Default)]
struct Model {
    text: String,
    /// must be borrowed: nothing but empty borrowed fragments and then one borrowed fragment
    must_borrow: Option<usize>,
    only_empty_borrowed: bool,
}
impl Model {
    fn new() -> Model {
        Model { text: String::new(), must_borrow: None, only_empty_borrowed: true }
    }
    fn borrowed(&mut self, i: usize) {
        self.text.push_str(POOL[i]);
        if self.only_empty_borrowed {
            self.must_borrow = Some(i);
        } else {
            self.must_borrow = None;
        }
        if !POOL[i].is_empty() {
            self.only_empty_borrowed = false;
        }
    }
    fn computed(&mut self, s: &str) {
        self.text.push_str(s);
        self.must_borrow = None;
        self.only_empty_borrowed = false;
    }
}

fn in_pool(p: *const u8, n: usize) -> bool {
    n == 0 || POOL.iter().any(|s| p as usize >= s.as_ptr() as usize && p as usize + n <= s.as_ptr() as usize + s.len())
}

struct Ptr(Vec<(usize, usize)>, Vec<Ev>);
impl Sink for Ptr {
    fn ev(&mut self, e: Ev) -> sval::Result {
        self.1.push(e);
        Ok(())
    }
    fn borrowed(&mut self, p: *const u8, n: usize) {
        self.0.push((p as usize, n));
    }
}

fn judge_text(b: &TextBuf<'static>, m: &Model, log: &dyn Fn() -> String) -> Res {
    ensure!(b.as_str() == m.text, "as_str {:?} instead of {:?} after {}", b.as_str(), m.text, log());
    ensure!(b.as_ref() == m.text, "as_ref {:?} after {}", AsRef::<str>::as_ref(b), log());
    if let Some(s) = b.as_borrowed_str() {
        ensure!(s == m.text, "as_borrowed_str {:?} instead of {:?} after {}", s, m.text, log());
        ensure!(in_pool(s.as_ptr(), s.len()), "as_borrowed_str is not the caller's memory after {}", log());
    }
    if let Some(i) = m.must_borrow {
        match b.as_borrowed_str() {
            Some(s) => ensure!(POOL[i].is_empty() || s.as_ptr() == POOL[i].as_ptr(), "borrowed from elsewhere after {}", log()),
            None => fail!("not borrowed after {}", log()),
        }
    }
    fn same<'a>(a: &TextBuf<'a>, b: &TextBuf<'a>) -> bool {
        a == b
    }
    ensure!(same(b, &TextBuf::from(m.text.as_str())), "not equal to the same text after {}", log());
    let mut other = TextBuf::new();
    let _ = other.push_fragment_computed(&m.text);
    ensure!(*b == other, "not equal to the same computed text after {}", log());
    let _ = other.push_fragment_computed("!");
    ensure!(*b != other, "equal to a different text after {}", log());
    // streamed both ways
    let (evs, r) = record(b);
    let mut f = Full(Ptr(vec![], vec![]));
    let r2 = b.stream_ref(&mut f);
    ensure!(r.is_ok() && r2.is_ok(), "stream failed after {}", log());
    for evs in [&evs, &f.0 .1] {
        if let Err(e) = well_formed(evs) {
            fail!("streams malformed events ({}) after {}", e, log());
        }
        let t: String = evs.iter().map(|e| if let Ev::Text(t, _) = e { t.as_str() } else { "" }).collect();
        ensure!(t == m.text && matches!(evs.first(), Some(Ev::TextBegin(_))), "streams {:?} after {}", evs, log());
    }
    for (p, n) in &f.0 .0 {
        ensure!(in_pool(*p as *const u8, *n), "stream_ref reports borrowed data that is not the caller's after {}", log());
    }
    ensure!(format!("{:?}", b).contains(&format!("{:?}", m.text)), "debug output {:?} after {}", b, log());
    Ok(())
}

fn judge_bin(b: &BinaryBuf<'static>, m: &Model, log: &dyn Fn() -> String) -> Res {
    let want = m.text.as_bytes();
    ensure!(b.as_slice() == want, "as_slice {:?} instead of {:?} after {}", b.as_slice(), want, log());
    ensure!(AsRef::<[u8]>::as_ref(b) == want, "as_ref after {}", log());
    if let Some(s) = b.as_borrowed_slice() {
        ensure!(s == want, "as_borrowed_slice {:?} instead of {:?} after {}", s, want, log());
        ensure!(in_pool(s.as_ptr(), s.len()), "as_borrowed_slice is not the caller's memory after {}", log());
    }
    if let Some(i) = m.must_borrow {
        match b.as_borrowed_slice() {
            Some(s) => ensure!(POOL[i].is_empty() || s.as_ptr() == POOL[i].as_ptr(), "borrowed from elsewhere after {}", log()),
            None => fail!("not borrowed after {}", log()),
        }
    }
    let mut other = BinaryBuf::new();
    let _ = other.push_fragment_computed(want);
    ensure!(*b == other, "not equal to the same bytes after {}", log());
    let _ = other.push_fragment_computed(b"!");
    ensure!(*b != other, "equal to different bytes after {}", log());
    let (evs, r) = record(b);
    let mut f = Full(Ptr(vec![], vec![]));
    let r2 = b.stream_ref(&mut f);
    ensure!(r.is_ok() && r2.is_ok(), "stream failed after {}", log());
    for evs in [&evs, &f.0 .1] {
        if let Err(e) = well_formed(evs) {
            fail!("streams malformed events ({}) after {}", e, log());
        }
        let t: Vec<u8> = evs.iter().flat_map(|e| if let Ev::Bin(t, _) = e { t.clone() } else { vec![] }).collect();
        ensure!(t == want && matches!(evs.first(), Some(Ev::BinBegin(_))), "streams {:?} after {}", evs, log());
    }
    for (p, n) in &f.0 .0 {
        ensure!(in_pool(*p as *const u8, *n), "stream_ref reports borrowed data that is not the caller's after {}", log());
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let d = if thorough { 6 } else { 5 };
    Check {
        suites: vec![
            suite("text-ops", format!("every sequence of {} operations (borrowed/computed/displayed/written fragments from 4, clear, clone, reuse of a clone) on text buffers", d), move |c| {
                let mut b: TextBuf<'static> = TextBuf::new();
                let mut m = Model::new();
                let mut log: Vec<(usize, usize)> = vec![];
                judge_text(&b, &m, &|| "nothing".into())?;
                for _ in 0..d {
                    let op = c.pick(15);
                    let i = op % 4;
                    match op {
                        0..=3 => {
                            ensure!(b.push_fragment(POOL[i]).is_ok(), "push failed");
                            m.borrowed(i);
                        }
                        4..=7 => {
                            let tmp = POOL[i].to_owned();
                            ensure!(b.push_fragment_computed(&tmp).is_ok(), "push failed");
                            m.computed(&tmp);
                        }
                        8 => {
                            ensure!(b.push_display(format_args!("{}-{}", 12, "x")).is_ok(), "push failed");
                            m.computed("12-x");
                        }
                        9 => {
                            ensure!(b.write_str("w").is_ok() && b.write_char('é').is_ok(), "write failed");
                            m.computed("wé");
                        }
                        10 => {
                            b.clear();
                            m = Model::new();
                        }
                        11 => {
                            let n = b.clone();
                            b = n;
                        }
                        12 => {
                            // mutate a clone: the original is unaffected
                            let mut n = b.clone();
                            let _ = n.push_fragment_computed("zzz");
                            let _ = n.push_fragment(POOL[1]);
                            n.clear();
                        }
                        13 => {
                            b = TextBuf::from(POOL[2]);
                            m = Model::new();
                            m.borrowed(2);
                        }
                        _ => {
                            b = TextBuf::collect_display("dd").map_err(|e| Fail::from(format!("{}", e)))?;
                            m = Model::new();
                            m.computed("dd");
                        }
                    }
                    log.push((op, i));
                    c.step(1);
                    judge_text(&b, &m, &|| format!("{:?}", log))?;
                }
                c.outcome(&(b.as_str(), b.as_borrowed_str().is_some()));
                c.describe(|| format!("ops {:?} => {:?} borrowed={}", log, b.as_str(), b.as_borrowed_str().is_some()));
                Ok(())
            }),
            suite("binary-ops", format!("every sequence of {} operations on binary buffers", d), move |c| {
                let mut b: BinaryBuf<'static> = BinaryBuf::new();
                let mut m = Model::new();
                let mut log: Vec<usize> = vec![];
                for _ in 0..d {
                    let op = c.pick(12);
                    let i = op % 4;
                    match op {
                        0..=3 => {
                            ensure!(b.push_fragment(POOL[i].as_bytes()).is_ok(), "push failed");
                            m.borrowed(i);
                        }
                        4..=7 => {
                            let tmp = POOL[i].to_owned();
                            ensure!(b.push_fragment_computed(tmp.as_bytes()).is_ok(), "push failed");
                            m.computed(&tmp);
                        }
                        8 => {
                            b.clear();
                            m = Model::new();
                        }
                        9 => b = b.clone(),
                        10 => {
                            let mut n = b.clone();
                            let _ = n.push_fragment_computed(b"zzz");
                            n.clear();
                        }
                        _ => {
                            b = BinaryBuf::from(POOL[2].as_bytes());
                            if let Ok(a) = <&'static [u8; 7]>::try_from(POOL[2].as_bytes()) {
                                ensure!(b == BinaryBuf::from(a), "an array and a slice give different buffers");
                                b = BinaryBuf::from(a);
                            }
                            m = Model::new();
                            m.borrowed(2);
                        }
                    }
                    log.push(op);
                    c.step(1);
                    judge_bin(&b, &m, &|| format!("{:?}", log))?;
                }
                c.outcome(&(b.as_slice(), b.as_borrowed_slice().is_some()));
                c.describe(|| format!("ops {:?} => {:?}", log, b.as_slice()));
                Ok(())
            }),
            suite("collect", "collecting from every fragmented text/binary value, wrapped or not, and from values that fail at any point", move |c| {
                let text = *c.of(&["", "a", "héllo"]);
                let mut cuts = vec![];
                for i in 0..=text.len() {
                    if text.is_char_boundary(i) && c.flag() {
                        cuts.push(i);
                    }
                }
                let st = *c.of(&Style::ALL);
                let bin = c.flag();
                let k = if bin { Kind::Bin(text.as_bytes().to_vec(), cuts.clone()) } else { Kind::Text(text.into(), cuts.clone()) };
                let n = match c.pick(3) {
                    0 => Node::new(k),
                    1 => Node::new(Kind::Tagged(M::default(), Box::new(Node::new(k)))),
                    _ => Node::new(Kind::Tagged(m(T_X, Some(ident("L")), ix(1)), Box::new(Node::new(k)))),
                }
                .styled(st);
                let evs = n.evs();
                c.step(evs.len());
                c.outcome(&(text, &cuts, bin));
                if bin {
                    let b = BinaryBuf::collect(&n).map_err(|e| Fail::from(format!("collect failed: {} for {:?}", e, evs)))?;
                    ensure!(b.as_slice() == text.as_bytes(), "collected {:?} from {:?}", b.as_slice(), evs);
                    if cuts.is_empty() && evs.iter().any(|e| matches!(e, Ev::Bin(_, true))) {
                        ensure!(b.as_borrowed_slice().is_some(), "did not borrow from {:?}", evs);
                    }
                    ensure!(TextBuf::collect(&n).is_err(), "collected text from {:?}", evs);
                } else {
                    let b = TextBuf::collect(&n).map_err(|e| Fail::from(format!("collect failed: {} for {:?}", e, evs)))?;
                    ensure!(b.as_str() == text, "collected {:?} from {:?}", b.as_str(), evs);
                    if cuts.is_empty() && evs.iter().any(|e| matches!(e, Ev::Text(_, true))) {
                        ensure!(b.as_borrowed_str().is_some(), "did not borrow from {:?}", evs);
                    }
                    ensure!(BinaryBuf::collect(&n).is_err(), "collected binary from {:?}", evs);
                }
                Ok(())
            }),
            suite("collect-others", "collecting text from every other value tree of at most 3 nodes, cut short by a failure at every point", move |c| {
                let mut g = Gen::basic();
                g.leaves = vec![Kind::Null, Kind::Bool(true), Kind::I64(1), Kind::U128(u128::MAX), Kind::F64(0.5), Kind::U8(3), Kind::Text("ab".into(), vec![1]), Kind::Bin(vec![1, 2], vec![])];
                let n = g.node(c, 3);
                let evs = n.evs();
                let cut = c.pick(evs.len() + 1);
                struct Dies<'a>(&'a [Ev], bool);
                impl<'a> sval::Value for Dies<'a> {
                    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
                        for e in self.0 {
                            send(e, s)?;
                        }
                        if self.1 { sval::error() } else { Ok(()) }
                    }
                }
                c.step(cut * 2);
                // fails by itself after `cut` events: always an error, never a panic
                let d = Dies(&evs[..cut], true);
                ensure!(TextBuf::collect(&d).is_err(), "text collected from a value that failed after {:?}", &evs[..cut]);
                ensure!(BinaryBuf::collect(&d).is_err(), "binary collected from a value that failed after {:?}", &evs[..cut]);
                if cut == evs.len() {
                    let has_other = |e: &Ev| matches!(e, Ev::Null | Ev::Bool(_) | Ev::I64(_) | Ev::F64(_) | Ev::SeqBegin(_) | Ev::MapBegin(_) | Ev::RecordBegin(..) | Ev::TupleBegin(..) | Ev::RecordTupleBegin(..) | Ev::U8(_) | Ev::BinBegin(_));
                    let r = TextBuf::collect(&n);
                    c.outcome(&(r.is_ok(), &evs));
                    if evs.iter().any(has_other) {
                        ensure!(r.is_err(), "text {:?} collected from {:?}", r.unwrap().as_str(), evs);
                    }
                }
                Ok(())
            }),
            suite("display-errors", "a displayed value that fails part-way is an error", move |c| {
                struct D(usize);
                impl std::fmt::Display for D {
                    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                        for _ in 0..self.0 {
                            f.write_str("x")?;
                        }
                        Err(std::fmt::Error)
                    }
                }
                let n = c.pick(4);
                c.step(1);
                c.outcome(&n);
                ensure!(TextBuf::collect_display(D(n)).is_err(), "display failure hidden");
                let mut b = TextBuf::from("a");
                ensure!(b.push_display(D(n)).is_err(), "display failure hidden");
                Ok(())
            }),
            suite("sizes", "buffers filled by 1 to 4 borrowed or computed pushes of texts of each size up to 1100 (thorough 66000), and by up to 70 (300) one-character pushes, text and binary", move |c| {
                let many = c.flag();
                let max = match (many, c.thorough) {
                    (true, false) => 70,
                    (true, true) => 300,
                    (false, false) => 1100,
                    (false, true) => 66000,
                };
                let n = *c.of(&sizes::sizes(c.thorough, max));
                let parts: Vec<(&'static str, bool)> = if many {
                    let computed_at = c.pick(4) * n / 3;
                    (0..n).map(|i| (["a", "é", "\""][i % 3], i >= computed_at)).collect()
                } else {
                    let k = 1 + c.pick(4);
                    let t = intern(&"xyé".chars().cycle().take(n).collect::<String>());
                    (0..k).map(|_| (t, c.flag())).collect()
                };
                let want: String = parts.iter().map(|p| p.0).collect();
                c.step(parts.len() * 2);
                c.outcome(&(want.len(), parts.len()));
                c.describe(|| format!("{} pushes of {} bytes", parts.len(), want.len()));
                let mut t: TextBuf<'static> = TextBuf::new();
                let mut b: BinaryBuf<'static> = BinaryBuf::new();
                for (s, computed) in &parts {
                    let ok = if *computed {
                        let copy = s.to_string();
                        t.push_fragment_computed(&copy).is_ok() & b.push_fragment_computed(copy.as_bytes()).is_ok()
                    } else {
                        t.push_fragment(s).is_ok() & b.push_fragment(s.as_bytes()).is_ok()
                    };
                    ensure!(ok, "a push of {} bytes is refused", s.len());
                }
                ensure!(t.as_str() == want, "text of {} pushes is {:?} instead of {:?}", parts.len(), t.as_str(), want);
                ensure!(b.as_slice() == want.as_bytes(), "binary of {} pushes is {:?} instead of {:?}", parts.len(), b.as_slice(), want);
                ensure!(t.clone().as_str() == want && b.clone().as_slice() == want.as_bytes(), "a clone of {:?} differs", want);
                if let Some(s) = t.as_borrowed_str() {
                    ensure!(s == want && !parts.iter().any(|p| p.1 && !p.0.is_empty()), "{:?} is reported as borrowed", want);
                }
                Ok(())
            }),
        ],
        assumptions: vec![],
    }
}
