//! C05: JSON I/O faults are reported and never silently truncate output.
use super::Check;
use crate::engine::*;
use crate::sizes;
use crate::ev::*;
use crate::model::*;
use std::cell::RefCell;
use std::io;

struct Faulty<'a, 'c> {
    c: &'a RefCell<&'c mut Ctx>,
    got: Vec<u8>,
    faults_left: usize,
    interrupts_in_row: usize,
    fatal: bool,
    kind: io::ErrorKind,
    zero: bool,
    calls_after_fatal: usize,
    calls: usize,
}

const KINDS: [io::ErrorKind; 3] = [io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe];

impl<'a, 'c> io::Write for Faulty<'a, 'c> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        let mut c = self.c.borrow_mut();
        c.step(1);
        if self.fatal || self.zero {
            self.calls_after_fatal += 1;
            if self.calls_after_fatal > 50 {
                panic!("keeps writing after a fatal failure");
            }
            return if self.zero { Ok(0) } else { Err(io::ErrorKind::Other.into()) };
        }
        if self.faults_left == 0 || b.is_empty() {
            self.got.extend_from_slice(b);
            return Ok(b.len());
        }
        // full | interrupted | zero | error kinds | partial of every length
        let partial = b.len() - 1;
        match c.pick(6 + partial) {
            0 => {
                self.got.extend_from_slice(b);
                Ok(b.len())
            }
            1 => {
                self.faults_left -= 1;
                self.interrupts_in_row += 1;
                Err(io::ErrorKind::Interrupted.into())
            }
            2 => {
                self.faults_left -= 1;
                self.zero = true;
                Ok(0)
            }
            k @ 3..=5 => {
                self.faults_left -= 1;
                self.fatal = true;
                self.kind = KINDS[k - 3];
                Err(self.kind.into())
            }
            k => {
                self.faults_left -= 1;
                let n = k - 5;
                self.got.extend_from_slice(&b[..n]);
                Ok(n)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn docs() -> Vec<Node> {
    let b = |n: Node| Box::new(n);
    vec![
        Node::new(Kind::Null),
        Node::text("a\"é\n\u{1}z"),
        Node::text(""),
        Node::new(Kind::F64(-12.5)),
        Node::new(Kind::Seq(vec![Node::new(Kind::U8(200)), Node::text("é"), Node::new(Kind::Bool(true))])),
        Node::new(Kind::Map(vec![(Node::text("k"), Node::new(Kind::I32(-5))), (Node::new(Kind::U8(7)), Node::new(Kind::Seq(vec![])))])),
        Node::new(Kind::Record(M::default(), vec![(0, ident("id"), Node::new(Kind::U64(42))), (0, L { text: "l\"".into(), is_static: false, tag: 0 }, Node::new(Kind::Bin(vec![1, 22], vec![])))])),
        Node::new(Kind::Enum(M::default(), b(Node::new(Kind::Tagged(m(0, Some(ident("Var")), None), b(Node::text("x"))))))),
        Node::new(Kind::Enum(M::default(), b(Node::new(Kind::Record(m(0, Some(ident("V")), None), vec![(0, ident("f"), Node::new(Kind::Tag(m(0, Some(ident("U")), None))))]))))),
        Node::new(Kind::Tagged(m(T_NUMBER, None, None), b(Node::text("-0012.50e+3")))),
        Node::new(Kind::Tagged(m(T_NUMBER, None, None), b(Node::text("-000")))),
        Node::new(Kind::Tagged(m(T_NUMBER, None, None), b(Node::text("-inf")))),
        Node::new(Kind::Tuple(M::default(), vec![(0, off(0), Node::new(Kind::Map(vec![]))), (0, off(1), Node::new(Kind::F32(1.5)))])),
        // fails part-way for a reason of its own
        Node::new(Kind::Seq(vec![Node::text("ab"), Node::new(Kind::Map(vec![(Node::new(Kind::Seq(vec![])), Node::new(Kind::Null))]))])),
    ]
}

/// A formatter that fails at its k-th call.
struct FailFmt {
    got: String,
    at: usize,
    calls: usize,
    after: usize,
}
impl FailFmt {
    fn hit(&mut self) -> std::fmt::Result {
        if self.calls > self.at {
            self.after += 1;
        }
        let r = if self.calls >= self.at { Err(std::fmt::Error) } else { Ok(()) };
        self.calls += 1;
        r
    }
}
impl std::fmt::Write for FailFmt {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.hit()?;
        self.got.push_str(s);
        Ok(())
    }
}

pub fn check(thorough: bool) -> Check {
    let ds = docs();
    let ds2 = docs();
    let ds3 = docs();
    let faults = if thorough { 3 } else { 2 };
    let g = {
        let mut g = Gen::basic();
        g.leaves = vec![Kind::Text("a\"".into(), vec![]), Kind::I64(-3)];
        g.tag_metas = vec![m(0, Some(ident("T")), None)];
        g.tagged_metas = vec![m(0, Some(ident("Tg")), None)];
        g.enum_metas = vec![m(0, Some(ident("En")), None)];
        g.rec_metas = vec![m(0, Some(ident("Rc")), None)];
        g
    };
    let budget = if thorough { 4 } else { 3 };
    Check {
        suites: vec![
            suite("io-faults", format!("14 documents x every sequence of write outcomes with up to {} faults, at every write", faults), move |c| {
                let d = c.pick(ds.len());
                io_case(c, &ds[d], faults)
            }),
            suite("io-faults-trees", format!("every value tree of at most {} nodes x one fault at every write", budget), move |c| {
                let n = g.node(c, budget);
                io_case(c, &n, 1)
            }),
            suite("io-partial-runs", "every write accepts at most k bytes with an interrupt before each", move |c| {
                let d = c.pick(ds2.len());
                let k = 1 + c.pick(4);
                let intr = c.flag();
                struct Slow { got: Vec<u8>, k: usize, intr: bool, flip: bool }
                impl io::Write for Slow {
                    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                        self.flip = !self.flip;
                        if self.intr && self.flip {
                            return Err(io::ErrorKind::Interrupted.into());
                        }
                        let n = b.len().min(self.k);
                        self.got.extend_from_slice(&b[..n]);
                        Ok(n)
                    }
                    fn flush(&mut self) -> io::Result<()> { Ok(()) }
                }
                let mut w = Slow { got: vec![], k, intr, flip: false };
                let r = sval_json::stream_to_io_write(&mut w, &ds2[d]);
                let reference = sval_json::stream_to_string(&ds2[d]);
                c.step(w.got.len());
                c.outcome(&w.got);
                match (r, reference) {
                    (Ok(()), Ok(s)) => ensure!(w.got == s.as_bytes(), "short writes changed the document: {:?} vs {:?}", String::from_utf8_lossy(&w.got), s),
                    (Err(_), Err(_)) => (),
                    (r, s) => fail!("short writes changed the outcome: {:?} vs {:?}", r.is_ok(), s.is_ok()),
                }
                Ok(())
            }),
            suite("fmt-faults", "14 documents x a formatter failing at every call", move |c| {
                let d = c.pick(ds3.len());
                let at = c.pick(60);
                let reference = sval_json::stream_to_string(&ds3[d]);
                let mut w = FailFmt { got: String::new(), at, calls: 0, after: 0 };
                let r = sval_json::stream_to_fmt_write(&mut w, &ds3[d]);
                c.step(w.calls);
                c.outcome(&(d, &w.got));
                c.describe(|| format!("{:?} failing at call {} wrote {:?}", ds3[d].evs(), at, w.got));
                ensure!(w.after == 0, "{} writes after the failure at call {} for {:?}", w.after, at, ds3[d].evs());
                let hit = w.calls > at;
                if hit {
                    ensure!(r.is_err(), "formatter failed at call {} but success was reported for {:?}", at, ds3[d].evs());
                    if let Ok(s) = &reference {
                        ensure!(s.starts_with(&w.got), "wrote {:?}, not a prefix of {:?}", w.got, s);
                    }
                } else {
                    ensure!(r.is_ok() == reference.is_ok(), "outcome differs without a fault");
                    if let Ok(s) = &reference {
                        ensure!(&w.got == s, "output differs without a fault");
                    }
                }
                Ok(())
            }),
            suite("sizes", sizes::bounds(thorough, if thorough { 100 } else { 40 }, 2) + ": one fault at every write", move |c| {
                let n = sizes::pick_in(c, if c.thorough { 100 } else { 40 }, 2);
                io_case(c, &n, 1)
            }),
            suite("sizes-short", sizes::bounds(thorough, if thorough { 70000 } else { 1100 }, 3) + ": every write takes at most 1, 7, 64 or 4096 bytes, a formatter fails after a spread of calls", move |c| {
                let n = sizes::pick_in(c, if c.thorough { 70000 } else { 1100 }, 3);
                let want = match sval_json::stream_to_string(&n) {
                    Ok(w) => w,
                    Err(_) => fail!("refused: {:?}", n.evs()),
                };
                c.outcome(&want);
                struct Short(Vec<u8>, usize);
                impl io::Write for Short {
                    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                        let n = b.len().min(self.1);
                        self.0.extend_from_slice(&b[..n]);
                        Ok(n)
                    }
                    fn flush(&mut self) -> io::Result<()> {
                        Ok(())
                    }
                }
                let way = c.pick(8);
                if way < 4 {
                    let mut w = Short(vec![], [1, 7, 64, 4096][way]);
                    let r = sval_json::stream_to_io_write(&mut w, &n);
                    c.step(want.len());
                    ensure!(r.is_ok() && w.0 == want.as_bytes(), "short writes of {} bytes give {:?} ({}) instead of {:?}", w.1, String::from_utf8_lossy(&w.0), r.is_ok(), want);
                } else {
                    let mut w = FailFmt { got: String::new(), at: usize::MAX, calls: 0, after: 0 };
                    let r = sval_json::stream_to_fmt_write(&mut w, &n);
                    ensure!(r.is_ok() && w.got == want, "a formatter gets {:?} instead of {:?}", w.got, want);
                    let at = (way - 4) * (w.calls - 1) / 3;
                    let mut w = FailFmt { got: String::new(), at, calls: 0, after: 0 };
                    let r = sval_json::stream_to_fmt_write(&mut w, &n);
                    c.step(w.calls);
                    ensure!(r.is_err() && w.after == 0 && want.starts_with(&w.got), "a formatter failing at call {} gets {:?}, {} calls after, success {} for {:?}", at, w.got, w.after, r.is_ok(), want);
                }
                Ok(())
            }),
        ],
        assumptions: vec!["the writer obeys the io::Write contract (never claims more bytes than it was given)"],
    }
}

fn io_case(c: &mut Ctx, n: &Node, faults: usize) -> Res {
    let reference = sval_json::stream_to_string(n);
    let want: Vec<u8> = {
        let mut v = vec![];
        let _ = sval_json::stream_to_io_write(&mut v, n);
        v
    };
    let (r, w) = {
        let cell = RefCell::new(&mut *c);
        let mut w = Faulty { c: &cell, got: vec![], faults_left: faults, interrupts_in_row: 0, fatal: false, kind: io::ErrorKind::WriteZero, zero: false, calls_after_fatal: 0, calls: 0 };
        let r = sval_json::stream_to_io_write(&mut w, n);
        (r, (w.got, w.fatal, w.zero, w.calls_after_fatal, w.kind))
    };
    let (got, fatal, zero, after, kind) = w;
    c.outcome(&(&got, fatal, zero));
    c.describe(|| format!("{:?}: wrote {:?} fatal={} zero={} result_ok={}", n.evs(), String::from_utf8_lossy(&got), fatal, zero, r.is_ok()));
    ensure!(want.starts_with(&got) || fatal == false && zero == false, "wrote {:?}, not a prefix of {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&want));
    if fatal || zero {
        ensure!(want.starts_with(&got), "wrote {:?}, not a prefix of {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&want));
        ensure!(after == 0, "{} writes after a fatal failure", after);
        ensure!(r.is_err(), "the writer {} but success was reported with {:?} of {:?} written", if zero { "accepted nothing" } else { "failed" }, String::from_utf8_lossy(&got), String::from_utf8_lossy(&want));
        let e = r.unwrap_err();
        let source = std::error::Error::source(&e).map(|s| s.downcast_ref::<io::Error>().map(|s| s.kind()));
        if fatal {
            ensure!(source == Some(Some(kind)), "the writer failed with {:?} but the cause reported is {:?}", kind, source);
        } else {
            ensure!(source.is_some(), "the writer accepted nothing but no cause is reported");
        }
    } else {
        ensure!(got == want, "wrote {:?} instead of {:?}", String::from_utf8_lossy(&got), String::from_utf8_lossy(&want));
        ensure!(r.is_ok() == reference.is_ok(), "transient faults changed the outcome to {:?}", r.is_ok());
    }
    Ok(())
}
