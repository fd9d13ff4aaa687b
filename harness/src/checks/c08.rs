//! C08: a value buffer tells complete from incomplete, and reuse leaves no trace.
use super::c07::norm;
use super::Check;
use crate::engine::*;
use crate::metas;
use crate::sizes;
use crate::ev::*;
use crate::model::*;
use crate::proto::*;
use sval_buffer::ValueBuf;

fn alphabet() -> Alphabet {
    Alphabet {
        leaves: vec![Ev::Null],
        frags: vec!["a"],
        metas: vec![m(0, Some(ident("L")), None)],
        kinds: K_ALL,
        hints: true,
        text: true,
        bin: true,
    }
}

/// Events that can never be accepted at the root of a value: there is nothing to end or extend.
fn stray() -> Vec<Ev> {
    vec![
        Ev::SeqEnd, Ev::MapEnd, Ev::SeqValueEnd, Ev::MapKeyEnd, Ev::MapValueEnd, Ev::TaggedEnd(M::default()), Ev::EnumEnd(M::default()), Ev::RecordEnd(M::default()),
        Ev::RecordValueEnd(0, ident("f")), Ev::TupleEnd(M::default()), Ev::TupleValueEnd(0, off(0)), Ev::RecordTupleEnd(M::default()), Ev::RecordTupleValueEnd(0, ident("f"), off(0)),
    ]
}
fn stray_frags() -> Vec<Ev> {
    vec![Ev::Text("x".into(), true), Ev::Text("x".into(), false), Ev::Bin(vec![1], true), Ev::Bin(vec![1], false)]
}

fn leak(e: Ev) -> &'static Ev {
    // the alphabet is finite; keep one copy of each distinct event per thread
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local!(static T: RefCell<HashMap<Ev, &'static Ev>> = RefCell::new(HashMap::new()));
    T.with(|t| *t.borrow_mut().entry(e.clone()).or_insert_with(|| Box::leak(Box::new(e))))
}

fn same_as_fresh(buf: &ValueBuf, evs: &[Ev], how: &str) -> Res {
    let (got, r) = record(buf);
    if r.is_err() {
        fail!("{}: replay failed for {:?}", how, evs);
    }
    let mut want: Vec<Ev> = vec![];
    // hints inside text/binary need not be kept
    let mut inside = false;
    for e in evs {
        match e {
            Ev::TextBegin(_) | Ev::BinBegin(_) => inside = true,
            Ev::TextEnd | Ev::BinEnd => inside = false,
            Ev::TagHint(_) if inside => continue,
            _ => (),
        }
        want.push(e.clone());
    }
    if norm(&got) != norm(&want) {
        fail!("{}: replayed {:?} instead of {:?}", how, norm(&got), norm(&want));
    }
    Ok(())
}

/// Walk every legal call sequence, checking completeness at every point.
fn walk(c: &mut Ctx, depth: usize, resets: usize, strays: bool, a: &Alphabet) -> Res {
    let mut buf = ValueBuf::new();
    let mut p = Proto::new();
    let mut evs: Vec<Ev> = vec![];
    let mut all: Vec<String> = vec![];
    let mut resets_left = resets;
    let mut opts = vec![];
    let mut n = 0;
    loop {
        ensure!(buf.is_complete() == p.complete(), "is_complete()={} after {:?} {:?}", buf.is_complete(), all, evs);
        if p.complete() {
            same_as_fresh(&buf, &evs, "complete buffer")?;
            let v = buf.to_value();
            let (got, _) = record(&v);
            let (got2, _) = record(&buf);
            ensure!(got == got2, "to_value differs from the buffer after {:?}", evs);
        } else {
            // an incomplete buffer may be looked at, but must not panic
            let _ = record(&buf);
            let _ = format!("{:?}", buf.to_value());
        }
        if n == depth {
            break;
        }
        let room = depth - n;
        // openers must leave room to finish
        p.options(a, room > p.need() + 1, &mut opts);
        let hint = opts.first().map(|e| matches!(e, Ev::TagHint(_))).unwrap_or(false);
        if hint && (room <= p.need() || evs.iter().filter(|e| matches!(e, Ev::TagHint(_))).count() >= 1) {
            opts.remove(0);
        }
        let legal = opts.len();
        let stop = p.complete();
        let can_reset = resets_left > 0 && n > 0;
        let st = if strays && p.depth() == 0 { stray() } else { vec![] };
        let sf = if strays && p.depth() == 0 && !evs.iter().any(|e| matches!(e, Ev::TextBegin(_) | Ev::BinBegin(_))) { stray_frags() } else { vec![] };
        let total = legal + stop as usize + can_reset as usize + st.len() + sf.len();
        if total == 0 {
            break;
        }
        let k = c.pick(total);
        n += 1;
        c.step(1);
        if k < legal {
            let e = leak(opts[k].clone());
            if send(e, &mut buf).is_err() {
                fail!("refused {:?} after {:?} {:?}", e, all, evs);
            }
            p.apply(e);
            evs.push(e.clone());
        } else if k < legal + stop as usize {
            break;
        } else if k < legal + stop as usize + can_reset as usize {
            all.push(format!("{:?} then clear", evs));
            buf.clear();
            resets_left -= 1;
            p = Proto::new();
            evs.clear();
            // a cleared buffer streams like an empty one
            let (a, _) = record(&buf);
            let (b, _) = record(&ValueBuf::new());
            ensure!(a == b, "cleared buffer streams {:?}", a);
        } else {
            let i = k - legal - stop as usize - can_reset as usize;
            let e = if i < st.len() { st[i].clone() } else { sf[i - st.len()].clone() };
            let e = leak(e);
            let r = send(e, &mut buf);
            ensure!(r.is_err(), "accepted {:?} after {:?} {:?}", e, all, evs);
            // the failed buffer is cleared and used again, or asked for its error
            if resets_left == 0 {
                ensure!(buf.into_err().is_some(), "no error kept after {:?} {:?} {:?}", all, evs, e);
                c.outcome(&(all.len(), &evs, e));
                return Ok(());
            }
            all.push(format!("{:?} failed {:?} then clear", evs, e));
            buf.clear();
            resets_left -= 1;
            p = Proto::new();
            evs.clear();
        }
    }
    c.outcome(&(all.len(), &evs));
    c.describe(|| format!("{:?} {:?} complete={}", all, evs, p.complete()));
    if resets > resets_left {
        ensure!(buf.into_err().is_none(), "an old error survived clearing: {:?}", all);
    }
    Ok(())
}

pub fn check(thorough: bool) -> Check {
    let d1 = if thorough { 13 } else { 11 };
    let d2 = if thorough { 9 } else { 7 };
    let d3 = if thorough { 19 } else { 16 };
    Check {
        suites: vec![
            suite("legal", format!("every legal call sequence of at most {} calls over all event kinds, completeness checked after every call", d1), move |c| walk(c, d1, 0, false, &alphabet())),
            suite("reuse", format!("every history of at most {} calls with up to 2 clears at any point and stray calls", d2), move |c| {
                let mut a = alphabet();
                a.kinds = K_SEQ | K_TAGGED | K_RECORD;
                walk(c, d2, 2, true, &a)
            }),
            suite("deep", format!("every legal sequence of at most {} calls over sequences, maps, text and one leaf", d3), move |c| {
                let mut a = alphabet();
                a.kinds = K_SEQ | K_MAP;
                a.hints = false;
                a.bin = false;
                walk(c, d3, 0, false, &a)
            }),
            suite("prefixes", "every prefix of every tree of at most 4 nodes, then clear and a second value", move |c| {
                let mut g = Gen::basic();
                g.leaves = vec![Kind::Text("ab".into(), vec![1]), Kind::U8(1)];
                g.tag_metas.truncate(2);
                g.tagged_metas.truncate(2);
                g.enum_metas.truncate(2);
                g.rec_metas.truncate(2);
                let n = g.node(c, if c.thorough { 4 } else { 3 });
                let evs: &Vec<Ev> = &n.evs();
                let cut = c.pick(evs.len() + 1);
                let mut second = Gen::basic();
                second.leaves = vec![Kind::Text("z".into(), vec![])];
                second.tag_metas.truncate(1);
                second.tagged_metas.truncate(1);
                second.enum_metas.truncate(1);
                second.rec_metas.truncate(1);
                let n2 = second.node(c, 2);
                let evs2 = n2.evs();
                let mut buf = ValueBuf::new();
                for e in &evs[..cut] {
                    if send(e, &mut buf).is_err() {
                        fail!("refused {:?} in {:?}", e, evs);
                    }
                }
                ensure!(buf.is_complete() == (cut == evs.len()), "is_complete()={} after {} of {:?}", buf.is_complete(), cut, evs);
                buf.clear();
                ensure!(!buf.is_complete(), "complete after clear");
                for e in &evs2 {
                    if send(e, &mut buf).is_err() {
                        fail!("refused {:?} after clearing {} of {:?}", e, cut, evs);
                    }
                }
                c.step(cut + evs2.len());
                c.outcome(&(cut, &evs2));
                ensure!(buf.is_complete(), "incomplete after {:?}, clear, {:?}", &evs[..cut], evs2);
                same_as_fresh(&buf, &evs2, "reused buffer")
            }),
            suite("failing-values", "a value that fails after every prefix of its events: collecting reports an error", move |c| {
                let mut g = Gen::basic();
                g.leaves = vec![Kind::Text("ab".into(), vec![1]), Kind::U8(1)];
                let n = g.node(c, 3);
                struct Dies(Vec<Ev>);
                impl sval::Value for Dies {
                    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
                        for e in &self.0 {
                            send(e, s)?;
                        }
                        sval::error()
                    }
                }
                let mut evs = n.evs();
                let cut = c.pick(evs.len() + 1);
                evs.truncate(cut);
                c.step(cut * 4);
                c.outcome(&evs);
                let d = Dies(evs);
                ensure!(ValueBuf::collect(&d).is_err(), "collect hid a failure after {:?}", d.0);
                ensure!(ValueBuf::collect_owned(&d).is_err(), "collect_owned hid a failure after {:?}", d.0);
                ensure!(sval_buffer::Value::collect(&d).is_err(), "Value::collect hid a failure after {:?}", d.0);
                ensure!(sval_buffer::Value::collect_owned(&d).is_err(), "Value::collect_owned hid a failure after {:?}", d.0);
                Ok(())
            }),
            suite("names", metas::bounds(), move |c| {
                let n = match metas::pick(c) {
                    Some(n) => n,
                    None => return Ok(()),
                };
                let evs: &Vec<Ev> = &n.evs();
                let mut buf = ValueBuf::new();
                // something before, which leaves no trace
                let before = c.pick(4) * evs.len() / 3;
                for e in &evs[..before] {
                    ensure!(send(e, &mut buf).is_ok(), "refused {:?} in {:?}", e, evs);
                }
                buf.clear();
                for (i, e) in evs.iter().enumerate() {
                    ensure!(!buf.is_complete(), "complete after {} of {:?}", i, evs);
                    ensure!(send(e, &mut buf).is_ok(), "refused {:?} in {:?}", e, evs);
                }
                c.step(before + evs.len());
                c.outcome(evs);
                ensure!(buf.is_complete(), "incomplete after {:?}", evs);
                same_as_fresh(&buf, evs, "sized value")
            }),
            suite("sizes", sizes::bounds(thorough, if thorough { 5000 } else { 1100 }, 6), move |c| {
                let n = sizes::pick_in(c, if c.thorough { 5000 } else { 1100 }, 6);
                let evs: &Vec<Ev> = &n.evs();
                let mut buf = ValueBuf::new();
                // something before, which leaves no trace
                let before = c.pick(4) * evs.len() / 3;
                for e in &evs[..before] {
                    ensure!(send(e, &mut buf).is_ok(), "refused {:?} in {:?}", e, evs);
                }
                buf.clear();
                for (i, e) in evs.iter().enumerate() {
                    ensure!(!buf.is_complete(), "complete after {} of {:?}", i, evs);
                    ensure!(send(e, &mut buf).is_ok(), "refused {:?} in {:?}", e, evs);
                }
                c.step(before + evs.len());
                c.outcome(evs);
                ensure!(buf.is_complete(), "incomplete after {:?}", evs);
                same_as_fresh(&buf, evs, "sized value")
            }),
        ],
        assumptions: vec!["calls that close a different container than the open one, or a second value after a complete one, are outside the stream protocol and not explored"],
    }
}
