//! Every consumer of a value, and what it finally makes of it.
use crate::checks::c07::norm;
use crate::checks::c12::casts;
use crate::checks::c18::{Around, TOS};
use crate::ev::*;
use crate::nest::*;
use crate::serdes::SRec;
use serde::Serialize;

pub const NAMES: [&str; 24] = [
    "JSON", "JSON to a writer", "JsonStr", "formatted text", "ToFmt display", "ToFmt debug", "ValueBuf replayed", "owned Value replayed", "TextBuf", "BinaryBuf", "serde", "serde_json", "serde and back", "nested",
    "nested short-lived", "nested with flat children", "minimal nested", "flattened to a map", "flattened to a sequence", "flattened to a record", "flattened to a tuple", "flattened to a record-tuple", "minimal stream", "to_ref nested in a buffer",
];
pub const CASTS: usize = NAMES.len();

fn data(r: sval::Result, evs: &[Ev]) -> String {
    match r {
        Ok(()) => format!("{:?}", norm(&canon(evs, Canon { hints: false, borrow: false, label_static: false, sizes: true }))),
        Err(_) => "error".into(),
    }
}

fn nested<'a, S: sval_nested::Stream<'a, Ok = Vec<Ev>>>(s: S, v: &'a impl sval::Value) -> String {
    match s.value_ref(v) {
        Ok(e) => data(Ok(()), &e),
        Err(_) => "error".into(),
    }
}

/// The final result of consumer `i` for a value that doesn't fail by itself.
pub fn result<V: sval::Value + Send + Sync>(i: usize, v: &V) -> String {
    match i {
        0 => sval_json::stream_to_string(v).unwrap_or("error".into()),
        1 => {
            let mut w = Vec::new();
            match sval_json::stream_to_io_write(&mut w, v) {
                Ok(()) => String::from_utf8_lossy(&w).into_owned(),
                Err(_) => "error".into(),
            }
        }
        2 => sval_json::stream_to_json_str(v).map(|s| s.as_str().to_owned()).unwrap_or("error".into()),
        3 => sval_fmt::stream_to_string(v),
        4 => format!("{}", sval_fmt::ToFmt::new(v)),
        5 => format!("{:?}", sval_fmt::ToFmt::new(v)),
        6 => match sval_buffer::ValueBuf::collect(v) {
            Ok(b) if b.is_complete() => {
                let (e, r) = record(&b);
                data(r, &e)
            }
            Ok(_) => "incomplete".into(),
            Err(_) => "error".into(),
        },
        7 => match sval_buffer::Value::collect_owned(v) {
            Ok(b) => {
                let (e, r) = record(&b);
                data(r, &e)
            }
            Err(_) => "error".into(),
        },
        8 => sval_buffer::TextBuf::collect(v).map(|b| format!("{:?}", b.as_str())).unwrap_or("error".into()),
        9 => sval_buffer::BinaryBuf::collect(v).map(|b| format!("{:?}", b.as_slice())).unwrap_or("error".into()),
        10 => sval_serde::ToSerialize::new(v).serialize(SRec::new()).map(|s| format!("{:?}", s)).unwrap_or("error".into()),
        11 => serde_json::to_string(&sval_serde::ToSerialize::new(v)).unwrap_or("error".into()),
        12 => {
            let (e, r) = record(&sval_serde::ToValue::new(sval_serde::ToSerialize::new(v)));
            data(r, &e)
        }
        13 => nested(NRec::new(Mode::Nested), v),
        14 => nested(NRec::new(Mode::Short), v),
        15 => nested(NRec::new(Mode::Flat), v),
        16 => nested(NMin, v),
        17..=21 => {
            let (e, r) = record(&Around { to: TOS[i - 17], start: 0, inner: vec![v] });
            data(r, &e)
        }
        22 => {
            let mut s = Min(vec![]);
            let r = sval::Value::stream(v, &mut s);
            data(r, &canon(&s.0, Canon { hints: false, borrow: false, label_static: false, sizes: false }))
        }
        23 => {
            let r = sval_ref::to_ref(v);
            match sval_buffer::ValueBuf::collect(&r) {
                Ok(b) => match sval_buffer::ValueBuf::collect(&b).and_then(|b| b.into_owned()) {
                    Ok(b) => nested(NRec::new(Mode::Nested), &b),
                    Err(_) => "error".into(),
                },
                Err(_) => "error".into(),
            }
        }
        _ => format!("{:?}", casts(v)),
    }
}
