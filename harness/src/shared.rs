//! Ways to look at values.
use crate::ev::*;
use sval::Value;

/// Merge fragments; texts and binaries are replayed whole, so their announced length is compared
/// only for being either absent-turned-exact or equal.
pub fn norm(evs: &[Ev]) -> Vec<Ev> {
    let mut v = canon(evs, Canon { hints: true, borrow: false, label_static: true, sizes: true });
    for i in 0..v.len() {
        let n = match v.get(i + 1) {
            Some(Ev::Text(t, _)) => t.len(),
            Some(Ev::Bin(t, _)) => t.len(),
            _ => 0,
        };
        match &mut v[i] {
            Ev::TextBegin(s) | Ev::BinBegin(s) if s.is_none() => *s = Some(n),
            _ => (),
        }
    }
    v
}

/// The answers of a value to every cast.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Casts {
    pub bool: Option<bool>,
    pub f32: Option<u32>,
    pub f64: Option<u64>,
    pub i: [Option<i128>; 5],
    pub u: [Option<u128>; 5],
    pub text: Option<String>,
    pub binary: Option<Vec<u8>>,
    pub tag: Option<u8>,
}

pub fn casts<V: Value + ?Sized>(v: &V) -> Casts {
    Casts {
        bool: v.to_bool(),
        f32: v.to_f32().map(|v| v.to_bits()),
        f64: v.to_f64().map(|v| v.to_bits()),
        i: [v.to_i8().map(|v| v as i128), v.to_i16().map(|v| v as i128), v.to_i32().map(|v| v as i128), v.to_i64().map(|v| v as i128), v.to_i128()],
        u: [v.to_u8().map(|v| v as u128), v.to_u16().map(|v| v as u128), v.to_u32().map(|v| v as u128), v.to_u64().map(|v| v as u128), v.to_u128()],
        text: v.to_text().map(|s| s.to_owned()),
        binary: v.to_binary().map(|s| s.to_owned()),
        tag: v.tag().map(|t| tag_id(&t)),
    }
}
