//! A container with a flattened value in it.
use sval::{Stream, Value};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum To {
    Map,
    Seq,
    Record,
    Tuple,
    RecordTuple,
}
pub const TOS: [To; 5] = [To::Map, To::Seq, To::Record, To::Tuple, To::RecordTuple];

/// A container with a plain entry, the flattened entries of some values, and another plain entry.
pub struct Around<'a> {
    pub to: To,
    pub start: i128,
    pub inner: Vec<&'a dyn sval_dynamic::Value>,
}

impl Around<'_> {
    fn entry<'s, S: Stream<'s> + ?Sized>(&self, s: &mut S, name: &'static str, at: isize, v: i64) -> sval::Result {
        let l = sval::Label::new(name).with_tag(&sval::tags::VALUE_IDENT);
        let i = sval::Index::new_isize(at).with_tag(&sval::tags::VALUE_OFFSET);
        match self.to {
            To::Map => {
                s.map_key_begin()?;
                s.value(name)?;
                s.map_key_end()?;
                s.map_value_begin()?;
                s.i64(v)?;
                s.map_value_end()
            }
            To::Seq => {
                s.seq_value_begin()?;
                s.i64(v)?;
                s.seq_value_end()
            }
            To::Record => {
                s.record_value_begin(None, &l)?;
                s.i64(v)?;
                s.record_value_end(None, &l)
            }
            To::Tuple => {
                s.tuple_value_begin(None, &i)?;
                s.i64(v)?;
                s.tuple_value_end(None, &i)
            }
            To::RecordTuple => {
                s.record_tuple_value_begin(None, &l, &i)?;
                s.i64(v)?;
                s.record_tuple_value_end(None, &l, &i)
            }
        }
    }
}

impl Value for Around<'_> {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        let l = sval::Label::new("Outer");
        match self.to {
            To::Map => s.map_begin(None)?,
            To::Seq => s.seq_begin(None)?,
            To::Record => s.record_begin(None, Some(&l), None, None)?,
            To::Tuple => s.tuple_begin(None, Some(&l), None, None)?,
            To::RecordTuple => s.record_tuple_begin(None, Some(&l), None, None)?,
        }
        let mut at = self.start as isize;
        self.entry(s, "before", at, 100)?;
        at += 1;
        for v in &self.inner {
            at = match self.to {
                To::Map => sval_flatten::flatten_to_map(s, *v, at)?,
                To::Seq => {
                    sval_flatten::flatten_to_seq(s, *v)?;
                    0
                }
                To::Record => sval_flatten::flatten_to_record(s, *v, at)?,
                To::Tuple => sval_flatten::flatten_to_tuple(s, *v, at)?,
                To::RecordTuple => sval_flatten::flatten_to_record_tuple(s, *v, at)?,
            };
        }
        self.entry(s, "after", at, 200)?;
        match self.to {
            To::Map => s.map_end(),
            To::Seq => s.seq_end(),
            To::Record => s.record_end(None, Some(&l), None),
            To::Tuple => s.tuple_end(None, Some(&l), None),
            To::RecordTuple => s.record_tuple_end(None, Some(&l), None),
        }
    }
}
