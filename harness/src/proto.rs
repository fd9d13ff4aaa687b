//! The call protocol of a stream as an explicit pushdown automaton.

use crate::ev::*;
use crate::model::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum F {
    /// a place for exactly one value; filled or not
    Slot(bool),
    Text,
    Bin,
    Seq,
    Map(bool), // a value is due
    Tagged(M),
    Enum(M),
    Record(M),
    Tuple(M),
    RecTup(M),
}

#[derive(Clone, Debug)]
pub struct Proto {
    st: Vec<(F, Option<Ev>)>, // frame and the event that leaves a slot
}

pub struct Alphabet {
    pub leaves: Vec<Ev>,
    pub frags: Vec<&'static str>,
    pub metas: Vec<M>,
    pub kinds: u32,
    pub hints: bool,
    pub text: bool,
    pub bin: bool,
}

impl Proto {
    pub fn new() -> Proto {
        Proto { st: vec![(F::Slot(false), None)] }
    }
    pub fn complete(&self) -> bool {
        self.st.len() == 1 && self.st[0].0 == F::Slot(true)
    }
    pub fn depth(&self) -> usize {
        self.st.len() - 1
    }
    pub fn in_text(&self) -> bool {
        matches!(self.st.last().unwrap().0, F::Text | F::Bin)
    }
    /// Every event that may legally come next.
    pub fn options(&self, a: &Alphabet, may_open: bool, out: &mut Vec<Ev>) {
        out.clear();
        let has = |k: u32| a.kinds & k != 0;
        if a.hints {
            out.push(Ev::TagHint(T_X));
        }
        let variant = self.st.len() >= 2 && matches!(self.st[self.st.len() - 2].0, F::Enum(_));
        match &self.st.last().unwrap().0 {
            F::Slot(false) => {
                if !variant {
                    out.extend(a.leaves.iter().cloned());
                }
                if may_open {
                    if !variant {
                        if a.text {
                            out.push(Ev::TextBegin(None));
                        }
                        if a.bin {
                            out.push(Ev::BinBegin(None));
                        }
                        if has(K_SEQ) {
                            out.push(Ev::SeqBegin(None));
                        }
                        if has(K_MAP) {
                            out.push(Ev::MapBegin(None));
                        }
                    }
                    for m in &a.metas {
                        if has(K_TAGGED) {
                            out.push(Ev::TaggedBegin(m.clone()));
                        }
                        if has(K_ENUM) {
                            out.push(Ev::EnumBegin(m.clone()));
                        }
                        if has(K_RECORD) {
                            out.push(Ev::RecordBegin(m.clone(), None));
                        }
                        if has(K_TUPLE) {
                            out.push(Ev::TupleBegin(m.clone(), None));
                        }
                        if has(K_RECTUP) {
                            out.push(Ev::RecordTupleBegin(m.clone(), None));
                        }
                    }
                }
                if has(K_TAG) {
                    out.extend(a.metas.iter().map(|m| Ev::Tag(m.clone())));
                }
            }
            F::Slot(true) => {
                if let Some(e) = &self.st.last().unwrap().1 {
                    out.push(e.clone());
                }
            }
            F::Text => {
                for f in &a.frags {
                    out.push(Ev::Text(f.to_string(), true));
                    out.push(Ev::Text(f.to_string(), false));
                }
                out.push(Ev::TextEnd);
            }
            F::Bin => {
                for f in &a.frags {
                    out.push(Ev::Bin(f.as_bytes().to_vec(), true));
                    out.push(Ev::Bin(f.as_bytes().to_vec(), false));
                }
                out.push(Ev::BinEnd);
            }
            F::Seq => {
                out.push(Ev::SeqEnd);
                if may_open {
                    out.push(Ev::SeqValueBegin);
                }
            }
            F::Map(due) => {
                if *due {
                    out.push(Ev::MapValueBegin);
                } else {
                    out.push(Ev::MapEnd);
                    if may_open {
                        out.push(Ev::MapKeyBegin);
                    }
                }
            }
            F::Tagged(m) => out.push(Ev::TaggedEnd(m.clone())),
            F::Enum(m) => out.push(Ev::EnumEnd(m.clone())),
            F::Record(m) => {
                out.push(Ev::RecordEnd(m.clone()));
                if may_open {
                    out.push(Ev::RecordValueBegin(T_Y, ident("f")));
                }
            }
            F::Tuple(m) => {
                out.push(Ev::TupleEnd(m.clone()));
                if may_open {
                    out.push(Ev::TupleValueBegin(0, off(0)));
                }
            }
            F::RecTup(m) => {
                out.push(Ev::RecordTupleEnd(m.clone()));
                if may_open {
                    out.push(Ev::RecordTupleValueBegin(0, ident("g"), off(2)));
                }
            }
        }
    }

    fn fill(&mut self) {
        if let Some((F::Slot(b), _)) = self.st.last_mut() {
            *b = true;
        }
    }
    fn slot(&mut self, end: Option<Ev>) {
        self.st.push((F::Slot(false), end));
    }
    /// `e` must be one of `options`.
    pub fn apply(&mut self, e: &Ev) {
        match e {
            Ev::TagHint(_) | Ev::Text(..) | Ev::Bin(..) => (),
            Ev::TextBegin(_) => self.st.push((F::Text, None)),
            Ev::BinBegin(_) => self.st.push((F::Bin, None)),
            Ev::SeqBegin(_) => self.st.push((F::Seq, None)),
            Ev::MapBegin(_) => self.st.push((F::Map(false), None)),
            Ev::TaggedBegin(m) => {
                self.st.push((F::Tagged(m.clone()), None));
                self.slot(Some(Ev::TaggedEnd(m.clone())));
            }
            Ev::EnumBegin(m) => {
                self.st.push((F::Enum(m.clone()), None));
                self.slot(Some(Ev::EnumEnd(m.clone())));
            }
            Ev::RecordBegin(m, _) => self.st.push((F::Record(m.clone()), None)),
            Ev::TupleBegin(m, _) => self.st.push((F::Tuple(m.clone()), None)),
            Ev::RecordTupleBegin(m, _) => self.st.push((F::RecTup(m.clone()), None)),
            Ev::SeqValueBegin => self.slot(Some(Ev::SeqValueEnd)),
            Ev::MapKeyBegin => self.slot(Some(Ev::MapKeyEnd)),
            Ev::MapValueBegin => self.slot(Some(Ev::MapValueEnd)),
            Ev::RecordValueBegin(t, l) => self.slot(Some(Ev::RecordValueEnd(*t, l.clone()))),
            Ev::TupleValueBegin(t, i) => self.slot(Some(Ev::TupleValueEnd(*t, i.clone()))),
            Ev::RecordTupleValueBegin(t, l, i) => self.slot(Some(Ev::RecordTupleValueEnd(*t, l.clone(), i.clone()))),
            Ev::SeqValueEnd | Ev::RecordValueEnd(..) | Ev::TupleValueEnd(..) | Ev::RecordTupleValueEnd(..) => {
                self.st.pop();
            }
            Ev::MapKeyEnd => {
                self.st.pop();
                self.st.last_mut().unwrap().0 = F::Map(true);
            }
            Ev::MapValueEnd => {
                self.st.pop();
                self.st.last_mut().unwrap().0 = F::Map(false);
            }
            Ev::TaggedEnd(_) | Ev::EnumEnd(_) => {
                self.st.pop();
                self.st.pop();
                self.fill();
            }
            Ev::TextEnd | Ev::BinEnd | Ev::SeqEnd | Ev::MapEnd | Ev::RecordEnd(_) | Ev::TupleEnd(_) | Ev::RecordTupleEnd(_) => {
                self.st.pop();
                self.fill();
            }
            _ => self.fill(),
        }
    }

    /// The least number of events still needed for a complete value.
    pub fn need(&self) -> usize {
        let mut n = 0;
        for (f, end) in &self.st {
            n += match f {
                F::Slot(done) => !*done as usize + end.is_some() as usize,
                F::Map(true) => 4,
                F::Tagged(_) | F::Enum(_) => 0,
                _ => 1,
            };
        }
        n
    }
}
