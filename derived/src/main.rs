// C19: derived implementations stream exactly what the declaration says.
include!("../../harness/src/root.rs");

mod decl;
mod expected;

#[allow(dead_code, unused_imports, non_camel_case_types)]
mod declared {
    pub mod prelude {
        pub use sval_derive::Value;
        use crate::ev::*;

        pub const CONTAINER: sval::Tag = TAG_X;
        pub const DATA: sval::Tag = TAG_Y;
        pub const LABEL: sval::Label = sval::Label::new("a const");
        pub const INDEX: sval::Index = sval::Index::new(70);

        #[derive(Value)]
        pub struct FRec {
            pub x: i32,
            pub y: &'static str,
        }
        #[derive(Value)]
        pub struct FTup(pub i32, pub &'static str);
        #[derive(Value)]
        pub enum FEn {
            Other,
            Var { a: i32 },
        }

        /// What a value streamed, and the tag it reports.
        pub struct Seen {
            pub evs: Vec<Ev>,
            pub ok: bool,
            pub tag: u8,
        }
        pub fn probe(v: &dyn Probe) -> Seen {
            v.probe()
        }
        pub trait Probe {
            fn probe(&self) -> Seen;
        }
        impl<V: sval::Value> Probe for V {
            fn probe(&self) -> Seen {
                let mut f = Full(Vec::new());
                let r = self.stream(&mut f as &mut Full<Vec<Ev>>);
                Seen { evs: f.0, ok: r.is_ok(), tag: oid(self.tag().as_ref()) }
            }
        }
    }
    include!(concat!(env!("OUT_DIR"), "/gen.rs"));
}

use checks::Check;
use ev::*;

fn check(thorough: bool) -> Check {
    assert_eq!(thorough, declared::THOROUGH, "built for the other tier");
    let cases = decl::cases(thorough);
    assert_eq!(cases.len(), declared::TABLE.len());
    let n = cases.len();
    let chunk = 1000;
    Check {
        suites: vec![suite("declarations", format!("{} declarations: every combination of container attributes on every shape, every pair (and triples of a selection) of field attributes, every variant attribute in every position, generics, lifetimes and flattening; structs and enums of 5 to 257 (thorough: 300) fields and variants with one attribute; labels of 21 kinds, indexes at the limits of integer types; a third (thorough: all) of the small ones again in another spelling (other literals, paths, flags with values, foreign attributes, bounds)", n), move |c| {
            let i = c.pick(n.div_ceil(chunk)) * chunk + c.pick(chunk);
            if i >= n {
                return Ok(());
            }
            let case = &cases[i];
            let seen = declared::TABLE[i]();
            let k = c.pick(seen.len());
            let want = expected::want(&case.decl, k).evs();
            let s = &seen[k];
            c.step(s.evs.len());
            c.outcome(&s.evs);
            c.describe(|| format!("{} => {:?}", case.source(), s.evs));
            ensure!(s.ok, "{} could not be streamed", case.source());
            if let Err(e) = well_formed(&s.evs) {
                fail!("{} streams malformed events ({}): {:?}", case.source(), e, s.evs);
            }
            let got: Vec<Ev> = s.evs.clone();
            ensure!(got == want, "{}, instance {}: streamed {:?} instead of {:?}", case.source(), case.instances()[k], got, want);
            let tag = oid(sval::Value::tag(&Script(want.clone())).as_ref());
            ensure!(s.tag == tag, "{}, instance {}: reports tag {} but streams tag {}", case.source(), case.instances()[k], s.tag, tag);
            Ok(())
        })],
        assumptions: vec!["after an explicit index the following defaults count on from it, as in Rust's discriminants and the library's tests"],
    }
}

fn main() {
    main_with(|id, thorough| (id == "C19").then(|| check(thorough)))
}
