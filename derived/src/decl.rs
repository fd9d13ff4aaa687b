// Declarations of derived types: their enumeration and their source.
// Shared by the build script (which writes the source) and the checker (which knows what they mean).

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tg {
    No,
    Str,
    Path,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lb {
    No,
    Lit(&'static str),
    Const,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ix {
    No,
    Lit(i64),
    Const,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Meta {
    pub tag: Tg,
    pub label: Lb,
    pub index: Ix,
}
pub const PLAIN: Meta = Meta { tag: Tg::No, label: Lb::No, index: Ix::No };

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ty {
    I32,
    Str,
    Opt,
    Generic,
    Bytes,
    List,
    Rec,
    Tup,
    Map,
    Seq,
    En,
    Scalar,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Field {
    pub ty: Ty,
    pub meta: Meta,
    pub data_tag: bool,
    pub skip: Option<bool>,
    pub flatten: Option<bool>,
}
pub const FIELD: Field = Field { ty: Ty::I32, meta: PLAIN, data_tag: false, skip: None, flatten: None };

#[derive(Clone, PartialEq, Debug)]
pub enum Shape {
    Unit,
    Named(Vec<Field>),
    Tuple(Vec<Field>),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Item {
    pub meta: Meta,
    pub shape: Shape,
    pub unlabeled: bool,
    pub unindexed: bool,
    pub transparent: bool,
    /// discriminant of a variant
    pub disc: Option<i64>,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Decl {
    Struct(Item),
    Enum { meta: Meta, unlabeled: bool, unindexed: bool, dynamic: bool, variants: Vec<Item> },
}

#[derive(Clone, Debug)]
pub struct Case {
    pub decl: Decl,
    /// one attribute each instead of a list of them
    pub split: bool,
    /// spelled differently: more attributes in between, other literals, flags with values, paths, bounds
    pub noisy: bool,
}

pub fn field_name(i: usize) -> String {
    match i {
        0..4 => ["aa", "r#type", "cc", "dd"][i].into(),
        _ => format!("{}{}", ["_f", "é", "UP_", "x__"][i % 4], i),
    }
}
pub fn variant_name(i: usize) -> String {
    match i {
        0..4 => ["Va", "Vb", "Vc", "Vd"][i].into(),
        _ => format!("{}{}", ["r#v", "É", "LONG_", "V_"][i % 4], i),
    }
}

pub fn item(shape: Shape) -> Item {
    Item { meta: PLAIN, shape, unlabeled: false, unindexed: false, transparent: false, disc: None }
}

// ---- enumeration ----

pub fn metas() -> Vec<Meta> {
    let mut v = vec![];
    for tag in [Tg::No, Tg::Str, Tg::Path] {
        for label in [Lb::No, Lb::Lit("a \"label\""), Lb::Const] {
            for index in [Ix::No, Ix::Lit(3), Ix::Lit(-2), Ix::Const] {
                v.push(Meta { tag, label, index });
            }
        }
    }
    v
}

fn field_attrs() -> Vec<Field> {
    let f = FIELD;
    let m = |tag, label, index| Field { meta: Meta { tag, label, index }, ..f };
    vec![
        f,
        m(Tg::Str, Lb::No, Ix::No),
        m(Tg::Path, Lb::No, Ix::No),
        Field { data_tag: true, ..f },
        m(Tg::No, Lb::Lit("lit"), Ix::No),
        m(Tg::No, Lb::Const, Ix::No),
        m(Tg::No, Lb::No, Ix::Lit(5)),
        m(Tg::No, Lb::No, Ix::Lit(-3)),
        m(Tg::No, Lb::No, Ix::Const),
        Field { skip: Some(true), ..f },
        Field { skip: Some(false), flatten: Some(false), ..f },
        Field { data_tag: true, ..m(Tg::Path, Lb::Lit("all"), Ix::Lit(9)) },
        Field { flatten: Some(true), ty: Ty::Seq, ..f },
        Field { flatten: Some(true), ty: Ty::Map, ..f },
        Field { flatten: Some(true), ty: Ty::Rec, ..f },
        Field { flatten: Some(true), ty: Ty::Tup, ..f },
        Field { flatten: Some(true), ty: Ty::En, ..f },
        Field { flatten: Some(true), ty: Ty::Scalar, ..f },
        Field { skip: Some(true), flatten: Some(true), ty: Ty::Seq, ..f },
    ]
}

/// Whether the documentation gives the fields a meaning.
fn sensible(named: bool, fields: &[Field], unlabeled: bool, unindexed: bool) -> bool {
    let live = || fields.iter().filter(|f| f.skip != Some(true));
    let explicit = live().any(|f| f.meta.index != Ix::No);
    let flat = live().any(|f| f.flatten == Some(true));
    let labelled = live().filter(|f| f.meta.label != Lb::No).count();
    // labels and indexes of fields without labels and indexes are rejected
    if unlabeled && fields.iter().any(|f| f.meta.label != Lb::No) || unindexed && fields.iter().any(|f| f.meta.index != Ix::No) {
        return false;
    }
    // either all fields have a label or none
    if !named && labelled != 0 && labelled != live().count() {
        return false;
    }
    !(explicit && flat)
}

fn structs(out: &mut Vec<Case>, named: bool, fields: Vec<Field>) {
    for unlabeled in [false, true] {
        for unindexed in [false, true] {
            if !sensible(named, &fields, unlabeled, unindexed) {
                continue;
            }
            // a tuple of one field is a newtype, with rules of its own
            if !named && fields.len() == 1 {
                continue;
            }
            let shape = if named { Shape::Named(fields.clone()) } else { Shape::Tuple(fields.clone()) };
            out.push(Case { decl: Decl::Struct(Item { unlabeled, unindexed, ..item(shape) }), split: false, noisy: false });
        }
    }
}

pub fn cases(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    let attrs = field_attrs();
    let f = |ty| Field { ty, ..FIELD };
    // containers: every combination of attributes
    for meta in metas() {
        for shape in [
            Shape::Unit,
            Shape::Tuple(vec![FIELD]),
            Shape::Tuple(vec![FIELD, f(Ty::Str)]),
            Shape::Named(vec![f(Ty::Str)]),
            Shape::Tuple(vec![]),
            Shape::Named(vec![]),
        ] {
            for split in if thorough { vec![false, true] } else { vec![meta.tag == Tg::Path] } {
                out.push(Case { decl: Decl::Struct(Item { meta, ..item(shape.clone()) }), split, noisy: false });
            }
            let n = match &shape {
                Shape::Named(v) => v.len(),
                Shape::Tuple(v) if v.len() != 1 => v.len(),
                _ => 0,
            };
            if n > 0 && meta.index != Ix::Const {
                for (unlabeled, unindexed) in [(true, false), (false, true), (true, true)] {
                    if thorough || meta.tag != Tg::Str {
                        out.push(Case { decl: Decl::Struct(Item { meta, unlabeled, unindexed, ..item(shape.clone()) }), split: meta.tag == Tg::No, noisy: false });
                    }
                }
            }
        }
    }
    // fields: one and two of every kind
    for named in [true, false] {
        for a in &attrs {
            structs(&mut out, named, vec![*a]);
            for b in &attrs {
                if !thorough && named && a.flatten == Some(true) && b.flatten == Some(true) && a.ty != Ty::Seq && b.ty != Ty::Seq {
                    continue;
                }
                structs(&mut out, named, vec![*a, *b]);
            }
        }
    }
    // three fields
    let few: Vec<Field> = if thorough {
        vec![attrs[0], attrs[1], attrs[3], attrs[6], attrs[8], attrs[9], attrs[12], attrs[14]]
    } else {
        vec![attrs[0], attrs[6], attrs[9], attrs[12]]
    };
    for named in [true, false] {
        for a in &few {
            for b in &few {
                for c in &few {
                    structs(&mut out, named, vec![*a, *b, *c]);
                }
            }
        }
    }
    if thorough {
        // four fields
        for x in 0..256usize {
            let v: Vec<Field> = (0..4).map(|i| [attrs[0], attrs[6], attrs[9], attrs[13]][x >> (2 * i) & 3]).collect();
            structs(&mut out, true, v.clone());
            structs(&mut out, false, v);
        }
    }
    // many fields, one of them with an attribute
    let wide: Vec<usize> = if thorough { (5..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]).collect() } else { vec![5, 6, 7, 8, 9, 12, 15, 16, 17, 18, 26, 32, 33, 64, 65, 130, 257] };
    for n in wide.clone() {
        for named in [true, false] {
            for a in [attrs[0], attrs[3], attrs[6], attrs[7], attrs[9], attrs[12], attrs[14]] {
                let v: Vec<Field> = (0..n).map(|i| if i == n / 2 { a } else { f([Ty::I32, Ty::Str, Ty::Opt][i % 3]) }).collect();
                if n < 20 || a == attrs[0] {
                    structs(&mut out, named, v);
                } else {
                    let shape = if named { Shape::Named(v) } else { Shape::Tuple(v) };
                    out.push(Case { decl: Decl::Struct(item(shape)), split: false, noisy: false });
                }
            }
        }
    }
    // types, generics and lifetimes
    let tys = [Ty::I32, Ty::Str, Ty::Opt, Ty::Generic, Ty::Bytes, Ty::List, Ty::Rec, Ty::En];
    for a in tys {
        for transparent in [false, true] {
            out.push(Case { decl: Decl::Struct(Item { transparent, ..item(Shape::Tuple(vec![f(a)])) }), split: false, noisy: false });
        }
        for b in tys {
            out.push(Case { decl: Decl::Struct(item(Shape::Named(vec![f(a), f(b)]))), split: false, noisy: false });
            if thorough {
                out.push(Case { decl: Decl::Struct(item(Shape::Tuple(vec![f(a), f(b)]))), split: false, noisy: false });
            }
            out.push(Case { decl: Decl::Enum { meta: PLAIN, unlabeled: false, unindexed: false, dynamic: false, variants: vec![item(Shape::Tuple(vec![f(a)])), item(Shape::Named(vec![f(b)])), item(Shape::Tuple(vec![f(a), f(b)]))] }, split: false, noisy: false });
            out.push(Case { decl: Decl::Enum { meta: PLAIN, unlabeled: false, unindexed: false, dynamic: true, variants: vec![item(Shape::Tuple(vec![f(a)])), item(Shape::Named(vec![f(b)])), item(Shape::Unit)] }, split: false, noisy: false });
        }
    }
    // enums: every combination of container attributes, all kinds of variants
    let kinds = [
        Shape::Unit,
        Shape::Tuple(vec![FIELD]),
        Shape::Tuple(vec![FIELD, f(Ty::Str)]),
        Shape::Named(vec![f(Ty::Str), FIELD]),
        Shape::Tuple(vec![]),
        Shape::Named(vec![]),
    ];
    for meta in metas() {
        for (unlabeled, unindexed) in [(false, false), (true, false), (false, true), (true, true)] {
            if !thorough && meta.tag == Tg::Str {
                continue;
            }
            out.push(Case { decl: Decl::Enum { meta, unlabeled, unindexed, dynamic: false, variants: kinds[..4].iter().cloned().map(item).collect() }, split: meta.label == Lb::Const, noisy: false });
        }
    }
    // variants
    let metas = [
        (PLAIN, None),
        (Meta { tag: Tg::Path, ..PLAIN }, None),
        (Meta { label: Lb::Lit("var"), ..PLAIN }, None),
        (Meta { label: Lb::Const, ..PLAIN }, None),
        (Meta { index: Ix::Lit(4), ..PLAIN }, None),
        (Meta { index: Ix::Lit(-1), ..PLAIN }, None),
        (Meta { index: Ix::Const, ..PLAIN }, None),
        (Meta { tag: Tg::Str, label: Lb::Lit("all"), index: Ix::Lit(1) }, None),
        (PLAIN, Some(7)),
        (PLAIN, Some(-9)),
        (Meta { index: Ix::Lit(2), ..PLAIN }, Some(20)),
    ];
    let variant = |k: &Shape, a: &(Meta, Option<i64>), i: usize| Item { meta: a.0, disc: a.1.map(|d| d + 100 * i as i64), ..item(k.clone()) };
    let mut en = |variants: Vec<Item>, unlabeled: bool, unindexed: bool, dynamic: bool| {
        for v in &variants {
            if unlabeled && v.meta.label != Lb::No || unindexed && (v.meta.index != Ix::No || v.disc.is_some()) {
                return;
            }
            if dynamic && (v.disc.is_some() || v.meta != PLAIN && !(v.shape == Shape::Unit && v.meta.index == Ix::No)) {
                return;
            }
        }
        out.push(Case { decl: Decl::Enum { meta: PLAIN, unlabeled, unindexed, dynamic, variants }, split: unlabeled, noisy: false });
    };
    for k in &kinds {
        for a in &metas {
            for (u, n, d) in [(false, false, false), (true, false, false), (false, true, false), (true, true, false), (false, false, true)] {
                en(vec![variant(k, a, 0), variant(&kinds[0], &metas[0], 1), variant(&kinds[1], &metas[0], 2)], u, n, d);
                en(vec![variant(&kinds[0], &metas[0], 0), variant(k, a, 1), variant(&kinds[3], &metas[0], 2)], u, n, d);
            }
        }
    }
    for a in &metas {
        for b in &metas {
            for k in if thorough { &kinds[..4] } else { &kinds[..1] } {
                en(vec![variant(k, a, 0), variant(&kinds[1], b, 1), variant(k, &metas[0], 2)], false, false, false);
            }
        }
    }
    let steps = [metas[0], metas[4], metas[6], metas[8]];
    for x in 0..256usize {
        let v: Vec<Item> = (0..4).map(|i| variant(&kinds[i % 2], &steps[x >> (2 * i) & 3], i)).collect();
        en(v, false, false, false);
    }
    // many variants, one of them with an attribute
    for n in wide.clone() {
        for a in [metas[0], metas[4], metas[5], metas[6], metas[8], (Meta { index: Ix::Lit(1 << 40), ..PLAIN }, None), (Meta { index: Ix::Lit(i32::MAX as i64), ..PLAIN }, None)] {
            let v: Vec<Item> = (0..n).map(|i| variant(&kinds[i % 4], if i == n / 2 { &a } else { &metas[0] }, i)).collect();
            en(v.clone(), false, false, false);
            if a == metas[0] {
                en(v.clone(), true, false, false);
                en(v, false, true, false);
            }
        }
    }
    // fields of variants
    for named in [true, false] {
        for a in &attrs {
            for before in [true, false] {
                for (unlabeled, unindexed) in [(false, false), (true, false), (false, true), (true, true)] {
                    let fields = if before { vec![*a, f(Ty::Str)] } else { vec![f(Ty::Str), *a] };
                    if !sensible(named, &fields, unlabeled, unindexed) {
                        continue;
                    }
                    let shape = if named { Shape::Named(fields) } else { Shape::Tuple(fields) };
                    let v = Item { unlabeled, unindexed, ..item(shape) };
                    en(vec![item(Shape::Unit), v.clone()], false, false, false);
                    if before {
                        en(vec![v], false, false, true);
                    }
                }
            }
        }
    }
    // other labels and indexes
    let long: &'static str = "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef";
    let labels = ["", " ", " x", "x ", "\t\n", "é\u{2028}\u{0}", "\\", "{}", "{{}}", "r#type", "type", "true", "0", "-1", "a.b", "::", "#", "'", "\"", "D", long];
    let mut given: Vec<Meta> = labels.iter().map(|l| Meta { label: Lb::Lit(l), ..PLAIN }).collect();
    for i in [0, 1, -1, 7, 8, 31, 127, 128, -128, -129, 255, 256, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, -(1 << 31), -(1 << 31) - 1, (1 << 32) - 1, 1 << 32, 1 << 53, i64::MAX - 8, i64::MIN + 1] {
        given.push(Meta { index: Ix::Lit(i), ..PLAIN });
    }
    for meta in given {
        let g = Field { meta, ..FIELD };
        for shape in [Shape::Unit, Shape::Tuple(vec![FIELD]), Shape::Tuple(vec![FIELD, FIELD]), Shape::Named(vec![FIELD])] {
            out.push(Case { decl: Decl::Struct(Item { meta, ..item(shape.clone()) }), split: false, noisy: false });
            for variants in [vec![Item { meta, ..item(shape.clone()) }], vec![item(Shape::Unit), Item { meta, ..item(shape.clone()) }, item(Shape::Unit)]] {
                out.push(Case { decl: Decl::Enum { meta: PLAIN, unlabeled: false, unindexed: false, dynamic: false, variants }, split: false, noisy: false });
            }
        }
        for fields in [vec![g], vec![g, FIELD], vec![FIELD, g, FIELD]] {
            out.push(Case { decl: Decl::Struct(item(Shape::Named(fields.clone()))), split: false, noisy: false });
            if fields.len() > 1 && sensible(false, &fields, false, false) {
                out.push(Case { decl: Decl::Struct(item(Shape::Tuple(fields))), split: false, noisy: false });
            }
        }
    }
    // declarations of up to four fields or variants again, spelled differently
    let small = |c: &Case| match &c.decl {
        Decl::Struct(i) => fields_of(&i.shape).len() < if thorough { 4 } else { 3 },
        Decl::Enum { variants, .. } => variants.len() < if thorough { 5 } else { 4 },
    };
    let plain: Vec<Case> = out.iter().filter(|c| small(c)).cloned().collect();
    let step = if thorough { 1 } else { 3 };
    out.extend(plain.into_iter().step_by(step).map(|c| Case { noisy: true, split: !c.split, ..c }));
    out
}

// ---- source ----

fn attr_list(o: &mut String, mut attrs: Vec<String>, split: bool, noisy: bool) {
    if noisy {
        attrs.reverse();
        o.push_str("/** #[sval(skip)] */ ");
        for (i, a) in attrs.iter().enumerate() {
            let sep = [" #[allow(unused)]", " #[doc = \"sval\"]", " #[doc(hidden)]"][i % 3];
            if split {
                o.push_str(&format!("#[sval({},)]{} ", spelled(a), sep));
            } else {
                o.push_str(&format!("{}{}", if i == 0 { "#[allow(unused)] #[sval( " } else { " , " }, spelled(a)));
            }
        }
        if !split && !attrs.is_empty() {
            o.push_str(" , )] ");
        }
        return;
    }
    if attrs.is_empty() {
        return;
    }
    if split {
        for a in attrs {
            o.push_str(&format!("#[sval({})] ", a));
        }
    } else {
        o.push_str(&format!("#[sval({})] ", attrs.join(", ")));
    }
}
/// The same attribute, spelled differently.
fn spelled(a: &str) -> String {
    if let Some(i) = a.strip_prefix("index = ").and_then(|i| i.parse::<i64>().ok()) {
        let (sign, n) = (if i < 0 { "-" } else { "" }, i.unsigned_abs());
        return match n % 4 {
            0 => format!("index = {}0x{:X}", sign, n),
            1 => format!("index = {}0b{:b}", sign, n),
            2 => format!("index = {}{}_isize", sign, n),
            _ => format!("index = {}0o0_{:o}isize", sign, n),
        };
    }
    if let Some(l) = a.strip_prefix("label = \"") {
        let l = &l[..l.len() - 1];
        // only texts without escapes have a raw form
        return if l.contains('\\') { a.into() } else { format!("label=r##\"{}\"##", l) };
    }
    match a {
        "tag = \"CONTAINER\"" => "tag=\"self :: CONTAINER\"".into(),
        "tag = CONTAINER" => "tag = self::CONTAINER".into(),
        "data_tag = \"DATA\"" => "data_tag = DATA".into(),
        "label = LABEL" => "label = self::LABEL".into(),
        "index = INDEX" => "index = self::INDEX".into(),
        _ => match a.strip_suffix(" = true") {
            Some(a) => a.into(),
            None if !a.contains('=') => format!("{} = true", a),
            None => a.into(),
        },
    }
}
fn meta_attrs(m: &Meta, v: &mut Vec<String>) {
    match m.tag {
        Tg::No => (),
        Tg::Str => v.push("tag = \"CONTAINER\"".into()),
        Tg::Path => v.push("tag = CONTAINER".into()),
    }
    match m.label {
        Lb::No => (),
        Lb::Lit(s) => v.push(format!("label = {:?}", s)),
        Lb::Const => v.push("label = LABEL".into()),
    }
    match m.index {
        Ix::No => (),
        Ix::Lit(i) => v.push(format!("index = {}", i)),
        Ix::Const => v.push("index = INDEX".into()),
    }
}
fn flags(unlabeled: bool, unindexed: bool, what: &str, v: &mut Vec<String>) {
    if unlabeled {
        v.push(format!("unlabeled_{}", what));
    }
    if unindexed {
        v.push(format!("unindexed_{} = true", what));
    }
}
fn item_attrs(i: &Item, noisy: bool) -> Vec<String> {
    let mut v = vec![];
    meta_attrs(&i.meta, &mut v);
    flags(i.unlabeled, i.unindexed, "fields", &mut v);
    if i.transparent {
        v.push("transparent".into());
    }
    if noisy {
        match &i.shape {
            Shape::Tuple(f) if f.len() == 1 => {
                if !i.transparent {
                    v.push("transparent = false".into());
                }
            }
            Shape::Unit => (),
            _ => {
                for (on, name) in [(i.unlabeled, "unlabeled_fields"), (i.unindexed, "unindexed_fields")] {
                    if !on {
                        v.push(format!("{} = false", name));
                    }
                }
            }
        }
    }
    v
}
fn ty(t: Ty) -> &'static str {
    match t {
        Ty::I32 | Ty::Scalar => "i32",
        Ty::Str => "&'a str",
        Ty::Opt => "Option<bool>",
        Ty::Generic => "T",
        Ty::Bytes => "[u8; N]",
        Ty::List => "Vec<T>",
        Ty::Rec => "FRec",
        Ty::Tup => "FTup",
        Ty::Map => "std::collections::BTreeMap<&'static str, i32>",
        Ty::Seq => "Vec<i32>",
        Ty::En => "FEn",
    }
}
/// The `i`th field's value.
fn value(t: Ty, i: usize) -> String {
    match t {
        Ty::I32 | Ty::Scalar => format!("{}", i + 10),
        Ty::Str => format!("\"s{}\"", i),
        Ty::Opt => (if i % 2 == 0 { "Some(true)" } else { "None" }).into(),
        Ty::Generic => format!("{}u8", i),
        Ty::Bytes => format!("[{}u8, 255]", i),
        Ty::List => format!("vec![{}u8, 7]", i),
        Ty::Rec => "FRec { x: 1, y: \"fy\" }".into(),
        Ty::Tup => "FTup(1, \"fy\")".into(),
        Ty::Map => "[(\"k\", 1), (\"m\", 2)].into()".into(),
        Ty::Seq => "vec![5, 6]".into(),
        Ty::En => "FEn::Var { a: 1 }".into(),
    }
}
fn field_attrs_src(f: &Field, split: bool, noisy: bool, o: &mut String) {
    let mut v = vec![];
    meta_attrs(&f.meta, &mut v);
    if f.data_tag {
        v.push("data_tag = \"DATA\"".into());
    }
    match f.skip {
        None => (),
        Some(true) => v.push("skip".into()),
        Some(false) => v.push("skip = false".into()),
    }
    match f.flatten {
        None => (),
        Some(true) => v.push("flatten".into()),
        Some(false) => v.push("flatten = false".into()),
    }
    attr_list(o, v, split, noisy);
}
fn shape_src(s: &Shape, split: bool, noisy: bool, o: &mut String) {
    match s {
        Shape::Unit => (),
        Shape::Named(v) => {
            o.push_str(" { ");
            for (i, f) in v.iter().enumerate() {
                field_attrs_src(f, split, noisy, o);
                o.push_str(&format!("{}: {}, ", field_name(i), ty(f.ty)));
            }
            o.push('}');
        }
        Shape::Tuple(v) => {
            o.push('(');
            for f in v {
                field_attrs_src(f, split, noisy, o);
                o.push_str(&format!("{}, ", ty(f.ty)));
            }
            o.push(')');
        }
    }
}
fn shape_value(s: &Shape) -> String {
    match s {
        Shape::Unit => "".into(),
        Shape::Named(v) => format!(" {{ {} }}", v.iter().enumerate().map(|(i, f)| format!("{}: {}", field_name(i), value(f.ty, i))).collect::<Vec<_>>().join(", ")),
        Shape::Tuple(v) => format!("({})", v.iter().enumerate().map(|(i, f)| value(f.ty, i)).collect::<Vec<_>>().join(", ")),
    }
}
pub fn fields_of(s: &Shape) -> &[Field] {
    match s {
        Shape::Unit => &[],
        Shape::Named(v) | Shape::Tuple(v) => v,
    }
}
fn generics(tys: &[Ty]) -> String {
    let mut v = vec![];
    if tys.contains(&Ty::Str) {
        v.push("'a");
    }
    if tys.contains(&Ty::Generic) || tys.contains(&Ty::List) {
        v.push("T");
    }
    if tys.contains(&Ty::Bytes) {
        v.push("const N: usize");
    }
    if v.is_empty() { "".into() } else { format!("<{}>", v.join(", ")) }
}

impl Case {
    /// The declaration of type `D`.
    pub fn source(&self) -> String {
        let mut o = String::from("#[derive(Value)] ");
        match &self.decl {
            Decl::Struct(i) => {
                attr_list(&mut o, item_attrs(i, self.noisy), self.split, self.noisy);
                let tys: Vec<Ty> = fields_of(&i.shape).iter().map(|f| f.ty).collect();
                o.push_str(&if self.noisy { format!("pub(crate) struct D{}", generics(&tys).replace("T", "T: Clone")) } else { format!("struct D{}", generics(&tys)) });
                shape_src(&i.shape, self.split, self.noisy, &mut o);
                if !matches!(i.shape, Shape::Named(_)) {
                    o.push(';');
                }
            }
            Decl::Enum { meta, unlabeled, unindexed, dynamic, variants } => {
                let mut v = vec![];
                meta_attrs(meta, &mut v);
                flags(*unlabeled, *unindexed, "variants", &mut v);
                if *dynamic {
                    v.push("dynamic".into());
                }
                if self.noisy && !*dynamic {
                    v.push("dynamic = false".into());
                }
                attr_list(&mut o, v, self.split, self.noisy);
                if variants.iter().any(|v| v.disc.is_some()) {
                    o.push_str("#[repr(i32)] ");
                }
                let tys: Vec<Ty> = variants.iter().flat_map(|v| fields_of(&v.shape)).map(|f| f.ty).collect();
                o.push_str(&if self.noisy { format!("pub enum D{} where i32: Copy, {{ ", generics(&tys).replace("T", "T: Clone")) } else { format!("enum D{} {{ ", generics(&tys)) });
                for (i, x) in variants.iter().enumerate() {
                    attr_list(&mut o, item_attrs(x, false), self.split, self.noisy);
                    o.push_str(&variant_name(i));
                    shape_src(&x.shape, self.split, self.noisy, &mut o);
                    if let Some(d) = x.disc {
                        o.push_str(&format!(" = {}", d));
                    }
                    o.push_str(", ");
                }
                o.push('}');
            }
        }
        o
    }
    /// Expressions for all its instances.
    pub fn instances(&self) -> Vec<String> {
        match &self.decl {
            Decl::Struct(i) => vec![format!("D{}", shape_value(&i.shape))],
            Decl::Enum { variants, .. } => {
                let tys: Vec<Ty> = variants.iter().flat_map(|v| fields_of(&v.shape)).map(|f| f.ty).collect();
                let args = generics(&tys).replace("'a, ", "").replace("'a", "").replace("T", "u8").replace("const N: usize", "2");
                let args = if args.len() > 2 { format!("::{}", args) } else { "".into() };
                variants.iter().enumerate().map(|(i, v)| format!("D{}::{}{}", args, variant_name(i), shape_value(&v.shape))).collect()
            }
        }
    }
}
