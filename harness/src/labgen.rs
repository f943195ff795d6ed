//! Definitions of derived types: a fixed set, and more drawn from the seed. The same function gives
//! the Rust text that is compiled with the derive and the schemas the checks work from.
use crate::lab::*;
use crate::tape::Rng;

struct Gen {
    r: Rng,
    defs: Vec<Def>,
}

// some of them are names that the generated code uses for its own variables
const FIELD_NAMES: [&str; 24] = [
    "amount", "reader", "nonce_hash", "key", "payload", "array", "memo", "writer", "v", "target", "map", "epoch",
    "k", "signature", "len", "quantity", "tag", "value", "issuer", "r", "variant", "e", "Mixed", "_hidden",
];
const VARIANT_NAMES: [&str; 12] =
    ["Alpha", "Bravo", "Charlie", "Delta", "Echo", "Foxtrot", "Golf", "Hotel", "India", "Juliet", "Kilo", "Lima"];

fn fname(i: usize) -> String {
    if i < FIELD_NAMES.len() {
        FIELD_NAMES[i].into()
    } else {
        format!("{}{}", FIELD_NAMES[i % 22], i)
    }
}
fn vname(i: usize) -> String {
    if i < VARIANT_NAMES.len() {
        VARIANT_NAMES[i].into()
    } else {
        format!("{}{}", VARIANT_NAMES[i % 12], i)
    }
}
fn field(name: &str, ty: Ty) -> Field {
    Field { name: name.into(), ty, opt: false, vec: VecStyle::No }
}
fn opt(name: &str, ty: Ty) -> Field {
    Field { opt: true, ..field(name, ty) }
}
fn unnamed(v: Vec<Field>) -> Vec<Field> {
    v.into_iter().enumerate().map(|(i, f)| Field { name: format!("field{}", i), ..f }).collect()
}
fn unit(name: &str) -> Variant {
    Variant { name: name.into(), named: false, fields: vec![], kind: None }
}
fn tuple(name: &str, tys: Vec<Ty>) -> Variant {
    Variant { name: name.into(), named: false, fields: unnamed(tys.into_iter().map(|t| field("", t)).collect()), kind: None }
}
fn record(name: &str, fields: Vec<Field>) -> Variant {
    Variant { name: name.into(), named: true, fields, kind: None }
}
fn vec_field(ty: Ty, style: VecStyle) -> Field {
    Field { name: String::new(), ty, opt: false, vec: style }
}
fn of_kind(v: Variant, k: K) -> Variant {
    Variant { kind: Some(k), ..v }
}

impl Gen {
    fn b(&mut self, n: u64) -> u64 {
        self.r.below(n)
    }
    fn chance(&mut self, percent: u64) -> bool {
        self.r.below(100) < percent
    }
    fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.r.below(v.len() as u64) as usize].clone()
    }
    fn number(&mut self) -> u64 {
        const N: [u64; 30] = [
            0, 1, 2, 3, 5, 19, 20, 22, 23, 24, 25, 30, 31, 32, 63, 64, 100, 127, 128, 254, 255, 256, 257, 1000, 65534, 65535, 65536, 0x7fff_ffff,
            0xffff_ffff, 0x1_0000_0000,
        ];
        match self.b(10) {
            0 => self.r.next() >> 1,
            1 => (1 << 63) + self.b(4) - 2,
            _ => self.pick(&N),
        }
    }
    fn add(&mut self, body: Body, start: u64, skips: Vec<u64>) -> usize {
        let i = self.defs.len();
        let name = format!("{}{}", if matches!(body, Body::Struct { .. }) { "S" } else { "E" }, i);
        self.add_named(&name, body, start, skips)
    }
    fn add_named(&mut self, name: &str, body: Body, start: u64, skips: Vec<u64>) -> usize {
        let i = self.defs.len();
        let n = match &body {
            Body::Struct { shape: Shape::MapInt, fields, .. } => fields.len(),
            Body::Struct { .. } => 0,
            Body::Enum { variants, .. } => variants.len(),
        };
        let numbers = numbers(start, &skips, n);
        let mut d = Def { name: name.into(), body, start, skips, numbers, src: String::new() };
        // placeholder so that a type can mention itself
        self.defs.push(d.clone());
        d.src = self.text(&d);
        self.defs[i] = d;
        i
    }

    // ---- text ----
    fn attrs(&mut self, mut list: Vec<String>) -> String {
        // any order, in one or several attributes
        if list.is_empty() {
            return String::new();
        }
        if self.chance(30) {
            for i in (1..list.len()).rev() {
                let j = self.b(i as u64 + 1) as usize;
                list.swap(i, j)
            }
        }
        if self.chance(50) {
            list.iter().map(|a| format!("#[cborrepr({})]\n", a)).collect()
        } else {
            format!("#[cborrepr({})]\n", list.join(", "))
        }
    }
    fn skips(&mut self, skips: &[u64], list: &mut Vec<String>) {
        for s in skips {
            list.push(format!("skipkey = {}", s))
        }
    }
    fn field_ty(&mut self, f: &Field) -> String {
        let t = f.ty.rust(&self.defs);
        match (f.opt, f.vec) {
            (true, _) => format!("Option<{}>", t),
            (_, VecStyle::No) => t,
            (_, VecStyle::Auto) => format!("Vec<{}>", t),
            (_, VecStyle::Attr) => {
                if t == "u8" {
                    "Vec<u8>".into()
                } else {
                    format!("std::vec::Vec<{}>", t)
                }
            }
        }
    }
    fn text(&mut self, d: &Def) -> String {
        let mut o = String::new();
        let mut list = Vec::new();
        match &d.body {
            Body::Struct { shape, tag, named, fields } => {
                match shape {
                    Shape::Flat => {
                        if self.chance(60) {
                            list.push("structure = \"flat\"".into())
                        }
                    }
                    Shape::Array => list.push("structure = \"array\"".into()),
                    Shape::ArrayLastOpt => list.push("structure = \"array_lastopt\"".into()),
                    Shape::MapInt => list.push("structure = \"mapint\"".into()),
                }
                if let Some(t) = tag {
                    list.push(format!("tag = {}", t))
                }
                if *shape == Shape::MapInt && (d.start != 0 || self.chance(20)) {
                    list.push(format!("map_starts_at = {}", d.start))
                }
                self.skips(&d.skips, &mut list);
                o.push_str("#[derive(CborRepr)]\n");
                o.push_str(&self.attrs(list));
                if *named {
                    o.push_str(&format!("pub struct {} {{\n", d.name));
                    for f in fields {
                        if *shape == Shape::MapInt && !f.opt {
                            o.push_str("    #[cborrepr(mandatory)]\n")
                        }
                        o.push_str(&format!("    pub {}: {},\n", f.name, self.field_ty(f)))
                    }
                    o.push_str("}\n");
                } else {
                    let t: Vec<String> = fields.iter().map(|f| format!("pub {}", self.field_ty(f))).collect();
                    o.push_str(&format!("pub struct {}({});\n", d.name, t.join(", ")));
                }
            }
            Body::Enum { kind, variants } => {
                match kind {
                    EKind::TagVariant => {
                        if self.chance(60) {
                            list.push("enumtype = \"tagvariant\"".into())
                        }
                    }
                    EKind::EnumInt => list.push("enumtype = \"enumint\"".into()),
                    EKind::EnumType => list.push("enumtype = \"enumtype\"".into()),
                }
                if *kind != EKind::EnumType && (d.start != 0 || self.chance(20)) {
                    list.push(format!("variant_starts_at = {}", d.start))
                }
                self.skips(&d.skips, &mut list);
                o.push_str("#[derive(CborRepr)]\n");
                o.push_str(&self.attrs(list));
                o.push_str(&format!("pub enum {} {{\n", d.name));
                for v in variants {
                    if let Some(k) = v.kind {
                        o.push_str(&format!("    #[cborrepr(cbortype = \"{}\")]\n", k.attr()))
                    }
                    if v.fields.is_empty() {
                        let empty = match self.b(8) {
                            0 => "()",
                            1 => " {}",
                            _ => "",
                        };
                        o.push_str(&format!("    {}{},\n", v.name, empty))
                    } else if v.named {
                        let t: Vec<String> = v.fields.iter().map(|f| format!("{}: {}", f.name, self.field_ty(f))).collect();
                        o.push_str(&format!("    {} {{ {} }},\n", v.name, t.join(", ")))
                    } else {
                        let t: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| format!("{}{}", if f.vec == VecStyle::Attr { "#[cborrepr(variant = \"vec\")] " } else { "" }, self.field_ty(f)))
                            .collect();
                        o.push_str(&format!("    {}({}),\n", v.name, t.join(", ")))
                    }
                }
                o.push_str("}\n");
            }
        }
        o
    }

    // ---- random definitions ----
    fn native(&mut self) -> Ty {
        match self.b(14) {
            0 => Ty::Bool,
            1 => Ty::U8,
            2 => Ty::U16,
            3 => Ty::U32,
            4 | 5 => Ty::U64,
            6 | 7 => Ty::Str,
            8 => Ty::Bytes,
            9 => Ty::Fixed(self.pick(&FIXED)),
            10 => Ty::Scalar,
            11 => Ty::Data,
            12 => Ty::Ext(self.b(5) as usize),
            _ => Ty::U32,
        }
    }
    /// a type that is one item
    fn ty(&mut self) -> Ty {
        match self.b(20) {
            0..=10 => self.native(),
            11..=16 => {
                let ok: Vec<usize> = (0..self.defs.len()).filter(|i| self.defs[*i].single(&self.defs)).collect();
                Ty::Def(self.pick(&ok))
            }
            17 | 18 => {
                let t = self.ty();
                Ty::VecOf(Box::new(t))
            }
            _ => {
                let t = self.ty();
                if matches!(t, Ty::Raw(_)) {
                    t
                } else {
                    Ty::Raw(Box::new(t))
                }
            }
        }
    }
    fn count(&mut self) -> usize {
        match self.b(12) {
            0 => 0,
            1 | 2 => 1,
            3..=8 => 2 + self.b(3) as usize,
            9 | 10 => 5 + self.b(4) as usize,
            _ => 22 + self.b(5) as usize,
        }
    }
    fn fields(&mut self, n: usize, named: bool) -> Vec<Field> {
        let off = self.b(20) as usize;
        let v: Vec<Field> = (0..n)
            .map(|i| {
                let t = self.ty();
                field(&fname(if n < 12 { i + off } else { i }), t)
            })
            .collect();
        if named {
            v
        } else {
            unnamed(v)
        }
    }
    fn skip_list(&mut self, start: u64, n: u64) -> Vec<u64> {
        let mut v = Vec::new();
        if self.chance(50) {
            for _ in 0..1 + self.b(3) {
                v.push(start + self.b(n + 2))
            }
        }
        if self.chance(20) {
            // a run, and the start itself
            let a = self.b(2);
            v.extend((0..2 + self.b(2)).map(|i| start + a + i))
        }
        if self.chance(15) {
            v.push(start.wrapping_sub(1 + self.b(2)))
        }
        if self.chance(10) {
            v.push(start + n + 3 + self.b(100))
        }
        if self.chance(40) {
            v.reverse()
        }
        v
    }
    fn random_struct(&mut self) {
        let tag = if self.chance(35) { Some(self.number()) } else { None };
        match self.b(10) {
            0 | 1 => {
                // flat: several items only when it is not used inside other items
                let named = self.chance(60);
                let n = if tag.is_some() { 1 } else { self.count().min(8) };
                let fields = self.fields(n, named);
                self.add(Body::Struct { shape: Shape::Flat, tag, named, fields }, 0, vec![]);
            }
            2..=4 => {
                let named = self.chance(65);
                let n = self.count();
                let fields = self.fields(n, named);
                self.add(Body::Struct { shape: Shape::Array, tag, named, fields }, 0, vec![]);
            }
            5 | 6 => {
                let n = self.count().max(1);
                let mut fields = self.fields(n, true);
                fields[n - 1].opt = true;
                self.add(Body::Struct { shape: Shape::ArrayLastOpt, tag, named: true, fields }, 0, vec![]);
            }
            _ => {
                let n = if self.chance(6) { 60 + self.b(5) as usize } else { self.count() };
                let mut fields = self.fields(n, true);
                let p = self.pick(&[0u64, 30, 60, 100]);
                for f in fields.iter_mut() {
                    f.opt = self.chance(p)
                }
                let start = if self.chance(50) { 0 } else { self.number() };
                let skips = self.skip_list(start, n as u64);
                self.add(Body::Struct { shape: Shape::MapInt, tag, named: true, fields }, start, skips);
            }
        }
    }
    fn random_enum(&mut self) {
        let start = if self.chance(50) { 0 } else { self.number() };
        match self.b(10) {
            0..=4 => {
                let n = 1 + match self.b(8) {
                    0 => 25,
                    _ => self.b(6) as usize,
                };
                let me = self.defs.len();
                let mut variants = Vec::new();
                for i in 0..n {
                    let k = if n > 10 { self.b(2) as usize } else { self.count().min(26) };
                    let name = vname(i);
                    variants.push(match self.b(8) {
                        0 | 1 => unit(&name),
                        2..=4 => {
                            let k = k.max(1);
                            record(&name, self.fields(k, true))
                        }
                        _ => {
                            let k = k.max(1);
                            let mut f = self.fields(k, false);
                            for x in f.iter_mut() {
                                if self.chance(25) {
                                    x.vec = if self.chance(70) { VecStyle::Auto } else { VecStyle::Attr };
                                    if x.vec == VecStyle::Auto && x.ty == Ty::U8 {
                                        x.vec = VecStyle::Attr
                                    }
                                    if self.chance(12) {
                                        x.ty = Ty::Def(me)
                                    }
                                }
                            }
                            Variant { name, named: false, fields: f, kind: None }
                        }
                    })
                }
                let skips = self.skip_list(start, n as u64);
                self.add(Body::Enum { kind: EKind::TagVariant, variants }, start, skips);
            }
            5 | 6 => {
                let n = match self.b(6) {
                    0 => 26,
                    1 => 1,
                    _ => 1 + self.b(7) as usize,
                };
                let variants = (0..n).map(|i| unit(&vname(i))).collect();
                let skips = self.skip_list(start, n as u64);
                self.add(Body::Enum { kind: EKind::EnumInt, variants }, start, skips);
            }
            _ => {
                let mut kinds = KINDS.to_vec();
                for i in (1..kinds.len()).rev() {
                    let j = self.b(i as u64 + 1) as usize;
                    kinds.swap(i, j)
                }
                let n = 1 + self.b(8) as usize;
                let mut variants = Vec::new();
                for (i, k) in kinds.into_iter().take(n).enumerate() {
                    let name = vname(i);
                    if k == K::Null && self.chance(80) {
                        variants.push(of_kind(unit(&name), k));
                        continue;
                    }
                    let mut ty = None;
                    for _ in 0..30 {
                        let t = self.ty();
                        if supports(&t, k, &self.defs) {
                            ty = Some(t);
                            break;
                        }
                    }
                    let ty = ty.unwrap_or(match k {
                        K::Neg => Ty::Scalar,
                        _ => Ty::Data,
                    });
                    let named = self.chance(30);
                    let f = field("inner_value", ty);
                    variants.push(of_kind(if named { record(&name, vec![f]) } else { Variant { name, named: false, fields: unnamed(vec![f]), kind: None } }, k));
                }
                self.add(Body::Enum { kind: EKind::EnumType, variants }, 0, vec![]);
            }
        }
    }

    fn fixed(&mut self) {
        use Ty::*;
        let st = |shape, tag, fields: Vec<Field>| Body::Struct { shape, tag, named: true, fields };
        // the README
        let point = self.add_named("Point", st(Shape::Array, None, vec![field("x", U32), field("y", U32)]), 0, vec![]);
        self.add_named("PointOpt", st(Shape::ArrayLastOpt, None, vec![field("x", U32), opt("y", U32)]), 0, vec![]);
        self.add_named("FlatPoint", st(Shape::Flat, None, vec![field("x", U32), field("y", U32)]), 0, vec![]);
        let mp = self.add_named("MapPoint", st(Shape::MapInt, None, vec![field("x", U32), field("y", U32), opt("z", U32)]), 0, vec![]);
        self.add_named(
            "Variant",
            Body::Enum {
                kind: EKind::TagVariant,
                variants: vec![tuple("One", vec![U32]), tuple("Two", vec![U64, Str]), tuple("Three", vec![Def(point)]), unit("Four")],
            },
            0,
            vec![],
        );
        self.add_named("Code", Body::Enum { kind: EKind::EnumInt, variants: vec![unit("Code1"), unit("Code2"), unit("Code3")] }, 0, vec![]);
        self.add_named(
            "OneOrEmpty",
            Body::Enum { kind: EKind::EnumType, variants: vec![of_kind(unit("Empty"), K::Null), of_kind(tuple("One", vec![U64]), K::Pos)] },
            0,
            vec![],
        );
        // tags of every shape
        let tflat = self.add_named("TagFlat", st(Shape::Flat, Some(258), vec![field("amount", U64)]), 0, vec![]);
        self.add_named("TagFlatTuple", Body::Struct { shape: Shape::Flat, tag: Some(23), named: false, fields: unnamed(vec![field("", Str)]) }, 0, vec![]);
        self.add_named("TagArray", st(Shape::Array, Some(24), vec![field("owner", Str), field("height", Bool)]), 0, vec![]);
        self.add_named("TagLast", st(Shape::ArrayLastOpt, Some(255), vec![field("owner", Str), field("memo", Bytes), opt("extra", Def(tflat))]), 0, vec![]);
        let tmap = self.add_named("TagMap", st(Shape::MapInt, Some(u64::MAX), vec![field("owner", Str), opt("extra", Def(mp))]), 22, vec![24, 23]);
        // lone optional fields, no fields
        self.add_named("OnlyOpt", st(Shape::ArrayLastOpt, None, vec![opt("memo", VecOf(Box::new(U8)))]), 0, vec![]);
        self.add_named("OnlyOptMap", st(Shape::MapInt, None, vec![opt("memo", Str), opt("extra", Bool)]), u64::MAX - 2, vec![u64::MAX - 1]);
        // numbers up to the largest
        self.add_named("LastMap", st(Shape::MapInt, None, vec![field("memo", Str), opt("extra", Bool)]), u64::MAX - 1, vec![]);
        self.add_named("LastKey", st(Shape::MapInt, None, vec![opt("memo", U8)]), u64::MAX, vec![]);
        self.add_named("LastCode", Body::Enum { kind: EKind::EnumInt, variants: vec![unit("Alpha"), unit("Bravo")] }, u64::MAX - 2, vec![u64::MAX - 1]);
        self.add_named("LastVariant", Body::Enum { kind: EKind::TagVariant, variants: vec![tuple("Alpha", vec![U64])] }, u64::MAX, vec![]);
        self.add_named("NoFields", st(Shape::Array, None, vec![]), 0, vec![]);
        // a map of 64 fields
        let f64 = (0..64).map(|i| if i % 3 == 1 { opt(&fname(i), U8) } else { field(&fname(i), if i % 2 == 0 { U16 } else { Bool }) }).collect();
        self.add_named("Wide", st(Shape::MapInt, None, f64), 200, vec![210, 255, 256, 211]);
        let f30 = (0..30).map(|i| field(&fname(i), if i % 5 == 0 { Str } else { U64 })).collect();
        self.add_named("Long", st(Shape::Array, None, f30), 0, vec![]);
        let f24 = (0..24).map(|i| if i == 23 { opt(&fname(i), U8) } else { field(&fname(i), U8) }).collect();
        self.add_named("LongOpt", st(Shape::ArrayLastOpt, None, f24), 0, vec![]);
        // flat in flat
        let inner = self.add_named("FlatIn", Body::Struct { shape: Shape::Flat, tag: None, named: false, fields: unnamed(vec![field("", U8), field("", Str), field("", Def(tflat))]) }, 0, vec![]);
        self.add_named("FlatOut", st(Shape::Flat, None, vec![field("origin", Def(inner)), field("target", Def(inner)), field("price", Scalar)]), 0, vec![]);
        // recursion through vectors
        let me = self.defs.len();
        let tree = self.add_named(
            "Tree",
            Body::Enum {
                kind: EKind::TagVariant,
                variants: vec![
                    tuple("Leaf", vec![U64]),
                    Variant { name: "Node".into(), named: false, fields: unnamed(vec![field("", Str), vec_field(Def(me), VecStyle::Auto)]), kind: None },
                    record("Pair", vec![field("forest", VecOf(Box::new(Def(me)))), field("label", Str)]),
                    unit("End"),
                    Variant { name: "Blob".into(), named: false, fields: unnamed(vec![vec_field(U8, VecStyle::Attr), field("", Bytes), vec_field(Def(me), VecStyle::Attr)]), kind: None },
                ],
            },
            22,
            vec![23, 25],
        );
        // vectors of a type that is not a path
        self.add_named(
            "Chunks",
            Body::Enum {
                kind: EKind::TagVariant,
                variants: vec![
                    Variant { name: "Few".into(), named: false, fields: unnamed(vec![vec_field(Fixed(4), VecStyle::Auto), field("", U8)]), kind: None },
                    Variant { name: "Many".into(), named: false, fields: unnamed(vec![vec_field(Fixed(20), VecStyle::Attr)]), kind: None },
                ],
            },
            0,
            vec![],
        );
        // enums by kind, all of them
        self.add_named(
            "ByKind",
            Body::Enum {
                kind: EKind::EnumType,
                variants: vec![
                    of_kind(tuple("Num", vec![U16]), K::Pos),
                    of_kind(tuple("Minus", vec![Scalar]), K::Neg),
                    of_kind(tuple("List", vec![Def(tree)]), K::Array),
                    of_kind(tuple("Table", vec![Def(mp)]), K::Map),
                    of_kind(record("Tagged", vec![field("inner", Def(tmap))]), K::Tag),
                    of_kind(tuple("Hash", vec![Fixed(28)]), K::Bytes),
                    of_kind(tuple("Name", vec![Str]), K::Text),
                    of_kind(unit("Nothing"), K::Null),
                ],
            },
            0,
            vec![],
        );
        let codes = (0..26).map(|i| unit(&vname(i))).collect();
        self.add_named("Codes", Body::Enum { kind: EKind::EnumInt, variants: codes }, 250, vec![255, 256, 252]);
        self.add_named(
            "Big",
            Body::Enum { kind: EKind::TagVariant, variants: vec![tuple("Alpha", vec![Bool]), unit("Bravo"), record("Charlie", vec![field("owner", Str)])] },
            u64::MAX - 4,
            vec![u64::MAX - 3],
        );
        // more than a byte can count
        let f270 = (0..270).map(|i| field(&fname(i), if i % 90 == 7 { Str } else { U16 })).collect();
        self.add_named("Long270", st(Shape::Array, None, f270), 0, vec![]);
        let f257 = (0..257).map(|i| if i == 256 { opt(&fname(i), U16) } else { field(&fname(i), if i % 90 == 7 { Bool } else { U8 }) }).collect();
        self.add_named("LongOpt257", st(Shape::ArrayLastOpt, None, f257), 0, vec![]);
        let codes = (0..300).map(|i| unit(&vname(i))).collect();
        self.add_named("Codes300", Body::Enum { kind: EKind::EnumInt, variants: codes }, 0, vec![]);
        let many = (0..290)
            .map(|i| match i % 40 {
                5 => tuple(&vname(i), vec![U8]),
                17 => record(&vname(i), vec![field("owner", Str), field("height", U64)]),
                _ => unit(&vname(i)),
            })
            .collect();
        self.add_named("Many290", Body::Enum { kind: EKind::TagVariant, variants: many }, 0, vec![]);
        let wide = vec![unit("Alpha"), tuple("Bravo", (0..258).map(|_| U8).collect()), record("Charlie", (0..257).map(|i| field(&fname(i), U8)).collect())];
        self.add_named("WideVariant", Body::Enum { kind: EKind::TagVariant, variants: wide }, 0, vec![]);
        self.add_named(
            "Nest",
            st(
                Shape::Array,
                None,
                vec![
                    field("origin", VecOf(Box::new(VecOf(Box::new(Def(point)))))),
                    field("target", Def(mp)),
                    field("price", Raw(Box::new(Def(tree)))),
                    field("ratio", Ext(4)),
                ],
            ),
            0,
            vec![],
        );
    }

    fn lab_impl(&self, i: usize) -> String {
        let d = &self.defs[i];
        let to = |f: &Field, e: &str| if f.vec != VecStyle::No { format!("vec_to_val({})", e) } else { format!("Lab::to_val({})", e) };
        let from = |f: &Field, e: String| if f.vec != VecStyle::No { format!("vec_from_val(&{})", e) } else { format!("Lab::from_val(&{})", e) };
        let mut o = format!("impl Lab for {} {{\n", d.name);
        match &d.body {
            Body::Struct { named, fields, .. } => {
                let t: Vec<String> = fields
                    .iter()
                    .enumerate()
                    .map(|(i, f)| to(f, &format!("&self.{}", if *named { f.name.clone() } else { i.to_string() })))
                    .collect();
                o.push_str(&format!("    fn to_val(&self) -> Val {{ Val::Struct(vec![{}]) }}\n", t.join(", ")));
                let t: Vec<String> = fields
                    .iter()
                    .enumerate()
                    .map(|(i, f)| format!("{}{}", if *named { format!("{}: ", f.name) } else { String::new() }, from(f, format!("v[{}]", i))))
                    .collect();
                let body = if *named { format!("{} {{ {} }}", d.name, t.join(", ")) } else { format!("{}({})", d.name, t.join(", ")) };
                o.push_str(&format!("    fn from_val(v: &Val) -> Self {{ let v = v.fields(); let _ = v; {} }}\n", body));
            }
            Body::Enum { variants, .. } => {
                o.push_str("    fn to_val(&self) -> Val { match self {\n");
                for (k, v) in variants.iter().enumerate() {
                    let names: Vec<String> = (0..v.fields.len()).map(|i| format!("a{}", i)).collect();
                    let pat = if v.fields.is_empty() {
                        " {}".to_string()
                    } else if v.named {
                        let t: Vec<String> = v.fields.iter().zip(&names).map(|(f, n)| format!("{}: {}", f.name, n)).collect();
                        format!(" {{ {} }}", t.join(", "))
                    } else {
                        format!("({})", names.join(", "))
                    };
                    let t: Vec<String> = v.fields.iter().zip(&names).map(|(f, n)| to(f, n)).collect();
                    o.push_str(&format!("        Self::{}{} => Val::Enum({}, vec![{}]),\n", v.name, pat, k, t.join(", ")));
                }
                o.push_str("    } }\n    fn from_val(v: &Val) -> Self { let f = v.fields(); let _ = f; match v.variant() {\n");
                for (k, v) in variants.iter().enumerate() {
                    let t: Vec<String> = v
                        .fields
                        .iter()
                        .enumerate()
                        .map(|(i, f)| format!("{}{}", if v.named { format!("{}: ", f.name) } else { String::new() }, from(f, format!("f[{}]", i))))
                        .collect();
                    let body = if v.fields.is_empty() {
                        " {}".to_string()
                    } else if v.named {
                        format!(" {{ {} }}", t.join(", "))
                    } else {
                        format!("({})", t.join(", "))
                    };
                    o.push_str(&format!("        {} => Self::{}{},\n", k, v.name, body));
                }
                o.push_str("        _ => panic!(\"harness: variant\"),\n    } }\n");
            }
        }
        o.push_str("}\n");
        o
    }
}

pub fn definitions(seed: u64, n: usize) -> Vec<Def> {
    build(seed, n).defs
}
fn build(seed: u64, n: usize) -> Gen {
    let mut g = Gen { r: Rng::new(seed ^ 0x0dd5_eed5), defs: Vec::new() };
    g.fixed();
    for i in 0..n {
        if i % 2 == 0 {
            g.random_struct()
        } else {
            g.random_enum()
        }
    }
    g
}
/// the Rust module; structures and enums are in modules of their own
pub fn module(seed: u64, n: usize) -> String {
    let g = build(seed, n);
    let mut o = String::new();
    o.push_str(&format!("pub const SEED: u64 = {};\npub const COUNT: usize = {};\n", seed, n));
    for (m, structs) in [("structs", true), ("enums", false)] {
        o.push_str(&format!("#[allow(warnings)]\npub mod {} {{\nuse super::*;\n", m));
        for (i, d) in g.defs.iter().enumerate() {
            if d.is_struct() == structs {
                o.push_str(&d.src);
                o.push_str(&g.lab_impl(i));
            }
        }
        o.push_str("}\n");
    }
    o.push_str("pub use enums::*;\npub use structs::*;\n");
    o.push_str("pub fn all() -> Vec<Fns> {\n    vec![\n");
    for d in &g.defs {
        o.push_str(&format!("        fns::<{}>(),\n", d.name))
    }
    o.push_str("    ]\n}\n");
    o
}
