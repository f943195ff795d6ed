//! Derived types: schemas, values, and an independent statement of the layout each schema documents
//! (encoding of a value, and acceptance and meaning of items).
use crate::gen;
use crate::refcbor::*;
use crate::tape::Src;
use cbored::*;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Pos,
    Neg,
    Array,
    Map,
    Tag,
    Bytes,
    Text,
    Null,
}
pub const KINDS: [K; 8] = [K::Pos, K::Neg, K::Array, K::Map, K::Tag, K::Bytes, K::Text, K::Null];
impl K {
    pub fn attr(self) -> &'static str {
        match self {
            K::Pos => "positive",
            K::Neg => "negative",
            K::Array => "array",
            K::Map => "map",
            K::Tag => "tag",
            K::Bytes => "bytes",
            K::Text => "text",
            K::Null => "null",
        }
    }
    pub fn of(it: &Item) -> Option<K> {
        Some(match it {
            Item::Uint(..) => K::Pos,
            Item::Nint(..) => K::Neg,
            Item::Array(..) => K::Array,
            Item::Map(..) => K::Map,
            Item::Tag(..) => K::Tag,
            Item::Bytes(_) => K::Bytes,
            Item::Text(_) => K::Text,
            Item::Const(22) => K::Null,
            _ => return None,
        })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    U8,
    U16,
    U32,
    U64,
    Str,
    Bytes,
    Fixed(usize),
    Scalar,
    Data,
    /// 0: date/time, 1: positive bignum, 2: negative bignum, 3: embedded CBOR, 4: rational
    Ext(usize),
    /// CborDataOf
    Raw(Box<Ty>),
    /// a vector through the vector helpers
    VecOf(Box<Ty>),
    /// a derived type
    Def(usize),
}
impl Ty {
    pub fn rust(&self, defs: &[Def]) -> String {
        match self {
            Ty::Bool => "bool".into(),
            Ty::U8 => "u8".into(),
            Ty::U16 => "u16".into(),
            Ty::U32 => "u32".into(),
            Ty::U64 => "u64".into(),
            Ty::Str => "String".into(),
            Ty::Bytes => "Vec<u8>".into(),
            Ty::Fixed(n) => format!("[u8; {}]", n),
            Ty::Scalar => "Scalar".into(),
            Ty::Data => "DataOwned".into(),
            Ty::Ext(k) => ["StandardDateTime", "PositiveBignum", "NegativeBignum", "EncodedCBOR", "RationalNumber"][*k].into(),
            Ty::Raw(t) => format!("CborDataOf<{}>", t.rust(defs)),
            Ty::VecOf(t) => format!("VecOf<{}>", t.rust(defs)),
            Ty::Def(i) => defs[*i].name.clone(),
        }
    }
}

/// Vector through the helpers, as a user writes it
pub struct VecOf<T>(pub Vec<T>);
impl<T: Encode> Encode for VecOf<T> {
    fn encode(&self, writer: &mut Writer) {
        encode_vec(&self.0, writer)
    }
}
impl<T: Decode> Decode for VecOf<T> {
    fn decode<'a>(reader: &mut Reader<'a>) -> Result<Self, DecodeError> {
        decode_vec(reader).map(VecOf)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Shape {
    Flat,
    Array,
    ArrayLastOpt,
    MapInt,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum VecStyle {
    No,
    /// `Vec<T>`, recognised by itself
    Auto,
    /// some other spelling, with the attribute
    Attr,
}
#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub ty: Ty,
    pub opt: bool,
    pub vec: VecStyle,
}
#[derive(Clone, Debug)]
pub struct Variant {
    pub name: String,
    pub named: bool,
    pub fields: Vec<Field>,
    pub kind: Option<K>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EKind {
    TagVariant,
    EnumInt,
    EnumType,
}
#[derive(Clone, Debug)]
pub enum Body {
    Struct { shape: Shape, tag: Option<u64>, named: bool, fields: Vec<Field> },
    Enum { kind: EKind, variants: Vec<Variant> },
}
#[derive(Clone, Debug)]
pub struct Def {
    pub name: String,
    pub body: Body,
    pub start: u64,
    pub skips: Vec<u64>,
    /// numbers of the fields (mapint) or of the variants
    pub numbers: Vec<u64>,
    pub src: String,
}
/// Consecutive numbers from the start, leaving out the skipped ones.
pub fn numbers(start: u64, skips: &[u64], n: usize) -> Vec<u64> {
    let mut out = Vec::new();
    let mut c = start as u128;
    while out.len() < n {
        if !skips.iter().any(|s| *s as u128 == c) {
            out.push(c as u64)
        }
        c += 1
    }
    out
}
impl Def {
    pub fn is_struct(&self) -> bool {
        matches!(self.body, Body::Struct { .. })
    }
    pub fn what(&self) -> &'static str {
        match &self.body {
            Body::Struct { shape, tag, .. } => match (shape, tag.is_some()) {
                (Shape::Flat, false) => "flat",
                (Shape::Flat, true) => "flat, tagged",
                (Shape::Array, false) => "array",
                (Shape::Array, true) => "array, tagged",
                (Shape::ArrayLastOpt, false) => "array_lastopt",
                (Shape::ArrayLastOpt, true) => "array_lastopt, tagged",
                (Shape::MapInt, false) => "mapint",
                (Shape::MapInt, true) => "mapint, tagged",
            },
            Body::Enum { kind, .. } => match kind {
                EKind::TagVariant => "tagvariant",
                EKind::EnumInt => "enumint",
                EKind::EnumType => "enumtype",
            },
        }
    }
    /// encodes as exactly one item
    pub fn single(&self, defs: &[Def]) -> bool {
        match &self.body {
            Body::Struct { shape: Shape::Flat, tag: None, fields, .. } => fields.len() == 1 && single(&fields[0].ty, defs),
            _ => true,
        }
    }
}
pub fn single(t: &Ty, defs: &[Def]) -> bool {
    match t {
        Ty::Def(i) => defs.get(*i).map(|d| d.single(defs)).unwrap_or(true),
        _ => true,
    }
}
/// can some value of the type encode as an item of that kind
pub fn supports(t: &Ty, k: K, defs: &[Def]) -> bool {
    match t {
        Ty::Bool => false,
        Ty::U8 | Ty::U16 | Ty::U32 | Ty::U64 => k == K::Pos,
        Ty::Str => k == K::Text,
        Ty::Bytes | Ty::Fixed(_) => k == K::Bytes,
        Ty::Scalar => k == K::Pos || k == K::Neg,
        Ty::Data => true,
        Ty::Ext(_) => k == K::Tag,
        Ty::Raw(t) => supports(t, k, defs),
        Ty::VecOf(_) => k == K::Array,
        Ty::Def(i) => {
            let d = match defs.get(*i) {
                Some(d) => d,
                None => return false,
            };
            match &d.body {
                Body::Struct { tag: Some(_), .. } => k == K::Tag,
                Body::Struct { shape: Shape::Flat, fields, .. } => fields.len() == 1 && supports(&fields[0].ty, k, defs),
                Body::Struct { shape: Shape::MapInt, .. } => k == K::Map,
                Body::Struct { .. } => k == K::Array,
                Body::Enum { kind: EKind::TagVariant, .. } => k == K::Array,
                Body::Enum { kind: EKind::EnumInt, .. } => k == K::Pos,
                Body::Enum { kind: EKind::EnumType, variants } => variants.iter().any(|v| v.kind == Some(k)),
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Bool(bool),
    U(u64),
    Str(String),
    Bytes(Vec<u8>),
    /// a value whose representation is part of it
    Raw(Vec<u8>),
    Vec(Vec<Val>),
    Opt(Option<Box<Val>>),
    Struct(Vec<Val>),
    Enum(usize, Vec<Val>),
}
impl Val {
    pub fn fields(&self) -> &[Val] {
        match self {
            Val::Struct(v) | Val::Enum(_, v) | Val::Vec(v) => v,
            x => panic!("harness: no fields in {:?}", x),
        }
    }
    pub fn variant(&self) -> usize {
        match self {
            Val::Enum(i, _) => *i,
            x => panic!("harness: no variant in {:?}", x),
        }
    }
    pub fn short(&self) -> String {
        let s = format!("{:?}", self);
        if s.len() > 300 {
            let cut = (0..=300).rev().find(|i| s.is_char_boundary(*i)).unwrap();
            format!("{}..", &s[..cut])
        } else {
            s
        }
    }
}
pub fn vec_to_val<T: Lab>(v: &[T]) -> Val {
    Val::Vec(v.iter().map(|x| x.to_val()).collect())
}
pub fn vec_from_val<T: Lab>(v: &Val) -> Vec<T> {
    v.fields().iter().map(|x| T::from_val(x)).collect()
}

pub trait Lab: Sized {
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Self;
}
macro_rules! uint_lab {
    ($($t:ty),*) => {$(impl Lab for $t {
        fn to_val(&self) -> Val { Val::U(*self as u64) }
        fn from_val(v: &Val) -> Self { match v { Val::U(x) => *x as $t, x => panic!("harness: {:?}", x) } }
    })*}
}
uint_lab!(u8, u16, u32, u64);
impl Lab for bool {
    fn to_val(&self) -> Val {
        Val::Bool(*self)
    }
    fn from_val(v: &Val) -> Self {
        *v == Val::Bool(true)
    }
}
impl Lab for String {
    fn to_val(&self) -> Val {
        Val::Str(self.clone())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Str(x) => x.clone(),
            x => panic!("harness: {:?}", x),
        }
    }
}
impl Lab for Vec<u8> {
    fn to_val(&self) -> Val {
        Val::Bytes(self.clone())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Bytes(x) => x.clone(),
            x => panic!("harness: {:?}", x),
        }
    }
}
impl<const N: usize> Lab for [u8; N] {
    fn to_val(&self) -> Val {
        Val::Bytes(self.to_vec())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Bytes(x) => x.as_slice().try_into().expect("harness: length"),
            x => panic!("harness: {:?}", x),
        }
    }
}
macro_rules! raw_lab {
    ($($t:ty),*) => {$(impl Lab for $t {
        fn to_val(&self) -> Val { Val::Raw(encode_to_bytes(self)) }
        fn from_val(v: &Val) -> Self { match v {
            Val::Raw(x) => decode_from_bytes(x).expect("value from its own encoding"),
            x => panic!("harness: {:?}", x) } }
    })*}
}
raw_lab!(
    Scalar,
    DataOwned,
    tagged::StandardDateTime,
    tagged::PositiveBignum,
    tagged::NegativeBignum,
    tagged::EncodedCBOR,
    tagged::RationalNumber
);
impl<T: Decode> Lab for CborDataOf<T> {
    fn to_val(&self) -> Val {
        Val::Raw(self.as_ref().to_vec())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Raw(x) => Reader::new(x).exact_decodable_data().expect("raw value from its own bytes"),
            x => panic!("harness: {:?}", x),
        }
    }
}
impl<T: Lab> Lab for VecOf<T> {
    fn to_val(&self) -> Val {
        vec_to_val(&self.0)
    }
    fn from_val(v: &Val) -> Self {
        VecOf(vec_from_val(v))
    }
}
impl<T: Lab> Lab for Option<T> {
    fn to_val(&self) -> Val {
        Val::Opt(self.as_ref().map(|x| Box::new(x.to_val())))
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::Opt(x) => x.as_ref().map(|x| T::from_val(x)),
            x => panic!("harness: {:?}", x),
        }
    }
}

// ---- the library's side -------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct ErrInfo {
    /// innermost first
    pub context: Vec<String>,
    pub kind: String,
    pub error: DecodeErrorKind,
    pub path: String,
    pub display: String,
}
impl ErrInfo {
    pub fn of(e: &DecodeError) -> Self {
        ErrInfo {
            context: e.context().iter().map(|c| c.to_string()).collect(),
            kind: format!("{:?}", e.error()),
            error: e.error().clone(),
            path: e.context_as_path(),
            display: format!("{}", e),
        }
    }
}
type Dec = Result<Val, ErrInfo>;
#[derive(Clone, Copy)]
pub struct Fns {
    /// whole input
    pub all: fn(&[u8]) -> Dec,
    /// next of a reader: value and bytes consumed
    pub next: fn(&[u8]) -> Result<(Val, usize), ErrInfo>,
    /// whole input as a vector of these
    pub vec: fn(&[u8]) -> Dec,
    pub enc: fn(&Val) -> Vec<u8>,
    /// after other output
    pub enc_after: fn(&Val, &[u8]) -> Vec<u8>,
    pub type_name: fn() -> &'static str,
}
fn f_all<T: Decode + Lab>(b: &[u8]) -> Dec {
    decode_from_bytes::<T>(b).map(|t| t.to_val()).map_err(|e| ErrInfo::of(&e))
}
fn f_next<T: Decode + Lab>(b: &[u8]) -> Result<(Val, usize), ErrInfo> {
    let mut r = Reader::new(b);
    match r.decode::<T>() {
        Ok(t) => Ok((t.to_val(), r.consumed_bytes())),
        Err(e) => Err(ErrInfo::of(&e)),
    }
}
fn f_vec<T: Decode + Lab>(b: &[u8]) -> Dec {
    let mut r = Reader::new(b);
    decode_vec::<T>(&mut r).map(|t| vec_to_val(&t)).map_err(|e| ErrInfo::of(&e))
}
fn f_enc<T: Encode + Lab>(v: &Val) -> Vec<u8> {
    encode_to_bytes(&T::from_val(v))
}
fn f_enc_after<T: Encode + Lab>(v: &Val, before: &[u8]) -> Vec<u8> {
    let mut w = Writer::new_from_vec(before.to_vec());
    w.encode(&T::from_val(v));
    w.finalize()
}
pub fn fns<T: Encode + Decode + Lab>() -> Fns {
    Fns {
        all: f_all::<T>,
        next: f_next::<T>,
        vec: f_vec::<T>,
        enc: f_enc::<T>,
        enc_after: f_enc_after::<T>,
        type_name: std::any::type_name::<T>,
    }
}

pub struct Table {
    pub defs: Vec<Def>,
    pub fns: Vec<Fns>,
}
static TABLE: OnceLock<Table> = OnceLock::new();
pub fn install(t: Table) {
    assert_eq!(t.defs.len(), t.fns.len());
    let _ = TABLE.set(t);
}
pub fn table() -> &'static Table {
    TABLE.get().expect("derived types")
}
/// functions of a type that can be the innermost place of a failure
pub fn fns_of(t: &Ty) -> Option<Fns> {
    Some(match t {
        Ty::Bool => fns::<bool>(),
        Ty::U8 => fns::<u8>(),
        Ty::U16 => fns::<u16>(),
        Ty::U32 => fns::<u32>(),
        Ty::U64 => fns::<u64>(),
        Ty::Str => fns::<String>(),
        Ty::Bytes => fns::<Vec<u8>>(),
        Ty::Fixed(0) => fns::<[u8; 0]>(),
        Ty::Fixed(1) => fns::<[u8; 1]>(),
        Ty::Fixed(4) => fns::<[u8; 4]>(),
        Ty::Fixed(28) => fns::<[u8; 28]>(),
        Ty::Fixed(32) => fns::<[u8; 32]>(),
        Ty::Fixed(_) => return None,
        Ty::Scalar => fns::<Scalar>(),
        Ty::Data => fns::<DataOwned>(),
        Ty::Ext(0) => fns::<tagged::StandardDateTime>(),
        Ty::Ext(1) => fns::<tagged::PositiveBignum>(),
        Ty::Ext(2) => fns::<tagged::NegativeBignum>(),
        Ty::Ext(3) => fns::<tagged::EncodedCBOR>(),
        Ty::Ext(_) => fns::<tagged::RationalNumber>(),
        // only for failures of the array itself
        Ty::VecOf(_) => fns::<VecOf<u64>>(),
        Ty::Raw(_) => return None,
        Ty::Def(i) => table().fns[*i],
    })
}
pub const FIXED: [usize; 5] = [0, 1, 4, 28, 32];

// ---- the documented layout ----------------------------------------------------------------------

/// canonical items of a value
pub fn items(t: &Ty, v: &Val, out: &mut Vec<Item>) {
    match (t, v) {
        (_, Val::Raw(b)) => match parse(b, 600) {
            Some((i, n)) if n == b.len() => out.push(i),
            _ => panic!("harness: raw value {}", hex(b)),
        },
        (Ty::Bool, Val::Bool(b)) => out.push(Item::bool(*b)),
        (Ty::U8 | Ty::U16 | Ty::U32 | Ty::U64, Val::U(x)) => out.push(Item::uint(*x)),
        (Ty::Str, Val::Str(s)) => out.push(Item::text(s)),
        (Ty::Bytes | Ty::Fixed(_), Val::Bytes(b)) => out.push(Item::bytes(b)),
        (Ty::VecOf(t), Val::Vec(v)) => out.push(array_of(t, v)),
        (Ty::Def(i), v) => {
            let d = &table().defs[*i];
            match &d.body {
                Body::Struct { shape, tag, fields, .. } => {
                    let vals = v.fields();
                    let mut inner = Vec::new();
                    match shape {
                        Shape::Flat | Shape::Array | Shape::ArrayLastOpt => {
                            for (f, x) in fields.iter().zip(vals) {
                                match x {
                                    Val::Opt(None) => {}
                                    Val::Opt(Some(x)) => items(&f.ty, x, &mut inner),
                                    x => items(&f.ty, x, &mut inner),
                                }
                            }
                            if *shape != Shape::Flat {
                                inner = vec![Item::array(inner)];
                            }
                        }
                        Shape::MapInt => {
                            let mut m = Vec::new();
                            for ((f, x), key) in fields.iter().zip(vals).zip(&d.numbers) {
                                let x = match x {
                                    Val::Opt(None) => continue,
                                    Val::Opt(Some(x)) => x,
                                    x => x,
                                };
                                let mut one = Vec::new();
                                items(&f.ty, x, &mut one);
                                m.push((Item::uint(*key), one.pop().unwrap()));
                            }
                            inner = vec![Item::map(m)];
                        }
                    }
                    match tag {
                        Some(t) => {
                            assert_eq!(inner.len(), 1);
                            out.push(Item::tag(*t, inner.pop().unwrap()))
                        }
                        None => out.extend(inner),
                    }
                }
                Body::Enum { kind, variants } => {
                    let k = v.variant();
                    let var = &variants[k];
                    match kind {
                        EKind::EnumInt => out.push(Item::uint(d.numbers[k])),
                        EKind::EnumType => match var.fields.first() {
                            None => out.push(Item::null()),
                            Some(f) => items(&f.ty, &v.fields()[0], out),
                        },
                        EKind::TagVariant => {
                            let mut a = vec![Item::uint(d.numbers[k])];
                            for (f, x) in var.fields.iter().zip(v.fields()) {
                                if f.vec != VecStyle::No {
                                    a.push(array_of(&f.ty, x.fields()))
                                } else {
                                    items(&f.ty, x, &mut a)
                                }
                            }
                            out.push(Item::array(a))
                        }
                    }
                }
            }
        }
        (t, v) => panic!("harness: {:?} of {:?}", v, t),
    }
}
fn array_of(t: &Ty, v: &[Val]) -> Item {
    let mut a = Vec::new();
    for x in v {
        items(t, x, &mut a)
    }
    Item::array(a)
}
pub fn enc_items(v: &[Item]) -> Vec<u8> {
    let mut o = Vec::new();
    for i in v {
        i.enc(&mut o)
    }
    o
}

#[derive(Clone, Debug)]
pub enum Level {
    Index(usize),
    /// "Vec"
    VecType,
    /// name of field number i
    Field(String, usize),
    Variant(String),
    Type(usize),
    /// the same, which may be left out
    PerhapsType(usize),
    /// a level about which nothing is promised
    Open,
}
#[derive(Clone, Debug)]
pub struct Fail {
    /// the innermost type that could not be decoded, and what it was given
    pub own: (Ty, Vec<u8>),
    pub levels: Vec<Level>,
    /// several places are wrong and which one comes first is not promised
    pub ambiguous: bool,
}
fn own(t: &Ty, b: &[Item]) -> Fail {
    Fail { own: (t.clone(), enc_items(b)), levels: vec![], ambiguous: false }
}
impl Fail {
    fn at(mut self, l: Vec<Level>) -> Fail {
        self.levels.extend(l);
        self
    }
    fn open(self) -> Fail {
        self.at(vec![Level::Open])
    }
    fn unsure(mut self, b: bool) -> Fail {
        self.ambiguous |= b;
        self
    }
}
fn whole(t: &Ty, it: &Item) -> Result<Val, Fail> {
    let mut pos = 0;
    let v = spec(t, std::slice::from_ref(it), &mut pos)?;
    assert_eq!(pos, 1, "harness: {:?} takes {} items", t, pos);
    Ok(v)
}
/// Meaning of the items from `pos` as a value of the type
pub fn spec(t: &Ty, all: &[Item], pos: &mut usize) -> Result<Val, Fail> {
    if let Ty::Def(i) = t {
        return spec_def(t, *i, all, pos);
    }
    let it = match all.get(*pos) {
        Some(i) => i,
        None => return Err(own(t, &[])),
    };
    let one = std::slice::from_ref(it);
    let bad = || Err(own(t, one));
    let max = |v: u64, m: u64| if v <= m { Ok(Val::U(v)) } else { bad() };
    let r = match (t, it) {
        (Ty::Bool, Item::Const(c @ (20 | 21))) => Ok(Val::Bool(*c == 21)),
        (Ty::U8, Item::Uint(_, v)) => max(*v, 0xff),
        (Ty::U16, Item::Uint(_, v)) => max(*v, 0xffff),
        (Ty::U32, Item::Uint(_, v)) => max(*v, 0xffff_ffff),
        (Ty::U64, Item::Uint(_, v)) => Ok(Val::U(*v)),
        (Ty::Str, Item::Text(s)) if s.utf8_ok() => Ok(Val::Str(String::from_utf8(s.concat()).unwrap())),
        (Ty::Bytes, Item::Bytes(s)) => Ok(Val::Bytes(s.concat())),
        (Ty::Fixed(n), Item::Bytes(s)) if s.concat().len() == *n => Ok(Val::Bytes(s.concat())),
        (Ty::Scalar, Item::Uint(..) | Item::Nint(..)) => Ok(Val::Raw(it.to_vec())),
        (Ty::Data, _) if it.own_text_ok() => Ok(Val::Raw(it.to_vec())),
        (Ty::Ext(k), _) if ext_ok(*k, it) => Ok(Val::Raw(it.to_vec())),
        (Ty::Raw(t), _) => match whole(t, it) {
            Ok(_) => Ok(Val::Raw(it.to_vec())),
            Err(f) => Err(f.open()),
        },
        (Ty::VecOf(t), Item::Array(_, v)) => {
            let mut o = Vec::new();
            for (i, x) in v.iter().enumerate() {
                o.push(whole(t, x).map_err(|f| f.at(vec![Level::Index(i), Level::VecType]))?)
            }
            Ok(Val::Vec(o))
        }
        _ => bad(),
    }?;
    *pos += 1;
    Ok(r)
}
pub fn ext_ok(k: usize, it: &Item) -> bool {
    let (t, c) = match it {
        Item::Tag(_, t, c) => (*t, c),
        _ => return false,
    };
    match k {
        0 => t == 0 && matches!(&**c, Item::Text(s) if s.utf8_ok()),
        1 => t == 2 && matches!(**c, Item::Bytes(_)),
        2 => t == 3 && matches!(**c, Item::Bytes(_)),
        3 => t == 24 && matches!(**c, Item::Bytes(_)),
        _ => {
            t == 30
                && match &**c {
                    Item::Array(_, v) if v.len() == 2 => {
                        (matches!(v[0], Item::Uint(..) | Item::Nint(..)) || ext_ok(1, &v[0]) || ext_ok(2, &v[0]))
                            && (matches!(v[1], Item::Uint(..)) || ext_ok(1, &v[1]))
                    }
                    _ => false,
                }
        }
    }
}
fn spec_def(t: &Ty, di: usize, all: &[Item], pos: &mut usize) -> Result<Val, Fail> {
    let d = &table().defs[di];
    let ty_level = || Level::Type(di);
    // a flat structure takes as many items as it has fields
    if let Body::Struct { shape: Shape::Flat, tag: None, fields, .. } = &d.body {
        let mut o = Vec::new();
        for (i, f) in fields.iter().enumerate() {
            o.push(spec(&f.ty, all, pos).map_err(|e| e.at(vec![Level::Field(f.name.clone(), i), Level::PerhapsType(di)]))?)
        }
        return Ok(Val::Struct(o));
    }
    let it = match all.get(*pos) {
        Some(i) => i,
        None => return Err(own(t, &[])),
    };
    let one = std::slice::from_ref(it);
    let bad = || own(t, one);
    let v = match &d.body {
        Body::Struct { shape, tag, named, fields } => {
            let inner = match tag {
                None => it,
                Some(n) => match it {
                    Item::Tag(_, got, c) if got == n => c,
                    // wrong in more than the tag?
                    Item::Tag(_, _, c) => {
                        let right = Item::Tag(W::B8, *n, c.clone());
                        return Err(bad().unsure(whole(t, &right).is_err()));
                    }
                    _ => return Err(bad()),
                },
            };
            match shape {
                Shape::Flat => Val::Struct(vec![whole(&fields[0].ty, inner)
                    .map_err(|e| e.at(vec![Level::Field(fields[0].name.clone(), 0), Level::PerhapsType(di)]))?]),
                Shape::Array | Shape::ArrayLastOpt => {
                    let v = match inner {
                        Item::Array(_, v) => v,
                        _ => return Err(bad()),
                    };
                    let last_absent = *shape == Shape::ArrayLastOpt && v.len() + 1 == fields.len();
                    if v.len() != fields.len() && !last_absent {
                        let more = fields.iter().zip(v).any(|(f, x)| whole(&f.ty, x).is_err());
                        return Err(bad().unsure(more));
                    }
                    let mut o = Vec::new();
                    for (i, (f, x)) in fields.iter().zip(v).enumerate() {
                        let x = whole(&f.ty, x).map_err(|e| {
                            e.at(vec![Level::Field(f.name.clone(), i), if *named { ty_level() } else { Level::PerhapsType(di) }])
                        })?;
                        o.push(if f.opt { Val::Opt(Some(Box::new(x))) } else { x })
                    }
                    if last_absent {
                        o.push(Val::Opt(None))
                    }
                    Val::Struct(o)
                }
                Shape::MapInt => {
                    let m = match inner {
                        Item::Map(_, m) => m,
                        _ => return Err(bad()),
                    };
                    let mut o: Vec<Option<Val>> = vec![None; fields.len()];
                    let mut shape_bad = false;
                    let mut first: Option<Fail> = None;
                    for (k, x) in m {
                        let i = match k {
                            Item::Uint(_, k) => d.numbers.iter().position(|n| n == k),
                            _ => None,
                        };
                        let i = match i {
                            Some(i) => i,
                            None => {
                                shape_bad = true;
                                continue;
                            }
                        };
                        if o[i].is_some() {
                            shape_bad = true;
                        }
                        let f = &fields[i];
                        match whole(&f.ty, x) {
                            Ok(x) => o[i] = Some(x),
                            Err(e) => {
                                if first.is_none() {
                                    first = Some(e.at(vec![Level::Field(f.name.clone(), i), ty_level()]))
                                }
                                o[i] = Some(Val::Bool(false));
                            }
                        }
                    }
                    for (f, x) in fields.iter().zip(&o) {
                        shape_bad |= !f.opt && x.is_none();
                    }
                    if let Some(e) = first {
                        return Err(e.unsure(shape_bad));
                    }
                    if shape_bad {
                        return Err(bad());
                    }
                    Val::Struct(
                        fields.iter().zip(o).map(|(f, x)| if f.opt { Val::Opt(x.map(Box::new)) } else { x.unwrap() }).collect(),
                    )
                }
            }
        }
        Body::Enum { kind, variants } => {
            let number = |i: &Item| match i {
                Item::Uint(_, n) => d.numbers.iter().position(|x| x == n),
                _ => None,
            };
            match kind {
                EKind::EnumInt => match number(it) {
                    Some(k) => Val::Enum(k, vec![]),
                    None => return Err(bad()),
                },
                EKind::EnumType => {
                    let k = K::of(it);
                    let i = match variants.iter().position(|v| k.is_some() && v.kind == k) {
                        Some(i) => i,
                        None => return Err(bad()),
                    };
                    match variants[i].fields.first() {
                        None => Val::Enum(i, vec![]),
                        Some(f) => Val::Enum(i, vec![whole(&f.ty, it).map_err(|e| e.at(vec![Level::Variant(variants[i].name.clone()), ty_level()]))?]),
                    }
                }
                EKind::TagVariant => {
                    let v = match it {
                        Item::Array(_, v) => v,
                        _ => return Err(bad()),
                    };
                    let k = match v.first().and_then(number) {
                        Some(k) => k,
                        None => return Err(bad()),
                    };
                    let var = &variants[k];
                    let one = |i: usize, f: &Field, x: &Item| -> Result<Val, Fail> {
                        if f.vec != VecStyle::No {
                            let a = match x {
                                Item::Array(_, a) => a,
                                _ => return Err(bad()),
                            };
                            let mut o = Vec::new();
                            for (j, x) in a.iter().enumerate() {
                                o.push(whole(&f.ty, x).map_err(|e| {
                                    e.at(vec![Level::Index(j), Level::VecType, Level::Field(f.name.clone(), i), Level::Variant(var.name.clone()), ty_level()])
                                })?)
                            }
                            Ok(Val::Vec(o))
                        } else {
                            whole(&f.ty, x).map_err(|e| {
                                e.at(vec![Level::Field(f.name.clone(), i), Level::Variant(var.name.clone()), ty_level()])
                            })
                        }
                    };
                    if v.len() != var.fields.len() + 1 {
                        let more = var.fields.iter().zip(&v[1..]).enumerate().any(|(i, (f, x))| one(i, f, x).is_err());
                        return Err(bad().unsure(more));
                    }
                    let mut o = Vec::new();
                    for (i, (f, x)) in var.fields.iter().zip(&v[1..]).enumerate() {
                        o.push(one(i, f, x)?)
                    }
                    Val::Enum(k, o)
                }
            }
        }
    };
    *pos += 1;
    Ok(v)
}

// ---- values ---------------------------------------------------------------------------------------

pub struct G {
    pub left: usize,
}
const TINY: gen::Cfg = gen::Cfg { depth: 3, items: 8, bytes: 60, utf8: true };
pub fn value(s: &mut Src, g: &mut G, t: &Ty, k: Option<K>, depth: u32) -> Val {
    g.left = g.left.saturating_sub(1);
    let uint = |s: &mut Src, bits: u32| Val::U(s.u64() & (u64::MAX >> (64 - bits)));
    let n = |s: &mut Src, g: &mut G| {
        let n = if g.left == 0 { s.size(3) } else if s.chance(6) { s.size(70_000) } else { s.size(40) };
        g.left = g.left.saturating_sub(n / 8);
        n
    };
    match t {
        Ty::Bool => Val::Bool(s.bool()),
        Ty::U8 => uint(s, 8),
        Ty::U16 => uint(s, 16),
        Ty::U32 => uint(s, 32),
        Ty::U64 => uint(s, 64),
        Ty::Str => {
            let n = n(s, g);
            Val::Str(String::from_utf8(gen::text_content(s, n)).unwrap())
        }
        Ty::Bytes => {
            let n = n(s, g);
            Val::Bytes(gen::content(s, n))
        }
        Ty::Fixed(n) => Val::Bytes(gen::content(s, *n)),
        Ty::Scalar => {
            let neg = match k {
                Some(K::Neg) => true,
                Some(_) => false,
                None => s.bool(),
            };
            Val::Raw(gen::item_of_kind(s, neg as usize, TINY).to_vec())
        }
        Ty::Data => {
            if g.left == 0 {
                return Val::Raw(match k {
                    None | Some(K::Null) => vec![0xf6],
                    Some(K::Pos) => vec![0],
                    Some(K::Neg) => vec![0x20],
                    Some(K::Array) => vec![0x80],
                    Some(K::Map) => vec![0xa0],
                    Some(K::Tag) => vec![0xc0, 0],
                    Some(K::Bytes) => vec![0x40],
                    Some(K::Text) => vec![0x60],
                });
            }
            let it = match k {
                None => gen::item(s, TINY),
                Some(K::Pos) => gen::item_of_kind(s, 0, TINY),
                Some(K::Neg) => gen::item_of_kind(s, 1, TINY),
                Some(K::Bytes) => gen::item_of_kind(s, 2, TINY),
                Some(K::Text) => gen::item_of_kind(s, 3, TINY),
                Some(K::Array) => gen::item_of_kind(s, 4, TINY),
                Some(K::Map) => gen::item_of_kind(s, 5, TINY),
                Some(K::Tag) => gen::item_of_kind(s, 6, TINY),
                Some(K::Null) => Item::null(),
            };
            let b = it.to_vec();
            g.left = g.left.saturating_sub(b.len() / 4);
            Val::Raw(b)
        }
        Ty::Ext(k) => Val::Raw(gen::tagged(s, *k).to_vec()),
        Ty::Raw(t) => {
            let v = value(s, g, t, k, depth + 1);
            let mut o = Vec::new();
            items(t, &v, &mut o);
            Val::Raw(gen::re_represent(s, &o[0], true).to_vec())
        }
        Ty::VecOf(t) => Val::Vec(values(s, g, t, depth)),
        Ty::Def(i) => {
            let d = &table().defs[*i];
            match &d.body {
                Body::Struct { shape, tag, fields, .. } => {
                    let k = if *shape == Shape::Flat && tag.is_none() { k } else { None };
                    // sometimes all or none of the optional fields
                    let p = *s.pick(&[0u32, 40, 128, 216, 256]);
                    Val::Struct(
                        fields
                            .iter()
                            .map(|f| {
                                if f.opt {
                                    if depth > 5 || !s.chance(p) {
                                        Val::Opt(None)
                                    } else {
                                        Val::Opt(Some(Box::new(value(s, g, &f.ty, k, depth + 1))))
                                    }
                                } else {
                                    value(s, g, &f.ty, k, depth + 1)
                                }
                            })
                            .collect(),
                    )
                }
                Body::Enum { variants, .. } => {
                    let ok: Vec<usize> = (0..variants.len()).filter(|i| k.is_none() || variants[*i].kind.is_none() || variants[*i].kind == k).collect();
                    let i = *s.pick(&ok);
                    let v = &variants[i];
                    Val::Enum(
                        i,
                        v.fields
                            .iter()
                            .map(|f| if f.vec != VecStyle::No { Val::Vec(values(s, g, &f.ty, depth)) } else { value(s, g, &f.ty, v.kind, depth + 1) })
                            .collect(),
                    )
                }
            }
        }
    }
}
fn values(s: &mut Src, g: &mut G, t: &Ty, depth: u32) -> Vec<Val> {
    if depth > 5 {
        return vec![];
    }
    let n = if g.left < 8 {
        s.size(2)
    } else if s.chance(10) {
        s.size(300)
    } else {
        s.size(6)
    };
    let mut o = Vec::new();
    for _ in 0..n {
        if g.left == 0 {
            break;
        }
        o.push(value(s, g, t, None, depth + 1))
    }
    o
}
/// does the value depend on the representation it was read from
pub fn keeps_representation(v: &Val) -> bool {
    match v {
        Val::Raw(_) => true,
        Val::Vec(v) | Val::Struct(v) | Val::Enum(_, v) => v.iter().any(keeps_representation),
        Val::Opt(Some(x)) => keeps_representation(x),
        _ => false,
    }
}

// ---- near misses ----------------------------------------------------------------------------------

fn constants(d: &Def) -> Vec<u64> {
    let mut c = vec![d.start];
    c.extend(&d.numbers);
    c.extend(&d.skips);
    if let Body::Struct { tag: Some(t), .. } = &d.body {
        c.push(*t)
    }
    c.push(d.numbers.last().copied().unwrap_or(0).wrapping_add(1));
    c
}
fn near_number(s: &mut Src, v: u64, c: &[u64]) -> u64 {
    match s.byte() % 6 {
        0 => v.wrapping_add(1),
        1 => v.wrapping_sub(1),
        2 => v.wrapping_add(*s.pick(&[1u64 << 8, 1 << 16, 1 << 32, 1 << 63])),
        3 | 4 => *s.pick(c),
        _ => s.u64(),
    }
}
fn other(s: &mut Src, g: &mut G, defs: usize) -> Item {
    match s.byte() % 12 {
        0 => Item::null(),
        1 => Item::Const(23),
        2 => Item::bool(s.bool()),
        3 | 4 if defs > 0 => {
            let i = s.idx(defs);
            let mut o = Vec::new();
            let v = value(s, g, &Ty::Def(i), None, 4);
            items(&Ty::Def(i), &v, &mut o);
            o.into_iter().next().unwrap_or(Item::null())
        }
        5 => {
            let w = s.idx(5);
            gen::tagged(s, w)
        }
        _ => {
            let k = s.idx(9);
            gen::item_of_kind(s, k, TINY)
        }
    }
}
/// another item in the place of one that has none inside it
pub fn spoil_leaf(s: &mut Src, all: &mut [Item], d: usize) {
    fn leaves(v: &[Item]) -> usize {
        v.iter().map(|i| leaf_count(i)).sum()
    }
    fn leaf_count(i: &Item) -> usize {
        match i {
            Item::Array(_, v) if !v.is_empty() => leaves(v),
            Item::Map(_, m) if !m.is_empty() => m.iter().map(|(_, x)| leaf_count(x)).sum(),
            Item::Tag(_, _, x) => leaf_count(x),
            _ => 1,
        }
    }
    fn at(i: &mut Item, n: &mut usize, f: &mut dyn FnMut(&mut Item)) -> bool {
        match i {
            Item::Array(_, v) if !v.is_empty() => v.iter_mut().any(|x| at(x, n, f)),
            Item::Map(_, m) if !m.is_empty() => m.iter_mut().any(|(_, x)| at(x, n, f)),
            Item::Tag(_, _, x) => at(x, n, f),
            x => {
                if *n == 0 {
                    f(x);
                    return true;
                }
                *n -= 1;
                false
            }
        }
    }
    let total = leaves(all);
    if total == 0 {
        return;
    }
    let mut n = s.idx(total.min(65536));
    let c = constants(&table().defs[d]);
    let mut f = |x: &mut Item| match s.byte() % 6 {
        0 => miss_at(s, x, 0, &c, &mut G { left: 10 }),
        1 => *x = Item::Simple { imm: false, v: s.byte() },
        2 => *x = Item::F16(s.byte() as u16),
        3 => *x = Item::Const(23),
        _ => *x = other(s, &mut G { left: 10 }, 0),
    };
    for i in all.iter_mut() {
        if at(i, &mut n, &mut f) {
            return;
        }
    }
}
/// change something close by at one node
pub fn near_miss(s: &mut Src, all: &mut Vec<Item>, di: usize) {
    let mut g = G { left: 20 };
    let c = constants(&table().defs[di]);
    // often at the top, otherwise anywhere
    let total: usize = all.iter().map(|i| i.nodes()).sum();
    if all.is_empty() || s.chance(16) {
        match s.byte() % 3 {
            0 => {
                let x = other(s, &mut g, 0);
                all.push(x)
            }
            1 => {
                all.pop();
            }
            _ => {
                let i = s.idx(all.len() + 1);
                let x = other(s, &mut g, 0);
                all.insert(i, x)
            }
        }
        return;
    }
    let mut at = if s.chance(90) { s.idx(all.len().min(256)) } else { s.idx(total.min(65536)) };
    for i in all.iter_mut() {
        let n = i.nodes();
        if at < n {
            return miss_at(s, i, at, &c, &mut g);
        }
        at -= n
    }
}
fn miss_at(s: &mut Src, it: &mut Item, mut at: usize, c: &[u64], g: &mut G) {
    if at > 0 {
        at -= 1;
        let mut go = |x: &mut Item, at: &mut usize| -> bool {
            let n = x.nodes();
            if *at < n {
                miss_at(s, x, *at, c, g);
                true
            } else {
                *at -= n;
                false
            }
        };
        match it {
            Item::Array(_, v) => {
                for x in v {
                    if go(x, &mut at) {
                        return;
                    }
                }
            }
            Item::Map(_, m) => {
                for (k, x) in m {
                    if go(k, &mut at) || go(x, &mut at) {
                        return;
                    }
                }
            }
            Item::Tag(_, _, x) => {
                go(x, &mut at);
            }
            _ => {}
        }
        return;
    }
    let defs = table().defs.len();
    match s.byte() % 16 {
        0 => {
            *it = other(s, g, defs);
            return;
        }
        1 => {
            let x = std::mem::replace(it, Item::null());
            let mut v = vec![x];
            if s.bool() {
                v.push(Item::uint(0))
            }
            *it = Item::Array(gen::len_repr(s, v.len()), v);
            return;
        }
        2 => {
            let x = std::mem::replace(it, Item::null());
            let t = *s.pick(c);
            *it = Item::Tag(gen::width(s, t), t, Box::new(x));
            return;
        }
        _ => {}
    }
    match it {
        Item::Uint(w, v) => {
            if s.chance(30) {
                *it = Item::Nint(*w, *v)
            } else {
                *v = near_number(s, *v, c);
                *w = gen::width(s, *v)
            }
        }
        Item::Nint(w, v) => *it = Item::Uint(*w, *v),
        Item::Tag(w, t, x) => {
            if s.chance(40) {
                let x = std::mem::replace(&mut **x, Item::null());
                *it = x
            } else {
                *t = near_number(s, *t, c);
                *w = gen::width(s, *t)
            }
        }
        Item::Array(w, v) => {
            match s.byte() % 7 {
                0 => {
                    v.pop();
                }
                1 => {
                    let x = other(s, g, defs);
                    v.push(x)
                }
                2 => {
                    if let Some(x) = v.last().cloned() {
                        v.push(x)
                    }
                }
                3 if !v.is_empty() => {
                    let i = s.idx(v.len());
                    v.remove(i);
                }
                4 if v.len() > 1 => {
                    let (i, j) = (s.idx(v.len()), s.idx(v.len()));
                    v.swap(i, j)
                }
                5 if v.len() % 2 == 0 => {
                    let mut m = Vec::new();
                    let mut i = std::mem::take(v).into_iter();
                    while let (Some(k), Some(x)) = (i.next(), i.next()) {
                        m.push((k, x))
                    }
                    let w = *w;
                    *it = Item::Map(w.map(|_| W::B8), m);
                    return;
                }
                _ => v.push(Item::null()),
            }
            *w = gen::len_repr(s, v.len())
        }
        Item::Map(w, m) => {
            let key = |s: &mut Src| {
                let k = *s.pick(c);
                Item::Uint(gen::width(s, k), k)
            };
            match s.byte() % 9 {
                0 => {
                    m.pop();
                }
                1 if !m.is_empty() => {
                    let i = s.idx(m.len());
                    m.remove(i);
                }
                2 => {
                    let k = key(s);
                    let x = other(s, g, defs);
                    let i = s.idx(m.len() + 1);
                    m.insert(i, (k, x))
                }
                3 if !m.is_empty() => {
                    // the same key once more
                    let i = s.idx(m.len());
                    let (k, x) = m[i].clone();
                    let at = s.idx(m.len() + 1);
                    let k = gen::re_represent(s, &k, false);
                    m.insert(at, (k, x))
                }
                4 if !m.is_empty() => {
                    let i = s.idx(m.len());
                    m[i].0 = key(s)
                }
                5 if m.len() > 1 => {
                    let (i, j) = (s.idx(m.len()), s.idx(m.len()));
                    let k = m[i].0.clone();
                    m[i].0 = m[j].0.clone();
                    m[j].0 = k
                }
                6 if !m.is_empty() => {
                    let i = s.idx(m.len());
                    m[i].0 = other(s, g, 0)
                }
                7 if !m.is_empty() => {
                    let i = s.idx(m.len());
                    if let Item::Uint(w, v) = &mut m[i].0 {
                        *v = near_number(s, *v, c);
                        *w = gen::width(s, *v)
                    }
                }
                _ => {
                    let a: Vec<Item> = std::mem::take(m).into_iter().flat_map(|(k, x)| [k, x]).collect();
                    *it = Item::Array(gen::len_repr(s, a.len()), a);
                    return;
                }
            }
            *w = gen::len_repr(s, m.len())
        }
        Item::Bytes(x) | Item::Text(x) => {
            let mut b = x.concat();
            match s.byte() % 4 {
                0 => {
                    b.pop();
                }
                1 => b.push(0x61),
                2 => b.push(0x80),
                _ => {}
            }
            let new = Str::canonical(&b);
            if matches!(it, Item::Bytes(_)) == s.chance(150) {
                *it = Item::Bytes(new)
            } else {
                *it = Item::Text(new)
            }
        }
        Item::Const(c) => *c = 20 + s.byte() % 4,
        x => *x = other(s, g, 0),
    }
}
