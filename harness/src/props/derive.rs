//! C20, C21, C22, C24, C30: derived types and error contexts.
use crate::engine::{no_enum, no_enum_n, Cx, Prop, R};
use crate::gen;
use crate::lab::*;
use crate::refcbor::*;
use crate::tape::Src;
use crate::{ensure, ensure_eq};

fn pick_def(s: &mut Src, ok: impl Fn(&Def) -> bool) -> usize {
    let v: Vec<usize> = table().defs.iter().enumerate().filter(|(_, d)| ok(d)).map(|(i, _)| i).collect();
    *s.pick(&v)
}
fn what(d: &Def) -> String {
    format!("type {}", d.src.replace('\n', " "))
}
fn a_value(s: &mut Src, di: usize) -> Val {
    let mut g = G { left: if s.chance(20) { 300 } else { 40 } };
    value(s, &mut g, &Ty::Def(di), None, 0)
}
/// everything optional in a value
fn optional(d: &Def, v: &Val) -> (usize, usize) {
    match (&d.body, v) {
        (Body::Struct { fields, .. }, Val::Struct(v)) => {
            (fields.iter().filter(|f| f.opt).count(), v.iter().filter(|x| matches!(x, Val::Opt(Some(_)))).count())
        }
        _ => (0, 0),
    }
}

/// encoding is the documented one, and decodes back
fn roundtrip(s: &mut Src, cx: &mut Cx, di: usize) -> R {
    let t = table();
    let d = &t.defs[di];
    let f = t.fns[di];
    cx.label(d.what());
    let v = a_value(s, di);
    let mut it = Vec::new();
    items(&Ty::Def(di), &v, &mut it);
    let canon = enc_items(&it);
    cx.input_u64(di as u64);
    cx.input(&canon);
    let (o, present) = optional(d, &v);
    cx.label_if(o > 0 && present == 0, "all optional fields absent");
    cx.label_if(o > 1 && present > 0 && present < o, "some optional fields absent");
    cx.label_if(o > 0 && present == o, "all optional fields present");
    cx.label_if(!d.skips.is_empty(), "with skipped numbers");
    cx.label_if(d.start != 0, "with a start");
    cx.nontrivial_if(!matches!(&v, Val::Struct(v) if v.is_empty()));
    cx.describe(|| format!("{} value {} is {}", what(d), v.short(), hex_short(&canon)));

    let e = (f.enc)(&v);
    ensure!(e == canon, "{} is encoded as {}, documented as {}; {}", v.short(), hex_short(&e), hex_short(&canon), what(d));
    let before = if s.bool() { gen::soup(s) } else { vec![] };
    let mut after = (f.enc_after)(&v, &before);
    ensure!(
        after.starts_with(&before) && after[before.len()..] == canon,
        "after {} {} is encoded as {}",
        hex_short(&before),
        v.short(),
        hex_short(&after)
    );
    match (f.all)(&e) {
        Ok(x) => ensure!(x == v, "{} decodes to {}, was {}; {}", hex_short(&e), x.short(), v.short(), what(d)),
        Err(x) => return Err(format!("{} (of {}) does not decode: {}; {}", hex_short(&e), v.short(), x.display, what(d))),
    }
    // followed by something
    after.drain(..before.len());
    after.extend_from_slice(&before);
    match (f.next)(&after) {
        Ok((x, n)) => {
            ensure!(x == v, "{} decodes to {}, was {}", hex_short(&after), x.short(), v.short());
            ensure_eq!(n, canon.len(), "bytes taken from {}", hex_short(&after));
        }
        Err(x) => return Err(format!("{} followed by {} does not decode: {}", hex_short(&e), hex_short(&before), x.display)),
    }
    Ok(())
}
use crate::engine::hex_short;

fn c20_case(s: &mut Src, cx: &mut Cx) -> R {
    let di = pick_def(s, |d| d.is_struct());
    roundtrip(s, cx, di)
}
fn c21_case(s: &mut Src, cx: &mut Cx) -> R {
    let di = pick_def(s, |d| !d.is_struct());
    roundtrip(s, cx, di)
}

const DERIVE_ASSUMPTIONS: &[&str] = &[
    "types are those in the README and the fixed and seed-drawn definitions of this run",
    "a flat structure of several fields is used at the top or in another flat structure only",
];
const ROUNDTRIP_RULE: &str = "a definition and a generated value of it with at least one field or variant; distinct by definition and canonical encoding";
pub const C20: Prop = Prop {
    id: "C20",
    rule: ROUNDTRIP_RULE,
    assumptions: DERIVE_ASSUMPTIONS,
    enum_n: no_enum_n,
    enum_case: no_enum,
    case: c20_case,
    quick: 1_200_000,
    thorough: 6_000_000,
};
pub const C21: Prop = Prop {
    id: "C21",
    rule: ROUNDTRIP_RULE,
    assumptions: DERIVE_ASSUMPTIONS,
    enum_n: no_enum_n,
    enum_case: no_enum,
    case: c21_case,
    quick: 1_200_000,
    thorough: 6_000_000,
};

// ---- C22 ------------------------------------------------------------------------------------------

/// well-formed items at the front
fn front(b: &[u8], most: usize) -> Option<(Vec<Item>, Vec<usize>)> {
    let (mut v, mut ends, mut at) = (Vec::new(), Vec::new(), 0);
    while at < b.len() && v.len() < most {
        let n = match extent(&b[at..]) {
            Ok(n) => n,
            Err(_) => break,
        };
        // too deep for the tree
        let (i, m) = parse(&b[at..], 400)?;
        assert_eq!(n, m);
        v.push(i);
        at += n;
        ends.push(at)
    }
    Some((v, ends))
}
fn check_decode(cx: &mut Cx, di: usize, b: &[u8]) -> R {
    let t = table();
    let d = &t.defs[di];
    let f = t.fns[di];
    let (its, ends) = match front(b, 60) {
        Some(x) => x,
        None => return Ok(()),
    };
    let mut pos = 0;
    let exp = spec(&Ty::Def(di), &its, &mut pos);
    let end = if pos == 0 { 0 } else { ends[pos - 1] };
    let next = (f.next)(b);
    let all = (f.all)(b);
    match &exp {
        Ok(v) => {
            cx.label("accepted");
            match next {
                Ok((x, n)) => {
                    ensure!(x == *v, "{} decodes to {} but represents {}; {}", hex_short(b), x.short(), v.short(), what(d));
                    ensure_eq!(n, end, "bytes taken from {}; {}", hex_short(b), what(d));
                }
                Err(e) => return Err(format!("{} represents {} but is refused: {}; {}", hex_short(b), v.short(), e.display, what(d))),
            }
            if end == b.len() {
                match all {
                    Ok(x) => ensure!(x == *v, "{} decodes to {} but represents {}; {}", hex_short(b), x.short(), v.short(), what(d)),
                    Err(e) => return Err(format!("{} represents {} but is refused: {}; {}", hex_short(b), v.short(), e.display, what(d))),
                }
            } else {
                cx.label("trailing data");
                ensure!(all.is_err(), "{} has {} trailing bytes and is accepted; {}", hex_short(b), b.len() - end, what(d));
            }
        }
        Err(f) => {
            cx.label("refused");
            let why = format!("{:?} cannot be decoded from {}", f.own.0, hex_short(&f.own.1));
            if let Ok((x, _)) = next {
                return Err(format!("{} is accepted as {}, but {}; {}", hex_short(b), x.short(), why, what(d)));
            }
            if let Ok(x) = all {
                return Err(format!("{} is accepted as {}, but {}; {}", hex_short(b), x.short(), why, what(d)));
            }
        }
    }
    Ok(())
}
fn c22_case(s: &mut Src, cx: &mut Cx) -> R {
    let t = table();
    let di = pick_def(s, |_| true);
    let d = &t.defs[di];
    cx.label(d.what());
    let v = a_value(s, di);
    let mut it = Vec::new();
    items(&Ty::Def(di), &v, &mut it);
    let mut it: Vec<Item> = if s.chance(200) { it.iter().map(|i| gen::re_represent(s, i, true)).collect() } else { it };
    let mode = s.weighted(&[25, 50, 8, 8, 9]);
    let mut b;
    match mode {
        0 => {
            cx.label("conforming");
            if !keeps_representation(&v) {
                // the statement of the layout is consistent
                let mut p = 0;
                let x = spec(&Ty::Def(di), &it, &mut p);
                assert!(matches!(&x, Ok(x) if *x == v), "harness: {:?} from {:?} for {:?}", x, it, v);
            }
            b = enc_items(&it);
            if s.chance(80) {
                let x = gen::soup(s);
                b.extend_from_slice(&x)
            }
        }
        1 => {
            cx.label("near miss");
            for _ in 0..1 + s.idx(3) / 2 + s.idx(4) / 3 {
                near_miss(s, &mut it, di)
            }
            b = enc_items(&it)
        }
        2 => {
            cx.label("another type");
            let o = pick_def(s, |_| true);
            let v = a_value(s, o);
            it.clear();
            items(&Ty::Def(o), &v, &mut it);
            b = enc_items(&it)
        }
        3 => {
            cx.label("damaged bytes");
            b = enc_items(&it);
            gen::damage(s, &mut b)
        }
        _ => {
            cx.label("truncated");
            b = enc_items(&it);
            let n = s.idx(b.len() + 1);
            b.truncate(n)
        }
    }
    cx.input_u64(di as u64);
    cx.input(&b);
    cx.nontrivial_if(!b.is_empty());
    cx.describe(|| format!("{} given {}", what(d), hex_short(&b)));
    check_decode(cx, di, &b)
}
pub const C22: Prop = Prop {
    id: "C22",
    rule: "a definition and a non-empty input (a value in some representation, a near miss, a value of another type, damaged or truncated bytes); distinct by definition and input",
    assumptions: DERIVE_ASSUMPTIONS,
    enum_n: no_enum_n,
    enum_case: no_enum,
    case: c22_case,
    quick: 1_500_000,
    thorough: 8_000_000,
};

// ---- C24 ------------------------------------------------------------------------------------------

/// last part of a type name, without its parameters
fn base(s: &str) -> &str {
    let s = s.split('<').next().unwrap_or(s);
    s.rsplit("::").next().unwrap_or(s)
}
fn level_ok(got: &str, l: &Level) -> bool {
    match l {
        Level::Index(i) => got == i.to_string(),
        Level::VecType => base(got) == "Vec",
        Level::Field(n, i) => got == n || (*n == format!("field{}", i) && got == i.to_string()),
        Level::Variant(n) => got == n,
        Level::Type(i) | Level::PerhapsType(i) => base(got) == base((table().fns[*i].type_name)()),
        Level::Open => true,
    }
}
fn check_error(cx: &mut Cx, f: &Fail, e: &ErrInfo, what: &str) -> R {
    // the printed forms say the same as the list
    let path: Vec<&str> = e.context.iter().rev().map(|s| s.as_str()).collect();
    let path = path.join("->");
    ensure_eq!(e.path, path, "{}: printed path of {:?}", what, e.context);
    ensure!(e.display.starts_with(&path), "{}: printed as {:?}, path {:?}", what, e.display, path);
    if f.ambiguous {
        cx.label("ambiguous place");
        return Ok(());
    }
    let n_open = f.levels.iter().position(|l| matches!(l, Level::Open));
    let own = match fns_of(&f.own.0) {
        Some(x) => match (x.all)(&f.own.1) {
            Err(e) => e,
            Ok(v) => {
                return Err(format!(
                    "{}: {:?} in it is given {} and fails ({:?}), but by itself that decodes to {}",
                    what,
                    f.own.0,
                    hex_short(&f.own.1),
                    e.context,
                    v.short()
                ))
            }
        },
        None => return Ok(()),
    };
    if n_open.is_some() {
        cx.label("through a level that promises nothing");
    }
    // the kind as the innermost gives it
    ensure_eq!(e.kind, own.kind, "{}: kind of error", what);
    let promised = &f.levels[..n_open.unwrap_or(f.levels.len())];
    let k = own.context.len();
    ensure!(
        e.context.len() >= k && e.context[..k] == own.context[..],
        "{}: context {:?} does not begin with what the innermost reports, {:?}",
        what,
        e.context,
        own.context
    );
    let mut rest = e.context[k..].iter().peekable();
    let ok = promised.iter().all(|l| match l {
        Level::PerhapsType(_) => {
            rest.next_if(|g| level_ok(g, l));
            true
        }
        l => rest.next().map_or(false, |g| level_ok(g, l)),
    }) && (n_open.is_some() || rest.next().is_none());
    ensure!(ok, "{}: context {:?}, after the innermost {:?} expected {:?}", what, e.context, own.context, f.levels);
    cx.nontrivial_if(!promised.is_empty());
    cx.label(match promised.len() {
        0 => "no level",
        1 | 2 => "one level",
        3..=5 => "two levels",
        _ => "three or more levels",
    });
    Ok(())
}
fn vec_ty(s: &mut Src) -> Ty {
    match s.idx(12) {
        0 => Ty::Bool,
        1 => Ty::U8,
        2 => Ty::U16,
        3 => Ty::U32,
        4 => Ty::U64,
        5 => Ty::Str,
        6 => Ty::Bytes,
        7 => Ty::Fixed(*s.pick(&FIXED)),
        8 => Ty::Scalar,
        9 => Ty::Data,
        10 => Ty::Ext(s.idx(5)),
        _ => Ty::U64,
    }
}
/// contexts put together by hand, as a decoder written by hand does
fn context_program(s: &mut Src, cx: &mut Cx) -> R {
    use cbored::{DecodeError, DecodeErrorKind, ReaderError};
    const NAMES: &[&str] = &["a", "Vec", "field0", "->", "x::y<z>", "\u{e9}"];
    struct Local;
    let ty = |k: u8| match k % 4 {
        0 => std::any::type_name::<u8>(),
        1 => std::any::type_name::<Vec<String>>(),
        2 => std::any::type_name::<Local>(),
        _ => std::any::type_name::<[u8]>(),
    };
    let kind = match s.byte() % 4 {
        0 => DecodeErrorKind::Custom((*s.pick(NAMES)).into()),
        1 => DecodeErrorKind::OutOfRange { min: 0, max: s.u64(), got: s.u64() },
        2 => DecodeErrorKind::UnexpectedLength { expected: s.idx(70), got: s.idx(70) },
        _ => DecodeErrorKind::from(ReaderError::UnexpectedBreakType),
    };
    let said = format!("{:?}", kind);
    let k = s.byte();
    let n = *s.pick(NAMES);
    let (mut e, first) = match s.byte() % 5 {
        0 => (DecodeError::new_str(n, kind), n.to_string()),
        1 => (DecodeError::new_string(n.to_string(), kind), n.to_string()),
        2 => (kind.context_str(n), n.to_string()),
        3 => (
            match k % 4 {
                0 => kind.context::<u8>(),
                1 => kind.context::<Vec<String>>(),
                2 => kind.context::<Local>(),
                _ => kind.context::<[u8]>(),
            },
            ty(k).to_string(),
        ),
        _ => (
            match k % 4 {
                0 => DecodeError::new::<u8>(kind),
                1 => DecodeError::new::<Vec<String>>(kind),
                2 => DecodeError::new::<Local>(kind),
                _ => DecodeError::new::<[u8]>(kind),
            },
            ty(k).to_string(),
        ),
    };
    let mut list = vec![first];
    while list.len() < 40 && s.chance(200) {
        let n = *s.pick(NAMES);
        let k = s.byte();
        e = match k % 3 {
            0 => {
                list.push(n.to_string());
                e.push_str(n)
            }
            1 => {
                let i = s.u64().to_string();
                list.push(i.clone());
                e.push_string(i)
            }
            _ => {
                list.push(ty(k / 4).to_string());
                match k / 4 % 4 {
                    0 => e.push::<u8>(),
                    1 => e.push::<Vec<String>>(),
                    2 => e.push::<Local>(),
                    _ => e.push::<[u8]>(),
                }
            }
        };
    }
    cx.label("context put together by hand");
    cx.describe(|| format!("context {:?}", list));
    let path = list.iter().rev().map(|x| x.as_str()).collect::<Vec<_>>().join("->");
    for e in [e.clone(), e] {
        ensure!(e.context().iter().map(|x| x.as_ref()).eq(list.iter().map(|x| x.as_str())), "context {:?} of {:?}", e.context(), list);
        ensure_eq!(e.context_as_path(), path, "path of {:?}", list);
        ensure_eq!(format!("{:?}", e.error()), said, "kind of error");
        ensure!(e.to_string().starts_with(&path), "printed as {} with the path {}", e, path);
    }
    Ok(())
}
fn c24_case(s: &mut Src, cx: &mut Cx) -> R {
    if s.chance(5) {
        return context_program(s, cx);
    }
    let t = table();
    let as_vec = s.chance(100);
    // promising levels first
    let good = s.chance(200);
    let di = pick_def(s, |d| {
        d.single(&t.defs)
            && (!good
                || matches!(
                    &d.body,
                    Body::Struct { shape: Shape::Array | Shape::ArrayLastOpt | Shape::MapInt, named: true, .. } | Body::Enum { kind: EKind::TagVariant, .. }
                ))
    });
    let ty = if as_vec && s.chance(90) { vec_ty(s) } else { Ty::Def(di) };
    let mut g = G { left: if s.chance(20) { 300 } else { 60 } };
    let full = if as_vec { Ty::VecOf(Box::new(ty.clone())) } else { ty.clone() };
    let v = value(s, &mut g, &full, None, 0);
    let mut it = Vec::new();
    items(&full, &v, &mut it);
    if s.chance(128) {
        it = it.iter().map(|i| gen::re_represent(s, i, true)).collect()
    }
    for _ in 0..1 + s.idx(3) / 2 + s.idx(8) / 7 {
        // not what surrounds the item
        for _ in 0..4 {
            let mut c = it.clone();
            if s.chance(170) {
                spoil_leaf(s, &mut c, di)
            } else {
                near_miss(s, &mut c, di)
            }
            if c.len() == 1 {
                it = c;
                break;
            }
        }
    }
    let b = enc_items(&it);
    cx.input_u64(di as u64 | (as_vec as u64) << 32);
    cx.input(&b);
    cx.label(if as_vec { "vector" } else { t.defs[di].what() });
    let name = if as_vec { format!("vector of {:?}", ty) } else { String::new() } + &what(&t.defs[di]);
    cx.describe(|| format!("{} given {}", name, hex_short(&b)));
    let mut pos = 0;
    let exp = spec(&full, &it, &mut pos);
    let (res, res2) = if as_vec {
        match fns_of(&ty) {
            Some(f) => ((f.vec)(&b), None),
            None => return Ok(()),
        }
    } else {
        match fns_of(&ty) {
            Some(f) => ((f.all)(&b), Some((f.next)(&b).map(|x| x.0))),
            None => return Ok(()),
        }
    };
    let name = format!("{} from {}", name, hex_short(&b));
    for r in std::iter::once(res).chain(res2) {
        match (&exp, r) {
            (Ok(_), Ok(_)) => cx.label("decodes"),
            (Ok(v), Err(e)) => return Err(format!("{}: represents {} but fails: {}", name, v.short(), e.display)),
            (Err(f), Ok(x)) => return Err(format!("{}: accepted as {}, but {:?} is given {}", name, x.short(), f.own.0, hex_short(&f.own.1))),
            (Err(f), Err(e)) => check_error(cx, f, &e, &name)?,
        }
    }
    Ok(())
}
pub const C24: Prop = Prop {
    id: "C24",
    rule: "an input that fails to decode as a derived type or vector, below at least one level whose place in the context is promised; distinct by definition and input",
    assumptions: &[
        "when several places of one item are wrong in ways that can be noticed in any order (a shape error and a failing field), the place is not compared",
        "type names are compared by their last part",
    ],
    enum_n: no_enum_n,
    enum_case: no_enum,
    case: c24_case,
    quick: 1_500_000,
    thorough: 8_000_000,
};

// ---- C30 ------------------------------------------------------------------------------------------

/// what a derived type's own decoder may find wrong
#[derive(Clone, Debug, PartialEq)]
enum Reason {
    /// wanted, there
    Type(cbored::Type, cbored::Type),
    Tag(u64, u64),
    /// allowed, there
    Count(Vec<usize>, usize),
    /// no items at all, where some are needed
    Nothing,
    UnknownKey(u64),
    DuplicateKey(u64),
    Missing(String),
    UnknownVariant(u64),
    UnknownType(cbored::Type),
}
/// what is wrong with an item by the layout of the type itself; the first thing found in a reading from the left,
/// or several when their order is not promised
fn reasons(d: &Def, it: &Item) -> Vec<Reason> {
    use cbored::Type as T;
    use crate::view::ty_of as type_of;
    let wrong = |want: T, it: &Item| vec![Reason::Type(want, type_of(it))];
    let number = |i: &Item| match i {
        Item::Uint(_, n) => d.numbers.iter().position(|x| x == n),
        _ => None,
    };
    match &d.body {
        Body::Struct { shape, tag, fields, .. } => {
            let inner = match (tag, it) {
                (None, it) => it,
                (Some(n), Item::Tag(_, got, c)) if got == n => c,
                (Some(n), Item::Tag(_, got, _)) => return vec![Reason::Tag(*n, *got)],
                _ => return wrong(T::Tag, it),
            };
            match (shape, inner) {
                (Shape::Flat, _) => vec![],
                (Shape::Array, Item::Array(_, v)) => vec![Reason::Count(vec![fields.len()], v.len())],
                (Shape::ArrayLastOpt, Item::Array(_, v)) => vec![Reason::Count(vec![fields.len(), fields.len() - 1], v.len())],
                (Shape::Array | Shape::ArrayLastOpt, x) => wrong(T::Array, x),
                (Shape::MapInt, Item::Map(_, m)) => {
                    let mut seen = vec![];
                    for (k, _) in m {
                        match (k, number(k)) {
                            (Item::Uint(_, k), Some(i)) if seen.contains(&i) => return vec![Reason::DuplicateKey(*k)],
                            (_, Some(i)) => seen.push(i),
                            (Item::Uint(_, k), None) => return vec![Reason::UnknownKey(*k)],
                            (k, None) => return wrong(T::Positive, k),
                        }
                    }
                    let none = |(i, _): &(usize, &Field)| !seen.contains(i);
                    fields.iter().enumerate().filter(none).filter(|(_, f)| !f.opt).map(|(_, f)| Reason::Missing(f.name.clone())).collect()
                }
                (Shape::MapInt, x) => wrong(T::Map, x),
            }
        }
        Body::Enum { kind: EKind::EnumType, .. } => vec![Reason::UnknownType(type_of(it))],
        Body::Enum { kind: EKind::EnumInt, .. } => match it {
            Item::Uint(_, n) => vec![Reason::UnknownVariant(*n)],
            x => wrong(T::Positive, x),
        },
        Body::Enum { kind: EKind::TagVariant, variants } => {
            let v = match it {
                Item::Array(_, v) => v,
                x => return wrong(T::Array, x),
            };
            let k = match v.first() {
                None => return vec![Reason::Nothing],
                Some(k) => match (k, number(k)) {
                    (_, Some(k)) => k,
                    (Item::Uint(_, n), _) => return vec![Reason::UnknownVariant(*n)],
                    (k, _) => return wrong(T::Positive, k),
                },
            };
            let var = &variants[k];
            if v.len() != var.fields.len() + 1 {
                return vec![Reason::Count(vec![var.fields.len() + 1], v.len())];
            }
            // a field that holds a vector itself
            let not_array = |(f, x): &(&Field, &Item)| f.vec != VecStyle::No && !matches!(x, Item::Array(..));
            var.fields.iter().zip(&v[1..]).find(not_array).map_or(vec![], |(_, x)| wrong(T::Array, x))
        }
    }
}
/// the numbers and names a message is made of
fn words(s: &str) -> Vec<&str> {
    s.split(|c: char| !(c.is_alphanumeric() || c == '_' || c == '#')).filter(|w| !w.is_empty()).collect()
}
fn states(e: &cbored::DecodeErrorKind, r: &Reason) -> bool {
    use cbored::{DecodeErrorKind as D, ReaderError as E};
    let said = |any: &[&str], all: &[String]| match e {
        D::Custom(m) => {
            let low = m.to_lowercase();
            let w = words(m);
            (any.is_empty() || any.iter().any(|a| low.contains(a))) && all.iter().all(|a| w.contains(&a.as_str()))
        }
        _ => false,
    };
    match (r, e) {
        (Reason::Type(want, there), D::ReaderError(E::WrongExpectedType { expected, got })) => expected == want && got == there,
        (Reason::Type(want, there), D::ReaderError(E::WrongExpectedTypes { expected, got })) => *expected == [*want] && got == there,
        (Reason::Tag(want, there), D::ReaderError(E::WrongExpectedTag { expected, got })) => expected == want && got == there,
        (Reason::Tag(want, there), D::ReaderError(E::WrongExpectedTags { expected, got })) => *expected == [*want] && got == there,
        (Reason::Count(allowed, there), D::UnexpectedLength { expected, got })
        | (Reason::Count(allowed, there), D::ReaderError(E::WrongExpectedLength { expected, got })) => allowed.contains(expected) && got == there,
        (Reason::Count(allowed, there), _) => said(&[], &allowed.iter().chain(Some(there)).map(|n| n.to_string()).collect::<Vec<_>>()),
        (Reason::Nothing, D::Custom(_) | D::UnexpectedLength { .. } | D::ReaderError(E::WrongExpectedLength { .. })) => true,
        (Reason::UnknownKey(k), _) => said(&["unknown", "not known"], &[k.to_string()]) && !said(&["duplicate"], &[]),
        (Reason::DuplicateKey(k), _) => said(&["duplicate"], &[k.to_string()]),
        (Reason::Missing(n), _) => said(&["missing"], &[n.clone()]) || said(&["missing"], &[n.replace("r#", "")]),
        (Reason::UnknownVariant(n), _) => said(&["unknown", "not known"], &[n.to_string()]),
        (Reason::UnknownType(t), _) => said(&["unknown", "not known"], &[format!("{:?}", t)]),
        _ => false,
    }
}
fn c30_case(s: &mut Src, cx: &mut Cx) -> R {
    let t = table();
    let di = pick_def(s, |_| true);
    let d = &t.defs[di];
    let v = a_value(s, di);
    let mut it = Vec::new();
    items(&Ty::Def(di), &v, &mut it);
    if s.chance(128) {
        it = it.iter().map(|i| gen::re_represent(s, i, true)).collect()
    }
    for _ in 0..1 + s.idx(8) / 7 {
        near_miss(s, &mut it, di)
    }
    let b = enc_items(&it);
    cx.input_u64(di as u64);
    cx.input(&b);
    cx.describe(|| format!("{} given {}", what(d), hex_short(&b)));
    let f = t.fns[di];
    let mut pos = 0;
    let fail = match spec(&Ty::Def(di), &it, &mut pos) {
        Ok(_) => {
            cx.label("decodes");
            return Ok(());
        }
        Err(f) => f,
    };
    if fail.own.1.is_empty() && !fail.ambiguous {
        cx.label("nothing there");
        cx.nontrivial_if(!b.is_empty());
        for e in [(f.next)(&b).map(|x| x.0), (f.all)(&b)] {
            match e {
                Err(ErrInfo { error: cbored::DecodeErrorKind::ReaderError(cbored::ReaderError::DataMissing(_)), .. }) => (),
                e => return Err(format!("{} ends before {:?}, which gives {:?}; {}", hex_short(&b), fail.own.0, e, what(d))),
            }
        }
        return Ok(());
    }
    let own = match fail.own.0 {
        Ty::Def(i) if !fail.ambiguous => i,
        _ => {
            cx.label(if fail.ambiguous { "several things wrong" } else { "a field of another kind is wrong" });
            return Ok(());
        }
    };
    let own = &t.defs[own];
    let Some((x, _)) = parse(&fail.own.1, 400) else { return Ok(()) };
    let rs = reasons(own, &x);
    if rs.is_empty() {
        cx.label("no reason of its own");
        return Ok(());
    }
    cx.nontrivial_if(true);
    cx.label(match &rs[0] {
        Reason::Type(..) => "type",
        Reason::Tag(..) => "tag",
        Reason::Count(..) => "count",
        Reason::Nothing => "nothing in it",
        Reason::UnknownKey(_) => "unknown key",
        Reason::DuplicateKey(_) => "duplicate key",
        Reason::Missing(_) => "missing key",
        Reason::UnknownVariant(_) => "unknown variant",
        Reason::UnknownType(_) => "unknown type",
    });
    let mut all = vec![("from the front", (f.next)(&b).map(|x| x.0))];
    if !it.is_empty() {
        all.push(("whole", (f.all)(&b)));
        all.push(("alone", (t.fns[t.defs.iter().position(|x| std::ptr::eq(x, own)).unwrap()].all)(&fail.own.1)))
    }
    if d.single(&t.defs) && it.len() == 1 {
        let mut v = vec![0x81];
        v.extend_from_slice(&b);
        all.push(("in a vector", (f.vec)(&v)))
    }
    for (how, r) in all {
        match r {
            Ok(v) => return Err(format!("{} ({}) is accepted as {}; {}", hex_short(&b), how, v.short(), what(d))),
            Err(e) => ensure!(
                rs.iter().any(|r| states(&e.error, r)),
                "{} ({}) is refused as {:?}, where the reason is {:?} of {} in {}; {}",
                hex_short(&b),
                how,
                e.error,
                rs,
                hex_short(&fail.own.1),
                own.name,
                what(d)
            ),
        }
    }
    Ok(())
}
pub const C30: Prop = Prop {
    id: "C30",
    rule: "an input that a derived decoder (of the type or of a type inside it) must refuse for a reason of its own layout; distinct by definition and input",
    assumptions: &[
        "when a shape and a field are both wrong, or several mandatory keys are missing, which one is stated is not compared",
        "messages are compared by the numbers and names in them, and by the words duplicate, unknown or not known, missing",
    ],
    enum_n: no_enum_n,
    enum_case: no_enum,
    case: c30_case,
    quick: 1_500_000,
    thorough: 8_000_000,
};
