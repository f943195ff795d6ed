//! C08, C09, C10, C11, C12: values.
use crate::engine::{Cx, Prop, Tier, R};
use crate::gen;
use crate::refcbor::*;
use crate::tape::Src;
use crate::view::*;
use crate::{ensure, ensure_eq};
use cbored::state::HeaderValue;
use cbored::*;

fn enc1<T: Encode + ?Sized>(t: &T) -> Vec<u8> {
    let mut w = Writer::new();
    w.encode(t);
    w.finalize()
}
/// 0..=70000, and around every power of two
const SWEEP: u64 = 70_001;
const SWEEP_N: u64 = SWEEP + 64 * 17;
fn sweep(i: u64) -> u64 {
    if i < SWEEP {
        i
    } else {
        let j = i - SWEEP;
        (1u64 << (j / 17)).wrapping_add(j % 17).wrapping_sub(8)
    }
}
fn sweep_n(t: Tier) -> u64 {
    match t {
        Tier::Quick => SWEEP_N,
        Tier::Thorough => SWEEP_N,
    }
}

// ---- C08 ------------------------------------------------------------------------------------

fn canonical(v: u64) -> R {
    let min = W::min(v);
    // integers
    let p = Positive::canonical(v);
    ensure_eq!(p.to_u64(), v, "Positive::canonical({}) holds", v);
    ensure!(p.is_canonical(), "Positive::canonical({}) is not canonical", v);
    ensure_eq!(enc1(&p), Item::uint(v).to_vec(), "encoding of Positive::canonical({})", v);
    ensure_eq!(hv(p.raw_value()), (min, v), "header of Positive::canonical({})", v);
    let n = Negative::canonical(v);
    ensure_eq!(n.negative_u64(), v, "Negative::canonical({}) holds", v);
    ensure!(n.is_canonical(), "Negative::canonical({}) is not canonical", v);
    ensure_eq!(enc1(&n), Item::nint(v).to_vec(), "encoding of Negative::canonical({})", v);
    let sp = Scalar::canonical_positive(v);
    ensure!(sp.is_positive() && !sp.is_negative(), "Scalar::canonical_positive({}) sign", v);
    ensure!(sp.is_canonical(), "Scalar::canonical_positive({}) is not canonical", v);
    ensure_eq!(enc1(&sp), Item::uint(v).to_vec(), "encoding of Scalar::canonical_positive({})", v);
    let sn = Scalar::canonical_negative(v);
    ensure!(sn.is_negative() && !sn.is_positive(), "Scalar::canonical_negative({}) sign", v);
    ensure!(sn.is_canonical(), "Scalar::canonical_negative({}) is not canonical", v);
    ensure_eq!(enc1(&sn), Item::nint(v).to_vec(), "encoding of Scalar::canonical_negative({})", v);
    ensure_eq!(hv(sn.raw_value()), (min, v), "header of Scalar::canonical_negative({})", v);
    // header values, tags, structure lengths
    let h = HeaderValue::canonical(v);
    ensure_eq!(hv(h), (min, v), "HeaderValue::canonical({})", v);
    ensure!(h.is_canonical(), "HeaderValue::canonical({}) is not canonical", v);
    ensure_eq!((h.to_u64(), h.to_size() as u64), (v, v), "HeaderValue::canonical({}) holds", v);
    let t = TagValue::from_u64(v);
    ensure_eq!((t.to_u64(), hv(t.raw_value())), (v, (min, v)), "TagValue::from_u64({})", v);
    let mut w = Writer::new();
    w.tag_build(t, |w| w.bool(true));
    ensure_eq!(w.finalize(), Item::tag(v, Item::bool(true)).to_vec(), "encoding of tag {}", v);
    let l = StructureLength::from(v);
    ensure_eq!(slen(l), Some((min, v)), "StructureLength::from({})", v);
    ensure!(!l.is_indefinite(), "StructureLength::from({}) is indefinite", v);
    let l = StructureLength::from(Some(h));
    ensure_eq!(slen(l), Some((min, v)), "StructureLength::from(Some({}))", v);
    ensure!(StructureLength::from(None).is_indefinite(), "StructureLength::from(None)");
    for (m, e) in [(4u8, true), (5, false)] {
        let mut w = Writer::new();
        if e {
            w.array_build(StructureLength::from(v), |_| ());
        } else {
            w.map_build(StructureLength::from(v), |_| ());
        }
        let mut x = Vec::new();
        head_min(&mut x, m, v);
        ensure_eq!(w.finalize(), x, "header of a structure of {} (major {})", v, m);
    }
    // every width that can hold the value: canonical exactly when it is the shortest
    for w in WIDTHS.into_iter().filter(|w| w.holds(v)) {
        let e = Item::Uint(w, v).to_vec();
        let p = Reader::new(&e).positive().map_err(|x| format!("positive {}: {:?}", hex(&e), x))?;
        ensure_eq!(p.is_canonical(), w == min, "is_canonical of {}", hex(&e));
        ensure_eq!(p.raw_value().is_canonical(), w == min, "is_canonical of the header of {}", hex(&e));
        let s = Reader::new(&e).scalar().map_err(|x| format!("scalar {}: {:?}", hex(&e), x))?;
        ensure_eq!(s.is_canonical(), w == min, "is_canonical of {}", hex(&e));
        ensure_eq!((hv(s.raw_value()), s.is_positive()), ((w, v), true), "scalar {}", hex(&e));
        let e = Item::Nint(w, v).to_vec();
        let p = Reader::new(&e).negative().map_err(|x| format!("negative {}: {:?}", hex(&e), x))?;
        ensure_eq!(p.is_canonical(), w == min, "is_canonical of {}", hex(&e));
        let s = Reader::new(&e).scalar().map_err(|x| format!("scalar {}: {:?}", hex(&e), x))?;
        ensure_eq!(s.is_canonical(), w == min, "is_canonical of {}", hex(&e));
        ensure_eq!((hv(s.raw_value()), s.is_negative()), ((w, v), true), "scalar {}", hex(&e));
        ensure_eq!(to_hv(w, v).is_canonical(), w == min, "HeaderValue::is_canonical of {:?}", to_hv(w, v));
        ensure_eq!(to_hv(w, v).to_u64(), v, "HeaderValue::to_u64 of {:?}", to_hv(w, v));
    }
    Ok(())
}
fn canonical_byte(v: u8) -> R {
    let b = Byte::canonical(v);
    ensure_eq!(b.to_u8(), v, "Byte::canonical({}) holds", v);
    ensure!(b.is_canonical(), "Byte::canonical({}) is not canonical", v);
    ensure_eq!(enc1(&b), Item::Simple { imm: v < 20, v }.to_vec(), "encoding of Byte::canonical({})", v);
    let e = Item::Simple { imm: false, v }.to_vec();
    let b = Reader::new(&e).byte().map_err(|x| format!("byte {}: {:?}", hex(&e), x))?;
    ensure_eq!(b.is_canonical(), v >= 20, "is_canonical of {}", hex(&e));
    if v < 20 {
        let e = Item::Simple { imm: true, v }.to_vec();
        let b = Reader::new(&e).byte().map_err(|x| format!("byte {}: {:?}", hex(&e), x))?;
        ensure!(b.is_canonical(), "is_canonical of {}", hex(&e));
    }
    Ok(())
}
fn canonical_len(n: usize, fill: &[u8]) -> R {
    // string lengths
    let b: Vec<u8> = (0..n).map(|i| fill[i % fill.len()]).collect();
    let exp = Item::bytes(&b).to_vec();
    let x = Bytes::from_slice(&b);
    ensure!(enc1(&x) == exp, "Bytes::from_slice of {} bytes: {}", n, hex(&enc1(&x)));
    ensure!(enc1(&BytesOwned::from_vec(b.clone())) == exp, "BytesOwned::from_vec of {} bytes", n);
    ensure!(enc1(&Bytes::Imm(BytesData::from_slice(&b))) == exp, "BytesData::from_slice of {} bytes", n);
    ensure_eq!(hv(BytesData::from_slice(&b).value()), (W::min(n as u64), n as u64), "BytesData header");
    let o = BytesDataOwned::from_vec(b.clone());
    ensure_eq!(hv(o.value()), (W::min(n as u64), n as u64), "BytesDataOwned header");
    ensure!(o.as_slice() == &b[..], "BytesDataOwned contents");
    let t: String = b.iter().map(|c| (c & 0x7f) as char).collect();
    let exp = Item::text(&t).to_vec();
    ensure!(enc1(&Text::from_str(&t)) == exp, "Text::from_str of {} bytes: {}", n, hex(&enc1(&Text::from_str(&t))));
    ensure!(enc1(&TextOwned::from_string(t.clone()).borrow()) == exp, "TextOwned::from_string of {} bytes", n);
    ensure_eq!(hv(TextData::from_str(&t).value()), (W::min(n as u64), n as u64), "TextData header");
    let o = TextDataOwned::from_string(t.clone());
    ensure_eq!((hv(o.value()), o.as_str()), ((W::min(n as u64), n as u64), &t[..]), "TextDataOwned");
    ensure!(enc1(&t) == exp && enc1(&t[..]) == exp, "encoding of a str of {} bytes", n);
    Ok(())
}
fn c08_enum(i: u64, cx: &mut Cx) -> R {
    let v = sweep(i);
    cx.input_u64(v);
    cx.nontrivial_if(v >= 24);
    cx.describe(|| format!("value {}", v));
    canonical(v)?;
    if v < 256 {
        canonical_byte(v as u8)?;
    }
    // lengths: all short ones, and the boundaries
    if v < 700 || (v >= 65_530 && v < 65_542) {
        canonical_len(v as usize, &[7, 0x80, 0xff])?;
    }
    Ok(())
}
fn c08_case(s: &mut Src, cx: &mut Cx) -> R {
    let v = s.u64();
    cx.input_u64(v);
    cx.nontrivial_if(v >= 24);
    cx.label(match W::min(v) {
        W::Imm => "immediate",
        W::B1 => "one byte",
        W::B2 => "two bytes",
        W::B4 => "four bytes",
        W::B8 => "eight bytes",
    });
    cx.describe(|| format!("value {}", v));
    canonical(v)?;
    if s.chance(20) {
        let n = s.size(3000);
        let f = [s.byte(), s.byte()];
        canonical_len(n, &f)?;
    }
    Ok(())
}
pub const C08: Prop = Prop {
    id: "C08",
    rule: "the value needs more than the immediate form (at least 24), and went through every constructor and every width that holds it; distinct by value",
    assumptions: &[],
    enum_n: sweep_n,
    enum_case: c08_enum,
    case: c08_case,
    quick: 4_000_000,
    thorough: 40_000_000,
};

// ---- C09 ------------------------------------------------------------------------------------

fn narrow<T: Decode + TryFrom<u64> + PartialEq + std::fmt::Debug + Copy>(e: &[u8], v: u64, max: u64) -> R
where
    u64: From<T>,
{
    let name = std::any::type_name::<T>();
    let tail = [e, &[0x00]].concat();
    for (what, r) in [("decode_from_bytes", decode_from_bytes::<T>(e)), ("Reader::decode", Reader::new(&tail).decode::<T>())] {
        match r {
            Ok(x) => {
                ensure!(v <= max, "{} {} of {}: accepted as {:?}", what, name, v, x);
                ensure_eq!(u64::from(x), v, "{} {} of {}", what, name, hex(e));
            }
            Err(x) => {
                ensure!(v > max, "{} {} of {}: refused {:?}", what, name, v, x);
                match x.error() {
                    DecodeErrorKind::OutOfRange { min, max: m, got } => {
                        ensure_eq!((*min, *m, *got), (0, max, v), "range error of {}", name)
                    }
                    k => return Err(format!("{} {} of {}: refused with {:?} instead of an out-of-range error", what, name, v, k)),
                }
            }
        }
    }
    Ok(())
}
fn integers(v: u64) -> R {
    for w in WIDTHS.into_iter().filter(|w| w.holds(v)) {
        let e = Item::Uint(w, v).to_vec();
        narrow::<u8>(&e, v, u8::MAX as u64)?;
        narrow::<u16>(&e, v, u16::MAX as u64)?;
        narrow::<u32>(&e, v, u32::MAX as u64)?;
        narrow::<u64>(&e, v, u64::MAX)?;
        let p = Reader::new(&e).positive().map_err(|x| format!("{:?}", x))?;
        ensure_eq!(p.to_u64(), v, "to_u64 of {}", hex(&e));
        let exact: i128 = v as i128;
        let s = decode_from_bytes::<Scalar>(&e).map_err(|x| format!("Scalar of {}: {:?}", hex(&e), x))?;
        ensure!(s.is_positive() && !s.is_negative(), "sign of {}", hex(&e));
        ensure_eq!(s.to_i64().map(|x| x as i128), Some(exact).filter(|x| *x <= i64::MAX as i128), "to_i64 of {}", hex(&e));
        // negative
        let e = Item::Nint(w, v).to_vec();
        let exact: i128 = -1 - v as i128;
        let exp = Some(exact).filter(|x| *x >= i64::MIN as i128);
        let n = Reader::new(&e).negative().map_err(|x| format!("{:?}", x))?;
        ensure_eq!(n.negative_u64(), v, "negative_u64 of {}", hex(&e));
        ensure_eq!(n.to_i64().map(|x| x as i128), exp, "Negative::to_i64 of {}", hex(&e));
        let s = decode_from_bytes::<Scalar>(&e).map_err(|x| format!("Scalar of {}: {:?}", hex(&e), x))?;
        ensure!(s.is_negative() && !s.is_positive(), "sign of {}", hex(&e));
        ensure_eq!(s.to_i64().map(|x| x as i128), exp, "Scalar::to_i64 of {}", hex(&e));
        macro_rules! refuse {
            ($($t:ty),*) => {$(
                if let Ok(x) = decode_from_bytes::<$t>(&e) {
                    return Err(format!("{} decoded the negative {} as {}", stringify!($t), hex(&e), x));
                }
            )*};
        }
        refuse!(u8, u16, u32, u64);
        for d in [Data::Positive(Positive::canonical(v)), Data::Negative(Negative::canonical(v))] {
            match d.owned() {
                DataOwned::Positive(p) => ensure_eq!(p.to_u64(), v, "owned positive"),
                DataOwned::Negative(p) => ensure_eq!(p.to_i64().map(|x| x as i128), exp, "owned negative"),
                _ => return Err("another kind".into()),
            }
        }
    }
    Ok(())
}
fn c09_enum(i: u64, cx: &mut Cx) -> R {
    let v = sweep(i);
    cx.input_u64(v);
    cx.nontrivial_if(v >= 24);
    cx.describe(|| format!("value {}", v));
    integers(v)
}
fn c09_case(s: &mut Src, cx: &mut Cx) -> R {
    let v = s.u64();
    cx.input_u64(v);
    cx.nontrivial_if(v >= 24);
    cx.label_if(v > 255, "beyond u8");
    cx.label_if(v > 65535, "beyond u16");
    cx.label_if(v > 0xffff_ffff, "beyond u32");
    cx.label_if(v > i64::MAX as u64, "beyond i64");
    cx.describe(|| format!("value {}", v));
    integers(v)?;
    // in a vector, the failing one decides
    let n = s.size(6);
    let vs: Vec<u64> = (0..n).map(|_| if s.chance(220) { s.below(256) } else { s.u64() }).collect();
    let it = Item::Array(gen::len_repr(s, n), vs.iter().map(|v| Item::Uint(gen::width(s, *v), *v)).collect());
    let e = it.to_vec();
    match decode_vec::<u8>(&mut Reader::new(&e)) {
        Ok(x) => ensure_eq!(x.iter().map(|b| *b as u64).collect::<Vec<u64>>(), vs, "vector of u8"),
        Err(x) => match (x.error(), vs.iter().find(|v| **v > 255)) {
            (DecodeErrorKind::OutOfRange { min: 0, max: 255, got }, Some(v)) if got == v => {}
            _ => return Err(format!("vector of u8 {:?}: refused with {:?}", vs, x)),
        },
    }
    Ok(())
}
pub const C09: Prop = Prop {
    id: "C09",
    rule: "the value is at least 24, and was converted from every width that holds it, as positive and as negative; distinct by value",
    assumptions: &[],
    enum_n: sweep_n,
    enum_case: c09_enum,
    case: c09_case,
    quick: 3_000_000,
    thorough: 30_000_000,
};

// ---- C10 ------------------------------------------------------------------------------------

fn same_f64(what: &str, got: f64, exp: f64) -> R {
    if exp.is_nan() {
        ensure!(got.is_nan(), "{}: got {:?}, expected NaN", what, got);
    } else {
        ensure!(got.to_bits() == exp.to_bits(), "{}: got {:?} ({:016x}), expected {:?} ({:016x})", what, got, got.to_bits(), exp, exp.to_bits());
    }
    Ok(())
}
fn same_f32(what: &str, got: f32, exp: Option<u32>) -> R {
    match exp {
        None => ensure!(got.is_nan(), "{}: got {:?}, expected NaN", what, got),
        Some(b) => ensure!(got.to_bits() == b, "{}: got {:?} ({:08x}), expected {:?} ({:08x})", what, got, got.to_bits(), f32::from_bits(b), b),
    }
    Ok(())
}
fn float(it: &Item) -> R {
    let e = it.to_vec();
    let mut r = Reader::new(&e);
    let f = r.float().map_err(|x| format!("float() refused {}: {:?}", hex(&e), x))?;
    ensure!(r.is_finished(), "float() left bytes of {}", hex(&e));
    check_float(&f, it)?;
    ensure_eq!(enc1(&f), e, "written back");
    let mut w = Writer::new();
    w.float(f);
    ensure_eq!(w.finalize(), e, "written back");
    let d = Reader::new(&e).data().map_err(|x| format!("data(): {:?}", x))?;
    ensure_eq!(enc1(&d), e, "written back as data");
    ensure_eq!(d, Data::Float(f), "read as data");
    let (d64, d32) = match it {
        Item::F16(b) => {
            let x = half_to_f64(*b);
            (x, f64_to_f32_bits(x.to_bits()))
        }
        Item::F32(b) => {
            let x = single_to_f64(*b);
            (x, if x.is_nan() { None } else { Some(*b) })
        }
        Item::F64(b) => (f64::from_bits(*b), f64_to_f32_bits(*b)),
        _ => return Ok(()),
    };
    same_f64(&format!("to_f64 of {}", hex(&e)), f.to_f64(), d64)?;
    same_f32(&format!("to_f32 of {}", hex(&e)), f.to_f32(), d32)?;
    if d64.is_nan() {
        ensure!(f.to_f64().is_nan() && f.to_f32().is_nan(), "NaN of {}", hex(&e));
    }
    Ok(())
}
fn single_to_f64(b: u32) -> f64 {
    let sign = if b >> 31 == 1 { -1.0 } else { 1.0 };
    let e = ((b >> 23) & 255) as i32;
    let m = (b & 0x7f_ffff) as f64;
    match e {
        0 => sign * m * 2f64.powi(-149),
        255 if m == 0.0 => sign * f64::INFINITY,
        255 => f64::NAN,
        _ => sign * (1.0 + m / 8388608.0) * 2f64.powi(e - 127),
    }
}
fn c10_enum_n(_: Tier) -> u64 {
    65536 + 512 * 64
}
fn c10_enum(i: u64, cx: &mut Cx) -> R {
    let it = if i < 65536 {
        Item::F16(i as u16)
    } else {
        // every sign and exponent of single precision, with 64 fractions
        let j = i - 65536;
        let fr = match j % 64 {
            0 => 0,
            k @ 1..=23 => 1 << (k - 1),
            k @ 24..=46 => 0x7f_ffff >> (k - 24),
            k => (k * 0x1_2345) & 0x7f_ffff,
        };
        Item::F32(((j / 64) << 23 | fr) as u32)
    };
    cx.input(&it.to_vec());
    cx.nontrivial_if(true);
    cx.describe(|| format!("{:?}", it));
    float(&it)
}
fn c10_case(s: &mut Src, cx: &mut Cx) -> R {
    let it = gen::float(s);
    cx.input(&it.to_vec());
    cx.nontrivial_if(true);
    match &it {
        Item::F16(_) => cx.label("half"),
        Item::F32(b) => {
            cx.label("single");
            cx.label_if(b >> 23 & 255 == 0, "single subnormal or zero");
            cx.label_if(b >> 23 & 255 == 255, "single infinity or NaN");
        }
        Item::F64(b) => {
            cx.label("double");
            let e = (b >> 52 & 2047) as i32 - 1023;
            cx.label_if(e > 127, "double beyond single");
            cx.label_if((-150..-126).contains(&e), "double to single subnormal");
            cx.label_if(b & 0x1fff_ffff == 0x1000_0000, "double halfway between two singles");
        }
        _ => {}
    }
    cx.describe(|| format!("{:?}", it));
    float(&it)
}
pub const C10: Prop = Prop {
    id: "C10",
    rule: "every case: one float item read, written back and converted (all 65536 halves enumerated, all signs and exponents of singles with 64 fractions); distinct by encoding",
    assumptions: &["the reference conversions in refcbor.rs follow IEEE 754"],
    enum_n: c10_enum_n,
    enum_case: c10_enum,
    case: c10_case,
    quick: 10_000_000,
    thorough: 200_000_000,
};

// ---- C11 ------------------------------------------------------------------------------------

fn all_simple(i: u64) -> Item {
    match i {
        0..=19 => Item::Simple { imm: true, v: i as u8 },
        20..=23 => Item::Const(i as u8),
        _ => Item::Simple { imm: false, v: (i - 24) as u8 },
    }
}
const SIMPLE_N: u64 = 24 + 256;
fn constant_of(c: u8) -> Constant {
    match c {
        20 => Constant::False,
        21 => Constant::True,
        22 => Constant::Null,
        _ => Constant::Undefined,
    }
}
/// the next item of the reader is the simple item; try everything on it
fn simple(e: &[u8], at: usize, it: &Item) -> R {
    let fresh = || -> Result<Reader, String> {
        let mut r = Reader::new(e);
        // skip to the item with reads of its predecessors
        while r.consumed_bytes() < at {
            r.data().map_err(|x| format!("{:?}", x))?;
        }
        Ok(r)
    };
    let n = it.to_vec().len();
    macro_rules! expect {
        ($m:ident, $exp:expr) => {{
            let mut r = fresh()?;
            let got = r.$m();
            let exp = $exp;
            match (&got, &exp) {
                (Ok(g), Some(x)) => {
                    ensure_eq!(g, x, "{}() of {}", stringify!($m), hex(&it.to_vec()));
                    ensure_eq!(r.consumed_bytes(), at + n, "{}() consumed", stringify!($m));
                }
                (Err(_), None) => ensure_eq!(r.consumed_bytes(), at, "failed {}() consumed", stringify!($m)),
                _ => return Err(format!("{}() of {}: {:?}", stringify!($m), hex(&it.to_vec()), got)),
            }
        }};
    }
    let c = match it {
        Item::Const(c) => Some(*c),
        _ => None,
    };
    expect!(constant, c.map(constant_of));
    expect!(bool, match c {
        Some(20) => Some(false),
        Some(21) => Some(true),
        _ => None,
    });
    expect!(null, c.filter(|c| *c == 22).map(|_| ()));
    expect!(undefined, c.filter(|c| *c == 23).map(|_| ()));
    let mut r = fresh()?;
    match (r.byte(), it) {
        (Ok(b), Item::Simple { imm, v }) => {
            check_byte(b, *imm, *v)?;
            ensure_eq!(r.consumed_bytes(), at + n, "byte() consumed");
            let mut w = Writer::new();
            w.byte(b);
            ensure_eq!(w.finalize(), it.to_vec(), "byte written");
        }
        (Err(_), Item::Const(_)) => {}
        (x, _) => return Err(format!("byte() of {}: {:?}", hex(&it.to_vec()), x)),
    }
    let mut r = fresh()?;
    let d = r.data().map_err(|x| format!("data() of {}: {:?}", hex(&it.to_vec()), x))?;
    check_data(&d, it)?;
    check_data(&d.owned().borrow(), it)?;
    ensure_eq!(enc1(&d), it.to_vec(), "data written");
    ensure_eq!(fresh()?.peek_type().ok(), Some(ty_of(it)), "peek_type");
    let b = fresh()?.decode::<bool>();
    match (b, c) {
        (Ok(false), Some(20)) | (Ok(true), Some(21)) => {}
        (Err(_), Some(22 | 23) | None) => {}
        (b, _) => return Err(format!("decode::<bool> of {}: {:?}", hex(&it.to_vec()), b)),
    }
    macro_rules! never {
        ($($m:ident),*) => {$(
            let mut r = fresh()?;
            ensure!(r.$m().is_err(), "{}() accepted {}", stringify!($m), hex(&it.to_vec()));
            ensure_eq!(r.consumed_bytes(), at, "failed {}() consumed", stringify!($m));
        )*};
    }
    never!(positive, negative, scalar, float, bytes, text, array, map, tag);
    // and written from the value
    let mut w = Writer::new();
    match it {
        Item::Const(c) => {
            w.constant(constant_of(*c));
            ensure_eq!(w.finalize(), it.to_vec(), "constant written");
            ensure_eq!(enc1(&constant_of(*c)), it.to_vec(), "constant written");
            if *c < 22 {
                let mut w = Writer::new();
                w.bool(*c == 21);
                ensure_eq!(w.finalize(), it.to_vec(), "bool written");
                ensure_eq!(enc1(&(*c == 21)), it.to_vec(), "bool written");
            }
        }
        Item::Simple { v, .. } => {
            w.byte(Byte::canonical(*v));
            let e = w.finalize();
            ensure_eq!(e, Item::Simple { imm: *v < 20, v: *v }.to_vec(), "canonical byte {}", v);
            let b = Reader::new(&e).byte().map_err(|x| format!("reading canonical byte {}: {:?}", v, x))?;
            ensure_eq!(b, Byte::canonical(*v), "canonical byte {} read back", v);
        }
        _ => {}
    }
    Ok(())
}
fn c11_enum_n(_: Tier) -> u64 {
    SIMPLE_N * SIMPLE_N
}
fn c11_enum(i: u64, cx: &mut Cx) -> R {
    // all pairs: the second one read after the first; equal only if the same
    let (a, b) = (all_simple(i % SIMPLE_N), all_simple(i / SIMPLE_N));
    let mut e = a.to_vec();
    let at = e.len();
    b.enc(&mut e);
    cx.input(&e);
    cx.nontrivial_if(true);
    cx.describe(|| format!("{:?} then {:?}", a, b));
    if i / SIMPLE_N == 0 {
        simple(&e, 0, &a)?;
    }
    simple(&e, at, &b)?;
    let da = Reader::new(&e).data().map_err(|x| format!("{:?}", x))?;
    let db = Reader::new(&e[at..]).data().map_err(|x| format!("{:?}", x))?;
    ensure_eq!(da == db, a == b, "equality of {:?} and {:?}", a, b);
    ensure_eq!(da.owned() == db.owned(), a == b, "equality of owned {:?} and {:?}", a, b);
    Ok(())
}
fn c11_case(s: &mut Src, cx: &mut Cx) -> R {
    let i = s.below(SIMPLE_N);
    let it = all_simple(i);
    let n = s.size(3);
    let mut e = Vec::new();
    for _ in 0..n {
        gen::item(s, gen::SMALL).enc(&mut e);
    }
    let at = e.len();
    it.enc(&mut e);
    let t = gen::soup(s);
    e.extend_from_slice(&t);
    cx.input(&e);
    cx.nontrivial_if(n > 0 || !t.is_empty());
    cx.describe(|| format!("{:?} at {} of {}", it, at, hex(&e)));
    simple(&e, at, &it)?;
    // inside containers
    let other = gen::item(s, gen::SMALL);
    let arr = Item::Array(gen::len_repr(s, 2), vec![it.clone(), other.clone()]).to_vec();
    let a = Reader::new(&arr).array().map_err(|x| format!("array: {:?}", x))?;
    simple(a[0].as_ref(), 0, &it)?;
    let m = Item::Map(gen::len_repr(s, 1), vec![(it.clone(), it.clone())]).to_vec();
    let m = Reader::new(&m).map().map_err(|x| format!("map: {:?}", x))?;
    simple(m[0].1.as_ref(), 0, &it)?;
    simple(m[0].0.as_ref(), 0, &it)
}
pub const C11: Prop = Prop {
    id: "C11",
    rule: "enumerated: every ordered pair of the 280 simple items, both read all ways; generated: one of them among other data; distinct by input",
    assumptions: &[],
    enum_n: c11_enum_n,
    enum_case: c11_enum,
    case: c11_case,
    quick: 100_000,
    thorough: 5_000_000,
};

// ---- C12 ------------------------------------------------------------------------------------

fn fixed<const N: usize>(e: &[u8], c: &[u8]) -> R {
    match decode_from_bytes::<[u8; N]>(e) {
        Ok(a) => {
            ensure!(c.len() == N, "[u8; {}] decoded from {} bytes", N, c.len());
            ensure!(a[..] == *c, "[u8; {}] contents: {} instead of {}", N, hex(&a), hex(c));
        }
        Err(x) => {
            ensure!(c.len() != N, "[u8; {}] refused its contents: {:?}", N, x);
            match x.error() {
                DecodeErrorKind::UnexpectedLength { expected, got } => ensure_eq!((*expected, *got), (N, c.len()), "lengths reported"),
                k => return Err(format!("[u8; {}] from {} bytes refused with {:?}", N, c.len(), k)),
            }
        }
    }
    Ok(())
}
fn all_fixed(e: &[u8], c: &[u8]) -> R {
    macro_rules! f {
        ($($n:literal)*) => {$(fixed::<$n>(e, c)?;)*};
    }
    f!(0 1 2 3 4 5 6 7 8 12 16 20 23 24 25 28 31 32 33 48 63 64 65 100 127 128 129 255 256 257 512);
    Ok(())
}
fn good_string(s: &mut Src, text: bool, st: &Str) -> R {
    let it = if text { Item::Text(st.clone()) } else { Item::Bytes(st.clone()) };
    let e = it.to_vec();
    let c = st.concat();
    let mut long = e.clone();
    let t = gen::soup(s);
    long.extend_from_slice(&t);
    let mut r = Reader::new(&long);
    if text {
        let x = r.text().map_err(|x| format!("text() refused {}: {:?}", hex(&e), x))?;
        check_text(&x, st)?;
        let o = x.owned();
        check_text(&o.borrow(), st)?;
        match (&o, st) {
            (TextOwned::Imm(d), Str::Def(w, c)) => {
                ensure_eq!((hv(d.value()), d.as_str().as_bytes()), ((*w, c.len() as u64), &c[..]), "owned text");
                ensure_eq!(d.borrow().owned(), *d, "owned text borrowed");
            }
            (TextOwned::Chunks(v), Str::Chunks(cs)) => {
                ensure_eq!(v.len(), cs.len(), "owned chunks");
                for (d, (w, c)) in v.iter().zip(cs) {
                    ensure_eq!((hv(d.value()), d.as_str().as_bytes()), ((*w, c.len() as u64), &c[..]), "owned chunk");
                }
            }
            _ => return Err("owned text of another form".into()),
        }
        let x = decode_from_bytes::<String>(&e).map_err(|x| format!("String refused {}: {:?}", hex(&e), x))?;
        ensure_eq!(x.as_bytes(), &c[..], "String");
        ensure!(decode_from_bytes::<Vec<u8>>(&e).is_err(), "Vec<u8> accepted a text");
        ensure!(decode_from_bytes::<[u8; 4]>(&e).is_err(), "[u8; 4] accepted a text");
        ensure!(Reader::new(&e).bytes().is_err(), "bytes() accepted a text");
    } else {
        let x = r.bytes().map_err(|x| format!("bytes() refused {}: {:?}", hex(&e), x))?;
        check_bytes(&x, st)?;
        let o = x.owned();
        check_bytes(&o.borrow(), st)?;
        match (&o, st) {
            (BytesOwned::Imm(d), Str::Def(w, c)) => {
                ensure_eq!((hv(d.value()), d.as_slice()), ((*w, c.len() as u64), &c[..]), "owned bytes");
                ensure_eq!(d.borrow().owned(), *d, "owned bytes borrowed");
            }
            (BytesOwned::Chunks(v), Str::Chunks(cs)) => {
                ensure_eq!(v.len(), cs.len(), "owned chunks");
                for (d, (w, c)) in v.iter().zip(cs) {
                    ensure_eq!((hv(d.value()), d.as_slice()), ((*w, c.len() as u64), &c[..]), "owned chunk");
                }
            }
            _ => return Err("owned bytes of another form".into()),
        }
        let x = decode_from_bytes::<Vec<u8>>(&e).map_err(|x| format!("Vec<u8> refused {}: {:?}", hex(&e), x))?;
        ensure_eq!(x, c, "Vec<u8>");
        all_fixed(&e, &c)?;
        ensure!(decode_from_bytes::<String>(&e).is_err(), "String accepted bytes");
        ensure!(Reader::new(&e).text().is_err(), "text() accepted bytes");
    }
    ensure_eq!(r.consumed_bytes(), e.len(), "consumed");
    let d = Reader::new(&e).data().map_err(|x| format!("data() refused {}: {:?}", hex(&e), x))?;
    check_data(&d, &it)
}
fn c12_case(s: &mut Src, cx: &mut Cx) -> R {
    let mode = s.weighted(&[40, 40, 20, 20]);
    match mode {
        0 | 1 => {
            let text = mode == 1;
            let st = if s.chance(60) {
                // contents of an interesting length, in any representation
                let n = *s.pick(&[0usize, 1, 2, 3, 4, 8, 16, 20, 23, 24, 28, 31, 32, 33, 64, 255, 256, 257]);
                let c = if text { gen::text_content(s, n) } else { gen::content(s, n) };
                gen::string_repr(s, &c, text)
            } else {
                gen::any_string(s, text, true)
            };
            cx.input(&[mode as u8]);
            cx.input(&Item::Bytes(st.clone()).to_vec());
            let chunks = matches!(&st, Str::Chunks(c) if c.len() > 1);
            cx.nontrivial_if(chunks || !st.concat().is_empty());
            cx.label(if text { "text" } else { "bytes" });
            cx.label_if(chunks, "several chunks");
            cx.label_if(matches!(&st, Str::Chunks(c) if c.is_empty()), "no chunk");
            cx.describe(|| format!("{} {}", if text { "text" } else { "bytes" }, short(&Item::Bytes(st.clone()))));
            good_string(s, text, &st)
        }
        2 => {
            // text where one chunk is not UTF-8 (possibly only because a character is cut in two)
            let mut st = gen::any_string(s, true, true);
            let bad = match &mut st {
                Str::Def(w, c) => {
                    *c = gen::bad_text_content(s);
                    *w = gen::width(s, c.len() as u64);
                    true
                }
                Str::Chunks(v) => {
                    if s.bool() {
                        let c: Vec<u8> = gen::text_content(s, 4).into_iter().chain("é€😀".bytes()).collect();
                        let cut = loop {
                            let i = s.idx(c.len()) + 1;
                            if i < c.len() && c[i] & 0xc0 == 0x80 {
                                break i;
                            }
                            if s.consumed() > 60_000 || i >= c.len() {
                                break c.len() - 1;
                            }
                        };
                        let i = s.idx(v.len() + 1);
                        v.insert(i, (W::min(cut as u64), c[..cut].to_vec()));
                        v.insert(i + 1, (W::min((c.len() - cut) as u64), c[cut..].to_vec()));
                        cx.label("character cut by chunks");
                    } else {
                        let c = gen::bad_text_content(s);
                        let i = s.idx(v.len() + 1);
                        v.insert(i, (gen::width(s, c.len() as u64), c));
                    }
                    true
                }
            };
            if !bad || st.utf8_ok() {
                return Ok(());
            }
            cx.label("text that is not UTF-8");
            cx.nontrivial_if(true);
            let e = Item::Text(st.clone()).to_vec();
            cx.input(&e);
            cx.describe(|| format!("not UTF-8: {}", hex(&e)));
            let utf = |e: &ReaderError| matches!(e, ReaderError::TextUTF8Error(_));
            match Reader::new(&e).text() {
                Err(x) if utf(&x) => {}
                x => return Err(format!("text() of {}: {:?}", hex(&e), x)),
            }
            match Reader::new(&e).data() {
                Err(x) if utf(&x) => {}
                x => return Err(format!("data() of {}: {:?}", hex(&e), x)),
            }
            match decode_from_bytes::<String>(&e) {
                Err(x) => match x.error() {
                    DecodeErrorKind::ReaderError(x) if utf(x) => {}
                    x => return Err(format!("String of {}: {:?}", hex(&e), x)),
                },
                Ok(x) => return Err(format!("String of {}: {:?}", hex(&e), x)),
            }
            // the same bytes are fine as bytes
            let b = Item::Bytes(st.clone()).to_vec();
            let x = Reader::new(&b).bytes().map_err(|x| format!("{:?}", x))?;
            check_bytes(&x, &st)
        }
        _ => {
            // something else than a definite chunk of the same kind between the chunks
            let text = s.bool();
            let m = if text { 3u8 } else { 2 };
            let mut e = vec![m << 5 | 31];
            let n = s.size(4);
            for _ in 0..n {
                let k = s.size(5);
                let c = if text { gen::text_content(s, k) } else { gen::content(s, k) };
                head(&mut e, m, gen::width(s, c.len() as u64), c.len() as u64);
                e.extend_from_slice(&c);
            }
            let odd = match s.idx(5) {
                0 => {
                    let st = gen::any_string(s, !text, true);
                    if text { Item::Bytes(st) } else { Item::Text(st) }
                }
                1 => {
                    let n = s.idx(3);
                    let st = Str::Chunks((0..n).map(|_| (W::Imm, b"ab".to_vec())).collect());
                    if text { Item::Text(st) } else { Item::Bytes(st) }
                }
                _ => {
                    let k = *s.pick(&[0usize, 1, 4, 5, 6, 7, 8]);
                    gen::item_of_kind(s, k, gen::SMALL)
                }
            };
            odd.enc(&mut e);
            let k = s.idx(2);
            for _ in 0..k {
                e.push(m << 5 | 1);
                e.push(b'z');
            }
            e.push(0xff);
            cx.label("bad chunk");
            cx.nontrivial_if(true);
            cx.input(&e);
            cx.describe(|| format!("bad chunk in {}", hex(&e)));
            macro_rules! refuse {
                ($($e:expr),*) => {$(
                    if let Ok(x) = $e {
                        return Err(format!("{} accepted {}: {:?}", stringify!($e), hex(&e), x));
                    }
                )*};
            }
            if text {
                refuse!(Reader::new(&e).text(), decode_from_bytes::<String>(&e));
            } else {
                refuse!(Reader::new(&e).bytes(), decode_from_bytes::<Vec<u8>>(&e), decode_from_bytes::<[u8; 4]>(&e));
            }
            refuse!(Reader::new(&e).data(), decode_from_bytes::<DataOwned>(&e));
            // nor as an element of something
            for pre in [&[0x81u8][..], &[0x9f], &[0xc1], &[0xa1, 0x00], &[0xbf, 0x00]] {
                let mut x = pre.to_vec();
                x.extend_from_slice(&e);
                x.push(0xff);
                refuse!(Reader::new(&x).data());
            }
            Ok(())
        }
    }
}
fn c12_enum_n(t: Tier) -> u64 {
    65536 + 2 * 600 + gen::shapes_n(t)
}
fn c12_enum(i: u64, cx: &mut Cx) -> R {
    cx.nontrivial_if(true);
    cx.input_u64(i);
    if i < 65536 {
        // every text of two bytes, alone and followed by two more continuation bytes
        let (a, b) = ((i >> 8) as u8, i as u8);
        for c in [vec![a, b], vec![a, b, 0x80], vec![a, b, 0x80, 0x80], vec![a, b, 0xbf, 0xbf], vec![a]] {
            let e = Item::Text(Str::canonical(&c)).to_vec();
            let exp = utf8_valid(&c);
            cx.describe(|| format!("text {}", hex(&c)));
            let r = Reader::new(&e).text();
            ensure_eq!(r.is_ok(), exp, "text {} accepted", hex(&c));
            ensure_eq!(decode_from_bytes::<String>(&e).is_ok(), exp, "String {} accepted", hex(&c));
            if let Err(x) = r {
                ensure!(matches!(x, ReaderError::TextUTF8Error(_)), "text {}: {:?}", hex(&c), x);
            }
            let ch = Item::Text(Str::Chunks(vec![(W::Imm, c[..1].to_vec()), (W::Imm, c[1..].to_vec())])).to_vec();
            let exp = utf8_valid(&c[..1]) && utf8_valid(&c[1..]);
            ensure_eq!(Reader::new(&ch).text().is_ok(), exp, "text {} in chunks accepted", hex(&ch));
        }
        return Ok(());
    }
    // every length up to 600, in one piece and in two; then the shapes
    let i = i - 65536;
    if i >= 1200 {
        let Some(it) = gen::shape(i - 1200) else { return Ok(()) };
        cx.describe(|| format!("shape {}", short(&it)));
        let mut q = Src::quiet();
        return match &it {
            Item::Bytes(st) => good_string(&mut q, false, st),
            Item::Text(st) => good_string(&mut q, true, st),
            _ => Ok(()),
        };
    }
    let (n, two) = ((i / 2) as usize, i % 2 == 1);
    let c: Vec<u8> = (0..n).map(|i| (i % 251) as u8).collect();
    let st = if two {
        let k = n / 3;
        Str::Chunks(vec![(W::min(k as u64), c[..k].to_vec()), (W::B4, c[k..].to_vec())])
    } else {
        Str::canonical(&c)
    };
    cx.describe(|| format!("{} bytes", n));
    let mut q = Src::quiet();
    good_string(&mut q, false, &st)
}
pub const C12: Prop = Prop {
    id: "C12",
    rule: "a string with contents or with several chunks, a text that is not UTF-8, or an indefinite string with something else among its chunks; distinct by encoding",
    assumptions: &["the UTF-8 validity test in refcbor.rs follows RFC 3629"],
    enum_n: c12_enum_n,
    enum_case: c12_enum,
    case: c12_case,
    quick: 700_000,
    thorough: 12_000_000,
};
