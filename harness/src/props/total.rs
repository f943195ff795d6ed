//! C04, C05, C07: totality, memory, truncation.
use crate::engine::{Cx, Prop, Tier, R};
use crate::gen;
use crate::refcbor::*;
use crate::tape::Src;
use crate::view::*;
use crate::{alloc, ensure, ensure_eq};
use cbored::tagged::*;
use cbored::validate::{ValidateError, Validator};
use cbored::*;

// ---- everything there is to call ------------------------------------------------------------

/// sink, so that nothing is optimised away
pub fn use_<T>(t: T) -> T {
    std::hint::black_box(t)
}
fn use_err(e: &DecodeError) {
    use_(e.context_as_path());
    use_(e.context().len());
    use_(format!("{}", e));
    use_(format!("{:?}", e.error()));
    let _ = use_(e.clone());
}
fn try_decode<T: Decode>(b: &[u8], full: bool) -> Option<T> {
    let mut r = Reader::new(b);
    let v = match r.decode::<T>() {
        Ok(v) => Some(v),
        Err(e) => {
            if full {
                use_err(&e);
            }
            None
        }
    };
    use_((r.remaining_bytes(), r.consumed_bytes(), r.is_finished(), r.expect_finished().is_ok()));
    if full {
        match decode_from_bytes::<T>(b) {
            Ok(v) => drop(use_(v)),
            Err(e) => use_err(&e),
        }
        use_(Reader::new(b).decode_one::<T>().is_ok());
        use_(decode_vec::<T>(&mut Reader::new(b)).is_ok());
        if let Ok(v) = Reader::new(b).exact_decodable_data::<T>() {
            use_(v.unserialize());
            let w = v.clone();
            use_(w.untype().decode::<T>().is_ok());
        }
        if let Ok(s) = Reader::new(b).exact_decodable_slice::<T>() {
            let o = s.to_owned();
            use_(o.unserialize());
            use_(s.untype().validate_as::<T>().is_ok());
        }
    }
    v
}
fn enc<T: Encode>(v: &Option<T>) {
    if let Some(v) = v {
        use_(encode_to_bytes(v));
    }
}
pub fn inspect(d: &Data, small: bool) {
    match d {
        Data::Positive(p) => {
            use_((p.to_u64(), p.is_canonical(), p.raw_value(), Scalar::Positive(*p).to_i64(), Scalar::Positive(*p).is_canonical()));
            use_((Scalar::Positive(*p).is_positive(), Scalar::Positive(*p).raw_value()));
        }
        Data::Negative(p) => {
            use_((p.negative_u64(), p.to_i64(), p.is_canonical(), p.raw_value(), Scalar::Negative(*p).to_i64()));
            use_((Scalar::Negative(*p).is_negative(), Scalar::Negative(*p).is_canonical()));
        }
        Data::Float(f) => {
            use_((f.to_f32(), f.to_f64()));
        }
        Data::Byte(b) => {
            use_((b.to_u8(), b.is_canonical(), b.raw_value()));
        }
        Data::Bytes(b) => {
            use_((b.len(), b.to_vec()));
            match b {
                Bytes::Imm(d) => {
                    use_((d.value(), d.as_slice(), d.owned().borrow().as_slice().len()));
                }
                Bytes::Chunks(v) => {
                    for d in v.iter().take(100) {
                        use_((d.value(), d.as_slice(), d.owned()));
                    }
                }
            }
            use_(encode_to_bytes(&b.owned()));
        }
        Data::Text(b) => {
            use_((b.to_string(), b.to_str_chunks()));
            match b {
                Text::Imm(d) => {
                    use_((d.value(), d.as_str(), d.owned()));
                }
                Text::Chunks(v) => {
                    for d in v.iter().take(100) {
                        use_((d.value(), d.as_str(), d.owned()));
                    }
                }
            }
        }
        Data::Array(a) => {
            use_((a.len(), a.struct_len(), a.struct_len().is_indefinite()));
            use_(a.iter().count());
            use_(a.to_vec::<_, u64>(|r| r.positive().map(|p| p.to_u64()).map_err(|e| e.into())).is_ok());
            let o = a.owned();
            use_((o.len(), o.struct_len(), o.iter().count()));
            use_(o.to_vec::<_, DataOwned>(|r| r.data().map(|d| d.owned()).map_err(|e| e.into())).is_ok());
            for i in 0..a.len().min(20) {
                use_((a[i].as_ref().len(), o[i].as_ref().len()));
                use_(o[i].decode::<u64>().is_ok());
                use_(o[i].validate_as::<u64>().is_ok());
                use_(o[i].read().peek_type().is_ok());
            }
            use_(o.borrow() == *a);
        }
        Data::Map(a) => {
            use_((a.len(), a.struct_len(), a.iter().count(), a.keys().count(), a.values().count()));
            use_(a.to_vec::<_, _, u64, u64>(|r| r.positive().map(|p| p.to_u64()).map_err(|e| e.into()), |r| r.positive().map(|p| p.to_u64()).map_err(|e| e.into())).is_ok());
            let o = a.owned();
            use_((o.len(), o.struct_len(), o.iter().count(), o.keys().count(), o.values().count()));
            use_(o.to_vec::<_, _, DataOwned, DataOwned>(|r| r.data().map(|d| d.owned()).map_err(|e| e.into()), |r| r.data().map(|d| d.owned()).map_err(|e| e.into())).is_ok());
            for i in 0..a.len().min(20) {
                use_((a[i].0.as_ref().len(), a[i].1.as_ref().len()));
            }
            use_(o.borrow() == *a);
        }
        Data::Tag(t) => {
            use_((t.value(), t.tag_repr(), t.tag_repr().raw_value(), t.data().as_ref().len()));
            use_(t.read_data(|r| r.bytes().map(|b| b.len())).is_ok());
            use_(t.read_data(|r| r.data().map(|d| d.owned())).is_ok());
            use_(t.decode_data::<u64>().is_ok());
            use_(t.reader().remaining_bytes());
            let o = t.owned();
            use_((o.value(), o.tag_repr(), o.data().as_ref().len(), o.read_data().is_finished()));
            use_(o.borrow() == *t);
        }
        Data::True | Data::False | Data::Null | Data::Undefined => {}
    }
    let o = d.owned();
    let b = o.borrow();
    use_(b == *d);
    if small {
        use_(format!("{:?}", d));
        use_(format!("{:?}", o));
        use_(d.clone());
    }
    use_(encode_to_bytes(d));
    use_(encode_to_bytes(&o));
}
/// all entry points on one input; `full` for the slower ones too
fn everything(b: &[u8], full: bool) {
    let mut v = Validator::new(b);
    for _ in 0..50 {
        use_(v.remaining_bytes());
        match v.next() {
            Ok((s, n)) => {
                use_((s.as_ref().len(), n));
                if full {
                    use_(s.to_owned().decode::<DataOwned>().is_ok());
                    use_(s.decode::<u64>().is_ok());
                    use_(s.reader().consumed_bytes());
                }
            }
            Err(e) => {
                use_(format!("{:?}", e));
                break;
            }
        }
        if v.remaining_bytes() == 0 {
            break;
        }
    }
    let r = Reader::new(b);
    use_((r.remaining_bytes(), r.consumed_bytes(), r.is_finished(), r.peek_type().is_ok()));
    use_(format!("{:?}", r.expect_finished()));
    macro_rules! reads {
        ($($m:ident),*) => {$(
            let mut r = Reader::new(b);
            match r.$m() {
                Ok(v) => { use_(v); }
                Err(e) => { use_(format!("{:?}", e)); }
            }
            use_((r.remaining_bytes(), r.consumed_bytes(), r.is_finished()));
        )*};
    }
    reads!(positive, negative, scalar, byte, float, constant, null, undefined, bool, bytes, text, array, map, tag);
    enc(&try_decode::<bool>(b, false));
    enc(&try_decode::<u8>(b, full));
    enc(&try_decode::<u16>(b, false));
    enc(&try_decode::<u32>(b, false));
    enc(&try_decode::<u64>(b, full));
    enc(&try_decode::<String>(b, full));
    enc(&try_decode::<Vec<u8>>(b, full));
    enc(&try_decode::<[u8; 0]>(b, false));
    enc(&try_decode::<[u8; 4]>(b, full));
    enc(&try_decode::<[u8; 32]>(b, false));
    enc(&try_decode::<Scalar>(b, full));
    enc(&try_decode::<DataOwned>(b, full));
    enc(&try_decode::<CborDataOf<u64>>(b, full));
    enc(&try_decode::<CborDataOf<DataOwned>>(b, full));
    enc(&try_decode::<CborDataOf<CborDataOf<[u8; 4]>>>(b, false));
    enc(&try_decode::<StandardDateTime>(b, full));
    if let Some(x) = try_decode::<PositiveBignum>(b, full) {
        use_((x.to_be_bytes(), encode_to_bytes(&x)));
    }
    if let Some(x) = try_decode::<NegativeBignum>(b, full) {
        use_((x.to_be_bytes(), encode_to_bytes(&x)));
    }
    if let Some(x) = try_decode::<EncodedCBOR>(b, full) {
        use_((x.to_bytes(), encode_to_bytes(&x)));
    }
    if let Some(x) = try_decode::<RationalNumber>(b, full) {
        use_((format!("{:?}{:?}", x.numerator(), x.denominator()), encode_to_bytes(&x)));
    }
    // generic reading, and walking all of it
    let mut r = Reader::new(b);
    let mut todo: Vec<&CborSlice> = Vec::new();
    let mut work = 0usize;
    while !r.is_finished() {
        match r.data() {
            Ok(d) => {
                inspect(&d, b.len() < 400);
                match d {
                    Data::Array(a) => (0..a.len().min(200)).for_each(|i| todo.push(a[i])),
                    Data::Map(a) => (0..a.len().min(200)).for_each(|i| {
                        todo.push(a[i].0);
                        todo.push(a[i].1)
                    }),
                    Data::Tag(t) => todo.push(t.data()),
                    _ => {}
                }
            }
            Err(e) => {
                use_(format!("{:?}", e));
                break;
            }
        }
        match todo.pop() {
            Some(s) if work < 200_000 => {
                work += 50 + s.as_ref().len();
                r = s.reader();
            }
            _ => break,
        }
    }
    // walk what is left
    while let Some(s) = todo.pop() {
        if work > 200_000 {
            break;
        }
        work += 50 + s.as_ref().len();
        if let Ok(d) = s.reader().data() {
            inspect(&d, false);
            if let Data::Tag(t) = d {
                todo.push(t.data())
            }
        }
    }
}
/// a history of reads on one reader, going on after errors
fn history(b: &[u8], s: &mut Src) {
    let mut r = Reader::new(b);
    let n = 1 + s.size(16);
    for _ in 0..n {
        match s.byte() % 26 {
            0 => drop(use_(r.positive())),
            1 => drop(use_(r.negative())),
            2 => drop(use_(r.scalar())),
            3 => drop(use_(r.byte())),
            4 => drop(use_(r.float())),
            5 => drop(use_(r.constant())),
            6 => drop(use_(r.null())),
            7 => drop(use_(r.undefined())),
            8 => drop(use_(r.bool())),
            9 => drop(use_(r.bytes().map(|b| b.to_vec()))),
            10 => drop(use_(r.text().map(|b| b.to_string()))),
            11 => drop(use_(r.array().map(|a| a.len()))),
            12 => drop(use_(r.map().map(|a| a.len()))),
            13 => drop(use_(r.tag().map(|a| a.value()))),
            14 | 15 | 16 => drop(use_(r.data().map(|d| d.owned()))),
            17 => drop(use_(r.decode::<u8>())),
            18 => drop(use_(r.decode::<DataOwned>())),
            19 => drop(use_(r.decode::<RationalNumber>())),
            20 => drop(use_(r.decode_one::<u64>())),
            21 => drop(use_(r.exact_decodable_data::<String>())),
            22 => drop(use_(r.exact_decodable_slice::<DataOwned>().is_ok())),
            23 => drop(use_(r.peek_type())),
            24 => drop(use_(decode_vec::<u64>(&mut r))),
            _ => drop(use_(r.expect_finished())),
        }
        use_((r.remaining_bytes(), r.consumed_bytes(), r.is_finished()));
    }
}

// ---- C04 ------------------------------------------------------------------------------------

fn c04_enum_n(t: Tier) -> u64 {
    gen::short_n(t)
}
fn c04_enum(i: u64, cx: &mut Cx) -> R {
    let b = gen::short_bytes(i);
    cx.input_u64(i);
    cx.nontrivial_if(b.len() > 1);
    cx.describe(|| format!("every entry point on {}", hex(&b)));
    // (without spare capacity: reading past the end would be seen by AddressSanitizer)
    let b = b.into_boxed_slice();
    everything(&b, b.len() <= 3);
    Ok(())
}
pub fn deep_input(s: &mut Src) -> Vec<u8> {
    let d = match s.byte() % 4 {
        0 => s.idx(2000),
        1 => 1000 + s.idx(10_000),
        2 => 10_000 + s.idx(60_000),
        _ => *s.pick(&[65535usize, 65536, 100_000, 200_000]),
    };
    gen::deep(s, d)
}
fn c04_case(s: &mut Src, cx: &mut Cx) -> R {
    let (b, l) = match s.weighted(&[60, 15, 1, 12]) {
        0 => gen::any_bytes(s),
        1 => {
            let mut b = gen::near_tagged(s).to_vec();
            if s.chance(80) {
                gen::damage(s, &mut b)
            }
            (b, "tagged extension")
        }
        2 => (deep_input(s), "deep"),
        _ => {
            let mut b = gen::item(s, gen::ANYTEXT).to_vec();
            let n = s.idx(b.len().min(65536) + 1);
            b.truncate(n);
            (b, "truncated")
        }
    };
    cx.label(l);
    cx.input(&b);
    cx.nontrivial_if(b.len() > 1);
    cx.describe(|| format!("{}: every entry point and a history on {}", l, hex(&b)));
    let b = b.into_boxed_slice();
    everything(&b, b.len() < 5000);
    history(&b, s);
    Ok(())
}
pub const C04: Prop = Prop {
    id: "C04",
    rule: "the input has at least two bytes and went through every reading, validating and decoding entry point without panic, overflow (arithmetic checks on) or abort, on a 2 MiB stack; distinct by input",
    assumptions: &["built with overflow checks and debug assertions", "memory errors that neither panic nor crash are looked for in a part of the cases, run again in a build with AddressSanitizer"],
    enum_n: c04_enum_n,
    enum_case: c04_enum,
    case: c04_case,
    quick: 120_000,
    thorough: 5_000_000,
};

// ---- C05 ------------------------------------------------------------------------------------

const BASE: u64 = 256 << 10;
const PER_BYTE: u64 = 256;

/// the entry points that are measured, one by one
pub type Entry = (&'static str, fn(&[u8]));
macro_rules! entries {
    ($($name:literal $b:ident => $e:expr;)*) => {&[$(($name, |$b| { use_($e); })),*]};
}
pub static ENTRIES: &[Entry] = entries! {
    "Validator::next" b => Validator::new(b).next().is_ok();
    "Reader::data" b => Reader::new(b).data().map_err(|e| e.clone());
    "Reader::array" b => Reader::new(b).array();
    "Reader::map" b => Reader::new(b).map();
    "Reader::bytes" b => Reader::new(b).bytes();
    "Reader::text" b => Reader::new(b).text();
    "Reader::tag" b => Reader::new(b).tag();
    "decode DataOwned" b => Reader::new(b).decode::<DataOwned>();
    "decode String" b => Reader::new(b).decode::<String>();
    "decode Vec<u8>" b => Reader::new(b).decode::<Vec<u8>>();
    "decode [u8; 32]" b => Reader::new(b).decode::<[u8; 32]>();
    "decode CborDataOf<DataOwned>" b => Reader::new(b).decode::<CborDataOf<DataOwned>>();
    "exact_decodable_slice" b => Reader::new(b).exact_decodable_slice::<DataOwned>().is_ok();
    "decode_vec<u64>" b => decode_vec::<u64>(&mut Reader::new(b));
    "decode_vec<DataOwned>" b => decode_vec::<DataOwned>(&mut Reader::new(b));
    "decode StandardDateTime" b => Reader::new(b).decode::<StandardDateTime>();
    "decode PositiveBignum" b => Reader::new(b).decode::<PositiveBignum>();
    "decode NegativeBignum" b => Reader::new(b).decode::<NegativeBignum>();
    "decode EncodedCBOR" b => Reader::new(b).decode::<EncodedCBOR>();
    "decode RationalNumber" b => Reader::new(b).decode::<RationalNumber>();
    "Array::to_vec" b => Reader::new(b).array().map(|a| a.to_vec::<_, u8>(|r| r.peek_type().map(|_| 0u8).map_err(|e| e.into())).map(|v| v.len()));
    "Map::to_vec" b => Reader::new(b).map().map(|a| a.to_vec::<_, _, u8, u8>(|_| Ok(1), |_| Ok(2)).map(|v| v.len()));
    "owned" b => Reader::new(b).data().map(|d| d.owned());
};
fn bounded(what: &str, b: &[u8], worst: &mut u64, f: impl FnOnce()) -> R {
    let ((), u) = alloc::measure(f);
    let bound = BASE + PER_BYTE * b.len() as u64;
    *worst = (*worst).max(u.peak);
    ensure!(u.peak <= bound, "{} allocated {} bytes on an input of {} bytes (bound {}): {}", what, u.peak, b.len(), bound, hex(b));
    Ok(())
}
fn memory(b: &[u8], cx: &mut Cx) -> R {
    let mut w = 0;
    for (name, f) in ENTRIES {
        bounded(name, b, &mut w, || f(b))?;
    }
    cx.label_if(w > b.len() as u64 * 16 + 1024, "used more than 16 bytes per byte");
    // the content of a tag, and the elements of what was read, by their own readers
    if let Ok(t) = Reader::new(b).tag() {
        let d = t.data();
        let c: &[u8] = d.as_ref();
        bounded("tag content", c, &mut w, || { use_(t.reader().data().is_ok()); })?;
        bounded("tag content", c, &mut w, || { use_(t.decode_data::<DataOwned>().is_ok()); })?;
    }
    Ok(())
}
pub fn wide(s: &mut Src) -> Vec<u8> {
    // many smallest elements
    let n = match s.byte() % 4 {
        0 => 1000 + s.idx(3000),
        1 => 20_000 + s.idx(5000),
        2 => 65_536,
        _ => s.idx(1000),
    };
    let e = *s.pick(&[0x00u8, 0x40, 0x60, 0x80, 0xa0, 0xf6, 0x81, 0x9f, 0xc1]);
    let mut v = Vec::new();
    match s.byte() % 6 {
        0 => v.push(0x9f),
        1 => v.push(0xbf),
        2 => v.push(0x5f),
        3 => v.push(0x7f),
        4 => head(&mut v, 4, W::B8, if s.bool() { n as u64 } else { gen::huge(s) }),
        _ => head(&mut v, 5, W::B8, if s.bool() { n as u64 / 2 } else { gen::huge(s) }),
    }
    v.extend(std::iter::repeat(e).take(n));
    if s.chance(200) {
        v.push(0xff);
    }
    v
}
fn c05_case(s: &mut Src, cx: &mut Cx) -> R {
    let (b, l) = match s.weighted(&[50, 20, 8, 8, 6, 10]) {
        0 => (gen::adversarial(s), "huge announcement"),
        1 => {
            // a huge announcement somewhere below a tagged extension or in a broken structure
            let mut b = match s.byte() % 3 {
                0 => {
                    let mut v = Vec::new();
                    let t = *s.pick(&[0u64, 2, 3, 24, 30]);
                    let w = gen::width(s, t);
                    head(&mut v, 6, w, t);
                    if t == 30 {
                        v.push(*s.pick(&[0x82u8, 0x9f]));
                        if s.bool() {
                            v.push(1);
                        }
                        v.push(*s.pick(&[0xc2u8, 0xc3]));
                    }
                    v
                }
                1 => vec![0x82, 0x01],
                _ => vec![0x9f],
            };
            b.extend(gen::adversarial(s));
            (b, "huge announcement below something")
        }
        2 => (gen::broken(s, gen::ANYTEXT), "broken structure"),
        3 => (wide(s), "wide"),
        4 => (deep_input(s), "deep"),
        _ => gen::any_bytes(s),
    };
    cx.label(l);
    cx.input(&b);
    cx.nontrivial_if(b.len() > 2);
    cx.describe(|| format!("{}: {}", l, hex(&b)));
    memory(&b, cx)
}
fn c05_enum_n(_: Tier) -> u64 {
    // major type x width x value x layer x filler
    4 * 4 * 20 * 6 * 3
}
fn c05_enum(i: u64, cx: &mut Cx) -> R {
    let mut x = i;
    let mut take = |n: u64| {
        let r = x % n;
        x /= n;
        r
    };
    let major = 2 + take(4) as u8;
    let w = WIDTHS[1 + take(4) as usize];
    const V: [u64; 20] = [
        200, 255, 4096, 65535, 65536, 1 << 20, 1 << 24, (1 << 28) + 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 1 << 32, 1 << 36,
        1 << 40, 1 << 48, (1 << 60) - 1, 1 << 60, i64::MAX as u64, 1 << 63, u64::MAX,
    ];
    let v = V[take(20) as usize];
    if !w.holds(v) {
        return Ok(());
    }
    let layer: &[u8] = [&[][..], &[0x81], &[0x9f], &[0xc2], &[0xa1, 0x00], &[0xd8, 0x1e, 0x82]][take(6) as usize];
    let n = [0usize, 1, 40][take(3) as usize];
    let mut b = layer.to_vec();
    head(&mut b, major, w, v);
    b.extend(std::iter::repeat(0u8).take(n));
    cx.input(&b);
    cx.nontrivial_if(true);
    cx.describe(|| hex(&b));
    memory(&b, cx)
}
pub const C05: Prop = Prop {
    id: "C05",
    rule: "the input has more than two bytes, and the peak of live heap memory of each of 23 entry points was measured on it; distinct by input",
    assumptions: &["bound used: 256 KiB plus 256 bytes per input byte of live heap memory, counted by the global allocator"],
    enum_n: c05_enum_n,
    enum_case: c05_enum,
    case: c05_case,
    quick: 40_000,
    thorough: 4_000_000,
};

// ---- C07 ------------------------------------------------------------------------------------

fn chk_missing(what: &str, m: Option<(usize, usize)>, dbg: &dyn std::fmt::Debug, cut: usize, e: &[u8]) -> Result<usize, String> {
    let Some((exp, got)) = m else {
        return Err(format!("{} on the first {} of {} bytes of {}: {:?}, instead of missing data", what, cut, e.len(), hex(e), dbg));
    };
    ensure!(exp > got, "{} on the first {} of {} bytes of {}: expecting {} with {} available", what, cut, e.len(), hex(e), exp, got);
    let lack = e.len() - cut;
    ensure!(exp - got <= lack, "{} on the first {} of {} bytes of {}: asks for {} more bytes, {} are missing", what, cut, e.len(), hex(e), exp - got, lack);
    Ok(exp - got)
}
/// the ways to read an item that must all report missing data; returns the bytes asked for
type Way = (&'static str, fn(&[u8]) -> Result<(), ReaderError>);
fn dec<T: Decode>(b: &[u8]) -> Result<(), ReaderError> {
    match Reader::new(b).decode::<T>() {
        Ok(_) => Ok(()),
        Err(e) => match e.error() {
            DecodeErrorKind::ReaderError(e) => Err(e.clone()),
            // shown as an error that is not missing data
            _ => Err(ReaderError::UnexpectedBreakType),
        },
    }
}
fn val(b: &[u8]) -> Result<(), ReaderError> {
    match Validator::new(b).next() {
        Ok(_) => Ok(()),
        Err(ValidateError::DataMissing(m)) => Err(ReaderError::DataMissing(m)),
        Err(ValidateError::LeadError(e)) => Err(ReaderError::LeadError(e)),
        Err(ValidateError::StateError(e)) => Err(ReaderError::StateError(e)),
    }
}
fn sl(b: &[u8]) -> Result<(), ReaderError> {
    match Reader::new(b).exact_decodable_slice::<DataOwned>() {
        Ok(_) => Ok(()),
        Err(e) => match e.error() {
            DecodeErrorKind::ReaderError(e) => Err(e.clone()),
            _ => Err(ReaderError::UnexpectedBreakType),
        },
    }
}
fn ways(it: &Item) -> Vec<Way> {
    let mut w: Vec<Way> = vec![
        ("Validator::next", val),
        ("Reader::data", |b| Reader::new(b).data().map(|_| ())),
        ("decode::<DataOwned>", dec::<DataOwned>),
        ("exact_decodable_slice", sl),
        ("decode::<CborDataOf<DataOwned>>", dec::<CborDataOf<DataOwned>>),
    ];
    match it {
        Item::Uint(_, v) => {
            w.push(("positive", |b| Reader::new(b).positive().map(|_| ())));
            w.push(("scalar", |b| Reader::new(b).scalar().map(|_| ())));
            w.push(("decode::<u64>", dec::<u64>));
            w.push(("decode::<Scalar>", dec::<Scalar>));
            if *v < 256 {
                w.push(("decode::<u8>", dec::<u8>));
            }
        }
        Item::Nint(..) => {
            w.push(("negative", |b| Reader::new(b).negative().map(|_| ())));
            w.push(("scalar", |b| Reader::new(b).scalar().map(|_| ())));
        }
        Item::Bytes(_) => {
            w.push(("bytes", |b| Reader::new(b).bytes().map(|_| ())));
            w.push(("decode::<Vec<u8>>", dec::<Vec<u8>>));
        }
        Item::Text(_) => {
            w.push(("text", |b| Reader::new(b).text().map(|_| ())));
            w.push(("decode::<String>", dec::<String>));
        }
        Item::Array(..) => w.push(("array", |b| Reader::new(b).array().map(|_| ()))),
        Item::Map(..) => w.push(("map", |b| Reader::new(b).map().map(|_| ()))),
        Item::Tag(..) => w.push(("tag", |b| Reader::new(b).tag().map(|_| ()))),
        Item::Simple { .. } => w.push(("byte", |b| Reader::new(b).byte().map(|_| ()))),
        Item::Const(c) => {
            w.push(("constant", |b| Reader::new(b).constant().map(|_| ())));
            match c {
                20 | 21 => w.push(("bool", |b| Reader::new(b).bool().map(|_| ()))),
                22 => w.push(("null", |b| Reader::new(b).null())),
                _ => w.push(("undefined", |b| Reader::new(b).undefined())),
            }
        }
        _ => w.push(("float", |b| Reader::new(b).float().map(|_| ()))),
    }
    w
}
fn truncation(e: &[u8], it: &Item, s: &mut Src, cx: &mut Cx) -> R {
    let ws = ways(it);
    let cuts: Vec<usize> = if e.len() <= 120 {
        (0..e.len()).collect()
    } else {
        let long = e.len() > 5000;
        let mut c: Vec<usize> = (0..if long { 11 } else { 20 }).collect();
        for _ in 0..if long { 4 } else { 25 } {
            c.push(s.idx(e.len()));
        }
        c.extend(e.len() - if long { 4 } else { 12 }..e.len());
        c
    };
    for &cut in &cuts {
        for (name, f) in &ws {
            match f(&e[..cut]) {
                Ok(()) => return Err(format!("{} accepted the first {} of {} bytes of {}", name, cut, e.len(), hex(e))),
                Err(x) => {
                    chk_missing(name, missing(&x), &x, cut, e)?;
                }
            }
        }
    }
    for (name, f) in &ws {
        if let Err(x) = f(e) {
            return Err(format!("{} refused the complete item {}: {:?}", name, hex(e), x));
        }
    }
    // a caller that appends what is asked for
    let (name, f) = ws[s.idx(ws.len())];
    let mut have = if e.len() <= 4 { 0 } else { s.idx(e.len()) };
    let mut rounds = 0usize;
    loop {
        match f(&e[..have]) {
            Ok(()) => break,
            Err(x) => {
                have += chk_missing(name, missing(&x), &x, have, e)?;
            }
        }
        rounds += 1;
        ensure!(rounds <= e.len() + 1, "refilling does not end");
        if rounds > if e.len() > 5000 { 20 } else { 400 } {
            // (quadratic on long items)
            return Ok(());
        }
    }
    ensure_eq!(have, e.len(), "bytes asked for in the end by {}", name);
    cx.label_if(rounds > 2, "more than two refills");
    Ok(())
}
fn c07_case(s: &mut Src, cx: &mut Cx) -> R {
    let k = s.idx(10);
    let cfg = if s.chance(16) { gen::MEDIUM } else { gen::SMALL };
    let it = if k == 9 { gen::item(s, cfg) } else { gen::item_of_kind(s, k, cfg) };
    let e = it.to_vec();
    cx.input(&e);
    cx.nontrivial_if(e.len() > 1);
    cx.label_if(it.is_indefinite(), "indefinite");
    cx.label_if(it.has_children(), "has elements");
    cx.label_if(e.len() > 120, "longer than 120 bytes (sampled cuts)");
    cx.describe(|| format!("prefixes of {}", hex(&e)));
    truncation(&e, &it, s, cx)
}
fn c07_enum_n(t: Tier) -> u64 {
    gen::short_n(t) + gen::shapes_n(t)
}
fn c07_enum(i: u64, cx: &mut Cx) -> R {
    if i >= gen::short_n(cx.tier) {
        let i = i - gen::short_n(cx.tier);
        let Some(it) = gen::shape(i) else { return Ok(()) };
        let e = it.to_vec();
        cx.input(&e);
        cx.nontrivial_if(e.len() > 1);
        cx.describe(|| format!("prefixes of the shape {}", hex(&e)));
        let mut s = Src::fresh(vec![], crate::tape::Rng::new(i));
        return truncation(&e, &it, &mut s, cx);
    }
    // all prefixes of all short well-formed items; and all short truncated inputs
    let b = gen::short_bytes(i);
    cx.describe(|| hex(&b));
    match extent(&b) {
        Ok(n) if n == b.len() => {
            let Some((it, _)) = parse(&b, 300) else { return Ok(()) };
            if it.any(&mut |i| !i.own_text_ok()) {
                return Ok(());
            }
            cx.nontrivial_if(b.len() > 1);
            cx.input_u64(i);
            let mut s = Src::quiet();
            truncation(&b, &it, &mut s, cx)
        }
        Err(Bad::Truncated) => {
            // a prefix of some well-formed item, maybe of a very long one
            cx.nontrivial_if(true);
            cx.input_u64(i);
            let x = val(&b);
            let e = x.as_ref().err().and_then(|e| missing(e));
            ensure!(e.map(|(a, b)| a > b).unwrap_or(false), "Validator::next on the truncated {}: {:?}", hex(&b), x);
            let x = Reader::new(&b).data().map(|_| ());
            if let Err(ReaderError::TextUTF8Error(_)) = x {
                // a complete chunk that is not UTF-8
                return Ok(());
            }
            let e = x.as_ref().err().and_then(|e| missing(e));
            ensure!(e.map(|(a, b)| a > b).unwrap_or(false), "Reader::data on the truncated {}: {:?}", hex(&b), x);
            Ok(())
        }
        _ => Ok(()),
    }
}
pub const C07: Prop = Prop {
    id: "C07",
    rule: "an item of at least two bytes of which every prefix (all cuts up to 120 bytes, else 20 to 57 sampled cuts) was read every way that fits its kind, and refilled; distinct by encoding",
    assumptions: &["texts are valid UTF-8 (a complete chunk that is not is refused as such before the item is complete)"],
    enum_n: c07_enum_n,
    enum_case: c07_enum,
    case: c07_case,
    quick: 25_000,
    thorough: 2_500_000,
};
