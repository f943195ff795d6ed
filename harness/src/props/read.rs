//! C01, C02, C03: reading against the CBOR data model.
use crate::engine::{Cx, Prop, Tier, R};
use crate::gen;
use crate::refcbor::*;
use crate::tape::Src;
use crate::view::*;
use crate::{ensure, ensure_eq};
use cbored::validate::{ValidateError, Validator};
use cbored::*;

// ---- C01 ------------------------------------------------------------------------------------

fn same(what: &str, got: &[u8], exp: &[u8]) -> R {
    ensure!(got == exp, "{}: wrote {}, had read {}", what, hex(got), hex(exp));
    Ok(())
}
fn written(f: impl FnOnce(&mut Writer)) -> Vec<u8> {
    let mut w = Writer::new();
    f(&mut w);
    w.finalize()
}
/// every way to read an item and write it back
fn reencode(e: &[u8], tail: &[u8], it: &Item) -> R {
    let mut buf = e.to_vec();
    buf.extend_from_slice(tail);
    let buf = &buf[..];
    let done = |r: &Reader, what: &str| -> R {
        ensure_eq!(r.consumed_bytes(), e.len(), "{}: consumed", what);
        ensure_eq!(r.remaining_bytes(), tail.len(), "{}: remaining", what);
        Ok(())
    };
    // generic
    let mut r = Reader::new(buf);
    let d = r.data().map_err(|x| format!("data() refused {}: {:?}", hex(e), x))?;
    done(&r, "data")?;
    same("writer.data", &written(|w| w.data(&d)), e)?;
    same("Encode for Data", &encode_to_bytes(&d), e)?;
    let o = d.owned();
    same("owned data", &encode_to_bytes(&o), e)?;
    same("owned and borrowed again", &encode_to_bytes(&o.borrow()), e)?;
    let mut w = Writer::new_from_vec(vec![1, 2, 3]);
    w.encode(&d);
    same("after a prefix", &w.finalize()[3..], e)?;
    let mut r = Reader::new(buf);
    let o2 = r.decode::<DataOwned>().map_err(|x| format!("decode::<DataOwned> refused: {:?}", x))?;
    done(&r, "decode::<DataOwned>")?;
    same("decode then encode", &encode_to_bytes(&o2), e)?;
    same("decode_from_bytes", &encode_to_bytes(&decode_from_bytes::<DataOwned>(e).map_err(|x| format!("decode_from_bytes: {:?}", x))?), e)?;
    // by its own kind
    let mut r = Reader::new(buf);
    macro_rules! own {
        ($m:ident) => {
            own!($m, $m, |x| x)
        };
        ($m:ident, $w:ident, $f:expr) => {{
            let v = r.$m().map_err(|x| format!("{}() refused {}: {:?}", stringify!($m), hex(e), x))?;
            done(&r, stringify!($m))?;
            let v2 = v.clone();
            same(stringify!($m), &written(|w| w.$w($f(v2))), e)?;
            v
        }};
    }
    macro_rules! own_ref {
        ($m:ident) => {{
            let v = r.$m().map_err(|x| format!("{}() refused {}: {:?}", stringify!($m), hex(e), x))?;
            done(&r, stringify!($m))?;
            same(stringify!($m), &written(|w| w.$m(&v)), e)?;
            same(stringify!($m), &encode_to_bytes(&v), e)?;
            let o = v.owned();
            same(concat!("owned ", stringify!($m)), &written(|w| w.$m(&o.borrow())), e)?;
            v
        }};
    }
    match it {
        Item::Uint(..) => {
            let p = own!(positive);
            same("Encode", &encode_to_bytes(&p), e)?;
            let mut r2 = Reader::new(buf);
            let s = r2.scalar().map_err(|x| format!("scalar: {:?}", x))?;
            done(&r2, "scalar")?;
            same("scalar", &written(|w| w.scalar(s)), e)?;
            same("scalar", &encode_to_bytes(&s), e)?;
            let s = decode_from_bytes::<Scalar>(e).map_err(|x| format!("Scalar: {:?}", x))?;
            same("scalar", &encode_to_bytes(&s), e)?;
        }
        Item::Nint(..) => {
            let p = own!(negative);
            same("Encode", &encode_to_bytes(&p), e)?;
            let mut r2 = Reader::new(buf);
            let s = r2.scalar().map_err(|x| format!("scalar: {:?}", x))?;
            done(&r2, "scalar")?;
            same("scalar", &encode_to_bytes(&s), e)?;
        }
        Item::Bytes(_) => {
            let b = own_ref!(bytes);
            same("owned bytes", &encode_to_bytes(&b.owned()), e)?;
        }
        Item::Text(_) => {
            own_ref!(text);
        }
        Item::Array(..) => {
            let a = own_ref!(array);
            for (i, mut r) in a.iter().enumerate() {
                if let Ok(d) = r.data() {
                    same("element", &encode_to_bytes(&d), a[i].as_ref())?;
                }
            }
        }
        Item::Map(..) => {
            own_ref!(map);
        }
        Item::Tag(..) => {
            own_ref!(tag);
        }
        Item::Simple { .. } => {
            let b = own!(byte);
            same("Encode", &encode_to_bytes(&b), e)?;
        }
        Item::Const(c) => {
            let k = own!(constant);
            same("Encode", &encode_to_bytes(&k), e)?;
            let mut r2 = Reader::new(buf);
            match c {
                20 | 21 => {
                    let b = r2.bool().map_err(|x| format!("bool: {:?}", x))?;
                    same("bool", &written(|w| w.bool(b)), e)?;
                }
                22 => r2.null().map_err(|x| format!("null: {:?}", x))?,
                _ => r2.undefined().map_err(|x| format!("undefined: {:?}", x))?,
            }
            done(&r2, "constant")?;
        }
        _ => {
            let f = own!(float);
            same("Encode", &encode_to_bytes(&f), e)?;
        }
    }
    // as raw data
    let mut v = Validator::new(buf);
    let (s, n) = v.next().map_err(|x| format!("validator refused {}: {:?}", hex(e), x))?;
    ensure_eq!(n, e.len(), "validated length");
    same("raw slice", &written(|w| w.encode(s)), e)?;
    same("raw owned", &encode_to_bytes(&s.to_owned()), e)?;
    Ok(())
}
fn c01_enum_n(t: Tier) -> u64 {
    gen::short_n(t) + gen::shapes_n(t) + gen::nests_n(t)
}
/// beyond the shapes: an item nested to a boundary depth
fn nest_of(i: u64, cx: &mut Cx) -> Option<Vec<u8>> {
    let n = gen::short_n(cx.tier) + gen::shapes_n(cx.tier);
    if i < n {
        return None;
    }
    let (b, depth) = gen::nest(i - n, cx.tier);
    cx.nontrivial_if(depth > 0);
    cx.input_u64(i);
    cx.label("nested to a boundary depth");
    cx.describe(|| format!("nested {} deep: {}", depth, hex(&b)));
    Some(b)
}
/// generic reading and rewriting of what is too deep for the model
fn reencode_nested(e: &[u8]) -> R {
    let mut buf = e.to_vec();
    buf.push(0xff);
    let mut r = Reader::new(&buf);
    let d = r.data().map_err(|x| format!("data() refused {}: {:?}", hex(e), x))?;
    ensure_eq!(r.consumed_bytes(), e.len(), "consumed");
    same("data", &encode_to_bytes(&d), e)?;
    same("owned data", &encode_to_bytes(&d.owned()), e)?;
    let o = decode_from_bytes::<DataOwned>(e).map_err(|x| format!("decode_from_bytes: {:?}", x))?;
    same("decode then encode", &encode_to_bytes(&o), e)?;
    let mut r = Reader::new(&buf);
    let s = r.exact_decodable_slice::<DataOwned>().map_err(|x| format!("exact_decodable_slice: {:?}", x))?;
    same("raw typed slice", &encode_to_bytes(&s.to_owned()), e)?;
    let (s, n) = Validator::new(&buf).next().map_err(|x| format!("validator refused {}: {:?}", hex(e), x))?;
    ensure_eq!(n, e.len(), "validated length");
    same("raw slice", &written(|w| w.encode(s)), e)
}
/// beyond the short inputs: a shape
fn shape_of(i: u64, cx: &mut Cx) -> Option<Option<Item>> {
    let n = gen::short_n(cx.tier);
    if i < n || i >= n + gen::shapes_n(cx.tier) {
        return None;
    }
    let it = gen::shape(i - n);
    if it.is_some() {
        cx.nontrivial_if(true);
        cx.input_u64(i);
        cx.label("shape at a boundary size");
    }
    Some(it)
}
fn c01_enum(i: u64, cx: &mut Cx) -> R {
    if let Some(it) = shape_of(i, cx) {
        let Some(it) = it else { return Ok(()) };
        let e = it.to_vec();
        cx.describe(|| format!("shape {}", hex(&e)));
        return reencode(&e, &[0xff, 0x01], &it);
    }
    if let Some(b) = nest_of(i, cx) {
        return reencode_nested(&b);
    }
    let b = gen::short_bytes(i);
    let Ok(n) = extent(&b) else { return Ok(()) };
    let Some((it, _)) = parse(&b[..n], 300) else { return Ok(()) };
    if !it.own_text_ok() {
        return Ok(());
    }
    cx.nontrivial_if(true);
    cx.input_u64(i);
    cx.describe(|| format!("item {} followed by {}", hex(&b[..n]), hex(&b[n..])));
    reencode(&b[..n], &b[n..], &it)
}
fn c01_case(s: &mut Src, cx: &mut Cx) -> R {
    let k = s.idx(10);
    let it = if k == 9 { gen::item(s, gen::ANYTEXT) } else { gen::item_of_kind(s, k, gen::ANYTEXT) };
    if !it.own_text_ok() {
        return Ok(());
    }
    let e = it.to_vec();
    let tail: Vec<u8> = if s.chance(100) { gen::soup(s) } else { vec![] };
    cx.input(&e);
    cx.nontrivial_if(it.has_children() || it.is_indefinite() || e.len() > 1);
    cx.label_if(it.any(&mut |i| i.is_indefinite()), "contains an indefinite item");
    cx.label_if(it.has_children(), "has elements");
    cx.label_if(e.len() > 256, "longer than 256 bytes");
    cx.label_if(e.len() > 65535, "longer than 65535 bytes");
    cx.describe(|| format!("item {} followed by {} bytes", hex(&e), tail.len()));
    reencode(&e, &tail, &it)
}
pub const C01: Prop = Prop {
    id: "C01",
    rule: "the case is a well-formed item of more than one byte (or, enumerated, any well-formed item) that the library read and wrote back; distinct by encoding",
    assumptions: &["the reference encoder in refcbor.rs follows RFC 8949"],
    enum_n: c01_enum_n,
    enum_case: c01_enum,
    case: c01_case,
    quick: 400_000,
    thorough: 12_000_000,
};

// ---- C02 ------------------------------------------------------------------------------------

fn walk(b: &[u8], cx: &mut Cx) -> R {
    let mut v = Validator::new(b);
    let mut at = 0;
    let mut items = 0u64;
    let mut failed = 0u32;
    loop {
        ensure_eq!(v.remaining_bytes(), b.len() - at, "validator's remaining bytes before an item");
        let e = extent(&b[at..]);
        match (v.next(), e) {
            (Ok((s, n)), Ok(l)) => {
                ensure_eq!(n, l, "length of the item at {}", at);
                let sl: &[u8] = s.as_ref();
                ensure!(sl.len() == l && sl.as_ptr() == b[at..].as_ptr(), "slice returned for the item at {}: {} ({} bytes)", at, hex(sl), sl.len());
                at += l;
                items += 1;
                cx.label_if(failed > 0, "an item after a failure");
                if at == b.len() {
                    break;
                }
            }
            (Ok((_, n)), Err(x)) => return Err(format!("accepted {} bytes at {} of {}, which are {:?}", n, at, hex(b), x)),
            (Err(x), Ok(l)) => return Err(format!("refused ({:?}) the well-formed item of {} bytes at {} of {}", x, l, at, hex(b))),
            (Err(_), Err(x)) => {
                cx.label_if(x == Bad::Malformed, "ends malformed");
                cx.label_if(x == Bad::Truncated, "ends truncated");
                cx.nontrivial_if(b.len() - at > 1);
                // a failed call does not change what the next one accepts, where it stopped
                let left = v.remaining_bytes();
                ensure!(left <= b.len() - at, "{} bytes left after a failure at {} of {}", left, at, hex(b));
                at = b.len() - left;
                failed += 1;
                if failed == 4 {
                    break;
                }
            }
        }
    }
    if at == b.len() && !b.is_empty() {
        ensure_eq!(v.remaining_bytes(), 0, "remaining bytes at the end");
        ensure!(matches!(v.next(), Err(ValidateError::DataMissing(_))), "an item after the end");
        cx.label("all items well-formed");
    }
    cx.label_if(items > 1, "more than one item");
    cx.nontrivial_if(items > 0);
    Ok(())
}
fn c02_enum(i: u64, cx: &mut Cx) -> R {
    if let Some(it) = shape_of(i, cx) {
        let Some(it) = it else { return Ok(()) };
        let mut b = it.to_vec();
        cx.describe(|| format!("shape {}", hex(&b)));
        let n = b.len();
        // alone, cut, followed by another item, and with one byte of another item in the middle
        walk(&b, cx)?;
        walk(&b[..n - 1], cx)?;
        b.extend_from_slice(&[0x61, 0x62, 0x80]);
        walk(&b, cx)?;
        b.insert(n / 2, 0xf6);
        return walk(&b, cx);
    }
    if let Some(mut b) = nest_of(i, cx) {
        // alone, cut, with a break too many, and with a break in the middle
        let n = b.len();
        walk(&b, cx)?;
        walk(&b[..n - 1], cx)?;
        b.push(0xff);
        walk(&b, cx)?;
        b.insert(n / 2, 0xff);
        return walk(&b, cx);
    }
    let b = gen::short_bytes(i);
    cx.input_u64(i);
    cx.describe(|| hex(&b));
    walk(&b, cx)
}
fn c02_case(s: &mut Src, cx: &mut Cx) -> R {
    let (b, l) = if s.chance(40) {
        // a sequence of items
        let n = 1 + s.size(6);
        let mut b = Vec::new();
        for _ in 0..n {
            gen::item(s, gen::SMALL).enc(&mut b);
        }
        if s.chance(60) {
            gen::damage(s, &mut b)
        }
        (b, "sequence")
    } else if s.chance(6) {
        let d = 1 + s.idx(3000);
        (gen::deep(s, d), "deep")
    } else {
        gen::any_bytes(s)
    };
    cx.label(l);
    cx.input(&b);
    cx.describe(|| format!("{}: {}", l, hex(&b)));
    walk(&b, cx)
}
pub const C02: Prop = Prop {
    id: "C02",
    rule: "at least one item was accepted, or at least two bytes remained where validation failed; distinct by input",
    assumptions: &["the well-formedness scanner in refcbor.rs follows RFC 8949, with the two dialect choices stated in the property"],
    enum_n: c01_enum_n,
    enum_case: c02_enum,
    case: c02_case,
    quick: 700_000,
    thorough: 30_000_000,
};

// ---- C03 ------------------------------------------------------------------------------------

fn model(b: &[u8], cx: &mut Cx) -> R {
    let e = extent(b);
    let mut r = Reader::new(b);
    match e {
        Err(x) => {
            if let Ok(d) = r.data() {
                return Err(format!("data() accepted {}, which is {:?}: {:?}", hex(b), x, d));
            }
            ensure!(Reader::new(b).decode::<DataOwned>().is_err(), "decode::<DataOwned> accepted {}, which is {:?}", hex(b), x);
            cx.label("not well-formed");
        }
        Ok(n) => {
            cx.nontrivial_if(true);
            match parse(&b[..n], 250) {
                None => {
                    // nested too deep for the recursive model
                    cx.label("deeper than the model");
                    let d = r.data();
                    ensure!(d.is_ok(), "refused a deeply nested item");
                    ensure_eq!(r.consumed_bytes(), n, "consumed");
                }
                Some((it, _)) => {
                    cx.label_if(!it.own_text_ok(), "text that is not UTF-8");
                    cx.label_if(it.has_children(), "has elements");
                    check_read_deep(&mut r, &it)?;
                    let mut r = Reader::new(b);
                    let d = r.decode::<DataOwned>();
                    ensure_eq!(d.is_ok(), it.own_text_ok(), "decode::<DataOwned>");
                    if let Ok(d) = d {
                        ensure_eq!(r.consumed_bytes(), n, "consumed by decode::<DataOwned>");
                        check_data(&d.borrow(), &it)?;
                    }
                }
            }
        }
    }
    Ok(())
}
fn c03_enum(i: u64, cx: &mut Cx) -> R {
    if let Some(it) = shape_of(i, cx) {
        let Some(it) = it else { return Ok(()) };
        let mut b = it.to_vec();
        cx.describe(|| format!("shape {}", hex(&b)));
        let n = b.len();
        model(&b, cx)?;
        model(&b[..n - 1], cx)?;
        b.push(0x00);
        return model(&b, cx);
    }
    if let Some(mut b) = nest_of(i, cx) {
        let n = b.len();
        model(&b[..n - 1], cx)?;
        b.push(0x00);
        return model(&b, cx);
    }
    let b = gen::short_bytes(i);
    cx.input_u64(i);
    cx.describe(|| hex(&b));
    model(&b, cx)
}
fn c03_case(s: &mut Src, cx: &mut Cx) -> R {
    let (b, l) = gen::any_bytes(s);
    cx.label(l);
    cx.input(&b);
    cx.describe(|| format!("{}: {}", l, hex(&b)));
    model(&b, cx)
}
pub const C03: Prop = Prop {
    id: "C03",
    rule: "the input starts with a well-formed item, so that the value read was compared with the model down to the leaves; distinct by input",
    assumptions: &["the parser in refcbor.rs follows RFC 8949"],
    enum_n: c01_enum_n,
    enum_case: c03_enum,
    case: c03_case,
    quick: 400_000,
    thorough: 20_000_000,
};
