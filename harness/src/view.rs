//! Comparison of what the library returns with the reference items.
use crate::engine::R;
use crate::refcbor::*;
use crate::{ensure, ensure_eq};
use cbored::state::HeaderValue;
use cbored::*;

pub fn hv(h: HeaderValue) -> (W, u64) {
    match h {
        HeaderValue::Imm(v) => (W::Imm, v as u64),
        HeaderValue::U8(v) => (W::B1, v as u64),
        HeaderValue::U16(v) => (W::B2, v as u64),
        HeaderValue::U32(v) => (W::B4, v as u64),
        HeaderValue::U64(v) => (W::B8, v),
    }
}
pub fn to_hv(w: W, v: u64) -> HeaderValue {
    match w {
        W::Imm => HeaderValue::Imm(v as u8),
        W::B1 => HeaderValue::U8(v as u8),
        W::B2 => HeaderValue::U16(v as u16),
        W::B4 => HeaderValue::U32(v as u32),
        W::B8 => HeaderValue::U64(v),
    }
}
pub fn ty_of(it: &Item) -> Type {
    match it {
        Item::Uint(..) => Type::Positive,
        Item::Nint(..) => Type::Negative,
        Item::Bytes(_) => Type::Bytes,
        Item::Text(_) => Type::Text,
        Item::Array(..) => Type::Array,
        Item::Map(..) => Type::Map,
        Item::Tag(..) => Type::Tag,
        Item::Simple { .. } => Type::Byte,
        Item::Const(20) => Type::False,
        Item::Const(21) => Type::True,
        Item::Const(22) => Type::Null,
        Item::Const(_) => Type::Undefined,
        Item::F16(_) | Item::F32(_) | Item::F64(_) => Type::Float,
    }
}
pub fn slen(l: StructureLength) -> Option<(W, u64)> {
    match l {
        StructureLength::Indefinite => None,
        StructureLength::Definite(h) => Some(hv(h)),
    }
}
pub fn check_bytes(b: &Bytes, s: &Str) -> R {
    ensure_eq!(b.len(), s.concat().len(), "bytes length");
    ensure_eq!(b.to_vec(), s.concat(), "bytes contents");
    match (b, s) {
        (Bytes::Imm(d), Str::Def(w, c)) => {
            ensure_eq!(hv(d.value()), (*w, c.len() as u64), "bytes header");
            ensure_eq!(d.as_slice(), &c[..], "bytes slice");
        }
        (Bytes::Chunks(v), Str::Chunks(c)) => {
            ensure_eq!(v.len(), c.len(), "number of chunks");
            for (i, (d, (w, c))) in v.iter().zip(c).enumerate() {
                ensure_eq!(hv(d.value()), (*w, c.len() as u64), "chunk {} header", i);
                ensure_eq!(d.as_slice(), &c[..], "chunk {} slice", i);
            }
        }
        _ => return Err(format!("definite/indefinite confused: {:?}", b)),
    }
    Ok(())
}
pub fn check_text(t: &Text, s: &Str) -> R {
    ensure_eq!(t.to_string().into_bytes(), s.concat(), "text contents");
    let ch: Vec<&[u8]> = match s {
        Str::Def(_, c) => vec![&c[..]],
        Str::Chunks(v) => v.iter().map(|(_, c)| &c[..]).collect(),
    };
    let got: Vec<&[u8]> = t.to_str_chunks().into_iter().map(|s| s.as_bytes()).collect();
    ensure_eq!(got, ch, "text chunks");
    match (t, s) {
        (Text::Imm(d), Str::Def(w, c)) => {
            ensure_eq!(hv(d.value()), (*w, c.len() as u64), "text header");
            ensure_eq!(d.as_str().as_bytes(), &c[..], "text slice");
            ensure_eq!((*d.as_ref()).as_bytes(), &c[..], "text as_ref");
        }
        (Text::Chunks(v), Str::Chunks(c)) => {
            ensure_eq!(v.len(), c.len(), "number of chunks");
            for (i, (d, (w, c))) in v.iter().zip(c).enumerate() {
                ensure_eq!(hv(d.value()), (*w, c.len() as u64), "chunk {} header", i);
                ensure_eq!(d.as_str().as_bytes(), &c[..], "chunk {} slice", i);
            }
        }
        _ => return Err(format!("definite/indefinite confused: {:?}", t)),
    }
    Ok(())
}
pub fn check_float(f: &Float, it: &Item) -> R {
    match (f, it) {
        (Float::FP16(a), Item::F16(b)) => ensure_eq!(a, b, "half bits"),
        (Float::FP32(a), Item::F32(b)) => ensure_eq!(a, b, "single bits"),
        (Float::FP64(a), Item::F64(b)) => ensure_eq!(a, b, "double bits"),
        _ => return Err(format!("float of another width: {:?} for {:?}", f, it)),
    }
    Ok(())
}
pub fn check_byte(b: Byte, imm: bool, v: u8) -> R {
    ensure_eq!(b.to_u8(), v, "simple value");
    ensure_eq!(encode_to_bytes(&b), Item::Simple { imm, v }.to_vec(), "simple value representation");
    Ok(())
}
fn same_slice(s: &CborSlice, it: &Item, what: &str, i: usize) -> R {
    let e = it.to_vec();
    ensure!(s.as_ref() == &e[..], "{} {}: got {}, expected {}", what, i, hex(s.as_ref()), hex(&e));
    Ok(())
}
/// a read value against the item, without reading the elements
pub fn check_data(d: &Data, it: &Item) -> R {
    match (d, it) {
        (Data::Positive(p), Item::Uint(w, v)) => {
            ensure_eq!(hv(p.raw_value()), (*w, *v), "positive header");
            ensure_eq!(p.to_u64(), *v, "positive value");
        }
        (Data::Negative(p), Item::Nint(w, v)) => {
            ensure_eq!(hv(p.raw_value()), (*w, *v), "negative header");
            ensure_eq!(p.negative_u64(), *v, "negative value");
        }
        (Data::Bytes(b), Item::Bytes(s)) => check_bytes(b, s)?,
        (Data::Text(b), Item::Text(s)) => check_text(b, s)?,
        (Data::Array(a), Item::Array(w, v)) => {
            ensure_eq!(slen(a.struct_len()), w.map(|w| (w, v.len() as u64)), "array length representation");
            ensure_eq!(a.len(), v.len(), "array length");
            for (i, c) in v.iter().enumerate() {
                same_slice(a[i], c, "element", i)?;
            }
        }
        (Data::Map(a), Item::Map(w, v)) => {
            ensure_eq!(slen(a.struct_len()), w.map(|w| (w, v.len() as u64)), "map length representation");
            ensure_eq!(a.len(), v.len(), "map length");
            for (i, (k, x)) in v.iter().enumerate() {
                same_slice(a[i].0, k, "key", i)?;
                same_slice(a[i].1, x, "value", i)?;
            }
        }
        (Data::Tag(t), Item::Tag(w, v, c)) => {
            ensure_eq!(hv(t.tag_repr().raw_value()), (*w, *v), "tag header");
            ensure_eq!(t.value(), *v, "tag value");
            ensure_eq!(t.tag_repr().to_u64(), *v, "tag value");
            same_slice(t.data(), c, "tag content", 0)?;
        }
        (Data::Byte(b), Item::Simple { imm, v }) => check_byte(*b, *imm, *v)?,
        (Data::Float(f), x @ (Item::F16(_) | Item::F32(_) | Item::F64(_))) => check_float(f, x)?,
        (Data::False, Item::Const(20)) => {}
        (Data::True, Item::Const(21)) => {}
        (Data::Null, Item::Const(22)) => {}
        (Data::Undefined, Item::Const(23)) => {}
        _ => return Err(format!("another kind: {:?} for {:?}", d, it)),
    }
    Ok(())
}
/// reads one item with `Reader::data`, checks it, and everything in it; text that is not UTF-8
/// must be refused
pub fn check_read_deep(r: &mut Reader, it: &Item) -> R {
    let before = r.consumed_bytes();
    let d = match r.data() {
        Ok(d) => d,
        Err(e) => {
            ensure!(!it.own_text_ok(), "refused a well-formed item: {:?} ({:?})", e, short(it));
            ensure!(matches!(e, ReaderError::TextUTF8Error(_)), "invalid UTF-8 refused with {:?}", e);
            return Ok(());
        }
    };
    ensure!(it.own_text_ok(), "accepted text that is not UTF-8");
    ensure_eq!(r.consumed_bytes() - before, it.to_vec().len(), "bytes consumed");
    check_data(&d, it)?;
    match (&d, it) {
        (Data::Array(a), Item::Array(_, v)) => {
            let mut n = 0;
            for (mut r, c) in a.iter().zip(v) {
                check_elem(&mut r, c)?;
                n += 1;
            }
            ensure_eq!(n, v.len(), "array iteration");
        }
        (Data::Map(a), Item::Map(_, v)) => {
            let mut n = 0;
            for ((mut rk, mut rv), (k, x)) in a.iter().zip(v) {
                check_elem(&mut rk, k)?;
                check_elem(&mut rv, x)?;
                n += 1;
            }
            ensure_eq!(n, v.len(), "map iteration");
        }
        (Data::Tag(t), Item::Tag(_, _, c)) => check_elem(&mut t.reader(), c)?,
        _ => {}
    }
    Ok(())
}
fn check_elem(r: &mut Reader, it: &Item) -> R {
    check_read_deep(r, it)?;
    if it.own_text_ok() {
        ensure!(r.is_finished(), "bytes left after an element");
    }
    Ok(())
}
pub fn short(it: &Item) -> String {
    hex(&it.to_vec())
}
/// what a reader error says was found
pub fn got_type(e: &ReaderError) -> Option<Type> {
    match e {
        ReaderError::WrongExpectedType { got, .. } => Some(*got),
        ReaderError::WrongExpectedTypes { got, .. } => Some(*got),
        _ => None,
    }
}
pub fn missing(e: &ReaderError) -> Option<(usize, usize)> {
    match e {
        ReaderError::DataMissing(m) => Some((m.expecting_bytes, m.got_bytes)),
        _ => None,
    }
}
